// The documented naming of generated classes and members, restated independently of the generator
// (lowerCamel getter, set<UpperCamel> setter, reserved words get a _proto suffix, nested classes live in <Parent>_QtProtobufNested).
#pragma once
#include <google/protobuf/descriptor.h>
#include <google/protobuf/descriptor.pb.h>
#include <fstream>
#include <iostream>
#include <set>
using namespace google::protobuf;
static std::string ns(const std::string &pkg) { std::string r; for (char c : pkg) { if (c == '.') r += "::"; else r += c; } return r; }
static std::string up(std::string s) { s[0] = toupper(s[0]); return s; }
static std::string low(std::string s) { s[0] = tolower(s[0]); return s; }
static std::string extra;
static std::string cls(const Descriptor *d)
{
    std::string r = up(d->name());
    for (const Descriptor *p = d->containing_type(); p; p = p->containing_type())
        r = up(p->name()) + "_QtProtobufNested::" + r;
    std::string pkg = ns(d->file()->package());
    return "::" + (extra.empty() ? "" : extra + "::") + (pkg.empty() ? "" : pkg + "::") + r;
}
static std::string prop(const FieldDescriptor *f)
{
    // lowerCamel of the proto name, independent of protoc's camelcase_name
    std::string n, in = f->name();
    bool cap = false;
    for (char c : in) {
        if (c == '_') { cap = true; continue; }
        n += cap ? toupper(c) : c;
        cap = false;
    }
    n = low(n);
    static const std::set<std::string> reserved = {"id", "property", "import"};
    if (reserved.count(n)) n += "_proto";
    return n;
}
static void walk(const Descriptor *d, std::vector<const Descriptor *> &out)
{
    for (int i = 0; i < d->nested_type_count(); i++)
        if (!d->nested_type(i)->options().map_entry()) walk(d->nested_type(i), out);
    out.push_back(d);
}
