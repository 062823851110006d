// sbridge FDS OUTDIR KEY=VALUE...: writes OUTDIR/all.h (accessors of every class, see bridge.h) and OUTDIR/part<N>.cpp (tables of what
// the schema promises about every class, field and enum), from the descriptors alone.
// keys: multi, folder, qml (0/1), extra (namespace), per (classes per part)
#include "naming.h"
#include <map>
#include <sstream>
static std::map<std::string, std::string> opt;
static std::string lower(std::string s) { for (char &c : s) c = tolower(c); return s; }
static std::string base(const FileDescriptor *f) { std::string n = f->name(); size_t s = n.rfind('/'); if (s != std::string::npos) n = n.substr(s + 1); return n.substr(0, n.rfind('.')); }
static std::string dir(const FileDescriptor *f)
{
    std::string r;
    if (opt["folder"] != "1" || f->package().empty()) return r;
    for (char c : f->package()) r += c == '.' ? '/' : c;
    return r + "/";
}
static std::string fq(const std::string &pkg) { std::string p = ns(pkg); return "::" + (extra.empty() ? "" : extra + "::") + (p.empty() ? "" : p + "::"); }
static std::string ecls(const EnumDescriptor *e) { return e->containing_type() ? cls(e->containing_type()) : fq(e->file()->package()) + up(e->name()) + "Gadget"; }
static std::string scalarType(const FieldDescriptor *f)
{
    switch (f->type()) {
    case FieldDescriptor::TYPE_DOUBLE: return "double";
    case FieldDescriptor::TYPE_FLOAT: return "float";
    case FieldDescriptor::TYPE_BOOL: return "bool";
    case FieldDescriptor::TYPE_STRING: return "QString";
    case FieldDescriptor::TYPE_BYTES: return "QByteArray";
    case FieldDescriptor::TYPE_ENUM: return ecls(f->enum_type()) + "::" + up(f->enum_type()->name());
    case FieldDescriptor::TYPE_MESSAGE: return cls(f->message_type());
    default: return std::string("QtProtobuf::") + f->type_name();
    }
}
static std::string expected(const FieldDescriptor *f)
{
    if (f->is_map()) {
        auto v = f->message_type()->field(1);
        std::string t = scalarType(v);
        if (v->type() == FieldDescriptor::TYPE_MESSAGE) t = "QSharedPointer<" + t + ">";
        return "QMap<" + scalarType(f->message_type()->field(0)) + ", " + t + ">";
    }
    std::string t = scalarType(f);
    if (!f->is_repeated()) return t;
    if (f->type() == FieldDescriptor::TYPE_MESSAGE) return "QList<QSharedPointer<" + t + ">>";
    if (f->type() == FieldDescriptor::TYPE_STRING) return "QStringList";
    return "QList<" + t + ">";
}
static std::string q(const std::string &s) { std::string r = "\""; for (char c : s) { if (c == '"' || c == '\\') r += '\\'; r += c; } return r + "\""; }
static std::string join(const std::vector<std::string> &v, const char *s) { std::string r; for (auto &x : v) r += (r.empty() ? "" : s) + x; return r; }
static std::string plain(std::string c) { return c.substr(2); } // without leading ::
static void put(const std::string &path, const std::string &text)
{
    std::ifstream in(path);
    std::stringstream old;
    old << in.rdbuf();
    if (in && old.str() == text) return;
    std::ofstream(path) << text;
}
int main(int argc, char **argv)
{
    FileDescriptorSet set;
    { std::ifstream in(argv[1], std::ios::binary); if (!set.ParseFromIstream(&in)) return 1; }
    std::string out = argv[2];
    for (int i = 3; i < argc; i++) { std::string a = argv[i]; size_t e = a.find('='); opt[a.substr(0, e)] = a.substr(e + 1); }
    extra = opt["extra"];
    bool multi = opt["multi"] == "1", qml = opt["qml"] == "1";
    DescriptorPool pool;
    std::vector<const Descriptor *> msgs;
    std::vector<const EnumDescriptor *> enums;
    std::set<std::string> incs;
    for (int i = 0; i < set.file_size(); i++) {
        const FileDescriptor *f = pool.BuildFile(set.file(i));
        if (!f) return 2;
        if (!multi && (f->message_type_count() || f->enum_type_count())) incs.insert(dir(f) + base(f) + ".qpb.h");
        for (int j = 0; j < f->message_type_count(); j++) {
            walk(f->message_type(j), msgs);
            if (multi) incs.insert(dir(f) + lower(f->message_type(j)->name()) + ".h");
        }
        for (int j = 0; j < f->enum_type_count(); j++) { enums.push_back(f->enum_type(j)); if (multi) incs.insert("globalenums.h"); }
    }
    for (auto d : msgs) for (int i = 0; i < d->enum_type_count(); i++) enums.push_back(d->enum_type(i));
    std::stringstream h;
    h << "// generated by sbridge\n#pragma once\n#include \"bridge.h\"\n";
    for (auto &i : incs) h << "#include \"" << i << "\"\n";
    for (auto d : msgs) {
        h << "template<> struct VB<" << cls(d) << "> {\n  typedef " << cls(d) << " C;\n  static const char *name() { return \"" << d->full_name() << "\"; }\n"
          << "  template<class V> static void visit(V &v) {\n";
        for (int i = 0; i < d->field_count(); i++) {
            auto f = d->field(i);
            std::string p = prop(f);
            h << "    v(\"" << f->name() << "\", [](const C &c) -> typename VDecay<decltype(c." << p << "())>::type { return c." << p
              << "(); }, [](C &c, const typename VDecay<decltype(std::declval<const C &>()." << p << "())>::type &x) { c.set" << up(p) << "(x); });\n";
        }
        h << "    (void)v;\n  }\n  static const int fields = " << d->field_count() << ";\n};\n";
    }
    put(out + "/all.h", h.str());
    size_t per = size_t(atoi(opt["per"].empty() ? "12" : opt["per"].c_str())), part = 0;
    for (size_t k = 0; k < msgs.size(); k += per, part++) {
        std::stringstream c;
        c << "// generated by sbridge\n#include \"all.h\"\n#include \"schema.h\"\n";
        for (size_t n = k; n < msgs.size() && n < k + per; n++) {
            auto d = msgs[n];
            for (int i = 0; i < d->field_count(); i++)
                c << "static_assert(std::is_same<VDecay<decltype(std::declval<const " << cls(d) << " &>()." << prop(d->field(i)) << "())>::type, " << expected(d->field(i)) << ">::value, \"type of "
                  << d->field(i)->full_name() << "\");\n";
            c << "static SMessage m" << n << "(sMessage<" << cls(d) << ">(" << q(plain(cls(d))) << ", {";
            for (int i = 0; i < d->field_count(); i++) {
                auto f = d->field(i);
                std::string p = prop(f), bound = p, alias;
                bool alias32 = !f->is_repeated() && (f->type() == FieldDescriptor::TYPE_INT32 || f->type() == FieldDescriptor::TYPE_SFIXED32 || f->type() == FieldDescriptor::TYPE_FIXED32);
                if (f->is_repeated() && !f->is_map() && f->type() == FieldDescriptor::TYPE_MESSAGE) { bound = p + "Data"; if (qml) alias = p; }
                else if (alias32 && qml) { bound = p + "_p"; alias = p; }
                c << (i ? ", " : "") << "{" << q(f->name()) << ", " << q(p) << ", " << q(bound) << ", " << q(alias) << ", " << q(up(p) + "ProtoFieldNumber") << "}";
            }
            std::string uri = (extra.empty() ? "" : extra + ".") + d->file()->package();
            std::vector<std::string> outer;
            for (auto p = d->containing_type(); p; p = p->containing_type()) outer.insert(outer.begin(), up(p->name()));
            for (auto &o : outer) uri += (uri.empty() ? "" : ".") + o;
            c << "}, " << q(uri) << ", " << q(up(d->name())) << "));\n";
        }
        put(out + "/part" + std::to_string(part) + ".cpp", c.str());
    }
    std::stringstream c;
    c << "// generated by sbridge\n#include \"all.h\"\n#include \"schema.h\"\n";
    for (size_t n = 0; n < enums.size(); n++) {
        auto e = enums[n];
        c << "static SEnum e" << n << "{" << q(e->full_name()) << ", &" << ecls(e) << "::staticMetaObject, " << q(up(e->name())) << ", {";
        for (int i = 0; i < e->value_count(); i++)
            c << (i ? ", " : "") << "{" << q(up(e->value(i)->name())) << ", int(" << ecls(e) << "::" << up(e->value(i)->name()) << ")}";
        c << "}};\n";
    }
    put(out + "/part" + std::to_string(part) + ".cpp", c.str());
    if (opt["grpc"] != "1") return 0;
    std::stringstream g;
    std::set<std::string> cinc;
    std::vector<const ServiceDescriptor *> svcs;
    for (int i = 0; i < set.file_size(); i++) {
        auto f = pool.FindFileByName(set.file(i).name());
        for (int j = 0; j < f->service_count(); j++) {
            svcs.push_back(f->service(j));
            cinc.insert(multi ? dir(f) + lower(f->service(j)->name()) + "client.h" : dir(f) + base(f) + "_grpc.qpb.h");
        }
    }
    g << "// generated by sbridge\n#include \"all.h\"\n#include \"service.h\"\n";
    for (auto &i : cinc) g << "#include \"" << i << "\"\n";
    int n = 0;
    for (auto s : svcs) {
        std::string client = fq(s->file()->package()) + up(s->name()) + "Client";
        g << "static SService s" << n++ << "{" << q(s->full_name()) << ", []() -> QtProtobuf::QAbstractGrpcClient * { return new " << client << "; }, " << s->method_count() << "};\n";
        for (int i = 0; i < s->method_count(); i++) {
            auto m = s->method(i);
            std::string in = cls(m->input_type()), out = cls(m->output_type()), name = m->name();
            g << "namespace { struct M" << n << " {\n  typedef " << client << " Client; typedef " << in << " In; typedef " << out << " Out;\n"
              << "  static const char *service() { return " << q(s->full_name()) << "; }\n  static const char *method() { return " << q(name) << "; }\n"
              << "  static const bool streaming = " << (m->server_streaming() ? "true" : "false") << ", qml = " << (qml ? "true" : "false") << ";\n";
            if (m->server_streaming()) {
                g << "  static QtProtobuf::QGrpcStreamShared plain(Client *c, const In &a) { return c->stream" << up(name) << "(a); }\n"
                  << "  static QtProtobuf::QGrpcStreamShared bound(Client *c, const In &a, const QPointer<Out> &r) { return c->stream" << up(name) << "(a, r); }\n"
                  << "  static const char *invokable() { return " << q("qmlStream" + up(name) + "_p") << "; }\n";
            } else {
                g << "  static QtProtobuf::QGrpcStatus sync(Client *c, const In &a, const QPointer<Out> &r) { return c->" << name << "(a, r); }\n"
                  << "  static QtProtobuf::QGrpcCallReplyShared async(Client *c, const In &a) { return c->" << name << "(a); }\n"
                  << "  static void callback(Client *c, const In &a, const QObject *x, const std::function<void(QtProtobuf::QGrpcCallReplyShared)> &f) { c->" << name << "(a, x, f); }\n";
                g << "  static void js(Client *c, In *a, const QJSValue &f, const QJSValue &e) { " << (qml ? "c->" + name + "(a, f, e);" : "") << " }\n"
                  << "  static void jsret(Client *c, In *a, Out *r, const QJSValue &e) { " << (qml ? "c->" + name + "(a, r, e);" : "") << " }\n";
            }
            g << "}; }\nstatic bool r" << n << " = sMethod<M" << n << ">();\n";
            n++;
        }
    }
    put(out + "/services.cpp", g.str());
}
