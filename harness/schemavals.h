// Values for messages of any schema, built through the reference implementation's reflection.
#pragma once
#include "bridge.h"
#include <climits>
#include <cfloat>
#include <cmath>
typedef const gp::FieldDescriptor *FD;
static int variants(FD f);
// puts variant i (0 .. variants-1) of a single element into the field
static void element(gp::Message &m, FD f, int i, bool add, int depth);
static void schemaFill(gp::Message &m, int i, int depth)
{
    auto d = m.GetDescriptor();
    for (int k = 0; k < d->field_count(); k++) {
        FD f = d->field(k);
        if (f->message_type() && !f->is_map() && depth >= 1) continue;
        if (f->is_map() && f->message_type()->field(1)->message_type() && depth >= 1) continue;
        if (f->is_map()) {
            auto *e = m.GetReflection()->AddMessage(&m, f);
            element(*e, f->message_type()->field(0), (i + k) % variants(f->message_type()->field(0)), false, depth + 1);
            element(*e, f->message_type()->field(1), (i + k) % variants(f->message_type()->field(1)), false, depth + 1);
        } else element(m, f, (i + k) % variants(f), f->is_repeated(), depth + 1);
    }
}
static int variants(FD f)
{
    if (f->cpp_type() == gp::FieldDescriptor::CPPTYPE_ENUM) return f->enum_type()->value_count();
    if (f->cpp_type() == gp::FieldDescriptor::CPPTYPE_BOOL) return 2;
    return 4;
}
static void element(gp::Message &m, FD f, int i, bool add, int depth)
{
    auto r = m.GetReflection();
    switch (f->cpp_type()) {
#define P(K, N, ...) case gp::FieldDescriptor::CPPTYPE_##K: { auto v = __VA_ARGS__; if (add) r->Add##N(&m, f, v); else r->Set##N(&m, f, v); break; }
    P(INT32, Int32, int32_t(i == 0 ? 1 : i == 1 ? -1 : i == 2 ? INT_MAX : INT_MIN))
    P(INT64, Int64, int64_t(i == 0 ? 1 : i == 1 ? -1 : i == 2 ? LLONG_MAX : LLONG_MIN))
    P(UINT32, UInt32, uint32_t(i == 0 ? 1 : i == 1 ? 128 : i == 2 ? UINT_MAX : 0x80000000u))
    P(UINT64, UInt64, uint64_t(i == 0 ? 1 : i == 1 ? 128 : i == 2 ? ULLONG_MAX : 0x8000000000000000ull))
    P(DOUBLE, Double, double(i == 0 ? 1.5 : i == 1 ? -DBL_MAX : i == 2 ? DBL_MIN : HUGE_VAL))
    P(FLOAT, Float, float(i == 0 ? 1.5f : i == 1 ? -FLT_MAX : i == 2 ? FLT_MIN : HUGE_VALF))
    P(BOOL, Bool, i == 0)
    P(ENUM, EnumValue, f->enum_type()->value((i + 1) % f->enum_type()->value_count())->number())
    P(STRING, String, std::string(i == 0 ? "a" : i == 1 ? "\xc3\xa4\xe2\x82\xac" : i == 2 ? std::string(200, 'x') : f->type() == gp::FieldDescriptor::TYPE_BYTES ? "\xff\xfe" : "\xf0\x9f\x98\x80"))
#undef P
    case gp::FieldDescriptor::CPPTYPE_MESSAGE: {
        auto *s = add ? r->AddMessage(&m, f) : r->MutableMessage(&m, f);
        if (i) schemaFill(*s, i, depth);
        break;
    }
    }
}
