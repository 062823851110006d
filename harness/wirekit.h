// Independent wire-format toolkit: encoders, record trees, value domains, corpora, structural validator. No code of /repo is used here.
#pragma once
#include "bridge.h"
#include "core.h"
#include <set>
typedef gp::FieldDescriptor FD;
typedef std::string Bytes;

inline Bytes varint(uint64_t v, int minLen = 1)
{
    Bytes r;
    do { r += char((v & 0x7f) | 0x80); v >>= 7; } while (v);
    while (int(r.size()) < minLen) r += char(0x80);
    r[r.size() - 1] = char(r[r.size() - 1] & 0x7f);
    return r;
}
inline Bytes tag(uint32_t num, int wt) { return varint((uint64_t(num) << 3) | uint64_t(wt)); }
inline Bytes ld(const Bytes &b) { return varint(b.size()) + b; }
inline Bytes fix(uint64_t v, int n) { Bytes r; for (int i = 0; i < n; i++) r += char(v >> (8 * i)); return r; }

struct Val { uint64_t u = 0; double d = 0; Bytes s; };
inline Val vI(int64_t v) { Val r; r.u = uint64_t(v); r.d = double(v); return r; }
inline Val vU(uint64_t v) { Val r; r.u = v; r.d = double(v); return r; }
inline Val vD(double v) { Val r; r.d = v; return r; }
inline Val vS(const Bytes &s) { Val r; r.s = s; return r; }

inline void putVal(gp::Message &m, const FD *f, const Val &v, bool add)
{
    auto r = m.GetReflection();
    switch (f->cpp_type()) {
#define P(K, N, E) case FD::CPPTYPE_##K: if (add) r->Add##N(&m, f, E); else r->Set##N(&m, f, E); break;
    P(INT32, Int32, int32_t(v.u)) P(INT64, Int64, int64_t(v.u)) P(UINT32, UInt32, uint32_t(v.u)) P(UINT64, UInt64, v.u)
    P(BOOL, Bool, v.u != 0) P(ENUM, EnumValue, int(v.u)) P(DOUBLE, Double, v.d) P(FLOAT, Float, float(v.d)) P(STRING, String, v.s)
#undef P
    default: abort();
    }
}
inline int wireTypeOf(const FD *f)
{
    switch (f->type()) {
    case FD::TYPE_DOUBLE: case FD::TYPE_FIXED64: case FD::TYPE_SFIXED64: return 1;
    case FD::TYPE_FLOAT: case FD::TYPE_FIXED32: case FD::TYPE_SFIXED32: return 5;
    case FD::TYPE_STRING: case FD::TYPE_BYTES: case FD::TYPE_MESSAGE: return 2;
    default: return 0;
    }
}
// payload of one element; pad: minimal length of a varint
inline Bytes encVal(const FD *f, const Val &v, int pad = 1)
{
    switch (f->type()) {
    case FD::TYPE_DOUBLE: { uint64_t u; memcpy(&u, &v.d, 8); return fix(u, 8); }
    case FD::TYPE_FLOAT: { float x = float(v.d); uint32_t u; memcpy(&u, &x, 4); return fix(u, 4); }
    case FD::TYPE_FIXED64: case FD::TYPE_SFIXED64: return fix(v.u, 8);
    case FD::TYPE_FIXED32: case FD::TYPE_SFIXED32: return fix(v.u, 4);
    case FD::TYPE_STRING: case FD::TYPE_BYTES: return varint(v.s.size(), pad) + v.s;
    case FD::TYPE_SINT32: { int32_t n = int32_t(v.u); return varint((uint32_t(n) << 1) ^ uint32_t(n >> 31), pad); }
    case FD::TYPE_SINT64: { int64_t n = int64_t(v.u); return varint((uint64_t(n) << 1) ^ uint64_t(n >> 63), pad); }
    case FD::TYPE_UINT32: return varint(uint32_t(v.u), pad);
    case FD::TYPE_INT32: case FD::TYPE_ENUM: return varint(uint64_t(int64_t(int32_t(v.u))), pad);
    case FD::TYPE_BOOL: return varint(v.u != 0, pad);
    default: return varint(v.u, pad);
    }
}
// ---- value domains: level 0: one non-default; 1: a handful; 2: every boundary -----------------------------------------
inline std::vector<Val> domain(const FD *f, int level)
{
    std::vector<Val> r;
    auto ints = [&](bool sgn, int bits) {
        if (level == 0) { r.push_back(sgn ? vI(-2) : vU(300)); return; }
        if (level == 1) {
            r = {vU(0), vU(1), vU(128), sgn ? vI(-1) : vU(bits == 64 ? UINT64_MAX : UINT32_MAX)};
            r.push_back(bits == 64 ? vU(1ull << 62) : vU(1u << 30));
            return;
        }
        std::set<uint64_t> s;
        for (int k = 0; k <= bits; k++)
            for (int d = -1; d <= 1; d++) {
                uint64_t v = (k == 64 ? 0 : 1ull << k) + uint64_t(int64_t(d));
                s.insert(v);
                if (sgn) s.insert(0 - v);
            }
        std::set<uint64_t> q;
        for (uint64_t v : s) q.insert(bits == 32 ? (sgn ? uint64_t(int64_t(int32_t(v))) : uint64_t(uint32_t(v))) : v);
        for (uint64_t v : q) r.push_back(vU(v));
    };
    switch (f->type()) {
    case FD::TYPE_INT32: case FD::TYPE_SINT32: case FD::TYPE_SFIXED32: ints(true, 32); break;
    case FD::TYPE_INT64: case FD::TYPE_SINT64: case FD::TYPE_SFIXED64: ints(true, 64); break;
    case FD::TYPE_UINT32: case FD::TYPE_FIXED32: ints(false, 32); break;
    case FD::TYPE_UINT64: case FD::TYPE_FIXED64: ints(false, 64); break;
    case FD::TYPE_BOOL: r.push_back(vU(1)); if (level > 0) r.push_back(vU(0)); break;
    case FD::TYPE_ENUM:
        r.push_back(vU(1));
        if (level > 0) { r.push_back(vI(0)); r.push_back(vI(2)); r.push_back(vI(-1)); r.push_back(vI(2147483647)); }
        if (level > 1) { r.push_back(vI(-2147483648LL)); r.push_back(vI(77)); } // 77: not declared (proto3 enums are open)
        break;
    case FD::TYPE_FLOAT: case FD::TYPE_DOUBLE: {
        bool dbl = f->type() == FD::TYPE_DOUBLE;
        r.push_back(vD(-0.5));
        if (level > 0) { r.push_back(vD(0)); r.push_back(vD(1e30)); r.push_back(vD(dbl ? 4.9e-324 : 1.4e-45)); r.push_back(vD(3.25)); }
        if (level > 1) {
            int emin = dbl ? -1074 : -149, emax = dbl ? 1023 : 127;
            for (int e = emin; e <= emax; e++) { r.push_back(vD(ldexp(1, e))); r.push_back(vD(-ldexp(1, e))); }
            for (int e = emin + 60; e <= emax; e += 7) r.push_back(vD(ldexp(dbl ? 1.3333333333333333 : 1.33333337306976318359375, e)));
            r.push_back(vD(INFINITY)); r.push_back(vD(-INFINITY)); r.push_back(vD(NAN));
            r.push_back(vD(dbl ? 1.7976931348623157e308 : 3.4028234663852886e38));
        }
        break;
    }
    case FD::TYPE_STRING:
        r.push_back(vS("q\xc3\xa4"));
        if (level > 0) { r.push_back(vS("")); r.push_back(vS(Bytes("a\0b", 3))); r.push_back(vS("\xf0\x9f\x98\x80")); r.push_back(vS(Bytes(130, 'x'))); }
        if (level > 1) {
            for (int n = 1; n <= 300; n++) r.push_back(vS(Bytes(size_t(n), 'y')));
            for (int n : {16382, 16383, 16384, 16385, 65535, 65536, 2097151, 2097152}) r.push_back(vS(Bytes(size_t(n), 'z')));
            // one text per length class of UTF-8, and every code point class boundary
            for (uint32_t c : {1u, 0x7fu, 0x80u, 0x7ffu, 0x800u, 0xd7ffu, 0xe000u, 0xfffdu, 0xfeffu, 0xffffu, 0x10000u, 0x10ffffu}) {
                QString q = QString::fromUcs4(&c, 1);
                if (c == 0xfeff) continue; // a leading byte-order mark is not part of the text for Qt
                QByteArray b = q.toUtf8();
                r.push_back(vS(Bytes(b.constData(), size_t(b.size()))));
                r.push_back(vS("p" + Bytes(b.constData(), size_t(b.size())) + "s"));
            }
            r.push_back(vS(Bytes(1, '\0')));
        }
        break;
    case FD::TYPE_BYTES:
        r.push_back(vS(Bytes("\0\xff", 2)));
        if (level > 0) { r.push_back(vS("")); r.push_back(vS("\x80")); r.push_back(vS(Bytes(1, '\0'))); r.push_back(vS(Bytes(129, '\xfe'))); }
        if (level > 1) {
            for (int c = 0; c < 256; c++) r.push_back(vS(Bytes(1, char(c))));
            for (int n = 2; n <= 300; n++) r.push_back(vS(Bytes(size_t(n), char(n))));
            for (int n : {16382, 16383, 16384, 16385, 65535, 65536, 2097151, 2097152}) r.push_back(vS(Bytes(size_t(n), '\x81')));
        }
        break;
    default: abort();
    }
    return r;
}
inline bool isMsg(const FD *f) { return f->cpp_type() == FD::CPPTYPE_MESSAGE; }
// fills a sub-message with a value chosen by k (k = 0: empty)
inline void fillMsg(gp::Message &m, int k)
{
    if (k == 0) return;
    auto d = m.GetDescriptor();
    for (int i = 0; i < d->field_count(); i++) {
        auto f = d->field(i);
        if (k == 1 && i) break;
        if (isMsg(f) && !f->is_repeated()) { if (k > 1) fillMsg(*m.GetReflection()->MutableMessage(&m, f), k - 1); continue; }
        if (isMsg(f)) {
            if (k > 2) {
                auto e = m.GetReflection()->AddMessage(&m, f);
                if (f->is_map()) { putVal(*e, f->message_type()->field(0), domain(f->message_type()->field(0), 0)[0], false); if (isMsg(f->message_type()->field(1))) fillMsg(*e->GetReflection()->MutableMessage(e, f->message_type()->field(1)), k - 2); else putVal(*e, f->message_type()->field(1), domain(f->message_type()->field(1), 0)[0], false); }
                else fillMsg(*e, k - 2);
            }
            continue;
        }
        putVal(m, f, domain(f, k % 2 ? 0 : 1)[k % 2 ? 0 : 1], f->is_repeated());
    }
}
typedef std::function<void(gp::Message &)> Setter;
// ways to fill one field (always excluding "leave it alone")
inline std::vector<Setter> fieldSetters(const FD *f, int level)
{
    std::vector<Setter> r;
    if (f->is_map()) {
        auto kf = f->message_type()->field(0), vf = f->message_type()->field(1);
        auto keys = domain(kf, level == 0 ? 0 : 1);
        int nv = isMsg(vf) ? 3 : 0;
        auto vals = isMsg(vf) ? std::vector<Val>() : domain(vf, level == 0 ? 0 : 1);
        if (!nv) nv = int(vals.size());
        auto put = [=](gp::Message &m, const Val &k, int vi) {
            auto e = m.GetReflection()->AddMessage(&m, f);
            putVal(*e, kf, k, false);
            if (isMsg(vf)) fillMsg(*e->GetReflection()->MutableMessage(e, vf), vi); else putVal(*e, vf, vals[size_t(vi)], false);
        };
        for (auto &k : keys) for (int v = 0; v < nv; v++) {
            if (isMsg(vf) && level == 0 && v != 1) continue;
            r.push_back([=](gp::Message &m) { put(m, k, v); });
        }
        if (level >= 1)
            for (size_t a = 0; a < keys.size(); a++) for (size_t b = a + 1; b < keys.size(); b++)
                for (int v = 0; v < nv; v++) for (int w = 0; w < nv; w++)
                    r.push_back([=](gp::Message &m) { put(m, keys[a], v); put(m, keys[b], w); });
        if (level >= 2) {
            auto big = domain(kf, 2);
            for (auto &k : big) if (k.s.size() < 70000) r.push_back([=](gp::Message &m) { put(m, k, nv - 1); });
            if (!isMsg(vf)) for (auto &w : domain(vf, 2)) if (w.s.size() < 70000) r.push_back([=](gp::Message &m) {
                auto e = m.GetReflection()->AddMessage(&m, f); putVal(*e, kf, keys[0], false); putVal(*e, vf, w, false); });
            r.push_back([=](gp::Message &m) { int i = 0; for (auto &k : keys) put(m, k, (i++) % nv); });
            r.push_back([=](gp::Message &m) { int i = 0; for (auto &k : big) if (k.s.size() < 200) put(m, k, (i++) % nv); });
        }
    } else if (f->is_repeated()) {
        if (isMsg(f)) {
            auto add = [=](gp::Message &m, int k) { fillMsg(*m.GetReflection()->AddMessage(&m, f), k); };
            if (level == 0) { r.push_back([=](gp::Message &m) { add(m, 1); }); return r; }
            for (int a = 0; a < 4; a++) {
                r.push_back([=](gp::Message &m) { add(m, a); });
                for (int b = 0; b < 4; b++) {
                    r.push_back([=](gp::Message &m) { add(m, a); add(m, b); });
                    if (level > 1) for (int c = 0; c < 4; c++) r.push_back([=](gp::Message &m) { add(m, a); add(m, b); add(m, c); });
                }
            }
            if (level > 1) for (int n : {60, 127, 128, 129, 300}) r.push_back([=](gp::Message &m) { for (int i = 0; i < n; i++) add(m, i % 4); });
        } else {
            if (level == 0) { Val v = domain(f, 0)[0]; r.push_back([=](gp::Message &m) { putVal(m, f, v, true); }); return r; }
            auto d = domain(f, 1);
            for (auto &a : d) {
                r.push_back([=](gp::Message &m) { putVal(m, f, a, true); });
                for (auto &b : d) {
                    r.push_back([=](gp::Message &m) { putVal(m, f, a, true); putVal(m, f, b, true); });
                    if (level > 1) for (auto &c : d) r.push_back([=](gp::Message &m) { putVal(m, f, a, true); putVal(m, f, b, true); putVal(m, f, c, true); });
                }
            }
            if (level > 1) {
                auto big = domain(f, 2);
                for (auto &a : big) r.push_back([=](gp::Message &m) { putVal(m, f, a, true); });
                r.push_back([=](gp::Message &m) { for (auto &a : big) if (a.s.size() < 400) putVal(m, f, a, true); });
                for (int n = 1; n <= 140; n++) for (auto &a : d) r.push_back([=](gp::Message &m) { for (int i = 0; i < n; i++) putVal(m, f, a, true); });
            }
        }
    } else if (isMsg(f)) {
        for (int k = (level == 0 ? 1 : 0); k < (level == 0 ? 2 : 5); k++) r.push_back([=](gp::Message &m) { fillMsg(*m.GetReflection()->MutableMessage(&m, f), k); });
        if (level > 1) {
            auto sd = f->message_type();
            for (int i = 0; i < sd->field_count(); i++)
                for (auto &s : fieldSetters(sd->field(i), isMsg(sd->field(i)) ? 1 : 2)) r.push_back([=](gp::Message &m) { s(*m.GetReflection()->MutableMessage(&m, f)); });
        }
    } else {
        for (auto &v : domain(f, level)) r.push_back([=](gp::Message &m) { putVal(m, f, v, false); });
    }
    return r;
}
// ---- records of an encoded message -----------------------------------------------------------------------------------
struct Rec { Bytes head; uint32_t num; int wt; Bytes body; /* without length for wt 2 */ Bytes raw() const { return head + (wt == 2 ? ld(body) : body); } };
inline std::vector<Rec> records(const Bytes &b)
{
    std::vector<Rec> r;
    size_t p = 0;
    auto rd = [&]() { uint64_t v = 0; int k = 0; while (true) { unsigned char c = (unsigned char)b.at(p++); v |= uint64_t(c & 0x7f) << k; k += 7; if (!(c & 0x80)) return v; } };
    while (p < b.size()) {
        Rec x; size_t s = p;
        uint64_t t = rd();
        x.num = uint32_t(t >> 3); x.wt = int(t & 7); x.head = b.substr(s, p - s);
        s = p;
        if (x.wt == 0) { rd(); x.body = b.substr(s, p - s); }
        else if (x.wt == 1) { x.body = b.substr(p, 8); p += 8; }
        else if (x.wt == 5) { x.body = b.substr(p, 4); p += 4; }
        else { uint64_t n = rd(); x.body = b.substr(p, n); p += n; }
        r.push_back(x);
    }
    return r;
}
inline Bytes join(const std::vector<Rec> &v) { Bytes b; for (auto &r : v) b += r.raw(); return b; }
// calls cb(bytes, desc) for every way to put "ins(desc)" between two records at any nesting level
inline void insertEverywhere(const Bytes &b, const gp::Descriptor *d, const std::function<std::vector<Bytes>(const gp::Descriptor *)> &ins, const std::function<void(const Bytes &)> &cb)
{
    auto rs = records(b);
    for (auto &x : ins(d)) {
        Bytes pre;
        for (size_t i = 0; i <= rs.size(); i++) {
            Bytes post;
            for (size_t j = i; j < rs.size(); j++) post += rs[j].raw();
            cb(pre + x + post);
            if (i < rs.size()) pre += rs[i].raw();
        }
    }
    for (size_t i = 0; i < rs.size(); i++) {
        auto f = d->FindFieldByNumber(int(rs[i].num));
        if (!f || !isMsg(f) || rs[i].wt != 2) continue;
        Bytes pre, post;
        for (size_t j = 0; j < i; j++) pre += rs[j].raw();
        for (size_t j = i + 1; j < rs.size(); j++) post += rs[j].raw();
        insertEverywhere(rs[i].body, f->message_type(), ins, [&](const Bytes &in) { cb(pre + rs[i].head + ld(in) + post); });
    }
}
// calls cb for every way to transform one record at any nesting level (tr returns raw encodings that replace the record)
inline void replaceEverywhere(const Bytes &b, const gp::Descriptor *d, const std::function<std::vector<Bytes>(const Rec &, const FD *)> &tr, const std::function<void(const Bytes &)> &cb)
{
    auto rs = records(b);
    for (size_t i = 0; i < rs.size(); i++) {
        Bytes pre, post;
        for (size_t j = 0; j < i; j++) pre += rs[j].raw();
        for (size_t j = i + 1; j < rs.size(); j++) post += rs[j].raw();
        auto f = d->FindFieldByNumber(int(rs[i].num));
        for (auto &x : tr(rs[i], f)) cb(pre + x + post);
        if (f && isMsg(f) && rs[i].wt == 2)
            replaceEverywhere(rs[i].body, f->message_type(), tr, [&](const Bytes &in) { cb(pre + rs[i].head + ld(in) + post); });
    }
}
// ---- structural validator ---------------------------------------------------------------------------------------------
enum Verdict { VALID, INVALID, UNSPECIFIED }; // UNSPECIFIED: outside the statement (overlong headers, declared field with another wire type)
inline Verdict classify(const unsigned char *p, const unsigned char *e, const gp::Descriptor *d, int depth = 0)
{
    bool unspec = false;
    if (depth > 90) return UNSPECIFIED; // implementations may limit nesting
    auto rd = [&](uint64_t &v, int &n) {
        v = 0; n = 0;
        while (p < e) {
            unsigned char c = *p++;
            if (n < 10) v |= (n == 9 ? uint64_t(c & 1) << 63 : uint64_t(c & 0x7f) << (7 * n));
            if (++n > 10) return false;
            if (!(c & 0x80)) return true;
        }
        return false;
    };
    while (p < e) {
        uint64_t t, v; int n;
        if (!rd(t, n)) return unspec ? UNSPECIFIED : INVALID;
        if (n > 5 || t > 0xffffffffull) unspec = true;
        uint32_t num = uint32_t(t) >> 3; int wt = int(t & 7);
        if (num == 0 || (wt != 0 && wt != 1 && wt != 2 && wt != 5)) return unspec ? UNSPECIFIED : INVALID;
        auto f = d ? d->FindFieldByNumber(int(num)) : nullptr;
        int want = f ? wireTypeOf(f) : -1;
        bool packable = f && f->is_repeated() && want != 2;
        if (f && wt != want && !(packable && wt == 2)) { f = nullptr; unspec = true; packable = false; }
        if (unspec) { f = nullptr; packable = false; }
        if (wt == 0) { if (!rd(v, n)) return unspec ? UNSPECIFIED : INVALID; }
        else if (wt == 1) { if (e - p < 8) return unspec ? UNSPECIFIED : INVALID; p += 8; }
        else if (wt == 5) { if (e - p < 4) return unspec ? UNSPECIFIED : INVALID; p += 4; }
        else {
            if (!rd(v, n)) return unspec ? UNSPECIFIED : INVALID;
            if (v > uint64_t(e - p)) return unspec ? UNSPECIFIED : INVALID;
            const unsigned char *q = p + v;
            if (f && isMsg(f)) {
                Verdict s = classify(p, q, f->message_type(), depth + 1);
                if (s == INVALID) return unspec ? UNSPECIFIED : INVALID;
                if (s == UNSPECIFIED) unspec = true;
            } else if (packable) {
                while (p < q) {
                    if (want == 0) { const unsigned char *se = e; e = q; bool ok = rd(v, n); e = se; if (!ok) return unspec ? UNSPECIFIED : INVALID; }
                    else if (q - p < (want == 1 ? 8 : 4)) return unspec ? UNSPECIFIED : INVALID;
                    else p += want == 1 ? 8 : 4;
                }
            }
            p = q;
        }
    }
    return unspec ? UNSPECIFIED : VALID;
}
inline Verdict classify(const Bytes &b, const gp::Descriptor *d) { auto p = reinterpret_cast<const unsigned char *>(b.data()); return classify(p, p + b.size(), d); }
