// Wire explorer (P01-P06): exhaustive enumeration of message values, encodings and byte strings; every case is decided by comparing
// the real serializer with google::protobuf's reflection-based implementation or with the structural validator of wirekit.h.
#include "wirekit.h"
#include "wire.bridge.h"
#include "rec.bridge.h"
#include <QProtobufSerializer>
#include <memory>
#include <stdexcept>
#if defined(__SANITIZE_ADDRESS__)
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *));
extern "C" void __asan_poison_memory_region(void const volatile *, size_t);
extern "C" void __asan_unpoison_memory_region(void const volatile *, size_t);
#endif
using namespace QtProtobuf;
static VWorld W;
static QProtobufSerializer *S;
static std::unique_ptr<gp::Message> fresh(const VClass &c) { return std::unique_ptr<gp::Message>(c.proto->New()); }
static QByteArray qb(const Bytes &b) { return QByteArray(b.data(), int(b.size())); }
static Bytes sb(const QByteArray &b) { return Bytes(b.constData(), size_t(b.size())); }
static std::string shown(const VClass &c, const Bytes &b) { return c.name + " " + (b.size() > 400 ? Core::hex(b.substr(0, 400)) + "...(" + std::to_string(b.size()) + " bytes)" : Core::hex(b)); }
typedef std::unique_ptr<QObject> Obj;
static std::string canonQ(const VClass &c, const QObject *o)
{
    auto m = fresh(c);
    int before = vbNullMapValues;
    c.toRef(o, *m);
    if (vbNullMapValues != before) return "<null map value>";
    return vbCanon(*m);
}
static bool hasNaN(const std::string &canon) { return canon.find("nan") != std::string::npos; }
static Bytes refBytes(const gp::Message &m) { Bytes b; m.SerializeToString(&b); return b; }
static std::vector<const VClass *> classes(std::initializer_list<const char *> names)
{
    std::vector<const VClass *> r;
    for (auto n : names) r.push_back(&W["vw." + std::string(n)]);
    return r;
}
static bool decode(const VClass &c, QObject *o, const QByteArray &b, std::string &err)
{
    try {
        c.deserialize(S, o, b);
        return true;
    } catch (std::out_of_range &e) {
        err = "out_of_range";
    } catch (std::invalid_argument &e) {
        err = "invalid_argument";
    } catch (std::exception &e) {
        err = std::string("!undocumented exception ") + e.what();
    } catch (...) {
        err = "!undocumented exception";
    }
    return false;
}
static int unknownCount(const gp::Message &m)
{
    int n = m.GetReflection()->GetUnknownFields(m).field_count();
    std::vector<const FD *> fs;
    m.GetReflection()->ListFields(m, &fs);
    for (auto f : fs) if (isMsg(f)) {
        if (f->is_repeated()) for (int i = 0; i < m.GetReflection()->FieldSize(m, f); i++) n += unknownCount(m.GetReflection()->GetRepeatedMessage(m, f, i));
        else n += unknownCount(m.GetReflection()->GetMessage(m, f));
    }
    return n;
}
// ---- enumeration of message values ------------------------------------------------------------------------------------
typedef std::function<void(const VClass &, const std::function<void(gp::Message &)> &)> CaseFn;
static void nestTrees(const VClass &c, const CaseFn &cb)
{
    // every tree of nested messages with at most N nodes; a shape is a list of (slot, child shape)
    struct Shape { std::vector<std::pair<int, Shape>> kids; };
    std::map<std::pair<int, int>, std::vector<Shape>> memo;
    std::function<std::vector<Shape>(int, int)> gen = [&](int level, int nodes) { // trees of exactly `nodes` nodes rooted at level
        auto key = std::make_pair(level, nodes);
        auto it = memo.find(key);
        if (it != memo.end()) return it->second;
        std::vector<Shape> out;
        if (nodes == 1) out.push_back(Shape());
        else if (level < 4) {
            // forests: sequences of kids with non-decreasing slot (slot 0 at most once)
            std::function<void(int, int, Shape &)> rec = [&](int slot, int left, Shape &cur) {
                if (left == 0) { out.push_back(cur); return; }
                for (int s = slot; s < 3; s++)
                    for (int n = 1; n <= left; n++)
                        for (auto &k : gen(level + 1, n)) {
                            cur.kids.push_back({s, k});
                            rec(s == 0 ? 1 : s, left - n, cur);
                            cur.kids.pop_back();
                        }
            };
            Shape s;
            rec(0, nodes - 1, s);
        }
        memo[key] = out;
        return out;
    };
    int N = CORE.thorough() ? 6 : 5;
    for (int n = 1; n <= N; n++)
        for (auto &sh : gen(1, n))
            cb(c, [&](gp::Message &m) {
                int id = 0;
                std::function<void(gp::Message &, const Shape &, int)> build = [&](gp::Message &m, const Shape &s, int level) {
                    auto d = m.GetDescriptor();
                    putVal(m, d->FindFieldByName("tag"), vI(id++ * 100 - 3), false);
                    if (level == 4) { putVal(m, d->FindFieldByName("text"), vS("t"), false); return; }
                    for (auto &k : s.kids) {
                        if (k.first == 0) build(*m.GetReflection()->MutableMessage(&m, d->FindFieldByName("one")), k.second, level + 1);
                        else if (k.first == 1) build(*m.GetReflection()->AddMessage(&m, d->FindFieldByName("many")), k.second, level + 1);
                        else {
                            auto f = d->FindFieldByName("keyed");
                            auto e = m.GetReflection()->AddMessage(&m, f);
                            putVal(*e, f->message_type()->field(0), vI(id - 1), false);
                            build(*e->GetReflection()->MutableMessage(e, f->message_type()->field(1)), k.second, level + 1);
                        }
                    }
                };
                build(m, sh, 1);
            });
}
// subsets of fields, each filled with its level-0 value
static void subsets(const VClass &c, int limit, const CaseFn &cb)
{
    std::vector<Setter> s;
    for (int i = 0; i < c.desc->field_count() && i < limit; i++) s.push_back(fieldSetters(c.desc->field(i), 0)[0]);
    for (uint64_t m = 0; m < (1ull << s.size()); m++)
        cb(c, [&, m](gp::Message &x) { for (size_t i = 0; i < s.size(); i++) if (m >> i & 1) s[i](x); });
}
static void eachField(const VClass &c, int level, const CaseFn &cb)
{
    for (int i = 0; i < c.desc->field_count(); i++)
        for (auto &s : fieldSetters(c.desc->field(i), level)) cb(c, [&](gp::Message &x) { s(x); });
}
static void fieldPairs(const VClass &c, int la, int lb, const CaseFn &cb)
{
    for (int i = 0; i < c.desc->field_count(); i++) {
        auto a = fieldSetters(c.desc->field(i), la);
        for (int j = 0; j < c.desc->field_count(); j++) {
            if (i == j) continue;
            auto b = fieldSetters(c.desc->field(j), lb);
            for (auto &x : a) for (auto &y : b) cb(c, [&](gp::Message &m) { x(m); y(m); });
        }
    }
}
static void dense(const VClass &c, const CaseFn &cb)
{
    // every value of a contiguous range, for every integer kind
    int64_t n = CORE.thorough() ? 300000 : 17000;
    for (int i = 0; i < c.desc->field_count(); i++) {
        auto f = c.desc->field(i);
        if (f->is_repeated() || isMsg(f) || f->cpp_type() == FD::CPPTYPE_STRING || f->cpp_type() == FD::CPPTYPE_BOOL || f->cpp_type() == FD::CPPTYPE_ENUM
            || f->cpp_type() == FD::CPPTYPE_FLOAT || f->cpp_type() == FD::CPPTYPE_DOUBLE) continue;
        bool sgn = f->cpp_type() == FD::CPPTYPE_INT32 || f->cpp_type() == FD::CPPTYPE_INT64;
        for (int64_t v = sgn ? -n : 0; v <= n; v++) cb(c, [&](gp::Message &m) { putVal(m, f, vI(v), false); });
    }
}
static std::string utf8(uint32_t c)
{
    std::string r;
    if (c < 0x80) r += char(c);
    else if (c < 0x800) { r += char(0xc0 | c >> 6); r += char(0x80 | (c & 63)); }
    else if (c < 0x10000) { r += char(0xe0 | c >> 12); r += char(0x80 | (c >> 6 & 63)); r += char(0x80 | (c & 63)); }
    else { r += char(0xf0 | c >> 18); r += char(0x80 | (c >> 12 & 63)); r += char(0x80 | (c >> 6 & 63)); r += char(0x80 | (c & 63)); }
    return r;
}
static void denseSizes(const CaseFn &cb)
{
    bool t = CORE.thorough();
    const VClass &sc = W["vw.Scalars"], &li = W["vw.Lists"];
    auto fs = sc.desc->FindFieldByName("f_string"), fb = sc.desc->FindFieldByName("f_bytes"), fl = sc.desc->FindFieldByName("f_leaf");
    auto text = fl->message_type()->FindFieldByName("text");
    // every length of text, bytes and of the text in a sub-message
    for (int n = 0; n < (t ? 40000 : 1200); n++) {
        cb(sc, [&](gp::Message &m) { m.GetReflection()->SetString(&m, fs, std::string(size_t(n), 'q')); });
        cb(sc, [&](gp::Message &m) { m.GetReflection()->SetString(&m, fb, std::string(size_t(n), '\x80')); });
        cb(sc, [&](gp::Message &m) { auto s = m.GetReflection()->MutableMessage(&m, fl); s->GetReflection()->SetString(s, text, std::string(size_t(n), 'w')); });
    }
    // every code point
    for (uint32_t c = 0; c < 0x110000; c++) {
        if (c >= 0xd800 && c < 0xe000) continue;
        if (c >= 0x10000 && !t && (c & 0xffff) > 3 && (c & 0xffff) < 0xfffc && (c & 0xfff)) continue;
        cb(sc, [&](gp::Message &m) { m.GetReflection()->SetString(&m, fs, utf8(c)); });
        if (t || c < 0x300) cb(sc, [&](gp::Message &m) { m.GetReflection()->SetString(&m, fs, "a" + utf8(c) + "b"); });
    }
    // every list length
    for (int i = 0; i < li.desc->field_count(); i++) {
        auto f = li.desc->field(i);
        for (int n = 0; n < (t ? 2000 : 150); n++)
            cb(li, [&](gp::Message &m) { for (int k = 0; k < n; k++) if (isMsg(f)) fillMsg(*m.GetReflection()->AddMessage(&m, f), k % 3); else { auto d = domain(f, 0); putVal(m, f, d[size_t(k) % d.size()], true); } });
    }
}
// sizes around those where the length prefix grows
static void bigSizes(const CaseFn &cb)
{
    const VClass &sc = W["vw.Scalars"], &li = W["vw.Lists"], &ma = W["vw.Maps"];
    auto fs = sc.desc->FindFieldByName("f_string"), fb = sc.desc->FindFieldByName("f_bytes"), fl = sc.desc->FindFieldByName("f_leaf");
    auto text = fl->message_type()->FindFieldByName("text");
    for (int p : {14, 15, 16, 20, 21, 24}) for (int o = -8; o < 3; o++) {
        size_t n = size_t((1 << p) + o);
        if (p == 24 && o && !CORE.thorough()) continue;
        cb(sc, [&](gp::Message &m) { m.GetReflection()->SetString(&m, fs, std::string(n, 'q')); });
        cb(sc, [&](gp::Message &m) { m.GetReflection()->SetString(&m, fb, std::string(n, '\x80')); });
        cb(sc, [&](gp::Message &m) { auto s = m.GetReflection()->MutableMessage(&m, fl); s->GetReflection()->SetString(s, text, std::string(n, 'w')); });
    }
    for (int i = 0; i < li.desc->field_count(); i++) {
        auto f = li.desc->field(i);
        for (int n : {255, 256, 257, 300, 2047, 2048, 2049, 4096, 16383, 16384, 16385, 70000})
            if (n < (isMsg(f) ? 5000 : 80000))
                cb(li, [&](gp::Message &m) { for (int k = 0; k < n; k++) if (isMsg(f)) fillMsg(*m.GetReflection()->AddMessage(&m, f), k % 3); else { auto d = domain(f, 0); putVal(m, f, d[size_t(k) % d.size()], true); } });
    }
    for (int i = 0; i < ma.desc->field_count(); i++) {
        auto f = ma.desc->field(i);
        auto kf = f->message_type()->field(0), vf = f->message_type()->field(1);
        if (kf->cpp_type() == FD::CPPTYPE_BOOL) continue;
        for (int n = 0; n <= 1000; n += n < 24 || (n > 125 && n < 131) ? 1 : n < 125 ? 101 : n < 300 ? 1000 - 131 : 1000)
            cb(ma, [&](gp::Message &m) {
                for (int k = 0; k < n; k++) {
                    auto e = m.GetReflection()->AddMessage(&m, f);
                    putVal(*e, kf, kf->cpp_type() == FD::CPPTYPE_STRING ? vS("k" + std::to_string(k)) : vI(k), false);
                    if (isMsg(vf)) fillMsg(*e->GetReflection()->MutableMessage(e, vf), k % 3); else { auto d = domain(vf, 0); putVal(*e, vf, d[size_t(k) % d.size()], false); }
                }
            });
    }
}
static void values(const CaseFn &cb)
{
    denseSizes(cb);
    bigSizes(cb);
    for (auto c : classes({"Empty", "Leaf", "Scalars", "Lists", "Maps", "Tiny", "Tags", "TagsLd", "Nest1", "OldV", "NewV", "HolderNew"})) eachField(*c, 2, cb);
    subsets(W["vw.Scalars"], 17, cb);
    subsets(W["vw.Tags"], 14, cb);
    subsets(W["vw.TagsLd"], 14, cb);
    subsets(W["vw.Lists"], CORE.thorough() ? 16 : 14, cb);
    fieldPairs(W["vw.Scalars"], 1, 1, cb);
    fieldPairs(W["vw.Tiny"], CORE.thorough() ? 1 : 0, 1, cb);
    fieldPairs(W["vw.Lists"], 0, 1, cb);
    fieldPairs(W["vw.Maps"], 0, CORE.thorough() ? 1 : 0, cb);
    nestTrees(W["vw.Nest1"], cb);
    dense(W["vw.Scalars"], cb);
}
// ---- P01 ------------------------------------------------------------------------------------------------------------------
static void p01(const VClass &c, const std::function<void(gp::Message &)> &make)
{
    if (!CORE.want()) return;
    auto ref = fresh(c);
    make(*ref);
    std::string want = vbCanon(*ref);
    Obj o(c.create());
    c.fromRef(*ref, o.get());
    if (canonQ(c, o.get()) != want) return CORE.fail("a message does not hold the values that were set: " + shown(c, refBytes(*ref)));
    Bytes b = sb(c.serialize(S, o.get()));
    auto back = fresh(c);
    if (!back->ParseFromString(b)) return CORE.fail("serialized bytes are rejected by the reference decoder: " + shown(c, b) + " for value " + shown(c, refBytes(*ref)));
    std::string got = vbCanon(*back);
    if (got != want) return CORE.fail("serialized bytes decode to another value: " + shown(c, b) + " for value " + shown(c, refBytes(*ref)));
    if (unknownCount(*back)) return CORE.fail("serialized bytes contain fields the type does not declare: " + shown(c, b));
    if (canonQ(c, o.get()) != want) return CORE.fail("serializing changed the message: " + shown(c, refBytes(*ref)));
    Obj copy(c.copy(o.get()));
    for (QObject *x : {o.get(), copy.get()}) {
        auto again = fresh(c);
        if (!again->ParseFromString(sb(c.serialize(S, x))) || vbCanon(*again) != want) return CORE.fail("a second serialization carries different content: " + shown(c, refBytes(*ref)));
        CORE.count("transitions");
    }
    CORE.count("transitions", 2);
    CORE.count("bytes", b.size());
    if (!want.empty()) CORE.count("nontrivial");
    CORE.state(c.name + want);
    if (CORE.counters["evaluations"] % 20011 == 7) CORE.sample(shown(c, b.substr(0, 60)));
}
// ---- P02 / P04 common: decode real vs reference -----------------------------------------------------------------------------
static bool agree(const VClass &c, const Bytes &b, const char *what, bool stateful = true)
{
    auto ref = fresh(c);
    if (!ref->ParseFromString(b)) { CORE.fail("internal: reference rejects " + shown(c, b)); fprintf(stderr, "reference rejects %s\n", shown(c, b).c_str()); _exit(3); }
    std::string want = vbCanon(*ref);
    Obj o(c.create());
    std::string err;
    if (!decode(c, o.get(), qb(b), err)) { CORE.fail(std::string(what) + ": decoder throws " + err + " on " + shown(c, b)); return false; }
    std::string got = canonQ(c, o.get());
    CORE.count("transitions");
    if (stateful) CORE.state(c.name + want);
    if (got != want) {
        auto m = fresh(c); c.toRef(o.get(), *m);
        CORE.fail(std::string(what) + ": decoded value differs from the value the bytes denote: " + shown(c, b) + " want={" + ref->ShortDebugString() + "} got={" + m->ShortDebugString() + "}");
        return false;
    }
    if (!want.empty()) CORE.count("nontrivial");
    if (CORE.counters["evaluations"] % 30011 == 11) CORE.sample(shown(c, b.substr(0, 60)));
    return true;
}
// one-record encodings of a field
static std::vector<Bytes> recordForms(const FD *f, int rich)
{
    std::vector<Bytes> r;
    auto num = uint32_t(f->number());
    int wt = wireTypeOf(f);
    if (f->is_map()) {
        auto kf = f->message_type()->field(0), vf = f->message_type()->field(1);
        auto kd = domain(kf, 1);
        std::vector<Bytes> ks, vs;
        for (size_t i = 0; i < kd.size() && i < (rich > 1 ? 3u : 2u); i++) ks.push_back(tag(1, wireTypeOf(kf)) + encVal(kf, kd[i]));
        if (isMsg(vf)) {
            vs.push_back(tag(2, 2) + ld(""));
            for (auto &x : recordForms(vf->message_type()->field(0), 0)) { vs.push_back(tag(2, 2) + ld(x)); break; }
            auto l = vf->message_type()->field_count() > 1 ? recordForms(vf->message_type()->field(1), 0) : std::vector<Bytes>();
            if (!l.empty()) vs.push_back(tag(2, 2) + ld(l[0]));
        } else {
            auto vd = domain(vf, 1);
            for (size_t i = 0; i < vd.size() && i < (rich > 1 ? 3u : 2u); i++) vs.push_back(tag(2, wireTypeOf(vf)) + encVal(vf, vd[i]));
        }
        Bytes h = tag(num, 2);
        r.push_back(h + ld(""));
        for (auto &k : ks) r.push_back(h + ld(k));
        for (auto &v : vs) r.push_back(h + ld(v));
        for (auto &k : ks) for (auto &v : vs) { r.push_back(h + ld(k + v)); if (rich) r.push_back(h + ld(v + k)); }
        if (rich) {
            r.push_back(h + ld(ks[0] + vs[0] + ks[1]));
            r.push_back(h + ld(ks[1] + vs[1] + vs[0]));
            r.push_back(h + ld(vs[0] + vs[1] + ks[1]));
            r.push_back(h + ld(vs.back() + vs[vs.size() - 2]));
            r.push_back(h + ld(ks[1] + vs[1] + tag(3, 0) + varint(5)));
            r.push_back(h + ld(tag(9, 2) + ld("zz") + vs[0] + ks[1]));
        }
        return r;
    }
    if (isMsg(f)) {
        Bytes h = tag(num, 2);
        r.push_back(h + ld(""));
        auto d = f->message_type();
        std::vector<Bytes> all;
        for (int i = 0; i < d->field_count() && all.size() < (rich > 1 ? 40u : 8u); i++) {
            auto x = recordForms(d->field(i), 0);
            if (isMsg(d->field(i)) || d->field(i)->is_repeated()) { if (x.size() > 3) x.resize(3); } else if (x.size() > 2) x.resize(2);
            all.insert(all.end(), x.begin(), x.end());
        }
        for (auto &x : all) r.push_back(h + ld(x));
        if (rich && all.size() > 1) { r.push_back(h + ld(all.front() + all.back())); r.push_back(h + ld(all.back() + all.front())); }
        return r;
    }
    auto d = domain(f, rich ? 1 : 0);
    if (!rich) d.push_back(domain(f, 1)[1]);
    if (f->is_repeated() && wt != 2) {
        r.push_back(tag(num, 2) + ld(""));
        for (auto &a : d) {
            r.push_back(tag(num, 2) + ld(encVal(f, a)));
            r.push_back(tag(num, wt) + encVal(f, a)); // not packed
        }
        r.push_back(tag(num, 2) + ld(encVal(f, d[0]) + encVal(f, d.back())));
        if (rich) r.push_back(tag(num, 2) + ld(encVal(f, d[1]) + encVal(f, d[0]) + encVal(f, d[1])));
        if (rich && wt == 0) { r.push_back(tag(num, 2) + ld(encVal(f, d[0], 9) + encVal(f, d[2], 10))); r.push_back(tag(num, 0) + encVal(f, d[2], 4)); }
        return r;
    }
    for (auto &a : d) {
        r.push_back(tag(num, wt) + encVal(f, a));
        if (rich && wt == 0) for (int pad : {2, 5, 10}) { Bytes x = encVal(f, a, pad); if (x != encVal(f, a)) r.push_back(tag(num, wt) + x); }
        if (rich && wt == 2 && a.s.size() < 20) { r.push_back(tag(num, wt) + varint(a.s.size(), 2) + a.s); r.push_back(tag(num, wt) + varint(a.s.size(), 5) + a.s); }
    }
    if (rich && f->type() == FD::TYPE_INT32) r.push_back(tag(num, 0) + varint(0xffffffffull)); // a negative number sent as uint32
    return r;
}
static void sequences(const VClass &c, const std::vector<Bytes> &alpha, int len, const char *what)
{
    std::vector<size_t> ix;
    std::function<void(int, const Bytes &)> rec = [&](int left, const Bytes &b) {
        if (CORE.failed) return;
        if (left == 0) { if (CORE.want()) agree(c, b, what); return; }
        for (auto &a : alpha) rec(left - 1, b + a);
    };
    for (int n = 0; n <= len; n++) rec(n, "");
}
static std::vector<Bytes> alphabet(const VClass &c, int rich, size_t perField = 1000)
{
    std::vector<Bytes> a;
    for (int i = 0; i < c.desc->field_count(); i++) {
        auto x = recordForms(c.desc->field(i), rich);
        if (x.size() > perField) x.resize(perField);
        a.insert(a.end(), x.begin(), x.end());
    }
    return a;
}
// messages of types that contain themselves, nested d levels deep through one kind of field
static Bytes deep(int kind, int d)
{
    Bytes b = kind == 2 ? tag(1, 0) + varint(7) : tag(2, 0) + varint(7);
    for (int i = 0; i < d; i++)
        b = kind == 0 ? tag(1, 2) + ld(b) : kind == 1 ? tag(3, 2) + ld(tag(1, 0) + varint(3) + tag(2, 2) + ld(b)) : tag(2, 2) + ld(b);
    return b;
}
static void p02()
{
    bool t = CORE.thorough();
    for (auto c : classes({"Leaf", "Scalars", "Lists", "Maps", "Tiny", "Nest1", "Nest3", "OldV", "HolderOld", "Tags", "TagsLd"})) {
        auto a = alphabet(*c, 1);
        sequences(*c, a, a.size() < 1500 ? 2 : 1, "valid encoding"); // every pair of records of the type
        CORE.count("alphabet", CORE.shard ? 0 : a.size());
    }
    // triples: all records of one field, and a small alphabet across all fields
    for (auto c : classes({"Scalars", "Lists", "Maps", "Tiny", "Nest1", "HolderOld"})) {
        for (int i = 0; i < c->desc->field_count(); i++) {
            auto x = recordForms(c->desc->field(i), t ? 2 : 1);
            if (x.size() > (t ? 60u : 36u)) x.resize(t ? 60 : 36);
            sequences(*c, x, 3, "records of one field");
            if (x.size() > 9) x.resize(9);
            sequences(*c, x, 4, "records of one field");
        }
    }
    sequences(W["vw.Tiny"], alphabet(W["vw.Tiny"], 0, t ? 6 : 3), 3, "records of several fields");
    sequences(W["vw.Nest1"], alphabet(W["vw.Nest1"], 0, t ? 8 : 5), t ? 4 : 3, "records of several fields");
    // types that contain themselves
    for (int kind = 0; kind < 3; kind++)
        for (int d = 0; d <= (kind == 1 ? 45 : 90); d++) if (CORE.want()) agree(W[kind == 2 ? "vr.Chain" : "vr.Tree"], deep(kind, d), "nested message");
    sequences(W["vr.Tree"], {deep(0, 0), deep(0, 1), deep(0, 2), deep(1, 1), deep(1, 2), tag(1, 2) + ld(""), tag(3, 2) + ld(""), tag(3, 2) + ld(tag(2, 2) + ld(deep(0, 1)))}, 4, "records of a recursive type");
    sequences(W["vr.Chain"], {deep(2, 0), deep(2, 1), deep(2, 2), deep(2, 3), tag(2, 2) + ld("")}, 4, "records of a recursive type");
    // numbers of other compatible kinds: every varint at and around every power of two in every field that is a varint
    for (auto c : classes({"Scalars", "Lists", "Maps", "Tiny"})) for (int i = 0; i < c->desc->field_count(); i++) {
        auto f = c->desc->field(i);
        auto num = uint32_t(f->number());
        std::vector<Bytes (*)(uint32_t, const Bytes &)> forms;
        if (f->is_map()) {
            auto e = f->message_type();
            if (wireTypeOf(e->field(0)) == 0) { forms.push_back([](uint32_t n, const Bytes &x) { return tag(n, 2) + ld(tag(1, 0) + x); }); }
            if (!isMsg(e->field(1)) && wireTypeOf(e->field(1)) == 0) {
                forms.push_back([](uint32_t n, const Bytes &x) { return tag(n, 2) + ld(tag(2, 0) + x); });
                if (wireTypeOf(e->field(0)) == 0) forms.push_back([](uint32_t n, const Bytes &x) { return tag(n, 2) + ld(tag(2, 0) + x + tag(1, 0) + x); });
            }
        } else if (wireTypeOf(f) == 0) {
            forms.push_back([](uint32_t n, const Bytes &x) { return tag(n, 0) + x; });
            if (f->is_repeated()) { forms.push_back([](uint32_t n, const Bytes &x) { return tag(n, 2) + ld(x); }); forms.push_back([](uint32_t n, const Bytes &x) { return tag(n, 2) + ld(x + varint(1) + x); }); }
        }
        for (auto form : forms) for (int k = 0; k < 64; k++) for (int64_t o : {-1, 0, 1}) for (int neg : {0, 1}) for (int pad : {0, 10})
            if (CORE.want()) { uint64_t v = (1ull << k) + uint64_t(o); agree(*c, form(num, varint(neg ? ~v : v, pad)), "number of another kind"); }
    }
    // every permutation of a full message's records
    for (auto c : classes({"OldV", "Nest1", "HolderOld"})) {
        auto m = fresh(*c);
        fillMsg(*m, 4);
        auto rs = records(refBytes(*m));
        if (rs.size() > 7) rs.resize(7);
        std::vector<size_t> p;
        for (size_t i = 0; i < rs.size(); i++) p.push_back(i);
        do { Bytes b; for (auto i : p) b += rs[i].raw(); if (CORE.want()) agree(*c, b, "permuted fields"); } while (!CORE.failed && std::next_permutation(p.begin(), p.end()));
    }
    // every value the reference encoder can produce
    values([&](const VClass &c, const std::function<void(gp::Message &)> &make) {
        if (!CORE.want()) return;
        auto m = fresh(c);
        make(*m);
        agree(c, refBytes(*m), "reference encoding");
    });
}
// ---- P03 ------------------------------------------------------------------------------------------------------------------
struct Item { Bytes bytes, ref; std::shared_ptr<QObject> obj; std::string canon; };
static std::vector<std::shared_ptr<gp::Message>> corpus(const VClass &c, int level, size_t max = 100000)
{
    std::vector<std::shared_ptr<gp::Message>> r;
    std::set<std::string> seen;
    auto add = [&](const std::function<void(gp::Message &)> &f) {
        std::shared_ptr<gp::Message> m(c.proto->New());
        f(*m);
        if (r.size() < max && seen.insert(vbCanon(*m)).second) r.push_back(m);
    };
    add([](gp::Message &) {});
    for (int k = 1; k < 6; k++) add([&](gp::Message &m) { fillMsg(m, k); });
    for (int i = 0; i < c.desc->field_count(); i++)
        for (auto &s : fieldSetters(c.desc->field(i), level)) add(s);
    // all fields but one
    for (int skip = 0; skip <= c.desc->field_count(); skip++)
        add([&](gp::Message &m) { for (int i = 0; i < c.desc->field_count(); i++) if (i != skip) { auto s = fieldSetters(c.desc->field(i), 1); s[size_t(i) % s.size()](m); } });
    return r;
}
static void p03()
{
    bool t = CORE.thorough();
    for (auto c : classes({"Empty", "Leaf", "Scalars", "Lists", "Maps", "Tiny", "Nest1", "OldV", "HolderOld", "TagsLd"})) {
        auto ms = corpus(*c, c->desc->field_count() > 18 ? 0 : 1, t ? 600 : 260);
        std::vector<Item> it;
        for (auto &m : ms) {
            Item x;
            x.obj.reset(c->create());
            c->fromRef(*m, x.obj.get());
            x.bytes = sb(c->serialize(S, x.obj.get()));
            x.ref = refBytes(*m);
            x.canon = vbCanon(*m);
            it.push_back(x);
        }
        // state: content of the target object; transition: deserialize one of the encodings into it
        for (size_t i = 0; i < it.size(); i++) for (size_t j = 0; j < it.size(); j++) {
            if (!CORE.want()) continue;
            Obj o(c->create());
            c->fromRef(*ms[i], o.get());
            std::string err;
            auto step = [&](const Item &x, const char *what) {
                if (!decode(*c, o.get(), qb(x.bytes), err)) { CORE.fail(std::string(what) + ": decoder throws " + err + " on its own encoding " + shown(*c, x.bytes)); return false; }
                CORE.count("transitions");
                std::string got = canonQ(*c, o.get());
                if (got != x.canon) { CORE.fail(std::string(what) + ": round trip of " + shown(*c, x.bytes) + " into a target that held " + shown(*c, it[i].bytes) + " gives " + shown(*c, sb(c->serialize(S, o.get())))); return false; }
                if (!hasNaN(x.canon) && (!c->equal(o.get(), x.obj.get()) || !c->equal(x.obj.get(), o.get()))) { CORE.fail(std::string(what) + ": the deserialized message does not compare equal to the original " + shown(*c, x.bytes)); return false; }
                return true;
            };
            if (!step(it[j], "deserialize")) return;
            { // the same value as the reference encodes it: everything that has its default value is absent from the data
                Obj o2(c->create());
                c->fromRef(*ms[i], o2.get());
                CORE.count("transitions");
                if (!decode(*c, o2.get(), qb(it[j].ref), err)) return CORE.fail("decoder throws " + err + " on " + shown(*c, it[j].ref));
                if (canonQ(*c, o2.get()) != it[j].canon) return CORE.fail("fields absent from the data keep their content: " + shown(*c, it[j].ref) + " into a target that held " + shown(*c, it[i].bytes) + " gives " + shown(*c, sb(c->serialize(S, o2.get()))));
            }
            if (i == j || (i + j) % 3 == 0) { if (!step(it[j], "deserialize twice")) return; }
            // a failed deserialization in between must not matter for the next result
            if (it[j].bytes.size() > 1 && i % 5 == 0) {
                decode(*c, o.get(), qb(it[j].bytes.substr(0, it[j].bytes.size() - 1)), err);
                if (!step(it[i], "deserialize after a failed one")) return;
                if (!step(it[j], "deserialize after a failed one")) return;
            }
            CORE.state(c->name + it[i].canon);
            if (i != j) CORE.count("nontrivial");
            if (CORE.counters["evaluations"] % 9001 == 3) CORE.sample("target held " + shown(*c, it[i].bytes.substr(0, 40)) + ", received " + shown(*c, it[j].bytes.substr(0, 40)));
        }
        // three encodings in a row on one target
        size_t n = std::min<size_t>(it.size(), t ? 60 : 24);
        for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) for (size_t k = 0; k < n; k++) {
            if (!CORE.want()) continue;
            Obj o(c->create());
            std::string err;
            for (size_t x : {i, j, k}) {
                auto &e = it[(x * 7) % it.size()];
                CORE.count("transitions");
                if (!decode(*c, o.get(), qb(e.bytes), err) || canonQ(*c, o.get()) != e.canon) return CORE.fail("sequence of deserializations: " + err + " wrong content after " + shown(*c, e.bytes));
            }
        }
    }
    // round trip of every value of the value space
    values([&](const VClass &c, const std::function<void(gp::Message &)> &make) {
        if (!CORE.want()) return;
        auto m = fresh(c);
        make(*m);
        Obj a(c.create()), b(c.create());
        c.fromRef(*m, a.get());
        fillMsg(*m, 2); // the target's previous content
        c.fromRef(*m, b.get());
        auto pre = canonQ(c, a.get());
        std::string err;
        Bytes by = sb(c.serialize(S, a.get()));
        CORE.count("transitions");
        CORE.state(c.name + pre);
        if (!decode(c, b.get(), qb(by), err)) return CORE.fail("decoder throws " + err + " on its own encoding " + shown(c, by));
        if (canonQ(c, b.get()) != pre) return CORE.fail("round trip changes the value: " + shown(c, by));
        if (!hasNaN(pre) && !c.equal(a.get(), b.get())) return CORE.fail("round trip result does not compare equal: " + shown(c, by));
    });
}
// ---- P04 ------------------------------------------------------------------------------------------------------------------
static std::vector<Bytes> unknownRecords(const gp::Descriptor *d, int rich)
{
    std::vector<uint32_t> nums;
    bool entry = d->options().map_entry();
    for (uint32_t n : {1u, 2u, 3u, 4u, 15u, 16u, 18u, 31u, 2047u, 2048u, 100000u, 536870911u}) {
        if (d->FindFieldByNumber(int(n))) continue;
        if (entry && n == 1) continue;
        nums.push_back(n);
    }
    if (!rich && nums.size() > 4) nums = {nums[0], nums[1], nums[nums.size() / 2], nums.back()};
    std::vector<Bytes> r;
    for (uint32_t n : nums) {
        r.push_back(tag(n, 0) + varint(0));
        r.push_back(tag(n, 0) + varint(1));
        r.push_back(tag(n, 0) + varint(UINT64_MAX));
        if (rich) for (int k = 2; k <= 10; k++) r.push_back(tag(n, 0) + varint(3, k));
        r.push_back(tag(n, 1) + fix(0x0101010101010101ull, 8));
        r.push_back(tag(n, 5) + fix(0xffffffffu, 4));
        r.push_back(tag(n, 2) + ld(""));
        r.push_back(tag(n, 2) + ld(Bytes("\x08\x01\x12\x01z", 5)));
        if (rich) {
            r.push_back(tag(n, 1) + fix(UINT64_MAX, 8));
            r.push_back(tag(n, 2) + ld(Bytes(127, '\xff')));
            r.push_back(tag(n, 2) + ld(Bytes(128, '\x08')));
            r.push_back(tag(n, 2) + ld(Bytes(300, '\0')));
            r.push_back(tag(n, 2) + varint(2, 3) + "ab");
        }
    }
    return r;
}
static void p04()
{
    bool t = CORE.thorough();
    for (auto c : classes({"Empty", "Leaf", "Scalars", "Lists", "Maps", "Tiny", "Nest1", "OldV", "HolderOld", "TagsLd"})) {
        auto ms = corpus(*c, c->desc->field_count() > 18 ? 0 : 1, t ? 400 : 130);
        for (size_t i = 0; i < ms.size(); i++) {
            Bytes b = refBytes(*ms[i]);
            if (b.size() > 1500) continue;
            int rich = i < (t ? 40u : 12u) ? 1 : 0;
            insertEverywhere(b, c->desc, [&](const gp::Descriptor *d) { return unknownRecords(d, rich); }, [&](const Bytes &x) {
                if (CORE.want()) agree(*c, x, "unknown field");
            });
            if (CORE.failed) return;
        }
        // two unknown fields at every pair of positions, on the small messages of the corpus
        int done = 0;
        for (size_t i = 0; i < ms.size() && done < (t ? 12 : 4); i++) {
            Bytes b = refBytes(*ms[i]);
            if (b.size() > 40) continue;
            done++;
            auto few = [&](const gp::Descriptor *d) { auto v = unknownRecords(d, 0); std::vector<Bytes> r; for (size_t k = 0; k < v.size(); k += 2) r.push_back(v[k]); return r; };
            insertEverywhere(b, c->desc, few, [&](const Bytes &x) {
                insertEverywhere(x, c->desc, few, [&](const Bytes &y) { if (CORE.want()) agree(*c, y, "two unknown fields"); });
            });
            if (CORE.failed) return;
        }
    }
    // every field number of a dense range and around every power of two, each wire type, in front of and behind a known field
    {
        const VClass &c = W["vw.Leaf"];
        Bytes known = tag(1, 0) + varint(5);
        std::vector<uint32_t> nums;
        for (uint32_t n = 1; n < (t ? 1u << 20 : 1u << 17); n++) nums.push_back(n);
        for (int k = 17; k < 29; k++) for (int d = -2; d <= 2; d++) nums.push_back((1u << k) + uint32_t(d));
        for (uint32_t d = 1; d < 5; d++) nums.push_back((1u << 29) - d);
        for (uint32_t n : nums) {
            if (c.desc->FindFieldByNumber(int(n))) continue;
            if (!CORE.want()) continue;
            for (const Bytes &r : {tag(n, 0) + varint(300), tag(n, 1) + fix(0x0801080108010801ull, 8), tag(n, 5) + fix(0x08010801u, 4), tag(n, 2) + ld("\x08\x02")}) {
                if (!agree(c, r + known, "unknown field number", false) || !agree(c, known + r, "unknown field number", false)) return;
            }
        }
        // every length of an unknown length-delimited field in a dense range and around the sizes where the prefix grows
        std::vector<uint32_t> lens;
        for (uint32_t n = 0; n < (t ? 70000u : 2500u); n++) lens.push_back(n);
        for (uint32_t n : {16382u, 16383u, 16384u, 16385u, 32767u, 32768u, 65535u, 65536u, 65537u, 2097151u, 2097152u, 2097153u}) lens.push_back(n);
        for (uint32_t n : lens) {
            if (!CORE.want()) continue;
            for (uint32_t num : {3u, 77u, 3000u}) if (!agree(c, tag(num, 2) + ld(Bytes(n, '\x08')) + known, "unknown field length", false)) return;
        }
    }
    // two versions of a schema, both directions, both encoders; every subset of fields
    auto exchange = [&](const char *from, const char *to) {
        const VClass &a = W["vw." + std::string(from)], &b = W["vw." + std::string(to)];
        auto one = [&](gp::Message &m) {
            Obj o(a.create());
            a.fromRef(m, o.get());
            if (!agree(b, sb(a.serialize(S, o.get())), "message of another schema version")) return;
            agree(b, refBytes(m), "reference message of another schema version");
        };
        subsets(a, 16, [&](const VClass &c, const std::function<void(gp::Message &)> &mk) { if (!CORE.want()) return; auto m = fresh(c); mk(*m); one(*m); });
        eachField(a, 1, [&](const VClass &c, const std::function<void(gp::Message &)> &mk) { if (!CORE.want()) return; auto m = fresh(c); mk(*m); one(*m); });
        fieldPairs(a, 1, t ? 1 : 0, [&](const VClass &c, const std::function<void(gp::Message &)> &mk) { if (!CORE.want()) return; auto m = fresh(c); mk(*m); one(*m); });
    };
    exchange("NewV", "OldV");
    exchange("OldV", "NewV");
    exchange("HolderNew", "HolderOld");
    exchange("HolderOld", "HolderNew");
    exchange("Scalars", "Empty");
    exchange("Lists", "Empty");
    exchange("Maps", "Empty");
}
// ---- P05 / P06: arbitrary bytes ----------------------------------------------------------------------------------------------
static const VClass *goodClass;
static QByteArray goodBytes;
static std::string goodCanon;
static bool safety;
static int64_t live;
static void hookMalloc(const volatile void *, size_t) { live++; }
static void hookFree(const volatile void *p) { if (p) live--; }
static void hostile(const VClass &c, const Bytes &b)
{
    // exact-size heap copy: any access outside the buffer is a redzone hit
    char *raw = static_cast<char *>(malloc(b.size() ? b.size() : 1));
    memcpy(raw, b.data(), b.size());
#if defined(__SANITIZE_ADDRESS__)
    if (b.empty()) __asan_poison_memory_region(raw, 1);
#endif
    QByteArray view = QByteArray::fromRawData(raw, int(b.size()));
    std::string err;
    bool ok = false;
    int64_t before = 0;
    for (int round = 0; round < (safety ? 2 : 1); round++) {
        err.clear();
        err.reserve(64);
        before = live;
        {
            Obj o(c.create());
            ok = decode(c, o.get(), view, err);
        }
        CORE.count("transitions");
    }
#if defined(__SANITIZE_ADDRESS__)
    if (live != before) { CORE.fail("memory of " + std::to_string(live - before) + " allocations is not released after decoding " + shown(c, b)); }
    if (b.empty()) __asan_unpoison_memory_region(raw, 1);
#endif
    free(raw);
    if (!ok && !err.empty() && err[0] == '!') CORE.fail(err + " on " + shown(c, b));
    Verdict v = classify(b, c.desc);
    if (!safety) {
        if (v == INVALID && ok) CORE.fail("structurally invalid data is accepted: " + shown(c, b));
        if (v == VALID && !ok && b.size() < 5000) CORE.fail("structurally valid data is refused (" + err + "): " + shown(c, b));
    } else {
        Obj g(goodClass->create());
        std::string e2;
        if (!decode(*goodClass, g.get(), goodBytes, e2) || canonQ(*goodClass, g.get()) != goodCanon) CORE.fail("the serializer is not usable after decoding " + shown(c, b));
    }
    CORE.count(ok ? "accepted" : err == "out_of_range" ? "out_of_range" : "invalid_argument");
    CORE.count(v == INVALID ? "verdict_invalid" : v == VALID ? "verdict_valid" : "verdict_unspecified");
    if (v == INVALID) CORE.count("nontrivial");
    CORE.state(c.name + b);
    if (CORE.counters["evaluations"] % 50021 == 13) CORE.sample(shown(c, b) + (ok ? " accepted" : " " + err));
}
static void allStrings(const VClass &c, const Bytes &alpha, int len)
{
    std::function<void(int, Bytes &)> rec = [&](int left, Bytes &b) {
        if (CORE.failed) return;
        if (left == 0) { if (CORE.want()) hostile(c, b); return; }
        for (char ch : alpha) { b.push_back(ch); rec(left - 1, b); b.pop_back(); }
    };
    for (int n = 0; n <= len; n++) { Bytes b; rec(n, b); }
}
static std::vector<Bytes> badLengths(uint64_t len)
{
    std::vector<Bytes> r;
    std::set<uint64_t> s;
    for (int64_t d = -2; d <= 3; d++) s.insert(len + uint64_t(d));
    for (uint64_t v : {0ull, 1ull, 126ull, 127ull, 128ull, 0x3fffull, 0x4000ull, 0x7ffffffeull, 0x7fffffffull, 0x80000000ull, 0x80000001ull, 0xfffffff0ull, 0xfffffffeull, 0xffffffffull, 0x100000000ull, 0x100000001ull,
                       0x100000000ull + len, 0x7fffffffffffffffull, 0x8000000000000000ull, 0xffffffffffffffffull}) s.insert(v);
    for (int k = 1; k < 12; k++) s.insert(0x100000000ull - uint64_t(k)); // small negative 32-bit numbers
    for (uint64_t v : s) r.push_back(varint(v));
    r.push_back(varint(len, 10));
    for (int n : {11, 12, 20}) r.push_back(varint(len, n)); // longer than a varint may be
    return r;
}
static void hostileSpace()
{
    bool t = CORE.thorough();
    Bytes all;
    for (int i = 0; i < 256; i++) all += char(i);
    // (1) every byte string of length <= 2 for every class
    for (auto c : classes({"Tiny", "Scalars", "Lists", "Maps", "Nest1", "Empty", "HolderOld"})) allStrings(*c, all, 2);
    // (2) every word over header, length and payload bytes of the small class
    Bytes heads; // headers of Tiny's fields plus bad ones
    for (int n : {1, 2, 3, 4, 5, 7, 8, 9}) heads += tag(uint32_t(n), n == 1 ? 0 : n == 2 ? 5 : n == 9 ? 1 : 2);
    Bytes word = heads + Bytes("\x00\x01\x02\x04\x7f\x80\xff\x0b\x10", 9);
    allStrings(W["vw.Tiny"], word, t ? 6 : 4);
    if (t) allStrings(W["vw.Tiny"], all, 3);
    Bytes w2("\x00\x01\x02\x03\x08\x0a\x10\x12\x1a\x22\x80\xff", 12);
    for (auto c : classes({"Nest1", "Maps", "HolderOld", "Leaf"})) allStrings(*c, w2, t ? 6 : 4);
    // (3) damage to well-formed messages
    for (auto c : classes({"Leaf", "Scalars", "Lists", "Maps", "Tiny", "Nest1", "OldV", "HolderOld", "TagsLd"})) {
        auto ms = corpus(*c, c->desc->field_count() > 18 ? 0 : 1, t ? 400 : 150);
        for (size_t i = 0; i < ms.size(); i++) {
            Bytes b = refBytes(*ms[i]);
            if (b.size() > 700) continue;
            for (size_t n = 0; n <= b.size(); n++) if (CORE.want()) hostile(*c, b.substr(0, n));   // every truncation
            // truncation inside a nested message whose own length prefix says so
            replaceEverywhere(b, c->desc, [&](const Rec &r, const FD *) {
                std::vector<Bytes> v;
                if (r.wt == 2 && r.body.size() < 200) for (size_t n = 0; n < r.body.size(); n++) v.push_back(r.head + ld(r.body.substr(0, n)));
                return v;
            }, [&](const Bytes &x) { if (CORE.want()) hostile(*c, x); });
            // lengths and varints replaced by every boundary value
            if (b.size() < 200 || i < 20) replaceEverywhere(b, c->desc, [&](const Rec &r, const FD *) {
                std::vector<Bytes> v;
                if (r.wt == 2) for (auto &l : badLengths(r.body.size())) v.push_back(r.head + l + r.body);
                if (r.wt == 0) for (int n = 9; n <= 13; n++) { v.push_back(r.head + varint(1, n)); v.push_back(r.head + Bytes(size_t(n), '\xff')); v.push_back(r.head + Bytes(size_t(n), '\x80') + Bytes(1, '\x01')); }
                for (int n = 6; n <= 12; n++) { Bytes h = r.head; h.back() = char(h.back() | 0x80); while (int(h.size()) < n - 1) h += '\x80'; h += '\0'; v.push_back(h + (r.wt == 2 ? ld(r.body) : r.body)); }
                return v;
            }, [&](const Bytes &x) { if (CORE.want()) hostile(*c, x); });
            // bad headers at every position and level
            if (b.size() < 150 || i < 12) insertEverywhere(b, c->desc, [&](const gp::Descriptor *) {
                std::vector<Bytes> v;
                for (int wt : {3, 4, 6, 7}) for (uint32_t n : {1u, 2u, 5u, 16u, 536870911u}) v.push_back(tag(n, wt));
                for (int wt = 0; wt < 8; wt++) v.push_back(tag(0, wt));
                v.push_back(tag(0, 0) + Bytes(1, '\0')); v.push_back(tag(0, 2) + Bytes(1, '\0'));
                v.push_back(tag(19, 3) + tag(19, 4));
                v.push_back(Bytes(11, '\x80') + Bytes(1, '\x01'));
                v.push_back(tag(19, 0) + Bytes(10, '\x80') + Bytes(1, '\x01'));
                v.push_back(tag(19, 0) + Bytes(11, '\xff') + Bytes(1, '\x01'));
                v.push_back(tag(19, 2) + varint(0xffffffffu)); v.push_back(tag(19, 2) + varint(0xfffffff8u)); v.push_back(tag(19, 2) + varint(0x80000000u));
                v.push_back(tag(19, 2) + varint(100000)); v.push_back(tag(19, 2) + varint(0x100000000ull)); v.push_back(tag(19, 2) + varint(0x100000002ull)); v.push_back(tag(19, 2) + Bytes(11, '\x80') + Bytes(1, '\0'));
                return v;
            }, [&](const Bytes &x) { if (CORE.want()) hostile(*c, x); });
            // every single-byte substitution of short messages
            if (b.size() <= (t ? 40u : 14u)) for (size_t p = 0; p < b.size(); p++) for (int v = 0; v < 256; v++) {
                if (char(v) == b[p]) continue;
                if (CORE.want()) { Bytes x = b; x[p] = char(v); hostile(*c, x); }
            }
            if (CORE.failed) return;
        }
    }
}
static void deepHostile()
{
    for (int kind = 0; kind < 3; kind++) {
        const VClass &c = W[kind == 2 ? "vr.Chain" : "vr.Tree"];
        for (int d : {1, 2, 50, 98, 99, 100, 101, 102, 500, 5000, CORE.thorough() ? 60000 : 20000}) {
            Bytes b = deep(kind, d);
            if (CORE.want()) hostile(c, b);
            if (CORE.want()) hostile(c, b.substr(0, b.size() - 1));
        }
    }
}
int main(int argc, char **argv)
{
    CORE.init(argc, argv);
    qInstallMessageHandler([](QtMsgType t, const QMessageLogContext &, const QString &s) { if (t == QtFatalMsg) { fprintf(stderr, "%s\n", qPrintable(s)); abort(); } });
    gp::SetLogHandler(nullptr);
    if (!W.load(WIRE_FDS)) { fprintf(stderr, "no descriptors\n"); return 3; }
#define ADD(C) W.add(vbClass<C>());
    VB_MESSAGES_wire(ADD)
    if (!W.load(REC_FDS)) return 3;
    VB_MESSAGES_rec(ADD)
    qRegisterProtobufTypes();
    QProtobufSerializer s;
    S = &s;
    const std::string &m = CORE.mode;
    if (m == "probe:serialize-chain") {
        if (CORE.want()) {
            vr::Chain chain;
            chain.setValue(1);
            auto ref = fresh(W["vr.Chain"]);
            if (!ref->ParseFromString(sb(chain.serialize(S))) || vbCanon(*ref) != canonQ(W["vr.Chain"], &chain)) CORE.fail("chain");
        }
        return CORE.finish();
    }
    if (m == "P01") values(p01);
    else if (m == "P02") p02();
    else if (m == "P03") p03();
    else if (m == "P04") p04();
    else if (m == "P05" || m == "P06") {
        safety = m == "P05";
#if defined(__SANITIZE_ADDRESS__)
        __sanitizer_install_malloc_and_free_hooks(hookMalloc, hookFree);
#endif
        goodClass = &W["vw.Tiny"];
        auto g = fresh(*goodClass);
        fillMsg(*g, 4);
        goodBytes = qb(refBytes(*g));
        goodCanon = vbCanon(*g);
        if (safety) deepHostile();
        hostileSpace();
    } else return 3;
    return CORE.finish();
}
