// P09: ownership of sub-messages and list elements under AddressSanitizer, every sequence of operations up to a depth.
#include "core.h"
#include "wireqml.bridge.h"
#include <qprotobufserializer.h>
#include <QQmlEngine>
#include <QQmlListReference>
#include <memory>
#include <set>
using namespace QtProtobuf;
extern "C" void __sanitizer_set_death_callback(void (*)(void));
extern Q_CORE_EXPORT quintptr qtHookData[];
enum { HookAdd = 3, HookRemove = 4 }; // QHooks::AddQObject, QHooks::RemoveQObject
static std::set<const QObject *> live;
static void onAdd(QObject *o) { live.insert(o); }
static void onRemove(QObject *o) { live.erase(o); }
static bool alive(const QObject *o) { return live.count(o); }
typedef vw::OldV M;
typedef vw::Leaf L;
static QProtobufSerializer *ser;
struct World {
    struct Slot {
        M *m = nullptr;
        L *c = nullptr;      // object the property must return; null: unknown (created on demand)
        int num = 0;         // expected content of c
        QList<int> list;     // expected content of the list
    } s[2];
    QList<L *> js;           // objects that scripts own
    QObject *parent = nullptr;
    QSharedPointer<L> held;
    int heldNum = 0;
    int next = 100;
    std::string log;
    static QQmlListProperty<L> lp(M *m) { return m->property("e").value<QQmlListProperty<L>>(); }
    L *fresh() { L *l = new L; l->setNum(++next); return l; }
    void start() { for (auto &x : s) x.m = new M; parent = new QObject; }
    void dead(const QObject *o) { for (auto &x : s) if (x.c == o) { x.c = nullptr; x.num = 0; } js.removeAll(static_cast<L *>(const_cast<QObject *>(o))); }
    // the message gives up its current sub-message: it dies when the message owns it
    void giveUp(int k)
    {
        L *c = s[k].c;
        if (!c || js.contains(c)) return;
        dead(c);
    }
    void setC(int k, L *n, int num)
    {
        M *m = s[k].m;
        L *old = s[k].c;
        m->setProperty("c", QVariant::fromValue(n));
        if (n != old || !n) giveUp(k);
        s[k].c = n;
        s[k].num = num;
    }
    void readC(int k)
    {
        M *m = s[k].m;
        L *p = m->property("c").value<L *>();
        if (!p || !alive(p)) { CORE.fail("the property returns a dead sub-message"); return; }
        if (s[k].c && p != s[k].c) { CORE.fail("the property does not return the object that was set"); return; }
        if (p->num() != s[k].num || m->c().num() != s[k].num) { CORE.fail("sub-message content " + std::to_string(p->num()) + ", expected " + std::to_string(s[k].num)); return; }
        s[k].c = p;
    }
    void readList(int k)
    {
        auto l = lp(s[k].m);
        if (l.count(&l) != s[k].list.size()) { CORE.fail("list has " + std::to_string(l.count(&l)) + " elements, expected " + std::to_string(s[k].list.size())); return; }
        for (int i = 0; i < s[k].list.size(); i++) {
            L *p = l.at(&l, i);
            if (!p || !alive(p)) { CORE.fail("dead list element"); return; }
            if (p->num() != s[k].list[i]) { CORE.fail("list element content"); return; }
        }
    }
    void finish()
    {
        for (int k : {0, 1}) if (s[k].m && !CORE.failed) { readC(k); readList(k); }
        for (int k : {0, 1}) if (s[k].m) { giveUp(k); delete s[k].m; s[k].m = nullptr; }
        if (held) { if (!alive(held.data()) || held->num() != heldNum) CORE.fail("a list element held from outside died"); held.reset(); }
        for (L *l : QList<L *>(js)) { if (!alive(l)) { CORE.fail("an object owned by scripts was deleted by a message"); return; } delete l; }
        delete parent;
    }
};
struct Op { std::string name; std::function<bool(World &)> run; }; // false: not applicable, end of history
static std::vector<Op> ops;
static void buildOps()
{
    for (int k : {0, 1}) {
        int j = 1 - k;
        std::string n = k ? "B" : "A", o = k ? "A" : "B";
        auto on = [k](std::function<void(World &, World::Slot &)> f) { return [=](World &w) { if (!w.s[k].m) return false; f(w, w.s[k]); return true; }; };
        auto both = [k, j](std::function<void(World &, World::Slot &, World::Slot &)> f) { return [=](World &w) { if (!w.s[k].m || !w.s[j].m) return false; f(w, w.s[k], w.s[j]); return true; }; };
        ops.push_back({n + ".c read", on([k](World &w, World::Slot &) { w.readC(k); })});
        ops.push_back({n + ".c = new", on([k](World &w, World::Slot &) { L *l = w.fresh(); w.setC(k, l, l->num()); })});
        ops.push_back({n + ".c = new script object", on([k](World &w, World::Slot &) { L *l = w.fresh(); QQmlEngine::setObjectOwnership(l, QQmlEngine::JavaScriptOwnership); w.js << l; w.setC(k, l, l->num()); })});
        ops.push_back({n + ".c = new with parent", on([k](World &w, World::Slot &) { L *l = w.fresh(); l->setParent(w.parent); w.setC(k, l, l->num()); })});
        ops.push_back({n + ".c = null", on([k](World &w, World::Slot &) { w.setC(k, nullptr, 0); })});
        ops.push_back({n + ".c = itself", on([k](World &w, World::Slot &s) { L *p = s.m->property("c").value<L *>(); s.c = p; w.setC(k, p, s.num); })});
        ops.push_back({n + ".c = " + o + ".c", both([k](World &w, World::Slot &s, World::Slot &t) { L *p = t.m->property("c").value<L *>(); t.c = p; int num = t.num; w.setC(k, p, num); (void)s; })});
        ops.push_back({"delete " + n + ".c", on([k](World &w, World::Slot &s) { L *p = s.m->property("c").value<L *>(); s.c = p; delete p; w.dead(p); })});
        ops.push_back({n + ".setC(value)", on([k](World &w, World::Slot &s) { L l; l.setNum(++w.next); s.m->setC(l); s.num = w.next; for (auto &x : w.s) if (s.c && x.c == s.c) x.num = s.num; })});
        ops.push_back({n + ".e append", on([](World &w, World::Slot &s) { auto l = World::lp(s.m); L *x = w.fresh(); l.append(&l, x); s.list << x->num(); })});
        ops.push_back({n + ".e append script object", on([](World &w, World::Slot &s) { auto l = World::lp(s.m); L *x = w.fresh(); QQmlEngine::setObjectOwnership(x, QQmlEngine::JavaScriptOwnership); l.append(&l, x); s.list << x->num(); if (QQmlEngine::objectOwnership(x) != QQmlEngine::CppOwnership) CORE.fail("scripts still own an appended object"); })});
        ops.push_back({n + ".e clear", on([](World &, World::Slot &s) { auto l = World::lp(s.m); l.clear(&l); s.list.clear(); })});
        ops.push_back({n + ".e read", on([k](World &w, World::Slot &) { w.readList(k); })});
        ops.push_back({n + ".setE(" + o + ".e)", both([](World &, World::Slot &s, World::Slot &t) { s.m->setE(t.m->e()); s.list = t.list; })});
        ops.push_back({n + ".e() append", on([](World &w, World::Slot &s) { L *x = w.fresh(); s.m->e().append(QSharedPointer<L>(x)); s.list << x->num(); })});
        ops.push_back({"hold " + n + ".e[0]", on([](World &w, World::Slot &s) { if (s.list.isEmpty()) return; w.held = s.m->e().first(); w.heldNum = s.list[0]; })});
        ops.push_back({n + " = " + o, both([](World &w, World::Slot &s, World::Slot &t) { *s.m = *t.m; s.num = t.num; s.list = t.list; for (auto &x : w.s) if (s.c && x.c == s.c) x.num = s.num; })});
        ops.push_back({n + " = move(" + o + ")", both([](World &w, World::Slot &s, World::Slot &t) {
            *s.m = std::move(*t.m);
            s.num = t.num; s.list = t.list;
            for (auto &x : w.s) if (s.c && x.c == s.c) x.num = s.num;
            t.num = t.m->c().num(); t.list.clear(); for (auto &e : t.m->e()) t.list << e->num();
            if (s.c && t.c == s.c) t.num = s.num;
        })});
        ops.push_back({n + " = new from copy of " + o, both([k](World &w, World::Slot &s, World::Slot &t) { M *m = new M(*t.m); int num = t.num; QList<int> l = t.list; w.giveUp(k); delete s.m; s = World::Slot(); s.m = m; s.num = num; s.list = l; })});
        ops.push_back({n + " = new moved from " + o, both([k](World &w, World::Slot &s, World::Slot &t) {
            M *m = new M(std::move(*t.m));
            int num = t.num; QList<int> l = t.list;
            t.num = t.m->c().num(); t.list.clear(); for (auto &e : t.m->e()) t.list << e->num();
            for (auto &x : w.s) if (t.c && x.c == t.c) x.num = t.num;
            w.giveUp(k); delete s.m; s = World::Slot(); s.m = m; s.num = num; s.list = l;
        })});
        ops.push_back({"delete " + n, on([k](World &w, World::Slot &s) { w.giveUp(k); delete s.m; s = World::Slot(); })});
        ops.push_back({n + " round trip", on([](World &w, World::Slot &s) { QByteArray d = s.m->serialize(ser); s.m->deserialize(ser, d); (void)w; })});
    }
    ops.push_back({"scripts collect garbage", [](World &w) { if (w.js.isEmpty()) return false; for (L *l : QList<L *>(w.js)) { w.dead(l); delete l; } return true; }});
    ops.push_back({"delete parent", [](World &w) { for (QObject *c : w.parent->children()) w.dead(c); delete w.parent; w.parent = new QObject; return true; }});
    ops.push_back({"drop held element", [](World &w) { if (!w.held) return false; if (w.held->num() != w.heldNum) CORE.fail("held element changed"); w.held.reset(); return true; }});
}
static void probe(const std::string &name)
{
    CORE.want();
    if (name == "append-twice") { M m; auto l = World::lp(&m); L *x = new L; l.append(&l, x); l.append(&l, x); }
    else if (name == "append-to-two") { M a, b; auto l = World::lp(&a), r = World::lp(&b); L *x = new L; l.append(&l, x); r.append(&r, x); }
    else if (name == "append-parented") { M a; auto l = World::lp(&a); QObject *p = new QObject; L *x = new L(p); l.append(&l, x); delete p; l.at(&l, 0)->num(); }
}
int main(int argc, char **argv)
{
    CORE.init(argc, argv);
    QCoreApplication app(argc, argv);
    qRegisterProtobufTypes();
#define R(C) qRegisterProtobufType<C>();
    VB_MESSAGES_wireqml(R)
    ser = new QProtobufSerializer;
    if (CORE.mode.compare(0, 6, "probe:") == 0) { probe(CORE.mode.substr(6)); return CORE.finish(); }
    { QQmlEngine e; }
    buildOps();
    qtHookData[HookAdd] = quintptr(&onAdd);
    qtHookData[HookRemove] = quintptr(&onRemove);
    int depth = CORE.thorough() ? 5 : 4;
    CORE.paths(6, 2, [&] {
        live.clear();
        CORE.desc.clear();
        World w;
        w.start();
        std::string d;
        for (int i = 0; i < depth && !CORE.failed; i++) {
            // order of independent reads does not matter: every history ends with reads
            int c = CORE.choose(int(ops.size()));
            d += " | " + ops[c].name;
            CORE.desc = d;
            if (!ops[c].run(w)) break;
            std::string st;
            for (auto &s : w.s) st += (s.m ? "m" : "-") + std::string(s.c ? w.js.contains(s.c) ? "j" : s.c->parent() ? "p" : "c" : "0") + (s.num ? "v" : "d") + std::to_string(s.list.size());
            CORE.state(st + (w.s[0].c == w.s[1].c ? "=" : "") + (w.held ? "h" : ""));
        }
        if (!CORE.failed) w.finish();
        if (!CORE.failed && !live.empty()) CORE.fail(std::to_string(live.size()) + " objects are left over");
        CORE.count("nontrivial");
        CORE.sample(d);
        if (CORE.failed) CORE.failure = d + " -- " + CORE.failure;
    });
    return CORE.finish();
}
