// P07/P08: every sequence of operations on generated messages up to a depth, compared with a plain record model.
#include "core.h"
#include "wireqml.bridge.h"
#include <qprotobufserializer.h>
#include <cfloat>
#include <climits>
#include <cmath>
#include <memory>
using namespace QtProtobuf;
static const int NV = 4; // values per field: 0 is the default

// ---- values ------------------------------------------------------------------------------------------------------
template<class T, class E = void> struct Vals;
template<class C> std::string canonMsg(const C &c);
template<class T> struct Vals<T, typename std::enable_if<std::is_integral<T>::value>::type> {
    static T get(int i) { return i == 0 ? T(0) : i == 1 ? T(1) : i == 2 ? std::numeric_limits<T>::max() : std::numeric_limits<T>::min() ? std::numeric_limits<T>::min() : T(2); }
    static std::string canon(T t) { return std::to_string(t); }
};
template<> struct Vals<bool> {
    static bool get(int i) { return i & 1; }
    static std::string canon(bool t) { return t ? "t" : "f"; }
};
template<class T, int N> struct Vals<transparent<T, N>> {
    static transparent<T, N> get(int i) { return Vals<T>::get(i); }
    static std::string canon(const transparent<T, N> &t) { return std::to_string(t._t); }
};
template<class T> struct Vals<T, typename std::enable_if<std::is_enum<T>::value>::type> {
    static T get(int i) { return T(i == 3 ? -1 : i); }
    static std::string canon(T t) { return "e" + std::to_string(int(t)); }
};
template<class T> struct Vals<T, typename std::enable_if<std::is_floating_point<T>::value>::type> {
    static T get(int i) { return i == 0 ? T(0) : i == 1 ? T(1.5) : i == 2 ? std::nextafter(T(1.5), T(2)) : std::numeric_limits<T>::denorm_min(); }
    static std::string canon(T t) { char b[64]; snprintf(b, sizeof b, "%.20g", double(t)); return b; }
};
template<> struct Vals<QString> {
    static QString get(int i) { return i == 0 ? QString() : i == 1 ? QStringLiteral("a") : i == 2 ? QStringLiteral("A") : QString::fromUtf8("a\0", 2); }
    static std::string canon(const QString &t) { return "'" + Core::hex(t.toUtf8().toStdString()) + "'"; }
};
template<> struct Vals<QByteArray> {
    static QByteArray get(int i) { return i == 0 ? QByteArray() : i == 1 ? QByteArray("a") : i == 2 ? QByteArray("\xff", 1) : QByteArray("a\0", 2); }
    static std::string canon(const QByteArray &t) { return "\"" + Core::hex(t.toStdString()) + "\""; }
};
template<class C> struct SetAll {
    C &c; int i; int k = 0;
    template<class G, class S> void operator()(const char *, G g, S s)
    {
        typedef typename std::decay<decltype(g(c))>::type T;
        // 1: every field 1; 2: the first field 2; 3: the last field 1
        int n = k++;
        if (i == 1) s(c, Vals<T>::get(1));
        else if (i == 2 && n == 0) s(c, Vals<T>::get(2));
        else if (i == 3 && n == VB<C>::fields - 1) s(c, Vals<T>::get(1));
    }
};
template<class T> struct Vals<T, typename std::enable_if<std::is_base_of<QObject, T>::value>::type> {
    static T get(int i) { T t; if (i) { SetAll<T> v{t, i}; VB<T>::visit(v); } return t; }
    static std::string canon(const T &t) { return canonMsg(t); }
};
template<class T> struct Vals<QSharedPointer<T>> {
    static QSharedPointer<T> get(int i) { return QSharedPointer<T>(new T(Vals<T>::get(i))); }
    static std::string canon(const QSharedPointer<T> &t) { return t ? Vals<T>::canon(*t) : "null"; }
};
template<class L, class E> static L listVal(int i)
{
    L l;
    if (i >= 1) l.append(Vals<E>::get(1));
    if (i == 2) l.append(Vals<E>::get(2));
    if (i == 3) l.prepend(Vals<E>::get(2));
    return l;
}
template<class L, class E> static std::string listCanon(const L &l) { std::string r = "["; for (const auto &e : l) r += Vals<E>::canon(e) + ","; return r + "]"; }
template<class E> struct Vals<QList<E>> {
    static QList<E> get(int i) { return listVal<QList<E>, E>(i); }
    static std::string canon(const QList<E> &l) { return listCanon<QList<E>, E>(l); }
};
template<> struct Vals<QStringList> {
    static QStringList get(int i) { return listVal<QStringList, QString>(i); }
    static std::string canon(const QStringList &l) { return listCanon<QStringList, QString>(l); }
};
template<class K, class V> struct Vals<QMap<K, V>> {
    // 1: {1:1}, 2: {1:2}, 3: {2:1} (as many entries, other keys)
    static QMap<K, V> get(int i)
    {
        QMap<K, V> m;
        if (i == 1) m[Vals<K>::get(1)] = Vals<V>::get(1);
        if (i == 2) m[Vals<K>::get(1)] = Vals<V>::get(2);
        if (i == 3) m[Vals<K>::get(2)] = Vals<V>::get(1);
        return m;
    }
    static std::string canon(const QMap<K, V> &m) { std::string r = "{"; for (auto it = m.constBegin(); it != m.constEnd(); ++it) r += Vals<K>::canon(it.key()) + ":" + Vals<V>::canon(it.value()) + ","; return r + "}"; }
};
// ---- wide values: many more values per field, for all pairs of them ------------------------------------------------
template<class T, class E = void> struct Wide { static int count() { return NV; } static T get(int i) { return Vals<T>::get(i); } };
template<class T> static std::vector<T> edges()
{
    typedef typename std::make_unsigned<T>::type U;
    std::vector<T> r;
    for (int b = 0; b < int(sizeof(T) * 8); b++) { U u = U(1) << b; for (U x : {U(u - 1), u, U(u + 1), U(~u)}) r.push_back(T(x)); }
    std::sort(r.begin(), r.end());
    r.erase(std::unique(r.begin(), r.end()), r.end());
    return r;
}
template<class T> struct Wide<T, typename std::enable_if<std::is_integral<T>::value && !std::is_same<T, bool>::value>::type> {
    static const std::vector<T> &v() { static std::vector<T> r = edges<T>(); return r; }
    static int count() { return int(v().size()); }
    static T get(int i) { return v()[i]; }
};
template<class T, int N> struct Wide<transparent<T, N>> { static int count() { return Wide<T>::count(); } static transparent<T, N> get(int i) { return Wide<T>::get(i); } };
template<> struct Wide<bool> { static int count() { return 2; } static bool get(int i) { return i; } };
template<class T> struct Wide<T, typename std::enable_if<std::is_floating_point<T>::value>::type> {
    static int count() { return 26; }
    static T get(int i)
    {
        typedef std::numeric_limits<T> L;
        T base[] = {T(0), T(1), T(0.1), T(3e9), L::max(), L::min(), L::denorm_min(), L::epsilon(), std::nextafter(T(1), T(2)), std::nextafter(T(0.1), T(1)), std::nextafter(T(3e9), T(4e9)), std::nextafter(L::max(), T(0)), L::infinity()};
        T b = base[i / 2];
        return i & 1 ? (b == 0 ? T(42) : -b) : b; // no -0 and no NaN: C++ equality is not identity of representation for them
    }
};
// all strings up to three characters over five, and long ones that differ in one place
static QByteArray wideBytes(int i)
{
    static const char al[] = {'a', 'A', '\0', ' ', '\xc3'};
    int len = 0, n = 1;
    while (len < 4 && i >= n) { i -= n; n *= 5; len++; }
    QByteArray r;
    if (len < 4) { for (int k = 0; k < len; k++) { r.append(al[i % 5]); i /= 5; } return r; }
    r = QByteArray(300, 'x');
    if (i) r[i == 1 ? 0 : i == 2 ? 150 : 299] = 'y';
    return r;
}
static const int WIDEBYTES = 1 + 5 + 25 + 125 + 4;
template<> struct Wide<QByteArray> { static int count() { return WIDEBYTES; } static QByteArray get(int i) { return wideBytes(i); } };
template<> struct Wide<QString> { static int count() { return WIDEBYTES; } static QString get(int i) { return QString::fromLatin1(wideBytes(i)); } };
// all lists up to length 4 over two elements
static int WIDELEN = 4;
template<class L, class E> static L wideList(int i)
{
    L l;
    int len = 0;
    while (i >= (1 << len)) i -= 1 << len++;
    for (int k = 0; k < len; k++) l.append(Vals<E>::get(i >> k & 1 ? 2 : 1));
    return l;
}
template<class E> struct Wide<QList<E>> { static int count() { return (2 << WIDELEN) - 1; } static QList<E> get(int i) { return wideList<QList<E>, E>(i); } };
template<> struct Wide<QStringList> { static int count() { return (2 << WIDELEN) - 1; } static QStringList get(int i) { return wideList<QStringList, QString>(i); } };
// all maps from three keys (two for bool) to absent or one of two values
template<class K, class V> struct Wide<QMap<K, V>> {
    static const int keys = std::is_same<K, bool>::value ? 2 : 3;
    static int count() { return keys == 2 ? 9 : 27; }
    static QMap<K, V> get(int i) { QMap<K, V> m; for (int k = 0; k < keys; k++) { int x = i % 3; i /= 3; if (x) m[Vals<K>::get(k)] = Vals<V>::get(x); } return m; }
};
// identity of the objects in a container of messages: what such a property's value is to an observer
template<class T> struct Ident { static const bool has = false; static std::string of(const T &) { return ""; } };
template<class E> struct Ident<QList<QSharedPointer<E>>> {
    static const bool has = true;
    static std::string of(const QList<QSharedPointer<E>> &l) { std::string r; for (auto &e : l) r += std::to_string(quintptr(e.data())) + ","; return r; }
};
template<class K, class E> struct Ident<QMap<K, QSharedPointer<E>>> {
    static const bool has = true;
    static std::string of(const QMap<K, QSharedPointer<E>> &l) { std::string r; for (auto it = l.begin(); it != l.end(); ++it) r += Vals<K>::canon(it.key()) + "=" + std::to_string(quintptr(it.value().data())) + ","; return r; }
};
template<class C> struct CanonAll {
    const C &c; std::string r;
    template<class G, class S> void operator()(const char *n, G g, S)
    {
        typedef typename std::decay<decltype(g(c))>::type T;
        r += std::string(n) + "=" + Vals<T>::canon(g(c)) + ";";
    }
};
template<class C> std::string canonMsg(const C &c) { CanonAll<C> v{c, ""}; VB<C>::visit(v); return "(" + v.r + ")"; }

// ---- one field of a class ---------------------------------------------------------------------------------------
struct FV { std::string canon, ident; };
template<class C> struct Field {
    std::string name, camel;
    bool identity = false, message = false;
    std::vector<std::string> canon;                       // of value i
    std::function<FV(C &, int)> set;                      // by setter; returns what was given
    std::function<FV(const C &)> read;
    int wide = 0;
    std::function<FV(C &, int)> setWide;
    std::function<FV(C &, int, int)> write;               // by property k
    std::function<void(C &, int)> poke;                   // changes the sub-message in place, by the pointer the property system hands out
    std::vector<QMetaProperty> props;
};
static QList<QVariant> pins; // keeps given containers alive so that addresses are not reused within a history
static std::string camelName(const std::string &n) { std::string r; bool up = false; for (char c : n) { if (c == '_') { up = true; continue; } r += up ? toupper(c) : c; up = false; } return r; }
static std::vector<QMetaProperty> propsOf(const QMetaObject &mo, const std::string &camel)
{
    std::vector<QMetaProperty> r;
    for (int i = 0; i < mo.propertyCount(); i++) {
        QMetaProperty p = mo.property(i);
        if (p.hasNotifySignal() && p.notifySignal().name() == QByteArray(camel.c_str()) + "Changed" && p.isWritable()) r.push_back(p);
    }
    return r;
}
template<class T, class E = void> struct PropVar {
    static QVariant of(const T &t, const QMetaProperty &p)
    {
        QVariant v = QVariant::fromValue(t);
        if (v.userType() != p.userType()) {
            // the alias property for scripts: a plain number
            QVariant n(alias(t));
            if (n.userType() != p.userType()) { fprintf(stderr, "property %s of type %s cannot be written\n", p.name(), p.typeName()); _exit(3); }
            return n;
        }
        return v;
    }
    template<class U> static QVariant alias(const U &) { return QVariant(); }
    template<class U, int N> static QVariant alias(const transparent<U, N> &t) { return QVariant::fromValue(t._t); }
};
template<class T> struct PropVar<T, typename std::enable_if<std::is_base_of<QObject, T>::value>::type> {
    static QVariant of(const T &t, const QMetaProperty &) { return QVariant::fromValue(new T(t)); }
};
template<class T, class E = void> struct Poke { static std::function<void(QObject *, int)> make(const std::vector<QMetaProperty> &) { return nullptr; } };
template<class T> struct Poke<T, typename std::enable_if<std::is_base_of<QObject, T>::value>::type> {
    static std::function<void(QObject *, int)> make(const std::vector<QMetaProperty> &props)
    {
        return [props](QObject *o, int i) {
            T *t = props[0].read(o).template value<T *>();
            if (!t) { CORE.fail("the property system reads no sub-message"); return; }
            *t = Vals<T>::get(i);
        };
    }
};
template<class T> struct Pin { static void keep(const T &) {} };
template<class E> struct Pin<QList<QSharedPointer<E>>> { static void keep(const QList<QSharedPointer<E>> &l) { for (auto &e : l) pins << QVariant::fromValue(qSharedPointerCast<QObject>(e)); } };
template<class K, class E> struct Pin<QMap<K, QSharedPointer<E>>> { static void keep(const QMap<K, QSharedPointer<E>> &l) { for (auto &e : l) pins << QVariant::fromValue(qSharedPointerCast<QObject>(e)); } };
template<class C> struct Collect {
    std::vector<Field<C>> &out;
    template<class G, class S> void operator()(const char *n, G g, S s)
    {
        typedef typename std::decay<decltype(g(std::declval<const C &>()))>::type T;
        Field<C> f;
        f.name = n;
        f.camel = camelName(n);
        f.identity = Ident<T>::has;
        f.message = std::is_base_of<QObject, T>::value;
        for (int i = 0; i < NV; i++) f.canon.push_back(Vals<T>::canon(Vals<T>::get(i)));
        f.set = [s](C &c, int i) { T t = Vals<T>::get(i); Pin<T>::keep(t); s(c, t); return FV{Vals<T>::canon(t), Ident<T>::of(t)}; };
        f.wide = Wide<T>::count();
        f.setWide = [s](C &c, int i) { T t = Wide<T>::get(i); Pin<T>::keep(t); s(c, t); return FV{Vals<T>::canon(t), Ident<T>::of(t)}; };
        f.read = [g](const C &c) { T t = g(c); return FV{Vals<T>::canon(t), Ident<T>::of(t)}; };
        f.props = propsOf(C::staticMetaObject, f.camel);
        auto props = f.props;
        f.write = [props](C &c, int k, int i) {
            T t = Vals<T>::get(i);
            Pin<T>::keep(t);
            if (!props[k].write(&c, PropVar<T>::of(t, props[k]))) CORE.fail(std::string("property system refuses to write ") + props[k].name());
            return FV{Vals<T>::canon(t), Ident<T>::of(t)};
        };
        auto pk = Poke<T>::make(props);
        if (pk) f.poke = [pk](C &c, int i) { pk(&c, i); };
        if (f.props.empty()) { fprintf(stderr, "no property for %s\n", n); _exit(3); }
        out.push_back(f);
    }
};
struct Args {
    int vi;
    std::vector<FV> given;
    template<class T> T arg(int i)
    {
        T t = Vals<T>::get(vi);
        Pin<T>::keep(t);
        if (int(given.size()) <= i) given.resize(i + 1);
        given[i] = FV{Vals<T>::canon(t), Ident<T>::of(t)};
        return t;
    }
};

// ---- observer of change notifications -----------------------------------------------------------------------------
struct Spy : QObject {
    std::vector<int> counts;
    std::vector<std::string> last;
    std::function<std::string(int)> reader;
    int qt_metacall(QMetaObject::Call call, int id, void **a) override
    {
        id = QObject::qt_metacall(call, id, a);
        if (id < 0 || call != QMetaObject::InvokeMetaMethod) return id;
        counts[id]++;
        last[id] = reader(id);
        return -1;
    }
};

template<class C> struct Explorer {
    std::vector<Field<C>> fields;
    bool notif, lazy;
    QProtobufSerializer serializer;
    struct Slot {
        std::unique_ptr<C> obj;
        std::unique_ptr<Spy> spy;
        std::vector<FV> model;
    };
    std::vector<Slot> slots_;
    int fresh = 0;
    Explorer(bool n) : notif(n) { Collect<C> c{fields}; VB<C>::visit(c); }
    void watch(Slot &s)
    {
        s.spy.reset();
        if (!notif) return;
        s.spy.reset(new Spy);
        s.spy->counts.assign(fields.size(), 0);
        s.spy->last.assign(fields.size(), "");
        C *o = s.obj.get();
        s.spy->reader = [this, o](int f) { return fields[f].read(*o).canon; };
        for (size_t f = 0; f < fields.size(); f++) {
            int sig = C::staticMetaObject.indexOfSignal((fields[f].camel + "Changed()").c_str());
            if (sig < 0) { CORE.fail("no signal " + fields[f].camel + "Changed()"); return; }
            QMetaObject::connect(o, sig, s.spy.get(), QObject::staticMetaObject.methodCount() + int(f), Qt::DirectConnection);
        }
    }
    std::vector<FV> readAll(const C &c) { std::vector<FV> r; for (auto &f : fields) r.push_back(f.read(c)); return r; }
    void put(Slot &s, C *c) { s.spy.reset(); s.obj.reset(c); watch(s); }
    std::vector<FV> dflt()
    {
        std::vector<FV> r;
        for (auto &f : fields) r.push_back(FV{f.canon[0], ""});
        return r;
    }
    void reset(int n)
    {
        slots_.clear();
        pins.clear();
        slots_.resize(n);
        fresh = 0;
        for (int k = 0; k < n; k++) {
            put(slots_[k], new C);
            slots_[k].model = dflt();
            if (k == 1) for (size_t f = 0; f < fields.size(); f++) slots_[k].model[f] = fields[f].set(*slots_[k].obj, 1);
            if (slots_[k].spy) slots_[k].spy->counts.assign(fields.size(), 0);
        }
    }
    // expectation of the change notifications of one written slot
    void expect(Slot &s, const std::vector<FV> &before, const std::vector<FV> &after, const std::string &what, bool atLeast = false, int pointerWrite = -1)
    {
        if (!notif || CORE.failed) return;
        for (size_t f = 0; f < fields.size(); f++) {
            bool ch = fields[f].identity ? before[f].ident != after[f].ident : before[f].canon != after[f].canon;
            if (int(f) == pointerWrite) ch = true; // another object
            int n = s.spy->counts[f];
            if (atLeast ? (ch && n < 1) : n != (ch ? 1 : 0)) {
                CORE.fail(what + ": " + fields[f].camel + " went from " + before[f].canon + " to " + after[f].canon + " with " + std::to_string(n) + " change notifications");
                return;
            }
            if (n) {
                std::string now = fields[f].read(*s.obj).canon;
                if (s.spy->last[f] != now) { CORE.fail(what + ": " + fields[f].camel + " reads " + now + " but an observer that reads on notification saw " + s.spy->last[f]); return; }
            }
            s.spy->counts[f] = 0;
        }
    }
    // both content and notification of untouched slots must not move
    void verify(const std::string &what)
    {
        if (CORE.failed) return;
        for (size_t k = 0; k < slots_.size(); k++)
            for (size_t j = 0; j < slots_.size(); j++) {
                bool eq = true;
                for (size_t f = 0; f < fields.size(); f++) eq = eq && slots_[k].model[f].canon == slots_[j].model[f].canon;
                if ((*slots_[k].obj == *slots_[j].obj) != eq || (*slots_[k].obj != *slots_[j].obj) == eq) {
                    CORE.fail(what + ": comparison of slot " + std::to_string(k) + " and " + std::to_string(j) + " gives " + (eq ? "different" : "equal"));
                    return;
                }
            }
        for (size_t k = 0; k < slots_.size(); k++)
            for (size_t f = 0; f < fields.size(); f++) {
                std::string r = fields[f].read(*slots_[k].obj).canon;
                if (r != slots_[k].model[f].canon) {
                    CORE.fail(what + ": slot " + std::to_string(k) + " field " + fields[f].name + " reads " + r + ", a plain record holds " + slots_[k].model[f].canon);
                    return;
                }
            }
    }
    struct Op { std::string name; std::function<void()> run; };
    void written(int k, const std::vector<FV> &before, const std::string &what, bool atLeast = false, int pw = -1)
    {
        expect(slots_[k], before, slots_[k].model, what, atLeast, pw);
    }
    void pairOps(std::vector<Op> &ops, int a, int b)
    {
        std::string ab = std::to_string(a) + "," + std::to_string(b);
        ops.push_back({"copyconstruct " + ab, [=] { put(slots_[a], new C(*slots_[b].obj)); slots_[a].model = slots_[b].model; quiet(b, "copy construction"); }});
        ops.push_back({"moveconstruct " + ab, [=] {
            auto before = slots_[b].model;
            C *n = new C(std::move(*slots_[b].obj));
            put(slots_[a], n);
            slots_[a].model = before;
            moved(b, before, "move construction (source)");
        }});
        ops.push_back({"assign " + ab, [=] { auto before = slots_[a].model; *slots_[a].obj = *slots_[b].obj; slots_[a].model = slots_[b].model; written(a, before, "assignment"); quiet(b, "assignment (source)"); }});
        ops.push_back({"moveassign " + ab, [=] {
            auto before = slots_[a].model, src = slots_[b].model;
            *slots_[a].obj = std::move(*slots_[b].obj);
            slots_[a].model = src;
            // containers of messages that are equal by content may be left where they are
            written(a, before, "move assignment");
            moved(b, src, "move assignment (source)");
        }});
    }
    void quiet(int k, const std::string &what) { expect(slots_[k], slots_[k].model, slots_[k].model, what); }
    void moved(int k, const std::vector<FV> &before, const std::string &what)
    {
        slots_[k].model = readAll(*slots_[k].obj);
        if (notif) for (size_t f = 0; f < fields.size(); f++) if (fields[f].message) slots_[k].model[f] = slots_[k].model[f];
        // a sub-message object stays in place when moved from: its own notifications tell
        if (notif) for (size_t f = 0; f < fields.size(); f++) if (fields[f].message) { slots_[k].spy->counts[f] = 0; }
        std::vector<FV> b = before;
        for (size_t f = 0; f < fields.size(); f++) if (fields[f].message) b[f] = slots_[k].model[f];
        expect(slots_[k], b, slots_[k].model, what, true);
        if (notif) slots_[k].spy->counts.assign(fields.size(), 0);
    }
    void slotOps(std::vector<Op> &ops, int k, size_t f, int nv)
    {
        std::string sf = std::to_string(k) + " " + fields[f].name + " ";
        for (int v = 0; v < nv; v++) {
            ops.push_back({"set " + sf + std::to_string(v), [=] { auto before = slots_[k].model; slots_[k].model[f] = fields[f].set(*slots_[k].obj, v); written(k, before, "setter"); }});
            for (size_t p = 0; p < fields[f].props.size(); p++)
                ops.push_back({"write " + sf + fields[f].props[p].name() + " " + std::to_string(v), [=] {
                    auto before = slots_[k].model;
                    slots_[k].model[f] = fields[f].write(*slots_[k].obj, int(p), v);
                    written(k, before, "property write", false, fields[f].message ? int(f) : -1);
                }});
        }
        if (fields[f].poke) for (int v = 0; v < nv; v++)
            ops.push_back({"poke " + sf + std::to_string(v), [=] {
                auto before = slots_[k].model;
                fields[f].poke(*slots_[k].obj, v);
                slots_[k].model[f].canon = fields[f].canon[v];
                // the sub-message tells about its own change, the message still holds the same object
                if (notif) slots_[k].spy->counts[f] = 0;
                before[f] = slots_[k].model[f];
                written(k, before, "change of a sub-message in place");
            }});
        for (int v : {0, 2}) {
            ops.push_back({"deserialize " + sf + std::to_string(v), [=] {
                C tmp;
                fields[f].set(tmp, v);
                QByteArray data = tmp.serialize(&serializer);
                auto before = slots_[k].model;
                slots_[k].obj->deserialize(&serializer, data);
                slots_[k].model = dflt();
                slots_[k].model[f].canon = fields[f].canon[v];
                if (fields[f].identity && v) slots_[k].model[f].ident = "fresh" + std::to_string(fresh++);
                written(k, before, "deserialize");
                if (fields[f].identity && v) { pinAll(k, f); }
            }});
        }
    }
    void pinAll(int k, size_t f) { slots_[k].model[f].ident = fields[f].read(*slots_[k].obj).ident; keepAlive.push_back(std::unique_ptr<C>(new C(*slots_[k].obj))); }
    std::vector<std::unique_ptr<C>> keepAlive;
    void selfOps(std::vector<Op> &ops, int k)
    {
        ops.push_back({"new " + std::to_string(k), [=] { put(slots_[k], new C); slots_[k].model = dflt(); }});
        ops.push_back({"selfassign " + std::to_string(k), [=] { C &x = *slots_[k].obj; *slots_[k].obj = x; quiet(k, "self assignment"); }});
    }
    void ctorOps(std::vector<Op> &ops, int k, int n)
    {
        for (int v : {1, 2})
            ops.push_back({"construct " + std::to_string(k) + " from " + std::to_string(n) + " values " + std::to_string(v), [=] {
                Args a{v, {}};
                C *c = VB<C>::construct(n, a);
                if (!c) return;
                put(slots_[k], c);
                slots_[k].model = dflt();
                for (int i = 0; i < n; i++) slots_[k].model[i] = a.given[i];
            }});
    }
    void run(std::vector<Op> &ops, int depth, int nslots, const std::string &title, bool sample)
    {
        std::vector<int> idx(depth, 0);
        for (;;) {
            if (CORE.want()) {
                std::string d = title + ":";
                for (int i : idx) d += " | " + ops[i].name;
                CORE.desc = d;
                reset(nslots);
                keepAlive.clear();
                for (int i : idx) { if (!CORE.failed) { ops[i].run(); CORE.count("transitions"); } }
                verify("after the last operation");
                std::string st;
                for (auto &s : slots_) for (auto &m : s.model) st += m.canon + "|";
                CORE.state(title + st);
                if (slots_[0].model.size()) CORE.count("nontrivial");
                if (sample && CORE.samples.size() < 4) CORE.sample(d);
                if (CORE.failed) { CORE.failure = d + " -- " + CORE.failure; }
            }
            if (CORE.failed) break;
            int k = depth - 1;
            while (k >= 0 && ++idx[k] == int(ops.size())) idx[k--] = 0;
            if (k < 0) break;
        }
        slots_.clear();
        keepAlive.clear();
        pins.clear();
    }
    // per field: all sequences up to the depth over two slots
    void perField(const std::string &cls, int depth)
    {
        for (size_t f = 0; f < fields.size() && !CORE.failed; f++) {
            std::vector<Op> ops;
            for (int k : {0, 1}) { slotOps(ops, k, f, NV); selfOps(ops, k); }
            ctorOps(ops, 0, int(f) + 1);
            pairOps(ops, 0, 1);
            pairOps(ops, 1, 0);
            for (int d = 1; d <= depth && !CORE.failed; d++) run(ops, d, 2, cls + "." + fields[f].name, true);
        }
    }
    // all fields together, three slots
    void mixed(const std::string &cls, int depth)
    {
        std::vector<Op> ops;
        for (int k : {0, 1, 2}) {
            for (size_t f = 0; f < fields.size(); f++) {
                for (int v : {0, 2}) ops.push_back({"set " + std::to_string(k) + " " + fields[f].name + " " + std::to_string(v), [=] { auto before = slots_[k].model; slots_[k].model[f] = fields[f].set(*slots_[k].obj, v); written(k, before, "setter"); }});
            }
            for (int j : {0, 1, 2}) if (j != k) pairOps(ops, k, j);
            selfOps(ops, k);
        }
        for (int n = 0; n <= int(fields.size()); n++) ctorOps(ops, 0, n);
        for (int d = 1; d <= depth && !CORE.failed; d++) run(ops, d, 3, cls + " mixed", true);
    }
    // every pair of many values of one field: comparison, then the second value arrives by setter, assignment, move or copy
    void pairs(const std::string &cls)
    {
        for (size_t f = 0; f < fields.size() && !CORE.failed; f++)
            for (int a = 0; a < fields[f].wide && !CORE.failed; a++) {
                if (!CORE.want()) continue;
                for (int b = 0; b < fields[f].wide && !CORE.failed; b++) {
                    CORE.desc = cls + "." + fields[f].name + " value " + std::to_string(a) + " and value " + std::to_string(b);
                    int hows = fields[f].wide > 100 && !CORE.thorough() && !(a % 16 == 0 || b % 16 == 0 || std::abs(a - b) <= 2) ? 1 : 4;
                    for (int how = 0; how < hows && !CORE.failed; how++) {
                        reset(1);
                        slots_.resize(2);
                        put(slots_[1], new C);
                        slots_[1].model = dflt();
                        slots_[0].model[f] = fields[f].setWide(*slots_[0].obj, a);
                        slots_[1].model[f] = fields[f].setWide(*slots_[1].obj, b);
                        for (auto &s : slots_) if (s.spy) s.spy->counts.assign(fields.size(), 0);
                        if (!how && !notif) verify("comparison");
                        auto before = slots_[0].model;
                        if (how == 0) { slots_[0].model[f] = fields[f].setWide(*slots_[0].obj, b); written(0, before, "setter"); }
                        if (how == 1) { *slots_[0].obj = *slots_[1].obj; slots_[0].model = slots_[1].model; written(0, before, "assignment"); quiet(1, "assignment (source)"); }
                        if (how == 2) { auto src = slots_[1].model; *slots_[0].obj = std::move(*slots_[1].obj); slots_[0].model = src; written(0, before, "move assignment"); moved(1, src, "move assignment (source)"); }
                        if (how == 3) { put(slots_[0], new C(*slots_[1].obj)); slots_[0].model = slots_[1].model; }
                        CORE.count("transitions");
                        verify("then");
                    }
                    if (CORE.failed) { CORE.failure = CORE.desc + " -- " + CORE.failure; break; }
                    CORE.state(cls + fields[f].name + std::to_string(a) + "," + std::to_string(b));
                }
                CORE.count("nontrivial");
            }
        slots_.clear();
        pins.clear();
    }
    // equality: every pair of messages of a value family
    void equality(const std::string &cls)
    {
        struct V { std::unique_ptr<C> c; std::string canon, how; };
        std::vector<V> vals;
        auto add = [&](const std::string &how, std::function<void(C &)> fn) { V v; v.c.reset(new C); fn(*v.c); v.how = how; v.canon = canonMsg(*v.c); vals.push_back(std::move(v)); };
        add("default", [](C &) {});
        for (size_t f = 0; f < fields.size(); f++) for (int i = 0; i < NV; i++) {
            add(fields[f].name + std::to_string(i), [&](C &c) { fields[f].set(c, i); });
            add("full+" + fields[f].name + std::to_string(i), [&](C &c) { for (size_t g = 0; g < fields.size(); g++) fields[g].set(c, g == f ? i : 1); });
        }
        // a second, separately built set, so that equal content is never the same object; not materialized by reading
        size_t n = vals.size();
        for (size_t a = 0; a < n && !CORE.failed; a++) {
            if (!CORE.want()) continue;
            for (size_t b = 0; b < n; b++) {
                CORE.count("transitions");
                bool eq = vals[a].canon == vals[b].canon;
                CORE.desc = cls + ": " + vals[a].how + " == " + vals[b].how;
                CORE.state(vals[a].canon + vals[b].canon);
                if ((*vals[a].c == *vals[b].c) != eq || (*vals[a].c != *vals[b].c) == eq) { CORE.fail(CORE.desc + " gives " + (eq ? "different" : "equal")); return; }
            }
            CORE.count("nontrivial");
        }
    }
};
template<class C> static void all(const char *n, bool notif, int depth, int mix)
{
    if (CORE.failed) return;
    Explorer<C> e(notif);
    e.perField(n, depth);
    if (mix) e.mixed(n, mix);
    if (!notif) e.equality(n);
    e.pairs(n);
}
int main(int argc, char **argv)
{
    CORE.init(argc, argv);
    QCoreApplication app(argc, argv);
    qRegisterProtobufTypes();
#define R(C) qRegisterProtobufType<C>();
    VB_MESSAGES_wireqml(R)
    bool notif = CORE.mode == "P08";
    int t = CORE.thorough();
    WIDELEN = 4 + t;
    all<vw::Leaf>("Leaf", notif, 3 + t, 3);
    all<vw::Scalars>("Scalars", notif, 3 + t, 2);
    all<vw::Lists>("Lists", notif, 3 + t, 2);
    all<vw::Maps>("Maps", notif, 3, 2);
    all<vw::OldV>("OldV", notif, 3 + t, 3);
    all<vw::Nest1>("Nest1", notif, 3, 2 + t);
    all<vw::Empty>("Empty", notif, 3, 3);
    all<vw::Tiny>("Tiny", notif, 3, 2);
    return CORE.finish();
}
