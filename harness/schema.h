// P19/P20: what the schema promises about each generated class; filled by the tables sbridge emits.
#pragma once
#include "bridge.h"
#include <QMetaEnum>
#include <functional>
struct SField { std::string name, prop, bound, alias, constant; };
// compares what the property reads with what the getter returns, and writes through the property
template<class T, class Enable = void> struct SProp {
    static bool equal(const QVariant &v, const T &t) { return v.userType() == qMetaTypeId<T>() && v.value<T>() == t; }
    static QVariant box(const T &t) { return QVariant::fromValue<T>(t); }
};
template<> struct SProp<double> { static bool equal(const QVariant &v, double t) { return v.userType() == QMetaType::Double && (v.toDouble() == t || (t != t && v.toDouble() != v.toDouble())); } static QVariant box(double t) { return t; } };
template<> struct SProp<float> { static bool equal(const QVariant &v, float t) { return v.userType() == QMetaType::Float && (v.toFloat() == t || (t != t && v.toFloat() != v.toFloat())); } static QVariant box(float t) { return QVariant(t); } };
template<class T> struct SProp<T, typename std::enable_if<std::is_enum<T>::value>::type> {
    static bool equal(const QVariant &v, const T &t) { return v.toInt() == int(t); }
    static QVariant box(const T &t) { return int(t); }
};
template<class T> struct SProp<T, typename std::enable_if<std::is_base_of<QObject, T>::value>::type> {
    static bool equal(const QVariant &v, const T &t) { T *p = v.value<T *>(); return p && *p == t; }
    static QVariant box(const T &t) { return QVariant::fromValue<T *>(new T(t)); }
};
template<class C> struct SVisit {
    C *from, *to;
    const std::string &name, &prop;
    bool found;
    std::string bad;
    template<class G, class S> void operator()(const char *n, G g, S)
    {
        if (name != n) return;
        found = true;
        typedef typename std::decay<decltype(g(*from))>::type T;
        int i = from->metaObject()->indexOfProperty(prop.c_str());
        if (i < 0) { bad = "there is no property " + prop; return; }
        QMetaProperty p = from->metaObject()->property(i);
        if (!p.isWritable() || !p.hasNotifySignal()) { bad = "property " + prop + " cannot be written or does not notify"; return; }
        if (!SProp<T>::equal(p.read(from), g(*from))) { bad = std::string("property ") + prop + " (type " + p.typeName() + ") does not read what the getter returns"; return; }
        if (!p.write(to, SProp<T>::box(g(*from)))) { bad = "property " + prop + " does not take the value of its own type"; return; }
        if (!SProp<T>::equal(p.read(from), g(*to))) { bad = "property " + prop + " does not write the field"; return; }
    }
};
struct SMessage {
    VClass cls;
    std::string cpp, uri, qmlName;
    std::vector<SField> fields;
    std::function<std::string(QObject *, QObject *, const SField &)> property; // empty or what is wrong
    static std::vector<SMessage> &all() { static std::vector<SMessage> v; return v; }
    SMessage() {}
    SMessage(const SMessage &o, int) : cls(o.cls), cpp(o.cpp), uri(o.uri), qmlName(o.qmlName), fields(o.fields), property(o.property) {}
};
template<class C> SMessage sMessage(const char *cpp, std::vector<SField> f, const char *uri, const char *qmlName)
{
    SMessage m;
    m.cls = vbClass<C>();
    m.cpp = cpp; m.uri = uri; m.qmlName = qmlName; m.fields = f;
    m.property = [](QObject *a, QObject *b, const SField &f) {
        SVisit<C> v{static_cast<C *>(a), static_cast<C *>(b), f.name, f.bound, false, ""};
        VB<C>::visit(v);
        return v.found ? v.bad : std::string("no such field");
    };
    SMessage::all().push_back(m);
    return m;
}
struct SEnum {
    std::string name;
    const QMetaObject *meta;
    std::string key;
    std::vector<std::pair<std::string, int>> values;
    static std::vector<SEnum *> &all() { static std::vector<SEnum *> v; return v; }
    SEnum(const char *n, const QMetaObject *m, const char *k, std::vector<std::pair<std::string, int>> v) : name(n), meta(m), key(k), values(v) { all().push_back(this); }
};
