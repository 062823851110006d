// Bridge between generated Qt classes and the reference implementation (google::protobuf dynamic messages).
#pragma once
#include <google/protobuf/message.h>
#include <google/protobuf/dynamic_message.h>
#include <google/protobuf/descriptor.h>
#include <google/protobuf/descriptor.pb.h>
#include <google/protobuf/util/message_differencer.h>
#include <QtCore>
#include <QSharedPointer>
#include <qtprotobuftypes.h>
#include <qprotobufobject.h>
#include <type_traits>
#include <string>

namespace gp = google::protobuf;
template<class T> struct VDecay { typedef typename std::decay<T>::type type; };
template<class C> struct VB;

template<class C> void vbToRef(const C &q, gp::Message &m);
template<class C> void vbFromRef(const gp::Message &m, C &q);

// ---- one scalar element ----------------------------------------------------------------------------------------
template<class T, class Enable = void> struct VScalar {
    static T get(const gp::Message &m, const gp::FieldDescriptor *f, int i)
    {
        auto r = m.GetReflection();
        switch (f->cpp_type()) {
#define G(K, N) case gp::FieldDescriptor::CPPTYPE_##K: return static_cast<T>(i < 0 ? r->Get##N(m, f) : r->GetRepeated##N(m, f, i));
        G(INT32, Int32) G(INT64, Int64) G(UINT32, UInt32) G(UINT64, UInt64) G(DOUBLE, Double) G(FLOAT, Float) G(BOOL, Bool) G(ENUM, EnumValue)
#undef G
        default: qFatal("vbridge: type mismatch get %s", f->full_name().c_str());
        }
        abort();
    }
    static void put(const T &v, gp::Message &m, const gp::FieldDescriptor *f, bool add)
    {
        auto r = m.GetReflection();
        switch (f->cpp_type()) {
#define P(K, N, C) case gp::FieldDescriptor::CPPTYPE_##K: if (add) r->Add##N(&m, f, static_cast<C>(v)); else r->Set##N(&m, f, static_cast<C>(v)); break;
        P(INT32, Int32, int32_t) P(INT64, Int64, int64_t) P(UINT32, UInt32, uint32_t) P(UINT64, UInt64, uint64_t)
        P(DOUBLE, Double, double) P(FLOAT, Float, float) P(BOOL, Bool, bool) P(ENUM, EnumValue, int)
#undef P
        default: qFatal("vbridge: type mismatch put %s", f->full_name().c_str());
        }
    }
};
template<> struct VScalar<QString> {
    static QString get(const gp::Message &m, const gp::FieldDescriptor *f, int i)
    {
        auto r = m.GetReflection();
        std::string s = i < 0 ? r->GetString(m, f) : r->GetRepeatedString(m, f, i);
        QString q = QString::fromUtf8(s.data(), int(s.size()));
        return s.compare(0, 3, "\xef\xbb\xbf") ? q : QString(QChar(QChar::ByteOrderMark)) + q; // fromUtf8 drops a leading mark
    }
    static void put(const QString &v, gp::Message &m, const gp::FieldDescriptor *f, bool add)
    {
        QByteArray b = v.toUtf8();
        std::string s(b.constData(), b.size());
        if (add) m.GetReflection()->AddString(&m, f, s); else m.GetReflection()->SetString(&m, f, s);
    }
};
template<> struct VScalar<QByteArray> {
    static QByteArray get(const gp::Message &m, const gp::FieldDescriptor *f, int i)
    {
        auto r = m.GetReflection();
        std::string s = i < 0 ? r->GetString(m, f) : r->GetRepeatedString(m, f, i);
        return QByteArray(s.data(), int(s.size()));
    }
    static void put(const QByteArray &v, gp::Message &m, const gp::FieldDescriptor *f, bool add)
    {
        std::string s(v.constData(), v.size());
        if (add) m.GetReflection()->AddString(&m, f, s); else m.GetReflection()->SetString(&m, f, s);
    }
};

// ---- one field ---------------------------------------------------------------------------------------------------
template<class T, class Enable = void> struct VField { // singular scalar
    static void toRef(const T &v, gp::Message &m, const gp::FieldDescriptor *f)
    {
        VScalar<T>::put(v, m, f, false);
    }
    static T fromRef(const gp::Message &m, const gp::FieldDescriptor *f) { return VScalar<T>::get(m, f, -1); }
};
template<class T> struct VField<T, typename std::enable_if<std::is_base_of<QObject, T>::value>::type> { // singular message
    static void toRef(const T &v, gp::Message &m, const gp::FieldDescriptor *f)
    {
        if (f->message_type() == m.GetDescriptor() && v == T()) return; // reading creates sub-messages, do not descend for ever
        vbToRef(v, *m.GetReflection()->MutableMessage(&m, f));
    }
    static T fromRef(const gp::Message &m, const gp::FieldDescriptor *f) { T t; vbFromRef(m.GetReflection()->GetMessage(m, f), t); return t; }
};
template<class E> struct VList {
    template<class L> static void toRef(const L &v, gp::Message &m, const gp::FieldDescriptor *f) { for (const auto &e : v) VScalar<E>::put(e, m, f, true); }
    template<class L> static void fromRef(const gp::Message &m, const gp::FieldDescriptor *f, L &l) { for (int i = 0; i < m.GetReflection()->FieldSize(m, f); i++) l.append(VScalar<E>::get(m, f, i)); }
};
template<class E> struct VList<QSharedPointer<E>> {
    template<class L> static void toRef(const L &v, gp::Message &m, const gp::FieldDescriptor *f) { for (const auto &e : v) { auto *s = m.GetReflection()->AddMessage(&m, f); if (e) vbToRef(*e, *s); } }
    template<class L> static void fromRef(const gp::Message &m, const gp::FieldDescriptor *f, L &l) { for (int i = 0; i < m.GetReflection()->FieldSize(m, f); i++) { QSharedPointer<E> p(new E); vbFromRef(m.GetReflection()->GetRepeatedMessage(m, f, i), *p); l.append(p); } }
};
template<class E> struct VField<QList<E>> {
    static void toRef(const QList<E> &v, gp::Message &m, const gp::FieldDescriptor *f) { VList<E>::toRef(v, m, f); }
    static QList<E> fromRef(const gp::Message &m, const gp::FieldDescriptor *f) { QList<E> l; VList<E>::fromRef(m, f, l); return l; }
};
template<> struct VField<QStringList> {
    static void toRef(const QStringList &v, gp::Message &m, const gp::FieldDescriptor *f) { VList<QString>::toRef(v, m, f); }
    static QStringList fromRef(const gp::Message &m, const gp::FieldDescriptor *f) { QStringList l; VList<QString>::fromRef(m, f, l); return l; }
};
template<class K, class V> struct VField<QMap<K, V>> {
    static void toRef(const QMap<K, V> &v, gp::Message &m, const gp::FieldDescriptor *f)
    {
        for (auto it = v.constBegin(); it != v.constEnd(); ++it) {
            auto *e = m.GetReflection()->AddMessage(&m, f);
            VScalar<K>::put(it.key(), *e, f->message_type()->field(0), false);
            VScalar<V>::put(it.value(), *e, f->message_type()->field(1), false);
        }
    }
    static QMap<K, V> fromRef(const gp::Message &m, const gp::FieldDescriptor *f)
    {
        QMap<K, V> r;
        for (int i = 0; i < m.GetReflection()->FieldSize(m, f); i++) {
            auto &e = m.GetReflection()->GetRepeatedMessage(m, f, i);
            r[VScalar<K>::get(e, f->message_type()->field(0), -1)] = VScalar<V>::get(e, f->message_type()->field(1), -1);
        }
        return r;
    }
};
extern int vbNullMapValues; // null sub-message pointers met in maps (must never happen after decoding)
template<class K, class V> struct VField<QMap<K, QSharedPointer<V>>> {
    static void toRef(const QMap<K, QSharedPointer<V>> &v, gp::Message &m, const gp::FieldDescriptor *f)
    {
        for (auto it = v.constBegin(); it != v.constEnd(); ++it) {
            auto *e = m.GetReflection()->AddMessage(&m, f);
            VScalar<K>::put(it.key(), *e, f->message_type()->field(0), false);
            auto *s = e->GetReflection()->MutableMessage(e, f->message_type()->field(1));
            if (it.value()) vbToRef(*it.value(), *s); else vbNullMapValues++;
        }
    }
    static QMap<K, QSharedPointer<V>> fromRef(const gp::Message &m, const gp::FieldDescriptor *f)
    {
        QMap<K, QSharedPointer<V>> r;
        for (int i = 0; i < m.GetReflection()->FieldSize(m, f); i++) {
            auto &e = m.GetReflection()->GetRepeatedMessage(m, f, i);
            QSharedPointer<V> p(new V);
            vbFromRef(e.GetReflection()->GetMessage(e, f->message_type()->field(1)), *p);
            r[VScalar<K>::get(e, f->message_type()->field(0), -1)] = p;
        }
        return r;
    }
};
std::string vbCanon(const gp::Message &m);
template<class C> struct VToRef {
    const C &q; gp::Message &m;
    template<class G, class S> void operator()(const char *name, G g, S)
    {
        auto f = m.GetDescriptor()->FindFieldByName(name);
        typedef typename std::decay<decltype(g(q))>::type T;
        if (f->containing_oneof()) { // the library knows no presence: a member of a oneof counts as set when it is not the default
            std::unique_ptr<gp::Message> one(m.New()), none(m.New());
            VField<T>::toRef(g(q), *one, f);
            if (vbCanon(*one) == vbCanon(*none)) return;
        }
        VField<T>::toRef(g(q), m, f);
    }
};
template<class C> struct VFromRef {
    const gp::Message &m; C &q;
    template<class G, class S> void operator()(const char *name, G g, S s)
    {
        auto f = m.GetDescriptor()->FindFieldByName(name);
        typedef typename std::decay<decltype(g(q))>::type T;
        // fields not present are left alone (setting a default sub-message is not the same as leaving it unset)
        if (f->is_repeated() ? m.GetReflection()->FieldSize(m, f) == 0
                             : !m.GetReflection()->HasField(m, f)) return;
        s(q, VField<T>::fromRef(m, f));
    }
};
template<class C> void vbToRef(const C &q, gp::Message &m) { VToRef<C> v{q, m}; VB<C>::visit(v); }
template<class C> void vbFromRef(const gp::Message &m, C &q) { VFromRef<C> v{m, q}; VB<C>::visit(v); }

// type-erased handle of one generated class
struct VClass {
    std::string name;
    const gp::Descriptor *desc = nullptr;
    const gp::Message *proto = nullptr;
    std::function<QObject *()> create;
    std::function<void(const gp::Message &, QObject *)> fromRef;
    std::function<void(const QObject *, gp::Message &)> toRef;
    std::function<QByteArray(QtProtobuf::QAbstractProtobufSerializer *, const QObject *)> serialize;
    std::function<void(QtProtobuf::QAbstractProtobufSerializer *, QObject *, const QByteArray &)> deserialize;
    std::function<bool(const QObject *, const QObject *)> equal;
    std::function<QObject *(const QObject *)> copy;
    std::function<void(QObject *, const QObject *)> assign;
    std::function<QObject *(QObject *)> moveNew;
    std::function<void(QObject *, QObject *)> moveAssign;
    const QMetaObject *meta = nullptr;
    const QtProtobuf::QProtobufPropertyOrdering *ordering = nullptr;
};
template<class C> VClass vbClass()
{
    VClass c;
    c.name = VB<C>::name();
    c.create = [] { return static_cast<QObject *>(new C); };
    c.fromRef = [](const gp::Message &m, QObject *o) { vbFromRef(m, *static_cast<C *>(o)); };
    c.toRef = [](const QObject *o, gp::Message &m) { vbToRef(*static_cast<const C *>(o), m); };
    c.serialize = [](QtProtobuf::QAbstractProtobufSerializer *s, const QObject *o) { return static_cast<const C *>(o)->serialize(s); };
    c.deserialize = [](QtProtobuf::QAbstractProtobufSerializer *s, QObject *o, const QByteArray &b) { static_cast<C *>(o)->deserialize(s, b); };
    c.equal = [](const QObject *a, const QObject *b) { return *static_cast<const C *>(a) == *static_cast<const C *>(b); };
    c.copy = [](const QObject *a) { return static_cast<QObject *>(new C(*static_cast<const C *>(a))); };
    c.assign = [](QObject *a, const QObject *b) { *static_cast<C *>(a) = *static_cast<const C *>(b); };
    c.moveNew = [](QObject *a) { return static_cast<QObject *>(new C(std::move(*static_cast<C *>(a)))); };
    c.moveAssign = [](QObject *a, QObject *b) { *static_cast<C *>(a) = std::move(*static_cast<C *>(b)); };
    c.meta = &C::staticMetaObject;
    c.ordering = &C::propertyOrdering;
    return c;
}
// loads the descriptor set and resolves the reference side
struct VWorld {
    gp::DescriptorPool pool{gp::DescriptorPool::generated_pool()};
    gp::DynamicMessageFactory factory{&pool};
    std::map<std::string, VClass> classes;
    bool load(const char *fds);
    void add(VClass c);
    VClass &operator[](const std::string &n) { auto it = classes.find(n); if (it == classes.end()) qFatal("no class %s", n.c_str()); return it->second; }
};
// canonical form of a message: equal exactly when every field reads equal (absent and empty sub-messages, 0.0 and -0.0, and all NaNs coincide)
std::string vbCanon(const gp::Message &m);
