// P19/P20: the generated classes of a schema against the schema's own descriptors and the reference implementation.
#include "core.h"
#include "schema.h"
#include "schemavals.h"
#include <qprotobufserializer.h>
#include <QQmlEngine>
#include <QQmlComponent>
#include <QGuiApplication>
#include <climits>
#include <cfloat>
#include <cmath>
#include <memory>
using namespace QtProtobuf;
static VWorld world;
static QProtobufSerializer ser;

// variant i of a whole field
static int fieldVariants(FD f)
{
    if (f->is_map()) return variants(f->message_type()->field(1)) + 2;
    if (f->is_repeated()) return variants(f) + 2;
    return variants(f);
}
static void setField(gp::Message &m, FD f, int i)
{
    auto add = [&](int k, int v) {
        if (f->is_map()) {
            auto *e = m.GetReflection()->AddMessage(&m, f);
            FD kf = f->message_type()->field(0), vf = f->message_type()->field(1);
            element(*e, kf, k % variants(kf), false, 1);
            element(*e, vf, v % variants(vf), false, 1);
        } else element(m, f, v % variants(f), f->is_repeated(), 1);
    };
    int n = f->is_map() ? variants(f->message_type()->field(1)) : variants(f);
    if (i < n) add(i, i);
    else if (i == n) for (int k = 0; k < 3; k++) add(k, k + 1);
    else for (int k = 3; k >= 0; k--) add(k, k);
}
static std::string where;
static void bad(const std::string &s) { CORE.fail(where + ": " + s); }
// messages with a oneof are not supported as such (see known findings): what a conforming receiver makes of them is not asked
static bool hasOneof(const gp::Descriptor *d)
{
    static std::map<const gp::Descriptor *, bool> memo;
    auto it = memo.find(d);
    if (it != memo.end()) return it->second;
    memo[d] = false;
    bool r = d->oneof_decl_count() > 0;
    for (int i = 0; i < d->field_count() && !r; i++) if (d->field(i)->message_type()) r = hasOneof(d->field(i)->message_type());
    return memo[d] = r;
}
bool exchange(SMessage &s, const gp::Message &m)
{
    std::string want = vbCanon(m);
    std::unique_ptr<QObject> o(s.cls.create());
    s.cls.fromRef(m, o.get());
    std::unique_ptr<gp::Message> back(m.New());
    s.cls.toRef(o.get(), *back);
    if (vbCanon(*back) != want) return bad("set {" + m.ShortDebugString() + "}, getters return {" + back->ShortDebugString() + "}"), false;
    QByteArray b;
    try { b = s.cls.serialize(&ser, o.get()); }
    catch (std::exception &e) { return bad("encoding {" + m.ShortDebugString() + "} throws " + e.what()), false; }
    std::unique_ptr<gp::Message> dec(m.New());
    if (hasOneof(s.cls.desc)) {
        std::unique_ptr<QObject> own(s.cls.create());
        try { s.cls.deserialize(&ser, own.get(), b); }
        catch (std::exception &e) { return bad("decoding " + b.toHex().toStdString() + " throws " + e.what()), false; }
        s.cls.toRef(own.get(), *dec);
    } else if (!dec->ParseFromArray(b.constData(), b.size())) return bad("{" + m.ShortDebugString() + "} is encoded as " + b.toHex().toStdString() + ", which the reference cannot decode"), false;
    if (vbCanon(*dec) != want) return bad("{" + m.ShortDebugString() + "} is encoded as " + b.toHex().toStdString() + ", which means {" + dec->ShortDebugString() + "}"), false;
    std::string enc = m.SerializeAsString();
    std::unique_ptr<QObject> o2(s.cls.create());
    try { s.cls.deserialize(&ser, o2.get(), QByteArray(enc.data(), int(enc.size()))); }
    catch (std::exception &e) { return bad("decoding {" + m.ShortDebugString() + "} throws " + e.what()), false; }
    std::unique_ptr<gp::Message> got(m.New());
    s.cls.toRef(o2.get(), *got);
    if (vbCanon(*got) != want) return bad("{" + m.ShortDebugString() + "} is decoded as {" + got->ShortDebugString() + "}"), false;
    CORE.count("transitions", 3);
    CORE.state(s.cls.name + want);
    return true;
}
static bool meta(SMessage &s)
{
    auto d = s.cls.desc;
    auto mo = s.cls.meta;
    if (s.cpp != mo->className()) return bad(std::string("class is named ") + mo->className() + ", expected " + s.cpp), false;
    if (int(s.cls.ordering->size()) != d->field_count()) return bad("binds " + std::to_string(s.cls.ordering->size()) + " field numbers, the schema has " + std::to_string(d->field_count())), false;
    std::set<std::string> want;
    for (auto &sf : s.fields) {
        FD f = d->FindFieldByName(sf.name);
        auto it = s.cls.ordering->find(f->number());
        if (it == s.cls.ordering->end()) return bad("field number " + std::to_string(f->number()) + " of " + sf.name + " is not bound"), false;
        QMetaProperty p = mo->property(it->second.qtProperty);
        if (sf.bound != (p.name() ? p.name() : "")) return bad("field number " + std::to_string(f->number()) + " is bound to property '" + (p.name() ? p.name() : "") + "' instead of '" + sf.bound + "'"), false;
        std::string json = it->second.jsonName.toStdString();
        if (json != f->json_name()) return bad("field " + sf.name + " has JSON name '" + json + "' instead of '" + f->json_name() + "'"), false;
        want.insert(sf.bound);
        if (!sf.alias.empty()) {
            want.insert(sf.alias);
            int a = mo->indexOfProperty(sf.alias.c_str());
            if (a < 0) return bad("QML property " + sf.alias + " is missing"), false;
            if (mo->property(a).notifySignalIndex() != p.notifySignalIndex() || !p.hasNotifySignal()) return bad("QML property " + sf.alias + " has another notification than the field"), false;
        }
    }
    for (int i = mo->propertyOffset(); i < mo->propertyCount(); i++)
        if (!want.count(mo->property(i).name())) return bad(std::string("property ") + mo->property(i).name() + " belongs to no field"), false;
    return true;
}
static bool fieldEnum(SMessage &s, bool on)
{
    int i = s.cls.meta->indexOfEnumerator("QtProtobufFieldEnum");
    if (!on) return i < s.cls.meta->enumeratorOffset() ? true : (bad("has a field enumeration without FIELDENUM"), false);
    if (s.fields.empty()) return true;
    if (i < 0) return bad("lacks the field enumeration"), false;
    QMetaEnum e = s.cls.meta->enumerator(i);
    if (e.keyCount() != int(s.fields.size())) return bad("field enumeration has " + std::to_string(e.keyCount()) + " values"), false;
    for (auto &f : s.fields) {
        bool ok;
        int v = e.keyToValue(f.constant.c_str(), &ok), n = s.cls.desc->FindFieldByName(f.name)->number();
        if (!ok || v != n) return bad("field enumeration: " + f.constant + (ok ? " is " + std::to_string(v) : " is missing") + ", expected " + std::to_string(n)), false;
    }
    return true;
}
static bool qml(SMessage &s, bool on)
{
    static QQmlEngine engine;
    std::string text = "import QtQml 2.0\n" + (s.uri.empty() ? std::string() : "import " + s.uri + " 1.0\n") + s.qmlName + " {}\n";
    if (s.cls.desc->file()->package().empty()) return true; // QML has no unnamed modules
    QQmlComponent c(&engine);
    c.setData(QByteArray::fromStdString(text), QUrl());
    std::unique_ptr<QObject> o(c.create());
    if (bool(o) != on) return bad(on ? "cannot be created from QML: " + c.errorString().toStdString() : "is registered with QML without the QML option"), false;
    if (o && o->metaObject()->className() != s.cpp && !o->metaObject()->inherits(s.cls.meta)) return bad(std::string("QML creates ") + o->metaObject()->className()), false;
    return true;
}
static bool flag(const char *n) { return qEnvironmentVariableIntValue(n) == 1; }
static std::string aliasCheck(SMessage &s, QObject *o, const SField &f, FD d, const gp::Message &m)
{
    QVariant v = o->property(f.alias.c_str());
    if (d->is_repeated()) {
        QQmlListReference l(o, f.alias.c_str(), nullptr);
        (void)l;
        return "";
    }
    auto r = m.GetReflection();
    if (d->cpp_type() == gp::FieldDescriptor::CPPTYPE_INT32 ? v.toInt() != r->GetInt32(m, d) : v.toUInt() != r->GetUInt32(m, d)) return "QML property " + f.alias + " reads another value";
    std::unique_ptr<QObject> b(s.cls.create());
    if (!b->setProperty(f.alias.c_str(), v)) return "QML property " + f.alias + " cannot be written";
    std::unique_ptr<gp::Message> got(m.New());
    s.cls.toRef(b.get(), *got);
    if (vbCanon(*got) != vbCanon(m)) return "QML property " + f.alias + " writes another value";
    return "";
}
// further spaces a program may link in
void schemaExtra(VWorld &) __attribute__((weak));
void schemaProbe(VWorld &, const std::string &) __attribute__((weak));
int main(int argc, char **argv)
{
    QGuiApplication app(argc, argv);
    CORE.init(argc, argv);
    qRegisterProtobufTypes();
    QByteArray fds = qgetenv("SCHEMA_FDS");
    if (!world.load(fds.constData())) { fprintf(stderr, "no descriptors\n"); return 3; }
    auto &all = SMessage::all();
    for (auto &s : all) { world.add(s.cls); s.cls = world[s.cls.name]; }
    std::sort(all.begin(), all.end(), [](const SMessage &a, const SMessage &b) { return a.cls.name < b.cls.name; });
    if (CORE.mode.compare(0, 6, "probe:") == 0) {
        if (!schemaProbe || !CORE.want()) return 3;
        schemaProbe(world, CORE.mode.substr(6));
        return CORE.finish();
    }
    bool q = flag("SCHEMA_QML"), fe = flag("SCHEMA_FIELDENUM"), pairs = CORE.thorough() || !flag("SCHEMA_NOPAIRS");
    for (auto *e : SEnum::all()) {
        if (!CORE.want()) continue;
        where = "enum " + e->name;
        auto d = world.pool.FindEnumTypeByName(e->name);
        int i = e->meta->indexOfEnumerator(e->key.c_str());
        if (i < 0) { bad("is not known to the meta object"); continue; }
        QMetaEnum me = e->meta->enumerator(i);
        if (me.keyCount() != d->value_count()) { bad("has " + std::to_string(me.keyCount()) + " values instead of " + std::to_string(d->value_count())); continue; }
        for (int k = 0; k < d->value_count(); k++) {
            bool ok;
            int n = d->value(k)->number(), v = me.keyToValue(e->values[k].first.c_str(), &ok);
            if (e->values[k].second != n) bad(e->values[k].first + " is " + std::to_string(e->values[k].second) + " instead of " + std::to_string(n));
            if (!ok || v != n) bad("meta object says that " + e->values[k].first + (ok ? " is " + std::to_string(v) : " is missing"));
            CORE.state(e->name + "." + e->values[k].first);
            CORE.count("transitions", 2);
        }
        CORE.count("nontrivial");
    }
    for (auto &s : all) {
        where = "message " + s.cls.name;
        if (CORE.want()) { meta(s) && fieldEnum(s, fe) && qml(s, q); CORE.count("transitions"); CORE.count("nontrivial"); }
        if (CORE.want()) { std::unique_ptr<gp::Message> m(s.cls.proto->New()); exchange(s, *m); } // defaults
        for (auto &sf : s.fields) {
            FD f = s.cls.desc->FindFieldByName(sf.name);
            for (int v = 0; v < fieldVariants(f); v++) {
                if (!CORE.want()) continue;
                std::unique_ptr<gp::Message> m(s.cls.proto->New());
                setField(*m, f, v);
                if (!exchange(s, *m)) continue;
                CORE.count("nontrivial");
                std::unique_ptr<QObject> a(s.cls.create()), b(s.cls.create());
                s.cls.fromRef(*m, a.get());
                std::string w = s.property(a.get(), b.get(), sf);
                if (w.empty() && !sf.alias.empty()) w = aliasCheck(s, a.get(), sf, f, *m);
                if (!w.empty()) bad("field " + sf.name + ": " + w);
                CORE.sample(s.cls.name + "." + sf.name + " = {" + m->ShortDebugString().substr(0, 80) + "}");
            }
        }
        if (pairs)
            for (size_t i = 0; i < s.fields.size(); i++)
                for (size_t j = i + 1; j < s.fields.size(); j++) {
                    if (!CORE.want()) continue;
                    std::unique_ptr<gp::Message> m(s.cls.proto->New());
                    setField(*m, s.cls.desc->FindFieldByName(s.fields[i].name), 1);
                    setField(*m, s.cls.desc->FindFieldByName(s.fields[j].name), 0);
                    exchange(s, *m);
                    CORE.count("nontrivial");
                }
        for (int v = 0; v < 4; v++) {
            if (!CORE.want()) continue;
            std::unique_ptr<gp::Message> m(s.cls.proto->New());
            schemaFill(*m, v, 0);
            exchange(s, *m);
            CORE.count("nontrivial");
        }
    }
    if (schemaExtra) schemaExtra(world);
    return CORE.finish();
}
