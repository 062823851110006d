// What the threads of P10 do. Compiled with -fsanitize=thread like the code under test; runs on harness/schedrt.cpp.
#include "core.h"
#include "schedrt.h"
#include <QtCore>
#include "qprotobufserializer.h"
#include "qprotobufserializerregistry_p.h"
#include "wire.qpb.h"
using namespace QtProtobuf;
using namespace vw;

namespace {
std::string hex(const QByteArray &b) { return b.toHex().toStdString(); }
typedef std::function<std::string(QAbstractProtobufSerializer *)> Work;
QByteArray bytes(const char *hexText) { return QByteArray::fromHex(hexText); }
// every piece of work returns text that shows all it obtained
std::string leaf(QAbstractProtobufSerializer *s)
{
    Leaf l;
    l.setNum(-3);
    l.setText(QStringLiteral("ab"));
    QByteArray b = l.serialize(s);
    Leaf m;
    m.deserialize(s, bytes("0809120178"));
    return hex(b) + "/" + std::to_string(int32_t(m.num())) + m.text().toStdString();
}
std::string numbers(QAbstractProtobufSerializer *s)
{
    Tiny t;
    t.setXv(300);
    t.setXf(7);
    t.setXp({1, -1});
    QByteArray b = t.serialize(s);
    Tiny u;
    u.deserialize(s, bytes("080522030102031509000000490100000000000000"));
    std::string r = hex(b) + "/" + std::to_string(uint32_t(u.xv())) + "," + std::to_string(uint32_t(u.xf()));
    for (auto x : u.xp()) r += "," + std::to_string(int32_t(x));
    return r + "," + std::to_string(uint64_t(u.xd()));
}
std::string writeNested(QAbstractProtobufSerializer *s)
{
    Tiny t;
    t.xm().setNum(5);
    t.setXe(ColourGadget::GREEN);
    t.xr().append(QSharedPointer<Leaf>(new Leaf(1, QStringLiteral("q"))));
    t.xl()[4] = QSharedPointer<Leaf>(new Leaf(2, QStringLiteral("r")));
    return hex(t.serialize(s));
}
std::string readNested(QAbstractProtobufSerializer *s)
{
    Tiny u;
    u.deserialize(s, bytes("2a02080a5801320412027171420408011200620200013a0408021003"));
    std::string r = std::to_string(int32_t(u.xm().num())) + "," + std::to_string(int(u.xe()));
    for (auto &x : u.xr()) r += "," + x->text().toStdString();
    for (auto k : u.xl().keys()) r += "," + std::to_string(uint32_t(k));
    for (auto e : u.xpe()) r += "," + std::to_string(int(e));
    for (auto k : u.xk().keys()) r += "," + std::to_string(uint32_t(k));
    return r;
}
std::string writes(QAbstractProtobufSerializer *s) { Leaf l(4, QStringLiteral("w")); return hex(l.serialize(s)); }
std::string reads(QAbstractProtobufSerializer *s) { Leaf l; l.deserialize(s, bytes("0802")); return std::to_string(int32_t(l.num())); }
std::string refused(QAbstractProtobufSerializer *s)
{
    Tiny u;
    try { u.deserialize(s, bytes("2a05080a")); } catch (const std::exception &) { return "refused"; }
    return "accepted";
}
std::string registers(QAbstractProtobufSerializer *) { qRegisterProtobufType<Nest4>(); return "registered"; }
std::string registersEnum(QAbstractProtobufSerializer *) { qRegisterProtobufEnumType<ColourGadget::Colour>(); return "registered"; }
std::string registersMap(QAbstractProtobufSerializer *) { qRegisterProtobufMapType<uint32, Leaf>(); return "registered"; }
std::string registersThenWrites(QAbstractProtobufSerializer *s) { qRegisterProtobufType<Leaf>(); return writeNested(s); }

QProtobufSerializer *common = nullptr;
QProtobufSerializerRegistry *registry = nullptr;
// how a thread comes to its serializer
std::function<std::string()> own(Work w) { return [w] { QProtobufSerializer s; return w(&s); }; }
std::function<std::string()> first(Work w) { return [w] { qRegisterProtobufTypes(); QProtobufSerializer s; return w(&s); }; }
std::function<std::string()> shared(Work w) { return [w] { return w(common); }; }
std::function<std::string()> looked(Work w) { return [w] { return w(registry->getSerializer(QStringLiteral("protobuf")).get()); }; }

void nothing() {}
void types() { qRegisterProtobufTypes(); }
void typesAndSerializer() { qRegisterProtobufTypes(); common = new QProtobufSerializer; }
void typesAndRegistry() { qRegisterProtobufTypes(); registry = &QProtobufSerializerRegistry::instance(); }
// everything that was ever registered is still there
std::string stillThere()
{
    QProtobufSerializer s;
    std::string a = writeNested(&s), b = readNested(&s);
    std::string ea = "2a02080a320508021201714209080412050804120172580162"; // not compared: only the reference below counts
    for (int id : {qMetaTypeId<Leaf *>(), qMetaTypeId<QList<QSharedPointer<Leaf>>>(), qMetaTypeId<QMap<uint32, QSharedPointer<Leaf>>>(), qMetaTypeId<ColourGadget::Colour>(), qMetaTypeId<QList<ColourGadget::Colour>>(),
                   qMetaTypeId<Nest4 *>(), qMetaTypeId<QList<QSharedPointer<Nest4>>>(), qMetaTypeId<QMap<uint32, uint32>>()}) {
        auto h = QtProtobufPrivate::findHandler(id);
        if (!h.serializer || !h.deserializer) return std::string("no handler for ") + QMetaType::typeName(id);
    }
    return "";
}
}
int main(int argc, char **argv)
{
    CORE.init(argc, argv);
    std::vector<SchedScenario> v;
    auto two = [&](const char *how, void (*setup)(), const char *na, std::function<std::string()> a, const char *nb, std::function<std::string()> b) {
        v.push_back({std::string(how) + ": " + na + " | " + nb, setup, {a, b}, stillThere});
    };
    if (CORE.mode == "P10use") {
        two("serializer of its own each, the first in the process", types, "write", own(writes), "read", own(reads));
        two("serializer of its own each, the first in the process", types, "write", own(writes), "write", own(writes));
        two("one serializer", typesAndSerializer, "leaf", shared(leaf), "numbers", shared(numbers));
        two("one serializer", typesAndSerializer, "write nested", shared(writeNested), "read nested", shared(readNested));
        two("one serializer", typesAndSerializer, "write nested", shared(writeNested), "write nested", shared(writeNested));
        two("one serializer", typesAndSerializer, "read nested", shared(readNested), "read nested", shared(readNested));
        two("one serializer", typesAndSerializer, "leaf", shared(leaf), "refused", shared(refused));
        two("serializer from the registry", typesAndRegistry, "write", looked(writes), "read", looked(reads));
        two("serializer from the registry, the first in the process", types, "write", [] { return writes(QProtobufSerializerRegistry::instance().getSerializer(QStringLiteral("protobuf")).get()); },
            "read", [] { return reads(QProtobufSerializerRegistry::instance().getSerializer(QStringLiteral("protobuf")).get()); });
        v.push_back({"one serializer: write | read | leaf", typesAndSerializer, {shared(writes), shared(reads), shared(leaf)}, stillThere});
    } else if (CORE.mode == "P10register") {
        two("one serializer", typesAndSerializer, "register", shared(registers), "write nested", shared(writeNested));
        two("one serializer", typesAndSerializer, "register", shared(registers), "read nested", shared(readNested));
        two("one serializer", typesAndSerializer, "register enum", shared(registersEnum), "write nested", shared(writeNested));
        two("one serializer", typesAndSerializer, "register map", shared(registersMap), "read nested", shared(readNested));
        two("one serializer", typesAndSerializer, "register", shared(registers), "register", shared(registers));
        two("one serializer", typesAndSerializer, "register", shared(registers), "register enum", shared(registersEnum));
        two("one serializer", typesAndSerializer, "register then write", shared(registersThenWrites), "read nested", shared(readNested));
        v.push_back({"one serializer: register | register map | write nested", typesAndSerializer, {shared(registers), shared(registersMap), shared(writeNested)}, stillThere});
    } else if (CORE.mode == "P10first") {
        two("everything for the first time", nothing, "write", first(writes), "read", first(reads));
        two("everything for the first time", nothing, "write nested", first(writeNested), "leaf", first(leaf));
    } else return 3;
    // P10first: ~1200 points per schedule. P10register: ~10 per registration, 3 preemptions
    for (auto &s : v) s.deviations = CORE.mode == "P10first" ? 1 : CORE.mode == "P10register" && s.name.find("then") == std::string::npos ? 3 : 2;
    if (CORE.thorough()) for (auto &s : v) if (CORE.mode != "P10first") s.deviations = 3;
    schedExplore(v);
    int r = CORE.finish();
    _exit(r);
}
