// P23, beyond the generic exploration of every field: trees of Struct/Value/ListValue, instants and spans, and the QDateTime conversions of Timestamp.
#include "core.h"
#include "schema.h"
#include <qprotobufserializer.h>
#include "google/protobuf/timestamp.qpb.h"
#include <QDateTime>
#include <QTimeZone>
bool exchange(SMessage &s, const gp::Message &m);
static SMessage &find(const char *n)
{
    for (auto &s : SMessage::all()) if (s.cls.name == n) return s;
    qFatal("no class %s", n);
}
// all trees with exactly n nodes below this value, leaves over a small alphabet
struct Tree { int kind; std::vector<Tree> kids; }; // 0..4 leaves, 5 struct, 6 list
static std::vector<Tree> trees(int n)
{
    static std::map<int, std::vector<Tree>> memo;
    auto it = memo.find(n);
    if (it != memo.end()) return it->second;
    std::vector<Tree> r;
    if (n == 1) for (int k = 0; k < 7; k++) r.push_back({k, {}});
    else for (int kind : {5, 6}) {
        // compositions of n - 1 into up to 3 children
        for (int a = 1; a <= n - 1; a++) {
            if (a == n - 1) { for (auto &x : trees(a)) r.push_back({kind, {x}}); continue; }
            for (int b = 1; a + b <= n - 1; b++) {
                if (a + b == n - 1) { for (auto &x : trees(a)) for (auto &y : trees(b)) r.push_back({kind, {x, y}}); continue; }
                int c = n - 1 - a - b;
                for (auto &x : trees(a)) for (auto &y : trees(b)) for (auto &z : trees(c)) r.push_back({kind, {x, y, z}});
            }
        }
    }
    return memo[n] = r;
}
static void fill(gp::Message &v, const Tree &t)
{
    auto *d = v.GetDescriptor();
    auto *r = v.GetReflection();
    auto f = [&](const char *n) { return d->FindFieldByName(n); };
    switch (t.kind) {
    case 0: r->SetEnumValue(&v, f("null_value"), 0); break;
    case 1: r->SetDouble(&v, f("number_value"), 1.5); break;
    case 2: r->SetDouble(&v, f("number_value"), -1e300); break;
    case 3: r->SetString(&v, f("string_value"), "t\xc3\xa9xt"); break;
    case 4: r->SetBool(&v, f("bool_value"), true); break;
    case 5: {
        auto *s = r->MutableMessage(&v, f("struct_value"));
        auto *fields = s->GetDescriptor()->FindFieldByName("fields");
        int i = 0;
        for (auto &k : t.kids) {
            auto *e = s->GetReflection()->AddMessage(s, fields);
            e->GetReflection()->SetString(e, fields->message_type()->field(0), i ? "key" + std::to_string(i) : "");
            fill(*e->GetReflection()->MutableMessage(e, fields->message_type()->field(1)), k);
            i++;
        }
        break;
    }
    case 6: {
        auto *l = r->MutableMessage(&v, f("list_value"));
        auto *values = l->GetDescriptor()->FindFieldByName("values");
        for (auto &k : t.kids) fill(*l->GetReflection()->AddMessage(l, values), k);
        break;
    }
    }
}
typedef wkt::google::protobuf::Timestamp Stamp;
void schemaExtra(VWorld &world)
{
    SMessage &value = find("google.protobuf.Value");
    for (int n = 1; n <= (CORE.thorough() ? 5 : 4); n++)
        for (auto &t : trees(n)) {
            if (!CORE.want()) continue;
            std::unique_ptr<gp::Message> m(value.cls.proto->New());
            fill(*m, t);
            exchange(value, *m);
            CORE.count("nontrivial");
            CORE.state("value " + vbCanon(*m));
        }
    std::vector<int64_t> secs{0, 1, -1, 59, 60, 86399, 86400, -86400, 999999999, 1000000000, 2147483647, 2147483648ll, -2147483648ll, 4294967296ll, 253402300799ll, -62135596800ll, 315576000000ll, -315576000000ll, INT64_MAX, INT64_MIN};
    std::vector<int> nanos{0, 1, -1, 999, 1000, 999999, 1000000, 999000000, 999999999, -999999999, 500000000, -500000000};
    for (const char *n : {"google.protobuf.Timestamp", "google.protobuf.Duration"})
        for (auto s : secs) for (auto k : nanos) {
            if (!CORE.want()) continue;
            SMessage &c = find(n);
            std::unique_ptr<gp::Message> m(c.cls.proto->New());
            m->GetReflection()->SetInt64(m.get(), c.cls.desc->FindFieldByName("seconds"), s);
            m->GetReflection()->SetInt32(m.get(), c.cls.desc->FindFieldByName("nanos"), k);
            exchange(c, *m);
            CORE.count("nontrivial", s || k);
            CORE.state(n + std::to_string(s) + "." + std::to_string(k));
        }
    // the instant of a QDateTime survives the conversion to Timestamp, the wire and the conversion back
    QtProtobuf::QProtobufSerializer ser;
    std::vector<int64_t> ms;
    for (int64_t base : {0ll, 1000ll, -1000ll, 86400000ll, 951782400000ll, 1604213999000ll, 2147483647000ll, 4102444800000ll, -62135596800000ll, 253402300799000ll, -2208988800000ll})
        for (int d = -2100; d <= 2100; d += CORE.thorough() ? 1 : 7) ms.push_back(base + d);
    for (auto t : ms)
        for (int spec = 0; spec < 4; spec++) {
            if (!CORE.want()) continue;
            QDateTime dt = spec == 0 ? QDateTime::fromMSecsSinceEpoch(t, Qt::UTC) : spec == 1 ? QDateTime::fromMSecsSinceEpoch(t, Qt::LocalTime) : QDateTime::fromMSecsSinceEpoch(t, Qt::OffsetFromUTC, spec == 2 ? 19800 : -3600);
            Stamp a(dt), b;
            b.deserialize(&ser, a.serialize(&ser));
            QDateTime back = b;
            CORE.count("transitions", 3);
            CORE.count("nontrivial", t != 0);
            CORE.state("instant " + std::to_string(t) + "/" + std::to_string(spec));
            auto show = [&] { return "QDateTime " + std::to_string(t) + " ms since the epoch (time spec " + std::to_string(spec) + ")"; };
            if (back.toMSecsSinceEpoch() != t) { CORE.fail(show() + " comes back as " + std::to_string(back.toMSecsSinceEpoch())); continue; }
            double secs = double(int64_t(a.seconds())) + double(int32_t(a.nanos())) / 1e9;
            if (secs - t / 1000.0 > 1 || secs - t / 1000.0 < -1) CORE.fail(show() + " is sent as " + std::to_string(int64_t(a.seconds())) + " s " + std::to_string(int32_t(a.nanos())) + " ns");
        }
}
// known findings
void schemaProbe(VWorld &, const std::string &name)
{
    QtProtobuf::QProtobufSerializer ser;
    if (name == "timestamp-fraction") {
        Stamp s;
        s.setSeconds(1); s.setNanos(500000000);
        if (QDateTime(s).toMSecsSinceEpoch() != 1500) CORE.fail("Timestamp of 1.5 s converts to " + std::to_string(QDateTime(s).toMSecsSinceEpoch()) + " ms");
    } else if (name == "value-kind") {
        SMessage &v = find("google.protobuf.Value");
        std::unique_ptr<gp::Message> m(v.cls.proto->New()), got(m->New());
        fill(*m, {4, {}});
        std::unique_ptr<QObject> o(v.cls.create());
        v.cls.fromRef(*m, o.get());
        QByteArray b = v.cls.serialize(&ser, o.get());
        got->ParseFromArray(b.data(), b.size());
        if (vbCanon(*got) != vbCanon(*m)) CORE.fail("Value {" + m->ShortDebugString() + "} is read as {" + got->ShortDebugString() + "}");
    } else { fprintf(stderr, "no such probe\n"); _exit(3); }
}
