// P22: every value of bounded spaces of the supported Qt types through a message field, the wire and back; the reference implementation reads and writes the same wire.
#include "core.h"
#include "bridge.h"
#include "qt.qpb.h"
#include <qtprotobufqttypes.h>
#include <qprotobufserializer.h>
#include <QGuiApplication>
#include <QtGui>
#include <set>
using namespace QtProtobuf;
static gp::DescriptorPool pool;
static gp::DynamicMessageFactory factory{&pool};
static QProtobufSerializer *ser;
static std::string hexOf(const QByteArray &b) { return Core::hex(b.toStdString()); }

// ---- the content of a value: exact components -------------------------------------------------------------------
template<class T> static QByteArray key(const T &v)
{
    QByteArray b;
    QDataStream s(&b, QIODevice::WriteOnly);
    s << v;
    return b;
}
template<> QByteArray key(const ::QUrl &v) { return key(v.isEmpty()) + v.toString(::QUrl::FullyEncoded).toUtf8() + key(v.userInfo()) + key(v.host()) + key(v.port()) + key(v.path()) + key(v.query()) + key(v.fragment()) + key(v.hasQuery()) + key(v.hasFragment()); }
template<> QByteArray key(const ::QDateTime &v) { return key(v.date()) + key(v.time()) + key(v.isValid()); }
template<> QByteArray key(const ::QImage &v)
{
    QByteArray b;
    QDataStream s(&b, QIODevice::WriteOnly);
    s << v.isNull() << v.size();
    for (int y = 0; y < v.height(); y++) for (int x = 0; x < v.width(); x++) s << quint64(v.pixelColor(x, y).rgba64());
    return b;
}
// ---- what the published schema says about it ----------------------------------------------------------------------
struct Ref {
    gp::Message &m;
    const gp::FieldDescriptor *f(const char *n) { auto *d = m.GetDescriptor()->FindFieldByName(n); if (!d) qFatal("no field %s", n); return d; }
    Ref &i(const char *n, int v) { m.GetReflection()->SetInt32(&m, f(n), v); return *this; }
    Ref &u(const char *n, unsigned v) { m.GetReflection()->SetUInt32(&m, f(n), v); return *this; }
    Ref &d(const char *n, double v) { m.GetReflection()->SetDouble(&m, f(n), v); return *this; }
    Ref &fl(const char *n, float v) { m.GetReflection()->SetFloat(&m, f(n), v); return *this; }
    Ref &s(const char *n, const QByteArray &v) { m.GetReflection()->SetString(&m, f(n), v.toStdString()); return *this; }
    Ref sub(const char *n) { return Ref{*m.GetReflection()->MutableMessage(&m, f(n))}; }
    Ref add(const char *n) { return Ref{*m.GetReflection()->AddMessage(&m, f(n))}; }
    std::string str(const char *n) { return m.GetReflection()->GetString(m, f(n)); }
};
// fills the reference message; false when the schema leaves the text of the value to the sender (then only its meaning is compared)
static bool put(Ref r, const ::QChar &v) { QByteArray b; b.append(char(v.unicode() >> 8)); b.append(char(v.unicode() & 255)); r.s("character", b); return true; }
static bool put(Ref r, const ::QTime &v) { r.i("msec", ((v.hour() * 60 + v.minute()) * 60 + v.second()) * 1000 + v.msec()); return true; }
static bool put(Ref r, const ::QDate &v) { r.i("year", v.year()).i("month", v.month()).i("day", v.day()); return true; }
static bool put(Ref r, const ::QDateTime &v) { put(r.sub("date"), v.date()); put(r.sub("time"), v.time()); return true; }
static bool put(Ref r, const ::QSize &v) { r.i("width", v.width()).i("height", v.height()); return true; }
static bool put(Ref r, const ::QSizeF &v) { r.d("width", v.width()).d("height", v.height()); return true; }
static bool put(Ref r, const ::QPoint &v) { r.i("x", v.x()).i("y", v.y()); return true; }
static bool put(Ref r, const ::QPointF &v) { r.d("x", v.x()).d("y", v.y()); return true; }
static bool put(Ref r, const ::QRect &v) { put(r.sub("position"), ::QPoint(v.x(), v.y())); put(r.sub("size"), ::QSize(v.width(), v.height())); return true; }
static bool put(Ref r, const ::QRectF &v) { put(r.sub("position"), ::QPointF(v.x(), v.y())); put(r.sub("size"), ::QSizeF(v.width(), v.height())); return true; }
static bool put(Ref r, const ::QPolygon &v) { for (int i = 0; i < v.size(); i++) put(r.add("points"), v.at(i)); return true; }
static bool put(Ref r, const ::QPolygonF &v) { for (int i = 0; i < v.size(); i++) put(r.add("points"), v.at(i)); return true; }
static bool put(Ref r, const ::QColor &v) { r.u("rgba", unsigned(v.alpha()) << 24 | unsigned(v.red()) << 16 | unsigned(v.green()) << 8 | unsigned(v.blue())); return true; }
static bool put(Ref r, const ::QMatrix4x4 &v) { for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) { char n[4] = {'m', char('1' + i), char('1' + j), 0}; r.fl(n, v(i, j)); } return true; }
static bool put(Ref r, const ::QVector2D &v) { r.fl("xpos", v.x()).fl("ypos", v.y()); return true; }
static bool put(Ref r, const ::QVector3D &v) { r.fl("xpos", v.x()).fl("ypos", v.y()).fl("zpos", v.z()); return true; }
static bool put(Ref r, const ::QVector4D &v) { r.fl("xpos", v.x()).fl("ypos", v.y()).fl("zpos", v.z()).fl("wpos", v.w()); return true; }
static bool put(Ref r, const ::QTransform &v)
{
    r.d("m11", v.m11()).d("m12", v.m12()).d("m13", v.m13()).d("m21", v.m21()).d("m22", v.m22()).d("m23", v.m23()).d("m31", v.m31()).d("m32", v.m32()).d("m33", v.m33());
    return true;
}
static bool put(Ref r, const ::QQuaternion &v) { r.fl("scalar", v.scalar()); put(r.sub("vector"), ::QVector3D(v.x(), v.y(), v.z())); return true; }
static bool put(Ref r, const ::QUrl &v) { r.s("url", v.toString(::QUrl::FullyEncoded).toUtf8()); return false; }
static bool put(Ref r, const ::QUuid &v) { r.s("uuid", v.toString().toUtf8()); return false; }
static bool put(Ref r, const ::QImage &v) { if (v.isNull()) return false; QByteArray b; QBuffer f(&b); f.open(QIODevice::WriteOnly); v.save(&f, "PNG"); r.s("data", b).s("format", "PNG"); return false; }
template<class T> static T meaning(Ref) { qFatal("no meaning"); }
template<> ::QUrl meaning(Ref r) { return ::QUrl(QString::fromStdString(r.str("url"))); }
template<> ::QUuid meaning(Ref r) { return ::QUuid(QString::fromStdString(r.str("uuid"))); }
template<> ::QImage meaning(Ref r) { std::string d = r.str("data"); return ::QImage::fromData(reinterpret_cast<const uchar *>(d.data()), int(d.size()), r.str("format").c_str()); }

template<class M, class T> struct Type {
    const char *name;
    const gp::Message *proto;
    std::map<QByteArray, QByteArray> wires; // wire -> content; distinct contents must stay distinct
    T other;
    std::vector<T> picks; // a few values for the message with all types
    Type(const char *n, const T &o) : name(n), other(o) { proto = factory.GetPrototype(pool.FindMessageTypeByName(std::string("qtv.M") + n)); }
    void value(const T &v)
    {
        if (picks.size() < 2) picks.push_back(v);
        if (CORE.want()) one(v);
    }
    void one(const T &v)
    {
        QByteArray k = key(v);
        auto bad = [&](const std::string &s) { QString t; QDebug(&t) << v; CORE.fail(std::string(name) + " " + t.toStdString() + ": " + s); };
        if ((v == T() && k != key(T())) || (v == other && k != key(other))) { CORE.count("same by Qt's comparison"); return; }
        CORE.count("nontrivial", k != key(T()));
        CORE.state(name + k.toStdString());
        M m;
        m.setVal(v);
        if (key(T(m.val())) != k) return bad("the field does not hold the value set");
        QByteArray w = m.serialize(ser);
        CORE.count("transitions", 4);
        M back;
        back.deserialize(ser, w);
        if (key(T(back.val())) != k) { QString t; QDebug(&t) << T(back.val()); return bad("arrives as " + t.toStdString() + ", wire " + hexOf(w.left(64))); }
        M over;
        over.setVal(other);
        over.deserialize(ser, w);
        if (key(T(over.val())) != k) return bad("arrives differently over another value, wire " + hexOf(w.left(64)));
        // the published schema
        std::unique_ptr<gp::Message> got(proto->New()), want(proto->New());
        if (!got->ParseFromArray(w.data(), w.size())) return bad("wire is not decodable by the reference: " + hexOf(w.left(64)));
        auto *f = proto->GetDescriptor()->field(0);
        auto mut = [&](gp::Message &x) { return Ref{*x.GetReflection()->MutableMessage(&x, f)}; };
        if (put(mut(*want), v)) {
            if (vbCanon(*got) != vbCanon(*want)) return bad("the reference reads {" + got->ShortDebugString() + "} instead of {" + want->ShortDebugString() + "}");
        } else if (key(meaningOf(mut(*got))) != k) return bad("the reference reads {" + got->ShortDebugString().substr(0, 200) + "}");
        std::string rw = want->SerializeAsString();
        M in;
        in.setVal(other);
        in.deserialize(ser, QByteArray(rw.data(), int(rw.size())));
        if (key(T(in.val())) != k) { QString t; QDebug(&t) << T(in.val()); return bad("sent by the reference arrives as " + t.toStdString()); }
        if (w.size() < 600 && wires.size() < 400000) {
            auto it = wires.emplace(w, k);
            if (!it.second && it.first->second != k) return bad("another value has the same encoding " + hexOf(w));
        }
    }
    T meaningOf(Ref r) { return meaningImpl(r, std::integral_constant<bool, std::is_same<T, ::QUrl>::value || std::is_same<T, ::QUuid>::value || std::is_same<T, ::QImage>::value>()); }
    T meaningImpl(Ref r, std::true_type) { return meaning<T>(r); }
    T meaningImpl(Ref, std::false_type) { return T(); }
};
static std::vector<int> ints()
{
    std::set<int> s{0, 1, -1, 2, -2, 7, -7, 100, -100, INT_MAX, INT_MIN, INT_MAX - 1, INT_MIN + 1};
    for (int k = 2; k < 31; k++) { int p = 1 << k; s.insert({p, p - 1, p + 1, -p, -p - 1, -p + 1}); }
    return std::vector<int>(s.begin(), s.end());
}
static std::vector<int> fewInts() { return {0, 1, -1, 63, 64, -64, -65, 127, 128, 255, 256, 8191, 8192, -8192, -8193, 65535, 65536, 1 << 20, -(1 << 20), 1 << 30, -(1 << 30), INT_MAX, INT_MIN}; }
static std::vector<double> doubles(bool few)
{
    if (few) return {0, 1, -1, 0.5, 1e-300, -1e300, 123456789.125, 1e-9};
    return {0, 1, -1, 0.5, -0.5, 1.0 / 3, 0.1, 255, 256, 65536, 1e9, -1e9, 4294967296.0, 9007199254740993.0, 123456789.125, 1e-9, 1e-12, 1e-13, 1e-300, 5e-324, 2.2250738585072014e-308, 1e300, -1.7976931348623157e308, qInf(), -qInf()};
}
static std::vector<float> floats(bool few)
{
    if (few) return {0, 1, -1, 0.5f, 1e-30f, -1e30f, 0.1f};
    return {0, 1, -1, 0.5f, 0.1f, 1.0f / 3, 255, 65536, 16777217.0f, -1e9f, 1e-6f, 1e-30f, 1e-45f, 1.17549435e-38f, 3.40282347e38f, float(qInf()), -float(qInf())};
}
template<class M, class S> struct AllPick { std::function<void(qtv::All &, int)> set; std::function<QByteArray(const qtv::All &)> get; };
struct Field { std::string name; std::function<void(qtv::All &, int)> set; std::function<QByteArray(const qtv::All &)> get; std::vector<QByteArray> want; };
int main(int argc, char **argv)
{
    QGuiApplication app(argc, argv);
    CORE.init(argc, argv);
    {
        QFile fd(QT_FDS);
        fd.open(QIODevice::ReadOnly);
        QByteArray b = fd.readAll();
        gp::FileDescriptorSet set;
        if (!set.ParseFromArray(b.data(), b.size())) { fprintf(stderr, "no descriptors\n"); return 3; }
        for (auto &f : set.file()) pool.BuildFile(f);
    }
    qRegisterProtobufTypes();
    qRegisterProtobufQtTypes();
    QProtobufSerializer serializer;
    ser = &serializer;
    bool th = CORE.thorough();
    try {
    // ---- QtCore
    Type<qtv::MQChar, ::QChar> c("QChar", ::QChar('x'));
    for (int i = 0; i < 65536; i++) c.value(::QChar(ushort(i)));

    Type<qtv::MQUuid, ::QUuid> u("QUuid", ::QUuid("{12345678-1234-1234-1234-123456789abc}"));
    u.value(::QUuid());
    for (int fill : {0, 255, 0x5a}) for (int pos = 0; pos < 16; pos++) for (int v = 0; v < 256; v++) {
        QByteArray r(16, char(fill));
        r[pos] = char(v);
        u.value(::QUuid::fromRfc4122(r));
    }
    if (th) for (int a = 0; a < 16; a++) for (int b = 0; b < a; b++) for (int v = 0; v < 65536; v += 3) { QByteArray r(16, 0); r[a] = char(v); r[b] = char(v >> 8); u.value(::QUuid::fromRfc4122(r)); }

    Type<qtv::MQTime, ::QTime> t("QTime", ::QTime(1, 2, 3, 4));
    if (th) for (int ms = 0; ms < 86400000; ms += 7) t.value(::QTime::fromMSecsSinceStartOfDay(ms));
    for (int h = 0; h < 24; h++) for (int m = 0; m < 60; m++) for (int s = 0; s < 60; s++) for (int ms : {0, 1, 999}) { if (!th && ms == 1 && s % 10) continue; t.value(::QTime(h, m, s, ms)); }
    for (int ms = 0; ms < 1000; ms++) t.value(::QTime(0, 0, 0, ms));

    std::vector<::QDate> dates;
    auto years = [&](int a, int b) { for (int y = a; y <= b; y++) for (int m = 1; m <= 12; m++) for (int d = 1; d <= 31; d++) if (::QDate::isValid(y, m, d)) dates.push_back(::QDate(y, m, d)); };
    years(-4, 5); years(1581, 1583); years(1899, 1901); years(1968, th ? 2100 : 2040); years(9999, 10000); years(-4714, -4713); years(1000000, 1000000); years(-200000, -200000);
    Type<qtv::MQDate, ::QDate> d("QDate", ::QDate(2001, 2, 3));
    d.value(::QDate());
    for (auto &x : dates) d.value(x);

    Type<qtv::MQDateTime, ::QDateTime> dt("QDateTime", ::QDateTime(::QDate(2001, 2, 3), ::QTime(4, 5, 6, 7)));
    {
        std::vector<::QTime> times{::QTime(0, 0), ::QTime(0, 0, 0, 1), ::QTime(1, 30), ::QTime(2, 0), ::QTime(2, 30), ::QTime(12, 34, 56, 789), ::QTime(23, 59, 59, 999)};
        for (auto &x : dates) for (auto &y : times) {
            ::QDateTime v(x, y);
            if (v.isValid() && v.date() == x && v.time() == y) dt.value(v); // local times that a clock change skips are not valid
        }
    }
    auto I = ints(), F = fewInts();
    Type<qtv::MQSize, ::QSize> s("QSize", ::QSize(5, 6));
    Type<qtv::MQPoint, ::QPoint> p("QPoint", ::QPoint(5, 6));
    for (int a : I) for (int b : th ? I : F) { s.value(::QSize(a, b)); s.value(::QSize(b, a)); p.value(::QPoint(a, b)); p.value(::QPoint(b, a)); }
    auto D = doubles(false), DF = doubles(true);
    Type<qtv::MQSizeF, ::QSizeF> sf("QSizeF", ::QSizeF(5, 6));
    Type<qtv::MQPointF, ::QPointF> pf("QPointF", ::QPointF(5, 6));
    for (double a : D) for (double b : D) { sf.value(::QSizeF(a, b)); pf.value(::QPointF(a, b)); }
    Type<qtv::MQRect, ::QRect> r("QRect", ::QRect(1, 2, 3, 4));
    r.value(::QRect());
    {
        std::vector<int> R{0, 1, -1, 64, -65, 8191, -8193, 65536, 1 << 30, -(1 << 30), INT_MAX, INT_MIN};
        for (int x : R) for (int y : R) for (int w : R) for (int h : R) {
            qint64 right = qint64(x) + w - 1, bottom = qint64(y) + h - 1;
            if (right > INT_MAX || right < INT_MIN || bottom > INT_MAX || bottom < INT_MIN) continue; // no rectangle has these corners
            r.value(::QRect(x, y, w, h));
        }
    }
    Type<qtv::MQRectF, ::QRectF> rf("QRectF", ::QRectF(1, 2, 3, 4));
    for (double x : DF) for (double y : DF) for (double w : DF) for (double h : DF) rf.value(::QRectF(x, y, w, h));
    Type<qtv::MQPolygon, ::QPolygon> po("QPolygon", ::QPolygon() << ::QPoint(9, 9));
    Type<qtv::MQPolygonF, ::QPolygonF> pof("QPolygonF", ::QPolygonF() << ::QPointF(9, 9));
    {
        std::vector<::QPoint> P{{0, 0}, {1, 0}, {0, -1}, {-65, 64}, {INT_MAX, INT_MIN}};
        std::vector<::QPointF> PF{{0, 0}, {1.5, 0}, {0, -1e300}, {5e-324, 0.1}, {qInf(), 1}};
        int n = int(P.size()), maxLen = th ? 6 : 5;
        for (int len = 0; len <= maxLen; len++) {
            int total = 1;
            for (int i = 0; i < len; i++) total *= n;
            for (int code = 0; code < total; code++) {
                ::QPolygon a; ::QPolygonF b;
                for (int i = 0, x = code; i < len; i++, x /= n) { a << P[x % n]; b << PF[x % n]; }
                po.value(a);
                pof.value(b);
            }
        }
        for (int len : {10, 31, 32, 63, 64, 127, 128, 200, 1000, 5000}) { ::QPolygon a; ::QPolygonF b; for (int i = 0; i < len; i++) { a << ::QPoint(i * 7919, -i); b << ::QPointF(i / 3.0, -i); } po.value(a); pof.value(b); }
    }
    // the order of parts of a URL matters to its text: every combination of parts
    Type<qtv::MQUrl, ::QUrl> ur("QUrl", ::QUrl("ftp://other/"));
    ur.value(::QUrl());
    {
        QStringList scheme{"", "http", "https", "file", "mailto", "x-y+z.1", "qrc"}, user{"", "user", "us%40er", "user:pa%3Ass", "user:", QString::fromUtf8("us\xc3\xa9r")},
            host{"", "localhost", "www.example.com", "192.168.0.1", "[::1]", QString::fromUtf8("b\xc3\xbc" "cher.example")}, port{"", "80", "65535"},
            path{"", "/", "/a/b", "/a%2Fb", "/with%20space", "/%25", "/%C3%A9", "/a//b/../c/.", "/a;b=c,d", "/%00x", "/%7Etilde~", "/sp ace", "rel/ative", "a:b", QString::fromUtf8("/\xe2\x82\xac/\xf0\x9f\x98\x80"), "/%E2%28", "/[x]", "/a%5Cb", "/%3F%23"},
            query{"-", "", "q=1", "q=a%26b&c=%3D", "a+b%20c", "%25", "x=[1]", QString::fromUtf8("\xc3\xa9")}, frag{"-", "", "frag", "a%23b", "%25", "x y"};
        for (auto &sc : scheme) for (auto &us : user) for (auto &ho : host) for (auto &pt : port) for (auto &pa : path) for (auto &q : query) for (auto &fr : frag) {
            if (ho.isEmpty() && (!us.isEmpty() || !pt.isEmpty()) ) continue;
            if (!th && !us.isEmpty() && (pt == "65535" || fr == "frag" || q == "q=1")) continue;
            if (!th && (sc == "https" || sc == "qrc") && fr != "-") continue;
            QString text = (sc.isEmpty() ? QString() : sc + ":") + (ho.isEmpty() ? QString() : "//" + (us.isEmpty() ? QString() : us + "@") + ho + (pt.isEmpty() ? QString() : ":" + pt)) + pa + (q == "-" ? QString() : "?" + q) + (fr == "-" ? QString() : "#" + fr);
            if (!CORE.want()) { if (ur.picks.size() < 2) ur.picks.push_back(::QUrl(text)); continue; }
            ::QUrl v(text);
            if (!v.isValid()) { CORE.count("not valid"); continue; }
            ur.one(v);
        }
        // built from decoded parts rather than parsed
        for (auto &pa : path) for (auto &q : query) for (auto &us : user) {
            ::QUrl v;
            v.setScheme("http"); v.setHost("h"); v.setPath(pa.startsWith('/') ? pa : "/" + pa, ::QUrl::DecodedMode); v.setUserInfo(us, ::QUrl::TolerantMode);
            if (q != "-") v.setQuery(q, ::QUrl::TolerantMode);
            if (v.isValid()) ur.value(v);
        }
    }
    // ---- QtGui
    Type<qtv::MQColor, ::QColor> co("QColor", ::QColor(1, 2, 3, 4));
    {
        int shifts[4] = {0, 8, 16, 24};
        for (unsigned rest : {0u, 0xffffffffu}) for (int a = 0; a < 4; a++) for (int b = 0; b < a; b++) for (unsigned v = 0; v < 65536; v += th ? 1 : 5) {
            unsigned x = rest & ~(255u << shifts[a]) & ~(255u << shifts[b]);
            x |= (v & 255) << shifts[a] | (v >> 8) << shifts[b];
            co.value(::QColor::fromRgba(x));
        }
        for (auto &n : ::QColor::colorNames()) { ::QColor x(n); if (x.isValid()) co.value(x); }
    }
    auto FL = floats(false), FF = floats(true);
    Type<qtv::MQVector2D, ::QVector2D> v2("QVector2D", ::QVector2D(5, 6));
    for (float a : FL) for (float b : FL) v2.value(::QVector2D(a, b));
    Type<qtv::MQVector3D, ::QVector3D> v3("QVector3D", ::QVector3D(5, 6, 7));
    for (float a : FL) for (float b : FL) for (float e : FL) v3.value(::QVector3D(a, b, e));
    Type<qtv::MQVector4D, ::QVector4D> v4("QVector4D", ::QVector4D(5, 6, 7, 8));
    Type<qtv::MQQuaternion, ::QQuaternion> qu("QQuaternion", ::QQuaternion(5, 6, 7, 8));
    for (float a : FF) for (float b : FF) for (float e : FF) for (float g : FF) { v4.value(::QVector4D(a, b, e, g)); qu.value(::QQuaternion(a, b, e, g)); }
    Type<qtv::MQMatrix4x4, ::QMatrix4x4> mx("QMatrix4x4", ::QMatrix4x4(1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16));
    Type<qtv::MQTransform, ::QTransform> tr("QTransform", ::QTransform(1, 2, 3, 4, 5, 6, 7, 8, 9));
    mx.value(::QMatrix4x4()); tr.value(::QTransform());
    for (int kind = 0; kind < 3; kind++) for (int a = 0; a < 16; a++) for (int b = 0; b <= a; b++) for (size_t i = 0; i < FL.size(); i++) for (size_t j = 0; j < FL.size(); j++) {
        if (a == b && j) continue;
        float m[16];
        for (int k = 0; k < 16; k++) m[k] = kind == 0 ? 0 : kind == 1 ? float(k % 5 == 0) : float(k + 1) / 7;
        m[a] = FL[i];
        if (a != b) m[b] = FL[j];
        mx.value(::QMatrix4x4(m));
        if (a < 9) {
            double n[9];
            for (int k = 0; k < 9; k++) n[k] = kind == 0 ? 0 : kind == 1 ? double(k % 4 == 0) : (k + 1) / 7.0;
            n[a] = D[i];
            if (a != b) n[b] = D[j];
            tr.value(::QTransform(n[0], n[1], n[2], n[3], n[4], n[5], n[6], n[7], n[8]));
        }
    }
    Type<qtv::MQImage, ::QImage> im("QImage", ::QImage(1, 1, ::QImage::Format_RGB32));
    im.value(::QImage());
    {
        std::vector<QRgb> cols{0xff000000, 0xffffffff, 0xff0102fe, 0x80ff8000};
        for (auto fmt : {::QImage::Format_ARGB32, ::QImage::Format_RGB32, ::QImage::Format_RGB888, ::QImage::Format_RGBA8888, ::QImage::Format_Grayscale8, ::QImage::Format_Mono, ::QImage::Format_Indexed8})
            for (int w = 1; w <= 3; w++) for (int h = 1; h <= 2; h++) {
                int n = w * h, base = 4, total = 1;
                for (int i = 0; i < n; i++) total *= base;
                if (total > (th ? 4096 : 256)) total = th ? 4096 : 256;
                for (int code = 0; code < total; code++) {
                    ::QImage v(w, h, fmt);
                    v.fill(0);
                    if (fmt == ::QImage::Format_Mono) v.setColorTable({0xff000000, 0xffffffff});
                    if (fmt == ::QImage::Format_Indexed8) v.setColorTable({0xff000000, 0xffffffff, 0xff0102fe, 0x80ff8000});
                    for (int i = 0, x = code; i < n; i++, x /= base) {
                        if (v.colorCount()) v.setPixel(i % w, i / w, uint(x % base % v.colorCount())); else v.setPixelColor(i % w, i / w, ::QColor::fromRgba(cols[x % base]));
                    }
                    im.value(v);
                }
            }
        for (int n : {16, 64, 100, 257}) { ::QImage v(n, n / 2, ::QImage::Format_ARGB32); for (int y = 0; y < v.height(); y++) for (int x = 0; x < n; x++) v.setPixel(x, y, qRgba(x, y, x ^ y, 255 - x % 256)); im.value(v); }
    }
    // ---- several of them in one message, in lists and maps of messages: every pair of fields
    std::vector<Field> fs;
#define FIELD(T, V) { Field f; f.name = #T; auto picks = V.picks; picks.push_back(V.other); f.set = [picks](qtv::All &a, int i) { a.setF##T(picks[i]); }; f.get = [](const qtv::All &a) { return key(::T(a.f##T())); }; for (auto &x : picks) f.want.push_back(key(x)); fs.push_back(f); }
    FIELD(QUrl, ur) FIELD(QChar, c) FIELD(QUuid, u) FIELD(QTime, t) FIELD(QDate, d) FIELD(QDateTime, dt) FIELD(QSize, s) FIELD(QSizeF, sf) FIELD(QPoint, p) FIELD(QPointF, pf) FIELD(QRect, r) FIELD(QRectF, rf) FIELD(QPolygon, po) FIELD(QPolygonF, pof)
    FIELD(QColor, co) FIELD(QMatrix4x4, mx) FIELD(QVector2D, v2) FIELD(QVector3D, v3) FIELD(QVector4D, v4) FIELD(QTransform, tr) FIELD(QQuaternion, qu) FIELD(QImage, im)
    for (size_t a = 0; a < fs.size(); a++) for (size_t b = 0; b < fs.size(); b++) for (size_t i = 0; i < fs[a].want.size(); i++) for (size_t j = 0; j < fs[b].want.size(); j++) {
        if (a == b && i != j) continue;
        if (!CORE.want()) continue;
        CORE.count("nontrivial");
        CORE.count("transitions", 2);
        CORE.state("pair" + fs[a].name + fs[b].name + std::to_string(i) + "," + std::to_string(j));
        auto fill = [&](qtv::All &m, bool all) {
            if (all) for (auto &f : fs) f.set(m, int(f.want.size()) - 1);
            fs[a].set(m, int(i)); fs[b].set(m, int(j));
            m.setBefore(-7); m.setAfter("tail"); m.setNums({1, -2});
        };
        auto check = [&](const qtv::All &m, bool all, const char *where) {
            for (size_t k = 0; k < fs.size(); k++) {
                if (k != a && k != b && !all) continue;
                QByteArray want = k == b ? fs[k].want[j] : k == a ? fs[k].want[i] : fs[k].want.back();
                if (fs[k].get(m) != want) { CORE.fail(std::string("field ") + fs[k].name + " of a message with " + fs[a].name + " and " + fs[b].name + " set " + where + " arrives differently"); return; }
            }
            if (m.before() != -7 || m.after() != "tail" || m.nums() != sint32List({1, -2})) CORE.fail(std::string("plain fields beside ") + fs[a].name + " and " + fs[b].name + " arrive differently " + where);
        };
        for (bool all : {false, true}) {
            qtv::All m, back;
            fill(m, all);
            qtv::Deep deep, dback;
            deep.setOne(m);
            deep.setMany({QSharedPointer<qtv::All>(new qtv::All(m)), QSharedPointer<qtv::All>(new qtv::All(m))});
            deep.setDict({{5, QSharedPointer<qtv::All>(new qtv::All(m))}});
            back.deserialize(ser, m.serialize(ser));
            check(back, all, "alone");
            if (i == j && (all || a == b)) {
                dback.deserialize(ser, deep.serialize(ser));
                check(dback.one(), all, "in a sub-message");
                if (dback.many().size() != 2 || dback.dict().size() != 1 || !dback.dict().value(5)) { CORE.fail("lists and maps of messages with Qt types arrive differently"); continue; }
                check(*dback.many().at(1), all, "in a list");
                check(*dback.dict().value(5), all, "in a map");
            }
            if (!(m == qtv::All(m)) ) CORE.fail("a copy of a message with Qt types differs");
        }
    }
    } catch (const std::exception &e) { CORE.fail(std::string("exception: ") + e.what()); }
    return CORE.finish();
}
