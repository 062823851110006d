// P21: every method of every generated client, in every calling style, against a channel that records requests and plays the server.
#include "core.h"
#include "service.h"
#include "schemavals.h"
#include <qabstractgrpcchannel.h>
#include <qprotobufserializer.h>
#include <QGuiApplication>
#include <QQmlEngine>
#include <memory>
using namespace QtProtobuf;
static VWorld world;
struct Request { std::string kind, service, method, arg; QPointer<QGrpcCallReply> reply; QPointer<QGrpcStream> stream; };
static std::vector<Request> requests;
static QByteArray answer;
static QGrpcStatus answerStatus;
struct RecChannel : QAbstractGrpcChannel {
    std::shared_ptr<QProtobufSerializer> ser = std::make_shared<QProtobufSerializer>();
    QGrpcStatus call(const QString &method, const QString &service, const QByteArray &args, QByteArray &ret) override
    {
        requests.push_back({"unary", service.toStdString(), method.toStdString(), args.toStdString(), nullptr, nullptr});
        if (answerStatus.code() == QGrpcStatus::Ok) ret = answer;
        return answerStatus;
    }
    void call(const QString &method, const QString &service, const QByteArray &args, QGrpcCallReply *reply) override
    { requests.push_back({"unary", service.toStdString(), method.toStdString(), args.toStdString(), reply, nullptr}); }
    void stream(QGrpcStream *s, const QString &service, QAbstractGrpcClient *) override
    { requests.push_back({"stream", service.toStdString(), s->method().toStdString(), s->arg().toStdString(), nullptr, s}); }
    std::shared_ptr<QAbstractProtobufSerializer> serializer() const override { return ser; }
};
// the base class keeps its destructor protected; clients are destroyed as the objects they are
struct Client {
    QAbstractGrpcClient *p;
    Client(QAbstractGrpcClient *x) : p(x) {}
    ~Client() { delete static_cast<QObject *>(p); }
    QAbstractGrpcClient *get() const { return p; }
    QAbstractGrpcClient *operator->() const { return p; }
};
static std::string where;
static bool bad(const std::string &s) { CORE.fail(where + ": " + s); return false; }
static std::string show(const gp::Message &m) { return "{" + m.ShortDebugString() + "}"; }
static void make(const VClass &c, int i, std::unique_ptr<gp::Message> &m, std::unique_ptr<QObject> &o)
{
    m.reset(c.proto->New());
    if (i) schemaFill(*m, i - 1, 0);
    o.reset(c.create());
    c.fromRef(*m, o.get());
}
static bool requested(const SMethod &m, const gp::Message &arg, const char *kind, size_t n = 1)
{
    if (requests.size() != n) return bad("issues " + std::to_string(requests.size()) + " requests");
    auto &r = requests.back();
    if (r.kind != kind) return bad("is requested as " + r.kind);
    if (r.service != m.service) return bad("is sent to service " + r.service);
    if (r.method != m.method) return bad("is sent to method " + r.method);
    std::unique_ptr<gp::Message> got(arg.New());
    if (!got->ParseFromString(r.arg)) return bad("argument " + show(arg) + " is sent as undecodable " + Core::hex(r.arg));
    if (vbCanon(*got) != vbCanon(arg)) return bad("argument " + show(arg) + " is sent as " + show(*got));
    CORE.count("transitions");
    return true;
}
static bool result(const VClass &c, const QObject *o, const gp::Message &want)
{
    std::unique_ptr<gp::Message> got(want.New());
    c.toRef(o, *got);
    if (vbCanon(*got) != vbCanon(want)) return bad("response " + show(want) + " is handed back as " + show(*got));
    CORE.count("transitions");
    return true;
}
static const char *styles[] = {"blocking", "asynchronous", "callback", "QML callback", "QML return object"};
static const char *sstyles[] = {"stream", "stream into object", "QML stream"};
static void unary(SMethod &m, int style, int a, int r, int err, QQmlEngine *engine)
{
    std::unique_ptr<gp::Message> arg, res, zero;
    std::unique_ptr<QObject> ao, ro, empty;
    make(m.inc, a, arg, ao);
    make(m.outc, r, res, ro);
    make(m.outc, 0, zero, empty);
    std::string e = res->SerializeAsString();
    answer = QByteArray(e.data(), int(e.size()));
    answerStatus = err ? QGrpcStatus(QGrpcStatus::StatusCode(err), "no") : QGrpcStatus(QGrpcStatus::Ok);
    std::shared_ptr<RecChannel> ch = std::make_shared<RecChannel>();
    Client c(m.create());
    c->attachChannel(ch);
    requests.clear();
    auto respond = [&]() {
        auto reply = requests.back().reply;
        if (!reply) return;
        if (err) emit reply->error(answerStatus); else { reply->setData(answer); emit reply->finished(); }
    };
    if (style == 0) {
        QGrpcStatus s = m.sync(c.get(), ao.get(), empty.get());
        if (!requested(m, *arg, "unary")) return;
        if (int(s.code()) != err) { bad("status " + std::to_string(err) + " is returned as " + std::to_string(int(s.code()))); return; }
        result(m.outc, empty.get(), err ? *zero : *res);
    } else if (style == 1) {
        auto reply = m.async(c.get(), ao.get());
        if (!requested(m, *arg, "unary")) return;
        int fin = 0, errors = 0;
        QObject::connect(reply.get(), &QGrpcCallReply::finished, c.get(), [&] { fin++; });
        QObject::connect(reply.get(), &QGrpcCallReply::error, c.get(), [&] { errors++; });
        respond();
        if (fin != (err ? 0 : 1) || errors != (err ? 1 : 0)) { bad("notifies finished " + std::to_string(fin) + " and error " + std::to_string(errors) + " times"); return; }
        if (!err) { std::unique_ptr<QObject> o(m.readReply(reply)); result(m.outc, o.get(), *res); }
    } else if (style == 2) {
        int n = 0;
        QObject ctx;
        std::unique_ptr<QObject> o;
        m.callback(c.get(), ao.get(), &ctx, [&](QGrpcCallReplyShared reply) { n++; o.reset(m.readReply(reply)); });
        if (!requested(m, *arg, "unary")) return;
        respond();
        if (n != (err ? 0 : 1)) { bad("calls back " + std::to_string(n) + " times"); return; }
        if (!err) result(m.outc, o.get(), *res);
    } else {
        QQmlEngine::setObjectOwnership(c.get(), QQmlEngine::CppOwnership);
        engine->newQObject(c.get());
        engine->globalObject().setProperty("got", QJSValue());
        engine->globalObject().setProperty("count", 0);
        engine->globalObject().setProperty("errors", 0);
        QJSValue f = engine->evaluate("(function(r) { got = r; count = count + 1; })"), ef = engine->evaluate("(function(s) { errors = errors + 1; })");
        if (style == 3) m.js(c.get(), ao.get(), f, ef); else m.jsret(c.get(), ao.get(), empty.get(), ef);
        if (!requested(m, *arg, "unary")) return;
        respond();
        int n = engine->globalObject().property("count").toInt(), ne = engine->globalObject().property("errors").toInt();
        if (n != (style == 3 && !err ? 1 : 0) || ne != (err ? 1 : 0)) { bad("calls back " + std::to_string(n) + " times and reports " + std::to_string(ne) + " errors"); return; }
        if (style == 4) result(m.outc, empty.get(), err ? *zero : *res);
        else if (!err) {
            QObject *o = engine->globalObject().property("got").toQObject();
            if (!o || o->metaObject() != m.outc.meta) { bad(std::string("hands ") + (o ? o->metaObject()->className() : "nothing") + " to the callback"); return; }
            result(m.outc, o, *res);
        }
        engine->globalObject().setProperty("got", QJSValue());
    }
    if (!CORE.failed && requests.size() != 1) bad("issues further requests");
}
static void streaming(SMethod &m, int style, int a, int r, int r2)
{
    std::unique_ptr<gp::Message> arg, res[2];
    std::unique_ptr<QObject> ao, ro, target;
    make(m.inc, a, arg, ao);
    make(m.outc, 0, res[0], target);
    make(m.outc, r, res[0], ro);
    make(m.outc, r2, res[1], ro);
    std::shared_ptr<RecChannel> ch = std::make_shared<RecChannel>();
    Client c(m.create());
    c->attachChannel(ch);
    requests.clear();
    QGrpcStreamShared s = style == 0 ? m.stream(c.get(), ao.get()) : style == 1 ? m.bound(c.get(), ao.get(), target.get()) : m.invoked(c.get(), ao.get(), target.get());
    if (!s) { bad("gives no stream"); return; }
    if (!requested(m, *arg, "stream")) return;
    int n = 0;
    QObject::connect(s.get(), &QGrpcStream::messageReceived, c.get(), [&] { n++; });
    for (int k = 0; k < 2; k++) {
        std::string e = res[k]->SerializeAsString();
        if (!requests.back().stream) { bad("stream is released while in use"); return; }
        requests.back().stream->handler(QByteArray(e.data(), int(e.size())));
        if (n != k + 1) { bad("message " + std::to_string(k + 1) + " is notified " + std::to_string(n) + " times in total"); return; }
        std::unique_ptr<QObject> o(m.readStream(s));
        if (!result(m.outc, o.get(), *res[k])) return;
        if (style && !result(m.outc, target.get(), *res[k])) return;
    }
    if (requests.size() != 1) bad("issues further requests");
}
// a client without a channel: one error per operation, reported by the client (and to the QML error callback), no request, no result, no failure
static void detached(SMethod &m, int style, int a, QQmlEngine *engine)
{
    std::unique_ptr<gp::Message> arg, zero;
    std::unique_ptr<QObject> ao, target;
    make(m.inc, a, arg, ao);
    make(m.outc, 0, zero, target);
    Client c(m.create());
    requests.clear();
    int errors = 0, n = 0, wantJs = 0, js = 0;
    QObject ctx;
    QObject::connect(c.get(), &QAbstractGrpcClient::error, &ctx, [&](const QGrpcStatus &s) { errors += s.code() != QGrpcStatus::Ok; });
    if (m.streaming) {
        QGrpcStreamShared s = style == 0 ? m.stream(c.get(), ao.get()) : style == 1 ? m.bound(c.get(), ao.get(), target.get()) : m.invoked(c.get(), ao.get(), target.get());
        if (s) { bad("gives a stream without a channel"); return; }
    } else if (style == 0) {
        if (m.sync(c.get(), ao.get(), target.get()) == QGrpcStatus::Ok) { bad("succeeds without a channel"); return; }
    } else if (style == 1) {
        if (m.async(c.get(), ao.get())) { bad("gives a reply without a channel"); return; }
    } else if (style == 2) m.callback(c.get(), ao.get(), &ctx, [&](QGrpcCallReplyShared) { n++; });
    else {
        QQmlEngine::setObjectOwnership(c.get(), QQmlEngine::CppOwnership);
        engine->newQObject(c.get());
        engine->globalObject().setProperty("count", 0);
        engine->globalObject().setProperty("errors", 0);
        QJSValue f = engine->evaluate("(function(r) { count = count + 1; })"), ef = engine->evaluate("(function(s) { errors = errors + 1; })");
        if (style == 3) m.js(c.get(), ao.get(), f, ef); else m.jsret(c.get(), ao.get(), target.get(), ef);
        n = engine->globalObject().property("count").toInt();
        js = engine->globalObject().property("errors").toInt();
        wantJs = 1;
    }
    QCoreApplication::sendPostedEvents();
    if (n) { bad("reports success without a channel"); return; }
    if (js != wantJs) { bad("calls the error callback " + std::to_string(js) + " times without a channel"); return; }
    if (errors != 1) { bad("reports " + std::to_string(errors) + " errors without a channel"); return; }
    if (!result(m.outc, target.get(), *zero)) return;
    // the same client works once it has a channel
    c->attachChannel(std::make_shared<RecChannel>());
    if (!requests.empty()) { bad("a request of the time without a channel is issued later"); return; }
    if (m.streaming) { auto s = m.stream(c.get(), ao.get()); if (!s) { bad("gives no stream"); return; } requested(m, *arg, "stream"); }
    else { auto r = m.async(c.get(), ao.get()); if (!r) { bad("gives no reply"); return; } requested(m, *arg, "unary"); }
}
int main(int argc, char **argv)
{
    QGuiApplication app(argc, argv);
    CORE.init(argc, argv);
    qRegisterProtobufTypes();
    if (!world.load(qgetenv("SCHEMA_FDS").constData())) { fprintf(stderr, "no descriptors\n"); return 3; }
    std::unique_ptr<QQmlEngine> engine(new QQmlEngine);
    int total = 0;
    for (auto *s : SService::all()) total += s->methods;
    if (int(SMethod::all().size()) != total) { fprintf(stderr, "table incomplete\n"); return 3; }
    int vals = CORE.thorough() ? 5 : 3;
    for (auto &m : SMethod::all()) {
        world.add(m.inc); m.inc = world[m.inc.name];
        world.add(m.outc); m.outc = world[m.outc.name];
        for (int style = 0; style < (m.streaming ? m.qml ? 3 : 2 : m.qml ? 5 : 3); style++)
            for (int a = 0; a < vals; a++) {
                if (!CORE.want()) continue;
                where = m.service + "." + m.method + " (" + (m.streaming ? sstyles : styles)[style] + ", no channel)";
                CORE.state(where + std::to_string(a));
                CORE.count("nontrivial");
                detached(m, style, a, engine.get());
                CORE.sample(where, 6);
            }
        if (!m.streaming) {
            for (int style = 0; style < (m.qml ? 5 : 3); style++)
                for (int a = 0; a < vals; a++)
                    for (int r = 0; r < vals + 2; r++) {
                        if (!CORE.want()) continue;
                        int err = r < vals ? 0 : r == vals ? 5 : 14;
                        where = m.service + "." + m.method + " (" + styles[style] + ")";
                        CORE.state(where + std::to_string(a) + "," + std::to_string(r));
                        CORE.count("nontrivial", a || r);
                        unary(m, style, a, err ? 1 : r, err, engine.get());
                        CORE.sample(where, 6);
                    }
        } else {
            for (int style = 0; style < (m.qml ? 3 : 2); style++)
                for (int a = 0; a < vals; a++)
                    for (int r = 0; r < vals; r++)
                        for (int r2 = 0; r2 < vals; r2++) {
                            if (!CORE.want()) continue;
                            where = m.service + "." + m.method + " (" + sstyles[style] + ")";
                            CORE.state(where + std::to_string(a) + "," + std::to_string(r) + "," + std::to_string(r2));
                            CORE.count("nontrivial", a || r || r2);
                            streaming(m, style, a, r, r2);
                            CORE.sample(where, 6);
                        }
        }
    }
    return CORE.finish();
}
