// QML stream element explorer: the real GrpcStream element, client and generated code against recording channels and a reference model.
#include "fakechannel.h"
#include "svc.qpb.h"
#include "svc_grpc.qpb.h"
#include "quick/qquickgrpcstream_p.h"
#include <QQmlEngine>
#include <QQmlContext>
#include <QJSValue>
using namespace QtProtobuf;
extern Q_CORE_EXPORT quintptr qtHookData[];
namespace {
using Bytes = QByteArray;
Bytes enc(int seq) { Bytes b; b += char(0x0a); b += char(1); b += char('a' + seq % 20); b += char(0x10); b += char(seq); return b; }
Bytes encReq(const Bytes &ask) { Bytes b; b += char(0x0a); b += char(ask.size()); b += ask; return b; }
const char *methods[] = {"", "watch", "follow", "echo", "nosuch"};
const char *clients[] = {"no client", "client 1", "client 2", "client without channel"};
const char *arguments[] = {"no argument", "argument a", "argument b", "argument of another type"};

void p18()
{
    bool th = CORE.thorough();
    int depth = th ? 6 : 5;
    qRegisterProtobufTypes();
    QQmlEngine engine;
    CORE.paths(5, 2, [&] {
        ChannelLog log;
        std::unique_ptr<vs::AlphaClient> cl[4];
        std::shared_ptr<FakeChannel> ch[4];
        for (int i = 1; i <= 3; i++) {
            cl[i] = std::make_unique<vs::AlphaClient>();
            if (i < 3) { ch[i] = std::make_shared<FakeChannel>(&log, i); cl[i]->attachChannel(ch[i]); }
        }
        std::unique_ptr<QObject> arg[4];
        { auto a = std::make_unique<vs::Req>(); a->setAsk("a"); arg[1] = std::move(a); }
        { auto a = std::make_unique<vs::Req>(); a->setAsk("b"); arg[2] = std::move(a); }
        arg[3] = std::make_unique<vs::Res>();
        auto el = std::make_unique<QQuickGrpcStream>();
        // as an element created by the QML engine: it has a context and is known to scripts
        QQmlEngine::setContextForObject(el.get(), engine.rootContext());
        QQmlEngine::setObjectOwnership(el.get(), QQmlEngine::CppOwnership);
        QJSValue wrapper = engine.newQObject(el.get());
        std::vector<std::pair<Bytes, int>> got, want;
        int errors = 0, wantErrors = 0, enabledChanges = 0, requests = 0, seq = 0;
        QObject ctx;
        bool toldEnabled = false;
        QObject *toldReturn = nullptr;
        bool disableInMessage = false, doDisable = false;
        QObject::connect(el.get(), &QQuickGrpcStream::messageReceived, &ctx, [&](const QJSValue &v) {
            auto *r = qobject_cast<vs::Res *>(v.toQObject());
            if (!r) { got.push_back({"no object", -1}); return; }
            auto *p = qobject_cast<vs::Res *>(el->returnValue());
            if (p != r) got.push_back({"other object than returnValue", -1});
            got.push_back({r->got(), int(r->seq())});
            if (doDisable) { doDisable = false; el->setEnabled(false); }
        });
        QObject::connect(el.get(), &QQuickGrpcStream::error, &ctx, [&](const QGrpcStatus &) { errors++; });
        QObject::connect(el.get(), &QQuickGrpcStream::enabledChanged, &ctx, [&] { enabledChanges++; if (el) toldEnabled = el->enabled(); });
        QObject::connect(el.get(), &QQuickGrpcStream::returnValueChanged, &ctx, [&] { if (el) toldReturn = el->returnValue(); });
        // model
        int c = 0, m = 0, a = 0;
        bool enabled = false, live = false, waiting = false;
        std::string d = "history";
        Bytes askNow[3] = {"", "a", "b"};
        Bytes liveAsk; int liveClient = 0, liveMethod = 0;
        bool clientAlive[4] = {false, true, true, true};
        auto renew = [&] { // something changed: the old subscription is cancelled and a new one started when possible
            live = waiting = false;
            if (!enabled || !c || !clientAlive[c] || !m || !a) return;
            if (m >= 3 || a == 3) { wantErrors++; enabled = false; return; }
            if (c == 3) { wantErrors++; enabled = false; return; }
            live = true; requests++; liveAsk = askNow[a]; liveClient = c; liveMethod = m;
        };
        auto *v = VDispatcher::self();
        // start: every combination of inputs is reachable; begin from a configured element half of the time
        int start = CORE.choose(3);
        if (start) {
            c = 1; m = 1; a = 1;
            el->setClient(cl[1].get()); el->setMethod(methods[1]); el->setArgument(arg[1].get());
            d += " configured";
            if (start == 2) { enabled = true; d += "+enabled"; renew(); el->setEnabled(true); }
        }
        vDrain();
        for (int k = 0; k < depth && !CORE.failed && el; k++) {
            std::vector<int> mv;
            for (int i = 0; i < 4; i++) if (i != c && (i == 0 || clientAlive[i])) mv.push_back(i);
            for (int i = 0; i < 5; i++) if (i != m) mv.push_back(10 + i);
            for (int i = 0; i < 4; i++) if (i != a && (!i || arg[i])) mv.push_back(20 + i);
            mv.push_back(30);
            if (live && !waiting) { mv.push_back(40); mv.push_back(41); mv.push_back(42); }
            if (waiting) mv.push_back(43);
            if (c && clientAlive[c] && c != 3) mv.push_back(44);
            mv.push_back(45);
            if (a && a != 3) { mv.push_back(46); mv.push_back(47); }
            if (live && !disableInMessage) mv.push_back(48);
            if (mv.size() > 32) { fprintf(stderr, "too many moves\n"); _exit(3); }
            int x = mv[size_t(CORE.choose(int(mv.size())))];
            auto open = [&]() -> std::shared_ptr<Sub> { for (auto &s : log.subs) if (s->open) return s; return nullptr; };
            auto say = [&](const std::string &t) { d += " " + t; CORE.desc = d; };
            if (x < 10) { say(clients[x]); c = x; renew(); el->setClient(x ? cl[x].get() : nullptr); }
            else if (x < 20) { say(std::string("method '") + methods[x - 10] + "'"); m = x - 10; renew(); el->setMethod(methods[x - 10]); }
            else if (x < 30) { say(arguments[x - 20]); a = x - 20; renew(); el->setArgument(a ? arg[a].get() : nullptr); }
            else if (x == 30) { say(enabled ? "disable" : "enable"); enabled = !enabled; bool e = enabled; renew(); el->setEnabled(e); }
            else if (x == 40) {
                seq++;
                say("message");
                want.push_back({Bytes(1, char('a' + seq % 20)), seq});
                if (disableInMessage) { disableInMessage = false; enabled = false; live = false; }
                if (auto s = open()) s->stream->handler(enc(seq));
            } else if (x == 41) { say("error"); wantErrors++; waiting = true; if (auto s = open()) emit s->stream->error({QGrpcStatus::Internal, QStringLiteral("x")}); }
            else if (x == 42) { say("stream-end"); live = waiting = false; enabled = false; if (auto s = open()) emit s->stream->finished(); }
            else if (x == 43) { say("retry-delay"); waiting = false; requests++; qint64 t = v->now + 1000; while (v->nextDue() >= 0 && v->nextDue() <= t) { v->fire(); vDrain(); } }
            else if (x == 44) { say("destroy-client"); clientAlive[c] = false; live = waiting = false; cl[c].reset(); c = 0; }
            else if (x == 45) { say("destroy-element"); live = waiting = false; el.reset(); }
            else if (x == 46) { say("destroy-argument"); arg[a].reset(); a = 0; } // a running subscription has its own copy
            else if (x == 47) { say("modify-argument"); askNow[a] += "+"; static_cast<vs::Req *>(arg[a].get())->setAsk(askNow[a]); }
            else if (x == 48) { say("(disable in next message)"); disableInMessage = doDisable = true; }
            if (disableInMessage && !live) { disableInMessage = doDisable = false; }
            vDrain();
            CORE.count("steps");
            auto bad = [&](const std::string &t) { CORE.fail(d + ": " + t); };
            int n = 0;
            for (auto &s : log.subs) if (s->open) {
                n++;
                if (live && (s->channel != liveClient || s->method != QLatin1String(methods[liveMethod]) || s->arg != encReq(liveAsk))) bad("subscribed to " + s->method.toStdString() + " on client " + std::to_string(s->channel));
            }
            if (n != (live && !waiting ? 1 : 0)) { bad(std::to_string(n) + " live subscriptions instead of " + (live && !waiting ? "1" : "0")); return; }
            if (int(log.subs.size()) != requests) { bad(std::to_string(log.subs.size()) + " subscriptions made instead of " + std::to_string(requests)); return; }
            if (got != want) { bad("messages delivered: " + std::to_string(got.size()) + " instead of " + std::to_string(want.size()) + (got.empty() ? "" : ", last " + got.back().first.toStdString())); return; }
            if (errors < wantErrors || errors > wantErrors + (x == 30 || x < 30 ? 0 : 0)) { bad("errors reported: " + std::to_string(errors) + " instead of " + std::to_string(wantErrors)); return; }
            if (el && el->enabled() != enabled) { bad(std::string("element is ") + (el->enabled() ? "enabled" : "disabled")); return; }
            if (el && (toldEnabled != el->enabled() || toldReturn != el->returnValue())) { bad("change of enabled or returnValue is not notified"); return; }
            if (el && live && !el->returnValue()) { bad("no return value while subscribed"); return; }
            CORE.state(std::to_string(c) + std::to_string(m) + std::to_string(a) + std::to_string(enabled) + std::to_string(live) + std::to_string(waiting) + std::to_string(!el) + std::to_string(clientAlive[1]) + std::to_string(clientAlive[2]));
        }
        if (CORE.failed) return;
        // later nothing is left behind
        el.reset();
        vDrain();
        size_t nSubs = log.subs.size();
        if (log.openCount()) CORE.fail(d + ": subscription left behind by the destroyed element");
        for (int i = 0; i < 50 && v->nextDue() >= 0; i++) { v->fire(); vDrain(); }
        if (log.subs.size() != nSubs) CORE.fail(d + ": subscribed again after the element was destroyed");
        for (auto &x : cl) x.reset();
        vDrain();
        for (auto &x : ch) x.reset();
        vReset();
        CORE.sample(d);
        CORE.outcome(std::to_string(got.size()) + "/" + std::to_string(errors) + "/" + std::to_string(requests));
        if (requests) CORE.count("nontrivial");
    });
}
// ---- what remains (P26) ---------------------------------------------------------------------------------------------------
// Calls and stream elements of QML, round after round on one client: what is alive after garbage collection does not grow
long aliveObjects = 0;
void addObject(QObject *) { aliveObjects++; }
void removeObject(QObject *) { aliveObjects--; }
void remains()
{
    static const char *kinds[] = {"QML call with callback", "QML call with callback that fails", "aborted QML call with callback", "QML call into an object", "QML call into an object that fails", "QML call into an object that dies",
                                  "element enabled and disabled", "element whose stream ends", "element destroyed while subscribed", "element whose stream fails and recovers", "element that is reconfigured", "element whose client has no channel"};
    const int kindN = int(sizeof kinds / sizeof *kinds);
    qRegisterProtobufTypes();
    QQmlEngine engine;
    qtHookData[3] = quintptr(&addObject);    // QHooks::AddQObject
    qtHookData[4] = quintptr(&removeObject); // QHooks::RemoveQObject
    auto *v = VDispatcher::self();
    const int rounds = 6, warm = 3, depth = CORE.thorough() ? 3 : 2;
    int total = 0;
    for (int n = 1, c = kindN; n <= depth; n++, c *= kindN) total += c;
    for (int c = 0; c < total; c++) {
        if (!CORE.want()) continue;
        std::vector<int> ks;
        for (int x = c, m = kindN; ; x -= m, m *= kindN) if (x < m) { for (; m > 1; m /= kindN) { ks.push_back(x % kindN); x /= kindN; } break; }
        std::string d;
        for (int k : ks) d += (d.empty() ? "" : ", then ") + std::string(kinds[k]);
        CORE.desc = d; CORE.sample(d); CORE.state(d);
        if (ks.size() > 1) CORE.count("nontrivial");
        ChannelLog log;
        auto ch = std::make_shared<FakeChannel>(&log, 1);
        auto cl = std::make_unique<vs::AlphaClient>();
        auto none = std::make_unique<vs::AlphaClient>();
        cl->attachChannel(ch);
        QQmlEngine::setObjectOwnership(cl.get(), QQmlEngine::CppOwnership);
        { QJSValue w = engine.newQObject(cl.get()); }
        QJSValue f = engine.evaluate("(function(r) { if (r.got === undefined) throw 1; })"), ef = engine.evaluate("(function(s) { })");
        vs::Req a, b;
        a.setAsk("a"); b.setAsk("b");
        QQmlEngine::setObjectOwnership(&a, QQmlEngine::CppOwnership);
        QQmlEngine::setObjectOwnership(&b, QQmlEngine::CppOwnership);
        auto settle = [&] { for (int i = 0; i < 3; i++) { vDrain(); engine.collectGarbage(); } vDrain(); };
        long seen[6];
        for (int r = 0; r < rounds && !CORE.failed; r++) {
            for (int k : ks) {
                CORE.count("transitions");
                if (k < 6) {
                    auto o = std::make_unique<vs::Res>();
                    QQmlEngine::setObjectOwnership(o.get(), QQmlEngine::CppOwnership);
                    if (k < 3) cl->echo(&a, f, ef); else cl->echo(&a, o.get(), ef);
                    auto reply = log.calls.back().reply;
                    if (!reply) { CORE.fail(d + ": the reply is gone before the answer"); break; }
                    if (k == 5) o.reset();
                    if (k == 2) reply->abort();
                    else if (k == 1 || k == 4) emit reply->error({QGrpcStatus::NotFound, QStringLiteral("x")});
                    else { reply->setData(enc(3)); emit reply->finished(); }
                    settle();
                } else {
                    auto el = std::make_unique<QQuickGrpcStream>();
                    QQmlEngine::setContextForObject(el.get(), engine.rootContext());
                    QQmlEngine::setObjectOwnership(el.get(), QQmlEngine::CppOwnership);
                    { QJSValue w = engine.newQObject(el.get()); }
                    el->setClient(k == 11 ? none.get() : cl.get());
                    el->setMethod("watch");
                    el->setArgument(&a);
                    el->setEnabled(true);
                    vDrain();
                    auto last = [&]() -> QGrpcStream * { return log.subs.empty() ? nullptr : log.subs.back()->stream.data(); };
                    if (k != 11 && !last()) { CORE.fail(d + ": no subscription"); break; }
                    if (k != 11) last()->handler(enc(1));
                    vDrain();
                    if (k == 6) el->setEnabled(false);
                    if (k == 7) emit last()->finished();
                    if (k == 9) { emit last()->error({QGrpcStatus::Internal, QStringLiteral("x")}); vDrain(); while (v->nextDue() >= 0 && v->nextDue() <= v->now + 1000) { v->fire(); vDrain(); } if (last()) last()->handler(enc(2)); }
                    if (k == 10) { el->setArgument(&b); vDrain(); if (last()) last()->handler(enc(2)); el->setMethod("follow"); vDrain(); if (last()) last()->handler(enc(4)); }
                    vDrain();
                    el.reset();
                    settle();
                }
                log.calls.clear();
                log.subs.clear();
            }
            if (CORE.failed) break;
            auto calls = cl->findChildren<QGrpcCallReply *>().size();
            auto streams = cl->findChildren<QGrpcStream *>().size();
            if (calls || streams) CORE.fail(d + ": " + std::to_string(calls) + " call and " + std::to_string(streams) + " stream objects remain");
            seen[r] = aliveObjects;
        }
        if (!CORE.failed && seen[rounds - 1] - seen[warm - 1] >= rounds - warm) CORE.fail(d + ": " + std::to_string(seen[rounds - 1] - seen[warm - 1]) + " objects remain of " + std::to_string(rounds - warm) + " rounds");
        cl.reset();
        ch.reset();
        vReset();
        if (CORE.failed) return;
    }
}
}
int main(int argc, char **argv)
{
    CORE.init(argc, argv);
    vApp(argc, argv);
    if (CORE.mode == "P18") p18();
    else if (CORE.mode == "P26qml") remains();
    else { fprintf(stderr, "unknown mode\n"); return 3; }
    return CORE.finish();
}
