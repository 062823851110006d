// Native channel explorer: the real gRPC channel (worker threads included) against a scripted gRPC server in this process.
// The server answers only when the explorer says so; the application thread handles events only when the explorer says so;
// worker threads may be held back before their first instruction. Expectations depend on the order of those moves alone.
#include "evkit.h"
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <dlfcn.h>
#include <mutex>
#include <pthread.h>
#include <grpcpp/grpcpp.h>
#include <grpcpp/generic/async_generic_service.h>
#include "qgrpcchannel.h"
#include "qgrpccallreply.h"
#include "qgrpcstream.h"
#include "qgrpcstatus.h"
#include "svc.qpb.h"
#include "svc_grpc.qpb.h"
using namespace QtProtobuf;
extern Q_CORE_EXPORT quintptr qtHookData[];
namespace {
using Bytes = QByteArray;
using std::chrono::milliseconds;
// ---- worker threads -------------------------------------------------------------------------------------------------
std::mutex gateLock;
std::condition_variable gateCv;
bool gateHold = false;      // threads created by the application thread wait
uint64_t gateEpoch = 0;     // incremented on release
int gateHeld = 0;
pthread_t mainThread;
struct Start { void *(*fn)(void *); void *arg; bool gated; };
void *gatedStart(void *p)
{
    std::unique_ptr<Start> s(static_cast<Start *>(p));
    if (s->gated) {
        std::unique_lock<std::mutex> l(gateLock);
        uint64_t e = gateEpoch;
        gateCv.wait(l, [&] { return gateEpoch != e || !gateHold; });
        gateHeld--;
    }
    return s->fn(s->arg);
}
void gateRelease()
{
    std::lock_guard<std::mutex> l(gateLock);
    gateHold = false;
    gateEpoch++;
    gateCv.notify_all();
}
template <class F> F next(const char *sym)
{
    F f = reinterpret_cast<F>(dlsym(RTLD_NEXT, sym));
    if (!f) { fprintf(stderr, "no %s\n", sym); _exit(3); }
    return f;
}
}
extern "C" __attribute__((visibility("default"))) int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*fn)(void *), void *arg)
{
    static auto real = next<int (*)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *)>("pthread_create");
    bool g = false;
    {
        std::lock_guard<std::mutex> l(gateLock);
        g = gateHold && pthread_equal(pthread_self(), mainThread);
        if (g) gateHeld++;
    }
    if (!g) return real(t, a, fn, arg);
    return real(t, a, gatedStart, new Start{fn, arg, true});
}
// the application thread waits for a worker: held workers run
extern "C" bool vWaitUl(void *self, unsigned long ms) __asm__("_ZN7QThread4waitEm");
extern "C" bool vWaitDl(void *self, QDeadlineTimer d) __asm__("_ZN7QThread4waitE14QDeadlineTimer");
extern "C" __attribute__((visibility("default"))) bool vWaitUl(void *self, unsigned long ms) { gateRelease(); return next<bool (*)(void *, unsigned long)>("_ZN7QThread4waitEm")(self, ms); }
extern "C" __attribute__((visibility("default"))) bool vWaitDl(void *self, QDeadlineTimer d) { gateRelease(); return next<bool (*)(void *, QDeadlineTimer)>("_ZN7QThread4waitE14QDeadlineTimer")(self, d); }
extern "C" __attribute__((visibility("default"))) int pthread_join(pthread_t t, void **r) { gateRelease(); return next<int (*)(pthread_t, void **)>("pthread_join")(t, r); }
namespace {
// ---- scripted server ----------------------------------------------------------------------------------------------------
std::mutex sl;
std::condition_variable sc;
uint64_t wakes = 0; // events posted to the application thread by others
const auto LONG = milliseconds(20000);
grpc::ByteBuffer toBuffer(const Bytes &b) { grpc::Slice s(b.constData(), size_t(b.size())); return grpc::ByteBuffer(&s, 1); }
struct ServerCall : grpc::ServerGenericBidiReactor {
    std::string method;
    Bytes request;
    grpc::ByteBuffer in, out;
    bool taken = false, got = false, writing = false, finishing = false, cancelled = false, done = false;
    explicit ServerCall(const std::string &m) : method(m) { StartRead(&in); }
    void OnReadDone(bool ok) override
    {
        std::vector<grpc::Slice> v;
        Bytes b;
        if (ok && in.Dump(&v).ok()) for (auto &s : v) b.append(reinterpret_cast<const char *>(s.begin()), int(s.size()));
        std::lock_guard<std::mutex> l(sl);
        request = b; got = true;
        sc.notify_all();
    }
    void OnWriteDone(bool) override { std::lock_guard<std::mutex> l(sl); writing = false; sc.notify_all(); }
    void OnCancel() override { std::lock_guard<std::mutex> l(sl); cancelled = true; sc.notify_all(); }
    void OnDone() override { std::lock_guard<std::mutex> l(sl); done = true; sc.notify_all(); }
    void send(const Bytes &b)
    {
        out = toBuffer(b);
        { std::lock_guard<std::mutex> l(sl); writing = true; }
        StartWrite(&out);
        std::unique_lock<std::mutex> l(sl);
        sc.wait_for(l, LONG, [&] { return !writing || cancelled; });
    }
    void end(const grpc::Status &s)
    {
        { std::unique_lock<std::mutex> l(sl); if (finishing) return; sc.wait_for(l, LONG, [&] { return !writing; }); finishing = true; }
        Finish(s);
        std::unique_lock<std::mutex> l(sl);
        if (!sc.wait_for(l, LONG, [&] { return done; })) { fprintf(stderr, "server call does not end\n"); _exit(3); }
    }
};
struct Server : grpc::CallbackGenericService {
    std::vector<std::unique_ptr<ServerCall>> calls;
    std::unique_ptr<grpc::Server> server;
    std::string dir, url;
    std::shared_ptr<grpc::Channel> keeper;
    grpc::ServerGenericBidiReactor *CreateReactor(grpc::GenericCallbackServerContext *ctx) override
    {
        auto c = std::make_unique<ServerCall>(ctx->method());
        auto *p = c.get();
        std::lock_guard<std::mutex> l(sl);
        calls.push_back(std::move(c));
        sc.notify_all();
        return p;
    }
    void start()
    {
        char t[] = "/tmp/vnative.XXXXXX";
        if (!mkdtemp(t)) _exit(3);
        dir = t;
        url = "unix:" + dir + "/s";
        grpc::ServerBuilder b;
        b.AddListeningPort(url, grpc::InsecureServerCredentials());
        b.RegisterCallbackGenericService(this);
        server = b.BuildAndStart();
        if (!server) { fprintf(stderr, "no server\n"); _exit(3); }
        keeper = grpc::CreateChannel(url, grpc::InsecureChannelCredentials());
        keeper->WaitForConnected(std::chrono::system_clock::now() + std::chrono::seconds(20));
    }
    // every history marks its requests: a request of an earlier one that its client gave up may arrive late
    int history = 0;
    Bytes tag(const Bytes &b) const { return b + '#' + Bytes::number(history); }
    Bytes untag(const ServerCall &c) const // the argument, empty when it belongs to another history
    {
        Bytes t = '#' + Bytes::number(history);
        return c.request.endsWith(t) && c.request.size() > 2 ? c.request.mid(2, c.request.size() - 2 - t.size()) : Bytes();
    }
    ServerCall *waitRequest(const QList<Bytes> &asks) // the next request of this history with one of the arguments
    {
        std::unique_lock<std::mutex> l(sl);
        ServerCall *r = nullptr;
        sc.wait_for(l, LONG, [&] {
            for (auto &c : calls) if (!r && !c->taken && c->got && asks.contains(untag(*c))) r = c.get();
            return r != nullptr;
        });
        if (r) r->taken = true;
        return r;
    }
    size_t count() { std::lock_guard<std::mutex> l(sl); size_t n = 0; for (auto &c : calls) if (c->got && !untag(*c).isEmpty()) n++; return n; }
    void clear()
    {
        std::vector<std::unique_ptr<ServerCall>> old;
        { std::lock_guard<std::mutex> l(sl); old.swap(calls); history++; }
        for (auto &c : old) c->end(grpc::Status(grpc::StatusCode::CANCELLED, "history over"));
    }
    void stop()
    {
        keeper.reset();
        server->Shutdown(std::chrono::system_clock::now());
        server.reset();
        unlink((dir + "/s").c_str());
        rmdir(dir.c_str());
    }
};
Server SRV;

vs::Req req(const Bytes &b) { vs::Req r; r.setAsk(SRV.tag(b)); return r; }
Bytes varint(quint64 v) { Bytes b; do { char c = char(v & 0x7f); v >>= 7; if (v) c = char(c | 0x80); b += c; } while (v); return b; }
Bytes enc(const Bytes &got, int seq)
{
    Bytes b;
    if (!got.isEmpty()) { b += char(0x0a); b += varint(quint64(got.size())); b += got; }
    if (seq) { b += char(0x10); b += varint(quint64(seq)); }
    return b;
}
Bytes encReq(const Bytes &ask) { return enc(SRV.tag(ask), 0); }
std::string show(const vs::Res &r) { return "m" + std::to_string(int(r.seq())) + "/" + std::to_string(r.got().size()) + "." + std::to_string(Core::hash(r.got().toStdString()) % 1000); }
std::string showSent(const Bytes &got, int seq) { return "m" + std::to_string(seq) + "/" + std::to_string(got.size()) + "." + std::to_string(Core::hash(got.toStdString()) % 1000); }
std::string showStatus(int code, const QString &m) { return "E" + std::to_string(code) + ":" + m.toStdString(); }
std::string join(const std::vector<std::string> &v) { std::string s; for (auto &x : v) s += x + " "; return s; }
uint64_t wakeCount() { std::lock_guard<std::mutex> l(sl); return wakes; }
// gives the worker the time to hand over what it received; nothing depends on it having done so
void settle(uint64_t before)
{
    { std::lock_guard<std::mutex> g(gateLock); if (gateHeld) return; }
    std::unique_lock<std::mutex> l(sl);
    sc.wait_for(l, milliseconds(300), [&] { return wakes > before; });
}
// handles events until the condition holds
bool deliver(const std::function<bool()> &ok)
{
    auto end = std::chrono::steady_clock::now() + LONG;
    for (;;) {
        uint64_t w = wakeCount();
        vDrain();
        if (CORE.failed) return false;
        if (ok()) return true;
        std::unique_lock<std::mutex> l(sl);
        if (std::chrono::steady_clock::now() > end) return false;
        sc.wait_for(l, milliseconds(200), [&] { return wakes > w; });
    }
}
std::shared_ptr<QGrpcChannel> channelTo(const std::string &url) { return std::make_shared<QGrpcChannel>(QUrl(QString::fromStdString(url)), grpc::InsecureChannelCredentials()); }
grpc::Status status(int code, const std::string &m) { return code ? grpc::Status(grpc::StatusCode(code), m) : grpc::Status::OK; }
Bytes big(int n, int seed) { Bytes b(n, '\0'); for (int i = 0; i < n; i++) b[i] = char((i * 7 + seed + i / 251) & 0xff); return b; }
void endHistory(std::unique_ptr<vs::AlphaClient> &cl)
{
    gateRelease();
    cl.reset();
    vDrain();
    SRV.clear();
    vReset();
    while (!VDispatcher::self()->timers.isEmpty()) VDispatcher::self()->timers.removeLast();
}

// ---- streams -----------------------------------------------------------------------------------------------------------
void streams()
{
    bool th = CORE.thorough();
    int maxDepth = th ? 7 : 6;
    CORE.paths(5, 3, [&] {
        auto cl = std::make_unique<vs::AlphaClient>();
        cl->attachChannel(channelTo(SRV.url));
        auto *v = VDispatcher::self();
        QObject ctx;
        enum St { None, Open, Waiting, Ended };
        int depth = maxDepth;
        struct S {
            St st = None;
            std::vector<std::string> seen, want;
            std::vector<std::pair<std::string, St>> pipe; // sent by the server, not yet handled
            ServerCall *call = nullptr;
            QGrpcStreamShared held;
            QPointer<QGrpcStream> obj;
            qint64 retry = 0;
            bool cancelNext = false, closed = false; // closed: the server ended it
        } s[2];
        std::vector<std::string> errs, wantErrs;
        QObject::connect(cl.get(), &QAbstractGrpcClient::error, &ctx, [&](const QGrpcStatus &x) { errs.push_back(showStatus(x.code(), x.message())); });
        std::string d = "history";
        size_t requests = 0;
        int seq = 0, specials = 0, errorsSent = 0, subs = 0;
        auto wentOut = [&](int k) {
            s[k].call = SRV.waitRequest({k ? "b" : "a"});
            if (!s[k].call) { CORE.fail(d + ": the request does not reach the server"); return; }
            requests++;
            if (s[k].call->method != (k ? "/vs.Alpha/follow" : "/vs.Alpha/watch") || s[k].call->request != encReq(k ? "b" : "a")) CORE.fail(d + ": wrong request " + s[k].call->method);
            s[k].closed = false;
            s[k].st = Open;
        };
        for (int i = 0; i < depth && !CORE.failed; i++) {
            std::vector<int> mv;
            bool pending = false;
            if (cl) {
                for (int k = 0; k < 2; k++) {
                    S &x = s[k];
                    if (x.st == None && (k == 0 || s[0].st != None)) mv.push_back(k);
                    if (x.st == None && k == 0) mv.push_back(90);
                    if (x.st == Ended && x.call && subs < 3) mv.push_back(k);
                    if (x.st == Open && !x.closed) { mv.push_back(10 + k); if (specials < 2) { mv.push_back(20 + k); mv.push_back(30 + k); } mv.push_back(40 + k); if (errorsSent < 2) mv.push_back(50 + k); }
                    if (x.st == Open || x.st == Waiting) { if (x.held) { mv.push_back(60 + k); if (!x.cancelNext) mv.push_back(70 + k); if (k == 0) mv.push_back(80 + k); } }
                    pending |= !x.pipe.empty();
                }
                if (s[0].st == Waiting || s[1].st == Waiting) mv.push_back(2);
                if (subs) mv.push_back(4);
            }
            if (pending) mv.push_back(3);
            if (mv.empty()) break;
            int a = mv[size_t(CORE.choose(int(mv.size())))];
            bool hold = a == 90;
            if (hold) { a = 0; depth = maxDepth - 1; }
            int k = a % 10;
            uint64_t w = wakeCount();
            auto sent = [&](const Bytes &got, int n) {
                s[k].call->send(enc(got, n));
                s[k].pipe.push_back({showSent(got, n), Open});
                settle(w);
            };
            switch (a / 10 * 10) {
            case 0:
                if (a < 2) {
                    d += k ? " subscribe-follow" : " subscribe-watch"; if (hold) d += "(worker held)"; CORE.desc = d; subs++;
                    if (hold) { std::lock_guard<std::mutex> l(gateLock); gateHold = true; }
                    else gateRelease();
                    auto p = k ? cl->streamFollow(req("b")) : cl->streamWatch(req("a"));
                    if (!p) { CORE.fail(d + ": no subscription"); break; }
                    s[k].held = p; s[k].obj = p.get();
                    s[k].seen.clear(); s[k].want.clear(); s[k].cancelNext = false;
                    S *x = &s[k];
                    QGrpcStream *raw = p.get();
                    QObject::connect(raw, &QGrpcStream::messageReceived, &ctx, [x, raw] {
                        x->seen.push_back(show(raw->read<vs::Res>()));
                        if (x->cancelNext) { x->cancelNext = false; raw->abort(); }
                    });
                    QObject::connect(raw, &QGrpcStream::finished, &ctx, [x] { x->seen.push_back("F"); });
                    QObject::connect(raw, &QGrpcStream::error, &ctx, [x](const QGrpcStatus &e) { x->seen.push_back(showStatus(e.code(), e.message())); });
                    wentOut(k);
                } else if (a == 2) {
                    d += " retry-delay"; CORE.desc = d;
                    qint64 t = -1;
                    for (auto &x : s) if (x.st == Waiting && (t < 0 || x.retry < t)) t = x.retry;
                    while (v->nextDue() >= 0 && v->nextDue() <= t) v->fire();
                    int due = 0;
                    for (auto &x : s) if (x.st == Waiting && x.retry <= t) due++;
                    for (int j = 0; j < 2 && due && !CORE.failed; j++) if (s[j].st == Waiting && s[j].retry <= t) wentOut(j);
                } else if (a == 3) {
                    d += " handle-events"; CORE.desc = d;
                    gateRelease();
                    for (int j = 0; j < 2; j++) {
                        S &x = s[j];
                        for (auto &p : x.pipe) {
                            x.want.push_back(p.first);
                            if (p.second == Open && x.cancelNext) { x.want.push_back("F"); x.st = Ended; break; }
                            if (p.second == Waiting) { x.st = Waiting; x.retry = v->now + 1000; wantErrs.push_back(p.first); }
                            if (p.second == Ended) x.st = Ended;
                        }
                        x.pipe.clear();
                    }
                    deliver([&] { return s[0].seen.size() >= s[0].want.size() && s[1].seen.size() >= s[1].want.size(); });
                } else {
                    d += " destroy-client"; CORE.desc = d;
                    cl.reset();
                    for (auto &x : s) { x.pipe.clear(); x.st = Ended; }
                }
                break;
            case 10: d += " message" + std::to_string(k); CORE.desc = d; seq++; sent("x", seq); break;
            case 20: d += " empty-message" + std::to_string(k); CORE.desc = d; specials++; sent("", 0); break;
            case 30: d += " large-message" + std::to_string(k); CORE.desc = d; seq++; specials++; sent(big(200000, seq), seq); break;
            case 40:
                d += " close" + std::to_string(k); CORE.desc = d;
                s[k].call->end(grpc::Status::OK); s[k].closed = true;
                s[k].pipe.push_back({"F", Ended});
                settle(w);
                break;
            case 50: {
                int code = errorsSent ? 14 : 10; // ABORTED is what a local abort reports too
                d += " fail" + std::to_string(k); CORE.desc = d; errorsSent++;
                s[k].call->end(status(code, "why " + std::to_string(k))); s[k].closed = true;
                s[k].pipe.push_back({showStatus(code, QString("why %1").arg(k)), Waiting});
                settle(w);
                break;
            }
            case 60:
                d += " cancel" + std::to_string(k); CORE.desc = d;
                s[k].held->abort();
                s[k].want.push_back("F"); s[k].pipe.clear(); s[k].st = Ended;
                break;
            case 70: d += " (cancel in next message handler " + std::to_string(k) + ")"; s[k].cancelNext = true; break;
            case 80: d += " drop-pointer" + std::to_string(k); CORE.desc = d; s[k].held.reset(); break;
            }
            if (CORE.failed) break;
            if (a / 10 == 6 || a == 4) { for (auto &x : s) if (!x.pipe.empty() && cl) { // events of the other stream were handled too
                    for (auto &p : x.pipe) {
                        x.want.push_back(p.first);
                        if (p.second == Open && x.cancelNext) { x.want.push_back("F"); x.st = Ended; break; }
                        if (p.second == Waiting) { x.st = Waiting; x.retry = v->now + 1000; wantErrs.push_back(p.first); }
                        if (p.second == Ended) x.st = Ended;
                    }
                    x.pipe.clear();
                }
                if (a != 4) gateRelease();
                deliver([&] { return s[0].seen.size() >= s[0].want.size() && s[1].seen.size() >= s[1].want.size(); });
            }
            CORE.count("steps");
            std::string st;
            for (int j = 0; j < 2; j++) {
                if (s[j].seen != s[j].want) { CORE.fail(d + ": stream " + std::to_string(j) + " notified [" + join(s[j].seen) + "] instead of [" + join(s[j].want) + "]"); break; }
                st += std::to_string(s[j].st) + std::to_string(s[j].pipe.size()) + std::to_string(s[j].closed) + std::to_string(s[j].cancelNext) + (s[j].held ? "h" : "-");
            }
            auto e1 = errs, e2 = wantErrs;
            std::sort(e1.begin(), e1.end()); std::sort(e2.begin(), e2.end());
            if (e1 != e2) CORE.fail(d + ": client reported [" + join(errs) + "] instead of [" + join(wantErrs) + "]");
            if (SRV.count() != requests) CORE.fail(d + ": unexpected request");
            CORE.state(st);
        }
        if (!CORE.failed) {
            CORE.sample(d);
            if (seq || errorsSent) CORE.count("nontrivial");
            CORE.outcome(join(s[0].seen) + "|" + join(s[1].seen));
        }
        // whatever is still under way may no longer reach the application after its client is gone
        auto s0 = s[0].seen.size(), s1 = s[1].seen.size();
        endHistory(cl);
        if (!CORE.failed && (s[0].seen.size() != s0 || s[1].seen.size() != s1)) CORE.fail(d + " end: notified after the client was destroyed");
    });
}
// ---- unary calls ---------------------------------------------------------------------------------------------------------
void calls()
{
    bool th = CORE.thorough();
    int depth = th ? 7 : 6;
    CORE.paths(5, 3, [&] {
        auto cl = std::make_unique<vs::AlphaClient>();
        cl->attachChannel(channelTo(SRV.url));
        auto *v = VDispatcher::self();
        QObject ctx;
        struct C {
            ServerCall *call = nullptr;
            bool held = false, out = false, answered = false, over = false;
            std::vector<std::string> seen, want, pipe;
            QGrpcCallReplyShared reply;
            Bytes ask;
        } c[2];
        int n = 0;
        std::vector<std::string> errs, wantErrs;
        QObject::connect(cl.get(), &QAbstractGrpcClient::error, &ctx, [&](const QGrpcStatus &x) { errs.push_back(showStatus(x.code(), x.message())); });
        std::string d = "history";
        int blocking = 0, drops = 0;
        auto collect = [&] { // requests that reach the server
            for (int j = 0; j < n && !CORE.failed; j++) if (!c[j].out && !c[j].over) {
                c[j].call = SRV.waitRequest({c[j].ask});
                if (!c[j].call) { CORE.fail(d + ": the request does not reach the server"); return; }
                c[j].out = true;
                if (c[j].call->method != "/vs.Alpha/echo" || c[j].call->request != encReq(c[j].ask)) CORE.fail(d + ": wrong request " + c[j].call->method);
            }
        };
        auto expectDelivered = [&] {
            for (auto &x : c) { for (auto &p : x.pipe) { x.want.push_back(p); if (p[0] == 'E') wantErrs.push_back(p); x.over = true; x.reply.reset(); } x.pipe.clear(); }
        };
        for (int i = 0; i < depth && !CORE.failed; i++) {
            std::vector<int> mv;
            bool pending = false, heldBack = false;
            for (int j = 0; j < n; j++) { pending |= !c[j].pipe.empty(); heldBack |= !c[j].out && !c[j].over; }
            if (cl) {
                if (n < 2) { mv.push_back(0); mv.push_back(1); }
                if (heldBack) mv.push_back(2);
                for (int j = 0; j < n; j++) {
                    if (c[j].out && !c[j].answered && !c[j].over) { mv.push_back(10 + j); mv.push_back(20 + j); mv.push_back(30 + j); }
                    if (!c[j].over && c[j].reply) { mv.push_back(40 + j); if (drops < 1) mv.push_back(50 + j); }
                }
                if (blocking < 1 && !heldBack) { mv.push_back(5); mv.push_back(6); mv.push_back(7); }
                if (n) mv.push_back(4);
            }
            if (pending) mv.push_back(3);
            if (mv.empty()) break;
            int a = mv[size_t(CORE.choose(int(mv.size())))];
            int k = a % 10;
            uint64_t w = wakeCount();
            auto answer = [&](const Bytes &got, int seq) {
                c[k].call->send(enc(got, seq));
                c[k].call->end(grpc::Status::OK);
                c[k].answered = true;
                c[k].pipe.push_back(showSent(got, seq));
                settle(w);
            };
            bool drained = false;
            if (a == 0 || a == 1) {
                d += a ? " call(worker held)" : " call"; CORE.desc = d;
                C *x = &c[n];
                x->ask = Bytes("call") + char('0' + n);
                if (a) { std::lock_guard<std::mutex> l(gateLock); gateHold = true; }
                auto p = cl->echo(req(x->ask));
                if (!p) { CORE.fail(d + ": no reply object"); break; }
                x->reply = p; n++;
                QGrpcCallReply *raw = p.get();
                QObject::connect(raw, &QGrpcCallReply::finished, &ctx, [x, raw] { x->seen.push_back(show(raw->read<vs::Res>())); });
                QObject::connect(raw, &QGrpcCallReply::error, &ctx, [x](const QGrpcStatus &e) { x->seen.push_back(showStatus(e.code(), e.message())); });
                if (!a) { gateRelease(); collect(); }
            } else if (a == 2) { d += " workers-run"; CORE.desc = d; gateRelease(); collect(); }
            else if (a == 3) { d += " handle-events"; CORE.desc = d; drained = true; }
            else if (a == 4) {
                d += " destroy-client"; CORE.desc = d;
                cl.reset();
                for (auto &x : c) { x.pipe.clear(); x.over = true; }
            } else if (a < 8) {
                d += a == 5 ? " blocking-call(answered)" : a == 6 ? " blocking-call(failed)" : " blocking-call(others answered first)"; CORE.desc = d;
                blocking++;
                int stage = 0;
                v->idle = [&] {
                    if (stage == 0) {
                        stage = 1;
                        ServerCall *x = SRV.waitRequest({"block"});
                        if (!x) { CORE.fail(d + ": the request does not reach the server"); gateRelease(); _exit(3); }
                        if (x->request != encReq("block")) CORE.fail(d + ": wrong request");
                        if (a == 7) for (int j = 0; j < n; j++) if (c[j].out && !c[j].answered && !c[j].over) {
                            c[j].call->send(enc("o", 70 + j)); c[j].call->end(grpc::Status::OK); c[j].answered = true; c[j].pipe.push_back(showSent("o", 70 + j));
                        }
                        if (a != 6) { x->send(enc("blk", 9)); x->end(grpc::Status::OK); }
                        else x->end(status(5, "gone"));
                    }
                    std::unique_lock<std::mutex> l(sl);
                    if (!sc.wait_for(l, LONG, [&] { return wakes > w; })) { fprintf(stderr, "blocking call gets no answer\n"); abort(); }
                    w = wakes;
                };
                vs::Res r;
                r.setSeq(33);
                QGrpcStatus st = cl->echo(req("block"), QPointer<vs::Res>(&r));
                v->idle = nullptr;
                if (a == 6) {
                    wantErrs.push_back("E5:gone");
                    if (st.code() != 5 || st.message() != "gone") CORE.fail(d + ": blocking call returns " + showStatus(st.code(), st.message()));
                } else if (st.code() != 0 || show(r) != showSent("blk", 9)) CORE.fail(d + ": blocking call returns " + showStatus(st.code(), st.message()) + " " + show(r));
                drained = true; // events are handled while it waits
            } else if (a < 20) { d += " answer" + std::to_string(k); CORE.desc = d; answer("y", 10 + k); }
            else if (a < 30) { d += " answer-large" + std::to_string(k); CORE.desc = d; answer(big(150000, k), 20 + k); }
            else if (a < 40) {
                int code = k ? 16 : 10;
                d += " fail" + std::to_string(k); CORE.desc = d;
                c[k].call->end(status(code, "no"));
                c[k].answered = true;
                c[k].pipe.push_back(showStatus(code, "no"));
                settle(w);
            } else if (a < 50) {
                d += " abort" + std::to_string(k); CORE.desc = d;
                auto keep = c[k].reply;
                keep->abort();
                if (c[k].seen.size() != 1 || c[k].seen[0].compare(0, 4, "E10:")) { CORE.fail(d + ": abort reported [" + join(c[k].seen) + "]"); break; }
                c[k].want = c[k].seen;
                wantErrs.push_back(c[k].seen[0]);
                c[k].pipe.clear(); c[k].over = true; c[k].reply.reset();
                drained = true;
            } else { d += " drop-pointer" + std::to_string(k); CORE.desc = d; drops++; c[k].reply.reset(); }
            if (CORE.failed) break;
            if (drained) {
                expectDelivered();
                deliver([&] { return c[0].seen.size() >= c[0].want.size() && c[1].seen.size() >= c[1].want.size(); });
            }
            CORE.count("steps");
            std::string st;
            for (int j = 0; j < 2; j++) {
                if (c[j].seen != c[j].want) { CORE.fail(d + ": call " + std::to_string(j) + " notified [" + join(c[j].seen) + "] instead of [" + join(c[j].want) + "]"); break; }
                st += std::to_string(c[j].out) + std::to_string(c[j].answered) + std::to_string(c[j].over) + std::to_string(c[j].pipe.size()) + (c[j].reply ? "h" : "-");
            }
            auto e1 = errs, e2 = wantErrs;
            std::sort(e1.begin(), e1.end()); std::sort(e2.begin(), e2.end());
            if (e1 != e2) CORE.fail(d + ": client reported [" + join(errs) + "] instead of [" + join(wantErrs) + "]");
            CORE.state(st + std::to_string(n) + (cl ? "c" : "-"));
        }
        if (!CORE.failed) { CORE.sample(d); CORE.count("nontrivial"); CORE.outcome(join(c[0].seen) + "|" + join(c[1].seen)); }
        auto s0 = c[0].seen.size(), s1 = c[1].seen.size();
        endHistory(cl);
        for (auto &x : c) x.reply.reset();
        vDrain();
        if (!CORE.failed && (c[0].seen.size() != s0 || c[1].seen.size() != s1)) CORE.fail(d + " end: notified after the client was destroyed");
    });
}
// ---- every status, message text and payload size ------------------------------------------------------------------------------
void outcomes()
{
    auto *v = VDispatcher::self();
    std::vector<std::string> texts = {"", "text", "\xc3\xbcn\xc3\xaf \xe2\x82\xac %41 \"q\"\\ \xf0\x9f\x98\x80", std::string(1000, 'z')};
    std::vector<int> sizes = {0, 1, 2, 127, 128, 16383, 16384, 16385, 65535, 65536, 1000000};
    if (CORE.thorough()) for (int n = 3; n < 600; n++) sizes.push_back(n);
    // kind 0 blocking, 1 asynchronous, 2 stream
    struct Case { int kind, code, text, size, before; bool nobody; };
    std::vector<Case> cases;
    for (int kind = 0; kind < 3; kind++) {
        for (int code = 1; code <= 16; code++) for (int t = 0; t < int(texts.size()); t++) for (int b = 0; b < 2; b++) cases.push_back({kind, code, t, 0, b, false});
        for (int n : sizes) for (int b = 0; b < (kind == 2 ? 3 : 1); b++) cases.push_back({kind, 0, 0, n, b, false});
        for (int i = 0; i < 2; i++) cases.push_back({kind, 14, -1, 0, 0, true});
    }
    for (auto &k : cases) {
        if (!CORE.want()) continue;
        std::string d = std::string(k.kind == 0 ? "blocking call" : k.kind == 1 ? "asynchronous call" : "stream") + (k.nobody ? ", no server" : ", status " + std::to_string(k.code) + ", text " + std::to_string(k.text) + ", size " + std::to_string(k.size) + ", messages before " + std::to_string(k.before));
        CORE.desc = d;
        auto cl = std::make_unique<vs::AlphaClient>();
        cl->attachChannel(channelTo(k.nobody ? SRV.url + "nobody" : SRV.url));
        std::vector<std::string> seen, want, errs;
        QObject ctx;
        QObject::connect(cl.get(), &QAbstractGrpcClient::error, &ctx, [&](const QGrpcStatus &x) { errs.push_back(showStatus(x.code(), x.message())); });
        Bytes payload = big(k.size, 5);
        std::string err = k.nobody ? "" : showStatus(k.code, QString::fromStdString(texts[size_t(k.text)]));
        auto serve = [&] {
            if (k.nobody) return;
            ServerCall *c = SRV.waitRequest({"q"});
            if (!c) { fprintf(stderr, "no request\n"); _exit(3); }
            for (int b = 0; b < k.before; b++) { c->send(enc("b", b + 1)); if (k.kind == 2) want.push_back(showSent("b", b + 1)); }
            if (!k.code) { c->send(enc(payload, 0)); if (k.kind == 2) want.push_back(showSent(payload, 0)); }
            c->end(status(k.code, texts[size_t(k.text)]));
        };
        if (k.kind == 0) {
            bool served = false;
            uint64_t w = wakeCount();
            v->idle = [&] {
                if (!served) { served = true; serve(); }
                std::unique_lock<std::mutex> l(sl);
                if (!sc.wait_for(l, LONG, [&] { return wakes > w; })) abort();
                w = wakes;
            };
            vs::Res r;
            QGrpcStatus st = cl->echo(req("q"), QPointer<vs::Res>(&r));
            v->idle = nullptr;
            if (k.nobody) { if (st.code() != 14) CORE.fail(d + ": returned " + showStatus(st.code(), st.message())); }
            else if (k.code) { if (showStatus(st.code(), st.message()) != err) CORE.fail(d + ": returned " + showStatus(st.code(), st.message())); }
            else if (st.code() || show(r) != showSent(payload, 0)) CORE.fail(d + ": returned " + showStatus(st.code(), st.message()) + " " + show(r));
        } else if (k.kind == 1) {
            auto p = cl->echo(req("q"));
            QGrpcCallReply *raw = p.get();
            QObject::connect(raw, &QGrpcCallReply::finished, &ctx, [&, raw] { seen.push_back(show(raw->read<vs::Res>())); });
            QObject::connect(raw, &QGrpcCallReply::error, &ctx, [&](const QGrpcStatus &e) { seen.push_back(k.nobody ? "E" + std::to_string(e.code()) : showStatus(e.code(), e.message())); });
            serve();
            want = {k.nobody ? "E14" : k.code ? err : showSent(payload, 0)};
            deliver([&] { return !seen.empty(); });
        } else {
            auto p = cl->streamWatch(req("q"));
            QGrpcStream *raw = p.get();
            QObject::connect(raw, &QGrpcStream::messageReceived, &ctx, [&, raw] { seen.push_back(show(raw->read<vs::Res>())); });
            QObject::connect(raw, &QGrpcStream::finished, &ctx, [&] { seen.push_back("F"); });
            QObject::connect(raw, &QGrpcStream::error, &ctx, [&](const QGrpcStatus &e) { seen.push_back(k.nobody ? "E" + std::to_string(e.code()) : showStatus(e.code(), e.message())); });
            serve();
            want.push_back(k.nobody ? "E14" : k.code ? err : "F");
            deliver([&] { return seen.size() >= want.size(); });
        }
        if (!CORE.failed && seen != want) CORE.fail(d + ": notified [" + join(seen).substr(0, 300) + "] instead of [" + join(want).substr(0, 300) + "]");
        if (!CORE.failed && errs.size() != (k.code ? 1u : 0u)) CORE.fail(d + ": client reported " + std::to_string(errs.size()) + " errors");
        CORE.count("transitions", 2 + uint64_t(k.before));
        CORE.state(d);
        CORE.outcome(join(seen));
        if (k.code) CORE.count("nontrivial");
        CORE.sample(d);
        auto n = seen.size();
        endHistory(cl);
        if (!CORE.failed && seen.size() != n) CORE.fail(d + ": notified after the client was destroyed");
    }
}
// ---- what remains (P26) ---------------------------------------------------------------------------------------------------
// Operations of every kind and outcome, alone and overlapping: when they are over and their pointers dropped, every object made for them is gone.
long aliveObjects = 0; // of the application thread
void addObject(QObject *) { if (pthread_equal(pthread_self(), mainThread)) aliveObjects++; }
void removeObject(QObject *) { if (pthread_equal(pthread_self(), mainThread)) aliveObjects--; }
void remains()
{
    static const char *kinds[] = {"blocking call", "blocking call that fails", "call", "call, pointer dropped", "call that fails", "call that fails, pointer dropped", "aborted call", "call aborted after the answer", "call with callback", "call with callback that fails",
                                  "stream that ends", "stream that ends, pointer dropped", "cancelled stream", "stream cancelled in its handler", "stream that fails, recovers and ends", "stream cancelled while it waits", "stream into an object", "shared stream"};
    const int kindN = int(sizeof kinds / sizeof *kinds);
    qtHookData[3] = quintptr(&addObject);    // QHooks::AddQObject
    qtHookData[4] = quintptr(&removeObject); // QHooks::RemoveQObject
    auto *v = VDispatcher::self();
    auto run = [&](int n, const int *ks, int order, const std::string &d) {
        auto cl = std::make_unique<vs::AlphaClient>();
        cl->attachChannel(channelTo(SRV.url));
        QObject ctx;
        struct St { QGrpcCallReplyShared r; QGrpcStreamShared s, s2; ServerCall *c = nullptr; std::unique_ptr<vs::Res> o; int ended = 0, errors = 0, msgs = 0; };
        auto arg = [](int id) { return Bytes(1, char('p' + id)); };
        auto begin = [&](St &st, int k, int id) {
            auto went = [&] { st.c = SRV.waitRequest({arg(id)}); if (!st.c) CORE.fail(d + ": the request does not reach the server"); };
            St *x = &st;
            if (k < 2) {
                bool served = false;
                uint64_t w = wakeCount();
                v->idle = [&] {
                    if (!served) { served = true; went(); if (!st.c) { CORE.finish(); _exit(1); } if (!k) st.c->send(enc("r", 1)); st.c->end(status(k ? 5 : 0, "t")); }
                    std::unique_lock<std::mutex> l(sl);
                    if (!sc.wait_for(l, LONG, [&] { return wakes > w; })) { CORE.fail(d + ": blocking call waits for ever"); CORE.finish(); _exit(1); }
                    w = wakes;
                };
                vs::Res r;
                cl->echo(req(arg(id)), QPointer<vs::Res>(&r));
                v->idle = nullptr;
                return;
            }
            if (k < 10) {
                if (k >= 8) cl->echo(req(arg(id)), &ctx, [x](QGrpcCallReplyShared r) { x->ended++; r->read<vs::Res>(); });
                else {
                    st.r = cl->echo(req(arg(id)));
                    QObject::connect(st.r.get(), &QGrpcCallReply::finished, &ctx, [x] { x->ended++; });
                    QObject::connect(st.r.get(), &QGrpcCallReply::error, &ctx, [x] { x->ended++; });
                    if (k == 3 || k == 5) st.r.reset();
                }
                went();
                return;
            }
            if (k == 16) st.o = std::make_unique<vs::Res>();
            st.s = st.o ? cl->streamWatch(req(arg(id)), QPointer<vs::Res>(st.o.get())) : cl->streamWatch(req(arg(id)));
            auto *p = st.s.get();
            QObject::connect(p, &QGrpcStream::messageReceived, &ctx, [x, p, k] { x->msgs++; if (k == 13) p->abort(); });
            QObject::connect(p, &QGrpcStream::finished, &ctx, [x] { x->ended++; });
            QObject::connect(p, &QGrpcStream::error, &ctx, [x] { x->errors++; });
            if (k == 17) st.s2 = cl->streamWatch(req(arg(id)));
            if (k == 11) st.s.reset();
            went();
            if (!st.c) return;
            st.c->send(enc("m", 1));
            if (k == 14 || k == 15) st.c->end(status(13, "t"));
        };
        auto finish = [&](St &st, int k, int id) {
            auto wait = [&](int &what) { if (!deliver([&] { return what > 0; })) CORE.fail(d + ": nothing is notified"); };
            if (k < 2) return;
            if (k < 10) {
                bool bad = k == 4 || k == 5 || k == 9;
                if (k == 6) st.r->abort();
                else { if (!bad) st.c->send(enc("r", 1)); st.c->end(status(bad ? 5 : 0, "t")); if (k == 7) st.r->abort(); }
                if (k != 9) wait(st.ended); // a failed call with callback is only reported by the client
            } else if (k == 13) wait(st.ended);
            else if (k == 12) { wait(st.msgs); st.s->abort(); }
            else if (k == 14) {
                wait(st.errors);
                while (v->nextDue() >= 0 && v->nextDue() <= v->now + 1000) { v->fire(); vDrain(); }
                st.c = SRV.waitRequest({arg(id)});
                if (!st.c) { CORE.fail(d + ": the subscription is not restored"); return; }
                st.c->end(status(0, ""));
                wait(st.ended);
            } else if (k == 15) { wait(st.errors); st.s->abort(); }
            else { st.c->end(status(0, "")); wait(st.ended); }
            st.r.reset(); st.s.reset(); st.s2.reset(); st.o.reset();
        };
        { // the connection, registrations and so on
            St st; begin(st, 0, 9); begin(st, 0, 9);
        }
        vDrain();
        long before = aliveObjects;
        {
            std::vector<std::unique_ptr<St>> st;
            for (int i = 0; i < n; i++) st.push_back(std::make_unique<St>());
            if (order == 0) for (int i = 0; i < n && !CORE.failed; i++) { begin(*st[size_t(i)], ks[i], i); finish(*st[size_t(i)], ks[i], i); }
            else {
                for (int i = 0; i < n && !CORE.failed; i++) begin(*st[size_t(i)], ks[i], i);
                for (int i = 0; i < n && !CORE.failed; i++) { int j = order == 1 ? i : n - 1 - i; finish(*st[size_t(j)], ks[j], j); }
            }
            // answers nobody waits for, retry delays that have become pointless
            if (!CORE.failed && !deliver([&] { while (v->nextDue() >= 0 && v->nextDue() <= v->now + 2000) { v->fire(); vDrain(); } return aliveObjects <= before; }))
                CORE.fail(d + ": " + std::to_string(aliveObjects - before) + " objects remain");
        }
        endHistory(cl);
    };
    { int k[] = {0, 2}; run(2, k, 1, "warm up"); }
    for (int n = 1; n <= 2; n++) {
        int total = n == 1 ? kindN : kindN * kindN;
        for (int c = 0; c < total; c++) for (int order = 0; order < (n == 1 ? 1 : 3); order++) {
            int ks[2] = {c % kindN, c / kindN};
            if (!CORE.want()) continue;
            std::string d = kinds[ks[0]];
            if (n > 1) d += std::string(order == 0 ? ", then " : order == 1 ? ", crossing " : ", around ") + kinds[ks[1]];
            CORE.desc = d;
            long start = aliveObjects;
            run(n, ks, order, d);
            if (!CORE.failed && aliveObjects > start) CORE.fail(d + ": " + std::to_string(aliveObjects - start) + " objects remain after client and channel are gone");
            if (CORE.failed) return;
            CORE.sample(d);
            CORE.state(d);
            CORE.count("transitions", uint64_t(n) * 4);
            if (n > 1) CORE.count("nontrivial");
        }
    }
}
}
int main(int argc, char **argv)
{
    mainThread = pthread_self();
    CORE.init(argc, argv);
    vApp(argc, argv);
    VDispatcher::self()->onWake = [] {
        if (pthread_equal(pthread_self(), mainThread)) return;
        std::lock_guard<std::mutex> l(sl);
        wakes++;
        sc.notify_all();
    };
    qRegisterProtobufTypes();
    SRV.start();
    if (CORE.mode == "P17streams") streams();
    else if (CORE.mode == "P17calls") calls();
    else if (CORE.mode == "P17outcomes") outcomes();
    else if (CORE.mode == "P26native") remains();
    else return 3;
    int rc = CORE.finish();
    SRV.stop();
    fflush(nullptr);
    _exit(rc);
}
