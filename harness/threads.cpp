// Cross-thread explorer: requests issued from other threads against a client whose own thread is driven move by move.
#include "fakechannel.h"
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <mutex>
#include <thread>
#include "svc.qpb.h"
#include "svc_grpc.qpb.h"
using namespace QtProtobuf;
namespace {
using Bytes = QByteArray;
using std::chrono::milliseconds;
std::mutex ml;
std::condition_variable mc;
uint64_t wakes = 0;
std::thread::id mainId;
const auto LONG = milliseconds(15000);
vs::Req req(const Bytes &b) { vs::Req r; r.setAsk(b); return r; }
Bytes enc(const Bytes &got, int seq)
{
    Bytes b;
    if (!got.isEmpty()) { b += char(0x0a); b += char(got.size()); b += got; }
    if (seq) { b += char(0x10); b += char(seq); }
    return b;
}
Bytes encReq(const Bytes &ask) { return enc(ask, 0); }
std::string join(const std::vector<std::string> &v) { std::string s; for (auto &x : v) s += x + " "; return s; }
std::string show(const vs::Res &r) { return "m" + std::to_string(int(r.seq())) + "/" + r.got().toStdString(); }
std::string showStatus(const QGrpcStatus &s) { return "E" + std::to_string(s.code()) + ":" + s.message().toStdString(); }

struct Worker {
    std::function<void()> job;
    bool done = true, quit = false;
    std::thread t;
    QObject *recv = nullptr; // lives in the worker
    Worker() { t = std::thread([this] { loop(); }); std::unique_lock<std::mutex> l(ml); mc.wait(l, [this] { return recv != nullptr; }); }
    ~Worker() { { std::lock_guard<std::mutex> l(ml); quit = true; mc.notify_all(); } t.join(); }
    void loop()
    {
        QObject r;
        std::unique_lock<std::mutex> l(ml);
        recv = &r;
        mc.notify_all();
        for (;;) {
            mc.wait(l, [this] { return quit || !done; });
            if (quit) break;
            auto j = job;
            l.unlock();
            j();
            j = nullptr;
            l.lock();
            job = nullptr;
            done = true;
            mc.notify_all();
        }
    }
    void start(std::function<void()> j) { std::lock_guard<std::mutex> l(ml); job = std::move(j); done = false; mc.notify_all(); }
    bool waitDone() { std::unique_lock<std::mutex> l(ml); return mc.wait_for(l, LONG, [this] { return done; }); }
    bool idle() { std::lock_guard<std::mutex> l(ml); return done; }
    bool run(std::function<void()> j) { start(std::move(j)); return waitDone(); }
};
uint64_t wakeCount() { std::lock_guard<std::mutex> l(ml); return wakes; }

const int W = 3; // the third worker only issues blocking calls and subscriptions
std::vector<std::unique_ptr<Worker>> workers;

void p16()
{
    bool th = CORE.thorough();
    int depth = th ? 8 : 7;
    CORE.paths(5, 3, [&] {
        ChannelLog log;
        auto ch = std::make_shared<FakeChannel>(&log, 0);
        auto cl = std::make_unique<vs::AlphaClient>();
        cl->attachChannel(ch);
        auto *v = VDispatcher::self();
        std::vector<std::string> errs, wantErrs;
        QObject ctx;
        std::atomic<int> foreign{0};
        QObject::connect(cl.get(), &QAbstractGrpcClient::error, &ctx, [&](const QGrpcStatus &x) { errs.push_back(showStatus(x)); }, Qt::DirectConnection);
        std::vector<std::string> errsAway; // the same seen by an observer in another thread
        QMetaObject::Connection away = QObject::connect(cl.get(), &QAbstractGrpcClient::error, workers[W - 1]->recv, [&](const QGrpcStatus &x) { errsAway.push_back(showStatus(x)); });
        struct Op { int kind = -1, order = 0; Bytes arg; bool inFrame = false, finished = false; QGrpcStatus st; vs::Res res; std::string want; };
        struct P {
            std::unique_ptr<Op> op;
            QGrpcCallReplyShared reply; QGrpcStreamShared stream;
            bool replyOver = true, streamOver = true, joined = false, checkLast = false;
            int sees = 0; // observers of the live subscription
            Bytes replyArg;
            std::vector<std::string> seen, want; // notifications of the asynchronous call
            int msgs = 0, wantMsgs = 0, ends = 0, wantEnds = 0, serrs = 0, wantSerrs = 0;
            std::string last, wantLast;
        } p[W];
        struct Frame { Bytes arg; int worker; bool answered = false; };
        std::vector<Frame *> frames;
        std::string d = "history";
        int moves = 0, orders = 0, serial = 0, seq = 0;
        // the subscription all threads share
        bool live = false;
        QGrpcStream *liveObj = nullptr;
        size_t expectCalls = 0, expectSubs = 0, expectBlocking = 0;
        size_t blockingSeen = 0;
        auto onMain = [&](const char *what) { if (std::this_thread::get_id() != mainId) { foreign++; CORE.fail(d + ": " + what + " runs outside the client's thread"); } };
        std::function<void()> idle;
        ch->onBlocking = [&](const QString &method, const QByteArray &args, QByteArray &ret) -> QGrpcStatus {
            onMain("a blocking call");
            blockingSeen++;
            int who = -1;
            for (int i = 0; i < W; i++) if (p[i].op && p[i].op->kind == 0 && encReq(p[i].op->arg) == args) who = i;
            if (who < 0 || p[who].op->inFrame || method != QLatin1String("echo")) { CORE.fail(d + ": the channel is asked for something nobody requested, or twice"); return {}; }
            p[who].op->inFrame = true;
            Frame f{p[who].op->arg, who, false};
            frames.push_back(&f);
            QEventLoop loop;
            // real channels wait in an event loop of their own
            QTimer guard;
            while (!f.answered && !CORE.failed) loop.processEvents(QEventLoop::WaitForMoreEvents);
            frames.pop_back();
            p[who].op->inFrame = false;
            if (p[who].op->want[0] == 'E') { wantErrs.push_back(p[who].op->want); return {QGrpcStatus::NotFound, QString::fromStdString(p[who].op->want.substr(3))}; }
            ret = enc("re:" + f.arg, 1);
            return {};
        };
        auto sync = [&] { // requests the client's thread has handled are complete in the requesting thread
            for (int i = 0; i < W && !CORE.failed; i++)
                if (p[i].op && !p[i].op->inFrame && !workers[size_t(i)]->waitDone()) { CORE.fail(d + ": thread " + std::to_string(i) + " never gets the result of its request"); return; }
            for (;;) {
                int i = -1; // in the order of the requests
                for (int j = 0; j < W; j++) if (p[j].op && !p[j].op->inFrame && (i < 0 || p[j].op->order < p[i].op->order)) i = j;
                if (i < 0 || CORE.failed) return;
                Op &o = *p[i].op;
                if (o.kind == 0) {
                    std::string got = o.st.code() == QGrpcStatus::Ok ? show(o.res) : showStatus(o.st);
                    if (got != o.want) CORE.fail(d + ": blocking call of thread " + std::to_string(i) + " returns " + got + " instead of " + o.want);
                } else if (o.kind == 1) {
                    expectCalls++;
                    if (!p[i].reply) CORE.fail(d + ": thread " + std::to_string(i) + " gets no reply object");
                    else {
                        bool found = false;
                        for (auto &c : log.calls) if (c.arg == encReq(o.arg) && c.method == QLatin1String("echo")) { found = true; if (c.reply != p[i].reply.get()) CORE.fail(d + ": thread " + std::to_string(i) + " gets the reply object of another call"); }
                        if (!found) CORE.fail(d + ": the channel is asked for something else");
                        p[i].replyOver = false; p[i].replyArg = o.arg;
                    }
                } else if (o.kind == 2) {
                    if (!p[i].stream) CORE.fail(d + ": thread " + std::to_string(i) + " gets no subscription");
                    else {
                        if (!live) { live = true; expectSubs++; liveObj = p[i].stream.get(); }
                        else if (p[i].stream.get() != liveObj) CORE.fail(d + ": identical subscriptions of two threads are not shared");
                        p[i].streamOver = false; p[i].sees++; p[i].joined = true;
                        if (log.subs.back()->method != QLatin1String("watch") || log.subs.back()->arg != encReq("same")) CORE.fail(d + ": wrong stream request");
                    }
                } else if (o.kind == 3) {
                    if (!p[i].replyOver) { p[i].want.push_back("E10"); wantErrs.push_back("E10"); }
                    p[i].replyOver = true;
                } else if (o.kind == 4) {
                    if (live && liveObj == p[i].stream.get()) { live = false; liveObj = nullptr; for (auto &x : p) if (x.sees) { x.wantEnds += x.sees; x.sees = 0; x.streamOver = true; } }
                }
                p[i].op.reset();
            }
        };
        auto verify = [&] {
            for (int i = 0; i < W && !CORE.failed; i++) {
                if (p[i].op) continue;
                P &x = p[i];
                if (!workers[size_t(i)]->run([] { QCoreApplication::sendPostedEvents(); QCoreApplication::sendPostedEvents(nullptr, QEvent::DeferredDelete); })) { CORE.fail(d + ": thread " + std::to_string(i) + " hangs"); return; }
                // a cancel handled right behind the subscription may end it before the subscriber could observe it
                if (x.joined && !x.sees && x.ends == x.wantEnds - 1) x.wantEnds--;
                x.joined = false;
                if (x.seen != x.want) CORE.fail(d + ": thread " + std::to_string(i) + " is notified [" + join(x.seen) + "] instead of [" + join(x.want) + "]");
                if (x.msgs != x.wantMsgs || x.ends != x.wantEnds || x.serrs != x.wantSerrs || (x.checkLast && x.last != x.wantLast))
                    CORE.fail(d + ": subscription of thread " + std::to_string(i) + ": messages " + std::to_string(x.msgs) + "/" + std::to_string(x.wantMsgs) + " ends " + std::to_string(x.ends) + "/" + std::to_string(x.wantEnds) + " last " + x.last + "/" + x.wantLast);
            }
            std::vector<std::string> e;
            for (auto &s : errs) e.push_back(s.substr(0, 4) == "E10:" ? "E10" : s);
            auto w = wantErrs;
            std::sort(e.begin(), e.end()); std::sort(w.begin(), w.end());
            if (!CORE.failed && e != w) CORE.fail(d + ": client reported [" + join(errs) + "] instead of [" + join(wantErrs) + "]");
            if (!CORE.failed && !p[W - 1].op && errsAway != errs) CORE.fail(d + ": an observer of the client in another thread is told [" + join(errsAway) + "] instead of [" + join(errs) + "]");
            if (log.calls.size() != expectCalls) CORE.fail(d + ": " + std::to_string(log.calls.size()) + " calls reach the channel instead of " + std::to_string(expectCalls));
            if (log.subs.size() != expectSubs) CORE.fail(d + ": " + std::to_string(log.subs.size()) + " stream requests instead of " + std::to_string(expectSubs));
            if (log.openCount() != (live ? 1 : 0)) CORE.fail(d + ": " + std::to_string(log.openCount()) + " open stream requests");
            std::string st;
            for (auto &x : p) st += (x.op ? std::to_string(x.op->kind) : "-") + std::to_string(x.replyOver) + std::to_string(x.streamOver) + (x.reply ? "r" : "-") + (x.stream ? "s" : "-");
            CORE.state(st + std::to_string(frames.size()) + std::to_string(live));
            CORE.count("steps");
        };
        auto issue = [&](int i, int kind) {
            static const char *names[] = {"blocking-call", "call", "subscribe", "abort-call", "cancel-stream", "drop-pointers"};
            d += " T" + std::to_string(i) + ":" + names[kind]; CORE.desc = d;
            P *x = &p[i];
            Worker *w = workers[size_t(i)].get();
            if (kind == 5) {
                w->run([x] { x->reply.reset(); x->stream.reset(); });
                x->replyOver = true; x->checkLast = false;
                return;
            }
            x->op = std::make_unique<Op>();
            Op *o = x->op.get();
            o->kind = kind;
            x->checkLast = false;
            o->order = ++orders;
            o->arg = kind == 2 ? Bytes("same") : Bytes("arg") + Bytes::number(++serial);
            uint64_t before = wakeCount();
            auto *client = cl.get();
            QObject *recv = w->recv;
            if (kind == 0) { expectBlocking++; w->start([=] { o->st = client->echo(req(o->arg), QPointer<vs::Res>(&o->res)); }); }
            if (kind == 1) w->start([=] {
                x->reply = client->echo(req(o->arg));
                if (!x->reply) return;
                std::weak_ptr<QGrpcCallReply> weak = x->reply;
                auto id = std::this_thread::get_id();
                x->reply->subscribe(recv, [=] { x->seen.push_back(std::this_thread::get_id() == id ? (weak.lock() ? show(weak.lock()->read<vs::Res>()) : "gone") : "wrong thread"); },
                                    [=](const QGrpcStatus &s) { auto t = showStatus(s); x->seen.push_back(std::this_thread::get_id() == id ? (t.substr(0, 4) == "E10:" ? "E10" : t) : "wrong thread"); });
            });
            if (kind == 2) w->start([=] {
                x->stream = client->streamWatch(req(o->arg));
                if (!x->stream) return;
                QGrpcStream *s = x->stream.get();
                std::weak_ptr<QGrpcStream> weak = x->stream;
                QObject::connect(s, &QGrpcStream::messageReceived, recv, [=] { x->msgs++; if (auto k = weak.lock()) x->last = show(k->read<vs::Res>()); });
                QObject::connect(s, &QGrpcStream::finished, recv, [=] { x->ends++; });
                QObject::connect(s, &QGrpcStream::error, recv, [=] { x->serrs++; });
            });
            if (kind == 3) w->start([=] { x->reply->abort(); });
            if (kind == 4) w->start([=] { x->stream->abort(); });
            std::unique_lock<std::mutex> l(ml);
            if (!mc.wait_for(l, LONG, [&] { return w->done || wakes > before; })) { CORE.fail(d + ": the request is not handed over"); }
            // the client's thread has not handled the cancellation yet, so it cannot have been performed: cancelling must not return
            bool effective = (kind == 3 && !x->replyOver) || (kind == 4 && live && liveObj == x->stream.get());
            if (effective && mc.wait_for(l, std::chrono::milliseconds(3), [&] { return w->done; }))
                CORE.fail(d + ": cancelling returns in thread " + std::to_string(i) + " although nothing has been cancelled yet");
        };
        // ---- one move; top: no blocking call is waiting in the client's thread
        auto options = [&](bool top) {
            std::vector<int> mv;
            if (!top) { mv.push_back(100); mv.push_back(101); }
            bool first = true;
            for (int i = 0; i < W; i++) {
                P &x = p[i];
                if (x.op) continue;
                bool used = x.reply || x.stream || !x.want.empty();
                if (!used && !first) { bool blank = true; for (int j = 0; j < i; j++) if (!p[j].op && !p[j].reply && !p[j].stream && p[j].want.empty()) blank = false; if (!blank) continue; } // threads are alike until used
                first = false;
                mv.push_back(i * 10);
                if (i < 2 && !x.reply) mv.push_back(i * 10 + 1);
                if (!x.stream) mv.push_back(i * 10 + 2);
                if (x.reply) mv.push_back(i * 10 + 3);
                if (x.stream) mv.push_back(i * 10 + 4);
                if (x.reply || x.stream) mv.push_back(i * 10 + 5);
            }
            for (int i = 0; i < 2; i++) if (!p[i].replyOver && p[i].reply) { mv.push_back(40 + i); mv.push_back(50 + i); }
            if (live) { mv.push_back(60); mv.push_back(61); }
            if (top) for (auto &x : p) if (x.op) { mv.push_back(99); break; }
            return mv;
        };
        auto move = [&](int a) {
            if (a < 30) { issue(a / 10, a % 10); return; }
            if (a < 60) {
                int i = a % 10;
                PendingCall *c = nullptr;
                for (auto &q : log.calls) if (q.arg == encReq(p[i].replyArg)) c = &q;
                if (!c || !c->reply) { CORE.fail(d + ": the reply object of thread " + std::to_string(i) + " is gone"); return; }
                if (a < 50) {
                    d += " answer-T" + std::to_string(i); CORE.desc = d;
                    c->reply->setData(enc("as:" + p[i].replyArg, 2));
                    p[i].want.push_back("m2/as:" + p[i].replyArg.toStdString());
                    p[i].replyOver = true;
                    emit c->reply->finished();
                } else {
                    d += " fail-T" + std::to_string(i); CORE.desc = d;
                    std::string e = "E13:f" + p[i].replyArg.toStdString();
                    p[i].want.push_back(e); wantErrs.push_back(e);
                    p[i].replyOver = true;
                    emit c->reply->error({QGrpcStatus::Internal, "f" + QString::fromLatin1(p[i].replyArg)});
                }
                return;
            }
            auto sub = log.subs.back();
            if (!sub->stream || !sub->open) { CORE.fail(d + ": the shared subscription is not open"); return; }
            if (a == 60) {
                seq++;
                d += " message"; CORE.desc = d;
                for (auto &x : p) if (x.sees) { x.wantMsgs += x.sees; x.wantLast = "m" + std::to_string(seq) + "/s"; x.checkLast = !x.op && x.stream && x.stream.get() == liveObj; }
                sub->stream->handler(enc("s", seq));
            } else {
                d += " end-stream"; CORE.desc = d;
                for (auto &x : p) if (x.sees) { x.wantEnds += x.sees; x.sees = 0; x.streamOver = true; }
                live = false; liveObj = nullptr;
                emit sub->stream->finished();
            }
        };
        v->idle = [&] {
            if (CORE.failed) { for (auto *f : frames) f->answered = true; return; }
            sync();
            verify();
            if (CORE.failed || frames.empty()) { for (auto *f : frames) f->answered = true; return; }
            auto mv = options(false);
            if (mv.size() > 32) { fprintf(stderr, "too many moves\n"); _exit(3); }
            int a = moves < depth ? mv[size_t(CORE.choose(int(mv.size())))] : 100;
            moves++;
            Frame *f = frames.back();
            if (a >= 100) {
                d += " return-T" + std::to_string(f->worker) + (a == 100 ? "(ok)" : "(error)"); CORE.desc = d;
                p[f->worker].op->want = a == 100 ? "m1/re:" + f->arg.toStdString() : "E5:x" + f->arg.toStdString();
                f->answered = true;
                return;
            }
            move(a);
        };
        while (moves < depth && !CORE.failed) {
            auto mv = options(true);
            if (mv.empty()) break;
            if (mv.size() > 32) { fprintf(stderr, "too many moves\n"); _exit(3); }
            int a = mv[size_t(CORE.choose(int(mv.size())))];
            moves++;
            if (a == 99) { d += " handle-events"; CORE.desc = d; vDrain(); if (!CORE.failed) sync(); }
            else {
                move(a);
                bool waiting = false;
                for (auto &x : p) waiting |= bool(x.op);
                if (!waiting) vDrain(); // deferred deletions
            }
            if (!CORE.failed) verify();
        }
        // everything that was requested is completed
        if (!CORE.failed) { vDrain(); if (!CORE.failed) sync(); if (!CORE.failed) verify(); }
        if (!CORE.failed && blockingSeen != expectBlocking) CORE.fail(d + ": " + std::to_string(blockingSeen) + " blocking calls performed instead of " + std::to_string(expectBlocking));
        if (!CORE.failed) { CORE.sample(d); if (serial || live) CORE.count("nontrivial"); std::string o; for (auto &x : p) o += join(x.seen) + std::to_string(x.msgs) + std::to_string(x.ends) + "|"; CORE.outcome(o + join(errs)); }
        // release threads of a failed history before its data goes away
        if (CORE.failed) { CORE.finish(); fflush(nullptr); _exit(1); }
        for (int i = 0; i < W; i++) workers[size_t(i)]->run([&, i] { p[i].reply.reset(); p[i].stream.reset(); });
        vDrain();
        QObject::disconnect(away);
        cl.reset();
        vDrain();
        for (int i = 0; i < W; i++) workers[size_t(i)]->run([] { QCoreApplication::sendPostedEvents(); });
        vReset();
        while (!v->timers.isEmpty()) v->timers.removeLast();
    });
}
}
int main(int argc, char **argv)
{
    mainId = std::this_thread::get_id();
    CORE.init(argc, argv);
    vApp(argc, argv);
    VDispatcher::self()->onWake = [] {
        if (std::this_thread::get_id() == mainId) return;
        std::lock_guard<std::mutex> l(ml);
        wakes++;
        mc.notify_all();
    };
    qRegisterProtobufTypes();
    for (int i = 0; i < W; i++) workers.push_back(std::make_unique<Worker>());
    if (CORE.mode == "P16") p16();
    else return 3;
    int rc = CORE.finish();
    fflush(nullptr);
    _exit(rc);
}
