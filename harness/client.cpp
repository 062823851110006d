// Client explorer: the real client base class and generated client against recording channels and a reference model.
#include "fakechannel.h"
#include "svc.qpb.h"
#include "svc_grpc.qpb.h"
using namespace QtProtobuf;
namespace {
using Bytes = QByteArray;
vs::Req req(const Bytes &b) { vs::Req r; r.setAsk(b); return r; }
Bytes enc(const Bytes &got, int seq)
{
    Bytes b;
    if (!got.isEmpty()) { b += char(0x0a); b += char(got.size()); b += got; }
    if (seq) { b += char(0x10); b += char(seq); }
    return b;
}
Bytes encReq(const Bytes &ask) { Bytes b; if (!ask.isEmpty()) { b += char(0x0a); b += char(ask.size()); b += ask; } return b; }

// keys: 0 watch/"a", 1 watch/"b", 2 follow/"a"
const char *keyName[] = {"watch(a)", "watch(b)", "follow(a)"};
struct Target { std::unique_ptr<vs::Res> obj; int want = -1; int key = -1; };
struct Model {
    struct S {
        int key; enum { Active, Waiting, Ended } st = Active; qint64 retry = 0;
        std::vector<int> targets; // registered receivers, in order
        int observers = 0;        // observers of messageReceived of that object
        int msgs = 0, errs = 0, fins = 0;
        QPointer<QGrpcStream> obj; QGrpcStreamShared held;
        int seenMsgs = 0, seenErrs = 0, seenFins = 0;
    };
    std::vector<std::unique_ptr<S>> subs;
};
void p15()
{
    bool th = CORE.thorough();
    int depth = th ? 7 : 6;
    CORE.paths(5, 3, [&] {
        ChannelLog log;
        auto cl = std::make_unique<vs::AlphaClient>();
        auto *v = VDispatcher::self();
        std::vector<int> errors, wantErrors;
        QObject ctx;
        QObject::connect(cl.get(), &QAbstractGrpcClient::error, &ctx, [&](const QGrpcStatus &s) { errors.push_back(s.code()); });
        std::vector<std::shared_ptr<FakeChannel>> channels;
        int channel = -1;
        std::vector<std::unique_ptr<Target>> targets;
        Model m;
        std::string d = "history";
        int requests = 0, seq = 0, subsMade = 0, swaps = 0;
        int reenter = 0;   // 1: subscribe again from inside the next change notification of a bound message
        bool reentered = false;
        auto live = [&](int key) -> Model::S * { for (auto &s : m.subs) if (s->key == key && s->st != Model::S::Ended) return s.get(); return nullptr; };
        auto subscribeReal = [&](int key, vs::Res *t) {
            if (key == 0) return t ? cl->streamWatch(req("a"), QPointer<vs::Res>(t)) : cl->streamWatch(req("a"));
            if (key == 1) return t ? cl->streamWatch(req("b"), QPointer<vs::Res>(t)) : cl->streamWatch(req("b"));
            return t ? cl->streamFollow(req("a"), QPointer<vs::Res>(t)) : cl->streamFollow(req("a"));
        };
        std::function<void(int, bool)> subscribe = [&](int key, bool bound) {
            Target *t = nullptr;
            if (bound) { targets.push_back(std::make_unique<Target>()); t = targets.back().get(); t->obj = std::make_unique<vs::Res>(); t->key = key; }
            QGrpcStreamShared s = subscribeReal(key, t ? t->obj.get() : nullptr);
            if (channel < 0) {
                wantErrors.push_back(2);
                if (s) CORE.fail(d + ": subscription without channel");
                return;
            }
            if (!s) { CORE.fail(d + ": no subscription returned"); return; }
            Model::S *x = live(key);
            if (x) { if (s.get() != x->obj) CORE.fail(d + ": subscribing again to " + keyName[key] + " returns another subscription"); }
            else {
                m.subs.push_back(std::make_unique<Model::S>());
                x = m.subs.back().get();
                for (auto &o : m.subs) if (o->obj && o->obj == s.get()) CORE.fail(d + ": " + keyName[key] + " returns the subscription of something else or an ended one");
                x->key = key; x->obj = s.get(); x->held = s;
                requests++;
                QObject::connect(s.get(), &QGrpcStream::messageReceived, &ctx, [x] { x->seenMsgs++; });
                QObject::connect(s.get(), &QGrpcStream::error, &ctx, [x] { x->seenErrs++; });
                QObject::connect(s.get(), &QGrpcStream::finished, &ctx, [&, x, key] {
                    x->seenFins++;
                    if (reenter == 2) { reenter = 0; subscribe(key, false); }
                });
            }
            if (t) {
                x->targets.push_back(int(targets.size()) - 1);
                QObject::connect(t->obj.get(), &vs::Res::seqChanged, &ctx, [&, key] {
                    if (reenter == 1) { reenter = 0; reentered = true; subscribe(key, true); }
                });
            }
        };
        auto attach = [&](int id) {
            while (int(channels.size()) <= id) channels.push_back(std::make_shared<FakeChannel>(&log, int(channels.size())));
            for (auto &s : m.subs) if (s->st != Model::S::Ended) { s->st = Model::S::Ended; s->fins++; }
            size_t before = m.subs.size();
            int old = channel;
            channel = id;
            cl->attachChannel(channels[size_t(id)]);
            // a subscription made from inside a notification belongs to the channel it was opened on
            for (size_t i = before; i < m.subs.size(); i++)
                for (auto &x : log.subs) if (x->stream && x->stream == m.subs[i]->obj && x->channel == old) { m.subs[i]->st = Model::S::Ended; m.subs[i]->fins++; }
        };
        if (CORE.choose(2) == 0) { attach(0); d += " channel0"; }
        for (int k = 0; k < depth && !CORE.failed; k++) {
            std::vector<int> mv;
            for (int key = 0; key < 3; key++) { if (channel < 0 && key) continue; mv.push_back(key); mv.push_back(10 + key); }
            for (size_t i = 0; i < m.subs.size(); i++) {
                auto &s = *m.subs[i];
                if (s.st == Model::S::Active) { mv.push_back(100 + int(i)); mv.push_back(200 + int(i)); mv.push_back(300 + int(i)); }
                if (s.st != Model::S::Ended && s.held) mv.push_back(400 + int(i));
            }
            bool waiting = false;
            for (auto &s : m.subs) waiting |= s->st == Model::S::Waiting;
            if (waiting) mv.push_back(20);
            if (swaps < 2) mv.push_back(21);
            for (auto &t : targets) if (t->obj) { mv.push_back(22); break; }
            if (channel < 0) { mv.push_back(23); }
            if (!reenter && !targets.empty()) mv.push_back(24);
            if (!reenter && !m.subs.empty()) mv.push_back(25);
            if (mv.size() > 32) { fprintf(stderr, "too many moves\n"); _exit(3); }
            int a = mv[size_t(CORE.choose(int(mv.size())))];
            reentered = false;
            if (a < 3) { d += std::string(" subscribe ") + keyName[a]; CORE.desc = d; subscribe(a, false); }
            else if (a < 13) { d += std::string(" subscribe-bound ") + keyName[a - 10]; CORE.desc = d; subscribe(a - 10, true); }
            else if (a == 20) {
                d += " retry-delay"; CORE.desc = d;
                qint64 t = -1;
                for (auto &s : m.subs) if (s->st == Model::S::Waiting && (t < 0 || s->retry < t)) t = s->retry;
                for (auto &s : m.subs) if (s->st == Model::S::Waiting && s->retry <= t) { s->st = Model::S::Active; requests++; }
                while (v->nextDue() >= 0 && v->nextDue() <= t) { v->fire(); vDrain(); }
            } else if (a == 21) { d += " attach channel" + std::to_string(channel + 1); CORE.desc = d; swaps++; attach(channel + 1); }
            else if (a == 22) { d += " delete-bound-object"; CORE.desc = d; for (auto &t : targets) if (t->obj) { t->obj.reset(); break; } }
            else if (a == 23) {
                d += " calls-without-channel"; CORE.desc = d;
                vs::Res r;
                QGrpcStatus st = cl->echo(req("x"), QPointer<vs::Res>(&r));
                wantErrors.push_back(2);
                if (st.code() == 0) CORE.fail(d + ": blocking call without channel succeeds");
                if (cl->echo(req("x"))) CORE.fail(d + ": asynchronous call without channel returns a reply");
                wantErrors.push_back(2);
            } else if (a == 24) { d += " (subscribe in next change notification)"; reenter = 1; }
            else if (a == 25) { d += " (subscribe in next finished notification)"; reenter = 2; }
            else {
                auto &s = *m.subs[size_t(a % 100)];
                // the open request of that subscription
                std::shared_ptr<Sub> q;
                for (auto &x : log.subs) if (x->stream == s.obj && x->open) q = x;
                if (a < 400 && !q) { CORE.fail(d + ": active subscription " + keyName[s.key] + " has no request"); return; }
                if (a < 200) {
                    seq++;
                    d += std::string(" message ") + keyName[s.key]; CORE.desc = d;
                    s.msgs++;
                    for (int t : s.targets) { if (targets[size_t(t)]->obj) targets[size_t(t)]->want = seq % 2 ? seq : 0; else wantErrors.push_back(3); }
                    q->stream->handler(seq % 2 ? enc("m", seq) : QByteArray()); // every other message is empty on the wire
                } else if (a < 300) {
                    d += std::string(" error ") + keyName[s.key]; CORE.desc = d;
                    s.errs++; wantErrors.push_back(13);
                    s.st = Model::S::Waiting; s.retry = v->now + 1000;
                    emit q->stream->error({QGrpcStatus::Internal, QStringLiteral("x")});
                } else if (a < 400) {
                    d += std::string(" end ") + keyName[s.key]; CORE.desc = d;
                    s.fins++; s.st = Model::S::Ended;
                    emit q->stream->finished();
                } else {
                    d += std::string(" cancel ") + keyName[s.key]; CORE.desc = d;
                    s.fins++; s.st = Model::S::Ended;
                    s.held->abort();
                }
            }
            vDrain();
            CORE.count("steps");
            auto bad = [&](const std::string &t) { CORE.fail(d + ": " + t); };
            if (int(log.subs.size()) != requests) { bad(std::to_string(log.subs.size()) + " requests instead of " + std::to_string(requests)); return; }
            int open = 0;
            std::string st;
            for (auto &s : m.subs) {
                int n = 0;
                for (auto &x : log.subs) if (x->open && x->stream && x->stream == s->obj) {
                    n++;
                    if (x->channel != channel) bad("subscription " + std::string(keyName[s->key]) + " is open on a channel that was replaced");
                    if (x->service != QLatin1String("vs.Alpha") || x->method != QLatin1String(s->key == 2 ? "follow" : "watch") || x->arg != encReq(s->key == 1 ? "b" : "a")) bad("wrong request for " + std::string(keyName[s->key]));
                }
                open += n;
                if (n != (s->st == Model::S::Active ? 1 : 0)) { bad(std::string(keyName[s->key]) + " has " + std::to_string(n) + " open requests"); return; }
                if (s->seenMsgs != s->msgs || s->seenErrs != s->errs || s->seenFins != s->fins) {
                    bad(std::string(keyName[s->key]) + " notified: messages " + std::to_string(s->seenMsgs) + "/" + std::to_string(s->msgs) + ", errors " + std::to_string(s->seenErrs) + "/" + std::to_string(s->errs) +
                        ", finished " + std::to_string(s->seenFins) + "/" + std::to_string(s->fins));
                    return;
                }
                st += std::to_string(s->key) + std::to_string(s->st) + std::to_string(s->targets.size()) + ",";
            }
            if (log.openCount() != open) { bad("requests are left open"); return; }
            if (errors != wantErrors) { bad("client reported " + std::to_string(errors.size()) + " errors instead of " + std::to_string(wantErrors.size())); return; }
            // a receiver added during the delivery may or may not get that message
            for (auto &t : targets) if (t->obj && t->want >= 0 && t->obj->seq() != t->want) { bad("bound object holds message " + std::to_string(int(t->obj->seq())) + " instead of " + std::to_string(t->want)); return; }
            CORE.state(st + std::to_string(channel) + std::to_string(reenter));
            subsMade++;
        }
        if (CORE.failed) return;
        CORE.sample(d);
        std::string o;
        for (auto &s : m.subs) { o += std::to_string(s->seenMsgs) + std::to_string(s->seenErrs) + std::to_string(s->seenFins) + ";"; }
        CORE.outcome(o);
        if (m.subs.size() > 1 || swaps || !m.subs.empty()) CORE.count("nontrivial");
        // nothing is left after the client is gone
        cl.reset();
        vDrain();
        if (log.openCount()) CORE.fail(d + ": requests stay open after the client is destroyed");
        for (auto &s : m.subs) s->held.reset();
        vDrain();
        size_t n = log.subs.size();
        for (int i = 0; i < 50 && v->nextDue() >= 0; i++) { v->fire(); vDrain(); }
        if (log.subs.size() != n) CORE.fail(d + ": requests after the client is destroyed");
        channels.clear();
        vReset();
    });
}
// two subscriptions for every pair of arguments and methods: one subscription exactly when both are equal
void p15args()
{
    std::vector<Bytes> words = {""};
    for (size_t i = 0, n = 0; n < (CORE.thorough() ? 4 : 3); n++) {
        size_t e = words.size();
        for (; i < e; i++) for (char c : {'a', 'b', '\0', '\n'}) words.push_back(words[i] + c);
    }
    for (int n : {127, 128, 129, 300}) for (char c : {'a', 'b'}) words.push_back(Bytes(n - 1, 'a') + c);
    std::vector<std::vector<Bytes>> lists = {{}};
    for (size_t i = 0, n = 0; n < (CORE.thorough() ? 4 : 3); n++) {
        size_t e = lists.size();
        for (; i < e; i++) for (const char *w : {"", "a", "b"}) { auto l = lists[i]; l.push_back(w); lists.push_back(l); }
    }
    struct Arg { bool list; size_t i; int method; };
    CORE.paths(12, 1, [&] {
        auto pick = [&]() -> Arg {
            size_t c = size_t(CORE.choose(int(2 * words.size() + 2 * lists.size())));
            if (c < 2 * words.size()) return {false, c / 2, int(c % 2)};
            c -= 2 * words.size();
            return {true, c / 2, int(c % 2)};
        };
        Arg args[2] = {pick(), pick()};
        ChannelLog log;
        auto ch = std::make_shared<FakeChannel>(&log, 0);
        vs::AlphaClient cl;
        cl.attachChannel(ch);
        vs::Res objs[3];
        Bytes encs[2];
        QString methods[2];
        std::string d = "subscribe to";
        auto sub = [&](const Arg &a, vs::Res *o) {
            QPointer<vs::Res> p(o);
            if (a.list) {
                vs::Asks m;
                for (auto &w : lists[a.i]) m.items().append(QSharedPointer<vs::Req>(new vs::Req(req(w))));
                return a.method ? cl.streamWatchAllAgain(m, p) : cl.streamWatchAll(m, p);
            }
            return a.method ? cl.streamFollow(req(words[a.i]), p) : cl.streamWatch(req(words[a.i]), p);
        };
        for (int i = 0; i < 2; i++) {
            Bytes e;
            if (args[i].list) for (auto &w : lists[args[i].i]) { Bytes x = encReq(w); e += char(0x0a); e += char(x.size()); e += x; }
            else if (words[args[i].i].size()) { const Bytes &w = words[args[i].i]; e += char(0x0a); if (w.size() > 127) { e += char(w.size() | 0x80); e += char(w.size() >> 7); } else e += char(w.size()); e += w; }
            encs[i] = e;
            methods[i] = args[i].list ? (args[i].method ? "watchAllAgain" : "watchAll") : args[i].method ? "follow" : "watch";
            d += (i ? " and " : " ") + methods[i].toStdString() + "(" + e.toHex().left(40).toStdString() + ")";
        }
        CORE.desc = d;
        bool same = methods[0] == methods[1] && encs[0] == encs[1];
        CORE.state(methods[0].toStdString() + encs[0].toStdString() + "|" + methods[1].toStdString() + encs[1].toStdString());
        CORE.outcome(same ? "shared" : "separate");
        if (!same) CORE.count("nontrivial");
        CORE.sample(d);
        auto a = sub(args[0], &objs[0]), b = sub(args[1], &objs[1]);
        vDrain();
        auto bad = [&](const std::string &t) { CORE.fail(d + ": " + t); };
        if (!a || !b) return bad("no subscription");
        if ((a == b) != same) return bad(same ? "two subscriptions for the same stream" : "different streams share a subscription");
        if (log.subs.size() != (same ? 1u : 2u)) return bad(std::to_string(log.subs.size()) + " requests");
        for (size_t i = 0; i < log.subs.size(); i++)
            if (log.subs[i]->method != methods[i] || log.subs[i]->arg != encs[i]) return bad("wrong request");
        int fin[2] = {0, 0};
        QObject ctx;
        QObject::connect(a.get(), &QGrpcStream::finished, &ctx, [&] { fin[0]++; });
        if (!same) QObject::connect(b.get(), &QGrpcStream::finished, &ctx, [&] { fin[1]++; });
        a->handler(enc("m", 5));
        if (objs[0].seq() != 5 || objs[1].seq() != (same ? 5 : 0)) return bad("message of the first stream reached the wrong receivers");
        b->handler(enc("m", 6));
        if (objs[1].seq() != 6 || objs[0].seq() != (same ? 6 : 5)) return bad("message of the second stream reached the wrong receivers");
        if (same) return;
        auto c = sub(args[0], &objs[2]); // again
        if (c != a || log.subs.size() != 2) return bad("subscribing again does not find the first subscription");
        if (CORE.choose(2)) { std::swap(a, b); std::swap(log.subs[0], log.subs[1]); std::swap(fin[0], fin[1]); }
        // (the counters were bound to the streams before they were swapped)
        a->abort();
        vDrain();
        if (fin[0] + fin[1] != 1) return bad("canceling one stream ends " + std::to_string(fin[0] + fin[1]));
        if (log.subs[0]->open || !log.subs[1]->open) return bad("canceling one stream ends the other");
        b->handler(enc("m", 7));
        if (log.openCount() != 1) return bad("the other stream is gone");
        c.reset();
        b->abort();
        vDrain();
        if (log.openCount()) return bad("a request stays open");
        if (CORE.failed) return;
        a.reset();
        b.reset();
        vDrain();
    });
}
}
int main(int argc, char **argv)
{
    CORE.init(argc, argv);
    vApp(argc, argv);
    qRegisterProtobufTypes();
    if (CORE.mode == "P15") p15();
    else if (CORE.mode == "P15args") p15args();
    else { fprintf(stderr, "unknown mode\n"); return 3; }
    return CORE.finish();
}
