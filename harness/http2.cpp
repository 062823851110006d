// HTTP/2 channel explorer: the real client, channel and generated code against a scripted network in virtual time.
#include "evkit.h"
#include "svc.qpb.h"
#include "svc_grpc.qpb.h"
#include "qgrpchttp2channel.h"
#include "qprotobufserializer.h"
#include "qgrpccredentials.h"
#include "qgrpcinsecurecredentials.h"
#include "qgrpcuserpasswordcredentials.h"
#include "qgrpcsslcredentials.h"
#include "qgrpcstream.h"
#include "qgrpccallreply.h"
#include "qgrpcstatus.h"
#include <memory>
using namespace QtProtobuf;

#ifdef __SANITIZE_ADDRESS__
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *));
#endif
extern Q_CORE_EXPORT quintptr qtHookData[];
namespace {
using Bytes = QByteArray;
std::string H(const Bytes &b) { return b.size() > 40 ? b.left(20).toHex().toStdString() + "..(" + std::to_string(b.size()) + ")" : b.toHex().toStdString(); }
void varint(Bytes &b, quint64 v) { while (v > 127) { b += char(v | 128); v >>= 7; } b += char(v); }
// encodings of vs.Res, written down independently of the code under test
struct Msg {
    Bytes got; int seq = 0;
    Bytes enc() const
    {
        Bytes b;
        if (!got.isEmpty()) { b += char(0x0a); varint(b, quint64(got.size())); b += got; }
        if (seq) { b += char(0x10); varint(b, quint64(qint64(seq))); }
        return b;
    }
    bool operator==(const Msg &o) const { return got == o.got && seq == o.seq; }
    std::string s() const { return "(" + H(got) + "," + std::to_string(seq) + ")"; }
};
QList<QPair<Bytes, Bytes>> ok() { return {{"grpc-status", "0"}}; }
std::string codeName(int c) { return std::to_string(c); }

struct Seen { // what a receiver of one subscription or call observed, in order
    std::vector<Msg> msgs;
    std::vector<int> errors;
    std::vector<QString> texts;
    int finished = 0;
    std::string order;
};
struct World {
    std::shared_ptr<QGrpcHttp2Channel> ch;
    std::unique_ptr<vs::AlphaClient> cl;
    std::vector<int> clientErrors;
    QObject ctx;
    World(const QUrl &url = QUrl(QStringLiteral("http://h:1")), std::unique_ptr<QAbstractGrpcCredentials> c = nullptr)
    {
        if (!c) c = QGrpcInsecureChannelCredentials() | QGrpcInsecureCallCredentials();
        ch = std::make_shared<QGrpcHttp2Channel>(url, std::move(c));
        cl = std::make_unique<vs::AlphaClient>();
        cl->attachChannel(ch);
        listen();
    }
    explicit World(std::shared_ptr<QGrpcHttp2Channel> c) : ch(c), cl(std::make_unique<vs::AlphaClient>()) { cl->attachChannel(ch); listen(); }
    void listen() { QObject::connect(cl.get(), &QAbstractGrpcClient::error, &ctx, [this](const QGrpcStatus &s) { clientErrors.push_back(s.code()); }); }
    ~World() { cl.reset(); vDrain(); ch.reset(); vReset(); }
};
vs::Req req(const Bytes &b) { vs::Req r; r.setAsk(b); return r; }
void watchStream(QGrpcStreamShared s, QObject *ctx, Seen *seen, std::function<void(QGrpcStream *)> hook = {})
{
    QGrpcStream *p = s.get();
    QObject::connect(p, &QGrpcStream::messageReceived, ctx, [p, seen, hook] {
        vs::Res r = p->read<vs::Res>();
        seen->msgs.push_back({r.got(), int(r.seq())});
        seen->order += 'm';
        if (hook) hook(p);
    });
    QObject::connect(p, &QGrpcStream::error, ctx, [seen](const QGrpcStatus &s) { seen->errors.push_back(s.code()); seen->texts.push_back(s.message()); seen->order += 'e'; });
    QObject::connect(p, &QGrpcStream::finished, ctx, [seen] { seen->finished++; seen->order += 'f'; });
}
FakeReply *lastReply() { return Net::i().reqs.empty() ? nullptr : Net::i().reqs.back()->reply; }

// ---- P12 --------------------------------------------------------------------------------------------------------------
enum End { Open, Finish, FinishUnread, FinishFlagFirst, Reset, ResetUnread, Fail, EndN };
const char *endName[] = {"open", "finish", "last chunk unread at finish", "finished flag before the last chunk", "connection closed", "connection closed, last chunk unread", "error", ""};
void delivered(const char *what, const std::vector<Msg> &want, const std::vector<Msg> &got, const std::string &d)
{
    if (want == got) return;
    size_t k = 0;
    while (k < want.size() && k < got.size() && want[k] == got[k]) k++;
    CORE.fail(d + ": " + what + " received " + std::to_string(got.size()) + " of " + std::to_string(want.size()) + " messages, first difference at " + std::to_string(k) + ": wanted " +
              (k < want.size() ? want[k].s() : "nothing") + ", got " + (k < got.size() ? got[k].s() : "nothing"));
}
// plays chunks of `msgs` cut after the given positions; true if all is well
void play(const std::vector<Msg> &msgs, const std::vector<int> &cuts, End end, int abortAt = -1, bool reconnect = false, int lost = 0)
{
    Bytes all;
    std::vector<int> ends;
    for (auto &m : msgs) { all += vFrame(m.enc()); ends.push_back(all.size()); }
    all.chop(lost);
    std::vector<Msg> want;
    for (size_t i = 0; i < msgs.size(); i++) if (ends[i] <= all.size() && (abortAt < 0 || int(i) <= abortAt)) want.push_back(msgs[i]);
    std::string d;
    if (CORE.single() || CORE.samples.size() < 6) {
        d = "messages";
        for (auto &m : msgs) d += " " + m.s();
        d += ", cuts";
        for (int c : cuts) d += " " + std::to_string(c);
        d += std::string(", end: ") + endName[end] + (abortAt >= 0 ? ", cancel in the handler of message " + std::to_string(abortAt) : "") + (lost ? ", " + std::to_string(lost) + " bytes lost" : "");
        CORE.desc = d;
    }
    CORE.sample(d);
    World w;
    Seen seen, viaPtr;
    vs::Res target;
    auto s = w.cl->streamWatch(req("a"), QPointer<vs::Res>(&target));
    vDrain();
    if (!s || Net::i().reqs.size() != 1) { CORE.fail("subscribing does not open exactly one request"); return; }
    int n = 0;
    watchStream(s, &w.ctx, &seen, [&](QGrpcStream *p) {
        viaPtr.msgs.push_back({target.got(), int(target.seq())});
        if (n++ == abortAt) p->abort();
    });
    s.reset();
    QPointer<FakeReply> r = lastReply();
    int from = 0;
    std::vector<Bytes> chunks;
    for (int c : cuts) if (c <= all.size()) { chunks.push_back(all.mid(from, c - from)); from = c; }
    if (from < all.size() || chunks.empty()) chunks.push_back(all.mid(from));
    for (size_t i = 0; i < chunks.size(); i++) {
        bool last = i + 1 == chunks.size();
        if (!r || !Net::i().reqs[0]->open()) break;
        if (last && (end == FinishUnread || end == ResetUnread)) r->arriveSilently(chunks[i]);
        else if (last && end == FinishFlagFirst) r->arriveFinished(chunks[i], ok());
        else r->arrive(chunks[i]);
        CORE.count("transitions");
        if (i & 1) vDrain();
    }
    std::string st = H(all) + "/" + std::to_string(end) + std::to_string(abortAt);
    for (auto &c : chunks) st += "," + std::to_string(c.size());
    CORE.state(st);
    if (r && Net::i().reqs[0]->open()) {
        if (end == Finish || end == FinishUnread) r->end(QNetworkReply::NoError, {}, ok());
        if (end == Reset || end == ResetUnread) r->end(QNetworkReply::RemoteHostClosedError, QStringLiteral("closed"), {});
        if (end == Fail) r->end(QNetworkReply::UnknownNetworkError, QStringLiteral("x"), {});
    }
    vDrain();
    bool aborted = abortAt >= 0 && abortAt < int(want.size());
    if (reconnect && !aborted && (end == Reset || end == ResetUnread || end == Fail)) {
        if (end == Fail) { VDispatcher::self()->fire(); vDrain(); }
        if (Net::i().reqs.size() != 2 || !lastReply()) { CORE.fail(d + ": no new request after the connection was lost"); return; }
        Msg again{"again", 7};
        want.push_back(again);
        Bytes f = vFrame(again.enc());
        for (int i = 0; i < f.size(); i++) lastReply()->arrive(f.mid(i, 1));
        lastReply()->end(QNetworkReply::NoError, {}, ok());
        vDrain();
        if (seen.finished != 1) { CORE.fail(d + ": finished reported " + std::to_string(seen.finished) + " times"); return; }
    }
    delivered("the subscriber", want, seen.msgs, d);
    delivered("the bound message object", want, viaPtr.msgs, d);
    bool fin = aborted || end == Finish || end == FinishUnread || end == FinishFlagFirst;
    if (!reconnect && seen.finished != (fin ? 1 : 0)) CORE.fail(d + ": finished reported " + std::to_string(seen.finished) + " times");
    if (want.size() > 1 || chunks.size() > 1) CORE.count("nontrivial");
    CORE.outcome(seen.order);
}
std::vector<int> cutsOf(quint64 mask) { std::vector<int> r; for (int i = 0; mask; i++, mask >>= 1) if (mask & 1) r.push_back(i + 1); return r; }
void subsets(int n, int maxCuts, const std::function<void(const std::vector<int> &)> &f)
{
    std::vector<int> c;
    std::function<void(int)> rec = [&](int from) {
        f(c);
        if (int(c.size()) == maxCuts) return;
        for (int i = from; i < n; i++) { c.push_back(i); rec(i + 1); c.pop_back(); }
    };
    rec(1);
}
Msg kind(int k, int i)
{
    switch (k) {
    case 0: return {};                                        // empty message
    case 1: return {{}, i + 1};                               // 2 bytes
    case 2: return {Bytes(1, char('a' + i)), 0};              // 3 bytes
    case 3: return {Bytes("\0\0\0\0\2\x10\1", 7), i + 1};     // looks like a frame inside
    case 4: return {Bytes(5, '\0'), 0};
    default: return {Bytes(20, char(i)), i + 1};
    }
}
void p12()
{
    bool th = CORE.thorough();
    int full = th ? 16 : 13, few = th ? 5 : 4;
    for (int kinds = 0; kinds < 2; kinds++) {
        int K = kinds ? 6 : 3, maxLen = kinds ? 2 : (th ? 4 : 3);
        for (int len = 1; len <= maxLen; len++) {
            std::vector<int> k(size_t(len), 0);
            while (true) {
                std::vector<Msg> m;
                int n = 0;
                bool fresh = !kinds;
                for (int i = 0; i < len; i++) { m.push_back(kind(k[size_t(i)], i)); n += 5 + m.back().enc().size(); if (k[size_t(i)] > 2) fresh = true; }
                if (fresh) for (int e = 0; e < Fail; e++) {
                    int mc = n <= full ? 99 : n <= 22 ? few : n <= 32 ? 3 : 2;
                    subsets(n, mc, [&](const std::vector<int> &c) { if (CORE.want()) play(m, c, End(e)); });
                }
                int p = 0;
                while (p < len && ++k[size_t(p)] == K) k[size_t(p++)] = 0;
                if (p == len) break;
            }
        }
    }
    // cancel in the handler of each message
    for (int a = 0; a < 3; a++) for (int e = 0; e < Fail; e++) for (int ks = 0; ks < 8; ks++) {
        std::vector<Msg> m;
        int n = 0;
        for (int i = 0; i < 3; i++) { m.push_back(kind(ks >> i & 1, i)); n += 5 + m.back().enc().size(); }
        subsets(n, th ? 5 : 3, [&](const std::vector<int> &c) { if (CORE.want()) play(m, c, End(e), a); });
    }
    // the connection breaks at every byte, the next one starts afresh (also when the new reply lives at the old address)
    for (int reuse = 0; reuse < 2; reuse++) for (End e : {Reset, ResetUnread, Fail}) for (int ks = 0; ks < 9; ks++) {
        std::vector<Msg> m{kind(ks / 3, 0), kind(ks % 3, 1)};
        int n = 0;
        for (auto &x : m) n += 5 + x.enc().size();
        for (int lost = 0; lost < n; lost++) subsets(n - lost, th ? 3 : 2, [&](const std::vector<int> &c) {
            if (!CORE.want()) return;
            Net::i().reuse = reuse;
            play(m, c, e, -1, true, lost);
            Net::i().reuse = false;
        });
    }
    // many messages in one chunk, and byte by byte
    for (int n = 1; n <= 300; n += n < 40 ? 1 : 13) for (int step : {0, 1, 4, 5, 6, 7, 64}) for (int e = 0; e < Fail; e++) {
        if (!CORE.want()) continue;
        std::vector<Msg> m;
        std::vector<int> c;
        int t = 0;
        for (int i = 0; i < n; i++) { m.push_back(kind(i % 3, i % 100)); t += 5 + m.back().enc().size(); }
        if (step) for (int i = step; i < t; i += step) c.push_back(i);
        play(m, c, End(e));
    }
    // large messages: sizes around every byte of the length prefix, cuts around the frame boundaries, uniform chunks
    for (int size : {119, 120, 121, 245, 246, 247, 248, 249, 250, 251, 252, 253, 254, 255, 256, 257, 508, 512, 16380, 16384, 65527, 65528, 65529, 65530, 65531, 65532, 65533, 65534, 65535, 65536, 65540, 131072, 1 << 20, (1 << 24) - 6, 1 << 24}) {
        std::vector<Msg> m{{{}, 1}, {Bytes(size, 'z'), 2}, {"t", 3}};
        int a = vFrame(m[0].enc()).size(), b = a + vFrame(m[1].enc()).size(), n = b + vFrame(m[2].enc()).size();
        for (int e = 0; e < Fail; e++) {
            if (size > 70000 && e != Finish && e != Open) continue;
            std::set<int> p;
            for (int i = -6; i <= 6; i++) { if (a + i > 0) p.insert(a + i); p.insert(b + i); p.insert((a + b) / 2 + i); }
            std::vector<int> pos(p.begin(), p.end());
            for (size_t i = 0; i < pos.size(); i++) for (size_t j = i; j < pos.size(); j++) {
                if (size > 70000 && j != i && j != i + 1) continue;
                if (!CORE.want()) continue;
                play(m, i == j ? std::vector<int>{pos[i]} : std::vector<int>{pos[i], pos[j]}, End(e));
            }
            for (int step : {1, 3, 5, 7, 100, 1000, 4096, 16384, 65535, 65536}) {
                if (n / step > 3000) continue;
                if (!CORE.want()) continue;
                std::vector<int> c;
                for (int i = step; i < n; i += step) c.push_back(i);
                play(m, c, End(e));
            }
        }
    }
}
// two subscriptions, every interleaving of their chunks and ends
void p12two()
{
    const int shapesN = 6;
    CORE.paths(3, 3, [&] {
        World w;
        Seen seen[2];
        Bytes pending[2];
        std::vector<Msg> want[2];
        bool done[2] = {false, false};
        QPointer<FakeReply> r[2];
        for (int i = 0; i < 2; i++) {
            auto s = i ? w.cl->streamWatch(req("b")) : w.cl->streamFollow(req("a"));
            vDrain();
            watchStream(s, &w.ctx, &seen[i]);
            r[i] = lastReply();
            for (int k = 0; k < 2; k++) { Msg m = kind(k ? 1 : 2, i * 10 + k); want[i].push_back(m); pending[i] += vFrame(m.enc()); }
        }
        // chunks of each: first 3 bytes (inside a header), up to inside the second frame, the rest
        static const int shapes[6][8] = {{3, 8, 2, 99}, {5, 3, 5, 99}, {8, 4, 99}, {1, 1, 1, 1, 1, 99}, {4, 2, 4, 99}, {7, 1, 99}};
        int step[2] = {0, 0};
        const int *sizes = shapes[CORE.choose(shapesN)];
        std::string d;
        while (!(done[0] && done[1])) {
            std::vector<int> can;
            for (int i = 0; i < 2; i++) if (!done[i]) { can.push_back(i * 2); if (pending[i].isEmpty()) continue; can.push_back(i * 2 + 1); }
            int a = can[size_t(CORE.choose(int(can.size())))];
            int i = a / 2;
            d += " " + std::to_string(a);
            CORE.desc = d;
            if (a & 1) { // everything at once, unread at the end of the stream
                r[i]->arriveSilently(pending[i]);
                pending[i].clear();
                r[i]->end(QNetworkReply::NoError, {}, ok());
                done[i] = true;
            } else if (pending[i].isEmpty()) {
                r[i]->end(QNetworkReply::NoError, {}, ok());
                done[i] = true;
            } else {
                int n = sizes[step[i]++];
                r[i]->arrive(pending[i].left(n));
                pending[i] = pending[i].mid(n);
            }
            vDrain();
            if (CORE.failed) return;
        }
        for (int i = 0; i < 2; i++) {
            delivered(i ? "stream 2" : "stream 1", want[i], seen[i].msgs, "interleaving" + d);
            if (seen[i].finished != 1 || !seen[i].errors.empty()) CORE.fail("interleaving" + d + ": stream ended with " + seen[i].order);
        }
        CORE.count("nontrivial");
        CORE.state(d);
        CORE.outcome(seen[0].order + "|" + seen[1].order);
    });
}

// ---- P13 --------------------------------------------------------------------------------------------------------------
// network error -> status code, as documented at the top of qgrpchttp2channel.cpp (kept here independently)
struct NE { QNetworkReply::NetworkError e; int code; };
const NE netErrors[] = {
    {QNetworkReply::ConnectionRefusedError, 14}, {QNetworkReply::RemoteHostClosedError, 14}, {QNetworkReply::HostNotFoundError, 14}, {QNetworkReply::TimeoutError, 4},
    {QNetworkReply::OperationCanceledError, 14}, {QNetworkReply::SslHandshakeFailedError, 7}, {QNetworkReply::TemporaryNetworkFailureError, 2}, {QNetworkReply::NetworkSessionFailedError, 14},
    {QNetworkReply::BackgroundRequestNotAllowedError, 2}, {QNetworkReply::TooManyRedirectsError, 14}, {QNetworkReply::InsecureRedirectError, 7}, {QNetworkReply::UnknownNetworkError, 2},
    {QNetworkReply::ProxyConnectionRefusedError, 14}, {QNetworkReply::ProxyConnectionClosedError, 14}, {QNetworkReply::ProxyNotFoundError, 14}, {QNetworkReply::ProxyTimeoutError, 4},
    {QNetworkReply::ProxyAuthenticationRequiredError, 16}, {QNetworkReply::UnknownProxyError, 2}, {QNetworkReply::ContentAccessDenied, 7}, {QNetworkReply::ContentOperationNotPermittedError, 7},
    {QNetworkReply::ContentNotFoundError, 5}, {QNetworkReply::AuthenticationRequiredError, 7}, {QNetworkReply::ContentReSendError, 15}, {QNetworkReply::ContentConflictError, 3},
    {QNetworkReply::ContentGoneError, 15}, {QNetworkReply::UnknownContentError, 2}, {QNetworkReply::ProtocolUnknownError, 2}, {QNetworkReply::ProtocolInvalidOperationError, 12},
    {QNetworkReply::ProtocolFailure, 2}, {QNetworkReply::InternalServerError, 13}, {QNetworkReply::OperationNotImplementedError, 12}, {QNetworkReply::ServiceUnavailableError, 14},
    {QNetworkReply::UnknownServerError, 2}};
const int NetErrorN = int(sizeof netErrors / sizeof *netErrors);
// one answer of the environment
struct Answer {
    enum K { Good, Status, Error, Undecodable, Tls, Silent } k;
    int v = 0; // status code / index of network error / variant
};
std::string name(const Answer &a)
{
    static const char *n[] = {"OK", "grpc-status ", "network error ", "undecodable reply ", "TLS error", "no answer"};
    return n[a.k] + std::to_string(a.k == Answer::Error ? int(netErrors[a.v].e) : a.v);
}
Msg answerMsg(int who, int v)
{
    if (v == 0) return {Bytes(1, char('A' + who)), 100 + who};
    if (v == 1) return {};
    if (v == 2) return {Bytes(300, char('0' + who)), -1 - who};
    return {Bytes(70000, char('0' + who)), 5};
}
int answerCode(const Answer &a)
{
    switch (a.k) {
    case Answer::Good: return 0;
    case Answer::Status: return a.v % 32;
    case Answer::Error: return netErrors[a.v].code;
    case Answer::Tls: case Answer::Silent: return 14;
    default: return -1; // undecodable
    }
}
// payloads that are no encoding of the response: truncated, overlong, group, reserved wire type; two of them after a good field
Bytes undecodable(int v)
{
    static const Bytes p[] = {Bytes("\x0a\x05" "ab"), Bytes("\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff"), Bytes("\x10"), Bytes("\x0b\x0c\x0f"), Bytes("\x10\x05\x0a\x05" "ab"), Bytes("\x10\x05\x0b\x0c\x0f")};
    return p[v];
}
const int UndecodableN = 6;
// the status for each: what the message itself says about the payload
int undecodableCode(int v)
{
    static QProtobufSerializer ser;
    vs::Res r;
    try { r.deserialize(&ser, undecodable(v)); }
    catch (std::invalid_argument &) { return QGrpcStatus::InvalidArgument; }
    catch (std::out_of_range &) { return QGrpcStatus::OutOfRange; }
    catch (...) { return QGrpcStatus::Internal; }
    return 0;
}
QString answerText(const Answer &a) { return a.k == Answer::Status && a.v < 32 ? QStringLiteral("reason %1").arg(a.v) : QString(); }
// lets the environment give answer a to request q; parts: how the body is cut
void answer(Req &q, const Answer &a, int who, int parts)
{
    QPointer<FakeReply> r = q.reply;
    if (!r || !q.open()) return;
    Bytes body;
    QList<QPair<Bytes, Bytes>> h;
    switch (a.k) {
    case Answer::Good: body = vFrame(answerMsg(who, a.v).enc()); h = ok(); break;
    case Answer::Status: // even with a body, there is no result
        h = {{"grpc-status", Bytes::number(a.v % 32)}};
        if (a.v < 32) h.append({"grpc-message", answerText(a).toUtf8()});
        if (a.v & 1) body = vFrame(answerMsg(who, 0).enc());
        break;
    case Answer::Undecodable:
        h = ok();
        body = vFrame(undecodable(a.v));
        break;
    case Answer::Tls: r->tls(); return;
    case Answer::Error: if (a.v & 1) body = "<html>"; break;
    case Answer::Silent: return;
    }
    int n = body.size();
    std::vector<int> cuts;
    if (parts == 1) cuts = {1};
    if (parts == 2) cuts = {5, qMax(6, n - 1)};
    if (parts == 3) cuts = {3, n};
    int from = 0;
    for (int c : cuts) if (c < n && r && q.open()) { r->arrive(body.mid(from, c - from)); from = c; vDrain(); }
    if (!r || !q.open()) return;
    if (parts == 4) r->arriveSilently(body.mid(from));
    else if (from < n) r->arrive(body.mid(from));
    if (!r || !q.open()) return;
    if (a.k == Answer::Error) r->end(netErrors[a.v].e, QStringLiteral("text"), h);
    else r->end(QNetworkReply::NoError, {}, h);
}
struct Call {
    Seen seen;
    QGrpcCallReplyShared ptr;
    QPointer<QGrpcCallReply> weak;
    bool decodeOnFinish = true;
    bool cb = false; int cbCalls = 0; Msg cbMsg;
};
void watchCall(World &w, Call &c, std::function<void()> onEnd = {})
{
    QGrpcCallReply *p = c.ptr.get();
    c.weak = p;
    Call *cp = &c;
    QObject::connect(p, &QGrpcCallReply::finished, &w.ctx, [cp, p, onEnd] {
        cp->seen.finished++; cp->seen.order += 'f';
        if (cp->decodeOnFinish) { vs::Res r = p->read<vs::Res>(); cp->seen.msgs.push_back({r.got(), int(r.seq())}); }
        if (onEnd) onEnd();
    });
    QObject::connect(p, &QGrpcCallReply::error, &w.ctx, [cp, p, onEnd](const QGrpcStatus &s) {
        cp->seen.errors.push_back(s.code()); cp->seen.texts.push_back(s.message()); cp->seen.order += 'e';
        if (cp->decodeOnFinish) { vs::Res r = p->read<vs::Res>(); cp->seen.msgs.push_back({r.got(), int(r.seq())}); }
        if (onEnd) onEnd();
    });
}
void expectEnd(const std::string &d, const Call &c, const Answer &a, int who, bool aborted)
{
    auto bad = [&](const std::string &t) { CORE.fail(d + ": " + t + " (observed " + c.seen.order + ")"); };
    int ends = c.seen.finished + int(c.seen.errors.size());
    if (ends != 1) { bad("the call ended " + std::to_string(ends) + " times"); return; }
    Msg none;
    if (aborted) {
        if (c.seen.finished || c.seen.errors[0] != 10) bad("an aborted call does not end with Aborted");
        if (c.decodeOnFinish && !(c.seen.msgs[0] == none)) bad("an aborted call yields data");
        return;
    }
    int code = answerCode(a);
    if (a.k == Answer::Undecodable) { if (!c.seen.finished) bad("transport-wise successful call is not finished"); return; }
    if (code == 0) {
        if (!c.seen.finished) { bad("OK answer reported as error " + std::to_string(c.seen.errors[0])); return; }
        if (c.decodeOnFinish && !(c.seen.msgs[0] == answerMsg(who, a.v))) bad("result differs from the server's response: " + c.seen.msgs[0].s());
    } else {
        if (c.seen.finished) { bad("failed call reported as finished"); return; }
        if (c.seen.errors[0] != code) bad("status code " + std::to_string(c.seen.errors[0]) + " instead of " + std::to_string(code));
        if (a.k == Answer::Status && c.seen.texts[0] != answerText(a)) bad("status message is " + c.seen.texts[0].toStdString());
        if (c.decodeOnFinish && !(c.seen.msgs[0] == none)) bad("failed call yields data");
    }
}
std::vector<Answer> answers(bool all)
{
    std::vector<Answer> r;
    for (int v = 0; v < (all ? 4 : 2); v++) r.push_back({Answer::Good, v});
    for (int v = 1; v <= 16; v++) if (all || v == 1 || v == 10 || v == 13) { r.push_back({Answer::Status, v}); if (all) r.push_back({Answer::Status, 32 + v}); }
    for (int v = 0; v < NetErrorN; v++) if (all || v == 1 || v == 4) r.push_back({Answer::Error, v});
    for (int v = 0; v < (all ? UndecodableN : 1); v++) r.push_back({Answer::Undecodable, v});
    r.push_back({Answer::Tls, 0});
    r.push_back({Answer::Silent, 0});
    return r;
}
// one call: every answer x body cutting x time of the answer x point of abort x kind of call
void p13one()
{
    static const int times[] = {0, 1, 5999};
    for (auto &a : answers(true)) for (int parts = 0; parts < 5; parts++) for (int time : times) for (int kind = 0; kind < 4; kind++)
        for (int ab = 0; ab < 7; ab++) {
            // kinds: 0 blocking, 1 asynchronous, 2 asynchronous with the pointer dropped, 3 asynchronous with callback
            // ab: 0 none, 1 at once, 2 before the answer, 3 after half of the body, 4 inside the end notification, 5 after the end, 6 twice
            if ((kind == 0 || kind == 3) && ab) continue;
            if (kind == 2 && ab >= 5) continue;
            if (a.k != Answer::Good && a.k != Answer::Status && parts > 1 && parts < 4) continue;
            if (!CORE.want()) continue;
            std::string d = name(a) + ", body cut " + std::to_string(parts) + ", at " + std::to_string(time) + " ms, kind " + std::to_string(kind) + ", abort " + std::to_string(ab);
            CORE.desc = d;
            CORE.sample(d);
            CORE.state(d);
            World w;
            auto *v = VDispatcher::self();
            bool answered = false;
            auto env = [&] { // the environment moves
                if (!answered && a.k != Answer::Silent) { answered = true; if (v->now < time) v->now = time; answer(*Net::i().reqs.back(), a, 0, parts); }
                else if (!v->fire()) CORE.fail(d + ": waits for ever");
                CORE.count("transitions");
            };
            if (kind == 0) {
                int n = 0;
                v->idle = [&] { if (++n > 50) { CORE.fail(d + ": blocking call does not return"); CORE.finish(); _exit(1); } env(); };
                vs::Res res;
                QGrpcStatus st = w.cl->echo(req("q"), QPointer<vs::Res>(&res));
                v->idle = nullptr;
                int code = answerCode(a);
                if (a.k == Answer::Silent && v->now > 60000) CORE.fail(d + ": unanswered call is not bounded");
                Msg got{res.got(), int(res.seq())};
                if (code >= 0 && st.code() != code) CORE.fail(d + ": blocking call returns " + std::to_string(st.code()) + " instead of " + std::to_string(code));
                if (code < 0 && (st.code() == 0 || st.code() != undecodableCode(a.v))) CORE.fail(d + ": undecodable reply returns " + std::to_string(st.code()) + " instead of " + std::to_string(undecodableCode(a.v)));
                if (code < 0 && !(got == Msg())) CORE.fail(d + ": undecodable reply changed the result");
                if (a.k == Answer::Status && st.message() != answerText(a)) CORE.fail(d + ": status message is " + st.message().toStdString());
                if (code == 0 && !(got == answerMsg(0, a.v))) CORE.fail(d + ": result differs from the response: " + got.s());
                if (code > 0 && !(got == Msg())) CORE.fail(d + ": failed call changed the result");
                if (w.clientErrors.size() != (code ? 1u : 0u) || (code > 0 && w.clientErrors[0] != code)) CORE.fail(d + ": client reported " + std::to_string(w.clientErrors.size()) + " errors");
                CORE.outcome("b" + std::to_string(st.code()));
            } else {
                Call c;
                bool aborted = false;
                c.decodeOnFinish = a.k != Answer::Undecodable;
                if (kind == 3) {
                    Call *cp = &c;
                    w.cl->echo(req("q"), &w.ctx, [cp](QGrpcCallReplyShared r) { cp->cbCalls++; vs::Res x = r->read<vs::Res>(); cp->cbMsg = {x.got(), int(x.seq())}; });
                } else {
                    c.ptr = w.cl->echo(req("q"));
                    if (!c.ptr) { CORE.fail(d + ": no reply object"); continue; }
                    QGrpcCallReply *p = c.ptr.get();
                    watchCall(w, c, [&, p] { if (ab == 4) p->abort(); });
                    if (kind == 2) c.ptr.reset();
                }
                auto doAbort = [&] { if (c.weak) { if (!(c.seen.finished + c.seen.errors.size())) aborted = true; c.weak->abort(); } };
                if (ab == 1) doAbort();
                vDrain();
                if (Net::i().reqs.size() != 1) { CORE.fail(d + ": " + std::to_string(Net::i().reqs.size()) + " requests for one call"); continue; }
                if (ab == 2) { doAbort(); vDrain(); }
                if (ab == 3 && lastReply()) { lastReply()->arrive(vFrame(answerMsg(0, 0).enc()).left(6)); vDrain(); doAbort(); vDrain(); }
                if (ab == 6) { doAbort(); doAbort(); vDrain(); doAbort(); }
                for (int k = 0; k < 10 && (!answered || !v->timers.isEmpty()); k++) {
                    if (a.k == Answer::Silent && v->timers.isEmpty()) break;
                    env();
                    vDrain();
                    if (v->now > 60000) break;
                }
                if (ab == 5) { doAbort(); vDrain(); }
                if (kind == 3) {
                    if (answerCode(a) > 0 ? c.cbCalls != 0 : c.cbCalls != 1) CORE.fail(d + ": callback called " + std::to_string(c.cbCalls) + " times");
                    if (answerCode(a) == 0 && c.cbCalls == 1 && !(c.cbMsg == answerMsg(0, a.v))) CORE.fail(d + ": callback got " + c.cbMsg.s());
                } else expectEnd(d, c, a, 0, aborted);
                if (answerCode(a) > 0 && !aborted && (w.clientErrors.size() != 1 || w.clientErrors[0] != answerCode(a))) CORE.fail(d + ": client reported " + std::to_string(w.clientErrors.size()) + " errors");
                if (answerCode(a) == 0 && !aborted && !w.clientErrors.empty()) CORE.fail(d + ": client reported an error for a successful call");
                if (a.k == Answer::Undecodable && !aborted && kind != 3) {
                    if (!w.clientErrors.empty()) CORE.fail(d + ": error before reading");
                }
                if (aborted && Net::i().openIds().size()) CORE.fail(d + ": the request of an aborted call stays open");
                if (Net::i().openIds().size()) CORE.fail(d + ": a request stays open after the end of the call");
                CORE.outcome(c.seen.order + std::to_string(c.seen.errors.empty() ? 0 : c.seen.errors[0]));
            }
            if (a.k != Answer::Good || ab || parts) CORE.count("nontrivial");
        }
    // undecodable results of asynchronous calls are reported when they are read
    for (int v = 0; v < UndecodableN; v++) {
        if (!CORE.want()) continue;
        World w;
        Call c;
        c.ptr = w.cl->echo(req("q"));
        watchCall(w, c);
        answer(*Net::i().reqs.back(), {Answer::Undecodable, v}, 0, 0);
        vDrain();
        if (w.clientErrors.size() != 1 || w.clientErrors[0] == 0 || w.clientErrors[0] != undecodableCode(v)) CORE.fail("undecodable reply " + std::to_string(v) + " read without error, or with another than " + std::to_string(undecodableCode(v)));
        CORE.count("nontrivial");
    }
}
// status messages: every text over an alphabet, encoded as the gRPC protocol says (lower and upper case digits), and every raw text of a careless peer
static int hexDigit(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
void p13text()
{
    auto one = [&](const Bytes &header, const QString &text, int kind) {
        std::string d = "grpc-message " + header.toStdString() + " kind " + std::to_string(kind);
        CORE.desc = d;
        World w;
        auto *v = VDispatcher::self();
        QList<QPair<Bytes, Bytes>> h = {{"grpc-status", "9"}, {"grpc-message", header}};
        QString got;
        int n = 0;
        if (kind == 0) {
            v->idle = [&] { if (++n > 5) { CORE.fail(d + ": blocking call does not return"); CORE.finish(); _exit(1); } Net::i().reqs.back()->reply->end(QNetworkReply::NoError, {}, h); };
            vs::Res res;
            QGrpcStatus st = w.cl->echo(req("q"), QPointer<vs::Res>(&res));
            v->idle = nullptr;
            n = st.code() == 9;
            got = st.message();
        } else {
            Seen seen;
            Call c;
            QGrpcStreamShared s;
            if (kind == 1) { c.ptr = w.cl->echo(req("q")); watchCall(w, c); }
            else { s = w.cl->streamWatch(req("a")); QObject::connect(s.get(), &QGrpcStream::error, &w.ctx, [&](const QGrpcStatus &st) { n = st.code() == 9; got = st.message(); }); }
            vDrain();
            Net::i().reqs.back()->reply->end(QNetworkReply::NoError, {}, h);
            vDrain();
            if (kind == 1) { n = c.seen.errors.size() == 1 && c.seen.errors[0] == 9; if (n) got = c.seen.texts[0]; }
        }
        if (n != 1) CORE.fail(d + ": no error with the status of the server");
        else if (got != text) CORE.fail(d + ": the message is " + got.toUtf8().toHex().toStdString() + " instead of " + text.toUtf8().toHex().toStdString());
        CORE.count("transitions");
        CORE.state(d);
    };
    static const char *al[] = {"a", "%", "4", "\xc3\xa4", " ", "\xe2\x82\xac", "\n", "\xf0\x9f\x98\x80"};
    int len = CORE.thorough() ? 4 : 3;
    for (int l = 0, n = 1; l <= len; l++, n *= 8) for (int i = 0; i < n; i++) {
        if (!CORE.want()) continue;
        Bytes t;
        for (int k = 0, x = i; k < l; k++, x /= 8) t += al[x % 8];
        for (int up = 0; up < 2; up++) {
            Bytes h;
            for (char c : t) if (c >= 0x20 && c <= 0x7e && c != '%') h += c; else { h += '%'; h += up ? Bytes(1, c).toHex().toUpper() : Bytes(1, c).toHex(); }
            for (int kind = 0; kind < 3; kind++) one(h, QString::fromUtf8(t), kind);
        }
        if (i) CORE.count("nontrivial");
    }
    // raw text: what is no valid sequence stands for itself
    for (int l = 1, n = 5; l <= len + 1; l++, n *= 5) for (int i = 0; i < n; i++) {
        if (!CORE.want()) continue;
        Bytes t, e;
        for (int k = 0, x = i; k < l; k++, x /= 5) t += "a%4Gz"[x % 5];
        for (int k = 0; k < t.size(); k++)
            if (t[k] == '%' && k + 2 < t.size() && hexDigit(t[k + 1]) >= 0 && hexDigit(t[k + 2]) >= 0) { e += char(hexDigit(t[k + 1]) * 16 + hexDigit(t[k + 2])); k += 2; }
            else e += t[k];
        for (int kind = 0; kind < 3; kind++) one(t, QString::fromUtf8(e), kind);
        CORE.count("nontrivial");
    }
}
// several calls at once: every order of answers, aborts, time-outs and a blocking call meanwhile, destruction of the client
void p13many()
{
    auto ans = answers(false);
    int N = 3;
    CORE.paths(4, 4, [&] {
        World w;
        auto *v = VDispatcher::self();
        std::vector<std::unique_ptr<Call>> calls;
        std::vector<int> reqOf;
        std::vector<Answer> given;
        std::vector<int> state; // 0 open, 1 answered, 2 aborted
        std::string d = "calls";
        bool clientGone = false;
        int blocking = 0, steps = 0;
        size_t clientErrs = 0;
        auto check = [&] {
            for (size_t i = 0; i < calls.size(); i++) {
                int ends = calls[i]->seen.finished + int(calls[i]->seen.errors.size());
                if (state[i] == 0) { if (ends) CORE.fail(d + ": call " + std::to_string(i) + " ended by itself: " + calls[i]->seen.order); }
                else if (state[i] == 3) { if (ends) CORE.fail(d + ": call " + std::to_string(i) + " notified after its client was destroyed"); }
                else expectEnd(d + ": call " + std::to_string(i), *calls[i], given[i], int(i), state[i] == 2);
            }
            if (!clientGone && w.clientErrors.size() != clientErrs) CORE.fail(d + ": client reported " + std::to_string(w.clientErrors.size()) + " errors instead of " + std::to_string(clientErrs));
        };
        std::function<bool(int)> act = [&](int depth) -> bool { // one move; false: none left
            std::vector<int> m; // encoded moves
            if (!clientGone && int(calls.size()) < N) m.push_back(0);
            if (!clientGone && blocking < 1 && depth < 1 && !calls.empty()) m.push_back(1);
            for (size_t i = 0; i < calls.size(); i++) {
                if (state[i] == 0) { m.push_back(100 + int(i)); m.push_back(300 + int(i)); }
                if (state[i] == 0 && calls[i]->ptr) m.push_back(200 + int(i));
            }
            bool anyOpen = false;
            for (int s : state) if (s == 0) anyOpen = true;
            if (anyOpen) m.push_back(2); // time runs out for the oldest
            if (!clientGone && !calls.empty() && depth == 0 && anyOpen) m.push_back(3);
            if (m.empty() || steps++ >= (CORE.thorough() ? 8 : 7)) return false;
            int c = m[size_t(CORE.choose(int(m.size())))];
            if (c == 0) {
                auto x = std::make_unique<Call>();
                x->ptr = w.cl->echo(req(Bytes(1, char('0' + calls.size()))));
                if (!x->ptr) { CORE.fail("no reply"); return false; }
                watchCall(w, *x);
                calls.push_back(std::move(x));
                reqOf.push_back(int(Net::i().reqs.size()) - 1);
                given.push_back({Answer::Good, 0});
                state.push_back(0);
                d += " +call";
            } else if (c == 1) {
                blocking++;
                d += " blocking[";
                int rq = int(Net::i().reqs.size());
                bool ended = false;
                v->idle = [&] {
                    if (CORE.failed) { CORE.finish(); _exit(1); }
                    // either something else happens meanwhile or the blocking call gets its answer
                    if (!ended && CORE.choose(2) == 0 && act(depth + 1)) { vDrain(); return; }
                    ended = true;
                    if (!Net::i().reqs[size_t(rq)]->open()) { if (v->fire()) return; }
                    answer(*Net::i().reqs[size_t(rq)], {Answer::Good, 0}, 9, 0);
                };
                vs::Res res;
                QGrpcStatus st = w.cl->echo(req("B"), QPointer<vs::Res>(&res));
                v->idle = nullptr;
                d += "]";
                Msg got{res.got(), int(res.seq())};
                if (Net::i().reqs[size_t(rq)]->finished) {
                    if (st.code() != 0 || !(got == answerMsg(9, 0))) CORE.fail(d + ": blocking call returned " + std::to_string(st.code()) + " " + got.s());
                } else {
                    if (st.code() == 0) CORE.fail(d + ": blocking call without answer returned OK");
                    clientErrs++;
                }
            } else if (c == 2) {
                d += " time";
                qint64 due = v->nextDue();
                if (due < 0 || due > 60000) { CORE.fail(d + ": unanswered calls have no deadline"); return false; }
                // every call that is due now
                v->fire();
                vDrain();
                for (size_t i = 0; i < calls.size(); i++) if (state[i] == 0 && !Net::i().reqs[size_t(reqOf[i])]->open()) { state[i] = 1; given[i] = {Answer::Silent, 0}; clientErrs++; }
            } else if (c == 3) {
                d += " destroy client";
                clientGone = true;
                w.cl.reset();
                for (auto &s : state) if (s == 0) s = 3;
            } else if (c >= 300) {
                size_t i = size_t(c - 300);
                given[i] = {Answer::Error, 4 * (int(i) & 1)};
                d += " fail" + std::to_string(i);
                state[i] = 1; clientErrs++;
                answer(*Net::i().reqs[size_t(reqOf[i])], given[i], int(i), 0);
            } else if (c >= 200) {
                size_t i = size_t(c - 200);
                d += " abort" + std::to_string(i);
                state[i] = 2; clientErrs++;
                calls[i]->ptr->abort();
            } else {
                size_t i = size_t(c - 100);
                given[i] = {Answer::Good, int(i) & 1 ? 2 : 0};
                d += " answer" + std::to_string(i);
                state[i] = 1;
                answer(*Net::i().reqs[size_t(reqOf[i])], given[i], int(i), 0);
            }
            CORE.desc = d;
            vDrain();
            check();
            return !CORE.failed;
        };
        while (act(0)) {}
        // late answers and released pointers have no effect
        for (auto &q : Net::i().reqs) if (q->open()) { answer(*q, {Answer::Good, 0}, 5, 0); vDrain(); }
        for (size_t i = 0; i < calls.size(); i++) if (state[i] == 0) { state[i] = 1; given[i] = {Answer::Good, 0}; calls[i]->decodeOnFinish = false; calls[i]->seen.msgs.clear(); }
        for (size_t i = 0; i < calls.size(); i++) if (clientGone && state[i] == 1 && !calls[i]->decodeOnFinish) state[i] = 3;
        std::string o;
        for (size_t i = 0; i < calls.size(); i++) {
            int ends = calls[i]->seen.finished + int(calls[i]->seen.errors.size());
            if (ends != (state[i] == 3 ? 0 : 1)) CORE.fail(d + ": finally call " + std::to_string(i) + " ended " + std::to_string(ends) + " times");
            o += calls[i]->seen.order + ";";
            calls[i]->ptr.reset();
        }
        vDrain();
        CORE.sample(d);
        CORE.state(d);
        CORE.outcome(o);
        if (calls.size() > 1 || blocking || clientGone) CORE.count("nontrivial");
    });
}

// ---- P14 --------------------------------------------------------------------------------------------------------------
// One subscription (plus a witness that must stay untouched) against a model of its life:
//   Active(request) --message--> Active, --status OK--> Ended(finished), --status/network error--> Waiting(retry), --connection closed--> Active(new request)
//   Waiting --delay--> Active(new request); Active, Waiting --cancel--> Ended(finished); client destroyed --> Gone
// wide: every network error and every status instead of one of each, shorter histories
void p14(bool wide)
{
    int depth = wide ? (CORE.thorough() ? 4 : 3) : CORE.thorough() ? 7 : 6;
    CORE.paths(wide ? 6 : 4, 3, [&] {
        World w;
        auto *v = VDispatcher::self();
        Seen seen, wit;
        enum St { Active, Waiting, Ended, Gone } st = Active;
        int reqs = 2, sent = 0, finished = 0;
        std::vector<int> errors, clientErrors;
        std::vector<Msg> msgs, witMsgs;
        qint64 retryAt = -1;
        int inMsg = 0, inErr = 0;    // 1: cancel inside the next message / error notification, 2: subscribe again there
        bool doMsg = false, doErr = false;
        bool half = false;           // a message is half delivered
        std::string d = "history";
        auto ws = w.cl->streamFollow(req("w"));
        watchStream(ws, &w.ctx, &wit);
        vDrain();
        auto witReq = Net::i().reqs.back();
        const bool blank = wide && CORE.choose(2); // the argument and every other message take no bytes on the wire
        const vs::Req arg = blank ? vs::Req() : req("a");
        if (blank) d += " empty argument:";
        QGrpcStreamShared held = w.cl->streamWatch(arg);
        QPointer<QGrpcStream> weak = held.get();
        vDrain();
        auto hookErr = [&] {
            if (doErr && weak) { doErr = false; weak->abort(); }
        };
        watchStream(held, &w.ctx, &seen, [&](QGrpcStream *p) { if (doMsg) { doMsg = false; p->abort(); } });
        QObject::connect(held.get(), &QGrpcStream::error, &w.ctx, hookErr);
        Msg half0{"half", 77};
        auto cur = [&]() -> Req & { return *Net::i().reqs.back(); };
        auto end = [&](St s) { st = s; half = false; };
        auto errored = [&](int code) {
            errors.push_back(code); clientErrors.push_back(code);
            half = false;
            if (inErr == 1) { inErr = 0; finished++; end(Ended); } else { st = Waiting; retryAt = v->now + 1000; }
        };
        std::shared_ptr<Req> myReq = Net::i().reqs.back();
        for (int k = 0; k < depth && !CORE.failed; k++) {
            std::vector<int> m;
            if (st == Active) for (int x : {0, 1, 2, 3, 4, 5}) m.push_back(x);
            if (st == Active && !half) m.push_back(6);
            if (st != Gone) m.push_back(8);
            if (st != Gone && held) { m.push_back(7); m.push_back(9); }
            if (st == Waiting) m.push_back(10);
            if (st == Active && !inMsg) m.push_back(11);
            if (st == Active && !inErr) m.push_back(12);
            if (st != Gone) m.push_back(13);
            if (st == Active) m.push_back(14);
            if (st != Waiting) m.push_back(15);
            if (m.empty()) break;
            int a = m[size_t(CORE.choose(int(m.size())))];
            Msg x{Bytes(1, char('a' + k)), k};
            if (blank && k % 2 == 0) x = Msg{Bytes(), 0};
            QPointer<FakeReply> r = myReq->reply;
            static const char *names[] = {"message", "server-finish", "status-13", "connection-closed", "network-error", "tls-error", "half-message", "cancel", "destroy-client", "drop-pointer", "retry-delay",
                                          "(cancel in next message)", "(cancel in next error)", "subscribe-again", "message-unread-then-finish", "ten-minutes"};
            d += std::string(" ") + names[a];
            CORE.desc = d;
            auto willMsg = [&](const Msg &y) { msgs.push_back(y); if (inMsg == 1) { inMsg = 0; finished++; end(Ended); return true; } return false; };
            switch (a) {
            case 0:
                if (half) { half = false; if (!willMsg(half0)) willMsg(x); r->arrive(vFrame(half0.enc()).mid(6) + vFrame(x.enc())); }
                else { willMsg(x); r->arrive(vFrame(x.enc())); }
                break;
            case 1: finished++; end(Ended); r->end(QNetworkReply::NoError, {}, ok()); break;
            case 2: {
                int code = wide ? 1 + CORE.choose(16) : 13;
                if (wide) d += "(" + std::to_string(code) + ")";
                errored(code);
                r->end(QNetworkReply::NoError, {}, {{"grpc-status", QByteArray::number(code)}, {"grpc-message", "m"}});
                break;
            }
            case 3: half = false; reqs++; r->end(QNetworkReply::RemoteHostClosedError, QStringLiteral("closed"), {}); break;
            case 4: {
                int i = wide ? CORE.choose(NetErrorN) : 0;
                auto e = netErrors[i].e;
                if (wide) d += "(" + std::to_string(int(e)) + ")";
                if (e == QNetworkReply::RemoteHostClosedError || e == QNetworkReply::OperationCanceledError) { errored(14); r->end(QNetworkReply::ConnectionRefusedError, QStringLiteral("refused"), {}); break; } // moves 3 and 7
                errored(netErrors[i].code);
                r->end(e, QStringLiteral("refused"), {});
                break;
            }
            case 5: errored(14); r->tls(); break;
            case 6: half = true; r->arrive(vFrame(half0.enc()).left(6)); break;
            case 7: if (st == Active || st == Waiting) finished++; if (st != Gone) end(Ended); held->abort(); break;
            case 8: end(Gone); w.cl.reset(); break;
            case 9: held.reset(); break;
            case 10: st = Active; reqs++; while (v->nextDue() >= 0 && v->nextDue() <= retryAt) { v->fire(); vDrain(); } break;
            case 11: inMsg = 1; doMsg = true; break;
            case 12: inErr = 1; doErr = true; break;
            case 13: {
                auto again = w.cl->streamWatch(arg);
                if (st == Ended) { // a new subscription
                    reqs++; st = Active; inMsg = inErr = 0; doMsg = doErr = false;
                    if (again.get() == weak && weak) CORE.fail(d + ": an ended subscription is handed out again");
                    held = again; weak = again.get();
                    watchStream(held, &w.ctx, &seen, [&](QGrpcStream *p) { if (doMsg) { doMsg = false; p->abort(); } });
                    QObject::connect(held.get(), &QGrpcStream::error, &w.ctx, hookErr);
                } else if (again.get() != weak) CORE.fail(d + ": a second subscription is created while the first is alive");
                else if (!held) held = again;
                break;
            }
            case 14:
                if (half) { half = false; if (willMsg(half0)) { r->arriveSilently(vFrame(half0.enc()).mid(6)); r->end(QNetworkReply::NoError, {}, ok()); break; } r->arriveSilently(vFrame(half0.enc()).mid(6)); }
                r->arriveSilently(vFrame(x.enc()));
                if (!willMsg(x)) { finished++; end(Ended); }
                r->end(QNetworkReply::NoError, {}, ok());
                break;
            case 15: for (qint64 t = v->now + 600000; v->nextDue() >= 0 && v->nextDue() <= t;) { v->fire(); vDrain(); } break; // a quiet stream is not an error
            }
            (void)sent; (void)cur;
            vDrain();
            CORE.count("steps");
            // observations
            auto bad = [&](const std::string &t) { CORE.fail(d + ": " + t); };
            if (int(Net::i().reqs.size()) != reqs) { bad(std::to_string(Net::i().reqs.size() - 1) + " requests were made instead of " + std::to_string(reqs - 1)); return; }
            for (auto &q : Net::i().reqs) if (q != witReq) myReq = q;
            int open = 0;
            for (auto &q : Net::i().reqs) if (q != witReq && q->open()) open++;
            if (open != (st == Active ? 1 : 0)) { bad(std::to_string(open) + " open requests, subscription is " + (st == Active ? "active" : st == Waiting ? "waiting to retry" : "over")); return; }
            if (seen.msgs != msgs) { delivered("the subscriber", msgs, seen.msgs, d); return; }
            if (seen.errors != errors) { bad("errors reported to the subscriber: " + std::to_string(seen.errors.size()) + " instead of " + std::to_string(errors.size())); return; }
            if (w.clientErrors != clientErrors) { bad("errors reported by the client: " + std::to_string(w.clientErrors.size()) + " instead of " + std::to_string(clientErrors.size())); return; }
            if (seen.finished != finished) { bad("finished reported " + std::to_string(seen.finished) + " times instead of " + std::to_string(finished)); return; }
            if (st != Gone) {
                if (!witReq->open() || wit.finished || !wit.errors.empty()) { bad("another subscription is affected"); return; }
            } else if (witReq->open()) { bad("request of a destroyed client stays open"); return; }
            CORE.state(std::to_string(st) + "/" + std::to_string(inMsg) + std::to_string(inErr) + std::to_string(half) + std::to_string(!held) + "/" + seen.order.substr(0, 8));
        }
        if (CORE.failed) return;
        // the other subscription still works, and nothing is left to happen for one that is over
        if (st != Gone) {
            witReq->reply->arrive(vFrame(half0.enc()));
            vDrain();
            if (wit.msgs.size() != 1 || !(wit.msgs[0] == half0)) CORE.fail(d + ": another subscription lost its message");
        }
        auto before = seen.order;
        size_t n = Net::i().reqs.size();
        for (int i = 0; i < 20 && v->nextDue() >= 0 && v->nextDue() < 100000; i++) { v->fire(); vDrain(); }
        if ((st == Ended || st == Gone) && (seen.order != before || Net::i().reqs.size() != n)) CORE.fail(d + ": something happens after the end: " + seen.order.substr(before.size()) + ", " + std::to_string(Net::i().reqs.size() - n) + " requests");
        if (st == Waiting && Net::i().reqs.size() != n + 1) CORE.fail(d + ": " + std::to_string(Net::i().reqs.size() - n) + " requests after the retry delay");
        if (st == Active && Net::i().reqs.size() != n) CORE.fail(d + ": " + std::to_string(Net::i().reqs.size() - n) + " more requests while one is open");
        held.reset();
        ws.reset();
        vDrain();
        CORE.sample(d);
        CORE.outcome(seen.order);
        if (seen.order.size() > 1 || st != Active) CORE.count("nontrivial");
    });
}

// ---- P26 --------------------------------------------------------------------------------------------------------------
// Operations of every kind and outcome, alone and overlapping in every order, round after round on one client: what is alive between two rounds does not grow,
// and nothing is left once client and channel are gone.
struct Alive { // objects (Qt's own hooks), heap blocks (sanitizer hooks), timers
    long objects = 0, blocks = 0, timers = 0;
};
static long aliveObjects = 0;
static long aliveBlocks = 0;
// Qt's thread for network configurations works at its own pace: only this thread's doings count
static thread_local bool mine = false;
static void addObject(QObject *) { if (mine) aliveObjects++; }
static void removeObject(QObject *) { if (mine) aliveObjects--; }
static void addBlock(const volatile void *, size_t) { if (mine) aliveBlocks++; }
static void removeBlock(const volatile void *p) { if (mine && p) aliveBlocks--; }
static void hookAlive()
{
    mine = true;
    qtHookData[3] = quintptr(&addObject);    // QHooks::AddQObject
    qtHookData[4] = quintptr(&removeObject); // QHooks::RemoveQObject
#ifdef __SANITIZE_ADDRESS__
    __sanitizer_install_malloc_and_free_hooks(addBlock, removeBlock);
#else
    (void)addBlock; (void)removeBlock;
#endif
}
static Alive alive()
{
    Alive a;
    a.objects = aliveObjects;
    a.blocks = aliveBlocks;
    a.timers = VDispatcher::self()->timers.size();
    return a;
}
struct Op { // an operation of the user as the steps it consists of
    std::vector<std::function<void()>> steps;
};
struct OpKind { const char *name; bool permanent; };
static const OpKind opKinds[] = {
    {"blocking call", false}, {"blocking call that fails", false}, {"blocking call without answer", false},
    {"call", false}, {"call, pointer dropped", false}, {"call that fails", false}, {"call that fails, pointer dropped", false}, {"call with network error", false}, {"call with TLS error", false}, {"aborted call", false},
    {"call without answer", false}, {"call with undecodable answer", false}, {"call with callback", false}, {"call with callback that fails", false}, {"call with callback without answer", false},
    {"stream that ends", false}, {"stream that ends, pointer dropped", false}, {"cancelled stream", false}, {"stream cancelled in its handler", false}, {"stream that fails, recovers and ends", false},
    {"stream cancelled while it waits", false}, {"stream that is reconnected and ends", false}, {"stream with half a message", false}, {"stream into an object", false}, {"stream into an object that dies", false},
    {"shared stream", false}, {"unread data at the end", false}, {"stream with TLS error", false},
    {"message of a lasting stream", true}, {"failure of a lasting stream", true}, {"reconnection of a lasting stream", true}, {"second use of a lasting stream", true},
};
const int OpKindN = int(sizeof opKinds / sizeof *opKinds);
struct OpWorld {
    World w;
    int slot = 0; // distinguishes overlapping operations
    std::shared_ptr<Req> lasting() { for (auto &q : Net::i().reqs) if (q->open() && q->request.url().path().endsWith("/follow")) return q; return nullptr; }
    QGrpcStreamShared last;
    OpWorld(std::shared_ptr<QGrpcHttp2Channel> c) : w(c) { last = w.cl->streamFollow(req("lasting")); vDrain(); }
    void wait(qint64 ms) { auto *v = VDispatcher::self(); for (qint64 t = v->now + ms; v->nextDue() >= 0 && v->nextDue() <= t;) { v->fire(); vDrain(); } }
    Op make(int k, int id)
    {
        struct St { QGrpcCallReplyShared r; QGrpcStreamShared s, s2; std::shared_ptr<Req> q; std::unique_ptr<vs::Res> o; };
        auto st = std::make_shared<St>();
        auto cl = w.cl.get();
        Bytes arg = "op" + Bytes::number(id);
        auto blocking = [=](Answer a) {
            auto *v = VDispatcher::self();
            size_t n = Net::i().reqs.size();
            bool answered = false;
            v->idle = [&] { if (!answered && a.k != Answer::Silent) { answered = true; answer(*Net::i().reqs[n], a, 0, 0); } else if (!v->fire()) { CORE.fail(CORE.desc + ": blocking call waits for ever"); CORE.finish(); _exit(1); } };
            vs::Res res;
            cl->echo(req(arg), QPointer<vs::Res>(&res));
            v->idle = nullptr;
        };
        auto call = [=](bool drop, bool cb = false) {
            size_t had = Net::i().reqs.size();
            if (cb) cl->echo(req(arg), &w.ctx, [](QGrpcCallReplyShared r) { r->read<vs::Res>(); });
            else st->r = cl->echo(req(arg));
            if (Net::i().reqs.size() == had) { CORE.fail(CORE.desc + ": a call makes no request"); return; }
            st->q = Net::i().reqs.back();
            if (st->r) QObject::connect(st->r.get(), &QGrpcCallReply::finished, &w.ctx, [] {});
            if (st->r) QObject::connect(st->r.get(), &QGrpcCallReply::error, &w.ctx, [] {});
            if (drop) st->r.reset();
        };
        auto fin = [=](Answer a) { return [=] { if (st->q) answer(*st->q, a, 0, 1); vDrain(); st->r.reset(); st->q.reset(); }; };
        auto silent = [=] { wait(60000); st->r.reset(); st->q.reset(); };
        auto sub = [=](int target = 0) {
            size_t had = Net::i().reqs.size();
            if (target) st->o = std::make_unique<vs::Res>();
            st->s = target ? cl->streamWatch(req(arg), QPointer<vs::Res>(st->o.get())) : cl->streamWatch(req(arg));
            if (!st->s || Net::i().reqs.size() == had) { CORE.fail(CORE.desc + ": a subscription makes no request"); return; }
            st->q = Net::i().reqs.back();
        };
        auto find = [=] { auto q = st->q; if (!q) return; for (auto &x : Net::i().reqs) if (x->open() && x->body == q->body && x->request.url() == q->request.url()) st->q = x; };
        auto msg = [=] { if (st->q && st->q->reply) st->q->reply->arrive(vFrame(Msg{"m", 1}.enc())); };
        auto ended = [=] { if (st->q && st->q->reply) st->q->reply->end(QNetworkReply::NoError, {}, ok()); vDrain(); st->s.reset(); st->s2.reset(); st->o.reset(); st->q.reset(); };
        auto failed = [=] { if (st->q && st->q->reply) st->q->reply->end(QNetworkReply::NoError, {}, {{"grpc-status", "13"}}); };
        auto cancel = [=] { if (st->s) st->s->abort(); vDrain(); st->s.reset(); st->s2.reset(); st->o.reset(); st->q.reset(); };
        switch (k) {
        case 0: return {{[=] { blocking({Answer::Good, 2}); }}};
        case 1: return {{[=] { blocking({Answer::Status, 13}); }}};
        case 2: return {{[=] { blocking({Answer::Silent, 0}); }}};
        case 3: return {{[=] { call(false); }, fin({Answer::Good, 2})}};
        case 4: return {{[=] { call(true); }, fin({Answer::Good, 0})}};
        case 5: return {{[=] { call(false); }, fin({Answer::Status, 5})}};
        case 6: return {{[=] { call(true); }, fin({Answer::Status, 5})}};
        case 7: return {{[=] { call(false); }, fin({Answer::Error, 0})}};
        case 8: return {{[=] { call(false); }, fin({Answer::Tls, 0})}};
        case 9: return {{[=] { call(false); }, [=] { if (st->r) st->r->abort(); vDrain(); st->r.reset(); st->q.reset(); }}};
        case 10: return {{[=] { call(false); }, silent}};
        case 11: return {{[=] { call(false); }, [=] { if (st->q) answer(*st->q, {Answer::Undecodable, 0}, 0, 0); if (st->r) st->r->read<vs::Res>(); vDrain(); st->r.reset(); st->q.reset(); }}};
        case 12: return {{[=] { call(false, true); }, fin({Answer::Good, 2})}};
        case 13: return {{[=] { call(false, true); }, fin({Answer::Status, 5})}};
        case 14: return {{[=] { call(false, true); }, silent}};
        case 15: return {{[=] { sub(); msg(); }, ended}};
        case 16: return {{[=] { sub(); st->s.reset(); msg(); }, ended}};
        case 17: return {{[=] { sub(); msg(); }, cancel}};
        case 18: return {{[=] { sub(); auto *p = st->s.get(); if (p) QObject::connect(p, &QGrpcStream::messageReceived, &w.ctx, [p] { p->abort(); }); }, [=] { msg(); vDrain(); st->s.reset(); st->q.reset(); }}};
        case 19: return {{[=] { sub(); failed(); }, [=] { wait(1000); find(); msg(); ended(); }}};
        case 20: return {{[=] { sub(); failed(); }, cancel}};
        case 21: return {{[=] { sub(); if (st->q && st->q->reply) st->q->reply->end(QNetworkReply::RemoteHostClosedError, QStringLiteral("closed"), {}); }, [=] { vDrain(); find(); msg(); ended(); }}};
        case 22: return {{[=] { sub(); if (st->q) st->q->reply->arrive(vFrame(Msg{"m", 1}.enc()).left(6)); }, ended}};
        case 23: return {{[=] { sub(1); msg(); }, ended}};
        case 24: return {{[=] { sub(1); msg(); st->o.reset(); }, [=] { msg(); cancel(); }}};
        case 25: return {{[=] { sub(); st->s2 = cl->streamWatch(req(arg)); msg(); }, ended}};
        case 26: return {{[=] { sub(); if (st->q && st->q->reply) st->q->reply->arriveSilently(vFrame(Msg{"m", 1}.enc())); }, ended}};
        case 27: return {{[=] { sub(); if (st->q && st->q->reply) st->q->reply->tls(); }, cancel}};
        case 28: return {{[=] { if (auto q = lasting()) q->reply->arrive(vFrame(Msg{"m", 1}.enc())); }}};
        case 29: return {{[=] { if (auto q = lasting()) q->reply->end(QNetworkReply::NoError, {}, {{"grpc-status", "13"}}); }, [=] { wait(1000); }}};
        case 30: return {{[=] { if (auto q = lasting()) q->reply->end(QNetworkReply::RemoteHostClosedError, QStringLiteral("closed"), {}); }}};
        default: return {{[=] { auto s = cl->streamFollow(req("lasting")); if (s != last) CORE.fail(CORE.desc + ": second subscription"); }}};
        }
    }
};
void p26()
{
    const int rounds = 8, warm = 4;
    hookAlive();
    const int most = CORE.thorough() ? 3 : 2;
    // warm up what is created once per process
    auto channel = [] { return std::make_shared<QGrpcHttp2Channel>(QUrl(QStringLiteral("http://h:1")), QGrpcInsecureChannelCredentials() | QGrpcInsecureCallCredentials()); };
    CORE.desc = "the first use of every kind of operation";
    { OpWorld o(channel()); for (int k = 0; k < OpKindN && !CORE.failed; k++) { Op op = o.make(k, 0); for (auto &f : op.steps) { f(); vDrain(); } o.wait(1000); vDrain(); } o.last.reset(); }
    if (CORE.failed) return;
    for (int n = 1; n <= most; n++) {
        int total = 1;
        for (int i = 0; i < n; i++) total *= OpKindN;
        for (int c = 0; c < total; c++) for (int order = 0; order < (n == 1 ? 1 : 3); order++) {
            // orders: one after the other, crossing (begin a, begin b, end a, end b), nested (begin a, begin b, end b, end a)
            int ks[3], x = c;
            for (int i = 0; i < n; i++) { ks[i] = x % OpKindN; x /= OpKindN; }
            if (!CORE.want()) continue;
            std::string d;
            for (int i = 0; i < n; i++) d += std::string(i ? order == 0 ? ", then " : order == 1 ? ", crossing " : ", around " : "") + opKinds[ks[i]].name;
            CORE.desc = d;
            CORE.sample(d);
            CORE.state(d);
            if (n > 1) CORE.count("nontrivial");
            long gone[5][2], before = aliveObjects;
            auto ch = channel();
            for (int world = 0; world < 5 && !CORE.failed; world++) {
                {
                    std::vector<Alive> seen;
                    seen.reserve(size_t(rounds));
                    OpWorld o(ch);
                    o.w.clientErrors.reserve(4096);
                    auto drained = [&] { vDrain(); CORE.count("transitions"); };
                    for (int r = 0; r < (world ? 1 : rounds) && !CORE.failed; r++) {
                        {
                            std::vector<Op> ops;
                            for (int i = 0; i < n; i++) ops.push_back(o.make(ks[i], i));
                            if (order == 0) for (auto &op : ops) for (auto &f : op.steps) { f(); drained(); }
                            else {
                                for (auto &op : ops) { op.steps[0](); drained(); }
                                for (int i = 0; i < n; i++) { auto &op = ops[size_t(order == 1 ? i : n - 1 - i)]; for (size_t j = 1; j < op.steps.size(); j++) { op.steps[j](); drained(); } }
                            }
                        }
                        o.wait(10000);
                        drained();
                        if (!o.lasting()) { CORE.fail(d + ": another subscription ended"); break; }
                        auto &q = Net::i().reqs;
                        for (size_t i = q.size(); i-- > 0;) if (!q[i]->reply) q.erase(q.begin() + long(i));
                        seen.push_back(alive());
                        if (!world && Net::i().openIds().size() != 1) { CORE.fail(d + ": " + std::to_string(Net::i().openIds().size() - 1) + " requests are left open"); break; }
                    }
                    if (!world && !CORE.failed) {
                        auto &a = seen[size_t(warm - 1)], &b = seen[size_t(rounds - 1)];
                        if (b.objects - a.objects >= rounds - warm) CORE.fail(d + ": " + std::to_string(b.objects - a.objects) + " objects remain of " + std::to_string(rounds - warm) + " rounds");
                        else if (b.timers - a.timers >= rounds - warm) CORE.fail(d + ": " + std::to_string(b.timers - a.timers) + " timers remain of " + std::to_string(rounds - warm) + " rounds");
                        else if (b.blocks - a.blocks >= rounds - warm) CORE.fail(d + ": " + std::to_string(b.blocks - a.blocks) + " blocks of memory remain of " + std::to_string(rounds - warm) + " rounds");
                    }
                    o.last.reset();
                }
                vReset();
                gone[world][0] = aliveObjects;
                gone[world][1] = aliveBlocks;
            }
            if (CORE.failed) return;
            // what the process creates once and keeps (caches, the harness' own tables) does not come again with every world
            if (gone[4][0] - gone[1][0] >= 3) CORE.fail(d + ": " + std::to_string(gone[4][0] - gone[1][0]) + " objects remain of 3 clients that are gone");
            else if (gone[4][1] - gone[1][1] >= 3) CORE.fail(d + ": " + std::to_string(gone[4][1] - gone[1][1]) + " blocks of memory remain of 3 clients that are gone");
            std::weak_ptr<QGrpcHttp2Channel> weak = ch;
            ch.reset();
            vReset();
            if (!CORE.failed && (!weak.expired() || aliveObjects > before)) CORE.fail(d + ": the channel, or " + std::to_string(aliveObjects - before) + " objects, remain after everything is gone");
        }
    }
}

// ---- P25 --------------------------------------------------------------------------------------------------------------
// ---- P15 over HTTP/2 ---------------------------------------------------------------------------------------------------
// Channels are replaced at any time, also from inside notifications and while a blocking call waits: every call and subscription of the old channel ends
// exactly once, the new channel works.
void p15switch()
{
    int depth = CORE.thorough() ? 7 : 6;
    CORE.paths(4, 3, [&] {
        auto *v = VDispatcher::self();
        struct C { Seen seen; QGrpcCallReplyShared ptr; int st = 0; /* 0 open, 1 answered, 2 failed, 3 ended by the switch */ std::shared_ptr<Req> req; };
        std::vector<std::unique_ptr<C>> calls;
        auto cl = std::make_unique<vs::AlphaClient>();
        QObject ctx;
        Seen sub;
        QGrpcStreamShared held;
        enum { None, Active, Waiting, Ended } st = None;
        int msgs = 0, errs = 0, fins = 0, port = 0;
        qint64 retryAt = 0;
        std::shared_ptr<Req> subReq;
        bool armed = false, gone = false;
        std::string d = "history";
        auto attach = [&] {
            cl->attachChannel(std::make_shared<QGrpcHttp2Channel>(QUrl(QStringLiteral("http://h:%1").arg(++port)), QGrpcInsecureChannelCredentials() | QGrpcInsecureCallCredentials()));
        };
        auto switched = [&] { // what the model expects of a switch
            for (auto &c : calls) if (c->st == 0) c->st = 3;
            if (st == Active || st == Waiting) { st = Ended; fins++; }
        };
        auto notified = [&] { if (armed) { armed = false; d += "{switch}"; CORE.desc = d; attach(); } };
        QObject::connect(cl.get(), &QAbstractGrpcClient::error, &ctx, notified);
        attach();
        int blocking = 0, steps = 0;
        auto willNotify = [&] { if (armed) switched(); };
        auto lastReq = [&] { return Net::i().reqs.back(); };
        auto portOf = [&](const std::shared_ptr<Req> &q) { return q->request.url().port(); };
        std::function<bool(int)> act = [&](int level) -> bool {
            if (steps >= depth || CORE.failed) return false;
            std::vector<int> m;
            if (!gone && calls.size() < 2) m.push_back(0);
            if (!gone && (st == None || st == Ended)) m.push_back(1);
            for (size_t i = 0; i < calls.size(); i++) if (calls[i]->st == 0 && calls[i]->req->open()) { m.push_back(100 + int(i)); m.push_back(200 + int(i)); m.push_back(300 + int(i)); }
            if (st == Active) for (int x : {2, 3, 4, 5}) m.push_back(x);
            if (st == Waiting) m.push_back(6);
            if (!gone) m.push_back(7);
            if (!gone && !armed && (!calls.empty() || st != None)) m.push_back(8);
            if (!gone && blocking < 1 && level == 0) m.push_back(9);
            if (!gone && level == 0 && !calls.empty()) m.push_back(10);
            if (m.empty()) return false;
            steps++;
            int a = m[size_t(CORE.choose(int(m.size())))];
            CORE.count("steps");
            switch (a) {
            case 0: {
                d += " call"; CORE.desc = d;
                calls.push_back(std::make_unique<C>());
                C *c = calls.back().get();
                c->ptr = cl->echo(req("q"));
                if (!c->ptr) { CORE.fail(d + ": no reply"); return false; }
                c->req = lastReq();
                QObject::connect(c->ptr.get(), &QGrpcCallReply::finished, &ctx, [c, notified] { c->seen.finished++; vs::Res r = c->ptr->read<vs::Res>(); c->seen.msgs.push_back({r.got(), int(r.seq())}); notified(); });
                QObject::connect(c->ptr.get(), &QGrpcCallReply::error, &ctx, [c, notified](const QGrpcStatus &s) { c->seen.errors.push_back(s.code()); notified(); });
                break;
            }
            case 1: {
                d += " subscribe"; CORE.desc = d;
                held = cl->streamWatch(req("a"));
                if (!held) { CORE.fail(d + ": no subscription"); return false; }
                st = Active; subReq = lastReq();
                QGrpcStream *p = held.get();
                QObject::connect(p, &QGrpcStream::messageReceived, &ctx, [&, notified] { sub.msgs.push_back({}); notified(); });
                QObject::connect(p, &QGrpcStream::error, &ctx, [&, notified] { sub.errors.push_back(0); notified(); });
                QObject::connect(p, &QGrpcStream::finished, &ctx, [&, notified] { sub.finished++; notified(); });
                break;
            }
            case 2: {
                bool two = CORE.choose(2);
                d += two ? " two-messages" : " message"; CORE.desc = d;
                msgs += two && !armed ? 2 : 1;
                willNotify();
                subReq->reply->arrive(vFrame(Msg{"x", 1}.enc()) + (two ? vFrame(Msg{"y", 2}.enc()) : Bytes()));
                break;
            }
            case 3: d += " stream-error"; CORE.desc = d; errs++; st = Waiting; retryAt = v->now + 1000; willNotify(); subReq->reply->end(QNetworkReply::NoError, {}, {{"grpc-status", "13"}}); break;
            case 4: d += " stream-end"; CORE.desc = d; fins++; st = Ended; willNotify(); subReq->reply->end(QNetworkReply::NoError, {}, ok()); break;
            case 5: d += " cancel"; CORE.desc = d; fins++; st = Ended; willNotify(); held->abort(); break;
            case 6: d += " retry-delay"; CORE.desc = d; st = Active; while (v->nextDue() >= 0 && v->nextDue() <= retryAt) { v->fire(); vDrain(); } subReq = nullptr; for (auto &q : Net::i().reqs) if (q->open() && q->request.url().path().endsWith("/watch")) subReq = q;
                if (!subReq) { CORE.fail(d + ": the subscription is not restored"); return false; }
                break;
            case 7: {
                d += " switch"; CORE.desc = d;
                bool notify = st == Active || st == Waiting;
                for (auto &c : calls) notify |= c->st == 0;
                (void)notify;
                armed = false;
                switched();
                attach();
                break;
            }
            case 8: d += " (switch in next notification)"; armed = true; break;
            case 9: {
                blocking++;
                d += " blocking["; CORE.desc = d;
                size_t rq = Net::i().reqs.size();
                bool answered = false, fail = false;
                v->idle = [&] {
                    if (CORE.failed) { CORE.finish(); _exit(1); }
                    if (!answered && CORE.choose(2) == 0 && act(level + 1)) { vDrain(); return; }
                    if (CORE.failed) { CORE.finish(); _exit(1); }
                    auto q = Net::i().reqs[rq];
                    if (!q->open()) { if (!v->fire()) { CORE.fail(d + ": a blocking call waits for ever"); CORE.finish(); _exit(1); } return; }
                    answered = true;
                    fail = CORE.choose(2);
                    if (fail) { if (armed) switched(); q->reply->end(QNetworkReply::NoError, {}, {{"grpc-status", "13"}}); }
                    else answer(*q, {Answer::Good, 0}, 9, 0);
                };
                vs::Res res;
                QGrpcStatus s = cl->echo(req("B"), QPointer<vs::Res>(&res));
                v->idle = nullptr;
                d += fail ? "failed]" : "]";
                CORE.desc = d;
                Msg got{res.got(), int(res.seq())};
                if (answered && !fail && (s.code() != 0 || !(got == answerMsg(9, 0)))) CORE.fail(d + ": blocking call returned " + std::to_string(s.code()) + " " + got.s());
                if ((fail || !answered) && s.code() == 0) CORE.fail(d + ": failed blocking call returned OK");
                break;
            }
            case 10: d += " destroy-client"; CORE.desc = d; gone = true; armed = false; for (auto &c : calls) if (c->st == 0) c->st = 4; if (st != Ended) st = None; cl.reset(); break;
            default: {
                C &c = *calls[size_t(a % 100)];
                bool willFail = a >= 200;
                d += (a >= 300 ? " abort" : willFail ? " fail" : " answer") + std::to_string(a % 100); CORE.desc = d;
                c.st = a >= 300 ? 2 : willFail ? 2 : 1;
                willNotify();
                if (a >= 300) c.ptr->abort();
                else if (willFail) c.req->reply->end(QNetworkReply::ConnectionRefusedError, QStringLiteral("x"), {});
                else answer(*c.req, {Answer::Good, 0}, 0, 0);
            }
            }
            vDrain();
            if (CORE.failed) return false;
            std::string o;
            for (size_t i = 0; i < calls.size(); i++) {
                C &c = *calls[i];
                int ends = c.seen.finished + int(c.seen.errors.size());
                if (ends != (c.st == 0 || c.st == 4 ? 0 : 1)) { CORE.fail(d + ": call " + std::to_string(i) + " has ended " + std::to_string(ends) + " times"); return false; }
                if (c.st == 1 && (!c.seen.finished || !(c.seen.msgs[0] == answerMsg(0, 0)))) { CORE.fail(d + ": call " + std::to_string(i) + " lost its answer"); return false; }
                if ((c.st == 2 || c.st == 3) && c.seen.finished) { CORE.fail(d + ": call " + std::to_string(i) + " finished without an answer"); return false; }
                o += std::to_string(c.st);
            }
            if (int(sub.msgs.size()) != msgs || int(sub.errors.size()) != errs || sub.finished != fins) {
                CORE.fail(d + ": subscription notified: messages " + std::to_string(sub.msgs.size()) + "/" + std::to_string(msgs) + " errors " + std::to_string(sub.errors.size()) + "/" + std::to_string(errs) + " finished " + std::to_string(sub.finished) + "/" + std::to_string(fins));
                return false;
            }
            if (level == 0) { // requests still open belong to the current channel
                int want = st == Active ? 1 : 0, have = 0;
                for (auto &c : calls) want += c->st == 0;
                for (auto &q : Net::i().reqs) if (q->open()) { have++; if (portOf(q) != port) { CORE.fail(d + ": a request of a replaced channel stays open"); return false; } }
                if (have != want) { CORE.fail(d + ": " + std::to_string(have) + " open requests instead of " + std::to_string(want)); return false; }
            }
            CORE.state(o + "/" + std::to_string(st) + std::to_string(armed) + std::to_string(gone) + "/" + std::to_string(msgs) + std::to_string(errs) + std::to_string(fins) + std::to_string(port));
            CORE.outcome(o + std::to_string(fins));
            return true;
        };
        while (act(0)) {}
        CORE.sample(d);
        if (port > 1) CORE.count("nontrivial");
        armed = false;
        for (auto &c : calls) c->ptr.reset();
        held.reset();
        vDrain();
        cl.reset();
        vDrain();
        vReset();
    });
}

struct ManyCall : QGrpcCallCredentials { // call credentials are asked for every call
    std::shared_ptr<int> n = std::make_shared<int>(0);
    QGrpcCredentialMap operator()() const
    {
        (*n)++;
        return {{QLatin1String("authorization"), QVariant::fromValue(QStringLiteral("Bearer %1").arg(*n))},
                {QLatin1String("x-user"), QVariant::fromValue(QString::fromUtf8("J\xc3\xb6rg"))},
                {QLatin1String("x-number"), QVariant(42)},
                {QLatin1String("x-empty"), QVariant::fromValue(QStringLiteral(""))}};
    }
};
struct SslChan : QGrpcChannelCredentials {
    QGrpcCredentialMap channelCredentials() const
    {
        QSslConfiguration c;
        c.setPeerVerifyDepth(7);
        c.setPeerVerifyMode(QSslSocket::QueryPeer);
        return {{QLatin1String(SslConfigCredential), QVariant::fromValue(c)}, {QLatin1String("other"), QVariant(1)}};
    }
};
void p25()
{
    struct U { const char *url, *host; int port; const char *scheme; };
    static const U urls[] = {{"http://h:1", "h", 1, "http"}, {"http://example.org", "example.org", -1, "http"}, {"//h:3", "h", 3, "http"}, {"http://[::1]:5", "::1", 5, "http"}, {"http://h:1/base/path", "h", 1, "http"},
                             {"https://h:2", "h", 2, "https"}, {"https://sec.example.org/x", "sec.example.org", -1, "https"}};
    // every size up to 600 and around the larger powers of two
    std::vector<int> sizes;
    for (int i = 0; i <= 600; i++) sizes.push_back(i);
    for (int b : {1024, 4096, 16384, 32768, 65536, 1 << 17, 1 << 20, 1 << 24}) for (int k = -9; k <= 9; k++) sizes.push_back(b + k);
    for (size_t u = 0; u < sizeof urls / sizeof *urls; u++) for (int cred = 0; cred < 4; cred++) for (int kind = 0; kind < 8; kind++) for (size_t z = 0; z < sizes.size(); z++) {
        bool dense = (u == 0 && (cred == 0 || cred == 3)) || (u == 5 && cred == 1);
        if (!dense && sizes[z] != 0 && sizes[z] != 1 && sizes[z] != 250 && sizes[z] != 65536) continue;
        if (sizes[z] > 70000 && (cred || kind > 4)) continue;
        if (!CORE.want()) continue;
        const U &U0 = urls[u];
        bool tls = QByteArray(U0.scheme) == "https";
        std::string d = std::string(U0.url) + ", credentials " + std::to_string(cred) + ", kind " + std::to_string(kind) + ", argument of " + std::to_string(sizes[z]) + " bytes";
        CORE.desc = d;
        CORE.sample(d);
        CORE.state(d);
        std::unique_ptr<QAbstractGrpcCredentials> c;
        std::map<Bytes, Bytes> want;
        ManyCall many;
        if (cred == 0) { if (tls) c = SslChan() | QGrpcInsecureCallCredentials(); else c = QGrpcInsecureChannelCredentials() | QGrpcInsecureCallCredentials(); }
        if (cred == 1 || cred == 2) {
            QString user = cred == 1 ? QStringLiteral("me") : QString::fromUtf8("\xd0\x9c"), pw = cred == 1 ? QStringLiteral("p w:=\"") : QStringLiteral("");
            want["user-name"] = user.toUtf8(); want["user-password"] = pw.toUtf8();
            if (tls && cred == 1) c = QGrpcUserPasswordCredentials<>(user, pw) | QGrpcSslCredentials(SslChan().channelCredentials().value(QLatin1String(SslConfigCredential)).value<QSslConfiguration>());
            else if (tls) c = QGrpcUserPasswordCredentials<>(user, pw) | SslChan(); else c = QGrpcUserPasswordCredentials<>(user, pw) | QGrpcInsecureChannelCredentials();
        }
        if (cred == 3) { if (tls) c = SslChan() | many; else c = QGrpcInsecureChannelCredentials() | many; want["x-user"] = "J\xc3\xb6rg"; want["x-number"] = "42"; want["x-empty"] = ""; }
        World w(QUrl(QString::fromUtf8(U0.url)), std::move(c));
        auto *v = VDispatcher::self();
        Bytes arg(sizes[z], 'k');
        for (int i = 0; i < arg.size(); i += 97) arg[i] = char(i);
        Bytes enc;
        if (!arg.isEmpty()) { enc += char(0x0a); varint(enc, quint64(arg.size())); enc += arg; }
        const char *path = "/vs.Alpha/echo";
        vs::Res res;
        QGrpcStreamShared st;
        QGrpcCallReplyShared rep;
        size_t n = 1;
        switch (kind) {
        case 0: v->idle = [&] { if (FakeReply *r = lastReply()) r->end(QNetworkReply::NoError, {}, ok()); }; w.cl->echo(req(arg), QPointer<vs::Res>(&res)); v->idle = nullptr; break;
        case 1: rep = w.cl->echo(req(arg)); break;
        case 2: w.cl->echo(req(arg), &w.ctx, [](QGrpcCallReplyShared) {}); break;
        case 3: st = w.cl->streamWatch(req(arg)); path = "/vs.Alpha/watch"; break;
        case 4: st = w.cl->streamFollow(req(arg), QPointer<vs::Res>(&res)); path = "/vs.Alpha/follow"; break;
        case 5: st = w.cl->streamWatch(req(arg)); path = "/vs.Alpha/watch"; vDrain(); lastReply()->end(QNetworkReply::RemoteHostClosedError, QStringLiteral("x"), {}); n = 2; break;
        case 6: st = w.cl->streamFollow(req(arg)); path = "/vs.Alpha/follow"; vDrain(); lastReply()->end(QNetworkReply::NoError, {}, {{"grpc-status", "14"}}); vDrain(); v->fire(); n = 2; break;
        case 7: for (int i = 0; i < 3; i++) { auto r = w.cl->echo(req(arg)); } n = 3; break;
        }
        vDrain();
        auto bad = [&](const std::string &t) { CORE.fail(d + ": " + t); };
        if (Net::i().reqs.size() != n) { bad(std::to_string(Net::i().reqs.size()) + " requests instead of " + std::to_string(n)); continue; }
        int k = 0;
        for (auto &q : Net::i().reqs) {
            k++;
            CORE.count("transitions");
            QUrl url = q->request.url();
            if (url.scheme() != QLatin1String(U0.scheme)) bad("scheme " + url.scheme().toStdString());
            if (url.host() != QLatin1String(U0.host) || url.port() != U0.port) bad("sent to " + url.toString().toStdString());
            if (url.path() != QLatin1String(path)) bad("path " + url.path().toStdString());
            if (q->op != QNetworkAccessManager::PostOperation) bad("is not a POST");
            if (q->request.rawHeader("content-type") != "application/grpc") bad("content type " + q->request.rawHeader("content-type").toStdString());
            if (q->request.rawHeader("te") != "trailers") bad("te header missing");
            if (!q->request.rawHeader("grpc-accept-encoding").contains("identity")) bad("accepted encodings missing");
            if (!q->request.attribute(QNetworkRequest::Http2DirectAttribute).toBool()) bad("does not speak HTTP/2");
            if (tls && (q->request.sslConfiguration().peerVerifyDepth() != 7 || q->request.sslConfiguration().peerVerifyMode() != QSslSocket::QueryPeer)) bad("ssl configuration is not used");
            for (auto &h : want) if (!q->request.hasRawHeader(h.first) || q->request.rawHeader(h.first) != h.second) bad("credential " + h.first.toStdString() + " is " + q->request.rawHeader(h.first).toStdString());
            if (cred == 3 && q->request.rawHeader("authorization") != "Bearer " + Bytes::number(k)) bad("call credential of request " + std::to_string(k) + " is " + q->request.rawHeader("authorization").toStdString());
            if (q->body != vFrame(enc)) bad("body is " + H(q->body) + " instead of " + H(vFrame(enc)));
        }
        if (sizes[z]) CORE.count("nontrivial");
        CORE.outcome(path);
    }
    // encrypted channels need their configuration
    for (size_t u = 0; u < sizeof urls / sizeof *urls; u++) for (int cred = 0; cred < 2; cred++) {
        if (!CORE.want()) continue;
        bool tls = QByteArray(urls[u].scheme) == "https", refused = false;
        std::unique_ptr<QAbstractGrpcCredentials> c;
        if (cred) c = QGrpcInsecureChannelCredentials() | QGrpcUserPasswordCredentials<>(QStringLiteral("u"), QStringLiteral("p"));
        else c = QGrpcInsecureChannelCredentials() | QGrpcInsecureCallCredentials();
        try { QGrpcHttp2Channel ch(QUrl(QString::fromUtf8(urls[u].url)), std::move(c)); } catch (std::invalid_argument &) { refused = true; }
        if (refused != tls) CORE.fail(std::string(urls[u].url) + (tls ? ": encrypted channel without configuration is accepted" : ": plain channel is refused"));
        CORE.count("nontrivial");
    }
}
}

int main(int argc, char **argv)
{
    CORE.init(argc, argv);
    vApp(argc, argv);
    if (CORE.mode == "P12") p12();
    else if (CORE.mode == "P12two") p12two();
    else if (CORE.mode == "P13") p13one();
    else if (CORE.mode == "P13many") p13many();
    else if (CORE.mode == "P13text") p13text();
    else if (CORE.mode == "P14") p14(false);
    else if (CORE.mode == "P14wide") p14(true);
    else if (CORE.mode == "P26") p26();
    else if (CORE.mode == "P15switch") p15switch();
    else if (CORE.mode == "P25") p25();
    else { fprintf(stderr, "unknown mode\n"); return 3; }
    return CORE.finish();
}
