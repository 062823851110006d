// Controlled environment for the event-driven code: virtual time, scripted network, captured requests.
// Nothing here uses code of /repo.
#pragma once
#include "core.h"
#include <QtCore>
#include <QAbstractEventDispatcher>
#include <QNetworkAccessManager>
#include <QNetworkReply>
#include <QSslError>
#include <atomic>
#include <set>

// ---- virtual time ----------------------------------------------------------------------------------------------------
class VDispatcher : public QAbstractEventDispatcher {
public:
    struct T { int id, interval; qint64 due; QObject *o; Qt::TimerType type; };
    QList<T> timers;
    qint64 now = 0;
    bool intr = false;
    std::function<void()> idle; // called when somebody waits and nothing is pending: the environment has to move
    static VDispatcher *&self() { static VDispatcher *d = nullptr; return d; }
    VDispatcher() { self() = this; }
    bool processEvents(QEventLoop::ProcessEventsFlags flags) override
    {
        intr = false;
        emit awake();
        // events that wait for an outer loop level (deferred deletions) do not count as something to do
        unsigned n = posts;
        bool any = n != handled && hasPendingEvents();
        handled = n;
        QCoreApplication::sendPostedEvents();
        if (intr) return true;
        if (!any && (flags & QEventLoop::WaitForMoreEvents)) {
            emit aboutToBlock();
            if (idle) idle();
            else { fprintf(stderr, "waiting with nothing to wait for\n"); _exit(3); }
            emit awake();
            QCoreApplication::sendPostedEvents();
            return true;
        }
        return any;
    }
    bool hasPendingEvents() override;
    void registerSocketNotifier(QSocketNotifier *) override {}
    void unregisterSocketNotifier(QSocketNotifier *) override {}
    void registerTimer(int id, int interval, Qt::TimerType t, QObject *o) override { timers.append({id, interval, now + interval, o, t}); }
    bool unregisterTimer(int id) override
    {
        for (int i = 0; i < timers.size(); i++) if (timers[i].id == id) { timers.removeAt(i); return true; }
        return false;
    }
    bool unregisterTimers(QObject *o) override
    {
        bool r = false;
        for (int i = timers.size(); i-- > 0;) if (timers[i].o == o) { timers.removeAt(i); r = true; }
        return r;
    }
    QList<TimerInfo> registeredTimers(QObject *o) const override
    {
        QList<TimerInfo> r;
        for (auto &t : timers) if (t.o == o) r.append(TimerInfo(t.id, t.interval, t.type));
        return r;
    }
    int remainingTime(int id) override { for (auto &t : timers) if (t.id == id) return int(qMax<qint64>(0, t.due - now)); return -1; }
    std::function<void()> onWake; // called by whichever thread posts an event
    std::atomic<unsigned> posts{0};
    unsigned handled = 0;
    void wakeUp() override { posts++; if (onWake) onWake(); }
    void interrupt() override { intr = true; }
    void flush() override {}
    // fires the earliest timer; false when there is none
    bool fire()
    {
        int best = -1;
        for (int i = 0; i < timers.size(); i++) if (best < 0 || timers[i].due < timers[best].due) best = i;
        if (best < 0) return false;
        T t = timers[best];
        now = qMax(now, t.due);
        timers[best].due = now + qMax(1, t.interval);
        QTimerEvent e(t.id);
        QCoreApplication::sendEvent(t.o, &e);
        return true;
    }
    qint64 nextDue() const { qint64 d = -1; for (auto &t : timers) if (d < 0 || t.due < d) d = t.due; return d; }
};

// ---- scripted network -------------------------------------------------------------------------------------------------
struct Wire; // one request as the network sees it
class FakeReply;
struct Req {
    int id = 0;
    QNetworkRequest request;
    QNetworkAccessManager::Operation op = QNetworkAccessManager::UnknownOperation;
    QByteArray body;
    qint64 time = 0;
    FakeReply *reply = nullptr;   // null once deleted
    bool finished = false;        // the network ended it
    bool closed = false;          // the application closed it (abort, close or deletion before the end)
    bool open() const { return !finished && !closed; }
};
struct Net {
    std::vector<std::shared_ptr<Req>> reqs;
    bool reuse = false; // hand out the address of a deleted reply again as soon as possible
    std::vector<int> openIds() const { std::vector<int> r; for (auto &q : reqs) if (q->open()) r.push_back(q->id); return r; }
    static Net &i() { static Net n; return n; }
};
class FakeReply : public QNetworkReply {
public:
    std::shared_ptr<Req> r;
    QByteArray buf;
    explicit FakeReply(std::shared_ptr<Req> q) : r(q)
    {
        setRequest(q->request);
        setOperation(q->op);
        setUrl(q->request.url());
        q->reply = this;
        QNetworkReply::open(QIODevice::ReadOnly | QIODevice::Unbuffered);
    }
    int emitting = 0; // QNetworkReply: "Do not delete the object in the slot connected to this signal"
    struct Emit { QPointer<FakeReply> p; Emit(FakeReply *x) : p(x) { x->emitting++; } ~Emit() { if (p) p->emitting--; } };
    ~FakeReply() override
    {
        if (emitting) CORE.fail(CORE.desc + ": a network reply is deleted inside its own notification");
        if (!r->finished) r->closed = true;
        r->reply = nullptr;
    }
    static void *operator new(size_t n)
    {
        auto &p = pool();
        if (Net::i().reuse && !p.empty()) { void *x = p.back(); p.pop_back(); return x; }
        return ::operator new(n);
    }
    static void operator delete(void *x) { if (Net::i().reuse) pool().push_back(x); else ::operator delete(x); }
    static std::vector<void *> &pool() { static std::vector<void *> p; return p; }
    bool isSequential() const override { return true; }
    qint64 bytesAvailable() const override { return buf.size() + QNetworkReply::bytesAvailable(); }
    void abort() override
    {
        if (isFinished()) return;
        r->closed = true;
        end(OperationCanceledError, QStringLiteral("Operation canceled"), {});
    }
    void close() override { if (!isFinished()) abort(); QNetworkReply::close(); }
    void arrive(const QByteArray &b) { Emit g(this); buf += b; emit readyRead(); }
    void arriveSilently(const QByteArray &b) { buf += b; }
    // the end of the reply is known before the application hears of the last bytes
    void arriveFinished(const QByteArray &b, const QList<QPair<QByteArray, QByteArray>> &headers)
    {
        r->finished = true;
        for (auto &h : headers) setRawHeader(h.first, h.second);
        buf += b;
        setFinished(true);
        QPointer<FakeReply> me(this);
        Emit g(this);
        emit readyRead();
        if (me) emit readChannelFinished();
        if (me) emit finished();
    }
    void tls() { Emit g(this); emit sslErrors({QSslError(QSslError::SelfSignedCertificate)}); }
    void end(NetworkError e, const QString &text, const QList<QPair<QByteArray, QByteArray>> &headers)
    {
        if (isFinished()) return;
        if (!r->closed) r->finished = true;
        for (auto &h : headers) setRawHeader(h.first, h.second);
        QPointer<FakeReply> me(this);
        Emit g(this);
        if (e != NoError) {
            setError(e, text);
            emit errorOccurred(e);
        }
        if (!me) return;
        setFinished(true);
        emit readChannelFinished();
        if (me) emit finished();
    }
protected:
    qint64 readData(char *d, qint64 n) override
    {
        if (buf.isEmpty()) return isFinished() ? -1 : 0;
        n = qMin<qint64>(n, buf.size());
        memcpy(d, buf.constData(), size_t(n));
        buf.remove(0, int(n));
        return n;
    }
};

// ---- world ---------------------------------------------------------------------------------------------------------------
// runs everything that is pending now (time stands still)
void vDrain();
// removes what a history left behind
void vReset();
QCoreApplication *vApp(int &argc, char **argv);
QByteArray vFrame(const QByteArray &message); // gRPC length-prefixed message
