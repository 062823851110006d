#include "evkit.h"
#include <dlfcn.h>

extern Q_CORE_EXPORT uint qGlobalPostedEventsCount();
bool VDispatcher::hasPendingEvents() { return qGlobalPostedEventsCount() > 0; }

namespace {
class FakeNam : public QNetworkAccessManager {
public:
    using QNetworkAccessManager::QNetworkAccessManager;
protected:
    QNetworkReply *createRequest(Operation op, const QNetworkRequest &request, QIODevice *data) override
    {
        auto q = std::make_shared<Req>();
        q->id = int(Net::i().reqs.size());
        q->request = request;
        q->op = op;
        q->time = VDispatcher::self()->now;
        if (data) q->body = data->readAll();
        Net::i().reqs.push_back(q);
        auto *r = new FakeReply(q);
        r->setParent(this); // as QNetworkReplyHttpImpl: replies die with their manager
        return r;
    }
};
bool faking = false;
void *fakeVptr()
{
    static void *v = [] {
        bool was = faking;
        faking = true; // plain construction
        FakeNam *n = new FakeNam;
        void *p = *reinterpret_cast<void **>(n);
        delete n;
        faking = was;
        return p;
    }();
    return v;
}
void construct(const char *sym, void *self, QObject *parent)
{
    typedef void (*Ctor)(void *, QObject *);
    Ctor real = reinterpret_cast<Ctor>(dlsym(RTLD_NEXT, sym));
    if (!real) { fprintf(stderr, "no %s\n", sym); _exit(3); }
    real(self, parent);
    if (!faking) *reinterpret_cast<void **>(self) = fakeVptr();
}
}
// every network access manager of the process becomes a FakeNam, however it is used (post, put, sendCustomRequest, ...)
extern "C" void vNamC1(void *self, QObject *parent) __asm__("_ZN21QNetworkAccessManagerC1EP7QObject");
extern "C" void vNamC2(void *self, QObject *parent) __asm__("_ZN21QNetworkAccessManagerC2EP7QObject");
extern "C" __attribute__((visibility("default"))) void vNamC1(void *self, QObject *parent) { construct("_ZN21QNetworkAccessManagerC1EP7QObject", self, parent); }
extern "C" __attribute__((visibility("default"))) void vNamC2(void *self, QObject *parent) { construct("_ZN21QNetworkAccessManagerC2EP7QObject", self, parent); }

void vDrain()
{
    for (int i = 0; i < 10000; i++) {
        QCoreApplication::sendPostedEvents();
        QCoreApplication::sendPostedEvents(nullptr, QEvent::DeferredDelete);
        if (!qGlobalPostedEventsCount()) return;
    }
    CORE.fail("events are posted without end");
}
void vReset()
{
    vDrain();
    VDispatcher::self()->now = 0;
    VDispatcher::self()->idle = nullptr;
    Net::i().reqs.clear();
}
QCoreApplication *vApp(int &argc, char **argv)
{
    QCoreApplication::setEventDispatcher(new VDispatcher);
    return new QCoreApplication(argc, argv);
}
QByteArray vFrame(const QByteArray &m)
{
    QByteArray r(5, '\0');
    quint32 n = quint32(m.size());
    for (int i = 0; i < 4; i++) r[1 + i] = char(n >> (24 - 8 * i));
    return r + m;
}
