// P21: what the schema promises about generated clients; filled by the tables sbridge emits.
#pragma once
#include "bridge.h"
#include <QJSValue>
#include <QPointer>
#include <qabstractgrpcclient.h>
#include <qgrpccallreply.h>
#include <qgrpcstream.h>
#include <qgrpcstatus.h>
struct SService {
    std::string name;
    std::function<QtProtobuf::QAbstractGrpcClient *()> create;
    int methods;
    static std::vector<SService *> &all() { static std::vector<SService *> v; return v; }
    SService(const char *n, std::function<QtProtobuf::QAbstractGrpcClient *()> c, int m) : name(n), create(c), methods(m) { all().push_back(this); }
};
struct SMethod {
    std::string service, method, in, out;
    bool streaming, qml;
    VClass inc, outc;
    typedef std::function<void(QtProtobuf::QGrpcCallReplyShared)> Cb;
    std::function<QtProtobuf::QAbstractGrpcClient *()> create;
    std::function<QtProtobuf::QGrpcStatus(QtProtobuf::QAbstractGrpcClient *, QObject *, QObject *)> sync;
    std::function<QtProtobuf::QGrpcCallReplyShared(QtProtobuf::QAbstractGrpcClient *, QObject *)> async;
    std::function<void(QtProtobuf::QAbstractGrpcClient *, QObject *, QObject *, Cb)> callback;
    std::function<void(QtProtobuf::QAbstractGrpcClient *, QObject *, QJSValue, QJSValue)> js;
    std::function<void(QtProtobuf::QAbstractGrpcClient *, QObject *, QObject *, QJSValue)> jsret;
    std::function<QtProtobuf::QGrpcStreamShared(QtProtobuf::QAbstractGrpcClient *, QObject *)> stream;
    std::function<QtProtobuf::QGrpcStreamShared(QtProtobuf::QAbstractGrpcClient *, QObject *, QObject *)> bound, invoked;
    std::function<QObject *(QtProtobuf::QGrpcCallReplyShared)> readReply;
    std::function<QObject *(QtProtobuf::QGrpcStreamShared)> readStream;
    static std::vector<SMethod> &all() { static std::vector<SMethod> v; return v; }
};
template<class M, bool S> struct SBind;
template<class M> struct SBind<M, false> {
    static void bind(SMethod &m)
    {
        typedef typename M::Client C; typedef typename M::In I; typedef typename M::Out O;
        m.sync = [](QtProtobuf::QAbstractGrpcClient *c, QObject *a, QObject *r) { return M::sync(static_cast<C *>(c), *static_cast<I *>(a), QPointer<O>(static_cast<O *>(r))); };
        m.async = [](QtProtobuf::QAbstractGrpcClient *c, QObject *a) { return M::async(static_cast<C *>(c), *static_cast<I *>(a)); };
        m.callback = [](QtProtobuf::QAbstractGrpcClient *c, QObject *a, QObject *x, SMethod::Cb f) { M::callback(static_cast<C *>(c), *static_cast<I *>(a), x, f); };
        m.js = [](QtProtobuf::QAbstractGrpcClient *c, QObject *a, QJSValue f, QJSValue e) { M::js(static_cast<C *>(c), static_cast<I *>(a), f, e); };
        m.jsret = [](QtProtobuf::QAbstractGrpcClient *c, QObject *a, QObject *r, QJSValue e) { M::jsret(static_cast<C *>(c), static_cast<I *>(a), static_cast<O *>(r), e); };
        m.readReply = [](QtProtobuf::QGrpcCallReplyShared r) -> QObject * { return new O(r->template read<O>()); };
    }
};
template<class M> struct SBind<M, true> {
    static void bind(SMethod &m)
    {
        typedef typename M::Client C; typedef typename M::In I; typedef typename M::Out O;
        m.stream = [](QtProtobuf::QAbstractGrpcClient *c, QObject *a) { return M::plain(static_cast<C *>(c), *static_cast<I *>(a)); };
        m.bound = [](QtProtobuf::QAbstractGrpcClient *c, QObject *a, QObject *r) { return M::bound(static_cast<C *>(c), *static_cast<I *>(a), QPointer<O>(static_cast<O *>(r))); };
        m.invoked = [](QtProtobuf::QAbstractGrpcClient *c, QObject *a, QObject *r) {
            QtProtobuf::QGrpcStreamShared s;
            const QMetaObject *mo = c->metaObject();
            for (int i = 0; i < mo->methodCount(); i++) {
                QMetaMethod mm = mo->method(i);
                if (mm.name() != M::invokable()) continue;
                // as the QML element does it: arguments by the declared parameter types
                I *ai = static_cast<I *>(a); O *ro = static_cast<O *>(r);
                if (mm.parameterCount() != 2) continue;
                QByteArray t0 = mm.parameterTypes()[0], t1 = mm.parameterTypes()[1], rt = mm.typeName();
                mm.invoke(c, Qt::DirectConnection, QGenericReturnArgument(rt.constData(), &s), QGenericArgument(t0.constData(), &ai), QGenericArgument(t1.constData(), &ro));
                return s;
            }
            return s;
        };
        m.readStream = [](QtProtobuf::QGrpcStreamShared r) -> QObject * { return new O(r->template read<O>()); };
    }
};
template<class M> bool sMethod()
{
    SMethod m;
    m.service = M::service(); m.method = M::method(); m.streaming = M::streaming; m.qml = M::qml;
    m.create = []() -> QtProtobuf::QAbstractGrpcClient * { return new typename M::Client; };
    m.inc = vbClass<typename M::In>(); m.outc = vbClass<typename M::Out>();
    SBind<M, M::streaming>::bind(m);
    SMethod::all().push_back(m);
    return true;
}
