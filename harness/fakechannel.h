// A channel that only records what the client asks of it and lets the harness play the server.
#pragma once
#include "evkit.h"
#include "qabstractgrpcchannel.h"
#include "qabstractgrpcclient.h"
#include "qgrpcstream.h"
#include "qgrpccallreply.h"
#include "qgrpcstatus.h"
#include "qprotobufserializer.h"

struct CountingSerializer : QtProtobuf::QProtobufSerializer {
    mutable std::vector<QObject *> log; // targets of whole-message decodes, in order
protected:
    void deserializeMessage(QObject *o, const QtProtobuf::QProtobufMetaObject &m, const QByteArray &d) const override
    {
        log.push_back(o);
        QtProtobuf::QProtobufSerializer::deserializeMessage(o, m, d);
    }
};
struct Sub { // one stream request as the channel sees it
    QPointer<QtProtobuf::QGrpcStream> stream;
    QString method, service;
    QByteArray arg;
    int channel = 0;
    bool open = true;
};
struct PendingCall {
    QPointer<QtProtobuf::QGrpcCallReply> reply;
    QString method, service;
    QByteArray arg;
    int channel = 0;
};
struct ChannelLog {
    std::vector<std::shared_ptr<Sub>> subs;
    std::vector<PendingCall> calls;
    int blocking = 0;
    std::shared_ptr<CountingSerializer> ser = std::make_shared<CountingSerializer>();
    int openCount() const { int n = 0; for (auto &s : subs) n += s->open; return n; }
};
class FakeChannel : public QtProtobuf::QAbstractGrpcChannel {
public:
    ChannelLog *log;
    int id;
    QObject ctx;
    std::function<QtProtobuf::QGrpcStatus(const QString &, const QByteArray &, QByteArray &)> onBlocking;
    FakeChannel(ChannelLog *l, int i) : log(l), id(i) {}
    ~FakeChannel() override {}
    QtProtobuf::QGrpcStatus call(const QString &method, const QString &, const QByteArray &args, QByteArray &ret) override
    {
        log->blocking++;
        if (onBlocking) return onBlocking(method, args, ret);
        return {};
    }
    void call(const QString &method, const QString &service, const QByteArray &args, QtProtobuf::QGrpcCallReply *reply) override { log->calls.push_back({reply, method, service, args, id}); }
    void stream(QtProtobuf::QGrpcStream *s, const QString &service, QtProtobuf::QAbstractGrpcClient *client) override
    {
        auto sub = std::make_shared<Sub>();
        sub->stream = s; sub->method = s->method(); sub->service = service; sub->arg = s->arg(); sub->channel = id;
        log->subs.push_back(sub);
        QObject::connect(s, &QtProtobuf::QGrpcStream::finished, &ctx, [sub] { sub->open = false; });
        QObject::connect(s, &QtProtobuf::QGrpcStream::error, &ctx, [sub] { sub->open = false; });
        QObject::connect(s, &QObject::destroyed, &ctx, [sub] { sub->open = false; });
        (void)client;
    }
    std::shared_ptr<QtProtobuf::QAbstractProtobufSerializer> serializer() const override { return log->ser; }
};
