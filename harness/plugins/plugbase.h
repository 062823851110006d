#pragma once
#include <QObject>
#include <qprotobufserializationplugininterface.h>
#include <qprotobufserializer.h>
// a serializer that tells where it comes from
class PlugSerializer : public QtProtobuf::QProtobufSerializer
{
public:
    QByteArray mark;
    QByteArray serializeMessage(const QObject *, const QtProtobuf::QProtobufMetaObject &) const override { return mark; }
};
inline std::shared_ptr<QtProtobuf::QAbstractProtobufSerializer> plugSerializer(const char *plugin, const QString &n)
{
    auto *s = new PlugSerializer;
    s->mark = QByteArray(plugin) + ":" + n.toUtf8();
    return std::shared_ptr<QtProtobuf::QAbstractProtobufSerializer>(s);
}
