#pragma once
#include "plugbase.h"
class Plug_a : public QObject, QtProtobuf::QProtobufSerializationPluginInterface
{
    Q_OBJECT
    Q_PLUGIN_METADATA(IID SerializatorInterface_iid FILE "pluga.json")
    Q_INTERFACES(QtProtobuf::QProtobufSerializationPluginInterface)
public:
    std::shared_ptr<QtProtobuf::QAbstractProtobufSerializer> serializer(const QString &n) override { return plugSerializer("a", n); }
};
