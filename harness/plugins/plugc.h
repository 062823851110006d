#pragma once
#include "plugbase.h"
class Plug_c : public QObject, QtProtobuf::QProtobufSerializationPluginInterface
{
    Q_OBJECT
    Q_PLUGIN_METADATA(IID SerializatorInterface_iid FILE "plugc.json")
    Q_INTERFACES(QtProtobuf::QProtobufSerializationPluginInterface)
public:
    std::shared_ptr<QtProtobuf::QAbstractProtobufSerializer> serializer(const QString &n) override { return plugSerializer("c", n); }
};
