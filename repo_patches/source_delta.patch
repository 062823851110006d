From 5d1446c274a2cbd9fd326b472971ebd9f853ae82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:38 +0000
Subject: [PATCH 01/48] fix: check lengths, varints and fixed size fields
 against the data left before reading them

The binary deserializer copied length-delimited data before checking that it fits the buffer, read fixed size
values and varints beyond the end of the buffer, let lengths of 2^31 and more move the iterator backwards, cut lengths
to 32 bits and accepted varints of any size.
---
 src/protobuf/qprotobufselfcheckiterator.h | 11 ++++++---
 src/protobuf/qprotobufserializer.cpp      | 12 ++++------
 src/protobuf/qprotobufserializer_p.h      | 28 +++++++++++++++++++----
 3 files changed, 35 insertions(+), 16 deletions(-)

diff --git a/src/protobuf/qprotobufselfcheckiterator.h b/src/protobuf/qprotobufselfcheckiterator.h
index 6ee7602..78f5f68 100644
--- a/src/protobuf/qprotobufselfcheckiterator.h
+++ b/src/protobuf/qprotobufselfcheckiterator.h
@@ -54,7 +54,12 @@ public:
     explicit operator QByteArray::const_iterator&() { return m_it; }
     explicit operator QByteArray::const_iterator() const { return m_it; }
 
-    char operator *() { return *m_it; }
+    char operator *() {
+        if (m_sizeLeft <= 0) {
+            throw std::out_of_range("Container is less than required fields number. Deserialization failed");
+        }
+        return *m_it;
+    }
 
     QProtobufSelfcheckIterator &operator ++() {
         --m_sizeLeft;
@@ -75,10 +80,10 @@ public:
     }
 
     QProtobufSelfcheckIterator &operator +=(int count) {
-        m_sizeLeft -= count;
-        if (m_sizeLeft < 0) {
+        if (count < 0 || count > m_sizeLeft) {
             throw std::out_of_range("Container is less than required fields number. Deserialization failed");
         }
+        m_sizeLeft -= count;
         m_it += count;
         return *this;
     }
diff --git a/src/protobuf/qprotobufserializer.cpp b/src/protobuf/qprotobufserializer.cpp
index ab6a070..9f61902 100644
--- a/src/protobuf/qprotobufserializer.cpp
+++ b/src/protobuf/qprotobufserializer.cpp
@@ -217,17 +217,13 @@ QProtobufSerializerPrivate::QProtobufSerializerPrivate(QProtobufSerializer *q) :
 
 void QProtobufSerializerPrivate::skipVarint(QProtobufSelfcheckIterator &it)
 {
-    while ((*it) & 0x80) {
-        ++it;
-    }
-    ++it;
+    QProtobufSerializerPrivate::deserializeVarintCommon<uint64_t>(it);
 }
 
 void QProtobufSerializerPrivate::skipLengthDelimited(QProtobufSelfcheckIterator &it)
 {
     //Get length of lenght-delimited field
-    uint32 length = QProtobufSerializerPrivate::deserializeVarintCommon<uint32>(it);
-    it += length;
+    it += QProtobufSerializerPrivate::deserializeLength(it);
 }
 
 int QProtobufSerializerPrivate::skipSerializedFieldBytes(QProtobufSelfcheckIterator &it, WireTypes type)
@@ -289,7 +285,7 @@ void QProtobufSerializerPrivate::deserializeProperty(QObject *object, const QPro
     WireTypes wireType = UnknownWireType;
     if (!QProtobufSerializerPrivate::decodeHeader(it, fieldNumber, wireType)) {
         qProtoCritical() << "Message received doesn't contains valid header byte. "
-                            "Trying next, but seems stream is broken" << QString::number((*it), 16);
+                            "Trying next, but seems stream is broken";
         throw std::invalid_argument("Message received doesn't contains valid header byte. "
                               "Seems stream is broken");
     }
@@ -328,7 +324,7 @@ void QProtobufSerializerPrivate::deserializeMapPair(QVariant &key, QVariant &val
 {
     int mapIndex = 0;
     WireTypes type = WireTypes::UnknownWireType;
-    unsigned int count = QProtobufSerializerPrivate::deserializeVarintCommon<uint32>(it);
+    int count = QProtobufSerializerPrivate::deserializeLength(it);
     qProtoDebug() << __func__ << "count:" << count;
     QProtobufSelfcheckIterator last = it + count;
     while (it != last) {
diff --git a/src/protobuf/qprotobufserializer_p.h b/src/protobuf/qprotobufserializer_p.h
index 2f1e9df..c9b2ab3 100644
--- a/src/protobuf/qprotobufserializer_p.h
+++ b/src/protobuf/qprotobufserializer_p.h
@@ -64,6 +64,8 @@ public:
         WireTypes type;/*!< Serialization WireType */
     };
 
+    static constexpr int MaximumVarintBits = 70;//10 bytes, 7 bits each
+
     using SerializerRegistry = std::unordered_map<int/*metatypeid*/, SerializationHandlers>;
 
     QProtobufSerializerPrivate(QProtobufSerializer *q);
@@ -281,6 +283,9 @@ public:
         V value = 0;
         int k = 0;
         while (true) {
+            if (k >= MaximumVarintBits) {
+                throw std::invalid_argument("Varint is longer than 10 bytes. Seems stream is broken");
+            }
             uint64_t byte = static_cast<uint64_t>(*it);
             value += (byte & 0b01111111) << k;
             k += 7;
@@ -303,8 +308,11 @@ public:
     static void deserializeBasic(QProtobufSelfcheckIterator &it, QVariant &variantValue) {
         qProtoDebug() << __func__ << "currentByte:" << QString::number((*it), 16);
 
-        variantValue = QVariant::fromValue(*(V *)((QByteArray::const_iterator&)it));
-        it += sizeof(V);
+        V value;
+        const char *data = it.data();
+        it += sizeof(V);//throws if less than sizeof(V) bytes left
+        memcpy(&value, data, sizeof(V));
+        variantValue = QVariant::fromValue(value);
     }
 
     template <typename V,
@@ -358,8 +366,7 @@ public:
         qProtoDebug() << __func__ << "currentByte:" << QString::number((*it), 16);
 
         QList<V> out;
-        unsigned int count = deserializeVarintCommon<uint32>(it);
-        QProtobufSelfcheckIterator lastVarint = it + count;
+        QProtobufSelfcheckIterator lastVarint = it + deserializeLength(it);
         while (it != lastVarint) {
             QVariant variantValue;
             deserializeBasic<V>(it, variantValue);
@@ -371,10 +378,21 @@ public:
     //###########################################################################
     //                             Common functions
     //###########################################################################
+    /*!
+     * \brief Reads length of length-delimited field and checks that the field fits the data that is left
+     */
+    static int deserializeLength(QProtobufSelfcheckIterator &it) {
+        uint64_t length = deserializeVarintCommon<uint64_t>(it);
+        if (length > static_cast<uint64_t>(it.size())) {
+            throw std::out_of_range("Container is less than required fields number. Deserialization failed");
+        }
+        return static_cast<int>(length);
+    }
+
     static QByteArray deserializeLengthDelimited(QProtobufSelfcheckIterator &it) {
         qProtoDebug() << __func__ << "currentByte:" << QString::number((*it), 16);
 
-        unsigned int length = deserializeVarintCommon<uint32>(it);
+        int length = deserializeLength(it);
         QByteArray result((QByteArray::const_iterator&)it, length); //TODO: it's possible to avoid buffer copying by setuping new "end of QByteArray";
         it += length;
         return result;
-- 
2.43.0


From 353abe6ec46c5b769395a4720a56ba12a2f3ead4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:38 +0000
Subject: [PATCH 02/48] fix: keep text after an embedded NUL character when
 deserializing strings

QString::fromUtf8(const QByteArray &) stops at the first NUL byte.
---
 src/protobuf/qprotobufserializer.cpp | 2 +-
 src/protobuf/qprotobufserializer_p.h | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/protobuf/qprotobufserializer.cpp b/src/protobuf/qprotobufserializer.cpp
index 9f61902..53bb3a0 100644
--- a/src/protobuf/qprotobufserializer.cpp
+++ b/src/protobuf/qprotobufserializer.cpp
@@ -68,7 +68,7 @@ void QProtobufSerializerPrivate::deserializeList<QString>(QProtobufSelfcheckIter
 
     QStringList list = previousValue.value<QStringList>();
     QByteArray value = deserializeLengthDelimited(it);
-    list.append(QString::fromUtf8(value));
+    list.append(QString::fromUtf8(value.constData(), value.size()));
     previousValue.setValue(list);
 }
 
diff --git a/src/protobuf/qprotobufserializer_p.h b/src/protobuf/qprotobufserializer_p.h
index c9b2ab3..571b855 100644
--- a/src/protobuf/qprotobufserializer_p.h
+++ b/src/protobuf/qprotobufserializer_p.h
@@ -356,7 +356,8 @@ public:
     template <typename V,
               typename std::enable_if_t<std::is_same<QString, V>::value, int> = 0>
     static void deserializeBasic(QProtobufSelfcheckIterator &it, QVariant &variantValue) {
-        variantValue = QVariant::fromValue(QString::fromUtf8(deserializeLengthDelimited(it)));
+        const QByteArray value = deserializeLengthDelimited(it);
+        variantValue = QVariant::fromValue(QString::fromUtf8(value.constData(), value.size()));
     }
 
     //-------------------------List types deserializers--------------------------
-- 
2.43.0


From 371ddadb6815dac5e7c64b7d744ffa39becf53bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:38 +0000
Subject: [PATCH 03/48] fix: merge repeated sub-messages and handle incomplete
 map entries when deserializing

The second occurrence of a sub-message replaced the first one. Map entries without value left a null pointer in maps of
messages, unknown fields of an entry were taken for its value and invalid headers inside an entry were ignored. Objects
allocated for sub-messages leaked if their data was broken.
---
 src/protobuf/qabstractprotobufserializer_p.h | 22 ++++++++++++++------
 src/protobuf/qprotobufserializer.cpp         |  7 ++++++-
 2 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/src/protobuf/qabstractprotobufserializer_p.h b/src/protobuf/qabstractprotobufserializer_p.h
index ee47fc6..2222ca4 100644
--- a/src/protobuf/qabstractprotobufserializer_p.h
+++ b/src/protobuf/qabstractprotobufserializer_p.h
@@ -31,6 +31,7 @@
 #include <QMetaEnum>
 
 #include <functional>
+#include <memory>
 
 #include "qtprotobuftypes.h"
 #include "qtprotobuflogging.h"
@@ -175,8 +176,15 @@ template <typename T,
           typename std::enable_if_t<std::is_base_of<QObject, T>::value, int> = 0>
 void deserializeObject(const QtProtobuf::QAbstractProtobufSerializer *serializer, QtProtobuf::QProtobufSelfcheckIterator &it, QVariant &to) {
     Q_ASSERT_X(serializer != nullptr, "QAbstractProtobufSerializer", "Serializer is null");
-    T *value = new T;
+    //Fields of message that is met several times are merged
+    T *value = to.value<T *>();
+    std::unique_ptr<T> newValue;
+    if (value == nullptr) {
+        newValue.reset(new T);
+        value = newValue.get();
+    }
     serializer->deserializeObject(value, T::protobufMetaObject, it);
+    newValue.release();
     to = QVariant::fromValue<T *>(value);
 }
 
@@ -190,10 +198,10 @@ void deserializeList(const QtProtobuf::QAbstractProtobufSerializer *serializer,
     Q_ASSERT_X(serializer != nullptr, "QAbstractProtobufSerializer", "Serializer is null");
     qProtoDebug() << __func__ << "currentByte:" << QString::number((*it), 16);
 
-    V *newValue = new V;
+    QSharedPointer<V> newValue(new V);
     QList<QSharedPointer<V>> list = previous.value<QList<QSharedPointer<V>>>();
-    if (serializer->deserializeListObject(newValue, V::protobufMetaObject, it)) {
-        list.append(QSharedPointer<V>(newValue));
+    if (serializer->deserializeListObject(newValue.data(), V::protobufMetaObject, it)) {
+        list.append(newValue);
         previous.setValue(list);
     }
 }
@@ -233,10 +241,12 @@ void deserializeMap(const QtProtobuf::QAbstractProtobufSerializer *serializer, Q
 
     auto out = previous.value<QMap<K, QSharedPointer<V>>>();
     QVariant key = QVariant::fromValue<K>(K());
-    QVariant value = QVariant::fromValue<V *>(nullptr);
+    //Entry without value holds default constructed message
+    QSharedPointer<V> newValue(new V);
+    QVariant value = QVariant::fromValue<V *>(newValue.data());
 
     if (serializer->deserializeMapPair(key, value, it)) {
-        out[key.value<K>()] = QSharedPointer<V>(value.value<V *>());
+        out[key.value<K>()] = newValue;
         previous = QVariant::fromValue<QMap<K, QSharedPointer<V>>>(out);
     }
 }
diff --git a/src/protobuf/qprotobufserializer.cpp b/src/protobuf/qprotobufserializer.cpp
index 53bb3a0..62a8c85 100644
--- a/src/protobuf/qprotobufserializer.cpp
+++ b/src/protobuf/qprotobufserializer.cpp
@@ -328,12 +328,17 @@ void QProtobufSerializerPrivate::deserializeMapPair(QVariant &key, QVariant &val
     qProtoDebug() << __func__ << "count:" << count;
     QProtobufSelfcheckIterator last = it + count;
     while (it != last) {
-        QProtobufSerializerPrivate::decodeHeader(it, mapIndex, type);
+        if (!QProtobufSerializerPrivate::decodeHeader(it, mapIndex, type)) {
+            throw std::invalid_argument("Map entry doesn't contain valid header byte. "
+                                        "Seems stream is broken");
+        }
         if (mapIndex == 1) {
             //Only simple types are supported as keys
             int userType = key.userType();
             auto &handler = handlers.at(userType);//throws if not found
             handler.deserializer(it, key);
+        } else if (mapIndex != 2) {
+            QProtobufSerializerPrivate::skipSerializedFieldBytes(it, type);
         } else {
             //TODO: replace with some common function
             int userType = value.userType();
-- 
2.43.0


From 0f680af7f1b73c79ca156497704877d08182a253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:38 +0000
Subject: [PATCH 04/48] fix: accept repeated fields that come in several chunks
 or are not packed

Each chunk of a packed list replaced the elements read before, elements sent without packing were misread.
---
 src/protobuf/qprotobufserializer.cpp | 23 +++++++++++++++++++++--
 src/protobuf/qprotobufserializer_p.h |  2 +-
 2 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/protobuf/qprotobufserializer.cpp b/src/protobuf/qprotobufserializer.cpp
index 62a8c85..5c3d222 100644
--- a/src/protobuf/qprotobufserializer.cpp
+++ b/src/protobuf/qprotobufserializer.cpp
@@ -308,13 +308,32 @@ void QProtobufSerializerPrivate::deserializeProperty(QObject *object, const QPro
     newPropertyValue = metaProperty.read(object);
     int userType = metaProperty.userType();
 
+    //Element of repeated field that is not packed, is packed list that contains the only element
+    QByteArray packedElement;
+    auto packElement = [&packedElement, &it, wireType]() {
+        const char *element = it.data();
+        const int size = QProtobufSerializerPrivate::skipSerializedFieldBytes(it, wireType);
+        packedElement = prependLengthDelimitedSize(QByteArray(element, size));
+        return QProtobufSelfcheckIterator(packedElement);
+    };
+
     //TODO: replace with some common function
     auto basicIt = handlers.find(userType);
     if (basicIt != handlers.end()) {
-        basicIt->second.deserializer(it, newPropertyValue);
+        if (basicIt->second.type == LengthDelimited && wireType != LengthDelimited) {
+            QProtobufSelfcheckIterator elementIt = packElement();
+            basicIt->second.deserializer(elementIt, newPropertyValue);
+        } else {
+            basicIt->second.deserializer(it, newPropertyValue);
+        }
     } else {
         auto handler = QtProtobufPrivate::findHandler(userType);
-        handler.deserializer(q_ptr, it, newPropertyValue);
+        if (handler.type == QtProtobufPrivate::ListHandler && wireType != LengthDelimited) {
+            QProtobufSelfcheckIterator elementIt = packElement();
+            handler.deserializer(q_ptr, elementIt, newPropertyValue);
+        } else {
+            handler.deserializer(q_ptr, it, newPropertyValue);
+        }
     }
 
     metaProperty.write(object, newPropertyValue);
diff --git a/src/protobuf/qprotobufserializer_p.h b/src/protobuf/qprotobufserializer_p.h
index 571b855..c206601 100644
--- a/src/protobuf/qprotobufserializer_p.h
+++ b/src/protobuf/qprotobufserializer_p.h
@@ -366,7 +366,7 @@ public:
     static void deserializeList(QProtobufSelfcheckIterator &it, QVariant &previousValue) {
         qProtoDebug() << __func__ << "currentByte:" << QString::number((*it), 16);
 
-        QList<V> out;
+        QList<V> out = previousValue.value<QList<V>>();
         QProtobufSelfcheckIterator lastVarint = it + deserializeLength(it);
         while (it != lastVarint) {
             QVariant variantValue;
-- 
2.43.0


From 7b44ce89c7cb8b9cc24b107769c43d49b14042af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:38 +0000
Subject: [PATCH 05/48] fix: limit nesting of messages in the deserialized data

A message type that contains itself let the input decide the recursion depth, so deserialization of untrusted data could
exhaust the stack.
---
 src/protobuf/qprotobufserializer.cpp | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/protobuf/qprotobufserializer.cpp b/src/protobuf/qprotobufserializer.cpp
index 5c3d222..2166fc9 100644
--- a/src/protobuf/qprotobufserializer.cpp
+++ b/src/protobuf/qprotobufserializer.cpp
@@ -29,6 +29,28 @@
 #include "qprotobufmetaproperty.h"
 #include "qprotobufmetaobject.h"
 
+namespace {
+//! \private
+//! Limits nesting of messages to be deserialized, same limit is used by google's implementation of protobuf
+class NestingGuard {
+public:
+    NestingGuard() {
+        if (level >= MaximumNestingLevel) {
+            throw std::invalid_argument("Nesting of messages is too deep. Deserialization failed");
+        }
+        ++level;
+    }
+    ~NestingGuard() {
+        --level;
+    }
+private:
+    Q_DISABLE_COPY(NestingGuard)
+    static constexpr int MaximumNestingLevel = 100;
+    static thread_local int level;
+};
+thread_local int NestingGuard::level = 0;
+}
+
 namespace QtProtobuf {
 
 template<>
@@ -112,6 +134,7 @@ QByteArray QProtobufSerializer::serializeObject(const QObject *object, const QPr
 
 void QProtobufSerializer::deserializeObject(QObject *object, const QProtobufMetaObject &metaObject, QProtobufSelfcheckIterator &it) const
 {
+    NestingGuard guard;
     QByteArray array = QProtobufSerializerPrivate::deserializeLengthDelimited(it);
     deserializeMessage(object, metaObject, array);
 }
-- 
2.43.0


From 120cf0432c06e13e49af5bb85331b7cab2d30b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:50 +0000
Subject: [PATCH 06/48] fix: compare sub-messages once per level of nesting

The generated equality operator compared sub-messages twice when they differ, so comparing, assigning
and deserializing nested messages took time exponential in the depth of nesting.
---
 src/generator/templates.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/generator/templates.cpp b/src/generator/templates.cpp
index 0e42834..9d2c323 100644
--- a/src/generator/templates.cpp
+++ b/src/generator/templates.cpp
@@ -167,8 +167,7 @@ const char *Templates::EmptyEqualOperatorDefinitionTemplate = "bool $classname$:
                                                               "    return true;\n"
                                                               "}\n\n";
 const char *Templates::EqualOperatorPropertyTemplate = "m_$property_name$ == other.m_$property_name$";
-const char *Templates::EqualOperatorMessagePropertyTemplate = "(m_$property_name$ == other.m_$property_name$\n"
-                                                              "    || *m_$property_name$ == *other.m_$property_name$)\n";
+const char *Templates::EqualOperatorMessagePropertyTemplate = "m_$property_name$ == other.m_$property_name$";
 const char *Templates::EqualOperatorRepeatedPropertyTemplate = "QtProtobuf::repeatedValueCompare(m_$property_name$, other.m_$property_name$)";
 
 const char *Templates::NotEqualOperatorDeclarationTemplate = "bool operator !=(const $classname$ &other) const;\n";
-- 
2.43.0


From f7730c04adea6480d8517d4c47ab178e2f361c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:37 +0000
Subject: [PATCH 07/48] fix: keep leading byte order mark of strings when
 deserializing

---
 src/protobuf/qprotobufserializer.cpp |  3 +--
 src/protobuf/qprotobufserializer_p.h | 13 +++++++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/protobuf/qprotobufserializer.cpp b/src/protobuf/qprotobufserializer.cpp
index 2166fc9..7f603f3 100644
--- a/src/protobuf/qprotobufserializer.cpp
+++ b/src/protobuf/qprotobufserializer.cpp
@@ -89,8 +89,7 @@ void QProtobufSerializerPrivate::deserializeList<QString>(QProtobufSelfcheckIter
     qProtoDebug() << __func__ << "currentByte:" << QString::number((*it), 16);
 
     QStringList list = previousValue.value<QStringList>();
-    QByteArray value = deserializeLengthDelimited(it);
-    list.append(QString::fromUtf8(value.constData(), value.size()));
+    list.append(deserializeString(it));
     previousValue.setValue(list);
 }
 
diff --git a/src/protobuf/qprotobufserializer_p.h b/src/protobuf/qprotobufserializer_p.h
index c206601..ee4da1c 100644
--- a/src/protobuf/qprotobufserializer_p.h
+++ b/src/protobuf/qprotobufserializer_p.h
@@ -356,8 +356,7 @@ public:
     template <typename V,
               typename std::enable_if_t<std::is_same<QString, V>::value, int> = 0>
     static void deserializeBasic(QProtobufSelfcheckIterator &it, QVariant &variantValue) {
-        const QByteArray value = deserializeLengthDelimited(it);
-        variantValue = QVariant::fromValue(QString::fromUtf8(value.constData(), value.size()));
+        variantValue = QVariant::fromValue(deserializeString(it));
     }
 
     //-------------------------List types deserializers--------------------------
@@ -399,6 +398,16 @@ public:
         return result;
     }
 
+    static QString deserializeString(QProtobufSelfcheckIterator &it) {
+        const QByteArray data = deserializeLengthDelimited(it);
+        QString result = QString::fromUtf8(data.constData(), data.size());
+        //QString treats leading byte order mark as header and drops it, but it's part of the value
+        if (data.startsWith("\xEF\xBB\xBF")) {
+            result.prepend(QChar(QChar::ByteOrderMark));
+        }
+        return result;
+    }
+
     static QByteArray serializeLengthDelimited(const QByteArray &data) {
         qProtoDebug() << __func__ << "data.size" << data.size() << "data" << data.toHex();
         QByteArray result(data);
-- 
2.43.0


From 650a8015e6334a022e4673bf46f6b52204c06032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:07 +0000
Subject: [PATCH 08/48] fix: deliver every message of HTTP/2 streams however
 its bytes are split

---
 src/grpc/qgrpchttp2channel.cpp | 93 ++++++++++++++++------------------
 1 file changed, 43 insertions(+), 50 deletions(-)

diff --git a/src/grpc/qgrpchttp2channel.cpp b/src/grpc/qgrpchttp2channel.cpp
index 5d02b15..7bb1ae0 100644
--- a/src/grpc/qgrpchttp2channel.cpp
+++ b/src/grpc/qgrpchttp2channel.cpp
@@ -99,17 +99,11 @@ const int GrpcMessageSizeHeaderSize = 5;
 namespace QtProtobuf {
 //! \private
 struct QGrpcHttp2ChannelPrivate {
-    //! \private
-    struct ExpectedData {
-        int expectedSize;
-        QByteArray container;
-    };
-
     QUrl url;
     QNetworkAccessManager nm;
     std::unique_ptr<QAbstractGrpcCredentials> credentials;
     QSslConfiguration sslConfig;
-    std::unordered_map<QNetworkReply *, ExpectedData> activeStreamReplies;
+    std::unordered_map<QNetworkReply *, QByteArray> activeStreamReplies; //! Data of incomplete messages for each active stream
     QObject lambdaContext;
 
     QNetworkReply *post(const QString &method, const QString &service, const QByteArray &args, bool stream = false) {
@@ -192,8 +186,38 @@ struct QGrpcHttp2ChannelPrivate {
         }
     }
 
-    static int getExpectedDataSize(const QByteArray &container) {
-        return qFromBigEndian(*reinterpret_cast<const int *>(container.data() + 1)) + GrpcMessageSizeHeaderSize;
+    static qint64 getExpectedDataSize(const QByteArray &container) {
+        return static_cast<qint64>(qFromBigEndian<quint32>(container.constData() + 1)) + GrpcMessageSizeHeaderSize;
+    }
+
+    //! Reads data available for stream and handles all messages that are complete. The rest is kept till the next chunk.
+    void processStreamData(QNetworkReply *networkReply, QGrpcStream *grpcStream) {
+        auto replyIt = activeStreamReplies.find(networkReply);
+        if (replyIt == activeStreamReplies.end()) {
+            return;
+        }
+
+        QByteArray data = networkReply->readAll();
+        qProtoDebug() << "RECV" << data.size();
+        replyIt->second.append(data);
+
+        //Handlers may finish the stream, so container has to be looked up for each message
+        for (; replyIt != activeStreamReplies.end(); replyIt = activeStreamReplies.find(networkReply)) {
+            QByteArray &container = replyIt->second;
+            if (container.size() < GrpcMessageSizeHeaderSize) {
+                return;
+            }
+
+            qint64 expectedDataSize = getExpectedDataSize(container);
+            if (container.size() < expectedDataSize) {
+                return;
+            }
+
+            qProtoDebug() << "Full data received, container: " << container.size() << " expectedDataSize: " << expectedDataSize;
+            const QByteArray message = container.mid(GrpcMessageSizeHeaderSize, expectedDataSize - GrpcMessageSizeHeaderSize);
+            container.remove(0, expectedDataSize);
+            grpcStream->handler(message);
+        }
     }
 };
 
@@ -277,44 +301,9 @@ void QGrpcHttp2Channel::stream(QGrpcStream *grpcStream, const QString &service,
     std::shared_ptr<QMetaObject::Connection> finishConnection(new QMetaObject::Connection);
     std::shared_ptr<QMetaObject::Connection> abortConnection(new QMetaObject::Connection);
     std::shared_ptr<QMetaObject::Connection> readConnection(new QMetaObject::Connection);
+    dPtr->activeStreamReplies.insert({networkReply, QByteArray{}});
     *readConnection = QObject::connect(networkReply, &QNetworkReply::readyRead, grpcStream, [networkReply, grpcStream, this]() {
-        auto replyIt = dPtr->activeStreamReplies.find(networkReply);
-
-        QByteArray data = networkReply->readAll();
-        qProtoDebug() << "RECV" << data.size();
-
-        if (replyIt == dPtr->activeStreamReplies.end()) {
-            qProtoDebug() << data.toHex();
-            int expectedDataSize = QGrpcHttp2ChannelPrivate::getExpectedDataSize(data);
-            qProtoDebug() << "First chunk received: " << data.size() << " expectedDataSize: " << expectedDataSize;
-
-            if (expectedDataSize == 0) {
-                grpcStream->handler(QByteArray());
-                return;
-            }
-
-            QGrpcHttp2ChannelPrivate::ExpectedData dataContainer{expectedDataSize, QByteArray{}};
-            replyIt = dPtr->activeStreamReplies.insert({networkReply, dataContainer}).first;
-        }
-
-        QGrpcHttp2ChannelPrivate::ExpectedData &dataContainer = replyIt->second;
-        dataContainer.container.append(data);
-
-        qProtoDebug() << "Proceed chunk: " << data.size() << " dataContainer: " << dataContainer.container.size() << " capacity: " << dataContainer.expectedSize;
-        while (dataContainer.container.size() >= dataContainer.expectedSize && !networkReply->isFinished()) {
-            qProtoDebug() << "Full data received: " << data.size() << " dataContainer: " << dataContainer.container.size() << " capacity: " << dataContainer.expectedSize;
-            grpcStream->handler(dataContainer.container.mid(GrpcMessageSizeHeaderSize, dataContainer.expectedSize - GrpcMessageSizeHeaderSize));
-            dataContainer.container.remove(0, dataContainer.expectedSize);
-            if (dataContainer.container.size() > GrpcMessageSizeHeaderSize) {
-                dataContainer.expectedSize = QGrpcHttp2ChannelPrivate::getExpectedDataSize(dataContainer.container);
-            } else if (dataContainer.container.size() > 0) {
-                qProtoWarning() << "Invalid container size received, size header is less than 5 bytes";
-            }
-        }
-
-        if (dataContainer.container.size() < GrpcMessageSizeHeaderSize || networkReply->isFinished()) {
-            dPtr->activeStreamReplies.erase(replyIt);
-        }
+        dPtr->processStreamData(networkReply, grpcStream);
     });
 
     QObject::connect(client, &QAbstractGrpcClient::destroyed, networkReply, [networkReply, finishConnection, abortConnection, readConnection, this]() {
@@ -335,6 +324,12 @@ void QGrpcHttp2Channel::stream(QGrpcStream *grpcStream, const QString &service,
     *finishConnection = QObject::connect(networkReply, &QNetworkReply::finished, grpcStream, [grpcStream, service, networkReply, abortConnection, readConnection, finishConnection, client, this]() {
         QString errorString = networkReply->errorString();
         QNetworkReply::NetworkError networkError = networkReply->error();
+        // Reply may still contain messages that are not handled yet
+        dPtr->processStreamData(networkReply, grpcStream);
+        if (dPtr->activeStreamReplies.find(networkReply) == dPtr->activeStreamReplies.end()) {
+            return; // Stream is finished by handler
+        }
+
         if (*readConnection) {
             QObject::disconnect(*readConnection);
         }
@@ -352,9 +347,6 @@ void QGrpcHttp2Channel::stream(QGrpcStream *grpcStream, const QString &service,
             stream(grpcStream, service, client);
             break;
         case QNetworkReply::NoError: {
-            // Reply is closed without network error, but may contain an unhandled data
-            // TODO: processReply returns the data, that might need the processing. It's should be taken into account in
-            // new HTTP/2 channel implementation.
             QGrpcStatus::StatusCode grpcStatus;
             QGrpcHttp2ChannelPrivate::processReply(networkReply, grpcStatus);
             if (grpcStatus != QGrpcStatus::StatusCode::Ok) {
@@ -370,7 +362,7 @@ void QGrpcHttp2Channel::stream(QGrpcStream *grpcStream, const QString &service,
         }
     });
 
-    *abortConnection = QObject::connect(grpcStream, &QGrpcStream::finished, networkReply, [networkReply, finishConnection, abortConnection, readConnection] {
+    *abortConnection = QObject::connect(grpcStream, &QGrpcStream::finished, networkReply, [networkReply, finishConnection, abortConnection, readConnection, this] {
         if (*finishConnection) {
             QObject::disconnect(*finishConnection);
         }
@@ -380,6 +372,7 @@ void QGrpcHttp2Channel::stream(QGrpcStream *grpcStream, const QString &service,
         if (*abortConnection) {
             QObject::disconnect(*abortConnection);
         }
+        dPtr->activeStreamReplies.erase(networkReply);
         QGrpcHttp2ChannelPrivate::abortNetworkReply(networkReply);
         networkReply->deleteLater();
     });
-- 
2.43.0


From 1b628ab62a9526f6d21680a041e9472a3023a42b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:17:13 +0000
Subject: [PATCH 09/48] fix: do not notify about calls and streams that are
 aborted after their end

---
 src/grpc/qgrpccallreply.cpp |  3 +++
 src/grpc/qgrpccallreply.h   |  7 ++++++-
 src/grpc/qgrpcstream.cpp    | 10 ++++++++--
 src/grpc/qgrpcstream.h      |  1 +
 4 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/grpc/qgrpccallreply.cpp b/src/grpc/qgrpccallreply.cpp
index 094c08c..fd378b1 100644
--- a/src/grpc/qgrpccallreply.cpp
+++ b/src/grpc/qgrpccallreply.cpp
@@ -32,6 +32,9 @@ using namespace QtProtobuf;
 void QGrpcCallReply::abort()
 {
     auto abortFunc = [this]() {
+        if (m_ended) {
+            return;
+        }
         this->setData({});
         this->error({QGrpcStatus::StatusCode::Aborted, QLatin1String("Call aborted by user or timeout")});
     };
diff --git a/src/grpc/qgrpccallreply.h b/src/grpc/qgrpccallreply.h
index 0ff5666..15c38cf 100644
--- a/src/grpc/qgrpccallreply.h
+++ b/src/grpc/qgrpccallreply.h
@@ -76,7 +76,10 @@ public:
 protected:
     //! \private
     QGrpcCallReply(QAbstractGrpcClient *parent) : QGrpcAsyncOperationBase(parent)
-    {}
+    {
+        connect(this, &QGrpcCallReply::finished, this, [this]() { m_ended = true; });
+        connect(this, &QGrpcCallReply::error, this, [this]() { m_ended = true; });
+    }
     //! \private
     ~QGrpcCallReply() = default;
 
@@ -86,5 +89,7 @@ private:
     Q_DISABLE_COPY_MOVE(QGrpcCallReply)
 
     friend class QAbstractGrpcClient;
+
+    bool m_ended = false;
 };
 }
diff --git a/src/grpc/qgrpcstream.cpp b/src/grpc/qgrpcstream.cpp
index 15301ef..db5c914 100644
--- a/src/grpc/qgrpcstream.cpp
+++ b/src/grpc/qgrpcstream.cpp
@@ -37,6 +37,7 @@ QGrpcStream::QGrpcStream(const QString &method, const QByteArray &arg, const Str
     if (handler) {
         m_handlers.push_back(handler);
     }
+    connect(this, &QGrpcStream::finished, this, [this]() { m_finished = true; });
 }
 
 void QGrpcStream::addHandler(const StreamHandler &handler)
@@ -48,9 +49,14 @@ void QGrpcStream::addHandler(const StreamHandler &handler)
 
 void QGrpcStream::abort()
 {
+    auto abortFunc = [this]() {
+        if (!m_finished) {
+            finished();
+        }
+    };
     if (thread() != QThread::currentThread()) {
-        QMetaObject::invokeMethod(this, &QGrpcStream::finished, Qt::BlockingQueuedConnection);
+        QMetaObject::invokeMethod(this, abortFunc, Qt::BlockingQueuedConnection);
     } else {
-        finished();
+        abortFunc();
     }
 }
diff --git a/src/grpc/qgrpcstream.h b/src/grpc/qgrpcstream.h
index d62f396..392078e 100644
--- a/src/grpc/qgrpcstream.h
+++ b/src/grpc/qgrpcstream.h
@@ -105,6 +105,7 @@ private:
     QString m_method;
     QByteArray m_arg;
     std::vector<StreamHandler> m_handlers;
+    bool m_finished = false;
 };
 
 }
-- 
2.43.0


From 752e5f22d27375ef50118c4a529b475221529255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:08 +0000
Subject: [PATCH 10/48] fix: release replies and streams that outlive their
 client

---
 src/grpc/qabstractgrpcclient.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/grpc/qabstractgrpcclient.cpp b/src/grpc/qabstractgrpcclient.cpp
index 66f8d7b..70c52a9 100644
--- a/src/grpc/qabstractgrpcclient.cpp
+++ b/src/grpc/qabstractgrpcclient.cpp
@@ -105,7 +105,13 @@ QGrpcCallReplyShared QAbstractGrpcClient::call(const QString &method, const QByt
                                       return call(method, arg);
                                   }, Qt::BlockingQueuedConnection, &reply);
     } else if (dPtr->channel) {
-        reply.reset(new QGrpcCallReply(this), [](QGrpcCallReply *reply) { reply->deleteLater(); });
+        //Reply is also deleted together with client, user might keep pointer longer
+        QPointer<QGrpcCallReply> replyGuard(new QGrpcCallReply(this));
+        reply.reset(replyGuard.data(), [replyGuard](QGrpcCallReply *) {
+            if (replyGuard) {
+                replyGuard->deleteLater();
+            }
+        });
 
         auto errorConnection = std::make_shared<QMetaObject::Connection>();
         auto finishedConnection = std::make_shared<QMetaObject::Connection>();
@@ -140,7 +146,13 @@ QGrpcStreamShared QAbstractGrpcClient::stream(const QString &method, const QByte
                                       return stream(method, arg, handler);
                                   }, Qt::BlockingQueuedConnection, &grpcStream);
     } else if (dPtr->channel) {
-        grpcStream.reset(new QGrpcStream(method, arg, handler, this), [](QGrpcStream *stream) { stream->deleteLater(); });
+        //Stream is also deleted together with client, user might keep pointer longer
+        QPointer<QGrpcStream> streamGuard(new QGrpcStream(method, arg, handler, this));
+        grpcStream.reset(streamGuard.data(), [streamGuard](QGrpcStream *) {
+            if (streamGuard) {
+                streamGuard->deleteLater();
+            }
+        });
 
         auto it = std::find_if(std::begin(dPtr->activeStreams), std::end(dPtr->activeStreams), [grpcStream](const QGrpcStreamShared &activeStream) {
            return *activeStream == *grpcStream;
-- 
2.43.0


From e9426361a565e636fb102c2ee6a2a99e5329336b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:20:31 +0000
Subject: [PATCH 11/48] fix: do not restore streams that were cancelled while
 waiting for reconnect

---
 src/grpc/qabstractgrpcclient.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/grpc/qabstractgrpcclient.cpp b/src/grpc/qabstractgrpcclient.cpp
index 70c52a9..5bb06e3 100644
--- a/src/grpc/qabstractgrpcclient.cpp
+++ b/src/grpc/qabstractgrpcclient.cpp
@@ -171,7 +171,9 @@ QGrpcStreamShared QAbstractGrpcClient::stream(const QString &method, const QByte
             //TODO: Make timeout configurable from channel settings
             QTimer::singleShot(1000, this, [this, weakStream, method = grpcStream->method()] {
                 auto stream = weakStream.lock();
-                if (stream) {
+                auto &activeStreams = dPtr->activeStreams;
+                //Stream might be finished while waiting, but still kept by user
+                if (stream && std::find(activeStreams.begin(), activeStreams.end(), stream) != activeStreams.end()) {
                     dPtr->channel->stream(stream.get(), dPtr->service, this);
                 } else {
                     qProtoDebug() << "Stream for " << dPtr->service << "method" << method << " will not be restored by timeout.";
-- 
2.43.0


From 2f8259a478243fad046f2c1d313ce91348df5093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:27 +0000
Subject: [PATCH 12/48] fix: attachChannel iterates over a copy of the active
 streams

---
 src/grpc/qabstractgrpcclient.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/grpc/qabstractgrpcclient.cpp b/src/grpc/qabstractgrpcclient.cpp
index 5bb06e3..407a158 100644
--- a/src/grpc/qabstractgrpcclient.cpp
+++ b/src/grpc/qabstractgrpcclient.cpp
@@ -63,11 +63,12 @@ void QAbstractGrpcClient::attachChannel(const std::shared_ptr<QAbstractGrpcChann
                            "You have to be confident that channel routines are working in the same thread as QAbstractGrpcClient";
         throw std::runtime_error("Call from another thread");
     }
-    for (auto stream : dPtr->activeStreams) {
+    //Aborted streams are removed from the list of active streams, so only copy of the list can be iterated
+    for (auto stream : std::vector<QGrpcStreamShared>(dPtr->activeStreams)) {
         stream->abort();
     }
     dPtr->channel = channel;
-    for (auto stream : dPtr->activeStreams) {
+    for (auto stream : std::vector<QGrpcStreamShared>(dPtr->activeStreams)) {
         stream->abort();
     }
 }
-- 
2.43.0


From f8eaef3e413e864574bee1625a5e46671050746f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:39 +0000
Subject: [PATCH 13/48] fix: allow to add stream handlers while a message is
 handled

---
 src/grpc/qgrpcstream.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/grpc/qgrpcstream.h b/src/grpc/qgrpcstream.h
index 392078e..b190d44 100644
--- a/src/grpc/qgrpcstream.h
+++ b/src/grpc/qgrpcstream.h
@@ -73,7 +73,8 @@ public:
      */
     void handler(const QByteArray& data) {
         setData(data);
-        for (auto handler : m_handlers) {
+        //Handlers might be added while the message is handled
+        for (auto handler : std::vector<StreamHandler>(m_handlers)) {
             handler(data);
         }
         messageReceived();
-- 
2.43.0


From f1419f655513efab181c801942265591f7b9c6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:35 +0000
Subject: [PATCH 14/48] fix: keep GrpcStream enabled when its stream is
 re-initialized

---
 src/grpc/quick/qquickgrpcstream.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/grpc/quick/qquickgrpcstream.cpp b/src/grpc/quick/qquickgrpcstream.cpp
index ca670b9..b8dbf44 100644
--- a/src/grpc/quick/qquickgrpcstream.cpp
+++ b/src/grpc/quick/qquickgrpcstream.cpp
@@ -50,6 +50,8 @@ QQuickGrpcStream::~QQuickGrpcStream()
 void QQuickGrpcStream::updateStream()
 {
     if (m_stream) {
+        //Stream is cancelled to be re-initialized, it should not be handled as finished
+        m_stream->disconnect(this);
         m_stream->abort();
         m_stream.reset();
     }
-- 
2.43.0


From 9095e40061ad9764d7593be822fecb3d5d3854c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:52 +0000
Subject: [PATCH 15/48] fix: GrpcStream does not touch the stream of a
 destroyed client

---
 src/grpc/quick/qquickgrpcstream.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/grpc/quick/qquickgrpcstream.cpp b/src/grpc/quick/qquickgrpcstream.cpp
index b8dbf44..267af45 100644
--- a/src/grpc/quick/qquickgrpcstream.cpp
+++ b/src/grpc/quick/qquickgrpcstream.cpp
@@ -174,5 +174,8 @@ bool QQuickGrpcStream::stream()
 
     connect(m_stream.get(), &QGrpcStream::finished, this, [this](){ m_stream.reset(); setEnabled(false); });
 
+    //Stream is deleted together with client
+    connect(m_stream.get(), &QObject::destroyed, this, [this](){ m_stream.reset(); });
+
     return true;
 }
-- 
2.43.0


From 491f415584ba70f5d664882c036d35346752004e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:12 +0000
Subject: [PATCH 16/48] fix: compare maps of messages with different keys

---
 src/protobuf/qtprotobuftypes.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/protobuf/qtprotobuftypes.h b/src/protobuf/qtprotobuftypes.h
index 0e5968d..e9df126 100644
--- a/src/protobuf/qtprotobuftypes.h
+++ b/src/protobuf/qtprotobuftypes.h
@@ -283,7 +283,7 @@ bool repeatedValueCompare(const QList<QSharedPointer<T>>& a, const QList<QShared
     auto itA = std::begin(a);
     auto itB = std::begin(b);
     while (itA != std::end(a) && itB != std::end(b)) {
-        if (*itA != *itB && *(*itA) != *(*itB)) {
+        if (*itA != *itB && (itA->isNull() || itB->isNull() || *(*itA) != *(*itB))) {
             return false;
         }
         ++itA;
@@ -305,8 +305,12 @@ bool repeatedValueCompare(const QMap<K, QSharedPointer<V>>& a, const QMap<K, QSh
     }
 
     for (auto itA = a.keyValueBegin(); itA != a.keyValueEnd(); ++itA) {
-        if (b.value((*itA).first) != (*itA).second
-                && *(b.value((*itA).first)) != *((*itA).second)) {
+        auto itB = b.find((*itA).first);
+        if (itB == b.end()) {
+            return false;
+        }
+        if (itB.value() != (*itA).second
+                && (itB.value().isNull() || (*itA).second.isNull() || *(itB.value()) != *((*itA).second))) {
             return false;
         }
     }
-- 
2.43.0


From 077241ee0438a6bb52af637b1849afbea3ca0106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:12 +0000
Subject: [PATCH 17/48] fix: notify about enum fields changed by move
 assignment

---
 src/generator/templates.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/generator/templates.cpp b/src/generator/templates.cpp
index 9d2c323..f15fb7b 100644
--- a/src/generator/templates.cpp
+++ b/src/generator/templates.cpp
@@ -149,7 +149,7 @@ const char *Templates::MoveComplexFieldConstructorTemplate = "m_$property_name$
 
 const char *Templates::MoveFieldTemplate = "set$property_name_cap$(std::exchange(other.m_$property_name$, 0));\n"
                                            "other.$property_name$Changed();\n";
-const char *Templates::EnumMoveFieldTemplate = "m_$property_name$ = other.m_$property_name$;\n";
+const char *Templates::EnumMoveFieldTemplate = "set$property_name_cap$(other.m_$property_name$);\n";
 
 const char *Templates::AssignmentOperatorDeclarationTemplate = "$classname$ &operator =(const $classname$ &other);\n";
 const char *Templates::AssignmentOperatorDefinitionTemplate = "$classname$ &$classname$::operator =(const $classname$ &other)\n{\n";
-- 
2.43.0


From 6ef0d4b1c792e2eff0652780fc0251eaee18ed49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:30 +0000
Subject: [PATCH 18/48] fix: sub-messages created on demand may be deleted or
 shared from outside

---
 src/protobuf/qprotobuflazymessagepointer.h | 53 ++++++++++++++--------
 1 file changed, 35 insertions(+), 18 deletions(-)

diff --git a/src/protobuf/qprotobuflazymessagepointer.h b/src/protobuf/qprotobuflazymessagepointer.h
index 0123f77..58ecfa0 100644
--- a/src/protobuf/qprotobuflazymessagepointer.h
+++ b/src/protobuf/qprotobuflazymessagepointer.h
@@ -37,7 +37,9 @@
 template <typename T>
 class QProtobufLazyMessagePointer {//TODO: final?
 public:
-    QProtobufLazyMessagePointer(T *p = nullptr) : m_ptr(p) {}
+    QProtobufLazyMessagePointer(T *p = nullptr) : m_ptr(p) {
+        connectDestroyed();
+    }
 
     virtual ~QProtobufLazyMessagePointer() {
         checkAndRelease();
@@ -45,23 +47,17 @@ public:
     }
 
     typename std::add_lvalue_reference<T>::type operator *() const {
-        if (m_ptr == nullptr) {
-            m_ptr.reset(new T);
-        }
+        createIfNull();
         return *m_ptr;
     }
 
     T *operator->() const noexcept {
-        if (m_ptr == nullptr) {
-            m_ptr.reset(new T);
-        }
-        m_ptr.operator->();
+        createIfNull();
+        return m_ptr.operator->();
     }
 
     T *get() const {
-        if (m_ptr == nullptr) {
-            m_ptr.reset(new T);
-        }
+        createIfNull();
         return m_ptr.get();
     }
 
@@ -79,17 +75,20 @@ public:
     void reset(T *p) const {
         checkAndRelease();
         QObject::disconnect(m_destroyed);
-        m_destroyed = QObject::connect(p, &QObject::destroyed, [this] {
-            QObject::disconnect(m_destroyed);
-            m_ptr.release();
-        });
-
         m_ptr.reset(p);
+        connectDestroyed();
     }
 
-    QProtobufLazyMessagePointer(QProtobufLazyMessagePointer &&other) : m_ptr(std::move(other.m_ptr)) {}
+    QProtobufLazyMessagePointer(QProtobufLazyMessagePointer &&other) : m_ptr(std::move(other.m_ptr)) {
+        QObject::disconnect(other.m_destroyed);
+        connectDestroyed();
+    }
     QProtobufLazyMessagePointer &operator =(QProtobufLazyMessagePointer &&other) {
-        m_ptr = std::move(other.m_ptr);
+        if (this != &other) {
+            QObject::disconnect(other.m_destroyed);
+            reset(other.m_ptr.release());
+        }
+        return *this;
     }
 
     explicit operator bool() const noexcept {
@@ -97,6 +96,24 @@ public:
     }
 
 private:
+    void createIfNull() const {
+        if (m_ptr == nullptr) {
+            m_ptr.reset(new T);
+            connectDestroyed();
+        }
+    }
+
+    void connectDestroyed() const {
+        if (m_ptr == nullptr) {
+            return;
+        }
+        //The object may be deleted by someone else
+        m_destroyed = QObject::connect(m_ptr.get(), &QObject::destroyed, [this] {
+            QObject::disconnect(m_destroyed);
+            m_ptr.release();
+        });
+    }
+
     void checkAndRelease() const {
 #if defined(QT_QML_LIB)
         bool qmlCheck = QQmlEngine::objectOwnership(m_ptr.get()) == QQmlEngine::JavaScriptOwnership;
-- 
2.43.0


From 06ec84fb3eff3562d7f857a564e612313d8327a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:38 +0000
Subject: [PATCH 19/48] fix: looking up a serializer of an unknown plugin
 throws

---
 src/protobuf/qprotobufserializerregistry.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/protobuf/qprotobufserializerregistry.cpp b/src/protobuf/qprotobufserializerregistry.cpp
index ee1a06d..7ce5c45 100644
--- a/src/protobuf/qprotobufserializerregistry.cpp
+++ b/src/protobuf/qprotobufserializerregistry.cpp
@@ -191,7 +191,7 @@ std::shared_ptr<QAbstractProtobufSerializer> QProtobufSerializerRegistry::getSer
 
 std::shared_ptr<QAbstractProtobufSerializer> QProtobufSerializerRegistry::getSerializer(const QString &id, const QString &plugin)
 {
-    return dPtr->m_plugins[plugin]->serializers.at(id); //throws
+    return dPtr->m_plugins.at(plugin)->serializers.at(id); //throws
 }
 
 std::unique_ptr<QAbstractProtobufSerializer> QProtobufSerializerRegistry::acquireSerializer(const QString &/*id*/, const QString &/*plugin*/)
-- 
2.43.0


From b7a5039fa92809c0b45e03ed7eccb20911b7c44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:36 +0000
Subject: [PATCH 20/48] fix: EXTRA_NAMESPACE may be followed by other generator
 options

---
 src/generator/generatoroptions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/generator/generatoroptions.cpp b/src/generator/generatoroptions.cpp
index ef7a4b7..7bebf6c 100644
--- a/src/generator/generatoroptions.cpp
+++ b/src/generator/generatoroptions.cpp
@@ -68,7 +68,7 @@ void GeneratorOptions::parseFromEnv(const std::string &options)
             mGenerateFieldEnum = true;
         } else if (option.find(ExtraNamespaceGenerationOption) == 0) {
             QT_PROTOBUF_DEBUG("set mGenerateFieldEnum: true");
-            std::vector<std::string> compositeOption = utils::split(options, '=');
+            std::vector<std::string> compositeOption = utils::split(option, '=');
             if (compositeOption.size() == 2) {
                 mExtraNamespace = compositeOption[1];
                 if (mExtraNamespace.size() > 1 && mExtraNamespace[0] == '\"'
-- 
2.43.0


From 9991bc6907dcdeabb97ca4f69c55fd6a314f53b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:04 +0000
Subject: [PATCH 21/48] fix: repeated bool fields generate code that compiles

---
 src/protobuf/qprotobufserializer.cpp | 1 +
 src/protobuf/qtprotobuf.cpp          | 1 +
 src/protobuf/qtprotobuftypes.h       | 7 +++++++
 3 files changed, 9 insertions(+)

diff --git a/src/protobuf/qprotobufserializer.cpp b/src/protobuf/qprotobufserializer.cpp
index 7f603f3..96bd69c 100644
--- a/src/protobuf/qprotobufserializer.cpp
+++ b/src/protobuf/qprotobufserializer.cpp
@@ -222,6 +222,7 @@ QProtobufSerializerPrivate::QProtobufSerializerPrivate(QProtobufSerializer *q) :
 
         wrapSerializer<FloatList, serializeListType, deserializeList<float>, LengthDelimited>();
         wrapSerializer<DoubleList, serializeListType, deserializeList<double>, LengthDelimited>();
+        wrapSerializer<BoolList, serializeListType, deserializeList<bool>, LengthDelimited>();
         wrapSerializer<fixed32List, serializeListType, deserializeList<fixed32>, LengthDelimited>();
         wrapSerializer<fixed64List, serializeListType, deserializeList<fixed64>, LengthDelimited>();
         wrapSerializer<sfixed32List, serializeListType, deserializeList<sfixed32>, LengthDelimited>();
diff --git a/src/protobuf/qtprotobuf.cpp b/src/protobuf/qtprotobuf.cpp
index ecdfa22..3380f0e 100644
--- a/src/protobuf/qtprotobuf.cpp
+++ b/src/protobuf/qtprotobuf.cpp
@@ -89,6 +89,7 @@ void qRegisterProtobufTypes() {
 
     registerProtobufType(DoubleList);
     registerProtobufType(FloatList);
+    registerProtobufType(BoolList);
 
     registerBasicConverters<int32>();
     registerBasicConverters<int64>();
diff --git a/src/protobuf/qtprotobuftypes.h b/src/protobuf/qtprotobuftypes.h
index e9df126..7636e4d 100644
--- a/src/protobuf/qtprotobuftypes.h
+++ b/src/protobuf/qtprotobuftypes.h
@@ -252,6 +252,12 @@ using FloatList = QList<float>;
  */
 using DoubleList = QList<double>;
 
+/*!
+ * \ingroup QtProtobuf
+ * \brief alias for list of QtProtobuf::bool
+ */
+using BoolList = QList<bool>;
+
 /*!
  * \ingroup QtProtobuf
  * \brief qRegisterProtobufTypes
@@ -344,6 +350,7 @@ Q_DECLARE_METATYPE(QtProtobuf::sfixed64List)
 
 Q_DECLARE_METATYPE(QtProtobuf::FloatList)
 Q_DECLARE_METATYPE(QtProtobuf::DoubleList)
+Q_DECLARE_METATYPE(QtProtobuf::BoolList)
 
 namespace std {
 //! \private
-- 
2.43.0


From 6cf54e4777368ae8ea12f1c4f770060bf86d86ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:49 +0000
Subject: [PATCH 22/48] fix: several fields of the same nested enum generate
 code that compiles

---
 src/generator/messagedeclarationprinter.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/generator/messagedeclarationprinter.cpp b/src/generator/messagedeclarationprinter.cpp
index e09dac2..f4a8aae 100644
--- a/src/generator/messagedeclarationprinter.cpp
+++ b/src/generator/messagedeclarationprinter.cpp
@@ -29,6 +29,7 @@
 #include "generatorcommon.h"
 
 #include <iostream>
+#include <set>
 #include <google/protobuf/descriptor.h>
 #include <google/protobuf/descriptor.pb.h>
 
@@ -190,9 +191,13 @@ void MessageDeclarationPrinter::printMetaTypesDeclaration()
         mPrinter->Print(mTypeMap,
                         Templates::DeclareComplexQmlListTypeTemplate);
     }
+    std::set<const EnumDescriptor *> declaredEnums;//Metatype should be declared once, even if there are multiple fields of this type
     common::iterateMessageFields(mDescriptor, [&](const FieldDescriptor *field, PropertyMap &propertyMap) {
         if (field->type() == FieldDescriptor::TYPE_ENUM
                 && common::isLocalEnum(field->enum_type(), mDescriptor)) {
+            if (!declaredEnums.insert(field->enum_type()).second) {
+                return;
+            }
             mPrinter->Print(propertyMap, Templates::DeclareMetaTypeTemplate);
             mPrinter->Print(propertyMap, Templates::DeclareMetaTypeListTemplate);
         } else if (field->is_map()) {
-- 
2.43.0


From 1f732b2cc5ea15381394aecf93c425d9df6f60a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:18 +0000
Subject: [PATCH 23/48] fix: nested types of messages with lower case names
 generate code that compiles

---
 src/generator/generatorcommon.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/generator/generatorcommon.h b/src/generator/generatorcommon.h
index f8d1423..bf946e2 100644
--- a/src/generator/generatorcommon.h
+++ b/src/generator/generatorcommon.h
@@ -59,6 +59,10 @@ struct common {
         if (!namespacesList.empty()) {
             namespacesList.pop_back(); //Remove name
         }
+        //Names of classes are always capitalized, it's applicable for containing messages as well
+        for (size_t i = utils::split(type->file()->package(), '.').size(); i < namespacesList.size(); i++) {
+            namespacesList[i] = utils::upperCaseName(namespacesList[i]);
+        }
         return namespacesList;
     }
 
-- 
2.43.0


From 315fc248325c6b58ca44dbd3d9117e5d577018a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:43 +0000
Subject: [PATCH 24/48] fix: nested messages that only other messages use are
 generated

---
 src/generator/generatorcommon.cpp | 24 +++++-------------------
 1 file changed, 5 insertions(+), 19 deletions(-)

diff --git a/src/generator/generatorcommon.cpp b/src/generator/generatorcommon.cpp
index d0f953a..783b9bf 100644
--- a/src/generator/generatorcommon.cpp
+++ b/src/generator/generatorcommon.cpp
@@ -26,6 +26,8 @@
 #include "generatorcommon.h"
 #include "generatoroptions.h"
 
+#include <google/protobuf/descriptor.pb.h>
+
 #include <assert.h>
 
 using namespace ::QtProtobuf::generator;
@@ -436,33 +438,17 @@ void common::iterateNestedMessages(const ::google::protobuf::Descriptor *message
 {
     for (int i = 0; i < message->nested_type_count(); i++) {
         auto nestedMessage = message->nested_type(i);
-        if (message->field_count() <= 0) {
+        if (!nestedMessage->options().map_entry()) { //TODO: Have idea to make maps nested classes instead of typedefs.
             callback(nestedMessage);
-            continue;
-        }
-        for (int j = 0; j < message->field_count(); j++) {
-            auto field = message->field(j);
-            if (!field->is_map() && field->message_type() == nestedMessage) { //Probably there is more correct way to detect map in nested messages.                                                                              //TODO: Have idea to make maps nested classes instead of typedefs.
-                callback(nestedMessage);
-                break;
-            }
         }
     }
 }
 
 bool common::hasNestedMessages(const ::google::protobuf::Descriptor *message)
 {
-    if (message->nested_type_count() > 0 && message->field_count() <= 0) {
-        return true;
-    }
-
     for (int i = 0; i < message->nested_type_count(); i++) {
-        auto nestedMessage = message->nested_type(i);
-        for (int j = 0; j < message->field_count(); j++) {
-            auto field = message->field(j);
-            if (!field->is_map() && field->message_type() == nestedMessage) { //Probably there is more correct way to detect map in nested messages.                                                                              //TODO: Have idea to make maps nested classes instead of typedefs.
-                return true;
-            }
+        if (!message->nested_type(i)->options().map_entry()) { //TODO: Have idea to make maps nested classes instead of typedefs.
+            return true;
         }
     }
 
-- 
2.43.0


From fcc8e15563f510b4236e9110b2fff6536dbafe3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:57 +0000
Subject: [PATCH 25/48] fix: enums whose first value has lower case name
 generate code that compiles

---
 src/generator/messagedefinitionprinter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/generator/messagedefinitionprinter.cpp b/src/generator/messagedefinitionprinter.cpp
index e6f353d..cd644d1 100644
--- a/src/generator/messagedefinitionprinter.cpp
+++ b/src/generator/messagedefinitionprinter.cpp
@@ -172,7 +172,7 @@ void MessageDefinitionPrinter::printInitializationList(int fieldCount)
                 propertyMap["initializer"] = "false";
                 break;
             case FieldDescriptor::TYPE_ENUM:
-                propertyMap["initializer"] = propertyMap["scope_type"] + "::" + field->enum_type()->value(0)->name();
+                propertyMap["initializer"] = propertyMap["scope_type"] + "::" + utils::upperCaseName(field->enum_type()->value(0)->name());
                 break;
             default:
                 break;
-- 
2.43.0


From fa20262c1888f16fea400ce2e18cc4b75c30c1bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:57 +0000
Subject: [PATCH 26/48] fix: multi-file messages that use a nested message and
 a global enum include the enum

---
 src/generator/generatorbase.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/generator/generatorbase.cpp b/src/generator/generatorbase.cpp
index 97b4c60..e1326a5 100644
--- a/src/generator/generatorbase.cpp
+++ b/src/generator/generatorbase.cpp
@@ -141,6 +141,7 @@ void GeneratorBase::printInclude(const std::shared_ptr<::google::protobuf::io::P
         common::EnumVisibility enumVisibily = common::enumVisibility(field->enum_type(), message);
         if (enumVisibily == common::GLOBAL_ENUM) {
             includeTemplate = Templates::GlobalEnumIncludeTemplate;
+            newInclude = "globalenums";
         } else if (enumVisibily == common::NEIGHBOR_ENUM) {
             includeTemplate = Templates::InternalIncludeTemplate;
             std::string fullEnumName = field->enum_type()->full_name();
-- 
2.43.0


From c7373080d7596c2365ac3d98d65e9493c3626235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:45 +0000
Subject: [PATCH 27/48] fix: multi-file messages that refer to each other
 generate code that compiles

---
 src/generator/multifilegenerator.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/generator/multifilegenerator.cpp b/src/generator/multifilegenerator.cpp
index 10d5952..950946b 100644
--- a/src/generator/multifilegenerator.cpp
+++ b/src/generator/multifilegenerator.cpp
@@ -83,6 +83,9 @@ bool MultiFileGenerator::Generate(const FileDescriptor *file,
             headerPrinter->Print(Templates::QmlProtobufIncludesTemplate);
         }
 
+        //Messages may refer to each other, so class needs to be known inside the headers included below
+        messageDecl.printClassForwardDeclaration();
+
         std::set<std::string> existingIncludes;
         for (int i = 0; i < message->field_count(); i++) {
             printInclude(headerPrinter, message, message->field(i), existingIncludes);
-- 
2.43.0


From 333c633badb71b5fd3b93d713dbf498d3106089a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:21 +0000
Subject: [PATCH 28/48] fix: multi-file clients generate code that compiles

---
 src/generator/multifilegenerator.cpp          |  2 +-
 .../servicedeclarationprinterbase.cpp         | 23 ++++++++++++-------
 2 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/generator/multifilegenerator.cpp b/src/generator/multifilegenerator.cpp
index 950946b..a690625 100644
--- a/src/generator/multifilegenerator.cpp
+++ b/src/generator/multifilegenerator.cpp
@@ -170,7 +170,7 @@ bool MultiFileGenerator::Generate(const FileDescriptor *file,
         clientGen.run();
 
         printDisclaimer(sourcePrinter);
-        std::string includeFileName = service->name();
+        std::string includeFileName = service->name() + "client";
         utils::tolower(includeFileName);
         sourcePrinter->Print({{"include", includeFileName}}, Templates::InternalIncludeTemplate);
         if (GeneratorOptions::instance().hasQml()) {
diff --git a/src/generator/servicedeclarationprinterbase.cpp b/src/generator/servicedeclarationprinterbase.cpp
index 3e2fe10..905373e 100644
--- a/src/generator/servicedeclarationprinterbase.cpp
+++ b/src/generator/servicedeclarationprinterbase.cpp
@@ -31,7 +31,7 @@
 #include <google/protobuf/io/zero_copy_stream.h>
 #include <google/protobuf/descriptor.h>
 
-#include <unordered_set>
+#include <set>
 
 #include "utils.h"
 #include "templates.h"
@@ -48,16 +48,23 @@ ServiceDeclarationPrinterBase::ServiceDeclarationPrinterBase(const ::google::pro
 
 void ServiceDeclarationPrinterBase::printIncludes()
 {
-    std::unordered_set<std::string> includeSet;
+    std::set<std::string> includeSet;
+    auto insertInclude = [&includeSet, this](const Descriptor *type) {
+        std::string include;
+        if (type->file()->package() != mDescriptor->file()->package()) {
+            for (auto package : utils::split(type->file()->package(), '.')) {
+                include += package + "/";
+            }
+        }
+        std::string typeName = common::findHighestMessage(type)->name();//Nested messages are declared next to highest one
+        utils::tolower(typeName);
+        includeSet.insert(include + typeName);
+    };
 
     for (int i = 0; i < mDescriptor->method_count(); i++) {
         const MethodDescriptor *method = mDescriptor->method(i);
-        std::string inputTypeName = method->input_type()->name();
-        std::string outputTypeName = method->output_type()->name();
-        utils::tolower(inputTypeName);
-        utils::tolower(outputTypeName);
-        includeSet.insert(inputTypeName);
-        includeSet.insert(outputTypeName);
+        insertInclude(method->input_type());
+        insertInclude(method->output_type());
     }
 
     for (auto type : includeSet) {
-- 
2.43.0


From 4c467503a1e18c7b5c594ee853beac33c9a745da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:52 +0000
Subject: [PATCH 29/48] fix: clients that use messages with lower case names
 generate code that compiles

---
 src/generator/generatorcommon.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/generator/generatorcommon.cpp b/src/generator/generatorcommon.cpp
index 783b9bf..13617c5 100644
--- a/src/generator/generatorcommon.cpp
+++ b/src/generator/generatorcommon.cpp
@@ -410,13 +410,11 @@ bool common::hasQmlAlias(const ::google::protobuf::FieldDescriptor *field)
 
 MethodMap common::produceMethodMap(const MethodDescriptor *method, const std::string& scope)
 {
-    std::string inputTypeName = method->input_type()->full_name();
-    std::string outputTypeName = method->output_type()->full_name();
+    std::string inputTypeName = produceMessageTypeMap(method->input_type(), nullptr)["full_type"];
+    std::string outputTypeName = produceMessageTypeMap(method->output_type(), nullptr)["full_type"];
     std::string methodName = method->name();
     std::string methodNameUpper = method->name();
     methodNameUpper[0] =  static_cast<char>(::toupper(methodNameUpper[0]));
-    utils::replace(inputTypeName, ".", "::");
-    utils::replace(outputTypeName, ".", "::");
     return {{"classname", scope},
                   {"return_type", outputTypeName},
                   {"method_name", methodName},
-- 
2.43.0


From a39a3ea898882e3847e05956f6dadae8426faa06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:33 +0000
Subject: [PATCH 30/48] fix: enums of deeply nested messages compile inside an
 extra namespace

---
 src/generator/generatorcommon.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/generator/generatorcommon.cpp b/src/generator/generatorcommon.cpp
index 13617c5..7190f0f 100644
--- a/src/generator/generatorcommon.cpp
+++ b/src/generator/generatorcommon.cpp
@@ -152,7 +152,11 @@ TypeMap common::produceEnumTypeMap(const EnumDescriptor *type, const Descriptor
     }
 
     std::string namespaces = getNamespacesString(namespaceList, "::");
-    std::string scopeNamespaces = getScopeNamespacesString(namespaces, getNamespacesString(getNamespaces(scope), "::"));
+    std::vector<std::string> scopeNamespaceList = getNamespaces(scope);
+    if (scope != nullptr && !GeneratorOptions::instance().extraNamespace().empty()) {
+        scopeNamespaceList.insert(scopeNamespaceList.begin(), GeneratorOptions::instance().extraNamespace());
+    }
+    std::string scopeNamespaces = getScopeNamespacesString(namespaces, getNamespacesString(scopeNamespaceList, "::"));
 
     std::string fullName = namespaces.empty() ? name : (namespaces + "::" + name);
     std::string scopeName = scopeNamespaces.empty() ? name : (scopeNamespaces + "::" + name);
-- 
2.43.0


From feb2f10fabd224d910885d2c143b5e5c07effbdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:24 +0000
Subject: [PATCH 31/48] fix: enums of nested messages may be used by other
 messages

Enums of messages that are nested themselves were taken for global ones, and the
header of the message that contains the enum was not found when it is nested or
belongs to another package.
---
 src/generator/generatorbase.cpp   | 18 +++++++++++++-----
 src/generator/generatorcommon.cpp | 11 ++---------
 2 files changed, 15 insertions(+), 14 deletions(-)

diff --git a/src/generator/generatorbase.cpp b/src/generator/generatorbase.cpp
index e1326a5..c69f7a9 100644
--- a/src/generator/generatorbase.cpp
+++ b/src/generator/generatorbase.cpp
@@ -143,12 +143,20 @@ void GeneratorBase::printInclude(const std::shared_ptr<::google::protobuf::io::P
             includeTemplate = Templates::GlobalEnumIncludeTemplate;
             newInclude = "globalenums";
         } else if (enumVisibily == common::NEIGHBOR_ENUM) {
-            includeTemplate = Templates::InternalIncludeTemplate;
-            std::string fullEnumName = field->enum_type()->full_name();
-            std::vector<std::string> fullEnumNameParts = utils::split(fullEnumName, '.');
-            std::string enumTypeOwner = fullEnumNameParts.at(fullEnumNameParts.size() - 2);
+            auto containingMessage = common::findHighestMessage(field->enum_type()->containing_type());
+            if (containingMessage == common::findHighestMessage(message)) {
+                return;
+            }
+            std::string enumPackage = containingMessage->file()->package();
+            if (enumPackage != message->file()->package()) {
+                for (auto package : utils::split(enumPackage, '.')) {
+                    newInclude += package + "/";
+                }
+            }
+            std::string enumTypeOwner = containingMessage->name();
             utils::tolower(enumTypeOwner);
-            newInclude = enumTypeOwner;
+            newInclude += enumTypeOwner;
+            includeTemplate = Templates::InternalIncludeTemplate;
         } else {
             return;
         }
diff --git a/src/generator/generatorcommon.cpp b/src/generator/generatorcommon.cpp
index 7190f0f..9f0e3bc 100644
--- a/src/generator/generatorcommon.cpp
+++ b/src/generator/generatorcommon.cpp
@@ -389,15 +389,8 @@ common::EnumVisibility common::enumVisibility(const EnumDescriptor *type, const
         return LOCAL_ENUM;
     }
 
-    const FileDescriptor *typeFile = type->file();
-
-    for (int i = 0; i < typeFile->message_type_count(); i++) {
-        const Descriptor *msg = typeFile->message_type(i);
-        for (int j = 0; j < msg->enum_type_count(); j++) {
-            if (type->full_name() == msg->enum_type(j)->full_name()) {
-                return NEIGHBOR_ENUM;
-            }
-        }
+    if (type->containing_type() != nullptr) {
+        return NEIGHBOR_ENUM;
     }
 
     return GLOBAL_ENUM;
-- 
2.43.0


From c3908af36dc88bde5f1300834fd6c5ebf4687946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:08 +0000
Subject: [PATCH 32/48] fix: maps of nested messages compile inside an extra
 namespace

---
 src/generator/generatorcommon.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/generator/generatorcommon.cpp b/src/generator/generatorcommon.cpp
index 9f0e3bc..42d4d23 100644
--- a/src/generator/generatorcommon.cpp
+++ b/src/generator/generatorcommon.cpp
@@ -104,9 +104,16 @@ TypeMap common::produceMessageTypeMap(const ::Descriptor *type, const Descriptor
     std::vector<std::string> nestedNamespaceList = namespaceList;
     if(isNested(type)) {
         nestedNamespaceList = getNestedNamespaces(type);
+        if (!GeneratorOptions::instance().extraNamespace().empty()) {
+            nestedNamespaceList.insert(nestedNamespaceList.begin(), GeneratorOptions::instance().extraNamespace());
+        }
     }
     std::string namespaces = getNamespacesString(namespaceList, "::");
-    std::string scopeNamespaces = getScopeNamespacesString(getNamespacesString(nestedNamespaceList, "::"), getNamespacesString(getNamespaces(scope), "::"));
+    std::vector<std::string> scopeNamespaceList = getNamespaces(scope);
+    if (scope != nullptr && !GeneratorOptions::instance().extraNamespace().empty()) {
+        scopeNamespaceList.insert(scopeNamespaceList.begin(), GeneratorOptions::instance().extraNamespace());
+    }
+    std::string scopeNamespaces = getScopeNamespacesString(getNamespacesString(nestedNamespaceList, "::"), getNamespacesString(scopeNamespaceList, "::"));
     std::string qmlPackage = getNamespacesString(namespaceList, ".");
 
     std::string name = utils::upperCaseName(type->name());
-- 
2.43.0


From 5f8420a7167000540c18c6358c7067859f947d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:52 +0000
Subject: [PATCH 33/48] fix: decode and encode enum fields whose type name is
 ambiguous or nested

---
 src/protobuf/qabstractprotobufserializer.h | 3 +++
 src/protobuf/qprotobufserializer.cpp       | 3 ++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/protobuf/qabstractprotobufserializer.h b/src/protobuf/qabstractprotobufserializer.h
index f8dfc0f..e0db2a4 100644
--- a/src/protobuf/qabstractprotobufserializer.h
+++ b/src/protobuf/qabstractprotobufserializer.h
@@ -326,6 +326,9 @@ inline void qRegisterProtobufMapType() {
 template<typename T,
          typename std::enable_if_t<std::is_enum<T>::value, int> = 0>
 inline void qRegisterProtobufEnumType() {
+    //Properties of the type are looked up by the name that the meta object system knows, that differs for nested messages
+    const QMetaEnum metaEnum = QMetaEnum::fromType<T>();
+    qRegisterMetaType<T>(QByteArray(metaEnum.scope()) + "::" + metaEnum.name());
     QtProtobufPrivate::registerHandler(qMetaTypeId<T>(), { QtProtobufPrivate::serializeEnum<T>,
                                                            QtProtobufPrivate::deserializeEnum<T>, QtProtobufPrivate::ObjectHandler });
     QtProtobufPrivate::registerHandler(qMetaTypeId<QList<T>>(), { QtProtobufPrivate::serializeEnumList<T>,
diff --git a/src/protobuf/qprotobufserializer.cpp b/src/protobuf/qprotobufserializer.cpp
index 96bd69c..abf4d73 100644
--- a/src/protobuf/qprotobufserializer.cpp
+++ b/src/protobuf/qprotobufserializer.cpp
@@ -329,7 +329,8 @@ void QProtobufSerializerPrivate::deserializeProperty(QObject *object, const QPro
 
     QVariant newPropertyValue;
     newPropertyValue = metaProperty.read(object);
-    int userType = metaProperty.userType();
+    //Type name of property may be ambiguous, e.g. when several messages have enum of same name
+    int userType = newPropertyValue.userType();
 
     //Element of repeated field that is not packed, is packed list that contains the only element
     QByteArray packedElement;
-- 
2.43.0


From 7af6fe030721a78ac264aeb996bb8e91ef46501b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:58 +0000
Subject: [PATCH 34/48] fix: register enums of messages that have no field of
 the enum type

---
 src/generator/messagedeclarationprinter.cpp | 19 ++++++++-----------
 src/generator/messagedefinitionprinter.cpp  |  9 +++++----
 2 files changed, 13 insertions(+), 15 deletions(-)

diff --git a/src/generator/messagedeclarationprinter.cpp b/src/generator/messagedeclarationprinter.cpp
index f4a8aae..462a6d2 100644
--- a/src/generator/messagedeclarationprinter.cpp
+++ b/src/generator/messagedeclarationprinter.cpp
@@ -29,7 +29,6 @@
 #include "generatorcommon.h"
 
 #include <iostream>
-#include <set>
 #include <google/protobuf/descriptor.h>
 #include <google/protobuf/descriptor.pb.h>
 
@@ -191,16 +190,14 @@ void MessageDeclarationPrinter::printMetaTypesDeclaration()
         mPrinter->Print(mTypeMap,
                         Templates::DeclareComplexQmlListTypeTemplate);
     }
-    std::set<const EnumDescriptor *> declaredEnums;//Metatype should be declared once, even if there are multiple fields of this type
-    common::iterateMessageFields(mDescriptor, [&](const FieldDescriptor *field, PropertyMap &propertyMap) {
-        if (field->type() == FieldDescriptor::TYPE_ENUM
-                && common::isLocalEnum(field->enum_type(), mDescriptor)) {
-            if (!declaredEnums.insert(field->enum_type()).second) {
-                return;
-            }
-            mPrinter->Print(propertyMap, Templates::DeclareMetaTypeTemplate);
-            mPrinter->Print(propertyMap, Templates::DeclareMetaTypeListTemplate);
-        } else if (field->is_map()) {
+    for (int i = 0; i < mDescriptor->enum_type_count(); i++) {
+        const TypeMap typeMap = common::produceEnumTypeMap(mDescriptor->enum_type(i), mDescriptor);
+        mPrinter->Print(typeMap, Templates::DeclareMetaTypeTemplate);
+        mPrinter->Print(typeMap, Templates::DeclareMetaTypeListTemplate);
+    }
+
+    common::iterateMessageFields(mDescriptor, [this](const FieldDescriptor *field, PropertyMap &propertyMap) {
+        if (field->is_map()) {
             propertyMap["key_type_underscore"] = propertyMap["key_type"];
             utils::replace(propertyMap["key_type_underscore"], "::", "_");
 
diff --git a/src/generator/messagedefinitionprinter.cpp b/src/generator/messagedefinitionprinter.cpp
index cd644d1..3ded4ac 100644
--- a/src/generator/messagedefinitionprinter.cpp
+++ b/src/generator/messagedefinitionprinter.cpp
@@ -75,11 +75,12 @@ void MessageDefinitionPrinter::printRegisterBody()
         mPrinter->Print(mTypeMap, Templates::QmlRegisterTypeTemplate);
     }
 
+    for (int i = 0; i < mDescriptor->enum_type_count(); i++) {
+        mPrinter->Print(common::produceEnumTypeMap(mDescriptor->enum_type(i), mDescriptor), Templates::RegisterLocalEnumTemplate);
+    }
+
     common::iterateMessageFields(mDescriptor, [this](const FieldDescriptor *field, const PropertyMap &propertyMap) {
-        if (field->type() == FieldDescriptor::TYPE_ENUM
-                && common::isLocalEnum(field->enum_type(), mDescriptor)) {
-            mPrinter->Print(propertyMap, Templates::RegisterLocalEnumTemplate);
-        } else if (field->is_map()) {
+        if (field->is_map()) {
             mPrinter->Print(propertyMap, Templates::RegisterMapTemplate);
         }
     });
-- 
2.43.0


From bdf43bcfaad0abc1583e2a4d9a8e98e6315fb7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:08:25 +0000
Subject: [PATCH 35/48] fix: copied comments may contain any text

With COMMENTS, a comment holding a dollar sign ended the generator, and */ or
several lines of /// comment ended the generated comment early, so that the
header did not compile.
---
 src/generator/baseprinter.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/generator/baseprinter.h b/src/generator/baseprinter.h
index 2b1917e..5f53fa1 100644
--- a/src/generator/baseprinter.h
+++ b/src/generator/baseprinter.h
@@ -79,11 +79,17 @@ public:
                     loc.leading_comments = "\n" + loc.leading_comments;
                 }
             }
+            if (!isSingleLine) {
+                utils::replace(loc.leading_comments, "\n", "\n *");
+            }
+            //The text must neither end the comment nor be taken for variables of the printer
+            utils::replace(loc.leading_comments, "*/", "* /");
+            utils::replace(loc.leading_comments, "$", "$$");
+
             mPrinter->Print("\n/*");
             if (isSingleLine) {
                 mPrinter->Print(loc.leading_comments.c_str());
             } else {
-                utils::replace(loc.leading_comments, "\n", "\n *");
                 mPrinter->Print(loc.leading_comments.c_str());
                 if (loc.leading_comments[loc.leading_comments.size() - 1] != '\n') {
                     mPrinter->Print("\n");
-- 
2.43.0


From 828a6c9d3bb923945e1fbc50add6b2607065a019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:10 +0000
Subject: [PATCH 36/48] fix: report the end of a stream that the server closed
 with OK in the native channel

---
 src/grpc/qgrpcchannel.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/grpc/qgrpcchannel.cpp b/src/grpc/qgrpcchannel.cpp
index 01dcd00..9790730 100644
--- a/src/grpc/qgrpcchannel.cpp
+++ b/src/grpc/qgrpcchannel.cpp
@@ -289,6 +289,10 @@ void QGrpcChannelPrivate::stream(QGrpcStream *stream, const QString &service, QA
         {
             stream->error(sub->status);
         }
+        else
+        {
+            stream->finished();
+        }
     });
 
     *abortConnection = QObject::connect(stream, &QGrpcStream::finished, sub.get(), [connection, abortConnection, readConnection, sub, clientConnection] {
-- 
2.43.0


From 88e873f5d26730e80cad5a1b69461fe79149d3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:28 +0000
Subject: [PATCH 37/48] fix: keep the native gRPC channel alive until the
 worker of a call is done with it

---
 src/grpc/qgrpcchannel.cpp | 8 ++++----
 src/grpc/qgrpcchannel_p.h | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/grpc/qgrpcchannel.cpp b/src/grpc/qgrpcchannel.cpp
index 9790730..8ddb93f 100644
--- a/src/grpc/qgrpcchannel.cpp
+++ b/src/grpc/qgrpcchannel.cpp
@@ -142,7 +142,7 @@ void QGrpcChannelStream::cancel() {
     context.TryCancel();
 }
 
-QGrpcChannelCall::QGrpcChannelCall(grpc::Channel *channel, const QString &method, const QByteArray &data, QObject *parent) : QObject(parent) {
+QGrpcChannelCall::QGrpcChannelCall(std::shared_ptr<grpc::Channel> channel, const QString &method, const QByteArray &data, QObject *parent) : QObject(parent) {
     grpc::ByteBuffer request;
     parseQByteArray(data, request);
 
@@ -151,7 +151,7 @@ QGrpcChannelCall::QGrpcChannelCall(grpc::Channel *channel, const QString &method
         QByteArray data;
         grpc::Status status;
 
-        status = grpc::internal::BlockingUnaryCall(channel,
+        status = grpc::internal::BlockingUnaryCall(channel.get(),
             grpc::internal::RpcMethod(method.toStdString().c_str(), grpc::internal::RpcMethod::NORMAL_RPC),
             &context, request, &response
         );
@@ -213,7 +213,7 @@ void QGrpcChannelPrivate::call(const QString &method, const QString &service, co
     std::shared_ptr<QMetaObject::Connection> abortConnection(new QMetaObject::Connection);
 
     call.reset(
-        new QGrpcChannelCall(m_channel.get(), rpcName, args, reply),
+        new QGrpcChannelCall(m_channel, rpcName, args, reply),
         [](QGrpcChannelCall * c) { c->deleteLater(); }
     );
 
@@ -245,7 +245,7 @@ QGrpcStatus QGrpcChannelPrivate::call(const QString &method, const QString &serv
     QEventLoop loop;
 
     QString rpcName = QString("/%1/%2").arg(service).arg(method);
-    QGrpcChannelCall call(m_channel.get(), rpcName, args);
+    QGrpcChannelCall call(m_channel, rpcName, args);
 
     QObject::connect(&call, &QGrpcChannelCall::finished, &loop, &QEventLoop::quit);
 
diff --git a/src/grpc/qgrpcchannel_p.h b/src/grpc/qgrpcchannel_p.h
index 8cf3b65..b1828b2 100644
--- a/src/grpc/qgrpcchannel_p.h
+++ b/src/grpc/qgrpcchannel_p.h
@@ -73,7 +73,7 @@ class QGrpcChannelCall : public QObject {
     Q_OBJECT;
 
 public:
-    QGrpcChannelCall(grpc::Channel *channel, const QString &method, const QByteArray &data, QObject *parent = nullptr);
+    QGrpcChannelCall(std::shared_ptr<grpc::Channel> channel, const QString &method, const QByteArray &data, QObject *parent = nullptr);
     ~QGrpcChannelCall();
 
     void cancel();
-- 
2.43.0


From 32b2c975b7f98b7de0bef80ce35cdeeb8e2d14f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:17 +0000
Subject: [PATCH 38/48] fix: drop messages that were queued before a stream was
 canceled

---
 src/grpc/qgrpcstream.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/grpc/qgrpcstream.h b/src/grpc/qgrpcstream.h
index b190d44..54e0dab 100644
--- a/src/grpc/qgrpcstream.h
+++ b/src/grpc/qgrpcstream.h
@@ -72,6 +72,10 @@ public:
      *          to update data in stream and notify clients about stream updates.
      */
     void handler(const QByteArray& data) {
+        //Message might be queued by channel before stream was canceled
+        if (m_finished) {
+            return;
+        }
         setData(data);
         //Handlers might be added while the message is handled
         for (auto handler : std::vector<StreamHandler>(m_handlers)) {
-- 
2.43.0


From a24fe5dd44243e168f4d27468a322dfea926fb66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:47 +0000
Subject: [PATCH 39/48] fix: deliver errors to receivers in other threads

---
 src/grpc/qabstractgrpcclient.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/grpc/qabstractgrpcclient.cpp b/src/grpc/qabstractgrpcclient.cpp
index 407a158..ffba9f6 100644
--- a/src/grpc/qabstractgrpcclient.cpp
+++ b/src/grpc/qabstractgrpcclient.cpp
@@ -50,6 +50,9 @@ using namespace QtProtobuf;
 QAbstractGrpcClient::QAbstractGrpcClient(const QString &service, QObject *parent) : QObject(parent)
   , dPtr(std::make_unique<QAbstractGrpcClientPrivate>(service))
 {
+    //Errors have to reach receivers that live in other threads
+    qRegisterMetaType<QtProtobuf::QGrpcStatus>();
+    qRegisterMetaType<QtProtobuf::QGrpcStatus>("QGrpcStatus");
 }
 
 QAbstractGrpcClient::~QAbstractGrpcClient()
-- 
2.43.0


From c3987fda2efe57f6a7b4f45dcf1d90cd5e41aa3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:19 +0000
Subject: [PATCH 40/48] fix: initialize the serialization handlers once when
 serializers are created in several threads

---
 src/protobuf/qprotobufserializer.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/protobuf/qprotobufserializer.cpp b/src/protobuf/qprotobufserializer.cpp
index abf4d73..53c4340 100644
--- a/src/protobuf/qprotobufserializer.cpp
+++ b/src/protobuf/qprotobufserializer.cpp
@@ -29,6 +29,8 @@
 #include "qprotobufmetaproperty.h"
 #include "qprotobufmetaobject.h"
 
+#include <QMutex>
+
 namespace {
 //! \private
 //! Limits nesting of messages to be deserialized, same limit is used by google's implementation of protobuf
@@ -202,6 +204,9 @@ void QProtobufSerializer::deserializeEnumList(QList<int64> &value, const QMetaEn
 
 QProtobufSerializerPrivate::QProtobufSerializerPrivate(QProtobufSerializer *q) : q_ptr(q)
 {
+    //Serializers might be created in different threads at the same time
+    static QMutex initializationLock;
+    QMutexLocker locker(&initializationLock);
     //if handlers is not empty intialization already done
     if (handlers.empty()) {
         wrapSerializer<float, serializeBasic, deserializeBasic<float>, Fixed32>();
-- 
2.43.0


From 8fe4173dbcb414624b8b3f055ace1d455b4a5222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:06 +0000
Subject: [PATCH 41/48] fix: let every thread wait until qRegisterProtobufTypes
 has registered the types

---
 src/protobuf/qtprotobuf.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/protobuf/qtprotobuf.cpp b/src/protobuf/qtprotobuf.cpp
index 3380f0e..e7b4d92 100644
--- a/src/protobuf/qtprotobuf.cpp
+++ b/src/protobuf/qtprotobuf.cpp
@@ -26,6 +26,7 @@
 #include "qtprotobuftypes.h"
 #include "qprotobufobject.h"
 
+#include <mutex>
 #include <type_traits>
 
 #define registerProtobufType(X) qRegisterMetaType<X>(# X);\
@@ -60,6 +61,9 @@ std::list<RegisterFunction>& registerFunctions() {
 }
 
 void qRegisterProtobufTypes() {
+    //Might be called in different threads at the same time, all of them have to wait until the types are registered
+    static std::recursive_mutex registrationLock;
+    std::lock_guard<std::recursive_mutex> locker(registrationLock);
     static bool registred = false;
     if (registred) {
         return;
-- 
2.43.0


From cfa734255c354d7d1cc822999d8a9ccda01cd091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:24 +0000
Subject: [PATCH 42/48] fix: end unanswered calls when the channel of a client
 is replaced

---
 src/grpc/qabstractgrpcclient.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/grpc/qabstractgrpcclient.cpp b/src/grpc/qabstractgrpcclient.cpp
index ffba9f6..2596bee 100644
--- a/src/grpc/qabstractgrpcclient.cpp
+++ b/src/grpc/qabstractgrpcclient.cpp
@@ -70,6 +70,10 @@ void QAbstractGrpcClient::attachChannel(const std::shared_ptr<QAbstractGrpcChann
     for (auto stream : std::vector<QGrpcStreamShared>(dPtr->activeStreams)) {
         stream->abort();
     }
+    //Calls that are not answered yet will not be answered after channel is replaced
+    for (auto reply : findChildren<QGrpcCallReply *>(QString(), Qt::FindDirectChildrenOnly)) {
+        reply->abort();
+    }
     dPtr->channel = channel;
     for (auto stream : std::vector<QGrpcStreamShared>(dPtr->activeStreams)) {
         stream->abort();
-- 
2.43.0


From cdc8bb5e900ceebe395b20e17f36a125f4c3ebb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:24 +0000
Subject: [PATCH 43/48] fix: keep a replaced channel until its signals and
 blocking calls are done

---
 src/grpc/qabstractgrpcclient.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/grpc/qabstractgrpcclient.cpp b/src/grpc/qabstractgrpcclient.cpp
index 2596bee..fc54af3 100644
--- a/src/grpc/qabstractgrpcclient.cpp
+++ b/src/grpc/qabstractgrpcclient.cpp
@@ -74,6 +74,8 @@ void QAbstractGrpcClient::attachChannel(const std::shared_ptr<QAbstractGrpcChann
     for (auto reply : findChildren<QGrpcCallReply *>(QString(), Qt::FindDirectChildrenOnly)) {
         reply->abort();
     }
+    //Channel might be replaced by handler of signal that is emitted by this channel, so it has to be released later
+    QMetaObject::invokeMethod(this, [channel = dPtr->channel]() {}, Qt::QueuedConnection);
     dPtr->channel = channel;
     for (auto stream : std::vector<QGrpcStreamShared>(dPtr->activeStreams)) {
         stream->abort();
@@ -92,7 +94,8 @@ QGrpcStatus QAbstractGrpcClient::call(const QString &method, const QByteArray &a
     }
 
     if (dPtr->channel) {
-        callStatus = dPtr->channel->call(method, dPtr->service, arg, ret);
+        auto channel = dPtr->channel; //Channel might be replaced while waiting for the reply
+        callStatus = channel->call(method, dPtr->service, arg, ret);
     } else {
         callStatus = QGrpcStatus{QGrpcStatus::Unknown, QLatin1String("No channel(s) attached.")};
     }
-- 
2.43.0


From 6830b3df5a1a18464882781010731123d2cb408c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:46 +0000
Subject: [PATCH 44/48] fix: decode the percent-encoded status message of a
 gRPC server

---
 src/grpc/qgrpchttp2channel.cpp | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/grpc/qgrpchttp2channel.cpp b/src/grpc/qgrpchttp2channel.cpp
index 7bb1ae0..291a529 100644
--- a/src/grpc/qgrpchttp2channel.cpp
+++ b/src/grpc/qgrpchttp2channel.cpp
@@ -34,6 +34,7 @@
 #include <QtEndian>
 #include <QMetaObject>
 
+#include <cctype>
 #include <unordered_map>
 
 #include "qgrpccallreply.h"
@@ -172,6 +173,22 @@ struct QGrpcHttp2ChannelPrivate {
         return networkReply->readAll().mid(GrpcMessageSizeHeaderSize);
     }
 
+    // The status message is percent-encoded, a '%' that starts no valid sequence stands for itself
+    static QString statusMessage(QNetworkReply *networkReply) {
+        const QByteArray encoded = networkReply->rawHeader(GrpcStatusMessage);
+        QByteArray message;
+        for (int i = 0; i < encoded.size(); i++) {
+            const QByteArray code = encoded.mid(i + 1, 2);
+            if (encoded.at(i) == '%' && code.size() == 2 && isxdigit(uchar(code.at(0))) && isxdigit(uchar(code.at(1)))) {
+                message.append(QByteArray::fromHex(code));
+                i += 2;
+            } else {
+                message.append(encoded.at(i));
+            }
+        }
+        return QString::fromUtf8(message);
+    }
+
     QGrpcHttp2ChannelPrivate(const QUrl &_url, std::unique_ptr<QAbstractGrpcCredentials> _credentials)
         : url(_url)
         , credentials(std::move(_credentials))
@@ -249,7 +266,7 @@ QGrpcStatus QGrpcHttp2Channel::call(const QString &method, const QString &servic
 
     networkReply->deleteLater();
     qProtoDebug() << __func__ << "RECV: " << ret.toHex() << "grpcStatus" << grpcStatus;
-    return {grpcStatus, QString::fromUtf8(networkReply->rawHeader(GrpcStatusMessage))};
+    return {grpcStatus, QGrpcHttp2ChannelPrivate::statusMessage(networkReply)};
 }
 
 void QGrpcHttp2Channel::call(const QString &method, const QString &service, const QByteArray &args, QGrpcCallReply *reply)
@@ -275,7 +292,7 @@ void QGrpcHttp2Channel::call(const QString &method, const QString &service, cons
             reply->finished();
         } else {
             reply->setData({});
-            reply->error({grpcStatus, QString::fromUtf8(networkReply->rawHeader(GrpcStatusMessage))});
+            reply->error({grpcStatus, QGrpcHttp2ChannelPrivate::statusMessage(networkReply)});
         }
         networkReply->deleteLater();
     });
@@ -350,7 +367,7 @@ void QGrpcHttp2Channel::stream(QGrpcStream *grpcStream, const QString &service,
             QGrpcStatus::StatusCode grpcStatus;
             QGrpcHttp2ChannelPrivate::processReply(networkReply, grpcStatus);
             if (grpcStatus != QGrpcStatus::StatusCode::Ok) {
-                grpcStream->error(QGrpcStatus{grpcStatus, QString::fromUtf8(networkReply->rawHeader(GrpcStatusMessage))});
+                grpcStream->error(QGrpcStatus{grpcStatus, QGrpcHttp2ChannelPrivate::statusMessage(networkReply)});
             } else {
                 grpcStream->finished();
             }
-- 
2.43.0


From 19f69a3a16924d3f4dfa658841dc8f24143e4de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:54 +0000
Subject: [PATCH 45/48] fix: read every non-zero varint as true for fields of
 type bool

---
 src/protobuf/qprotobufserializer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/protobuf/qprotobufserializer.cpp b/src/protobuf/qprotobufserializer.cpp
index 53c4340..080d440 100644
--- a/src/protobuf/qprotobufserializer.cpp
+++ b/src/protobuf/qprotobufserializer.cpp
@@ -221,7 +221,7 @@ QProtobufSerializerPrivate::QProtobufSerializerPrivate(QProtobufSerializer *q) :
         wrapSerializer<fixed64, serializeBasic, deserializeBasic<fixed64>, Fixed64>();
         wrapSerializer<sfixed32, serializeBasic, deserializeBasic<sfixed32>, Fixed32>();
         wrapSerializer<sfixed64, serializeBasic, deserializeBasic<sfixed64>, Fixed64>();
-        wrapSerializer<bool, uint32, serializeBasic<uint32>, deserializeBasic<uint32>, Varint>();
+        wrapSerializer<bool, uint32, serializeBasic<uint32>, deserializeBasic<bool>, Varint>();
         wrapSerializer<QString, serializeBasic, deserializeBasic<QString>, LengthDelimited>();
         wrapSerializer<QByteArray, serializeBasic, deserializeBasic<QByteArray>, LengthDelimited>();
 
-- 
2.43.0


From 2df82b589043695dc5ee8c09340f2275ba556e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:03 +0000
Subject: [PATCH 46/48] fix: QML calls of a client without a channel report the
 error to their error callback

---
 src/generator/templates.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/generator/templates.cpp b/src/generator/templates.cpp
index f15fb7b..d56aaeb 100644
--- a/src/generator/templates.cpp
+++ b/src/generator/templates.cpp
@@ -334,6 +334,11 @@ const char *Templates::ClientMethodDefinitionQmlTemplate = "\nvoid $classname$::
                                                            "        return;\n"
                                                            "    }\n\n"
                                                            "    QtProtobuf::QGrpcCallReplyShared reply = call(\"$method_name$\", *$param_name$);\n"
+                                                           "    if (reply == nullptr) {\n"
+                                                           "        qProtoWarning() << \"Unable to call $classname$::$method_name$, no channel attached\";\n"
+                                                           "        QJSValue(errorCallback).call(QJSValueList{jsEngine->toScriptValue(QtProtobuf::QGrpcStatus(QtProtobuf::QGrpcStatus::Unknown, QLatin1String(\"No channel(s) attached.\")))});\n"
+                                                           "        return;\n"
+                                                           "    }\n\n"
                                                            "    reply->subscribe(jsEngine, [this, reply, callback, jsEngine]() {\n"
                                                            "        auto result = new $return_type$(reply->read<$return_type$>());\n"
                                                            "        qmlEngine(this)->setObjectOwnership(result, QQmlEngine::JavaScriptOwnership);\n"
@@ -359,6 +364,11 @@ const char *Templates::ClientMethodDefinitionQml2Template = "\nvoid $classname$:
                                                             "        return;\n"
                                                             "    }\n\n"
                                                             "    QtProtobuf::QGrpcCallReplyShared reply = call(\"$method_name$\", *$param_name$);\n"
+                                                            "    if (reply == nullptr) {\n"
+                                                            "        qProtoWarning() << \"Unable to call $classname$::$method_name$, no channel attached\";\n"
+                                                            "        QJSValue(errorCallback).call(QJSValueList{jsEngine->toScriptValue(QtProtobuf::QGrpcStatus(QtProtobuf::QGrpcStatus::Unknown, QLatin1String(\"No channel(s) attached.\")))});\n"
+                                                            "        return;\n"
+                                                            "    }\n\n"
                                                             "    reply->subscribe(jsEngine, [this, reply, jsEngine, safeReturn]() {\n"
                                                             "        if (safeReturn.isNull()) {\n"
                                                             "            qProtoWarning() << \"Return value is destroyed. Ignore call result\";\n"
-- 
2.43.0


From 74fc80b945acf3a55fa42a7f8289a0defb93d46f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:37 +0000
Subject: [PATCH 47/48] fix: a response that fails to decode leaves the return
 value of the call untouched

---
 src/grpc/qabstractgrpcclient.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/grpc/qabstractgrpcclient.h b/src/grpc/qabstractgrpcclient.h
index 669ce02..98b1e47 100644
--- a/src/grpc/qabstractgrpcclient.h
+++ b/src/grpc/qabstractgrpcclient.h
@@ -209,7 +209,9 @@ private:
         auto _serializer = serializer();
         if (_serializer != nullptr) {
             try {
-                ret.deserialize(_serializer.get(), retData);
+                R value; //Keeps ret untouched if deserialization fails
+                value.deserialize(_serializer.get(), retData);
+                ret = value;
             } catch (std::invalid_argument &) {
                 static const QLatin1String invalidArgumentErrorMessage("Response deserialization failed invalid field found");
                 status = {QGrpcStatus::InvalidArgument, invalidArgumentErrorMessage};
-- 
2.43.0


From 380dde9bd47bfa96df6fa668e40e7ba2e0832afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:29 +0000
Subject: [PATCH 48/48] fix: generated callback and QML calls do not keep their
 reply objects after the call is ended

---
 src/generator/templates.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/generator/templates.cpp b/src/generator/templates.cpp
index d56aaeb..5e0553d 100644
--- a/src/generator/templates.cpp
+++ b/src/generator/templates.cpp
@@ -313,9 +313,16 @@ const char *Templates::ClientMethodDefinitionAsyncTemplate = "\nQtProtobuf::QGrp
 const char *Templates::ClientMethodDefinitionAsync2Template = "\nvoid $classname$::$method_name$(const $param_type$ &$param_name$, const QObject *context, const std::function<void(QGrpcCallReplyShared)> &callback)\n"
                                                               "{\n"
                                                               "    QtProtobuf::QGrpcCallReplyShared reply = call(\"$method_name$\", $param_name$);\n"
-                                                              "    QObject::connect(reply.get(), &QtProtobuf::QGrpcCallReply::finished, context, [reply, callback]() {\n"
+                                                              "    //Connections must not keep reply when call is ended\n"
+                                                              "    auto keeper = std::make_shared<QtProtobuf::QGrpcCallReplyShared>(reply);\n"
+                                                              "    QObject::connect(reply.get(), &QtProtobuf::QGrpcCallReply::finished, context, [keeper, callback]() {\n"
+                                                              "        QtProtobuf::QGrpcCallReplyShared reply;\n"
+                                                              "        keeper->swap(reply);\n"
                                                               "        callback(reply);\n"
                                                               "    });\n"
+                                                              "    QObject::connect(reply.get(), &QtProtobuf::QGrpcCallReply::error, context, [keeper]() {\n"
+                                                              "        keeper->reset();\n"
+                                                              "    });\n"
                                                               "}\n";
 
 const char *Templates::ClientMethodDefinitionQmlTemplate = "\nvoid $classname$::$method_name$($param_type$ *$param_name$, const QJSValue &callback, const QJSValue &errorCallback)\n"
@@ -339,7 +346,7 @@ const char *Templates::ClientMethodDefinitionQmlTemplate = "\nvoid $classname$::
                                                            "        QJSValue(errorCallback).call(QJSValueList{jsEngine->toScriptValue(QtProtobuf::QGrpcStatus(QtProtobuf::QGrpcStatus::Unknown, QLatin1String(\"No channel(s) attached.\")))});\n"
                                                            "        return;\n"
                                                            "    }\n\n"
-                                                           "    reply->subscribe(jsEngine, [this, reply, callback, jsEngine]() {\n"
+                                                           "    reply->subscribe(jsEngine, [this, reply = reply.get(), callback, jsEngine]() {\n"
                                                            "        auto result = new $return_type$(reply->read<$return_type$>());\n"
                                                            "        qmlEngine(this)->setObjectOwnership(result, QQmlEngine::JavaScriptOwnership);\n"
                                                            "        QJSValue(callback).call(QJSValueList{jsEngine->toScriptValue(result)});\n"
@@ -369,7 +376,7 @@ const char *Templates::ClientMethodDefinitionQml2Template = "\nvoid $classname$:
                                                             "        QJSValue(errorCallback).call(QJSValueList{jsEngine->toScriptValue(QtProtobuf::QGrpcStatus(QtProtobuf::QGrpcStatus::Unknown, QLatin1String(\"No channel(s) attached.\")))});\n"
                                                             "        return;\n"
                                                             "    }\n\n"
-                                                            "    reply->subscribe(jsEngine, [this, reply, jsEngine, safeReturn]() {\n"
+                                                            "    reply->subscribe(jsEngine, [this, reply = reply.get(), jsEngine, safeReturn]() {\n"
                                                             "        if (safeReturn.isNull()) {\n"
                                                             "            qProtoWarning() << \"Return value is destroyed. Ignore call result\";\n"
                                                             "            return;\n"
-- 
2.43.0

