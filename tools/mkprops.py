#!/usr/bin/env python3
# writes properties.jsonl (single source of the property texts)
import json,os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,**kw):
    a={"files":files,"mechanism":[{"name":m,"where":files[min(i,len(files)-1)]} for i,m in enumerate(mech)]}
    a.update(kw)
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

SER=["src/protobuf/qprotobufserializer.cpp","src/protobuf/qprotobufserializer_p.h","src/protobuf/qabstractprotobufserializer_p.h"]
p("P01","Encoded messages are read back identically by any protobuf implementation",
  "For every message type and every assignment of values to its fields (all scalar kinds, enums, strings, bytes, sub-messages, repeated fields and maps), the bytes produced by binary serialization are a valid protobuf encoding that a conforming protobuf decoder decodes to exactly those values. Serializing never changes the message and two serializations of equal messages carry equal content.",
  ["inputs"],"all field kinds x boundary value alphabets, alone, in pairs and all at once, x field numbers of every tag length, x nesting",
  "A test compares a handful of hand-encoded byte strings; the encoding must be right for every value, tag length, list shape and combination.",
  SER,["varint/zigzag/fixed/length-delimited encoders","field header encoding","packed lists, unpacked string/bytes/message lists","map pair encoding"])
p("P02","Every valid protobuf encoding decodes to the value it denotes",
  "Deserializing any valid proto3 encoding of a message yields the values a conforming decoder assigns to it: fields may come in any order, scalars may repeat (last one wins), repeated fields may be split into several chunks (elements concatenate in order), sub-message occurrences merge, map entries may repeat or omit their key or value (default is used), and varints may be longer than minimal.",
  ["inputs","histories"],"all sequences of wire records up to a depth over an alphabet of records for every field kind",
  "Peers may legally encode one value in unboundedly many ways; tests only decode the form the library itself writes.",
  SER,["field dispatch loop","list append", "map pair decoding","varint decoding"])
p("P03","Deserialization inverts serialization and replaces the target completely",
  "For every message value, deserializing its serialized bytes gives a message that compares equal to the original, whatever the target object held before: no field of the previous content survives and fields absent from the data return to their defaults. Deserializing the same bytes twice, or after any earlier deserialization on the same serializer, gives the same result.",
  ["inputs","histories"],"all (previous content, new content) pairs over the value alphabets; all sequences of deserializations to a depth",
  "Tests deserialize into fresh objects with one payload; state leaking from an earlier payload needs a particular pair of payloads.",
  SER+["src/protobuf/qabstractprotobufserializer.h","src/protobuf/qtprotobuftypes.h"],["fresh default object then assignment","generated copy assignment and comparison"])
p("P04","Unknown fields are skipped without disturbing known fields",
  "A message that contains fields the receiving type does not declare, of any field number and any wire type except groups, at any position and any nesting level, deserializes without error to exactly the known fields' values. Two versions of a schema can therefore exchange messages in both directions.",
  ["inputs"],"all insertions of one or two unknown records (every wire type, payload length class and tag length) at every record boundary of a set of valid encodings",
  "Only specific positions, tag lengths and payload sizes reveal a skip that is off by some bytes.",
  SER,["skipping of unknown fields per wire type"])
p("P05","Hostile or damaged input never breaks memory safety or hangs the decoder",
  "For every byte string whatsoever, deserialization terminates and either succeeds or throws one of the two documented exception types (invalid argument, out of range); it never reads or writes outside the given buffer, never crashes, never loops forever and never allocates memory out of proportion to the input. The serializer stays usable afterwards.",
  ["inputs"],"all byte strings up to a length over a byte alphabet, all truncations, all single-byte substitutions and all length-prefix manipulations of valid encodings, for a set of message types covering every field kind, under address and undefined-behaviour sanitizers",
  "The space of malformed inputs is unbounded and tests try three of them, without a memory checker.",
  SER+["src/protobuf/qprotobufselfcheckiterator.h"],["bounds-checked iterator","length-delimited reader","fixed-size readers","varint reader"])
p("P06","Truncated or structurally invalid data is always reported",
  "If a buffer ends inside a field, a length prefix points past the end of its enclosing message, a field header is invalid (field number 0, group or reserved wire type) or a varint runs past ten bytes, deserialization reports an error by exception; it never silently returns as if the data had been complete. Errors inside nested messages, list elements and map entries are reported in the same way.",
  ["inputs"],"every strict prefix and every invalid-header or over-long-length mutation of a set of valid encodings, at every nesting level",
  "Detecting truncation depends on the exact cut position and field kind; tests try one or two.",
  SER+["src/protobuf/qprotobufselfcheckiterator.h"],["header validation","end-of-buffer checks in nested buffers"])
p("P07","Generated messages are well-behaved values",
  "For any sequence of constructing, setting, copying, moving, assigning and comparing messages, every message holds exactly the field values a plain record would hold: copies and assignments compare equal to their source and leave it unchanged, a moved-to message equals what the source held, equality holds exactly when all fields are equal (sub-messages, list elements and map entries compared by content), and changing a singular field of a copy never changes the original.",
  ["histories"],"all operation sequences up to a depth on a small set of objects, for message types covering every field kind",
  "Aliasing and comparison errors need particular sequences and particular pairs of values (e.g. maps of equal size with different keys).",
  ["src/generator/messagedefinitionprinter.cpp","src/generator/messagedeclarationprinter.cpp","src/generator/templates.cpp","src/protobuf/qtprotobuftypes.h","src/protobuf/qprotobuflazymessagepointer.h"],
  ["generated constructors, assignment and comparison","content comparison of lists and maps","lazily created sub-message holder"])
p("P08","Change notifications match property changes",
  "Whenever a message property is written, through its setter, the property system or assignment from another message, its change notification is emitted exactly once if the value changed and not at all if the value stayed the same; a binding that re-reads on notification therefore always shows the current value.",
  ["histories"],"all setter, property-write and assignment sequences up to a depth for every field kind",
  "A missing or spurious notification shows only for a particular field kind and a particular old/new value pair.",
  ["src/generator/templates.cpp","src/generator/messagedefinitionprinter.cpp","src/protobuf/qprotobuflazymessagepointer.h"],["generated setters","assignment operators"])
p("P09","Sub-message and list element ownership is memory safe",
  "For any sequence of reading, replacing, externally deleting, copying and destroying messages, sub-messages set through the property system and elements appended, cleared or indexed through the QML list interface, no object is used after it was freed, freed twice, or (when owned by the message) leaked.",
  ["histories"],"all operation sequences up to a depth over holder, sub-message, list property and map operations, under an address sanitizer",
  "Lifetime errors require a specific order of deletion and access.",
  ["src/protobuf/qprotobuflazymessagepointer.h","src/protobuf/qqmllistpropertyconstructor.h","src/generator/templates.cpp"],["lazy pointer reset/release logic","destroyed-signal tracking","QML list property functions"])
p("P10","Serialization is safe from any number of threads",
  "Threads that use separate message objects may serialize and deserialize concurrently, and new message types may be registered at the same time, including the very first use in the process: in every interleaving no data race or deadlock occurs, every thread obtains exactly the result it would obtain alone, and a type once registered stays registered.",
  ["schedules"],"all interleavings up to a preemption bound of 2-3 threads doing construction, serialization, deserialization and registration",
  "Tests run on one thread; a bad interleaving is practically never hit by chance.",
  ["src/protobuf/qabstractprotobufserializer.cpp","src/protobuf/qprotobufserializer.cpp","src/protobuf/qprotobufserializer_p.h"],
  ["handler registry with write lock and read semaphore","static handler table initialisation"],state=[{"name":"handler tables","meaning":"process-wide map from type to encode/decode handlers","where":"src/protobuf/qabstractprotobufserializer.cpp"}])
p("P11","Serializer lookup returns the requested serializer or fails cleanly",
  "For any sequence of plugin loads (existing, repeated or missing) and lookups, asking for a serializer by id and plugin returns the implementation that plugin provides, repeated lookups return the same object, a lookup of an unknown id or plugin throws an exception, a query about an unknown plugin returns a neutral value, and a failed lookup or load never affects serializers obtained before or later.",
  ["histories"],"all sequences of load and query operations up to a depth",
  "Interference between loads and lookups needs particular sequences.",
  ["src/protobuf/qprotobufserializerregistry.cpp"],["plugin records keyed by name","default implementation record"])
p("P12","HTTP/2 streams deliver every message exactly once, whole and in order",
  "However the transport splits or merges the bytes of a server stream, the client receives exactly the sequence of messages the server sent: none lost, duplicated, merged, truncated or reordered, including empty messages and messages that arrive together with the end of the stream.",
  ["inputs","schedules"],"all chunkings of all short sequences of messages of boundary sizes, with every position of the end of stream",
  "Chunk boundaries are chosen by the network; tests on loopback see practically one.",
  ["src/grpc/qgrpchttp2channel.cpp","src/grpc/qgrpcstream.h"],["length-prefixed reassembly buffer per network reply"],observe_at=["stream handler / message-received notification"])
p("P13","Every unary HTTP/2 call ends exactly once with the right outcome",
  "Every asynchronous call ends with exactly one finished or error notification and every blocking call returns; a reply with status OK yields exactly the server's response message, and network failures, non-OK gRPC statuses, undecodable replies, user aborts and unanswered calls (bounded deadline) yield an error with the documented status code and message and no data. After the end of a call no further notification is delivered.",
  ["fault_sequences","histories"],"all environment answers (every network error, every gRPC status, payload classes, chunkings, silence) x all points of abort x call kinds, in virtual time",
  "Failures, timeouts and aborts at particular moments do not occur on a healthy loopback server.",
  ["src/grpc/qgrpchttp2channel.cpp","src/grpc/qgrpccallreply.cpp","src/grpc/qabstractgrpcclient.cpp","src/grpc/qabstractgrpcclient.h","src/grpc/qgrpcasyncoperationbase_p.h"],
  ["network error to status mapping","grpc-status header handling","deadline timer","abort"])
p("P14","A stream subscription recovers, ends and cancels correctly over HTTP/2",
  "While a subscription is active there is exactly one open request for it: after an error the client reports it and re-subscribes after its retry delay, after a dropped connection it reconnects, and after a normal end of stream or a cancel it reports finished exactly once. Once a subscription has finished, been cancelled or its client destroyed, no further message, error or re-subscription occurs and the network request is closed.",
  ["fault_sequences","histories","schedules"],"all sequences up to a depth of server messages, stream endings of every kind, cancels, client destruction and time passing",
  "Races between an error, the retry timer and a cancel need a specific order of events.",
  ["src/grpc/qabstractgrpcclient.cpp","src/grpc/qgrpchttp2channel.cpp","src/grpc/qgrpcstream.cpp"],["retry timer","active stream list","connection bookkeeping per network reply"])
p("P15","Clients share identical subscriptions and survive channel changes",
  "Subscribing again to the same method with an equal argument while the first subscription is active returns the same subscription without a second request, and every registered receiver gets every later message exactly once; subscriptions with a different method or argument stay independent. Attaching a new channel ends every subscription of the old one exactly once, and a client without a channel reports an error for each operation instead of failing.",
  ["histories"],"all sequences up to a depth of subscribe, message, error, end, cancel and channel changes over two methods and two arguments against a reference model",
  "The interplay of sharing, removal and channel replacement depends on the history.",
  ["src/grpc/qabstractgrpcclient.cpp","src/grpc/qabstractgrpcclient.h","src/grpc/qgrpcstream.cpp","src/grpc/qgrpcstream.h"],["active stream lookup by method and argument","attachChannel"])
p("P16","Clients may be used from other threads",
  "Calls, subscriptions and cancels issued from threads other than the client's own behave as if issued in the client's thread: each is performed exactly once on the client's thread, its result is returned to the requesting thread, results are never swapped between threads, a cancel has taken effect when it returns, and no interleaving deadlocks while the client's thread processes events.",
  ["schedules"],"all orders in which requests of 2-3 threads reach the client and in which their answers arrive",
  "Tests make one cross-thread call at a time; swapped results need overlapping requests.",
  ["src/grpc/qabstractgrpcclient.cpp","src/grpc/qgrpccallreply.cpp","src/grpc/qgrpcstream.cpp"],["blocking queued invocation onto the client's thread"])
p("P17","The native gRPC channel reports results faithfully",
  "Through the native channel, every unary call ends exactly once with the server's response or the server's status, streams deliver every message in order and then end exactly once with finished (server closed with OK) or error (any other status), and after a cancel or client destruction nothing more is delivered.",
  ["fault_sequences","schedules"],"all short server scripts (messages, status codes) x all points of cancel and client destruction x orders of transport completion and event delivery",
  "Ordering between the transport thread and the event loop and failures at particular points are not exercised by tests against an echo server.",
  ["src/grpc/qgrpcchannel.cpp","src/grpc/qgrpcchannel_p.h"],["worker thread per call/stream","queued signal delivery"])
p("P18","The QML stream element tracks its inputs",
  "For any sequence of changes of client, method, argument and enabled flag, and of stream events, the element has exactly one live subscription exactly when it is enabled and all inputs are valid and the stream has not ended; it delivers each message once with the decoded value, turns itself off when the stream finishes or cannot be started, and leaves no subscription behind when disabled, reconfigured or destroyed.",
  ["histories"],"all sequences of property changes and stream events up to a depth",
  "Leaked or missing subscriptions depend on the order in which bindings are evaluated.",
  ["src/grpc/quick/qquickgrpcstream.cpp","src/grpc/quick/qquickgrpcstream_p.h"],["updateStream on every input change"])
p("P19","Generated classes represent exactly the schema",
  "For every supported proto3 schema the generator produces code that compiles and in which every field appears as a property of the corresponding type bound to the schema's field number and JSON name, every enum value keeps its name and number, nested, imported and mutually referring types resolve to the right classes, and field names that are reserved words of QML (id, property, import) are escaped.",
  ["programs"],"all schemas of a bounded grammar: field kinds x cardinalities x field numbers x naming styles x nesting/import/reference shapes",
  "Each schema is a different program; tests fix about ten.",
  ["src/generator/generatorcommon.cpp","src/generator/messagedeclarationprinter.cpp","src/generator/messagedefinitionprinter.cpp","src/generator/singlefilegenerator.cpp","src/generator/multifilegenerator.cpp","src/generator/templates.cpp","src/generator/utils.h"],["type and name mapping","property index to field number table"])
p("P20","Generator options change packaging, never meaning",
  "The same schema generated in single-file or multi-file mode, with or without folder structure, comments, QML support or an extra namespace, yields classes with the same properties, field numbers, enum values and wire format; output is deterministic, and each option has exactly its documented effect whatever other options accompany it.",
  ["configurations","programs"],"all combinations of generator options x a set of schemas",
  "Options interact; tests use two or three fixed combinations.",
  ["src/generator/generatoroptions.cpp","src/generator/singlefilegenerator.cpp","src/generator/multifilegenerator.cpp","src/generator/generatorbase.cpp"],["option parsing","file naming and include emission"])
p("P21","Generated clients call the method the schema names",
  "For every service in a schema, each generated client method issues exactly one request to that service's full name and that method's name with the given argument's encoding, as a unary call or as a server stream according to the schema, and hands back the response type the schema declares; blocking, asynchronous, callback and QML variants all reach the same endpoint.",
  ["programs","inputs"],"all services of a bounded grammar (packages x names x unary/streaming x local/imported/nested types), every generated method variant",
  "Tests cover one service.",
  ["src/generator/clientdeclarationprinter.cpp","src/generator/clientdefinitionprinter.cpp","src/generator/servicedeclarationprinterbase.cpp","src/generator/templates.cpp"],["client method templates"])
p("P22","Qt value types survive conversion to protobuf and back",
  "Every valid value of each supported Qt type (URL, character, UUID, colour, time, date, date-time, sizes, points, rectangles, polygons, vectors, matrices, transforms, quaternions, images) placed in a (singular) message field and sent over the wire arrives equal to the original, is readable by other implementations through the published schema, and distinct values remain distinct. Colours are 8-bit RGBA, date-times are local times, images are compared by their pixels.",
  ["inputs"],"boundary-value grids for each component of each type, alone, beside other fields, and in nested messages, lists and maps of messages",
  "A swapped or narrowed component shows only for particular values; tests use one value per type.",
  ["src/qttypes/qtprotobufqttypes.cpp","src/qttypes/qtprotobufqttypes.h","src/qttypes/QtProtobuf"],["convert() pairs for every type"])
p("P23","Well-known types interoperate",
  "The well-known protobuf types (any, duration, empty, field mask, struct, timestamp, wrappers, source context, type, api) exchanged with a conforming implementation keep all their values (members of a oneof at their default count as unset), and a QDateTime converted to a timestamp, sent and converted back is the same instant to the millisecond.",
  ["inputs"],"boundary-value enumeration of every field of every well-known type in both directions against the reference implementation",
  "Tests cover one value of one type.",
  ["src/wellknowntypes","src/generator/messagedefinitionprinter.cpp"],["classes generated from the system's well-known proto files"])
p("P24","JSON serialization is faithful",
  "For every message value, JSON serialization yields the canonical proto3 JSON form and JSON deserialization inverts it.",
  ["inputs"],"all field kinds x value alphabets","JSON tests sample a few values per kind.",
  ["src/protobuf/qprotobufjsonserializer.cpp"],["JSON reader and writer"])
p("P25","Every request carries its credentials and correct framing",
  "Each request issued over HTTP/2 (blocking, asynchronous, stream, retried or reconnected stream) goes to the configured host under the service's and method's path, carries every call credential as a header and the gRPC content headers, and its body is exactly the length-prefixed serialized argument; an encrypted channel without the required configuration is refused at construction.",
  ["inputs","configurations"],"all combinations of request kind x URL form x credential sets x argument size classes",
  "Only particular combinations (e.g. reconnects, empty or large arguments) would lose a header or misframe.",
  ["src/grpc/qgrpchttp2channel.cpp","src/grpc/qgrpccredentials.h","src/grpc/qgrpcuserpasswordcredentials.h"],["request construction"])
p("P26","Finished operations leave nothing behind",
  "Once a call or subscription has ended (answered, failed, cancelled, timed out), the user has dropped the pointers to it and its deadline has passed, nothing of it remains: client, channel and network layer keep no object, timer, open request or memory for it, so a client in constant use does not grow, whatever operations it performs and however they overlap; other subscriptions are not affected, and when client and channel are destroyed nothing of them remains. This holds for blocking, asynchronous, callback, QML and stream calls and the QML stream element, over HTTP/2 and the native channel.",
  ["histories"],"all kinds and outcomes of operations, alone and in every pair overlapping in every order, round after round",
  "Tests perform each operation once in a process that ends soon after; what remains of it is not looked at.",
  ["src/grpc/qabstractgrpcclient.cpp","src/grpc/qabstractgrpcclient.h","src/grpc/qgrpchttp2channel.cpp","src/grpc/qgrpcchannel.cpp","src/grpc/quick/qquickgrpcstream.cpp","src/generator/templates.cpp"],["ownership of replies, streams, network replies, worker threads and connections"])
ids=set(os.environ.get("ONLY","").split(",")) if os.environ.get("ONLY") else None
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        if ids is None or x["id"] in ids: f.write(json.dumps(x)+"\n")
