"""The checks: how each property's harness is built and which spaces it explores."""
import os, re, subprocess, sys, time, traceback
import vbuild
from driver import *

H = VERIF + "/harness/"
BUILDERS = {}
PROPS = {}


class Prop:
    def __init__(self, id, targets, spaces, rule, assumptions=(), level="model_checking", probes=(), gen_violation=False, technique=None, note=None, custom=None):
        """targets: names in BUILDERS; spaces: list of (target, mode[, kwargs]); probes: known-finding probes (target, name)"""
        self.id, self.targets, self.spaces, self.rule, self.assumptions, self.level, self.probes = id, targets, spaces, rule, assumptions, level, probes
        self.gen_violation, self.custom = gen_violation, custom
        self.technique = technique or "explicit-state enumeration of message values and wire histories on the real code, reference implementation as oracle"
        self.note = note or "Exhaustive within the stated bounds on the real code; trusts: " + "; ".join(assumptions)
        PROPS[id] = self


def builder(f):
    BUILDERS[f.__name__] = f
    return f


def _wire(b, v):
    g = b.gen("wire", [VERIF + "/proto/wire.proto"], VERIF + "/proto")
    r = b.gen("rec", [VERIF + "/proto/rec.proto"], VERIF + "/proto")
    objs = b.lib("protobuf", v) + b.genobjs(g, v) + b.genobjs(r, v)
    objs.append(b.obj(H + "wire.cpp", v, ["-I" + g["dir"], "-I" + r["dir"], '-DWIRE_FDS=\\"%s\\"' % g["fds"], '-DREC_FDS=\\"%s\\"' % r["fds"]],
                      implicit=g["files"] + r["files"] + [g["bridge"], g["fds"], r["bridge"], r["fds"]]))
    objs.append(b.obj(H + "bridge.cpp", v))
    return b.exe("wire." + v, v, objs, libs="-lprotobuf")


@builder
def wire_plain(b):
    return _wire(b, "plain")


@builder
def wire_asan(b):
    return _wire(b, "asan")


def _http2(b, v):
    g = b.gen("svc", [VERIF + "/proto/svc.proto"], VERIF + "/proto", grpc=["svc"], nobridge=True)
    objs = b.lib("protobuf", v) + b.lib("grpc", v) + b.genobjs(g, v)
    objs.append(b.obj(H + "http2.cpp", v, ["-I" + g["dir"]], implicit=g["files"]))
    objs.append(b.obj(H + "evkit.cpp", v))
    return b.exe("http2." + v, v, objs, libs="-Wl,--copy-dt-needed-entries -lgrpc++ -lgrpc -lgpr")


@builder
def http2_plain(b):
    return _http2(b, "plain")


@builder
def http2_asan(b):
    return _http2(b, "asan")


@builder
def client_asan(b):
    v = "asan"
    g = b.gen("svc", [VERIF + "/proto/svc.proto"], VERIF + "/proto", grpc=["svc"], nobridge=True)
    objs = b.lib("protobuf", v) + b.lib("grpc", v) + b.genobjs(g, v)
    objs.append(b.obj(H + "client.cpp", v, ["-I" + g["dir"]], implicit=g["files"]))
    objs.append(b.obj(H + "evkit.cpp", v))
    return b.exe("client." + v, v, objs, libs="-Wl,--copy-dt-needed-entries -lgrpc++ -lgrpc -lgpr")


@builder
def native_asan(b):
    v = "asan"
    g = b.gen("svc", [VERIF + "/proto/svc.proto"], VERIF + "/proto", grpc=["svc"], nobridge=True)
    objs = b.lib("protobuf", v) + b.lib("grpc", v) + b.genobjs(g, v)
    objs.append(b.obj(H + "native.cpp", v, ["-I" + g["dir"]], implicit=g["files"]))
    objs.append(b.obj(H + "evkit.cpp", v))
    return b.exe("native." + v, v, objs, libs="-Wl,--copy-dt-needed-entries -lgrpc++ -lgrpc -lgpr")


@builder
def threads_asan(b):
    v = "asan"
    g = b.gen("svc", [VERIF + "/proto/svc.proto"], VERIF + "/proto", grpc=["svc"], nobridge=True)
    objs = b.lib("protobuf", v) + b.lib("grpc", v) + b.genobjs(g, v)
    objs.append(b.obj(H + "threads.cpp", v, ["-I" + g["dir"]], implicit=g["files"]))
    objs.append(b.obj(H + "evkit.cpp", v))
    return b.exe("threads." + v, v, objs, libs="-Wl,--copy-dt-needed-entries -lgrpc++ -lgrpc -lgpr")


@builder
def quick_asan(b):
    v = "asan"
    g = b.gen("svcqml", [VERIF + "/proto/svc.proto"], VERIF + "/proto", "QML", grpc=["svc"], nobridge=True)
    q = vbuild.SRC + "/grpc/quick/"
    objs = b.lib("protobuf", v) + b.lib("grpc", v) + b.genobjs(g, v)
    objs += [b.obj(q + "qquickgrpcstream.cpp", v, ["-I" + q]), b.obj(b.moc(q + "qquickgrpcstream_p.h"), v, ["-I" + q])]
    objs.append(b.obj(H + "quick.cpp", v, ["-I" + g["dir"], "-I" + q], implicit=g["files"]))
    objs.append(b.obj(H + "evkit.cpp", v))
    return b.exe("quick." + v, v, objs, libs="-Wl,--copy-dt-needed-entries -lgrpc++ -lgrpc -lgpr")


def _object(b, v):
    g = b.gen("wireqml", [VERIF + "/proto/wire.proto"], VERIF + "/proto", "QML")
    objs = b.lib("protobuf", v) + b.genobjs(g, v)
    objs.append(b.obj(H + "object.cpp", v, ["-I" + g["dir"]], implicit=g["files"] + [g["bridge"]]))
    objs.append(b.obj(H + "bridge.cpp", v))
    return b.exe("object." + v, v, objs, libs="-lprotobuf")


@builder
def object_plain(b):
    return _object(b, "plain")


@builder
def mt_tsan(b):
    g = b.gen("wire", [VERIF + "/proto/wire.proto"], VERIF + "/proto")
    objs = b.lib("protobuf", "tsan") + b.genobjs(g, "tsan")
    objs.append(b.obj(H + "mt.cpp", "tsan", ["-I" + g["dir"]], implicit=g["files"]))
    objs.append(b.obj(H + "schedrt.cpp", "plain"))
    return b.exe("mt.tsan", "tsan", objs, libs="-ldl")


@builder
def own_asan(b):
    v = "asan"
    g = b.gen("wireqml", [VERIF + "/proto/wire.proto"], VERIF + "/proto", "QML")
    objs = b.lib("protobuf", v) + b.genobjs(g, v)
    objs.append(b.obj(H + "own.cpp", v, ["-I" + g["dir"]], implicit=g["files"] + [g["bridge"]]))
    objs.append(b.obj(H + "bridge.cpp", v))
    return b.exe("own." + v, v, objs, libs="-lprotobuf")


@builder
def registry_asan(b):
    v = "asan"
    g = b.gen("wire", [VERIF + "/proto/wire.proto"], VERIF + "/proto")
    objs = b.lib("protobuf", v) + b.genobjs(g, v)
    objs.append(b.obj(H + "registry.cpp", v, ["-I" + g["dir"]], implicit=g["files"]))
    plugs = []
    for l in "abcd":
        h = H + "plugins/plug%s.h" % l
        plugs.append(b.shared("libplug%s.so" % l, v, [b.obj(b.moc(h), v, ["-I" + H + "plugins"])]))
    plugs.append(b.shared("libnoplugin.so", v, [b.obj(H + "plugins/noplugin.cpp", v)]))
    b.emit("build %s: run\n  cmd = echo not a library > %s" % (vbuild.BUILD + "/plugins/libgarbage.so", vbuild.BUILD + "/plugins/libgarbage.so"))
    plugs.append(vbuild.BUILD + "/plugins/libgarbage.so")
    return b.exe("registry." + v, v, objs, implicit=plugs)


@builder
def qttypes_plain(b):
    v = "plain"
    objs = b.lib("protobuf", v) + b.lib("qttypes", v)
    q = vbuild.BUILD + "/gen/qttypes"
    g = b.gen("qt", [VERIF + "/proto/qt.proto"], VERIF + "/proto", incs=[vbuild.SRC + "/qttypes"], nobridge=True)
    fds = g["dir"] + "/qt.fds"
    b.emit("build %s: run %s\n  cmd = protoc --include_imports --descriptor_set_out=%s -I%s -I%s %s" % (fds, VERIF + "/proto/qt.proto", fds, VERIF + "/proto", vbuild.SRC + "/qttypes", VERIF + "/proto/qt.proto"))
    objs += b.genobjs(g, v, ["-I" + q])
    objs.append(b.obj(H + "qttypes.cpp", v, ["-I" + g["dir"], "-I" + q, '-DQT_FDS=\\"%s\\"' % fds], implicit=g["files"] + [fds]))
    objs.append(b.obj(H + "bridge.cpp", v))
    return b.exe("qttypes." + v, v, objs, libs="-lprotobuf")


REF = "google::protobuf (libprotobuf of this sandbox, reflection-based DynamicMessage) is the conforming implementation"
Prop("P01", ["wire_plain"], [("wire_plain", "P01")],
     "Every message value of the bounded value space of proto/wire.proto (every boundary value of every scalar kind in every field, every subset of fields, every pair of fields, "
     "every list up to length 3 over small domains plus long lists, maps up to 2 entries, every tree of nested messages up to the node bound, dense integer ranges) is set through the generated setters, "
     "serialized by the real serializer and decoded by the reference; states are distinct message values, transitions are serialize/decode steps. Non-trivial: the value differs from the default.",
     [REF, "0.0 and -0.0, all NaNs, and absent versus empty sub-messages are not distinguished"], probes=[("wire_plain", "serialize-chain")])
Prop("P02", ["wire_plain"], [("wire_plain", "P02")],
     "Every sequence of encoded records up to the length bound over the record alphabets of the schema (overlong varints, packed and unpacked chunks, split sub-messages, partial map entries), all permutations of full messages, "
     "and the reference encoding of the whole value space is decoded by the real deserializer and by the reference; states are distinct decoded values, transitions are decodes. Non-trivial: the denoted value differs from the default.",
     [REF, "strings are valid UTF-8, at most 100 levels of nesting, declared fields carry their declared wire type (or the unpacked one)"])
Prop("P03", ["wire_plain"], [("wire_plain", "P03")],
     "Target objects holding each message of a corpus receive each encoding of the corpus (all pairs, plus triples and interposed failing decodes), then every value of the value space; states are contents of the target, transitions are deserializations. "
     "Non-trivial: previous and received content differ.", [REF])
Prop("P04", ["wire_plain"], [("wire_plain", "P04")],
     "Unknown records (12 field numbers x wire types 0,1,2,5 x payload shapes) are inserted at every position of every nesting level of every corpus message, singly and in pairs; two schema versions exchange every subset of fields in both directions. "
     "Non-trivial: the known fields are not all default.", [REF])
Prop("P05", ["wire_asan"], [("wire_asan", "P05", {"stall": 45})],
     "Every byte string up to length 2 (thorough: 3), every word over structural bytes up to the length bound, every truncation, length/varint/header corruption at every position and nesting level and every single-byte substitution of the corpus is decoded "
     "twice from an exact-size heap buffer under AddressSanitizer/UBSan with a 64 MB limit on single allocations; live allocations are balanced and a good message is decoded afterwards. States are distinct inputs, transitions decodes. Non-trivial: structurally invalid input.",
     ["AddressSanitizer detects out-of-bounds access at redzone granularity"])
Prop("P06", ["wire_plain"], [("wire_plain", "P06")],
     "The same input space as P05, decided by an independent structural validator: invalid input must be reported by exception, valid input must be accepted. Non-trivial: structurally invalid input.",
     ["declared fields with another wire type and headers longer than five bytes are outside the statement"])

ENV = "the scripted network (harness/evkit.h) behaves as Qt 5.15's QNetworkReply: data before the end, one end, abort() ends at once with OperationCanceledError; replies die with their manager"
VT = "timers and event delivery are those of Qt, driven in virtual time by harness/evkit.h (single thread)"
EVT = "stateless exploration of all environment/application histories up to a depth on the real code (scripted network, virtual time), checked step by step against a reference model"
Prop("P10", ["mt_tsan"], [("mt_tsan", "P10use"), ("mt_tsan", "P10register"), ("mt_tsan", "P10first")],
     "Real threads under a controlled scheduler (harness/schedrt.cpp): one thread runs at a time; lock, unlock, semaphore, once and static-initialization operations and accesses to shared atomics are scheduling points; every memory access of the library and the generated code (compiled with -fsanitize=thread) is checked for "
     "data races by vector clocks, blocking of all threads is a deadlock, the results of every thread must equal those it obtains alone, and afterwards every registered type must still have its handlers. "
     "20 scenarios of 2 and 3 threads: first serializers of the process, one shared serializer, serializers from the registry, reading and writing plain, nested, list and map fields and rejected input, registering message, enum and map types meanwhile, everything for the first time. "
     "Every schedule with up to 2 deviations from the non-preemptive one (3 where threads register types and in the thorough tier, 1 for the first-use scenarios with ~1200 points). States are distinct schedules, transitions scheduling decisions. Non-trivial: at least one deviation.",
     ["locks inside Qt order what they protect; Qt itself is not instrumented", "sequentially consistent execution with C++ happens-before race detection", "static atomics that no thread writes need no scheduling points"],
     technique="stateless exploration of all thread schedules up to a bound on deviations on the real code under a controlled scheduler, with happens-before race detection on every schedule")
Prop("P12", ["http2_plain"], [("http2_plain", "P12"), ("http2_plain", "P12two")],
     "Every way to cut the byte stream of all message sequences up to length 3 (thorough 4) over 3 sizes into chunks (all 2^(n-1) chunkings up to 13 (16) bytes, up to 2..5 cuts beyond), messages that contain frame-like bytes, large messages around "
     "every byte of the length prefix, hundreds of messages per chunk, with 6 kinds of end (incl. last chunk unread when the end is announced), cancel inside each handler, loss of the connection after every byte followed by a fresh connection (also at the same address), "
     "and every interleaving of the chunks of two streams. States are distinct (content, chunking, end); transitions are network events. Non-trivial: more than one message or chunk.", [ENV, VT], technique=EVT)
Prop("P13", ["http2_asan"], [("http2_asan", "P13"), ("http2_asan", "P13text"), ("http2_asan", "P13many")],
     "One call: every answer (4 payload sizes, grpc-status 1..16 with and without message, all 33 network errors, 6 undecodable payloads with their status, the result object being untouched, TLS error, silence) x body chunking x time of the answer x point of abort x call kind (blocking, asynchronous, pointer dropped, callback). "
     "Several calls: every history up to depth 7 (8) of starting up to 3 calls, a blocking call meanwhile, answers, failures, aborts, deadlines and destruction of the client. Status messages: every text up to length 3 (4) over 8 characters, percent-encoded both ways, and every raw text up to length 4 (5), for the three kinds of call. States are distinct histories; transitions are environment moves. Non-trivial: not a plain successful call.", [ENV, VT], technique=EVT)
Prop("P14", ["http2_asan"], [("http2_asan", "P14"), ("http2_asan", "P14wide")],
     "Every history up to depth 6 (7) of a subscription with ordinary or empty argument over 17 moves (message, quiet time longer than any deadline, half message, end of stream, gRPC status, connection closed, network error, TLS error, unread data with the end, cancel, cancel inside message/error handlers, retry delay, subscribe again, drop pointer, destroy client) "
     "of one subscription beside an independent witness subscription, and every history up to depth 3 (4) with every network error and every status; after every move the open requests and all notifications equal the model's. States are distinct model states, transitions moves. Non-trivial: something was delivered or the subscription ended.", [ENV, VT], technique=EVT)
Prop("P26", ["http2_asan", "native_asan", "quick_asan"], [("http2_asan", "P26"), ("native_asan", "P26native"), ("quick_asan", "P26qml")],
     "32 kinds of operation with their outcome over HTTP/2 (blocking, asynchronous, dropped, callback calls that succeed, fail, are aborted, never answered, undecodable; streams that end, fail and recover, reconnect, are cancelled outside and inside handlers and while waiting, shared, bound to objects, with half and unread messages; messages, failures and reconnections of a lasting stream), 18 over the native channel, 12 through QML: "
     "each alone and every pair one after the other, crossing and nested (thorough: every triple), for 8 rounds on one client. Live QObjects (Qt's own hooks), heap blocks (allocator hooks), timers and open requests after the fourth and the last round must not differ by one or more per round, "
     "and 3 further clients and finally the channel leave nothing when they are gone. Under AddressSanitizer. States are distinct combinations; transitions are steps. Non-trivial: more than one operation.", [ENV, VT], technique=EVT)
Prop("P15", ["client_asan", "http2_asan"], [("client_asan", "P15args"), ("http2_asan", "P15switch"), ("client_asan", "P15")],
     "Every history up to depth 6 (7) of subscribing (with and without bound message object) to 3 method/argument pairs, messages, errors, ends, cancels, retry delays, attaching channels, deleting bound objects, operations without channel, subscribing from inside change and finished notifications; "
     "after every move requests, channels, notifications and bound objects equal the model's. Then every pair of 4 methods and 133 (389) arguments (words over 4 bytes up to length 3 (4), lists of messages up to length 3 (4), sizes around the length prefix): one subscription exactly when both are equal, messages and cancels reach the right one only. Then every history up to depth 6 (7) of calls, subscriptions, answers and replacing the channel (from outside, inside notifications, while a blocking call waits) on the real HTTP/2 channel under AddressSanitizer. "
     "States are distinct model states and pairs. Non-trivial: at least one subscription was made.",
     ["the recording channel (harness/fakechannel.h) stands for any QAbstractGrpcChannel", VT], technique=EVT)
Prop("P16", ["threads_asan"], [("threads_asan", "P16")],
     "Every history up to depth 7 (8) of three threads issuing blocking calls, asynchronous calls, a shared subscription, aborts, cancels and dropping their pointers, of the client's thread handling events, and of the channel answering, failing, sending stream messages and ending the stream; "
     "a blocking call waits in a nested event loop of the client's thread as the real channels do, and every further move may fall inside it, nested to the depth bound; an abort or cancel that returns before the client's thread handled it is reported. After every move each request was performed once on the client's thread, the requesting thread has its own result, "
     "and the notifications of every thread equal the model's; a request not completed within 15 s after the client's thread handled its events is a deadlock. Under AddressSanitizer. States are distinct model states; transitions moves. Non-trivial: a request was issued.",
     ["the recording channel (harness/fakechannel.h) stands for any QAbstractGrpcChannel", "an asynchronous answer arrives after the requesting thread has subscribed to it", "the client outlives the requests", VT],
     technique="stateless exploration of all interleavings of requests, event handling and answers up to a depth on the real client with real threads, checked step by step against a reference model")
NATENV = {"env": {"ASAN_OPTIONS": ASAN + ":max_free_fill_size=4096:free_fill_byte=221"}}
Prop("P17", ["native_asan"], [("native_asan", "P17outcomes", NATENV), ("native_asan", "P17calls", NATENV), ("native_asan", "P17streams", NATENV)],
     "A real gRPC server in the same process that acts only on command. Outcomes: every status 0..16 with 4 texts and every boundary payload size, with and without preceding messages, and no server at all, for blocking calls, asynchronous calls and streams. "
     "Calls: every history up to depth 6 (7) of starting up to 2 calls (worker thread running or held before its first instruction), answers (small, large, failure), blocking calls meanwhile (answered, failed, answered last), aborts, dropped pointers, event handling, destruction of the client. "
     "Streams: every history up to depth 6 (7) over two streams of small, empty and large messages, closing, failing, event handling, cancel, cancel inside a message handler, dropped pointers, retry delay, subscribing again, destruction of the client. "
     "After every move the notifications equal the model's; under AddressSanitizer. States are distinct model states; transitions moves. Non-trivial: something was sent or failed.",
     ["the gRPC C++ library of this sandbox transports faithfully", "worker threads reach the application only by posted events, so the order of posting and handling is what is enumerated", VT],
     technique="stateless exploration of all server/worker/application histories up to a depth on the real channel and real gRPC, checked step by step against a reference model")
Prop("P18", ["quick_asan"], [("quick_asan", "P18")],
     "Every history up to depth 5 (6) of changing client (none, two clients, one without channel), method (empty, two streams, a unary method, unknown), argument (none, two values, another type), enabled, of messages, errors, ends, retry delay, modification and destruction of the argument, destruction of the client and the element, "
     "disabling inside the message handler, from 3 starting configurations; after every move live subscriptions, deliveries, errors, enabled, returnValue and their notifications equal the model's. Non-trivial: at least one subscription was made.",
     ["the recording channel (harness/fakechannel.h) stands for any QAbstractGrpcChannel", "an argument destroyed while subscribed does not end the subscription (the element holds a copy)", VT], technique=EVT)
Prop("P25", ["http2_plain"], [("http2_plain", "P25")],
     "Every combination of 7 URL forms, 4 credential sets (also changing per call, UTF-8 and empty values), 8 request kinds (blocking, asynchronous, callback, streams, reconnected and retried streams, repeated calls) and argument sizes (every size to 600 and around powers of two to 2^24 on three configurations). "
     "States are distinct configurations; transitions are requests captured and compared. Non-trivial: non-empty argument.", [ENV, "credentials with a null (not empty) value are outside the statement"],
     technique="exhaustive enumeration of request configurations on the real code with captured requests compared to an independent construction")


RECORD = "the plain record model in harness/object.cpp (a list of canonical field values per message)"
OBJ = "stateless exploration of all operation sequences up to a depth on the generated classes, compared with a plain record model"
Prop("P07", ["object_plain"], [("object_plain", "P07")],
     "For every field of 8 generated classes (every scalar kind, enum, string, bytes, sub-message, list and map kind, four levels of nesting, no fields): all sequences up to length 2 (3 for some; thorough 3..4) of setter and property writes with 4 values, "
     "construction from field values, copy/move construction, copy/move/self assignment, deserialization over two messages; all sequences over three messages and all fields; all pairs of a family of messages compared. After the last step every field, == and != agree with the record. "
     "States are distinct contents of the messages; transitions operations. Non-trivial: the class has fields.", [RECORD, "NaN and -0.0 are not among the values; the content of a moved-from message is unspecified"], technique=OBJ)
Prop("P08", ["object_plain"], [("object_plain", "P08")],
     "The operation sequences of P07 with every change signal observed: after each operation every field of every message has exactly one notification if its value changed and none otherwise (at least one for the changed source of a move), and an observer that re-reads on notification has seen the current value.",
     [RECORD, "the value of a property that holds a list or map of messages, or a pointer written by the property system, is the identity of the objects"], technique=OBJ)

Prop("P09", ["own_asan"], [("own_asan", "P09")],
     "All sequences up to length 4 (thorough 5) over two messages of 47 operations: reading, replacing (by a fresh object, a script-owned object, an object with a parent, null, itself, the other message's sub-message), deleting the sub-message from outside, "
     "list append/clear/read/share through the QML list interface and C++, copying, moving, assigning, destroying, round trips, script garbage collection, deletion of the parent; under AddressSanitizer with every QObject accounted for (Qt object hooks) and pointers and content compared with a model. "
     "States are distinct ownership configurations. Non-trivial: every history.",
     ["AddressSanitizer detects use after free and double free; Qt's AddQObject/RemoveQObject hooks see every object", "an object is handed to at most one list (see known findings)"],
     technique="stateless exploration of all operation sequences up to a depth on the generated classes under AddressSanitizer, compared with an ownership model",
     probes=[("own_asan", "append-twice"), ("own_asan", "append-to-two"), ("own_asan", "append-parented")])

Prop("P11", ["registry_asan"], [("registry_asan", "P11")],
     "All sequences up to length 4 (thorough 5) of loading seven files (two plugins, another file with the name of the first, one that claims the built-in name, a missing file, garbage, a library that is no plugin), lookups by id (an unknown one must throw), by id and plugin (5 plugins x 3 ids) and queries, "
     "each in a fresh registry with real plugin libraries under AddressSanitizer; afterwards every id x plugin lookup and query is compared with the model. States are distinct histories. Non-trivial: a plugin was loaded.",
     ["plugins are those of harness/plugins; the JSON serializer is a stand-in (microjson is not in this sandbox)"],
     technique="stateless exploration of all load/lookup sequences up to a depth on the real registry with real plugins, compared with a table model")

Prop("P22", ["qttypes_plain"], [("qttypes_plain", "P22"), ("qttypes_plain", "P22", {"env": {"TZ": "America/New_York"}, "key": "P22 (time zone with clock changes)"})],
     "Bounded value spaces of all 22 supported Qt types: every QChar; every byte of a QUuid over 3 fills; every second of the day at 3 milliseconds (thorough: every 7th millisecond too); every day of 100 selected years incl. calendar boundaries x 7 times of day in two time zones; "
     "sizes and points over all powers of two +-1 of both signs; rectangles over 12^4 corners; all polygons up to 5 (6) points over 5 points and long ones; URLs over every combination of 7 parts with escapes; colours over every pair of channels; vectors, quaternions over 7^4, matrices over every pair of entries; small images in 7 formats. "
     "Each is set in a generated field, sent, received fresh and over another value, read by the reference through the published schema and sent by the reference; encodings of distinct values are distinct. Then every pair of types in one message, alone, nested, in lists and maps of messages. "
     "States are distinct values; transitions conversions. Non-trivial: not the default.",
     [REF, "values that Qt's own operator== does not tell from the default are not distinguished (setters ignore them)", "-0.0 and NaN components are not among the values"],
     technique="exhaustive enumeration of bounded value spaces of every supported Qt type through the real conversion, wire and back, compared component by component and with the reference implementation")

import schemachecks
SCH = "exhaustive enumeration of a bounded grammar of schemas and generator options; every generated program is compiled and explored against the reference descriptors and reference implementation"
CONV = "the naming conventions written down in harness/naming.h (from the documentation and the generator's own tests)"
Prop("P19", [], [],
     "All schemas of a bounded grammar (lib/schema.py): 18 field kinds x {singular, repeated, map of every key kind} x 19 boundary field numbers in both declaration orders; every field name up to 4 characters over {a, B, 1, _} and reserved words; "
     "enum value names, negative, extreme and aliased numbers; every tree of up to 4 nested messages with every reference among them by value, list and map; imports, same names in other packages, no package, mutual and self reference. "
     "Generated as single files and as multiple files, compiled with static assertions on accessor types; then class and property names, JSON names, field numbers, enum tables are compared with the reference descriptors, and every field x value, every pair of fields and filled messages are "
     "exchanged with the reference in both directions. States are distinct (message, content); transitions encode/decode/property steps. Non-trivial: content differs from the default.",
     [REF, CONV, "proto3 without oneof and optional; fields whose property name is empty, starts with a digit or is a C++ keyword are not supported by the generator"], technique=SCH, custom=schemachecks.p19)
Prop("P20", [], [],
     "All 64 combinations of {MULTI, FOLDER, QML, COMMENTS, FIELDENUM, EXTRA_NAMESPACE} on a schema with imports, nesting, enums, services and comments: every order of every combination (1957, with SINGLE interspersed; thorough 13700) and every order of the arguments gives the same files; "
     "COMMENTS changes comments only, for every comment text over 8 special characters up to length 3 (4); and all 24 builds of {SINGLE, SINGLE+FOLDER, MULTI+FOLDER} x QML x FIELDENUM x EXTRA_NAMESPACE are compiled and explored as in P19: same properties, numbers, wire format, field enums iff FIELDENUM, "
     "creatable in QML iff QML. States are distinct option sequences, comment texts and (message, content) pairs. Non-trivial: not the canonical order / not the default content.",
     [REF, CONV, "MULTI without FOLDER (not offered by the build functions) is covered as text, not compiled"], technique=SCH, custom=schemachecks.p20)
Prop("P21", [], [],
     "All services of a bounded grammar: 4 packages (one empty) x 3 services per file x 8 styles of method name x unary/server stream x every pair of 5 argument and result types (local, imported, nested, lower case), services that only use imports and a service without methods; "
     "generated single and multi file, with and without QML. Every method in every calling style (blocking, asynchronous, callback, QML callback, QML return object; stream, bound stream, QML stream) x argument x response x status against a recording channel. "
     "States are distinct (method, style, argument, response); transitions are requests and responses compared. Non-trivial: argument or response differs from the default.",
     [REF, CONV, "the recording channel stands for any QAbstractGrpcChannel; client streaming is not offered by the library"], technique=SCH, custom=schemachecks.p21)
Prop("P23", [], [],
     "All classes generated from the ten well-known proto files: every field x boundary value, every pair of fields, filled messages, enums and names as in P19, exchanged with the reference in both directions; all Value/Struct/ListValue trees up to 4 (thorough 5) nodes over 7 leaves; "
     "Timestamp and Duration over 20 x 12 boundary seconds and nanos; QDateTime to Timestamp and back around 11 instants in 4 time specs. States are distinct contents. Non-trivial: not the default.",
     [REF, CONV, "members of a oneof at their default value count as unset; what a conforming receiver makes of messages with a oneof is a known finding"], technique=SCH, custom=schemachecks.p23)


def build(names):
    b = vbuild.Build()
    exes = {n: BUILDERS[n](b) for n in names}
    rc, out = b.run([e for e in exes.values()])
    return rc, out, exes


def main(argv):
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    if prop == "--build":
        names = sorted({t for p in PROPS.values() for t in p.targets})
        rc, out, _ = build(names)
        print(out[-3000:])
        if not rc:
            schemachecks.prebuild()
        return rc
    p = PROPS[prop]
    t0 = time.time()
    try:
        if p.custom:
            results = p.custom(prop, tier)
            evidence(prop, tier, p.level, results, p.rule, time.time() - t0, {}, p.assumptions)
            print("%s held on everything explored (%d cases, %.0f s total)" % (prop, sum(r["counters"].get("evaluations", 0) for r in results), time.time() - t0))
            return 0
        rc, out, exes = build(p.targets)
        tb = time.time() - t0
        if rc:
            if p.gen_violation:
                raise Violation("generated code cannot be produced or compiled:\n" + out[-3000:], p.gen_violation(out))
            raise CheckError("build failed:\n" + "\n".join(l[:300] for l in out.splitlines() if "error" in l or "FAILED" in l)[:2500])
        results = []
        for s in p.spaces:
            kw = s[2] if len(s) > 2 else {}
            r = explore(prop, exes[s[0]], s[1], tier, **dict({"total": 780 if tier == "quick" else 6 * 3600}, **kw))
            results.append(r)
            log("%s %s: %d cases, %d states, %s" % (prop, s[1], r["cases"], len(r["states"]), r["counters"]))
        nk = 0
        for target, name in p.probes:
            nk += probes(prop, exes[target], [name], tier)
        if not sum(r["counters"].get("evaluations", 0) for r in results):
            raise CheckError("nothing was explored")
        evidence(prop, tier, p.level, results, p.rule, time.time() - t0, {"build_s": round(tb, 1), "known_findings_reproduced": nk}, p.assumptions)
        print("%s held on everything explored (%d cases, %.0f s build, %.0f s total)" % (prop, sum(r["counters"].get("evaluations", 0) for r in results), tb, time.time() - t0))
        return 0
    except Violation as v:
        print(v.what)
        print("VIOLATION property=%s replay=%s" % (prop, v.replay))
        return 1
    except CheckError as e:
        print("CHECK-ERROR %s: %s" % (prop, e))
        return 2
    except Exception:
        traceback.print_exc()
        return 2
