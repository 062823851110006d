#!/usr/bin/env python3
"""writes proto/wire.proto, the schema the wire explorer runs on (committed; rerun after editing)"""
import os
S = ["int32", "int64", "uint32", "uint64", "sint32", "sint64", "fixed32", "fixed64", "sfixed32", "sfixed64", "float", "double", "bool", "string", "bytes"]
K = [s for s in S if s not in ("float", "double", "bytes", "bool")]
o = ['syntax = "proto3";', "package vw;", ""]
o.append("enum Colour { RED = 0; GREEN = 1; BLUE = 2; MAX = 2147483647; NEG = -1; MIN = -2147483648; }")
o.append("message Leaf {\n  sint32 num = 1;\n  string text = 2;\n}")
o.append("message Scalars {")
for i, s in enumerate(S, 1):
    o.append("  %s f_%s = %d;" % (s, s, i))
o.append("  Colour f_enum = 16;\n  Leaf f_leaf = 17;\n}")
o.append("message Lists {")
for i, s in enumerate(S, 1):
    o.append("  repeated %s r_%s = %d;" % (s, s, i))
o.append("  repeated Colour r_enum = 16;\n  repeated Leaf r_leaf = 17;\n}")
o.append("message Maps {")
n = 1
for k in K:
    o.append("  map<%s, string> k_%s = %d;" % (k, k, n)); n += 1
o.append("  map<string, Leaf> k_leaf = %d;" % n); n += 1
o.append("  map<int32, Leaf> ki_leaf = %d;" % n); n += 1
for v in S:
    if v in ("string", "bool"):
        continue
    o.append("  map<string, %s> v_%s = %d;" % (v, v, n)); n += 1
for k, v, f in (("bool", "string", "k_bool"), ("string", "bool", "v_bool"), ("string", "Colour", "v_enum"), ("int64", "Colour", "ki_enum"), ("bool", "Leaf", "kb_leaf")):
    o.append("  map<%s, %s> %s = %d;" % (k, v, f, n)); n += 1
o.append("}")
o.append("message Tags {")
T = [1, 15, 16, 2047, 2048, 18999, 20000, 262143, 262144, 33554431, 33554432, 268435455, 268435456, 536870911]
for t in T:
    o.append("  sint32 t%d = %d;" % (t, t))
o.append("}")
o.append("message TagsLd {")
for t in T:
    o.append("  %s t%d = %d;" % ("string" if t % 2 else "repeated uint32", t, t))
o.append("}")
# chain of nesting; every level has a singular, a repeated and a mapped child
D = 4
for d in range(D, 0, -1):
    o.append("message Nest%d {\n  int32 tag = 1;" % d)
    if d < D:
        o.append("  Nest%d one = 2;\n  repeated Nest%d many = 3;\n  map<int32, Nest%d> keyed = 4;" % (d + 1, d + 1, d + 1))
    else:
        o.append("  string text = 2;\n  repeated sint64 nums = 3;\n  fixed32 fix = 4;")
    o.append("}")
# schema evolution: Old is a prefix/subset of New
o.append("message OldV {\n  int32 a = 2;\n  string b = 5;\n  Leaf c = 9;\n  repeated uint32 d = 12;\n  repeated Leaf e = 14;\n}")
o.append("message NewV {\n  double x1 = 1;\n  int32 a = 2;\n  fixed32 x3 = 3;\n  string x4 = 4;\n  string b = 5;\n  repeated sint32 x6 = 6;\n  map<int32, string> x7 = 7;\n  Leaf x8 = 8;\n  Leaf c = 9;\n"
         "  repeated Leaf x10 = 10;\n  uint64 x11 = 11;\n  repeated uint32 d = 12;\n  repeated Leaf e = 14;\n  bytes x16 = 16;\n  bool x2048 = 2048;\n  Colour x3000 = 3000;\n}")
o.append("message HolderOld {\n  OldV one = 1;\n  repeated OldV many = 2;\n  map<int32, OldV> keyed = 3;\n}")
o.append("message HolderNew {\n  NewV one = 1;\n  repeated NewV many = 2;\n  map<int32, NewV> keyed = 3;\n}")
o.append("message Empty {\n}")
# message whose payload is numeric only (dense all-bytes exploration)
o.append("message Tiny {\n  uint32 xv = 1;\n  fixed32 xf = 2;\n  bytes xb = 3;\n  repeated sint32 xp = 4;\n  Leaf xm = 5;\n  repeated Leaf xr = 6;\n  map<uint32, uint32> xk = 7;\n  map<uint32, Leaf> xl = 8;\n  fixed64 xd = 9;\n  repeated fixed32 xpf = 10;\n  Colour xe = 11;\n  repeated Colour xpe = 12;\n  repeated bytes xrb = 13;\n  string xs = 14;\n  repeated double xpd = 15;\n}")
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "../proto/wire.proto"), "w").write("\n".join(o) + "\n")
