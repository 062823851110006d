"""The bounded schema space of P19/P20/P21: proto files as (base name, package, imported base names, text)."""
import itertools

SCALARS = ["double", "float", "int32", "int64", "uint32", "uint64", "sint32", "sint64", "fixed32", "fixed64", "sfixed32", "sfixed64", "bool", "string", "bytes"]
KEYS = ["int32", "int64", "uint32", "uint64", "sint32", "sint64", "fixed32", "fixed64", "sfixed32", "sfixed64", "string"]
NUMBERS = [1, 2, 15, 16, 127, 128, 2047, 2048, 16383, 16384, 18999, 20000, 262143, 262144, 2097151, 2097152, 33554431, 33554432, 536870911]


def cap(s):
    return s[0].upper() + s[1:]


def fields():
    """every kind x {singular, repeated, map of every key kind} over every boundary of field numbers, in four files"""
    out = []
    kinds = SCALARS + ["Leaf", "Col", "Loc"]
    head = "enum Col { RED = 0; BLUE = 3; NEG = -2; }\nmessage Leaf { int32 num = 1; string txt = 2; }\n"
    chunks = [[], [], []]
    for i, s in enumerate(kinds):
        loc = " enum Loc { L0 = 0; L1 = 1; L5 = 5; }" if s == "Loc" else ""
        half = NUMBERS[:10], NUMBERS[10:]
        for h, nums in enumerate(half):
            # the order of declaration differs from the order of numbers in every second message
            nums = nums if i % 2 else list(reversed(nums))
            chunks[0].append("message One%s%d {%s %s }" % (cap(s), h, loc, " ".join("%s one%d = %d;" % (s, n, n) for n in nums)))
            chunks[1].append("message Rep%s%d {%s %s }" % (cap(s), h, loc, " ".join("repeated %s rep%d = %d;" % (s, n, n) for n in nums)))
    for k in KEYS:
        ks = [s for s in kinds if s != "Loc"]
        chunks[2].append("message Map%s { %s }" % (cap(k), " ".join("map<%s, %s> map%s = %d;" % (k, v, cap(v), NUMBERS[i]) for i, v in enumerate(ks))))
    for n, c in enumerate(chunks):
        out.append(("sf%d" % n, "sf.n%d" % n, [], head + "\n".join(c)))
    return out


def camel(n):
    r, c = "", False
    for ch in n:
        if ch == "_":
            c = True
        else:
            r += ch.upper() if c else ch
            c = False
    return r[:1].lower() + r[1:]


def json(n):
    r, c = "", False
    for ch in n:
        if ch == "_":
            c = True
        else:
            r += ch.upper() if c else ch
            c = False
    return r


def names():
    """every identifier up to length 4 over {a, B, 1, _} as a field name (those whose property name would be empty or start with a digit are not supported)"""
    words = []
    for n in range(1, 5):
        for t in itertools.product("aB1_", repeat=n):
            w = "".join(t)
            if w[0] != "1" and camel(w) and not camel(w)[0].isdigit():
                words.append(w)
    words += ["id", "Id", "ID", "_id", "i_d", "property", "Property", "import", "Import", "im_port", "id_", "ids", "identity", "imports", "id_proto_x", "properties"]
    groups = []
    for w in words:
        for g in groups:
            if len(g) < 16 and all(camel(w).lower() != camel(x).lower() and json(w).lower() != json(x).lower() for x in g):
                g.append(w)
                break
        else:
            groups.append([w])
    body = []
    for i, g in enumerate(groups):
        body.append("message Names%d { %s }" % (i, " ".join("%s %s = %d;" % (["int32", "string", "uint64"][(i + j) % 3], w, j + 1) for j, w in enumerate(g))))
    return [("sn", "sn", [], "\n".join(body))]


MISC = ("sm", "sm", [], """
enum Kind { NONE = 0; Lower = 1; lowerCase = 2; snake_case = 3; WITH_1_DIGIT = 4; NEG = -1; MINV = -2147483648; MAXV = 2147483647; }
enum Alias { option allow_alias = true; A0 = 0; A1 = 1; A1B = 1; A2 = 2; A2B = 2; }
enum low { none = 0; one = 1; TWO_ = 2; }
message Reserved { int32 id = 1; string property = 2; bytes import = 3; }
message ReservedRep { repeated int32 id = 1; repeated string property = 2; repeated Reserved import = 3; }
message ReservedMsg { Reserved id = 1; map<int32, Reserved> property = 2; Kind import = 3; }
message JsonNames { int32 json_named = 1 [json_name = "customName"]; string other_one = 2 [json_name = "json_named"]; bytes third = 3 [json_name = "with space-and.dash"]; }
message lowername { int32 num = 1; lowername2 other = 2; }
message lowername2 { int32 num = 1; }
message snake_name { int32 num = 1; repeated snake_name many = 2; lowername one = 3; map<string, snake_name> dict = 4; enum inner { zero = 0; uno = 1; } inner loc = 5; map<int32, inner> locs = 6; }
message E1 { enum Inner { I0 = 0; I1 = 1; I2 = 2; } Inner inner = 1; repeated Inner inners = 2; map<int32, Inner> innerMap = 3; Kind kind = 4; Alias alias = 5; low lo = 6; repeated low los = 7; map<string, low> lomap = 8; }
message E2 { E1.Inner inner = 1; repeated E1.Inner inners = 2; map<string, E1.Inner> innerMap = 3; repeated Kind kinds = 4; map<int32, Kind> kindMap = 5; snake_name.inner loc = 6; }
message E3 { enum Inner { I0 = 0; I1 = 7; } Inner inner = 1; E1.Inner other = 2; repeated Alias aliases = 3; }
message OnlyMap { enum In { A0 = 0; A1 = 1; } map<int32, In> dict = 1; }
message NoUse { enum In { A0 = 0; A1 = 1; } }
message UseNoUse { NoUse.In one = 1; repeated NoUse.In many = 2; map<string, NoUse.In> dict = 3; OnlyMap.In oo = 4; repeated OnlyMap.In oos = 5; }
message Empty {}
message HasEmpty { Empty one = 1; repeated Empty many = 2; map<int32, Empty> dict = 3; }
""")

IMPORTS = [
    ("ia", "ip.a", ["ib", "ic", "id"], """
message A { ip.b.B one = 1; repeated ip.b.B many = 2; map<int32, ip.b.B> dict = 3; ip.b.Kind kind = 4; repeated ip.b.Kind kinds = 5; SamePkg same = 6; other.C c = 7; ip.b.B.In nested = 8; ip.b.B.Loc loc = 9;
  SameKind sk = 10; map<string, SameKind> skm = 11; repeated other.A others = 12; map<string, ip.b.B.Loc> locmap = 13; repeated ip.b.B.In ins = 14; map<int32, ip.b.B.In> inmap = 15; }
message OnlyImported { other.A one = 1; ip.b.Kind kind = 2; }
"""),
    ("ib", "ip.b", ["ic"], """
enum Kind { K0 = 0; K1 = 5; }
message B { message In { int32 num = 1; } enum Loc { L0 = 0; L1 = 1; } In in_one = 1; other.C c = 2; Kind kind = 3; Loc loc = 4; repeated Loc locs = 5; }
"""),
    ("ic", "other", [], """
message C { int32 num = 1; A a = 2; }
message A { int32 num = 1; }
"""),
    ("id", "ip.a", [], """
enum SameKind { S0 = 0; S1 = 1; }
message SamePkg { int32 num = 1; SameKind kind = 2; }
"""),
    ("np", "", [], """
enum NpKind { N0 = 0; N1 = 1; }
message NpMsg { int32 num = 1; NpKind kind = 2; repeated NpKind kinds = 3; NpOther other = 4; repeated NpOther others = 5; map<string, NpOther> dict = 6; map<string, NpKind> kmap = 7; message NpIn { int32 num = 1; } NpIn inside = 8; }
message NpOther { int32 num = 1; }
"""),
]

# shapes of nested messages: parent index of every node but the root (0)
SHAPES = [[0], [0, 0], [0, 1], [0, 0, 0], [0, 0, 1], [0, 1, 1], [0, 1, 2], [0, 0, 2]]


def nesting():
    """every tree of up to four nested messages; every message refers to every message of the tree by list and map, to its children by value, and a message outside refers to all of them"""
    out = []
    for si, shape in enumerate(SHAPES):
        n = len(shape) + 1
        parent = [None] + shape
        name = ["Root%d" % si] + ["Node%d" % i for i in range(1, n)]

        def full(i):
            return name[i] if parent[i] is None else full(parent[i]) + "." + name[i]

        def text(i, ind):
            kids = [k for k in range(1, n) if parent[k] == i]
            t = ind + "message %s {\n" % name[i]
            t += "".join(text(k, ind + "  ") for k in kids)
            t += ind + "  int32 num = 1; enum Kind%d { Z%d = 0; V%d = %d; } Kind%d kind = 2;\n" % (i, i, i, 10 + i, i)
            f = 3
            for k in kids:
                t += ind + "  %s child%d = %d;\n" % (full(k), k, f)
                f += 1
            for k in range(n):
                t += ind + "  repeated %s list%d = %d; map<int32, %s> dict%d = %d;\n" % (full(k), k, f, full(k), k, f + 1)
                f += 2
            return t + ind + "}\n"
        body = text(0, "")
        body += "message User%d {\n" % si
        for k in range(n):
            body += "  %s one%d = %d; repeated %s many%d = %d; map<string, %s> dict%d = %d; %s kind%d = %d;\n" % (
                full(k), k, 10 * k + 1, full(k), k, 10 * k + 2, full(k), k, 10 * k + 3, full(k) + ".Kind%d" % k if k == 0 else "int32", k, 10 * k + 4)
        out.append(body + "}\n")
    out.append("""
message NoFields { message Inside { int32 num = 1; } message Inside2 { Inside ref = 1; } }
message UnusedNested { int32 num = 1; message Inner { int32 x = 1; } }
message UseUnused { UnusedNested.Inner inn = 1; NoFields.Inside2 ref = 2; }
message Mut1 { Mut2 other = 1; int32 num = 2; }
message Mut2 { repeated Mut1 many = 1; map<int32, Mut1> dict = 2; }
message Rec { repeated Rec kids = 1; map<int32, Rec> dict = 2; int32 num = 3; }
message Same { message Mid { int32 q = 1; } Mid mid = 1; Other othermid = 2; }
message Other { message Mid { string q = 1; } Mid mid = 1; }
""")
    return [("st", "st.deep.er", [], "\n".join(out))]


def full():
    return fields() + names() + [MISC] + IMPORTS + nesting()


CORE = [
    ("ca", "co.a", ["cb", "cc"], """
// kind comment: first line, with $dollar$ and "quotes"
enum Kind { NONE = 0; some = 1; NEG = -5; }
/* block comment of Leaf
   second line // with slashes */
message Leaf {
  // number comment
  int32 num = 1;
  string txt = 2; // trailing comment of txt
  /* bytes comment * / almost closing */ bytes raw = 3;
}
message Tree {
  message Twig { sint64 len = 1; enum Shape { STRAIGHT = 0; BENT = 2; } Shape shape = 2; repeated Shape shapes = 3; }
  // detached comment

  Twig twig = 1; repeated Twig twigs = 2; map<int32, Twig> twigMap = 3;
  Leaf leaf = 4; repeated Leaf leaves = 5; map<string, Leaf> leafMap = 6;
  Kind kind = 7; repeated Kind kinds = 8; map<string, Kind> kindMap = 9;
  int32 id = 10; repeated sint32 property = 11; fixed32 import = 12; sfixed32 snake_case = 13; uint64 big = 16384; double real = 536870911; bool flag = 14; repeated bool flags = 15;
  co.b.Far far = 17; repeated co.b.Far fars = 18; co.b.FarKind fk = 19; NoPkg npk = 20;
}
message lowercase { int32 num = 1; message inside { int32 num = 1; } inside ins = 2; }
message Holder { lowercase low = 1; Tree.Twig twig = 2; Tree.Twig.Shape shape = 3; lowercase.inside ins = 4; repeated Holder kids = 5; }
message Empty {}
service Forest {
  // method comment
  rpc get(Leaf) returns (Tree) {}
  rpc Put(co.b.Far) returns (Empty) {}
  rpc watch(Empty) returns (stream Leaf) {}
}
"""),
    ("cb", "co.b", [], """
enum FarKind { F0 = 0; F1 = 100; }
message Far { float val = 1; FarKind kind = 2; map<uint32, double> dict = 3; }
"""),
    ("cc", "", [], """
message NoPkg { uint32 num = 1; string txt = 5; }
"""),
]


def service_space():
    """packages x method name shapes x unary/stream x argument and result types (local, imported, nested, lower case, the same), several services per file"""
    types = ["Req", "Res", "imp.ort.Far", "Outer.Inner", "lowmsg"]
    shapes = ["get%d", "Put%d", "camelCase%d", "snake_case_%d", "UPPER%d", "x%d", "Y_%d", "callBack%d_"]
    msgs = """
message Req { int32 num = 1; string txt = 2; }
message Res { bytes raw = 1; repeated sint32 nums = 2; }
message Outer { message Inner { string txt = 1; int32 num = 2; } Inner inn = 1; }
message lowmsg { int32 num = 1; string txt = 2; }
"""
    out = [("sfar", "imp.ort", [], "message Far { string txt = 1; int32 num = 2; }\n")]
    for pi, pkg in enumerate(["sa", "sb.c", "sd.e.f", ""]):
        services = {}
        k = 0
        for a in types:
            for r in types:
                for stream in (0, 1):
                    # three services, method names unique per service; the same method name occurs in several services
                    svc = ["Alpha%d", "betaSvc%d", "Gamma_Svc%d"][k % 3] % pi
                    if pkg == "":
                        svc = svc + "Np"
                    name = shapes[(k // 3) % len(shapes)] % (k // 24)
                    services.setdefault(svc, []).append("  rpc %s(%s) returns (%s%s) {}" % (name, a, "stream " if stream else "", r))
                    k += 1
        m = msgs if pkg else msgs.replace("Req", "NReq").replace("Res", "NRes").replace("Outer", "NOuter").replace("lowmsg", "nlowmsg")
        text = "".join("service %s {\n%s\n}\n" % (s, "\n".join(v)) for s, v in services.items())
        if not pkg:
            text = text.replace("(Req", "(NReq").replace("(Res", "(NRes").replace("(Outer", "(NOuter").replace("(lowmsg", "(nlowmsg")
            text = text.replace("stream Req", "stream NReq").replace("stream Res", "stream NRes").replace("stream Outer", "stream NOuter").replace("stream lowmsg", "stream nlowmsg")
        out.append(("svs%d" % pi, pkg, ["sfar"], m + text))
    # a service whose messages all come from an import, and a service without methods
    out.append(("svonly", "only.svc", ["sfar"], "service Only { rpc get(imp.ort.Far) returns (imp.ort.Far) {} rpc watch(imp.ort.Far) returns (stream imp.ort.Far) {} }\nservice Nothing {}\n"))
    return out


def layout(files, folder):
    """{relative path: text}; with folder structure every file lies in the directory of its package"""
    place = {b: ((p.replace(".", "/") + "/") if folder and p else "") + b + ".proto" for b, p, i, t in files}
    out = {}
    for b, p, imp, t in files:
        out[place[b]] = 'syntax = "proto3";\n' + ("package %s;\n" % p if p else "") + "".join('import "%s";\n' % place[i] for i in imp) + t
    return out
