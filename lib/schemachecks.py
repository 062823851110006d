"""P19, P20, P21: the generator explored over schemas and options; the generated code is compiled and judged by harness/schema.cpp and harness/service.cpp."""
import hashlib, itertools, json, os, re, shutil, struct, subprocess, tempfile, time
from concurrent.futures import ThreadPoolExecutor
import vbuild, schema
from driver import *

H = VERIF + "/harness/"


def replay(prop, name, what, how):
    d = os.path.join(VERIF, "replay", prop)
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, re.sub(r"\W+", "_", name) + ".json")
    with open(p, "w") as f:
        json.dump({"property": prop, "what": what, "how": how}, f, indent=1)
    return p


def slug(o):
    return o.replace(":", "_").replace("=", "")


def compile_all(prop, configs, harness, libs, grpc, extra=None):
    """configs: (corpus name, files, options); returns [(name, exe, env)]"""
    b = vbuild.Build()
    try:
        b.tools()
    except RuntimeError as e:
        raise CheckError(str(e))
    out, fixed = [], []
    for l in (["protobuf", "grpc"] if grpc else ["protobuf"]):
        fixed += b.lib(l, "plain")
    fixed += [b.obj(H + harness + ".cpp", "o0"), b.obj(H + "bridge.cpp", "o0")]

    def gen(c):
        corpus, files, opt = c
        n = corpus + "_" + slug(opt)
        return n, b.schema(n, files if isinstance(files, dict) else schema.layout(files, "FOLDER" in opt.split(":")), opt, service_tables=grpc)
    for c in configs:
        try:
            n, g = gen(c)
        except vbuild.GenFailed as e:
            raise Violation(str(e), replay(prop, "generate_" + c[0] + "_" + slug(c[2]), str(e), "QT_PROTOBUF_OPTIONS=%s protoc with the plugin on the schemas of lib/schema.py (%s)" % (c[2], c[0])))
        o = c[2].split(":")
        exe = b.exe(harness + "." + n, "plain", fixed + g["objs"] + ([b.obj(H + extra, "o0", ["-I" + g["gen"]])] if extra else []) + (g["side"] if grpc else []), libs=libs)
        out.append((n, exe, {"SCHEMA_FDS": g["fds"], "SCHEMA_QML": str(int("QML" in o)), "SCHEMA_FIELDENUM": str(int("FIELDENUM" in o))}))
    rc, text = b.run(fixed)
    if rc:
        raise CheckError("build failed:\n" + "\n".join(l[:300] for l in text.splitlines() if "error" in l or "FAILED" in l)[:2500])
    rc, text = b.run([e for _, e, _ in out])
    if rc:
        failed = re.findall(r"^FAILED: (\S+)", text, re.M)
        errors = "\n".join(l[:400] for l in text.splitlines() if "error" in l or "undefined reference" in l or "static assertion" in l)[:2500]
        if failed and all("/schema/" in f or "/bin/" in f for f in failed) and errors and "No space left" not in text and "Killed" not in text:
            what = "generated code does not compile or does not declare what the schema says: " + failed[0] + "\n" + errors
            raise Violation(what, replay(prop, "compile_" + failed[0].split("/schema/")[-1], what, "bin/check %s compiles %s" % (prop, failed[0])))
        raise CheckError("build failed:\n" + errors)
    return out


def explore_all(prop, tier, built, mode):
    res = []
    for n, exe, env in built:
        r = explore(prop, exe, mode, tier, shards=8 if len(built) < 6 else 4, env=env, key=n, total=780 if tier == "quick" else 6 * 3600)
        log("%s %s: %d cases, %d states, %s" % (prop, n, r["cases"], len(r["states"]), r["counters"]))
        res.append(r)
    return res


def p19_build(prop, tier):
    opts = ["SINGLE", "MULTI:FOLDER"] if tier == "quick" else ["SINGLE", "MULTI:FOLDER", "SINGLE:FOLDER:QML:FIELDENUM", "MULTI:FOLDER:QML:EXTRA_NAMESPACE=xx", "SINGLE:QML:EXTRA_NAMESPACE=xx"]
    return compile_all(prop, [("full", schema.full(), o) for o in opts], "schema", "-lprotobuf", False)


def p19(prop, tier):
    return explore_all(prop, tier, p19_build(prop, tier), "P19")


def p21_build(prop, tier):
    opts = ["SINGLE:QML", "MULTI:FOLDER"] if tier == "quick" else ["SINGLE", "SINGLE:QML", "MULTI:FOLDER", "MULTI:FOLDER:QML", "SINGLE:FOLDER:QML:EXTRA_NAMESPACE=xx", "MULTI:FOLDER:QML:EXTRA_NAMESPACE=xx"]
    return compile_all(prop, [("svc", schema.service_space(), o) for o in opts], "service", "-lprotobuf -Wl,--copy-dt-needed-entries -lgrpc++ -lgrpc -lgpr", True)


def p21(prop, tier):
    return explore_all(prop, tier, p21_build(prop, tier), "P21")


WELLKNOWN = ["any", "duration", "empty", "field_mask", "source_context", "struct", "timestamp", "wrappers", "type", "api"]


def p23_build(prop, tier):
    # an extra namespace keeps the generated classes apart from the reference implementation's own
    files = {"google/protobuf/%s.proto" % n: open("/usr/include/google/protobuf/%s.proto" % n).read() for n in WELLKNOWN}
    return compile_all(prop, [("wkt", files, "SINGLE:QML:FOLDER:EXTRA_NAMESPACE=wkt")], "schema", "-lprotobuf", False, "wellknown.cpp")


def p23(prop, tier):
    built = p23_build(prop, tier)
    res = explore_all(prop, tier, built, "P23")
    probes(prop, built[0][1], ["timestamp-fraction", "value-kind"], tier, built[0][2])
    return res


# ---- P20, decided on the generated text --------------------------------------------------------
TOKENS = ["MULTI", "FOLDER", "QML", "COMMENTS", "FIELDENUM", "EXTRA_NAMESPACE=xx"]
LEX = re.compile(r'(?P<comment>/\*.*?\*/|//(?:[^\n\\]|\\.)*)|(?P<tok>"(?:[^"\\\n]|\\.)*"|\'(?:[^\'\\\n]|\\.)*\'|[A-Za-z_]\w*|\d[\w.]*|\S)|(?P<ws>\s+)', re.S)


def lex(text):
    """tokens without comments, and the comments with the index of the token they precede"""
    toks, comments = [], []
    for m in LEX.finditer(text):
        if m.lastgroup == "comment":
            comments.append((len(toks), m.group()))
        elif m.lastgroup == "tok":
            toks.append(m.group())
    return toks, comments


def tree(d):
    r = {}
    for root, _, files in os.walk(d):
        for f in files:
            p = os.path.join(root, f)
            r[os.path.relpath(p, d)] = open(p, encoding="utf-8", errors="surrogateescape").read()
    return r


class Text:
    def __init__(self, prop, b):
        self.prop, self.b, self.dir = prop, b, tempfile.mkdtemp(prefix="vgen.")
        self.counters = {"evaluations": 0, "nontrivial": 0, "transitions": 0}
        self.states, self.samples, self.n = set(), [], 0
        self.roots = {}

    def root(self, files, folder):
        k = (id(files), folder)
        if k not in self.roots:
            d = "%s/r%d" % (self.dir, len(self.roots))
            for p, t in schema.layout(files, folder).items():
                os.makedirs(os.path.dirname(d + "/" + p), exist_ok=True)
                with open(d + "/" + p, "w") as h:
                    h.write(t)
            self.roots[k] = (d, sorted(schema.layout(files, folder)), files)
        return self.roots[k][:2]

    def gen(self, files, options, protos=None, folder=None):
        root, names = self.root(files, "FOLDER" in options if folder is None else folder)
        out = tempfile.mkdtemp(dir=self.dir)
        try:
            self.b.protoc(options, root, protos or names, out)
            return tree(out)
        except vbuild.GenFailed as e:
            return str(e)
        finally:
            shutil.rmtree(out, ignore_errors=True)

    def fail(self, name, what):
        raise Violation(what, replay(self.prop, name, what, "QT_PROTOBUF_OPTIONS=... protoc with the plugin on the schemas of lib/schema.py"))

    def seen(self, what, nontrivial=True):
        self.counters["evaluations"] += 1
        self.counters["transitions"] += 1
        self.counters["nontrivial"] += bool(nontrivial)
        self.states.add(struct.unpack("<Q", hashlib.sha1(what.encode()).digest()[:8])[0])
        if len(self.samples) < 6 or self.counters["evaluations"] % 500 == 0:
            self.samples.append(what[:200])

    def same(self, name, a, b, what):
        if isinstance(a, str):
            self.fail(name, what + ": " + a)
        if isinstance(b, str):
            self.fail(name, what + ": " + b)
        if sorted(a) != sorted(b):
            self.fail(name, "%s: files %s and %s" % (what, sorted(a), sorted(b)))
        for f in a:
            if a[f] != b[f]:
                la, lb = a[f].splitlines(), b[f].splitlines()
                i = next((i for i, (x, y) in enumerate(zip(la, lb)) if x != y), min(len(la), len(lb)))
                self.fail(name, "%s: %s differs at line %d: %r and %r" % (what, f, i + 1, la[i:i + 1], lb[i:i + 1]))


def expected_files(files, options):
    """names of the artifacts by the documentation"""
    out = set()
    for base, pkg, _, text in files:
        d = pkg.replace(".", "/") + "/" if "FOLDER" in options and pkg else ""
        code = re.sub(r"/\*.*?\*/|//[^\n]*", "", text, flags=re.S)
        depth, top = 0, []
        for m in re.finditer(r"[{}]|\b(message|enum|service)\s+(\w+)", code):
            if m.group() == "{":
                depth += 1
            elif m.group() == "}":
                depth -= 1
            elif depth == 0:
                top.append(m.groups())
        if "MULTI" in options:
            for k, n in top:
                if k == "message":
                    out |= {d + n.lower() + ".h", d + n.lower() + ".cpp"}
                elif k == "service":
                    out |= {d + n.lower() + "client.h", d + n.lower() + "client.cpp"}
        else:
            out |= {d + base + ".qpb.h", d + base + ".qpb.cpp"}
            if any(k == "service" for k, n in top):
                out |= {d + base + "_grpc.qpb.h", d + base + "_grpc.qpb.cpp"}
    return out


def comment_space(length):
    """one message per comment over the words of an alphabet, each also as a field comment"""
    alphabet = ["a", "$", "*", "/", "\n", " ", "!", "\\"]
    words = ["".join(w) for n in range(1, length + 1) for w in itertools.product(alphabet, repeat=n)]
    for i in range(0, len(words), 400):
        text = ""
        for j, w in enumerate(words[i:i + 400]):
            c = "".join("//%s\n" % l for l in w.split("\n"))
            text += "%smessage Msg%d {\n%sint32 num = 1;\n}\n" % (c, i + j, c)
        yield i, words[i:i + 400], [("cm", "cm", [], text)]


def p20_text(prop, tier):
    b = vbuild.Build()
    try:
        b.tools()
    except RuntimeError as e:
        raise CheckError(str(e))
    t = Text(prop, b)
    t0 = time.time()
    core = schema.CORE
    t.root(core, False), t.root(core, True)
    try:
        with ThreadPoolExecutor(8) as ex:
            # every combination of options, canonical order
            subsets = [s for n in range(len(TOKENS) + 1) for s in itertools.combinations(TOKENS, n)]
            canon = dict(zip(subsets, ex.map(lambda s: t.gen(core, ":".join(s)), subsets)))
            for s, o in canon.items():
                if isinstance(o, str):
                    t.fail("generate", "options '%s': %s" % (":".join(s), o))
                t.seen("files of " + ":".join(s))
                want = expected_files(core, s)
                if not set(o) >= want:
                    t.fail("files", "options '%s': files %s are missing, generated are %s" % (":".join(s), sorted(want - set(o)), sorted(o)))
            # the same options in every order, also with SINGLE among them
            toks = TOKENS if tier == "quick" else TOKENS + ["SINGLE"]
            orders = [p for n in range(len(toks) + 1) for p in itertools.permutations(toks, n)]
            if tier == "quick":
                orders += [("SINGLE",) + p for n in range(3) for p in itertools.permutations(TOKENS, n)] + [p + ("SINGLE",) for n in range(3) for p in itertools.permutations(TOKENS, n)]
            for p, o in zip(orders, ex.map(lambda p: t.gen(core, ":".join(p)), orders)):
                c = tuple(x for x in TOKENS if x in p)
                t.seen("order " + ":".join(p), c != p)
                t.same("order_" + ":".join(p), canon[c], o, "options '%s' and '%s'" % (":".join(c), ":".join(p)))
            quoted = [s for s in subsets if TOKENS[5] in s]
            for s, o in zip(quoted, ex.map(lambda s: t.gen(core, ":".join(s).replace("=xx", '="xx"')), quoted)):
                t.seen("quoted " + ":".join(s))
                t.same("quoted", canon[s], o, "options '%s' with the namespace quoted" % ":".join(s))
            # comments change comments only, and copy those of messages and fields
            for s in subsets:
                if "COMMENTS" in s:
                    continue
                w = tuple(x for x in TOKENS if x in s or x == "COMMENTS")
                a, c = canon[s], canon[w]
                t.seen("comments with " + ":".join(s))
                if sorted(a) != sorted(c):
                    t.fail("comments", "COMMENTS with '%s' changes the set of files" % ":".join(s))
                for f in a:
                    if lex(a[f])[0] != lex(c[f])[0]:
                        t.fail("comments", "COMMENTS with '%s' changes code in %s" % (":".join(s), f))
                ca = " ".join(x for f in sorted(a) for _, x in lex(a[f])[1])
                cc = " ".join(x for f in sorted(c) for _, x in lex(c[f])[1])
                for x in ("block comment of Leaf", "number comment", "bytes comment"):
                    if x not in cc:
                        t.fail("comments", "COMMENTS with '%s' loses the comment '%s'" % (":".join(s), x))
                    if x in ca:
                        t.fail("comments", "options '%s' copy the comment '%s'" % (":".join(s), x))
            # arguments in every order, together and one by one: the same files
            for s in subsets:
                if len(s) > 3 and tier == "quick":
                    continue
                root, names = t.root(core, "FOLDER" in s)
                runs = list(itertools.permutations(names))
                outs = list(ex.map(lambda p: t.gen(core, ":".join(s), list(p)), runs))
                one = [t.gen(core, ":".join(s), [n]) for n in names if "MULTI" not in s]
                u = {}
                for o in one:
                    if isinstance(o, str):
                        t.fail("separate", "options '%s', one file at a time: %s" % (":".join(s), o))
                    u.update(o)
                for p, o in zip(runs, outs):
                    t.seen("arguments %s with %s" % (p, ":".join(s)))
                    if not isinstance(o, str):  # the shared enum artifact follows the order of the arguments
                        o = {f: "\n".join(sorted(x.splitlines())) if f.startswith("globalenums.") else x for f, x in o.items()}
                    c = {f: "\n".join(sorted(x.splitlines())) if f.startswith("globalenums.") else x for f, x in canon[s].items()}
                    t.same("arguments", c, o, "options '%s' and arguments %s" % (":".join(s), p))
                if "MULTI" in s:  # the enums of all files share one artifact
                    continue
                t.seen("separate with %s" % ":".join(s))
                t.same("separate", canon[s], u, "options '%s', one file at a time" % ":".join(s))
            # any text in comments
            for start, words, files in comment_space(3 if tier == "quick" else 4):
                for s in ("", "MULTI") if start == 0 else ("",):
                    a, c = t.gen(files, s), t.gen(files, (s + ":" if s else "") + "COMMENTS")
                    for o in (a, c):
                        if isinstance(o, str):
                            t.fail("comment_text", "comments over special characters: " + o)
                    attached = {}
                    for f in a:
                        if lex(a[f])[0] != lex(c.get(f, ""))[0]:
                            x, y = lex(a[f])[0], lex(c.get(f, ""))[0]
                            i = next((i for i, (p, q) in enumerate(zip(x, y)) if p != q), min(len(x), len(y)))
                            t.fail("comment_text", "copied comment changes code in %s: %s becomes %s" % (f, " ".join(x[max(0, i - 8):i + 8]), " ".join(y[max(0, i - 8):i + 8])))
                        toks, com = lex(c[f])
                        for i, text in com:
                            if toks[i:i + 1] == ["class"] and i + 1 < len(toks):
                                attached.setdefault(toks[i + 1], []).append(text)
                    for j, w in enumerate(words):
                        t.seen("comment %r with %s" % (w, s), w.strip() != "")
                        want = re.sub(r"[^a$!]", "", w)
                        # a line comment that ends in a backslash or starts a doxygen block is the compiler's business
                        if want and want not in [re.sub(r"[^a$!]", "", x) for x in attached.get("Msg%d" % (start + j), [])]:
                            t.fail("comment_text", "comment %r of a message is copied as %s" % (w, attached.get("Msg%d" % (start + j))))
        return {"counters": t.counters, "states": t.states, "outcomes": set(), "samples": t.samples[:8], "cases": t.counters["evaluations"], "wall": time.time() - t0, "mode": "text"}
    finally:
        shutil.rmtree(t.dir, ignore_errors=True)


def p20_build(prop, tier):
    configs = []
    for base in ("SINGLE", "SINGLE:FOLDER", "MULTI:FOLDER"):
        for q in ("", ":QML"):
            for fe in ("", ":FIELDENUM"):
                for x in ("", ":EXTRA_NAMESPACE=xx"):
                    configs.append(("core", schema.CORE, base + q + fe + x))
    return compile_all(prop, configs, "schema", "-lprotobuf", False)


def p20(prop, tier):
    res = [p20_text(prop, tier)]
    log("%s text: %s" % (prop, res[0]["counters"]))
    return res + explore_all(prop, tier, p20_build(prop, tier), "P20")


def prebuild():
    """as much as can be built ahead; what cannot is the checks' business"""
    for prop, f in (("P19", p19_build), ("P20", p20_build), ("P21", p21_build), ("P23", p23_build)):
        try:
            f(prop, "quick")
        except (Violation, CheckError) as e:
            log("%s: %s" % (prop, str(e)[:500]))
