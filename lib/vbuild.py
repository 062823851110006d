"""Builds harnesses out of /repo's working tree, in /verif/.build (ignored by git), with ninja.

/repo/src is mirrored by content into .build/src, so that ninja's time stamps follow content changes only."""
import os, re, subprocess, sys, shutil, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))
SRC = os.path.join(BUILD, "src")
SUPPORT = os.path.join(VERIF, "support")
QT = "/usr/include/x86_64-linux-gnu/qt5"
QTLIB = "/usr/lib/x86_64-linux-gnu"
MOC = "/usr/lib/qt5/bin/moc"
NINJA = shutil.which("ninja") or "/usr/bin/ninja"

VARIANTS = {
    "plain": ["-O1", "-g1"],
    "o0": ["-O0", "-g0"],
    "asan": ["-O1", "-g1", "-fsanitize=address,undefined",
             # bool/enum: copy constructors of generated classes compare freshly allocated members (benign);
             # alignment: wire data is read unaligned on purpose (x86), vptr needs RTTI of Qt.
             "-fno-sanitize=bool,enum,alignment,vptr", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"],
    "tsan": ["-O1", "-g1", "-fsanitize=thread"],
}
LINK = {"plain": [], "o0": [], "asan": ["-fsanitize=address,undefined"], "tsan": []}


def sync(src, dst):
    """make dst a copy of src, rewriting only files whose content differs"""
    want = set()
    for root, dirs, files in os.walk(src):
        dirs[:] = [d for d in dirs if d != ".git"]
        for f in files:
            p = os.path.join(root, f)
            r = os.path.relpath(p, src)
            want.add(r)
            q = os.path.join(dst, r)
            with open(p, "rb") as h:
                data = h.read()
            try:
                with open(q, "rb") as h:
                    if h.read() == data:
                        continue
            except OSError:
                os.makedirs(os.path.dirname(q), exist_ok=True)
            with open(q, "wb") as h:
                h.write(data)
    for root, dirs, files in os.walk(dst):
        for f in files:
            r = os.path.relpath(os.path.join(root, f), dst)
            if r not in want:
                os.unlink(os.path.join(root, f))


def write_if_changed(path, text):
    try:
        if open(path).read() == text:
            return
    except OSError:
        os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write(text)


class GenFailed(Exception):
    """the generator did not accept a schema"""


class Build:
    def __init__(self):
        os.makedirs(BUILD, exist_ok=True)
        sync(os.path.join(REPO, "src"), SRC)
        self.lines = []
        self.seen = {}
        self.incs = self._forwarding_headers()
        qtinc = ["-isystem", QT] + sum((["-isystem", QT + "/" + m] for m in
                 ("QtCore", "QtQml", "QtNetwork", "QtGui", "QtQmlModels", "QtQuick")), [])
        self.base = ["-std=gnu++14", "-fPIC", "-pipe", "-w",
                     "-DQT_CORE_LIB", "-DQT_NETWORK_LIB", "-DQT_QML_LIB", "-DQT_GUI_LIB",
                     "-DQT_PROTOBUF_NATIVE_GRPC_CHANNEL", "-DQT_BUILD_PROTOBUF_LIB", "-DQT_BUILD_GRPC_LIB",
                     "-DQT_BUILD_PROTOBUF_QT_TYPES_LIB",
                     "-DQT_BUILD_PROTOBUFQTTYPES_LIB",
                     "-DQT_BUILD_PROTOBUFWELLKNOWNTYPES_LIB",
                     "-DQT_BUILD_PROTOBUF_WELL_KNOWN_TYPES_LIB",
                     '-DQT_PROTOBUF_PLUGIN_PATH=\\"/nonexistent-plugin-path\\"',
                     "-DQT_PROTOBUF_VERSION_MAJOR=0", "-DQT_PROTOBUF_VERSION_MINOR=6",
                     "-DQTPROTOBUF_VERIF",
                     "-I" + SRC + "/protobuf", "-I" + SRC + "/grpc", "-I" + SRC + "/qttypes", "-I" + BUILD + "/include",
                     "-I" + VERIF + "/harness"] + qtinc
        self.emit("ninja_required_version = 1.5")
        self.emit("rule cc\n  command = $cxx $flags -MD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc\n  description = CC $out")
        self.emit("rule moc\n  command = %s $mocflags $in -o $out\n  description = MOC $out" % MOC)
        self.emit("rule link\n  command = $cxx $in -o $out $ldflags\n  description = LINK $out")
        self.emit("rule run\n  command = $cmd\n  description = GEN $out\n  restat = 1")

    def emit(self, s):
        self.lines.append(s)

    def _forwarding_headers(self):
        d = os.path.join(BUILD, "include")
        want = set()
        for sub in ("protobuf", "grpc", "qttypes"):
            p = os.path.join(SRC, sub)
            for f in sorted(os.listdir(p)):
                if not f.endswith(".h"):
                    continue
                text = open(os.path.join(p, f)).read()
                names = set(re.findall(r"^\s*class\s+(?:[A-Z_0-9]+\s+)?(Q\w+)\s*(?:final\s*)?(?::[^:]|\{|$)", text, re.M))
                names |= set(re.findall(r"#pragma once\s*//\s*(\w+)", text))
                for n in names:
                    if n.lower() + ".h" == f.lower() or not os.path.exists(os.path.join(p, n.lower() + ".h")):
                        want.add(n)
                        write_if_changed(os.path.join(d, n), '#include "%s"\n' % f)
        return want

    # ---- elementary edges -------------------------------------------------
    def obj(self, src, variant, extra=(), implicit=(), tag=None, cxx="g++"):
        key = ("obj", src, variant, tuple(extra), tag)
        if key in self.seen:
            return self.seen[key]
        rel = os.path.relpath(src, BUILD) if src.startswith(BUILD) else "V/" + os.path.relpath(src, VERIF)
        if rel.startswith(".."):
            rel = "X/" + src.strip("/")
        h = ("." + tag) if tag else ""
        out = os.path.join(BUILD, "obj", variant + h, rel + ".o")
        flags = VARIANTS[variant] + self.base + list(extra)
        self.emit("build %s: cc %s%s\n  cxx = %s\n  flags = %s" % (
            out, src, (" || " + " ".join(implicit)) if implicit else "", cxx, " ".join(flags)))
        self.seen[key] = out
        return out

    def moc(self, header, implicit=(), include=None):
        key = ("moc", header)
        if key in self.seen:
            return self.seen[key]
        rel = os.path.relpath(header, BUILD) if header.startswith(BUILD) else "V/" + os.path.relpath(header, VERIF)
        out = os.path.join(BUILD, "moc", os.path.dirname(rel), "moc_" + os.path.basename(header) + ".cpp")
        self.emit("build %s: moc %s%s\n  mocflags = -DQT_CORE_LIB -DQT_PROTOBUF_NATIVE_GRPC_CHANNEL %s -I%s/protobuf -I%s/grpc -I%s/include -p %s" % (
            out, header, (" || " + " ".join(implicit)) if implicit else "", "", SRC, SRC, BUILD, os.path.dirname(header)))
        self.seen[key] = out
        return out

    # ---- components -------------------------------------------------------
    def lib(self, name, variant, exclude=(), extra=()):
        """objects of /repo/src/<name> (one of protobuf, grpc, qttypes)"""
        d = os.path.join(SRC, name)
        objs = []
        inc = ["-I" + d] + list(extra)
        imp = []
        if name == "qttypes":
            g = self.gen("qttypes", [d + "/QtProtobuf/QtCore.proto", d + "/QtProtobuf/QtGui.proto"], d, "QML:FOLDER",
                         outs=["QtProtobuf/QtCore", "QtProtobuf/QtGui"])
            objs += self.genobjs(g, variant)
            inc += ["-I" + g["dir"]]
            imp = g["files"]
        for f in sorted(os.listdir(d)):
            if f in exclude:
                continue
            p = os.path.join(d, f)
            if f.endswith(".cpp") and f != "qprotobufjsonserializer.cpp":
                objs.append(self.obj(p, variant, inc, implicit=imp))
            elif f.endswith(".h") and re.search(r"\bQ_(OBJECT|GADGET)\b", re.sub(r"/\*.*?\*/|//[^\n]*", "", open(p).read(), flags=re.S)):
                objs.append(self.obj(self.moc(p), variant, inc, implicit=imp))
        if name == "protobuf":
            objs.append(self.obj(os.path.join(SUPPORT, "json_left_out.cpp"), variant, inc))
        return objs

    def generator(self):
        if "generator" in self.seen:
            return self.seen["generator"]
        d = os.path.join(SRC, "generator")
        objs = [self.obj(os.path.join(d, f), "plain", ["-include", SUPPORT + "/protobuf_string.h"]) for f in sorted(os.listdir(d)) if f.endswith(".cpp")]
        out = os.path.join(BUILD, "qtprotobufgen")
        self.emit("build %s: link %s\n  cxx = g++\n  ldflags = -lprotobuf -lprotoc -lpthread" % (out, " ".join(objs)))
        self.seen["generator"] = out
        return out

    def vbridge(self):
        if "vbridge" in self.seen:
            return self.seen["vbridge"]
        o = self.obj(VERIF + "/harness/vbridge.cpp", "plain")
        out = os.path.join(BUILD, "vbridge")
        self.emit("build %s: link %s\n  cxx = g++\n  ldflags = -lprotobuf -lprotoc -lpthread" % (out, o))
        self.seen["vbridge"] = out
        return out

    def gen(self, name, protos, root, options="", outs=None, grpc=False, incs=(), nobridge=False):
        """run the generator (single-file mode) and the reference descriptor + bridge emission"""
        key = ("gen", name)
        if key in self.seen:
            return self.seen[key]
        gdir = os.path.join(BUILD, "gen", name)
        os.makedirs(gdir, exist_ok=True)
        outs = outs or [os.path.splitext(os.path.basename(p))[0] for p in protos]
        files = []
        for o in outs:
            files += [gdir + "/" + o + ".qpb.h", gdir + "/" + o + ".qpb.cpp"]
            if grpc and o in grpc:
                files += [gdir + "/" + o + "_grpc.qpb.h", gdir + "/" + o + "_grpc.qpb.cpp"]
        I = " ".join("-I" + i for i in [root, *incs])
        opt = "SINGLE:" + options if options else "SINGLE"
        cmd = "cd %s && QT_PROTOBUF_OPTIONS=%s protoc --plugin=protoc-gen-qtprotobufgen=%s --qtprotobufgen_out=%s %s %s" % (
            gdir, opt, self.generator(), gdir, I, " ".join(protos))
        self.emit("build %s: run %s | %s\n  cmd = %s" % (" ".join(files), " ".join(protos), self.generator(), cmd))
        g = {"dir": gdir, "files": [f for f in files if f.endswith(".h")], "cpp": [f for f in files if f.endswith(".cpp")], "name": name,
             "grpc": bool(grpc)}
        if not nobridge:
            fds = gdir + "/" + name + ".fds"
            br = gdir + "/" + name + ".bridge.h"
            self.emit("build %s: run %s\n  cmd = protoc --include_imports --descriptor_set_out=%s %s %s" % (fds, " ".join(protos), fds, I, " ".join(protos)))
            self.emit("build %s: run %s | %s\n  cmd = %s %s %s > %s.tmp && mv %s.tmp %s" % (br, fds, self.vbridge(), self.vbridge(), fds, name, br, br, br))
            g["fds"] = fds
            g["bridge"] = br
        self.seen[key] = g
        return g

    def genobjs(self, g, variant, extra=()):
        objs = []
        inc = ["-I" + g["dir"]] + list(extra)
        for c in g["cpp"]:
            objs.append(self.obj(c, variant, inc, implicit=g["files"]))
        for h in g["files"]:
            objs.append(self.obj(self.moc(h, implicit=g["files"]), variant, inc, implicit=g["files"]))
        return objs

    def sbridge(self):
        if "sbridge" in self.seen:
            return self.seen["sbridge"]
        o = self.obj(VERIF + "/harness/sbridge.cpp", "o0")
        out = os.path.join(BUILD, "sbridge")
        self.emit("build %s: link %s\n  cxx = g++\n  ldflags = -lprotobuf -lprotoc -lpthread" % (out, o))
        self.seen["sbridge"] = out
        return out

    def tools(self):
        """builds the generator and sbridge now: what they write decides the rest of the build"""
        if "tools" not in self.seen:
            rc, out = self.run([self.generator(), self.sbridge()])
            if rc:
                raise RuntimeError("build failed:\n" + "\n".join(l[:300] for l in out.splitlines() if "error" in l or "FAILED" in l)[:2500])
            self.seen["tools"] = True

    def protoc(self, options, root, protos, out):
        """runs the generator; out is replaced"""
        e = dict(os.environ, QT_PROTOBUF_OPTIONS=options)
        r = subprocess.run(["protoc", "--plugin=protoc-gen-qtprotobufgen=" + self.generator(), "--qtprotobufgen_out=" + out, "-I" + root] + protos,
                           env=e, cwd=root, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise GenFailed("generator with options '%s' on %s: exit code %s: %s" % (options, " ".join(protos), r.returncode, r.stdout[-1500:]))

    def schema(self, name, texts, options, variant="o0", per=12, grpc=False, service_tables=False):
        """generates, with any options, all classes of a set of proto files, and sbridge's tables about them; returns objects and descriptors"""
        self.tools()
        d = os.path.join(BUILD, "schema", name)
        root, gen, tab, tu, tmp = d + "/proto", d + "/gen", d + "/tab", d + "/tu", d + "/tmp"
        shutil.rmtree(tmp, ignore_errors=True)
        for x in (root, gen, tab, tu, tmp):
            os.makedirs(x, exist_ok=True)
        for p, t in texts.items():
            write_if_changed(root + "/" + p, t)
        protos = sorted(texts)
        self.protoc(options, root, protos, tmp)
        sync(tmp, gen)
        shutil.rmtree(tmp)
        fds = d + "/all.fds"
        r = subprocess.run(["protoc", "--include_imports", "--descriptor_set_out=" + fds, "-I" + root] + protos, cwd=root, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise RuntimeError("protoc: " + r.stdout)
        o = options.split(":")
        extra = [x.split("=")[1].strip('"') for x in o if x.startswith("EXTRA_NAMESPACE=")]
        args = ["multi=%d" % ("MULTI" in o), "folder=%d" % ("FOLDER" in o), "qml=%d" % ("QML" in o), "extra=" + "".join(extra), "per=%d" % per, "grpc=%d" % service_tables]
        os.makedirs(tmp)
        subprocess.run([self.sbridge(), fds, tmp] + args, check=True)
        sync(tmp, tab)
        shutil.rmtree(tmp)
        objs, side = [], []
        inc = ["-I" + gen]
        headers, sources = [], []
        for r, _, files in os.walk(gen):
            for f in sorted(files):
                (headers if f.endswith(".h") else sources).append(os.path.relpath(os.path.join(r, f), gen))
        for s in sorted(sources):
            h = s[:-4] + ".h"
            text = '#include "%s"\n' % (gen + "/" + s)
            dep = []
            if h in headers:
                headers.remove(h)
                if "Q_OBJECT" in open(gen + "/" + h).read():
                    dep = [self.moc(gen + "/" + h)]
                    text += '#include "%s"\n' % dep[0]
            write_if_changed(tu + "/" + s, text)
            (side if s.endswith("_grpc.qpb.cpp") or (s.endswith("client.cpp") and not s.endswith(".qpb.cpp")) else objs).append(self.obj(tu + "/" + s, variant, inc, implicit=dep))
        for h in sorted(headers):  # a header without a source still has to compile, alone
            dep = [self.moc(gen + "/" + h)] if "Q_OBJECT" in open(gen + "/" + h).read() else []
            write_if_changed(tu + "/" + h + ".cpp", '#include "%s"\n' % (gen + "/" + h) + "".join('#include "%s"\n' % x for x in dep))
            objs.append(self.obj(tu + "/" + h + ".cpp", variant, inc, implicit=dep))
        for f in sorted(os.listdir(tab)):
            if f.endswith(".cpp"):
                objs.append(self.obj(tab + "/" + f, variant, inc + ["-I" + tab]))
        return {"objs": objs, "side": side, "fds": fds, "gen": gen, "root": root, "tab": tab}

    QTLIBS = "-lQt5Qml -lQt5Network -lQt5Gui -lQt5Core"

    def shared(self, name, variant, objs):
        out = os.path.join(BUILD, "plugins", name)
        self.emit("build %s: link %s\n  cxx = g++\n  ldflags = -shared %s -lQt5Core" % (out, " ".join(objs), " ".join(LINK[variant])))
        return out

    def exe(self, name, variant, objs, libs="", cxx="g++", implicit=()):
        out = os.path.join(BUILD, "bin", name)
        self.emit("build %s: link %s" % (out, " ".join(dict.fromkeys(objs))) + (" | " + " ".join(implicit) if implicit else "") + "\n  cxx = %s\n  ldflags = %s %s %s -lpthread -ldl -rdynamic" % (
            cxx, " ".join(LINK[variant]), libs, self.QTLIBS))
        return out

    def run(self, targets, jobs=None):
        nf = os.path.join(BUILD, "build.%s.ninja" % hashlib.sha1(" ".join(targets).encode()).hexdigest()[:8])
        write_if_changed(nf, "builddir = %s\n" % BUILD + "\n".join(self.lines) + "\n")
        r = subprocess.run([NINJA, "-C", BUILD, "-f", nf] + (["-j%d" % jobs] if jobs else []) + targets,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return r.returncode, r.stdout
