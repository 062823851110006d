"""Runs an exploration binary in shards, confirms failures by replaying the single case, writes evidence, reports."""
import json, os, re, shutil, struct, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CORES = min(8, os.cpu_count() or 1)
ASAN = "max_allocation_size_mb=64:detect_leaks=0:allocator_may_return_null=0:abort_on_error=0:exitcode=77:detect_stack_use_after_return=0:handle_abort=1"


def log(*a):
    print(*a, file=sys.stderr, flush=True)


class CheckError(Exception):
    pass


class Violation(Exception):
    def __init__(self, what, replay):
        Exception.__init__(self, what)
        self.what, self.replay = what, replay


def env_for(extra=None):
    e = dict(os.environ)
    e.update({"QT_LOGGING_RULES": "*=false", "QT_QPA_PLATFORM": "offscreen", "ASAN_OPTIONS": ASAN, "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=78",
              "LANG": "C.UTF-8", "LC_ALL": "C.UTF-8", "TZ": "UTC", "QT_HASH_SEED": "0", "GRPC_VERBOSITY": "NONE"})
    e.pop("LD_PRELOAD", None)
    e.update(extra or {})
    return e


def single(exe, mode, tier, case, env, limit, args=()):
    """one case alone; returns (ok, text)"""
    d = tempfile.mkdtemp(prefix="vcase.")
    try:
        out = d + "/out"
        try:
            p = subprocess.run([exe, "--mode", mode, "--tier", tier, "--only", str(case), "--out", out, *args], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=limit)
        except subprocess.TimeoutExpired:
            return False, "does not terminate (%d s)" % limit, "hang"
        text = p.stdout.decode("utf-8", "replace")
        if p.returncode == 0:
            return True, "", "ok"
        if p.returncode == 1 and os.path.exists(out):
            r = json.load(open(out))
            return False, r["failure"], "fail"
        if p.returncode == 3:
            raise CheckError("harness error in case %s of %s: %s" % (case, mode, text[-2000:]))
        return False, "process ended with %s: %s" % (p.returncode, crash_summary(text)), "crash"
    finally:
        shutil.rmtree(d, ignore_errors=True)


def crash_summary(text):
    lines = [l for l in text.splitlines() if l.strip()]
    keep = [l for l in lines if "ERROR: AddressSanitizer" in l or "runtime error" in l or "SUMMARY" in l or "VSCHED" in l]
    frames = [l.strip() for l in lines if l.strip().startswith("#") and "/src/" in l][:6]
    return " | ".join((keep or lines[-3:]) + frames)[:1500]


def known():
    r = []
    for l in open(VERIF + "/known_findings.txt"):
        m = re.match(r"known: property=(\S+) probe=(\S+) (.*)", l.strip())
        if m:
            r.append(m.groups())
    return r


def probes(prop, exe, names, tier, env=None):
    """prints the known findings that still reproduce"""
    n = 0
    for name in names:
        for kp, kn, text in known():
            if kp == prop and kn == name:
                ok, what, kind = single(exe, "probe:" + name, tier, 0, env_for(env), 120)
                if not ok:
                    n += 1
                    print("KNOWN-FINDING: property=%s %s" % (prop, text))
    return n


def explore(prop, exe, mode, tier, shards=CORES, env=None, stall=60, total=780, args=(), key=None):
    """returns merged result of all shards or raises Violation"""
    key = key or mode
    env = env_for(env)
    d = tempfile.mkdtemp(prefix="vexp.")
    procs = []
    t0 = time.time()
    try:
        for s in range(shards):
            o, pr = "%s/o%d" % (d, s), "%s/p%d" % (d, s)
            log_f = open("%s/l%d" % (d, s), "wb")
            p = subprocess.Popen([exe, "--mode", mode, "--tier", tier, "--shard", str(s), "--shards", str(shards), "--out", o, "--progress", pr, *args],
                                 env=env, stdout=log_f, stderr=subprocess.STDOUT)
            procs.append({"p": p, "o": o, "pr": pr, "l": "%s/l%d" % (d, s), "s": s, "last": None, "t": time.time(), "hung": False})
        alive = list(procs)
        stop = False
        while alive:
            time.sleep(0.05 if time.time() - t0 < 5 else 0.25)
            for x in list(alive):
                if x["p"].poll() is not None:
                    alive.remove(x)
                    if x["p"].returncode != 0:
                        stop = True
                    continue
                try:
                    cur = open(x["pr"], "rb").read(16)
                except OSError:
                    cur = b""
                if cur != x["last"]:
                    x["last"], x["t"] = cur, time.time()
                elif time.time() - x["t"] > stall:
                    x["hung"] = True
                    x["p"].kill()
                    stop = True
            if time.time() - t0 > total:
                for x in alive:
                    x["p"].kill()
                raise CheckError("time limit of %d s reached in %s" % (total, mode))
            if stop:
                # let the others finish briefly, a failure has been seen
                for x in alive:
                    x["p"].kill()
                for x in alive:
                    x["p"].wait()
                break
        merged = {"counters": {}, "samples": [], "states": set(), "outcomes": set(), "cases": 0}
        failures = []
        for x in procs:
            rc = x["p"].wait()
            if rc == 0 and os.path.exists(x["o"]):
                r = json.load(open(x["o"]))
                merged["cases"] = max(merged["cases"], r["cases"])
                for k, v in r["counters"].items():
                    merged["counters"][k] = merged["counters"].get(k, 0) + v
                merged["samples"] += r["samples"][:2]
                for n in ("states", "outcomes"):
                    b = open(x["o"] + "." + n, "rb").read()
                    merged[n].update(struct.unpack("<%dQ" % (len(b) // 8), b))
            elif rc == 1 and os.path.exists(x["o"]):
                r = json.load(open(x["o"]))
                failures.append((r["case"], r["failure"], "fail", x["s"]))
            elif rc == 3:
                raise CheckError("harness error in %s: %s" % (mode, open(x["l"], "rb").read().decode("utf-8", "replace")[-2000:]))
            elif rc == -9 and not x["hung"]:
                continue  # ended because another shard failed
            else:
                b = open(x["pr"], "rb").read(16) if os.path.exists(x["pr"]) else b""
                case = struct.unpack("<Q", b[:8])[0] if len(b) >= 8 else 2 ** 64 - 1
                text = open(x["l"], "rb").read().decode("utf-8", "replace")
                if case == 2 ** 64 - 1:
                    raise CheckError("%s ended with %s before the first case: %s" % (mode, rc, text[-2000:]))
                failures.append((case, "no progress for %d s" % stall if x["hung"] else "process ended with %s: %s" % (rc, crash_summary(text)), "hang" if x["hung"] else "crash", x["s"]))
        if failures:
            failures.sort()
            notes = []
            for case, what, kind, sh in failures:
                ok, text, k2 = single(exe, mode, tier, case, env, max(30, int(stall * 1.5)), args)
                if ok:
                    notes.append((case, what, sh))
                    continue
                ok2, text2, k3 = single(exe, mode, tier, case, env, max(30, int(stall * 1.5)), args)  # the same case must fail every time
                if ok2:
                    notes.append((case, what, sh))
                    continue
                raise Violation(text, save_replay(prop, exe, mode, tier, case, text, args))
            # cases that fail only after the cases before them: replay the whole shard prefix once more
            case, what, sh = notes[0]
            o, pr = d + "/again", d + "/againp"
            p = subprocess.run([exe, "--mode", mode, "--tier", tier, "--shard", str(sh), "--shards", str(shards), "--out", o, "--progress", pr, *args], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=total)
            if p.returncode not in (0, 3):
                raise Violation(what + " (after the preceding cases of shard %d/%d)" % (sh, shards), save_replay(prop, exe, mode, tier, case, what, list(args) + ["--shard", str(sh), "--shards", str(shards)], history=True))
            raise CheckError("case %d of %s failed once and not again: %s" % (case, mode, what))
        merged["wall"] = time.time() - t0
        merged["mode"] = key
        return merged
    finally:
        for x in procs:
            if x["p"].poll() is None:
                x["p"].kill()
                x["p"].wait()
        shutil.rmtree(d, ignore_errors=True)


def save_replay(prop, exe, mode, tier, case, what, args, history=False):
    d = os.path.join(VERIF, "replay", prop)
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s-%s-%d.json" % (mode, tier, case))
    cmd = [exe, "--mode", mode, "--tier", tier] + ([] if history else ["--only", str(case)]) + list(args)
    with open(p, "w") as f:
        json.dump({"property": prop, "mode": mode, "tier": tier, "case": case, "what": what, "command": cmd,
                   "how": "run bin/check %s (builds the binary), then the command; it prints the failing case and exits 1 (or crashes)" % prop}, f, indent=1)
    return p


def evidence(prop, tier, level, results, rule, wall, extra=None, assumptions=(), violations=0):
    cov = {"evaluations": 0, "transitions": 0, "states": 0, "samples": [], "rule": rule, "exhaustive": True, "spaces": {}}
    states = 0
    nontrivial = 0
    outcomes = 0
    for r in results:
        c = r["counters"]
        cov["evaluations"] += c.get("evaluations", 0)
        cov["transitions"] += c.get("transitions", c.get("evaluations", 0))
        states += len(r["states"])
        nontrivial += c.get("nontrivial", 0)
        outcomes += len(r["outcomes"])
        cov["samples"] += r["samples"][:8]
        cov["spaces"][r["mode"]] = dict(c, cases=r["cases"], states=len(r["states"]), distinct_outcomes=len(r["outcomes"]), wall_s=round(r["wall"], 1))
    cov["states"] = states
    cov["distinct_nontrivial"] = nontrivial
    cov["traces_validated_against_impl"] = cov["evaluations"]
    cov["samples"] = cov["samples"][:16]
    if outcomes:
        cov["distinct_outcomes"] = outcomes
    cov.update(extra or {})
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump({"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": level, "coverage": cov,
                   "assumptions": list(assumptions), "wall_s": round(wall, 2), "violations": violations}, f, indent=1)
