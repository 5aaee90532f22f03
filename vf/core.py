"""Shared machinery of the checks: building /repo, running TLC, replaying
behaviours on drivers, evidence and verdicts."""
import json, os, random, re, shutil, subprocess, sys, tempfile, time, atexit, glob
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
NCPU = os.cpu_count() or 4
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

class CheckError(Exception):
    pass

_work = None
def work():
    global _work
    if _work is None:
        _work = tempfile.mkdtemp(prefix="vf_")
        atexit.register(lambda: shutil.rmtree(_work, ignore_errors=True))
    return _work

def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, errors="replace", **kw)

def run_all(cmds, what):
    """run shell commands in parallel; raise on the first failure"""
    def one(c):
        return c, sh(c, shell=True)
    with ThreadPoolExecutor(NCPU) as ex:
        for c, r in ex.map(one, cmds):
            if r.returncode:
                raise CheckError("%s failed: %s\n%s" % (what, c, r.stderr[-2000:]))

SAN = "-fsanitize=address,undefined -fno-sanitize-recover=undefined -fno-omit-frame-pointer"
# Undefined-behaviour kinds that the unmodified code relies on in harmless form
# (see DESIGN.md) are left out.
UBSAN_OFF = " -fno-sanitize=alignment,nonnull-attribute,shift,pointer-overflow,null"

def build_util(san=True, extra=""):
    """compile util/*.c (and lib/{field,fqlsig,variable}.c) of REPO; returns (cflags, objects)"""
    out = os.path.join(work(), "util_o" + ("" if san else "_n") + str(abs(hash(extra)) % 9999))
    os.makedirs(out, exist_ok=True)
    fl = "-g -O1 -w -std=gnu11 -D_GNU_SOURCE " + (SAN + UBSAN_OFF if san else "") + " " + extra
    inc = "-I%s/util -I%s -I%s/lib -I%s/lib/include -I%s/drivers" % (REPO, REPO, REPO, REPO, VERIF)
    cmds, objs = [], []
    srcs = sorted(glob.glob(REPO + "/util/*.c"))
    srcs += [REPO + "/lib/%s.c" % x for x in ("field", "fqlsig", "variable")]
    for s in srcs:
        o = os.path.join(out, os.path.basename(os.path.dirname(s)) + "_" + os.path.basename(s)[:-2] + ".o")
        cmds.append("gcc %s %s -c %s -o %s" % (fl, inc, s, o))
        objs.append(o)
    run_all(cmds, "compiling /repo")
    return fl + " " + inc, objs

def build_driver(name, cfl, objs, libs="-pthread -lm", extra_src=()):
    exe = os.path.join(work(), "drv_" + name)
    srcs = " ".join([os.path.join(VERIF, "drivers", name + ".c")] + list(extra_src))
    r = sh("gcc %s %s %s -o %s %s" % (cfl, srcs, " ".join(objs), exe, libs), shell=True)
    if r.returncode:
        raise CheckError("driver %s does not build:\n%s" % (name, r.stderr[-2000:]))
    return exe

# ---------------------------------------------------------------- TLC
def tlc(module, consts, init="Init", nxt="Next", invs=(), simulate=None, depth=None, seed=None,
        workers=1, constraint=None, view=None, timeout=800, spec=None, props=(), post=None,
        extra_modules=(), deadlock=False, heap="3g", symmetry=None, dfid=None, actionc=None):
    """Run TLC on specs/<module>.tla.  Returns dict(states, distinct, out, ok, violated)."""
    d = tempfile.mkdtemp(prefix="tlc_", dir=work())
    cfg = []
    if spec: cfg.append("SPECIFICATION " + spec)
    else: cfg += ["INIT " + init, "NEXT " + nxt]
    cl = ["%s %s %s" % (k, "<-" if isinstance(v, Sub) else "=", v) for k, v in consts.items()]
    if cl: cfg.append("CONSTANTS\n  " + "\n  ".join(cl))
    for i in invs: cfg.append("INVARIANT " + i)
    for i in props: cfg.append("PROPERTY " + i)
    if constraint: cfg.append("CONSTRAINT " + constraint)
    if actionc: cfg.append("ACTION_CONSTRAINT " + actionc)
    if view: cfg.append("VIEW " + view)
    if post: cfg.append("POSTCONDITION " + post)
    if symmetry: cfg.append("SYMMETRY " + symmetry)
    cfg.append("CHECK_DEADLOCK " + ("TRUE" if deadlock else "FALSE"))
    cp = os.path.join(d, module + ".cfg")
    open(cp, "w").write("\n".join(cfg) + "\n")
    for f in glob.glob(VERIF + "/specs/*.tla"):
        os.symlink(f, os.path.join(d, os.path.basename(f)))
    for f in extra_modules:
        dst = os.path.join(d, os.path.basename(f))
        if not os.path.exists(dst): shutil.copy(f, dst)
    cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-cp", JAR, "tlc2.TLC",
           "-workers", str(workers), "-metadir", os.path.join(d, "meta"), "-config", cp,
           "-noGenerateSpecTE", "-lncheck", "final"]
    if simulate: cmd += ["-simulate", "num=%d" % simulate, "-depth", str(depth or 100)]
    if seed is not None: cmd += ["-seed", str(seed)]
    cmd.append(os.path.join(d, module + ".tla"))
    try:
        r = sh(cmd, cwd=d, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise CheckError("TLC timed out on " + module)
    o = "\n".join(l for l in r.stdout.splitlines() if not l.startswith(("Parsing file", "Semantic processing", "Linting"))) + "\n"
    res = {"out": o, "rc": r.returncode, "states": 0, "distinct": 0}
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states", o)
    if m:
        res["states"], res["distinct"] = int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))
    m = re.findall(r"The number of states generated: ([\d,]+)", o)
    if m: res["states"] = int(m[-1].replace(",", ""))
    m = re.findall(r"([\d,]+) traces generated", o)
    if m: res["traces"] = int(m[-1].replace(",", ""))
    shutil.rmtree(os.path.join(d, "meta"), ignore_errors=True)
    if r.returncode != 0:
        res["violated"] = True
    return res

class Sub(str):
    """constant override (<-)"""

def tla_str(s): return '"%s"' % s

def tla_val(v):
    if isinstance(v, bool): return "TRUE" if v else "FALSE"
    if isinstance(v, int): return str(v) if v >= 0 else "(%d)" % v
    if isinstance(v, str): return '"%s"' % v
    if isinstance(v, (list, tuple)): return "<<" + ", ".join(tla_val(x) for x in v) + ">>"
    if isinstance(v, (set, frozenset)): return "{" + ", ".join(tla_val(x) for x in sorted(v)) + "}"
    raise ValueError(v)

def read_out(path):
    """histories written by Emit"""
    hs = []
    if not os.path.exists(path): return hs
    with open(path) as f:
        for l in f:
            l = l.strip()
            if l: hs.append(json.loads(json.loads(l)))
    return hs

# ---------------------------------------------------------------- replay
def arg(a):
    if isinstance(a, list): return "[" + ",".join(arg(x) for x in a) + "]"
    if isinstance(a, dict) and not a: return "[]"
    if isinstance(a, bool): return "1" if a else "0"
    return str(a)

def op_line(e):
    return " ".join(arg(x) for x in e[:-1])

def norm(v):
    if isinstance(v, dict) and not v: return []
    if isinstance(v, list): return [norm(x) for x in v]
    if isinstance(v, bool): return int(v)
    return v

ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=0:max_allocation_size_mb=800:hard_rss_limit_mb=2500",
           UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1", LC_ALL="C")

def brief(err):
    """the informative part of a sanitizer report"""
    i = err.find("ERROR: AddressSanitizer")
    if i < 0: i = err.find("runtime error")
    if i < 0: return err[-800:]
    i = max(0, err.rfind("\n", 0, i))
    keep = [l for l in err[i:].splitlines() if l.strip().startswith(("#", "==")) and "libc" not in l or "ERROR" in l or "error" in l or "SUMMARY" in l]
    return "\n".join(keep[:24])

def _limits():
    import resource
    resource.setrlimit(resource.RLIMIT_CPU, (120, 125))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 30, 1 << 30))

def run_driver(exe, lines, timeout=120, argv=(), unbuf=False):
    """feed lines; returns (rc, stdout lines, stderr)"""
    p = subprocess.Popen([exe] + list(argv), stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=_limits,
                         env=dict(ENV, VF_UNBUF="1") if unbuf else ENV, cwd=work())
    try:
        out, err = p.communicate(("\n".join(lines) + "\n").encode(), timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        p.kill()
        out, err = p.communicate()
        rc = -999
    return rc, out.decode("utf8", "replace").splitlines(), err.decode("utf8", "replace")

def replay(exe, hists, argv=(), timeout=120, limit=5, jobs=None):
    """Replay histories (lists of [op, args..., expected]) on a driver; return list of
    (history, step index, expected, observed, stderr)."""
    jobs = jobs or NCPU
    # big chunks, one process each
    n = max(1, min(jobs, (len(hists) + 199) // 200))
    chunks = [hists[i::n] for i in range(n)]
    def one(ch):
        bad = []
        lines = [op_line(e) for h in ch for e in h]
        rc, out, err = run_driver(exe, lines, timeout, argv)
        if rc not in (0, 77):
            rc, out, err = run_driver(exe, lines, timeout, argv, True)
        k = 0
        for h in ch:
            if len(bad) >= limit: break
            for j, e in enumerate(h):
                if k + j >= len(out):
                    bad.append((h, j, e[-1], "driver ended: rc=%s" % rc, brief(err)))
                    return bad, rc
                try:
                    got = json.loads(out[k + j])
                except ValueError:
                    got = out[k + j]
                if norm(got) != norm(e[-1]):
                    bad.append((h, j, e[-1], got, ""))
                    break
            k += len(h)
        if not bad and rc != 0:
            bad.append((ch[-1], len(ch[-1]) - 1, "exit 0", "driver ended: rc=%s" % rc, brief(err)))
        return bad, rc
    bad = []
    with ThreadPoolExecutor(n) as ex:
        for b, rc in ex.map(one, chunks):
            if rc == 77: raise CheckError("driver protocol error: " + str(b[:1]))
            bad += b
    # confirm each one alone
    conf = []
    for b in bad[:limit]:
        h = b[0]
        rc, out, err = run_driver(exe, [op_line(e) for e in h], 20, argv, True)
        for j, e in enumerate(h):
            if j >= len(out):
                conf.append((h, j, e[-1], "driver ended: rc=%s" % rc, brief(err))); break
            try: got = json.loads(out[j])
            except ValueError: got = out[j]
            if norm(got) != norm(e[-1]):
                conf.append((h, j, e[-1], got, brief(err))); break
        else:
            if rc != 0: conf.append((h, len(h) - 1, "exit 0", "rc=%s" % rc, brief(err)))
    if bad and not conf:
        # depends on what ran before in the same process: report the original
        conf = bad[:1]
    return conf

# ---------------------------------------------------------------- verdicts
class Verdict:
    def __init__(self, pid, level):
        self.pid, self.level, self.t0 = pid, level, time.time()
        self.cov, self.viol, self.known, self.assume = {}, [], [], []
        self.kf = []
        p = os.path.join(VERIF, "known_findings.jsonl")
        if os.path.exists(p):
            for l in open(p):
                l = l.strip()
                if l and not l.startswith("#") and not l.startswith("fixed:"):
                    x = json.loads(l)
                    if x.get("property") == pid: self.kf.append(x)
    def is_known(self, key):
        return any(x.get("key") == key for x in self.kf)
    def report(self, what, detail, key=None):
        """one confirmed disagreement"""
        if key is not None and self.is_known(key):
            if key not in self.known: self.known.append(key)
            return
        self.viol.append((what, detail))
    def finish(self):
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        ev = {"property": self.pid, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED,
              "level": self.level, "coverage": self.cov, "assumptions": self.assume,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.viol)}
        with open("%s/evidence/%s.json" % (VERIF, self.pid), "w") as f:
            json.dump(ev, f, indent=1)
        for x in self.kf:
            if x["key"] in self.known:
                print("KNOWN-FINDING: property=%s %s" % (self.pid, x["what"]))
        try: os.remove("%s/evidence/%s.replay.txt" % (VERIF, self.pid))
        except OSError: pass
        if self.viol:
            rp = "%s/evidence/%s.replay.txt" % (VERIF, self.pid)
            with open(rp, "w") as f:
                for w, d in self.viol[:20]:
                    f.write(w + "\n" + (d if isinstance(d, str) else "\n".join("  %s: %s" % (k, json.dumps(x) if not isinstance(x, str) else x) for k, x in d.items()) if isinstance(d, dict) else json.dumps(d)) + "\n\n")
            for w, d in self.viol[:5]:
                print("VIOLATION property=%s replay=%s  # %s" % (self.pid, rp, w))
            return 1
        print("OK property=%s %.1fs %s" % (self.pid, time.time() - self.t0,
              {k: v for k, v in self.cov.items() if isinstance(v, int)}))
        return 0

def main(fn):
    try:
        sys.exit(fn())
    except CheckError as e:
        print("CHECK-ERROR: " + str(e), file=sys.stderr)
        sys.exit(2)
