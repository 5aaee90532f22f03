"""The complete engine: build it from /repo's working tree with a fork server,
and run many command lines / library scripts on a pool of servers."""
import os, glob, subprocess, hashlib, shutil, tempfile, threading, stat
from concurrent.futures import ThreadPoolExecutor
from . import core as C

_built = {}
WRAP = "fopen fdopen freopen mkstemp fclose close fflush fwrite fputs fputc fprintf rename link unlink remove open write pwrite truncate ftruncate mmap fstat".split()
def build_engine(san=True, fault=False):
    """returns the path of the fork server executable; with fault, file-system calls
    of /repo go through drivers/fault.c"""
    bk = (san, fault)
    if bk in _built: return _built[bk]
    key = None
    cache = os.environ.get("VERIF_ENGINE_CACHE")
    if cache:
        h = hashlib.sha1()
        for d in ("util", "lib", "lib/include", "lib/antlr", "lib/antlr/gen", "src", "lib/schema"):
            for f in sorted(glob.glob(os.path.join(C.REPO, d, "*"))):
                if os.path.isfile(f) and f.endswith((".c", ".h", ".cpp")): h.update(f.encode()); h.update(open(f, "rb").read())
        for f in sorted(glob.glob(C.VERIF + "/shim/*") + glob.glob(C.VERIF + "/drivers/fql*.c") + [C.VERIF + "/drivers/fault.c"]): h.update(open(f, "rb").read())
        key = os.path.join(cache, h.hexdigest() + ("s" if san else "n") + ("f" if fault else ""))
        if os.path.exists(key):
            _built[bk] = key
            return key
    out = os.path.join(C.work(), "eng" + ("s" if san else "n") + ("f" if fault else ""))
    os.makedirs(out, exist_ok=True)
    os.chmod(C.work(), 0o755)
    R, V = C.REPO, C.VERIF
    fl = "-g -O1 -w -std=gnu11 -D_GNU_SOURCE " + (C.SAN + C.UBSAN_OFF if san else "")
    inc = "-I%s/shim -I%s/lib/include -I%s/lib -I%s -I%s/util" % (V, R, R, R, R)
    cmds, objs = [], []
    def add(src, cmd):
        o = os.path.join(out, os.path.relpath(src, "/").replace("/", "_") + ".o")
        objs.append(o)
        cmds.append("%s -c %s -o %s" % (cmd, src, o))
    # the generated parser first: it takes longest
    for s in sorted(glob.glob(R + "/lib/antlr/gen/*.cpp"), key=lambda f: -os.path.getsize(f)) + sorted(glob.glob(R + "/lib/antlr/*.cpp")):
        add(s, "g++ -std=c++17 -O0 -w -include %s/shim/antlr_once.h -I/usr/include/antlr4-runtime %s -I%s/lib/antlr" % (V, inc, R))
    for s in sorted(glob.glob(R + "/util/*.c")): add(s, "gcc %s -I%s/util" % (fl, R))
    for s in sorted(glob.glob(R + "/lib/*.c")):
        add(s, "gcc %s %s '-DSCHEMA_DATADIR=\"%s/lib/schema/\"'" % (fl, inc, R))
    add(V + "/shim/csv.c", "gcc %s %s" % (fl, inc))
    if san: add(V + "/shim/newdel.cpp", "g++ -O2 -w")
    add(R + "/src/fql.c", "gcc %s %s -Dmain=fql_main" % (fl, inc))
    for d in ("fqlsrv", "fqlapi"): add(V + "/drivers/%s.c" % d, "gcc %s %s" % (fl, inc))
    if fault: add(V + "/drivers/fault.c", "gcc -g -O1 -w -std=gnu11")
    exe = os.path.join(out, "fqlsrv")
    C.run_all(cmds, "compiling /repo")
    WR = "".join(" -Wl,--wrap=" + w for w in WRAP) if fault else ""
    C.run_all(["g++ %s -rdynamic %s -o %s -lpcre2-8 -lantlr4-runtime -lreadline -pthread -lm" %
               (C.SAN if san else "", " ".join(objs) + WR, exe)], "linking /repo")
    if key:
        os.makedirs(cache, exist_ok=True)
        shutil.copy(exe, key + ".tmp%d" % os.getpid()); os.rename(key + ".tmp%d" % os.getpid(), key)
    _built[bk] = exe
    return exe

ENV = {"PATH": "/usr/bin:/bin", "HOME": "/nonexistent", "LC_ALL": "C",
       "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:max_allocation_size_mb=600:handle_segv=1:quarantine_size_mb=8",
       "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=99"}

class Res:
    __slots__ = ("rc", "sig", "out", "err")
    def __init__(s, rc, sig, out, err): s.rc, s.sig, s.out, s.err = rc, sig, out, err
    @property
    def crashed(s):
        return s.sig != 0 or s.rc == 99 or "ERROR: AddressSanitizer" in s.err or "runtime error:" in s.err
    def __repr__(s): return "rc=%s sig=%s out=%r err=%r" % (s.rc, s.sig, s.out[:300], C.brief(s.err)[:600])

class Server:
    def __init__(self, exe, env=None, preload=None):
        e = dict(ENV, **(env or {}))
        self.p = subprocess.Popen([exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=e, cwd="/")
        if self.p.stdout.readline().strip() != b"ready":
            raise C.CheckError("engine server does not start")
    def run(self, cwd, args, stdin=None, timeout=20):
        hx = lambda s: (s if isinstance(s, bytes) else s.encode("latin-1")).hex() or "00"
        line = "%d %s %s %s\n" % (timeout, hx(cwd), hx(stdin) if stdin else "-", " ".join(hx(a) for a in args))
        self.p.stdin.write(line.encode()); self.p.stdin.flush()
        l = self.p.stdout.readline().split()
        if len(l) < 4: raise C.CheckError("engine server ended")
        f = lambda b: bytes.fromhex(b[1:].decode()).decode("latin-1")
        return Res(int(l[0]), int(l[1]), f(l[2]), f(l[3]))
    def close(self):
        try: self.p.stdin.close(); self.p.wait(5)
        except Exception: self.p.kill()

class Pool:
    """pool of servers; each job gets a scratch folder of its own"""
    def __init__(self, exe=None, n=None, env=None):
        self.exe = exe or build_engine()
        self.n = n or C.NCPU
        self.env = env
        with ThreadPoolExecutor(self.n) as ex:
            self.srv = list(ex.map(lambda i: Server(self.exe, env), range(self.n)))
        os.chmod(C.work(), 0o755)
        self.dirs = []
        for i in range(self.n):
            d = tempfile.mkdtemp(prefix="run%d_" % i, dir=C.work())
            os.chmod(d, 0o777)
            self.dirs.append(d)
    def map(self, fn, items):
        """fn(server, scratch folder (empty), item)"""
        items = list(items)
        res = [None] * len(items)
        it = iter(range(len(items)))
        lock = threading.Lock()
        errs = []
        def loop(k):
            while not errs:
                with lock:
                    i = next(it, None)
                if i is None: return
                d = self.dirs[k]
                try:
                    res[i] = fn(self.srv[k], d, items[i])
                except Exception as e:
                    errs.append(e); return
                clean(d)
        ts = [threading.Thread(target=loop, args=(k,)) for k in range(self.n)]
        for t in ts: t.start()
        for t in ts: t.join()
        if errs: raise errs[0]
        return res
    def close(self):
        for s in self.srv: s.close()

def clean(d):
    assert d.startswith(C.work() + "/")
    for f in os.listdir(d):
        p = os.path.join(d, f)
        if os.path.isdir(p) and not os.path.islink(p): shutil.rmtree(p)
        else: os.unlink(p)

def put(d, name, text):
    p = os.path.join(d, name)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "wb") as f: f.write(text if isinstance(text, bytes) else text.encode("latin-1"))
    os.chmod(p, 0o666)

def get(d, name):
    p = os.path.join(d, name)
    if not os.path.exists(p): return None
    with open(p, "rb") as f: return f.read().decode("latin-1")
