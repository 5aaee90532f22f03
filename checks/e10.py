"""E10: scripts of specs/Crash.tla replayed with a crash, a signal or a failing call at
every file-system call of the engine (drivers/fault.c): the files afterwards are those
of one of the specification's states."""
import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import re, signal
from vf.adt import *
from vf import engine as E
from vf.sqlrun import lst
LONG = "abcdefghijklmnopqrstuvwxyz" * 3
SQL = {"upd": "update t set n = n + 1", "updif": "update t set a = 'w' where n > %d", "updlong": "update t set a = '" + LONG + "' where n > %d",
       "updin": "update t set a = 'w' where a in (select k from u)", "updjoin": "update x set a = 'q' from t x join u y on x.a = y.k",
       "del": "delete from t where n > %d", "deljoin": "delete x from t x join u y on x.a = y.k", "updu": "update u set v = v + 1",
       "into": "select a, n into [o.csv] from t", "intoord": "select a, n into [o.csv] from t order by n desc",
       "intogrp": "select a, count(*) as n into [o.csv] from t group by a order by a", "intouni": "select a, n into [o.csv] from t union all select k, v from u",
       "intosub": "select x.a, x.n into [o.csv] from (select a, n from t where n > %d) x", "intojoin": "select x.a, y.v as n into [o.csv] from t x join u y on x.a = y.k",
       "intosubj": "select x.a, y.v as n into [o.csv] from t x join (select k, v from u) y on x.a = y.k", "updsubj": "update x set a = 'q' from t x join (select k from u) y on x.a = y.k",
       "intosj": "select x.a, y.n into [o.csv] from t x join __stdin y on x.a = y.a", "printord": "select a from t order by n desc",
       "intoin": "select a, n into [o.csv] from __stdin", "print": "select a from t"}
FN = ("t.csv", "u.csv", "o.csv")
SIG = {"I": signal.SIGINT, "T": signal.SIGTERM, "H": signal.SIGHUP, "Q": signal.SIGQUIT}
WHAT = {"K": "death before file-system call %d", "I": "SIGINT before file-system call %d", "T": "SIGTERM before file-system call %d", "H": "SIGHUP before file-system call %d",
        "Q": "SIGQUIT before file-system call %d", "E": "failure of file-system call %d", "L": "no file can grow over %d bytes"}

def one(s): return SQL[s[0]] % s[1] if "%d" in SQL[s[0]] else SQL[s[0]]
def script(h):
    q = "; ".join(one(lst(s)) for s in lst(h[0]))
    return "declare @i int = 0; while @i < 2 begin set @i = @i + 1; %s; end" % q if h[1] else q
def text(f):
    f = lst(f)
    return None if not f else f[0] + "\n" + "".join("%s,%d\n" % (a, n) for a, n in map(lst, lst(f[1])))

def setup(d, st):
    E.clean(d)
    for n, x in zip(FN, st):
        if x is not None: E.put(d, n, x)
    E.put(d, "in", "a,n\nx,4\nj,5\n")
def look(d):
    return [E.get(d, n) for n in FN], sorted(set(os.listdir(d)) - set(FN) - {"in"})

def judge(states, mode, r, now, extra):
    """None or what is wrong"""
    fits = []
    for j, s in enumerate(states):
        if now[0] == s[0] and now[1] == s[1] and (now[2] == s[2] or s[2] is None and now[2] == ""): fits.append(j)
    if not fits: return "the files are none of the specification's states: %r" % (now,)
    if r.crashed and not (mode == "K" and r.sig == 9 and "ERROR: " not in r.err): return "the process ended abnormally: " + repr(r)[:1500]
    if mode == "C" or mode in "EL" and r.rc == 0:
        if len(states) - 1 not in fits or now[2] != states[-1][2]: return "success is reported (rc 0), but the files are not the final ones: %r" % (now,)
    if mode == "C" and r.rc: return "the run fails without any fault: " + repr(r)[:600]
    if mode in "C" + "".join(SIG) and extra: return "files left behind: %s" % extra
    return None

def run(srv, d, it):
    h, picks = it
    states = [[text(f) for f in lst(s)] for s in lst(h[2])]
    args = ["fql", "-o", "-q", "-c", script(h)]
    setup(d, states[0])
    r = srv.run(d, args + ["ENV:FAULT=C0"], os.path.join(d, "in"))
    m = re.search(r"#points=(\d+)", r.err)
    now, extra = look(d)
    bad = judge(states, "C", r, now, extra)
    if bad or not m: return "", bad or "no count: %r" % r, 1, 0
    n, runs = int(m.group(1)), 1
    for mode, k in picks(n, states):
        setup(d, states[0])
        r = srv.run(d, args + ["ENV:FAULT=%s%d" % (mode, k)], os.path.join(d, "in"))
        runs += 1
        now, extra = look(d)
        bad = judge(states, mode, r, now, extra)
        if bad: return WHAT[mode] % k, bad, runs, n
    return "", None, runs, n

def picks(i, part):
    """which points of script number i: a share of all (mode, call) pairs"""
    def f(n, states):
        big = max(len(x or "") for s in states for x in s) + 200
        al = [(m, k) for m in "KITHQE" for k in range(1, n + 1)] + [("L", k) for k in range(0, big, 3)]
        w = {"K": 1, "E": 1, "L": 1, "I": .5, "T": .25, "H": .25, "Q": .25}
        out = []
        x = (SEED * 7919 + i * 104729) & 0x7fffffff
        for m, k in al:
            x = (x * 1103515245 + 12345) & 0x7fffffff
            if x / 0x7fffffff < part * w[m]: out.append((m, k))
        return out
    return f

def check():
    v = Verdict("E10", "model_checking")
    exe = E.build_engine(fault=True)
    N, part = (1200, .5) if THOROUGH else (240, .06)
    lo, st = 1 + SEED * 5000 % 200000, N // 6
    hist, states, distinct = gen("Crash", [dict(consts=dict(D=0, Lite="FALSE", Lo=a, Hi=a + st - 1), invs=["OldOrNew", "Clean", "Reported"]) for a in range(lo, lo + N, st)])
    pool = E.Pool(exe)
    hs = [lst(h) for h in hist]
    res = pool.map(run, [(h, picks(i, part)) for i, h in enumerate(hs)])
    pool.close()
    seen = {}
    runs = 0
    for h, (where, bad, k, n) in zip(hs, res):
        runs += k
        for s in lst(h[0]): seen[lst(s)[0]] = seen.get(lst(s)[0], 0) + 1
        if bad:
            v.report("%s: %s: %s" % (script(h), where or "no fault", bad.split("\n")[0][:300]), dict(script=script(h), fault=where, files=[text(f) for f in lst(lst(h[2])[0])], problem=bad, states=[[text(f) for f in lst(s)] for s in lst(h[2])]))
    v.cov.update(states=distinct, transitions=states, traces_validated_against_impl=runs, samples=[script(h) for h in hs[:4]], statements=seen,
                 bounds="%d scripts of one to three statements, %d runs, each with one fault" % (len(hs), runs))
    v.assume += ["faults are placed immediately before the file-system calls the engine makes (fopen, mkstemp, write, close, rename, remove, mmap, ...); the machine itself does not crash, so what was written is what is read",
                 "libcsv is the stand-in of /verif/shim"]
    return v
if __name__ == "__main__":
    main(lambda: check().finish())
