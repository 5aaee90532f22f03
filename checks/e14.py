"""E14: execution options (threads, buffer sizes, the kind of join, standard
input) do not change what the specification says about a query"""
import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf.sqlcheck import *
from vf import sqlprog as P
from vf.core import *

def walk(q):
    """every query inside q, q first"""
    yield q
    def go(x):
        if isinstance(x, dict):
            if "sel" in x and "from" in x: yield from walk(x); return
            x = list(x.values())
        if isinstance(x, list):
            for y in x: yield from go(y)
    for k, x in q.items(): yield from go(x)

def tables(q): return [f[1][1] for x in walk(q) for f in S.lst(x["from"]) if f[1][0] == "t"]

def modes(c):
    """name -> (arguments, table read from standard input or None, threads)"""
    q = c.q
    r = [("threads", ["-t"], None), ("threads, small", ["-t", "-P", "2"], None), ("small", ["-P", "2"], None), ("large", ["-P", "1000"], None)]
    fr = [f for x in walk(q) for f in S.lst(x["from"])]
    if any(f[0] == "join" for f in fr) and all(f[0] != "left" and f[1][0] == "t" for f in fr):
        r += [("cartesian", ["-C"], None), ("cartesian, small", ["-C", "-P", "2"], None), ("cartesian, threads", ["-C", "-t"], None)]
    ts = tables(q)
    # the rows of standard input come once: in FROM itself, not in a subquery
    own = [f[1][1] for f in S.lst(q["from"]) if f[1][0] == "t"]
    one = [t for t in own if ts.count(t) == 1]
    if one:
        t = one[c.seed % len(one)]
        r += [("stdin", [], t), ("stdin, small", ["-P", "2"], t), ("stdin, threads", ["-t"], t)]
    return r

def loose_top(q): return any(x["top"] >= 0 for x in walk(q))

def run(srv, d, job):
    c, (name, args, t) = job
    names = ["t%d" % (i + 1) for i in range(len(c.tabs))]
    sql, stdin = c.sql, None
    if t:
        E.put(d, ".input", c.files["t%d.csv" % t])
        stdin = os.path.join(d, ".input")
        names[t - 1] = "__stdin"
        sql = (S.dectext(c.vars) if S.usesvar(c.q) else "") + S.Ren(c.tabs, c.vars, c.seed, names=names).query(c.q)
    for n, x in c.files.items():
        if not t or n != "t%d.csv" % t: E.put(d, n, x)
    r = srv.run(d, ["fql", "-q"] + S.flavour(c.seed) + args + ["-c", sql], stdin, timeout=40)
    bad = judge(c, r, "-t" in args)
    return bad and "%s (%s): %s" % (name, sql if t else " ".join(args), bad)

def judge(c, r, threads):
    if r.sig == 14: return "does not end: %s" % C.brief(r.err)[:300]
    # TOP 0 may end the run before or after SELECT has met a row it fails for
    if threads and c.q["top"] == 0 and r.rc == 1 and not r.crashed and not r.sig: return None
    if not threads or c.o["st"] == "e" or r.crashed or r.rc != 0: return S.judge(c, r)
    # with threads only ORDER BY fixes the order
    hdr, bl = S.expected(c.o)
    got = S.parse(r.out)
    if got[:1] != [hdr]: return "header: expected %r got %r" % (hdr, got[:1])
    if not S.lst(c.q["order"]): bl = [[x for b in bl for x in b]]
    if loose_top(c.q):
        if any(x["top"] >= 0 for x in list(walk(c.q))[1:]) or S.lst(c.q["union"]): return None
        if not S.lst(c.q["order"]):
            n = sum(map(len, bl))
            return None if len(got) - 1 == n else "rows: expected %d of them got %r" % (n, got[1:])
    return None if S.matches(got[1:], bl) else "rows: expected %r got %r" % (bl, got[1:])

# profile, seeds, big, modes for each case
QUICK = [("mix", 500, 0, 3), ("join", 300, 0, 3), ("distinct", 150, 0, 2), ("union", 200, 0, 2), ("subq", 150, 0, 2),
         ("where", 32, 40, 4), ("group", 32, 40, 4), ("order", 32, 40, 4), ("join", 64, 10, 4)]
THOROUGH_ = [("mix", 3000, 0, 9), ("join", 2000, 0, 9), ("distinct", 1000, 0, 6), ("union", 1500, 0, 6), ("subq", 1500, 0, 6), ("null", 800, 0, 6),
             ("where", 300, 40, 9), ("group", 300, 40, 9), ("order", 300, 40, 9), ("distinct", 200, 40, 6), ("expr", 300, 40, 6), ("join", 300, 12, 9)]
SCRIPTS = [("flow", 200), ("files", 200)]
SCRIPTS_T = [("flow", 1500), ("files", 1500)]

def check():
    v = Verdict("E14", "model_checking")
    groups = THOROUGH_ if THOROUGH else QUICK
    scripts = SCRIPTS_T if THOROUGH else SCRIPTS
    base = 1 + (SEED % 20) * 12000 + 3000
    with ThreadPoolExecutor(1) as ex:
        eng = ex.submit(E.build_engine)
        ts = sorted([(g, (g[0], a, min(a + st, off + g[1]) - 1, g[2])) for g in groups for off, st in [(base + (3000 if g[2] else 0), 16 if g[2] else 100)]
                     for a in range(off, off + g[1], st)], key=lambda t: -t[1][3])
        hs = generate([t for _, t in ts])
        ps = P.generate([(p, a, min(a + 99, base + n - 1)) for p, n in scripts for a in range(base, base + n, 100)])
        exe = eng.result()
    cnt = collections.Counter(); per = collections.Counter(); states = trans = 0; jobs = []; nr = []
    for (g, _), (h, st, tr) in zip(ts, hs):
        states += st; trans += tr
        for x in h:
            if x[4]["st"] == "u": cnt["not claimed"] += 1; continue
            if x[4]["st"] != "e" and nrows(x[4]) > MAXROWS: cnt["too large"] += 1; continue
            c = S.Case(x); ms = modes(c)
            k = min(g[3], len(ms)); st_ = c.seed * 5
            for i in range(k): jobs.append((c, ms[(st_ + i * max(1, len(ms) // k)) % len(ms)]))
    pool = E.Pool(exe)
    res = pool.map(run, jobs)
    for j, r in [z for z in zip(jobs, res) if z[1]][:40]:
        # a thread schedule may need several tries to show the same again
        again = None
        for _ in range(6 if "-t" in j[1][1] else 2):
            again = pool.map(run, [j] * 8)
            again = next((a for a in again if a), None)
            if again: break
        c = j[0]
        if again: v.report("query disagrees with the specification: " + c.sql[:160], detail(c, again, j[1][1]), key="opt:%s:%d" % (j[1][0], c.seed))
        else: cnt["not reproduced"] += 1; nr.append([c.seed, c.sql, j[1][0], r[:700]])
    for c, m in jobs: per[m[0]] += 1
    todo = []
    for h, ds, st in ps:
        states += ds; trans += st
        for x in h:
            if x[4]["st"] == "u": cnt["not claimed"] += 1; continue
            c = P.Prog(x)
            todo.append((c, [["-t"], ["-t", "-P", "2"], ["-P", "1000"]][c.seed % 3]))
    f = lambda srv, d, ca: P.run_prog(srv, d, ca[0], ca[1])
    res = pool.map(f, todo)
    for ca, r in [z for z in zip(todo, res) if z[1]][:40]:
        again = None
        for _ in range(6):
            again = next((a for a in pool.map(f, [ca] * 4) if a), None)
            if again: break
        c = ca[0]
        if again: v.report("script disagrees with the specification: " + c.sql[:200].replace("\n", " "), {"script": c.sql, "arguments": c.args + list(ca[1]), "seed": c.seed, "files": c.files, "disagreement": again}, key="optprog:%d" % c.seed)
        else: cnt["not reproduced"] += 1; nr.append([c.seed, c.sql, ca[1], r[:700]])
    pool.close()
    per["scripts"] = len(todo)
    v.cov.update(cnt)
    if nr: v.cov["not reproduced cases"] = nr
    v.cov.update(states=states, transitions=trans, traces_validated_against_impl=len(jobs) + len(todo), modes=dict(per),
                 samples=[j[1][0] + ": " + j[0].sql for j in jobs[:: max(1, len(jobs) // 10)]][:10],
                 bounds="; ".join("%s: %d seeds%s, %d modes each" % (g[0], g[1], ", tables of %d+ rows" % g[2] if g[2] else "", g[3]) for g in groups))
    v.assume += ["the csv library is the one of /verif/shim (the original is not part of the repository)",
                 "with threads the schedules are those of the operating system: a race that it does not take is not seen (U08 explores the schedules of the queue itself)",
                 "with threads, which rows a TOP without ORDER BY takes is not compared, only how many"]
    return v
if __name__ == "__main__": main(lambda: check().finish())
