"""E11: the directory and the names of specs/Resolve.tla; every name is used in a
statement run by the engine, which must read or change exactly the file the
specification chooses, or fail and touch nothing."""
import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import random
from vf.adt import *
from vf import engine as E
s2c = lambda t: [ord(c) for c in t]
c2s = lambda q: "".join(map(chr, q))
POOL = "t T t.csv T.csv t.CSV t.txt t.a.csv t.a T.A .t .t.csv t. u Ta.b".split()
NAMES = "t T t.csv T.CSV t.a t.A T.a.csv .t .T t. u U.x ta a t.a.csv.gz t.t csv".split()
POOL2 = POOL + "u.csv U u.b t.a.b t.A.b T.a.B .t.a .T.csv [t] t-1 t-1.x T-1 tt tt.csv".split()
NAMES2 = NAMES + "u.b T.A.B t.a.b .t.A t-1 T-1.X tt TT".split()
DIRS = ["", "", "", "sub/", "./", "s.d/", "sub/../", "no such directory/"]
POS = ["from", "from", "update", "delete", "join", "left", "derived", "in", "again"]

def esc(n): return "[" + n.replace("]", "]]") + "]"

def run(srv, d, c):
    dr, (name, strict, want), seed = c
    rnd = random.Random(seed)
    dr = [c2s(x) for x in (dr or [])]
    rnd.shuffle(dr)
    pre, pos = rnd.choice(DIRS), rnd.choice(POS)
    if pre[:2] == "no":
        if rnd.random() < .8: pre = ""
        else: dr, want = [], ["none"]
    for x in ("sub", "s.d"): os.mkdir(d + "/" + x); os.chmod(d + "/" + x, 0o777)
    here = os.path.normpath(os.path.join(d, pre)) + "/"
    # a decoy of the same name elsewhere must not be taken
    deco = os.path.join(d, "sub/" if not pre.startswith("sub/") or ".." in pre else "")
    if pre and rnd.random() < .2: pre = here
    for f in dr: E.put(here, f, "k,n\nin %s,1\nmore,2\n" % f)
    if rnd.random() < .5: E.put(deco, c2s(name), "k,n\ndecoy,1\nmore,2\n")
    E.put(d, "left table", "k,n\nL,1\n")
    ref = pre + c2s(name)
    ref = ref if pre == "" and ref.isalpha() and rnd.random() < .7 else esc(ref)
    q = {"from": "select k from %s where n = '1'", "join": "select y.k from [left table] x join %s y on x.n = y.n",
         "left": "select y.k from [left table] x left join %s y on x.n = y.n", "derived": "select k from (select k, n from %s) x where n = '1'",
         "in": "select k from [left table] where n in (select n from %s)", "again": "select x.k from %s x join %s y on x.k = y.k where x.n = '1'",
         "update": "update %s set k = 'changed' where n = '2'", "delete": "delete from %s where n = '1'"}[pos]
    q = q.replace("%s", ref)
    snap = lambda: {os.path.relpath(os.path.join(p, f), d): E.get(p, f) for p, _, fs in os.walk(d) for f in fs}
    before = snap()
    r = srv.run(d, ["fql", "-q"] + (["--strict"] if strict else []) + ["-c", q])
    after = snap()
    exp, out = dict(before), "k\n"
    ok = want[0] == "file"
    if ok:
        f = c2s(want[1]); key = os.path.relpath(here + f, d)
        if pos == "update": exp[key] = "k,n\nin %s,1\nchanged,2\n" % f
        if pos == "delete": exp[key] = "k,n\nmore,2\n"
        out = {"update": "", "delete": "", "in": "k\nL\n"}.get(pos, "k\nin %s\n" % f)
    bad = None
    if r.crashed: bad = "the process ended abnormally: " + repr(r)
    elif ok and (r.rc or r.out != out): bad = "expected %r, got rc=%d %r %s" % (out, r.rc, r.out, r.err[:200])
    elif not ok and (r.rc == 0 or r.out): bad = "expected an error (%s), got rc=%d %r" % (want[0], r.rc, r.out)
    elif after != exp: bad = "files: expected %r got %r" % ({k: v for k, v in exp.items() if after.get(k) != v}, {k: v for k, v in after.items() if exp.get(k) != v})
    return bad and {"directory": dr, "in": pre, "name": c2s(name), "strict": strict, "query": q, "chosen by the specification": ok and c2s(want[1]) or want[0], "disagreement": bad}

def check():
    v = Verdict("E11", "model_checking")
    ext = os.path.join(work(), "ResolveMC.tla")
    mc = lambda p, n: "---- MODULE ResolveMC ----\nEXTENDS Resolve\nP1 == %s\nN1 == %s\n====\n" % (tla_val(set(map(tuple, map(s2c, p)))), tla_val(set(map(tuple, map(s2c, n)))))
    ext2 = os.path.join(work(), "b", "ResolveMC.tla"); os.mkdir(os.path.dirname(ext2))
    open(ext, "w").write(mc(POOL, NAMES)); open(ext2, "w").write(mc(POOL2, NAMES2))
    c = dict(Pool=Sub("P1"), Names=Sub("N1"))
    runs = [dict(consts=dict(c, D=1, Lite="FALSE", MinF=0, MaxF=3 if THOROUGH else 2), extra_modules=[ext], invs=["Inv"], workers=4)]
    for i, m in enumerate([3, 4, 6, 9]):
        runs.append(dict(consts=dict(c, D=1, Lite="TRUE", MinF=m, MaxF=m), extra_modules=[ext2], invs=["Inv"], simulate=6000 if THOROUGH else 900, depth=40, seed=SEED * 1000 + i))
    with ThreadPoolExecutor(1) as ex:
        eng = ex.submit(E.build_engine)
        hs, st, di = gen("ResolveMC", runs)
        exe = eng.result()
    seen, cs = set(), []
    for d, l in hs:
        for x in l:
            k = json.dumps([d, x])
            if k not in seen: seen.add(k); cs.append((d, x, len(cs) + SEED * 100000))
    pool = E.Pool(exe)
    res = pool.map(run, cs)
    bad = [(c, r) for c, r in zip(cs, res) if r]
    for c, r in bad[:30]:
        if pool.map(run, [c])[0]: v.report("the name %r denotes another file than the specification says: %s" % (r["name"], r["query"][:150]), r, key="name:%s:%s:%s" % (r["name"], sorted(r["directory"]), r["strict"]))
    pool.close()
    v.cov.update(states=di, transitions=st, traces_validated_against_impl=len(cs),
                 outcomes={k: sum(1 for c in cs if c[1][2][0] == k) for k in ("file", "none", "several")},
                 samples=[{"directory": [c2s(x) for x in (c[0] or [])], "name": c2s(c[1][0]), "strict": c[1][1], "expected": [c[1][2][0]] + [c2s(x) for x in c[1][2][1:]]} for c in cs[::max(1, len(cs) // 8)]],
                 bounds="all directories of up to %d of %d file names, all of %d names, strict or not; random directories of 3, 4, 6, 9 files of %d names" % (3 if THOROUGH else 2, len(POOL), len(NAMES), len(POOL2)))
    v.assume += ["names are ASCII; a directory that is itself called like the table is left open", "the csv library is the one of /verif/shim"]
    return v

if __name__ == "__main__":
    main(lambda: check().finish())
