"""Checks of the query semantics: TLC evaluates specs/SqlGen.tla (a database
and a query for each seed, with the laws of the property as invariants), and
every query is run by the real engine, whose result is compared with the one
of the specification."""
import os, json, collections
from concurrent.futures import ThreadPoolExecutor
from .core import *
from . import core as C, sqlrun as S, engine as E

MAXROWS = 2500
def nrows(o): return sum(len(S.lst(b)) for b in S.lst(o["rows"]))

def generate(tasks, invs=("Inv",)):
    """tasks: (profile, first seed, last seed, big).  -> histories, TLC states"""
    def one(t):
        prof, lo, hi, big = t
        o = os.path.join(work(), "sql_%s_%d_%d.txt" % (prof, lo, big))
        r = tlc("SqlGen", dict(Prof=tla_str(prof), Lo=lo, Hi=hi, D=0, Big=big, Lite="TRUE", Out=tla_str(o)), invs=list(invs))
        if r["rc"]:
            k = r["out"].find("Error:")
            raise CheckError("TLC rejects the specification (%s %d..%d): %s" % (prof, lo, hi, r["out"][k:k + 1200]))
        h = read_out(o)
        os.unlink(o)
        return h, r["distinct"], r["states"]
    with ThreadPoolExecutor(NCPU) as ex: return list(ex.map(one, tasks))

def split(groups, per=100):
    """groups: (profile, number of seeds, big, args...)"""
    base = 1 + (SEED % 20) * 12000
    ts = []
    for g in groups:
        prof, n, big = g[:3]
        off = base + (6000 if big else 0)
        step = per if not big else 16
        for a in range(off, off + n, step):
            ts.append((g, (prof, a, min(a + step, off + n) - 1, big)))
    ts.sort(key=lambda t: -t[1][3])  # the slow ones first
    return ts

def detail(c, what, args):
    return {"query": c.sql, "arguments": list(args), "seed": c.seed,
            "files": {n: t for n, t in c.files.items() if n[:-4] in c.sql}, "disagreement": what}

def run_groups(v, groups, judge=S.judge, invs=("Inv",), sel=None, confirm=2):
    """groups: (profile, seeds, big, [argument lists, used in turn])"""
    with ThreadPoolExecutor(1) as ex:
        eng = ex.submit(E.build_engine)
        ts = split(groups)
        hs = generate([t for _, t in ts], invs)
        exe = eng.result()
    pool = E.Pool(exe)
    work_ = []
    cnt = collections.Counter(); states = trans = 0; kinds = collections.Counter(); rows = 0
    for (g, _), (h, st, tr) in zip(ts, hs):
        states += st; trans += tr
        argl = g[3] if len(g) > 3 else [[]]
        for x in h:
            cnt["queries specified"] += 1
            if x[4]["st"] == "u": cnt["not claimed"] += 1; continue
            if x[4]["st"] != "e" and nrows(x[4]) > MAXROWS: cnt["too large"] += 1; continue
            c = S.Case(x)
            if sel and not sel(c): continue
            a = S.flavour(c.seed) + argl[c.seed % len(argl)]
            kinds["fails" if x[4]["st"] == "e" else "rows"] += 1
            rows += nrows(x[4]) if x[4]["st"] != "e" else 0
            work_.append((c, a))
    def f(srv, d, ca):
        c, a = ca
        for n, t in c.files.items(): E.put(d, n, t)
        return judge(c, srv.run(d, ["fql", "-q"] + list(a) + ["-c", c.sql], timeout=30))
    res = pool.map(f, work_)
    bad = [(ca, r) for ca, r in zip(work_, res) if r]
    for ca, r in bad[:40]:
        # once more, alone
        again = None
        for _ in range(confirm):
            again = pool.map(f, [ca])[0]
            if again: break
        if again:
            v.report("query disagrees with the specification: " + ca[0].sql[:160], detail(ca[0], again, ca[1]), key="sql:%s:%d" % (ca[0].sql, ca[0].seed))
        else:
            cnt["not reproduced"] += 1
    cnt["traces_validated_against_impl"] = len(work_)
    v.cov["states"] = v.cov.get("states", 0) + states
    v.cov["transitions"] = v.cov.get("transitions", 0) + trans
    for k, n in cnt.items(): v.cov[k] = v.cov.get(k, 0) + n
    v.cov["expected to fail"] = v.cov.get("expected to fail", 0) + kinds["fails"]
    v.cov["rows compared"] = v.cov.get("rows compared", 0) + rows
    v.cov["samples"] = (v.cov.get("samples", []) + [c.sql for c, _ in work_[:: max(1, len(work_) // 8)]])[:12]
    pool.close()
    return v

P2 = [[], ["-P", "2"], [], ["-P", "3"]]
def sql_check(pid, quick, thorough, **kw):
    v = Verdict(pid, "model_checking")
    groups = thorough if THOROUGH else quick
    run_groups(v, groups, **kw)
    v.cov["bounds"] = "; ".join("%s: %d seeds%s" % (g[0], g[1], ", tables of %d+ rows" % g[2] if g[2] else "") for g in groups)
    v.assume += ["the csv library is the one of /verif/shim (the original is not part of the repository)",
                 "what the specification does not define (status u) is not compared"]
    return v
