"""Checks of sequential components: TLC explores the specification, every
explored behaviour is replayed on the real code."""
from .core import *

def gen(module, runs, label=""):
    """runs: list of dicts (consts, invs, simulate, depth, seed, ...) executed in parallel.
    Returns (histories, states, distinct)."""
    def one(ix):
        i, r = ix
        r = dict(r)
        out = os.path.join(work(), "out_%s_%s%d.txt" % (module, label, i))
        c = dict(r.pop("consts")); c["Out"] = tla_str(out)
        res = tlc(module, c, **r)
        if res["rc"] != 0:
            raise CheckError("TLC on %s failed (the specification itself): %s" % (module, res["out"][-2500:]))
        hs = read_out(out)
        if not hs: raise CheckError("no behaviours generated by " + module + res["out"][-1500:])
        return hs, res["states"], res["distinct"]
    hs, st, di = [], 0, 0
    with ThreadPoolExecutor(NCPU) as ex:
        for h, s, d in ex.map(one, list(enumerate(runs))):
            hs += h; st += s; di += d
    return hs, st, di

def show(b):
    h, j, exp, got, err = b
    return {"history": [op_line(e) for e in h[:j + 1]], "failing_step": op_line(h[j]),
            "expected": exp, "observed": got, "stderr": err}

def adt_check(pid, module, driver, runs, argvs=((),), dedupe=True, keyfn=None, samples=3, exe=None):
    v = Verdict(pid, "model_checking")
    if exe is None:
        cfl, objs = build_util()
        exe = build_driver(driver, cfl, objs)
    hs, st, di = gen(module, runs)
    n0 = len(hs)
    if dedupe:
        seen, u = set(), []
        for h in hs:
            k = json.dumps([e[:-1] for e in h])
            if k not in seen: seen.add(k); u.append(h)
        hs = u
    total = 0
    for av in argvs:
        bad = replay(exe, hs, av)
        total += len(hs)
        for b in bad:
            key = keyfn(b) if keyfn else None
            v.report("%s: step '%s' expected %s observed %s" % (module, op_line(b[0][b[1]])[:120], str(b[2])[:160], str(b[3])[:160]),
                     show(b), key)
    ops = {}
    for h in hs:
        for e in h: ops[e[0]] = ops.get(e[0], 0) + 1
    v.cov = {"states": st, "transitions": sum(len(h) for h in hs), "distinct_states": di,
             "traces_validated_against_impl": total, "behaviours_generated": n0,
             "operations_replayed": ops,
             "samples": [[op_line(e) for e in h] for h in hs[:: max(1, len(hs) // samples)][:samples]]}
    return v
