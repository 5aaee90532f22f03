"""U06: TLC explores specs/MMap.tla; every behaviour is replayed on multimap and compositemap."""
import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf.adt import *
from checks.u05 import bs
def one(tag, keys, tuples, runs):
    cfl, objs = build_util()
    exe = build_driver("mmap", cfl, objs)
    ks = [bs(k) for k in keys]; ts = [[bs(x) for x in t] for t in tuples]
    ext = os.path.join(work(), "MMapMC%s.tla" % tag)
    open(ext, "w").write("---- MODULE MMapMC%s ----\nEXTENDS MMap\nKeysV == %s\nTuplesV == %s\n====\n" % (tag, tla_val(ks), tla_val(ts)))
    df = os.path.join(work(), "mdom%s.txt" % tag)
    open(df, "w").write("%d %d\n" % (len(ks), len(ts)) + "".join(arg(k) + "\n" for k in ks + ts))
    for r in runs:
        r["consts"].update(Keys=Sub("KeysV"), Tuples=Sub("TuplesV")); r["extra_modules"] = [ext]; r["invs"] = ["Inv"]
    return adt_check("U06", "MMapMC" + tag, "mmap", runs, argvs=((df,),), exe=exe)
def check():
    base = dict(Modes="{0, 1, 2, 3}", Limits="{1, 2, 16}", MaxBulk=40, Chunks="{1, 5, 24}", Lite="FALSE")
    v = one("S", ["", "a", "A "], [[], ["a"], ["a", ""], ["", "A"], ["A ", " "]],
            [dict(consts=dict(base, Modes="{%d}" % m, Limits="{1}", MaxBulk=20, Chunks="{21}", D=6 if THOROUGH else 5)) for m in range(4)])
    keys = ["", " ", "a", "A", "a ", "A  ", " a", "ab", "aB ", "b", "0123456789012345678901234567890123456789", "0123456789012345678901234567890123456789 ", "\xc3", "\xe3"]
    tup = [[], [""], [" "], ["a"], ["A"], ["a "], ["a", "b"], ["A", "B"], ["a ", "b"], ["ab", ""], ["", "ab"], ["a", "b "], ["b", "a"], ["a", "b", "c"], ["a", "bc"], ["ab", "c"],
           ["a", " b"], ["abc"], ["a", "a"], ["a", "a", "a"], ["", ""], ["", "", ""], [" ", ""], ["x" * 70, "y" * 70], ["X" * 70, "y" * 70 + " "], ["a b", "c"], ["a", "b c"]]
    n, k = (16, 2000) if THOROUGH else (4, 120)
    w = one("B", keys, tup, [dict(consts=dict(base, D=32, Lite="TRUE"), simulate=k, depth=40, seed=SEED * 1000 + i) for i in range(n)])
    for x in ("states", "transitions", "distinct_states", "traces_validated_against_impl", "behaviours_generated"): v.cov[x] += w.cov[x]
    v.cov["samples"] += w.cov["samples"]
    v.cov["operations_replayed_random"] = w.cov["operations_replayed"]
    v.viol += w.viol
    return v
if __name__ == "__main__":
    main(lambda: check().finish())
