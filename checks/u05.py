import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf.adt import *
def bs(x): return list(x.encode("latin1"))
def run(pid, small, big, maxbulk, module="HMap", driver="hmap"):
    cfl, objs = build_util()
    exe = build_driver(driver, cfl, objs)
    v = None
    bulk = [bs(("N" if i % 3 == 0 else "n") + "%02d " % i) for i in range(maxbulk + 1)]
    for keys, tag, runs in ((small, "S", "ex"), (big, "B", "sim")):
        ext = os.path.join(work(), "HMapMC%s.tla" % tag)
        open(ext, "w").write("---- MODULE HMapMC%s ----\nEXTENDS HMap\nKeysV == %s\n====\n" % (tag, tla_val([bs(k) for k in keys])))
        df = os.path.join(work(), "dom%s.txt" % tag)
        open(df, "w").write("%d\n" % len(keys) + "".join(arg(k) + "\n" for k in [bs(k) for k in keys] + bulk))
        base = dict(Keys=Sub("KeysV"), Limits=tla_val({0, 1, 2, 16}), Modes=tla_val({0, 1, 2, 3}), MaxBulk=maxbulk, Chunks="{1, 3, 17}", Lite="FALSE")
        if runs == "ex":
            base["Limits"] = "{1, 4}"
            base["Chunks"] = "{20}"
            rs = [dict(consts=dict(base, D=6 if THOROUGH else 4, Modes=tla_val({md})), invs=["Inv"], workers=2, extra_modules=[ext]) for md in range(4)]
        else:
            n, k = (4, 150) if not THOROUGH else (16, 2500)
            rs = [dict(consts=dict(base, D=30, Lite="TRUE"), invs=["Inv"], simulate=k, depth=40, seed=SEED * 1000 + i, extra_modules=[ext]) for i in range(n)]
        w = adt_check(pid, "HMapMC" + tag, driver, rs, argvs=((df,),), exe=exe)
        if v is None: v = w
        else:
            for x in ("states", "transitions", "distinct_states", "traces_validated_against_impl", "behaviours_generated"): v.cov[x] += w.cov[x]
            v.cov["samples"] += w.cov["samples"]
            v.cov["operations_replayed_random"] = w.cov["operations_replayed"]
            v.viol += w.viol
    return v
def check():
    small = ["", " ", "a", "A ", "a  b", "ab"]
    big = ["", " ", "   ", "a", "A", "a ", "A  ", " a", "a b", "A B", "ab", "aB", "AB ", "b", "\xc3", "\xe3", "\xc3 ", "abcdefghijklmnopqrstuvwxyz0123456789", "abcdefghijklmnopqrstuvwxyz012345678", "\t", "a\t", "[", "{", "@", "`", "Z", "z"]
    return run("U05", small, big, 40)
if __name__ == "__main__":
    main(lambda: check().finish())
