import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf.adt import *
def bs(x): return list(x.encode())
def check():
    bb = dict(MaxLen=130, Runs="{7, 31, 33}", Sizes="{0, 1, 5, 32, 33, 40, 63, 64, 97}", Lite="FALSE")
    bl = dict(bb, Lite="TRUE", Runs=tla_val(set(range(2, 41))), Sizes=tla_val(set(range(131))))
    runs = [dict(consts=dict(bb, D=5 if THOROUGH else 4), workers=2)]
    n, k = (2, 500) if not THOROUGH else (8, 6000)
    runs += [dict(consts=dict(bl, D=30), simulate=k, depth=40, seed=SEED * 1000 + i) for i in range(n)]
    cfl, objs = build_util()
    v = adt_check("U04", "Bits", "bits", runs, exe=build_driver("bits", cfl, objs))
    ints = [0, 7, -1, 10, 99, -100, 123456789, 2**63 - 1, -2**63]
    fl = ["0", "1.5", "-2.25", "1000000", "0.125", "-0.5"]
    ext = os.path.join(work(), "FlexMC.tla")
    open(ext, "w").write("---- MODULE FlexMC ----\nEXTENDS Flex\nIntsV == {%s}\nFloatsV == {%s}\n====\n" % (
        ", ".join('<<"%d", %s>>' % (i, tla_val(bs(str(i)))) for i in ints),
        ", ".join('<<"%s", %s>>' % (f, tla_val(bs("%f" % float(f)))) for f in fl)))
    fb = dict(MaxLen=10, ElemLens="{0, 1, 3}", Ints=Sub("IntsV"), Floats=Sub("FloatsV"), Lite="FALSE")
    runs = [dict(consts=dict(fb, D=5 if THOROUGH else 4), invs=["TypeOK"], workers=2, extra_modules=[ext])]
    runs += [dict(consts=dict(fb, D=50, MaxLen=40, ElemLens="{0,1,2,3,8,40}", Lite="TRUE"), simulate=k, depth=60, seed=SEED * 1000 + i, extra_modules=[ext]) for i in range(n)]
    w = adt_check("U04", "FlexMC", "flexd", runs, exe=build_driver("flexd", cfl, objs))
    for x in ("states", "transitions", "distinct_states", "traces_validated_against_impl", "behaviours_generated"):
        v.cov[x] += w.cov[x]
    v.cov["operations_replayed_flex"] = w.cov["operations_replayed"]
    v.cov["samples"] += w.cov["samples"]
    v.viol += w.viol
    return v
if __name__ == "__main__":
    main(lambda: check().finish())
