import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf.adt import *
def check():
    a, b, A = 97, 98, 65
    pats = "{<<>>, <<97>>, <<65>>, <<97,97>>, <<97,98>>, <<98,65,97>>}"
    tos = "{<<>>, <<98>>, <<97,97>>, <<97,98,97>>}"
    base = dict(MaxLen=10, Alpha=tla_val({a, b, A}), ArgLen=2, Pats=Sub("PatsV"), Tos=Sub("TosV"), Lite="FALSE")
    ext = os.path.join(work(), "StrMC.tla")
    open(ext, "w").write("---- MODULE StrMC ----\nEXTENDS Str\nPatsV == %s\nTosV == %s\n====\n" % (pats, tos))
    runs = [dict(consts=dict(base, D=3 if THOROUGH else 2), invs=["ReplaceAgree"], workers=4, extra_modules=[ext])]
    n, k = (4, 700) if not THOROUGH else (16, 6000)
    for i in range(n):
        runs.append(dict(consts=dict(base, D=40, MaxLen=18 if i % 2 else 60, ArgLen=4 if i % 2 else 3, Lite="TRUE"), simulate=k, depth=50, seed=SEED * 1000 + i, extra_modules=[ext]))
    return adt_check("U02", "StrMC", "str", runs)
if __name__ == "__main__":
    main(lambda: check().finish())
