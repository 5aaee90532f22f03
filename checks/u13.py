"""U13: TLC explores specs/Vars.tla; every behaviour is replayed on lib/variable."""
import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf.adt import *
def check():
    bs = lambda s: [ord(c) for c in s]
    S = lambda l: "{" + ", ".join(tla_val(bs(x)) for x in l) + "}"
    def mod(tag, T, I, F):
        ext = os.path.join(work(), "VarsMC%s.tla" % tag)
        open(ext, "w").write("---- MODULE VarsMC%s ----\nEXTENDS Vars\nTV == %s\nIV == %s\nFV == %s\n====\n" % (tag, S(T), S(I), S(F)))
        return dict(Texts=Sub("TV"), Ints=Sub("IV"), Floats=Sub("FV")), [ext]
    c1, e1 = mod("S", ["", "12", "ab c"], ["-7", "0"], ["2.500000"])
    c2, e2 = mod("B", ["", " ", "0", "7", "-12", "12345", "0x1f", "1.5", "-0.25", "1e3", "abc", "a b  ", "   ", "0123456789", "99999999999999999999", "9223372036854775807", "x" * 70, "3.75 ", "\xe9t\xe9", "00012"],
                 ["-7", "0", "1", "12345678901", "9223372036854775807", "-9223372036854775808"], ["2.500000", "-0.125000", "1000000.000000", "0.000001", "123456.789000"])
    v = adt_check("U13", "VarsMCS", "vars", [dict(consts=dict(c1, Lims="{3}", Lite="FALSE", D=7 if THOROUGH else 5), invs=["Inv"], workers=4, extra_modules=e1)])
    n, k = (16, 5000) if THOROUGH else (6, 700)
    w = adt_check("U13", "VarsMCB", "vars", [dict(consts=dict(c2, Lims="{1, 2, 3, 5, 12}", Lite="TRUE", D=24), invs=["Inv"], simulate=k, depth=40, seed=SEED * 1000 + i, extra_modules=e2) for i in range(n)])
    for x in ("states", "transitions", "distinct_states", "traces_validated_against_impl", "behaviours_generated"): v.cov[x] += w.cov[x]
    v.cov["samples"] += w.cov["samples"]; v.cov["operations_replayed_random"] = w.cov["operations_replayed"]
    v.viol += w.viol
    return v
if __name__ == "__main__":
    main(lambda: check().finish())
