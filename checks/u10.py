"""U10: TLC enumerates pairs of texts of specs/Coll.tla (and checks there that each
mode is a total preorder); every pair is replayed on the real comparisons and hash containers."""
import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf.adt import *
def check():
    A = [32, 9, 65, 97, 98, 195]
    runs = [dict(consts=dict(Alpha=tla_val(set(A)), L=2, Lite="FALSE", D=2), workers=2),
            dict(consts=dict(Alpha="{32, 97}", L=4 if not THOROUGH else 6, Lite="FALSE", D=2), workers=2),
            dict(consts=dict(Alpha="{97, 9, 32}", L=3, Lite="FALSE", D=2), workers=2)]
    n, k = (12, 6000) if THOROUGH else (5, 500)
    big = "(32..126) \\cup {9, 10, 13, 127, 128, 160, 195, 227, 255}"
    runs += [dict(consts=dict(Alpha=Sub("BigA") if i % 2 else tla_val(set(A + [90, 122, 64, 91, 96, 123])), L=2 if i % 2 == 0 else 1, Lite="TRUE", D=40), simulate=k, depth=50, seed=SEED * 1000 + i) for i in range(n)]
    ext = os.path.join(work(), "CollMC.tla")
    open(ext, "w").write("---- MODULE CollMC ----\nEXTENDS Coll\nBigA == %s\n====\n" % big)
    for r in runs: r["extra_modules"] = [ext]
    v = adt_check("U10", "CollMC", "coll", runs)
    v.cov["preorder_checked_on"] = "all triples of texts of length <= 2 over each alphabet, four modes"
    return v
if __name__ == "__main__":
    main(lambda: check().finish())
