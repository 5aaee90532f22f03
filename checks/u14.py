"""U14: TLC enumerates specs/Helpers.tla; each case is replayed on the real helpers."""
import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf.adt import *
def check():
    b = lambda s: tla_val({ord(c) for c in s})
    ext = os.path.join(work(), "HelpersMC.tla")
    nd = ["", "a", "ab", "aab", "ba", "abab", "b"]
    open(ext, "w").write("---- MODULE HelpersMC ----\nEXTENDS Helpers\nNV == {%s}\n====\n" % ", ".join(tla_val([ord(c) for c in h]) for h in nd))
    runs = [dict(consts=dict(Alpha=b("abA"), PAlpha=b("a./b"), L=7 if THOROUGH else 6, LF=5 if THOROUGH else 4, Needles=Sub("NV"), Lite="FALSE", D=2), invs=["Laws"], workers=4)]
    n, k = (12, 3000) if THOROUGH else (4, 300)
    for i in range(n):
        runs.append(dict(consts=dict(Alpha=b("ab") if i % 2 else tla_val({97, 98, 65, 90, 32, 46, 200, 255, 91, 64}), PAlpha=b("ab./.x-"), L=38, LF=4, Needles=Sub("NV"), Lite="TRUE", D=40), invs=["Laws"], simulate=k, depth=60, seed=SEED * 1000 + i))
    for r in runs: r["extra_modules"] = [ext]
    return adt_check("U14", "HelpersMC", "helpers", runs)
if __name__ == "__main__":
    main(lambda: check().finish())
