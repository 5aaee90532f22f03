"""U12: TLC enumerates conversions of specs/Fields.tla; each is replayed on the real code."""
import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf.adt import *
def check():
    b = lambda s: tla_val({ord(c) for c in s})
    L = 4 if THOROUGH else 3
    runs = [dict(consts=dict(IAlpha=b(" -+019xaFgX"), FAlpha=b("{"), L=L, Heads="{}", Lite="FALSE", D=2), invs=["Laws"], workers=2),
            dict(consts=dict(IAlpha=b("0x8\t"), FAlpha=b("0."), L=L + 2, Heads="{}", Lite="FALSE", D=2), invs=["Laws"], workers=2),
            dict(consts=dict(IAlpha=b("z"), FAlpha=b(" -+015.eE"), L=L + 1, Heads="{}", Lite="FALSE", D=2), invs=["Laws"], workers=2)]
    ext = os.path.join(work(), "FieldsMC.tla")
    heads = ["", "0x", "-", " ", "+", "0x7ffffffffffffff", "0x8", "0xffffffffffffff", "-922337203685477580", "92233720368547758"]
    open(ext, "w").write("---- MODULE FieldsMC ----\nEXTENDS Fields\nHeadsV == {%s}\n====\n" % ", ".join(tla_val([ord(c) for c in h]) for h in heads))
    n, k = (12, 3000) if THOROUGH else (5, 300)
    for i in range(n):
        runs.append(dict(consts=dict(IAlpha=b("0123456789") if i % 3 else b("0123456789abcdefABCDEF"), FAlpha=b("0123456789.0123456789e-"), L=1, Heads=Sub("HeadsV"), Lite="TRUE", D=40),
                         invs=["Laws"], simulate=k, depth=60, seed=SEED * 1000 + i))
    for r in runs: r["extra_modules"] = [ext]
    return adt_check("U12", "FieldsMC", "fields", runs)
if __name__ == "__main__":
    main(lambda: check().finish())
