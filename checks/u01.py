import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf.adt import *
def check():
    inv = ["TypeOK", "NoDup", "Laws"]
    base = {"MaxLen": 12, "Chunk": 3, "Lite": "FALSE"}
    lite = dict(base, Lite="TRUE")
    d = 4 if THOROUGH else 3
    runs = [dict(consts=dict(base, D=d, ElemSizes=tla_val({4}), Prefill=tla_val(set(range(0, 5)) if not THOROUGH else {p})),
                 invs=inv, workers=4, timeout=600) for p in ([0] if not THOROUGH else range(0, 6))]
    n, k = (4, 500) if not THOROUGH else (16, 4000)
    for i in range(n):
        runs.append(dict(consts=dict(lite, D=45, MaxLen=16 if i % 2 else 70, ElemSizes=tla_val({1, 3, 4, 12}), Prefill=tla_val({0, 1, 2, 7})),
                         invs=["TypeOK", "NoDup"], simulate=k, depth=60, seed=SEED * 1000 + i))
    return adt_check("U01", "Vec", "vec", runs)
if __name__ == "__main__":
    main(lambda: check().finish())
