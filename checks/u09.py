"""U09: TLC explores specs/DGraph.tla; every behaviour is replayed on util/dgraph."""
import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf.adt import *
def check():
    runs = [dict(consts=dict(MaxN=5, Lite="FALSE", D=6 if THOROUGH else 5), invs=["Inv"], workers=3)]
    n, k = (16, 3000) if THOROUGH else (5, 400)
    runs += [dict(consts=dict(MaxN=9 if i % 2 else 14, Lite="TRUE", D=30), invs=["Acyclic", "TravExact", "HasRoots"], simulate=k, depth=40, seed=SEED * 1000 + i) for i in range(n)]
    return adt_check("U09", "DGraph", "dgraphd", runs)
if __name__ == "__main__":
    main(lambda: check().finish())
