"""U07: TLC explores specs/Fifo.tla; every behaviour is replayed on util/fifo."""
import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf.adt import *
def check():
    runs = [dict(consts=dict(Sizes="{%d}" % s, Reserves="{%d}" % r, NSrc=3 if THOROUGH else 2, Blocks="{1, 2}", Lite="FALSE", D=5 if THOROUGH and s > 2 else 4), invs=["Inv"], workers=1)
            for s, r in (((2, 1), (3, 1), (4, 1), (4, 2), (3, 2), (2, 2)) if THOROUGH else ((2, 1), (3, 1), (3, 2)))]
    n, k = (16, 4000) if THOROUGH else (5, 700)
    runs += [dict(consts=dict(Sizes="{1, 2, 3, 4, 5, 7, 9, 16}", Reserves="{1, 2, 3, 9}", NSrc=8, Blocks="{1, 2, 3, 4}", Lite="TRUE", D=40), invs=["Inv"],
                  simulate=k, depth=45, seed=SEED * 1000 + i) for i in range(n)]
    return adt_check("U07", "Fifo", "fifod", runs)
if __name__ == "__main__":
    main(lambda: check().finish())
