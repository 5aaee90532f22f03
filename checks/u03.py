import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf.adt import *
def check():
    base = dict(MaxLen=6, Lite="FALSE")
    runs = [dict(consts=dict(base, D=5 if THOROUGH else 4), invs=["Unique"], workers=4, heap="6g")]
    n, k = (3, 700) if not THOROUGH else (16, 8000)
    for i in range(n):
        runs.append(dict(consts=dict(base, D=50, MaxLen=9, Lite="TRUE"), invs=["Unique"], simulate=k, depth=60, seed=SEED * 1000 + i))
    return adt_check("U03", "NodeList", "node", runs)
if __name__ == "__main__":
    main(lambda: check().finish())
