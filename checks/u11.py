"""U11: TLC explores specs/Sig.tla; every behaviour is replayed on lib/fqlsig in a child
process, with signals between operations and around every file removal."""
import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf.adt import *
def check():
    import signal
    sg = tla_val({int(signal.SIGINT), int(signal.SIGQUIT), int(signal.SIGTERM), int(signal.SIGHUP)})
    runs = [dict(consts=dict(F=2, Sigs=sg, Disps="{%d}" % d, Lite="FALSE", D=5 if THOROUGH else 4), invs=["Inv"], workers=2) for d in (0, 1, 2)]
    n, k = (16, 1500) if THOROUGH else (5, 250)
    runs += [dict(consts=dict(F=4, Sigs=sg, Disps="{0, 1, 2}", Lite="TRUE", D=24), invs=["Inv"], simulate=k, depth=40, seed=SEED * 1000 + i) for i in range(n)]
    cfl, objs = build_util()
    exe = build_driver("sig", cfl, objs, libs="-pthread -lm -Wl,--wrap=remove -Wl,--wrap=unlink")
    return adt_check("U11", "Sig", "sig", runs, exe=exe)
if __name__ == "__main__":
    main(lambda: check().finish())
