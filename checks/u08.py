"""U08: specs/FifoConc.tla (the protocol, every interleaving explored by TLC); the real
util/fifo.c under a controlled scheduler (drivers/conc.c); the recorded histories are
checked by TLC against specs/FifoTrace.tla."""
import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import random
from vf.adt import *

def build():
    d = os.path.join(work(), "conc"); os.makedirs(d, exist_ok=True)
    fl = "-g -O1 -w -std=gnu11 -D_GNU_SOURCE -I%s/util -I%s -I%s/lib -I%s/lib/include" % ((REPO,) * 4)
    cmds, objs = [], []
    for s in sorted(glob.glob(REPO + "/util/*.c")):
        o = os.path.join(d, os.path.basename(s)[:-2] + ".o"); objs.append(o)
        cmds.append("gcc %s -fsanitize=thread -fno-builtin -include %s/drivers/conc.h -c %s -o %s" % (fl, VERIF, s, o))
    run_all(cmds, "compiling /repo/util for the scheduler")
    exe = os.path.join(d, "conc")
    r = sh("gcc %s %s/drivers/conc.c %s -o %s -lm" % (fl, VERIF, " ".join(objs), exe), shell=True)
    if r.returncode: raise CheckError("conc does not build:\n" + r.stderr[-2000:])
    return exe

def scenarios(rng, n, runs):
    """(header fields, threads)"""
    out = []
    def prods(f, k, mode=None): return ["P %d %s %d" % (f, mode or rng.choice("aaatnm"), rng.choice((1, 2, 3, 3, 4, 5))) for _ in range(k)]
    for i in range(n):
        kind = i % 8
        np = rng.choice((1, 1, 2, 2, 3))
        if kind in (5, 6):
            p0, p1 = rng.choice(((1, 1), (1, 1), (2, 1), (1, 2)))
            sz = [(rng.choice((p + 1, p + 2, p + 3)), p) for p in (p0, p1)]
            th = prods(0, p0) + prods(1, p1) + ["E %s %d" % (rng.choice("eb"), rng.choice((99, 99, 99, 2, 3)))]
            if rng.random() < .2: th = [t.replace("P", "Q", 1) if " 0 " in t[:4] and False else t for t in th]
        else:
            sz = [(rng.choice((np + 1, np + 1, np + 2, np + 3, np + 5)), np)]
            lim = rng.choice((99, 99, 99, 1, 2, 4))
            mode = rng.choice("wwggpiisn")
            th = prods(0, np)
            if kind == 7 and mode != "s": th = [t.replace("P", "Q", 1) for t in th]      # never closed: a wait without end is right
            if kind == 4: th.append("K 0"); lim = 99
            th.append("C 0 %s %d" % (mode, lim * 10 + (rng.choice((1, 2, 3)) if mode == "n" else rng.choice((0, 1)))))
        out.append(("%d %d %d %d %s | %s" % (runs, rng.randrange(1 << 28), rng.choice((0, 0, 40)), len(sz), " ".join("%d %d" % x for x in sz), " ; ".join(th)), sz))
    return out

def merge(evs):
    """put what a call returned into the call"""
    out, open_ = [], {}
    for e in evs:
        if e[0] == "c": out.append(["c", e[1], e[2], e[3], e[4], [], -1]); open_[e[1]] = out[-1]
        elif e[0] == "r":
            c = open_.pop(e[1]); c[5], c[6] = e[2], e[3]; out.append(["r", e[1]])
        else: out.append(e)
    return out

def check():
    v = Verdict("U08", "model_checking")
    exe = build()
    rng = random.Random(SEED)
    n, runs, keep = (2400, 6000, 6) if THOROUGH else (400, 1500, 4)
    scs = scenarios(rng, n, runs)
    # the protocol itself
    L = '"%s"'
    cfgs = [(3, 1, 1, 0, 3, "one", 99, "TRUE"), (4, 2, 2, 0, 2, "one", 99, "TRUE"), (3, 2, 2, 0, 2, "one", 99, "FALSE"), (4, 2, 2, 0, 3, "one", 2, "FALSE"), (2, 1, 1, 1, 2, "either", 99, "FALSE"), (3, 1, 1, 1, 2, "both", 99, "TRUE")]
    if THOROUGH: cfgs += [(5, 3, 3, 0, 2, "one", 99, "FALSE"), (4, 2, 2, 0, 4, "one", 99, "TRUE"), (3, 1, 1, 1, 3, "either", 99, "TRUE"), (3, 2, 2, 1, 2, "either", 99, "FALSE"), (3, 2, 2, 1, 2, "both", 99, "FALSE"), (2, 1, 1, 1, 4, "both", 99, "TRUE")]
    def proto(c):
        r = tlc("FifoConc", dict(Size=c[0], Reserve=c[1], P0=c[2], P1=c[3], Items=c[4], Mode=L % c[5], Limit=c[6], Spurious=c[7]), invs=["InOrder", "NoLoss", "Locks", "Final"], deadlock=True)
        if r["rc"]: raise CheckError("FifoConc: " + r["out"][-2000:])
        return r["states"], r["distinct"]
    def batch(b):
        p = subprocess.run([exe, str(keep)], input="\n".join(s for s, _ in b) + "\n", capture_output=True, text=True, timeout=800)
        return b, p
    bs = [scs[i::NCPU * 2] for i in range(NCPU * 2)]
    with ThreadPoolExecutor(NCPU) as ex:
        pr = [ex.submit(proto, c) for c in cfgs]
        res = list(ex.map(batch, bs))
        pst = [f.result() for f in pr]
    hs, tot, stuck, longs = [], 0, 0, 0
    for b, p in res:
        last = 0
        for l in p.stdout.split("\n"):
            if l.startswith("H "):
                _, sc, k, susp, ev = l.split(" ", 4)
                hs.append((b[int(sc)], int(k), json.loads(ev)))
            elif l.startswith("S "):
                w = [int(x) for x in l.split()[1:]]; tot += w[1]; stuck += w[2]; longs += w[3]; last = w[0] + 1
        if p.returncode:
            v.report("the process ended abnormally in a run of: " + b[min(last, len(b) - 1)][0], {"scenario": b[min(last, len(b) - 1)][0], "rc": p.returncode, "stderr": p.stderr[-1500:]}, key="crash")
    # what the histories say is decided by the specification
    nb = 8
    parts = [hs[i::nb] for i in range(nb)]
    def validate(j):
        part = parts[j]
        if not part: return set(), 0, 0
        f = os.path.join(work(), "traces_%d.json" % j); out = os.path.join(work(), "acc_%d.txt" % j)
        with open(f, "w") as fh:
            for (s, sz), k, ev in part: fh.write(json.dumps({"sz": [x[0] for x in sz], "ic": [x[1] for x in sz], "ev": merge(ev)}) + "\n")
        r = tlc("FifoTrace", dict(D=0, Lite="FALSE", Out=tla_str(out), File=tla_str(f), Lo=1, Hi=len(part)), invs=["Bounded"])
        if r["rc"]: raise CheckError("FifoTrace: " + r["out"][-2000:])
        return {x[0] for x in read_out(out)}, r["states"], r["distinct"]
    with ThreadPoolExecutor(nb) as ex: val = list(ex.map(validate, range(nb)))
    st = sum(x[1] for x in val) + sum(x[0] for x in pst)
    bad = [h for part, x in zip(parts, val) for i, h in enumerate(part) if i + 1 not in x[0]]
    for (s, sz), k, ev in sorted(bad, key=lambda b: len(b[2]))[:5]:
        v.report("no order of effects explains what these threads saw: %s ... %s" % (s.split("|")[1].strip(), json.dumps(ev[-1])[:80]),
                 {"threads": s.split("|")[1], "sizes and reserved": sz, "run": k, "scenario": s, "history": ev}, key="history")
    v.cov.update(states=st, transitions=st, traces_validated_against_impl=len(hs), schedules_run=tot, schedules_ending_in_waiting=stuck, schedules_cut_off=longs,
                 protocol_states_distinct=sum(x[1] for x in pst),
                 samples=[{"scenario": hs[i][0][0], "history": hs[i][2]} for i in range(0, len(hs), max(1, len(hs) // 3))][:3],
                 bounds="protocol: %d configurations, every interleaving; code: %d scenarios of up to 4 threads x %d schedules, each step at an access to shared memory, a lock or a condition" % (len(cfgs), len(scs), runs))
    v.assume += ["sequentially consistent memory: the shared indices are C11 atomics with that order", "schedules of the code are sampled; those of the protocol are all explored"]
    return v

if __name__ == "__main__":
    main(lambda: check().finish())
