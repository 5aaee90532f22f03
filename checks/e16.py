"""E16: scripts of specs/Reject.tla: derived ones must run; those with a fault
must be refused before anything has been printed or changed; arbitrary ones may
do either, but must end."""
import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf.adt import *
from vf import engine as E
FILES = {"t.csv": "a,b,n\nx,y,1\nz,w,2\nx,,3\n", "u.csv": "k,v\nx,1\nq,2\n"}
ARGS = [[], ["-P", "2"], ["-t"], ["--strict"], ["-v"], ["-d"]]

def run(srv, d, it):
    want, kind, words, args = it
    text = " ".join(words)
    if "--strict" in args:
        import re
    for n in os.listdir(d): os.unlink(os.path.join(d, n))
    for n, t in FILES.items(): E.put(d, n, t)
    r = srv.run(d, ["fql", "-q"] + args + ["-c", text])
    got = {n: E.get(d, n) for n in os.listdir(d)}
    bad = None
    if r.crashed: bad = "the process ended abnormally or hung: " + repr(r)[:1500]
    elif want == "accepted":
        if r.rc: bad = "a valid script is refused: rc=%d %s" % (r.rc, r.err[:300])
    elif want == "refused":
        if not r.rc: bad = "accepted, printing %r" % r.out[:200]
        elif r.out: bad = "refused after output: %r" % r.out[:200]
        elif got != FILES: bad = "refused after changing files: %r" % {n: got.get(n) for n in set(got) | set(FILES) if got.get(n) != FILES.get(n)}
        elif not r.err.strip(): bad = "refused without a message"
    elif r.rc and not r.err.strip(): bad = "failed without a message (rc=%d)" % r.rc
    if bad: return {"script": text, "fault": kind, "arguments": args, "disagreement": bad}

def check():
    v = Verdict("E16", "model_checking")
    n = 12000 if THOROUGH else 560
    base = 1 + SEED * 20000 % 200000
    st = n // 8
    runs = [dict(consts=dict(D=10, Lite="FALSE", Lo=a, Hi=a + st - 1), invs=["Laws"]) for a in range(base, base + n, st)]
    with ThreadPoolExecutor(1) as ex:
        eng = ex.submit(E.build_engine)
        hs, states, di = gen("Reject", runs)
        exe = eng.result()
    seen, items = set(), []
    for h in hs:
        for x in h:
            key = (x[0], tuple(x[2] or []))
            if key in seen: continue
            seen.add(key)
            items.append((x[0], x[1], x[2] or [], ARGS[[0, 0, 1, 0, 2, 4, 0][len(seen) % 7]]))
    pool = E.Pool(exe)
    res = pool.map(run, items)
    for it, r in [z for z in zip(items, res) if z[1]][:40]:
        if pool.map(run, [it])[0]: v.report("%s (%s): %s" % (it[0], it[1], r["script"][-300:]), r, key="reject:" + r["script"][-100:])
    pool.close()
    cnt = {}
    for it in items: cnt[it[0] + " " + it[1]] = cnt.get(it[0] + " " + it[1], 0) + 1
    v.cov.update(states=di, transitions=states, traces_validated_against_impl=len(items), scripts=cnt, samples=[" ".join(i[2]) for i in items[::max(1, len(items) // 6)]],
                 bounds="%d scripts of up to 8 statements (SELECT with join, group, order, union, subqueries; UPDATE, DELETE, INTO, SET, IF, WHILE, blocks)" % len(items))
    v.assume += ["which constructs are supported is taken from README.md; faults that show only when a row is evaluated (conversion, division) are not among them"]
    return v

if __name__ == "__main__":
    main(lambda: check().finish())
