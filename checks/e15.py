"""E15: histories of specs/Csv.tla (tables written and read in many formats), each
statement run by the engine with the options of the step; output and files must
be byte for byte what the specification says."""
import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import itertools, random
from vf.adt import *
from vf import engine as E
from vf.sqlrun import lst, sqlstr
txt = lambda q: "".join(map(chr, q or []))
br = lambda n: "[" + n.replace("]", "]]") + "]"

def script(x):
    kind, src, tgt, s, std, od, ostd, crlf, hdr, t, lines, nm, other = x
    nm = [br(txt(n)) for n in nm]
    T, U = ["t1", "t2"][src - 1], ["t2", "t1"][src - 1]
    into = " into [t%d.csv]" % tgt if tgt and kind not in ("update", "delete") else ""
    F = into + " from "
    q = {"star": "select *" + F + T, "cols": "select %s, %s, n" % (nm[1], nm[0]) + F + T,
         "derived": "select *" + F + "(select * from %s) x" % T,
         "group": "select x.%s, x.n" % nm[0] + F + "(select %s, n from %s group by %s, n) x" % (nm[0], T, nm[0]),
         "order": "select *" + F + T + " order by n desc", "where": "select *" + F + T + " where n <> '1'",
         "join": "select x.*, y.%s" % br(txt(other)) + F + "%s x join %s y on x.n = y.n" % (T, U),
         "left": "select x.*, y.%s" % br(txt(other)) + F + "%s x left join %s y on x.n = y.n" % (T, U),
         "union": "select *" + F + T + " union all select * from " + U,
         "stdin": "select *" + F + "__stdin", "stdinorder": "select *" + F + "__stdin order by n desc",
         "update": "update %s set %s = %s where n = '1'" % (T, nm[1], sqlstr(txt(t))), "delete": "delete from %s where n = '1'" % T}[kind]
    a = ["-o"] if into else []
    if s: a += ["-s", txt(s)]
    if od: a += ["-S", txt(od)]
    if std != "rfc4180": a += ["--in-std", std]
    if ostd != "rfc4180": a += ["--out-std", ostd]
    if crlf: a.append("-W")
    if not hdr: a.append("-h")
    return q, a, kind.startswith("stdin"), T

def run(srv, d, h):
    files = {"t1.csv": txt(h[0][1]), "t2.csv": txt(h[0][2])}
    for n, t in files.items(): E.put(d, n, t)
    done = []
    for k, x in enumerate(h[1:]):
        q, a, std, T = script(x)
        pf = random.Random(len(q) + k).choice([[], [], ["-P", "2"]])
        inp = None
        if std:
            inp = os.path.join(d, ".input"); E.put(d, ".input", files[T + ".csv"])
        done.append(" ".join(map(repr, a + pf)) + ": " + q)
        before = dict(files)
        r = srv.run(d, ["fql", "-q"] + a + pf + ["-c", q], inp)
        if inp: os.unlink(inp)
        got = {n: E.get(d, n) for n in os.listdir(d)}
        lines = [txt(l) for l in lst(x[10])]
        perms = ["".join(lines)]
        if x[0] in ("join", "left", "group", "union"):
            hd = 1 if x[8] else 0
            perms = ["".join(lines[:hd]) + "".join(p) for p in itertools.permutations(lines[hd:])]
        out = r.out
        if x[2]:
            n = "t%d.csv" % x[2]
            if got.get(n) in perms: files[n] = got[n]
            else: files[n] = perms[0]
            perms = [""]
        bad = None
        if r.crashed: bad = "the process ended abnormally: " + repr(r)
        elif r.rc: bad = "expected success, got rc=%d %s" % (r.rc, r.err[:300])
        elif out not in perms: bad = "output: expected %r got %r" % (perms[0], out)
        elif got != files: bad = "files: expected %r got %r" % ({n: t for n, t in files.items() if got.get(n) != t}, {n: t for n, t in got.items() if files.get(n) != t})
        if bad: return {"first files": {"t1.csv": txt(h[0][1]), "t2.csv": txt(h[0][2])}, "runs": done, "files before the last": before, "disagreement": bad}

def check():
    v = Verdict("E15", "model_checking")
    n = 12000 if THOROUGH else 1200
    base = 1 + SEED * 20000 % 200000
    st = n // 8
    runs = [dict(consts=dict(D=6, Lite="FALSE", Lo=a, Hi=a + st - 1), invs=["ReadsBack"]) for a in range(base, base + n, st)]
    with ThreadPoolExecutor(1) as ex:
        eng = ex.submit(E.build_engine)
        hs, states, di = gen("Csv", runs)
        exe = eng.result()
    pool = E.Pool(exe)
    res = pool.map(run, hs)
    for h, r in [z for z in zip(hs, res) if z[1]][:30]:
        if pool.map(run, [h])[0]: v.report("delimited text differs from the specification: " + r["runs"][-1][:200], r, key="csv:" + r["runs"][-1][:80])
    pool.close()
    cnt = {}
    for h in hs:
        for x in h[1:]: cnt[x[0]] = cnt.get(x[0], 0) + 1
    v.cov.update(states=di, transitions=states, traces_validated_against_impl=len(hs), statements=cnt, samples=[{"t1": txt(h[0][1]), "runs": [" ".join(script(x)[1]) + ": " + script(x)[0] for x in h[1:]]} for h in hs[::max(1, len(hs) // 5)]],
                 bounds="%d histories of up to 6 runs over 2 tables of 0..3 rows; fields of 0..4 (some of 300) characters out of a, b, blank, quote, comma, bar, tab, semicolon, colon, CR, LF; delimiters , | tab ; ::" % len(hs))
    v.assume += ["quoting and parsing are those of the csv library of /verif/shim (the original is not part of the repository); what is decided is how the repository drives it, and everything that passes through its own temporary files"]
    return v

if __name__ == "__main__":
    main(lambda: check().finish())
