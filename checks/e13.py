"""E13: sessions of specs/Api.tla (calls of the library on one handle) replayed on
the real library: what every call returns and prints, and the files at the end."""
import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import re
from vf.adt import *
from vf import engine as E
from vf.sqlrun import lst
Q = {"star": "select a, n from t", "ord": "select a, n from t order by n desc", "cnt": "select count(*) as q from t", "var": "select @i as q, a from t where n > @i",
     "grp": "select a, count(*) as q from t group by a order by a", "top": "select top 2 n + 0 as q, a from t order by n", "uni": "select a from t union all select k from u order by 1",
     "sub": "select x.n from (select n from t where n > 1) x", "none": "select a from t where 1 = 2", "fail": "select a, 6 / (n - 2) as q from t",
     "join": "select x.a, y.v from t x join u y on x.a = y.k order by v", "left": "select x.a, y.v from t x left join u y on x.a = y.k order by x.a", "dist": "select distinct a from t order by a",
     "inl": "select a from t where a in (select k from u)", "scal": "select (select max(n) from t) as q", "selo": "select a, n from [o.csv]", "imp": "select @p as q",
     "upd": "update t set n = n + 1", "updf": "update t set n = 6 / (n - 2) + 20 + n", "del": "delete from t where n = 3", "into": "select a, n into [o.csv] from t", "set": "set @i = @i + 1"}
HDR = {"cnt": "q", "uni": "a", "sub": "n", "none": "a", "dist": "a", "inl": "a", "scal": "q", "imp": "q", "star": "a,n", "ord": "a,n", "var": "q,a", "grp": "a,q", "top": "q,a", "fail": "a,q", "join": "a,v", "left": "a,v", "selo": "a,n"}

def script(c):
    w = [Q[x] for x in lst(c["w"])]
    d = "declare @i int = %d; " % c["c0"]
    if c["shape"] == "bad": return d + w[0] + "; select zz from t"
    if c["shape"] == "seq": return d + "; ".join(w)
    if c["shape"] == "if": return d + "if @i > %d %s else %s; %s" % (c["lim"], w[0], w[1], w[2])
    return d + "while @i < %d begin set @i = @i + 1; %s; %s; end; %s" % (c["lim"], w[0], w[1], w[2])

def cell(v, typed):
    if v[0] == "n": return None if typed else ""
    if v[0] == "i": return ["i", str(v[1])] if typed else str(v[1])
    return ["s", str(v[1])] if typed else str(v[1])
def rows(q, typed=True): return [[cell(v, typed) for v in lst(r)] for r in lst(q)]
def csvrows(q): return "".join(",".join(r) + "\n" for r in rows(q, False))
def filetext(q): return "a,n\n" + "".join("%s,%d\n" % (a, k) for a, k in lst(q))

def calls(h, opts):
    ops = ["new", "set:overwrite=1"] + opts
    for x in h[1:-1]:
        c = x[0]
        k = c[0]
        if k in ("plans", "exec"): a = [k + ":" + script(c[1])]
        elif k == "import": a = ["import:p=" + c[1]]
        elif k == "raw": a = ["rawstep"]
        elif k == "steps2": a = ["steps:2"]
        elif k == "execn": a = ["execplans:%d" % c[1]]
        elif k == "free": a = ["free", "new", "set:overwrite=1"] + opts
        else: a = [k]
        yield x, a

def run(srv, d, it):
    h, opts = it
    E.put(d, "t.csv", filetext(h[0][1])); E.put(d, "u.csv", "k,v\nx,7\ny,8\nq,9\n")
    cs = list(calls(h, opts))
    head = ["new", "set:overwrite=1"] + opts
    ops = head + [a for _, l in cs for a in l] + ["free"]
    r = srv.run(d, ["api"] + ops)
    got = re.findall("([^\x01]*)\x01([^\n]*)\n", r.out)
    bad, pos = None, len(head)
    done = []
    for x, l in cs:
        done.append(" / ".join(l))
        if pos >= len(got):
            bad = "the process ended abnormally in this call: " + repr(r)[:1500] if r.crashed else "no answer"
            break
        printed, ans = got[pos]; pos += len(l)
        try: ans = json.loads(ans)
        except ValueError: pass
        ret, k = x[1], x[0][0]
        want = "".join(",".join(["?"] * c) + "\n" + csvrows(q) for c, q in [])
        outs = lst(x[2])
        # printed: header and rows of every statement executed
        i = 0
        for c, q in outs:
            j = printed.find("\n", i) + 1
            body = csvrows(q)
            if j == 0 or printed[i:j].count(",") != c - 1 or printed[j:j + len(body)] != body:
                bad = "printed %r, expected next %r" % (printed[i:], body); break
            i = j + len(body)
        if not bad and i != len(printed) and not x[3]: bad = "printed %r, the last expected row precedes %r" % (printed, printed[i:])
        if not bad:
            if ret[0] == "num": ok = ans == ret[1]
            elif ret[0] == "fail": ok = ans == -5
            elif ret[0] == "ok": ok = isinstance(ans, int) and ans != -5
            elif ret[0] == "none": ok = ans == "none"
            else:
                e = rows(ret[0]) + ([] if ret[1] == "more" else [ret[1]])
                ok = ans == e
                ret = e
            if not ok: bad = "returned %r, expected %r" % (ans, ret)
        if bad: break
    if not bad and r.crashed: bad = "the process ended abnormally: " + repr(r)[:1500]
    if not bad:
        fs = {n: E.get(d, n) for n in sorted(os.listdir(d))}
        want = {"t.csv": filetext(h[-1][1]), "u.csv": "k,v\nx,7\ny,8\nq,9\n"}
        if lst(h[-1][2]): want["o.csv"] = filetext(lst(h[-1][2])[0])
        if fs != want: bad = "files afterwards: %r, expected %r" % (fs, want)
    if bad: return {"t.csv": filetext(h[0][1]), "options": opts, "calls": done, "disagreement": bad}

def check():
    v = Verdict("E13", "model_checking")
    n = 40000 if THOROUGH else 2400
    base = 1 + SEED * 40000 % 200000
    st = n // 8
    runs = [dict(consts=dict(D=14, Lite="FALSE", Lo=a, Hi=a + st - 1), invs=["Laws"], props=["StepLaw"]) for a in range(base, base + n, st)]
    with ThreadPoolExecutor(1) as ex:
        eng = ex.submit(E.build_engine)
        hs, states, di = gen("Api", runs)
        exe = eng.result()
    items = [(h, [[], [], ["set:pipe=2"], ["set:cartesian=1"] if '"left"' not in json.dumps(h) else []][i % 4]) for i, h in enumerate(hs)]
    pool = E.Pool(exe)
    res = pool.map(run, items)
    for it, r in [z for z in zip(items, res) if z[1]][:30]:
        if pool.map(run, [it])[0]: v.report("%s: %s" % (r["calls"][-1][:150], r["disagreement"][:200]), r, key="api:" + r["disagreement"][:60])
    pool.close()
    cnt = {}
    for h in hs:
        for x in h[1:-1]: cnt[x[0][0]] = cnt.get(x[0][0], 0) + 1
    v.cov.update(states=di, transitions=states, traces_validated_against_impl=len(hs), calls=cnt, samples=[[" / ".join(l) for _, l in calls(h, [])] for h in hs[::max(1, len(hs) // 4)]],
                 bounds="%d sessions of up to 14 calls on one handle; scripts of 22 kinds of statement in sequences, IF/ELSE and WHILE" % len(hs))
    v.assume += ["a variable imported from outside belongs to the next script; the rows printed by a SELECT before it fails are left open"]
    return v

if __name__ == "__main__":
    main(lambda: check().finish())
