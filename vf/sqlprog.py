"""Scripts of specs/SqlProg.tla: rendering as SQL, running, comparing with what
the specification says is written, left in the files, and reported."""
import os, json, random, collections
from concurrent.futures import ThreadPoolExecutor
from .core import *
from . import core as C, sqlrun as S, engine as E
from .sqlrun import lst, txt

NAMES = ["t1", "t2", "t3", "o4", "o5", "o6", "o7"]
P0 = [[], [], ["-P", "2"]]
VT = {"i": "int", "f": "float", "s": "varchar(100)"}

class PRen(S.Ren):
    def __init__(s, tabs, types, seed):
        super().__init__(tabs, [], seed, names=NAMES)
        s.types = types
    def prog(s, body):
        r = ""
        for k in range(1, 6):
            r += s.decl(k, s.init[k - 1])
        return r + s.stmts(body)
    def decl(s, k, x):
        t = s.kw("declare ") + "%s %s" % (s.var(k), VT[s.types[k - 1]])
        if x is not None: t += " = " + x
        return t + ";\n"
    def stmts(s, b):
        return "".join(s.stmt(x) for x in lst(b))
    def block(s, b):
        b = lst(b)
        if len(b) == 1 and b[0][0] in ("sel", "set", "upd", "del", "into") and s.rnd.random() < .4: return s.stmt(b[0])
        return s.kw("begin ") + s.stmts(b) + s.kw("end\n")
    def file(s, f): return "[%s.csv]" % NAMES[f - 1]
    def stmt(s, x):
        k = x[0]
        end = s.rnd.choice([";\n", "\n", "; "])
        none = ([], [])
        if k == "sel": return s.query(x[1]) + end
        if k == "into": return s.query(x[1], into=s.file(x[2])) + end
        if k == "decl": return s.decl(x[1], s.ex(lst(x[2])[0], none, True) if lst(x[2]) else None)
        if k == "set": return s.kw("set ") + "%s %s %s" % (s.var(x[1]), "=" if x[2] == "=" else x[2] + "=", s.ex(x[3], none, True)) + end
        if k == "if":
            r = s.kw("if ") + s.cond(x[1], none) + " " + s.block(x[2])
            if lst(x[3]): r += s.kw("else ") + s.block(lst(x[3])[0])
            return r
        if k == "while": return s.kw("while ") + s.cond(x[1], none) + " " + s.block(x[2])
        if k == "blk": return s.kw("begin ") + s.stmts(x[1]) + s.kw("end\n")
        if k == "upd": f, sets, fr, wh = x[1], lst(x[2]), lst(x[3]), lst(x[4])
        else: f, sets, fr, wh = x[1], None, lst(x[2]), lst(x[3])
        al, cols = [], []
        for y in fr:
            s.n += 1
            al.append("s%d" % s.n); cols.append(s.cols(y[1]))
        alone = len(fr) == 1 and s.rnd.random() < .6
        if alone: al = [NAMES[f - 1]]
        sc = (al, cols)
        frm = s.kw(" from ") + s.names[f - 1] + " " + al[0]
        for i, y in enumerate(fr[1:], 1):
            frm += s.kw(" left join " if y[0] == "left" else s.rnd.choice([" join ", " inner join "])) + s.ref(y[1]) + " " + al[i] + s.kw(" on ") + s.cond(y[2], (al[:i + 1], cols[:i + 1]))
        if k == "upd":
            st = ", ".join("%s %s %s" % (s.setcol(cols[0][c - 1]), "=" if o == "=" else o + "=", s.ex(e, sc, True)) for c, o, e in sets)
            r = s.kw("update ") + al[0] + s.kw(" set ") + st + ("" if alone else frm)
        else:
            r = s.kw("delete from ") + al[0] if alone else s.kw("delete ") + al[0] + frm
        for p in wh: r += s.kw(" where ") + s.cond(p, sc)
        return r + end
    def setcol(s, n): return s.rnd.choice([n, n, n.upper(), "[" + n + "]"])

def lit(v):
    v = v["v"]
    return None if v[0] == "n" else str(v[1]) if v[0] == "i" else S.flt(v[1]) if v[0] == "f" else S.sqlstr(txt(v[1]))

class Prog:
    def __init__(s, h):
        s.seed, s.tabs, s.vars, s.p, s.o = h
        s.vars = lst(s.vars)
        s.files = {"t%d.csv" % (i + 1): S.csvtext(t) for i, t in enumerate(s.tabs[:3])}
        r = PRen(s.tabs, [v["t"] for v in s.vars], s.seed)
        r.init = [lit(v) for v in s.vars[:5]]
        s.sql = r.prog(s.p["body"])
        s.args = (["-o"] if s.p["ow"] else []) + S.flavour(s.seed)

def take(rows, i, blocks):
    """index after the rows of the blocks, or None"""
    for b in blocks:
        part = rows[i:i + len(b)]
        if sorted(part) != sorted(b): return None
        i += len(b)
    return i

def final(c):
    """the contents the files have afterwards: text, or (header, blocks)"""
    f, obs = {}, lst(c.o["obs"])
    for i, t in enumerate(lst(c.o["tabs"])):
        if not lst(obs[i]): f["t%d.csv" % (i + 1)] = S.csvtext(t)
    for k, ob in enumerate(obs):
        if lst(ob): f[NAMES[k] + ".csv"] = S.expected(lst(ob)[0])
    return f

def listing(d): return {n: E.get(d, n) for n in sorted(os.listdir(d))}

def compare_files(want, got):
    if sorted(want) != sorted(got): return "files: expected %s got %s" % (sorted(want), sorted(got))
    for n, w in want.items():
        if isinstance(w, str):
            if got[n] != w: return "file %s: expected %r got %r" % (n, w, got[n])
        else:
            rows = S.parse(got[n])
            if rows[:1] != [w[0]] or take(rows, 1, w[1]) != len(rows): return "file %s: expected %r got %r" % (n, w, got[n])

def judge(c, r, after, dry):
    """r: the run; after: the files then; dry: what -d says"""
    if r.crashed: return "the process ended abnormally: rc=%s sig=%s %s" % (r.rc, r.sig, C.brief(r.err)[:900])
    st = c.o["st"]
    if st == "ok" and r.rc != 0: return "expected success, got rc=%s %s (output %r)" % (r.rc, r.err[:300], r.out[:300])
    if st == "e" and r.rc == 0: return "expected failure, got success with %r" % r.out[:300]
    if st == "e" and dry.rc != 0:
        # rejected as a whole
        if r.out: return "rejected by -d, but it wrote %r" % r.out[:300]
        return compare_files(c.files, after)
    rows, i = S.parse(r.out), 0
    for k, o in enumerate(lst(c.o["outs"])):
        hdr, bl = S.expected(o)
        if rows[i:i + 1] != [hdr]: return "output %d: expected header %r got %r" % (k + 1, hdr, rows[i:i + 1])
        j = take(rows, i + 1, bl)
        if j is None: return "output %d: expected %r got %r" % (k + 1, bl, rows[i + 1:i + 1 + sum(map(len, bl))])
        i = j
    if i != len(rows) and not (st == "e" and c.o["at"] == "sel"): return "output: %r follows the last expected row" % rows[i:i + 4]
    return compare_files(final(c), after)

def run_prog(srv, d, c, args=()):
    for n, t in c.files.items(): E.put(d, n, t)
    dry = srv.run(d, ["fql", "-q", "-d"] + c.args + ["-c", c.sql], timeout=30)
    if c.files != listing(d): return "a dry run changes the files: %r" % listing(d)
    if dry.out: return "a dry run writes %r" % dry.out[:300]
    if c.o["st"] == "ok" and dry.rc != 0: return "expected success, got rc=%s from the dry run: %s" % (dry.rc, dry.err[:300])
    r = srv.run(d, ["fql", "-q"] + c.args + list(args) + ["-c", c.sql], timeout=30)
    return judge(c, r, listing(d), dry)

def generate(tasks, d0=0):
    def one(t):
        prof, lo, hi = t
        o = os.path.join(work(), "prog_%s_%d.txt" % (prof, lo))
        r = tlc("SqlProg", dict(Prof=tla_str(prof), Lo=lo, Hi=hi, D=0, Big=0, Lite="TRUE", Out=tla_str(o)), init="PInit", nxt="PNext",
                invs=["PInv"], props=["POuts", "PTarget", "PRows"])
        if r["rc"]:
            k = r["out"].find("Error:")
            raise CheckError("TLC rejects the specification (%s %d..%d): %s" % (prof, lo, hi, r["out"][k:k + 1500]))
        h = read_out(o); os.unlink(o)
        return h, r["distinct"], r["states"]
    with ThreadPoolExecutor(NCPU) as ex: return list(ex.map(one, tasks))

def prog_check(pid, quick, thorough):
    """groups: (profile, seeds, [argument lists])"""
    v = Verdict(pid, "model_checking")
    groups = thorough if THOROUGH else quick
    base = 1 + (SEED % 20) * 12000
    ts = [(g, (g[0], a, min(a + 99, base + g[1] - 1))) for g in groups for a in range(base, base + g[1], 100)]
    with ThreadPoolExecutor(1) as ex:
        eng = ex.submit(E.build_engine)
        hs = generate([t for _, t in ts])
        exe = eng.result()
    pool = E.Pool(exe)
    cnt = collections.Counter(); states = trans = 0; todo = []; kinds = collections.Counter()
    def count(b):
        for x in lst(b):
            kinds[x[0]] += 1
            for y in ([x[2]] + lst(x[3]) if x[0] == "if" else [x[2]] if x[0] == "while" else [x[1]] if x[0] == "blk" else []): count(y)
    for (g, _), (h, ds, st) in zip(ts, hs):
        states += ds; trans += st
        for x in h:
            cnt["scripts specified"] += 1
            if x[4]["st"] == "u": cnt["not claimed"] += 1; continue
            c = Prog(x); count(c.p["body"])
            cnt["statements executed"] += x[4]["n"]
            if x[4]["st"] == "e": cnt["expected to fail"] += 1
            todo.append((c, g[2][c.seed % len(g[2])]))
    f = lambda srv, d, ca: run_prog(srv, d, ca[0], ca[1])
    res = pool.map(f, todo)
    for ca, r in [z for z in zip(todo, res) if z[1]][:40]:
        again = None
        for _ in range(2):
            again = pool.map(f, [ca])[0]
            if again: break
        c = ca[0]
        if again: v.report("script disagrees with the specification: " + c.sql[:200].replace("\n", " "), {"script": c.sql, "arguments": c.args + list(ca[1]), "seed": c.seed, "files": c.files, "disagreement": again}, key="prog:%s:%d" % (pid, c.seed))
        else: cnt["not reproduced"] += 1
    pool.close()
    cnt["traces_validated_against_impl"] = len(todo)
    for k, n in cnt.items(): v.cov[k] = n
    v.cov.update(states=states, transitions=trans, statements=dict(kinds), samples=[c.sql for c, _ in todo[:: max(1, len(todo) // 6)]][:6],
                 bounds="; ".join("%s: %d seeds" % (g[0], g[1]) for g in groups))
    v.assume += ["the csv library is the one of /verif/shim (the original is not part of the repository)", "what the specification does not define (status u) is not compared"]
    return v
