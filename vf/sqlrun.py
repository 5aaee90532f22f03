"""Rendering of the abstract syntax of specs/Sql.tla as SQL text, and running
queries of the specification on the real engine."""
import os, json, random
from . import core as C, engine as E

def txt(codes):
    if isinstance(codes, dict): return ""
    return "".join(chr(c) for c in codes)

def lst(x): return [] if isinstance(x, dict) else x

def sqlstr(t): return "'" + t.replace("'", "''") + "'"

def flt(k):
    s = "%.6f" % (k / 64.0)
    return s.rstrip("0") if not s.rstrip("0").endswith(".") else s.rstrip("0") + "0"

class Ren:
    """renders one query; rnd chooses between equivalent notations"""
    def __init__(s, tabs, vars, seed, names=None, tname=None):
        s.tabs, s.vars, s.rnd = tabs, vars, random.Random(seed)
        s.names = names or ["t%d" % (i + 1) for i in range(len(tabs))]
        s.n = 0
        s.alias_stack = []
        s.kw = s.rnd.choice([str.lower, str.upper, str.lower])
    def cols(s, ref):
        if ref[0] == "t": return lst(s.tabs[ref[1] - 1]["n"])
        return [x[1] for x in s.sel(ref[1])]
    def sel(s, q):
        sl = lst(q["sel"])
        if len(sl) == 1 and sl[0][0][0] == "star":
            return [(["col", i + 1, j + 1], n) for i, f in enumerate(lst(q["from"])) for j, n in enumerate(s.cols(f[1]))]
        return sl
    def colname(s, e, sc, spelled=False):
        al, cols = sc
        n = cols[e[1] - 1][e[2] - 1]
        uniq = sum(c.lower() == n.lower() for cc in cols for c in cc) == 1
        if spelled: n = s.rnd.choice([n, n, "[" + n + "]"])
        elif s.rnd.random() < .25: n = s.rnd.choice([n.upper(), "[" + n + "]"])
        if uniq and s.rnd.random() < .3: return n
        return al[e[1] - 1] + "." + n
    def ex(s, e, sc, top=False):
        k = e[0]
        if k == "col": return s.colname(e, sc)
        if k == "int": return str(e[1])
        if k == "flt": return flt(e[1])
        if k == "str": return sqlstr(txt(e[1]))
        if k == "null": return s.kw("null")
        if k == "var": return s.var(e[1])
        if k == "op":
            r = "%s %s %s" % (s.ex(e[2], sc), e[1], s.ex(e[3], sc))
            return r if top else "(" + r + ")"
        if k == "neg": return "-" + s.prim(e[1], sc)
        if k == "bnot": return "~" + s.prim(e[1], sc)
        if k == "fn": return "%s(%s)" % (s.kw(e[1]), ", ".join(s.ex(a, sc, True) for a in lst(e[2])))
        if k == "cast":
            t = e[2]
            return "%s(%s %s %s%s)" % (s.kw("cast"), s.ex(e[1], sc, True), s.kw("as"), s.kw(t), "(%d)" % e[3] if e[3] else "")
        if k == "case":
            r = "case" + "".join(" when %s then %s" % (s.cond(p, sc), s.ex(a, sc, True)) for p, a in lst(e[1]))
            for a in lst(e[2]): r += " else " + s.ex(a, sc, True)
            return r + " end" if top else "(" + r + " end)"
        if k == "scase":
            r = "case " + s.ex(e[1], sc, True) + "".join(" when %s then %s" % (s.ex(p, sc, True), s.ex(a, sc, True)) for p, a in lst(e[2]))
            for a in lst(e[3]): r += " else " + s.ex(a, sc, True)
            return r + " end" if top else "(" + r + " end)"
        if k == "agg":
            if e[1] == "count": return s.kw("count") + "(*)"
            return "%s(%s)" % (s.kw(e[1]), s.ex(e[2], sc, True))
        if k == "sub": return "(" + s.query(e[1]) + ")"
        if k == "rownum": return "row_number()"
        raise C.CheckError("expression %r" % (e,))
    def var(s, k): return ("@V%d" if s.rnd.random() < .15 else "@v%d") % k
    def prim(s, e, sc):
        r = s.ex(e, sc)
        return r if r[0] != "-" and not r[0] == "~" else "(" + r + ")"
    def cond(s, p, sc, top=True):
        k = p[0]
        if k == "cmp": return "%s %s %s" % (s.ex(p[2], sc, True), p[1], s.ex(p[3], sc, True))
        if k in ("like", "nlike"): return "%s %slike %s" % (s.ex(p[1], sc, True), "not " if k == "nlike" else "", s.ex(p[2], sc, True))
        if k in ("in", "nin"): return "%s %sin (%s)" % (s.ex(p[1], sc, True), "not " if k == "nin" else "", ", ".join(s.ex(a, sc, True) for a in lst(p[2])))
        if k in ("insub", "ninsub"): return "%s %sin (%s)" % (s.ex(p[1], sc, True), "not " if k == "ninsub" else "", s.query(p[2]))
        if k in ("isnull", "notnull"): return "%s is %snull" % (s.ex(p[1], sc, True), "not " if k == "notnull" else "")
        if k == "not":
            a = s.cond(p[1], sc)
            return "not (" + a + ")" if p[1][0] in ("and", "or", "not") or s.rnd.random() < .5 else "not " + a
        a, b = s.cond(p[1], sc), s.cond(p[2], sc)
        if k == "and":
            if p[1][0] == "or": a = "(" + a + ")"
            if p[2][0] in ("or", "and"): b = "(" + b + ")"
            return a + s.kw(" and ") + b
        if p[2][0] == "or": b = "(" + b + ")"
        return a + s.kw(" or ") + b
    def ref(s, r):
        return s.names[r[1] - 1] if r[0] == "t" else "(" + s.query(r[1]) + ")"
    def query(s, q, into=None):
        fr = lst(q["from"])
        al, cols = [], []
        for f in fr:
            s.n += 1
            al.append("s%d" % s.n)
            cols.append(s.cols(f[1]))
        if len(fr) == 1 and fr[0][1][0] == "t" and s.rnd.random() < .3: al[0] = None
        sc = ([a or s.names[fr[0][1][1] - 1] for a in al], cols)
        r = s.kw("select")
        if q["distinct"]: r += s.kw(" distinct")
        if q["top"] >= 0: r += " top %s" % q["top"] if s.rnd.random() < .5 else " top (%s)" % q["top"]
        sl = lst(q["sel"])
        items = []
        star = len(sl) == 1 and sl[0][0][0] == "star"
        if star: items.append("*")
        else:
            for e, n in sl:
                t = s.ex(e, sc, True) if e[0] != "col" else s.colname(e, sc, True)
                if e[0] == "col" and cols[e[1] - 1][e[2] - 1] == n: pass
                elif n: t += s.rnd.choice([" as ", " "]) + n
                items.append(t)
        r += " " + ", ".join(items)
        if into: r += " into " + into
        for i, f in enumerate(fr):
            a = " " + al[i] if al[i] else ""
            if i == 0: r += s.kw(" from ") + s.ref(f[1]) + a
            else:
                # the ON condition sees the sources up to this one
                on = s.cond(f[2], (sc[0][:i + 1], cols))
                r += s.kw(" left join " if f[0] == "left" else s.rnd.choice([" join ", " inner join "])) + s.ref(f[1]) + a + s.kw(" on ") + on
        for p in lst(q["where"]): r += s.kw(" where ") + s.cond(p, sc)
        g = lst(q["group"])
        if g: r += s.kw(" group by ") + ", ".join(s.ex(e, sc, True) for e in g)
        for p in lst(q["having"]): r += s.kw(" having ") + s.cond(p, sc)
        for u in lst(q["union"]): r += s.kw(" union all ") + s.query(u)
        o = lst(q["order"])
        if o:
            it = []
            names = [n for _, n in s.sel(q)]
            for how, x, d in o:
                t = s.ex(x, sc, True) if how == "e" else str(x) if how == "o" else names[x - 1]
                it.append(t + (" desc" if d else s.rnd.choice(["", " asc"])))
            r += s.kw(" order by ") + ", ".join(it)
        return r

def csvfield(t, d=","):
    if any(c in t for c in (d, '"', "\n", "\r")): return '"' + t.replace('"', '""') + '"'
    return t

def csvtext(tab, d=",", term="\n"):
    out = [d.join(lst(tab["n"]))]
    for row in lst(tab["r"]):
        out.append(d.join(csvfield(txt(v[1]), d) for v in lst(row)))
    return term.join(out) + term

def parse(t, d=",", term="\n"):
    """records of a delimited text"""
    rows, row, f, i, n = [], [], "", 0, len(t)
    if t == "": return []
    while i < n:
        c = t[i]
        if c == '"' and f == "":
            i += 1
            while i < n:
                if t[i] == '"':
                    if i + 1 < n and t[i + 1] == '"': f += '"'; i += 2; continue
                    i += 1; break
                f += t[i]; i += 1
            # text following the closing quote
            while i < n and not t.startswith(d, i) and not t.startswith(term, i): f += t[i]; i += 1
            if i >= n: row.append(f); rows.append(row); return rows + [["<unterminated>"]]
            continue
        if t.startswith(d, i): row.append(f); f = ""; i += len(d); continue
        if t.startswith(term, i): row.append(f); rows.append(row); row, f = [], ""; i += len(term); continue
        f += c; i += 1
    if f or row: row.append(f); rows.append(row + ["<unterminated>"])
    return rows

def expected(o):
    """header, blocks of rows"""
    hdr = list(lst(o["hdr"]))
    bl = [[[("" if v[0] == "n" else txt(v[1])) for v in lst(r)] for r in lst(b)] for b in lst(o["rows"])]
    return hdr, bl

def matches(rows, bl):
    i = 0
    for b in bl:
        part = rows[i:i + len(b)]
        if sorted(part) != sorted(b): return False
        i += len(b)
    return i == len(rows)

def dectext(vars):
    r = ""
    for k, v in enumerate(vars):
        ty = {"i": "int", "f": "float", "s": "varchar(100)"}[v["t"]]
        x = v["v"]
        if x[0] == "n": r += "declare @v%d %s; " % (k + 1, ty)
        else: r += "declare @v%d %s = %s; " % (k + 1, ty, str(x[1]) if x[0] == "i" else flt(x[1]) if x[0] == "f" else sqlstr(txt(x[1])))
    return r

def usesvar(q): return '"var"' in json.dumps(q)

def flavour(seed):
    """arguments which belong to the seed (FlBytes of SqlGen)"""
    return ["-b"] if seed % 8 == 7 else []

class Case:
    def __init__(s, h):
        s.seed, s.tabs, s.vars, s.q, s.o = h
        s.vars = lst(s.vars)
        s.files = {"t%d.csv" % (i + 1): csvtext(t) for i, t in enumerate(s.tabs)}
        s.sql = (dectext(s.vars) if usesvar(s.q) else "") + Ren(s.tabs, s.vars, s.seed).query(s.q)
    def used(s): return s.files

def judge(c, r):
    """None if the run agrees with the specification, else what disagrees"""
    st = c.o["st"]
    if r.crashed: return "the process ended abnormally: rc=%s sig=%s %s" % (r.rc, r.sig, C.brief(r.err)[:900])
    if st == "e":
        return None if r.rc != 0 else "expected failure, got success with %r" % r.out[:300]
    if r.rc != 0: return "expected success, got rc=%s %s" % (r.rc, r.err[:300])
    hdr, bl = expected(c.o)
    got = parse(r.out)
    if got[:1] != [hdr]: return "header: expected %r got %r" % (hdr, got[:1])
    if not matches(got[1:], bl): return "rows: expected %r got %r" % (bl, got[1:])
    return None

def run_cases(pool, cases, args=(), stdin=None, judge=judge, timeout=20):
    def f(srv, d, c):
        for n, t in c.files.items(): E.put(d, n, t)
        r = srv.run(d, ["fql", "-q"] + flavour(c.seed) + list(args) + ["-c", c.sql], timeout=timeout)
        return judge(c, r)
    return pool.map(f, cases)
