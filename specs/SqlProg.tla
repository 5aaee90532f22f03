------------------------------- MODULE SqlProg -------------------------------
(* Scripts: statements that select, assign variables, branch, loop, change the
   rows of files and create files.  Every seed denotes one database and one
   script; each transition executes one statement.  The state is

     m.ctl   control stack, the innermost frame last:
             <<"seq", statements, saved>> the rest of a sequence; saved: the
                 variables a block has hidden with declarations of its own
             <<"loop", condition, block>>
     m.w     tables (of the files) and variables
     m.obs   what is in the files created so far (<<>>: no such file)
     m.outs  the results the completed SELECTs have written
     m.st    "run", "ok", "e" a statement failed, "u" outside this specification
     m.was   kind and target of the statement executed last
   Statements
     <<"sel", q>> <<"into", q, f>>
     <<"decl", v, <<e>> or <<>>>> <<"set", v, op, e>>
     <<"if", p, block, <<else block>> or <<>>>> <<"while", p, block>> <<"blk", block>>
     <<"upd", f, <<<<column, op, e>>, ...>>, from, <<p>> or <<>>>> <<"del", f, from, where>>
   op: "=" or the operator of a compound assignment.  Files 1..3 exist from the
   start, 4..7 are created by INTO.  Variables 1 2 3 (integer, float, text) and
   6 (integer) are declared by the script, 4 and 5 count loops, 7 8 9 are
   declared in blocks.                                                        *)
EXTENDS SqlGen
VARIABLE m
pvars == <<sd, res, m>>

(* ------------------------------------------------------------- execution *)
Push(x, f) == [x EXCEPT !.ctl = Append(@, f)]
Stop(x, st) == [x EXCEPT !.st = st]
Top(x) == Last(x.ctl)
\* the innermost sequence without its first statement
Adv(x) == [x EXCEPT !.ctl[Len(x.ctl)][2] = Tail(@)]
SetVar(x, k, v) == [x EXCEPT !.w.vars[k].v = v]
TooLong(v) == v[1] = "s" /\ Len(v[2]) > 100
BadSt(v) == IF v = UNK THEN "u" ELSE "e"
\* a value assigned to a variable takes the type of the variable
Assign(x, k, v0) ==
  LET v == To(v0, x.w.vars[k].t) IN
  IF Bad(v) THEN Stop(x, BadSt(v)) ELSE IF TooLong(v) THEN Stop(x, "u") ELSE [SetVar(x, k, v) EXCEPT !.was = <<"var", k>>]
Value(e, w) == IF BadE(e, w) THEN UNK ELSE Ev(e, w, <<>>)
\* v op= e
Compound(o, old, told, e, w, env) ==
  LET v == Ev(e, w, env) IN IF o = "=" THEN v ELSE Op2(o, OpType(o, told, T(e, w)), old, v)
\* the files a query reads
RECURSIVE Reads(_, _)
ReadsQ(q) == Reads("q", q)
Reads(k, x) ==
  CASE k = "q" -> (IF x.from = <<>> THEN {} ELSE UNION {Reads("r", x.from[j][2]) \cup Reads("ps", x.from[j][3]) : j \in 1..Len(x.from)})
                  \cup UNION {Reads("e", x.sel[j][1]) : j \in 1..Len(x.sel)} \cup Reads("ps", IF x.where = <<>> THEN <<>> ELSE x.where[1])
                  \cup UNION {Reads("q", x.union[j]) : j \in 1..Len(x.union)}
    [] k = "r" -> (IF x[1] = "t" THEN {x[2]} ELSE Reads("q", x[2]))
    [] k = "ps" -> (IF x = <<>> THEN {} ELSE Reads("p", x))
    [] k = "p" -> (CASE x[1] \in {"and", "or"} -> Reads("p", x[2]) \cup Reads("p", x[3])
                     [] x[1] = "not" -> Reads("p", x[2])
                     [] x[1] = "cmp" -> Reads("e", x[3]) \cup Reads("e", x[4])
                     [] x[1] \in {"insub", "ninsub"} -> Reads("e", x[2]) \cup Reads("q", x[3])
                     [] OTHER -> 1..7)
    [] OTHER -> (CASE x[1] \in {"col", "int", "str", "flt", "null", "var", "star", "rownum"} -> {} [] OTHER -> 1..7)
\* a file whose rows may come in any order, or whose text does not read back as the value, is not read again
Loose(q, x) == \E f \in {4, 5} : f \in ReadsQ(q) /\ x.amb[f]
LooseP(p, x) == \E f \in {4, 5} : x.amb[f] /\ f \in Reads("p", p)
LooseE(e, x) == \E f \in {4, 5} : x.amb[f] /\ f \in Reads("e", e)

Select(x, q) ==
  LET o == Observe(q, x.w) IN
  IF Loose(q, x) THEN Stop(x, "u")
  ELSE IF o.st # "ok" THEN Stop(x, o.st)
  ELSE [x EXCEPT !.outs = Append(@, [hdr |-> o.hdr, rows |-> o.rows]), !.was = <<"out">>]

\* null is written as an empty text
Cell(v) == IF IsNull(v) THEN S(<<>>) ELSE v
Into(x, q, f) ==
  LET o == Observe(q, x.w) r == RunQ(q, x.w) ty == QTypes(q, x.w)
      singles == \A k \in 1..Len(o.rows) : Len(o.rows[k]) = 1
      \* nulls of numeric columns, and records that are an empty line
      odd == \E k \in 1..Len(r.rows) : (\E c \in 1..Len(ty) : IsNull(r.rows[k][c]) /\ ty[c] # "s") \/ (Len(ty) = 1 /\ AsText(r.rows[k][1]) = <<>>)
      exists == f \in x.ex
  IN IF Loose(q, x) THEN Stop(x, "u")
     ELSE IF exists /\ ~x.ow THEN Stop(x, "e")
     ELSE IF o.st # "ok" THEN Stop(x, o.st)
     ELSE [x EXCEPT !.obs[f] = <<[hdr |-> o.hdr, rows |-> o.rows]>>, !.amb[f] = ~singles \/ odd, !.ex = @ \cup {f}, !.was = <<"file", f>>,
                    !.w.tabs[f].rows = [k \in 1..Len(r.rows) |-> [c \in 1..Len(r.rows[k]) |-> Cell(r.rows[k][c])]]]

\* the joined rows in which row k of the target takes part and the condition holds
Matches(x, fr, wh, w, row) ==
  LET j == Joins(Tail(fr), w, [st |-> "ok", rows |-> <<<<row>>>>, ord |-> "seq"])
      tv == [k \in 1..Len(j.rows) |-> IF wh = <<>> THEN "t" ELSE P(wh[1], w, j.rows[k])]
      ks == SelectSeq([k \in 1..Len(j.rows) |-> k], LAMBDA k : tv[k] = "t")
  IN [st |-> IF j.st # "ok" THEN j.st ELSE IF \E k \in 1..Len(tv) : tv[k] = "u" THEN "u" ELSE IF \E k \in 1..Len(tv) : tv[k] = "e" THEN "e" ELSE "ok",
      envs |-> [k \in 1..Len(ks) |-> j.rows[ks[k]]]]
Status(sts) == IF \E k \in 1..Len(sts) : sts[k] = "u" THEN "u" ELSE IF \E k \in 1..Len(sts) : sts[k] = "e" THEN "e" ELSE "ok"
FromLoose(x, fr) == \E k \in 1..Len(fr) : (fr[k][2][1] = "t" /\ fr[k][2][2] \in {4, 5} /\ x.amb[fr[k][2][2]]) \/ (fr[k][2][1] = "q" /\ Loose(fr[k][2][2], x))
\* what makes a statement with this FROM and WHERE unspecified or fail before any row is looked at
Prep(x, fr, wh, w) ==
  LET j == Joins(fr, w, [st |-> "ok", rows |-> <<>>, ord |-> "seq"]) IN
  IF FromLoose(x, fr) \/ j.st # "ok" \/ (\E k \in 1..Len(wh) : BadP(wh[k], w) \/ LooseP(wh[k], x)) \/ (\E k \in 1..Len(fr) : fr[k][3] # <<>> /\ BadP(fr[k][3], w)) THEN "u" ELSE "ok"
FileRow(x, f, row) == LET n == Len(x.w.tabs[f].names) IN [c \in 1..n |-> IF c <= Len(row) THEN row[c] ELSE S(<<>>)]
Delete(x, f, fr, wh) ==
  LET w == WithSt([Q0 EXCEPT !.from = fr], x.w) rows == w.tabs[f].rows
      pr == Prep(x, fr, wh, w)
      ms == [k \in 1..Len(rows) |-> Matches(x, fr, wh, w, rows[k])]
      st == Status([k \in 1..Len(rows) |-> ms[k].st])
      keep == SelectSeq([k \in 1..Len(rows) |-> k], LAMBDA k : ms[k].envs = <<>>)
      left == [k \in 1..Len(keep) |-> rows[keep[k]]]
  IN IF pr # "ok" THEN Stop(x, pr) ELSE IF st # "ok" THEN Stop(x, st)
     ELSE [x EXCEPT !.w.tabs[f].rows = left, !.was = <<"del", f>>,
                    !.obs[f] = IF @ = <<>> THEN @ ELSE <<[hdr |-> @[1].hdr, rows |-> [k \in 1..Len(left) |-> <<RowText(left[k])>>]]>>]
Update(x, f, sets, fr, wh) ==
  LET w == WithSt([Q0 EXCEPT !.from = fr], x.w) rows == w.tabs[f].rows
      pr == Prep(x, fr, wh, w)
      ms == [k \in 1..Len(rows) |-> Matches(x, fr, wh, w, rows[k])]
      st == Status([k \in 1..Len(rows) |-> ms[k].st])
      old(env, c) == IF c > Len(env[1]) THEN NULL ELSE env[1][c]
      new(env) == [j \in 1..Len(sets) |-> Compound(sets[j][2], old(env, sets[j][1]), w.tabs[f].types[sets[j][1]], sets[j][3], w, env)]
      texts(vs) == [j \in 1..Len(vs) |-> AsText(vs[j])]
      vals(k) == new(ms[k].envs[1])
      \* every match has its values computed
      all(k) == [i \in 1..Len(ms[k].envs) |-> new(ms[k].envs[i])]
      bad(k) == \E i \in 1..Len(all(k)) : AnyBad(all(k)[i])
      unk(k) == (\E i \in 1..Len(all(k)) : \E j \in 1..Len(sets) : all(k)[i][j] = UNK) \/ (~bad(k) /\ \E i \in 1..Len(all(k)) : texts(all(k)[i]) # texts(vals(k))) \/ (bad(k) /\ Len(all(k)) > 1)
      put(k) == LET row == FileRow(x, f, rows[k]) v == texts(vals(k)) IN
                [c \in 1..Len(row) |-> IF \E j \in 1..Len(sets) : sets[j][1] = c THEN S(v[CHOOSE j \in 1..Len(sets) : sets[j][1] = c]) ELSE row[c]]
      hit == {k \in 1..Len(rows) : ms[k].envs # <<>>}
  IN IF pr # "ok" \/ (\E j \in 1..Len(sets) : BadE(sets[j][3], w) \/ LooseE(sets[j][3], x)) THEN Stop(x, "u") ELSE IF st # "ok" THEN Stop(x, st)
     ELSE IF \E k \in hit : unk(k) THEN Stop(x, "u")
     ELSE IF \E k \in hit : bad(k) THEN Stop(x, "e")
     ELSE [x EXCEPT !.w.tabs[f].rows = [k \in 1..Len(rows) |-> IF k \in hit THEN put(k) ELSE rows[k]], !.was = <<"upd", f>>]

Cond(x, p) == IF BadP(p, x.w) \/ LooseP(p, x) THEN "u" ELSE P(p, x.w, <<>>)
Exec(x0, s) ==
  LET x == Adv(x0) IN
  CASE s[1] = "sel" -> Select(x, s[2])
    [] s[1] = "into" -> Into(x, s[2], s[3])
    [] s[1] = "decl" ->
         \* declared again in a block: the outer one comes back when the block ends
         (LET y == [x EXCEPT !.ctl[Len(x.ctl)][3] = Append(@, <<s[2], x.w.vars[s[2]].v>>)] IN
          IF s[3] = <<>> THEN [SetVar(y, s[2], NULL) EXCEPT !.was = <<"var", s[2]>>] ELSE IF LooseE(s[3][1], x) THEN Stop(x, "u") ELSE Assign(y, s[2], Value(s[3][1], [x.w EXCEPT !.vars[s[2]].v = UNK])))
    [] s[1] = "set" -> (IF BadE(s[4], x.w) \/ LooseE(s[4], x) THEN Stop(x, "u")
                        ELSE Assign(x, s[2], Compound(s[3], x.w.vars[s[2]].v, x.w.vars[s[2]].t, s[4], x.w, <<>>)))
    [] s[1] = "if" ->
         (LET c == Cond(x, s[2]) IN
          IF c \in {"e", "u"} THEN Stop(x, c)
          ELSE IF c = "t" THEN Push(x, <<"seq", s[3], <<>>>>)
          ELSE IF s[4] = <<>> THEN x ELSE Push(x, <<"seq", s[4][1], <<>>>>))
    [] s[1] = "while" -> Push(x, <<"loop", s[2], s[3]>>)
    [] s[1] = "blk" -> [x EXCEPT !.ctl[Len(x.ctl)][2] = s[2] \o @]
    [] s[1] = "upd" -> Update(x, s[2], s[3], s[4], s[5])
    [] OTHER -> Delete(x, s[2], s[3], s[4])
RECURSIVE Restore(_, _)
\* the first declaration in the block is the one that hid the outer variable
Restore(x, saved) == IF saved = <<>> THEN x ELSE Restore(SetVar(x, Last(saved)[1], Last(saved)[2]), Front(saved))
Step(x0) ==
  LET x == [x0 EXCEPT !.n = @ + 1, !.was = <<"ctl">>] f == Top(x) IN
  IF x.n > 90 THEN Stop(x, "u")
  ELSE IF f[1] = "loop" THEN
    (LET c == Cond(x, f[2]) IN
     CASE c \in {"e", "u"} -> Stop(x, c)
       [] c = "t" -> Push(x, <<"seq", f[3], <<>>>>)
       [] OTHER -> [x EXCEPT !.ctl = Front(@)])
  ELSE IF f[2] = <<>> THEN
    (LET y == [x EXCEPT !.ctl = Front(@)] IN
     IF y.ctl = <<>> THEN Stop(y, "ok") ELSE [Restore(y, f[3]) EXCEPT !.was = <<"pop", {f[3][k][1] : k \in 1..Len(f[3])}>>])
  ELSE LET y == Exec(x, f[2][1]) IN IF y.st = "run" THEN y ELSE [y EXCEPT !.was = <<"fail", f[2][1][1]>>]

(* ------------------------------------------------------------ generation *)
SetToSeqL(z) == SelectSeq(<<1, 2, 3, 4, 5, 6, 7, 8, 9>>, LAMBDA k : k \in z)
\* g: [w, top: outside blocks, loc: locals declared, dep: depth, cnt: counters in use, dv: variable 6 is declared]
GVars(s, g) == [g.w EXCEPT !.gv = <<At(K(s, 1), <<1, 1>> \o (IF g.cnt > 0 THEN <<4, 4>> ELSE <<>>) \o (IF g.cnt > 1 THEN <<5>> ELSE <<>>) \o (IF g.dv THEN <<6>> ELSE <<>>) \o (IF 7 \in g.loc THEN <<7, 7>> ELSE <<>>)),
                                   At(K(s, 2), IF 8 \in g.loc THEN <<2, 8>> ELSE <<2>>), At(K(s, 3), IF 9 \in g.loc THEN <<3, 9>> ELSE <<3>>)>>]
NoCols(w) == Sc(<<>>, w)
ShowVars(s, w) == LET v == NoCols(w) IN [Q0 EXCEPT !.sel = Named(s, <<<<"var", w.gv[1]>>, <<"var", w.gv[2]>>, <<"var", w.gv[3]>>>>, v)]
GSel(s, w) ==
  LET r == R(K(s, 1), 14) IN
  IF r < 5 THEN ShowVars(K(s, 2), w)
  ELSE IF r < 7 THEN Gen(K(s, 2), "expr", w)
  ELSE IF r < 9 THEN Gen(K(s, 2), "where", w)
  ELSE Gen(K(s, 2), At(K(s, 3), <<"where", "join", "group", "order", "distinct", "subq", "union">>), w)
\* an expression for a variable
GVal(s, k, w) == LET t == w.vars[k].t v == NoCols(w) self == <<"var", k>> IN
  IF Ch(K(s, 1), 1) THEN <<"null">>
  ELSE IF Ch(K(s, 1), 2) THEN GE(K(s, 2), 1, v)
  ELSE IF Ch(K(s, 5), 3) THEN GSub(K(s, 2), 0, v)
  ELSE IF t = "i" THEN (IF Ch(K(s, 3), 4) THEN <<"op", At(K(s, 4), <<"+", "-", "*">>), self, GI(K(s, 2), 0, v)>> ELSE GI(K(s, 2), 1, v))
  ELSE IF t = "f" THEN (IF Ch(K(s, 3), 4) THEN <<"op", At(K(s, 4), <<"+", "-">>), self, GF(K(s, 2), 0, v)>> ELSE GF(K(s, 2), 1, v))
  ELSE (IF Ch(K(s, 3), 4) THEN <<"op", "+", self, GS(K(s, 2), 0, v)>> ELSE GS(K(s, 2), 1, v))
\* what a declaration in a block gives the variable it hides another one with does not refer to itself
GInit(s, k, w) == LET t == w.vars[k].t v == NoCols([w EXCEPT !.gv[1] = IF @ = k THEN 4 ELSE @]) IN
  IF Ch(K(s, 1), 2) THEN <<"null">> ELSE IF t = "i" THEN GI(K(s, 2), 1, v) ELSE IF t = "f" THEN GF(K(s, 2), IF k = w.gv[2] THEN 0 ELSE 1, v) ELSE GS(K(s, 2), IF k = w.gv[3] THEN 0 ELSE 1, v)
GSet(s, g) ==
  LET w == GVars(K(s, 9), g)
      k == At(K(s, 1), <<1, 1, 2, 3, 3>> \o (IF g.dv THEN <<6>> ELSE <<>>) \o SetToSeqL(g.loc) \o SetToSeqL(g.loc))
      t == w.vars[k].t
      o == IF Ch(K(s, 2), 7) THEN "=" ELSE At(K(s, 3), IF t = "i" THEN <<"+", "-", "*", "%", "&", "|", "^", "/">> ELSE IF t = "f" THEN <<"+", "-", "/", "*">> ELSE <<"+">>)
      v == NoCols(w)
  IN <<"set", k, o, IF o = "=" THEN GVal(K(s, 4), k, w) ELSE IF o = "%" \/ o = "/" THEN (IF Ch(K(s, 5), 9) THEN <<"int", 1 + R(K(s, 6), 4)>> ELSE GI(K(s, 6), 1, v))
                    ELSE IF t = "i" THEN GI(K(s, 6), 1, v) ELSE IF t = "f" THEN GF(K(s, 6), 1, v) ELSE GS(K(s, 6), 1, v)>>
GCond(s, g) == LET w == GVars(K(s, 9), g) IN GP(K(s, 1), 1 + R(K(s, 2), 2), NoCols(w))
\* the target of UPDATE and DELETE, maybe joined with another file
GTarget(s, f, w) ==
  LET others == SelectSeq([k \in 1..Len(w.tabs) |-> k], LAMBDA k : k # f)
      fr1 == <<<<"from", <<"t", f>>, <<>>>>>>
      ref == <<"t", At(K(s, 2), others)>>
      f2 == Append(fr1, <<"join", ref, <<>>>>)
      v == Sc(f2, w)
      left == Ch(K(s, 3), 4)
      eq == JoinEq(K(s, 4), v, 1)
      on == IF Ch(K(s, 5), 8) THEN eq ELSE IF left THEN <<"and", eq, GP(K(s, 6), 0, v)>> ELSE GP(K(s, 6), 1, v)
  IN IF Ch(K(s, 1), 4) THEN Append(fr1, <<IF left THEN "left" ELSE "join", ref, on>>) ELSE fr1
Perm(s, n) == IF Ch(s, 6) THEN [k \in 1..n |-> k] ELSE [k \in 1..n |-> n + 1 - k]
GUpd(s, g) ==
  LET w == GVars(K(s, 9), g) f == 1 + R(K(s, 1), 3) fr == GTarget(K(s, 2), f, w) v == Sc(fr, w)
      n == Len(w.tabs[f].names) ns == Min2(n, 1 + R(K(s, 3), 2)) c0 == R(K(s, 4), n)
      cols == [j \in 1..ns |-> ((c0 + j - 1) % n) + 1]
      kd(c) == w.tabs[f].kinds[c]
      ex(j) == LET c == cols[j] x == K(s, 20 + j) r == R(K(x, 1), 10) IN
               IF r = 0 THEN <<"null">>
               ELSE IF r < 4 THEN ColOr(K(x, 2), v, {kd(c)}, <<"col", 1, c>>)
               ELSE IF kd(c) = "n" THEN GI(K(x, 3), 1, v) ELSE IF kd(c) = "f" THEN GF(K(x, 3), 1, v) ELSE GS(K(x, 3), 1, v)
      comp(j) == Len(fr) = 1 /\ Ch(K(s, 40 + j), 3) 
      one(j) == IF comp(j) THEN (IF kd(cols[j]) = "w" THEN <<cols[j], "+", GS(K(s, 50 + j), 0, v)>>
                                 ELSE <<cols[j], At(K(s, 45 + j), <<"+", "-", "*">>), IF kd(cols[j]) = "n" THEN GIT(K(s, 50 + j), 0, v) ELSE GF(K(s, 50 + j), 0, v)>>)
                ELSE <<cols[j], "=", ex(j)>>
  IN <<"upd", f, [j \in 1..ns |-> one(j)], fr, IF Ch(K(s, 5), 9) THEN <<GP(K(s, 6), 1 + R(K(s, 7), 2), v)>> ELSE <<>>>>
GDel(s, g) ==
  LET w == GVars(K(s, 9), g) f == 1 + R(K(s, 1), IF Len(w.tabs) > 3 THEN 4 ELSE 3) fr == GTarget(K(s, 2), f, w) v == Sc(fr, w)
  IN <<"del", f, fr, IF Ch(K(s, 5), 11) THEN <<GP(K(s, 6), 1 + R(K(s, 7), 2), v)>> ELSE <<>>>>
\* statements which find something else each time the loop that counts with variable c comes to them
GLoop(s, c, g) ==
  LET w == [g.w EXCEPT !.gv[1] = c]
      f == 1 + R(K(s, 1), 3)
      fr == <<<<"from", <<"t", f>>, <<>>>>>>
      v == Sc(fr, w)
      n == ColOr(K(s, 2), v, {"n"}, <<"col", 1, 1>>)
      wh == <<"cmp", At(K(s, 3), <<"=", "<", ">=", "<>", ">">>), IF Ch(K(s, 4), 6) THEN n ELSE <<"cast", n, "int", 0>>, <<"var", c>>>>
      cnt(cs) == <<"sub", [Q0 EXCEPT !.from = fr, !.where = cs, !.sel = <<<<IF Ch(K(s, 5), 6) THEN <<"agg", "count", <<"int", 1>>>> ELSE <<"agg", At(K(s, 6), <<"sum", "max", "min">>), <<"cast", n, "int", 0>>>>, "m1">>>>]>>
      one(e) == <<"sel", [Q0 EXCEPT !.sel = <<<<<<"var", c>>, "i">>, <<e, "m">>>>]>>
      fr2 == <<<<"from", <<"t", 1 + R(K(s, 7), 3)>>, <<>>>>>> v2 == Sc(fr2, w)
      some(cs) == LET n2 == ColOr(K(s, 8), v2, {"n"}, <<"col", 1, 1>>) IN
                  <<"sel", [AllCols(K(s, 9), fr2, w) EXCEPT !.where = <<IF Ch(K(s, 10), 6) THEN <<"cmp", At(K(s, 11), Ops), n2, cnt(cs)>> ELSE <<At(K(s, 11), <<"insub", "ninsub">>), n2, cnt(cs)[2]>>>>]>>
      show(cs) == IF Ch(K(s, 12), 6) THEN one(cnt(cs)) ELSE some(cs)
      r == R(K(s, 13), IF Prof = "files" THEN 8 ELSE 5)
  IN CASE r < 2 -> <<show(<<wh>>)>>
       [] r = 2 -> <<<<"set", 1, "=", cnt(<<wh>>)>>, show(<<wh>>)>>
       [] r = 3 -> <<<<"sel", WithTop(K(s, 14), Ordered(K(s, 15), [AllCols(K(s, 9), fr, w) EXCEPT !.where = <<wh>>], w))>>>>
       [] r = 4 -> <<<<"if", <<"cmp", At(K(s, 11), Ops), cnt(<<wh>>), <<"int", R(K(s, 14), 3)>>>>, <<one(<<"int", 1>>)>>, <<>>>>>>
       [] r = 5 -> <<<<"del", f, fr, <<wh>>>>, show(IF Ch(K(s, 14), 6) THEN <<>> ELSE <<wh>>)>>
       [] r = 6 -> <<<<"upd", f, <<<<n[3], "=", <<"op", "+", <<"var", c>>, n>>>>>>, fr, IF Ch(K(s, 14), 8) THEN <<wh>> ELSE <<>>>>, show(IF Ch(K(s, 15), 6) THEN <<>> ELSE <<wh>>)>>
       [] OTHER -> <<show(<<>>), <<"del", f, fr, <<wh>>>>>>
\* a query whose result is stored in a file
GInto(s, w) ==
  LET fr == From1(K(s, 3), w, 0)
      p == Plain(K(s, 2), fr, w, 1 + R(K(s, 4), 3), 1)
      r == R(K(s, 1), 10)
  IN CASE r < 4 -> WithWhere(K(s, 5), p, 1, w)
       [] r < 6 -> WithTop(K(s, 6), Ordered(K(s, 5), p, w))
       [] r = 6 -> WithDistinct(p)
       [] r = 7 -> Grouped(K(s, 5), fr, w)
       [] r = 8 -> [p EXCEPT !.union = <<[p EXCEPT !.where = <<GP(K(s, 5), 1, Sc(fr, w))>>]>>]
       [] OTHER -> [Plain(K(s, 2), AddJoins(K(s, 5), fr, 1, 0, w), w, 2, 0) EXCEPT !.top = -1]
\* TLC computes the arguments of an operator again wherever they are used: bind them to values
RECURSIVE GStmts(_, _, _)
\* n statements
GStmts(s0, n, g0) == CHOOSE r \in {
  IF n = 0 THEN <<>>
  ELSE
  LET x == K(s, 1) r == R(K(x, 1), 20)
      w == GVars(K(x, 2), g)
      inner(y, gg) == GStmts(y, 1 + R(K(y, 90), 3), [gg EXCEPT !.top = FALSE, !.dep = @ + 1, !.own = {}])
      rest(g2) == GStmts(K(s, 2), n - 1, g2)
      files == Prof = "files"
  IN IF ~g.top /\ r = 0 /\ {7, 8, 9} \ g.own # {} THEN
       \* each local once per block
       (LET k == At(K(x, 3), SetToSeqL({7, 8, 9} \ g.own)) IN
        <<<<"decl", k, IF Ch(K(x, 4), 8) THEN <<GInit(K(x, 5), k, w)>> ELSE <<>>>>>> \o rest([g EXCEPT !.loc = @ \cup {k}, !.own = @ \cup {k}]))
     ELSE IF g.top /\ r = 0 /\ ~g.dv THEN <<<<"decl", 6, IF Ch(K(x, 4), 8) THEN <<GInit(K(x, 5), 1, w)>> ELSE <<>>>>>> \o rest([g EXCEPT !.dv = TRUE])
     ELSE IF ~g.top /\ r = 1 /\ {1, 2, 3} \cap g.own = {} THEN
       (LET k == At(K(x, 3), <<1, 2, 3>>) IN <<<<"decl", k, IF Ch(K(x, 4), 6) THEN <<GInit(K(x, 5), k, w)>> ELSE <<>>>>>> \o rest([g EXCEPT !.own = @ \cup {k}]))
     ELSE IF r < (IF files THEN 4 ELSE 6) THEN <<GSet(K(x, 3), g)>> \o rest(g)
     ELSE IF r < (IF files THEN 6 ELSE 10) THEN <<<<"sel", GSel(K(x, 3), w)>>>> \o rest(g)
     ELSE IF r < (IF files THEN 7 ELSE 13) /\ g.dep < 3 THEN
       <<<<"if", GCond(K(x, 3), g), inner(K(x, 4), g), IF Ch(K(x, 5), 7) THEN <<inner(K(x, 6), g)>> ELSE <<>>>>>> \o rest(g)
     ELSE IF r < (IF files THEN 8 ELSE 16) /\ g.cnt < 2 /\ g.dep < 3 THEN
       (LET c == 4 + g.cnt lim == 1 + R(K(x, 7), 3)
            t0 == IF Ch(K(x, 8), 8) THEN <<"cmp", "<", <<"var", c>>, <<"int", lim>>>> ELSE <<"not", <<"cmp", ">=", <<"var", c>>, <<"int", lim>>>>>>
            cond == IF Ch(K(x, 9), 4) THEN <<"and", t0, GCond(K(x, 3), g)>> ELSE t0
            own == inner(K(x, 4), [g EXCEPT !.cnt = @ + 1])
            body == IF Ch(K(x, 12), 5) THEN (IF Ch(K(x, 13), 6) THEN GLoop(K(x, 14), c, g) \o own ELSE GLoop(K(x, 14), c, g)) ELSE own
            inc == <<<<"set", c, "+", <<"int", 1>>>>>>
        IN <<<<"set", c, "=", <<"int", 0>>>>, <<"while", cond, IF Ch(K(x, 10), 6) THEN inc \o body ELSE body \o inc>>>> \o rest(g))
     ELSE IF r < (IF files THEN 9 ELSE 17) /\ g.dep < 3 THEN <<<<"blk", GStmts(K(x, 4), 1 + R(K(x, 5), 2), [g EXCEPT !.dep = @ + 1, !.top = FALSE, !.own = 1..9])>>>> \o rest(g)
     ELSE IF files \/ r = 18 THEN (IF Ch(K(x, 11), 7) THEN <<GUpd(K(x, 3), g)>> ELSE <<GDel(K(x, 3), g)>>) \o rest(g)
     ELSE <<<<"sel", GSel(K(x, 3), w)>>>> \o rest(g)
  : s \in {s0}, g \in {g0}} : TRUE
\* the file a query will make
Made(f, q, w) == LET ns == Sel(q, WithSt(q, w)) ty == QTypes(q, w) IN
  [names |-> [k \in 1..Len(ns) |-> ns[k][2]], types |-> ty, kinds |-> [k \in 1..Len(ty) |-> KindOfT(ty[k])], rows |-> <<>>]
None == [names |-> <<>>, types |-> <<>>, kinds |-> <<>>, rows |-> <<>>]
PWorld(n) == LET w == World(n) IN [w EXCEPT !.vars = @ \o <<[t |-> "i", v |-> I(0)], [t |-> "i", v |-> I(0)], [t |-> "i", v |-> NULL], [t |-> "i", v |-> NULL], [t |-> "f", v |-> NULL], [t |-> "s", v |-> NULL]>>]
\* the script of a seed, the world with all its files, and whether files may be overwritten
One(z) == CHOOSE r \in z : TRUE
GProg(s0, w00) ==
  One({One({One({One({One({
  LET files == Prof = "files"
      i4 == Len(w4.tabs) > 3
      i5 == Len(w5.tabs) > 4
      g0 == [w |-> w0, top |-> TRUE, loc |-> {}, own |-> {}, dep |-> 0, cnt |-> 0, dv |-> FALSE]
      g4 == [g0 EXCEPT !.w = w4] g5 == [g0 EXCEPT !.w = w5]
      r == R(K(s, 5), IF files THEN 10 ELSE 20)
      into(x, f) == <<<<"into", GInto(x, w0), f>>>>
      special == CASE r = 0 -> <<<<"if", GCond(K(s, 6), g5), into(K(s, 7), 6), <<into(K(s, 8), 7)>>>>>>
                   [] r = 1 -> <<<<"set", 4, "=", <<"int", 0>>>>, <<"while", <<"cmp", "<", <<"var", 4>>, <<"int", 1 + R(K(s, 6), 2)>>>>, into(K(s, 7), 6) \o <<<<"sel", ShowVars(K(s, 8), w0)>>, <<"set", 4, "+", <<"int", 1>>>>>>>>>>
                   [] r = 2 -> into(K(s, 7), 6)
                   [] OTHER -> <<>>
      \* a file that exists already
      tail == IF R(K(s, 9), 12) = 0 THEN <<<<"into", GInto(K(s, 10), w0), 1 + R(K(s, 11), 3)>>>> ELSE <<>>
      ow == Ch(K(s, 12), 4)
      all(t) == [k \in 1..7 |-> IF k <= Len(t) THEN t[k] ELSE None]
  IN [body |-> GStmts(K(s, 20), 1 + R(K(s, 21), 3), g0) \o (IF i4 THEN <<<<"into", q4, 4>>>> ELSE <<>>) \o GStmts(K(s, 22), IF i4 THEN 1 + R(K(s, 23), 3) ELSE 0, g4)
               \o (IF i5 THEN <<<<"into", q5, 5>>>> ELSE <<>>) \o special \o GStmts(K(s, 24), IF files THEN R(K(s, 25), 3) ELSE 1 + R(K(s, 25), 3), g5) \o <<<<"sel", ShowVars(K(s, 26), w0)>>>> \o tail,
      ow |-> ow, w |-> [w0 EXCEPT !.tabs = all(w5.tabs)]]
  : w5 \in {IF Len(w4.tabs) > 3 /\ Ch(K(s, 3), 4) THEN [w4 EXCEPT !.tabs = Append(@, Made(5, q5, w4))] ELSE w4}})
  : q5 \in {GInto(K(s, 4), w4)}})
  : w4 \in {IF Ch(K(s, 1), IF Prof = "files" THEN 7 ELSE 3) THEN [w0 EXCEPT !.tabs = Append(@, Made(4, q4, w0))] ELSE w0}})
  : q4 \in {GInto(K(s, 2), w0)}})
  : s \in {s0}, w0 \in {w00}})
\* two declarations of variable 6 (one per part) are not one script
RECURSIVE Decls(_)
Decls(b) == IF b = <<>> THEN 0 ELSE (IF b[1][1] = "decl" /\ b[1][2] = 6 THEN 1 ELSE 0) + Decls(Tail(b))
(* what is rejected before anything is executed: storing into a file that exists *)
RECURSIVE Intos(_)
Intos(b) == IF b = <<>> THEN {} ELSE (CASE b[1][1] = "into" -> {b[1][3]} [] b[1][1] = "if" -> Intos(b[1][3]) \cup (IF b[1][4] = <<>> THEN {} ELSE Intos(b[1][4][1]))
                                        [] b[1][1] = "while" -> Intos(b[1][3]) [] b[1][1] = "blk" -> Intos(b[1][2]) [] OTHER -> {}) \cup Intos(Tail(b))
Rejected(p) == ~p.ow /\ \E f \in Intos(p.body) : f <= 3
\* literals and subqueries that have no value make a script fail before it starts or when it gets there
RECURSIVE BadBlk(_, _)
BadBlk(b, w) == b # <<>> /\ \E s \in {b[1]} : (
  CASE s[1] \in {"sel", "into"} -> BadQ(s[2], w)
    [] s[1] = "decl" -> s[3] # <<>> /\ BadE(s[3][1], w)
    [] s[1] = "set" -> BadE(s[4], w)
    [] s[1] = "if" -> BadP(s[2], w) \/ (\E z \in {s[3]} \cup Rng(s[4]) : BadBlk(z, w))
    [] s[1] = "while" -> BadP(s[2], w) \/ BadBlk(s[3], w)
    [] s[1] = "blk" -> BadBlk(s[2], w)
    [] OTHER -> (LET fr == IF s[1] = "upd" THEN s[4] ELSE s[3] wh == IF s[1] = "upd" THEN s[5] ELSE s[4] v == WithSt([Q0 EXCEPT !.from = fr], w) IN
                 (s[1] = "upd" /\ \E j \in 1..Len(s[3]) : BadE(s[3][j][3], v)) \/ (\E k \in 1..Len(wh) : BadP(wh[k], v)) \/ (\E k \in 1..Len(fr) : fr[k][3] # <<>> /\ BadP(fr[k][3], v)))
  ) \/ (b # <<>> /\ BadBlk(Tail(b), w))

(* ------------------------------------------------------------- behaviours *)
Start(p) == [ctl |-> <<<<"seq", p.body, <<>>>>>>, w |-> p.w, obs |-> [f \in 1..7 |-> <<>>], amb |-> [f \in 1..7 |-> FALSE], ex |-> {1, 2, 3}, ow |-> p.ow, outs |-> <<>>, n |-> 0,
             st |-> IF Decls(p.body) > 1 \/ BadBlk(p.body, p.w) THEN "u" ELSE IF Rejected(p) THEN "e" ELSE "run", was |-> <<"start">>]
PInit == sd \in Lo..Hi /\ res = <<>> /\ m = <<>>
Load(z) == /\ m = <<>> /\ UNCHANGED sd
        /\ \E p \in {GProg(K(SeedOf(sd), 5), PWorld(sd))} : m' = Start(p) /\ res' = <<"on", p>>
Do(z) == /\ m # <<>> /\ m.st = "run" /\ \E y \in {Step(m)} : m' = y
      /\ UNCHANGED <<sd, res>>
Fin(z) == /\ m # <<>> /\ m.st # "run" /\ res[1] = "on" /\ UNCHANGED <<sd, m>>
       /\ res' = <<"done">>
       /\ LET p == res[2] IN
          Emit(<<sd, [k \in 1..7 |-> [n |-> p.w.tabs[k].names, r |-> p.w.tabs[k].rows]], p.w.vars, [body |-> p.body, ow |-> p.ow],
                 [st |-> m.st, n |-> m.n, outs |-> m.outs, at |-> IF m.was[1] = "fail" THEN m.was[2] ELSE "", tabs |-> [k \in 1..3 |-> [n |-> m.w.tabs[k].names, r |-> m.w.tabs[k].rows]], obs |-> m.obs]>>)
PNext == <<Load(0) \/ Do(0) \/ Fin(0)>>_pvars
(* ------------------------------------------------------------- properties *)
\* a script that has run to its end has left every block; one that failed stays where it is
PInv == m = <<>> \/ (/\ m.st \in {"run", "ok", "e", "u"}
                     /\ (m.st = "ok") = (m.ctl = <<>>)
                     /\ \A f \in 4..7 : (f \in m.ex) = (m.obs[f] # <<>>))
Running == m # <<>> /\ m.st = "run" /\ m' # <<>>
\* results that are written stay, one statement adds at most one
Outs == Running => IsPre(m.outs, m'.outs) /\ Len(m'.outs) <= Len(m.outs) + 1
\* a statement changes its target and nothing else; a statement that fails changes nothing
Target == Running =>
  LET t == m'.was IN
  /\ \A f \in 1..7 : m'.w.tabs[f] # m.w.tabs[f] => t \in {<<"file", f>>, <<"upd", f>>, <<"del", f>>}
  /\ \A v \in 1..9 : m'.w.vars[v] # m.w.vars[v] => t = <<"var", v>> \/ (t[1] = "pop" /\ v \in t[2])
  /\ \A v \in 1..9 : m'.w.vars[v].t = m.w.vars[v].t
  /\ (m'.st \in {"e", "u"} => m'.w = m.w /\ m'.outs = m.outs /\ m'.ex = m.ex)
  /\ m.ex \subseteq m'.ex
\* UPDATE keeps the number of rows, DELETE keeps a subsequence of the rows
RECURSIVE SubSeqOf(_, _)
SubSeqOf(a, b) == IF a = <<>> THEN TRUE ELSE IF b = <<>> THEN FALSE ELSE IF a[1] = b[1] THEN SubSeqOf(Tail(a), Tail(b)) ELSE SubSeqOf(a, Tail(b))
Rows == Running =>
  /\ (m'.was[1] = "upd" => Len(m'.w.tabs[m'.was[2]].rows) = Len(m.w.tabs[m'.was[2]].rows))
  /\ (m'.was[1] = "del" => SubSeqOf(m'.w.tabs[m'.was[2]].rows, m.w.tabs[m'.was[2]].rows))
POuts == [][Outs]_m
PTarget == [][Target]_m
PRows == [][Rows]_m
=============================================================================
