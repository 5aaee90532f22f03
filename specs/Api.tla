-------------------------------- MODULE Api --------------------------------
(* E13: the library handle.  State: the files (t, and o if it has been made), the
   variable given from outside, and the handle: the compiled script, the position in
   it, the variable @i, and - while a SELECT is stepped through - its rows and how
   many of them have been handed out.  A session is a sequence of calls; the log
   holds each call, what it returns and what is printed meanwhile.
   A value is <<"s", text>>, <<"i", number>> or <<"n">>. *)
EXTENDS Seeded
CONSTANTS Lo, Hi
VARIABLES sd, n, t, o, p, h, log
vars == <<sd, n, t, o, p, h, log>>
St(x) == <<"s", x>>
In(x) == <<"i", x>>
U == <<<<"x", 7>>, <<"y", 8>>, <<"q", 9>>>>
(* ------------------------------------------------------------ statements *)
Map(F(_), q) == [i \in 1..Len(q) |-> F(q[i])]
Idx(a) == CASE a = "q" -> 1 [] a = "x" -> 2 [] a = "y" -> 3 [] a = "z" -> 4
Less(q, r) == q < r
RECURSIVE SortBy(_, _)
\* rows sorted by the key in K: stable insertion
SortBy(q, key) ==
  IF Len(q) <= 1 THEN q
  ELSE LET r == SortBy(Front(q), key) x == Last(q) IN
       LET k == Cardinality({i \in 1..Len(r) : key[r[i]] <= key[x]}) IN SubSeq(r, 1, k) \o <<x>> \o SubSeq(r, k + 1, Len(r))
Keys(q, F(_)) == [x \in {q[i] : i \in 1..Len(q)} |-> F(x)]
Sorted(q, F(_)) == SortBy(q, Keys(q, F))
VOf(a) == IF \E i \in 1..3 : U[i][1] = a THEN In(U[CHOOSE i \in 1..3 : U[i][1] = a][2]) ELSE <<"n">>
TextOf(v) == IF v[1] = "i" THEN <<"si", v[2]>> ELSE v
\* a column of a file is text: <<"si", k>> is the text of k
T(k) == <<"si", k>>
DivT(a, b) == IF b > 0 THEN a \div b ELSE -(a \div (-b))
Firsts(q) == SelectSeq([i \in 1..Len(q) |-> IF \E j \in 1..(i - 1) : q[j] = q[i] THEN <<>> ELSE <<q[i]>>], LAMBDA x : x # <<>>)
Uniq(q) == [i \in 1..Len(Firsts(q)) |-> Firsts(q)[i][1]]
UpTo(q, k) == IF Len(q) <= k THEN q ELSE SubSeq(q, 1, k)
FailAt(q) == {i \in 1..Len(q) : q[i][2] = 2}
\* rows, or <<"fail", rows before>> wrapped in a record
Rows(k, tt, oo, i, pp) ==
  LET as == [x \in 1..Len(tt) |-> tt[x][1]] IN
  CASE k = "star" -> [x \in 1..Len(tt) |-> <<St(tt[x][1]), T(tt[x][2])>>]
    [] k = "ord" -> LET q == Sorted(tt, LAMBDA r : -r[2]) IN [x \in 1..Len(q) |-> <<St(q[x][1]), T(q[x][2])>>]
    [] k = "cnt" -> <<<<In(Len(tt))>>>>
    [] k = "var" -> LET q == SelectSeq(tt, LAMBDA r : r[2] > i) IN [x \in 1..Len(q) |-> <<In(i), St(q[x][1])>>]
    [] k = "grp" -> LET q == Sorted(Uniq(as), Idx) IN [x \in 1..Len(q) |-> <<St(q[x]), In(Cardinality({y \in 1..Len(as) : as[y] = q[x]}))>>]
    [] k = "top" -> LET q == UpTo(Sorted(tt, LAMBDA r : r[2]), 2) IN [x \in 1..Len(q) |-> <<In(q[x][2]), St(q[x][1])>>]
    [] k = "uni" -> LET q == Sorted(as \o <<"x", "y", "q">>, Idx) IN [x \in 1..Len(q) |-> <<St(q[x])>>]
    [] k = "sub" -> LET q == SelectSeq(tt, LAMBDA r : r[2] > 1) IN [x \in 1..Len(q) |-> <<T(q[x][2])>>]
    [] k = "none" -> <<>>
    [] k = "fail" -> LET m == IF FailAt(tt) = {} THEN Len(tt) ELSE (CHOOSE x \in FailAt(tt) : \A y \in FailAt(tt) : x <= y) - 1
                     IN [x \in 1..m |-> <<St(tt[x][1]), In(DivT(6, tt[x][2] - 2))>>]
    [] k = "join" -> LET q == Sorted(SelectSeq(as, LAMBDA a : VOf(a) # <<"n">>), LAMBDA a : VOf(a)[2]) IN [x \in 1..Len(q) |-> <<St(q[x]), T(VOf(q[x])[2])>>]
    [] k = "left" -> LET q == Sorted(as, Idx) IN [x \in 1..Len(q) |-> <<St(q[x]), IF VOf(q[x]) = <<"n">> THEN <<"n">> ELSE T(VOf(q[x])[2])>>]
    [] k = "dist" -> LET q == Sorted(Uniq(as), Idx) IN [x \in 1..Len(q) |-> <<St(q[x])>>]
    [] k = "inl" -> LET q == SelectSeq(as, LAMBDA a : VOf(a) # <<"n">>) IN [x \in 1..Len(q) |-> <<St(q[x])>>]
    [] k = "scal" -> LET mx == IF tt = <<>> THEN <<"n">> ELSE T(LET ns == {tt[x][2] : x \in 1..Len(tt)} IN CHOOSE m \in ns : \A y \in ns : y <= m)
                     IN <<<<mx>>>>
    [] k = "selo" -> [x \in 1..Len(oo[1]) |-> <<St(oo[1][x][1]), T(oo[1][x][2])>>]
    [] k = "imp" -> <<<<St(pp[1])>>>>
Fails(k, tt) == k \in {"fail", "updf"} /\ FailAt(tt) # {}
Cols(k) == CASE k \in {"star", "ord", "var", "grp", "top", "fail", "join", "left", "selo"} -> 2 [] OTHER -> 1
Selects == {"star", "ord", "cnt", "var", "grp", "top", "uni", "sub", "none", "fail", "join", "left", "dist", "inl", "scal", "selo", "imp"}
OpType(k) == CASE k \in Selects \cup {"into"} -> 3 [] k \in {"set", "decl"} -> 1 [] k = "if" -> 0 [] k = "while" -> 2 [] k = "del" -> 4 [] k \in {"upd", "updf"} -> 5 [] OTHER -> -1
(* ---------------------------------------------------------------- scripts *)
\* an item of a compiled script: <<kind, argument, next, next if the condition fails>>
Leaves == <<"star", "ord", "cnt", "var", "grp", "top", "uni", "sub", "none", "fail", "join", "left", "dist", "inl", "scal", "star", "ord", "upd", "upd", "del", "into", "into", "set", "selo", "imp", "updf", "star", "var">>
Lf(s) == At(s, Leaves)
\* shapes: the tree as a list of words for the renderer, and the items
Shape(s) == R(K(s, 1), 6)
Script(s) ==
  LET a == Lf(K(s, 2)) b == Lf(K(s, 3)) c == Lf(K(s, 4)) d == Lf(K(s, 5)) c0 == R(K(s, 6), 3) lim == R(K(s, 7), 4) IN
  CASE R(K(s, 8), 14) = 0 -> [ok |-> FALSE, shape |-> "bad", w |-> <<a>>, c0 |-> c0, lim |-> lim, code |-> <<>>]
    [] Shape(s) \in {0, 1} -> [ok |-> TRUE, shape |-> "seq", w |-> <<a>>, c0 |-> c0, lim |-> lim, code |-> <<<<"decl", c0, 2, 0>>, <<a, 0, 3, 0>>>>]
    [] Shape(s) = 2 -> [ok |-> TRUE, shape |-> "seq", w |-> <<a, b, c>>, c0 |-> c0, lim |-> lim, code |-> <<<<"decl", c0, 2, 0>>, <<a, 0, 3, 0>>, <<b, 0, 4, 0>>, <<c, 0, 5, 0>>>>]
    [] Shape(s) = 3 -> [ok |-> TRUE, shape |-> "if", w |-> <<a, b, c>>, c0 |-> c0, lim |-> lim,
                        code |-> <<<<"decl", c0, 2, 0>>, <<"if", lim, 3, 4>>, <<a, 0, 5, 0>>, <<b, 0, 5, 0>>, <<c, 0, 6, 0>>>>]
    [] OTHER -> [ok |-> TRUE, shape |-> "while", w |-> <<a, b, c>>, c0 |-> c0, lim |-> lim,
                 code |-> <<<<"decl", c0, 2, 0>>, <<"while", lim, 3, 6>>, <<"set", 0, 4, 0>>, <<a, 0, 5, 0>>, <<b, 0, 2, 0>>, <<c, 0, 7, 0>>>>]
\* can it be planned: a file that is read exists or is made before, the variable is there
Plannable(sc, oo, pp) == sc.ok /\ \A j \in 1..Len(sc.code) :
   /\ sc.code[j][1] = "selo" => (oo # <<>> \/ \E l \in 1..(j - 1) : sc.code[l][1] = "into")
   /\ sc.code[j][1] = "imp" => pp # <<>>
\* left open: reading a file that a statement which may be passed over would have made
Settled(sc, oo) == oo # <<>> \/ ~sc.ok \/ \A j \in 1..Len(sc.code) : sc.code[j][1] = "selo" =>
   LET ms == {l \in 1..(j - 1) : sc.code[l][1] = "into"} IN
   ms = {} \/ sc.shape = "seq" \/ (sc.shape = "while" /\ j = 5)
(* ----------------------------------------------------------------- handle *)
Idle == [code |-> <<>>, pos |-> 0, i |-> 0, rows |-> <<>>, at |-> -1, bad |-> FALSE]
Active(x) == IF x.code = <<>> THEN "nothing" ELSE x.code[x.pos][1]
\* the outcome of executing items until a condition holds: the whole world
World(tt, oo, pp, x) == [t |-> tt, o |-> oo, p |-> pp, h |-> x, out |-> <<>>, cnt |-> 0, fail |-> FALSE, open |-> FALSE]
Goto(w, pos) == IF pos > Len(w.h.code) THEN [w EXCEPT !.h = Idle, !.p = <<>>] ELSE [w EXCEPT !.h.pos = pos]
Failed(w) == [w EXCEPT !.h = Idle, !.p = <<>>, !.fail = TRUE]
One(w0) ==
  LET w == [w0 EXCEPT !.cnt = @ + 1] it == w.h.code[w.h.pos] k == it[1] IN
  CASE k = "decl" -> Goto([w EXCEPT !.h.i = it[2]], it[3])
    [] k = "set" -> Goto([w EXCEPT !.h.i = @ + 1], it[3])
    [] k = "if" -> Goto(w, IF w.h.i > it[2] THEN it[3] ELSE it[4])
    [] k = "while" -> Goto(w, IF w.h.i < it[2] THEN it[3] ELSE it[4])
    [] k = "upd" -> Goto([w EXCEPT !.t = [x \in 1..Len(@) |-> <<@[x][1], @[x][2] + 1>>]], it[3])
    [] k = "updf" -> IF Fails(k, w.t) THEN Failed(w) ELSE Goto([w EXCEPT !.t = [x \in 1..Len(@) |-> <<@[x][1], DivT(6, @[x][2] - 2) + 20 + @[x][2]>>]], it[3])
    [] k = "del" -> Goto([w EXCEPT !.t = SelectSeq(@, LAMBDA r : r[2] # 3)], it[3])
    [] k = "into" -> Goto([w EXCEPT !.o = <<w.t>>], it[3])
    [] OTHER -> LET r == Rows(k, w.t, w.o, w.h.i, w.p) IN
                IF Fails(k, w.t) THEN [Failed(w) EXCEPT !.open = TRUE] ELSE Goto([w EXCEPT !.out = Append(@, <<Cols(k), r>>)], it[3])
RECURSIVE Exec(_, _)
Exec(w, k) == IF k = 0 \/ w.h.code = <<>> \/ w.fail THEN w ELSE Exec(CHOOSE y \in {One(z) : z \in {w}} : TRUE, k - 1)
RECURSIVE Until(_)
Until(w) == IF w.fail \/ Active(w.h) \in Selects \cup {"nothing"} THEN w ELSE Until(CHOOSE y \in {One(z) : z \in {w}} : TRUE)
\* up to k rows of the active statement
Steps(w, k) ==
  LET kind == Active(w.h) IN
  IF kind = "nothing" THEN [w |-> w, r |-> <<"none">>]
  ELSE IF kind \notin Selects THEN [w |-> w, r |-> <<<<>>, "fail">>]
  ELSE LET w1 == IF w.h.at >= 0 THEN w ELSE [w EXCEPT !.h.at = 0, !.h.rows = Rows(kind, w.t, w.o, w.h.i, w.p), !.h.bad = Fails(kind, w.t)] IN
       LET left == Len(w1.h.rows) - w1.h.at nx == w1.h.code[w1.h.pos][3] IN
       IF k <= left THEN [w |-> [w1 EXCEPT !.h.at = @ + k], r |-> <<SubSeq(w1.h.rows, w1.h.at + 1, w1.h.at + k), "more">>]
       ELSE [w |-> IF w1.h.bad THEN [Failed(w1) EXCEPT !.fail = FALSE] ELSE Goto([w1 EXCEPT !.h.at = -1, !.h.rows = <<>>], nx),
             r |-> <<SubSeq(w1.h.rows, w1.h.at + 1, Len(w1.h.rows)), IF w1.h.bad THEN "fail" ELSE "end">>]
(* ---------------------------------------------------------------- sessions *)
Db(s) == [x \in 1..R(K(s, 1), 6) |-> <<At(K(s, 10 + x), <<"x", "y", "z", "x">>), x>>]
Init == sd \in Lo..Hi /\ n = 0 /\ t = <<>> /\ o = <<>> /\ p = <<>> /\ h = Idle /\ log = <<>>
Set(w) == t' = w.t /\ o' = w.o /\ p' = w.p /\ h' = w.h
Now == World(t, o, p, h)
Log(call, w, ret) == log' = Append(log, <<call, ret, w.out, IF w.open THEN 1 ELSE 0>>)
Fresh == IF h.code = <<>> THEN Now ELSE [Now EXCEPT !.h = Idle, !.p = <<>>]
Planned(w, sc) == [w EXCEPT !.h = [Idle EXCEPT !.code = sc.code, !.pos = 1]]
Rejected(w) == [w EXCEPT !.h = Idle, !.p = <<>>]
\* weights: what is likely depends on where the handle is
Ops == IF h.code = <<>> THEN <<"plans", "plans", "plans", "plans", "exec", "exec", "import", "fields", "optype", "step", "raw", "until", IF p = <<>> THEN "execall" ELSE "optype", "reset", "plans", "import", "free">>
       ELSE IF Active(h) \in Selects THEN <<"step", "step", "steps2", "steps2", "steps", "steps", "raw", "raw", "fields", "optype", "execn", "execall", "until", "reset", "plans", "exec", "steps", "free">>
       ELSE <<"until", "until", "until", "execn", "execn", "execall", "optype", "fields", "raw", "step", "reset", "plans", "until">>
Call(s) == \E op \in {At(K(s, 1), Ops)} : \E sc \in {LET a == Script(K(s, 2)) IN IF Settled(a, o) THEN a ELSE [Script(K(s, 2)) EXCEPT !.ok = FALSE, !.shape = "bad", !.code = <<>>]} : \E w0 \in {Now} :
  CASE op = "import" -> IF p # <<>> THEN UNCHANGED <<t, o, p, h, log>> ELSE \E v \in {At(K(s, 3), <<"x", "v w", "7">>)} : \E w \in {[w0 EXCEPT !.p = <<v>>]} : Set(w) /\ Log(<<"import", v>>, w, <<"ok">>)
    [] op = "plans" -> \E w1 \in {Fresh} : \E w \in {IF Plannable(sc, w1.o, w1.p) THEN Planned(w1, sc) ELSE Rejected(w1)} :
                       Set(w) /\ Log(<<"plans", sc>>, w, IF Plannable(sc, w1.o, w1.p) THEN <<"num", Len(sc.code)>> ELSE <<"fail">>)
    [] op = "exec" -> \E w1 \in {Fresh} : IF ~Plannable(sc, w1.o, w1.p) THEN \E w \in {Rejected(w1)} : Set(w) /\ Log(<<"exec", sc>>, w, <<"fail">>)
                      ELSE \E w2 \in {Planned(w1, sc)} : \E w \in {Exec(w2, 40)} : Set(w) /\ Log(<<"exec", sc>>, w, IF w.fail THEN <<"fail">> ELSE <<"ok">>)
    [] op \in {"step", "raw", "steps2", "steps"} -> \E r \in {Steps(w0, CASE op = "steps2" -> 2 [] op = "steps" -> 99 [] OTHER -> 1)} :
                      Set(r.w) /\ Log(<<op>>, w0, IF op = "raw" /\ r.r = <<"none">> THEN <<<<>>, "end">> ELSE r.r)
    [] op = "fields" -> Set(w0) /\ Log(<<op>>, w0, CASE Active(h) = "nothing" -> <<"num", 0>> [] Active(h) \in Selects -> <<"num", Cols(Active(h))>> [] OTHER -> <<"fail">>)
    [] op = "optype" -> Set(w0) /\ Log(<<op>>, w0, <<"num", OpType(Active(h))>>)
    [] op \in {"execn", "execall"} ->
         \E k \in {IF op = "execall" THEN 40 ELSE 1 + R(K(s, 4), 3)} :
         IF h.at >= 0 THEN Set(w0) /\ Log(<<op, k>>, w0, <<"fail">>)
         ELSE \E w \in {Exec(w0, k)} : Set(w) /\ Log(<<op, k>>, w, IF w.fail THEN <<"fail">> ELSE <<"ok">>)
    [] op = "until" -> \E w \in {Until(w0)} : Set(w) /\ Log(<<op>>, w, IF w.fail THEN <<"fail">> ELSE <<"num", w.cnt>>)
    [] op \in {"reset", "free"} -> \E w \in {Rejected(w0)} : Set(w) /\ Log(<<op>>, w, <<"ok">>)
Next == /\ n <= D + 1 /\ n' = n + 1 /\ UNCHANGED sd
        /\ IF n = 0 THEN \E d \in {Db(SeedOf(sd))} : t' = d /\ log' = <<<<"files", d>>>> /\ UNCHANGED <<o, p, h>>
           ELSE IF n <= D THEN Call(K(SeedOf(sd), 40 + n))
           ELSE Emit(Append(log, <<"end", t, o>>)) /\ UNCHANGED <<t, o, p, h, log>>
(* -------------------------------------------------------------------- laws *)
Laws == /\ h.code # <<>> => h.pos \in 1..Len(h.code)
        /\ h.at >= 0 => Active(h) \in Selects /\ h.at <= Len(h.rows)
        /\ h.code = <<>> => h = Idle
\* rows are handed out from the first to the last, none twice, none left out: what all calls since the first step have returned is the beginning of the result
StepLaw == [][h.at >= 0 /\ h'.at >= 0 => h'.rows = h.rows /\ h'.at >= h.at /\ t' = t /\ o' = o]_vars
=============================================================================
