------------------------------- MODULE SqlGen -------------------------------
(* Databases and queries for the specification Sql: every seed denotes one
   database and one query of a profile.  TLC starts from every seed in Lo..Hi,
   takes the step "run the query", checks the laws of the specification on the
   result and writes <<seed, tables, variables, query, observation>>. *)
EXTENDS Sql
CONSTANTS Prof, Lo, Hi,
          Big \* 0, or the least number of rows of the tables
VARIABLES sd, res
vars == <<sd, res>>
(* --------------------------- numbers derived from a seed, a pair of residues *)
SeedOf(n) == <<(n * 7919 + 13) % 65521, (n \div 7 + (n * 104) + 31) % 65519>>
K(t, i) == CHOOSE r \in {<<(((s[1] * 31337) % 65521) + (s[2] % 1009) * 17 + i * 4099) % 65521, (((s[2] * 30011) % 65519) + (s[1] % 2003) * 13 + i * 7919 + 5) % 65519>> : s \in {t}} : TRUE
R(s, n) == (((s[1] * 7) + s[2] * 3 + (s[1] \div 16)) % 61169) % n
At(s, q) == q[R(s, Len(q)) + 1]
\* true in x of 12 cases
Ch(s, x) == R(s, 12) < x
(* ------------------------------------------------------------------ data *)
\* what the seed is about: texts with characters that mean something to a regular expression,
\* texts with characters of several bytes (characters counted, bytes counted), other numbers
FlMeta == sd % 8 \in {4, 5}
FlUtf == sd % 8 \in {6, 7}
FlBytes == sd % 8 = 7
FlNum == (sd \div 8) % 2 = 1
Words0 == <<<<120>>, <<88>>, <<120, 32>>, <<121>>, <<97, 98>>, <<65, 98, 99>>, <<>>, <<98>>, <<49, 48>>, <<37>>, <<97, 95, 98>>, <<120, 121>>, <<121, 32, 32>>>>
WordsM == <<<<97, 46, 98>>, <<97, 88, 98>>, <<97, 124, 98>>, <<40, 97, 41>>, <<97, 42>>, <<97, 97>>, <<97, 43>>, <<98, 63>>, <<94, 97>>, <<97, 36>>, <<97>>, <<92>>, <<97, 92, 98>>, <<123, 49, 125>>, <<97, 93>>, <<34, 113, 34>>, <<97, 44, 98>>, <<105, 116, 39, 115>>, <<97, 10, 98>>, <<98>>, <<124>>, <<>>>>
WordsU == <<<<195, 169>>, <<226, 130, 172>>, <<120, 226, 130, 172, 121>>, <<97, 195, 169>>, <<195, 169, 98>>, <<240, 159, 152, 128>>, <<195, 137>>, <<120>>, <<195, 169, 32>>, <<88>>, <<>>, <<121, 226, 130, 172, 195, 169>>, <<195, 169, 226, 130, 172, 240, 159, 152, 128, 120>>, <<120, 195, 169>>>>
Words == IF FlMeta THEN WordsM ELSE IF FlUtf THEN WordsU ELSE Words0
Nums1 == <<<<48>>, <<45, 49>>, <<48>>, <<45, 51>>, <<45, 49, 48>>, <<45, 50>>, <<49>>, <<48>>, <<45, 55>>, <<48, 48>>, <<45, 52>>, <<53>>>>
Flts1 == <<<<48, 46, 50, 53>>, <<48, 46, 53>>, <<48, 46, 55, 53>>, <<49, 46, 50, 53>>, <<49, 46, 55, 53>>, <<45, 48, 46, 53>>, <<45, 48, 46, 50, 53>>, <<48>>, <<48, 46, 49, 50, 53>>, <<49, 46, 53>>, <<45, 49, 46, 53>>, <<45, 49, 46, 50, 53>>>>
Nums0 == <<<<48>>, <<49>>, <<50>>, <<51>>, <<49, 48>>, <<45, 50>>, <<55>>, <<48, 50>>, <<50>>, <<49>>, <<45, 49>>, <<57, 57>>>>
Nums == IF FlNum THEN Nums1 ELSE Nums0
Flts0 == <<<<49, 46, 53>>, <<50, 46, 53>>, <<48, 46, 50, 53>>, <<45, 49, 46, 53>>, <<50>>, <<49, 48, 46, 55, 53>>, <<51>>, <<49, 46, 53, 48>>>>
Flts == IF FlNum THEN Flts1 ELSE Flts0
\* many different values, a few of them long
BigVal(s, kd) == IF kd = "n" THEN IText(R(K(s, 1), 40) - 5)
                 ELSE IF kd = "f" THEN FText((R(K(s, 1), 60) - 10) * 16)
                 ELSE LET r == R(K(s, 1), 30) IN
                      IF r = 0 THEN Rep(98 + R(K(s, 2), 2), 1 + R(K(s, 3), 300)) ELSE IF r < 4 THEN At(s, Words)
                      ELSE <<97 + R(K(s, 2), 5), 65 + (32 * R(K(s, 4), 2)) + R(K(s, 3), 5)>>
Val(s, kd) == IF Big > 0 THEN BigVal(s, kd) ELSE IF kd = "n" THEN At(s, Nums) ELSE IF kd = "f" THEN At(s, Flts) ELSE At(s, Words)
GRow(s, kds) ==
  LET full == [c \in 1..Len(kds) |-> S(Val(K(s, c), kds[c]))]
      n == IF Ch(K(s, 90), 2) THEN R(K(s, 91), Len(kds)) + 1 ELSE Len(kds)
      n2 == IF n = 1 /\ full[1] = S(<<>>) THEN Min2(2, Len(kds)) ELSE n
  IN SubSeq(full, 1, n2)
Tab(s, names, kds, mx) == [names |-> names, types |-> Rep("s", Len(names)), kinds |-> kds,
                       rows |-> [k \in 1..(IF Big > 0 THEN Big + R(K(s, 1), 1 + (Big \div 4)) ELSE R(K(s, 1), mx + 1)) |-> GRow(K(s, 10 + k), kds)]]
DB(s) == LET m == IF Prof = "join" THEN 4 ELSE 6 IN
         <<Tab(K(s, 1), <<"a", "b", "c">>, <<"w", "n", "f">>, m), Tab(K(s, 2), <<"k", "v">>, <<"w", "n">>, m), Tab(K(s, 3), <<"b", "a", "d">>, <<"n", "w", "n">>, m)>>
Vs(s) == <<[t |-> "i", v |-> IF Ch(K(s, 1), 3) THEN NULL ELSE I(R(K(s, 2), 7) - 2)],
           [t |-> "f", v |-> IF Ch(K(s, 3), 3) THEN NULL ELSE F((R(K(s, 4), 7) - 2) * 32 + 32 * 32)],
           [t |-> "s", v |-> IF Ch(K(s, 5), 3) THEN NULL ELSE S(At(K(s, 6), Words))]>>
(* ----------------------------------------------------------- expressions *)
\* w.gv the variables used for an integer, a float, a text
\* w.kd[s][c] the kind of a column: n text of an integer, f text of a decimal, w any text, i integer, d float
ColsOf(w, kinds) == Concat([s \in 1..Len(w.kd) |-> Concat([c \in 1..Len(w.kd[s]) |-> IF w.kd[s][c] \in kinds THEN <<<<"col", s, c>>>> ELSE <<>>])])
ColOr(s, w, kinds, e) == LET cs == ColsOf(w, kinds) IN IF cs = <<>> THEN e ELSE At(s, cs)
ILit(s) == LET k == R(K(s, 1), 14) - 3 IN IF k < 0 THEN <<"neg", <<"int", -k>>>> ELSE <<"int", k>>
FLit(s) == LET k == At(K(s, 1), <<32, 64, 96, 16, 160, 688, 128>>) IN IF Ch(K(s, 2), 2) THEN <<"neg", <<"flt", k>>>> ELSE <<"flt", k>>
SLit(s) == <<"str", At(K(s, 1), Words)>>
NLit(s) == <<"str", At(K(s, 1), Nums)>>
NullLike == Prof = "null"
\* (one recursive operator, the parts are named for readability)
RECURSIVE GG(_, _, _, _), GRef(_, _, _)
GI(s, d, w) == GG("i", s, d, w)
GIT(s, d, w) == GG("it", s, d, w)
GF(s, d, w) == GG("f", s, d, w)
GS(s, d, w) == GG("s", s, d, w)
GE(s, d, w) == GG("e", s, d, w)
GP(s, d, w) == GG("p", s, d, w)
GAtom(s, d, w) == GG("a", s, d, w)
GSub(s, d, w) == GG("q", s, d, w)
\* scalar subqueries over the database of w, one column, at most one row
ScalarOK == Prof \in {"subq", "null", "mix", "flow", "files"}
GI_(s, d, w) == LET r == R(K(s, 50), 12) IN
  IF r < 4 THEN ColOr(K(s, 2), w, {"n", "i"}, ILit(s)) ELSE IF NullLike /\ r < 6 THEN (IF r = 4 THEN <<"null">> ELSE <<"var", w.gv[1]>>) ELSE GIT(s, d, w)
GIT_(s, d, w) == 
  IF d = 0 THEN (LET r == R(K(s, 51), 8) IN IF r < 5 THEN ILit(s) ELSE IF r = 5 THEN <<"var", w.gv[1]>> ELSE IF r = 6 THEN ColOr(K(s, 3), w, {"i"}, ILit(s))
                 ELSE <<"cast", ColOr(K(s, 3), w, {"n", "i"}, NLit(s)), "int", 0>>)
  ELSE LET r == R(K(s, 52), 16) IN
    CASE r < 7 -> (LET o == At(K(s, 4), <<"+", "-", "*", "+", "-", "*", "&", "|", "^">>)
                       l == GIT(K(s, 5), d - 1, w) rr == GI(K(s, 6), d - 1, w) IN
                   IF Ch(K(s, 7), 9) THEN <<"op", o, l, rr>> ELSE <<"op", o, rr, l>>)
      [] r = 7 -> <<"op", At(K(s, 4), <<"/", "%">>), GIT(K(s, 5), d - 1, w), IF Prof = "expr" THEN GI(K(s, 6), d - 1, w) ELSE <<"int", 1 + R(K(s, 6), 4)>>>>
      [] r = 8 -> <<"neg", GIT(K(s, 5), d - 1, w)>>
      [] r = 9 -> <<"bnot", GIT(K(s, 5), d - 1, w)>>
      [] r \in {10, 11} -> <<"fn", At(K(s, 4), <<"len", "datalength">>), <<GS(K(s, 5), d - 1, w)>>>>
      [] r = 12 -> <<"cast", GE(K(s, 5), d - 1, w), "bit", 0>>
      [] r = 13 -> <<"fn", "isnull", <<GIT(K(s, 5), d - 1, w), GI(K(s, 6), d - 1, w)>>>>
      [] r = 14 -> <<"case", <<<<GP(K(s, 5), d - 1, w), GIT(K(s, 6), d - 1, w)>>>>, IF Ch(K(s, 7), 6) THEN <<GIT(K(s, 8), d - 1, w)>> ELSE <<>>>>
      [] OTHER -> <<"scase", GI(K(s, 5), d - 1, w), <<<<GIT(K(s, 9), 0, w), GIT(K(s, 6), d - 1, w)>>, <<GIT(K(s, 10), 0, w), GIT(K(s, 11), 0, w)>>>>, IF Ch(K(s, 7), 6) THEN <<GIT(K(s, 8), d - 1, w)>> ELSE <<>>>>
GF_(s, d, w) == 
  IF Ch(K(s, 12), 1) THEN <<"case", <<<<GP(K(s, 13), 0, w), IF d = 0 THEN FLit(K(s, 14)) ELSE GF(K(s, 14), d - 1, w)>>>>, IF Ch(K(s, 15), 4) THEN <<FLit(K(s, 16))>> ELSE <<>>>>
  ELSE
  IF d = 0 THEN (LET r == R(K(s, 51), 8) IN IF r < 5 THEN FLit(s) ELSE IF r = 5 THEN <<"var", w.gv[2]>> ELSE IF r = 6 THEN ColOr(K(s, 3), w, {"d"}, FLit(s))
                 ELSE <<"cast", ColOr(K(s, 3), w, {"n", "f", "i"}, NLit(s)), "float", 0>>)
  ELSE LET r == R(K(s, 52), 10) IN
    CASE r < 6 -> (LET o == At(K(s, 4), <<"+", "-", "*", "+", "-">>) l == GF(K(s, 5), d - 1, w)
                       rr == IF Ch(K(s, 8), 6) THEN GF(K(s, 6), d - 1, w) ELSE IF Ch(K(s, 8), 8) THEN GI(K(s, 6), d - 1, w) ELSE ColOr(K(s, 6), w, {"n", "f", "i", "d"}, ILit(s)) IN
                   IF Ch(K(s, 7), 9) THEN <<"op", o, l, rr>> ELSE <<"op", o, rr, l>>)
      [] r = 6 -> <<"op", "/", GF(K(s, 5), d - 1, w), IF Prof = "expr" THEN GI(K(s, 6), d - 1, w) ELSE <<"int", 2>>>>
      [] r = 7 -> <<"neg", GF(K(s, 5), d - 1, w)>>
      [] r = 8 -> <<"cast", GI(K(s, 5), d - 1, w), "float", 0>>
      [] OTHER -> <<"fn", "isnull", <<GF(K(s, 5), d - 1, w), GF(K(s, 6), d - 1, w)>>>>
GS_(s, d, w) == 
  IF d = 0 THEN (LET r == R(K(s, 51), 10) IN IF r < 3 THEN SLit(s) ELSE IF r = 3 THEN <<"var", w.gv[3]>> ELSE IF NullLike /\ r = 4 THEN <<"null">> ELSE ColOr(K(s, 3), w, {"w", "n", "f"}, SLit(s)))
  ELSE LET r == R(K(s, 52), 16) IN
    CASE r < 4 -> <<"op", "+", GS(K(s, 5), d - 1, w), GS(K(s, 6), d - 1, w)>>
      [] r \in {4, 5} -> <<"fn", At(K(s, 4), <<"left", "right">>), <<GS(K(s, 5), d - 1, w), GI(K(s, 6), d - 1, w)>>>>
      [] r \in {6, 7} -> <<"fn", "substring", <<GS(K(s, 5), d - 1, w), GI(K(s, 6), 0, w), GI(K(s, 7), 0, w)>>>>
      [] r \in {8, 9} -> <<"fn", "replace", <<GS(K(s, 5), d - 1, w), GS(K(s, 6), 0, w), GS(K(s, 7), 0, w)>>>>
      [] r = 10 -> <<"fn", "isnull", <<GS(K(s, 5), d - 1, w), GE(K(s, 6), d - 1, w)>>>>
      [] r = 11 -> <<"cast", GE(K(s, 5), d - 1, w), "varchar", R(K(s, 6), 4)>>
      [] r = 12 -> <<"cast", GE(K(s, 5), d - 1, w), "char", 1 + R(K(s, 6), 4)>>
      [] r = 13 -> <<"case", <<<<GP(K(s, 5), d - 1, w), GS(K(s, 6), d - 1, w)>>, <<GP(K(s, 9), 0, w), GS(K(s, 10), 0, w)>>>>, IF Ch(K(s, 7), 6) THEN <<GS(K(s, 8), d - 1, w)>> ELSE <<>>>>
      [] r = 14 -> <<"scase", GS(K(s, 5), d - 1, w), <<<<GS(K(s, 9), 0, w), GS(K(s, 6), d - 1, w)>>>>, IF Ch(K(s, 7), 6) THEN <<GS(K(s, 8), d - 1, w)>> ELSE <<>>>>
      [] OTHER -> GS(K(s, 5), d - 1, w)
GE_(s, d, w) == LET r == R(K(s, 53), 11) IN
  IF ScalarOK /\ r = 10 /\ d > 0 THEN GSub(K(s, 1), d, w)
  ELSE IF NullLike /\ r = 9 THEN <<"null">>
  ELSE IF r < 4 THEN GI(K(s, 1), d, w) ELSE IF r < 6 THEN GF(K(s, 1), d, w) ELSE GS(K(s, 1), d, w)
(* ------------------------------------------------------------- conditions *)
PatsM == <<<<97, 46, 98>>, <<97, 124, 37>>, <<37, 124, 98>>, <<40, 97, 41, 37>>, <<97, 42>>, <<37, 43>>, <<95, 63>>, <<94, 37>>, <<37, 36>>, <<92, 37>>, <<97, 92, 98>>, <<123, 49, 125>>, <<37, 93>>, <<91, 46, 124, 93, 37>>, <<37, 91, 42, 43, 93>>, <<91, 94, 46, 93, 37>>, <<97, 95, 98>>, <<37, 40, 37>>, <<97, 37>>, <<37, 124, 37>>, <<91, 36, 94, 93, 37>>>>
PatsU == <<<<195, 169, 37>>, <<37, 195, 169>>, <<37>>, <<120, 37, 121>>, <<37, 226, 130, 172, 37>>, <<195, 137>>, <<120>>, <<195, 169>>, <<95, 120>>, <<37, 240, 159, 152, 128, 37>>>>
Pats0 == <<<<37>>, <<120, 37>>, <<37, 98>>, <<95>>, <<97, 95, 37>>, <<91, 97, 45, 120, 93, 37>>, <<91, 94, 120, 93, 37>>, <<120>>, <<37, 32>>, <<37, 121, 37>>, <<>>, <<91, 37, 93>>, <<97, 91, 95, 93, 98>>, <<91, 97, 98, 93, 95>>>>
Pats == IF FlMeta THEN PatsM ELSE IF FlUtf THEN PatsU ELSE Pats0
Ops == <<"=", "<>", "<", "<=", ">", ">=", "=", "!=", "=">>
GAtom_(s, d, w) == LET r == R(K(s, 54), 16) IN
  CASE r < 3 -> <<"cmp", At(K(s, 4), Ops), GI(K(s, 5), d, w), GI(K(s, 6), d, w)>>
    [] r \in {3, 4, 5} -> <<"cmp", At(K(s, 4), Ops), GS(K(s, 5), d, w), GS(K(s, 6), d, w)>>
    [] r = 6 -> <<"cmp", At(K(s, 4), Ops), GF(K(s, 5), d, w), ColOr(K(s, 6), w, {"n", "f", "i", "d"}, FLit(K(s, 7)))>>
    [] r = 7 -> <<"cmp", At(K(s, 4), Ops), GI(K(s, 5), d, w), ILit(K(s, 6))>>
    [] r = 8 -> <<At(K(s, 4), <<"like", "like", "nlike">>), GS(K(s, 5), 0, w), IF Ch(K(s, 7), 10) THEN <<"str", At(K(s, 6), Pats)>> ELSE GS(K(s, 6), 0, w)>>
    [] r = 9 -> <<At(K(s, 4), <<"like", "nlike">>), GS(K(s, 5), d, w), <<"str", At(K(s, 6), Pats)>>>>
    [] r = 10 -> <<At(K(s, 4), <<"in", "nin">>), GI(K(s, 5), d, w), [k \in 1..(1 + R(K(s, 6), 3)) |-> GI(K(s, 20 + k), 0, w)]>>
    [] r = 11 -> <<At(K(s, 4), <<"in", "nin">>), GS(K(s, 5), d, w), [k \in 1..(1 + R(K(s, 6), 3)) |-> IF NullLike \/ Ch(K(s, 7), 3) THEN GS(K(s, 20 + k), 0, w) ELSE SLit(K(s, 20 + k))]>>
    [] r = 12 -> <<At(K(s, 4), <<"isnull", "notnull">>), IF Ch(K(s, 6), 4) THEN GF(K(s, 7), d, w) ELSE GE(K(s, 5), d, w)>>
    [] r = 13 -> <<"cmp", At(K(s, 4), Ops), ColOr(K(s, 5), w, {"w", "n"}, SLit(K(s, 8))), ColOr(K(s, 6), w, {"w", "n"}, SLit(K(s, 7)))>>
    [] r = 14 /\ ScalarOK /\ d > 0 -> <<At(K(s, 4), <<"insub", "ninsub">>), GE(K(s, 5), 0, w), GSub(K(s, 6), 99, w)[2]>>
    [] OTHER -> <<"cmp", At(K(s, 4), Ops), ColOr(K(s, 5), w, {"n", "i"}, ILit(K(s, 8))), ILit(K(s, 6))>>
GP_(s, d, w) == 
  IF d = 0 THEN GAtom(s, 0, w)
  ELSE LET r == R(K(s, 55), 10) IN
    CASE r < 2 -> <<"and", GP(K(s, 1), d - 1, w), GP(K(s, 2), d - 1, w)>>
      [] r \in {2, 3, 4} -> <<"or", GP(K(s, 1), d - 1, w), GP(K(s, 2), d - 1, w)>>
      [] r \in {5, 6} -> <<"not", GP(K(s, 1), d - 1, w)>>
      [] OTHER -> GAtom(s, d - 1, w)
(* ---------------------------------------------------------------- queries *)
Q0 == [distinct |-> FALSE, top |-> -1, sel |-> <<<<<<"star">>, "">>>>, from |-> <<>>, where |-> <<>>, group |-> <<>>, having |-> <<>>, order |-> <<>>, union |-> <<>>]
KindOfT(t) == IF t = "i" THEN "i" ELSE IF t = "f" THEN "d" ELSE "w"
RefKinds(ref, w) == IF ref[1] = "t" THEN w.tabs[ref[2]].kinds ELSE [k \in 1..Len(ref[2].sel) |-> KindOfT(QTypes(ref[2], w)[k])]
\* the context in which the parts of a query with this FROM are built
Sc(from, w) == [w EXCEPT !.kd = [k \in 1..Len(from) |-> RefKinds(from[k][2], w)],
                         !.st = [k \in 1..Len(from) |-> TabTypes(from[k][2], w)],
                         !.nm = [k \in 1..Len(from) |-> TabNames(from[k][2], w)]]
\* a select item: the name of a bare column is the name of the column
Item(s, e, w, k) == IF e[1] = "col" /\ Ch(s, 8) THEN <<e, w.nm[e[2]][e[3]]>> ELSE <<e, At(s, <<"p", "q", "r", "z">>) \o ToString(k)>>
\* (no name is given twice)
Named(s, es, w) == LET its == [k \in 1..Len(es) |-> Item(K(s, k), es[k], w, k)] IN
  [k \in 1..Len(es) |-> IF \E j \in 1..(k - 1) : its[j][2] = its[k][2] THEN <<its[k][1], "y" \o ToString(k)>> ELSE its[k]]
Distinctly(s, es, w) == [k \in 1..Len(es) |-> <<es[k], "m" \o ToString(k)>>]
\* a table or a subquery as a source
GRef(s, d, w) ==
  IF d = 0 \/ Ch(K(s, 1), 6) THEN <<"t", 1 + R(K(s, 2), Len(w.tabs))>>
  ELSE LET inner == GRef(K(s, 3), d - 1, w)
           fr == <<<<"from", inner, <<>>>>>>
           v == Sc(fr, w)
           wh == IF Ch(K(s, 4), 6) THEN <<GP(K(s, 5), 1, v)>> ELSE <<>>
           r == R(K(s, 6), 8)
           cols == [k \in 1..Len(v.nm[1]) |-> <<"col", 1, k>>]
           q == CASE r < 3 -> [Q0 EXCEPT !.from = fr, !.where = wh, !.sel = Distinctly(s, cols, v)]
                  [] r = 3 -> [Q0 EXCEPT !.from = fr, !.where = wh, !.sel = Distinctly(s, <<GS(K(s, 7), 1, v), GIT(K(s, 8), 1, v)>>, v)]
                  [] r = 4 -> [Q0 EXCEPT !.from = fr, !.where = wh, !.group = <<cols[1]>>, !.sel = Distinctly(s, <<cols[1], <<"agg", "count", <<"int", 1>>>>>>, v)]
                  [] r = 5 -> [Q0 EXCEPT !.from = fr, !.where = wh, !.distinct = TRUE, !.sel = Distinctly(s, <<cols[1], cols[Min2(2, Len(cols))]>>, v)]
                  [] r = 6 -> [Q0 EXCEPT !.from = fr, !.where = wh, !.top = R(K(s, 11), 4), !.sel = Distinctly(s, cols, v)]
                  [] OTHER -> [Q0 EXCEPT !.from = fr, !.where = wh, !.sel = Distinctly(s, <<GS(K(s, 7), 0, v), GI(K(s, 8), 0, v)>>, v),
                                !.union = <<[Q0 EXCEPT !.from = fr, !.sel = Distinctly(s, <<GS(K(s, 12), 0, v), GI(K(s, 13), 0, v)>>, v)]>>]
       IN <<"q", q>>
GSub_(s, d, w) == 
  LET fr == <<<<"from", GRef(K(s, 1), IF d = 99 THEN 1 ELSE 0, w), <<>>>>>>
      v == Sc(fr, w)
      wh == IF Ch(K(s, 2), 7) THEN <<GP(K(s, 3), 0, v)>> ELSE <<>>
      r == R(K(s, 4), 6)
      x == GE(K(s, 5), 0, v)
  IN IF d = 99 THEN <<"sub", [Q0 EXCEPT !.from = fr, !.where = wh, !.sel = Distinctly(s, <<x>>, v)]>>
     ELSE CASE r < 2 -> <<"sub", [Q0 EXCEPT !.from = fr, !.where = wh, !.sel = Distinctly(s, <<<<"agg", At(K(s, 6), <<"count", "max", "min">>), x>>>>, v)]>>
            [] r = 2 -> <<"sub", [Q0 EXCEPT !.from = fr, !.where = wh, !.top = 1, !.sel = Distinctly(s, <<x>>, v)]>>
            [] r = 3 -> <<"sub", [Q0 EXCEPT !.from = fr, !.where = wh, !.top = 1, !.sel = Distinctly(s, <<x>>, v), !.order = <<<<"e", <<"col", 1, 1>>, Ch(K(s, 7), 6)>>>>]>>
            [] r = 4 -> <<"sub", [Q0 EXCEPT !.sel = Distinctly(s, <<GE(K(s, 5), 0, [v EXCEPT !.kd = <<>>])>>, v)]>>
            [] OTHER -> <<"sub", [Q0 EXCEPT !.from = fr, !.where = wh, !.sel = Distinctly(s, <<x>>, v)]>>
GG(k, s, d, w) == CASE k = "i" -> GI_(s, d, w) [] k = "it" -> GIT_(s, d, w) [] k = "f" -> GF_(s, d, w) [] k = "s" -> GS_(s, d, w)
                    [] k = "e" -> GE_(s, d, w) [] k = "p" -> GP_(s, d, w) [] k = "a" -> GAtom_(s, d, w) [] OTHER -> GSub_(s, d, w)
\* equality between the sources joined so far and the new one
JoinEq(s, w, n) ==
  LET kdL == [w EXCEPT !.kd = SubSeq(w.kd, 1, n)]
      kdR == [w EXCEPT !.kd = [k \in 1..(n + 1) |-> IF k = n + 1 THEN w.kd[k] ELSE <<>>]]
      num == Ch(K(s, 1), 5)
      l == IF num THEN (IF Ch(K(s, 2), 8) THEN ColOr(K(s, 3), kdL, {"n", "i"}, <<"col", 1, 1>>) ELSE <<"op", "+", <<"int", R(K(s, 9), 3)>>, ColOr(K(s, 3), kdL, {"n", "i"}, <<"int", 1>>)>>)
           ELSE ColOr(K(s, 3), kdL, {"w"}, <<"col", 1, 1>>)
      r == IF num THEN (IF Ch(K(s, 4), 8) THEN ColOr(K(s, 5), kdR, {"n", "i"}, <<"col", n + 1, 1>>) ELSE <<"op", "+", <<"int", R(K(s, 10), 3)>>, ColOr(K(s, 5), kdR, {"n", "i"}, <<"col", n + 1, 1>>)>>)
           ELSE ColOr(K(s, 5), kdR, {"w"}, <<"col", n + 1, 1>>)
  IN IF Ch(K(s, 6), 7) THEN <<"cmp", "=", l, r>> ELSE <<"cmp", "=", r, l>>
\* conditions of a join in which equalities of both sides stand anywhere
RECURSIVE JoinCond(_, _, _, _)
JoinCond(s, d, w, n) ==
  IF d = 0 THEN (IF Ch(K(s, 1), 7) THEN JoinEq(K(s, 2), w, n) ELSE GP(K(s, 3), 0, w))
  ELSE LET r == R(K(s, 4), 8) IN
       IF r < 3 THEN <<"or", JoinCond(K(s, 5), d - 1, w, n), JoinCond(K(s, 6), d - 1, w, n)>>
       ELSE IF r < 6 THEN <<"and", JoinCond(K(s, 5), d - 1, w, n), JoinCond(K(s, 6), d - 1, w, n)>>
       ELSE IF r = 6 THEN <<"not", JoinCond(K(s, 5), d - 1, w, n)>>
       ELSE JoinCond(K(s, 7), 0, w, n)
RECURSIVE AddJoins(_, _, _, _, _)
AddJoins(s, from, n, sub, w) ==
  IF n = 0 THEN from
  ELSE LET ref == GRef(K(s, 1), sub, w)
           f2 == Append(from, <<"join", ref, <<>>>>)
           v == Sc(f2, w)
           eq == JoinEq(K(s, 2), v, Len(from))
           left == Ch(K(s, 3), 5)
           r == R(K(s, 4), 10)
           on == IF left \/ ref[1] = "q" THEN (IF r < 5 THEN eq ELSE IF r < 8 THEN <<"and", eq, GP(K(s, 5), 0, v)>> ELSE <<"and", GP(K(s, 5), 0, v), eq>>)
                 ELSE IF r < 4 THEN eq ELSE IF r < 6 THEN <<"and", eq, GP(K(s, 5), 1, v)>> ELSE IF r = 6 THEN (IF Ch(K(s, 8), 6) THEN <<"or", eq, GP(K(s, 5), 0, v)>> ELSE <<"or", GP(K(s, 5), 0, v), eq>>) ELSE IF r = 8 THEN JoinCond(K(s, 9), 2, v, Len(from)) ELSE IF r = 7 THEN <<"and", JoinEq(K(s, 7), v, Len(from)), eq>> ELSE GP(K(s, 5), 1, v)
       IN AddJoins(K(s, 6), Append(from, <<IF left THEN "left" ELSE "join", ref, on>>), n - 1, sub, w)
Plain(s, fr, w, n, d) == LET v == Sc(fr, w) IN [Q0 EXCEPT !.from = fr, !.sel = Named(s, [k \in 1..n |-> IF Ch(K(s, 60 + k), 7) THEN ColOr(K(s, 30 + k), v, {"w", "n", "f", "i", "d"}, <<"int", 1>>) ELSE GE(K(s, 40 + k), d, v)], v)]
AllCols(s, fr, w) == LET v == Sc(fr, w) IN [Q0 EXCEPT !.from = fr, !.sel = IF Ch(s, 4) THEN @ ELSE
    LET cs == ColsOf(v, {"w", "n", "f", "i", "d"}) IN Named(s, cs, v)]
Aggs == <<"count", "sum", "min", "max", "avg", "min", "max">>
\* what may be computed from grouping values and aggregates
GAggE(s, gs, w) ==
  LET a == At(K(s, 1), <<"count", "count", "sum", "min", "max">>)
      x == <<"agg", a, IF a = "count" THEN <<"int", 1>> ELSE GIT(K(s, 2), 0, w)>>
      y == <<"agg", "count", <<"int", 1>>>>
      r == R(K(s, 3), 10)
  IN CASE r < 3 -> x
       [] r < 5 -> <<"op", At(K(s, 4), <<"+", "-", "*">>), x, ILit(K(s, 5))>>
       [] r = 5 -> <<"op", At(K(s, 4), <<"+", "-", "*">>), ILit(K(s, 5)), x>>
       [] r = 6 -> <<"op", At(K(s, 4), <<"+", "-", "*">>), x, y>>
       [] r = 7 -> <<"case", <<<<<<"cmp", At(K(s, 4), <<"=", ">", "<=">>), y, <<"int", 1 + R(K(s, 5), 3)>>>>, x>>>>, <<ILit(K(s, 6))>>>>
       [] r = 8 -> <<"fn", "isnull", <<x, ILit(K(s, 6))>>>>
       [] OTHER -> <<"cast", x, "varchar", 2>>
AggArg(s, f, w) == IF f = "count" THEN <<"int", 1>> ELSE IF f \in {"sum", "avg"} THEN (IF Ch(s, 4) THEN GF(K(s, 1), 1, w) ELSE GIT(K(s, 1), 1, w)) ELSE IF Ch(K(s, 2), 5) THEN <<"cast", ColOr(K(s, 3), w, {"n", "f", "i", "d"}, NLit(s)), IF Ch(K(s, 4), 6) THEN "int" ELSE "float", 0>> ELSE GE(K(s, 1), 1, w)
GAgg(s, w) == LET f == At(K(s, 1), Aggs) IN <<"agg", f, AggArg(K(s, 2), f, w)>>
Grouped(s, fr, w) ==
  LET v == Sc(fr, w)
      ng == R(K(s, 1), 3)
      gs == [k \in 1..ng |-> IF Ch(K(s, 10 + k), 9) THEN ColOr(K(s, 20 + k), v, {"w", "n", "i", "f"}, <<"col", 1, 1>>) ELSE IF Ch(K(s, 10 + k), 10) THEN GIT(K(s, 20 + k), 1, v) ELSE GS(K(s, 20 + k), 1, v)]
      na == 1 + R(K(s, 2), 2)
      as == [k \in 1..na |-> IF Ch(K(s, 40 + k), 8) THEN GAgg(K(s, 30 + k), v) ELSE GAggE(K(s, 30 + k), gs, v)]
      sel == IF Ch(K(s, 3), 6) THEN gs \o as ELSE as \o gs
      hv == IF Ch(K(s, 4), 3) THEN <<(LET c == <<"cmp", At(K(s, 5), Ops), IF Ch(K(s, 50), 6) THEN <<"agg", "count", <<"int", 1>>>> ELSE GAggE(K(s, 51), gs, v), <<"int", 1 + R(K(s, 6), 3)>>>> IN
             IF gs # <<>> /\ Ch(K(s, 52), 4) THEN <<At(K(s, 53), <<"and", "or">>), c, <<At(K(s, 54), <<"isnull", "notnull">>), At(K(s, 55), gs)>>>> ELSE c)>> ELSE <<>>
  IN [Q0 EXCEPT !.from = fr, !.group = gs, !.sel = Named(s, sel, v), !.having = hv, !.where = IF Ch(K(s, 7), 4) THEN <<GP(K(s, 8), 1, v)>> ELSE <<>>]
From1(s, w, sub) == <<<<"from", GRef(s, sub, w), <<>>>>>>
Ordered(s, q, w) ==
  LET v == Sc(q.from, w) agg == q.group # <<>> \/ (~Star(q) /\ \E k \in 1..Len(q.sel) : HasAgg(q.sel[k][1]))
      \* (a constant is an ordinal)
      vary(e) == IF LitOnly(e) THEN ColOr(s, v, {"w", "n", "f", "i", "d"}, <<"var", w.gv[1]>>) ELSE e
      n == Len(Sel(q, WithSt(q, w)))
      no == 1 + R(K(s, 1), 2)
      one(x) == LET r == R(K(x, 1), 6) de == Ch(K(x, 2), 5) IN
                IF r < 2 \/ q.distinct \/ agg \/ q.union # <<>> THEN
                  (IF r < 4 THEN <<"o", 1 + R(K(x, 3), n), de>> ELSE <<"a", 1 + R(K(x, 3), n), de>>)
                ELSE IF r < 5 THEN <<"e", ColOr(K(x, 4), v, {"w", "n", "f", "i", "d"}, <<"var", w.gv[1]>>), de>>
                ELSE IF Ch(K(x, 6), 4) THEN <<"e", <<"cast", ColOr(K(x, 4), v, {"n", "f", "i", "d"}, <<"var", w.gv[1]>>), IF Ch(K(x, 7), 4) THEN "int" ELSE "float", 0>>, de>>
                ELSE <<"e", vary(GE(K(x, 5), 1, v)), de>>
  IN [q EXCEPT !.order = [k \in 1..no |-> one(K(s, 10 + k))]]
WithTop(s, q) == IF Ch(K(s, 1), 5) THEN [q EXCEPT !.top = R(K(s, 2), 5)] ELSE q
WithWhere(s, q, d, w) == [q EXCEPT !.where = <<GP(K(s, 1), d, Sc(q.from, w))>>]
WithDistinct(q) == [q EXCEPT !.distinct = TRUE]
Union(s, w, sub) ==
  LET n == 1 + R(K(s, 1), 2)
      kinds == [k \in 1..n |-> R(K(s, 10 + k), 3)]
      item(x, k, v) == LET y == IF Ch(K(x, 3), 1) THEN 2 ELSE kinds[k] IN IF y = 0 THEN GIT(K(x, 1), 1, v) ELSE IF y = 1 THEN GF(K(x, 1), 0, v) ELSE GS(K(x, 1), 1, v)
      oper(x) == LET nj == IF Ch(K(x, 8), 2) THEN 1 ELSE 0
                     fr == IF Ch(K(x, 9), 1) THEN <<>> ELSE AddJoins(K(x, 2), From1(K(x, 1), w, sub), nj, 0, w)
                     v == Sc(fr, w)
                     p == [Q0 EXCEPT !.from = fr, !.sel = Named(x, [k \in 1..n |-> item(K(x, 50 + k), k, v)], v)]
                     r == R(K(x, 3), 8)
                 IN IF fr = <<>> THEN p
                    ELSE IF r < 3 THEN WithWhere(K(x, 4), p, 1, w) ELSE IF r = 3 THEN WithDistinct(p)
                    ELSE IF r = 4 THEN [p EXCEPT !.group = [k \in 1..n |-> p.sel[k][1]]]
                    ELSE IF r = 5 THEN [p EXCEPT !.top = R(K(x, 5), 4)]
                    ELSE p
  IN [oper(K(s, 2)) EXCEPT !.union = [k \in 1..(1 + R(K(s, 3), 2)) |-> oper(K(s, 30 + k))]]
RECURSIVE Gen(_, _, _)
Gen(s, p, w) ==
  CASE p = "where" -> WithWhere(K(s, 1), IF Ch(K(s, 2), 6) THEN AllCols(K(s, 3), From1(K(s, 4), w, 0), w) ELSE Plain(K(s, 3), From1(K(s, 4), w, 0), w, 2, 0), 2, w)
    [] p = "join" -> (LET fr == AddJoins(K(s, 2), From1(K(s, 1), w, IF Ch(K(s, 9), 2) THEN 1 ELSE 0), 1 + (IF Ch(K(s, 3), 4) THEN 1 ELSE 0), IF Ch(K(s, 8), 2) THEN 1 ELSE 0, w)
                          q == IF Ch(K(s, 4), 9) THEN AllCols(K(s, 5), fr, w) ELSE Plain(K(s, 5), fr, w, 2, 1)
                      IN IF Ch(K(s, 6), 3) THEN WithWhere(K(s, 7), q, 1, w) ELSE q)
    [] p = "group" -> (LET fr == AddJoins(K(s, 2), From1(K(s, 1), w, 0), IF Ch(K(s, 3), 2) THEN 1 ELSE 0, 0, w) IN Grouped(K(s, 4), fr, w))
    [] p = "order" -> (LET r == R(K(s, 1), 10)
                           base == IF r < 4 THEN Gen(K(s, 2), "where", w) ELSE IF r < 6 THEN Plain(K(s, 2), From1(K(s, 3), w, 0), w, 2, 1) ELSE IF r = 6 THEN Gen(K(s, 2), "join", w)
                                   ELSE IF r = 7 THEN WithDistinct(Plain(K(s, 2), From1(K(s, 3), w, 0), w, 2, 0)) ELSE IF r = 8 THEN Gen(K(s, 2), "group", w)
                                   ELSE Plain(K(s, 2), From1(K(s, 3), w, 1), w, 3, 0)
                       IN IF Ch(K(s, 4), 2) /\ base.group = <<>> THEN [base EXCEPT !.top = R(K(s, 5), 6)] ELSE WithTop(K(s, 5), Ordered(K(s, 6), base, w)))
    [] p = "distinct" -> (LET r == R(K(s, 1), 4)
                           base == IF r < 2 THEN Plain(K(s, 2), From1(K(s, 3), w, 0), w, 1 + R(K(s, 5), 3), 1) ELSE IF r = 2 THEN Gen(K(s, 2), "where", w) ELSE Gen(K(s, 2), "join", w)
                       IN WithDistinct(base))
    [] p = "union" -> (IF Ch(K(s, 1), 8) THEN Union(K(s, 2), w, 0) ELSE Gen(K(s, 2), "distinct", w))
    [] p = "subq" -> (LET r == R(K(s, 1), 8)
                          fr == From1(K(s, 3), w, 2) IN
                      CASE r < 2 -> WithWhere(K(s, 4), AllCols(K(s, 2), fr, w), 1, w)
                        [] r \in {2, 3} -> WithWhere(K(s, 4), Plain(K(s, 2), From1(K(s, 3), w, 0), w, 2, 1), 2, w)
                        [] r = 4 -> AllCols(K(s, 2), AddJoins(K(s, 5), fr, 1, 2, w), w)
                        [] r = 5 -> Grouped(K(s, 2), fr, w)
                        [] r = 6 -> (LET v == Sc(<<>>, w) IN [Q0 EXCEPT !.sel = Named(s, <<GSub(K(s, 2), 1, v), GSub(K(s, 5), 1, v)>>, v)])
                        [] OTHER -> (LET v == Sc(fr, w) IN [Q0 EXCEPT !.from = fr, !.sel = Named(s, <<GSub(K(s, 2), 1, v), <<"col", 1, 1>>>>, v)]))
    [] p = "expr" -> (IF Ch(K(s, 1), 5) THEN (LET v == Sc(<<>>, w) IN [Q0 EXCEPT !.sel = Named(s, <<GE(K(s, 2), 3, v)>>, v)])
                      ELSE (LET fr == From1(K(s, 3), w, 0) v == Sc(fr, w) IN [Q0 EXCEPT !.from = fr, !.sel = Named(s, <<GE(K(s, 2), 2, v), GE(K(s, 4), 1, v)>>, v)]))
    [] p = "null" -> (LET r == R(K(s, 1), 6) IN
                      CASE r = 0 -> Gen(K(s, 2), "expr", w) [] r \in {1, 2} -> Gen(K(s, 2), "where", w) [] r = 3 -> Gen(K(s, 2), "join", w)
                        [] r = 4 -> Gen(K(s, 2), "order", w) [] OTHER -> Gen(K(s, 2), "group", w))
    [] OTHER -> Gen(K(s, 2), At(K(s, 1), <<"where", "join", "join", "group", "order", "union", "subq", "subq">>), w)
World(n) == LET s == SeedOf(n) t == DB(K(s, 1)) IN
  [tabs |-> t, vars |-> Vs(K(s, 2)), rn |-> 0, st |-> <<>>, grp |-> <<>>, kd |-> <<>>, nm |-> <<>>, gv |-> <<1, 2, 3>>, by |-> FlBytes]
(* ------------------------------------------------ laws of the specification *)
Multi(rows) == [r \in Rng(rows) |-> Cardinality({k \in 1..Len(rows) : rows[k] = r})]
Bag(q, w) == LET r == RunQ(q, w) IN [st |-> r.st, n |-> Len(r.rows), m |-> Multi(r.rows)]
\* a condition, its negation and the rows where it is unknown partition the result
LawPartition(q, w) ==
  (q.where # <<>> /\ q.group = <<>> /\ ~q.distinct /\ q.top < 0 /\ q.union = <<>> /\ (\A k \in 1..Len(q.sel) : ~HasAgg(q.sel[k][1]))) =>
  LET a == RunQ(q, w) b == RunQ([q EXCEPT !.where = <<<<"not", q.where[1]>>>>], w) c == RunQ([q EXCEPT !.where = <<>>], w) IN
  (a.st = "ok" /\ b.st = "ok" /\ c.st = "ok") => Len(a.rows) + Len(b.rows) <= Len(c.rows) /\ Rng(a.rows) \subseteq Rng(c.rows) /\ Rng(b.rows) \subseteq Rng(c.rows)
\* TOP n is a prefix, DISTINCT has no two equal rows, ORDER BY permutes
LawTop(q, w) == (q.top >= 0 /\ q.union = <<>>) =>
  LET a == RunQ(q, w) b == RunQ([q EXCEPT !.top = -1], w) IN (a.st = "ok" /\ b.st = "ok") => Len(a.rows) = Min2(q.top, Len(b.rows)) /\ IsPre(a.rows, b.rows)
LawDistinct(q, w) == (q.distinct /\ q.union = <<>>) =>
  LET a == RunQ(q, w) b == RunQ([q EXCEPT !.distinct = FALSE, !.top = -1, !.order = <<>>], w) IN (a.st = "ok" /\ b.st = "ok") =>
    Cardinality({RowKey(a.rows[k]) : k \in 1..Len(a.rows)}) = Len(a.rows) /\ (q.top < 0 => {RowKey(a.rows[k]) : k \in 1..Len(a.rows)} = {RowKey(b.rows[k]) : k \in 1..Len(b.rows)})
LawOrder(q, w) == (q.order # <<>> /\ q.top < 0) =>
  LET a == RunQ(q, w) b == RunQ([q EXCEPT !.order = <<>>], w) IN (a.st = "ok" /\ b.st = "ok") =>
    Multi(a.rows) = Multi(b.rows) /\ \A k \in 1..(Len(a.keys) - 1) : KeysCmp(a.keys[k], a.keys[k + 1], [o \in 1..Len(q.order) |-> q.order[o][3]]) <= 0
LawUnion(q, w) == (q.union # <<>>) =>
  LET a == RunQ(q, w) b == RunQ([q EXCEPT !.union = <<>>], w) us == [k \in 1..Len(q.union) |-> RunQ(q.union[k], w)] IN a.st = "ok" =>
    Len(a.rows) = Len(b.rows) + Sum([k \in 1..Len(us) |-> Len(us[k].rows)])
\* groups are disjoint and cover: the counts sum up to the number of rows
LawGroup(q, w) == (q.group # <<>> /\ q.union = <<>> /\ q.having = <<>> /\ q.top < 0 /\ ~q.distinct) =>
  LET a == RunQ([q EXCEPT !.sel = <<<<<<"agg", "count", <<"int", 1>>>>, "n">>>>, !.order = <<>>], w) b == RunQ([q EXCEPT !.group = <<>>, !.order = <<>>, !.sel = <<<<<<"int", 1>>, "n">>>>], w) IN
  (a.st = "ok" /\ b.st = "ok") => Sum([k \in 1..Len(a.rows) |-> a.rows[k][1][2]]) = Len(b.rows)
\* a left join keeps every left row
LawJoin(q, w) == (Len(q.from) = 2 /\ q.from[2][1] = "left" /\ q.where = <<>> /\ q.group = <<>> /\ ~q.distinct /\ q.top < 0 /\ q.union = <<>>) =>
  LET Cnt(fr) == RunQ([Q0 EXCEPT !.from = fr, !.sel = <<<<<<"int", 1>>, "n">>>>], w)
      a == Cnt(q.from) b == Cnt(SubSeq(q.from, 1, 1)) c == Cnt([q.from EXCEPT ![2][1] = "join"])
  IN (a.st = "ok" /\ b.st = "ok" /\ c.st = "ok") => Len(a.rows) >= Len(b.rows) /\ Len(a.rows) >= Len(c.rows) /\ Len(a.rows) <= Len(b.rows) + Len(c.rows)
Laws(q, w) == LawPartition(q, w) /\ LawTop(q, w) /\ LawDistinct(q, w) /\ LawOrder(q, w) /\ LawUnion(q, w) /\ LawGroup(q, w) /\ LawJoin(q, w)
(* ------------------------------------------------------------- behaviours *)
Init == sd \in Lo..Hi /\ res = <<>>
\* (the parameters keep TLC from expanding the definitions before it starts)
Run(z) == /\ res = <<>> /\ UNCHANGED sd
       /\ \E w \in {World(sd)} : \E q \in {Gen(K(SeedOf(sd), 3), Prof, w)} : \E o \in {Observe(q, w)} : \E l \in {Laws(q, w)} :
          /\ res' = <<o.st, l>>
          /\ Emit(<<sd, [k \in 1..Len(w.tabs) |-> [n |-> w.tabs[k].names, r |-> w.tabs[k].rows]], w.vars, q, o>>)
Next == <<Run(0)>>_vars
Inv == res = <<>> \/ (res[1] \in {"ok", "e", "u"} /\ res[2])
=============================================================================
