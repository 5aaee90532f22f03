-------------------------------- MODULE Sql --------------------------------
(* The meaning of the query language: values, expressions, conditions in three
   valued logic, and queries, as functions of the contents of the tables.
   Abstract syntax is built from tuples; the checks render it as SQL text.

   value    <<"n">> null | <<"i", k>> integer | <<"f", k>> float k/64
            | <<"s", q>> text (q: sequence of character codes)
            | <<"e">> no value: the statement fails | <<"u">> outside the
            range this specification computes with (the case is not used)
   A table is a record [names, types, rows]; the row of a file has as many
   values as the record of the file has fields, further columns are null.

   expression
     <<"col", s, c>>   column c of source s        <<"int", k>> <<"flt", k>> <<"str", q>> <<"null">>
     <<"var", v>>      variable                    <<"op", o, a, b>>  o in + - * / % & | ^
     <<"neg", a>> <<"bnot", a>> <<"fn", f, args>>  <<"cast", a, t, n>>
     <<"case", <<<<p, a>>, ...>>, <<else>> or <<>>>>   <<"scase", e, <<<<v, a>>, ...>>, <<else>> or <<>>>>
     <<"agg", f, a>>   <<"sub", q>>                <<"rownum">>
   condition
     <<"cmp", o, a, b>> <<"like", a, b>> <<"in", a, list>> <<"insub", a, q>> <<"isnull", a>>
     <<"and", p, q>> <<"or", p, q>> <<"not", p>>
     the negated forms NOT IN, NOT LIKE, IS NOT NULL: <<"nin", ..>> <<"nlike", ..>> <<"notnull", a>>
   query: [distinct, top, sel, from, where, group, having, order, union]
     top     -1 or the number of rows         sel   sequence of <<expression or <<"star">>, alias>>
     from    sequence of <<kind, ref, on>>, kind in from join left; ref = <<"t", n>> or <<"q", query>>
     where, having: <<>> or <<condition>>     order sequence of <<how, x, desc>>,
             how in "e" (expression) "o" (ordinal) "a" (alias of a column)            *)
EXTENDS MBT, Conv

NULL == <<"n">>
ERR == <<"e">>
UNK == <<"u">>
I(k) == <<"i", k>>
F(k) == <<"f", k>>
S(q) == <<"s", q>>
Bad(v) == v[1] \in {"e", "u"}
IsNull(v) == v[1] = "n"
\* of several failing parts, unknown wins
Worst(vs) == IF \E k \in 1..Len(vs) : vs[k] = UNK THEN UNK ELSE ERR
AnyBad(vs) == \E k \in 1..Len(vs) : Bad(vs[k])
\* a null next to a failing part: whether the failing part is computed is left open
Mix(vs) == IF \E k \in 1..Len(vs) : vs[k][1] = "n" THEN UNK ELSE Worst(vs)
AnyNull(vs) == \E k \in 1..Len(vs) : IsNull(vs[k])

LIM == 1000000000
Chk(k) == IF k > LIM \/ k < -LIM THEN UNK ELSE I(k)
FLIM == 30000000
ChkF(k) == IF k > FLIM \/ k < -FLIM THEN UNK ELSE F(k)
Abs(k) == IF k < 0 THEN -k ELSE k
Sgn(k) == IF k < 0 THEN -1 ELSE 1
\* division and remainder cut towards zero
TDiv(a, b) == Sgn(a) * Sgn(b) * (Abs(a) \div Abs(b))
TMod(a, b) == Sgn(a) * (Abs(a) % Abs(b))

(* ---------------------------------------------------------- text *)
Low(c) == IF c >= 65 /\ c <= 90 THEN c + 32 ELSE c
Lower(q) == [k \in 1..Len(q) |-> Low(q[k])]
RECURSIVE RTrim(_)
RTrim(q) == IF q # <<>> /\ q[Len(q)] = 32 THEN RTrim(SubSeq(q, 1, Len(q) - 1)) ELSE q
RECURSIVE LexCmp(_, _)
LexCmp(a, b) == IF a = <<>> THEN (IF b = <<>> THEN 0 ELSE -1)
                ELSE IF b = <<>> THEN 1
                ELSE IF a[1] # b[1] THEN (IF a[1] < b[1] THEN -1 ELSE 1)
                ELSE LexCmp(Tail(a), Tail(b))
Norm(q) == RTrim(Lower(q))
TCmp(a, b) == LexCmp(Norm(a), Norm(b))
RECURSIVE DigitsOf(_)
DigitsOf(k) == IF k < 10 THEN <<48 + k>> ELSE DigitsOf(k \div 10) \o <<48 + (k % 10)>>
IText(k) == IF k < 0 THEN <<45>> \o DigitsOf(-k) ELSE DigitsOf(k)
Pad6(q) == CZeros(6 - Len(q)) \o q
\* 1/64 = 0.015625: six decimals are exact
FText(k) == (IF k < 0 THEN <<45>> ELSE <<>>) \o DigitsOf(Abs(k) \div 64) \o <<46>> \o Pad6(DigitsOf((Abs(k) % 64) * 15625))
AsText(v) == CASE v[1] = "i" -> IText(v[2]) [] v[1] = "f" -> FText(v[2]) [] v[1] = "s" -> v[2] [] OTHER -> <<>>

(* ---------------------------------------------------- conversions *)
SNum(d) == IF Len(CNz(d)) > 9 THEN LIM + 1 ELSE CNum(CNz(d))
TextInt(q) == LET r == CInt(q) IN
  IF ~r.ok THEN (IF Len(q) > 12 THEN UNK ELSE ERR)
  ELSE LET s == CSign(r.v) IN Chk(IF s.neg THEN -SNum(s.r) ELSE SNum(s.r))
TextFloat(q) == LET r == CFloat(q) IN
  IF ~r.ok THEN (IF r.exact THEN ERR ELSE UNK)
  ELSE IF ~r.exact THEN UNK
  ELSE LET s == CSign(r.v) p == CIdx(s.r, {46})
           w == SNum(SubSeq(s.r, 1, p - 1)) fr == CNum(SubSeq(s.r, p + 1, Len(s.r)))
       IN IF fr % 15625 # 0 \/ w > 400000 \/ (s.neg /\ w = 0 /\ fr = 0) THEN UNK
          ELSE ChkF((IF s.neg THEN -1 ELSE 1) * (w * 64 + (fr \div 15625)))
ToInt(v) == CASE v[1] = "i" -> v
              [] v[1] = "f" -> Chk(TDiv(v[2], 64))
              [] v[1] = "s" -> TextInt(v[2])
              [] OTHER -> v
ToFlt(v) == CASE v[1] = "i" -> (IF Abs(v[2]) > 400000 THEN UNK ELSE F(v[2] * 64))
              [] v[1] = "f" -> v
              [] v[1] = "s" -> TextFloat(v[2])
              [] OTHER -> v
ToStr(v) == IF Bad(v) \/ IsNull(v) THEN v ELSE S(AsText(v))
To(v, t) == CASE t = "i" -> ToInt(v) [] t = "f" -> ToFlt(v) [] OTHER -> ToStr(v)
\* the common type: text yields to numbers, integer with float gives float
Common(a, b) == IF a = "e" \/ b = "e" THEN "e" ELSE IF a = b THEN a ELSE IF a = "s" THEN b ELSE IF b = "s" THEN a ELSE "f"

(* ------------------------------------------------------ operators *)
RECURSIVE BitOp(_, _, _, _)
\* bitwise operation on two non-negative numbers
BitOp(o, a, b, n) == IF n = 0 THEN 0
  ELSE LET x == a % 2 y == b % 2
           z == CASE o = "&" -> x * y [] o = "|" -> Max2(x, y) [] OTHER -> (x + y) % 2
       IN z + (2 * BitOp(o, a \div 2, b \div 2, n - 1))
\* two's complement: ~a = -a-1
Bit(o, a, b) ==
  LET na == a < 0 nb == b < 0
      pa == IF na THEN -a - 1 ELSE a
      pb == IF nb THEN -b - 1 ELSE b
      X(op) == BitOp(op, pa, pb, 30)
      AndNot(p, q) == p - BitOp("&", p, q, 30)
  IN CASE o = "&" -> (IF na /\ nb THEN -X("|") - 1 ELSE IF na THEN AndNot(pb, pa) ELSE IF nb THEN AndNot(pa, pb) ELSE X("&"))
       [] o = "|" -> (IF na /\ nb THEN -X("&") - 1 ELSE IF na THEN -AndNot(pa, pb) - 1 ELSE IF nb THEN -AndNot(pb, pa) - 1 ELSE X("|"))
       [] OTHER -> (IF na = nb THEN X("^") ELSE -X("^") - 1)
IOp(o, a, b) ==
  CASE o = "+" -> Chk(a + b)
    [] o = "-" -> Chk(a - b)
    [] o = "*" -> (IF a # 0 /\ Abs(b) > LIM \div Abs(a) THEN UNK ELSE Chk(a * b))
    [] o = "/" -> (IF b = 0 THEN ERR ELSE I(TDiv(a, b)))
    [] o = "%" -> (IF b = 0 THEN ERR ELSE I(TMod(a, b)))
    [] OTHER -> I(Bit(o, a, b))
FOp(o, a, b) ==
  CASE o = "+" -> ChkF(a + b)
    [] o = "-" -> ChkF(a - b)
    [] o = "*" -> (IF a # 0 /\ Abs(b) > LIM \div Abs(a) THEN UNK
                   ELSE IF (a * b) % 64 # 0 \/ (a * b = 0 /\ (a < 0 \/ b < 0)) THEN UNK ELSE ChkF(TDiv(a * b, 64)))
    [] o = "/" -> (IF b = 0 THEN ERR
                   ELSE IF (Abs(a) * 64) % Abs(b) # 0 \/ (a = 0 /\ b < 0) THEN UNK ELSE ChkF(TDiv(a * 64, b)))
    [] OTHER -> ERR
ArithOps == {"+", "-", "*", "/"}
BitOps == {"%", "&", "|", "^"}
\* the type of an operator applied to two types; "e": no such operation
OpType(o, a, b) == LET t == Common(a, b) IN
  IF t = "s" /\ o # "+" THEN "e" ELSE IF t = "f" /\ o \in BitOps THEN "e" ELSE t
Op2(o, t, a, b) ==
  IF t = "e" THEN ERR
  ELSE LET x == To(a, t) y == To(b, t) IN
  IF AnyBad(<<x, y>>) THEN Mix(<<x, y>>)
  ELSE IF AnyNull(<<x, y>>) THEN NULL
  ELSE CASE t = "i" -> IOp(o, x[2], y[2])
         [] t = "f" -> FOp(o, x[2], y[2])
         [] OTHER -> S(x[2] \o y[2])

(* ------------------------------------------------ scalar functions *)
IsSp(c) == CIsWs(c)
RECURSIVE TrimWs(_)
TrimWs(q) == IF q # <<>> /\ IsSp(q[Len(q)]) THEN TrimWs(SubSeq(q, 1, Len(q) - 1)) ELSE q
\* case-insensitive replacement, left to right, inserted text not searched again
RECURSIVE Replace(_, _, _)
Replace(h, n, r) ==
  IF n = <<>> \/ Len(h) < Len(n) THEN h
  ELSE IF Lower(SubSeq(h, 1, Len(n))) = Lower(n) THEN r \o Replace(SubSeq(h, Len(n) + 1, Len(h)), n, r)
  ELSE <<h[1]>> \o Replace(Tail(h), n, r)
\* a text is a sequence of bytes; the functions count its characters (UTF-8), or its bytes if w.by
Ascii(q) == \A k \in 1..Len(q) : q[k] < 128
Utf8N(c) == IF c < 128 THEN 1 ELSE IF c < 192 THEN 0 ELSE IF c < 224 THEN 2 ELSE IF c < 240 THEN 3 ELSE IF c < 248 THEN 4 ELSE 0
RECURSIVE Chars(_)
\* the sequence of the characters, with an empty one in place of what is none
Chars(q) == IF q = <<>> THEN <<>>
  ELSE LET n == Utf8N(q[1]) IN
       IF n = 0 \/ n > Len(q) \/ (\E k \in 2..n : q[k] < 128 \/ q[k] > 191) THEN <<<<>>>>
       ELSE <<SubSeq(q, 1, n)>> \o Chars(SubSeq(q, n + 1, Len(q)))
Left(q, n) == SubSeq(q, 1, Min2(n, Len(q)))
Right(q, n) == SubSeq(q, Max2(1, Len(q) - n + 1), Len(q))
\* characters start .. start+n-1, positions before the first do not exist
Substr(q, st, n) == SubSeq(q, Max2(st, 1), Min2(st + n - 1, Len(q)))
FnType(f, ts) == IF f \in {"len", "datalength"} THEN "i" ELSE IF f = "isnull" THEN ts[1] ELSE "s"
FnArity(f) == CASE f \in {"len", "datalength"} -> 1 [] f \in {"left", "right", "isnull"} -> 2 [] OTHER -> 3
Flat(cs) == FoldL(LAMBDA x, y : x \o y, <<>>, cs)
\* the functions on characters (a text that is no UTF-8 is left open)
CharFn(f, a, cs) ==
  IF <<>> \in Rng(cs) THEN UNK
  ELSE CASE f = "len" -> I(LET ns == {k \in 1..Len(cs) : ~IsSp(cs[k][1])} IN IF ns = {} THEN 0 ELSE CHOOSE m \in ns : \A k \in ns : k <= m)
         [] f = "left" -> (IF a[2][2] < 0 THEN ERR ELSE S(Flat(Left(cs, a[2][2]))))
         [] f = "right" -> (IF a[2][2] < 0 THEN ERR ELSE S(Flat(Right(cs, a[2][2]))))
         [] f = "substring" -> (IF a[3][2] < 0 THEN ERR ELSE S(Flat(Substr(cs, a[2][2], a[3][2]))))
         [] OTHER -> ERR
\* vs: argument values, ts: their types, by: characters are bytes
Fn(f, vs, ts, by) ==
  IF f = "isnull" THEN
    LET x == To(vs[1], ts[1]) IN
    IF Bad(x) THEN x ELSE IF ~IsNull(x) THEN x ELSE To(vs[2], ts[1])
  ELSE IF f = "datalength" /\ ts[1] # "s" THEN (IF Bad(vs[1]) THEN vs[1] ELSE IF IsNull(vs[1]) THEN NULL ELSE I(8))
  ELSE
  LET a == [k \in 1..Len(vs) |-> IF (f \in {"left", "right"} /\ k = 2) \/ (f = "substring" /\ k > 1) THEN ToInt(vs[k]) ELSE ToStr(vs[k])]
  IN IF AnyBad(a) THEN Mix(a)
     ELSE IF AnyNull(a) THEN NULL
     ELSE CASE f = "datalength" -> I(Len(a[1][2]))
            [] f # "replace" /\ ~by /\ ~Ascii(a[1][2]) -> CharFn(f, a, Chars(a[1][2]))
            [] f = "len" -> I(Len(TrimWs(a[1][2])))
            [] f = "left" -> (IF a[2][2] < 0 THEN ERR ELSE S(Left(a[1][2], a[2][2])))
            [] f = "right" -> (IF a[2][2] < 0 THEN ERR ELSE S(Right(a[1][2], a[2][2])))
            [] f = "substring" -> (IF a[3][2] < 0 THEN ERR ELSE S(Substr(a[1][2], a[2][2], a[3][2])))
            [] f = "replace" -> S(Replace(a[1][2], a[2][2], a[3][2]))
            [] OTHER -> ERR
CastType(t) == CASE t \in {"int", "bit"} -> "i" [] t = "float" -> "f" [] OTHER -> "s"
PadTo(q, n) == q \o Rep(32, Max2(0, n - Len(q)))
\* (CHAR(n) of characters of several bytes is left open)
Cast(v, t, n, by) ==
  IF Bad(v) \/ IsNull(v) THEN v
  ELSE CASE t = "int" -> ToInt(v)
         [] t = "bit" -> LET x == ToInt(v) IN IF Bad(x) THEN x ELSE I(IF x[2] = 0 THEN 0 ELSE 1)
         [] t = "float" -> ToFlt(v)
         [] n > 0 /\ ~by /\ ~Ascii(AsText(v)) -> (IF t = "varchar" THEN CharFn("left", <<S(AsText(v)), I(n)>>, Chars(AsText(v))) ELSE UNK)
         [] t = "varchar" -> S(IF n = 0 THEN AsText(v) ELSE Left(AsText(v), n))
         [] OTHER -> S(IF n = 0 THEN AsText(v) ELSE PadTo(Left(AsText(v), n), n))

(* ------------------------------------------------------------ LIKE *)
\* pattern elements: <<"any">> (%), <<"one">> (_), <<"set", negated, S>>, <<"c", ch>>
RECURSIVE SetOf(_)
SetOf(q) == IF q = <<>> THEN {}
            ELSE IF Len(q) >= 3 /\ q[2] = 45 THEN {q[1]..q[3]} \cup SetOf(SubSeq(q, 4, Len(q)))
            ELSE {{q[1]}} \cup SetOf(Tail(q))
RECURSIVE LikePat(_)
LikePat(q) ==
  IF q = <<>> THEN <<>>
  ELSE IF q[1] = 37 THEN <<<<"any">>>> \o LikePat(Tail(q))
  ELSE IF q[1] = 95 THEN <<<<"one">>>> \o LikePat(Tail(q))
  ELSE IF q[1] = 91 /\ (\E k \in 2..Len(q) : q[k] = 93) THEN
    LET e == CHOOSE k \in 2..Len(q) : q[k] = 93 /\ \A j \in 2..(k - 1) : q[j] # 93
        body == SubSeq(q, 2, e - 1)
        neg == body # <<>> /\ body[1] = 94
    IN <<<<"set", neg, UNION SetOf(IF neg THEN Tail(body) ELSE body)>>>> \o LikePat(SubSeq(q, e + 1, Len(q)))
  ELSE <<<<"c", q[1]>>>> \o LikePat(Tail(q))
OneMatch(e, c) == CASE e[1] = "one" -> TRUE
                    [] e[1] = "c" -> Low(e[2]) = Low(c)
                    [] e[1] = "set" -> e[2] # (\E x \in e[3] : Low(x) = Low(c))
                    [] OTHER -> FALSE
RECURSIVE LikeM(_, _)
LikeM(p, q) ==
  IF p = <<>> THEN q = <<>>
  ELSE IF p[1][1] = "any" THEN \E k \in 0..Len(q) : LikeM(Tail(p), SubSeq(q, k + 1, Len(q)))
  ELSE q # <<>> /\ OneMatch(p[1], q[1]) /\ LikeM(Tail(p), Tail(q))
\* (one element of a pattern stands for a byte: for a character of several bytes this is left open)
Like3(q, pat) == IF (~Ascii(q) \/ ~Ascii(pat)) /\ (\E k \in 1..Len(pat) : pat[k] \in {91, 95}) THEN "u"
                 ELSE IF LikeM(LikePat(pat), q) THEN "t" ELSE "f"

(* ---------------------------------------------- three-valued logic *)
\* conditions evaluate to "t" "f" "n", or "e" (fails), "u" (not computed)
TV(b) == IF b THEN "t" ELSE "f"
Not3(a) == CASE a = "t" -> "f" [] a = "f" -> "t" [] OTHER -> a
And3(a, b) == IF a = "f" THEN "f"
              ELSE IF a \in {"e", "u"} THEN a
              ELSE IF b \in {"e", "u"} THEN b
              ELSE IF b = "f" THEN "f" ELSE IF a = "n" \/ b = "n" THEN "n" ELSE "t"
Or3(a, b) == Not3(And3(Not3(a), Not3(b)))
VCmp(x, y, t) == IF t = "s" THEN TCmp(x[2], y[2]) ELSE IF x[2] < y[2] THEN -1 ELSE IF x[2] > y[2] THEN 1 ELSE 0
CmpR(o, c) == CASE o = "=" -> c = 0 [] o \in {"<>", "!="} -> c # 0 [] o = "<" -> c < 0 [] o = "<=" -> c <= 0 [] o = ">" -> c > 0 [] OTHER -> c >= 0
Cmp3(o, t, a, b) ==
  LET x == To(a, t) y == To(b, t) IN
  IF AnyBad(<<x, y>>) THEN Mix(<<x, y>>)[1]
  ELSE IF AnyNull(<<x, y>>) THEN "n" ELSE TV(CmpR(o, VCmp(x, y, t)))
\* membership: true if some element equals, else unknown if null is involved
In3(t, a, vs) ==
  LET x == To(a, t) ys == [k \in 1..Len(vs) |-> To(vs[k], t)] IN
  IF AnyBad(Append(ys, x)) THEN Mix(Append(ys, x))[1]
  ELSE IF IsNull(x) THEN (IF vs = <<>> THEN "u" ELSE "n") \* a null and an empty list: not specified
  ELSE IF \E k \in 1..Len(ys) : ~IsNull(ys[k]) /\ VCmp(x, ys[k], t) = 0 THEN "t"
  ELSE IF AnyNull(ys) THEN "n" ELSE "f"
CommonAll(t, ts) == FoldL(LAMBDA a, b : Common(a, b), t, ts)

(* ---------------------------------------------------------- queries *)
\* evaluation context: the row of each source, and
\*   w = [tabs: tables, vars: values with types, rn: row number, st: column types per source, grp: rows of the group, by: characters are bytes]
\* (one recursive operator for all of them, the parts are named for readability)
RECURSIVE XX(_, _, _, _)
T(e, w) == XX("type", e, w, <<>>)
Ev(e, w, env) == XX("value", e, w, env)
P(p, w, env) == XX("cond", p, w, env)
Agg(e, w, rows) == XX("agg", e, w, rows)
RunQ(q, w) == XX("query", q, w, <<>>)
QTypes(q, w) == XX("types", q, w, <<>>)
Case_(bs, els, w, env) == XX("case", <<bs, els>>, w, env)
TabTypes(ref, w) == IF ref[1] = "t" THEN w.tabs[ref[2]].types ELSE QTypes(ref[2], w)
TabNames(ref, w) == IF ref[1] = "t" THEN w.tabs[ref[2]].names ELSE [k \in 1..Len(ref[2].sel) |-> ref[2].sel[k][2]]
Star(q) == Len(q.sel) = 1 /\ q.sel[1][1][1] = "star"
\* the operands of a UNION ALL are written as they are; only those of the same types have a common use
MixedQ(q, w) == LET ty(x) == QTypes([x EXCEPT !.union = <<>>], w) IN \E k \in 1..Len(q.union) : ty(q.union[k]) # ty(q)
WithSt(q, w) == [w EXCEPT !.st = [k \in 1..Len(q.from) |-> TabTypes(q.from[k][2], w)]]
\* the select list without asterisks
RECURSIVE StarCols(_, _, _)
StarCols(q, w, s) == IF s > Len(q.from) THEN <<>>
  ELSE LET n == TabNames(q.from[s][2], w) IN [c \in 1..Len(n) |-> <<<<"col", s, c>>, n[c]>>] \o StarCols(q, w, s + 1)
Sel(q, w) == IF Star(q) THEN StarCols(q, w, 1) ELSE q.sel
\* static types
TB(e, w) ==
  CASE e[1] = "col" -> w.st[e[2]][e[3]]
    [] e[1] \in {"int", "rownum"} -> "i"
    [] e[1] = "flt" -> "f"
    [] e[1] \in {"str", "null"} -> "s"
    [] e[1] = "var" -> w.vars[e[2]].t
    [] e[1] = "op" -> OpType(e[2], T(e[3], w), T(e[4], w))
    [] e[1] = "neg" -> (LET t == T(e[2], w) IN IF t = "s" THEN "e" ELSE t)
    [] e[1] = "bnot" -> (LET t == T(e[2], w) IN IF t # "i" THEN "e" ELSE t)
    [] e[1] = "fn" -> (LET ts == [k \in 1..Len(e[3]) |-> T(e[3][k], w)] IN
                       IF \E k \in 1..Len(ts) : ts[k] = "e" THEN "e" ELSE FnType(e[2], ts))
    [] e[1] = "cast" -> (IF T(e[2], w) = "e" THEN "e" ELSE CastType(e[3]))
    [] e[1] = "case" -> CommonAll(T(e[2][1][2], w), [k \in 1..(Len(e[2]) + Len(e[3])) |-> IF k <= Len(e[2]) THEN T(e[2][k][2], w) ELSE T(e[3][1], w)])
    [] e[1] = "scase" -> CommonAll(T(e[3][1][2], w), [k \in 1..(Len(e[3]) + Len(e[4])) |-> IF k <= Len(e[3]) THEN T(e[3][k][2], w) ELSE T(e[4][1], w)])
    [] e[1] = "agg" -> (IF e[2] = "count" THEN "i" ELSE LET t == T(e[3], w) IN IF t = "s" /\ e[2] \in {"sum", "avg"} THEN "e" ELSE t)
    [] e[1] = "sub" -> QTypes(e[2], w)[1]
    [] OTHER -> "e"
QTypesB(q, w) == LET w2 == WithSt(q, w) s == Sel(q, w2)
                    own == [k \in 1..Len(s) |-> T(s[k][1], w2)]
                IN IF q.union = <<>> THEN own
                   ELSE FoldL(LAMBDA a, u : LET b == QTypes(u, w) IN IF Len(a) # Len(b) THEN a ELSE [k \in 1..Len(a) |-> Common(a[k], b[k])], own, q.union)
\* value of the first branch whose condition holds
Case_B(bs, els, w, env) ==
  IF bs = <<>> THEN (IF els = <<>> THEN NULL ELSE Ev(els[1], w, env))
  ELSE LET c == P(bs[1][1], w, env) IN
       IF c = "t" THEN Ev(bs[1][2], w, env) ELSE IF c = "e" THEN ERR ELSE IF c = "u" THEN UNK
       ELSE Case_(Tail(bs), els, w, env)
EvB(e, w, env) ==
  CASE e[1] = "col" -> (IF e[3] > Len(env[e[2]]) THEN NULL ELSE env[e[2]][e[3]])
    [] e[1] = "int" -> I(e[2])
    [] e[1] = "flt" -> F(e[2])
    [] e[1] = "str" -> S(e[2])
    [] e[1] = "null" -> NULL
    [] e[1] = "var" -> w.vars[e[2]].v
    [] e[1] = "rownum" -> I(w.rn)
    [] e[1] = "op" -> Op2(e[2], T(e, w), Ev(e[3], w, env), Ev(e[4], w, env))
    [] e[1] = "neg" -> (LET v == Ev(e[2], w, env) IN
                        IF Bad(v) \/ IsNull(v) THEN v ELSE IF v[1] = "i" THEN I(-v[2]) ELSE IF v[1] = "s" THEN ERR ELSE IF v[2] = 0 THEN UNK ELSE F(-v[2]))
    [] e[1] = "bnot" -> (LET v == Ev(e[2], w, env) IN IF Bad(v) \/ IsNull(v) THEN v ELSE IF v[1] # "i" THEN ERR ELSE I(-v[2] - 1))
    [] e[1] = "fn" -> Fn(e[2], [k \in 1..Len(e[3]) |-> Ev(e[3][k], w, env)], [k \in 1..Len(e[3]) |-> T(e[3][k], w)], w.by)
    [] e[1] = "cast" -> Cast(Ev(e[2], w, env), e[3], e[4], w.by)
    [] e[1] = "case" -> To(Case_(e[2], e[3], w, env), T(e, w))
    [] e[1] = "scase" -> To(Case_([k \in 1..Len(e[3]) |-> <<<<"cmp", "=", e[2], e[3][k][1]>>, e[3][k][2]>>], e[4], w, env), T(e, w))
    [] e[1] = "agg" -> Agg(e, w, w.grp)
    [] e[1] = "sub" -> (LET r == RunQ(e[2], w) IN
                        IF MixedQ(e[2], w) THEN UNK ELSE IF r.st # "ok" THEN <<r.st>>
                        ELSE IF Len(r.rows) > 1 THEN ERR ELSE IF r.rows = <<>> THEN NULL ELSE r.rows[1][1])
    [] OTHER -> ERR
PB(p, w, env) ==
  CASE p[1] = "cmp" -> Cmp3(p[2], Common(T(p[3], w), T(p[4], w)), Ev(p[3], w, env), Ev(p[4], w, env))
    [] p[1] \in {"like", "nlike"} ->
         (LET a == ToStr(Ev(p[2], w, env)) b == ToStr(Ev(p[3], w, env))
              r == IF AnyBad(<<a, b>>) THEN Mix(<<a, b>>)[1] ELSE IF AnyNull(<<a, b>>) THEN "n" ELSE Like3(a[2], b[2])
          IN IF p[1] = "like" THEN r ELSE Not3(r))
    [] p[1] \in {"in", "nin"} ->
         (LET r == In3(CommonAll(T(p[2], w), [k \in 1..Len(p[3]) |-> T(p[3][k], w)]), Ev(p[2], w, env), [k \in 1..Len(p[3]) |-> Ev(p[3][k], w, env)])
          IN IF p[1] = "in" THEN r ELSE Not3(r))
    [] p[1] \in {"insub", "ninsub"} ->
         (LET q == RunQ(p[3], w) IN
          IF MixedQ(p[3], w) THEN "u" ELSE IF q.st # "ok" THEN q.st
          ELSE LET r == In3(Common(T(p[2], w), QTypes(p[3], w)[1]), Ev(p[2], w, env), [k \in 1..Len(q.rows) |-> q.rows[k][1]])
               IN IF p[1] = "insub" THEN r ELSE Not3(r))
    [] p[1] = "isnull" -> (LET v == Ev(p[2], w, env) IN IF Bad(v) THEN v[1] ELSE TV(IsNull(v)))
    [] p[1] = "notnull" -> (LET v == Ev(p[2], w, env) IN IF Bad(v) THEN v[1] ELSE TV(~IsNull(v)))
    [] p[1] = "not" -> Not3(P(p[2], w, env))
    [] p[1] = "and" -> And3(P(p[2], w, env), P(p[3], w, env))
    [] OTHER -> Or3(P(p[2], w, env), P(p[3], w, env))
\* aggregates: COUNT counts the rows of the group, the others ignore nulls
AggB(e, w, rows) ==
  IF e[2] = "count" THEN I(Len(rows))
  ELSE LET t == T(e[3], w)
           vs == [k \in 1..Len(rows) |-> To(Ev(e[3], w, rows[k]), t)]
           xs == SelectSeq(vs, LAMBDA v : ~IsNull(v))
           Best(sg) == CHOOSE k \in 1..Len(xs) : (\A j \in 1..Len(xs) : sg * VCmp(xs[k], xs[j], t) <= 0) /\ (\A j \in 1..(k - 1) : VCmp(xs[k], xs[j], t) # 0)
           tot == IF xs = <<>> THEN NULL ELSE FoldL(LAMBDA a, b : IF Bad(a) THEN a ELSE Op2("+", t, a, b), xs[1], Tail(xs))
       IN IF AnyBad(vs) THEN Worst(vs)
          ELSE IF t = "e" THEN ERR
          ELSE IF xs = <<>> THEN NULL
          ELSE CASE e[2] = "min" -> xs[Best(1)]
                 [] e[2] = "max" -> xs[Best(-1)]
                 [] e[2] = "sum" -> (IF t = "s" THEN ERR ELSE tot)
                 [] OTHER -> (IF t = "s" THEN ERR ELSE IF Bad(tot) THEN tot
                              ELSE IF t = "i" THEN I(TDiv(tot[2], Len(xs)))
                              ELSE IF tot[2] % Len(xs) # 0 THEN UNK ELSE F(TDiv(tot[2], Len(xs))))
\* the aggregates of an expression, of a condition
RECURSIVE AA(_, _)
AggsOf(e) == AA("e", e)
AggsOfP(p) == AA("p", p)
AggsOfB(e) == CASE e[1] = "agg" -> {e}
               [] e[1] = "op" -> AggsOf(e[3]) \cup AggsOf(e[4])
               [] e[1] \in {"neg", "bnot", "cast"} -> AggsOf(e[2])
               [] e[1] = "fn" -> UNION {AggsOf(e[3][k]) : k \in 1..Len(e[3])}
               [] e[1] = "case" -> UNION ({AggsOfP(e[2][k][1]) : k \in 1..Len(e[2])} \cup {AggsOf(e[2][k][2]) : k \in 1..Len(e[2])} \cup {AggsOf(e[3][k]) : k \in 1..Len(e[3])})
               [] e[1] = "scase" -> AggsOf(e[2]) \cup UNION ({AggsOf(e[3][k][1]) : k \in 1..Len(e[3])} \cup {AggsOf(e[3][k][2]) : k \in 1..Len(e[3])} \cup {AggsOf(e[4][k]) : k \in 1..Len(e[4])})
               [] OTHER -> {}
AggsOfPB(p) == CASE p[1] = "cmp" -> AggsOf(p[3]) \cup AggsOf(p[4])
               [] p[1] \in {"like", "nlike"} -> AggsOf(p[2]) \cup AggsOf(p[3])
               [] p[1] \in {"in", "nin"} -> AggsOf(p[2]) \cup UNION {AggsOf(p[3][k]) : k \in 1..Len(p[3])}
               [] p[1] \in {"insub", "ninsub", "isnull", "notnull"} -> AggsOf(p[2])
               [] p[1] = "not" -> AggsOfP(p[2])
               [] OTHER -> AggsOfP(p[2]) \cup AggsOfP(p[3])
AA(k, x) == IF k = "e" THEN AggsOfB(x) ELSE AggsOfPB(x)
HasAgg(e) == AggsOf(e) # {}
\* rows of a reference to a table or subquery
RefRows(ref, w) == IF ref[1] = "t" THEN [st |-> "ok", rows |-> w.tabs[ref[2]].rows, ord |-> "seq"]
                   ELSE IF MixedQ(ref[2], w) THEN [st |-> "u", rows |-> <<>>, ord |-> "seq"]
                   ELSE LET r == RunQ(ref[2], w) IN [st |-> r.st, rows |-> r.rows, ord |-> IF r.keys = <<>> THEN r.ord ELSE "set"]
\* the sources an expression refers to
RECURSIVE SrcsOf(_)
SrcsOf(e) == CASE e[1] = "col" -> {e[2]}
               [] e[1] = "op" -> SrcsOf(e[3]) \cup SrcsOf(e[4])
               [] e[1] \in {"neg", "bnot", "cast"} -> SrcsOf(e[2])
               [] e[1] = "fn" -> UNION {SrcsOf(e[3][k]) : k \in 1..Len(e[3])}
               [] OTHER -> {}
\* a key of an equality fails for a row of either side, even if there is no row on the other side to compare it with
RECURSIVE JoinBad(_, _, _, _)
JoinBad(p, w, ls, rs) ==
  CASE p[1] = "and" -> JoinBad(p[2], w, ls, rs) \/ JoinBad(p[3], w, ls, rs)
    [] p[1] = "cmp" /\ p[2] = "=" ->
         (LET t == Common(T(p[3], w), T(p[4], w))
              side(e, env) == Bad(To(Ev(e, w, env), t))
              n == IF ls = <<>> THEN 0 ELSE Len(ls[1])
              both(e) == IF SrcsOf(e) = {} THEN FALSE
                         ELSE IF \A x \in SrcsOf(e) : x <= n THEN \E k \in 1..Len(ls) : side(e, ls[k])
                         ELSE FALSE
              right(e) == SrcsOf(e) # {} /\ Cardinality(SrcsOf(e)) = 1
                          /\ (LET x == CHOOSE x \in SrcsOf(e) : TRUE IN (n = 0 \/ x = n + 1) /\
                              \E k \in 1..Len(rs) : IF Len(w.st[x]) = 0 THEN FALSE ELSE side(e, [y \in 1..Len(w.st) |-> IF y = x THEN rs[k] ELSE <<>>]))
          IN t # "s" /\ (both(p[3]) \/ both(p[4]) \/ right(p[3]) \/ right(p[4])))
    [] OTHER -> FALSE
\* join the sources one after the other
RECURSIVE Joins(_, _, _)
Joins(fs, w, acc) ==
  IF fs = <<>> \/ acc.st # "ok" THEN acc
  ELSE LET s == fs[1] rr == RefRows(s[2], w) IN
    IF rr.st # "ok" THEN [acc EXCEPT !.st = rr.st]
    ELSE IF s[1] = "from" THEN Joins(Tail(fs), w, [st |-> "ok", rows |-> [k \in 1..Len(rr.rows) |-> <<rr.rows[k]>>], ord |-> rr.ord])
    ELSE LET one(env) == LET ext == [k \in 1..Len(rr.rows) |-> Append(env, rr.rows[k])]
                             tv == [k \in 1..Len(ext) |-> P(s[3], w, ext[k])]
                             sel == {k \in 1..Len(ext) : tv[k] = "t"}
                         IN IF \E k \in 1..Len(ext) : tv[k] \in {"e", "u"} THEN [b |-> TRUE, r |-> <<>>]
                            ELSE [b |-> FALSE, r |-> IF sel = {} THEN (IF s[1] = "left" THEN <<Append(env, <<>>)>> ELSE <<>>)
                                                     ELSE LET ks == SelectSeq([k \in 1..Len(ext) |-> k], LAMBDA k : k \in sel) IN [k \in 1..Len(ks) |-> ext[ks[k]]]]
             parts == [k \in 1..Len(acc.rows) |-> one(acc.rows[k])]
         IN IF (\E k \in 1..Len(parts) : parts[k].b) \/ JoinBad(s[3], w, acc.rows, rr.rows) THEN [acc EXCEPT !.st = "u"]
            ELSE Joins(Tail(fs), w, [st |-> "ok", rows |-> Concat([k \in 1..Len(parts) |-> parts[k].r]), ord |-> "set"])
\* equivalence of rows for DISTINCT and GROUP BY
\* (a null groups with the empty text, as it sorts with it)
KeyOf(v) == IF v[1] = "s" THEN <<"s", Norm(v[2])>> ELSE IF v[1] = "n" THEN <<"s", <<>>>> ELSE v
RowKey(r) == [k \in 1..Len(r) |-> KeyOf(r[k])]
RECURSIVE Dedup(_, _)
Dedup(rows, seen) == IF rows = <<>> THEN <<>>
  ELSE IF RowKey(rows[1]) \in seen THEN Dedup(Tail(rows), seen)
  ELSE <<rows[1]>> \o Dedup(Tail(rows), seen \cup {RowKey(rows[1])})
RECURSIVE GroupRows(_, _, _)
\* sequence of groups (each a sequence of rows) in the order of first occurrence
GroupRows(rows, keys, acc) ==
  IF rows = <<>> THEN acc
  ELSE LET hit == {k \in 1..Len(acc) : acc[k].key = keys[1]} IN
       GroupRows(Tail(rows), Tail(keys),
         IF hit = {} THEN Append(acc, [key |-> keys[1], rows |-> <<rows[1]>>])
         ELSE LET k == CHOOSE k \in hit : TRUE IN [acc EXCEPT ![k].rows = Append(@, rows[1])])
KeyCmp(a, b) == IF Bad(a) \/ Bad(b) THEN 0 ELSE IF IsNull(a) THEN (IF IsNull(b) \/ (b[1] = "s" /\ Norm(b[2]) = <<>>) THEN 0 ELSE -1) ELSE IF IsNull(b) THEN (IF a[1] = "s" /\ Norm(a[2]) = <<>> THEN 0 ELSE 1) ELSE IF a[1] # b[1] THEN 0 ELSE VCmp(a, b, a[1])
RECURSIVE KeysCmp(_, _, _)
KeysCmp(a, b, ds) == IF a = <<>> THEN 0
  ELSE LET c == KeyCmp(a[1], b[1]) IN IF c # 0 THEN (IF ds[1] THEN -c ELSE c) ELSE KeysCmp(Tail(a), Tail(b), Tail(ds))
Has(x) == x # <<>>
Fail(st) == [st |-> st, rows |-> <<>>, keys |-> <<>>, ord |-> "seq"]
\* the core of one SELECT: its output rows (before TOP and ORDER BY) with the environments they stem from
Core(q, w0) ==
  LET w == WithSt(q, w0)
      sl == Sel(q, w)
      agg == q.group # <<>> \/ q.having # <<>> \/ (\E k \in 1..Len(sl) : HasAgg(sl[k][1]))
      j == IF q.from = <<>> THEN [st |-> "ok", rows |-> <<<<>>>>, ord |-> "seq"] ELSE Joins(q.from, w, [st |-> "ok", rows |-> <<>>, ord |-> "seq"])
      static == \E k \in 1..Len(sl) : T(sl[k][1], w) = "e"
  IN IF static THEN [st |-> "e", out |-> <<>>]
     ELSE IF j.st # "ok" THEN [st |-> j.st, out |-> <<>>]
     ELSE LET tv == [k \in 1..Len(j.rows) |-> IF Has(q.where) THEN P(q.where[1], w, j.rows[k]) ELSE "t"]
              ks == SelectSeq([k \in 1..Len(j.rows) |-> k], LAMBDA k : tv[k] = "t")
              env == [k \in 1..Len(ks) |-> j.rows[ks[k]]]
          IN IF \E k \in 1..Len(tv) : tv[k] = "u" THEN [st |-> "u", out |-> <<>>]
             ELSE IF \E k \in 1..Len(tv) : tv[k] = "e" THEN [st |-> "e", out |-> <<>>]
             ELSE IF ~agg THEN
               LET out == [k \in 1..Len(env) |-> LET w2 == [w EXCEPT !.rn = k] IN [v |-> [c \in 1..Len(sl) |-> Ev(sl[c][1], w2, env[k])], env |-> env[k], w |-> w2]]
               IN [st |-> IF \E k \in 1..Len(out) : \E c \in 1..Len(sl) : out[k].v[c] = UNK THEN "u"
                          ELSE IF \E k \in 1..Len(out) : AnyBad(out[k].v) THEN "e" ELSE "ok", out |-> out, ord |-> j.ord]
             ELSE
               LET gk == [k \in 1..Len(env) |-> [g \in 1..Len(q.group) |-> KeyOf(Ev(q.group[g], w, env[k]))]]
                   gs == IF q.group = <<>> THEN <<[key |-> <<>>, rows |-> env]>> ELSE GroupRows(env, gk, <<>>)
                   badk == \E k \in 1..Len(gk) : AnyBad(gk[k])
                   \* an expression outside aggregates has the value it has for the first row of the group
                   wg(g) == [w EXCEPT !.grp = gs[g].rows]
                   ev(g) == IF gs[g].rows = <<>> THEN [k \in 1..Len(q.from) |-> <<>>] ELSE gs[g].rows[1]
                   \* the arguments of all aggregates are computed for all rows, of groups that HAVING drops too
                   ags == UNION ({AggsOf(sl[k][1]) : k \in 1..Len(sl)} \cup {AggsOfP(q.having[k]) : k \in 1..Len(q.having)})
                   badarg == \E a \in ags : a[2] # "count" /\ \E g \in 1..Len(gs) : Bad(Agg(a, wg(g), gs[g].rows))
                   hv == [g \in 1..Len(gs) |-> IF Has(q.having) THEN P(q.having[1], wg(g), ev(g)) ELSE "t"]
                   keep == SelectSeq([g \in 1..Len(gs) |-> g], LAMBDA g : hv[g] = "t")
                   out == [k \in 1..Len(keep) |-> [v |-> [c \in 1..Len(sl) |-> Ev(sl[c][1], wg(keep[k]), ev(keep[k]))], env |-> ev(keep[k]), w |-> wg(keep[k])]]
                   fails == (\E g \in 1..Len(hv) : hv[g] = "e") \/ (\E k \in 1..Len(out) : AnyBad(out[k].v))
               IN [st |-> IF badk \/ (badarg /\ ~fails) \/ (\E g \in 1..Len(hv) : hv[g] \in {"u"}) \/ (\E k \in 1..Len(out) : \E c \in 1..Len(sl) : out[k].v[c] = UNK) THEN "u"
                          ELSE IF fails THEN "e" ELSE "ok", out |-> out,
                   ord |-> "set"]
\* result: rows in an order; keys: the sort keys (<<>> if none); ord: "seq" if the order of the rows is fixed
RunQB(q, w0) ==
  LET c == Core(q, w0) w == WithSt(q, w0) sl == Sel(q, w) IN
  \* TOP may end the query before the row that fails
  IF c.st # "ok" THEN Fail(IF c.st = "e" /\ q.top >= 0 THEN "u" ELSE c.st)
  ELSE
  LET vals == [k \in 1..Len(c.out) |-> c.out[k].v]
      rows0 == IF q.distinct THEN Dedup(vals, {}) ELSE vals
      \* the row that represents a distinct row
      src(k) == IF q.distinct THEN CHOOSE j \in 1..Len(vals) : RowKey(vals[j]) = RowKey(rows0[k]) /\ \A i \in 1..(j - 1) : RowKey(vals[i]) # RowKey(rows0[k]) ELSE k
      key(k) == [o \in 1..Len(q.order) |-> LET x == q.order[o] IN
                   IF x[1] \in {"o", "a"} THEN rows0[k][x[2]] ELSE Ev(x[2], c.out[src(k)].w, c.out[src(k)].env)]
      keys0 == [k \in 1..Len(rows0) |-> key(k)]
      ds == [o \in 1..Len(q.order) |-> q.order[o][3]]
      perm == SortSeq([k \in 1..Len(rows0) |-> k], LAMBDA a, b : LET z == KeysCmp(keys0[a], keys0[b], ds) IN z < 0 \/ (z = 0 /\ a < b))
      sorted == Has(q.order)
      rows1 == IF sorted THEN [k \in 1..Len(perm) |-> rows0[perm[k]]] ELSE rows0
      keys1 == IF sorted THEN [k \in 1..Len(perm) |-> keys0[perm[k]]] ELSE <<>>
      badkey == sorted /\ \E k \in 1..Len(keys0) : AnyBad(keys0[k])
      \* a key column holds values of one type
      mixed == sorted /\ \E o \in 1..Len(q.order) : Cardinality({keys0[k][o][1] : k \in 1..Len(keys0)} \ {"n"}) > 1
      cut == q.top >= 0 /\ q.top < Len(rows1)
      \* does the cut separate rows that may come in any order?
      loose == cut /\ q.top > 0 /\ IF sorted THEN KeysCmp(keys1[q.top], keys1[q.top + 1], ds) = 0 /\ rows1[q.top] # rows1[q.top + 1] ELSE c.ord # "seq" \/ q.union # <<>>
      n == IF q.top >= 0 THEN Min2(q.top, Len(rows1)) ELSE Len(rows1)
      res == [st |-> IF badkey \/ loose \/ mixed THEN "u" ELSE "ok", rows |-> SubSeq(rows1, 1, n),
              keys |-> IF sorted THEN SubSeq(keys1, 1, n) ELSE <<>>, ord |-> IF c.ord = "seq" THEN "seq" ELSE "set"]
  IN IF q.union = <<>> THEN res
     ELSE LET us == [k \in 1..Len(q.union) |-> RunQ(q.union[k], w0)]
              all == res.rows \o Concat([k \in 1..Len(us) |-> us[k].rows])
          IN IF \E k \in 1..Len(q.union) : Len(Sel(q.union[k], WithSt(q.union[k], w0))) # Len(sl) THEN Fail("e")
             ELSE IF \E k \in 1..Len(us) : us[k].st = "u" THEN Fail("u")
             ELSE IF \E k \in 1..Len(us) : us[k].st = "e" THEN Fail("e")
             ELSE IF res.st # "ok" THEN Fail(res.st)
             ELSE IF MixedQ(q, w0) THEN Fail("u")
             ELSE [st |-> "ok", rows |-> all, keys |-> <<>>, ord |-> IF res.ord = "seq" /\ (\A k \in 1..Len(us) : us[k].ord = "seq") THEN "seq" ELSE "set"]
XX(k, x, w, y) == CASE k = "type" -> TB(x, w) [] k = "value" -> EvB(x, w, y) [] k = "cond" -> PB(x, w, y) [] k = "agg" -> AggB(x, w, y)
                    [] k = "query" -> RunQB(x, w) [] k = "types" -> QTypesB(x, w) [] OTHER -> Case_B(x[1], x[2], w, y)
(* expressions of literals only are computed when the statement is prepared:
   one that fails makes the statement fail, even if no row needs its value *)
RECURSIVE LitOnly(_)
LitOnly(e) == CASE e[1] \in {"int", "flt", "str", "null"} -> TRUE
                [] e[1] = "op" -> LitOnly(e[3]) /\ LitOnly(e[4])
                [] e[1] \in {"neg", "bnot", "cast"} -> LitOnly(e[2])
                [] e[1] = "fn" -> \A k \in 1..Len(e[3]) : LitOnly(e[3][k])
                [] e[1] = "scase" -> LitOnly(e[2]) /\ (\A k \in 1..Len(e[3]) : LitOnly(e[3][k][1]) /\ LitOnly(e[3][k][2])) /\ (\A k \in 1..Len(e[4]) : LitOnly(e[4][k]))
                [] OTHER -> FALSE
RECURSIVE BL(_, _, _)
BadE(e, w) == BL("e", e, w)
BadP(p, w) == BL("p", p, w)
BadQ(q, w) == BL("q", q, w)
BadLitE(e, w) ==
  \/ LitOnly(e) /\ Bad(Ev(e, w, <<>>))
  \/ CASE e[1] = "op" -> BadE(e[3], w) \/ BadE(e[4], w)
       [] e[1] \in {"neg", "bnot", "cast"} -> BadE(e[2], w)
       [] e[1] = "fn" -> \E k \in 1..Len(e[3]) : BadE(e[3][k], w)
       [] e[1] = "case" -> (\E k \in 1..Len(e[2]) : BadP(e[2][k][1], w) \/ BadE(e[2][k][2], w)) \/ (\E k \in 1..Len(e[3]) : BadE(e[3][k], w))
       [] e[1] = "scase" -> (BadE(e[2], w) \/ (\E k \in 1..Len(e[3]) : BadP(<<"cmp", "=", e[2], e[3][k][1]>>, w) \/ BadE(e[3][k][2], w)) \/ (\E k \in 1..Len(e[4]) : BadE(e[4][k], w)))
       [] e[1] = "agg" -> e[2] # "count" /\ BadE(e[3], w)
       \* a subquery that is an expression is computed even if no row needs its value
       [] e[1] = "sub" -> BadQ(e[2], w) \/ Bad(Ev(e, w, <<>>))
       [] OTHER -> FALSE
\* comparisons with a literal convert it to the type of the comparison
BadCv(es, t) == \E k \in 1..Len(es) : LitOnly(es[k]) /\ es[k][1] = "str" /\ Bad(To(S(es[k][2]), t))
BadLitP(p, w) ==
  CASE p[1] = "cmp" -> BadE(p[3], w) \/ BadE(p[4], w) \/ BadCv(<<p[3], p[4]>>, Common(T(p[3], w), T(p[4], w)))
    [] p[1] \in {"like", "nlike"} -> BadE(p[2], w) \/ BadE(p[3], w)
    [] p[1] \in {"in", "nin"} -> BadE(p[2], w) \/ (\E k \in 1..Len(p[3]) : BadE(p[3][k], w)) \/ BadCv(Append(p[3], p[2]), CommonAll(T(p[2], w), [k \in 1..Len(p[3]) |-> T(p[3][k], w)]))
    \* so is what a subquery lists
    [] p[1] \in {"insub", "ninsub"} -> BadE(p[2], w) \/ BadQ(p[3], w)
         \/ (\E q \in {RunQ(p[3], w)} : q.st = "ok" /\ \E t \in {Common(T(p[2], w), QTypes(p[3], w)[1])} : \E k \in 1..Len(q.rows) : Bad(To(q.rows[k][1], t)))
    [] p[1] \in {"isnull", "notnull"} -> BadE(p[2], w)
    [] p[1] = "not" -> BadP(p[2], w)
    [] OTHER -> BadP(p[2], w) \/ BadP(p[3], w)
BadLitQ(q, w0) ==
  LET w == WithSt(q, w0) IN
  \/ MixedQ(q, w0)
  \/ (~Star(q) /\ \E k \in 1..Len(q.sel) : BadE(q.sel[k][1], w))
  \/ (\E k \in 1..Len(q.from) : (q.from[k][2][1] = "q" /\ BadQ(q.from[k][2][2], w0)) \/ (q.from[k][3] # <<>> /\ BadP(q.from[k][3], w)))
  \/ (\E k \in 1..Len(q.where) : BadP(q.where[k], w)) \/ (\E k \in 1..Len(q.having) : BadP(q.having[k], w))
  \/ (\E k \in 1..Len(q.group) : BadE(q.group[k], w)) \/ (\E k \in 1..Len(q.order) : q.order[k][1] = "e" /\ BadE(q.order[k][2], w))
  \/ (\E k \in 1..Len(q.union) : BadQ(q.union[k], w0))
BL(k, x, w) == CASE k = "e" -> BadLitE(x, w) [] k = "p" -> BadLitP(x, w) [] OTHER -> BadLitQ(x, w)
\* what is observed: status, header, and the rows as texts in blocks; rows may be permuted within a block
RowText(r) == [k \in 1..Len(r) |-> IF IsNull(r[k]) THEN <<"n">> ELSE <<"s", AsText(r[k])>>]
RECURSIVE Blocks(_, _)
Blocks(rows, keys) ==
  IF rows = <<>> THEN <<>>
  ELSE LET n == CHOOSE n \in 1..Len(rows) : (\A k \in 1..n : keys[k] = keys[1]) /\ (n = Len(rows) \/ keys[n + 1] # keys[1])
       IN <<SubSeq(rows, 1, n)>> \o Blocks(SubSeq(rows, n + 1, Len(rows)), SubSeq(keys, n + 1, Len(keys)))
Observe(q, w0) ==
  LET r == RunQ(q, w0) w == WithSt(q, w0) s == Sel(q, w) IN
  [st |-> IF r.st = "ok" /\ BadQ(q, w0) THEN "u" ELSE r.st, hdr |-> IF r.st = "ok" THEN [k \in 1..Len(s) |-> s[k][2]] ELSE <<>>,
   rows |-> LET t == [k \in 1..Len(r.rows) |-> RowText(r.rows[k])] IN
            IF t = <<>> THEN <<>>
            ELSE IF r.keys # <<>> THEN Blocks(t, [k \in 1..Len(t) |-> RowKey(r.keys[k])])
            ELSE IF r.ord = "seq" THEN [k \in 1..Len(t) |-> <<t[k]>>] ELSE <<t>>]
=============================================================================
