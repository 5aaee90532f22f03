------------------------------- MODULE Csv -------------------------------
(* E15: delimited text.  State: two tables, each a list of rows of texts, and the
   text of its file; a step is one run of a statement with options of its own.
   What is written follows from the values, the delimiter (that of the left side
   unless one is asked for), the terminator, the quoting standard and the header
   option; what has been written reads back as the same values (Laws). *)
EXTENDS Seeded
CONSTANTS Lo, Hi
VARIABLES sd, n, f, log
vars == <<sd, n, f, log>>
LF == 10
CR == 13
QT == 34
N == <<110>>
(* ------------------------------------------------------------- writing *)
Has(t, d) == \E i \in 1..Len(t) : i + Len(d) - 1 <= Len(t) /\ SubSeq(t, i, i + Len(d) - 1) = d
Breaks(t) == \E i \in 1..Len(t) : t[i] \in {LF, CR}
Dbl(t) == Concat([i \in 1..Len(t) |-> IF t[i] = QT THEN <<QT, QT>> ELSE <<t[i]>>])
Q(t, std) == <<QT>> \o (IF std = "weak" THEN t ELSE Dbl(t)) \o <<QT>>
\* v is <<>> for null, <<text>> otherwise
Field(v, d, std) ==
  IF v = <<>> THEN <<>>
  ELSE LET t == v[1] IN
       CASE std = "all" -> Q(t, std)
         [] std = "none" -> t
         [] std = "weak" -> (IF Has(t, d) \/ Breaks(t) THEN Q(t, std) ELSE t)
         [] OTHER -> (IF Has(t, d) \/ Breaks(t) \/ Has(t, <<QT>>) THEN Q(t, std) ELSE t)
Join(fs, d) == Concat([i \in 1..Len(fs) |-> IF i = 1 THEN fs[i] ELSE d \o fs[i]])
Line(r, o) == Join([i \in 1..Len(r) |-> Field(r[i], o.d, o.std)], o.d) \o o.term
Some(r) == [i \in 1..Len(r) |-> <<r[i]>>]
(* ------------------------------------------------------------- reading *)
\* texts of fields of one standard; state of the scan: <<rows, row, field, mode>>, mode: "s" start of a field, "u" unquoted, "q" quoted, "e" after a quote
StartsAt(t, i, d) == i + Len(d) - 1 <= Len(t) /\ SubSeq(t, i, i + Len(d) - 1) = d
EndCR(x) == IF x # <<>> /\ Last(x) = CR THEN Front(x) ELSE x
RECURSIVE Scan(_, _, _, _, _, _, _, _)
Scan(t, i, d, std, rows, row, fld, m) ==
  IF i > Len(t) THEN (IF row = <<>> /\ fld = <<>> /\ m = "s" THEN rows ELSE Append(rows, Append(row, IF m = "u" THEN EndCR(fld) ELSE fld)))
  ELSE IF m = "s" /\ t[i] = QT /\ std # "none" THEN Scan(t, i + 1, d, std, rows, row, <<>>, "q")
  ELSE IF m = "q" /\ t[i] = QT /\ std = "weak" THEN
       (IF i = Len(t) \/ StartsAt(t, i + 1, d) \/ t[i + 1] \in {LF, CR} THEN Scan(t, i + 1, d, std, rows, row, fld, "e") ELSE Scan(t, i + 1, d, std, rows, row, Append(fld, QT), "q"))
  ELSE IF m = "q" /\ t[i] = QT THEN (IF i < Len(t) /\ t[i + 1] = QT THEN Scan(t, i + 2, d, std, rows, row, Append(fld, QT), "q") ELSE Scan(t, i + 1, d, std, rows, row, fld, "e"))
  ELSE IF m = "q" THEN Scan(t, i + 1, d, std, rows, row, Append(fld, t[i]), "q")
  ELSE IF StartsAt(t, i, d) THEN Scan(t, i + Len(d), d, std, rows, Append(row, fld), <<>>, "s")
  ELSE IF t[i] = LF THEN Scan(t, i + 1, d, std, Append(rows, Append(row, IF m = "u" THEN EndCR(fld) ELSE fld)), <<>>, <<>>, "s")
  ELSE IF m = "e" THEN Scan(t, i + 1, d, std, rows, row, fld, "e")
  ELSE Scan(t, i + 1, d, std, rows, row, Append(fld, t[i]), "u")
Parse(t, d, std) == Scan(t, 1, d, std, <<>>, <<>>, <<>>, "s")
\* the delimiter a reader finds by itself: the candidate that occurs most in the first line
Cand == <<44, 124, 9, 59>>
First(t) == LET e == {i \in 1..Len(t) : t[i] = LF} IN IF e = {} THEN t ELSE SubSeq(t, 1, (CHOOSE i \in e : \A j \in e : i <= j) - 1)
Cnt(t, c) == Cardinality({i \in 1..Len(t) : t[i] = c})
Detect(t) == LET l == First(t) IN
  IF \A k \in 1..4 : Cnt(l, Cand[k]) = 0 THEN <<44>>
  ELSE <<Cand[CHOOSE k \in 1..4 : (\A j \in 1..4 : Cnt(l, Cand[j]) <= Cnt(l, Cand[k])) /\ (\A j \in 1..(k - 1) : Cnt(l, Cand[j]) < Cnt(l, Cand[k]))]>>
(* ------------------------------------------------- what can be written how *)
Vals(tab) == {tab.names[i] : i \in 1..Len(tab.names)} \cup UNION {{tab.rows[i][j][1] : j \in {k \in 1..Len(tab.rows[i]) : tab.rows[i][k] # <<>>}} : i \in 1..Len(tab.rows)}
Fits(tab, d, std) == \A t \in Vals(tab) :
  CASE std = "none" -> ~Has(t, d) /\ ~Breaks(t)
    [] std = "weak" -> ~Breaks(t) /\ (t = <<>> \/ t[1] # QT) /\ (Has(t, d) => ~Has(t, <<QT>>))
    [] OTHER -> TRUE
Delims == {<<44>>, <<124>>, <<9>>, <<59>>, <<58, 58>>}
Stds == {"rfc4180", "all", "none", "weak"}
InStd(std) == IF std = "all" THEN "rfc4180" ELSE std
(* ----------------------------------------------------------- first files *)
\* a , | tab ; . " LF CR space b
Alpha == <<97, 44, 124, 9, 59, 46, 34, 10, 13, 32, 98, 34, 44, 97>>
Names1 == <<<<97>>, <<97>>, <<97, 32, 98>>, <<120, 44, 121>>, <<113, 34, 114>>, <<112, 124, 113>>, <<97, 59>>>>
DelimL == <<<<44>>, <<124>>, <<9>>, <<59>>, <<58, 58>>, <<44>>, <<124>>>>
Val(s) == LET m == IF R(K(s, 1), 25) = 0 THEN 300 ELSE At(K(s, 2), <<0, 1, 1, 2, 2, 3, 4>>) IN [i \in 1..m |-> At(K(s, 10 + i), Alpha)]
\* a foreign file: fields quoted or not at will, either terminator, the last one missing or not
Foreign(s, v, d) == IF Ch(s, 4) THEN Q(v[1], "all") ELSE Field(v, d, "rfc4180")
File(s, nm, d) ==
  LET m == R(K(s, 1), 4)
      term == IF Ch(K(s, 2), 8) THEN <<LF>> ELSE <<CR, LF>>
      rows == [i \in 1..m |-> <<<<Val(K(s, 10 + i))>>, <<Val(K(s, 20 + i))>>, <<<<48 + i>>>>>>]
      ls == [i \in 1..(m + 1) |-> Join([j \in 1..3 |-> Foreign(K(s, 100 + 3 * i + j), IF i = 1 THEN <<nm[j]>> ELSE rows[i - 1][j], d)], d)]
  IN [tab |-> [names |-> nm, rows |-> rows], d |-> d, std |-> "rfc4180", raw |-> [i \in 1..m |-> ls[i + 1]],
      text |-> Concat([i \in 1..(m + 1) |-> ls[i] \o (IF i = m + 1 /\ Ch(K(s, 3), 3) THEN <<>> ELSE term)])]
(* ----------------------------------------------------------- statements *)
Sel(tab, ks) == [names |-> [k \in 1..Len(ks) |-> tab.names[ks[k]]], rows |-> [i \in 1..Len(tab.rows) |-> [k \in 1..Len(ks) |-> tab.rows[i][ks[k]]]]]
Keep(rows, P(_)) == SelectSeq(rows, P)
Rev(rows) == [i \in 1..Len(rows) |-> rows[Len(rows) + 1 - i]]
\* (no two rows of a table have the same third field: n)
Match(r, b) == {j \in 1..Len(b.rows) : b.rows[j][3] = r[3]}
JoinT(a, b, left) ==
  LET One(r) == IF Match(r, b) # {} THEN <<r \o <<b.rows[CHOOSE j \in Match(r, b) : TRUE][2]>>>> ELSE IF left THEN <<r \o <<<<>>>>>> ELSE <<>> IN
  [names |-> a.names \o <<b.names[2]>>, rows |-> Concat([i \in 1..Len(a.rows) |-> One(a.rows[i])])]
UpdT(a, t) == [a EXCEPT !.rows = [i \in 1..Len(a.rows) |-> IF a.rows[i][3] = <<<<49>>>> THEN [a.rows[i] EXCEPT ![2] = <<t>>] ELSE a.rows[i]]]
NotOne(r) == r[3] # <<<<49>>>>
One(kind) == kind \in {"star", "cols", "derived", "group", "order", "where", "stdin", "stdinorder", "update", "delete"}
Result(kind, a, b, t) ==
  CASE kind \in {"star", "derived", "stdin"} -> a
    [] kind = "cols" -> Sel(a, <<2, 1, 3>>)
    [] kind = "group" -> Sel(a, <<1, 3>>)
    [] kind \in {"order", "stdinorder"} -> [a EXCEPT !.rows = Rev(@)]
    [] kind = "where" -> [a EXCEPT !.rows = Keep(@, NotOne)]
    [] kind = "join" -> JoinT(a, b, FALSE)
    [] kind = "left" -> JoinT(a, b, TRUE)
    [] kind = "union" -> [a EXCEPT !.rows = @ \o b.rows]
    [] kind = "update" -> UpdT(a, t)
    [] kind = "delete" -> [a EXCEPT !.rows = Keep(@, NotOne)]
\* rows in the order of n
Asc(a) == \A i \in 1..(Len(a.rows) - 1) : a.rows[i][3][1][1] < a.rows[i + 1][3][1][1]
Kinds == <<"star", "cols", "derived", "group", "order", "where", "join", "left", "union", "stdin", "stdinorder", "update", "delete", "star">>
Init == sd \in Lo..Hi /\ n = 0 /\ log = <<>> /\ f = <<>>
Start(s) == \E d1 \in {At(K(s, 1), DelimL)}, d2 \in {At(K(s, 2), DelimL)} :
            \E f1 \in {File(K(s, 3), <<At(K(s, 5), Names1), <<98>>, N>>, d1)}, f2 \in {File(K(s, 4), <<At(K(s, 6), Names1), <<99>>, N>>, d2)} :
            f' = <<f1, f2>> /\ log' = <<<<"files", f1.text, f2.text, f1.tab.names, f2.tab.names>>>>
\* the options that make the files readable
NeedS(x) == Detect(x.text) # x.d
InOk(kind, x, y, s) == /\ (s = <<>> => ~NeedS(x)) /\ (s # <<>> => s = x.d)
                       /\ ~One(kind) => y.std = x.std /\ (s = <<>> => ~NeedS(y)) /\ (s # <<>> => s = y.d)
\* everything about one run of a statement
Choice(z) ==
  LET kind == At(K(z, 1), Kinds)
      into == At(K(z, 2), <<0, 0, 1, 2>>)
      src == 1 + R(K(z, 3), 2)
      x == f[src] y == f[3 - src]
      od == At(K(z, 4), <<<<>>, <<>>, <<44>>, <<124>>, <<9>>, <<59>>, <<58, 58>>>>)
      t == Val(K(z, 5))
      r == Result(kind, x.tab, y.tab, t)
      o == [d |-> IF od = <<>> THEN x.d ELSE od, std |-> At(K(z, 6), <<"rfc4180", "all", "none", "weak", "rfc4180">>),
            term |-> IF Ch(K(z, 7), 4) THEN <<CR, LF>> ELSE <<LF>>, hdr |-> Ch(K(z, 8), 8)]
      s == IF Ch(K(z, 9), 4) \/ NeedS(x) THEN x.d ELSE <<>>
      inplace == kind \in {"update", "delete"}
  IN [kind |-> kind, src |-> src, tgt |-> IF inplace THEN src ELSE into, s |-> s, od |-> od, o |-> o, t |-> t, r |-> r,
      ok |-> /\ InOk(kind, x, y, s)
             /\ kind \in {"order", "stdinorder"} => Asc(x.tab)
             /\ inplace => into = 0 /\ o.hdr /\ Fits(r, o.d, o.std)
             /\ into # 0 => o.hdr /\ Fits(r, o.d, o.std) /\ Len(r.names) = 3 /\ kind \notin {"union", "left", "join", "cols", "group"}]
\* UPDATE and DELETE copy a row they keep as it stands in the file, if that is the format they write
Same(x, o) == o.d = x.d /\ o.std = x.std
RowText(r, o) == Line(r, [o EXCEPT !.term = <<>>])
Texts(c, x) ==
  IF c.kind \in {"update", "delete"}
  THEN LET all == [i \in 1..Len(x.tab.rows) |-> IF NotOne(x.tab.rows[i]) /\ Same(x, c.o) THEN x.raw[i] ELSE RowText(UpdT(x.tab, c.t).rows[i], c.o)]
           ks == SelectSeq([i \in 1..Len(all) |-> i], LAMBDA i : c.kind = "update" \/ NotOne(x.tab.rows[i]))
       IN [k \in 1..Len(ks) |-> all[ks[k]]]
  ELSE [i \in 1..Len(c.r.rows) |-> RowText(c.r.rows[i], c.o)]
Written(c, x) == (IF c.o.hdr THEN <<Line(Some(c.r.names), c.o)>> ELSE <<>>) \o [i \in 1..Len(Texts(c, x)) |-> Texts(c, x)[i] \o c.o.term]
Step(s) == \E c \in LET tries == {k \in 1..6 : Choice(K(s, 100 * n + k)).ok} IN IF tries = {} THEN {[ok |-> FALSE]} ELSE {Choice(K(s, 100 * n + (CHOOSE k \in tries : \A j \in tries : k <= j)))} :
   IF ~c.ok THEN UNCHANGED <<f, log>>
   ELSE \E x \in {f[c.src]} : \E w \in {Written(c, x)} :
     /\ log' = Append(log, <<c.kind, c.src, c.tgt, c.s, x.std, c.od, c.o.std, B(Len(c.o.term) = 2), B(c.o.hdr), c.t, w, x.tab.names, f[3 - c.src].tab.names[2]>>)
     /\ f' = IF c.tgt = 0 THEN f ELSE [f EXCEPT ![c.tgt] = [tab |-> c.r, d |-> c.o.d, std |-> InStd(c.o.std), raw |-> Texts(c, x), text |-> Concat(w)]]
Next == /\ n <= D + 1 /\ n' = n + 1 /\ UNCHANGED sd
        /\ IF n = 0 THEN Start(SeedOf(sd)) ELSE IF n <= D THEN Step(SeedOf(sd)) ELSE Emit(log) /\ UNCHANGED <<f, log>>
(* ---------------------------------------------------------------- laws *)
Plain(r) == [i \in 1..Len(r) |-> IF r[i] = <<>> THEN <<>> ELSE r[i][1]]
\* every file reads back as the table it was written from
ReadsBack == \A k \in 1..Len(f) :
   Parse(f[k].text, f[k].d, f[k].std) = <<f[k].tab.names>> \o [i \in 1..Len(f[k].tab.rows) |-> Plain(f[k].tab.rows[i])]
==========================================================================
