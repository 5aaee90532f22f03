------------------------------ MODULE Helpers ------------------------------
(* U14: path, search and counting helpers (util/util.c). *)
EXTENDS MBT
CONSTANTS Alpha, PAlpha, L, LF, Needles
VARIABLES log, done
vars == <<log, done>>
Log(e) == log' = Append(log, e)
RandSeq(A, n) == [i \in 1..n |-> CHOOSE x \in Pick(A) : TRUE]
Texts(A, n) == IF Lite THEN UNION {{RandSeq(A, k)} : k \in Pick(0..40)} ELSE Seqs(A, n)
LastIdx(t, c) == LET I == {i \in 1..Len(t) : t[i] = c} IN IF I = {} THEN 0 ELSE CHOOSE i \in I : \A j \in I : i >= j
\* the dot that starts the extension: in the last component, not leading it
ExtDot(t) == LET d == LastIdx(t, 46) s == LastIdx(t, 47) IN IF d > s + 1 THEN d ELSE 0
NoExt(t) == IF ExtDot(t) = 0 THEN t ELSE SubSeq(t, 1, ExtDot(t) - 1)
Ext(t) == IF ExtDot(t) = 0 THEN <<>> ELSE SubSeq(t, ExtDot(t), Len(t))
Path == \E t \in Texts(PAlpha, L) : Log(<<"path", t, <<NoExt(t), IF t # <<>> /\ Last(t) = 47 THEN <<0>> ELSE Ext(t)>>>>)
At(t, f, i) == i + Len(f) <= Len(t) /\ SubSeq(t, i + 1, i + Len(f)) = f
\* first occurrence of f lying within the first n characters of t, as an offset
Find(t, f, n) == LET m == Min2(n, Len(t)) I == {i \in 0..m : At(SubSeq(t, 1, m), f, i)} IN IF I = {} THEN -1 ELSE CHOOSE i \in I : \A j \in I : i <= j
NStr == \E t \in Texts(Alpha, LF), n \in Pick(0..(L + 2)) : \E f \in Pick(Needles) \cup (IF Lite /\ t # <<>> THEN {SubSeq(t, i, j) : i \in Pick(1..Len(t)), j \in Pick(1..Len(t))} ELSE {}) :
   \* an unterminated source of exactly n bytes when n fits in the text
   Log(<<"find", SubSeq(t, 1, Min2(n, Len(t))), B(n > Len(t)), f, n, Find(t, f, n)>>)
Count(t, c) == Cardinality({i \in 1..Len(t) : t[i] = c})
CountOp == \E t \in Texts(Alpha, LF), c \in Pick(Alpha), n \in Pick(0..(L + 2)) :
   Log(<<"count", t, c, n, <<Count(t, c), Count(SubSeq(t, 1, Min2(n, Len(t))), c), B(Count(t, c) > 0)>>>>)
RemoveAt == \E t \in Texts(Alpha, LF) : \E i \in Pick(0..Len(t)) : Log(<<"removeat", t, i, SubSeq(t, 1, i) \o SubSeq(t, i + 2, Len(t))>>)
LowC(c) == IF c >= 65 /\ c <= 90 THEN c + 32 ELSE c
Low(t) == [i \in 1..Len(t) |-> LowC(t[i])]
Lower == \E t \in Texts(Alpha, LF) : Log(<<"lower", t, Low(t)>>)
EqOp == \E a \in Texts(Alpha, 2), b \in Texts(Alpha, 2), k \in Pick({0, 1, 2}) :
   LET z == IF k = 0 THEN b ELSE IF k = 1 THEN a ELSE [i \in 1..Len(a) |-> IF a[i] >= 97 /\ a[i] <= 122 THEN a[i] - 32 ELSE a[i]] IN
   Log(<<"eq", a, z, <<B(a = z), B(Low(a) = Low(z))>>>>)
\* directory listing: exactly the files created plus . and ..
Dir == Lite /\ \E n \in Pick(0..6) : Log(<<"dir", n, n + 2>>)
Rand == Lite /\ \E n \in Pick(0..20) : Log(<<"rand", n, n>>)
Init == done = FALSE /\ log = <<<<"new", 0>>>>
Op == Path \/ NStr \/ CountOp \/ RemoveAt \/ Lower \/ EqOp \/ Dir \/ Rand
Next == \/ Len(log) < D /\ ~done /\ Op /\ UNCHANGED done
        \/ Len(log) = D /\ ~done /\ Emit(log) /\ done' = TRUE /\ UNCHANGED log
Spec == Init /\ [][Next]_vars
Laws == LET e == log[Len(log)] IN e[1] = "path" => NoExt(e[2]) \o Ext(e[2]) = e[2]
============================================================================
