------------------------------- MODULE Coll -------------------------------
(* U10: the four text comparison modes (util/stringview) and the key classes of
   the hash containers of the same modes (util/hashmap).
   mode: bit 1 = caseless, bit 2 = trailing spaces ignored. *)
EXTENDS MBT
CONSTANTS Alpha, L
VARIABLES log, done
vars == <<log, done>>
Lower(c) == IF c >= 65 /\ c <= 90 THEN c + 32 ELSE c
RECURSIVE Trim(_)
Trim(q) == IF q # <<>> /\ Last(q) = 32 THEN Trim(Front(q)) ELSE q
Norm(q, md) == LET a == IF md \in {1, 3} THEN [i \in 1..Len(q) |-> Lower(q[i])] ELSE q
               IN IF md >= 2 THEN Trim(a) ELSE a
RECURSIVE Lex(_, _)
Lex(a, b) == IF a = <<>> /\ b = <<>> THEN 0 ELSE IF a = <<>> THEN -1 ELSE IF b = <<>> THEN 1
             ELSE IF a[1] < b[1] THEN -1 ELSE IF a[1] > b[1] THEN 1 ELSE Lex(Tail(a), Tail(b))
Cmp(a, b, md) == Lex(Norm(a, md), Norm(b, md))
Modes == 0..3
Texts == Seqs(Alpha, L)
Row(a, b) == [md \in 1..4 |-> Cmp(a, b, md - 1)]
Has(a, b) == [md \in 1..4 |-> B(Norm(a, md - 1) = Norm(b, md - 1))]
Rand(n) == [i \in 1..n |-> CHOOSE x \in Pick(Alpha) : TRUE]
Init == done = FALSE /\ log = <<<<"new", 0>>>>
Pair == \E a \in Pick(Texts), b \in Pick(Texts) : log' = Append(log, <<"pair", a, b, <<Row(a, b), Has(a, b)>>>>)
\* pairs made from one text by changing case, adding spaces, cutting or replacing one byte
Mut == Lite /\ \E n \in Pick(1..9), k \in Pick(0..3), s \in Pick(0..3) : \E a \in {Rand(n)} :
         \E i \in Pick(1..n), c \in Pick(Alpha) :
         LET b == IF k = 0 THEN [a EXCEPT ![i] = c]
                  ELSE IF k = 1 THEN [j \in 1..n |-> IF a[j] >= 97 /\ a[j] <= 122 THEN a[j] - 32 ELSE Lower(a[j])]
                  ELSE IF k = 2 THEN SubSeq(a, 1, i) ELSE a
         IN log' = Append(log, <<"pair", a, b \o Rep(32, s), <<Row(a, b \o Rep(32, s)), Has(a, b \o Rep(32, s))>>>>)
Next == \/ Len(log) < D /\ ~done /\ (Pair \/ Mut \/ Mut) /\ UNCHANGED done
        \/ Len(log) = D /\ ~done /\ Emit(log) /\ done' = TRUE /\ UNCHANGED log
Spec == Init /\ [][Next]_vars
\* the order itself, over all texts of length at most 2
Small(x) == Seqs(Alpha, 2)
Preorder(x) == \A md \in Modes : \A a, b \in Small(0) :
   /\ Cmp(a, a, md) = 0 /\ Cmp(a, b, md) = -Cmp(b, a, md)
   /\ (Cmp(a, b, md) = 0) <=> (Norm(a, md) = Norm(b, md))
   /\ (IsPre(a, b) /\ a # b /\ ~(md >= 2 /\ Trim(b) = Trim(a)) => Cmp(a, b, md) = -1 \/ Trim(a) # a)
   /\ \A c \in Small(0) : Cmp(a, b, md) <= 0 /\ Cmp(b, c, md) <= 0 => Cmp(a, c, md) <= 0
ASSUME Lite \/ Preorder(0)
============================================================================
