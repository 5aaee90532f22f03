------------------------------- MODULE MMap -------------------------------
(* U06: multimap (key -> every value in insertion order) and composite-key map
   (tuple of texts -> last value), modulo the key mode (bit 1 caseless, bit 2
   trailing spaces ignored; tuples compare element by element). *)
EXTENDS MBT
CONSTANTS Keys, Tuples, Limits, Modes, MaxBulk, Chunks
VARIABLES mode, mm, cm, order, corder, log, done
vars == <<mode, mm, cm, order, corder, log, done>>

Lower(c) == IF c >= 65 /\ c <= 90 THEN c + 32 ELSE c
RECURSIVE Trim(_)
Trim(q) == IF q # <<>> /\ Last(q) = 32 THEN Trim(Front(q)) ELSE q
Norm(q, md) == LET a == IF md \in {1, 3} THEN [i \in 1..Len(q) |-> Lower(q[i])] ELSE q
               IN IF md >= 2 THEN Trim(a) ELSE a
KNorm == [md \in 0..3 |-> [k \in 1..Len(Keys) |-> Norm(Keys[k], md)]]
TNorm == [md \in 0..3 |-> [k \in 1..Len(Tuples) |-> [j \in 1..Len(Tuples[k]) |-> Norm(Tuples[k][j], md)]]]
BulkKey(i) == <<IF i \in {2 * x : x \in 0..30} THEN 75 ELSE 107, 48 + i \div 10, 48 + (i % 10), 32>>
BulkNorm == [md \in 0..3 |-> [i \in 0..MaxBulk |-> Norm(BulkKey(i), md)]]
Empty == [x \in {} |-> 0]

MLook(f, q) == IF q \in DOMAIN f THEN f[q] ELSE <<>>
CLook(f, q) == IF q \in DOMAIN f THEN f[q] ELSE 0
Add(f, q, x) == IF q \in DOMAIN f THEN [f EXCEPT ![q] = Append(@, x)] ELSE f @@ (q :> <<x>>)
Put1(f, q, x) == IF q \in DOMAIN f THEN [f EXCEPT ![q] = x] ELSE f @@ (q :> x)
Ord(o, f, q) == IF q \in DOMAIN f THEN o ELSE Append(o, q)
\* numbers of values per key in creation order, values of each known key, tuple values in creation order, values of each known tuple
Obs(f, o, g, p) == <<[i \in 1..Len(o) |-> Len(f[o[i]])],
                     [k \in 1..Len(Keys) |-> MLook(f, KNorm[mode][k])],
                     [i \in 1..Len(p) |-> g[p[i]]],
                     [k \in 1..Len(Tuples) |-> CLook(g, TNorm[mode][k])]>>
Step(op, args, f, o, g, p, res) ==
  /\ mm' = f /\ order' = o /\ cm' = g /\ corder' = p /\ UNCHANGED mode
  /\ log' = Append(log, <<op>> \o args \o <<<<res, Obs(f, o, g, p)>>>>)
Init == /\ mode \in Modes /\ mm = Empty /\ cm = Empty /\ order = <<>> /\ corder = <<>> /\ done = FALSE
        /\ \E l \in Limits : log = <<<<"new", l, mode, <<0, Obs(Empty, <<>>, Empty, <<>>)>>>>>>
t == 100 * Len(log)
MSet == \E k \in Pick(1..Len(Keys)) : LET q == KNorm[mode][k] IN
          Step("mset", <<Keys[k], t>>, Add(mm, q, t), Ord(order, mm, q), cm, corder, 0)
CSet == \E k \in Pick(1..Len(Tuples)) : LET q == TNorm[mode][k] IN
          Step("cset", <<Tuples[k], t>>, mm, order, Put1(cm, q, t), Ord(corder, cm, q), 0)
\* many keys at once (drives the tables through growth): each key also forms the pair <<key, key>>
Fold(F(_, _), base, i, c) == FoldL(F, base, [j \in 1..c |-> i + j - 1])
MBulk == \E i \in Pick(0..MaxBulk), c \in Pick(Chunks) : i + c <= MaxBulk + 1 /\
           LET r == Fold(LAMBDA a, j : <<Add(a[1], BulkNorm[mode][j], t + j), Ord(a[2], a[1], BulkNorm[mode][j])>>, <<mm, order>>, i, c)
               s == Fold(LAMBDA a, j : LET q == <<BulkNorm[mode][j], BulkNorm[mode][j]>> IN <<Put1(a[1], q, t + j), Ord(a[2], a[1], q)>>, <<cm, corder>>, i, c)
           IN Step("bulk", <<[j \in 1..c |-> BulkKey(i + j - 1)], t + i>>, r[1], r[2], s[1], s[2], 0)
BGet == Lite /\ \E i \in Pick(0..MaxBulk) : LET q == BulkNorm[mode][i] IN
          Step("bget", <<BulkKey(i)>>, mm, order, cm, corder, <<MLook(mm, q), CLook(cm, <<q, q>>)>>)
MClear == (Lite => Len(order) > 6) /\ Step("mclear", <<>>, Empty, <<>>, cm, corder, 0)
CClear == (Lite => Len(corder) > 6) /\ Step("cclear", <<>>, mm, order, Empty, <<>>, 0)
Op == MSet \/ CSet \/ MBulk \/ BGet \/ MClear \/ CClear
Fin == Len(log) = D /\ ~done /\ Emit(log) /\ done' = TRUE /\ UNCHANGED <<mode, mm, cm, order, corder, log>>
Next == \/ Len(log) < D /\ ~done /\ Op /\ UNCHANGED done
        \/ Fin
Spec == Init /\ [][Next]_vars
Inv == /\ Rng(order) = DOMAIN mm /\ Cardinality(DOMAIN mm) = Len(order)
       /\ Rng(corder) = DOMAIN cm /\ Cardinality(DOMAIN cm) = Len(corder)
       /\ \A q \in DOMAIN mm : mm[q] # <<>>
============================================================================
