------------------------------- MODULE HMap -------------------------------
(* U05: hash map and hash set (util/hashmap) as finite maps from key classes.
   mode: bit 1 = caseless, bit 2 = trailing spaces ignored. *)
EXTENDS MBT
CONSTANTS Keys, Limits, Modes, MaxBulk, Chunks
VARIABLES mode, m, vals, log, done
vars == <<mode, m, vals, log, done>>

Lower(c) == IF c >= 65 /\ c <= 90 THEN c + 32 ELSE c
RECURSIVE Trim(_)
Trim(q) == IF q # <<>> /\ Last(q) = 32 THEN Trim(Front(q)) ELSE q
Norm(q, md) == LET a == IF md % 2 = 1 THEN [i \in 1..Len(q) |-> Lower(q[i])] ELSE q
               IN IF md >= 2 THEN Trim(a) ELSE a
\* numbered keys used to force growth: "N07", "n07 ", ...
Digits(i) == <<48 + i \div 10, 48 + (i % 10)>>
BulkKey(i, sfx) == (IF i % 3 = 0 THEN <<78>> ELSE <<110>>) \o Digits(i) \o Rep(32, sfx)
BulkNorm == [md \in 0..3 |-> [i \in 0..MaxBulk |-> [x \in 0..1 |-> Norm(BulkKey(i, x), md)]]]
KNorm == [md \in 0..3 |-> [k \in 1..Len(Keys) |-> Norm(Keys[k], md)]]

Look(f, v, q) == IF q \in DOMAIN f THEN v[f[q]] ELSE 0
Obs(f, v) == <<v, [k \in 1..Len(Keys) |-> Look(f, v, KNorm[mode][k])],
                  [i \in 1..(MaxBulk + 1) |-> Look(f, v, BulkNorm[mode][i - 1][1])]>>
SetTo(f, v, q, x) == IF q \in DOMAIN f THEN <<f, [v EXCEPT ![f[q]] = x]>>
                     ELSE <<f @@ (q :> Len(v) + 1), Append(v, x)>>
Step(op, args, fv, res) ==
  /\ m' = fv[1] /\ vals' = fv[2] /\ UNCHANGED mode
  /\ log' = Append(log, <<op>> \o args \o <<<<res, Obs(fv[1], fv[2])>>>>)
Empty == [x \in {} |-> 0]
Init == /\ mode \in Modes /\ m = Empty /\ vals = <<>> /\ done = FALSE
        /\ \E l \in Limits : log = <<<<"new", l, mode, <<0, Obs(Empty, <<>>)>>>>>>
v1 == Len(log)
SetOp  == \E k \in Pick(1..Len(Keys)) : Step("set", <<Keys[k], 100 + v1>>, SetTo(m, vals, KNorm[mode][k], 100 + v1), 0)
GetOp  == Lite /\ \E k \in Pick(1..Len(Keys)) : Step("get", <<Keys[k]>>, <<m, vals>>, Look(m, vals, KNorm[mode][k]))
Bulk   == \E i \in Pick(IF Lite THEN 0..MaxBulk ELSE {0, 20}), c \in Pick(Chunks), x \in Pick(0..1) : i + c <= MaxBulk + 1 /\
            Step("bulk", <<[j \in 1..c |-> BulkKey(i + j - 1, x)], 1000 + 100 * v1>>,
                 FoldL(LAMBDA fv, j : SetTo(fv[1], fv[2], BulkNorm[mode][i + j - 1][x], 1000 + 100 * v1 + j),
                       <<m, vals>>, [j \in 1..c |-> j]), 0)
Clear  == (Lite => Len(vals) > 5) /\ Step("clear", <<>>, <<Empty, <<>>>>, 0)
Op == SetOp \/ SetOp \/ GetOp \/ Bulk \/ Clear
Fin == Len(log) = D /\ ~done /\ Emit(log) /\ done' = TRUE /\ UNCHANGED <<mode, m, vals, log>>
Next == \/ Len(log) < D /\ ~done /\ Op /\ UNCHANGED done
        \/ Fin
Spec == Init /\ [][Next]_vars
\* the map is a bijection between key classes and value slots; keys are normal forms
Inv == /\ {m[q] : q \in DOMAIN m} = 1..Len(vals) /\ Cardinality(DOMAIN m) = Len(vals)
       /\ \A q \in DOMAIN m : Norm(q, mode) = q
============================================================================
