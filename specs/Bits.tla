------------------------------- MODULE Bits -------------------------------
(* U04 (first half): the packed boolean array (bitvec in util/vec) as a
   sequence of booleans; positions exposed by a resize read as false. *)
EXTENDS MBT
CONSTANTS MaxLen, Runs, Sizes
VARIABLES s, log, done
vars == <<s, log, done>>
\* observation: length and the positions that are set
Obs(q) == <<Len(q), SelectSeq([i \in 1..Len(q) |-> IF q[i] THEN i - 1 ELSE -1], LAMBDA x : x >= 0)>>
Call(op, args, t) == s' = t /\ log' = Append(log, <<op>> \o args \o <<Obs(t)>>)
Init == s = <<>> /\ done = FALSE /\ log = <<<<"new", Obs(<<>>)>>>>
Push    == \E b \in BOOLEAN : Call("push", <<B(b)>>, Append(s, b))
PushRun == \E k \in Pick(Runs), b \in BOOLEAN : Call("push_run", <<k, B(b)>>, s \o Rep(b, k))
Edge    == {i \in 0..(Len(s) - 1) : i \in {0, 1, 30, 31, 32, 33, 62, 63, 64, 65, 95, 96, 97, Len(s) - 1, Len(s) - 2} \/ Lite}
SetB    == \E i \in Pick(Edge), b \in BOOLEAN : Call("set", <<i, B(b)>>, [s EXCEPT ![i + 1] = b])
Resize  == \E k \in Pick(Sizes) : Call("resize", <<k>>, IF k <= Len(s) THEN Slice(s, 0, k) ELSE s \o Rep(FALSE, k - Len(s)))
Op == Push \/ PushRun \/ SetB \/ Resize
Fin == Len(log) = D /\ ~done /\ Emit(log) /\ done' = TRUE /\ UNCHANGED <<s, log>>
Next == \/ Len(log) < D /\ ~done /\ Op /\ UNCHANGED done /\ Len(s') <= MaxLen
        \/ Fin
Spec == Init /\ [][Next]_vars
\* a write touches one position only
OneBit == [][\A i \in 1..Len(s) : Len(s') = Len(s) => Cardinality({j \in 1..Len(s) : s[j] # s'[j]}) <= 1]_vars
============================================================================
