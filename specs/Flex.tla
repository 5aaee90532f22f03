------------------------------- MODULE Flex -------------------------------
(* U04 (second half): the variable-size element store (util/flex) as a
   sequence of byte strings. *)
EXTENDS MBT
CONSTANTS MaxLen, ElemLens, Ints, Floats
VARIABLES s, n, log, done
vars == <<s, n, log, done>>
\* a fresh element of the given length: its bytes depend on the counter
Elem(k, m) == [i \in 1..m |-> 1 + ((k * 17 + i * 5) % 250)]
Obs(q) == <<Len(q), q>>
Call(op, args, t, k) == s' = t /\ n' = n + k /\ log' = Append(log, <<op>> \o args \o <<Obs(t)>>)
Init == s = <<>> /\ n = 0 /\ done = FALSE /\ log = <<<<"new", Obs(<<>>)>>>>
Push   == \E m \in Pick(ElemLens) : Call("push", <<Elem(n, m)>>, Append(s, Elem(n, m)), 1)
Insert == \E i \in Pick(0..Len(s)), m \in Pick(ElemLens) : Call("insert", <<i, Elem(n, m)>>, Ins(s, i, <<Elem(n, m)>>), 1)
Remove == \E i \in Pick(0..(Len(s) - 1)) : Call("remove", <<i>>, Del(s, i, 1), 0)
Pop    == s # <<>> /\ Call("pop", <<>>, Front(s), 0)
\* Ints/Floats: pairs <<text of the number, its expected bytes>>
PushInt   == \E x \in Pick(Ints) : Call("push_int", <<x[1]>>, Append(s, x[2]), 0)
PushFloat == \E x \in Pick(Floats) : Call("push_float", <<x[1]>>, Append(s, x[2]), 0)
Clear  == (Lite => Len(s) > 4) /\ Call("clear", <<>>, <<>>, 0)
Resize == \E k \in Pick(0..Len(s)) : Call("resize", <<k>>, Slice(s, 0, k), 0)
Reserve== \E k \in Pick({0, 1, Len(s), 20}) : Call("reserve", <<k>>, s, 0)
Op == Push \/ Insert \/ Push \/ Insert \/ Remove \/ Pop \/ PushInt \/ PushFloat \/ Clear \/ Resize \/ Reserve
Fin == Len(log) = D /\ ~done /\ Emit(log) /\ done' = TRUE /\ UNCHANGED <<s, n, log>>
Next == \/ Len(log) < D /\ ~done /\ Op /\ UNCHANGED done /\ Len(s') <= MaxLen
        \/ Fin
Spec == Init /\ [][Next]_vars
TypeOK == \A i \in 1..Len(s) : \A j \in 1..Len(s[i]) : s[i][j] \in 1..255
============================================================================
