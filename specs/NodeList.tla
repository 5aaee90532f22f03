----------------------------- MODULE NodeList -----------------------------
(* U03: linked lists (util/node).  Two lists and one detached ("exported")
   node slot; every node carries a fresh datum.  The observation is both
   lists read forwards and backwards. *)
EXTENDS MBT
CONSTANTS MaxLen
VARIABLES ls, hand, n, log, done
vars == <<ls, hand, n, log, done>>
L == {1, 2}

Rev(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]
ObsL(q) == <<Len(q), q, Rev(q)>>
Obs(t) == <<ObsL(t[1]), ObsL(t[2])>>

Call(op, args, t, h, k, res) ==
  /\ ls' = t /\ hand' = h /\ n' = n + k
  /\ log' = Append(log, <<op>> \o args \o <<<<res, Obs(t)>>>>)
With(l, q) == [ls EXCEPT ![l] = q]
RemoveAt(q, i) == Del(q, i, 1)

Init == /\ ls = <<<<>>, <<>>>> /\ hand = 0 /\ n = 0 /\ done = FALSE
        /\ log = <<<<"new", <<0, Obs(<<<<>>, <<>>>>)>>>>>>

PushN    == \E l \in L : Call("push", <<l, n + 1>>, With(l, <<n + 1>> \o ls[l]), hand, 1, n + 1)
Enqueue  == \E l \in L : Call("enqueue", <<l, n + 1>>, With(l, Append(ls[l], n + 1)), hand, 1, n + 1)
PopN     == \E l \in L, o \in {"pop", "dequeue"} :
              Call(o, <<l>>, With(l, IF ls[l] = <<>> THEN <<>> ELSE Tail(ls[l])), hand, 0,
                   IF ls[l] = <<>> THEN 0 ELSE Head(ls[l]))
PopExport== \E l \in L, o \in {"pop_export", "dequeue_export"} : hand = 0 /\
              Call(o, <<l>>, With(l, IF ls[l] = <<>> THEN <<>> ELSE Tail(ls[l])),
                   IF ls[l] = <<>> THEN 0 ELSE Head(ls[l]), 0, IF ls[l] = <<>> THEN 0 ELSE Head(ls[l]))
\* a member other than the first may be detached directly
Export   == \E l \in L : \E i \in Pick(1..(Len(ls[l]) - 1)) : hand = 0 /\
              Call("export", <<l, i>>, With(l, RemoveAt(ls[l], i)), ls[l][i + 1], 0, ls[l][i + 1])
PushImp  == \E l \in L : hand # 0 /\ Call("push_import", <<l>>, With(l, <<hand>> \o ls[l]), 0, 0, hand)
EnqImp   == \E l \in L : hand # 0 /\ Call("enqueue_import", <<l>>, With(l, Append(ls[l], hand)), 0, 0, hand)
Remove   == \E l \in L : \E i \in Pick(0..(Len(ls[l]) - 1)) :
              Call("remove", <<l, i>>, With(l, RemoveAt(ls[l], i)), hand, 0, ls[l][i + 1])
Delete   == \E l \in L : \E i \in Pick(0..(Len(ls[l]) - 1)) :
              Call("delete", <<l, i>>, With(l, RemoveAt(ls[l], i)), hand, 0, 0)
RemNull  == \E l \in L : Call("remove_null", <<l>>, ls, hand, 0, 0)
At       == \E l \in L, i \in Pick(0..(MaxLen + 1)) :
              Call("at", <<l, i>>, ls, hand, 0, IF i < Len(ls[l]) THEN ls[l][i + 1] ELSE 0)
Ends     == \E l \in L : \E i \in Pick(0..(Len(ls[l]) - 1)) :
              Call("ends", <<l, i>>, ls, hand, 0, <<ls[l][1], Last(ls[l])>>)
FreeAll  == \E l \in L, o \in {"free_data", "free_func", "free"} : (Lite => Len(ls[l]) > 5) /\
              Call(o, <<l>>, With(l, <<>>), hand, 0, IF o = "free_func" THEN ls[l] ELSE <<>>)

Op == \/ PushN \/ Enqueue \/ PushN \/ Enqueue \/ PopN \/ PopExport \/ Export \/ PushImp \/ EnqImp
      \/ Remove \/ Delete \/ RemNull \/ At \/ Ends \/ FreeAll
Fin == Len(log) = D /\ ~done /\ Emit(log) /\ done' = TRUE /\ UNCHANGED <<ls, hand, n, log>>
Next == \/ Len(log) < D /\ ~done /\ Op /\ UNCHANGED done /\ \A l \in L : Len(ls'[l]) <= MaxLen
        \/ Fin
Spec == Init /\ [][Next]_vars

\* every datum is in at most one place
Unique == LET all == ls[1] \o ls[2] \o (IF hand = 0 THEN <<>> ELSE <<hand>>)
          IN /\ Cardinality(Rng(all)) = Len(all) /\ Rng(all) \subseteq 1..n
============================================================================
