------------------------------- MODULE Vec -------------------------------
(* U01: the growable array (util/vec) as a sequence of elements.  Every value
   stored is fresh (the counter n), so any displaced, lost or duplicated
   element shows in the observation, which is the whole content.  The runner
   replays every behaviour on the real container for several element sizes. *)
EXTENDS MBT
CONSTANTS MaxLen, ElemSizes, Prefill, Chunk
VARIABLES s, n, log, done
vars == <<s, n, log, done>>

Fresh(k) == [i \in 1..k |-> n + i]
Obs(q) == <<Len(q), q, B(q = <<>>)>>

\* one API call: name, arguments, new content, values consumed, result
Call(op, args, t, k, res) ==
  /\ s' = t
  /\ n' = n + k
  /\ log' = Append(log, <<op>> \o args \o <<<<res, Obs(t)>>>>)

Init ==
  /\ \E es \in ElemSizes, p \in Prefill :
       /\ s = [i \in 1..p |-> i]
       /\ n = p
       /\ log = <<<<"new", es, p, <<0, Obs([i \in 1..p |-> i])>>>>>>
  /\ done = FALSE

Push      == Call("push", Fresh(1), s \o Fresh(1), 1, 0)
AddOne    == Call("add_one", Fresh(1), s \o Fresh(1), 1, 0)
AddFront  == Call("add_front", Fresh(1), Fresh(1) \o s, 1, 0)
InsertOne == \E i \in Pick(0..Len(s) ): Call("insert_one", <<i>> \o Fresh(1), Ins(s, i, Fresh(1)), 1, 0)
InsertAt  == \E i \in Pick(0..Len(s)), k \in Pick(0..Chunk) : Call("insert_at", <<i, Fresh(k)>>, Ins(s, i, Fresh(k)), k, 0)
Insert    == \E i \in Pick(0..Len(s)), k \in Pick(0..Chunk) : Call("insert", <<i, Fresh(k)>>, Ins(s, i, Fresh(k)), k, 0)
InsertIter== \E i \in Pick(0..Len(s)), k \in Pick(1..Chunk) : Call("insert_iter", <<i, Fresh(k)>>, Ins(s, i, Fresh(k)), k, 0)
SetOne    == \E i \in Pick(0..(Len(s) - 1) ): Call("set_one", <<i>> \o Fresh(1), Put(s, i, Fresh(1)), 1, 0)
SetAt     == \E i \in Pick(0..(Len(s) - 1)), k \in Pick(1..Chunk) :
               i + k <= Len(s) /\ Call("set_at", <<i, Fresh(k)>>, Put(s, i, Fresh(k)), k, 0)
Set       == \E i \in Pick(0..(Len(s) - 1)), k \in Pick(1..Chunk) :
               i + k <= Len(s) /\ Call("set", <<i, Fresh(k)>>, Put(s, i, Fresh(k)), k, 0)
SetIter   == \E i \in Pick(0..(Len(s) - 1)), k \in Pick(1..Chunk) :
               i + k <= Len(s) /\ Call("set_iter", <<i, Fresh(k)>>, Put(s, i, Fresh(k)), k, 0)
EraseOne  == \E i \in Pick(0..(Len(s) - 1) ): Call("erase_one", <<i>>, Del(s, i, 1), 0, 0)
EraseAt   == \E i \in Pick(0..Len(s)), k \in Pick(0..Chunk) : i + k <= Len(s) /\ Call("erase_at", <<i, k>>, Del(s, i, k), 0, 0)
Erase     == \E i \in Pick(0..Len(s)), k \in Pick(0..Chunk) : i + k <= Len(s) /\ Call("erase", <<i, k>>, Del(s, i, k), 0, 0)
EraseIter == \E i \in Pick(0..(Len(s) - 1)), k \in Pick(1..Chunk) :
               i + k <= Len(s) /\ Call("erase_iter", <<i, i + k - 1>>, Del(s, i, k), 0, 0)
Pop       == Call("pop", <<>>, IF s = <<>> THEN s ELSE Front(s), 0, IF s = <<>> THEN 0 ELSE Last(s))
Back      == s # <<>> /\ Call("back", <<>>, s, 0, Last(s))
Shrink    == \E k \in Pick(0..Len(s)) : Call("resize", <<k>>, Slice(s, 0, k), 0, 0)
\* growing by resize leaves the new elements to the caller: it fills them at once
Grow      == \E k \in Pick(1..Chunk) : Call("grow_fill", <<Len(s) + k, Fresh(k)>>, s \o Fresh(k), k, 0)
ResizeZero== \E k \in Pick(0..(Len(s) + Chunk)) :
               Call("resize_zero", <<k>>, IF k <= Len(s) THEN Slice(s, 0, k) ELSE s \o Rep(0, k - Len(s)), 0, 0)
Reserve   == \E k \in Pick({0, Len(s), Len(s) + 1, Len(s) + Chunk}) : Call("reserve", <<k>>, s, 0, 0)
Fit       == Call("shrink_to_fit", <<>>, s, 0, 0)
Clear     == (Lite => Len(s) >= 5) /\ Call("clear", <<>>, <<>>, 0, 0)
AppendOp  == \E k \in Pick(0..Chunk) : Call("append", <<Fresh(k)>>, s \o Fresh(k), k, 0)
Extend    == \E k \in Pick(0..Chunk) : Call("extend", <<Fresh(k)>>, s \o Fresh(k), k, 0)
SortDesc  == Call("sort_desc", <<>>, SortSeq(s, LAMBDA a, b : a > b), 0, 0)

Op == \/ Push \/ AddOne \/ AddFront \/ InsertOne \/ InsertAt \/ Insert \/ InsertIter
      \/ SetOne \/ SetAt \/ Set \/ SetIter \/ EraseOne \/ EraseAt \/ Erase \/ EraseIter
      \/ Pop \/ Back \/ Shrink \/ Grow \/ ResizeZero \/ Reserve \/ Fit \/ Clear
      \/ AppendOp \/ Extend \/ SortDesc

Fin == Len(log) = D /\ ~done /\ Emit(log) /\ done' = TRUE /\ UNCHANGED <<s, n, log>>
Next == \/ Len(log) < D /\ ~done /\ Op /\ UNCHANGED done /\ Len(s') <= MaxLen
        \/ Fin
Spec == Init /\ [][Next]_vars

TypeOK == /\ \A i \in 1..Len(s) : s[i] \in 0..n
\* non-zero elements are unique: nothing is ever duplicated
NoDup == \A i, j \in 1..Len(s) : i # j /\ s[i] # 0 => s[i] # s[j]
\* algebraic laws tying the range operations together
Laws == \A i \in 0..Len(s) : /\ Del(Ins(s, i, <<7, 8>>), i, 2) = s
                             /\ i < Len(s) => Put(s, i, <<s[i + 1]>>) = s
                             /\ i < Len(s) => Ins(Del(s, i, 1), i, <<s[i + 1]>>) = s
============================================================================
