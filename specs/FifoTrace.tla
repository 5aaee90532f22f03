------------------------------ MODULE FifoTrace ------------------------------
(* U08: what callers of the concurrent queue may see.  The state is the content of
   each queue, whether it is closed, and for each thread the call it is in.  Every
   call takes effect at one instant between call and return (nadd looks at the room
   at one instant and adds at a later one).  A recorded history is explained if
   such instants exist; histories which end with threads that will never go on are
   explained only if none of these has been given what it waits for. *)
EXTENDS MBT, Json
CONSTANTS Lo, Hi, File
VARIABLES tr, i, q, cl, pend
vars == <<tr, i, q, cl, pend>>
Traces == ndJsonDeserialize(File)
\* per history: sz, ic per queue, ev: <<"c", thread, op, queue, args, res, ret>>, <<"r", thread>>, <<"rest", queue, values>>, <<"stuck", threads>>
Ev(j) == Traces[tr].ev[j]
N == Len(Traces[tr].ev)
Cap(f) == Traces[tr].sz[f + 1]
Res(f) == Traces[tr].ic[f + 1]
Q(f) == q[f + 1]
Min(a, b) == IF a < b THEN a ELSE b
Room(f) == LET r == Cap(f) - (Len(Q(f)) + Res(f)) IN IF r > 0 THEN r ELSE 0
Closed(f) == cl[f + 1]
Some(f) == Q(f) # <<>> \/ Closed(f)
Either == Q(0) # <<>> \/ Q(1) # <<>> \/ Closed(0) \/ Closed(1)
Both == (Q(0) # <<>> /\ Q(1) # <<>>) \/ Closed(0) \/ Closed(1)
Drop(s, k) == SubSeq(s, k + 1, Len(s))
Put2(f, s) == q' = [q EXCEPT ![f + 1] = s]
Done(t) == pend' = [pend EXCEPT ![t + 1][2] = 2]
Same == q' = q /\ cl' = cl
\* never more than the ring can hold
Append2(f, s) == Len(Q(f)) + Len(s) <= Cap(f) - 1 /\ Put2(f, Q(f) \o s)
Effect(t) ==
  LET e == Ev(pend[t + 1][1]) ph == pend[t + 1][2] op == e[3] f == e[4] a == e[5] r == e[6] x == e[7] IN
  CASE op \in {"add"} -> ph = 0 /\ Append2(f, a) /\ cl' = cl /\ Done(t)
    [] op = "addtry" -> ph = 0 /\ (IF x = 0 THEN Append2(f, a) ELSE q' = q) /\ cl' = cl /\ Done(t)
    [] op \in {"nadd", "naddtry"} ->
         \/ ph = 0 /\ Same /\ (IF x = 0 THEN r[1] = Min(Room(f), Len(a)) ELSE r[1] = 0) /\ pend' = [pend EXCEPT ![t + 1][2] = 1]
         \/ ph = 1 /\ Append2(f, SubSeq(a, 1, r[1])) /\ cl' = cl /\ Done(t)
    [] op \in {"get", "take"} -> ph = 0 /\ Q(f) # <<>> /\ r = <<Q(f)[1]>> /\ Put2(f, Drop(Q(f), 1)) /\ cl' = cl /\ Done(t)
    [] op = "gow" -> ph = 0 /\ cl' = cl /\ Done(t) /\ (IF x = 0 THEN Q(f) # <<>> /\ r = <<Q(f)[1]>> /\ Put2(f, Drop(Q(f), 1)) ELSE Q(f) = <<>> /\ Closed(f) /\ q' = q)
    [] op = "peek" -> ph = 0 /\ Same /\ Done(t) /\ r = (IF Q(f) = <<>> THEN <<>> ELSE <<Q(f)[1]>>)
    [] op = "consume" -> ph = 0 /\ Q(f) # <<>> /\ Put2(f, Drop(Q(f), 1)) /\ cl' = cl /\ Done(t)
    [] op = "nget" -> LET k0 == Min(Len(Q(f)), a[2]) IN LET k == k0 - (k0 % a[1]) IN
                      ph = 0 /\ r = SubSeq(Q(f), 1, k) /\ x = Len(Q(f)) - k /\ Put2(f, Drop(Q(f), k)) /\ cl' = cl /\ Done(t)
    [] op = "empty" -> ph = 0 /\ Same /\ Done(t) /\ (x = 1) = (Q(f) = <<>>)
    [] op = "close" -> ph = 0 /\ cl' = [cl EXCEPT ![f + 1] = TRUE] /\ q' = q /\ Done(t)
    [] op = "wadd" -> ph = 0 /\ Some(f) /\ Same /\ Done(t)
    [] op = "weither" -> ph = 0 /\ Either /\ Same /\ Done(t)
    [] op = "wboth" -> ph = 0 /\ Both /\ Same /\ Done(t)
    [] op \in {"wget", "update"} -> ph = 0 /\ Same /\ Done(t)
\* waiting for ever is all right only for something that is not there
Waits(t) == pend[t + 1] # <<>> /\ pend[t + 1][2] = 0 /\
  LET e == Ev(pend[t + 1][1]) f == e[4] IN
  CASE e[3] \in {"wadd", "gow"} -> ~Some(f)
    [] e[3] = "wget" -> ~Closed(f) /\ Room(f) = 0
    [] e[3] = "weither" -> ~Either
    [] e[3] = "wboth" -> ~Both
    [] OTHER -> FALSE
Init == tr \in Lo..Hi /\ i = 1 /\ q = <<<<>>, <<>>>> /\ cl = <<FALSE, FALSE>> /\ pend = <<<<>>, <<>>, <<>>, <<>>, <<>>, <<>>>>
Next == /\ i <= N /\ tr' = tr
        /\ LET e == Ev(i) IN
           CASE e[1] = "c" -> pend[e[2] + 1] = <<>> /\ pend' = [pend EXCEPT ![e[2] + 1] = <<i, 0>>] /\ i' = i + 1 /\ Same
             [] e[1] = "r" -> IF pend[e[2] + 1][2] = 2 THEN pend' = [pend EXCEPT ![e[2] + 1] = <<>>] /\ i' = i + 1 /\ Same
                              ELSE \E t \in 0..5 : pend[t + 1] # <<>> /\ pend[t + 1][2] # 2 /\ Effect(t) /\ i' = i
             [] e[1] = "rest" -> q[e[2] + 1] = e[3] /\ i' = i + 1 /\ Same /\ pend' = pend
             [] e[1] = "stuck" -> /\ \A t \in {e[2][j] : j \in 1..Len(e[2])} : Waits(t)
                                  /\ i' = i + 1 /\ Same /\ pend' = pend
             [] OTHER -> FALSE
        /\ (i' = N + 1) => Emit(<<tr>>)
\* what the ring can hold is never exceeded
Bounded == \A f \in 0..(Len(Traces[tr].sz) - 1) : Len(Q(f)) < Cap(f)
=============================================================================
