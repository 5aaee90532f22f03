-------------------------------- MODULE Sig --------------------------------
(* U11: the registry of temporary files (lib/fqlsig) and its signal handling.
   F files may exist; reg is the sequence of live registrations <<id, file>>.
   disp is the disposition of SIGINT before initialisation: 0 default,
   1 ignored, 2 a handler of somebody else (which must be called with -1). *)
EXTENDS MBT
CONSTANTS F, Sigs, Disps
VARIABLES exists, reg, n, disp, log, ended, done
vars == <<exists, reg, n, disp, log, ended, done>>
SetSeq(S) == [i \in 1..F |-> B(i \in S)]
Files(r) == {r[i][2] : i \in 1..Len(r)}
Obs(e) == <<0, SetSeq(e)>>
\* the process has ended with failure; somebody else's handler got -1 exactly once
Dead(e) == <<1, SetSeq(e), B(disp = 2)>>
Init == /\ exists = {} /\ reg = <<>> /\ n = 0 /\ disp \in Disps /\ ended = FALSE /\ done = FALSE
        /\ log = <<<<"new", disp, F, Obs({})>>>>
Do(e, op, args) == log' = Append(log, <<op>> \o args \o <<Obs(e)>>) /\ exists' = e /\ UNCHANGED <<disp, ended>>
Create == \E f \in Pick(1..F) : f \notin exists /\ Do(exists \cup {f}, "create", <<f>>) /\ UNCHANGED <<reg, n>>
Push == \E f \in Pick(1..F) : Do(exists, "push", <<f>>) /\ reg' = Append(reg, <<n + 1, f>>) /\ n' = n + 1
\* create and register at once (the ordinary use)
Temp == \E f \in Pick(1..F) : f \notin exists /\ Do(exists \cup {f}, "temp", <<f>>) /\ reg' = Append(reg, <<n + 1, f>>) /\ n' = n + 1
Drop(i) == SubSeq(reg, 1, i - 1) \o SubSeq(reg, i + 1, Len(reg))
Release == \E i \in Pick(1..Len(reg)) : Do(exists, "release", <<reg[i][1]>>) /\ reg' = Drop(i) /\ UNCHANGED n
Remove == \E i \in Pick(1..Len(reg)) : Do(exists \ {reg[i][2]}, "remove", <<reg[i][1]>>) /\ reg' = Drop(i) /\ UNCHANGED n
RmFile == \E f \in Pick(exists) : Do(exists \ {f}, "rmfile", <<f>>) /\ UNCHANGED <<reg, n>>
RemoveAll == Do(exists \ Files(reg), "removeall", <<>>) /\ reg' = <<>> /\ UNCHANGED n
Reinit == Do(exists, "reinit", <<>>) /\ UNCHANGED <<reg, n>>
\* interruption between two operations, or just before (0) or after (1) the
\* k-th file removal within an operation: everything tracked is removed
Kill(op, args, e) == log' = Append(log, <<op>> \o args \o <<Dead(e)>>) /\ exists' = e /\ ended' = TRUE /\ reg' = <<>> /\ UNCHANGED <<n, disp>>
SigIdle == \E s \in Pick(Sigs) : Kill("sig", <<s>>, exists \ Files(reg))
SigRemove == \E s \in Pick(Sigs), w \in Pick({0, 1}), i \in Pick(1..Len(reg)) : Kill("sigremove", <<s, w, reg[i][1]>>, exists \ Files(reg))
SigAll == \E s \in Pick(Sigs), w \in Pick({0, 1}), k \in Pick(1..Len(reg)) : Kill("sigall", <<s, w, k>>, exists \ Files(reg))
SigPush == \E s \in Pick(Sigs), f \in Pick(1..F) : Kill("sigpush", <<s, f>>, exists \ Files(reg \o <<<<0, f>>>>))
Op == Create \/ Push \/ Temp \/ Release \/ Remove \/ RmFile \/ RemoveAll \/ Reinit \/ (Len(log) = D - 1 /\ (SigIdle \/ SigRemove \/ SigAll \/ SigPush))
      \/ (Lite /\ Len(log) > 6 /\ RandomElement(1..8) = 1 /\ (SigIdle \/ SigRemove \/ SigAll))
Fin == (Len(log) = D \/ ended) /\ ~done /\ Emit(log) /\ done' = TRUE /\ UNCHANGED <<exists, reg, n, disp, log, ended>>
Next == \/ Len(log) < D /\ ~ended /\ Op /\ UNCHANGED done
        \/ Fin
Spec == Init /\ [][Next]_vars
Inv == Cardinality({reg[i][1] : i \in 1..Len(reg)}) = Len(reg) /\ (ended => reg = <<>>)
============================================================================
