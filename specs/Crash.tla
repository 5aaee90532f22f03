-------------------------------- MODULE Crash --------------------------------
(* E10: scripts of modifying statements, and what a file system may hold when the
   process dies, is interrupted or cannot write at any point of them.  State: the
   files t, u, o, the temporary file a statement fills, the statement, its progress.
   A statement makes a temporary file, fills it row by row and then moves it over its
   target in one step.  Every step can be followed by Die, Interrupt or Fault.
   A file is <<header, rows>>; o may be missing (<<>>). *)
EXTENDS Seeded
CONSTANTS Lo, Hi
VARIABLES sd, files, tmp, at, phase, ended
vars == <<sd, files, tmp, at, phase, ended>>
(* ---------------------------------------------------------------- scripts *)
Map(F(_), q) == [i \in 1..Len(q) |-> F(q[i])]
Sel(q, T(_)) == SelectSeq(q, T)
UK(u, a) == {i \in 1..Len(u) : u[i][1] = a}
Kinds == <<"upd", "upd", "updif", "updin", "updjoin", "del", "deljoin", "into", "into", "intoord", "intogrp", "intouni", "intosub", "intojoin", "intoin", "updu", "print", "intoord", "del", "updlong", "intosubj", "intosj", "updsubj", "printord", "intosubj", "intosj">>
Long == "abcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyz"
RECURSIVE ByN(_)
\* descending by the number (rows have different ones)
ByN(q) == IF Len(q) <= 1 THEN q ELSE LET m == CHOOSE i \in 1..Len(q) : \A j \in 1..Len(q) : q[j][2] <= q[i][2] IN <<q[m]>> \o ByN(SubSeq(q, 1, m - 1) \o SubSeq(q, m + 1, Len(q)))
Grp(q) == Concat(Map(LAMBDA a : LET c == Cardinality({i \in 1..Len(q) : q[i][1] = a}) IN IF c = 0 THEN <<>> ELSE <<<<a, c>>>>, <<Long, "q", "w", "x", "y", "z">>))
Stdin == <<<<"x", 4>>, <<"j", 5>>>>
\* files after a statement <<kind, number>>
Run(f, s) ==
  LET t == f[1][2] u == f[2][2] k == s[1] c == s[2]
      T(q) == <<<<f[1][1], q>>, f[2], f[3]>> O(q) == <<f[1], f[2], <<"a,n", q>>>>
  IN CASE k = "upd" -> T(Map(LAMBDA r : <<r[1], r[2] + 1>>, t))
       [] k = "updif" -> T(Map(LAMBDA r : IF r[2] > c THEN <<"w", r[2]>> ELSE r, t))
       [] k = "updlong" -> T(Map(LAMBDA r : IF r[2] > c THEN <<Long, r[2]>> ELSE r, t))
       [] k = "updin" -> T(Map(LAMBDA r : IF UK(u, r[1]) # {} THEN <<"w", r[2]>> ELSE r, t))
       [] k \in {"updjoin", "updsubj"} -> T(Map(LAMBDA r : IF UK(u, r[1]) # {} THEN <<"q", r[2]>> ELSE r, t))
       [] k = "del" -> T(Sel(t, LAMBDA r : r[2] <= c))
       [] k = "deljoin" -> T(Sel(t, LAMBDA r : UK(u, r[1]) = {}))
       [] k = "updu" -> <<f[1], <<f[2][1], Map(LAMBDA r : <<r[1], r[2] + 1>>, u)>>, f[3]>>
       [] k = "into" -> O(t)
       [] k = "intoord" -> O(ByN(t))
       [] k = "intogrp" -> O(Grp(t))
       [] k = "intouni" -> O(t \o u)
       [] k = "intosub" -> O(Sel(t, LAMBDA r : r[2] > c))
       [] k \in {"intojoin", "intosubj"} -> O(Concat(Map(LAMBDA r : IF UK(u, r[1]) = {} THEN <<>> ELSE <<<<r[1], u[CHOOSE i \in UK(u, r[1]) : TRUE][2]>>>>, t)))
       [] k = "intoin" -> O(Stdin)
       [] k = "intosj" -> O(Map(LAMBDA r : <<r[1], 4>>, Sel(t, LAMBDA r : r[1] = "x")))
       [] OTHER -> f
Target(k) == CASE k \in {"upd", "updif", "updlong", "updin", "updjoin", "updsubj", "del", "deljoin"} -> 1 [] k = "updu" -> 2 [] k \in {"print", "printord"} -> 0 [] OTHER -> 3
Len0(s) == 1 + R(K(s, 1), 3)
Stmt(s, i) == <<At(K(s, 10 + i), Kinds), R(K(s, 20 + i), 5)>>
\* standard input can be read once
FromIn == {"intoin", "intosj"}
Listed(s) == [i \in 1..Len0(s) |-> IF Stmt(s, i)[1] \in FromIn /\ \E j \in 1..(i - 1) : Stmt(s, j)[1] \in FromIn THEN <<"upd", 0>> ELSE Stmt(s, i)]
\* one in five repeats its statements twice
Loop(s) == Ch(K(s, 2), 3) /\ \A i \in 1..Len0(s) : Listed(s)[i][1] \notin FromIn
Steps(s) == IF Loop(s) THEN Listed(s) \o Listed(s) ELSE Listed(s)
Files0(s) == << <<"a,n", [i \in 1..R(K(s, 3), 6) |-> <<At(K(s, 30 + i), <<"x", "y", "z", Long>>), i>>]>>,
                <<"k,v", [i \in 1..(1 + R(K(s, 4), 2)) |-> <<<<"x", "y", "z">>[i], 6 + i>>]>>,
                IF Ch(K(s, 5), 6) THEN <<"old", <<<<"keep", 1>>, <<Long, 2>>>>>> ELSE <<>> >>
RECURSIVE Sts(_, _, _)
Sts(f, q, i) == IF i > Len(q) THEN <<f>> ELSE <<f>> \o Sts(Run(f, q[i]), q, i + 1)
\* the files before the first, after each statement
States(s) == Sts(Files0(s), Steps(s), 1)
(* ---------------------------------------------------------------- the system *)
S == SeedOf(sd)
Init == sd \in Lo..Hi /\ files = Files0(SeedOf(sd)) /\ tmp = <<>> /\ at = 1 /\ phase = "idle" /\ ended = "no"
Cur == Steps(S)[at]
Goal == Run(files, Cur)[Target(Cur[1])]
Begin == /\ phase = "idle" /\ at <= Len(Steps(S))
         /\ (IF Target(Cur[1]) = 0 THEN at' = at + 1 /\ UNCHANGED <<tmp, phase>> ELSE tmp' = << <<Goal[1], <<>>>> >> /\ phase' = "fill" /\ at' = at)
         /\ UNCHANGED <<sd, files, ended>>
Fill == /\ phase = "fill"
        /\ (IF Len(tmp[1][2]) = Len(Goal[2]) THEN phase' = "full" /\ tmp' = tmp ELSE phase' = phase /\ tmp' = << <<tmp[1][1], Append(tmp[1][2], Goal[2][Len(tmp[1][2]) + 1])>> >>)
        /\ UNCHANGED <<sd, files, at, ended>>
Swap == /\ phase = "full"
        /\ files' = [files EXCEPT ![Target(Cur[1])] = tmp[1]] /\ tmp' = <<>> /\ phase' = "idle" /\ at' = at + 1 /\ UNCHANGED <<sd, ended>>
Die == ended' = "died" /\ UNCHANGED <<sd, files, tmp, at, phase>>
Interrupt == ended' = "interrupted" /\ tmp' = <<>> /\ UNCHANGED <<sd, files, at, phase>>
Fault == phase # "idle" /\ ended' = "failed" /\ tmp' = <<>> /\ UNCHANGED <<sd, files, at, phase>>
Finish == at > Len(Steps(S)) /\ ended' = "done" /\ UNCHANGED <<sd, files, tmp, at, phase>>
          /\ Emit(<<Listed(S), IF Loop(S) THEN 1 ELSE 0, States(S)>>)
Next == ended = "no" /\ (Begin \/ Fill \/ Swap \/ Die \/ Interrupt \/ Fault \/ Finish)
(* -------------------------------------------------------------- properties *)
\* whatever happens, the files are those before or after a statement, all of the same one
OldOrNew == \E j \in 1..Len(States(S)) : files = States(S)[j]
Clean == ended \in {"interrupted", "done"} => tmp = <<>>
Reported == ended = "done" => files = States(S)[Len(States(S))]
=============================================================================
