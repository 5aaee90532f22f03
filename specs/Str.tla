------------------------------- MODULE Str -------------------------------
(* U02: the text buffer (util/stringy) as a finite sequence of bytes.
   Arguments marked x are handed over as exactly-sized, unterminated buffers,
   so any read beyond the given length is caught by the instrumented driver. *)
EXTENDS MBT
CONSTANTS MaxLen, Alpha, ArgLen, Pats, Tos
VARIABLES s, log, done
vars == <<s, log, done>>

Lower(c) == IF c >= 65 /\ c <= 90 THEN c + 32 ELSE c
LowerS(q) == [i \in 1..Len(q) |-> Lower(q[i])]
Eq(p, q, nc) == IF nc THEN LowerS(p) = LowerS(q) ELSE p = q

Texts == Seqs(Alpha, ArgLen)

\* index (0-based) of the first occurrence of pat in q at or after i, or -1
Find(q, pat, i, nc) ==
  LET H == {j \in i..(Len(q) - Len(pat)) : Eq(Slice(q, j, j + Len(pat)), pat, nc)}
  IN IF pat = <<>> \/ H = {} THEN -1 ELSE CHOOSE j \in H : \A k \in H : j <= k

ReplaceOne(q, pat, to, i, nc) ==
  LET j == Find(q, pat, i, nc)
  IN IF j < 0 THEN <<q, Len(q)>>
     ELSE <<Slice(q, 0, j) \o to \o Slice(q, j + Len(pat), Len(q)), j + Len(to)>>

\* declarative: cut the text at the leftmost non-overlapping occurrences
RECURSIVE Parts(_, _, _)
Parts(q, pat, nc) ==
  LET j == Find(q, pat, 0, nc)
  IN IF j < 0 THEN <<q>> ELSE <<Slice(q, 0, j)>> \o Parts(Slice(q, j + Len(pat), Len(q)), pat, nc)
Join(parts, to) == FoldL(LAMBDA a, b : a \o to \o b, parts[1], SubSeq(parts, 2, Len(parts)))
ReplaceAll(q, pat, to, nc) == Join(Parts(q, pat, nc), to)

\* operational: repeat ReplaceOne, resuming after the inserted text
RECURSIVE Loop(_, _, _, _, _)
Loop(q, pat, to, i, nc) ==
  IF i >= Len(q) THEN q
  ELSE LET r == ReplaceOne(q, pat, to, i, nc) IN Loop(r[1], pat, to, r[2], nc)

Obs(q) == <<Len(q), q>>
Call(op, args, t, res) ==
  /\ s' = t
  /\ log' = Append(log, <<op>> \o args \o <<<<res, Obs(t)>>>>)

Init ==
  /\ \E how \in {"construct", "from_cstr", "take", "from_view", "copy_new"}, t \in Texts :
       /\ how = "construct" => t = <<>>
       /\ s = t
       /\ log = <<<<"new", how, t, <<0, Obs(t)>>>>>>
  /\ done = FALSE

Push    == \E c \in Pick(Alpha) : Call("push", <<c>>, Append(s, c), 0)
Strcpy  == \E t \in Pick(Texts) : Call("strcpy", <<t>>, t, Len(t))
Strcat  == \E t \in Pick(Texts) : Call("strcat", <<t>>, s \o t, Len(t))
\* source longer than or as long as the bound: unterminated; shorter: terminated
Strncpy == \E t \in Pick(Texts), n \in Pick(0..(ArgLen + 1)) :
             Call("strncpy", <<t, n>>, Slice(t, 0, Min2(n, Len(t))), Min2(n, Len(t)))
Strncat == \E t \in Pick(Texts), n \in Pick(0..(ArgLen + 1)) :
             Call("strncat", <<t, n>>, s \o Slice(t, 0, Min2(n, Len(t))), Min2(n, Len(t)))
CopyS   == \E t \in Pick(Texts) : Call("copy", <<t>>, t, 0)
AppendS == \E t \in Pick(Texts) : Call("append", <<t>>, s \o t, 0)
CopySv  == \E t \in Pick(Texts) : Call("copy_view", <<t>>, t, 0)
AppendSv== \E t \in Pick(Texts) : Call("append_view", <<t>>, s \o t, 0)
Printf  == \E t \in Pick(Texts), n \in Pick({0, 7, -12}) :
             Call("sprintf", <<n, t>>,
                  (IF n < 0 THEN <<45>> ELSE <<>>) \o
                  (CASE n = 0 -> <<48>> [] n = 7 -> <<55>> [] OTHER -> <<49, 50>>) \o <<58>> \o t,
                  (CASE n = 0 -> 1 [] n = 7 -> 1 [] OTHER -> 3) + 1 + Len(t))
Clear   == (Lite => Len(s) > 4) /\ Call("clear", <<>>, <<>>, 0)
Shrink  == \E k \in Pick(0..Len(s)) : Call("resize", <<k>>, Slice(s, 0, k), 0)
Export  == Call("export", <<>>, <<>>, s)
View    == Call("view", <<>>, s, s)

FindOp(op, pat, to, i, nc) ==
   LET r == ReplaceOne(s, pat, to, i, nc) IN Call(op, <<pat, to, i>>, r[1], r[2])
One     == \E p \in Pick(Pats), t \in Pick(Tos), i \in Pick(0..Len(s)), o \in Pick({"one", "one_lim"}) : FindOp(o, p, t, i, FALSE)
OneNc   == \E p \in Pick(Pats), t \in Pick(Tos), i \in Pick(0..Len(s)), o \in Pick({"one_nc", "one_nc_lim"}) : FindOp(o, p, t, i, TRUE)
All     == \E p \in Pick(Pats), t \in Pick(Tos), o \in Pick({"all", "all_lim"}) : Call(o, <<p, t>>, ReplaceAll(s, p, t, FALSE), 0)
AllNc   == \E p \in Pick(Pats), t \in Pick(Tos), o \in Pick({"all_nc", "all_nc_lim"}) : Call(o, <<p, t>>, ReplaceAll(s, p, t, TRUE), 0)

Op == \/ Push \/ Strcpy \/ Strcat \/ Strncpy \/ Strncat \/ CopyS \/ AppendS \/ CopySv \/ AppendSv
      \/ Printf \/ Clear \/ Shrink \/ Export \/ View
      \/ One \/ OneNc \/ All \/ AllNc \/ All \/ AllNc

Fin == Len(log) = D /\ ~done /\ Emit(log) /\ done' = TRUE /\ UNCHANGED <<s, log>>
Next == \/ Len(log) < D /\ ~done /\ Op /\ UNCHANGED done /\ Len(s') <= MaxLen
        \/ Fin
Spec == Init /\ [][Next]_vars

\* The declarative and the operational reading of replace-all agree, and
\* nothing is ever left to replace unless the replacement reintroduces it.
ReplaceAgree == Len(log) < D => \A p \in Pats, t \in Tos, nc \in BOOLEAN :
   /\ Loop(s, p, t, 0, nc) = ReplaceAll(s, p, t, nc)
   /\ (t = <<>> /\ Len(p) = 1) => Find(ReplaceAll(s, p, t, nc), p, 0, nc) = -1
   /\ Len(ReplaceAll(s, p, t, nc)) = Len(s) + (Len(Parts(s, p, nc)) - 1) * (Len(t) - Len(p))
============================================================================
