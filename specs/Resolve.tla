----------------------------- MODULE Resolve -----------------------------
(* E11: which file a table name denotes.  State: a directory (a set of file
   names, texts over codes) and the statements run against it.  Levels of a
   match: 1 the name itself, 2 ignoring case, 3 without the extension, 4 both.
   The best level any file reaches decides; one file there is it, several are
   an error.  In strict mode level 1 only. *)
EXTENDS MBT
CONSTANTS Pool,      \* file names
          Names,     \* names of tables in statements
          MinF, MaxF \* number of files
VARIABLES dir, log, done
vars == <<dir, log, done>>
Lower(c) == IF c >= 65 /\ c <= 90 THEN c + 32 ELSE c
Upper(c) == IF c >= 97 /\ c <= 122 THEN c - 32 ELSE c
Low(q) == [i \in 1..Len(q) |-> Lower(q[i])]
Up(q) == [i \in 1..Len(q) |-> Upper(q[i])]
Swap(n) == IF Low(n) # n THEN Low(n) ELSE Up(n)
\* the position of the dot that starts the extension; a leading dot does not
Dots(q) == {i \in 2..Len(q) : q[i] = 46}
NoExt(q) == IF Dots(q) = {} THEN q ELSE SubSeq(q, 1, (CHOOSE i \in Dots(q) : \A j \in Dots(q) : j <= i) - 1)
Level(f, n) == IF f = n THEN 1 ELSE IF Low(f) = Low(n) THEN 2 ELSE IF NoExt(f) = n THEN 3 ELSE IF Low(NoExt(f)) = Low(n) THEN 4 ELSE 5
\* the table of all levels, evaluated once
LV == [f \in Pool |-> [n \in Names \cup {Swap(m) : m \in Names} |-> Level(f, n)]]
At(d, n, l) == {f \in d : LV[f][n] = l}
None == <<"none">>
Several == <<"several">>
Resolve(d, n, strict) ==
  LET ls == {l \in 1..(IF strict THEN 1 ELSE 4) : At(d, n, l) # {}} IN
  IF ls = {} THEN None
  ELSE LET m == At(d, n, CHOOSE l \in ls : \A k \in ls : l <= k) IN IF Cardinality(m) = 1 THEN <<"file", CHOOSE f \in m : TRUE>> ELSE Several
(* ---------------------------------------------------------------- laws *)
Laws(d) == \A n \in Names :
  LET r == Resolve(d, n, FALSE) s == Resolve(d, n, TRUE) IN
  /\ (n \in d) <=> (s = <<"file", n>>)
  /\ (s # None => r = s) /\ s # Several
  /\ (r[1] = "file" => r[2] \in d /\ \A f \in d : f # r[2] => Level(f, n) > Level(r[2], n))
  \* a file that matches worse changes nothing; one that matches better is taken
  /\ (r[1] = "file" => \A g \in Pool \ d : LET x == Resolve(d \cup {g}, n, FALSE) IN
        IF LV[g][n] > LV[r[2]][n] THEN x = r ELSE IF LV[g][n] < LV[r[2]][n] THEN x = <<"file", g>> ELSE x = Several)
  \* case of the name matters only among files that differ in case
  /\ (r[1] = "none" <=> Resolve(d, Swap(n), FALSE)[1] = "none")
(* ---------------------------------------------------------- behaviours *)
Stmt(n, strict) == log' = Append(log, <<n, B(strict), Resolve(dir, n, strict)>>)
Init == dir = {} /\ log = <<>> /\ done = FALSE
\* the directory is made first (any order), then every name is used
Make == log = <<>> /\ ~done /\ Cardinality(dir) < MaxF /\ \E f \in (IF Lite THEN Pick(Pool \ dir) ELSE Pool \ dir) : dir' = dir \cup {f} /\ UNCHANGED <<log, done>>
Use == /\ ~done /\ Cardinality(dir) >= MinF /\ (Lite => Cardinality(dir) = MaxF)
       /\ \E n \in (IF Lite THEN Pick(Names) ELSE Names), s \in (IF Lite THEN Pick({TRUE, FALSE, FALSE, FALSE}) ELSE BOOLEAN) : Stmt(n, s) /\ UNCHANGED <<dir, done>>
Fin == done' = TRUE /\ Emit(<<dir, log>>) /\ UNCHANGED <<dir, log>>
Next == ~done /\ IF Len(log) = D THEN Fin ELSE (Make \/ Use)
Inv == log = <<>> => Laws(dir)
==========================================================================
