------------------------------- MODULE MBT -------------------------------
(* Common scaffolding of the sequential (abstract data type) specifications.
   Every specification is a deterministic-effect state machine: an action
   describes one API call, its precondition (the caller's duty), its effect on
   the abstract state and what the caller must observe.  `log` records the
   behaviour as a list of <<operation, arg, ..., observation>>; when it has
   reached the length D it is written out (once) as one test for the
   implementation.  D, Out are set by the runner. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
LOCAL CSVm == INSTANCE CSV
LOCAL Jsonm == INSTANCE Json
LOCAL Seqm == INSTANCE SequencesExt
LOCAL Rnd == INSTANCE Randomization
CONSTANTS D, Out, Lite

\* In exhaustive runs every argument value is tried.  In simulation runs (Lite)
\* one random value per choice keeps the number of successors per step small.
Pick(S) == IF Lite /\ Cardinality(S) > 1 THEN Rnd!RandomSubset(1, S) ELSE S

Last(q) == q[Len(q)]
Front(q) == SubSeq(q, 1, Len(q) - 1)
FoldL(op(_, _), base, q) == Seqm!FoldLeft(op, base, q)
Sum(q) == Seqm!FoldLeft(LAMBDA a, b : a + b, 0, q)
Concat(qq) == Seqm!FoldLeft(LAMBDA a, b : a \o b, <<>>, qq)
Rng(q) == {q[i] : i \in 1..Len(q)}
Seqs(S, n) == UNION {[1..k -> S] : k \in 0..n}
IsPre(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p

Emit(log) == CSVm!CSVWrite("%1$s", <<Jsonm!ToJson(log)>>, Out)

Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b

\* 0-based, half-open slice of a sequence
Slice(q, i, j) == SubSeq(q, i + 1, j)
Ins(q, i, e)   == Slice(q, 0, i) \o e \o Slice(q, i, Len(q))
Del(q, i, n)   == Slice(q, 0, i) \o Slice(q, i + n, Len(q))
Put(q, i, e)   == Slice(q, 0, i) \o e \o Slice(q, i + Len(e), Len(q))
Rep(x, n)      == [k \in 1..n |-> x]
B(b)           == IF b THEN 1 ELSE 0
============================================================================
