------------------------------- MODULE DGraph -------------------------------
(* U09: the plan graph (util/dgraph).  Nodes are numbered in creation order; a
   node has two out-edges (0: none).  Two graphs exist so that one can absorb
   the other.  Roots are the marked nodes; if there are none, the nodes without
   incoming edges, which are marked from then on.  A traversal takes the roots
   in turn and runs a breadth-first search from each one not yet visited. *)
EXTENDS MBT
CONSTANTS MaxN
VARIABLES nodes,   \* <<sequence of node numbers of graph 1, of graph 2>>
          out,     \* node -> <<child or 0, child or 0>>
          mark,    \* node -> is it marked as a root
          roots, good, \* per graph: root sequence as last determined, and whether it is up to date
          log, done
vars == <<nodes, out, mark, roots, good, log, done>>

NN == Len(out)
Kids(n) == SelectSeq(out[n], LAMBDA c : c # 0)
FindRoots(g, mk) ==
  LET mr == SelectSeq(nodes[g], LAMBDA n : mk[n])
      ref == {c \in UNION {Rng(out[n]) : n \in Rng(nodes[g])} : c # 0}
  IN IF mr # <<>> THEN mr ELSE SelectSeq(nodes[g], LAMBDA n : n \notin ref)
GetRoots(g) == IF good[g] THEN roots[g] ELSE FindRoots(g, mark)

\* the order in which nodes are returned; a node queued again before its first
\* visit is returned again
RECURSIVE Walk(_, _, _, _)
Walk(queue, rs, seen, acc) ==
  IF queue = <<>>
  THEN IF rs = <<>> THEN acc
       ELSE IF Head(rs) \in seen THEN Walk(<<>>, Tail(rs), seen, acc)
       ELSE Walk(<<Head(rs)>>, Tail(rs), seen, acc)
  ELSE LET n == Head(queue)
           s2 == seen \cup {n}
       IN Walk(Tail(queue) \o SelectSeq(Kids(n), LAMBDA c : c \notin s2), rs, s2, Append(acc, n))
Trav(g) == Walk(<<>>, GetRoots(g), {}, <<>>)

RECURSIVE Reach(_, _)
Reach(S, k) == IF k = 0 THEN S ELSE Reach(S \cup {c \in UNION {Rng(out[n]) : n \in S} : c # 0}, k - 1)
\* there is no cycle
RECURSIVE Above(_, _)
Above(n, k) == IF k = 0 THEN {n} ELSE {n} \cup UNION {Above(Kids(n)[i], k - 1) : i \in 1..Len(Kids(n))}
Below(n) == UNION {Reach({c}, NN) : c \in Rng(Kids(n))}

Log(e) == log' = Append(log, e)
Init == /\ nodes = <<<<>>, <<>>>> /\ out = <<>> /\ mark = <<>> /\ roots = <<<<>>, <<>>>> /\ good = <<FALSE, FALSE>>
        /\ done = FALSE /\ log = <<<<"new", 0>>>>
\* a new node in graph g with given edges to existing nodes of the same graph
AddN == NN < MaxN /\ \E g \in Pick({1, 2}), r \in Pick({0, 0, 1}), nw \in Pick({0, 1}) : \E a \in Pick(Rng(nodes[g]) \cup {0}), b \in Pick(Rng(nodes[g]) \cup {0}) :
         /\ nodes' = [nodes EXCEPT ![g] = Append(@, NN + 1)] /\ out' = Append(out, <<a, b>>) /\ mark' = Append(mark, r = 1)
         /\ good' = [good EXCEPT ![g] = FALSE] /\ UNCHANGED roots
         /\ Log(<<"add", g, r, a, b, nw, NN + 1>>)
\* redirect an edge before the next change of the node set (the cached roots stay)
Edge == \E g \in Pick({1, 2}) : ~good[g] /\ \E n \in Pick(Rng(nodes[g])), k \in Pick({1, 2}) : \E c \in Pick({x \in Rng(nodes[g]) : n \notin Reach({x}, NN)} \cup {0}) :
         /\ out[n][k] # c /\ out' = [out EXCEPT ![n][k] = c] /\ UNCHANGED <<nodes, mark, roots, good>>
         /\ Log(<<"edge", n, k - 1, c, 0>>)
Remove == \E g \in Pick({1, 2}) : \E n \in Pick(Rng(nodes[g])) :
         /\ nodes' = [nodes EXCEPT ![g] = SelectSeq(@, LAMBDA x : x # n)]
         /\ out' = [m \in 1..NN |-> IF m = n THEN <<0, 0>> ELSE [k \in 1..2 |-> IF out[m][k] = n THEN 0 ELSE out[m][k]]]
         /\ good' = [good EXCEPT ![g] = FALSE] /\ UNCHANGED <<mark, roots>>
         /\ Log(<<"remove", g, CHOOSE i \in 1..Len(nodes[g]) : nodes[g][i] = n, n>>)
\* graph 1 absorbs graph 2, which starts afresh
Consume == /\ nodes[2] # <<>> /\ nodes' = <<nodes[1] \o nodes[2], <<>>>> /\ good' = <<FALSE, FALSE>> /\ roots' = [roots EXCEPT ![2] = <<>>] /\ UNCHANGED <<out, mark>>
           /\ Log(<<"consume", 0>>)
Marked(g) == [n \in 1..NN |-> IF n \in Rng(GetRoots(g)) THEN TRUE ELSE mark[n]]
\* determine the roots; the number of nodes is observed too
Roots == \E g \in Pick({1, 2}) : /\ roots' = [roots EXCEPT ![g] = GetRoots(g)] /\ good' = [good EXCEPT ![g] = TRUE]
           /\ mark' = Marked(g) /\ UNCHANGED <<nodes, out>> /\ Log(<<"roots", g, <<GetRoots(g), Len(nodes[g])>>>>)
\* k: stop after k nodes (then a reset must start again from the beginning)
Traverse == \E g \in Pick({1, 2}), k \in Pick({2, 1000}) :
           /\ roots' = [roots EXCEPT ![g] = GetRoots(g)] /\ good' = [good EXCEPT ![g] = TRUE]
           /\ mark' = Marked(g) /\ UNCHANGED <<nodes, out>>
           /\ Log(<<"traverse", g, k, SubSeq(Trav(g), 1, Min2(k, Len(Trav(g))))>>)
Op == AddN \/ AddN \/ Edge \/ Remove \/ Consume \/ Roots \/ Traverse
Op2 == IF Lite THEN IF Len(log) < MaxN + 1 THEN AddN \/ Edge \/ Traverse ELSE Op ELSE
         IF Len(log) < D - 1 THEN (IF Len(log) < D - 2 THEN AddN ELSE AddN \/ Edge \/ Remove \/ Consume) ELSE Traverse
Fin == Len(log) = D /\ ~done /\ Emit(log) /\ done' = TRUE /\ UNCHANGED <<nodes, out, mark, roots, good, log>>
Next == \/ Len(log) < D /\ ~done /\ Op2 /\ UNCHANGED done
        \/ Fin
Spec == Init /\ [][Next]_vars
Acyclic == \A n \in 1..NN : n \notin Below(n)
\* every traversal returns exactly what the roots reach
TravExact == \A g \in {1, 2} : Rng(Trav(g)) = Reach(Rng(GetRoots(g)), NN)
\* with acyclic edges every non-empty graph has roots
HasRoots == \A g \in {1, 2} : nodes[g] # <<>> /\ ~good[g] => GetRoots(g) # <<>>
Inv == Acyclic /\ TravExact /\ HasRoots
============================================================================
