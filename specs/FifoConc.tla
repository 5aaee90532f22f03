------------------------------ MODULE FifoConc ------------------------------
(* U08: the protocol of the concurrent queue, a step per access to anything shared:
   two locks and two conditions per queue, head and tail, the open flag, and the
   reference by which one thread waits for two queues.  Producers look whether there
   is room, wait if there is none, and add; the last one closes its queue.  The
   consumer waits for one queue, either of two, or both; it may stop early and close.
   TLC explores every interleaving: no element is lost, duplicated or overtaken, the
   ring is never overrun, and no state is reached in which a thread is left waiting. *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Size, Reserve, P0, P1, Items, Mode, Limit, Spurious
Fs == IF Mode \in {"either", "both"} THEN {0, 1} ELSE {0}
Prods == 1..(P0 + P1)
FOf(p) == IF p <= P0 THEN 0 ELSE 1
Ts == {0} \cup Prods
VARIABLES pc, ret, reg, sent, hd, tl, ring, open, hm, tm, wa, wg, shared, left, got, tgt, phase
vars == <<pc, ret, reg, sent, hd, tl, ring, open, hm, tm, wa, wg, shared, left, got, tgt, phase>>
(* pc: where a thread is; ret: where it goes on after adding, closing, signalling;
   reg: a head it has read; wa, wg: threads waiting for an add, a get; tgt: the queue
   a thread works on; phase: what the consumer is doing *)
None == 9
Avail(h, t) == LET a == h - t IN IF a < 0 THEN a + Size ELSE a
Empty(f) == hd[f] = tl[f]
Receivable(h, t) == Avail(h, t) + Reserve < Size
Start(t) == IF t = 0 THEN (CASE Mode = "either" -> "sh1" [] Mode = "both" -> "sh1" [] OTHER -> "wa1") ELSE "p1"
Init == /\ pc = [t \in Ts |-> Start(t)] /\ ret = [t \in Ts |-> <<>>] /\ reg = [t \in Ts |-> 0] /\ sent = [t \in Ts |-> 0]
        /\ hd = [f \in {0, 1} |-> 0] /\ tl = [f \in {0, 1} |-> 0] /\ ring = [f \in {0, 1} |-> [s \in 0..(Size - 1) |-> <<0, 0>>]]
        /\ open = [f \in {0, 1} |-> TRUE] /\ hm = [f \in {0, 1} |-> None] /\ tm = [f \in {0, 1} |-> None]
        /\ wa = [f \in {0, 1} |-> {}] /\ wg = [f \in {0, 1} |-> {}] /\ shared = FALSE
        /\ left = [f \in {0, 1} |-> IF f = 0 THEN P0 ELSE P1] /\ got = <<>> /\ tgt = [t \in Ts |-> IF t = 0 THEN 0 ELSE FOf(t)]
        /\ phase = IF Mode \in {"either", "both"} THEN "two" ELSE "one"
Go(t, l) == pc' = [pc EXCEPT ![t] = l]
Push(t, l, back) == pc' = [pc EXCEPT ![t] = l] /\ ret' = [ret EXCEPT ![t] = <<back>> \o @]
Pop(t) == pc' = [pc EXCEPT ![t] = Head(ret[t])] /\ ret' = [ret EXCEPT ![t] = Tail(@)]
LockH(t, f) == hm[f] = None /\ hm' = [hm EXCEPT ![f] = t]
LockT(t, f) == tm[f] = None /\ tm' = [tm EXCEPT ![f] = t]
FreeH(f) == hm' = [hm EXCEPT ![f] = None]
FreeT(f) == tm' = [tm EXCEPT ![f] = None]
UQ == UNCHANGED <<hd, tl, ring>>
UM == UNCHANGED <<hm, tm>>
UW == UNCHANGED <<wa, wg>>
UL == UNCHANGED <<reg, sent, left, got, tgt, phase>>
\* ---- producers
P(t) == LET f == tgt[t] IN
  CASE pc[t] = "p1" -> reg' = [reg EXCEPT ![t] = hd[f]] /\ Go(t, IF sent[t] = Items THEN "pend" ELSE "p2") /\ UQ /\ UM /\ UW /\ UNCHANGED <<ret, sent, left, got, tgt, phase, open, shared>>
    [] pc[t] = "p2" -> Go(t, IF Receivable(reg[t], tl[f]) THEN "a1" ELSE "p3") /\ UQ /\ UM /\ UW /\ UL /\ UNCHANGED <<ret, open, shared>>
    [] pc[t] = "p3" -> Go(t, IF open[f] THEN "g1" ELSE "pend") /\ UQ /\ UM /\ UW /\ UL /\ UNCHANGED <<ret, open, shared>>
    \* wait for a get
    [] pc[t] = "g1" -> LockT(t, f) /\ Go(t, "g2") /\ UQ /\ UW /\ UL /\ UNCHANGED <<ret, open, shared, hm>>
    [] pc[t] = "g2" -> Go(t, IF open[f] THEN "g3" ELSE "g6") /\ UQ /\ UM /\ UW /\ UL /\ UNCHANGED <<ret, open, shared>>
    [] pc[t] = "g3" -> reg' = [reg EXCEPT ![t] = hd[f]] /\ Go(t, "g4") /\ UQ /\ UM /\ UW /\ UNCHANGED <<ret, sent, left, got, tgt, phase, open, shared>>
    [] pc[t] = "g4" -> IF Receivable(reg[t], tl[f]) THEN Go(t, "g6") /\ UQ /\ UM /\ UW /\ UL /\ UNCHANGED <<ret, open, shared>>
                       ELSE wg' = [wg EXCEPT ![f] = @ \cup {t}] /\ FreeT(f) /\ Go(t, "g5") /\ UQ /\ UL /\ UNCHANGED <<ret, open, shared, hm, wa>>
    [] pc[t] = "g5" -> t \notin wg[f] /\ LockT(t, f) /\ Go(t, "g2") /\ UQ /\ UW /\ UL /\ UNCHANGED <<ret, open, shared, hm>>
    [] pc[t] = "g6" -> FreeT(f) /\ Go(t, "p1") /\ UQ /\ UW /\ UL /\ UNCHANGED <<ret, open, shared, hm>>
    \* add
    [] pc[t] = "a1" -> LockH(t, f) /\ Go(t, "a2") /\ UQ /\ UW /\ UL /\ UNCHANGED <<ret, open, shared, tm>>
    [] pc[t] = "a2" -> ring' = [ring EXCEPT ![f][hd[f]] = <<t, sent[t] + 1>>] /\ Go(t, "a3") /\ UM /\ UW /\ UL /\ UNCHANGED <<hd, tl, ret, open, shared>>
    [] pc[t] = "a3" -> hd' = [hd EXCEPT ![f] = (@ + 1) % Size] /\ sent' = [sent EXCEPT ![t] = @ + 1] /\ Go(t, "a4") /\ UM /\ UW /\ UNCHANGED <<tl, ring, ret, open, shared, reg, left, got, tgt, phase>>
    [] pc[t] = "a4" -> /\ (IF wa[f] = {} THEN wa' = wa ELSE \E w \in wa[f] : wa' = [wa EXCEPT ![f] = @ \ {w}])
                       /\ Go(t, "a5") /\ UQ /\ UM /\ UL /\ UNCHANGED <<ret, open, shared, wg>>
    [] pc[t] = "a5" -> FreeH(f) /\ Push(t, "s1", "p1") /\ UQ /\ UW /\ UL /\ UNCHANGED <<open, shared, tm>>
    [] pc[t] = "pend" -> /\ left' = [left EXCEPT ![f] = @ - 1]
                         /\ (IF left[f] = 1 THEN Push(t, "c1", "done") ELSE Go(t, "done") /\ ret' = ret)
                         /\ UQ /\ UM /\ UW /\ UNCHANGED <<open, shared, reg, sent, got, tgt, phase>>
    [] OTHER -> FALSE
\* ---- signal whoever waits for two queues by the other one; close
S(t) == LET f == tgt[t] IN
  CASE pc[t] = "s1" -> (IF f = 0 /\ shared THEN Go(t, "s2") /\ ret' = ret ELSE Pop(t)) /\ UQ /\ UM /\ UW /\ UL /\ UNCHANGED <<open, shared>>
    [] pc[t] = "s2" -> LockH(t, 1) /\ Go(t, "s3") /\ UQ /\ UW /\ UL /\ UNCHANGED <<ret, open, shared, tm>>
    [] pc[t] = "s3" -> wa' = [wa EXCEPT ![1] = {}] /\ Go(t, "s4") /\ UQ /\ UM /\ UL /\ UNCHANGED <<ret, open, shared, wg>>
    [] pc[t] = "s4" -> FreeH(1) /\ Pop(t) /\ UQ /\ UW /\ UL /\ UNCHANGED <<open, shared, tm>>
    [] pc[t] = "c1" -> LockT(t, f) /\ Go(t, "c2") /\ UQ /\ UW /\ UL /\ UNCHANGED <<ret, open, shared, hm>>
    [] pc[t] = "c2" -> LockH(t, f) /\ Go(t, "c3") /\ UQ /\ UW /\ UL /\ UNCHANGED <<ret, open, shared, tm>>
    [] pc[t] = "c3" -> open' = [open EXCEPT ![f] = FALSE] /\ Go(t, "c4") /\ UQ /\ UM /\ UW /\ UL /\ UNCHANGED <<ret, shared>>
    [] pc[t] = "c4" -> wg' = [wg EXCEPT ![f] = {}] /\ Go(t, "c5") /\ UQ /\ UM /\ UL /\ UNCHANGED <<ret, open, shared, wa>>
    [] pc[t] = "c5" -> wa' = [wa EXCEPT ![f] = {}] /\ Go(t, "c6") /\ UQ /\ UM /\ UL /\ UNCHANGED <<ret, open, shared, wg>>
    [] pc[t] = "c6" -> FreeH(f) /\ Go(t, "c7") /\ UQ /\ UW /\ UL /\ UNCHANGED <<ret, open, shared, tm>>
    [] pc[t] = "c7" -> FreeT(f) /\ Go(t, "s1") /\ UQ /\ UW /\ UL /\ UNCHANGED <<ret, open, shared, hm>>
    [] OTHER -> FALSE
\* ---- the consumer (thread 0)
Ready == IF Mode = "either" THEN ~open[0] \/ ~open[1] \/ ~Empty(0) \/ ~Empty(1) ELSE ~open[0] \/ ~open[1] \/ (~Empty(0) /\ ~Empty(1))
C == LET t == 0 f == tgt[0] IN
  \* wait for one
  CASE pc[t] = "wa1" -> LockH(t, f) /\ Go(t, "wa2") /\ UQ /\ UW /\ UL /\ UNCHANGED <<ret, open, shared, tm>>
    [] pc[t] = "wa2" -> Go(t, IF open[f] THEN "wa3" ELSE "wa5") /\ UQ /\ UM /\ UW /\ UL /\ UNCHANGED <<ret, open, shared>>
    [] pc[t] = "wa3" -> IF ~Empty(f) THEN Go(t, "wa5") /\ UQ /\ UM /\ UW /\ UL /\ UNCHANGED <<ret, open, shared>>
                        ELSE wa' = [wa EXCEPT ![f] = @ \cup {t}] /\ FreeH(f) /\ Go(t, "wa4") /\ UQ /\ UL /\ UNCHANGED <<ret, open, shared, tm, wg>>
    [] pc[t] = "wa4" -> t \notin wa[f] /\ LockH(t, f) /\ Go(t, "wa2") /\ UQ /\ UW /\ UL /\ UNCHANGED <<ret, open, shared, tm>>
    [] pc[t] = "wa5" -> FreeH(f) /\ Go(t, "wa6") /\ UQ /\ UW /\ UL /\ UNCHANGED <<ret, open, shared, tm>>
    [] pc[t] = "wa6" -> /\ (IF ~Empty(f) THEN Push(t, "ge1", "more") /\ tgt' = tgt
                            ELSE IF phase = "rest" /\ f = 0 THEN Go(t, "wa1") /\ tgt' = [tgt EXCEPT ![0] = 1] /\ ret' = ret ELSE Go(t, "done") /\ ret' = ret /\ tgt' = tgt)
                        /\ UQ /\ UM /\ UW /\ UNCHANGED <<open, shared, reg, sent, left, got, phase>>
    \* get
    [] pc[t] = "ge1" -> LockT(t, f) /\ Go(t, "ge2") /\ UQ /\ UW /\ UL /\ UNCHANGED <<ret, open, shared, hm>>
    [] pc[t] = "ge2" -> got' = Append(got, <<f, ring[f][tl[f]]>>) /\ Go(t, "ge3") /\ UQ /\ UM /\ UW /\ UNCHANGED <<ret, open, shared, reg, sent, left, tgt, phase>>
    [] pc[t] = "ge3" -> tl' = [tl EXCEPT ![f] = (@ + 1) % Size] /\ Go(t, "ge4") /\ UM /\ UW /\ UL /\ UNCHANGED <<hd, ring, ret, open, shared>>
    [] pc[t] = "ge4" -> wg' = [wg EXCEPT ![f] = {}] /\ Go(t, "ge5") /\ UQ /\ UM /\ UL /\ UNCHANGED <<ret, open, shared, wa>>
    [] pc[t] = "ge5" -> FreeT(f) /\ Pop(t) /\ UQ /\ UW /\ UL /\ UNCHANGED <<open, shared, hm>>
    [] pc[t] = "more" -> (IF phase # "rest" /\ Len(got) >= Limit THEN Push(t, "c1", "done") ELSE Go(t, "wa1") /\ ret' = ret) /\ UQ /\ UM /\ UW /\ UL /\ UNCHANGED <<open, shared>>
    \* wait for two
    [] pc[t] = "sh1" -> LockH(t, 0) /\ Go(t, "sh2") /\ UQ /\ UW /\ UL /\ UNCHANGED <<ret, open, shared, tm>>
    [] pc[t] = "sh2" -> shared' = TRUE /\ Go(t, "sh3") /\ UQ /\ UM /\ UW /\ UL /\ UNCHANGED <<ret, open>>
    [] pc[t] = "sh3" -> FreeH(0) /\ Go(t, "tw1") /\ UQ /\ UW /\ UL /\ UNCHANGED <<ret, open, shared, tm>>
    [] pc[t] = "tw1" -> LockH(t, 1) /\ Go(t, "tw2") /\ UQ /\ UW /\ UL /\ UNCHANGED <<ret, open, shared, tm>>
    \* the four things are looked at one after the other: in the order of the code, given up at the first that decides
    [] pc[t] = "tw2" -> Go(t, IF open[0] THEN "tw3" ELSE "tw7") /\ UQ /\ UM /\ UW /\ UL /\ UNCHANGED <<ret, open, shared>>
    [] pc[t] = "tw3" -> Go(t, IF open[1] THEN "tw4" ELSE "tw7") /\ UQ /\ UM /\ UW /\ UL /\ UNCHANGED <<ret, open, shared>>
    [] pc[t] = "tw4" -> Go(t, IF Mode = "either" THEN (IF Empty(0) THEN "tw5" ELSE "tw7") ELSE (IF Empty(0) THEN "tw6" ELSE "tw5")) /\ UQ /\ UM /\ UW /\ UL /\ UNCHANGED <<ret, open, shared>>
    [] pc[t] = "tw5" -> Go(t, IF Empty(1) THEN "tw6" ELSE "tw7") /\ UQ /\ UM /\ UW /\ UL /\ UNCHANGED <<ret, open, shared>>
    [] pc[t] = "tw6" -> wa' = [wa EXCEPT ![1] = @ \cup {t}] /\ FreeH(1) /\ Go(t, "tw6b") /\ UQ /\ UL /\ UNCHANGED <<ret, open, shared, tm, wg>>
    [] pc[t] = "tw6b" -> t \notin wa[1] /\ LockH(t, 1) /\ Go(t, "tw2") /\ UQ /\ UW /\ UL /\ UNCHANGED <<ret, open, shared, tm>>
    [] pc[t] = "tw7" -> FreeH(1) /\ Go(t, "us1") /\ UQ /\ UW /\ UL /\ UNCHANGED <<ret, open, shared, tm>>
    [] pc[t] = "us1" -> LockH(t, 0) /\ Go(t, "us2") /\ UQ /\ UW /\ UL /\ UNCHANGED <<ret, open, shared, tm>>
    [] pc[t] = "us2" -> shared' = FALSE /\ Go(t, "us3") /\ UQ /\ UM /\ UW /\ UL /\ UNCHANGED <<ret, open>>
    [] pc[t] = "us3" -> FreeH(0) /\ Go(t, "use") /\ UQ /\ UW /\ UL /\ UNCHANGED <<ret, open, shared, tm>>
    \* released: a closed queue or data
    [] pc[t] = "use" -> /\ Ready
                        /\ (IF ~open[0] \/ ~open[1] THEN phase' = "rest" /\ tgt' = [tgt EXCEPT ![0] = 0] /\ Go(t, "wa1") /\ ret' = ret
                            ELSE phase' = phase /\ tgt' = [tgt EXCEPT ![0] = IF ~Empty(0) THEN 0 ELSE 1] /\ Push(t, "ge1", IF Mode = "both" THEN "second" ELSE "again"))
                        /\ UQ /\ UM /\ UW /\ UNCHANGED <<open, shared, reg, sent, left, got>>
    [] pc[t] = "second" -> tgt' = [tgt EXCEPT ![0] = 1] /\ Push(t, "ge1", "again") /\ UQ /\ UM /\ UW /\ UNCHANGED <<open, shared, reg, sent, left, got, phase>>
    [] pc[t] = "again" -> Go(t, "sh1") /\ UQ /\ UM /\ UW /\ UL /\ UNCHANGED <<ret, open, shared>>
    [] OTHER -> FALSE
\* waking for no reason
Wake == Spurious /\ UNCHANGED <<pc, ret, reg, sent, hd, tl, ring, open, hm, tm, shared, left, got, tgt, phase>>
        /\ \E f \in Fs : (\E t \in wa[f] : wa' = [wa EXCEPT ![f] = @ \ {t}] /\ wg' = wg) \/ (\E t \in wg[f] : wg' = [wg EXCEPT ![f] = @ \ {t}] /\ wa' = wa)
AllDone == \A t \in Ts : pc[t] = "done"
Next == (\E t \in Prods : P(t) \/ S(t)) \/ C \/ S(0) \/ Wake \/ (AllDone /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
(* -------------------------------------------------------------- properties *)
Of(f, p) == SelectSeq(got, LAMBDA g : g[1] = f /\ g[2][1] = p)
\* what was received of a producer is what it sent, in that order, each once
InOrder == \A p \in Prods : LET s == Of(FOf(p), p) IN Len(s) <= Items /\ \A j \in 1..Len(s) : s[j][2][2] = j
\* what is in the ring together with what was received is what was sent: nothing lost, nothing overrun
GotOf(f) == Cardinality({j \in 1..Len(got) : got[j][1] = f})
SentOf(f) == LET RECURSIVE N(_) N(p) == IF p = 0 THEN 0 ELSE (IF FOf(p) = f THEN sent[p] ELSE 0) + N(p - 1) IN N(P0 + P1)
InGet(f) == IF pc[0] = "ge3" /\ tgt[0] = f THEN 1 ELSE 0
NoLoss == \A f \in Fs : SentOf(f) - GotOf(f) + InGet(f) = Avail(hd[f], tl[f]) /\ SentOf(f) - GotOf(f) + InGet(f) < Size
Locks == \A t \in Ts : pc[t] = "done" => \A f \in Fs : hm[f] # t /\ tm[f] # t
\* a thread is released: whenever somebody could go on, somebody else can (checked with deadlock); at the end all is received, unless the consumer stopped
Final == AllDone => (Limit < 90 \/ Len(got) = Items * (P0 + P1)) /\ (\A f \in Fs : wa[f] = {} /\ wg[f] = {})
=============================================================================
