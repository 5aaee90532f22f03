------------------------------- MODULE Fifo -------------------------------
(* U07: the bounded queue (util/fifo) used by one thread.  size is the buffer
   size (at least 2), so size - 1 elements fit; res is input_count, the number
   of slots kept back for other producers.  buf is the caller's vector used by
   the bulk operations.  An element is an integer; 0 is a slot never written. *)
EXTENDS MBT
CONSTANTS Sizes, Reserves, NSrc, Blocks
VARIABLES q, size, res, open, buf, fresh, log, done
vars == <<q, size, res, open, buf, fresh, log, done>>
St == <<q, size, res, open, buf>>
Cap == size - 1
Room(qq, sz) == Max2(0, sz - Len(qq) - res)
Obs(r, qq, sz, op, bf) == <<r, <<Len(qq), B(qq = <<>>), B(Len(qq) = sz - 1), Room(qq, sz), B(op)>>,
                          IF qq = <<>> THEN <<>> ELSE <<qq[1]>>, IF Len(qq) < 2 THEN <<>> ELSE <<qq[2]>>, bf>>
\* fresh: the slots from the head on are known to be zero
Do(name, args, qq, sz, bf, r) ==
  /\ q' = qq /\ size' = sz /\ buf' = bf /\ UNCHANGED <<res, open>>
  /\ log' = Append(log, <<name>> \o args \o <<Obs(r, qq, sz, open, bf)>>)
New == \E s \in Sizes, r \in Reserves :
         /\ q = <<>> /\ size = Max2(s, 2) /\ res = r /\ open = TRUE /\ buf = <<>> /\ fresh = TRUE
         /\ log = <<<<"new", s, r, <<0, <<0, 1, 0, Max2(0, Max2(s, 2) - r), 1>>, <<>>, <<>>, <<>>>>>>>>
Init == New /\ done = FALSE
t == 10 * Len(log)
Keep == fresh' = FALSE
Add == \E try \in Pick({0, 1}) : Len(q) < Cap /\ Keep /\ Do("add", <<try, t>>, Append(q, t), size, buf, 0)
\* bulk add: as much as the room allows is moved out of the caller's vector, the rest stays there
NAdd == \E n \in Pick(0..NSrc), try \in Pick({0, 1}) :
          LET src == [i \in 1..n |-> t + i]
              k == Min2(Room(q, size), n)
          IN Keep /\ Do("nadd", <<try, src>>, q \o SubSeq(src, 1, k), size, SubSeq(src, k + 1, n), 0)
Get == \E k \in Pick({0, 1, 2}) : q # <<>> /\ Keep /\ Do("get", <<k>>, Tail(q), size, buf, q[1])
\* bulk get appends whole blocks to the caller's vector and reports what was left behind
NGet == \E b \in Pick(Blocks), m \in Pick(0..(NSrc + 1)) :
          LET a == Min2(Len(q), m)
              k == a - (a % b)
          IN Len(buf) < 12 /\ Keep /\ Do("nget", <<b, m>>, SubSeq(q, k + 1, Len(q)), size, buf \o SubSeq(q, 1, k), Len(q) - k)
\* begin/iter/end consumes up to k elements of those present at begin, then update
Iter == \E k \in Pick(0..NSrc), try \in Pick({0, 1}) :
          LET n == Min2(k, Len(q)) IN Keep /\ Do("iter", <<k, try>>, SubSeq(q, n + 1, Len(q)), size, SubSeq(q, 1, n), B(n = Len(q)))
\* an addition during an iteration is not visited by it
IterAdd == Lite /\ q # <<>> /\ Len(q) < Cap /\ Keep /\ Do("iteradd", <<t>>, <<t>>, size, q, 1)
Reset == Keep /\ q' = <<>> /\ open' = TRUE /\ UNCHANGED <<size, res, buf>>
         /\ log' = Append(log, <<"reset", Obs(0, <<>>, size, TRUE, buf)>>)
SetOpen == \E o \in Pick({0, 1}) : fresh' = fresh /\ open' = (o = 1) /\ UNCHANGED <<q, size, res, buf>>
         /\ log' = Append(log, <<"setopen", o, Obs(0, q, size, o = 1, buf)>>)
Resize == \E s \in Pick(Sizes \cup {1}) : Keep /\ Do("resize", <<s>>, <<>>, Max2(s, 2), buf, 0)
Advance == fresh /\ q = <<>> /\ Keep /\ Do("advance", <<>>, <<0>>, size, buf, 0)
SetFull == fresh /\ Keep /\ Do("setfull", <<>>, Rep(0, Cap), size, buf, 0)
Wait == ~open /\ q # <<>> /\ fresh' = fresh /\ Do("waitadd", <<>>, q, size, buf, 0)
SafePeek == fresh' = fresh /\ Do("safepeek", <<>>, q, size, buf, IF q = <<>> THEN 0 ELSE q[1])
Take == buf # <<>> /\ fresh' = fresh /\ Do("take", <<>>, q, size, <<>>, 0)
Op == Add \/ NAdd \/ Get \/ NGet \/ Iter \/ IterAdd \/ Reset \/ SetOpen \/ Resize \/ Advance \/ SetFull \/ Wait \/ SafePeek \/ Take
Fin == Len(log) = D /\ ~done /\ Emit(log) /\ done' = TRUE /\ UNCHANGED <<q, size, res, open, buf, fresh, log>>
Next == \/ Len(log) < D /\ ~done /\ Op /\ UNCHANGED done
        \/ Fin
Spec == Init /\ [][Next]_vars
Inv == Len(q) <= Cap /\ Room(q, size) <= Cap
============================================================================
