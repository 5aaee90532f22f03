------------------------------- MODULE Fields -------------------------------
(* U12: conversions between integer, float and text (util str2long, str2double,
   lib/field).  One behaviour is a sequence of independent conversions. *)
EXTENDS MBT, Conv
CONSTANTS IAlpha, FAlpha, L, Heads
VARIABLES log, done
vars == <<log, done>>
Log(e) == log' = Append(log, e)
R(r) == IF r.ok THEN <<1, r.v>> ELSE <<0, <<>>>>
RandSeq(A, n) == [i \in 1..n |-> CHOOSE x \in Pick(A) : TRUE]
Texts(A, H) == IF Lite THEN UNION {{h \o RandSeq(A, k), RandSeq(A, k)} : k \in Pick(0..20), h \in Pick(H)} ELSE Seqs(A, L)
ToInt == \E t \in Texts(IAlpha, Heads) : Log(<<"toint", t, <<R(CInt(t)), R(CInt10(t))>>>>)
\* numbers around the ends of the range
Digits10 == {48 + i : i \in 0..9}
NearMax == Lite /\ \E k \in Pick(15..19), j \in Pick(0..5), m \in Pick({0, 1}), z \in Pick(0..2) :
   \E t \in {(IF m = 1 THEN <<45>> ELSE <<>>) \o CZeros(z) \o SubSeq(CMax, 1, k) \o RandSeq(Digits10, Min2(j, 20 - k))} :
   Log(<<"toint", t, <<R(CInt(t)), R(CInt10(t))>>>>)
ToFloat == \E t \in Texts(FAlpha, {<<>>}) : LET r == CFloat(t) IN r.exact /\ Log(<<"tofloat", t, R(r)>>)
\* integer -> text -> integer, integer -> float
IntVals == IF Lite THEN {CSigned(n = 1, RandSeq(Digits10, k) \o CZeros(z)) : n \in Pick({0, 1}), k \in Pick(1..19), z \in Pick(0..2)}
           ELSE {CSigned(n = 1, d) : n \in {0, 1}, d \in {<<48>>, <<55>>, <<49, 48>>, CMax, CMin, SubSeq(CMax, 1, 15), SubSeq(CMax, 1, 18)}}
FromInt == \E r \in IntVals : r.ok /\ Log(<<"fromint", r.v, <<r.v, IF CIntExact(r.v) THEN <<CIntFloat(r.v)>> ELSE <<>>>>>>)
FloatVals == IF Lite THEN {CFloat((IF n = 1 THEN <<45>> ELSE <<>>) \o RandSeq(Digits10, k) \o <<46>> \o RandSeq(Digits10, m)) : n \in Pick({0, 1}), k \in Pick(1..9), m \in Pick(0..6)}
             ELSE {CFloat((IF n = 1 THEN <<45>> ELSE <<>>) \o d \o <<46>> \o f) : n \in {0, 1}, d \in {<<48>>, <<51>>, <<49, 48, 49>>}, f \in {<<>>, <<53>>, <<57, 57>>, <<48, 48, 49>>}}
\* float -> text, float -> integer; the texts cut at a limit
FromFloat == \E r \in FloatVals : r.ok /\ r.exact /\ Log(<<"fromfloat", r.v, <<r.v, CTrunc(r.v).v>>>>)
Cut(t, n) == SubSeq(t, 1, Min2(n, Len(t)))
Limited == \E n \in Pick(0..9) : \/ \E r \in IntVals : r.ok /\ Log(<<"limit", 0, r.v, n, Cut(r.v, n)>>)
                                 \/ \E r \in FloatVals : r.ok /\ r.exact /\ Log(<<"limit", 1, r.v, n, Cut(r.v, n)>>)
                                 \/ \E t \in (IF Lite THEN Texts(IAlpha, Heads) ELSE Seqs({65, 32}, 3)) : Log(<<"limit", 2, t, n, Cut(t, n)>>)
\* common type: 0 integer, 1 float, 2 text
Common(a, b) == IF a = b THEN a ELSE IF a = 2 THEN b ELSE IF b = 2 THEN a ELSE 1
Types == Log(<<"types", [i \in 1..9 |-> Common((i - 1) \div 3, (i - 1) % 3)]>>)
Init == done = FALSE /\ log = <<<<"new", 0>>>>
Op == ToInt \/ ToFloat \/ FromInt \/ FromFloat \/ Limited \/ NearMax \/ Types
Next == \/ Len(log) < D /\ ~done /\ Op /\ UNCHANGED done
        \/ Len(log) = D /\ ~done /\ Emit(log) /\ done' = TRUE /\ UNCHANGED log
Spec == Init /\ [][Next]_vars
\* laws of the specification itself
Laws == LET e == log[Len(log)] IN
  /\ (e[1] = "toint" => LET r == CInt(e[2]) IN r.ok => CInt(r.v) = r /\ CInt10(r.v) = r)
  /\ (e[1] = "tofloat" => LET r == CFloat(e[2]) IN r.ok => CFloat(r.v).v = r.v)
  /\ \A a, b \in 0..2 : Common(a, b) = Common(b, a)
============================================================================
