-------------------------------- MODULE Conv --------------------------------
(* What a text denotes as a number, and which text a number has.  TLC integers
   have 32 bits, so numbers are represented by their canonical texts (byte
   sequences) and computed digit by digit: an integer by its decimal text, a
   float by its text with six decimals. *)
EXTENDS Integers, Sequences, FiniteSets
LOCAL SeqC == INSTANCE SequencesExt
CIsWs(c) == c \in {32, 9, 10, 11, 12, 13}
CIsD(c) == c >= 48 /\ c <= 57
CHexV(c) == IF CIsD(c) THEN c - 48 ELSE IF c >= 97 /\ c <= 102 THEN c - 87 ELSE IF c >= 65 /\ c <= 70 THEN c - 55 ELSE 99
RECURSIVE CLTrim(_)
CLTrim(t) == IF t # <<>> /\ CIsWs(t[1]) THEN CLTrim(Tail(t)) ELSE t
\* leading zeros removed, at least one digit left
RECURSIVE CNz(_)
CNz(d) == IF Len(d) > 1 /\ d[1] = 48 THEN CNz(Tail(d)) ELSE d
CAll(t, P(_)) == \A i \in 1..Len(t) : P(t[i])
\* decimal digit sequence times m plus a
RECURSIVE CMulAdd(_, _, _)
CMulAdd(d, m, a) == IF d = <<>> THEN (IF a = 0 THEN <<>> ELSE CMulAdd(<<>>, m, a \div 10) \o <<48 + (a % 10)>>)
                    ELSE LET x == (d[Len(d)] - 48) * m + a IN CMulAdd(SubSeq(d, 1, Len(d) - 1), m, x \div 10) \o <<48 + (x % 10)>>
CHexDec(h) == CNz(<<48>> \o SeqC!FoldLeft(LAMBDA d, c : CMulAdd(d, 16, CHexV(c)), <<>>, h))
RECURSIVE CLexLE(_, _)
CLexLE(a, b) == IF a = <<>> THEN TRUE ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE CLexLE(Tail(a), Tail(b))
CLE(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ CLexLE(a, b))
\* 9223372036854775807 and ...808
CMax == <<57,50,50,51,51,55,50,48,51,54,56,53,52,55,55,53,56,48,55>>
CMin == <<57,50,50,51,51,55,50,48,51,54,56,53,52,55,55,53,56,48,56>>
CFail == [ok |-> FALSE, v |-> <<>>]
CGood(v) == [ok |-> TRUE, v |-> v]
\* the integer with sign and digits, if it has 64 bits
CSigned(neg, d) == LET z == CNz(d) IN
  IF z = <<48>> THEN CGood(z)
  ELSE IF neg THEN (IF CLE(z, CMin) THEN CGood(<<45>> \o z) ELSE CFail)
  ELSE (IF CLE(z, CMax) THEN CGood(z) ELSE CFail)
CSign(t) == IF t # <<>> /\ t[1] \in {43, 45} THEN [neg |-> t[1] = 45, r |-> Tail(t)] ELSE [neg |-> FALSE, r |-> t]
\* empty text denotes 0; otherwise optional white space, sign, digits, nothing else
CInt10(t) == IF t = <<>> THEN CGood(<<48>>)
             ELSE LET s == CSign(CLTrim(t)) IN IF s.r # <<>> /\ CAll(s.r, CIsD) THEN CSigned(s.neg, s.r) ELSE CFail
CIsX(c) == CHexV(c) # 99
\* a leading 0x makes it hexadecimal
CInt(t) == IF Len(t) >= 2 /\ t[1] = 48 /\ t[2] = 120
           THEN IF Len(t) > 2 /\ CAll(SubSeq(t, 3, Len(t)), CIsX) THEN CSigned(FALSE, CHexDec(SubSeq(t, 3, Len(t)))) ELSE CFail
           ELSE CInt10(t)
CIdx(t, S) == LET I == {i \in 1..Len(t) : t[i] \in S} IN IF I = {} THEN 0 ELSE CHOOSE i \in I : \A j \in I : i <= j
CZeros(n) == [i \in 1..(IF n > 0 THEN n ELSE 0) |-> 48]
RECURSIVE CNum(_)
CNum(d) == IF d = <<>> THEN 0 ELSE 10 * CNum(SubSeq(d, 1, Len(d) - 1)) + d[Len(d)] - 48
\* [ok, exact, v]: exact says that six decimals suffice and the digits printed are within the precision of a double
CFloat(t) ==
  IF t = <<>> THEN [ok |-> TRUE, exact |-> TRUE, v |-> <<48, 46>> \o CZeros(6)]
  ELSE
  LET s == CSign(CLTrim(t))
      e == CIdx(s.r, {69, 101})
      mant == IF e = 0 THEN s.r ELSE SubSeq(s.r, 1, e - 1)
      es == CSign(IF e = 0 THEN <<48>> ELSE SubSeq(s.r, e + 1, Len(s.r)))
      p == CIdx(mant, {46})
      ip == IF p = 0 THEN mant ELSE SubSeq(mant, 1, p - 1)
      fp == IF p = 0 THEN <<>> ELSE SubSeq(mant, p + 1, Len(mant))
      ok == CAll(ip, CIsD) /\ CAll(fp, CIsD) /\ ip \o fp # <<>> /\ CAll(es.r, CIsD) /\ es.r # <<>>
       \* hexadecimal floats, infinities and NaN are left open
  IN IF ~ok THEN [ok |-> FALSE, exact |-> CIdx(t, {120, 88, 105, 73, 110, 78}) = 0, v |-> <<>>]
     ELSE
     LET big == Len(CNz(es.r)) > 2
         x == IF big THEN 0 ELSE IF es.neg THEN -CNum(es.r) ELSE CNum(es.r)
         \* digits with the point after position k
         d0 == ip \o fp
         k0 == Len(ip) + x
         d1 == IF k0 < 0 THEN CZeros(-k0) \o d0 ELSE d0
         k1 == IF k0 < 0 THEN 0 ELSE k0
         d2 == d1 \o CZeros(k1 + 6 - Len(d1))
         ip2 == CNz(<<48>> \o SubSeq(d2, 1, k1))
         fr == SubSeq(d2, k1 + 1, k1 + 6)
         zero == CNz(<<48>> \o d0) = <<48>>
     IN IF zero THEN [ok |-> TRUE, exact |-> TRUE, v |-> (IF s.neg THEN <<45>> ELSE <<>>) \o <<48, 46>> \o CZeros(6)]
        ELSE IF big THEN [ok |-> FALSE, exact |-> Len(CNz(es.r)) > 3 \/ CNum(es.r) > 400, v |-> <<>>]
        ELSE [ok |-> TRUE,
              exact |-> (\A i \in (k1 + 7)..Len(d2) : d2[i] = 48) /\ (Len(ip2) <= 9 \/ (Len(ip2) <= 15 /\ fr = CZeros(6))) /\ Len(CNz(d0)) <= 15 /\ x \in -12..20,
              v |-> (IF s.neg THEN <<45>> ELSE <<>>) \o ip2 \o <<46>> \o fr]
\* float (canonical text with six decimals) to integer: cut towards zero
CTrunc(f) == LET s == CSign(f) p == CIdx(s.r, {46}) IN CSigned(s.neg, SubSeq(s.r, 1, p - 1))
CIntFloat(i) == i \o <<46>> \o CZeros(6)
\* exactly representable as a float
CIntExact(i) == Len(CSign(i).r) <= 15
============================================================================
