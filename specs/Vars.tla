-------------------------------- MODULE Vars --------------------------------
(* U13: one SQL variable (lib/variable).  Types as in the code: 0 undefined,
   1 BIT, 2 INT, 3 FLOAT, 4 VARCHAR, 5 TEXT, 6 CHAR.  A value is its canonical
   text (see Conv); lim is the length limit, 0 for none. *)
EXTENDS MBT, Conv
CONSTANTS Texts, Ints, Floats, Lims
VARIABLES ty, val, null, lim, imp, log, done
vars == <<ty, val, null, lim, imp, log, done>>
IsText(t) == t \in {4, 5, 6}
Cut(t, l) == IF l = 0 \/ Len(t) <= l THEN t ELSE SubSeq(t, 1, l)
Pad(t, l) == t \o Rep(32, IF l > Len(t) THEN l - Len(t) ELSE 0)
\* text stored under text type t with limit l
Fit(x, t, l) == IF t = 6 THEN Pad(Cut(x, l), l) ELSE Cut(x, l)
Bit(x) == IF x = <<48>> THEN x ELSE <<49>>
\* value x of type a converted to type b: [ok, exact, v]
Ex(r) == [ok |-> r.ok, exact |-> TRUE, v |-> r.v]
ToText(x, b, l) == [ok |-> TRUE, exact |-> TRUE, v |-> Fit(x, b, l)]
ToInt(x, a) == IF a \in {1, 2} THEN Ex(CGood(x)) ELSE IF a = 3 THEN Ex(CTrunc(x)) ELSE Ex(CInt(x))
Conv(x, a, b, l) ==
  IF a = b THEN (IF IsText(b) THEN [ok |-> TRUE, exact |-> TRUE, v |-> Cut(x, l)] ELSE [ok |-> TRUE, exact |-> TRUE, v |-> x])
  ELSE IF IsText(b) THEN ToText(x, b, l)
  ELSE IF b = 3 THEN (IF a \in {1, 2} THEN [ok |-> TRUE, exact |-> CIntExact(x) /\ Len(x) < 15, v |-> CIntFloat(x)] ELSE CFloat(x))
  ELSE LET r == ToInt(x, a) IN IF b = 1 THEN [r EXCEPT !.v = IF r.ok THEN Bit(r.v) ELSE r.v] ELSE r
Zero(t) == IF t \in {1, 2} THEN <<48>> ELSE IF t = 3 THEN CIntFloat(<<48>>) ELSE <<>>
\* the text of a null variable is defined too: it is empty (padded for CHAR) once cleared
Obs(r, t, nl, v) == <<r, t, B(nl), IF nl /\ ~IsText(t) THEN <<>> ELSE v>>
Do(op, args, r, t, v, nl) == /\ ty' = t /\ val' = v /\ null' = nl /\ log' = Append(log, <<op>> \o args \o <<Obs(r, t, nl, v)>>)
Init == ty = 0 /\ val = <<>> /\ null = TRUE /\ lim = 0 /\ imp = <<0, <<>>>> /\ done = FALSE /\ log = <<<<"new", Obs(0, 0, TRUE, <<>>)>>>>
\* limits are given in the declaration, before the type is set
SetLim == lim = 0 /\ ~(IsText(ty) /\ ty # 4) /\ \E l \in Pick(Lims) : lim' = l /\ Do("limit", <<l>>, 0, ty, val, null) /\ UNCHANGED imp
\* a value longer than a limit introduced later is only defined after the next SetType
Fresh == lim = 0 \/ ~IsText(ty) \/ Len(val) <= lim
SetType == \E t \in Pick(0..6) :
   IF t = 0 THEN ty # 0 /\ Do("type", <<0>>, 1, ty, val, null) /\ UNCHANGED <<lim, imp>>
   ELSE IF ty = 0 THEN Do("type", <<t>>, 0, t, Zero(t), null) /\ UNCHANGED <<lim, imp>>
   ELSE LET r == Conv(val, ty, t, lim) IN
        /\ r.exact /\ (null => r.ok) /\ UNCHANGED <<lim, imp>>
        /\ (ty = 6 /\ t = 6 => Len(val) >= lim)
        /\ IF r.ok THEN Do("type", <<t>>, 0, t, r.v, null) ELSE Do("type", <<t>>, 1, ty, val, null)
\* assignment by a SET statement
Assign == \/ \E x \in Pick(Ints) : ty \in {1, 2} /\ Do("int", <<x>>, 0, ty, IF ty = 1 THEN Bit(x) ELSE x, FALSE)
          \/ \E x \in Pick(Floats) : ty = 3 /\ Do("float", <<x>>, 0, ty, x, FALSE)
          \/ \E x \in Pick(Texts), k \in Pick({0, 1}) : IsText(ty) /\ Do("text", <<k, x>>, 0, ty, Fit(x, ty, lim), FALSE)
SetNull == ty # 0 /\ Do("null", <<>>, 0, ty, val, TRUE)
\* the stored value of a null variable is never used
Clear == Do("clear", <<>>, 0, ty, IF ty = 6 THEN Pad(<<>>, lim) ELSE Zero(ty), TRUE)
Import == ty # 6 /\ \E x \in Pick(Texts) : imp' = <<1, x>> /\ Do("import", <<x>>, 0, 4, Cut(x, lim), FALSE) /\ UNCHANGED lim
Reset == IF imp[1] = 0 THEN Do("reset", <<>>, 0, ty, IF ty = 6 THEN Pad(<<>>, lim) ELSE Zero(ty), TRUE)
         ELSE ty # 0 /\ LET r == Conv(imp[2], 4, ty, lim) IN r.ok /\ r.exact /\ Do("reset", <<>>, 0, ty, r.v, FALSE)
Same == UNCHANGED <<lim, imp>>
NullConv == ty # 0
Op == (Assign /\ Same) \/ (Fresh /\ SetNull /\ Same) \/ (Clear /\ Same) \/ (Reset /\ Same) \/ Import \/ SetLim \/ SetType
Fin == Len(log) = D /\ ~done /\ Emit(log) /\ done' = TRUE /\ UNCHANGED <<ty, val, null, lim, imp, log>>
Next == \/ Len(log) < D /\ ~done /\ Op /\ UNCHANGED done
        \/ Fin
Spec == Init /\ [][Next]_vars
Inv == /\ (ty \in {1, 2} => CInt(val).ok) /\ (ty = 1 => val \in {<<48>>, <<49>>})
       /\ (ty = 3 => CFloat(val).ok)
============================================================================
