-------------------------------- MODULE Conv --------------------------------
(***************************************************************************)
(* Conversion of a real value v of type S to the type T (C17).              *)
(* The outcome is a record                                                  *)
(*    [st |-> "val",  q |-> dyadic, neg |-> is a zero result negative]      *)
(*    [st |-> "cls",  c |-> CNaN / CInf / CNInf]                            *)
(*    [st |-> "panic"]                                                      *)
(***************************************************************************)
EXTENDS Mach

OVal(q, neg) == [st |-> "val", q |-> q, neg |-> neg, c |-> 0]
OCls(c)      == [st |-> "cls", q |-> DZero, neg |-> FALSE, c |-> c]
OPanic       == [st |-> "panic", q |-> DZero, neg |-> FALSE, c |-> 0]

(* the value must fit, or the call panics                                   *)
OFit(T, q) == IF Fits(T, q) THEN OVal(q, FALSE) ELSE OPanic

(* z modulo 2^w, as a value of the integer type T                           *)
Wrap(T, z) == LET m == z % 2^T.w IN IF T.s = 1 /\ m >= 2^(T.w - 1) THEN m - 2^T.w ELSE m

(* nearest float                                                            *)
ToFlt(T, q, neg) ==
    LET r == RoundFlt(T, q) IN
    IF FltOverflow(T, r) THEN OCls(IF IsNeg(q) THEN CNInf ELSE CInf) ELSE OVal(r, neg)

Clamp(T, z) == IF z < RawMin(T) THEN RawMin(T) ELSE IF z > RawMax(T) THEN RawMax(T) ELSE z

VNeg(v) == v[1] = CNZero \/ (v[1] = CFin /\ v[3] < 0)

Conv(S, T, v) ==
    LET q == Dec(v) IN
    IF IsFlt(S) /\ ~IsFin(v) THEN
         IF IsFix(T) THEN OPanic
         ELSE IF IsFlt(T) THEN OCls(v[1])
         ELSE OVal(DInt(IF IsNaN(v) THEN 0 ELSE IF IsPInf(v) THEN RawMax(T) ELSE RawMin(T)), FALSE)
    ELSE IF IsFix(T) THEN
         IF IsFlt(S) THEN OFit(T, <<RoundEvenAt(q, -T.f), -T.f>>) ELSE OFit(T, q)
    ELSE IF IsFlt(T) THEN ToFlt(T, q, IsFlt(S) /\ VNeg(v))
    ELSE IF IsFix(S) THEN OFit(T, DInt(DFloor(q)))
    ELSE IF IsFlt(S) THEN OVal(DInt(Clamp(T, DTrunc(q))), FALSE)
    ELSE OVal(DInt(Wrap(T, DFloor(q))), FALSE)

(* is the logged value v the outcome o ?                                    *)
OMatches(o, v) ==
    IF o.st = "panic" THEN IsPanic(v)
    ELSE IF o.st = "cls" THEN v[1] = o.c
    ELSE /\ IsFin(v)
         /\ DEq(Dec(v), o.q)
         /\ (v[1] = CNZero) = (o.neg /\ IsZero(o.q))

(* the same as a machine quantity                                           *)
OQ(o) == IF o.st = "panic" THEN MDz
         ELSE IF o.st = "cls" THEN [MFree(FALSE) EXCEPT !.k = {KOf(<<o.c>>)}]
         ELSE [MExact(o.q) EXCEPT !.k = {IF IsNeg(o.q) THEN "-" ELSE IF IsPos(o.q) THEN "+" ELSE IF o.neg THEN "-0" ELSE "+0"}]

StepConv(S, T, ev) ==
    IF Len(ev.r) # 1 THEN BAD ELSE Judge(OMatches(Conv(S, T, ev.a[1]), ev.r[1]))
=============================================================================
