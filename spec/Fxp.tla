--------------------------------- MODULE Fxp ---------------------------------
(***************************************************************************)
(* Concrete machine arithmetic of the grid types, for models that execute an *)
(* algorithm step by step on word sizes small enough to enumerate.  A value  *)
(* is <<raw>>, the raw two's complement integer; <<>> is a panic, which every *)
(* operation propagates.  Products round towards minus infinity, quotients   *)
(* truncate, as in the fixed crate; anything out of range panics.            *)
(***************************************************************************)
EXTENDS Num

FPanic == <<>>
FIn(T, r) == IF RawMin(T) <= r /\ r <= RawMax(T) THEN <<r>> ELSE FPanic
FOk(a) == a # FPanic
FAdd(T, a, b) == IF FOk(a) /\ FOk(b) THEN FIn(T, a[1] + b[1]) ELSE FPanic
FSub(T, a, b) == IF FOk(a) /\ FOk(b) THEN FIn(T, a[1] - b[1]) ELSE FPanic
FNeg(T, a)    == IF FOk(a) THEN FIn(T, -a[1]) ELSE FPanic
FMul(T, a, b) == IF FOk(a) /\ FOk(b) THEN FIn(T, Shr(a[1] * b[1], T.f)) ELSE FPanic
FDiv(T, a, b) == IF FOk(a) /\ FOk(b) /\ b[1] # 0 THEN FIn(T, DivTrunc(a[1] * 2^T.f, b[1])) ELSE FPanic
FRem(T, a, b) == IF FOk(a) /\ FOk(b) /\ b[1] # 0 THEN <<a[1] - b[1] * DivTrunc(a[1], b[1])>> ELSE FPanic
FAbs(T, a)    == IF FOk(a) THEN FIn(T, Abs(a[1])) ELSE FPanic
(* conversion of a constant: to nearest, ties to even; out of range panics    *)
FFrom(T, q)   == FIn(T, RoundEvenAt(q, -T.f))
FInt(T, n)    == FFrom(T, DInt(n))
FLt(a, b)     == a[1] < b[1]
FLe(a, b)     == a[1] <= b[1]

(* as the recorder would log it                                              *)
FEnc(T, a) == IF ~FOk(a) THEN <<CPanic>>
              ELSE IF a[1] = 0 THEN <<CFin, 0, 0>>
              ELSE <<CFin, -T.f, IF a[1] > 0 THEN 1 ELSE -1, Abs(a[1])>>
FQ(T, a) == <<a[1], -T.f>>

Fix(w, f) == [k |-> 1, w |-> w, f |-> f, s |-> 1]
UFix(w, f) == [k |-> 1, w |-> w, f |-> f, s |-> 0]
SInt(w) == [k |-> 0, w |-> w, f |-> 0, s |-> 1]
=============================================================================
