------------------------------- MODULE MC_Atan2 -------------------------------
(***************************************************************************)
(* The polynomial two-argument arctangent with its case split into octants,   *)
(* on every pair (of a residue class of pairs) of a small fixed-point type.    *)
(* Checked: every pair reaches exactly one case; StepAtan2Poly (C10) allows    *)
(* the outcome; the relation tells the quadrants apart: the outcome of a       *)
(* different quadrant is rejected.  Variant: wrong signs, which must fail.      *)
(***************************************************************************)
EXTENDS Angle, Fxp, TLC
CONSTANTS Width, FMin, FMax, Part, Of, Variant

VARIABLES f, y, x, a, pc
vars == <<f, y, x, a, pc>>
T == Fix(Width, f)
Init == /\ f \in FMin..FMax
        /\ y \in {<<r>> : r \in -(2^(Width - 1))..(2^(Width - 1) - 1)}
        /\ x \in {<<r>> : r \in -(2^(Width - 1))..(2^(Width - 1) - 1)}
        /\ (y[1] * 5 + x[1]) % Of = Part
        /\ a = <<0>> /\ pc = "start"
Pi == FFrom(T, Pi64)
Half == FDiv(T, Pi, FInt(T, 2))
K == FFrom(T, <<9, -5>>)
P1 == FDiv(T, FMul(T, x, y), FAdd(T, FMul(T, x, x), FMul(T, K, FMul(T, y, y))))
P2 == FDiv(T, FMul(T, x, y), FAdd(T, FMul(T, y, y), FMul(T, K, FMul(T, x, x))))
Zero == <<0>>
Steep == FLe(Zero, FSub(T, FAbs(T, y), FAbs(T, x)))
AbsFit == FOk(FAbs(T, y)) /\ FOk(FAbs(T, x))
Case == IF ~AbsFit THEN "abs"
        ELSE IF y = Zero THEN (IF FLt(x, Zero) THEN "pi" ELSE "zero")
        ELSE IF x = Zero THEN (IF FLt(Zero, y) THEN "up" ELSE "dn")
        ELSE IF FLt(Zero, y) THEN (IF FLt(Zero, x) THEN (IF Steep THEN "o2" ELSE "o1") ELSE (IF Steep THEN "o3" ELSE "o4"))
        ELSE (IF FLt(Zero, x) THEN (IF Steep THEN "o6" ELSE "o5") ELSE (IF Steep THEN "o7" ELSE "o8"))
Val(c) == CASE c = "abs" -> FPanic
            [] c = "pi" -> Pi [] c = "zero" -> Zero [] c = "up" -> Half [] c = "dn" -> FNeg(T, Half)
            [] c = "o1" -> P1 [] c = "o5" -> P1
            [] c = "o2" -> FSub(T, Half, P2)
            [] c = "o3" -> IF Variant = 1 THEN FAdd(T, Half, P2) ELSE FSub(T, Half, P2)
            [] c = "o4" -> FAdd(T, Pi, P1)
            [] c = "o6" -> FSub(T, FNeg(T, Half), P2) [] c = "o7" -> FSub(T, FNeg(T, Half), P2)
            [] c = "o8" -> IF Variant = 2 THEN FAdd(T, Pi, P1) ELSE FAdd(T, FNeg(T, Pi), P1)
Next == pc = "start" /\ a' = Val(Case) /\ pc' = Case /\ UNCHANGED <<f, y, x>>
Spec == Init /\ [][Next]_vars
Done == pc # "start"
Ev(r) == [a |-> <<FEnc(T, y), FEnc(T, x)>>, r |-> <<FEnc(T, r)>>]
Allowed == Done => StepAtan2Poly(T, Ev(a)) # BAD
\* a quarter turn or a half turn off, or mirrored on an axis, when that is another direction
Sharp == y = Zero \/ x = Zero \/ DLe(DAdd(PolyQuot(T, FQ(T, y), FQ(T, x)).r, U(T, 4)), DPow2(-2))
Reject == Done /\ FOk(a) /\ StepAtan2Poly(T, Ev(a)) = OK /\ pc \notin {"abs"} /\ Sharp =>
    /\ \A d \in {Half[1], -Half[1], Pi[1], -Pi[1]} :
         LET r == a[1] + d IN
         (RawMin(T) <= r /\ r <= RawMax(T) /\ ~(y = Zero /\ x = Zero)) => StepAtan2Poly(T, Ev(<<r>>)) = BAD
    /\ (Abs(a[1]) > RawMax(T) \div 4 /\ Abs(Abs(a[1]) - Pi[1]) > 2^f) => StepAtan2Poly(T, Ev(<<-a[1]>>)) = BAD
=============================================================================
