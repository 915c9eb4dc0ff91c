-------------------------------- MODULE MC_Cordic --------------------------------
(***************************************************************************)
(* The native fixed-point functions as the documented CORDIC iterations, one  *)
(* rotation (or one reduction by pi, one factor of the exponential) at a time *)
(* in the type's own arithmetic, for every argument of every small fixed-point *)
(* type that holds pi.  fn:                                                   *)
(*   "sincos"  rotation mode after removing half turns (C12)                  *)
(*   "atan2"   vectoring mode with the quadrants and the larger component as  *)
(*             the divisor (C10)                                              *)
(*   "asin"    double rotations towards the growing target (C12), for types    *)
(*             whose width exceeds twice the last rotation; for the others the  *)
(*             arctangent of x over the square root of 1 - x^2; and its         *)
(*             complement, the arccosine                                        *)
(*   "exp"     binary factors of the fraction, then factors e (C13)           *)
(* Checked: the reductions terminate; StepSinCos, StepAtan2 and StepFn1 allow  *)
(* the outcome (a panic included); they reject the outcome moved by three times *)
(* the tolerance, and the swapped, negated or half-turned one.                *)
(* Variant 1: the sign of the half turn is lost; 2: the reduction stops at pi; *)
(* 3: the larger component is not looked for; 4: the third quadrant adds pi;  *)
(* 5: one factor of e too few; 6: rotations start at the second table entry;  *)
(* 7: the target of the arcsine does not grow; 8: the root of 1 + x^2.         *)
(***************************************************************************)
EXTENDS Powers, FxFns, TLC
CONSTANTS Fns, Widths, Variant

Types == {[k |-> 1, w |-> w, f |-> f, s |-> 1] : w \in Widths, f \in 0..20}
Use == {t \in Types : t.f + 3 <= t.w}
Pi(t) == FxPi(t)
HalfPi(t) == FxHalfPi(t)
MixedPi(t) == FxMixedPi(t)
EConst(t) == FxE(t)
Asr(t, a, i) == FxAsr(t, a, i)
Rot(t, c, i, plus) == FxRot(t, c, i, plus)
Zero == FxZero
One(t) == FxOne(t)
InvGain == [t \in Use |-> FxInvGain(t)]

VARIABLES fn, T, a, b, c, i, neg, w, pc, r
\* a, b: arguments; c: the rotated triple, or <<fx, int_part, dec_part>>; w: bits of the fraction
vars == <<fn, T, a, b, c, i, neg, w, pc, r>>
Keep == UNCHANGED <<fn, T, a, b>>
Raw(t) == RawMin(t)..RawMax(t)
Few(t) == {x \in Raw(t) : x % 7 = 3 \/ Abs(x) <= 4 \/ Abs(x) >= RawMax(t) - 2}
Init == /\ T \in Use
        /\ \/ fn = "sincos" /\ a \in {<<x>> : x \in Raw(T)} /\ b = Zero
           \/ fn = "exp" /\ a \in {<<x>> : x \in Raw(T)} /\ b = Zero
           \/ fn = "asin" /\ b = Zero
              /\ a \in {<<x>> : x \in {x \in Raw(T) : Abs(x) <= 2^T.f}}
           \/ fn = "atan2" /\ a \in {<<x>> : x \in Few(T)} /\ b \in {<<x>> : x \in Few(T)}
        /\ fn \in Fns
        /\ c = <<Zero, Zero, Zero>> /\ i = 0 /\ neg = FALSE /\ w = <<>> /\ r = <<>>
        /\ pc = IF fn = "sincos" THEN "reduce" ELSE IF fn = "exp" THEN "bits0" ELSE IF fn = "asin" THEN "asin" ELSE "quot"
Bad(x) == ~FOk(x[1]) \/ ~FOk(x[2]) \/ ~FOk(x[3])

------------------------------------------------------------------------------
(* sine and cosine                                                            *)
Lim == IF Variant = 2 THEN Pi(T) ELSE HalfPi(T)
Reduce == /\ pc = "reduce"
          /\ LET z == IF i = 0 THEN a ELSE c[3] IN
             IF FLt(Lim, z) \/ FLt(z, FNeg(T, Lim))
             THEN c' = <<Zero, Zero, IF FLt(Lim, z) THEN FSub(T, z, Pi(T)) ELSE FAdd(T, z, Pi(T))>>
                  /\ neg' = ~neg /\ i' = 1 /\ UNCHANGED pc
             ELSE c' = <<InvGain[T], Zero, z>> /\ i' = (IF Variant = 6 THEN 1 ELSE 0) /\ pc' = "rotate" /\ UNCHANGED neg
          /\ UNCHANGED <<w, r>> /\ Keep
Rotate == /\ pc = "rotate"
          /\ IF Bad(c) THEN pc' = "done" /\ r' = <<FPanic, FPanic>> /\ UNCHANGED <<c, i>>
             ELSE IF i >= T.f
             THEN /\ pc' = "done" /\ UNCHANGED <<c, i>>
                  /\ LET s == IF neg /\ Variant # 1 THEN FNeg(T, c[2]) ELSE c[2]
                         d == IF neg /\ Variant # 1 THEN FNeg(T, c[1]) ELSE c[1]
                     IN r' = IF FOk(s) /\ FOk(d) THEN <<s, d>> ELSE <<FPanic, FPanic>>
             ELSE c' = Rot(T, c, i, c[3][1] >= 0) /\ i' = i + 1 /\ UNCHANGED <<pc, r>>
          /\ UNCHANGED <<neg, w>> /\ Keep

------------------------------------------------------------------------------
(* arctangent of a / b                                                        *)
MinusV(x) == FNeg(T, x)
Swap == b # Zero /\ Abs(b[1]) < Abs(a[1]) /\ Variant # 3
Quot == /\ pc = "quot"
        /\ IF ~Swap /\ (a = Zero \/ b = Zero)
           THEN /\ pc' = "done" /\ UNCHANGED <<c, w>>
                /\ r' = IF b = Zero THEN <<IF a[1] < 0 THEN MinusV(HalfPi(T)) ELSE HalfPi(T)>>
                        ELSE <<IF b[1] >= 0 THEN Zero ELSE Pi(T)>>
           ELSE LET q == IF Swap THEN <<FDiv(T, b, a), "swap">>
                         ELSE IF b[1] > 0 THEN (IF a[1] > 0 THEN <<FDiv(T, a, b), "same">> ELSE <<FDiv(T, MinusV(a), b), "minus">>)
                         ELSE IF a[1] > 0 THEN <<FDiv(T, a, MinusV(b)), "pi-">> ELSE <<FDiv(T, a, b), "-pi">>
                IN c' = <<One(T), q[1], Zero>> /\ w' = <<q[2]>> /\ pc' = "vector" /\ UNCHANGED r
        /\ i' = 0 /\ UNCHANGED neg /\ Keep
Vector == /\ pc = "vector"
          /\ IF Bad(c) THEN pc' = "done" /\ r' = <<FPanic>> /\ UNCHANGED <<c, i>>
             ELSE IF i >= T.f
             THEN /\ pc' = "done" /\ UNCHANGED <<c, i>>
                  /\ LET h == FDiv(T, MixedPi(T), FInt(T, 2)) IN
                     r' = <<CASE w[1] = "swap" -> (IF a[1] < 0 THEN FSub(T, MinusV(h), c[3]) ELSE FSub(T, h, c[3]))
                              [] w[1] = "same" -> c[3]
                              [] w[1] = "minus" -> MinusV(c[3])
                              [] w[1] = "pi-" -> FSub(T, Pi(T), c[3])
                              [] w[1] = "-pi" -> (IF Variant = 4 THEN FAdd(T, c[3], Pi(T)) ELSE FSub(T, c[3], Pi(T)))>>
             ELSE c' = Rot(T, c, i, FLt(c[2], Zero)) /\ i' = i + 1 /\ UNCHANGED <<pc, r>>
          /\ UNCHANGED <<neg, w>> /\ Keep

------------------------------------------------------------------------------
(* exponential                                                                *)
Bits0 == /\ pc = "bits0"
         /\ LET f == FxFloor(T, a)  rb == FxBits(T, FSub(T, a, f), FxHalf(T), 0) IN
            c' = <<One(T), f, rb[2]>> /\ w' = rb[1]
         /\ i' = 0 /\ pc' = "frac" /\ UNCHANGED <<neg, r>> /\ Keep
Frac == /\ pc = "frac"
        /\ IF Bad(c) THEN pc' = "done" /\ r' = <<FPanic>> /\ UNCHANGED <<c, i>>
           ELSE IF i < T.f
           THEN c' = [c EXCEPT ![1] = IF w[i + 1] THEN FMul(T, @, FAdd(T, Down(T, ExpTab[i]), One(T))) ELSE @] /\ i' = i + 1 /\ UNCHANGED <<pc, r>>
           ELSE c' = [c EXCEPT ![1] = FMul(T, @, FxTail(T, c[3]))] /\ pc' = "int" /\ UNCHANGED <<i, r>>
        /\ UNCHANGED <<neg, w>> /\ Keep
Whole ==
       /\ pc = "int"
       /\ IF Bad(c) THEN pc' = "done" /\ r' = <<FPanic>> /\ UNCHANGED c
          ELSE IF c[2] = Zero \/ (Variant = 5 /\ c[2] = One(T)) THEN pc' = "done" /\ r' = <<c[1]>> /\ UNCHANGED c
          ELSE /\ c' = IF c[2][1] < 0 THEN <<FDiv(T, c[1], EConst(T)), FAdd(T, c[2], One(T)), c[3]>>
                       ELSE <<FMul(T, c[1], EConst(T)), FSub(T, c[2], One(T)), c[3]>>
               /\ UNCHANGED <<pc, r>>
       /\ UNCHANGED <<i, neg, w>> /\ Keep

------------------------------------------------------------------------------
(* arcsine: c = <<x, y, theta>>, w = <<target>>                               *)
Asin == /\ pc = "asin"
        /\ LET t == IF i = 0 THEN a ELSE w[1]
               k == IF i = 0 THEN <<One(T), Zero, Zero>> ELSE c IN
           IF 2 * (T.f - 1) >= T.w
           THEN /\ pc' = "done" /\ UNCHANGED <<c, i, w>>
                /\ r' = <<FxAtan2(T, a, FxSqrtN(T, IF Variant = 8 THEN FAdd(T, One(T), FMul(T, a, a)) ELSE FSub(T, One(T), FMul(T, a, a)), T.f))>>
           ELSE IF Bad(k) \/ ~FOk(t) THEN pc' = "done" /\ r' = <<FPanic>> /\ UNCHANGED <<c, i, w>>
           ELSE IF i >= T.f THEN pc' = "done" /\ r' = <<k[3]>> /\ UNCHANGED <<c, i, w>>
           ELSE LET sx == IF FLt(k[1], Zero) THEN -1 ELSE 1
                    sg == FInt(T, IF FLe(k[2], t) THEN sx ELSE -sx)
                    rot(x, y) == <<FSub(T, x, FMul(T, Asr(T, y, i), sg)), FAdd(T, y, FMul(T, Asr(T, x, i), sg))>>
                    p == rot(k[1], k[2])
                    q == rot(p[1], p[2])
                    g == Down(T, AtanTab[i])
                IN /\ c' = <<q[1], q[2], FAdd(T, k[3], FMul(T, FAdd(T, g, g), sg))>>
                   /\ w' = <<IF Variant = 7 THEN t ELSE FAdd(T, t, Asr(T, t, 2 * i))>>
                   /\ i' = i + 1 /\ UNCHANGED <<pc, r>>
        /\ UNCHANGED neg /\ Keep

Next == Asin \/ Reduce \/ Rotate \/ Quot \/ Vector \/ Bits0 \/ Frac \/ Whole
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Done == pc = "done"
Terminates == <>Done

Says(res) == LET e == [k \in 1..Len(res) |-> FEnc(T, res[k])] IN
    CASE fn = "sincos" -> StepSinCos(T, [a |-> <<FEnc(T, a)>>, r |-> e])
      [] fn = "atan2" -> StepAtan2(T, [a |-> <<FEnc(T, a), FEnc(T, b)>>, r |-> e])
      [] fn = "asin" -> LET u == StepArc(T, [o |-> "asin", a |-> <<FEnc(T, a)>>, r |-> e])
                            w1 == StepArc(T, [o |-> "acos", a |-> <<FEnc(T, a)>>, r |-> <<FEnc(T, FSub(T, HalfPi(T), res[1]))>>])
                        IN IF u = OK THEN w1 ELSE u
      [] fn = "exp" -> StepFn1(T, [f |-> "exp", a |-> <<FEnc(T, a)>>, r |-> e])
Allowed == Done => Says(r) = OK
\* one step at a time or all at once
Functional == Done /\ Variant = 0 =>
    CASE fn = "sincos" -> r = FxSinCos(T, a)
      [] fn = "atan2" -> r = <<FxAtan2(T, a, b)>>
      [] fn = "exp" -> r = <<FxExp(T, a)>>
      [] OTHER -> TRUE
Fine == T.f >= 4          \* enough fractional bits for the tolerance to say something
\* the tolerance, rounded up to units
TolU == CASE fn = "sincos" -> AtPC(FixSinTol(T, FQ(T, a)), T.f)
          [] fn = "atan2" -> AtPC(AtanTol(T, DZero), T.f)
          [] fn = "asin" -> AtPC(DScale(FixArcTol(T), 1), T.f)
          [] fn = "exp" -> AtPC(FixExpTol(T, FQ(T, a), DMax(FQ(T, r[1]), DInt(1))), T.f)
Moved(k, d) == [r EXCEPT ![k] = FIn(T, @[1] + d)]
Reject == Done /\ FOk(r[1]) /\ (fn = "atan2" => a # Zero /\ b # Zero) /\ (fn = "asin" => 2 * Abs(a[1]) <= 2^T.f) =>
    \A k \in 1..Len(r) : \A d \in {3 * TolU + 3, -3 * TolU - 3} : FOk(Moved(k, d)[k]) /\ Abs(d) < 2^T.f => Says(Moved(k, d)) = BAD
Gross == Done /\ Fine /\ FOk(r[1]) =>
    CASE fn = "sincos" -> (Abs(r[1][1] - r[2][1]) > 2^T.f \div 2 /\ 2 * TolU < 2^T.f \div 2 => Says(<<r[2], r[1]>>) = BAD)
      [] fn = "atan2" -> (Abs(r[1][1]) > 2 * TolU + 2 => Says(<<FNeg(T, r[1])>>) = BAD)
      [] fn = "asin" -> (Abs(a[1]) > 2 * TolU + 2 => Says(<<FNeg(T, r[1])>>) = BAD)
      [] fn = "exp" -> TRUE
\* a panic only where a bound of the type is near
NoPanic == Done /\ ~FOk(r[1]) => CASE fn = "sincos" -> T.w - T.f <= 3
                                   [] fn = "atan2" -> a[1] = RawMin(T) \/ b[1] = RawMin(T)
                                   [] fn = "asin" -> FALSE
                                   [] fn = "exp" -> T.w - T.f <= 3 \/ DLt(DInt(1), FQ(T, a)) \/ Says(<<FPanic>>) = OK
=============================================================================
