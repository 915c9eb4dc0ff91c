--------------------------------- MODULE FxFns ---------------------------------
(***************************************************************************)
(* The algorithms behind the real functions of fixed-point numbers, as        *)
(* operators over the concrete arithmetic of Fxp: CORDIC rotation and          *)
(* vectoring, the exponential, the NIIRF square root, phase wrapping, integer   *)
(* powers.  The MC_ modules run them step by step (and check that these         *)
(* operators give the same) or as single instructions of composed operations.   *)
(* The constants pi, pi/2, e are truncated to the type, the tables hold 64 bits. *)
(***************************************************************************)
EXTENDS Angle, Fxp

Down(t, q) == <<AtP(q, t.f)>>
FxPi(t) == Down(t, DPi)
FxHalfPi(t) == Down(t, DHalfPi)
FxE(t) == Down(t, Exp(DInt(1)).c)
FxMixedPi(t) == FFrom(t, Pi64)
AtanTab == [i \in 0..20 |-> IF i = 0 THEN DScale(DPi, -2) ELSE <<AtanInv(2^i, 80), -80>>]
ExpTab == [i \in 0..20 |-> DSub(Exp(DPow2(-1 - i)).c, DInt(1))]
FxAsr(t, a, i) == IF FOk(a) THEN <<a[1] \div 2^i>> ELSE a
FxZero == <<0>>
FxOne(t) == FInt(t, 1)
FOk3(c) == FOk(c[1]) /\ FOk(c[2]) /\ FOk(c[3])

(* one rotation of <<x, y, z>>, counter-clockwise when plus                   *)
FxRot(t, c, i, plus) ==
    IF plus THEN <<FSub(t, c[1], FxAsr(t, c[2], i)), FAdd(t, c[2], FxAsr(t, c[1], i)), FSub(t, c[3], Down(t, AtanTab[i]))>>
    ELSE         <<FAdd(t, c[1], FxAsr(t, c[2], i)), FSub(t, c[2], FxAsr(t, c[1], i)), FAdd(t, c[3], Down(t, AtanTab[i]))>>
RECURSIVE FxRotate(_, _, _)
FxRotate(t, c, i) == IF i >= t.f \/ ~FOk3(c) THEN c ELSE FxRotate(t, FxRot(t, c, i, c[3][1] >= 0), i + 1)
RECURSIVE FxVector(_, _, _)
FxVector(t, c, i) == IF i >= t.f \/ ~FOk3(c) THEN c ELSE FxVector(t, FxRot(t, c, i, c[2][1] < 0), i + 1)
FxInvGain(t) == FDiv(t, FxOne(t), FxRotate(t, <<FxOne(t), FxZero, FxZero>>, 0)[1])

RECURSIVE FxHalfTurns(_, _, _)
FxHalfTurns(t, z, neg) ==
    IF ~FOk(z) THEN <<z, neg>>
    ELSE IF FLt(FxHalfPi(t), z) THEN FxHalfTurns(t, FSub(t, z, FxPi(t)), ~neg)
    ELSE IF FLt(z, FNeg(t, FxHalfPi(t))) THEN FxHalfTurns(t, FAdd(t, z, FxPi(t)), ~neg)
    ELSE <<z, neg>>
(* <<sin, cos>> *)
FxSinCos(t, a) ==
    LET h == FxHalfTurns(t, a, FALSE)
        c == IF FOk(h[1]) THEN FxRotate(t, <<FxInvGain(t), FxZero, h[1]>>, 0) ELSE <<FPanic, FPanic, FPanic>>
        s == IF h[2] THEN FNeg(t, c[2]) ELSE c[2]
        d == IF h[2] THEN FNeg(t, c[1]) ELSE c[1]
    IN IF FOk3(c) /\ FOk(s) /\ FOk(d) THEN <<s, d>> ELSE <<FPanic, FPanic>>

FxAtan1(t, q) == LET c == FxVector(t, <<FxOne(t), q, FxZero>>, 0) IN IF FOk(q) /\ FOk3(c) THEN c[3] ELSE FPanic
FxAtan2(t, y, x) ==
    IF ~FOk(y) \/ ~FOk(x) THEN FPanic
    ELSE IF x # FxZero /\ Abs(x[1]) < Abs(y[1])
    THEN LET h == FDiv(t, FxMixedPi(t), FInt(t, 2))  z == FxAtan1(t, FDiv(t, x, y)) IN
         IF y[1] < 0 THEN FSub(t, FNeg(t, h), z) ELSE FSub(t, h, z)
    ELSE IF x = FxZero THEN (IF y[1] < 0 THEN FNeg(t, FxHalfPi(t)) ELSE FxHalfPi(t))
    ELSE IF y = FxZero THEN (IF x[1] >= 0 THEN FxZero ELSE FxPi(t))
    ELSE IF x[1] > 0 THEN (IF y[1] > 0 THEN FxAtan1(t, FDiv(t, y, x)) ELSE FNeg(t, FxAtan1(t, FDiv(t, FNeg(t, y), x))))
    ELSE IF y[1] > 0 THEN FSub(t, FxPi(t), FxAtan1(t, FDiv(t, y, FNeg(t, x))))
    ELSE FSub(t, FxAtan1(t, FDiv(t, y, x)), FxPi(t))

FxFloor(t, x) == FIn(t, (x[1] \div 2^t.f) * 2^t.f)
FxHalf(t) == FxAsr(t, FxOne(t), 1)
(* the bits of the fraction d (a bit is set when the rest strictly exceeds it), and what remains *)
RECURSIVE FxBits(_, _, _, _)
FxBits(t, d, p, k) ==
    IF k >= t.f THEN <<<<>>, d>>
    ELSE LET one == FLt(p, d)  rest == FxBits(t, IF one THEN FSub(t, d, p) ELSE d, FxAsr(t, p, 1), k + 1)
         IN <<<<one>> \o rest[1], rest[2]>>
RECURSIVE FxFactors(_, _, _, _)
FxFactors(t, fx, w, i) ==
    IF i >= t.f \/ ~FOk(fx) THEN fx
    ELSE FxFactors(t, IF w[i + 1] THEN FMul(t, fx, FAdd(t, Down(t, ExpTab[i]), FxOne(t))) ELSE fx, w, i + 1)
FxTail(t, d) ==
    LET f4 == FAdd(t, FxOne(t), FxAsr(t, d, 2))
        f3 == FAdd(t, FxOne(t), FMul(t, FDiv(t, d, FInt(t, 3)), f4))
        f2 == FAdd(t, FxOne(t), FMul(t, FxAsr(t, d, 1), f3))
    IN FAdd(t, FxOne(t), FMul(t, d, f2))
RECURSIVE FxWhole(_, _, _)
FxWhole(t, fx, n) ==
    IF ~FOk(fx) \/ ~FOk(n) THEN FPanic
    ELSE IF n = FxZero THEN fx
    ELSE IF n[1] < 0 THEN FxWhole(t, FDiv(t, fx, FxE(t)), FAdd(t, n, FxOne(t)))
    ELSE FxWhole(t, FMul(t, fx, FxE(t)), FSub(t, n, FxOne(t)))
FxExp(t, x) ==
    LET f == FxFloor(t, x)  rb == FxBits(t, FSub(t, x, f), FxHalf(t), 0)
        fx == FMul(t, FxFactors(t, FxOne(t), rb[1], 0), FxTail(t, rb[2]))
    IN IF ~FOk(x) \/ ~FOk(fx) THEN FPanic
       ELSE IF x[1] < -64 * 2^t.f THEN FxZero
       ELSE FxWhole(t, fx, f)

(* a decimal constant num/den, to nearest                                     *)
FxDec(t, num, den) == FIn(t, (2 * num * 2^t.f + den) \div (2 * den))
BetaTab == <<961914, 840332, 782715, 734869, 691406, 654297, 622070, 595215, 573731, 556152, 516113, 502930>>
FxBeta(t, v) == LET J == {j \in 5..15 : FLt(v, FFrom(t, <<j, -4>>))}
                IN IF J = {} THEN FxDec(t, BetaTab[12], 10^6) ELSE FxDec(t, BetaTab[(CHOOSE j \in J : \A i \in J : j <= i) - 4], 10^6)
FxTwo(t) == FInt(t, 2)
RECURSIVE FxUp(_, _, _)
FxUp(t, x, n) == IF FOk(x) /\ FLt(x, FFrom(t, <<1, -2>>)) THEN FxUp(t, FMul(t, FMul(t, x, FxTwo(t)), FxTwo(t)), n - 1) ELSE <<x, n>>
RECURSIVE FxDn(_, _, _)
FxDn(t, x, n) == IF FOk(x) /\ FLe(FxOne(t), x) THEN FxDn(t, FDiv(t, FDiv(t, x, FxTwo(t)), FxTwo(t)), n + 1) ELSE <<x, n>>
RECURSIVE FxIter(_, _, _, _)
FxIter(t, x, y, k) ==
    IF k <= 0 \/ ~FOk(y) THEN y
    ELSE LET q == FMul(t, y, y) IN
         IF ~FOk(q) THEN FPanic
         ELSE FxIter(t, x, IF FLt(x, q) THEN FSub(t, y, FMul(t, FxBeta(t, x), FSub(t, q, x))) ELSE FAdd(t, FMul(t, FxBeta(t, x), FSub(t, x, q)), y), k - 1)
RECURSIVE FxDenorm(_, _, _)
FxDenorm(t, y, n) == IF ~FOk(y) \/ n = 0 THEN y ELSE IF n > 0 THEN FxDenorm(t, FMul(t, y, FxTwo(t)), n - 1) ELSE FxDenorm(t, FDiv(t, y, FxTwo(t)), n + 1)
FxSqrtN(t, a, its) ==
    IF ~FOk(a) \/ a = FxZero THEN a
    ELSE LET u == FxUp(t, FAbs(t, a), 0)  d == FxDn(t, u[1], u[2])
             y == FAdd(t, FDiv(t, FMul(t, FxTwo(t), d[1]), FInt(t, 3)), FxDec(t, 354167, 10^6))
         IN FxDenorm(t, FxIter(t, d[1], y, its - 1), d[2])
FxSqrt(t, a) == FxSqrtN(t, a, 2)

RECURSIVE FxWrapUp(_, _)
FxWrapUp(t, x) == IF FOk(x) /\ FLt(x, FNeg(t, FxMixedPi(t))) THEN FxWrapUp(t, FAdd(t, FAdd(t, x, FxMixedPi(t)), FxMixedPi(t))) ELSE x
RECURSIVE FxWrapDn(_, _)
FxWrapDn(t, x) == IF FOk(x) /\ FLe(FxMixedPi(t), x) THEN FxWrapDn(t, FSub(t, FSub(t, x, FxMixedPi(t)), FxMixedPi(t))) ELSE x
FxWrap(t, a) ==
    IF ~FOk(a) THEN a
    ELSE LET h == FDiv(t, a, FxTwo(t))
             x == IF FLt(h, FNeg(t, FxMixedPi(t))) \/ FLe(FxMixedPi(t), h) THEN FRem(t, a, FAdd(t, FxMixedPi(t), FxMixedPi(t))) ELSE a
         IN FxWrapDn(t, FxWrapUp(t, x))

RECURSIVE FxChain(_, _, _, _)
FxChain(t, acc, b, n) == IF n <= 0 \/ ~FOk(acc) THEN acc ELSE FxChain(t, FMul(t, acc, b), b, n - 1)
FxPowi(t, b, n) ==
    IF ~FOk(b) THEN b ELSE IF n = 0 THEN FxOne(t)
    ELSE IF n < 0 THEN LET r == FDiv(t, FxOne(t), b) IN FxChain(t, r, r, -n - 1)
    ELSE FxChain(t, b, b, n - 1)
=============================================================================
