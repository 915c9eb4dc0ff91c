-------------------------------- MODULE Angle --------------------------------
(***************************************************************************)
(* Angles: the constants of the types, arctangents (C10), the polar form    *)
(* (C05, C06, C07), phase wrapping (C08), sine and cosine (C11, C12).       *)
(***************************************************************************)
EXTENDS Sqrt, Conv, RealFns

F64 == [k |-> 2, w |-> 64, f |-> 0, s |-> 1]
F32 == [k |-> 2, w |-> 32, f |-> 0, s |-> 1]
Pi64 == RoundFlt(F64, DPi)
Pi32 == RoundFlt(F32, DPi)
Tau64 == DScale(Pi64, 1)
(* the constant pi of a type                                                 *)
PiT(T) == IF IsFlt(T) THEN (IF T.w = 32 THEN Pi32 ELSE Pi64) ELSE <<RoundEvenAt(Pi64, -T.f), -T.f>>

U(T, n) == IF IsFlt(T) THEN <<n, -Prec(T)>> ELSE <<n, -T.f>>          \* n units
(* n/4 units *)
UQ(T, n) == DScale(U(T, n), -2)

(* k units in the last place of a float of magnitude |q|                     *)
FUlps(T, q, k) == DAdd(DMul(<<k, 1 - Prec(T)>>, DAbs(q)), <<k, EMin(T)>>)

(***************************************************************************)
(* Is a the direction of (x, y) # (0, 0), to within tol (small) ?            *)
(***************************************************************************)
DirOK(y, x, a, tol) ==
    LET sc == SinCos(a)
        cross == ESub(EScaleD(sc[2], y), EScaleD(sc[1], x))
        dot   == EAdd(EScaleD(sc[2], x), EScaleD(sc[1], y))
        hyp   == DSqrt(DAdd(DMul(x, x), DMul(y, y)))          \* rounded down by at most 2^-70
        lim   == DMul(tol, DAdd(hyp, DScale(hyp, -60)))
    IN /\ DLe(DAbs(cross.c), DAdd(lim, cross.e))
       /\ DLe(DNeg(DAdd(lim, dot.e)), dot.c)

(* accuracy of the arctangent of type T, for a result a                      *)
(* the constant pi of a fixed-point type is the double precision one          *)
PiSlack == DPow2(-51)
AtanTol(T, a) == IF IsFlt(T) THEN FUlps(T, a, 4) ELSE DAdd(U(T, 4 + T.f), PiSlack)

(* the angle must not exceed the type's pi by more than its accuracy         *)
AngRange(T, a) == DLe(DAbs(a), DAdd(PiT(T), IF IsFlt(T) THEN DZero ELSE DAdd(U(T, 2), PiSlack)))

(* exact angles on the axes                                                  *)
HalfPiOK(T, a) == IF IsFlt(T) THEN DEq(a, DScale(PiT(T), -1)) ELSE DLe(DAbs(DSub(a, DScale(PiT(T), -1))), DAdd(U(T, 2), PiSlack))
PiOK(T, a) == IF IsFlt(T) THEN DEq(a, PiT(T)) ELSE DLe(DAbs(DSub(a, PiT(T))), DAdd(U(T, 1), PiSlack))
VNegSign(v) == v[1] = CNZero \/ (v[1] = CFin /\ v[3] < 0) \/ IsNInf(v)

(* y, x, a: logged values, y or x zero                                       *)
AxisOK(T, y, x, a) ==
    LET A == Dec(a) IN
    IF IsZero(Dec(y)) /\ IsZero(Dec(x)) /\ ~IsFlt(T)      \* zero has no direction: a multiple of pi/2
    THEN IsZero(A) \/ HalfPiOK(T, A)
    ELSE IF IsZero(Dec(y)) THEN                            \* the sign of a zero is the side of the cut it lies on
        /\ IF VNegSign(x) THEN PiOK(T, DAbs(A)) ELSE IsZero(A)
        /\ VNegSign(a) = (y[1] = CNZero)
    ELSE IF IsPos(Dec(y)) THEN HalfPiOK(T, A) ELSE HalfPiOK(T, DNeg(A))

(* infinities, IEEE table                                                    *)
InfAngOK(T, y, x, a) ==
    IF IsInf(y) /\ IsInf(x)
    THEN LET A == DAbs(Dec(a))  q == DScale(PiT(T), -2) IN
         /\ DLe(DAbs(DSub(A, IF IsPInf(x) THEN q ELSE DMul(DInt(3), q))), FUlps(T, A, 2))
         /\ IsNeg(Dec(a)) = IsNInf(y)
    ELSE IF IsInf(y) THEN DLe(DAbs(DSub(DAbs(Dec(a)), DScale(PiT(T), -1))), FUlps(T, DInt(2), 1)) /\ IsNeg(Dec(a)) = IsNInf(y)
    ELSE VNegSign(a) = VNegSign(y) /\ (IF IsPInf(x) THEN IsZero(Dec(a)) ELSE PiOK(T, DAbs(Dec(a))))

(* left of the imaginary axis the angle takes the sign of y                  *)
HalfPlaneOK(y, a) == DLt(DHalfPi, DAbs(a)) => IsNeg(a) = IsNeg(y)
(* the negation of the smallest value does not fit                           *)
NegMay(T, q) == ~IsFlt(T) /\ DEq(q, MinQ(T))
(* the native arctangent of y, x                                             *)
AngleOK(T, y, x, a) ==
    LET Y == Dec(y)  X == Dec(x)  A == Dec(a) IN
    IF IsZero(Y) \/ IsZero(X) THEN AxisOK(T, y, x, a)
    ELSE DirOK(Y, X, A, AtanTol(T, A)) /\ AngRange(T, A) /\ HalfPlaneOK(Y, A)

StepAtan2(T, ev) ==
    LET y == ev.a[1]  x == ev.a[2]  w == ev.r[1] IN
    IF Len(ev.r) # 1 \/ IsHang(w) THEN BAD
    ELSE IF IsPanic(w) THEN Judge(NegMay(T, Dec(y)) \/ NegMay(T, Dec(x)))
    ELSE IF IsNaN(y) \/ IsNaN(x) THEN Judge(IsNaN(w))
    ELSE IF ~IsFin(w) THEN BAD
    ELSE IF IsInf(y) \/ IsInf(x) THEN Judge(InfAngOK(T, y, x, w))
    ELSE Judge(AngleOK(T, y, x, w))

OneV(T) == IF IsFlt(T) THEN <<CFin, 0, 1, 1>> ELSE <<CFin, 0, 1, 1>>
StepAtan(T, ev) == StepAtan2(T, [ev EXCEPT !.a = <<ev.a[1], OneV(T)>>])

(***************************************************************************)
(* The polynomial arctangent: a rational function evaluated in the type,     *)
(* plus a multiple of pi/2.                                                  *)
(***************************************************************************)
PolyK == <<9, -5>>                                        \* 0.28125
PolyKT(T) == IF IsFix(T) THEN <<RoundEvenAt(PolyK, -T.f), -T.f>> ELSE PolyK
(* x*y / (b^2 + k s^2), s the smaller of x, y in magnitude                   *)
PolyQuot(T, y, x) ==
    LET X == MExact(x)  Y == MExact(y)
        small == IF DLt(DAbs(y), DAbs(x)) THEN Y ELSE X
        big   == IF DLt(DAbs(y), DAbs(x)) THEN X ELSE Y
    IN MDiv(T, MMul(T, X, Y), MAdd(T, MMul(T, big, big), MMul(T, MExact(PolyKT(T)), MMul(T, small, small))))
(* pi/2 and pi are constants of the type: their own rounding                 *)
PolySlack(T, A) == IF IsFlt(T) THEN FUlps(T, DAdd(DAbs(A), DInt(4)), 4) ELSE U(T, 4)
Poly51 == <<5348, -20>>                                   \* 0.0051

StepAtan2Poly(T, ev) ==
    LET y == ev.a[1]  x == ev.a[2]  w == ev.r[1] IN
    IF Len(ev.r) # 1 \/ IsHang(w) THEN BAD
    ELSE IF ~IsFin(y) \/ ~IsFin(x) THEN (IF IsPanic(w) THEN BAD ELSE FREE)
    ELSE IF IsPanic(w) /\ (NegMay(T, Dec(y)) \/ NegMay(T, Dec(x))) THEN OK
    ELSE IF IsZero(Dec(y)) \/ IsZero(Dec(x)) THEN (IF IsFin(w) THEN Judge(AxisOK(T, IF ~IsZero(Dec(y)) THEN y ELSE IF VNegSign(w) THEN <<CNZero>> ELSE <<CFin, 0, 0>>, x, w)) ELSE BAD)
    ELSE LET Y == Dec(y)  X == Dec(x)  q == PolyQuot(T, Y, X)
             dk == DAbs(DSub(PolyKT(T), PolyK))
             tol == DAdd(DAdd(Poly51, dk), DAdd(q.r, PolySlack(T, Dec(w))))
         IN IF IsPanic(w) THEN (IF IsFlt(T) THEN BAD ELSE Judge(q.may \/ q.st # "num"))
            ELSE IF q.st # "num" \/ (IsFlt(T) /\ q.may) \/ ~DLe(tol, DInt(1)) THEN FREE
            ELSE IF ~IsFin(w) THEN BAD
            ELSE Judge(/\ DirOK(Y, X, Dec(w), tol)
                       /\ (DLt(DAdd(DHalfPi, tol), DAbs(Dec(w))) => IsNeg(Dec(w)) = IsNeg(Y))
                       /\ DLe(DAbs(Dec(w)), DAdd(PiT(T), tol)))
\* far out the square overflows to infinity and the quotient with it vanishes
StepAtanPoly(T, ev) ==
    IF IsFlt(T) /\ Len(ev.r) = 1 /\ IsFin(ev.a[1]) /\ DLe(DPow2(32), DAbs(Dec(ev.a[1])))
    THEN Judge(IsFin(ev.r[1]) /\ DLe(DAbs(DSub(Dec(ev.r[1]), IF IsNeg(Dec(ev.a[1])) THEN DNeg(DHalfPi) ELSE DHalfPi)), Poly51))
    ELSE StepAtan2Poly(T, [ev EXCEPT !.a = <<ev.a[1], OneV(T)>>])

(***************************************************************************)
(* Polar form of a cartesian number (C05)                                    *)
(*   ev.r: distinct <<mag, ang>> of every entry point                        *)
(*   ev.p: mixed_abs as <<re, im>>, to_cartesian as <<re, im>>               *)
(***************************************************************************)
PolarMay(T, re, im) == LET q == SumSq(T, re, im) IN q.may
PolarOK(T, re, im, m, a) ==       \* logged values, all finite
    /\ MagOK(T, Dec(re), Dec(im), Dec(m))
    /\ AngleOK(T, im, re, a)
NonFinPolarOK(T, re, im, m, a) ==
    IF IsNaN(re) \/ IsNaN(im) THEN IsNaN(a) /\ (IsNaN(m) \/ (IsPInf(m) /\ (IsInf(re) \/ IsInf(im))))
    ELSE IsPInf(m) /\ IsFin(a) /\ InfAngOK(T, im, re, a)
StepPolar(T, ev) ==
    LET re == ev.a[1]  im == ev.a[2]  m == ev.r[1]  a == ev.r[2] IN
    IF Len(ev.r) # 2 \/ Hung(ev.r) THEN BAD
    ELSE IF ~AllFin(ev.a) THEN
         Judge(/\ ~IsPanic(m) /\ ev.p[3] = re /\ ev.p[4] = im /\ ev.p[1] = m /\ IsFin(ev.p[2]) /\ IsZero(Dec(ev.p[2]))
               /\ NonFinPolarOK(T, re, im, m, a))
    ELSE IF ev.p[3] # re \/ ev.p[4] # im THEN BAD                      \* to_cartesian is the identity
    ELSE IF ev.p[1] # m \/ ~(IsPanic(m) \/ (IsFin(ev.p[2]) /\ IsZero(Dec(ev.p[2])))) THEN BAD
    ELSE LET may == PolarMay(T, Dec(re), Dec(im)) IN
         IF IsPanic(m) THEN (IF IsFlt(T) THEN BAD ELSE Judge(may))
         ELSE IF IsFlt(T) /\ may THEN (IF IsFin(a) /\ (IsPInf(m) \/ IsPos(Dec(m))) THEN Judge(AngleOK(T, im, re, a)) ELSE BAD)
         ELSE IF ~IsFin(m) \/ ~IsFin(a) THEN BAD
         ELSE Judge(PolarOK(T, re, im, m, a))

(***************************************************************************)
(* Phase wrapping (C08).   ev.r = <<wrap(x), wrap(wrap(x))>>                 *)
(***************************************************************************)
InRange(T, y) == DLe(DNeg(PiT(T)), y) /\ DLt(y, PiT(T))
NearestTurns(T, d) == RoundEvenAt(DDiv(d, DScale(PiT(T), 1), -2), 0)
StepWrap(T, ev) ==
    LET v == ev.a[1]  w == ev.r[1]  x == Dec(v) IN
    IF Hung(ev.r) \/ IsPanic(w) THEN BAD
    ELSE IF IsNaN(v) THEN Judge(IsNaN(w))
    ELSE IF IsInf(v) THEN Judge(IsNaN(w) \/ w = v)
    ELSE IF ~IsFin(w) THEN BAD
    ELSE LET y == Dec(w)
             d == DSub(x, y)
             k == NearestTurns(T, d)
             off == DAbs(DSub(d, DMul(DInt(k), DScale(PiT(T), 1))))
         IN Judge(/\ InRange(T, y)
                  /\ (InRange(T, x) => DEq(x, y))
                  /\ DLe(off, IF IsFlt(T) THEN DMul(U(T, 2), DAdd(DAbs(x), DInt(4))) ELSE DZero)
                  /\ ev.r[2] = w)

(***************************************************************************)
(* Sine and cosine                                                           *)
(***************************************************************************)
(* native fixed-point accuracy: units, growing with the number of turns      *)
FixSinTol(T, x) == DAdd(DAdd(UQ(T, 16 + 6 * T.f), DPow2(-53)), DMul(U(T, 1), DScale(DAbs(x), -1)))
SinTol(T, x, y) == IF IsFlt(T) THEN FUlps(T, y, 2) ELSE FixSinTol(T, x)
StepSinCos(T, ev) ==       \* ev.r: distinct pairs <<sin, cos>>
    LET v == ev.a[1]  s == ev.r[1]  c == ev.r[2] IN
    IF Len(ev.r) # 2 \/ Hung(ev.r) THEN BAD
    ELSE IF IsPanic(s) THEN (IF IsFlt(T) THEN BAD ELSE Judge(RangeMay(T, DInt(1), FixSinTol(T, Dec(v)))))
    ELSE IF ~IsFin(v) THEN Judge(IsNaN(s) /\ IsNaN(c))
    ELSE IF ~IsFin(s) \/ ~IsFin(c) THEN BAD
    ELSE LET sc == SinCos(Dec(v)) IN
         Judge(Near(Dec(s), sc[1], SinTol(T, Dec(v), EMag(sc[1]))) /\ Near(Dec(c), sc[2], SinTol(T, Dec(v), EMag(sc[2]))))

(* tangent, floats: |w cos x - sin x| <= tol cos x                           *)
StepTan(T, ev) ==
    LET v == ev.a[1]  w == ev.r[1] IN
    IF Len(ev.r) # 1 \/ IsHang(w) \/ IsPanic(w) THEN BAD
    ELSE IF ~IsFin(v) THEN Judge(IsNaN(w))
    ELSE IF ~IsFin(w) THEN BAD
    ELSE LET sc == SinCos(Dec(v))
             d == ESub(EScaleD(sc[2], Dec(w)), sc[1])
         IN Judge(DLe(DAbs(d.c), DAdd(DMul(FUlps(T, Dec(w), 4), EMag(sc[2])), d.e)))

(***************************************************************************)
(* Inverse sine and cosine, judged by the forward function on the interval   *)
(* [w - t, w + t], cut at the ends of the principal range                     *)
(***************************************************************************)
(* fixed point: the double rotation is as good as x to some units, which the  *)
(* flat ends of the range turn into a root of that                            *)
FixArcTol(T) == U(T, 6 + 2 * T.f)
FixArcEnd(T) == DPow2(3 - (T.f \div 2))
AsinOK(x, w, t) ==
    LET hi == DAdd(w, t)  lo == DSub(w, t)  q == DHalfPi  sh == SinCos(hi)[1]  sl == SinCos(lo)[1] IN
    /\ DLe(hi, DAdd(q, DScale(t, 1))) /\ DLe(DNeg(DAdd(q, DScale(t, 1))), lo)
    /\ (DLe(q, hi) \/ DLe(x, EHi(sh)))
    /\ (DLe(lo, DNeg(q)) \/ DLe(ELo(sl), x))
AcosOK(x, w, t) ==
    LET hi == DAdd(w, t)  lo == DSub(w, t)  ch == SinCos(hi)[2]  cl == SinCos(lo)[2] IN
    /\ DLe(DNeg(DScale(t, 1)), lo) /\ DLe(hi, DAdd(DPi, DScale(t, 1)))
    /\ (DLe(lo, DZero) \/ DLe(x, EHi(cl)))
    /\ (DLe(DPi, hi) \/ DLe(ELo(ch), x))
StepArc(T, ev) ==
    LET v == ev.a[1]  w == ev.r[1]  x == Dec(v) IN
    IF Len(ev.r) # 1 \/ IsHang(w) THEN BAD
    ELSE IF ~IsFin(v) THEN Judge(IsNaN(w))
    ELSE IF ~DLe(DAbs(x), DInt(1)) THEN (IF IsFlt(T) THEN Judge(IsNaN(w)) ELSE FREE)
    ELSE IF ~IsFin(w) THEN BAD
    ELSE IF IsFlt(T)
    THEN LET t == FUlps(T, Dec(w), 4) IN Judge(IF ev.o = "asin" THEN AsinOK(x, Dec(w), t) ELSE AcosOK(x, Dec(w), t))
    ELSE LET sc == SinCos(Dec(w)) IN
         IF ev.o = "asin" THEN Judge(Near(x, sc[1], FixArcTol(T)) /\ DLe(DAbs(Dec(w)), DAdd(DHalfPi, FixArcEnd(T))))
         ELSE Judge(Near(x, sc[2], FixArcTol(T)) /\ DLe(DNeg(FixArcEnd(T)), Dec(w)) /\ DLe(Dec(w), DAdd(DPi, FixArcEnd(T))))

(* polynomial sine and cosine (C11)                                          *)
PolyConstFits(T) == IsFlt(T) \/ DLe(DInt(362880), MaxQ(T))
PolyTol(T, x) == DAdd(<<4295, -30>>, IF IsFlt(T) THEN <<16, -Prec(T)>> ELSE U(T, 8))    \* 4.0e-6
StepSinPoly(T, ev) ==
    LET v == ev.a[1]  w == ev.r[1]  x == Dec(v) IN
    IF Len(ev.r) # 1 \/ IsHang(w) THEN BAD
    ELSE IF ~IsFin(v) THEN (IF IsPanic(w) THEN BAD ELSE FREE)
    ELSE IF ev.o = "psin" /\ ~InRange(T, x) THEN (IF IsPanic(w) /\ IsFlt(T) THEN BAD ELSE FREE)
    ELSE IF IsFlt(T) /\ ~DLe(DAbs(x), DPow2(20)) THEN (IF IsPanic(w) THEN BAD ELSE FREE)
    ELSE IF IsPanic(w) THEN (IF IsFlt(T) THEN BAD ELSE Judge(ev.o = "pcos" /\ RangeMay(T, DAdd(x, DScale(PiT(T), -1)), U(T, 2))))
    ELSE IF ~IsFin(w) THEN BAD
    ELSE LET sc == SinCos(x)
             turns == IF ev.o = "pcos" THEN DMul(U(T, 3), DAbs(x)) ELSE DZero
         IN Judge(Near(Dec(w), IF ev.o = "psin" THEN sc[1] ELSE sc[2], DAdd(PolyTol(T, x), turns)))
=============================================================================
