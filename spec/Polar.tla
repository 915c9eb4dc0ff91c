-------------------------------- MODULE Polar --------------------------------
(***************************************************************************)
(* Polar numbers: conversion to cartesian (C06), arithmetic (C07).          *)
(***************************************************************************)
EXTENDS Compound, Angle

(* a fixed-point unit vector at angle a is known to FixSinTol, a float one   *)
(* to two ulp; the angle is first wrapped with the constant pi of the type   *)
WrapTol(T, ang) ==
    IF IsFlt(T) THEN DMul(U(T, 2), DAdd(DAbs(ang), DInt(4)))
    ELSE DMul(DAdd(DScale(DAbs(ang), -2), DInt(1)), DAdd(U(T, 1), PiSlack))
UnitTol(T, ang) == DAdd(WrapTol(T, ang), IF IsFlt(T) THEN U(T, 4) ELSE FixSinTol(T, DInt(4)))

(* mag times cos or sin of ang, as a machine quantity                        *)
CartQ(T, mag, ang, e) ==
    LET c == DMul(mag, e.c)
        r == DAdd(DMul(DAbs(mag), DAdd(UnitTol(T, ang), e.e)), IF IsFlt(T) THEN DPow2(EMin(T)) ELSE Ulp(T))
    IN MNum(c, r, RangeMay(T, c, r) \/ RangeMay(T, DInt(1), UnitTol(T, ang)))

(* the cartesian form of (mag, ang): logged finite values                    *)
CartQs(T, mag, ang) ==
    IF IsZero(mag) THEN <<MExact(DZero), MExact(DZero)>>
    ELSE LET sc == SinCos(ang) IN <<CartQ(T, mag, ang, sc[2]), CartQ(T, mag, ang, sc[1])>>

(* the classes of mag cos ang and mag sin ang, one of them not finite          *)
SignK(T, ang, e) == IF DLe(DAbs(e.c), DAdd(UnitTol(T, ang), e.e)) THEN AllK ELSE IF IsNeg(e.c) THEN {"-"} ELSE {"+"}
NonFinCart(T, mag, ang, re, im) ==
    IF IsPanic(re) THEN BAD
    ELSE IF IsFin(mag) /\ IsZero(Dec(mag)) THEN FREE
    ELSE IF IsNaN(mag) \/ ~IsFin(ang) THEN Judge(IsNaN(re) /\ IsNaN(im))
    ELSE IF ~DLe(DAbs(Dec(ang)), DPow2(24)) THEN FREE
    ELSE LET sc == SinCos(Dec(ang)) IN
         Judge(/\ KOf(re) \in KMul({KOf(mag)}, SignK(T, Dec(ang), sc[2]))
               /\ KOf(im) \in KMul({KOf(mag)}, SignK(T, Dec(ang), sc[1])))
CartVerdict(T, mag, ang, re, im) ==
    IF IsHang(re) THEN BAD
    ELSE IF IsFlt(T) /\ ~AllFin(<<mag, ang>>) THEN NonFinCart(T, mag, ang, re, im)
    ELSE IF ~IsFin(mag) \/ ~IsFin(ang) \/ (IsFlt(T) /\ ~DLe(DAbs(Dec(ang)), DPow2(24)))
    THEN (IF IsFlt(T) /\ IsPanic(re) THEN BAD ELSE FREE)
    ELSE IF IsZero(Dec(mag)) /\ ~IsPanic(re) THEN Judge(IsFin(re) /\ IsFin(im) /\ IsZero(Dec(re)) /\ IsZero(Dec(im)))
    ELSE AcceptAll(T, CartQs(T, Dec(mag), Dec(ang)), <<re, im>>)

PolarVerdict(T, re, im, m, a) ==
    IF IsHang(m) THEN BAD
    ELSE IF ~AllFin(<<re, im>>) THEN (IF IsFlt(T) /\ IsPanic(m) THEN BAD ELSE FREE)
    ELSE LET may == PolarMay(T, Dec(re), Dec(im)) IN
         IF IsPanic(m) THEN (IF IsFlt(T) THEN BAD ELSE Judge(may))
         ELSE IF IsFlt(T) /\ may THEN FREE
         ELSE IF ~IsFin(m) \/ ~IsFin(a) THEN BAD
         ELSE Judge(PolarOK(T, re, im, m, a))

(* ev.a = <<mag, ang>>, ev.r: distinct <<re, im>> of every entry point,      *)
(* ev.p = <<mag, ang>> of that converted back, <<mag, ang>> of to_polar       *)
StepCart(T, ev) ==
    IF Len(ev.r) # 2 THEN BAD
    ELSE IF ev.p[3] # ev.a[1] \/ ev.p[4] # ev.a[2] THEN BAD
    ELSE AllOf(<<CartVerdict(T, ev.a[1], ev.a[2], ev.r[1], ev.r[2]),
                 IF IsPanic(ev.r[1]) \/ IsHang(ev.r[1]) THEN FREE
                 ELSE PolarVerdict(T, ev.r[1], ev.r[2], ev.p[1], ev.p[2])>>)

(***************************************************************************)
(* products: either magnitude zero gives zero                                *)
(***************************************************************************)
PMulVerdict(T, m1, a1, m2, a2, r) ==
    IF IsHang(r[1]) THEN BAD
    ELSE IF IsPanic(m2) THEN Judge(IsPanic(r[1]))          \* the operand has no polar form
    ELSE IF IsZeroV(m1) \/ IsZeroV(m2)
    THEN Judge(IsFin(r[1]) /\ IsFin(r[2]) /\ IsZero(Dec(r[1])) /\ IsZero(Dec(r[2])))
    ELSE AcceptAll(T, <<MMul(T, MVal(m1), MVal(m2)), MAdd(T, MVal(a1), MVal(a2))>>, r)

(* polar * polar *)
StepPMul(T, ev) == IF Len(ev.r) # 2 THEN BAD ELSE PMulVerdict(T, ev.a[1], ev.a[2], ev.a[3], ev.a[4], ev.r)
(* polar * cartesian: ev.p is the polar form of the right operand            *)
StepPMix(T, ev) ==
    IF Len(ev.r) # 2 \/ Len(ev.p) # 2 THEN BAD
    ELSE AllOf(<<PMulVerdict(T, ev.a[1], ev.a[2], ev.p[1], ev.p[2], ev.r),
                 PolarVerdict(T, ev.a[3], ev.a[4], ev.p[1], ev.p[2])>>)
(* cartesian * polar, ev.p the cartesian form of the right operand and the    *)
(* right operand after the calls that take it by reference                   *)
StepCMix(T, ev) ==
    LET c == <<ev.p[1], ev.p[2]>> IN
    IF Len(ev.r) # 2 \/ IsHang(ev.r[1]) THEN BAD
    ELSE IF \E i \in 3..Len(ev.p) : ev.p[i] # ev.a[IF i % 2 = 1 THEN 3 ELSE 4] THEN BAD
    ELSE IF IsPanic(c[1]) THEN Judge(IsPanic(ev.r[1]))
    ELSE AllOf(<<CartVerdict(T, ev.a[3], ev.a[4], c[1], c[2]),
                 AcceptAll(T, CMul(T, CQ(ev.a[1], ev.a[2]), CQ(c[1], c[2])), ev.r)>>)

(* conjugate: ev.r = <<mag, ang>>; ev.p = the cartesian conjugate, and the     *)
(* cartesian form of (mag, -ang)                                             *)
StepPConj(T, ev) ==
    IF Len(ev.r) # 2 \/ IsHang(ev.r[1]) THEN BAD
    ELSE AllOf(<<AcceptAll(T, <<MVal(ev.a[1]), MNeg(T, MVal(ev.a[2]))>>, ev.r),
                 IF ev.p = <<>> THEN FREE
                 ELSE Judge(ev.p[1] = ev.p[3] /\ ev.p[2] = ev.p[4])>>)

(* accessors: ev.r = distinct <<mag, ang>>, ev.p = mixed_abs and zero, ...     *)
StepPGet(T, ev) ==
    Judge(/\ Len(ev.r) = 2 /\ ev.r[1] = ev.a[1] /\ ev.r[2] = ev.a[2]
          /\ ev.p[1] = ev.a[1] /\ IsFin(ev.p[2]) /\ IsZero(Dec(ev.p[2])))
=============================================================================
