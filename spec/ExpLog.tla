-------------------------------- MODULE ExpLog --------------------------------
(***************************************************************************)
(* Exponentials, logarithms, powers, roots and hyperbolic functions (C13),  *)
(* and decibels (C20).                                                      *)
(***************************************************************************)
EXTENDS Polar

(* k units in the last place of a value of magnitude |q|, not less than k    *)
(* steps of the smallest float                                               *)
(* w is the float the mathematical value within enclosure r was rounded to,  *)
(* up to k units; too large for the type is the infinity                     *)
FltOf(T, w, r, k) ==
    LET tol == FUlps(T, EMag(r), k)
        top == DLe(MaxQ(T), DAdd(EMag(r), tol))
    IN IF IsPInf(w) THEN top /\ IsPos(r.c)
       ELSE IF IsNInf(w) THEN top /\ IsNeg(r.c)
       ELSE IsFin(w) /\ Near(Dec(w), r, tol)

Huge == DPow2(12)
(* e^x of an enclosure                                                       *)
ExpOf(T, w, x, k) ==
    IF DLe(Huge, x.c) THEN IsPInf(w)
    ELSE IF DLe(x.c, DNeg(Huge)) THEN FltOf(T, w, Enc(DZero, DZero), k)
    ELSE FltOf(T, w, ExpEnc(x), k)

ELn2 == Enc(DLn2, DPow2(-400))
ELn10 == Ln(DInt(10))

(* hyperbolic sine, cosine and tangent of a dyadic below 2^12                 *)
Sinh(x) ==
    IF IsZero(x) THEN Enc(DZero, DZero)
    ELSE IF DLog2(x) < -60 THEN Enc(x, DPow2(3 * DLog2(x) + 3))
    ELSE EHalf(ESub(Exp(x), Exp(DNeg(x))))
Cosh(x) ==
    IF IsZero(x) THEN Enc(DInt(1), DZero)
    ELSE IF DLog2(x) < -60 THEN Enc(DInt(1), DPow2(2 * DLog2(x) + 2))
    ELSE EHalf(EAdd(Exp(x), Exp(DNeg(x))))
Tanh(x) ==
    IF IsZero(x) THEN Enc(DZero, DZero)
    ELSE IF DLog2(x) < -60 THEN Enc(x, DPow2(3 * DLog2(x) + 3))
    ELSE IF DLe(DInt(128), DAbs(x)) THEN Enc(DInt(IF IsNeg(x) THEN -1 ELSE 1), DPow2(-300))
    ELSE EDiv(Sinh(x), Cosh(x))

(* monotone increasing f: f(w-t) <= x <= f(w+t)                              *)
Bracket(f(_), x, lo, hi) == DLe(ELo(f(lo)), x) /\ DLe(x, EHi(f(hi)))

Cube(q) == DMul(q, DMul(q, q))
CbrtOK(T, x, w, k) ==
    LET t == DMul(<<k, 1 - Prec(T)>>, DAbs(w))  a == DAbs(x)  b == DAbs(w) IN
    /\ IsNeg(x) = IsNeg(w) /\ IsPos(x) = IsPos(w)
    /\ DLe(Cube(DSub(b, t)), a) /\ DLe(a, Cube(DAdd(b, t)))

ZeroV(w) == IsFin(w) /\ IsZero(Dec(w))

(* the same sign of zero                                                     *)
FnUlps == 4
StepFn1Flt(T, f, v, w) ==
    LET x == Dec(v)  k == FnUlps
        odd == f \in {"cbrt", "sinh", "tanh", "asinh", "atanh"}
        lg  == f \in {"log", "log2", "log10"}
    IN
    IF IsNaN(v) THEN IsNaN(w)
    ELSE IF IsInf(v) THEN
        CASE f \in {"exp", "exp2", "exp10"} -> IF IsPInf(v) THEN IsPInf(w) ELSE ZeroV(w)
          [] lg -> IF IsPInf(v) THEN IsPInf(w) ELSE IsNaN(w)
          [] f \in {"cbrt", "sinh", "asinh"} -> w = v
          [] f = "cosh" -> IsPInf(w)
          [] f = "tanh" -> IsFin(w) /\ DEq(Dec(w), DInt(IF IsPInf(v) THEN 1 ELSE -1))
          [] f = "acosh" -> IF IsPInf(v) THEN IsPInf(w) ELSE IsNaN(w)
          [] f = "atanh" -> IsNaN(w)
    ELSE IF odd /\ IsZero(x) THEN w = v
    ELSE CASE f = "exp" -> ExpOf(T, w, Enc(x, DZero), k)
           [] f = "exp2" -> ExpOf(T, w, EScaleD(ELn2, x), k)
           [] f = "exp10" -> ExpOf(T, w, EScaleD(ELn10, x), k)
           [] lg -> IF IsZero(x) THEN IsNInf(w)
                    ELSE IF IsNeg(x) THEN IsNaN(w)
                    ELSE FltOf(T, w, IF f = "log" THEN Ln(x) ELSE EDiv(Ln(x), IF f = "log2" THEN ELn2 ELSE ELn10), k)
           [] f = "cbrt" -> IsFin(w) /\ CbrtOK(T, x, Dec(w), 1)
           [] f \in {"sinh", "cosh"} ->
                IF DLe(Huge, DAbs(x)) THEN (IF f = "sinh" /\ IsNeg(x) THEN IsNInf(w) ELSE IsPInf(w))
                ELSE FltOf(T, w, IF f = "sinh" THEN Sinh(x) ELSE Cosh(x), k)
           [] f = "tanh" -> FltOf(T, w, Tanh(x), k) /\ DLe(DAbs(Dec(w)), DInt(1))
           [] f = "asinh" -> IsFin(w) /\ DLe(DAbs(Dec(w)), Huge)
                             /\ LET t == FUlps(T, Dec(w), k) IN Bracket(Sinh, x, DSub(Dec(w), t), DAdd(Dec(w), t))
           [] f = "acosh" ->
                IF DLt(x, DInt(1)) THEN IsNaN(w)
                ELSE /\ IsFin(w) /\ DLe(DZero, Dec(w)) /\ DLe(Dec(w), Huge)
                     /\ LET t == FUlps(T, Dec(w), k)  lo == DSub(Dec(w), t) IN
                        /\ DLe(x, EHi(Cosh(DAdd(Dec(w), t))))
                        /\ (DLe(lo, DZero) \/ DLe(ELo(Cosh(lo)), x))
           [] f = "atanh" ->
                IF DLt(DInt(1), DAbs(x)) THEN IsNaN(w)
                ELSE IF DEq(DAbs(x), DInt(1)) THEN (IF IsNeg(x) THEN IsNInf(w) ELSE IsPInf(w))
                ELSE /\ IsFin(w)
                     /\ LET t == FUlps(T, Dec(w), k) IN Bracket(Tanh, x, DSub(Dec(w), t), DAdd(Dec(w), t))

(* native fixed-point exponential                                            *)
(* (the repeated multiplication by the rounded constant e accumulates with x; *)
(* the tables are good to some units of 2^-53)                                *)
FixExpTol(T, x, m) == DMul(DAdd(DMul(U(T, 1), DAdd(DInt(4 + T.f), DMax(x, DZero))), DPow2(-48)), DMax(DInt(1), m))
(* an exponential far out of the range of the type                           *)
FixExpHuge(x) == DLe(DInt(1000), x)
FixExpQ(T, x) ==
    IF FixExpHuge(x) THEN MNum(DPow2(200), DPow2(100), TRUE)
    ELSE IF DLe(x, DInt(-1000)) THEN MNum(DZero, FixExpTol(T, DZero, DInt(1)), RangeMay(T, DZero, FixExpTol(T, DZero, DInt(1))))
    ELSE LET e == Exp(x)  r == DAdd(FixExpTol(T, x, EMag(e)), e.e) IN MNum(e.c, r, RangeMay(T, e.c, r) \/ RangeMay(T, DInt(3), DZero))

StepFn1(T, ev) ==
    LET v == ev.a[1]  w == ev.r[1] IN
    IF Len(ev.r) # 1 \/ IsHang(w) THEN BAD
    ELSE IF IsFlt(T) THEN Judge(~IsPanic(w) /\ StepFn1Flt(T, ev.f, v, w))
    ELSE Accept(T, FixExpQ(T, Dec(v)), w)

(***************************************************************************)
(* x^y, the IEEE 754 (C99 annex F) conventions                               *)
(***************************************************************************)
IsIntD(q) == OnGrid(q, 0)
IsOddD(q) == OnGrid(q, 0) /\ ~OnGrid(q, 1)
SignedZero(w, neg) == IF neg THEN w[1] = CNZero ELSE w[1] = CFin /\ w[3] = 0
SignedInf(w, neg) == IF neg THEN IsNInf(w) ELSE IsPInf(w)
PowOK(T, u, v, w) ==
    LET x == Dec(u)  y == Dec(v)  one == DInt(1)
        oddy == IsFin(v) /\ ~IsZero(y) /\ IsOddD(y)
        yneg == IsNInf(v) \/ (IsFin(v) /\ IsNeg(y))
        y0 == IsFin(v) /\ IsZero(y)
        is1 == IsFin(u) /\ DEq(x, one)
    IN
    IF y0 \/ is1 THEN IsFin(w) /\ DEq(Dec(w), one)
    ELSE IF IsNaN(u) \/ IsNaN(v) THEN IsNaN(w)
    ELSE IF IsInf(v) THEN
        IF IsFin(u) /\ DEq(DAbs(x), one) THEN IsFin(w) /\ DEq(Dec(w), one)
        ELSE IF (IsInf(u) \/ DLt(one, DAbs(x))) = yneg THEN ZeroV(w) ELSE IsPInf(w)
    ELSE IF IsInf(u) THEN
        LET neg == IsNInf(u) /\ oddy IN IF yneg THEN SignedZero(w, neg) ELSE SignedInf(w, neg)
    ELSE IF IsZero(x) THEN
        LET neg == u[1] = CNZero /\ oddy IN IF yneg THEN SignedInf(w, neg) ELSE SignedZero(w, neg)
    ELSE IF IsNeg(x) /\ ~IsIntD(y) THEN IsNaN(w)
    ELSE LET e == EScaleD(Ln(DAbs(x)), y)
             neg == IsNeg(x) /\ oddy
             m == IF ~neg THEN w ELSE IF w[1] = CFin THEN <<w[1], w[2], -w[3]>> \o SubSeq(w, 4, Len(w))
                  ELSE IF IsNInf(w) THEN <<CInf>> ELSE IF IsPInf(w) THEN <<CNInf>> ELSE w
         IN ExpOf(T, m, e, FnUlps)
StepPow(T, ev) ==
    IF Len(ev.r) # 1 \/ IsHang(ev.r[1]) \/ IsPanic(ev.r[1]) THEN BAD ELSE Judge(PowOK(T, ev.a[1], ev.a[2], ev.r[1]))

(***************************************************************************)
(* Decibels (C20).  ev.f names the conversion; ev.p[1] is the value after    *)
(* converting the result back                                                *)
(***************************************************************************)
DbFactor(f) == IF f \in {"mag2db", "db2mag"} THEN 20 ELSE 10
DbUlps == 6
StepDb(T, ev) ==
    LET v == ev.a[1]  w == ev.r[1]  b == ev.p[1]  x == Dec(v)  fac == DInt(DbFactor(ev.f))
        up == ev.f \in {"mag2db", "pow2db"}
    IN IF Len(ev.r) # 1 \/ IsHang(w) \/ IsPanic(w) \/ IsPanic(b) \/ IsHang(b) THEN BAD
       ELSE IF IsNaN(v) THEN Judge(IsNaN(w))
       ELSE IF up THEN
            IF IsNInf(v) \/ (IsFin(v) /\ IsNeg(x)) THEN Judge(IsNaN(w))
            ELSE IF IsPInf(v) THEN Judge(IsPInf(w))
            ELSE IF IsZero(x) THEN Judge(IsNInf(w) /\ ZeroV(b))
            ELSE LET l == EScaleD(EDiv(Ln(x), ELn10), fac)
                     \* the decibels are rounded: that is a relative error of the value
                     rel == DMul(DAdd(FUlps(T, EMag(l), DbUlps), FUlps(T, EMag(l), 2)), <<5, -1 - (IF DbFactor(ev.f) = 20 THEN 3 ELSE 2)>>)
                     tol == DAdd(DMul(DAbs(x), DAdd(rel, <<8, -Prec(T)>>)), <<8, EMin(T)>>)
                 IN Judge(/\ FltOf(T, w, l, DbUlps)
                          /\ \/ IsPInf(b) /\ DLe(MaxQ(T), DAdd(x, tol))
                             \/ IsFin(b) /\ DLe(DAbs(DSub(Dec(b), x)), tol))
       ELSE IF IsInf(v) THEN Judge(IF IsPInf(v) THEN IsPInf(w) ELSE ZeroV(w))
       ELSE LET q == DDiv(x, fac, (IF IsZero(x) THEN 0 ELSE DLog2(x)) - 200)        \* x/20 or x/10
                \* rounding of the quotient: half an ulp of it
                d == DAdd(DMul(DAbs(q), <<1, -Prec(T)>>), DPow2(EMin(T)))
                e == EScaleD(ELn10, q)
                t == IF DLe(Huge, DAbs(e.c)) THEN DZero ELSE DMul(<<5, -1>>, d)
                r == IF DLe(Huge, DAbs(e.c)) THEN e ELSE Enc(e.c, DAdd(e.e, t))
            IN Judge(IF DLe(Huge, e.c) THEN IsPInf(w)
                     ELSE IF DLe(e.c, DNeg(Huge)) THEN ZeroV(w)
                     ELSE FltOf(T, w, LET z == ExpEnc(Enc(e.c, e.e)) IN Enc(z.c, DAdd(z.e, DMul(DScale(EMag(z), 1), t))), DbUlps))
=============================================================================
