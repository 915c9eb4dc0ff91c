------------------------------ MODULE RealFns ------------------------------
(***************************************************************************)
(* Real functions, to any precision, in exact integer arithmetic.           *)
(*                                                                          *)
(* A real is approximated by an integer z meaning z / 2^P; W is the working *)
(* precision.  Enclosures are records [c, e]: the true value lies within    *)
(* the dyadic e of the dyadic c.  The errors are bounded generously: every  *)
(* enclosure below is at least 2^-40 narrower than any tolerance it is used *)
(* with.                                                                    *)
(***************************************************************************)
EXTENDS Num

W == 168                                  \* working fractional bits
BigP == 1360                              \* bits of the stored constants

Enc(c, e) == [c |-> c, e |-> e]
EncZ(z, p, lost) == Enc(<<z, -p>>, <<1, lost - p>>)     \* z/2^p, good to 2^(lost-p)

(* arctan(1/n) and artanh(1/n) at p bits                                     *)
RECURSIVE AtanInvSum(_, _, _, _, _)
AtanInvSum(t, n2, k, sg, acc) ==
    IF t = 0 THEN acc
    ELSE AtanInvSum(t \div n2, n2, k + 2, -sg, acc + sg * (t \div k))
AtanInv(n, p) == AtanInvSum(2^p \div n, n * n, 1, 1, 0)
RECURSIVE AtanhInvSum(_, _, _, _)
AtanhInvSum(t, n2, k, acc) ==
    IF t = 0 THEN acc ELSE AtanhInvSum(t \div n2, n2, k + 2, acc + t \div k)
AtanhInv(n, p) == AtanhInvSum(2^p \div n, n * n, 1, 0)

(* Machin:  pi = 16 arctan(1/5) - 4 arctan(1/239)                            *)
PiBig  == 16 * AtanInv(5, BigP) - 4 * AtanInv(239, BigP)
(* ln 2 = 18 artanh(1/26) - 2 artanh(1/4801) + 8 artanh(1/8749)              *)
Ln2Big == 18 * AtanhInv(26, BigP) - 2 * AtanhInv(4801, BigP) + 8 * AtanhInv(8749, BigP)
PiAt(p)  == Shr(PiBig, BigP - p)
Ln2At(p) == Shr(Ln2Big, BigP - p)
DPi   == <<Shr(PiBig, BigP - 400), -400>>          \* pi to 400 bits, rounded down
DPiUp == <<Shr(PiBig, BigP - 400) + 1, -400>>
DHalfPi == DScale(DPi, -1)

(* Taylor sums at p bits; x is at p bits, |x| <= 1                           *)
RECURSIVE AltSum(_, _, _, _, _)
AltSum(t, x2, k, acc, p) ==               \* t - t x2/((k+1)(k+2)) + ...
    IF t = 0 THEN acc
    ELSE AltSum((-((t * x2) \div 2^p)) \div ((k + 1) * (k + 2)), x2, k + 2, acc + t, p)
SinSer(x, p) == IF x < 0 THEN -AltSum(-x, (x * x) \div 2^p, 1, 0, p) ELSE AltSum(x, (x * x) \div 2^p, 1, 0, p)
CosSer(x, p) == AltSum(2^p, (x * x) \div 2^p, 0, 0, p)
RECURSIVE ExpSum(_, _, _, _, _)
ExpSum(t, x, k, acc, p) ==
    IF t = 0 \/ t = -1 THEN acc ELSE ExpSum(((t * x) \div 2^p) \div (k + 1), x, k + 1, acc + t, p)
ExpSer(x, p) == ExpSum(2^p, x, 0, 0, p)
RECURSIVE OddSum(_, _, _, _, _)
OddSum(t, t2, k, acc, p) == IF t = 0 \/ t = -1 THEN acc ELSE OddSum((t * t2) \div 2^p, t2, k + 2, acc + t \div k, p)

(***************************************************************************)
(* sine and cosine of a dyadic: a pair of enclosures                         *)
(***************************************************************************)
SinCosBig(x) ==
    LET p  == W + Max2(0, DLog2(x)) + 8
        X  == AtP(x, p)
        HP == PiAt(p) \div 2
        k  == (2 * X + HP) \div (2 * HP)               \* nearest multiple of pi/2
        r  == Shr(X - k * HP, p - W)
        s  == SinSer(r, W)
        c  == CosSer(r, W)
        j  == k % 4
        S  == IF j = 0 THEN s ELSE IF j = 1 THEN c ELSE IF j = 2 THEN -s ELSE -c
        C  == IF j = 0 THEN c ELSE IF j = 1 THEN -s ELSE IF j = 2 THEN -c ELSE s
    IN <<EncZ(S, W, 10), EncZ(C, W, 10)>>
SinCos(x) ==
    IF IsZero(x) THEN <<Enc(DZero, DZero), Enc(DInt(1), DZero)>>
    ELSE IF DLog2(x) < -60
    THEN <<Enc(x, DPow2(3 * DLog2(x) + 3)), Enc(DInt(1), DPow2(2 * DLog2(x) + 2))>>
    ELSE SinCosBig(x)

(***************************************************************************)
(* e^x for a dyadic |x| < 2^20, as [m, k, e]: within e of m * 2^k,           *)
(* 0.7 < m < 1.5                                                             *)
(***************************************************************************)
ExpMK(x) ==
    IF IsZero(x) THEN [m |-> DInt(1), k |-> 0, e |-> DZero]
    ELSE IF DLog2(x) < -80 THEN [m |-> DAdd(DInt(1), x), k |-> 0, e |-> DPow2(2 * DLog2(x) + 2)]
    ELSE LET p == W + 30
             X == AtP(x, p)
             L == Ln2At(p)
             k == (2 * X + L) \div (2 * L)
             r == Shr(X - k * L, 30)
         IN [m |-> <<ExpSer(r, W), -W>>, k |-> k, e |-> DPow2(10 - W)]
Exp(x) == LET r == ExpMK(x) IN Enc(DScale(r.m, r.k), DScale(r.e, r.k))
(* e^x given an enclosure of x, |x| < 2^20 and width below 2^-60             *)
ExpEnc(x) == LET r == ExpMK(x.c) IN
    Enc(DScale(r.m, r.k), DScale(DAdd(r.e, DScale(x.e, 1)), r.k))

(* e^x - 1, accurate for small x                                             *)
Expm1(x) == IF IsZero(x) THEN Enc(DZero, DZero)
            ELSE IF DLog2(x) < -80 THEN Enc(x, DPow2(2 * DLog2(x) + 2))
            ELSE LET r == Exp(x) IN Enc(DSub(r.c, DInt(1)), r.e)

(***************************************************************************)
(* ln of a positive dyadic                                                   *)
(***************************************************************************)
Ln(x) ==
    LET k0 == DLog2(x)
        m0 == DScale(x, -k0)                                \* in [1, 2)
        k  == IF DLe(<<3, -1>>, m0) THEN k0 + 1 ELSE k0
        m  == DScale(x, -k)                                 \* in [3/4, 3/2)
        d  == DSub(m, DInt(1))
    IN IF IsZero(d) /\ k = 0 THEN Enc(DZero, DZero)
       ELSE IF k = 0 /\ DLog2(d) < -80 THEN Enc(d, DPow2(2 * DLog2(d) + 2))
       ELSE LET p == W + 24
                t == DDiv(d, DAdd(m, DInt(1)), -p)[1]
                s == 2 * OddSum(t, (t * t) \div 2^p, 1, 0, p)
            IN EncZ(s + k * Ln2At(p), p, 24)
DLn2  == <<Shr(Ln2Big, BigP - 400), -400>>
DLn10 == Ln(DInt(10)).c

(***************************************************************************)
(* judging a computed value y against an enclosure                           *)
(***************************************************************************)
Near(y, r, tol) == DLe(DAbs(DSub(y, r.c)), DAdd(tol, r.e))
EHi(r) == DAdd(r.c, r.e)
ELo(r) == DSub(r.c, r.e)
EMag(r) == DAdd(DAbs(r.c), r.e)
EAdd(a, b) == Enc(DAdd(a.c, b.c), DAdd(a.e, b.e))
ESub(a, b) == Enc(DSub(a.c, b.c), DAdd(a.e, b.e))
EMul(a, b) == Enc(DMul(a.c, b.c), DAdd(DMul(a.e, b.e), DAdd(DMul(DAbs(a.c), b.e), DMul(DAbs(b.c), a.e))))
EScaleD(a, q) == Enc(DMul(a.c, q), DMul(a.e, DAbs(q)))
EHalf(a) == Enc(DScale(a.c, -1), DScale(a.e, -1))
(* quotient of enclosures, b well away from 0                                *)
EDiv(a, b) ==
    LET g == (IF IsZero(a.c) THEN DLog2(b.c) - 300 ELSE DLog2(a.c) - DLog2(b.c)) - 150
        q == DDiv(a.c, b.c, g)
    IN Enc(q, DAdd(DPow2(g), DDivUp(DAdd(a.e, DMul(DAbs(q), b.e)), DSub(DAbs(b.c), b.e), g)))
=============================================================================
