-------------------------------- MODULE Sqrt --------------------------------
(***************************************************************************)
(* Square roots (C09) and the magnitude of a cartesian number (C05).        *)
(***************************************************************************)
EXTENDS Mach

(* integer square root: the greatest s with s*s <= n                         *)
RECURSIVE ISqrtFrom(_, _)
ISqrtFrom(n, s) == LET t == (s + n \div s) \div 2 IN IF t >= s THEN s ELSE ISqrtFrom(n, t)
ISqrt(n) == IF n <= 0 THEN 0 ELSE ISqrtFrom(n, 2^((BitLen(n) + 1) \div 2))

(* the square root of a dyadic x >= 0, rounded down to relative 2^-70        *)
DSqrt(x) ==
    IF IsZero(x) THEN DZero
    ELSE LET h == DLog2(x) \div 2 - 72                       \* grid of the result
         IN <<ISqrt(AtP(x, -2 * h)), h>>

(* relative error bound of the two-iteration approximation, 1.001e-3, plus   *)
(* the quantisation of the normalisation steps                               *)
NiirfTol(T, s) ==
    LET rel == DMul(<<1050, -20>>, s)                        \* 1.0014e-3
    IN IF IsFlt(T) THEN DAdd(rel, <<8, EMin(T)>>)
       ELSE DAdd(rel, DMul(<<3, -T.f>>, DAdd(DInt(1), DScale(s, 1))))

(* y is a square root of some value in [lo, hi], up to tol(sqrt)             *)
RootOf(T, y, lo, hi, tol(_, _)) ==
    LET sl == DSqrt(DMax(lo, DZero))
        sh == DSqrt(DMax(hi, DZero))
        up == DAdd(sh, DScale(sh, -70))
    IN /\ DLe(DZero, y)
       /\ DLe(DSub(sl, tol(T, sl)), y)
       /\ DLe(y, DAdd(up, tol(T, up)))

(* correctly rounded: y = m 2^e with (2m-1)^2 < 4 x / 2^(2e) < (2m+1)^2      *)
SqrtRounded(y, x) ==
    IF IsZero(x) THEN IsZero(y)
    ELSE /\ IsPos(y)
         /\ LET m == y[1]  e == y[2]  q == DScale(x, 2 - 2 * e) IN
            DLe(DInt((2*m - 1)*(2*m - 1)), q) /\ DLe(q, DInt((2*m + 1)*(2*m + 1)))

FltSqrtTol(T, s) == DAdd(DMul(<<2, -Prec(T)>>, s), DPow2(EMin(T)))

(* ev.o = "sqrt": mixed_sqrt;  "niirf": mixed_niirf (= two iterations);      *)
(* "niirfn": sqrt::niirf(x, ev.n)                                            *)
StepSqrt(T, ev) ==
    LET v == ev.a[1]  w == ev.r[1]  x == Dec(v)
        flt == IsFlt(T)
        native == flt /\ ev.o = "sqrt"
    IN IF Len(ev.r) # 1 \/ IsHang(w) THEN BAD
       ELSE IF flt /\ IsPanic(w) THEN BAD
       ELSE IF IsNaN(v) THEN (IF native THEN Judge(IsNaN(w)) ELSE FREE)
       ELSE IF IsPInf(v) THEN Judge(IsPInf(w))
       ELSE IF IsNInf(v) THEN (IF native THEN Judge(IsNaN(w)) ELSE FREE)
       ELSE IF IsNeg(x) THEN (IF native THEN Judge(IsNaN(w)) ELSE FREE)
       ELSE IF ~IsFin(w) THEN BAD
       ELSE IF IsZero(x) THEN Judge(IF native THEN w = v ELSE IsZero(Dec(w)))
       ELSE IF native THEN Judge(SqrtRounded(Dec(w), x))
       ELSE IF ev.o = "niirfn" /\ ev.n < 2 THEN FREE
       ELSE Judge(RootOf(T, Dec(w), x, x, NiirfTol))

(***************************************************************************)
(* magnitude m of re + i im: the sum of squares as the type computes it,     *)
(* then its root                                                             *)
(***************************************************************************)
SumSq(T, re, im) == LET a == MExact(re)  b == MExact(im) IN MAdd(T, MMul(T, a, a), MMul(T, b, b))
MagOK(T, re, im, m) ==
    LET q == SumSq(T, re, im)
        lo == DSub(q.c, q.r)  hi == DAdd(q.c, q.r)
    IN IF IsFlt(T) THEN RootOf(T, m, lo, hi, FltSqrtTol) ELSE RootOf(T, m, lo, hi, NiirfTol)
=============================================================================
