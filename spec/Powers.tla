-------------------------------- MODULE Powers --------------------------------
(***************************************************************************)
(* Integer powers of real (C14) and complex (C15) numbers, and the complex  *)
(* exponential (C16).                                                        *)
(***************************************************************************)
EXTENDS ExpLog

DPowN(q, n) == IF n = 0 THEN DInt(1) ELSE <<q[1]^n, q[2] * n>>

(* a^n as a chain of n-1 (or fewer) products of the grid type T               *)
MPow(T, a, n) ==
    IF n = 0 THEN MExact(DInt(1))
    ELSE IF a.st # "num" \/ n = 1 THEN a
    ELSE LET c  == DPowN(a.c, n)
             hi == DMax(MHi(a), DInt(1))
             ra == IF IsZero(a.r) THEN DZero ELSE DMul(DMul(DInt(n), a.r), DPowN(hi, n - 1))
             \* exact as long as every partial power is representable
             r  == IF IsInt(T) \/ (IsZero(a.r) /\ OnGrid(c, -T.f)) THEN ra
                   ELSE DAdd(ra, DMul(<<n - 1, -T.f>>, DPowN(hi, Max2(n - 2, 0))))
         IN MNum(c, r, a.may \/ RangeUp(T, c, r))

(* powers too large for the rounding of the products to be counted in units of the *)
(* result: +-1 stays exact, the others keep their side of 1, and the logarithm is    *)
(* off by at most one rounding per product                                           *)
PowIBig(T, x, n, u) ==
    LET m == Abs(n)
        e == EScaleD(Ln(DAbs(x)), DInt(n))
        rad == DAdd(e.e, <<2 * m + 8, -Prec(T)>>)
        lo == DSub(e.c, rad)  hi == DAdd(e.c, rad)
    IN IF DEq(DAbs(x), DInt(1)) THEN IsFin(u) /\ DEq(Dec(u), DInt(1))
       ELSE IF IsPInf(u) THEN IsPos(e.c) /\ DLe(ELo(Ln(MaxQ(T))), hi)
       ELSE /\ IsFin(u) /\ ~IsNeg(Dec(u))
            /\ IF IsPos(e.c) THEN DLe(DInt(1), Dec(u)) ELSE DLe(Dec(u), DInt(1))
            /\ IF DLt(Dec(u), DPow2(EMin(T) + Prec(T))) THEN DLe(lo, EHi(Ln(DPow2(EMin(T) + Prec(T)))))
               ELSE LET l == Ln(Dec(u)) IN DLe(lo, EHi(l)) /\ DLe(ELo(l), hi)

(* ev.a = <<b>>, ev.n the power                                               *)
PowIFlt(T, v, n, w) ==
    LET x == Dec(v)  neg == n < 0  m == Abs(n)  odd == m % 2 = 1
        flip == odd /\ VNegSign(v)
        u == IF ~flip THEN w ELSE IF w[1] = CFin /\ w[3] # 0 THEN <<w[1], w[2], -w[3]>> \o SubSeq(w, 4, Len(w))
             ELSE IF IsNInf(w) THEN <<CInf>> ELSE IF IsPInf(w) THEN <<CNInf>> ELSE w
    IN IF n = 0 THEN Judge(IsFin(w) /\ DEq(Dec(w), DInt(1)))
       ELSE IF IsNaN(v) THEN Judge(IsNaN(w))
       ELSE IF IsInf(v) \/ IsZero(x) THEN Judge(IF IsInf(v) = neg THEN ZeroV(w) ELSE IsPInf(u))
       ELSE IF m > 2^(Prec(T) - 6) THEN Judge(PowIBig(T, x, n, u))
       ELSE Judge(ExpOf(T, u, EScaleD(Ln(DAbs(x)), DInt(n)), 2 * m + 4))

Either(a, b) == IF a = BAD THEN b ELSE IF b = BAD THEN a ELSE IF a = OK \/ b = OK THEN OK ELSE FREE
PowIVerdict(T, v, n, w) ==
    IF IsHang(w) THEN BAD
    ELSE IF IsFlt(T) THEN (IF IsPanic(w) THEN BAD ELSE PowIFlt(T, v, n, w))
    ELSE LET b == MExact(Dec(v))  one == MExact(DInt(1)) IN
         IF ~Fits(T, DInt(1)) THEN FREE
         ELSE IF n >= 0 THEN Accept(T, MPow(T, b, n), w)
         ELSE IF IsZero(Dec(v)) THEN Judge(IsPanic(w))
         ELSE IF IsInt(T) THEN Accept(T, MPow(T, MDiv(T, one, b), -n), w)
         ELSE Either(Accept(T, MPow(T, MDiv(T, one, b), -n), w), Accept(T, MDiv(T, one, MPow(T, b, -n)), w))
StepPowI(T, ev) == IF Len(ev.r) # 1 THEN BAD ELSE PowIVerdict(T, ev.a[1], ev.n, ev.r[1])

(***************************************************************************)
(* complex powers of fixed-point numbers (C15)                               *)
(***************************************************************************)
RECURSIVE CPowD(_, _, _, _, _)
CPowD(re, im, n, ar, ai) ==
    IF n = 0 THEN <<ar, ai>>
    ELSE CPowD(re, im, n - 1, DSub(DMul(ar, re), DMul(ai, im)), DAdd(DMul(ar, im), DMul(ai, re)))
(* the exact power z, its tolerance, and whether a partial result may leave the range *)
CPowQ(T, re, im, n) ==
    LET q  == SumSq(T, re, im)
        sl == DSqrt(DMax(DSub(q.c, q.r), DZero))
        s0 == DSqrt(q.c)
        sh == LET s == DSqrt(DAdd(q.c, q.r)) IN DAdd(s, DScale(s, -70))
        lo == DMax(DSub(sl, NiirfTol(T, sl)), DZero)
        hi == DAdd(sh, NiirfTol(T, sh))
        \* rounding of the power of the magnitude
        e  == IF n < 2 THEN DZero ELSE DMul(<<n - 1, -T.f>>, DPowN(DMax(hi, DInt(1)), n - 2))
        mh == DAdd(DPowN(hi, n), e)
        d  == DMax(DSub(mh, DPowN(s0, n)), DAdd(DSub(DPowN(s0, n), DPowN(lo, n)), e))
        arg == DMul(DInt(n), DAdd(DScale(DPi, IF IsZero(im) /\ IsPos(re) THEN -10 ELSE 0), AtanTol(T, DZero)))
        ang == DAdd(DMul(DInt(n), AtanTol(T, DZero)), FixSinTol(T, arg))
    IN [z |-> CPowD(re, im, n, DInt(1), DZero),
        tol |-> DAdd(DAdd(d, DMul(mh, ang)), U(T, 2)),
        may |-> \/ q.may \/ RangeMay(T, DInt(n), DZero) \/ RangeMay(T, DZero, arg)
                \/ RangeMay(T, DZero, mh) \/ RangeMay(T, DZero, DAdd(DMul(mh, DAdd(DInt(1), ang)), U(T, 1)))
                \/ RangeMay(T, DInt(1), FixSinTol(T, DInt(4))) \/ NegMay(T, re) \/ NegMay(T, im)]
(* exponents for which the exact power is not written out: a magnitude of at most 3/4 has become nothing *)
CPowLong == 1024
StepCPowLong(T, re, im, ev) ==
    LET m2 == DAdd(DMul(re, re), DMul(im, im)) IN
    IF ~DLe(DScale(m2, 4), DInt(9)) THEN FREE
    ELSE IF IsPanic(ev.r[1]) THEN Judge(RangeMay(T, DInt(ev.n), DZero) \/ RangeMay(T, DZero, DMul(DInt(ev.n), DInt(4))))
    ELSE Judge(DLe(DAbs(Dec(ev.r[1])), U(T, 4)) /\ DLe(DAbs(Dec(ev.r[2])), U(T, 4)))
StepCPow(T, ev) ==
    LET re == Dec(ev.a[1])  im == Dec(ev.a[2])  p == CPowQ(T, re, im, ev.n)
    IN IF Len(ev.r) # 2 \/ IsHang(ev.r[1]) THEN BAD
       ELSE IF ev.n > CPowLong THEN StepCPowLong(T, re, im, ev)
       ELSE IF IsPanic(ev.r[1]) THEN Judge(p.may)
       ELSE IF IsZero(re) /\ IsZero(im) /\ ev.n >= 1 THEN Judge(IsZero(Dec(ev.r[1])) /\ IsZero(Dec(ev.r[2])))
       ELSE Judge(DLe(DAbs(DSub(Dec(ev.r[1]), p.z[1])), p.tol) /\ DLe(DAbs(DSub(Dec(ev.r[2]), p.z[2])), p.tol))

(***************************************************************************)
(* complex exponential (C16)                                                 *)
(***************************************************************************)
CExpUlps == 8
(* e^a cos b, e^a sin b of a fixed-point type                                 *)
FixCExpQs(T, a, b) ==
    LET q == FixExpQ(T, a)
        sc == SinCos(b)
        t == FixSinTol(T, b)
        trig(s) == MNum(s.c, DAdd(t, s.e), RangeMay(T, s.c, DAdd(t, s.e)))
    IN <<MMul(T, trig(sc[2]), q), MMul(T, trig(sc[1]), q)>>
(* floats whose scale is not finite (or may not be): the IEEE classes of the products, b finite *)
CExpClass(T, a, b, r) ==
    LET sc == SinCos(Dec(b))
        e  == IF IsNaN(a) THEN {"nan"} ELSE IF IsNInf(a) THEN {"+0"}
              ELSE IF IsPInf(a) \/ DLe(Huge, Dec(a)) THEN {"+inf"} ELSE {"+", "+inf"}
        sg(q) == IF DLe(DAbs(q.c), q.e) THEN AllK ELSE IF IsNeg(q.c) THEN {"-"} ELSE {"+"}
    IN /\ KOf(r[1]) \in KMul(e, IF IsZero(Dec(b)) THEN {"+"} ELSE sg(sc[2]))
       /\ IF IsZero(Dec(b)) THEN ZeroV(r[2]) \/ (IsNaN(a) /\ IsNaN(r[2]))      \* the exponential of a real number is real
          ELSE KOf(r[2]) \in KMul(e, sg(sc[1]))
StepCExp(T, ev) ==
    LET a == ev.a[1]  b == ev.a[2] IN
    IF Len(ev.r) # 2 \/ IsHang(ev.r[1]) THEN BAD
    ELSE IF IsFlt(T) THEN
         IF IsPanic(ev.r[1]) THEN BAD
         ELSE IF ~IsFin(b) THEN Judge(IsNaN(ev.r[1]) /\ IsNaN(ev.r[2]))
         ELSE IF ~IsFin(a) \/ DLe(Huge, Dec(a)) THEN Judge(CExpClass(T, a, b, ev.r))
         ELSE LET e == IF DLe(Dec(a), DNeg(Huge)) THEN Enc(DZero, DZero) ELSE Exp(Dec(a))
                  sc == SinCos(Dec(b))
              IN IF DLe(MaxQ(T), DAdd(EHi(e), FUlps(T, EHi(e), FnUlps))) THEN Judge(CExpClass(T, a, b, ev.r))
                 ELSE Judge(/\ FltOf(T, ev.r[1], EMul(e, sc[2]), CExpUlps)
                            /\ FltOf(T, ev.r[2], EMul(e, sc[1]), CExpUlps)
                            /\ (IsZero(Dec(b)) => ZeroV(ev.r[2])))
    ELSE AcceptAll(T, FixCExpQs(T, Dec(a), Dec(b)), ev.r)
=============================================================================
