-------------------------------- MODULE Num --------------------------------
(***************************************************************************)
(* Exact numbers and the numeric types of mixed_num.                       *)
(*                                                                         *)
(* Every finite value of every supported type (integers, binary            *)
(* fixed-point, IEEE floats) is a dyadic rational  z * 2^e.  It is written *)
(* <<z, e>> with z, e \in Int.  All operators below are exact integer      *)
(* arithmetic: there is no rounding anywhere in the specification unless   *)
(* an operator says so.                                                    *)
(*                                                                         *)
(* A type is a record [k, w, f, s]:                                        *)
(*    k = 0  integer        w bits, s = 1 iff signed,  f = 0               *)
(*    k = 1  fixed point    w bits, f fractional bits, s = 1 iff signed    *)
(*    k = 2  IEEE float     w = 32 or 64                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences

Abs(x) == IF x < 0 THEN -x ELSE x
Max2(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b
Sgn(x) == IF x < 0 THEN -1 ELSE IF x = 0 THEN 0 ELSE 1   \* used on small integers only
Eq(a, b) == a <= b /\ b <= a                              \* equality of (possibly large) integers

(***************************************************************************)
(* Floor and ceiling of x / 2^n  (n may be negative: then it is exact).    *)
(***************************************************************************)
Shr(x, n)     == IF n <= 0 THEN x * 2^(-n) ELSE x \div 2^n
ShrCeil(x, n) == IF n <= 0 THEN x * 2^(-n) ELSE -((-x) \div 2^n)
DivFloor(a, b) == IF b > 0 THEN a \div b ELSE (-a) \div (-b)
DivTrunc(a, b) == IF (a >= 0) <=> (b > 0) THEN Abs(a) \div Abs(b) ELSE -(Abs(a) \div Abs(b))

(***************************************************************************)
(* Number of bits of a natural number: BitLen(n) = min {k : n < 2^k}.      *)
(***************************************************************************)
RECURSIVE BitLenFrom(_, _, _)
BitLenFrom(n, step, acc) ==
    IF step = 0 THEN (IF n >= 1 THEN acc + 1 ELSE acc)
    ELSE IF n >= 2^step THEN BitLenFrom(n \div 2^step, step \div 2, acc + step)
    ELSE BitLenFrom(n, step \div 2, acc)
BitLen(n) == IF n < 2^30 THEN BitLenFrom(n, 16, 0) ELSE BitLenFrom(n, 2048, 0)

(***************************************************************************)
(* Dyadic rationals.                                                       *)
(***************************************************************************)
DZero == <<0, 0>>
DInt(n) == <<n, 0>>
DAdd(a, b) == IF a[2] <= b[2] THEN <<a[1] + b[1] * 2^(b[2] - a[2]), a[2]>>
                              ELSE <<a[1] * 2^(a[2] - b[2]) + b[1], b[2]>>
DNeg(a)    == <<-a[1], a[2]>>
DSub(a, b) == DAdd(a, DNeg(b))
DMul(a, b) == <<a[1] * b[1], a[2] + b[2]>>
DAbs(a)    == <<Abs(a[1]), a[2]>>
DScale(a, n) == <<a[1], a[2] + n>>                      \* a * 2^n
DLe(a, b)  == IF a[2] <= b[2] THEN a[1] <= b[1] * 2^(b[2] - a[2])
                              ELSE a[1] * 2^(a[2] - b[2]) <= b[1]
DLt(a, b)  == IF a[2] <= b[2] THEN a[1] < b[1] * 2^(b[2] - a[2])
                              ELSE a[1] * 2^(a[2] - b[2]) < b[1]
DEq(a, b)  == DLe(a, b) /\ DLe(b, a)
DMax(a, b) == IF DLe(a, b) THEN b ELSE a
DMin(a, b) == IF DLe(a, b) THEN a ELSE b
DPow2(n)   == <<1, n>>
IsZero(a)  == a[1] >= 0 /\ a[1] <= 0
IsNeg(a)   == a[1] < 0
IsPos(a)   == a[1] > 0

(* a as an integer multiple of 2^-p, rounded down / up                      *)
AtP(a, p)  == Shr(a[1], -(a[2] + p))
AtPC(a, p) == ShrCeil(a[1], -(a[2] + p))

(* floor(log2 |a|), for a # 0                                               *)
DLog2(a) == BitLen(Abs(a[1])) - 1 + a[2]

(* floor / ceiling of a dyadic, as an integer                               *)
DFloor(a) == Shr(a[1], -a[2])
DCeil(a)  == ShrCeil(a[1], -a[2])
DTrunc(a) == IF a[1] >= 0 THEN DFloor(a) ELSE DCeil(a)

(* nearest integer multiple of 2^g, ties to even, as the integer multiplier  *)
RoundEvenAt(a, g) ==
    LET sh == g - a[2] IN
    IF sh <= 0 THEN a[1] * 2^(-sh)
    ELSE LET q == a[1] \div 2^sh
             r == a[1] - q * 2^sh          \* 0 <= r < 2^sh
             half == 2^(sh - 1)
         IN IF r < half THEN q
            ELSE IF r > half THEN q + 1
            ELSE IF q % 2 = 0 THEN q ELSE q + 1

(* floor of a/b on the grid 2^g, as a dyadic; DDivUp is an upper bound       *)
DDiv(a, b, g) == LET sh == a[2] - b[2] - g IN
    IF sh >= 0 THEN <<DivFloor(a[1] * 2^sh, b[1]), g>> ELSE <<DivFloor(a[1], b[1] * 2^(-sh)), g>>
DDivUp(a, b, g) == DNeg(DDiv(DNeg(a), b, g))

(* does a lie on the grid of multiples of 2^g ?                             *)
OnGrid(a, g) == LET sh == g - a[2] IN sh <= 0 \/ a[1] % (2^Max2(sh, 0)) = 0

(***************************************************************************)
(* Types                                                                   *)
(***************************************************************************)
IsInt(T)   == T.k = 0
IsFix(T)   == T.k = 1
IsFlt(T)   == T.k = 2
IsGridT(T) == T.k # 2                       \* exact grid of multiples of 2^-f
Prec(T)  == IF T.w = 32 THEN 24 ELSE 53     \* float precision p
EMin(T)  == IF T.w = 32 THEN -149 ELSE -1074 \* exponent of the least subnormal
EMax(T)  == IF T.w = 32 THEN 128 ELSE 1024  \* finite floats are < 2^EMax
Ulp(T)   == <<1, -T.f>>                     \* grid types only

RawMax(T) == IF T.s = 1 THEN 2^(T.w - 1) - 1 ELSE 2^T.w - 1
RawMin(T) == IF T.s = 1 THEN -(2^(T.w - 1)) ELSE 0
MaxQ(T) == IF IsFlt(T) THEN <<2^Prec(T) - 1, EMax(T) - Prec(T)>> ELSE <<RawMax(T), -T.f>>
MinQ(T) == IF IsFlt(T) THEN DNeg(MaxQ(T)) ELSE <<RawMin(T), -T.f>>
Fits(T, q) == DLe(MinQ(T), q) /\ DLe(q, MaxQ(T))

(* Could an operation whose exact result is q, computed with an error below *)
(* `slack' ulps, leave the range of the grid type T ?                       *)
MayOverflow(T, q, slack) ==
    LET d == <<slack, -T.f>> IN ~(Fits(T, DAdd(q, d)) /\ Fits(T, DSub(q, d)))

(***************************************************************************)
(* Correct rounding (ties to even) of a non-zero dyadic to the float type T.*)
(* The result is a dyadic; a magnitude of 2^EMax or more means overflow.    *)
(***************************************************************************)
RoundFlt(T, a) ==
    IF IsZero(a) THEN DZero
    ELSE LET g == Max2(DLog2(a) - Prec(T) + 1, EMin(T)) IN <<RoundEvenAt(a, g), g>>
FltOverflow(T, a) == DLe(DPow2(EMax(T)), DAbs(a))

(* unit roundoff bound: a correctly rounded float operation with exact       *)
(* result q has absolute error at most |q| * 2^-Prec + 2^(EMin-1)            *)
FltTol(T, q, k) == DAdd(DMul(<<k, -Prec(T)>>, DAbs(q)), <<k, EMin(T)>>)

(***************************************************************************)
(* Logged values.  The recorder writes a number as a sequence of small      *)
(* integers: <<class>> or <<0, e, sign, limb0, limb1, ...>> (base 2^30).    *)
(***************************************************************************)
CFin == 0
CNaN == 1
CInf == 2
CNInf == 3
CNZero == 4
CPanic == 5
CHang == 6

RECURSIVE Limbs(_, _)
Limbs(v, i) == IF i > Len(v) THEN 0 ELSE v[i] + 2^30 * Limbs(v, i + 1)
Dec(v) == IF v[1] = CFin THEN (IF v[3] = 0 THEN DZero ELSE <<v[3] * Limbs(v, 4), v[2]>>)
          ELSE DZero                              \* -0 decodes to zero
IsFin(v)   == v[1] = CFin \/ v[1] = CNZero
IsPanic(v) == v[1] = CPanic
IsHang(v)  == v[1] = CHang
IsNaN(v)   == v[1] = CNaN
IsPInf(v)  == v[1] = CInf
IsNInf(v)  == v[1] = CNInf
IsInf(v)   == v[1] = CInf \/ v[1] = CNInf

Panicked(r) == IsPanic(r[1])
Hung(r)     == IsHang(r[1])

(* verdicts of the conformance relation on one logged call                  *)
OK == "ok"      \* the specification determines the outcome and it agrees
FREE == "free"  \* outside the domain the specification constrains
BAD == "bad"    \* the implementation did something the specification forbids
Judge(b) == IF b THEN OK ELSE BAD
RECURSIVE AllOf(_)
AllOf(vs) == IF vs = <<>> THEN FREE
             ELSE LET rest == AllOf(Tail(vs)) IN
                  IF Head(vs) = BAD \/ rest = BAD THEN BAD
                  ELSE IF Head(vs) = OK \/ rest = OK THEN OK ELSE FREE
=============================================================================
