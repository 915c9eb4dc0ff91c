------------------------------- MODULE MC_Num -------------------------------
(***************************************************************************)
(* The exact arithmetic under the specification, characterised.  Every      *)
(* operator of Num that the conformance relation rests on is checked, over   *)
(* small and multi-word operands, against the defining inequality of what it *)
(* computes, and the real functions of RealFns against identities that relate *)
(* them.  The model is run twice, with TLC evaluating the definitions of Num  *)
(* and RealFns themselves and with the Java classes that accelerate them; the *)
(* printed values of the two runs must be identical.                          *)
(***************************************************************************)
EXTENDS RealFns, TLC
CONSTANTS Stride

Mant == <<0, 1, -1, 2, -2, 3, -3, 5, -5, 7, 8, -8, 9, 255, -256, 1023, 2^31 - 1, -(2^31), 2^31 + 1, -(2^52) - 3, 2^53 - 1,
          2^62 + 5, 2^63, -(2^63) - 1, 2^70 + 3, -(2^70) - 3, 2^100, 3 * 2^90 - 1>>
Exps == <<-9, -2, -1, 0, 1, 3, 33>>
Grid == <<-8, -3, -1, 0, 1, 2, 5, 34, 70>>
NM == Len(Mant)  NE == Len(Exps)  NG == Len(Grid)

VARIABLES i, j, g
vars == <<i, j, g>>
Init == /\ i \in {n \in 0..(NM * NE - 1) : n % Stride = 0}
        /\ j \in 0..(NM * NE - 1) /\ (i * 7 + j) % Stride = 0
        /\ g = 1 + ((i + j) % NG)
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

D(n) == <<Mant[1 + (n \div NE)], Exps[1 + (n % NE)]>>
A == D(i)
B == D(j)
G == Grid[g]

ShrInv == LET q == Shr(A[1], G)  c == ShrCeil(A[1], G) IN
    IF G >= 0 THEN /\ q * 2^G <= A[1] /\ A[1] < (q + 1) * 2^G
                   /\ A[1] <= c * 2^G /\ (c - 1) * 2^G < A[1]
              ELSE Eq(q, A[1] * 2^(-G)) /\ Eq(c, q)
DivInv == LET b == B[1] IN b > 0 \/ b < 0 =>
    LET f == DivFloor(A[1], b)  t == DivTrunc(A[1], b)  r == A[1] - f * b  s == A[1] - t * b IN
    /\ IF b > 0 THEN 0 <= r /\ r < b ELSE b < r /\ r <= 0
    /\ Abs(s) < Abs(b) /\ (A[1] >= 0 => s >= 0) /\ (A[1] <= 0 => s <= 0)
LenInv == LET n == Abs(A[1])  k == BitLen(n) IN n < 2^k /\ (k = 0 \/ 2^(k - 1) <= n)
Log2Inv == IsZero(A) \/ LET k == DLog2(A) IN DLe(DPow2(k), DAbs(A)) /\ DLt(DAbs(A), DPow2(k + 1))
RingInv == /\ DEq(DSub(DAdd(A, B), B), A) /\ DEq(DAdd(A, B), DAdd(B, A)) /\ DEq(DMul(A, B), DMul(B, A))
           /\ DEq(DMul(DAdd(A, B), A), DAdd(DMul(A, A), DMul(B, A)))
           /\ DEq(DScale(A, G), DMul(A, DPow2(G)))
           /\ DEq(DNeg(DNeg(A)), A) /\ IsZero(DAdd(A, DNeg(A)))
OrderInv == /\ DLt(A, B) = ~DLe(B, A) /\ DEq(A, B) = (DLe(A, B) /\ DLe(B, A))
            /\ DLe(A, B) = ~IsPos(DSub(A, B)) /\ DLt(A, B) = IsNeg(DSub(A, B))
            /\ DLe(DMin(A, B), A) /\ DLe(DMin(A, B), B) /\ DLe(A, DMax(A, B)) /\ DLe(B, DMax(A, B))
FloorInv == /\ DLe(DInt(DFloor(A)), A) /\ DLt(A, DInt(DFloor(A) + 1))
            /\ DLe(A, DInt(DCeil(A))) /\ DLt(DInt(DCeil(A) - 1), A)
            /\ DEq(<<AtP(A, 4), -4>>, DScale(DInt(DFloor(DScale(A, 4))), -4))
            /\ DEq(<<AtPC(A, 4), -4>>, DScale(DInt(DCeil(DScale(A, 4))), -4))
RoundInv == LET q == RoundEvenAt(A, G)  d == DAbs(DSub(A, <<q, G>>)) IN
    /\ DLe(d, DPow2(G - 1))
    /\ DEq(d, DPow2(G - 1)) => q % 2 = 0
    /\ OnGrid(A, G) = IsZero(d)
QuotInv == ~IsZero(B) =>
    LET q == DDiv(A, B, G)  r == DDivUp(A, B, G)  bb == DAbs(B)  aa == IF IsNeg(B) THEN DNeg(A) ELSE A IN
    /\ DLe(DMul(q, bb), aa) /\ DLt(aa, DMul(DAdd(q, DPow2(G)), bb))
    /\ DLe(aa, DMul(r, bb)) /\ DLt(DMul(DSub(r, DPow2(G)), bb), aa)
FltInv == \A w \in {32, 64} :
    LET T == [k |-> 2, w |-> w, f |-> 0, s |-> 1]
        r == RoundFlt(T, A) IN
    IsZero(A) \/ (/\ DLe(DAbs(DSub(A, r)), DMul(DPow2(-Prec(T)), DAbs(A)))          \* normal range here
                  /\ DLe(DAbs(<<r[1], 0>>), DInt(2^Prec(T))))
DecInv == LET s == Sgn(IF A[1] > 0 THEN 1 ELSE IF A[1] < 0 THEN -1 ELSE 0)  n == Abs(A[1])
              v == <<0, A[2], s, n % 2^30, (n \div 2^30) % 2^30, (n \div 2^60) % 2^30, n \div 2^90>> IN DEq(Dec(v), A)

(* real functions: identities, on moderate arguments                         *)
Small(x) == DLe(DAbs(x), DInt(40))
Meet(a, b) == DLe(DAbs(DSub(a.c, b.c)), DAdd(a.e, b.e))
Thin(a, n) == DLe(a.e, DPow2(n))
TrigInv == Small(A) /\ Small(B) =>
    LET a == SinCos(A)  b == SinCos(B)  c == SinCos(DAdd(A, B)) IN
    /\ Meet(c[1], EAdd(EMul(a[1], b[2]), EMul(a[2], b[1])))
    /\ Meet(c[2], ESub(EMul(a[2], b[2]), EMul(a[1], b[1])))
    /\ Meet(EAdd(EMul(a[1], a[1]), EMul(a[2], a[2])), Enc(DInt(1), DZero))
    /\ Thin(c[1], -150) /\ Thin(c[2], -150)
ExpInv == Small(A) /\ Small(B) =>
    LET a == Exp(A)  b == Exp(B)  c == Exp(DAdd(A, B)) IN
    /\ Meet(c, EMul(a, b)) /\ DLe(c.e, DMul(DPow2(-140), c.c)) /\ IsPos(DSub(c.c, c.e))
    /\ Meet(Expm1(A), ESub(Exp(A), Enc(DInt(1), DZero)))
LnInv == IsPos(A) /\ IsPos(B) =>
    LET a == Ln(A)  b == Ln(B)  c == Ln(DMul(A, B)) IN
    /\ Meet(c, EAdd(a, b)) /\ Thin(c, -140)
    /\ (Small(A) /\ Small(B)) => Meet(Ln(A), Ln(A)) /\ Meet(ExpEnc(Ln(A)), Enc(A, DMul(A, DPow2(-120))))
(* digits of the constants, from the literature                              *)
Dig(a, b, c, d) == a * 10^24 + b * 10^16 + c * 10^8 + d
PiInv == /\ DLe(<<Dig(31415926, 53589793, 23846264, 33832795), 0>>, DMul(DPi, DInt(10^31))) /\ DLe(DMul(DPiUp, DInt(10^31)), <<Dig(31415926, 53589793, 23846264, 33832796), 0>>)
         /\ DLe(<<Dig(69314718, 5599453, 9417232, 12145817), 0>>, DMul(DLn2, DInt(10^32))) /\ DLe(DMul(DLn2, DInt(10^32)), <<Dig(69314718, 5599453, 9417232, 12145818), 0>>)

Inv == ShrInv /\ DivInv /\ LenInv /\ Log2Inv /\ RingInv /\ OrderInv /\ FloorInv /\ RoundInv /\ QuotInv /\ FltInv /\ DecInv
       /\ TrigInv /\ ExpInv /\ LnInv /\ PiInv

Emit == PrintT(ToString(<<"VAL", i, j, Shr(A[1], G), ShrCeil(A[1], G), BitLen(Abs(A[1])), DAdd(A, B), DSub(A, B), DMul(A, B),
                 DLe(A, B), DFloor(A), DCeil(A), RoundEvenAt(A, G), OnGrid(A, G),
                 IF IsZero(B) THEN 0 ELSE <<DDiv(A, B, G), DDivUp(A, B, G), DivTrunc(A[1], B[1]), DivFloor(A[1], B[1])>>,
                 IF Small(A) THEN <<SinCos(A), Exp(A)>> ELSE 0, IF IsPos(A) THEN Ln(A) ELSE 0>>))
=============================================================================
