-------------------------------- MODULE Mach --------------------------------
(***************************************************************************)
(* Machine arithmetic of mixed_num's element types, as a relation.          *)
(*                                                                          *)
(* A machine quantity is a record  [st, c, r, may, k]:                      *)
(*   st = "num"   the computed value lies within r of the dyadic c          *)
(*   st = "dz"    the computation divides by an exact zero on a type that   *)
(*                cannot express the result: it must panic                  *)
(*   st = "free"  nothing is required of the value                          *)
(*   may          some intermediate result may have left the range of the   *)
(*                type, so a panic (grid types) or an infinity (floats) is  *)
(*                permitted                                                 *)
(* The operators below propagate the rounding each type is entitled to:     *)
(*   integers      none (division truncates)                                *)
(*   fixed point   one unit 2^-f for each product or quotient that is not   *)
(*                 representable, none for sums                             *)
(*   floats        one half unit in the last place for each operation whose *)
(*                 exact result is not representable                        *)
(***************************************************************************)
EXTENDS Num

(***************************************************************************)
(* IEEE classes: NaN, +inf, -inf, positive, negative, +0, -0, and which of   *)
(* them an operation (rounding to nearest) can produce from two of them.     *)
(***************************************************************************)
AllK == {"nan", "+inf", "-inf", "+", "-", "+0", "-0"}
KOf(v) == CASE IsNaN(v) -> "nan" [] IsPInf(v) -> "+inf" [] IsNInf(v) -> "-inf" [] v[1] = CNZero -> "-0"
            [] OTHER -> IF v[3] = 0 THEN "+0" ELSE IF v[3] < 0 THEN "-" ELSE "+"
KInf(x) == x \in {"+inf", "-inf"}
KZero(x) == x \in {"+0", "-0"}
KMinus(x) == x \in {"-inf", "-", "-0"}
KOpp(x) == CASE x = "nan" -> "nan" [] x = "+inf" -> "-inf" [] x = "-inf" -> "+inf" [] x = "+" -> "-" [] x = "-" -> "+"
             [] x = "+0" -> "-0" [] x = "-0" -> "+0"
KAdd1(x, y) ==
    IF x = "nan" \/ y = "nan" THEN {"nan"}
    ELSE IF KInf(x) THEN (IF y = KOpp(x) THEN {"nan"} ELSE {x})
    ELSE IF KInf(y) THEN {y}
    ELSE IF KZero(x) /\ KZero(y) THEN {IF x = y THEN x ELSE "+0"}
    ELSE IF KZero(x) THEN {y} ELSE IF KZero(y) THEN {x}
    ELSE IF x # y THEN {"+", "-", "+0"} ELSE IF x = "+" THEN {"+", "+inf"} ELSE {"-", "-inf"}
KMul1(x, y) ==
    LET neg == KMinus(x) # KMinus(y) IN
    IF x = "nan" \/ y = "nan" \/ (KInf(x) /\ KZero(y)) \/ (KZero(x) /\ KInf(y)) THEN {"nan"}
    ELSE IF KInf(x) \/ KInf(y) THEN {IF neg THEN "-inf" ELSE "+inf"}
    ELSE IF KZero(x) \/ KZero(y) THEN {IF neg THEN "-0" ELSE "+0"}
    ELSE IF neg THEN {"-", "-inf", "-0"} ELSE {"+", "+inf", "+0"}
KDiv1(x, y) ==
    LET neg == KMinus(x) # KMinus(y) IN
    IF x = "nan" \/ y = "nan" \/ (KInf(x) /\ KInf(y)) \/ (KZero(x) /\ KZero(y)) THEN {"nan"}
    ELSE IF KInf(x) \/ KZero(y) THEN {IF neg THEN "-inf" ELSE "+inf"}
    ELSE IF KInf(y) \/ KZero(x) THEN {IF neg THEN "-0" ELSE "+0"}
    ELSE IF neg THEN {"-", "-inf", "-0"} ELSE {"+", "+inf", "+0"}
KAdd(A, B) == UNION {KAdd1(x, y) : x \in A, y \in B}
KMul(A, B) == UNION {KMul1(x, y) : x \in A, y \in B}
KDiv(A, B) == UNION {KDiv1(x, y) : x \in A, y \in B}
KNeg(A)    == {KOpp(x) : x \in A}
(* what is known of the value restricts the classes                          *)
KRefine(k, c, r, may) ==
    IF may THEN k
    ELSE IF DLt(r, DAbs(c)) THEN k \intersect {IF IsNeg(c) THEN "-" ELSE "+"}
    ELSE IF IsZero(c) /\ IsZero(r) THEN k \intersect {"+0", "-0"}
    ELSE k \ {"+inf", "-inf", "nan"}

MNum(c, r, may) == [st |-> "num", c |-> c, r |-> r, may |-> may, k |-> AllK]
MExact(q)       == MNum(q, DZero, FALSE)
MFree(may)      == [st |-> "free", c |-> DZero, r |-> DZero, may |-> may, k |-> AllK]
MDz             == [st |-> "dz", c |-> DZero, r |-> DZero, may |-> TRUE, k |-> AllK]
MHi(a) == DAdd(DAbs(a.c), a.r)            \* bound on the magnitude
(* a logged value                                                            *)
MVal(v) == [st |-> IF IsFin(v) THEN "num" ELSE "free", c |-> Dec(v), r |-> DZero, may |-> FALSE, k |-> {KOf(v)}]

RangeMay(T, c, r) ==
    IF IsFlt(T) THEN ~DLt(DAdd(DAbs(c), r), MaxQ(T))
    ELSE ~(DLe(DAdd(c, r), MaxQ(T)) /\ DLe(MinQ(T), DSub(c, r)))

(* products and quotients of an unsigned type can only leave it upwards      *)
RangeUp(T, c, r) == IF ~IsFlt(T) /\ T.s = 0 THEN ~DLe(DAdd(c, r), MaxQ(T)) ELSE RangeMay(T, c, r)

FltRepr(T, c) == LET g == IF IsZero(c) THEN EMin(T) ELSE Max2(DLog2(c) - Prec(T) + 1, EMin(T)) IN OnGrid(c, g)
FltSlack(T, m) == DAdd(<<m[1], m[2] - Prec(T)>>, DPow2(EMin(T) - 1))

(* rounding of an operation with exact result c (operands off by r in total) *)
RoundProd(T, c, r) ==
    IF IsInt(T) THEN DZero
    ELSE IF IsFix(T) THEN (IF IsZero(r) /\ OnGrid(c, -T.f) THEN DZero ELSE Ulp(T))
    ELSE IF IsZero(r) /\ FltRepr(T, c) THEN DZero
    ELSE FltSlack(T, DAdd(DAbs(c), r))
RoundSum(T, c, r) == IF IsFlt(T) THEN RoundProd(T, c, r) ELSE DZero

MLift2(T, a, b, c, rr, may, k) ==
    IF a.st = "num" /\ b.st = "num"
    THEN LET m == a.may \/ b.may \/ may IN
         [st |-> "num", c |-> c, r |-> rr, may |-> m, k |-> IF IsFlt(T) THEN KRefine(k, c, rr, m) ELSE AllK]
    ELSE IF a.st = "dz" \/ b.st = "dz" THEN MDz ELSE [MFree(a.may \/ b.may) EXCEPT !.k = k]
KBin(T, f(_, _), a, b) == IF IsFlt(T) THEN f(a.k, b.k) ELSE AllK

MAddTo(T, a, b, c, k) ==
    LET r == DAdd(a.r, b.r)  rr == DAdd(r, RoundSum(T, c, r)) IN MLift2(T, a, b, c, rr, RangeMay(T, c, rr), k)
MNeg(T, a)    == MLift2(T, a, a, DNeg(a.c), a.r, RangeMay(T, DNeg(a.c), a.r), IF IsFlt(T) THEN KNeg(a.k) ELSE AllK)
MAdd(T, a, b) == MAddTo(T, a, b, DAdd(a.c, b.c), KBin(T, KAdd, a, b))
MSub(T, a, b) == MAddTo(T, a, b, DSub(a.c, b.c), IF IsFlt(T) THEN KAdd(a.k, KNeg(b.k)) ELSE AllK)
MMul(T, a, b) ==
    LET c == DMul(a.c, b.c)
        r == IF IsZero(a.r) /\ IsZero(b.r) THEN DZero
             ELSE DAdd(DMul(a.r, b.r), DAdd(DMul(DAbs(a.c), b.r), DMul(DAbs(b.c), a.r)))
        rr == DAdd(r, RoundProd(T, c, r))
    IN MLift2(T, a, b, c, rr, RangeUp(T, c, rr), KBin(T, KMul, a, b))

MDiv(T, a, b) ==
    LET k == KBin(T, KDiv, a, b) IN
    IF a.st # "num" \/ b.st # "num" THEN MLift2(T, a, b, DZero, DZero, FALSE, k)
    ELSE IF DLe(DAbs(b.c), b.r)
         THEN (IF IsZero(b.r) /\ ~IsFlt(T) THEN MDz ELSE [MFree(TRUE) EXCEPT !.k = k])
    ELSE IF IsInt(T) THEN LET c == DInt(DivTrunc(a.c[1] * 2^a.c[2], b.c[1] * 2^b.c[2]))
                          IN MLift2(T, a, b, c, DZero, RangeMay(T, c, DZero), k)
    ELSE LET g == IF IsFix(T) THEN -T.f - 8
                  ELSE IF IsZero(a.c) THEN EMin(T) - 8
                  ELSE Max2(DLog2(a.c) - DLog2(b.c) - Prec(T), EMin(T)) - 8
             q == DDiv(a.c, b.c, g)
             exact == IsZero(a.r) /\ IsZero(b.r) /\ DEq(DMul(q, b.c), a.c)
             r == IF exact THEN DZero
                  ELSE DAdd(DPow2(g), DDivUp(DAdd(a.r, DMul(DAdd(DAbs(q), DPow2(g)), b.r)),
                                             DSub(DAbs(b.c), b.r), g))
             rr == DAdd(r, RoundProd(T, q, r))
         IN MLift2(T, a, b, q, rr, RangeUp(T, q, rr), k)

(* widen by d                                                                *)
MWiden(a, d) == [a EXCEPT !.r = DAdd(@, d)]

(***************************************************************************)
(* May the implementation have returned v (a logged value) ?                *)
(***************************************************************************)
Accept(T, q, v) ==
    IF IsHang(v) THEN BAD
    ELSE IF IsPanic(v) THEN (IF IsFlt(T) THEN BAD ELSE Judge(q.may))
    ELSE IF IsFlt(T) /\ KOf(v) \notin q.k THEN BAD
    ELSE IF q.st = "dz" THEN BAD
    ELSE IF q.st = "free" \/ (IsFlt(T) /\ q.may) THEN (IF q.k = AllK THEN FREE ELSE OK)
    ELSE IF ~IsFin(v) THEN BAD
    ELSE Judge(DLe(DAbs(DSub(Dec(v), q.c)), q.r))

(* several results of one call: a panic of the call is a panic of all of them *)
RECURSIVE AnyMay(_)
AnyMay(qs) == IF qs = <<>> THEN FALSE ELSE Head(qs).may \/ AnyMay(Tail(qs))

AcceptAll(T, qs, vs) ==
    LET may == AnyMay(qs)
    IN AllOf([i \in 1..Len(qs) |-> Accept(T, [qs[i] EXCEPT !.may = IF IsPanic(vs[i]) THEN may ELSE @], vs[i])])

AllFin(vs) == \A i \in 1..Len(vs) : IsFin(vs[i])
=============================================================================
