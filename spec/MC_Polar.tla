-------------------------------- MODULE MC_Polar --------------------------------
(***************************************************************************)
(* The composed operations of complex numbers as straight-line programs over   *)
(* a file of registers, one library call (of FxFns, in the type's own            *)
(* arithmetic) per step; a call that panics ends the program.                     *)
(*   "topolar"  two squares, a sum, a root, an arctangent                  (C05) *)
(*   "tocart"   wrap, sine and cosine, two products                        (C06) *)
(*   "pmul"     the zero rule, a product, a sum                            (C07) *)
(*   "pmix"     polar times cartesian: topolar, then pmul                  (C07) *)
(*   "cmix"     cartesian times polar: tocart, then four products, a sum   (C07) *)
(*   "cpow"     magnitude to the n, angle times n, back to cartesian       (C15) *)
(*   "cexp"     sine and cosine of im, e^re, two products                  (C16) *)
(* Sampled operands of every small type that holds pi.  Checked: the Step       *)
(* operator allows the outcome, a panic included; conjugate, negated, swapped    *)
(* and shifted outcomes are rejected once they are further away than the         *)
(* tolerance; the polar form of a converted number is one it allows.              *)
(* Variant 1: sine and cosine exchanged; 2: arguments of the arctangent          *)
(* exchanged; 3: difference of the squares; 4: angles subtracted; 5: no zero     *)
(* rule; 6: angle not multiplied by n; 7: scaled by e^im; 8: sign of the          *)
(* imaginary part of a product.                                                   *)
(***************************************************************************)
EXTENDS Powers, FxFns, TLC
CONSTANTS Kinds, Widths, Step, Variant

Types == {t \in {Fix(w, f) : w \in Widths, f \in 0..12} : t.f + 3 <= t.w}
Some(t, k) == {<<x>> : x \in {x \in RawMin(t)..RawMax(t) : x % (k * Step) = 3 \/ Abs(x) <= 1 \/ x \in {RawMin(t), RawMax(t), 2^t.f, -2^t.f}}}

\* fewer for operations on two numbers
Some4(t) == {<<x>> : x \in {0, 2^t.f, -(2^t.f) \div 2, RawMax(t)} \cup {x \in RawMin(t)..RawMax(t) : x % (10 * Step) = 3}}
VARIABLES kind, T, n, reg, at
vars == <<kind, T, n, reg, at>>

SqIns == <<<<"sq", 5, 1, 1>>, <<"sq", 6, 2, 2>>, <<IF Variant = 3 THEN "sub" ELSE "add", 7, 5, 6>>, <<"sqrt", 8, 7, 7>>,
           <<"atan2", 9, IF Variant = 2 THEN 1 ELSE 2, IF Variant = 2 THEN 2 ELSE 1>>>>
\* <<operation, destination, sources>>; the result is in registers 10 and 11
Prog(k) ==
    CASE k = "topolar" -> SqIns \o <<<<"mov", 10, 8, 8>>, <<"mov", 11, 9, 9>>>>
      [] k = "tocart"  -> <<<<"wrap", 5, 2, 2>>, <<"sin", 6, 5, 5>>, <<"cos", 7, 5, 5>>,
                            <<"mul", 10, 1, IF Variant = 1 THEN 6 ELSE 7>>, <<"mul", 11, 1, IF Variant = 1 THEN 7 ELSE 6>>>>
      [] k = "pmul"    -> <<<<"zero", 10, 1, 3>>, <<"mul", 10, 1, 3>>, <<IF Variant = 4 THEN "sub" ELSE "add", 11, 2, 4>>>>
      \* cartesian operand in 1 and 2, polar operand in 3 and 4
      [] k = "pmix"    -> SqIns \o <<<<"zero", 10, 3, 8>>, <<"mul", 10, 3, 8>>, <<"add", 11, 4, 9>>>>
      [] k = "cmix"    -> <<<<"wrap", 5, 4, 4>>, <<"sin", 6, 5, 5>>, <<"cos", 7, 5, 5>>, <<"mul", 8, 3, 7>>, <<"mul", 9, 3, 6>>,
                            <<"mul", 5, 1, 8>>, <<"mul", 6, 2, 9>>, <<"sub", 10, 5, 6>>,
                            <<"mul", 5, 1, 9>>, <<"mul", 6, 2, 8>>, <<IF Variant = 8 THEN "sub" ELSE "add", 11, 5, 6>>>>
      [] k = "cpow"    -> SqIns \o <<<<"pow", 3, 8, 8>>, <<"const", 4, 1, 1>>, <<IF Variant = 6 THEN "fst" ELSE "mul", 5, 9, 4>>,
                            <<"sin", 6, 5, 5>>, <<"cos", 7, 5, 5>>, <<"mul", 10, 3, 7>>, <<"mul", 11, 3, 6>>>>
      [] k = "cexp"    -> <<<<"sin", 6, 2, 2>>, <<"cos", 7, 2, 2>>, <<"exp", 5, IF Variant = 7 THEN 2 ELSE 1, 1>>,
                            <<"mul", 10, 7, 5>>, <<"mul", 11, 6, 5>>>>

Call(op, x, y) ==
    CASE op = "sq" -> FxPowi(T, x, 2)      [] op = "add" -> FAdd(T, x, y)         [] op = "sub" -> FSub(T, x, y)
      [] op = "mul" -> FMul(T, x, y)       [] op = "sqrt" -> FxSqrt(T, x)         [] op = "atan2" -> FxAtan2(T, x, y)
      [] op = "mov" -> x                   [] op = "fst" -> x                     [] op = "wrap" -> FxWrap(T, x)
      [] op = "sin" -> FxSinCos(T, x)[1]   [] op = "cos" -> FxSinCos(T, x)[2]     [] op = "exp" -> FxExp(T, x)
      [] op = "pow" -> FxPowi(T, x, n)     [] op = "const" -> FInt(T, n)

Two == kind \in {"topolar", "tocart", "cpow", "cexp"}
Init == /\ kind \in Kinds /\ T \in Types
        /\ n \in (IF kind = "cpow" THEN 0..4 ELSE {0})
        /\ IF Two THEN \E a, b \in Some(T, 1) : reg = [i \in 1..11 |-> IF i = 1 THEN a ELSE IF i = 2 THEN b ELSE FxZero]
           ELSE \E a, b, c, d \in Some4(T) :
                   reg = [i \in 1..11 |-> CASE i = 1 -> a [] i = 2 -> b [] i = 3 -> c [] i = 4 -> d [] OTHER -> FxZero]
        /\ at = 1
\* at = 0: finished, -1: panicked
Run == /\ at > 0
       /\ UNCHANGED <<kind, T, n>>
       /\ IF at > Len(Prog(kind)) THEN at' = 0 /\ UNCHANGED reg
          ELSE LET p == Prog(kind)[at] IN
               IF p[1] = "zero"
               THEN /\ at' = IF Variant # 5 /\ (reg[p[3]] = FxZero \/ reg[p[4]] = FxZero) THEN 0 ELSE at + 1
                    /\ UNCHANGED reg
               ELSE LET v == Call(p[1], reg[p[3]], reg[p[4]]) IN
                    IF FOk(v) THEN reg' = [reg EXCEPT ![p[2]] = v] /\ at' = at + 1 ELSE at' = -1 /\ UNCHANGED reg
Next == Run
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Done == at <= 0
Terminates == <>Done
Res == IF at < 0 THEN <<FPanic, FPanic>> ELSE <<reg[10], reg[11]>>

E(x) == FEnc(T, x)
ToPolar(re, im) ==
    LET m == FxSqrt(T, FAdd(T, FxPowi(T, re, 2), FxPowi(T, im, 2)))  a == IF FOk(m) THEN FxAtan2(T, im, re) ELSE FPanic
    IN IF FOk(m) /\ FOk(a) THEN <<m, a>> ELSE <<FPanic, FPanic>>
ToCart(mag, ang) ==
    LET w == FxWrap(T, ang)  sc == IF FOk(w) THEN FxSinCos(T, w) ELSE <<FPanic, FPanic>>
        re == FMul(T, mag, sc[2])  im == FMul(T, mag, sc[1])
    IN IF FOk(re) /\ FOk(im) THEN <<re, im>> ELSE <<FPanic, FPanic>>
P2(p) == <<E(p[1]), E(p[2])>>
Args == IF Two THEN <<E(reg[1]), E(reg[2])>> ELSE <<E(reg[1]), E(reg[2]), E(reg[3]), E(reg[4])>>
Arg2 == <<E(reg[3]), E(reg[4]), E(reg[1]), E(reg[2])>>       \* polar operand first
CP == ToCart(reg[3], reg[4])
\* what the Step operator says of outcome r
Says(r) ==
    LET e == <<E(r[1]), E(r[2])>> IN
    CASE kind = "topolar" -> StepPolar(T, [a |-> Args, r |-> e, p |-> <<e[1], E(FxZero)>> \o Args])
      [] kind = "tocart" -> StepCart(T, [a |-> Args, r |-> e, p |-> P2(IF FOk(r[1]) THEN ToPolar(r[1], r[2]) ELSE r) \o Args])
      [] kind = "pmul" -> StepPMul(T, [a |-> Args, r |-> e])
      [] kind = "pmix" -> StepPMix(T, [a |-> Arg2, r |-> e, p |-> P2(ToPolar(reg[1], reg[2]))])
      [] kind = "cmix" -> StepCMix(T, [a |-> Args, r |-> e, p |-> P2(CP) \o <<Args[3], Args[4]>>])
      [] kind = "cpow" -> StepCPow(T, [a |-> Args, n |-> n, r |-> e])
      [] kind = "cexp" -> StepCExp(T, [a |-> Args, r |-> e])
Allowed == Done => Says(Res) \in {OK, FREE}

\* the tolerance of the first and second component, in units
X(i) == FQ(T, reg[i])
Up(q) == AtPC(q, T.f)
MRad(q) == IF q.st = "num" THEN Up(q.r) ELSE 2^20
Tol == CASE kind = "topolar" -> <<LET q == SumSq(T, X(1), X(2))  s == DSqrt(DAdd(q.c, q.r)) IN
                                    Up(DAdd(DAdd(NiirfTol(T, s), DSub(s, DSqrt(DMax(DSub(q.c, q.r), DZero)))), Ulp(T))),
                                  Up(AtanTol(T, DZero))>>
         [] kind = "tocart" -> LET q == CartQs(T, X(1), X(2)) IN <<MRad(q[1]), MRad(q[2])>>
         [] kind = "pmul" \/ kind = "pmix" -> <<1, 0>>
         [] kind = "cmix" -> <<2, 2>>
         [] kind = "cpow" -> LET t == Up(CPowQ(T, X(1), X(2), n).tol) IN <<t, t>>
         [] kind = "cexp" -> LET q == FixCExpQs(T, X(1), X(2)) IN <<MRad(q[1]), MRad(q[2])>>
Neg1(r) == FNeg(T, r)
\* an angle's tolerance says nothing on the coarsest types
Sane == Done /\ at = 0 /\ (kind = "topolar" => 2 * Tol[2] < 2^T.f) /\ ~(IsZeroV(E(reg[1])) /\ IsZeroV(E(reg[2])))
Off(r) == \E i \in 1..2 : FOk(r[i]) /\ FOk(Res[i]) /\ Abs(r[i][1] - Res[i][1]) > 3 * Tol[i] + 4
\* on an axis the angle 0 or pi may come with either magnitude of rounding, elsewhere it is near the computed one
Reject == Sane =>
    \A r \in {<<Res[2], Res[1]>>, <<Res[1], Neg1(Res[2])>>}
             \cup (IF Two THEN {<<Neg1(Res[1]), Res[2]>>, <<Neg1(Res[1]), Neg1(Res[2])>>} ELSE {})
             \cup {<<FIn(T, Res[1][1] + d), Res[2]>> : d \in {3 * Tol[1] + 5, -3 * Tol[1] - 5}}
             \cup {<<Res[1], FIn(T, Res[2][1] + d)>> : d \in {3 * Tol[2] + 5, -3 * Tol[2] - 5}} :
        FOk(r[1]) /\ FOk(r[2]) /\ Off(r) => Says(r) = BAD
\* a product with a zero magnitude is zero
ZeroRule == Sane /\ kind = "pmul" /\ (reg[1] = FxZero \/ reg[3] = FxZero) => Res = <<FxZero, FxZero>>
\* going to cartesian and back keeps a positive magnitude about where it was
Back == Sane /\ kind = "tocart" /\ reg[1][1] > 0 =>
    LET p == ToPolar(Res[1], Res[2]) IN
    FOk(p[1]) => DLe(DAbs(DSub(FQ(T, p[1]), X(1))), DAdd(DMul(X(1), DAdd(<<1, -6>>, DScale(UnitTol(T, X(2)), 1))), <<40 + 4 * 2^(T.f \div 2), -T.f>>))
=============================================================================
