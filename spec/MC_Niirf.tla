------------------------------- MODULE MC_Niirf -------------------------------
(***************************************************************************)
(* The NIIRF square root, statement by statement, on every non-negative       *)
(* value of every fixed-point type of the given widths, signed and unsigned,  *)
(* and two to MaxIt iterations.  Checked: it terminates, within a number of    *)
(* steps linear in the width; nothing leaves the range of the type; the        *)
(* outcome is one StepSqrt (C09) allows.  Variant: wrong algorithms, which     *)
(* must fail.                                                                  *)
(***************************************************************************)
EXTENDS Sqrt, Fxp, TLC
CONSTANTS WMin, WMax, MaxIt, Variant

Types == {<<w, f, s>> \in (WMin..WMax) \X (0..13) \X {0, 1} : f <= w - 3}
VARIABLES t, arg, its, x, y, norm, k, pc, n
vars == <<t, arg, its, x, y, norm, k, pc, n>>
T == [k |-> 1, w |-> t[1], f |-> t[2], s |-> t[3]]
C(num, den) == FIn(T, (2 * num * 2^T.f + den) \div (2 * den))      \* a decimal constant, to nearest
Two == FInt(T, 2)
BetaTab == <<961914, 840332, 782715, 734869, 691406, 654297, 622070, 595215, 573731, 556152, 516113, 502930>>
Beta(v) == LET J == {j \in 5..15 : FLt(v, FFrom(T, <<j, -4>>))}
           IN IF J = {} THEN C(BetaTab[12], 10^6) ELSE C(BetaTab[(CHOOSE j \in J : \A i \in J : j <= i) - 4], 10^6)

Init == /\ t \in Types /\ its \in 2..MaxIt
        /\ arg \in {<<r>> : r \in 0..RawMax([k |-> 1, w |-> t[1], f |-> t[2], s |-> t[3]])}
        /\ x = arg /\ y = <<0>> /\ norm = 0 /\ k = 1 /\ pc = "zero" /\ n = 0
Goto(l) == pc' = l /\ n' = n + 1 /\ UNCHANGED <<t, arg, its>>
Zero == /\ pc = "zero" /\ Goto(IF x = <<0>> THEN "done" ELSE "up") /\ UNCHANGED <<x, y, norm, k>>
NUp  == /\ pc = "up"
        /\ IF FLt(x, FFrom(T, <<1, -2>>)) THEN x' = FMul(T, FMul(T, x, Two), Two) /\ norm' = norm - 1 /\ Goto("up")
                                          ELSE UNCHANGED <<x, norm>> /\ Goto("down")
        /\ UNCHANGED <<y, k>>
NDown == /\ pc = "down"
         /\ IF IF Variant = 1 THEN FLt(FInt(T, 1), x) ELSE FLe(FInt(T, 1), x)
            THEN x' = FDiv(T, FDiv(T, x, Two), Two) /\ norm' = norm + 1 /\ Goto("down")
            ELSE UNCHANGED <<x, norm>> /\ Goto("est")
         /\ UNCHANGED <<y, k>>
Est  == /\ pc = "est" /\ y' = FAdd(T, FDiv(T, FMul(T, Two, x), FInt(T, 3)), C(354167, 10^6))
        /\ Goto("iter") /\ UNCHANGED <<x, norm, k>>
Iter == /\ pc = "iter"
        /\ IF k < its
           THEN /\ LET q == FMul(T, y, y) IN
                   y' = IF FLt(x, q) THEN FSub(T, y, FMul(T, Beta(x), FSub(T, q, x)))
                                     ELSE FAdd(T, FMul(T, Beta(x), FSub(T, x, q)), y)
                /\ k' = k + 1 /\ Goto("iter")
           ELSE UNCHANGED <<y, k>> /\ Goto("den")
        /\ UNCHANGED <<x, norm>>
Den  == /\ pc = "den"
        /\ IF norm > 0 THEN y' = FMul(T, y, IF Variant = 2 THEN FInt(T, 3) ELSE Two) /\ norm' = norm - 1 /\ Goto("den")
           ELSE IF norm < 0 THEN y' = FDiv(T, y, Two) /\ norm' = norm + 1 /\ Goto("den")
           ELSE UNCHANGED <<y, norm>> /\ Goto("done")
        /\ UNCHANGED <<x, k>>
Next == Zero \/ NUp \/ NDown \/ Est \/ Iter \/ Den
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Done == pc = "done"
Terminates == <>Done
Bounded == n <= 2 * t[1] + its + 6
NoPanic == FOk(x) /\ FOk(y)
Normalised == (pc = "iter" /\ T.f >= 2) => (FLe(FFrom(T, <<1, -2>>), x) /\ FLt(x, FInt(T, 1)))
Ev(r) == [o |-> "niirfn", n |-> its, a |-> <<FEnc(T, arg)>>, r |-> <<FEnc(T, r)>>]
Allowed == Done => StepSqrt(T, Ev(y)) = OK
PanicBad == Done => StepSqrt(T, Ev(FPanic)) = BAD
\* anything further from the root than twice the bound is rejected
Reject == Done =>
    LET s == DSqrt(FQ(T, arg))  m == AtPC(DScale(NiirfTol(T, DAdd(s, DPow2(-20))), 1), T.f) + 2 IN
    \A d \in {-m, m} : RawMin(T) <= y[1] + d /\ y[1] + d <= RawMax(T) => StepSqrt(T, Ev(<<y[1] + d>>)) = BAD
=============================================================================
