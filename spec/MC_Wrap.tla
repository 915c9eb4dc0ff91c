-------------------------------- MODULE MC_Wrap --------------------------------
(***************************************************************************)
(* Phase wrapping, statement by statement, on every value of every signed    *)
(* fixed-point type of the given widths that holds pi.  Checked: it           *)
(* terminates, after few steps; no statement leaves the range of the type     *)
(* (2 pi itself may); the outcome is one that StepWrap (C08) allows; no other  *)
(* value is.  Variant selects deliberately wrong algorithms, which must fail.  *)
(***************************************************************************)
EXTENDS Angle, Fxp, TLC
CONSTANTS WMin, WMax, Variant

Types == {<<w, f>> \in (WMin..WMax) \X (0..13) : f <= w - 3}
VARIABLES t, phi, x, pc, n
vars == <<t, phi, x, pc, n>>
T == Fix(t[1], t[2])
Pi == FFrom(T, Pi64)
NPi == FNeg(T, Pi)
Two == FInt(T, 2)

Init == /\ t \in Types
        /\ phi \in {<<r>> : r \in -(2^(t[1] - 1))..(2^(t[1] - 1) - 1)}
        /\ x = phi /\ pc = "test" /\ n = 0
Goto(l) == pc' = l /\ n' = n + 1 /\ UNCHANGED <<t, phi>>
Test == /\ pc = "test"
        /\ LET half == FDiv(T, phi, Two) IN
           Goto(IF Variant # 1 /\ (FLt(half, NPi) \/ FLe(Pi, half)) THEN "rem" ELSE "up")
        /\ UNCHANGED x
Rem  == /\ pc = "rem" /\ x' = FRem(T, x, FAdd(T, Pi, Pi)) /\ Goto(IF FOk(x') THEN "up" ELSE "done")
Up   == /\ pc = "up"
        /\ IF FLt(x, NPi)
           THEN /\ x' = IF Variant = 2 THEN FAdd(T, x, FAdd(T, Pi, Pi)) ELSE FAdd(T, FAdd(T, x, Pi), Pi)
                /\ Goto(IF FOk(x') THEN "up" ELSE "done")
           ELSE UNCHANGED x /\ Goto("down")
Down == /\ pc = "down"
        /\ IF IF Variant = 3 THEN FLt(Pi, x) ELSE FLe(Pi, x)
           THEN /\ x' = FSub(T, FSub(T, x, Pi), Pi) /\ Goto(IF FOk(x') THEN "down" ELSE "done")
           ELSE UNCHANGED x /\ Goto("done")
Next == Test \/ Rem \/ Up \/ Down
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Done == pc = "done"
Terminates == <>Done
NoPanic == FOk(x)
FewSteps == n <= 6
Ev(r) == [a |-> <<FEnc(T, phi)>>, r |-> <<FEnc(T, r), FEnc(T, r)>>]
Allowed == Done /\ FOk(x) => StepWrap(T, Ev(x)) = OK
\* the outcome is unique: every other value of the type is rejected
Unique == Done /\ FOk(x) => \A r \in RawMin(T)..RawMax(T) : r # x[1] => StepWrap(T, Ev(<<r>>)) = BAD
PanicBad == Done => StepWrap(T, Ev(FPanic)) = BAD
Idempotent == Done /\ FOk(x) => FLe(NPi, x) /\ FLt(x, Pi)
=============================================================================
