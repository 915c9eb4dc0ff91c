-------------------------------- MODULE MC_Powi --------------------------------
(***************************************************************************)
(* Integer powers, multiplication by multiplication, for every base of every  *)
(* small grid type and every exponent from -MaxPow to MaxPow.  Checked: the    *)
(* loop terminates; StepPowI (C14) allows the outcome, a panic included;       *)
(* it rejects an exponent off by one when that is further away than the        *)
(* rounding; a panic is rejected when all partial products are well inside.    *)
(* Variant 1: reciprocal at the end (also allowed); 2: one product too many;   *)
(* 3: the sign of the exponent is lost.                                        *)
(***************************************************************************)
EXTENDS Powers, Fxp, TLC
CONSTANTS Width, MaxPow, Variant

Types == {[k |-> k, w |-> Width, f |-> f, s |-> s] : k \in {0, 1}, f \in 0..(Width - 2), s \in {0, 1}}
VARIABLES T, base, n, m, acc, b, pc
vars == <<T, base, n, m, acc, b, pc>>
Init == /\ T \in {t \in Types : (t.k = 0 => t.f = 0) /\ Fits(t, DInt(1))}
        /\ base \in {<<r>> : r \in RawMin(T)..RawMax(T)} /\ n \in -MaxPow..MaxPow
        /\ m = 0 /\ acc = <<0>> /\ b = base /\ pc = "start"
One == FInt(T, 1)
Keep == UNCHANGED <<T, base, n>>
Start == /\ pc = "start"
         /\ b' = IF n < 0 /\ Variant \notin {1, 3} THEN FDiv(T, One, base) ELSE base
         /\ m' = Abs(n) /\ acc' = IF n = 0 THEN One ELSE b'
         /\ pc' = "loop" /\ Keep
Loop == /\ pc = "loop"
        /\ IF m > (IF Variant = 2 THEN 0 ELSE 1) /\ FOk(acc)
           THEN acc' = FMul(T, acc, b) /\ m' = m - 1 /\ pc' = "loop"
           ELSE /\ acc' = IF Variant = 1 /\ n < 0 THEN FDiv(T, One, acc) ELSE acc
                /\ m' = m /\ pc' = "done"
        /\ UNCHANGED b /\ Keep
Next == Start \/ Loop
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Done == pc = "done"
Terminates == <>Done
Ev(nn, r) == [n |-> nn, a |-> <<FEnc(T, base)>>, r |-> <<FEnc(T, r)>>]
Allowed == Done => (StepPowI(T, Ev(n, acc)) = OK \/ (T.k = 0 /\ n < 0 /\ Variant = 1))
Exact(k) == DPowN(FQ(T, base), k)
Inside == Done /\ n >= 0 /\ DLe(DMax(DAbs(Exact(n)), DAbs(FQ(T, base))), DScale(MaxQ(T), -2)) /\ T.s = 1 /\ T.w - T.f >= 3 => FOk(acc)
Inside2 == Done /\ n >= 0 /\ DLe(DPowN(DAdd(DAbs(FQ(T, base)), DInt(1)), Max2(n, 1)), DScale(MaxQ(T), -1)) => StepPowI(T, Ev(n, FPanic)) = BAD
\* on integers the outcome is unique
Unique == Done /\ IsInt(T) /\ FOk(acc) => \A r \in RawMin(T)..RawMax(T) : r # acc[1] => StepPowI(T, Ev(n, <<r>>)) = BAD
Tol == AtPC(DMul(DInt(Abs(n)), DPowN(DMax(DAdd(DAbs(FQ(T, base)), Ulp(T)), DInt(1)), Max2(n - 2, 0))), 0) + 1
Reject == Done /\ n >= 0 /\ FOk(acc) => \A s \in {-1, 1} :
            LET r == acc[1] + s * 2 * Tol IN RawMin(T) <= r /\ r <= RawMax(T) => StepPowI(T, Ev(n, <<r>>)) = BAD
=============================================================================
