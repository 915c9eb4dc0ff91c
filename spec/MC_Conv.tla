-------------------------------- MODULE MC_Conv --------------------------------
(***************************************************************************)
(* Conversions bit by bit: the representation is shifted one place at a time, *)
(* keeping the last bit shifted out and whether any earlier one was set, then *)
(* rounded the way the pair of types asks for, then fitted into the target.   *)
(* Every value of every pair of small integer and fixed-point types, floats   *)
(* of small magnitude in both directions, and integers around the float's     *)
(* precision.  Checked: Conv (C17) allows the outcome, nothing else; a value   *)
(* the target holds comes through unchanged, and back; converting is monotone. *)
(* Variant 1: ties away from zero; 2: floor instead of truncation; 3: low bits *)
(* kept where the result should saturate; 4: truncation instead of floor.      *)
(***************************************************************************)
EXTENDS Conv, Fxp, TLC
CONSTANTS Width, Variant

Ints == {[k |-> 0, w |-> w, f |-> 0, s |-> s] : w \in {Width - 1, Width}, s \in {0, 1}}
Fixs == {[k |-> 1, w |-> Width, f |-> f, s |-> s] : f \in 0..(Width - 1), s \in {0, 1}}
Flt  == [k |-> 2, w |-> 32, f |-> 0, s |-> 1]
Wide == SInt(32)
\* the pairs the library implements: everything but fixed to fixed
Pairs == (Ints \X (Ints \cup Fixs)) \cup (Fixs \X (Ints \cup {Flt})) \cup ({Flt} \X (Ints \cup Fixs)) \cup {<<Wide, Flt>>}

VARIABLES S, T, v, m, sh, g, st, pc
vars == <<S, T, v, m, sh, g, st, pc>>

\* m * 2^e as it is logged
Enc(x, e) == IF x = 0 THEN <<CFin, 0, 0>> ELSE <<CFin, e, IF x > 0 THEN 1 ELSE -1, Abs(x)>>
Vals(t) == IF t = Wide THEN {<<x * (2^b + j), 0>> : b \in {24, 25, 26}, j \in -9..9, x \in {1, -1}}
           ELSE IF IsFlt(t) THEN {<<x, e>> : x \in -17..17, e \in -4..2}
           ELSE {<<r, -t.f>> : r \in RawMin(t)..RawMax(t)}
Classes == {<<CNaN>>, <<CInf>>, <<CNInf>>, <<CNZero>>}

\* the place of the target's last bit
Place == IF IsFlt(T) THEN (IF BitLen(Abs(Dec(v)[1])) <= Prec(T) THEN Dec(v)[2] ELSE Dec(v)[2] + BitLen(Abs(Dec(v)[1])) - Prec(T)) ELSE -T.f

Init == /\ \E p \in Pairs : S = p[1] /\ T = p[2]
        /\ \/ \E x \in Vals(S) : v = Enc(x[1], x[2])
           \/ IsFlt(S) /\ v \in Classes
        /\ m = Dec(v)[1] /\ sh = Place - Dec(v)[2] /\ g = 0 /\ st = 0 /\ pc = "shift"
Keep == UNCHANGED <<S, T, v>>
Left == /\ pc = "shift" /\ sh < 0 /\ m' = 2 * m /\ sh' = sh + 1 /\ UNCHANGED <<g, st, pc>> /\ Keep
Right == /\ pc = "shift" /\ sh > 0
         /\ m' = m \div 2 /\ g' = m % 2 /\ st' = IF g = 1 \/ st = 1 THEN 1 ELSE 0
         /\ sh' = sh - 1 /\ UNCHANGED pc /\ Keep
\* floor, or up by one
Round == /\ pc = "shift" /\ sh = 0
         /\ m' = IF IsFix(T) \/ IsFlt(T)
                 THEN (IF g = 1 /\ (st = 1 \/ m % 2 = 1 \/ (Variant = 1 /\ m >= 0)) THEN m + 1 ELSE m)
                 ELSE IF (IsFlt(S) /\ Variant # 2) \/ (IsFix(S) /\ Variant = 4)
                 THEN (IF m < 0 /\ (g = 1 \/ st = 1) THEN m + 1 ELSE m)
                 ELSE m
         /\ pc' = "done" /\ UNCHANGED <<sh, g, st>> /\ Keep
Next == Left \/ Right \/ Round
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Done == pc = "done"
Terminates == <>Done

In(x) == RawMin(T) <= x /\ x <= RawMax(T)
Low(x) == LET y == x % 2^T.w IN IF T.s = 1 /\ y >= 2^(T.w - 1) THEN y - 2^T.w ELSE y
Sat(x) == IF x < RawMin(T) THEN RawMin(T) ELSE IF x > RawMax(T) THEN RawMax(T) ELSE x
\* the outcome
Out ==
    IF IsFlt(T) THEN Enc(m, Place)
    ELSE IF v[1] \in {CNaN, CInf, CNInf} THEN
         (IF IsFix(T) THEN <<CPanic>> ELSE Enc(IF v[1] = CNaN THEN 0 ELSE IF v[1] = CInf THEN RawMax(T) ELSE RawMin(T), 0))
    ELSE IF IsFix(T) \/ IsFix(S) THEN (IF In(m) THEN Enc(m, -T.f) ELSE <<CPanic>>)
    ELSE IF IsFlt(S) THEN Enc(IF Variant = 3 THEN Low(m) ELSE Sat(m), 0)
    ELSE Enc(Low(m), 0)

Ev(r) == [a |-> <<v>>, r |-> <<r>>]
Allowed == Done => StepConv(S, T, Ev(Out)) = OK
\* exactly one outcome
All == {<<CPanic>>, <<CNaN>>, <<CInf>>, <<CNInf>>, <<CNZero>>, <<CHang>>}
       \cup (IF IsFlt(T) THEN {Enc(m + d, Place) : d \in -2..2} \cup {Enc(2 * m + d, Place - 1) : d \in {-1, 1}} ELSE {Enc(x, -T.f) : x \in RawMin(T)..RawMax(T)})
Same(a, b) == a[1] = b[1] /\ (a[1] = CFin => DEq(Dec(a), Dec(b)))
Unique == Done => \A r \in All : ~Same(r, Out) => StepConv(S, T, Ev(r)) = BAD
\* what the target holds comes through, and back again
Holds == IsFin(v) /\ (IF IsFlt(T) THEN BitLen(Abs(Dec(v)[1])) <= Prec(T) ELSE Fits(T, Dec(v)) /\ OnGrid(Dec(v), -T.f))
Faithful == Done /\ Holds => /\ IsFin(Out) /\ DEq(Dec(Out), Dec(v))
                             /\ (<<T, S>> \in Pairs => StepConv(T, S, [a |-> <<Out>>, r |-> <<IF v[1] = CNZero THEN <<CFin, 0, 0>> ELSE v>>]) = OK)
\* the error is less than one unit, at most half of one where rounding is to nearest
Close == Done /\ IsFin(v) /\ IsFin(Out) /\ (IsFix(T) \/ IsFlt(T)) =>
         DLe(DAbs(DSub(Dec(Out), Dec(v))), DPow2(Place - 1))
\* only conversions into or out of fixed point panic
Quiet == Done /\ IsPanic(Out) => IsFix(S) \/ IsFix(T)
=============================================================================
