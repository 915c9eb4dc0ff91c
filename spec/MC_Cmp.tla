--------------------------------- MODULE MC_Cmp ---------------------------------
(***************************************************************************)
(* Comparison of two-component numbers, component by component, over every    *)
(* pair from a set of values with NaN, infinities and both zeros.  Checked:    *)
(* StepCmp (C23) allows the outcome and no other; the relation it describes    *)
(* is a strict partial order compatible with equality, total away from NaN.    *)
(* Variant 1: second component first; 2: equal first components are enough;    *)
(* 3: NaN equals NaN; 4: the second component is consulted after an unordered  *)
(* first one.                                                                  *)
(***************************************************************************)
EXTENDS Misc, TLC
CONSTANTS Variant
T == [k |-> 2, w |-> 32, f |-> 0, s |-> 1]
Vals == {<<CNaN>>, <<CInf>>, <<CNInf>>, <<CNZero>>, <<CFin, 0, 0>>, <<CFin, 0, 1, 1>>, <<CFin, -1, 1, 1>>, <<CFin, 0, -1, 3>>}
VARIABLES x, y, i, c, pc
vars == <<x, y, i, c, pc>>

\* one component: the element type's partial order
Key(a) == IF a[1] = CNZero THEN 0 ELSE IF a[3] = 0 THEN 0 ELSE a[3] * a[4] * 2^(a[2] + 1)
Cmp1(a, b) ==
    IF IsNaN(a) \/ IsNaN(b) THEN (IF Variant = 3 /\ a = b THEN 0 ELSE 2)
    ELSE IF a = b THEN 0
    ELSE IF a[1] = CInf \/ b[1] = CNInf THEN 1
    ELSE IF b[1] = CInf \/ a[1] = CNInf THEN -1
    ELSE IF Key(a) < Key(b) THEN -1 ELSE IF Key(a) > Key(b) THEN 1 ELSE 0
Init == x \in Vals \X Vals /\ y \in Vals \X Vals /\ i = 1 /\ c = 0 /\ pc = "cmp"
Pos(j) == IF Variant = 1 THEN 3 - j ELSE j
Step == /\ pc = "cmp" /\ i <= 2
        /\ c' = Cmp1(x[Pos(i)], y[Pos(i)])
        /\ IF (c' = 0 /\ Variant # 2) \/ (c' = 2 /\ Variant = 4) THEN i' = i + 1 /\ UNCHANGED pc ELSE i' = i /\ pc' = "done"
        /\ UNCHANGED <<x, y>>
End == pc = "cmp" /\ i > 2 /\ pc' = "done" /\ UNCHANGED <<x, y, i, c>>
Next == Step \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Done == pc = "done"
Terminates == <>Done
B(p) == IF p THEN 1 ELSE 0
Res(cc) == <<B(cc = 0), B(cc # 0), cc, B(cc = -1), B(cc \in {-1, 0}), B(cc = 1), B(cc \in {0, 1})>>
Says(a, b, r) == StepCmp(T, [a |-> a \o b, r |-> r])
Allowed == Done => Says(x, y, Res(c)) = OK
\* of all answers, consistent or not, only one is allowed (the relation between equality and order is forced)
Unique == Done => /\ \A d \in {-1, 0, 1, 2} : d # c => Says(x, y, Res(d)) = BAD
                  /\ \A j \in {1, 2, 4, 5, 6, 7} : Says(x, y, [Res(c) EXCEPT ![j] = 1 - @]) = BAD
Opp(d) == IF d = 2 THEN 2 ELSE -d
Anti == Done => Says(y, x, Res(Opp(c))) = OK
Is(a, b, d) == Says(a, b, Res(d)) = OK
Trans == Done /\ c = -1 => \A z \in Vals \X Vals : (Is(y, z, -1) \/ Is(y, z, 0)) => Is(x, z, -1)
Congr == Done /\ c = 0 => \A z \in Vals \X Vals : \A d \in {-1, 0, 1, 2} : Is(x, z, d) = Is(y, z, d)
Total == Done /\ (\A a \in {x[1], x[2], y[1], y[2]} : ~IsNaN(a)) => c # 2
Refl == Done /\ x = y => (c = 0 <=> \A a \in {x[1], x[2]} : ~IsNaN(a))
=============================================================================
