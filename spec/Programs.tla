------------------------------ MODULE Programs ------------------------------
(***************************************************************************)
(* Histories of compound assignments on one complex accumulator, generated  *)
(* from the specification and replayed into the real code on every element  *)
(* type (C02).  The accumulator is followed exactly, over 8-bit integers,    *)
(* so that every generated program stays inside the range of every type;     *)
(* the invariants state that the accumulator is the fold of the binary       *)
(* operators over the program so far.                                        *)
(***************************************************************************)
EXTENDS Complex, TLC
CONSTANTS Depth, Vals, Ranges
SmallVals == -3..7
AllStarts == -40..17
ShortVals == {-2, 3}
ShortStarts == {5}

T8 == [k |-> 0, w |-> 8, f |-> 0, s |-> 1]
VARIABLES acc, prog, start
vars == <<acc, prog, start>>

MI(n) == MExact(DInt(n))
(* the binary operator on integers; rk: kind of right operand                *)
Apply(x, p) ==
    LET X == <<MI(x[1]), MI(x[2])>>  op == p[1]  rk == p[2]  a == MI(p[3])  b == MI(p[4]) IN
    IF rk = "c" \/ rk = "n" THEN CBin(T8, op, X, <<a, b>>)
    ELSE IF rk = "p" THEN CMul(T8, X, <<a, MI(0)>>)                \* polar operand at angle 0
    ELSE CASE op = "add" -> <<MAdd(T8, X[1], a), X[2]>>
           [] op = "sub" -> <<MSub(T8, X[1], a), X[2]>>
           [] op = "div" -> <<MDiv(T8, X[1], a), MDiv(T8, X[2], a)>>

Ops == ({"add", "sub", "div"} \X {"c", "n", "s"}) \cup {<<"mul", "p">>}
Usable(y) == \A i \in 1..2 : y[i].st = "num" /\ ~y[i].may
Val(y) == <<DFloor(y[1].c), DFloor(y[2].c)>>

Init == /\ start \in Ranges \X Ranges
        /\ acc = start /\ prog = <<>>
Next == /\ Len(prog) < Depth
        /\ \E o \in Ops, a \in Vals, b \in Vals :
              /\ (o[2] \in {"s", "p"}) => (b = 0)
              /\ (o[2] = "p") => a >= 0
              /\ LET y == Apply(acc, <<o[1], o[2], a, b>>) IN
                 /\ Usable(y)
                 /\ acc' = Val(y)
              /\ prog' = Append(prog, <<o[1], o[2], a, b>>)
        /\ UNCHANGED start
Spec == Init /\ [][Next]_vars

RECURSIVE FoldFrom(_, _)
FoldFrom(x, p) == IF p = <<>> THEN x ELSE FoldFrom(Val(Apply(x, Head(p))), Tail(p))
Inv == /\ \A i \in 1..2 : acc[i] >= -128 /\ acc[i] <= 127
       /\ acc = FoldFrom(start, prog)
Emit == Len(prog) = Depth => PrintT("GEN " \o ToString(<<start, prog>>))
=============================================================================
