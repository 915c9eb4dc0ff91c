------------------------------ MODULE MC_Complex ------------------------------
(***************************************************************************)
(* Complex arithmetic, exhaustively on small word sizes.  The concrete       *)
(* formulas of the library are executed on Fxp for every pair of operands of *)
(* every type with Width bits.  Checked in every state:                      *)
(*   Sound   the acceptance relation of Complex allows what they return      *)
(*   Tight   it rejects a result that is off by more than the rounding the   *)
(*           type is entitled to                                             *)
(*   Panics  it rejects a panic when no intermediate value is near the ends  *)
(*           of the range, and rejects the absence of one on division by 0   *)
(***************************************************************************)
EXTENDS Complex, Fxp, TLC
CONSTANTS Width, Part, Of

Types == <<SInt(Width)>> \o [i \in 1..(Width - 1) |-> Fix(Width, i - 1)]
Ops == <<"add", "sub", "mul", "div", "conj">>
Raw == -(2^(Width - 1))..(2^(Width - 1) - 1)

VARIABLES t, op, x, y, r
vars == <<t, op, x, y, r>>
T == Types[t]

W1(a) == <<a>>
Exec(TT, o, a, b, c, d) ==
    LET M(p, q) == FMul(TT, <<p>>, <<q>>) IN
    CASE o = "add" -> <<FAdd(TT, W1(a), W1(c)), FAdd(TT, W1(b), W1(d))>>
      [] o = "sub" -> <<FSub(TT, W1(a), W1(c)), FSub(TT, W1(b), W1(d))>>
      [] o = "conj" -> <<W1(a), FNeg(TT, W1(b))>>
      [] o = "mul" -> <<FSub(TT, M(a, c), M(b, d)), FAdd(TT, M(a, d), M(b, c))>>
      [] o = "div" -> LET n == FAdd(TT, M(c, c), M(d, d)) IN
            <<FDiv(TT, FAdd(TT, M(a, c), M(b, d)), n), FDiv(TT, FSub(TT, M(b, c), M(a, d)), n)>>

Init == /\ t \in 1..Len(Types) /\ op \in 1..Len(Ops)
        /\ x \in Raw \X Raw /\ y \in Raw \X Raw
        /\ (x[1] + 3 * x[2] + 5 * y[1] + 7 * y[2]) % Of = Part
        /\ (Ops[op] = "conj" => y = <<0, 0>>)
        /\ r = <<>>
\* a panic of either component is a panic of the call
Next == /\ r = <<>>
        /\ LET z == Exec(T, Ops[op], x[1], x[2], y[1], y[2])
           IN r' = IF FOk(z[1]) /\ FOk(z[2]) THEN z ELSE <<FPanic, FPanic>>
        /\ UNCHANGED <<t, op, x, y>>
Spec == Init /\ [][Next]_vars

V(n) == FEnc(T, <<n>>)
Ev(z) == [a |-> IF Ops[op] = "conj" THEN <<V(x[1]), V(x[2])>> ELSE <<V(x[1]), V(x[2]), V(y[1]), V(y[2])>>,
          r |-> <<FEnc(T, z[1]), FEnc(T, z[2])>>, p |-> <<>>]
Verdict(z) == IF Ops[op] = "conj" THEN StepConj(T, Ev(z)) ELSE StepBin(T, Ops[op], Ev(z))
Done == r # <<>>
Panicking == ~FOk(r[1])

Sound == Done => Verdict(r) = OK
(* the relation knows the result to K units: exact operations to none         *)
CE == CBin(T, Ops[op], CQ(V(x[1]), V(x[2])), CQ(V(y[1]), V(y[2])))
K(i) == LET q == IF Ops[op] = "conj" THEN MExact(DZero) ELSE CE[i] IN IF q.st = "num" THEN 1 + 2 * AtPC(q.r, T.f) ELSE 1000
Off(i, d) == [r EXCEPT ![i] = <<@[1] + d>>]
Tight == Done /\ ~Panicking =>
    /\ Ops[op] \in {"add", "sub", "conj"} => K(1) = 1 /\ K(2) = 1
    /\ Ops[op] = "mul" => K(1) <= 5 /\ K(2) <= 5 /\ (IsInt(T) => K(1) = 1 /\ K(2) = 1)
    /\ \A i \in 1..2, s \in {-1, 1} : K(i) < 1000 => Verdict(Off(i, s * K(i))) = BAD
    \* another operator's result, a swap of the components, a wrong sign
    /\ (K(1) = 1 /\ K(2) = 1 /\ r[1] # r[2]) => Verdict(<<r[2], r[1]>>) = BAD
(* exact values of everything the formulas compute                           *)
Mid == LET a == x[1]  b == x[2]  c == y[1]  d == y[2] IN
    CASE Ops[op] = "add" -> {<<a + c, 0>>, <<b + d, 0>>}
      [] Ops[op] = "sub" -> {<<a - c, 0>>, <<b - d, 0>>}
      [] Ops[op] = "conj" -> {<<-b, 0>>}
      [] OTHER -> {<<a * c, -T.f>>, <<b * d, -T.f>>, <<a * d, -T.f>>, <<b * c, -T.f>>} \cup
                  (IF Ops[op] = "mul" THEN {<<a * c - b * d, -T.f>>, <<a * d + b * c, -T.f>>}
                   ELSE {<<c * c, -T.f>>, <<d * d, -T.f>>, <<c * c + d * d, -T.f>>, <<a * c + b * d, -T.f>>, <<b * c - a * d, -T.f>>})
Inside(m, d) == \A q \in m : DLe(DInt(RawMin(T) + d), q) /\ DLe(q, DInt(RawMax(T) - d))
P2 == <<FPanic, FPanic>>
Panics == Done =>
    /\ (Ops[op] \in {"add", "sub", "conj"}) => (Verdict(P2) = IF Inside(Mid, 0) THEN BAD ELSE OK)
    /\ (Ops[op] = "mul" /\ Inside(Mid, 2)) => Verdict(P2) = BAD
    /\ (Ops[op] = "div" /\ y = <<0, 0>>) => Panicking /\ Verdict(<<<<0>>, <<0>>>>) = BAD /\ Verdict(<<<<1>>, <<0>>>>) = BAD
=============================================================================
