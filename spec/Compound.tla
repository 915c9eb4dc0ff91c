------------------------------ MODULE Compound ------------------------------
(***************************************************************************)
(* Compound assignment and real scalars (C02, C04).                         *)
(*                                                                          *)
(* The state of a history is the accumulator <<re, im>>, as logged values.  *)
(* An assignment event logs only the right operand; what the accumulator    *)
(* held before comes from the state, so a history is accepted only if it is *)
(* a fold of the binary operators.                                          *)
(***************************************************************************)
EXTENDS Complex, Conv

(* x op s for a real scalar s of type S; x a pair of logged values          *)
SOp(T, op, x, q) ==
    CASE op = "add" -> <<MAdd(T, x[1], q), x[2]>>
      [] op = "sub" -> <<MSub(T, x[1], q), x[2]>>
      [] op = "mul" -> <<MMul(T, x[1], q), MMul(T, x[2], q)>>
      [] op = "div" -> <<MDiv(T, x[1], q), MDiv(T, x[2], q)>>

IsZeroV(v) == v[1] = CNZero \/ (v[1] = CFin /\ v[3] = 0)
IsMaxV(T, v) == IsFin(v) /\ DEq(Dec(v), MaxQ(T))

(* outcome <<r1, r2>> of  x op s  allowed ?                                 *)
JudgeScalar(T, S, op, x, s, r1, r2) ==
    IF Hung(<<r1>>) THEN BAD
    ELSE IF op = "div" /\ IsZeroV(s) THEN Judge(IsMaxV(T, r1) /\ IsMaxV(T, r2))
    ELSE LET o == Conv(S, T, s) IN
         IF o.st = "panic" THEN Judge(IsPanic(r1))
         ELSE IF op = "div" /\ o.st = "val" /\ IsZero(o.q) THEN (IF IsFlt(T) /\ IsPanic(r1) THEN BAD ELSE FREE)
         ELSE LET res == AcceptAll(T, SOp(T, op, CQ(x[1], x[2]), OQ(o)), <<r1, r2>>) IN
              IF op \in {"add", "sub"} /\ ~IsPanic(r1) /\ r2 # x[2] THEN BAD ELSE res

(* x op y, y a cartesian number                                             *)
JudgeCart(T, op, x, y, r1, r2) ==
    IF Hung(<<r1>>) THEN BAD
    ELSE AcceptAll(T, CBin(T, op, CQ(x[1], x[2]), CQ(y[1], y[2])), <<r1, r2>>)

(* a real scalar, every form of the operator: ev.S its type, ev.a = <<re, im, s>>, ev.r the distinct outcomes *)
StepScalar(T, ev) ==
    IF ~OneOutcome(ev.r) THEN BAD
    ELSE JudgeScalar(T, ev.S, ev.k, <<ev.a[1], ev.a[2]>>, ev.a[3], ev.r[1], ev.r[2])

(* a polar number divided by (multiplied by) a scalar of its own type        *)
StepPolScalar(T, ev) ==
    IF Len(ev.r) # 2 \/ Hung(ev.r) THEN BAD
    ELSE LET m == ev.a[1]  g == ev.a[2]  s == ev.a[3] IN
         IF ~IsPanic(ev.r[1]) /\ ev.r[2] # g THEN BAD
         ELSE IF ev.k = "div" /\ IsZeroV(s) THEN Judge(IsMaxV(T, ev.r[1]))
         ELSE Accept(T, IF ev.k = "div" THEN MDiv(T, MVal(m), MVal(s))
                                        ELSE MMul(T, MVal(m), MVal(s)), ev.r[1])

(***************************************************************************)
(* acc op= rhs.   ev.r = <<re, im of acc afterwards, re, im of (copy op rhs)>> *)
(*   ev.rk = "c"  ev.a = <<y.re, y.im>>                                     *)
(*   ev.rk = "s"  ev.a = <<s>>, ev.S its type                               *)
(*   ev.rk = "p"  ev.a = <<mag, ang, c.re, c.im>>: polar operand and what   *)
(*                its conversion to cartesian returned                      *)
(* ev.p: the operand after the call, if it was passed by reference          *)
(***************************************************************************)
StepAssign(T, st, ev) ==
    LET r == ev.r
        same == r[1] = r[3] /\ r[2] = r[4]
        kept == \A i \in 1..Len(ev.p) : ev.p[i] = ev.a[i]
        v == IF ~same \/ ~kept THEN BAD
             ELSE IF ev.rk = "c" THEN JudgeCart(T, ev.k, st, ev.a, r[1], r[2])
             ELSE IF ev.rk = "s" THEN JudgeScalar(T, ev.S, ev.k, st, ev.a[1], r[1], r[2])
             ELSE IF IsPanic(ev.a[3]) THEN Judge(IsPanic(r[1]))
             ELSE JudgeCart(T, ev.k, st, <<ev.a[3], ev.a[4]>>, r[1], r[2])
    IN [v |-> v, s |-> IF IsPanic(r[1]) THEN st ELSE <<r[1], r[2]>>]
=============================================================================
