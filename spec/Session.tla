------------------------------- MODULE Session -------------------------------
(***************************************************************************)
(* C24: sessions.  The abstract state is a register file: two cartesian       *)
(* numbers z, w, two polar numbers p, q and two real numbers x, y, all as      *)
(* logged values, and the outcomes of the calls so far.  A call reads its      *)
(* operands from registers and writes its result to registers, so every        *)
(* result feeds the following calls.  A recorded session is accepted if        *)
(*   - the operands of every call are what the registers hold,                 *)
(*   - the outcome is one the relation of that call allows (C01 - C19),        *)
(*   - nothing but the declared target changes (frame condition),              *)
(*   - every concurrent run of the same session has the same outcomes.         *)
(* ev.i is the inner operation, ev.src and ev.dst the registers, ev.m the      *)
(* contents of all registers afterwards.                                       *)
(***************************************************************************)
EXTENDS Misc

RegNames == <<"z", "w", "p", "q", "x", "y">>
Lo(g) == CASE g = "z" -> 1 [] g = "w" -> 3 [] g = "p" -> 5 [] g = "q" -> 7 [] g = "x" -> 9 [] g = "y" -> 10
Wd(g) == IF g \in {"x", "y"} THEN 1 ELSE 2

RECURSIVE Gather(_, _)
Gather(regs, src) == IF src = <<>> THEN <<>>
                     ELSE SubSeq(regs, Lo(Head(src)), Lo(Head(src)) + Wd(Head(src)) - 1) \o Gather(regs, Tail(src))
Put(regs, g, v) == [i \in 1..10 |-> IF i >= Lo(g) /\ i < Lo(g) + Wd(g) THEN v[i - Lo(g) + 1] ELSE regs[i]]
RECURSIVE Scatter(_, _, _)
Scatter(regs, dst, r) ==
    IF dst = <<>> THEN regs
    ELSE Scatter(Put(regs, Head(dst), SubSeq(r, 1, Wd(Head(dst)))), Tail(dst), SubSeq(r, Wd(Head(dst)) + 1, Len(r)))

\* the verdict of the inner operation
Inner(T, regs, ev) ==
    LET i == ev.i  e == [ev EXCEPT !.o = ev.i] IN
    CASE i \in {"add", "sub", "mul", "div"} -> StepBin(T, i, e)
      [] i = "conj" -> StepConj(T, e)
      [] i = "asg" -> LET n == Len(ev.a) IN StepAssign(T, SubSeq(ev.a, 1, 2), [e EXCEPT !.a = SubSeq(ev.a, 3, n)]).v
      [] i = "scal" -> StepScalar(T, e)
      [] i = "pscal" -> StepPolScalar(T, e)
      [] i = "pol" -> StepPolar(T, e)
      [] i = "cart" -> StepCart(T, e)
      [] i = "pmul" -> StepPMul(T, e)
      [] i = "pmix" -> StepPMix(T, e)
      [] i = "cmix" -> StepCMix(T, e)
      [] i = "pconj" -> StepPConj(T, e)
      [] i = "mv" -> Judge(ev.r = <<ev.a[ev.f]>>)
      [] i = "swap" -> Judge(LET n == Len(ev.a) \div 2 IN ev.r = SubSeq(ev.a, n + 1, 2 * n) \o SubSeq(ev.a, 1, n))
      [] i = "new" -> Judge(ev.r = ev.a)
      [] i = "wrap" -> StepWrap(T, e)
      [] i \in {"sqrt", "niirf"} -> StepSqrt(T, e)
      [] i = "sincos" -> StepSinCos(T, e)
      [] i = "atan2" -> StepAtan2(T, e)
      [] i = "patan2" -> StepAtan2Poly(T, e)
      [] i \in {"psin", "pcos"} -> StepSinPoly(T, e)
      [] i = "fn1" -> StepFn1(T, e)
      [] i \in {"powi", "tpowi"} -> StepPowI(T, e)
      [] i = "cpow" -> StepCPow(T, e)
      [] i = "cexp" -> StepCExp(T, e)
      [] i = "abs" -> StepAbs(T, e)
      [] i = "sign" -> StepSign(T, e)
      [] i = "cmp" -> StepCmp(T, e)

Failed(ev) == ev.i # "cmp" /\ Len(ev.r) > 0 /\ (IsPanic(ev.r[1]) \/ IsHang(ev.r[1]))
NewRegs(regs, ev) == IF Failed(ev) THEN regs ELSE Scatter(regs, ev.dst, ev.r)

\* constants follow the registers among the operands
OperandsOK(regs, ev) == LET g == Gather(regs, ev.src) IN Len(ev.a) >= Len(g) /\ SubSeq(ev.a, 1, Len(g)) = g

StepSession(T, st, ev) ==
    IF ev.i = "init" THEN [v |-> FREE, s |-> [regs |-> ev.a, past |-> <<>>]]
    ELSE IF ev.i = "again"
    THEN [v |-> Judge(ev.r = <<>> /\ Len(ev.th) > 0 /\ \A k \in 1..Len(ev.th) : ev.th[k] = st.past), s |-> st]
    ELSE IF ev.i # "cmp" /\ Len(ev.r) > 0 /\ IsHang(ev.r[1]) THEN [v |-> BAD, s |-> st]
    ELSE LET regs == NewRegs(st.regs, ev)
         IN [v |-> IF ~OperandsOK(st.regs, ev) \/ ev.m # regs THEN BAD ELSE Inner(T, st.regs, ev),
             s |-> [regs |-> IF Len(ev.m) = 10 THEN ev.m ELSE st.regs, past |-> Append(st.past, ev.r)]]
=============================================================================
