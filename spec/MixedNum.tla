------------------------------ MODULE MixedNum ------------------------------
(* The whole specification: what any public call of mixed_num may do.       *)
EXTENDS Session

(* s: the abstract state carried along a history (see Compound)             *)
Init0(hdr) == <<>>
Stateless(st, v) == [v |-> v, s |-> st]

Step(hdr, st, ev) ==
    LET T == hdr.T  o == ev.o IN
    CASE o \in {"add", "sub", "mul", "div"} -> Stateless(st, StepBin(T, o, ev))
      [] o = "conj" -> Stateless(st, StepConj(T, ev))
      [] o = "set" -> [v |-> FREE, s |-> <<ev.a[1], ev.a[2]>>]
      [] o = "asg" -> StepAssign(T, st, ev)
      [] o = "ses" -> StepSession(T, st, ev)
      [] o = "scal" -> Stateless(st, StepScalar(T, ev))
      [] o = "pscal" -> Stateless(st, StepPolScalar(T, ev))
      [] o = "pol" -> Stateless(st, StepPolar(T, ev))
      [] o = "wrap" -> Stateless(st, StepWrap(T, ev))
      [] o \in {"sqrt", "niirf", "niirfn"} -> Stateless(st, StepSqrt(T, ev))
      [] o = "atan2" -> Stateless(st, StepAtan2(T, ev))
      [] o = "atan" -> Stateless(st, StepAtan(T, ev))
      [] o = "patan2" -> Stateless(st, StepAtan2Poly(T, ev))
      [] o = "patan" -> Stateless(st, StepAtanPoly(T, ev))
      [] o \in {"psin", "pcos"} -> Stateless(st, StepSinPoly(T, ev))
      [] o = "sincos" -> Stateless(st, StepSinCos(T, ev))
      [] o = "tan" -> Stateless(st, StepTan(T, ev))
      [] o \in {"asin", "acos"} -> Stateless(st, StepArc(T, ev))
      [] o = "cart" -> Stateless(st, StepCart(T, ev))
      [] o = "pmul" -> Stateless(st, StepPMul(T, ev))
      [] o = "pmix" -> Stateless(st, StepPMix(T, ev))
      [] o = "cmix" -> Stateless(st, StepCMix(T, ev))
      [] o = "pconj" -> Stateless(st, StepPConj(T, ev))
      [] o = "pget" -> Stateless(st, StepPGet(T, ev))
      [] o = "fn1" -> Stateless(st, StepFn1(T, ev))
      [] o = "pow" -> Stateless(st, StepPow(T, ev))
      [] o = "db" -> Stateless(st, StepDb(T, ev))
      [] o \in {"powi", "tpowi"} -> Stateless(st, StepPowI(T, ev))
      [] o = "cpow" -> Stateless(st, StepCPow(T, ev))
      [] o = "cexp" -> Stateless(st, StepCExp(T, ev))
      [] o = "convto" -> Stateless(st, StepConvTo(T, ev.S, ev))
      [] o = "cconv" -> Stateless(st, StepCConv(T, ev))
      [] o = "ctor" -> Stateless(st, StepCtor(T, ev))
      [] o = "sign" -> Stateless(st, StepSign(T, ev))
      [] o = "abs" -> Stateless(st, StepAbs(T, ev))
      [] o = "pred" -> Stateless(st, StepPred(T, ev))
      [] o = "const" -> Stateless(st, StepConst(T, ev))
      [] o = "round" -> Stateless(st, StepRoundTo(T, ev))
      [] o = "fmt" -> Stateless(st, StepFmt(T, ev))
      [] o = "fmtp" -> Stateless(st, StepFmtPolar(T, ev))
      [] o = "any" -> Stateless(st, StepAny(T, ev))
      [] o = "cmp" -> Stateless(st, StepCmp(T, ev))
      [] o = "conv" -> Stateless(st, StepConv(ev.S, T, ev))
=============================================================================
