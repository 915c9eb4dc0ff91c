------------------------------- MODULE Complex -------------------------------
(***************************************************************************)
(* Cartesian complex arithmetic on machine element types (C01 - C04).       *)
(* A machine complex number is a pair <<re, im>> of machine quantities.      *)
(***************************************************************************)
EXTENDS Mach

CQ(re, im) == <<MVal(re), MVal(im)>>

CAdd(T, x, y) == <<MAdd(T, x[1], y[1]), MAdd(T, x[2], y[2])>>
CSub(T, x, y) == <<MSub(T, x[1], y[1]), MSub(T, x[2], y[2])>>
CMul(T, x, y) == <<MSub(T, MMul(T, x[1], y[1]), MMul(T, x[2], y[2])),
                   MAdd(T, MMul(T, x[1], y[2]), MMul(T, x[2], y[1]))>>
CConj(T, x)   == <<x[1], MNeg(T, x[2])>>
CSqr(T, x)    == MAdd(T, MMul(T, x[1], x[1]), MMul(T, x[2], x[2]))
CDiv(T, x, y) == LET d == CSqr(T, y) IN
    <<MDiv(T, MAdd(T, MMul(T, x[1], y[1]), MMul(T, x[2], y[2])), d),
      MDiv(T, MSub(T, MMul(T, x[2], y[1]), MMul(T, x[1], y[2])), d)>>

(* an operator by name *)
CBin(T, op, x, y) == CASE op = "add" -> CAdd(T, x, y)
                       [] op = "sub" -> CSub(T, x, y)
                       [] op = "mul" -> CMul(T, x, y)
                       [] op = "div" -> CDiv(T, x, y)

(***************************************************************************)
(* One logged evaluation of  x op y  in every form the library offers.      *)
(*   ev.a = <<x.re, x.im, y.re, y.im>>                                      *)
(*   ev.r = <<re1, im1, re2, im2, ...>>   the distinct outcomes of the forms *)
(*   ev.p = the right operand after the calls that take it by reference     *)
(* All forms give the same outcome, and it is one the relation allows.      *)
(***************************************************************************)
OneOutcome(r) == Len(r) = 2
Unchanged(ev) == \A i \in 1..(Len(ev.p) \div 2) : ev.p[2*i - 1] = ev.a[3] /\ ev.p[2*i] = ev.a[4]

StepBin(T, op, ev) ==
    IF ~OneOutcome(ev.r) \/ ~Unchanged(ev) THEN BAD
    ELSE AcceptAll(T, CBin(T, op, CQ(ev.a[1], ev.a[2]), CQ(ev.a[3], ev.a[4])), <<ev.r[1], ev.r[2]>>)

StepConj(T, ev) ==
    IF ~OneOutcome(ev.r) THEN BAD
    ELSE AcceptAll(T, CConj(T, CQ(ev.a[1], ev.a[2])), <<ev.r[1], ev.r[2]>>)
=============================================================================
