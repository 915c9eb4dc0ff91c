---------------------------------- MODULE Misc ----------------------------------
(***************************************************************************)
(* Conversions (C17, C18), signs, limits and constants (C19), printing      *)
(* (C21), totality (C22), comparison (C23).                                  *)
(***************************************************************************)
EXTENDS Powers

(***************************************************************************)
(* C17: ev.S is the other type.  "conv" converts S to T, "convto" T to S     *)
(***************************************************************************)
StepConvTo(T, S, ev) == StepConv(T, S, ev)

(***************************************************************************)
(* C18: two components, one call                                             *)
(***************************************************************************)
OZero == OVal(DZero, FALSE)
Pair(o1, o2, r) ==
    Judge(/\ Len(r) = 2
          /\ IF o1.st = "panic" \/ o2.st = "panic" THEN IsPanic(r[1]) /\ IsPanic(r[2])
             ELSE OMatches(o1, r[1]) /\ OMatches(o2, r[2]))
StepCConv(T, ev) ==
    LET S == ev.S  a == ev.a IN
    CASE ev.f = "c2c"   -> Pair(Conv(S, T, a[1]), Conv(S, T, a[2]), ev.r)   \* Cartesian<S> to Cartesian<T>
      [] ev.f = "c2cto" -> Pair(Conv(T, S, a[1]), Conv(T, S, a[2]), ev.r)   \* Cartesian<T> to Cartesian<S>
      [] ev.f = "r2c"   -> Pair(Conv(T, S, a[1]), OZero, ev.r)              \* real T to Cartesian<S>
      [] ev.f = "c2r"   -> Judge(Len(ev.r) = 1 /\ OMatches(Conv(S, T, a[1]), ev.r[1]))   \* Cartesian<S> to real T
      [] ev.f = "r2p"   -> Pair(Conv(S, T, a[1]), OZero, ev.r)              \* real S to Polar<T>
      [] ev.f = "c2p"   -> Pair(Conv(S, T, a[1]), OZero, ev.r)              \* Cartesian<S> to Polar<T>
      [] ev.f = "p2c"   -> Pair(Conv(T, S, a[1]), OZero, ev.r)              \* Polar<T> to Cartesian<S>
      [] ev.f = "p2r"   -> Judge(Len(ev.r) = 1 /\ OMatches(Conv(T, S, a[1]), ev.r[1]))   \* Polar<T> to real S
\* constructors: stored as given
StepCtor(T, ev) ==
    LET z == <<CFin, 0, 0>>  one(v) == IsFin(v) /\ DEq(Dec(v), DInt(1)) IN
    Judge(/\ Len(ev.r) = 2
          /\ CASE ev.f = "new"  -> ev.r = ev.a
               [] ev.f = "real" -> ev.r[1] = ev.a[1] /\ ev.r[2] = z
               [] ev.f = "zero" -> ev.r[1] = z /\ ev.r[2] = z
               [] ev.f = "one"  -> one(ev.r[1]) /\ ev.r[2] = z)

(***************************************************************************)
(* C19                                                                       *)
(***************************************************************************)
ExactV(v, q) == IsFin(v) /\ DEq(Dec(v), q)
StepSign(T, ev) ==
    LET v == ev.a[1]  w == ev.r[1] IN
    IF Len(ev.r) # 1 \/ IsPanic(w) \/ IsHang(w) THEN BAD
    ELSE IF IsNaN(v) THEN FREE
    ELSE Judge(ExactV(w, DInt(IF IsNInf(v) \/ (IsFin(v) /\ IsNeg(Dec(v))) THEN -1 ELSE 1)))
StepAbs(T, ev) ==
    LET v == ev.a[1]  w == ev.r[1] IN
    IF Len(ev.r) # 1 \/ IsHang(w) THEN BAD
    ELSE IF IsNaN(v) THEN Judge(IsNaN(w))
    ELSE IF IsInf(v) THEN Judge(IsPInf(w))
    ELSE IF ~Fits(T, DAbs(Dec(v))) THEN Judge(IsPanic(w))
    ELSE Judge(ExactV(w, DAbs(Dec(v))) /\ w[1] = CFin)
StepPred(T, ev) ==          \* ev.r = <<is_positive, is_negative>> as 0/1
    LET v == ev.a[1]  pos == ev.r[1] = 1  neg == ev.r[2] = 1 IN
    IF Len(ev.r) # 2 THEN BAD
    ELSE IF ~IsFlt(T) /\ T.s = 0 THEN Judge(pos /\ ~neg)
    ELSE IF IsNaN(v) THEN Judge(~(pos /\ neg))
    ELSE IF IsFin(v) /\ IsZero(Dec(v)) THEN Judge(~(pos /\ neg))
    ELSE LET n == IsNInf(v) \/ (IsFin(v) /\ IsNeg(Dec(v))) IN Judge(pos = ~n /\ neg = n)
\* a constant of the type, or a panic when it does not fit
ConstOK(T, v, q, tol) ==
    IF ~IsFlt(T) /\ ~Fits(T, q) THEN (IsPanic(v) \/ (Fits(T, DSub(q, tol)) /\ IsFin(v) /\ DLe(DAbs(DSub(Dec(v), q)), tol)))
    ELSE IsFin(v) /\ DLe(DAbs(DSub(Dec(v), q)), tol)
PiTol(T) == IF IsFlt(T) THEN DPow2(1 - Prec(T)) ELSE DAdd(UQ(T, 2), PiSlack)
StepConst(T, ev) ==
    LET q == CASE ev.f = "max" -> MaxQ(T) [] ev.f = "min" -> MinQ(T) [] ev.f = "zero" -> DZero
               [] ev.f = "one" -> DInt(1) [] ev.f = "pi" -> DPi [] ev.f = "tau" -> DScale(DPi, 1)
        tol == CASE ev.f = "pi" -> (IF IsFlt(T) THEN DScale(<<1, -Prec(T)>>, 1) ELSE PiTol(T))
                 [] ev.f = "tau" -> (IF IsFlt(T) THEN DScale(<<1, -Prec(T)>>, 2) ELSE DAdd(UQ(T, 2), DScale(PiSlack, 1)))
                 [] OTHER -> DZero
    IN Judge(Len(ev.r) = 1 /\ ConstOK(T, ev.r[1], q, tol))
StepRoundTo(T, ev) ==
    LET v == ev.a[1]  w == ev.r[1] IN
    IF Len(ev.r) # 1 \/ IsPanic(w) \/ IsHang(w) THEN BAD
    ELSE IF ~IsFin(v) THEN Judge(w = v)
    ELSE Judge(ExactV(w, DInt(IF ev.f = "floor" THEN DFloor(Dec(v)) ELSE DCeil(Dec(v)))))

(***************************************************************************)
(* C21: strings are sequences of character codes                             *)
(***************************************************************************)
ChMinus == 45
ChPlus == 43
ChI == 105
ChAngle == 8736
ChSpace == 32
IsNegV(v) == IsNInf(v) \/ (IsFin(v) /\ IsNeg(Dec(v)))
Prefix(nota, alt) ==
    IF ~alt THEN <<>>
    ELSE CASE nota \in {"x", "X"} -> <<48, 120>> [] nota = "o" -> <<48, 111>> [] nota = "b" -> <<48, 98>> [] OTHER -> <<>>
(* the digits of a natural number in base b                                  *)
DigitVal(c) == IF c >= 48 /\ c <= 57 THEN c - 48 ELSE IF c >= 97 /\ c <= 102 THEN c - 87 ELSE IF c >= 65 /\ c <= 70 THEN c - 55 ELSE -1
RECURSIVE ParseNat(_, _, _, _)
ParseNat(s, i, b, acc) == IF i > Len(s) THEN acc ELSE ParseNat(s, i + 1, b, acc * b + DigitVal(s[i]))
IsDigits(s, b) == Len(s) > 0 /\ \A i \in 1..Len(s) : DigitVal(s[i]) >= 0 /\ DigitVal(s[i]) < b
CaseOK(s, nota) == \A i \in 1..Len(s) : IF nota = "x" THEN s[i] \notin 65..70 ELSE IF nota = "X" THEN s[i] \notin 97..102 ELSE TRUE
BaseOf(nota) == CASE nota = "" -> 10 [] nota \in {"x", "X"} -> 16 [] nota = "o" -> 8 [] nota = "b" -> 2 [] OTHER -> 0
(* integer components in positional notation                                *)
ComponentInt(v, nota, s) ==
    /\ IsDigits(s, BaseOf(nota)) /\ CaseOK(s, nota) /\ (Len(s) > 1 => s[1] # 48)
    /\ DEq(DInt(ParseNat(s, 1, BaseOf(nota), 0)), DAbs(Dec(v)))
(* decimal text  [-]ddd[.ddd][(e|E)[-]dd]  as the number  n * 10^k            *)
IndexOf(s, set) == LET P == {i \in 1..Len(s) : s[i] \in set} IN IF P = {} THEN 0 ELSE CHOOSE i \in P : \A j \in P : i <= j
ChDot == 46
DecimalText(s) ==
    LET ie == IndexOf(s, {101, 69})
        mant == IF ie = 0 THEN s ELSE SubSeq(s, 1, ie - 1)
        ex == IF ie = 0 THEN <<48>> ELSE SubSeq(s, ie + 1, Len(s))
        eneg == Len(ex) > 0 /\ ex[1] = ChMinus
        exd == IF eneg THEN Tail(ex) ELSE ex
        id == IndexOf(mant, {ChDot})
        ip == IF id = 0 THEN mant ELSE SubSeq(mant, 1, id - 1)
        fp == IF id = 0 THEN <<>> ELSE SubSeq(mant, id + 1, Len(mant))
        ok == IsDigits(ip, 10) /\ (id > 0 => IsDigits(fp, 10)) /\ IsDigits(exd, 10)
    IN IF ~ok THEN [ok |-> FALSE]
       ELSE [ok |-> TRUE, e |-> ie > 0, up |-> ie > 0 /\ s[ie] = 69, nip |-> Len(ip), nfp |-> Len(fp), dot |-> id > 0,
             n |-> ParseNat(ip \o fp, 1, 10, 0),
             k |-> (IF eneg THEN -ParseNat(exd, 1, 10, 0) ELSE ParseNat(exd, 1, 10, 0)) - Len(fp)]
(* |n * 10^k - q| <= tol * 10^tk ; all scaled by 10^m to stay exact           *)
Scale10(q, m) == DMul(q, DInt(10 ^ m))
NearDec(d, q, tol, tk) ==
    LET lo == IF d.k < tk THEN d.k ELSE tk
        m == IF lo < 0 THEN -lo ELSE 0
    IN DLe(DAbs(DSub(DInt(d.n * 10 ^ (d.k + m)), Scale10(q, m))), Scale10(DMul(tol, DInt(10 ^ (tk + m))), 0))
\* (the fixed crate's own formatting is off by up to a unit, even with a precision)
HalfUlp(T, q) == IF ~IsFlt(T) THEN U(T, 1) ELSE IF IsZero(q) THEN DZero
                 ELSE DPow2(Max2(DLog2(q) - Prec(T) + 1, EMin(T)) - 1)
(* float and fixed-point components: the decimal text is the number, to the   *)
(* requested number of digits, or closely enough to identify it               *)
ComponentDec(T, v, nota, prec, s) ==
    LET d == DecimalText(s)  q == DAbs(Dec(v)) IN
    /\ d.ok
    /\ d.e = (nota # "") /\ (d.e => d.up = (nota = "E"))
    /\ (prec >= 0 => d.nfp = prec)
    /\ (d.e => d.nip = 1)
    /\ IF prec < 0 THEN NearDec(d, q, HalfUlp(T, q), 0)
       ELSE NearDec(d, q, DScale(DInt(1), -1), d.k) \/ (IsFix(T) /\ NearDec(d, q, U(T, 1), 0))
ComponentOK(T, v, nota, prec, s) ==
    IF ~IsFin(v) THEN IF IsNaN(v) THEN s = <<78, 97, 78>> ELSE s = <<105, 110, 102>>
    ELSE IF IsInt(T) /\ BaseOf(nota) > 0 THEN ComponentInt(v, nota, s)
    ELSE IF nota \in {"", "e", "E"}
         THEN ComponentDec(T, v, nota, prec, IF v[1] = CNZero /\ Len(s) > 0 /\ s[1] = ChMinus THEN Tail(s) ELSE s)
    ELSE TRUE
(* equal values; a NaN is a NaN, and the sign of a zero printed as -0 survives *)
SameV(a, b) == a = b \/ (IsFin(a) /\ IsFin(b) /\ DEq(Dec(a), Dec(b)))
Spaces(n) == [i \in 1..(IF n > 0 THEN n ELSE 0) |-> ChSpace]
(* ev: n notation, plus, alt 0/1, width (-1: none), std 0/1; cr, ci the        *)
(* component magnitudes as the element type prints them, t the text           *)
StepFmt(T, ev) ==
    LET re == ev.a[1]  im == ev.a[2]
        sign == IF IsNegV(re) THEN <<ChMinus>> ELSE IF ev.plus = 1 THEN <<ChPlus>> ELSE <<>>
        pre == Prefix(ev.n, ev.alt = 1)
        body == sign \o pre \o ev.cr \o <<IF IsNegV(im) THEN ChMinus ELSE ChPlus>> \o pre \o ev.ci \o <<ChI>>
        text == IF ev.std = 1 THEN Spaces(ev.width - Len(body)) \o body ELSE body
        may == ev.own = 1         \* its own type can not print a component
    IN IF Len(ev.r) # 1 THEN BAD
       ELSE IF may THEN Judge(IsPanic(ev.r[1]))
       ELSE Judge(/\ ~IsPanic(ev.r[1]) /\ ~IsHang(ev.r[1])
                  /\ ev.t = text
                  /\ ComponentOK(T, re, ev.n, ev.prec, ev.cr) /\ ComponentOK(T, im, ev.n, ev.prec, ev.ci)
                  \* parsing the decimal text of a float gives the number back
                  /\ (Len(ev.p) = 2 => SameV(ev.p[1], re) /\ SameV(ev.p[2], im)))
StepFmtPolar(T, ev) ==
    IF Len(ev.r) # 1 THEN BAD
    ELSE Judge(~IsPanic(ev.r[1]) /\ ~IsHang(ev.r[1]) /\ ev.t = ev.cr \o <<ChAngle>> \o ev.ci)

(***************************************************************************)
(* C22: any bits; the call returns, and returns the same again               *)
(***************************************************************************)
StepAny(T, ev) ==
    Judge(/\ \A i \in 1..Len(ev.r) : ~IsHang(ev.r[i]) /\ (IsFlt(T) => ~IsPanic(ev.r[i]))
          /\ ev.r = ev.p)

(***************************************************************************)
(* C23: comparison of complex numbers is by components, first component      *)
(* first; ev.r = <<eq, ne, ord, lt, le, gt, ge>>,                            *)
(* ord: -1, 0, 1, or 2 when they do not compare                               *)
(***************************************************************************)
Rank(v) == IF IsNInf(v) THEN -1 ELSE IF IsPInf(v) THEN 1 ELSE 0
CmpV(a, b) ==
    IF IsNaN(a) \/ IsNaN(b) THEN 2
    ELSE IF Rank(a) # Rank(b) THEN (IF Rank(a) < Rank(b) THEN -1 ELSE 1)
    ELSE IF Rank(a) # 0 THEN 0
    ELSE IF DLt(Dec(a), Dec(b)) THEN -1 ELSE IF DLt(Dec(b), Dec(a)) THEN 1 ELSE 0
StepCmp(T, ev) ==
    LET c1 == CmpV(ev.a[1], ev.a[3])  c2 == CmpV(ev.a[2], ev.a[4])
        eq == c1 = 0 /\ c2 = 0
        c == IF c1 # 0 THEN c1 ELSE c2
        b(x) == IF x THEN 1 ELSE 0
    IN Judge(ev.r = <<b(eq), b(~eq), c, b(c = -1), b(c \in {-1, 0}), b(c = 1), b(c \in {0, 1})>>)
=============================================================================
