--------------------------------- MODULE MC_Fmt ---------------------------------
(***************************************************************************)
(* Printing a complex number, one digit at a time: the digits of the first    *)
(* magnitude in the base of the notation, those of the second, the text put    *)
(* together, then padding one space at a time.  Every pair from small signed    *)
(* integer types in every positional notation, and fixed-point numbers as       *)
(* exact decimals; every combination of flags and some widths.  Checked:         *)
(* StepFmt (C21) allows the text; every other text of the neighbourhood (one     *)
(* character dropped, doubled or changed, one space more or less) is rejected,   *)
(* and so is a text that consistently shows another number.                      *)
(* Variant 1: the prefix only once; 2: plus flag ignored; 3: sign of the second  *)
(* part dropped when it is positive; 4: padding on the right; 5: padding also    *)
(* without std.                                                                  *)
(***************************************************************************)
EXTENDS Misc, Fxp, TLC
CONSTANTS Width, Variant

Types == {SInt(Width), [k |-> 0, w |-> Width, f |-> 0, s |-> 0]} \cup {Fix(Width, f) : f \in 1..(Width - 2)}
Some(t) == {x \in RawMin(t)..RawMax(t) : x % 5 = 2 \/ Abs(x) <= 1 \/ x \in {RawMin(t), RawMax(t), 10}}
VARIABLES T, a, o, part, n, frac, left, d, text, pc
vars == <<T, a, o, part, n, frac, left, d, text, pc>>
\* n: what is still to be written of the whole part (low digits first), frac: numerator of the fraction over 2^left
Opts == [n : {"", "x", "X", "o", "b"}, plus : {0, 1}, alt : {0, 1}, width : {-1, 0, 6, 13}, std : {0, 1}]
Init == /\ T \in Types
        /\ a \in Some(T) \X Some(T)
        /\ o \in {q \in Opts : (IsFix(T) => q.n = "") /\ (q.n # "" => q.plus = q.alt \/ q.width # 6)}
        /\ part = 1 /\ n = -1 /\ frac = 0 /\ left = 0 /\ d = <<<<>>, <<>>>> /\ text = <<>> /\ pc = "begin"
Keep == UNCHANGED <<T, a, o>>
Ch(v) == IF v < 10 THEN 48 + v ELSE (IF o.n = "X" THEN 55 ELSE 87) + v
Base == BaseOf(o.n)
Begin == /\ pc = "begin"
         /\ IF part > 2 THEN pc' = "text" /\ UNCHANGED <<n, frac, left>>
            ELSE n' = Abs(a[part]) \div 2^T.f /\ frac' = Abs(a[part]) % 2^T.f /\ left' = T.f /\ pc' = "whole"
         /\ UNCHANGED <<part, d, text>> /\ Keep
Whole == /\ pc = "whole"
         /\ d' = [d EXCEPT ![part] = <<Ch(n % Base)>> \o @]
         /\ n' = n \div Base
         /\ IF n' > 0 THEN UNCHANGED <<pc, part>>
            ELSE IF frac = 0 THEN pc' = "begin" /\ part' = part + 1 ELSE pc' = "point" /\ UNCHANGED part
         /\ UNCHANGED <<frac, left, text>> /\ Keep
Point == /\ pc = "point" /\ d' = [d EXCEPT ![part] = @ \o <<ChDot>>] /\ pc' = "fraction" /\ UNCHANGED <<part, n, frac, left, text>> /\ Keep
Fraction == /\ pc = "fraction"
            /\ d' = [d EXCEPT ![part] = @ \o <<48 + (10 * frac) \div 2^left>>]
            /\ frac' = (10 * frac) % 2^left
            /\ IF frac' = 0 THEN pc' = "begin" /\ part' = part + 1 ELSE UNCHANGED <<pc, part>>
            /\ UNCHANGED <<n, left, text>> /\ Keep
Text == /\ pc = "text"
        /\ text' = (IF a[1] < 0 THEN <<ChMinus>> ELSE IF o.plus = 1 /\ Variant # 2 THEN <<ChPlus>> ELSE <<>>)
                   \o Prefix(o.n, o.alt = 1) \o d[1]
                   \o (IF a[2] < 0 THEN <<ChMinus>> ELSE IF Variant = 3 THEN <<>> ELSE <<ChPlus>>)
                   \o (IF Variant = 1 THEN <<>> ELSE Prefix(o.n, o.alt = 1)) \o d[2] \o <<ChI>>
        /\ pc' = "pad" /\ UNCHANGED <<part, n, frac, left, d>> /\ Keep
Pad == /\ pc = "pad"
       /\ IF (o.std = 1 \/ Variant = 5) /\ Len(text) < o.width
          THEN text' = (IF Variant = 4 THEN text \o <<ChSpace>> ELSE <<ChSpace>> \o text) /\ UNCHANGED pc
          ELSE pc' = "done" /\ UNCHANGED text
       /\ UNCHANGED <<part, n, frac, left, d>> /\ Keep
Next == Begin \/ Whole \/ Point \/ Fraction \/ Text \/ Pad
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Done == pc = "done"
Terminates == <>Done
Ev(t, cr, ci) == [n |-> o.n, plus |-> o.plus, alt |-> o.alt, width |-> o.width, prec |-> -1, std |-> o.std, own |-> 0,
                  a |-> <<FEnc(T, <<a[1]>>), FEnc(T, <<a[2]>>)>>, r |-> <<<<CFin, 0, 0>>>>, p |-> <<>>, t |-> t, cr |-> cr, ci |-> ci]
Allowed == Done => StepFmt(T, Ev(text, d[1], d[2])) = OK
\* the smallest value is printed like any other
Prints == Done => StepFmt(T, [Ev(text, d[1], d[2]) EXCEPT !.r = <<<<CPanic>>>>]) = BAD
Del(s, k) == SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s))
Dup(s, k) == SubSeq(s, 1, k) \o SubSeq(s, k, Len(s))
Chg(s, k) == [s EXCEPT ![k] = IF @ = 57 THEN 48 ELSE @ + 1]
Unique == Done => /\ \A k \in 1..Len(text) : /\ StepFmt(T, Ev(Del(text, k), d[1], d[2])) = BAD
                                                     /\ StepFmt(T, Ev(Dup(text, k), d[1], d[2])) = BAD
                                                     /\ StepFmt(T, Ev(Chg(text, k), d[1], d[2])) = BAD
                         /\ StepFmt(T, Ev(text \o <<ChSpace>>, d[1], d[2])) = BAD
                         /\ StepFmt(T, Ev(<<ChSpace>> \o text, d[1], d[2])) = BAD
\* a wrong digit of the component, even when the text repeats it (fixed point: beyond the unit in which the element type prints)
Shows == Done /\ IsInt(T) => \A k \in 1..Len(d[1]) :
            LET cr == Chg(d[1], k)
                pos == Len(text) - (Len(d[1]) + Len(d[2]) + 2 + Len(Prefix(o.n, o.alt = 1))) + k
            IN StepFmt(T, Ev([text EXCEPT ![pos] = cr[k]], cr, d[2])) = BAD
ShowsDec == Done /\ IsFix(T) => LET whole == Chg(d[1], 1) IN
            ~DLe(DInt(1), U(T, 1)) => ~ComponentDec(T, FEnc(T, <<a[1]>>), "", -1, whole)
=============================================================================
