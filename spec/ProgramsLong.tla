---------------------------- MODULE ProgramsLong ----------------------------
(* Long pseudo-random histories: every step applies an operation that Programs!Next allows, or skips. *)
EXTENDS Programs, IOUtils
CONSTANT NProg
VARIABLE rnd
SeedNum == LET S == {n \in 0..99 : ToString(n) = IOEnv.VERIF_SEED} IN IF S = {} THEN 100 ELSE CHOOSE n \in S : TRUE
SeedOf(i) == (i * 7919 + SeedNum * 10473) % 65521
Lcg(x) == (x * 1103 + 12347) % 65521
OpList == <<<<"add", "c">>, <<"sub", "n">>, <<"mul", "p">>, <<"add", "s">>, <<"div", "s">>, <<"sub", "c">>, <<"add", "n">>,
           <<"div", "c">>, <<"sub", "s">>, <<"div", "n">>>>
ValSeq == <<-3, -2, -1, 0, 1, 2, 3, 5, 7>>
StartSeq == <<-5, -1, 0, 2, 6, 17, -40>>
Pick(seq, x) == seq[((x \div 7) % Len(seq)) + 1]
LInit == /\ \E i \in 1..NProg : LET x == SeedOf(i) IN
               /\ start = <<Pick(StartSeq, x), Pick(StartSeq, Lcg(x))>>
               /\ rnd = Lcg(Lcg(x))
         /\ acc = start /\ prog = <<>>
LNext == /\ Len(prog) < Depth
         /\ LET o == Pick(OpList, rnd)  r2 == Lcg(rnd)  r3 == Lcg(r2)
                p == <<o[1], o[2], IF o[2] = "p" THEN Abs(Pick(ValSeq, r2)) ELSE Pick(ValSeq, r2),
                       IF o[2] \in {"s", "p"} THEN 0 ELSE Pick(ValSeq, r3)>>
                y == Apply(acc, p)
            IN /\ rnd' = Lcg(r3)
               /\ IF Usable(y) THEN acc' = Val(y) /\ prog' = Append(prog, p) ELSE UNCHANGED <<acc, prog>>
         /\ UNCHANGED start
LSpec == LInit /\ [][LNext]_<<vars, rnd>>
=============================================================================
