------------------------------- MODULE Sessions -------------------------------
(***************************************************************************)
(* Generates the sessions of C24.  Each action of the register machine is     *)
(* known by what it reads and writes.  Depth 2 and 3: every chain in which     *)
(* each call reads a register the one before wrote (all def-use pairs,         *)
(* triples), checked to cover every action as a reader and as a writer.        *)
(* Long sessions: a pseudo-random walk in which every call reads something      *)
(* written since the start, so that no result is dead on arrival.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, IOUtils
CONSTANTS Depth, NLong, LongDepth

Acts == <<
  [n |-> "add:z:w", rd |-> {"z", "w"}, wr |-> {"z"}],
  [n |-> "add:w:z", rd |-> {"z", "w"}, wr |-> {"w"}],
  [n |-> "sub:z:w", rd |-> {"z", "w"}, wr |-> {"z"}],
  [n |-> "sub:w:z", rd |-> {"z", "w"}, wr |-> {"w"}],
  [n |-> "mul:z:w", rd |-> {"z", "w"}, wr |-> {"z"}],
  [n |-> "mul:w:z", rd |-> {"z", "w"}, wr |-> {"w"}],
  [n |-> "div:z:w", rd |-> {"z", "w"}, wr |-> {"z"}],
  [n |-> "div:w:z", rd |-> {"z", "w"}, wr |-> {"w"}],
  [n |-> "asg-add:z:w", rd |-> {"z", "w"}, wr |-> {"z"}],
  [n |-> "asg-sub:z:w", rd |-> {"z", "w"}, wr |-> {"z"}],
  [n |-> "asg-div:z:w", rd |-> {"z", "w"}, wr |-> {"z"}],
  [n |-> "asg-sub:w:w", rd |-> {"w"}, wr |-> {"w"}],
  [n |-> "asgp:z:p", rd |-> {"z", "p"}, wr |-> {"z"}],
  [n |-> "asgp:w:q", rd |-> {"w", "q"}, wr |-> {"w"}],
  [n |-> "asgs-add:z:i32", rd |-> {"z"}, wr |-> {"z"}],
  [n |-> "asgs-sub:z:f64", rd |-> {"z"}, wr |-> {"z"}],
  [n |-> "asgs-div:z:i16", rd |-> {"z"}, wr |-> {"z"}],
  [n |-> "asgs-div:z:f32", rd |-> {"z"}, wr |-> {"z"}],
  [n |-> "scal-mul:w:f64", rd |-> {"w"}, wr |-> {"w"}],
  [n |-> "scal-div:w:i32", rd |-> {"w"}, wr |-> {"w"}],
  [n |-> "scal-mul:w:u8", rd |-> {"w"}, wr |-> {"w"}],
  [n |-> "scal-add:w:f32", rd |-> {"w"}, wr |-> {"w"}],
  [n |-> "conj:z", rd |-> {"z"}, wr |-> {"z"}],
  [n |-> "conj:w", rd |-> {"w"}, wr |-> {"w"}],
  [n |-> "pol:z:p", rd |-> {"z"}, wr |-> {"p"}],
  [n |-> "pol:w:q", rd |-> {"w"}, wr |-> {"q"}],
  [n |-> "pol:z:q", rd |-> {"z"}, wr |-> {"q"}],
  [n |-> "cart:p:z", rd |-> {"p"}, wr |-> {"z"}],
  [n |-> "cart:q:w", rd |-> {"q"}, wr |-> {"w"}],
  [n |-> "cart:q:z", rd |-> {"q"}, wr |-> {"z"}],
  [n |-> "pmul:p:q", rd |-> {"p", "q"}, wr |-> {"p"}],
  [n |-> "pmul:q:p", rd |-> {"p", "q"}, wr |-> {"q"}],
  [n |-> "pmul:p:p", rd |-> {"p"}, wr |-> {"p"}],
  [n |-> "pmix:p:z", rd |-> {"p", "z"}, wr |-> {"p"}],
  [n |-> "pmix:q:w", rd |-> {"q", "w"}, wr |-> {"q"}],
  [n |-> "cmix:z:p", rd |-> {"z", "p"}, wr |-> {"z"}],
  [n |-> "cmix:w:p", rd |-> {"w", "p"}, wr |-> {"w"}],
  [n |-> "pconj:p", rd |-> {"p"}, wr |-> {"p"}],
  [n |-> "pconj:q", rd |-> {"q"}, wr |-> {"q"}],
  [n |-> "pscal-mul:p:x", rd |-> {"p", "x"}, wr |-> {"p"}],
  [n |-> "pscal-div:p:x", rd |-> {"p", "x"}, wr |-> {"p"}],
  [n |-> "pscal-div:q:y", rd |-> {"q", "y"}, wr |-> {"q"}],
  [n |-> "mv:z:1:x", rd |-> {"z"}, wr |-> {"x"}],
  [n |-> "mv:z:2:y", rd |-> {"z"}, wr |-> {"y"}],
  [n |-> "mv:w:1:y", rd |-> {"w"}, wr |-> {"y"}],
  [n |-> "mv:p:1:x", rd |-> {"p"}, wr |-> {"x"}],
  [n |-> "mv:p:2:y", rd |-> {"p"}, wr |-> {"y"}],
  [n |-> "mv:q:2:x", rd |-> {"q"}, wr |-> {"x"}],
  [n |-> "mv:q:1:y", rd |-> {"q"}, wr |-> {"y"}],
  [n |-> "swap:z:w", rd |-> {"z", "w"}, wr |-> {"z", "w"}],
  [n |-> "swap:p:q", rd |-> {"p", "q"}, wr |-> {"p", "q"}],
  [n |-> "swap:x:y", rd |-> {"x", "y"}, wr |-> {"x", "y"}],
  [n |-> "new:z", rd |-> {"x", "y"}, wr |-> {"z"}],
  [n |-> "pnew:p", rd |-> {"x", "y"}, wr |-> {"p"}],
  [n |-> "pnew:q", rd |-> {"x", "y"}, wr |-> {"q"}],
  [n |-> "wrap:x", rd |-> {"x"}, wr |-> {"x"}],
  [n |-> "wrap:y", rd |-> {"y"}, wr |-> {"y"}],
  [n |-> "sqrt:x", rd |-> {"x"}, wr |-> {"x"}],
  [n |-> "niirf:y", rd |-> {"y"}, wr |-> {"y"}],
  [n |-> "sincos:x", rd |-> {"x"}, wr |-> {"x", "y"}],
  [n |-> "atan2:y", rd |-> {"x", "y"}, wr |-> {"y"}],
  [n |-> "patan2:x", rd |-> {"x", "y"}, wr |-> {"x"}],
  [n |-> "psin:x:y", rd |-> {"x"}, wr |-> {"y"}],
  [n |-> "pcos:y:x", rd |-> {"y"}, wr |-> {"x"}],
  [n |-> "exp:x", rd |-> {"x"}, wr |-> {"x"}],
  [n |-> "exp:y", rd |-> {"y"}, wr |-> {"y"}],
  [n |-> "powi:x:2", rd |-> {"x"}, wr |-> {"x"}],
  [n |-> "powi:x:3", rd |-> {"x"}, wr |-> {"x"}],
  [n |-> "powi:x:-1", rd |-> {"x"}, wr |-> {"x"}],
  [n |-> "powi:x:-2", rd |-> {"x"}, wr |-> {"x"}],
  [n |-> "tpowi:y:3", rd |-> {"y"}, wr |-> {"y"}],
  [n |-> "cpow:z:2", rd |-> {"z"}, wr |-> {"z"}],
  [n |-> "cpow:w:3", rd |-> {"w"}, wr |-> {"w"}],
  [n |-> "cexp:z", rd |-> {"z"}, wr |-> {"z"}],
  [n |-> "cexp:w", rd |-> {"w"}, wr |-> {"w"}],
  [n |-> "abs:x", rd |-> {"x"}, wr |-> {"x"}],
  [n |-> "abs:y", rd |-> {"y"}, wr |-> {"y"}],
  [n |-> "sign:y", rd |-> {"y"}, wr |-> {"y"}],
  [n |-> "cmp:z:w", rd |-> {"z", "w"}, wr |-> {}]
  >>
N == Len(Acts)
VARIABLES prog, walk, rnd, fresh
vars == <<prog, walk, rnd, fresh>>
SeedNum == LET S == {n \in 0..99 : ToString(n) = IOEnv.VERIF_SEED} IN IF S = {} THEN 100 ELSE CHOOSE n \in S : TRUE
Lcg(v) == (v * 1103 + 12347) % 65521
Reads(i, s) == Acts[i].rd \cap s # {}

Init ==
    /\ walk \in 0..NLong
    /\ IF walk = 0 THEN prog \in {<<i>> : i \in 1..N} /\ rnd = 0
                    ELSE prog = <<>> /\ rnd = Lcg((walk * 7919 + SeedNum * 10473) % 65521)
    /\ fresh = {"z", "w", "p", "q", "x", "y"}
Chain ==
    /\ walk = 0 /\ Len(prog) < Depth
    /\ \E i \in 1..N : Reads(i, Acts[prog[Len(prog)]].wr) /\ prog' = Append(prog, i)
    /\ UNCHANGED <<walk, rnd, fresh>>
\* what was written last is read soon: an action is taken if it reads a fresh register; what it reads is no longer fresh
Wander ==
    /\ walk > 0 /\ Len(prog) < LongDepth
    /\ LET i == ((rnd \div 5) % N) + 1
           f == (fresh \ Acts[i].rd) \cup Acts[i].wr
       IN IF Reads(i, fresh)
          THEN prog' = Append(prog, i) /\ fresh' = IF f = {} THEN {"z", "w", "p", "q", "x", "y"} ELSE f
          ELSE UNCHANGED <<prog, fresh>>
    /\ rnd' = Lcg(rnd) /\ UNCHANGED walk
Next == Chain \/ Wander
Spec == Init /\ [][Next]_vars

\* every action that writes is followed by some reader; every action reads something some action writes
Live == \A i \in 1..N :
    /\ Acts[i].wr # {} => (\E j \in 1..N : Reads(j, Acts[i].wr))
    /\ (\E j \in 1..N : Reads(i, Acts[j].wr))
Defuse == walk = 0 => \A k \in 2..Len(prog) : Reads(prog[k], Acts[prog[k - 1]].wr)
Names(s) == [k \in 1..Len(s) |-> Acts[s[k]].n]
Emit == (IF walk = 0 THEN Len(prog) = Depth ELSE Len(prog) = LongDepth) => PrintT("GEN " \o ToString(Names(prog)))
=============================================================================
