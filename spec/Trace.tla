-------------------------------- MODULE Trace --------------------------------
(***************************************************************************)
(* Trace validation.  The trace file has one recorded history per line:     *)
(* a header (types, configuration) and the sequence of calls that the real   *)
(* library executed, each with its arguments and its outcome.  One           *)
(* transition of this specification consumes one recorded call.  What a call *)
(* may do is given by the transition relation of MixedNum: Step(hdr, st, ev) *)
(* is a record                                                               *)
(*     v : "ok" | "free" | "bad"       s : the abstract state after the call *)
(* A "bad" call is reported and the abstract state is resynchronised with    *)
(* the recorded one, so the rest of the history is still checked.            *)
(* (SHOWFREE, for development: report the unconstrained calls as well.)       *)
(***************************************************************************)
EXTENDS MixedNum, TLC, Json, IOUtils

TraceFile == IOEnv.TRACE
Trace == ndJsonDeserialize(TraceFile)

VARIABLES h, l, st, nok, nfree
vars == <<h, l, st, nok, nfree>>

TraceInit == /\ h \in 1..Len(Trace)
             /\ l = 1 /\ nok = 0 /\ nfree = 0
             /\ st = Init0(Trace[h])

TraceNext ==
    /\ l <= Len(Trace[h].ev)
    /\ LET ev == Trace[h].ev[l]
           r  == Step(Trace[h], st, ev)
       IN /\ st' = r.s
          /\ nok' = IF r.v = "ok" THEN nok + 1 ELSE nok
          /\ nfree' = IF r.v = "free" THEN nfree + 1 ELSE nfree
          /\ IF r.v = "bad" \/ (r.v = "free" /\ "SHOWFREE" \in DOMAIN IOEnv) THEN PrintT(<<"REJECT", h, l>>) ELSE TRUE
          /\ IF l = Len(Trace[h].ev) THEN PrintT(<<"HIST", h, l, nok', nfree'>>) ELSE TRUE
    /\ l' = l + 1
    /\ h' = h

TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
