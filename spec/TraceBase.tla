----------------------------- MODULE TraceBase -----------------------------
(* Checks a trace recorded from the library: Expected(state, event) gives  *)
(* the next state and the answer, ListOps the commands whose answer is a   *)
(* listing in no particular order.                                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, Json
CONSTANTS Trace, StartState, Expected(_, _), Unordered(_)
VARIABLES l, st, skip

TraceInit == l = 1 /\ st = StartState /\ skip = FALSE
Same(e, x) == IF Unordered(e) THEN Len(x) = Len(e.r) /\ ToSet(x) = ToSet(e.r) ELSE x = e.r
TraceNext ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ LET e == Trace[l] IN
       IF e.op = "reset" THEN st' = StartState /\ skip' = FALSE
       ELSE IF skip THEN UNCHANGED <<st, skip>>
       ELSE \E x \in {IF e.op = "crash" THEN [st |-> st, r |-> <<"no crash">>] ELSE Expected(st, e)} :
            IF Same(e, x.r) THEN st' = x.st /\ UNCHANGED skip
            ELSE /\ PrintT("MISMATCH " \o ToJson([line |-> l, expected |-> x.r]))
                 /\ skip' = TRUE /\ UNCHANGED st
TraceSpec == TraceInit /\ [][TraceNext]_<<l, st, skip>>
TraceAccepted == PrintT("TRACE-DONE " \o ToString(TLCGet("stats").diameter - 1))
=============================================================================
