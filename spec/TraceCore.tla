----------------------------- MODULE TraceCore -----------------------------
(* Checks a trace recorded from the library against Core.                 *)
EXTENDS Core, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st, skip
vars == <<l, st, skip>>

TraceInit == l = 1 /\ st = InitState /\ skip = FALSE

Expected(s, e) ==
    IF e.op = "stest" THEN [st |-> s, r |-> StaticTest(s, e.a, IF Len(e.r) > 2 THEN e.r[Len(e.r) - 2] ELSE "?")
                                            \o <<ToString(LiveObjs(s)), ToString(LiveFns(s))>>]
    ELSE IF e.op = "crash" THEN [st |-> s, r |-> <<"no crash">>]
    ELSE LET x == Step(s, e) IN [st |-> x.st, r |-> x.r]

TraceNext ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ LET e == Trace[l] IN
       IF e.op = "reset" THEN st' = InitState /\ skip' = FALSE
       ELSE IF skip THEN UNCHANGED <<st, skip>>
       ELSE LET x == Expected(st, e) IN
            IF x.r = e.r THEN st' = x.st /\ UNCHANGED skip
            ELSE /\ PrintT("MISMATCH " \o ToJson([line |-> l, expected |-> x.r]))
                 /\ skip' = TRUE /\ UNCHANGED st
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceAccepted == PrintT("TRACE-DONE " \o ToString(TLCGet("stats").diameter - 1))
=============================================================================
