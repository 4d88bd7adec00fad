--------------------------- MODULE TraceJsonConc ---------------------------
(* Histories of several threads which parse and print: a document's outcome *)
(* is what it is when nothing else happens in the process (ALONE), and there *)
(* is nothing else in a history: no deadlock, crash or race.                 *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
VARIABLES h, l, pend

Hist == ndJsonDeserialize(IOEnv.TRACE)
Recorded == ndJsonDeserialize(IOEnv.ALONE)
Ops == {Recorded[n].ev[1].x : n \in DOMAIN Recorded}
\* one thread, one operation per process
Alone == [op \in Ops |-> LET n == CHOOSE n \in DOMAIN Recorded : Recorded[n].ev[1].x = op IN Recorded[n].ev[2].x]
TraceInit == h \in DOMAIN Hist /\ l = 1 /\ pend = [t \in 1..Hist[h].threads |-> <<>>]
E == Hist[h].ev[l]
More == l <= Len(Hist[h].ev)
Call == /\ More /\ E.k = "c" /\ pend[E.t] = <<>> /\ E.x \in Ops
        /\ pend' = [pend EXCEPT ![E.t] = E.x] /\ l' = l + 1 /\ UNCHANGED h
Return == /\ More /\ E.k = "r" /\ pend[E.t] \in Ops /\ E.x = Alone[pend[E.t]]
          /\ pend' = [pend EXCEPT ![E.t] = <<>>] /\ l' = l + 1 /\ UNCHANGED h
Accept == ~More /\ (\A t \in DOMAIN pend : pend[t] = <<>>) /\ PrintT("ACCEPT " \o ToString(h)) /\ FALSE /\ UNCHANGED <<h, l, pend>>
TraceNext == Call \/ Return \/ Accept
TraceSpec == TraceInit /\ [][TraceNext]_<<h, l, pend>>
Done == PrintT("TRACE-DONE " \o ToString(Len(Hist)))
=============================================================================
