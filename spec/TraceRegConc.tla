--------------------------- MODULE TraceRegConc ---------------------------
(* Histories of the registry used by several threads: each is accepted when *)
(* its operations can be put in one order which respects the times at which *)
(* they were called and answered, and in which each gives the answer that   *)
(* was recorded.  A deadlock, a crash or a race is no step of the registry. *)
EXTENDS RegOps, Json, IOUtils
VARIABLES h, l, st, pend

Hist == ndJsonDeserialize(IOEnv.TRACE)
Free == [s |-> "free"]
RECURSIVE SetUp(_, _)
SetUp(reg, cs) ==
    IF cs = <<>> THEN reg
    ELSE LET c == Head(cs) IN
         SetUp(IF c[1] = "body" THEN [reg EXCEPT !.body[c[2]] = Append(@, SubSeq(c, 3, Len(c)))]
               ELSE Exec(reg, c).reg, Tail(cs))
TraceInit == /\ h \in DOMAIN Hist /\ l = 1
             /\ st = SetUp(NoReg, Hist[h].setup)
             /\ pend = [t \in 1..Hist[h].threads |-> Free]
E == Hist[h].ev[l]
More == l <= Len(Hist[h].ev)
Call == /\ More /\ E.k = "c"
        /\ pend' = [pend EXCEPT ![E.t] = [s |-> "called", todo |-> Steps(E.x), r |-> <<>>]]
        /\ l' = l + 1 /\ UNCHANGED <<h, st>>
Return == /\ More /\ E.k = "r"
          /\ pend[E.t].s = "called" /\ pend[E.t].todo = <<>> /\ pend[E.t].r = E.x
          /\ pend' = [pend EXCEPT ![E.t] = Free]
          /\ l' = l + 1 /\ UNCHANGED <<h, st>>
\* a part of an operation takes effect, at the latest when some answer is needed
Effect(t) ==
    /\ More /\ E.k = "r" /\ pend[E.t].todo # <<>>
    /\ pend[t].s = "called" /\ pend[t].todo # <<>>
    /\ UNCHANGED <<h, l>>
    /\ \E x \in {Exec(st, Head(pend[t].todo))} :
         /\ st' = x.reg
         /\ pend' = [pend EXCEPT ![t].todo = Tail(@), ![t].r = @ \o x.r]
Accept == ~More /\ PrintT("ACCEPT " \o ToString(h)) /\ FALSE /\ UNCHANGED <<h, l, st, pend>>
TraceNext == Call \/ Return \/ (\E t \in DOMAIN pend : Effect(t)) \/ Accept
TraceSpec == TraceInit /\ [][TraceNext]_<<h, l, st, pend>>
Done == PrintT("TRACE-DONE " \o ToString(Len(Hist)))
=============================================================================
