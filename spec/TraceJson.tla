----------------------------- MODULE TraceJson -----------------------------
EXTENDS JsonOps, FiniteSetsExt
VARIABLES l, st, skip
Recorded == ndJsonDeserialize(IOEnv.TRACE)
Fits(p, x) == CASE p.k = "s" -> p.v = {} \/ x \in p.v
                [] p.k = "d" -> Squeeze(FromHex(x)) \in p.v
Shows(p) == CASE p.k = "s" -> (IF p.v = {} THEN "*" ELSE FoldSet(LAMBDA x, a : IF a = "" THEN x ELSE x \o "|" \o a, "", p.v))
              [] p.k = "d" -> FoldSet(LAMBDA x, a : IF a = "" THEN Text(x) ELSE Text(x) \o "|" \o a, "", p.v)
Compared(s, e) == LET x == Step(s, e) IN
    IF Len(x.r) = Len(e.r) /\ \A i \in DOMAIN e.r : Fits(x.r[i], e.r[i]) THEN [st |-> x.st, r |-> e.r]
    ELSE [st |-> x.st, r |-> [i \in DOMAIN x.r |-> Shows(x.r[i])]]
Unordered(e) == FALSE
INSTANCE TraceBase WITH Trace <- Recorded, StartState <- InitState, Expected <- Compared
=============================================================================
