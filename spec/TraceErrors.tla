---------------------------- MODULE TraceErrors ----------------------------
(* The wording of a refusal is the library's; it has to name what the       *)
(* specification asks for, and to be the same for every refusal of its kind. *)
EXTENDS Errors, Json, IOUtils
VARIABLES l, st, skip
Recorded == ndJsonDeserialize(IOEnv.TRACE)
Start == [s |-> InitState, tpl |-> Empty]
Right(tpl, e, x, r) ==
    /\ Len(r) >= 4 /\ r[1] = "err" /\ r[2] = "loc=ok" /\ r[3] = "same"
    /\ LET toks == {r[i] : i \in 5..Len(r)} IN
       /\ "CUT" \notin toks
       /\ {x[i] : i \in 3..Len(x)} \subseteq toks
       /\ e.op = "user" => r[4] = x[2]
       /\ (x[2] # "" /\ x[2] \in DOMAIN tpl) => tpl[x[2]] = r[4]
Judge(ss, e) ==
    LET x == Step(ss.s, e) IN
    IF x.r[1] # "err" THEN [st |-> [ss EXCEPT !.s = x.st], r |-> x.r]
    ELSE IF ~ Right(ss.tpl, e, x.r, e.r)
    THEN [st |-> ss, r |-> <<"err loc=ok same", IF x.r[2] \in DOMAIN ss.tpl THEN ss.tpl[x.r[2]] ELSE x.r[2]>> \o SubSeq(x.r, 3, Len(x.r))]
    ELSE [st |-> [s |-> x.st, tpl |-> IF x.r[2] = "" \/ x.r[2] \in DOMAIN ss.tpl THEN ss.tpl ELSE Put(ss.tpl, x.r[2], e.r[4])],
          r |-> e.r]
INSTANCE TraceBase WITH Trace <- Recorded, StartState <- Start, Expected <- Judge
=============================================================================
