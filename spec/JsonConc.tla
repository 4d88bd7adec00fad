------------------------------ MODULE JsonConc ------------------------------
(* Threads which parse or print: each first gets its type's parser from a    *)
(* cache, which is filled under a lock: the entry is stored before it is     *)
(* prepared, which is what lets types contain each other, and the parsers of *)
(* the parts are obtained while the lock is held.  It's used without lock.   *)
(* Variant selects the design as it is ("ok") or a broken one.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
CONSTANTS Variant, Threads, Parts, Depth
VARIABLES cache, own, th

Types == DOMAIN Parts
\* what is needed to use a type: the types it reaches
RECURSIVE Reach(_, _)
Reach(S, n) == IF n = 0 THEN S ELSE Reach(S \cup UNION {ToSet(Parts[t]) : t \in S}, n - 1)
Needs == [t \in Types |-> Reach({t}, Cardinality(Types))]
Idle == [todo |-> <<>>, cont |-> <<>>, using |-> ""]

Init == /\ cache = [t \in Types |-> "none"] /\ own = 0
        /\ \E p \in [Threads -> UNION {[1..k -> Types] : k \in 1..Depth}] :
             th = [t \in Threads |-> [Idle EXCEPT !.todo = p[t]]]

Free == own = 0 \/ Variant = "unlocked"
To(t, c) == th' = [th EXCEPT ![t].cont = c]
Do(t) ==
    LET i == Head(th[t].cont)
        k == Tail(th[t].cont)
    IN CASE i[1] = "acq" -> Free /\ own' = (IF Variant = "unlocked" THEN own ELSE t) /\ To(t, k) /\ UNCHANGED cache
         [] i[1] = "rel" -> own' = (IF Variant = "unlocked" THEN own ELSE 0) /\ To(t, k) /\ UNCHANGED cache
         \* find or create
         [] i[1] = "get" -> /\ UNCHANGED own
                            /\ IF cache[i[2]] # "none" THEN To(t, k) /\ UNCHANGED cache
                               ELSE /\ cache' = [cache EXCEPT ![i[2]] = "preparing"]
                                    /\ To(t, FlattenSeq([n \in DOMAIN Parts[i[2]] |->
                                            IF Variant = "relock" THEN <<<<"acq">>, <<"get", Parts[i[2]][n]>>, <<"rel">>>>
                                            ELSE <<<<"get", Parts[i[2]][n]>>>>]) \o <<<<"ready", i[2]>>>> \o k)
         [] i[1] = "ready" -> cache' = [cache EXCEPT ![i[2]] = "ready"] /\ UNCHANGED own /\ To(t, k)
         [] i[1] = "use" -> UNCHANGED <<cache, own>> /\ th' = [th EXCEPT ![t].cont = k, ![t].using = i[2]]
Begins(t) == /\ th[t].cont = <<>> /\ th[t].todo # <<>> /\ UNCHANGED <<cache, own>>
             /\ LET x == Head(th[t].todo) IN
                th' = [th EXCEPT ![t].todo = Tail(@), ![t].using = "",
                                 ![t].cont = <<<<"acq">>, <<"get", x>>, <<"rel">>, <<"use", x>>>>]
Next == \E t \in Threads : Begins(t) \/ (th[t].cont # <<>> /\ Do(t))
Spec == Init /\ [][Next]_<<cache, own, th>>
Ended(t) == th[t].todo = <<>> /\ th[t].cont = <<>>
\* a type which is used, and everything it's made of, is prepared
Prepared == \A t \in Threads : th[t].using # "" => \A x \in Needs[th[t].using] : cache[x] = "ready"
OneOwner == \A t \in Threads : (\E i \in DOMAIN th[t].cont : th[t].cont[i] = <<"rel">>)
                               /\ ~(\E i \in DOMAIN th[t].cont : th[t].cont[i] = <<"acq">>) => own = t
NoDeadlock == (\E t \in Threads : ~Ended(t)) =>
                \E t \in Threads : ~Ended(t) /\ (th[t].cont # <<>> /\ Head(th[t].cont)[1] = "acq" => Free)
=============================================================================
