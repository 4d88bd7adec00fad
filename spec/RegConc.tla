------------------------------ MODULE RegConc ------------------------------
(* Threads which use the registry: each operation takes the lock, loaders   *)
(* run while it is held and use the registry again, and the loader of a     *)
(* template instantiation is registered on its first use, guarded by a      *)
(* flag which is read and written outside of the lock.                      *)
(* Variant selects the design as it is ("ok") or a broken one, which the    *)
(* invariants have to refuse.                                               *)
EXTENDS RegOps
CONSTANTS Variant, Threads
VARIABLES reg, own, dep, th

Acq == <<"acq">>
Rel == <<"rel">>
Locked(op) == <<Acq, op, Rel>>
\* library types are left out of this model
Micro(op) == IF op[1] = "lib" THEN <<>> ELSE IF op[1] = "conv" THEN Locked(<<"get", "S0">>) \o Locked(<<"get", "S1">>) ELSE IF op[1] = "getT" THEN (IF op[2] \in Tmpl THEN <<<<"tchk", op[2]>>>> ELSE <<>>) \o Locked(op)
             ELSE Locked(op)
RECURSIVE Micros(_)
Micros(ops) == IF ops = <<>> THEN <<>> ELSE Micro(Head(ops)) \o Micros(Tail(ops))
Idle == [todo |-> <<>>, cont |-> <<>>, busy |-> <<>>, got |-> <<>>]
Ended(t) == th[t].todo = <<>> /\ th[t].cont = <<>>

\* one atomic step of a thread
Do(t) ==
    LET x == th[t]
        i == Head(x.cont)
        k == Tail(x.cont)
        To(c) == th' = [th EXCEPT ![t].cont = c]
        Lock == UNCHANGED <<own, dep>>
    IN CASE i[1] = "acq" -> /\ \/ own = 0
                               \/ own = t /\ Variant # "nonrecursive"
                            /\ own' = t /\ dep' = dep + 1 /\ To(k) /\ UNCHANGED reg
         [] i[1] = "rel" -> dep' = dep - 1 /\ own' = (IF dep = 1 THEN 0 ELSE own) /\ To(k) /\ UNCHANGED reg
         [] i[1] = "tchk" ->
              /\ Lock /\ UNCHANGED reg
              /\ To(IF i[2] \in reg.flag THEN k
                    ELSE IF Variant = "flagfirst" THEN <<<<"tset", i[2]>>>> \o Locked(<<"addT", i[2]>>) \o k
                    ELSE Locked(<<"addT", i[2]>>) \o <<<<"tset", i[2]>>>> \o k)
         [] i[1] = "tset" -> Lock /\ reg' = [reg EXCEPT !.flag = @ \cup {i[2]}] /\ To(k)
         [] i[1] = "fin" -> /\ reg' = End(reg, i[2]) /\ Lock
                            /\ th' = [th EXCEPT ![t].cont = k, ![t].busy = Tail(@), ![t].got = <<i[2]>>]
         [] i[1] = "add" -> reg' = DoAdd(reg, i[2], i[3]) /\ Lock /\ To(k)
         [] i[1] = "addT" -> reg' = DoAdd(reg, i[2], BodyOf(i[2])) /\ Lock /\ To(k)
         [] i[1] = "alias" -> reg' = (IF CanAlias(reg, i[3]) THEN DoAlias(reg, i[2], i[3]) ELSE reg) /\ Lock /\ To(k)
         [] OTHER ->
              LET n == Target(reg, i[2]) IN
              IF reg.ty[n] # "none" THEN UNCHANGED reg /\ Lock /\ th' = [th EXCEPT ![t].cont = k, ![t].got = <<n>>]
              ELSE IF reg.ld[n] = "" THEN /\ UNCHANGED reg /\ Lock
                                          /\ th' = [th EXCEPT ![t].cont = k, ![t].got = <<i[1], n, "error">>]
              ELSE /\ reg' = Begin(reg, n) /\ Lock
                   /\ th' = [th EXCEPT ![t].busy = <<n>> \o @,
                        ![t].cont = (IF Variant = "unlocked" THEN <<Rel>> ELSE <<>>)
                                    \o Micros(reg.body[reg.ld[n]])
                                    \o (IF Variant = "unlocked" THEN <<Acq>> ELSE <<>>) \o <<<<"fin", n>>>> \o k]

Begins(t) == /\ th[t].cont = <<>> /\ th[t].todo # <<>>
             /\ th' = [th EXCEPT ![t].cont = Micro(Head(th[t].todo)), ![t].todo = Tail(@), ![t].got = <<>>]
             /\ UNCHANGED <<reg, own, dep>>
Act(t) == Begins(t) \/ (th[t].cont # <<>> /\ Do(t))
Able(t) == IF th[t].cont = <<>> THEN th[t].todo # <<>>
           ELSE Head(th[t].cont)[1] = "acq" => own = 0 \/ (own = t /\ Variant # "nonrecursive")

-----------------------------------------------------------------------------
Count(t, i) == Cardinality({j \in DOMAIN th[t].cont : th[t].cont[j] = i})
Inside(t) == Count(t, Rel) > Count(t, Acq)
\* a loader runs at most once
Once == \A n \in Names : reg.runs[n] <= 1
\* a type which was handed out is complete, unless it's being built by the thread which asked
Complete == \A t \in Threads : Len(th[t].got) = 1 =>
                reg.ty[th[t].got[1]] = "done" \/ th[t].got[1] \in ToSet(th[t].busy)
\* a type known to the compiler is always found, unless its name is an alias of something unknown
Present == \A t \in Threads : Len(th[t].got) = 3 /\ th[t].got[1] = "getT" => th[t].got[2] \in Plain
OneOwner == /\ \A t \in Threads : Inside(t) => own = t
            /\ (own = 0) = (dep = 0)
NoDeadlock == (\E t \in Threads : ~Ended(t)) => (\E t \in Threads : Able(t))
\* once built, a type stays
Stays == [][\A n \in Names : reg.ty[n] = "done" => reg'.ty[n] = "done"]_<<reg, own, dep, th>>
=============================================================================
