---------------------------- MODULE MC_RegConc ----------------------------
EXTENDS RegConc
CONSTANTS Config, Depth

\* loaders which need each other, themselves, an alias and a template
Setup_ ==
    LET b == [B0 |-> <<<<"get", "b">>, <<"getT", "Box<long int>">>>>,
              B1 |-> <<<<"get", "a">>, <<"get", "al">>>>,
              B2 |-> <<<<"getT", "Box<double>">>, <<"add", "c", "B1">>>>,
              B3 |-> <<<<"alias", "b", "am">>, <<"get", "am">>>>]
    IN [NoReg EXCEPT !.body = b, !.ld["a"] = "B0", !.ld["b"] = "B1", !.al["al"] = "S2"]
Ops == CASE Config = "get" -> {<<"get", "a">>, <<"get", "b">>, <<"get", "al">>, <<"getT", "S0">>, <<"get", "d">>}
         [] Config = "templates" -> {<<"getT", t>> : t \in Tmpl} \cup {<<"get", "Box<int>">>}
         [] Config = "add" -> {<<"add", "d", "B0">>, <<"get", "d">>, <<"alias", "a", "d">>, <<"get", "am">>,
                               <<"alias", "d", "am">>, <<"getT", "Box<double>">>}
Progs == UNION {[1..k -> Ops] : k \in 1..Depth}
Init == /\ reg = Setup_ /\ own = 0 /\ dep = 0
        /\ \E p \in [Threads -> Progs] : th = [t \in Threads |-> [Idle EXCEPT !.todo = p[t]]]
Next == \E t \in Threads : Act(t)
Spec == Init /\ [][Next]_<<reg, own, dep, th>>
Live == Spec /\ \A t \in Threads : WF_<<reg, own, dep, th>>(Act(t))
Ends == <>(\A t \in Threads : Ended(t))
=============================================================================
