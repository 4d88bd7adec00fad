----------------------------- MODULE MC_Fields -----------------------------
(* Every field path of the structs, read and written, with the laws of P05 *)
EXTENDS Fields
CONSTANTS Config, Depth
VARIABLES st
C(op, a, n) == [op |-> op, a |-> a, n |-> n]
Names == UNION {AllNames(t) : t \in Structs} \cup {"zz"}
Cmds == {C("vref", <<"v0", "o0">>, <<>>), C("vcref", <<"v0", "o0">>, <<>>), C("vconst", <<"v0", "v0">>, <<>>),
         C("vrval", <<"v0", "v0">>, <<>>), C("assign", <<"v0">>, <<7>>), C("vset", <<"v1", "v0">>, <<>>),
         C("assignv", <<"v1", "v0">>, <<>>)}
        \cup {C("fld", <<"v0", "v0", n>>, <<>>) : n \in Names}
        \cup {C("fwrite", <<"v0", n>>, <<9>>) : n \in Names}
        \cup {C("fget", <<"v0", n, k>>, <<>>) : n \in {"a", "k", "m", "in", "d"}, k \in {"int&", "const int&", "Base&"}}
\* the leaves which some path of mutable members reaches
RECURSIVE Open(_)
Open(t) == IF t = "int" THEN {0}
    ELSE UNION {IF OwnOf(x)[n].c = "c" THEN {} ELSE {OwnOf(x)[n].off + k : k \in Open(OwnOf(x)[n].t)} : <<x, n>> \in
                {p \in Chain(t) \X AllNames(t) : p[2] \in DOMAIN OwnOf(p[1])}}
Layout == \A t \in Structs : \A x \in Chain(t), n \in AllNames(t) :
    n \in DOMAIN OwnOf(x) => \A k \in Leaves(OwnOf(x)[n].t) : OwnOf(x)[n].off + k \in Leaves(t)
ASSUME Layout
StepLaws(old, c, new, r) ==
    LET changed == {x \in DOMAIN old.obj["o0"].mem : old.obj["o0"].mem[x] # new.obj["o0"].mem[x]}
    IN /\ changed \subseteq Open(old.obj["o0"].t)
       /\ r = <<"err">> => new = old
       /\ c.op \notin {"assign", "fwrite", "assignv"} => changed = {}
       /\ Cardinality(changed) <= 2
       /\ c.op = "fld" /\ r # <<"err">> =>
             /\ old.vals["v0"].c = "c" => new.vals["v0"].c = "c"
             /\ \A k \in Leaves(new.vals["v0"].t) : new.vals["v0"].off + k \in DOMAIN new.obj["o0"].mem
             /\ new.vals["v0"].c = "n" => \A k \in Open(new.vals["v0"].t) : new.vals["v0"].off + k \in Open(old.obj["o0"].t)
Init == st = Step(InitState, C("obj", <<"o0", Config>>, <<100>>)).st
Next == \E c \in Cmds : \E x \in {Step(st, c)} :
          /\ st' = x.st
          /\ Assert(StepLaws(st, c, x.st, x.r), <<"step breaks a law", c, x.r>>)
Spec == Init /\ [][Next]_st
Inside == \A v \in VRegs : st.vals[v].t # "void" =>
            \A k \in Leaves(st.vals[v].t) : st.vals[v].off + k \in DOMAIN st.obj[st.vals[v].o].mem
Bound == TLCGet("level") <= Depth
=============================================================================
