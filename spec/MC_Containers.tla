--------------------------- MODULE MC_Containers ---------------------------
(* All short histories of a few operations: ownership, stale references   *)
(* and what each kind of operation may change.                            *)
EXTENDS Containers
CONSTANTS Config, Depth
VARIABLE st
C(op, a, n) == [op |-> op, a |-> a, n |-> n]
Regs == {"v0", "v1", "v2"}
\* commands over the registers: v0 refers to a container, v1 and v2 hold arguments and results
Fns == CASE Config = "ptr" -> {"reset", "release", "get", "operator*", "operator=="}
         [] Config = "vec" -> {"push_back", "clear", "at", "operator[]", "size"}
         [] Config = "map" -> {"operator[]", "at", "count", "keys"}
\* the variables v0 starts from, or (for the commands) anything the commands make
RootsOf == CASE Config = "ptr" -> {"o4", "o5"} [] Config = "vec" -> {"o1"} [] Config = "map" -> {"o2", "oB"}
Cmds ==
    {C("ref", <<"v0", o>>, <<>>) : o \in RootsOf} \cup {C("cref", <<"v0", o>>, <<>>) : o \in RootsOf}
    \cup (IF Config = "ptr" THEN {C("alloc", <<"v1", "Tr">>, <<>>), C("new", <<"v2", SP, "v1">>, <<>>),
                                  C("new", <<"v2", UP, "v1">>, <<>>)}
          ELSE IF Config = "vec" THEN {C("lit", <<"v1", "Tr">>, <<3>>), C("lit", <<"v2", UL>>, <<0>>), C("copy", <<"v2", "v0">>, <<>>)}
          ELSE {C("lit", <<"v1", "int">>, <<3>>), C("lit", <<"v2", "Tr">>, <<4>>), C("lit", <<"v1", "int">>, <<5>>)})
    \cup {C("call", <<"v1", "v0", f>>, <<>>) : f \in Fns} \cup {C("call", <<"v1", "v0", f, "v1">>, <<>>) : f \in Fns}
    \cup {C("call", <<"v2", "v0", f, "v2">>, <<>>) : f \in Fns}
    \cup {C("assign", <<x, y>>, <<>>) : x, y \in Regs} \cup {C("rval", <<x, x>>, <<>>) : x \in Regs}
    \cup {C("move", <<"v2", "v1">>, <<>>), C("write", <<"v1">>, <<9>>), C("drop", <<"v2">>, <<>>)}

\* nothing but the receiver and its arguments changes
Bases(s, c) == {s.vals[v].l.b : v \in Uses(c)}
StepLaws(old, c, new, r) ==
    /\ \A o \in DOMAIN old.mem \cap DOMAIN new.mem :
          old.mem[o] # new.mem[o] => o \in Bases(old, c) /\ c.op \in {"call", "assign", "move", "copy", "new", "alloc", "write"}
    /\ c.op = "call" /\ c.a[3] \in {"at", "size", "count", "keys", "get", "operator==", "operator*"} =>
          \A o \in Bases(old, c) \cap DOMAIN new.mem : old.mem[o] = new.mem[o]
    \* a value which says const is never changed through
    /\ c.op \in {"call", "assign"} =>
          \A o \in DOMAIN old.mem \cap DOMAIN new.mem : old.mem[o] # new.mem[o] =>
              \E v \in Uses(c) : old.vals[v].l.b = o /\ old.vals[v].c = "n"
    \* new heap objects come from allocators only
    /\ new.nc > old.nc => c.op = "alloc" \/ (c.op = "call" /\ c.a[3] = "new")
Init == st = InitState
Next == \E c \in Cmds : \E x \in {Step(st, c)} :
          /\ ~ x.ub
          /\ st' = x.st
          /\ Assert(StepLaws(st, c, x.st, x.r), <<"step breaks a law", c, x.r>>)
Spec == Init /\ [][Next]_st

OwnersOf(s, c) == {o \in DOMAIN s.mem : c \in Owned(s.mem[o].t, s.mem[o].x)}
\* every heap object has the owners its kind asks for; nothing owns what is gone
Ownership ==
    /\ \A c \in Cells(st) : CASE st.kind[c] = "raw" -> OwnersOf(st, c) = {}
                              [] st.kind[c] = "up" -> Cardinality(OwnersOf(st, c)) = 1
                              [] OTHER -> OwnersOf(st, c) # {}
    /\ \A c \in Held(st) : c \in DOMAIN st.mem
\* what a usable value refers to exists and has the type it says
Fresh == \A v \in VRegs : LET x == st.vals[v] IN x.t # "void" /\ ~ x.d =>
            x.l.b \in DOMAIN st.mem /\ HasIn(st.mem[x.l.b].t, st.mem[x.l.b].x, x.l.p)
OwnFresh == \A v \in VRegs : st.vals[v].own => ~ st.vals[v].d /\ st.vals[v].l.p = <<>>
Sorted == \A o \in DOMAIN st.mem : \A i \in 2..Len(st.mem[o].x.k) : st.mem[o].x.k[i - 1] < st.mem[o].x.k[i]
Bound == TLCGet("level") <= Depth /\ st.nc <= 2 /\ st.ns <= 4
=============================================================================
