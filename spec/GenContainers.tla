--------------------------- MODULE GenContainers ---------------------------
(* Random histories of container operations, steered by the state towards *)
(* commands that do something.                                            *)
EXTENDS Containers, Json
CONSTANTS Profile, Len_, Setup
VARIABLES st, hist, foc     \* foc: what the history is mostly about
R(S) == RandomElement(S)
With(S, F(_)) == CHOOSE y \in {F(x) : x \in {RandomElement(S)}} : TRUE
C(op, a, n) == [op |-> op, a |-> a, n |-> n]
Fresh(z) == {v \in VRegs : ~ st.vals[v].d /\ st.vals[v].t # "void"}
OfFam(f) == {v \in Fresh(0) : Fam(st.vals[v].t) \in f}
OfType(t) == {v \in Fresh(0) : Child(st.vals[v].t, t)}
Any1(S) == IF S = {} THEN R(VRegs) ELSE R(S)
Roots(z) == CASE foc = "vec" -> {"o0", "o1", "o7", "o8", "oC"} [] foc = "map" -> {"o2", "o3", "o9", "oB"}
              [] foc = "ptr" -> {"o4", "o5", "o6"} [] OTHER -> DOMAIN RootTypes
FocFam(z) == CASE foc = "vec" -> {"vec"} [] foc = "map" -> {"map"} [] foc = "ptr" -> {"sp", "up", "rp"}
               [] OTHER -> {"vec", "map", "sp", "up", "rp", "str"}
\* v0 and v1 keep the containers of a history which is about one kind
Dst(z) == IF foc # "all" /\ R(1..25) > 1 THEN R({"v2", "v3", "v4", "v5"}) ELSE
          IF \E v \in VRegs : st.vals[v].t = "void" \/ st.vals[v].d
          THEN (IF R(1..3) = 1 THEN R(VRegs) ELSE R({v \in VRegs : st.vals[v].t = "void" \/ st.vals[v].d})) ELSE R(VRegs)
\* a register with a value of type t, most of the time
Arg1(t) == IF R(1..12) = 1 THEN Any1(Fresh(0)) ELSE Any1(OfType(t))
\* what the containers of this history can take
Need(z) == UNION {LET t == st.vals[v].t IN
                  CASE Fam(t) = "vec" -> {UL, El(t)} [] Fam(t) = "map" -> {Key(t)} \cup {El(t)} [] OTHER -> {"int", UL, "Tr", STR} :
                  v \in {"v0", "v1"}}
LitOf(t) == C("lit", <<Dst(0), t>>, <<R(IF t = UL THEN 0..7 ELSE 0..9)>>)
Lits(z) ==
    With(IF foc \in {"vec", "map"} THEN Need(0) ELSE {"int", UL, "Tr", STR}, LAMBDA t :
    IF t \in {"int", UL, "Tr", STR} THEN LitOf(t)
    ELSE IF t = RP \/ (t = SP /\ OfType(RP) = {}) THEN C("alloc", <<Dst(0), R({"Tr", "Tr2"})>>, <<>>)
    ELSE C("new", <<Dst(0), t>> \o (IF t = SP /\ R(1..5) > 1 THEN <<Any1(OfType(RP))>> ELSE <<>>), <<>>))
Makes(z) == With({"Tr", "Tr", "Tr2", SP, UP, VI, VTr, MTr, UI, MV, VVI, SP2, UP2, RP, VSP, VSt, STR}, LAMBDA t :
            IF t \in {"Tr", "Tr2"} THEN C("alloc", <<Dst(0), t>> \o (IF R(1..2) = 1 THEN <<>> ELSE <<Arg1(t)>>), <<>>)
            ELSE C("new", <<Dst(0), t>> \o (IF R(1..3) = 1 THEN <<>> ELSE IF Fam(t) \in {"sp", "up"} /\ R(1..3) > 1
                   THEN <<Arg1(PtrTo(El(t)))>> ELSE <<Arg1(t)>>), <<>>))
\* a call of a function the type has, with arguments of the right types most of the time
Grow(z) == {"push_back", "operator[]", "resize", "reset", "get", "release", "count", "at"}
Calls(v) ==
    With({Own(st.vals[v].t, FnTable[st.vals[v].t][i].name) : i \in 1..Len(FnTable[st.vals[v].t])}, LAMBDA o1 :
    With(LET g == {Own(st.vals[v].t, n) : n \in Grow(0)} \ {<<>>} IN IF g = {} THEN {o1} ELSE g, LAMBDA o2 :
    LET o == IF R(1..2) = 1 THEN o1 ELSE o2 IN
    With({o[i] : i \in 1..Len(o)}, LAMBDA f :
        IF (f.name = "clear" \/ (f.name = "resize" /\ R(1..2) = 1)) /\ R(1..3) > 1 THEN C("show", <<v>>, <<>>)
        ELSE IF f.args = <<>> THEN C("call", <<Dst(0), v, R({"size", "zz", "count", "get"})>>, <<>>)
        ELSE C("call", <<Dst(0), v, f.name>> \o [i \in 1..(Len(f.args) - 1) |-> Arg1(f.args[i + 1].t)], <<>>))))
NumCalls(v) == With({FnTable[st.vals[v].t][i] : i \in 1..Len(FnTable[st.vals[v].t])}, LAMBDA f :
    C("call", <<Dst(0), v, f.name>> \o [i \in 1..(Len(f.args) - (IF f.args = <<>> THEN 0 ELSE 1)) |-> Arg1(f.args[Len(f.args)].t)], <<>>))
Refs(z) == C(IF R(1..6) = 1 THEN "cref" ELSE "ref", <<IF foc = "all" THEN Dst(0) ELSE R({"v0", "v1"}), R(Roots(0))>>, <<>>)
Work(z) ==
    With(1..22, LAMBDA k :
    IF k <= 3 THEN (IF foc = "ptr" /\ OfType(RP) = {} THEN Makes(0) ELSE Lits(0))
    ELSE IF k <= 5 THEN Makes(0)
    ELSE IF k <= 7 THEN (IF foc # "all" /\ st.vals["v0"].t # "void" /\ st.vals["v1"].t # "void" /\ R(1..5) > 1 THEN Lits(0) ELSE Refs(0))
    ELSE IF k <= 12 THEN With({Any1(IF R(1..2) = 1 THEN OfFam(FocFam(0)) ELSE OfFam(FocFam(0)) \cap {"v0", "v1"})}, LAMBDA v :
         IF st.vals[v].t = "void" THEN Lits(0) ELSE Calls(v))
    ELSE IF k = 13 THEN With({Any1(Fresh(0))}, LAMBDA v : IF FnTable[st.vals[v].t] = <<>> THEN Lits(0) ELSE NumCalls(v))
    ELSE IF k = 14 THEN C(R({"set", "rval", "rval", "const", "copy", "move"}), <<Dst(0), Any1(Fresh(0))>>, <<>>)
    ELSE IF k = 15 THEN C("rval", <<Dst(0), Any1(OfFam({"obj", "sp", "up", "vec", "map"}))>>, <<>>)
    ELSE IF k = 16 THEN With({Any1(Fresh(0))}, LAMBDA v : C("assign", <<v, Arg1(st.vals[v].t)>>, <<>>))
    ELSE IF k = 17 THEN With({Any1(OfFam({"vec", "map"}))}, LAMBDA v :
         C("idx", <<Dst(0), v, Arg1(IF Fam(st.vals[v].t) = "map" THEN Key(st.vals[v].t) ELSE UL)>>, <<>>))
    ELSE IF k = 18 THEN C("deref", <<Dst(0), Any1(OfFam({"sp", "up", "rp"}))>>, <<>>)
    ELSE IF k = 19 THEN C(R({"truth", "eq", "same"}), <<Any1(OfFam({"sp", "up", "rp"})), Any1(OfFam({"sp", "up", "rp"}))>>, <<>>)
    ELSE IF k = 20 THEN C("write", <<Any1(OfFam({"num", "obj"}))>>, <<R(6..99)>>)
    ELSE IF k = 21 THEN R({C("drop", <<R(VRegs)>>, <<>>), C("show", <<Any1(Fresh(0))>>, <<>>), C("count", <<"v0">>, <<>>)})
    ELSE With({t \in DOMAIN TypeInfo : Fam(t) \notin {"num", "void", "obj"}}, LAMBDA t : C("info", <<t>>, <<>>)))
DumpAll == C("dump", <<"o0", "o1", "o2", "o3", "o4", "o5", "o6", "o7", "o8", "o9", "oA", "oB", "oC">>, <<>>)
\* a history about one kind of containers starts by filling them
Elem(t) == IF t \in {"int", UL, "Tr", STR} THEN C("lit", <<"v2", t>>, <<R(0..9)>>)
           ELSE IF t = RP THEN C("alloc", <<"v2", R({"Tr", "Tr2"})>>, <<>>)
           ELSE IF t = SP THEN C("new", <<"v2", t>> \o (IF OfType(RP) = {} THEN <<>> ELSE <<R(OfType(RP))>>), <<>>)
           ELSE C("new", <<"v2", t>>, <<>>)
Fill(i) ==
    LET t == st.vals["v0"].t
        w == IF foc = "ptr" /\ R(1..2) = 1 THEN "v1" ELSE "v0"
    IN  IF i <= 2 THEN C("ref", <<IF i = 1 THEN "v0" ELSE "v1", R(Roots(0))>>, <<>>)
        ELSE IF i % 2 = 1 THEN (IF foc = "vec" THEN Elem(El(t)) ELSE IF foc = "map" THEN Elem(Key(t)) ELSE Elem(RP))
        ELSE IF foc = "vec" THEN C("call", <<"v3", "v0", "push_back", "v2">>, <<>>)
        ELSE IF foc = "map" THEN (IF R(1..2) = 1 THEN C("idx", <<"v3", "v0", "v2">>, <<>>)
                                  ELSE C("call", <<"v3", "v0", "operator[]", "v2">>, <<>>))
        ELSE IF st.vals[w].t = RP THEN C("assign", <<w, "v2">>, <<>>) ELSE C("call", <<"v3", w, "reset", "v2">>, <<>>)
Filled(i) == foc = "all" \/ i > (IF foc = "ptr" THEN 8 ELSE 18)
\* commands C++ says nothing about are left out
Pick(i) == IF i % 6 = 0 /\ Filled(i) THEN DumpAll
           ELSE With({IF Filled(i) THEN Work(0) ELSE Fill(i)}, LAMBDA c : IF ~ Step(st, c).ub THEN c
                ELSE With({Work(0)}, LAMBDA d : IF ~ Step(st, d).ub THEN d
                ELSE With({Work(0)}, LAMBDA e : IF ~ Step(st, e).ub THEN e ELSE DumpAll)))
GInit == st = InitState /\ hist = <<>> /\ foc \in {"vec", "map", "ptr", "all"}
GNext ==
    /\ Len(hist) < Len_
    /\ \E c \in {Pick(Len(hist) + 1)} :
       LET h == Append(hist, c)
       IN /\ hist' = h /\ UNCHANGED foc
          /\ st' = Step(st, c).st
          /\ Len(h) = Len_ => PrintT("SCRIPT " \o ToJson(h))
GSpec == GInit /\ [][GNext]_<<st, hist, foc>>
=============================================================================
