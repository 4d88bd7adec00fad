----------------------------- MODULE GenFields -----------------------------
EXTENDS Fields
CONSTANTS Profile, Len_, Setup
VARIABLES st, hist
R(S) == RandomElement(S)
With(S, F(_)) == CHOOSE y \in {F(x) : x \in {RandomElement(S)}} : TRUE
C(op, a, n) == [op |-> op, a |-> a, n |-> n]

ONames == <<"o0", "o1", "o2", "o3">>
Types(z) == {"Pt", "In", "Mid", "Base", "Der", "Der2", "Hold"}
Live(z) == {v \in VRegs : st.vals[v].t # "void"}
\* values of structs are picked more often
Src(z) == IF {v \in VRegs : st.vals[v].t \in Structs} = {} \/ R(1..6) = 1 THEN R(VRegs)
          ELSE R({v \in VRegs : st.vals[v].t \in Structs})
NameOf(t) == IF AllNames(t) = {} \/ R(1..12) = 1 THEN R({"zz", "x", "a", "priv", "", "m"}) ELSE R(AllNames(t))
RECURSIVE PathOf(_, _)
PathOf(t, n) == IF n = 0 THEN <<>>
    ELSE With({NameOf(t)}, LAMBDA x : LET f == Find(t, x) IN
              <<x>> \o (IF f = <<>> \/ f[1].t = "int" THEN <<>> ELSE PathOf(f[1].t, n - 1)))
Kinds(z) == {"int", "int&", "const int&", "Pt", "Pt&", "const Pt&", "In&", "const In&", "Base&", "const Base&", "double"}
KindFor(t) == IF t = "int" THEN {"int", "int&", "const int&"} ELSE IF t = "Pt" THEN {"Pt", "Pt&", "const Pt&"}
              ELSE IF t = "In" THEN {"In&", "const In&"} ELSE IF "Base" \in Chain(t) THEN {"Base&", "const Base&"} ELSE Kinds(0)
GNewObj(z) == C("obj", <<ONames[Cardinality(DOMAIN st.obj) + 1 - st.copies], R({"Hold", "Der2", "Der2", "Der", "Base", "Mid", "In", "Pt"})>>,
                <<R(1..90) * 100>>)
NumObj(z) == Cardinality(DOMAIN st.obj) - st.copies
GCmd(i) ==
    IF NumObj(0) < 2 THEN GNewObj(0)
    ELSE With(1..20, LAMBDA k : With({Src(0)}, LAMBDA s : With({NameOf(st.vals[s].t)}, LAMBDA n :
         IF k = 1 /\ NumObj(0) < 4 THEN GNewObj(0)
         ELSE IF k <= 2 THEN C("vref", <<R(VRegs), R({ONames[j] : j \in 1..NumObj(0)})>>, <<>>)
         ELSE IF k = 3 THEN C("vcref", <<R(VRegs), R({ONames[j] : j \in 1..NumObj(0)})>>, <<>>)
         ELSE IF k = 4 THEN C(R({"vset", "vconst", "vrval", "vcopy"}), <<R(VRegs), s>>, <<>>)
         ELSE IF k <= 6 THEN C("fld", <<R(VRegs), s, n>>, <<>>)
         ELSE IF k <= 9 THEN C("path", <<R(VRegs), s>> \o PathOf(st.vals[s].t, R(1..5)), <<>>)
         ELSE IF k <= 12 THEN LET f == Find(st.vals[s].t, n) IN
              C("fget", <<s, n, R(IF f = <<>> \/ R(1..5) = 1 THEN Kinds(0) ELSE KindFor(f[1].t))>>, <<>>)
         ELSE IF k = 13 THEN C("fwrite", <<s, n>>, <<R(1..999)>>)
         ELSE IF k = 14 THEN C("assign", <<R(VRegs)>>, <<R(1..999)>>)
         ELSE IF k = 15 THEN C("assignv", <<R(VRegs), R(VRegs)>>, <<>>)
         ELSE IF k = 16 THEN C("vget", <<R(VRegs)>>, <<>>)
         ELSE IF k = 17 THEN With({ONames[j] : j \in 1..NumObj(0)}, LAMBDA o :
              C("raw", <<o>>, <<R(DOMAIN st.obj[o].mem), R(1..999)>>))
         ELSE IF k = 18 THEN C("dump", <<>>, <<>>)
         ELSE With(Types(0), LAMBDA t :
              IF k = 19 THEN R({C("has", <<t, "a", "k", "h", "priv", "zz", "x", "m">>, <<>>), C("list", <<t>>, <<>>)})
              ELSE C("meta", <<t, NameOf(t)>>, <<>>)))))
GInit == st = InitState /\ hist = <<>>
GNext ==
    /\ Len(hist) < Len_
    /\ \E c \in {GCmd(Len(hist) + 1)} :
       LET h == Append(hist, c)
       IN /\ hist' = h
          /\ st' = Step(st, c).st
          /\ Len(h) = Len_ => PrintT("SCRIPT " \o ToJson(h))
GSpec == GInit /\ [][GNext]_<<st, hist>>
=============================================================================
