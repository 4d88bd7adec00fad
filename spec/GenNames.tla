----------------------------- MODULE GenNames -----------------------------
(* Behaviours of Names.                                                    *)
EXTENDS Names, Json
CONSTANTS Profile, Len_, Setup
VARIABLES st, hist

R(S) == RandomElement(S)
With(S, F(_)) == CHOOSE y \in {F(x) : x \in {RandomElement(S)}} : TRUE
C(op, a, n) == [op |-> op, a |-> a, n |-> n]
NoCmd == C("skip", <<>>, <<>>)

Comp1 == {"a", "b", "c", "A<x::y>", "m<p<q::r>,s>"}
Few == {"a", "b", "A<x::y>"}
Name2(S) == {x \o "::" \o y : x \in S, y \in S}
Name3(S) == {x \o "::" \o y : x \in S, y \in Name2(S)}
N1 == Comp1
N2 == Name2(Comp1)
N3 == Name3(Few)
Bad == {"a:b", "a<b", "a::b:c", ":a", "a::b<c", "c>d", "b::<", "a:", "m<p::q::c", "a::c<d>>"}
\* names which exist are favoured
RegsSet(zz) == {r \in {"s0", "s1", "s2", "s3", "s4", "s5"} : st.reg[r] # <<>>}
Known(p) == TypesOf(st, p, TRUE) \cup FnsOf(st, p, TRUE) \cup {Rel(p, q) : q \in Below(st, p)}
AName(zz) == With(1..11, LAMBDA k : IF k <= 4 THEN R(N1) ELSE IF k <= 8 THEN R(N2) ELSE IF k <= 10 THEN R(N3)
                                ELSE R(Bad))
QName(p) == With(1..10, LAMBDA k : IF k <= 5 /\ Known(p) # {} THEN R(Known(p))
                                   ELSE IF k <= 7 /\ Known(p) # {} THEN R(Known(p)) \o "::" \o R(N1) ELSE AName(st))
RECURSIVE QNames(_, _)
QNames(p, n) == IF n = 0 THEN <<>> ELSE <<QName(p)>> \o QNames(p, n - 1)
OnReg(F(_)) == With(RegsSet(st), F)
New(zz) == R({"s2", "s3", "s4", "s5"})
Sigs == {"i()", "i(i)", "i(i,i)"} \cup
        (IF Profile = "P23" THEN {"v(cs&)", "s(s&&,d)", "d&(d&,cd&,i)", "cs&()", "v(V,i,i,i)"} ELSE {})

GScope(zz) ==
    With(1..13, LAMBDA k :
        OnReg(LAMBDA s :
            IF k <= 2 THEN C("scopeM", <<s, New(st), AName(st)>>, <<>>)
            ELSE IF k = 3 THEN C("scopeC", <<s, New(st), QName(st.reg[s])>>, <<>>)
            ELSE IF k = 4 THEN C("scopeF", <<New(st), QName(<<"G">>)>>, <<>>)
            ELSE IF k <= 7 THEN C("addType", <<s, AName(st)>>, <<>>)
            ELSE IF k <= 10 THEN C("addFn", <<s, AName(st), R(Sigs)>>, <<R(1..50) * 10>>)
            ELSE IF k = 11 THEN C("radd", <<AName(st), "B0">>, <<>>)
            ELSE IF k = 12 THEN C("addType", <<s, QName(st.reg[s])>>, <<>>)
            ELSE C("addFn", <<s, QName(st.reg[s]), R(Sigs)>>, <<R(1..50) * 10>>)))
GScopeQ(zz) ==
    With(1..14, LAMBDA k :
        OnReg(LAMBDA s :
            IF k = 1 THEN C("hasScope", <<s>> \o QNames(st.reg[s], 5), <<>>)
            ELSE IF k = 2 THEN C("hasType", <<s>> \o QNames(st.reg[s], 5), <<>>)
            ELSE IF k = 3 THEN C("hasFn", <<s>> \o QNames(st.reg[s], 5), <<>>)
            ELSE IF k = 4 THEN C(R({"fn", "fnM"}), <<s, QName(st.reg[s])>>, <<>>)
            ELSE IF k = 5 THEN C(R({"fn", "fnM"}), <<s, R(FnsOf(st, st.reg[s], TRUE) \cup {"a"})>>, <<>>)
            ELSE IF k = 6 THEN C("call", <<s, R(FnsOf(st, st.reg[s], TRUE) \cup {"a"})>>, R({<<>>, <<3>>, <<4, 5>>}))
            ELSE IF k = 7 THEN C("typ", <<s, R(TypesOf(st, st.reg[s], TRUE) \cup {"a::b"})>>, <<>>)
            ELSE IF k = 8 THEN C("typ", <<s, QName(st.reg[s])>>, <<>>)
            ELSE IF k = 9 THEN C("scopes", <<s>>, <<>>)
            ELSE IF k = 10 THEN C("types", <<s, R({"deep", "own"})>>, <<>>)
            ELSE IF k = 11 THEN C("fns", <<s, R({"deep", "own"})>>, <<>>)
            ELSE IF k = 12 THEN C("sid", <<s>>, <<>>)
            ELSE IF k = 13 THEN C("get", <<R({Join(Id(st.reg[s]), t) : t \in TypesOf(st, st.reg[s], TRUE)} \cup {"a"})>>, <<>>)
            ELSE C("dump", <<R({"G", "R"})>>, <<>>)))

\* registry: few names, so that they meet
RN == {"a", "b", "c", "a::t", "b::u", "A<x::y>", "al", "al2", "nt::T0", "nt::T1", "tq<nt::T0>", "nt::P0", "P1", "q::r"}
Cpp == {"T0", "T1", "T2", "P0", "P1"}
BodyNames == {"B0", "B1", "B2", "T0", "T1", "T2", "P0", "P1"}
GBody(zz) == With(1..10, LAMBDA k : C("body", <<R(BodyNames)>> \o (
            IF k <= 3 THEN <<"get", R(RN)>> ELSE IF k = 4 THEN <<"getT", R(Cpp)>> ELSE IF k = 5 THEN <<"self">>
            ELSE IF k = 6 THEN <<"add", R(RN), R({"B0", "B1", "B2"})>> ELSE IF k = 7 THEN <<"alias", R(RN), R(RN)>>
            ELSE IF k = 8 THEN <<"typ", R(RN)>> ELSE IF k = 9 THEN <<"field", R({"x", "y"})>>
            ELSE <<"get", "zz">>), <<>>))
GReg(zz) ==
    With(1..14, LAMBDA k :
        IF k <= 4 THEN C("radd", <<R(RN), R({"B0", "B1", "B2"})>>, <<>>)
        ELSE IF k <= 6 THEN C("ralias", <<R(RN), R(RN)>>, <<>>)
        ELSE IF k = 7 THEN C("raliasT", <<R(Cpp), R(RN)>>, <<>>)
        ELSE IF k = 8 THEN C("raddT", <<R({"P0", "P1", "T0"})>>, <<>>)
        ELSE IF k = 9 THEN C("raddnone", <<R(RN \cup {""})>>, <<>>)
        ELSE IF k = 10 THEN R({C("radd", <<"", "B0">>, <<>>), C("ralias", <<"", "al">>, <<>>), C("ralias", <<"a", "">>, <<>>),
                               C("radd", <<R(Bad), "B0">>, <<>>)})
        ELSE IF k = 11 THEN C("addType", <<"s0", R(RN)>>, <<>>)
        ELSE IF k = 12 THEN C("addFn", <<"s0", R({"a", "b", "c", "q", "nt"}), "i()">>, <<10>>)
        ELSE GBody(st))
GRegQ(zz) ==
    With(1..10, LAMBDA k :
        IF k <= 4 THEN C("get", <<R(RN)>>, R({<<>>, <<1>>}))
        ELSE IF k <= 6 THEN C("getT", <<R(Cpp)>>, <<>>)
        ELSE IF k = 7 THEN C("typ", <<"s0", R(RN)>>, <<>>)
        ELSE IF k = 8 THEN C("hasType", <<"s0">> \o QNames(<<"G">>, 3) \o <<R(RN), R(RN), R(RN)>>, <<>>)
        ELSE IF k = 9 THEN C("get", <<R({"", "zz", "a::zz"})>>, <<>>)
        ELSE C("dump", <<"G">>, <<>>))

\* traits
TN3 == {"a", "b", "q::c"}
Ents(zz) == {e \in {"e0", "e1", "e2", "e3", "e4", "e5"} : st.ent[e] # <<>>}
TNames == {"t", "u", "v", "alias"}
KV(k) == CASE k = "none" -> "" [] k = "bool" -> R({"true", "false"}) [] k = "str" -> R({"x", "hello world", ""})
           [] k = "nul" -> "null" [] k = "type" -> R({"int", "bool", "double"})
           [] OTHER -> ToString(R(1..99))
FN == {"f", "g", "h"}
TGets == {"int", "str", "bool", "dbl", "ptr", "type", "vec", "sp", "val"}
TKinds == (TGets \ {"val"}) \cup {"none", "lint", "clint", "nul"}
GTSetup(zz) ==
    With(1..12, LAMBDA k :
        IF k <= 2 THEN C("radd", <<R(TN3), "B0">>, <<>>)
        ELSE IF k <= 4 THEN C("tfn", <<R(TN3), R(FN), R(Sigs)>>, <<10>>)
        ELSE IF k <= 6 THEN C("tfld", <<R(TN3), R(FN)>>, <<>>)
        ELSE IF k = 7 THEN C("tparent", <<R(TN3), R(TN3)>>, <<>>)
        ELSE IF k = 8 THEN OnReg(LAMBDA s : C("scopeM", <<s, New(st), R({"k", "l"})>>, <<>>))
        ELSE IF k = 9 THEN OnReg(LAMBDA s : C("addFn", <<s, R({"f", "g", "k::f"}), R(Sigs)>>, <<10>>))
        ELSE With({"e0", "e1", "e2", "e3", "e4", "e5"}, LAMBDA e :
            IF k = 10 THEN OnReg(LAMBDA s : C("ent", <<e, R({"scope", "sfn", "sfnc"}), s, R({"f", "g", "k::f"})>>, <<>>))
            ELSE C("ent", <<e, R({"type", "tfn", "tfnc", "fld", "fldc"}), R(TN3), R(FN)>>, <<>>)))
GTrait(zz) ==
    IF Ents(st) = {} THEN GTSetup(st)
    ELSE With(Ents(st), LAMBDA e : With(1..8, LAMBDA k :
        IF k <= 3 THEN With(TKinds, LAMBDA y : C("tadd", <<e, R(TNames), y, KV(y)>>, <<>>))
        ELSE IF k = 4 THEN C("tis", <<e, "t", "u", "v", "alias", "w">>, <<>>)
        ELSE IF k = 5 THEN C("tlist", <<e>>, <<>>)
        ELSE With(TNames \cup {"w"}, LAMBDA n :
             LET m == TraitsOf(st, st.ent[e]) IN
             C("tget", <<e, n, IF n \in DOMAIN m /\ R(1..3) # 1 /\ m[n][1] # "none" THEN m[n][1] ELSE R(TGets)>>, <<>>))))

\* descriptions
GPrint(zz) ==
    With(1..10, LAMBDA k :
        IF k <= 3 /\ Ents(st) # {} THEN With(Ents(st), LAMBDA e : C("eprint", <<e>>, <<>>))
        ELSE IF k <= 6 THEN OnReg(LAMBDA s : C("sprint", <<s>>, <<R(0..9)>>))
        ELSE IF k <= 9 THEN C("tprint", <<R(TN3 \cup DOMAIN st.types)>>, <<R(0..9)>>)
        ELSE C("words", <<>>, <<>>))
GTAdd(zz) == IF Ents(st) = {} THEN GTSetup(st)
             ELSE With(Ents(st), LAMBDA e : With(TKinds, LAMBDA y : C("tadd", <<e, R(TNames), y, KV(y)>>, <<>>)))
GDesc(zz) ==
    With(1..10, LAMBDA k :
        IF k <= 2 THEN OnReg(LAMBDA s : With(N1 \cup N2 \cup N3, LAMBDA n :
                IF R(1..2) = 1 THEN C("addType", <<s, n>>, <<>>) ELSE C("addFn", <<s, n, R(Sigs)>>, <<10>>)))
        ELSE IF k = 3 THEN OnReg(LAMBDA s : IF R(1..3) = 1 THEN C("ralias", <<R(TN3), R({"al", "a", "z"})>>, <<>>)
                                            ELSE C("typ", <<s, R(TypesOf(st, st.reg[s], TRUE) \cup {"a"})>>, <<>>))
        ELSE IF k <= 7 THEN GTSetup(st) ELSE GTAdd(st))

Cmd(i) ==
    CASE Profile = "P08" -> IF i <= Setup THEN GScope(st) ELSE With(1..3, LAMBDA k : IF k = 1 THEN GScope(st) ELSE GScopeQ(st))
      [] Profile = "P09" -> IF i <= Setup THEN GReg(st) ELSE With(1..5, LAMBDA k : IF k <= 2 THEN GReg(st) ELSE GRegQ(st))
      [] Profile = "P11" -> IF i <= Setup THEN GTSetup(st) ELSE With(1..4, LAMBDA k : IF k = 1 THEN GTSetup(st) ELSE GTrait(st))
      [] Profile = "P23" -> IF i <= Setup THEN GDesc(st) ELSE With(1..4, LAMBDA k : IF k <= 2 THEN GDesc(st) ELSE GPrint(st))

GInit == st = InitState /\ hist = <<>>
GNext ==
    /\ Len(hist) < Len_
    /\ \E c \in {Cmd(Len(hist) + 1)} :
       IF c.op = "skip" THEN UNCHANGED <<st, hist>>
       ELSE LET h == Append(hist, c)
            IN /\ hist' = h
               /\ st' = Step(st, c).st
               /\ Len(h) = Len_ => PrintT("SCRIPT " \o ToJson(h))
GSpec == GInit /\ [][GNext]_<<st, hist>>
=============================================================================
