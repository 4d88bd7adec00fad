----------------------------- MODULE GenErrors -----------------------------
EXTENDS Errors, Json, IOUtils
CONSTANTS Profile, Len_, Setup
VARIABLES st, hist
R(S) == RandomElement(S)
With(S, F(_)) == CHOOSE y \in {F(x) : x \in {RandomElement(S)}} : TRUE
C(op, a, n) == [op |-> op, a |-> a, n |-> n]

Ids == {"a", "b", "c", "d"}
Als == {"e", "f"}
Lengths(z) == LET k == R(1..12) IN
    IF k <= 5 THEN R(0..8) ELSE IF k <= 8 THEN R(20..300) ELSE IF k <= 10 THEN R(900..1100) ELSE IF k = 11 THEN R(1000..1024) ELSE R(1900..4000)
UserLens(z) == LET k == R(1..8) IN
    IF k <= 1 THEN R(0..3) ELSE IF k <= 4 THEN R(1005..1030) ELSE IF k = 5 THEN R(500..515) ELSE IF k = 6 THEN R(2035..2055)
    ELSE IF k = 7 THEN R(4..5000) ELSE R({1023, 1024, 1025, 65536, 100000, 4095, 4096, 8191, 8192})
Path(n) == [i \in 1..n |-> R(Ids)] \o <<>>
Few == {"a", "b"}
Known == {p \in DOMAIN st.sc : p # <<>>}
Inner == {Append(p, n) : <<p, n>> \in {q \in (DOMAIN st.sc) \X Syms : q[2] \in st.sc[q[1]].types \cup DOMAIN st.sc[q[1]].fns}}
P3(z) == LET k == R(1..6) IN
    IF k = 1 /\ Known # {} THEN R(Known) ELSE IF k <= 3 /\ Inner # {} THEN R(Inner)
    ELSE IF k = 4 /\ Known # {} THEN Append(R(Known), R(Few)) ELSE Path(R({1, 1, 2, 2, 3}))
Fnames == {Append(p, n) : <<p, n>> \in {q \in (DOMAIN st.sc) \X Syms : q[2] \in DOMAIN st.sc[q[1]].fns}}
\* a dynamic type's name: mostly one which can be loaded
Loadable == {x \in Ids : <<x>> \in st.loaders} \cup {e \in DOMAIN st.alias : <<st.alias[e]>> \in st.loaders}
DynT(z) == IF R(1..3) = 1 \/ Loadable = {} THEN R(Ids \cup Als) ELSE R(Loadable)
Forms1 == {"int", "A&", "cA&", "A&&", "B&", "C&", "C&&", "D&", "str"}
FormSeq(z) == LET k == R(1..10) IN
    IF k <= 2 THEN <<>> ELSE IF k <= 7 THEN <<R(Forms1)>>
    ELSE <<R({"int", "A&&", "D&"}), R({"int", "A&", "C&&", "C&"})>>
Sig2(s) == IF s = "s6" THEN <<"int", "int">> ELSE IF s = "s9" THEN <<"A&&", R({"C&&", "C&"})>>
           ELSE IF s = "s10" THEN <<"D&", "C&&">> ELSE IF s = "s0" THEN <<>>
           ELSE IF s \in {"s1", "s2", "s4"} THEN <<R({"A&", "cA&", "A&&", "B&"})>>
           ELSE IF s = "s3" THEN <<R({"B&", "A&"})>> ELSE IF s = "s7" THEN <<"int">> ELSE <<R({"C&", "C&&"})>>
\* mostly arguments for one of the overloads
Args(t, n) == LET o == FindFns(st, t, n) IN
    IF o = <<>> \/ R(1..4) = 1 THEN FormSeq(0) ELSE Sig2(o[R(1..Len(o))].s)
Wants(z) == R({"void", "int", "int", "A", "C", "std::string"})
Wish(t, n) == LET o == FindFns(st, t, n) IN
    IF o = <<>> \/ R(1..4) = 1 THEN Wants(0) ELSE R({"void", "int", SigOf(o[R(1..Len(o))].s).ret.t})
\* a name which the class has, or any
NameIn(S) == IF S = {} \/ R(1..4) = 1 THEN R(Ids) ELSE R(S)
FnN(t) == NameIn(DOMAIN st.fns[t] \cup (IF t = "B" THEN DOMAIN st.fns["A"] ELSE {}))
FldN(t) == NameIn(st.flds[t] \cup (IF t = "B" THEN st.flds["A"] ELSE {}))
Cls(z) == R({"A", "A", "B", "C", "D"})
Ent(z) == With({Cls(0)}, LAMBDA t : R({<<"type", t>>, <<"scope">>, <<"fn", t, IF DOMAIN st.fns[t] = {} THEN R(Ids) ELSE R(DOMAIN st.fns[t])>>,
                                         <<"fld", t, IF st.flds[t] = {} THEN R(Ids) ELSE R(st.flds[t])>>}))
Traited(z) == LET all == UNION {{<<n>> \o e : n \in DOMAIN st.traits[e]} : e \in DOMAIN st.traits} IN
    IF all = {} \/ R(1..4) = 1 THEN <<R(Few)>> \o Ent(0) ELSE R(all)
Alias(z) == C("alias", <<IF R(1..12) = 1 THEN "" ELSE R(Ids), IF R(1..12) = 1 THEN "" ELSE R(Als)>>, <<>>)
Reg(z) == LET k == R(1..10) IN
    IF k <= 2 THEN Alias(0)
    ELSE IF k <= 4 THEN C("loader", P3(0), <<>>)
    ELSE IF k <= 6 THEN C("type", IF R(1..2) = 1 THEN P3(0) ELSE <<DynT(0)>>, <<>>)
    ELSE IF k = 7 THEN R({C("noloader", <<R(Ids)>>, <<>>), C("addempty", <<>>, <<>>)})
    ELSE IF k = 8 THEN C("setptr", <<DynT(0), R(Ids), R(Classes)>>, <<>>)
    ELSE C(R({"ptr", "pte"}), <<DynT(0)>>, <<>>)
Sco(z) == LET k == R(1..12) IN
    IF k = 1 THEN C("smk", P3(0), <<>>)
    ELSE IF k = 2 THEN C("sget", P3(0), <<>>)
    ELSE IF k <= 4 THEN C("stype", P3(0), <<>>)
    ELSE IF k <= 6 THEN C("sfn", <<R({"s0", "s0", "s1", "s2", "s6", "s7"})>> \o P3(0), <<R(1..99)>>)
    ELSE IF k = 7 THEN C("sfunc", IF Fnames # {} /\ R(1..3) # 1 THEN R(Fnames) ELSE P3(0), <<R(0..1)>>)
    ELSE IF k <= 9 THEN C("scall", IF Fnames # {} /\ R(1..3) # 1 THEN R(Fnames) ELSE P3(0), <<>>)
    ELSE IF k = 10 THEN C("styp", P3(0), <<>>)
    ELSE With({"x:y", "<x", "x::y:z"}, LAMBDA f :
         C("bad", <<IF f = "x::y:z" THEN R({"smk", "stype", "sfn", "loader", "sfunc", "sget"})
                    ELSE R({"smk", "stype", "sfn", "loader", "sfunc", "sget", "styp", "hast", "hass", "hasf", "head", "tail"}), f>>
                  \o Path(3), <<>>))
Mem(z) == With({Cls(0)}, LAMBDA t : LET k == R(1..14) IN
    IF k <= 4 THEN C("tfn", <<t, R(IF R(1..3) = 1 THEN Ids ELSE Few), R(SigIds)>>, <<R(1..99)>>)
    ELSE IF k = 5 THEN C("tfld", <<t, R(Ids)>>, <<>>)
    ELSE IF k = 6 THEN R({C("badfld", <<t, R(Ids)>>, <<>>), C("fnget", <<t, FnN(t)>>, <<>>), C("fncget", <<t, FnN(t)>>, <<>>),
                          C("fldget", <<t, FldN(t)>>, <<>>), C("fldcget", <<t, FldN(t)>>, <<>>)})
    ELSE IF k = 7 THEN C("ovget", <<t, FnN(t), R(SigIds)>>, <<>>)
    ELSE IF k = 8 THEN With({FnN(t)}, LAMBDA n : C("fcall", <<t, n, Wish(t, n)>> \o Args(t, n), <<>>))
    ELSE IF k <= 12 THEN With({FnN(t)}, LAMBDA n : C("call", <<t, n, Wish(t, n)>> \o Args(t, n), <<>>))
    ELSE IF k = 13 THEN C("trait", <<R({"a", "b"})>> \o Ent(0), <<R(1..99)>>)
    ELSE C(R({"tval", "tval", "tbad"}), Traited(0), <<>>))
Vals(z) == With(VRegs, LAMBDA v : With(VRegs, LAMBDA w : LET k == R(1..16) t == st.vals[v].t IN
    IF k <= 2 THEN C("vnew", <<v, R(Classes)>>, <<R(1..90)>>)
    ELSE IF k = 3 THEN C("vref", <<v, R(Classes)>>, <<>>)
    ELSE IF k = 4 THEN C("vcref", <<v, R({"A", "B", "D"})>>, <<>>)
    ELSE IF k = 5 THEN C("vdef", <<v, R(Classes)>>, <<>>)
    ELSE IF k <= 7 THEN C(R({"vcopy", "vmove"}), <<v, w>>, <<>>)
    ELSE IF k = 8 THEN C(R({"vget", "vas"}), <<v, R({"A", "B", "C", "D", "int"})>>, <<>>)
    ELSE IF k <= 11 THEN C("vcast", <<v, R({"A", "A&", "const A&", "B&", "C", "C&&", "A&&", "D&", "int"})>>, <<>>)
    ELSE IF k = 12 THEN R({C("vconv", <<v, R(Classes)>>, <<>>), C("vbool", <<v>>, <<>>), C("vassign", <<v>>, <<>>)})
    ELSE IF k <= 14 THEN C(R({"vfld", "vfldbad"}), <<v, IF t = "void" THEN R(Ids) ELSE FldN(t)>>, <<>>)
    ELSE C("vcall", <<v, IF t = "void" THEN R(Ids) ELSE FnN(t)>>, <<>>)))
GCmd(i) ==
    IF i = 1 THEN C("names", <<>>, [k \in 1..10 |-> Lengths(k)] \o <<>>)
    ELSE LET k == R(1..20) IN
    IF k = 1 THEN C(R({"user", "user", "fmt"}), <<R({"plain", "s", "ss", "sd", "none", "lu", "cs", "cstr"})>>, <<UserLens(0)>>)
    ELSE IF k = 2 THEN C("dump", <<>>, <<>>)
    ELSE IF k <= 6 THEN Reg(0) ELSE IF k <= 9 THEN Sco(0) ELSE IF k <= 15 THEN Mem(0) ELSE Vals(0)
GInit == st = InitState /\ hist = <<>>
GNext ==
    /\ Len(hist) < Len_
    /\ \E c \in {GCmd(Len(hist) + 1)} :
       LET h == Append(hist, c)
       IN /\ hist' = h
          /\ st' = Step(st, c).st
          /\ Len(h) = Len_ => PrintT("SCRIPT " \o ToJson(h))
GSpec == GInit /\ [][GNext]_<<st, hist>>
=============================================================================
