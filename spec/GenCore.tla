------------------------------ MODULE GenCore ------------------------------
(* Behaviours of Core: every step is a random command of the profile, the  *)
(* last one prints the whole script.  POOL lists the functions, static     *)
(* tests and calls which the harness has compiled in.                      *)
EXTENDS Core, Json, IOUtils
CONSTANTS Profile, Len_, Setup

Pool == JsonDeserialize(IOEnv.POOL)
Makers == {Pool.makers[i] : i \in 1..Len(Pool.makers)}          \* <<kind, ret, arg...>>
Tests == {Pool.tests[i] : i \in 1..Len(Pool.tests)}             \* <<ret, arg...>>
Gets == {Pool.gets[i] : i \in 1..Len(Pool.gets)}
Callers == {Pool.callers[i] : i \in 1..Len(Pool.callers)}
Casters == {Pool.casters[i] : i \in 1..Len(Pool.casters)}
Makers0 == {m \in Makers : m[1] \in {"fun", "cnt"}}

R(S) == RandomElement(S)
With(S, F(_)) == CHOOSE y \in {F(x) : x \in {RandomElement(S)}} : TRUE
C(op, a, n) == [op |-> op, a |-> a, n |-> n]
NoCmd == C("skip", <<>>, <<>>)
RECURSIVE RandSeq(_, _)
RandSeq(S, n) == IF n = 0 THEN <<>> ELSE <<R(S)>> \o RandSeq(S, n - 1)

T3 == {"U0", "U1", "U2"}
Names == {"f", "g", "h", "a", "b"}
FNames == {"f", "g", "h"}
\* the small type universe keeps matches likely
ArgOver(ts) == {ArgStr(x) : x \in [t : ts, r : {"C", "L", "R"}, c : {"c", "n"}]}
AllTL == <<"U0", "U1", "U2", "U3", "U4", "U5", "void", VT>>
RECURSIVE Shuffle(_)
Shuffle(S) == IF S = {} THEN <<>> ELSE With(S, LAMBDA x : <<x>> \o Shuffle(S \ {x}))

NewObjs(t) == IF t = "U0" THEN {"o0", "o3"} ELSE IF t = "U1" THEN {"o1", "o4"} ELSE {"o2", "o5"}
OSet == {ONames[i] : i \in 1..6}

(****************************** type commands *****************************)
GParent(st) == With(TSet, LAMBDA t :
    C("parent", <<t, R({"-"} \cup {p \in TSet : t \notin ChainSet(st, p)})>>, <<>>))
GPtr(st) == With({"U2", "U3", "U4", "U5"}, LAMBDA t :
    C("ptr", <<t, R({"raw", "raw", "smart"}), R({TN[i] : i \in 1..(TIdx(t) - 1)})>>, <<>>))
GConv(st) == With(T3 \cup {"U3"}, LAMBDA t : C("conv", <<t, R(T3 \ {t})>>, <<>>))
GCtor(st) == With(TSet, LAMBDA t : With({"def", "copy", "copy", "copy", "move", "move", "lref", "from"},
    LAMBDA k : C("ctor", IF k = "from" THEN <<t, k, R(TSet \ {t})>> ELSE <<t, k>>, <<>>)))
\* the types which already have something are picked more often
GFn(st, ts, names, ms) == With(ms, LAMBDA m :
    C("fn", <<R(ts), R(names), m[1], m[2]>> \o SubSeq(m, 3, Len(m)), <<R(1..60) * 10>>))
GFld(st, names) == C("fld", <<R(TSet), R(names), R(ArgOver(TSet \cup {VT})
    \cup {ArgStr(Arg(t, "C", "n")) : t \in TSet} \cup {ArgStr(Arg(t, "C", "c")) : t \in T3})>>, <<R(0..64)>>)

(****************************** queries ***********************************)
GRel(st) == C("rel", AllTL, <<>>)
GCnv(st) == C("cnv", AllTL, <<>>)
GCm(st) == C("cm", AllTL, <<>>)
GPq(st) == C("pq", AllTL, <<>>)
GNs(st) == C("ns", <<R(TSet)>> \o Shuffle(Names \cup {"U0", "z", "operator U0()"}), <<>>)
GMatch(st) == C("match", RandSeq(ArgOver(AllT), 9) \o RandSeq(ArgOver(T3), 3), <<>>)
GMatchAll(st) == C("match", SetToSeq(ArgOver({R(T3), R(TSet), R({"U0", "void", VT})})), <<>>)
GArgq(st) == C("argq", RandSeq(ArgOver(AllT), 12), <<>>)
\* functions which exist somewhere
HasFns(st) == {p \in TSet \X (FNames \cup {"U0", "U1"}) : FindFn(st, p[1], p[2]) # <<>>}
\* calls are biased to the argument lists which the overloads declare
RandArg == R(ArgOver({"U0", "U1", VT}))
Vary(x) == R({x, x, x, RandArg})
VaryArgs(args) == [i \in 1..Len(args) |-> Vary(ArgStr(args[i]))]
Vary2(x) == With(1..3, LAMBDA k : IF k = 1 THEN RandArg ELSE x)
GTest(st) == IF HasFns(st) = {} THEN NoCmd ELSE With(HasFns(st), LAMBDA p :
    LET o == FindFn(st, p[1], p[2]) IN With({o[i] : i \in 1..Len(o)}, LAMBDA f :
    C("test", <<p[1], p[2], R({"void.C.n", "reflect::Value.C.n", ArgStr(f.ret), RandArg})>>
      \o [i \in 1..Len(f.args) |-> Vary2(ArgStr(f.args[i]))]
      \o (IF R(1..12) = 1 THEN <<RandArg>> ELSE <<>>), <<>>)))
GStest(st) == IF HasFns(st) = {} THEN NoCmd ELSE With(HasFns(st), LAMBDA p :
    LET o == FindFn(st, p[1], p[2]) IN With({o[i] : i \in 1..Len(o)}, LAMBDA f :
    LET good == {x \in Tests : Len(x) = Len(f.args) + 1}
    IN IF good = {} THEN NoCmd ELSE C("stest", <<p[1], p[2]>> \o R(good), <<>>)))
GFtest(st) == IF HasFns(st) = {} THEN NoCmd ELSE With(HasFns(st), LAMBDA p :
    With(HasFns(st), LAMBDA q : C("ftest", <<p[1], p[2], q[1], q[2]>>, <<>>)))

(****************************** calls *************************************)
\* dynamic arguments are mostly values which the parameter accepts
Suitable(st, ps, i) == IF i > Len(ps) THEN {} ELSE {r \in VRegSet : Match(st, st.vals[r].a, ps[i]) # "N"}
SrcFor(st, ps, i, x) ==
    IF A(x).t # VT THEN R(NewObjs(A(x).t))
    ELSE With(1..4, LAMBDA k : IF k = 1 \/ Suitable(st, ps, i) = {} THEN R(VRegSet) ELSE R(Suitable(st, ps, i)))
RECURSIVE Sources(_, _, _, _)
Sources(st, ps, i, fs) == IF fs = <<>> THEN <<>>
    ELSE <<Head(fs), SrcFor(st, ps, i, Head(fs))>> \o Sources(st, ps, i + 1, Tail(fs))
Held(st) == {r \in VRegSet : st.vals[r].o # ""}
RV(st) == With(1..5, LAMBDA k : IF k = 1 \/ Held(st) = {} THEN R(VRegSet) ELSE R(Held(st)))
\* a type the value can be seen as
As1(st, r) == With(1..3, LAMBDA k : IF k = 1 \/ st.vals[r].a.t \notin TSet THEN R(TSet)
                                    ELSE R(ChainSet(st, st.vals[r].a.t)))
\* a call whose arity suits the function; the others are rare
Suits(x, n) == Len(x) = n + 1
Likely(st, f, xs) ==   \* callers which f accepts for its typed arguments
    {x \in xs : /\ Len(x) = Len(f.args) + 1
                /\ Test(st, f, A(x[1]), As(Tail(x))) # "N"}
PickCaller(st, f) ==
    With(1..10, LAMBDA k :
        LET good == Likely(st, f, Callers)
            near == {x \in Callers : Suits(x, Len(f.args))}
        IN IF k <= 7 /\ good # {} THEN R(good)
           ELSE IF k <= 9 /\ near # {} THEN R(near) ELSE R(Callers))
GCall(st) == IF HasFns(st) = {} THEN NoCmd ELSE With(HasFns(st), LAMBDA p :
    LET o == FindFn(st, p[1], p[2]) IN With(1..Len(o), LAMBDA i :
    With({PickCaller(st, o[i])}, LAMBDA x : With({"type", "type", "ovl", "fn", "val"}, LAMBDA m :
    LET mode == IF Len(x) = 4 THEN "type"
                ELSE IF m = "val" /\ (Len(x) < 2 \/ A(x[2]).t # VT) THEN "ovl" ELSE m
    IN C("call", <<mode, R(VRegSet), p[1], p[2], x[1]>> \o Sources(st, o[i].args, 1, Tail(x)), <<i - 1>>)))))
GORegCall(st) ==
    LET ps == {p \in OvlRegs : st.ovl[p] # <<>>} IN
    IF ps = {} THEN NoCmd ELSE With(ps, LAMBDA p : With(1..Len(st.ovl[p]), LAMBDA i :
    With({y \in {PickCaller(st, st.ovl[p][i])} : Len(y) < 4} \cup {<<"void.C.n">>}, LAMBDA x :
    C("call", <<"oreg", R(VRegSet), p, "-", x[1]>> \o Sources(st, st.ovl[p][i].args, 1, Tail(x)), <<0>>))))
GVcast(st) == With({RV(st)}, LAMBDA r :
    LET ok == {x \in Casters : st.vals[r].a.t \in TSet /\ A(x).t \in ChainSet(st, st.vals[r].a.t)}
    IN With(1..3, LAMBDA k : C("vcast", <<r, IF k = 1 \/ ok = {} THEN R(Casters) ELSE R(ok)>>, <<>>)))
GVisc(st) == C("visc", <<RV(st)>> \o SetToSeq(Casters), <<>>)

(****************************** values ************************************)
GV(st, op) ==
    CASE op = "vnew" -> C(op, <<R(VRegSet), R(TSet \cup T3)>>, <<R(20..90)>>)
      [] op \in {"vref", "vcref", "vmv", "vcmv"} -> C(op, <<R(VRegSet), R(OSet)>>, <<>>)
      [] op = "vset" -> With({RV(st)}, LAMBDA s : With(1..2, LAMBDA k :   \* often between views of one object
            LET same == {r \in VRegSet \ {s} : st.vals[r].o = st.vals[s].o} IN
            C(op, <<R(IF k = 1 /\ same # {} THEN same ELSE VRegSet), s,
                    R({"copyctor", "ncopyctor", "copyassign", "castvalue", "movector", "moveassign"})>>, <<>>)))
      [] op = "vown" -> IF Held(st) = {} THEN NoCmd ELSE With(Held(st), LAMBDA r :
            C(op, <<R(VRegSet \ {r}), r, As1(st, r), R({"as", "as", "get"})>>, <<>>))
      [] op \in {"vconst", "vrval", "vcopy", "vmove"} -> C(op, <<R(VRegSet), RV(st)>>, <<>>)
      [] op = "vcons" -> With({RV(st)}, LAMBDA r :
            LET ok == {t \in TSet : Choose(st, FindFn(st, t, t), ValArg, <<st.vals[r].a>>) > 0}
            IN With(1..3, LAMBDA k : C(op, <<R(VRegSet), r, IF k = 1 \/ ok = {} THEN R(TSet) ELSE R(ok)>>, <<>>)))
      [] op = "vconv" -> With({RV(st)}, LAMBDA r :
            LET ok == {t \in TSet : HasConv(st, st.vals[r].a.t, t)}
            IN With(1..3, LAMBDA k : C(op, <<R(VRegSet), r, IF k = 1 \/ ok = {} THEN R(TSet) ELSE R(ok)>>, <<>>)))
      [] op = "vdef" -> C(op, <<R(VRegSet), R(TSet)>>, <<>>)
      [] op = "vdrop" -> C(op, <<R(VRegSet)>>, <<>>)
      [] op \in {"vget", "vas"} -> With({RV(st)}, LAMBDA r : C(op, <<r, As1(st, r)>>, <<>>))
      [] op = "vwrite" -> With({RV(st)}, LAMBDA r : C(op, <<r, As1(st, r)>>, <<R(100..190)>>))
      [] op = "vvec" -> C(op, <<RV(st), R({"keep", "drop"})>>, <<R(1..9)>>)
      [] op \in {"vall", "vvecdrop"} -> C(op, <<>>, <<>>)
      [] op = "oset" -> C(op, <<R(OSet)>>, <<R(200..290)>>)
      [] op = "vcast" -> GVcast(st)
      [] op = "visc" -> GVisc(st)
VKinds == {"vnew", "vref", "vown", "vset2", "vown2", "vcref", "vmv", "vcmv", "vset", "vconst", "vrval", "vcopy", "vmove", "vcons", "vconv",
           "vdef", "vdrop", "vget", "vas", "vwrite", "vvec", "vall", "vvecdrop", "oset", "vcast", "visc"}
GVal(st) == With(VKinds, LAMBDA k : GV(st, IF k = "vset2" THEN "vset" ELSE IF k = "vown2" THEN "vown" ELSE k))
GVmake(st) == GV(st, R({"vnew", "vref", "vcref", "vown", "vmv", "vset", "vrval", "vconst", "oset"}))

(****************************** callables *********************************)
Full(st) == {f \in FnRegs : st.fn[f] # <<>>}
GF(st, op) ==
    CASE op = "fmk" -> With(Makers0, LAMBDA m : C(op, <<R(FnRegs), R(FNames), m[1], m[2]>> \o SubSeq(m, 3, Len(m)),
                                                  <<R(1..60) * 10>>))
      [] op = "fmove" -> IF Full(st) = {} THEN NoCmd ELSE
                         With(Full(st), LAMBDA f : C(op, <<R(FnRegs \ {f}), f>>, <<>>))
      [] op = "fassign" -> IF Full(st) = {} THEN NoCmd ELSE C(op, <<R(Full(st)), R(Full(st))>>, <<>>)
      [] op = "fhollow" -> IF Cardinality(Full(st)) < 2 THEN NoCmd ELSE
                         With(Full(st), LAMBDA f : C(op, <<f, R(Full(st) \ {f})>>, <<>>))
      [] op = "fswap" -> IF Cardinality(Full(st)) < 2 THEN NoCmd ELSE
                         With(Full(st), LAMBDA f : C(op, <<f, R(Full(st) \ {f})>>, <<>>))
      [] op = "fdrop" -> C(op, <<R(FnRegs)>>, <<>>)
      [] op \in {"fq"} -> IF Full(st) = {} THEN NoCmd ELSE C(op, <<R(Full(st))>>, <<>>)
      [] op = "fvec" -> IF Full(st) = {} THEN NoCmd ELSE C(op, <<R(Full(st))>>, <<R(0..6)>>)
      [] op = "fcall" -> IF Full(st) = {} THEN NoCmd ELSE With(Full(st), LAMBDA f :
            With({y \in {PickCaller(st, st.fn[f][1])} : Len(y) < 4} \cup {<<"void.C.n">>}, LAMBDA x :
            C(op, <<f, R(VRegSet), x[1]>> \o Sources(st, st.fn[f][1].args, 1, Tail(x)), <<>>)))
      [] op = "oadd" -> IF Full(st) = {} THEN NoCmd ELSE C(op, <<R(OvlRegs), R(Full(st))>>, <<>>)
      [] op = "omove" -> LET ps == {p \in OvlRegs : st.ovl[p] # <<>>} IN
            IF ps = {} THEN NoCmd ELSE With(ps, LAMBDA p : C(op, <<R(OvlRegs \ {p}), p>>, <<>>))
      [] op = "odrop" -> C(op, <<R(OvlRegs)>>, <<>>)
      [] op = "oq" -> C(op, <<R(OvlRegs)>>, <<>>)
      [] op = "heap" -> C(op, <<>>, <<3>>)
FKinds == {"fmk", "fmk1", "fmk2", "fmk3", "fmove", "fassign", "fhollow", "fswap", "fdrop", "fq", "fvec", "fcall", "fcall1",
           "fcall2", "oadd", "oadd1", "oadd2", "omove", "odrop", "oq", "ocall", "ocall1"}
GCallable(st) == With(FKinds, LAMBDA k :
    IF k \in {"fmk1", "fmk2", "fmk3"} THEN GF(st, "fmk")
    ELSE IF k \in {"fcall1", "fcall2"} THEN GF(st, "fcall")
    ELSE IF k \in {"oadd1", "oadd2"} THEN GF(st, "oadd")
    ELSE IF k \in {"ocall", "ocall1"} THEN GORegCall(st) ELSE GF(st, k))

(****************************** profiles **********************************)
\* a callable gets a few argument lists under one name so that overloads compete
Small(n) == {m \in Makers : Len(m) <= n + 2}
Only(ts) == {m \in Makers0 : \A i \in 2..Len(m) : A(m[i]).t \in ts}
Cmd(st, i) ==
    LET setup == i <= Setup
    IN CASE Profile = "P01" ->
            IF setup THEN With(1..4, LAMBDA k : IF k = 1 THEN GParent(st) ELSE IF k = 2 THEN GConv(st)
                                     ELSE IF k = 3 THEN GPtr(st) ELSE GFn(st, T3, {"f"}, Makers))
            ELSE With(1..12, LAMBDA k :
                IF k <= 2 THEN GMatch(st) ELSE IF k = 3 THEN GMatchAll(st) ELSE IF k <= 6 THEN GTest(st)
                ELSE IF k <= 8 THEN GStest(st) ELSE IF k = 9 THEN GFtest(st)
                ELSE IF k = 10 THEN GArgq(st) ELSE IF k = 11 THEN GFn(st, T3, {"f", "g"}, Makers)
                ELSE R({GParent(st), GConv(st), GPtr(st), C("combine", <<>>, <<>>)}))
      [] Profile = "P02" ->
            IF setup THEN With(1..8, LAMBDA k : IF k = 1 THEN GParent(st) ELSE IF k = 2 THEN GConv(st)
                                     ELSE IF k = 3 THEN GCtor(st) ELSE IF k <= 5 THEN GFn(st, {"U0"}, {"f"}, Makers)
                                     ELSE IF k = 6 THEN GFn(st, {"U0"}, {"f"}, Small(1))
                                     ELSE IF k = 7 THEN GFn(st, {"U0", "U1"}, {"f", "g"}, Small(2)) ELSE GVmake(st))
            ELSE With(1..14, LAMBDA k :
                IF k <= 3 THEN GTest(st) ELSE IF k <= 5 THEN GStest(st) ELSE IF k = 6 THEN GFtest(st)
                ELSE IF k <= 9 THEN GCall(st) ELSE IF k = 10 THEN GVmake(st)
                ELSE IF k = 11 THEN GF(st, "fmk") ELSE IF k = 12 THEN GF(st, "oadd") ELSE IF k = 13 THEN GORegCall(st)
                ELSE GFn(st, {"U0"}, {"f"}, Makers))
      [] Profile = "P03" ->
            IF setup THEN With(1..12, LAMBDA k : IF k = 1 THEN GParent(st) ELSE IF k = 2 THEN GConv(st)
                                     ELSE IF k = 3 THEN GCtor(st)
                                     ELSE IF k <= 5 THEN C("ctor", <<R(T3), R({"copy", "move", "copy", "lref"})>>, <<>>)
                                     ELSE IF k <= 9 THEN GFn(st, T3, FNames, Makers)
                                     ELSE GVmake(st))
            ELSE With(1..12, LAMBDA k :
                IF k <= 6 THEN GCall(st) ELSE IF k <= 8 THEN GVcast(st) ELSE IF k <= 9 THEN GVmake(st)
                ELSE IF k = 10 THEN R({GCtor(st), GParent(st), GFn(st, T3, FNames, Makers)})
                ELSE IF k = 11 THEN GVisc(st) ELSE C("vall", <<>>, <<>>))
      [] Profile = "P04" ->
            IF setup THEN With(1..10, LAMBDA k : IF k = 1 THEN GParent(st) ELSE IF k = 2 THEN GConv(st)
                                     ELSE IF k <= 5 THEN C("ctor", <<R(T3), R({"copy", "move", "copy", "def", "lref"})>>, <<>>)
                                     ELSE IF k = 6 THEN GCtor(st) ELSE GVmake(st))
            ELSE With(1..20, LAMBDA k : IF k = 1 THEN GCtor(st) ELSE IF k = 2 THEN GParent(st)
                               ELSE IF k = 3 THEN C("vall", <<>>, <<>>) ELSE GVal(st))
      [] Profile = "P06" ->
            With(1..9, LAMBDA k : IF k = 1 THEN GParent(st) ELSE IF k = 2 THEN GConv(st) ELSE IF k = 3 THEN GCtor(st)
                                  ELSE IF k = 4 THEN GFn(st, TSet, Names, Makers) ELSE IF k = 5 THEN GFld(st, Names)
                                  ELSE GNs(st))
      [] Profile = "P07" ->
            With(1..9, LAMBDA k : IF k <= 2 THEN GParent(st) ELSE IF k = 3 THEN GConv(st) ELSE IF k = 4 THEN GCtor(st)
                                  ELSE IF k = 5 THEN GPtr(st)
                                  ELSE IF k = 6 THEN GRel(st) ELSE IF k = 7 THEN GCnv(st)
                                  ELSE IF k = 8 THEN GCm(st) ELSE GPq(st))
      [] Profile = "P17" -> IF i = Setup THEN C("heap", <<>>, <<3>>)
                            ELSE With(1..8, LAMBDA k : IF k = 1 THEN GVmake(st) ELSE GCallable(st))

VARIABLES st, hist
GInit == st = InitState /\ hist = <<>>
GNext ==
    /\ Len(hist) < Len_
    /\ \E c \in {Cmd(st, Len(hist) + 1)} :
       \E x \in {IF c.op \in {"skip", "stest"} THEN [st |-> st, amb |-> FALSE]
                 ELSE LET y == Step(st, c) IN [st |-> y.st, amb |-> y.amb]} :
       LET keep == c.op # "skip" /\ ~ x.amb
           h == IF keep THEN Append(hist, c) ELSE hist
       IN /\ hist' = h
          /\ st' = (IF keep THEN x.st ELSE st)
          /\ Len(h) = Len_ => PrintT("SCRIPT " \o ToJson(h))
GSpec == GInit /\ [][GNext]_<<st, hist>>
=============================================================================
