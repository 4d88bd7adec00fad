------------------------------ MODULE MC_Core ------------------------------
(* Exhaustive exploration of Core over small command sets, with the laws   *)
(* the properties state.                                                   *)
EXTENDS Core
CONSTANTS Config, Depth

C(op, a, n) == [op |-> op, a |-> a, n |-> n]
T2 == {"U0", "U1"}
T3 == {"U0", "U1", "U2"}
ArgsOver(ts) == [t : ts, r : {"C", "L", "R"}, c : {"c", "n"}]

\* type relations: every parent assignment, converter, pointer and constructor over three types
RelCmds == {C("parent", <<t, p>>, <<>>) : t \in T3, p \in T3 \cup {"-"}}
           \cup {C("conv", <<p[1], p[2]>>, <<>>) : p \in {q \in T3 \X T3 : q[1] # q[2]}}
           \cup {C("ptr", <<"U2", k, t>>, <<>>) : k \in {"raw", "smart"}, t \in T2}
           \cup {C("ptr", <<"U1", "raw", "U0">>, <<>>)}
           \cup {C("ctor", <<"U0", k>>, <<>>) : k \in {"copy", "move"}}
\* names: functions and fields under two names, with inheritance
NameCmds == {C("parent", <<"U1", p>>, <<>>) : p \in {"U0", "-"}}
            \cup {C("fn", <<t, n, "fun", "void.C.n">> \o x, <<10>>) :
                  t \in T2, n \in {"f", "g"}, x \in {<<>>, <<"U0.C.n">>, <<"U0.L.c">>}}
            \cup {C("fld", <<t, n, x>>, <<0>>) : t \in T2, n \in {"f", "g"}, x \in {"U0.C.n", "U0.L.n"}}
\* overloads and calls
CallCmds == {C("fn", <<"U0", "f", "fun", x[1]>> \o x[2], <<10>>) :
                  x \in {"void.C.n", "U0.C.n"} \X {<<>>, <<"U0.C.n">>, <<"U0.L.c">>, <<"U0.L.n">>, <<"U1.C.n">>,
                                                   <<"reflect::Value.C.n">>}}
            \cup {C("call", <<"type", "v0", "U0", "f", x[1], x[2], x[3]>>, <<0>>) :
                  x \in {"void.C.n", "U0.C.n"} \X {"U0.L.n", "U0.L.c", "U0.R.n"} \X {"o0"}}
            \cup {C("call", <<"type", "v0", "U0", "f", "reflect::Value.C.n", "reflect::Value.L.n", "v1">>, <<0>>)}
            \cup {C("vref", <<"v1", "o0">>, <<>>), C("vcref", <<"v1", "o1">>, <<>>), C("vnew", <<"v1", "U1">>, <<5>>)}
CallInit == [InitState EXCEPT !.parent["U1"] = "U0",
                !.fns["U0"] = Put(@, "U0", <<CtorFn("U0", "copy", ""), CtorFn("U0", "move", "")>>)]
\* values
ValCmds == {C("vnew", <<r, "U1">>, <<5>>) : r \in {"v0", "v1"}}
           \cup {C("vref", <<"v0", "o1">>, <<>>), C("vcref", <<"v1", "o0">>, <<>>)}
           \cup {C("vown", <<p[1], p[2], "U1", "as">>, <<>>) : p \in {<<"v0", "v1">>, <<"v1", "v0">>}}
           \cup {C("vset", <<p[1], p[2], k>>, <<>>) : p \in {<<"v0", "v1">>, <<"v1", "v0">>, <<"v0", "v0">>},
                                                      k \in {"copyassign", "movector"}}
           \cup {C(op, <<p[1], p[2]>>, <<>>) : op \in {"vcopy", "vmove", "vrval", "vconst"},
                                              p \in {<<"v0", "v1">>, <<"v1", "v0">>}}
           \cup {C("vcons", <<"v0", "v1", "U0">>, <<>>), C("vconv", <<"v1", "v0", "U2">>, <<>>),
                 C("vdrop", <<"v0">>, <<>>), C("vdrop", <<"v1">>, <<>>), C("vvec", <<"v0", "keep">>, <<2>>),
                 C("vvecdrop", <<>>, <<>>), C("vwrite", <<"v0", "U0">>, <<7>>),
                 C("vcast", <<"v0", "U0.R.n">>, <<>>), C("vcast", <<"v0", "U1.L.n">>, <<>>)}
ValInit == [CallInit EXCEPT
                !.fns["U1"] = Put(Put(@, "U1", <<CtorFn("U1", "move", ""), CtorFn("U1", "copy", "")>>), ConvName("U2"),
                                  <<MkFn(ConvName("U2"), "conv", Arg("U2", "C", "n"), <<Arg("U1", "L", "c")>>, 0)>>)]
\* callables
FnCmds == {C("fmk", <<f, "f", k, "void.C.n">> \o x, <<10>>) :
               f \in {"f0", "f1"}, k \in {"fun", "cnt"}, x \in {<<>>, <<"U0.L.n">>}}
          \cup {C(op, <<p[1], p[2]>>, <<>>) : op \in {"fmove", "fassign", "fswap"},
                                             p \in {<<"f0", "f1">>, <<"f1", "f0">>}}
          \cup {C("fhollow", <<"f0", "f1">>, <<>>)}
          \cup {C("fassign", <<"f0", "f0">>, <<>>), C("fdrop", <<"f0">>, <<>>), C("fdrop", <<"f1">>, <<>>),
                C("oadd", <<"p0", "f0">>, <<>>), C("oadd", <<"p0", "f1">>, <<>>), C("omove", <<"p1", "p0">>, <<>>),
                C("odrop", <<"p0">>, <<>>), C("odrop", <<"p1">>, <<>>),
                C("fcall", <<"f0", "v0", "void.C.n">>, <<>>)}

Cmds == CASE Config = "rel" -> RelCmds [] Config = "names" -> NameCmds [] Config = "calls" -> CallCmds
          [] Config = "values" -> ValCmds [] Config = "callables" -> FnCmds
Start == CASE Config = "calls" -> CallInit [] Config = "values" -> ValInit [] OTHER -> InitState

Needs(st, c) ==   \* commands the driver of the library must not give
    CASE c.op = "parent" -> c.a[2] = "-" \/ c.a[1] \notin ChainSet(st, c.a[2])
      [] c.op \in {"fmove"} -> st.fn[c.a[2]] # <<>>
      [] c.op \in {"fassign", "fswap", "fhollow"} -> st.fn[c.a[1]] # <<>> /\ st.fn[c.a[2]] # <<>>
      [] c.op = "fcall" -> st.fn[c.a[1]] # <<>>
      [] c.op = "oadd" -> st.fn[c.a[2]] # <<>> /\ Len(st.ovl[c.a[1]]) < 3
      [] c.op = "omove" -> st.ovl[c.a[2]] # <<>>
      [] c.op = "vvec" -> Len(st.vecs) < 1
      [] OTHER -> TRUE

VARIABLE st
Init == st = Start
(******************************** laws ************************************)
Holders == {st.vals[r] : r \in VRegSet} \cup {st.vecs[i] : i \in 1..Len(st.vecs)}
\* P04: owned objects live exactly as long as someone holds them, references point at live objects
Ownership ==
    /\ \A v \in Holders : v.o # "" => v.o \in DOMAIN st.obj /\ IsChild(st, st.obj[v.o].t, v.a.t)
    /\ \A o \in SObjs(st) : \E v \in Holders : v.own /\ v.o = o
    /\ \A v \in Holders : v.own => v.o # ""
\* P07: the relation is a preorder along the parents, the conversions are inherited
Relations ==
    \* pointers are nobody's parent nor child
    (\A t \in T3 : IsPtr(st, t) => st.parent[t] = "-" /\ \A u \in T3 : st.parent[u] # t) =>
    \A x, y, z \in T3 :
        /\ IsChild(st, x, x)
        /\ (IsChild(st, x, y) /\ IsChild(st, y, z)) => IsChild(st, x, z)
        /\ (HasConv(st, y, z) /\ ~ IsPtr(st, x) /\ IsChild(st, x, y)) => HasConv(st, x, z)
        /\ st.parent[x] # "-" => ~ IsChild(st, st.parent[x], x)
        /\ (IsPtr(st, x) /\ IsPtr(st, y) /\ IsChild(st, x, y) /\ x # y) => st.ptr[x][1] = st.ptr[y][1]
\* P01
Matching ==
    LET S == ArgsOver({"U0", "U1", "void", VT}) IN
    \A a, b \in S :
        LET m == Match(st, a, b) IN
        /\ a = b => m = "E"
        /\ (a.t = VT) # (b.t = VT) => m = "E"
        /\ (a # b /\ a.t # VT /\ b.t # VT /\ m # "N") =>
              /\ b.r = "L" /\ b.c = "n" => a.r = "L" /\ a.c = "n"         \* constness and life are never lost
              /\ b.r = "R" /\ ~ HasConv(st, a.t, b.t) => a.r = "R"
              /\ b.r # "C" /\ b.c = "n" /\ ~ HasConv(st, a.t, b.t) => a.c = "n"
              /\ IsChild(st, a.t, b.t) \/ HasConv(st, a.t, b.t)
        /\ (a.t \in T2 /\ b.t \in T2 /\ m = "E" /\ a # b) => IsChild(st, a.t, b.t)
Returns ==
    LET S == ArgsOver({"U0", "U1", "void", VT}) IN
    \A a, b \in S :
        /\ MatchRet(st, Arg("void", "C", "n"), b) = "E"
        /\ (MatchRet(st, a, b) # "N" /\ a.t # "void" /\ b.t # "void" /\ a.r = "L" /\ a.t # VT /\ b.t # VT)
              => b.r = "L" \/ a = b
\* P02: no two overloads accept each other exactly; a choice is never unsuitable nor arbitrary
Overloading ==
    LET o == FindFn(st, "U0", "f") IN
    /\ \A i, j \in 1..Len(o) : i < j => Test(st, o[j], o[i].ret, o[i].args) # "E"
    /\ \A a \in ArgsOver({"U0", "U1", VT}), ret \in {Arg("void", "C", "n"), Arg("U0", "C", "n"), ValArg} :
          LET k == Choose(st, o, ret, <<a>>)
              ts == [i \in 1..Len(o) |-> Test(st, o[i], ret, <<a>>)]
          IN /\ k > 0 => ts[k] # "N"
             /\ (k > 0 /\ ts[k] = "P") => \A i \in 1..Len(o) : i # k => ts[i] = "N"
             /\ (k > 0 /\ ts[k] = "E") => \A i \in 1..(k - 1) : ts[i] # "E"
             /\ k = 0 <=> \A i \in 1..Len(o) : ts[i] = "N"
             /\ k = -1 => \A i \in 1..Len(o) : ts[i] # "E"
\* P06
Names == \A t \in TSet : DOMAIN st.fns[t] \cap DOMAIN st.flds[t] = {}
\* P03, P06, P07, P19: a refused declaration leaves everything as it was; a call which ran nothing changes nothing
\* but the objects it was given as temporaries
Refusals(old, cmd, new, res) ==
    res[1] = "err" =>
        /\ cmd.op \in TOps => new = old
        /\ cmd.op = "vmove" => new = old
        /\ (cmd.op = "vcopy" /\ ~ Copiable(old, old.vals[cmd.a[2]].a.t)) => new = old
        /\ cmd.op = "call" => /\ new.vals = old.vals
                              /\ Len(res) = 3 => new.fns = old.fns
                              /\ Len(res) = 3 =>
                                  \A o \in DOMAIN old.obj :
                                      (\A i \in 1..Len(CallSrcs(cmd.a)) :
                                          CallSrcs(cmd.a)[i] = o => CallForms(cmd.a)[i].r # "R")
                                      => o \in DOMAIN new.obj /\ new.obj[o] = old.obj[o]
\* P17: every callable is held once; moves neither lose nor duplicate one
Callables(old, cmd, new, res) ==
    /\ cmd.op = "fmove" => LiveFns(new) = LiveFns(old) - CountTok(old.fn[cmd.a[1]])
    /\ cmd.op = "fassign" => LiveFns(new) = LiveFns(old) - (IF cmd.a[1] = cmd.a[2] THEN 0 ELSE 1)
    /\ cmd.op = "fhollow" => LiveFns(new) = LiveFns(old) - CountTok(old.fn[cmd.a[1]])
    /\ cmd.op = "fswap" => LiveFns(new) = LiveFns(old)
    /\ cmd.op = "oadd" => LiveFns(new) = LiveFns(old) - (IF res[1] = "err" THEN 1 ELSE 0)
\* P04: every operation on values which is not a write leaves the objects behind other values alone
Locality(old, cmd, new, res) ==
    cmd.op \in {"vset", "vconst", "vrval", "vdrop", "vcopy", "vvec", "vvecdrop", "vref", "vcref", "vown"} =>
        \A o \in (DOMAIN old.obj) \cap (DOMAIN new.obj) :
            new.obj[o] = old.obj[o] \/ (cmd.op = "vcopy" /\ o = old.vals[cmd.a[2]].o)
StepLaws(old, cmd, new, res) ==
    Refusals(old, cmd, new, res) /\ Callables(old, cmd, new, res) /\ Locality(old, cmd, new, res)

Next == \E c \in Cmds : /\ Needs(st, c)
                        /\ \E x \in {Step(st, c)} :
                             /\ ~ x.amb /\ st' = x.st
                             /\ Assert(StepLaws(st, c, x.st, x.r), <<"step breaks a law", c, x.r>>)
Spec == Init /\ [][Next]_st
Bound == TLCGet("level") <= Depth
NoBadCalls == \A f \in FnRegs : st.fn[f] # <<>> => st.fn[f][1].calls < 3
CallBound == Bound /\ NoBadCalls
Laws == Ownership /\ Relations /\ Names
HeavyLaws == /\ (Config = "rel" => Matching /\ Returns)
             /\ (Config = "calls" => Overloading)
=============================================================================
