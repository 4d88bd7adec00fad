------------------------------ MODULE MC_Errors ------------------------------
(* Misuse, exhaustively for small vocabularies: a refusal leaves everything  *)
(* as it was, and the state stays well formed.                               *)
EXTENDS Errors
CONSTANTS Config, Depth
VARIABLES st
C(op, a, n) == [op |-> op, a |-> a, n |-> n]
Fs == {<<>>, <<"A&">>, <<"cA&">>, <<"A&&">>, <<"B&">>, <<"C&&">>, <<"C&">>, <<"A&&", "C&&">>}
Members ==
    {C("tfn", <<t, n, s>>, <<1>>) : t \in {"A", "B"}, n \in {"a", "b"}, s \in {"s1", "s2", "s3", "s4", "s5", "s7", "s8", "s9"}}
    \cup {C("tfld", <<t, n>>, <<>>) : t \in {"A", "B"}, n \in {"a", "b"}}
    \cup {C("call", <<"B", "a", w>> \o f, <<>>) : w \in {"void", "int", "C"}, f \in Fs}
    \cup {C("fcall", <<"A", "a", "int">> \o f, <<>>) : f \in Fs}
    \cup {C("ovget", <<"A", "a", s>>, <<>>) : s \in {"s1", "s4", "s5", "s9"}}
    \cup {C("trait", <<"b", "fn", "A", "a">>, <<3>>), C("trait", <<"b", "fld", "A", "a">>, <<4>>), C("tval", <<"b", "fn", "A", "a">>, <<>>),
          C("fnget", <<"B", "a">>, <<>>), C("fncget", <<"B", "a">>, <<>>), C("fldget", <<"B", "a">>, <<>>), C("fldcget", <<"B", "a">>, <<>>)}
Paths == {<<"a">>, <<"b">>, <<"a", "b">>, <<"b", "a">>, <<"a", "b", "a">>}
Registered ==
    {C(op, p, <<>>) : op \in {"loader", "smk", "sget", "stype", "styp", "scall"}, p \in Paths}
    \cup {C("sfn", <<s>> \o p, <<5>>) : s \in {"s0", "s1", "s4"}, p \in Paths}
    \cup {C("sfunc", p, <<0>>) : p \in Paths}
    \cup {C("alias", <<x, e>>, <<>>) : x \in {"a", "b"}, e \in {"e", "f"}}
    \cup {C("type", x, <<>>) : x \in {<<"a">>, <<"e">>, <<"f">>, <<"a", "b">>, <<"b", "a">>}}
    \cup {C("setptr", <<x, "b", "A">>, <<>>) : x \in {"a", "e"}} \cup {C(op, <<x>>, <<>>) : op \in {"ptr", "pte"}, x \in {"a", "f"}}
VR == {"v0", "v1"}
Values ==
    {C("vnew", <<v, t>>, <<5>>) : v \in VR, t \in Classes} \cup {C("vref", <<v, t>>, <<>>) : v \in VR, t \in Classes}
    \cup {C("vcref", <<v, t>>, <<>>) : v \in {"v0"}, t \in Classes} \cup {C("vdef", <<"v0", t>>, <<>>) : t \in Classes}
    \cup {C(op, <<v, w>>, <<>>) : op \in {"vcopy", "vmove"}, v \in VR, w \in VR}
    \cup {C("vget", <<v, t>>, <<>>) : v \in VR, t \in Classes \cup {"int"}}
    \cup {C("vcast", <<v, t>>, <<>>) : v \in {"v0"}, t \in {"A", "A&", "const A&", "B&", "C", "C&&", "A&&", "D&", "int"}}
    \cup {C(op, <<v, "a">>, <<>>) : op \in {"vcall", "vfld", "vfldbad"}, v \in {"v0"}}
Cmds == CASE Config = "members" -> Members [] Config = "registry" -> Registered [] Config = "values" -> Values
Names(st_) == UNION {{<<t, n>> : n \in DOMAIN st_.fns[t]} : t \in Classes}
Well(s) ==
    /\ \A t \in Classes : s.flds[t] \cap DOMAIN s.fns[t] = {}
    /\ \A x \in Names(s) : \A i, j \in 1..Len(s.fns[x[1]][x[2]]) : i # j =>
         Ovl(s.fns[x[1]][x[2]], x[2])[i] # Ovl(s.fns[x[1]][x[2]], x[2])[j]
    /\ \A v \in VRegs : s.vals[v].t # "void" => s.vals[v].o \in DOMAIN s.obj
    /\ \A p \in DOMAIN s.sc : p = <<>> \/ Front(p) \in DOMAIN s.sc
    /\ \A p \in s.loaders : p \in s.loaders /\ Front(p) \in DOMAIN s.sc /\ Last(p) \in s.sc[Front(p)].types
    /\ s.loaded \subseteq s.loaders
Forget(s) == [s EXCEPT !.loaded = {}]
\* a refusal changes nothing but may have loaded the type which it looked up;
\* looking up never changes anything else either
StepLaws(old, c, x) ==
    /\ x.r[1] = "err" => Forget(x.st) = Forget(old)
    /\ c.op \in {"sget", "styp", "type", "ptr", "pte", "sfunc", "fnget", "fncget", "fldget", "fldcget", "ovget", "tval", "tbad",
                 "vget", "vas", "vfld", "vfldbad"} => Forget(x.st) = Forget(old)
    /\ c.op \notin {"call", "fcall", "scall", "vcall"} => x.st.runs = old.runs
    /\ c.op \in {"call", "fcall", "scall", "vcall"} => x.st.runs - old.runs = IF x.r[1] = "err" THEN 0 ELSE 1
    \* repeating a refused operation is refused again
    /\ x.r[1] = "err" => Step(x.st, c).r = x.r
    \* what was added once can't be added again
    /\ (c.op \in {"alias", "tfld", "trait", "setptr"} /\ x.r[1] = "ok") => Step(x.st, c).r[1] = "err"
    \* a member which was added can be looked up
    /\ (c.op = "tfn" /\ x.r[1] = "ok") => Step(x.st, C("fnget", <<c.a[1], c.a[2]>>, <<>>)).r[1] = "ok"
Init == st = Step(Step(InitState, C("tfn", <<"A", "a", "s1">>, <<7>>)).st, C("tfld", <<"A", "b">>, <<>>)).st
Next == \E c \in Cmds : \E x \in {Step(st, c)} :
          /\ st' = x.st
          /\ Assert(StepLaws(st, c, x), <<"step breaks a law", c, x.r>>)
Spec == Init /\ [][Next]_st
Sane == Well(st)
Bound == TLCGet("level") <= Depth
=============================================================================
