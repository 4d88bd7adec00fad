------------------------------- MODULE Errors -------------------------------
(* Misuse: which operations are refused, what the report has to name in    *)
(* full, and that a refused operation changes nothing.                     *)
(*   Step(st, cmd) == [st |-> state afterwards, r |-> answer]              *)
(* A refusal answers <<"err", key, name, ...>>: the names the message must *)
(* mention; refusals with the same key (if not "") have to be worded alike *)
(* whatever the names and their lengths are.                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt
Child(x, y) == x = y \/ (x = "B" /\ y = "A")
Conv(x, y) == FALSE
INSTANCE Sigs WITH IsChild <- Child, HasConv <- Conv

Put(f, k, v) == [x \in (DOMAIN f) \cup {k} |-> IF x = k THEN v ELSE f[x]]
Empty == [x \in {} |-> 0]
Syms == {"a", "b", "c", "d", "e", "f"}
Classes == {"A", "B", "C", "D"}
Named == Syms \cup Classes
Objs == [A |-> "oA", B |-> "oB", C |-> "oC", D |-> "oD"]
VRegs == {"v0", "v1", "v2"}
Copiable(t) == t \in {"A", "B", "int"}
Movable(t) == t \in {"A", "B", "C", "int"}

\* the pool of function signatures
SigOf(s) ==
    CASE s = "s0" -> Sig("", CA("int"), <<>>)
      [] s = "s1" -> Sig("", CA("int"), <<LN("A")>>)
      [] s = "s2" -> Sig("", CA("int"), <<LC("A")>>)
      [] s = "s3" -> Sig("", CA("int"), <<LN("B")>>)
      [] s = "s4" -> Sig("", CA("int"), <<CA("A")>>)
      [] s = "s5" -> Sig("", CA("int"), <<RN("C")>>)
      [] s = "s6" -> Sig("", CA("int"), <<CA("int"), CA("int")>>)
      [] s = "s7" -> Sig("", CA("C"), <<CA("int")>>)
      [] s = "s8" -> Sig("", CA("int"), <<CA("C")>>)
      [] s = "s9" -> Sig("", CA("int"), <<RN("A"), CA("C")>>)
      [] s = "s10" -> Sig("", CA("int"), <<LN("D"), RN("C")>>)
SigIds == {"s0", "s1", "s2", "s3", "s4", "s5", "s6", "s7", "s8", "s9", "s10"}
ClassesOf(f) == {f.ret.t} \cup {f.args[i].t : i \in 1..Len(f.args)}

Node == [types |-> {}, fns |-> Empty]
VoidVal == [t |-> "void", c |-> "n", own |-> FALSE, o |-> ""]
InitState == [
    alias |-> Empty, loaders |-> {}, loaded |-> {}, ptr |-> Empty,
    sc |-> [p \in {<<>>} |-> Node],
    fns |-> [t \in Classes |-> Empty],           \* name -> sequence of [s, k]
    flds |-> [t \in Classes |-> {}],
    traits |-> Empty,                            \* entity -> name -> number
    obj |-> [o \in {"oA", "oB", "oC", "oD"} |->
                CASE o = "oA" -> 10 [] o = "oB" -> 20 [] o = "oC" -> 30 [] OTHER -> 40],
    next |-> 0, runs |-> 0,
    vals |-> [v \in VRegs |-> VoidVal]]

Res(st, r) == [st |-> st, r |-> r]
Ok(st) == Res(st, <<"ok">>)
ErrNames(st, key, req) == Res(st, <<"err", key>> \o SetToSeq(req \cap Named))

(******************************** functions *******************************)
Ovl(o, name) == [i \in 1..Len(o) |-> [SigOf(o[i].s) EXCEPT !.name = name]] \o <<>>
OwnFns(st, t, n) == IF t \in Classes /\ n \in DOMAIN st.fns[t] THEN st.fns[t][n] ELSE <<>>
Parent(t) == IF t = "B" THEN "A" ELSE ""
FindFns(st, t, n) == IF OwnFns(st, t, n) # <<>> \/ Parent(t) = "" THEN OwnFns(st, t, n) ELSE OwnFns(st, Parent(t), n)
HasFld(st, t, n) == n \in st.flds[t] \/ (Parent(t) # "" /\ n \in st.flds[Parent(t)])
Ambiguous(o, name, s) == \E i \in 1..Len(o) :
    Test([SigOf(s) EXCEPT !.name = name], SigOf(o[i].s).ret, SigOf(o[i].s).args) = "E"

\* what can never be handed over, however it is described
NoTransfer(b) == b.t # "void" /\ ((b.r = "C" /\ ~ Copiable(b.t)) \/ (b.r = "R" /\ ~ Movable(b.t)))

Form(f) ==
    CASE f = "int" -> RN("int") [] f = "A&" -> LN("A") [] f = "cA&" -> LC("A") [] f = "A&&" -> RN("A")
      [] f = "B&" -> LN("B") [] f = "C&" -> LN("C") [] f = "C&&" -> RN("C") [] f = "D&" -> LN("D")
      [] f = "str" -> RN("std::string")
Want(w) == IF w = "void" THEN CA("void") ELSE CA(w)

\* arguments by form; the body of a function with A& or B& adds one to the object
After(st, fs, o, fn) ==
    LET moved == {Objs[fs[i].t] : i \in {j \in 1..Len(fs) : fs[j].r = "R" /\ fs[j].t \in Classes}}
        bumped == {Objs[fs[i].t] : i \in {j \in 1..Len(fs) : fn.args[j].r = "L" /\ fn.args[j].c = "n" /\ fs[j].t \in Classes
                                                            /\ fn.args[j].t \in {"A", "B"}}}
    IN [st EXCEPT !.runs = @ + 1,
                  !.obj = [x \in DOMAIN @ |-> IF x \in moved THEN -1 ELSE IF x \in bumped THEN @[x] + 1 ELSE @[x]]]
CallOvl(st, o, name, want, fs, names) ==
    LET sigs == Ovl(o, name)
        i == Choose(sigs, want, fs)
        ids == {fs[k].t : k \in 1..Len(fs)} \cup {want.t} \cup {name}
    IN IF i <= 0 THEN ErrNames(st, "", ids)
       ELSE IF NoTransfer(want) THEN ErrNames(st, "", {want.t})
       ELSE IF \E k \in 1..Len(fs) : NoTransfer(sigs[i].args[k]) THEN
            ErrNames(st, "", {(CHOOSE b \in {sigs[i].args[k] : k \in 1..Len(fs)} : NoTransfer(b)).t})
       ELSE Res(After(st, fs, o, sigs[i]), <<"ok", IF want.t = "void" THEN "void" ELSE ToString(o[i].k)>>)

AddFnTo(st, o, n, s, k, F(_)) ==
    IF Ambiguous(o, n, s) THEN ErrNames(st, "", {n} \cup ClassesOf(SigOf(s)))
    ELSE Ok(F(Append(o, [s |-> s, k |-> k])))

(********************************* scopes *********************************)
FullSeq(cs) == cs
RECURSIVE Make(_, _, _)
Make(sc, p, cs) == IF cs = <<>> THEN sc
    ELSE LET q == Append(p, cs[1]) IN Make(IF q \in DOMAIN sc THEN sc ELSE Put(sc, q, Node), q, Tail(cs))
\* the first component which is missing, or ""
RECURSIVE Missing(_, _, _)
Missing(sc, p, cs) == IF cs = <<>> THEN "" ELSE IF Append(p, cs[1]) \notin DOMAIN sc THEN cs[1]
                      ELSE Missing(sc, Append(p, cs[1]), Tail(cs))
\* "" when the type can be entered, or the name that is in the way: <<kind, name>>
RECURSIVE InTheWay(_, _, _)
InTheWay(sc, p, cs) ==
    IF Len(cs) = 1 \/ p \notin DOMAIN sc THEN <<>>
    ELSE IF cs[1] \in sc[p].types THEN <<"type", cs[1]>>
    ELSE IF cs[1] \in DOMAIN sc[p].fns THEN <<"fn", cs[1]>>
    ELSE InTheWay(sc, Append(p, cs[1]), Tail(cs))
EnterType(st, cs) ==
    LET p == Front(cs) m == Make(st.sc, <<>>, p)
    IN [st EXCEPT !.sc = [m EXCEPT ![p].types = @ \cup {Last(cs)}]]
ReqOfWay(w) == IF w[1] = "fn" THEN {w[2]} ELSE {}

RECURSIVE ScopeType(_, _, _)
ScopeType(st, p, cs) ==          \* [t, req]: the type's name, or <<>> and what must be named
    IF cs[1] \in st.sc[p].types THEN
        LET full == Append(p, cs[1]) IN
        IF full \notin st.loaders THEN [t |-> <<>>, l |-> <<>>, req |-> {cs[1]}]
        ELSE IF Len(cs) > 1 THEN [t |-> <<>>, l |-> full, req |-> {}] ELSE [t |-> full, l |-> full, req |-> {}]
    ELSE IF Len(cs) = 1 \/ Append(p, cs[1]) \notin DOMAIN st.sc THEN [t |-> <<>>, l |-> <<>>, req |-> {cs[1]}]
    ELSE ScopeType(st, Append(p, cs[1]), Tail(cs))

(******************************** commands ********************************)
\* dynamic types by (possibly aliased) name
Resolve(st, x) == IF x \in DOMAIN st.alias THEN st.alias[x] ELSE x
KnownType(st, x) == <<Resolve(st, x)>> \in st.loaders
TypeErr(st, x) == ErrNames(st, IF x \in DOMAIN st.alias THEN "" ELSE "type", {Resolve(st, x)})
Load(st, x) == [st EXCEPT !.loaded = @ \cup {<<Resolve(st, x)>>}]
\* by a name of several components: only single ones have aliases
ResolveP(st, p) == IF Len(p) = 1 THEN <<Resolve(st, p[1])>> ELSE p

\* user formats: the length of the message
Digits(n) == Len(ToString(n))
UserLen(f, n) ==
    CASE f = "plain" -> n [] f = "s" -> n + 2 [] f = "ss" -> 2 * n + 9 [] f = "sd" -> n + 4 + Digits(n)
      [] f = "none" -> 11 [] f = "lu" -> n + 1 + Digits(n) [] f = "cs" -> n + 3 [] f = "cstr" -> n + 2

EntName(a) == IF a[1] = "type" THEN <<"type", a[2]>> ELSE IF a[1] = "scope" THEN <<"scope">> ELSE <<a[1], a[2], a[3]>>
\* what the traits are put on: exists?, and what the refusal names
EntErr(st, a) ==
    CASE a[1] = "fn" /\ a[3] \notin DOMAIN st.fns[a[2]] -> <<"fnget", a[2], a[3]>>
      [] a[1] = "fld" /\ a[3] \notin st.flds[a[2]] -> <<"fldget", a[2], a[3]>>
      [] OTHER -> <<>>
TraitsOf(st, e) == IF e \in DOMAIN st.traits THEN st.traits[e] ELSE Empty

KeyIf(key, v) == IF v.t = "void" THEN "" ELSE key
ValStr(st, v) == IF v.t = "void" THEN "void" ELSE v.t \o "." \o v.c \o "." \o (IF v.own THEN "own" ELSE v.o)
                 \o "." \o ToString(st.obj[v.o])
NewObj(st, dst, t, n) ==
    LET o == "s" \o ToString(st.next) IN
    [st EXCEPT !.next = @ + 1, !.obj = Put(@, o, n), !.vals[dst] = [t |-> t, c |-> "n", own |-> TRUE, o |-> o]]
Target(x) == CASE x = "A" -> CA("A") [] x = "A&" -> LN("A") [] x = "const A&" -> LC("A") [] x = "B&" -> LN("B")
               [] x = "C" -> CA("C") [] x = "C&&" -> RN("C") [] x = "int" -> CA("int") [] x = "D&" -> LN("D")
               [] x = "A&&" -> RN("A")
CastTo(st, v, b) ==      \* [ok, st]
    IF ~ Child(v.t, b.t) THEN [ok |-> FALSE, st |-> st]
    ELSE IF b.r = "L" THEN [ok |-> b.c = "c" \/ v.c = "n", st |-> st]
    ELSE IF b.r = "C" THEN [ok |-> Copiable(b.t), st |-> st]
    ELSE [ok |-> Movable(b.t), st |-> IF v.c = "n" THEN [st EXCEPT !.obj[v.o] = -1] ELSE st]

Comps(a, k) == SubSeq(a, k, Len(a))
TStr(t) == JoinStr(t, "::")
Dump(st) ==
    UNION {{"fn:" \o t \o ":" \o SigStr(Ovl(st.fns[t][n], n)[i]) : i \in 1..Len(st.fns[t][n])} : <<t, n>> \in
              {<<t, n>> \in Classes \X Syms : n \in DOMAIN st.fns[t]}}
    \cup UNION {{"fld:" \o t \o ":" \o n : n \in st.flds[t]} : t \in Classes}
    \cup UNION {{"sc:" \o JoinStr(p, "::")} \cup {"sct:" \o JoinStr(Append(p, t), "::") : t \in st.sc[p].types}
                \cup UNION {{"scf:" \o JoinStr(p, "::") \o ":" \o SigStr(Ovl(st.sc[p].fns[n], n)[i])
                             : i \in 1..Len(st.sc[p].fns[n])} : n \in DOMAIN st.sc[p].fns} : p \in DOMAIN st.sc}
    \cup UNION {{"tr:" \o JoinStr(e, "/") \o ":" \o n \o "=" \o ToString(st.traits[e][n]) : n \in DOMAIN st.traits[e]}
                : e \in DOMAIN st.traits}
    \cup {"obj:" \o o \o "=" \o ToString(st.obj[o]) : o \in {"oA", "oB", "oC", "oD"}}
    \cup {"val:" \o v \o "=" \o ValStr(st, st.vals[v]) : v \in VRegs}
    \cup {"runs=" \o ToString(st.runs)}

Step(st, c) ==
    LET a == c.a n == c.n op == c.op IN
    CASE op = "names" -> Ok(st)
      [] op = "user" -> ErrNames(st, "user:" \o a[1] \o ":" \o ToString(UserLen(a[1], n[1])), {})
      [] op = "fmt" -> Res(st, <<ToString(UserLen(a[1], n[1])), "full">>)
      \* the registry
      [] op = "alias" ->         \* a = <<id, alias>>
            IF a[1] = "" \/ a[2] = "" THEN ErrNames(st, "", {a[1], a[2]})
            ELSE IF a[2] \in DOMAIN st.alias THEN ErrNames(st, "alias", {a[1], a[2], st.alias[a[2]]})
            ELSE Ok([st EXCEPT !.alias = Put(@, a[2], a[1])])
      [] op = "loader" ->
            LET w == InTheWay(st.sc, <<>>, a) IN
            IF w # <<>> THEN ErrNames(st, "", ReqOfWay(w))
            ELSE Ok([EnterType(st, a) EXCEPT !.loaders = @ \cup {a}])
      [] op = "noloader" -> ErrNames(st, "noloader", {a[1]})
      [] op = "addempty" -> ErrNames(st, "", {})
      [] op = "type" -> LET p == ResolveP(st, a) IN
            IF p \in st.loaders THEN Res([st EXCEPT !.loaded = @ \cup {p}], <<"ok", TStr(p)>>)
            ELSE ErrNames(st, IF Len(a) = 1 /\ a[1] \notin DOMAIN st.alias THEN "type" ELSE "", Range(p))
      [] op = "setptr" ->        \* a = <<type, pointer, pointee>>
            IF ~ KnownType(st, a[1]) THEN TypeErr(st, a[1])
            ELSE IF Resolve(st, a[1]) \in DOMAIN st.ptr THEN ErrNames(Load(st, a[1]), "setptr", {Resolve(st, a[1])})
            ELSE Ok([Load(st, a[1]) EXCEPT !.ptr = Put(@, Resolve(st, a[1]), <<a[2], a[3]>>)])
      [] op \in {"ptr", "pte"} ->
            IF ~ KnownType(st, a[1]) THEN TypeErr(st, a[1])
            ELSE LET x == Resolve(st, a[1]) IN
                 IF x \notin DOMAIN st.ptr THEN ErrNames(Load(st, a[1]), op, {x})
                 ELSE Res(Load(st, a[1]), <<"ok", st.ptr[x][IF op = "ptr" THEN 1 ELSE 2]>>)
      \* scopes
      [] op = "smk" -> Ok([st EXCEPT !.sc = Make(@, <<>>, a)])
      [] op = "sget" -> LET m == Missing(st.sc, <<>>, a) IN
            IF m # "" THEN ErrNames(st, "", {m}) ELSE Res(st, <<"ok", TStr(a)>>)
      [] op = "stype" ->
            LET w == InTheWay(st.sc, <<>>, a) IN
            IF w # <<>> THEN ErrNames(st, "", ReqOfWay(w)) ELSE Ok(EnterType(st, a))
      [] op = "sfn" ->           \* a = <<sig, components>>
            LET cs == Comps(a, 2) p == Front(cs) nm == Last(cs)
                o == IF p \in DOMAIN st.sc /\ nm \in DOMAIN st.sc[p].fns THEN st.sc[p].fns[nm] ELSE <<>>
            IN AddFnTo(st, o, nm, a[1], n[1], LAMBDA x :
                 [st EXCEPT !.sc = [Make(@, <<>>, p) EXCEPT ![p].fns = Put(@, nm, x)]])
      [] op = "sfunc" ->
            LET p == Front(a) nm == Last(a) m == Missing(st.sc, <<>>, p) IN
            IF m # "" THEN ErrNames(st, "", {m})
            ELSE IF nm \notin DOMAIN st.sc[p].fns THEN ErrNames(st, "", {nm})
            ELSE Res(st, <<"ok", ToString(Len(st.sc[p].fns[nm]))>>)
      [] op = "scall" ->         \* called with no argument
            LET p == Front(a) nm == Last(a) m == Missing(st.sc, <<>>, p) IN
            IF m # "" THEN ErrNames(st, "", {m})
            ELSE IF nm \notin DOMAIN st.sc[p].fns THEN ErrNames(st, "", {nm})
            ELSE CallOvl(st, st.sc[p].fns[nm], nm, CA("int"), <<>>, {})
      [] op = "styp" ->
            LET x == ScopeType(st, <<>>, a)
                s == IF x.l = <<>> THEN st ELSE [st EXCEPT !.loaded = @ \cup {x.l}]
            IN IF x.t = <<>> THEN ErrNames(s, "", x.req) ELSE Res(s, <<"ok", TStr(x.t)>>)
      [] op = "bad" ->           \* a = <<operation, form, names>>: a malformed name
            ErrNames(st, "", IF a[2] = "x:y" THEN {a[3], a[4]} ELSE IF a[2] = "<x" THEN {a[3]} ELSE {a[4], a[5]})
      \* members
      [] op = "tfn" ->           \* a = <<class, name, sig>>
            IF a[2] \in st.flds[a[1]] THEN ErrNames(st, "", {a[1], a[2]})
            ELSE AddFnTo(st, OwnFns(st, a[1], a[2]), a[2], a[3], n[1], LAMBDA x : [st EXCEPT !.fns[a[1]] = Put(@, a[2], x)])
      [] op = "tfld" ->
            IF a[2] \in DOMAIN st.fns[a[1]] THEN ErrNames(st, "", {a[1], a[2]})
            ELSE IF a[2] \in st.flds[a[1]] THEN ErrNames(st, "", {a[1], a[2]})
            ELSE Ok([st EXCEPT !.flds[a[1]] = @ \cup {a[2]}])
      [] op = "badfld" -> ErrNames(st, "badfld", {a[2]})     \* a field which is a reference
      [] op = "fnget" -> LET o == OwnFns(st, a[1], a[2]) IN
            IF o = <<>> THEN ErrNames(st, "fnget", {a[1], a[2]}) ELSE Res(st, <<"ok", ToString(Len(o))>>)
      [] op = "fncget" -> LET o == FindFns(st, a[1], a[2]) IN
            IF o = <<>> THEN ErrNames(st, "fncget", {a[2]}) ELSE Res(st, <<"ok", ToString(Len(o))>>)
      [] op = "fldget" -> IF a[2] \in st.flds[a[1]] THEN Res(st, <<"ok", a[2]>>) ELSE ErrNames(st, "fldget", {a[1], a[2]})
      [] op = "fldcget" -> IF HasFld(st, a[1], a[2]) THEN Res(st, <<"ok", a[2]>>) ELSE ErrNames(st, "fldcget", {a[2]})
      [] op = "ovget" ->         \* a = <<class, name, sig>>: the overload for that signature
            LET o == OwnFns(st, a[1], a[2])
                sg == SigOf(a[3])
                ok == {i \in 1..Len(o) : Test(Ovl(o, a[2])[i], sg.ret, sg.args) # "N"}
            IN IF o = <<>> THEN ErrNames(st, "fnget", {a[1], a[2]})
               ELSE IF ok = {} THEN ErrNames(st, "", {a[2]} \cup ClassesOf(sg))
               ELSE Res(st, <<"ok", ToString(CHOOSE i \in ok : \A j \in ok : i <= j)>>)
      [] op = "call" ->          \* a = <<class, name, want, forms>>
            LET o == FindFns(st, a[1], a[2]) fs == [i \in 1..(Len(a) - 3) |-> Form(a[3 + i])] \o <<>> IN
            IF o = <<>> THEN ErrNames(st, "fncget", {a[2]}) ELSE CallOvl(st, o, a[2], Want(a[3]), fs, {})
      [] op = "fcall" ->         \* the first overload is called itself
            LET o == OwnFns(st, a[1], a[2]) fs == [i \in 1..(Len(a) - 3) |-> Form(a[3 + i])] \o <<>>
                sg == Ovl(o, a[2])[1] w == Want(a[3])
            IN IF o = <<>> THEN ErrNames(st, "fnget", {a[1], a[2]})
               ELSE IF Test(sg, w, fs) = "N"
               THEN ErrNames(st, "", ClassesOf(sg) \cup {w.t} \cup {fs[i].t : i \in 1..Len(fs)})
               ELSE CallOvl(st, <<o[1]>>, a[2], w, fs, {})
      \* traits: a = <<trait, entity>>
      [] op = "trait" ->
            LET e == EntName(Tail(a)) x == EntErr(st, Tail(a)) IN
            IF x # <<>> THEN ErrNames(st, x[1], {x[2], x[3]})
            ELSE IF a[1] \in DOMAIN TraitsOf(st, e) THEN ErrNames(st, "trait", {a[1]})
            ELSE Ok([st EXCEPT !.traits = Put(@, e, Put(TraitsOf(st, e), a[1], n[1]))])
      [] op \in {"tval", "tbad"} ->     \* as an int; as an A
            LET e == EntName(Tail(a)) x == EntErr(st, Tail(a)) IN
            IF x # <<>> THEN ErrNames(st, x[1], {x[2], x[3]})
            ELSE IF a[1] \notin DOMAIN TraitsOf(st, e) THEN ErrNames(st, "tval", {a[1]})
            ELSE IF op = "tbad" THEN ErrNames(st, "tbad", {"A"})
            ELSE Res(st, <<"ok", ToString(TraitsOf(st, e)[a[1]])>>)
      \* values
      [] op = "vnew" -> IF a[2] = "D" THEN ErrNames(st, "store", {"D"}) ELSE Ok(NewObj(st, a[1], a[2], n[1]))
      [] op \in {"vref", "vcref"} ->
            Ok([st EXCEPT !.vals[a[1]] = [t |-> a[2], c |-> IF op = "vref" THEN "n" ELSE "c", own |-> FALSE, o |-> Objs[a[2]]]])
      [] op = "vdef" -> IF a[2] = "D" THEN ErrNames(st, "", {"D"}) ELSE Ok(NewObj(st, a[1], a[2], 0))
      [] op = "vcopy" -> LET v == st.vals[a[2]] IN
            IF ~ Copiable(v.t) THEN ErrNames(st, KeyIf("vcopy", v), {v.t}) ELSE Ok(NewObj(st, a[1], v.t, st.obj[v.o]))
      [] op = "vmove" -> LET v == st.vals[a[2]] IN
            IF ~ Movable(v.t) THEN ErrNames(st, KeyIf("vmove", v), {v.t})
            ELSE LET s == NewObj([st EXCEPT !.vals[a[2]] = VoidVal, !.obj[v.o] = IF v.c = "n" THEN -1 ELSE @], a[1], v.t, st.obj[v.o])
                 IN Ok(s)
      [] op \in {"vget", "vas"} -> LET v == st.vals[a[1]] IN
            IF Child(v.t, a[2]) THEN Res(st, <<"ok", ToString(st.obj[v.o])>>)
            ELSE ErrNames(st, IF a[2] = "int" THEN "" ELSE KeyIf("get", v), {v.t, a[2]})
      [] op = "vcast" -> LET v == st.vals[a[1]] b == Target(a[2]) x == CastTo(st, v, b) IN
            IF v.t = "void" \/ ~ x.ok THEN ErrNames(st, "", {v.t, b.t}) ELSE Res(x.st, <<"ok", ToString(st.obj[v.o])>>)
      [] op = "vconv" -> ErrNames(st, KeyIf("vconv", st.vals[a[1]]), {a[2]})
      [] op = "vbool" -> ErrNames(st, KeyIf("vbool", st.vals[a[1]]), {})
      [] op = "vassign" -> ErrNames(st, "", {st.vals[a[1]].t})
      [] op = "vfld" -> LET v == st.vals[a[1]] IN
            IF v.t = "void" \/ ~ HasFld(st, v.t, a[2]) THEN ErrNames(st, IF v.t = "void" THEN "" ELSE "fldcget", {a[2]})
            ELSE Res(st, <<"ok", ToString(st.obj[v.o])>>)
      [] op = "vfldbad" -> LET v == st.vals[a[1]] IN      \* the field as an A&
            IF v.t = "void" \/ ~ HasFld(st, v.t, a[2]) THEN ErrNames(st, IF v.t = "void" THEN "" ELSE "fldcget", {a[2]})
            ELSE ErrNames(st, "", {"A"})
      [] op = "vcall" -> LET v == st.vals[a[1]] o == FindFns(st, v.t, a[2]) IN
            IF o = <<>> THEN ErrNames(st, IF v.t = "void" THEN "" ELSE "fncget", {a[2]})
            ELSE LET arg == Arg(v.t, "L", v.c)
                     x == CallOvl(st, o, a[2], CA("int"), <<arg>>, {})
                     i == Choose(Ovl(o, a[2]), CA("int"), <<arg>>)
                     bump == i > 0 /\ x.r[1] = "ok" /\ Ovl(o, a[2])[i].args[1] \in {LN("A"), LN("B")}
                 IN [st |-> IF x.r[1] # "ok" THEN st
                            ELSE [st EXCEPT !.runs = @ + 1, !.obj[v.o] = IF bump THEN @ + 1 ELSE @], r |-> x.r]
      [] op = "dump" -> Res(st, SetToSeq(Dump(st)))
Unordered(e) == e.op = "dump"
=============================================================================
