------------------------------- MODULE Decl -------------------------------
(* What the declaration macros register for a class (property P20) and    *)
(* what the operators of dynamic values do with it (property P21).        *)
(*                                                                        *)
(* The classes come from lib/declgen.py as descriptions of the C++: what  *)
(* the class can do (default, copy and move construction, copy and move   *)
(* assignment: y, d(eleted), u(ndeclared) or the compiler's (i)), its members with their      *)
(* access and signatures, and the macros its declaration uses.  An object *)
(* is a number and how it was last made or assigned; every member has a   *)
(* tag which makes its result and its effects different from all others.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt, Json, IOUtils

Pool == JsonDeserialize(IOEnv.POOL)
Names == {Pool.classes[i].name : i \in 1..Len(Pool.classes)}
Cls == [n \in Names |-> Pool.classes[CHOOSE i \in 1..Len(Pool.classes) : Pool.classes[i].name = n]]
Aliases == {Cls[n].alias : n \in Names} \ {""}
Real == [x \in Names \cup Aliases \cup {"int", "bool", "void"} |->
            IF x \in Aliases THEN CHOOSE n \in Names : Cls[n].alias = x ELSE x]
Known(x) == x \in DOMAIN Real

(************************** what C++ says of a class **********************)
Cap(t, c) == Cls[t].caps[c]
HasD(t) == Cap(t, "D") \in {"y", "i"}
\* T(): what the class writes, or zeroes when the constructor is the compiler's
Def(t) == IF Cap(t, "D") = "y" THEN [n |-> 5, how |-> "d"] ELSE [n |-> 0, how |-> ""]
HasCC(t) == Cap(t, "CC") = "y"
HasMC(t) == Cap(t, "MC") = "y" \/ (Cap(t, "MC") = "u" /\ HasCC(t))       \* std::is_move_constructible
HasCA(t) == Cap(t, "CA") = "y"
HasMA(t) == Cap(t, "MA") = "y" \/ (Cap(t, "MA") = "u" /\ HasCA(t))
\* the overload set found by T::name, each with the class it belongs to
RECURSIVE Lookup(_, _)
Lookup(t, name) ==
    LET own == SelectSeq(Cls[t].members, LAMBDA m : m.name = name) IN
    IF own # <<>> THEN [i \in 1..Len(own) |-> [cls |-> t, m |-> own[i]]]
    ELSE IF Cls[t].base = "" THEN <<>> ELSE Lookup(Cls[t].base, name)

(*************************** what gets registered *************************)
Parent(t) == IF t \in Names THEN Cls[t].parent ELSE ""
RECURSIVE ChainOf(_)
ChainOf(t) == {t} \cup (IF Parent(t) = "" THEN {} ELSE ChainOf(Parent(t)))
ChainTab == [t \in Names |-> ChainOf(t)]
Child(x, y) == x = y \/ (x \in Names /\ y \in ChainTab[x])
CastNames == [t \in Names |-> {c \in {"bool", "int"} : \E x \in ChainTab[t] : \E i \in 1..Len(Cls[x].regs) :
                                    Cls[x].regs[i].k = "cast" /\ Cls[x].regs[i].name = c}]
Conv(x, y) == x \in Names /\ y \in CastNames[x]
INSTANCE Sigs WITH IsChild <- Child, HasConv <- Conv

Ptr(t) == t \o "*"
F_(name, ret, args, k, tag, cv, cls) ==
    [name |-> name, ret |-> ret, args |-> args, k |-> k, tag |-> tag, cv |-> cv, cls |-> cls]
Plain(name, ret, args, k, t) == <<F_(name, ret, args, k, 0, "n", t)>>
None == <<>>
OfMember(x, name) ==
    LET recv == IF x.m.kind = "s" THEN <<>> ELSE IF x.m.cv = "c" THEN <<LC(x.cls)>> ELSE <<LN(x.cls)>> IN
    <<F_(name, x.m.ret, recv \o x.m.args, IF x.m.kind = "s" THEN "free" ELSE "mem", x.m.tag, x.m.cv, x.cls)>>
Piece(t, p) ==
    CASE p = "defcons" -> IF HasD(t) /\ HasMC(t) THEN Plain(t, CA(t), <<>>, "def", t) ELSE None
      [] p = "copycons" -> IF HasCC(t) /\ HasMC(t) THEN Plain(t, CA(t), <<LC(t)>>, "copy", t) ELSE None
      [] p = "movecons" -> IF HasMC(t) THEN Plain(t, CA(t), <<RN(t)>>, "copy", t) ELSE None
      [] p = "copyassign" -> IF HasCA(t) THEN Plain("operator=", LN(t), <<LN(t), LC(t)>>, "cassign", t) ELSE None
      \* what is passed by T&& has to be moved out of the dynamic value
      [] p = "moveassign" -> IF HasMA(t) /\ HasMC(t) THEN Plain("operator=", LN(t), <<LN(t), RN(t)>>, "massign", t) ELSE None
      [] p = "allocdef" -> IF HasD(t) THEN Plain("new", CA(Ptr(t)), <<>>, "ndef", t) ELSE None
      [] p = "alloccopy" -> IF HasCC(t) THEN Plain("new", CA(Ptr(t)), <<LC(t)>>, "ncopy", t) ELSE None
      [] p = "allocmove" -> IF HasMC(t) THEN Plain("new", CA(Ptr(t)), <<RN(t)>>, "nmove", t) ELSE None
      [] OTHER -> None
\* an operator that isn't overloaded and is public
OpReg(t, name, arity) ==
    LET o == Lookup(t, name) IN
    IF Len(o) # 1 THEN None
    ELSE IF o[1].m.acc # "pub" \/ (arity >= 0 /\ Len(o[1].m.args) # arity) THEN None
    ELSE OfMember(o[1], name)
\* T& operator++() and T operator++(int) of the class itself, among any overloads
IncReg(t, name, post) ==
    LET o == SelectSeq(Lookup(t, name), LAMBDA x :
                 /\ x.cls = t /\ x.m.cv = "n" /\ x.m.acc = "pub"
                 /\ x.m.args = (IF post THEN <<CA("int")>> ELSE <<>>)
                 /\ x.m.ret = (IF post THEN CA(t) ELSE LN(t)))
    IN IF o = <<>> THEN None ELSE OfMember(o[1], name)
OpsOf(t, names) == FoldLeft(LAMBDA acc, n : acc \o OpReg(t, n, -1), <<>>, names)
Group(t, g) ==
    CASE g = "reflectOpAssign" -> OpsOf(t, <<"operator+=", "operator-=", "operator*=", "operator/=", "operator%=",
                                            "operator&=", "operator|=", "operator^=", "operator<<=", "operator>>=">>)
      [] g = "reflectOpIncDec" -> IncReg(t, "operator++", FALSE) \o IncReg(t, "operator--", FALSE)
                                  \o IncReg(t, "operator++", TRUE) \o IncReg(t, "operator--", TRUE)
      [] g = "reflectOpArithmetic" -> OpsOf(t, <<"operator+", "operator-", "operator/", "operator%", "operator~",
                                            "operator&", "operator|", "operator^", "operator<<", "operator>>">>)
                                      \o OpReg(t, "operator*", 1)
      [] g = "reflectOpLogical" -> OpsOf(t, <<"operator!", "operator&&", "operator||">>)
      [] g = "reflectOpComparaison" -> OpsOf(t, <<"operator==", "operator!=", "operator<", "operator>", "operator<=",
                                            "operator>=">>)
      [] OTHER -> OpsOf(t, <<"operator()", "operator[]">>) \o OpReg(t, "operator*", 0)
Groups == <<"reflectOpAssign", "reflectOpIncDec", "reflectOpArithmetic", "reflectOpLogical", "reflectOpComparaison",
            "reflectOpOther">>
Pieces(t, ps) == FoldLeft(LAMBDA acc, p : acc \o Piece(t, p), <<>>, ps)
Registers(t, r) ==
    CASE r.k = "plumbing" -> Pieces(t, <<"defcons", "copycons", "copyassign", "movecons", "moveassign">>)
      [] r.k = "allocplumbing" -> Pieces(t, <<"allocdef", "alloccopy", "allocmove">>)
      \* new T, which initialises nothing of a plain class
      [] r.k = "alloc" -> Plain("new", CA(Ptr(t)), <<>>, IF Cap(t, "D") = "i" THEN "ub" ELSE "ndef", t)
      [] r.k \in {"defcons", "copycons", "movecons", "copyassign", "moveassign", "allocdef", "alloccopy", "allocmove"} -> Piece(t, r.k)
      [] r.k = "operators" -> FoldLeft(LAMBDA acc, g : acc \o Group(t, g), <<>>, Groups)
      [] r.k = "group" -> Group(t, r.name)
      [] r.k = "op" -> OpReg(t, r.name, -1)
      [] r.k = "fn" -> OfMember(Lookup(t, r.name)[1], r.name)
      [] r.k = "fntyped" -> OfMember(SelectSeq(Lookup(t, r.name), LAMBDA x : x.m.tag = r.tag)[1], r.name)
      [] r.k = "custom" -> <<F_(r.name, r.ret, r.args, "free", r.tag, "c", t)>>
      [] r.k = "cons" -> <<F_(t, CA(t), r.args, IF Len(r.args) = 1 THEN "cons1" ELSE "cons2", r.tag, "c", t)>>
      [] r.k = "cast" -> OfMember(Lookup(t, "operator " \o r.name)[1], "operator " \o r.name \o "()")
      [] OTHER -> None
Int_(t) == <<F_(t, CA(t), <<>>, "idef", 0, "n", t), F_(t, CA(t), <<LC(t)>>, "icopy", 0, "n", t),
             F_("operator=", LN(t), <<LN(t), LC(t)>>, "iassign", 0, "n", t),
             F_(t, CA(t), <<RN(t)>>, "icopy", 0, "n", t), F_("operator=", LN(t), <<LN(t), RN(t)>>, "iassign", 0, "n", t),
             F_("new", CA(Ptr(t)), <<>>, "ub", 0, "n", t), F_("operator+", CA("int"), <<LC(t), CA(t)>>, "iplus", 0, "c", t)>>
FnTable == [t \in Names \cup {"int", "bool", "void"} |->
    IF t \in Names THEN FoldLeft(LAMBDA acc, r : acc \o Registers(t, r), <<>>, Cls[t].regs)
    ELSE IF t = "void" THEN <<>> ELSE Int_(t)]
Own(t, n) == SelectSeq(FnTable[t], LAMBDA f : f.name = n)
RECURSIVE Find(_, _)
Find(t, n) == IF Own(t, n) # <<>> \/ Parent(t) = "" THEN Own(t, n) ELSE Find(Parent(t), n)
AllFns(t) == UNION {{FnTable[x][i].name : i \in 1..Len(FnTable[x])} : x \in IF t \in Names THEN ChainTab[t] ELSE {t}}
Listed(t) == FoldLeft(LAMBDA acc, n : acc \o Find(t, n), <<>>, SetToSeq(AllFns(t)))
Regs(t, k) == SelectSeq(Cls[t].regs, LAMBDA r : r.k = k)
HasField(t) == \E x \in ChainTab[t] : Regs(x, "field") # <<>>
Copiable(t) == \E i \in 1..Len(Find(t, t)) : Test(Find(t, t)[i], CA(t), <<CA(t)>>) # "N"
Movable(t) == \E i \in 1..Len(Find(t, t)) : Test(Find(t, t)[i], CA(t), <<RN(t)>>) # "N"

(*************************** global declarations **************************)
\* a scope's own functions: what reflectGlobalFn and reflectGlobalFnTyped name, and for a variable a function which
\* answers a copy of it and, unless it is const, one which assigns it
VName(s, v) == "gv:" \o s \o "::" \o v
GlobalRegs(s, r) ==
    IF r.k # "var" THEN <<F_(r.name, r.ret, r.args, "free", r.tag, "c", s)>>
    ELSE <<F_(r.name, r.ret, <<>>, "gget", 0, "n", VName(s, r.name))>>
         \o (IF r.cv = "c" THEN <<>> ELSE <<F_(r.name, CA("void"), <<LC(r.ret.t)>>, "gset", 0, "n", VName(s, r.name))>>)
ScopeNames == {Pool.scopes[i].name : i \in 1..Len(Pool.scopes)}
ScopeOf == [s \in ScopeNames |-> Pool.scopes[CHOOSE i \in 1..Len(Pool.scopes) : Pool.scopes[i].name = s]]
ScopeFns == [s \in ScopeNames |-> FoldLeft(LAMBDA acc, r : acc \o GlobalRegs(s, r), <<>>, ScopeOf[s].regs)]
Vars == UNION {{[s |-> s, r |-> ScopeOf[s].regs[i]] : i \in {j \in 1..Len(ScopeOf[s].regs) : ScopeOf[s].regs[j].k = "var"}} : s \in ScopeNames}
\* the scopes above each scope, as the components of its name
PathOf == [s \in ScopeNames |-> CASE s = "ns0" -> <<"ns0">> [] s = "ns0::in" -> <<"ns0", "in">> [] s = "ns2" -> <<"ns2">>
                                 [] OTHER -> <<"ns1", "deep", "er">>]
Joined(p) == FoldLeft(LAMBDA acc, x : IF acc = "" THEN x ELSE acc \o "::" \o x, "", p)
AllScopes == UNION {{Joined(SubSeq(PathOf[s], 1, i)) : i \in 1..Len(PathOf[s])} : s \in ScopeNames}
ASSUME \A s \in ScopeNames : Joined(PathOf[s]) = s
Below(x) == UNION {{PathOf[s][i + 1] : i \in {j \in 1..(Len(PathOf[s]) - 1) : Joined(SubSeq(PathOf[s], 1, j)) = x}} : s \in ScopeNames}
\* the overloads called name, looked up from scope via ("" is the root)
GlobalFn(via, name) ==
    LET hits == {p \in {<<s, f>> : s \in ScopeNames, f \in {"f", "g", "h", "k", "v", "w", "c", "d"}} :
                   p[1] \o "::" \o p[2] = (IF via = "" THEN name ELSE via \o "::" \o name)}
    IN IF hits = {} THEN <<>> ELSE LET p == CHOOSE p \in hits : TRUE IN SelectSeq(ScopeFns[p[1]], LAMBDA f : f.name = p[2])
ScopeInfo(x) ==
    LET below == SetToSeq(Below(x)) IN
    <<"id=" \o x>> \o [i \in 1..Len(below) |-> "scope:" \o below[i]]
    \o (IF x \notin ScopeNames THEN <<>> ELSE
         LET ts == ScopeOf[x].traits fs == ScopeFns[x] IN
         [i \in 1..Len(ts) |-> "trait:" \o ts[i].name \o (IF ts[i].val < 0 THEN "" ELSE "=" \o ToString(ts[i].val))]
         \o [i \in 1..Len(fs) |-> SigStr(fs[i])])

(********************************* state **********************************)
\* mem: object -> [t, n, how]; kind: g(lobal), s(torage of a value), raw (heap), x (argument)
VRegs == {"v0", "v1", "v2", "v3"}
GName(t, i) == "g:" \o t \o ":" \o ToString(i)
Cell(t, n, how) == [t |-> t, n |-> n, how |-> how]
Val(a, own, b) == [t |-> a.t, r |-> a.r, c |-> a.c, own |-> own, b |-> b, d |-> FALSE]
VoidVal == Val(CA("void"), FALSE, "")
InitState ==
    LET gs == {GName(t, i) : t \in Names, i \in 0..1}
        vs == {VName(x.s, x.r.name) : x \in Vars} IN
    [mem |-> [g \in gs \cup vs |->
        IF g \in vs THEN LET x == CHOOSE x \in Vars : VName(x.s, x.r.name) = g IN
                          Cell(x.r.ret.t, x.r.tag, IF x.r.ret.t = "int" THEN "" ELSE "i")
        ELSE LET p == CHOOSE p \in Names \X (0..1) : GName(p[1], p[2]) = g IN
                           Cell(p[1], IF p[2] = 0 THEN 3 ELSE 8, "i")],
     kind |-> [g \in gs \cup vs |-> "g"], vals |-> [v \in VRegs |-> VoidVal], ns |-> 0]
A(v) == Arg(v.t, v.r, v.c)
ShowCell(st, v) ==
    LET x == st.mem[v.b] IN
    IF v.t \in Names THEN ToString(x.n) \o "/" \o x.how
    ELSE ToString(x.n)
Describe(st, v) == IF v.t = "void" THEN "void" ELSE
    ArgStr(A(v)) \o (IF v.own THEN "|s|" ELSE "|-|") \o ShowCell(st, v)
AddMem(st, b, x, kind) ==
    [st EXCEPT !.mem = [o \in DOMAIN @ \cup {b} |-> IF o = b THEN x ELSE @[o]],
               !.kind = [o \in DOMAIN @ \cup {b} |-> IF o = b THEN kind ELSE @[o]]]
DelMem(st, gone) ==
    [st EXCEPT !.mem = [o \in (DOMAIN @) \ gone |-> @[o]], !.kind = [o \in (DOMAIN @) \ gone |-> @[o]],
               !.vals = [v \in DOMAIN @ |-> IF @[v].b \in gone THEN [@[v] EXCEPT !.d = TRUE] ELSE @[v]]]
GC(st) == LET gone == {o \in DOMAIN st.mem : st.kind[o] = "x" \/
                          (st.kind[o] = "s" /\ ~ \E v \in VRegs : st.vals[v].own /\ st.vals[v].b = o)}
          IN IF gone = {} THEN st ELSE DelMem(st, gone)
Live(st) == Cardinality({o \in DOMAIN st.mem : st.kind[o] \in {"s", "raw"} /\ st.mem[o].t \in Names})
SetReg(st, r, v) == [st EXCEPT !.vals[r] = v]

(********************************* calls **********************************)
Got(st, n, b) == [err |-> FALSE, st |-> st, n |-> n, b |-> b]
Bad(st) == [err |-> TRUE, st |-> st, n |-> 0, b |-> ""]
\* an object of class t was moved from
TakeOut(st, b, t) == IF t \in Names THEN (IF Cap(t, "MC") = "y" THEN [st EXCEPT !.mem[b].n = -1] ELSE st) ELSE st
Calc(tag, n, p, q) == (tag + 7 * n + 3 * p + 5 * q) % 1009
\* conversions are const members without arguments
Convert(st, v, t) ==
    LET o == Find(v.t, "operator " \o t \o "()")
        x == Calc(o[1].tag, st.mem[v.b].n, 0, 0)
    IN IF Len(o) # 1 THEN Bad(st) ELSE Got(st, IF t = "bool" THEN x % 2 ELSE x, "")
\* which constructor makes a parameter passed by value
CtorOf(t, v) == LET o == Find(t, t) i == Choose(o, ValArg, <<A(v)>>) IN IF i <= 0 THEN <<>> ELSE <<o[i]>>
RECURSIVE CastTo(_, _, _)
CastTo(st, v, b) ==
    IF b.r = "L" THEN
        (IF Child(v.t, b.t) /\ (b.c = "c" \/ (v.c = "n" /\ v.r = "L")) THEN Got(st, st.mem[v.b].n, v.b) ELSE Bad(st))
    ELSE IF b.r = "R" THEN
        (IF ~ Movable(b.t) THEN Bad(st)
         ELSE IF Child(v.t, b.t) THEN
            (IF v.c = "c" THEN Got(st, st.mem[v.b].n, "") ELSE Got(TakeOut(st, v.b, b.t), st.mem[v.b].n, ""))
         ELSE IF Conv(v.t, b.t) THEN Convert(st, v, b.t) ELSE Bad(st))
    ELSE IF ~ Copiable(b.t) THEN Bad(st)
    ELSE IF Child(v.t, b.t) THEN
        LET f == CtorOf(b.t, v) IN
        IF f = <<>> THEN Bad(st)
        \* through a conversion, if the class has no other constructor for it
        ELSE IF f[1].k = "cons1" THEN CastTo(st, v, f[1].args[1])
        ELSE IF f[1].args[1].r = "R" THEN Got(TakeOut(st, v.b, b.t), st.mem[v.b].n, "")
        ELSE Got(st, st.mem[v.b].n, "")
    ELSE IF Conv(v.t, b.t) THEN Convert(st, v, b.t) ELSE Bad(st)

Out(st, k, t, n, how, b, c) ==
    [st |-> st, err |-> FALSE, ub |-> FALSE, k |-> k, t |-> t, n |-> n, how |-> how, b |-> b, c |-> c]
OVoid(st) == Out(st, "void", "void", 0, "", "", "n")
OErr(st) == [OVoid(st) EXCEPT !.err = TRUE]
OUb(st) == [OVoid(st) EXCEPT !.ub = TRUE]
\* an object returned by value is moved into the dynamic value
Kept(t) == IF t \in Names /\ Cap(t, "MC") = "y" THEN "mc" ELSE IF t \in Names THEN "cc" ELSE ""
OVal(st, t, n) == Out(st, "val", t, n, Kept(t), "", "n")
ORef(st, t, b, c) == Out(st, "ref", t, 0, "", b, c)
\* what is allocated is the program's
ONew(st, t, n, how) ==
    LET b == "h" \o ToString(st.ns) IN Out(AddMem([st EXCEPT !.ns = @ + 1], b, Cell(t, n, how), "raw"), "ptr", t, 0, "", b, "n")
Assigned(st, b, n, how) == [st EXCEPT !.mem[b].n = n, !.mem[b].how = how]

NumArg(st, p, c) == IF p.r = "L" THEN st.mem[c.b].n ELSE c.n
\* references passed to a member are changed by it
RECURSIVE Touch(_, _, _, _)
Touch(st, ps, cs, tag) ==
    IF ps = <<>> THEN st
    ELSE LET s2 == IF ps[1].r = "L" /\ ps[1].c = "n" THEN [st EXCEPT !.mem[cs[1].b].n = (@ + tag) % 97] ELSE st IN
         Touch(s2, Tail(ps), Tail(cs), tag)
Returned(st, f, x, self) ==
    LET r == f.ret IN
    CASE r.t = "void" -> OVoid(st)
      [] r.t = "bool" -> OVal(st, "bool", x % 2)
      [] r.t = "int" -> IF r.r = "L" THEN ORef(st, "int", self, r.c) ELSE OVal(st, "int", x)
      [] OTHER -> IF r.r = "L" THEN ORef(st, r.t, self, r.c) ELSE OVal(st, r.t, x % 97)
Body(st, f, cs) ==
    LET t == f.cls
        isMem == f.k = "mem"
        ps == IF isMem THEN Tail(f.args) ELSE f.args
        as == IF isMem THEN Tail(cs) ELSE cs
        self == cs[1].b
        p == IF Len(ps) >= 1 THEN NumArg(st, ps[1], as[1]) ELSE 0
        q == IF Len(ps) >= 2 THEN NumArg(st, ps[2], as[2]) ELSE 0
        x == Calc(f.tag, IF isMem THEN st.mem[self].n ELSE 0, p, q)
        s1 == IF isMem /\ f.cv = "n" THEN [st EXCEPT !.mem[self].n = (@ + f.tag + p) % 97] ELSE st
        s2 == Touch(s1, ps, as, f.tag)
    IN
    CASE f.k \in {"mem", "free"} -> Returned(s2, f, x, self)
      [] f.k = "gget" -> OVal(st, f.ret.t, st.mem[t].n)
      [] f.k = "gset" -> OVoid(Assigned(st, t, p, IF st.mem[t].t = "int" THEN "" ELSE "ca"))
      [] f.k = "def" -> OVal(st, t, Def(t).n)
      [] f.k = "copy" -> OVal(st, t, p)
      [] f.k = "cons1" -> OVal(st, t, p)
      [] f.k = "cons2" -> OVal(s2, t, x % 97)
      [] f.k = "cassign" -> ORef(Assigned(st, self, q, "ca"), t, self, "n")
      [] f.k = "massign" -> ORef(Assigned(st, self, q, IF Cap(t, "MA") = "y" THEN "ma" ELSE "ca"), t, self, "n")
      [] f.k = "ndef" -> ONew(st, t, Def(t).n, Def(t).how)
      [] f.k = "ncopy" -> ONew(st, t, p, "cc")
      [] f.k = "nmove" -> ONew(st, t, p, Kept(t))
      [] f.k = "idef" -> OVal(st, t, 0)
      [] f.k = "icopy" -> OVal(st, t, p)
      [] f.k = "iassign" -> ORef([st EXCEPT !.mem[self].n = q], t, self, "n")
      [] f.k = "iplus" -> OVal(st, "int", p + q)
      [] OTHER -> OUb(st)
\* the casts of a call happen in no particular order
Tangled(vs, f) == \E i \in 1..Len(vs) : \E j \in 1..Len(vs) :
    /\ i # j /\ vs[i].b = vs[j].b /\ vs[i].b # ""
    /\ vs[i].t \in Names
    /\ f.args[i].r = "R" \/ (f.args[i].r = "C" /\ vs[i].r = "R")
RECURSIVE CastAll(_, _, _, _)
CastAll(st, vs, ps, acc) ==
    IF vs = <<>> THEN [st |-> st, cs |-> acc]
    ELSE LET c == CastTo(st, Head(vs), Head(ps)) IN CastAll(c.st, Tail(vs), Tail(ps), Append(acc, c))
\* an argument: how it looks to the choice of an overload, and the dynamic value made of it
CallOvl(st, o, as, want) ==
    LET i == Choose(o, want, [k \in 1..Len(as) |-> as[k].a] \o <<>>)
        vs == [k \in 1..Len(as) |-> as[k].v] \o <<>>
        ca == CastAll(st, vs, o[i].args, <<>>)
    IN  IF o = <<>> \/ i <= 0 THEN OErr(st)
        ELSE IF Tangled(vs, o[i]) THEN OUb(st)
        ELSE IF \E k \in 1..Len(ca.cs) : ca.cs[k].err THEN (IF ca.st = st THEN OErr(st) ELSE OUb(st))
        ELSE Body(ca.st, o[i], ca.cs)
CallFn(st, t, name, as, want) == CallOvl(st, Find(t, name), as, want)

(******************************** commands ********************************)
Res(st, r) == [st |-> st, r |-> r, ub |-> FALSE]
Ub(st) == [st |-> st, r |-> <<"ub">>, ub |-> TRUE]
V(v) == [a |-> A(v), v |-> v]
\* arguments: a register, or <kind>:<register-like name> for an int of the program (its number in n)
IsReg(x) == x \in VRegs
ArgKinds == {"i", "c", "r"}
\* or the very object a register refers to, as T& or const T&
SameN == [x \in {"&v0", "&v1", "&v2", "&v3"} |-> CASE x = "&v0" -> "v0" [] x = "&v1" -> "v1" [] x = "&v2" -> "v2" [] OTHER -> "v3"]
SameC == [x \in {"^v0", "^v1", "^v2", "^v3"} |-> CASE x = "^v0" -> "v0" [] x = "^v1" -> "v1" [] x = "^v2" -> "v2" [] OTHER -> "v3"]
SameArgs == DOMAIN SameN \cup DOMAIN SameC
SameReg(x) == IF x \in DOMAIN SameN THEN SameN[x] ELSE SameC[x]
RECURSIVE Args(_, _, _, _)
Args(st, xs, ns, acc) ==
    IF xs = <<>> THEN [st |-> st, as |-> acc]
    ELSE IF IsReg(xs[1]) THEN Args(st, Tail(xs), Tail(ns), Append(acc, V(st.vals[xs[1]])))
    ELSE IF xs[1] \in SameArgs THEN
        LET v == st.vals[SameReg(xs[1])]
            a == IF xs[1] \in DOMAIN SameN THEN LN(v.t) ELSE LC(v.t)
        IN Args(st, Tail(xs), Tail(ns), Append(acc, V(Val(a, FALSE, v.b))))
    ELSE LET b == "x" \o ToString(Len(acc))
             a == CASE xs[1] = "i" -> LN("int") [] xs[1] = "c" -> LC("int") [] OTHER -> RN("int")
             v == Val(IF xs[1] = "r" THEN LN("int") ELSE a, FALSE, b)
         IN Args(AddMem(st, b, Cell("int", ns[1], ""), "x"), Tail(xs), Tail(ns), Append(acc, [a |-> a, v |-> v]))
\* ints of the program as the call leaves them
RECURSIVE LeftInts(_, _, _)
LeftInts(st, xs, i) ==
    IF i > Len(xs) THEN <<>>
    ELSE (IF xs[i] = "i" THEN <<"x=" \o ToString(st.mem["x" \o ToString(i - 1)].n)>> ELSE <<>>) \o LeftInts(st, xs, i + 1)
NewSlot(st, r, x) ==
    LET b == "s" \o ToString(st.ns) IN
    SetReg(AddMem([st EXCEPT !.ns = @ + 1], b, x, "s"), r, Val(LN(x.t), TRUE, b))
\* gives register r what a call returned
Give(o, r, xs) ==
    IF o.ub THEN Ub(o.st)
    ELSE IF o.err THEN Res(GC(o.st), <<"err">>)
    ELSE LET ints == LeftInts(o.st, xs, 1)
             s1 == CASE o.k = "void" -> SetReg(o.st, r, VoidVal)
                     [] o.k = "val" -> NewSlot(o.st, r, Cell(o.t, o.n, o.how))
                     [] o.k = "ptr" -> SetReg(o.st, r, Val(LN(o.t), FALSE, o.b))
                     [] OTHER -> SetReg(o.st, r, Val(Arg(o.t, "L", o.c), FALSE, o.b))
             s2 == GC(s1)
         IN IF s2.vals[r].d THEN Ub(s2) ELSE Res(s2, <<"ok", Describe(s2, s2.vals[r])>> \o ints)
\* what call<bool> answers
Truth(o, xs) ==
    IF o.ub THEN Ub(o.st)
    ELSE IF o.err THEN Res(GC(o.st), <<"err">>)
    ELSE LET s1 == IF o.k = "val" THEN AddMem(o.st, "x9", Cell(o.t, o.n, o.how), "x") ELSE o.st
             v == Val(Arg(o.t, "L", o.c), FALSE, IF o.k = "val" THEN "x9" ELSE o.b)
             c == CastTo(s1, v, CA("bool"))
         IN IF c.err THEN (IF GC(o.st) = GC(o.st) THEN Res(GC(o.st), <<"err">>) ELSE Ub(o.st))
            ELSE Res(GC(c.st), <<ToString(c.n)>> \o LeftInts(c.st, xs, 1))
Seen(st, r) == LET s2 == GC(st) IN IF s2.vals[r].d THEN Ub(s2) ELSE Res(s2, <<Describe(s2, s2.vals[r])>>)
BoolT == CA("bool")
\* negation: the type's own, or the opposite of the truth value
Neg(st, v) ==
    IF Find(v.t, "operator!") # <<>> THEN Truth(CallFn(st, v.t, "operator!", <<V(v)>>, BoolT), <<>>)
    ELSE LET x == Truth(CallFn(st, v.t, "operator bool()", <<V(v)>>, BoolT), <<>>) IN
         IF x.r \in {<<"0">>, <<"1">>} THEN [x EXCEPT !.r = IF @ = <<"0">> THEN <<"1">> ELSE <<"0">>] ELSE x
Typed(r) == r.name \o (IF r.k \in {"typevalue", "fnvalue", "fieldvalue"} THEN "=" \o ToString(r.val) ELSE "")
Kinds(t, ks) == SelectSeq(Cls[t].regs, LAMBDA r : r.k \in ks)
Prefixed(pre, rs) == [i \in 1..Len(rs) |-> pre \o Typed(rs[i])]
\* the traits of a function or field are seen through every class that inherits it
RECURSIVE FnTraits(_, _)
FnTraits(t, f) ==
    IF Own(t, f) # <<>> THEN Prefixed("fn:" \o f \o ":", SelectSeq(Kinds(t, {"fntrait", "fnvalue"}), LAMBDA r : r.of = f))
    ELSE IF Parent(t) = "" THEN <<>> ELSE FnTraits(Parent(t), f)
RECURSIVE FieldTraits(_)
FieldTraits(t) ==
    IF Regs(t, "field") # <<>> THEN Prefixed("field:n:", Kinds(t, {"fieldtrait", "fieldvalue"}))
    ELSE IF Parent(t) = "" THEN <<>> ELSE FieldTraits(Parent(t))
Traits(t) ==
    (IF Kinds(t, {"plumbing", "sizeof"}) # <<>> THEN <<"trait:sizeof=ok">> ELSE <<>>)
    \o Prefixed("trait:", Kinds(t, {"typetrait", "typevalue"}))
    \o FoldLeft(LAMBDA acc, f : acc \o FnTraits(t, f), <<>>, SetToSeq(AllFns(t)))
    \o FieldTraits(t)
Info(t) ==
    <<"id=" \o t, "parent=" \o Parent(t), "copiable=" \o (IF Copiable(t) THEN "y" ELSE "n"),
      "movable=" \o (IF Movable(t) THEN "y" ELSE "n"), "pointer=n">>
    \o (IF HasField(t) THEN <<"field:n=int.C.n">> ELSE <<>>) \o Traits(t)
    \o LET l == Listed(t) IN [i \in 1..Len(l) |-> SigStr(l[i])]

Rest(s, from) == SubSeq(s, from, Len(s))
Step0(st, cmd) ==
    LET op == cmd.op
        a == cmd.a
        v1 == st.vals[a[1]]
        v2 == st.vals[a[2]]
        \* calls: the arguments start at from, each with its number
        call(r, t, name, recv, from) ==
            LET xs == Rest(a, from)
                x == Args(st, xs, cmd.n, <<>>)
            IN Give(CallFn(x.st, t, name, recv \o x.as, ValArg), r, xs)
    IN
    CASE op = "ref" -> Seen(SetReg(st, a[1], Val(LN(a[2]), FALSE, GName(a[2], cmd.n[1]))), a[1])
      [] op = "cref" -> Seen(SetReg(st, a[1], Val(LC(a[2]), FALSE, GName(a[2], cmd.n[1]))), a[1])
      [] op = "lit" -> Seen(NewSlot(st, a[1], Cell("int", cmd.n[1], "")), a[1])
      [] op = "drop" -> Res(GC(SetReg(st, a[1], VoidVal)), <<"ok">>)
      [] op = "set" -> Seen(SetReg(st, a[1], v2), a[1])
      [] op = "rval" -> Seen(SetReg(st, a[1], [v2 EXCEPT !.r = "R"]), a[1])
      [] op = "const" -> Seen(SetReg(st, a[1], [v2 EXCEPT !.r = "R", !.c = "c"]), a[1])
      [] op = "copy" -> IF ~ Copiable(v2.t) THEN Res(st, <<"err">>) ELSE Give(CallFn(st, v2.t, v2.t, <<V(v2)>>, ValArg), a[1], <<>>)
      [] op = "move" ->
            IF ~ Movable(v2.t) THEN Res(st, <<"err">>)
            ELSE LET o == CallFn(st, v2.t, v2.t, <<V([v2 EXCEPT !.r = "R"])>>, ValArg) IN
                 Give(IF o.err THEN o ELSE [o EXCEPT !.st.vals[a[2]] = VoidVal], a[1], <<>>)
      [] op = "new" -> IF ~ Known(a[2]) THEN Res(st, <<"err">>) ELSE LET t == Real[a[2]] IN call(a[1], t, t, <<>>, 3)
      [] op = "alloc" -> IF ~ Known(a[2]) THEN Res(st, <<"err">>) ELSE LET t == Real[a[2]] IN call(a[1], t, "new", <<>>, 3)
      [] op = "static" -> IF ~ Known(a[2]) THEN Res(st, <<"err">>) ELSE LET t == Real[a[2]] IN call(a[1], t, a[3], <<>>, 4)
      [] op = "global" -> LET xs == Rest(a, 4) x == Args(st, xs, cmd.n, <<>>) IN
                          Give(CallOvl(x.st, GlobalFn(a[2], a[3]), x.as, ValArg), a[1], xs)
      [] op = "var" -> LET x == st.mem["gv:" \o a[1]] IN
                       Res(st, <<IF x.t = "int" THEN ToString(x.n) ELSE ToString(x.n) \o "/" \o x.how>>)
      [] op = "vref" -> LET x == CHOOSE x \in Vars : VName(x.s, x.r.name) = "gv:" \o a[2]
                            t == x.r.ret.t IN
                        Seen(SetReg(st, a[1], Val(IF x.r.cv = "c" THEN LC(t) ELSE LN(t), FALSE, "gv:" \o a[2])), a[1])
      [] op = "scope" -> Res(st, IF a[1] \in AllScopes THEN ScopeInfo(a[1]) ELSE <<"err">>)
      [] op = "call" -> call(a[1], v2.t, a[3], <<V(v2)>>, 4)
      [] op = "un" -> Give(CallFn(st, v2.t, a[3], <<V(v2)>>, ValArg), a[1], <<>>)
      [] op = "bin" -> call(a[1], v2.t, a[3], <<V(v2)>>, 4)
      \* the program writes v++
      [] op = "post" -> LET x == Args(st, <<"r">>, <<0>>, <<>>) IN Give(CallFn(x.st, v2.t, a[3], <<V(v2)>> \o x.as, ValArg), a[1], <<>>)
      [] op = "bool" -> LET xs == Rest(a, 3) x == Args(st, xs, cmd.n, <<>>) IN
                        Truth(CallFn(x.st, v1.t, a[2], <<V(v1)>> \o x.as, BoolT), xs)
      [] op = "not" -> Neg(st, v1)
      [] op = "truth" -> Truth(CallFn(st, v1.t, "operator bool()", <<V(v1)>>, BoolT), <<>>)
      [] op = "assign" ->
            LET xs == Rest(a, 2) x == Args(st, xs, cmd.n, <<>>)
                o == CallFn(x.st, v1.t, "operator=", <<V(v1)>> \o x.as, CA("void"))
            IN IF o.ub THEN Ub(st) ELSE Res(GC(o.st), IF o.err THEN <<"err">> ELSE <<"ok">> \o LeftInts(o.st, xs, 1))
      [] op = "fld" ->
            IF v2.t \notin Names THEN Res(st, <<"err">>)
            ELSE IF a[3] # "n" \/ ~ HasField(v2.t) THEN Res(st, <<"err">>)
            ELSE Seen(SetReg(st, a[1], Val(Arg("int", "L", v2.c), FALSE, v2.b)), a[1])
      [] op = "write" -> Res([st EXCEPT !.mem[v1.b].n = cmd.n[1]], <<"ok">>)
      [] op = "same" -> Res(st, <<IF v1.b = v2.b THEN "1" ELSE "0">>)
      [] op = "show" -> Res(st, <<Describe(st, v1)>>)
      [] op = "peek" -> LET x == st.mem[GName(a[1], cmd.n[1])] IN Res(st, <<ToString(x.n) \o "/" \o x.how>>)
      [] op = "info" -> IF ~ Known(a[1]) THEN Res(st, <<"err">>) ELSE Res(st, Info(Real[a[1]]))
      [] OTHER -> Res(st, <<"unknown">>)
\* the registers a command looks at
Uses(c) ==
    LET all(from) == {c.a[i] : i \in from..Len(c.a)}
        regs(from) == (all(from) \cap VRegs) \cup {SameReg(x) : x \in all(from) \cap SameArgs} IN
    CASE c.op \in {"set", "rval", "const", "copy", "move", "same", "fld"} -> regs(2)
      [] c.op \in {"new", "alloc", "static", "global"} -> regs(3)
      [] c.op \in {"call", "un", "bin", "post"} -> regs(2)
      [] c.op \in {"bool", "not", "truth", "assign", "write", "show"} -> regs(1)
      [] OTHER -> {}
Step(st, c) ==
    IF \E v \in Uses(c) : st.vals[v].d THEN Ub(st)
    ELSE IF \E i \in 1..Len(c.a) : c.a[i] \in SameArgs /\
                LET v == st.vals[SameReg(c.a[i])] IN
                \/ (IF v.t \in Names THEN Cls[v.t].kind # "O" ELSE TRUE) \/ (c.a[i] \in DOMAIN SameN /\ v.c = "c")
                \/ i # Len(c.a) \/ c.op \notin {"call", "bin", "bool", "assign"} \/ "operator()" \in {c.a[j] : j \in 1..Len(c.a)}
                \/ i # (CASE c.op \in {"call", "bin"} -> 4 [] c.op = "bool" -> 3 [] OTHER -> 2)
         THEN Ub(st)
    ELSE IF \E v \in Uses(c) : st.vals[v].t = "void" /\ c.op \notin {"set", "show", "copy", "move"} THEN Ub(st)
    ELSE LET x == Step0(st, c) IN
         [x EXCEPT !.r = IF c.op \in {"info", "scope"} THEN @ ELSE Append(@, ToString(Live(x.st)))]
Unordered(e) == e.op \in {"info", "scope"}
=============================================================================
