---------------------------- MODULE Containers ----------------------------
(* The reflected containers and pointers (property P18): what every call  *)
(* made through a dynamic value does to the C++ object behind it.         *)
(*                                                                        *)
(* mem maps every object the program can reach to its content: the        *)
(* variables o0.., the storages s0.. of owning dynamic values and the     *)
(* heap objects c1.. handed to pointers. A dynamic value refers to a      *)
(* place: an object and a path of indexes and keys inside of it. Step     *)
(* answers ub = TRUE where C++ itself says nothing (dereferencing null,   *)
(* an index past the end of operator[], two owners, stale references).    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt

(********************************* types **********************************)
UL == "unsigned long int"
STR == "std::string"
VI == "std::vector<int>"
VTr == "std::vector<Tr>"
VSt == "std::vector<std::string>"
VVI == "std::vector<std::vector<int>>"
VSP == "std::vector<std::shared_ptr<Tr>>"
VRP == "std::vector<Tr*>"
MTr == "std::map<int,Tr>"
MV == "std::map<std::string,std::vector<int>>"
UI == "std::unordered_map<std::string,int>"
US == "std::unordered_map<int,std::shared_ptr<Tr>>"
SP == "std::shared_ptr<Tr>"
SP2 == "std::shared_ptr<Tr2>"
UP == "std::unique_ptr<Tr>"
UP2 == "std::unique_ptr<Tr2>"
RP == "Tr*"
RP2 == "Tr2*"
STRP == "std::string*"
TI(fam, e, k) == [fam |-> fam, e |-> e, k |-> k]
TypeInfo ==
    [t \in {"void", "int", "bool", UL, STR, "Tr", "Tr2", VI, VTr, VSt, VVI, VSP, VRP, MTr, MV, UI, US, SP, SP2, UP, UP2,
            RP, RP2} |->
        CASE t = VI -> TI("vec", "int", "") [] t = VTr -> TI("vec", "Tr", "") [] t = VSt -> TI("vec", STR, "")
          [] t = VVI -> TI("vec", VI, "") [] t = VSP -> TI("vec", SP, "") [] t = VRP -> TI("vec", RP, "")
          [] t = MTr -> TI("map", "Tr", "int") [] t = MV -> TI("map", VI, STR)
          [] t = UI -> TI("map", "int", STR) [] t = US -> TI("map", SP, "int")
          [] t = SP -> TI("sp", "Tr", "") [] t = SP2 -> TI("sp", "Tr2", "")
          [] t = UP -> TI("up", "Tr", "") [] t = UP2 -> TI("up", "Tr2", "")
          [] t = RP -> TI("rp", "Tr", "") [] t = RP2 -> TI("rp", "Tr2", "")
          [] t \in {"Tr", "Tr2"} -> TI("obj", "", "") [] t = STR -> TI("str", "", "")
          [] t = "void" -> TI("void", "", "") [] OTHER -> TI("num", "", "")]
Fam(t) == TypeInfo[t].fam
El(t) == TypeInfo[t].e
Key(t) == TypeInfo[t].k
PtrTo(t) == IF t = "Tr" THEN RP ELSE RP2
VecOf(k) == IF k = "int" THEN VI ELSE VSt
Ptrs == {"sp", "up", "rp"}
Child(x, y) == \/ x = y
               \/ x = "Tr2" /\ y = "Tr"
               \/ x = SP2 /\ y = SP
               \/ x = UP2 /\ y = UP
               \/ x = RP2 /\ y = RP
\* pointers declare "operator bool()", which makes them convertible to bool
Conv(x, y) == Fam(x) \in Ptrs /\ y = "bool"
INSTANCE Sigs WITH IsChild <- Child, HasConv <- Conv

(******************************* signatures *******************************)
Plumbing(t, copy) ==
    <<Sig(t, CA(t), <<>>)>>
    \o (IF copy THEN <<Sig(t, CA(t), <<LC(t)>>), Sig("operator=", LN(t), <<LN(t), LC(t)>>)>> ELSE <<>>)
    \o <<Sig(t, CA(t), <<RN(t)>>), Sig("operator=", LN(t), <<LN(t), RN(t)>>)>>
Alloc(t, p) == <<Sig("new", CA(p), <<>>)>>
OwnFns(t) ==
    LET e == El(t)
        k == Key(t)
        p == PtrTo(e)
        smart == Plumbing(t, Fam(t) = "sp") \o
            <<Sig(t, CA(t), <<CA(p)>>), Sig("get", CA(p), <<LC(t)>>), Sig("operator bool()", CA("bool"), <<LC(t)>>),
              Sig("operator*", LN(e), <<LC(t)>>), Sig("operator==", CA("bool"), <<LC(t), LC(t)>>)>>
        resets == <<Sig("reset", CA("void"), <<LN(t)>>), Sig("reset", CA("void"), <<LN(t), CA(p)>>)>>
    IN CASE Fam(t) = "vec" -> Plumbing(t, TRUE) \o
              <<Sig("size", CA(UL), <<LC(t)>>), Sig("clear", CA("void"), <<LN(t)>>),
                Sig("resize", CA("void"), <<LN(t), CA(UL)>>), Sig("push_back", CA("void"), <<LN(t), LC(e)>>),
                Sig("push_back", CA("void"), <<LN(t), RN(e)>>), Sig("operator[]", LN(e), <<LN(t), CA(UL)>>),
                Sig("at", LC(e), <<LC(t), CA(UL)>>)>>
         [] Fam(t) = "map" -> Plumbing(t, TRUE) \o
              <<Sig("size", CA(UL), <<LC(t)>>), Sig("count", CA(UL), <<LC(t), LC(k)>>),
                Sig("operator[]", LN(e), <<LN(t), LC(k)>>), Sig("at", LC(e), <<LC(t), LC(k)>>),
                Sig("keys", CA(VecOf(k)), <<LC(t)>>)>>
         [] Fam(t) = "sp" -> smart \o resets
         [] Fam(t) = "up" -> smart \o <<Sig("release", CA(p), <<LN(t)>>)>> \o resets
         [] Fam(t) = "rp" -> Plumbing(t, TRUE) \o
              <<Sig("operator bool()", CA("bool"), <<CA(t)>>), Sig("operator*", LN(e), <<LN(t)>>),
                Sig("operator*", LC(e), <<LC(t)>>)>>
         [] t = STR -> Plumbing(t, TRUE) \o Alloc(t, STRP) \o <<Sig("size", CA(UL), <<LC(t)>>)>>
         [] t \in {"Tr", "Tr2"} -> Plumbing(t, TRUE) \o
              <<Sig("new", CA(PtrTo(t)), <<>>), Sig("new", CA(PtrTo(t)), <<LC(t)>>),
                Sig("new", CA(PtrTo(t)), <<RN(t)>>)>>
         [] t = "void" -> <<>>
         [] OTHER -> Plumbing(t, TRUE)
FnTable == [t \in DOMAIN TypeInfo |-> OwnFns(t)]
Own(t, n) == SelectSeq(FnTable[t], LAMBDA f : f.name = n)
Find(t, n) == IF Own(t, n) # <<>> \/ t # "Tr2" THEN Own(t, n) ELSE Own("Tr", n)
Copiable(t) == t # "void" /\ Fam(t) # "up"
Movable(t) == t # "void"

(******************************** contents ********************************)
Node(n, k, e, p) == [n |-> n, k |-> k, e |-> e, p |-> p]
Num(n) == Node(n, <<>>, <<>>, "")
Null == Node(0, <<>>, <<>>, "null")
PtrN(c) == Node(0, <<>>, <<>>, c)
B(b) == Num(IF b THEN 1 ELSE 0)
Default(t) == CASE Fam(t) \in Ptrs -> Null [] Fam(t) = "str" -> Num(-1) [] OTHER -> Num(0)
MovedFrom(t, x) ==
    CASE Fam(t) \in {"sp", "up"} -> Null
      [] Fam(t) \in {"obj", "str"} -> Num(-1)
      [] Fam(t) \in {"vec", "map"} -> Num(0)
      [] OTHER -> x
KeyIdx(x, k) == CHOOSE i \in 0..Len(x.k) : IF i = 0 THEN \A j \in 1..Len(x.k) : x.k[j] # k ELSE x.k[i] = k
RECURSIVE GetIn(_, _, _), SetIn(_, _, _, _)
Idx(t, x, h) == IF Fam(t) = "map" THEN KeyIdx(x, h) ELSE h + 1
GetIn(t, x, p) == IF p = <<>> THEN x ELSE GetIn(El(t), x.e[Idx(t, x, Head(p))], Tail(p))
SetIn(t, x, p, y) == IF p = <<>> THEN y
    ELSE [x EXCEPT !.e[Idx(t, x, Head(p))] = SetIn(El(t), @, Tail(p), y)]
RECURSIVE HasIn(_, _, _)
HasIn(t, x, p) == p = <<>> \/ (LET i == IF Fam(t) = "map" THEN KeyIdx(x, Head(p)) ELSE Head(p) + 1 IN
                               i \in 1..Len(x.e) /\ HasIn(El(t), x.e[i], Tail(p)))
Insert(x, k, y) ==
    LET lo == Len(SelectSeq(x.k, LAMBDA z : z < k)) IN
    [x EXCEPT !.k = SubSeq(x.k, 1, lo) \o <<k>> \o SubSeq(x.k, lo + 1, Len(x.k)),
              !.e = SubSeq(x.e, 1, lo) \o <<y>> \o SubSeq(x.e, lo + 1, Len(x.e))]

Loc(b, p) == [b |-> b, p |-> p]
At(st, l) == GetIn(st.mem[l.b].t, st.mem[l.b].x, l.p)
SetAt(st, l, y) == [st EXCEPT !.mem[l.b].x = SetIn(st.mem[l.b].t, @, l.p, y)]
Below(l, m) == m.b = l.b /\ Len(m.p) > Len(l.p) /\ SubSeq(m.p, 1, Len(l.p)) = l.p
\* references to what is inside of l become stale
Kill(st, l) == [st EXCEPT !.vals = [v \in DOMAIN @ |-> IF @[v].t # "void" /\ Below(l, @[v].l)
                                                         THEN [@[v] EXCEPT !.d = TRUE] ELSE @[v]]]

RECURSIVE CountTr(_, _), Owned(_, _)
CountTr(t, x) ==
    CASE Fam(t) = "obj" -> 1
      [] Fam(t) \in {"vec", "map"} -> FoldLeft(LAMBDA acc, y : acc + CountTr(El(t), y), 0, x.e)
      [] OTHER -> 0
Owned(t, x) ==
    CASE Fam(t) \in {"sp", "up"} -> IF x.p = "null" THEN {} ELSE {x.p}
      [] Fam(t) \in {"vec", "map"} -> UNION {Owned(El(t), x.e[i]) : i \in 1..Len(x.e)}
      [] OTHER -> {}
Live(st) == FoldSet(LAMBDA o, acc : acc + CountTr(st.mem[o].t, st.mem[o].x), 0, DOMAIN st.mem)
Held(st) == UNION {Owned(st.mem[o].t, st.mem[o].x) : o \in DOMAIN st.mem}
RECURSIVE JoinS(_)
JoinS(s) == IF s = <<>> THEN "" ELSE IF Len(s) = 1 THEN s[1] ELSE s[1] \o "," \o JoinS(Tail(s))
ShowStr(n) == IF n < 0 THEN "" ELSE "s" \o ToString(n)
RECURSIVE Show(_, _, _)
Show(st, t, x) ==
    CASE Fam(t) = "vec" -> "[" \o JoinS([i \in 1..Len(x.e) |-> Show(st, El(t), x.e[i])]) \o "]"
      [] Fam(t) = "map" -> "{" \o JoinS([i \in 1..Len(x.e) |->
            (IF Key(t) = STR THEN ShowStr(x.k[i]) ELSE ToString(x.k[i])) \o "=" \o Show(st, El(t), x.e[i])]) \o "}"
      [] Fam(t) = "str" -> ShowStr(x.n)
      [] Fam(t) \in Ptrs -> IF x.p = "null" THEN "null" ELSE IF x.p \notin DOMAIN st.mem THEN x.p \o ":gone"
                            ELSE x.p \o ":" \o ToString(st.mem[x.p].x.n)
      [] OTHER -> ToString(x.n)

(***************************** dynamic values *****************************)
VRegs == {"v0", "v1", "v2", "v3", "v4", "v5"}
\* own: keeps its object alive; d: refers to something that may be gone
Val(a, own, l) == [t |-> a.t, r |-> a.r, c |-> a.c, own |-> own, l |-> l, d |-> FALSE]
VoidVal == Val(CA("void"), FALSE, Loc("", <<>>))
A(v) == Arg(v.t, v.r, v.c)
Describe(st, v) == IF v.t = "void" THEN "void" ELSE
    ArgStr(A(v)) \o (IF v.own THEN "|s|" ELSE "|-|") \o Show(st, v.t, At(st, v.l))
Slots(st) == {o \in DOMAIN st.mem : st.kind[o] = "s"}
Cells(st) == {o \in DOMAIN st.mem : st.kind[o] \in {"raw", "sp", "up"}}
Forget(st, gone) == [st EXCEPT !.mem = [o \in (DOMAIN @) \ gone |-> @[o]],
                               !.vals = [v \in DOMAIN @ |-> IF @[v].l.b \in gone THEN [@[v] EXCEPT !.d = TRUE] ELSE @[v]]]
GC(st) ==
    LET s1 == Forget(st, Slots(st) \ {st.vals[v].l.b : v \in {u \in VRegs : st.vals[u].own}})
        held == Held(s1)
    IN  Forget(s1, {c \in Cells(s1) : s1.kind[c] # "raw" /\ c \notin held})
SetReg(st, r, v) == [st EXCEPT !.vals[r] = v]
NewSlot(st, r, t, x) ==
    LET s == "s" \o ToString(st.ns) IN
    [st EXCEPT !.mem = [o \in DOMAIN @ \cup {s} |-> IF o = s THEN [t |-> t, x |-> x] ELSE @[o]],
               !.kind = [o \in DOMAIN @ \cup {s} |-> IF o = s THEN "s" ELSE @[o]],
               !.ns = @ + 1, !.vals[r] = Val(LN(t), TRUE, Loc(s, <<>>))]
NewCell(st, t, n) ==
    LET c == "c" \o ToString(st.nc + 1) IN
    [st EXCEPT !.mem = [o \in DOMAIN @ \cup {c} |-> IF o = c THEN [t |-> t, x |-> Num(n)] ELSE @[o]],
               !.kind = [o \in DOMAIN @ \cup {c} |-> IF o = c THEN "raw" ELSE @[o]], !.nc = @ + 1]

(********************************* calls **********************************)
Bad(st) == [err |-> TRUE, st |-> st, x |-> Num(0), l |-> Loc("", <<>>)]
Got(st, x, l) == [err |-> FALSE, st |-> st, x |-> x, l |-> l]
TakeOut(st, l, t) == Kill(SetAt(st, l, MovedFrom(t, At(st, l))), l)
CtorOf(t, v) == LET o == Find(t, t) IN IF o = <<>> THEN <<>> ELSE LET i == Choose(o, ValArg, <<A(v)>>) IN
                IF i <= 0 THEN <<>> ELSE <<o[i]>>
\* what a parameter described by b receives from v
CastTo(st, v, b) ==
    IF b.t = "bool" /\ v.t # "bool" THEN
        (IF Conv(v.t, "bool") THEN Got(st, B(At(st, v.l).p # "null"), v.l) ELSE Bad(st))
    ELSE IF ~ Child(v.t, b.t) THEN Bad(st)
    ELSE IF b.r = "L" THEN Got(st, At(st, v.l), v.l)
    ELSE IF b.r = "R" THEN
        IF b.c = "c" \/ v.c = "c" THEN Got(st, At(st, v.l), v.l) ELSE Got(TakeOut(st, v.l, v.t), At(st, v.l), v.l)
    ELSE IF ~ Copiable(b.t) THEN Bad(st)
    ELSE LET f == CtorOf(b.t, v) IN
         IF f = <<>> THEN Bad(st)
         ELSE IF f[1].args[1].r = "R" THEN Got(TakeOut(st, v.l, v.t), At(st, v.l), v.l)
         ELSE Got(st, At(st, v.l), v.l)

\* [st, err, ub, k, x, l, t, c]: k is "void", "val" (x of type t) or "ref" (l of type t, const c)
Out(st, k, t, x, l, c) == [st |-> st, err |-> FALSE, ub |-> FALSE, k |-> k, t |-> t, x |-> x, l |-> l, c |-> c]
OVoid(st) == Out(st, "void", "void", Num(0), Loc("", <<>>), "n")
OVal(st, t, x) == Out(st, "val", t, x, Loc("", <<>>), "n")
ORef(st, t, l, c) == Out(st, "ref", t, Num(0), l, c)
OErr(st) == [OVoid(st) EXCEPT !.err = TRUE]
OUb(st) == [OVoid(st) EXCEPT !.ub = TRUE]

AdoptOk(st, x) == x.p = "null" \/ (x.p \in Cells(st) /\ st.kind[x.p] = "raw")
Adopt(st, x, fam) == IF x.p = "null" THEN st ELSE [st EXCEPT !.kind[x.p] = fam]

Body(st, t, f, cs) ==
    LET l == cs[1].l
        x == At(st, l)
        a == cs[2].x
        fam == Fam(t)
        e == El(t)
        n == f.name
        put(y) == Kill(SetAt(st, l, y), l)
    IN
    CASE n = "operator=" -> ORef(put(a), t, l, "n")
      [] n = "size" -> OVal(st, UL, Num(IF fam = "str" THEN (IF x.n < 0 THEN 0 ELSE 1 + Len(ToString(x.n))) ELSE Len(x.e)))
      [] n = "clear" -> OVoid(put(Num(0)))
      [] n = "resize" -> IF a.n > 8 THEN OUb(st) ELSE
            OVoid(put([x EXCEPT !.e = [i \in 1..a.n |-> IF i <= Len(x.e) THEN x.e[i] ELSE Default(e)] \o <<>>]))
      [] n = "push_back" -> IF Len(x.e) > 8 THEN OUb(st) ELSE OVoid(put([x EXCEPT !.e = Append(@, a)]))
      [] n = "operator[]" /\ fam = "vec" ->
            IF a.n >= Len(x.e) THEN OUb(st) ELSE ORef(st, e, Loc(l.b, Append(l.p, a.n)), "n")
      [] n = "at" /\ fam = "vec" ->
            IF a.n >= Len(x.e) THEN OErr(st) ELSE ORef(st, e, Loc(l.b, Append(l.p, a.n)), "c")
      [] n = "operator[]" ->
            IF KeyIdx(x, a.n) # 0 THEN ORef(st, e, Loc(l.b, Append(l.p, a.n)), "n")
            ELSE IF Len(x.e) > 8 THEN OUb(st)
            ELSE ORef(SetAt(st, l, Insert(x, a.n, Default(e))), e, Loc(l.b, Append(l.p, a.n)), "n")
      [] n = "at" -> IF KeyIdx(x, a.n) = 0 THEN OErr(st) ELSE ORef(st, e, Loc(l.b, Append(l.p, a.n)), "c")
      [] n = "count" -> OVal(st, UL, B(KeyIdx(x, a.n) # 0))
      [] n = "keys" -> OVal(st, VecOf(Key(t)), [Num(0) EXCEPT !.e = [i \in 1..Len(x.k) |-> Num(x.k[i])] \o <<>>])
      [] n = "get" -> OVal(st, PtrTo(e), PtrN(x.p))
      [] n = "operator bool()" -> OVal(st, "bool", B(x.p # "null"))
      [] n = "operator*" -> IF x.p \notin DOMAIN st.mem THEN OUb(st) ELSE ORef(st, e, Loc(x.p, <<>>), f.ret.c)
      [] n = "operator==" -> OVal(st, "bool", B(x.p = a.p))
      [] n = "release" -> OVal(IF x.p = "null" THEN st ELSE [SetAt(st, l, Null) EXCEPT !.kind[x.p] = "raw"],
                               PtrTo(e), PtrN(x.p))
      [] n = "reset" /\ Len(cs) = 1 -> OVoid(SetAt(st, l, Null))
      [] n = "reset" -> IF ~ AdoptOk(st, a) THEN OUb(st) ELSE OVoid(Adopt(SetAt(st, l, PtrN(a.p)), a, fam))
      [] OTHER -> OErr(st)

\* constructors and allocators have no receiver
Make(st, t, f, cs) ==
    IF f.name = "new" /\ t = STR THEN OUb(st)      \* std::string* isn't followed
    ELSE IF f.name = "new" THEN
        LET s2 == NewCell(st, t, IF cs = <<>> THEN 0 ELSE cs[1].x.n) IN
        OVal(s2, PtrTo(t), PtrN("c" \o ToString(s2.nc)))
    ELSE IF cs = <<>> THEN OVal(st, t, Default(t))
    ELSE IF f.args[1].t = t THEN OVal(st, t, cs[1].x)
    ELSE IF ~ AdoptOk(st, cs[1].x) THEN OUb(st)
    ELSE OVal(Adopt(st, cs[1].x, Fam(t)), t, PtrN(cs[1].x.p))

Known(t) == t \in DOMAIN TypeInfo
RECURSIVE CastAll(_, _, _, _)
CastAll(st, vs, ps, acc) ==
    IF vs = <<>> THEN [st |-> st, cs |-> acc]
    ELSE LET c == CastTo(st, Head(vs), Head(ps)) IN CastAll(c.st, Tail(vs), Tail(ps), Append(acc, c))
\* calls function name of type t with the values vs
CallFn(st, t, name, vs, want) ==
    LET o == Find(t, name)
        i == Choose(o, want, [k \in 1..Len(vs) |-> A(vs[k])])
        ca == CastAll(st, vs, o[i].args, <<>>)
    IN  IF o = <<>> \/ i <= 0 THEN OErr(st)
        ELSE IF \E k \in 1..Len(ca.cs) : ca.cs[k].err THEN OErr(ca.st)
        ELSE IF name \in {t, "new"} THEN Make(ca.st, t, o[i], ca.cs)
        ELSE Body(ca.st, IF t = "Tr2" /\ Own(t, name) = <<>> THEN "Tr" ELSE t, o[i], ca.cs)

(******************************** commands ********************************)
Res(st, r) == [st |-> st, r |-> r, ub |-> FALSE]
Ub(st) == [st |-> st, r |-> <<"ub">>, ub |-> TRUE]
V(st, v) == st.vals[v]
Give(o, dst) ==      \* stores what a call returned
    IF o.ub THEN Ub(o.st)
    ELSE IF o.err THEN Res(o.st, <<"err">>)
    ELSE LET s2 == GC(IF o.k = "void" THEN SetReg(o.st, dst, VoidVal)
                      ELSE IF o.k = "val" THEN NewSlot(o.st, dst, o.t, o.x)
                      ELSE SetReg(o.st, dst, Val(Arg(o.t, "L", o.c), FALSE, o.l)))
         IN IF s2.vals[dst].d THEN Ub(s2) ELSE Res(s2, <<"ok", Describe(s2, s2.vals[dst])>>)
Seen(st, r) == LET s2 == GC(st) IN IF s2.vals[r].d THEN Ub(s2) ELSE Res(s2, <<Describe(s2, s2.vals[r])>>)
Truth(o) == IF o.err THEN <<"err">> ELSE <<ToString(o.x.n)>>
Vals(st, a, from) == [i \in 1..(Len(a) - from + 1) |-> st.vals[a[from + i - 1]]]
OpNames == {"operator[]", "operator*", "operator=="}

Traits(t) == CASE Fam(t) = "vec" -> <<"list">> [] Fam(t) = "map" -> <<"map">> [] Fam(t) \in {"sp", "up"} -> <<"smartPtr">>
               [] Fam(t) = "str" -> <<"string">> [] Fam(t) = "rp" -> <<"primitive">> [] OTHER -> <<>>
Wrap(t) == CASE Fam(t) = "sp" -> "std::shared_ptr" [] Fam(t) = "up" -> "std::unique_ptr" [] Fam(t) = "rp" -> "*"
             [] OTHER -> "-"
Step0(st, cmd) ==
    LET op == cmd.op
        a == cmd.a
        n == cmd.n
        v1 == V(st, a[1])
        v2 == V(st, a[2])
        src == Val(A(v2), v2.own, v2.l)
    IN
    CASE op = "lit" -> Seen(NewSlot(st, a[1], a[2], Num(n[1])), a[1])
      [] op = "ref" -> Seen(SetReg(st, a[1], Val(LN(st.mem[a[2]].t), FALSE, Loc(a[2], <<>>))), a[1])
      [] op = "cref" -> Seen(SetReg(st, a[1], Val(LC(st.mem[a[2]].t), FALSE, Loc(a[2], <<>>))), a[1])
      [] op = "drop" -> Res(GC(SetReg(st, a[1], VoidVal)), <<"ok">>)
      [] op = "set" -> Seen(SetReg(st, a[1], v2), a[1])
      [] op = "rval" -> Seen(SetReg(st, a[1], [v2 EXCEPT !.r = "R"]), a[1])
      [] op = "const" -> Seen(SetReg(st, a[1], [v2 EXCEPT !.r = "R", !.c = "c"]), a[1])
      [] op = "new" -> Give(CallFn(st, a[2], a[2], Vals(st, a, 3), ValArg), a[1])
      [] op = "alloc" -> Give(CallFn(st, a[2], "new", Vals(st, a, 3), ValArg), a[1])
      [] op = "copy" -> IF ~ Copiable(v2.t) THEN Res(st, <<"err">>)
                        ELSE Give(CallFn(st, v2.t, v2.t, <<v2>>, ValArg), a[1])
      [] op = "move" ->
            IF ~ Movable(v2.t) THEN Res(st, <<"err">>)
            ELSE LET o == CallFn(st, v2.t, v2.t, <<[v2 EXCEPT !.r = "R"]>>, ValArg) IN
                 Give(IF o.err THEN o ELSE [o EXCEPT !.st.vals[a[2]] = VoidVal], a[1])
      [] op = "call" -> Give(CallFn(st, v2.t, a[3], <<v2>> \o Vals(st, a, 4), ValArg), a[1])
      [] op = "assign" -> LET o == CallFn(st, v1.t, "operator=", <<v1, v2>>, CA("void")) IN
                          Res(GC(o.st), <<IF o.err THEN "err" ELSE "ok">>)
      [] op = "idx" -> Give(CallFn(st, v2.t, "operator[]", <<v2, V(st, a[3])>>, ValArg), a[1])
      [] op = "deref" -> Give(CallFn(st, v2.t, "operator*", <<v2>>, ValArg), a[1])
      [] op = "truth" -> LET o == CallFn(st, v1.t, "operator bool()", <<v1>>, CA("bool")) IN
                         Res(GC(o.st), Truth(o) \o (IF o.err THEN <<"err">> ELSE <<ToString(1 - o.x.n)>>))
      [] op = "eq" -> LET o == CallFn(st, v1.t, "operator==", <<v1, v2>>, CA("bool")) IN Res(GC(o.st), Truth(o))
      [] op = "write" ->     \* through the C++ reference the value holds
            IF v1.t \notin {"int", "Tr"} THEN Res(st, <<"skip">>)
            ELSE Res(SetAt(st, v1.l, Num(n[1])), <<"ok">>)
      [] op = "same" -> Res(st, <<IF v1.l = v2.l THEN "1" ELSE "0">>)
      [] op = "show" -> Res(st, <<Describe(st, v1)>>)
      [] op = "count" -> Res(st, <<ToString(Cardinality({v \in VRegs : st.vals[v].own}))>>)
      [] op = "dump" -> Res(st, [i \in 1..Len(a) |-> Show(st, st.mem[a[i]].t, st.mem[a[i]].x)])
      [] op = "info" ->
            LET t == a[1] IN Res(st, Traits(t) \o <<El(t), Key(t), Wrap(t)>> \o
                  [i \in 1..Len(FnTable[t]) |-> SigStr(FnTable[t][i])])
      [] OTHER -> Res(st, <<"unknown">>)

\* the registers a command looks at
Uses(c) ==
    CASE c.op \in {"set", "rval", "const", "copy", "move", "deref"} -> {c.a[2]}
      [] c.op \in {"assign", "eq", "same"} -> {c.a[1], c.a[2]}
      [] c.op \in {"truth", "write", "show"} -> {c.a[1]}
      [] c.op = "idx" -> {c.a[2], c.a[3]}
      [] c.op = "call" -> {c.a[2]} \cup {c.a[i] : i \in 4..Len(c.a)}
      [] c.op \in {"new", "alloc"} -> {c.a[i] : i \in 3..Len(c.a)}
      [] OTHER -> {}
\* every answer ends with the number of tracked objects alive
Step(st, c) ==
    IF \E v \in Uses(c) : st.vals[v].d THEN Ub(st)
    ELSE IF \E v \in Uses(c) : st.vals[v].t = "void" /\ c.op \notin {"set", "copy", "move", "truth", "show"} THEN Ub(st)
    ELSE LET x == Step0(st, c)
             s2 == GC(x.st)
         IN [x EXCEPT !.st = s2, !.r = IF c.op \in {"info"} THEN @ ELSE Append(@, ToString(Live(s2)))]
Unordered(e) == e.op = "info"

RootTypes == [o \in {"o0", "o1", "o2", "o3", "o4", "o5", "o6", "o7", "o8", "o9", "oA", "oB", "oC"} |->
    CASE o = "o0" -> VI [] o = "o1" -> VTr [] o = "o2" -> MTr [] o = "o3" -> UI [] o = "o4" -> SP [] o = "o5" -> UP
      [] o = "o6" -> RP [] o = "o7" -> VVI [] o = "o8" -> VSP [] o = "o9" -> MV [] o = "oA" -> STR [] o = "oB" -> US
      [] o = "oC" -> VRP]
InitState == [mem |-> [o \in DOMAIN RootTypes |-> [t |-> RootTypes[o], x |-> Default(RootTypes[o])]],
              kind |-> [o \in DOMAIN RootTypes |-> "o"],
              vals |-> [v \in VRegs |-> VoidVal], ns |-> 0, nc |-> 0]
=============================================================================
