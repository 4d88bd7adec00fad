------------------------------- MODULE Core -------------------------------
(* The core of reflect: type relations, signature matching, overloads,    *)
(* calls, casts, dynamic values and the life of objects and callables.    *)
(*                                                                        *)
(* Everything is written as Step(st, cmd) == [st |-> .., r |-> .., amb]:  *)
(* the state after a public operation and the answer the library gives.   *)
(* amb marks commands whose outcome C++ itself leaves open (evaluation    *)
(* order of arguments); the generator never emits them.                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt

VT == "reflect::Value"
TN == <<"U0", "U1", "U2", "U3", "U4", "U5">>
TSet == {TN[i] : i \in 1..Len(TN)}
AllT == TSet \cup {"void", VT}
TIdx(t) == CHOOSE i \in 1..Len(TN) : TN[i] = t
VRegs == <<"v0", "v1", "v2", "v3", "v4">>
VRegSet == {VRegs[i] : i \in 1..Len(VRegs)}
ONames == <<"o0", "o1", "o2", "o3", "o4", "o5">>
OType(o) == CASE o \in {"o0", "o3"} -> "U0" [] o \in {"o1", "o4"} -> "U1" [] OTHER -> "U2"
Globs == <<"g0", "g1", "g2", "g3", "g4", "g5">>
GlobOf(t) == Globs[TIdx(t)]

(***************************** arguments **********************************)
Arg(t, r, c) == [t |-> t, r |-> r, c |-> c]
AllArgs == [t : AllT, r : {"C", "L", "R"}, c : {"c", "n"}]
ArgStr(a) == a.t \o "." \o a.r \o "." \o a.c
ArgTable == [s \in {ArgStr(a) : a \in AllArgs} |-> CHOOSE a \in AllArgs : ArgStr(a) = s]
A(s) == ArgTable[s]
As(ss) == [i \in 1..Len(ss) |-> A(ss[i])]
RECURSIVE JoinStr(_, _)
JoinStr(ss, sep) ==
    IF ss = <<>> THEN "" ELSE IF Len(ss) = 1 THEN ss[1]
    ELSE ss[1] \o sep \o JoinStr(Tail(ss), sep)
SigStr(f) == ArgStr(f.ret) \o "(" \o JoinStr([i \in 1..Len(f.args) |-> ArgStr(f.args[i])], ",") \o ")"
VoidArg == Arg("void", "C", "n")
ValArg == Arg(VT, "C", "n")

(************************** type relations ********************************)
Drop(f, k) == [x \in (DOMAIN f) \ {k} |-> f[x]]
Put(f, k, v) == [x \in (DOMAIN f) \cup {k} |-> IF x = k THEN v ELSE f[x]]
Empty == [x \in {} |-> 0]

ParentOf(st, t) == IF t \in TSet THEN st.parent[t] ELSE "-"
IsPtr(st, t) == t \in TSet /\ st.ptr[t] # <<>>
RECURSIVE IsChild(_, _, _)
IsChild(st, x, y) ==
    IF x = y THEN TRUE
    ELSE IF IsPtr(st, x) /\ IsPtr(st, y)
    THEN st.ptr[x][1] = st.ptr[y][1] /\ IsChild(st, st.ptr[x][2], st.ptr[y][2])
    ELSE ParentOf(st, x) # "-" /\ IsChild(st, ParentOf(st, x), y)
RECURSIVE Chain(_, _)
Chain(st, t) == <<t>> \o (IF ParentOf(st, t) = "-" THEN <<>> ELSE Chain(st, ParentOf(st, t)))

OwnFn(st, t, n) == IF t \in TSet /\ n \in DOMAIN st.fns[t] THEN st.fns[t][n] ELSE <<>>
RECURSIVE FindFn(_, _, _)
FindFn(st, t, n) ==   \* the overloads of the nearest type which declares n, or <<>>
    IF OwnFn(st, t, n) # <<>> THEN OwnFn(st, t, n)
    ELSE IF ParentOf(st, t) = "-" THEN <<>> ELSE FindFn(st, ParentOf(st, t), n)
RECURSIVE OwnerOf(_, _, _)
OwnerOf(st, t, n) == IF OwnFn(st, t, n) # <<>> THEN t ELSE OwnerOf(st, ParentOf(st, t), n)
OwnFld(st, t, n) == IF t \in TSet /\ n \in DOMAIN st.flds[t] THEN <<st.flds[t][n]>> ELSE <<>>
RECURSIVE FindFld(_, _, _)
FindFld(st, t, n) ==
    IF OwnFld(st, t, n) # <<>> THEN OwnFld(st, t, n)
    ELSE IF ParentOf(st, t) = "-" THEN <<>> ELSE FindFld(st, ParentOf(st, t), n)
ConvName(y) == "operator " \o y \o "()"
HasConv(st, x, y) == FindFn(st, x, ConvName(y)) # <<>>

(******************************* matching *********************************)
Combine(a, b) == IF a = "N" \/ b = "N" THEN "N" ELSE IF a = "P" \/ b = "P" THEN "P" ELSE "E"

Match(st, a, b) ==   \* can a value described by a be passed for b?
    IF a = b THEN "E"
    ELSE IF (a.t = VT) # (b.t = VT) THEN "E"
    ELSE IF HasConv(st, a.t, b.t) THEN (IF b.r = "L" THEN "N" ELSE "P")
    ELSE IF b.r # "C" /\ a.c = "c" /\ b.c = "n" THEN "N"
    ELSE IF b.r = "L" /\ b.c = "n" /\ a.r # "L" THEN "N"
    ELSE IF b.r = "R" /\ a.r # "R" THEN "N"
    ELSE IF ~ IsChild(st, a.t, b.t) THEN "N"
    ELSE IF b.r = "C" /\ a.r = "R" THEN "E"
    ELSE IF a.c = b.c /\ a.r = b.r THEN "E"
    ELSE "P"

MatchRet(st, want, got) ==
    IF want.t = "void" THEN "E"
    ELSE IF got.t = "void" THEN (IF want.t = VT /\ want.r # "L" THEN "E" ELSE "N")
    ELSE IF Match(st, got, want) = "N" THEN "N"
    ELSE IF got.r # "L" /\ want.r = "L" /\ want.c = "c" THEN "N"
    ELSE "E"

RECURSIVE MatchArgs(_, _, _)
MatchArgs(st, have, want) ==
    IF Len(have) # Len(want) THEN "N"
    ELSE IF have = <<>> THEN "E"
    ELSE LET m == Match(st, Head(have), Head(want)) IN
         IF m = "N" THEN "N" ELSE Combine(m, MatchArgs(st, Tail(have), Tail(want)))

Test(st, fn, ret, args) == Combine(MatchRet(st, ret, fn.ret), MatchArgs(st, args, fn.args))

FirstIdx(s, P(_)) ==
    LET ok == {i \in 1..Len(s) : P(s[i])} IN
    IF ok = {} THEN 0 ELSE CHOOSE i \in ok : \A j \in ok : i <= j

\* 0: none, -1: ambiguous
Choose(st, ovl, ret, args) ==
    LET ex == FirstIdx(ovl, LAMBDA f : Test(st, f, ret, args) = "E")
        pa == {i \in 1..Len(ovl) : Test(st, ovl[i], ret, args) = "P"}
    IN  IF ex # 0 THEN ex
        ELSE IF pa = {} THEN 0
        ELSE IF Cardinality(pa) > 1 THEN -1
        ELSE CHOOSE i \in pa : TRUE

Copiable(st, t) == \E i \in 1..Len(FindFn(st, t, t)) :
    Test(st, FindFn(st, t, t)[i], Arg(t, "C", "n"), <<Arg(t, "C", "n")>>) # "N"
Movable(st, t) == \E i \in 1..Len(FindFn(st, t, t)) :
    Test(st, FindFn(st, t, t)[i], Arg(t, "C", "n"), <<Arg(t, "R", "n")>>) # "N"

(**************************** dynamic values ******************************)
\* own: the value keeps the object alive; o: the object, "" for a void value
Val(a, own, o) == [a |-> a, own |-> own, o |-> o]
VoidVal == Val(VoidArg, FALSE, "")
Temps == {"?0", "?1", "?2", "?r", "?c"}
ObjName(o) == IF o \in Temps THEN "?" ELSE o
Pay(st, v) == st.obj[v.o].pay
Describe(st, v) ==
    IF v.o = "" THEN ArgStr(v.a) \o "|-||"
    ELSE ArgStr(v.a) \o "|" \o (IF v.own THEN "s" ELSE "-") \o "|" \o ObjName(v.o) \o "|"
         \o (IF v.o \in DOMAIN st.obj THEN ToString(st.obj[v.o].pay) ELSE "dead")
SetPay(st, o, p) == [st EXCEPT !.obj[o].pay = p]
NewObj(st, o, t, p) == [st EXCEPT !.obj = Put(@, o, [t |-> t, pay |-> p])]

Owners(st) == {v \in {st.vals[r] : r \in VRegSet} \cup {st.vecs[i] : i \in 1..Len(st.vecs)} : v.own}
SObjs(st) == {o \in DOMAIN st.obj : o \notin {ONames[i] : i \in 1..6} \cup {Globs[i] : i \in 1..6}}
\* drops the owned objects without holder and the temporaries
GC(st) == LET keep == {v.o : v \in Owners(st)}
              dead == {o \in SObjs(st) : o \notin keep}
          IN [st EXCEPT !.obj = [o \in (DOMAIN @) \ dead |-> @[o]]]
SName(n) == "s" \o ToString(n)

\* stores v in a register; a fresh owned object gets its name here
SetReg(st, reg, v) ==
    IF v.own /\ v.o \in Temps
    THEN LET s1 == NewObj(st, SName(st.next), st.obj[v.o].t, st.obj[v.o].pay)
         IN GC([s1 EXCEPT !.next = @ + 1, !.vals[reg] = Val(v.a, TRUE, SName(st.next))])
    ELSE GC([st EXCEPT !.vals[reg] = v])

(************************** casts and calls *******************************)
Fail(st) == [err |-> TRUE, st |-> st, pay |-> 0, o |-> "", mut |-> FALSE]
Good(st, pay, o, mut) == [err |-> FALSE, st |-> st, pay |-> pay, o |-> o, mut |-> mut]

RECURSIVE CastTo(_, _, _), Construct(_, _, _), Convert(_, _, _)

\* What a parameter described by b receives from the value v. pay is the content it receives, o the
\* object it is bound to (reference parameters), mut tells that the source object was changed.
CastTo(st, v, b) ==
    IF b.t = VT THEN Good(st, 0, v.o, FALSE)
    ELSE IF b.r = "L" THEN
        IF IsChild(st, v.a.t, b.t) /\ (b.c = "c" \/ (v.a.c = "n" /\ v.a.r = "L"))
        THEN Good(st, Pay(st, v), v.o, FALSE) ELSE Fail(st)
    ELSE IF b.r = "R" THEN
        IF ~ Movable(st, b.t) THEN Fail(st)
        ELSE IF IsChild(st, v.a.t, b.t) THEN
            IF b.c = "c" \/ v.a.c = "c" THEN Good(st, Pay(st, v), "", FALSE)
            ELSE Good(SetPay(st, v.o, -1), Pay(st, v), "", TRUE)
        ELSE IF HasConv(st, v.a.t, b.t) THEN Convert(st, v, b.t)
        ELSE Fail(st)
    ELSE
        IF ~ Copiable(st, b.t) THEN Fail(st)
        ELSE IF IsChild(st, v.a.t, b.t) THEN Construct(st, b.t, v)
        ELSE IF HasConv(st, v.a.t, b.t) THEN Convert(st, v, b.t)
        ELSE Fail(st)

\* the content of the object that constructor or converter fn makes of v
Make(st, fn, v) ==
    LET c == CastTo(st, v, fn.args[1]) IN
    IF c.err THEN c
    ELSE Good(c.st, c.pay + (CASE fn.kind = "conv" -> 500 [] fn.kind = "from" -> 300 [] OTHER -> 0),
              "", c.mut)

Construct(st, t, v) ==
    LET ovl == FindFn(st, t, t)
        i == Choose(st, ovl, ValArg, <<v.a>>)
    IN IF i <= 0 THEN Fail(st) ELSE Make(st, ovl[i], v)

Convert(st, v, t) ==
    LET ovl == FindFn(st, v.a.t, ConvName(t)) IN
    IF Len(ovl) # 1 THEN Fail(st)
    ELSE IF Test(st, ovl[1], ValArg, <<v.a>>) = "N" \/ ovl[1].kind # "conv" THEN Fail(st)
    ELSE Make(st, ovl[1], v)

\* the dynamic value made of a typed argument, or the dynamic argument itself
IsValForm(f) == f.t = VT
ArgOf(st, f, src) == IF IsValForm(f) THEN st.vals[src].a ELSE f
ToValue(st, f, src, tmp) ==
    IF IsValForm(f) THEN [st |-> st, v |-> st.vals[src]]
    ELSE IF f.r = "L" THEN [st |-> st, v |-> Val(f, FALSE, src)]
    ELSE LET s1 == NewObj(st, tmp, f.t, st.obj[src].pay)
             s2 == IF f.c = "c" THEN s1 ELSE SetPay(s1, src, -1)
         IN [st |-> s2, v |-> Val(Arg(f.t, "L", "n"), TRUE, tmp)]
TmpOf(i) == <<"?0", "?1", "?2">>[i]
RECURSIVE ToValues(_, _, _, _, _)
ToValues(st, fs, srcs, i, acc) ==
    IF i > Len(fs) THEN [st |-> st, vs |-> acc]
    ELSE LET x == ToValue(st, fs[i], srcs[i], TmpOf(i))
         IN ToValues(x.st, fs, srcs, i + 1, Append(acc, x.v))

\* all arguments are cast before the body sees any of them
RECURSIVE CastAll(_, _, _, _, _)
CastAll(st, vs, params, i, acc) ==
    IF i > Len(vs) THEN [st |-> st, cs |-> acc]
    ELSE LET c == CastTo(st, vs[i], params[i])
         IN CastAll(c.st, vs, params, i + 1, Append(acc, c))

\* what the body logs: references show the object, the others what they received
RECURSIVE SeeAll(_, _, _, _, _, _)
SeeAll(st, vs, params, cs, i, log) ==
    IF i > Len(vs) THEN [st |-> st, log |-> log]
    ELSE LET p == params[i]
             c == cs[i]
             line == IF p.t = VT THEN "V:" \o Describe(st, vs[i])
                     ELSE IF p.r = "L" THEN (IF p.c = "c" THEN "K:" ELSE "L:") \o ObjName(c.o) \o ":"
                                            \o ToString(st.obj[c.o].pay)
                     ELSE IF p.r = "R" THEN "R:" \o ToString(c.pay)
                     ELSE "C:?:" \o ToString(c.pay)
             s2 == IF p.t # VT /\ p.r = "L" /\ p.c = "n" THEN SetPay(st, c.o, st.obj[c.o].pay + 7) ELSE st
         IN SeeAll(s2, vs, params, cs, i + 1, Append(log, line))

\* the dynamic value a function returns
Give(st, ret, tag) ==
    IF ret.t = "void" THEN [st |-> st, v |-> VoidVal]
    ELSE IF ret.t = VT THEN [st |-> st, v |-> Val(Arg("U0", "L", "n"), FALSE, "g0")]
    ELSE IF ret.r = "C" THEN [st |-> NewObj(st, "?r", ret.t, 100 + tag),
                              v |-> Val(Arg(ret.t, "L", "n"), TRUE, "?r")]
    ELSE IF ret.r = "L" THEN [st |-> st, v |-> Val(ret, FALSE, GlobOf(ret.t))]
    ELSE LET g == GlobOf(ret.t) IN
         [st |-> SetPay(NewObj(st, "?r", ret.t, st.obj[g].pay), g, -1),
          v |-> Val(Arg(ret.t, "L", "n"), TRUE, "?r")]

TagOf(fn) == CASE fn.kind = "glb" -> 903
               [] fn.kind = "mem" -> (IF fn.args[1].c = "c" THEN 902 ELSE 901)
               [] OTHER -> fn.tag
LogTag(fn) == IF fn.kind = "cnt" THEN fn.tag + fn.calls + 1 ELSE TagOf(fn)

\* runs fn with typed or dynamic arguments; answers [st, log, err, ran, amb, v]
IsCtor(fn) == fn.kind \in {"conv", "from", "def", "copy", "move", "lref"}
Invoke(st, fn, fs, srcs) ==
    LET tv == ToValues(st, fs, srcs, 1, <<>>)
        ca == CastAll(tv.st, tv.vs, fn.args, 1, <<>>)
        bad == \E i \in 1..Len(ca.cs) : ca.cs[i].err
        mut == \E i \in 1..Len(ca.cs) : ca.cs[i].mut
        shared == \E i, j \in 1..Len(tv.vs) : i < j /\ tv.vs[i].o = tv.vs[j].o
                                              /\ (tv.vs[i].o # "")
        \* the sources of typed rvalues are emptied while the others are only referred to
        rsrc == {srcs[i] : i \in {k \in 1..Len(fs) : ~ IsValForm(fs[k]) /\ fs[k].r = "R"}}
        amb == Len(fs) > 1 /\ ((mut /\ (bad \/ shared))
                               \/ \E i \in 1..Len(tv.vs) : tv.vs[i].o \in rsrc
                               \/ (Len(srcs) # Cardinality({srcs[k] : k \in 1..Len(srcs)}) /\ rsrc # {}))
    IN  IF bad THEN [st |-> ca.st, log |-> <<>>, err |-> TRUE, ran |-> FALSE, amb |-> amb, v |-> VoidVal]
        ELSE IF IsCtor(fn) THEN
            LET pay == IF fn.kind = "def" THEN 0
                       ELSE ca.cs[1].pay + (CASE fn.kind = "conv" -> 500 [] fn.kind = "from" -> 300 [] OTHER -> 0)
            IN [st |-> NewObj(ca.st, "?r", fn.ret.t, pay), log |-> <<>>, err |-> FALSE, ran |-> TRUE,
                amb |-> amb, v |-> Val(Arg(fn.ret.t, "L", "n"), TRUE, "?r")]
        ELSE LET se == SeeAll(ca.st, tv.vs, fn.args, ca.cs, 1, <<"run:" \o ToString(LogTag(fn))>>)
                 gv == Give(se.st, fn.ret, TagOf(fn))
             IN [st |-> gv.st, log |-> se.log, err |-> FALSE, ran |-> TRUE, amb |-> amb, v |-> gv.v]

\* hands the result to a caller who wants `want`: [err, st, s]
TakeRet(st, v, want, dst) ==
    IF want.t = "void" THEN [err |-> FALSE, st |-> st, s |-> "void"]
    ELSE IF want.t = VT THEN LET s2 == SetReg(st, dst, v) IN
                             [err |-> FALSE, st |-> s2, s |-> Describe(s2, s2.vals[dst])]
    ELSE LET c == CastTo(st, v, want) IN
         IF c.err THEN [err |-> TRUE, st |-> c.st, s |-> ""]
         ELSE [err |-> FALSE, st |-> c.st,
               s |-> IF want.r = "L" THEN (IF want.c = "c" THEN "K:" ELSE "L:") \o ObjName(c.o) \o ":" \o ToString(c.pay)
                     ELSE "C:?:" \o ToString(c.pay)]

(******************************* commands *********************************)
Res(st, r) == [st |-> st, r |-> r, amb |-> FALSE]
Err(st) == Res(st, <<"err">>)
Ok(st) == Res(st, <<"ok">>)

MkFn(name, kind, ret, args, tag) ==
    [name |-> name, kind |-> kind, ret |-> ret, args |-> args, tag |-> tag, calls |-> 0]

AddRefused(st, ovl, fn) ==
    \E i \in 1..Len(ovl) : Combine(MatchRet(st, ovl[i].ret, fn.ret),
                                   MatchArgs(st, ovl[i].args, fn.args)) = "E"
AddFn(st, t, n, fn) ==
    IF n \in DOMAIN st.flds[t] \/ AddRefused(st, OwnFn(st, t, n), fn) THEN Err(st)
    ELSE Ok([st EXCEPT !.fns[t] = Put(@, n, Append(OwnFn(st, t, n), fn))])

CtorFn(t, k, a) ==
    CASE k = "def"  -> MkFn(t, "def", Arg(t, "C", "n"), <<>>, 0)
      [] k = "copy" -> MkFn(t, "copy", Arg(t, "C", "n"), <<Arg(t, "L", "c")>>, 0)
      [] k = "move" -> MkFn(t, "move", Arg(t, "C", "n"), <<Arg(t, "R", "n")>>, 0)
      [] k = "lref" -> MkFn(t, "lref", Arg(t, "C", "n"), <<Arg(t, "L", "n")>>, 0)
      [] k = "from" -> MkFn(t, "from", Arg(t, "C", "n"), <<Arg(a, "L", "c")>>, 0)

B(x) == IF x THEN "1" ELSE "0"
Pairs(a) == [k \in 1..(Len(a) * Len(a)) |-> <<a[((k - 1) \div Len(a)) + 1], a[((k - 1) % Len(a)) + 1]>>]
FlatMap(s, F(_)) == FlattenSeq([i \in 1..Len(s) |-> F(s[i])])
OvlStr(ovl) == JoinStr([i \in 1..Len(ovl) |-> ovl[i].name \o ":" \o SigStr(ovl[i])], ";")
OvlOrErr(ovl) == IF ovl = <<>> THEN "err" ELSE OvlStr(ovl)
FldStr(f) == IF f = <<>> THEN <<"err">>
             ELSE <<f[1].name \o ":" \o ArgStr(f[1].a) \o ":" \o f[1].a.t, ToString(f[1].off)>>

\* every name used for functions and fields, in the order of the listings
AllNames == <<"U0", "U1", "U2", "U3", "U4", "U5", "a", "b", "f", "g", "h",
              "operator U0()", "operator U1()", "operator U2()", "operator U3()", "operator U4()",
              "operator U5()", "operator void()", "z">>
Listing(names) == SelectSeq(AllNames, LAMBDA n : n \in names)
ChainSet(st, t) == {Chain(st, t)[i] : i \in 1..Len(Chain(st, t))}
FnNames(st, t) == UNION {DOMAIN st.fns[x] : x \in ChainSet(st, t)}
FldNames(st, t) == UNION {DOMAIN st.flds[x] : x \in ChainSet(st, t)}

Query(st, op, a) ==
    CASE op = "rel" ->
        FlatMap(Pairs(a), LAMBDA p : <<B(IsChild(st, p[1], p[2])), B(IsChild(st, p[2], p[1]))>>)
        \o FlatMap(a, LAMBDA x : <<B(IsChild(st, x, "U0")), B(IsChild(st, "U1", x)), ParentOf(st, x)>>)
      [] op = "cnv" ->
        FlatMap(Pairs(a), LAMBDA p : LET o == FindFn(st, p[1], ConvName(p[2])) IN
            <<B(o # <<>>), IF Len(o) = 1 THEN SigStr(o[1]) ELSE "err">>)
        \o FlatMap(a, LAMBDA x : <<B(HasConv(st, x, "U0"))>>)
      [] op = "cm" -> FlatMap(a, LAMBDA x : <<B(Copiable(st, x)), B(Movable(st, x))>>)
      [] op = "pq" -> FlatMap(a, LAMBDA x : IF IsPtr(st, x) THEN <<"1", st.ptr[x][1], st.ptr[x][2]>>
                                             ELSE <<"0", "err", "err">>)
      [] op = "ns" ->
        LET t == a[1] IN
        FlatMap(Listing(FnNames(st, t)), LAMBDA n : <<"f:" \o n>>)
        \o FlatMap(Listing(FldNames(st, t)), LAMBDA n : <<"d:" \o n>>)
        \o FlatMap(Tail(a), LAMBDA n :
            <<B(FindFn(st, t, n) # <<>>), OvlOrErr(FindFn(st, t, n)), OvlOrErr(OwnFn(st, t, n)),
              B(FindFld(st, t, n) # <<>>)>>
            \o FldStr(FindFld(st, t, n)) \o FldStr(OwnFld(st, t, n)))
      [] op = "match" -> FlatMap(Pairs(a), LAMBDA p : <<Match(st, A(p[1]), A(p[2]))>>)
      [] op = "argq" ->
        FlatMap(a, LAMBDA x : LET g == A(x) IN
            <<(IF g.t = "void" THEN "v" ELSE "-") \o (IF g.c = "c" /\ g.r = "L" THEN "c" ELSE "-")
              \o (IF g.r # "L" THEN "t" ELSE "-") \o (IF g.c = "n" /\ g.r = "L" THEN "l" ELSE "-"),
              IF g.t \in {"U0", "U1", VT} \/ x = "void.C.n" THEN x ELSE "-">>
            \o FlatMap(a, LAMBDA y : <<B(x = y)>>))
      [] op = "combine" -> LET m == <<"N", "P", "E">> IN FlatMap(Pairs(m), LAMBDA p : <<Combine(p[1], p[2])>>)
      [] op = "test" ->
        LET o == FindFn(st, a[1], a[2])
            ret == A(a[3])
            args == As(SubSeq(a, 4, Len(a)))
            i == FirstIdx(o, LAMBDA f : Test(st, f, ret, args) # "N")
        IN IF o = <<>> THEN <<"err">>
           ELSE [k \in 1..Len(o) |-> Test(st, o[k], ret, args)]
                \o <<IF i > 0 THEN "yes" ELSE "no", IF i > 0 THEN ToString(i - 1) ELSE "err">>
      [] op = "ftest" ->
        LET o == FindFn(st, a[1], a[2])
            p == FindFn(st, a[3], a[4])
        IN IF o = <<>> \/ p = <<>> THEN <<"err">>
           ELSE FlatMap(o, LAMBDA f : FlatMap(p, LAMBDA g : <<Test(st, f, g.ret, g.args)>>))
                \o FlatMap(o, LAMBDA f : <<IF \E k \in 1..Len(p) : Test(st, f, p[k].ret, p[k].args) # "N"
                                            THEN "yes" ELSE "no">>)
Queries == {"rel", "cnv", "cm", "pq", "ns", "match", "argq", "combine", "test", "ftest"}

\* forms with a compiled Overloads::test/get; the others answer "-"
StaticTest(st, a, hasGet) ==
    LET o == FindFn(st, a[1], a[2])
        ret == A(a[3])
        args == As(SubSeq(a, 4, Len(a)))
        i == FirstIdx(o, LAMBDA f : Test(st, f, ret, args) # "N")
    IN IF o = <<>> THEN <<"err">>
       ELSE [k \in 1..Len(o) |-> Test(st, o[k], ret, args)]
            \o <<IF hasGet = "-" THEN "-" ELSE IF i > 0 THEN "yes:" \o ToString(i - 1) ELSE "no:err">>

\* a = <<mode, dst, type, name, want, form1, src1, ...>>
CallForms(a) == [i \in 1..((Len(a) - 5) \div 2) |-> A(a[4 + 2 * i])]
CallSrcs(a) == [i \in 1..((Len(a) - 5) \div 2) |-> a[5 + 2 * i]]
\* can never be handed over; refused before anything is moved or run
NoTransfer(st, b) == b.t \notin {VT, "void"} /\ ((b.r = "C" /\ ~ Copiable(st, b.t)) \/ (b.r = "R" /\ ~ Movable(st, b.t)))
RunFn(st, fn, want, fs, srcs, dst) ==
    LET iv == Invoke(st, fn, fs, srcs)
        tr == TakeRet(iv.st, iv.v, want, dst)
    IN  IF NoTransfer(st, want) \/ \E i \in 1..Len(fn.args) : NoTransfer(st, fn.args[i])
        THEN [st |-> GC(st), r |-> <<"err">>, amb |-> FALSE, ran |-> FALSE]
        ELSE IF iv.err THEN [st |-> GC(iv.st), r |-> <<"err">>, amb |-> iv.amb, ran |-> FALSE]
        ELSE IF tr.err THEN [st |-> GC(tr.st), r |-> <<"err">> \o iv.log, amb |-> iv.amb, ran |-> TRUE]
        ELSE [st |-> GC(tr.st), r |-> <<"ok", tr.s>> \o iv.log, amb |-> iv.amb, ran |-> TRUE]
Call(st, a, n) ==
    LET mode == a[1]
        want == A(a[5])
        fs == CallForms(a)
        srcs == CallSrcs(a)
        args == [i \in 1..Len(fs) |-> ArgOf(st, fs[i], srcs[i])]
        o == IF mode = "oreg" THEN st.ovl[a[3]]
             ELSE IF mode = "val" THEN FindFn(st, st.vals[srcs[1]].a.t, a[4])
             ELSE FindFn(st, a[3], a[4])
        i == IF mode = "fn" THEN (IF Test(st, o[n + 1], want, args) = "N" THEN 0 ELSE n + 1)
             ELSE Choose(st, o, want, args)
    IN  IF mode = "fn" /\ o # <<>> /\ n >= Len(o) THEN Res(st, <<"noidx">>)
        ELSE IF o = <<>> THEN Err(st)
        ELSE IF i <= 0 THEN Err(st)
        ELSE LET x == RunFn(st, o[i], want, fs, srcs, a[2])
                 t == IF mode = "val" THEN st.vals[srcs[1]].a.t ELSE a[3]
                 s2 == IF ~ x.ran THEN x.st
                       ELSE IF mode = "oreg" THEN [x.st EXCEPT !.ovl[a[3]][i].calls = @ + 1]
                       ELSE [x.st EXCEPT !.fns[OwnerOf(st, t, a[4])][a[4]][i].calls = @ + 1]
             IN [st |-> s2, r |-> x.r, amb |-> x.amb]

CastShow(st, v, b) ==
    LET c == CastTo(st, v, b) IN
    IF c.err THEN Err(c.st)
    ELSE Res(c.st, <<IF b.r = "L" THEN (IF b.c = "c" THEN "K:" ELSE "L:") \o ObjName(c.o) \o ":" \o ToString(c.pay)
                     ELSE IF b.r = "R" THEN "R:" \o ToString(c.pay)
                     ELSE "C:?:" \o ToString(c.pay)>>)

VStep(st, op, a, n) ==
    LET R1(s, reg) == Res(s, <<Describe(s, s.vals[reg])>>)
        NewVal(t, p) == SetReg(NewObj(st, "?r", t, p), a[1], Val(Arg(t, "L", "n"), TRUE, "?r"))
    IN
    CASE op = "vnew" -> R1(NewVal(a[2], n[1]), a[1])
      [] op = "vref" -> R1(SetReg(st, a[1], Val(Arg(OType(a[2]), "L", "n"), FALSE, a[2])), a[1])
      [] op = "vcref" -> R1(SetReg(st, a[1], Val(Arg(OType(a[2]), "L", "c"), FALSE, a[2])), a[1])
      \* refers to the object that another value holds
      [] op = "vown" -> LET v == st.vals[a[2]] IN
            IF ~ IsChild(st, v.a.t, a[3]) THEN Err(st)
            ELSE R1(SetReg(st, a[1], Val(Arg(a[3], "L", IF a[4] = "as" THEN "n" ELSE "c"), FALSE, v.o)), a[1])
      [] op = "vmv" -> R1(SetPay(NewVal(OType(a[2]), st.obj[a[2]].pay), a[2], -1), a[1])
      [] op = "vcmv" -> R1(NewVal(OType(a[2]), st.obj[a[2]].pay), a[1])
      [] op = "vset" ->
        LET v == st.vals[a[2]]
            s1 == IF a[3] \in {"movector", "moveassign"} /\ a[1] # a[2]
                  THEN [st EXCEPT !.vals[a[2]] = VoidVal] ELSE st
            s2 == SetReg([s1 EXCEPT !.vals[a[1]] = v], a[1], v)
        IN Res(s2, <<Describe(s2, s2.vals[a[1]]), Describe(s2, s2.vals[a[2]])>>)
      [] op = "vconst" -> LET v == st.vals[a[2]] IN
                          R1(SetReg(st, a[1], [v EXCEPT !.a = Arg(v.a.t, "R", "c")]), a[1])
      [] op = "vrval" -> LET v == st.vals[a[2]] IN
                         R1(SetReg(st, a[1], [v EXCEPT !.a = Arg(v.a.t, "R", v.a.c)]), a[1])
      [] op \in {"vcopy", "vcons"} ->
        LET v == st.vals[a[2]]
            t == IF op = "vcopy" THEN v.a.t ELSE a[3]
            c == Construct(st, t, v)
        IN IF op = "vcopy" /\ ~ Copiable(st, t) THEN Err(st)
           ELSE IF c.err THEN Err(c.st)
           ELSE R1(SetReg(NewObj(c.st, "?r", t, c.pay), a[1], Val(Arg(t, "L", "n"), TRUE, "?r")), a[1])
      [] op = "vdef" ->
        LET o == FindFn(st, a[2], a[2])
            i == Choose(st, o, ValArg, <<>>)
        IN IF i <= 0 THEN Err(st) ELSE R1(NewVal(o[i].ret.t, 0), a[1])
      [] op = "vmove" ->
        LET v == st.vals[a[2]]
            rv == [v EXCEPT !.a = Arg(v.a.t, "R", v.a.c)]
            c == Construct(st, v.a.t, rv)
            s1 == [c.st EXCEPT !.vals[a[2]] = VoidVal]
            s2 == SetReg(NewObj(s1, "?r", v.a.t, c.pay), a[1], Val(Arg(v.a.t, "L", "n"), TRUE, "?r"))
        IN IF ~ Movable(st, v.a.t) \/ c.err THEN Err(st)
           ELSE Res(s2, <<Describe(s2, s2.vals[a[1]]), Describe(s2, s2.vals[a[2]])>>)
      [] op = "vconv" ->
        LET v == st.vals[a[2]]
            c == Convert(st, v, a[3])
        IN IF c.err THEN Err(c.st)
           ELSE R1(SetReg(NewObj(c.st, "?r", a[3], c.pay), a[1], Val(Arg(a[3], "L", "n"), TRUE, "?r")), a[1])
      [] op = "vdrop" -> Ok(SetReg(st, a[1], VoidVal))
      [] op = "vall" -> Res(st,
            FlatMap(VRegs, LAMBDA x : LET v == st.vals[x] IN
                <<Describe(st, v), (IF v.a.t = "void" THEN "v" ELSE "-") \o (IF v.a.c = "c" THEN "c" ELSE "-")
                                   \o (IF v.own THEN "s" ELSE "-") \o v.a.t>>)
            \o [i \in 1..6 |-> ToString(st.obj[ONames[i]].pay)]
            \o [i \in 1..3 |-> ToString(st.obj[Globs[i]].pay)])
      [] op \in {"vget", "vas"} ->
        LET v == st.vals[a[1]] IN
        IF IsChild(st, v.a.t, a[2]) THEN Res(st, <<ObjName(v.o) \o ":" \o ToString(Pay(st, v))>>) ELSE Err(st)
      [] op = "vwrite" ->
        LET v == st.vals[a[1]] IN
        IF IsChild(st, v.a.t, a[2]) THEN Ok(SetPay(st, v.o, n[1])) ELSE Err(st)
      [] op = "vcast" -> LET x == CastShow(st, st.vals[a[1]], A(a[2])) IN [x EXCEPT !.st = GC(x.st)]
      [] op = "visc" -> Res(st, [i \in 1..(Len(a) - 1) |-> B(Match(st, st.vals[a[1]].a, A(a[i + 1])) # "N")])
      [] op = "vvec" ->
        LET v == st.vals[a[1]]
            s == IF a[2] = "keep" THEN [st EXCEPT !.vecs = Append(@, v)] ELSE st
        IN Res(s, <<Describe(st, v), Describe(st, v)>>)
      [] op = "vvecdrop" -> Ok(GC([st EXCEPT !.vecs = <<>>]))
      [] op = "oset" -> Ok(SetPay(st, a[1], n[1]))
VOps == {"vnew", "vref", "vown", "vcref", "vmv", "vcmv", "vset", "vconst", "vrval", "vcopy", "vcons", "vdef", "vmove",
         "vconv", "vdrop", "vall", "vget", "vas", "vwrite", "vcast", "visc", "vvec", "vvecdrop", "oset"}

\* function registers: <<>> or <<fn>>; overload registers: sequences of fn
FStep(st, op, a, n) ==
    CASE op = "fmk" -> Ok([st EXCEPT !.fn[a[1]] =
                          <<MkFn(a[2], a[3], A(a[4]), As(SubSeq(a, 5, Len(a))), n[1])>>])
      [] op = "fmove" -> Ok([st EXCEPT !.fn[a[1]] = st.fn[a[2]],
                                       !.fn[a[2]] = <<>>])
      [] op = "fassign" -> Ok(IF a[1] = a[2] THEN st
                              ELSE [st EXCEPT !.fn[a[1]] = st.fn[a[2]], !.fn[a[2]] = <<>>])
      \* assigns a function which was moved from
      [] op = "fhollow" -> Ok([st EXCEPT !.fn[a[1]] = <<>>])
      [] op = "fswap" -> Ok([st EXCEPT !.fn[a[1]] = st.fn[a[2]], !.fn[a[2]] = st.fn[a[1]]])
      [] op = "fdrop" -> Ok([st EXCEPT !.fn[a[1]] = <<>>])
      [] op = "fvec" -> Ok(st)
      [] op = "fq" -> Res(st, <<st.fn[a[1]][1].name \o ":" \o SigStr(st.fn[a[1]][1])>>)
      [] op = "fcall" ->
        LET fn == st.fn[a[1]][1]
            want == A(a[3])
            fs == [i \in 1..((Len(a) - 3) \div 2) |-> A(a[2 + 2 * i])]
            srcs == [i \in 1..((Len(a) - 3) \div 2) |-> a[3 + 2 * i]]
            args == [i \in 1..Len(fs) |-> ArgOf(st, fs[i], srcs[i])]
            x == RunFn(st, fn, want, fs, srcs, a[2])
            s2 == IF x.ran THEN [x.st EXCEPT !.fn[a[1]][1].calls = @ + 1] ELSE x.st
        IN IF Test(st, fn, want, args) = "N" THEN Err(st)
           ELSE [st |-> s2, r |-> x.r, amb |-> x.amb]
      [] op = "oadd" ->
        LET fn == st.fn[a[2]][1]
            s1 == [st EXCEPT !.fn[a[2]] = <<>>]
        IN IF AddRefused(st, st.ovl[a[1]], fn) THEN Err(s1)
           ELSE Ok([s1 EXCEPT !.ovl[a[1]] = Append(@, fn)])
      [] op = "omove" -> Ok([st EXCEPT !.ovl[a[1]] = st.ovl[a[2]], !.ovl[a[2]] = <<>>])
      [] op = "odrop" -> Ok([st EXCEPT !.ovl[a[1]] = <<>>])
      [] op = "oq" -> Res(st, <<ToString(Len(st.ovl[a[1]])), OvlStr(st.ovl[a[1]])>>)
      [] op = "heap" -> Res(st, <<"0">>)
FOps == {"fmk", "fmove", "fhollow", "fassign", "fswap", "fdrop", "fvec", "fq", "fcall", "oadd", "omove", "odrop", "oq", "heap"}

TStep(st, op, a, n) ==
    CASE op = "parent" -> Ok([st EXCEPT !.parent[a[1]] = a[2]])
      [] op = "ptr" -> IF IsPtr(st, a[1]) THEN Err(st) ELSE Ok([st EXCEPT !.ptr[a[1]] = <<a[2], a[3]>>])
      [] op = "conv" -> AddFn(st, a[1], ConvName(a[2]),
                              MkFn(ConvName(a[2]), "conv", Arg(a[2], "C", "n"), <<Arg(a[1], "L", "c")>>, 0))
      [] op = "ctor" -> AddFn(st, a[1], a[1], CtorFn(a[1], a[2], IF Len(a) > 2 THEN a[3] ELSE ""))
      [] op = "fn" -> AddFn(st, a[1], a[2], MkFn(a[2], a[3], A(a[4]), As(SubSeq(a, 5, Len(a))), n[1]))
      [] op = "fld" ->
        IF A(a[3]).r # "C" \/ a[2] \in DOMAIN st.flds[a[1]] \cup DOMAIN st.fns[a[1]] THEN Err(st)
        ELSE Ok([st EXCEPT !.flds[a[1]] = Put(@, a[2], [name |-> a[2], a |-> A(a[3]), off |-> n[1]])])
TOps == {"parent", "ptr", "conv", "ctor", "fn", "fld"}

FnRegs == {"f0", "f1", "f2", "f3"}
OvlRegs == {"p0", "p1"}
InitState == [
    parent |-> [t \in TSet |-> "-"], ptr |-> [t \in TSet |-> <<>>],
    fns |-> [t \in TSet |-> Empty], flds |-> [t \in TSet |-> Empty],
    vals |-> [r \in VRegSet |-> VoidVal], vecs |-> <<>>, next |-> 0,
    obj |-> [o \in {ONames[i] : i \in 1..6} \cup {Globs[i] : i \in 1..6} |->
             IF \E i \in 1..6 : ONames[i] = o
             THEN [t |-> OType(o), pay |-> 9 + (CHOOSE i \in 1..6 : ONames[i] = o)]
             ELSE [t |-> TN[CHOOSE i \in 1..6 : Globs[i] = o], pay |-> 999 + (CHOOSE i \in 1..6 : Globs[i] = o)]],
    fn |-> [f \in FnRegs |-> <<>>], ovl |-> [p \in OvlRegs |-> <<>>]]

HasTok(f) == f.kind \notin {"glb", "mem"}
CountTok(seq) == Len(SelectSeq(seq, HasTok))
SumOver(S, F(_)) == MapThenSumSet(F, S)
LiveObjs(st) == Cardinality(SObjs(st))
LiveFns(st) ==
    SumOver(TSet, LAMBDA t : SumOver(DOMAIN st.fns[t], LAMBDA n : CountTok(st.fns[t][n])))
    + SumOver(FnRegs, LAMBDA f : CountTok(st.fn[f])) + SumOver(OvlRegs, LAMBDA p : CountTok(st.ovl[p]))

Step0(st, c) ==
    IF c.op \in Queries THEN Res(st, Query(st, c.op, c.a))
    ELSE IF c.op \in VOps THEN VStep(st, c.op, c.a, c.n)
    ELSE IF c.op \in FOps THEN FStep(st, c.op, c.a, c.n)
    ELSE IF c.op \in TOps THEN TStep(st, c.op, c.a, c.n)
    ELSE IF c.op = "call" THEN Call(st, c.a, c.n[1])
    ELSE Res(st, <<"unknown">>)

\* a reference whose object is gone: the program, not the library, is wrong
Dangling(st) == \E v \in {st.vals[r] : r \in VRegSet} \cup {st.vecs[i] : i \in 1..Len(st.vecs)} :
                    v.o # "" /\ v.o \notin DOMAIN st.obj
Step(st, c) == LET x == Step0(st, c) IN
    [st |-> x.st, amb |-> x.amb \/ Dangling(x.st), r |-> x.r \o <<ToString(LiveObjs(x.st)), ToString(LiveFns(x.st))>>]
=============================================================================
