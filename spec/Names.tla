------------------------------- MODULE Names -------------------------------
(* Everything reflect finds by name: qualified names, the tree of scopes,  *)
(* the type registry with its loaders and aliases, and the traits attached *)
(* to scopes, functions, types and fields.                                 *)
(*   Step(st, cmd) == [st |-> state afterwards, r |-> answer]              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt

Put(f, k, v) == [x \in (DOMAIN f) \cup {k} |-> IF x = k THEN v ELSE f[x]]
Drop(f, k) == [x \in (DOMAIN f) \ {k} |-> f[x]]
Empty == [x \in {} |-> 0]
Ch(s, i) == IF i < 1 \/ i > Len(s) THEN "" ELSE SubSeq(s, i, i)
From(s, i) == IF i > Len(s) THEN "" ELSE SubSeq(s, i, Len(s))
RECURSIVE JoinStr(_, _)
JoinStr(ss, sep) ==
    IF ss = <<>> THEN "" ELSE IF Len(ss) = 1 THEN ss[1]
    ELSE ss[1] \o sep \o JoinStr(Tail(ss), sep)

(******************************** names ***********************************)
\* splits at the first (last) "::" which is not inside of template brackets
RECURSIVE HeadAt(_, _, _)
HeadAt(s, i, n) ==
    IF i > Len(s) THEN (IF n # 0 THEN [ok |-> FALSE] ELSE [ok |-> TRUE, a |-> s, b |-> ""])
    ELSE IF Ch(s, i) = "<" THEN HeadAt(s, i + 1, n + 1)
    ELSE IF Ch(s, i) = ">" THEN HeadAt(s, i + 1, n - 1)
    ELSE IF Ch(s, i) = ":" /\ n = 0
    THEN (IF Ch(s, i + 1) # ":" THEN [ok |-> FALSE]
          ELSE [ok |-> TRUE, a |-> SubSeq(s, 1, i - 1), b |-> From(s, i + 2)])
    ELSE HeadAt(s, i + 1, n)
Head_(s) == HeadAt(s, 1, 0)
RECURSIVE TailAt(_, _, _)
TailAt(s, i, n) ==
    IF i < 1 THEN (IF n # 0 THEN [ok |-> FALSE] ELSE [ok |-> TRUE, a |-> s, b |-> ""])
    ELSE IF Ch(s, i) = ">" THEN TailAt(s, i - 1, n + 1)
    ELSE IF Ch(s, i) = "<" THEN TailAt(s, i - 1, n - 1)
    ELSE IF Ch(s, i) = ":" /\ n = 0
    THEN (IF i = 1 \/ Ch(s, i - 1) # ":" THEN [ok |-> FALSE]
          ELSE [ok |-> TRUE, a |-> From(s, i + 1), b |-> SubSeq(s, 1, i - 2)])
    ELSE TailAt(s, i - 1, n)
Tail_(s) == TailAt(s, Len(s), 0)
Join(h, t) == IF h = "" THEN t ELSE h \o "::" \o t

\* all components, or <<>> for a malformed name
RECURSIVE Comps(_)
Comps(s) == LET h == Head_(s) IN
    IF ~ h.ok THEN <<"!">> ELSE IF h.b = "" THEN <<h.a>>
    ELSE LET r == Comps(h.b) IN IF r = <<"!">> THEN r ELSE <<h.a>> \o r
Good(s) == s # "" /\ Comps(s) # <<"!">>
\* scopes are found component by component; a name may end in "::"
Malformed(s) == s # "" /\ Comps(s) = <<"!">>

(******************************** state ***********************************)
SRegs == <<"s0", "s1", "s2", "s3", "s4", "s5">>
ERegs == <<"e0", "e1", "e2", "e3", "e4", "e5">>
Node == [types |-> Empty, fns |-> Empty]
InitState == [
    sc |-> [p \in {<<"G">>, <<"R">>} |-> Node],           \* scopes by path; G is the global one
    reg |-> [x \in {SRegs[i] : i \in 1..Len(SRegs)} |->
                IF x = "s0" THEN <<"G">> ELSE IF x = "s1" THEN <<"R">> ELSE <<>>],
    ent |-> [x \in {ERegs[i] : i \in 1..Len(ERegs)} |-> <<>>],
    loaders |-> Empty,                                    \* name -> body
    aliases |-> Empty,
    types |-> Empty,                                      \* name -> [fns, flds, parent]
    runs |-> Empty,                                       \* name -> how often its loader ran
    bodies |-> Empty,                                     \* what the loaders do
    tmpl |-> {},                                          \* template instantiations registered so far
    traits |-> Empty]                                     \* entity -> name -> value

Bodies(st, b) == IF b \in DOMAIN st.bodies THEN st.bodies[b] ELSE <<>>
Out(st, r) == [st |-> st, r |-> r]
Err == <<"err">>

(******************************** scopes **********************************)
Label(p) == JoinStr(p, "/")
Id(p) == JoinStr(Tail(p), "::")
RECURSIVE FindScope(_, _, _)
FindScope(st, p, name) ==        \* the path of the scope, or <<>>
    LET h == Head_(name) IN
    IF ~ h.ok \/ Append(p, h.a) \notin DOMAIN st.sc THEN <<>>
    ELSE IF h.b = "" THEN Append(p, h.a) ELSE FindScope(st, Append(p, h.a), h.b)
RECURSIVE HasScope(_, _, _)
HasScope(st, p, name) ==         \* "1", "0" or "err"
    LET h == Head_(name) IN
    IF ~ h.ok THEN "err" ELSE IF Append(p, h.a) \notin DOMAIN st.sc THEN "0"
    ELSE IF h.b = "" THEN "1" ELSE HasScope(st, Append(p, h.a), h.b)
RECURSIVE MakeScope(_, _, _)
MakeScope(st, p, comps) ==
    IF comps = <<>> THEN st
    ELSE LET q == Append(p, comps[1])
         IN MakeScope(IF q \in DOMAIN st.sc THEN st ELSE [st EXCEPT !.sc = Put(@, q, Node)], q, Tail(comps))
SComps(name) == IF name = "" THEN <<"">> ELSE Comps(name)

RECURSIVE AddTypeAt(_, _, _)
AddTypeAt(st, p, name) ==        \* [ok, st]
    LET h == Head_(name) IN
    IF h.b = "" THEN [ok |-> TRUE, st |->
        IF h.a \in DOMAIN st.sc[p].types THEN st ELSE [st EXCEPT !.sc[p].types = Put(@, h.a, "")]]
    ELSE IF h.a \in DOMAIN st.sc[p].types \/ h.a \in DOMAIN st.sc[p].fns THEN [ok |-> FALSE, st |-> st]
    ELSE AddTypeAt(MakeScope(st, p, <<h.a>>), Append(p, h.a), h.b)
AddType(st, p, name) == IF Malformed(name) THEN [ok |-> FALSE, st |-> st] ELSE AddTypeAt(st, p, name)

RECURSIVE HasType(_, _, _)
HasType(st, p, name) ==
    LET h == Head_(name) IN
    IF ~ h.ok THEN "err"
    ELSE IF h.a \in DOMAIN st.sc[p].types THEN (IF h.b = "" THEN "1" ELSE "err")
    ELSE IF h.b = "" \/ Append(p, h.a) \notin DOMAIN st.sc THEN "0"
    ELSE HasType(st, Append(p, h.a), h.b)

\* functions live in the scope named by everything but the last component
FnPlace(st, p, name) ==          \* [ok, p, n]: ok = "err" malformed, "0" no such scope, "1"
    LET t == Tail_(name) IN
    IF ~ t.ok THEN [ok |-> "err"]
    ELSE IF t.b = "" THEN [ok |-> "1", p |-> p, n |-> t.a]
    ELSE LET q == HasScope(st, p, t.b) IN
         IF q # "1" THEN [ok |-> q] ELSE [ok |-> "1", p |-> FindScope(st, p, t.b), n |-> t.a]
HasFn(st, p, name) == LET x == FnPlace(st, p, name) IN
    IF x.ok # "1" THEN x.ok ELSE IF x.n \in DOMAIN st.sc[x.p].fns THEN "1" ELSE "0"
AddOverload(fns, n, sig, k) ==   \* [ok, fns]
    LET o == IF n \in DOMAIN fns THEN fns[n] ELSE <<>> IN
    IF \E i \in 1..Len(o) : o[i][1] = sig THEN [ok |-> FALSE, fns |-> fns]
    ELSE [ok |-> TRUE, fns |-> Put(fns, n, Append(o, <<sig, k>>))]
AddFn(st, p, name, sig, k) ==
    LET t == Tail_(name) IN
    IF ~ t.ok \/ (t.b # "" /\ Malformed(t.b)) THEN [ok |-> FALSE, st |-> st]
    ELSE LET comps == IF t.b = "" THEN <<>> ELSE Comps(t.b)
             q == p \o comps
             s == MakeScope(st, p, comps)
             x == AddOverload(s.sc[q].fns, t.a, sig, k)
         IN IF x.ok THEN [ok |-> TRUE, st |-> [s EXCEPT !.sc[q].fns = x.fns]] ELSE [ok |-> FALSE, st |-> st]

Below(st, p) == {q \in DOMAIN st.sc : Len(q) > Len(p) /\ SubSeq(q, 1, Len(p)) = p}
Rel(p, q) == JoinStr(SubSeq(q, Len(p) + 1, Len(q)), "::")
ScopesOf(st, p) == {q[Len(q)] : q \in {x \in Below(st, p) : Len(x) = Len(p) + 1}}
TypesOf(st, p, deep) == DOMAIN st.sc[p].types \cup
    (IF deep THEN UNION {{Join(Rel(p, q), t) : t \in DOMAIN st.sc[q].types} : q \in Below(st, p)} ELSE {})
FnsOf(st, p, deep) == DOMAIN st.sc[p].fns \cup
    (IF deep THEN UNION {{Join(Rel(p, q), t) : t \in DOMAIN st.sc[q].fns} : q \in Below(st, p)} ELSE {})
DumpOf(st, root) == UNION {
    {"S:" \o Label(q)} \cup {"T:" \o Label(q) \o ":" \o t : t \in DOMAIN st.sc[q].types}
    \cup {"F:" \o Label(q) \o ":" \o f \o ":" \o ToString(Len(st.sc[q].fns[f])) : f \in DOMAIN st.sc[q].fns}
    : q \in {<<root>>} \cup Below(st, <<root>>)}

CallSig == [i0 |-> <<"i()", 0>>, i1 |-> <<"i(i)", 1>>, i2 |-> <<"i(i,i)", 2>>]
CallFn(o, n, args) ==            \* the overload which takes that many integers
    LET ks == {i \in 1..Len(o) : o[i][1] = (CASE Len(args) = 0 -> "i()" [] Len(args) = 1 -> "i(i)" [] OTHER -> "i(i,i)")}
    IN IF ks = {} THEN Err ELSE <<"ok", ToString(o[CHOOSE i \in ks : TRUE][2] + FoldSeq(LAMBDA x, y : x + y, 0, args))>>

(******************************* registry *********************************)
TmplNames == <<"nt::T0", "nt::T1", "tq<nt::T0>">>
PlainNames == <<"nt::P0", "P1">>
CppName(x) == CASE x = "T0" -> TmplNames[1] [] x = "T1" -> TmplNames[2] [] x = "T2" -> TmplNames[3]
                [] x = "P0" -> PlainNames[1] [] x = "P1" -> PlainNames[2]
IsTmpl(x) == x \in {"T0", "T1", "T2"}
NewType == [fns |-> Empty, flds |-> {}, parent |-> ""]

Register(st, name, body) ==      \* [ok, st]
    IF name = "" THEN [ok |-> FALSE, st |-> st]
    ELSE LET x == AddType(st, <<"G">>, name) IN
         IF ~ x.ok THEN x
         ELSE [ok |-> TRUE, st |-> IF name \in DOMAIN st.loaders THEN x.st
                                   ELSE [x.st EXCEPT !.loaders = Put(@, name, body)]]
AddAlias(st, name, alias) ==
    IF name = "" \/ alias = "" \/ alias \in DOMAIN st.aliases THEN [ok |-> FALSE, st |-> st]
    ELSE [ok |-> TRUE, st |-> [st EXCEPT !.aliases = Put(@, alias, name)]]
AddCpp(st, x) == Register(st, CppName(x), x)
TmplLoad(st, x) ==
    IF ~ IsTmpl(x) \/ x \in st.tmpl THEN [ok |-> TRUE, st |-> st]
    ELSE LET y == AddCpp(st, x) IN IF y.ok THEN [ok |-> TRUE, st |-> [y.st EXCEPT !.tmpl = @ \cup {x}]] ELSE y

\* lookups answer [st, v, log]: v is the name of the type or "" when it is refused
RECURSIVE Get(_, _), Run(_, _, _), GetCpp(_, _), ScopeType(_, _, _)
Get(st, name) ==
    LET n == IF name \in DOMAIN st.aliases THEN st.aliases[name] ELSE name IN
    IF n \in DOMAIN st.types THEN [st |-> st, v |-> n, log |-> <<>>]
    ELSE IF n = "" \/ n \notin DOMAIN st.loaders THEN [st |-> st, v |-> "", log |-> <<>>]
    ELSE LET b == st.loaders[n]
             s == [st EXCEPT !.loaders = Drop(@, n), !.types = Put(@, n, NewType),
                             !.runs = Put(@, n, 1 + (IF n \in DOMAIN @ THEN @[n] ELSE 0))]
             x == Run(s, Bodies(s, b), n)
         IN [st |-> x.st, v |-> n, log |-> <<"load:" \o n \o ":" \o b>> \o x.log \o <<"end:" \o n>>]
GetCpp(st, x) ==
    LET y == TmplLoad(st, x) IN
    IF ~ y.ok THEN [st |-> y.st, v |-> "", log |-> <<>>] ELSE Get(y.st, CppName(x))
\* a scope looks its types up on first use and remembers them
ScopeType(st, p, name) ==
    LET h == Head_(name) IN
    IF ~ h.ok THEN [st |-> st, v |-> "", log |-> <<>>]
    ELSE IF h.a \notin DOMAIN st.sc[p].types
    THEN (IF h.b = "" \/ Append(p, h.a) \notin DOMAIN st.sc THEN [st |-> st, v |-> "", log |-> <<>>]
          ELSE ScopeType(st, Append(p, h.a), h.b))
    ELSE LET known == st.sc[p].types[h.a]
             x == IF known # "" THEN [st |-> st, v |-> known, log |-> <<>>] ELSE Get(st, Join(Id(p), h.a))
             s == IF x.v = "" THEN x.st ELSE [x.st EXCEPT !.sc[p].types[h.a] = x.v]
         IN [st |-> s, v |-> IF h.b = "" THEN x.v ELSE "", log |-> x.log]

Ans(v) == IF v = "" THEN "err" ELSE v
OkErr(b) == IF b THEN "ok" ELSE "err"
AddTypeFn(t, n, sig, k) ==       \* [ok, t]
    IF n \in t.flds THEN [ok |-> FALSE, t |-> t]
    ELSE LET x == AddOverload(t.fns, n, sig, k) IN [ok |-> x.ok, t |-> [t EXCEPT !.fns = x.fns]]
AddTypeFld(t, n) ==
    IF n \in t.flds \/ n \in DOMAIN t.fns THEN [ok |-> FALSE, t |-> t]
    ELSE [ok |-> TRUE, t |-> [t EXCEPT !.flds = @ \cup {n}]]

\* what a loader does, command by command
Nested(st, c, self) ==           \* [st, log]
    CASE c[1] = "get" -> LET x == Get(st, c[2])
                         IN [st |-> x.st, log |-> x.log \o <<"get:" \o c[2] \o "=" \o Ans(x.v)>>]
      [] c[1] = "getT" -> LET x == GetCpp(st, c[2])
                          IN [st |-> x.st, log |-> x.log \o <<"getT:" \o c[2] \o "=" \o Ans(x.v)>>]
      [] c[1] = "self" -> LET x == Get(st, self)
                          IN [st |-> x.st, log |-> x.log \o <<"self=" \o Ans(x.v)>>]
      [] c[1] = "add" -> LET x == Register(st, c[2], c[3])
                         IN [st |-> x.st, log |-> <<"add:" \o c[2] \o "=" \o OkErr(x.ok)>>]
      [] c[1] = "alias" -> LET x == AddAlias(st, c[2], c[3])
                           IN [st |-> x.st, log |-> <<"alias:" \o c[3] \o "=" \o OkErr(x.ok)>>]
      [] c[1] = "typ" -> LET x == ScopeType(st, <<"G">>, c[2])
                         IN [st |-> x.st, log |-> x.log \o <<"typ:" \o c[2] \o "=" \o Ans(x.v)>>]
      [] c[1] = "field" -> LET x == AddTypeFld(st.types[self], c[2])
                           IN [st |-> [st EXCEPT !.types[self] = x.t], log |-> <<"field=" \o OkErr(x.ok)>>]
Run(st, b, self) ==
    IF b = <<>> THEN [st |-> st, log |-> <<>>]
    ELSE LET x == Nested(st, b[1], self)
             y == Run(x.st, Tail(b), self)
         IN [st |-> y.st, log |-> x.log \o y.log]

(******************************** traits **********************************)
\* a trait holds what it was given: a value, or a reference to an object which lives elsewhere
TKind(k) == CASE k \in {"lint", "clint"} -> "int" [] k = "nul" -> "ptr" [] OTHER -> k
TType(k) == CASE k = "none" -> "void" [] k = "str" -> "std::string" [] k = "dbl" -> "double"
              [] k = "ptr" -> "int*" [] k = "type" -> "reflect::Type*" [] k = "vec" -> "std::vector<int>"
              [] k = "sp" -> "std::shared_ptr<int>" [] OTHER -> k
TraitsOf(st, e) == IF e \in DOMAIN st.traits THEN st.traits[e] ELSE Empty
RECURSIVE OwnerFn(_, _, _), OwnerFld(_, _, _)
OwnerFn(st, t, n) ==
    IF n \in DOMAIN st.types[t].fns THEN t
    ELSE IF st.types[t].parent = "" THEN "" ELSE OwnerFn(st, st.types[t].parent, n)
OwnerFld(st, t, n) ==
    IF n \in st.types[t].flds THEN t
    ELSE IF st.types[t].parent = "" THEN "" ELSE OwnerFld(st, st.types[t].parent, n)
RECURSIVE ChainOf(_, _)
ChainOf(st, t) == {t} \cup (IF st.types[t].parent = "" THEN {} ELSE ChainOf(st, st.types[t].parent))

\* [st, e, log]: e = <<>> when there is no such thing
Entity(st, a) ==
    CASE a[1] = "scope" -> [st |-> st, e |-> <<"scope">> \o st.reg[a[2]], log |-> <<>>]
      [] a[1] \in {"sfn", "sfnc"} ->
            LET x == FnPlace(st, st.reg[a[2]], a[3])
            IN [st |-> st, e |-> IF x.ok = "1" /\ x.n \in DOMAIN st.sc[x.p].fns THEN <<"sfn", x.n>> \o x.p ELSE <<>>,
                log |-> <<>>]
      [] a[1] = "type" -> LET x == Get(st, a[2]) IN [st |-> x.st, e |-> IF x.v = "" THEN <<>> ELSE <<"type", x.v>>,
                                                     log |-> x.log]
      [] a[1] \in {"tfn", "tfnc", "fld", "fldc"} ->
            LET x == Get(st, a[2])
                fn == a[1] \in {"tfn", "tfnc"}
                own == IF x.v = "" THEN ""
                       ELSE IF a[1] = "tfn" THEN (IF a[3] \in DOMAIN x.st.types[x.v].fns THEN x.v ELSE "")
                       ELSE IF a[1] = "fld" THEN (IF a[3] \in x.st.types[x.v].flds THEN x.v ELSE "")
                       ELSE IF fn THEN OwnerFn(x.st, x.v, a[3]) ELSE OwnerFld(x.st, x.v, a[3])
            IN [st |-> x.st, e |-> IF own = "" THEN <<>> ELSE <<IF fn THEN "tfn" ELSE "fld", own, a[3]>>, log |-> x.log]

(****************************** descriptions ******************************)
\* what printing says: every item with the place which it describes. Types print their parents inside of them.
SigText(s) == CASE s = "i()" -> "int()" [] s = "i(i)" -> "int(int)" [] s = "i(i,i)" -> "int(int, int)"
                [] s = "v(cs&)" -> "void(std::string const&)" [] s = "s(s&&,d)" -> "std::string(std::string&&, double)"
                [] s = "d&(d&,cd&,i)" -> "double&(double&, double const&, int)" [] s = "cs&()" -> "std::string const&()"
                [] s = "v(V,i,i,i)" -> "void(reflect::Value const&, int, int, int)"
FldText(n) == CASE n = "f" -> "0x14: int f" [] n = "g" -> "0x18: std::string g" [] n = "h" -> "0x1c: double h"
                [] n = "x" -> "0x5c: int x" [] n = "y" -> "0x60: int y"
TraitItems(st, e, p, of) == {p \o "|" \o of \o "[" \o t \o "]" : t \in DOMAIN TraitsOf(st, e)}
OvlItems(o, p, n) == {p \o "|" \o n \o "#" \o ToString(i) \o ":" \o SigText(o[i][1]) : i \in 1..Len(o)}
FldItems(st, t, n, p) == {p \o "|" \o FldText(n)} \cup TraitItems(st, <<"fld", t, n>>, p, n)
RECURSIVE TypeItems(_, _, _)
TypeItems(st, t, above) ==
    LET p == above \o "/" \o t
        x == st.types[t]
    IN {p \o "|type"} \cup TraitItems(st, <<"type", t>>, p, "")
       \cup UNION {FldItems(st, t, n, p) : n \in x.flds}
       \cup UNION {OvlItems(x.fns[n], p, n) \cup TraitItems(st, <<"tfn", t, n>>, p, n) : n \in DOMAIN x.fns}
       \cup (IF x.parent = "" THEN {} ELSE TypeItems(st, x.parent, p))
ScopeItems(st, p) == UNION {
    LET l == "/" \o JoinStr(<<IF Len(p) = 1 THEN "" ELSE p[Len(p)]>> \o SubSeq(q, Len(p) + 1, Len(q)), "/")
        x == st.sc[q]
    IN {l \o "|scope"} \cup TraitItems(st, <<"scope">> \o q, l, "") \cup {l \o "|type " \o t : t \in DOMAIN x.types}
       \cup UNION {OvlItems(x.fns[n], l, n) \cup TraitItems(st, <<"sfn", n>> \o q, l, n) : n \in DOMAIN x.fns}
    : q \in {p} \cup Below(st, p)}
EntItems(st, e) ==
    CASE e[1] = "scope" -> ScopeItems(st, Tail(e))
      [] e[1] = "sfn" -> OvlItems(st.sc[SubSeq(e, 3, Len(e))].fns[e[2]], "", "") \cup TraitItems(st, e, "", "") \cup {"|name=" \o e[2]}
      [] e[1] = "type" -> TypeItems(st, e[2], "")
      [] e[1] = "tfn" -> OvlItems(st.types[e[2]].fns[e[3]], "", "") \cup TraitItems(st, e, "", "") \cup {"|name=" \o e[3]}
      [] e[1] = "fld" -> FldItems(st, e[2], e[3], "")

(****************************** operations ********************************)
Lst(S) == SetToSeq(S)
Lookup(x) == Out(x.st, <<Ans(x.v)>> \o x.log)
WithType(st, name, F(_, _)) ==   \* operations on a registered type
    LET x == Get(st, name) IN
    IF x.v = "" THEN Out(x.st, Err \o x.log)
    ELSE LET y == F(x.st, x.v) IN Out(y.st, <<OkErr(y.ok)>> \o x.log)

Step(st, c) ==
    LET a == c.a op == c.op IN
    CASE op = "head" -> LET h == Head_(a[1]) IN Out(st, IF h.ok THEN <<"ok", h.a, h.b>> ELSE Err)
      [] op = "tail" -> LET h == Tail_(a[1]) IN Out(st, IF h.ok THEN <<"ok", h.a, h.b>> ELSE Err)
      [] op = "join" -> Out(st, <<Join(a[1], a[2])>>)
      \* scopes: a[1] is the receiver
      [] op = "scopeM" ->        \* create; a[2] gets it
            IF Malformed(a[3]) THEN Out(st, Err)
            ELSE LET cs == SComps(a[3])
                     q == st.reg[a[1]] \o cs
                 IN Out([MakeScope(st, st.reg[a[1]], cs) EXCEPT !.reg[a[2]] = q], <<"ok", Label(q)>>)
      [] op = "scopeC" ->
            LET q == FindScope(st, st.reg[a[1]], a[3])
            IN IF q = <<>> THEN Out(st, Err) ELSE Out([st EXCEPT !.reg[a[2]] = q], <<"ok", Label(q)>>)
      [] op = "scopeF" ->        \* reflect::scope(name)
            IF a[2] = "" THEN Out([st EXCEPT !.reg[a[1]] = <<"G">>], <<"ok", "G">>)
            ELSE LET q == FindScope(st, <<"G">>, a[2])
                 IN IF q = <<>> THEN Out(st, Err) ELSE Out([st EXCEPT !.reg[a[1]] = q], <<"ok", Label(q)>>)
      [] op = "sid" -> LET p == st.reg[a[1]] IN
            Out(st, <<Label(p), Id(p), IF Len(p) = 1 THEN "-" ELSE p[Len(p)], IF Len(p) = 1 THEN "1" ELSE "0",
                      IF Len(p) = 1 THEN "-" ELSE Label(SubSeq(p, 1, Len(p) - 1))>>)
      [] op = "hasScope" -> Out(st, [i \in 1..(Len(a) - 1) |-> HasScope(st, st.reg[a[1]], a[i + 1])])
      [] op = "hasType" -> Out(st, [i \in 1..(Len(a) - 1) |-> HasType(st, st.reg[a[1]], a[i + 1])])
      [] op = "hasFn" -> Out(st, [i \in 1..(Len(a) - 1) |-> HasFn(st, st.reg[a[1]], a[i + 1])])
      [] op = "addType" -> LET x == AddType(st, st.reg[a[1]], a[2]) IN Out(x.st, <<OkErr(x.ok)>>)
      [] op = "addFn" -> LET x == AddFn(st, st.reg[a[1]], a[2], a[3], c.n[1]) IN Out(x.st, <<OkErr(x.ok)>>)
      [] op \in {"fn", "fnM"} ->
            LET x == FnPlace(st, st.reg[a[1]], a[2])
                o == IF x.ok = "1" /\ x.n \in DOMAIN st.sc[x.p].fns THEN st.sc[x.p].fns[x.n] ELSE <<>>
            IN Out(st, IF o = <<>> THEN Err ELSE <<"ok">> \o [i \in 1..Len(o) |-> o[i][1]])
      [] op = "call" ->
            LET x == FnPlace(st, st.reg[a[1]], a[2])
                o == IF x.ok = "1" /\ x.n \in DOMAIN st.sc[x.p].fns THEN st.sc[x.p].fns[x.n] ELSE <<>>
            IN Out(st, CallFn(o, a[2], c.n))
      [] op = "typ" -> Lookup(ScopeType(st, st.reg[a[1]], a[2]))
      [] op = "scopes" -> Out(st, Lst(ScopesOf(st, st.reg[a[1]])))
      [] op = "types" -> Out(st, Lst(TypesOf(st, st.reg[a[1]], a[2] = "deep")))
      [] op = "fns" -> Out(st, Lst(FnsOf(st, st.reg[a[1]], a[2] = "deep")))
      [] op = "dump" -> Out(st, Lst(DumpOf(st, a[1])))
      \* registry
      [] op = "body" -> Out([st EXCEPT !.bodies = Put(@, a[1], Append(Bodies(st, a[1]), Tail(a)))], <<>>)
      [] op = "radd" -> LET x == Register(st, a[1], a[2]) IN Out(x.st, <<OkErr(x.ok)>>)
      [] op = "raddnone" -> Out(st, Err)
      [] op = "raddT" -> LET x == AddCpp(st, a[1]) IN Out(x.st, <<OkErr(x.ok)>>)
      [] op = "ralias" -> LET x == AddAlias(st, a[1], a[2]) IN Out(x.st, <<OkErr(x.ok)>>)
      [] op = "raliasT" -> LET x == AddAlias(st, CppName(a[1]), a[2]) IN Out(x.st, <<OkErr(x.ok)>>)
      [] op = "get" -> Lookup(Get(st, a[1]))
      [] op = "getT" -> Lookup(GetCpp(st, a[1]))
      \* types
      [] op = "tfn" -> WithType(st, a[1], LAMBDA s, t :
            LET x == AddTypeFn(s.types[t], a[2], a[3], c.n[1]) IN [ok |-> x.ok, st |-> [s EXCEPT !.types[t] = x.t]])
      [] op = "tfld" -> WithType(st, a[1], LAMBDA s, t :
            LET x == AddTypeFld(s.types[t], a[2]) IN [ok |-> x.ok, st |-> [s EXCEPT !.types[t] = x.t]])
      [] op = "tparent" ->
            LET x == Get(st, a[1])
                y == Get(x.st, a[2])
            IN IF x.v = "" THEN Out(x.st, Err \o x.log)
               ELSE IF y.v = "" THEN Out(y.st, Err \o x.log \o y.log)
               ELSE IF x.v \in ChainOf(y.st, y.v) THEN Out(y.st, <<"cycle">> \o x.log \o y.log)
               ELSE Out([y.st EXCEPT !.types[x.v].parent = y.v], <<"ok">> \o x.log \o y.log)
      \* traits
      [] op = "ent" ->
            LET x == Entity(st, Tail(a))
            IN Out(IF x.e = <<>> THEN x.st ELSE [x.st EXCEPT !.ent[a[1]] = x.e], <<OkErr(x.e # <<>>)>> \o x.log)
      [] op = "tadd" ->
            LET e == st.ent[a[1]] IN
            IF a[2] \in DOMAIN TraitsOf(st, e) THEN Out(st, Err)
            ELSE Out([st EXCEPT !.traits = Put(@, e, Put(TraitsOf(st, e), a[2], <<TKind(a[3]), a[4]>>))], <<"ok">>)
      [] op = "tis" -> Out(st, [i \in 1..(Len(a) - 1) |->
                                IF a[i + 1] \in DOMAIN TraitsOf(st, st.ent[a[1]]) THEN "1" ELSE "0"])
      [] op = "tlist" -> Out(st, Lst(DOMAIN TraitsOf(st, st.ent[a[1]])))
      [] op = "tget" ->
            LET m == TraitsOf(st, st.ent[a[1]]) IN
            Out(st, IF a[2] \notin DOMAIN m THEN Err
                    ELSE IF a[3] = "val" THEN <<"ok", TType(m[a[2]][1])>>
                    ELSE IF a[3] = "bool" /\ m[a[2]][1] \in {"ptr", "type", "sp"}      \* pointers convert to bool
                         THEN <<"ok", IF m[a[2]][2] = "null" THEN "false" ELSE "true">>
                    ELSE IF m[a[2]][1] = a[3] THEN <<"ok", m[a[2]][2]>> ELSE Err)
      [] op = "eprint" -> Out(st, Lst(EntItems(st, st.ent[a[1]])))
      [] op = "sprint" -> Out(st, Lst(ScopeItems(st, st.reg[a[1]])))
      [] op = "tprint" -> LET x == Get(st, a[1]) IN
            Out(x.st, IF x.v = "" THEN Err \o x.log ELSE Lst(TypeItems(x.st, x.v, "")) \o <<"ok">> \o x.log)
      [] op = "words" -> Out(st, <<"None,Partial,Exact,Copy,LValue,RValue,int,int const&,std::string&&,double&,void,double const,reflect::Value const&">>)
      [] op = "tall" ->          \* every trait of every entity
            Out(st, Lst(UNION {{JoinStr(e, "/") \o "=" \o t : t \in DOMAIN st.traits[e]} : e \in DOMAIN st.traits}))
Unordered(e) == e.op \in {"scopes", "types", "fns", "dump", "tlist", "tall", "eprint", "sprint", "tprint"}
=============================================================================
