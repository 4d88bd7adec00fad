----------------------------- MODULE MC_Names -----------------------------
(* Exhaustive exploration of Names over small sets of names, with the laws *)
(* of P08, P09 and P11.                                                    *)
EXTENDS Names
CONSTANTS Config, Depth
VARIABLES st

C(op, a, n) == [op |-> op, a |-> a, n |-> n]
SN == {"a", "b", "a::b", "b::a", "a::b::a", "A<x::y>::b", "A<x::y>"}
ScopeCmds == {C("addType", <<"s0", n>>, <<>>) : n \in SN \cup {"a::b:c"}}
             \cup {C("addFn", <<"s0", n, "i()">>, <<10>>) : n \in SN \cup {"b::a:b"}}
             \cup {C("addFn", <<"s0", "a::b", "i(i)">>, <<10>>)}
             \cup {C("scopeM", <<"s0", "s2", n>>, <<>>) : n \in {"a", "a::b", "b::b"}}
             \cup {C("scopeC", <<"s0", "s2", "a::b">>, <<>>), C("addFn", <<"s2", "a", "i()">>, <<20>>)}
RN == {"a", "b", "c::d"}
RegBodies == [B0 |-> <<>>,
              B1 |-> <<<<"self">>, <<"get", "b">>, <<"add", "c::d", "B1">>>>,
              B2 |-> <<<<"get", "a">>, <<"alias", "a", "al">>, <<"get", "c::d">>>>]
RegCmds == {C("radd", <<n, b>>, <<>>) : n \in RN, b \in DOMAIN RegBodies}
           \cup {C("ralias", <<n, m>>, <<>>) : n \in {"a", "b", "al"}, m \in {"al", "b"}}
           \cup {C("get", <<n>>, <<>>) : n \in RN \cup {"al"}}
           \cup {C("getT", <<"T0">>, <<>>), C("typ", <<"s0", "c::d">>, <<>>), C("typ", <<"s0", "b">>, <<>>),
                 C("radd", <<"", "B0">>, <<>>), C("addFn", <<"s0", "c", "i()">>, <<10>>)}
TraitCmds == {C("radd", <<n, "B0">>, <<>>) : n \in {"a", "b"}}
             \cup {C("tfn", <<n, "f", "i()">>, <<10>>) : n \in {"a", "b"}}
             \cup {C("tfld", <<n, "g">>, <<>>) : n \in {"a"}}
             \cup {C("tparent", <<"b", "a">>, <<>>)}
             \cup {C("ent", <<"e0", k, "b", "f">>, <<>>) : k \in {"type", "tfn", "tfnc"}}
             \cup {C("ent", <<"e1", k, "b", "g">>, <<>>) : k \in {"fld", "fldc"}}
             \cup {C("ent", <<"e1", "type", "a">>, <<>>), C("ent", <<"e1", "scope", "s0">>, <<>>)}
             \cup {C("tadd", <<e, "t", "int", v>>, <<>>) : e \in {"e0", "e1"}, v \in {"1", "2"}}
Cmds == CASE Config = "scopes" -> ScopeCmds [] Config = "registry" -> RegCmds [] Config = "traits" -> TraitCmds
Start == IF Config = "registry" THEN [InitState EXCEPT !.bodies = RegBodies] ELSE InitState
Needs(s, c) == /\ c.op \in {"addFn", "scopeM"} => s.reg[c.a[1]] # <<>>
               /\ c.op = "tadd" => s.ent[c.a[1]] # <<>>

Universe == SN \cup RN \cup {"zz", "a::zz", "nt", "nt::T0", "a::a", "b::b"}
Is1(x) == x = "1"
\* every scope agrees with its ancestors, existence with lookups, and lookups with listings
Tree == \A p \in DOMAIN st.sc :
    /\ Len(p) > 1 => SubSeq(p, 1, Len(p) - 1) \in DOMAIN st.sc
    /\ \A q \in Below(st, p) :
         /\ FindScope(st, p, Rel(p, q)) = q
         /\ \A t \in DOMAIN st.sc[q].types :
              HasType(st, p, Join(Rel(p, q), t)) = "1" \/ HasType(st, p, Join(Rel(p, q), t)) = "err"
         /\ \A f \in DOMAIN st.sc[q].fns : HasFn(st, p, Join(Rel(p, q), f)) = "1"
    /\ \A n \in Universe :
         /\ Is1(HasScope(st, p, n)) = (FindScope(st, p, n) # <<>>)
         /\ Is1(HasScope(st, p, n)) = (n \in {Rel(p, q) : q \in Below(st, p)})
         /\ Is1(HasFn(st, p, n)) = (n \in FnsOf(st, p, TRUE))
         /\ Is1(HasType(st, p, n)) => n \in TypesOf(st, p, TRUE)
         /\ n \in TypesOf(st, p, TRUE) => HasType(st, p, n) # "0"
\* P09
Reg == /\ \A n \in DOMAIN st.runs : st.runs[n] = 1
       /\ DOMAIN st.types = DOMAIN st.runs
       /\ \A n \in DOMAIN st.types \cup DOMAIN st.loaders :
             HasType(st, <<"G">>, n) # "0" /\ n \in TypesOf(st, <<"G">>, TRUE)
       /\ \A x \in DOMAIN st.aliases : Get(st, x).v = "" \/ Get(st, x).v = st.aliases[x]
       /\ \A n \in DOMAIN st.types : (n \notin DOMAIN st.aliases) => Get(st, n) = [st |-> st, v |-> n, log |-> <<>>]
\* P11: traits belong to one entity each
Traits_ == \A e \in DOMAIN st.traits : e # <<>> /\ st.traits[e] # Empty

\* P23: what is printed is what the listings say, every item below its owner
Printed ==
    /\ \A p \in DOMAIN st.sc :
         LET it == ScopeItems(st, p) IN
         /\ Cardinality({x \in it : \E q \in {p} \cup Below(st, p) : \E t \in DOMAIN st.sc[q].types :
                           x = "/" \o JoinStr(<<IF Len(p) = 1 THEN "" ELSE p[Len(p)]>> \o SubSeq(q, Len(p) + 1, Len(q)), "/")
                               \o "|type " \o t}) = Cardinality(TypesOf(st, p, TRUE))
         /\ \A q \in Below(st, p) : Cardinality(ScopeItems(st, q)) < Cardinality(it)
    /\ \A t \in DOMAIN st.types :
         \A u \in ChainOf(st, t) : Cardinality(TypeItems(st, u, "")) <= Cardinality(TypeItems(st, t, ""))
    /\ \A e \in DOMAIN st.traits : \A n \in DOMAIN st.traits[e] :
         \E x \in EntItems(st, e) : x = (IF e[1] = "scope" THEN "/" \o (IF Len(e) = 2 THEN "" ELSE e[Len(e)]) ELSE IF e[1] = "type" THEN "/" \o e[2] ELSE "")
                                    \o "|" \o (IF e[1] = "fld" THEN e[3] ELSE "") \o "[" \o n \o "]"

SplitLaws == \A n \in Universe :
    /\ Head_(n).ok
    /\ (IF Head_(n).b = "" THEN Head_(n).a = n ELSE Join(Head_(n).a, Head_(n).b) = n)
    /\ Tail_(n).ok /\ Join(Tail_(n).b, Tail_(n).a) = n
ASSUME SplitLaws

\* steps: refused commands change nothing; additions only add; nothing but loaders runs loaders
StepLaws(old, c, new, r) ==
    /\ (r[1] = "err" /\ c.op \in {"addType", "addFn", "scopeM", "scopeC", "radd", "ralias", "tadd"}) => new = old
    /\ c.op \notin {"get", "getT", "typ", "tfn", "tfld", "tparent", "ent"} => (new.types = old.types /\ new.runs = old.runs)
    /\ c.op \notin {"scopeM", "addType", "addFn", "radd", "raddT", "get", "getT", "typ"} => new.sc = old.sc
    /\ \A p \in DOMAIN old.sc : /\ p \in DOMAIN new.sc
                                /\ DOMAIN old.sc[p].types \subseteq DOMAIN new.sc[p].types
                                /\ DOMAIN old.sc[p].fns \subseteq DOMAIN new.sc[p].fns
    /\ (c.op = "addType" /\ r[1] = "ok") =>
          /\ HasType(new, old.reg[c.a[1]], c.a[2]) = "1"
          /\ DOMAIN new.sc \ DOMAIN old.sc =
                {SubSeq(old.reg[c.a[1]] \o Comps(c.a[2]), 1, k) : k \in 1..(Len(old.reg[c.a[1]]) + Len(Comps(c.a[2])) - 1)}
                  \ DOMAIN old.sc
    /\ \A x \in DOMAIN old.aliases : new.aliases[x] = old.aliases[x]
    /\ \A e \in DOMAIN old.traits : \A t \in DOMAIN old.traits[e] : new.traits[e][t] = old.traits[e][t]

Init == st = Start
Next == \E c \in Cmds : /\ Needs(st, c)
                        /\ \E x \in {Step(st, c)} :
                             /\ st' = x.st
                             /\ Assert(StepLaws(st, c, x.st, x.r), <<"step breaks a law", c, x.r>>)
Spec == Init /\ [][Next]_st
Bound == TLCGet("level") <= Depth
=============================================================================
