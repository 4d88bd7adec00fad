-------------------------- MODULE MC_Primitives --------------------------
(* The laws of P22 on the tables and on every short history about a pair  *)
(* of types.                                                              *)
EXTENDS Primitives
CONSTANTS Config, Depth
VARIABLES st
C(op, a, n) == [op |-> op, a |-> a, n |-> n]
Ints == {t \in Types : Kind(t) \in {"s", "u"}}
\* the tables
Laws ==
    /\ \A t \in Ints : LET s == AddB(MinOf(t), MaxOf(t)) IN
        /\ Len(MinOf(t)) = Size(t) /\ Len(MaxOf(t)) = Size(t)
        /\ s = Rep(Size(t), 255)                                    \* min = -max - 1, or max is all ones
        /\ AddB(MaxOf(t), <<1>> \o Zeros(Size(t) - 1)) = MinOf(t)
        /\ Neg(MinOf(t)) = (Kind(t) = "s")
    /\ \A p \in DOMAIN WidthNames : LET t == AliasOf[WidthNames[p]] IN
        /\ t \in Ints
        /\ Kind(t) = (IF p[3] THEN "s" ELSE "u")
        /\ IF p[1] = "int_fast" THEN 8 * Size(t) >= p[2] ELSE 8 * Size(t) = p[2]
    /\ \A a \in AliasNames : AliasOf[a] \in Ints
    /\ \A s \in BOOLEAN : \A n \in Widths : Kind(Exact(n, s)) = (IF s THEN "s" ELSE "u")
    /\ \A n \in AliasNames : n \notin Types
    /\ \A t \in Types : Cardinality(ToSet(TraitsOf(t)) \cap {"bool", "float", "integer"}) = 1
    /\ \A t \in Types : TypeInfo[SumType(t)].size >= 4 \/ Kind(t) = "f"
ASSUME Laws

Pair == CASE Config = "narrow" -> {"bool", "signed char"} [] Config = "wide" -> {"int", UL}
          [] OTHER -> {"float", "short int"}
Vals(t) == IF Kind(t) = "f" THEN {Dy(3, -1), Inf} ELSE {MinOf(t), MaxOf(t)}
Regs == {"v0", "v1"}
Cmds ==
    {C(op, <<v, w>>, <<>>) : op \in {"set", "rval", "const", "copy", "move", "assign"}, v \in Regs, w \in Regs}
    \cup {C("plus", <<v, v, w>>, <<>>) : v \in Regs, w \in Regs}
    \cup UNION {{C("mk", <<v, t>>, MaxOf(t)), C("ref", <<v, t>>, <<>>), C("cref", <<v, t>>, <<>>), C("cons", <<v, t, v>>, <<>>),
                 C("castR", <<v, t>>, <<>>)} : v \in Regs, t \in Pair}
    \cup UNION {{C("write", <<v, t>>, x) : x \in Vals(t)} \cup {C("assignT", <<v, t>>, x) : x \in Vals(t)} : v \in Regs, t \in Pair}
WellFormed(t, x) == IF Kind(t) = "f" THEN Len(x) = 3 ELSE Len(x) = Size(t) /\ \A i \in 1..Size(t) : x[i] \in 0..255
StepLaws(old, c, x) ==
    /\ x.r = <<"err">> => x.st = old
    \* only what may be written changes
    /\ \A o \in DOMAIN old.mem : x.st.mem[o] # old.mem[o] =>
          /\ c.op \in {"assign", "assignT", "write"}
          /\ old.vals[c.a[1]].b = o /\ old.vals[c.a[1]].c = "n" /\ old.vals[c.a[1]].r = "L"
    \* a copy has the value of what it was made from
    /\ c.op \in {"copy", "cons"} /\ x.r # <<"err">> =>
          LET s == old.vals[IF c.op = "copy" THEN c.a[2] ELSE c.a[3]] IN
          x.st.mem[x.st.vals[c.a[1]].b] = old.mem[s.b] /\ x.st.vals[c.a[1]].t = s.t /\ x.st.vals[c.a[1]].b # s.b
    /\ \A v \in Regs : x.st.vals[v].t # "void" => WellFormed(x.st.vals[v].t, x.st.mem[x.st.vals[v].b])
Init == st = InitState
Next == \E c \in Cmds : \E x \in {Step(st, c)} :
          /\ ~ x.ub
          /\ st' = x.st
          /\ Assert(StepLaws(st, c, x), <<"step breaks a law", c, x.r>>)
Spec == Init /\ [][Next]_st
TypesKept == \A v \in Regs : st.vals[v].t # "void" => Resolve(st.vals[v].t) = st.vals[v].t
Bound == TLCGet("level") <= Depth
=============================================================================
