-------------------------- MODULE GenPrimitives --------------------------
EXTENDS Primitives, Json
CONSTANTS Profile, Len_, Setup
VARIABLES st, hist
R(S) == RandomElement(S)
With(S, F(_)) == CHOOSE y \in {F(x) : x \in {RandomElement(S)}} : TRUE
C(op, a, n) == [op |-> op, a |-> a, n |-> n]
TypeSeq == SetToSeq(Types)
AliasSeq == SetToSeq(AliasNames)
Bogus(z) == {"nothing", "integer", "uint128_t", "int*x", "", "unsigned long double", "Int", "long int "}
\* a history keeps to a few types so that they meet
HomeOf(k) == TypeSeq[1 + (k % Len(TypeSeq))]
Home(z) == LET k == IF hist = <<>> THEN 0 ELSE Len(hist[1].a[1]) + hist[1].n[1] IN
           IF R(1..6) = 1 THEN R(Types) ELSE HomeOf(k + R(0..1))
NamesFor(t) == {n \in AliasNames : AliasOf[n] = t} \cup {t}
NameFor(t) == IF R(1..15) = 1 THEN R(Bogus(0) \cup {"void"}) ELSE R(NamesFor(t))
IntOf(t, k) ==
    CASE Kind(t) = "b" -> <<R(0..1)>>
      [] k = 1 -> MinOf(t) [] k = 2 -> MaxOf(t) [] k = 3 -> Zeros(Size(t)) [] k = 4 -> Rep(Size(t), 255)
      [] k = 5 -> <<R(0..255)>> \o Zeros(Size(t) - 1)
      [] k = 6 -> <<R(0..255)>> \o Rep(Size(t) - 1, 255)
      [] OTHER -> [i \in 1..Size(t) |-> R(0..255)] \o <<>>
FltOf(t, k) ==
    CASE k = 1 -> R({Inf, NInf, NaN, NZero}) [] k = 2 -> R({FMax, FLow})
      [] k = 3 -> R({FMin(t), Denorm(t)})
      [] OTHER -> Norm(R(-4000..4000), R(-6..6))
Num(t) == IF Kind(t) = "f" THEN FltOf(t, R(1..8)) ELSE IntOf(t, R(1..9))
VRegsOf(z) == {v \in VRegs : st.vals[v].t # "void"}
Src(z) == IF VRegsOf(0) = {} \/ R(1..12) = 1 THEN R(VRegs) ELSE R(VRegsOf(0))
TypeOf(v) == IF st.vals[v].t = "void" \/ R(1..5) = 1 THEN Home(0) ELSE st.vals[v].t
Mate(v) == LET s == {w \in VRegs : st.vals[w].t = st.vals[v].t} IN IF R(1..4) = 1 THEN R(VRegs) ELSE R(s)
Traits_(z) == {"primitive", "bool", "float", "integer", "signed", "unsigned", "sizeof", "min", "max", "void", "size", "pointer"}
Make_(z) == With(1..6, LAMBDA k : With({Home(0)}, LAMBDA t :
    CASE k \in {1, 2} -> C("mk", <<R(VRegs), t>>, Num(t))
      [] k = 3 -> C(R({"ref", "cref"}), <<R(VRegs), t>>, <<>>)
      [] k = 4 -> C("def", <<R(VRegs), NameFor(t)>>, <<>>)
      [] k = 5 -> C("alloc", <<R(VRegs), NameFor(t)>>, Num(t))
      [] OTHER -> With({NameFor(t)}, LAMBDA n : C("consT", <<R(VRegs), n, t>>, Num(t)))))
Use_(z) == With(1..22, LAMBDA k : With({Src(0)}, LAMBDA v : With({TypeOf(v)}, LAMBDA t :
    CASE k \in {1, 2} -> C("assign", <<v, Mate(v)>>, <<>>)
      [] k \in {3, 4} -> C("assignT", <<v, t>>, Num(t))
      [] k \in {5, 6} -> C("plus", <<R(VRegs), v, Mate(v)>>, <<>>)
      [] k \in {7, 8} -> C("plusT", <<R(VRegs), v, t>>, Num(t))
      [] k = 9 -> C("copy", <<R(VRegs), v>>, <<>>)
      [] k = 10 -> C("move", <<R(VRegs), v>>, <<>>)
      [] k = 11 -> C("set", <<R(VRegs), v>>, <<>>)
      [] k = 12 -> C(R({"rval", "const"}), <<R(VRegs), v>>, <<>>)
      [] k \in {13, 14} -> C("cons", <<R(VRegs), NameFor(t), v>>, <<>>)
      [] k \in {15, 16} -> C(R({"get", "cast", "castR", "castC"}), <<v, t>>, <<>>)
      [] k = 17 -> C("write", <<v, t>>, Num(t))
      [] k = 18 -> C("poke", <<t>>, Num(t))
      [] k = 19 -> C("peek", <<t>>, <<>>)
      [] OTHER -> C("show", <<v>>, <<>>))))
Look_(z) == With(1..7, LAMBDA k : With({Home(0)}, LAMBDA t :
    CASE k = 1 -> C("info", <<NameFor(t)>>, <<>>)
      [] k = 2 -> C("limits", <<NameFor(t)>>, <<>>)
      [] k = 3 -> With({R(NamesFor(t))}, LAMBDA n : With({R({"sizeof", "min", "max", "size"})}, LAMBDA w :
                  C("limit", <<n, w, IF w = "sizeof" /\ R(1..2) = 1 THEN UL ELSE TypeOf("v0")>>, <<>>)))
      [] k = 4 -> C("is", <<NameFor(t), R(Traits_(0))>>, <<>>)
      [] k = 5 -> C("names", <<R(AliasNames), NameFor(t), R(AliasNames \cup Types)>>, <<>>)
      [] k = 6 -> C("ptr", <<R(NamesFor(t))>>, <<>>)
      [] OTHER -> C("limit", <<t, R({"min", "max"}), t>>, <<>>)))
\* the first command chooses the types of the history
First(z) == With(1..Len(AliasSeq), LAMBDA k : C("mk", <<R(VRegs), "int">>, <<k, 0, 0, 0>>))
Cmd(i) == IF i = 1 THEN First(0) ELSE
    With(1..20, LAMBDA k : IF VRegsOf(0) = {} THEN Make_(0) ELSE IF k <= 4 THEN Make_(0) ELSE IF k <= 17 THEN Use_(0) ELSE Look_(0))
\* some scripts ask about every type and name
Survey == [i \in 1..(2 * Len(TypeSeq) + 3 * Len(AliasSeq) + 4) |->
    IF i <= Len(TypeSeq) THEN C("info", <<TypeSeq[i]>>, <<>>)
    ELSE IF i <= 2 * Len(TypeSeq) THEN C("limits", <<TypeSeq[i - Len(TypeSeq)]>>, <<>>)
    ELSE IF i <= 2 * Len(TypeSeq) + Len(AliasSeq) THEN C("limits", <<AliasSeq[i - 2 * Len(TypeSeq)]>>, <<>>)
    ELSE IF i <= 2 * Len(TypeSeq) + 2 * Len(AliasSeq) THEN C("names", <<AliasSeq[i - 2 * Len(TypeSeq) - Len(AliasSeq)]>>, <<>>)
    ELSE IF i <= 2 * Len(TypeSeq) + 3 * Len(AliasSeq) THEN C("ptr", <<AliasSeq[i - 2 * Len(TypeSeq) - 2 * Len(AliasSeq)]>>, <<>>)
    ELSE LET j == i - 2 * Len(TypeSeq) - 3 * Len(AliasSeq) IN
         CASE j = 1 -> C("names", TypeSeq, <<>>) [] j = 2 -> C("names", <<"void", "nothing">>, <<>>)
           [] j = 3 -> C("info", <<"void">>, <<>>) [] OTHER -> C("is", <<"void", "void">>, <<>>)]
GInit == st = InitState /\ hist = <<>>
GNext ==
    /\ Len(hist) < Len_
    /\ \E c \in {Cmd(Len(hist) + 1)} : \E x \in {Step(st, c)} :
       LET cc == IF x.ub THEN C("show", <<"v0">>, <<>>) ELSE c
           h == Append(hist, cc)
       IN /\ hist' = h
          /\ st' = IF x.ub THEN st ELSE x.st
          /\ Len(h) = Len_ => PrintT("SCRIPT " \o ToJson(IF hist[1].n[1] = 1 THEN Survey ELSE h))
GSpec == GInit /\ [][GNext]_<<st, hist>>
=============================================================================
