---------------------------- MODULE GenRegConc ----------------------------
(* Interleavings of RegConc, with random programs, loaders and aliases.     *)
EXTENDS RegConc, Json
CONSTANTS Len_, Profile
VARIABLES picks, script

R(S) == RandomElement(S)
With(S, F(_)) == CHOOSE y \in {F(x) : x \in {RandomElement(S)}} : TRUE
Al == {"al", "am", "d"}
Real == {"a", "b", "c", "d"}
\* whatever is used for the first time by several threads at once
First(zz) == With(1..6, LAMBDA k :
    IF k <= 3 THEN <<"conv", "S0">> ELSE IF k <= 4 THEN <<"lib", ToString(R(1..8))>>
    ELSE IF k = 5 THEN <<"getT", R(Tmpl \cup {"S0", "S1", "S2"})>> ELSE <<"get", R(Real)>>)
Op(zz) == IF Profile = "first" THEN First(zz) ELSE With(1..13, LAMBDA k :
    IF k <= 3 THEN <<"get", R(Real \cup {"S0", "S1", "al", "am"})>>
    ELSE IF k <= 6 THEN <<"getT", R(Tmpl \cup {"S0", "S1", "S2"})>>
    ELSE IF k = 7 THEN <<"getT", R(Tmpl)>>
    ELSE IF k = 8 THEN <<"get", R(Names)>>
    ELSE IF k = 12 THEN R({<<"conv", "S0">>, <<"lib", ToString(R(1..8))>>, <<"lib", ToString(R(1..8))>>})
    ELSE IF k <= 10 THEN <<"add", R(Real), R(Bodies)>>
    ELSE <<"alias", R(Real \cup Static \cup Tmpl), R(Al)>>)
BodyOp(zz) == IF Profile = "first" THEN First(zz) ELSE With(1..8, LAMBDA k : IF k = 3 THEN R({<<"conv", "S0">>, <<"lib", ToString(R(1..8))>>}) ELSE IF k <= 2 THEN <<"get", R(Real)>> ELSE IF k <= 6 THEN <<"getT", R(Tmpl \cup Static)>> ELSE Op(zz))
RECURSIVE Ops(_, _, _)
Ops(zz, n, body) == IF n = 0 THEN <<>> ELSE <<IF body THEN BodyOp(zz) ELSE Op(zz)>> \o Ops(zz, n - 1, body)
RECURSIVE SetOps(_, _)
SetOps(zz, n) == IF n = 0 THEN <<>>
                 ELSE <<IF n % 4 = 0 THEN <<"alias", R(Real \cup Static \cup Tmpl), R(Al)>> ELSE <<"add", R(Real), R(Bodies)>>>>
                      \o SetOps(zz, n - 1)
RECURSIVE Apply(_, _)
Apply(r, cs) == IF cs = <<>> THEN r ELSE Apply(Exec(r, Head(cs)).reg, Tail(cs))
C(op, a, n) == [op |-> op, a |-> a, n |-> n]
Line(x) == C(Head(x), Tail(x), <<>>)

GInit == /\ reg = NoReg /\ own = 0 /\ dep = 0 /\ picks = <<>> /\ script = <<>>
         /\ th = [t \in Threads |-> Idle]
Choose_ ==
    /\ script = <<>>
    /\ \E b \in {[x \in Bodies |-> Ops(x, R(0..3), TRUE)]}, s \in {SetOps(1, R(2..7))} :
       \E p \in {[t \in Threads |-> IF t = 4 /\ R(1..3) = 1 THEN <<>> ELSE Ops(t, R(1..Len_), FALSE)]},
          q \in {<<R(1..1000000), R({100, 300, 600}), R({0, 0, 20, 100, 300})>>} :
          /\ reg' = Apply([NoReg EXCEPT !.body = b], s)
          /\ th' = [t \in Threads |-> [Idle EXCEPT !.todo = p[t]]]
          /\ script' = [x \in 1..Len(s) |-> Line(s[x])]
                \o FlattenSeq([y \in 1..4 |-> LET n == <<"B0", "B1", "B2", "B3">>[y] IN
                                  [x \in 1..Len(b[n]) |-> C("body", <<n>> \o b[n][x], <<>>)]])
                \o FlattenSeq([t \in 1..Cardinality(Threads) |-> [x \in 1..Len(p[t]) |->
                                  C("op", <<ToString(t)>> \o p[t][x], <<>>)]])
                \o <<C("plan", <<>>, q)>>
    /\ UNCHANGED <<own, dep, picks>>
GNext == \/ Choose_
         \/ /\ script # <<>>
            /\ \E t \in Threads :
               /\ Act(t) /\ picks' = Append(picks, t) /\ UNCHANGED script
               /\ (\A u \in Threads \ {t} : Ended(u)) /\ th'[t].todo = <<>> /\ th'[t].cont = <<>>
                    => PrintT("SCRIPT " \o ToJson(Append(script, C("picks", <<>>, picks'))))
GSpec == GInit /\ [][GNext]_<<reg, own, dep, th, picks, script>>
=============================================================================
