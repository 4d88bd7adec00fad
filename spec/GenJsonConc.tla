---------------------------- MODULE GenJsonConc ----------------------------
(* Interleavings of JsonConc, with random programs: "A" stands for A's       *)
(* parser and "A." for its printer.                                          *)
EXTENDS JsonConc, Json
CONSTANTS Len_
VARIABLES picks, script

Shape == [A |-> <<"i", "B", "A">>, B |-> <<"s", "A", "M">>, C |-> <<"f", "N", "C", "b">>, D |-> <<>>,
          E |-> <<"G", "H", "D">>, F |-> <<"E", "W", "s">>, G |-> <<"D">>, H |-> <<"A">>, M |-> <<"C">>, N |-> <<"s">>,
          V |-> <<"i">>, W |-> <<"V">>, b |-> <<>>, f |-> <<>>, i |-> <<>>, s |-> <<>>]
Both == [t \in DOMAIN Shape \cup {x \o "." : x \in DOMAIN Shape} |->
           IF t \in DOMAIN Shape THEN Shape[t]
           ELSE LET x == SubSeq(t, 1, 1) IN [n \in DOMAIN Shape[x] |-> Shape[x][n] \o "."]]
Kinds == {"A", "B", "C", "D", "E", "F", "V", "M"}
R(S) == RandomElement(S)
With(S, F(_)) == CHOOSE y \in {F(x) : x \in {RandomElement(S)}} : TRUE
Op(zz) == With(1..8, LAMBDA k : <<IF k <= 3 THEN "parse" ELSE IF k <= 5 THEN "print" ELSE IF k <= 7 THEN "both" ELSE "fail",
                                  R(Kinds)>>)
RECURSIVE Ops(_, _)
Ops(zz, n) == IF n = 0 THEN <<>> ELSE <<Op(zz)>> \o Ops(zz, n - 1)
\* several threads with the same type at once
Same(zz) == With(Kinds, LAMBDA k : [t \in Threads |-> <<<<R({"parse", "print", "both"}), k>>>>])
Uses(op) == CASE op[1] \in {"parse", "fail"} -> <<op[2]>> [] op[1] = "print" -> <<op[2] \o ".">>
              [] op[1] = "both" -> <<op[2], op[2] \o ".">>
C(op, a, n) == [op |-> op, a |-> a, n |-> n]

GInit == /\ cache = [t \in Types |-> "none"] /\ own = 0 /\ th = [t \in Threads |-> Idle] /\ picks = <<>> /\ script = <<>>
Choose_ ==
    /\ script = <<>> /\ UNCHANGED <<cache, own, picks>>
    /\ \E p \in {IF R(1..3) = 1 THEN Same(1) ELSE [t \in Threads |-> Ops(t, R(1..Len_))]},
          q \in {<<R(1..1000000), R({100, 300, 600}), R({0, 0, 20, 100, 300})>>} :
          /\ th' = [t \in Threads |-> [Idle EXCEPT !.todo = FlattenSeq([n \in DOMAIN p[t] |-> Uses(p[t][n])])]]
          /\ script' = FlattenSeq([t \in 1..Cardinality(Threads) |-> [x \in 1..Len(p[t]) |->
                                      C("op", <<ToString(t)>> \o p[t][x], <<>>)]]) \o <<C("plan", <<>>, q)>>
GNext == \/ Choose_
         \/ /\ script # <<>>
            /\ \E t \in Threads :
               /\ Begins(t) \/ (th[t].cont # <<>> /\ Do(t))
               /\ picks' = Append(picks, t) /\ UNCHANGED script
               /\ (\A u \in Threads \ {t} : Ended(u)) /\ th'[t].todo = <<>> /\ th'[t].cont = <<>>
                    => PrintT("SCRIPT " \o ToJson(Append(script, C("picks", <<>>, picks'))))
GSpec == GInit /\ [][GNext]_<<cache, own, th, picks, script>>
=============================================================================
