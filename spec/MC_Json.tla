------------------------------ MODULE MC_Json ------------------------------
(* The laws of P12 to P15 over every short text (Config "text": texts of at *)
(* most Depth pieces; "strings": the insides of a string literal) and over *)
(* every small value of every type (Config "values").                       *)
EXTENDS JsonOps
CONSTANTS Config, Depth
VARIABLES x

(* texts *)
Pieces == IF Config = "text"
          THEN {<<123>>, <<125>>, <<91>>, <<93>>, <<44>>, <<58>>, <<34>>, <<92>>, <<10>>, <<32>>, <<47>>, <<45>>, <<49>>, <<46>>, <<101>>,
                Bytes("null"), Bytes("true"), Bytes("nul"), Bytes("\"a\""), <<47, 47>>, <<255>>, <<195, 169>>, <<0>>}
          ELSE {<<34>>, <<92>>, <<117>>, <<97>>, <<10>>, Bytes("\\u0041"), Bytes("\\ud83d"), Bytes("\\ude00"), Bytes("\\u00e9"), Bytes("\\ud8"),
                <<194>>, <<128>>, <<191>>, <<224>>, <<237, 160>>, <<239, 191>>, <<240>>, <<244, 143>>, <<245>>, <<0>>, Bytes("\\n"), <<92, 34>>}
Start_ == IF Config = "text" THEN <<>> ELSE <<34>>
Opts == 0..7
RECURSIVE All(_, _)
\* every token, and the reader at the end
All(rd, acc) == LET n == NextTok(rd) IN
    IF n.t.t = "eos" THEN [ts |-> acc, rd |-> n.rd] ELSE IF Bad(n.rd) THEN [ts |-> acc, rd |-> n.rd] ELSE All(n.rd, Append(acc, n.t))
Read_(b, o) == All(Reader(b, o), <<>>)
Lines(b, i) == Cardinality({j \in 1..i : b[j] = 10})
\* the line and position of what's before i
Place(b, i) == LET nl == {j \in 1..(i - 1) : b[j] = 10} IN
    <<1 + Cardinality(nl), IF nl = {} THEN i ELSE i - CHOOSE j \in nl : \A k \in nl : k <= j>>
TextLaws ==
    LET b == x.b IN
    \A o \in Opts :
      LET r == Read_(b, o)
          s == r.rd.s
      IN /\ s.err # <<>> \/ s.eof                                       \* it ends, one way or the other
         \* the place of an error is that of the character which it's at
         /\ s.err # <<>> => <<s.err[1], s.err[2]>> = Place(b, s.i) \/ b[s.i - 1] = 10
         /\ NextTok(r.rd).t.t = "eos" \/ Bad(r.rd)
         /\ Token(b, s, o).t = "eos" /\ Token(b, s, o).s = s            \* and stays there
         \* peeking changes nothing
         /\ LET p == PeekTok(Reader(b, o)) IN p.peek[1] = NextTok(Reader(b, o)).t /\ NextTok(p).rd = NextTok(Reader(b, o)).rd /\ PeekTok(p) = p
         \* what's refused before the end is refused whatever comes next
         /\ (s.err # <<>> /\ ~s.eof /\ s.i <= Len(b)) => \A c \in {<<32>>, <<34>>, <<49>>} : Read_(b \o c, o).rd.s.err = s.err /\ Read_(b \o c, o).ts = r.ts
         \* white space at the end changes nothing
         /\ s.err = <<>> => (LET w == Read_(Append(b, 10), o) IN w.ts = r.ts /\ w.rd.s.err = <<>>)
         \* comments can only be allowed, bytes only refused
         /\ (~Has(o, 1) /\ s.err = <<>>) => Read_(b, o + 1).ts = r.ts /\ ~Bad(Read_(b, o + 1).rd)
         /\ (Has(o, 4) /\ s.err = <<>>) => Read_(b, o - 4).ts = r.ts
         \* strings: validated ones are valid, once decoded
         /\ (Has(o, 4) /\ s.err = <<>>) => \A i \in DOMAIN r.ts : r.ts[i].t = "string" => Valid(r.ts[i].v)
         \* what's skipped is what's read
         /\ LET k == SkipAll(Reader(b, o)) IN ~Bad(k) /\ ~s.eof => s.err # <<>> \/ k.s.i <= s.i
         \* numerals have digits, integers nothing else
         /\ s.err = <<>> => \A i \in DOMAIN r.ts : /\ r.ts[i].t \in {"int", "float"} => \E j \in DOMAIN r.ts[i].v : Digit(r.ts[i].v[j])
                                                   /\ r.ts[i].t = "int" => \A j \in DOMAIN r.ts[i].v : Digit(r.ts[i].v[j]) \/ (j = 1 /\ r.ts[i].v[j] = 45)

(* values *)
Prod(A, B) == {<<a, b>> : a \in A, b \in B}
RECURSIVE Vals(_, _)
Strings_ == {<<>>, <<97>>, <<34, 92, 10>>, <<195, 169, 1>>, <<240, 159, 152, 128>>}
Vals(t, d) ==
    LET k == Kind(t) IN
    CASE k = "bool" -> {<<"b", TRUE>>, <<"b", FALSE>>} [] k = "int" -> {<<"i", "0">>, <<"i", "-1">>, <<"i", "9223372036854775807">>}
      [] k = "float" -> {<<"f", "0">>, <<"f", "1.5">>, <<"f", "0.10000000000000001">>}
      [] k = "string" -> {<<"s", z>> : z \in Strings_}
      [] k = "list" -> {<<"l", <<>>>>} \cup (IF d = 0 THEN {} ELSE {<<"l", <<v>>>> : v \in Vals(Def[t].of, d - 1)}
                          \cup (IF d = Depth THEN {<<"l", z>> : z \in Prod(Vals(Def[t].of, 0), Vals(Def[t].of, 0))} ELSE {}))
      [] k \in {"map", "umap"} -> {<<"m", <<>>>>} \cup (IF d = 0 THEN {} ELSE {<<"m", <<<<z, v>>>>>> : z \in {<<>>, <<98>>}, v \in Vals(Def[t].of, d - 1)}
                          \cup {<<"m", <<<<<<97>>, p[1]>>, <<<<98, 34>>, p[2]>>>>>> : p \in Prod(Vals(Def[t].of, 0), Vals(Def[t].of, 0))})
      [] k = "ptr" -> {<<"p", <<>>>>} \cup (IF d = 0 THEN {} ELSE {<<"p", <<v>>>> : v \in Vals(Def[t].of, d - 1)})
      [] k = "custom" -> {<<"o", <<<<"i", "0">>, <<"i", "42">>>>>>}
      [] k = "obj" -> \* every field has each of its values in turn
            {Fresh(t)} \cup (IF d = 0 THEN {} ELSE UNION {{<<"o", [Fresh(t)[2] EXCEPT ![i] = v]>> : v \in Vals(Def[t].f[i].t, d - 1)} : i \in DOMAIN Def[t].f})
      [] OTHER -> {Fresh(t)}
Types == (DOMAIN Def) \ {"any", "dup", "hasdup", "dups", "half", "halves"}
ValueLaws ==
    LET t == x.t
        v == x.v
        o == x.o
        p == Printing(t, v, o, FALSE)
        n == Norm(t, v, o)
        r == Parse(t, Reader(p.x, 6), Fresh(t))
        first == IF p.x = <<>> THEN 0 ELSE p.x[1]
    IN /\ TextOk(v) => ~p.err
       /\ Norm(t, n, o) = n
       /\ (~p.err /\ Whole(t, v)) => /\ ~Bad(r.rd) /\ r.v = n                           \* P15
                                     /\ Printing(t, n, o, FALSE) = p
       /\ ~p.err => LET a == Read_(p.x, 6) IN ~Bad(a.rd)
       /\ ~p.err => LET k == SkipAll(Reader(p.x, 6)) IN ~Bad(k) /\ NextTok(k).t.t = "eos"
       \* every part of a document but the whole is refused
       /\ (~p.err /\ first \in {34, 91, 123}) =>
             \A i \in 1..(Len(p.x) - 1) : Bad(Parse(t, Reader(SubSeq(p.x, 1, i), 6), Fresh(t)).rd)
       \* without escapes the text is as it is; with them it's ASCII
       /\ (~p.err /\ Has(o, 4)) => \A i \in DOMAIN p.x : p.x[i] < 128
       \* parsed over itself: lists grow, the rest stays
       /\ (~p.err /\ Whole(t, v) /\ Kind(t) = "list") => LET w == Parse(t, Reader(p.x, 6), v) IN w.v[2] = v[2] \o n[2]
       /\ (~p.err /\ Whole(t, v) /\ Kind(t) \in {"map", "umap"}) => Parse(t, Reader(p.x, 6), n).v = n

Init == IF Config = "values" THEN x \in UNION {{[t |-> t, v |-> v, o |-> o] : v \in Vals(t, Depth), o \in 0..15} : t \in Types}
        ELSE x = [b |-> Start_, n |-> 0]
Next == /\ Config # "values" /\ x.n < Depth
        /\ \E p \in Pieces : x' = [b |-> x.b \o p, n |-> x.n + 1]
Spec == Init /\ [][Next]_x
Laws == IF Config = "values" THEN ValueLaws ELSE TextLaws
Bound == TRUE
=============================================================================
