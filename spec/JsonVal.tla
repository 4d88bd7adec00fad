------------------------------ MODULE JsonVal ------------------------------
(* Reflected values and JSON: what parsing a document does to a value and   *)
(* what printing it gives.  Types are those of the harness.                 *)
(*   <<"b", TRUE>> <<"i", "12">> <<"f", text>> <<"s", bytes>> <<"l", items>> *)
(*   <<"m", <<key, value>> pairs in key order>> <<"p", <<>> or <<value>>>>   *)
(*   <<"o", fields>> <<"n">>                                                 *)
EXTENDS JsonText, Json, IOUtils

\* decimal numerals: [text, f (as a double, 17 digits), p (as printed), inf]
Numbers == JsonDeserialize(IOEnv.NUMBERS)
NumIndex == [t \in {Numbers[i].text : i \in DOMAIN Numbers} |-> CHOOSE i \in DOMAIN Numbers : Numbers[i].text = t]
Num(t) == Numbers[NumIndex[t]]
Known(t) == t \in DOMAIN NumIndex
\* the double a numeral stands for, by its 17 digits; "?" when the table doesn't say
Double(t) == IF Known(t) THEN Num(t).f ELSE "?"
Printed == [f \in {Numbers[i].f : i \in DOMAIN Numbers} |->
              LET i == CHOOSE i \in DOMAIN Numbers : Numbers[i].f = f IN Bytes(Numbers[i].p)]

Fld(n, a, t) == [n |-> n, a |-> Bytes(a), t |-> t, skip |-> FALSE, se |-> FALSE]
Skip(f) == [f EXCEPT !.skip = TRUE]
SE(f) == [f EXCEPT !.se = TRUE]
L(t) == [k |-> "list", of |-> t]
M(t) == [k |-> "map", of |-> t]
P(t) == [k |-> "ptr", of |-> t]
O(fs) == [k |-> "obj", f |-> fs]
Def == [
    bool |-> [k |-> "bool"], int |-> [k |-> "int"], float |-> [k |-> "float"], string |-> [k |-> "string"],
    any |-> [k |-> "any"], xy |-> [k |-> "custom"],
    ints |-> L("int"), strs |-> L("string"), dbls |-> L("float"), mat |-> L("ints"), leaves |-> L("leaf"), sps |-> L("si"),
    mi |-> M("int"), ms |-> M("string"), ml |-> M("ints"), ui |-> [k |-> "umap", of |-> "int"], mo |-> M("leaf"), mq |-> M("qi"),
    pi |-> P("int"), si |-> P("int"), qi |-> P("int"), ps |-> P("string"), pp |-> P("si"), pl |-> P("ints"), xys |-> L("xy"), halves |-> L("half"),
    nodes |-> L("node"), nodep |-> P("node"), nodesp |-> P("node"), nodem |-> M("node"), leafq |-> P("leaf"), optsp |-> P("opts"),
    leaf |-> O(<<Fld("b", "b", "bool"), Fld("i", "i", "int"), Fld("d", "d", "float"), Fld("s", "s", "string")>>),
    der  |-> O(<<Fld("b", "b", "bool"), Fld("i", "i", "int"), Fld("d", "d", "float"), Fld("s", "s", "string"), Fld("extra", "extra", "ints")>>),
    node |-> O(<<Fld("name", "n", "string"), Fld("kids", "kids", "nodes"), Fld("raw", "a raw", "nodep"), Fld("sp", "sp", "nodesp"), Fld("m", "m", "nodem")>>),
    opts |-> O(<<Skip(Fld("hidden", "hidden", "int")), SE(Fld("b", "b", "bool")), SE(Fld("i", "zi", "int")), SE(Fld("d", "d", "float")),
                 SE(Fld("s", "S\"/", "string")), SE(Fld("v", "v", "ints")), SE(Fld("m", "m", "mi")), SE(Fld("p", "p", "pi")), SE(Fld("o", "o", "leaf")),
                 SE(Fld("pp", "pp", "pp")), SE(Fld("q", "q", "xy")), Fld("plain", "plain", "int")>>),
    own  |-> O(<<Fld("q", "q", "leafq"), Fld("u", "u", "ui"), Fld("x", "x", "xy"), Skip(Fld("bad", "q", "int"))>>),
    \* can be neither copied nor moved
    pin  |-> O(<<Fld("k", "k", "int"), Fld("s", "s", "string"), Fld("raw", "raw", "pinp"), Fld("sp", "sp", "pinsp"), Fld("uq", "uq", "pinq")>>),
    pinp |-> P("pin"), pinsp |-> P("pin"), pinq |-> P("pin"), pinpp |-> P("pinp"),
    big  |-> O(<<Fld("leaf", "leaf", "leaf"), Fld("opts", "opts", "optsp"), Fld("mat", "mat", "mat"), Fld("ml", "ml", "ml"), Fld("leaves", "leaves", "leaves")>>),
    \* refused: two fields with one alias
    dup |-> [k |-> "refused"], hasdup |-> [k |-> "refused"], dups |-> L("dup"),
    half |-> [k |-> "half", f |-> <<Fld("h", "h", "int")>>]]
Kind(t) == Def[t].k
RECURSIVE Refused(_)
Refused(t) == Kind(t) = "refused" \/ (Kind(t) \in {"list", "map", "umap", "ptr"} /\ Refused(Def[t].of))

RECURSIVE Fresh(_)
Fresh(t) == CASE Kind(t) = "bool" -> <<"b", FALSE>> [] Kind(t) = "int" -> <<"i", "0">> [] Kind(t) = "float" -> <<"f", "0">>
              [] Kind(t) = "string" -> <<"s", <<>>>> [] Kind(t) = "list" -> <<"l", <<>>>>
              [] Kind(t) \in {"map", "umap"} -> <<"m", <<>>>> [] Kind(t) = "ptr" -> <<"p", <<>>>>
              [] Kind(t) = "custom" -> <<"o", <<<<"i", "0">>, <<"i", "0">>>>>> [] Kind(t) \in {"any", "refused"} -> <<"n">>
              [] OTHER -> <<"o", [i \in DOMAIN Def[t].f |-> Fresh(Def[t].f[i].t)]>>

(******************************* parsing ************************************)
Res(v, rd) == [v |-> v, rd |-> rd]
\* entries in key order
RECURSIVE Insert(_, _, _)
Insert(m, k, v) == IF m = <<>> THEN <<<<k, v>>>>
                   ELSE IF m[1][1] = k THEN <<<<k, v>>>> \o Tail(m)
                   ELSE IF Less(k, m[1][1]) THEN <<<<k, v>>>> \o m ELSE <<m[1]>> \o Insert(Tail(m), k, v)
FieldOf(t, key) == LET s == {i \in DOMAIN Def[t].f : ~Def[t].f[i].skip /\ Def[t].f[i].a = key}
                   IN IF s = {} THEN 0 ELSE CHOOSE i \in s : TRUE

\* what a null pointer is given: containers and pointers can't be allocated
CanAlloc(t) == Kind(t) \notin {"list", "map", "umap", "ptr"}
Thrown == <<-1, 0, FALSE>>
Throws(rd) == [rd EXCEPT !.s.err = Thrown]
RECURSIVE Parse(_, _, _), Items(_, _, _), Entries(_, _, _), SkipAll(_), SkipItems(_, _)
\* a value nobody wants
SkipAll(rd) ==
    LET p == PeekTok(rd)
        n == NextTok(p)
    IN IF Bad(p) THEN p
       ELSE CASE n.t.t \in {"null", "bool", "int", "float", "string"} -> n.rd
              [] n.t.t = "[" -> (LET q == PeekTok(n.rd) IN IF q.peek[1].t = "]" THEN NextTok(q).rd ELSE SkipItems(q, "]"))
              [] n.t.t = "{" -> (LET q == PeekTok(n.rd) IN IF q.peek[1].t = "}" THEN NextTok(q).rd ELSE SkipItems(q, "}"))
              [] OTHER -> Refuse(p)
SkipItems(rd, end) ==
    LET k == IF end = "]" THEN rd
             ELSE LET e == Expect(rd, "string") IN IF Bad(e.rd) THEN e.rd ELSE Expect(e.rd, ":").rd
        x == IF Bad(k) THEN k ELSE SkipAll(k)
        n == NextTok(x)
    IN IF Bad(x) THEN x
       ELSE IF n.t.t = end THEN n.rd ELSE IF n.t.t # "," THEN Refuse(n.rd) ELSE SkipItems(n.rd, end)

\* what one item of a list, or one entry of an object, does to v
Item(t, rd, v) ==
    IF Kind(t) = "any" THEN LET r == Parse("any", rd, <<"n">>) IN Res(<<"l", Append(v[2], r.v)>>, r.rd)
    ELSE IF Kind(t) = "custom"
         THEN LET r == Parse("int", rd, <<"i", "0">>) IN Res(<<"o", <<v[2][2], r.v>>>>, r.rd)
    ELSE LET r == Parse(Def[t].of, rd, Fresh(Def[t].of)) IN Res(<<"l", Append(v[2], r.v)>>, r.rd)
Items(t, rd, v) ==
    LET x == Item(t, rd, v)
        n == NextTok(x.rd)
    IN IF Bad(x.rd) THEN x
       ELSE IF n.t.t = "]" THEN Res(x.v, n.rd) ELSE IF n.t.t # "," THEN Res(x.v, Refuse(n.rd)) ELSE Items(t, n.rd, x.v)
Entry(t, rd, key, v) ==
    IF Kind(t) = "any"      \* the first of several entries with one key stays
    THEN LET r == Parse("any", rd, <<"n">>) IN
         Res(<<"m", IF \E i \in DOMAIN v[2] : v[2][i][1] = key THEN v[2] ELSE Insert(v[2], key, r.v)>>, r.rd)
    ELSE IF Kind(t) \in {"map", "umap"}
    THEN LET r == Parse(Def[t].of, rd, Fresh(Def[t].of)) IN Res(<<"m", Insert(v[2], key, r.v)>>, r.rd)
    ELSE LET i == FieldOf(t, key) IN
         IF i = 0 THEN Res(v, SkipAll(rd))
         ELSE LET r == Parse(Def[t].f[i].t, rd, v[2][i]) IN Res(<<"o", [v[2] EXCEPT ![i] = r.v]>>, r.rd)
Entries(t, rd, v) ==
    LET k == Expect(rd, "string")
        c == Expect(k.rd, ":")
        x == Entry(t, c.rd, k.t.v, v)
        n == NextTok(x.rd)
    IN IF Bad(k.rd) THEN Res(v, k.rd) ELSE IF Bad(c.rd) THEN Res(v, c.rd) ELSE IF Bad(x.rd) THEN x
       ELSE IF n.t.t = "}" THEN Res(x.v, n.rd) ELSE IF n.t.t # "," THEN Res(x.v, Refuse(n.rd)) ELSE Entries(t, n.rd, x.v)
Group(t, rd, v, open, close) ==       \* null changes nothing
    LET n == NextTok(rd)
        p == PeekTok(n.rd)
    IN IF n.t.t = "null" THEN Res(v, n.rd)
       ELSE IF n.t.t # open THEN Res(v, Refuse(n.rd))
       ELSE IF p.peek[1].t = close THEN Res(v, NextTok(p).rd)
       ELSE IF open = "[" THEN Items(t, p, v) ELSE Entries(t, p, v)
ParseFloat(rd, v) ==
    LET n == NextTok(rd) IN
    IF n.t.t \notin {"int", "float"} THEN Res(v, Refuse(n.rd))
    ELSE IF Bad(n.rd) THEN Res(v, n.rd)
    ELSE LET x == Text(n.t.v) IN
         IF Overflows(n.t.v) THEN Res(v, Refuse(n.rd)) ELSE Res(<<"f", Double(x)>>, n.rd)
ParseInt(rd, v) ==
    LET n == Expect(rd, "int") IN
    IF Bad(n.rd) THEN Res(v, n.rd)
    ELSE IF IntText(n.t.v) = "range" THEN Res(v, Refuse(n.rd)) ELSE Res(<<"i", IntText(n.t.v)>>, n.rd)
Parse(t, rd, v) ==
    LET k == Kind(t) IN
    CASE k = "bool" -> (LET n == Expect(rd, "bool") IN Res(<<"b", n.t.v = <<1>>>>, n.rd))
      [] k = "int" -> ParseInt(rd, v)
      [] k = "float" -> ParseFloat(rd, v)
      [] k = "string" -> (LET n == Expect(rd, "string") IN Res(<<"s", n.t.v>>, n.rd))
      [] k = "ptr" -> (LET p == PeekTok(rd) IN
            IF p.peek[1].t = "null" THEN Res(<<"p", <<>>>>, NextTok(p).rd)
            ELSE IF v[2] = <<>> /\ ~CanAlloc(Def[t].of) THEN Res(v, Throws(p))
            ELSE LET r == Parse(Def[t].of, p, IF v[2] = <<>> THEN Fresh(Def[t].of) ELSE v[2][1]) IN Res(<<"p", <<r.v>>>>, r.rd))
      [] k = "list" -> Group(t, rd, v, "[", "]")
      [] k = "custom" -> Group(t, rd, v, "[", "]")     \* the last two numbers of a list
      [] k = "half" -> (LET r == ParseInt(rd, v[2][1]) IN Res(<<"o", <<r.v>>>>, r.rd))
      [] k \in {"map", "umap", "obj"} -> Group(t, rd, v, "{", "}")
      [] k = "any" ->
            LET p == PeekTok(rd)
                x == p.peek[1].t
            IN CASE x = "null" -> Res(v, NextTok(p).rd)
                 [] x = "bool" -> Parse("bool", p, v) [] x = "int" -> ParseInt(p, v) [] x = "float" -> ParseFloat(p, v)
                 [] x = "string" -> Parse("string", p, v)
                 [] x = "[" -> Group(t, p, <<"l", <<>>>>, "[", "]")
                 [] x = "{" -> Group(t, p, <<"m", <<>>>>, "{", "}")
                 [] OTHER -> Res(v, Refuse(p))

(******************************* printing ***********************************)
RECURSIVE IsEmpty(_, _)
IsEmpty(t, v) ==
    CASE Kind(t) = "int" -> v[2] = "0" [] Kind(t) = "float" -> v[2] \in {"0", "-0"}
      [] Kind(t) \in {"string", "list", "map", "umap"} -> v[2] = <<>>
      [] Kind(t) = "ptr" -> v[2] = <<>> \/ IsEmpty(Def[t].of, v[2][1])
      [] OTHER -> FALSE
KeyOrder(fs) == SortSeq(fs, LAMBDA x, y : Less(x[1], y[1]))
Out(x) == [x |-> x, err |-> FALSE]
\* text between brackets; parts are [x, err]
Wrap(open, parts_, close) ==
    LET parts == parts_ \o <<>> IN       \* evaluated once
    IF \E i \in DOMAIN parts : parts[i].err THEN [x |-> <<>>, err |-> TRUE]
    ELSE Out(open \o FoldLeft(LAMBDA a, i : a \o (IF i > 1 THEN <<44>> ELSE <<>>) \o parts[i].x, <<>>, [i \in DOMAIN parts |-> i]) \o close)
Pair(k, p, o) == LET q == PrintString(k, o) IN [x |-> q.x \o <<58>> \o p.x, err |-> q.err \/ p.err]
Reverse_(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]
\* the entries of an unordered map come in any order: either way, for those of two
RECURSIVE Printing(_, _, _, _)
Printing(t, v, o, back) ==
    LET k == Kind(t) IN
    CASE k = "bool" -> Out(IF v[2] THEN Bytes("true") ELSE Bytes("false"))
      [] k = "int" -> Out(Bytes(v[2]))
      [] k = "float" -> Out(Printed[v[2]])
      [] k = "string" -> PrintString(v[2], o)
      [] k = "any" -> Printing(CASE v[1] = "b" -> "bool" [] v[1] = "i" -> "int" [] v[1] = "f" -> "float" [] v[1] = "s" -> "string", v, o, back)
      [] k = "ptr" -> IF v[2] = <<>> THEN Out(Bytes("null")) ELSE Printing(Def[t].of, v[2][1], o, back)
      [] k = "list" -> Wrap(<<91>>, [i \in DOMAIN v[2] |-> Printing(Def[t].of, v[2][i], o, back)], <<93>>)
      [] k = "custom" -> Wrap(<<91>>, [i \in DOMAIN v[2] |-> Printing("int", v[2][i], o, back)], <<93>>)
      [] k \in {"map", "umap"} ->
            LET m == IF k = "umap" /\ back THEN Reverse_(v[2]) ELSE v[2] IN
            Wrap(<<123>>, [i \in DOMAIN m |-> Pair(m[i][1], Printing(Def[t].of, m[i][2], o, back), o)], <<125>>)
      [] OTHER ->
            LET fs == Def[t].f
                show(i) == ~fs[i].skip /\ ~((fs[i].se \/ Has(o, 2)) /\ IsEmpty(fs[i].t, v[2][i]))
                ks == KeyOrder(SelectSeq([i \in DOMAIN fs |-> <<fs[i].a, i>>], LAMBDA p : show(p[2])))
            IN Wrap(<<123>>, [j \in DOMAIN ks |-> Pair(ks[j][1], Printing(fs[ks[j][2]].t, v[2][ks[j][2]], o, back), o)], <<125>>)

\* white space between tokens
\* in a string: 1, after a backslash there: 2
Squeeze(b) ==
    FoldLeft(LAMBDA a, c : IF a.in = 0 THEN IF Space(c) THEN a ELSE [in |-> IF c = 34 THEN 1 ELSE 0, x |-> Append(a.x, c)]
                           ELSE [in |-> IF a.in = 2 THEN 1 ELSE IF c = 92 THEN 2 ELSE IF c = 34 THEN 0 ELSE 1, x |-> Append(a.x, c)],
             [in |-> 0, x |-> <<>>], b).x

(******************************* laws ***************************************)
\* what a value is after it's printed and parsed: twelve digits, and fresh where nothing was printed
DigitsOf(f) == Num(Text(Printed[f])).f
RECURSIVE Norm(_, _, _)
Norm(t, v, o) ==
    LET k == Kind(t) IN
    CASE k = "float" -> <<"f", DigitsOf(v[2])>>
      [] k = "list" -> <<"l", [i \in DOMAIN v[2] |-> Norm(Def[t].of, v[2][i], o)] \o <<>>>>
      [] k \in {"map", "umap"} -> <<"m", [i \in DOMAIN v[2] |-> <<v[2][i][1], Norm(Def[t].of, v[2][i][2], o)>>] \o <<>>>>
      \* a pointer to a null pointer prints as null
      [] k = "ptr" -> IF v[2] = <<>> THEN v
                      ELSE LET n == Norm(Def[t].of, v[2][1], o) IN
                           IF Kind(Def[t].of) = "ptr" /\ n[2] = <<>> THEN <<"p", <<>>>> ELSE <<"p", <<n>>>>
      [] k = "obj" -> LET fs == Def[t].f IN
            <<"o", [i \in DOMAIN fs |-> IF fs[i].skip \/ ((fs[i].se \/ Has(o, 2)) /\ IsEmpty(fs[i].t, v[2][i]))
                                        THEN Fresh(fs[i].t) ELSE Norm(fs[i].t, v[2][i], o)] \o <<>>>>
      [] OTHER -> v
RECURSIVE Whole(_, _)       \* every pointer in it can be allocated, unless it's printed as null
Whole(t, v) ==
    CASE Kind(t) = "list" -> \A i \in DOMAIN v[2] : Whole(Def[t].of, v[2][i])
      [] Kind(t) \in {"map", "umap"} -> \A i \in DOMAIN v[2] : Whole(Def[t].of, v[2][i][2])
      [] Kind(t) = "ptr" -> v[2] = <<>> \/ (CanAlloc(Def[t].of) /\ Whole(Def[t].of, v[2][1]))
      [] Kind(t) = "obj" -> \A i \in DOMAIN Def[t].f : Whole(Def[t].f[i].t, v[2][i])
      [] OTHER -> TRUE
RECURSIVE TextOk(_)          \* all text is valid UTF-8
TextOk(v) == CASE v[1] = "s" -> Valid(v[2]) [] v[1] = "l" -> \A i \in DOMAIN v[2] : TextOk(v[2][i])
               [] v[1] = "m" -> \A i \in DOMAIN v[2] : Valid(v[2][i][1]) /\ TextOk(v[2][i][2])
               [] v[1] = "p" -> v[2] = <<>> \/ TextOk(v[2][1])
               [] v[1] = "o" -> \A i \in DOMAIN v[2] : TextOk(v[2][i]) [] OTHER -> TRUE
RECURSIVE Sure(_)            \* all numbers are known
Sure(v) == CASE v[1] = "f" -> v[2] # "?" [] v[1] = "l" -> \A i \in DOMAIN v[2] : Sure(v[2][i])
             [] v[1] = "m" -> \A i \in DOMAIN v[2] : Sure(v[2][i][2]) [] v[1] = "p" -> v[2] = <<>> \/ Sure(v[2][1])
             [] v[1] = "o" -> \A i \in DOMAIN v[2] : Sure(v[2][i]) [] OTHER -> TRUE

\* all unordered maps have at most two entries: the order of others isn't tried
RECURSIVE Few(_, _)
Few(t, v) ==
    CASE Kind(t) = "list" -> \A i \in DOMAIN v[2] : Few(Def[t].of, v[2][i])
      [] Kind(t) \in {"map", "umap"} -> (Kind(t) = "umap" => Len(v[2]) <= 2) /\ \A i \in DOMAIN v[2] : Few(Def[t].of, v[2][i][2])
      [] Kind(t) = "ptr" -> v[2] = <<>> \/ Few(Def[t].of, v[2][1])
      [] Kind(t) = "obj" -> \A i \in DOMAIN Def[t].f : Few(Def[t].f[i].t, v[2][i])
      [] OTHER -> TRUE

(******************************* answers ************************************)
RECURSIVE Dump(_)
Join(ss) == FoldLeft(LAMBDA a, x : IF a = "" THEN x ELSE a \o "," \o x, "", ss)
Dump(v) == CASE v[1] = "b" -> (IF v[2] THEN "T" ELSE "F") [] v[1] = "i" -> v[2] [] v[1] = "f" -> "f" \o v[2]
             [] v[1] = "s" -> "'" \o Text(v[2]) \o "'"
             [] v[1] = "l" -> "[" \o Join([i \in DOMAIN v[2] |-> Dump(v[2][i])]) \o "]"
             [] v[1] = "m" -> "{" \o Join([i \in DOMAIN v[2] |-> "'" \o Text(v[2][i][1]) \o "':" \o Dump(v[2][i][2])]) \o "}"
             [] v[1] = "p" -> (IF v[2] = <<>> THEN "null" ELSE "&" \o Dump(v[2][1]))
             [] v[1] = "o" -> "(" \o Join([i \in DOMAIN v[2] |-> Dump(v[2][i])]) \o ")" [] OTHER -> "void"
=============================================================================
