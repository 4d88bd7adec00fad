------------------------------ MODULE JsonOps ------------------------------
(* What a program can do with JSON: read tokens, parse documents into a     *)
(* value, print it, and parse what it printed.                              *)
EXTENDS JsonVal

InitState == [rd |-> <<>>, t |-> "", v |-> <<>>]
\* the parts of an answer: one of these strings, a document, anything
Is(x) == [k |-> "s", v |-> {x}]
OneOf(xs) == [k |-> "s", v |-> xs]
Doc(ds) == [k |-> "d", v |-> ds]
Whatever == [k |-> "s", v |-> {}]
Answer(st, r) == [st |-> st, r |-> r]

At2(l, p) == ToString(l) \o ":" \o ToString(p)
\* where the first error was; at the end of the text counted either way
Error(rd) == IF ~Bad(rd) THEN Is("")
             ELSE LET e == rd.s.err IN IF e = Thrown THEN Is("exception") ELSE OneOf({At2(e[1], e[2])} \cup IF e[3] THEN {At2(e[1], e[2] + 1)} ELSE {})
FloatText(x) == IF Double(x) = "?" THEN Whatever ELSE Is(Double(x))
Shown(t) ==
    <<Is(t.t)>> \o
    CASE t.t = "string" -> <<Is(ToHex(t.v)), Is("-"), Is("-")>>
      [] t.t = "int" -> <<Is(ToHex(t.v)), Is(IntText(t.v)), FloatText(Text(t.v))>>
      [] t.t = "float" -> <<Is(ToHex(t.v)), Is("-"), FloatText(Text(t.v))>>
      [] t.t = "bool" -> <<Is(IF t.v = <<1>> THEN "true" ELSE "false"), Is("-"), Is("-")>>
      [] OTHER -> <<Is("-"), Is("-"), Is("-")>>
RECURSIVE AllOf(_, _)
AllOf(rd, acc) == LET n == NextTok(rd) IN
    IF Bad(n.rd) \/ n.t.t = "eos" THEN [r |-> acc, rd |-> n.rd] ELSE AllOf(n.rd, acc \o Shown(n.t))
\* the read which meets the error may give anything, those after it give the end
Read(st, was, t, rd) ==
    Answer([st EXCEPT !.rd = <<rd>>],
           (IF Bad(rd) /\ ~was THEN <<Whatever, Whatever, Whatever, Whatever>>
            ELSE IF Bad(rd) /\ t.t # "eos" THEN <<Whatever, Whatever, Whatever, Whatever>> ELSE Shown(t)) \o <<Error(rd)>>)
Helped(st, v, rd) == Answer([st EXCEPT !.rd = <<rd>>], <<IF Bad(rd) THEN Whatever ELSE v, Error(rd)>>)
Num_(v) == IF v[2] = "?" THEN Whatever ELSE Is(v[2])

RECURSIVE Keys(_, _, _)
Keys(rd, ks, end) ==      \* the entries of an object, or items of a list, skipping what they hold
    LET k == IF end = "}" THEN Expect(rd, "string") ELSE [t |-> [t |-> "", v |-> <<>>], rd |-> rd]
        c == IF end = "}" THEN Expect(k.rd, ":") ELSE k
        x == SkipAll(c.rd)
        n == NextTok(x)
        ks2 == Append(ks, ToHex(k.t.v))
    IN IF Bad(k.rd) THEN [k |-> ks, rd |-> k.rd] ELSE IF Bad(c.rd) THEN [k |-> ks, rd |-> c.rd]
       ELSE IF Bad(x) THEN [k |-> ks2, rd |-> x]
       ELSE IF n.t.t = end THEN [k |-> ks2, rd |-> n.rd]
       ELSE IF n.t.t # "," THEN [k |-> ks2, rd |-> Refuse(n.rd)] ELSE Keys(n.rd, ks2, end)
KeysOf(rd, open, end) ==
    LET n == NextTok(rd)
        p == PeekTok(n.rd)
    IN IF n.t.t = "null" THEN [k |-> <<>>, rd |-> n.rd]
       ELSE IF n.t.t # open THEN [k |-> <<>>, rd |-> Refuse(n.rd)]
       ELSE IF p.peek[1].t = end THEN [k |-> <<>>, rd |-> NextTok(p).rd] ELSE Keys(p, <<>>, end)

\* a value from its flat description
RECURSIVE Build(_, _), BuildN(_, _, _), BuildM(_, _, _), BuildF(_, _, _)
Rest(a, n) == SubSeq(a, n + 1, Len(a))
Count(x) == CHOOSE n \in 0..40 : ToString(n) = SubSeq(x, 2, Len(x))
BuildN(t, n, a) == IF n = 0 THEN [v |-> <<>>, a |-> a]
                   ELSE LET x == Build(t, a)
                            y == BuildN(t, n - 1, x.a)
                        IN [v |-> <<x.v>> \o y.v, a |-> y.a]
BuildM(t, n, a) == IF n = 0 THEN [v |-> <<>>, a |-> a]
                   ELSE LET x == Build(t, Rest(a, 1))
                            y == BuildM(t, n - 1, x.a)
                        IN [v |-> Insert(y.v, FromHex(a[1]), x.v), a |-> y.a]
BuildF(fs, i, a) == IF i > Len(fs) THEN [v |-> <<>>, a |-> a]
                    ELSE LET x == Build(fs[i].t, a)
                             y == BuildF(fs, i + 1, x.a)
                         IN [v |-> <<x.v>> \o y.v, a |-> y.a]
XY == <<Fld("x", "x", "int"), Fld("y", "y", "int")>>
Build(t, a) ==
    CASE Kind(t) = "bool" -> [v |-> <<"b", a[1] = "T">>, a |-> Rest(a, 1)]
      [] Kind(t) = "int" -> [v |-> <<"i", a[1]>>, a |-> Rest(a, 1)]
      [] Kind(t) = "float" -> [v |-> <<"f", Double(a[1])>>, a |-> Rest(a, 1)]
      [] Kind(t) = "string" -> [v |-> <<"s", FromHex(a[1])>>, a |-> Rest(a, 1)]
      [] Kind(t) = "list" -> LET x == BuildN(Def[t].of, Count(a[1]), Rest(a, 1)) IN [v |-> <<"l", x.v>>, a |-> x.a]
      [] Kind(t) = "ptr" -> LET x == BuildN(Def[t].of, Count(a[1]), Rest(a, 1)) IN [v |-> <<"p", x.v>>, a |-> x.a]
      [] Kind(t) \in {"map", "umap"} -> LET x == BuildM(Def[t].of, Count(a[1]), Rest(a, 1)) IN [v |-> <<"m", x.v>>, a |-> x.a]
      [] Kind(t) \in {"any", "refused"} -> [v |-> <<"n">>, a |-> a]
      [] OTHER -> LET x == BuildF(IF Kind(t) = "custom" THEN XY ELSE Def[t].f, 1, a) IN [v |-> <<"o", x.v>>, a |-> x.a]

\* traits
Traits(t) == <<Is(ToString(t[1])), Is(ToString(t[2])), Is(t[3]), Is(t[4]), Is(t[5])>>
Bit(a, b) == IF a = 1 \/ b = 1 THEN 1 ELSE 0
First_(a, b) == IF a = "" THEN b ELSE a
Lost(st) == st.v = <<>>
\* dynamic values: nothing, or nested ones, whose contents aren't reflected
Void(st) == st.t = "any" /\ st.v[1][1] = "n"
Nested(st) == st.t = "any" /\ st.v[1][1] \in {"l", "m"}
DumpOf(v) == IF Sure(v) THEN Is(Dump(v)) ELSE Whatever
Docs(t, v, o) == {Printing(t, v, o, FALSE).x, Printing(t, v, o, TRUE).x}
Step(st, c) ==
    LET rd == IF st.rd = <<>> THEN Reader(<<>>, 0) ELSE st.rd[1]
        was == Bad(rd)
    IN
    CASE c.op = "reader" -> Answer([st EXCEPT !.rd = <<Reader(Tail(c.n), c.n[1])>>], <<>>)
      [] c.op = "all" ->      \* every token up to the end, or to the first error
            LET r == AllOf(Reader(Tail(c.n), c.n[1]), <<>>) IN Answer(st, Append(r.r, Error(r.rd)))
      [] c.op = "next" -> LET n == NextTok(rd) IN Read(st, was, n.t, n.rd)
      [] c.op = "peek" -> LET p == PeekTok(rd) IN Read(st, was, p.peek[1], p)
      [] c.op = "expect" -> LET n == Expect(rd, c.a[1]) IN Read(st, was, n.t, n.rd)
      [] c.op = "skip" -> LET x == SkipAll(rd) IN Helped(st, Is("-"), x)
      [] c.op = "pnull" -> LET n == Expect(rd, "null") IN Helped(st, Is("-"), n.rd)
      [] c.op = "pbool" -> LET n == Expect(rd, "bool") IN Helped(st, Is(IF n.t.v = <<1>> THEN "true" ELSE "false"), n.rd)
      [] c.op = "pint" -> LET r == ParseInt(rd, <<"i", "0">>) IN Helped(st, Is(r.v[2]), r.rd)
      [] c.op = "pfloat" -> LET r == ParseFloat(rd, <<"f", "0">>) IN Helped(st, Num_(r.v), r.rd)
      [] c.op = "pstring" -> LET n == Expect(rd, "string") IN Helped(st, Is(ToHex(n.t.v)), n.rd)
      [] c.op = "keys" -> LET r == KeysOf(rd, "{", "}") IN Helped(st, Is(Join(r.k)), r.rd)
      [] c.op = "items" -> LET r == KeysOf(rd, "[", "]") IN Helped(st, Is(ToString(Len(r.k))), r.rd)
      [] c.op = "where" -> Answer(st, <<IF Ok(rd.s) THEN Is(At2(rd.s.line, rd.s.pos)) ELSE Whatever>>)
      [] c.op = "traits" -> Answer(st, Traits(<<0, 0, "", "", "">>))
      [] c.op = "mix" -> Answer(st, Traits(<<Bit(c.n[1], c.n[3]), Bit(c.n[2], c.n[4]), First_(c.a[1], c.a[4]), First_(c.a[2], c.a[5]), First_(c.a[3], c.a[6])>>))
      [] c.op = "make" -> Answer(st, Traits(CASE c.a[1] = "skip" -> <<1, 0, "", "", "">> [] c.a[1] = "skipEmpty" -> <<0, 1, "", "", "">>
                                              [] c.a[1] = "alias" -> <<0, 0, c.a[2], "", "">> [] OTHER -> <<0, 0, "", c.a[2], c.a[3]>>))
      [] c.op = "new" -> LET v == Build(c.a[1], Tail(c.a)).v IN Answer([st EXCEPT !.t = c.a[1], !.v = <<v>>], <<Is(Dump(v))>>)
      [] c.op = "parse" ->
            IF Lost(st) THEN Answer(st, <<Whatever, Whatever>>)
            ELSE IF Refused(st.t) THEN Answer(st, <<Is("exception"), Whatever>>)
            ELSE LET r == Parse(st.t, Reader(Tail(c.n), c.n[1]), st.v[1]) IN
                 IF Bad(r.rd) THEN Answer([st EXCEPT !.v = <<>>], <<Error(r.rd), Whatever>>)
                 ELSE Answer([st EXCEPT !.v = <<r.v>>], <<Is(""), DumpOf(r.v)>>)
      [] c.op = "rparse" ->      \* the next document of the reader
            IF Lost(st) \/ was THEN Answer([st EXCEPT !.v = <<>>], <<Whatever, Whatever>>)
            ELSE LET r == Parse(st.t, rd, st.v[1]) IN
                 IF Bad(r.rd) THEN Answer([st EXCEPT !.v = <<>>, !.rd = IF r.rd.s.err = Thrown THEN <<>> ELSE <<r.rd>>], <<Error(r.rd), Whatever>>)
                 ELSE Answer([st EXCEPT !.v = <<r.v>>, !.rd = <<r.rd>>], <<Is(""), DumpOf(r.v)>>)
      [] c.op = "print" ->
            IF ~Lost(st) /\ (Refused(st.t) \/ Void(st)) THEN Answer(st, <<Is("exception"), Whatever>>)
            ELSE IF Lost(st) \/ Nested(st) THEN Answer(st, <<Whatever, Whatever>>)
            ELSE IF Lost(st) \/ ~Sure(st.v[1]) THEN Answer(st, <<Whatever, Whatever>>)
            ELSE IF Printing(st.t, st.v[1], c.n[1], FALSE).err THEN Answer(st, <<Whatever, Is("err")>>)
            ELSE IF ~Few(st.t, st.v[1]) THEN Answer(st, <<Whatever, Is("")>>)
            ELSE Answer(st, <<Doc(Docs(st.t, st.v[1], c.n[1])), Is("")>>)
      [] c.op = "round" ->
            IF ~Lost(st) /\ Refused(st.t) THEN Answer(st, <<Is("exception"), Whatever, Whatever>>)
            ELSE IF Lost(st) \/ st.t = "any" THEN Answer(st, <<Whatever, Whatever, Whatever>>) ELSE
            IF Lost(st) \/ ~Sure(st.v[1]) THEN Answer(st, <<Whatever, Whatever, Whatever>>)
            ELSE IF Printing(st.t, st.v[1], c.n[1], FALSE).err \/ ~TextOk(st.v[1]) \/ ~Whole(st.t, st.v[1]) THEN Answer(st, <<Whatever, Whatever, Whatever>>)
            ELSE LET v == Norm(st.t, st.v[1], c.n[1]) IN
                 Answer(st, <<Is(""), DumpOf(v), IF Few(st.t, v) THEN Doc(Docs(st.t, v, c.n[1])) ELSE Whatever>>)
=============================================================================
