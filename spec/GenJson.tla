------------------------------ MODULE GenJson ------------------------------
(* Random uses of JSON: documents shaped like the types, with white space,  *)
(* comments, unknown and repeated keys, values of the wrong type, and bytes *)
(* changed here and there; random values.                                   *)
EXTENDS JsonOps
CONSTANTS Profile, Len_, Setup
VARIABLES st, hist

R(S) == RandomElement(S)
With(S, F(_)) == CHOOSE y \in {F(x) : x \in {RandomElement(S)}} : TRUE
Chance(n) == R(1..n) = 1
C(op, a, n) == [op |-> op, a |-> a, n |-> n]
Pick(s) == s[R(DOMAIN s)]
Nums == {Numbers[i].text : i \in DOMAIN Numbers}
IntNums == {t \in Nums : \A i \in 1..Len(t) : SubSeq(t, i, i) \in {"-", "0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}}
GoodInts == {t \in IntNums : IntText(Bytes(t)) # "range"}
CanonInts == {IntText(Bytes(t)) : t \in GoodInts}
SmallInts == {"0", "1", "2", "-1", "42", "007", "-0"}
FloatNums == {t \in Nums : ~Num(t).inf}

(* text *)
Many(zz, n, G(_)) == FoldLeft(LAMBDA a, k : a \o G(k), <<>>, [k \in 1..n |-> k])
ValidSeqs == <<<<194, 128>>, <<223, 191>>, <<224, 160, 128>>, <<237, 159, 191>>, <<238, 128, 128>>, <<239, 191, 191>>,
               <<240, 144, 128, 128>>, <<244, 143, 191, 191>>, <<195, 169>>, <<226, 130, 172>>, <<240, 159, 152, 128>>, <<239, 187, 191>>>>
BadSeqs == <<<<128>>, <<191>>, <<192, 128>>, <<193, 191>>, <<224, 159, 191>>, <<237, 160, 128>>, <<237, 191, 191>>, <<240, 143, 191, 191>>,
             <<244, 144, 128, 128>>, <<245, 128, 128, 128>>, <<248, 136, 128, 128, 128>>, <<252, 132, 128, 128, 128, 128>>, <<254>>, <<255>>,
             <<194>>, <<226, 130>>, <<240, 159, 152>>, <<194, 65>>, <<226, 130, 65>>, <<240, 159, 152, 65>>, <<195, 195, 169>>>>
EscSeqs == <<"\\\"", "\\\\", "\\/", "\\b", "\\f", "\\n", "\\r", "\\t", "\\u0041", "\\u00e9", "\\u20AC", "\\u0000", "\\u007F",
             "\\u0080", "\\u07ff", "\\u0800", "\\ud7ff", "\\ue000", "\\uFFFF", "\\ud83d\\ude00", "\\uD800\\uDC00", "\\uDBFF\\udfff",
             "\\u0022", "\\u005c">>
BadEscs == <<"\\ud800", "\\udc00", "\\uDFFF\\uD800", "\\ud83dx", "\\ud83d\\n", "\\ud83d\\u0041", "\\ud83d\\ud83d", "\\uDBFF\\uE000",
             "\\x", "\\U0041", "\\u12", "\\u12g4", "\\u", "\\", "\\'", "\\0", "\\a", "\\u004", "\\ud83d\\", "\\ud83d\\u", "\\ud83d\\ude0", "\\ud83d\\udG00">>
PlainCh(zz) == With(1..10, LAMBDA k : IF k <= 6 THEN <<R(97..122)>> ELSE IF k = 7 THEN <<R(48..57)>>
                 ELSE IF k = 8 THEN <<R({32, 33, 35, 36, 39, 44, 58, 91, 93, 123, 125, 64, 96, 126})>> ELSE <<R(65..90)>>)
\* the inside of a string literal: bad bytes or escapes one time in bad
StrPart(bad) == With(1..12, LAMBDA k :
    IF k <= 5 THEN PlainCh(0)
    ELSE IF k <= 7 THEN Bytes(Pick(EscSeqs))
    ELSE IF k <= 9 THEN Pick(ValidSeqs)
    ELSE IF k = 10 THEN <<R({1, 8, 9, 11, 12, 13, 27, 31, 127, 47, 32})>>
    ELSE IF ~Chance(bad) THEN PlainCh(0)
    ELSE With(1..4, LAMBDA j : IF j = 1 THEN Pick(BadSeqs) ELSE IF j = 2 THEN <<R({10, 0, 34, 92})>> ELSE Bytes(Pick(BadEscs))))
StrBody(zz, bad) == Many(zz, R({0, 0, 1, 1, 2, 3, 5, 8}), LAMBDA n : StrPart(bad))
Lit(zz, bad) == <<34>> \o StrBody(zz, bad) \o <<34>>
\* the text of a string value
ValPart(bad) == With(1..10, LAMBDA k :
    IF k <= 4 THEN PlainCh(0) ELSE IF k <= 6 THEN Pick(ValidSeqs)
    ELSE IF k <= 8 THEN <<R({34, 47, 92, 8, 9, 10, 12, 13, 32})>>
    ELSE IF k = 9 THEN <<R((0..31) \cup {127})>> ELSE IF Chance(bad) THEN Pick(BadSeqs) ELSE PlainCh(0))
ValText(zz, bad) == Many(zz, R({0, 1, 1, 2, 3, 5, 8}), LAMBDA n : ValPart(bad))

(* white space, perhaps with comments *)
Ws(o) == With(1..14, LAMBDA k :
    IF k <= 9 THEN <<>> ELSE IF k = 10 THEN <<32>> ELSE IF k = 11 THEN <<10>> ELSE IF k = 12 THEN <<R({9, 11, 12, 13})>>
    ELSE IF k = 13 THEN <<32, 10, 9>>
    ELSE IF Has(o, 1) \/ Chance(25) THEN <<47, 47>> \o Many(0, R(0..3), LAMBDA n : PlainCh(0)) \o <<10>> ELSE <<32>>)

(* documents *)
RECURSIVE Tree(_, _, _), Trees(_, _, _, _)
KeyText(zz) == With({"a", "b", "i", "n", "kids", "x", "unknown", "key with space", ""}, LAMBDA k : <<34>> \o Bytes(k) \o <<34>>)
Tree(zz, d, o) == With(1..10, LAMBDA k :
    IF k <= 2 THEN Bytes(R({"null", "true", "false"})) ELSE IF k <= 4 THEN Bytes(R(Nums)) ELSE IF k = 5 THEN Lit(zz, 40)
    ELSE IF d = 0 THEN Bytes(R(SmallInts))
    ELSE With(1..2, LAMBDA j : IF k <= 7
         THEN <<91>> \o Ws(o) \o Trees(R(0..3), d - 1, o, FALSE) \o Ws(o) \o <<93>>
         ELSE <<123>> \o Ws(o) \o Trees(R(0..3), d - 1, o, TRUE) \o Ws(o) \o <<125>>))
\* keys of one object differ, by their number
Trees(n, d, o, keyed) ==
    IF n = 0 THEN <<>>
    ELSE (IF keyed THEN <<34, 96 + n>> \o StrBody(0, 1000) \o <<34>> \o Ws(o) \o <<58>> \o Ws(o) ELSE <<>>)
         \o Tree(0, d, o) \o Ws(o) \o (IF n = 1 THEN <<>> ELSE <<44>> \o Ws(o)) \o Trees(n - 1, d, o, keyed)

\* a key as written: plain, or with an escaped first character
KeyLit(a) == <<34>> \o (IF a # <<>> /\ Chance(12) THEN Bytes("\\u00") \o Bytes(Hex2[a[1]]) \o Quote(Tail(a), 1, 0, <<>>) ELSE Quote(a, 1, 0, <<>>)) \o <<34>>
RECURSIVE DocFor(_, _, _), ItemsFor(_, _, _, _), EntriesFor(_, _, _, _)
DocFor(t, d, o) ==
    LET k == Kind(t) IN
    IF Chance(60) THEN Tree(0, 2, o)
    ELSE IF Chance(25) THEN Bytes("null")
    ELSE CASE k = "bool" -> Bytes(R({"true", "false"}))
      [] k \in {"int", "half"} -> Bytes(R(IF Chance(30) THEN IntNums ELSE GoodInts))
      [] k = "float" -> Bytes(R(IF Chance(30) THEN Nums ELSE FloatNums))
      [] k = "string" -> Lit(0, 30)
      [] k \in {"any", "refused"} -> Tree(0, 3, o)
      [] k = "ptr" -> IF Chance(5) \/ d <= 0 THEN Bytes("null") ELSE DocFor(Def[t].of, d, o)
      [] k = "custom" -> <<91>> \o ItemsFor("int", R(0..3), d - 1, o) \o <<93>>
      [] k = "list" -> <<91>> \o Ws(o) \o ItemsFor(Def[t].of, IF d <= 0 THEN 0 ELSE R(0..3), d - 1, o) \o Ws(o) \o <<93>>
      [] k \in {"map", "umap"} -> <<123>> \o Ws(o) \o EntriesFor(t, IF d <= 0 THEN 0 ELSE IF k = "umap" THEN 2 ELSE R(0..3), d - 1, o) \o Ws(o) \o <<125>>
      [] OTHER -> <<123>> \o Ws(o) \o EntriesFor(t, IF d <= 0 THEN R(0..1) ELSE R(0..5), d - 1, o) \o Ws(o) \o <<125>>
ItemsFor(t, n, d, o) == IF n = 0 THEN <<>>
    ELSE DocFor(t, d, o) \o Ws(o) \o (IF n = 1 THEN <<>> ELSE <<44>> \o Ws(o)) \o ItemsFor(t, n - 1, d, o)
EntriesFor(t, n, d, o) == IF n = 0 THEN <<>>
    ELSE (IF Kind(t) = "umap" THEN With({<<"a", "b">>}, LAMBDA p : <<34>> \o Bytes(p[n]) \o <<34, 58>>) \o DocFor(Def[t].of, d, o)
          ELSE IF Kind(t) = "map"
          THEN (IF Chance(3) THEN Lit(0, 60) ELSE KeyText(0)) \o Ws(o) \o <<58>> \o Ws(o) \o DocFor(Def[t].of, d, o)
          ELSE IF Chance(6) THEN (IF Chance(2) THEN KeyText(0) ELSE KeyLit(Bytes(Pick(Def[t].f).n))) \o Ws(o) \o <<58>> \o Ws(o) \o Tree(0, 3, o)
          ELSE With(DOMAIN Def[t].f, LAMBDA i : KeyLit(Def[t].f[i].a) \o Ws(o) \o <<58>> \o Ws(o) \o DocFor(Def[t].f[i].t, d, o)))
         \o Ws(o) \o (IF n = 1 THEN <<>> ELSE <<44>> \o Ws(o)) \o EntriesFor(t, n - 1, d, o)

(* damage *)
Odd(zz) == With(1..3, LAMBDA k : IF k = 1 THEN R(0..255) ELSE R({34, 92, 47, 10, 44, 58, 91, 93, 123, 125, 45, 46, 48, 101, 117, 0, 255, 128, 32, 110, 116}))
Damage(b) ==
    IF b = <<>> THEN <<Odd(0)>>
    ELSE With(1..7, LAMBDA k : With(DOMAIN b, LAMBDA i :
         IF k = 1 THEN SubSeq(b, 1, i - 1) ELSE IF k = 2 THEN SubSeq(b, 1, i - 1) \o SubSeq(b, i + 1, Len(b))
         ELSE IF k <= 4 THEN [b EXCEPT ![i] = Odd(0)]
         ELSE IF k = 5 THEN SubSeq(b, 1, i) \o <<Odd(0)>> \o SubSeq(b, i + 1, Len(b))
         ELSE IF k = 6 THEN SubSeq(b, 1, i) \o SubSeq(b, R(1..i), Len(b))
         ELSE Append(b, Odd(0))))
Harm(b, n) == IF Chance(n) THEN (IF Chance(3) THEN Damage(Damage(b)) ELSE Damage(b)) ELSE b
Opt(zz) == R({0, 1, 2, 3, 4, 5, 6, 6, 6, 6, 7, 7})

(* token by token *)
Piece(o) == With(1..20, LAMBDA k :
    IF k <= 5 THEN <<R({123, 125, 91, 93, 44, 58})>> ELSE IF k <= 7 THEN Bytes(R({"null", "true", "false"}))
    ELSE IF k <= 10 THEN Bytes(R(Nums)) \o (IF Chance(3) THEN <<>> ELSE <<32>>) ELSE IF k <= 14 THEN Lit(0, 4)
    ELSE IF k <= 17 THEN Ws(o)
    ELSE IF k = 18 THEN Bytes(R({"nul", "nulL", "tru", "True", "fals", "falsy", "-", "-.", "--1", "+1", "-a", "e5", ".5", "1..2", "1e5.5", "0x10", "1-2", "NaN", "Infinity", "'a'", "/", "/*", "//", "\"abc", "\"", "1.2.3", "-e1", "1ee5", "truefalse", "nullnull"}))
    ELSE IF k = 19 THEN <<47, 47>> \o Many(0, R(0..3), LAMBDA n : PlainCh(0)) \o (IF Chance(3) THEN <<>> ELSE <<10>>)
    ELSE <<Odd(0)>>)
Soup(o) == Many(0, R(1..7), LAMBDA n : Piece(o))
GReader(zz) == With({Opt(0)}, LAMBDA o : With(1..4, LAMBDA k :
    C("reader", <<>>, <<o>> \o (IF k = 1 THEN Harm(Tree(0, 3, o), 3) ELSE Soup(o)))))
TokTypes == {"{", "}", "[", "]", ",", ":", "string", "int", "float", "bool", "null", "eos"}
\* the type of what comes next, most of the time
Coming(rd) == IF Chance(5) THEN R(TokTypes) ELSE PeekTok(rd).peek[1].t
Helper(rd) == LET t == PeekTok(rd).peek[1].t IN
    IF Chance(8) THEN R({"skip", "pnull", "pbool", "pint", "pfloat", "pstring", "keys", "items"})
    ELSE CASE t = "null" -> R({"pnull", "skip", "keys", "items"}) [] t = "bool" -> R({"pbool", "skip"})
           [] t = "int" -> R({"pint", "pint", "pfloat", "skip"}) [] t = "float" -> R({"pfloat", "pfloat", "skip"})
           [] t = "string" -> R({"pstring", "skip"}) [] t = "{" -> R({"keys", "skip"}) [] t = "[" -> R({"items", "skip"})
           [] OTHER -> "next"
Spent(rd) == ~Ok(rd.s) /\ rd.peek = <<>>
G12(zz) == IF st.rd = <<>> \/ (Spent(st.rd[1]) /\ ~Chance(4)) \/ Chance(40) THEN GReader(0)
           ELSE With(1..12, LAMBDA k : IF k <= 5 THEN C("next", <<>>, <<>>) ELSE IF k <= 7 THEN C("peek", <<>>, <<>>)
                ELSE IF k = 8 THEN C("expect", <<Coming(st.rd[1])>>, <<>>) ELSE IF k = 9 THEN C("where", <<>>, <<>>)
                ELSE C(Helper(st.rd[1]), <<>>, <<>>))

(* values, flat *)
RECURSIVE Flat(_, _, _), FlatN(_, _, _, _), FlatM(_, _, _, _), FlatF(_, _, _, _)
Flat(t, d, bad) ==
    LET k == Kind(t) IN
    CASE k = "bool" -> <<R({"T", "F"})>> [] k = "int" -> <<R(IF Chance(3) THEN {"0"} ELSE CanonInts)>>
      [] k = "float" -> <<R(IF Chance(3) THEN {"0", "-0"} ELSE FloatNums)>> [] k = "string" -> <<ToHex(ValText(0, bad))>>
      [] k = "list" -> With(IF d <= 0 THEN {0} ELSE {0, 1, 2, 3}, LAMBDA n : <<"#" \o ToString(n)>> \o FlatN(Def[t].of, n, d - 1, bad))
      [] k = "ptr" -> With(IF d <= 0 THEN {0} ELSE {0, 1, 1}, LAMBDA n : <<"#" \o ToString(n)>> \o FlatN(Def[t].of, n, d - 1, bad))
      [] k \in {"map", "umap"} -> With(IF d <= 0 THEN {0} ELSE IF k = "umap" THEN 0..2 ELSE 0..3, LAMBDA n :
                                    <<"#" \o ToString(n)>> \o FlatM(Def[t].of, n, d - 1, bad))
      [] k \in {"any", "refused"} -> <<>>
      [] k = "custom" -> <<R(CanonInts), R(CanonInts)>>
      [] OTHER -> FlatF(Def[t].f, 1, d - 1, bad)
FlatN(t, n, d, bad) == IF n = 0 THEN <<>> ELSE Flat(t, d, bad) \o FlatN(t, n - 1, d, bad)
FlatM(t, n, d, bad) == IF n = 0 THEN <<>> ELSE <<ToHex(<<96 + n>> \o ValText(0, bad))>> \o Flat(t, d, bad) \o FlatM(t, n - 1, d, bad)
FlatF(fs, i, d, bad) == IF i > Len(fs) THEN <<>> ELSE Flat(fs[i].t, d, bad) \o FlatF(fs, i + 1, d, bad)
Clean(a) == [i \in DOMAIN a |-> IF Len(a[i]) > 0 /\ SubSeq(a[i], 1, 1) = "#" THEN "n" \o SubSeq(a[i], 2, Len(a[i])) ELSE a[i]]

Tops == {"node", "opts", "own", "big", "leaf", "der", "nodes", "nodep", "nodesp", "nodem", "mat", "ml", "sps", "mo", "pp", "pl", "xys", "leafq",
         "optsp", "leaves", "mq", "pin", "pinp", "pinsp", "pinq", "pinpp"}
Small == {"bool", "int", "float", "string", "ints", "strs", "dbls", "mi", "ms", "ui", "pi", "si", "qi", "ps", "xy"}
TypeFor(zz) == IF Chance(3) THEN R(Small) ELSE R(Tops)
GNew(t, d, bad) == C("new", <<t>> \o Clean(Flat(t, d, bad)), <<>>)
G13(zz) == IF st.t = "" \/ Lost(st) \/ (st.t = "any" /\ st.v[1][1] # "n") \/ Chance(6)
           THEN With(1..6, LAMBDA k : IF k = 1 THEN C("new", <<"any">>, <<>>)
                     ELSE With({IF k = 2 THEN R({"half", "halves", "hasdup", "dup", "dups"}) ELSE TypeFor(0)}, LAMBDA t : GNew(t, R({0, 1, 1, 2, 3}), 20)))
           \* documents one after the other, from one reader
           ELSE IF st.rd # <<>> /\ ~Spent(st.rd[1]) /\ ~Refused(st.t) /\ Chance(2) THEN C(IF Chance(6) THEN R({"next", "peek"}) ELSE "rparse", <<>>, <<>>)
           ELSE IF ~Refused(st.t) /\ Chance(5)
                THEN With({Opt(0)}, LAMBDA o : C("reader", <<>>, <<o>> \o Many(0, R(1..4), LAMBDA n : Harm(DocFor(st.t, R(1..3), o), 15)
                                                                         \o With(1..3, LAMBDA k : IF k = 1 THEN <<10>> ELSE IF k = 2 THEN <<32>> ELSE Ws(o)))))
           ELSE With({Opt(0)}, LAMBDA o : C("parse", <<>>, <<o>> \o Ws(o) \o Harm(DocFor(st.t, R(1..4), o), 6)
                                              \o (IF Chance(20) THEN <<R(0..255)>> ELSE <<>>)))
WOpt(zz) == R(0..15)
G14(zz) == IF st.t = "" \/ Lost(st) \/ Chance(2)
           THEN With({IF Chance(12) THEN R({"half", "halves", "any", "hasdup", "dup"}) ELSE TypeFor(0)}, LAMBDA t : GNew(t, R({0, 1, 2, 3, 3}), 15))
           ELSE IF (st.t # "any" /\ Chance(8)) \/ (st.t = "any" /\ st.v[1][1] = "n" /\ Chance(2)) THEN C("parse", <<>>, <<6>> \o DocFor(st.t, 2, 6)) ELSE C("print", <<>>, <<WOpt(0)>>)
G15(zz) == IF st.t = "" \/ Lost(st) \/ Chance(2) THEN With({TypeFor(0)}, LAMBDA t : GNew(t, R({0, 1, 2, 3, 3}), 200))
           ELSE IF Chance(12) THEN C("parse", <<>>, <<6>> \o DocFor(st.t, 2, 6)) ELSE C("round", <<>>, <<WOpt(0)>>)
GCmd(i) == CASE Profile = "P12" -> G12(i) [] Profile = "P13" -> G13(i) [] Profile = "P14" -> G14(i) [] Profile = "P15" -> G15(i)

GInit == st = InitState /\ hist = <<>>
GNext ==
    /\ Len(hist) < Len_
    /\ \E c \in {GCmd(Len(hist) + 1)} :
       LET h == Append(hist, c)
       IN /\ hist' = h
          /\ st' = Step(st, c).st
          /\ Len(h) = Len_ => PrintT("SCRIPT " \o ToJson(h))
GSpec == GInit /\ [][GNext]_<<st, hist>>
=============================================================================
