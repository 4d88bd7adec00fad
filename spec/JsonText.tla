----------------------------- MODULE JsonText -----------------------------
(* JSON as bytes: how a reader splits them into tokens, with the options,   *)
(* the decoding of escapes and UTF-8 and the place of the first error.      *)
(* A byte is a number, text is a sequence of bytes.                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

Ascii == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
Code == [c \in {SubSeq(Ascii, i, i) : i \in 1..95} |-> 31 + (CHOOSE i \in 1..95 : SubSeq(Ascii, i, i) = c)]
Bytes(s) == [i \in 1..Len(s) |-> Code[SubSeq(s, i, i)]]
HexDigits == "0123456789abcdef"
HexCh(n) == SubSeq(HexDigits, n + 1, n + 1)
Hex2 == [b \in 0..255 |-> HexCh(b \div 16) \o HexCh(b % 16)]
UnHex == [h \in {Hex2[b] : b \in 0..255} |-> CHOOSE b \in 0..255 : Hex2[b] = h]
FromHex(h) == [i \in 1..(Len(h) \div 2) |-> UnHex[SubSeq(h, 2 * i - 1, 2 * i)]]
RECURSIVE ToHex(_)
ToHex(b) == IF b = <<>> THEN "" ELSE Hex2[Head(b)] \o ToHex(Tail(b))
Ch == [b \in 0..255 |-> IF b = 92 THEN "\\\\" ELSE IF b \in 32..126 THEN SubSeq(Ascii, b - 31, b - 31) ELSE "\\x" \o Hex2[b]]
RECURSIVE Text(_)
Text(b) == IF Len(b) = 0 THEN "" ELSE IF Len(b) = 1 THEN Ch[b[1]]
           ELSE LET m == Len(b) \div 2 IN Text(SubSeq(b, 1, m)) \o Text(SubSeq(b, m + 1, Len(b)))
RECURSIVE Less(_, _)
Less(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE
              ELSE IF Head(a) # Head(b) THEN Head(a) < Head(b) ELSE Less(Tail(a), Tail(b))

(******************************* UTF-8 **************************************)
Utf8Len(c) == CASE c \in 192..223 -> 2 [] c \in 224..239 -> 3 [] c \in 240..247 -> 4 [] OTHER -> 0
HeadBits(c, n) == CASE n = 2 -> c % 32 [] n = 3 -> c % 16 [] n = 4 -> c % 8
Cont(c) == c \in 128..191
Scalar(n, code) == CASE n = 4 -> code > 65535 /\ code <= 1114111
                     [] n = 3 -> code > 2047 /\ (code < 55296 \/ code > 57343)
                     [] n = 2 -> code > 127 [] OTHER -> FALSE
Encode(code) ==
    IF code <= 127 THEN <<code>>
    ELSE IF code <= 2047 THEN <<192 + code \div 64, 128 + (code % 64)>>
    ELSE IF code <= 65535 THEN <<224 + code \div 4096, 128 + ((code \div 64) % 64), 128 + (code % 64)>>
    ELSE <<240 + code \div 262144, 128 + ((code \div 4096) % 64), 128 + ((code \div 64) % 64), 128 + (code % 64)>>
RECURSIVE Codes(_, _, _, _)
Codes(b, i, n, code) == IF n = 0 THEN code ELSE Codes(b, i + 1, n - 1, code * 64 + (b[i] % 64))
\* the sequence at i: its length, or 0 when it isn't valid
CharAt(b, i) ==
    LET n == Utf8Len(b[i]) IN
    IF n = 0 \/ i + n - 1 > Len(b) THEN [n |-> 0, code |-> 0]
    ELSE IF \E k \in 1..(n - 1) : ~Cont(b[i + k]) THEN [n |-> 0, code |-> 0]
    ELSE LET code == Codes(b, i + 1, n - 1, HeadBits(b[i], n)) IN
         IF Scalar(n, code) THEN [n |-> n, code |-> code] ELSE [n |-> 0, code |-> 0]
RECURSIVE ValidFrom(_, _)
ValidFrom(b, i) == IF i > Len(b) THEN TRUE ELSE IF b[i] < 128 THEN ValidFrom(b, i + 1)
                   ELSE LET c == CharAt(b, i) IN c.n > 0 /\ ValidFrom(b, i + c.n)
Valid(b) == ValidFrom(b, 1)

(******************************* numerals ***********************************)
Digit(c) == c \in 48..57
RECURSIVE Strip0(_)
Strip0(b) == IF Len(b) > 1 /\ Head(b) = 48 THEN Strip0(Tail(b)) ELSE b
MaxPos == Bytes("9223372036854775807")
MaxNeg == Bytes("9223372036854775808")
\* the canonical text of an integer numeral, or "range" past 64 bits
IntText(b) ==
    LET neg == b[1] = 45
        d == Strip0(IF neg THEN Tail(b) ELSE b)
        m == IF neg THEN MaxNeg ELSE MaxPos
    IN IF Len(d) > Len(m) \/ (Len(d) = Len(m) /\ Less(m, d)) THEN "range"
       ELSE IF d = <<48>> THEN "0" ELSE (IF neg THEN "-" ELSE "") \o Text(d)

\* whether a numeral is past the largest double (the decimal digits of 2^1024 - 2^970)
Limit == Bytes("179769313486231580793728971405303415079934132710037826936173778980444968292764750946649017977587207096330286416692887910946555547851940402630657488671505820681908902000708383676273854845817711531764475730270069855571366959622842914819860834936475292719074168444365510704342711559699508093042880177904174497792")
RECURSIVE Cut0(_), Cut0End(_), Small_(_, _)
Cut0(b) == IF b # <<>> /\ Head(b) = 48 THEN Cut0(Tail(b)) ELSE b
Cut0End(b) == IF b # <<>> /\ b[Len(b)] = 48 THEN Cut0End(SubSeq(b, 1, Len(b) - 1)) ELSE b
Small_(b, n) == IF b = <<>> THEN n ELSE Small_(Tail(b), n * 10 + Head(b) - 48)
Find(b, cs) == IF \E i \in DOMAIN b : b[i] \in cs THEN CHOOSE i \in DOMAIN b : b[i] \in cs /\ \A j \in 1..(i - 1) : b[j] \notin cs ELSE Len(b) + 1
Overflows(b0) ==
    LET b == IF b0[1] = 45 THEN Tail(b0) ELSE b0
        e == Find(b, {69, 101})
        x == SubSeq(b, e + 1, Len(b))
        neg == x # <<>> /\ x[1] = 45
        xd == Cut0(IF x # <<>> /\ x[1] \in {43, 45} THEN Tail(x) ELSE x)
        m == SubSeq(b, 1, e - 1)
        p == Find(m, {46})
        all == SubSeq(m, 1, p - 1) \o SubSeq(m, p + 1, Len(m))
        sig == Cut0(all)
        \* the place of the first digit that counts: 0 for units
        lead == p - 2 - (Len(all) - Len(sig))
        pos == lead + (IF neg THEN -1 ELSE 1) * Small_(xd, 0)
    IN IF sig = <<>> THEN FALSE
       ELSE IF Len(xd) > 7 THEN ~neg
       ELSE pos > 308 \/ (pos = 308 /\ ~Less(Cut0End(sig), Cut0End(Limit)))

(******************************* reader *************************************)
\* options: allow comments 1, decode unicode escapes 2, validate UTF-8 4
Has(o, bit) == (o \div bit) % 2 = 1
Start == [i |-> 1, line |-> 1, pos |-> 1, eof |-> FALSE, err |-> <<>>]
At(b, i) == IF i <= Len(b) THEN b[i] ELSE -1
Ok(s) == s.err = <<>> /\ ~s.eof
Pop(b, s) == IF s.i <= Len(b) THEN [s EXCEPT !.i = @ + 1, !.pos = @ + 1] ELSE [s EXCEPT !.eof = TRUE]
Newline(s) == [s EXCEPT !.line = @ + 1, !.pos = 1]
\* only the first error counts; past the end its place may be counted either way
Fail(s) == IF s.err # <<>> THEN s ELSE [s EXCEPT !.err = <<s.line, s.pos, s.eof>>]
Space(c) == c = 32 \/ c \in 9..13
RECURSIVE LineEnd(_, _)
LineEnd(b, i) == IF i > Len(b) \/ b[i] = 10 THEN i ELSE LineEnd(b, i + 1)
\* past white space and comments: the next character, popped, or -1
RECURSIVE NextChar(_, _, _)
NextChar(b, s, o) ==
    LET c == At(b, s.i)
        p == Pop(b, s)
    IN IF c = -1 THEN [c |-> -1, s |-> p]
       ELSE IF c = 10 THEN NextChar(b, Newline(p), o)
       ELSE IF Space(c) THEN NextChar(b, p, o)
       ELSE IF c = 47 /\ At(b, p.i) = 47
            THEN IF ~Has(o, 1) THEN [c |-> -1, s |-> Fail(p)]
                 ELSE LET e == LineEnd(b, s.i) IN
                      IF e > Len(b) THEN [c |-> -1, s |-> [p EXCEPT !.i = e, !.pos = @ + e - p.i, !.eof = TRUE]]
                      ELSE NextChar(b, Newline([p EXCEPT !.i = e + 1]), o)
       ELSE [c |-> c, s |-> p]

RECURSIVE Literal(_, _, _)
Literal(b, s, rest) ==
    IF rest = <<>> THEN s
    ELSE LET c == At(b, s.i) IN
         IF c = Head(rest) THEN Literal(b, Pop(b, s), Tail(rest)) ELSE Fail(Pop(b, s))

HexVal(c) == CASE c \in 48..57 -> c - 48 [] c \in 97..102 -> c - 87 [] c \in 65..70 -> c - 55 [] OTHER -> -1
RECURSIVE CodeUnit(_, _, _, _)
CodeUnit(b, s, n, code) ==
    IF n = 0 THEN [s |-> s, code |-> code]
    ELSE LET c == At(b, s.i) IN
         IF HexVal(c) = -1 THEN [s |-> Fail(Pop(b, s)), code |-> 0]
         ELSE CodeUnit(b, Pop(b, s), n - 1, code * 16 + HexVal(c))
\* what follows \u: the decoded character
Escape(b, s) ==
    LET u == CodeUnit(b, s, 4, 0) IN
    IF ~Ok(u.s) THEN [s |-> u.s, v |-> <<>>]
    ELSE IF u.code \notin 55296..57343 THEN [s |-> u.s, v |-> Encode(u.code)]
    ELSE IF u.code > 56319 THEN [s |-> Fail(u.s), v |-> <<>>]
    ELSE IF At(b, u.s.i) # 92 THEN [s |-> Fail(Pop(b, u.s)), v |-> <<>>]
    ELSE IF At(b, u.s.i + 1) # 117 THEN [s |-> Fail(Pop(b, Pop(b, u.s))), v |-> <<>>]
    ELSE LET low == CodeUnit(b, Pop(b, Pop(b, u.s)), 4, 0) IN
         IF ~Ok(low.s) THEN [s |-> low.s, v |-> <<>>]
         ELSE IF low.code \notin 56320..57343 THEN [s |-> Fail(low.s), v |-> <<>>]
         ELSE [s |-> low.s, v |-> Encode(65536 + (u.code - 55296) * 1024 + (low.code - 56320))]
\* left as written
RawEscape(b, s) ==
    LET u == CodeUnit(b, s, 4, 0) IN
    [s |-> u.s, v |-> IF Ok(u.s) THEN <<92, 117>> \o SubSeq(b, s.i, s.i + 3) ELSE <<>>]

\* the bytes which continue the character at s, whose head is popped
RECURSIVE Continue(_, _, _)
Continue(b, s, n) == IF n = 0 THEN s
                     ELSE IF Cont(At(b, s.i)) THEN Continue(b, Pop(b, s), n - 1) ELSE Fail(Pop(b, s))
Unicode(b, s, c) ==
    LET n == Utf8Len(c) IN
    IF n = 0 THEN Fail(s)
    ELSE LET e == Continue(b, s, n - 1) IN
         IF ~Ok(e) \/ CharAt(b, s.i - 1).n > 0 THEN e ELSE Fail(e)
Simple(c) == CASE c \in {34, 47, 92} -> c [] c = 98 -> 8 [] c = 102 -> 12 [] c = 110 -> 10 [] c = 114 -> 13
               [] c = 116 -> 9 [] OTHER -> -1
\* how far plain characters go
RECURSIVE Plain(_, _)
Plain(b, i) == IF i <= Len(b) /\ b[i] \notin {10, 34, 92} /\ b[i] < 128 THEN Plain(b, i + 1) ELSE i
RECURSIVE ReadString(_, _, _, _)
ReadString(b, s0, o, v0) ==
    LET e == Plain(b, s0.i)
        s == [s0 EXCEPT !.i = e, !.pos = @ + e - s0.i]
        v == v0 \o SubSeq(b, s0.i, e - 1)
        c == At(b, s.i)
        p == Pop(b, s)
    IN IF c \in {-1, 10} THEN [s |-> Fail(p), v |-> <<>>]
       ELSE IF c = 34 THEN [s |-> p, v |-> v]
       ELSE IF c >= 128
            THEN IF ~Has(o, 4) THEN ReadString(b, p, o, Append(v, c))
                 ELSE LET u == Unicode(b, p, c) IN
                      IF ~Ok(u) THEN [s |-> u, v |-> <<>>] ELSE ReadString(b, u, o, v \o SubSeq(b, s.i, u.i - 1))
       ELSE LET d == At(b, p.i)
                q == Pop(b, p)
            IN IF d = 117
               THEN LET u == IF Has(o, 2) THEN Escape(b, q) ELSE RawEscape(b, q) IN
                    IF ~Ok(u.s) THEN [s |-> u.s, v |-> <<>>] ELSE ReadString(b, u.s, o, v \o u.v)
               ELSE IF Simple(d) = -1 THEN [s |-> Fail(q), v |-> <<>>]
               ELSE ReadString(b, q, o, Append(v, Simple(d)))

RECURSIVE DigitsEnd(_, _)
DigitsEnd(b, i) == IF Digit(At(b, i)) THEN DigitsEnd(b, i + 1) ELSE i
\* the numeral whose first character is at i - 1
ReadNumber(b, s) ==
    LET f == s.i - 1
        d1 == DigitsEnd(b, s.i)
        dot == At(b, d1) = 46
        d2 == IF dot THEN DigitsEnd(b, d1 + 1) ELSE d1
        n == (d1 - f) - (IF b[f] = 45 THEN 1 ELSE 0) + (IF dot THEN d2 - d1 - 1 ELSE 0)
        ex == At(b, d2) \in {69, 101}
        d3 == IF ~ex THEN d2 ELSE DigitsEnd(b, d2 + (IF At(b, d2 + 1) \in {43, 45} THEN 2 ELSE 1))
        At_(e) == [s EXCEPT !.i = e, !.pos = @ + e - s.i]
    IN IF n = 0 THEN [t |-> "int", v |-> <<>>, s |-> Fail(At_(d2))]
       ELSE [t |-> IF dot \/ ex THEN "float" ELSE "int", v |-> SubSeq(b, f, d3 - 1), s |-> At_(d3)]

Tok(t, s) == [t |-> t, v |-> <<>>, s |-> s]
Eos(s) == Tok("eos", s)
Token(b, s, o) ==
    IF ~Ok(s) THEN Eos(s)
    ELSE LET n == NextChar(b, s, o)
             c == n.c
         IN IF c = -1 THEN Eos(n.s)
            ELSE CASE c = 123 -> Tok("{", n.s) [] c = 125 -> Tok("}", n.s) [] c = 91 -> Tok("[", n.s)
                   [] c = 93 -> Tok("]", n.s) [] c = 44 -> Tok(",", n.s) [] c = 58 -> Tok(":", n.s)
                   [] c = 110 -> Tok("null", Literal(b, n.s, Bytes("ull")))
                   [] c = 116 -> [Tok("bool", Literal(b, n.s, Bytes("rue"))) EXCEPT !.v = <<1>>]
                   [] c = 102 -> Tok("bool", Literal(b, n.s, Bytes("alse")))
                   [] c = 34 -> LET r == ReadString(b, n.s, o, <<>>) IN [t |-> "string", v |-> r.v, s |-> r.s]
                   [] c = 45 \/ Digit(c) -> ReadNumber(b, n.s)
                   [] OTHER -> Eos(Fail(n.s))

\* a reader: bytes, options, state, and the token it has peeked at
NoTok == Tok("none", Start)
Reader(b, o) == [b |-> b, o |-> o, s |-> Start, peek |-> <<>>]
NextTok(rd) == IF rd.peek # <<>> THEN [t |-> rd.peek[1], rd |-> [rd EXCEPT !.peek = <<>>]]
            ELSE LET t == Token(rd.b, rd.s, rd.o) IN [t |-> [t |-> t.t, v |-> t.v], rd |-> [rd EXCEPT !.s = t.s]]
PeekTok(rd) == IF rd.peek # <<>> THEN rd
            ELSE LET t == Token(rd.b, rd.s, rd.o) IN [rd EXCEPT !.s = t.s, !.peek = <<[t |-> t.t, v |-> t.v]>>]
Bad(rd) == rd.s.err # <<>>
Refuse(rd) == [rd EXCEPT !.s = Fail(rd.s)]
Expect(rd, t) == LET n == NextTok(rd) IN IF n.t.t = t THEN n ELSE [t |-> [t |-> "eos", v |-> <<>>], rd |-> Refuse(n.rd)]

(******************************* writer *************************************)
Hex4(n) == <<Code[HexCh(n \div 4096)], Code[HexCh((n \div 256) % 16)], Code[HexCh((n \div 16) % 16)], Code[HexCh(n % 16)]>>
Unit(n) == <<92, 117>> \o Hex4(n)
EscapeCode(code) == IF code > 65535 THEN Unit(55296 + (code - 65536) \div 1024) \o Unit(56320 + ((code - 65536) % 1024))
                    ELSE Unit(code)
EscapeCh(c) == CASE c \in {34, 47, 92} -> <<92, c>> [] c = 8 -> <<92, 98>> [] c = 12 -> <<92, 102>> [] c = 10 -> <<92, 110>>
                 [] c = 13 -> <<92, 114>> [] c = 9 -> <<92, 116>> [] OTHER -> <<c>>
\* options: pretty 1, compact 2, escape 4, validate 8
RECURSIVE Quote(_, _, _, _)
Quote(b, i, o, acc) ==
    IF i > Len(b) THEN acc
    ELSE IF b[i] < 128 \/ ~(Has(o, 4) \/ Has(o, 8)) THEN Quote(b, i + 1, o, acc \o EscapeCh(b[i]))
    ELSE LET c == CharAt(b, i) IN
         Quote(b, i + c.n, o, acc \o (IF Has(o, 4) THEN EscapeCode(c.code) ELSE SubSeq(b, i, i + c.n - 1)))
PrintString(b, o) ==
    IF (Has(o, 4) \/ Has(o, 8)) /\ ~Valid(b) THEN [x |-> <<>>, err |-> TRUE]
    ELSE [x |-> <<34>> \o Quote(b, 1, o, <<>>) \o <<34>>, err |-> FALSE]
=============================================================================
