---------------------------- MODULE Primitives ----------------------------
(* The built-in types as the library describes and uses them (property    *)
(* P22): size, limits, kind, functions, names, and values carried through *)
(* construction, copy, move, assignment, allocation and addition.         *)
(*                                                                        *)
(* An integer is the sequence of its bytes, lowest first, so that every   *)
(* value of every width is covered; a floating point number is            *)
(* <<kind, m, e>>: m * 2^e with m odd or 0, or one of the special values. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

(************************** the types (x86-64, LP64) **********************)
TI(size, kind, prec, emax) == [size |-> size, kind |-> kind, prec |-> prec, emax |-> emax]
UL == "unsigned long int"
TypeInfo ==
    [t \in {"bool", "char", "signed char", "unsigned char", "short int", "unsigned short int", "int", "unsigned int",
            "long int", UL, "long long int", "unsigned long long int", "float", "double", "long double"} |->
        CASE t = "bool" -> TI(1, "b", 0, 0)
          [] t \in {"char", "signed char"} -> TI(1, "s", 0, 0)
          [] t = "unsigned char" -> TI(1, "u", 0, 0)
          [] t = "short int" -> TI(2, "s", 0, 0)
          [] t = "unsigned short int" -> TI(2, "u", 0, 0)
          [] t = "int" -> TI(4, "s", 0, 0)
          [] t = "unsigned int" -> TI(4, "u", 0, 0)
          [] t \in {"long int", "long long int"} -> TI(8, "s", 0, 0)
          [] t \in {UL, "unsigned long long int"} -> TI(8, "u", 0, 0)
          [] t = "float" -> TI(4, "f", 24, 127)
          [] t = "double" -> TI(8, "f", 53, 1023)
          [] t = "long double" -> TI(16, "f", 64, 16383)]
Types == DOMAIN TypeInfo
Size(t) == TypeInfo[t].size
Kind(t) == TypeInfo[t].kind

\* other names for them; the fast types of 16 bits and more are the widest ones here
Exact(n, s) == CASE n = 8 -> (IF s THEN "signed char" ELSE "unsigned char")
                 [] n = 16 -> (IF s THEN "short int" ELSE "unsigned short int")
                 [] n = 32 -> (IF s THEN "int" ELSE "unsigned int")
                 [] n = 64 -> (IF s THEN "long int" ELSE UL)
Fast(n, s) == IF n = 8 THEN Exact(8, s) ELSE Exact(64, s)
WidthName(pre, n, s) == (IF s THEN "" ELSE "u") \o pre \o ToString(n) \o "_t"
Widths == {8, 16, 32, 64}
PlainNames == {"short", "unsigned short", "long", "unsigned long", "long long", "unsigned long long", "size_t", "ssize_t",
               "intmax_t", "uintmax_t", "intptr_t", "uintptr_t"}
PlainAlias(a) ==
    CASE a = "short" -> "short int" [] a = "unsigned short" -> "unsigned short int"
      [] a = "long" -> "long int" [] a = "unsigned long" -> UL
      [] a = "long long" -> "long long int" [] a = "unsigned long long" -> "unsigned long long int"
      [] a \in {"ssize_t", "intmax_t", "intptr_t"} -> "long int"
      [] OTHER -> UL
WidthNames == [p \in {"int", "int_fast", "int_least"} \X Widths \X BOOLEAN |-> WidthName(p[1], p[2], p[3])]
AliasNames == PlainNames \cup {WidthNames[p] : p \in DOMAIN WidthNames}
AliasOf == [a \in AliasNames |->
    IF a \in PlainNames THEN PlainAlias(a)
    ELSE LET p == CHOOSE p \in DOMAIN WidthNames : WidthNames[p] = a IN
         IF p[1] = "int_fast" THEN Fast(p[2], p[3]) ELSE Exact(p[2], p[3])]
Named == [n \in Types \cup AliasNames \cup {"void"} |-> IF n \in AliasNames THEN AliasOf[n] ELSE n]
\* the registered type of that name, if any
Resolve(n) == IF n \in DOMAIN Named THEN Named[n] ELSE "none"

(******************************* signatures *******************************)
Child(x, y) == x = y
NoConv(x, y) == FALSE
INSTANCE Sigs WITH IsChild <- Child, HasConv <- NoConv
\* sums of what is narrower than int are ints
SumType(t) == IF Kind(t) = "f" \/ Size(t) >= 4 THEN t ELSE "int"
OwnFns(t) ==
    IF t = "void" THEN <<>> ELSE
    <<Sig(t, CA(t), <<>>), Sig(t, CA(t), <<LC(t)>>), Sig("operator=", LN(t), <<LN(t), LC(t)>>),
      Sig(t, CA(t), <<RN(t)>>), Sig("operator=", LN(t), <<LN(t), RN(t)>>), Sig("new", CA(t \o "*"), <<>>),
      Sig("operator+", CA(SumType(t)), <<LC(t), CA(t)>>)>>
FnTable == [t \in Types \cup {"void"} |-> OwnFns(t)]
Find(t, n) == SelectSeq(FnTable[t], LAMBDA f : f.name = n)
KindTraits(t) == CASE Kind(t) = "b" -> <<"bool">> [] Kind(t) = "f" -> <<"float">>
                   [] Kind(t) = "s" -> <<"integer", "signed">> [] OTHER -> <<"integer", "unsigned">>
TraitsOf(t) == IF t = "void" THEN <<"primitive", "void">>
               ELSE <<"sizeof", "min", "max", "primitive">> \o KindTraits(t)

(********************************* values *********************************)
Zeros(n) == [i \in 1..n |-> 0] \o <<>>
Rep(n, b) == [i \in 1..n |-> b] \o <<>>
Neg(x) == x[Len(x)] >= 128
RECURSIVE AddC(_, _, _, _)
AddC(x, y, i, carry) ==
    IF i > Len(x) THEN <<>> ELSE LET s == x[i] + y[i] + carry IN <<s % 256>> \o AddC(x, y, i + 1, s \div 256)
AddB(x, y) == AddC(x, y, 1, 0)
Widen(t, x, n) == x \o Rep(n - Len(x), IF Kind(t) = "s" /\ Neg(x) THEN 255 ELSE 0)
\* floating point
Dy(m, e) == <<0, m, e>>
Inf == <<1, 0, 0>>
NInf == <<2, 0, 0>>
NaN == <<3, 0, 0>>
NZero == <<4, 0, 0>>
FMax == <<5, 0, 0>>
FLow == <<6, 0, 0>>
RECURSIVE Norm(_, _)
Norm(m, e) == IF m = 0 THEN Dy(0, 0) ELSE IF m % 2 = 0 THEN Norm(m \div 2, e + 1) ELSE Dy(m, e)
FMin(t) == Dy(1, 1 - TypeInfo[t].emax)
Denorm(t) == Dy(1, 2 - TypeInfo[t].emax - TypeInfo[t].prec)
Abs(n) == IF n < 0 THEN -n ELSE n
Far(x, y) == x[2] # 0 /\ y[2] # 0 /\ Abs(x[3] - y[3]) > 15
Zero(t) == IF Kind(t) = "f" THEN Dy(0, 0) ELSE Zeros(Size(t))
MinOf(t) == CASE Kind(t) = "f" -> FMin(t)
              [] Kind(t) = "s" -> Rep(Size(t) - 1, 0) \o <<128>>
              [] OTHER -> Zeros(Size(t))
MaxOf(t) == CASE Kind(t) = "f" -> FMax
              [] Kind(t) = "b" -> <<1>>
              [] Kind(t) = "s" -> Rep(Size(t) - 1, 255) \o <<127>>
              [] OTHER -> Rep(Size(t), 255)
Bytes(n, size) == [i \in 1..size |-> (n \div (256 ^ (i - 1))) % 256] \o <<>>       \* of a small size_t
SizeBytes(t) == <<Size(t)>> \o Zeros(7)

\* the sum of two values of type t, <<>> where C++ says nothing (or this model doesn't)
SumF(t, x, y) ==
    IF x = NaN \/ y = NaN \/ {x, y} = {Inf, NInf} THEN <<NaN>>
    ELSE IF Inf \in {x, y} THEN <<Inf>>
    ELSE IF NInf \in {x, y} THEN <<NInf>>
    ELSE IF {x, y} = {FMax, FLow} THEN <<Dy(0, 0)>>
    ELSE IF x = FMax /\ y = FMax THEN <<Inf>>
    ELSE IF x = FLow /\ y = FLow THEN <<NInf>>
    ELSE IF FMax \in {x, y} THEN <<FMax>>
    ELSE IF FLow \in {x, y} THEN <<FLow>>
    ELSE IF x = NZero THEN <<y>>
    ELSE IF y = NZero THEN <<x>>
    ELSE IF x[2] = 0 THEN <<y>>
    ELSE IF y[2] = 0 THEN <<x>>
    ELSE IF ~ Far(x, y) THEN
        LET e == IF x[3] < y[3] THEN x[3] ELSE y[3] IN
        <<Norm(x[2] * 2 ^ (x[3] - e) + y[2] * 2 ^ (y[3] - e), e)>>
    ELSE IF Abs(x[3] - y[3]) < TypeInfo[t].prec + 20 THEN <<>>
    ELSE IF x[3] > y[3] THEN <<x>> ELSE <<y>>
Sum(t, x, y) ==
    IF Kind(t) = "f" THEN SumF(t, x, y)
    ELSE IF Size(t) < 4 THEN <<AddB(Widen(t, x, 4), Widen(t, y, 4))>>
    ELSE LET z == AddB(x, y) IN
         IF Kind(t) = "s" /\ Neg(x) = Neg(y) /\ Neg(z) # Neg(x) THEN <<>> ELSE <<z>>

RECURSIVE Dots(_), Bits(_), Ones(_)
Dots(x) == IF Len(x) = 1 THEN ToString(x[1]) ELSE ToString(x[1]) \o "." \o Dots(Tail(x))
Bits(n) == IF n < 2 THEN ToString(n) ELSE Bits(n \div 2) \o ToString(n % 2)
Ones(n) == IF n = 0 THEN "" ELSE "1" \o Ones(n - 1)
MaxStr(t) == Ones(TypeInfo[t].prec) \o "e" \o ToString(TypeInfo[t].emax - TypeInfo[t].prec + 1)
ShowF(t, x) ==
    CASE x[1] = 0 -> IF x[2] = 0 THEN "0" ELSE (IF x[2] < 0 THEN "-" ELSE "") \o Bits(Abs(x[2])) \o "e" \o ToString(x[3])
      [] x[1] = 1 -> "inf" [] x[1] = 2 -> "-inf" [] x[1] = 3 -> "nan" [] x[1] = 4 -> "-0"
      [] x[1] = 5 -> MaxStr(t) [] OTHER -> "-" \o MaxStr(t)
Show(t, x) == IF Kind(t) = "f" THEN ShowF(t, x) ELSE Dots(x)

(********************************* state **********************************)
VRegs == {"v0", "v1", "v2", "v3"}
Void == [t |-> "void", r |-> "C", c |-> "n", own |-> FALSE, b |-> ""]
GName == [t \in Types |-> "g:" \o t]
InitState == [mem |-> [o \in {GName[t] : t \in Types} |-> Zero(CHOOSE t \in Types : GName[t] = o)],
              vals |-> [v \in VRegs |-> Void], n |-> 0]
At(st, v) == st.mem[v.b]
ArgOf(v) == Arg(v.t, v.r, v.c)
Describe(st, v) == IF v.t = "void" THEN "void" ELSE
    ArgStr(ArgOf(v)) \o (IF v.own THEN "|s|" ELSE "|-|") \o Show(v.t, At(st, v))
Out(st, r) == [st |-> st, r |-> r, ub |-> FALSE]
Err(st) == Out(st, <<"err">>)
Ub(st) == [Out(st, <<"ub">>) EXCEPT !.ub = TRUE]
SetReg(st, r, v) == LET s == [st EXCEPT !.vals[r] = v] IN Out(s, <<Describe(s, v)>>)
New(st, r, t, x, own) ==
    LET b == "b" \o ToString(st.n) IN
    SetReg([st EXCEPT !.n = @ + 1, !.mem = [o \in DOMAIN @ \cup {b} |-> IF o = b THEN x ELSE @[o]]], r,
           [t |-> t, r |-> "L", c |-> "n", own |-> own, b |-> b])
\* can function name of type t be called with what is described by args?
Callable(t, name, args) == Find(t, name) # <<>> /\ Choose(Find(t, name), ValArg, args) > 0
Store(st, v, x) == [st EXCEPT !.mem[v.b] = x]

Step(st, c) ==
    LET a == c.a
        op == c.op
        v1 == st.vals[a[1]]
        v2 == st.vals[a[2]]
        v3 == st.vals[a[3]]
    IN
    CASE op = "mk" -> New(st, a[1], a[2], c.n, TRUE)
      [] op = "poke" -> Out([st EXCEPT !.mem[GName[a[1]]] = c.n], <<"ok">>)
      [] op = "peek" -> Out(st, <<Show(a[1], st.mem[GName[a[1]]])>>)
      [] op \in {"ref", "cref"} -> SetReg(st, a[1], [t |-> a[2], r |-> "L", c |-> IF op = "ref" THEN "n" ELSE "c",
                                                     own |-> FALSE, b |-> GName[a[2]]])
      [] op = "set" -> SetReg(st, a[1], v2)
      [] op = "rval" -> SetReg(st, a[1], [v2 EXCEPT !.r = "R"])
      [] op = "const" -> SetReg(st, a[1], [v2 EXCEPT !.r = "R", !.c = "c"])
      [] op = "copy" -> IF v2.t = "void" THEN Err(st) ELSE New(st, a[1], v2.t, At(st, v2), TRUE)
      [] op = "move" ->            \* leaves the source void
            IF v2.t = "void" THEN Err(st)
            ELSE New([st EXCEPT !.vals[a[2]] = Void], a[1], v2.t, At(st, v2), TRUE)
      [] op = "def" -> IF Resolve(a[2]) \notin Types THEN Err(st) ELSE New(st, a[1], Resolve(a[2]), Zero(Resolve(a[2])), TRUE)
      [] op = "cons" ->
            LET t == Resolve(a[2]) IN
            IF t \notin Types \/ v3.t = "void" THEN Err(st)
            ELSE IF ~ Callable(t, t, <<ArgOf(v3)>>) THEN Err(st)
            ELSE New(st, a[1], t, At(st, v3), TRUE)
      [] op = "consT" ->           \* from a C++ object of that type
            LET t == Resolve(a[2]) IN
            IF t # a[3] THEN Err(st) ELSE New(st, a[1], t, c.n, TRUE)
      [] op = "alloc" ->
            LET t == Resolve(a[2]) IN
            IF t \notin Types THEN Err(st) ELSE New(st, a[1], t, c.n, FALSE)
      [] op = "assign" ->
            IF v1.t = "void" \/ ~ Callable(v1.t, "operator=", <<ArgOf(v1), ArgOf(v2)>>) THEN Err(st)
            ELSE Out(Store(st, v1, At(st, v2)), <<"ok">>)
      [] op = "assignT" ->
            IF v1.t = "void" \/ ~ Callable(v1.t, "operator=", <<ArgOf(v1), LC(a[2])>>) THEN Err(st)
            ELSE Out(Store(st, v1, c.n), <<"ok">>)
      [] op \in {"plus", "plusT"} ->
            LET y == IF op = "plus" THEN ArgOf(v3) ELSE LC(a[3])
                yv == IF op = "plus" THEN At(st, v3) ELSE c.n
            IN IF v2.t = "void" \/ ~ Callable(v2.t, "operator+", <<ArgOf(v2), y>>) THEN Err(st)
               ELSE LET z == Sum(v2.t, At(st, v2), yv) IN
                    IF z = <<>> THEN Ub(st) ELSE New(st, a[1], SumType(v2.t), z[1], TRUE)
      [] op \in {"get", "cast", "castR", "castC"} ->
            IF v1.t # a[2] \/ (op = "castR" /\ (v1.c = "c" \/ v1.r = "R")) THEN Err(st)
            ELSE Out(st, <<Show(v1.t, At(st, v1))>>)
      [] op = "write" ->
            IF v1.t # a[2] \/ v1.c = "c" \/ v1.r = "R" THEN Err(st)
            ELSE Out(Store(st, v1, c.n), <<"ok">>)
      [] op = "show" -> Out(st, <<Describe(st, v1)>>)
      [] op = "info" ->
            LET t == Resolve(a[1]) IN
            IF t = "none" THEN Err(st)
            ELSE Out(st, <<"id=" \o t, "parent=none", "fields=0", "pointer=n"
                         , "copiable=" \o (IF t = "void" THEN "n" ELSE "y"), "movable=" \o (IF t = "void" THEN "n" ELSE "y")>>
                         \o TraitsOf(t) \o [i \in 1..Len(FnTable[t]) |-> SigStr(FnTable[t][i])])
      [] op = "limits" ->
            LET t == Resolve(a[1]) IN
            IF t \notin Types THEN Err(st)
            ELSE Out(st, <<ToString(Size(t)), Show(t, MinOf(t)), Show(t, MaxOf(t))>>)
      [] op = "limit" ->           \* read as a value of some other type
            LET t == Resolve(a[1])
                got == IF a[2] = "sizeof" THEN UL ELSE t
            IN IF t \notin Types \/ a[3] # got \/ a[2] \notin {"sizeof", "min", "max"} THEN Err(st)
               ELSE Out(st, <<Show(a[3], CASE a[2] = "min" -> MinOf(t) [] a[2] = "max" -> MaxOf(t) [] OTHER -> SizeBytes(t))>>)
      [] op = "is" ->
            LET t == Resolve(a[1]) IN
            IF t = "none" THEN Err(st)
            ELSE Out(st, <<IF \E i \in 1..Len(TraitsOf(t)) : TraitsOf(t)[i] = a[2] THEN "1" ELSE "0">>)
      [] op = "names" ->           \* every name of the list: through the registry, the scope of the type and the compiler
            Out(st, [i \in 1..Len(a) |-> LET t == Resolve(a[i]) IN
                       IF t = "none" THEN "err" ELSE t \o "|same|" \o t])
      [] op = "ptr" -> LET t == Resolve(a[1]) IN Out(st, <<t \o "*", t>>)
      [] OTHER -> Out(st, <<"unknown">>)
Unordered(e) == e.op = "info"
=============================================================================
