------------------------------- MODULE Sigs -------------------------------
(* Signatures, matching and the choice of an overload over the relations  *)
(* IsChild and HasConv (a converter is declared); shared by the            *)
(* specifications of the containers, of the declaration macros and of the *)
(* operators.                                                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
CONSTANT IsChild(_, _), HasConv(_, _)
VT == "reflect::Value"
Arg(t, r, c) == [t |-> t, r |-> r, c |-> c]
CA(t) == Arg(t, "C", "n")     \* T
LN(t) == Arg(t, "L", "n")     \* T&
LC(t) == Arg(t, "L", "c")     \* const T&
RN(t) == Arg(t, "R", "n")     \* T&&
ValArg == CA(VT)
Sig(name, ret, args) == [name |-> name, ret |-> ret, args |-> args]
ArgStr(a) == a.t \o "." \o a.r \o "." \o a.c
RECURSIVE JoinStr(_, _)
JoinStr(ss, sep) == IF ss = <<>> THEN "" ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o sep \o JoinStr(Tail(ss), sep)
SigStr(f) == f.name \o ":" \o ArgStr(f.ret) \o "(" \o JoinStr([i \in 1..Len(f.args) |-> ArgStr(f.args[i])], ",") \o ")"

Combine(a, b) == IF a = "N" \/ b = "N" THEN "N" ELSE IF a = "P" \/ b = "P" THEN "P" ELSE "E"
Match(a, b) ==   \* can a value described by a be passed for b?
    IF a = b THEN "E"
    ELSE IF (a.t = VT) # (b.t = VT) THEN "E"
    ELSE IF HasConv(a.t, b.t) THEN (IF b.r = "L" THEN "N" ELSE "P")
    ELSE IF b.r # "C" /\ a.c = "c" /\ b.c = "n" THEN "N"
    ELSE IF b.r = "L" /\ b.c = "n" /\ a.r # "L" THEN "N"
    ELSE IF b.r = "R" /\ a.r # "R" THEN "N"
    ELSE IF ~ IsChild(a.t, b.t) THEN "N"
    ELSE IF b.r = "C" /\ a.r = "R" THEN "E"
    ELSE IF a.c = b.c /\ a.r = b.r THEN "E"
    ELSE "P"
MatchRet(want, got) ==
    IF want.t = "void" THEN "E"
    ELSE IF got.t = "void" THEN (IF want.t = VT /\ want.r # "L" THEN "E" ELSE "N")
    ELSE IF Match(got, want) = "N" THEN "N"
    ELSE IF got.r # "L" /\ want.r = "L" /\ want.c = "c" THEN "N"
    ELSE "E"
RECURSIVE MatchArgs(_, _)
MatchArgs(have, want) ==
    IF Len(have) # Len(want) THEN "N"
    ELSE IF have = <<>> THEN "E"
    ELSE LET m == Match(Head(have), Head(want)) IN
         IF m = "N" THEN "N" ELSE Combine(m, MatchArgs(Tail(have), Tail(want)))
Test(fn, ret, args) == Combine(MatchRet(ret, fn.ret), MatchArgs(args, fn.args))

\* 0: none, -1: ambiguous
Choose(ovl, ret, args) ==
    LET m == [i \in 1..Len(ovl) |-> Test(ovl[i], ret, args)] \o <<>>
        ex == {i \in 1..Len(ovl) : m[i] = "E"}
        pa == {i \in 1..Len(ovl) : m[i] = "P"}
    IN  IF ex # {} THEN CHOOSE i \in ex : \A j \in ex : i <= j
        ELSE IF pa = {} THEN 0
        ELSE IF Cardinality(pa) > 1 THEN -1
        ELSE CHOOSE i \in pa : TRUE
=============================================================================
