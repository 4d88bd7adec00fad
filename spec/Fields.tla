------------------------------ MODULE Fields ------------------------------
(* Access to the fields of dynamic values.  Objects are a few integers at  *)
(* the offsets the compiler gives them; the layout comes from the harness  *)
(* (offsetof), never from reflect.                                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt, Json, IOUtils

Pool == JsonDeserialize(IOEnv.POOL)
Put(f, k, v) == [x \in (DOMAIN f) \cup {k} |-> IF x = k THEN v ELSE f[x]]
Empty == [x \in {} |-> 0]

Structs == {"Pt", "In", "Mid", "Base", "Der", "Der2", "Hold"}
Parent(t) == CASE t = "Der" -> "Base" [] t = "Der2" -> "Der" [] OTHER -> ""
\* own members by type and name: [t, c, off]
Own == [t \in Structs |->
          LET ms == SelectSeq(Pool.members, LAMBDA m : m[1] = t)
          IN [n \in {ms[i][2] : i \in 1..Len(ms)} |->
                LET i == CHOOSE i \in 1..Len(ms) : ms[i][2] = n IN [t |-> ms[i][3], c |-> ms[i][4], off |-> ms[i][5]]]]
OwnOf(t) == IF t \in Structs THEN Own[t] ELSE Empty
RECURSIVE Find(_, _)
Find(t, n) ==         \* the member of the nearest type which declares it
    IF n \in DOMAIN OwnOf(t) THEN <<OwnOf(t)[n]>>
    ELSE IF Parent(t) = "" THEN <<>> ELSE Find(Parent(t), n)
RECURSIVE Chain(_)
Chain(t) == {t} \cup (IF Parent(t) = "" THEN {} ELSE Chain(Parent(t)))
AllNames(t) == UNION {DOMAIN OwnOf(x) : x \in Chain(t)}
RECURSIVE LeafOffs(_)
LeafOffs(t) ==
    IF t = "int" THEN {0}
    ELSE UNION {{OwnOf(x)[n].off + k : k \in LeafOffs(OwnOf(x)[n].t)} : <<x, n>> \in
                {p \in Chain(t) \X AllNames(t) : p[2] \in DOMAIN OwnOf(p[1])}}
LeafTab == [t \in Structs |-> LeafOffs(t)]
Leaves(t) == IF t = "int" THEN {0} ELSE LeafTab[t]

(******************************** state ***********************************)
VRegs == {"v0", "v1", "v2", "v3"}
Void == [o |-> "", off |-> 0, t |-> "void", r |-> "C", c |-> "n"]
InitState == [obj |-> Empty, vals |-> [v \in VRegs |-> Void], copies |-> 0]     \* obj: name -> [t, mem]

Where(v) == v.o \o "+" \o ToString(v.off)
Show(v) == v.t \o "." \o v.r \o "." \o v.c \o "@" \o (IF v.t = "void" THEN "-" ELSE Where(v))
Out(st, r) == [st |-> st, r |-> r]
Err(st) == Out(st, <<"err">>)
Sub(v, n) ==          \* the value of a field, or <<>>
    LET f == Find(v.t, n) IN
    IF f = <<>> THEN <<>>
    ELSE <<[o |-> v.o, off |-> v.off + f[1].off, t |-> f[1].t, r |-> "L",
            c |-> IF v.c = "c" \/ f[1].c = "c" THEN "c" ELSE "n"]>>
RECURSIVE Follow(_, _)
Follow(v, ns) ==
    IF ns = <<>> THEN <<v>>
    ELSE LET s == Sub(v, ns[1]) IN IF s = <<>> THEN <<>> ELSE Follow(s[1], Tail(ns))
Read(st, v, k) == st.obj[v.o].mem[v.off + k]
Write(st, v, k, n) == [st EXCEPT !.obj[v.o].mem[v.off + k] = n]
RefTarget(k) == CASE k \in {"int", "int&", "const int&"} -> "int" [] k \in {"Pt", "Pt&", "const Pt&"} -> "Pt"
                  [] k \in {"In&", "const In&"} -> "In" [] k \in {"Base&", "const Base&"} -> "Base" [] OTHER -> "double"
Mutable(k) == k \in {"int&", "Pt&", "In&", "Base&"}
PtOffs == <<Own["Pt"]["x"].off, Own["Pt"]["y"].off>>
SetReg(st, r, v) == Out([st EXCEPT !.vals[r] = v], <<Show(v)>>)

Step(st, c) ==
    LET a == c.a op == c.op IN
    CASE op = "obj" ->
            LET ls == Leaves(a[2])
                mem == [x \in ls |-> c.n[1] + Cardinality({y \in ls : y < x})]
            IN Out([st EXCEPT !.obj = Put(@, a[1], [t |-> a[2], mem |-> mem])], <<>>)
      [] op \in {"vref", "vcref"} ->
            SetReg(st, a[1], [o |-> a[2], off |-> 0, t |-> st.obj[a[2]].t, r |-> "L", c |-> IF op = "vref" THEN "n" ELSE "c"])
      [] op = "vset" -> SetReg(st, a[1], st.vals[a[2]])
      [] op = "vconst" -> SetReg(st, a[1], [st.vals[a[2]] EXCEPT !.r = "R", !.c = "c"])
      [] op = "vrval" -> SetReg(st, a[1], [st.vals[a[2]] EXCEPT !.r = "R"])
      [] op = "vcopy" ->
            LET v == st.vals[a[2]]
                n == "c" \o ToString(st.copies)
            IN IF v.t = "void" THEN Err(st)
               ELSE SetReg([st EXCEPT !.copies = @ + 1,
                              !.obj = Put(@, n, [t |-> v.t, mem |-> [x \in Leaves(v.t) |-> Read(st, v, x)]])],
                           a[1], [o |-> n, off |-> 0, t |-> v.t, r |-> "L", c |-> "n"])
      [] op = "fld" ->
            LET s == Sub(st.vals[a[2]], a[3]) IN IF s = <<>> THEN Err(st) ELSE SetReg(st, a[1], s[1])
      [] op = "path" ->
            LET s == Follow(st.vals[a[2]], SubSeq(a, 3, Len(a))) IN IF s = <<>> THEN Err(st) ELSE SetReg(st, a[1], s[1])
      [] op = "fget" ->
            LET s == Sub(st.vals[a[1]], a[2]) k == a[3] IN
            IF s = <<>> \/ RefTarget(k) \notin Chain(s[1].t) \/ (Mutable(k) /\ s[1].c = "c") THEN Err(st)
            ELSE IF k = "int" THEN Out(st, <<"ok", ToString(Read(st, s[1], 0))>>)
            ELSE IF k = "Pt" THEN Out(st, <<"ok", ToString(Read(st, s[1], PtOffs[1])), ToString(Read(st, s[1], PtOffs[2]))>>)
            ELSE Out(st, <<"ok", Where(s[1])>>)
      [] op = "fwrite" ->
            LET s == Sub(st.vals[a[1]], a[2]) IN
            IF s = <<>> \/ s[1].t # "int" \/ s[1].c = "c" THEN Err(st)
            ELSE Out(Write(st, s[1], 0, c.n[1]), <<"ok">>)
      [] op = "assign" ->
            LET v == st.vals[a[1]] IN
            IF v.t # "int" \/ v.c = "c" \/ v.r = "R" THEN Err(st) ELSE Out(Write(st, v, 0, c.n[1]), <<"ok">>)
      [] op = "assignv" ->
            LET v == st.vals[a[1]] w == st.vals[a[2]] IN
            IF v.t # w.t \/ v.t \notin {"int", "Pt"} \/ v.c = "c" \/ v.r = "R" THEN Err(st)
            ELSE IF v.t = "int" THEN Out(Write(st, v, 0, Read(st, w, 0)), <<"ok">>)
            ELSE Out(Write(Write(st, v, PtOffs[1], Read(st, w, PtOffs[1])), v, PtOffs[2], Read(st, w, PtOffs[2])), <<"ok">>)
      [] op = "vget" ->
            LET v == st.vals[a[1]] IN IF v.t # "int" THEN Err(st) ELSE Out(st, <<"ok", ToString(Read(st, v, 0))>>)
      [] op = "raw" -> Out([st EXCEPT !.obj[a[1]].mem[c.n[1]] = c.n[2]], <<>>)
      [] op = "dump" ->
            Out(st, SetToSeq(UNION {{o \o "+" \o ToString(x) \o "=" \o ToString(st.obj[o].mem[x]) : x \in DOMAIN st.obj[o].mem}
                                    : o \in DOMAIN st.obj}))
      [] op = "has" -> Out(st, [i \in 1..(Len(a) - 1) |-> IF a[i + 1] \in AllNames(a[1]) THEN "1" ELSE "0"])
      [] op = "list" -> Out(st, SetToSeq(AllNames(a[1])))
      [] op = "meta" ->
            LET f == Find(a[1], a[2]) IN
            IF f = <<>> THEN Err(st) ELSE Out(st, <<"ok", a[2], f[1].t, f[1].c, ToString(f[1].off), "C">>)
Unordered(e) == e.op \in {"dump", "list"}
=============================================================================
