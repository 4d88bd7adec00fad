------------------------------ MODULE GenDecl ------------------------------
EXTENDS Decl
CONSTANTS Profile, Len_, Setup
VARIABLES st, hist
R(S) == RandomElement(S)
With(S, F(_)) == CHOOSE y \in {F(x) : x \in {RandomElement(S)}} : TRUE
C(op, a, n) == [op |-> op, a |-> a, n |-> n]
NameSeq == SetToSeq(Names)
OSeq == SelectSeq(NameSeq, LAMBDA n : Cls[n].kind = "O")
KSeq == SelectSeq(NameSeq, LAMBDA n : Cls[n].kind = "K")
\* a history keeps to a class, its parents and a few others
Home(z) == hist[1].a[1]
Kin(z) == LET h == Real[Home(0)] IN ChainTab[h] \cup {n \in Names : h \in ChainTab[n]}
Class(z) == With(1..12, LAMBDA k : IF k <= 7 THEN Real[Home(0)] ELSE IF k <= 11 THEN R(Kin(0)) ELSE R(Names))
TypeName(t) == IF R(1..25) = 1 THEN "Nothing"
               ELSE IF t \in Names /\ Cls[t].alias # "" /\ R(1..3) = 1 THEN Cls[t].alias ELSE t
VRegsOf(z) == {v \in VRegs : st.vals[v].t # "void" /\ ~ st.vals[v].d}
ClassRegs(z) == {v \in VRegsOf(0) : st.vals[v].t \in Names}
Src(z) == IF ClassRegs(0) = {} \/ R(1..14) = 1 THEN R(VRegsOf(0)) ELSE R(ClassRegs(0))
FnNames == {Pool.fns[i] : i \in 1..Len(Pool.fns)}
FnOf(t) == IF R(1..9) = 1 \/ AllFns(t) = {} THEN R(FnNames) ELSE R(AllFns(t))
\* an argument for a parameter, usually one that fits
Fits(p) == {v \in VRegsOf(0) : Match(A(st.vals[v]), p) # "N"}
ArgFor(p) ==
    IF R(1..14) = 1 THEN (IF R(1..2) = 1 THEN R(ArgKinds) ELSE R(VRegsOf(0)))
    ELSE IF p.t \in {"int", "bool"} THEN
        (IF R(1..4) = 1 /\ Fits(p) # {} THEN R(Fits(p))
         ELSE IF p.r = "L" /\ p.c = "n" THEN "i" ELSE IF p.r = "R" THEN "r" ELSE R(ArgKinds))
    ELSE IF Fits(p) # {} THEN R(Fits(p)) ELSE R(VRegsOf(0))
RECURSIVE ArgsFor(_)
ArgsFor(ps) == IF ps = <<>> THEN <<>> ELSE <<ArgFor(Head(ps))>> \o ArgsFor(Tail(ps))
Nums(xs) == [i \in 1..Len(xs) |-> R(0..50)] \o <<>>
\* arguments for one of the overloads; k of the arguments are there already
Ovl(t, f, k) ==
    LET o == SelectSeq(Find(t, f), LAMBDA x : Len(x.args) >= k) IN
    IF o = <<>> THEN (IF R(1..2) = 1 THEN <<>> ELSE <<CA("int")>>)
    ELSE LET p == o[R(1..Len(o))].args IN SubSeq(p, k + 1, Len(p))
\* sometimes the object itself and not a dynamic value that refers to it
OClass(v) == IF v \in ClassRegs(0) THEN Cls[st.vals[v].t].kind = "O" ELSE FALSE
Same(xs, v) ==
    IF Len(xs) # 1 THEN xs
    ELSE With({IF OClass(v) /\ R(1..3) = 1 THEN v ELSE xs[1]}, LAMBDA w :
         IF ~ OClass(w) \/ R(1..2) = 1 THEN xs
         ELSE <<(IF st.vals[w].c = "c" \/ R(1..2) = 1 THEN "^" ELSE "&") \o w>>)
\* two arguments at most
Some(xs) == IF Len(xs) > 2 THEN SubSeq(xs, 1, 2) ELSE xs
Cmd3(op, head, xs) == C(op, head \o xs, Nums(xs))
MakeClass(z) == With({Class(0)}, LAMBDA t : With(1..6, LAMBDA k :
    CASE k \in {1, 2} -> C("ref", <<R(VRegs), t>>, <<R(0..1)>>)
      [] k = 3 -> C("cref", <<R(VRegs), t>>, <<R(0..1)>>)
      [] k = 4 -> IF VRegsOf(0) = {} THEN C("ref", <<R(VRegs), t>>, <<0>>)
                  ELSE With({Some(ArgsFor(Ovl(t, "new", 0)))}, LAMBDA xs : Cmd3("alloc", <<R(VRegs), TypeName(t)>>, xs))
      [] OTHER -> IF VRegsOf(0) = {} THEN C("ref", <<R(VRegs), t>>, <<1>>)
                  ELSE With({Some(ArgsFor(Ovl(t, t, 0)))}, LAMBDA xs : Cmd3("new", <<R(VRegs), TypeName(t)>>, xs))))
Make_(z) == IF R(1..9) = 1 THEN C("lit", <<R(VRegs)>>, <<R(0..50)>>) ELSE MakeClass(0)
BinOps == <<"operator+=", "operator-=", "operator*=", "operator/=", "operator%=", "operator&=", "operator|=", "operator^=",
    "operator<<=", "operator>>=", "operator+", "operator-", "operator*", "operator/", "operator%", "operator&", "operator|",
    "operator^", "operator<<", "operator>>", "operator[]">>
BoolOps == <<"operator&&", "operator||", "operator==", "operator!=", "operator<", "operator>", "operator<=", "operator>=">>
UnOps == <<"operator++", "operator--", "operator~", "operator*">>
\* operators the type has, usually
OpFrom(t, ops) ==
    LET s == {ops[i] : i \in 1..Len(ops)} \cap AllFns(t) IN
    IF s = {} \/ R(1..9) = 1 THEN ops[R(1..Len(ops))] ELSE R(s)
One(xs) == IF Len(xs) = 1 THEN xs ELSE <<ArgFor(CA("int"))>>
Op_(z) == With({Src(0)}, LAMBDA v : With({st.vals[v].t}, LAMBDA t : With(1..22, LAMBDA k :
    CASE k <= 8 -> With({OpFrom(t, BinOps)}, LAMBDA f : With({Same(One(ArgsFor(Ovl(t, f, 1))), v)}, LAMBDA xs :
                        Cmd3("bin", <<R(VRegs), v, f>>, xs)))
      [] k <= 10 -> With({Some(ArgsFor(Ovl(t, "operator()", 1)))}, LAMBDA xs : Cmd3("bin", <<R(VRegs), v, "operator()">>, xs))
      [] k <= 13 -> With({OpFrom(t, UnOps)}, LAMBDA f : C("un", <<R(VRegs), v, f>>, <<>>))
      [] k = 14 -> C("post", <<R(VRegs), v, R({"operator++", "operator--"})>>, <<>>)
      [] k <= 17 -> With({OpFrom(t, BoolOps)}, LAMBDA f : With({Same(One(ArgsFor(Ovl(t, f, 1))), v)}, LAMBDA xs :
                        Cmd3("bool", <<v, f>>, xs)))
      [] k = 18 -> C("not", <<v>>, <<>>)
      [] k = 19 -> C("truth", <<v>>, <<>>)
      [] OTHER -> With({Same(One(ArgsFor(Ovl(t, "operator=", 1))), v)}, LAMBDA xs : Cmd3("assign", <<v>>, xs)))))
Statics(t) == {f \in AllFns(t) : \E i \in 1..Len(Find(t, f)) : Find(t, f)[i].k = "free"}
Call_(z) == With({Src(0)}, LAMBDA v : With({st.vals[v].t}, LAMBDA t : With(1..10, LAMBDA k :
    CASE k <= 6 -> With({FnOf(t)}, LAMBDA f : With({IF R(1..3) = 1 THEN Same(Some(ArgsFor(Ovl(t, f, 1))), v) ELSE Some(ArgsFor(Ovl(t, f, 1)))}, LAMBDA xs : Cmd3("call", <<R(VRegs), v, f>>, xs)))
      [] k = 7 -> With({R({"bool", "int"})}, LAMBDA c : C("call", <<R(VRegs), v, "operator " \o c \o "()">>, <<>>))
      [] OTHER -> With({Class(0)}, LAMBDA c : With({IF Statics(c) = {} THEN FnOf(c) ELSE R(Statics(c))}, LAMBDA f :
                  With({Some(ArgsFor(Ovl(c, f, 0)))}, LAMBDA xs : Cmd3("static", <<R(VRegs), TypeName(c), f>>, xs)))))))
Value_(z) == With({Src(0)}, LAMBDA v : With(1..12, LAMBDA k :
    CASE k <= 3 -> C("copy", <<R(VRegs), v>>, <<>>)
      [] k <= 5 -> C("move", <<R(VRegs), v>>, <<>>)
      [] k = 6 -> C("set", <<R(VRegs), v>>, <<>>)
      [] k = 7 -> C("rval", <<R(VRegs), v>>, <<>>)
      [] k = 8 -> C("const", <<R(VRegs), v>>, <<>>)
      [] k = 9 -> C("drop", <<v>>, <<>>)
      [] k <= 11 -> C("fld", <<R(VRegs), v, IF R(1..12) = 1 THEN "how" ELSE "n">>, <<>>)
      [] OTHER -> LET s == {w \in VRegsOf(0) : A(st.vals[w]) = LN("int")} IN
                  IF s = {} THEN C("lit", <<R(VRegs)>>, <<R(0..50)>>) ELSE C("write", <<R(s)>>, <<R(0..90)>>)))
\* functions and variables of a scope, from the root, from the scope or from one above it
Gpick(z) == R(UNION {{<<s, ScopeOf[s].regs[i].name>> : i \in 1..Len(ScopeOf[s].regs)} : s \in ScopeNames})
Via(x) == With(0..Len(PathOf[x[1]]), LAMBDA k :
    <<Joined(SubSeq(PathOf[x[1]], 1, k)), Joined(SubSeq(PathOf[x[1]], k + 1, Len(PathOf[x[1]])) \o <<x[2]>>)>>)
VarRegs(z) == {v \in VRegs : \E x \in Vars : x.r.cv # "c" /\ st.vals[v].b = VName(x.s, x.r.name)}
Global_(z) == With({Gpick(0)}, LAMBDA x : With(1..15, LAMBDA k :
    CASE k = 1 -> C("scope", <<R(AllScopes \cup {"ns3", "ns0::no"})>>, <<>>)
      [] k = 2 -> With(Vars, LAMBDA v : C("var", <<v.s \o "::" \o v.r.name>>, <<>>))
      [] k = 3 -> With(Vars, LAMBDA v : C("vref", <<R(VRegs), v.s \o "::" \o v.r.name>>, <<>>))
      \* a variable assigned to itself, or to another one of its type
      [] k <= 8 /\ VarRegs(0) # {} ->
            With(VarRegs(0), LAMBDA v : With({w \in Vars : VName(w.s, w.r.name) = st.vals[v].b}, LAMBDA w :
                 With({IF R(1..2) = 1 THEN <<v>> ELSE ArgsFor(<<LC(w.r.ret.t)>>)}, LAMBDA xs :
                      Cmd3("global", <<R(VRegs), w.s, w.r.name>>, xs))))
      [] OTHER -> With({IF R(1..15) = 1 THEN <<"ns0", R({"zz", "in", "in::zz"})>> ELSE Via(x)}, LAMBDA y :
                  With({GlobalFn(y[1], y[2])}, LAMBDA o :
                  With({IF o = <<>> THEN <<>> ELSE ArgsFor(o[R(1..Len(o))].args)}, LAMBDA xs :
                      Cmd3("global", <<R(VRegs), y[1], y[2]>>, xs))))))
Look_(z) == With(1..5, LAMBDA k : With({Class(0)}, LAMBDA t :
    CASE k = 1 -> C("info", <<TypeName(t)>>, <<>>)
      [] k = 2 -> C("peek", <<t>>, <<R(0..1)>>)
      [] k = 3 -> C("same", <<R(VRegsOf(0)), R(VRegsOf(0))>>, <<>>)
      [] OTHER -> C("show", <<R(VRegsOf(0))>>, <<>>)))
First(z) == With(1..50, LAMBDA k : With({IF R(1..10) <= (IF Profile = "P20" THEN 4 ELSE 1) THEN KSeq[R(1..Len(KSeq))] ELSE OSeq[R(1..Len(OSeq))]},
    LAMBDA t : C("info", <<t>>, <<k>>)))
Cmd(i) == IF i = 1 THEN First(0) ELSE IF i <= 3 THEN C("ref", <<IF i = 2 THEN "v0" ELSE "v1", Real[Home(0)]>>, <<i - 2>>) ELSE
    With(1..20, LAMBDA k :
        IF ClassRegs(0) = {} \/ k <= 3 THEN Make_(0)
        ELSE IF k <= 5 THEN Value_(0)
        ELSE IF k <= 7 THEN Look_(0)
        ELSE IF Profile = "P20" /\ (k = 8 \/ (VarRegs(0) # {} /\ R(1..3) = 1)) THEN Global_(0)
        ELSE IF k <= (IF Profile = "P20" THEN 13 ELSE 18) THEN Op_(0) ELSE IF k <= 15 THEN Value_(0) ELSE Call_(0))
\* some scripts ask about every class
Survey == [i \in 1..Len(NameSeq) |-> C("info", <<NameSeq[i]>>, <<>>)]
          \o [i \in 1..Cardinality(Aliases) |-> C("info", <<SetToSeq(Aliases)[i]>>, <<>>)]
          \o [i \in 1..Cardinality(AllScopes) |-> C("scope", <<SetToSeq(AllScopes)[i]>>, <<>>)]
GInit == st = InitState /\ hist = <<>>
GNext ==
    /\ Len(hist) < Len_
    /\ \E c \in {Cmd(Len(hist) + 1)} : \E x \in {Step(st, c)} :
       LET cc == IF x.ub THEN C("drop", <<"v0">>, <<>>) ELSE c
           h == Append(hist, cc)
       IN /\ hist' = h
          /\ st' = IF x.ub THEN Step(st, cc).st ELSE x.st
          /\ Len(h) = Len_ => PrintT("SCRIPT " \o ToJson(IF hist[1].n[1] = 1 THEN Survey ELSE h))
GSpec == GInit /\ [][GNext]_<<st, hist>>
=============================================================================
