------------------------------ MODULE MC_Decl ------------------------------
(* The laws of P20 on what every class registers and of P21 on every      *)
(* short history with a class that has many operators.                    *)
EXTENDS Decl
CONSTANTS Config, Depth
VARIABLES st

(******************************* the tables *******************************)
Sigs(t, n) == {SigStr(f) : f \in ToSet(Own(t, n))}
Plumbed == {t \in Names : Regs(t, "plumbing") # <<>> /\ Cls[t].kind = "K"}
Implicit == {t \in Plumbed : Cap(t, "D") = "i"}
Has(t, n, f) == SigStr(Sig(n, f.ret, f.args)) \in Sigs(t, n)
S_(ret, args) == [ret |-> ret, args |-> args]
\* a class with plumbing offers exactly what C++ can do with it
PlumbingLaws == \A t \in Plumbed :
    LET rv == HasMC(t) IN       \* what is returned by value has to be moved out
    /\ Has(t, t, S_(CA(t), <<>>)) <=> (HasD(t) /\ rv)
    /\ Has(t, t, S_(CA(t), <<LC(t)>>)) <=> (HasCC(t) /\ rv)
    /\ Has(t, t, S_(CA(t), <<RN(t)>>)) <=> HasMC(t)
    /\ Has(t, "operator=", S_(LN(t), <<LN(t), LC(t)>>)) <=> HasCA(t)
    /\ Has(t, "operator=", S_(LN(t), <<LN(t), RN(t)>>)) <=> (HasMA(t) /\ rv)
    /\ Cardinality(Sigs(t, t)) <= 3 /\ Cardinality(Sigs(t, "operator=")) <= 2
    /\ Copiable(t) <=> (HasCC(t) /\ rv)
    /\ Movable(t) <=> (HasMC(t))
    /\ Regs(t, "allocplumbing") # <<>> =>
          Cardinality(Sigs(t, "new")) = Cardinality({c \in {"D", "CC", "MC"} :
              CASE c = "D" -> HasD(t) [] c = "CC" -> HasCC(t) [] OTHER -> HasMC(t)})
    /\ (Regs(t, "allocplumbing") \o Regs(t, "alloc") = <<>>) => Sigs(t, "new") = {}
    /\ {f.name : f \in ToSet(FnTable[t])} \subseteq {t, "operator=", "new"}
\* nothing comes from outside of the class and its bases, nothing private, and nothing that is overloaded but the
\* incrementations
OperatorLaws == \A t \in Names :
    LET bases == {x \in Names : \E k \in 0..6 : x = t \/ x \in ChainTab[t]}
        ops == {f \in ToSet(FnTable[t]) : f.k = "mem" /\ f.name \in ToSet(Pool.fns) /\ f.name \notin
                  {"f", "g", "h", "operator bool()", "operator int()"}}
    IN /\ \A f \in ops : \E m \in ToSet(Cls[f.cls].members) : m.name = f.name /\ m.acc = "pub" /\ m.tag = f.tag /\ m.ret = f.ret
       /\ \A f \in ops : f.name \notin {"operator++", "operator--"} => Len(Lookup(t, f.name)) = 1
       /\ \A f \in ops : f.name \in {"operator++", "operator--"} =>
             (f.cls = t /\ Len(f.args) \in {1, 2} /\ f.ret = (IF Len(f.args) = 1 THEN LN(t) ELSE CA(t)))
       /\ \A f \in ops : \A g \in ops : f.name = g.name /\ f # g =>
             (f.name \in {"operator++", "operator--"} /\ Len(f.args) # Len(g.args))
\* every combination is there
PoolLaws ==
    /\ Implicit # {}
    /\ {<<Cap(t, "D"), Cap(t, "CC"), Cap(t, "MC"), Cap(t, "CA"), Cap(t, "MA")>> : t \in {x \in Plumbed : Cap(x, "D") # "i"}}
         = {"y", "d"} \X {"y", "d"} \X {"y", "d", "u"} \X {"y", "d"} \X {"y", "d", "u"}
    /\ \A o \in {"operator+", "operator*", "operator!", "operator==", "operator()", "operator[]", "operator+=", "operator++"} :
          \E t \in Names : Own(t, o) # <<>>
ASSUME PlumbingLaws /\ OperatorLaws /\ PoolLaws

(******************************** histories *******************************)
C(op, a, n) == [op |-> op, a |-> a, n |-> n]
OSeq == SetToSeq({t \in Names : Cls[t].kind = "O"})
Size_(t) == Cardinality(AllFns(t))
\* the classes with the most functions
T1 == OSeq[CHOOSE i \in 1..Len(OSeq) : \A j \in 1..Len(OSeq) : Size_(OSeq[i]) >= Size_(OSeq[j])]
KOf(cc, mc) == CHOOSE t \in Plumbed : <<Cap(t, "D"), Cap(t, "CC"), Cap(t, "MC"), Cap(t, "CA"), Cap(t, "MA")>> =
                                        <<"y", cc, mc, "y", "y">>
Ts == CASE Config = "assign" -> {KOf("y", "y"), KOf("d", "y"), KOf("y", "u")}
        [] OTHER -> {T1}
VR == {"v0", "v1"}
Same == {"&v0", "^v0", "&v1", "^v1"}
Make == UNION {{C("ref", <<v, t>>, <<0>>), C("cref", <<v, t>>, <<0>>), C("new", <<v, t>>, <<>>), C("alloc", <<v, t>>, <<>>)} : v \in VR, t \in Ts}
Values == UNION {{C(op, <<v, w>>, <<>>) : op \in {"copy", "move", "set", "rval", "const"}} : v \in VR, w \in VR}
          \cup {C("drop", <<v>>, <<>>) : v \in VR}
          \cup {C("assign", <<v, w>>, <<0>>) : v \in VR, w \in VR}
          \cup {C("assign", <<v, w>>, <<0>>) : v \in VR, w \in Same}
          \cup UNION {{C("new", <<v, t, w>>, <<0>>), C("alloc", <<v, t, w>>, <<0>>)} : v \in VR, t \in Ts, w \in VR}
Ops == UNION {{C("call", <<"v1", "v0", f>>, <<>>), C("call", <<"v1", "v0", f, "v1">>, <<0>>), C("call", <<"v0", "v0", f, "i">>, <<2>>),
               C("call", <<"v1", "v0", f, "v0">>, <<0>>)}
               \cup {C("call", <<"v1", "v0", f, x>>, <<0>>) : x \in Same} : f \in UNION {AllFns(t) : t \in Ts}}
       \cup UNION {{C("not", <<v>>, <<>>), C("truth", <<v>>, <<>>), C("fld", <<"v1", v, "n">>, <<>>)} : v \in VR}
Cmds == Make \cup (IF Config = "assign" THEN Values ELSE Ops)
Bound == TLCGet("level") <= Depth
Frozen(old, v) == old.vals[v].c = "c"
StepLaws(old, c, x) ==
    LET used == Uses(c) IN
    \* a refused operation changes nothing
    /\ x.r[1] = "err" => x.st = old
    \* objects that are only seen through const values keep what they are
    /\ \A o \in DOMAIN old.mem : (o \in DOMAIN x.st.mem /\ x.st.mem[o] # old.mem[o]) =>
          \E v \in used : old.vals[v].b = o /\ old.vals[v].c = "n"
    /\ (c.op \in {"truth", "fld", "set", "rval", "const", "ref", "cref"}
        \/ (c.op = "not" /\ Find(old.vals[c.a[1]].t, "operator!") = <<>>)) =>
          \A o \in DOMAIN old.mem : o \in DOMAIN x.st.mem => x.st.mem[o] = old.mem[o]
    \* what the program owns isn't destroyed
    /\ \A o \in DOMAIN old.mem : old.kind[o] \in {"g", "raw"} => o \in DOMAIN x.st.mem
    \* an assignment gives the left operand the value of the right one
    /\ c.op = "assign" /\ x.r[1] = "ok" /\ Config = "assign" =>
          LET l == old.vals[c.a[1]] r == old.vals[c.a[2]] IN
          /\ x.st.mem[l.b].n = old.mem[r.b].n
          /\ x.st.mem[l.b].how = (IF r.r = "R" /\ Movable(l.t) /\ HasMA(l.t) /\ r.c = "n"
                                  THEN (IF Cap(l.t, "MA") = "y" THEN "ma" ELSE "ca") ELSE "ca")
    \* the truth value of a type which has no negation is the opposite of the negation
    /\ c.op = "not" /\ Find(old.vals[c.a[1]].t, "operator!") = <<>> =>
          LET y == Step(old, C("truth", c.a, <<>>)) IN
          (x.r[1] = "err" <=> y.r[1] = "err") /\ (x.r[1] # "err" => x.r[1] # y.r[1])
Init == st = InitState
Next == \E c \in Cmds : \E x \in {Step(st, c)} :
          /\ ~ x.ub
          /\ st' = x.st
          /\ Assert(StepLaws(st, c, x), <<"step breaks a law", c, x.r>>)
Spec == Init /\ [][Next]_st
Laws ==
    /\ \A v \in VRegs : st.vals[v].t = "void" \/ st.vals[v].d \/
          (st.vals[v].b \in DOMAIN st.mem /\ (Child(st.mem[st.vals[v].b].t, st.vals[v].t) \/ st.vals[v].t \in {"int", "bool"}))
    /\ \A o \in DOMAIN st.mem : st.kind[o] # "x"
=============================================================================
