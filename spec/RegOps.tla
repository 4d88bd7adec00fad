------------------------------- MODULE RegOps -------------------------------
(* The registry's state and what one operation does to it while it is the  *)
(* only one: shared by the model of the lock and by the trace checker.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

\* names which loaders, aliases and lookups use
Plain == {"a", "b", "c", "d", "al", "am"}
Tmpl == {"Box<int>", "Box<long int>", "Box<double>", "Box<Box<int>>"}
Static == {"S0", "S1", "S2"}
Names == Plain \cup Tmpl \cup Static
Bodies == {"B0", "B1", "B2", "B3"}
\* the body which a type known to the compiler runs
BodyOf(n) == CASE n \in {"Box<int>", "S0"} -> "B0" [] n \in {"Box<long int>", "S1"} -> "B1"
               [] n \in {"Box<double>", "S2"} -> "B2" [] OTHER -> "B3"

NoReg == [ty |-> [n \in Names |-> "none"], al |-> [n \in Names |-> ""],
          ld |-> [n \in Names |-> IF n \in Static THEN BodyOf(n) ELSE ""],
          body |-> [b \in Bodies |-> <<>>], runs |-> [n \in Names |-> 0],
          flag |-> {}]

Target(reg, n) == IF reg.al[n] = "" THEN n ELSE reg.al[n]
\* the first loader of a name is the one which counts
DoAdd(reg, n, b) == IF reg.ld[n] = "" THEN [reg EXCEPT !.ld[n] = b] ELSE reg
CanAlias(reg, al) == reg.al[al] = ""
DoAlias(reg, n, al) == [reg EXCEPT !.al[al] = n]
Begin(reg, n) == [reg EXCEPT !.ty[n] = "building", !.ld[n] = "", !.runs[n] = @ + 1]
End(reg, n) == [reg EXCEPT !.ty[n] = "done"]
Found(reg, n) == <<"get", n, reg.ty[n], "same">>

\* types of the library, which register and load each other without being seen
LibName(k) == CASE k = "1" -> "std::vector<int>" [] k = "2" -> "std::vector<std::vector<int>>"
                [] k = "3" -> "std::map<std::string,int>" [] k = "4" -> "std::map<std::string,std::vector<int>>"
                [] k = "5" -> "std::shared_ptr<int>" [] k = "6" -> "std::unique_ptr<long int>"
                [] k = "7" -> "int*" [] OTHER -> "int**"

\* the critical sections of an operation which has several; what they answer follows one another
Steps(op) == IF op[1] = "getT" /\ op[2] \in Tmpl THEN <<<<"reg", op[2]>>, <<"get", op[2]>>>>
             ELSE IF op[1] = "conv" THEN <<<<"use", "S0">>, <<"use", "S1">>, <<"match">>>>
             ELSE <<op>>

\* an operation and everything its loaders do
RECURSIVE Exec(_, _), ExecAll(_, _, _)
ExecAll(reg, ops, r) ==
    IF ops = <<>> THEN [reg |-> reg, r |-> r]
    ELSE LET x == Exec(reg, Head(ops)) IN ExecAll(x.reg, Tail(ops), r \o x.r)
Get(reg, name) ==
    LET n == Target(reg, name) IN
    IF reg.ty[n] # "none" THEN [reg |-> reg, r |-> Found(reg, n)]
    ELSE IF reg.ld[n] = "" THEN [reg |-> reg, r |-> <<"get", "error">>]
    ELSE LET x == ExecAll(Begin(reg, n), reg.body[reg.ld[n]], <<"load", n>>)
             e == End(x.reg, n)
         IN [reg |-> e, r |-> x.r \o <<"loaded">> \o Found(e, n)]
Exec(reg, op) ==
    CASE op[1] = "get" -> Get(reg, op[2])
      [] op[1] = "getT" -> Get(IF op[2] \in Tmpl THEN DoAdd(reg, op[2], BodyOf(op[2])) ELSE reg, op[2])
      [] op[1] = "reg" -> [reg |-> DoAdd(reg, op[2], BodyOf(op[2])), r |-> <<>>]
      [] op[1] = "lib" -> [reg |-> reg, r |-> <<"get", LibName(op[2]), "done", "same">>]
      \* loading S0, or S1, without showing the answer
      [] op[1] = "use" -> LET x == Get(reg, op[2]) IN [reg |-> x.reg, r |-> SubSeq(x.r, 1, Len(x.r) - 4)]
      [] op[1] = "match" -> [reg |-> reg, r |-> <<"conv", "none">>]
      [] op[1] = "conv" -> ExecAll(reg, Steps(op), <<>>)
      [] op[1] = "add" -> [reg |-> DoAdd(reg, op[2], op[3]), r |-> <<"add">>]
      [] op[1] = "addT" -> [reg |-> DoAdd(reg, op[2], BodyOf(op[2])), r |-> <<"add">>]
      [] op[1] = "alias" -> IF CanAlias(reg, op[3]) THEN [reg |-> DoAlias(reg, op[2], op[3]), r |-> <<"alias", "ok">>]
                            ELSE [reg |-> reg, r |-> <<"alias", "error">>]
=============================================================================
