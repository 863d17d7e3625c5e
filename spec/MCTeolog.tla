------------------------------ MODULE MCTeolog ------------------------------
(* Two loggers used in any order, and their scripts for the driver. *)
EXTENDS Teolog, Json
CONSTANTS Objs, Names, Filters, Texts, Depth

VARIABLES level, filter, shown, hist, done
vars == <<level, filter, shown, hist, done>>

Init == /\ level = [o \in Objs |-> 0] /\ filter = [o \in Objs |-> <<>>]
        /\ shown = [o |-> 0, n |-> 0, s |-> "", p |-> FALSE] /\ hist = <<>> /\ done = FALSE
Does(a) == /\ Len(hist) < Depth /\ done' = FALSE
           /\ hist' = IF Depth < 1000 THEN Append(hist, a) ELSE hist

SetLevel(o, kind, n, name) ==
  /\ level' = [level EXCEPT ![o] = IF kind = "name" THEN ByName(name) ELSE n]
  /\ Does([op |-> "lvl", o |-> o, kind |-> kind, n |-> n, name |-> name])
  /\ UNCHANGED <<filter, shown>>
Switch(o) == /\ level' = [level EXCEPT ![o] = Switched(@)] /\ Does([op |-> "sw", o |-> o]) /\ UNCHANGED <<filter, shown>>
SetFilter(o, f) == /\ filter' = [filter EXCEPT ![o] = f] /\ Does([op |-> "flt", o |-> o, parts |-> f]) /\ UNCHANGED <<level, shown>>
Log(o, n, s) == /\ shown' = [o |-> o, n |-> n, s |-> s, p |-> Prints(level[o], filter[o], n, s)]
                /\ Does([op |-> "log", o |-> o, n |-> n, text |-> s]) /\ UNCHANGED <<level, filter>>
Finish == Len(hist) = Depth /\ ~done /\ done' = TRUE /\ UNCHANGED <<level, filter, shown, hist>>

Next == \/ \E o \in Objs :
             \/ \E n \in Levels, k \in {"int", "type", "printed"} : SetLevel(o, k, n, "")
             \/ \E s \in Names : SetLevel(o, "name", 0, s)
             \/ Switch(o)
             \/ \E f \in Filters : SetFilter(o, f)
             \/ \E n \in Loggers, s \in Texts : Log(o, n, s)
        \/ Finish
Spec == Init /\ [][Next]_vars

TypeOK == \A o \in Objs : level[o] \in Levels
(* printing depends on nothing but the level and the filter in force *)
Exact == [][shown' # shown =>
  LET o == shown'.o IN
  shown'.p <=> (shown'.n <= level[o] /\ (filter[o] = <<>> \/ \E i \in 1..Len(filter[o]) : Contains(shown'.s, filter[o][i])))]_vars
(* nothing is printed at level None; what a logger prints, one of a lower number would *)
Silent == shown.p => shown.n >= 1
Ordered == \A o \in Objs, s \in Texts, n, m \in Loggers :
             (n <= m /\ Prints(level[o], filter[o], m, s)) => Prints(level[o], filter[o], n, s)
(* one logger does not change another *)
Apart == [][\E o \in Objs : \A x \in Objs \ {o} : <<level[x], filter[x]>> = <<level'[x], filter'[x]>>]_vars
(* switching comes to every level and starts over *)
RECURSIVE After(_, _)
After(l, k) == IF k = 0 THEN l ELSE After(Switched(l), k - 1)
ASSUME \A l \in Levels : After(l, Top + 1) = l /\ {After(l, k) : k \in 0..Top} = Levels
ASSUME Contains("abc", "") /\ Contains("abc", "bc") /\ ~Contains("abc", "cb") /\ ~Contains("ab", "abc")

MCFilters == {<<>>, <<"zqa">>, <<"zqb", "zqab">>}
GenFilters == {<<>>, <<"zqa">>, <<"zqb", "zqab">>, <<"Zqa">>, <<"">>, <<"zq w", "yy">>, <<"yy", "">>, <<"zqab zq", "qqq">>}

Emit == done => PrintT("SCRIPT " \o ToJson(hist))
=============================================================================
