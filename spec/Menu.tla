-------------------------------- MODULE Menu --------------------------------
(* The menu of an endpoint and an application that uses the endpoint too.      *)
EXTENDS MenuOps, Json
CONSTANTS Keys, Typed, Filters, Depth

VARIABLES m, want,  \* the level someone chose last
          hist, done
vars == <<m, want, hist, done>>
Init == m = Menu(3, <<>>, FALSE) /\ want = 3 /\ hist = <<>> /\ done = FALSE

Does(a) == Len(hist) < Depth /\ done' = FALSE /\ hist' = IF Depth < 1000 THEN Append(hist, a) ELSE hist
Press(k, t) ==
  /\ m.end = ""
  /\ IF ~m.running
     THEN UNCHANGED <<m, want>> /\ Does([op |-> "key", key |-> k, live |-> FALSE, typed |-> t])
     ELSE /\ \E b \in Back(m) :
               LET n == Key(b, k, t) IN
               /\ m' = n
               /\ want' = IF k \in {"l", "^L"} THEN n.level ELSE IF m.pend # {} THEN b.level ELSE want
          /\ Does([op |-> "key", key |-> k, live |-> TRUE, typed |-> t])
Typing == {[name |-> t, parts |-> f] : t \in Typed, f \in Filters}
None == [name |-> "", parts |-> <<>>]
App == /\ m.end = ""
       /\ \/ \E n \in T!Levels : m' = SetLevel(m, n) /\ want' = n /\ Does([op |-> "level", n |-> n])
          \/ \E f \in Filters : m' = SetFilter(m, f) /\ Does([op |-> "filter", parts |-> f]) /\ UNCHANGED want
          \/ \E b \in BOOLEAN : m' = Printing(m, b) /\ Does([op |-> "print", on |-> b]) /\ UNCHANGED want
          \/ m' = Run(m) /\ Does([op |-> "run"]) /\ UNCHANGED want
Finish == (Len(hist) = Depth \/ m.end # "") /\ ~done /\ done' = TRUE /\ UNCHANGED <<m, want, hist>>
Next == \/ \E k \in Keys : IF k \in {"^L", "f"} THEN \E t \in Typing : Press(k, t) ELSE Press(k, None)
        \/ App \/ Finish
Spec == Init /\ [][Next]_vars

(* scripts: mostly keys *)
Now(S) == {x \in S : Len(hist) >= 0}
GenNext == \/ \E i \in 1..6 : LET k == RandomElement(Now(Keys \ {"q", "^C"})) IN Press(k, IF k \in {"^L", "f"} THEN RandomElement(Now(Typing)) ELSE None)
           \/ Press(RandomElement(Now(Keys)), None) /\ hist'[Len(hist')].key \notin {"^L", "f"}
           \/ m.end = "" /\ RandomElement(Now(1..2)) = 1 /\
              (LET n == RandomElement(Now(T!Levels)) IN m' = SetLevel(m, n) /\ want' = n /\ Does([op |-> "level", n |-> n]))
           \/ m.end = "" /\ RandomElement(Now(1..2)) = 1 /\
              (LET f == RandomElement(Now(Filters)) IN m' = SetFilter(m, f) /\ Does([op |-> "filter", parts |-> f]) /\ UNCHANGED want)
           \/ m.end = "" /\ RandomElement(Now(1..3)) = 1 /\
              (LET b == RandomElement(Now(BOOLEAN)) IN m' = Printing(m, b) /\ Does([op |-> "print", on |-> b]) /\ UNCHANGED want)
           \/ \E i \in 1..(IF m.running THEN 1 ELSE 4) : m.end = "" /\ m' = Run(m) /\ Does([op |-> "run"]) /\ UNCHANGED want
           \/ Finish
GenSpec == Init /\ [][GenNext]_vars

TypeOK == m.level \in T!Levels /\ m.pend \subseteq T!Levels /\ m.end \in {"", "quit"}
(* the log is stopped only while a screen is shown, and then goes on as it was *)
Goes == m.pend = {} => m.level = want
Kept == m.pend # {} => want \in m.pend
(* a menu that was stopped takes no key *)
Stopped == [][(~m.running /\ m'.mini # m.mini) => FALSE]_vars
(* nothing but q ends the process *)
Quit == [][m'.end # m.end => m.running]_vars
Emit == done => PrintT("SCRIPT " \o ToJson(hist))
MCFilters == {<<>>, <<"a">>}
GenFilters == {<<>>, <<"zqa">>, <<"zqa-3.", "zqa-5.">>, <<"no">>, <<"no", "probe">>, <<"zqa-1.">>, <<"ZQA">>}
=============================================================================
