----------------------------- MODULE TeologTrace -----------------------------
(* Decides recorded uses of loggers against module Teolog.
     lvl o kind n name now out    sw o ret now out    flt o parts out   flags o out
     log o n text len count whole
     conc o tasks now flt    several goroutines at once: sw (times), lvl (ns), flt
       (fs), log (n text times count); afterwards the level and the filter        *)
EXTENDS TraceBase
T == INSTANCE Teolog
VARIABLES level, filter
vars == <<tr, l, level, filter>>
Init == TraceInit /\ level = [o \in 1..Cf.objs |-> 0] /\ filter = [o \in 1..Cf.objs |-> <<>>]

Level == /\ Is("lvl") /\ Ev.out = 0
         /\ level' = [level EXCEPT ![Ev.o] = IF Ev.kind = "name" THEN T!ByName(Ev.name) ELSE Ev.n]
         /\ Ev.now = level'[Ev.o] /\ UNCHANGED filter
Switch == /\ Is("sw") /\ Ev.out = 0
          /\ level' = [level EXCEPT ![Ev.o] = T!Switched(@)]
          /\ Ev.ret = level'[Ev.o] /\ Ev.now = level'[Ev.o] /\ UNCHANGED filter
Filter == Is("flt") /\ Ev.out = 0 /\ filter' = [filter EXCEPT ![Ev.o] = Ev.parts] /\ UNCHANGED level
Flags == Is("flags") /\ Ev.out = 0 /\ UNCHANGED <<level, filter>>
Log == /\ Is("log")
       /\ IF T!Prints(level[Ev.o], filter[Ev.o], Ev.n, Ev.text) THEN Ev.count = 1 /\ Ev.whole ELSE Ev.len = 0
       /\ UNCHANGED <<level, filter>>
(* every call takes effect at one moment: the level is one that was set, switched on at most
   as often as calls were made; the filter is one that was set; a message is printed each time if
   every level and filter there was lets it through, and never if none does                        *)
Tasks(k) == {i \in 1..Len(Ev.tasks) : Ev.tasks[i].op = k}
Elems(s) == {s[i] : i \in 1..Len(s)}
RECURSIVE Sum(_)
Sum(S) == IF S = {} THEN 0 ELSE LET i == CHOOSE i \in S : TRUE IN Ev.tasks[i].times + Sum(S \ {i})
Conc == LET steps == Sum(Tasks("sw"))
            set == UNION {Elems(Ev.tasks[i].ns) : i \in Tasks("lvl")}
            levs == IF steps > 0 THEN T!Levels ELSE set \cup {level[Ev.o]}
            last == IF set = {} THEN {(level[Ev.o] + steps) % 9} ELSE IF steps > 0 THEN T!Levels ELSE set
            fset == UNION {Elems(Ev.tasks[i].fs) : i \in Tasks("flt")}
            flts == fset \cup {filter[Ev.o]}
        IN
        /\ Is("conc")
        /\ Ev.now \in last /\ level' = [level EXCEPT ![Ev.o] = Ev.now]
        /\ Ev.flt \in (IF fset = {} THEN flts ELSE fset) /\ filter' = [filter EXCEPT ![Ev.o] = Ev.flt]
        /\ \A i \in Tasks("log") :
             LET t == Ev.tasks[i] IN
             /\ t.count <= t.times
             /\ (\A v \in levs, f \in flts : T!Prints(v, f, t.n, t.text)) => t.count = t.times
             /\ (\A v \in levs, f \in flts : ~T!Prints(v, f, t.n, t.text)) => t.count = 0
Z == Is("Z") /\ UNCHANGED <<level, filter>>
Next == Level \/ Switch \/ Filter \/ Flags \/ Log \/ Conc \/ Z
Spec == Init /\ [][Next]_vars
=============================================================================
