----------------------------- MODULE MenuTrace -----------------------------
(* Decides recorded uses of the menu of an endpoint.
     key key code live ready typed    a key, and the line typed when it asks for one
     own key                          a function of the application ran
     told ch closed                   the endpoint's reader is told of an end
     obs level filter stat printed shows    what is set, which loggers print, what was shown
     level n   filter parts   print on   run   minilog now   add key    the application's calls
     exit rc                          the process ended by itself                              *)
EXTENDS TraceBase, MenuOps
VARIABLES m,
          before,    \* the menu as it was when the key was pressed
          key,       \* "" or the key whose effect was not observed yet, and what it shows
          ran,       \* the application's function ran
          told       \* what the readers were told: <<endpoint closed, connection ended>>
vars == <<tr, l, m, before, key, ran, told>>
NoKey == [key |-> "", code |-> ""]
Init == /\ TraceInit /\ m = Menu(Cf.level, Cf.filter, Cf.stat)
        /\ before = m /\ key = NoKey /\ ran = FALSE /\ told = <<0, 0>>

Press == /\ Is("key") /\ m.end = ""
         /\ m.running => Ev.ready
         /\ Ev.live = m.running
         /\ IF m.running
            THEN \E b \in Back(m) :
                   before' = b /\ m' = Key(b, Ev.key, Ev.typed) /\ key' = [key |-> Ev.key, code |-> Ev.code]
            ELSE UNCHANGED <<m, before, key>>
         /\ ran' = FALSE /\ UNCHANGED told
Own == /\ Is("own") /\ key.key = Ev.key /\ Ev.key \in m.own /\ ~ran
       /\ ran' = TRUE /\ UNCHANGED <<m, before, key, told>>
Told == /\ Is("told") /\ m.end = "quit"
        /\ IF Ev.closed THEN ~Ev.ch /\ told[1] = 0 /\ told' = <<1, told[2]>>
           ELSE Ev.ch /\ told[2] = 0 /\ told' = <<told[1], 1>>
        /\ UNCHANGED <<m, before, key, ran>>
Prints == {i \in 1..8 : T!Prints(m.level, m.filter, i, Ev.probe \o "-" \o ToString(i) \o ".")}
Obs == /\ Is("obs") /\ m.end = ""
       /\ Ev.level = m.level /\ Ev.filter = m.filter /\ Ev.stat = m.stat
       /\ {Ev.printed[i] : i \in 1..Len(Ev.printed)} = Prints
       /\ {Ev.shows[i] : i \in 1..Len(Ev.shows)} = (IF key.key = "" THEN {} ELSE Shows(before, m, key.key, key.code))
       /\ ran = (key.key \in m.own)
       /\ key' = NoKey /\ ran' = FALSE /\ UNCHANGED <<m, before, told>>
Level == Is("level") /\ m' = SetLevel(m, Ev.n) /\ UNCHANGED <<before, key, ran, told>>
Filter == Is("filter") /\ m' = SetFilter(m, Ev.parts) /\ UNCHANGED <<before, key, ran, told>>
Prt == Is("print") /\ m' = Printing(m, Ev.on) /\ UNCHANGED <<before, key, ran, told>>
Runs == Is("run") /\ m' = Run(m) /\ UNCHANGED <<before, key, ran, told>>
Mini == Is("minilog") /\ m' = [m EXCEPT !.mini = ~@] /\ Ev.now = m'.mini /\ UNCHANGED <<before, key, ran, told>>
Adds == Is("add") /\ m' = [m EXCEPT !.own = @ \cup {Ev.key}] /\ UNCHANGED <<before, key, ran, told>>
Exit == Is("exit") /\ m.end = "quit" /\ Ev.rc = 0 /\ told = <<1, 1>> /\ UNCHANGED <<m, before, key, ran, told>>
Z == Is("Z") /\ m.end = "" /\ key = NoKey /\ UNCHANGED <<m, before, key, ran, told>>
Next == Press \/ Own \/ Told \/ Obs \/ Level \/ Filter \/ Prt \/ Runs \/ Mini \/ Adds \/ Exit \/ Z
Spec == Init /\ [][Next]_vars
=============================================================================
