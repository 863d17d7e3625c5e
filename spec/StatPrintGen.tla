---------------------------- MODULE StatPrintGen ----------------------------
(* Behaviours of StatPrint as scripts: the order of starts and stops and of the
   steps of the frames.                                                        *)
EXTENDS StatPrint, Sequences, TLC, Json
CONSTANT Depth
VARIABLES hist, done
Does(a) == hist' = Append(hist, a) /\ done' = FALSE
Rare == RandomElement({x \in 1..6 : Len(hist) >= 0}) = 1
Calm == \A g \in G : st[g] = "none"
Over == Len(hist) >= Depth \/ (closed /\ Calm)
GStep == /\ ~Over
         /\ \/ (Rare \/ Calm) /\ Start /\ Does([op |-> "start"])
            \/ (Rare \/ Calm) /\ Stop /\ Does([op |-> "stop"])
            \/ Rare /\ Len(hist) > Depth \div 2 /\ Close /\ Does([op |-> "close"])
            \/ \E g \in G : \/ Fire(g) /\ Does([op |-> "fire", g |-> g])
                            \/ Ready(g) /\ Does([op |-> "ready", g |-> g])
                            \/ (Show(g) \/ Again(g)) /\ UNCHANGED hist /\ done' = FALSE
Finish == Over /\ ~done /\ done' = TRUE /\ UNCHANGED <<vars, hist>>
GInit == Init /\ hist = <<>> /\ done = FALSE
GSpec == GInit /\ [][GStep \/ Finish]_<<vars, hist, done>>
Emit == done => PrintT("SCRIPT " \o ToJson(hist))
=============================================================================
