------------------------------ MODULE IdleGen ------------------------------
(* Behaviours of Idle as scripts for the driver: when the network stops and
   starts to work in which direction, when the application sends, which single
   packets are lost.  Probes, answers and the ends are the code's own business.  *)
EXTENDS Idle, Sequences, Json
CONSTANTS Depth, Pace
VARIABLES hist, done

Does(a) == hist' = Append(hist, a) /\ done' = FALSE
Same == UNCHANGED hist /\ done' = FALSE
Often(n) == RandomElement({x \in 1..n : Len(hist) >= 0 /\ checked = checked}) = 1
Over == Len(hist) >= Depth \/ \A e \in Ends : ~open[e]
GStep == /\ ~Over
         /\ \/ \E p \in net : Arrive(p) /\ Same
            \/ \E e \in Ends : Check(e) /\ Same
            \/ Tick /\ Does([op |-> "tick"])
            \/ Often(Pace) /\ Change /\ works' # works /\ Does([op |-> "works", a |-> works'["A"], b |-> works'["B"]])
            \/ \E e \in Ends : Often(Pace) /\ Talk(e) /\ Does([op |-> "talk", e |-> e])
            \/ /\ Often(4) /\ lost < LoseOne /\ checked = {}
               /\ \E p \in net : /\ net' = net \ {p} /\ Does([op |-> "lose", k |-> p.k, to |-> p.to])
               /\ lost' = lost + 1 /\ UNCHANGED <<open, quiet, works, cuts, talks, checked, good, reason>>
Finish == Over /\ ~done /\ done' = TRUE /\ UNCHANGED <<vars, hist>>
GInit == Init /\ hist = <<>> /\ done = FALSE
GSpec == GInit /\ [][GStep \/ Finish]_<<vars, hist, done>>
Emit == done => PrintT("SCRIPT " \o ToJson(hist))
=============================================================================
