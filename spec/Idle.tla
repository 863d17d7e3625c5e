-------------------------------- MODULE Idle --------------------------------
(* An established connection between the side that connected (A) and the other
   one (B): probes, answers, silence.

   The code: statistic.go checkActivity, tru.go serve (ping, pong, and every other
   packet sets the time of last activity), channel.go newChannel (A probes).

   The unit of time is half a second, the period of the check.  What happens
   within a unit happens before the checks at its end.                           *)
EXTENDS Integers, FiniteSets, TLC

CONSTANTS PingAfter,  \* 8: an idle peer is probed
          EndAfter,   \* 12: a silent one is given up
          D,          \* packets arrive within D units or not at all
          Cuts,       \* how often the network changes
          Talks,      \* how often the application sends
          LoseOne     \* how many single packets may be lost while the network works

Ends == {"A", "B"}
Peer(e) == IF e = "A" THEN "B" ELSE "A"

VARIABLES open,   \* per end
          quiet,  \* units since the last packet heard
          net,    \* packets on their way: [to, k, age]
          works,  \* per end: packets to it get through
          cuts, talks, lost,
          checked, \* ends whose check of this unit is done
          good,   \* the network always worked
          reason  \* how an end ended

vars == <<open, quiet, net, works, cuts, talks, lost, checked, good, reason>>

Init == /\ open = [e \in Ends |-> TRUE] /\ quiet = [e \in Ends |-> 0] /\ net = {}
        /\ works = [e \in Ends |-> TRUE] /\ cuts = 0 /\ talks = 0 /\ lost = 0
        /\ checked = {} /\ good = TRUE /\ reason = [e \in Ends |-> ""]

Put(n, to, k) == IF works[to] THEN n \cup {[to |-> to, k |-> k, age |-> 0]} ELSE n

Arrive(p) ==
  /\ p \in net /\ checked = {}
  /\ IF open[p.to]
     THEN /\ quiet' = [quiet EXCEPT ![p.to] = 0]
          /\ net' = IF p.k \in {"ping", "data"} THEN Put(net \ {p}, Peer(p.to), IF p.k = "ping" THEN "pong" ELSE "ack") ELSE net \ {p}
     ELSE quiet' = quiet /\ net' = net \ {p}
  /\ UNCHANGED <<open, works, cuts, talks, lost, checked, good, reason>>

Lose == /\ lost < LoseOne /\ checked = {}
        /\ \E p \in net : net' = net \ {p}
        /\ lost' = lost + 1
        /\ UNCHANGED <<open, quiet, works, cuts, talks, checked, good, reason>>

Talk(e) == /\ talks < Talks /\ open[e] /\ checked = {}
           /\ talks' = talks + 1 /\ net' = Put(net, Peer(e), "data")
           /\ UNCHANGED <<open, quiet, works, cuts, lost, checked, good, reason>>

Change == /\ cuts < Cuts /\ checked = {}
          /\ cuts' = cuts + 1 /\ good' = FALSE
          /\ \E w \in [Ends -> BOOLEAN] : works' = w /\ net' = {p \in net : w[p.to]}
          /\ UNCHANGED <<open, quiet, talks, lost, checked, reason>>

(* the end of a unit: packets that must have arrived by now have; both ends check *)
Due == \A p \in net : p.age < D
Check(e) ==
  /\ Due /\ e \notin checked
  /\ checked' = checked \cup {e}
  /\ open' = [open EXCEPT ![e] = @ /\ quiet[e] <= EndAfter]
  /\ reason' = [reason EXCEPT ![e] = IF open[e] /\ quiet[e] > EndAfter THEN "silence" ELSE @]
  /\ net' = IF open[e] /\ e = "A" /\ quiet[e] > PingAfter /\ quiet[e] <= EndAfter THEN Put(net, Peer(e), "ping") ELSE net
  /\ UNCHANGED <<quiet, works, cuts, talks, lost, good>>

Tick == /\ checked = Ends
        /\ checked' = {}
        /\ quiet' = [e \in Ends |-> IF open[e] THEN quiet[e] + 1 ELSE 0]
        /\ net' = {[p EXCEPT !.age = @ + 1] : p \in net}
        /\ UNCHANGED <<open, works, cuts, talks, lost, good, reason>>

Next == (\E p \in net : Arrive(p)) \/ Lose \/ (\E e \in Ends : Talk(e) \/ Check(e)) \/ Change \/ Tick
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

TypeOK == \A e \in Ends : quiet[e] \in 0..(EndAfter + 2)
(* C08: an idle connection stays while packets get through *)
Stays == good => (open["A"] /\ open["B"])
(* C08: ended by silence only after EndAfter units without a packet, and then at once *)
NotEarly == [][\A e \in Ends : (open[e] /\ ~open'[e]) => quiet[e] > EndAfter]_vars
NotLate == \A e \in Ends : open[e] => quiet[e] <= EndAfter + 1
(* when one side has ended by silence and nothing gets to the other, it ends too *)
BothEnd == (~open["A"]) ~> (~open["B"])
=============================================================================
