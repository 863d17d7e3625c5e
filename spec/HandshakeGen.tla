---------------------------- MODULE HandshakeGen ----------------------------
(* Behaviours of Handshake as scripts for the driver: calls, arrivals (the
   packet stays in the network and may arrive again), the passing of time.
   What the endpoints do by themselves (timeouts, silence) is left to them.      *)
EXTENDS Handshake, Json
CONSTANT Depth
VARIABLES hist, done

Does(a) == hist' = Append(hist, a) /\ done' = FALSE
Same == UNCHANGED hist /\ done' = FALSE
\* a repeat that the receiver has already dealt with is of interest now and then only
Fresh(p) == \/ p.k = "C1" /\ acc[p.u].st = "none"
            \/ p.k = "C2" /\ att[p.u].st = "sent"
            \/ p.k = "C3" /\ acc[p.u].st = "open"
            \/ p.k = "C4" /\ att[p.u].st = "ans"
Often(n) == RandomElement({x \in 1..n : Len(hist) >= 0}) = 1
GNextA == /\ Len(hist) < Depth
          /\ \/ \E u \in U : Often(3) /\ Cardinality({v \in U : Waiting(v)}) < 2 /\ (\A v \in U : Owner[v] = Owner[u] /\ v < u => att[v].st # "new")
                            /\ Call(u) /\ Does([op |-> "call", u |-> u])
             \/ \E u \in U : Timeout(u) /\ Same
             \/ \E e \in Ends : Silent(e) /\ Same
             \/ \E p \in net : (IF Fresh(p) THEN TRUE ELSE Often(4)) /\ Recv(p) /\ Does([op |-> "recv", k |-> p.k, u |-> p.u])
             \/ \E p \in net : (IF Fresh(p) THEN Often(6) ELSE TRUE) /\ Lose(p) /\ Same
             \/ (IF net = {} THEN TRUE ELSE Often(2)) /\ Tick /\ Does([op |-> "tick"])
Finish == Len(hist) = Depth /\ ~done /\ done' = TRUE /\ UNCHANGED <<vars, hist>>
GInit == Init /\ hist = <<>> /\ done = FALSE
GSpec == GInit /\ [][GNextA \/ Finish]_<<vars, hist, done>>
Emit == done => PrintT("SCRIPT " \o ToJson(hist))
Owners == <<"A", "B", "A", "A", "B">>
OwnersA == <<"A", "A", "A">>
=============================================================================
