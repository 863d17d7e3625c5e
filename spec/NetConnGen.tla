----------------------------- MODULE NetConnGen -----------------------------
(* Behaviours of NetConn as scripts for the driver: what the environment does is
   kept in hist ("." : the endpoints went on in between).                        *)
EXTENDS NetConn, Json
CONSTANT Depth
VARIABLES hist, done

Does(a) == hist' = Append(hist, a) /\ done' = FALSE
Env == /\ Len(hist) < Depth
       /\ \/ \E i \in Conns : Dial(i) /\ Does([op |-> "dial", i |-> i])
          \/ Accept /\ Does([op |-> "accept"])
          \/ \E e \in Ends, n \in Lens : Write(e, n) /\ Does([op |-> "write", i |-> e[1], s |-> e[2], n |-> n])
          \/ \E e \in Ends, b \in Bufs : Read(e, b) /\ Does([op |-> "read", i |-> e[1], s |-> e[2], n |-> b])
Ending == /\ Len(hist) < Depth /\ Len(hist) > Depth \div 2
          /\ \/ \E e \in Ends : Close(e) /\ Does([op |-> "close", i |-> e[1], s |-> e[2]])
             \/ \E i \in Conns : Lost(i) /\ Does([op |-> "lost", i |-> i])
             \/ LClose /\ Does([op |-> "lclose"])
Within == /\ Len(hist) < Depth /\ done' = FALSE
          /\ \/ Accepted
             \/ \E e \in Ends : Returned(e)
             \/ \E p \in EPs : Hand(p)
          /\ hist' = IF hist # <<>> /\ hist[Len(hist)].op # "." THEN Append(hist, [op |-> "."]) ELSE hist
Finish == Len(hist) = Depth /\ ~done /\ done' = TRUE /\ UNCHANGED <<vars, hist>>
GInit == Init /\ hist = <<>> /\ done = FALSE
GNext == Env \/ Ending \/ Within \/ Finish
GSpec == GInit /\ [][GNext]_<<vars, hist, done>>
Emit == done => PrintT("SCRIPT " \o ToJson(hist))
BothWays == Ends
=============================================================================
