----------------------------- MODULE StreamGen -----------------------------
(* Behaviours of Stream as scripts for the driver: messages sent, data packets
   and acknowledgements that arrive in the order the model chooses, once or more
   often.  Packets are sent again by the code itself; the network of the script
   lets only the chosen copies through.                                          *)
EXTENDS Stream, TLC, Json
CONSTANT Depth
VARIABLES hist, done

Does(a) == hist' = Append(hist, a) /\ done' = FALSE
Often(n) == RandomElement({x \in 1..n : Len(hist) >= 0}) = 1
GStep == /\ Len(hist) < Depth
         /\ \/ Send /\ Does([op |-> "send", n |-> Sizes[msg + 1]])
            \/ \E d \in data, k \in BOOLEAN : (IF d.abs = got THEN TRUE ELSE Often(3)) /\ RecvData(d, k) /\ Does([op |-> "data", n |-> d.abs])
            \/ \E a \in acks, k \in BOOLEAN : (IF a \in unack THEN Often(2) ELSE Often(5)) /\ RecvAck(a, k) /\ Does([op |-> "ack", n |-> a])
            \/ Often(4) /\ Lose /\ UNCHANGED hist /\ done' = FALSE
            \/ \E a \in unack : ResendOne(a) /\ [abs |-> a, s |-> Split(a)] \notin data /\ Does([op |-> "again", n |-> a])
Finish == Len(hist) = Depth /\ ~done /\ done' = TRUE /\ UNCHANGED <<vars, hist>>
GInit == Init /\ hist = <<>> /\ done = FALSE
GSpec == GInit /\ [][GStep \/ Finish]_<<vars, hist, done>>
Emit == done => PrintT("SCRIPT " \o ToJson(hist))
SizesG == <<1, 2, 1, 1, 3, 1, 2, 1, 1, 1, 4, 1, 2, 1, 1, 1, 1, 2>>
=============================================================================
