------------------------------ MODULE Delivery ------------------------------
(* Delivery callbacks: each message has a timeout and, when its last packet is
   acknowledged first, a success.

   The code: channel.go writeTo (the timer starts before the packet is in the send
   queue), packet.go SetDelivery (timer), tru.go serve case statusAck (off the
   queue, timer stopped, callback), the end of a connection (acknowledgements are
   not processed any more, timers go on).

   A message is its last packet here; its arrival at the peer, repeats and losses
   are nondeterministic (Stream has them in detail).                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS M,     \* messages
          Tmo    \* Tmo[m]: timeout in ticks

Msgs == 1..M
VARIABLES st,    \* new, armed (timer runs, not in the queue), sent (in the queue), acked, left (connection over), refused
          timer, \* ticks left, -1: does not run
          there, \* reached the peer
          acks,  \* acknowledgements on their way
          calls, \* what the callback was told
          over   \* the connection has ended

vars == <<st, timer, there, acks, calls, over>>

Init == /\ st = [m \in Msgs |-> "new"] /\ timer = [m \in Msgs |-> -1] /\ there = {} /\ acks = {}
        /\ calls = [m \in Msgs |-> <<>>] /\ over = FALSE

Call(m) == /\ st[m] = "new" /\ (\A k \in Msgs : k < m => st[k] \notin {"new", "armed"})
           /\ IF over THEN st' = [st EXCEPT ![m] = "refused"] /\ timer' = timer
              ELSE st' = [st EXCEPT ![m] = "armed"] /\ timer' = [timer EXCEPT ![m] = Tmo[m]]
           /\ UNCHANGED <<there, acks, calls, over>>
Queue(m) == st[m] = "armed" /\ st' = [st EXCEPT ![m] = "sent"] /\ UNCHANGED <<timer, there, acks, calls, over>>
Reach(m) == st[m] = "sent" /\ ~over /\ there' = there \cup {m} /\ acks' = acks \cup {m} /\ UNCHANGED <<st, timer, calls, over>>
\* an acknowledgement arrives, maybe again later
Ack(m, keep) == /\ m \in acks
                /\ acks' = IF keep THEN acks ELSE acks \ {m}
                /\ IF over \/ st[m] # "sent" THEN UNCHANGED <<st, timer, calls>>
                   ELSE /\ st' = [st EXCEPT ![m] = "acked"]
                        /\ timer' = [timer EXCEPT ![m] = -1]
                        /\ calls' = IF timer[m] >= 0 THEN [calls EXCEPT ![m] = Append(@, "ok")] ELSE calls
                /\ UNCHANGED <<there, over>>
Lose(m) == m \in acks /\ acks' = acks \ {m} /\ UNCHANGED <<st, timer, there, calls, over>>
Fire(m) == /\ timer[m] = 0
           /\ timer' = [timer EXCEPT ![m] = -1] /\ calls' = [calls EXCEPT ![m] = Append(@, "timeout")]
           /\ UNCHANGED <<st, there, acks, over>>
End == ~over /\ over' = TRUE /\ UNCHANGED <<st, timer, there, acks, calls>>
Tick == /\ \A m \in Msgs : timer[m] # 0
        /\ \E m \in Msgs : timer[m] > 0
        /\ timer' = [m \in Msgs |-> IF timer[m] > 0 THEN timer[m] - 1 ELSE timer[m]]
        /\ UNCHANGED <<st, there, acks, calls, over>>

Next == (\E m \in Msgs : Call(m) \/ Queue(m) \/ Reach(m) \/ Lose(m) \/ Fire(m) \/ (\E k \in BOOLEAN : Ack(m, k))) \/ End \/ Tick
Spec == Init /\ [][Next]_vars /\ WF_vars(Tick) /\ \A m \in Msgs : WF_vars(Fire(m)) /\ WF_vars(Call(m)) /\ WF_vars(Queue(m))

(* C04 *)
AtMostOnce == \A m \in Msgs : Len(calls[m]) <= 1
SuccessTrue == \A m \in Msgs : (calls[m] = <<"ok">>) => m \in there
RefusedNone == \A m \in Msgs : st[m] = "refused" => calls[m] = <<>>
ExactlyOnce == \A m \in Msgs : (st[m] = "armed") ~> (Len(calls[m]) = 1)
MCTmo == <<0, 2, 3>>
=============================================================================
