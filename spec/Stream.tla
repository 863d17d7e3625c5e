------------------------------- MODULE Stream -------------------------------
(* One direction of a connection: messages of one or more packets, numbered
   modulo N, over a network that loses, repeats and reorders.

   The code: channel.go writeTo/newID/sendWindow (Send), send_queue.go
   retransmit (Resend), tru.go serve case statusData (RecvData: acknowledge,
   then drop, buffer or hand over) and case statusAck (RecvAck).

   The absolute number abs of a packet exists only in the model; the code sees
   id = abs % N.  Copies of packets do not live in the network for half a
   number range (Alive): assumption about the network, needed by any protocol
   that reuses numbers.                                                        *)
EXTENDS StreamOps, Sequences

CONSTANTS N,        \* size of the number range
          Sizes,    \* packets of each message, in the order of the calls
          Window    \* TRUE: the sender respects the window (the code does)

VARIABLES msg,      \* messages sent so far
          sent,     \* packets sent so far (absolute number of the next one)
          unack,    \* absolute numbers sent and not acknowledged
          data,     \* data packets in the network: [abs, s]
          acks,     \* acknowledgements in the network: abs
          rcv,      \* receiving end
          got,      \* packets taken in order so far: the next is number got
          placed    \* every packet that arrived was given its true place

vars == <<msg, sent, unack, data, acks, rcv, got, placed>>

(* repeats may arrive without end: the number of drops is not part of the state *)
View == <<msg, sent, unack, data, acks, [rcv EXCEPT !.drop = 0], got, placed>>

Packets == LET RECURSIVE Sum(_) Sum(k) == IF k = 0 THEN 0 ELSE Sizes[k] + Sum(k - 1) IN Sum(Len(Sizes))
Ends == LET RECURSIVE E(_, _) E(k, a) == IF k > Len(Sizes) THEN {} ELSE {a + Sizes[k] - 1} \cup E(k + 1, a + Sizes[k]) IN E(1, 0)
Split(a) == IF a \in Ends THEN 0 ELSE 1

Init == /\ msg = 0 /\ sent = 0 /\ unack = {} /\ data = {} /\ acks = {}
        /\ rcv = RcvInit /\ got = 0 /\ placed = TRUE

Oldest == CHOOSE a \in unack : \A b \in unack : a <= b
Alive(a, s) == s - a < N \div 2

(* A whole message is sent under the write lock; its packets leave one by one,
   but no other message's packets come between them.                          *)
Send == /\ msg < Len(Sizes)
        /\ LET k == Sizes[msg + 1] IN
           /\ IF Window /\ unack # {} THEN sent + k - Oldest <= N \div 2 ELSE TRUE
           /\ msg' = msg + 1
           /\ sent' = sent + k
           /\ unack' = unack \cup sent..(sent + k - 1)
           /\ data' = {d \in data : Alive(d.abs, sent + k)} \cup {[abs |-> a, s |-> Split(a)] : a \in sent..(sent + k - 1)}
           /\ acks' = {a \in acks : Alive(a, sent + k)}
        /\ UNCHANGED <<rcv, got, placed>>

ResendOne(a) == /\ a \in unack
                /\ data' = data \cup {[abs |-> a, s |-> Split(a)]}
                /\ UNCHANGED <<msg, sent, unack, acks, rcv, got, placed>>
Resend == \E a \in unack : ResendOne(a)

(* the packet stays in the network (a copy may arrive again) or not *)
RecvData(d, keep) ==
  /\ d \in data
  /\ data' = IF keep THEN data ELSE data \ {d}
  /\ acks' = acks \cup {d.abs}
  /\ rcv' = Arrive(N, rcv, d.abs % N, d.s)
  \* the end takes it for packet got + Dist
  /\ placed' = (placed /\ d.abs = got + Dist(N, rcv.next, d.abs % N))
  /\ got' = got + ((rcv'.next - rcv.next + N) % N)
  /\ UNCHANGED <<msg, sent, unack>>

RecvAck(a, keep) ==
  /\ a \in acks
  /\ acks' = IF keep THEN acks ELSE acks \ {a}
  \* the code sees only the number: whatever is outstanding under it is taken off
  /\ unack' = {b \in unack : b % N # a % N}
  /\ UNCHANGED <<msg, sent, data, rcv, got, placed>>

Lose == \/ \E d \in data : data' = data \ {d} /\ UNCHANGED <<msg, sent, unack, acks, rcv, got, placed>>
        \/ \E a \in acks : acks' = acks \ {a} /\ UNCHANGED <<msg, sent, unack, data, rcv, got, placed>>

Next == \/ Send \/ Resend \/ Lose
        \/ \E d \in data, k \in BOOLEAN : RecvData(d, k)
        \/ \E a \in acks, k \in BOOLEAN : RecvAck(a, k)

Spec == Init /\ [][Next]_vars

(* what is assumed of the network for progress: a packet sent again and again
   arrives in the end (one step for send-and-arrive keeps fairness simple)     *)
GoodData(a) == a \in unack /\ RecvData([abs |-> a, s |-> Split(a)], FALSE)
GoodAck(a) == RecvAck(a, FALSE)
Live == /\ WF_vars(Send)
        /\ \A a \in 0..Packets : WF_vars(ResendOne(a)) /\ SF_vars(GoodData(a)) /\ SF_vars(GoodAck(a))
LiveSpec == Spec /\ Live

TypeOK == /\ msg \in 0..Len(Sizes) /\ sent \in 0..Packets /\ unack \subseteq 0..Packets
          /\ rcv.next \in 0..N-1 /\ rcv.due \in 0..Len(Sizes)

(* C01, C13: what is handed on is 0, 1, 2, ...: every packet is taken for the
   one it is, and is handed on when its place is reached                       *)
InOrder == placed /\ rcv.next = got % N
(* C02: a message is handed over when all its packets are, never earlier *)
Whole == rcv.due = Cardinality({e \in Ends : e < got})
(* C13: numbers in use never span half of the range *)
WindowOK == Window => \A a \in unack : sent - a <= N \div 2
(* C03, C04: what the sender takes for acknowledged has reached the receiver *)
AckTrue == \A a \in 0..(sent - 1) : a \in unack \/ a < got \/ \E p \in rcv.buf : p.id = a % N
(* C03: what is not acknowledged is still in the send queue, and in the end
   everything accepted is delivered *)
AllDelivered == <>[](got = Packets /\ rcv.due = Len(Sizes) /\ unack = {})
=============================================================================
