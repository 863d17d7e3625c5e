------------------------------ MODULE Counters ------------------------------
(* What the statistic counts, next to what happened (Stream).  The counters are
   kept where the code keeps them: statistic.go set*, at the place in tru.go serve,
   channel.go writeTo and send_queue.go where the event is dealt with.            *)
EXTENDS Stream
CONSTANT Most   \* bound on repeats and arrivals
VARIABLES csent, crep, cack, cackd, crecv, arr, aarr, first
cvars == <<csent, crep, cack, cackd, crecv, arr, aarr, first>>

CInit == Init /\ csent = 0 /\ crep = 0 /\ cack = 0 /\ cackd = 0 /\ crecv = 0 /\ arr = 0 /\ aarr = 0 /\ first = {}
CSend == Send /\ csent' = csent + 1 /\ UNCHANGED <<crep, cack, cackd, crecv, arr, aarr, first>>
CResend == /\ crep < Most
           /\ \E a \in unack : ResendOne(a)
           /\ crep' = crep + 1 /\ UNCHANGED <<csent, cack, cackd, crecv, arr, aarr, first>>
CData == /\ arr < Most
         /\ \E d \in data, k \in BOOLEAN : RecvData(d, k) /\ first' = first \cup {d.abs}
         /\ crecv' = crecv + (rcv'.due - rcv.due) /\ arr' = arr + 1
         /\ UNCHANGED <<csent, crep, cack, cackd, aarr>>
CAck == /\ aarr < Most
        /\ \E a \in acks, k \in BOOLEAN : /\ RecvAck(a, k)
                                          /\ IF a \in unack THEN cack' = cack + 1 /\ cackd' = cackd ELSE cackd' = cackd + 1 /\ cack' = cack
        /\ aarr' = aarr + 1 /\ UNCHANGED <<csent, crep, crecv, arr, first>>
CLose == Lose /\ UNCHANGED cvars
CNext == CSend \/ CResend \/ CData \/ CAck \/ CLose
CSpec == CInit /\ [][CNext]_<<vars, cvars>>

(* C12 *)
SentTold == csent = msg
AckTold == cack + Cardinality(unack) = sent /\ cack + cackd = aarr
RecvTold == crecv = rcv.due /\ crecv <= csent
DropTold == rcv.drop + Cardinality(first) = arr
QueueTold == Cardinality(first) = got + Cardinality(rcv.buf)
CSizes == <<1, 2, 1>>
=============================================================================
