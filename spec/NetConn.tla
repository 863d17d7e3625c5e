------------------------------- MODULE NetConn -------------------------------
(* Stream connections and listeners (tru_net.go) on top of connections that
   deliver messages in order (module Stream).

   One listening endpoint "L" and dialled connections 1..K, each from an endpoint
   of its own.  The reader goroutine of an endpoint takes one message at a time
   from the endpoint's queue and puts it into the queue of its connection; that
   queue has room for Cap messages (the code: no limit, Cap = K of messages).
   A message is a number of bytes.  A read that meets a message takes what fits;
   a message read to its end is followed by one end-of-file.                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS K,        \* connections
          Lens,     \* message lengths
          Bufs,     \* read buffer sizes
          Max,      \* messages per end
          Writing,  \* ends that write
          Calls,    \* accepts
          Cap,      \* messages the queue of a connection holds
          Readers   \* reads that may wait on one end

Conns == 1..K
Side == {"d", "a"}                    \* dialling, accepting
Ends == Conns \X Side
Peer(e) == <<e[1], IF e[2] = "d" THEN "a" ELSE "d">>
At(e) == IF e[2] = "a" THEN 0 ELSE e[1]     \* endpoint: 0 is the listening one
EPs == {0} \cup Conns

VARIABLES up,       \* connections dialled
          accq,     \* connected, not accepted
          open,     \* ends the application holds (dialled, accepted)
          wait,     \* accepts waiting
          accepts,  \* results of accepts: connection or "err"
          lclosed,
          rq,       \* per endpoint: messages on their way to the connections
          cq,       \* per end: messages received and not yet begun to read
          cur,      \* per end: the message being read: [left, eof: end-of-file is due]
          rd,       \* per end: sizes of the buffers of the waiting reads
          closed,   \* ends that were closed here or whose channel has ended
          wr,       \* per end: lengths written
          seen      \* per end: what reads returned: [k: messages ended, off: bytes of the next]

vars == <<up, accq, open, wait, accepts, lclosed, rq, cq, cur, rd, closed, wr, seen>>

NoCur == [left |-> 0, eof |-> FALSE]
Init == /\ up = {} /\ accq = <<>> /\ open = {} /\ wait = 0 /\ accepts = <<>> /\ lclosed = FALSE
        /\ rq = [p \in EPs |-> <<>>]
        /\ cq = [e \in Ends |-> <<>>] /\ cur = [e \in Ends |-> NoCur] /\ rd = [e \in Ends |-> <<>>]
        /\ closed = {} /\ wr = [e \in Ends |-> <<>>] /\ seen = [e \in Ends |-> [k |-> 0, off |-> 0]]

Dial(i) == /\ i \notin up /\ ~lclosed
           /\ up' = up \cup {i} /\ accq' = Append(accq, i) /\ open' = open \cup {<<i, "d">>}
           /\ UNCHANGED <<wait, accepts, lclosed, rq, cq, cur, rd, closed, wr, seen>>

Accept == /\ wait + Len(accepts) < Calls /\ wait' = wait + 1
          /\ UNCHANGED <<up, accq, open, accepts, lclosed, rq, cq, cur, rd, closed, wr, seen>>

Accepted == /\ wait > 0
            /\ wait' = wait - 1
            /\ IF lclosed
               THEN accepts' = Append(accepts, 0) /\ UNCHANGED <<accq, open>>
               ELSE /\ accq # <<>>
                    /\ accepts' = Append(accepts, Head(accq)) /\ accq' = Tail(accq)
                    /\ open' = open \cup {<<Head(accq), "a">>}
            /\ UNCHANGED <<up, lclosed, rq, cq, cur, rd, closed, wr, seen>>

(* closing the listener ends its endpoint and with it all its connections *)
LClose == /\ ~lclosed /\ lclosed' = TRUE
          /\ closed' = closed \cup {e \in Ends : e[1] \in up}
          /\ UNCHANGED <<up, accq, open, wait, accepts, rq, cq, cur, rd, wr, seen>>

Write(e, n) == /\ e \in Writing /\ e \in open /\ e \notin closed /\ Len(wr[e]) < Max
               /\ wr' = [wr EXCEPT ![e] = Append(@, n)]
               /\ rq' = [rq EXCEPT ![At(Peer(e))] = Append(@, <<Peer(e), n>>)]
               /\ UNCHANGED <<up, accq, open, wait, accepts, lclosed, cq, cur, rd, closed, seen>>

(* the reader goroutine of an endpoint *)
Hand(p) == /\ rq[p] # <<>>
           /\ LET e == Head(rq[p])[1] IN
              /\ e \in closed \/ Len(cq[e]) < Cap
              /\ cq' = IF e \in closed THEN cq ELSE [cq EXCEPT ![e] = Append(@, Head(rq[p])[2])]
              /\ rq' = [rq EXCEPT ![p] = Tail(@)]
           /\ UNCHANGED <<up, accq, open, wait, accepts, lclosed, cur, rd, closed, wr, seen>>

Read(e, b) == /\ Peer(e) \in Writing /\ e \in open /\ Len(rd[e]) < Readers
              /\ rd' = [rd EXCEPT ![e] = Append(@, b)]
              /\ UNCHANGED <<up, accq, open, wait, accepts, lclosed, rq, cq, cur, closed, wr, seen>>

Min(a, b) == IF a < b THEN a ELSE b

(* what a read returns: end-of-file, bytes, or that the connection has ended *)
Without(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Returned(e) == \E i \in 1..Len(rd[e]) :
  /\ rd' = [rd EXCEPT ![e] = Without(@, i)]
  /\ \/ /\ cur[e].left = 0 /\ cur[e].eof
        /\ cur' = [cur EXCEPT ![e] = NoCur]
        /\ seen' = [seen EXCEPT ![e] = [k |-> @.k + 1, off |-> 0]]
        /\ cq' = cq
     \/ /\ cur[e].left = 0 /\ ~cur[e].eof /\ cq[e] # <<>>
        /\ LET n == Min(Head(cq[e]), rd[e][i]) IN
           /\ cur' = [cur EXCEPT ![e] = [left |-> Head(cq[e]) - n, eof |-> TRUE]]
           /\ seen' = [seen EXCEPT ![e].off = @ + n]
        /\ cq' = [cq EXCEPT ![e] = Tail(@)]
     \/ /\ cur[e].left > 0
        /\ LET n == Min(cur[e].left, rd[e][i]) IN
           /\ cur' = [cur EXCEPT ![e].left = @ - n]
           /\ seen' = [seen EXCEPT ![e].off = @ + n]
        /\ cq' = cq
     \/ /\ cur[e].left = 0 /\ ~cur[e].eof /\ cq[e] = <<>> /\ e \in closed
        /\ UNCHANGED <<cur, seen, cq>>
  /\ UNCHANGED <<up, accq, open, wait, accepts, lclosed, rq, closed, wr>>

(* closing drops what was received and not read, and ends the other side *)
Close(e) == /\ e \in open /\ e \notin closed
            /\ closed' = closed \cup {e, Peer(e)}
            /\ cq' = [cq EXCEPT ![e] = <<>>] /\ cur' = [cur EXCEPT ![e] = NoCur]
            /\ UNCHANGED <<up, accq, open, wait, accepts, lclosed, rq, rd, wr, seen>>

(* the peer or the network goes silent *)
Lost(i) == /\ i \in up /\ {<<i, "d">>, <<i, "a">>} \cap closed = {}
           /\ closed' = closed \cup {<<i, "d">>, <<i, "a">>}
           /\ UNCHANGED <<up, accq, open, wait, accepts, lclosed, rq, cq, cur, rd, wr, seen>>

Next == \/ \E i \in Conns : Dial(i) \/ Lost(i)
        \/ Accept \/ Accepted \/ LClose
        \/ \E e \in Ends : Returned(e) \/ Close(e)
        \/ \E e \in Ends, n \in Lens : Write(e, n)
        \/ \E e \in Ends, b \in Bufs : Read(e, b)
        \/ \E p \in EPs : Hand(p)

Spec == Init /\ [][Next]_vars
Fair == /\ WF_vars(Accepted)
        /\ \A e \in Ends : WF_vars(Returned(e))
        /\ \A p \in EPs : WF_vars(Hand(p))
FairSpec == Spec /\ Fair

(* what was read is a beginning of what the other end wrote, message by message *)
Framed == \A e \in Ends :
  LET w == wr[Peer(e)] IN
  /\ seen[e].k <= Len(w)
  /\ seen[e].off > 0 => (seen[e].k < Len(w) /\ seen[e].off <= w[seen[e].k + 1])
(* an end-of-file comes exactly when a message has been read to its end *)
WholeMsg == [][\A e \in Ends : seen'[e].k > seen[e].k => seen[e].off = wr[Peer(e)][seen[e].k + 1]]_vars
(* accepted once each, in the order of the connections *)
AcceptOnce == \A i, j \in 1..Len(accepts) : (i # j /\ accepts[i] # 0) => accepts[i] # accepts[j]
(* a waiting call returns when the connection or the listener is closed *)
Unblocked == \A e \in Ends : (rd[e] # <<>> /\ e \in closed) ~> rd[e] = <<>>
AcceptUnblocked == (wait > 0 /\ lclosed) ~> wait = 0
(* whatever others do not read, what is written to an open end arrives there *)
NoDelay == \A e \in Ends :
  (rd[e] # <<>> /\ (\E i \in 1..Len(rq[At(e)]) : rq[At(e)][i][1] = e)) ~> (rd[e] = <<>> \/ e \in closed)
=============================================================================
