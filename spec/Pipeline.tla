------------------------------ MODULE Pipeline ------------------------------
(* The goroutines of one endpoint and one connection, their channels and locks.

   The code: tru.go listen/serve (thread serve), readerProccess (reader),
   senderProccess (sender), send_queue.go retransmit (timer), channel.go
   WriteTo/writeTo/Close/destroy (the application's threads, and the callbacks,
   which run in whatever thread calls them).

   A thread is a stack of steps; a callback may put steps of the application on
   it: write a message or close the connection.  Every step that may block is
   one: the write semaphore, the send queue's lock, the two bounded channels.

   Serve    what arrives: data packets in order, acknowledgements, a disconnect.
   Order of packets and loss are the business of Stream.                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Cap,     \* room in the reader's and the sender's channel (10 in the code)
          NIn,     \* data packets that arrive
          NApp,    \* threads of the application that write, and how often each
          Writes,
          NCb,     \* how many callbacks do something
          MayClose

App == {<<"app", i>> : i \in 1..NApp}
Thr == {<<"serve", 0>>, <<"reader", 0>>, <<"sender", 0>>, <<"timer", 0>>, <<"dlv", 0>>} \cup App
Serve == <<"serve", 0>>
Reader == <<"reader", 0>>
Sender == <<"sender", 0>>
Timer == <<"timer", 0>>
Dlv == <<"dlv", 0>>
None == <<"none", 0>>

VARIABLES stk,      \* steps each thread has to do
          rch, sch, \* the reader's and the sender's channel
          wsem,     \* who writes a message
          lockW, waitW, lockR, \* the send queue's lock
          sq,       \* packets not acknowledged
          air,      \* packets of ours that arrived at the peer: to be acknowledged
          nid,      \* next packet number
          arrived,  \* data packets that arrived so far
          handed,   \* messages handed over
          dead,     \* the connection has ended
          told,     \* how often the reader was told
          xs,       \* disconnects sent
          dlvq,     \* delivery callbacks to run
          cbs,      \* what callbacks did so far
          peerx     \* the peer's disconnect may arrive

vars == <<stk, rch, sch, wsem, lockW, waitW, lockR, sq, air, nid, arrived, handed, dead, told, xs, dlvq, cbs, peerx>>

Write == <<[o |-> "wlock"], [o |-> "check"], [o |-> "add"], [o |-> "sput", k |-> "D"], [o |-> "wunlock"]>>
Close == <<[o |-> "xcheck"], [o |-> "x"], [o |-> "end"]>>

RECURSIVE Rep(_, _)
Rep(n, s) == IF n = 0 THEN <<>> ELSE s \o Rep(n - 1, s)

Init ==
  /\ stk = [t \in Thr |-> IF t \in App THEN Rep(Writes, Write) ELSE <<>>]
  /\ rch = <<>> /\ sch = <<>> /\ wsem = None /\ lockW = None /\ waitW = {} /\ lockR = {}
  /\ sq = {} /\ air = {} /\ nid = 1 /\ arrived = 0 /\ handed = <<>> /\ dead = FALSE /\ told = 0 /\ xs = 0
  /\ dlvq = 0 /\ cbs = 0 /\ peerx = MayClose

Top(t) == stk[t][1]
Pop(t) == [stk EXCEPT ![t] = Tail(@)]
Push(t, s) == [stk EXCEPT ![t] = s \o Tail(@)]
Idle(t) == stk[t] = <<>>
At(t, o) == ~Idle(t) /\ Top(t).o = o

\* a callback returns at once or does something first
Calls(t) == {<<>>} \cup (IF cbs < NCb THEN {Write} \cup (IF MayClose THEN {Close} ELSE {}) ELSE {})

---------------------------------------------------------------------------
(* threads that wait for work take it *)
TakeIn == \* a datagram
  /\ Idle(Serve)
  /\ \/ /\ arrived < NIn /\ arrived' = arrived + 1
        /\ stk' = [stk EXCEPT ![Serve] = IF dead THEN <<>> ELSE <<[o |-> "sput", k |-> "A"], [o |-> "rput", n |-> arrived + 1]>>]
        /\ UNCHANGED <<air, peerx>>
     \/ \E a \in air :
        /\ air' = air \ {a}
        /\ stk' = [stk EXCEPT ![Serve] = IF dead THEN <<>> ELSE <<[o |-> "ack", n |-> a]>>]
        /\ UNCHANGED <<arrived, peerx>>
     \/ /\ peerx /\ peerx' = FALSE
        /\ stk' = [stk EXCEPT ![Serve] = IF dead THEN <<>> ELSE <<[o |-> "end"]>>]
        /\ UNCHANGED <<arrived, air>>
  /\ UNCHANGED <<rch, sch, wsem, lockW, waitW, lockR, sq, nid, handed, dead, told, xs, dlvq, cbs>>

TakeR ==
  /\ Idle(Reader) /\ rch # <<>>
  /\ rch' = Tail(rch)
  /\ stk' = [stk EXCEPT ![Reader] = IF dead THEN <<>> ELSE <<[o |-> "hand", n |-> rch[1]]>>]
  /\ UNCHANGED <<sch, wsem, lockW, waitW, lockR, sq, air, nid, arrived, handed, dead, told, xs, dlvq, cbs, peerx>>

TakeS ==
  /\ Idle(Sender) /\ sch # <<>>
  /\ sch' = Tail(sch)
  /\ stk' = [stk EXCEPT ![Sender] = IF dead THEN <<>> ELSE <<[o |-> "send", k |-> sch[1]]>>]
  /\ UNCHANGED <<rch, wsem, lockW, waitW, lockR, sq, air, nid, arrived, handed, dead, told, xs, dlvq, cbs, peerx>>

(* the timer repeats what is not acknowledged while it holds the queue for reading *)
Fire ==
  /\ Idle(Timer) /\ ~dead /\ sq # {} /\ lockW = None /\ waitW = {}
  /\ lockR' = lockR \cup {Timer}
  /\ stk' = [stk EXCEPT ![Timer] = Rep(Cardinality(sq), <<[o |-> "sput", k |-> "D"]>>) \o <<[o |-> "runlock"]>>]
  /\ UNCHANGED <<rch, sch, wsem, lockW, waitW, sq, air, nid, arrived, handed, dead, told, xs, dlvq, cbs, peerx>>

TakeD ==
  /\ Idle(Dlv) /\ dlvq > 0 /\ dlvq' = dlvq - 1
  /\ \E c \in Calls(Dlv) : stk' = [stk EXCEPT ![Dlv] = c] /\ cbs' = (IF c = <<>> THEN cbs ELSE cbs + 1)
  /\ UNCHANGED <<rch, sch, wsem, lockW, waitW, lockR, sq, air, nid, arrived, handed, dead, told, xs, peerx>>

---------------------------------------------------------------------------
(* steps *)
WLock(t) == /\ At(t, "wlock") /\ wsem = None /\ wsem' = t /\ stk' = Pop(t)
            /\ UNCHANGED <<rch, sch, lockW, waitW, lockR, sq, air, nid, arrived, handed, dead, told, xs, dlvq, cbs, peerx>>
WUnlock(t) == /\ At(t, "wunlock") /\ wsem' = None /\ stk' = Pop(t)
              /\ UNCHANGED <<rch, sch, lockW, waitW, lockR, sq, air, nid, arrived, handed, dead, told, xs, dlvq, cbs, peerx>>
\* an ended connection refuses
Check(t) == /\ At(t, "check")
            /\ stk' = IF dead THEN [stk EXCEPT ![t] = SubSeq(@, 4, Len(@))] ELSE Pop(t)
            /\ UNCHANGED <<rch, sch, wsem, lockW, waitW, lockR, sq, air, nid, arrived, handed, dead, told, xs, dlvq, cbs, peerx>>
\* taking the queue's lock for writing: announced first, readers then wait
Announce(t) == /\ ~Idle(t) /\ Top(t).o \in {"add", "ack", "sqend"} /\ t \notin waitW /\ lockW # t
               /\ waitW' = waitW \cup {t}
               /\ UNCHANGED <<stk, rch, sch, wsem, lockW, lockR, sq, air, nid, arrived, handed, dead, told, xs, dlvq, cbs, peerx>>
GetLock(t) == /\ t \in waitW /\ lockW = None /\ lockR = {}
              /\ lockW' = t /\ waitW' = waitW \ {t}
              /\ UNCHANGED <<stk, rch, sch, wsem, lockR, sq, air, nid, arrived, handed, dead, told, xs, dlvq, cbs, peerx>>
Add(t) == /\ At(t, "add") /\ lockW = t
          /\ lockW' = None /\ sq' = sq \cup {nid} /\ nid' = nid + 1 /\ stk' = Pop(t)
          /\ UNCHANGED <<rch, sch, wsem, waitW, lockR, air, arrived, handed, dead, told, xs, dlvq, cbs, peerx>>
Ack(t) == /\ At(t, "ack") /\ lockW = t
          /\ lockW' = None /\ sq' = sq \ {Top(t).n} /\ dlvq' = (IF Top(t).n \in sq THEN dlvq + 1 ELSE dlvq) /\ stk' = Pop(t)
          /\ UNCHANGED <<rch, sch, wsem, waitW, lockR, air, nid, arrived, handed, dead, told, xs, cbs, peerx>>
SqEnd(t) == /\ At(t, "sqend") /\ lockW = t /\ lockW' = None /\ stk' = Pop(t)
            /\ UNCHANGED <<rch, sch, wsem, waitW, lockR, sq, air, nid, arrived, handed, dead, told, xs, dlvq, cbs, peerx>>
RUnlock(t) == /\ At(t, "runlock") /\ lockR' = lockR \ {t} /\ stk' = Pop(t)
              /\ UNCHANGED <<rch, sch, wsem, lockW, waitW, sq, air, nid, arrived, handed, dead, told, xs, dlvq, cbs, peerx>>
SPut(t) == /\ At(t, "sput") /\ Len(sch) < Cap
           /\ sch' = Append(sch, Top(t).k) /\ stk' = Pop(t)
           /\ UNCHANGED <<rch, wsem, lockW, waitW, lockR, sq, air, nid, arrived, handed, dead, told, xs, dlvq, cbs, peerx>>
RPut(t) == /\ At(t, "rput") /\ Len(rch) < Cap
           /\ rch' = Append(rch, Top(t).n) /\ stk' = Pop(t)
           /\ UNCHANGED <<sch, wsem, lockW, waitW, lockR, sq, air, nid, arrived, handed, dead, told, xs, dlvq, cbs, peerx>>
Hand(t) == /\ At(t, "hand")
           /\ handed' = Append(handed, Top(t).n)
           /\ \E c \in Calls(t) : stk' = Push(t, c) /\ cbs' = (IF c = <<>> THEN cbs ELSE cbs + 1)
           /\ UNCHANGED <<rch, sch, wsem, lockW, waitW, lockR, sq, air, nid, arrived, dead, told, xs, dlvq, peerx>>
\* a data packet that leaves may arrive at the peer, whose acknowledgement comes back
Send(t) == /\ At(t, "send") /\ stk' = Pop(t)
           /\ air' = IF Top(t).k = "D" THEN air \cup sq ELSE air
           /\ UNCHANGED <<rch, sch, wsem, lockW, waitW, lockR, sq, nid, arrived, handed, dead, told, xs, dlvq, cbs, peerx>>
XCheck(t) == /\ At(t, "xcheck")
             /\ stk' = IF dead THEN [stk EXCEPT ![t] = SubSeq(@, 4, Len(@))] ELSE Pop(t)
             /\ UNCHANGED <<rch, sch, wsem, lockW, waitW, lockR, sq, air, nid, arrived, handed, dead, told, xs, dlvq, cbs, peerx>>
X(t) == /\ At(t, "x") /\ xs' = xs + 1 /\ stk' = Pop(t)
        /\ UNCHANGED <<rch, sch, wsem, lockW, waitW, lockR, sq, air, nid, arrived, handed, dead, told, dlvq, cbs, peerx>>
\* only the first to end it goes on: the queue's timer is stopped, the reader told
End(t) == /\ At(t, "end") /\ dead' = TRUE
          /\ stk' = IF dead THEN Pop(t) ELSE Push(t, <<[o |-> "sqend"], [o |-> "tell"]>>)
          /\ UNCHANGED <<rch, sch, wsem, lockW, waitW, lockR, sq, air, nid, arrived, handed, told, xs, dlvq, cbs, peerx>>
Tell(t) == /\ At(t, "tell") /\ told' = told + 1
           /\ \E c \in Calls(t) : stk' = Push(t, c) /\ cbs' = (IF c = <<>> THEN cbs ELSE cbs + 1)
           /\ UNCHANGED <<rch, sch, wsem, lockW, waitW, lockR, sq, air, nid, arrived, handed, dead, xs, dlvq, peerx>>

Step(t) == WLock(t) \/ WUnlock(t) \/ Check(t) \/ Announce(t) \/ GetLock(t) \/ Add(t) \/ Ack(t) \/ SqEnd(t) \/ RUnlock(t) \/ SPut(t)
           \/ RPut(t) \/ Hand(t) \/ Send(t) \/ XCheck(t) \/ X(t) \/ End(t) \/ Tell(t)
Take == TakeIn \/ TakeR \/ TakeS \/ Fire \/ TakeD
AllIdle == \A t \in Thr : Idle(t)
Rest == AllIdle /\ rch = <<>> /\ sch = <<>> /\ UNCHANGED vars
Next == Take \/ (\E t \in Thr : Step(t)) \/ Rest
Spec == Init /\ [][Next]_vars
---------------------------------------------------------------------------
TypeOK == Len(rch) <= Cap /\ Len(sch) <= Cap /\ (lockW = None \/ lockR = {})
(* C16: messages are handed over one after another in the order they came *)
InOrder == \A i \in 1..Len(handed) : handed[i] = i
(* C07: told once, one disconnect for each who closes it *)
ToldOnce == told <= 1
(* C15, C16: nobody waits for ever: a blocked thread waits for one that can go on
   (TLC's deadlock check: the only states without a step are at rest, Rest), and
   all but the resend timer has a bounded amount to do                            *)
AtRest == (AllIdle /\ rch = <<>> /\ ~ENABLED Take) => (dead \/ (Len(handed) = arrived /\ wsem = None /\ lockW = None))
=============================================================================
