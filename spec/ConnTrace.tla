----------------------------- MODULE ConnTrace -----------------------------
(* Decides recorded executions at the level of packets: the sending and the
   receiving end of every direction of every connection in the trace, built
   from the same operators as the design (StreamOps).

   Time unit: 100 microseconds.  Goroutines of one endpoint log in any order
   within one instant of virtual time, so what must follow from an event
   (acknowledgement, hand-over, callback) is required when time has moved on.

   Cf.n     number of directions; Cf.rev[d] the opposite direction (0: none)
   Cf.rtt   round trip time (0: not constant)
   Events   (d: direction)
     W  d m lid ok cb tmo t a call to send begins (ok, lid: how it will return, and the
                            number of the message's last packet)
     R  d m ok t            it returns
     O  d id s len h lk t   a data packet leaves      I  d id s x t    it arrives (x: altered)
     AO d id t              an acknowledgement leaves AI d id t        it arrives
     M  d ok t              a message is handed over  DL d m ok t      delivery callback
     H  d t                 another packet of the peer arrives at the sender of d
     K  d t                 the sender of d ends it, or a disconnect packet arrives there
     E  d t                 the sender of d is told that the connection ended
     X  d t                 the receiver of d is told that the connection ended
     P  lk t                another packet leaves
     S  d ...               statistic of the sender of d (both directions)
     B  n got bad alike t   a long stream of messages was sent
     F  d t                 the network has worked long enough
     Z  t                   end of the recording

   Toggles Props: C03 recovery, C04 delivery callbacks, C12 statistic, C14 secrecy
   and integrity.                                                               *)
EXTENDS TraceBase, StreamOps

CONSTANT Props

N == 1048576
MinRep == 299        \* 30 ms
MaxRep == 34500      \* about 3.3 s, plus a round of the resend timer
Tick == 100          \* 10 ms: what follows from an event follows within this time
MaxTry == 100
Silence == 59990
Never == 2000000000

VARIABLES snd,   \* per direction: sending end
          rcv,   \* per direction: receiving end
          dlv,   \* per direction: messages with a delivery callback pending
          hashes \* what data packets looked like: <<d, len, h>>

vars == <<tr, l, snd, rcv, dlv, hashes>>
D == 1..Cf.n
On(p) == p \in Props

Init ==
  /\ TraceInit
  /\ snd = [d \in D |-> [unack |-> {},   \* sent, not acknowledged: [id, t: sent last, n: repeats]
                         acked |-> {},   \* <<id, time of the acknowledgement>>
                         rep |-> 0, ackm |-> 0, acku |-> 0, acc |-> 0,
                         when |-> {},    \* messages: [m, a: call, b: return]
                         ended |-> FALSE, closing |-> FALSE, heard |-> 0]]
  /\ rcv = [d \in D |-> [q |-> RcvInit,
                         handed |-> 0,
                         when |-> <<>>,  \* times messages were handed over
                         due |-> -1,     \* since when a message waits to be handed over
                         owe |-> {},     \* acknowledgements owed: [id, n, t]
                         seen |-> {},    \* arrived (altered ones that may pass included)
                         ended |-> FALSE]]
  /\ dlv = [d \in D |-> {}]
  /\ hashes = {}

(* what must have happened before time moves on to t *)
Timely(t) == \A d \in D :
  /\ On("C03") =>
       /\ (rcv[d].due # -1 => t <= rcv[d].due + Tick)
       /\ \A o \in rcv[d].owe : t <= o.t + Tick
       /\ (~snd[d].ended => \A p \in snd[d].unack : t <= p.t + MaxRep)
  /\ On("C04") => \A x \in dlv[d] : t <= x.due + Tick

At(k) == Is(k) /\ Timely(Ev.t)

---------------------------------------------------------------------------
(* calls *)
W == /\ At("W")
     /\ dlv' = IF Ev.cb
               THEN [dlv EXCEPT ![Ev.d] = @ \cup {[m |-> Ev.m, lid |-> Ev.lid, ok |-> Ev.ok, early |-> Ev.t + Ev.tmo,
                                                   tmo |-> Ev.tmo, due |-> Never, ackt |-> -1]}]
               ELSE dlv
     /\ snd' = IF On("C12") THEN [snd EXCEPT ![Ev.d].when = {x \in @ : x.b > Ev.t - 20000} \cup {[m |-> Ev.m, a |-> Ev.t, b |-> Never]}] ELSE snd
     /\ UNCHANGED <<rcv, hashes>>

R == /\ At("R")
     /\ LET c == {x \in dlv[Ev.d] : x.m = Ev.m} IN
        dlv' = [dlv EXCEPT ![Ev.d] = IF Ev.ok THEN (@ \ c) \cup {[x EXCEPT !.due = Ev.t + x.tmo] : x \in c} ELSE @ \ c]
     /\ snd' = IF Ev.ok THEN [snd EXCEPT ![Ev.d].acc = @ + 1, ![Ev.d].when = {IF x.m = Ev.m THEN [x EXCEPT !.b = Ev.t] ELSE x : x \in @}]
                ELSE [snd EXCEPT ![Ev.d].when = {x \in @ : x.m # Ev.m}]
     /\ UNCHANGED <<rcv, hashes>>

(* delivery callback: one call, the right verdict, in time *)
DL == /\ At("DL")
      /\ IF On("C04")
         THEN \E x \in dlv[Ev.d] :
                /\ x.m = Ev.m
                /\ x.ok
                /\ IF Ev.ok
                   THEN \E a \in snd[Ev.d].acked : a[1] = x.lid
                   ELSE /\ Ev.t >= x.early - 1
                        /\ ~(x.ackt # -1 /\ x.ackt < x.early - 1)
                /\ dlv' = [dlv EXCEPT ![Ev.d] = @ \ {x}]
         ELSE dlv' = dlv
      /\ UNCHANGED <<snd, rcv, hashes>>

---------------------------------------------------------------------------
(* packets *)
O == /\ At("O")
     /\ LET s == snd[Ev.d]
            old == {p \in s.unack : p.id = Ev.id}
            ack == {a \in s.acked : a[1] = Ev.id} IN
        IF old # {}
        THEN LET p == CHOOSE p \in old : TRUE IN
             /\ On("C03") => (Ev.t - p.t >= MinRep /\ p.n < MaxTry)
             /\ snd' = [snd EXCEPT ![Ev.d].unack = (@ \ old) \cup {[p EXCEPT !.t = Ev.t, !.n = @ + 1]},
                                   ![Ev.d].rep = @ + 1]
        ELSE IF ack # {}
        THEN \* never again after its acknowledgement arrived
             /\ On("C03") => \A a \in ack : Ev.t <= a[2] + 1
             /\ snd' = [snd EXCEPT ![Ev.d].rep = @ + 1]
        ELSE snd' = [snd EXCEPT ![Ev.d].unack = @ \cup {[id |-> Ev.id, t |-> Ev.t, n |-> 0]}]
     /\ IF On("C14")
        THEN /\ ~Ev.lk
             \* a packet sent again looks as before, another one does not
             /\ IF Ev.first /\ Ev.len >= 12
                THEN /\ \A x \in hashes : (x[2] = Ev.len /\ x[3] = Ev.h) => x[1] = Cf.rev[Ev.d]
                     /\ hashes' = hashes \cup {<<Ev.d, Ev.len, Ev.h>>}
                ELSE hashes' = hashes
        ELSE hashes' = hashes
     /\ UNCHANGED <<rcv, dlv>>

Owe(o, id, t) == LET c == {x \in o : x.id = id} IN
  IF c = {} THEN o \cup {[id |-> id, n |-> 1, t |-> t]}
  ELSE (o \ c) \cup {[x EXCEPT !.n = @ + 1] : x \in c}
Pay(o, id) == LET c == {x \in o : x.id = id} IN
  (o \ c) \cup {[x EXCEPT !.n = @ - 1] : x \in {y \in c : y.n > 1}}

I == /\ At("I")
     /\ LET r == rcv[Ev.d] IN
        IF r.ended THEN rcv' = rcv
        ELSE IF Ev.x
        THEN \* altered: content of more than 64 bytes must not pass
             rcv' = IF Ev.big THEN rcv ELSE [rcv EXCEPT ![Ev.d].seen = @ \cup {Ev.id}]
        ELSE LET q == Arrive(N, r.q, Ev.id, Ev.s) IN
             rcv' = [rcv EXCEPT ![Ev.d] = [r EXCEPT
                       !.q = q,
                       !.due = IF r.due # -1 THEN r.due ELSE IF q.due > r.handed THEN Ev.t ELSE -1,
                       !.owe = Owe(@, Ev.id, Ev.t),
                       !.seen = @ \cup {Ev.id}]]
     /\ snd' = IF Ev.x \/ Cf.rev[Ev.d] = 0 THEN snd ELSE [snd EXCEPT ![Cf.rev[Ev.d]].heard = Ev.t]
     /\ UNCHANGED <<dlv, hashes>>

AO == /\ At("AO")
      \* only what arrived is acknowledged
      /\ (On("C03") \/ On("C04") \/ On("C14")) => Ev.id \in rcv[Ev.d].seen
      /\ rcv' = [rcv EXCEPT ![Ev.d].owe = Pay(@, Ev.id)]
      /\ UNCHANGED <<snd, dlv, hashes>>

AI == /\ At("AI")
      /\ LET s == snd[Ev.d]
             old == {p \in s.unack : p.id = Ev.id} IN
         IF s.ended THEN UNCHANGED <<snd, dlv>>
         ELSE /\ snd' = [snd EXCEPT ![Ev.d] = [s EXCEPT
                           !.unack = @ \ old,
                           !.acked = IF old = {} THEN @ ELSE @ \cup {<<Ev.id, Ev.t>>},
                           !.ackm = IF old = {} THEN @ ELSE @ + 1,
                           !.acku = IF old = {} THEN @ + 1 ELSE @,
                           !.heard = Ev.t]]
              /\ dlv' = [dlv EXCEPT ![Ev.d] = {IF x.lid = Ev.id /\ x.ackt = -1 /\ old # {} THEN [x EXCEPT !.ackt = Ev.t] ELSE x : x \in @}]
      /\ UNCHANGED <<rcv, hashes>>

H == /\ At("H")
     /\ snd' = [snd EXCEPT ![Ev.d].heard = Ev.t]
     /\ UNCHANGED <<rcv, dlv, hashes>>

P == /\ At("P")
     /\ On("C14") => ~Ev.lk
     /\ UNCHANGED <<snd, rcv, dlv, hashes>>

---------------------------------------------------------------------------
(* what the applications see *)
M == /\ At("M")
     /\ LET r == rcv[Ev.d] IN
        \* not before it and all before it have arrived
        /\ (On("C03") \/ On("C14")) => r.handed < r.q.due
        /\ On("C14") => Ev.ok
        /\ rcv' = [rcv EXCEPT ![Ev.d] = [r EXCEPT
                     !.handed = @ + 1,
                     !.when = IF On("C12") THEN Append(SelectSeq(@, LAMBDA x : x > Ev.t - 20000), Ev.t) ELSE @,
                     !.due = IF r.handed + 1 < r.q.due THEN Ev.t ELSE -1]]
     /\ UNCHANGED <<snd, dlv, hashes>>

K == /\ At("K")
     /\ snd' = [snd EXCEPT ![Ev.d].closing = TRUE]
     /\ UNCHANGED <<rcv, dlv, hashes>>

E == /\ At("E")
     /\ LET s == snd[Ev.d] IN
        On("C03") => \/ s.ended \/ s.closing
                     \/ Ev.t - s.heard >= Silence
                     \/ \E p \in s.unack : p.n >= MaxTry
     /\ snd' = [snd EXCEPT ![Ev.d].ended = TRUE]
     /\ UNCHANGED <<rcv, dlv, hashes>>

X == /\ At("X")
     /\ rcv' = [rcv EXCEPT ![Ev.d].ended = TRUE, ![Ev.d].owe = {}, ![Ev.d].due = -1]
     /\ UNCHANGED <<snd, dlv, hashes>>

(* messages within the last second, give or take the two tenths in which the
   tenths of seconds the code counts in may lie                               *)
Sec == 10000
Slack == 100
Sent(d, x, y) == Cardinality({m \in snd[d].when : m.a >= x /\ m.b <= y})
SentMay(d, x, y) == Cardinality({m \in snd[d].when : m.b >= x /\ m.a <= y})
Got(d, x, y) == Len(SelectSeq(rcv[d].when, LAMBDA z : z >= x /\ z <= y))
Speed(t) ==
  LET a == t - Sec + Slack
      b == t - (Sec \div 5) - Slack
      lo == t - (6 * Sec) \div 5 - Slack IN
  /\ Sent(Ev.d, a, b) <= Ev.ssec /\ Ev.ssec <= SentMay(Ev.d, lo, t)
  /\ Got(Cf.rev[Ev.d], a, b) <= Ev.rsec /\ Ev.rsec <= Got(Cf.rev[Ev.d], lo, t)
(* repeats of the oldest packet not acknowledged *)
OldestTries(s) == IF s.unack = {} THEN 0
                  ELSE (CHOOSE p \in s.unack : \A q \in s.unack : Dist(N, p.id, q.id) >= 0).n

S == /\ At("S")
     /\ On("C12") =>
          LET s == snd[Ev.d]
              r == rcv[Cf.rev[Ev.d]] IN
          /\ Ev.send = s.acc
          /\ Ev.rsnd = s.rep
          /\ Ev.ack = s.ackm
          /\ Ev.ackd = s.acku
          /\ Ev.sq = Cardinality(s.unack)
          /\ Ev.recv = r.handed
          /\ Ev.drop = r.q.drop
          /\ Ev.rq = Cardinality(r.q.buf)
          /\ Ev.rta = OldestTries(s)
          /\ Speed(Ev.t)
          /\ (Cf.rtt > 0 /\ s.ackm > 0 => Ev.tt \in (Cf.rtt - 1)..(Cf.rtt + 1))
     /\ UNCHANGED <<snd, rcv, dlv, hashes>>

\* number of connections the statistic reports at an endpoint
SN == /\ At("SN")
      /\ On("C12") => Ev.n = Ev.open
      /\ UNCHANGED <<snd, rcv, dlv, hashes>>

F == /\ At("F")
     /\ (On("C03") \/ On("C14")) =>
          /\ snd[Ev.d].unack = {}
          /\ rcv[Ev.d].handed = snd[Ev.d].acc
     /\ UNCHANGED <<snd, rcv, dlv, hashes>>

Z == At("Z") /\ UNCHANGED <<snd, rcv, dlv, hashes>>

(* a long stream of messages: all arrive, no two of its packets look the same *)
B == /\ At("B")
     /\ On("C03") => (Ev.got = Ev.n /\ Ev.bad = 0)
     /\ On("C14") => (Ev.got = Ev.n /\ Ev.bad = 0 /\ Ev.alike = 0)
     /\ UNCHANGED <<snd, rcv, dlv, hashes>>

Next == B \/ W \/ R \/ DL \/ O \/ I \/ AO \/ AI \/ H \/ P \/ M \/ K \/ E \/ X \/ S \/ SN \/ F \/ Z
Spec == Init /\ [][Next]_vars
=============================================================================
