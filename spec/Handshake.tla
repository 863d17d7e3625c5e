----------------------------- MODULE Handshake -----------------------------
(* Connecting: two endpoints, attempts begun on either side, the four handshake
   packets in a network that loses, repeats, delays and reorders them.

   The code: connect.go.  C1 statusConnect, C2 statusConnectServerAnswer, C3
   statusConnectClientAnswer (brings the session key), C4 statusConnectDone.
   The number of an attempt stands for its uuid (they are compared) and for its
   session key.  An endpoint has at most one connection to the other one.

   Time is counted in ticks; a tick is allowed only when nothing is overdue, so
   every packet arrives within D ticks or never, a call returns after T ticks at
   the latest and a connection of a peer that has none ends after S ticks.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Owner,   \* Owner[u]: the endpoint that makes attempt u
          T, S, D, \* see above
          D4       \* as D, for the last packet

Ends == {"A", "B"}
U == 1..Len(Owner)
Peer(e) == IF e = "A" THEN "B" ELSE "A"
Other(u) == Peer(Owner[u])

VARIABLES att,   \* attempts: new, sent (C1), ans (C2 came, key chosen), dead (will fail), ok, err
          acc,   \* at the other side: none, open (C1 came), done
          ch,    \* connections: [u: attempt or 0, quiet: ticks without a packet]
          net,   \* packets: [k, u, age]
          told,  \* connect callbacks per attempt
          lost,  \* connections ended at an endpoint: set of <<e, u, why>>
          later  \* <<u, v>>: v was begun after the other side of u was told of u

vars == <<att, acc, ch, net, told, lost, later>>

None == [u |-> 0, quiet |-> 0]

Init == /\ att = [u \in U |-> [st |-> "new", age |-> 0]]
        /\ acc = [u \in U |-> [st |-> "none", age |-> 0]]
        /\ ch = [e \in Ends |-> None]
        /\ net = {} /\ told = [u \in U |-> 0] /\ lost = {} /\ later = {}

Pkt(k, u) == [k |-> k, u |-> u, age |-> 0]
Put(n, k, u) == {p \in n : p.k # k \/ p.u # u} \cup {Pkt(k, u)}

(* attempts are begun in the order of their numbers or not: a uuid says nothing
   about time; only symmetric orders are left out                               *)
Call(u) ==
  /\ att[u].st = "new"
  /\ att' = [att EXCEPT ![u] = [st |-> "sent", age |-> 0]]
  /\ net' = Put(net, "C1", u)
  /\ later' = later \cup {<<v, u>> : v \in {v \in U : told[v] > 0}}
  /\ UNCHANGED <<acc, ch, told, lost>>

End(l, e, why) == IF ch[e].u = 0 THEN l ELSE l \cup {<<e, ch[e].u, why>>}

(* accept: a connect packet with this uuid was not seen before *)
RecvC1(u) ==
  IF acc[u].st = "none"
  THEN /\ acc' = [acc EXCEPT ![u] = [st |-> "open", age |-> 0]]
       /\ net' = Put(net, "C2", u)
       /\ UNCHANGED <<att, ch, told, lost, later>>
  ELSE UNCHANGED <<att, acc, ch, net, told, lost, later>>

(* answered: the first answer; only one attempt to a peer continues *)
RecvC2(u) ==
  LET e == Owner[u] IN
  IF att[u].st # "sent" THEN UNCHANGED <<att, acc, ch, net, told, lost, later>>
  ELSE IF \E v \in U : Owner[v] = e /\ att[v].st = "ans"
  THEN /\ att' = [att EXCEPT ![u].st = "dead"]
       /\ UNCHANGED <<acc, ch, net, told, lost, later>>
  ELSE /\ att' = [att EXCEPT ![u].st = "ans"]
       /\ lost' = End(lost, e, "replaced")
       /\ ch' = [ch EXCEPT ![e] = None]
       /\ net' = Put(net, "C3", u)
       /\ UNCHANGED <<acc, told, later>>

(* accepted *)
RecvC3(u) ==
  LET e == Other(u) IN
  IF \/ acc[u].st # "open" \/ acc[u].age > T
     \/ \E v \in U : Owner[v] = e /\ att[v].st = "ans" /\ v < u
  THEN UNCHANGED <<att, acc, ch, net, told, lost, later>>
  ELSE /\ att' = [v \in U |-> IF Owner[v] = e /\ att[v].st \in {"sent", "ans"} THEN [att[v] EXCEPT !.st = "dead"] ELSE att[v]]
       /\ acc' = [v \in U |-> IF Owner[v] = Owner[u] /\ acc[v].st = "open" THEN [acc[v] EXCEPT !.st = "done"] ELSE acc[v]]
       /\ lost' = End(lost, e, "replaced")
       /\ ch' = [ch EXCEPT ![e] = [u |-> u, quiet |-> 0]]
       /\ told' = [told EXCEPT ![u] = @ + 1]
       /\ net' = Put(net, "C4", u)
       /\ UNCHANGED later

CloseAccepts(a, e) == [v \in U |-> IF Other(v) = e /\ a[v].st = "open" THEN [a[v] EXCEPT !.st = "done"] ELSE a[v]]

(* connected *)
RecvC4(u) ==
  LET e == Owner[u] IN
  IF att[u].st # "ans" THEN UNCHANGED <<att, acc, ch, net, told, lost, later>>
  ELSE /\ att' = [att EXCEPT ![u] = [st |-> "ok", age |-> 0]]
       /\ acc' = CloseAccepts(acc, e)
       /\ ch' = [ch EXCEPT ![e] = [u |-> u, quiet |-> 0]]
       /\ UNCHANGED <<net, told, lost, later>>

Act(p) == CASE p.k = "C1" -> RecvC1(p.u) [] p.k = "C2" -> RecvC2(p.u)
            [] p.k = "C3" -> RecvC3(p.u) [] p.k = "C4" -> RecvC4(p.u)

(* a packet arrives; without repeats it is gone, otherwise it may arrive again
   as long as it is not too old                                                 *)
Recv(p) == p \in net /\ Act(p)
Lose(p) == p \in net /\ net' = net \ {p} /\ UNCHANGED <<att, acc, ch, told, lost, later>>

Waiting(u) == att[u].st \in {"sent", "ans", "dead"}

Timeout(u) ==
  /\ Waiting(u) /\ att[u].age = T
  /\ att' = [att EXCEPT ![u] = [st |-> "err", age |-> 0]]
  /\ acc' = IF att[u].st = "ans" THEN CloseAccepts(acc, Owner[u]) ELSE acc
  /\ UNCHANGED <<ch, net, told, lost, later>>

Silent(e) ==
  /\ ch[e].u # 0 /\ ch[e].quiet = S
  /\ lost' = End(lost, e, "silence")
  /\ ch' = [ch EXCEPT ![e] = None]
  /\ UNCHANGED <<att, acc, net, told, later>>

Min(a, b) == IF a < b THEN a ELSE b

(* time passes; two connections keep each other alive whatever their keys are *)
Tick ==
  /\ \A p \in net : p.age < IF p.k = "C4" THEN D4 ELSE D
  /\ \A u \in U : Waiting(u) => att[u].age < T
  /\ \A e \in Ends : ch[e].u # 0 => ch[e].quiet < S
  /\ net' = {[p EXCEPT !.age = @ + 1] : p \in net}
  /\ att' = [u \in U |-> IF att[u].st = "new" THEN att[u] ELSE [att[u] EXCEPT !.age = Min(@ + 1, T + S + 2)]]
  /\ acc' = [u \in U |-> IF acc[u].st = "open" THEN [acc[u] EXCEPT !.age = Min(@ + 1, T + 1)] ELSE acc[u]]
  /\ ch' = [e \in Ends |-> IF ch[e].u = 0 THEN None
                           ELSE [ch[e] EXCEPT !.quiet = IF ch[Peer(e)].u # 0 THEN 0 ELSE @ + 1]]
  /\ UNCHANGED <<told, lost, later>>

Next == \/ \E u \in U : Call(u) \/ Timeout(u)
        \/ \E p \in net : Lose(p) \/ Recv(p)
        \/ \E e \in Ends : Silent(e)
        \/ Tick
Spec == Init /\ [][Next]_vars

TypeOK == \A e \in Ends : ch[e].u \in 0..Len(Owner)

---------------------------------------------------------------------------
(* C05: success means both ends hold this connection, unless the other side began
   another attempt after it was told                                            *)
Agreed == [][\A u \in U : (att[u].st # "ok" /\ att'[u].st = "ok") =>
               \/ ch'[Owner[u]].u = u /\ ch'[Other(u)].u = u
               \/ \E v \in U : <<u, v>> \in later]_vars
(* C05: told at most once, and not without success or the end of it *)
ToldOnce == \A u \in U : told[u] <= 1 /\ (att[u].st = "ok" => told[u] = 1)
(* the connection that takes a free place in the map finds it free *)
NoOrphan == [][\A u \in U : (att[u].st # "ok" /\ att'[u].st = "ok") => ch[Owner[u]].u = 0]_vars
(* C05: a failed attempt leaves nothing behind after a few seconds: a packet of it
   may arrive D ticks later and the connection it makes ends S ticks after that   *)
NothingLeft == \A u \in U : (att[u].st = "err" /\ att[u].age > D + S) =>
                 \A e \in Ends : ch[e].u # u
(* C05: when all is said and done the two ends agree *)
Quiet == net = {} /\ \A u \in U : ~Waiting(u)
Consistent == Quiet => (ch["A"].u = 0 \/ ch["B"].u = 0 \/ ch["A"].u = ch["B"].u)
(* C06: packets of an established connection change nothing: it ends because a new
   attempt replaces it or because the other side has none                        *)
Undisturbed == [][\A e \in Ends : (ch[e].u # 0 /\ ch'[e].u # ch[e].u) =>
                    \/ ch[e].quiet = S
                    \/ \E v \in U : v # ch[e].u /\ (att[v] # att'[v] \/ told'[v] > told[v])]_vars
(* attempts between two endpoints succeed when nothing is lost and nobody else tries *)
=============================================================================
