------------------------------ MODULE IsoTrace ------------------------------
(* Decides recorded executions in which datagrams arrive that belong to no
   connection: junk, forgeries, copies from elsewhere, punches.

   Cf.ch  channels: [ep, peer, opp, clean: nothing but junk that must be ignored, and its own
          packets, comes from its peer's address, legit: somebody asked for this connection,
          r: somebody reads what arrives]
   Cf.fast  nothing is lost and everything takes a few milliseconds
   Events
     N c t             channel c is announced        W c t   a message was accepted for sending
     M c src n t       a message is handed over on c (0: on a channel nobody knows): the n-th
                       sent on channel src (0: nobody sent it)
     E c t             a reader is told that c ended    K c t  there is a reason for that
     J ep p t          a datagram of no connection arrives at ep from p
     PI ep p h t       a punch arrives with content h   PB ep p h w t  punch callback w runs
     PS ep w t         callback w is the punch callback of ep from now on (0: none)
     F c t             everything sent on c has had time to arrive
     Z t               end
   Toggles Props: C09, C10.                                                          *)
EXTENDS TraceBase

CONSTANT Props

VARIABLES cs,   \* channels
          pp,   \* punches that arrived and were not yet handed over
          pw    \* per endpoint: its punch callback

vars == <<tr, l, cs, pp, pw>>
C == 1..Len(Cf.ch)
EP == {Cf.ep[i] : i \in 1..Len(Cf.ep)}
On(p) == p \in Props
Soon == 10000    \* 1 s
Tick == 100

Init ==
  /\ TraceInit
  /\ cs = [c \in C |-> [ended |-> FALSE, why |-> FALSE, got |-> 0, at |-> <<>>]]
  /\ pp = <<>>
  /\ pw = [e \in EP |-> 1]

Calm(c) == Cf.ch[c].clean

At(k) == /\ Is(k)
         /\ On("C10") => \A i \in 1..Len(pp) : Ev.t <= pp[i].t + Tick

N == /\ At("N")
     /\ Cf.ch[Ev.c].legit
     /\ UNCHANGED <<cs, pp, pw>>

W == At("W") /\ cs' = [cs EXCEPT ![Ev.c].at = Append(@, Ev.t)] /\ UNCHANGED <<pp, pw>>

M == /\ At("M")
     /\ Ev.c # 0
     /\ IF ~Calm(Ev.c) THEN cs' = cs
        ELSE LET o == Cf.ch[Ev.c].opp IN
             /\ o # 0
             /\ Ev.src = o
             /\ Ev.n = cs[Ev.c].got + 1 /\ Ev.n <= Len(cs[o].at)
             /\ Cf.fast => Ev.t <= cs[o].at[Ev.n] + Soon
             /\ cs' = [cs EXCEPT ![Ev.c].got = @ + 1]
     /\ UNCHANGED <<pp, pw>>

E == /\ At("E")
     /\ Calm(Ev.c) => cs[Ev.c].why
     /\ cs' = [cs EXCEPT ![Ev.c].ended = TRUE]
     /\ UNCHANGED <<pp, pw>>

K == At("K") /\ cs' = [cs EXCEPT ![Ev.c].why = TRUE] /\ UNCHANGED <<pp, pw>>
J == At("J") /\ UNCHANGED <<cs, pp, pw>>

PIn == /\ At("PI")
       /\ pp' = IF pw[Ev.ep] = 0 THEN pp ELSE Append(pp, [ep |-> Ev.ep, p |-> Ev.p, h |-> Ev.h, t |-> Ev.t])
       /\ UNCHANGED <<cs, pw>>

Without(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))

PB == /\ At("PB")
      /\ IF On("C10")
         THEN LET S == {i \in 1..Len(pp) : pp[i].ep = Ev.ep /\ pp[i].p = Ev.p /\ pp[i].h = Ev.h} IN
              /\ S # {}
              /\ Ev.w = pw[Ev.ep]
              /\ pp' = Without(pp, CHOOSE i \in S : \A j \in S : i <= j)
         ELSE pp' = pp
      /\ UNCHANGED <<cs, pw>>

PS == At("PS") /\ pw' = [pw EXCEPT ![Ev.ep] = Ev.w] /\ UNCHANGED <<cs, pp>>

F == /\ At("F")
     /\ LET c == Ev.c
            o == Cf.ch[c].opp IN
        IF o = 0 THEN TRUE
        ELSE (Calm(c) /\ Calm(o) /\ ~cs[c].why /\ ~cs[o].why /\ Cf.ch[o].r) =>
               (cs[o].got = Len(cs[c].at) /\ ~cs[c].ended /\ ~cs[o].ended)
     /\ UNCHANGED <<cs, pp, pw>>

Z == At("Z") /\ UNCHANGED <<cs, pp, pw>>

Next == N \/ W \/ M \/ E \/ K \/ J \/ PIn \/ PB \/ PS \/ F \/ Z
Spec == Init /\ [][Next]_vars
=============================================================================
