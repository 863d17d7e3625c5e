----------------------------- MODULE LifeTrace -----------------------------
(* Decides recorded executions at the level of connections: how they begin and
   how they end.

   Time unit: 100 microseconds.  Goroutines of one endpoint log in any order
   within one instant of virtual time, so what must follow from an event is
   required when time has moved on (Tick).

   Cf.ch    channels: [ep, peer, u: attempt that made it, cl: on the side that connects,
            c, g: has a reader of its own, a common reader, opp: the channel at the other end]
   Cf.att   attempts: [own, peer]         Cf.ep  endpoints    Cf.g  those with a reader
   Cf.loss  the network may lose packets
   Events
     CALL u t       attempt u begins       RET u ok c must t   it returns (channel c); must: nothing
                                           was in its way
     H k u ep p t   handshake packet k of attempt u arrives at ep from p
     CB c u ok t    connect callback       UP c t         first sign of channel c
     I k ep p live t, O k ep p n t         any other packet arrives (live: counts as a sign
                                           of life), leaves (n: data packet sent the nth time)
     M c s ok t     message handed over (s: channels messages of this content were sent on)
     E c lvl ok t   the reader is told that c ended      GE ep lvl t  that the endpoint is closed
     W c r t        a send begins (r: what it will return)
     CL c t         Close of channel c     CE ep t        Close of an endpoint
     DS c v t       Destroyed() = v        LS ep l t      channels listed    ST ep n t  statistic
     U t            callback for a channel that was never announced
     F c t          everything sent on c has had time to arrive
     Z t            end of the recording
   Toggles Props: C05 connecting, C06 repeated handshake packets, C07 the end,
   C08 silence.                                                                *)
EXTENDS TraceBase

CONSTANT Props

Tick == 100          \* 10 ms
Sec == 10000
SilentLo == 6 * Sec - 5
SilentHi == 7 * Sec + Tick
ConnTime == 5 * Sec
Behind == 8 * Sec    \* what a failed attempt leaves at the other side ends within this time
Probe == 5 * Sec + Tick    \* an idle peer is probed
ProbeEvery == Sec + Tick
Never == 2000000000

VARIABLES cs,   \* channels
          as,   \* attempts
          es,   \* endpoints
          px    \* per (endpoint, peer): end of the last channel, disconnects allowed and due, pong due, ...

vars == <<tr, l, cs, as, es, px>>
C == 1..Len(Cf.ch)
A == 1..Len(Cf.att)
EP == {Cf.ep[i] : i \in 1..Len(Cf.ep)}
On(p) == p \in Props
Max(a, b) == IF a > b THEN a ELSE b

Pairs == {<<a, b>> : a \in EP, b \in EP}
Init ==
  /\ TraceInit
  /\ cs = [c \in C |-> [st |-> "none", up |-> 0,
                        lo |-> 0, hi |-> 0,     \* last packet heard: of a kind that counts, any
                        told |-> {},            \* levels told of the end
                        et |-> -1,              \* when the first was told
                        due |-> Never,          \* all of them must have been told by then
                        why |-> FALSE,          \* there was a reason to end it
                        hs |-> -1,              \* last handshake packet from the peer
                        probe |-> 0,            \* last ping sent
                        acc |-> 0, got |-> 0]]  \* messages accepted, handed over
  /\ as = [u \in A |-> [st |-> "none", at |-> 0, t |-> 0, cb |-> 0, c2 |-> FALSE, c3 |-> FALSE, up |-> 0]]
  /\ es = [e \in EP |-> [closed |-> -1, told |-> 0, due |-> Never]]
  /\ px = [p \in Pairs |-> [ended |-> -1,        \* when the last channel ended
                            xmay |-> 0, xdue |-> Never,
                            podue |-> Never]]

Lvls(c) == (IF Cf.ch[c].c THEN {"c"} ELSE {}) \cup (IF Cf.ch[c].g THEN {"g"} ELSE {})
Pair(c) == <<Cf.ch[c].ep, Cf.ch[c].peer>>
Open(c) == cs[c].st = "open"
OpenAt(e, p) == {c \in C : Open(c) /\ Cf.ch[c].ep = e /\ Cf.ch[c].peer = p}

(* what must have happened before time moves on to t *)
Timely(t) ==
  /\ \A c \in C : (cs[c].st # "none" /\ t > cs[c].due) => cs[c].told = Lvls(c)
  /\ \A c \in C : (Open(c) /\ cs[c].due = Never) =>
       /\ On("C08") => t <= cs[c].hi + SilentHi
       /\ (On("C08") /\ Cf.ch[c].cl) => t <= Max(cs[c].probe, cs[c].hi + Probe - ProbeEvery) + ProbeEvery
       /\ (On("C05") /\ Cf.ch[c].u # 0) =>
            (as[Cf.ch[c].u].st = "err" => t <= Max(as[Cf.ch[c].u].t, cs[c].up) + Behind)
  /\ On("C05") => \A u \in A : as[u].st = "called" => t <= as[u].t + ConnTime + Tick
  /\ On("C07") => \A e \in EP : t > es[e].due => es[e].told = 1
  /\ On("C07") => \A p \in Pairs : t <= px[p].xdue
  /\ On("C08") => \A p \in Pairs : t <= px[p].podue

At(k) == Is(k) /\ Timely(Ev.t)

(* which properties care that an end is announced in time *)
DueBy(c, t) == IF cs[c].due < t + Tick THEN cs[c].due ELSE t + Tick
MustEnd(s, c, t) == [s EXCEPT ![c].due = DueBy(c, t), ![c].why = TRUE]
MustEndAll(S, t) == [c \in C |-> IF c \in S THEN [cs[c] EXCEPT !.due = DueBy(c, t), !.why = TRUE] ELSE cs[c]]

---------------------------------------------------------------------------
CALL == /\ At("CALL")
        /\ as' = [as EXCEPT ![Ev.u].st = "called", ![Ev.u].at = Ev.t, ![Ev.u].t = Ev.t]
        /\ UNCHANGED <<cs, es, px>>

\* u is not an attempt of the past from where v stands
Younger(u, v) == as[u].st = "called" \/ as[u].at > as[v].at

(* handshake packets: a genuinely new attempt may replace the connection *)
H == /\ At("H")
     /\ LET open == OpenAt(Ev.ep, Ev.p)
            known == Ev.u # 0
            mine == known /\ Cf.att[Ev.u].own = Ev.ep /\ Cf.att[Ev.u].peer = Ev.p
            theirs == known /\ Cf.att[Ev.u].own = Ev.p /\ Cf.att[Ev.u].peer = Ev.ep
            \* first answer to an attempt of this side that is under way
            own == mine /\ Ev.k = 2 /\ as[Ev.u].st = "called" /\ ~as[Ev.u].c2
            \* first key packet of an attempt of the other side
            his == theirs /\ Ev.k = 3 /\ ~as[Ev.u].c3
            may(c) == /\ Cf.ch[c].u # Ev.u
                      /\ \/ own
                         \/ his /\ Cf.ch[c].u = 0
                         \/ his /\ Cf.ch[c].u # 0 /\ Cf.att[Cf.ch[c].u].own = Ev.p /\ Younger(Ev.u, Cf.ch[c].u)
                         \/ his /\ Cf.ch[c].u # 0 /\ Cf.att[Cf.ch[c].u].own = Ev.ep
                                /\ (as[Ev.u].st = "called" \/ as[Ev.u].t > cs[c].up) IN
        /\ cs' = [c \in C |-> IF c \in open
                              THEN [cs[c] EXCEPT !.hi = Ev.t, !.hs = Ev.t, !.why = @ \/ may(c)]
                              ELSE cs[c]]
        /\ as' = IF own THEN [as EXCEPT ![Ev.u].c2 = TRUE] ELSE IF his THEN [as EXCEPT ![Ev.u].c3 = TRUE] ELSE as
     /\ UNCHANGED <<es, px>>

(* the accepting application is told: once, and the old connection is over *)
CB == /\ At("CB")
      /\ (On("C05") \/ On("C06")) => /\ Ev.u # 0
                                     /\ as[Ev.u].cb = 0
      /\ On("C05") => Ev.ok /\ as[Ev.u].st # "none"
      /\ as' = IF Ev.u # 0 THEN [as EXCEPT ![Ev.u].cb = @ + 1] ELSE as
      /\ cs' = [c \in C |-> IF c \in OpenAt(Cf.ch[Ev.c].ep, Cf.ch[Ev.c].peer) \ {Ev.c} /\ (On("C06") \/ On("C05"))
                            THEN [cs[c] EXCEPT !.due = DueBy(c, Ev.t)] ELSE cs[c]]
      /\ UNCHANGED <<es, px>>

UP == /\ At("UP")
      /\ On("C07") => (es[Cf.ch[Ev.c].ep].closed # -1 => Ev.t <= es[Cf.ch[Ev.c].ep].closed + Tick)
      /\ cs' = [cs EXCEPT ![Ev.c] = [@ EXCEPT !.st = "open", !.up = Ev.t, !.lo = Ev.t, !.hi = Ev.t, !.probe = 0]]
      /\ UNCHANGED <<as, es, px>>

(* the attempt returns *)
RET == /\ At("RET")
       /\ as' = [as EXCEPT ![Ev.u].st = IF Ev.ok THEN "ok" ELSE "err", ![Ev.u].t = Ev.t]
       /\ (On("C05") \/ On("C06")) => (Ev.must => Ev.ok)
       /\ On("C05") =>
            IF Ev.ok
            THEN \* the other side was told, once, and holds the connection
                 /\ as[Ev.u].cb = 1
                 /\ \E c \in C : Cf.ch[c].u = Ev.u /\ ~Cf.ch[c].cl /\ (Open(c) \/ cs[c].why)
            ELSE \/ Ev.t >= as[Ev.u].t + ConnTime - 5
                 \/ es[Cf.att[Ev.u].own].closed # -1
       /\ cs' = IF Ev.ok
                THEN [c \in C |-> IF c \in OpenAt(Cf.ch[Ev.c].ep, Cf.ch[Ev.c].peer) \ {Ev.c} /\ (On("C06") \/ On("C05"))
                                  THEN [cs[c] EXCEPT !.due = DueBy(c, Ev.t)] ELSE cs[c]]
                ELSE cs
       /\ UNCHANGED <<es, px>>

---------------------------------------------------------------------------
I == /\ At("I")
     /\ LET open == OpenAt(Ev.ep, Ev.p) IN
        /\ cs' = [c \in C |-> IF c \in open
                              THEN [cs[c] EXCEPT !.hi = Ev.t,
                                                 !.lo = IF Ev.live THEN Ev.t ELSE @,
                                                 !.probe = IF Ev.live THEN 0 ELSE @,
                                                 !.why = @ \/ Ev.k = "X",
                                                 !.due = IF Ev.k = "X" /\ On("C07") THEN DueBy(c, Ev.t) ELSE @]
                              ELSE cs[c]]
        /\ px' = IF Ev.k = "PI" /\ open # {} THEN [px EXCEPT ![Ev.ep, Ev.p].podue = IF @ < Ev.t + Tick THEN @ ELSE Ev.t + Tick] ELSE px
     /\ UNCHANGED <<as, es>>

O == /\ At("O")
     /\ LET open == OpenAt(Ev.ep, Ev.p)
            q == px[Ev.ep, Ev.p] IN
        \* nothing is sent to the peer of an ended connection
        /\ On("C07") => (open = {} /\ q.ended # -1 => Ev.t <= q.ended + 10)
        \* a disconnect only because the application ended it, once
        /\ (On("C07") /\ Ev.k = "X") => q.xmay > 0
        /\ px' = [px EXCEPT ![Ev.ep, Ev.p].xmay = IF Ev.k = "X" /\ @ > 0 THEN @ - 1 ELSE @,
                            ![Ev.ep, Ev.p].xdue = IF Ev.k = "X" THEN Never ELSE @,
                            ![Ev.ep, Ev.p].podue = IF Ev.k = "PO" THEN Never ELSE @]
        /\ cs' = [c \in C |-> IF c \in open
                              THEN [cs[c] EXCEPT !.probe = IF Ev.k = "PI" THEN Ev.t ELSE @,
                                                 !.why = @ \/ (Ev.k = "D" /\ Ev.n > 100)]
                              ELSE cs[c]]
     /\ UNCHANGED <<as, es>>

---------------------------------------------------------------------------
\* some message with this content was sent on channel c
From(c) == \E i \in 1..Len(Ev.s) : Ev.s[i] = c
M == /\ At("M")
     /\ On("C07") => (cs[Ev.c].et # -1 => Ev.t = cs[Ev.c].et)
     /\ On("C05") =>
          \* what is handed over is what the other end of this connection sent
          /\ Ev.ok /\ Cf.ch[Ev.c].opp # 0 /\ From(Cf.ch[Ev.c].opp)
          /\ (~Cf.ch[Ev.c].cl) => (Cf.ch[Ev.c].u # 0 /\ as[Cf.ch[Ev.c].u].cb > 0)
     /\ On("C06") => From(Cf.ch[Ev.c].opp)
     /\ cs' = [cs EXCEPT ![Ev.c].got = @ + 1]
     /\ UNCHANGED <<as, es, px>>

(* an end is announced *)
E == /\ At("E")
     /\ LET c == Ev.c
            silent == Ev.t - cs[c].lo >= SilentLo /\ Cf.loss
            reason == cs[c].why \/ silent
            late == cs[c].hs # -1 /\ Ev.t <= cs[c].hs + 10 IN
        /\ On("C07") => Ev.ok /\ Ev.lvl \in Lvls(c) \ cs[c].told
        /\ On("C06") => Ev.lvl \notin cs[c].told
        \* there is a reason: otherwise it was a late handshake packet, or nothing at all
        /\ On("C06") => (reason \/ ~late)
        /\ On("C08") => (reason \/ late)
        /\ cs' = [cs EXCEPT ![c] = [@ EXCEPT !.st = "ended", !.told = @ \cup {Ev.lvl}, !.et = IF @ = -1 THEN Ev.t ELSE @,
                                             !.due = IF On("C07") \/ On("C06") THEN DueBy(c, Ev.t) ELSE @]]
        /\ px' = [px EXCEPT ![Pair(c)] = [@ EXCEPT !.ended = Ev.t, !.podue = Never]]
     /\ UNCHANGED <<as, es>>

GE == /\ At("GE")
      /\ On("C07") => es[Ev.ep].closed # -1 /\ es[Ev.ep].told = 0 /\ Ev.lvl = "g"
      /\ es' = [es EXCEPT ![Ev.ep].told = @ + 1]
      /\ UNCHANGED <<cs, as, px>>

---------------------------------------------------------------------------
W == /\ At("W")
     /\ LET c == Ev.c IN
        /\ On("C07") => IF cs[c].et # -1 THEN Ev.r = "destroyed"
                        ELSE (Ev.r = "destroyed" => cs[c].st = "open")
        /\ On("C06") => ((Ev.r = "destroyed" /\ cs[c].et = -1) => cs[c].why)
        /\ cs' = [cs EXCEPT ![c].acc = IF Ev.r = "ok" THEN @ + 1 ELSE @]
     /\ UNCHANGED <<as, es, px>>

CL == /\ At("CL")
      /\ IF cs[Ev.c].et = -1
         THEN /\ cs' = IF On("C07") THEN MustEnd(cs, Ev.c, Ev.t) ELSE [cs EXCEPT ![Ev.c].why = TRUE]
              /\ px' = [px EXCEPT ![Pair(Ev.c)].xmay = @ + 1,
                                  ![Pair(Ev.c)].xdue = IF cs[Ev.c].why \/ cs[Ev.c].due # Never THEN @ ELSE Ev.t + Tick]
         ELSE UNCHANGED <<cs, px>>
      /\ UNCHANGED <<as, es>>

CE == /\ At("CE")
      /\ LET open == {c \in C : Open(c) /\ Cf.ch[c].ep = Ev.ep}
             ps == {Pair(c) : c \in open}
             ds == {Pair(c) : c \in {c \in open : ~cs[c].why /\ cs[c].due = Never}} IN
         IF es[Ev.ep].closed # -1 THEN UNCHANGED <<cs, px, es>>
         ELSE /\ cs' = IF On("C07") THEN MustEndAll(open, Ev.t) ELSE [c \in C |-> IF c \in open THEN [cs[c] EXCEPT !.why = TRUE] ELSE cs[c]]
              /\ px' = [p \in Pairs |-> IF p \in ps THEN [px[p] EXCEPT !.xmay = @ + 1, !.xdue = IF p \in ds THEN Ev.t + Tick ELSE @] ELSE px[p]]
              /\ es' = [es EXCEPT ![Ev.ep].closed = Ev.t,
                                  ![Ev.ep].due = IF \E i \in 1..Len(Cf.g) : Cf.g[i] = Ev.ep THEN Ev.t + Tick ELSE Never]
      /\ UNCHANGED as

DS == /\ At("DS")
      /\ On("C07") => IF Ev.v THEN cs[Ev.c].et # -1 \/ cs[Ev.c].st = "open" ELSE cs[Ev.c].et = -1
      /\ cs' = IF Ev.v /\ cs[Ev.c].et = -1 /\ On("C07") THEN [cs EXCEPT ![Ev.c].due = DueBy(Ev.c, Ev.t)] ELSE cs
      /\ UNCHANGED <<as, es, px>>

(* the channels listed are the open ones *)
LS == /\ At("LS")
      /\ LET in == {Ev.l[i] : i \in 1..Len(Ev.l)}
             open == {c \in C : Open(c) /\ Cf.ch[c].ep = Ev.ep} IN
         /\ On("C05") => /\ 0 \notin in
                         /\ \A c \in in : c # 0 => (cs[c].st # "none" /\ Cf.ch[c].ep = Ev.ep)
         /\ On("C07") => \A c \in in : c # 0 => cs[c].et = -1
         /\ cs' = [c \in C |-> IF c \in open \ in /\ cs[c].up < Ev.t /\ (On("C05") \/ On("C07")) THEN [cs[c] EXCEPT !.due = DueBy(c, Ev.t)] ELSE cs[c]]
      /\ UNCHANGED <<as, es, px>>

ST == /\ At("ST")
      /\ LET ps == {Ev.p[i] : i \in 1..Len(Ev.p)} IN
         On("C07") => \A p \in ps \cap EP :
            (px[Ev.ep, p].ended # -1 => (OpenAt(Ev.ep, p) # {} \/ \E c \in C : Pair(c) = <<Ev.ep, p>> /\ cs[c].st = "none"))
      /\ UNCHANGED <<cs, as, es, px>>

(* something of a connection nobody was told of *)
U == /\ At("U")
     /\ ~On("C05")
     /\ UNCHANGED <<cs, as, es, px>>

(* every message either sends is understood by the other *)
F == /\ At("F")
     /\ LET c == Ev.c
            o == Cf.ch[c].opp IN
        (On("C05") \/ On("C06")) =>
          ((Open(c) /\ o # 0) => (Open(o) => cs[o].got = cs[c].acc))
     /\ UNCHANGED <<cs, as, es, px>>

Z == At("Z") /\ UNCHANGED <<cs, as, es, px>>

Next == CALL \/ RET \/ H \/ CB \/ UP \/ I \/ O \/ M \/ E \/ GE \/ W \/ CL \/ CE \/ DS \/ LS \/ ST \/ U \/ F \/ Z
Spec == Init /\ [][Next]_vars
=============================================================================
