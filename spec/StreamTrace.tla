---------------------------- MODULE StreamTrace ----------------------------
(* Decides recorded executions at the level of messages: calls that accept
   messages (W, R), messages handed over (M), the end of a scenario (F).

   Cf.s: sending channels, Cf.r: receiving channels.
   Toggles Props: C01 order, exactly once, nothing invented, complete at the
   end; C02 content (also later: K), length, number; C13 as C01 plus B, a long stream checked
   by the driver message by message and reported as counts.                   *)
EXTENDS TraceBase, StreamOps

CONSTANT Props

VARIABLES open,   \* per sending channel: messages whose call began and that are
                  \* neither refused nor handed over: [m, len, id (-1: not known)]
          over,   \* pairs of messages whose calls overlapped
          early,  \* handed over before their call returned: <<m, id>>
          last,   \* per sending channel: the calls made so far
          src     \* per receiving channel: where its messages come from

svars == <<tr, l, open, over, early, last, src>>

Chs == {Cf.s[i] : i \in 1..Len(Cf.s)}
Rcs == {Cf.r[i] : i \in 1..Len(Cf.r)}

Init == /\ TraceInit
        /\ open = [c \in Chs |-> {}]
        /\ over = [c \in Chs |-> {}]
        /\ early = [c \in Chs |-> {}]
        /\ last = [c \in Chs |-> 0]
        /\ src = [r \in Rcs |-> ""]

G(p, cond) == p \in Props => cond

\* a call to send message m begins; pend: calls of other goroutines under way
W == /\ Is("W")
     /\ Ev.m = last[Ev.ch] + 1
     /\ last' = [last EXCEPT ![Ev.ch] = Ev.m]
     /\ open' = [open EXCEPT ![Ev.ch] = @ \cup {[m |-> Ev.m, len |-> Ev.len, id |-> -1]}]
     /\ over' = [over EXCEPT ![Ev.ch] = @ \cup {<<Ev.pend[i], Ev.m>> : i \in 1..Len(Ev.pend)}]
     /\ UNCHANGED <<early, src>>

\* it returns
R == /\ Is("R")
     /\ LET o == {x \in open[Ev.ch] : x.m = Ev.m}
            e == {x \in early[Ev.ch] : x[1] = Ev.m} IN
        IF Ev.ok
        THEN /\ open' = [open EXCEPT ![Ev.ch] = (@ \ o) \cup {[x EXCEPT !.id = Ev.id] : x \in o}]
             /\ \A x \in e : G("C02", x[2] = Ev.id)
             /\ early' = [early EXCEPT ![Ev.ch] = @ \ e]
        ELSE \* refused: never handed over
             /\ e = {}
             /\ open' = [open EXCEPT ![Ev.ch] = @ \ o]
             /\ early' = early
     /\ UNCHANGED <<over, last, src>>

\* a message is handed over at channel Ev.r.  Ev.c: the messages that have this
\* content (pairs of channel and number); usually one
M == /\ Is("M")
     /\ \E i \in 1..Len(Ev.c) :
        LET s == Ev.c[i][1]
            m == Ev.c[i][2] IN
        /\ s \in Chs                         \* not invented
        /\ src[Ev.r] \in {"", s}
        /\ \A r \in Rcs : r # Ev.r => src[r] # s
        /\ src' = [src EXCEPT ![Ev.r] = s]
        /\ \E x \in open[s] :               \* begun, not refused, not handed over before
          /\ x.m = m
          \* every message before it was handed over before
          /\ IF {"C01", "C13"} \cap Props # {}
             THEN \A y \in open[s] : y.m < x.m => <<y.m, x.m>> \in over[s]
             ELSE TRUE
          /\ G("C02", Ev.ok /\ Ev.len = x.len /\ (x.id # -1 => Ev.id = x.id))
          /\ open' = [open EXCEPT ![s] = @ \ {x}]
          /\ over' = [over EXCEPT ![s] = {p \in @ : p[1] # x.m}]
          /\ early' = IF x.id = -1 THEN [early EXCEPT ![s] = @ \cup {<<x.m, Ev.id>>}] ELSE early
     /\ UNCHANGED last

\* the network has worked long enough: all of it is there
F == /\ Is("F")
     /\ open[Ev.ch] = {}
     /\ UNCHANGED <<open, over, early, last, src>>

\* a long stream of n messages, errs of them refused, got handed over, bad of those
\* not the next one expected; miss: number of a packet the network never lets through
\* (-1: none); at: number of the last packet accepted before the first refusal.
\* Nothing is refused unless half of the range is about to be in use.
Range == 1048576
B == /\ Is("B")
     /\ Ev.bad = 0
     /\ Ev.got = Ev.n - Ev.errs
     /\ Ev.errs > 0 => (Ev.miss >= 0 /\ ~InWindow(Range, Ev.miss, (Ev.at + 1000) % Range))
     /\ UNCHANGED <<open, over, early, last, src>>

\* n of the messages handed over were changed afterwards
K == /\ Is("K")
     /\ G("C02", Ev.n = 0)
     /\ UNCHANGED <<open, over, early, last, src>>

Next == W \/ R \/ M \/ F \/ B \/ K
Spec == Init /\ [][Next]_svars
=============================================================================
