------------------------------ MODULE NetTrace ------------------------------
(* Decides recorded executions of stream connections and listeners against the
   rules of module NetConn, with time.

   Cf.ends  ends of connections: [raw: used without the stream interface, l: listener it
            comes from (0: dialled), opp: the other end]       Cf.nl  number of listeners
   Cf.fast  nothing is lost and everything takes a few milliseconds
   Events
     EST c t           end c is connected            H c t   a packet of its peer arrives
     X c t             its peer's good-bye arrives    XR c t  a next connection replaces it
     AC q l t, AR q l ok c adr t    Accept called, returned (adr: the right addresses)
     DR c l el ok adr t   Dial returned (l: the listener dialled, el: the one of its own endpoint)
     W q c len t, WR q c ok n t     a write               R q c buf res t, RR q c t   a read (res: what it will return)
     CL q c t, CR q c ok t          Close of a connection  LC q l t, LR q l t   of a listener
     NL c t            the network of end c begins to lose
     LA ok t           Addr                          M c src m ok t   a raw end is handed a message
     F c t             everything written on c has had time to arrive
     Z t                                                                                  *)
EXTENDS TraceBase

VARIABLES es,    \* ends
          lst,   \* listeners
          rds,   \* waiting reads
          acs,   \* waiting accepts
          calls  \* writes and closes being made, with the time they began

vars == <<tr, l, es, lst, rds, acs, calls>>
E == 1..Len(Cf.ends)
Soon == 10000      \* 1 s
Tick == 100        \* 10 ms
Quiet == 60000     \* 6 s without a packet: the connection may be ended
Dead == 71000      \* 7.1 s: it must have been
Never == 1000000000

Init ==
  /\ TraceInit
  /\ es = [e \in E |-> [up |-> FALSE, held |-> FALSE, msgs |-> <<>>, k |-> 0, off |-> 0, begun |-> FALSE, since |-> 0,
                        heard |-> 0, may |-> Never, must |-> Never, own |-> Never, over |-> FALSE, lossy |-> FALSE]]
  /\ lst = [i \in 1..Cf.nl |-> [est |-> <<>>, closing |-> Never, closed |-> Never]]
  /\ rds = {} /\ acs = {} /\ calls = {}

Least(a, b) == IF a < b THEN a ELSE b
(* from when on the end may, must have ended, as far as is known *)
May(e) == Least(es[e].may, IF es[e].up THEN es[e].heard + Quiet ELSE Never)
Must(e) == Least(es[e].must, IF es[e].up THEN es[e].heard + Dead ELSE Never)
Opp(e) == Cf.ends[e].opp
Sent(e) == IF Opp(e) = 0 THEN <<>> ELSE es[Opp(e)].msgs

Certain(e) == Cf.fast /\ ~es[e].lossy /\ (Opp(e) = 0 \/ ~es[Opp(e)].lossy)
(* ended by itself, end e tells its peer, who learns of it when nothing is lost *)
Told(s, e, t) == LET o == Opp(e) IN
                 IF o # 0 /\ Certain(e) /\ es[e].up /\ es[o].up THEN [s EXCEPT ![o].must = Least(@, t + Soon)] ELSE s
(* what had arrived when the peer ended can still be read *)
Unread(e) == /\ es[e].own = Never
             /\ \/ es[e].begun
                \/ Certain(e) /\ \E j \in es[e].k + 1..Len(Sent(e)) : Sent(e)[j].ok /\ Sent(e)[j].t + Soon < May(e)

(* a waiting call that has to have returned by now *)
Late(r) ==
  LET e == r.c
      w == Sent(e) IN
  \/ Ev.t > (IF Must(e) > r.t THEN Must(e) ELSE r.t) + Tick
  \/ es[e].begun /\ es[e].off = w[es[e].k + 1].len /\ Ev.t > (IF es[e].since > r.t THEN es[e].since ELSE r.t) + Tick
  \/ /\ Cf.fast /\ ~es[e].lossy /\ es[e].k < Len(w) /\ w[es[e].k + 1].ok
     /\ Ev.t <= May(e) /\ Ev.t <= May(Opp(e))
     /\ Ev.t > (IF w[es[e].k + 1].t > r.t THEN w[es[e].k + 1].t ELSE r.t) + Soon
LateAccept(a) ==
  \/ Ev.t > (IF lst[a.l].closing > a.t THEN lst[a.l].closing ELSE a.t) + Tick
  \/ lst[a.l].est # <<>> /\ Ev.t > (IF lst[a.l].est[1].t > a.t THEN lst[a.l].est[1].t ELSE a.t) + Tick

At(k) == /\ Is(k)
         /\ \A r \in rds : r.took \/ ~Late(r)
         /\ \A a \in acs : ~LateAccept(a)

Est == /\ At("EST")
       /\ es' = [es EXCEPT ![Ev.c].up = TRUE, ![Ev.c].heard = Ev.t]
       /\ lst' = IF Cf.ends[Ev.c].l = 0 THEN lst
                 ELSE [lst EXCEPT ![Cf.ends[Ev.c].l].est = Append(@, [c |-> Ev.c, t |-> Ev.t])]
       /\ UNCHANGED <<rds, acs, calls>>

(* being heard too late does not bring a connection back *)
Hear == /\ At("H")
        /\ es' = [es EXCEPT ![Ev.c] = [@ EXCEPT !.heard = Ev.t, !.may = IF May(Ev.c) <= Ev.t THEN May(Ev.c) ELSE @,
                                                !.must = IF Must(Ev.c) <= Ev.t THEN Must(Ev.c) ELSE @]]
        /\ UNCHANGED <<lst, rds, acs, calls>>

EndAt(s, t) == [s EXCEPT !.may = Least(@, t), !.must = Least(@, t)]
Bye == (At("X") \/ At("XR")) /\ es' = [es EXCEPT ![Ev.c] = EndAt(@, Ev.t)] /\ UNCHANGED <<lst, rds, acs, calls>>

Lossy == At("NL") /\ es' = [es EXCEPT ![Ev.c].lossy = TRUE] /\ UNCHANGED <<lst, rds, acs, calls>>

AcceptCall == At("AC") /\ acs' = acs \cup {[q |-> Ev.q, l |-> Ev.l, t |-> Ev.t]} /\ UNCHANGED <<es, lst, rds, calls>>
AcceptRet ==
  /\ At("AR")
  /\ acs' = {a \in acs : a.q # Ev.q}
  /\ IF Ev.ok
     THEN /\ \E a \in acs : a.q = Ev.q /\ a.t <= lst[Ev.l].closed
          /\ Ev.adr
          /\ \E i \in 1..Len(lst[Ev.l].est) : lst[Ev.l].est[i].c = Ev.c
          /\ ~es[Ev.c].held
          /\ lst' = [lst EXCEPT ![Ev.l].est = SelectSeq(@, LAMBDA x : x.c # Ev.c)]
          /\ es' = [es EXCEPT ![Ev.c].held = TRUE]
     ELSE /\ lst[Ev.l].closing # Never
          /\ UNCHANGED <<lst, es>>
  /\ UNCHANGED <<rds, calls>>

DialRet == /\ At("DR")
           /\ IF Ev.ok THEN Ev.adr /\ Ev.c # 0
              ELSE Cf.fast /\ Ev.l # 0 =>
                     \/ lst[Ev.l].closing <= Ev.t
                     \/ Ev.el # 0 /\ lst[Ev.el].closing <= Ev.t /\ lst[Ev.el].closing >= Ev.t - 60000
                     \/ \E c \in E : es[c].lossy
           /\ es' = IF Ev.ok THEN [es EXCEPT ![Ev.c].held = TRUE] ELSE es
           /\ UNCHANGED <<lst, rds, acs, calls>>

Call == [q |-> Ev.q, t |-> Ev.t]
Began(q) == (CHOOSE x \in calls : x.q = q).t
Done == calls' = {x \in calls : x.q # Ev.q}

WriteCall == /\ At("W")
             /\ es' = [es EXCEPT ![Ev.c].msgs = Append(@, [q |-> Ev.q, len |-> Ev.len, t |-> Ev.t, ok |-> FALSE])]
             /\ calls' = calls \cup {Call}
             /\ UNCHANGED <<lst, rds, acs>>
(* the full length, or an error, which needs a reason *)
WriteRet ==
  /\ At("WR")
  /\ LET s == es[Ev.c].msgs
         i == CHOOSE i \in 1..Len(s) : s[i].q = Ev.q IN
     IF Ev.ok
     THEN /\ Ev.n = s[i].len
          /\ Began(Ev.q) <= Must(Ev.c)
          /\ es' = [es EXCEPT ![Ev.c].msgs[i] = [@ EXCEPT !.ok = TRUE, !.t = Ev.t]]
     ELSE /\ Ev.t >= May(Ev.c)
          /\ es' = es
  /\ Done /\ UNCHANGED <<lst, rds, acs>>

ReadCall == /\ At("R")
            /\ rds' = rds \cup {[q |-> Ev.q, c |-> Ev.c, buf |-> Ev.buf, t |-> Ev.t, res |-> Ev.res, took |-> FALSE]}
            /\ UNCHANGED <<es, lst, acs, calls>>
(* what the read returns is what it must find *)
Finds(r) ==
  LET e == es[r.c]
      x == r.res
      w == Sent(r.c)
      len == w[e.k + 1].len
      Same == Cf.multi /\ x.n > 0 => \E i \in 1..Len(x.at) : x.at[i] = <<e.k + 1, e.off>> IN
  /\ x.ok
  /\ CASE x.err = "" ->
            /\ ~e.over /\ x.n <= r.buf
            /\ IF r.buf = 0 THEN x.n = 0
               ELSE /\ e.k < Len(w)
                    /\ e.off + x.n <= len
                    /\ x.n > 0 \/ (len = 0 /\ ~e.begun)
            /\ Same
            /\ es' = [es EXCEPT ![r.c].off = @ + x.n, ![r.c].since = Ev.t,
                                ![r.c].begun = IF e.k < Len(w) /\ (x.n > 0 \/ (r.buf > 0)) THEN TRUE ELSE @]
       [] x.err = "eof" ->
            /\ ~e.over /\ e.k < Len(w) /\ x.n <= r.buf
            /\ e.off + x.n = len
            /\ Same
            /\ es' = [es EXCEPT ![r.c].k = @ + 1, ![r.c].off = 0, ![r.c].since = Ev.t, ![r.c].begun = FALSE]
       [] OTHER ->
            /\ x.err = "destroyed" /\ x.n = 0
            /\ Ev.t >= May(r.c)
            /\ ~Unread(r.c)
            /\ es' = [es EXCEPT ![r.c].over = TRUE]
(* of several waiting reads any may be served next *)
Take == /\ Cf.multi /\ More
        /\ \E r \in rds :
             /\ ~r.took /\ r.res.done /\ r.res.err \in {"", "eof"}
             /\ Finds(r)
             /\ rds' = (rds \ {r}) \cup {[r EXCEPT !.took = TRUE]}
        /\ UNCHANGED <<tr, l, lst, acs, calls>>
ReadRet ==
  /\ At("RR")
  /\ LET r == CHOOSE r \in rds : r.q = Ev.q IN
     /\ rds' = rds \ {r}
     /\ IF r.took THEN es' = es ELSE Finds(r)
  /\ UNCHANGED <<lst, acs, calls>>

CloseCall == /\ At("CL")
             /\ es' = [es EXCEPT ![Ev.c] = [@ EXCEPT !.may = Least(@, Ev.t), !.own = Least(@, Ev.t)]]
             /\ calls' = calls \cup {[q |-> Ev.q, t |-> Ev.t, may |-> May(Ev.c), must |-> Must(Ev.c)]}
             /\ UNCHANGED <<lst, rds, acs>>
CloseRet == /\ At("CR")
            /\ LET x == CHOOSE x \in calls : x.q = Ev.q IN
               ~Ev.raw => IF Ev.ok THEN x.t <= x.must ELSE Ev.t >= x.may
            /\ es' = [Told(es, Ev.c, Ev.t) EXCEPT ![Ev.c] = EndAt(@, Ev.t)]
            /\ Done /\ UNCHANGED <<lst, rds, acs>>

(* closing a listener ends its endpoint and with it all its connections *)
Of(i, c) == Cf.ends[c].el = i
LCall == /\ At("LC")
         /\ lst' = [lst EXCEPT ![Ev.l].closing = Least(@, Ev.t)]
         /\ es' = [c \in E |-> IF Of(Ev.l, c) THEN [es[c] EXCEPT !.may = Least(@, Ev.t), !.own = Least(@, Ev.t)] ELSE es[c]]
         /\ UNCHANGED <<rds, acs, calls>>
LRet == /\ At("LR")
        /\ lst' = [lst EXCEPT ![Ev.l].closed = Least(@, Ev.t)]
        /\ es' = [c \in E |-> IF Of(Ev.l, c) /\ es[c].up THEN EndAt(es[c], Ev.t)
                                ELSE IF Opp(c) # 0 /\ Of(Ev.l, Opp(c)) THEN Told(es, Opp(c), Ev.t)[c] ELSE es[c]]
        /\ UNCHANGED <<rds, acs, calls>>

LAddr == At("LA") /\ Ev.ok /\ UNCHANGED <<es, lst, rds, acs, calls>>

(* messages of a stream connection arrive as messages at an end used without it *)
Msg == /\ At("M")
       /\ Ev.ok /\ Opp(Ev.c) # 0
       /\ \E i \in 1..Len(Ev.s) : Ev.s[i] = <<Opp(Ev.c), es[Ev.c].k + 1>>
       /\ es[Ev.c].k < Len(Sent(Ev.c))
       /\ es' = [es EXCEPT ![Ev.c].k = @ + 1]
       /\ UNCHANGED <<lst, rds, acs, calls>>

Fin == /\ At("F")
       /\ LET o == Opp(Ev.c) IN
          IF o = 0 THEN TRUE
          ELSE (Ev.t < May(Ev.c) /\ Ev.t < May(o)) => es[o].k = Len(es[Ev.c].msgs)
       /\ UNCHANGED <<es, lst, rds, acs, calls>>

Z == At("Z") /\ UNCHANGED <<es, lst, rds, acs, calls>>

Next == Take \/ Est \/ Hear \/ Bye \/ Lossy \/ AcceptCall \/ AcceptRet \/ DialRet \/ WriteCall \/ WriteRet \/ ReadCall \/ ReadRet
        \/ CloseCall \/ CloseRet \/ LCall \/ LRet \/ LAddr \/ Msg \/ Fin \/ Z
Spec == Init /\ [][Next]_vars
=============================================================================
