------------------------------ MODULE CallTrace ------------------------------
(* Decides what concurrent calls on endpoints and connections report: every call
   takes effect at one moment (ending a connection, closing an endpoint: at a few
   moments, each as a whole) between its beginning and its return.  The moments
   are not recorded: TLC looks for them.  Module Calls shows that the code's
   steps have them.

   Cf.conns  [ep, opp]: endpoint, other side (0: none, never seen)
   Cf.size   per option of SetMaxDataLen: nothing to know but the number of options
   Cf.len0   per endpoint the option it starts with
   Cf.ops    the calls, with their results:
     w  c id ok ks        write; ks: packets it needs, per option; id: number of the first
     d  c v               Destroyed                cl c        Close of a connection
     ls ep cs             ForEachChannel           st ep rows  Statistic: <<c, send>>
     ce ep                Close of the endpoint    cn ep to c sc ok   Connect; c, sc: both sides
     sm ep n   SetMaxDataLen     sp ep n   SetPunchCb   pu to n   a punch and the callback that got it
     pp ps pr(v) ml(v) ep        statistic: print, stop, running?, minilog
   Events
     I q  a call begins        R q  it returns
     M c id wid   end c is handed the message whose sender was told wid
     E ep         the reader is told that its endpoint is closed
     X c          its reader is told the end      CB c   the connect callback of end c
     V q          the delivery callback of call q
     S            every goroutine waits
     F            all is quiet                                                            *)
EXTENDS TraceBase

VARIABLES pend,    \* calls that have begun and not yet taken effect
          mid,     \* calls that end something and have begun to
          lows,    \* statistic calls: what they have to show at least
          cs,      \* connections
          eps,     \* endpoints
          told,    \* delivery callbacks called
         last     \* connection moved last

vars == <<tr, l, pend, mid, lows, cs, eps, told, last>>
C == 1..Len(Cf.conns)
Op(q) == Cf.ops[q]
Opp(c) == Cf.conns[c].opp
EpOf(c) == Cf.conns[c].ep

Init ==
  /\ TraceInit
  /\ pend = {} /\ mid = {} /\ lows = {} /\ told = {} /\ last = 0
  /\ cs = [c \in C |-> [st |-> "no", size |-> 0, nid |-> 0, seq |-> <<>>, ok |-> 0, handed |-> 0, ending |-> FALSE, tried |-> FALSE, ends |-> 0]]
  /\ eps = [e \in 1..Cf.ne |-> [closed |-> FALSE, len |-> Cf.len0[e], punch |-> 1, told |-> FALSE, stopped |-> FALSE, print |-> FALSE, mini |-> FALSE]]

Ended(c) == cs[c].st \in {"ended", "gone"}
Listed(e) == {c \in C : EpOf(c) = e /\ cs[c].st \in {"up", "ended"}}

---------------------------------------------------------------------------
(* the moments of the calls *)

Same == UNCHANGED <<tr, l>>
Took(q) == pend' = pend \ {q}

(* Calls that only look, have no effect any more, or send: as none of them makes
   another impossible they take their moment as soon as there is one           *)
Now(q) ==
  LET o == Op(q) IN
  CASE o.k = "w" -> IF o.ok THEN cs[o.c].st = "up" /\ o.id = cs[o.c].nid ELSE Ended(o.c)
    [] o.k = "d" -> o.v = Ended(o.c)
    [] o.k = "ls" -> {o.cs[i] : i \in 1..Len(o.cs)} = Listed(o.ep)
    [] o.k = "st" -> {o.rows[i][1] : i \in 1..Len(o.rows)} = Listed(o.ep)
    [] o.k = "cl" -> Ended(o.c)     \* (the first: End)
    [] o.k = "ce" -> eps[o.ep].closed
    [] o.k = "cn" -> IF o.ok THEN cs[o.c].st # "no" /\ (o.sc = 0 \/ cs[o.sc].st # "no")
                     ELSE (eps[o.ep].closed \/ eps[o.to].closed) /\ Ev.e = "R" /\ Ev.q = q
    [] o.k = "pu" -> o.n = eps[o.to].punch
    [] o.k = "pr" -> o.v = eps[o.ep].print
    [] OTHER -> FALSE

Ready == {q \in pend : Now(q)}

Moment ==
  /\ Ready # {}
  /\ LET q == CHOOSE x \in Ready : TRUE
         o == Op(q) IN
     /\ cs' = IF o.k = "w" /\ o.ok
              THEN [cs EXCEPT ![o.c].nid = @ + o.ks[cs[o.c].size], ![o.c].seq = Append(@, o.id)]
              ELSE cs
     /\ Took(q)
     /\ last' = IF o.k \in {"ls", "st"} THEN 0 ELSE last
  /\ Same /\ UNCHANGED <<mid, lows, eps, told>>

(* settings *)
Set ==
  /\ \E q \in pend :
       /\ LET o == Op(q) IN
          CASE o.k = "sm" -> eps' = [eps EXCEPT ![o.ep].len = o.n]
            [] o.k = "sp" -> eps' = [eps EXCEPT ![o.ep].punch = o.n]
            [] o.k = "pp" -> eps' = [eps EXCEPT ![o.ep].print = TRUE]
            [] o.k = "ps" -> eps' = [eps EXCEPT ![o.ep].print = FALSE]
            [] o.k = "ml" -> o.v = ~eps[o.ep].mini /\ eps' = [eps EXCEPT ![o.ep].mini = o.v]
            [] OTHER -> FALSE
       /\ Took(q)
  /\ last' = 0
  /\ Same /\ UNCHANGED <<mid, lows, cs, told>>

(* The connections something waits for: others need not move yet.  Between two
   observations they move in the order of their numbers (any other order comes
   to the same), and when only the next event asks for it there is no choice    *)
Asked ==
  UNION {CASE Op(q).k \in {"w", "d", "cl"} -> {Op(q).c}
           [] Op(q).k \in {"ls", "st"} -> {c \in C : EpOf(c) = Op(q).ep}
           [] OTHER -> {} : q \in pend}
(* closing an endpoint and its settings matter to what comes up afterwards *)
AskedUp ==
  UNION {CASE Op(q).k \in {"w", "d"} -> {Op(q).c}
           [] Op(q).k \in {"ls", "st", "ce", "sm"} -> {c \in C : EpOf(c) = Op(q).ep}
           [] OTHER -> {} : q \in pend}
Needed ==
  CASE Ev.e = "R" -> IF Ev.q \in pend /\ Op(Ev.q).k = "cn" /\ Op(Ev.q).ok
                     THEN {c \in {Op(Ev.q).c, Op(Ev.q).sc} \ {0} : cs[c].st = "no"}
                     ELSE IF Ev.q \notin mid THEN {}
                     ELSE IF Op(Ev.q).k = "cl" THEN {c \in {Op(Ev.q).c} : cs[c].st # "gone"}
                     ELSE {c \in C : EpOf(c) = Op(Ev.q).ep /\ cs[c].st = "up"}
    [] Ev.e = "CB" -> {c \in {Ev.c} : cs[c].st = "no"}
    [] Ev.e = "X" -> {c \in {Ev.c} : ~Ended(c)}
    [] Ev.e \in {"S", "F"} -> {c \in C : cs[c].st = "ended"}
    [] OTHER -> {}
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Next1 == IF Needed = {} THEN {} ELSE {Min(Needed)}
Wanted == {c \in Asked : c >= last} \cup Next1
WantedUp == {c \in AskedUp : c >= last} \cup Next1

(* the first Close of a connection: the end, then no longer listed *)
End == /\ \E q \in pend : /\ Op(q).k = "cl" /\ cs[Op(q).c].st = "up"
                          /\ cs' = [cs EXCEPT ![Op(q).c].st = "ended"]
                          /\ Took(q) /\ mid' = mid \cup {q}
       /\ Same /\ UNCHANGED <<lows, eps, told, last>>
(* of an endpoint: no new connections, then the end of each *)
CloseEp == /\ \E q \in pend : /\ Op(q).k = "ce" /\ ~eps[Op(q).ep].closed
                              /\ eps' = [eps EXCEPT ![Op(q).ep].closed = TRUE]
                              /\ Took(q) /\ mid' = mid \cup {q}
           /\ last' = 0
           /\ Same /\ UNCHANGED <<lows, cs, told>>

(* ... and last no statistic is printed any more *)
StopPrint == /\ \E q \in mid :
                  /\ Op(q).k = "ce" /\ ~eps[Op(q).ep].stopped
                  /\ \/ \E p \in pend : Op(p).k \in {"pp", "ps", "pr"} /\ Op(p).ep = Op(q).ep
                     \/ Ev.e = "R" /\ Ev.q = q
                  /\ eps' = [eps EXCEPT ![Op(q).ep].stopped = TRUE, ![Op(q).ep].print = FALSE]
             /\ last' = 0
             /\ Same /\ UNCHANGED <<pend, mid, lows, cs, told>>

(* what is not a call of the application: ends from elsewhere, connections coming up *)
CanEnd(c) == (Opp(c) # 0 /\ cs[Opp(c)].ending) \/ eps[EpOf(c)].closed
Away(c) == /\ cs[c].st = "up"
           /\ CanEnd(c)
           /\ cs' = [cs EXCEPT ![c].st = "ended"]
           /\ last' = c
           /\ Same /\ UNCHANGED <<pend, mid, lows, eps, told>>
Unlist(c) == /\ cs[c].st = "ended" /\ cs' = [cs EXCEPT ![c].st = "gone"]
             /\ last' = c
             /\ Same /\ UNCHANGED <<pend, mid, lows, eps, told>>
ComeUp(c) == /\ cs[c].st = "no" /\ ~eps[EpOf(c)].closed
             /\ \/ \E q \in pend : Op(q).k = "cn" /\ c = Op(q).c
                \/ cs[c].tried   \* (by the other side, which may have given up since)
             /\ cs' = [cs EXCEPT ![c].st = "up", ![c].size = eps[EpOf(c)].len]
             /\ last' = c
             /\ Same /\ UNCHANGED <<pend, mid, lows, eps, told>>

---------------------------------------------------------------------------
(* what is recorded *)

(* closing tells the other side first, so that may end before this one *)
Begin ==
  /\ Is("I")
  /\ LET o == Op(Ev.q) IN
     /\ cs' = IF o.k = "cl" THEN [cs EXCEPT ![o.c].ending = TRUE]
              ELSE IF o.k = "ce" THEN [c \in C |-> IF EpOf(c) = o.ep THEN [cs[c] EXCEPT !.ending = TRUE] ELSE cs[c]]
              ELSE IF o.k = "cn" /\ o.sc # 0 THEN [cs EXCEPT ![o.sc].tried = TRUE]
              ELSE cs
     /\ lows' = IF o.k = "st" THEN lows \cup {[q |-> Ev.q, low |-> [c \in C |-> cs[c].ok]]} ELSE lows
  /\ pend' = pend \cup {Ev.q}
  /\ UNCHANGED <<mid, eps, told>>

Return ==
  /\ Is("R")
  /\ Ev.q \notin pend
  /\ LET o == Op(Ev.q) IN
     /\ Ev.q \in mid => IF o.k = "cl" THEN cs[o.c].st = "gone"
                        ELSE eps[o.ep].stopped /\ \A c \in C : EpOf(c) = o.ep => cs[c].st # "up"
     /\ o.k = "st" =>
          LET low == (CHOOSE x \in lows : x.q = Ev.q).low IN
          \A i \in 1..Len(o.rows) : LET c == o.rows[i][1] IN o.rows[i][2] >= low[c] /\ o.rows[i][2] <= Len(cs[c].seq)
     /\ cs' = IF o.k = "w" /\ o.ok THEN [cs EXCEPT ![o.c].ok = @ + 1] ELSE cs
  /\ lows' = {x \in lows : x.q # Ev.q}
  /\ mid' = mid \ {Ev.q}
  /\ UNCHANGED <<pend, eps, told>>

(* the receiver gets what was sent, whole and in the order of the sends *)
Msg == /\ Is("M")
       /\ LET s == Opp(Ev.c) IN
          /\ s # 0
          /\ cs[Ev.c].handed < Len(cs[s].seq)
          /\ cs[s].seq[cs[Ev.c].handed + 1] = Ev.id
          /\ Ev.wid = Ev.id
       /\ cs' = [cs EXCEPT ![Ev.c].handed = @ + 1]
       /\ UNCHANGED <<pend, mid, lows, eps, told>>

Notice == /\ Is("X")
          /\ Ended(Ev.c) /\ cs[Ev.c].ends = 0
          /\ cs' = [cs EXCEPT ![Ev.c].ends = 1]
          /\ UNCHANGED <<pend, mid, lows, eps, told>>

ClosedNotice == /\ Is("E")
                /\ eps[Ev.ep].closed /\ ~eps[Ev.ep].told
                /\ eps' = [eps EXCEPT ![Ev.ep].told = TRUE]
                /\ UNCHANGED <<pend, mid, lows, cs, told>>

Connected == Is("CB") /\ cs[Ev.c].st # "no" /\ UNCHANGED <<pend, mid, lows, cs, eps, told>>

(* one verdict, for something that was sent *)
Verdict == /\ Is("V")
           /\ Ev.q \notin told /\ Ev.q \notin pend
           /\ told' = told \cup {Ev.q}
           /\ UNCHANGED <<pend, mid, lows, cs, eps>>

(* every goroutine waits for something: no connection is half gone *)
Settled == /\ Is("S")
           /\ \A c \in C : cs[c].st # "ended"
           /\ UNCHANGED <<pend, mid, lows, cs, eps, told>>

(* it is up, and did not end unnoticed: without a reader nobody is told *)
Stays(c) == cs[c].st = "up" /\ (Cf.readers[EpOf(c)] \/ ~CanEnd(c))

Fin == /\ Is("F")
       /\ pend = {} /\ mid = {}
       /\ \A c \in C : /\ (Stays(c) /\ Opp(c) # 0) => (Stays(Opp(c)) => cs[Opp(c)].handed = Len(cs[c].seq))
                       /\ Ended(c) => (cs[c].st = "gone" /\ (Cf.readers[EpOf(c)] => cs[c].ends = 1))
       /\ \A e \in 1..Cf.ne : (eps[e].closed /\ Cf.readers[e]) => eps[e].told
       /\ \A q \in 1..Len(Cf.ops) : (Op(q).k = "w" /\ Op(q).ok /\ Op(q).cb) => q \in told
       /\ UNCHANGED <<pend, mid, lows, cs, eps, told>>

Recorded == (Begin \/ Return \/ Msg \/ Notice \/ ClosedNotice \/ Connected \/ Verdict \/ Settled \/ Fin) /\ last' = 0
Next == IF ~More THEN Recorded
        ELSE IF Ready # {} THEN Moment
        ELSE \/ Recorded \/ Set \/ End \/ CloseEp \/ StopPrint
             \/ \E c \in Wanted : Away(c) \/ Unlist(c)
             \/ \E c \in WantedUp : ComeUp(c)
Spec == Init /\ [][Next]_vars
=============================================================================
