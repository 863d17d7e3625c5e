----------------------------- MODULE PrintTrace -----------------------------
(* Decides recorded executions of endpoints that print their statistic.

   Time unit: 100 microseconds.  What is printed is looked at every 10 ms and
   when a stop has returned, so a frame is seen at most Look late.

   Cf.ep    endpoints          Cf.slow  how long asking for the own address may take
   Events  (e: endpoint, field ep)
     NEW e t              it is made
     ON e t               StatisticPrint is called
     OFFC e t, OFF e t    StatisticPrintStop or Close is called, returned
     RUN e v t            StatisticPrintRunning() = v
     ML e v t             StatisticMinilog() = v
     CH e p n t           the number of its connections with p is n from now on
     LG e new p t         such a connection began (new) or ended
     FT e t               a frame was printed
     FR e t run k p v tot msgs odd     what was in it, in the place where all that may
                          belong to it has been recorded; rows: k rank of the address,
                          p peer, v figures; msgs: <<time, new, peer>>; odd: lines of
                          any other form
     NB ok t              an endpoint that cannot be made was not made
     Z t                  end of the recording                                   *)
EXTENDS TraceBase

Frame == 5000        \* 500 ms
Look == 150
MaxLog == 256
Never == 2000000000

VARIABLES pr,   \* per endpoint: [made, on, last: when it was started or the last frame was printed,
                \*                stop: when the stop was called, may: until then the frame under way may be printed]
          up,   \* per endpoint and peer: <<time, number of connections>>
          lg,   \* per endpoint: what the log should hold
          ml    \* per endpoint: <<time, shown>>

vars == <<tr, l, pr, up, lg, ml>>
E == 1..Len(Cf.ep)
P == 1..Len(Cf.ep)

Init ==
  /\ TraceInit
  /\ pr = [e \in E |-> [made |-> 0, on |-> FALSE, last |-> 0, stop |-> Never, may |-> -1]]
  /\ up = [e \in E |-> [p \in P |-> <<[t |-> 0, n |-> 0]>>]]
  /\ lg = [e \in E |-> <<>>]
  /\ ml = [e \in E |-> <<[t |-> 0, v |-> FALSE]>>]

Early(e) == pr[e].last + Frame - Look
Late(e) == pr[e].last + Frame + Cf.slow + Look

(* while it is on the next frame comes *)
Timely(t) == \A e \in E : (pr[e].on /\ pr[e].stop = Never) => t <= Late(e)
At(k) == Is(k) /\ Timely(Ev.t)

MADE == /\ At("NEW")
        /\ pr' = [pr EXCEPT ![Ev.ep].made = Ev.t]
        /\ UNCHANGED <<up, lg, ml>>

\* starting what is running changes nothing
ON == /\ At("ON")
      /\ pr' = IF pr[Ev.ep].on THEN pr
               ELSE [pr EXCEPT ![Ev.ep].on = TRUE, ![Ev.ep].last = Ev.t, ![Ev.ep].stop = Never]
      /\ UNCHANGED <<up, lg, ml>>

OFFC == /\ At("OFFC")
        /\ pr' = IF pr[Ev.ep].stop = Never THEN [pr EXCEPT ![Ev.ep].stop = Ev.t] ELSE pr
        /\ UNCHANGED <<up, lg, ml>>

OFF == /\ At("OFF")
       /\ pr' = [pr EXCEPT ![Ev.ep].on = FALSE, ![Ev.ep].stop = Never,
                           ![Ev.ep].may = IF pr[Ev.ep].on THEN (IF Ev.t >= Early(Ev.ep) THEN Late(Ev.ep) ELSE -1) ELSE @]
       /\ UNCHANGED <<up, lg, ml>>

RUN == /\ At("RUN")
       /\ pr[Ev.ep].stop = Never => Ev.v = pr[Ev.ep].on
       /\ UNCHANGED <<pr, up, lg, ml>>

Last(s) == s[Len(s)]
ML == /\ At("ML")
      /\ Ev.v = ~Last(ml[Ev.ep]).v
      /\ ml' = [ml EXCEPT ![Ev.ep] = Append(@, [t |-> Ev.t, v |-> Ev.v])]
      /\ UNCHANGED <<pr, up, lg>>

CH == /\ At("CH")
      /\ up' = [up EXCEPT ![Ev.ep][Ev.p] = Append(@, [t |-> Ev.t, n |-> Ev.n])]
      /\ UNCHANGED <<pr, lg, ml>>
LG == /\ At("LG")
      /\ lg' = [lg EXCEPT ![Ev.ep] = Append(@, <<Ev.t, Ev.new, Ev.p>>)]
      /\ UNCHANGED <<pr, up, ml>>

---------------------------------------------------------------------------
(* the frames: twice a second while it is on, none otherwise *)
FT == /\ Is("FT") /\ Ev.ep \in E
      /\ LET p == pr[Ev.ep]
             next == p.on /\ Ev.t >= Early(Ev.ep) /\ Ev.t <= Late(Ev.ep)
             rest == Ev.t <= p.may IN
         /\ next \/ rest
         /\ pr' = IF next THEN [pr EXCEPT ![Ev.ep].last = Ev.t]
                  ELSE [pr EXCEPT ![Ev.ep].may = -1]
      /\ UNCHANGED <<up, lg, ml>>

(* what held at some time, all the time from a to b, of a history of [t, ..] *)
Window(h, a, b) == {i \in 1..Len(h) : h[i].t <= b /\ (i = Len(h) \/ h[i + 1].t >= a)}

Tail256(s) == IF Len(s) <= MaxLog THEN s ELSE SubSeq(s, Len(s) - MaxLog + 1, Len(s))
Of(s, new, p) == SelectSeq(s, LAMBDA x : x[2] = new /\ x[3] = p)
Near(a, b) == a - b <= Look /\ b - a <= Look
\* the messages shown are those of the log, in order of time
SameLog(f, s) ==
  /\ Len(f) = Len(s)
  /\ \A i \in 1..Len(f) - 1 : f[i][1] <= f[i + 1][1]
  /\ \A i \in 1..Len(f) : Near(f[i][1], s[i][1])
  /\ \A new \in BOOLEAN : \A p \in P :
       LET a == Of(f, new, p)
           b == Of(s, new, p) IN
       /\ Len(a) = Len(b)
       /\ \A i \in 1..Len(a) : Near(a[i][1], b[i][1])
GoodLog(e, f, a, b) ==
  \E n \in 0..Len(lg[e]) :
     /\ \A i \in 1..Len(lg[e]) : lg[e][i][1] < a => i <= n
     /\ n > 0 => lg[e][n][1] <= b
     /\ SameLog(f, Tail256(SubSeq(lg[e], 1, n)))

Cols == 11
RECURSIVE Sum(_, _, _)
Sum(s, k, i) == IF i = 0 THEN 0 ELSE s[i].v[k] + Sum(s, k, i - 1)

FR == /\ At("FR") /\ Ev.ep \in E
      /\ LET e == Ev.ep
             a == Ev.f - Cf.slow - 2 * Look
             b == Ev.f + Look
             r == Ev.rows IN
         /\ Ev.odd = 0
         /\ Ev.run >= a - pr[e].made /\ Ev.run <= b - pr[e].made
         \* one row per connection, sorted
         /\ \A i \in 1..Len(r) - 1 : r[i].k < r[i + 1].k
         /\ \A p \in P :
              LET w == Window(up[e][p], a, b)
                  in == \E i \in 1..Len(r) : r[i].p = p IN
              IF in THEN \E i \in w : up[e][p][i].n > 0
              ELSE \E i \in w : up[e][p][i].n = 0
         /\ \A i \in 1..Len(r) : r[i].p \in P
         \* the totals are the sums
         /\ IF Len(r) > 1
            THEN Len(Ev.tot) = Cols /\ \A k \in 1..Cols : Ev.tot[k] = Sum(r, k, Len(r))
            ELSE Ev.tot = <<>>
         \* the log, while it is shown
         /\ LET w == Window(ml[e], a, b) IN
            \/ Ev.msgs = <<>> /\ \E i \in w : ~ml[e][i].v
            \/ GoodLog(e, Ev.msgs, a, b) /\ \E i \in w : ml[e][i].v
      /\ UNCHANGED <<pr, up, lg, ml>>

NB == At("NB") /\ Ev.ok /\ UNCHANGED <<pr, up, lg, ml>>
Z == At("Z") /\ UNCHANGED <<pr, up, lg, ml>>

Next == MADE \/ ON \/ OFFC \/ OFF \/ RUN \/ ML \/ CH \/ LG \/ FT \/ FR \/ NB \/ Z
Spec == Init /\ [][Next]_vars
=============================================================================
