------------------------------ MODULE AppTrace ------------------------------
(* Decides recorded executions at the level of the application's callbacks.

   Cf.ch  channels: [ep, c: has a reader of its own, g: the endpoint has a common reader,
          opp: the channel at the other end]
   Events
     W c t          a message was accepted for sending on channel c
     M c lvl ans id len src n t   a message is handed to a reader: at which level, what the
                    reader answers; it is the n-th message sent on channel src
     E c t          a reader is told that c ended        K c t  there is a reason for it
     B q t, R q t   call q begins, returns               F c t  everything sent has had time
     Z t            end of the recording
   Toggles Props: C15 who is handed a message, C16 callbacks may use the endpoint.     *)
EXTENDS TraceBase

CONSTANT Props

VARIABLES cs,   \* channels
          pd,   \* per endpoint: the message whose own reader did not report it processed
          calls

vars == <<tr, l, cs, pd, calls>>
C == 1..Len(Cf.ch)
EP == {Cf.ch[i].ep : i \in C}
On(p) == p \in Props
None == [c |-> 0, id |-> 0, len |-> 0, src |-> 0, n |-> 0]
Limit == 300000     \* 30 s: a call that has not returned by then never will

Init ==
  /\ TraceInit
  /\ cs = [c \in C |-> [acc |-> 0, got |-> 0, ended |-> FALSE, why |-> FALSE, src |-> 0]]
  /\ pd = [e \in EP |-> None]
  /\ calls = {}

At(k) == Is(k) /\ (On("C16") => \A x \in calls : Ev.t <= x[2] + Limit)

W == At("W") /\ cs' = [cs EXCEPT ![Ev.c].acc = @ + 1] /\ UNCHANGED <<pd, calls>>

Msg == [c |-> Ev.c, id |-> Ev.id, len |-> Ev.len, src |-> Ev.src, n |-> Ev.n]

(* nothing is waiting for the common reader of this endpoint *)
Settled(e) == IF pd[e] = None THEN TRUE ELSE cs[pd[e].c].ended

(* the reader of the connection comes first *)
Own == /\ Ev.lvl = "c"
       /\ On("C15") => (Cf.ch[Ev.c].c /\ Settled(Cf.ch[Ev.c].ep))
       /\ pd' = [pd EXCEPT ![Cf.ch[Ev.c].ep] = IF ~Ev.ans /\ Cf.ch[Ev.c].g THEN Msg ELSE None]

(* the common reader exactly if there is no other or it did not report the message processed *)
Common == /\ Ev.lvl = "g"
          /\ LET e == Cf.ch[Ev.c].ep IN
             IF Cf.ch[Ev.c].c
             THEN /\ On("C15") => pd[e] = Msg
                  /\ pd' = [pd EXCEPT ![e] = None]
             ELSE /\ On("C15") => (Cf.ch[Ev.c].g /\ Settled(e))
                  /\ pd' = [pd EXCEPT ![e] = None]

M == /\ At("M")
     /\ Own \/ Common
     \* counted where it is handed over first
     /\ LET first == (Ev.lvl = "c") = Cf.ch[Ev.c].c IN
        /\ (On("C15") /\ first) => (Ev.n = cs[Ev.c].got + 1 /\ Ev.src = Cf.ch[Ev.c].opp)
        /\ cs' = IF first THEN [cs EXCEPT ![Ev.c].got = @ + 1] ELSE cs
     /\ UNCHANGED calls

E == /\ At("E")
     /\ On("C16") => cs[Ev.c].why
     /\ cs' = [cs EXCEPT ![Ev.c].ended = TRUE]
     /\ UNCHANGED <<pd, calls>>

K == At("K") /\ cs' = [cs EXCEPT ![Ev.c].why = TRUE] /\ UNCHANGED <<pd, calls>>

B == At("B") /\ calls' = calls \cup {<<Ev.q, Ev.t>>} /\ UNCHANGED <<cs, pd>>
R == At("R") /\ calls' = {x \in calls : x[1] # Ev.q} /\ UNCHANGED <<cs, pd>>

F == /\ At("F")
     /\ LET o == Cf.ch[Ev.c].opp IN
        IF o = 0 THEN TRUE
        ELSE (~cs[Ev.c].why /\ ~cs[o].why /\ ~cs[o].ended /\ (Cf.ch[o].c \/ Cf.ch[o].g)) => cs[o].got = cs[Ev.c].acc
     /\ UNCHANGED <<cs, pd, calls>>

Z == /\ At("Z")
     /\ On("C15") => \A e \in EP : Settled(e)
     /\ On("C16") => calls = {}
     /\ UNCHANGED <<cs, pd, calls>>

Next == W \/ M \/ E \/ K \/ B \/ R \/ F \/ Z
Spec == Init /\ [][Next]_vars
=============================================================================
