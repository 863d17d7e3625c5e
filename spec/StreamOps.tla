----------------------------- MODULE StreamOps -----------------------------
(* The arithmetic and the receiving end of a connection, shared by the design
   (Stream) and by the trace specifications that decide recorded executions.   *)
EXTENDS Integers, FiniteSets

(* signed distance from number a to number b in a number range of size n *)
Dist(n, a, b) == LET d == (b - a + n) % n IN IF d < n \div 2 THEN d ELSE d - n

(* The receiving end: next = number expected, buf = packets received ahead of
   their turn (records id, s; s = 1: the message continues in the next packet),
   due = messages that can be handed over, drop = repeats received.            *)
RcvInit == [next |-> 0, buf |-> {}, due |-> 0, drop |-> 0]

RECURSIVE Drain(_, _)
Drain(n, r) ==
  LET c == {p \in r.buf : p.id = r.next} IN
  IF c = {} THEN r
  ELSE LET p == CHOOSE p \in c : TRUE IN
       Drain(n, [r EXCEPT !.next = (@ + 1) % n, !.buf = @ \ {p},
                          !.due = IF p.s = 0 THEN @ + 1 ELSE @])

Arrive(n, r, id, s) ==
  IF Dist(n, r.next, id) < 0 \/ \E p \in r.buf : p.id = id
  THEN [r EXCEPT !.drop = @ + 1]
  ELSE Drain(n, [r EXCEPT !.buf = @ \cup {[id |-> id, s |-> s]}])

(* The sending end may use number id while first is its oldest number not
   acknowledged: half of the range must never be in use at once                *)
InWindow(n, first, id) == (id - first + n) % n < n \div 2
=============================================================================
