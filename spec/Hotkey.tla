------------------------------- MODULE Hotkey -------------------------------
(* A menu whose functions use the menu themselves; scripts for the driver.
   kind of a function: what it does when it runs.                            *)
EXTENDS HotkeyOps, FiniteSets, Json
CONSTANTS Keys, Fresh,   \* functions that may be made
          Kinds, Depth

VARIABLES m, kind, ran, hist, done
vars == <<m, kind, ran, hist, done>>

Init == m = Menu /\ kind = <<>> /\ ran = [f |-> <<>>, k |-> "", stops |-> 0] /\ hist = <<>> /\ done = FALSE

New == Len(kind) + 1
Some(k) == CHOOSE x \in Keys : x # k
(* a function that was made while another ran does nothing itself *)
Exec(s, f) ==
  IF f = None THEN s
  ELSE LET r == [s EXCEPT !.ran = Append(@, f)]
           n == Len(r.kind) + 1
           c == s.kind[f] IN
       CASE c = "stop" -> [r EXCEPT !.m.running = FALSE, !.stops = @ + Len(s.m.stops)]
         [] c = "stoprun" -> [r EXCEPT !.m.running = TRUE, !.stops = @ + Len(s.m.stops)]
         [] c = "next" -> [r EXCEPT !.m.nxt = n, !.kind = Append(@, "plain")]
         [] c = "add" -> [r EXCEPT !.m.map = (s.k :> n) @@ @, !.kind = Append(@, "plain")]
         [] c = "unk" -> [r EXCEPT !.m.unk = n, !.kind = Append(@, "plain")]
         [] OTHER -> r
(* pressing k: the pending function, then the key's *)
Pressed(k) ==
  LET s0 == [m |-> [m EXCEPT !.nxt = None], kind |-> kind, ran |-> <<>>, stops |-> 0, k |-> k]
      s1 == Exec(s0, m.nxt) IN
  Exec(s1, Action(s1.m, k))

Does(a) == Len(hist) < Depth /\ done' = FALSE /\ hist' = IF Depth < 1000 THEN Append(hist, a) ELSE hist
Still == UNCHANGED ran

AddKeys(ks, c) == /\ Len(kind) < Fresh
                  /\ IF c = "nil" THEN m' = Add(m, ks, None) /\ kind' = kind
                     ELSE m' = Add(m, ks, New) /\ kind' = Append(kind, c)
                  /\ Does([op |-> "add", keys |-> ks, c |-> c, id |-> IF c = "nil" THEN 0 ELSE New]) /\ Still
Unknown(c) == /\ Len(kind) < Fresh
              /\ IF c = "nil" THEN m' = [m EXCEPT !.unk = None] /\ kind' = kind
                 ELSE m' = [m EXCEPT !.unk = New] /\ kind' = Append(kind, c)
              /\ Does([op |-> "unknown", c |-> c, id |-> IF c = "nil" THEN 0 ELSE New]) /\ Still
NextKey(c) == /\ Len(kind) < Fresh
              /\ IF c = "nil" THEN m' = [m EXCEPT !.nxt = None] /\ kind' = kind
                 ELSE m' = [m EXCEPT !.nxt = New] /\ kind' = Append(kind, c)
              /\ Does([op |-> "next", c |-> c, id |-> IF c = "nil" THEN 0 ELSE New]) /\ Still
SetStop == /\ Len(m.stops) < 3 /\ m' = [m EXCEPT !.stops = Append(@, Len(@) + 1)]
           /\ Does([op |-> "setstop", id |-> Len(m.stops) + 1]) /\ Still /\ UNCHANGED kind
Run == m' = [m EXCEPT !.running = TRUE] /\ Does([op |-> "run"]) /\ Still /\ UNCHANGED kind
Press(k) == /\ Len(kind) + 2 <= Fresh + 2
            /\ IF m.running
               THEN LET s == Pressed(k) IN
                    /\ m' = s.m /\ kind' = s.kind /\ ran' = [f |-> s.ran, k |-> k, stops |-> s.stops]
                    /\ Does([op |-> "press", keys |-> <<k>>, live |-> TRUE, exp |-> Len(s.ran)])
               ELSE /\ ran' = [f |-> <<>>, k |-> k, stops |-> 0]
                    /\ Does([op |-> "press", keys |-> <<k>>, live |-> FALSE, exp |-> 0])
                    /\ UNCHANGED <<m, kind>>
Finish == Len(hist) = Depth /\ ~done /\ done' = TRUE /\ UNCHANGED <<m, kind, ran, hist>>

Next == \/ \E k \in Keys : Press(k) \/ (\E c \in Kinds : AddKeys(<<k>>, c))
        \/ \E k, x \in Keys : k # x /\ AddKeys(<<k, x>>, "plain")
        \/ \E c \in Kinds : Unknown(c) \/ NextKey(c)
        \/ SetStop \/ Run \/ Finish
Spec == Init /\ [][Next]_vars

(* for scripts: as many presses as changes *)
Now(S) == {x \in S : Len(hist) >= 0} \* not a constant, or it would be chosen once and for all
GenNext == \/ \E k \in Keys : Press(k)
           \/ \E i \in 1..4 : AddKeys(<<RandomElement(Now(Keys))>>, RandomElement(Now(Kinds)))
           \/ LET k == RandomElement(Now(Keys)) IN AddKeys(<<k, Some(k)>>, "plain")
           \/ Unknown(RandomElement(Now(Kinds)))
           \/ \E i \in 1..2 : NextKey(RandomElement(Now(Kinds)))
           \/ SetStop
           \/ \E i \in 1..(IF m.running THEN 1 ELSE 5) : Run
           \/ Finish
GenSpec == Init /\ [][GenNext]_vars

(* at most the pending function and one more run, and no other than the key's own *)
Exact == [][(ran' # ran /\ ran'.f # <<>>) =>
  /\ m.running
  /\ Len(ran'.f) <= (IF m.nxt = None THEN 1 ELSE 2)
  /\ m.nxt # None => ran'.f[1] = m.nxt
  /\ LET own == IF m.nxt = None THEN ran'.f ELSE SubSeq(ran'.f, 2, Len(ran'.f)) IN
     own # <<>> => \/ (ran'.k \in DOMAIN m.map /\ own[1] = m.map[ran'.k])
                   \/ (ran'.k \notin DOMAIN m.map /\ own[1] = m.unk)
                   \/ (m.nxt # None /\ kind[m.nxt] \in {"add", "unk"})]_vars
(* a pending function runs once *)
Once == [][(m.running /\ m.nxt # None /\ ran' # ran) => m'.nxt # m.nxt]_vars
Stopped == [][(~m.running /\ ran' # ran) => ran'.f = <<>>]_vars
Emit == done => PrintT("SCRIPT " \o ToJson(hist))
=============================================================================
