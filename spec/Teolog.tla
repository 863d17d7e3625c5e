------------------------------- MODULE Teolog -------------------------------
(* The logger: levels, filter and what is printed (teolog/teolog.go).
   Level 0 is None; the loggers Error .. Debugvvv have the levels 1 .. 8; a
   logger prints when its level is not below the current one in this order,
   that is when it is not greater, and when the filter, if there is one, has a
   part the message contains.                                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Top == 8
Levels == 0..Top
Loggers == 1..Top

(* the levels by name, in small letters *)
Named == [none |-> 0, error |-> 1, user |-> 2, info |-> 3, connect |-> 4, debug |-> 5, debugv |-> 6, debugvv |-> 7, debugvvv |-> 8, all |-> 8]
ByName(s) == IF s \in DOMAIN Named THEN Named[s] ELSE 0

Contains(s, p) == \E i \in 0..Len(s) - Len(p) : SubSeq(s, i + 1, i + Len(p)) = p
Passes(parts, s) == parts = <<>> \/ \E i \in 1..Len(parts) : Contains(s, parts[i])
Prints(lev, parts, n, s) == n <= lev /\ Passes(parts, s)
Switched(lev) == IF lev = Top THEN 0 ELSE lev + 1
=============================================================================
