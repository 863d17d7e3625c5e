------------------------------ MODULE HotkeyOps ------------------------------
(* The hotkey menu (hotkey/hotkey.go) as a record
     map   key -> function, for the keys that were added
     unk, nxt   the unknown-key and the pending next-key function
     stops  the stop actions in the order added      running
   A function is 0 (nothing to run) or a number.                             *)
EXTENDS Integers, Sequences, TLC
None == 0
Menu == [map |-> <<>>, unk |-> None, nxt |-> None, stops |-> <<>>, running |-> FALSE]
Add(m, ks, f) == [m EXCEPT !.map = [k \in {ks[i] : i \in 1..Len(ks)} |-> f] @@ @]
(* what a pressed key is to run, after a pending next-key function *)
Action(m, k) == IF k \in DOMAIN m.map THEN m.map[k] ELSE m.unk
=============================================================================
