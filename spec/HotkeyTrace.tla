----------------------------- MODULE HotkeyTrace -----------------------------
(* Decides recorded uses of a hotkey menu.
     add keys id  unknown id  next id  setstop id  run   (id 0: no function)
     stop .. stopact id .. stopped      a call of Stop and the stop actions that ran
     press key ready .. ran k id key self .. idle ok    a key and what ran (k: n pending
     next-key function, a action, u unknown-key function), until nothing more happened   *)
EXTENDS TraceBase, HotkeyOps
VARIABLES m,
          key, stage,   \* the pressed key; "rest" "next" "own" "done" "dead"
          stopq,        \* stop actions that still have to run, or <<-1>>: no stop is going on
          stop          \* the menu was stopped while this key was handled
vars == <<tr, l, m, key, stage, stopq, stop>>
NoStop == <<-1>>
Init == TraceInit /\ m = Menu /\ key = "" /\ stage = "rest" /\ stopq = NoStop /\ stop = FALSE

Adds == Is("add") /\ m' = Add(m, Ev.keys, Ev.id) /\ UNCHANGED <<key, stage, stopq, stop>>
Unk == Is("unknown") /\ m' = [m EXCEPT !.unk = Ev.id] /\ UNCHANGED <<key, stage, stopq, stop>>
Nxt == Is("next") /\ m' = [m EXCEPT !.nxt = Ev.id] /\ UNCHANGED <<key, stage, stopq, stop>>
SetStop == Is("setstop") /\ m' = [m EXCEPT !.stops = Append(@, Ev.id)] /\ UNCHANGED <<key, stage, stopq, stop>>
Run == Is("run") /\ m' = [m EXCEPT !.running = TRUE] /\ UNCHANGED <<key, stage, stopq, stop>>

StopCall == Is("stop") /\ stopq = NoStop /\ stopq' = m.stops /\ UNCHANGED <<m, key, stage, stop>>
StopAct == /\ Is("stopact") /\ stopq # NoStop /\ stopq # <<>>
           /\ Head(stopq) = Ev.id /\ stopq' = Tail(stopq) /\ UNCHANGED <<m, key, stage, stop>>
StopRet == /\ Is("stopped") /\ stopq = <<>> /\ stopq' = NoStop
           /\ m' = [m EXCEPT !.running = FALSE] /\ stop' = TRUE /\ UNCHANGED <<key, stage>>

Press == /\ Is("press") /\ stage = "rest"
         /\ m.running => Ev.ready
         /\ key' = Ev.key /\ stage' = (IF m.running THEN "next" ELSE "dead") /\ stop' = FALSE
         /\ UNCHANGED <<m, stopq>>
Ran == /\ Is("ran") /\ stopq = NoStop /\ Ev.self
       /\ IF Ev.k = "n"
          THEN /\ stage = "next" /\ m.nxt # None /\ m.nxt = Ev.id /\ Ev.key = key
               /\ m' = [m EXCEPT !.nxt = None] /\ stage' = "own"
          ELSE /\ stage = "own" \/ (stage = "next" /\ m.nxt = None)
               /\ Ev.k = (IF key \in DOMAIN m.map THEN "a" ELSE "u")
               /\ Action(m, key) = Ev.id /\ Ev.id # None
               /\ Ev.k = "u" => Ev.key = key
               /\ m' = m /\ stage' = "done"
       /\ UNCHANGED <<key, stopq, stop>>
Idle == /\ Is("idle") /\ Ev.ok /\ stopq = NoStop
        /\ \/ stage \in {"done", "dead"}
           \/ (stage = "own" \/ (stage = "next" /\ m.nxt = None)) /\ (stop \/ Action(m, key) = None)
        /\ stage' = "rest" /\ UNCHANGED <<m, key, stopq, stop>>
Z == Is("Z") /\ stage = "rest" /\ UNCHANGED <<m, key, stage, stopq, stop>>
Next == Adds \/ Unk \/ Nxt \/ SetStop \/ Run \/ StopCall \/ StopAct \/ StopRet \/ Press \/ Ran \/ Idle \/ Z
Spec == Init /\ [][Next]_vars
=============================================================================
