----------------------------- MODULE HotkeyLoop -----------------------------
(* The goroutines of a hotkey menu: Run starts one, Stop makes it end, both may be
   called while a key's action runs (Act) or by anybody else (Env), at any time.
   A goroutine looks at the stop mark, waits for a key, looks again, and runs the
   key's action.  Keys are waited for by whoever reads; a key that nobody may run
   is dropped.  OneLoop = FALSE: as the code was, one goroutine per Run and no
   second look.                                                                   *)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS OneLoop, Runs, Loops

VARIABLES stop, running,  \* what the menu knows
          pc,             \* per goroutine: "none" "look" "read" "look2" "act" "reset" "end"
          calls,          \* calls of Run and Stop so far
          want,           \* the last of Run and Stop that was called by an action or completed
          late            \* a goroutine ran an action that began after a Stop made by an action
vars == <<stop, running, pc, calls, want, late>>
Ls == 1..Loops
Init == stop = FALSE /\ running = FALSE /\ pc = [i \in Ls |-> "none"] /\ calls = 0 /\ want = "none" /\ late = FALSE

Free == {i \in Ls : pc[i] = "none"}
Start == LET i == CHOOSE i \in Free : TRUE IN pc' = [pc EXCEPT ![i] = "look"]
RunCall == /\ calls < Runs /\ calls' = calls + 1 /\ Free # {}
           /\ want' = "run"
           /\ IF OneLoop
              THEN /\ stop' = FALSE /\ running' = TRUE
                   /\ IF running THEN pc' = pc ELSE Start
              ELSE Start /\ UNCHANGED <<stop, running>>
           /\ UNCHANGED late
(* by an action: some goroutine is running one *)
StopCall == /\ calls < Runs /\ calls' = calls + 1
            /\ \E i \in Ls : pc[i] = "act"
            /\ stop' = TRUE /\ want' = "stop" /\ UNCHANGED <<running, pc, late>>

Look(i) == /\ pc[i] = "look"
           /\ IF stop
              THEN IF OneLoop THEN running' = FALSE /\ pc' = [pc EXCEPT ![i] = "end"]
                              ELSE pc' = [pc EXCEPT ![i] = "reset"] /\ UNCHANGED running
              ELSE pc' = [pc EXCEPT ![i] = "read"] /\ UNCHANGED running
           /\ UNCHANGED <<stop, calls, want, late>>
Reset(i) == /\ pc[i] = "reset" /\ stop' = FALSE /\ pc' = [pc EXCEPT ![i] = "end"] /\ UNCHANGED <<running, calls, want, late>>
(* a key is pressed *)
Key(i) == /\ pc[i] = "read"
          /\ IF OneLoop
             THEN pc' = [pc EXCEPT ![i] = "look2"] /\ UNCHANGED late
             ELSE pc' = [pc EXCEPT ![i] = "act"] /\ late' = (late \/ want = "stop")
          /\ UNCHANGED <<stop, running, calls, want>>
Look2(i) == /\ pc[i] = "look2"
            /\ IF stop THEN running' = FALSE /\ pc' = [pc EXCEPT ![i] = "end"] /\ UNCHANGED late
               ELSE pc' = [pc EXCEPT ![i] = "act"] /\ late' = (late \/ want = "stop") /\ UNCHANGED running
            /\ UNCHANGED <<stop, calls, want>>
Acted(i) == /\ pc[i] = "act" /\ pc' = [pc EXCEPT ![i] = "look"] /\ UNCHANGED <<stop, running, calls, want, late>>

Next == RunCall \/ StopCall \/ \E i \in Ls : Look(i) \/ Reset(i) \/ Key(i) \/ Look2(i) \/ Acted(i)
Spec == Init /\ [][Next]_vars /\ \A i \in Ls : WF_vars(Look(i) \/ Reset(i) \/ Look2(i) \/ Acted(i))

(* after an action stopped the menu no key runs anything until it is run again *)
NoneLate == ~late
(* one goroutine at a time *)
Alive == {i \in Ls : pc[i] \in {"look", "read", "look2", "act"}}
AtMostOne == Cardinality({i \in Alive : pc[i] \in {"read", "act"}}) <= 1
(* a menu that was run, and not stopped since, waits for a key again and again *)
Serves == [](want = "run" => <>((\E i \in Ls : pc[i] = "read") \/ want # "run"))
=============================================================================
