----------------------------- MODULE StatPrint -----------------------------
(* Printing of the statistic: the application starts and stops it, a timer
   makes a frame every half a second in a goroutine of its own, so a stop or a
   close may come while a frame is being made or printed.  The current timer is
   remembered (0: none); a frame that is ready is printed, and its timer set
   again, only if its timer is the current one.

   Owned = FALSE is the code as it was found: the frame sets a new timer
   whatever has happened meanwhile, and every start makes a timer.  TLC shows a
   stop that does not stop (StatPrintAsFound.cfg, not run by the checks).      *)
EXTENDS Integers, FiniteSets

CONSTANTS Gens,      \* timers that may be made
          Owned

VARIABLES timer,     \* the current timer, 0: none
          st,        \* per timer: none, armed, making (the frame is being made), printing, printed
          made,      \* timers made so far
          closed,
          on,        \* what the application has asked for
          frames,    \* the last step printed a frame
          late,      \* frames under way when it was stopped, not printed yet
          wrong      \* a frame was printed that none was to be

vars == <<timer, st, made, closed, on, frames, late, wrong>>
G == 1..Gens
Init == /\ timer = 0 /\ st = [g \in G |-> "none"] /\ made = 0 /\ closed = FALSE
        /\ on = FALSE /\ frames = FALSE /\ late = {} /\ wrong = FALSE

Busy == {g \in G : st[g] \in {"making", "printing"}}
NewTimer(s) == /\ made < Gens
               /\ made' = made + 1
               /\ timer' = made + 1
               /\ st' = [s EXCEPT ![made + 1] = "armed"]

Start == /\ ~closed
         /\ IF Owned /\ timer # 0 THEN UNCHANGED <<timer, st, made>> ELSE NewTimer(st)
         /\ on' = TRUE /\ frames' = FALSE
         /\ UNCHANGED <<closed, late, wrong>>

Halt == /\ IF timer # 0
           THEN st' = [st EXCEPT ![timer] = IF @ = "armed" THEN "none" ELSE @] /\ timer' = 0
           ELSE UNCHANGED <<st, timer>>
        /\ on' = FALSE /\ frames' = FALSE
        /\ late' = late \cup Busy
        /\ UNCHANGED <<made, wrong>>
Stop == Halt /\ UNCHANGED closed
Close == ~closed /\ closed' = TRUE /\ Halt

Fire(g) == /\ st[g] = "armed"
           /\ st' = [st EXCEPT ![g] = "making"]
           /\ frames' = FALSE
           /\ UNCHANGED <<timer, made, closed, on, late, wrong>>
Ready(g) == /\ st[g] = "making"
            /\ st' = [st EXCEPT ![g] = IF Owned /\ timer # g THEN "none" ELSE "printing"]
            /\ frames' = FALSE
            /\ late' = IF Owned /\ timer # g THEN late \ {g} ELSE late
            /\ UNCHANGED <<timer, made, closed, on, wrong>>
Show(g) == /\ st[g] = "printing"
            /\ st' = [st EXCEPT ![g] = "printed"]
            /\ frames' = TRUE
            /\ wrong' = (wrong \/ (g \notin late /\ ~on))
            /\ late' = late \ {g}
            /\ UNCHANGED <<timer, made, closed, on>>
Again(g) == /\ st[g] = "printed"
            /\ IF Owned
               THEN st' = [st EXCEPT ![g] = IF timer = g THEN "armed" ELSE "none"] /\ UNCHANGED <<timer, made>>
               ELSE NewTimer([st EXCEPT ![g] = "none"])
            /\ frames' = FALSE
            /\ UNCHANGED <<closed, on, late, wrong>>

Frame(g) == Fire(g) \/ Ready(g) \/ Show(g) \/ Again(g)
Next == Start \/ Stop \/ Close \/ \E g \in G : Frame(g)
Spec == Init /\ [][Next]_vars /\ \A g \in G : WF_vars(Frame(g))

---------------------------------------------------------------------------
(* StatisticPrintRunning tells what was asked for *)
Running == (timer # 0) = on
(* no frame but those under way is printed after the stop *)
Quiet == ~wrong
Nothing == ~on => \A g \in G : st[g] # "armed"
(* one timer at a time: the frames of two do not mix *)
One == Cardinality({g \in G : st[g] = "armed"} \cup {g \in G : g = timer}) <= 1
(* while it is on frames are printed *)
Shows == [](on => <>(frames \/ ~on))
(* when it is over nothing is left *)
Ends == [](closed => <>[](\A g \in G : st[g] = "none"))
=============================================================================
