------------------------------ MODULE MenuOps ------------------------------
(* The hotkey menu of an endpoint (hotkey.go) as a record
     level    the level of the log now            filter   its parts
     pend     {}: no screen is shown; otherwise the levels one of which the next
              key puts back.  A screen (h, ?, L) stops the log; it is the level
              that was set before it, or one the application set meanwhile.
     stat     the statistic is printed            mini     the minilog is on
     running  the menu takes keys                 own      keys of the application
     end      "" or "quit": the endpoint is closed and the process ends          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
T == INSTANCE Teolog
LOCAL Names == <<"none", "error", "user", "info", "connect", "debug", "debugv", "debugvv", "debugvvv">>
LevelName(n) == Names[n + 1]

Menu(level, filter, stat) ==
  [level |-> level, filter |-> filter, pend |-> {}, stat |-> stat, mini |-> FALSE, running |-> TRUE, own |-> {}, end |-> ""]

(* what the screen before left to be put back: one of these menus takes the key *)
Back(m) == IF m.pend = {} THEN {m} ELSE {[m EXCEPT !.level = v, !.pend = {}] : v \in m.pend}

Screen(m) == [m EXCEPT !.pend = {m.level}, !.level = 0]

(* a key, with the line typed after it: its name as a level, its parts as a filter *)
Key(m, key, typed) ==
  CASE key \in m.own -> m
    [] key \in {"h", "?", "L"} -> Screen(m)
    [] key = "u" -> [m EXCEPT !.stat = ~@]
    [] key = "U" -> [m EXCEPT !.mini = ~@]
    [] key = "l" -> [m EXCEPT !.level = T!Switched(@)]
    [] key = "^L" -> [m EXCEPT !.level = T!ByName(typed.name)]
    [] key = "f" -> [m EXCEPT !.filter = typed.parts]
    [] key = "^C" -> [m EXCEPT !.running = FALSE]
    [] key = "q" -> [m EXCEPT !.running = FALSE, !.end = "quit"]
    [] OTHER -> m
(* what it shows; m is the menu before it, n after it *)
Shows(m, n, key, code) ==
  CASE key \in m.own -> {}
    [] key \in {"h", "?"} -> {"help"}
    [] key = "L" -> {"level " \o LevelName(m.level)}
    [] key = "u" -> {IF n.stat THEN "started" ELSE "stopped"}
    [] key = "U" -> {IF n.mini THEN "show" ELSE "hide"}
    [] key = "l" -> {"level " \o LevelName(n.level)}
    [] key = "^L" -> {"levels", "level " \o LevelName(m.level)}
    [] key = "f" -> {"level " \o LevelName(m.level), "filter"}
    [] key \in {"^C", "enter"} -> {}
    [] OTHER -> {"unknown " \o code}

(* what the application does meanwhile *)
SetLevel(m, n) == [m EXCEPT !.level = n, !.pend = IF @ = {} THEN {} ELSE @ \cup {n}]
SetFilter(m, f) == [m EXCEPT !.filter = f]
Printing(m, on) == [m EXCEPT !.stat = on]
Run(m) == [m EXCEPT !.running = TRUE]
=============================================================================
