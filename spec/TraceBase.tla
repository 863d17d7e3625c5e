----------------------------- MODULE TraceBase -----------------------------
(* What all trace specifications share.  A trace specification reads recorded
   executions of the real code (a JSON array of [id, ev], ev a sequence of
   events) and is a state machine that can take an event only if the
   specification allows it.  All traces are checked in one run: the initial
   states choose the trace.  Register i holds the furthest position reached in
   trace i (needs -workers 1); the postcondition names the rejected traces. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)

VARIABLES tr,   \* the trace being checked
          l     \* position of the next event

ASSUME \A i \in 1..Len(Traces) : TLCSet(i, 0)

TraceInit == tr \in 1..Len(Traces) /\ l = 1

More == l <= Len(Traces[tr].ev)
Ev   == Traces[tr].ev[l]
Cf   == Traces[tr].cf               \* what the trace was recorded with
Is(k) == More /\ Ev.e = k /\ l' = l + 1 /\ tr' = tr

(* CONSTRAINT *)
Mark == IF l > TLCGet(tr) THEN TLCSet(tr, l) ELSE TRUE

(* POSTCONDITION *)
Report ==
  /\ \A i \in 1..Len(Traces) :
       \/ TLCGet(i) > Len(Traces[i].ev)
       \/ PrintT(<<"REJECTED", i, TLCGet(i)>>)
  /\ PrintT(<<"CHECKED", Len(Traces)>>)
=============================================================================
