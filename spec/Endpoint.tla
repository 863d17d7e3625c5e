------------------------------ MODULE Endpoint ------------------------------
(* What one endpoint does with a datagram of any kind from any address.

   The code: tru.go serve and the switch over packet types, connect.go serve.
   A handshake packet carries the id of its attempt and a content that may be
   well-formed or not; here an id is genuine (of an attempt under way between the
   two) or not, and a content is good or not.  An endpoint sends nothing here.     *)
EXTENDS Integers, FiniteSets, TLC

CONSTANTS Addrs,  \* addresses datagrams come from
          Most    \* datagrams

Kinds == {"C1", "C2", "C3", "C4", "D", "A", "PI", "PO", "X", "PU", "?"}

VARIABLES conn,   \* per address: number of the open connection, 0: none
          mine,   \* per address: own attempt under way: "no", "sent", "answered"
          theirs, \* per address: accepted attempt of the peer waits for C3
          told,   \* last datagram: [a, k, calls: what the application was told]
          made,   \* connections made so far
          n

vars == <<conn, mine, theirs, told, made, n>>
Init == /\ conn = [a \in Addrs |-> 0] /\ mine = [a \in Addrs |-> "no"] /\ theirs = [a \in Addrs |-> FALSE]
        /\ told = [a |-> "", k |-> "", calls |-> {}] /\ made = 0 /\ n = 0

\* the application starts an attempt; it fails after a time
Try(a) == mine[a] = "no" /\ mine' = [mine EXCEPT ![a] = "sent"] /\ told' = [a |-> "", k |-> "", calls |-> {}] /\ UNCHANGED <<conn, theirs, made, n>>
Fail(a) == mine[a] # "no" /\ mine' = [mine EXCEPT ![a] = "no"] /\ told' = [a |-> "", k |-> "", calls |-> {}] /\ UNCHANGED <<conn, theirs, made, n>>

Says(a, k, c) == told' = [a |-> a, k |-> k, calls |-> c]

Dgram(a, k, genuine, good) ==
  /\ n < Most /\ n' = n + 1
  /\ CASE k = "C1" /\ good ->
            theirs' = [theirs EXCEPT ![a] = TRUE] /\ Says(a, k, {}) /\ UNCHANGED <<conn, mine, made>>
       [] k = "C2" /\ good /\ genuine /\ mine[a] = "sent" ->
            mine' = [mine EXCEPT ![a] = "answered"] /\ Says(a, k, {}) /\ UNCHANGED <<conn, theirs, made>>
       [] k = "C3" /\ good /\ genuine /\ theirs[a] ->
            /\ conn' = [conn EXCEPT ![a] = made + 1] /\ made' = made + 1
            /\ theirs' = [theirs EXCEPT ![a] = FALSE]
            /\ Says(a, k, {"connect"} \cup (IF conn[a] # 0 THEN {"end"} ELSE {}))
            /\ UNCHANGED mine
       [] k = "C4" /\ genuine /\ mine[a] = "answered" ->
            /\ conn' = [conn EXCEPT ![a] = made + 1] /\ made' = made + 1
            /\ mine' = [mine EXCEPT ![a] = "no"]
            /\ Says(a, k, {"result"} \cup (IF conn[a] # 0 THEN {"end"} ELSE {}))
            /\ UNCHANGED theirs
       [] k = "D" /\ conn[a] # 0 ->
            Says(a, k, IF good THEN {"msg"} ELSE {}) /\ UNCHANGED <<conn, mine, theirs, made>>
       [] k = "X" /\ conn[a] # 0 ->
            conn' = [conn EXCEPT ![a] = 0] /\ Says(a, k, {"end"}) /\ UNCHANGED <<mine, theirs, made>>
       [] k = "PU" -> Says(a, k, {"punch"}) /\ UNCHANGED <<conn, mine, theirs, made>>
       [] OTHER -> Says(a, k, {}) /\ UNCHANGED <<conn, mine, theirs, made>>

Next == \E a \in Addrs : Try(a) \/ Fail(a) \/ \E k \in Kinds, g, w \in BOOLEAN : Dgram(a, k, g, w)
Spec == Init /\ [][Next]_vars

(* C09 *)
Others == [][\A a \in Addrs : (n' # n /\ told'.a # a) => (conn'[a] = conn[a] /\ mine'[a] = mine[a] /\ theirs'[a] = theirs[a])]_vars
Unknown == [][told'.k = "?" /\ n' # n => (conn' = conn /\ mine' = mine /\ theirs' = theirs /\ told'.calls = {})]_vars
NoData == [][(n' # n /\ "msg" \in told'.calls) => (told'.k = "D" /\ conn[told'.a] # 0)]_vars
\* who only sends data, acknowledgements, pings and disconnects opens nothing
NoOpen == [][(n' # n /\ \E a \in Addrs : conn'[a] > conn[a]) => told'.k \in {"C3", "C4"}]_vars
(* C10 *)
Punch == [][(n' # n /\ told'.k = "PU") => (conn' = conn /\ mine' = mine /\ theirs' = theirs /\ told'.calls = {"punch"})]_vars
OnlyPunch == [][(n' # n /\ "punch" \in told'.calls) => told'.k = "PU"]_vars
(* C07 *)
EndTold == [][\A a \in Addrs : (n' # n /\ conn[a] # 0 /\ conn'[a] # conn[a]) => "end" \in told'.calls]_vars
=============================================================================
