------------------------------- MODULE Calls -------------------------------
(* The calls on one connection made by several goroutines at once, with the
   granularity of the code: channel.go WriteTo (one token for all packets of a
   message, the destroyed flag read before each, the number taken under a lock),
   Close and destroy (test-and-set of the flag, then the removal from the list,
   then the notice), ForEachChannel (a copy of the list), Destroyed; serve's end
   of the connection and the next connection of the same address (tru.go,
   connect.go).

   Next to it runs what CallTrace says of these calls: each has its effect at one
   moment (Close: end, then removal).  The moment is named in each action; the
   invariants say that what the code returns is what the moment returns.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Prog,      \* per goroutine the calls it makes: <<kind, packets>>
          Token,     \* TRUE: the packets of a message stay together (the code)
          TestSet,   \* TRUE: only the first destroy goes on (the code)
          Same       \* TRUE: only the connection itself is removed from the list (the code)

G == 1..Len(Prog)

VARIABLES pc, at, left,   \* per goroutine: step, call, packets still to be numbered
          first,          \* number of the first packet of the message being sent
          writeCh,        \* who holds the token, 0: nobody
          nid, dest,      \* next number, destroyed
          list,           \* connections listed: 1 this one, 2 the next of the address
          wire,           \* packets numbered: <<goroutine, call>>
          notices,
          rets,           \* results returned, with the time of the begin and of the return
          begun, clock,
          aDest, aGone, aId  \* what the moments have made of it

vars == <<pc, at, left, first, writeCh, nid, dest, list, wire, notices, rets, begun, clock, aDest, aGone, aId>>
abs == <<aDest, aGone, aId>>
mem == <<writeCh, nid, dest, list, wire, notices>>

Init == /\ pc = [g \in G |-> "idle"] /\ at = [g \in G |-> 0] /\ left = [g \in G |-> 0] /\ first = [g \in G |-> -1]
        /\ writeCh = 0 /\ nid = 0 /\ dest = FALSE /\ list = {1} /\ wire = <<>> /\ notices = 0
        /\ rets = {} /\ begun = [g \in G |-> 0] /\ clock = 0
        /\ aDest = FALSE /\ aGone = FALSE /\ aId = 0

ToInt(b) == IF b THEN 1 ELSE 0
Kind(g) == Prog[g][at[g]][1]
Num(g) == Prog[g][at[g]][2]
Go(g, s) == pc' = [pc EXCEPT ![g] = s]
Ret(g, v, a) == /\ rets' = rets \cup {[g |-> g, n |-> at[g], k |-> Kind(g), v |-> v, a |-> a, b |-> begun[g], e |-> clock]}
                /\ clock' = clock + 1 /\ begun' = [begun EXCEPT ![g] = 0]
                /\ Go(g, "idle")
NoRet == UNCHANGED <<rets, clock, begun>>

Begin(g) == /\ pc[g] = "idle" /\ at[g] < Len(Prog[g])
            /\ at' = [at EXCEPT ![g] = @ + 1]
            /\ left' = [left EXCEPT ![g] = Prog[g][at[g] + 1][2]]
            /\ begun' = [begun EXCEPT ![g] = clock] /\ clock' = clock + 1
            /\ Go(g, Prog[g][at[g] + 1][1])
            /\ UNCHANGED <<first, rets, mem, abs>>

(* write *)
Take(g) == /\ pc[g] = "w" /\ (Token => writeCh = 0)
           /\ writeCh' = IF Token THEN g ELSE 0
           /\ Go(g, "w1") /\ NoRet
           /\ UNCHANGED <<at, left, first, nid, dest, list, wire, notices, abs>>
(* the destroyed flag is read before the number of a packet is taken: of a message
   that is sent, the moment is the first time *)
Check(g) == /\ pc[g] = "w1"
            /\ IF dest
               THEN /\ Go(g, "wbad") /\ UNCHANGED <<abs>>
               ELSE /\ Go(g, "w2")
                    /\ aId' = IF left[g] = Num(g) THEN aId + Num(g) ELSE aId
                    /\ UNCHANGED <<aDest, aGone>>
            /\ NoRet /\ UNCHANGED <<at, left, first, mem>>
Number(g) == /\ pc[g] = "w2"
             /\ nid' = nid + 1 /\ wire' = Append(wire, <<g, at[g]>>)
             /\ first' = IF left[g] = Num(g) THEN [first EXCEPT ![g] = nid] ELSE first
             /\ left' = [left EXCEPT ![g] = @ - 1]
             /\ Go(g, IF left[g] > 1 THEN "w1" ELSE "wok")
             /\ NoRet /\ UNCHANGED <<at, writeCh, dest, list, notices, abs>>
Written(g) == /\ pc[g] \in {"wok", "wbad"}
              /\ writeCh' = IF writeCh = g THEN 0 ELSE writeCh
              /\ Ret(g, IF pc[g] = "wok" THEN first[g] ELSE -1, 0)
              /\ UNCHANGED <<at, left, first, nid, dest, list, wire, notices, abs>>

(* close *)
Loser(g) == IF Kind(g) = "r" THEN Go(g, "r5") /\ NoRet ELSE Ret(g, 1, 0)
Close1(g) == /\ pc[g] = "c"
             /\ IF dest THEN Ret(g, 1, 0) ELSE Go(g, "c2") /\ NoRet
             /\ UNCHANGED <<at, left, first, mem, abs>>
Close2(g) == /\ pc[g] = "c2"     \* moment: the end
             /\ dest' = TRUE /\ aDest' = TRUE
             /\ IF dest /\ TestSet THEN Loser(g) ELSE Go(g, "c3") /\ NoRet
             /\ UNCHANGED <<at, left, first, writeCh, nid, list, wire, notices, aGone, aId>>
Close3(g) == /\ pc[g] = "c3"     \* moment: no longer listed
             /\ list' = IF Same THEN list \ {1} ELSE {}
             /\ aGone' = TRUE
             /\ Go(g, "c4") /\ NoRet
             /\ UNCHANGED <<at, left, first, writeCh, nid, dest, wire, notices, aDest, aId>>
Close4(g) == /\ pc[g] = "c4"
             /\ notices' = notices + 1
             /\ IF Kind(g) = "r" THEN Go(g, "r5") /\ NoRet ELSE Ret(g, 1, 0)
             /\ UNCHANGED <<at, left, first, writeCh, nid, dest, list, wire, abs>>
(* the peer reconnects: serve ends this connection, then lists the next *)
Again(g) == /\ pc[g] = "r" /\ Go(g, IF dest THEN "r5" ELSE "c2") /\ NoRet
            /\ UNCHANGED <<at, left, first, mem, abs>>
Next2(g) == /\ pc[g] = "r5" /\ list' = (list \ {1}) \cup {2} /\ aGone' = TRUE
            /\ Ret(g, 1, 0)
            /\ UNCHANGED <<at, left, first, writeCh, nid, dest, wire, notices, aDest, aId>>

Look(g) == /\ pc[g] \in {"l", "d"}
           /\ IF pc[g] = "l" THEN Ret(g, ToInt(1 \in list), ToInt(~aGone)) ELSE Ret(g, ToInt(dest), ToInt(aDest))
           /\ UNCHANGED <<at, left, first, mem, abs>>

Done == (\A g \in G : pc[g] = "idle" /\ at[g] = Len(Prog[g])) /\ UNCHANGED vars
Next == Done \/ \E g \in G : \/ Begin(g) \/ Take(g) \/ Check(g) \/ Number(g) \/ Written(g)
                             \/ Close1(g) \/ Close2(g) \/ Close3(g) \/ Close4(g) \/ Again(g) \/ Next2(g) \/ Look(g)
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
W == {r \in rets : r.k = "w" /\ r.v # -1}

(* numbers: one each, in the order of the calls, the packets of a message together *)
Numbers == /\ \A x, y \in W : (x # y /\ x.e < y.b) => x.v < y.v
           /\ \A x, y \in W : x.v = y.v => x = y
Whole == \A x \in W : \A i \in 0..Prog[x.g][x.n][2] - 1 : wire[x.v + i + 1] = <<x.g, x.n>>
(* the end: once, and after it nothing is accepted that was begun after it *)
OneEnd == notices <= 1
EndFinal == \A x \in W, y \in rets : (y.k = "c" \/ (y.k = "d" /\ y.v = 1)) => ~(y.e < x.b)
(* what the calls report is what their moments report *)
Truthful == \A x \in rets : x.k \in {"l", "d"} => x.v = x.a
(* seen ended, seen ended for ever; not listed, never listed again *)
Forever == \A x, y \in rets : (x.e < y.b /\ x.k = y.k) => /\ ((x.k = "d" /\ x.v = 1) => y.v = 1)
                                                          /\ ((x.k = "l" /\ x.v = 0) => y.v = 0)
(* the next connection stays *)
NextStays == (\E g \in G : pc[g] = "idle" /\ at[g] > 0 /\ Kind(g) = "r") => 2 \in list
=============================================================================
