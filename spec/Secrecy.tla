------------------------------ MODULE Secrecy ------------------------------
(* What one who sees every datagram, and may alter, repeat and send data packets,
   can learn and have accepted.  Symbolic: keys are unguessable, ciphers perfect.

   The code: connect.go (C1 carries the caller's public key, C2 the other's public
   key encrypted with it, C3 the session key encrypted with that one, C4 nothing),
   crypt.go encryptPacketData: a packet of up to 64 bytes is its content xor a
   hash of session key and number, a longer one AES-GCM under such a hash with
   a fresh nonce.

   The attacker is passive during the handshake (an active one is not kept out:
   public keys are not authenticated).

   Terms: <<"pub", e>> <<"prv", e>> <<"key", s>> <<"msg", m>>
          <<"rsa", e, t>>                     encrypted with e's public key
          <<"xor", s, n, t>> <<"gcm", s, n, i, t>>   packet n of session s           *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS S,      \* sessions
          Msgs,   \* contents; messages may be equal
          Nums,   \* packet numbers
          Most,   \* packets
          Known   \* contents the attacker knows beforehand

Kinds == {"xor", "gcm"}
Dirs == {0, 1}

VARIABLES step,   \* handshake step done per session
          seen,   \* terms the attacker has seen
          out,    \* data packets sent: [s, d, n, k, m, i]
          nonce,
          taken   \* contents accepted from altered or foreign packets: [k, m]

vars == <<step, seen, out, nonce, taken>>
A(s) == <<"A", s>>
B(s) == <<"B", s>>

Init == step = [s \in S |-> 0] /\ seen = {<<"msg", m>> : m \in Known} /\ out = {} /\ nonce = 0 /\ taken = {}

Shake(s) ==
  /\ step[s] < 4 /\ step' = [step EXCEPT ![s] = @ + 1]
  /\ seen' = seen \cup (CASE step[s] = 0 -> {<<"pub", A(s)>>}
                          [] step[s] = 1 -> {<<"rsa", A(s), <<"pub", B(s)>>>>}
                          [] step[s] = 2 -> {<<"rsa", B(s), <<"key", s>>>>}
                          [] OTHER -> {})
  /\ UNCHANGED <<out, nonce, taken>>

Cipher(p) == IF p.k = "xor" THEN <<"xor", p.s, p.n, <<"msg", p.m>>>> ELSE <<"gcm", p.s, p.n, p.i, <<"msg", p.m>>>>

\* each number is used once in each direction
Data(s, d, n, k, m) ==
  /\ step[s] = 4 /\ Cardinality(out) < Most
  /\ ~\E p \in out : p.s = s /\ p.d = d /\ p.n = n
  /\ LET p == [s |-> s, d |-> d, n |-> n, k |-> k, m |-> m, i |-> nonce] IN
     /\ out' = out \cup {p}
     /\ seen' = seen \cup {Cipher(p)}
  /\ nonce' = IF k = "gcm" THEN nonce + 1 ELSE nonce
  /\ UNCHANGED <<step, taken>>

(* a packet of the attacker arrives as packet n of direction d of session s *)
Forge(s, d, n, t) ==
  /\ step[s] = 4
  /\ \/ t[1] = "gcm" /\ t[2] = s /\ t[3] = n /\ taken' = taken  \* the genuine content of that number
     \/ t[1] = "alt" /\ t[2] = "xor" /\ taken' = taken \cup {"xor"} \* no integrity
  /\ UNCHANGED <<step, seen, out, nonce>>

Next == \/ \E s \in S : Shake(s)
        \/ \E s \in S, d \in Dirs, n \in Nums, k \in Kinds, m \in Msgs : Data(s, d, n, k, m)
        \/ \E s \in S, d \in Dirs, n \in Nums, t \in seen \cup {<<"alt", "xor">>, <<"alt", "gcm">>} : Forge(s, d, n, t)
Spec == Init /\ [][Next]_vars

RECURSIVE Learn(_)
Learn(k) ==
  LET more == {t[3] : t \in {x \in k : x[1] = "rsa" /\ <<"prv", x[2]>> \in k}}
              \cup {t[4] : t \in {x \in k : x[1] = "xor" /\ <<"key", x[2]>> \in k}}
              \cup {t[5] : t \in {x \in k : x[1] = "gcm" /\ <<"key", x[2]>> \in k}}
              \* one content under a pad gives the other one under the same pad
              \cup UNION {{y[4] : y \in {y \in k : y[1] = "xor" /\ y[2] = x[2] /\ y[3] = x[3]}} : x \in {x \in k : x[1] = "xor" /\ x[4] \in k}}
  IN IF more \subseteq k THEN k ELSE Learn(k \cup more)

(* C14 *)
NoKey == \A s \in S : <<"key", s>> \notin Learn(seen)
NoContent == \A m \in Msgs \ Known : <<"msg", m>> \notin Learn(seen)
\* in one direction, and on different connections, no two packets look the same
Differ == \A p, q \in out : (p # q /\ (p.s # q.s \/ p.d = q.d)) => Cipher(p) # Cipher(q)
\* long packets are not accepted altered
NotAltered == "gcm" \notin taken
=============================================================================
