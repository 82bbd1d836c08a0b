-------------------------------- MODULE Par ---------------------------------
(***************************************************************************)
(* What single properties say about histories with overlapping requests,   *)
(* whatever the order in which the requests took effect (Lin.tla asks for   *)
(* the order; here the answers alone are contradictory).  One state per    *)
(* history.                                                                *)
(***************************************************************************)
EXTENDS Props, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLE tid

Q(e) == e.q @@ NullReq
O(e) == e.o @@ NullOut

\* every request of the history with the number of its event or batch
All(tr) ==
  UNION {IF "par" \in DOMAIN tr.ev[n]
         THEN {[n |-> n, k |-> k, q |-> Q(tr.ev[n].par[k]), o |-> O(tr.ev[n].par[k])] : k \in 1..Len(tr.ev[n].par)}
         ELSE {[n |-> n, k |-> 0, q |-> Q(tr.ev[n]), o |-> O(tr.ev[n])]}
         : n \in 1..Len(tr.ev)}

Exch(x)  == x.q.op = "token" /\ Val(x.q, "grant") = "authorization_code"
Refr(x)  == x.q.op = "token" /\ Val(x.q, "grant") = "refresh_token"
Given(x) == {x.o.at, x.o.rt, x.o.code} \ {""}
Told(x)  == x.o.kind = "tokens"
Tok(x)   == Val(x.q, "tok")

\* answered with tokens twice
Twice(E, P(_)) == \E x, y \in E : /\ <<x.n, x.k>> # <<y.n, y.k>>
                                  /\ P(x) /\ P(y) /\ Told(x) /\ Told(y)
                                  /\ Tok(x) = Tok(y)
\* handed out twice
Repeated(E) == \E x, y \in E : <<x.n, x.k>> # <<y.n, y.k>> /\ Given(x) \cap Given(y) # {}

\* everything that originates from code c
RECURSIVE Closure(_, _)
Closure(E, S) == LET N == S \cup UNION {Given(x) : x \in {y \in E : Refr(y) /\ Told(y) /\ Tok(y) \in S}}
                 IN IF N = S THEN S ELSE Closure(E, N)
Family(E, c) == Closure(E, UNION {Given(x) : x \in {y \in E : Exch(y) /\ Told(y) /\ Tok(y) = c}})

Alive(E, n) == UNION {Range(x.o.acc) \cup Range(x.o.act) : x \in {y \in E : y.q.op = "snap" /\ y.n > n}}

\* a second presentation, the same as the one that was served, was refused:
\* then it came later, and was a replay
Replayed(E, x, y) ==
  /\ Exch(x) /\ Exch(y) /\ Told(x) /\ <<x.n, x.k>> # <<y.n, y.k>>
  /\ y.o.kind = "error" /\ y.o.err = "invalid_grant" /\ ~Faulty(y.q)
  /\ x.q = y.q
Max2(a, b) == IF a > b THEN a ELSE b
Survivors(E) == \E x, y \in E : Replayed(E, x, y) /\ Family(E, Tok(x)) \cap Alive(E, Max2(x.n, y.n)) # {}

\* revoked by its own client, and answered so
Owned(E, t, c) == \E x \in E : t \in Given(x) /\ ((x.q.op = "authorize" /\ Val(x.q, "client") = c) \/ (x.q.op = "token" /\ ClientOf(x.q) = c))
Undead(E) == \E x \in E : /\ x.q.op = "revoke" /\ x.o.kind = "ok"
                          /\ Owned(E, x.q.tok, ClientOf(x.q))
                          /\ \/ x.q.tok \in Alive(E, x.n)
                             \/ \E y \in E : y.n > x.n /\ Refr(y) /\ Told(y) /\ Tok(y) = x.q.tok

Wrong(tr) ==
  LET E == All(tr) IN
  (IF Twice(E, Exch) THEN {"C01"} ELSE {})
  \cup (IF Twice(E, Refr) THEN {"C04"} ELSE {})
  \cup (IF Repeated(E) THEN {"C15"} ELSE {})
  \cup (IF Survivors(E) THEN {"C02"} ELSE {})
  \cup (IF Undead(E) THEN {"C11"} ELSE {})

Init == /\ tid \in 1..Len(Traces)
        /\ PrintT(ToJson([x |-> "PAR", t |-> tid, bad |-> Wrong(Traces[tid])]))
Spec == Init /\ [][UNCHANGED tid]_tid
=============================================================================
