------------------------------- MODULE OAuth2 -------------------------------
(***************************************************************************)
(* The authorization server of 256dpi/oauth2 as a sequential state         *)
(* machine.                                                                *)
(*                                                                         *)
(* One request is one atomic action (the implementation serves every       *)
(* request inside one critical section; that this is so is what the        *)
(* concurrent histories of Lin.tla are checked for).                       *)
(*                                                                         *)
(*   cfg  configuration of one server (constant along a behaviour)         *)
(*        .allowed   sequence of allowed scope items                       *)
(*        .al .rl .cl  lifespans of access tokens, refresh tokens, codes   *)
(*                   in ticks                                              *)
(*        .tps       ticks per second (1000 or 1)                          *)
(*        .klen      bytes of key per credential                           *)
(*        .clients   client id -> [secret, redirect, conf]                 *)
(*        .users     user name -> [pass]                                   *)
(*   st   .now       current tick                                          *)
(*        .n         number of credentials issued so far                   *)
(*        .tok       credential id -> record, see NewCred                  *)
(*   q    a request, see NullReq                                           *)
(*   o    an answer, see NullOut                                           *)
(*                                                                         *)
(* Stage1/Stage2 give the set of refusals that apply to a request in a     *)
(* state. The order in which an implementation finds two applicable        *)
(* refusals of the same stage is deliberately left open; a request for     *)
(* which both stages are empty must be served. `Decide' gives the one      *)
(* answer per choice that the implementation's own order leads to and is   *)
(* what the model checker explores; `Effect' is the state change that an   *)
(* answered request implies.                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Range(s) == {s[i] : i \in 1..Len(s)}

-----------------------------------------------------------------------------
(* Requests and answers *)

NullReq == [
  op      |-> "",       \* authorize token introspect revoke resource other
                        \* tick snap seed
  method  |-> "POST",
  formok  |-> TRUE,     \* body and query are well-formed form data
  qf      |-> <<>>,     \* fields that were placed in the URL query only
  deco    |-> <<>>,     \* fields with a second, different value in the query
  cauth   |-> "basic",  \* basic, body, none: how the client authenticates
  client  |-> "", secret |-> "",
  grant   |-> "", rtype |-> "",
  user    |-> "", pass |-> "",
  scope   |-> <<>>,
  redir   |-> "",       \* redirect URI; "!bad" if malformed or with fragment
  state   |-> "",
  tok     |-> "",       \* presented code / refresh token / access token:
                        \* an id, "" (missing), "!bad" or "!unk"
  hint    |-> "",
  hdr     |-> "bearer", \* bearer, none, bad: Authorization header class
  need    |-> <<>>,     \* scope required by the resource
  d       |-> 0,        \* duration of a tick
  cred    |-> <<>>,     \* seed: the credential put into the server
  fault   |-> ""        \* fault that actually hit the request: "", rng (the
                        \* random source failed), body (the request body could
                        \* not be read), write (the response could not be
                        \* written), abort (writing it panicked)
]

NullOut == [
  kind   |-> "",        \* tokens code ok info notice error granted notfound
                        \* time; lost (the response never got out), panic,
                        \* hang, crash, empty, weird
  status |-> 0, err |-> "", via |-> "none", target |-> "",
  at |-> "", rt |-> "", code |-> "",
  scope |-> <<>>, expin |-> 0, state |-> "", ttype |-> "",
  active |-> FALSE, iclient |-> "", iuser |-> "", itype |-> "", iexp |-> 0,
  keys   |-> <<>>,      \* names of the members / parameters of the response
  hd     |-> <<>>,      \* header facts: json nostore pragma referrer challenge
  leak   |-> FALSE,     \* a secret, password or alien credential in the output
  touched |-> FALSE,    \* anything was written at all
  grew   |-> FALSE,     \* the server stores more credentials than before
  bytes  |-> <<>>,      \* per issued credential <<position, length>> of its key
                        \* in the stream of bytes the random source delivered
  acc    |-> <<>>,      \* snapshot: tokens that open a resource
  act    |-> <<>>       \* snapshot: tokens introspected as active by their owner
]

\* the value of a field as far as it counts for the endpoint
Val(q, f) ==
  IF q.op \notin {"authorize", "resource"} /\ f \in Range(q.qf) THEN ""
  ELSE IF q.op = "authorize" /\ f \in {"user", "pass"}
          /\ (f \in Range(q.qf) \/ q.method # "POST") THEN ""
  ELSE q[f]

ValScope(q) == IF q.op # "authorize" /\ "scope" \in Range(q.qf) THEN {} ELSE Range(q.scope)

ClientOf(q) ==
  CASE q.cauth = "basic" -> q.client
    [] q.cauth = "body"  -> Val(q, "client")
    [] OTHER             -> ""
SecretOf(q) ==
  CASE q.cauth = "basic" -> q.secret
    [] q.cauth = "body"  -> Val(q, "secret")
    [] OTHER             -> ""

GrantTypes    == {"password", "client_credentials", "authorization_code", "refresh_token"}
ResponseTypes == {"token", "code"}
Hints         == {"access_token", "refresh_token"}

Kind(id) == IF id = "" THEN "missing" ELSE id

-----------------------------------------------------------------------------
(* Credentials *)

NewCred(kind, client, user, scope, exp, root, redir, by) ==
  [kind |-> kind, client |-> client, user |-> user, scope |-> scope,
   exp |-> exp, root |-> root, redir |-> redir,
   by |-> by,           \* what issued it: authorize, a grant type, or seed
   status |-> "live",   \* live, used (codes), rotated, revoked, replayed
   red |-> 0]           \* history: number of successful redemptions

Malformed(t)     == t \in {"", "!bad"}
Known(st, t)     == t \in DOMAIN st.tok
IsKind(st, t, k) == Known(st, t) /\ st.tok[t].kind = k
Stored(st, t, k) == IsKind(st, t, k) /\ st.tok[t].status = "live"
Expired(st, t)   == st.tok[t].exp < st.now
Valid(st, t, k)  == Stored(st, t, k) /\ ~Expired(st, t)

-----------------------------------------------------------------------------
(* Applicable refusals: sets of [err, status, via] *)

R(e, s, v) == [err |-> e, status |-> s, via |-> v]
If(c, r) == IF c THEN {r} ELSE {}

BadRequest  == R("invalid_request", 400, "json")
BadClient   == R("invalid_client", 401, "json")
BadGrant    == R("invalid_grant", 400, "json")
BadScope    == R("invalid_scope", 400, "json")
Denied      == R("access_denied", 403, "json")
BadHint     == R("unsupported_token_type", 400, "json")

Refused(c, q, s) == IF c THEN s ELSE {}

KnownClient(cfg, id) == id \in DOMAIN cfg.clients
ClientAuthOk(cfg, q) ==
  /\ KnownClient(cfg, ClientOf(q))
  /\ cfg.clients[ClientOf(q)].conf => cfg.clients[ClientOf(q)].secret = SecretOf(q)
OwnerOk(cfg, q) ==
  /\ Val(q, "user") \in DOMAIN cfg.users
  /\ cfg.users[Val(q, "user")].pass = Val(q, "pass")
ScopeOk(cfg, q) == ValScope(q) \subseteq Range(cfg.allowed)

AuthorizeStage1(cfg, st, q) ==
  If(\/ q.method \notin {"GET", "POST"} \/ ~q.formok
     \/ Val(q, "rtype") \notin ResponseTypes
     \/ Val(q, "client") = ""
     \/ Val(q, "redir") \in {"", "!bad"}, BadRequest)
  \cup If(~KnownClient(cfg, Val(q, "client")) /\ Val(q, "client") # "", BadClient)
  \cup If(/\ KnownClient(cfg, Val(q, "client"))
          /\ cfg.clients[Val(q, "client")].redirect # Val(q, "redir"), BadRequest)

RedirVia(q) == IF Val(q, "rtype") = "token" THEN "fragment" ELSE "query"

AuthorizeStage2(cfg, st, q) ==
  IF q.method = "GET" THEN {} ELSE
  If(~ScopeOk(cfg, q), R("invalid_scope", 303, RedirVia(q)))
  \cup If(~OwnerOk(cfg, q), R("access_denied", 303, RedirVia(q)))

TokenStage1(cfg, st, q) ==
  If(\/ q.method # "POST" \/ ~q.formok
     \/ Val(q, "grant") \notin GrantTypes
     \/ ClientOf(q) = ""
     \/ Val(q, "redir") = "!bad", BadRequest)
  \cup If(ClientOf(q) # "" /\ ~ClientAuthOk(cfg, q), BadClient)

CodeErrors(cfg, st, q) ==
  LET t == Val(q, "tok") IN
  IF Malformed(t) THEN {BadRequest}
  ELSE If(\/ ~IsKind(st, t, "code")
          \/ ~Valid(st, t, "code")
          \/ st.tok[t].client # ClientOf(q)
          \/ st.tok[t].redir # Val(q, "redir"), BadGrant)

RefreshErrors(cfg, st, q) ==
  LET t == Val(q, "tok") IN
  IF Malformed(t) THEN {BadRequest}
  ELSE If(\/ ~Valid(st, t, "refresh")
          \/ st.tok[t].client # ClientOf(q), BadGrant)
       \cup If(/\ Stored(st, t, "refresh")
               /\ ~(ValScope(q) \subseteq st.tok[t].scope), BadScope)

TokenStage2(cfg, st, q) ==
  CASE Val(q, "grant") = "password" ->
         If(~OwnerOk(cfg, q), Denied) \cup If(~ScopeOk(cfg, q), BadScope)
    [] Val(q, "grant") = "client_credentials" ->
         If(~cfg.clients[ClientOf(q)].conf, BadClient) \cup If(~ScopeOk(cfg, q), BadScope)
    [] Val(q, "grant") = "authorization_code" -> CodeErrors(cfg, st, q)
    [] Val(q, "grant") = "refresh_token"      -> RefreshErrors(cfg, st, q)
    [] OTHER -> {}

\* introspection and revocation
TokenOpStage1(cfg, st, q) ==
  If(\/ q.method # "POST" \/ ~q.formok
     \/ Val(q, "tok") = "" \/ q.cauth # "basic", BadRequest)
  \cup If(Val(q, "hint") \notin Hints \cup {""}, BadHint)
  \cup If(q.cauth = "basic" /\ ~ClientAuthOk(cfg, q), BadClient)

Foreign(st, q) ==
  LET t == q.tok IN
  /\ Stored(st, t, "access") \/ Stored(st, t, "refresh")
  /\ st.tok[t].client # ClientOf(q)
TokenOpStage2(cfg, st, q) ==
  If(q.tok = "!bad", BadRequest) \cup If(Foreign(st, q), BadClient)

\* a foreign token that is already expired may be unknown to the server
TokenOpMayServe(cfg, st, q) == Foreign(st, q) /\ Expired(st, q.tok)

ResourceStage1(cfg, st, q) ==
  CASE q.hdr = "none" -> {R("", 401, "bearer")}
    [] q.hdr = "bad"  -> {R("invalid_request", 400, "bearer")}
    [] OTHER -> If(~Valid(st, q.tok, "access"), R("invalid_token", 401, "bearer"))
ResourceStage2(cfg, st, q) ==
  If(/\ Valid(st, q.tok, "access")
     /\ ~(Range(q.need) \subseteq st.tok[q.tok].scope), R("insufficient_scope", 403, "bearer"))

Stage1(cfg, st, q) ==
  CASE q.op = "authorize" -> AuthorizeStage1(cfg, st, q)
    [] q.op = "token"     -> TokenStage1(cfg, st, q)
    [] q.op \in {"introspect", "revoke"} -> TokenOpStage1(cfg, st, q)
    [] q.op = "resource"  -> ResourceStage1(cfg, st, q)
    [] OTHER -> {}

Stage2(cfg, st, q) ==
  CASE q.op = "authorize" -> AuthorizeStage2(cfg, st, q)
    [] q.op = "token"     -> TokenStage2(cfg, st, q)
    [] q.op \in {"introspect", "revoke"} -> TokenOpStage2(cfg, st, q)
    [] q.op = "resource"  -> ResourceStage2(cfg, st, q)
    [] OTHER -> {}

Refusals(cfg, st, q) ==
  LET s1 == Stage1(cfg, st, q) IN IF s1 # {} THEN s1 ELSE Stage2(cfg, st, q)

MayServe(cfg, st, q) ==
  \/ Refusals(cfg, st, q) = {}
  \/ /\ q.op \in {"introspect", "revoke"}
     /\ Stage1(cfg, st, q) = {}
     /\ TokenOpMayServe(cfg, st, q)

-----------------------------------------------------------------------------
(* What a request does once it is served, and the replay reaction *)

IsReplay(cfg, st, q) ==
  /\ q.op = "token" /\ q.fault # "body"
  /\ Stage1(cfg, st, q) = {}
  /\ Val(q, "grant") = "authorization_code"
  /\ IsKind(st, Val(q, "tok"), "code")
  /\ st.tok[Val(q, "tok")].status = "used"

Replay(st, c) ==
  [st EXCEPT !.tok = [t \in DOMAIN st.tok |->
     IF st.tok[t].root = c /\ st.tok[t].status = "live"
     THEN [st.tok[t] EXCEPT !.status = "replayed"] ELSE st.tok[t]]]

\* what an issuing request hands out: client, user, scope, origin code
Grantee(cfg, st, q) ==
  LET t == Val(q, "tok") IN
  CASE q.op = "authorize" ->
         [client |-> Val(q, "client"), user |-> Val(q, "user"), scope |-> ValScope(q), root |-> ""]
    [] q.op = "token" /\ Val(q, "grant") = "password" ->
         [client |-> ClientOf(q), user |-> Val(q, "user"), scope |-> ValScope(q), root |-> ""]
    [] q.op = "token" /\ Val(q, "grant") = "client_credentials" ->
         [client |-> ClientOf(q), user |-> "", scope |-> ValScope(q), root |-> ""]
    [] q.op = "token" /\ Val(q, "grant") = "authorization_code" ->
         [client |-> st.tok[t].client, user |-> st.tok[t].user, scope |-> st.tok[t].scope, root |-> t]
    [] q.op = "token" /\ Val(q, "grant") = "refresh_token" ->
         [client |-> st.tok[t].client, user |-> st.tok[t].user,
          scope |-> IF ValScope(q) = {} THEN st.tok[t].scope ELSE ValScope(q),
          root |-> st.tok[t].root]

Redeem(st, t, status) ==
  [st.tok EXCEPT ![t].status = status, ![t].red = @ + 1]

\* the credentials after handing out access token a (and refresh token r)
Issue(cfg, tok, now, g, by, a, r) ==
  LET A == a :> NewCred("access", g.client, g.user, g.scope, now + cfg.al, g.root, "", by)
      B == r :> NewCred("refresh", g.client, g.user, g.scope, now + cfg.rl, g.root, "", by)
  IN (IF a = "" THEN <<>> ELSE A) @@ (IF r = "" THEN <<>> ELSE B) @@ tok

By(q) == IF q.op = "authorize" THEN "authorize" ELSE Val(q, "grant")

IssueEffect(cfg, st, q, o) ==
  LET g == Grantee(cfg, st, q)
      base == IF q.op = "token" /\ Val(q, "grant") = "authorization_code"
                THEN Redeem(st, Val(q, "tok"), "used")
              ELSE IF q.op = "token" /\ Val(q, "grant") = "refresh_token"
                THEN Redeem(st, Val(q, "tok"), "rotated")
              ELSE st.tok
  IN [st EXCEPT !.tok = Issue(cfg, base, st.now, g, By(q), o.at, o.rt),
                !.n = @ + (IF o.rt = "" THEN 1 ELSE 2)]

CodeEffect(cfg, st, q, o) ==
  LET g == Grantee(cfg, st, q)
      C == o.code :> NewCred("code", g.client, g.user, g.scope, st.now + cfg.cl, "",
                             Val(q, "redir"), "authorize")
  IN [st EXCEPT !.tok = C @@ @, !.n = @ + 1]

RevokeEffect(st, q) ==
  IF (Stored(st, q.tok, "access") \/ Stored(st, q.tok, "refresh"))
     /\ st.tok[q.tok].client = ClientOf(q)
  THEN [st EXCEPT !.tok[q.tok].status = "revoked"] ELSE st

SeedEffect(st, q) ==
  LET c == q.cred IN
  [st EXCEPT !.tok = (q.tok :> [NewCred(c.kind, c.client, c.user, Range(c.scope), c.exp, c.root, c.redir, "seed")
                                EXCEPT !.status = c.status]) @@ @]

\* issuing requests, for answers that did not get out
Issuing(q) == \/ q.op = "token"
              \/ q.op = "authorize" /\ q.method = "POST"

Effect(cfg, st, q, o) ==
  CASE o.kind = "time" -> [st EXCEPT !.now = @ + q.d]
    [] o.kind = "code" -> CodeEffect(cfg, st, q, o)
    [] o.kind = "tokens" -> IssueEffect(cfg, st, q, o)
    [] o.kind = "ok" /\ q.op = "revoke" -> RevokeEffect(st, q)
    [] o.kind = "seeded" -> SeedEffect(st, q)
    [] o.kind = "error" /\ IsReplay(cfg, st, q) -> Replay(st, Val(q, "tok"))
    [] o.kind = "lost" -> \* whatever the request was to do has been done
         IF IsReplay(cfg, st, q) THEN Replay(st, Val(q, "tok"))
         ELSE IF Refusals(cfg, st, q) # {} THEN st
         ELSE IF q.op = "revoke" THEN RevokeEffect(st, q)
         ELSE IF q.op = "token" \/ o.at # "" THEN IssueEffect(cfg, st, q, o)
         ELSE IF o.code # "" THEN CodeEffect(cfg, st, q, o)
         ELSE st
    [] OTHER -> st

-----------------------------------------------------------------------------
(* The answers the design gives *)

Id(n) == "T" \o ToString(n)

ErrorOut(cfg, q, e) ==
  [NullOut EXCEPT !.kind = "error", !.status = e.status, !.err = e.err, !.via = e.via,
     !.target = IF e.via \in {"query", "fragment"} THEN cfg.clients[Val(q, "client")].redirect ELSE "",
     !.state = IF e.via \in {"query", "fragment"} THEN Val(q, "state") ELSE "",
     !.scope = IF e.err = "insufficient_scope" THEN q.need ELSE <<>>,
     !.touched = TRUE,
     !.keys = (IF e.err = "" THEN <<>> ELSE <<"error">>)
              \o (IF e.via \in {"query", "fragment"} /\ Val(q, "state") # "" THEN <<"state">> ELSE <<>>),
     !.hd = CASE e.via \in {"query", "fragment"} -> <<"location", "nostore", "pragma", "referrer">>
              [] e.via = "bearer" -> <<"challenge">>
              [] e.status = 401 -> <<"json", "nostore", "pragma", "challenge">>
              [] OTHER -> <<"json", "nostore", "pragma">>]

RECURSIVE SetToSeq0(_)
SetToSeq0(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SetToSeq0(S \ {x})

StateKey(q) == IF Val(q, "state") # "" THEN <<"state">> ELSE <<>>
RedirectHd == <<"location", "nostore", "pragma", "referrer">>
JsonHd == <<"json", "nostore", "pragma">>

ServeOut(cfg, st, q) ==
  CASE q.op = "tick" -> [NullOut EXCEPT !.kind = "time"]
    [] q.op = "conf" -> [NullOut EXCEPT !.kind = "conf"]
    [] q.op = "other" -> [NullOut EXCEPT !.kind = "notfound", !.status = 404, !.touched = TRUE]
    [] q.op = "authorize" /\ q.method = "GET" -> [NullOut EXCEPT !.kind = "notice", !.status = 200, !.touched = TRUE]
    [] q.op = "authorize" /\ Val(q, "rtype") = "code" ->
         [NullOut EXCEPT !.kind = "code", !.status = 303, !.via = "query",
            !.target = cfg.clients[Val(q, "client")].redirect,
            !.code = Id(st.n + 1), !.state = Val(q, "state"),
            !.touched = TRUE, !.keys = <<"code">> \o StateKey(q), !.hd = RedirectHd]
    [] q.op = "authorize" ->
         [NullOut EXCEPT !.kind = "tokens", !.status = 303, !.via = "fragment",
            !.target = cfg.clients[Val(q, "client")].redirect,
            !.at = Id(st.n + 1), !.state = Val(q, "state"), !.ttype = "bearer",
            !.expin = cfg.al \div cfg.tps, !.scope = SetToSeq0(ValScope(q)),
            !.touched = TRUE, !.hd = RedirectHd,
            !.keys = <<"token_type", "access_token", "expires_in", "scope">> \o StateKey(q)]
    [] q.op = "token" ->
         [NullOut EXCEPT !.kind = "tokens", !.status = 200, !.via = "json",
            !.at = Id(st.n + 1), !.rt = Id(st.n + 2), !.ttype = "bearer",
            !.expin = cfg.al \div cfg.tps, !.scope = SetToSeq0(Grantee(cfg, st, q).scope),
            !.touched = TRUE, !.hd = JsonHd,
            !.keys = <<"token_type", "access_token", "refresh_token", "expires_in", "scope">>]
    [] q.op = "revoke" -> [NullOut EXCEPT !.kind = "ok", !.status = 200, !.touched = TRUE]
    [] q.op = "introspect" ->
         IF (Valid(st, q.tok, "access") \/ Valid(st, q.tok, "refresh")) /\ st.tok[q.tok].client = ClientOf(q)
         THEN LET t == st.tok[q.tok] IN
              [NullOut EXCEPT !.kind = "info", !.status = 200, !.via = "json", !.active = TRUE,
                 !.iclient = t.client, !.iuser = t.user, !.itype = t.kind \o "_token",
                 !.iexp = t.exp \div cfg.tps, !.scope = SetToSeq0(t.scope),
                 !.touched = TRUE, !.hd = JsonHd,
                 !.keys = <<"active", "client_id", "token_type", "exp", "scope">>]
         ELSE [NullOut EXCEPT !.kind = "info", !.status = 200, !.via = "json",
                 !.touched = TRUE, !.hd = JsonHd, !.keys = <<"active">>]
    [] q.op = "resource" -> [NullOut EXCEPT !.kind = "granted", !.status = 200]

\* all answers the specification admits (one per choice of applicable refusal)
\* to a request nothing happens to
Undisturbed(cfg, st, q) ==
  LET rs == Refusals(cfg, st, q) IN
  {ErrorOut(cfg, q, r) : r \in rs} \cup
  (IF MayServe(cfg, st, q) THEN {ServeOut(cfg, st, q)} ELSE {})

\* A disturbed request: the random source fails (only a request that issues
\* something gets that far) or the body cannot be read: no effect; the answer
\* cannot be delivered: full effect, unseen.
Disturbed(cfg, st, q) ==
  CASE q.fault = "rng" -> {[NullOut EXCEPT !.kind = k] : k \in {"panic", "error"}}
    [] q.fault = "body" -> {[ErrorOut(cfg, [q EXCEPT !.fault = ""], [err |-> "invalid_request", status |-> 400, via |-> "json"])
                             EXCEPT !.target = ""]}
    [] OTHER -> {[o EXCEPT !.kind = "lost"] : o \in Undisturbed(cfg, st, q)}

Decide(cfg, st, q) == IF q.fault = "" THEN Undisturbed(cfg, st, q) ELSE Disturbed(cfg, st, q)

InitState == [now |-> 0, n |-> 0, tok |-> <<>>]
=============================================================================
