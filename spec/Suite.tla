------------------------------- MODULE Suite --------------------------------
(***************************************************************************)
(* The conformance suite of package oauth2test as an experiment: it sends  *)
(* a sequence of requests to a server and passes or fails it.  Every line  *)
(* of the input is one configuration of the suite with                     *)
(*   .ev      the exchanges with the library's own server (preceded by the *)
(*            credentials that were put into it), and .pass, the verdict   *)
(*   .dev     reruns in which the answer to exchange .i was replaced by    *)
(*            .o; .k says in which way, .pass is the verdict               *)
(*   .blank   runs with one field of the suite's configuration left out;   *)
(*            .stopped says whether the suite refused to run               *)
(* A suite that does its job                                               *)
(*   passes the library's own server, whose answers all conform,           *)
(*   asks everything that Required lists for its configuration,            *)
(*   fails a server as soon as one prescribed answer does not conform,     *)
(*   still passes a server that merely writes an answer differently, and   *)
(*   refuses to run exactly if a required field is missing.                *)
(***************************************************************************)
EXTENDS Props, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
Show == IOEnv.SHOW = "yes"

VARIABLES cid, i, st, seen, run
vars == <<cid, i, st, seen, run>>

Q(e) == e.q @@ NullReq
O(e) == e.o @@ NullOut

-----------------------------------------------------------------------------
(* What an exchange is about: <<endpoint, kind, client, token, detail>> *)

Who(cfg, q) ==
  LET id == ClientOf(q) IN
  IF q.op = "resource" THEN q.hdr
  ELSE IF q.op = "authorize" THEN
         (IF Val(q, "client") = "" THEN "none" ELSE IF ~KnownClient(cfg, Val(q, "client")) THEN "unknown" ELSE "known")
  ELSE IF id = "" THEN "none"
  ELSE IF ~KnownClient(cfg, id) THEN "unknown"
  ELSE IF ~cfg.clients[id].conf THEN "public"
  ELSE IF cfg.clients[id].secret = SecretOf(q) THEN "conf"
  ELSE IF SecretOf(q) = "" THEN "nosecret" ELSE "badsecret"

What(q) ==
  CASE q.op = "authorize" -> q.method \o " " \o (IF Val(q, "rtype") \in ResponseTypes \cup {""} THEN Val(q, "rtype") ELSE "?")
    [] q.op = "token" -> IF Val(q, "grant") \in GrantTypes \cup {""} THEN Val(q, "grant") ELSE "?"
    [] q.op = "resource" -> ""
    [] OTHER -> q.method \o " " \o (IF q.hint \in Hints \cup {""} THEN q.hint ELSE "?")

Tok(s, q) ==
  LET t == Val(q, "tok") IN
  IF t \in {"", "!bad", "!unk"} THEN t
  ELSE IF ~Known(s, t) THEN "?"
  ELSE s.tok[t].by \o " " \o s.tok[t].kind \o " " \o
       (IF s.tok[t].status = "live" /\ Expired(s, t) THEN "expired" ELSE s.tok[t].status)

ScopeClass(cfg, q) ==
  LET v == ValScope(q) IN
  IF v = {} THEN "" ELSE IF v \subseteq Range(cfg.allowed) THEN "scope"
  ELSE IF v \cap Range(cfg.allowed) = {} THEN "badscope" ELSE "morescope"

RedirClass(cfg, q) ==
  IF q.op = "authorize" /\ KnownClient(cfg, Val(q, "client")) /\ Val(q, "redir") # cfg.clients[Val(q, "client")].redirect
  THEN "badredirect"
  ELSE IF CodeGrant(q) /\ KnownClient(cfg, ClientOf(q)) /\ cfg.clients[ClientOf(q)].conf
          /\ Val(q, "redir") # cfg.clients[ClientOf(q)].redirect THEN "badredirect"
  ELSE ""

OwnerClass(cfg, q) ==
  IF \/ q.op = "authorize" /\ q.method = "POST" /\ Val(q, "rtype") \in ResponseTypes /\ Val(q, "scope") # <<>>
     \/ q.op = "token" /\ Val(q, "grant") = "password"
  THEN (IF Val(q, "user") = "" THEN "noowner" ELSE IF OwnerOk(cfg, q) THEN "owner"
        ELSE IF Val(q, "user") \in DOMAIN cfg.users THEN "badpass" ELSE "baduser")
  ELSE ""

Detail(cfg, s, q) ==
  IF q.op = "resource" THEN
    (IF Valid(s, q.tok, "access") /\ ~(Range(q.need) \subseteq s.tok[q.tok].scope) THEN "insufficient" ELSE "")
  ELSE IF q.op \in {"introspect", "revoke"} THEN ""
  ELSE IF CodeGrant(q) THEN RedirClass(cfg, q)
  ELSE IF ~ClientAuthOk(cfg, q) /\ q.op = "token" THEN ""
  ELSE ScopeClass(cfg, q) \o " " \o OwnerClass(cfg, q) \o RedirClass(cfg, q)

Class(cfg, s, q) == <<q.op, What(q), Who(cfg, q), Tok(s, q), Detail(cfg, s, q)>>

-----------------------------------------------------------------------------
(* What the suite has to ask *)

Grants == {"password", "client_credentials", "authorization_code", "refresh_token"}
FlagOf == [g \in Grants |-> CASE g = "password" -> "password" [] g = "client_credentials" -> "cc"
                              [] g = "authorization_code" -> "code" [] OTHER -> "refresh"]

\* an access token that some grant handed out (or a given one) works, is active,
\* can be revoked, and is of no use afterwards
AccessRound(f, by) ==
  LET live == by \o " access live"
      dead == by \o " access revoked" IN
  {<<"resource", "", "bearer", live, "">>}
  \cup (IF ~f.introspection THEN {} ELSE {<<"introspect", "POST access_token", "conf", live, "">>})
  \cup (IF ~f.revocation THEN {} ELSE
         {<<"revoke", "POST access_token", "conf", live, "">>, <<"resource", "", "bearer", dead, "">>}
         \cup (IF ~f.introspection THEN {} ELSE {<<"introspect", "POST access_token", "conf", dead, "">>}))

\* a refresh token is active, can be used once, and its successor can be revoked
RefreshRound(f, by) ==
  LET live == by \o " refresh live"
      spent == by \o " refresh rotated" IN
  {<<"token", "refresh_token", "conf", live, " ">>, <<"token", "refresh_token", "conf", spent, " ">>}
  \cup AccessRound(f, "refresh_token")
  \cup (IF ~f.introspection THEN {} ELSE
         {<<"introspect", "POST refresh_token", "conf", live, "">>, <<"introspect", "POST refresh_token", "conf", spent, "">>})
  \cup (IF ~f.revocation THEN {} ELSE
         {<<"revoke", "POST refresh_token", "conf", "refresh_token refresh live", "">>,
          <<"token", "refresh_token", "conf", "refresh_token refresh revoked", " ">>}
         \cup (IF ~f.introspection THEN {} ELSE {<<"introspect", "POST refresh_token", "conf", "refresh_token refresh revoked", "">>}))

TokenOp(op) ==
  {<<op, "POST ", "none", "", "">>, <<op, "POST ", "none", "seed access live", "">>, <<op, "POST ", "conf", "", "">>,
   <<op, "POST ?", "conf", "seed access live", "">>, <<op, "POST ", "unknown", "seed access live", "">>,
   <<op, "POST ", "nosecret", "seed access live", "">>, <<op, "POST ", "public", "seed access live", "">>,
   <<op, "POST ", "conf", "!bad", "">>, <<op, "POST ", "conf", "!unk", "">>}

AuthorizeRound(rt) ==
  {<<"authorize", "POST " \o rt, "known", "", "badscope owner">>, <<"authorize", "POST " \o rt, "known", "", "morescope owner">>,
   <<"authorize", "POST " \o rt, "known", "", "scope noowner">>, <<"authorize", "POST " \o rt, "known", "", "scope badpass">>,
   <<"authorize", "POST " \o rt, "known", "", "scope owner">>}

Required(f) ==
  {<<"resource", "", "none", "", "">>, <<"resource", "", "bad", "", "">>, <<"resource", "", "bearer", "!bad", "">>,
   <<"resource", "", "bearer", "!unk", "">>, <<"resource", "", "bearer", "seed access expired", "">>,
   <<"resource", "", "bearer", "seed access live", "insufficient">>}
  \cup (IF ~(f.password \/ f.cc \/ f.code \/ f.refresh) THEN {} ELSE
         {<<"token", "", "none", "", "">>, <<"token", "password", "unknown", "", "">>, <<"token", "?", "conf", "", " ">>})
  \cup (IF ~(f.implicit \/ f.code) THEN {} ELSE
         {<<"authorize", "POST ", "none", "", " ">>, <<"authorize", "POST code", "unknown", "", " ">>,
          <<"authorize", "POST code", "known", "", " badredirect">>, <<"authorize", "POST ?", "known", "", " ">>,
          <<"authorize", "GET token", "known", "", " ">>})
  \cup (IF ~f.password THEN {} ELSE
         {<<"token", "password", "badsecret", "", "">>, <<"token", "password", "conf", "", "scope baduser">>,
          <<"token", "password", "conf", "", "scope badpass">>, <<"token", "password", "conf", "", "badscope owner">>,
          <<"token", "password", "conf", "", "morescope owner">>, <<"token", "password", "conf", "", "scope owner">>}
         \cup AccessRound(f, "password") \cup RefreshRound(f, "password"))
  \cup (IF ~f.cc THEN {} ELSE
         {<<"token", "client_credentials", "badsecret", "", "">>, <<"token", "client_credentials", "public", "", "scope ">>,
          <<"token", "client_credentials", "conf", "", "badscope ">>, <<"token", "client_credentials", "conf", "", "morescope ">>,
          <<"token", "client_credentials", "conf", "", "scope ">>}
         \cup AccessRound(f, "client_credentials") \cup RefreshRound(f, "client_credentials"))
  \cup (IF ~f.implicit THEN {} ELSE AuthorizeRound("token") \cup AccessRound(f, "authorize"))
  \cup (IF ~f.code THEN {} ELSE
         AuthorizeRound("code")
         \cup {<<"token", "authorization_code", "badsecret", "!bad", "">>, <<"token", "authorization_code", "conf", "!bad", "">>,
               <<"token", "authorization_code", "conf", "!unk", "">>, <<"token", "authorization_code", "conf", "seed code expired", "">>,
               <<"token", "authorization_code", "public", "authorize code live", "">>,
               <<"token", "authorization_code", "conf", "authorize code live", "badredirect">>,
               <<"token", "authorization_code", "conf", "authorize code live", "">>,
               <<"token", "authorization_code", "conf", "authorize code used", "">>}
         \cup AccessRound(f, "authorization_code") \cup RefreshRound(f, "authorization_code")
         \cup (IF ~f.mitigation THEN {} ELSE
                {<<"resource", "", "bearer", "authorization_code access replayed", "">>,
                 <<"token", "refresh_token", "conf", "authorization_code refresh replayed", " ">>}))
  \cup (IF ~f.refresh THEN {} ELSE
         {<<"token", "refresh_token", "badsecret", "seed refresh live", "">>, <<"token", "refresh_token", "conf", "!bad", " ">>,
          <<"token", "refresh_token", "conf", "!unk", " ">>, <<"token", "refresh_token", "conf", "seed refresh expired", " ">>,
          <<"token", "refresh_token", "public", "seed refresh live", " ">>,
          <<"token", "refresh_token", "conf", "seed refresh live", "morescope ">>}
         \cup RefreshRound(f, "seed"))
  \cup (IF ~f.introspection THEN {} ELSE
         TokenOp("introspect") \cup {<<"introspect", "GET ", "none", "", "">>,
                                     <<"introspect", "POST access_token", "conf", "seed access live", "">>})
  \cup (IF ~f.revocation THEN {} ELSE TokenOp("revoke") \cup AccessRound(f, "seed"))

-----------------------------------------------------------------------------
(* The fields a configuration cannot do without *)

RequiredFields(f) ==
  {"Handler", "TokenEndpoint", "AuthorizeEndpoint", "ProtectedResource", "ConfidentialClientID", "ConfidentialClientSecret",
   "PublicClientID", "InvalidScope", "ValidScope", "ExceedingScope", "InvalidToken", "ValidToken", "UnknownToken", "ExpiredToken"}
  \cup (IF f.implicit \/ f.code THEN {"InvalidRedirectURI", "PrimaryRedirectURI", "SecondaryRedirectURI",
                                      "InvalidAuthorization", "ValidAuthorization"} ELSE {})
  \cup (IF f.password THEN {"ResourceOwnerUsername", "ResourceOwnerPassword"} ELSE {})
  \cup (IF f.code THEN {"InvalidAuthorizationCode", "UnknownAuthorizationCode", "ExpiredAuthorizationCode"} ELSE {})
  \cup (IF f.refresh THEN {"InvalidRefreshToken", "UnknownRefreshToken", "ValidRefreshToken", "ExpiredRefreshToken"} ELSE {})

-----------------------------------------------------------------------------
(* Which aspects of an answer the suite prescribes: all but these *)

Prescribed(cfg, s, q, k) ==
  CASE q.op = "authorize" /\ q.method = "GET" -> k = "gone"     \* a page of whatever kind
    [] q.op = "introspect" /\ q.tok = "!unk" -> k \notin {"active", "type"}
    [] q.op = "introspect" /\ k = "type" -> s.tok[q.tok].by # "seed" \/ s.tok[q.tok].kind = "refresh"
    [] q.op = "resource" /\ k = "body" -> ~(Known(s, q.tok) /\ s.tok[q.tok].status # "live")
    [] q.op = "resource" /\ k = "code" -> ~(Known(s, q.tok) /\ s.tok[q.tok].status = "replayed")
    [] OTHER -> TRUE

Say(x) == PrintT(ToJson(x))

-----------------------------------------------------------------------------

Init == /\ cid \in 1..Len(Cases)
        /\ i = 0
        /\ st = InitState
        /\ seen = {}
        /\ run = TRUE

\* the verdicts about reruns in which the answer of this exchange was another one
Doctored(c, k, q) ==
  \A j \in 1..Len(c.dev) :
    LET d == c.dev[j] IN
    d.i # k \/
    IF d.k = "same"
    THEN \/ d.pass \/ Say([x |-> "DEV", c |-> cid, i |-> k, d |-> j, why |-> "fails a server that writes a conforming answer differently"])
    ELSE \/ ~d.pass \/ ~Prescribed(c.cfg, st, q, d.k) \/ Conforms(c.cfg, st, q, O(d))
         \/ Say([x |-> "DEV", c |-> cid, i |-> k, d |-> j, why |-> "passes a server that gives this answer"])

Step ==
  /\ run
  /\ i < Len(Cases[cid].ev)
  /\ LET c == Cases[cid]
         q == Q(c.ev[i + 1])
         o == O(c.ev[i + 1])
         ok == Conforms(c.cfg, st, q, o)
     IN /\ TRUE = (ok \/ Say([x |-> "ODD", c |-> cid, i |-> i + 1]))
        /\ TRUE = (q.op = "seed" \/ Doctored(c, i + 1, q))
        /\ st' = Effect(c.cfg, st, q, o)
        /\ seen' = IF q.op = "seed" THEN seen ELSE seen \cup {Class(c.cfg, st, q)}
        /\ run' = ok
        /\ i' = i + 1
        /\ UNCHANGED cid

Finish ==
  /\ run
  /\ i = Len(Cases[cid].ev)
  /\ LET c == Cases[cid]
         missing == Required(c.flags) \ seen
         fields == {j \in 1..Len(c.blank) : c.blank[j].stopped # (c.blank[j].f \in RequiredFields(c.flags))}
     IN /\ TRUE = (c.pass \/ Say([x |-> "DEV", c |-> cid, i |-> 0, d |-> 0, why |-> "fails a conforming server"]))
        /\ TRUE = (missing = {} \/ Say([x |-> "DEV", c |-> cid, i |-> 0, d |-> 0, why |-> "does not ask", what |-> missing]))
        /\ TRUE = (fields = {} \/ Say([x |-> "DEV", c |-> cid, i |-> 0, d |-> 0, why |-> "fields", what |-> {c.blank[j].f : j \in fields}]))
        /\ IF Show THEN Say([x |-> "SEEN", c |-> cid, extra |-> seen \ Required(c.flags), n |-> Cardinality(seen)]) ELSE TRUE
        /\ Say([x |-> "END", c |-> cid, n |-> Cardinality(seen)])
  /\ run' = FALSE
  /\ UNCHANGED <<cid, i, st, seen>>

Spec == Init /\ [][Step \/ Finish]_vars
=============================================================================
