------------------------------- MODULE Props --------------------------------
(***************************************************************************)
(* The listed properties as predicates over one step of the server:        *)
(*                                                                         *)
(*    Hxx(cfg, st, q, o)  -- in state st, answering request q with o does   *)
(*                           not break property Cxx                         *)
(*                                                                         *)
(* The same predicates are model-checked against the specification          *)
(* (MC.tla: every answer the specification admits satisfies all of them)    *)
(* and evaluated by TLC on every event recorded from the implementation     *)
(* (Trace.tla).  In traces st carries one field more:                       *)
(*    st.cause  what happened since the last snapshot that agreed with the  *)
(*              specification                                               *)
(***************************************************************************)
EXTENDS OAuth2

T(q) == Val(q, "tok")
G(q) == Val(q, "grant")
IsTok(q)  == q.op = "token"
IsAuth(q) == q.op = "authorize"
Ops4      == {"authorize", "token", "introspect", "revoke"}

CodeGrant(q)    == IsTok(q) /\ G(q) = "authorization_code"
RefreshGrant(q) == IsTok(q) /\ G(q) = "refresh_token"
Issued(o) == {o.at, o.rt, o.code} \ {""}
Issues(o) == o.kind \in {"tokens", "code"} \/ Issued(o) # {}
Has(o, k) == k \in Range(o.keys)
Hd(o, k)  == k \in Range(o.hd)

Faulty(q)  == q.fault # ""
\* delivery faults leave the effect of a request untouched
Broken(q)  == q.fault \in {"rng", "body"}
Undelivered(q) == q.fault \in {"write", "abort"}

Rs(cfg, st, q) == Refusals(cfg, st, q)
Valid0(cfg, st, q) == Rs(cfg, st, q) = {} /\ ~Faulty(q)

ServedKind(q) ==
  CASE q.op = "tick" -> "time"
    [] q.op = "seed" -> "seeded"
    [] q.op = "conf" -> "conf"
    [] q.op = "snap" -> "snap"
    [] q.op = "other" -> "notfound"
    [] IsAuth(q) /\ q.method = "GET" -> "notice"
    [] IsAuth(q) /\ Val(q, "rtype") = "code" -> "code"
    [] IsAuth(q) \/ IsTok(q) -> "tokens"
    [] q.op = "revoke" -> "ok"
    [] q.op = "introspect" -> "info"
    [] q.op = "resource" -> "granted"
    [] OTHER -> "none"
Served(q, o) == o.kind = ServedKind(q)

\* a request presents token t for what it is good for, and is let in
Accepts(q, o) ==
  \/ q.op = "resource" /\ o.kind = "granted"
  \/ q.op = "introspect" /\ o.kind = "info" /\ o.active
  \/ RefreshGrant(q) /\ o.kind = "tokens"
Exchanges(q, o) == CodeGrant(q) /\ o.kind = "tokens"

\* what introspection must say about a live token
InfoOf(cfg, t, o) ==
  /\ o.iclient = t.client /\ o.iuser = t.user
  /\ o.itype = t.kind \o "_token"
  /\ Range(o.scope) = t.scope
  /\ o.iexp = t.exp \div cfg.tps
Identity(t, o) == o.iclient = t.client /\ o.iuser = t.user /\ Range(o.scope) = t.scope

\* an introspection that should and does describe token T(q)
Described(cfg, st, q, o) ==
  q.op = "introspect" /\ o.kind = "info" /\ o.active /\ Known(st, T(q))

\* a resource request with a valid access token
ValidUse(cfg, st, q) == q.op = "resource" /\ q.hdr = "bearer" /\ Valid(st, q.tok, "access") /\ ~Faulty(q)
ScopeEnforced(cfg, st, q, o) ==
  (o.kind = "granted") <=> (Range(q.need) \subseteq st.tok[q.tok].scope)

-----------------------------------------------------------------------------
(* Snapshots: q.op = "snap"; o.acc / o.act are what the implementation     *)
(* accepts and describes; the credentials in q.scope were probed           *)

Probed(q)  == Range(q.scope)
ExpAcc(st, q) == {t \in Probed(q) : Valid(st, t, "access")}
ExpAct(st, q) == {t \in Probed(q) : Valid(st, t, "access") \/ Valid(st, t, "refresh")}
Zombies(st, q, o) == (Range(o.acc) \ ExpAcc(st, q)) \cup (Range(o.act) \ ExpAct(st, q))
Victims(st, q, o) == (ExpAcc(st, q) \ Range(o.acc)) \cup (ExpAct(st, q) \ Range(o.act))
IsSnap(q) == q.op = "snap"
SnapOk(st, q, o) == Zombies(st, q, o) = {} /\ Victims(st, q, o) = {}
ZombieOf(st, q, o, status) == \E t \in Zombies(st, q, o) : Known(st, t) /\ st.tok[t].status = status
\* the only thing that happened since the last good snapshot
Cause(st, c) == st.cause # {} /\ st.cause \subseteq c

-----------------------------------------------------------------------------
H01(cfg, st, q, o) ==
  Exchanges(q, o) => ~(IsKind(st, T(q), "code") /\ st.tok[T(q)].red > 0)

H02(cfg, st, q, o) ==
  /\ IsReplay(cfg, st, q) => ~Issues(o)
  /\ IsReplay(cfg, st, q) /\ ~Faulty(q) => o.kind = "error"
  /\ Accepts(q, o) /\ Known(st, T(q)) => st.tok[T(q)].status # "replayed"
  /\ IsSnap(q) => /\ ~ZombieOf(st, q, o, "replayed")
                  /\ Cause(st, {"replay"}) => SnapOk(st, q, o)

H03(cfg, st, q, o) ==
  /\ Exchanges(q, o) =>
       /\ IsKind(st, T(q), "code")
       /\ st.tok[T(q)].client = ClientOf(q)
       /\ st.tok[T(q)].redir = Val(q, "redir")
       /\ ~Expired(st, T(q))
       /\ Range(o.scope) = st.tok[T(q)].scope
  /\ CodeGrant(q) /\ Valid0(cfg, st, q) => o.kind = "tokens"
  /\ Described(cfg, st, q, o) /\ st.tok[T(q)].by = "authorization_code" => Identity(st.tok[T(q)], o)
  /\ ValidUse(cfg, st, q) /\ st.tok[q.tok].by = "authorization_code" => ScopeEnforced(cfg, st, q, o)

H04(cfg, st, q, o) ==
  /\ Accepts(q, o) /\ Known(st, T(q)) => st.tok[T(q)].status # "rotated"
  /\ RefreshGrant(q) /\ o.kind = "tokens" =>
       /\ o.at # "" /\ o.rt # "" /\ o.at # o.rt
       /\ Issued(o) \cap DOMAIN st.tok = {}
       /\ IsKind(st, T(q), "refresh") => st.tok[T(q)].red = 0
  /\ RefreshGrant(q) /\ Valid0(cfg, st, q) => o.kind = "tokens"
  /\ IsSnap(q) => /\ ~ZombieOf(st, q, o, "rotated")
                  /\ Cause(st, {"refresh"}) => SnapOk(st, q, o)

H05(cfg, st, q, o) ==
  /\ RefreshGrant(q) /\ o.kind = "tokens" /\ IsKind(st, T(q), "refresh") =>
       /\ st.tok[T(q)].client = ClientOf(q)
       /\ ValScope(q) \subseteq st.tok[T(q)].scope
       /\ Range(o.scope) = IF ValScope(q) = {} THEN st.tok[T(q)].scope ELSE ValScope(q)
  /\ Described(cfg, st, q, o) /\ st.tok[T(q)].by = "refresh_token" => Identity(st.tok[T(q)], o)
  /\ ValidUse(cfg, st, q) /\ st.tok[q.tok].by = "refresh_token" => ScopeEnforced(cfg, st, q, o)

\* client authentication stands between a request and everything else
Stage1Only(cfg, st, q, o) ==
  /\ o.kind = "error"
  /\ ~Issues(o)
  /\ R(o.err, o.status, o.via) \in Stage1(cfg, st, q)
AuthFails(cfg, q) ==
  CASE IsTok(q) -> ~ClientAuthOk(cfg, q)
    [] q.op \in {"introspect", "revoke"} -> q.cauth # "basic" \/ ~ClientAuthOk(cfg, q)
    [] OTHER -> FALSE
H06(cfg, st, q, o) ==
  /\ AuthFails(cfg, q) /\ ~Faulty(q) => Stage1Only(cfg, st, q, o)
  /\ AuthFails(cfg, q) => ~Issues(o) /\ ~o.grew
  /\ IsSnap(q) /\ Cause(st, {"unauth"}) => SnapOk(st, q, o)
  /\ IsTok(q) /\ ~AuthFails(cfg, q) /\ ~Faulty(q) /\ o.kind = "error" /\ o.err = "invalid_client"
       => BadClient \in Rs(cfg, st, q)
  /\ q.op \in {"introspect", "revoke"} /\ ~AuthFails(cfg, q) /\ ~Faulty(q) /\ o.kind = "error" /\ o.err = "invalid_client"
       => Foreign(st, q)

H07(cfg, st, q, o) ==
  /\ IsAuth(q) /\ Issues(o) => q.method = "POST" /\ OwnerOk(cfg, q)
  /\ IsTok(q) /\ G(q) = "password" /\ Issues(o) => OwnerOk(cfg, q)
  /\ IsTok(q) /\ G(q) = "client_credentials" /\ Issues(o) =>
       KnownClient(cfg, ClientOf(q)) /\ cfg.clients[ClientOf(q)].conf
  /\ Described(cfg, st, q, o) /\ st.tok[T(q)].by # "seed" => o.iuser = st.tok[T(q)].user
  /\ (IsAuth(q) \/ (IsTok(q) /\ G(q) = "password")) /\ ~OwnerOk(cfg, q) => ~o.grew

H08(cfg, st, q, o) ==
  LET asks == IsAuth(q) \/ (IsTok(q) /\ G(q) \in {"password", "client_credentials"}) IN
  /\ asks /\ Issues(o) => ScopeOk(cfg, q)
  /\ asks /\ o.kind = "tokens" => Range(o.scope) = ValScope(q)
  /\ Described(cfg, st, q, o) => Range(o.scope) = st.tok[T(q)].scope
  /\ ValidUse(cfg, st, q) => ScopeEnforced(cfg, st, q, o)
  /\ asks /\ o.kind = "error" /\ o.err = "invalid_scope" /\ ~Faulty(q) => ~ScopeOk(cfg, q)
  /\ IsTok(q) /\ o.kind = "tokens" /\ IsKind(st, T(q), "code") /\ CodeGrant(q)
       => Range(o.scope) = st.tok[T(q)].scope

Redirects(o) == o.via \in {"query", "fragment"} \/ o.target # "" \/ Hd(o, "location")
H09(cfg, st, q, o) ==
  /\ Redirects(o) =>
       /\ IsAuth(q)
       /\ Stage1(cfg, st, q) = {}
       /\ q.method = "POST"
       /\ o.target = cfg.clients[Val(q, "client")].redirect
       /\ o.via = RedirVia(q)
       /\ o.status \in 300..399
  /\ IsAuth(q) /\ Stage1(cfg, st, q) # {} /\ ~Faulty(q) => o.kind = "error" /\ ~Issues(o)
  /\ IsAuth(q) /\ Issues(o) => Redirects(o)

BearerOk(o) ==
  /\ o.touched
  /\ o.status \in {400, 401, 403}
  /\ Hd(o, "challenge")
H10(cfg, st, q, o) ==
  /\ (q.op = "resource" /\ ~Faulty(q)) =>
       \/ (Rs(cfg, st, q) = {} /\ o.kind = "granted" /\ ~o.touched)
       \/ (/\ o.kind = "error" /\ BearerOk(o)
           /\ R(o.err, o.status, o.via) \in Rs(cfg, st, q)
           /\ o.err = "insufficient_scope" => Range(o.scope) = Range(q.need))
  /\ q.op = "resource" /\ o.kind = "granted" => Rs(cfg, st, q) = {}
  /\ IsSnap(q) => Range(o.acc) = ExpAcc(st, q)

H11(cfg, st, q, o) ==
  /\ Accepts(q, o) /\ Known(st, T(q)) => st.tok[T(q)].status # "revoked"
  /\ q.op = "revoke" /\ Valid0(cfg, st, q) => o.kind = "ok" /\ o.status = 200
  /\ q.op = "revoke" /\ Stage1(cfg, st, q) = {} /\ ~Faulty(q) /\ Foreign(st, q) /\ ~Expired(st, q.tok)
       => o.kind = "error" /\ o.err = "invalid_client"
  /\ IsSnap(q) => /\ ~ZombieOf(st, q, o, "revoked")
                  /\ Cause(st, {"revoke", "foreignrevoke"}) => SnapOk(st, q, o)

H12(cfg, st, q, o) ==
  /\ q.op = "introspect" /\ Stage1(cfg, st, q) = {} /\ ~Faulty(q) =>
       LET live == Valid(st, q.tok, "access") \/ Valid(st, q.tok, "refresh") IN
       IF q.tok = "!bad" THEN o.kind = "error"
       ELSE IF Foreign(st, q) /\ live THEN o.kind = "error" /\ o.err = "invalid_client"
       ELSE IF Foreign(st, q) THEN o.kind = "error" \/ (o.kind = "info" /\ ~o.active /\ Range(o.keys) = {"active"})
       ELSE IF live THEN o.kind = "info" /\ o.active /\ InfoOf(cfg, st.tok[q.tok], o)
       ELSE o.kind = "info" /\ ~o.active /\ Range(o.keys) = {"active"}
  /\ IsSnap(q) => Range(o.act) = ExpAct(st, q)
  /\ IsSnap(q) /\ Cause(st, {"introspect", "foreignintrospect"}) => SnapOk(st, q, o)

\* codes, refresh tokens and access tokens are good for their own purpose only
H13(cfg, st, q, o) ==
  /\ T(q) = "!bad" /\ ~Faulty(q) /\ Stage1(cfg, st, q) = {} /\ (CodeGrant(q) \/ RefreshGrant(q) \/ q.op \in {"introspect", "revoke"})
       => o.kind = "error" /\ o.err = "invalid_request"
  /\ q.op = "resource" /\ q.hdr = "bearer" /\ T(q) \in {"!bad", "!unk"} => o.kind = "error"
  /\ T(q) \in {"!bad", "!unk"} => ~Accepts(q, o) /\ ~Exchanges(q, o)
  /\ T(q) = "!unk" /\ Stage1(cfg, st, q) = {} /\ ~Faulty(q) =>
       /\ CodeGrant(q) \/ RefreshGrant(q) => o.kind = "error" /\ o.err = "invalid_grant"
       /\ q.op = "introspect" => o.kind = "info" /\ ~o.active
       /\ q.op = "revoke" => o.kind = "ok"
  /\ q.op = "resource" /\ o.kind = "granted" => IsKind(st, T(q), "access")
  /\ RefreshGrant(q) /\ o.kind = "tokens" => IsKind(st, T(q), "refresh")
  /\ Exchanges(q, o) => IsKind(st, T(q), "code")
  /\ q.op = "introspect" /\ o.kind = "info" /\ o.active => IsKind(st, T(q), "access") \/ IsKind(st, T(q), "refresh")
  /\ IsSnap(q) => \A t \in Range(o.acc) : IsKind(st, t, "access")
  /\ IsSnap(q) => \A t \in Range(o.act) : IsKind(st, t, "access") \/ IsKind(st, t, "refresh")
  /\ IsSnap(q) /\ Cause(st, {"forged"}) => SnapOk(st, q, o)

StillLive(st, t) == Known(st, t) /\ st.tok[t].status = "live" /\ ~Expired(st, t)
H14(cfg, st, q, o) ==
  /\ (Accepts(q, o) \/ Exchanges(q, o)) /\ Known(st, T(q)) => ~Expired(st, T(q))
  /\ (CodeGrant(q) \/ RefreshGrant(q)) /\ Valid0(cfg, st, q) =>
       ~(o.kind = "error" /\ o.err = "invalid_grant" /\ StillLive(st, T(q)))
  /\ q.op = "resource" /\ Rs(cfg, st, q) = {} => ~(o.kind = "error" /\ o.err = "invalid_token")
  /\ o.kind = "tokens" => o.expin = cfg.al \div cfg.tps
  /\ Described(cfg, st, q, o) => o.iexp = st.tok[T(q)].exp \div cfg.tps
  /\ IsSnap(q) =>
       /\ ~\E t \in Zombies(st, q, o) : Known(st, t) /\ st.tok[t].status = "live" /\ Expired(st, t)
       /\ Cause(st, {"tick"}) => SnapOk(st, q, o)

Disjoint(iv, jv) == iv[1] + iv[2] <= jv[1] \/ jv[1] + jv[2] <= iv[1]
H15(cfg, st, q, o) ==
  /\ Issued(o) \cap DOMAIN st.tok = {}
  /\ o.at # "" => o.at # o.rt
  /\ \A k \in 1..Len(o.bytes) :
       /\ o.bytes[k][1] >= 0 /\ o.bytes[k][2] = cfg.klen
       /\ \A j \in 1..Len(o.bytes) : j # k => Disjoint(o.bytes[j], o.bytes[k])
       /\ \A iv \in st.used : Disjoint(iv, o.bytes[k])
  /\ q.fault = "rng" => Issued(o) = {} /\ ~o.grew

\* what can be said about one faulty request; later events are judged by the
\* counterfactual run (see DESIGN.md)
H16(cfg, st, q, o) ==
  /\ Broken(q) => ~Issues(o) /\ ~o.grew
  /\ q.fault = "body" => o.kind = "error"
  /\ q.fault = "rng" => o.kind \in {"panic", "error"}
  /\ Faulty(q) => o.kind \notin {"hang", "crash"}
  /\ IsSnap(q) /\ Cause(st, {"fault"}) => SnapOk(st, q, o)

H18(cfg, st, q, o) ==
  ~Faulty(q) /\ ~IsSnap(q) =>
    \/ /\ o.kind = "error"
       /\ R(o.err, o.status, o.via) \in Rs(cfg, st, q)
    \/ MayServe(cfg, st, q) /\ Served(q, o)
       /\ o.status = (CASE o.kind \in {"time", "seeded", "conf"} -> 0
                        [] o.kind = "notfound" -> 404
                        [] o.via \in {"query", "fragment"} -> 303
                        [] OTHER -> 200)

Opt(c, S) == IF c THEN S ELSE {}
TokenKeys(q, o) ==
  {"token_type", "access_token", "expires_in"}
    \cup Opt(o.scope # <<>> \/ Has(o, "scope"), {"scope"})
    \cup Opt(IsTok(q), {"refresh_token"})
    \cup Opt(IsAuth(q) /\ Val(q, "state") # "", {"state"})
ErrorKeys == {"error", "error_description", "error_uri", "scope", "realm", "state"}
H19(cfg, st, q, o) ==
  /\ ~o.leak
  /\ o.kind = "tokens" =>
       /\ o.ttype = "bearer" /\ o.at # "" /\ o.code = ""
       /\ Range(o.keys) = TokenKeys(q, o)
       /\ o.expin = cfg.al \div cfg.tps
       /\ IF IsAuth(q) THEN o.via = "fragment" /\ o.rt = ""
                       ELSE o.via = "json" /\ o.status = 200 /\ o.rt # "" /\ Hd(o, "json") /\ Hd(o, "pragma")
       /\ Hd(o, "nostore")
       /\ (o.scope # <<>>) => Has(o, "scope")
       /\ MayServe(cfg, st, q) => Range(o.scope) = Grantee(cfg, st, q).scope
  /\ o.kind = "code" =>
       /\ o.via = "query" /\ o.at = "" /\ o.rt = "" /\ o.code # ""
       /\ Range(o.keys) = {"code"} \cup Opt(Val(q, "state") # "", {"state"})
  /\ o.via \in {"query", "fragment"} => Hd(o, "nostore") /\ Hd(o, "referrer")
  /\ o.via = "json" => Hd(o, "nostore") /\ Hd(o, "json")
  /\ o.kind = "error" => Range(o.keys) \subseteq ErrorKeys
  /\ o.status = 401 => Hd(o, "challenge")
  /\ o.kind \in {"ok", "info", "notice", "error", "notfound"} => Issued(o) = {}

H20(cfg, st, q, o) ==
  LET odd == \/ q.op = "other"
             \/ q.op \in Ops4 /\ (q.method # "POST" \/ q.qf # <<>> \/ q.deco # <<>>)
  IN /\ odd /\ ~Faulty(q) =>
         \/ o.kind = "error" /\ R(o.err, o.status, o.via) \in Rs(cfg, st, q)
         \/ MayServe(cfg, st, q) /\ Served(q, o)
     /\ odd /\ q.method # "POST" => ~Issues(o) /\ ~Redirects(o) /\ ~o.grew
     /\ q.op = "other" => ~o.grew /\ ~Issues(o)
     /\ odd /\ IsAuth(q) /\ o.kind = "tokens" => Range(o.scope) = ValScope(q)
     /\ odd /\ IsAuth(q) /\ Redirects(o) => o.state = Val(q, "state")
     /\ IsSnap(q) /\ Cause(st, {"odd"}) => SnapOk(st, q, o)

H21(cfg, st, q, o) ==
  /\ IsAuth(q) /\ Redirects(o) =>
       /\ o.state = Val(q, "state")
       /\ Has(o, "state") <=> Val(q, "state") # ""
       /\ o.target = cfg.clients[Val(q, "client")].redirect
  /\ IsAuth(q) /\ Redirects(o) /\ o.kind = "tokens" => o.ttype = "bearer" /\ o.at # ""

H25(cfg, st, q, o) ==
  /\ o.kind = "error" => Issued(o) = {} /\ ~o.grew
  /\ q.op \in {"introspect", "resource", "other"} => ~o.grew
  /\ IsAuth(q) /\ q.method = "GET" => ~o.grew
  /\ IsSnap(q) /\ Cause(st, {"refused", "unauth", "odd", "foreignrevoke", "foreignintrospect",
                             "forged", "introspect", "resource", "notice"})
       => SnapOk(st, q, o)

PIDs == {"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11",
         "C12", "C13", "C14", "C15", "C16", "C18", "C19", "C20", "C21", "C25"}
Holds(p, cfg, st, q, o) ==
  CASE p = "C01" -> H01(cfg, st, q, o)
    [] p = "C02" -> H02(cfg, st, q, o)
    [] p = "C03" -> H03(cfg, st, q, o)
    [] p = "C04" -> H04(cfg, st, q, o)
    [] p = "C05" -> H05(cfg, st, q, o)
    [] p = "C06" -> H06(cfg, st, q, o)
    [] p = "C07" -> H07(cfg, st, q, o)
    [] p = "C08" -> H08(cfg, st, q, o)
    [] p = "C09" -> H09(cfg, st, q, o)
    [] p = "C10" -> H10(cfg, st, q, o)
    [] p = "C11" -> H11(cfg, st, q, o)
    [] p = "C12" -> H12(cfg, st, q, o)
    [] p = "C13" -> H13(cfg, st, q, o)
    [] p = "C14" -> H14(cfg, st, q, o)
    [] p = "C15" -> H15(cfg, st, q, o)
    [] p = "C16" -> H16(cfg, st, q, o)
    [] p = "C18" -> H18(cfg, st, q, o)
    [] p = "C19" -> H19(cfg, st, q, o)
    [] p = "C20" -> H20(cfg, st, q, o)
    [] p = "C21" -> H21(cfg, st, q, o)
    [] p = "C25" -> H25(cfg, st, q, o)
Failing(cfg, st, q, o) == {p \in PIDs : ~Holds(p, cfg, st, q, o)}

-----------------------------------------------------------------------------
(* The answer is one the specification admits, in every recorded detail    *)

ServedShape(cfg, st, q, o) ==
  LET e == ServeOut(cfg, st, q) IN
  /\ o.kind = e.kind /\ o.status = e.status /\ o.via = e.via /\ o.target = e.target
  /\ o.state = e.state /\ o.ttype = e.ttype /\ o.expin = e.expin
  /\ (o.at = "") <=> (e.at = "")
  /\ (o.rt = "") <=> (e.rt = "")
  /\ (o.code = "") <=> (e.code = "")
  /\ Issued(o) \cap DOMAIN st.tok = {}
  /\ Range(o.scope) = Range(e.scope)
  /\ o.active = e.active /\ o.iclient = e.iclient /\ o.iuser = e.iuser
  /\ o.itype = e.itype /\ o.iexp = e.iexp
Conforms(cfg, st, q, o) ==
  CASE q.op \in {"tick", "seed", "conf"} -> TRUE
    [] IsSnap(q) -> SnapOk(st, q, o)
    [] q.fault = "rng" -> o.kind \in {"panic", "error"} /\ Issued(o) = {}
    [] q.fault = "body" -> o.kind = "error"
    [] Undelivered(q) -> o.kind = "lost"
    [] OTHER ->
         \/ MayServe(cfg, st, q) /\ ServedShape(cfg, st, q, o)
         \/ /\ o.kind = "error"
            /\ R(o.err, o.status, o.via) \in Rs(cfg, st, q)
            /\ LET e == ErrorOut(cfg, q, R(o.err, o.status, o.via)) IN
               o.target = e.target /\ o.state = e.state /\ Range(o.scope) = Range(e.scope)

\* the abstract state is known after the event: the answer is of the kind the
\* specification expects, though perhaps wrong in details
Trackable(cfg, st, q, o) ==
  CASE q.op \in {"tick", "seed", "conf"} -> TRUE
    [] IsSnap(q) -> SnapOk(st, q, o)
    [] Faulty(q) -> Conforms(cfg, st, q, o)
    [] OTHER -> /\ Issued(o) \cap DOMAIN st.tok = {}
                /\ \/ MayServe(cfg, st, q) /\ Served(q, o)
                   \/ o.kind = "error" /\ Rs(cfg, st, q) # {}

\* classification of an event for st.cause
CauseOf(cfg, st, q, o) ==
  CASE q.op \in {"tick", "resource", "seed", "conf"} -> q.op
    [] Faulty(q) -> "fault"
    [] q.op = "other" -> "odd"
    [] IsReplay(cfg, st, q) -> "replay"
    [] o.kind = "error" /\ AuthFails(cfg, q) -> "unauth"
    [] o.kind = "error" /\ q.op \in {"introspect", "revoke"} /\ Foreign(st, q) -> "foreign" \o q.op
    [] o.kind = "error" /\ T(q) = "!bad" -> "forged"
    [] o.kind = "error" /\ (q.method # "POST" \/ q.qf # <<>>) -> "odd"
    [] o.kind = "error" -> "refused"
    [] q.op = "introspect" \/ q.op = "revoke" -> q.op
    [] o.kind = "notice" -> "notice"
    [] RefreshGrant(q) -> "refresh"
    [] CodeGrant(q) -> "exchange"
    [] OTHER -> "issue"
=============================================================================
