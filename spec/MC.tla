-------------------------------- MODULE MC ----------------------------------
(***************************************************************************)
(* Model checking of the design, and generation of behaviours for the      *)
(* implementation.  TLC explores every sequence of state-changing requests *)
(* of a small configuration (Move), and in every state reached evaluates   *)
(*   - the history invariants below, and                                   *)
(*   - for every request of Probe -- the moves and their near misses --    *)
(*     and every answer the specification admits, the predicate of the     *)
(*     property asked for (Props.tla).                                     *)
(* With Emit = "yes" the request sequence that led to each distinct state  *)
(* is printed; the driver replays those against the real server.           *)
(***************************************************************************)
EXTENDS Props, Json, IOUtils

Ask  == IOEnv.ASK    \* the property
Fam  == IOEnv.FAM    \* the family: code, pair, time, reject, fault, conf
Emit == IOEnv.EMIT
MaxN == atoi(IOEnv.MAXN)       \* credentials
MaxStep == atoi(IOEnv.MAXSTEP) \* requests
MaxT == atoi(IOEnv.MAXT)       \* ticks

VARIABLES st, g, hist
vars == <<st, g, hist>>
view == <<st, g>>

Base0 == [allowed |-> <<"a", "b">>,
        al |-> 2, rl |-> IF Fam = "time" THEN 3 ELSE 90, cl |-> 1, tps |-> 1, klen |-> 16,
        clients |-> [c1 |-> [secret |-> "k1", redirect |-> "r1", conf |-> TRUE],
                     c2 |-> [secret |-> "k2", redirect |-> "r2", conf |-> Fam # "pair"]],
        users |-> [u1 |-> [pass |-> "p1"], u2 |-> [pass |-> "p2"]]]

\* what is registered can change while the server runs
Cfgs == << Base0,
           [Base0 EXCEPT !.clients.c1.secret = "k3"],
           [Base0 EXCEPT !.clients.c1.redirect = "r2"],
           [Base0 EXCEPT !.clients.c1.conf = FALSE],
           [Base0 EXCEPT !.users.u1.pass = "p3"],
           [Base0 EXCEPT !.clients = [c2 |-> Base0.clients.c2], !.users = [u2 |-> Base0.users.u2]] >>
cfg == Cfgs[g.conf]

Cs == CASE Fam \in {"code", "fault", "conf"} -> {"c1"} [] OTHER -> {"c1", "c2"}
Us == CASE Fam = "reject" -> {"u1", "u2"} [] OTHER -> {"u1"}
Ss == CASE Fam \in {"code", "reject"} -> {<<"a">>, <<"a", "b">>} [] OTHER -> {<<"a">>}
Secret(c) == IF c \in DOMAIN cfg.clients THEN cfg.clients[c].secret ELSE "k1"
Redir(c) == IF c \in DOMAIN cfg.clients THEN cfg.clients[c].redirect ELSE "r1"
Pass(u) == IF u \in DOMAIN cfg.users THEN cfg.users[u].pass ELSE "p1"
Toks == DOMAIN st.tok
Of(k) == {t \in Toks : st.tok[t].kind = k}

Authorize(c, u, s, rt) ==
  [NullReq EXCEPT !.op = "authorize", !.client = c, !.redir = Redir(c), !.user = u,
     !.pass = Pass(u), !.scope = s, !.rtype = rt, !.state = "x"]
TokenReq(gr, c) == [NullReq EXCEPT !.op = "token", !.grant = gr, !.client = c, !.secret = Secret(c)]
Password(c, u, s) == [TokenReq("password", c) EXCEPT !.user = u, !.pass = Pass(u), !.scope = s]
CC(c, s) == [TokenReq("client_credentials", c) EXCEPT !.scope = s]
Exchange(c, t) == [TokenReq("authorization_code", c) EXCEPT !.tok = t,
                     !.redir = IF Known(st, t) THEN st.tok[t].redir ELSE "r1"]
RefreshReq(c, t, s) == [TokenReq("refresh_token", c) EXCEPT !.tok = t, !.scope = s]
Ask2(op, c, t) == [NullReq EXCEPT !.op = op, !.client = c, !.secret = Secret(c), !.tok = t]
Resource(t, s) == [NullReq EXCEPT !.op = "resource", !.tok = t, !.need = s]
Tick(d) == [NullReq EXCEPT !.op = "tick", !.d = d]
Conf(n) == [NullReq EXCEPT !.op = "conf", !.d = n]

Own(t) == st.tok[t].client

\* faults happen to requests that issue, consume or revoke something
Faults == {"rng", "body", "write", "abort"}
MaxF == IF Fam = "fault" THEN 2 ELSE 0
WithFaults(S) ==
  S \cup (IF g.faults < MaxF
           THEN {[q EXCEPT !.fault = f] : f \in Faults,
                   q \in {q \in S : q.op \notin {"tick", "conf"} /\ ~IsReplay(cfg, st, q) /\ Refusals(cfg, st, q) = {}}}
                \cup {[q EXCEPT !.fault = f] : f \in Faults \ {"rng"}, q \in {q \in S : IsReplay(cfg, st, q)}}
           ELSE {})
\* a request that issues nothing needs no random bytes
Possible(q) == q.fault = "rng" => q.op \in {"token", "authorize"}

Move0 ==
  (IF st.n < MaxN THEN
     {Authorize(c, u, s, "code") : c \in Cs, u \in Us, s \in Ss}
     \cup (IF Fam \in {"pair", "reject"} THEN {Authorize(c, u, s, "token") : c \in Cs, u \in Us, s \in Ss} ELSE {})
     \cup (IF Fam \in {"pair", "time", "reject", "fault", "conf"} /\ st.n + 1 < MaxN
             THEN {Password(c, u, s) : c \in Cs, u \in Us, s \in Ss}
                  \cup {CC(c, s) : c \in Cs, s \in Ss} ELSE {})
   ELSE {})
  \cup {Exchange(c, t) : c \in (IF Fam = "code" THEN {"c1", "c2"} ELSE Cs),
                         t \in {t \in Of("code") : st.tok[t].status = "used" \/ st.n + 1 < MaxN}}
  \cup (IF st.n + 1 < MaxN THEN {RefreshReq(Own(t), t, s) : t \in Of("refresh"), s \in {<<>>, <<"a">>}} ELSE {})
  \cup {Ask2("revoke", Own(t), t) : t \in Of("access") \cup Of("refresh")}
  \cup (IF st.now < MaxT THEN {Tick(1)} ELSE {})
  \cup (IF Fam = "conf" /\ g.moves < 2 THEN {Conf(n) : n \in DOMAIN Cfgs \ {g.conf}} ELSE {})
Move == {q \in WithFaults(Move0) : Possible(q)}

\* everything a request can be aimed at
Aims == Toks \cup {"!bad", "!unk", ""}
Near(q) ==
  {q}
  \cup {[q EXCEPT !.client = c] : c \in {"c1", "c2", "cx", ""}}
  \cup {[q EXCEPT !.secret = s] : s \in {"k1", "k2", ""}}
  \cup {[q EXCEPT !.cauth = a] : a \in {"body", "none"}}
  \cup {[q EXCEPT !.user = u] : u \in {"u1", "u2", "ux", ""}}
  \cup {[q EXCEPT !.pass = p] : p \in {"p1", "p2", ""}}
  \cup {[q EXCEPT !.scope = s] : s \in {<<>>, <<"a">>, <<"b">>, <<"a", "b">>, <<"c">>, <<"a", "c">>}}
  \cup {[q EXCEPT !.need = s] : s \in {<<>>, <<"a">>, <<"a", "b">>}}
  \cup {[q EXCEPT !.redir = r] : r \in {"r1", "r2", "rx", "!bad", ""}}
  \cup {[q EXCEPT !.tok = t] : t \in Aims}
  \cup {[q EXCEPT !.state = s] : s \in {"", "y"}}
  \cup {[q EXCEPT !.hint = h] : h \in {"access_token", "refresh_token", "hx"}}
  \cup {[q EXCEPT !.hdr = h] : h \in {"none", "bad"}}
  \cup {[q EXCEPT !.method = m] : m \in {"GET", "PUT"}}
  \cup {[q EXCEPT !.grant = m] : m \in GrantTypes \cup {"gx", ""}}
  \cup {[q EXCEPT !.rtype = m] : m \in {"code", "token", "tx", ""}}
  \cup {[q EXCEPT !.formok = FALSE]}
  \cup {[q EXCEPT !.qf = <<f>>] : f \in {"user", "pass", "tok", "client", "scope", "grant", "redir"}}
  \cup {[q EXCEPT !.op = "other"]}

Base ==
  {Authorize("c1", "u1", <<"a">>, rt) : rt \in {"code", "token"}}
  \cup {Password("c1", "u1", <<"a">>), CC("c1", <<"a">>), CC("c2", <<>>)}
  \cup {Exchange("c1", t) : t \in Of("code") \cup {"!unk"}}
  \cup {RefreshReq(Own(t), t, <<>>) : t \in Of("refresh")}
  \cup {Ask2(op, Own(t), t) : op \in {"introspect", "revoke"}, t \in Toks}
  \cup {Resource(t, <<"a">>) : t \in Toks}

Probe == UNION {Near(q) : q \in Base}
         \cup {q \in {[q EXCEPT !.fault = f] : q \in Base, f \in Faults} :
                 Possible(q) /\ (q.fault # "body" => Refusals(cfg, st, q) = {} \/ (q.fault # "rng" /\ IsReplay(cfg, st, q)))}

-----------------------------------------------------------------------------
\* ghost: the credential each one was refreshed from, replayed codes, dead ones
Init == /\ st = InitState @@ [cause |-> {}, used |-> {}]
        /\ g = [parent |-> <<>>, replayed |-> {}, dead |-> {}, faults |-> 0, conf |-> 1, moves |-> 0]
        /\ hist = <<>>

Dead(s) == {t \in DOMAIN s.tok : s.tok[t].status # "live"}

Do(q, o) ==
  LET s1 == Effect(cfg, st, q, o) IN
  /\ s1 # st \/ q.fault # "" \/ q.op = "conf"
  /\ st' = s1
  /\ g' = [parent |-> (IF o.at # "" /\ q.op = "token" /\ T(q) \in Toks
                         THEN (o.at :> T(q)) @@ (o.rt :> T(q)) ELSE <<>>) @@ g.parent,
           replayed |-> g.replayed \cup (IF IsReplay(cfg, st, q) THEN {T(q)} ELSE {}),
           dead |-> g.dead \cup Dead(s1),
           faults |-> g.faults + (IF q.fault = "" THEN 0 ELSE 1),
           conf |-> IF q.op = "conf" THEN q.d ELSE g.conf,
           moves |-> g.moves + (IF q.op = "conf" THEN 1 ELSE 0)]
  /\ hist' = Append(hist, [q |-> q, o |-> o])

Next == \E q \in Move : \E o \in Decide(cfg, st, q) : Len(hist) < MaxStep /\ Do(q, o)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* The properties as invariants of histories *)

OnlyOnce == \A t \in Toks : st.tok[t].red <= 1
ReplayKills == \A t \in Toks : st.tok[t].root \in g.replayed => st.tok[t].status # "live"
DeadStaysDead == \A t \in g.dead : st.tok[t].status # "live"
Lineage == \A t \in DOMAIN g.parent :
  LET p == st.tok[g.parent[t]] IN
  /\ st.tok[t].scope \subseteq p.scope
  /\ st.tok[t].client = p.client /\ st.tok[t].user = p.user
  /\ st.tok[t].root = IF p.kind = "code" THEN g.parent[t] ELSE p.root
  /\ p.red = 1
ScopeAllowed == \A t \in Toks : st.tok[t].scope \subseteq Range(cfg.allowed)
OwnersKnown == Fam # "conf" => \A t \in Toks : /\ st.tok[t].client \in DOMAIN cfg.clients
                               /\ st.tok[t].user \in DOMAIN cfg.users \cup {""}
                               /\ st.tok[t].user = "" => cfg.clients[st.tok[t].client].conf
BoundedLife == \A t \in Toks : st.tok[t].exp <= st.now + 90

\* a request that broke off changes nothing, and can simply be repeated; a lost
\* answer makes no difference to what the request did
Atomic == \A q \in Base :
  /\ \A f \in {"rng", "body"} :
       (f = "rng" => Refusals(cfg, st, q) = {} /\ ~IsReplay(cfg, st, q)) =>
       \A o \in Decide(cfg, st, [q EXCEPT !.fault = f]) : Effect(cfg, st, [q EXCEPT !.fault = f], o) = st
  /\ \A f \in {"write", "abort"} :
       {Effect(cfg, st, [q EXCEPT !.fault = f], o) : o \in Decide(cfg, st, [q EXCEPT !.fault = f])}
         = {Effect(cfg, st, q, o) : o \in Decide(cfg, st, q)}

\* every admitted answer to every probe keeps the property
Kept == \A q \in Probe : \A o \in Decide(cfg, st, q) : Holds(Ask, cfg, st, q, o)
\* the specification is never stuck and never ambiguous about serving
Total == \A q \in Probe : /\ Decide(cfg, st, q) # {}
                          /\ \A o \in Decide(cfg, st, q) : Conforms(cfg, st, q, o)

\* refused requests, introspection and resource access change nothing
NoTrace == \A q \in Probe : \A o \in Decide(cfg, st, q) :
  (o.kind \in {"error", "info", "granted", "notice", "notfound"} /\ ~IsReplay(cfg, st, q)) => Effect(cfg, st, q, o) = st

Emitted == IF Emit = "yes" /\ hist # <<>>
           THEN PrintT(ToJson([x |-> "PATH", p |-> [k \in 1..Len(hist) |->
                  [q |-> hist[k].q, at |-> hist[k].o.at, rt |-> hist[k].o.rt, code |-> hist[k].o.code]]]))
           ELSE TRUE
=============================================================================
