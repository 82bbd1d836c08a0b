-------------------------------- MODULE Lib ---------------------------------
(***************************************************************************)
(* The library below the server: scopes, tokens, generation, requests and  *)
(* responses on the wire, redirects, error output, the client.  Every      *)
(* function is specified over abstract values:                             *)
(*   - scope strings are sequences of bytes (32 is the space),              *)
(*   - other texts are labels (equal labels, equal texts),                  *)
(*   - parameters and documents are sequences of <<name, value>> pairs,     *)
(*     compared as bags.                                                    *)
(* An observation e has e.op, e.i (what went in) and e.r (what came out,    *)
(* as decoded by the driver without the library's help).                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Rng(s) == {s[k] : k \in 1..Len(s)}
Count(s, x) == Cardinality({k \in 1..Len(s) : s[k] = x})
SameBag(s, t) == Len(s) = Len(t) /\ \A x \in Rng(s) : Count(s, x) = Count(t, x)
Names(s) == {s[k][1] : k \in 1..Len(s)}
NonEmpty(s) == SelectSeq(s, LAMBDA p : p[2] # "")

-----------------------------------------------------------------------------
(* Scopes *)

SP == 32
RECURSIVE SplitAt(_, _, _, _)
\* the items of s from position k on; cur is the item being read
SplitAt(s, k, cur, acc) ==
  IF k > Len(s) THEN (IF cur = <<>> THEN acc ELSE Append(acc, cur))
  ELSE IF s[k] = SP THEN SplitAt(s, k + 1, <<>>, IF cur = <<>> THEN acc ELSE Append(acc, cur))
  ELSE SplitAt(s, k + 1, Append(cur, s[k]), acc)
ParseScope(s) == SplitAt(s, 1, <<>>, <<>>)

RECURSIVE JoinFrom(_, _)
JoinFrom(items, k) ==
  IF k > Len(items) THEN <<>>
  ELSE (IF k = 1 THEN <<>> ELSE <<SP>>) \o items[k] \o JoinFrom(items, k + 1)
FormatScope(items) == JoinFrom(items, 1)

Contains(s, x) == \E k \in 1..Len(s) : s[k] = x
Includes(s, t) == \A k \in 1..Len(t) : Contains(s, t[k])
Clean(items) == \A k \in 1..Len(items) : items[k] # <<>> /\ \A j \in 1..Len(items[k]) : items[k][j] # SP

ScopeOk(e) ==
  CASE e.op = "scopeparse" -> e.r.items = ParseScope(e.i.s)
    [] e.op = "scopeformat" -> e.r.s = FormatScope(e.i.items) /\ e.r.again = e.i.items
    [] e.op = "scopejson" -> e.r.s = FormatScope(e.i.items) /\ e.r.again = e.i.items /\ e.r.ok
    [] e.op = "scopeunjson" -> e.r.ok /\ e.r.items = ParseScope(e.i.s)
    [] e.op = "scopeincl" ->
         /\ e.r.incl = Includes(e.i.a, e.i.b)
         /\ e.r.empty = (e.i.a = <<>>)
    [] e.op = "scopecont" -> e.r.cont = Contains(e.i.a, e.i.x)
    [] OTHER -> TRUE

\* laws of the specification itself, model-checked over the enumerated cases
ScopeLaws(s, t, u) ==
  /\ Includes(s, s) /\ Includes(s, <<>>)
  /\ Includes(s, t) /\ Includes(t, u) => Includes(s, u)
  /\ Includes(s, t) <=> Rng(t) \subseteq Rng(s)
  /\ Clean(s) => ParseScope(FormatScope(s)) = s

-----------------------------------------------------------------------------
(* Tokens. The signature of a key is a free function of secret and key: a   *)
(* string is a token under a secret iff it has two segments, both decode,    *)
(* and the second is the signature of the first (e.i.match).                 *)

TokenOk(e) ==
  CASE e.op = "tokenparse" ->
         IF e.i.alias THEN TRUE
         ELSE /\ e.r.ok <=> (e.i.segments = 2 /\ e.i.keyok /\ e.i.sigok /\ e.i.match)
              /\ e.r.ok => e.r.same /\ e.r.valid
              /\ ~e.r.ok => e.r.none
    [] e.op = "tokenmake" -> e.r.sigright /\ e.r.keyright /\ e.r.again /\ e.r.valid
                             /\ ~e.r.othervalid /\ e.r.eqself /\ ~e.r.eqother
    [] OTHER -> TRUE

(* Generation: len bytes wanted, the source delivers them in pieces of at    *)
(* most chunk and fails after limit bytes (-1: never)                        *)
GenOk(e) ==
  CASE e.op = "generate" ->
         LET dry == e.i.limit >= 0 /\ e.i.limit < e.i.len IN
         /\ dry => ~e.r.ok /\ e.r.none
         /\ ~dry => e.r.ok /\ e.r.klen = e.i.len /\ e.r.fresh /\ e.r.signed
         /\ e.r.mustpanics = dry
    [] e.op = "genone" -> e.r.ok /\ e.r.klen = e.i.len /\ e.r.signed /\ e.r.unique /\ e.r.parses
    [] OTHER -> TRUE

-----------------------------------------------------------------------------
(* Documents *)

\* headers that were set on the response: names of facts
JsonHead(r)     == {"json", "nostore", "pragma"} \subseteq Rng(r.hd)
RedirectHead(r) == {"nostore", "pragma", "referrer"} \subseteq Rng(r.hd)

\* the parameters of a document arrived as: <<>> pairs with empty values may
\* be left out
SameDoc(want, got) == SameBag(NonEmpty(want), NonEmpty(got)) /\ Names(got) \subseteq Names(want)

RedirectOk(i, r, params, frag) ==
  /\ r.kind = "redirect" /\ r.status = 303 /\ r.base
  /\ IF frag THEN SameBag(r.query, i.query) /\ SameDoc(params, r.fragment)
             ELSE SameDoc(i.query \o params, r.query) /\ r.fragment = <<>>

\* fields of a token response in protocol order
ResponseOk(e) ==
  CASE e.op = "tokenresp" ->
         IF e.i.redirect THEN RedirectOk(e.i, e.r, e.i.fields, TRUE) /\ RedirectHead(e.r)
         ELSE e.r.kind = "json" /\ e.r.status = 200 /\ SameDoc(e.i.fields, e.r.doc) /\ JsonHead(e.r)
    [] e.op = "coderesp" -> RedirectOk(e.i, e.r, e.i.fields, FALSE) /\ RedirectHead(e.r)
    [] e.op = "write" -> e.r.kind = "json" /\ e.r.status = e.i.status /\ SameDoc(e.i.fields, e.r.doc) /\ JsonHead(e.r)
    [] e.op = "introresp" -> e.r.kind = "json" /\ e.r.status = 200 /\ JsonHead(e.r) /\ SameDoc(e.i.fields, e.r.doc)
    [] OTHER -> TRUE

ParamsOk(e) ==
  CASE e.op = "redirect" -> RedirectOk(e.i, e.r, e.i.fields, e.i.frag)
    [] e.op = "tokenresp" /\ e.i.redirect -> RedirectOk(e.i, e.r, e.i.fields, TRUE)
    [] e.op = "coderesp" -> RedirectOk(e.i, e.r, e.i.fields, FALSE)
    [] e.op = "error" /\ e.i.how \in {"query", "fragment"} -> RedirectOk(e.i, e.r, e.i.fields, e.i.how = "fragment")
    [] OTHER -> TRUE

TripOk(e) ==
  CASE e.op \in {"tokenreq", "introreq", "revokereq", "tokenrestrip", "introrestrip"} ->
         e.r.ok /\ SameBag(e.i.fields, e.r.fields)
    [] e.op = "live" ->
         /\ e.r.ok = (e.i.kind # "error")
         /\ e.i.kind = "error" => e.r.oauth /\ e.r.status = e.i.status /\ e.r.resp = "none"
         /\ SameBag(NonEmpty(e.i.fields), NonEmpty(e.r.fields))
    [] OTHER -> TRUE

ErrStatus == [invalid_request |-> 400, invalid_client |-> 401, invalid_grant |-> 400, invalid_scope |-> 400,
  invalid_token |-> 401, unauthorized_client |-> 400, unsupported_grant_type |-> 400, unsupported_response_type |-> 400,
  unsupported_token_type |-> 400, protected |-> 401, insufficient_scope |-> 403, access_denied |-> 403,
  server_error |-> 500, temporarily_unavailable |-> 503]

ErrorOk(e) ==
  CASE e.op = "error" /\ e.i.how = "json" ->
         /\ e.r.kind = "json" /\ e.r.status = e.i.status
         \* the document of an error without a name may carry an empty name
         /\ SameDoc(<<<<"error", "">>>> \o e.i.fields, e.r.doc) /\ JsonHead(e.r)
         /\ e.r.headers
         /\ e.r.parsed.oauth /\ e.r.parsed.status = e.i.status
         /\ SameBag(NonEmpty(e.i.fields), NonEmpty(e.r.parsed.fields))
    [] e.op = "error" /\ e.i.how \in {"query", "fragment"} ->
         RedirectOk(e.i, e.r, e.i.fields, e.i.how = "fragment") /\ e.r.headers
    [] e.op = "error" /\ e.i.how = "bearer" ->
         IF e.i.status = 500 THEN e.r.kind = "plain" /\ e.r.status = 500 /\ e.r.empty /\ ~e.r.leak
         ELSE /\ e.r.kind = "bearer" /\ e.r.status = e.i.status /\ e.r.empty
              /\ IF NonEmpty(e.i.fields) = <<>> THEN Len(e.r.doc) > 0
                 ELSE SameDoc(e.i.fields, e.r.doc)
    [] e.op = "othererror" ->
         /\ ~e.r.leak /\ e.r.status = 500
         /\ e.i.how = "json" => e.r.kind = "json" /\ JsonHead(e.r) /\ e.r.doc = <<<<"error", "server_error">>>>
         /\ e.i.how = "bearer" => e.r.kind = "plain" /\ e.r.empty
    [] e.op = "errortable" ->
         /\ e.r.status = ErrStatus[e.i.kind]
         /\ e.i.kind # "protected" => e.r.name = e.i.kind
         /\ e.i.kind = "protected" => e.r.name \in {"", "none"}
         /\ e.r.desc
         /\ e.i.kind = "invalid_client" => e.r.challenge
    [] OTHER -> TRUE

-----------------------------------------------------------------------------
(* The client: what it makes of an answer.                                   *)
(* i.free: a 200 answer whose object lacks the expected fields; i.whole: the  *)
(* complete body was delivered, although reading ended with an error          *)

Success(i) ==
  /\ i.transport /\ i.status = 200
  /\ i.call = "revoke" \/ (i.ctok /\ i.readok /\ i.fits /\ i.doc = "good")
ClientOk(e) ==
  CASE e.op = "client" ->
         /\ e.i.free \/ e.r.ok = Success(e.i)
         /\ ~e.r.ok => e.r.resp = "none"
         /\ e.r.ok /\ e.i.call # "revoke" /\ ~e.i.free => SameBag(NonEmpty(e.i.fields), NonEmpty(e.r.fields))
         /\ e.i.transport /\ e.i.status # 200 =>
              IF e.i.doc = "error" /\ e.i.fits /\ ~e.i.readok /\ e.i.whole THEN e.r.named
              ELSE IF e.i.doc = "error" /\ e.i.fits /\ e.i.readok
              THEN /\ e.r.oauth /\ e.r.status = e.i.status
                   /\ SameBag(NonEmpty(e.i.fields), NonEmpty(e.r.fields))
              ELSE e.r.named
         /\ e.r.read <= e.i.limit
         /\ e.r.closed
    [] OTHER -> TRUE

-----------------------------------------------------------------------------
(* The request parsers.  A request is a method, a content type, the          *)
(* parameters of its query and of its body in the order sent, whether each    *)
(* decodes, and what the Authorization header holds.  i.uris says for every   *)
(* text sent as a redirect URI what it stands for: <<text, meaning>>, the     *)
(* meaning "!" being none; i.scopes says the same for scope texts.            *)

Value(ps, n) == LET hit == SelectSeq(ps, LAMBDA p : p[1] = n) IN IF hit = <<>> THEN "" ELSE hit[1][2]
Means(tab, t) == IF t = "" THEN "" ELSE (CHOOSE k \in 1..Len(tab) : tab[k][1] = t)
Meaning(tab, t) == IF t = "" THEN "" ELSE tab[Means(tab, t)][2]

\* what counts as the body: parameters are read from form encoded bodies only
FormBody(i) == IF i.method = "POST" /\ i.ct = "form" THEN i.body ELSE <<>>
FormOk(i) == i.queryok /\ (i.method = "POST" /\ i.ct = "form" => i.bodyok)
Sent(i) == IF i.kind = "authorize" THEN FormBody(i) \o i.query ELSE FormBody(i)

Client(i) == IF i.auth = "basic" THEN i.user ELSE Value(Sent(i), "client_id")
Secret(i) == IF i.auth = "basic" THEN i.pass ELSE Value(Sent(i), "client_secret")
Redirect(i) == Meaning(i.uris, Value(Sent(i), "redirect_uri"))
Items(i) == Meaning(i.scopes, Value(Sent(i), "scope"))

WellFormed(i) ==
  CASE i.kind = "authorize" ->
         /\ i.method \in {"GET", "POST"} /\ FormOk(i)
         /\ Value(Sent(i), "response_type") # "" /\ Value(Sent(i), "client_id") # ""
         /\ Redirect(i) \notin {"", "!"}
    [] i.kind = "token" ->
         /\ i.method = "POST" /\ FormOk(i)
         /\ Value(Sent(i), "grant_type") # "" /\ Client(i) # ""
         /\ Redirect(i) # "!"
    [] i.kind \in {"introspect", "revoke"} ->
         i.method = "POST" /\ FormOk(i) /\ Value(Sent(i), "token") # "" /\ i.auth = "basic"
    [] i.kind = "bearer" -> i.auth = "bearer"

Result(i) ==
  CASE i.kind = "authorize" ->
         <<<<"type", Value(Sent(i), "response_type")>>, <<"client", Value(Sent(i), "client_id")>>, <<"redir", Redirect(i)>>,
           <<"scope", Items(i)>>, <<"state", Value(Sent(i), "state")>>>>
    [] i.kind = "token" ->
         <<<<"grant", Value(Sent(i), "grant_type")>>, <<"client", Client(i)>>, <<"secret", Secret(i)>>,
           <<"user", Value(Sent(i), "username")>>, <<"pass", Value(Sent(i), "password")>>,
           <<"refresh", Value(Sent(i), "refresh_token")>>, <<"code", Value(Sent(i), "code")>>,
           <<"redir", Redirect(i)>>, <<"scope", Items(i)>>>>
    [] i.kind \in {"introspect", "revoke"} ->
         <<<<"token", Value(Sent(i), "token")>>, <<"hint", Value(Sent(i), "token_type_hint")>>,
           <<"client", i.user>>, <<"secret", i.pass>>>>
    [] i.kind = "bearer" -> <<<<"token", i.user>>>>

ParseOk(e) ==
  CASE e.op = "parse" ->
         /\ e.r.ok = WellFormed(e.i)
         /\ e.r.ok => SameBag(NonEmpty(Result(e.i)), NonEmpty(e.r.fields))
         /\ ~e.r.ok => /\ e.r.none /\ e.r.oauth
                       /\ IF e.i.kind = "bearer" /\ e.i.auth = "none" THEN e.r.status = 401 /\ e.r.name = ""
                          ELSE e.r.status = 400 /\ e.r.name = "invalid_request"
         /\ e.r.again
    [] e.op = "known" ->
         e.r.known = (e.i.text \in (CASE e.i.kind = "grant" -> {"password", "client_credentials", "authorization_code", "refresh_token"}
                                      [] e.i.kind = "response" -> {"token", "code"}
                                      [] e.i.kind = "token" -> {"access_token", "refresh_token"}))
    [] OTHER -> TRUE

Sound(e) == ~e.r.panic /\ ~e.r.hang
LibHolds(p, e) ==
  /\ Sound(e)
  /\ CASE p = "C13" -> TokenOk(e)
       [] p = "C15" -> GenOk(e)
       [] p = "C19" -> ResponseOk(e)
       [] p = "C21" -> ParamsOk(e)
       [] p = "C22" -> TripOk(e)
       [] p = "C23" -> ScopeOk(e)
       [] p = "C24" -> ErrorOk(e)
       [] p = "C27" -> ClientOk(e)
       [] p = "C28" -> ParseOk(e)
       \* run at the same time as others: the same laws, and what went in and
       \* what came out is as it was when everybody is done
       [] p = "C29" -> /\ TokenOk(e) /\ GenOk(e) /\ ResponseOk(e) /\ ParamsOk(e) /\ TripOk(e) /\ ScopeOk(e)
                       /\ ErrorOk(e) /\ ClientOk(e) /\ ParseOk(e)
                       /\ e.r.kept
       [] OTHER -> TRUE
=============================================================================
