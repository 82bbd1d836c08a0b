------------------------------ MODULE LibCases ------------------------------
(***************************************************************************)
(* The cases the library is tried on: every combination of the structural   *)
(* choices, enumerated by TLC and printed for the driver, which fills in    *)
(* texts.  The laws of the scope specification are checked on the way.      *)
(***************************************************************************)
EXTENDS Lib, Json, IOUtils

Ask == IOEnv.ASK
Deep == IOEnv.DEEP = "yes"

VARIABLES case
B == BOOLEAN

Strings(A, n) == UNION {[1..k -> A] : k \in 0..n}
Al == {97, 98, 65, 32}
Words == {<<97>>, <<65>>, <<98>>, <<97, 98>>, <<98, 97>>, <<97, 97>>, <<97, 98, 97>>}
Scopes(n) == UNION {[1..k -> Words] : k \in 0..n}

ScopeCases ==
  {[op |-> "scopeparse", s |-> s] : s \in Strings(Al, IF Deep THEN 7 ELSE 5)}
  \cup {[op |-> "scopeunjson", s |-> s] : s \in Strings(Al, IF Deep THEN 5 ELSE 3)}
  \cup {[op |-> x, items |-> s] : x \in {"scopeformat", "scopejson"}, s \in Scopes(IF Deep THEN 4 ELSE 3)}
  \cup {[op |-> "scopeincl", a |-> s, b |-> t] : s \in Scopes(IF Deep THEN 3 ELSE 2), t \in Scopes(2)}
  \cup {[op |-> "scopecont", a |-> s, x |-> t] : s \in Scopes(IF Deep THEN 3 ELSE 2), t \in Words \cup {<<>>}}

TokenModes == {"ok", "flipkey", "flipsig", "trunc", "append", "swap", "resign", "garbage",
  "three", "keyonly", "sigonly", "dotend", "dotstart", "std", "pad", "space", "upper", "lower", "label",
  "sigkey", "double", "emptykey", "emptysig", "zerosig", "hexsig", "nul", "long", "flipkeyresign", "shortsig", "longsig",
  "empty", "dot", "emptyboth", "othersecret", "prefixsecret", "allflips", "sigprefix", "keytail", "newline"}
TokenCases ==
  {[op |-> "tokenparse", mode |-> m, klen |-> k, secret |-> s] :
     m \in TokenModes, k \in {1, 15, 16, 32, 64, 65, 200}, s \in {"short", "long", "huge"}}
  \cup {[op |-> "tokenmake", klen |-> k, secret |-> s] : k \in 0..72 \cup {127, 128, 129, 256, 1000}, s \in {"short", "long", "huge"}}

GenCases ==
  {[op |-> "generate", len |-> n, limit |-> l, chunk |-> c, eof |-> f] :
     n \in {1, 2, 7, 8, 16, 32}, l \in -1..33, c \in {0, 1, 3, 8, 15}, f \in B}
  \cup UNION {{[op |-> "generate", len |-> n, limit |-> l, chunk |-> c, eof |-> f] :
         l \in {-1, 0, 1, 32, 64, n - 1, n, n + 1}, c \in {0, 1, 32, 64}, f \in B} :
         n \in {33, 48, 63, 64, 65, 100, 128, 129, 256, 300, 513, 1024, 4096}}

\* subsets of optional fields
Opt(S) == SUBSET S
IntroFields == {"scope", "client", "user", "type", "exp", "iat", "nbf", "sub", "aud", "iss", "jti", "extra"}
ResponseCases ==
  {[op |-> "tokenresp", has |-> h, redirect |-> r, nq |-> q, emptyscope |-> z] :
     h \in Opt({"refresh", "scope", "state", "expires"}), r \in B, q \in 0..2, z \in B}
  \cup {[op |-> "coderesp", has |-> h, redirect |-> TRUE, nq |-> q, emptyscope |-> FALSE] : h \in Opt({"state"}), q \in 0..3}
  \cup {[op |-> "write", has |-> {}, redirect |-> FALSE, nq |-> s, emptyscope |-> FALSE] : s \in {200, 201, 400, 401, 500}}
  \cup {[op |-> "introresp", has |-> h, redirect |-> FALSE, nq |-> 0, emptyscope |-> FALSE] :
          h \in IF Deep THEN Opt(IntroFields \cup {"active"})
                 ELSE Opt({"active", "scope", "user", "exp", "iat", "sub"})
                      \cup {g \cup a : g \in {h \in Opt(IntroFields) : Cardinality(h) \in {1, 2, 11, 12}}, a \in {{}, {"active"}}}}

RedirectCases ==
  {[op |-> "redirect", frag |-> f, np |-> n, nq |-> q, clash |-> c] : f \in B, n \in 0..5, q \in 0..3, c \in B}

ReqFields == {"scope", "secret", "user", "pass", "refresh", "redir", "code"}
TripCases ==
  {[op |-> "tokenreq", has |-> h, grant |-> g, live |-> ""] : h \in Opt(ReqFields),
     g \in {"password", "client_credentials", "authorization_code", "refresh_token", "x"}}
  \cup {[op |-> o, has |-> h, grant |-> "", live |-> ""] : o \in {"introreq", "revokereq"}, h \in Opt({"hint", "secret"})}
  \cup {[op |-> "tokenrestrip", has |-> h, grant |-> "", live |-> ""] : h \in Opt({"refresh", "scope", "state", "expires", "type"})}
  \cup {[op |-> "introrestrip", has |-> h, grant |-> g, live |-> ""] :
          h \in IF Deep THEN Opt(IntroFields) ELSE {h \in Opt(IntroFields) : Cardinality(h) \in {0, 1, 2, 11, 12}},
          g \in {"active", "inactive"}}
  \cup {[op |-> "live", has |-> {}, grant |-> g, live |-> l] :
          g \in {"password", "client_credentials", "authorization_code", "refresh_token", "introspect", "revoke"},
          l \in {"good", "client", "secret", "user", "scope", "token", "malformed", "foreign", "expired", "hint", "used", "grant"}}

ErrFields == {"desc", "state", "scope", "uri", "realm"}
ErrorCases ==
  {[op |-> "error", how |-> w, has |-> h, status |-> s, hdr |-> d, nq |-> q, name |-> TRUE] :
     w \in {"json", "query", "fragment"}, h \in Opt(ErrFields), s \in {400, 401, 403, 500, 503}, d \in B, q \in 0..1}
  \cup {[op |-> "error", how |-> "json", has |-> h, status |-> s, hdr |-> d, nq |-> 0, name |-> FALSE] :
     h \in Opt(ErrFields), s \in {400, 401, 403, 500, 503}, d \in B}
  \cup {[op |-> "error", how |-> "bearer", has |-> h, status |-> s, hdr |-> FALSE, nq |-> 0, name |-> n] :
     h \in Opt(ErrFields), s \in {400, 401, 403, 500, 503}, n \in B}
  \cup {[op |-> "othererror", how |-> w, kind |-> k] : w \in {"json", "bearer"},
          k \in {"plain", "wrapped", "joined", "custom", "value", "io", "url", "asis",
                 "temporary", "rich", "as", "embedded", "op", "path", "dns", "deadline", "syntax", "body"}}
  \cup {[op |-> "errortable", kind |-> k, how |-> ""] : k \in {"invalid_request", "invalid_client", "invalid_grant", "invalid_scope",
          "invalid_token", "unauthorized_client", "unsupported_grant_type", "unsupported_response_type", "unsupported_token_type",
          "protected", "insufficient_scope", "access_denied", "server_error", "temporarily_unavailable"}}

ClientCases ==
  {[op |-> "client", call |-> c, status |-> s, ct |-> t, doc |-> d, fail |-> f, limit |-> l] :
     c \in {"token", "introspect", "revoke"},
     s \in {200, 201, 204, 302, 400, 401, 404, 500, 503},
     t \in {"json", "jsonutf", "upper", "text", "missing", "malformed", "html", "problem", "xjson"},
     d \in {"good", "empty", "cut", "garbage", "trailing", "wrongtype", "array", "string", "null", "error", "errortype", "huge", "html"},
     f \in {"none", "early", "late", "transport", "pieces"},
     l \in {"default", "exact", "short", "big"}}
\* most of the product says nothing new: other statuses with two content types
ClientChosen == {c \in ClientCases :
  /\ c.status # 200 => c.ct = "json" \/ (c.ct = "html" /\ c.doc \in {"empty", "garbage", "html"})
  /\ c.fail \in {"early", "late"} => c.status \in {200, 400, 503}
  /\ c.fail = "transport" => c.ct = "json" /\ c.limit = "default"
  /\ c.doc = "huge" => c.limit \in {"default", "short"}
  /\ c.call = "revoke" => c.ct \in {"json", "missing"} /\ c.limit \in {"default", "short"}}

(* Requests for the parsers. place: where the parameters are sent; decoy:    *)
(* other values of the same parameters, earlier or later, in the other place; *)
(* odd: one thing about the request that is out of the ordinary               *)
ParseFields(k) ==
  CASE k = "authorize" -> {"response_type", "client_id", "scope", "state"}
    [] k = "token" -> {"grant_type", "scope", "client_id", "client_secret", "username", "password", "refresh_token", "code"}
    [] k \in {"introspect", "revoke"} -> {"token", "token_type_hint"}
    [] OTHER -> {}
Needed(k) ==
  CASE k = "authorize" -> {"response_type", "client_id"}
    [] k = "token" -> {"grant_type", "client_id"}
    [] k \in {"introspect", "revoke"} -> {"token"}
    [] OTHER -> {}
Redirs == {"", "twice", "once", "plus", "frag", "escfrag", "relative", "nohost", "badesc", "badescraw", "control"}
Auths == {"none", "basic", "mixedbasic", "emptyuser", "emptypass", "nocolon", "badbase64", "bearer", "scheme", "noscheme", "urlbase64"}
Usual(k) == IF k = "authorize" THEN "GET" ELSE "POST"
Home(k) == IF k = "authorize" THEN {"query", "body"} ELSE {"body"}
Kinds == {"authorize", "token", "introspect", "revoke"}
P(k, h, u, a, m, ct, pl, d, o) == [op |-> "parse", kind |-> k, has |-> h, redir |-> u, auth |-> a, method |-> m, ct |-> ct,
                                   place |-> pl, decoy |-> d, odd |-> o]
UsualAuth(k) == IF k \in {"introspect", "revoke"} THEN "basic" ELSE "none"
UsualUri(k) == IF k = "authorize" THEN "twice" ELSE ""
MethodFor(pl) == IF pl = "query" THEN "GET" ELSE "POST"

\* written as a predicate: building one set of all of them takes TLC far longer
ParseInit ==
  \* which parameters there are
  \/ \E k \in Kinds : \E h \in Opt(ParseFields(k)), a \in {UsualAuth(k), "basic"}, pl \in Home(k) :
       case = P(k, h, UsualUri(k), a, MethodFor(pl), "form", pl, "none", "")
  \* redirect URIs and credentials
  \/ \E k \in Kinds : \E h \in {Needed(k), ParseFields(k), Needed(k) \ {"client_id"}}, u \in Redirs, a \in Auths, pl \in Home(k) :
       case = P(k, h, u, a, MethodFor(pl), "form", pl, "none", "")
  \* methods, content types and places
  \/ \E k \in Kinds : \E h \in {Needed(k), ParseFields(k)}, m \in {"GET", "POST", "PUT", "PATCH", "HEAD", "DELETE", "OPTIONS", "post", "get", "Post"},
                         ct \in {"form", "formcharset", "upper", "missing", "multipart", "json", "text"}, pl \in {"query", "body", "both"} :
       case = P(k, h, UsualUri(k), UsualAuth(k), m, ct, pl, "none", "")
  \* decoys and oddities
  \/ \E k \in Kinds : \E h \in {Needed(k), ParseFields(k)}, u \in {UsualUri(k), "twice"}, a \in {UsualAuth(k), "basic"}, ct \in {"form", "text"},
                         pl \in {"query", "body", "both"},
                         d \in {"none", "before", "after", "emptybefore", "emptyafter", "otherplace", "case", "array"},
                         o \in {"", "badquery", "badbody", "parsed", "extra", "access_token", "emptyvalues", "headers"} :
       /\ Deep \/ ct = "form" \/ d \in {"none", "otherplace"}
       /\ case = P(k, h, u, a, MethodFor(pl), ct, pl, d, o)
  \/ \E a \in {"none", "empty", "bearer", "lowerbearer", "upperbearer", "mixedbearer", "bare", "baresp", "tab", "comma", "glued", "basic", "token", "prefix",
               "short", "colon"},
        m \in {"GET", "POST", "DELETE", "PUT"}, pl \in {"query", "body", "both"}, o \in {"", "access_token", "headers"} :
       case = P("bearer", {}, "", a, m, "form", pl, "none", o)
KnownCases == {[op |-> "known", kind |-> k, text |-> t] : k \in {"grant", "response", "token"},
  t \in {"", "password", "client_credentials", "authorization_code", "refresh_token", "token", "code", "access_token", "implicit", "id_token", "code token",
          "case", "space", "piece", "any", "plural", "dash"}}

Cases ==
  CASE Ask = "C13" -> TokenCases
    [] Ask = "C15" -> GenCases
    [] Ask = "C19" -> ResponseCases
    [] Ask = "C21" -> RedirectCases
                      \cup {c \in ResponseCases : c.op \in {"tokenresp", "coderesp"} /\ c.redirect}
                      \cup {c \in ErrorCases : c.op = "error" /\ c.how \in {"query", "fragment"} /\ c.status = 400}
    [] Ask = "C22" -> TripCases
    [] Ask = "C23" -> ScopeCases
    [] Ask = "C24" -> ErrorCases
    [] Ask = "C27" -> ClientChosen
    [] Ask = "C28" -> KnownCases
    [] Ask = "C29" -> {[op |-> "genone", len |-> n] : n \in {8, 15, 16, 32, 64}}

Init == case \in Cases \/ (Ask = "C28" /\ ParseInit)
Next == FALSE /\ UNCHANGED case
Spec == Init /\ [][Next]_case

Show == PrintT(ToJson([x |-> "CASE", c |-> case]))
Laws == case.op = "scopeincl" => \A u \in Scopes(1) : ScopeLaws(case.a, case.b, u)
=============================================================================
