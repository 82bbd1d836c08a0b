import json
P=[]
def p(id,title,st,over,qt,why,files,mech,state=None,obs=None,hook=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: a["observe_at"]=obs
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,"anchors":a})
S="server.go"
tok=[("issued credentials","the access tokens, refresh tokens and authorization codes the server has handed out, with owner, user, scope, expiry and origin","server.go: Server")]
p("C01","An authorization code is exchanged for tokens at most once",
"Whatever sequence or overlap of requests the server receives, at most one token request presenting a given authorization code is ever answered with tokens. Every later (or concurrent losing) presentation of that code is refused, no matter which client presents it, how much time has passed, or whether the first response reached its client.",
["histories","schedules","fault_sequences"],"all request histories and overlaps of requests on any set of clients, users, codes and configurations",
"the suite redeems one code twice back to back with one client; orders, overlaps and lost responses are never sampled",
[S],[("used check and mark in the code grant","server.go: handleAuthorizationCodeGrant"),("one lock around each request","server.go: ServeHTTP")],tok,["responses of the token endpoint"])
p("C02","Replaying an authorization code kills every credential derived from it",
"When an already exchanged authorization code is presented again to the token endpoint by any client that passes client authentication, the request is refused and from then on every access and refresh token that originates from that code - directly, or through any chain of refreshes, with the same or a narrowed scope - is dead for resource access, introspection and refreshing. Credentials that do not originate from that code, even of the same client, user and scope, are not affected.",
["histories"],"all histories in which a used code is replayed: any owner or foreign client, any redirect URI, before or after expiry, after any number of refreshes and revocations, repeatedly, with any other credentials around",
"the suite replays one code once, directly after the exchange, with one token pair and nothing else alive to be wrongly killed",
[S],[("replay branch of the code grant","server.go: handleAuthorizationCodeGrant"),("origin code carried on issued tokens","server.go: issueTokens, handleRefreshTokenGrant")],tok,["resource access, introspection and refresh after a replay"])
p("C03","A code is only good for its own client, redirect URI, lifetime and approval",
"A token request exchanging an authorization code succeeds only if it comes from the client the code was issued to, names exactly the redirect URI of the authorization request and arrives before the code expires; then it always succeeds if the code was not exchanged before, whatever failed attempts were made with that code earlier. The tokens issued carry exactly the client, resource owner and scope that were approved at the authorization endpoint; scope, username or other parameters of the exchange request change nothing.",
["histories","inputs"],"all codes, clients, redirect URIs (including near-identical ones), times and extra parameters, after any history of failed attempts",
"the suite tries one wrong client and one wrong redirect URI, always exchanges with the same scope and never looks at what the tokens are good for",
[S,"token.go"],[("expiry, ownership and redirect checks","server.go: handleAuthorizationCodeGrant"),("redirect URI parsing","token.go: ParseTokenRequest")],tok,["token endpoint, introspection of the issued tokens"])
p("C04","A refresh token works once and is replaced by a new pair",
"At most one token request presenting a given refresh token is ever answered with tokens, in any sequence or overlap of requests; that answer carries a new access token and a new refresh token, and the old refresh token is dead for refreshing and introspection from then on. The presented refresh token stays redeemable by its client until it expires, is revoked or is redeemed, whatever refused attempts were made with it, and redeeming it kills no other credential.",
["histories","schedules","fault_sequences"],"all histories and overlaps of refreshes, including chains of refreshes, failed attempts and lost responses",
"the suite refreshes one token and tries it once more; longer chains, failed attempts first, overlaps and bystander tokens are not sampled",
[S],[("delete after issue in the refresh grant","server.go: handleRefreshTokenGrant"),("one lock around each request","server.go: ServeHTTP")],tok,["token endpoint, introspection"])
p("C05","Refreshing never widens access and keeps the identity",
"A refresh succeeds only for the client the refresh token was issued to. The scope of the tokens it issues is the requested scope, which must be contained in the scope of the presented refresh token, or that same scope if none is requested; so along any chain of refreshes the scope only ever shrinks. Client and resource owner of the new tokens are those of the presented one, whatever the request says.",
["histories","inputs"],"all chains of refreshes with any requested scopes, clients and extra parameters",
"the suite tries one exceeding scope and one full-scope refresh; narrowing followed by widening, foreign clients with secrets and identity of the result are not looked at",
[S,"scope.go"],[("ownership and scope checks, scope inheritance","server.go: handleRefreshTokenGrant"),("scope inclusion","scope.go: Includes")],tok,["token endpoint, introspection and resource access with the new tokens"])
p("C06","Token, introspection and revocation endpoints demand client authentication",
"No request to the token, introspection or revocation endpoint issues, revokes, redeems or describes anything unless it identifies a registered client and, if that client is confidential, presents exactly its secret; otherwise it is refused and learns nothing about users, codes or tokens. HTTP Basic credentials take precedence over body credentials at the token endpoint, and the introspection and revocation endpoints accept HTTP Basic only.",
["inputs","configurations","histories"],"all client identifiers and secrets (including near misses of the right ones), all ways of presenting them, all grants and tokens, any set of registered clients",
"the suite tries the secret 'invalid' and the client 'unknown' only",
[S,"token.go","introspection.go","revocation.go"],[("client lookup and secret comparison","server.go: tokenEndpoint, revocationEndpoint, introspectionEndpoint"),("credential extraction","token.go: ParseTokenRequest; introspection.go; revocation.go")],None,["responses of the three endpoints"])
p("C07","Nothing is issued without the right resource owner or client credentials",
"A token or code on behalf of a resource owner is only issued by the password grant, the implicit grant or the authorization endpoint if the request body carries that owner's exact username and password, and is issued for exactly that owner. The client credentials grant only issues to confidential clients and its tokens represent no resource owner. A submission with wrong or missing credentials, or a GET of the authorization endpoint, never issues anything.",
["inputs","configurations","histories"],"all usernames, passwords (including near misses and other users' passwords), grants, methods and placements of the credentials",
"the suite uses one user and the wrong password 'invalid'",
[S],[("owner lookup and password comparison","server.go: handleImplicitGrant, handleAuthorizationCodeGrantAuthorization, handleResourceOwnerPasswordCredentialsGrant"),("confidentiality check","server.go: handleClientCredentialsGrant")],None,["responses of token and authorization endpoint, username reported by introspection"])
p("C08","Granted scope is the requested scope and never exceeds the allowed scope",
"Every token or code issued by the password, client credentials, implicit or authorization code flow carries exactly the scope that was requested, and a request for any scope item outside the server's allowed scope is refused in full instead of being granted partially. The scope reported in the response, the scope reported by introspection and the scope enforced at the resource are the same.",
["inputs","configurations","histories"],"all allowed scopes and requested scopes: empty, duplicated, reordered, padded with spaces, long, and containing items that are prefixes, suffixes or case variants of allowed ones",
"the suite requests 'foo bar', 'baz' and 'foo bar baz' against one allowed scope",
[S,"scope.go"],[("allowed scope check per grant","server.go: handle*Grant*"),("Scope.Includes, ParseScope","scope.go")],None,["token responses, introspection, resource access"])
p("C09","Authorization results only travel to the client's registered redirect URI",
"The authorization endpoint answers with a redirect only if the named client exists and the request's redirect URI is exactly the one registered for it; unknown clients, unknown response types and missing, malformed, fragment-carrying or different redirect URIs are answered directly without any redirect. A redirect always goes to that registered URI with its scheme, host, path and query parameters unchanged.",
["inputs","configurations"],"all client identifiers, registered redirect URIs and requested redirect URIs, including near misses (prefix, suffix, case, port, trailing slash, query, fragment, another client's URI)",
"the suite tries one unrelated host and never a near miss or a registered URI with a query",
[S,"authorization.go","oauth2.go"],[("redirect URI comparison before any redirect","server.go: authorizationEndpoint"),("redirect URI validation","authorization.go: ParseAuthorizationRequest"),("redirect construction","oauth2.go: WriteRedirect")],None,["status and Location of authorization responses"])
p("C10","A resource is accessible exactly with a valid access token of sufficient scope",
"Access to a protected resource is granted if and only if the request carries, as bearer token in the Authorization header, an access token that this server issued, that is not expired, revoked or killed by a code replay, and whose scope contains every required scope item. Refresh tokens, authorization codes, unknown or altered tokens and tokens placed anywhere else never grant access. A refusal writes the complete bearer error response, a grant writes nothing.",
["inputs","histories"],"all histories of issued credentials, all presented strings, all required scopes and all times",
"the suite tries five fixed tokens against one required scope",
[S,"bearer.go","scope.go"],[("Authorize","server.go: Authorize"),("ParseBearerToken","bearer.go"),("Includes","scope.go")],tok,["result and response of resource authorization"])
p("C11","Revocation is effective, permanent, exact and owner-only",
"After the client that owns an access or refresh token has revoked it, that token is dead for resource access, introspection and refreshing forever, whatever token type hint was sent and whatever happens afterwards. Revocation affects exactly the presented token and no other; another client cannot revoke it and is refused, and revoking an unknown or already dead token (or presenting an authorization code) succeeds without any effect.",
["histories","inputs"],"all tokens, hints, clients and histories, including repeated revocation, revocation after refresh and revocation by other clients",
"the suite revokes one token at a time with the matching hint and nothing else alive",
[S,"revocation.go"],[("revocation endpoint","server.go: revocationEndpoint, revokeToken")],tok,["resource access, introspection and refresh after revocations"])
p("C12","Introspection tells the truth about a token, and only to its owner",
"Introspection reports a token as active if and only if it is an access or refresh token issued to the asking client that would be accepted at that moment (issued, not expired, revoked, redeemed or killed by a replay), and then reports its exact type, client, resource owner, scope and expiry, whatever hint was sent. For any other token it says inactive and nothing else; a token of another client is refused without describing it; and introspection never changes anything.",
["histories","inputs"],"all histories, tokens, hints, clients and times",
"the suite checks the active flag and type of fresh and revoked tokens only; expired tokens, scope, user, expiry and mismatched hints are never checked",
[S,"introspection.go"],[("introspection endpoint","server.go: introspectionEndpoint"),("response encoding","introspection.go: WriteIntrospectionResponse")],tok,["introspection responses"])
p("C13","Credentials cannot be forged, altered or used as another kind",
"A string is only ever recognized as a credential if its signature is the one computed from its key under the server's secret: any change of key or signature, any string signed with another secret, and any malformed string is rejected as malformed by every endpoint, without any effect. A correctly signed string that was never issued, or that was issued as a different kind of credential, is treated as unknown. Formatting and parsing a token with its secret yields the same token again.",
["inputs"],"all presented strings: every kind of alteration of issued tokens (bytes flipped, truncated, extended, swapped parts, extra segments, other alphabet), other secrets, other kinds; all secrets and key lengths",
"the tests try the strings 'invalid', '', '%.foo' and one appended suffix",
["hs256.go",S],[("ParseHS256Token, Valid, Equal","hs256.go"),("lookup per kind","server.go")],None,["library results and responses of all endpoints"])
p("C14","Credentials are valid exactly for the configured lifespan",
"An authorization code, access token or refresh token is accepted at every moment up to and including its issue time plus the lifespan configured for its kind, and refused at every later moment, at every place that consumes it. The advertised lifetime in the token response is the configured access token lifespan in whole seconds and introspection reports the exact expiry second; neither using nor introspecting a credential ever changes its expiry.",
["histories","configurations"],"all lifespans per kind, all moments (in particular the instants around expiry), all grants that issue and all endpoints that consume credentials",
"the tests only use credentials that expired an hour ago or live for another hour",
[S],[("expiry stamping","server.go: issueTokens, handleAuthorizationCodeGrantAuthorization"),("expiry checks","server.go: Authorize, handleAuthorizationCodeGrant, handleRefreshTokenGrant, introspectionEndpoint")],tok,["all consuming endpoints under a controlled clock"])
p("C15","Every credential is fresh, full-strength and never issued without entropy",
"Every issued code, access token and refresh token is different from every other credential, and its key consists of as many bytes as configured, all drawn from the random source for this credential alone, even if the source delivers them in small pieces. If the source fails or runs dry, no credential is produced from the bytes that are missing: token generation reports the error instead.",
["histories","configurations","fault_sequences"],"all issuing requests, key lengths and behaviours of the random source (short reads, failure at any byte)",
"one test lets the source fail immediately; short reads, failures part way and uniqueness across flows are not covered",
["hs256.go",S],[("io.ReadFull on the random source","hs256.go: GenerateHS256Token"),("one generated token per credential","server.go: issueTokens")],None,["issued credential strings, random bytes supplied"])
p("C16","A request that breaks off takes effect completely or not at all",
"If token generation fails at any point of a request because of the random source, or the request body cannot be read completely, the request has no effect at all: nothing was issued, consumed or revoked, the same request succeeds when repeated, and the server keeps serving. If only the delivery of the response fails (write error or abort of the connection), the request has taken its full effect: single-use credentials are consumed and revocations and replay reactions are in force.",
["fault_sequences","histories"],"every request kind, with the random source failing at every draw, the body failing at any offset or the response writer failing at every call, after any history",
"the tests never inject a failure while a request is served",
[S,"hs256.go"],[("generation before any state change","server.go: issueTokens and its callers"),("deferred unlock","server.go: ServeHTTP, Authorize")],tok,["behaviour of all endpoints after the failed request"])
p("C17","Concurrent requests behave as if served one at a time",
"For any set of overlapping requests and resource authorizations, the responses and the state afterwards are those of some one-at-a-time order that respects the order of non-overlapping requests. In particular no code or refresh token is redeemed twice, nothing revoked or replayed survives, and the server neither crashes, deadlocks nor accesses its state without synchronization.",
["schedules","histories"],"all sets of concurrent requests on shared credentials and all interleavings",
"all tests are sequential",
[S],[("mutex around every request","server.go: ServeHTTP, Authorize")],[("mutex","serializes all requests and authorizations","server.go: Server.Mutex")],["responses of concurrently served requests"])
p("C18","Refusals have an applicable reason and valid requests are served",
"A request is refused only if a documented reason applies to it, and the refusal carries an OAuth2 error code and HTTP status belonging to an applicable reason: invalid_request 400, invalid_client 401, invalid_grant 400, invalid_scope 400, access_denied 403, unsupported_token_type 400, and for resources 401, invalid_request 400, invalid_token 401, insufficient_scope 403. A request to which no reason applies succeeds. No input whatsoever makes the server crash, hang, answer with a 5xx status or leave the response unwritten.",
["inputs","histories","configurations"],"all requests in all reachable states, including malformed and hostile ones",
"the suite checks one representative per error and never looks for unwarranted refusals",
[S,"error.go","token.go","authorization.go","introspection.go","revocation.go","bearer.go"],[("validation chain of each endpoint","server.go"),("error constructors","error.go")],None,["responses of all endpoints"])
p("C19","Credential-bearing responses have the exact protocol shape and are not cacheable",
"Responses that issue credentials contain exactly what the flow prescribes: bearer token type, access token, lifetime, granted scope and a refresh token for the token endpoint; the same without a refresh token, in the fragment only, for the implicit grant; only the code (and state), in the query only, for the code flow. Every JSON response of the protocol endpoints and every redirect forbids caching, redirects also restrict the referrer, 401 responses carry a challenge, and no response ever contains a password, client secret or a credential other than the ones it issues.",
["inputs","histories","configurations"],"all requests that reach the protocol endpoints, successful or refused, in all states",
"the suite looks at selected fields of successful responses; headers are tested on single library calls",
["oauth2.go","token.go","code.go","error.go","bearer.go",S],[("Write, WriteRedirect","oauth2.go"),("TokenResponse.Map, CodeResponse.Map, Error.Map","token.go, code.go, error.go")],None,["headers, bodies and redirect parameters of all responses"])
p("C20","Only the prescribed method and parameter location count",
"Token, introspection and revocation requests are only served as POST with their parameters in the form body; the same parameters in the URL query are ignored. The authorization endpoint only serves GET and POST, takes resource owner credentials from the body only, and a GET never issues anything or redirects. Paths that do not end in one of the four endpoint names are answered 404 without any effect, whatever their prefix otherwise.",
["inputs"],"all HTTP methods, paths and placements of every parameter (body, query, both with different values)",
"the tests try one wrong method per parser and never place parameters in the query",
["token.go","authorization.go","introspection.go","revocation.go",S],[("method checks and use of PostForm","token.go, introspection.go, revocation.go, authorization.go"),("routing by last path segment","server.go: ServeHTTP")],None,["responses of all endpoints"])
p("C21","State and other redirect parameters arrive unaltered",
"Every redirect that answers an authorization request, success or error, carries the request's state value unchanged, and no state parameter if the request had none. Decoding the query respectively fragment of any redirect written by the library once, as form encoding, yields exactly the parameters that were to be sent, for arbitrary names and values, in addition to the query parameters the redirect URI already had.",
["inputs"],"all state values and parameter values (reserved characters, percent signs, spaces, plus signs, unicode, control characters, long values), query and fragment",
"the tests use the state 'xyz' and the parameter baz=qux",
["oauth2.go","code.go","token.go","error.go",S],[("WriteRedirect","oauth2.go"),("SetRedirect","token.go, error.go")],None,["Location of redirects"])
p("C22","Requests and responses survive the trip between client and server",
"A token, introspection or revocation request built by the client side and parsed by the server side yields the same field values, for arbitrary values (client identifiers without colon; redirect URIs that are valid and free of fragments), and likewise a token or introspection response written by the server side and parsed by the client side. Against a live server, the client library returns exactly the response the server gave, or an error with exactly its name, description and status.",
["inputs"],"all combinations of present and absent fields and arbitrary field values",
"each round trip is tested once with simple alphanumeric values",
["token.go","introspection.go","revocation.go","client.go","error.go"],[("Build*/Parse* pairs, *RequestValues","token.go, introspection.go, revocation.go"),("Client methods","client.go")],None,["results of the library functions"])
p("C23","Scope behaves as a set of case-sensitive items",
"Parsing a scope string yields its space separated items in order, without empty items, for any amount of surrounding or repeated spaces, and formatting then parsing a scope of clean items yields it again, as do its JSON encoding and decoding. A scope contains exactly its items, compared exactly; it includes another scope if and only if it contains each of the other's items, so every scope includes the empty scope and itself and inclusion is transitive.",
["inputs"],"all scope strings and pairs or triples of scopes over small alphabets, plus irregular items",
"the tests try three strings and two pairs",
["scope.go"],[("ParseScope, Contains, Includes, String, MarshalJSON, UnmarshalJSON","scope.go")],None,["results of the library functions"])
p("C24","Error output is faithful and never leaks internal errors",
"Writing an OAuth2 error produces its status, its headers and exactly its non-empty public fields - as JSON document, as redirect parameters if it is to be redirected, or as bearer challenge parameters - and a client parsing the JSON form gets an error with the same fields and status. Any other error, and for bearer errors any internal server error, is written as a plain server error that contains nothing of the original error's text.",
["inputs"],"all errors: every constructor, every combination of set fields, redirected or not, in query or fragment, and arbitrary foreign errors",
"the tests write a handful of errors with one or two fields",
["error.go","bearer.go"],[("WriteError, ParseRequestError, Map, Params","error.go"),("WriteBearerError","bearer.go")],None,["written responses, parsed errors"])
p("C25","Refused requests leave no trace",
"A request that is refused - for whatever reason and at whatever endpoint, with the sole exception of the replay of an exchanged code - issues nothing and changes neither the validity, expiry, scope or ownership of any existing credential nor the outcome of any later request. The same holds for introspection, resource access and the GET form of the authorization endpoint.",
["histories","inputs"],"all refused requests in all reachable states, single and repeated any number of times",
"no test looks at the state after a refused request, except by the happy path that follows it",
[S],[("all checks precede all effects in every handler","server.go")],tok,["all credentials' validity before and after, later requests"])
p("C26","The conformance suite accepts conforming and rejects broken servers",
"The reusable test suite passes against a server that follows the protocol, for any choice of clients, users, scopes and supported grants in its specification, and it fails against a server that answers any one of the exchanges whose outcome the suite prescribes with the opposite outcome: accepting what must be refused, refusing what must be accepted, giving a different error, or reporting wrong activity, scope, lifetime or state.",
["programs","configurations"],"all single deviations (at any exchange of the suite's run) of an otherwise conforming server, and all configurations of the suite",
"the suite is only ever run against the correct server, so a missing or weakened assertion goes unnoticed",
["oauth2test/general.go","oauth2test/endpoints.go","oauth2test/grants.go","oauth2test/spec.go","oauth2test/request.go","oauth2test/utils.go"],[("assertions of the suite","oauth2test/*.go")],None,["verdict of the suite against doctored servers"])
p("C27","The client library fails closed",
"The client returns a token or introspection response only for a 200 answer of content type application/json whose body, within the configured size limit, is one complete JSON object whose known fields have the expected types, and reports a revocation as done only for a 200 answer; every other answer - other status, other or missing content type, truncated, oversized or malformed body, transport failure - yields an error and no response. An OAuth2 error document is reported as that error with the HTTP status, anything else as an error naming the status, and never more than the limit is read.",
["inputs","fault_sequences"],"all statuses, content types, bodies, sizes around the limit and transport faults, for all three client calls",
"the tests talk to the well-behaved server and one 404",
["client.go","token.go","introspection.go","error.go"],[("status and content type checks, LimitReader","client.go, token.go: ParseTokenResponse, introspection.go: ParseIntrospectionResponse, error.go: ParseRequestError")],None,["results of client calls"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
import re
for x in P:
    n=len(re.findall(r'\.(\s|$)',x['statement'])); 
    if n>3: print(x['id'],n)
print(len(P))
