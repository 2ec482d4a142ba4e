import json
P=[]
def p(id,title,st,over,q,why,files,mech,obs,state=None):
    d={"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":q},"why_tests_cant":why,
       "anchors":{"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":obs,"hook_needed":None}}
    if state: d["anchors"]["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append(d)
I=["inputs"];IC=["inputs","configurations"];IF=["inputs","configurations","fault_sequences"]
p("C01","Grants run only for an authenticated, entitled client",
 "The token endpoint runs a grant handler only for a POST, only the handler registered for the requested grant_type, at most once, and only for a client object that the store returned for the presented client identity and that proved itself by its secret or by a valid signed client assertion. That client must be allowed to use the requested grant type, whichever way it authenticated. Conversely a POST by a client that proved its identity and may use a registered grant type reaches that grant's handler.",
 IF,"every HTTP request, every store and client behaviour (including failures and nil results), every registered pair of handlers, every credential policy",
 "the tests send a few dozen requests with a handful of stored clients; the forbidden combinations (one way of authenticating that skips one check) are inputs nobody listed",
 ["token_endpoint.go","basic_auth/util.go","oauth_error/errors.go"],
 [("TokenEndpoint handler: method, grant_type, credentials, CanUseGrantType, handler call","token_endpoint.go:Handler"),("client assertion validation","token_endpoint.go")],
 ["calls of the grant handler, with the client passed to it","store lookups"],
 [("grant_type registry","handlers by grant type","TokenEndpoint.handlers")])
p("C02","Client credentials come only from the accepted places",
 "The token endpoint takes client_id and client_secret from the Basic Authorization header first, and otherwise only from the places its configuration accepts: nowhere else, the POST body, or body and query. A client assertion is looked at only when assertions are enabled, its type is the JWT-bearer one and no secret credential was given. The client looked up in the store is always the one so named, and a request that names one is looked up.",
 IC,"every request and every credential-acceptance configuration",
 "the tests try single placements; precedence and leakage between placements is over combinations of header, body and query",
 ["token_endpoint.go","basic_auth/util.go"],
 [("findClientCredential / acceptance method","token_endpoint.go")],["store lookups by client id","JWT parsing"])
p("C03","Authorization-code exchange is sound",
 "A code is exchanged for tokens only if a session stored under exactly that code exists, has not expired, was issued for the same redirect_uri, belongs to an active authorization of the authenticated client, and, when a proof key was stored, the presented challenge matches it by the presented method. Tokens are created only after all of these checks and for that authorization. A refusal always has one of these reasons or a store failure.",
 IF,"every request, every stored session and authorization, every store outcome, every clock value",
 "the tests cover a dozen concrete sessions; soundness is about all inputs and all store answers, and expiry about all times",
 ["grant/authorization_code.go","pkce/verifier.go","pkce/crypto.go"],
 [("authorization code handler checks","grant/authorization_code.go"),("proof key verifiers","pkce/verifier.go")],
 ["CreateOAuthToken calls","the handler's response"])
p("C04","An authorization code is spent before its tokens leave",
 "No token response leaves the authorization-code grant unless the session found under the presented code has been disabled successfully; when disabling fails the exchange is refused. Within one exchange the code is looked up afresh, once, tokens are created at most once, and only the session that was looked up is disabled.",
 IF,"every request and every sequence of store outcomes",
 "fault sequences (disabling fails, returns late, returns errors of each kind) are not in the tests, which use a store that always succeeds",
 ["grant/authorization_code.go"],[("DisableSession before response","grant/authorization_code.go")],["DisableSession calls and results","the handler's response"])
p("C05","Refresh is bound to its client, token and lifetime",
 "A refresh is granted only for a stored, unexpired refresh token whose authorization is active, belongs to the authenticated client and includes offline_access, and the store is asked to refresh exactly that token for exactly that authorization. The response carries the refreshed token and no more scope than the authorization holds. A refusal always has such a reason or a store failure.",
 IF,"every request, stored token, authorization, store outcome and clock value",
 "tests use two or three stored tokens and one clock value",
 ["grant/refresh_token.go"],[("refresh handler checks","grant/refresh_token.go")],["RefreshAccessToken calls","the handler's response"])
p("C06","Password and client-credentials grants create only entitled tokens",
 "The password grant creates an authorization and tokens only for the user the store returned for the presented username and password, and the client-credentials grant only for the owner of the authenticated client; both only for the client that authenticated and with exactly the requested scope, after the client was asked whether it may use that scope. No authorization or token is created when any of these steps failed.",
 IF,"every request and every store outcome",
 "tests use one user and one scope; error outcomes of each store method are mostly not exercised",
 ["grant/password.go","grant/client_credential.go"],[("scope check, user lookup, CreateOrUpdateAuthInfo, CreateOAuthToken","grant/password.go, grant/client_credential.go")],["store calls","the handler's response"])
p("C07","A token response says what the store issued",
 "A successful token response carries the access token, its lifetime, the refresh token and the scope exactly as the store returned them for that authorization, and an ID token exactly when an authorization code is exchanged for an authorization whose scope includes openid; the other grants carry none. The JSON body spells these values under their standard names with token_type Bearer.",
 IF,"every granted request and every token, authorization and session the store may return",
 "the tests compare a few fixed values",
 ["grant/interface.go","grant/authorization_code.go","grant/refresh_token.go","grant/password.go","grant/client_credential.go","grant/jwt.go","id_token/id_token.go"],
 [("grant.Response","grant/interface.go")],["the handler's response and its JSON"])
p("C08","Token endpoint answers with one correct, uncacheable response",
 "Every request to the token endpoint gets exactly one status line, and every POST exactly one JSON body, sent after headers that forbid caching. The status and error code are those the failure demands (405 for another method, invalid_client with a challenge, unsupported_grant_type, unauthorized_client, server_error for store failures, the handler's own error otherwise), and 200 with the handler's body only when a handler granted. The error page configured for the endpoint is named in each refusal that names none of its own, and the built-in grants answer to their standard grant_type names. Each protocol error renders its registered name, status, JSON, query and WWW-Authenticate forms faithfully.",
 IF,"every request, every store outcome, every handler result and every error type, description and URI",
 "the error space (type x description x URI x credentials x store outcome) is far larger than the sampled cases",
 ["token_endpoint.go","oauth_error/errors.go"],[("success/fail/authenticate responses","token_endpoint.go"),("error rendering","oauth_error/errors.go")],["the HTTP response"])
p("C09","JWT assertions are fully validated before they count",
 "An assertion (as client authentication or as a JWT-bearer grant) is honoured only when its signature verifies under the key the named client holds for the assertion's algorithm and key id, it is within its lifetime with an expiry present, its audience is this issuer, its subject is present, and its use was recorded with the store for replay detection without error, under the client's id and the assertion's own jti and times. Tokens for a JWT-bearer grant go only to the user the store returned for the assertion's subject. Only signed, unexpired assertions are ever recorded.",
 IF,"every assertion string, every key, claim and store outcome",
 "claims, types of claims, algorithms and store outcomes form an unbounded input space; tests try about ten assertions",
 ["assertion/error.go","token_endpoint.go","grant/jwt.go"],[("assertion claims checks","assertion/error.go"),("client assertion path","token_endpoint.go"),("JWT grant","grant/jwt.go")],["grant handler calls","CreateOAuthToken calls","RecordAssertionClaims calls"])
p("C10","A protected resource opens only to a live access token",
 "The resource protector admits a request only if it carries an access token (in the Bearer header first, else only where the configuration accepts it) that the store knows, that has not expired, and whose authorization is active; it then sets the user-id, client-id and scope headers to exactly that authorization's values, overwriting whatever the client sent. Every refused request is answered with one error status, and with a Bearer challenge whenever the token rather than the store was at fault. A valid token is always admitted.",
 IF,"every request, stored token and authorization, store outcome and clock value",
 "tests use a few tokens; header spoofing, expiry boundaries and store failures need all inputs",
 ["resource_protector.go"],[("Validate","resource_protector.go")],["return value","request headers after the call","HTTP response"])
p("C11","Scope requirements of a path are enforced",
 "When scopes are required for a path, the protector admits a request only if every one of them is a word of the scope of the token's authorization; otherwise it answers 403 insufficient_scope. A path without requirements needs only a valid token. Scopes claimed in the client's own headers never count.",
 IF,"every request path, scope map and authorization scope",
 "subset tests over all word lists; the test tries two paths",
 ["resource_protector.go","scope/util.go"],[("ValidateWithScopes","resource_protector.go"),("IncludeAll","scope/util.go")],["return value","HTTP response"])
p("C12","No redirect to an unregistered URI",
 "The authorization endpoint sends an authorization response (redirect or form, success or error) only to the redirect_uri of the request, and only after the client named in the request was found and confirmed that URI as registered; otherwise it shows the local error screen and sends nothing. Completion and cancellation respond only to the redirect_uri of the request being continued.",
 IF,"every authorization request, client and store outcome",
 "tests never drive the authorization endpoint; open redirects appear on error paths with unusual parameters",
 ["authorization_endpoint.go","authorization/response.go"],[("CanUseRedirectURI before any response","authorization_endpoint.go:HandleRequest")],["redirects and forms sent","error screens shown"])
p("C13","Only valid authorization requests proceed",
 "An authorization request reaches login, consent or completion only if its response_type is supported and its flow and effective scope allowed for the client, display, prompt, max_age, nonce and code_verifier are within policy, openid is present and a nonce given where the response type demands, and scope is non-empty unless policy allows. offline_access survives only with consent outside the implicit flow. The request handed to the login and consent screens carries exactly the validated parameters.",
 IC,"every authorization request, client and policy",
 "no test drives the authorization endpoint; validity is a conjunction over fourteen parameters",
 ["authorization_endpoint.go","scope/util.go","prompt/util.go","flow/flow.go"],[("HandleRequest parameter checks","authorization_endpoint.go:HandleRequest")],["requests handed to the screens and to completion","error responses"])
p("C14","The response mode is never weaker than policy demands",
 "When the policy requires the security-level check, every successful or request-carried response mode is at least as secure as the default of the flow (query < fragment < form_post); without the check it is still a known mode. An invalid or too weak response_mode is replaced by the default when the policy says to ignore it and refused otherwise, and an acceptable one is honoured.",
 IC,"every response_mode, response_type and policy",
 "no test drives this decision; it ranges over policies times modes times flows",
 ["authorization_endpoint.go","response_mode/util.go"],[("response mode selection","authorization_endpoint.go:HandleRequest"),("CompareSecurityLevel","response_mode/util.go")],["response handler used","request handed on"])
p("C15","prompt=none never completes without the demanded evidence",
 "A request with prompt none never shows a screen and completes only if the client's policy allows it: with a confirmed login session, a login_hint that matches the logged-in user, or an id_token_hint that is validly signed, unexpired and matches, as the policy says, and only for an active authorization of the same scope whose consent is still fresh. A request without prompt none completes without a consent screen only if the client's policy omits consent, prompt does not ask for consent, and such an authorization exists. prompt login always leads to the login screen unless the request comes from it.",
 IF,"every authorization request, client policy, callback and store outcome",
 "no test drives the authorization endpoint; the decision tree has dozens of branches over callbacks and store outcomes",
 ["authorization_endpoint.go","prompt/util.go"],[("prompt handling","authorization_endpoint.go:HandleRequest"),("completeSilently","authorization_endpoint.go")],["screens shown","sessions, codes and tokens created","responses"])
p("C16","max_age forces re-authentication",
 "When an authorization request carries a positive max_age, it is completed or offered for consent only if the login session's auth time, as the application reports it, is at most max_age seconds old; otherwise the user is sent to log in, or, with prompt none, refused with login_required.",
 IF,"every max_age, clock and auth time",
 "boundary over all times; no test drives the authorization endpoint",
 ["authorization_endpoint.go"],[("max_age check","authorization_endpoint.go:HandleRequest, completeSilently")],["screens shown","responses"])
p("C17","Authorization responses carry exactly what was issued",
 "A successful authorization response carries exactly the artefacts its response type calls for: the code that was stored with the request's redirect_uri, nonce, code verifier, auth time and configured lifetime; the access token, its type and lifetime as the store created it; an ID token for the flow; the request's state whenever one was given; and the granted scope in the implicit and hybrid flows. A code is stored before it is sent, and a failure of any step yields server_error instead of a partial success. An error response carries the error and the state. Every request has one outcome (a response, a screen or the local error screen), and the endpoint reports true exactly when it completed the request or asked for consent.",
 IF,"every completed request, flow, callback and store outcome",
 "no test drives completion; the response is a product of flow, policy and store answers",
 ["authorization_endpoint.go","authorization/request.go"],[("completeAuthorizationCodeFlowRequest, completeImplicitFlowRequest, completeHybridFlowRequest","authorization_endpoint.go"),("ToSession","authorization/request.go")],["authorization response parameters","CreateAuthSession and CreateOAuthToken calls"])
p("C18","Front-channel parameters cannot be forged or injected",
 "An authorization response in query or fragment mode is one 302 redirect to the redirect URI followed by the right connector and the URL-encoded parameters; in form_post mode it is one uncacheable HTML page that posts to the escaped redirect URI exactly the parameters as escaped hidden fields. No parameter name, value or URI can break out of its place, and none is lost, added or altered.",
 I,"every redirect URI, parameter set, error, description and state",
 "injection is a property of all strings; the only test checks four connectors",
 ["authorization/response.go"],[("RedirectResponseHandler, HTMLResponseHandler, Connector","authorization/response.go")],["the HTTP response"])
p("C19","ID tokens state the facts of the authentication",
 "A generated ID token is signed with the given key and algorithm (kid included when there is one) and contains exactly: issuer, audience the client, subject, expiry now plus lifetime, issued-at now, auth_time, the nonce when one was given, and, in the implicit and hybrid flows, at_hash and c_hash, which are the base64url encoding without padding of the left half of the algorithm's hash of the access token and code. An unknown algorithm yields an error and no token.",
 I,"every algorithm, key, claim value and time",
 "id_token's tests cannot even be built here, and they check one hash value (the wrong one)",
 ["id_token/id_token.go"],[("Hash, Gen, GenForImplicit, GenForHybrid","id_token/id_token.go")],["claims and header of the signed token"])
p("C20","response_type maps to exactly one flow",
 "A response_type is accepted exactly when its space-separated words are, in any order, one of code, token, id_token and their defined combinations without repetition; it then selects the flow (code, implicit, hybrid) and whether an access token and an ID token are due, as the standard's table says. Everything else is refused.",
 I,"every string","an infinite input set against a finite table; the tests try the table's rows",
 ["flow/flow.go"],[("JudgeByResponseType","flow/flow.go")],["returned flow or error"])
p("C21","Scope strings behave as sets of words",
 "Scope operations treat a scope as its words separated by single spaces: inclusion tests exact word membership, include-all tests every required word and names one that is missing, removal drops exactly the given word everywhere and keeps the order of the rest, and two scopes are the same exactly when they have the same words with the same multiplicity in any order.",
 I,"every pair of strings and word lists","prefix, substring, repetition and order cases are unbounded; tests try about ten strings",
 ["scope/util.go"],[("Split, Include, IncludeAll, Remove, Same, Sort","scope/util.go")],["return values"])
p("C22","prompt values are parsed exactly",
 "A prompt string is valid exactly when all its space-separated words are none, login, consent or select_account and none is not combined with another; the include tests are exact word membership, and include-all tests every required word and names a missing one.",
 I,"every string","unbounded strings; tests try about ten",
 ["prompt/util.go"],[("Validate, Include, IncludeAll","prompt/util.go")],["return values"])
p("C23","Proof-key verification is exact",
 "Exactly the methods plain and S256 have a verifier. plain accepts exactly equal strings; S256 accepts exactly the unpadded base64url encoding of the SHA-256 of the verifier.",
 I,"every method, challenge and verifier","unbounded strings; tests try one pair",
 ["pkce/verifier.go","pkce/crypto.go"],[("FindVerifierByMethod, Verify, S256Encode","pkce/verifier.go, pkce/crypto.go")],["return values"])
p("C24","An authorization request survives encoding",
 "Decoding an encoded authorization request gives back the same request, field for field, including its flow and what the flow requires; and turning a request into a session copies redirect_uri, nonce and code verifier unchanged together with the given code, lifetime and auth time.",
 I,"every authorization request (valid UTF-8 text, defined flows)","round trip over all field values; no test covers it",
 ["authorization/request.go","flow/flow.go"],[("Encode, DecodeRequest, ToSession","authorization/request.go"),("FlowType JSON","flow/flow.go")],["decoded request","session"])
p("C25","No request and no store answer makes an endpoint panic",
 "No HTTP request, however malformed, and no combination of results the application's store, clients or callbacks may return (errors of any kind, nil with nil error, keys of any type) makes the token endpoint, the authorization endpoint (request, completion, cancellation) or the resource protector panic.",
 IF,"every request, store outcome, client and callback outcome",
 "panics hide in combinations of odd types, nil values and malformed input outside the tests",
 ["token_endpoint.go","authorization_endpoint.go","resource_protector.go","grant/","assertion/error.go","authorization/","id_token/id_token.go","oauth_error/errors.go"],
 [("nil checks, comma-ok assertions, bounds checks","all serving code")],["run-time panics while serving"])
p("C26","Serving a request leaves shared state alone",
 "Serving a request changes nothing but the response, the request's own parsed form and the three identity headers set by the resource protector: not the endpoints, registered handlers, policy, package-level variables, client or store objects. So any number of requests can be served one after another or concurrently without influencing one another except through the store.",
 ["inputs","schedules","histories"],"every request, in every order and interleaving",
 "the absence of hidden shared state cannot be sampled: it shows only in particular interleavings or histories",
 ["token_endpoint.go","authorization_endpoint.go","resource_protector.go","grant/","oauth_error/errors.go","pkce/verifier.go","authorization/response.go"],
 [("request-local state only","all serving code")],["writes to memory not allocated by the request"])
p("C27","Passwords and secrets stay out of logs",
 "Nothing the endpoints log depends on a user's password, a client's secret (header, body or query) or a client's keys, beyond whether a check with them succeeded.",
 IF,"every request and every store outcome","leaks sit on rarely taken error paths; no test looks at the log",
 ["token_endpoint.go","grant/password.go","basic_auth/util.go","log/text.go"],[("parameters passed to the logger","token_endpoint.go, grant/password.go")],["logged text"])
p("C28","Basic credentials round trip",
 "A Basic token built from a user id and password is the base64 of both, form-escaped and joined by a colon, and the header is that token after 'Basic '. Reading client credentials from a request prefers the Authorization header, falls back to client_id and client_secret only when both are present and non-empty, and reports none otherwise; a header built from a pair is read back as that pair.",
 I,"every user id, password and request","unbounded strings with separators and reserved characters; tests try one pair",
 ["basic_auth/util.go"],[("Token, Header, FindClientCredential","basic_auth/util.go")],["return values"])
p("C29","Log lines carry their own level, event and attributes",
 "The default logger prints a message exactly when its level is at or above the configured one, once, labelled with that level. A log line built for an endpoint names the endpoint, path or grant type and event, and carries the message and every attribute.",
 IC,"every level, threshold, event, message and attribute map","products of levels, events and maps; the test prints without asserting",
 ["log/logger.go","log/text.go","log/color.go"],[("defaultLogger, insertLevelLabel","log/logger.go"),("EndpointLog","log/text.go")],["printed text","returned text"])
p("C30","Keys load only from the right PEM blocks",
 "Loading a public or private key from text, bytes or a file succeeds exactly when the input decodes to a PEM block of the right type (PUBLIC KEY, RSA PRIVATE KEY) that holds an RSA key, and then returns that key; otherwise it returns an error and no key.",
 I,"every byte string and every file","byte strings are unbounded",
 ["crypto/key.go"],[("LoadPublicKeyFromData, LoadPrivateKeyFromData","crypto/key.go")],["returned key or error"])
p("C31","Published keys are the registered public keys",
 "The JWK endpoint publishes exactly the registered public keys under their key ids as JSON.",
 IC,"every key set","key sets are unbounded",
 ["jwk_endpoint.go","crypto/key.go"],[("PublicKeysJWK","crypto/key.go")],["HTTP response"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(d,ensure_ascii=False)+'\n' for d in P))
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for d in P: jsonschema.validate(d,sch)
print(len(P))
