#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run to regenerate)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe or []
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

SRVSTATE = [("access tokens", "credential recorded under each issued access token's signature", "server.go Server.AccessTokens"),
            ("refresh tokens", "credential recorded under each issued refresh token's signature", "server.go Server.RefreshTokens"),
            ("authorization codes", "credential recorded under each issued code's signature, with its used mark", "server.go Server.AuthorizationCodes")]

p("T01", "Tokens are accepted only with a matching HMAC signature",
  "Parsing a token string under a secret succeeds exactly when the string has two dot-separated segments that both decode as unpadded URL-safe base64 and the second decoded segment equals HMAC-SHA256 of the first under that secret. On success the returned key and signature are the two decoded segments; otherwise an error and no token is returned. The validity and equality checks on an existing token decide the same relation.",
  ["inputs"], "every secret and every token string",
  "the tests parse one generated token and four malformed strings; forged or altered tokens, wrong secrets and odd encodings are an unbounded input space",
  ["hs256.go"], [("split, base64 decoding and signature validation", "hs256.go ParseHS256Token"), ("HMAC computation and comparison", "hs256.go HS256TokenFromKey, Valid, Equal")])
p("T02", "Generated tokens are random, correctly signed and parse back",
  "A generated token's key consists of exactly the requested number of bytes read from the cryptographic random source and its signature is HMAC-SHA256 of that key under the given secret. The token's text form parses back under the same secret to the same key and signature, and its key/signature text forms are unpadded URL-safe base64. If the random source fails, no token is produced: an error is returned, or the must-variant panics.",
  ["inputs", "fault_sequences"], "every secret, every key length, every outcome of the random source",
  "the tests generate two tokens with one secret and one length; a predictable or short key, or a text form that fails to parse for some keys, is invisible to them",
  ["hs256.go", "server.go"], [("random key generation", "hs256.go GenerateHS256Token, MustGenerateHS256Token"), ("text form", "hs256.go String, KeyString, SignatureString"), ("configured generation", "server.go ServerConfig.MustGenerate")])
p("S01", "Scope membership and inclusion are exact set relations",
  "A scope contains a string exactly when some element equals that string byte for byte. A scope includes another exactly when every element of the other is contained in it, and a scope is empty exactly when it has no elements. None of these modify any scope.",
  ["inputs"], "all scopes of any length with any elements, including duplicates, empty and similar strings",
  "the tests check three short scopes; an off-by-one, prefix or case-insensitive comparison, or a skipped last element only shows on other inputs",
  ["scope.go"], [("linear searches", "scope.go Contains, Includes, Empty")])
p("S02", "Scope parsing, formatting and JSON agree",
  "Parsing a scope string yields exactly the non-empty whitespace-trimmed pieces between spaces, in order and with duplicates kept; formatting joins the elements with single spaces. The JSON form is the JSON string of the formatted form, decoding JSON parses that string, and malformed JSON yields an error and leaves the scope unchanged. Formatting a parsed scope and parsing it again yields the same scope.",
  ["inputs"], "all strings, all scopes and all JSON inputs",
  "three example strings are tested; empty pieces, tabs, repeated elements, and long inputs are not",
  ["scope.go"], [("split/trim/filter loop", "scope.go ParseScope"), ("joining", "scope.go String"), ("JSON hooks", "scope.go MarshalJSON, UnmarshalJSON")])
p("R01", "Authorization requests are validated and decoded exactly",
  "An authorization request is accepted exactly when it is a GET or POST whose form parses, with non-empty response type and client id, and a redirect URI that decodes, is non-empty, is a valid request URI and carries no fragment. An accepted request's fields equal the submitted parameters (scope parsed, redirect URI decoded, state verbatim). A rejected request yields no result and an invalid_request error with status 400.",
  ["inputs"], "every HTTP request",
  "the tests try two accepted and six rejected requests; the redirect URI fragment rule in particular is never exercised",
  ["authorization.go"], [("method, presence and redirect URI checks", "authorization.go ParseAuthorizationRequest")])
p("R02", "Token requests are validated and decoded exactly",
  "A token request is accepted exactly when it is a POST whose form parses, with a non-empty grant type and client id, and a redirect URI that is absent or decodes to a valid request URI without fragment. Client credentials come from HTTP Basic authentication when present and otherwise from the request body; every field comes from the request body only, never from the URL query, and equals the submitted value. A rejected request yields no result and an invalid_request error with status 400.",
  ["inputs"], "every HTTP request",
  "the tests use a handful of well-formed requests and never put parameters in the URL query or mix Basic and body credentials",
  ["token.go"], [("method, presence and redirect URI checks, Basic-over-body precedence", "token.go ParseTokenRequest")])
p("R03", "Introspection and revocation requests are decoded exactly",
  "An introspection or revocation request is accepted exactly when it is a POST whose form parses, with a non-empty token in the request body and valid HTTP Basic credentials. The token and hint come from the request body only and the client credentials from HTTP Basic only, all verbatim. A rejected request yields no result and an invalid_request error with status 400.",
  ["inputs"], "every HTTP request",
  "the tests use three requests per endpoint and never mix query and body parameters or body and Basic credentials",
  ["introspection.go", "revocation.go"], [("method, presence and Basic checks", "introspection.go ParseIntrospectionRequest; revocation.go ParseRevocationRequest")])
p("R04", "Built requests carry exactly the given fields and parse back",
  "The form values built for a token, introspection or revocation request contain exactly the non-empty fields under their standard names (redirect URI query-escaped), never the client credentials, and entries do not share storage, so adding to one never changes another. A built request is a form-encoded POST to the given URI whose body is those values and whose HTTP Basic credentials are set exactly when a client id or secret is given. Parsing a built request yields the original fields whenever they are themselves acceptable (client id without colon, scope elements plain).",
  ["inputs"], "all request structs and URIs",
  "one fully populated and one empty request of each kind are tested; partially filled requests, odd characters and later modification of the returned values are not",
  ["token.go", "introspection.go", "revocation.go"], [("value construction", "TokenRequestValues, IntrospectionRequestValues, RevocationRequestValues"), ("request construction", "BuildTokenRequest, BuildIntrospectionRequest, BuildRevocationRequest")])
p("B01", "Bearer tokens are taken only from a well-formed header",
  "Bearer token extraction succeeds exactly when the Authorization header is the word 'bearer' in any case, one space, and at least one more character, and then returns everything after that space verbatim. A missing or empty header yields the 401 protected-resource error without a code; any other header yields invalid_request with status 400. It never panics, whatever the header, and never looks at query or body.",
  ["inputs"], "every Authorization header value",
  "six header values are tested; short, non-ASCII or near-miss headers are not",
  ["bearer.go"], [("length, type and space checks", "bearer.go ParseBearerToken")])
p("B02", "Bearer challenges are complete and leak nothing on server errors",
  "Writing a known non-500 error as a bearer error sends the error's status, an empty body and a single WWW-Authenticate challenge 'Bearer ' followed by the error's parameters sorted and joined by comma-space as name=\"value\", or realm=\"OAuth2\" when there are none. Any other error, or an error with status 500, yields a bare 500 with empty body and no challenge. The parameters are exactly the error's present attributes.",
  ["inputs"], "every error value and attribute combination",
  "three error values are tested; map iteration order and the other attribute combinations are not",
  ["bearer.go", "error.go"], [("fallback, forced realm, header before status", "bearer.go WriteBearerError"), ("sorted parameters", "error.go Params, Map")])
p("W01", "JSON responses carry exact fields and are never cacheable",
  "JSON responses for tokens, errors and introspection are sent with exactly the required status, content type application/json;charset=UTF-8, Cache-Control no-store and Pragma no-cache set before the status line, and a body holding exactly the object's standard fields, omitting optional empty ones and never redirect or status bookkeeping. Introspection responses that are active with an unknown token type are refused with an error and nothing is written.",
  ["inputs"], "every response object and status",
  "a few objects are serialised; header order relative to the status line and each optional field are not covered",
  ["oauth2.go", "token.go", "error.go", "introspection.go"], [("headers then status then body", "oauth2.go Write"), ("wire names", "struct tags of TokenResponse, Error, IntrospectionResponse"), ("token type gate", "introspection.go WriteIntrospectionResponse")])
p("W02", "Redirect responses carry exactly the given parameters",
  "A redirect response is a 303 whose Location is the given URI with the given parameters, form-encoded once, added to its existing query, or used as its fragment when requested, and nothing else changed. It is marked no-store, no-cache and Referrer-Policy origin, and its body is empty. An unparsable URI yields an error and no response at all.",
  ["inputs"], "all URIs, parameter maps and both modes",
  "the tests use one URI and one harmless parameter; values needing escaping, existing parameters and map order are not covered",
  ["oauth2.go", "code.go", "token.go"], [("query merge, fragment encoding, headers", "oauth2.go WriteRedirect"), ("code in query, token in fragment", "code.go WriteCodeResponse; token.go WriteTokenResponse")])
p("W03", "Response parameter maps mirror the response exactly",
  "The parameter map of a token response always has token type, access token and decimal lifetime, and refresh token, scope and state exactly when present; that of a code response has the code and the state exactly when present; that of an error has exactly its non-empty name, description, state, scope, URI and realm. Values are verbatim (scope joined by spaces). Token responses with a redirect URI are always sent in the fragment, code responses in the query.",
  ["inputs"], "all response and error values",
  "four concrete values are tested",
  ["token.go", "code.go", "error.go"], [("maps", "token.go Map; code.go Map; error.go Map")])
p("E01", "Error constructors produce the specified code and status",
  "Each error constructor yields its OAuth2 error code and HTTP status with the given description or scope, no redirect target and no other attributes; only the invalid-client error carries a header, the Basic challenge. Error texts are code, colon, space, description. Marking an error for redirect changes only its redirect URI, state and fragment mode.",
  ["inputs"], "all descriptions and scopes",
  "the tests check code and status for one description per constructor, not the remaining attributes",
  ["error.go"], [("constructors", "error.go InvalidRequest ... TemporarilyUnavailable"), ("redirect marking", "error.go SetRedirect")])
p("E02", "Error responses never leak unknown errors and honour redirects",
  "Writing an error that is not an OAuth2 error sends a generic 500 server_error whose body has no other field. Writing an OAuth2 error sends its extra headers and then either its JSON document with its status or, if it names a redirect URI, a redirect carrying its parameters in the query or fragment as requested. Extra headers are sent with the response, and never override the content type and cache headers of JSON responses.",
  ["inputs"], "all error values and header maps",
  "three error values are tested",
  ["error.go"], [("type check, fallback, header loop, redirect choice", "error.go WriteError")])
p("K01", "The client sends exactly one well-formed request",
  "Each client operation sends exactly one request: a form-encoded POST to the configured base URI plus that operation's endpoint with the given request's values and Basic credentials; when the request cannot be built, nothing is sent and an error is returned. The default endpoint paths and the default 2048-byte response limit apply when not configured. The client never modifies its configuration.",
  ["inputs", "configurations"], "all configurations and request values",
  "the tests use one in-process server and default paths",
  ["client.go"], [("endpoint selection", "client.go Authenticate, Introspect, Revoke"), ("defaults", "client.go Default, NewClientWithClient")])
p("K02", "The client reports success only for a valid 200 response",
  "A client operation returns a result exactly when the exchange succeeded with status 200 and (except revocation) the body has media type application/json and decodes; then the result holds the decoded fields. Any other status yields an error: the decoded OAuth2 error with the response's status if the body is JSON, otherwise one naming the response status. At most the configured number of body bytes is ever considered, and the response body is closed on every path.",
  ["inputs", "fault_sequences"], "all server responses, transport failures and read failures",
  "the tests talk to a correct server; oversized, mistyped, truncated or failing responses are never produced",
  ["client.go", "token.go", "introspection.go", "error.go"], [("status check and deferred close", "client.go"), ("bounded read, media type check, decode", "token.go ParseTokenResponse; introspection.go ParseIntrospectionResponse; error.go ParseRequestError")])
p("A01", "Protected resources admit only live tokens with sufficient scope",
  "Authorization of a protected resource succeeds exactly when the request carries a bearer token that is authentic under the server's secret, currently recorded as an access token, unexpired, and whose scope includes the required scope; nothing is written then. Otherwise it fails and a response has been sent: 401 or 400 for missing or malformed credentials, 401 invalid_token for inauthentic, unknown, revoked or expired tokens, 403 insufficient_scope for missing scope. It never changes server state.",
  ["inputs", "histories"], "every request, server state and required scope",
  "six tokens against one required scope are tested",
  ["server.go", "bearer.go", "hs256.go", "scope.go"], [("check sequence", "server.go Authorize")], SRVSTATE)
p("A02", "Only authenticated clients can obtain, inspect or revoke tokens",
  "At the token, introspection and revocation endpoints a request whose client is unknown, or is confidential and does not present exactly its secret, is answered with an error status, changes no server state and discloses nothing about any token. This holds for all grant types, token values and token type hints. Such a well-formed request gets 401 invalid_client.",
  ["inputs", "histories"], "every request and server state",
  "a few wrong secrets are tried per grant with one client",
  ["server.go"], [("client lookup and secret comparison", "server.go tokenEndpoint, introspectionEndpoint, revocationEndpoint")], SRVSTATE)
p("A03", "Redirects go only to the client's registered redirect URI",
  "The authorization endpoint redirects only when the request names a known client and exactly that client's registered redirect URI, and the redirect target is that URI with only response parameters added. Implicit-grant results and errors travel in the fragment, code-grant ones in the query, each with the request's state. All other failures are answered directly, without redirect.",
  ["inputs", "histories"], "every request and client registry",
  "one unregistered URI is tried",
  ["server.go", "oauth2.go", "error.go"], [("exact redirect URI comparison before any redirect", "server.go authorizationEndpoint"), ("redirecting errors", "server.go handleImplicitGrant, handleAuthorizationCodeGrantAuthorization")])
p("A04", "Credentials are issued only to entitled requests, correctly bound",
  "A new access token, refresh token or authorization code is recorded only in response to a POST with an entitlement for that grant: valid resource owner credentials (password, implicit, code authorization), a confidential authenticated client (client credentials), a redeemable code, or a redeemable refresh token. Its scope is the requested (or inherited) scope and, for direct grants, is included in the server's allowed scope; it is bound to the requesting client and the resource owner. At most one of each kind is issued per request, and the implicit grant never issues refresh tokens.",
  ["inputs", "histories"], "every request and server state",
  "happy paths and a few wrong values per grant are tested with one client, one user, one scope",
  ["server.go", "scope.go"], [("owner, confidentiality and scope checks in each grant", "server.go handle*Grant*"), ("recording", "server.go issueTokens")], SRVSTATE)
p("A05", "Authorization codes are redeemable once, by their client and URI",
  "An authorization code yields tokens only if it is authentic, recorded, never used before, unexpired, presented by the client it was issued to and with the redirect URI it was issued for; the tokens get the code's scope and resource owner. A successful redemption marks the code used, and no request ever clears that mark, so a code yields tokens at most once. Failed attempts leave the code and all tokens unchanged, except that presenting a used code revokes.",
  ["inputs", "histories"], "every request sequence and server state",
  "one code is redeemed and replayed once; clients, URIs and expiry are varied one at a time",
  ["server.go"], [("check sequence and used mark", "server.go handleAuthorizationCodeGrant")], SRVSTATE)
p("A06", "Replaying a used code revokes everything derived from it",
  "When an authenticated client presents an authorization code that was already used, the request is refused and afterwards no recorded access or refresh token descends from that code, including tokens obtained by refreshing. Tokens that do not descend from the code are untouched. Every token issued from a code or from a refresh token carries its descent.",
  ["histories", "inputs"], "every history of redemptions, refreshes and replays",
  "one replay directly after one redemption is tested; refreshes in between and unrelated tokens are not",
  ["server.go"], [("revocation loops over both token maps", "server.go handleAuthorizationCodeGrant"), ("descent recording", "server.go issueTokens, handleRefreshTokenGrant")], SRVSTATE)
p("A07", "Refresh tokens rotate and never widen privileges",
  "A refresh token yields new tokens only if it is authentic, recorded, unexpired and presented by the client it was issued to; the new tokens keep its resource owner and have the requested scope, which must be included in the refresh token's scope, or that scope itself when none is requested. A successful refresh removes the presented refresh token so it cannot be used again and leaves all other tokens in place. A failed refresh changes nothing.",
  ["inputs", "histories"], "every request sequence and server state",
  "one refresh and one reuse per grant are tested",
  ["server.go", "scope.go"], [("check sequence, scope inheritance, deletion", "server.go handleRefreshTokenGrant")], SRVSTATE)
p("A08", "Revocation removes exactly the presented token of its owner",
  "A revocation request by an authenticated client for an authentic token removes that token from the server if the client owns it, and is then answered 200, as is an authentic but unknown token. A token owned by another client is refused with 401 invalid_client and stays; an unsupported hint or inauthentic token is refused with 400. No other token, code, client or user is affected.",
  ["inputs", "histories"], "every request and server state",
  "one access and one refresh token are revoked and one wrong client is tried",
  ["server.go"], [("owner check then deletion", "server.go revocationEndpoint, revokeToken")], SRVSTATE)
p("A09", "Introspection is truthful, owner-only and read-only",
  "Introspection by an authenticated client reports an authentic token as active exactly when it is recorded and unexpired, with its recorded scope, client, user, kind and expiry; otherwise it reports an inactive token and nothing else. A recorded token owned by another client is refused with 401 invalid_client. Introspection never changes server state.",
  ["inputs", "histories"], "every request and server state",
  "only live or unknown tokens are introspected; expired ones never are, and fields other than activity and kind are barely checked",
  ["server.go", "introspection.go"], [("lookups, owner checks and response fields", "server.go introspectionEndpoint")], SRVSTATE)
p("A10", "Requests are serialised and the lock is always released",
  "Every access to the server's shared state while handling a request or authorizing a resource happens while that call exclusively holds the server's mutex, in one uninterrupted critical section, so concurrent requests behave as if executed one after another. The mutex is released exactly once on every path out of the call, including panics.",
  ["schedules", "fault_sequences"], "every interleaving of concurrent requests and every failure path",
  "the tests are sequential; a missing lock, an early unlock or a path that leaves the mutex locked goes unnoticed",
  ["server.go"], [("lock with deferred unlock", "server.go Authorize, ServeHTTP")], [("mutex", "guards all maps and credentials of the server", "server.go Server.Mutex")])
p("A11", "A failing random source leaves server state unchanged",
  "If the random source fails while the server handles a request, the request ends in a panic without having recorded, removed or marked any token or code and without having sent any response. A refresh token or authorization code being redeemed stays redeemable.",
  ["fault_sequences", "histories"], "every request, server state and failure point of the random source",
  "the server is never tested with a failing random source",
  ["server.go", "hs256.go"], [("all tokens are generated before any is stored", "server.go issueTokens; handleAuthorizationCodeGrantAuthorization; handleRefreshTokenGrant")], SRVSTATE)
p("A12", "No request can crash the server or corrupt its tables",
  "For every request the server's handler and resource authorization return normally with exactly one response sent (authorization sends none when it succeeds), provided the random source works; in particular no nil dereference, out-of-range access or invalid status occurs. The credential tables stay well-formed: present, distinct, and without empty entries.",
  ["inputs", "histories"], "every request, in every well-formed server state",
  "only well-behaved requests are sent in tests",
  ["server.go"], [("found-checks before every dereference, default route", "server.go")], SRVSTATE)
p("A13", "Advertised and enforced credential lifetimes match the configuration",
  "Every recorded access token, refresh token and authorization code expires exactly its configured lifespan after the moment of issue. The lifetime advertised to the client is the access token lifespan in whole seconds, never more than the enforced one. Request handling never extends a recorded expiry.",
  ["inputs", "configurations"], "every configuration and request",
  "the advertised number is compared with a constant; the recorded expiry of issued credentials is never checked",
  ["server.go"], [("expiry computation", "server.go issueTokens, handleAuthorizationCodeGrantAuthorization")])
p("A14", "Requests never alter existing credentials, clients or users",
  "Handling any request leaves clients, users and configuration untouched, and every existing token or code record keeps its client, user, scope, expiry, redirect URI and descent; records are only added, removed as specified by revocation, refresh and replay, or marked used by redemption. Authorization codes are never removed. Requests that are not POST never change any state.",
  ["inputs", "histories"], "every request and server state",
  "tests never compare the whole state before and after a request",
  ["server.go"], [("write sites", "server.go issueTokens, revokeToken, handle*Grant")], SRVSTATE)
p("A15", "Tokens handed out are exactly the ones recorded",
  "A successful token response (JSON or redirect) carries an access token, and for all but the implicit grant a refresh token, whose text is authentic under the server's secret and is recorded under its signature by that same request, together with token type bearer and the granted scope; a successful code response carries a code recorded likewise. Conversely a credential is recorded only if it is handed out in that response. Access and refresh token of one response are independently generated.",
  ["inputs", "histories"], "every request and server state",
  "tests use issued tokens once but never relate the response to the whole recorded state",
  ["server.go", "hs256.go", "token.go"], [("response preparation and recording", "server.go issueTokens, handleAuthorizationCodeGrantAuthorization")], SRVSTATE)
p("A16", "Requests are routed by their last path segment only",
  "A request is handled by the authorization, token, introspection or revocation endpoint exactly when its last path segment is authorize, token, introspect or revoke; all other requests get 404 and change nothing. Unknown grant types, response types and token type hints are refused with status 400 and change nothing. The known grant, response and token types are exactly the standard ones.",
  ["inputs"], "every path and type string",
  "tests use one path per endpoint and one unknown value per type",
  ["server.go", "oauth2.go"], [("path switch", "server.go ServeHTTP"), ("known-type switches", "oauth2.go KnownGrantType, KnownResponseType, KnownTokenType")])
p("A17", "Invalidated credentials stay invalid over any later history",
  "Whatever requests follow and however many, including ones that fail for want of randomness: an authorization code that was redeemed is never redeemed again, and once it is presented again by an authenticated client no token descending from it is ever recorded again; a refresh token that was exchanged or revoked is never exchanged again; a revoked access token never opens a protected resource and a revoked token is never reported active. The server stays well-formed with an unchanged configuration after every request. (New random tokens are taken to differ from all earlier ones.)",
  ["histories", "fault_sequences"], "every server state, every request, then every sequence of requests of any length, then every request",
  "the tests use a credential at most once or twice in a fixed order; what a long interleaving of issuing, refreshing, redeeming and revoking revives is never seen",
  ["server.go"], [("removal and marking of credentials", "server.go revokeToken, handleRefreshTokenGrant, handleAuthorizationCodeGrant"), ("admission", "server.go Authorize, introspectionEndpoint")], SRVSTATE)
p("A18", "Issued credentials are honoured exactly as granted",
  "What a successful response hands out works in the next request, until its expiry: an access token from a direct, code, refresh or implicit grant opens a protected resource exactly when the required scope is included in the scope it was granted for, and is reported active to its client; a refresh token from such a response can be exchanged by its client for new tokens; an authorization code can be redeemed by its client with the redirect URI it was issued for.",
  ["histories", "configurations"], "every server state and configuration, every issuing request and every following request",
  "the tests follow one issued credential per grant with one scope and one configuration",
  ["server.go", "hs256.go", "token.go"], [("recording of what is handed out", "server.go issueTokens, handleAuthorizationCodeGrantAuthorization, handleImplicitGrant"), ("lookup of what is presented", "server.go Authorize, tokenEndpoint, introspectionEndpoint")], SRVSTATE)
p("X01", "The conformance kit sends exactly the specified request",
  "The conformance kit's request helper delivers exactly one request to the handler under test, with the given method, path, headers, form parameters and, if a username is given, the Basic credentials, and then hands the recorded response to the callback exactly once. Merging parameter maps never modifies its inputs, and the extension wins on conflicts.",
  ["inputs"], "all request specifications",
  "the kit is only ever used, never itself tested",
  ["oauth2test/request.go", "oauth2test/utils.go"], [("request construction and dispatch", "oauth2test/request.go Do"), ("merging", "oauth2test/utils.go extend")])

p("X02", "The conformance kit reads answers truthfully",
  "The helpers that read a recorded response return exactly what it says, for every response: a JSON field's value if the body is a JSON object holding a field of that name and kind, else the empty value; the named parameter of the Location's query or fragment, panicking if the Location (or fragment) cannot be parsed; the value of the first challenge parameter of that name, unquoted, or nothing if there is no such parameter or challenge. They change nothing and crash on no response otherwise.",
  ["inputs"], "all recorded responses and field names",
  "the helpers see only the responses of one correct server; missing, mistyped or malformed answers are never read",
  ["oauth2test/utils.go"], [("JSON fields", "oauth2test/utils.go jsonField, jsonFieldBool, jsonFieldString, jsonFieldFloat"), ("redirect parameters and challenges", "oauth2test/utils.go fragment, query, auth")])
p("X03", "A passing conformance test has seen every required answer",
  "A conformance test that neither fails nor panics has sent each of its probes to the handler (wrong clients, secrets, scopes, tokens, codes, redirect URIs, malformed requests) and has seen the required status and error in each answer, and for each grant has obtained tokens with the expected type, scope and lifetime, used, introspected, refreshed, replayed and revoked them in that order, and seen spent, revoked and replayed ones refused. A failure once recorded stays. The given specification is never modified.",
  ["inputs", "histories"], "all handlers, however they answer, and all specifications",
  "the tests run against one correct server, so a check that has become too weak passes unnoticed",
  ["oauth2test/endpoints.go", "oauth2test/general.go", "oauth2test/grants.go"], [("token life cycles", "oauth2test/general.go AccessTokenTest, RefreshTokenTest"), ("endpoint probes", "oauth2test/endpoints.go *EndpointTest, ProtectedResourceTest"), ("grant probes", "oauth2test/grants.go *GrantTest")])
p("X04", "The conformance suite runs every enabled test",
  "Running the conformance suite executes, on the given test and specification, the protected resource test and every test of a supported grant and of a configured endpoint; it returns normally only if the specification is complete for what it enables and panics otherwise. The default specification has the common endpoints and lifetime, tokens and redirect URI that are invalid, and no grant support.",
  ["configurations", "inputs"], "all specifications and handlers",
  "the suite is run with one specification that enables everything",
  ["oauth2test/spec.go"], [("conditions and subtests", "oauth2test/spec.go Run"), ("defaults", "oauth2test/spec.go Default")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
