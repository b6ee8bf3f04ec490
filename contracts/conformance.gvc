// The conformance tests: a test that neither fails nor panics has seen the
// server answer as required. Do is the only way to reach the server.

define kitspec(spec) = spec != nil && spec.Handler != nil && spec.ConfidentialClientID != "" && spec.PublicClientID != "";
define distinctheaders(m) = (forall j: string, k: string :: j in m && k in m && canon(j) == canon(k) ==> j == k);
define kitheaders(spec) = distinctheaders(spec.ValidAuthorizationHeaders) && distinctheaders(spec.InvalidAuthorizationHeaders);
define basic(user, pass) = put(emptymm(), "Authorization", "Basic " + b64enc(stdb64(), user + ":" + pass));
define asclient(spec) = basic(spec.ConfidentialClientID, spec.ConfidentialClientSecret);
define bearer(token) = put(emptymm(), "Authorization", "Bearer " + token);
define asked(e, spec, method, path, header, form) = e.handler == spec.Handler && e.method == method && e.url == parsedurl(path) && e.header == header && e.form == form && e.body == "";
define posted(e, spec, path, header, form) = asked(e, spec, "POST", path, header, form);
define fetched(e, spec, header) = asked(e, spec, "GET", spec.ProtectedResource, header, emptymm());
define rejected(e, status, err) = e.status == status && kitstr(e.text, "error") == err;
define challenged(e, status, err) = e.status == status && kitauthof(e.rheader, "error") == err;
define realm(e) = kitauthof(e.rheader, "realm") != "";
define hinted(token, hint) = form("token", token, "token_type_hint", hint);


define demands(spec, path, header, params, status, err) = some(oauth2test.Do, e, rejected(e, status, err) && posted(e, spec, path, header, params));
define demandsrealm(spec, path, header, params, status, err) = some(oauth2test.Do, e, rejected(e, status, err) && realm(e) && posted(e, spec, path, header, params));
define denies(spec, header, status, err) = some(oauth2test.Do, e, challenged(e, status, err) && e.text == "" && fetched(e, spec, header));
define tests(c, t, spec) = reports(c.t, t) && c.spec == spec;

// Parameters laid over others, and headers taken as they are.
define merged(f, src, over) = (forall k: string :: f[k] == (over[k] != list() ? over[k] : (k in src ? list(src[k]) : list())));
define headersof(h, src) = (forall k: string :: k in src ==> h[canon(k)] == list(src[k])) && (forall n: string :: h[n] != list() ==> (exists k: string :: k in src && canon(k) == n));
define authorized(e, spec, headers, params, over) = e.handler == spec.Handler && e.method == "POST" && e.url == parsedurl(spec.AuthorizeEndpoint) && e.body == "" && headersof(e.header, headers) && merged(e.form, params, over);
define wish(spec, type, scope) = form("response_type", type, "client_id", spec.ConfidentialClientID, "redirect_uri", spec.PrimaryRedirectURI, "scope", scope, "state", "xyz");
define sentback(e) = e.status == 303 && parseok(kitlocation(e.rheader));
define fragmented(e, err) = sentback(e) && kitfragment(e.rheader, "error") == err && kitfragment(e.rheader, "state") == "xyz";
define queried(e, err) = sentback(e) && kitquery(e.rheader, "error") == err && kitquery(e.rheader, "state") == "xyz";

define password(spec, user, pass, scope) = form("grant_type", "password", "username", user, "password", pass, "scope", scope);
define credentials(scope) = form("grant_type", "client_credentials", "scope", scope);
define exchange(spec, code, uri) = form("grant_type", "authorization_code", "scope", spec.ValidScope, "code", code, "redirect_uri", uri);
define refreshing(token) = form("grant_type", "refresh_token", "refresh_token", token);
define rescoped(token, scope) = form("grant_type", "refresh_token", "refresh_token", token, "scope", scope);
define issued(e, spec) = e.status == 200 && kitstr(e.text, "token_type") == "bearer" && kitstr(e.text, "scope") == spec.ValidScope &&
  kitnum(e.text, "expires_in") == real(spec.ExpectedExpiresIn) && kitstr(e.text, "access_token") != "" && kitstr(e.text, "refresh_token") != "";
define bothtested(e, t, spec) =
  some(oauth2test.AccessTokenTest, c, c.accessToken == kitstr(e.text, "access_token") && tests(c, t, spec)) &&
  some(oauth2test.RefreshTokenTest, c, c.refreshToken == kitstr(e.text, "refresh_token") && tests(c, t, spec));
define grants(t, spec, params) = some(oauth2test.Do, e, issued(e, spec) && posted(e, spec, spec.TokenEndpoint, asclient(spec), params) && bothtested(e, t, spec));

func oauth2test.AccessTokenTest(t, spec, accessToken) () {
  requires "a test and a specification": t != nil && kitspec(spec);
  modifies failed(t), handled();
  event;
  panics true;
  ensures "failures are kept": old(failed(t)) ==> failed(t);
  ensures [X03] "the token opens the resource": !failed(t) ==>
    some(oauth2test.Do, e, e.status == 200 && fetched(e, spec, bearer(accessToken)));
  ensures [X03] "the token is active": !failed(t) && spec.IntrospectionEndpoint != "" ==>
    some(oauth2test.Do, e, e.status == 200 && posted(e, spec, spec.IntrospectionEndpoint, asclient(spec), hinted(accessToken, "access_token")) &&
      kitbool(e.text, "active") && kitstr(e.text, "token_type") == "access_token");
  ensures [X03] "a revoked token is refused and inactive": !failed(t) && spec.RevocationEndpoint != "" ==>
    some(oauth2test.Do, e, e.status == 200 && posted(e, spec, spec.RevocationEndpoint, asclient(spec), hinted(accessToken, "access_token")) &&
      some(oauth2test.Do, f, f.at > e.at && challenged(f, 401, "invalid_token") && fetched(f, spec, bearer(accessToken))) &&
      (spec.IntrospectionEndpoint != "" ==> some(oauth2test.Do, f, f.at > e.at && f.status == 200 && !kitbool(f.text, "active") &&
        posted(f, spec, spec.IntrospectionEndpoint, asclient(spec), hinted(accessToken, "access_token")))));
  frame [X03];
}

func oauth2test.RefreshTokenTest(t, spec, refreshToken) () {
  requires "a test and a specification": t != nil && kitspec(spec);
  modifies failed(t), handled();
  event;
  panics true;
  ensures "failures are kept": old(failed(t)) ==> failed(t);
  ensures [X03] "the token is active": !failed(t) && spec.IntrospectionEndpoint != "" ==>
    some(oauth2test.Do, e, e.status == 200 && posted(e, spec, spec.IntrospectionEndpoint, asclient(spec), hinted(refreshToken, "refresh_token")) &&
      kitbool(e.text, "active") && kitstr(e.text, "token_type") == "refresh_token");
  ensures [X03] "new tokens are issued and the old one is spent": !failed(t) ==>
    some(oauth2test.Do, e, issued(e, spec) && posted(e, spec, spec.TokenEndpoint, asclient(spec), refreshing(refreshToken)) &&
      some(oauth2test.AccessTokenTest, c, c.accessToken == kitstr(e.text, "access_token") && tests(c, t, spec)) &&
      some(oauth2test.Do, f, f.at > e.at && rejected(f, 400, "invalid_grant") && posted(f, spec, spec.TokenEndpoint, asclient(spec), refreshing(refreshToken))) &&
      (spec.IntrospectionEndpoint != "" ==> some(oauth2test.Do, f, f.at > e.at && f.status == 200 && !kitbool(f.text, "active") && posted(f, spec, spec.IntrospectionEndpoint, asclient(spec), hinted(refreshToken, "refresh_token")))));
  ensures [X03] "a revoked new token is refused and inactive": !failed(t) && spec.RevocationEndpoint != "" ==>
    some(oauth2test.Do, n, issued(n, spec) && posted(n, spec, spec.TokenEndpoint, asclient(spec), refreshing(refreshToken)) &&
      some(oauth2test.Do, e, e.at > n.at && e.status == 200 && posted(e, spec, spec.RevocationEndpoint, asclient(spec), hinted(kitstr(n.text, "refresh_token"), "refresh_token")) &&
        some(oauth2test.Do, f, f.at > e.at && rejected(f, 400, "invalid_grant") && posted(f, spec, spec.TokenEndpoint, asclient(spec), refreshing(kitstr(n.text, "refresh_token")))) &&
        (spec.IntrospectionEndpoint != "" ==> some(oauth2test.Do, f, f.at > e.at && f.status == 200 && !kitbool(f.text, "active") && posted(f, spec, spec.IntrospectionEndpoint, asclient(spec), hinted(kitstr(n.text, "refresh_token"), "refresh_token"))))));
  frame [X03];
}

func oauth2test.TokenEndpointTest(t, spec) () {
  requires "a test and a specification": t != nil && kitspec(spec);
  modifies failed(t), handled();
  event;
  panics true;
  ensures "failures are kept": old(failed(t)) ==> failed(t);
  ensures [X03] "empty request": !failed(t) ==>
    demands(spec, spec.TokenEndpoint, emptymm(), emptymm(), 400, "invalid_request");
  ensures [X03] "unknown client": !failed(t) ==>
    demands(spec, spec.TokenEndpoint, basic("unknown", ""), form("grant_type", "password"), 401, "invalid_client");
  ensures [X03] "invalid grant type": !failed(t) ==>
    demands(spec, spec.TokenEndpoint, asclient(spec), form("grant_type", "invalid"), 400, "invalid_request");
  frame [X03];
}

func oauth2test.AuthorizationEndpointTest(t, spec) () {
  requires "a test and a specification": t != nil && kitspec(spec);
  modifies failed(t), handled();
  event;
  panics true;
  ensures "failures are kept": old(failed(t)) ==> failed(t);
  ensures [X03] "empty request": !failed(t) ==>
    demands(spec, spec.AuthorizeEndpoint, emptymm(), emptymm(), 400, "invalid_request");
  ensures [X03] "invalid client": !failed(t) ==>
    demandsrealm(spec, spec.AuthorizeEndpoint, emptymm(), form("response_type", "code", "client_id", "invalid", "redirect_uri", spec.PrimaryRedirectURI), 401, "invalid_client");
  ensures [X03] "invalid redirect URI": !failed(t) ==>
    demands(spec, spec.AuthorizeEndpoint, emptymm(), form("response_type", "code", "client_id", spec.ConfidentialClientID, "redirect_uri", spec.InvalidRedirectURI), 400, "invalid_request");
  ensures [X03] "invalid response type": !failed(t) ==>
    demands(spec, spec.AuthorizeEndpoint, basic(spec.ConfidentialClientID, ""), form("response_type", "invalid", "client_id", spec.ConfidentialClientID, "redirect_uri", spec.PrimaryRedirectURI), 400, "invalid_request");
  ensures [X03] "a GET request is answered": !failed(t) ==>
    some(oauth2test.Do, e, e.status != 404 && asked(e, spec, "GET", spec.AuthorizeEndpoint, basic(spec.ConfidentialClientID, ""), form("response_type", "token", "client_id", spec.ConfidentialClientID, "redirect_uri", spec.PrimaryRedirectURI)));
  frame [X03];
}

func oauth2test.RevocationEndpointTest(t, spec) () {
  requires "a test and a specification": t != nil && kitspec(spec);
  modifies failed(t), handled();
  event;
  panics true;
  ensures "failures are kept": old(failed(t)) ==> failed(t);
  ensures [X03] "empty request": !failed(t) ==>
    demands(spec, spec.RevocationEndpoint, emptymm(), emptymm(), 400, "invalid_request");
  ensures [X03] "missing client": !failed(t) ==>
    demands(spec, spec.RevocationEndpoint, emptymm(), form("token", spec.ValidToken), 400, "invalid_request");
  ensures [X03] "missing token": !failed(t) ==>
    demands(spec, spec.RevocationEndpoint, asclient(spec), emptymm(), 400, "invalid_request");
  ensures [X03] "invalid token type hint": !failed(t) ==>
    demands(spec, spec.RevocationEndpoint, asclient(spec), hinted(spec.ValidToken, "invalid"), 400, "unsupported_token_type");
  ensures [X03] "unknown client": !failed(t) ==>
    demandsrealm(spec, spec.RevocationEndpoint, basic("unknown", ""), form("token", spec.ValidToken), 401, "invalid_client");
  ensures [X03] "unauthenticated client": !failed(t) ==>
    demandsrealm(spec, spec.RevocationEndpoint, basic(spec.ConfidentialClientID, ""), form("token", spec.ValidToken), 401, "invalid_client");
  ensures [X03] "wrong client": !failed(t) ==>
    demands(spec, spec.RevocationEndpoint, basic(spec.PublicClientID, ""), form("token", spec.ValidToken), 401, "invalid_client");
  ensures [X03] "invalid token": !failed(t) ==>
    demands(spec, spec.RevocationEndpoint, asclient(spec), form("token", spec.InvalidToken), 400, "invalid_request");
  ensures [X03] "unknown token": !failed(t) ==>
    some(oauth2test.Do, e, e.status == 200 && posted(e, spec, spec.RevocationEndpoint, asclient(spec), form("token", spec.UnknownToken)));
  ensures [X03] "revoking the valid token": !failed(t) ==>
    some(oauth2test.AccessTokenTest, c, c.accessToken == spec.ValidToken && tests(c, t, spec));
  frame [X03];
}

func oauth2test.IntrospectionEndpointTest(t, spec) () {
  requires "a test and a specification": t != nil && kitspec(spec);
  modifies failed(t), handled();
  event;
  panics true;
  ensures "failures are kept": old(failed(t)) ==> failed(t);
  ensures [X03] "wrong method": !failed(t) ==>
    some(oauth2test.Do, e, rejected(e, 400, "invalid_request") && asked(e, spec, "GET", spec.IntrospectionEndpoint, emptymm(), emptymm()));
  ensures [X03] "empty request": !failed(t) ==>
    demands(spec, spec.IntrospectionEndpoint, emptymm(), emptymm(), 400, "invalid_request");
  ensures [X03] "missing client": !failed(t) ==>
    demands(spec, spec.IntrospectionEndpoint, emptymm(), form("token", spec.ValidToken), 400, "invalid_request");
  ensures [X03] "missing token": !failed(t) ==>
    demands(spec, spec.IntrospectionEndpoint, asclient(spec), emptymm(), 400, "invalid_request");
  ensures [X03] "invalid token type hint": !failed(t) ==>
    demands(spec, spec.IntrospectionEndpoint, asclient(spec), hinted(spec.ValidToken, "invalid"), 400, "unsupported_token_type");
  ensures [X03] "unknown client": !failed(t) ==>
    demandsrealm(spec, spec.IntrospectionEndpoint, basic("unknown", ""), form("token", spec.ValidToken), 401, "invalid_client");
  ensures [X03] "unauthenticated client": !failed(t) ==>
    demandsrealm(spec, spec.IntrospectionEndpoint, basic(spec.ConfidentialClientID, ""), form("token", spec.ValidToken), 401, "invalid_client");
  ensures [X03] "wrong client": !failed(t) ==>
    demands(spec, spec.IntrospectionEndpoint, basic(spec.PublicClientID, ""), form("token", spec.ValidToken), 401, "invalid_client");
  ensures [X03] "invalid token": !failed(t) ==>
    demands(spec, spec.IntrospectionEndpoint, asclient(spec), form("token", spec.InvalidToken), 400, "invalid_request");
  ensures [X03] "unknown token": !failed(t) ==>
    some(oauth2test.Do, e, e.status == 200 && posted(e, spec, spec.IntrospectionEndpoint, asclient(spec), form("token", spec.UnknownToken)));
  ensures [X03] "valid access token": !failed(t) ==>
    some(oauth2test.Do, e, e.status == 200 && kitbool(e.text, "active") && posted(e, spec, spec.IntrospectionEndpoint, asclient(spec), hinted(spec.ValidToken, "access_token")));
  frame [X03];
}

func oauth2test.ProtectedResourceTest(t, spec) () {
  requires "a test and a specification": t != nil && kitspec(spec);
  modifies failed(t), handled();
  event;
  panics true;
  ensures "failures are kept": old(failed(t)) ==> failed(t);
  ensures [X03] "missing token": !failed(t) ==>
    some(oauth2test.Do, e, e.status == 401 && realm(e) && e.text == "" && fetched(e, spec, emptymm()));
  ensures [X03] "invalid header": !failed(t) ==>
    denies(spec, put(emptymm(), "Authorization", "invalid"), 400, "invalid_request");
  ensures [X03] "invalid token": !failed(t) ==>
    denies(spec, bearer(spec.InvalidToken), 401, "invalid_token");
  ensures [X03] "unknown token": !failed(t) ==>
    denies(spec, bearer(spec.UnknownToken), 401, "invalid_token");
  ensures [X03] "expired token": !failed(t) ==>
    denies(spec, bearer(spec.ExpiredToken), 401, "invalid_token");
  ensures [X03] "insufficient token": !failed(t) ==>
    denies(spec, bearer(spec.InsufficientToken), 403, "insufficient_scope");
  frame [X03];
}

func oauth2test.PasswordGrantTest(t, spec) () {
  requires "a test and a specification": t != nil && kitspec(spec);
  modifies failed(t), handled();
  event;
  panics true;
  ensures "failures are kept": old(failed(t)) ==> failed(t);
  ensures [X03] "invalid client secret": !failed(t) ==>
    demands(spec, spec.TokenEndpoint, basic(spec.ConfidentialClientID, "invalid"), password(spec, spec.ResourceOwnerUsername, spec.ResourceOwnerPassword, spec.ValidScope), 401, "invalid_client");
  ensures [X03] "invalid username": !failed(t) ==>
    demands(spec, spec.TokenEndpoint, asclient(spec), password(spec, "invalid", spec.ResourceOwnerPassword, spec.ValidScope), 403, "access_denied");
  ensures [X03] "invalid password": !failed(t) ==>
    demands(spec, spec.TokenEndpoint, asclient(spec), password(spec, spec.ResourceOwnerUsername, "invalid", spec.ValidScope), 403, "access_denied");
  ensures [X03] "invalid scope": !failed(t) ==>
    demands(spec, spec.TokenEndpoint, asclient(spec), password(spec, spec.ResourceOwnerUsername, spec.ResourceOwnerPassword, spec.InvalidScope), 400, "invalid_scope");
  ensures [X03] "exceeding scope": !failed(t) ==>
    demands(spec, spec.TokenEndpoint, asclient(spec), password(spec, spec.ResourceOwnerUsername, spec.ResourceOwnerPassword, spec.ExceedingScope), 400, "invalid_scope");
  ensures [X03] "tokens are issued and work": !failed(t) ==>
    grants(t, spec, password(spec, spec.ResourceOwnerUsername, spec.ResourceOwnerPassword, spec.ValidScope));
  frame [X03];
}

func oauth2test.ClientCredentialsGrantTest(t, spec) () {
  requires "a test and a specification": t != nil && kitspec(spec);
  modifies failed(t), handled();
  event;
  panics true;
  ensures "failures are kept": old(failed(t)) ==> failed(t);
  ensures [X03] "invalid client secret": !failed(t) ==>
    demandsrealm(spec, spec.TokenEndpoint, basic(spec.ConfidentialClientID, "invalid"), credentials(spec.ValidScope), 401, "invalid_client");
  ensures [X03] "public client": !failed(t) ==>
    demandsrealm(spec, spec.TokenEndpoint, basic(spec.PublicClientID, ""), credentials(spec.ValidScope), 401, "invalid_client");
  ensures [X03] "invalid scope": !failed(t) ==>
    demands(spec, spec.TokenEndpoint, asclient(spec), credentials(spec.InvalidScope), 400, "invalid_scope");
  ensures [X03] "exceeding scope": !failed(t) ==>
    demands(spec, spec.TokenEndpoint, asclient(spec), credentials(spec.ExceedingScope), 400, "invalid_scope");
  ensures [X03] "tokens are issued and work": !failed(t) ==>
    grants(t, spec, credentials(spec.ValidScope));
  frame [X03];
}

func oauth2test.ImplicitGrantTest(t, spec) () {
  requires "a test and a specification": t != nil && kitspec(spec) && kitheaders(spec);
  modifies failed(t), handled();
  event;
  panics true;
  ensures "failures are kept": old(failed(t)) ==> failed(t);
  ensures [X03] "invalid scope": !failed(t) ==>
    some(oauth2test.Do, e, fragmented(e, "invalid_scope") && authorized(e, spec, spec.ValidAuthorizationHeaders, spec.ValidAuthorizationParams, wish(spec, "token", spec.InvalidScope)));
  ensures [X03] "exceeding scope": !failed(t) ==>
    some(oauth2test.Do, e, fragmented(e, "invalid_scope") && authorized(e, spec, spec.ValidAuthorizationHeaders, spec.ValidAuthorizationParams, wish(spec, "token", spec.ExceedingScope)));
  ensures [X03] "invalid owner credentials": !failed(t) ==>
    some(oauth2test.Do, e, fragmented(e, "access_denied") && authorized(e, spec, spec.InvalidAuthorizationHeaders, spec.InvalidAuthorizationParams, wish(spec, "token", spec.ValidScope)));
  ensures [X03] "no owner credentials": !failed(t) ==>
    some(oauth2test.Do, e, fragmented(e, "access_denied") && posted(e, spec, spec.AuthorizeEndpoint, emptymm(), wish(spec, "token", spec.ValidScope)));
  ensures [X03] "a token is issued and works": !failed(t) ==>
    some(oauth2test.Do, e, sentback(e) && kitfragment(e.rheader, "token_type") == "bearer" && kitfragment(e.rheader, "scope") == spec.ValidScope &&
      kitfragment(e.rheader, "expires_in") == itoa(spec.ExpectedExpiresIn) && kitfragment(e.rheader, "state") == "xyz" && kitfragment(e.rheader, "refresh_token") == "" &&
      kitfragment(e.rheader, "access_token") != "" && authorized(e, spec, spec.ValidAuthorizationHeaders, spec.ValidAuthorizationParams, wish(spec, "token", spec.ValidScope)) &&
      some(oauth2test.AccessTokenTest, c, c.accessToken == kitfragment(e.rheader, "access_token") && tests(c, t, spec)));
  frame [X03];
}

func oauth2test.AuthorizationCodeGrantTest(t, spec) () {
  requires "a test and a specification": t != nil && kitspec(spec) && kitheaders(spec);
  modifies failed(t), handled();
  event;
  panics true;
  ensures "failures are kept": old(failed(t)) ==> failed(t);
  ensures [X03] "invalid scope": !failed(t) ==>
    some(oauth2test.Do, e, queried(e, "invalid_scope") && authorized(e, spec, spec.ValidAuthorizationHeaders, spec.ValidAuthorizationParams, wish(spec, "code", spec.InvalidScope)));
  ensures [X03] "exceeding scope": !failed(t) ==>
    some(oauth2test.Do, e, queried(e, "invalid_scope") && authorized(e, spec, spec.ValidAuthorizationHeaders, spec.ValidAuthorizationParams, wish(spec, "code", spec.ExceedingScope)));
  ensures [X03] "invalid owner credentials": !failed(t) ==>
    some(oauth2test.Do, e, queried(e, "access_denied") && authorized(e, spec, spec.InvalidAuthorizationHeaders, spec.InvalidAuthorizationParams, wish(spec, "code", spec.ValidScope)));
  ensures [X03] "no owner credentials": !failed(t) ==>
    some(oauth2test.Do, e, queried(e, "access_denied") && posted(e, spec, spec.AuthorizeEndpoint, emptymm(), wish(spec, "code", spec.ValidScope)));
  ensures [X03] "invalid client secret": !failed(t) ==>
    demands(spec, spec.TokenEndpoint, basic(spec.ConfidentialClientID, "invalid"), exchange(spec, spec.InvalidAuthorizationCode, spec.PrimaryRedirectURI), 401, "invalid_client");
  ensures [X03] "invalid code": !failed(t) ==>
    demands(spec, spec.TokenEndpoint, asclient(spec), exchange(spec, spec.InvalidAuthorizationCode, spec.PrimaryRedirectURI), 400, "invalid_request");
  ensures [X03] "unknown code": !failed(t) ==>
    demands(spec, spec.TokenEndpoint, asclient(spec), exchange(spec, spec.UnknownAuthorizationCode, spec.PrimaryRedirectURI), 400, "invalid_grant");
  ensures [X03] "expired code": !failed(t) ==>
    demands(spec, spec.TokenEndpoint, asclient(spec), exchange(spec, spec.ExpiredAuthorizationCode, spec.PrimaryRedirectURI), 400, "invalid_grant");
  ensures [X03] "a code is bound to its client and redirect URI and works": !failed(t) ==>
    some(oauth2test.Do, a, sentback(a) && kitquery(a.rheader, "state") == "xyz" && kitquery(a.rheader, "code") != "" && authorized(a, spec, spec.ValidAuthorizationHeaders, spec.ValidAuthorizationParams, wish(spec, "code", spec.ValidScope)) &&
      some(oauth2test.Do, e, rejected(e, 400, "invalid_grant") && e.at > a.at && posted(e, spec, spec.TokenEndpoint, basic(spec.PublicClientID, ""), exchange(spec, kitquery(a.rheader, "code"), spec.PrimaryRedirectURI))) &&
      some(oauth2test.Do, e, rejected(e, 400, "invalid_grant") && e.at > a.at && posted(e, spec, spec.TokenEndpoint, asclient(spec), exchange(spec, kitquery(a.rheader, "code"), spec.SecondaryRedirectURI))) &&
      some(oauth2test.Do, e, issued(e, spec) && e.at > a.at && posted(e, spec, spec.TokenEndpoint, asclient(spec), exchange(spec, kitquery(a.rheader, "code"), spec.PrimaryRedirectURI)) && bothtested(e, t, spec)));
  ensures [X03] "a replayed code is refused": !failed(t) ==>
    some(oauth2test.Do, a, sentback(a) && kitquery(a.rheader, "state") == "xyz" && kitquery(a.rheader, "code") != "" && authorized(a, spec, spec.ValidAuthorizationHeaders, spec.ValidAuthorizationParams, wish(spec, "code", spec.ValidScope)) &&
      some(oauth2test.Do, e, issued(e, spec) && e.at > a.at && posted(e, spec, spec.TokenEndpoint, asclient(spec), exchange(spec, kitquery(a.rheader, "code"), spec.PrimaryRedirectURI)) &&
        some(oauth2test.Do, f, rejected(f, 400, "invalid_grant") && f.at > e.at && posted(f, spec, spec.TokenEndpoint, asclient(spec), exchange(spec, kitquery(a.rheader, "code"), spec.PrimaryRedirectURI)) &&
          (spec.CodeReplayMitigation ==>
            some(oauth2test.Do, g, g.at > f.at && g.status == 401 && fetched(g, spec, bearer(kitstr(e.text, "access_token")))) &&
            some(oauth2test.Do, g, g.at > f.at && rejected(g, 400, "invalid_grant") && posted(g, spec, spec.TokenEndpoint, asclient(spec), refreshing(kitstr(e.text, "refresh_token"))))))));
  frame [X03];
}

func oauth2test.RefreshTokenGrantTest(t, spec) () {
  requires "a test and a specification": t != nil && kitspec(spec);
  modifies failed(t), handled();
  event;
  panics true;
  ensures "failures are kept": old(failed(t)) ==> failed(t);
  ensures [X03] "invalid client secret": !failed(t) ==>
    demands(spec, spec.TokenEndpoint, basic(spec.ConfidentialClientID, "invalid"), refreshing(spec.ValidRefreshToken), 401, "invalid_client");
  ensures [X03] "invalid refresh token": !failed(t) ==>
    demands(spec, spec.TokenEndpoint, asclient(spec), refreshing(spec.InvalidRefreshToken), 400, "invalid_request");
  ensures [X03] "unknown refresh token": !failed(t) ==>
    demands(spec, spec.TokenEndpoint, asclient(spec), refreshing(spec.UnknownRefreshToken), 400, "invalid_grant");
  ensures [X03] "expired refresh token": !failed(t) ==>
    demands(spec, spec.TokenEndpoint, asclient(spec), refreshing(spec.ExpiredRefreshToken), 400, "invalid_grant");
  ensures [X03] "wrong client": !failed(t) ==>
    demands(spec, spec.TokenEndpoint, basic(spec.PublicClientID, ""), refreshing(spec.ValidRefreshToken), 400, "invalid_grant");
  ensures [X03] "exceeding scope": !failed(t) ==>
    demands(spec, spec.TokenEndpoint, asclient(spec), rescoped(spec.ValidRefreshToken, spec.ExceedingScope), 400, "invalid_scope");
  ensures [X03] "the valid token works": !failed(t) ==>
    some(oauth2test.RefreshTokenTest, c, c.refreshToken == spec.ValidRefreshToken && tests(c, t, spec));
  frame [X03];
}

// The suite as a whole.

define kitbasics(spec) = spec.Handler != nil && spec.TokenEndpoint != "" && spec.AuthorizeEndpoint != "" && spec.ProtectedResource != "" &&
  spec.ConfidentialClientID != "" && spec.ConfidentialClientSecret != "" && spec.PublicClientID != "" &&
  spec.InvalidScope != "" && spec.ValidScope != "" && spec.ExceedingScope != "" &&
  spec.InvalidToken != "" && spec.ValidToken != "" && spec.UnknownToken != "" && spec.ExpiredToken != "";
define kitredirects(spec) = spec.ImplicitGrantSupport || spec.AuthorizationCodeGrantSupport;
define kittokens(spec) = spec.PasswordGrantSupport || spec.ClientCredentialsGrantSupport || spec.AuthorizationCodeGrantSupport || spec.RefreshTokenGrantSupport;
define kitcomplete(spec) = kitbasics(spec) &&
  (kitredirects(spec) ==> spec.InvalidRedirectURI != "" && spec.PrimaryRedirectURI != "" && spec.SecondaryRedirectURI != "" &&
    (spec.InvalidAuthorizationParams != nil || spec.InvalidAuthorizationHeaders != nil) && (spec.ValidAuthorizationParams != nil || spec.ValidAuthorizationHeaders != nil)) &&
  (spec.PasswordGrantSupport ==> spec.ResourceOwnerUsername != "" && spec.ResourceOwnerPassword != "") &&
  (spec.AuthorizationCodeGrantSupport ==> spec.InvalidAuthorizationCode != "" && spec.UnknownAuthorizationCode != "" && spec.ExpiredAuthorizationCode != "") &&
  (spec.RefreshTokenGrantSupport ==> spec.InvalidRefreshToken != "" && spec.UnknownRefreshToken != "" && spec.ValidRefreshToken != "" && spec.ExpiredRefreshToken != "");

func oauth2test.Run(t, spec) () {
  requires "a test and a specification": t != nil && spec != nil && kitheaders(spec);
  modifies failed(t), handled();
  panics true;
  ensures "failures are kept": old(failed(t)) ==> failed(t);
  ensures [X04] "an incomplete specification is refused": kitcomplete(spec);
  ensures [X04] "ProtectedResourceTest is run": some(oauth2test.ProtectedResourceTest, c, tests(c, t, spec));
  ensures [X04] "TokenEndpointTest is run": kittokens(spec) ==> some(oauth2test.TokenEndpointTest, c, tests(c, t, spec));
  ensures [X04] "AuthorizationEndpointTest is run": kitredirects(spec) ==> some(oauth2test.AuthorizationEndpointTest, c, tests(c, t, spec));
  ensures [X04] "PasswordGrantTest is run": spec.PasswordGrantSupport ==> some(oauth2test.PasswordGrantTest, c, tests(c, t, spec));
  ensures [X04] "ClientCredentialsGrantTest is run": spec.ClientCredentialsGrantSupport ==> some(oauth2test.ClientCredentialsGrantTest, c, tests(c, t, spec));
  ensures [X04] "ImplicitGrantTest is run": spec.ImplicitGrantSupport ==> some(oauth2test.ImplicitGrantTest, c, tests(c, t, spec));
  ensures [X04] "AuthorizationCodeGrantTest is run": spec.AuthorizationCodeGrantSupport ==> some(oauth2test.AuthorizationCodeGrantTest, c, tests(c, t, spec));
  ensures [X04] "RefreshTokenGrantTest is run": spec.RefreshTokenGrantSupport ==> some(oauth2test.RefreshTokenGrantTest, c, tests(c, t, spec));
  ensures [X04] "IntrospectionEndpointTest is run": spec.IntrospectionEndpoint != "" ==> some(oauth2test.IntrospectionEndpointTest, c, tests(c, t, spec));
  ensures [X04] "RevocationEndpointTest is run": spec.RevocationEndpoint != "" ==> some(oauth2test.RevocationEndpointTest, c, tests(c, t, spec));
  safe [X04]; frame [X04];
}

func oauth2test.Default(handler) (spec) {
  case always {
    new spec : Spec;
    ensures [X04] "the common endpoints": spec.Handler == handler && spec.TokenEndpoint == "/oauth2/token" && spec.AuthorizeEndpoint == "/oauth2/authorize" &&
      spec.RevocationEndpoint == "/oauth2/revoke" && spec.IntrospectionEndpoint == "/oauth2/introspect" && spec.ProtectedResource == "/api/protected" && spec.ExpectedExpiresIn == 3600;
    ensures [X04] "values no server accepts": spec.InvalidToken == "invalid" && spec.InvalidRefreshToken == "invalid" && spec.InvalidRedirectURI == "http://invalid.com";
    ensures [X04] "no grant is assumed": !spec.PasswordGrantSupport && !spec.ClientCredentialsGrantSupport && !spec.ImplicitGrantSupport && !spec.AuthorizationCodeGrantSupport && !spec.RefreshTokenGrantSupport && !spec.CodeReplayMitigation;
  }
  safe [X04]; frame [X04];
}
