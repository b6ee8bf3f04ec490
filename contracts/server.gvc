// The authentication server.

define AT(s) = s.AccessTokens;
define RT(s) = s.RefreshTokens;
define AC(s) = s.AuthorizationCodes;
define secret(s) = bytes(s.Config.Secret);

// Well-formed state: tables present, distinct and without empty entries; no
// signature names both an access and a refresh token; codes do not share records.
define tables(s) =
  s.Clients != nil && s.Users != nil && AT(s) != nil && RT(s) != nil && AC(s) != nil &&
  distinct(s.Clients, s.Users) && distinct(AT(s), RT(s), AC(s));
define noempty(s) =
  (forall k: string :: k in s.Clients ==> s.Clients[k] != nil) && (forall k: string :: k in s.Users ==> s.Users[k] != nil) &&
  (forall k: string :: k in AT(s) ==> AT(s)[k] != nil) && (forall k: string :: k in RT(s) ==> RT(s)[k] != nil) &&
  (forall k: string :: k in AC(s) ==> AC(s)[k] != nil);
define disjoint(s) = forall k: string :: !(k in AT(s) && k in RT(s));
define unshared(s) = forall j: string, k: string :: j in AC(s) && k in AC(s) && AC(s)[j] == AC(s)[k] ==> j == k;
define wf(s) = tables(s) && noempty(s) && disjoint(s) && unshared(s);

// The i-th reading of the random source as a token of this server.
define rkey(s, i) = rnd(i, s.Config.KeyLength);
define rtext(s, i) = tokentext(rkey(s, i), hmac256(secret(s), rkey(s, i)));
define rsig(s, i) = b64enc(rawurl(), hmac256(secret(s), rkey(s, i)));
// Cryptographic assumption: upcoming random tokens are new and distinct.
define unrecorded(s, i) = !(rsig(s, i) in AT(s)) && !(rsig(s, i) in RT(s)) && !(rsig(s, i) in AC(s));
define newrandom(s, i) = unrecorded(s, i) && unrecorded(s, i + 1) && rsig(s, i) != rsig(s, i + 1);

func DefaultServerConfig(secret, allowed) (c) {
  ensures [A13] "default lifespans": c.AccessTokenLifespan == 3600000000000 && c.RefreshTokenLifespan == 604800000000000 && c.AuthorizationCodeLifespan == 600000000000;
  ensures [A12] "usable key length": c.KeyLength == 16;
  ensures [A12] "keeps the arguments": c.Secret == secret && c.AllowedScope == allowed;
  safe [A12]; frame [A12];
}

func NewServer(config) (s) {
  case always {
    new s : Server;
    ensures [A12] "well-formed and empty": wf(s) && dom(AT(s)) == emptyset() && dom(RT(s)) == emptyset() && dom(AC(s)) == emptyset() &&
      dom(s.Clients) == emptyset() && dom(s.Users) == emptyset();
    ensures [A12] "keeps the configuration": s.Config == config;
    ensures [A10] "not locked": locked(s.Mutex) == 0;
  }
  safe [A12]; frame [A12];
}

// ----- protected resources -----

define btext(r) = bearertoken(authheader(r));
define recorded(s, r) = bearerok(authheader(r)) && authentic(secret(s), btext(r)) && sigtext(btext(r)) in AT(s);
define brec(s, r) = AT(s)[sigtext(btext(r))];
define challengeof(mm) = let p := challengeparams(mm); "Bearer " + (p == "" ? "realm=\"OAuth2\"" : p);
define challenge(w, name) = exists d: string :: sent(w) == old(put(content(whdr(w)), "Www-Authenticate", challengeof(putif(d != "", put(emptymm(), "error", name), "error_description", d))));

func Server.Authorize(s, w, r, required) (ok) {
  requires "server": s != nil && wf(s) && locked(s.Mutex) == 0;
  requires "fresh response": unstarted(w);
  requires "request": r != nil;
  modifies writer(w), lock(s.Mutex), ghost(clock);
  ensures [A01] "only with a live sufficient token": ok ==> old(recorded(s, r)) && old(brec(s, r).ExpiresAt) >= old(ghost(clock)) && old(sincludes(strs(brec(s, r).Scope), strs(required)));
  ensures [A01] "always with a live sufficient token": old(recorded(s, r)) && old(brec(s, r).ExpiresAt) >= ghost(clock) && old(sincludes(strs(brec(s, r).Scope), strs(required))) ==> ok;
  ensures [A01] "nothing written on success": ok ==> unstarted(w) && content(whdr(w)) == old(content(whdr(w)));
  ensures [A01 A12] "a response has been sent on failure": !ok ==> headercalls(w) == 1 && body(w) == "";
  ensures [A01] "missing credentials": old(authheader(r)) == "" ==> status(w) == 401 && sent(w) == old(put(content(whdr(w)), "Www-Authenticate", "Bearer realm=\"OAuth2\""));
  ensures [A01] "malformed credentials": old(authheader(r) != "" && !bearerok(authheader(r))) ==> status(w) == 400 && challenge(w, "invalid_request");
  ensures [A01] "inauthentic or unknown tokens": old(bearerok(authheader(r)) && !recorded(s, r)) ==> status(w) == 401 && challenge(w, "invalid_token");
  ensures [A01] "expired tokens": old(recorded(s, r)) && old(brec(s, r).ExpiresAt) < old(ghost(clock)) ==> status(w) == 401 && challenge(w, "invalid_token");
  ensures [A01] "insufficient scope": old(recorded(s, r)) && old(brec(s, r).ExpiresAt) >= ghost(clock) && !old(sincludes(strs(brec(s, r).Scope), strs(required))) ==> status(w) == 403 &&
    sent(w) == old(put(content(whdr(w)), "Www-Authenticate", challengeof(putif(len(required) > 0, put(emptymm(), "error", "insufficient_scope"), "scope", join(strs(required), " ")))));
  ensures [A10] "released": locked(s.Mutex) == 0 && ghost(locks) == old(ghost(locks)) + 1;
  exsures [A10] "released": locked(s.Mutex) == 0;
  guard [A10] s.Mutex : ServerCredential;
  safe [A01 A12]; frame [A01];
}

// ----- request handling -----

define lastpart(p, sep) = let i := lastindex(p, sep); i >= 0 ? substr(p, i + 1, len(p) - (i + 1)) : p;
define segment(r) = lastpart(r.URL.Path, "/");
define onauthorize(r) = segment(r) == "authorize";
define ontoken(r) = segment(r) == "token";
define onintrospect(r) = segment(r) == "introspect";
define onrevoke(r) = segment(r) == "revoke";
define routed(r) = onauthorize(r) || ontoken(r) || onintrospect(r) || onrevoke(r);

// Clients and resource owners.
define clientok(s, id, sec) = id in s.Clients && (!s.Clients[id].Confidential || s.Clients[id].Secret == sec);
define userok(s, name, pw) = name in s.Users && s.Users[name].Secret == pw;
define allowed(s, sc) = sincludes(strs(s.Config.AllowedScope), sc);

// Token requests.
define grant(r) = bval(r, "grant_type");
define tclient(r) = tokenclient(r);
define tscope(r) = parsescope(bval(r, "scope"));
define knowngrant(g) = g == "password" || g == "client_credentials" || g == "authorization_code" || g == "refresh_token";
define twell(r) = ontoken(r) && tokenok(r) && knowngrant(grant(r));
define tauth(s, r) = twell(r) && clientok(s, tclient(r), tokensecret(r));

define passwordok(s, r) = tauth(s, r) && grant(r) == "password" && userok(s, bval(r, "username"), bval(r, "password")) && allowed(s, tscope(r));
define credentialsok(s, r) = tauth(s, r) && grant(r) == "client_credentials" && s.Clients[tclient(r)].Confidential && allowed(s, tscope(r));

define ccode(r) = bval(r, "code");
define csig(r) = sigtext(ccode(r));
define crec(s, r) = AC(s)[csig(r)];
define oncode(s, r) = tauth(s, r) && grant(r) == "authorization_code";
define knowncode(s, r) = oncode(s, r) && authentic(secret(s), ccode(r)) && csig(r) in AC(s);
define replayed(s, r) = knowncode(s, r) && crec(s, r).Used;
define codeat(s, r, t) = knowncode(s, r) && !crec(s, r).Used && crec(s, r).ExpiresAt >= t && crec(s, r).ClientID == tclient(r) && crec(s, r).RedirectURI == unq(bval(r, "redirect_uri"));

define rtok(r) = bval(r, "refresh_token");
define rtsig(r) = sigtext(rtok(r));
define rrec(s, r) = RT(s)[rtsig(r)];
define onrefresh(s, r) = tauth(s, r) && grant(r) == "refresh_token";
define rscope(s, r) = tscope(r) == list() ? strs(rrec(s, r).Scope) : tscope(r);
define refreshat(s, r, t) = onrefresh(s, r) && authentic(secret(s), rtok(r)) && rtsig(r) in RT(s) && rrec(s, r).ExpiresAt >= t && rrec(s, r).ClientID == tclient(r) &&
  (tscope(r) == list() || sincludes(strs(rrec(s, r).Scope), tscope(r)));

define tokengrantat(s, r, t) = passwordok(s, r) || credentialsok(s, r) || codeat(s, r, t) || refreshat(s, r, t);

// Authorization requests.
define aclient(r) = fval(r, "client_id");
define auri(r) = unq(fval(r, "redirect_uri"));
define astate(r) = fval(r, "state");
define atype(r) = fval(r, "response_type");
define ascope(r) = parsescope(fval(r, "scope"));
define awell(r) = onauthorize(r) && authorizationok(r) && (atype(r) == "token" || atype(r) == "code");
define aredirect(s, r) = awell(r) && aclient(r) in s.Clients && s.Clients[aclient(r)].RedirectURI == auri(r);
define apost(s, r) = aredirect(s, r) && r.Method == "POST";
define aok(s, r) = apost(s, r) && allowed(s, ascope(r)) && userok(s, bval(r, "username"), bval(r, "password"));
define implicitok(s, r) = aok(s, r) && atype(r) == "token";
define codegrantok(s, r) = aok(s, r) && atype(r) == "code";

// Introspection and revocation requests.
define lclient(r) = basicuser(r);
define ltok(r) = bval(r, "token");
define lsig(r) = sigtext(ltok(r));
define knownhint(h) = h == "" || h == "access_token" || h == "refresh_token";
define lwell(r) = lookupok(r) && knownhint(bval(r, "token_type_hint"));
define lauth(s, r) = lwell(r) && clientok(s, lclient(r), basicpass(r));
define lknown(s, r) = lauth(s, r) && authentic(secret(s), ltok(r));
define lowned(s, r) = (lsig(r) in AT(s) ==> AT(s)[lsig(r)].ClientID == lclient(r)) && (lsig(r) in RT(s) ==> RT(s)[lsig(r)].ClientID == lclient(r));

// Responses.
define jsonsent(w) = sent(w) == old(jsonheaders(content(whdr(w))));
define clienterrsent(w) = sent(w) == old(jsonheaders(put(content(whdr(w)), "Www-Authenticate", basicchallenge())));
// An error document with the given code and at most a description.
define errorbody(w, name) = jdoc(body(w)) == store(field(emptydoc(), "error", name), "error_description", jdoc(body(w))["error_description"]);
define refused(w, code, name) = status(w) == code && errorbody(w, name) && jsonsent(w);
define refusedclient(w) = status(w) == 401 && errorbody(w, "invalid_client") && clienterrsent(w);
// The same answer for every unauthenticated client.
define unauthenticated(w) = status(w) == 401 && jdoc(body(w)) == field(field(emptydoc(), "error", "invalid_client"), "error_description", "unknown client") && clienterrsent(w);
define location(w) = sent(w)["Location"];
define redirected(w) = status(w) == 303 || "Location" in sent(w);

// Unchanged tables and marks.
define sameAT(s) = dom(AT(s)) == old(dom(AT(s))) && (forall k: string :: k in AT(s) ==> AT(s)[k] == old(AT(s)[k]));
define sameRT(s) = dom(RT(s)) == old(dom(RT(s))) && (forall k: string :: k in RT(s) ==> RT(s)[k] == old(RT(s)[k]));
define sameAC(s) = dom(AC(s)) == old(dom(AC(s))) && (forall k: string :: k in AC(s) ==> AC(s)[k] == old(AC(s)[k]));
define sameused(s) = forall k: string :: old(k in AC(s)) ==> (old(AC(s)[k]).Used <==> old(AC(s)[k].Used));
define unchanged(s) = sameAT(s) && sameRT(s) && sameAC(s) && sameused(s);

// The same tables, except for one new record.
define addedAT(s, sig) = dom(AT(s)) == old(store(dom(AT(s)), sig, true)) && fresh(AT(s)[sig]) && (forall k: string :: k in AT(s) && k != sig ==> AT(s)[k] == old(AT(s)[k]));
define addedRT(s, sig) = dom(RT(s)) == old(store(dom(RT(s)), sig, true)) && fresh(RT(s)[sig]) && (forall k: string :: k in RT(s) && k != sig ==> RT(s)[k] == old(RT(s)[k]));
define addedAC(s, sig) = dom(AC(s)) == old(store(dom(AC(s)), sig, true)) && fresh(AC(s)[sig]) && (forall k: string :: k in AC(s) && k != sig ==> AC(s)[k] == old(AC(s)[k]));
define rotatedRT(s, sig, gone) = dom(RT(s)) == old(store(store(dom(RT(s)), gone, false), sig, true)) && fresh(RT(s)[sig]) && (forall k: string :: k in RT(s) && k != sig ==> RT(s)[k] == old(RT(s)[k]));
define bound(c, client, user) = c.ClientID == client && c.Username == user;
define lasting(c, span) = c.ExpiresAt >= old(ghost(clock)) + span && c.ExpiresAt <= ghost(clock) + span;

// Which reading of the random source became the access token of a JSON
// response; the other one is the refresh token.
define rng0() = old(ghost(rng));
define swapped(s, w) = !hasstr(jdoc(body(w)), "access_token", old(rtext(s, rng0())));
define ai(s, w) = swapped(s, w) ? rng0() + 1 : rng0();
define ri(s, w) = swapped(s, w) ? rng0() : rng0() + 1;
define asig(s, w) = old(rsig(s, now(ai(s, w))));
define rsig2(s, w) = old(rsig(s, now(ri(s, w))));
define atext(s, w) = old(rtext(s, now(ai(s, w))));
define rtext2(s, w) = old(rtext(s, now(ri(s, w))));
define lifetime(s) = old(s.Config.AccessTokenLifespan) / 1000000000;
// JSON token response for the pair of new tokens with the given scope.
define pairdoc(s, w, scope) =
  fieldif(scope != list(), field(field(field(field(emptydoc(), "token_type", "bearer"), "access_token", atext(s, w)), "expires_in", lifetime(s)), "refresh_token", rtext2(s, w)), "scope", join(scope, " "));
define handedout(s, w, scope) = status(w) == 200 && jsonsent(w) && jdoc(body(w)) == pairdoc(s, w, scope);
define implicitattrs(s, r) =
  putif(astate(r) != "", putif(ascope(r) != list(),
  put(put(put(emptymm(), "token_type", "bearer"), "access_token", rtext(s, ghost(rng))), "expires_in", itoa(s.Config.AccessTokenLifespan / 1000000000)),
    "scope", join(ascope(r), " ")), "state", astate(r));
define scoped(c, scope) = strs(c.Scope) == scope;
define direct(s, r) = passwordok(s, r) || credentialsok(s, r);
define directuser(r) = grant(r) == "password" ? bval(r, "username") : "";
define errparams(name, state) = putif(state != "", put(emptymm(), "error", name), "state", state);
define anyerror(w) = status(w) >= 400 && status(w) < 500 && jdoc(body(w)) == store(store(emptydoc(), "error", jdoc(body(w))["error"]), "error_description", jdoc(body(w))["error_description"]);
define notadded(s) =
  (forall k: string :: k in AT(s) ==> old(k in AT(s)) && AT(s)[k] == old(AT(s)[k])) && (forall k: string :: k in RT(s) ==> old(k in RT(s)) && RT(s)[k] == old(RT(s)[k]));
define activedoc(c, kind) =
  fieldif(div(c.ExpiresAt, 1000000000) != 0,
  field(
  fieldif(c.Username != "",
  fieldif(c.ClientID != "",
  fieldif(len(c.Scope) > 0,
  field(emptydoc(), "active", true), "scope", join(strs(c.Scope), " ")), "client_id", c.ClientID), "username", c.Username), "token_type", kind), "exp", div(c.ExpiresAt, 1000000000));
define inactivedoc() = field(emptydoc(), "active", false);
define reported(w, doc) = status(w) == 200 && jsonsent(w) && jdoc(body(w)) == doc;

func Server.ServeHTTP(s, w, r) {
  requires "server": s != nil && wf(s) && locked(s.Mutex) == 0 && s.Config.KeyLength >= 0;
  requires "fresh response": unstarted(w) && !("Location" in content(whdr(w)));
  requires "request": freshrequest(r);
  requires "random tokens are new and distinct": newrandom(s, ghost(rng)) && rtext(s, ghost(rng)) != rtext(s, ghost(rng) + 1);
  modifies writer(w), form(r), lock(s.Mutex), ghost(clock), ghost(rng), entries(s.AccessTokens), entries(s.RefreshTokens), entries(s.AuthorizationCodes), fields(ServerCredential, Used);

  // routing
  ensures [A16] "other paths are not found": !routed(r) ==> status(w) == 404 && unchanged(s);
  ensures [A16] "ill-formed authorization requests": onauthorize(r) && !old(authorizationok(r)) ==> refused(w, 400, "invalid_request") && unchanged(s);
  ensures [A16] "unknown response types": onauthorize(r) && old(authorizationok(r)) && !old(awell(r)) ==> refused(w, 400, "invalid_request") && unchanged(s);
  ensures [A16] "ill-formed token requests": ontoken(r) && !old(tokenok(r)) ==> refused(w, 400, "invalid_request") && unchanged(s);
  ensures [A16] "unknown grant types": ontoken(r) && old(tokenok(r)) && !old(twell(r)) ==> refused(w, 400, "invalid_request") && unchanged(s);
  ensures [A16] "ill-formed introspection and revocation requests": (onintrospect(r) || onrevoke(r)) && !old(lookupok(r)) ==> refused(w, 400, "invalid_request") && unchanged(s);
  ensures [A16] "unknown token type hints": (onintrospect(r) || onrevoke(r)) && old(lookupok(r)) && !old(lwell(r)) ==> refused(w, 400, "unsupported_token_type") && unchanged(s);
  ensures [A16] "endpoints answer": routed(r) ==> status(w) != 404;

  // client authentication
  ensures [A02] "unauthenticated token requests": old(twell(r) && !clientok(s, tclient(r), tokensecret(r))) ==> unauthenticated(w);
  ensures [A02] "unauthenticated introspection and revocation": (onintrospect(r) || onrevoke(r)) && old(lwell(r) && !clientok(s, lclient(r), basicpass(r))) ==> unauthenticated(w);
  ensures [A02] "all unauthenticated token requests fail": ontoken(r) && !old(clientok(s, tclient(r), tokensecret(r))) ==> anyerror(w) && unchanged(s);
  ensures [A02] "all unauthenticated introspection and revocation fails": (onintrospect(r) || onrevoke(r)) && !old(basicok(r) && clientok(s, lclient(r), basicpass(r))) ==> anyerror(w) && unchanged(s);

  // redirects
  ensures [A03] "only to the registered URI of the client": redirected(w) ==> status(w) == 303 && old(apost(s, r));
  ensures [A03] "refused scope": old(apost(s, r) && !allowed(s, ascope(r))) ==> sent(w) == old(redirectheaders(content(whdr(w)), redirloc(auri(r), errparams("invalid_scope", astate(r)), atype(r) == "token"))) && unchanged(s);
  ensures [A03] "refused resource owner": old(apost(s, r) && allowed(s, ascope(r)) && !userok(s, bval(r, "username"), bval(r, "password"))) ==> sent(w) == old(redirectheaders(content(whdr(w)), redirloc(auri(r), errparams("access_denied", astate(r)), atype(r) == "token"))) && unchanged(s);
  ensures [A03] "results go to the registered URI": old(aok(s, r)) ==> status(w) == 303;
  ensures [A03] "unknown clients": old(awell(r) && !(aclient(r) in s.Clients)) ==> refusedclient(w);
  ensures [A03] "other redirect URIs": old(awell(r) && aclient(r) in s.Clients && !aredirect(s, r)) ==> refused(w, 400, "invalid_request");
  ensures [A03] "no redirect without submission": old(aredirect(s, r)) && r.Method != "POST" ==> status(w) == 200 && !redirected(w);

  // issuing
  ensures [A04] "no tokens without entitlement": !old(tokengrantat(s, r, ghost(clock)) || implicitok(s, r)) ==> notadded(s);
  ensures [A04] "no refresh tokens without entitlement": !old(tokengrantat(s, r, ghost(clock))) ==> (forall k: string :: k in RT(s) ==> old(k in RT(s)) && RT(s)[k] == old(RT(s)[k]));
  ensures [A04] "no codes without entitlement": !old(codegrantok(s, r)) ==> sameAC(s);
  ensures [A04] "direct grants issue one bound pair": old(direct(s, r)) ==> addedAT(s, asig(s, w)) && addedRT(s, rsig2(s, w)) &&
    bound(AT(s)[asig(s, w)], old(tclient(r)), old(directuser(r))) && bound(RT(s)[rsig2(s, w)], old(tclient(r)), old(directuser(r))) &&
    scoped(AT(s)[asig(s, w)], old(tscope(r))) && scoped(RT(s)[rsig2(s, w)], old(tscope(r)));
  ensures [A04] "implicit grants issue one bound access token": old(implicitok(s, r)) ==> addedAT(s, old(rsig(s, rng0()))) && sameRT(s) && sameAC(s) &&
    bound(AT(s)[old(rsig(s, rng0()))], old(aclient(r)), old(bval(r, "username"))) && scoped(AT(s)[old(rsig(s, rng0()))], old(ascope(r)));
  ensures [A04] "code authorizations issue one bound code": old(codegrantok(s, r)) ==> addedAC(s, old(rsig(s, rng0()))) && sameAT(s) && sameRT(s) &&
    bound(AC(s)[old(rsig(s, rng0()))], old(aclient(r)), old(bval(r, "username"))) && scoped(AC(s)[old(rsig(s, rng0()))], old(ascope(r))) &&
    AC(s)[old(rsig(s, rng0()))].RedirectURI == old(auri(r)) && !AC(s)[old(rsig(s, rng0()))].Used;
  ensures [A04] "redemptions issue one pair bound to the client": ontoken(r) && status(w) == 200 && !old(direct(s, r)) ==> addedAT(s, asig(s, w)) && rsig2(s, w) in RT(s) &&
    AT(s)[asig(s, w)].ClientID == old(tclient(r)) && RT(s)[rsig2(s, w)].ClientID == old(tclient(r));

  // authorization codes
  ensures [A05] "only redeemable codes": old(oncode(s, r)) && status(w) == 200 ==> old(codeat(s, r, ghost(clock)));
  ensures [A05] "redeemable codes yield tokens": old(codeat(s, r, now(ghost(clock)))) ==> status(w) == 200;
  ensures [A05] "tokens get the scope and owner of the code": old(oncode(s, r)) && status(w) == 200 ==> addedAT(s, asig(s, w)) && addedRT(s, rsig2(s, w)) &&
    bound(AT(s)[asig(s, w)], old(tclient(r)), old(crec(s, r).Username)) && bound(RT(s)[rsig2(s, w)], old(tclient(r)), old(crec(s, r).Username)) &&
    scoped(AT(s)[asig(s, w)], old(strs(crec(s, r).Scope))) && scoped(RT(s)[rsig2(s, w)], old(strs(crec(s, r).Scope)));
  ensures [A05] "the redeemed code is marked": old(oncode(s, r)) && status(w) == 200 ==> sameAC(s) && old(crec(s, r)).Used;
  ensures [A05] "marks are never cleared": forall k: string :: old(k in AC(s) && AC(s)[k].Used) ==> old(AC(s)[k]).Used;
  ensures [A05] "only the redeemed code is marked": forall k: string :: old(k in AC(s) && !(oncode(s, r) && k == csig(r))) ==> (old(AC(s)[k]).Used <==> old(AC(s)[k].Used));
  ensures [A05] "failed attempts change nothing": old(oncode(s, r) && !replayed(s, r)) && status(w) != 200 ==> status(w) == 400 && unchanged(s);

  // replay
  ensures [A06] "replays are refused": old(replayed(s, r)) ==> refused(w, 400, "invalid_grant") && sameAC(s) && sameused(s);
  ensures [A06] "no descendant access token remains": old(replayed(s, r)) ==> (forall k: string :: k in AT(s) <==> old(k in AT(s) && AT(s)[k].Code != csig(r)));
  ensures [A06] "no descendant refresh token remains": old(replayed(s, r)) ==> (forall k: string :: k in RT(s) <==> old(k in RT(s) && RT(s)[k].Code != csig(r)));
  ensures [A06] "other tokens are untouched": old(replayed(s, r)) ==> (forall k: string :: k in AT(s) ==> AT(s)[k] == old(AT(s)[k])) && (forall k: string :: k in RT(s) ==> RT(s)[k] == old(RT(s)[k]));
  ensures [A06] "tokens from a code descend from it": old(oncode(s, r)) && status(w) == 200 ==> AT(s)[asig(s, w)].Code == old(csig(r)) && RT(s)[rsig2(s, w)].Code == old(csig(r));
  ensures [A06] "refreshed tokens keep their descent": old(onrefresh(s, r)) && status(w) == 200 ==> AT(s)[asig(s, w)].Code == old(rrec(s, r).Code) && RT(s)[rsig2(s, w)].Code == old(rrec(s, r).Code);
  ensures [A06] "other tokens descend from no code": (old(direct(s, r)) ==> AT(s)[asig(s, w)].Code == "" && RT(s)[rsig2(s, w)].Code == "") && (old(implicitok(s, r)) ==> AT(s)[old(rsig(s, rng0()))].Code == "");

  // refresh tokens
  ensures [A07] "only redeemable refresh tokens": old(onrefresh(s, r)) && status(w) == 200 ==> old(refreshat(s, r, ghost(clock)));
  ensures [A07] "redeemable refresh tokens yield tokens": old(refreshat(s, r, now(ghost(clock)))) ==> status(w) == 200;
  ensures [A07] "the refresh token is replaced": old(onrefresh(s, r)) && status(w) == 200 ==> addedAT(s, asig(s, w)) && rotatedRT(s, rsig2(s, w), old(rtsig(r)));
  ensures [A07] "owner and scope": old(onrefresh(s, r)) && status(w) == 200 ==>
    bound(AT(s)[asig(s, w)], old(tclient(r)), old(rrec(s, r).Username)) && bound(RT(s)[rsig2(s, w)], old(tclient(r)), old(rrec(s, r).Username)) &&
    scoped(AT(s)[asig(s, w)], old(rscope(s, r))) && scoped(RT(s)[rsig2(s, w)], old(rscope(s, r)));
  ensures [A07] "failed attempts change nothing": old(onrefresh(s, r)) && status(w) != 200 ==> status(w) == 400 && unchanged(s);

  // revocation
  ensures [A08] "authentic tokens of the owner": onrevoke(r) && old(lknown(s, r) && lowned(s, r)) ==> status(w) == 200 &&
    dom(AT(s)) == old(store(dom(AT(s)), lsig(r), false)) && dom(RT(s)) == old(store(dom(RT(s)), lsig(r), false));
  ensures [A08] "tokens of other clients": onrevoke(r) && old(lknown(s, r) && !lowned(s, r)) ==> refusedclient(w) && unchanged(s);
  ensures [A08] "inauthentic tokens": onrevoke(r) && old(lauth(s, r) && !authentic(secret(s), ltok(r))) ==> refused(w, 400, "invalid_request") && unchanged(s);
  ensures [A08] "unsupported hints": onrevoke(r) && old(lookupok(r) && !lwell(r)) ==> refused(w, 400, "unsupported_token_type") && unchanged(s);
  ensures [A08] "nothing else is affected": onrevoke(r) ==> notadded(s) && sameAC(s) && sameused(s) && (forall k: string :: old(k in AT(s)) && k != old(lsig(r)) ==> k in AT(s)) && (forall k: string :: old(k in RT(s)) && k != old(lsig(r)) ==> k in RT(s));

  // introspection
  ensures [A09] "read-only": onintrospect(r) ==> unchanged(s);
  ensures [A09] "live access tokens": onintrospect(r) && old(lknown(s, r) && lowned(s, r) && lsig(r) in AT(s)) && old(AT(s)[lsig(r)].ExpiresAt) >= ghost(clock) ==> reported(w, old(activedoc(AT(s)[lsig(r)], "access_token")));
  ensures [A09] "live refresh tokens": onintrospect(r) && old(lknown(s, r) && lowned(s, r) && lsig(r) in RT(s)) && old(RT(s)[lsig(r)].ExpiresAt) >= ghost(clock) ==> reported(w, old(activedoc(RT(s)[lsig(r)], "refresh_token")));
  ensures [A09] "active only when recorded and unexpired": onintrospect(r) && status(w) == 200 ==> old(lknown(s, r) && lowned(s, r)) &&
    (jdoc(body(w)) == inactivedoc() ||
     (old(lsig(r) in AT(s)) && old(AT(s)[lsig(r)].ExpiresAt) >= old(ghost(clock)) && jdoc(body(w)) == old(activedoc(AT(s)[lsig(r)], "access_token"))) ||
     (old(lsig(r) in RT(s)) && old(RT(s)[lsig(r)].ExpiresAt) >= old(ghost(clock)) && jdoc(body(w)) == old(activedoc(RT(s)[lsig(r)], "refresh_token"))));
  ensures [A09] "other authentic tokens": onintrospect(r) && old(lknown(s, r) && lowned(s, r)) ==> status(w) == 200 && jsonsent(w);
  ensures [A09] "tokens of other clients": onintrospect(r) && old(lknown(s, r) && !lowned(s, r)) ==> refusedclient(w);
  ensures [A09] "inauthentic tokens": onintrospect(r) && old(lauth(s, r) && !authentic(secret(s), ltok(r))) ==> refused(w, 400, "invalid_request");

  // locking
  ensures [A10] "released": locked(s.Mutex) == 0 && ghost(locks) == old(ghost(locks)) + 1;
  exsures [A10] "released": locked(s.Mutex) == 0 && ghost(locks) == old(ghost(locks)) + 1;
  guard [A10] s.Mutex : ServerCredential;

  // failing random source
  panics [A12] !rngok(ghost(rng) - 1) && ghost(rng) > old(ghost(rng));
  exsures [A11] "state unchanged": unchanged(s) && unstarted(w);
  exsures [A11] "source failed": !rngok(ghost(rng) - 1) && ghost(rng) > old(ghost(rng));

  // robustness
  ensures [A12] "exactly one response": headercalls(w) == 1 && 100 <= status(w) && status(w) <= 999;
  ensures [A12] "tables stay well-formed": wf(s);

  // lifetimes
  ensures [A13] "direct grants": old(direct(s, r)) ==> lasting(AT(s)[asig(s, w)], old(s.Config.AccessTokenLifespan)) && lasting(RT(s)[rsig2(s, w)], old(s.Config.RefreshTokenLifespan));
  ensures [A13] "redemptions": ontoken(r) && status(w) == 200 ==> lasting(AT(s)[asig(s, w)], old(s.Config.AccessTokenLifespan)) && lasting(RT(s)[rsig2(s, w)], old(s.Config.RefreshTokenLifespan));
  ensures [A13] "implicit grants": old(implicitok(s, r)) ==> lasting(AT(s)[old(rsig(s, rng0()))], old(s.Config.AccessTokenLifespan));
  ensures [A13] "codes": old(codegrantok(s, r)) ==> lasting(AC(s)[old(rsig(s, rng0()))], old(s.Config.AuthorizationCodeLifespan));
  ensures [A13] "advertised lifetime": ontoken(r) && status(w) == 200 ==> jdoc(body(w))["expires_in"] == field(emptydoc(), "expires_in", lifetime(s))["expires_in"];

  // existing records
  ensures [A14] "access tokens are only removed by revocation and replay": !onrevoke(r) && !old(replayed(s, r)) ==> (forall k: string :: old(k in AT(s)) ==> k in AT(s) && AT(s)[k] == old(AT(s)[k]));
  ensures [A14] "refresh tokens are only removed by revocation, replay and refresh": !onrevoke(r) && !old(replayed(s, r)) ==> (forall k: string :: old(k in RT(s)) && !(old(onrefresh(s, r)) && k == old(rtsig(r))) ==> k in RT(s) && RT(s)[k] == old(RT(s)[k]));
  ensures [A14] "codes are never removed": forall k: string :: old(k in AC(s)) ==> k in AC(s) && AC(s)[k] == old(AC(s)[k]);
  ensures [A14] "only submissions change state": r.Method != "POST" ==> unchanged(s);
  ensures [A14] "configuration": s.Config == old(s.Config);

  // responses
  ensures [A15] "direct grants hand out the recorded pair": old(direct(s, r)) ==> handedout(s, w, old(tscope(r))) && asig(s, w) in AT(s) && rsig2(s, w) in RT(s);
  ensures [A15] "redemptions hand out the recorded pair": ontoken(r) && status(w) == 200 && old(oncode(s, r)) ==> handedout(s, w, old(strs(crec(s, r).Scope))) && asig(s, w) in AT(s) && rsig2(s, w) in RT(s);
  ensures [A15] "refreshes hand out the recorded pair": ontoken(r) && status(w) == 200 && old(onrefresh(s, r)) ==> handedout(s, w, old(rscope(s, r))) && asig(s, w) in AT(s) && rsig2(s, w) in RT(s);
  ensures [A15] "implicit grants hand out the recorded token": old(implicitok(s, r)) ==> old(rsig(s, rng0())) in AT(s) &&
    sent(w) == old(redirectheaders(content(whdr(w)), redirloc(auri(r), implicitattrs(s, r), true)));
  ensures [A15] "code authorizations hand out the recorded code": old(codegrantok(s, r)) ==> old(rsig(s, rng0())) in AC(s) &&
    sent(w) == old(redirectheaders(content(whdr(w)), redirloc(auri(r), putif(astate(r) != "", put(emptymm(), "code", rtext(s, ghost(rng))), "state", astate(r)), false)));
  ensures [A15] "only what is handed out is recorded": (forall k: string :: k in AT(s) && !old(k in AT(s)) ==>
      old(implicitok(s, r)) && k == old(rsig(s, rng0())) || ontoken(r) && status(w) == 200 && k == asig(s, w)) &&
    (forall k: string :: k in RT(s) && !old(k in RT(s)) ==> ontoken(r) && status(w) == 200 && k == rsig2(s, w)) &&
    (forall k: string :: k in AC(s) && !old(k in AC(s)) ==> old(codegrantok(s, r)) && k == old(rsig(s, rng0())));
  ensures [A15] "what is handed out is authentic and recorded under its signature": forall i: int :: old(authentic(secret(s), rtext(s, i)) && sigtext(rtext(s, i)) == rsig(s, i));
  safe [A12]; frame [A14];
}
