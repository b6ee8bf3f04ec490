// Histories: what holds over any sequence of requests, by induction, and how
// consecutive requests fit together (lemma functions in lemmas/root.go).
// mark(i, e) is e in the state where verifMark(i) was called.

// The invariant of a server between requests.
define ready(s) = s != nil && wf(s) && locked(s.Mutex) == 0 && s.Config.KeyLength >= 0;
// Not the signature of any token the random source will still yield.
define settled(s, k) = forall i: int :: i >= ghost(rng) ==> rsig(s, i) != k;
// A used code, and that no recorded token descends from it.
define spent(s, k) = k != "" && k in AC(s) && AC(s)[k].Used;
define barren(s, k) = (forall j: string :: j in AT(s) ==> AT(s)[j].Code != k) && (forall j: string :: j in RT(s) ==> RT(s)[j].Code != k);

// The environment: any request, with the cryptographic assumption about the
// random tokens to come.
assumed verifArrive(s) (w, r) {
  ensures "fresh response": fresh(w) && unstarted(w) && fresh(whdr(w)) && !("Location" in content(whdr(w)));
  ensures "request": fresh(r) && freshrequest(r) && fresh(r.Body);
  ensures "random tokens are new and distinct": newrandom(s, ghost(rng)) && rtext(s, ghost(rng)) != rtext(s, ghost(rng) + 1);
}

lemma verifAny(s, k) {
  requires "server": ready(s);
  relies [A04 A05 A06 A07 A08 A09 A10 A11 A12 A14 A16] Server.ServeHTTP;
  modifies lock(s.Mutex), ghost(clock), ghost(rng), entries(s.AccessTokens), entries(s.RefreshTokens), entries(s.AuthorizationCodes), fields(ServerCredential, Used);
  ensures [A17] "the server stays well-formed": ready(s) && s.Config == old(s.Config);
  ensures [A17] "codes and their marks stay": old(k in AC(s)) ==> k in AC(s) && AC(s)[k] == old(AC(s)[k]) && (old(AC(s)[k].Used) ==> AC(s)[k].Used);
  ensures [A17] "removed access tokens stay removed": old(settled(s, k)) && k in AT(s) ==> old(k in AT(s)) && AT(s)[k] == old(AT(s)[k]);
  ensures [A17] "removed refresh tokens stay removed": old(settled(s, k)) && k in RT(s) ==> old(k in RT(s)) && RT(s)[k] == old(RT(s)[k]);
  ensures [A17] "no new descendants of a used code": old(spent(s, k) && barren(s, k)) ==> barren(s, k);
  safe [A17]; frame [A17];
}

lemma verifHistory(s, n, k) {
  requires "server": ready(s);
  decreases n;
  modifies lock(s.Mutex), ghost(clock), ghost(rng), entries(s.AccessTokens), entries(s.RefreshTokens), entries(s.AuthorizationCodes), fields(ServerCredential, Used);
  ensures [A17] "the server stays well-formed": ready(s) && s.Config == old(s.Config);
  ensures [A17] "codes and their marks stay": old(k in AC(s)) ==> k in AC(s) && AC(s)[k] == old(AC(s)[k]) && (old(AC(s)[k].Used) ==> AC(s)[k].Used);
  ensures [A17] "removed access tokens stay removed": old(settled(s, k)) && k in AT(s) ==> old(k in AT(s)) && AT(s)[k] == old(AT(s)[k]);
  ensures [A17] "removed refresh tokens stay removed": old(settled(s, k)) && k in RT(s) ==> old(k in RT(s)) && RT(s)[k] == old(RT(s)[k]);
  ensures [A17] "no new descendants of a used code": old(spent(s, k) && barren(s, k)) ==> barren(s, k);
  safe [A17]; frame [A17];
}

lemma verifBefore(s, n, k) (w1, w2, r1, r2) {
  requires "server": ready(s);
  relies [A04 A05 A06 A07 A08 A09 A10 A11 A12 A14 A16] Server.ServeHTTP;
  modifies lock(s.Mutex), ghost(clock), ghost(rng), entries(s.AccessTokens), entries(s.RefreshTokens), entries(s.AuthorizationCodes), fields(ServerCredential, Used);
  panics [A17] !rngok(ghost(rng) - 1);
  ensures [A17] "a code is redeemed at most once": mark(1, oncode(s, r1) && csig(r1) == k) && status(w1) == 200 && mark(3, oncode(s, r2) && csig(r2) == k) ==> status(w2) == 400;
  ensures [A17] "presenting a redeemed code again revokes its tokens for good": mark(1, oncode(s, r1) && csig(r1) == k) && status(w1) == 200 && mark(3, oncode(s, r2) && authentic(secret(s), ccode(r2)) && csig(r2) == k && k != "") ==> barren(s, k) && spent(s, k);
  ensures [A17] "a refresh token is exchanged at most once": mark(1, onrefresh(s, r1) && rtsig(r1) == k && settled(s, k)) && status(w1) == 200 && mark(3, onrefresh(s, r2) && rtsig(r2) == k) ==> status(w2) == 400;
  ensures [A17] "a revoked refresh token is not exchanged": mark(1, onrevoke(r1) && lknown(s, r1) && lowned(s, r1) && lsig(r1) == k && settled(s, k)) && mark(3, onrefresh(s, r2) && rtsig(r2) == k) ==> status(w2) == 400;
  ensures [A17] "a revoked token is reported inactive": mark(1, onrevoke(r1) && lknown(s, r1) && lowned(s, r1) && lsig(r1) == k && settled(s, k)) && mark(3, onintrospect(r2) && lknown(s, r2) && lsig(r2) == k) ==> jdoc(body(w2)) == inactivedoc();
  safe [A17]; frame [A17];
}

lemma verifAccess(s, n, k, scope) (w1, w2, r1, r2, ok) {
  requires "server": ready(s);
  relies [A04 A05 A06 A07 A08 A09 A10 A11 A12 A14 A16] Server.ServeHTTP;
  relies [A01 A10] Server.Authorize;
  modifies lock(s.Mutex), ghost(clock), ghost(rng), entries(s.AccessTokens), entries(s.RefreshTokens), entries(s.AuthorizationCodes), fields(ServerCredential, Used);
  panics [A17] !rngok(ghost(rng) - 1);
  ensures [A17] "a revoked access token opens nothing": mark(1, onrevoke(r1) && lknown(s, r1) && lowned(s, r1) && lsig(r1) == k && settled(s, k)) && mark(3, bearerok(authheader(r2)) && sigtext(btext(r2)) == k) ==> !ok;
  ensures [A17] "an access token without record stays refused": mark(2, !(k in AT(s)) && settled(s, k)) && mark(3, bearerok(authheader(r2)) && sigtext(btext(r2)) == k) ==> !ok;
  safe [A17]; frame [A17];
}

// What was handed out: the i-th of the two new tokens as access token (the
// other one is the refresh token).
define ntext(s, i) = rtext(s, ghost(rng) + i);
define gotaccess(s, w, i) = status(w) == 200 && hasstr(jdoc(body(w)), "access_token", mark(1, ntext(s, i)));
define gotrefresh(s, w, i) = status(w) == 200 && hasstr(jdoc(body(w)), "refresh_token", mark(1, ntext(s, i)));
define intime(span) = ghost(clock) <= mark(1, ghost(clock)) + span;

lemma verifUse(s, scope) (w1, w2, r1, r2, ok) {
  requires "server": ready(s);
  relies [A04 A05 A06 A07 A10 A11 A12 A13 A14 A15 A16] Server.ServeHTTP;
  relies [A01 A10] Server.Authorize;
  modifies lock(s.Mutex), ghost(clock), ghost(rng), entries(s.AccessTokens), entries(s.RefreshTokens), entries(s.AuthorizationCodes), fields(ServerCredential, Used);
  panics [A18] !rngok(ghost(rng) - 1);
  ensures [A18] "an access token from a direct grant opens what it was granted for (0)": mark(1, direct(s, r1)) && gotaccess(s, w1, 0) && mark(3, bearerok(authheader(r2)) && btext(r2) == mark(1, ntext(s, 0))) && intime(s.Config.AccessTokenLifespan) ==>
    (ok <==> sincludes(mark(1, tscope(r1)), strs(scope)));
  ensures [A18] "an access token from a direct grant opens what it was granted for (1)": mark(1, direct(s, r1)) && gotaccess(s, w1, 1) && mark(3, bearerok(authheader(r2)) && btext(r2) == mark(1, ntext(s, 1))) && intime(s.Config.AccessTokenLifespan) ==>
    (ok <==> sincludes(mark(1, tscope(r1)), strs(scope)));
  ensures [A18] "an access token from a redemption opens what it was granted for (0)": mark(1, oncode(s, r1)) && gotaccess(s, w1, 0) && mark(3, bearerok(authheader(r2)) && btext(r2) == mark(1, ntext(s, 0))) && intime(s.Config.AccessTokenLifespan) ==>
    (ok <==> sincludes(mark(1, strs(crec(s, r1).Scope)), strs(scope)));
  ensures [A18] "an access token from a redemption opens what it was granted for (1)": mark(1, oncode(s, r1)) && gotaccess(s, w1, 1) && mark(3, bearerok(authheader(r2)) && btext(r2) == mark(1, ntext(s, 1))) && intime(s.Config.AccessTokenLifespan) ==>
    (ok <==> sincludes(mark(1, strs(crec(s, r1).Scope)), strs(scope)));
  ensures [A18] "an access token from a refresh opens what it was granted for (0)": mark(1, onrefresh(s, r1)) && gotaccess(s, w1, 0) && mark(3, bearerok(authheader(r2)) && btext(r2) == mark(1, ntext(s, 0))) && intime(s.Config.AccessTokenLifespan) ==>
    (ok <==> sincludes(mark(1, rscope(s, r1)), strs(scope)));
  ensures [A18] "an access token from a refresh opens what it was granted for (1)": mark(1, onrefresh(s, r1)) && gotaccess(s, w1, 1) && mark(3, bearerok(authheader(r2)) && btext(r2) == mark(1, ntext(s, 1))) && intime(s.Config.AccessTokenLifespan) ==>
    (ok <==> sincludes(mark(1, rscope(s, r1)), strs(scope)));
  ensures [A18] "an access token from an implicit grant opens what it was granted for": mark(1, implicitok(s, r1)) && mark(3, bearerok(authheader(r2)) && btext(r2) == mark(1, ntext(s, 0))) && intime(s.Config.AccessTokenLifespan) ==>
    (ok <==> sincludes(mark(1, ascope(r1)), strs(scope)));
  safe [A18]; frame [A18];
}

lemma verifNext(s) (w1, w2, r1, r2) {
  requires "server": ready(s);
  relies [A04 A05 A06 A07 A09 A10 A11 A12 A13 A14 A15 A16] Server.ServeHTTP;
  modifies lock(s.Mutex), ghost(clock), ghost(rng), entries(s.AccessTokens), entries(s.RefreshTokens), entries(s.AuthorizationCodes), fields(ServerCredential, Used);
  panics [A18] !rngok(ghost(rng) - 1);
  ensures [A18] "a refresh token from a direct grant can be exchanged by its client (0)": mark(1, direct(s, r1)) && gotrefresh(s, w1, 0) && mark(3, onrefresh(s, r2) && tclient(r2) == mark(1, tclient(r1)) && tscope(r2) == list() && rtok(r2) == mark(1, ntext(s, 0))) && intime(s.Config.RefreshTokenLifespan) ==> status(w2) == 200;
  ensures [A18] "an access token from a direct grant is reported active to its client (0)": mark(1, direct(s, r1)) && gotaccess(s, w1, 0) && mark(3, onintrospect(r2) && lauth(s, r2) && lclient(r2) == mark(1, tclient(r1)) && ltok(r2) == mark(1, ntext(s, 0))) && intime(s.Config.AccessTokenLifespan) ==> status(w2) == 200 && jdoc(body(w2))["active"] == field(emptydoc(), "active", true)["active"];
  ensures [A18] "a refresh token from a redemption can be exchanged by its client (0)": mark(1, oncode(s, r1)) && gotrefresh(s, w1, 0) && mark(3, onrefresh(s, r2) && tclient(r2) == mark(1, tclient(r1)) && tscope(r2) == list() && rtok(r2) == mark(1, ntext(s, 0))) && intime(s.Config.RefreshTokenLifespan) ==> status(w2) == 200;
  ensures [A18] "an access token from a redemption is reported active to its client (0)": mark(1, oncode(s, r1)) && gotaccess(s, w1, 0) && mark(3, onintrospect(r2) && lauth(s, r2) && lclient(r2) == mark(1, tclient(r1)) && ltok(r2) == mark(1, ntext(s, 0))) && intime(s.Config.AccessTokenLifespan) ==> status(w2) == 200 && jdoc(body(w2))["active"] == field(emptydoc(), "active", true)["active"];
  ensures [A18] "a refresh token from a refresh can be exchanged by its client (0)": mark(1, onrefresh(s, r1)) && gotrefresh(s, w1, 0) && mark(3, onrefresh(s, r2) && tclient(r2) == mark(1, tclient(r1)) && tscope(r2) == list() && rtok(r2) == mark(1, ntext(s, 0))) && intime(s.Config.RefreshTokenLifespan) ==> status(w2) == 200;
  ensures [A18] "an access token from a refresh is reported active to its client (0)": mark(1, onrefresh(s, r1)) && gotaccess(s, w1, 0) && mark(3, onintrospect(r2) && lauth(s, r2) && lclient(r2) == mark(1, tclient(r1)) && ltok(r2) == mark(1, ntext(s, 0))) && intime(s.Config.AccessTokenLifespan) ==> status(w2) == 200 && jdoc(body(w2))["active"] == field(emptydoc(), "active", true)["active"];
  ensures [A18] "a refresh token from a direct grant can be exchanged by its client (1)": mark(1, direct(s, r1)) && gotrefresh(s, w1, 1) && mark(3, onrefresh(s, r2) && tclient(r2) == mark(1, tclient(r1)) && tscope(r2) == list() && rtok(r2) == mark(1, ntext(s, 1))) && intime(s.Config.RefreshTokenLifespan) ==> status(w2) == 200;
  ensures [A18] "an access token from a direct grant is reported active to its client (1)": mark(1, direct(s, r1)) && gotaccess(s, w1, 1) && mark(3, onintrospect(r2) && lauth(s, r2) && lclient(r2) == mark(1, tclient(r1)) && ltok(r2) == mark(1, ntext(s, 1))) && intime(s.Config.AccessTokenLifespan) ==> status(w2) == 200 && jdoc(body(w2))["active"] == field(emptydoc(), "active", true)["active"];
  ensures [A18] "a refresh token from a redemption can be exchanged by its client (1)": mark(1, oncode(s, r1)) && gotrefresh(s, w1, 1) && mark(3, onrefresh(s, r2) && tclient(r2) == mark(1, tclient(r1)) && tscope(r2) == list() && rtok(r2) == mark(1, ntext(s, 1))) && intime(s.Config.RefreshTokenLifespan) ==> status(w2) == 200;
  ensures [A18] "an access token from a redemption is reported active to its client (1)": mark(1, oncode(s, r1)) && gotaccess(s, w1, 1) && mark(3, onintrospect(r2) && lauth(s, r2) && lclient(r2) == mark(1, tclient(r1)) && ltok(r2) == mark(1, ntext(s, 1))) && intime(s.Config.AccessTokenLifespan) ==> status(w2) == 200 && jdoc(body(w2))["active"] == field(emptydoc(), "active", true)["active"];
  ensures [A18] "a refresh token from a refresh can be exchanged by its client (1)": mark(1, onrefresh(s, r1)) && gotrefresh(s, w1, 1) && mark(3, onrefresh(s, r2) && tclient(r2) == mark(1, tclient(r1)) && tscope(r2) == list() && rtok(r2) == mark(1, ntext(s, 1))) && intime(s.Config.RefreshTokenLifespan) ==> status(w2) == 200;
  ensures [A18] "an access token from a refresh is reported active to its client (1)": mark(1, onrefresh(s, r1)) && gotaccess(s, w1, 1) && mark(3, onintrospect(r2) && lauth(s, r2) && lclient(r2) == mark(1, tclient(r1)) && ltok(r2) == mark(1, ntext(s, 1))) && intime(s.Config.AccessTokenLifespan) ==> status(w2) == 200 && jdoc(body(w2))["active"] == field(emptydoc(), "active", true)["active"];
  ensures [A18] "a code can be redeemed by its client": mark(1, codegrantok(s, r1)) && mark(3, oncode(s, r2) && tclient(r2) == mark(1, aclient(r1)) && unq(bval(r2, "redirect_uri")) == mark(1, auri(r1)) && ccode(r2) == mark(1, ntext(s, 0))) && intime(s.Config.AuthorizationCodeLifespan) ==> status(w2) == 200;
  safe [A18]; frame [A18];
}
