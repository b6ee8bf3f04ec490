// Errors.

define basicchallenge() = "Basic realm=\"OAuth2\"";

define plainerror(e, name, status, desc) =
  e.Name == name && e.Status == status && e.Description == desc && e.State == "" && e.Realm == "" && e.URI == "" &&
  e.RedirectURI == "" && !e.UseFragment;

func InvalidRequest(description) (e) {
  case always { new e : Error;
    ensures [E01] "code, status and description": plainerror(e, "invalid_request", 400, description);
    ensures [E01] "no other attributes": nilslice(e.Scope) && e.Headers == nil; }
  safe [E01]; frame [E01];
}
func InvalidClient(description) (e) {
  case always { new e : Error; new e.Headers : stringmap;
    ensures [E01] "code, status and description": plainerror(e, "invalid_client", 401, description);
    ensures [E01] "no other attributes": nilslice(e.Scope);
    ensures [E01] "only the Basic challenge header": dom(e.Headers) == store(emptyset(), "WWW-Authenticate", true) && e.Headers["WWW-Authenticate"] == basicchallenge(); }
  safe [E01]; frame [E01];
}
func InvalidGrant(description) (e) {
  case always { new e : Error;
    ensures [E01] "code, status and description": plainerror(e, "invalid_grant", 400, description);
    ensures [E01] "no other attributes": nilslice(e.Scope) && e.Headers == nil; }
  safe [E01]; frame [E01];
}
func InvalidScope(description) (e) {
  case always { new e : Error;
    ensures [E01] "code, status and description": plainerror(e, "invalid_scope", 400, description);
    ensures [E01] "no other attributes": nilslice(e.Scope) && e.Headers == nil; }
  safe [E01]; frame [E01];
}
func InvalidToken(description) (e) {
  case always { new e : Error;
    ensures [E01] "code, status and description": plainerror(e, "invalid_token", 401, description);
    ensures [E01] "no other attributes": nilslice(e.Scope) && e.Headers == nil; }
  safe [E01]; frame [E01];
}
func UnauthorizedClient(description) (e) {
  case always { new e : Error;
    ensures [E01] "code, status and description": plainerror(e, "unauthorized_client", 400, description);
    ensures [E01] "no other attributes": nilslice(e.Scope) && e.Headers == nil; }
  safe [E01]; frame [E01];
}
func UnsupportedGrantType(description) (e) {
  case always { new e : Error;
    ensures [E01] "code, status and description": plainerror(e, "unsupported_grant_type", 400, description);
    ensures [E01] "no other attributes": nilslice(e.Scope) && e.Headers == nil; }
  safe [E01]; frame [E01];
}
func UnsupportedResponseType(description) (e) {
  case always { new e : Error;
    ensures [E01] "code, status and description": plainerror(e, "unsupported_response_type", 400, description);
    ensures [E01] "no other attributes": nilslice(e.Scope) && e.Headers == nil; }
  safe [E01]; frame [E01];
}
func UnsupportedTokenType(description) (e) {
  case always { new e : Error;
    ensures [E01] "code, status and description": plainerror(e, "unsupported_token_type", 400, description);
    ensures [E01] "no other attributes": nilslice(e.Scope) && e.Headers == nil; }
  safe [E01]; frame [E01];
}
func ProtectedResource() (e) {
  case always { new e : Error;
    ensures [E01] "status without code": plainerror(e, "", 401, "");
    ensures [E01] "no other attributes": nilslice(e.Scope) && e.Headers == nil; }
  safe [E01]; frame [E01];
}
func InsufficientScope(necessaryScope) (e) {
  case always { new e : Error;
    ensures [E01] "code and status": plainerror(e, "insufficient_scope", 403, "");
    ensures [E01] "carries the necessary scope": e.Scope == necessaryScope;
    ensures [E01] "no other attributes": e.Headers == nil; }
  safe [E01]; frame [E01];
}
func AccessDenied(description) (e) {
  case always { new e : Error;
    ensures [E01] "code, status and description": plainerror(e, "access_denied", 403, description);
    ensures [E01] "no other attributes": nilslice(e.Scope) && e.Headers == nil; }
  safe [E01]; frame [E01];
}
func ServerError(description) (e) {
  case always { new e : Error;
    ensures [E01] "code, status and description": plainerror(e, "server_error", 500, description);
    ensures [E01] "no other attributes": nilslice(e.Scope) && e.Headers == nil; }
  safe [E01]; frame [E01];
}
func TemporarilyUnavailable(description) (e) {
  case always { new e : Error;
    ensures [E01] "code, status and description": plainerror(e, "temporarily_unavailable", 503, description);
    ensures [E01] "no other attributes": nilslice(e.Scope) && e.Headers == nil; }
  safe [E01]; frame [E01];
}

func Error.SetRedirect(e, uri, state, useFragment) (res) {
  requires "error": e != nil;
  modifies e.State, e.RedirectURI, e.UseFragment;
  ensures [E01] "returns the error": res == e;
  ensures [E01] "marked for redirect": e.State == state && e.RedirectURI == uri && e.UseFragment == useFragment;
  safe [E01]; frame [E01];
}

func Error.String(e) (str) {
  requires "error": e != nil;
  ensures [E01] "code, colon, space, description": str == e.Name + ": " + e.Description;
  safe [E01]; frame [E01];
}

func Error.Error(e) (str) {
  requires "error": e != nil;
  ensures [E01] "code, colon, space, description": str == e.Name + ": " + e.Description;
  safe [E01]; frame [E01];
}

// Present attributes of an error, as a list-valued map of single entries.
define errattrs(e) =
  putif(e.Realm != "",
  putif(e.URI != "",
  putif(len(e.Scope) > 0,
  putif(e.State != "",
  putif(e.Description != "",
  putif(e.Name != "", emptymm(),
    "error", e.Name), "error_description", e.Description), "state", e.State), "scope", join(strs(e.Scope), " ")), "error_uri", e.URI), "realm", e.Realm);

func Error.Map(e) (m) {
  requires "error": e != nil;
  case always {
    new m : stringmap;
    ensures [W03 B02] "exactly the present attributes": single(m) == old(errattrs(e));
  }
  safe [W03]; frame [W03];
}

// The challenge parameters: sorted name="value" pairs joined by comma and space.
define challengeparams(mm) = join(sortedSL(pairbag(mm)), ", ");

func Error.Params(e) (str) {
  requires "error": e != nil;
  ensures [B02] "sorted present attributes": str == old(challengeparams(errattrs(e)));
  safe [B02]; frame [B02];
}

define errordoc(e) =
  fieldif(e.URI != "",
  fieldif(e.Description != "",
  fieldif(e.Realm != "",
  fieldif(len(e.Scope) > 0,
  fieldif(e.State != "",
  field(emptydoc(), "error", e.Name),
    "state", e.State), "scope", join(strs(e.Scope), " ")), "realm", e.Realm), "error_description", e.Description), "error_uri", e.URI);

// Extra headers applied to a header map.
define errorheaders(mm, e) = e.Headers == nil ? mm : applyheaders(mm, dom(e.Headers), vals(e.Headers));
// Extra headers that do not collide and leave the Location alone.
define errorheadersok(e) = e.Headers != nil ==>
  (forall j: string, k: string :: j in e.Headers && k in e.Headers && canon(j) == canon(k) ==> j == k) &&
  (forall k: string :: k in e.Headers ==> canon(k) != "Location");

func WriteError(w, err) (res) {
  requires "fresh response": unstarted(w) && !("Location" in content(whdr(w)));
  requires "error with a valid status and distinct headers": err != nil && (isknown(err) ==> as(err, Error) != nil && statusok(as(err, Error).Status) && errorheadersok(as(err, Error)));
  case unknown when !isknown(err) {
    modifies writer(w);
    ensures [E02] "generic server error": status(w) == 500 && headercalls(w) == 1 && sent(w) == old(jsonheaders(content(whdr(w))));
    ensures [E02] "no other field": jdoc(body(w)) == field(emptydoc(), "error", "server_error");
  }
  case direct when as(err, Error).RedirectURI == "" {
    modifies writer(w);
    ensures [E02 W01] "the status of the error": status(w) == old(as(err, Error).Status) && headercalls(w) == 1;
    ensures [E02 W01] "extra headers below the JSON headers": sent(w) == old(jsonheaders(errorheaders(content(whdr(w)), as(err, Error))));
    ensures [E02 W01] "exactly the fields of the error": jdoc(body(w)) == old(errordoc(as(err, Error)));
  }
  case redirect when uriok(as(err, Error).RedirectURI) {
    modifies writer(w);
    ensures [E02 W02] "redirect": status(w) == 303 && headercalls(w) == 1 && body(w) == "";
    ensures [E02 W02] "parameters in the query or fragment": sent(w) == old(redirectheaders(errorheaders(content(whdr(w)), as(err, Error)),
      redirloc(as(err, Error).RedirectURI, errattrs(as(err, Error)), as(err, Error).UseFragment)));
  }
  case refused {
    modifies whead(w);
    ensures [E02] "an unparsable URI is an error": res != nil;
    ensures [E02] "no response": unstarted(w);
  }
  safe [E02]; frame [E02];
}
