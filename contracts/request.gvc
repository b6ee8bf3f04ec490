// Requests: parsing of incoming ones and building of outgoing ones.

// A request as handed to a handler by the server: nothing parsed yet.
define freshrequest(r) = r != nil && r.URL != nil && r.Form == nil && r.PostForm == nil;

define bval(r, name) = first(postform(r)[name]);   // first body parameter
define fval(r, name) = first(fullform(r)[name]);   // first body or query parameter
define basicok(r) = baok(authheader(r));
define basicuser(r) = bauser(authheader(r));
define basicpass(r) = bapass(authheader(r));

// Redirect URI texts (already decoded by the form parser) that are acceptable.
define plainuri(u) = uriok(u) && !contains(u, "#");
define uriparamok(p) = quok(p) && unq(p) != "" && plainuri(unq(p));
define uriparamoptok(p) = quok(p) && (unq(p) == "" || plainuri(unq(p)));

// An error value of this package with the given code and status, to be answered directly.
define isdirect(err, name, code) =
  as(err, Error).Name == name && as(err, Error).Status == code && as(err, Error).RedirectURI == "" && as(err, Error).State == "" &&
  as(err, Error).Realm == "" && as(err, Error).URI == "" && nilslice(as(err, Error).Scope) && !as(err, Error).UseFragment;
define isinvalidrequest(err) = isdirect(err, "invalid_request", 400) && as(err, Error).Headers == nil;

define authorizationok(r) =
  (r.Method == "GET" || r.Method == "POST") && formok(r) && fval(r, "response_type") != "" && fval(r, "client_id") != "" && uriparamok(fval(r, "redirect_uri"));

func ParseAuthorizationRequest(r) (req, err) {
  requires "request": freshrequest(r);
  modifies form(r);
  case accepted when authorizationok(r) {
    new req : AuthorizationRequest;
    ensures [R01] "no error": err == nil;
    ensures [R01] "fields are the submitted parameters":
      req.ResponseType == old(fval(r, "response_type")) && req.ClientID == old(fval(r, "client_id")) &&
      req.RedirectURI == old(unq(fval(r, "redirect_uri"))) && req.State == old(fval(r, "state"));
    ensures [R01] "scope is the parsed parameter": strs(req.Scope) == old(parsescope(fval(r, "scope")));
    ensures "memory": len(req.Scope) == 0 ==> nilslice(req.Scope);
    ensures "parsed form": r.PostForm != nil && r.Form != nil && content(r.PostForm) == old(postform(r)) && content(r.Form) == old(fullform(r));
  }
  case rejected {
    new err : Error;
    ensures [R01] "no result": req == nil;
    ensures [R01] "invalid request": isinvalidrequest(err);
  }
  safe [R01]; frame [R01];
}

// Client identification: HTTP Basic when present, body parameters otherwise.
define tokenclient(r) = basicok(r) ? basicuser(r) : bval(r, "client_id");
define tokensecret(r) = basicok(r) ? basicpass(r) : bval(r, "client_secret");
define tokenok(r) = r.Method == "POST" && formok(r) && bval(r, "grant_type") != "" && tokenclient(r) != "" && uriparamoptok(bval(r, "redirect_uri"));

func ParseTokenRequest(r) (req, err) {
  requires "request": freshrequest(r);
  modifies form(r);
  case accepted when tokenok(r) {
    new req : TokenRequest;
    ensures [R02] "no error": err == nil;
    ensures [R02] "client credentials": req.ClientID == old(tokenclient(r)) && req.ClientSecret == old(tokensecret(r));
    ensures [R02] "fields are the submitted body parameters":
      req.GrantType == old(bval(r, "grant_type")) && req.Username == old(bval(r, "username")) && req.Password == old(bval(r, "password")) &&
      req.RefreshToken == old(bval(r, "refresh_token")) && req.Code == old(bval(r, "code")) && req.RedirectURI == old(unq(bval(r, "redirect_uri")));
    ensures [R02] "scope is the parsed parameter": strs(req.Scope) == old(parsescope(bval(r, "scope")));
    ensures "memory": len(req.Scope) == 0 ==> nilslice(req.Scope);
  }
  case rejected {
    new err : Error;
    ensures [R02] "no result": req == nil;
    ensures [R02] "invalid request": isinvalidrequest(err);
  }
  safe [R02]; frame [R02];
}

define lookupok(r) = r.Method == "POST" && formok(r) && bval(r, "token") != "" && basicok(r);

func ParseIntrospectionRequest(r) (req, err) {
  requires "request": freshrequest(r);
  modifies form(r);
  case accepted when lookupok(r) {
    new req : IntrospectionRequest;
    ensures [R03] "no error": err == nil;
    ensures [R03] "fields": req.Token == old(bval(r, "token")) && req.TokenTypeHint == old(bval(r, "token_type_hint")) &&
      req.ClientID == old(basicuser(r)) && req.ClientSecret == old(basicpass(r));
  }
  case rejected {
    new err : Error;
    ensures [R03] "no result": req == nil;
    ensures [R03] "invalid request": isinvalidrequest(err);
  }
  safe [R03]; frame [R03];
}

func ParseRevocationRequest(r) (req, err) {
  requires "request": freshrequest(r);
  modifies form(r);
  case accepted when lookupok(r) {
    new req : RevocationRequest;
    ensures [R03] "no error": err == nil;
    ensures [R03] "fields": req.Token == old(bval(r, "token")) && req.TokenTypeHint == old(bval(r, "token_type_hint")) &&
      req.ClientID == old(basicuser(r)) && req.ClientSecret == old(basicpass(r));
  }
  case rejected {
    new err : Error;
    ensures [R03] "no result": req == nil;
    ensures [R03] "invalid request": isinvalidrequest(err);
  }
  safe [R03]; frame [R03];
}

// Form values of outgoing requests: the non-empty fields.
define tokenvalues(t) =
  putif(t.Code != "",
  putif(t.RedirectURI != "",
  putif(t.RefreshToken != "",
  putif(t.Password != "",
  putif(t.Username != "",
  putif(len(t.Scope) != 0,
  putif(t.GrantType != "", emptymm(),
    "grant_type", t.GrantType), "scope", join(strs(t.Scope), " ")), "username", t.Username), "password", t.Password),
    "refresh_token", t.RefreshToken), "redirect_uri", quesc(t.RedirectURI)), "code", t.Code);
define lookupvalues(t) =
  putif(t.TokenTypeHint != "", putif(t.Token != "", emptymm(), "token", t.Token), "token_type_hint", t.TokenTypeHint);

func TokenRequestValues(t) (vals) {
  ensures [R04] "exactly the non-empty fields": content(vals) == old(tokenvalues(t));
  ensures "new map": fresh(vals);
  safe [R04]; frame [R04];
}
func IntrospectionRequestValues(t) (vals) {
  ensures [R04] "exactly the non-empty fields": content(vals) == old(lookupvalues(t));
  ensures "new map": fresh(vals);
  safe [R04]; frame [R04];
}
func RevocationRequestValues(t) (vals) {
  ensures [R04] "exactly the non-empty fields": content(vals) == old(lookupvalues(t));
  ensures "new map": fresh(vals);
  safe [R04]; frame [R04];
}

// Headers of a built request.
define builtheader(id, secret) =
  put(id != "" || secret != "" ? put(emptymm(), "Authorization", bahdr(id, secret)) : emptymm(), "Content-Type", "application/x-www-form-urlencoded");
define builtrequest(req, uri, mm, id, secret) =
  req.Method == "POST" && urltext(req.URL) == parsedurl(uri) && req.URL.RawQuery == parsedquery(uri) && req.Body != nil && readdata(req.Body) == enc(mm) &&
  content(req.Header) == builtheader(id, secret);

func BuildTokenRequest(uri, t) (req, err) {
  case built when parseok(uri) {
    new req : http_Request;
    ensures [R04] "no error": err == nil;
    ensures [R04] "form-encoded POST with the values and credentials": builtrequest(req, uri, old(tokenvalues(t)), t.ClientID, t.ClientSecret);
    ensures "nothing parsed yet": fresh(req.URL) && req.Form == nil && req.PostForm == nil && fresh(req.Header);
  }
  case failed {
    ensures [R04] "an invalid URI is an error": req == nil && err != nil;
  }
  safe [R04]; frame [R04];
}
func BuildIntrospectionRequest(uri, t) (req, err) {
  case built when parseok(uri) {
    new req : http_Request;
    ensures [R04] "no error": err == nil;
    ensures [R04] "form-encoded POST with the values and credentials": builtrequest(req, uri, old(lookupvalues(t)), t.ClientID, t.ClientSecret);
    ensures "nothing parsed yet": fresh(req.URL) && req.Form == nil && req.PostForm == nil && fresh(req.Header);
  }
  case failed {
    ensures [R04] "an invalid URI is an error": req == nil && err != nil;
  }
  safe [R04]; frame [R04];
}
func BuildRevocationRequest(uri, t) (req, err) {
  case built when parseok(uri) {
    new req : http_Request;
    ensures [R04] "no error": err == nil;
    ensures [R04] "form-encoded POST with the values and credentials": builtrequest(req, uri, old(lookupvalues(t)), t.ClientID, t.ClientSecret);
    ensures "nothing parsed yet": fresh(req.URL) && req.Form == nil && req.PostForm == nil && fresh(req.Header);
  }
  case failed {
    ensures [R04] "an invalid URI is an error": req == nil && err != nil;
  }
  safe [R04]; frame [R04];
}
