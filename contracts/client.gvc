// Decoding of responses and the client.

// What is considered of a response body.
define considered(data, n) = rdata(limit(data, n));
define readable(data, n) = readok(limit(data, n));

define scopetext(d) = jnull(d) ? "" : jstrval(d);

func Scope.UnmarshalJSON(s, buf) (err) {
  requires "scope": s != nil;
  case decoded when jstrok(bytes(buf)) {
    modifies object(s);
    ensures [S02] "no error": err == nil;
    ensures [S02] "the parsed string": strs(deref(s)) == old(parsescope(scopetext(bytes(buf))));
  }
  case malformed {
    ensures [S02] "an error": err != nil;
    ensures [S02] "unchanged": deref(s) == old(deref(s)) && strs(deref(s)) == old(strs(deref(s)));
  }
  safe [S02]; frame [S02];
}

define jtext(d, n) = jhas(d, n) ? jstr(d, n) : "";
define jnumber(d, n) = jhas(d, n) ? jint(d, n) : 0;
define jflag(d, n) = jhas(d, n) && jbool(d, n);
// The scope field of a document decodes.
define jscopeok(d) = jhas(d, "scope") ==> jstrok(jraw(d, "scope"));
define jscope(d) = jhas(d, "scope") ? parsescope(scopetext(jraw(d, "scope"))) : list();

define isjson(header) = mediaok(first(header["Content-Type"])) && mediatype(first(header["Content-Type"])) == "application/json";
define tokenok200(header, data, n) = readable(data, n) && isjson(header) && jok(TokenResponse, considered(data, n)) && jscopeok(considered(data, n));
define introspectionok200(header, data, n) = readable(data, n) && isjson(header) && jok(IntrospectionResponse, considered(data, n)) && jscopeok(considered(data, n));
define errorok(data, n) = jok(Error, considered(data, n)) && jscopeok(considered(data, n));

define decodedtoken(t, d) =
  t.TokenType == jtext(d, "token_type") && t.AccessToken == jtext(d, "access_token") && t.ExpiresIn == jnumber(d, "expires_in") &&
  t.RefreshToken == jtext(d, "refresh_token") && strs(t.Scope) == jscope(d) && t.State == jtext(d, "state") && t.RedirectURI == "";
define decodedintrospection(t, d) =
  t.Active == jflag(d, "active") && strs(t.Scope) == jscope(d) && t.ClientID == jtext(d, "client_id") && t.Username == jtext(d, "username") &&
  t.TokenType == jtext(d, "token_type") && t.ExpiresAt == jnumber(d, "exp") && t.IssuedAt == jnumber(d, "iat") && t.NotBefore == jnumber(d, "nbf") &&
  t.Subject == jtext(d, "sub") && t.Audience == jtext(d, "aud") && t.Issuer == jtext(d, "iss") && t.Identifier == jtext(d, "jti");
define decodederror(e, d) =
  e.Name == jtext(d, "error") && e.State == jtext(d, "state") && strs(e.Scope) == jscope(d) && e.Realm == jtext(d, "realm") &&
  e.Description == jtext(d, "error_description") && e.URI == jtext(d, "error_uri") && e.Headers == nil && e.RedirectURI == "" && !e.UseFragment;

func ParseRequestError(res, n) (err) {
  requires "response": res != nil && res.Body != nil;
  modifies rdata(res.Body);
  case oauth when errorok(readdata(res.Body), n) {
    new err : Error;
    ensures [K02] "the decoded error": decodederror(as(err, Error), old(considered(readdata(res.Body), n)));
    ensures [K02] "with the status of the response": as(err, Error).Status == old(res.StatusCode);
  }
  case other {
    ensures [K02] "an error naming the response status": err != nil && !isknown(err) && contains(errtext(err), old(res.Status));
  }
  safe [K02]; frame [K02];
}

func ParseTokenResponse(res, n) (trs, err) {
  requires "response": res != nil && res.Body != nil;
  modifies rdata(res.Body);
  case decoded when tokenok200(content(res.Header), readdata(res.Body), n) {
    new trs : TokenResponse;
    ensures [K02] "no error": err == nil;
    ensures [K02] "the decoded fields": decodedtoken(trs, old(considered(readdata(res.Body), n)));
  }
  case failed {
    ensures [K02] "an error and no result": trs == nil && err != nil;
  }
  safe [K02]; frame [K02];
}

func ParseIntrospectionResponse(res, n) (irs, err) {
  requires "response": res != nil && res.Body != nil;
  modifies rdata(res.Body);
  case decoded when introspectionok200(content(res.Header), readdata(res.Body), n) {
    new irs : IntrospectionResponse;
    ensures [K02] "no error": err == nil;
    ensures [K02] "the decoded fields": decodedintrospection(irs, old(considered(readdata(res.Body), n)));
  }
  case failed {
    ensures [K02] "an error and no result": irs == nil && err != nil;
  }
  safe [K02]; frame [K02];
}

func Default(baseURI) (config) {
  ensures [K01] "default endpoints": config.BaseURI == baseURI && config.TokenEndpoint == "/oauth2/token" &&
    config.IntrospectionEndpoint == "/oauth2/introspect" && config.RevocationEndpoint == "/oauth2/revoke" && config.ResponseLimit == 0;
  safe [K01]; frame [K01];
}

define effectivelimit(n) = n == 0 ? 2048 : n;
define configured(c, config) =
  c.config.BaseURI == config.BaseURI && c.config.TokenEndpoint == config.TokenEndpoint && c.config.IntrospectionEndpoint == config.IntrospectionEndpoint &&
  c.config.RevocationEndpoint == config.RevocationEndpoint && c.config.ResponseLimit == effectivelimit(config.ResponseLimit);

func NewClientWithClient(config, client) (c) {
  case always {
    new c : Client;
    ensures [K01] "configured": configured(c, config) && c.client == client;
  }
  safe [K01]; frame [K01];
}
func NewClient(config) (c) {
  case always {
    new c : Client;
    ensures [K01] "configured": configured(c, config) && c.client != nil;
  }
  safe [K01]; frame [K01];
}

// One exchange: exactly this request was sent through the client's transport.
define sentone(c, uri, mm, id, secret) =
  ghost(net.count) == old(ghost(net.count)) + 1 && ghost(net.client) == ref(c.client) && ghost(net.method) == "POST" &&
  ghost(net.url) == parsedurl(uri) && ghost(net.body) == enc(mm) && ghost(net.header) == builtheader(id, secret);
define nothingsent() = ghost(net.count) == old(ghost(net.count));
define answered() = ghost(net.failed) == 0;
define bodyclosed() = closed(ghost(net.resbody)) >= 1;
define failure(err, n) =
  errorok(ghost(net.data), n)
    ? isknown(err) && decodederror(as(err, Error), considered(ghost(net.data), n)) && as(err, Error).Status == ghost(net.code)
    : err != nil && !isknown(err) && contains(errtext(err), ghost(net.text));

func Client.Authenticate(c, trq) (trs, err) {
  requires "client": c != nil && c.client != nil;
  let uri = c.config.BaseURI + c.config.TokenEndpoint;
  let vals = tokenvalues(trq);
  let n = c.config.ResponseLimit;
  case invalid when !parseok(uri) {
    ensures [K01] "nothing is sent": nothingsent();
    ensures [K01] "an error": trs == nil && err != nil;
  }
  case exchange {
    modifies net();
    ensures [K01] "exactly one request with the values and credentials": sentone(c, uri, vals, trq.ClientID, trq.ClientSecret);
    ensures [K02] "no result without an answer": !answered() ==> trs == nil && err != nil;
    ensures [K02] "the body is closed": answered() ==> bodyclosed();
    ensures [K02] "success exactly for a valid 200 response": (err == nil) <==> (answered() && ghost(net.code) == 200 && tokenok200(ghost(net.reshdr), ghost(net.data), n));
    ensures [K02] "the decoded fields": err == nil ==> trs != nil && decodedtoken(trs, considered(ghost(net.data), n));
    ensures [K02] "no result with an error": err != nil ==> trs == nil;
    ensures [K02] "other statuses yield the error of the response": answered() && ghost(net.code) != 200 ==> failure(err, n);
  }
  safe [K01 K02]; frame [K01];
}
func Client.Introspect(c, irq) (irs, err) {
  requires "client": c != nil && c.client != nil;
  let uri = c.config.BaseURI + c.config.IntrospectionEndpoint;
  let vals = lookupvalues(irq);
  let n = c.config.ResponseLimit;
  case invalid when !parseok(uri) {
    ensures [K01] "nothing is sent": nothingsent();
    ensures [K01] "an error": irs == nil && err != nil;
  }
  case exchange {
    modifies net();
    ensures [K01] "exactly one request with the values and credentials": sentone(c, uri, vals, irq.ClientID, irq.ClientSecret);
    ensures [K02] "no result without an answer": !answered() ==> irs == nil && err != nil;
    ensures [K02] "the body is closed": answered() ==> bodyclosed();
    ensures [K02] "success exactly for a valid 200 response": (err == nil) <==> (answered() && ghost(net.code) == 200 && introspectionok200(ghost(net.reshdr), ghost(net.data), n));
    ensures [K02] "the decoded fields": err == nil ==> irs != nil && decodedintrospection(irs, considered(ghost(net.data), n));
    ensures [K02] "no result with an error": err != nil ==> irs == nil;
    ensures [K02] "other statuses yield the error of the response": answered() && ghost(net.code) != 200 ==> failure(err, n);
  }
  safe [K01 K02]; frame [K01];
}
func Client.Revoke(c, rrq) (err) {
  requires "client": c != nil && c.client != nil;
  let uri = c.config.BaseURI + c.config.RevocationEndpoint;
  let vals = lookupvalues(rrq);
  let n = c.config.ResponseLimit;
  case invalid when !parseok(uri) {
    ensures [K01] "nothing is sent": nothingsent();
    ensures [K01] "an error": err != nil;
  }
  case exchange {
    modifies net();
    ensures [K01] "exactly one request with the values and credentials": sentone(c, uri, vals, rrq.ClientID, rrq.ClientSecret);
    ensures [K02] "no result without an answer": !answered() ==> err != nil;
    ensures [K02] "the body is closed": answered() ==> bodyclosed();
    ensures [K02] "success exactly for a 200 response": (err == nil) <==> (answered() && ghost(net.code) == 200);
    ensures [K02] "other statuses yield the error of the response": answered() && ghost(net.code) != 200 ==> failure(err, n);
  }
  safe [K01 K02]; frame [K01];
}
