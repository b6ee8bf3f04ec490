// Token responses.

func NewTokenResponse(tokenType, accessToken, expiresIn) (res) {
  case always {
    new res : TokenResponse;
    ensures [W03] "holds the arguments": res.TokenType == tokenType && res.AccessToken == accessToken && res.ExpiresIn == expiresIn;
    ensures [W03] "nothing else set": res.RefreshToken == "" && nilslice(res.Scope) && res.State == "" && res.RedirectURI == "";
  }
  safe [W03]; frame [W03];
}
func TokenResponse.SetRedirect(t, uri, state) (res) {
  requires "response": t != nil;
  modifies t.State, t.RedirectURI;
  ensures [W03] "returns the response": res == t;
  ensures [W03] "marked for redirect": t.State == state && t.RedirectURI == uri;
  safe [W03]; frame [W03];
}

define tokenattrs(t) =
  putif(t.State != "",
  putif(!nilslice(t.Scope),
  putif(t.RefreshToken != "",
  put(put(put(emptymm(), "token_type", t.TokenType), "access_token", t.AccessToken), "expires_in", itoa(t.ExpiresIn)),
    "refresh_token", t.RefreshToken), "scope", join(strs(t.Scope), " ")), "state", t.State);

func TokenResponse.Map(t) (m) {
  requires "response": t != nil;
  case always {
    new m : stringmap;
    ensures [W03] "exactly the present attributes": single(m) == old(tokenattrs(t));
  }
  safe [W03]; frame [W03];
}

define tokendoc(t) =
  fieldif(t.State != "",
  fieldif(len(t.Scope) > 0,
  fieldif(t.RefreshToken != "",
  field(field(field(emptydoc(), "token_type", t.TokenType), "access_token", t.AccessToken), "expires_in", t.ExpiresIn),
    "refresh_token", t.RefreshToken), "scope", join(strs(t.Scope), " ")), "state", t.State);

func WriteTokenResponse(w, t) (err) {
  requires "fresh response": unstarted(w) && !("Location" in content(whdr(w)));
  requires "response": t != nil;
  case direct when t.RedirectURI == "" {
    modifies writer(w);
    ensures [W01] "status": status(w) == 200 && headercalls(w) == 1;
    ensures [W01] "headers": sent(w) == old(jsonheaders(content(whdr(w))));
    ensures [W01] "exactly the standard fields": jdoc(body(w)) == old(tokendoc(t));
  }
  case redirect when uriok(t.RedirectURI) {
    modifies writer(w);
    ensures [W03] "redirect": status(w) == 303 && headercalls(w) == 1 && body(w) == "";
    ensures [W03] "parameters in the fragment": sent(w) == old(redirectheaders(content(whdr(w)), redirloc(t.RedirectURI, tokenattrs(t), true)));
  }
  case refused {
    ensures [W03] "an unparsable URI is an error": err != nil;
    ensures [W03] "no response": unstarted(w);
  }
  safe [W01 W03]; frame [W01 W03];
}
