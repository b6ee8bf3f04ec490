// Bearer tokens.

define bearerok(h) = len(h) >= 8 && lower(substr(h, 0, 6)) == "bearer" && substr(h, 6, 1) == " ";
define bearertoken(h) = substr(h, 7, len(h) - 7);

func NewBearerTokenResponse(token, expiresIn) (res) {
  case always {
    new res : TokenResponse;
    ensures [W03] "bearer type": res.TokenType == "bearer" && res.AccessToken == token && res.ExpiresIn == expiresIn;
    ensures [W03] "nothing else set": res.RefreshToken == "" && nilslice(res.Scope) && res.State == "" && res.RedirectURI == "";
  }
  safe [W03]; frame [W03];
}

func ParseBearerToken(r) (token, err) {
  requires "request": r != nil;
  case present when bearerok(authheader(r)) {
    ensures [B01] "everything after the space": token == old(bearertoken(authheader(r)));
    ensures [B01] "no error": err == nil;
  }
  case missing when authheader(r) == "" {
    new err : Error;
    ensures [B01] "protected resource": token == "" && isdirect(err, "", 401) && as(err, Error).Description == "" && as(err, Error).Headers == nil;
  }
  case malformed {
    new err : Error;
    ensures [B01] "invalid request": token == "" && isinvalidrequest(err);
  }
  safe [B01]; frame [B01];
}

define statusok(n) = 100 <= n && n <= 999;
define isknown(err) = is(err, Error);

func WriteBearerError(w, err) (res) {
  requires "fresh response": unstarted(w);
  requires "error with a valid status": err != nil && (isknown(err) ==> as(err, Error) != nil && statusok(as(err, Error).Status));
  modifies writer(w);
  case known when isknown(err) && as(err, Error).Status != 500 {
    ensures [B02] "the status of the error": status(w) == old(as(err, Error).Status) && headercalls(w) == 1;
    ensures [B02] "a single bearer challenge": sent(w) == old(let p := challengeparams(errattrs(as(err, Error)));
        put(content(whdr(w)), "Www-Authenticate", "Bearer " + (p == "" ? "realm=\"OAuth2\"" : p)));
    ensures [B02] "empty body": body(w) == "";
  }
  case other {
    ensures [B02] "bare internal server error": status(w) == 500 && headercalls(w) == 1 && sent(w) == old(content(whdr(w)));
    ensures [B02] "empty body": body(w) == "";
  }
  safe [B02]; frame [B02];
}
