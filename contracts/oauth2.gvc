// Type predicates and response writing.

func KnownGrantType(str) (ok) {
  ensures [A16] "exactly the standard grant types": ok <==> (str == "password" || str == "client_credentials" || str == "authorization_code" || str == "refresh_token");
  safe [A16]; frame [A16];
}
func KnownResponseType(str) (ok) {
  ensures [A16] "exactly the standard response types": ok <==> (str == "token" || str == "code");
  safe [A16]; frame [A16];
}
func KnownTokenType(str) (ok) {
  ensures [A16] "exactly the standard token types": ok <==> (str == "access_token" || str == "refresh_token");
  safe [A16]; frame [A16];
}

// A response that has not been started.
define unstarted(w) = w != nil && status(w) == 0 && headercalls(w) == 0 && body(w) == "";
define jsonheaders(mm) = put(put(put(mm, "Content-Type", "application/json;charset=UTF-8"), "Cache-Control", "no-store"), "Pragma", "no-cache");
define redirectheaders(mm, loc) = put(put(put(put(mm, "Location", loc), "Cache-Control", "no-store"), "Pragma", "no-cache"), "Referrer-Policy", "origin");

func Write(w, obj, code) (err) {
  inline;
  requires "fresh response": unstarted(w);
  requires "valid status": 100 <= code && code <= 999;
  modifies writer(w);
  ensures [W01] "status": status(w) == code && headercalls(w) == 1;
  ensures [W01] "headers set before the status line": sent(w) == old(jsonheaders(content(whdr(w))));
  ensures [W01] "JSON document": jencodable(obj) ==> body(w) == jany(obj) + "\n" || body(w) == jany(obj);
  ensures [W01] "unencodable values have no document": !jencodable(obj) ==> err != nil && body(w) == "";
  safe [W01]; frame [W01];
}

// The location of a redirect that transmits the entries of mm.
define redirloc(uri, mm, frag) =
  frag ? uritext(uri) + (mm == emptymm() ? "" : "#" + enc(mm)) : uriwith(uri, formmerge(uriquery(uri), mm));

func WriteRedirect(w, uri, params, useFragment) (err) {
  requires "fresh response": unstarted(w) && !("Location" in content(whdr(w)));
  case redirect when uriok(uri) {
    modifies writer(w);
    ensures [W02] "see other": status(w) == 303 && headercalls(w) == 1;
    ensures [W02] "location and cache headers": sent(w) == old(redirectheaders(content(whdr(w)), redirloc(uri, single(params), useFragment)));
    ensures [W02] "empty body": body(w) == "";
  }
  case refused {
    ensures [W02] "an unparsable URI is an error": err != nil;
    ensures [W02] "no response": unstarted(w);
  }
  safe [W02]; frame [W02];
}
