// Introspection responses.

func NewIntrospectionResponse(active, scope, clientID, username, tokenType) (res) {
  case always {
    new res : IntrospectionResponse;
    ensures [W01] "holds the arguments": res.Active == active && res.Scope == scope && res.ClientID == clientID && res.Username == username && res.TokenType == tokenType;
    ensures [W01] "nothing else set": res.ExpiresAt == 0 && res.IssuedAt == 0 && res.NotBefore == 0 && res.Subject == "" && res.Audience == "" &&
      res.Issuer == "" && res.Identifier == "" && res.Extra == nil;
  }
  safe [W01]; frame [W01];
}

define introspectiondoc(t) =
  fieldif(t.Identifier != "",
  fieldif(t.Issuer != "",
  fieldif(t.Audience != "",
  fieldif(t.Subject != "",
  fieldif(t.NotBefore != 0,
  fieldif(t.IssuedAt != 0,
  fieldif(t.ExpiresAt != 0,
  fieldif(t.TokenType != "",
  fieldif(t.Username != "",
  fieldif(t.ClientID != "",
  fieldif(len(t.Scope) > 0,
  field(emptydoc(), "active", t.Active),
    "scope", join(strs(t.Scope), " ")), "client_id", t.ClientID), "username", t.Username), "token_type", t.TokenType), "exp", t.ExpiresAt),
    "iat", t.IssuedAt), "nbf", t.NotBefore), "sub", t.Subject), "aud", t.Audience), "iss", t.Issuer), "jti", t.Identifier);

define knowntokentype(s) = s == "access_token" || s == "refresh_token";

func WriteIntrospectionResponse(w, t) (err) {
  requires "fresh response": unstarted(w);
  requires "response without extra fields": t != nil && t.Extra == nil;
  case refused when t.Active && !knowntokentype(t.TokenType) {
    ensures [W01] "an active token of unknown type is refused": err != nil;
    ensures [W01] "nothing is written": unstarted(w);
  }
  case written {
    modifies writer(w);
    ensures [W01] "status": status(w) == 200 && headercalls(w) == 1;
    ensures [W01] "headers": sent(w) == old(jsonheaders(content(whdr(w))));
    ensures [W01] "exactly the standard fields": jdoc(body(w)) == old(introspectiondoc(t));
  }
  safe [W01]; frame [W01];
}
