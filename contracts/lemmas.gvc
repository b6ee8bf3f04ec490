// How functions fit together: contracts of the lemma functions in lemmas/root.go.

lemma verifGenerated(secret, length) (tk, back, err) {
  requires "length": 0 <= length;
  modifies ghost(rng);
  case generated when rngok(ghost(rng)) {
    ensures [T02] "the text form parses back": err == nil && tk != nil && back != nil && bytes(back.Key) == bytes(tk.Key) && bytes(back.Signature) == bytes(tk.Signature);
  }
  case failed {
    ensures [T02] "no token without randomness": err != nil && tk == nil && back == nil;
  }
  safe [T02];
}

lemma verifReparsed(str) (a, b) {
  uses [S02] scanplain, scanid, plainnospace;
  ensures [S02] "formatting a parsed scope and parsing it again yields the same scope": strs(a) == strs(b);
  safe [S02];
}

// Fields that survive: a scope of plain elements, a client id without colon.
define plainscope(s) = plain(strs(s));

lemma verifTokenRequest(uri, t) (req, err) {
  uses [R04] scanid, plainnospace;
  requires "acceptable": parseok(uri) && queryok(uri) && t.GrantType != "" && t.ClientID != "" && !contains(t.ClientID, ":") && plainscope(t.Scope) &&
    (t.RedirectURI == "" || plainuri(t.RedirectURI));
  ensures [R04] "the fields come back": err == nil && req != nil && req.GrantType == t.GrantType && req.ClientID == t.ClientID && req.ClientSecret == t.ClientSecret &&
    req.Username == t.Username && req.Password == t.Password && req.RefreshToken == t.RefreshToken && req.RedirectURI == t.RedirectURI && req.Code == t.Code;
  ensures [R04] "the scope comes back": strs(req.Scope) == old(strs(t.Scope));
  safe [R04];
}

lemma verifIntrospectionRequest(uri, t) (req, err) {
  requires "acceptable": parseok(uri) && queryok(uri) && t.Token != "" && (t.ClientID != "" || t.ClientSecret != "") && !contains(t.ClientID, ":");
  ensures [R04] "the fields come back": err == nil && req != nil && req.Token == t.Token && req.TokenTypeHint == t.TokenTypeHint && req.ClientID == t.ClientID && req.ClientSecret == t.ClientSecret;
  safe [R04];
}

lemma verifRevocationRequest(uri, t) (req, err) {
  requires "acceptable": parseok(uri) && queryok(uri) && t.Token != "" && (t.ClientID != "" || t.ClientSecret != "") && !contains(t.ClientID, ":");
  ensures [R04] "the fields come back": err == nil && req != nil && req.Token == t.Token && req.TokenTypeHint == t.TokenTypeHint && req.ClientID == t.ClientID && req.ClientSecret == t.ClientSecret;
  safe [R04];
}
