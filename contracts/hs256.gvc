// HMAC-SHA256 tokens.

define tokparts(str) = split(str, ".");
define tokkey(str) = b64dec(rawurl(), tokparts(str)[0]);
define toksig(str) = b64dec(rawurl(), tokparts(str)[1]);
// The text is a token signed under the secret (a byte string).
define authentic(secret, str) =
  len(tokparts(str)) == 2 && b64ok(rawurl(), tokparts(str)[0]) && b64ok(rawurl(), tokparts(str)[1]) &&
  hmac256(secret, tokkey(str)) == toksig(str);
// Canonical signature text under which a token is recorded.
define sigtext(str) = b64enc(rawurl(), toksig(str));
define tokentext(key, sig) = b64enc(rawurl(), key) + "." + b64enc(rawurl(), sig);

func HS256TokenFromKey(secret, key) (tk) {
  case always {
    new tk : HS256Token;
    ensures [T01 T02] "keeps the key": bytes(tk.Key) == bytes(key);
    ensures [T01 T02] "signature is the HMAC of the key": bytes(tk.Signature) == hmac256(bytes(secret), bytes(key));
    ensures "memory": !nilslice(tk.Signature) && ref(tk.Key) == ref(key);
  }
  safe [T01];
  frame [T01];
}

func HS256Token.Equal(t, signature) (ok) {
  requires "token": t != nil;
  ensures [T01] "equal exactly when the bytes are": ok <==> bytes(t.Signature) == bytes(signature);
  safe [T01];
  frame [T01];
}

func HS256Token.Valid(t, secret) (ok) {
  requires "token": t != nil;
  ensures [T01] "valid exactly when the signature is the HMAC of the key": ok <==> bytes(t.Signature) == hmac256(bytes(secret), bytes(t.Key));
  safe [T01];
  frame [T01];
}

func HS256Token.KeyString(t) (str) {
  requires "token": t != nil;
  ensures [T02] "unpadded URL-safe base64 of the key": str == b64enc(rawurl(), bytes(t.Key));
  safe [T02];
  frame [T02];
}

func HS256Token.SignatureString(t) (str) {
  requires "token": t != nil;
  ensures [T02] "unpadded URL-safe base64 of the signature": str == b64enc(rawurl(), bytes(t.Signature));
  safe [T02];
  frame [T02];
}

func HS256Token.String(t) (str) {
  requires "token": t != nil;
  ensures [T02] "key and signature text separated by a dot": str == tokentext(bytes(t.Key), bytes(t.Signature));
  safe [T02];
  frame [T02];
}

func GenerateHS256Token(secret, length) (tk, err) {
  requires "length": 0 <= length;
  modifies ghost(rng);
  ensures "one read": ghost(rng) == old(ghost(rng)) + 1;
  case generated when rngok(ghost(rng)) {
    new tk : HS256Token;
    ensures [T02] "no error": err == nil;
    ensures [T02] "key is fresh randomness of the requested length": bytes(tk.Key) == rnd(old(ghost(rng)), length);
    ensures [T02] "signed": bytes(tk.Signature) == hmac256(bytes(secret), bytes(tk.Key));
  }
  case failed {
    ensures [T02] "a failing source yields an error": tk == nil && err != nil;
  }
  safe [T02];
  frame [T02];
}

func MustGenerateHS256Token(secret, length) (tk) {
  requires "length": 0 <= length;
  modifies ghost(rng);
  ensures "one read": ghost(rng) == old(ghost(rng)) + 1;
  case generated when rngok(ghost(rng)) {
    new tk : HS256Token;
    ensures [T02] "key is fresh randomness of the requested length": bytes(tk.Key) == rnd(old(ghost(rng)), length);
    ensures [T02] "signed": bytes(tk.Signature) == hmac256(bytes(secret), bytes(tk.Key));
  }
  case failed {
    ensures [T02] "a failing source": ghost(rng) == old(ghost(rng)) + 1;
    panics;
  }
  safe [T02];
  frame [T02];
}

func ServerConfig.MustGenerate(c) (tk) {
  requires "length": 0 <= c.KeyLength;
  modifies ghost(rng);
  ensures "one read": ghost(rng) == old(ghost(rng)) + 1;
  case generated when rngok(ghost(rng)) {
    new tk : HS256Token;
    ensures [T02] "key is fresh randomness of the configured length": bytes(tk.Key) == rnd(old(ghost(rng)), c.KeyLength);
    ensures [T02] "signed under the configured secret": bytes(tk.Signature) == hmac256(bytes(c.Secret), bytes(tk.Key));
  }
  case failed {
    ensures [T02] "a failing source": ghost(rng) == old(ghost(rng)) + 1;
    panics;
  }
  safe [T02];
  frame [T02];
}

func ParseHS256Token(secret, str) (tk, err) {
  case accepted when authentic(bytes(secret), str) {
    new tk : HS256Token;
    ensures [T01] "accepted": err == nil;
    ensures [T01] "decoded key": bytes(tk.Key) == tokkey(str);
    ensures [T01] "decoded signature": bytes(tk.Signature) == toksig(str);
  }
  case rejected {
    ensures [T01] "rejected": tk == nil && err != nil;
  }
  safe [T01];
  frame [T01];
}
