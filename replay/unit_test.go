package verifreplay

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"mime"
	"net/http"
	"net/http/httptest"
	"net/url"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"github.com/256dpi/oauth2/v2"
	"github.com/256dpi/oauth2/v2/oauth2test"
	"github.com/256dpi/oauth2/v2/verifreplay/arand"
)

func init() {
	trials["T01"] = tokenTrial
	trials["T02"] = tokenTrial
	trials["S01"] = scopeTrial
	trials["S02"] = scopeTrial
	for _, p := range []string{"R01", "R02", "R03"} {
		trials[p] = parseTrial
	}
	trials["R04"] = buildTrial
	trials["B01"] = bearerTrial
	trials["B02"] = challengeTrial
	trials["W01"] = jsonTrial
	trials["W02"] = redirectTrial
	trials["W03"] = mapTrial
	trials["E01"] = constructorTrial
	trials["E02"] = writeErrorTrial
	trials["K01"] = clientTrial
	trials["K02"] = clientTrial
	trials["X01"] = kitTrial
}

// ---------- tokens ----------

func tokenTrial(t *run) {
	secret, key := t.bytes(t.rnd.Intn(40)), t.bytes(t.rnd.Intn(70))
	if t.chance(4) {
		secret = []byte("secret")
	}
	t.note("secret %q key %x", secret, key)
	s0, k0 := string(secret), string(key)

	var tk *oauth2.HS256Token
	p := call(func() { tk = oauth2.HS256TokenFromKey(secret, key) })
	t.check("T01 T02", p == nil && tk != nil, "HS256TokenFromKey failed: %v", p)
	t.check("T01 T02", bytes.Equal(tk.Key, key), "HS256TokenFromKey: key %x", tk.Key)
	t.check("T01 T02", bytes.Equal(tk.Signature, mac(secret, key)), "HS256TokenFromKey: signature %x", tk.Signature)
	var ks, ss, str string
	p = call(func() { ks, ss, str = tk.KeyString(), tk.SignatureString(), tk.String() })
	t.check("T02", p == nil && ks == enc.EncodeToString(key) && ss == enc.EncodeToString(mac(secret, key)) && str == ks+"."+ss, "text forms %q %q %q %v", ks, ss, str, p)

	// generation
	n := []int{0, 1, 8, 16, 32, 33, 64, t.rnd.Intn(100)}[t.rnd.Intn(8)]
	arand.Reset()
	fail := t.chance(4)
	if fail {
		arand.Fail(0, t.chance(2))
	}
	var gen *oauth2.HS256Token
	var err error
	p = call(func() { gen, err = oauth2.GenerateHS256Token(secret, n) })
	arand.Works()
	t.note("GenerateHS256Token(secret, %d), failing source: %v", n, fail)
	if fail && n > 0 {
		t.check("T02", p == nil && gen == nil && err != nil, "result %v %v %v", gen, err, p)
		arand.Fail(0, t.chance(2))
		p = call(func() { gen = oauth2.MustGenerateHS256Token(secret, n) })
		arand.Works()
		t.check("T02", p != nil, "MustGenerateHS256Token returned %v despite a failing source", gen)
	} else if n > 0 || !fail {
		read := arand.Log()
		t.check("T02", p == nil && err == nil && gen != nil, "result %v %v %v", gen, err, p)
		t.check("T02", len(gen.Key) == n && bytes.Equal(gen.Key, read), "key %x but read %x", gen.Key, read)
		t.check("T02", bytes.Equal(gen.Signature, mac(secret, gen.Key)), "signature %x", gen.Signature)
		arand.Reset()
		p = call(func() { gen = oauth2.MustGenerateHS256Token(secret, n) })
		t.check("T02", p == nil && gen != nil && bytes.Equal(gen.Key, arand.Log()) && len(gen.Key) == n && bytes.Equal(gen.Signature, mac(secret, gen.Key)), "MustGenerateHS256Token: %v %v", gen, p)
		var back *oauth2.HS256Token
		p = call(func() { back, err = oauth2.ParseHS256Token(secret, gen.String()) })
		t.check("T02", p == nil && err == nil && back != nil && bytes.Equal(back.Key, gen.Key) && bytes.Equal(back.Signature, gen.Signature), "the token does not parse back: %v %v %v", back, err, p)
		conf := oauth2.DefaultServerConfig(secret, nil)
		conf.KeyLength = n
		arand.Reset()
		p = call(func() { gen = conf.MustGenerate() })
		t.check("T02", p == nil && gen != nil && len(gen.Key) == n && bytes.Equal(gen.Key, arand.Log()) && bytes.Equal(gen.Signature, mac(secret, gen.Key)), "ServerConfig.MustGenerate: %v %v", gen, p)
	}

	// parsing
	good := tokenText(secret, key)
	k, s := enc.EncodeToString(key), enc.EncodeToString(mac(secret, key))
	in := good
	switch t.rnd.Intn(16) {
	case 0:
		in = t.text()
	case 1:
		in = k + "." + enc.EncodeToString(mac(t.bytes(3), key))
	case 2:
		in = k + "." + enc.EncodeToString(mac(secret, key)[:t.rnd.Intn(32)])
	case 3:
		in = k + "." + s + t.pick(".", ".x", "=", "A", "\n", " ", "."+s)
	case 4:
		in = t.pick(".", "\n", " ", "..", "") + good
	case 5:
		b := []byte(good)
		b[t.rnd.Intn(len(b))] = t.text0()
		in = string(b)
	case 6:
		in = base64.StdEncoding.EncodeToString(key) + "." + base64.StdEncoding.EncodeToString(mac(secret, key))
	case 7:
		in = base64.RawStdEncoding.EncodeToString(key) + "." + base64.RawStdEncoding.EncodeToString(mac(secret, key))
	case 8:
		in = k + "." + enc.EncodeToString(append(mac(secret, key), t.bytes(1+t.rnd.Intn(3))...))
	case 9:
		in = k + "."
	case 10:
		in = k
	case 11:
		in = s + "." + k
	case 12:
		in = enc.EncodeToString(append(append([]byte(nil), key...), t.bytes(1)...)) + "." + s
	case 13:
		// bits beyond the last byte are ignored by the decoder
		b := []byte(good)
		b[len(b)-1] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_"[t.rnd.Intn(64)]
		in = string(b)
	}
	wk, ws, ok := parts(secret, in)
	t.note("ParseHS256Token(secret, %q), should succeed: %v", in, ok)
	var got *oauth2.HS256Token
	p = call(func() { got, err = oauth2.ParseHS256Token(secret, in) })
	t.check("T01", p == nil, "panic: %v", p)
	if ok {
		t.check("T01", err == nil && got != nil && bytes.Equal(got.Key, wk) && bytes.Equal(got.Signature, ws), "got %v %v", got, err)
	} else {
		t.check("T01", err != nil && got == nil, "got %v %v", got, err)
	}

	// validity
	sig := mac(secret, key)
	switch t.rnd.Intn(6) {
	case 0:
		sig[t.rnd.Intn(len(sig))] ^= byte(1 << uint(t.rnd.Intn(8)))
	case 1:
		sig = sig[:t.rnd.Intn(len(sig))]
	case 2:
		sig = append(sig, 0)
	case 3:
		sig = nil
	}
	x := &oauth2.HS256Token{Key: key, Signature: sig}
	other := mac(secret, key)
	if t.chance(3) {
		other = sig[:len(sig)/2]
	}
	var valid, equal bool
	p = call(func() { valid, equal = x.Valid(secret), x.Equal(other) })
	t.note("token with signature %x, compared with %x", sig, other)
	t.check("T01", p == nil && valid == bytes.Equal(sig, mac(secret, key)), "Valid = %v %v", valid, p)
	t.check("T01", p == nil && equal == bytes.Equal(sig, other), "Equal = %v %v", equal, p)
	t.check("T01 T02", string(secret) == s0 && string(key) == k0, "the inputs were modified")
}

func (t *run) text0() byte {
	const c = "ABCabc012-_+/=. \n\r"
	return c[t.rnd.Intn(len(c))]
}

// ---------- scopes ----------

func (t *run) scope() oauth2.Scope {
	var s oauth2.Scope
	if t.chance(8) {
		return oauth2.Scope{}
	}
	for n := t.rnd.Intn(5); n > 0; n-- {
		if t.chance(4) {
			s = append(s, t.text())
		} else {
			s = append(s, t.pick("foo", "bar", "baz", "Foo", "fo", "foobar", "foo ", ""))
		}
	}
	return s
}

func (t *run) plainScope() oauth2.Scope {
	var s oauth2.Scope
	for n := t.rnd.Intn(4); n > 0; n-- {
		s = append(s, t.plain())
	}
	return s
}

func scopeTrial(t *run) {
	a, b, e := t.scope(), t.scope(), t.pick("foo", "bar", "Foo", "fo", "", "foo ", "foobar", t.text())
	if t.chance(3) {
		b = append(oauth2.Scope{}, a...)
		t.rnd.Shuffle(len(b), func(i, j int) { b[i], b[j] = b[j], b[i] })
	}
	a0, b0 := append([]string{}, a...), append([]string{}, b...)
	var contains, includes, empty bool
	p := call(func() { contains, includes, empty = a.Contains(e), a.Includes(b), a.Empty() })
	t.note("a = %q, b = %q, e = %q", a, b, e)
	t.check("S01", p == nil, "panic: %v", p)
	t.check("S01", contains == within([]string{e}, a0), "a.Contains(e) = %v", contains)
	t.check("S01", includes == within(b0, a0), "a.Includes(b) = %v", includes)
	t.check("S01", empty == (len(a0) == 0), "a.Empty() = %v", empty)
	t.check("S01 S02", sameList(a, a0) && sameList(b, b0), "a scope was modified")

	str := t.text() + t.pick(" ", "  ", "", "\t", "\n", " \u00a0 ") + t.text() + t.pick(" ", "") + t.text()
	var sc, back oauth2.Scope
	var out string
	p = call(func() { sc = oauth2.ParseScope(str); out = sc.String(); back = oauth2.ParseScope(out) })
	t.note("ParseScope(%q) = %q, formatted %q, parsed again %q", str, sc, out, back)
	t.check("S02", p == nil && sameList(sc, pieces(str)), "should be %q %v", pieces(str), p)
	t.check("S02", out == strings.Join(pieces(str), " "), "formatted as %q", out)
	t.check("S02", sameList(back, sc), "does not round-trip")
	var as string
	p = call(func() { as = a.String() })
	t.check("S02", p == nil && as == strings.Join(a0, " "), "a.String() = %q %v", as, p)

	var buf []byte
	var err error
	p = call(func() { buf, err = json.Marshal(a) })
	want, _ := json.Marshal(strings.Join(a0, " "))
	t.check("S02", p == nil && err == nil && bytes.Equal(buf, want), "JSON of a = %s %v %v", buf, err, p)
	in := []byte(t.pick(string(want), `"foo  bar"`, `""`, `" "`, `null`, `1`, `["foo"]`, `{}`, `"a`, ``, ` "x" `, `"x" y`, `true`))
	target := append(oauth2.Scope{}, "old")
	p = call(func() { err = target.UnmarshalJSON(in) })
	var ws string
	werr := json.Unmarshal(in, &ws)
	t.note("UnmarshalJSON(%s) = %v, scope %q", in, err, target)
	t.check("S02", p == nil && (err == nil) == (werr == nil), "error should be %v (%v)", werr, p)
	if werr != nil {
		t.check("S02", sameList(target, []string{"old"}), "the scope was changed by malformed JSON")
	} else {
		t.check("S02", sameList(target, pieces(ws)), "should be %q", pieces(ws))
	}
}

// ---------- request parsing ----------

func isInvalidRequest(err error) bool {
	e, ok := err.(*oauth2.Error)
	return ok && e != nil && e.Name == "invalid_request" && e.Status == 400
}

func parseTrial(t *run) {
	vals := url.Values{}
	set := func(k string, v string) {
		if !t.chance(8) {
			vals.Set(k, v)
		}
		if t.chance(15) {
			vals.Add(k, t.text())
		}
	}
	auth := ""
	switch t.rnd.Intn(4) {
	case 0, 1:
		auth = basic(t.pick("c1", "c1", "", t.text()), t.maybe())
	case 2:
		if t.chance(2) {
			auth = t.pick("Basic", "Basic ", "Bearer x", "basic "+base64.StdEncoding.EncodeToString([]byte("u:p")), "Basic "+base64.StdEncoding.EncodeToString([]byte("up")), "Basic "+base64.RawStdEncoding.EncodeToString([]byte("u:pp")), "Basic %%%", "Digest "+base64.StdEncoding.EncodeToString([]byte("u:p")))
		}
	}
	uri := t.uri()
	if t.chance(2) {
		uri = "http://example.com/cb"
	}
	if t.chance(4) {
		uri = url.QueryEscape(uri)
	}
	switch t.prop {
	case "R01":
		set("response_type", t.pick("token", "code", "x", t.text()))
		set("client_id", t.pick("c1", "c2", t.text()))
		set("redirect_uri", uri)
		set("scope", t.text())
		set("state", t.text())
		method := t.pick("GET", "POST")
		s := t.request(method, "/authorize", vals, auth)
		if t.chance(3) && s.method == "POST" {
			// the same parameter in query and body
			s.query = url.Values{t.pick("client_id", "redirect_uri", "state", "response_type", "scope"): {t.plain()}}.Encode()
		}
		t.note("ParseAuthorizationRequest(%v)", s)
		in := s.parse()
		f := in.form
		uri, uerr := url.QueryUnescape(first(f, "redirect_uri"))
		ok := (s.method == "GET" || s.method == "POST") && in.ok && first(f, "response_type") != "" && first(f, "client_id") != "" && uerr == nil && uri != "" && goodURI(uri)
		var req *oauth2.AuthorizationRequest
		var err error
		p := call(func() { req, err = oauth2.ParseAuthorizationRequest(s.build()) })
		t.note("should be accepted: %v; result %+v, %v", ok, req, err)
		t.check("R01", p == nil, "panic: %v", p)
		if !ok {
			t.check("R01", req == nil && isInvalidRequest(err), "should be rejected with invalid_request")
			return
		}
		t.check("R01", err == nil && req != nil, "should be accepted")
		t.check("R01", req.ResponseType == first(f, "response_type") && req.ClientID == first(f, "client_id") && req.RedirectURI == uri && req.State == first(f, "state") && sameList(req.Scope, pieces(first(f, "scope"))), "fields differ from the parameters")
	case "R02":
		set("grant_type", t.pick("password", "refresh_token", "x", t.text()))
		set("client_id", t.pick("c1", t.text()))
		set("client_secret", t.text())
		if t.chance(2) {
			set("redirect_uri", uri)
		}
		for _, k := range []string{"scope", "username", "password", "refresh_token", "code"} {
			if t.chance(2) {
				set(k, t.text())
			}
		}
		s := t.request("POST", "/token", vals, auth)
		if t.chance(3) {
			s.query = url.Values{t.pick("client_id", "redirect_uri", "grant_type", "scope", "username", "password", "refresh_token", "code", "client_secret"): {t.plain()}}.Encode()
		}
		t.note("ParseTokenRequest(%v)", s)
		in := s.parse()
		f := in.post
		id, sec := first(f, "client_id"), first(f, "client_secret")
		if in.basic {
			id, sec = in.user, in.pass
		}
		uri, uerr := url.QueryUnescape(first(f, "redirect_uri"))
		ok := s.method == "POST" && in.ok && first(f, "grant_type") != "" && id != "" && uerr == nil && (uri == "" || goodURI(uri))
		var req *oauth2.TokenRequest
		var err error
		p := call(func() { req, err = oauth2.ParseTokenRequest(s.build()) })
		t.note("should be accepted: %v; result %+v, %v", ok, req, err)
		t.check("R02", p == nil, "panic: %v", p)
		if !ok {
			t.check("R02", req == nil && isInvalidRequest(err), "should be rejected with invalid_request")
			return
		}
		t.check("R02", err == nil && req != nil, "should be accepted")
		t.check("R02", req.GrantType == first(f, "grant_type") && req.ClientID == id && req.ClientSecret == sec && req.RedirectURI == uri && req.Username == first(f, "username") &&
			req.Password == first(f, "password") && req.RefreshToken == first(f, "refresh_token") && req.Code == first(f, "code") && sameList(req.Scope, pieces(first(f, "scope"))), "fields differ from the parameters")
	case "R03":
		set("token", t.text())
		set("token_type_hint", t.text())
		if t.chance(3) {
			set("client_id", t.text())
			set("client_secret", t.text())
		}
		s := t.request("POST", "/introspect", vals, auth)
		if t.chance(3) {
			s.query = url.Values{t.pick("token", "token_type_hint", "client_id"): {t.plain()}}.Encode()
		}
		in := s.parse()
		f := in.post
		ok := s.method == "POST" && in.ok && first(f, "token") != "" && in.basic
		var token, hint, id, sec string
		var err error
		var got bool
		kind := t.pick("Introspection", "Revocation")
		p := call(func() {
			if kind == "Introspection" {
				var req *oauth2.IntrospectionRequest
				if req, err = oauth2.ParseIntrospectionRequest(s.build()); req != nil {
					got, token, hint, id, sec = true, req.Token, req.TokenTypeHint, req.ClientID, req.ClientSecret
				}
			} else {
				var req *oauth2.RevocationRequest
				if req, err = oauth2.ParseRevocationRequest(s.build()); req != nil {
					got, token, hint, id, sec = true, req.Token, req.TokenTypeHint, req.ClientID, req.ClientSecret
				}
			}
		})
		t.note("Parse%sRequest(%v)", kind, s)
		t.note("should be accepted: %v; result %v %q %q %q %q, %v", ok, got, token, hint, id, sec, err)
		t.check("R03", p == nil, "panic: %v", p)
		if !ok {
			t.check("R03", !got && isInvalidRequest(err), "should be rejected with invalid_request")
			return
		}
		t.check("R03", err == nil && got && token == first(f, "token") && hint == first(f, "token_type_hint") && id == in.user && sec == in.pass, "fields differ from the parameters")
	}
}

// ---------- request building ----------

func (t *run) endpoint() string {
	return t.pick("http://example.com/oauth2/token", "http://example.com/oauth2/token", "https://example.com:1/x?y=1", "/token", "http://exa mple", "%zz", "", "http://example.com/%zz", ":")
}

func readBody(r *http.Request) string {
	if r.Body == nil {
		return ""
	}
	b := new(bytes.Buffer)
	_, _ = b.ReadFrom(r.Body)
	return b.String()
}

// built checks a built request.
func (t *run) built(props, uri string, req *http.Request, err error, want url.Values, id, sec string) bool {
	_, perr := http.NewRequest("POST", uri, nil)
	if perr != nil {
		t.check(props, req == nil && err != nil, "an unusable URI must be refused, got %v %v", req, err)
		return false
	}
	t.check(props, req != nil && err == nil, "got %v %v", req, err)
	u, _ := url.Parse(uri)
	t.check(props, req.Method == "POST" && req.URL.String() == u.String(), "%s %s", req.Method, req.URL)
	t.check(props, sameHeader(req.Header, "Content-Type", formType), "content type %v", req.Header["Content-Type"])
	auth := []string(nil)
	if id != "" || sec != "" {
		auth = []string{basic(id, sec)}
	}
	t.check(props, sameList(req.Header["Authorization"], auth), "credentials %v, not %v", req.Header["Authorization"], auth)
	t.check(props, len(req.Header) == 1+len(auth), "headers %v", req.Header)
	body := readBody(req)
	t.check(props, body == want.Encode() && req.ContentLength == int64(len(body)), "body %q (%d), not %q", body, req.ContentLength, want.Encode())
	return true
}

func put(v url.Values, k, s string) {
	if s != "" {
		v[k] = []string{s}
	}
}

func buildTrial(t *run) {
	uri := t.endpoint()
	id, sec := t.maybe(), t.maybe()
	plain := t.chance(2)
	if plain {
		uri, id, sec = "http://example.com/oauth2/token", t.plain(), t.text()
	}
	check := func(name string, got, want url.Values) {
		t.note("%s = %v", name, got)
		t.check("R04", reflect.DeepEqual(got, want) || len(got)+len(want) == 0, "should be %v", want)
		// entries do not share storage
		for k := range got {
			got.Add(k, "EXTRA")
			for l, v := range got {
				w := want[l]
				if l == k {
					w = append(append([]string{}, w...), "EXTRA")
				}
				t.check("R04", sameList(v, w), "adding to %q changed %q to %v", k, l, v)
			}
			got[k] = got[k][:1]
		}
	}
	if t.chance(2) {
		rq := oauth2.TokenRequest{GrantType: t.maybe(), Scope: t.scope(), ClientID: id, ClientSecret: sec, Username: t.maybe(), Password: t.maybe(), RefreshToken: t.maybe(), RedirectURI: t.pick(t.maybe(), t.uri()), Code: t.maybe()}
		if plain {
			rq.GrantType, rq.Scope = t.plain(), t.plainScope()
			rq.RedirectURI = t.pick("", "http://example.com/cb", "http://example.com/cb?x=1&y=a%20b+c", "http://example.com/a%2Fb")
		}
		t.note("token request %+v to %q", rq, uri)
		want := url.Values{}
		put(want, "grant_type", rq.GrantType)
		if len(rq.Scope) > 0 {
			want["scope"] = []string{strings.Join(rq.Scope, " ")}
		}
		put(want, "username", rq.Username)
		put(want, "password", rq.Password)
		put(want, "refresh_token", rq.RefreshToken)
		if rq.RedirectURI != "" {
			want["redirect_uri"] = []string{url.QueryEscape(rq.RedirectURI)}
		}
		put(want, "code", rq.Code)
		var v url.Values
		p := call(func() { v = oauth2.TokenRequestValues(rq) })
		t.check("R04", p == nil, "panic: %v", p)
		check("TokenRequestValues", v, want)
		var req *http.Request
		var err error
		p = call(func() { req, err = oauth2.BuildTokenRequest(uri, rq) })
		t.check("R04", p == nil, "panic: %v", p)
		t.built("R04", uri, req, err, want, id, sec)
		if plain {
			var back *oauth2.TokenRequest
			p = call(func() {
				req, _ = oauth2.BuildTokenRequest(uri, rq)
				back, err = oauth2.ParseTokenRequest(req)
			})
			t.note("parsed back: %+v %v", back, err)
			t.check("R04", p == nil && err == nil && back != nil, "does not parse back: %v", p)
			b := *back
			t.check("R04", sameList(b.Scope, rq.Scope), "the scope does not parse back")
			b.Scope, rq.Scope = nil, nil
			t.check("R04", reflect.DeepEqual(b, rq), "the request does not parse back")
		}
		return
	}
	token, hint := t.maybe(), t.maybe()
	if plain {
		token = t.plain()
	}
	want := url.Values{}
	put(want, "token", token)
	put(want, "token_type_hint", hint)
	t.note("token %q hint %q client %q %q to %q", token, hint, id, sec, uri)
	var v url.Values
	var req *http.Request
	var err error
	intro := t.chance(2)
	irq := oauth2.IntrospectionRequest{Token: token, TokenTypeHint: hint, ClientID: id, ClientSecret: sec}
	rrq := oauth2.RevocationRequest{Token: token, TokenTypeHint: hint, ClientID: id, ClientSecret: sec}
	p := call(func() {
		if intro {
			v = oauth2.IntrospectionRequestValues(irq)
			req, err = oauth2.BuildIntrospectionRequest(uri, irq)
		} else {
			v = oauth2.RevocationRequestValues(rrq)
			req, err = oauth2.BuildRevocationRequest(uri, rrq)
		}
	})
	t.check("R04", p == nil, "panic: %v", p)
	check("values", v, want)
	if t.built("R04", uri, req, err, want, id, sec) && plain {
		p = call(func() {
			if intro {
				req, _ = oauth2.BuildIntrospectionRequest(uri, irq)
				back, err := oauth2.ParseIntrospectionRequest(req)
				t.check("R04", err == nil && back != nil && *back == irq, "does not parse back: %+v %v", back, err)
			} else {
				req, _ = oauth2.BuildRevocationRequest(uri, rrq)
				back, err := oauth2.ParseRevocationRequest(req)
				t.check("R04", err == nil && back != nil && *back == rrq, "does not parse back: %+v %v", back, err)
			}
		})
		t.check("R04", p == nil, "panic: %v", p)
	}
}

// ---------- bearer tokens ----------

// bearerToken is the token carried by an authorization header.
func bearerToken(h string) (string, bool) {
	if len(h) < 8 || !strings.EqualFold(h[:6], "bearer") || h[6] != ' ' {
		return "", false
	}
	return h[7:], true
}

func (t *run) authHeader() string {
	switch t.rnd.Intn(6) {
	case 0:
		return t.pick("", "B", "Bearer", "Bearer ", "bearer x", "BEARER x", "bEaReR  x ", "Bearer\tx", "Bearerx", "Bearer_x", "Basic x", "BearerBearer x", " Bearer x", "Bear er x", "Bearer x y", "Bearer é", "Bearer  ", "bearer\u00a0x", "beare\u0280 x")
	case 1:
		return t.text()
	case 2:
		return "Bearer " + t.text()
	case 3:
		h := []byte("Bearer " + t.text())
		return string(h[:t.rnd.Intn(len(h)+1)])
	case 4:
		h := []byte("Bearer abc")
		h[t.rnd.Intn(len(h))] = byte(t.rnd.Intn(256))
		return string(h)
	}
	return t.pick("Bearer ", "bearer ", "BEARER ") + t.plain()
}

func bearerTrial(t *run) {
	s := &spec{method: t.pick("GET", "POST", "PUT"), path: "/", header: map[string]string{}, ctype: formType, query: t.pick("", "access_token=x"), body: t.pick("", "access_token=x")}
	h := t.authHeader()
	if !t.chance(10) {
		s.header["Authorization"] = h
	} else {
		h = ""
	}
	r := s.build()
	if t.chance(20) {
		r.Header["Authorization"] = append(r.Header["Authorization"], "Bearer second")
		h = r.Header["Authorization"][0]
	}
	t.note("Authorization: %q", r.Header["Authorization"])
	want, ok := bearerToken(h)
	var got string
	var err error
	p := call(func() { got, err = oauth2.ParseBearerToken(r) })
	t.note("token %q, error %v", got, err)
	t.check("B01", p == nil, "panic: %v", p)
	switch {
	case ok:
		t.check("B01", err == nil && got == want, "should yield %q", want)
	case h == "":
		e, is := err.(*oauth2.Error)
		t.check("B01", got == "" && is && e.Status == 401 && e.Name == "", "should yield the protected resource error")
	default:
		t.check("B01", got == "" && isInvalidRequest(err), "should yield invalid_request")
	}
}

func (t *run) anError() *oauth2.Error {
	e := &oauth2.Error{Name: t.maybe(), State: t.maybe(), Scope: t.scope(), Realm: t.maybe(), Description: t.maybe(), URI: t.maybe(), Status: []int{400, 401, 403, 404, 500, 503, 200, 599, 999, 100 + t.rnd.Intn(900)}[t.rnd.Intn(10)]}
	if e.Status < 200 {
		e.Status = 400
	}
	if t.chance(4) {
		e = &oauth2.Error{Status: 401}
	}
	if t.chance(4) {
		e.Headers = map[string]string{"X-" + t.plain(): t.plain()}
		if t.chance(3) {
			e.Headers["WWW-Authenticate"] = t.plain()
		}
		if t.chance(3) {
			e.Headers["Cache-Control"] = t.plain()
			e.Headers["Content-Type"] = "text/plain"
		}
	}
	return e
}

func errAttrs(e *oauth2.Error) map[string]string {
	m := map[string]string{}
	set := func(k, v string) {
		if v != "" {
			m[k] = v
		}
	}
	set("error", e.Name)
	set("error_description", e.Description)
	set("state", e.State)
	if len(e.Scope) > 0 {
		m["scope"] = strings.Join(e.Scope, " ")
	}
	set("error_uri", e.URI)
	set("realm", e.Realm)
	return m
}

func paramsOf(e *oauth2.Error) string {
	var l []string
	for k, v := range errAttrs(e) {
		l = append(l, fmt.Sprintf(`%s="%s"`, k, v))
	}
	sort.Strings(l)
	return strings.Join(l, ", ")
}

func challengeTrial(t *run) {
	e := t.anError()
	e.Headers = nil
	var err error = e
	known := true
	if t.chance(6) {
		err, known = errors.New("secret detail"), false
	}
	t.note("WriteBearerError(%#v)", err)
	if known {
		var s string
		p := call(func() { s = e.Params() })
		t.check("B02", p == nil && s == paramsOf(e), "Params() = %q, not %q (%v)", s, paramsOf(e), p)
	}
	w := newRecorder()
	if t.chance(4) {
		w.header.Set("Www-Authenticate", "Old")
		w.header.Set("X-Kept", "1")
	}
	bare := !known || e.Status == 500
	if bare {
		w.header.Del("Www-Authenticate")
	}
	p := call(func() { _ = oauth2.WriteBearerError(w, err) })
	t.note("%v", w)
	t.check("B02", p == nil && w.calls == 1, "not exactly one response (%v)", p)
	t.check("B02", w.body.Len() == 0, "the body is not empty")
	if bare {
		t.check("B02", w.status == 500 && len(w.sent["Www-Authenticate"]) == 0, "should be a bare 500")
		for k := range w.sent {
			t.check("B02", k == "X-Kept", "unexpected header %s", k)
		}
		return
	}
	q := paramsOf(e)
	if q == "" {
		q = `realm="OAuth2"`
	}
	t.check("B02", w.status == e.Status && sameHeader(w.sent, "Www-Authenticate", "Bearer "+q), "should be %d with challenge %q", e.Status, "Bearer "+q)
}

// ---------- responses ----------

func (t *run) tokenResponse() *oauth2.TokenResponse {
	return &oauth2.TokenResponse{TokenType: t.pick("bearer", "", t.text()), AccessToken: t.text(), ExpiresIn: []int{0, 1, 3600, -1, t.rnd.Intn(1 << 40)}[t.rnd.Intn(5)], RefreshToken: t.maybe(), Scope: t.scope(), State: t.maybe()}
}

func tokenDoc(r *oauth2.TokenResponse) map[string]interface{} {
	m := map[string]interface{}{"token_type": js(r.TokenType), "access_token": js(r.AccessToken), "expires_in": num(int64(r.ExpiresIn))}
	if r.RefreshToken != "" {
		m["refresh_token"] = js(r.RefreshToken)
	}
	if len(r.Scope) > 0 {
		m["scope"] = js(strings.Join(r.Scope, " "))
	}
	if r.State != "" {
		m["state"] = js(r.State)
	}
	return m
}

func errorDoc(e *oauth2.Error) map[string]interface{} {
	m := map[string]interface{}{"error": js(e.Name)}
	for k, v := range errAttrs(e) {
		m[k] = js(v)
	}
	if len(e.Scope) > 0 {
		m["scope"] = js(strings.Join(e.Scope, " "))
	}
	return m
}

func jsonTrial(t *run) {
	w := newRecorder()
	if t.chance(4) {
		w.header.Set("Cache-Control", "public")
		w.header.Set("Content-Type", "text/html")
	}
	status := 200
	var want map[string]interface{}
	var err error
	var p interface{}
	switch t.rnd.Intn(4) {
	case 0:
		r := t.tokenResponse()
		t.note("WriteTokenResponse(%+v)", r)
		want = tokenDoc(r)
		p = call(func() { err = oauth2.WriteTokenResponse(w, r) })
	case 1:
		e := t.anError()
		e.Headers = nil
		status = e.Status
		t.note("WriteError(%+v)", *e)
		want = errorDoc(e)
		p = call(func() { err = oauth2.WriteError(w, e) })
	case 2:
		i := &oauth2.IntrospectionResponse{Active: t.chance(2), Scope: t.scope(), ClientID: t.maybe(), Username: t.maybe(), TokenType: t.pick("access_token", "refresh_token", "", "bearer", t.text()),
			ExpiresAt: int64(t.rnd.Intn(3)) * t.rnd.Int63(), IssuedAt: int64(t.rnd.Intn(2)) * 77, NotBefore: int64(t.rnd.Intn(2)) * -5, Subject: t.maybe(), Audience: t.maybe(), Issuer: t.maybe(), Identifier: t.maybe()}
		if t.chance(4) {
			i.Extra = map[string]interface{}{}
			if t.chance(2) {
				i.Extra["foo"] = "bar"
			}
		}
		t.note("WriteIntrospectionResponse(%+v)", *i)
		want = map[string]interface{}{"active": i.Active}
		set := func(k, v string) {
			if v != "" {
				want[k] = js(v)
			}
		}
		setn := func(k string, v int64) {
			if v != 0 {
				want[k] = num(v)
			}
		}
		if len(i.Scope) > 0 {
			want["scope"] = js(strings.Join(i.Scope, " "))
		}
		set("client_id", i.ClientID)
		set("username", i.Username)
		set("token_type", i.TokenType)
		setn("exp", i.ExpiresAt)
		setn("iat", i.IssuedAt)
		setn("nbf", i.NotBefore)
		set("sub", i.Subject)
		set("aud", i.Audience)
		set("iss", i.Issuer)
		set("jti", i.Identifier)
		if len(i.Extra) > 0 {
			want["extra"] = map[string]interface{}{"foo": "bar"}
		}
		p = call(func() { err = oauth2.WriteIntrospectionResponse(w, i) })
		if i.Active && i.TokenType != "access_token" && i.TokenType != "refresh_token" {
			t.note("%v, error %v", w, err)
			t.check("W01", p == nil && err != nil && w.calls == 0 && w.body.Len() == 0, "should be refused without a response (%v)", p)
			return
		}
	case 3:
		status = 200 + t.rnd.Intn(400)
		t.note("Write(map, %d)", status)
		want = map[string]interface{}{"a": "b"}
		p = call(func() { err = oauth2.Write(w, map[string]string{"a": "b"}, status) })
	}
	t.note("%v, error %v", w, err)
	t.check("W01", p == nil && err == nil, "failed: %v %v", p, err)
	t.check("W01", w.calls == 1 && w.status == status, "should be one response with status %d", status)
	t.check("W01", w.isJSON(), "the JSON headers are not set")
	t.check("W01", sameDoc(w.doc(), want), "body should be %v", want)
}

func (t *run) redirectURI() string {
	return t.pick("http://example.com/cb", "http://example.com/cb?x=1", "http://example.com/cb?x=1&y=a%20b&x=2", "https://u@host:8080/a%2Fb/c", "/relative", "http://example.com", "com.example.app:/cb", "http://example.com/?state=old&code=old", "http://example.com/cb?a=%26%3D")
}

func (t *run) params() map[string]string {
	m := map[string]string{}
	for n := t.rnd.Intn(5); n > 0; n-- {
		m[t.pick("state", "code", "x", "access_token", t.text())] = t.text()
	}
	return m
}

func redirectTrial(t *run) {
	w := newRecorder()
	uri, m, frag := t.redirectURI(), t.params(), t.chance(2)
	bad := t.chance(8)
	if bad {
		uri = t.pick("", "nope", "http://example.com/%zz", "http://exa mple.com", "http://[::1")
	}
	m0 := map[string]string{}
	for k, v := range m {
		m0[k] = v
	}
	t.note("WriteRedirect(%q, %v, %v)", uri, m, frag)
	var err error
	p := call(func() { err = oauth2.WriteRedirect(w, uri, m, frag) })
	t.note("%v, error %v", w, err)
	t.check("W02", p == nil, "panic: %v", p)
	t.check("W02", reflect.DeepEqual(m, m0), "the parameters were modified")
	if bad {
		t.check("W02", err != nil && w.calls == 0 && w.body.Len() == 0 && len(w.header) == 0, "should be refused without a response")
		return
	}
	t.check("W02", err == nil, "failed")
	problem := w.redirectsTo(uri, m0, frag)
	t.check("W02", problem == "", "%s", problem)
}

func mapTrial(t *run) {
	switch t.rnd.Intn(3) {
	case 0:
		r := t.tokenResponse()
		want := map[string]string{"token_type": r.TokenType, "access_token": r.AccessToken, "expires_in": strconv.Itoa(r.ExpiresIn)}
		if r.RefreshToken != "" {
			want["refresh_token"] = r.RefreshToken
		}
		if len(r.Scope) > 0 {
			want["scope"] = strings.Join(r.Scope, " ")
		}
		if r.State != "" {
			want["state"] = r.State
		}
		var m map[string]string
		p := call(func() { m = r.Map() })
		t.note("Map of %+v = %v", *r, m)
		if r.Scope != nil && len(r.Scope) == 0 {
			delete(m, "scope")
		}
		t.check("W03", p == nil && reflect.DeepEqual(m, want), "should be %v (%v)", want, p)
		uri := t.redirectURI()
		s := t.maybe()
		w := newRecorder()
		var err error
		p = call(func() { err = oauth2.WriteTokenResponse(w, r.SetRedirect(uri, s)) })
		delete(want, "state")
		if s != "" {
			want["state"] = s
		}
		if r.Scope != nil && len(r.Scope) == 0 {
			want["scope"] = ""
		}
		t.note("redirected to %q with state %q: %v", uri, s, w)
		problem := w.redirectsTo(uri, want, true)
		t.check("W03", p == nil && err == nil && problem == "", "%s (%v %v)", problem, p, err)
	case 1:
		code, uri, state := t.text(), t.redirectURI(), t.maybe()
		want := map[string]string{"code": code}
		if state != "" {
			want["state"] = state
		}
		var m map[string]string
		w := newRecorder()
		var err error
		p := call(func() {
			r := oauth2.NewCodeResponse(code, uri, state)
			m = r.Map()
			err = oauth2.WriteCodeResponse(w, r)
		})
		t.note("code response %q %q %q: %v, %v", code, uri, state, m, w)
		t.check("W03", p == nil && reflect.DeepEqual(m, want), "should be %v (%v)", want, p)
		problem := w.redirectsTo(uri, want, false)
		t.check("W03", err == nil && problem == "", "%s (%v)", problem, err)
	case 2:
		e := t.anError()
		var m map[string]string
		p := call(func() { m = e.Map() })
		t.note("Map of %+v = %v", *e, m)
		t.check("W03", p == nil && reflect.DeepEqual(m, errAttrs(e)), "should be %v (%v)", errAttrs(e), p)
	}
}

// ---------- errors ----------

func constructorTrial(t *run) {
	d, sc := t.text(), t.scope()
	type c struct {
		got    *oauth2.Error
		name   string
		status int
	}
	cases := map[string]c{
		"InvalidRequest":          {oauth2.InvalidRequest(d), "invalid_request", 400},
		"InvalidClient":           {oauth2.InvalidClient(d), "invalid_client", 401},
		"InvalidGrant":            {oauth2.InvalidGrant(d), "invalid_grant", 400},
		"InvalidScope":            {oauth2.InvalidScope(d), "invalid_scope", 400},
		"InvalidToken":            {oauth2.InvalidToken(d), "invalid_token", 401},
		"UnauthorizedClient":      {oauth2.UnauthorizedClient(d), "unauthorized_client", 400},
		"UnsupportedGrantType":    {oauth2.UnsupportedGrantType(d), "unsupported_grant_type", 400},
		"UnsupportedResponseType": {oauth2.UnsupportedResponseType(d), "unsupported_response_type", 400},
		"UnsupportedTokenType":    {oauth2.UnsupportedTokenType(d), "unsupported_token_type", 400},
		"AccessDenied":            {oauth2.AccessDenied(d), "access_denied", 403},
		"ServerError":             {oauth2.ServerError(d), "server_error", 500},
		"TemporarilyUnavailable":  {oauth2.TemporarilyUnavailable(d), "temporarily_unavailable", 503},
		"ProtectedResource":       {oauth2.ProtectedResource(), "", 401},
		"InsufficientScope":       {oauth2.InsufficientScope(sc), "insufficient_scope", 403},
	}
	for name, c := range cases {
		t.check("E01", c.got != nil, "%s returned nil", name)
		g := *c.got
		desc := d
		if name == "ProtectedResource" || name == "InsufficientScope" {
			desc = ""
		}
		if name == "InsufficientScope" {
			t.check("E01", sameList(g.Scope, sc), "%s: scope %q", name, g.Scope)
		} else {
			t.check("E01", len(g.Scope) == 0, "%s: scope %q", name, g.Scope)
		}
		if name == "InvalidClient" {
			t.check("E01", len(g.Headers) == 1 && g.Headers["WWW-Authenticate"] == `Basic realm="OAuth2"`, "%s: headers %v", name, g.Headers)
		} else {
			t.check("E01", len(g.Headers) == 0, "%s: headers %v", name, g.Headers)
		}
		t.check("E01", g.Name == c.name && g.Status == c.status && g.Description == desc && g.State == "" && g.Realm == "" && g.URI == "" && g.RedirectURI == "" && !g.UseFragment, "%s(%q) = %+v", name, d, g)
		t.check("E01", c.got.Error() == g.Name+": "+g.Description && c.got.String() == g.Name+": "+g.Description, "%s text %q", name, c.got.Error())
		for i := 0; i < 2; i++ {
			uri, state, frag := t.text(), t.text(), t.chance(2)
			r := c.got.SetRedirect(uri, state, frag)
			g.RedirectURI, g.State, g.UseFragment = uri, state, frag
			t.check("E01", r == c.got && reflect.DeepEqual(*r, g), "SetRedirect(%q, %q, %v) on %s gives %+v", uri, state, frag, name, *r)
		}
	}
	a, b := oauth2.InvalidClient("a"), oauth2.InvalidClient("b")
	a.Headers["X"] = "y"
	t.check("E01", len(b.Headers) == 1 && len(oauth2.InvalidClient("").Headers) == 1, "errors share their headers")
}

func writeErrorTrial(t *run) {
	w := newRecorder()
	var err error
	if t.chance(4) {
		e := errors.New("secret detail")
		if t.chance(3) {
			e = &json.SyntaxError{}
		}
		p := call(func() { err = oauth2.WriteError(w, e) })
		t.note("WriteError(%v): %v", e, w)
		t.check("E02", p == nil && err == nil && w.calls == 1 && w.status == 500 && w.isJSON() && sameDoc(w.doc(), map[string]interface{}{"error": "server_error"}), "should be a generic server error (%v %v)", p, err)
		t.check("E02", len(w.sent) == 3, "unexpected headers")
		return
	}
	e := t.anError()
	red := t.chance(2)
	if red {
		e.RedirectURI, e.UseFragment = t.redirectURI(), t.chance(2)
	}
	t.note("WriteError(%+v)", *e)
	p := call(func() { err = oauth2.WriteError(w, e) })
	t.note("%v, error %v", w, err)
	t.check("E02", p == nil && err == nil, "failed: %v %v", p, err)
	for k, v := range e.Headers {
		k = http.CanonicalHeaderKey(k)
		if k == "Content-Type" || k == "Cache-Control" || k == "Pragma" {
			continue
		}
		t.check("E02", sameHeader(w.sent, k, v), "header %s is missing", k)
	}
	if red {
		problem := w.redirectsTo(e.RedirectURI, errAttrs(e), e.UseFragment)
		t.check("E02", problem == "", "%s", problem)
		return
	}
	t.check("E02", w.calls == 1 && w.status == e.Status && w.isJSON() && sameDoc(w.doc(), errorDoc(e)) && len(w.sent["Location"]) == 0, "should be the JSON document %v with status %d", errorDoc(e), e.Status)
}

// ---------- client ----------

type body struct {
	io.Reader
	closed int
}

func (b *body) Close() error { b.closed++; return nil }

type transport struct {
	reqs   []*http.Request
	bodies []string
	res    *http.Response
	err    error
}

func (x *transport) RoundTrip(r *http.Request) (*http.Response, error) {
	x.reqs = append(x.reqs, r.Clone(r.Context()))
	b := readBody(r)
	x.bodies = append(x.bodies, b)
	if x.err != nil {
		return nil, x.err
	}
	x.res.Request = r
	return x.res, nil
}

type halfReader struct {
	r    io.Reader
	fail bool
}

func (h *halfReader) Read(p []byte) (int, error) {
	if len(p) > 3 {
		p = p[:3]
	}
	n, err := h.r.Read(p)
	if err == io.EOF && h.fail {
		err = errors.New("connection lost")
	}
	return n, err
}

func clientTrial(t *run) {
	base := t.pick("http://example.com", "http://example.com", "http://example.com/base", "http://example.com/base/", "http://example.com?x=", " http://example.com", "HTTP://Example.com", "http://exa mple.com", "http://example.com/%zz")
	conf := oauth2.Default(base)
	t.check("K01", conf == oauth2.ClientConfig{BaseURI: base, TokenEndpoint: "/oauth2/token", IntrospectionEndpoint: "/oauth2/introspect", RevocationEndpoint: "/oauth2/revoke"}, "Default(%q) = %+v", base, conf)
	if t.chance(3) {
		conf.TokenEndpoint, conf.IntrospectionEndpoint, conf.RevocationEndpoint = t.pick("/t", "", "/t?x=1"), t.pick("/i", ""), t.pick("/r", "")
	}
	limit := int64(2048)
	if t.chance(2) {
		conf.ResponseLimit = int64(1 + t.rnd.Intn(150))
		limit = conf.ResponseLimit
	}
	// the answer
	status := []int{200, 200, 200, 400, 401, 500, 201, 204, 299, 404, 199, 503, 429, 400 + t.rnd.Intn(200), 200 + t.rnd.Intn(100)}[t.rnd.Intn(15)]
	ctype := t.pick("application/json", "application/json", "application/json;charset=UTF-8", "Application/JSON; charset=utf-8", "text/html", "", "application/jsonx", "text/json", "application/json;;", "json")
	tr, ir, er := t.tokenResponse(), map[string]interface{}{"active": t.chance(2), "scope": "foo  bar", "client_id": t.text(), "exp": 77, "extra": map[string]interface{}{"x": "y"}}, t.anError()
	data := ""
	switch t.rnd.Intn(6) {
	case 0:
		b, _ := json.Marshal(tr)
		data = string(b)
	case 1:
		b, _ := json.Marshal(ir)
		data = string(b)
	case 2:
		b, _ := json.Marshal(er)
		data = string(b)
	case 3:
		data = t.pick("", "{}", "null", "{", "[]", "x", `{"error":`, `{"scope":1}`, `{"active":"x"}`, `{"expires_in":"1"}`, `{"access_token":"a"} x`, `"x"`, `<html>`, "true")
	default:
		b, _ := json.Marshal(tr)
		data = string(b)
	}
	if t.chance(3) {
		data += strings.Repeat(" ", t.rnd.Intn(3000)) + t.pick("", "", "x", "{}", " ")
	}
	lost := t.chance(12)
	bd := &body{Reader: &halfReader{r: strings.NewReader(data), fail: lost}}
	x := &transport{res: &http.Response{StatusCode: status, Status: fmt.Sprintf("%d Some Text", status), Header: http.Header{}, Body: bd, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1}}
	if ctype != "" {
		x.res.Header.Set("Content-Type", ctype)
	}
	if t.chance(10) {
		x.err = errors.New("no connection")
	}
	hc := &http.Client{Transport: x}
	cl := oauth2.NewClientWithClient(conf, hc)
	t.note("client %+v; answer %d %q %q (lost %v, failed %v)", conf, status, ctype, data, lost, x.err != nil)

	seen := data
	if int64(len(seen)) > limit {
		seen = seen[:limit]
		lost = false
	}
	mt, _, merr := mime.ParseMediaType(ctype)
	isjson := merr == nil && mt == "application/json"
	var err error
	var got interface{}
	var isnil bool
	var want url.Values
	var endpoint, id, sec string
	decoded := false
	id, sec = t.maybe(), t.maybe()
	var p interface{}
	op := t.pick("Authenticate", "Introspect", "Revoke")
	var expect interface{}
	switch op {
	case "Authenticate":
		endpoint = conf.BaseURI + conf.TokenEndpoint
		rq := oauth2.TokenRequest{GrantType: t.plain(), Scope: t.scope(), ClientID: id, ClientSecret: sec, Username: t.maybe(), Password: t.maybe(), RedirectURI: t.pick("", t.uri()), Code: t.maybe(), RefreshToken: t.maybe()}
		want = url.Values{}
		put(want, "grant_type", rq.GrantType)
		if len(rq.Scope) > 0 {
			want["scope"] = []string{strings.Join(rq.Scope, " ")}
		}
		put(want, "username", rq.Username)
		put(want, "password", rq.Password)
		put(want, "refresh_token", rq.RefreshToken)
		if rq.RedirectURI != "" {
			want["redirect_uri"] = []string{url.QueryEscape(rq.RedirectURI)}
		}
		put(want, "code", rq.Code)
		t.note("Authenticate(%+v)", rq)
		p = call(func() {
			r, e := cl.Authenticate(rq)
			got, isnil, err = r, r == nil, e
		})
		var v oauth2.TokenResponse
		decoded = json.Unmarshal([]byte(seen), &v) == nil
		expect = &v
	case "Introspect":
		endpoint = conf.BaseURI + conf.IntrospectionEndpoint
		rq := oauth2.IntrospectionRequest{Token: t.text(), TokenTypeHint: t.maybe(), ClientID: id, ClientSecret: sec}
		want = url.Values{}
		put(want, "token", rq.Token)
		put(want, "token_type_hint", rq.TokenTypeHint)
		t.note("Introspect(%+v)", rq)
		p = call(func() {
			r, e := cl.Introspect(rq)
			got, isnil, err = r, r == nil, e
		})
		var v oauth2.IntrospectionResponse
		decoded = json.Unmarshal([]byte(seen), &v) == nil
		expect = &v
	case "Revoke":
		endpoint = conf.BaseURI + conf.RevocationEndpoint
		rq := oauth2.RevocationRequest{Token: t.text(), TokenTypeHint: t.maybe(), ClientID: id, ClientSecret: sec}
		want = url.Values{}
		put(want, "token", rq.Token)
		put(want, "token_type_hint", rq.TokenTypeHint)
		t.note("Revoke(%+v)", rq)
		p = call(func() { err = cl.Revoke(rq) })
		isnil = true
		decoded, isjson, lost = true, true, false
	}
	t.note("result %+v, error %v; %d request(s)", got, err, len(x.reqs))
	t.check("K01 K02", p == nil, "panic: %v", p)
	if _, perr := http.NewRequest("POST", endpoint, nil); perr != nil {
		t.check("K01", len(x.reqs) == 0 && isnil && err != nil, "nothing must be sent to an unusable URI")
		return
	}
	t.check("K01", len(x.reqs) == 1, "not exactly one request")
	if len(x.reqs) != 1 {
		return
	}
	r := x.reqs[0]
	u, _ := url.Parse(endpoint)
	t.check("K01", r.Method == "POST" && r.URL.String() == u.String(), "%s %s, not POST %s", r.Method, r.URL, u)
	t.check("K01", sameHeader(r.Header, "Content-Type", formType), "content type %v", r.Header["Content-Type"])
	auth := []string(nil)
	if id != "" || sec != "" {
		auth = []string{basic(id, sec)}
	}
	t.check("K01", sameList(r.Header["Authorization"], auth), "credentials %v, not %v", r.Header["Authorization"], auth)
	t.check("K01", x.bodies[0] == want.Encode(), "body %q, not %q", x.bodies[0], want.Encode())
	t.check("K01", hc.Transport == x && hc.Timeout == 0 && hc.CheckRedirect == nil && hc.Jar == nil, "the HTTP client was modified")
	if x.err != nil {
		t.check("K02", isnil && err != nil, "must fail without an answer")
		return
	}
	t.check("K02", bd.closed >= 1, "the response body is not closed")
	if status == 200 {
		ok := isjson && decoded && !lost
		if int64(len(data)) == limit && op != "Revoke" && (t.prop == "K02") {
			// whether the end is seen depends on the reader
			return
		}
		t.check("K02", (err == nil) == ok, "success should be %v", ok)
		if op != "Revoke" {
			t.check("K02", isnil == (err != nil), "result and error do not fit")
			if ok {
				t.check("K02", reflect.DeepEqual(got, expect), "result should be %+v", expect)
			}
		}
		return
	}
	t.check("K02", isnil && err != nil, "must fail with status %d", status)
	var oe oauth2.Error
	if json.Unmarshal([]byte(seen), &oe) == nil {
		e, is := err.(*oauth2.Error)
		oe.Status = status
		t.check("K02", is && e != nil && reflect.DeepEqual(*e, oe), "error should be %+v", oe)
	} else {
		_, is := err.(*oauth2.Error)
		t.check("K02", !is && strings.Contains(err.Error(), x.res.Status), "error should name the status %q", x.res.Status)
	}
}

// ---------- conformance kit ----------

type handler func(http.ResponseWriter, *http.Request)

func (h handler) ServeHTTP(w http.ResponseWriter, r *http.Request) { h(w, r) }

func kitTrial(t *run) {
	form, header := t.params(), map[string]string{}
	for n := t.rnd.Intn(3); n > 0; n-- {
		header[t.pick("X-Foo", "Accept", "x-bar", "Authorization")] = t.plain()
	}
	if t.chance(4) {
		header = nil
	}
	if t.chance(4) {
		form = nil
	}
	user, pass := t.pick("", t.plain(), t.text()), t.maybe()
	method, path := t.pick("GET", "POST", "PUT", ""), t.pick("/a", "/a/b?x=1", "http://h/x")
	f0, h0 := map[string]string{}, map[string]string{}
	for k, v := range form {
		f0[k] = v
	}
	canon := map[string]bool{}
	for k, v := range header {
		h0[k] = v
		canon[http.CanonicalHeaderKey(k)] = true
	}
	if len(canon) != len(header) {
		return
	}
	served, called := 0, 0
	var sr *http.Request
	var srec, crec interface{}
	var creq *http.Request
	p := call(func() {
		oauth2test.Do(handler(func(w http.ResponseWriter, r *http.Request) {
			served++
			sr, srec = r, w
			w.Header().Set("X-Test", "1")
			w.WriteHeader(222)
			_, _ = w.Write([]byte("hello"))
		}), &oauth2test.Request{Method: method, Path: path, Header: header, Form: form, Username: user, Password: pass, Callback: func(rec *httptest.ResponseRecorder, r *http.Request) {
			called++
			crec, creq = rec, r
			t.check("X01", served == 1, "the callback is called before the handler")
			t.check("X01", rec.Code == 222 && rec.Body.String() == "hello" && rec.Header().Get("X-Test") == "1", "the recorded response is %d %q", rec.Code, rec.Body.String())
		}})
	})
	t.note("Do(%s %s header %v form %v user %q %q)", method, path, h0, f0, user, pass)
	t.check("X01", p == nil, "panic: %v", p)
	t.check("X01", served == 1 && called == 1 && srec == crec && sr == creq, "served %d times, called back %d times", served, called)
	m := method
	if m == "" {
		m = "GET"
	}
	t.check("X01", sr.Method == m && sr.URL.String() == path, "%s %s", sr.Method, sr.URL)
	want := url.Values{}
	for k, v := range f0 {
		want.Set(k, v)
	}
	t.check("X01", reflect.DeepEqual(sr.PostForm, want) || len(sr.PostForm)+len(want) == 0, "form %v", sr.PostForm)
	wh := http.Header{}
	for k, v := range h0 {
		wh.Set(k, v)
	}
	if user != "" {
		wh.Set("Authorization", basic(user, pass))
	}
	t.check("X01", reflect.DeepEqual(sr.Header, wh), "header %v, not %v", sr.Header, wh)
	t.check("X01", (form == nil || reflect.DeepEqual(form, f0)) && (header == nil || reflect.DeepEqual(header, h0)), "the inputs were modified")
}
