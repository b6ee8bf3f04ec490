package verifreplay

import (
	"encoding/json"
	"fmt"
	"net/http"
	"net/http/httptest"
	"net/url"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/256dpi/oauth2/v2"
	"github.com/256dpi/oauth2/v2/oauth2test"
)

func init() {
	trials["X02"] = readingTrial
	trials["X03"] = conformanceTrial
	trials["X04"] = suiteTrial
}

// kitServer is a reference server and its specification.
func kitServer() (http.Handler, *oauth2test.Spec) {
	scope := oauth2.Scope{"foo", "bar"}
	config := oauth2.DefaultServerConfig([]byte("secret"), scope)
	s := oauth2.NewServer(config)
	s.Clients["client1"] = &oauth2.ServerEntity{Secret: "foo", RedirectURI: "http://example.com/callback1", Confidential: true}
	s.Clients["client2"] = &oauth2.ServerEntity{Secret: "foo", RedirectURI: "http://example.com/callback2"}
	s.Users["user1"] = &oauth2.ServerEntity{Secret: "foo"}
	text := func(in map[string]*oauth2.ServerCredential, sc oauth2.Scope, d time.Duration) string {
		tk := config.MustGenerate()
		if in != nil {
			in[tk.SignatureString()] = &oauth2.ServerCredential{ClientID: "client1", Scope: sc, ExpiresAt: time.Now().Add(d)}
		}
		return tk.String()
	}
	mux := http.NewServeMux()
	mux.Handle("/oauth2/", s)
	mux.HandleFunc("/api/", func(w http.ResponseWriter, r *http.Request) {
		if s.Authorize(w, r, oauth2.Scope{"foo"}) {
			_, _ = w.Write([]byte("OK"))
		}
	})
	spec := oauth2test.Default(mux)
	spec.PasswordGrantSupport, spec.ClientCredentialsGrantSupport, spec.ImplicitGrantSupport = true, true, true
	spec.AuthorizationCodeGrantSupport, spec.RefreshTokenGrantSupport = true, true
	spec.ConfidentialClientID, spec.ConfidentialClientSecret, spec.PublicClientID = "client1", "foo", "client2"
	spec.ResourceOwnerUsername, spec.ResourceOwnerPassword = "user1", "foo"
	spec.InvalidScope, spec.ValidScope, spec.ExceedingScope = "baz", "foo bar", "foo bar baz"
	spec.ExpectedExpiresIn = int(config.AccessTokenLifespan / time.Second)
	spec.UnknownToken = text(nil, nil, 0)
	spec.ValidToken = text(s.AccessTokens, scope, time.Hour)
	spec.ExpiredToken = text(s.AccessTokens, scope, -time.Hour)
	spec.InsufficientToken = text(s.AccessTokens, oauth2.Scope{}, time.Hour)
	spec.PrimaryRedirectURI, spec.SecondaryRedirectURI = "http://example.com/callback1", "http://example.com/callback2"
	spec.UnknownRefreshToken = text(nil, nil, 0)
	spec.ValidRefreshToken = text(s.RefreshTokens, scope, time.Hour)
	spec.ExpiredRefreshToken = text(s.RefreshTokens, scope, -time.Hour)
	spec.InvalidAuthorizationCode = "invalid"
	spec.UnknownAuthorizationCode = text(nil, nil, 0)
	spec.ExpiredAuthorizationCode = text(s.AuthorizationCodes, scope, -time.Hour)
	spec.InvalidAuthorizationParams = map[string]string{"username": "user1", "password": "invalid"}
	spec.ValidAuthorizationParams = map[string]string{"username": "user1", "password": "foo"}
	spec.CodeReplayMitigation = true
	return mux, spec
}

// kitTest is one of the conformance tests.
type kitTest struct {
	name string
	run  func(*testing.T, *oauth2test.Spec)
}

var kitTests = []kitTest{
	{"ProtectedResourceTest", oauth2test.ProtectedResourceTest},
	{"TokenEndpointTest", oauth2test.TokenEndpointTest},
	{"AuthorizationEndpointTest", oauth2test.AuthorizationEndpointTest},
	{"PasswordGrantTest", oauth2test.PasswordGrantTest},
	{"ClientCredentialsGrantTest", oauth2test.ClientCredentialsGrantTest},
	{"ImplicitGrantTest", oauth2test.ImplicitGrantTest},
	{"AuthorizationCodeGrantTest", oauth2test.AuthorizationCodeGrantTest},
	{"RefreshTokenGrantTest", oauth2test.RefreshTokenGrantTest},
	{"IntrospectionEndpointTest", oauth2test.IntrospectionEndpointTest},
	{"RevocationEndpointTest", oauth2test.RevocationEndpointTest},
	{"AccessTokenTest", func(t *testing.T, s *oauth2test.Spec) { oauth2test.AccessTokenTest(t, s, s.ValidToken) }},
	{"RefreshTokenTest", func(t *testing.T, s *oauth2test.Spec) { oauth2test.RefreshTokenTest(t, s, s.ValidRefreshToken) }},
}

// passes runs a conformance test; a panic is no pass.
func passes(f func(*testing.T, *oauth2test.Spec), spec *oauth2test.Spec) (ok bool, p interface{}) {
	ok = testing.RunTests(func(string, string) (bool, error) { return true, nil }, []testing.InternalTest{{Name: "kit", F: func(t *testing.T) {
		p = call(func() { f(t, spec) })
	}}})
	return ok && p == nil, p
}

// exchange is a request and the answer of the reference server.
type exchange struct {
	req  *http.Request
	form url.Values
	rec  *httptest.ResponseRecorder
}

// tamperer answers like the reference server and alters some answers.
func tamperer(next http.Handler, alter func(n int, x *exchange)) http.Handler {
	n := 0
	return handler(func(w http.ResponseWriter, r *http.Request) {
		x := &exchange{req: r, rec: httptest.NewRecorder()}
		_ = r.ParseForm()
		x.form = r.Form
		next.ServeHTTP(x.rec, r)
		alter(n, x)
		n++
		for k, v := range x.rec.Header() {
			w.Header()[k] = v
		}
		w.WriteHeader(x.rec.Code)
		_, _ = w.Write(x.rec.Body.Bytes())
	})
}

// member changes a member of the answered object.
func (x *exchange) member(k string, f func(v interface{}) interface{}) bool {
	m := map[string]interface{}{}
	if json.Unmarshal(x.rec.Body.Bytes(), &m) != nil {
		return false
	}
	v, ok := m[k]
	if !ok {
		return false
	}
	if m[k] = f(v); m[k] == nil {
		delete(m, k)
	}
	b, _ := json.Marshal(m)
	x.rec.Body.Reset()
	x.rec.Body.Write(b)
	return true
}

// parameter changes a parameter of the redirect.
func (x *exchange) parameter(k, v string) bool {
	loc := x.rec.Header().Get("Location")
	u, err := url.Parse(loc)
	if err != nil || loc == "" {
		return false
	}
	if q, _ := url.ParseQuery(u.Fragment); q.Get(k) != "" {
		if q.Set(k, v); v == "" {
			q.Del(k)
		}
		base := strings.SplitN(loc, "#", 2)[0]
		x.rec.Header().Set("Location", base+"#"+q.Encode())
		return true
	}
	if q := u.Query(); q.Get(k) != "" {
		if q.Set(k, v); v == "" {
			q.Del(k)
		}
		u.RawQuery = q.Encode()
		x.rec.Header().Set("Location", u.String())
		return true
	}
	return false
}

// fault alters an answer such that the server no longer conforms; it reports
// whether it did.
func (t *run) fault(x *exchange, kind int, mitigation bool) (string, bool) {
	token := x.req.URL.Path == "/oauth2/token"
	switch kind {
	case 0:
		to := 418
		if x.req.Method == "GET" && x.req.URL.Path == "/oauth2/authorize" {
			to = 404
		}
		x.rec.Code = to
		return "another status", true
	case 1:
		var v interface{} = "tampered"
		if t.chance(3) {
			v = nil
		}
		return "another error", x.rec.Code >= 400 && x.member("error", func(interface{}) interface{} { return v })
	case 2:
		k := t.pick("error", "state")
		return "another " + k, x.req.Method == "POST" && x.parameter(k, t.pick("tampered", "tampered", ""))
	case 3:
		drop := t.chance(3)
		k := t.pick("token_type", "scope", "access_token", "refresh_token", "expires_in")
		return "another " + k, token && x.rec.Code == 200 && x.member(k, func(v interface{}) interface{} {
			if drop {
				return nil
			}
			if _, ok := v.(float64); ok {
				return 1
			}
			if k == "access_token" || k == "refresh_token" {
				return ""
			}
			return "tampered"
		})
	case 4:
		return "another state of the token", x.req.URL.Path == "/oauth2/introspect" && x.form.Get("token_type_hint") != "" && x.member("active", func(v interface{}) interface{} { return v != true })
	case 5:
		h := x.rec.Header().Get("WWW-Authenticate")
		i := strings.Index(h, `error="`)
		if i < 0 || mitigation || x.req.URL.Path != "/api/protected" {
			return "", false
		}
		x.rec.Header().Set("WWW-Authenticate", h[:i]+`error="tampered`+h[i+7:])
		return "another error in the challenge", true
	case 6:
		k := t.pick("token_type", "scope", "access_token", "expires_in")
		v := t.pick("tampered", "tampered", "")
		if k == "access_token" {
			v = ""
		}
		return "another " + k + " in the redirect", x.req.Method == "POST" && x.parameter(k, v)
	case 7:
		return "another code in the redirect", x.req.Method == "POST" && x.parameter("code", t.pick("", "tampered"))
	}
	return "", false
}

// conformanceTrial alters one answer of a conforming server: the test must fail.
func conformanceTrial(t *run) {
	k := kitTests[t.rnd.Intn(len(kitTests))]
	if t.chance(10) {
		seen, ok := probes(k)
		t.note("%s against a conforming server", k.name)
		t.check("X03", ok, "%s fails", k.name)
		missing := func(swap *strings.Replacer) string {
			for _, p := range kitProbes[k.name] {
				if !seen[swap.Replace(p)] {
					return p
				}
			}
			return ""
		}
		p := missing(strings.NewReplacer())
		if p != "" && missing(strings.NewReplacer("#1", "#2", "#2", "#1")) == "" {
			p = ""
		}
		t.check("X03", p == "", "%s passes without having sent and seen %s", k.name, p)
		return
	}
	next, spec := kitServer()
	spec.CodeReplayMitigation = t.chance(2)
	at, kind := t.rnd.Intn(t.rnd.Intn(70)+1), t.rnd.Intn(8)
	what, done := "", false
	var x0 *exchange
	spec.Handler = tamperer(next, func(n int, x *exchange) {
		if done || n < at {
			return
		}
		what, done = t.fault(x, kind, spec.CodeReplayMitigation)
		x0 = x
	})
	ok, _ := passes(k.run, spec)
	if !done {
		return
	}
	t.note("%s against a server that answers %s %s %v with %s: %d %v %s", k.name, x0.req.Method, x0.req.URL, x0.form, what, x0.rec.Code, x0.rec.Header(), x0.rec.Body)
	t.check("X03", !ok, "%s passes", k.name)
}

// probes runs a conformance test against the reference server and returns the
// requests it made, with the answers it got (issued
// tokens are named after what they were issued for).
func probes(k kitTest) (map[string]bool, bool) {
	next, spec := kitServer()
	names := map[string]string{spec.UnknownToken: "UnknownToken", spec.ValidToken: "ValidToken", spec.ExpiredToken: "ExpiredToken", spec.InsufficientToken: "InsufficientToken",
		spec.UnknownRefreshToken: "UnknownRefreshToken", spec.ValidRefreshToken: "ValidRefreshToken", spec.ExpiredRefreshToken: "ExpiredRefreshToken",
		spec.UnknownAuthorizationCode: "UnknownAuthorizationCode", spec.ExpiredAuthorizationCode: "ExpiredAuthorizationCode"}
	codes := 0
	name := func(v string) string {
		if n := names[v]; n != "" {
			return n
		}
		return v
	}
	seen := map[string]bool{}
	spec.Handler = tamperer(next, func(n int, x *exchange) {
		auth := x.req.Header.Get("Authorization")
		if u, p, ok := x.req.BasicAuth(); ok {
			auth = u + ":" + p
		} else if strings.HasPrefix(auth, "Bearer ") {
			auth = "Bearer " + name(auth[7:])
		}
		var ps []string
		for k, v := range x.form {
			ps = append(ps, k+"="+name(strings.Join(v, "|")))
		}
		sort.Strings(ps)
		m := map[string]interface{}{}
		_ = json.Unmarshal(x.rec.Body.Bytes(), &m)
		answer := fmt.Sprint(x.rec.Code)
		for _, k := range []string{"error", "active", "token_type"} {
			if v, ok := m[k]; ok {
				answer += fmt.Sprintf(" %s=%v", k, v)
			}
		}
		seen[fmt.Sprintf("%s %s [%s] %s -> %s", x.req.Method, x.req.URL.Path, auth, strings.Join(ps, "&"), answer)] = true
		// name what was issued after what it was issued for
		for _, k := range []string{"access_token", "refresh_token"} {
			if v, ok := m[k].(string); ok && v != "" {
				names[v] = fmt.Sprintf("%s(%s%s%s)", k, x.form.Get("grant_type"), name(x.form.Get("code")), name(x.form.Get("refresh_token")))
			}
		}
		if u, err := url.Parse(x.rec.Header().Get("Location")); err == nil {
			if c := u.Query().Get("code"); c != "" {
				codes++
				names[c] = fmt.Sprintf("#%d", codes)
			}
			if f, _ := url.ParseQuery(u.Fragment); f.Get("access_token") != "" {
				names[f.Get("access_token")] = "access_token(implicit)"
			}
		}
	})
	ok, _ := passes(k.run, spec)
	return seen, ok
}

// readingTrial varies how answers are written.
func readingTrial(t *run) {
	k0 := kitTests[t.rnd.Intn(len(kitTests))]
	next, spec := kitServer()
	kind := t.rnd.Intn(9)
	good := kind < 2 || kind > 6 // the answers say the same
	bad := kind > 3 && kind < 7  // the answers say something else
	note := ""
	spec.Handler = tamperer(next, func(n int, x *exchange) {
		h := x.rec.Header().Get("WWW-Authenticate")
		switch kind {
		case 0: // attributes in another order, and further ones
			if i := strings.Index(h, " "); i >= 0 {
				ps := append(strings.Split(h[i+1:], ", "), `charset="UTF-8"`)
				t.rnd.Shuffle(len(ps), func(i, j int) { ps[i], ps[j] = ps[j], ps[i] })
				x.rec.Header().Set("WWW-Authenticate", h[:i+1]+strings.Join(ps, ", "))
				note = "shuffled challenge " + x.rec.Header().Get("WWW-Authenticate")
			}
		case 1: // other white space
			if m := (map[string]interface{}{}); json.Unmarshal(x.rec.Body.Bytes(), &m) == nil {
				b, _ := json.MarshalIndent(m, " ", "\t")
				x.rec.Body.Reset()
				x.rec.Body.WriteString("\n" + string(b) + "\n")
				note = "indented objects"
			}
		case 2: // no usable challenge
			c := t.pick("", "Bearer", "Bearer ", `Bearer error, realm`, `Bearer "`, "error")
			x.rec.Header().Set("WWW-Authenticate", c)
			note = "challenge " + c
		case 3: // no usable object
			b := t.pick("", "[]", "null", "{", `{"error":1,"active":"x","expires_in":"y"}`, "x")
			x.rec.Body.Reset()
			x.rec.Body.WriteString(b)
			note = "body " + b
		case 4: // parameters in the wrong part of the redirect
			l := x.rec.Header().Get("Location")
			if strings.Contains(l, "?") && strings.Contains(l, "state=") {
				l = strings.Replace(l, "?", "#", 1)
			} else if strings.Contains(l, "#") {
				l = strings.Replace(l, "#", "?", 1)
			} else {
				return
			}
			x.rec.Header().Set("Location", l)
			note = "redirect " + l
		case 5: // members of other names
			m := map[string]interface{}{}
			if json.Unmarshal(x.rec.Body.Bytes(), &m) != nil || m["error"] == nil {
				return
			}
			k := t.pick("Error", "ERROR", "error ", "errors", "x.error", "-")
			m[k] = m["error"]
			if k == "-" {
				m[k] = map[string]interface{}{"error": m["error"]}
			}
			delete(m, "error")
			b, _ := json.Marshal(m)
			x.rec.Body.Reset()
			x.rec.Body.Write(b)
			note = "body " + string(b)
		case 6: // challenge attributes of other names
			k := t.pick("Error", "x-error", "errors", "error-x", "x")
			if !strings.Contains(h, `error="`) || x.req.URL.Path != "/api/protected" || k0.name != "ProtectedResourceTest" {
				return
			}
			x.rec.Header().Set("WWW-Authenticate", strings.Replace(h, `error="`, k+`="`, 1))
			note = "challenge " + x.rec.Header().Get("WWW-Authenticate")
		case 7: // further attributes, before and after
			if i := strings.Index(h, " "); i >= 0 {
				k, v := t.pick("error", "realm"), t.pick("x", `"x"`)
				x.rec.Header().Set("WWW-Authenticate", h[:i+1]+t.pick("x-", "last", "_")+k+"="+v+", "+h[i+1:]+", "+k+t.pick("s", "-x", "_description")+"="+v)
				note = "challenge " + x.rec.Header().Get("WWW-Authenticate")
			}
		case 8: // further members and parameters
			if m := (map[string]interface{}{}); json.Unmarshal(x.rec.Body.Bytes(), &m) == nil {
				for _, k := range []string{"Error", "x", "Active", "token-type", "SCOPE"} {
					m[k] = "x"
				}
				b, _ := json.Marshal(m)
				x.rec.Body.Reset()
				x.rec.Body.Write(b)
				note = "body " + string(b)
			}
			if l := x.rec.Header().Get("Location"); strings.ContainsAny(l, "?#") {
				x.rec.Header().Set("Location", l+"&State=x&x=y&Error=z")
				note = "redirect with more parameters"
			}
		}
	})
	ok, p := passes(k0.run, spec)
	k := k0
	t.note("%s against a server with %s", k.name, note)
	t.check("X02", p == nil, "%s panics: %v", k.name, p)
	if good && note != "" {
		t.check("X02", ok, "%s fails", k.name)
	}
	if bad && note != "" {
		t.check("X02", !ok, "%s passes", k.name)
	}
}

// suiteTrial lets one test fail, or leaves out a needed value.
func suiteTrial(t *run) {
	next, spec := kitServer()
	d := oauth2test.Default(next)
	t.check("X04", d.TokenEndpoint == "/oauth2/token" && d.AuthorizeEndpoint == "/oauth2/authorize" && d.RevocationEndpoint == "/oauth2/revoke" &&
		d.IntrospectionEndpoint == "/oauth2/introspect" && d.ProtectedResource == "/api/protected" && d.ExpectedExpiresIn == 3600 && d.Handler != nil &&
		d.InvalidToken == "invalid" && d.InvalidRefreshToken == "invalid" && d.InvalidRedirectURI == "http://invalid.com" &&
		!d.PasswordGrantSupport && !d.ClientCredentialsGrantSupport && !d.ImplicitGrantSupport && !d.AuthorizationCodeGrantSupport && !d.RefreshTokenGrantSupport && !d.CodeReplayMitigation, "Default: %+v", d)
	spec.PasswordGrantSupport, spec.ClientCredentialsGrantSupport, spec.ImplicitGrantSupport = t.chance(2), t.chance(2), t.chance(2)
	spec.AuthorizationCodeGrantSupport, spec.RefreshTokenGrantSupport = t.chance(2), t.chance(2)
	if t.chance(3) {
		spec.IntrospectionEndpoint = ""
	}
	if t.chance(3) {
		spec.RevocationEndpoint = ""
	}
	pw, cc, im, ac, rf := spec.PasswordGrantSupport, spec.ClientCredentialsGrantSupport, spec.ImplicitGrantSupport, spec.AuthorizationCodeGrantSupport, spec.RefreshTokenGrantSupport
	t.note("grants: password %v, client credentials %v, implicit %v, code %v, refresh %v; introspection %q, revocation %q", pw, cc, im, ac, rf, spec.IntrospectionEndpoint, spec.RevocationEndpoint)
	if t.chance(2) {
		type need struct {
			name   string
			needed bool
			drop   func()
		}
		ns := []need{
			{"Handler", true, func() { spec.Handler = nil }}, {"TokenEndpoint", true, func() { spec.TokenEndpoint = "" }},
			{"AuthorizeEndpoint", true, func() { spec.AuthorizeEndpoint = "" }}, {"ProtectedResource", true, func() { spec.ProtectedResource = "" }},
			{"ConfidentialClientID", true, func() { spec.ConfidentialClientID = "" }}, {"ConfidentialClientSecret", true, func() { spec.ConfidentialClientSecret = "" }},
			{"PublicClientID", true, func() { spec.PublicClientID = "" }}, {"InvalidScope", true, func() { spec.InvalidScope = "" }},
			{"ValidScope", true, func() { spec.ValidScope = "" }}, {"ExceedingScope", true, func() { spec.ExceedingScope = "" }},
			{"InvalidToken", true, func() { spec.InvalidToken = "" }}, {"ValidToken", true, func() { spec.ValidToken = "" }},
			{"UnknownToken", true, func() { spec.UnknownToken = "" }}, {"ExpiredToken", true, func() { spec.ExpiredToken = "" }},
			{"InvalidRedirectURI", im || ac, func() { spec.InvalidRedirectURI = "" }}, {"PrimaryRedirectURI", im || ac, func() { spec.PrimaryRedirectURI = "" }},
			{"SecondaryRedirectURI", im || ac, func() { spec.SecondaryRedirectURI = "" }},
			{"ResourceOwnerUsername", pw, func() { spec.ResourceOwnerUsername = "" }}, {"ResourceOwnerPassword", pw, func() { spec.ResourceOwnerPassword = "" }},
			{"InvalidAuthorizationParams", im || ac, func() { spec.InvalidAuthorizationParams = nil }}, {"ValidAuthorizationParams", im || ac, func() { spec.ValidAuthorizationParams = nil }},
			{"InvalidAuthorizationCode", ac, func() { spec.InvalidAuthorizationCode = "" }}, {"UnknownAuthorizationCode", ac, func() { spec.UnknownAuthorizationCode = "" }},
			{"ExpiredAuthorizationCode", ac, func() { spec.ExpiredAuthorizationCode = "" }},
			{"InvalidRefreshToken", rf, func() { spec.InvalidRefreshToken = "" }}, {"UnknownRefreshToken", rf, func() { spec.UnknownRefreshToken = "" }},
			{"ValidRefreshToken", rf, func() { spec.ValidRefreshToken = "" }}, {"ExpiredRefreshToken", rf, func() { spec.ExpiredRefreshToken = "" }},
		}
		n := ns[t.rnd.Intn(len(ns))]
		if !n.needed {
			return
		}
		n.drop()
		_, p := passes(oauth2test.Run, spec)
		t.check("X04", p != nil, "the suite does not refuse a specification without %s", n.name)
		return
	}
	// requests that only one of the tests makes
	marks := []struct {
		name    string
		enabled bool
		is      func(x *exchange) bool
	}{
		{"ProtectedResourceTest", true, func(x *exchange) bool { return x.req.Header.Get("Authorization") == "invalid" }},
		{"TokenEndpointTest", pw || cc || ac || rf, func(x *exchange) bool { return x.form.Get("grant_type") == "invalid" }},
		{"AuthorizationEndpointTest", im || ac, func(x *exchange) bool { return x.form.Get("response_type") == "invalid" }},
		{"PasswordGrantTest", pw, func(x *exchange) bool {
			return x.form.Get("grant_type") == "password" && x.form.Get("username") == "invalid"
		}},
		{"ClientCredentialsGrantTest", cc, func(x *exchange) bool {
			return x.form.Get("grant_type") == "client_credentials" && x.form.Get("scope") == "baz"
		}},
		{"ImplicitGrantTest", im, func(x *exchange) bool { return x.form.Get("response_type") == "token" && x.form.Get("scope") == "baz" }},
		{"AuthorizationCodeGrantTest", ac, func(x *exchange) bool { return x.form.Get("response_type") == "code" && x.form.Get("scope") == "baz" }},
		{"RefreshTokenGrantTest", rf, func(x *exchange) bool { return x.form.Get("refresh_token") == spec.UnknownRefreshToken }},
		{"IntrospectionEndpointTest", spec.IntrospectionEndpoint != "", func(x *exchange) bool {
			return x.req.URL.Path == "/oauth2/introspect" && x.form.Get("token") == spec.UnknownToken
		}},
		{"RevocationEndpointTest", spec.RevocationEndpoint != "", func(x *exchange) bool {
			return x.req.URL.Path == "/oauth2/revoke" && x.form.Get("token") == spec.UnknownToken
		}},
	}
	m := marks[t.rnd.Intn(len(marks))]
	if !m.enabled {
		return
	}
	spec.Handler = tamperer(next, func(n int, x *exchange) {
		if m.is(x) {
			x.rec.Code = 418
		}
	})
	ok, _ := passes(oauth2test.Run, spec)
	t.check("X04", !ok, "the suite passes against a server on which %s fails", m.name)
}
