package verifreplay

import (
	"bytes"
	"fmt"
	"net/url"
	"reflect"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/256dpi/oauth2/v2"
	"github.com/256dpi/oauth2/v2/verifreplay/arand"
)

func init() {
	for _, p := range []string{"A01", "A02", "A03", "A04", "A05", "A06", "A07", "A08", "A09", "A11", "A12", "A13", "A14", "A15", "A16"} {
		trials[p] = serverTrial
	}
	trials["A10"] = lockTrial
}

// ---------- a server and what is known about it ----------

type table map[string]oauth2.ServerCredential

type state struct {
	access, refresh, codes table
	clients, users         map[string]oauth2.ServerEntity
	config                 oauth2.ServerConfig
	secret                 string
	allowed                []string
}

type world struct {
	*run
	s       *oauth2.Server
	texts   []string // token texts to present
	origin  map[string]string
	refs    map[*oauth2.ServerCredential]string
	present []string
	broken  bool // the response of the next request cannot be written
}

func copyTable(m map[string]*oauth2.ServerCredential) (table, bool) {
	t := table{}
	for k, v := range m {
		if v == nil {
			return nil, false
		}
		c := *v
		c.Scope = append(oauth2.Scope(nil), v.Scope...)
		t[k] = c
	}
	return t, m != nil
}

func (w *world) state() (*state, bool) {
	st := &state{clients: map[string]oauth2.ServerEntity{}, users: map[string]oauth2.ServerEntity{}, config: w.s.Config, secret: string(w.s.Config.Secret), allowed: append([]string(nil), w.s.Config.AllowedScope...)}
	var a, b, c bool
	st.access, a = copyTable(w.s.AccessTokens)
	st.refresh, b = copyTable(w.s.RefreshTokens)
	st.codes, c = copyTable(w.s.AuthorizationCodes)
	if w.s.Clients == nil || w.s.Users == nil {
		return nil, false
	}
	for k, v := range w.s.Clients {
		if v == nil {
			return nil, false
		}
		st.clients[k] = *v
	}
	for k, v := range w.s.Users {
		if v == nil {
			return nil, false
		}
		st.users[k] = *v
	}
	return st, a && b && c
}

func sameCred(a, b oauth2.ServerCredential) bool {
	return a.ClientID == b.ClientID && a.Username == b.Username && a.ExpiresAt.Equal(b.ExpiresAt) && sameList(a.Scope, b.Scope) && a.RedirectURI == b.RedirectURI && a.Code == b.Code && a.Used == b.Used
}

func sameTable(a, b table) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		w, ok := b[k]
		if !ok || !sameCred(v, w) {
			return false
		}
	}
	return true
}

func without(t table, k string) table {
	r := table{}
	for n, c := range t {
		if n != k {
			r[n] = c
		}
	}
	return r
}

func added(old, new table) []string {
	var l []string
	for k := range new {
		if _, ok := old[k]; !ok {
			l = append(l, k)
		}
	}
	sort.Strings(l)
	return l
}

func (t *run) newWorld() *world {
	secret := []byte(t.pick("secret", "another secret", "", "0123456789abcdef"))
	allowed := oauth2.Scope{"foo", "bar"}
	if t.chance(4) {
		allowed = t.scope()
	}
	conf := oauth2.DefaultServerConfig(secret, allowed)
	if conf.KeyLength != 16 || conf.AccessTokenLifespan != time.Hour || conf.RefreshTokenLifespan != 7*24*time.Hour || conf.AuthorizationCodeLifespan != 10*time.Minute {
		t.check("A13 A12", false, "DefaultServerConfig is %+v", conf)
	}
	if t.chance(2) {
		conf.KeyLength = []int{16, 32, 24}[t.rnd.Intn(3)]
		conf.AccessTokenLifespan = []time.Duration{time.Hour, 1500 * time.Millisecond, 999 * time.Millisecond, 90 * time.Minute, 3 * time.Second, -time.Hour, 0}[t.rnd.Intn(7)]
		conf.RefreshTokenLifespan = []time.Duration{time.Hour, 24 * time.Hour, 3 * time.Minute, -time.Hour}[t.rnd.Intn(4)]
		conf.AuthorizationCodeLifespan = []time.Duration{time.Hour, 5 * time.Minute, time.Second * 30, -time.Minute}[t.rnd.Intn(4)]
	}
	w := &world{run: t, s: oauth2.NewServer(conf), origin: map[string]string{}, refs: map[*oauth2.ServerCredential]string{}}
	add := func(id string, e oauth2.ServerEntity) { w.s.Clients[id] = &e }
	add("c1", oauth2.ServerEntity{Secret: "s1", RedirectURI: "http://example.com/cb1", Confidential: true})
	add("c2", oauth2.ServerEntity{Secret: "s2", RedirectURI: "http://example.com/cb2?x=1", Confidential: false})
	if t.chance(2) {
		add("c3", oauth2.ServerEntity{Secret: t.pick("", "s1", "s3"), RedirectURI: t.pick("http://example.com/cb1", "http://example.com/cb3", "com.example:/cb"), Confidential: t.chance(2)})
	}
	if t.chance(4) {
		add("", oauth2.ServerEntity{Secret: t.pick("", "x"), RedirectURI: "http://example.com/cb", Confidential: t.chance(2)})
	}
	w.s.Users["u1"] = &oauth2.ServerEntity{Secret: "p1"}
	w.s.Users["u2"] = &oauth2.ServerEntity{Secret: t.pick("p2", "p1", "")}
	if t.chance(5) {
		w.s.Users[""] = &oauth2.ServerEntity{Secret: t.pick("", "p")}
	}
	t.note("server: %+v", conf)
	for k, c := range w.s.Clients {
		t.note("client %q: %+v", k, *c)
	}
	for k, c := range w.s.Users {
		t.note("user %q: %+v", k, *c)
	}
	// some existing credentials
	for n := t.rnd.Intn(6); n > 0; n-- {
		key := t.bytes(conf.KeyLength)
		text := tokenText(secret, key)
		sig := enc.EncodeToString(mac(secret, key))
		c := &oauth2.ServerCredential{ClientID: t.pick("c1", "c2", "c3"), Username: t.pick("u1", "u2", ""), ExpiresAt: time.Now().Add([]time.Duration{time.Hour, -time.Hour, time.Minute, -time.Second, 24 * time.Hour}[t.rnd.Intn(5)]), Scope: t.scope()}
		if t.chance(2) {
			c.Scope = oauth2.Scope{"foo", "bar"}
		}
		if t.chance(6) {
			c.ExpiresAt = []time.Time{{}, time.Unix(0, 0), time.Now(), time.Now().Add(200 * 365 * 24 * time.Hour), time.Unix(1, 0).UTC()}[t.rnd.Intn(5)]
		}
		kind := t.pick("access", "refresh", "code")
		switch kind {
		case "access":
			w.s.AccessTokens[sig] = c
		case "refresh":
			w.s.RefreshTokens[sig] = c
		case "code":
			c.Used = t.chance(4)
			c.RedirectURI = t.pick("http://example.com/cb1", "http://example.com/cb2?x=1", "")
			w.s.AuthorizationCodes[sig] = c
		}
		if kind != "code" && t.chance(3) {
			c.Code = t.pick("unknown-code", t.someCode(w))
		}
		w.texts = append(w.texts, text)
		t.note("existing %s %q: %+v", kind, text, *c)
	}
	w.texts = append(w.texts, tokenText(secret, t.bytes(16)))
	return w
}

func (t *run) someCode(w *world) string {
	var l []string
	for k := range w.s.AuthorizationCodes {
		l = append(l, k)
	}
	if len(l) == 0 {
		return ""
	}
	sort.Strings(l)
	return l[t.rnd.Intn(len(l))]
}

func (w *world) token() string {
	if len(w.texts) == 0 || w.chance(12) {
		return w.pick("", "x", "x.y", "...", w.text())
	}
	i := len(w.texts) - 1 - w.rnd.Intn(len(w.texts))
	if w.chance(2) && len(w.texts) > 4 {
		i = len(w.texts) - 1 - w.rnd.Intn(4)
	}
	s := w.texts[i]
	switch w.rnd.Intn(30) {
	case 0:
		s += w.pick("A", "\n", "=", ".", " ")
	case 1:
		s = s[:len(s)-1] + "A"
	case 2:
		s = s[1:]
	case 3:
		p := strings.SplitN(s, ".", 2)
		s = p[1] + "." + p[0]
	case 4:
		p := strings.SplitN(s, ".", 2)
		s = p[1]
	case 5:
		p := strings.SplitN(s, ".", 2)
		s = "AAAA." + p[1]
	}
	return s
}

// aRequest makes a random request for the server.
func (w *world) aRequest() *spec {
	v := url.Values{}
	id := w.pick("c1", "c1", "c2", "c2", "c3", "", "nope", "C1")
	sec := ""
	if c := w.s.Clients[id]; c != nil {
		sec = c.Secret
	}
	if w.chance(8) {
		sec = w.pick("", "s1", "s2", "S1", "s", "s1 ", "bad")
	}
	user := w.pick("u1", "u1", "u2", "", "nope", "U1")
	pw := ""
	if u := w.s.Users[user]; u != nil {
		pw = u.Secret
	}
	if w.chance(8) {
		pw = w.pick("", "p1", "p2", "P1", "bad")
	}
	scope := w.pick("", "foo", "foo bar", "bar foo foo", "foo baz", "baz", "Foo", "fo", "foobar", " foo  ", w.text())
	uri := ""
	if c := w.s.Clients[id]; c != nil {
		uri = c.RedirectURI
	}
	if w.chance(8) {
		uri = w.pick("http://example.com/cb1", "http://example.com/cb2", "http://example.com/cb1/", "http://example.com/cb1?x=1", "http://evil.com/", "HTTP://example.com/cb1", "http://example.com/cb1#x", "", "nope", "http://example.com/cb2?x=2")
	}
	if w.chance(6) {
		uri = url.QueryEscape(uri)
	}
	prefix := w.pick("/oauth2/", "/", "", "/token/", "//")
	post := "POST"
	auth := basic(id, sec)
	switch w.rnd.Intn(12) {
	case 0, 1, 2:
		v.Set("response_type", w.pick("token", "code", "code", "token", "x", "", "Token", "code token"))
		v.Set("client_id", id)
		v.Set("redirect_uri", uri)
		if w.chance(2) {
			v.Set("state", w.text())
		}
		if scope != "" || w.chance(2) {
			v.Set("scope", scope)
		}
		v.Set("username", user)
		v.Set("password", pw)
		s := w.request(w.pick("POST", "POST", "POST", "POST", "POST", "GET"), prefix+"authorize", v, w.pick("", "", auth))
		return s
	case 3, 4, 5, 6, 7:
		g := w.pick("password", "client_credentials", "authorization_code", "authorization_code", "refresh_token", "refresh_token", "x", "implicit", "Password", "")
		if w.prop == "A05" || w.prop == "A06" {
			g = w.pick(g, "authorization_code", "refresh_token")
		}
		v.Set("grant_type", g)
		if scope != "" && (g == "password" || g == "client_credentials" || w.chance(2)) {
			v.Set("scope", scope)
		}
		if g == "password" || w.chance(8) {
			v.Set("username", user)
			v.Set("password", pw)
		}
		tk := w.token()
		// prefer a fitting credential
		if w.chance(2) {
			for try := 0; try < 6; try++ {
				sig, _ := sigText(w.s.Config.Secret, tk)
				if g == "authorization_code" && w.s.AuthorizationCodes[sig] != nil {
					c := w.s.AuthorizationCodes[sig]
					if !w.chance(6) {
						id = c.ClientID
					}
					if !w.chance(6) {
						uri = c.RedirectURI
					}
					break
				}
				if g == "refresh_token" && w.s.RefreshTokens[sig] != nil {
					if !w.chance(6) {
						id = w.s.RefreshTokens[sig].ClientID
					}
					if w.chance(2) {
						v.Del("scope")
					}
					break
				}
				tk = w.token()
			}
			if c := w.s.Clients[id]; c != nil && !w.chance(8) {
				sec = c.Secret
			}
			auth = basic(id, sec)
		}
		if g == "authorization_code" || w.chance(8) {
			v.Set("code", tk)
			v.Set("redirect_uri", uri)
		}
		if g == "refresh_token" || w.chance(8) {
			v.Set("refresh_token", tk)
		}
		if w.chance(4) {
			auth = ""
			v.Set("client_id", id)
			v.Set("client_secret", sec)
		}
		return w.request(post, prefix+"token", v, auth)
	case 8, 9, 10:
		tk := w.token()
		if w.chance(2) {
			sig, _ := sigText(w.s.Config.Secret, tk)
			if c := w.s.AccessTokens[sig]; c != nil {
				id = c.ClientID
			} else if c := w.s.RefreshTokens[sig]; c != nil {
				id = c.ClientID
			}
			if c := w.s.Clients[id]; c != nil && !w.chance(8) {
				sec = c.Secret
			}
			auth = basic(id, sec)
		}
		v.Set("token", tk)
		if w.chance(3) {
			v.Set("token_type_hint", w.pick("access_token", "refresh_token", "x", "", "bearer", "authorization_code"))
		}
		if w.chance(10) {
			auth = w.pick("", "Bearer x", "Basic x")
			v.Set("client_id", id)
			v.Set("client_secret", sec)
		}
		e := w.pick("introspect", "revoke")
		switch w.prop {
		case "A08":
			e = w.pick(e, "revoke")
		case "A09":
			e = w.pick(e, "introspect")
		}
		return w.request(post, prefix+e, v, auth)
	}
	v.Set("grant_type", "password")
	v.Set("username", user)
	v.Set("password", pw)
	return w.request(post, w.pick("/", "", "/foo", "/token/", "/tokens", "/xtoken", "/Token", "/oauth2/token/x", "token/", "/a/authorize/b", "/introspection", "/revoke.", "/token?x"), v, auth)
}

// serve lets the server handle a request, watching for hangs.
func (w *world) serve(s *spec) (rec *recorder, p interface{}) {
	rec = newRecorder()
	rec.broken = w.broken
	done := make(chan interface{}, 1)
	go func() {
		done <- call(func() { w.s.ServeHTTP(rec, s.build()) })
	}()
	select {
	case p = <-done:
	case <-time.After(10 * time.Second):
		w.check("A10 A12 "+w.prop, false, "the request does not return")
	}
	return rec, p
}

func (w *world) free() bool {
	ok := make(chan bool, 1)
	go func() {
		w.s.Mutex.Lock()
		w.s.Mutex.Unlock()
		ok <- true
	}()
	select {
	case <-ok:
		return true
	case <-time.After(5 * time.Second):
		return false
	}
}

func serverTrial(t *run) {
	w := t.newWorld()
	for n := 2 + t.rnd.Intn(25); n > 0; n-- {
		if t.prop == "A01" && t.chance(2) || t.chance(15) {
			w.authorize()
			continue
		}
		if t.chance(12) {
			// time passes
			for _, m := range []map[string]*oauth2.ServerCredential{w.s.AccessTokens, w.s.RefreshTokens, w.s.AuthorizationCodes} {
				for _, c := range m {
					if t.chance(4) {
						c.ExpiresAt = time.Now().Add(-time.Duration(1 + t.rnd.Intn(1e9)))
					}
				}
			}
			t.note("-- some credentials expire")
		}
		w.step()
	}
}

func (w *world) authorize() {
	before, _ := w.state()
	tk := w.token()
	h := w.pick("Bearer ", "bearer ", "Bearer ") + tk
	if w.chance(5) {
		h = w.authHeader()
	}
	s := &spec{method: w.pick("GET", "POST"), path: "/api", header: map[string]string{}, query: w.pick("", "access_token="+url.QueryEscape(tk)), ctype: ""}
	if h != "" {
		s.header["Authorization"] = h
	}
	var required oauth2.Scope
	if w.chance(3) {
		required = w.scope()
	} else if w.chance(2) {
		required = oauth2.Scope{w.pick("foo", "bar", "baz")}
	}
	rec := newRecorder()
	var ok bool
	t0 := time.Now()
	done := make(chan interface{}, 1)
	go func() { done <- call(func() { ok = w.s.Authorize(rec, s.build(), required) }) }()
	var p interface{}
	select {
	case p = <-done:
	case <-time.After(10 * time.Second):
		w.check("A01 A10 A12", false, "Authorize does not return")
	}
	t1 := time.Now()
	w.note("Authorize(%v, %q) = %v; %v", s, []string(required), ok, rec)
	w.check("A01 A12", p == nil, "panic: %v", p)
	w.check("A10", w.free(), "the mutex is not released")
	after, fine := w.state()
	w.check("A01 A12 A14", fine && sameTable(before.access, after.access) && sameTable(before.refresh, after.refresh) && sameTable(before.codes, after.codes) && reflect.DeepEqual(before.clients, after.clients), "server state was changed")
	status, name := 0, ""
	text, wf := bearerToken(h)
	sig, auth := sigText(w.s.Config.Secret, text)
	c, known := before.access[sig]
	switch {
	case h == "":
		status = 401
	case !wf:
		status, name = 400, "invalid_request"
	case !auth || !known:
		status, name = 401, "invalid_token"
	case c.ExpiresAt.Before(t0):
		status, name = 401, "invalid_token"
	case c.ExpiresAt.Before(t1):
		return
	case !within(required, c.Scope):
		status, name = 403, "insufficient_scope"
	}
	if status == 0 {
		w.check("A01", ok && !rec.started() && len(rec.header) == 0, "should be admitted without a response")
		return
	}
	w.check("A01 A12", !ok && rec.calls == 1, "should be refused with one response")
	w.check("A01", rec.status == status && rec.body.Len() == 0, "should be refused with %d", status)
	ch := rec.sent["Www-Authenticate"]
	w.check("A01", len(ch) == 1 && strings.HasPrefix(ch[0], "Bearer ") && (name == "" && !strings.Contains(ch[0], "error") || name != "" && strings.Contains(ch[0], `error="`+name+`"`)), "challenge %q should name %q", ch, name)
}

// step sends one random request and judges its effect and answer.
func (w *world) step() {
	s := w.aRequest()
	before, _ := w.state()
	recs := map[string]*oauth2.ServerCredential{}
	for k, c := range w.s.AuthorizationCodes {
		recs[k] = c
	}
	fail := false
	if w.prop == "A11" && w.chance(2) || w.chance(40) {
		fail = true
		arand.Fail(w.rnd.Intn(2), w.chance(2))
	}
	w.broken = w.prop == "A12" && w.chance(6)
	t0 := time.Now()
	rec, p := w.serve(s)
	t1 := time.Now()
	arand.Works()
	if w.broken {
		w.note("    the response cannot be written")
	}
	w.note("ServeHTTP(%v)%s\n    -> %v", s, map[bool]string{true: " with a failing random source"}[fail], rec)
	if p != nil {
		w.note("    panic: %s", firstLines(fmt.Sprint(p), 1))
	}
	w.check("A10", w.free(), "the mutex is not released")
	after, fine := w.state()
	w.check("A12", fine, "the tables are not well-formed")
	if !fine {
		panic(stop{})
	}
	w.check("A14", reflect.DeepEqual(before.clients, after.clients) && reflect.DeepEqual(before.users, after.users) && reflect.DeepEqual(before.config, after.config) && before.secret == after.secret && sameList(before.allowed, after.allowed), "clients, users or configuration were changed")
	same := sameTable(before.access, after.access) && sameTable(before.refresh, after.refresh) && sameTable(before.codes, after.codes)

	if p != nil {
		w.check("A12", fail, "panic: %v", p)
		if !fail {
			panic(stop{})
		}
		w.check("A11", same, "the state was changed although the random source failed")
		w.check("A11", rec.calls == 0 && rec.body.Len() == 0, "a response was sent although the random source failed")
		return
	}
	w.check("A12", rec.calls == 1, "not exactly one response")
	if w.broken {
		w.broken = false
		return
	}

	// existing records
	newA, newR, newC := added(before.access, after.access), added(before.refresh, after.refresh), added(before.codes, after.codes)
	for k, c := range before.codes {
		d, ok := after.codes[k]
		w.check("A14 A05", ok, "code %q was removed", k)
		w.check("A05", !c.Used || d.Used, "the mark of code %q was cleared", k)
		d.Used = c.Used
		w.check("A14", sameCred(c, d), "code %q was changed", k)
		w.check("A13", c.ExpiresAt.Equal(d.ExpiresAt), "the expiry of code %q was changed", k)
	}
	for i, m := range []table{before.access, before.refresh} {
		n := []table{after.access, after.refresh}[i]
		for k, c := range m {
			if d, ok := n[k]; ok {
				w.check("A14", sameCred(c, d), "token %q was changed", k)
				w.check("A13", c.ExpiresAt.Equal(d.ExpiresAt), "the expiry of token %q was changed", k)
			}
		}
	}
	w.check("A14", s.method == "POST" || same, "a %s request changed the state", s.method)
	w.check("A04", len(newA) <= 1 && len(newR) <= 1 && len(newC) <= 1, "more than one credential of a kind was issued")

	// tables must not share storage or records
	for k, c := range w.s.AuthorizationCodes {
		if o, ok := recs[k]; ok {
			_ = o
		}
		_ = c
	}

	in := s.parse()
	seg := s.path[strings.LastIndexByte(s.path, '/')+1:]
	doc := rec.doc()
	name, _ := doc["error"].(string)
	unchanged := func(props string) { w.check(props, same, "the state was changed") }
	noTokens := func(props string) {
		w.check(props, len(newA)+len(newR)+len(newC) == 0, "credentials were issued")
		w.check(props, rec.status >= 400 || rec.isRedirect() || seg != "token", "should be refused")
	}
	refused := func(props string, status int, code string) {
		w.check(props, rec.status == status && name == code && !rec.isRedirect(), "should be refused with %d %s", status, code)
	}
	if fail {
		// nothing random was needed; the request is judged as usual
	}

	switch seg {
	case "authorize":
		f := in.form
		uri, uerr := url.QueryUnescape(first(f, "redirect_uri"))
		ok := (s.method == "GET" || s.method == "POST") && in.ok && first(f, "response_type") != "" && first(f, "client_id") != "" && uerr == nil && uri != "" && goodURI(uri)
		if !ok {
			w.check("A03", !rec.isRedirect(), "an ill-formed request must not be redirected")
			refused("A16 A03", 400, "invalid_request")
			noTokens("A04 A15")
			unchanged("A16 A04")
			return
		}
		rt, id, state := first(f, "response_type"), first(f, "client_id"), first(f, "state")
		if rt != "token" && rt != "code" {
			refused("A16 A03", 400, "invalid_request")
			noTokens("A04 A15")
			unchanged("A16 A04")
			return
		}
		c, known := before.clients[id]
		if !known || c.RedirectURI != uri {
			w.check("A03", !rec.isRedirect() && rec.status >= 400, "must be refused without a redirect")
			noTokens("A04 A15")
			unchanged("A04 A03")
			w.check("A16", rec.status != 404, "not routed")
			return
		}
		if s.method == "GET" {
			w.check("A03", !rec.isRedirect(), "must not redirect")
			unchanged("A14 A04")
			w.check("A16", rec.status != 404, "not routed")
			return
		}
		scope := pieces(first(f, "scope"))
		username, password := first(in.post, "username"), first(in.post, "password")
		u, uok := before.users[username]
		frag := rt == "token"
		errname := ""
		if !within(scope, before.allowed) {
			errname = "invalid_scope"
		} else if !uok || u.Secret != password {
			errname = "access_denied"
		}
		if errname != "" {
			unchanged("A03 A04 A15")
			want := map[string]string{"error": errname}
			if state != "" {
				want["state"] = state
			}
			problem := rec.redirectsTo(uri, want, frag)
			w.check("A03", problem == "", "should redirect with error %s: %s", errname, problem)
			return
		}
		if frag {
			w.check("A04", len(newA) == 1 && len(newR) == 0 && len(newC) == 0, "exactly one access token should be issued")
			w.check("A15", len(newA) == 1 && len(newR) == 0 && len(newC) == 0, "exactly one access token should be recorded")
			w.check("A03", rec.isRedirect(), "should be redirected")
			if len(newA) != 1 {
				panic(stop{})
			}
			w.check("A14", sameTable(before.access, without(after.access, newA[0])) && sameTable(before.codes, after.codes), "existing records were changed")
			w.issued("A04", after.access[newA[0]], id, username, scope, "", "")
			w.lasting("A13", after.access[newA[0]], before.config.AccessTokenLifespan, t0, t1)
			params := w.location(rec, true)
			text := params["access_token"]
			w.texts = append(w.texts, text)
			w.handed("A15", text, newA[0])
			want := map[string]string{"token_type": "bearer", "access_token": text, "expires_in": fmt.Sprint(int64(before.config.AccessTokenLifespan / time.Second))}
			w.check("A13", params["expires_in"] == want["expires_in"], "advertised lifetime %q", params["expires_in"])
			if state != "" {
				want["state"] = state
			}
			if len(scope) > 0 {
				want["scope"] = strings.Join(scope, " ")
			}
			problem := rec.redirectsTo(uri, want, true)
			w.check("A03 A15", problem == "", "%s", problem)
			return
		}
		w.check("A04", len(newA) == 0 && len(newR) == 0 && len(newC) == 1, "exactly one code should be issued")
		w.check("A15", len(newA) == 0 && len(newR) == 0 && len(newC) == 1, "exactly one code should be recorded")
		w.check("A03", rec.isRedirect(), "should be redirected")
		if len(newC) != 1 {
			panic(stop{})
		}
		d := after.codes[newC[0]]
		w.check("A04 A05", !d.Used, "a new code is marked as used")
		w.issued("A04", d, id, username, scope, "", uri)
		w.lasting("A13", d, before.config.AuthorizationCodeLifespan, t0, t1)
		params := w.location(rec, false)
		text := ""
		for _, l := range w.queryOf(rec)["code"] {
			if sig, ok := sigText(before.config.Secret, l); ok && sig == newC[0] {
				text = l
			}
		}
		_ = params
		w.texts = append(w.texts, text)
		w.handed("A15", text, newC[0])
		want := map[string]string{"code": text}
		if state != "" {
			want["state"] = state
		}
		problem := rec.redirectsTo(uri, want, false)
		w.check("A03 A15", problem == "", "%s", problem)
	case "token":
		f := in.post
		id, sec := first(f, "client_id"), first(f, "client_secret")
		if in.basic {
			id, sec = in.user, in.pass
		}
		w.check("A03", !rec.isRedirect(), "the token endpoint must not redirect")
		c, known := before.clients[id]
		authenticated := known && (!c.Confidential || c.Secret == sec)
		if !authenticated {
			w.check("A02", same, "an unauthenticated client changed the state")
			w.check("A02", rec.status >= 400, "an unauthenticated client must be refused")
		}
		uri, uerr := url.QueryUnescape(first(f, "redirect_uri"))
		g := first(f, "grant_type")
		if s.method != "POST" || !in.ok || g == "" || id == "" || uerr != nil || uri != "" && !goodURI(uri) {
			refused("A16", 400, "invalid_request")
			unchanged("A16 A04")
			noTokens("A04 A15")
			return
		}
		if g != "password" && g != "client_credentials" && g != "authorization_code" && g != "refresh_token" {
			refused("A16", 400, "invalid_request")
			unchanged("A16 A04")
			noTokens("A04 A15")
			return
		}
		if !authenticated {
			refused("A02", 401, "invalid_client")
			for k := range doc {
				w.check("A02", k == "error" || k == "error_description", "the refusal discloses %q", k)
			}
			noTokens("A04 A15")
			return
		}
		w.check("A16", rec.status != 404 && rec.calls == 1, "not routed")
		scope := pieces(first(f, "scope"))
		direct := func(ok bool, user string) {
			if !ok {
				unchanged("A04 A15")
				w.check("A04", rec.status >= 400, "should be refused")
				return
			}
			w.pair("A04", rec, before, after, newA, newR, id, user, scope, "", t0, t1)
			w.check("A14", sameTable(before.codes, after.codes) && len(after.access) == len(before.access)+1 && len(after.refresh) == len(before.refresh)+1, "existing records were removed")
		}
		switch g {
		case "password":
			u, ok := before.users[first(f, "username")]
			direct(ok && u.Secret == first(f, "password") && within(scope, before.allowed), first(f, "username"))
		case "client_credentials":
			direct(c.Confidential && within(scope, before.allowed), "")
		case "authorization_code":
			sig, auth := sigText(before.config.Secret, first(f, "code"))
			code, known := before.codes[sig]
			if auth && known && code.Used {
				w.check("A06 A05", rec.status >= 400 && len(newA)+len(newR)+len(newC) == 0, "a replayed code must be refused")
				for i, m := range []table{before.access, before.refresh} {
					n := []table{after.access, after.refresh}[i]
					for k, cr := range m {
						_, left := n[k]
						w.check("A06", left == (cr.Code != sig), "token %q (descending from %q) remains: %v", k, cr.Code, left)
						w.check("A14", left || cr.Code == sig, "token %q was removed", k)
					}
				}
				w.check("A06 A05", sameTable(before.codes, after.codes), "codes were changed by a replay")
				return
			}
			if !auth || !known || code.ExpiresAt.Before(t0) || code.ClientID != id || code.RedirectURI != uri {
				w.check("A05", rec.status >= 400, "the code must not be redeemable")
				unchanged("A05")
				noTokens("A04 A15")
				return
			}
			if code.ExpiresAt.Before(t1) {
				return
			}
			w.check("A05", after.codes[sig].Used, "the redeemed code is not marked")
			want := table{}
			for k, v := range before.codes {
				if k == sig {
					v.Used = true
				}
				want[k] = v
			}
			w.check("A05", sameTable(want, after.codes), "other codes were changed")
			w.pair("A05", rec, before, after, newA, newR, id, code.Username, code.Scope, sig, t0, t1)
			w.check("A14 A05", len(after.access) == len(before.access)+1 && len(after.refresh) == len(before.refresh)+1, "existing tokens were removed")
		case "refresh_token":
			sig, auth := sigText(before.config.Secret, first(f, "refresh_token"))
			rt, known := before.refresh[sig]
			if !auth || !known || rt.ExpiresAt.Before(t0) || rt.ClientID != id || !within(scope, rt.Scope) {
				w.check("A07", rec.status >= 400, "the refresh token must not be redeemable")
				unchanged("A07")
				noTokens("A04 A15")
				return
			}
			if rt.ExpiresAt.Before(t1) {
				return
			}
			if len(scope) == 0 {
				scope = rt.Scope
			}
			_, left := after.refresh[sig]
			w.check("A07", !left, "the presented refresh token remains")
			w.pair("A07", rec, before, after, newA, newR, id, rt.Username, scope, rt.Code, t0, t1)
			if len(newR) == 1 {
				w.check("A07 A14", sameTable(without(before.refresh, sig), without(after.refresh, newR[0])) && sameTable(before.access, without(after.access, newA[0])), "other tokens were changed")
			}
			w.check("A14 A07", sameTable(before.codes, after.codes), "codes were changed")
		}
	case "introspect", "revoke":
		f := in.post
		w.check("A03", !rec.isRedirect(), "must not redirect")
		w.check("A04", len(newA)+len(newR)+len(newC) == 0, "credentials were issued")
		if seg == "introspect" {
			unchanged("A09")
		}
		c, known := before.clients[in.user]
		authenticated := in.basic && known && (!c.Confidential || c.Secret == in.pass)
		if !authenticated {
			w.check("A02", same && rec.status >= 400, "an unauthenticated client must be refused")
		}
		tk, hint := first(f, "token"), first(f, "token_type_hint")
		if s.method != "POST" || !in.ok || tk == "" || !in.basic {
			refused("A16", 400, "invalid_request")
			unchanged("A16")
			return
		}
		p := "A08"
		if seg == "introspect" {
			p = "A09"
		}
		if hint != "" && hint != "access_token" && hint != "refresh_token" {
			w.check("A16 A08", rec.status == 400, "an unknown hint must be refused")
			unchanged("A16 A08")
			return
		}
		if !authenticated {
			refused("A02", 401, "invalid_client")
			for k := range doc {
				w.check("A02", k == "error" || k == "error_description", "the refusal discloses %q", k)
			}
			w.check("A02", doc["error_description"] == nil || doc["error_description"] == "unknown client", "the refusal discloses %v", doc)
			return
		}
		sig, auth := sigText(before.config.Secret, tk)
		if !auth {
			w.check(p, rec.status == 400, "an inauthentic token must be refused with 400")
			unchanged(p)
			return
		}
		w.check("A16", rec.status != 404, "not routed")
		a, isA := before.access[sig]
		r, isR := before.refresh[sig]
		if isA && a.ClientID != in.user || isR && r.ClientID != in.user {
			refused(p, 401, "invalid_client")
			unchanged(p)
			return
		}
		if seg == "revoke" {
			w.check("A08", rec.status == 200, "should be answered with 200")
			w.check("A08", sameTable(after.access, without(before.access, sig)) && sameTable(after.refresh, without(before.refresh, sig)) && sameTable(after.codes, before.codes), "exactly the presented token should be removed")
			w.check("A14", sameTable(after.codes, before.codes) && len(after.access)+len(after.refresh) >= len(before.access)+len(before.refresh)-1, "other records were removed")
			return
		}
		kind := "access_token"
		if isR {
			a, kind = r, "refresh_token"
		}
		live := isA || isR
		if live && !a.ExpiresAt.Before(t0) && a.ExpiresAt.Before(t1) {
			return
		}
		want := map[string]interface{}{"active": false}
		if live && !a.ExpiresAt.Before(t0) {
			want = map[string]interface{}{"active": true, "token_type": kind}
			if len(a.Scope) > 0 {
				want["scope"] = js(strings.Join(a.Scope, " "))
			}
			if a.ClientID != "" {
				want["client_id"] = a.ClientID
			}
			if a.Username != "" {
				want["username"] = a.Username
			}
			if a.ExpiresAt.Unix() != 0 {
				want["exp"] = num(a.ExpiresAt.Unix())
			}
		}
		w.check("A09", rec.status == 200 && rec.isJSON() && sameDoc(doc, want), "should be reported as %v", want)
	default:
		w.check("A16", rec.status == 404, "should not be found")
		unchanged("A16 A04")
	}
}

func (w *world) issued(props string, c oauth2.ServerCredential, client, user string, scope []string, code, uri string) {
	w.check(props, c.ClientID == client && c.Username == user && sameList(c.Scope, scope), "issued %+v, should be bound to client %q, user %q, scope %q", c, client, user, scope)
	w.check("A06", c.Code == code, "descent is %q, should be %q", c.Code, code)
	w.check("A04 A05", c.RedirectURI == uri, "redirect URI is %q, should be %q", c.RedirectURI, uri)
}

func (w *world) lasting(props string, c oauth2.ServerCredential, span time.Duration, t0, t1 time.Time) {
	w.check(props, !c.ExpiresAt.Before(t0.Add(span)) && !c.ExpiresAt.After(t1.Add(span)), "expires at %v, should be %v after %v", c.ExpiresAt, span, t0)
}

func (w *world) handed(props, text, sig string) {
	got, ok := sigText(w.s.Config.Secret, text)
	w.check(props, ok && got == sig, "handed out %q, but recorded under %q", text, sig)
}

func (w *world) location(rec *recorder, frag bool) map[string]string {
	m := map[string]string{}
	if len(rec.sent["Location"]) == 0 {
		return m
	}
	loc := rec.sent["Location"][0]
	if frag {
		if i := strings.IndexByte(loc, '#'); i >= 0 {
			v, _ := url.ParseQuery(loc[i+1:])
			for k := range v {
				m[k] = v.Get(k)
			}
		}
		return m
	}
	for k, l := range w.queryOf(rec) {
		m[k] = l[0]
	}
	return m
}

func (w *world) queryOf(rec *recorder) url.Values {
	if len(rec.sent["Location"]) == 0 {
		return nil
	}
	u, err := url.Parse(rec.sent["Location"][0])
	if err != nil {
		return nil
	}
	return u.Query()
}

// pair checks a successful token response with two new tokens.
func (w *world) pair(prop string, rec *recorder, before, after *state, newA, newR []string, client, user string, scope []string, code string, t0, t1 time.Time) {
	w.check(prop, rec.status == 200, "tokens should be issued")
	w.check("A04 A15 "+prop, rec.status != 200 || len(newA) == 1 && len(newR) == 1, "one access and one refresh token should be recorded")
	if len(newA) != 1 || len(newR) != 1 || rec.status != 200 {
		w.check("A15 A04", rec.status == 200 && len(newA) == 1 && len(newR) == 1, "credentials were recorded but not handed out, or not issued")
		panic(stop{})
	}
	a, r := after.access[newA[0]], after.refresh[newR[0]]
	w.issued(prop+" A04", a, client, user, scope, code, "")
	w.issued(prop+" A04", r, client, user, scope, code, "")
	w.check("A04", !a.Used && !r.Used, "tokens are marked as used")
	w.lasting("A13", a, before.config.AccessTokenLifespan, t0, t1)
	w.lasting("A13", r, before.config.RefreshTokenLifespan, t0, t1)
	doc := rec.doc()
	at, _ := doc["access_token"].(string)
	rt, _ := doc["refresh_token"].(string)
	w.texts = append(w.texts, at, rt)
	w.handed("A15", at, newA[0])
	w.handed("A15", rt, newR[0])
	ka, _, _ := parts(before.config.Secret, at)
	kr, _, _ := parts(before.config.Secret, rt)
	w.check("A15", !bytes.Equal(ka, kr) && len(ka) == before.config.KeyLength && len(kr) == before.config.KeyLength, "the tokens are not independent keys of the configured length")
	want := map[string]interface{}{"token_type": "bearer", "access_token": at, "refresh_token": rt, "expires_in": num(int64(before.config.AccessTokenLifespan / time.Second))}
	w.check("A13", doc["expires_in"] == want["expires_in"], "advertised lifetime %v", doc["expires_in"])
	if len(scope) > 0 {
		want["scope"] = js(strings.Join(scope, " "))
	}
	w.check("A15", rec.isJSON() && sameDoc(doc, want), "response should be %v", want)
}

// ---------- locking ----------

func lockTrial(t *run) {
	switch t.rnd.Intn(3) {
	case 0:
		serverTrial(t)
		return
	}
	secret := []byte("secret")
	conf := oauth2.DefaultServerConfig(secret, oauth2.Scope{"foo"})
	w := &world{run: t, s: oauth2.NewServer(conf)}
	w.s.Clients["c1"] = &oauth2.ServerEntity{Secret: "s1", RedirectURI: "http://example.com/cb1", Confidential: true}
	w.s.Users["u1"] = &oauth2.ServerEntity{Secret: "p1"}
	arand.Delay(time.Duration(t.rnd.Intn(3)) * time.Millisecond)
	defer arand.Delay(0)
	var codes, refreshes, accesses []string
	add := func(m map[string]*oauth2.ServerCredential, c oauth2.ServerCredential) string {
		key := t.bytes(16)
		m[enc.EncodeToString(mac(secret, key))] = &c
		return tokenText(secret, key)
	}
	for i := 0; i < 3; i++ {
		base := oauth2.ServerCredential{ClientID: "c1", Username: "u1", Scope: oauth2.Scope{"foo"}, ExpiresAt: time.Now().Add(time.Hour)}
		accesses = append(accesses, add(w.s.AccessTokens, base))
		refreshes = append(refreshes, add(w.s.RefreshTokens, base))
		base.RedirectURI = "http://example.com/cb1"
		codes = append(codes, add(w.s.AuthorizationCodes, base))
	}
	auth := basic("c1", "s1")
	var mutex sync.Mutex
	success := map[string]int{}
	var wg sync.WaitGroup
	seeds := t.rnd.Int63()
	for i := 0; i < 12; i++ {
		wg.Add(1)
		k := (int(seeds>>uint(i)) & 1) + i
		go func(k int) {
			defer wg.Done()
			post := func(path string, v url.Values, name string) {
				s := &spec{method: "POST", path: path, header: map[string]string{"Authorization": auth}, ctype: formType, body: v.Encode()}
				rec := newRecorder()
				if call(func() { w.s.ServeHTTP(rec, s.build()) }) == nil && rec.status == 200 {
					mutex.Lock()
					success[name]++
					mutex.Unlock()
				}
			}
			switch k % 6 {
			case 0, 1:
				c := codes[k%2]
				post("/token", url.Values{"grant_type": {"authorization_code"}, "code": {c}, "redirect_uri": {"http://example.com/cb1"}}, "code "+c)
			case 2, 3:
				r := refreshes[k%2]
				post("/token", url.Values{"grant_type": {"refresh_token"}, "refresh_token": {r}}, "refresh "+r)
			case 4:
				post("/introspect", url.Values{"token": {accesses[k%3]}}, "introspect")
				post("/revoke", url.Values{"token": {accesses[k%3]}}, "revoke")
			case 5:
				s := &spec{method: "GET", path: "/", header: map[string]string{"Authorization": "Bearer " + accesses[k%3]}}
				_ = call(func() { w.s.Authorize(newRecorder(), s.build(), oauth2.Scope{"foo"}) })
				post("/token", url.Values{"grant_type": {"password"}, "username": {"u1"}, "password": {"p1"}}, "password")
			}
		}(k)
	}
	done := make(chan bool)
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		t.check("A10", false, "concurrent requests do not return")
	}
	t.note("concurrent requests, successes: %v", success)
	for name, n := range success {
		t.check("A10", n <= 1 || strings.HasPrefix(name, "introspect") || strings.HasPrefix(name, "revoke") || name == "password", "%s succeeded %d times", name, n)
	}
	t.check("A10", w.free(), "the mutex is not released")
}
