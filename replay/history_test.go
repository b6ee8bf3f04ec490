package verifreplay

import (
	"net/url"
	"strings"
	"time"

	"github.com/256dpi/oauth2/v2"
)

func init() {
	trials["A17"] = historyTrial
	trials["A18"] = honourTrial
}

// A credential handed out by the server, as its holder sees it.
type held struct {
	kind   string // access, refresh or code
	text   string
	client string
	user   string
	uri    string
	scope  []string
	from   string // the code it descends from
	dead   string // why it must not be accepted any more
}

type history struct {
	*world
	held []*held
}

func (h *history) find(kind, text string) *held {
	for _, c := range h.held {
		if c.kind == kind && c.text == text {
			return c
		}
	}
	return nil
}

func (h *history) hold(kind, text, client, user, uri string, scope []string, from string) *held {
	c := &held{kind: kind, text: text, client: client, user: user, uri: uri, scope: scope, from: from}
	h.held = append(h.held, c)
	return c
}

func (h *history) some(kind string) *held {
	var l []*held
	for _, c := range h.held {
		if c.kind == kind {
			l = append(l, c)
		}
	}
	if len(l) == 0 {
		return nil
	}
	if h.chance(2) {
		return l[len(l)-1]
	}
	return l[h.rnd.Intn(len(l))]
}

func (h *history) send(path string, v url.Values, client string) (*recorder, bool) {
	sec := ""
	if c := h.s.Clients[client]; c != nil {
		sec = c.Secret
	}
	auth := ""
	if path != "authorize" {
		auth = basic(client, sec)
	}
	s := &spec{method: "POST", path: "/oauth2/" + path, header: map[string]string{}, ctype: formType, body: v.Encode()}
	if auth != "" {
		s.header["Authorization"] = auth
	}
	rec, p := h.serve(s)
	h.note("ServeHTTP(%v)\n    -> %v", s, rec)
	if p != nil {
		h.note("    panic: %v", p)
		panic(stop{})
	}
	return rec, rec.status == 200
}

// tokens records the tokens of a successful token response.
func (h *history) tokens(rec *recorder, client, user string, scope []string, from string) (got []*held) {
	doc := rec.doc()
	if a, _ := doc["access_token"].(string); a != "" {
		got = append(got, h.hold("access", a, client, user, "", scope, from))
	}
	if r, _ := doc["refresh_token"].(string); r != "" {
		got = append(got, h.hold("refresh", r, client, user, "", scope, from))
	}
	return got
}

// issue obtains something new.
func (h *history) issue() []*held {
	client := h.pick("c1", "c1", "c2")
	user := h.pick("u1", "u2")
	scope := h.pick("", "foo", "bar", "foo bar", "bar foo foo")
	v := url.Values{}
	if scope != "" {
		v.Set("scope", scope)
	}
	list := pieces(scope)
	uri := h.s.Clients[client].RedirectURI
	switch h.rnd.Intn(5) {
	case 0:
		v.Set("grant_type", "password")
		v.Set("username", user)
		v.Set("password", h.s.Users[user].Secret)
		if rec, ok := h.send("token", v, client); ok {
			return h.tokens(rec, client, user, list, "")
		}
	case 1:
		v.Set("grant_type", "client_credentials")
		if rec, ok := h.send("token", v, client); ok {
			return h.tokens(rec, client, "", list, "")
		}
	default:
		kind := h.pick("token", "code", "code", "code")
		v.Set("response_type", kind)
		v.Set("client_id", client)
		v.Set("redirect_uri", uri)
		v.Set("username", user)
		v.Set("password", h.s.Users[user].Secret)
		rec, _ := h.send("authorize", v, client)
		if kind == "token" {
			if a := h.location(rec, true)["access_token"]; a != "" {
				return []*held{h.hold("access", a, client, user, "", list, "")}
			}
			return nil
		}
		var got []*held
		for _, c := range h.queryOf(rec)["code"] {
			if _, ok := sigText(h.s.Config.Secret, c); ok {
				got = append(got, h.hold("code", c, client, user, uri, list, ""))
			}
		}
		return got
	}
	return nil
}

func (h *history) kill(why string, match func(*held) bool) {
	for _, c := range h.held {
		if c.dead == "" && match(c) {
			c.dead = why
		}
	}
}

func (h *history) redeem(c *held) (bool, []*held) {
	rec, ok := h.send("token", url.Values{"grant_type": {"authorization_code"}, "code": {c.text}, "redirect_uri": {c.uri}}, c.client)
	if !ok {
		return false, nil
	}
	return true, h.tokens(rec, c.client, c.user, c.scope, c.text)
}

func (h *history) refresh(c *held, scope []string) (bool, []*held) {
	v := url.Values{"grant_type": {"refresh_token"}, "refresh_token": {c.text}}
	if len(scope) > 0 {
		v.Set("scope", strings.Join(scope, " "))
	} else {
		scope = c.scope
	}
	rec, ok := h.send("token", v, c.client)
	if !ok {
		return false, nil
	}
	return true, h.tokens(rec, c.client, c.user, scope, c.from)
}

// open presents an access token to a protected resource.
func (h *history) open(text string, required []string) bool {
	s := &spec{method: "GET", path: "/api", header: map[string]string{"Authorization": "Bearer " + text}}
	rec, ok := newRecorder(), false
	p := call(func() { ok = h.s.Authorize(rec, s.build(), oauth2.Scope(required)) })
	h.note("Authorize(%q, %q) = %v; %v", text, required, ok, rec)
	return p == nil && ok
}

func (h *history) active(c *held) (status int, active bool) {
	v := url.Values{"token": {c.text}}
	if h.chance(2) {
		v.Set("token_type_hint", c.kind+"_token")
	}
	rec, _ := h.send("introspect", v, c.client)
	active, _ = rec.doc()["active"].(bool)
	return rec.status, active
}

// historyTrial: what has been invalidated stays so.
func historyTrial(t *run) {
	h := &history{world: t.newWorld()}
	for n := 4 + t.rnd.Intn(30); n > 0; n-- {
		switch t.rnd.Intn(9) {
		case 0, 1:
			h.issue()
		case 2, 3:
			c := h.some("code")
			if c == nil {
				h.issue()
				continue
			}
			used := c.dead != ""
			ok, _ := h.redeem(c)
			h.check("A17", !ok || !used, "a code is redeemed twice")
			if ok {
				c.dead = "redeemed before"
			} else if used {
				h.kill("its code was presented again", func(d *held) bool { return d.from == c.text && d.from != "" })
			}
		case 4, 5:
			c := h.some("refresh")
			if c == nil {
				h.issue()
				continue
			}
			ok, _ := h.refresh(c, nil)
			h.check("A17", !ok || c.dead == "", "a refresh token is accepted although it is invalid: %s", c.dead)
			if ok {
				c.dead = "exchanged before"
			}
		case 6:
			c := h.some(h.pick("access", "refresh"))
			if c == nil {
				continue
			}
			if _, ok := h.send("revoke", url.Values{"token": {c.text}, "token_type_hint": {c.kind + "_token"}}, c.client); ok {
				c.dead = "revoked before"
			}
		case 7:
			// the token texts are also presented in random requests
			for _, c := range h.held {
				if h.chance(3) {
					h.texts = append(h.texts, c.text)
				}
			}
			h.step()
		}
		for _, c := range h.held {
			if c.dead == "" || c.kind == "code" || !h.chance(3) {
				continue
			}
			if c.kind == "access" {
				h.check("A17", !h.open(c.text, nil), "an access token opens a resource although it is invalid: %s", c.dead)
			}
			if h.chance(4) {
				_, active := h.active(c)
				h.check("A17", !active, "a token is reported active although it is invalid: %s", c.dead)
			}
		}
	}
}

// honourTrial: what has just been handed out is honoured.
func honourTrial(t *run) {
	h := &history{world: t.newWorld()}
	for n := 4 + t.rnd.Intn(20); n > 0; n-- {
		if t.chance(4) {
			h.step()
			continue
		}
		got := h.issue()
		for round := 0; round < 4 && len(got) > 0; round++ {
			got = h.honoured(got)
		}
	}
}

func (h *history) honoured(got []*held) []*held {
	conf := h.s.Config
	c := got[h.rnd.Intn(len(got))]
	long := func(d time.Duration) bool { return d >= 30*time.Second }
	switch c.kind {
	case "code":
		if !long(conf.AuthorizationCodeLifespan) {
			return nil
		}
		ok, next := h.redeem(c)
		h.check("A18", ok, "a fresh code is not redeemed")
		return next
	case "refresh":
		if !long(conf.RefreshTokenLifespan) {
			return nil
		}
		ok, next := h.refresh(c, nil)
		h.check("A18", ok, "a fresh refresh token is not exchanged")
		return next
	}
	if !long(conf.AccessTokenLifespan) {
		return nil
	}
	if h.chance(3) {
		status, active := h.active(c)
		h.check("A18", status == 200 && active, "a fresh access token is not reported active")
		return got
	}
	var required []string
	for n := h.rnd.Intn(3); n > 0; n-- {
		required = append(required, h.pick("foo", "bar", "baz"))
	}
	ok := h.open(c.text, required)
	h.check("A18", ok == within(required, c.scope), "access with scope %q under token scope %q: %v", required, c.scope, ok)
	return got
}
