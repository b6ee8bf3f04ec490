package verifreplay

import (
	"bytes"
	"crypto/hmac"
	"crypto/sha256"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"io/ioutil"
	"mime"
	"net/http"
	"net/url"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"github.com/256dpi/oauth2/v2"
	"github.com/256dpi/oauth2/v2/verifreplay/arand"
)

// ---------- independent descriptions ----------

func mac(secret, key []byte) []byte {
	h := hmac.New(sha256.New, secret)
	h.Write(key)
	return h.Sum(nil)
}

var enc = base64.RawURLEncoding

// parts decodes an authentic token text.
func parts(secret []byte, str string) (key, sig []byte, ok bool) {
	i := strings.IndexByte(str, '.')
	if i < 0 || strings.Contains(str[i+1:], ".") {
		return nil, nil, false
	}
	key, err := enc.DecodeString(str[:i])
	if err != nil {
		return nil, nil, false
	}
	sig, err = enc.DecodeString(str[i+1:])
	if err != nil {
		return nil, nil, false
	}
	return key, sig, bytes.Equal(mac(secret, key), sig)
}

func sigText(secret []byte, str string) (string, bool) {
	_, sig, ok := parts(secret, str)
	return enc.EncodeToString(sig), ok
}

func tokenText(secret, key []byte) string {
	return enc.EncodeToString(key) + "." + enc.EncodeToString(mac(secret, key))
}

// pieces returns the scope elements of a string.
func pieces(str string) []string {
	var out []string
	for _, p := range strings.Split(str, " ") {
		if p = strings.TrimSpace(p); p != "" {
			out = append(out, p)
		}
	}
	return out
}

func sameList(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func within(elems, all []string) bool {
	for _, e := range elems {
		found := false
		for _, a := range all {
			found = found || a == e
		}
		if !found {
			return false
		}
	}
	return true
}

func goodURI(s string) bool {
	_, err := url.ParseRequestURI(s)
	return err == nil && !strings.Contains(s, "#")
}

// ---------- response recorder ----------

type recorder struct {
	header http.Header
	calls  int
	status int
	sent   http.Header
	body   bytes.Buffer
	hook   func()
	broken bool // writing the body fails
}

func newRecorder() *recorder { return &recorder{header: http.Header{}} }

func (r *recorder) Header() http.Header { return r.header }
func (r *recorder) WriteHeader(s int) {
	if r.hook != nil {
		r.hook()
	}
	if s < 100 || s > 999 {
		panic(fmt.Sprintf("invalid WriteHeader code %v", s))
	}
	r.calls++
	if r.calls == 1 {
		r.status = s
		r.sent = r.header.Clone()
	}
}
func (r *recorder) Write(b []byte) (int, error) {
	if r.calls == 0 {
		r.WriteHeader(200)
	}
	if r.broken {
		return 0, errors.New("connection lost")
	}
	return r.body.Write(b)
}
func (r *recorder) started() bool { return r.calls > 0 }
func (r *recorder) String() string {
	return fmt.Sprintf("%d response(s), status %d, header %v, body %q", r.calls, r.status, r.sent, r.body.String())
}

// doc decodes a body that must be exactly one JSON object.
func (r *recorder) doc() map[string]interface{} {
	d := json.NewDecoder(bytes.NewReader(r.body.Bytes()))
	d.UseNumber()
	var m map[string]interface{}
	if d.Decode(&m) != nil {
		return nil
	}
	if _, err := d.Token(); err != io.EOF {
		return nil
	}
	return m
}

func (r *recorder) isJSON() bool {
	return sameHeader(r.sent, "Content-Type", "application/json;charset=UTF-8") &&
		sameHeader(r.sent, "Cache-Control", "no-store") && sameHeader(r.sent, "Pragma", "no-cache")
}

func sameHeader(h http.Header, name, value string) bool {
	return len(h[name]) == 1 && h[name][0] == value
}

func (r *recorder) isRedirect() bool { return r.status == 303 || len(r.sent["Location"]) > 0 }

func num(n int64) json.Number { return json.Number(strconv.FormatInt(n, 10)) }

// validUTF8 as JSON would write it.
func js(s string) string {
	b, _ := json.Marshal(s)
	var out string
	_ = json.Unmarshal(b, &out)
	return out
}

func sameDoc(got, want map[string]interface{}) bool {
	return got != nil && reflect.DeepEqual(got, want)
}

// redirectsTo checks a complete redirect response.
func (r *recorder) redirectsTo(uri string, params map[string]string, fragment bool) string {
	if r.calls != 1 || r.status != 303 {
		return "not exactly one 303 response"
	}
	if !sameHeader(r.sent, "Cache-Control", "no-store") || !sameHeader(r.sent, "Pragma", "no-cache") || !sameHeader(r.sent, "Referrer-Policy", "origin") {
		return "redirect headers are missing"
	}
	if r.body.Len() != 0 {
		return "the body is not empty"
	}
	if len(r.sent["Location"]) != 1 {
		return "not exactly one location"
	}
	loc := r.sent["Location"][0]
	u, err := url.ParseRequestURI(uri)
	if err != nil {
		return "redirected to an invalid URI"
	}
	want := url.Values{}
	if fragment {
		base, frag := loc, ""
		if i := strings.IndexByte(loc, '#'); i >= 0 {
			base, frag = loc[:i], loc[i+1:]
		}
		if base != u.String() {
			return fmt.Sprintf("target %q is not %q", base, u.String())
		}
		got, err := url.ParseQuery(frag)
		if err != nil {
			return "malformed fragment"
		}
		for k, v := range params {
			want.Set(k, v)
		}
		if !reflect.DeepEqual(got, want) {
			return fmt.Sprintf("fragment parameters are %v, not %v", got, want)
		}
		return ""
	}
	if strings.Contains(loc, "#") {
		return "unexpected fragment"
	}
	a, err := url.ParseRequestURI(loc)
	if err != nil {
		return "the location does not parse"
	}
	got, err := url.ParseQuery(a.RawQuery)
	if err != nil {
		return "malformed query"
	}
	want = u.Query()
	for k, v := range params {
		want.Add(k, v)
	}
	if !reflect.DeepEqual(got, want) {
		return fmt.Sprintf("query parameters are %v, not %v", got, want)
	}
	b, c := *a, *u
	b.RawQuery, c.RawQuery, b.ForceQuery, c.ForceQuery = "", "", false, false
	if b.String() != c.String() {
		return fmt.Sprintf("target %q is not %q", b.String(), c.String())
	}
	return ""
}

// ---------- random requests ----------

type spec struct {
	method, path, query, body, ctype string
	header                           map[string]string
	broken                           bool // the body cannot be read
	preset                           url.Values
}

type brokenBody struct{}

func (brokenBody) Read([]byte) (int, error) { return 0, errors.New("broken body") }

func (s *spec) String() string {
	return fmt.Sprintf("%s %s?%s type=%q header=%v body=%q broken=%v form=%v", s.method, s.path, s.query, s.ctype, s.header, s.body, s.broken, s.preset)
}

func (s *spec) build() *http.Request {
	r := &http.Request{Method: s.method, URL: &url.URL{Path: s.path, RawQuery: s.query}, Header: http.Header{}, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Host: "example.com"}
	if s.broken {
		r.Body = ioutil.NopCloser(brokenBody{})
	} else {
		r.Body = ioutil.NopCloser(strings.NewReader(s.body))
		r.ContentLength = int64(len(s.body))
	}
	if s.ctype != "" {
		r.Header.Set("Content-Type", s.ctype)
	}
	for k, v := range s.header {
		r.Header.Set(k, v)
	}
	if s.preset != nil {
		r.PostForm = url.Values{}
		for k, v := range s.preset {
			r.PostForm[k] = append([]string(nil), v...)
		}
	}
	return r
}

// parsed is what the request carries, decoded independently.
type parsed struct {
	ok         bool // the form parses
	form, post url.Values
	basic      bool
	user, pass string
}

func (s *spec) parse() parsed {
	r := s.build()
	p := parsed{ok: r.ParseForm() == nil, form: r.Form, post: r.PostForm}
	h := s.header["Authorization"]
	if len(h) >= 6 && strings.EqualFold(h[:6], "basic ") {
		if b, err := base64.StdEncoding.DecodeString(h[6:]); err == nil {
			if i := bytes.IndexByte(b, ':'); i >= 0 {
				p.basic, p.user, p.pass = true, string(b[:i]), string(b[i+1:])
			}
		}
	}
	return p
}

func first(v url.Values, k string) string {
	if len(v[k]) > 0 {
		return v[k][0]
	}
	return ""
}

func basic(u, p string) string {
	return "Basic " + base64.StdEncoding.EncodeToString([]byte(u+":"+p))
}

const formType = "application/x-www-form-urlencoded"

// request makes a random request carrying the given parameters.
func (t *run) request(method, path string, vals url.Values, auth string) *spec {
	s := &spec{method: method, path: path, header: map[string]string{}, ctype: formType}
	if auth != "" {
		s.header["Authorization"] = auth
	}
	if method == "POST" {
		s.body = vals.Encode()
	} else {
		s.query = vals.Encode()
	}
	if t.chance(12) {
		s.ctype = t.pick("", formType+"; charset=utf-8", "application/json", "text/plain", "a/b/c;", "APPLICATION/X-WWW-FORM-URLENCODED", "application/x-www-form-urlencoded; charset")
	}
	if t.chance(10) {
		s.query = t.pick(s.query, s.body, "a=%zz", "a;b", "client_id=c1&client_secret=s1", vals.Encode()+"&x=%")
	}
	if t.chance(12) {
		s.body += t.pick("&a=%zz", "&x=y", "&;", "&client_id=c2", "&token=&token=x", "&scope=foo", "&state=zzz", "&client_secret=s1&client_secret=s2")
	}
	if t.chance(30) {
		s.broken = true
	}
	if t.chance(25) {
		s.method = t.pick("GET", "POST", "PUT", "HEAD", "DELETE", "PATCH", "post", "OPTIONS", "")
	}
	if t.chance(25) {
		s.preset = vals
		s.body = ""
	}
	if t.chance(25) && s.method == "POST" {
		// move some parameters to the query
		b, q := url.Values{}, url.Values{}
		for k, v := range vals {
			if t.chance(3) {
				q[k] = v
			} else {
				b[k] = v
			}
		}
		s.body, s.query = b.Encode(), q.Encode()
	}
	return s
}

func (t *run) uri() string {
	return t.pick("http://example.com/cb", "http://example.com/cb?x=1", "http://example.com/cb?x=1&y=a%20b&x=2", "https://u@host:8080/a%2Fb/c", "/relative", "app:opaque", "http://example.com",
		"http://example.com/cb#frag", "http://example.com/%zz", "nope", "", "http://exa mple.com", "//host/x", "http://[::1]/", "*", "http://example.com/a b", "http://example.com/?", "http://example.com/cb?code=1&state=x", "com.example.app:/cb")
}

var _ = mime.ParseMediaType
var _ = sort.Strings
var _ = oauth2.ParseScope
var _ = arand.Works
