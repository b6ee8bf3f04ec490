// Command conform tests the library facts that the verifier assumes (models and
// axioms in gocv/) on random inputs against the real library. It is bounded and
// never counted as proof.
package main

import (
	"bytes"
	"crypto/hmac"
	"crypto/sha256"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"
)

var rng *rand.Rand

const alphabet = "abcBEARERbearer .:/?#&=%+-_,;\"'\\\t\n\r\x00\x7f\x80\xc3\xa9\xe2\x84\xaa\xff019"

func text() string {
	n := rng.Intn(8)
	if rng.Intn(10) == 0 {
		n = rng.Intn(40)
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = alphabet[rng.Intn(len(alphabet))]
		if rng.Intn(20) == 0 {
			b[i] = byte(rng.Intn(256))
		}
	}
	return string(b)
}

func token() string { return fmt.Sprintf("k%x", rng.Intn(1000)) }

func values() url.Values {
	v := url.Values{}
	for i := rng.Intn(4); i > 0; i-- {
		v.Add(text(), text())
	}
	return v
}

type check struct {
	name string
	f    func() bool
}

func cutFacts(s, sep string) bool {
	i := strings.Index(s, sep)
	before, after, found := strings.Cut(s, sep)
	l := strings.Split(s, sep)
	if found != strings.Contains(s, sep) || found != (i >= 0) {
		return false
	}
	if !found {
		return len(l) == 1 && l[0] == s && before == s && after == ""
	}
	if before != s[:i] || after != s[i+len(sep):] || s != before+sep+after || strings.Contains(before, sep) {
		return false
	}
	if strings.Contains(after, sep) {
		return len(l) >= 3
	}
	return len(l) == 2 && l[0] == before && l[1] == after
}

func checks() []check {
	return []check{
		{"trim is idempotent and adds no spaces", func() bool {
			x := text()
			t := strings.TrimSpace(x)
			return strings.TrimSpace(t) == t && (!strings.Contains(t, " ") || strings.Contains(x, " "))
		}},
		{"query escaping is inverted", func() bool {
			x := text()
			y, err := url.QueryUnescape(url.QueryEscape(x))
			return err == nil && y == x && (url.QueryEscape(x) == "") == (x == "")
		}},
		{"form encoding is inverted", func() bool {
			v := values()
			w, err := url.ParseQuery(v.Encode())
			return err == nil && reflect.DeepEqual(v, w)
		}},
		{"encoded bodies parse as post forms", func() bool {
			v := values()
			r, _ := http.NewRequest("POST", "http://host/path", strings.NewReader(v.Encode()))
			r.Header.Set("Content-Type", "application/x-www-form-urlencoded")
			return r.ParseForm() == nil && reflect.DeepEqual(v, r.PostForm) && reflect.DeepEqual(v, r.Form)
		}},
		{"post form and query are merged", func() bool {
			v, q := values(), values()
			r, _ := http.NewRequest("POST", "http://host/path?"+q.Encode(), strings.NewReader(v.Encode()))
			r.Header.Set("Content-Type", "application/x-www-form-urlencoded")
			err := r.ParseForm()
			for k := range r.Form {
				if strings.Join(r.Form[k], "\x01") != strings.Join(append(append([]string{}, v[k]...), q[k]...), "\x01") {
					return false
				}
			}
			return err == nil && reflect.DeepEqual(v, r.PostForm)
		}},
		{"base64 is inverted and free of dots", func() bool {
			x := text()
			for _, e := range []*base64.Encoding{base64.StdEncoding, base64.URLEncoding, base64.RawStdEncoding, base64.RawURLEncoding} {
				s := e.EncodeToString([]byte(x))
				y, err := e.DecodeString(s)
				if err != nil || string(y) != x || strings.Contains(s, ".") {
					return false
				}
			}
			return true
		}},
		{"basic credentials are inverted", func() bool {
			u, p := text(), text()
			r := &http.Request{Header: http.Header{}}
			if _, _, ok := r.BasicAuth(); ok {
				return false
			}
			r.SetBasicAuth(u, p)
			if r.Header.Get("Authorization") != "Basic "+base64.StdEncoding.EncodeToString([]byte(u+":"+p)) {
				return false
			}
			a, b, ok := r.BasicAuth()
			return strings.Contains(u, ":") || ok && a == u && b == p
		}},
		{"splits have no separators and undo joins", func() bool {
			for _, p := range strings.Split(text(), " ") {
				if strings.Contains(p, " ") {
					return false
				}
			}
			var l []string
			for i := rng.Intn(4) + 1; i > 0; i-- {
				l = append(l, strings.ReplaceAll(text(), " ", ""))
			}
			return reflect.DeepEqual(strings.Split(strings.Join(l, " "), " "), l) && reflect.DeepEqual(strings.Split("", " "), []string{""})
		}},
		{"cuts, indexes, counts and splits agree", func() bool {
			s := text()
			sep := string(alphabet[rng.Intn(8)])
			i, j := strings.LastIndex(s, sep), strings.LastIndexByte(s, sep[0])
			l := strings.Split(s, sep)
			return cutFacts(s, sep) && strings.Count(s, sep) == len(l)-1 && i == j && (i < 0 && len(l) == 1 || i >= 0 && s[i+1:] == l[len(l)-1])
		}},
		{"folding and lowering agree for bearer", func() bool {
			s := text()
			if rng.Intn(2) == 0 {
				b := []byte("bearer")
				for i := range b {
					if rng.Intn(2) == 0 {
						b[i] -= 32
					}
				}
				s = string(b)
			}
			return strings.EqualFold(s, "bearer") == (strings.ToLower(s) == "bearer")
		}},
		{"header names are canonical", func() bool {
			h := http.Header{}
			k, l, v := text(), token(), text()
			h.Set(k, v)
			h.Add(k, l)
			c := http.CanonicalHeaderKey(k)
			ok := http.CanonicalHeaderKey(c) == c && h.Get(k) == v && reflect.DeepEqual(h[c], []string{v, l})
			h.Del(k)
			return ok && len(h) == 0
		}},
		{"encoders append a newline", func() bool {
			m := map[string]string{text(): text()}
			var b bytes.Buffer
			err := json.NewEncoder(&b).Encode(m)
			d, err2 := json.Marshal(m)
			return err == nil && err2 == nil && b.String() == string(d)+"\n"
		}},
		{"optional fields are omitted when empty", func() bool {
			type doc struct {
				A string `json:"a"`
				B string `json:"b,omitempty"`
				C int    `json:"c"`
				D int64  `json:"d,omitempty"`
				E bool   `json:"e"`
				F string `json:"-"`
			}
			d := doc{A: token(), C: rng.Intn(3), D: int64(rng.Intn(2)), E: rng.Intn(2) == 0, F: "x"}
			if rng.Intn(2) == 0 {
				d.B = token()
			}
			buf, err := json.Marshal(d)
			var m map[string]interface{}
			if err != nil || json.Unmarshal(buf, &m) != nil {
				return false
			}
			_, b := m["b"]
			_, e := m["d"]
			var back doc
			if json.Unmarshal(buf, &back) != nil {
				return false
			}
			d.F = ""
			return m["a"] == d.A && b == (d.B != "") && m["c"] == float64(d.C) && e == (d.D != 0) && m["e"] == d.E && back == d
		}},
		{"json texts are inverted", func() bool {
			x := strings.ToValidUTF8(text(), "")
			b, err := json.Marshal(x)
			var y string
			return err == nil && json.Unmarshal(b, &y) == nil && x == y
		}},
		{"limited readers truncate", func() bool {
			x := text()
			n := rng.Intn(10)
			b, err := io.ReadAll(io.LimitReader(strings.NewReader(x), int64(n)))
			if n > len(x) {
				n = len(x)
			}
			return err == nil && string(b) == x[:n]
		}},
		{"sorting depends on the elements only", func() bool {
			l := []string{text(), text(), text(), text()}
			m := append([]string{}, l...)
			rng.Shuffle(len(m), func(i, j int) { m[i], m[j] = m[j], m[i] })
			sort.Strings(l)
			sort.Strings(m)
			return reflect.DeepEqual(l, m)
		}},
		{"decimal texts agree", func() bool {
			n := rng.Int63() - rng.Int63()
			s := strconv.FormatInt(n, 10)
			return s == strconv.Itoa(int(n)) && s == fmt.Sprint(n) && s == fmt.Sprintf("%d", n)
		}},
		{"formatting concatenates", func() bool {
			a, b := text(), text()
			return fmt.Sprintf("%s: %s", a, b) == a+": "+b && fmt.Sprintf(`%s="%s"`, a, b) == a+`="`+b+`"` &&
				fmt.Sprintf("%v%q", a, b) == a+strconv.Quote(b)
		}},
		{"macs depend on the written text only", func() bool {
			k, a, b := text(), text(), text()
			g, h := hmac.New(sha256.New, []byte(k)), hmac.New(sha256.New, []byte(k))
			_, _ = g.Write([]byte(a))
			_, _ = g.Write([]byte(b))
			_, _ = h.Write([]byte(a + b))
			x, y := g.Sum(nil), h.Sum(nil)
			return bytes.Equal(x, y) && hmac.Equal(x, y) && len(x) == 32 && bytes.Equal(g.Sum(nil), x)
		}},
		{"times count nanoseconds", func() bool {
			t := time.Unix(rng.Int63n(1<<32), rng.Int63n(1e9))
			d, e := time.Duration(rng.Int63n(1e15)-5e14), time.Duration(rng.Int63n(1e15)-5e14)
			u := t.Add(d)
			return u.Sub(t) == d && u.Before(t) == (d < 0) && u.After(t) == (d > 0) && u.Add(e).Equal(t.Add(d+e)) &&
				u.UnixNano() == t.UnixNano()+int64(d) && u.Unix() == floor(u.UnixNano(), 1e9) && d/time.Second == time.Duration(int64(d)/1e9)
		}},
		{"not found is a plain 404", func() bool {
			rec := httptest.NewRecorder()
			http.NotFound(rec, httptest.NewRequest("GET", "/", nil))
			return rec.Code == 404 && rec.Body.String() == "404 page not found\n"
		}},
		{"recorders keep the headers at the status line", func() bool {
			rec := httptest.NewRecorder()
			rec.Header().Set("A", "1")
			rec.WriteHeader(201)
			rec.Header().Set("A", "2")
			rec.WriteHeader(202)
			_, _ = rec.Write([]byte("x"))
			res := rec.Result()
			return res.StatusCode == 201 && res.Header.Get("A") == "1" && rec.Body.String() == "x"
		}},
		{"request URIs and queries", func() bool {
			v := values()
			u, err := url.ParseRequestURI("http://host/path?" + v.Encode())
			if err != nil || !reflect.DeepEqual(u.Query(), v) {
				return false
			}
			q := u.Query()
			q.Add("k", "v")
			u.RawQuery = q.Encode()
			w, err := url.ParseRequestURI(u.String())
			return err == nil && reflect.DeepEqual(w.Query(), q)
		}},
	}
}

func floor(a, b int64) int64 {
	q := a / b
	if a%b < 0 {
		q--
	}
	return q
}

func main() {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	n := 20000
	bad := 0
	for _, c := range checks() {
		rng = rand.New(rand.NewSource(seed))
		fails := 0
		for i := 0; i < n; i++ {
			if !c.f() {
				fails++
			}
		}
		if fails > 0 {
			fmt.Printf("library fact fails: %s (%d of %d)\n", c.name, fails, n)
			bad++
		}
	}
	fmt.Printf("library facts: %d tested with %d random inputs each, %d fail\n", len(checks()), n, bad)
	if bad > 0 {
		os.Exit(1)
	}
}
