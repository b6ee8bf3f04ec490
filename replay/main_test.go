// Package verifreplay exercises the exported behaviour of the package under
// test with random inputs and compares it with an independent description of
// the properties. It only runs once a proof has failed (to find an input on
// which the running code breaks the property) and in the thorough tier.
package verifreplay

import (
	"fmt"
	"io/ioutil"
	"math/rand"
	"os"
	"runtime/debug"
	"strconv"
	"strings"
	"testing"
	"time"
)

// run is one random trial.
type run struct {
	prop  string
	rnd   *rand.Rand
	trace []string
	found string
}

type stop struct{}

// note records a step of the trial.
func (t *run) note(format string, args ...interface{}) {
	t.trace = append(t.trace, fmt.Sprintf(format, args...))
}

// check ends the trial when the property under replay is broken.
func (t *run) check(props string, ok bool, format string, args ...interface{}) {
	if ok {
		return
	}
	for _, p := range strings.Fields(props) {
		if p == t.prop {
			t.found = fmt.Sprintf(format, args...)
			panic(stop{})
		}
	}
}

// call runs a function of the package under test; a panic is returned.
func call(f func()) (p interface{}) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(stop); ok {
				panic(r)
			}
			p = fmt.Sprintf("%v\n%s", r, firstLines(string(debug.Stack()), 24))
		}
	}()
	f()
	return nil
}

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

func (t *run) pick(list ...string) string { return list[t.rnd.Intn(len(list))] }
func (t *run) chance(n int) bool          { return t.rnd.Intn(n) == 0 }

func (t *run) bytes(n int) []byte {
	b := make([]byte, n)
	t.rnd.Read(b)
	return b
}

// text returns a random string that is likely to be awkward.
func (t *run) text() string {
	switch t.rnd.Intn(12) {
	case 0:
		return ""
	case 1:
		return t.pick("foo", "bar", "foo bar", " ", "a", "client", "secret", "xyz")
	case 2:
		return t.pick("a b", " a", "a ", "a  b", "\ta", "a\nb", "a\tb", "é", "\u00a0a", "\u2003b c")
	case 3:
		return t.pick("a+b", "a%20b", "%zz", "a&b=c", "a=b", "#a", "a#b", "?a", "a;b", "a:b", ":", "a,b", `a"b`, `a\b`, "<a>&")
	case 4:
		return string(t.bytes(t.rnd.Intn(6)))
	}
	const letters = "abcdefghijklmnopqrstuvwxyzABCXYZ0123456789-_.~+%&=:/ #\"\\"
	n := t.rnd.Intn(10)
	b := make([]byte, n)
	for i := range b {
		b[i] = letters[t.rnd.Intn(len(letters))]
	}
	return string(b)
}

// plain returns a non-empty string without special characters.
func (t *run) plain() string {
	const letters = "abcdefghijklmnopqrstuvwxyz0123456789"
	b := make([]byte, 1+t.rnd.Intn(8))
	for i := range b {
		b[i] = letters[t.rnd.Intn(len(letters))]
	}
	return string(b)
}

func (t *run) maybe() string {
	if t.chance(3) {
		return ""
	}
	return t.text()
}

var trials = map[string]func(*run){}

func TestVerifReplay(t *testing.T) {
	prop := os.Getenv("VERIF_PROP")
	trial := trials[prop]
	if trial == nil {
		t.Skip("no trial for this property")
	}
	seconds, _ := strconv.Atoi(os.Getenv("VERIF_SECONDS"))
	if seconds <= 0 {
		seconds = 5
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	deadline := time.Now().Add(time.Duration(seconds) * time.Second)
	n := int64(0)
	for ; time.Now().Before(deadline); n++ {
		r := &run{prop: prop, rnd: rand.New(rand.NewSource(seed<<32 + n))}
		func() {
			defer func() {
				if p := recover(); p != nil {
					if _, ok := p.(stop); ok {
						return
					}
					panic(p)
				}
			}()
			trial(r)
		}()
		if r.found != "" {
			text := fmt.Sprintf("property %s is broken by the running code\n(seed %d, trial %d)\n\n", prop, seed, n)
			for _, l := range r.trace {
				text += l + "\n"
			}
			text += "\nFAILED: " + r.found + "\n"
			if f := os.Getenv("VERIF_OUT"); f != "" {
				_ = ioutil.WriteFile(f, []byte(text), 0644)
			}
			fmt.Println(text)
			t.FailNow()
		}
	}
	fmt.Printf("VERIF-TRIALS %d\n", n)
}
