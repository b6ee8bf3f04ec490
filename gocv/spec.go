package main

// The contract language: lexer, parser and syntax trees.

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// Ex is a specification expression.
type Ex struct {
	Op   string // ident int str call sel idx un bin cond quant let bool nil in
	Name string
	Args []*Ex
	Vars []SVar
	Line int
	File string
}

// SVar is a quantified variable.
type SVar struct {
	Name string
	Sort Sort
}

// Clause is a labelled formula of a contract.
type Clause struct {
	Kind  string // requires ensures exsures
	Props []string
	Label string
	E     *Ex
	Case  string
}

// NewDecl says that a result denotes a freshly allocated object.
type NewDecl struct {
	E    *Ex
	Type string
}

// Case is one behaviour of a function.
type Case struct {
	Name     string
	When     *Ex // nil: otherwise
	Modifies []*Ex
	New      []NewDecl
	Ensures  []*Clause
	Panics   bool
	Calls    []CallDecl
}

// LetDecl names a value of the entry state.
type LetDecl struct {
	Name string
	E    *Ex
}

// Contract specifies a function.
type Contract struct {
	Name      string
	Params    []string
	Results   []string
	Requires  []*Clause
	Lets      []LetDecl
	Modifies  []*Ex
	Cases     []*Case
	Ensures   []*Clause
	Exsures   []*Clause
	PanicIf   *Ex
	PanicLab  []string
	Decreases *Ex // measure of a recursive function
	Safe      []string
	Frame     []string
	Guard     []GuardDecl
	Inline    bool // callers use the body
	Bounded   bool
	File      string
	Line      int
	Extern    bool     // lemma function kept in /verif
	Sig       string   // the type of a function that may be renamed
	Uses      []string // theorems
	UsesLab   []string
	Event     []EventField // callers log the call, with these values
	Assumed   bool                // stands for the environment; never proved
	Relies    map[string][]string // labels of the clauses used of other contracts
}

// GuardDecl requires a lock for accesses.
type GuardDecl struct {
	Props []string
	E     *Ex
	Types []string
}

// Macro is a defined term.
type Macro struct {
	Name   string
	Params []string
	Body   *Ex
}

// Spec is a set of contracts.
type Spec struct {
	Macros    map[string]*Macro
	Contracts []*Contract
}

type tok struct {
	kind string // id int str op eof
	text string
	line int
}

type lexer struct {
	file string
	toks []tok
	i    int
}

func lex(file, src string) []tok {
	var out []tok
	line := 1
	ops := []string{"==>", "<==>", "==", "!=", "<=", ">=", "&&", "||", "::", ":=", "+", "-", "*", "/", "<", ">", "!", "(", ")", "[", "]", "{", "}", ",", ".", ":", ";", "?", "=", "&"}
	i := 0
	for i < len(src) {
		c := src[i]
		switch {
		case c == '\n':
			line++
			i++
		case c == ' ' || c == '\t' || c == '\r':
			i++
		case c == '#' || strings.HasPrefix(src[i:], "//"):
			for i < len(src) && src[i] != '\n' {
				i++
			}
		case c == '"':
			j := i + 1
			var sb strings.Builder
			for src[j] != '"' {
				if src[j] == '\\' {
					j++
					switch src[j] {
					case 'n':
						sb.WriteByte('\n')
					case 't':
						sb.WriteByte('\t')
					default:
						sb.WriteByte(src[j])
					}
				} else {
					sb.WriteByte(src[j])
				}
				j++
			}
			out = append(out, tok{"str", sb.String(), line})
			i = j + 1
		case c >= '0' && c <= '9':
			j := i
			for j < len(src) && src[j] >= '0' && src[j] <= '9' {
				j++
			}
			out = append(out, tok{"int", src[i:j], line})
			i = j
		case c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_':
			j := i
			for j < len(src) && (src[j] >= 'a' && src[j] <= 'z' || src[j] >= 'A' && src[j] <= 'Z' || src[j] == '_' || src[j] >= '0' && src[j] <= '9') {
				j++
			}
			out = append(out, tok{"id", src[i:j], line})
			i = j
		default:
			found := false
			for _, o := range []string{"<==>"} {
				if strings.HasPrefix(src[i:], o) {
					out = append(out, tok{"op", o, line})
					i += len(o)
					found = true
				}
			}
			if found {
				continue
			}
			for _, o := range ops {
				if strings.HasPrefix(src[i:], o) {
					out = append(out, tok{"op", o, line})
					i += len(o)
					found = true
					break
				}
			}
			if !found {
				fatal("%s:%d: unexpected character %q", file, line, c)
			}
		}
	}
	return append(out, tok{"eof", "", line})
}

func fatal(f string, args ...interface{}) {
	fmt.Fprintf(os.Stderr, "gocv: "+f+"\n", args...)
	os.Exit(3)
}

func (l *lexer) peek() tok { return l.toks[l.i] }
func (l *lexer) next() tok {
	t := l.toks[l.i]
	l.i++
	return t
}
func (l *lexer) is(s string) bool { return l.peek().text == s && l.peek().kind != "str" }
func (l *lexer) accept(s string) bool {
	if l.is(s) {
		l.i++
		return true
	}
	return false
}
func (l *lexer) expect(s string) tok {
	if !l.is(s) {
		fatal("%s:%d: expected %q, found %q", l.file, l.peek().line, s, l.peek().text)
	}
	return l.next()
}
func (l *lexer) ident() string {
	t := l.next()
	if t.kind != "id" {
		fatal("%s:%d: expected identifier, found %q", l.file, t.line, t.text)
	}
	return t.text
}

// ParseSpecs reads all contract files of a directory.
func ParseSpecs(dir string) *Spec {
	s := &Spec{Macros: map[string]*Macro{}}
	files, _ := filepath.Glob(filepath.Join(dir, "*.gvc"))
	sort.Strings(files)
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			fatal("%v", err)
		}
		l := &lexer{file: filepath.Base(f), toks: lex(f, string(b))}
		for l.peek().kind != "eof" {
			switch {
			case l.accept("define"):
				m := &Macro{Name: l.ident()}
				m.Params = l.names()
				l.expect("=")
				m.Body = l.expr(0)
				l.expect(";")
				if s.Macros[m.Name] != nil {
					fatal("%s: macro %s redefined", l.file, m.Name)
				}
				s.Macros[m.Name] = m
			case l.is("func") || l.is("lemma") || l.is("assumed"):
				s.Contracts = append(s.Contracts, l.contract())
			default:
				fatal("%s:%d: unexpected %q", l.file, l.peek().line, l.peek().text)
			}
		}
	}
	return s
}

func (l *lexer) names() []string {
	var out []string
	l.expect("(")
	for !l.accept(")") {
		out = append(out, l.ident())
		if !l.is(")") {
			l.expect(",")
		}
	}
	return out
}

func (l *lexer) props() []string {
	var out []string
	if l.accept("[") {
		for !l.accept("]") {
			out = append(out, l.ident())
			l.accept(",")
		}
	}
	return out
}

func (l *lexer) clause(kind, cs string) *Clause {
	c := &Clause{Kind: kind, Case: cs}
	c.Props = l.props()
	if l.peek().kind == "str" && l.toks[l.i+1].text == ":" {
		c.Label = l.next().text
		l.next()
	}
	line := l.peek().line
	c.E = l.expr(0)
	l.expect(";")
	if c.Label == "" {
		c.Label = fmt.Sprintf("%s:%d", l.file, line)
	}
	return c
}

func (l *lexer) list() []*Ex {
	var out []*Ex
	for {
		out = append(out, l.expr(0))
		if !l.accept(",") {
			break
		}
	}
	l.expect(";")
	return out
}

func (l *lexer) contract() *Contract {
	t := l.next()
	c := &Contract{File: l.file, Line: t.line, Extern: t.text != "func", Assumed: t.text == "assumed", Relies: map[string][]string{}}
	c.Name = l.ident()
	for l.accept(".") {
		c.Name += "." + l.ident()
	}
	c.Params = l.names()
	if l.is("(") {
		c.Results = l.names()
	}
	l.expect("{")
	for !l.accept("}") {
		switch t := l.next(); t.text {
		case "requires":
			c.Requires = append(c.Requires, l.clause("requires", ""))
		case "ensures":
			c.Ensures = append(c.Ensures, l.clause("ensures", ""))
		case "exsures":
			c.Exsures = append(c.Exsures, l.clause("exsures", ""))
		case "let":
			n := l.ident()
			l.expect("=")
			c.Lets = append(c.Lets, LetDecl{n, l.expr(0)})
			l.expect(";")
		case "modifies":
			c.Modifies = append(c.Modifies, l.list()...)
		case "panics":
			c.PanicLab = l.props()
			c.PanicIf = l.expr(0)
			l.expect(";")
		case "safe":
			c.Safe = l.props()
			l.expect(";")
		case "frame":
			c.Frame = l.props()
			l.expect(";")
		case "signature":
			c.Sig = l.next().text
			l.expect(";")
		case "uses":
			c.UsesLab = l.props()
			for {
				c.Uses = append(c.Uses, l.ident())
				if !l.accept(",") {
					break
				}
			}
			l.expect(";")
		case "relies":
			labs := l.props()
			n := l.ident()
			for l.accept(".") {
				n += "." + l.ident()
			}
			c.Relies[n] = labs
			l.expect(";")
		case "decreases":
			c.Decreases = l.expr(0)
			l.expect(";")
		case "event":
			c.Event = []EventField{}
			for !l.is(";") {
				n := l.ident()
				l.expect("=")
				c.Event = append(c.Event, EventField{n, l.expr(0)})
				if !l.accept(",") {
					break
				}
			}
			l.expect(";")
		case "inline":
			c.Inline = true
			l.expect(";")
		case "guard":
			g := GuardDecl{Props: l.props(), E: l.expr(0)}
			l.expect(":")
			for {
				g.Types = append(g.Types, l.ident())
				if !l.accept(",") {
					break
				}
			}
			l.expect(";")
			c.Guard = append(c.Guard, g)
		case "case":
			cs := &Case{Name: l.ident()}
			if l.accept("when") {
				cs.When = l.expr(0)
			}
			l.expect("{")
			for !l.accept("}") {
				switch t := l.next(); t.text {
				case "ensures":
					cs.Ensures = append(cs.Ensures, l.clause("ensures", cs.Name))
				case "modifies":
					cs.Modifies = append(cs.Modifies, l.list()...)
				case "new":
					e := l.expr(0)
					l.expect(":")
					cs.New = append(cs.New, NewDecl{e, l.ident()})
					l.expect(";")
				case "calls":
					d := CallDecl{Fn: l.expr(0)}
					l.expect(":")
					d.Args = l.list()
					cs.Calls = append(cs.Calls, d)
				case "panics":
					cs.Panics = true
					l.expect(";")
				default:
					fatal("%s:%d: unexpected %q in case", l.file, t.line, t.text)
				}
			}
			c.Cases = append(c.Cases, cs)
		default:
			fatal("%s:%d: unexpected %q in contract", l.file, t.line, t.text)
		}
	}
	return c
}

var binPrec = map[string]int{
	"<==>": 1, "==>": 2, "||": 3, "&&": 4,
	"==": 5, "!=": 5, "<": 5, "<=": 5, ">": 5, ">=": 5, "in": 5,
	"+": 6, "-": 6, "*": 7, "/": 7,
}

func (l *lexer) mk(op, name string, line int, args ...*Ex) *Ex {
	return &Ex{Op: op, Name: name, Args: args, Line: line, File: l.file}
}

func (l *lexer) expr(min int) *Ex {
	if l.is("forall") || l.is("exists") {
		t := l.next()
		e := l.mk("quant", t.text, t.line)
		for {
			n := l.ident()
			l.expect(":")
			e.Vars = append(e.Vars, SVar{n, sortByName(l.ident(), l)})
			if !l.accept(",") {
				break
			}
		}
		l.expect("::")
		e.Args = []*Ex{l.expr(0)}
		return e
	}
	if l.is("let") {
		t := l.next()
		n := l.ident()
		l.expect(":=")
		v := l.expr(0)
		l.expect(";")
		return l.mk("let", n, t.line, v, l.expr(0))
	}
	left := l.unary()
	for {
		t := l.peek()
		if t.kind == "str" {
			break
		}
		if t.text == "?" && min == 0 {
			l.next()
			a := l.expr(0)
			l.expect(":")
			b := l.expr(0)
			left = l.mk("cond", "", t.line, left, a, b)
			continue
		}
		p, ok := binPrec[t.text]
		if !ok || p < min || t.kind == "int" {
			break
		}
		if min == 0 && p == 0 {
			break
		}
		l.next()
		np := p + 1
		if t.text == "==>" {
			np = p
		}
		right := l.expr(np)
		left = l.mk("bin", t.text, t.line, left, right)
	}
	return left
}

func sortByName(n string, l *lexer) Sort {
	switch n {
	case "string":
		return SStr
	case "int", "ref":
		return SInt
	case "bool":
		return SBool
	case "list":
		return SSL
	}
	fatal("%s:%d: unknown sort %s", l.file, l.peek().line, n)
	return ""
}

func (l *lexer) unary() *Ex {
	t := l.peek()
	if t.kind == "op" && (t.text == "!" || t.text == "-") {
		l.next()
		return l.mk("un", t.text, t.line, l.unary())
	}
	return l.postfix(l.primary())
}

func (l *lexer) postfix(e *Ex) *Ex {
	for {
		t := l.peek()
		if t.kind != "op" {
			return e
		}
		switch t.text {
		case ".":
			l.next()
			e = l.mk("sel", l.ident(), t.line, e)
		case "[":
			l.next()
			i := l.expr(0)
			l.expect("]")
			e = l.mk("idx", "", t.line, e, i)
		default:
			return e
		}
	}
}

func (l *lexer) primary() *Ex {
	t := l.next()
	switch t.kind {
	case "int":
		return l.mk("int", t.text, t.line)
	case "str":
		return l.mk("str", t.text, t.line)
	case "id":
		switch t.text {
		case "true", "false":
			return l.mk("bool", t.text, t.line)
		case "nil":
			return l.mk("nil", "", t.line)
		}
		if l.accept("(") {
			e := l.mk("call", t.text, t.line)
			for !l.accept(")") {
				e.Args = append(e.Args, l.expr(0))
				if !l.is(")") {
					l.expect(",")
				}
			}
			return e
		}
		return l.mk("ident", t.text, t.line)
	case "op":
		if t.text == "(" {
			e := l.expr(0)
			l.expect(")")
			return e
		}
	}
	fatal("%s:%d: unexpected %q", l.file, t.line, t.text)
	return nil
}
