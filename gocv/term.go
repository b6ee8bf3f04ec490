package main

// Hash-consed SMT terms with light simplification.

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

// Sort is an SMT sort, written as SMT-LIB text.
type Sort string

// The basic sorts.
const (
	SBool Sort = "Bool"
	SInt  Sort = "Int"
	SStr  Sort = "Str" // printed as String in theory mode
	SSL   Sort = "SL"  // list of strings (snoc list)
	SJV   Sort = "JV"  // optional scalar value
	SBody Sort = "Body"
	SReal Sort = "Real"
)

// ArrS returns the array sort from a to b.
func ArrS(a, b Sort) Sort { return "(Array " + a + " " + b + ")" }

// arrParts splits an array sort.
func arrParts(s Sort) (Sort, Sort, bool) {
	str := string(s)
	if !strings.HasPrefix(str, "(Array ") {
		return "", "", false
	}
	str = str[len("(Array ") : len(str)-1]
	depth := 0
	for i := 0; i < len(str); i++ {
		switch str[i] {
		case '(':
			depth++
		case ')':
			depth--
		case ' ':
			if depth == 0 {
				return Sort(str[:i]), Sort(str[i+1:]), true
			}
		}
	}
	return "", "", false
}

// Op names used for built-in operators equal their SMT-LIB names. Special ops:
// "const" (declared constant), "int" (integer literal), "str" (string literal),
// "var" (bound variable), "forall", "exists", "app:<name>" (declared function),
// "as-const" (constant array), "true", "false".

// Term is a hash-consed term.
type Term struct {
	id   int
	Op   string
	Args []*Term
	Sort Sort
	Name string   // const, var, app name, string literal
	Int  *big.Int // int literal
	Vars []*Term  // quantifier variables
	Pats [][]*Term
	fv   bool // contains free bound variables
}

var (
	termTab  = map[string]*Term{}
	termList []*Term
	freshCtr int
)

func mk(op string, sort Sort, name string, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('|')
	sb.WriteString(string(sort))
	sb.WriteByte('|')
	sb.WriteString(name)
	fv := op == "var"
	for _, a := range args {
		if a == nil {
			panic("nil term argument to " + op)
		}
		sb.WriteByte('|')
		sb.WriteString(strconv.Itoa(a.id))
		fv = fv || a.fv
	}
	key := sb.String()
	if t, ok := termTab[key]; ok {
		return t
	}
	t := &Term{id: len(termList), Op: op, Args: args, Sort: sort, Name: name, fv: fv}
	termTab[key] = t
	termList = append(termList, t)
	return t
}

// Const returns a named constant.
func Const(name string, s Sort) *Term { return mk("const", s, name) }

// Fresh returns a fresh constant.
func Fresh(hint string, s Sort) *Term {
	freshCtr++
	return Const(fmt.Sprintf("%s!%d", sanitize(hint), freshCtr), s)
}

func sanitize(s string) string {
	var sb strings.Builder
	for _, r := range s {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || strings.ContainsRune("_.!$-", r) {
			sb.WriteRune(r)
		} else {
			sb.WriteByte('_')
		}
	}
	return sb.String()
}

// BVar returns a bound variable.
func BVar(name string, s Sort) *Term {
	freshCtr++
	return mk("var", s, fmt.Sprintf("%s?%d", sanitize(name), freshCtr))
}

var tTrue = mk("true", SBool, "")
var tFalse = mk("false", SBool, "")

// BoolT returns a boolean literal.
func BoolT(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

// IntT returns an integer literal.
func IntT(n int64) *Term { return BigT(big.NewInt(n)) }

// BigT returns an integer literal.
func BigT(n *big.Int) *Term {
	t := mk("int", SInt, n.String())
	t.Int = n
	return t
}

// StrT returns a string literal.
func StrT(s string) *Term { return mk("str", SStr, s) }

func isLit(t *Term) bool {
	return t.Op == "int" || t.Op == "str" || t.Op == "true" || t.Op == "false"
}

// Not negates.
func Not(a *Term) *Term {
	switch a.Op {
	case "true":
		return tFalse
	case "false":
		return tTrue
	case "not":
		return a.Args[0]
	}
	return mk("not", SBool, "", a)
}

// And conjoins.
func And(as ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	for _, a := range as {
		if a.Op == "false" {
			return tFalse
		}
		if a.Op == "true" {
			continue
		}
		sub := []*Term{a}
		if a.Op == "and" {
			sub = a.Args
		}
		for _, x := range sub {
			if !seen[x.id] {
				seen[x.id] = true
				out = append(out, x)
			}
		}
	}
	for _, x := range out {
		if x.Op == "not" && seen[x.Args[0].id] {
			return tFalse
		}
	}
	if len(out) == 0 {
		return tTrue
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("and", SBool, "", out...)
}

// Or disjoins.
func Or(as ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	for _, a := range as {
		if a.Op == "true" {
			return tTrue
		}
		if a.Op == "false" {
			continue
		}
		sub := []*Term{a}
		if a.Op == "or" {
			sub = a.Args
		}
		for _, x := range sub {
			if !seen[x.id] {
				seen[x.id] = true
				out = append(out, x)
			}
		}
	}
	for _, x := range out {
		if x.Op == "not" && seen[x.Args[0].id] {
			return tTrue
		}
	}
	if len(out) == 0 {
		return tFalse
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("or", SBool, "", out...)
}

// Implies builds an implication.
func Implies(a, b *Term) *Term {
	if a.Op == "true" {
		return b
	}
	if a.Op == "false" || b.Op == "true" || a == b {
		return tTrue
	}
	if b.Op == "false" {
		return Not(a)
	}
	return mk("=>", SBool, "", a, b)
}

// refBase decomposes allocation references wm+n.
func refBase(t *Term) (*Term, *big.Int) {
	if t.Op == "+" && len(t.Args) == 2 && t.Args[1].Op == "int" {
		return t.Args[0], t.Args[1].Int
	}
	if t.Op == "int" {
		return nil, t.Int
	}
	return t, big.NewInt(0)
}

// distinctTerms reports whether two terms are syntactically known to differ.
func distinctTerms(a, b *Term) bool {
	if a == b {
		return false
	}
	if isLit(a) && isLit(b) {
		return a.Op == b.Op
	}
	if a.Sort == SInt {
		x, y := a.id, b.id
		if x > y {
			x, y = y, x
		}
		if distinctPairs[[2]int{x, y}] {
			return true
		}
		ba, na := refBase(a)
		bb, nb := refBase(b)
		if ba == bb && na.Cmp(nb) != 0 {
			return true
		}
		// allocated references are positive and larger than any known old reference
		if ia, ok := allocInfo(a); ok {
			if oldBefore(b, ia) {
				return true
			}
		}
		if ib, ok := allocInfo(b); ok {
			if oldBefore(a, ib) {
				return true
			}
		}
	}
	if a.Sort == SSL || a.Sort == SJV || a.Sort == SBody {
		ca, cb := ctor(a), ctor(b)
		if ca != "" && cb != "" && ca != cb {
			return true
		}
	}
	return false
}

func ctor(t *Term) string {
	if strings.HasPrefix(t.Op, "ctor:") {
		return t.Op
	}
	return ""
}

// Watermarks are numbered in creation order; a reference wm_k+n (n>0) exceeds
// every term registered as old with respect to watermark k or an earlier one.
var wmIndex = map[int]int{}  // term id of watermark -> index
var oldIndex = map[int]int{} // term id -> earliest watermark index it is <= to

func newWM() *Term {
	t := Fresh("wm", SInt)
	wmIndex[t.id] = len(wmIndex) + 1
	wmTerms = append(wmTerms, t)
	return t
}

var wmTerms []*Term

// refRows names the heap components holding map entries that are references.
var refRows = map[string]bool{}

// refRow gives the watermark that bounds the references held by a row of
// map entries, if known.
func refRow(t *Term) *Term {
	b := t
	for b.Op == "select" {
		if b.Args[1].Sort == SInt && !oldBefore(b.Args[1], len(wmTerms)) {
			return nil
		}
		b = b.Args[0]
	}
	if b.Op != "const" {
		return nil
	}
	ok := false
	for n := range refRows {
		if strings.Contains(b.Name, n) {
			ok = true
		}
	}
	i, old := oldIndex[b.id]
	if !ok || !old || !oldBefore2(t, i) {
		return nil
	}
	return wmTerms[i-1]
}

func allocInfo(t *Term) (int, bool) {
	b, n := refBase(t)
	if b == nil || n.Sign() <= 0 {
		return 0, false
	}
	i, ok := wmIndex[b.id]
	return i, ok
}

// markOld registers that t <= watermark wm is assumed.
func markOld(t, wm *Term) {
	if t.Op != "const" {
		return
	}
	if i, ok := wmIndex[wmBase(wm).id]; ok {
		if j, ok := oldIndex[t.id]; !ok || i < j {
			oldIndex[t.id] = i
		}
	}
}

func oldBefore(t *Term, idx int) bool {
	switch t.Op {
	case "int":
		return t.Int.Sign() <= 0
	case "select":
		// references stored in the entry heap at old locations are old
		if !oldBefore2(t.Args[0], idx) {
			return false
		}
		if t.Args[1].Sort != SInt {
			return true
		}
		return oldBefore(t.Args[1], idx) || t.Args[0].Op == "select"
	case "ite":
		return oldBefore(t.Args[1], idx) && oldBefore(t.Args[2], idx)
	}
	if i, ok := allocInfo(t); ok {
		return i < idx
	}
	if i, ok := wmIndex[t.id]; ok {
		return i <= idx
	}
	i, ok := oldIndex[t.id]
	return ok && i <= idx
}

// oldBefore2 reports whether an array only holds references old before idx.
func oldBefore2(a *Term, idx int) bool {
	switch a.Op {
	case "const":
		i, ok := oldIndex[a.id]
		return ok && i <= idx
	case "select":
		return oldBefore2(a.Args[0], idx) && (a.Args[1].Sort != SInt || oldBefore(a.Args[1], idx))
	}
	return false
}

// distinctPairs holds references assumed to differ on every path.
var distinctPairs = map[[2]int]bool{}

func noteDistinct(a, b *Term) {
	if a.id > b.id {
		a, b = b, a
	}
	distinctPairs[[2]int{a.id, b.id}] = true
}

// Eq builds an equality.
// litKeys lists the keys of a chain of updates at literal keys of a constant
// map, and that map.
func litKeys(a *Term) (ks []*Term, base *Term) {
	for a.Op == "store" && a.Args[1].Op == "str" {
		ks = append(ks, a.Args[1])
		a = a.Args[0]
	}
	if a.Op != "as-const" {
		return nil, nil
	}
	return ks, a
}

func Eq(a, b *Term) *Term {
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("eq sort mismatch: %s:%s vs %s:%s", a, a.Sort, b, b.Sort))
	}
	if a == b {
		return tTrue
	}
	if distinctTerms(a, b) {
		return tFalse
	}
	if a.Sort == SBool {
		if a.Op == "true" {
			return b
		}
		if b.Op == "true" {
			return a
		}
		if a.Op == "false" {
			return Not(b)
		}
		if b.Op == "false" {
			return Not(a)
		}
	}
	if strings.HasPrefix(a.Op, "ctor:") && a.Op == b.Op {
		var cs []*Term
		for i := range a.Args {
			cs = append(cs, Eq(a.Args[i], b.Args[i]))
		}
		return And(cs...)
	}
	// two maps from literal keys to lists
	if a.Sort == mmSort && (a.Op == "store" || b.Op == "store") {
		ka, ba := litKeys(a)
		kb, bb := litKeys(b)
		if ba != nil && ba == bb {
			var cs []*Term
			for _, k := range append(ka, kb...) {
				cs = append(cs, Eq(Select(a, k), Select(b, k)))
			}
			return And(cs...)
		}
	}
	// a byte against a literal
	for i := 0; i < 2; i++ {
		if a.Op == "int" && b.Op == "str.to_code" && a.Int.IsInt64() && a.Int.Int64() >= 0 && a.Int.Int64() < 256 {
			return Eq(b.Args[0], StrT(string([]byte{byte(a.Int.Int64())})))
		}
		a, b = b, a
	}
	// ite with literal branches against a literal
	if isLit(b) && a.Op == "ite" && (isLit(a.Args[1]) || isLit(a.Args[2])) {
		return Ite(a.Args[0], Eq(a.Args[1], b), Eq(a.Args[2], b))
	}
	if isLit(a) && b.Op == "ite" && (isLit(b.Args[1]) || isLit(b.Args[2])) {
		return Ite(b.Args[0], Eq(b.Args[1], a), Eq(b.Args[2], a))
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk("=", SBool, "", a, b)
}

// Ite builds a conditional.
func Ite(c, a, b *Term) *Term {
	if c.Op == "true" {
		return a
	}
	if c.Op == "false" {
		return b
	}
	if a == b {
		return a
	}
	if a.Sort == SBool {
		if a.Op == "true" && b.Op == "false" {
			return c
		}
		if a.Op == "false" && b.Op == "true" {
			return Not(c)
		}
		if a.Op == "true" {
			return Or(c, b)
		}
		if a.Op == "false" {
			return And(Not(c), b)
		}
		if b.Op == "true" {
			return Or(Not(c), a)
		}
		if b.Op == "false" {
			return And(c, a)
		}
	}
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("ite sort mismatch: %s vs %s", a.Sort, b.Sort))
	}
	return mk("ite", a.Sort, "", c, a, b)
}

// Select reads an array.
func Select(a, i *Term) *Term {
	is, es, ok := arrParts(a.Sort)
	if !ok || is != i.Sort {
		panic(fmt.Sprintf("select: array %s:%s index %s:%s", a, a.Sort, i, i.Sort))
	}
	for a.Op == "store" {
		if a.Args[1] == i {
			return a.Args[2]
		}
		if !distinctTerms(a.Args[1], i) {
			break
		}
		a = a.Args[0]
	}
	if a.Op == "as-const" {
		return a.Args[0]
	}
	if a.Op == "layer" {
		// layer(x, h, wm) is x at references up to wm and h above
		wm := a.Args[2]
		if k, ok := wmIndex[wmBase(wm).id]; ok {
			if oldBefore(i, k) {
				return Select(a.Args[0], i)
			}
		}
		if j, ok := allocInfo(i); ok {
			b, _ := refBase(i)
			if wmIndex[wmBase(wm).id] < j {
				return Select(a.Args[1], i)
			}
			if b == wmBase(wm) {
				return Ite(Le(i, wm), Select(a.Args[0], i), Select(a.Args[1], i))
			}
			return Select(a.Args[0], i)
		}
		return Ite(Le(i, wm), Select(a.Args[0], i), Select(a.Args[1], i))
	}
	if a.Op == "app:slarr" && i.Op == "int" {
		var es []*Term
		l := a.Args[0]
		for l.Op == "ctor:snoc" {
			es = append(es, l.Args[1])
			l = l.Args[0]
		}
		if n := len(es); l.Op == "ctor:nil" && i.Int.IsInt64() && i.Int.Int64() >= 0 && i.Int.Int64() < int64(n) {
			return es[n-1-int(i.Int.Int64())]
		}
	}
	if a.Op == "store" && es == SBool && a.Args[0].Op == "as-const" && isLit(a.Args[0].Args[0]) && isLit(a.Args[2]) {
		if a.Args[2] == tTrue && a.Args[0].Args[0] == tFalse {
			return Eq(i, a.Args[1])
		}
	}
	if a.Op == "ite" && (a.Args[1].Op == "store" || a.Args[2].Op == "store" || a.Args[1].Op == "as-const" || a.Args[2].Op == "as-const" || a.Args[1].Op == "layer" || a.Args[2].Op == "layer") {
		return Ite(a.Args[0], Select(a.Args[1], i), Select(a.Args[2], i))
	}
	return mk("select", es, "", a, i)
}

// Store writes an array.
func Store(a, i, v *Term) *Term {
	is, es, ok := arrParts(a.Sort)
	if !ok || is != i.Sort || es != v.Sort {
		panic(fmt.Sprintf("store: array %s index %s value %s", a.Sort, i.Sort, v.Sort))
	}
	if a.Op == "store" && a.Args[1] == i {
		return Store(a.Args[0], i, v)
	}
	if v.Op == "select" && v.Args[0] == a && v.Args[1] == i {
		return a
	}
	return mk("store", a.Sort, "", a, i, v)
}

// ConstArr is a constant array.
func ConstArr(s Sort, v *Term) *Term { return mk("as-const", s, "", v) }

// rewriters simplify applications of declared functions.
var rewriters = map[string]func(args []*Term) *Term{}

// App applies a declared function.
func App(name string, s Sort, args ...*Term) *Term {
	if rw, ok := rewriters[name]; ok {
		if r := rw(args); r != nil {
			return r
		}
	}
	return mk("app:"+name, s, "", args...)
}

// Ctor applies a datatype constructor.
func Ctor(name string, s Sort, args ...*Term) *Term {
	return mk("ctor:"+name, s, "", args...)
}

// Layer builds an array equal to x at references up to wm and to h above.
func Layer(x, h, wm *Term) *Term { return mk("layer", x.Sort, "", x, h, wm) }

func wmBase(wm *Term) *Term {
	b, _ := refBase(wm)
	if b == nil {
		return wm
	}
	return b
}

// Add adds integers.
func Add(a, b *Term) *Term {
	if a.Op == "int" && b.Op == "int" {
		return BigT(new(big.Int).Add(a.Int, b.Int))
	}
	if a.Op == "int" {
		a, b = b, a
	}
	if b.Op == "int" {
		if b.Int.Sign() == 0 {
			return a
		}
		if a.Op == "+" && len(a.Args) == 2 && a.Args[1].Op == "int" {
			return Add(a.Args[0], BigT(new(big.Int).Add(a.Args[1].Int, b.Int)))
		}
	}
	return mk("+", SInt, "", a, b)
}

// Sub subtracts integers.
func Sub(a, b *Term) *Term {
	if b.Op == "int" {
		return Add(a, BigT(new(big.Int).Neg(b.Int)))
	}
	if a == b {
		return IntT(0)
	}
	// (x + n) - (x + m)
	ba, na := refBase(a)
	bb, nb := refBase(b)
	if ba != nil && ba == bb {
		return BigT(new(big.Int).Sub(na, nb))
	}
	return mk("-", SInt, "", a, b)
}

// Mul multiplies integers.
func Mul(a, b *Term) *Term {
	if a.Op == "int" && b.Op == "int" {
		return BigT(new(big.Int).Mul(a.Int, b.Int))
	}
	return mk("*", SInt, "", a, b)
}

// Lt compares integers.
func Lt(a, b *Term) *Term {
	if a == b {
		return tFalse
	}
	if a.Op == "int" && b.Op == "int" {
		return BoolT(a.Int.Cmp(b.Int) < 0)
	}
	ba, na := refBase(a)
	bb, nb := refBase(b)
	if ba != nil && ba == bb {
		return BoolT(na.Cmp(nb) < 0)
	}
	return mk("<", SBool, "", a, b)
}

// Le compares integers.
func Le(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.Op == "int" && b.Op == "int" {
		return BoolT(a.Int.Cmp(b.Int) <= 0)
	}
	ba, na := refBase(a)
	bb, nb := refBase(b)
	if ba != nil && ba == bb {
		return BoolT(na.Cmp(nb) <= 0)
	}
	return mk("<=", SBool, "", a, b)
}

// StrLen is the string length.
func StrLen(s *Term) *Term {
	if s.Op == "str" {
		return IntT(int64(len(s.Name)))
	}
	if s.Op == "str.++" {
		return Add(StrLen(s.Args[0]), StrLen(s.Args[1]))
	}
	return mk("str.len", SInt, "", s)
}

// StrCat concatenates; concatenations are kept right-nested with merged
// literals so that associativity is syntactic.
func StrCat(a, b *Term) *Term {
	if a.Op == "str" && a.Name == "" {
		return b
	}
	if b.Op == "str" && b.Name == "" {
		return a
	}
	if a.Op == "str.++" {
		return StrCat(a.Args[0], StrCat(a.Args[1], b))
	}
	if a.Op == "str" && b.Op == "str" {
		return StrT(a.Name + b.Name)
	}
	if a.Op == "str" && b.Op == "str.++" && b.Args[0].Op == "str" {
		return StrCat(StrT(a.Name+b.Args[0].Name), b.Args[1])
	}
	return mk("str.++", SStr, "", a, b)
}

// StrSub is s[from:from+n].
func StrSub(s, from, n *Term) *Term {
	if s.Op == "str" && from.Op == "int" && n.Op == "int" {
		f, l := from.Int.Int64(), n.Int.Int64()
		if f >= 0 && l >= 0 && f+l <= int64(len(s.Name)) {
			return StrT(s.Name[f : f+l])
		}
	}
	if from.Op == "int" && from.Int.Sign() == 0 && n == StrLen(s) {
		return s
	}
	return mk("str.substr", SStr, "", s, from, n)
}

// StrOp applies another string theory operator with literal folding.
func StrOp(op string, s Sort, args ...*Term) *Term {
	if op == "str.at" {
		return StrSub(args[0], args[1], IntT(1))
	}
	if op == "str.to_code" && args[0].Op == "str" && len(args[0].Name) == 1 {
		return IntT(int64(args[0].Name[0]))
	}
	all := true
	for _, a := range args {
		all = all && isLit(a)
	}
	if all {
		switch op {
		case "str.prefixof":
			return BoolT(strings.HasPrefix(args[1].Name, args[0].Name))
		case "str.suffixof":
			return BoolT(strings.HasSuffix(args[1].Name, args[0].Name))
		case "str.contains":
			return BoolT(strings.Contains(args[0].Name, args[1].Name))
		case "str.<":
			return BoolT(args[0].Name < args[1].Name)
		case "str.<=":
			return BoolT(args[0].Name <= args[1].Name)
		}
	}
	return mk(op, s, "", args...)
}

// Forall quantifies. Patterns are optional.
func Forall(vars []*Term, body *Term, pats ...[]*Term) *Term {
	return quant("forall", vars, body, pats)
}

// Exists quantifies.
func Exists(vars []*Term, body *Term, pats ...[]*Term) *Term {
	return quant("exists", vars, body, pats)
}

func quant(op string, vars []*Term, body *Term, pats [][]*Term) *Term {
	if isLit(body) {
		return body
	}
	if op == "forall" && len(vars) == 1 && body.Op == "=>" {
		// one-point rule
		if c := body.Args[0]; c.Op == "=" {
			for i := 0; i < 2; i++ {
				if c.Args[i] == vars[0] && c.Args[1-i].Op != "var" && !c.Args[1-i].fv {
					return Subst(body.Args[1], map[int]*Term{vars[0].id: c.Args[1-i]})
				}
			}
		}
	}
	used := map[int]bool{}
	collectVars(body, used, map[int]bool{})
	any := false
	for _, v := range vars {
		if used[v.id] {
			any = true
		}
	}
	if !any {
		return body
	}
	var names []string
	for _, v := range vars {
		names = append(names, v.Name)
	}
	args := []*Term{body}
	var pk []string
	for _, p := range pats {
		for _, x := range p {
			args = append(args, x)
		}
		pk = append(pk, strconv.Itoa(len(p)))
	}
	t := mk(op, SBool, strings.Join(names, ",")+";"+strings.Join(pk, ","), args...)
	t.Vars = vars
	t.Pats = pats
	// free variables other than bound ones
	free := false
	boundSet := map[int]bool{}
	for _, v := range vars {
		boundSet[v.id] = true
	}
	for id := range used {
		if !boundSet[id] {
			free = true
		}
	}
	t.fv = free
	return t
}

func collectVars(t *Term, out map[int]bool, seen map[int]bool) {
	if !t.fv && t.Op != "var" || seen[t.id] {
		return
	}
	seen[t.id] = true
	if t.Op == "var" {
		out[t.id] = true
		return
	}
	inner := map[int]bool{}
	for _, a := range t.Args {
		if t.Op == "forall" || t.Op == "exists" {
			collectVars(a, inner, map[int]bool{})
		} else {
			collectVars(a, out, seen)
		}
	}
	if len(inner) > 0 {
		for _, v := range t.Vars {
			delete(inner, v.id)
		}
		for id := range inner {
			out[id] = true
		}
	}
}

// Subst replaces terms (typically constants or variables) by others.
func Subst(t *Term, m map[int]*Term) *Term {
	memo := map[int]*Term{}
	return subst(t, m, memo)
}

func subst(t *Term, m map[int]*Term, memo map[int]*Term) *Term {
	if r, ok := m[t.id]; ok {
		return r
	}
	if len(t.Args) == 0 {
		return t
	}
	if r, ok := memo[t.id]; ok {
		return r
	}
	changed := false
	args := make([]*Term, len(t.Args))
	for i, a := range t.Args {
		args[i] = subst(a, m, memo)
		if args[i] != a {
			changed = true
		}
	}
	r := t
	if changed {
		r = rebuild(t, args)
	}
	memo[t.id] = r
	return r
}

func rebuild(t *Term, args []*Term) *Term {
	switch t.Op {
	case "not":
		return Not(args[0])
	case "and":
		return And(args...)
	case "or":
		return Or(args...)
	case "=>":
		return Implies(args[0], args[1])
	case "=":
		return Eq(args[0], args[1])
	case "ite":
		return Ite(args[0], args[1], args[2])
	case "select":
		return Select(args[0], args[1])
	case "store":
		return Store(args[0], args[1], args[2])
	case "+":
		return Add(args[0], args[1])
	case "-":
		return Sub(args[0], args[1])
	case "*":
		return Mul(args[0], args[1])
	case "<":
		return Lt(args[0], args[1])
	case "<=":
		return Le(args[0], args[1])
	case "str.len":
		return StrLen(args[0])
	case "str.++":
		return StrCat(args[0], args[1])
	case "str.substr":
		return StrSub(args[0], args[1], args[2])
	case "forall", "exists":
		var pats [][]*Term
		i := 1
		for _, p := range t.Pats {
			var np []*Term
			for range p {
				np = append(np, args[i])
				i++
			}
			pats = append(pats, np)
		}
		return quant(t.Op, t.Vars, args[0], pats)
	}
	if strings.HasPrefix(t.Op, "str.") {
		return StrOp(t.Op, t.Sort, args...)
	}
	if strings.HasPrefix(t.Op, "app:") {
		return App(t.Op[4:], t.Sort, args...)
	}
	if t.Op == "layer" {
		return Layer(args[0], args[1], args[2])
	}
	return mk(t.Op, t.Sort, t.Name, args...)
}

// constsOf collects the constants occurring in t.
func constsOf(t *Term, out map[int]*Term, seen map[int]bool) {
	if seen[t.id] {
		return
	}
	seen[t.id] = true
	if t.Op == "const" {
		out[t.id] = t
	}
	for _, a := range t.Args {
		constsOf(a, out, seen)
	}
}

// String renders a term for diagnostics.
func (t *Term) String() string {
	switch t.Op {
	case "const", "var":
		return t.Name
	case "int":
		return t.Name
	case "str":
		return strconv.Quote(t.Name)
	case "true", "false":
		return t.Op
	case "forall", "exists":
		var vs []string
		for _, v := range t.Vars {
			vs = append(vs, v.Name)
		}
		return "(" + t.Op + " " + strings.Join(vs, ",") + " :: " + t.Args[0].String() + ")"
	}
	var as []string
	for _, a := range t.Args {
		as = append(as, a.String())
	}
	op := t.Op
	op = strings.TrimPrefix(op, "app:")
	op = strings.TrimPrefix(op, "ctor:")
	if len(as) == 0 {
		return op
	}
	return "(" + op + " " + strings.Join(as, " ") + ")"
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
