package main

// Theory of string lists, bags and domains: rewriting and unfolding.

import (
	"fmt"
	"strings"
)

// ufRet gives the result sort of the uninterpreted functions known to
// specifications and library models.
var ufRet = map[string]Sort{
	"split": SSL, "fields": SSL, "trim": SStr, "join": SStr, "first": SStr, "sllen": SInt,
	"scontains": SBool, "sincludes": SBool, "equalfold": SBool, "lower": SStr, "upper": SStr,
	"lastindex": SInt, "index": SInt, "nosep": SBool,
	"quok": SBool, "unq": SStr, "quesc": SStr, "uriok": SBool, "parseok": SBool, "methodok": SBool,
	"enc": SStr, "canon": SStr, "nrok": SBool,
	"baok": SBool, "bauser": SStr, "bapass": SStr, "bahdr": SStr,
	"pf": mmSort, "pfok": SBool, "qf": mmSort, "parseq": mmSort, "formmerge": mmSort,
	"hmac256": SStr, "b64enc": SStr, "b64dec": SStr, "b64ok": SBool,
	"rnd": SStr, "itoa": SStr, "quote": SStr,
	"mediatype": SStr, "mediaok": SBool,
	"limit": SStr, "rdata": SStr, "readok": SBool,
	"jenc": SStr, "jencstr": SStr, "jok": SBool, "jhas": SBool, "jstr": SStr, "jint": SInt, "jbool": SBool, "jraw": SStr, "jstrok": SBool, "jstrval": SStr, "jref": SInt,
	"sortedSL": SSL, "pairbag": ArrS(SStr, SInt), "mmdom": ArrS(SStr, SBool), "mmof": mmSort, "card": SInt, "bagof": ArrS(SStr, SInt), "mapbag": ArrS(SStr, SInt),
	"urlstr": SStr, "applyheaders": mmSort, "slarr": ArrS(SInt, SStr), "strs": SSL, "slcat": SSL, "jany": SStr, "jnull": SBool, "jsyntax": SBool, "jdoc": ArrS(SStr, SJV), "jencodable": SBool,
}

// UF applies a known uninterpreted function.
func UF(name string, args ...*Term) *Term {
	s, ok := ufRet[name]
	if !ok {
		panic("unknown function " + name)
	}
	return App(name, s, args...)
}

func bagOf(l *Term) *Term { return UF("bagof", l) }

func mapBag(v, e *Term) *Term { return UF("mapbag", v, e) }

var lamBody = map[string]*Term{}

// lambda names the array k -> body.
func lambda(body, k *Term) *Term {
	ck := mk("var", k.Sort, "lam?"+string(k.Sort))
	b := Subst(body, map[int]*Term{k.id: ck})
	name := fmt.Sprintf("lam%d", b.id)
	t := App(name, ArrS(k.Sort, body.Sort))
	if _, ok := groundUnfolders[name]; !ok {
		lamBody[name] = b
		groundUnfolders[name] = func(t *Term) []*Term {
			return []*Term{Forall([]*Term{ck}, Eq(Select(t, ck), b), []*Term{Select(t, ck)})}
		}
	}
	return t
}

// SLT builds a literal list.
func SLT(xs ...*Term) *Term {
	l := slNil
	for _, x := range xs {
		l = Snoc(l, x)
	}
	return l
}

func isNil(l *Term) bool  { return l == slNil }
func isSnoc(l *Term) bool { return l.Op == "ctor:snoc" }

// Fold is a user-declared recursive function over lists.
type Fold struct {
	Name  string
	Ret   Sort
	Extra []Sort
	Nil   func(extra []*Term) *Term
	Snoc  func(rec, init, x *Term, extra []*Term) *Term
}

var folds = map[string]*Fold{}     // list-valued folds (loop templates)
var predFolds = map[string]*Fold{} // other folds

func addFold(f *Fold) {
	if f.Ret == SSL && len(f.Extra) == 0 {
		folds[f.Name] = f
	} else {
		predFolds[f.Name] = f
	}
	ufRet[f.Name] = f.Ret
	rewriters[f.Name] = func(a []*Term) *Term {
		l, extra := a[0], a[1:]
		if isNil(l) {
			return f.Nil(extra)
		}
		if isSnoc(l) {
			rec := App(f.Name, f.Ret, append([]*Term{l.Args[0]}, extra...)...)
			return f.Snoc(rec, l.Args[0], l.Args[1], extra)
		}
		if l.Op == "ite" && f.Ret == SBool {
			p := App(f.Name, f.Ret, append([]*Term{l.Args[1]}, extra...)...)
			q := App(f.Name, f.Ret, append([]*Term{l.Args[2]}, extra...)...)
			return Ite(l.Args[0], p, q)
		}
		return nil
	}
	groundUnfolders[f.Name] = func(t *Term) []*Term { return unfoldList(t, t.Args[0]) }
}

// unfoldList unfolds a function of strs(arr, off, m+c) by one element.
func unfoldList(t, l *Term) []*Term {
	if l.Op != "app:strs" {
		return nil
	}
	n := l.Args[2]
	_, c := refBase(n)
	m := map[int]*Term{l.id: slNil}
	out := []*Term{Implies(Le(n, IntT(0)), Eq(t, rebuildWith(t, l, slNil)))}
	_ = m
	if c.Sign() > 0 {
		prev := Snoc(Strs(l.Args[0], l.Args[1], Sub(n, IntT(1))), Select(l.Args[0], Add(l.Args[1], Sub(n, IntT(1)))))
		out = append(out, Implies(Lt(IntT(0), n), Eq(t, rebuildWith(t, l, prev))))
	}
	return out
}

func rebuildWith(t, old, nw *Term) *Term {
	args := make([]*Term, len(t.Args))
	for i, a := range t.Args {
		args[i] = a
		if a == old {
			args[i] = nw
		}
	}
	return rebuild(t, args)
}

func init() {
	rewriters["strs"] = func(a []*Term) *Term {
		arr, off, n := a[0], a[1], a[2]
		if n.Op == "int" {
			v := n.Int.Int64()
			if v <= 0 {
				return slNil
			}
			if v <= 40 {
				return Snoc(Strs(arr, off, IntT(v-1)), Select(arr, Add(off, IntT(v-1))))
			}
		}
		// list views
		if arr.Op == "app:slarr" && off.Op == "int" && off.Int.Sign() == 0 && n == UF("sllen", arr.Args[0]) {
			return arr.Args[0]
		}
		// stores beyond the range do not matter
		end := Add(off, n)
		if arr.Op == "store" {
			bi, ni := refBase(arr.Args[1])
			be, ne := refBase(end)
			if bi == be && ni.Cmp(ne) >= 0 {
				return Strs(arr.Args[0], off, n)
			}
			bo, no := refBase(off)
			if bi == bo && ni.Cmp(no) < 0 {
				return Strs(arr.Args[0], off, n)
			}
		}
		return nil
	}
	groundUnfolders["strs"] = func(t *Term) []*Term {
		n := t.Args[2]
		out := []*Term{Implies(Le(n, IntT(0)), Eq(t, slNil)), Implies(Lt(IntT(0), n), Not(Eq(t, slNil)))}
		_, c := refBase(n)
		if c.Sign() > 0 {
			p := Sub(n, IntT(1))
			out = append(out, Implies(Lt(IntT(0), n), Eq(t, Snoc(Strs(t.Args[0], t.Args[1], p), Select(t.Args[0], Add(t.Args[1], p))))))
		}
		return out
	}
	rewriters["first"] = func(a []*Term) *Term {
		l := a[0]
		for isSnoc(l) && isSnoc(l.Args[0]) {
			l = l.Args[0]
		}
		if isNil(l) {
			return StrT("")
		}
		if isSnoc(l) && isNil(l.Args[0]) {
			return l.Args[1]
		}
		if l.Op == "ite" {
			return Ite(l.Args[0], First(l.Args[1]), First(l.Args[2]))
		}
		if l.Op == "app:strs" {
			return Ite(Le(l.Args[2], IntT(0)), StrT(""), Select(l.Args[0], l.Args[1]))
		}
		return nil
	}
	groundUnfolders["first"] = func(t *Term) []*Term {
		l := t.Args[0]
		out := []*Term{Implies(Eq(l, slNil), Eq(t, StrT("")))}
		if l.Op == "ctor:snoc" {
			out = append(out, Eq(t, Ite(Eq(l.Args[0], slNil), l.Args[1], First(l.Args[0]))))
		} else if !l.fv {
			// one-element lists
			init, last := App("dinit", SSL, l), App("dlast", SStr, l)
			out = append(out, Implies(Eq(l, Snoc(slNil, last)), Eq(t, last)))
			_ = init
		}
		return out
	}
	// first over one-element lists, whatever their syntactic form
	x := BVar("x", SStr)
	addAxiom("first-one", []string{"app:first"}, Forall([]*Term{x}, Eq(mk("app:first", SStr, "", Snoc(slNil, x)), x), []*Term{mk("app:first", SStr, "", Snoc(slNil, x))}))
	addAxiom("first-nil", []string{"app:first"}, Eq(mk("app:first", SStr, "", slNil), StrT("")))
	rewriters["sllen"] = func(a []*Term) *Term {
		l := a[0]
		if isNil(l) {
			return IntT(0)
		}
		if isSnoc(l) {
			return Add(UF("sllen", l.Args[0]), IntT(1))
		}
		return nil
	}
	groundUnfolders["sllen"] = func(t *Term) []*Term {
		l := t.Args[0]
		out := []*Term{Le(IntT(0), t), Eq(Eq(t, IntT(0)), Eq(l, slNil))}
		if l.Op == "app:strs" {
			out = append(out, Implies(Le(IntT(0), l.Args[2]), Eq(t, l.Args[2])))
		}
		return out
	}
	rewriters["scontains"] = func(a []*Term) *Term {
		l, v := a[0], a[1]
		if isNil(l) {
			return tFalse
		}
		if isSnoc(l) {
			return Or(Eq(l.Args[1], v), UF("scontains", l.Args[0], v))
		}
		return nil
	}
	groundUnfolders["scontains"] = func(t *Term) []*Term {
		l, v := t.Args[0], t.Args[1]
		out := []*Term{Implies(Eq(l, slNil), Not(t))}
		if l.Op == "app:strs" {
			j := BVar("j", SInt)
			e := Select(l.Args[0], j)
			out = append(out, Eq(t, Exists([]*Term{j}, And(Le(l.Args[1], j), Lt(j, Add(l.Args[1], l.Args[2])), Eq(e, v)), []*Term{e})))
		}
		return out
	}
	rewriters["sincludes"] = func(a []*Term) *Term {
		s, l := a[0], a[1]
		if isNil(l) || s == l {
			return tTrue
		}
		if isSnoc(l) {
			return And(UF("sincludes", s, l.Args[0]), UF("scontains", s, l.Args[1]))
		}
		return nil
	}
	groundUnfolders["sincludes"] = func(t *Term) []*Term {
		s, l := t.Args[0], t.Args[1]
		out := []*Term{Implies(Eq(l, slNil), t), Implies(Eq(l, s), t)}
		if l.Op == "app:strs" {
			j := BVar("j", SInt)
			e := Select(l.Args[0], j)
			out = append(out, Eq(t, Forall([]*Term{j}, Implies(And(Le(l.Args[1], j), Lt(j, Add(l.Args[1], l.Args[2]))), UF("scontains", s, e)), []*Term{e})))
			if s.Op == "app:strs" {
				// contained elements, one level further
				x := BVar("x", SStr)
				j2 := BVar("j2", SInt)
				e2 := Select(s.Args[0], j2)
				out = append(out, Forall([]*Term{x}, Eq(UF("scontains", s, x), Exists([]*Term{j2}, And(Le(s.Args[1], j2), Lt(j2, Add(s.Args[1], s.Args[2])), Eq(e2, x)), []*Term{e2})), []*Term{UF("scontains", s, x)}))
			}
		}
		return out
	}
	rewriters["sortedSL"] = func(a []*Term) *Term {
		if a[0] == ConstArr(ArrS(SStr, SInt), IntT(0)) {
			return slNil
		}
		return nil
	}
	rewriters["pairbag"] = func(a []*Term) *Term {
		if a[0].fv {
			return nil
		}
		k := BVar("k", SStr)
		return mapBag(UF("mmdom", a[0]), lambda(StrCat(k, StrCat(StrT("=\""), StrCat(First(Select(a[0], k)), StrT("\"")))), k))
	}
	rewriters["join"] = func(a []*Term) *Term {
		l, sep := a[0], a[1]
		if isNil(l) {
			return StrT("")
		}
		if isSnoc(l) {
			if isNil(l.Args[0]) {
				return l.Args[1]
			}
			if isSnoc(l.Args[0]) {
				return StrCat(UF("join", l.Args[0], sep), StrCat(sep, l.Args[1]))
			}
		}
		return nil
	}
	groundUnfolders["join"] = func(t *Term) []*Term {
		l := t.Args[0]
		out := []*Term{Implies(Eq(l, slNil), Eq(t, StrT("")))}
		if isSnoc(l) {
			out = append(out, Eq(t, Ite(Eq(l.Args[0], slNil), l.Args[1], StrCat(UF("join", l.Args[0], t.Args[1]), StrCat(t.Args[1], l.Args[1])))))
		} else if p := peel(l); p != l {
			out = append(out, Implies(Lt(IntT(0), l.Args[2]), Eq(t, Ite(Eq(p.Args[0], slNil), p.Args[1], StrCat(UF("join", p.Args[0], t.Args[1]), StrCat(t.Args[1], p.Args[1]))))))
		}
		return out
	}
	rewriters["split"] = func(a []*Term) *Term {
		if a[0].Op == "str" && a[1].Op == "str" && len(a[1].Name) == 1 {
			l := slNil
			for _, p := range strings.Split(a[0].Name, a[1].Name) {
				l = Snoc(l, StrT(p))
			}
			return l
		}
		if a[1].Op != "str" || len(a[1].Name) != 1 || a[0].Op != "str.++" {
			return nil
		}
		var out []*Term
		cur := StrT("")
		ok := true
		var walk func(t *Term)
		walk = func(t *Term) {
			switch {
			case t.Op == "str.++":
				for _, b := range t.Args {
					walk(b)
				}
			case t.Op == "str":
				for i, p := range strings.Split(t.Name, a[1].Name) {
					if i > 0 {
						out = append(out, cur)
						cur = StrT("")
					}
					cur = StrCat(cur, StrT(p))
				}
			case stdBase64(t) && a[1].Name == ".":
				cur = StrCat(cur, t)
			default:
				ok = false
			}
		}
		walk(a[0])
		if !ok {
			return nil
		}
		l := slNil
		for _, t := range append(out, cur) {
			l = Snoc(l, t)
		}
		return l
	}
	rewriters["b64dec"] = func(a []*Term) *Term {
		if a[1].Op == "app:b64enc" && a[1].Args[0] == a[0] {
			return a[1].Args[1]
		}
		return nil
	}
	rewriters["b64ok"] = func(a []*Term) *Term {
		if a[1].Op == "app:b64enc" && a[1].Args[0] == a[0] {
			return tTrue
		}
		return nil
	}
	rewriters["slcat"] = func(a []*Term) *Term {
		if isNil(a[1]) {
			return a[0]
		}
		if isNil(a[0]) {
			return a[1]
		}
		if isSnoc(a[1]) {
			return Snoc(UF("slcat", a[0], a[1].Args[0]), a[1].Args[1])
		}
		return nil
	}
	rewriters["mmdom"] = func(a []*Term) *Term {
		c := a[0]
		if c.Op == "as-const" && isNil(c.Args[0]) {
			return ConstArr(ArrS(SStr, SBool), tFalse)
		}
		if c.Op == "store" {
			return Store(mmDom(c.Args[0]), c.Args[1], Not(Eq(c.Args[2], slNil)))
		}
		return nil
	}
	groundUnfolders["mmdom"] = func(t *Term) []*Term {
		k := BVar("k", SStr)
		return []*Term{Forall([]*Term{k}, Eq(Select(t, k), Not(Eq(Select(t.Args[0], k), slNil))), []*Term{Select(t, k)})}
	}
	rewriters["mmof"] = func(a []*Term) *Term {
		// a map with literal keys
		d := a[0]
		var ks []*Term
		for d.Op == "store" && d.Args[1].Op == "str" && d.Args[2] == tTrue {
			ks = append(ks, d.Args[1])
			d = d.Args[0]
		}
		if d.Op != "as-const" || d.Args[0] != tFalse {
			return nil
		}
		out := ConstArr(mmSort, slNil)
		for i := len(ks) - 1; i >= 0; i-- {
			out = Store(out, ks[i], SLT(Select(a[1], ks[i])))
		}
		return out
	}
	groundUnfolders["mmof"] = func(t *Term) []*Term {
		k := BVar("k", SStr)
		return []*Term{Forall([]*Term{k}, Eq(Select(t, k), Ite(Select(t.Args[0], k), Snoc(slNil, Select(t.Args[1], k)), slNil)), []*Term{Select(t, k)})}
	}
	// the object a text encodes
	rewriters["jdoc"] = func(a []*Term) *Term {
		t := a[0]
		if t.Op == "app:jenc" {
			return t.Args[0]
		}
		if t.Op == "str.++" && len(t.Args) == 2 && t.Args[0].Op == "app:jenc" && t.Args[1] == StrT("\n") {
			return t.Args[0].Args[0]
		}
		return nil
	}
	rewriters["applyheaders"] = func(a []*Term) *Term {
		d := a[1]
		if d.Op == "as-const" && d.Args[0] == tFalse {
			return a[0]
		}
		// a single literal key
		if d.Op == "store" && d.Args[1].Op == "str" && d.Args[2] == tTrue && d.Args[0].Op == "as-const" && d.Args[0].Args[0] == tFalse {
			return Store(a[0], canon(d.Args[1]), SLT(Select(a[2], d.Args[1])))
		}
		return nil
	}
	groundUnfolders["applyheaders"] = func(t *Term) []*Term {
		h, k := BVar("h", SStr), BVar("k", SStr)
		d := Select(t.Args[1], k)
		return []*Term{
			Forall([]*Term{h}, Or(Eq(Select(t, h), Select(t.Args[0], h)), Exists([]*Term{k}, And(d, Eq(canon(k), h), Eq(Select(t, h), SLT(Select(t.Args[2], k)))))), []*Term{Select(t, h)}),
			Forall([]*Term{k}, Implies(d, Exists([]*Term{h}, And(Select(t.Args[1], h), Eq(canon(h), canon(k)), Eq(Select(t, canon(k)), SLT(Select(t.Args[2], h)))))), []*Term{d}),
		}
	}
	rewriters["card"] = func(a []*Term) *Term {
		if a[0].Op == "as-const" && a[0].Args[0] == tFalse {
			return IntT(0)
		}
		return nil
	}
	groundUnfolders["card"] = func(t *Term) []*Term {
		is, _, _ := arrParts(t.Args[0].Sort)
		k := BVar("k", is)
		return []*Term{Le(IntT(0), t), Forall([]*Term{k}, Implies(Select(t.Args[0], k), Lt(IntT(0), t)), []*Term{Select(t.Args[0], k)}),
			Implies(Not(Eq(t, IntT(0))), Exists([]*Term{k}, Select(t.Args[0], k)))}
	}
	rewriters["bagof"] = func(a []*Term) *Term {
		l := a[0]
		if isNil(l) {
			return ConstArr(ArrS(SStr, SInt), IntT(0))
		}
		if isSnoc(l) {
			b := bagOf(l.Args[0])
			return Store(b, l.Args[1], Add(Select(b, l.Args[1]), IntT(1)))
		}
		return nil
	}
	groundUnfolders["bagof"] = func(t *Term) []*Term { return unfoldList(t, t.Args[0]) }
	rewriters["mapbag"] = func(a []*Term) *Term {
		if a[0].Op == "as-const" && a[0].Args[0] == tFalse {
			return ConstArr(ArrS(SStr, SInt), IntT(0))
		}
		return nil
	}
	groundUnfolders["mapbag"] = func(t *Term) []*Term {
		v, e := t.Args[0], t.Args[1]
		if v.Op == "store" && v.Args[2] == tTrue {
			b := mapBag(v.Args[0], e)
			x := Select(e, v.Args[1])
			return []*Term{Implies(Not(Select(v.Args[0], v.Args[1])), Eq(t, Store(b, x, Add(Select(b, x), IntT(1)))))}
		}
		return nil
	}
	rewriters["itoa"] = func(a []*Term) *Term {
		if a[0].Op == "int" {
			return StrT(a[0].Int.String())
		}
		return nil
	}
	rewriters["trim"] = func(a []*Term) *Term {
		if a[0].Op == "str" {
			return StrT(strings.TrimSpace(a[0].Name))
		}
		if a[0].Op == "app:trim" {
			return a[0]
		}
		return nil
	}
	rewriters["lower"] = func(a []*Term) *Term {
		if a[0].Op == "str" {
			return StrT(strings.ToLower(a[0].Name))
		}
		return nil
	}
	rewriters["upper"] = func(a []*Term) *Term {
		if a[0].Op == "str" {
			return StrT(strings.ToUpper(a[0].Name))
		}
		return nil
	}
	rewriters["equalfold"] = func(a []*Term) *Term {
		if a[0].Op == "str" && a[1].Op == "str" {
			return BoolT(strings.EqualFold(a[0].Name, a[1].Name))
		}
		if a[0].Op == "str" {
			return UF("equalfold", a[1], a[0])
		}
		if a[1].Op == "str" && strings.ToLower(a[1].Name) != a[1].Name {
			return UF("equalfold", a[0], StrT(strings.ToLower(a[1].Name)))
		}
		return nil
	}
	groundUnfolders["equalfold"] = func(t *Term) []*Term {
		l := t.Args[1]
		if l.Op == "str" && !strings.ContainsAny(l.Name, "kKsS") && isASCII(l.Name) {
			return []*Term{Eq(t, Eq(UF("lower", t.Args[0]), StrT(strings.ToLower(l.Name))))}
		}
		return nil
	}
	// trimming
	addAxiom("trim-trim", []string{"app:trim"}, Forall([]*Term{x}, Eq(mk("app:trim", SStr, "", mk("app:trim", SStr, "", x)), mk("app:trim", SStr, "", x)), []*Term{mk("app:trim", SStr, "", mk("app:trim", SStr, "", x))}))
	addAxiom("trim-nosp", []string{"app:trim", "str.contains"}, Forall([]*Term{x}, Implies(StrOp("str.contains", SBool, UF("trim", x), StrT(" ")), StrOp("str.contains", SBool, x, StrT(" "))), []*Term{UF("trim", x)}))
}

func isASCII(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] > 127 {
			return false
		}
	}
	return true
}

func init() {
	// pscan keeps the non-empty trimmed elements of a list in order
	addFold(&Fold{Name: "pscan", Ret: SSL,
		Nil: func([]*Term) *Term { return slNil },
		Snoc: func(rec, _, x *Term, _ []*Term) *Term {
			t := UF("trim", x)
			return Ite(Eq(t, StrT("")), rec, Snoc(rec, t))
		}})
}

// stdBase64 recognises text in one of the standard base64 alphabets.
func stdBase64(t *Term) bool {
	return t.Op == "app:b64enc" && t.Args[0].Op == "const" && strings.Contains(t.Args[0].Name, "G_encoding_base64.")
}
