package main

// Evaluation of specification expressions.

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"
)

// SV is a specification value with its Go type, if it has one.
type SV struct {
	V Val
	T types.Type
}

// Env evaluates expressions of one contract.
type Env struct {
	x     *Exec
	ct    *Contract
	vars  map[string]SV
	cur   *State // state receiving facts
	post  *State // state of plain terms
	pre   *State // state of old terms
	inOld bool
	base  *Term // allocation level of the entry state
	depth int
}

func (e *Env) with(vars map[string]SV) *Env {
	n := *e
	n.vars = vars
	return &n
}

func (e *Env) bind(name string, v SV) *Env {
	m := make(map[string]SV, len(e.vars)+1)
	for k, o := range e.vars {
		m[k] = o
	}
	m[name] = v
	return e.with(m)
}

func (e *Env) err(ex *Ex, f string, args ...interface{}) {
	panic(specError{fmt.Sprintf("%s:%d: %s", ex.File, ex.Line, fmt.Sprintf(f, args...))})
}

type specError struct{ msg string }

// view runs f on the current facts with the heap of another state.
func (e *Env) view(f func(st *State)) {
	h := e.post
	if e.inOld {
		h = e.pre
	}
	if h == e.cur {
		f(e.cur)
		return
	}
	v := *e.cur
	v.heap, v.wm, v.n = h.heap, h.wm, h.n
	f(&v)
	e.cur.pc, e.cur.pcset, e.cur.sub, e.cur.dead = v.pc, v.pcset, v.sub, v.dead
}

// Bool evaluates a formula.
func (e *Env) Bool(ex *Ex) *Term {
	t := e.term(ex)
	if t.Sort != SBool {
		e.err(ex, "formula expected, got %s", t.Sort)
	}
	return t
}

func (e *Env) term(ex *Ex) *Term {
	v := e.eval(ex)
	t, ok := v.V.(*Term)
	if !ok {
		e.err(ex, "scalar expected, got %T", v.V)
	}
	return t
}

func (e *Env) comp(name string, s Sort) (t *Term) {
	e.view(func(st *State) { t = e.x.comp(st, name, s) })
	return
}

func (e *Env) eval(ex *Ex) SV {
	switch ex.Op {
	case "int":
		n, _ := new(big.Int).SetString(ex.Name, 10)
		return SV{V: BigT(n)}
	case "str":
		return SV{V: StrT(ex.Name)}
	case "bool":
		return SV{V: BoolT(ex.Name == "true")}
	case "nil":
		return SV{V: nil}
	case "ident":
		if v, ok := e.vars[ex.Name]; ok {
			return v
		}
		if m := e.x.V.Spec.Macros[ex.Name]; m != nil && len(m.Params) == 0 {
			return e.macro(m, nil, ex)
		}
		if v, ok := e.global(ex.Name); ok {
			return v
		}
		e.err(ex, "unknown name %s", ex.Name)
	case "un":
		t := e.term(ex.Args[0])
		if ex.Name == "!" {
			return SV{V: Not(t)}
		}
		return SV{V: Sub(IntT(0), t)}
	case "bin":
		return e.bin(ex)
	case "cond":
		c := e.cur.simp(e.Bool(ex.Args[0]))
		if c.Op == "true" {
			return e.eval(ex.Args[1])
		}
		if c.Op == "false" {
			return e.eval(ex.Args[2])
		}
		a, b := e.eval(ex.Args[1]), e.eval(ex.Args[2])
		at, ok1 := a.V.(*Term)
		bt, ok2 := b.V.(*Term)
		if !ok1 || !ok2 {
			e.err(ex, "conditional over non-scalars")
		}
		return SV{Ite(c, at, bt), a.T}
	case "let":
		return e.bind(ex.Name, e.eval(ex.Args[0])).eval(ex.Args[1])
	case "quant":
		n := e
		var vs []*Term
		for _, v := range ex.Vars {
			b := BVar(v.Name, v.Sort)
			vs = append(vs, b)
			n = n.bind(v.Name, SV{V: b})
		}
		body := n.Bool(ex.Args[0])
		if ex.Name == "forall" {
			return SV{V: Forall(vs, body)}
		}
		return SV{V: Exists(vs, body)}
	case "sel":
		return e.sel(ex)
	case "idx":
		return e.index(ex)
	case "call":
		return e.call(ex)
	}
	e.err(ex, "cannot evaluate %s", ex.Op)
	return SV{}
}

func (e *Env) global(name string) (SV, bool) {
	if e.ct == nil || e.ct.pkg() == nil {
		return SV{}, false
	}
	o := e.ct.pkg().Scope().Lookup(name)
	switch o := o.(type) {
	case *types.Const:
		return SV{V: constTerm(o)}, true
	case *types.Var:
		p := &Ptr{Root: "G|" + o.Pkg().Path() + "." + o.Name(), T: o.Type()}
		var v Val
		e.view(func(st *State) { v = e.x.load(st, p) })
		return SV{v, o.Type()}, true
	}
	return SV{}, false
}

func (e *Env) bin(ex *Ex) SV {
	switch ex.Name {
	case "==>":
		a := e.Bool(ex.Args[0])
		if e.cur.simp(a).Op == "false" {
			return SV{V: tTrue}
		}
		if hasSome(ex.Args[1]) {
			// what was assumed prunes the events that cannot be meant
			n := *e
			n.cur = e.cur.clone()
			if e.post == e.cur {
				n.post = n.cur
			}
			n.cur.assume(a)
			n.cur.contrapose()
			if n.cur.dead {
				return SV{V: tTrue}
			}
			return SV{V: Implies(a, n.cur.simp(n.Bool(ex.Args[1])))}
		}
		return SV{V: Implies(a, e.Bool(ex.Args[1]))}
	case "&&":
		a := e.Bool(ex.Args[0])
		if a.Op == "false" || len(e.cur.events) > 0 && e.cur.simp(a).Op == "false" {
			return SV{V: tFalse}
		}
		return SV{V: And(a, e.Bool(ex.Args[1]))}
	case "||":
		a := e.Bool(ex.Args[0])
		if a.Op == "true" {
			return SV{V: tTrue}
		}
		return SV{V: Or(a, e.Bool(ex.Args[1]))}
	case "<==>":
		return SV{V: Eq(e.Bool(ex.Args[0]), e.Bool(ex.Args[1]))}
	case "==":
		return SV{V: e.equal(ex, e.eval(ex.Args[0]), e.eval(ex.Args[1]))}
	case "!=":
		return SV{V: Not(e.equal(ex, e.eval(ex.Args[0]), e.eval(ex.Args[1])))}
	case "in":
		k := e.term(ex.Args[0])
		m := e.eval(ex.Args[1])
		return SV{V: e.member(ex, k, m)}
	}
	a, b := e.term(ex.Args[0]), e.term(ex.Args[1])
	switch ex.Name {
	case "<":
		return SV{V: Lt(a, b)}
	case "<=":
		return SV{V: Le(a, b)}
	case ">":
		return SV{V: Lt(b, a)}
	case ">=":
		return SV{V: Le(b, a)}
	case "+":
		if a.Sort == SStr {
			return SV{V: StrCat(a, b)}
		}
		return SV{V: Add(a, b)}
	case "-":
		return SV{V: Sub(a, b)}
	case "*":
		return SV{V: Mul(a, b)}
	case "/":
		return SV{V: quoT(a, b)}
	}
	e.err(ex, "operator %s", ex.Name)
	return SV{}
}

// member is key membership in maps.
func (e *Env) member(ex *Ex, k *Term, m SV) *Term {
	t, ok := m.V.(*Term)
	if !ok {
		e.err(ex, "map expected")
	}
	if t.Sort == mmSort {
		return Not(Eq(Select(t, k), slNil))
	}
	if _, es, ok := arrParts(t.Sort); ok && es == SBool {
		return Select(t, k)
	}
	if m.T == nil {
		e.err(ex, "map expected")
	}
	if isMM(m.T) {
		return Not(Eq(Select(e.mm(t), k), slNil))
	}
	var d *Term
	e.view(func(st *State) { d = e.x.mapDom(st, m.T, t) })
	return Select(d, k)
}

func (e *Env) mm(ref *Term) (c *Term) {
	e.view(func(st *State) { c = e.x.mm(st, ref) })
	return
}

func (e *Env) equal(ex *Ex, a, b SV) *Term {
	if a.V == nil {
		a, b = b, a
	}
	if b.V == nil {
		switch v := a.V.(type) {
		case *Term:
			return Eq(v, IntT(0))
		case *Ptr:
			return Eq(v.Ref, IntT(0))
		case *SliceV:
			return Eq(v.Ref, IntT(0))
		case *IfaceV:
			return Eq(v.Tag, IntT(0))
		case nil:
			return tTrue
		case *FuncV:
			return BoolT(v.Nil)
		}
		e.err(ex, "comparison of %T with nil", a.V)
	}
	sa, ok1 := a.V.(*StructV)
	sb, ok2 := b.V.(*StructV)
	if ok1 && ok2 {
		t := tTrue
		st := sa.T.Underlying().(*types.Struct)
		for i := range sa.F {
			if sa.F[i] == nil {
				continue
			}
			t = And(t, e.equal(ex, SV{sa.F[i], st.Field(i).Type()}, SV{sb.F[i], st.Field(i).Type()}))
		}
		return t
	}
	la, ok1 := a.V.(*SliceV)
	lb, ok2 := b.V.(*SliceV)
	if ok1 && ok2 {
		return And(Eq(la.Ref, lb.Ref), Eq(la.Off, lb.Off), Eq(la.Len, lb.Len))
	}
	// mixed pointer representations
	if p, ok := a.V.(*Ptr); ok {
		if t, ok := b.V.(*Term); ok {
			return Eq(p.Ref, t)
		}
	}
	if p, ok := b.V.(*Ptr); ok {
		if t, ok := a.V.(*Term); ok {
			return Eq(t, p.Ref)
		}
	}
	return eqVals(a.V, b.V)
}

func (e *Env) sel(ex *Ex) SV {
	v := e.eval(ex.Args[0])
	return e.selField(ex, v, ex.Name)
}

func (e *Env) selField(ex *Ex, v SV, name string) (out SV) {
	switch p := v.V.(type) {
	case *Event:
		if name == "at" {
			return SV{V: IntT(p.At)}
		}
		if f, ok := p.F[name]; ok {
			return f
		}
	case *Ptr:
		q := fieldPtr(p, name)
		if isLock(q.T) {
			return SV{q, types.NewPointer(q.T)}
		}
		var r Val
		e.view(func(st *State) { r = e.x.load(st, q) })
		return SV{r, q.T}
	case *StructV:
		st := p.T.Underlying().(*types.Struct)
		for i := range p.F {
			if st.Field(i).Name() == name {
				return SV{p.F[i], st.Field(i).Type()}
			}
		}
	}
	e.err(ex, "no field %s in %T", name, v.V)
	return
}

func (e *Env) index(ex *Ex) SV {
	v := e.eval(ex.Args[0])
	i := e.term(ex.Args[1])
	switch m := v.V.(type) {
	case *Term:
		if m.Sort == SSL {
			return SV{V: Select(UF("slarr", m), i)}
		}
		if _, _, ok := arrParts(m.Sort); ok {
			return SV{V: Select(m, i)}
		}
		if v.T != nil {
			if isMM(v.T) {
				return SV{V: Select(e.mm(m), i)}
			}
			var r Val
			e.view(func(st *State) { r, _ = e.x.mapGet(st, v.T, m, i) })
			return SV{r, v.T.Underlying().(*types.Map).Elem()}
		}
	case *SliceV:
		p := &Ptr{Root: "M|" + typeKey(m.Elem), Ref: m.Ref, Idx: Add(m.Off, i), T: m.Elem}
		var r Val
		e.view(func(st *State) { r = e.x.load(st, p) })
		return SV{r, m.Elem}
	}
	e.err(ex, "indexing %T", v.V)
	return SV{}
}

func (e *Env) macro(m *Macro, args []SV, ex *Ex) SV {
	if len(args) != len(m.Params) {
		e.err(ex, "%s needs %d arguments", m.Name, len(m.Params))
	}
	if e.depth > 40 {
		e.err(ex, "macro recursion")
	}
	vars := map[string]SV{}
	for i, p := range m.Params {
		vars[p] = args[i]
	}
	n := e.with(vars)
	n.depth++
	return n.eval(m.Body)
}

func (e *Env) lookupType(ex *Ex) types.Type {
	name := ex.Name
	if ex.Op == "sel" {
		name = ex.Args[0].Name + "." + ex.Name
	}
	t := e.x.V.typeByName(name, e.ct)
	if t == nil {
		e.err(ex, "unknown type %s", name)
	}
	return t
}

// refOf is the reference of a pointer-like value.
func refOf(v Val) *Term {
	switch p := v.(type) {
	case *Term:
		return p
	case *Ptr:
		return p.Ref
	case *SliceV:
		return p.Ref
	case *IfaceV:
		return p.Ref
	case *FuncV:
		if p.Nil {
			return IntT(0)
		}
		return funcTerm(p)
	}
	return nil
}

func (e *Env) call(ex *Ex) SV {
	if m := e.x.V.Spec.Macros[ex.Name]; m != nil {
		var args []SV
		for _, a := range ex.Args {
			args = append(args, e.eval(a))
		}
		return e.macro(m, args, ex)
	}
	arg := func(i int) SV {
		if i >= len(ex.Args) {
			e.err(ex, "missing argument of %s", ex.Name)
		}
		return e.eval(ex.Args[i])
	}
	targ := func(i int) *Term {
		if i >= len(ex.Args) {
			e.err(ex, "missing argument of %s", ex.Name)
		}
		return e.term(ex.Args[i])
	}
	ref := func(i int) *Term {
		r := refOf(arg(i).V)
		if r == nil {
			e.err(ex, "reference expected")
		}
		return r
	}
	iface := func(i int) *Term { return ref(i) }
	req := func(i int) *Ptr {
		p, ok := arg(i).V.(*Ptr)
		if !ok {
			e.err(ex, "pointer expected")
		}
		return p
	}
	x := e.x
	get := func(name string, s Sort, r *Term) (t *Term) {
		e.view(func(st *State) { t = x.gf(st, name, s, r) })
		return
	}
	switch ex.Name {
	case "old":
		n := *e
		n.inOld = true
		return n.eval(ex.Args[0])
	case "mark": // evaluate in the state marked by verifMark(i)
		if ex.Args[0].Op != "int" || x.marksOf(e)[ex.Args[0].Name] == nil {
			e.err(ex, "unknown mark")
		}
		n := *e
		n.pre = x.marksOf(e)[ex.Args[0].Name]
		n.base = n.pre.level()
		n.inOld = true
		return n.eval(ex.Args[1])
	case "some":
		return SV{V: e.some(ex)}
	case "failed":
		return SV{V: get(failedComp, SBool, ref(0))}
	case "reports":
		return SV{V: e.cur.reports(ref(0), ref(1))}
	case "rectext":
		p := req(0)
		var t *Term
		e.view(func(st *State) { t = recText(x, st, p) })
		return SV{V: t}
	case "kitval":
		return SV{V: kitVal(targ(0), targ(1))}
	case "kitstr":
		return SV{V: kitScalar(targ(0), targ(1), types.Typ[types.String])}
	case "kitbool":
		return SV{V: kitScalar(targ(0), targ(1), types.Typ[types.Bool])}
	case "kitnum":
		return SV{V: kitScalar(targ(0), targ(1), types.Typ[types.Float64])}
	case "real":
		return SV{V: App("itof", SReal, targ(0))}
	case "urlfragment":
		return SV{V: App("urlp:.Fragment", SStr, targ(0))}
	case "urlquery":
		return SV{V: App("urlp:.RawQuery", SStr, targ(0))}
	case "qok":
		return SV{V: App("qok", SBool, targ(0))}
	case "form": // form(k, v, ...): single-valued entries
		m := emptyMM
		for i := 0; i+1 < len(ex.Args); i += 2 {
			m = Store(m, targ(i), SLT(targ(i+1)))
		}
		return SV{V: m}
	case "now": // evaluate in the current state even inside old()
		n := *e
		n.inOld = false
		return n.eval(ex.Args[0])
	case "strs":
		s, ok := arg(0).V.(*SliceV)
		if !ok {
			e.err(ex, "slice expected")
		}
		var t *Term
		e.view(func(st *State) { t = x.strsOf(st, s) })
		return SV{V: t}
	case "bytes":
		s, ok := arg(0).V.(*SliceV)
		if !ok {
			e.err(ex, "slice expected")
		}
		var t *Term
		e.view(func(st *State) { t = x.bytesOf(st, s) })
		return SV{V: t}
	case "len":
		v := arg(0)
		switch s := v.V.(type) {
		case *SliceV:
			return SV{V: s.Len}
		case *Term:
			if s.Sort == SStr {
				return SV{V: StrLen(s)}
			}
			if s.Sort == SSL {
				return SV{V: UF("sllen", s)}
			}
		}
		e.err(ex, "len of %T", v.V)
	case "cap":
		return SV{V: arg(0).V.(*SliceV).Cap}
	case "content":
		v := arg(0)
		return SV{V: e.mm(v.V.(*Term))}
	case "dom":
		v := arg(0)
		var d *Term
		e.view(func(st *State) { d = x.mapDom(st, v.T, v.V.(*Term)) })
		return SV{V: d}
	case "vals":
		v := arg(0)
		ls := leaves(v.T.Underlying().(*types.Map).Elem())
		if len(ls) != 1 {
			e.err(ex, "vals of composite map")
		}
		var d *Term
		e.view(func(st *State) { d = x.mapVals(st, v.T, v.V.(*Term), ls[0]) })
		return SV{V: d}
	case "single": // a string map as list-valued map of single entries
		v := arg(0)
		var t *Term
		e.view(func(st *State) { t = x.singleMM(st, v.T, v.V.(*Term)) })
		return SV{V: t}
	case "pairbag": // bag of name="value" texts of a list-valued map of single entries
		return SV{V: UF("pairbag", targ(0))}
	case "fresh":
		v := arg(0)
		r := refOf(v.V)
		f := e.fresh(r)
		if _, ok := v.V.(*SliceV); ok {
			f = Or(Eq(r, IntT(0)), f)
		}
		return SV{V: f}
	case "existed":
		r := ref(0)
		return SV{V: And(Lt(IntT(0), r), Le(r, e.base))}
	case "ref":
		return SV{V: ref(0)}
	case "is":
		v, ok := arg(0).V.(*IfaceV)
		if !ok {
			e.err(ex, "interface expected")
		}
		t := e.lookupType(ex.Args[1])
		return SV{V: Eq(v.Tag, tagOf(types.NewPointer(t)))}
	case "as":
		v := arg(0)
		t := e.lookupType(ex.Args[1])
		r := refOf(v.V)
		return SV{mkPtr(t, r), types.NewPointer(t)}
	case "errtext":
		v := arg(0).V.(*IfaceV)
		var t *Term
		e.view(func(st *State) { t = errText(x, st, v) })
		return SV{V: t}
	case "nilslice":
		return SV{V: Eq(arg(0).V.(*SliceV).Ref, IntT(0))}
	// response writers
	case "status":
		return SV{V: get("W|status", SInt, iface(0))}
	case "body":
		return SV{V: get("W|body", SStr, iface(0))}
	case "sent":
		return SV{V: get("W|sent", mmSort, iface(0))}
	case "headercalls":
		return SV{V: get("W|count", SInt, iface(0))}
	case "whdr":
		var t *Term
		r := iface(0)
		e.view(func(st *State) { t = x.respHeader(st, r) })
		return SV{V: t}
	// requests
	case "postform", "fullform", "formok", "rawform", "rawpost":
		p := req(0)
		var t *Term
		e.view(func(st *State) {
			q := x.reqForm(st, p)
			switch ex.Name {
			case "postform":
				t = q.pf
			case "fullform":
				t = q.form
			case "formok":
				t = q.ok
			}
		})
		return SV{V: t}
	case "authheader":
		p := req(0)
		var t *Term
		e.view(func(st *State) { t = x.authHeader(st, p) })
		return SV{V: t}
	case "readdata":
		return SV{V: get("RD|", SStr, ref(0))}
	case "closed":
		return SV{V: get("CL|", SInt, ref(0))}
	case "urltext":
		p := req(0)
		var t *Term
		e.view(func(st *State) { t = x.urlString(st, p) })
		return SV{V: t}
	// ghosts
	case "ghost":
		n := ex.Args[0].Name
		if ex.Args[0].Op == "sel" {
			n = ex.Args[0].Args[0].Name + "." + ex.Args[0].Name
		}
		s := SInt
		if gs, ok := netSorts[n]; ok {
			s = gs
		}
		return SV{V: e.comp("S|"+n, s)}
	case "deref":
		p := req(0)
		var v Val
		e.view(func(st *State) { v = x.load(st, p) })
		return SV{v, p.T}
	case "uritext", "uriwith", "uriquery": // request URIs and their parts
		s := targ(0)
		ut := e.x.V.typeByName("url.URL", e.ct)
		if ut == nil {
			e.err(ex, "no url type")
		}
		var as []*Term
		rq := App("uri:.RawQuery", SStr, s)
		for _, l := range leaves(ut) {
			v := App("uri:"+l.Path, l.Sort, s)
			if l.Path == ".RawQuery" && ex.Name == "uriwith" {
				v = UF("enc", targ(1))
			}
			as = append(as, v)
		}
		if ex.Name == "uriquery" {
			return SV{V: UF("parseq", rq)}
		}
		return SV{V: UF("urlstr", as...)}
	case "parsedurl": // text of a parsed URL
		s := targ(0)
		ut := e.x.V.typeByName("url.URL", e.ct)
		var as []*Term
		for _, l := range leaves(ut) {
			as = append(as, App("urlp:"+l.Path, l.Sort, s))
		}
		return SV{V: UF("urlstr", as...)}
	case "jok": // jok(T, text): the text decodes into a value of type T
		t := e.lookupType(ex.Args[0])
		return SV{V: App("jok:"+typeKey(t), SBool, targ(1))}
	case "jany", "jencodable":
		v, ok := arg(0).V.(*IfaceV)
		if !ok {
			e.err(ex, "interface expected")
		}
		return SV{V: UF(ex.Name, v.Tag, v.Ref)}
	case "rawurl":
		return SV{V: x.comp(e.cur, "G|encoding/base64.RawURLEncoding|", SInt)}
	case "stdb64":
		return SV{V: x.comp(e.cur, "G|encoding/base64.StdEncoding|", SInt)}
	case "parsedquery": // the query of the parsed URL
		return SV{V: App("urlp:.RawQuery", SStr, targ(0))}
	case "queryok": // the query of the parsed URL is well-formed
		return SV{V: App("qok", SBool, App("urlp:.RawQuery", SStr, targ(0)))}
	case "plain":
		return SV{V: UF("plain", targ(0))}
	case "methodok":
		return SV{V: UF("methodok", targ(0))}
	case "locked":
		p, ok := arg(0).V.(*Ptr)
		if !ok {
			e.err(ex, "lock expected")
		}
		n, r := lockName(p)
		return SV{V: get(n, SInt, r)}
	case "rngok":
		return SV{V: App("rngok", SBool, targ(0))}
	case "netok":
		return SV{V: App("netok", SBool, targ(0))}
	case "rnd":
		return SV{V: UF("rnd", targ(0), targ(1))}
	case "substr":
		return SV{V: StrSub(targ(0), targ(1), targ(2))}
	case "contains":
		return SV{V: StrOp("str.contains", SBool, targ(0), targ(1))}
	case "prefixof":
		return SV{V: StrOp("str.prefixof", SBool, targ(0), targ(1))}
	case "at":
		return SV{V: StrOp("str.at", SStr, targ(0), targ(1))}
	case "indexof":
		return SV{V: StrOp("str.indexof", SInt, targ(0), targ(1), targ(2))}
	case "lib":
		// lib("strings.LastIndexByte", "int", args...)
		s := SInt
		switch ex.Args[1].Name {
		case "string":
			s = SStr
		case "bool":
			s = SBool
		}
		var as []*Term
		for i := 2; i < len(ex.Args); i++ {
			as = append(as, targ(i))
		}
		return SV{V: App("lib:"+ex.Args[0].Name, s, as...)}
	case "list":
		l := slNil
		for i := range ex.Args {
			l = Snoc(l, targ(i))
		}
		return SV{V: l}
	case "snoc":
		return SV{V: Snoc(targ(0), targ(1))}
	case "store":
		return SV{V: Store(targ(0), targ(1), targ(2))}
	case "emptymm":
		return SV{V: emptyMM}
	case "emptymap":
		return SV{V: ConstArr(ArrS(SStr, SStr), StrT(""))}
	case "emptyset":
		return SV{V: ConstArr(ArrS(SStr, SBool), tFalse)}
	case "put": // put(mm, key, value): single-valued entry
		return SV{V: Store(targ(0), targ(1), SLT(targ(2)))}
	case "putif": // putif(cond, mm, key, value)
		c := e.cur.simp(targ(0))
		m := targ(1)
		return SV{V: Ite(c, Store(m, targ(2), SLT(targ(3))), m)}
	case "emptydoc":
		return SV{V: ConstArr(docSort, jAbsent)}
	case "field": // field(doc, name, value)
		return SV{V: Store(targ(0), targ(1), e.json(ex, targ(2)))}
	case "fieldif": // fieldif(cond, doc, name, value)
		c := e.cur.simp(targ(0))
		d := targ(1)
		return SV{V: Store(d, targ(2), Ite(c, e.json(ex, targ(3)), jAbsent))}
	case "card":
		return SV{V: UF("card", targ(0))}
	case "hasstr":
		return SV{V: Eq(Select(targ(0), targ(1)), jStr(targ(2)))}
	case "distinct":
		t := tTrue
		for i := range ex.Args {
			for j := i + 1; j < len(ex.Args); j++ {
				t = And(t, Not(Eq(ref(i), ref(j))))
			}
		}
		return SV{V: t}
	case "zerotime":
		return SV{V: zeroTimeT}
	case "div":
		return SV{V: mk("div", SInt, "", targ(0), targ(1))}
	case "mapof": // mapof(valuesArray, domArray) as list-valued map of single entries
		return SV{V: UF("mmof", targ(0), targ(1))}
	case "mapbag":
		return SV{V: mapBag(targ(0), targ(1))}
	case "alloc":
		return SV{V: Le(ref(0), e.base)}
	}
	if _, ok := ufRet[ex.Name]; ok {
		var as []*Term
		for i := range ex.Args {
			as = append(as, targ(i))
		}
		return SV{V: UF(ex.Name, as...)}
	}
	if strings.HasPrefix(ex.Name, "uf_") {
		var as []*Term
		for i := range ex.Args {
			as = append(as, targ(i))
		}
		return SV{V: App(ex.Name, SBool, as...)}
	}
	e.err(ex, "unknown function %s", ex.Name)
	return SV{}
}

func (e *Env) json(ex *Ex, t *Term) *Term {
	switch t.Sort {
	case SStr:
		return jStr(t)
	case SInt:
		return jInt(t)
	case SBool:
		return jBool(t)
	case SJV:
		return t
	}
	e.err(ex, "json value of sort %s", t.Sort)
	return nil
}

// fresh says that a reference was allocated after entry.
func (e *Env) fresh(r *Term) *Term {
	bb := wmBase(e.base)
	bi, ok := wmIndex[bb.id]
	if j, ok2 := allocInfo(r); ok && ok2 {
		if j > bi {
			return tTrue
		}
	}
	return Lt(e.base, r)
}

// singleMM views a string map as a list-valued map with single entries.
func (x *Exec) singleMM(st *State, t types.Type, m *Term) *Term {
	return UF("mmof", x.mapDom(st, t, m), x.mapVals(st, t, m, leaves(t.Underlying().(*types.Map).Elem())[0]))
}
