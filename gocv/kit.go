package main

// The conformance kit: recorded responses, test results, decoded JSON objects
// and the log of the exchanges a function made.

import (
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// Event is a completed call of a function whose contract says "event".
type Event struct {
	Callee string
	At     int64
	F      map[string]SV
}

// EventField is a value kept with an event.
type EventField struct {
	Name string
	E    *Ex
}

// CallDecl is a call of a function value that a case makes exactly once, last.
type CallDecl struct {
	Fn   *Ex
	Args []*Ex
}

const recorderName = "net/http/httptest.ResponseRecorder"

// recorderPtr is the recorder behind a response writer, if it is one.
func recorderPtr(x *Exec, st *State, v Val) *Ptr {
	switch w := v.(type) {
	case *Ptr:
		if named(w.T) == recorderName {
			return w
		}
	case *IfaceV:
		if w.DynT != nil {
			if p, ok := w.DynT.Underlying().(*types.Pointer); ok && named(p.Elem()) == recorderName {
				return x.payload(st, w, w.DynT).(*Ptr)
			}
		}
	}
	return nil
}

func recCode(x *Exec, st *State, p *Ptr) *Term { return x.field(st, p, "Code").(*Term) }

func recText(x *Exec, st *State, p *Ptr) *Term {
	return x.gf(st, "RD|", SStr, bufRef(x.field(st, p, "Body").(*Ptr)))
}

func recHeader(x *Exec, st *State, p *Ptr) *Term { return x.mm(st, x.respHeader(st, p.Ref)) }

// recorded notes the answer of a handler that was given a recorder.
func (x *Exec) recorded(st *State, w Val) {
	p := recorderPtr(x, st, w)
	if p == nil {
		return
	}
	code, text := Fresh("h.code", SInt), Fresh("h.text", SStr)
	x.store(st, fieldPtr(p, "Code"), code)
	x.setGf(st, "RD|", SStr, bufRef(x.field(st, p, "Body").(*Ptr)), text)
	st.heap["S|h.code"] = code
	st.heap["S|h.text"] = text
	st.heap["S|h.rhdr"] = recHeader(x, st, p)
}

// calledBack notes the recorder a callback is given.
func (x *Exec) calledBack(st *State, args []Val) {
	if len(args) == 0 {
		return
	}
	p := recorderPtr(x, st, args[0])
	if p == nil {
		return
	}
	st.heap["S|h.cbcode"] = recCode(x, st, p)
	st.heap["S|h.cbtext"] = recText(x, st, p)
	st.heap["S|h.cbhdr"] = recHeader(x, st, p)
}

// record appends a call to the event log of the state.
func (x *Exec) record(st *State, ct *Contract, e *Env, vars map[string]SV) {
	if ct.Event == nil {
		return
	}
	ev := &Event{Callee: ct.Name, At: int64(len(st.events)), F: map[string]SV{}}
	for _, p := range ct.Params {
		ev.F[p] = vars[p]
	}
	for _, f := range ct.Event {
		ev.F[f.Name] = e.eval(f.E)
	}
	st.events = append(st.events[:len(st.events):len(st.events)], ev)
}

// runCalls makes the calls a case of a contract promises.
func (x *Exec) runCalls(fr *Frame, st *State, cs *Case, e *Env, o Outcome, k Cont) {
	if cs == nil || len(cs.Calls) == 0 {
		k(st, o)
		return
	}
	d := cs.Calls[0]
	oe := *e
	oe.inOld = true
	fv := oe.eval(d.Fn)
	sig := fv.T.Underlying().(*types.Signature)
	var args []Val
	for i, a := range d.Args {
		t := e.term(a)
		pt, ok := sig.Params().At(i).Type().Underlying().(*types.Pointer)
		if !ok {
			panic(unsupported{"callback parameter"})
		}
		st.assume(Lt(IntT(0), t))
		st.assume(Le(t, st.level()))
		p := mkPtr(pt.Elem(), t).(*Ptr)
		if named(pt.Elem()) == recorderName {
			b := x.field(st, p, "Body").(*Ptr)
			st.assume(Lt(IntT(0), b.Ref))
			st.assume(Le(b.Ref, st.level()))
		}
		args = append(args, p)
	}
	f, ok := fv.V.(*FuncV)
	if !ok || f.Nil {
		panic(unsupported{"callback that is not known"})
	}
	x.callFn(fr, st, f, args, 0, false, func(st *State, r Outcome) {
		if r.Panic != nil {
			k(st, r)
			return
		}
		k(st, o)
	})
}

// hasSome reports whether a formula speaks about the event log.
func hasSome(ex *Ex) bool {
	if ex == nil {
		return false
	}
	if ex.Op == "call" && ex.Name == "some" {
		return true
	}
	if ex.Op == "call" && theV != nil {
		if m := theV.Spec.Macros[ex.Name]; m != nil && hasSome(m.Body) {
			return true
		}
	}
	for _, a := range ex.Args {
		if hasSome(a) {
			return true
		}
	}
	return false
}

// some evaluates some(Callee, e, condition): a call of Callee was made for
// which the condition holds.
func (e *Env) some(ex *Ex) *Term {
	name := ex.Args[0].Name
	if ex.Args[0].Op == "sel" {
		name = ex.Args[0].Args[0].Name + "." + name
	}
	v := ex.Args[1].Name
	var cs []*Term
	for _, ev := range e.cur.events {
		if ev.Callee != name {
			continue
		}
		c := e.cur.simp(e.bind(v, SV{V: ev}).Bool(ex.Args[2]))
		if c.Op == "true" {
			return tTrue
		}
		cs = append(cs, c)
	}
	// the likeliest candidate is the one to prove
	sort.SliceStable(cs, func(i, j int) bool { return len(conjuncts(cs[i])) > len(conjuncts(cs[j])) })
	return Or(cs...)
}

// kitVal is a member of the JSON object in a text.
func kitVal(text, field *Term) *IfaceV {
	ok := And(App("jdok", SBool, text), Select(App("jddom", ArrS(SStr, SBool), text), field))
	return &IfaceV{Tag: Ite(ok, Select(App("jdtag", ArrS(SStr, SInt), text), field), IntT(0)),
		Ref: Ite(ok, Select(App("jdref", ArrS(SStr, SInt), text), field), IntT(0))}
}

func kitScalar(text, field *Term, t types.Type) *Term {
	v := kitVal(text, field)
	s, _ := basicSort(t.Underlying().(*types.Basic))
	return Ite(Eq(v.Tag, tagOf(t)), unboxSort(s, v.Ref), zeroOf(s))
}

// reports says that failures of test a are failures of test b.
func (st *State) reports(a, b *Term) *Term {
	for i := 0; i < 20; i++ {
		if a == b {
			return tTrue
		}
		p, ok := st.parents[a.id]
		if !ok {
			break
		}
		a = p
	}
	return Eq(a, b)
}

const failedComp = "TF|"

// failIf marks the test as failed under a condition.
func (x *Exec) failIf(st *State, t, cond *Term) {
	x.setGf(st, failedComp, SBool, t, Or(x.gf(st, failedComp, SBool, t), cond))
}

// testRef is the test behind a TestingT.
func (c *CallCtx) testRef() *Term {
	x := c.X
	switch v := c.Args[0].(type) {
	case *Ptr:
		x.nonNil(c.St, v, c.Pos)
		return v.Ref
	case *IfaceV:
		if v.DynT != nil {
			if p, ok := v.DynT.Underlying().(*types.Pointer); ok && named(p.Elem()) == "testing.T" {
				return v.Ref
			}
		}
	}
	panic(unsupported{"a test that is not a *testing.T"})
}

// deepEqual compares two interface values as assert.Equal does.
func (x *Exec) deepEqual(st *State, a, b *IfaceV) *Term {
	if a.DynT != nil && b.DynT != nil {
		if !types.Identical(a.DynT, b.DynT) {
			return tFalse
		}
		if _, ok := a.DynT.Underlying().(*types.Basic); ok {
			return Eq(x.payload(st, a, a.DynT).(*Term), x.payload(st, b, b.DynT).(*Term))
		}
	}
	return Fresh("deepequal", SBool)
}

// isEmpty is the notion of assert.Empty.
func (x *Exec) isEmpty(st *State, v *IfaceV) *Term {
	if v.Tag.Op == "int" && v.Tag.Int.Sign() == 0 {
		return tTrue
	}
	if v.DynT != nil {
		if _, ok := v.DynT.Underlying().(*types.Basic); ok {
			t := x.payload(st, v, v.DynT).(*Term)
			return Eq(t, zeroOf(t.Sort))
		}
	}
	return Fresh("empty", SBool)
}

// parameter is a name=value part: whether it carries the key, and its value.
func parameter(p, key *Term) (match, value *Term) {
	eq := StrT("=")
	i := StrOp("str.indexof", SInt, p, eq, IntT(0))
	end := Add(i, IntT(1))
	match = And(StrOp("str.contains", SBool, p, eq), Eq(StrSub(p, IntT(0), i), key))
	return match, App("lib:strings.Trim", SStr, StrSub(p, end, Sub(StrLen(p), end)), StrT("\","))
}

func init() {
	ufRet["jdok"] = SBool
	// authval(l, key) is the value of the first part of l that carries the key
	ufRet["authval"] = SStr
	groundUnfolders["authval"] = func(t *Term) []*Term {
		l, key := t.Args[0], t.Args[1]
		i, j := BVar("i", SInt), BVar("j", SInt)
		n := UF("sllen", l)
		at := func(j *Term) *Term { return Select(UF("slarr", l), j) }
		mi, _ := parameter(at(i), key)
		mj, vj := parameter(at(j), key)
		in := And(Le(IntT(0), j), Lt(j, n))
		return []*Term{
			Forall([]*Term{j}, Implies(And(in, mj, Forall([]*Term{i}, Implies(And(Le(IntT(0), i), Lt(i, j)), Not(mi)), []*Term{at(i)})), Eq(t, vj)), []*Term{at(j)}),
			Implies(Forall([]*Term{j}, Implies(in, Not(mj)), []*Term{at(j)}), Eq(t, StrT(""))),
		}
	}
	const assertPkg, requirePkg = "github.com/stretchr/testify/assert.", "github.com/stretchr/testify/require."
	// the condition of each assertion
	conds := map[string]func(c *CallCtx) *Term{
		"Equal":    func(c *CallCtx) *Term { return c.X.deepEqual(c.St, c.iface(1), c.iface(2)) },
		"NotEqual": func(c *CallCtx) *Term { return Not(c.X.deepEqual(c.St, c.iface(1), c.iface(2))) },
		"Exactly":  func(c *CallCtx) *Term { return c.X.deepEqual(c.St, c.iface(1), c.iface(2)) },
		"True":     func(c *CallCtx) *Term { return c.str(1) },
		"False":    func(c *CallCtx) *Term { return Not(c.str(1)) },
		"Empty":    func(c *CallCtx) *Term { return c.X.isEmpty(c.St, c.iface(1)) },
		"NotEmpty": func(c *CallCtx) *Term { return Not(c.X.isEmpty(c.St, c.iface(1))) },
		"Zero":     func(c *CallCtx) *Term { return c.X.isEmpty(c.St, c.iface(1)) },
		"NotZero":  func(c *CallCtx) *Term { return Not(c.X.isEmpty(c.St, c.iface(1))) },
		"NoError":  func(c *CallCtx) *Term { return Eq(c.iface(1).Tag, IntT(0)) },
		"Error":    func(c *CallCtx) *Term { return Not(Eq(c.iface(1).Tag, IntT(0))) },
		"Fail":     func(c *CallCtx) *Term { return tFalse },
	}
	for n, f := range conds {
		f := f
		models[assertPkg+n] = func(c *CallCtx) {
			ok := f(c)
			c.X.failIf(c.St, c.testRef(), Not(ok))
			c.ret(ok)
		}
		models[requirePkg+n] = func(c *CallCtx) {
			ok := f(c)
			c.X.failIf(c.St, c.testRef(), Not(ok))
			c.fork(ok, func(c *CallCtx) { c.ret() }, func(c *CallCtx) { c.goexit() })
		}
	}
	t := "(*testing.T)."
	nop := func(c *CallCtx) { c.testRef(); c.ret() }
	fail := func(c *CallCtx) { c.X.failIf(c.St, c.testRef(), tTrue); c.ret() }
	fatal := func(c *CallCtx) { c.X.failIf(c.St, c.testRef(), tTrue); c.goexit() }
	for _, r := range []string{t, "(*testing.common)."} {
		for _, n := range []string{"Helper", "Log", "Logf"} {
			models[r+n] = nop
		}
		for _, n := range []string{"Error", "Errorf", "Fail"} {
			models[r+n] = fail
		}
		for _, n := range []string{"Fatal", "Fatalf", "FailNow"} {
			models[r+n] = fatal
		}
		models[r+"Failed"] = func(c *CallCtx) { c.ret(c.X.gf(c.St, failedComp, SBool, c.testRef())) }
	}
	models[t+"Run"] = func(c *CallCtx) {
		x, st := c.X, c.St
		tr := c.testRef()
		f, ok := c.Args[2].(*FuncV)
		if !ok || f.Nil {
			panic(unsupported{"subtest that is not known"})
		}
		sub := x.alloc(st)
		x.setGf(st, failedComp, SBool, sub, tFalse)
		ps := map[int]*Term{}
		for k, v := range st.parents {
			ps[k] = v
		}
		ps[sub.id] = tr
		st.parents = ps
		pt := f.Fn.Signature.Params().At(0).Type().(*types.Pointer).Elem()
		x.callFn(c.Fr, st, f, []Val{mkPtr(pt, sub)}, c.Pos, false, func(st *State, o Outcome) {
			bad := x.gf(st, failedComp, SBool, sub)
			x.failIf(st, tr, bad)
			if o.Panic != nil {
				c.K(st, o)
				return
			}
			c.K(st, Outcome{Rets: []Val{Not(bad)}})
		})
	}
	models["(*bytes.Buffer).String"] = func(c *CallCtx) {
		p := c.ptr(0)
		c.X.nonNil(c.St, p, c.Pos)
		c.ret(c.X.gf(c.St, "RD|", SStr, bufRef(p)))
	}
	// decoding the first JSON value of a stream into a generic object
	models["encoding/json.NewDecoder"] = func(c *CallCtx) {
		x, st := c.X, c.St
		r := x.alloc(st)
		v := c.iface(0)
		x.oblige(st, "safety", "nil dereference", x.pos(c.Pos), Not(Eq(v.Tag, IntT(0))))
		x.setGf(st, "DE|ref", SInt, r, v.Ref)
		c.ret(mkPtr(c.resType(0).(*types.Pointer).Elem(), r))
	}
	models["(*encoding/json.Decoder).Decode"] = func(c *CallCtx) {
		x, st := c.X, c.St
		src := x.gf(st, "DE|ref", SInt, c.ptr(0).Ref)
		text := x.gf(st, "RD|", SStr, src)
		v := c.iface(1)
		var dst *Ptr
		if v.DynT != nil {
			dst, _ = x.payload(st, v, v.DynT).(*Ptr)
		}
		if dst == nil || !isObjMap(dst.T) {
			panic(unsupported{"json decoding into this target"})
		}
		mt := dst.T
		cur := x.load(st, dst).(*Term)
		dom := st.simp(x.mapDom(st, mt, cur))
		if !(cur.Op == "int" && cur.Int.Sign() == 0) && !(dom.Op == "as-const" && dom.Args[0] == tFalse) {
			panic(unsupported{"json decoding into a map with entries"})
		}
		x.setGf(st, "RD|", SStr, src, Fresh("rest", SStr))
		c.fork(App("jdok", SBool, text), func(c *CallCtx) {
			st := c.St
			m := x.alloc(st)
			ks := keySort(mt)
			put := func(n string, t *Term) {
				_, es, _ := arrParts(t.Sort)
				x.setComp(st, n, Store(x.comp(st, n, fSort(ArrS(ks, es))), m, t))
			}
			put("D|"+mapKey(mt), App("jddom", ArrS(SStr, SBool), text))
			put("V|"+mapKey(mt)+"|.tag", App("jdtag", ArrS(SStr, SInt), text))
			put("V|"+mapKey(mt)+"|.ref", App("jdref", ArrS(SStr, SInt), text))
			x.store(st, dst, m)
			c.ret(nilIface)
		}, func(c *CallCtx) { c.ret(x.freshErr(c.St)) })
	}
	models["net/url.ParseQuery"] = func(c *CallCtx) {
		q := c.str(0)
		c.fork(App("qok", SBool, q), func(c *CallCtx) { c.ret(c.X.newMM(c.St, UF("parseq", q)), nilIface) },
			func(c *CallCtx) { c.ret(c.X.newMM(c.St, UF("parseq", q)), c.X.freshErr(c.St)) })
	}
}

// isObjMap reports whether t is a map from strings to empty interfaces.
func isObjMap(t types.Type) bool {
	m, ok := t.Underlying().(*types.Map)
	if !ok {
		return false
	}
	k, ok := m.Key().Underlying().(*types.Basic)
	if !ok || k.Info()&types.IsString == 0 {
		return false
	}
	i, ok := m.Elem().Underlying().(*types.Interface)
	return ok && i.Empty()
}

// goexit leaves the test function early.
func (c *CallCtx) goexit() {
	c.K(c.St, Outcome{Panic: &PanicInfo{Val: nilIface, Kind: "the test stops", Pos: c.X.pos(c.Pos)}})
}

// closures are the function values with bound variables that were stored.
var closures []*FuncV

func closTerm(f *FuncV) *Term {
	for i, g := range closures {
		if g == f {
			return App("closref", SInt, IntT(int64(i+1)))
		}
	}
	closures = append(closures, f)
	return App("closref", SInt, IntT(int64(len(closures))))
}

var _ = ssa.BuilderMode(0)

// contrapose draws the conclusions of implications whose consequent is known
// to be false.
func (s *State) contrapose() {
	for n := -1; n != len(s.pc) && !s.dead; {
		n = len(s.pc)
		for _, f := range s.pc[:n] {
			if f.Op == "not" && f.Args[0].Op == "or" {
				s.refute(f.Args[0])
			}
			if f.Op == "=>" && s.simp(f.Args[1]).Op == "false" {
				s.refute(f.Args[0])
			}
		}
	}
}

// refute assumes that none of the disjuncts of a formula holds.
func (s *State) refute(t *Term) {
	if t.Op != "or" {
		s.assume(Not(t))
		return
	}
	for _, a := range t.Args {
		s.refute(a)
	}
}
