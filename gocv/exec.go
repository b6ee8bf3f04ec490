package main

// Symbolic execution of SSA functions in continuation-passing style.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// PanicInfo describes an unwinding panic.
type PanicInfo struct {
	Val  Val
	Kind string // "explicit", "contract"
	Pos  string
}

// State is a symbolic program state.
type State struct {
	heap     map[string]*Term
	pc       []*Term
	pcset    map[int]bool
	sub      map[int]*Term
	wm       *Term
	n        int64
	panic    *PanicInfo
	rawMM    []*Term // header/values maps with slices stored directly
	captured []*Term // slice memory captured by such maps
	trace    []string
	dead     bool
	marks    map[string]*State // states marked by lemma functions
	events   []*Event          // completed calls of logged functions
	parents  map[int]*Term     // subtests and the tests they belong to
}

func (s *State) clone() *State {
	c := *s
	c.heap = make(map[string]*Term, len(s.heap))
	for k, v := range s.heap {
		c.heap[k] = v
	}
	c.pcset = make(map[int]bool, len(s.pcset))
	for k := range s.pcset {
		c.pcset[k] = true
	}
	c.sub = make(map[int]*Term, len(s.sub))
	for k, v := range s.sub {
		c.sub[k] = v
	}
	c.pc = s.pc[:len(s.pc):len(s.pc)]
	c.rawMM = s.rawMM[:len(s.rawMM):len(s.rawMM)]
	c.captured = s.captured[:len(s.captured):len(s.captured)]
	c.trace = s.trace[:len(s.trace):len(s.trace)]
	return &c
}

// level is the current allocation level.
func (s *State) level() *Term { return Add(s.wm, IntT(s.n)) }

// simp simplifies a term under the path condition.
func (s *State) simp(t *Term) *Term {
	if isLit(t) || len(s.sub) == 0 {
		return t
	}
	return Subst(t, s.sub)
}

// assume adds a fact.
func (s *State) assume(t *Term) {
	switch t.Op {
	case "true":
		return
	case "and":
		for _, a := range t.Args {
			s.assume(a)
		}
		return
	}
	if s.pcset[t.id] {
		return
	}
	t2 := s.simp(t)
	if t2 != t {
		switch t2.Op {
		case "true":
			// keep the original: it may be the stronger form
			if !s.pcset[t.id] {
				s.pcset[t.id] = true
				s.pc = append(s.pc, t)
			}
			return
		case "false":
			s.dead = true
		case "and":
			s.pcset[t.id] = true
			for _, a := range t2.Args {
				s.assume(a)
			}
			return
		}
	}
	if t.Op == "false" {
		s.dead = true
	}
	s.pcset[t.id] = true
	s.pc = append(s.pc, t)
	s.learn(t)
	if t2 != t && !s.pcset[t2.id] && !isLit(t2) {
		s.pcset[t2.id] = true
		s.pc = append(s.pc, t2)
		s.learn(t2)
	}
}

func (s *State) setSub(a, b *Term) {
	if !isLit(a) {
		s.sub[a.id] = b
	}
}

func (s *State) learn(t *Term) {
	switch {
	case t.Op == "not":
		s.setSub(t.Args[0], tFalse)
		if a := t.Args[0]; a.Op == "<" {
			// not (a < b) is b <= a
			s.setSub(Le(a.Args[1], a.Args[0]), tTrue)
		} else if a.Op == "<=" {
			s.setSub(Lt(a.Args[1], a.Args[0]), tTrue)
		}
	case t.Op == "=":
		a, b := t.Args[0], t.Args[1]
		s.setSub(t, tTrue)
		if isLit(a) && !isLit(b) {
			s.setSub(b, a)
		} else if isLit(b) && !isLit(a) {
			s.setSub(a, b)
		}
	case !isLit(t) && t.Op != "forall" && t.Op != "exists" && t.Op != "=>":
		s.setSub(t, tTrue)
		if t.Op == "<" {
			s.setSub(Le(t.Args[1], t.Args[0]), tFalse)
		} else if t.Op == "<=" {
			s.setSub(Lt(t.Args[1], t.Args[0]), tFalse)
		}
	}
}

// Outcome is how a call ended.
type Outcome struct {
	Rets  []Val
	Panic *PanicInfo
}

// Cont continues after a call.
type Cont func(st *State, o Outcome)

type deferred struct {
	call *ssa.Defer
	fn   Val
	args []Val
	recv Val
}

// Frame is an activation.
type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]Val
	defers []deferred
	loops  []*activeLoop
	ret    Cont
	parent *Frame
	depth  int
	isDefr bool
}

func (f *Frame) clone() *Frame {
	c := *f
	c.env = make(map[ssa.Value]Val, len(f.env))
	for k, v := range f.env {
		c.env[k] = v
	}
	c.defers = f.defers[:len(f.defers):len(f.defers)]
	c.loops = f.loops[:len(f.loops):len(f.loops)]
	return &c
}

// Oblig is a proof obligation.
type Oblig struct {
	Unit   *Unit
	Kind   string // ensures, exsures, requires, safety, frame, invariant, unsupported
	Labels []string
	Name   string
	Pos    string
	Facts  []*Term
	Goal   *Term
	Trace  []string
	Clause *Clause
	Callee *Contract
	Res    Result
}

// Exec executes one verification unit.
type Exec struct {
	V      *Verifier
	U      *Unit
	base   map[string]*Term
	bsort  map[string]Sort
	wm0    *Term
	mute   int
	steps  int
	paths  int
	iterID int
	prefix string
}

func (x *Exec) pos(p token.Pos) string {
	pp := x.V.Prog.Fset.Position(p)
	f := pp.Filename
	if i := strings.LastIndex(f, "/"); i >= 0 {
		f = f[i+1:]
	}
	return fmt.Sprintf("%s:%d", f, pp.Line)
}

// oblige emits an obligation and assumes it afterwards.
func (x *Exec) oblige(st *State, kind, name, pos string, goal *Term) {
	g := st.simp(goal)
	if g.Op != "true" && !st.pcset[g.id] && !st.pcset[goal.id] && x.mute == 0 {
		x.U.add(&Oblig{Unit: x.U, Kind: kind, Name: name, Pos: pos, Facts: st.pc[:len(st.pc):len(st.pc)], Goal: goal, Trace: st.trace})
	} else if x.mute == 0 && kind == "safety" {
		x.U.trivial++
	}
	st.assume(goal)
}

// comp reads a heap component.
func (x *Exec) comp(st *State, name string, s Sort) *Term {
	if t, ok := st.heap[name]; ok {
		return t
	}
	return x.baseComp(name, s)
}

func (x *Exec) baseComp(name string, s Sort) *Term {
	if t, ok := x.base[name]; ok {
		return t
	}
	t := Const(x.prefix+"h0."+sanitize(name), s)
	x.base[name] = t
	x.bsort[name] = s
	markOld(t, x.wm0)
	return t
}

func (x *Exec) setComp(st *State, name string, t *Term) { st.heap[name] = t }

func fSort(l Sort) Sort { return ArrS(SInt, l) }
func mSort(l Sort) Sort { return ArrS(SInt, ArrS(SInt, l)) }

// readLeaf reads one leaf of a location.
func (x *Exec) readLeaf(st *State, p *Ptr, l Leaf) *Term {
	name := p.Root + "|" + p.Path + l.Path
	var t *Term
	switch p.Root[0] {
	case 'F':
		t = Select(x.comp(st, name, fSort(l.Sort)), p.Ref)
	case 'M':
		if p.Root == "M|byte" {
			c := Select(x.comp(st, "M|byte|", fSort(SStr)), p.Ref)
			return StrOp("str.to_code", SInt, StrOp("str.at", SStr, c, p.Idx))
		}
		t = Select(Select(x.comp(st, name, mSort(l.Sort)), p.Ref), p.Idx)
	case 'G':
		t = x.comp(st, name, l.Sort)
	}
	if l.Off && initialTerm(t) {
		return IntT(0)
	}
	x.leafFacts(st, t, l)
	return t
}

// initialTerm reports whether t reads an unmodified symbolic input.
func initialTerm(t *Term) bool {
	for t.Op == "select" {
		t = t.Args[0]
	}
	return t.Op == "const"
}

func (x *Exec) leafFacts(st *State, t *Term, l Leaf) {
	if t.fv || isLit(t) {
		return
	}
	if l.Ref {
		if _, ok := allocInfo(t); !ok {
			st.assume(Le(IntT(0), t))
			st.assume(Le(t, st.level()))
		}
	} else if l.Ne {
		st.assume(Le(IntT(0), t))
	}
}

func (x *Exec) writeLeaf(st *State, p *Ptr, l Leaf, v *Term) {
	name := p.Root + "|" + p.Path + l.Path
	switch p.Root[0] {
	case 'F':
		x.setComp(st, name, Store(x.comp(st, name, fSort(l.Sort)), p.Ref, v))
	case 'M':
		for _, c := range st.captured {
			if !distinctTerms(c, p.Ref) {
				panic(unsupported{"write to slice memory captured by a header or values map"})
			}
		}
		if p.Root == "M|byte" {
			m := x.comp(st, "M|byte|", fSort(SStr))
			c := Select(m, p.Ref)
			n := StrCat(StrSub(c, IntT(0), p.Idx), StrCat(StrOp("str.from_code", SStr, v), StrSub(c, Add(p.Idx, IntT(1)), Sub(Sub(StrLen(c), p.Idx), IntT(1)))))
			x.setComp(st, "M|byte|", Store(m, p.Ref, n))
			return
		}
		m := x.comp(st, name, mSort(l.Sort))
		x.setComp(st, name, Store(m, p.Ref, Store(Select(m, p.Ref), p.Idx, v)))
	case 'G':
		x.setComp(st, name, v)
	}
}

// load reads a value.
func (x *Exec) load(st *State, p *Ptr) Val {
	if p.Arr {
		if !smallArr(p.T) {
			panic(unsupported{"array value load"})
		}
		v := &StructV{T: p.T}
		for i := int64(0); i < p.T.Underlying().(*types.Array).Len(); i++ {
			v.F = append(v.F, x.load(st, arrElem(p, IntT(i))))
		}
		return v
	}
	if isLock(p.T) {
		panic(unsupported{"copy of a lock"})
	}
	if p.Root[0] == 'G' {
		if g, ok := x.V.wonce[p.Root[2:]]; ok {
			p = &Ptr{Root: "G|" + globalName(g), T: p.T, Path: p.Path}
		}
	}
	var ls []*Term
	for _, l := range leaves(p.T) {
		ls = append(ls, x.readLeaf(st, p, l))
	}
	v := fromLeaves(p.T, ls)
	x.valFacts(st, v)
	if p.Root[0] == 'G' && p.Path == "" && !strings.HasPrefix(p.Root[2:], rootPath) {
		// library variables are initialised
		switch q := v.(type) {
		case *Ptr:
			st.assume(Lt(IntT(0), q.Ref))
		case *IfaceV:
			st.assume(Lt(IntT(0), q.Tag))
		}
	}
	return v
}

// valFacts assumes the basic invariants of slices.
func (x *Exec) valFacts(st *State, v Val) {
	switch s := v.(type) {
	case *SliceV:
		if !s.Len.fv {
			st.assume(Le(IntT(0), s.Len))
			st.assume(Le(s.Len, s.Cap))
			st.assume(Implies(Eq(s.Ref, IntT(0)), Eq(s.Cap, IntT(0))))
			if isByte(s.Elem) {
				c := Select(x.comp(st, "M|byte|", fSort(SStr)), s.Ref)
				if !c.fv {
					st.assume(Le(Add(s.Off, s.Len), StrLen(c)))
				}
			}
		}
	case *StructV:
		for _, f := range s.F {
			x.valFacts(st, f)
		}
	}
}

func (x *Exec) store(st *State, p *Ptr, v Val) {
	if p.Arr {
		a, ok := v.(*StructV)
		if !ok {
			panic(unsupported{"array value store"})
		}
		for i, f := range a.F {
			x.store(st, arrElem(p, IntT(int64(i))), f)
		}
		return
	}
	if isLock(p.T) {
		return
	}
	if isByteSlice(p.T) || isMM(p.T) {
		// plain leaves
	}
	ls := toLeaves(v, p.T)
	for i, l := range leaves(p.T) {
		x.writeLeaf(st, p, l, ls[i])
	}
}

// arrElem is a pointer to an element of an array.
func arrElem(p *Ptr, i *Term) *Ptr {
	e := p.T.Underlying().(*types.Array).Elem()
	if p.Arr {
		return &Ptr{Root: p.Root, Ref: p.Ref, Idx: i, T: e}
	}
	if i.Op != "int" {
		panic(unsupported{"symbolic index into an array value"})
	}
	q := *p
	q.Path += fmt.Sprintf("[%d]", i.Int.Int64())
	q.T = e
	return &q
}

// alloc returns a fresh reference.
func (x *Exec) alloc(st *State) *Term {
	st.n++
	return Add(st.wm, IntT(st.n))
}

// allocObj allocates a zeroed object of type t.
func (x *Exec) allocObj(st *State, t types.Type) *Ptr {
	r := x.alloc(st)
	p := mkPtr(t, r).(*Ptr)
	if p.Arr {
		a := t.Underlying().(*types.Array)
		if isByte(a.Elem()) {
			x.setComp(st, "M|byte|", Store(x.comp(st, "M|byte|", fSort(SStr)), r, zeros(IntT(a.Len()))))
			return p
		}
		for _, l := range leaves(a.Elem()) {
			name := p.Root + "|" + l.Path
			x.setComp(st, name, Store(x.comp(st, name, mSort(l.Sort)), r, ConstArr(ArrS(SInt, l.Sort), zeroLeaf(l))))
		}
		return p
	}
	for _, l := range leaves(t) {
		x.writeLeaf(st, p, l, zeroLeaf(l))
	}
	x.zeroLocks(st, p, t)
	if n := typeKey(t); n == "strings.Builder" || n == "strings_Builder" {
		x.setGf(st, "SB|", SStr, r, StrT(""))
	}
	return p
}

// zeroLocks unlocks the mutexes of a new object.
func (x *Exec) zeroLocks(st *State, p *Ptr, t types.Type) {
	if isLock(t) {
		n, r := lockName(p)
		x.setGf(st, n, SInt, r, IntT(0))
		return
	}
	if u, ok := t.Underlying().(*types.Struct); ok && !isTime(t) {
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			if _, ok := f.Type().Underlying().(*types.Struct); ok && hasLock(f.Type()) {
				x.zeroLocks(st, fieldPtr(p, f.Name()), f.Type())
			}
		}
	}
}

func hasLock(t types.Type) bool {
	if isLock(t) {
		return true
	}
	if u, ok := t.Underlying().(*types.Struct); ok && !isTime(t) {
		for i := 0; i < u.NumFields(); i++ {
			if hasLock(u.Field(i).Type()) {
				return true
			}
		}
	}
	return false
}

// zeros is a string of n zero bytes.
func zeros(n *Term) *Term {
	if n.Op == "int" && n.Int.Int64() <= 4096 && n.Int.Sign() >= 0 {
		return StrT(strings.Repeat("\x00", int(n.Int.Int64())))
	}
	return App("zeros", SStr, n)
}

// nonNil checks a dereference.
func (x *Exec) nonNil(st *State, p *Ptr, pos token.Pos) {
	if p.Ref == nil {
		return
	}
	if _, ok := allocInfo(p.Ref); ok {
		return
	}
	x.oblige(st, "safety", "nil dereference", x.pos(pos), Not(Eq(p.Ref, IntT(0))))
}

// bytesOf is the content of a byte slice.
func (x *Exec) bytesOf(st *State, s *SliceV) *Term {
	c := Select(x.comp(st, "M|byte|", fSort(SStr)), s.Ref)
	if s.Len.Op == "int" && s.Len.Int.Sign() == 0 {
		return StrT("")
	}
	return StrSub(c, s.Off, s.Len)
}

// newBytes allocates a byte slice with the given content.
func (x *Exec) newBytes(st *State, c *Term, elem types.Type) *SliceV {
	r := x.alloc(st)
	x.setComp(st, "M|byte|", Store(x.comp(st, "M|byte|", fSort(SStr)), r, c))
	n := StrLen(c)
	if n.Op != "int" {
		st.assume(Le(IntT(0), n))
	}
	return &SliceV{r, IntT(0), n, n, elem}
}

// strsOf is the list content of a string slice.
func (x *Exec) strsOf(st *State, s *SliceV) *Term {
	name := "M|" + typeKey(s.Elem) + "|"
	arr := Select(x.comp(st, name, mSort(SStr)), s.Ref)
	return Strs(arr, s.Off, s.Len)
}

// Strs is the list of n elements of arr from off.
func Strs(arr, off, n *Term) *Term { return App("strs", SSL, arr, off, n) }

// newStrs allocates a string slice over the given array content.
func (x *Exec) newStrs(st *State, arr, n *Term, elem types.Type) *SliceV {
	r := x.alloc(st)
	name := "M|" + typeKey(elem) + "|"
	x.setComp(st, name, Store(x.comp(st, name, mSort(SStr)), r, arr))
	return &SliceV{r, IntT(0), n, n, elem}
}

// freshVal makes a symbolic value of type t.
func (x *Exec) freshVal(st *State, t types.Type, hint string) Val {
	if tp, ok := t.(*types.Tuple); ok {
		var tv TupleV
		for i := 0; i < tp.Len(); i++ {
			tv = append(tv, x.freshVal(st, tp.At(i).Type(), hint))
		}
		return tv
	}
	if st.n > 0 {
		lvl := st.level()
		st.wm, st.n = newWM(), 0
		st.assume(Le(lvl, st.wm))
	}
	var ls []*Term
	for _, l := range leaves(t) {
		if l.Off {
			ls = append(ls, IntT(0))
			continue
		}
		c := Fresh(hint+l.Path, l.Sort)
		if l.Ref {
			markOld(c, st.wm)
			st.assume(Le(c, st.level()))
		}
		if l.Ne {
			st.assume(Le(IntT(0), c))
		}
		ls = append(ls, c)
	}
	v := fromLeaves(t, ls)
	x.valFacts(st, v)
	return v
}

// value evaluates an SSA operand.
func (x *Exec) value(fr *Frame, st *State, v ssa.Value) Val {
	switch c := v.(type) {
	case *ssa.Const:
		return constVal(c)
	case *ssa.Function:
		return &FuncV{Fn: c}
	case *ssa.Global:
		return &Ptr{Root: "G|" + globalName(c), T: c.Type().(*types.Pointer).Elem()}
	case *ssa.Builtin:
		return c
	}
	r, ok := fr.env[v]
	if !ok {
		panic(fmt.Sprintf("no value for %s (%T) in %s", v.Name(), v, fr.fn))
	}
	return r
}

func globalName(g *ssa.Global) string {
	return g.Pkg.Pkg.Path() + "." + g.Name()
}

func constVal(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return zeroVal(t)
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		panic(unsupported{"constant of type " + t.String()})
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return BoolT(constant.BoolVal(c.Value))
	case b.Info()&types.IsString != 0:
		return StrT(constant.StringVal(c.Value))
	case b.Info()&types.IsInteger != 0:
		n, ok := constant.Int64Val(constant.ToInt(c.Value))
		if !ok {
			u, _ := constant.Uint64Val(constant.ToInt(c.Value))
			t := IntT(0)
			_ = u
			return t
		}
		return IntT(n)
	case b.Info()&types.IsFloat != 0:
		return App("real:"+c.Value.ExactString(), SReal)
	}
	panic(unsupported{"constant " + c.String()})
}

// runBlock executes from instruction i of block b.
func (x *Exec) run(fr *Frame, st *State, b *ssa.BasicBlock, i int) {
	if st.dead {
		return
	}
	for ; i < len(b.Instrs); i++ {
		x.steps++
		if x.steps%16 == 0 && pastDeadline() {
			panic(unsupported{"time budget exceeded"})
		}
		if x.steps > 4000000 {
			panic(unsupported{"execution budget exceeded"})
		}
		if x.instr(fr, st, b, i) {
			return
		}
		if st.dead {
			return
		}
	}
}

// fail reports code outside the modelled subset on this path.
func (x *Exec) fail(st *State, u unsupported, pos string) {
	if x.mute > 0 {
		x.U.mutedUnsupported = append(x.U.mutedUnsupported, u.what)
		return
	}
	x.U.add(&Oblig{Unit: x.U, Kind: "unsupported", Name: u.what, Pos: pos, Facts: st.pc, Goal: tFalse, Trace: st.trace})
}

// instr executes one instruction; it reports whether control was transferred.
func (x *Exec) instr(fr *Frame, st *State, b *ssa.BasicBlock, i int) (stop bool) {
	in := b.Instrs[i]
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unsupported); ok {
				x.fail(st, u, x.pos(in.Pos()))
				stop = true
				return
			}
			panic(r)
		}
	}()
	next := func(st2 *State, v Val) {
		fr2 := fr.clone()
		if val, ok := in.(ssa.Value); ok {
			fr2.env[val] = v
		}
		x.run(fr2, st2, b, i+1)
	}
	switch in := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Phi:
		// assigned on entry
	case *ssa.Alloc:
		fr.env[in] = x.allocObj(st, in.Type().(*types.Pointer).Elem())
	case *ssa.UnOp:
		v := x.value(fr, st, in.X)
		switch in.Op {
		case token.MUL:
			p, ok := v.(*Ptr)
			if !ok {
				panic(unsupported{fmt.Sprintf("load through %T", v)})
			}
			x.nonNil(st, p, in.Pos())
			x.access(st, p, false, in.Pos())
			fr.env[in] = x.load(st, p)
		case token.NOT:
			fr.env[in] = Not(v.(*Term))
		case token.SUB:
			fr.env[in] = Sub(IntT(0), v.(*Term))
		default:
			panic(unsupported{"operator " + in.Op.String()})
		}
	case *ssa.BinOp:
		fr.env[in] = x.binop(st, in, x.value(fr, st, in.X), x.value(fr, st, in.Y))
	case *ssa.ChangeType:
		v := x.value(fr, st, in.X)
		if s, ok := v.(*SliceV); ok {
			c := *s
			c.Elem = in.Type().Underlying().(*types.Slice).Elem()
			v = &c
		}
		if s, ok := v.(*StructV); ok {
			c := *s
			c.T = in.Type()
			v = &c
		}
		fr.env[in] = v
	case *ssa.ChangeInterface:
		fr.env[in] = x.value(fr, st, in.X)
	case *ssa.Convert:
		fr.env[in] = x.convert(st, x.value(fr, st, in.X), in.X.Type(), in.Type())
	case *ssa.MakeInterface:
		fr.env[in] = x.makeIface(st, x.value(fr, st, in.X), in.X.Type())
	case *ssa.MakeMap:
		fr.env[in] = x.makeMap(st, in.Type())
	case *ssa.MakeSlice:
		fr.env[in] = x.makeSlice(st, in.Type(), x.value(fr, st, in.Len).(*Term), x.value(fr, st, in.Cap).(*Term), in.Pos())
	case *ssa.MakeClosure:
		f := &FuncV{Fn: in.Fn.(*ssa.Function)}
		for _, bv := range in.Bindings {
			f.Bind = append(f.Bind, x.value(fr, st, bv))
		}
		fr.env[in] = f
	case *ssa.FieldAddr:
		p := x.value(fr, st, in.X).(*Ptr)
		x.nonNil(st, p, in.Pos())
		f := p.T.Underlying().(*types.Struct).Field(in.Field)
		q := *p
		q.Path += "." + f.Name()
		q.T = f.Type()
		if _, ok := f.Type().Underlying().(*types.Array); ok && !smallArr(f.Type()) {
			panic(unsupported{"array field"})
		}
		fr.env[in] = &q
	case *ssa.Field:
		s := x.value(fr, st, in.X).(*StructV)
		fr.env[in] = s.F[in.Field]
	case *ssa.IndexAddr:
		fr.env[in] = x.indexAddr(st, x.value(fr, st, in.X), x.value(fr, st, in.Index).(*Term), in)
	case *ssa.Index:
		if a, ok := x.value(fr, st, in.X).(*StructV); ok {
			i := x.value(fr, st, in.Index).(*Term)
			x.oblige(st, "safety", "index in range", x.pos(in.Pos()), And(Le(IntT(0), i), Lt(i, IntT(int64(len(a.F))))))
			if !isLit(i) || i.Int.Sign() < 0 || i.Int.Int64() >= int64(len(a.F)) {
				panic(unsupported{"array index value"})
			}
			fr.env[in] = a.F[i.Int.Int64()]
			break
		}
		s, ok := x.value(fr, st, in.X).(*Term)
		i, ok2 := x.value(fr, st, in.Index).(*Term)
		if !ok || !ok2 || s.Sort != SStr {
			panic(unsupported{"array index value"})
		}
		fr.env[in] = x.strIndex(st, s, i, in.Pos())
	case *ssa.Slice:
		fr.env[in] = x.slice(fr, st, in)
	case *ssa.Store:
		p, ok := x.value(fr, st, in.Addr).(*Ptr)
		if !ok {
			panic(unsupported{"store through unknown pointer"})
		}
		x.nonNil(st, p, in.Pos())
		x.access(st, p, true, in.Pos())
		x.store(st, p, x.value(fr, st, in.Val))
	case *ssa.Lookup:
		fr.env[in] = x.lookup(st, in, x.value(fr, st, in.X), x.value(fr, st, in.Index))
	case *ssa.MapUpdate:
		x.mapUpdate(st, in.Map.Type(), x.value(fr, st, in.Map).(*Term), x.value(fr, st, in.Key), x.value(fr, st, in.Value), in.Pos())
	case *ssa.Extract:
		fr.env[in] = x.value(fr, st, in.Tuple).(TupleV)[in.Index]
	case *ssa.TypeAssert:
		if _, isI := in.AssertedType.Underlying().(*types.Interface); in.CommaOk && !isI {
			iv := x.value(fr, st, in.X).(*IfaceV)
			c := st.simp(Eq(iv.Tag, tagOf(in.AssertedType)))
			if c.Op != "true" && c.Op != "false" {
				st2 := st.clone()
				fr2 := fr.clone()
				st.assume(c)
				if !st.dead {
					fr.env[in] = TupleV{x.payload(st, iv, in.AssertedType), tTrue}
					x.run(fr, st, b, i+1)
				}
				st2.assume(Not(c))
				if !st2.dead {
					fr2.env[in] = TupleV{zeroVal(in.AssertedType), tFalse}
					x.run(fr2, st2, b, i+1)
				}
				return true
			}
		}
		fr.env[in] = x.typeAssert(st, in, x.value(fr, st, in.X))
	case *ssa.Range:
		fr.env[in] = x.rangeStart(st, in.X.Type(), x.value(fr, st, in.X))
	case *ssa.Next:
		x.rangeNext(st, in, x.value(fr, st, in.Iter), next)
		return true
	case *ssa.Call:
		x.call(fr, st, &in.Call, in, func(st2 *State, o Outcome) {
			if o.Panic != nil {
				fr2 := fr.clone()
				x.unwind(fr2, st2, o.Panic)
				return
			}
			next(st2, packRets(o.Rets))
		})
		return true
	case *ssa.Defer:
		d := deferred{call: in}
		if in.Call.IsInvoke() {
			d.recv = x.value(fr, st, in.Call.Value)
		} else {
			d.fn = x.value(fr, st, in.Call.Value)
		}
		for _, a := range in.Call.Args {
			d.args = append(d.args, x.value(fr, st, a))
		}
		fr.defers = append(fr.defers, d)
	case *ssa.RunDefers:
		x.runDefers(fr, st, func(fr2 *Frame, st2 *State) {
			if st2.panic != nil {
				x.finishPanic(fr2, st2)
				return
			}
			x.run(fr2, st2, b, i+1)
		})
		return true
	case *ssa.If:
		c := st.simp(x.value(fr, st, in.Cond).(*Term))
		if c.Op == "true" {
			x.jump(fr, st, b, b.Succs[0])
			return true
		}
		if c.Op == "false" {
			x.jump(fr, st, b, b.Succs[1])
			return true
		}
		st2 := st.clone()
		fr2 := fr.clone()
		pos := x.pos(condPos(in))
		st.assume(c)
		st.trace = append(st.trace, pos+" then")
		if !st.dead {
			x.jump(fr, st, b, b.Succs[0])
		}
		st2.assume(Not(c))
		st2.trace = append(st2.trace, pos+" else")
		if !st2.dead {
			x.jump(fr2, st2, b, b.Succs[1])
		}
		return true
	case *ssa.Jump:
		x.jump(fr, st, b, b.Succs[0])
		return true
	case *ssa.Return:
		var rets []Val
		for _, r := range in.Results {
			rets = append(rets, x.value(fr, st, r))
		}
		fr.ret(st, Outcome{Rets: rets})
		return true
	case *ssa.Panic:
		x.unwind(fr, st, &PanicInfo{Val: x.value(fr, st, in.X), Kind: "explicit", Pos: x.pos(in.Pos())})
		return true
	case *ssa.Go:
		panic(unsupported{"goroutine"})
	default:
		panic(unsupported{fmt.Sprintf("instruction %T", in)})
	}
	return false
}

func condPos(in *ssa.If) token.Pos {
	if in.Cond.Pos() != token.NoPos {
		return in.Cond.Pos()
	}
	for _, i := range in.Block().Instrs {
		if i.Pos() != token.NoPos {
			return i.Pos()
		}
	}
	return in.Pos()
}

func packRets(rs []Val) Val {
	switch len(rs) {
	case 0:
		return TupleV{}
	case 1:
		return rs[0]
	}
	return TupleV(rs)
}

// unwind starts panicking in the frame.
func (x *Exec) unwind(fr *Frame, st *State, p *PanicInfo) {
	st.panic = p
	st.trace = append(st.trace, p.Pos+" panic")
	x.runDefers(fr, st, func(fr2 *Frame, st2 *State) { x.finishPanic(fr2, st2) })
}

func (x *Exec) finishPanic(fr *Frame, st *State) {
	if st.panic == nil {
		// recovered
		if fr.fn.Recover != nil {
			x.run(fr, st, fr.fn.Recover, 0)
			return
		}
		var rets []Val
		res := fr.fn.Signature.Results()
		for i := 0; i < res.Len(); i++ {
			rets = append(rets, zeroVal(res.At(i).Type()))
		}
		fr.ret(st, Outcome{Rets: rets})
		return
	}
	p := st.panic
	st.panic = nil
	fr.ret(st, Outcome{Panic: p})
}

// runDefers runs the deferred calls of a frame in reverse order.
func (x *Exec) runDefers(fr *Frame, st *State, k func(fr *Frame, st *State)) {
	if len(fr.defers) == 0 {
		k(fr, st)
		return
	}
	d := fr.defers[len(fr.defers)-1]
	fr = fr.clone()
	fr.defers = fr.defers[:len(fr.defers)-1]
	after := func(st2 *State, o Outcome) {
		fr2 := fr.clone()
		if o.Panic != nil {
			st2.panic = o.Panic
		}
		x.runDefers(fr2, st2, k)
	}
	x.dispatch(fr, st, &d.call.Call, d.fn, d.recv, d.args, d.call.Pos(), true, after)
}

// jump transfers control between blocks.
func (x *Exec) jump(fr *Frame, st *State, from, to *ssa.BasicBlock) {
	for len(fr.loops) > 0 {
		top := fr.loops[len(fr.loops)-1]
		if to == top.info.header {
			top.back(fr, st, from)
			return
		}
		if top.info.blocks[to] {
			break
		}
		if top.check {
			if top.exit != nil {
				top.exit(fr, st)
			}
			return
		}
		fr.loops = fr.loops[:len(fr.loops)-1]
	}
	if li := x.V.loopsOf(fr.fn)[to]; li != nil {
		x.loop(fr, st, from, li)
		return
	}
	x.enter(fr, st, from, to)
}

// enter assigns phis and runs a block.
func (x *Exec) enter(fr *Frame, st *State, from, to *ssa.BasicBlock) {
	idx := -1
	for i, p := range to.Preds {
		if p == from {
			idx = i
		}
	}
	vals := map[*ssa.Phi]Val{}
	for _, in := range to.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		vals[phi] = x.value(fr, st, phi.Edges[idx])
	}
	for p, v := range vals {
		fr.env[p] = v
	}
	x.run(fr, st, to, 0)
}

// call executes a call instruction.
func (x *Exec) call(fr *Frame, st *State, c *ssa.CallCommon, in *ssa.Call, k Cont) {
	var args []Val
	for _, a := range c.Args {
		args = append(args, x.value(fr, st, a))
	}
	var fv, recv Val
	if c.IsInvoke() {
		recv = x.value(fr, st, c.Value)
	} else {
		fv = x.value(fr, st, c.Value)
	}
	x.dispatch(fr, st, c, fv, recv, args, in.Pos(), false, k)
}

// dispatch resolves the callee.
func (x *Exec) dispatch(fr *Frame, st *State, c *ssa.CallCommon, fv, recv Val, args []Val, pos token.Pos, isDefer bool, k Cont) {
	if c.IsInvoke() {
		x.invoke(fr, st, c, recv.(*IfaceV), args, pos, k)
		return
	}
	switch f := fv.(type) {
	case *ssa.Builtin:
		x.builtin(fr, st, f, c, args, pos, k)
		return
	case *FuncV:
		if f.Nil {
			x.oblige(st, "safety", "call of nil function", x.pos(pos), tFalse)
			return
		}
		x.callFn(fr, st, f, args, pos, isDefer, k)
		return
	case *Term:
		// one of several known functions
		var cond, yes, no *Term
		switch f = st.simp(f); {
		case f.Op == "ite":
			cond, yes, no = f.Args[0], f.Args[1], f.Args[2]
		case f.Op == "select" && f.Args[0].Op == "store":
			s := f.Args[0]
			cond, yes, no = Eq(f.Args[1], s.Args[1]), s.Args[2], Select(s.Args[0], f.Args[1])
		case f.Op == "int" || f.Op == "app:funcref" || f.Op == "app:closref":
			x.dispatch(fr, st, c, fromLeaves(c.Value.Type(), []*Term{f}), recv, args, pos, isDefer, k)
			return
		default:
			x.callUnknown(st, c, f, args, pos, k)
			return
		}
		st2, fr2 := st.clone(), fr.clone()
		if st.assume(cond); !st.dead {
			x.dispatch(fr, st, c, yes, recv, args, pos, isDefer, k)
		}
		if st2.assume(Not(cond)); !st2.dead {
			x.dispatch(fr2, st2, c, no, recv, args, pos, isDefer, k)
		}
		return
	}
	panic(unsupported{fmt.Sprintf("call of %T", fv)})
}

// mark remembers the current state for at().
func (x *Exec) mark(st *State, i *Term) {
	if i.Op != "int" {
		panic(unsupported{"symbolic mark"})
	}
	m := map[string]*State{}
	for k, v := range st.marks {
		m[k] = v
	}
	m[i.Int.String()] = st.clone()
	st.marks = m
}

// marksOf are the marks of the state a contract is evaluated in.
func (x *Exec) marksOf(e *Env) map[string]*State { return e.cur.marks }

// callFn calls a known function by contract, model or body.
func (x *Exec) callFn(fr *Frame, st *State, f *FuncV, args []Val, pos token.Pos, isDefer bool, k Cont) {
	fn := f.Fn
	name := fnName(fn)
	if fn.Name() == "verifMark" && x.U.C.Extern {
		x.mark(st, args[0].(*Term))
		k(st, Outcome{})
		return
	}
	if ct := x.V.contractFor(fn); ct != nil && x.V.useContract(ct, x.U) {
		x.contractCall(fr, st, ct, fn, args, pos, k)
		return
	}
	if m, ok := models[name]; ok {
		x.U.modelsUsed[name] = true
		m(&CallCtx{X: x, Fr: fr, St: st, Args: args, Fn: fn, Pos: pos, K: k, Name: name})
		return
	}
	if fn.Blocks == nil {
		if m := x.genericModel(fn, name); m != nil {
			x.U.modelsUsed[name] = true
			m(&CallCtx{X: x, Fr: fr, St: st, Args: args, Fn: fn, Pos: pos, K: k, Name: name})
			return
		}
		panic(unsupported{"call of unmodelled function " + name})
	}
	depth := 0
	for p := fr; p != nil; p = p.parent {
		if p.fn == fn {
			depth++
		}
	}
	if depth > 1 || fr.depth > 60 {
		panic(unsupported{"recursion through " + name})
	}
	x.U.inlined[name] = true
	if p := st.panic; p != nil && !isDefer {
		st.panic = nil
		k0 := k
		k = func(st2 *State, o Outcome) {
			st2.panic = p
			k0(st2, o)
		}
	}
	nf := &Frame{fn: fn, env: map[ssa.Value]Val{}, ret: k, parent: fr, depth: fr.depth + 1, isDefr: isDefer}
	for i, p := range fn.Params {
		nf.env[p] = args[i]
	}
	for i, fv := range fn.FreeVars {
		nf.env[fv] = f.Bind[i]
	}
	x.run(nf, st, fn.Blocks[0], 0)
}

func fnName(fn *ssa.Function) string {
	if fn.Origin() != nil {
		fn = fn.Origin()
	}
	return fn.RelString(nil)
}
