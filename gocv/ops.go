package main

// Semantics of individual operations.

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

func isZero(t *Term) bool { return t.Op == "int" && t.Int.Sign() == 0 }

func eqVals(a, b Val) *Term {
	switch x := a.(type) {
	case *Term:
		if y, ok := b.(*Term); ok {
			return Eq(x, y)
		}
		if y, ok := b.(*FuncV); ok && y.Nil {
			return Eq(x, IntT(0))
		}
	case *Ptr:
		y, ok := b.(*Ptr)
		if !ok {
			break
		}
		simple := func(p *Ptr) bool { return p.Path == "" && p.Idx == nil && p.Ref != nil }
		if simple(x) && simple(y) {
			return Eq(x.Ref, y.Ref)
		}
		isNil := func(p *Ptr) bool { return simple(p) && p.Ref.Op == "int" && p.Ref.Int.Sign() == 0 }
		if isNil(x) || isNil(y) {
			return tFalse
		}
		if x.Root == y.Root && x.Path == y.Path && x.Ref != nil && y.Ref != nil {
			t := Eq(x.Ref, y.Ref)
			if x.Idx != nil && y.Idx != nil {
				t = And(t, Eq(x.Idx, y.Idx))
			}
			return t
		}
	case *SliceV:
		if y, ok := b.(*SliceV); ok {
			return Eq(x.Ref, y.Ref)
		}
	case *IfaceV:
		if y, ok := b.(*IfaceV); ok {
			if isZero(x.Tag) || isZero(y.Tag) {
				return Eq(x.Tag, y.Tag)
			}
			return And(Eq(x.Tag, y.Tag), Eq(x.Ref, y.Ref))
		}
	case *StructV:
		if y, ok := b.(*StructV); ok {
			t := tTrue
			for i := range x.F {
				t = And(t, eqVals(x.F[i], y.F[i]))
			}
			return t
		}
	case *FuncV:
		if y, ok := b.(*FuncV); ok {
			if x.Nil || y.Nil {
				return BoolT(x.Nil == y.Nil)
			}
			return BoolT(x.Fn == y.Fn)
		}
		if y, ok := b.(*Term); ok && x.Nil {
			return Eq(y, IntT(0))
		}
	}
	panic(unsupported{fmt.Sprintf("comparison of %T and %T", a, b)})
}

// quoT is Go's truncated division.
func quoT(a, b *Term) *Term {
	if a.Op == "int" && b.Op == "int" && b.Int.Sign() != 0 {
		return IntT(a.Int.Int64() / b.Int.Int64())
	}
	if b.Op == "int" && b.Int.Sign() > 0 {
		return Ite(Le(IntT(0), a), mk("div", SInt, "", a, b), Sub(IntT(0), mk("div", SInt, "", Sub(IntT(0), a), b)))
	}
	return App("quo", SInt, a, b)
}

func (x *Exec) binop(st *State, in *ssa.BinOp, a, b Val) Val {
	switch in.Op {
	case token.EQL:
		return eqVals(a, b)
	case token.NEQ:
		return Not(eqVals(a, b))
	}
	l, ok1 := a.(*Term)
	r, ok2 := b.(*Term)
	if !ok1 || !ok2 {
		panic(unsupported{"operator " + in.Op.String()})
	}
	bt, _ := in.X.Type().Underlying().(*types.Basic)
	if bt != nil && bt.Info()&types.IsString != 0 {
		switch in.Op {
		case token.ADD:
			return StrCat(l, r)
		case token.LSS:
			return StrOp("str.<", SBool, l, r)
		case token.LEQ:
			return StrOp("str.<=", SBool, l, r)
		case token.GTR:
			return StrOp("str.<", SBool, r, l)
		case token.GEQ:
			return StrOp("str.<=", SBool, r, l)
		}
	}
	if bt != nil && bt.Info()&types.IsFloat != 0 {
		s := SReal
		if in.Op == token.LSS || in.Op == token.LEQ || in.Op == token.GTR || in.Op == token.GEQ {
			s = SBool
		}
		return App("fop:"+in.Op.String(), s, l, r)
	}
	switch in.Op {
	case token.ADD:
		return x.inRange(st, in, bt, l, r, Add(l, r))
	case token.SUB:
		return x.inRange(st, in, bt, l, r, Sub(l, r))
	case token.MUL:
		return x.inRange(st, in, bt, l, r, Mul(l, r))
	case token.QUO:
		x.oblige(st, "safety", "division by zero", x.pos(in.Pos()), Not(Eq(r, IntT(0))))
		return quoT(l, r)
	case token.REM:
		x.oblige(st, "safety", "division by zero", x.pos(in.Pos()), Not(Eq(r, IntT(0))))
		if l.Op == "int" && r.Op == "int" {
			return IntT(l.Int.Int64() % r.Int.Int64())
		}
		return Sub(l, Mul(quoT(l, r), r))
	case token.LSS:
		return Lt(l, r)
	case token.LEQ:
		return Le(l, r)
	case token.GTR:
		return Lt(r, l)
	case token.GEQ:
		return Le(r, l)
	case token.AND, token.OR, token.XOR, token.SHL, token.SHR, token.AND_NOT:
		return App("bit:"+in.Op.String(), SInt, l, r)
	}
	panic(unsupported{"operator " + in.Op.String()})
}

func (x *Exec) convert(st *State, v Val, from, to types.Type) Val {
	fb, _ := from.Underlying().(*types.Basic)
	tb, _ := to.Underlying().(*types.Basic)
	switch {
	case tb != nil && tb.Info()&types.IsString != 0 && isByteSlice(from):
		return x.bytesOf(st, v.(*SliceV))
	case isByteSlice(to) && fb != nil && fb.Info()&types.IsString != 0:
		return x.newBytes(st, v.(*Term), to.Underlying().(*types.Slice).Elem())
	case fb != nil && tb != nil && fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0:
		return v
	case fb != nil && tb != nil && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0:
		t := v.(*Term)
		if intWidth(tb) >= intWidth(fb) && (tb.Info()&types.IsUnsigned == fb.Info()&types.IsUnsigned) || t.Op == "int" {
			return t
		}
		if fb.Info()&types.IsUnsigned != 0 && intWidth(tb) > intWidth(fb) {
			return t
		}
		return App("wrap:"+tb.Name(), SInt, t)
	case fb != nil && tb != nil && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsFloat != 0:
		return App("itof", SReal, v.(*Term))
	case fb != nil && tb != nil && fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsInteger != 0:
		return App("ftoi", SInt, v.(*Term))
	case fb != nil && tb != nil && fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsFloat != 0:
		return v
	case fb != nil && tb != nil && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsString != 0:
		return App("runestr", SStr, v.(*Term))
	}
	if types.Identical(from.Underlying(), to.Underlying()) {
		return v
	}
	panic(unsupported{"conversion " + from.String() + " to " + to.String()})
}

// inRange obliges the result of an integer operation to be representable, so
// that integers can be treated as mathematical ones.
func (x *Exec) inRange(st *State, in *ssa.BinOp, bt *types.Basic, l, r, res *Term) *Term {
	if bt == nil || x.mute != 0 || res.Op == "int" {
		return res
	}
	lo, hi := intRange(bt)
	within := func(t *Term) *Term { return And(Le(lo, t), Le(t, hi)) }
	goal := st.simp(within(res))
	if goal.Op == "true" {
		x.U.trivial++
		return res
	}
	// the operands, and what they are compared with, are representable
	facts := append(append([]*Term{}, st.pc...), within(l), within(r))
	var bounded func(t *Term)
	bounded = func(t *Term) {
		if sizes[t.id] {
			facts = append(facts, Le(t, BigT(new(big.Int).Lsh(big.NewInt(1), 48))))
		}
		if t.Op == "+" {
			for _, a := range t.Args {
				bounded(a)
			}
		}
	}
	bounded(l)
	bounded(r)
	for _, a := range st.pc {
		if (a.Op == "<" || a.Op == "<=") && (a.Args[0] == l || a.Args[0] == r || a.Args[0] == res) {
			facts = append(facts, Le(a.Args[1], hi))
		}
	}
	x.U.add(&Oblig{Unit: x.U, Kind: "safety", Name: "no integer overflow", Pos: x.pos(in.Pos()), Facts: facts, Goal: goal, Trace: st.trace})
	return res
}

func intRange(b *types.Basic) (lo, hi *Term) {
	w := uint(intWidth(b))
	one := big.NewInt(1)
	if b.Info()&types.IsUnsigned != 0 {
		return IntT(0), BigT(new(big.Int).Sub(new(big.Int).Lsh(one, w), one))
	}
	top := new(big.Int).Lsh(one, w-1)
	return BigT(new(big.Int).Neg(top)), BigT(new(big.Int).Sub(top, one))
}

func intWidth(b *types.Basic) int {
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32:
		return 32
	}
	return 64
}

// makeIface boxes a value.
func (x *Exec) makeIface(st *State, v Val, t types.Type) *IfaceV {
	tag := tagOf(t)
	var ref *Term
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		ref = ptrTerm(v.(*Ptr))
	case *types.Map, *types.Chan:
		ref = v.(*Term)
	case *types.Basic:
		ref = boxSort(v.(*Term))
	case *types.Signature:
		ref = toLeaves(v, t)[0]
	default:
		_ = u
		if isTime(t) {
			ref = v.(*Term)
			break
		}
		p := x.allocObj(st, t)
		x.store(st, p, v)
		ref = p.Ref
	}
	return &IfaceV{Tag: tag, Ref: ref, DynT: t, Dyn: v}
}

// payload extracts the value of concrete type t from an interface.
func (x *Exec) payload(st *State, v *IfaceV, t types.Type) Val {
	if v.DynT != nil && types.Identical(v.DynT, t) && v.Dyn != nil {
		return v.Dyn
	}
	if r := unbox(t, v.Ref); r != nil {
		return r
	}
	return x.load(st, &Ptr{Root: objRoot(t), Ref: v.Ref, T: t})
}

func (x *Exec) typeAssert(st *State, in *ssa.TypeAssert, v Val) Val {
	iv := v.(*IfaceV)
	t := in.AssertedType
	if ti, ok := t.Underlying().(*types.Interface); ok {
		var okT *Term
		if iv.DynT != nil {
			okT = BoolT(types.Implements(iv.DynT, ti))
		} else if ti.Empty() || types.Implements(in.X.Type(), ti) {
			okT = Not(Eq(iv.Tag, IntT(0)))
		} else {
			okT = App("implements:"+typeKey(t), SBool, iv.Tag)
		}
		if in.CommaOk {
			res := &IfaceV{Tag: Ite(okT, iv.Tag, IntT(0)), Ref: Ite(okT, iv.Ref, IntT(0))}
			if okT.Op == "true" {
				res = iv
			}
			return TupleV{res, okT}
		}
		x.oblige(st, "safety", "type assertion", x.pos(in.Pos()), okT)
		return iv
	}
	okT := st.simp(Eq(iv.Tag, tagOf(t)))
	if in.CommaOk {
		if okT.Op == "false" {
			return TupleV{zeroVal(t), okT}
		}
		p := x.payload(st, iv, t)
		if okT.Op == "true" {
			return TupleV{p, okT}
		}
		ls := toLeaves(p, t)
		zs := toLeaves(zeroVal(t), t)
		var out []*Term
		for i := range ls {
			out = append(out, Ite(okT, ls[i], zs[i]))
		}
		return TupleV{fromLeaves(t, out), okT}
	}
	x.oblige(st, "safety", "type assertion", x.pos(in.Pos()), okT)
	return x.payload(st, iv, t)
}

func mapKey(t types.Type) string {
	m := t.Underlying().(*types.Map)
	return "map[" + typeKey(m.Key()) + "]" + typeKey(m.Elem())
}

func keySort(t types.Type) Sort {
	m := t.Underlying().(*types.Map)
	ls := leaves(m.Key())
	if len(ls) != 1 {
		panic(unsupported{"map key type " + m.Key().String()})
	}
	return ls[0].Sort
}

func keyTerm(k Val, t types.Type) *Term {
	return toLeaves(k, t.Underlying().(*types.Map).Key())[0]
}

func (x *Exec) makeMap(st *State, t types.Type) Val {
	r := x.alloc(st)
	if isMM(t) {
		x.setMM(st, r, ConstArr(ArrS(SStr, SSL), slNil))
		return r
	}
	ks := keySort(t)
	name := "D|" + mapKey(t)
	x.setComp(st, name, Store(x.comp(st, name, ArrS(SInt, ArrS(ks, SBool))), r, ConstArr(ArrS(ks, SBool), tFalse)))
	for _, l := range leaves(t.Underlying().(*types.Map).Elem()) {
		vn := "V|" + mapKey(t) + "|" + l.Path
		x.setComp(st, vn, Store(x.comp(st, vn, ArrS(SInt, ArrS(ks, l.Sort))), r, ConstArr(ArrS(ks, l.Sort), zeroLeaf(l))))
	}
	return r
}

var mmSort = ArrS(SStr, SSL)

// mm reads the content of a string-list map.
func (x *Exec) mm(st *State, ref *Term) *Term {
	c := Select(x.comp(st, "C|", ArrS(SInt, mmSort)), ref)
	if ref.Op == "int" && ref.Int.Sign() == 0 {
		return ConstArr(mmSort, slNil)
	}
	return c
}

func (x *Exec) setMM(st *State, ref, content *Term) {
	x.setComp(st, "C|", Store(x.comp(st, "C|", ArrS(SInt, mmSort)), ref, content))
}

// mmView materialises one entry as a slice.
func (x *Exec) mmView(st *State, l *Term, elem types.Type) *SliceV {
	if l == slNil {
		return &SliceV{IntT(0), IntT(0), IntT(0), IntT(0), elem}
	}
	n := App("sllen", SInt, l)
	if n.Op != "int" {
		st.assume(Le(IntT(0), n))
	}
	arr := App("slarr", ArrS(SInt, SStr), l)
	s := x.newStrs(st, arr, n, elem)
	if n.Op != "int" {
		s.Ref = Ite(Eq(n, IntT(0)), IntT(0), s.Ref)
	}
	st.assume(Implies(Lt(IntT(0), n), Eq(Select(arr, IntT(0)), First(l))))
	st.assume(Eq(Strs(arr, IntT(0), n), l))
	st.assume(Eq(Eq(n, IntT(0)), Eq(l, slNil)))
	return s
}

// First is the first element of a list or "".
func First(l *Term) *Term { return App("first", SStr, l) }

// strIndex is the byte at an index of a string.
func (x *Exec) strIndex(st *State, s, i *Term, pos token.Pos) *Term {
	x.oblige(st, "safety", "string index in range", x.pos(pos), And(Le(IntT(0), i), Lt(i, StrLen(s))))
	return StrOp("str.to_code", SInt, StrOp("str.at", SStr, s, i))
}

func (x *Exec) lookup(st *State, in *ssa.Lookup, m, k Val) Val {
	t := in.X.Type()
	if _, ok := t.Underlying().(*types.Map); !ok {
		// string index
		return x.strIndex(st, m.(*Term), k.(*Term), in.Pos())
	}
	mr := m.(*Term)
	x.mapAccess(st, t, false, in.Pos())
	if isMM(t) {
		l := Select(x.mm(st, mr), k.(*Term))
		v := x.mmView(st, l, t.Underlying().(*types.Map).Elem().Underlying().(*types.Slice).Elem())
		if in.CommaOk {
			return TupleV{v, Not(Eq(l, slNil))}
		}
		return v
	}
	v, d := x.mapGet(st, t, mr, keyTerm(k, t))
	if in.CommaOk {
		return TupleV{v, d}
	}
	return v
}

func (x *Exec) mapDom(st *State, t types.Type, m *Term) *Term {
	ks := keySort(t)
	if isZero(m) {
		return ConstArr(ArrS(ks, SBool), tFalse)
	}
	return Select(x.comp(st, "D|"+mapKey(t), ArrS(SInt, ArrS(ks, SBool))), m)
}

func (x *Exec) mapVals(st *State, t types.Type, m *Term, l Leaf) *Term {
	ks := keySort(t)
	if isZero(m) {
		return ConstArr(ArrS(ks, l.Sort), zeroLeaf(l))
	}
	n := "V|" + mapKey(t) + "|" + l.Path
	if l.Ref {
		refRows[sanitize(n)] = true
	}
	return Select(x.comp(st, n, ArrS(SInt, ArrS(ks, l.Sort))), m)
}

// mapGet reads an entry of a map.
func (x *Exec) mapGet(st *State, t types.Type, m, k *Term) (Val, *Term) {
	et := t.Underlying().(*types.Map).Elem()
	d := Select(x.mapDom(st, t, m), k)
	if _, ok := allocInfo(m); !ok && !d.fv && d.Op != "true" && d.Op != "false" {
		st.assume(Implies(Eq(m, IntT(0)), Not(d)))
	}
	var ls []*Term
	for _, l := range leaves(et) {
		v := Select(x.mapVals(st, t, m, l), k)
		if l.Off && initialTerm(v) {
			v = IntT(0)
		}
		x.leafFacts(st, v, l)
		if !v.fv && d.Op != "true" {
			st.assume(Implies(Not(d), Eq(v, zeroLeaf(l))))
		}
		ls = append(ls, v)
	}
	v := fromLeaves(et, ls)
	x.valFacts(st, v)
	return v, d
}

func (x *Exec) mapUpdate(st *State, t types.Type, m *Term, k, v Val, pos token.Pos) {
	if _, ok := allocInfo(m); !ok {
		x.oblige(st, "safety", "assignment to nil map", x.pos(pos), Not(Eq(m, IntT(0))))
	}
	x.mapAccess(st, t, true, pos)
	if isMM(t) {
		kt := k.(*Term)
		s := v.(*SliceV)
		x.setMM(st, m, Store(x.mm(st, m), kt, spelled(x.strsOf(st, s))))
		x.setAlias(st, m, kt, s.Ref, s.Off, Add(s.Off, s.Cap))
		st.rawMM = append(st.rawMM, m)
		if s.Ref.Op != "int" {
			st.captured = append(st.captured, s.Ref)
		}
		return
	}
	kt := keyTerm(k, t)
	ks := keySort(t)
	dn := "D|" + mapKey(t)
	d := x.comp(st, dn, ArrS(SInt, ArrS(ks, SBool)))
	x.setComp(st, dn, Store(d, m, Store(Select(d, m), kt, tTrue)))
	et := t.Underlying().(*types.Map).Elem()
	ls := toLeaves(v, et)
	for i, l := range leaves(et) {
		vn := "V|" + mapKey(t) + "|" + l.Path
		c := x.comp(st, vn, ArrS(SInt, ArrS(ks, l.Sort)))
		x.setComp(st, vn, Store(c, m, Store(Select(c, m), kt, ls[i])))
	}
}

// spelled writes out the list of a short array of known length.
func spelled(l *Term) *Term {
	if l.Op != "app:strs" || l.Args[2].Op != "int" || l.Args[2].Int.Sign() < 0 || l.Args[2].Int.Cmp(big.NewInt(4)) > 0 {
		return l
	}
	r := slNil
	for i := int64(0); i < l.Args[2].Int.Int64(); i++ {
		r = Snoc(r, Select(l.Args[0], Add(l.Args[1], IntT(i))))
	}
	return r
}

// setAlias records the backing window of a string-list map entry.
func (x *Exec) setAlias(st *State, m, k, ref, lo, hi *Term) {
	for i, n := range []string{"CR|ref", "CR|lo", "CR|hi"} {
		c := x.comp(st, n, ArrS(SInt, ArrS(SStr, SInt)))
		v := []*Term{ref, lo, hi}[i]
		x.setComp(st, n, Store(c, m, Store(Select(c, m), k, v)))
	}
}

func (x *Exec) mapDelete(st *State, t types.Type, m *Term, k Val, pos token.Pos) {
	x.mapAccess(st, t, true, pos)
	if isMM(t) {
		x.setMM(st, m, Store(x.mm(st, m), k.(*Term), slNil))
		return
	}
	kt := keyTerm(k, t)
	ks := keySort(t)
	dn := "D|" + mapKey(t)
	d := x.comp(st, dn, ArrS(SInt, ArrS(ks, SBool)))
	x.setComp(st, dn, Store(d, m, Store(Select(d, m), kt, tFalse)))
	for _, l := range leaves(t.Underlying().(*types.Map).Elem()) {
		vn := "V|" + mapKey(t) + "|" + l.Path
		c := x.comp(st, vn, ArrS(SInt, ArrS(ks, l.Sort)))
		x.setComp(st, vn, Store(c, m, Store(Select(c, m), kt, zeroLeaf(l))))
	}
}

func (x *Exec) makeSlice(st *State, t types.Type, n, c *Term, pos token.Pos) Val {
	x.oblige(st, "safety", "makeslice length in range", x.pos(pos), And(Le(IntT(0), n), Le(n, c)))
	elem := t.Underlying().(*types.Slice).Elem()
	r := x.alloc(st)
	if isByte(elem) {
		x.setComp(st, "M|byte|", Store(x.comp(st, "M|byte|", fSort(SStr)), r, zeros(c)))
		if c.Op != "int" {
			st.assume(Eq(StrLen(zeros(c)), c))
		}
		return &SliceV{r, IntT(0), n, c, elem}
	}
	for _, l := range leaves(elem) {
		name := "M|" + typeKey(elem) + "|" + l.Path
		x.setComp(st, name, Store(x.comp(st, name, mSort(l.Sort)), r, ConstArr(ArrS(SInt, l.Sort), zeroLeaf(l))))
	}
	return &SliceV{r, IntT(0), n, c, elem}
}

func (x *Exec) indexAddr(st *State, v Val, i *Term, in *ssa.IndexAddr) Val {
	switch s := v.(type) {
	case *SliceV:
		x.oblige(st, "safety", "index in range", x.pos(in.Pos()), And(Le(IntT(0), i), Lt(i, s.Len)))
		return &Ptr{Root: "M|" + typeKey(s.Elem), Ref: s.Ref, Idx: Add(s.Off, i), T: s.Elem}
	case *Ptr:
		a := s.T.Underlying().(*types.Array)
		x.oblige(st, "safety", "index in range", x.pos(in.Pos()), And(Le(IntT(0), i), Lt(i, IntT(a.Len()))))
		return arrElem(s, i)
	}
	panic(unsupported{fmt.Sprintf("index of %T", v)})
}

func (x *Exec) slice(fr *Frame, st *State, in *ssa.Slice) Val {
	v := x.value(fr, st, in.X)
	opt := func(e ssa.Value, d *Term) *Term {
		if e == nil {
			return d
		}
		return x.value(fr, st, e).(*Term)
	}
	lo := opt(in.Low, IntT(0))
	check := func(g *Term) { x.oblige(st, "safety", "slice bounds in range", x.pos(in.Pos()), g) }
	switch s := v.(type) {
	case *Term:
		hi := opt(in.High, StrLen(s))
		check(And(Le(IntT(0), lo), Le(lo, hi), Le(hi, StrLen(s))))
		return StrSub(s, lo, Sub(hi, lo))
	case *SliceV:
		hi := opt(in.High, s.Len)
		max := opt(in.Max, s.Cap)
		check(And(Le(IntT(0), lo), Le(lo, hi), Le(hi, max), Le(max, s.Cap)))
		return &SliceV{s.Ref, Add(s.Off, lo), Sub(hi, lo), Sub(max, lo), s.Elem}
	case *Ptr:
		if !s.Arr {
			panic(unsupported{"slice of an array inside a value"})
		}
		a := s.T.Underlying().(*types.Array)
		hi := opt(in.High, IntT(a.Len()))
		max := opt(in.Max, IntT(a.Len()))
		check(And(Le(IntT(0), lo), Le(lo, hi), Le(hi, max), Le(max, IntT(a.Len()))))
		return &SliceV{s.Ref, lo, Sub(hi, lo), Sub(max, lo), a.Elem()}
	}
	panic(unsupported{fmt.Sprintf("slice of %T", v)})
}

// IterV is a map iteration.
type IterV struct {
	T    types.Type
	M    *Term
	Dom0 *Term
	Name string
	CC   *Term // content of a string-list map at start
}

// mmDom is the domain of a string-list map content (keys with values).
func mmDom(c *Term) *Term { return App("mmdom", ArrS(SStr, SBool), c) }

func (x *Exec) rangeStart(st *State, t types.Type, v Val) Val {
	m, ok := v.(*Term)
	if _, isMap := t.Underlying().(*types.Map); !ok || !isMap {
		panic(unsupported{"range over " + t.String()})
	}
	x.iterID++
	it := &IterV{T: t, M: m, Name: fmt.Sprintf("IT|%d", x.iterID)}
	x.mapAccess(st, t, false, token.NoPos)
	ks := keySort(t)
	if isMM(t) {
		it.CC = x.mm(st, m)
		it.Dom0 = mmDom(it.CC)
	} else {
		it.Dom0 = x.mapDom(st, t, m)
	}
	if _, ok := allocInfo(m); !ok {
		st.assume(Implies(Eq(m, IntT(0)), Eq(it.Dom0, ConstArr(ArrS(ks, SBool), tFalse))))
	}
	st.heap[it.Name] = ConstArr(ArrS(ks, SBool), tFalse)
	return it
}

func (x *Exec) rangeNext(st *State, in *ssa.Next, v Val, k func(*State, Val)) {
	it, ok := v.(*IterV)
	if !ok {
		panic(unsupported{"string iteration"})
	}
	ks := keySort(it.T)
	mt := it.T.Underlying().(*types.Map)
	vis := x.comp(st, it.Name, ArrS(ks, SBool))
	var dom *Term
	if it.CC != nil {
		dom = mmDom(x.mm(st, it.M))
	} else {
		dom = x.mapDom(st, it.T, it.M)
	}
	x.mapAccess(st, it.T, false, in.Pos())
	// finished
	st2 := st.clone()
	if dom == it.Dom0 {
		st2.assume(Eq(vis, dom))
		st2.heap[it.Name] = dom
	} else {
		b := BVar("k", ks)
		st2.assume(Forall([]*Term{b}, Implies(And(Select(dom, b), Select(it.Dom0, b)), Select(vis, b)), []*Term{Select(dom, b)}))
	}
	st2.trace = append(st2.trace, x.pos(in.Pos())+" end of range")
	if !st2.dead {
		k(st2, TupleV{tFalse, zeroVal(mt.Key()), zeroVal(mt.Elem())})
	}
	// another entry
	key := Fresh("key", ks)
	kv := fromLeaves(mt.Key(), []*Term{key})
	st.assume(Select(dom, key))
	st.assume(Not(Select(vis, key)))
	var ev Val
	if it.CC != nil {
		ev = x.mmView(st, Select(x.mm(st, it.M), key), mt.Elem().Underlying().(*types.Slice).Elem())
	} else {
		ev, _ = x.mapGet(st, it.T, it.M, key)
	}
	st.heap[it.Name] = Store(vis, key, tTrue)
	st.trace = append(st.trace, x.pos(in.Pos())+" next entry")
	if !st.dead {
		k(st, TupleV{tTrue, kv, ev})
	}
}

// sizes are the lengths of strings, slices of sized elements and maps: what they
// count is in memory, so they stay below 2^48.
var sizes = map[int]bool{}

var stdSizes = types.SizesFor("gc", "amd64")

func (x *Exec) builtin(fr *Frame, st *State, b *ssa.Builtin, c *ssa.CallCommon, args []Val, pos token.Pos, k Cont) {
	ret := func(vs ...Val) { k(st, Outcome{Rets: vs}) }
	switch b.Name() {
	case "len":
		switch v := args[0].(type) {
		case *SliceV:
			if stdSizes.Sizeof(v.Elem) > 0 {
				sizes[v.Len.id] = true
			}
			ret(v.Len)
		case *Term:
			t := c.Args[0].Type()
			if _, ok := t.Underlying().(*types.Map); ok {
				x.mapAccess(st, t, false, pos)
				var n *Term
				if isMM(t) {
					n = App("card", SInt, mmDom(x.mm(st, v)))
				} else {
					n = App("card", SInt, x.mapDom(st, t, v))
				}
				st.assume(Le(IntT(0), n))
				sizes[n.id] = true
				ret(n)
				return
			}
			n := StrLen(v)
			sizes[n.id] = true
			if n.Op != "int" {
				st.assume(Le(IntT(0), n))
			}
			ret(n)
		case *Ptr:
			ret(IntT(v.T.Underlying().(*types.Array).Len()))
		case *StructV:
			ret(IntT(int64(len(v.F))))
		default:
			panic(unsupported{"len"})
		}
	case "cap":
		ret(args[0].(*SliceV).Cap)
	case "append":
		ret(x.appendV(st, args[0].(*SliceV), args[1], c.Args[0].Type()))
	case "copy":
		d := args[0].(*SliceV)
		if !isByte(d.Elem) {
			x.copyElems(st, d, args[1].(*SliceV))
			n := Ite(Le(args[1].(*SliceV).Len, d.Len), args[1].(*SliceV).Len, d.Len)
			ret(n)
			return
		}
		var src *Term
		var sl *Term
		if s, ok := args[1].(*SliceV); ok {
			src, sl = x.bytesOf(st, s), s.Len
		} else {
			src = args[1].(*Term)
			sl = StrLen(src)
		}
		n := Ite(Le(sl, d.Len), sl, d.Len)
		m := x.comp(st, "M|byte|", fSort(SStr))
		old := Select(m, d.Ref)
		end := Add(d.Off, n)
		nc := StrCat(StrSub(old, IntT(0), d.Off), StrCat(StrSub(src, IntT(0), n), StrSub(old, end, Sub(StrLen(old), end))))
		if d.Off.Op == "int" && d.Off.Int.Sign() == 0 {
			nc = StrCat(StrSub(src, IntT(0), n), StrSub(old, end, Sub(StrLen(old), end)))
		}
		x.setComp(st, "M|byte|", Store(m, d.Ref, nc))
		ret(n)
	case "delete":
		x.mapDelete(st, c.Args[0].Type(), args[0].(*Term), args[1], pos)
		ret()
	case "recover":
		if st.panic != nil {
			p := st.panic
			st.panic = nil
			ret(p.Val)
			return
		}
		ret(zeroVal(types.NewInterfaceType(nil, nil)))
	case "print", "println":
		ret()
	case "ssa:wrapnilchk":
		x.nonNil(st, args[0].(*Ptr), pos)
		ret(args[0])
	default:
		panic(unsupported{"builtin " + b.Name()})
	}
}

func (x *Exec) copyElems(st *State, d, s *SliceV) {
	n := Ite(Le(s.Len, d.Len), s.Len, d.Len)
	for _, l := range leaves(d.Elem) {
		name := "M|" + typeKey(d.Elem) + "|" + l.Path
		m := x.comp(st, name, mSort(l.Sort))
		old, src := Select(m, d.Ref), Select(m, s.Ref)
		nw := Fresh("copied", ArrS(SInt, l.Sort))
		j := BVar("j", SInt)
		st.assume(Forall([]*Term{j}, Eq(Select(nw, j), Ite(And(Le(d.Off, j), Lt(j, Add(d.Off, n))), Select(src, Add(s.Off, Sub(j, d.Off))), Select(old, j))), []*Term{Select(nw, j)}))
		if l.Sort == SStr {
			st.assume(Eq(Strs(nw, d.Off, n), Strs(src, s.Off, n)))
		}
		for _, c := range st.captured {
			if !distinctTerms(c, d.Ref) {
				panic(unsupported{"write to slice memory captured by a header or values map"})
			}
		}
		x.setComp(st, name, Store(m, d.Ref, nw))
	}
}

// appendV models append.
func (x *Exec) appendV(st *State, s *SliceV, arg Val, t types.Type) Val {
	elem := t.Underlying().(*types.Slice).Elem()
	if isByte(elem) {
		var add *Term
		if a, ok := arg.(*SliceV); ok {
			add = x.bytesOf(st, a)
		} else {
			add = arg.(*Term)
		}
		x.appendInPlace(st, s)
		return x.newBytes(st, StrCat(x.bytesOf(st, s), add), elem)
	}
	a := arg.(*SliceV)
	if a.Len.Op == "int" && a.Len.Int.Sign() == 0 {
		return s
	}
	x.appendInPlace(st, s)
	r := x.alloc(st)
	n := Add(s.Len, a.Len)
	for _, l := range leaves(elem) {
		name := "M|" + typeKey(elem) + "|" + l.Path
		m := x.comp(st, name, mSort(l.Sort))
		oldArr, srcArr := Select(m, s.Ref), Select(m, a.Ref)
		var arr *Term
		zeroOff := s.Off.Op == "int" && s.Off.Int.Sign() == 0
		litAdd := a.Len.Op == "int" && a.Len.Int.Int64() <= 16
		if s.Len.Op == "int" && s.Len.Int.Sign() == 0 {
			zeroOff = true
			oldArr = ConstArr(ArrS(SInt, l.Sort), zeroLeaf(l))
		}
		if zeroOff && litAdd {
			arr = oldArr
			for i := int64(0); i < a.Len.Int.Int64(); i++ {
				arr = Store(arr, Add(s.Len, IntT(i)), Select(srcArr, Add(a.Off, IntT(i))))
			}
			if l.Sort == SStr && s.Len.Op != "int" {
				lst := Strs(oldArr, IntT(0), s.Len)
				for i := int64(0); i < a.Len.Int.Int64(); i++ {
					lst = Snoc(lst, Select(srcArr, Add(a.Off, IntT(i))))
				}
				whole := Strs(arr, IntT(0), n)
				st.assume(Eq(whole, lst))
				st.setSub(whole, lst)
			}
		} else {
			arr = Fresh("appended", ArrS(SInt, l.Sort))
			j := BVar("j", SInt)
			st.assume(Forall([]*Term{j}, Implies(And(Le(IntT(0), j), Lt(j, s.Len)), Eq(Select(arr, j), Select(oldArr, Add(s.Off, j)))), []*Term{Select(arr, j)}))
			st.assume(Forall([]*Term{j}, Implies(And(Le(s.Len, j), Lt(j, n)), Eq(Select(arr, j), Select(srcArr, Add(a.Off, Sub(j, s.Len))))), []*Term{Select(arr, j)}))
			if l.Sort == SStr {
				whole, cat := Strs(arr, IntT(0), n), App("slcat", SSL, Strs(oldArr, s.Off, s.Len), Strs(srcArr, a.Off, a.Len))
				st.assume(Eq(whole, cat))
				st.setSub(whole, cat)
			}
		}
		x.setComp(st, name, Store(x.comp(st, name, mSort(l.Sort)), r, arr))
	}
	return &SliceV{r, IntT(0), n, App("appcap", SInt, n), elem}
}

// appendInPlace handles appends that may write into spare capacity of memory
// this function did not allocate.
func (x *Exec) appendInPlace(st *State, s *SliceV) {
	if s.Ref.Op == "int" {
		return
	}
	if _, ok := allocInfo(s.Ref); ok {
		return
	}
	if s.Len == s.Cap {
		return
	}
	x.oblige(st, "safety-append", "append target has no spare capacity or is owned", "", Or(Eq(s.Ref, IntT(0)), Eq(s.Len, s.Cap), Lt(x.wm0, s.Ref)))
}

// callUnknown calls a function value that is not known statically.
func (x *Exec) callUnknown(st *State, c *ssa.CallCommon, f *Term, args []Val, pos token.Pos, k Cont) {
	x.oblige(st, "safety", "call of nil function", x.pos(pos), Not(Eq(f, IntT(0))))
	// a callback: recorded in the ghost call log, assumed not to touch modelled state
	cnt := x.comp(st, "S|h.callbacks", SInt)
	st.heap["S|h.callbacks"] = Add(cnt, IntT(1))
	st.heap["S|h.callback"] = f
	x.calledBack(st, args)
	for i, a := range args {
		if p, ok := a.(*Ptr); ok {
			st.heap[fmt.Sprintf("S|h.cbarg%d", i)] = ptrTerm(p)
		}
	}
	x.U.assume("callbacks do not modify state the caller relies on")
	k(st, Outcome{Rets: unpack(x.freshVal(st, c.Signature().Results(), "cb"))})
}

func unpack(v Val) []Val {
	if t, ok := v.(TupleV); ok {
		return t
	}
	return []Val{v}
}
