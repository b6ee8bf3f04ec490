package main

// Contracts assumed for the standard library.

import (
	"go/token"
	"go/types"
	"net/http"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// CallCtx is a call of a modelled function.
type CallCtx struct {
	X    *Exec
	Fr   *Frame
	St   *State
	Args []Val
	Fn   *ssa.Function
	Pos  token.Pos
	K    Cont
	Name string
	Sig  *types.Signature
}

type modelFn func(c *CallCtx)

var models = map[string]modelFn{}

func (c *CallCtx) ret(vs ...Val) { c.K(c.St, Outcome{Rets: vs}) }

func (c *CallCtx) str(i int) *Term {
	switch v := c.Args[i].(type) {
	case *Term:
		return v
	}
	panic(unsupported{"argument of " + c.Name})
}

func (c *CallCtx) slice(i int) *SliceV {
	v, ok := c.Args[i].(*SliceV)
	if !ok {
		panic(unsupported{"argument of " + c.Name})
	}
	return v
}

// ptr returns a pointer argument after a nil check.
func (c *CallCtx) ptr(i int) *Ptr {
	v, ok := c.Args[i].(*Ptr)
	if !ok {
		panic(unsupported{"argument of " + c.Name})
	}
	c.X.nonNil(c.St, v, c.Pos)
	return v
}

func (c *CallCtx) iface(i int) *IfaceV {
	v, ok := c.Args[i].(*IfaceV)
	if !ok {
		panic(unsupported{"argument of " + c.Name})
	}
	return v
}

// results is the result tuple of the called function.
func (c *CallCtx) results() *types.Tuple {
	if c.Sig != nil {
		return c.Sig.Results()
	}
	return c.Fn.Signature.Results()
}

func (c *CallCtx) resType(i int) types.Type { return c.results().At(i).Type() }

// fork continues on both outcomes of a condition.
func (c *CallCtx) fork(cond *Term, yes, no func(c *CallCtx)) {
	cond = c.St.simp(cond)
	if cond.Op == "true" {
		yes(c)
		return
	}
	if cond.Op == "false" {
		no(c)
		return
	}
	c2 := *c
	c2.St = c.St.clone()
	c2.Fr = c.Fr.clone()
	c.St.assume(cond)
	if !c.St.dead {
		yes(c)
	}
	c2.St.assume(Not(cond))
	if !c2.St.dead {
		no(&c2)
	}
}

var nilIface = &IfaceV{Tag: IntT(0), Ref: IntT(0)}

// newErr makes a library error value with the given text.
func (x *Exec) newErr(st *State, text *Term) *IfaceV {
	r := x.alloc(st)
	x.setComp(st, "ERR|text", Store(x.comp(st, "ERR|text", fSort(SStr)), r, text))
	return &IfaceV{Tag: libTag("*errors.errorString"), Ref: r}
}

func (x *Exec) freshErr(st *State) *IfaceV { return x.newErr(st, Fresh("errtext", SStr)) }

func errText(x *Exec, st *State, v *IfaceV) *Term {
	return Select(x.comp(st, "ERR|text", fSort(SStr)), v.Ref)
}

// ghost scalar counters
func (x *Exec) ghost(st *State, name string) *Term { return x.comp(st, "S|"+name, SInt) }

func (x *Exec) setGhost(st *State, name string, t *Term) { st.heap["S|"+name] = t }

// per-object ghost fields
func (x *Exec) gf(st *State, name string, s Sort, ref *Term) *Term {
	return Select(x.comp(st, name, fSort(s)), ref)
}

func (x *Exec) setGf(st *State, name string, s Sort, ref, v *Term) {
	x.setComp(st, name, Store(x.comp(st, name, fSort(s)), ref, v))
}

// newMM allocates a string-list map with the given content.
func (x *Exec) newMM(st *State, content *Term) *Term {
	r := x.alloc(st)
	x.setMM(st, r, content)
	return r
}

// listSlice materialises a list as a new slice.
func (x *Exec) listSlice(st *State, l *Term, elem types.Type) *SliceV {
	n := UF("sllen", l)
	if n.Op != "int" {
		st.assume(Le(IntT(0), n))
	}
	arr := UF("slarr", l)
	s := x.newStrs(st, arr, n, elem)
	st.assume(Eq(mk("app:strs", SSL, "", arr, IntT(0), n), l))
	return s
}

// reqField points to a field of an object.
func fieldPtr(p *Ptr, name string) *Ptr {
	st := p.T.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			q := *p
			q.Path += "." + name
			q.T = st.Field(i).Type()
			return &q
		}
	}
	panic(unsupported{"no field " + name})
}

func (x *Exec) field(st *State, p *Ptr, name string) Val { return x.load(st, fieldPtr(p, name)) }

func canon(k *Term) *Term { return UF("canon", k) }

func init() {
	rewriters["canon"] = func(a []*Term) *Term {
		if a[0].Op == "str" {
			return StrT(http.CanonicalHeaderKey(a[0].Name))
		}
		if a[0].Op == "app:canon" {
			return a[0]
		}
		return nil
	}
	pure := func(name, uf string, n int) {
		models[name] = func(c *CallCtx) {
			var as []*Term
			for i := 0; i < n; i++ {
				as = append(as, c.str(i))
			}
			c.ret(UF(uf, as...))
		}
	}
	strop := func(name, op string, s Sort, swap bool) {
		models[name] = func(c *CallCtx) {
			a, b := c.str(0), c.str(1)
			if swap {
				a, b = b, a
			}
			c.ret(StrOp(op, s, a, b))
		}
	}
	pure("strings.TrimSpace", "trim", 1)
	pure("strings.EqualFold", "equalfold", 2)
	pure("strings.ToLower", "lower", 1)
	pure("strings.ToUpper", "upper", 1)
	pure("net/url.QueryEscape", "quesc", 1)
	pure("net/http.CanonicalHeaderKey", "canon", 1)
	pure("strconv.Itoa", "itoa", 1)
	pure("strconv.Quote", "quote", 1)
	strop("strings.Contains", "str.contains", SBool, false)
	strop("strings.HasPrefix", "str.prefixof", SBool, true)
	strop("strings.HasSuffix", "str.suffixof", SBool, true)
	models["strings.ContainsRune"] = func(c *CallCtx) { c.ret(StrOp("str.contains", SBool, c.str(0), runeStr(c.str(1)))) }
	models["strings.ContainsAny"] = func(c *CallCtx) {
		t := c.str(1)
		if t.Op != "str" || !isASCII(t.Name) {
			panic(unsupported{"strings.ContainsAny with unknown set"})
		}
		r := tFalse
		for i := 0; i < len(t.Name); i++ {
			r = Or(r, StrOp("str.contains", SBool, c.str(0), StrT(t.Name[i:i+1])))
		}
		c.ret(r)
	}
	models["strconv.FormatInt"] = func(c *CallCtx) {
		if b := c.str(1); b.Op != "int" || b.Int.Int64() != 10 {
			panic(unsupported{"strconv.FormatInt base"})
		}
		c.ret(UF("itoa", c.str(0)))
	}
	models["strings.Split"] = func(c *CallCtx) {
		l := UF("split", c.str(0), c.str(1))
		s := c.X.listSlice(c.St, l, types.Typ[types.String])
		if c.str(1).Op == "str" && c.str(1).Name != "" {
			c.St.assume(Le(IntT(1), s.Len))
		}
		c.ret(s)
	}
	models["strings.Fields"] = func(c *CallCtx) {
		c.ret(c.X.listSlice(c.St, UF("fields", c.str(0)), types.Typ[types.String]))
	}
	models["strings.Join"] = func(c *CallCtx) { c.ret(UF("join", c.X.strsOf(c.St, c.slice(0)), c.str(1))) }
	idx := func(uf string, char bool) modelFn {
		return func(c *CallCtx) {
			s, sep := c.str(0), c.str(1)
			if char {
				sep = runeStr(sep)
			}
			if uf == "index" {
				i := StrOp("str.indexof", SInt, s, sep, IntT(0))
				c.St.assume(Le(IntT(-1), i))
				found := StrOp("str.contains", SBool, s, sep)
				c.St.assume(Eq(Le(IntT(0), i), found))
				c.X.cutFacts(c.St, s, sep, i, found)
				c.ret(i)
				return
			}
			i := UF(uf, s, sep)
			c.St.assume(Le(IntT(-1), i))
			c.St.assume(Lt(i, Add(StrLen(s), Ite(Eq(sep, StrT("")), IntT(1), IntT(0)))))
			c.St.assume(Implies(Le(IntT(0), i), Le(Add(i, StrLen(sep)), StrLen(s))))
			c.St.assume(Eq(Le(IntT(0), i), StrOp("str.contains", SBool, s, sep)))
			c.ret(i)
		}
	}
	models["strings.LastIndexByte"] = idx("lastindex", true)
	models["strings.LastIndex"] = idx("lastindex", false)
	models["strings.IndexByte"] = idx("index", true)
	models["strings.IndexRune"] = idx("index", true)
	models["strings.Index"] = idx("index", false)
	models["strings.Cut"] = func(c *CallCtx) {
		s, sep := c.str(0), c.str(1)
		c.cut(s, sep, func(c *CallCtx, before, after *Term) { c.ret(before, after, tTrue) },
			func(c *CallCtx) { c.ret(s, StrT(""), tFalse) })
	}
	models["strings.SplitN"] = func(c *CallCtx) {
		s, sep, n := c.str(0), c.str(1), c.str(2)
		if n.Op != "int" || !n.Int.IsInt64() || n.Int.Int64() == 0 || n.Int.Int64() > 8 {
			panic(unsupported{"strings.SplitN with this count"})
		}
		if n.Int.Int64() < 0 {
			models["strings.Split"](c)
			return
		}
		var split func(c *CallCtx, l, s *Term, n int64)
		split = func(c *CallCtx, l, s *Term, n int64) {
			last := func(c *CallCtx) { c.ret(c.X.listSlice(c.St, Snoc(l, s), types.Typ[types.String])) }
			if n == 1 {
				last(c)
				return
			}
			c.cut(s, sep, func(c *CallCtx, before, after *Term) { split(c, Snoc(l, before), after, n-1) }, last)
		}
		split(c, slNil, s, n.Int.Int64())
	}
	models["strings.Count"] = func(c *CallCtx) {
		s, sep := c.str(0), c.str(1)
		if sep.Op != "str" || sep.Name == "" {
			panic(unsupported{"strings.Count with this separator"})
		}
		n := UF("sllen", UF("split", s, sep))
		c.St.assume(Le(IntT(1), n))
		c.St.assume(Eq(Le(IntT(2), n), StrOp("str.contains", SBool, s, sep)))
		c.ret(Sub(n, IntT(1)))
	}
	models["strings.Compare"] = func(c *CallCtx) {
		a, b := c.str(0), c.str(1)
		c.ret(Ite(Eq(a, b), IntT(0), Ite(StrOp("str.<", SBool, a, b), IntT(-1), IntT(1))))
	}
	models["strings.CutPrefix"] = func(c *CallCtx) {
		s, p := c.str(0), c.str(1)
		c.fork(StrOp("str.prefixof", SBool, p, s), func(c *CallCtx) { c.ret(StrSub(s, StrLen(p), Sub(StrLen(s), StrLen(p))), tTrue) },
			func(c *CallCtx) { c.ret(s, tFalse) })
	}
	models["strings.CutSuffix"] = func(c *CallCtx) {
		s, p := c.str(0), c.str(1)
		c.fork(StrOp("str.suffixof", SBool, p, s), func(c *CallCtx) { c.ret(StrSub(s, IntT(0), Sub(StrLen(s), StrLen(p))), tTrue) },
			func(c *CallCtx) { c.ret(s, tFalse) })
	}
	models["strings.TrimSuffix"] = func(c *CallCtx) {
		s, p := c.str(0), c.str(1)
		c.ret(Ite(StrOp("str.suffixof", SBool, p, s), StrSub(s, IntT(0), Sub(StrLen(s), StrLen(p))), s))
	}
	models["strings.TrimPrefix"] = func(c *CallCtx) {
		s, p := c.str(0), c.str(1)
		c.ret(Ite(StrOp("str.prefixof", SBool, p, s), StrSub(s, StrLen(p), Sub(StrLen(s), StrLen(p))), s))
	}
	models["strings.NewReader"] = func(c *CallCtx) {
		r := c.X.alloc(c.St)
		c.X.setGf(c.St, "RD|", SStr, r, c.str(0))
		c.ret(mkPtr(c.resType(0).(*types.Pointer).Elem(), r))
	}
	models["bytes.NewReader"] = func(c *CallCtx) {
		r := c.X.alloc(c.St)
		c.X.setGf(c.St, "RD|", SStr, r, c.X.bytesOf(c.St, c.slice(0)))
		c.ret(mkPtr(c.resType(0).(*types.Pointer).Elem(), r))
	}
	models["bytes.NewBufferString"] = models["strings.NewReader"]
	models["bytes.NewBuffer"] = models["bytes.NewReader"]
	models["bytes.Equal"] = func(c *CallCtx) {
		c.ret(Eq(c.X.bytesOf(c.St, c.slice(0)), c.X.bytesOf(c.St, c.slice(1))))
	}
	// strings.Builder
	models["(*strings.Builder).WriteString"] = func(c *CallCtx) {
		p := c.ptr(0)
		r := bufRef(p)
		c.X.setGf(c.St, "SB|", SStr, r, StrCat(c.X.gf(c.St, "SB|", SStr, r), c.str(1)))
		c.ret(StrLen(c.str(1)), nilIface)
	}
	models["(*strings.Builder).WriteByte"] = func(c *CallCtx) {
		r := bufRef(c.ptr(0))
		c.X.setGf(c.St, "SB|", SStr, r, StrCat(c.X.gf(c.St, "SB|", SStr, r), runeStr(c.str(1))))
		c.ret(nilIface)
	}
	models["(*strings.Builder).String"] = func(c *CallCtx) { c.ret(c.X.gf(c.St, "SB|", SStr, bufRef(c.ptr(0)))) }
	// sort
	sortStrings := func(c *CallCtx, s *SliceV) {
		x, st := c.X, c.St
		l := UF("sortedSL", bagOf(x.strsOf(st, s)))
		name := "M|" + typeKey(s.Elem) + "|"
		m := x.comp(st, name, mSort(SStr))
		old := Select(m, s.Ref)
		arr := Fresh("sorted", ArrS(SInt, SStr))
		j := BVar("j", SInt)
		st.assume(Forall([]*Term{j}, Implies(Or(Lt(j, s.Off), Le(Add(s.Off, s.Len), j)), Eq(Select(arr, j), Select(old, j))), []*Term{Select(arr, j)}))
		st.assume(Eq(Strs(arr, s.Off, s.Len), l))
		st.setSub(Strs(arr, s.Off, s.Len), l)
		for _, cp := range st.captured {
			if !distinctTerms(cp, s.Ref) {
				panic(unsupported{"write to slice memory captured by a header or values map"})
			}
		}
		x.setComp(st, name, Store(m, s.Ref, arr))
		c.ret()
	}
	models["sort.Strings"] = func(c *CallCtx) { sortStrings(c, c.slice(0)) }
	// string slices sorted by a function that compares the elements
	sortSlice := func(c *CallCtx) {
		x := c.X
		v := c.iface(0)
		t := types.NewSlice(types.Typ[types.String])
		f, ok := c.Args[1].(*FuncV)
		if !ok || c.St.simp(Eq(v.Tag, tagOf(t))).Op != "true" {
			panic(unsupported{"sorting of something else than strings"})
		}
		s := x.payload(c.St, v, t).(*SliceV)
		arr := Select(x.comp(c.St, "M|"+typeKey(s.Elem)+"|", mSort(SStr)), s.Ref)
		i, j := Fresh("i", SInt), Fresh("j", SInt)
		want := StrOp("str.<", SBool, Select(arr, Add(s.Off, i)), Select(arr, Add(s.Off, j)))
		st := c.St.clone()
		st.assume(And(Le(IntT(0), i), Lt(i, s.Len), Le(IntT(0), j), Lt(j, s.Len)))
		before := map[string]*Term{}
		for k, h := range st.heap {
			before[k] = h
		}
		good, n := true, 0
		x.mute++
		func() {
			defer func() { x.mute-- }()
			x.callFn(c.Fr.clone(), st, f, []Val{i, j}, c.Pos, false, func(st2 *State, o Outcome) {
				n++
				if o.Panic != nil || len(o.Rets) != 1 || o.Rets[0] != Val(want) {
					good = false
				}
				for k, h := range st2.heap {
					if b, ok := before[k]; ok && b != h || !ok && x.base[k] != h {
						good = false
					}
				}
			})
		}()
		if !good || n != 1 {
			panic(unsupported{"sorting by another order"})
		}
		sortStrings(c, s)
	}
	models["sort.Slice"] = sortSlice
	models["sort.SliceStable"] = sortSlice
	// url
	models["net/url.QueryUnescape"] = func(c *CallCtx) {
		s := c.str(0)
		c.fork(UF("quok", s), func(c *CallCtx) { c.ret(UF("unq", s), nilIface) },
			func(c *CallCtx) { c.ret(StrT(""), c.X.freshErr(c.St)) })
	}
	parse := func(okf, prefix string) modelFn {
		return func(c *CallCtx) {
			s := c.str(0)
			ut := c.resType(0).(*types.Pointer).Elem()
			c.fork(UF(okf, s), func(c *CallCtx) {
				c.ret(c.X.newURL(c.St, ut, prefix, s), nilIface)
			}, func(c *CallCtx) { c.ret(zeroVal(c.resType(0)), c.X.freshErr(c.St)) })
		}
	}
	models["net/url.ParseRequestURI"] = parse("uriok", "uri:")
	models["net/url.Parse"] = parse("parseok", "urlp:")
	models["(*net/url.URL).String"] = func(c *CallCtx) {
		c.ret(c.X.urlString(c.St, c.ptr(0)))
	}
	models["(*net/url.URL).Query"] = func(c *CallCtx) {
		q := c.X.field(c.St, c.ptr(0), "RawQuery").(*Term)
		c.ret(c.X.newMM(c.St, UF("parseq", q)))
	}
	rewriters["parseq"] = func(a []*Term) *Term {
		if a[0].Op == "str" && a[0].Name == "" {
			return ConstArr(mmSort, slNil)
		}
		return nil
	}
	models["(net/url.Values).Get"] = func(c *CallCtx) { c.ret(First(Select(c.X.mm(c.St, c.str(0)), c.str(1)))) }
	models["(net/url.Values).Has"] = func(c *CallCtx) {
		c.ret(Not(Eq(Select(c.X.mm(c.St, c.str(0)), c.str(1)), slNil)))
	}
	models["(net/url.Values).Set"] = func(c *CallCtx) { c.mmSet(c.str(1), SLT(c.str(2))) }
	models["(net/url.Values).Add"] = func(c *CallCtx) {
		c.mmSet(c.str(1), Snoc(Select(c.X.mm(c.St, c.str(0)), c.str(1)), c.str(2)))
	}
	models["(net/url.Values).Del"] = func(c *CallCtx) { c.mmSet(c.str(1), slNil) }
	models["(net/url.Values).Encode"] = func(c *CallCtx) { c.ret(UF("enc", c.X.mm(c.St, c.str(0)))) }
	rewriters["enc"] = func(a []*Term) *Term {
		if a[0].Op == "as-const" && isNil(a[0].Args[0]) {
			return StrT("")
		}
		return nil
	}
	models["(net/http.Header).Get"] = func(c *CallCtx) { c.ret(First(Select(c.X.mm(c.St, c.str(0)), canon(c.str(1))))) }
	models["(net/http.Header).Values"] = func(c *CallCtx) {
		c.ret(c.X.mmView(c.St, Select(c.X.mm(c.St, c.str(0)), canon(c.str(1))), types.Typ[types.String]))
	}
	models["(net/http.Header).Set"] = func(c *CallCtx) { c.mmSet(canon(c.str(1)), SLT(c.str(2))) }
	models["(net/http.Header).Add"] = func(c *CallCtx) {
		c.mmSet(canon(c.str(1)), Snoc(Select(c.X.mm(c.St, c.str(0)), canon(c.str(1))), c.str(2)))
	}
	models["(net/http.Header).Del"] = func(c *CallCtx) { c.mmSet(canon(c.str(1)), slNil) }
	// errors, fmt
	models["errors.New"] = func(c *CallCtx) { c.ret(c.X.newErr(c.St, c.str(0))) }
	models["fmt.Errorf"] = func(c *CallCtx) {
		c.ret(c.X.newErr(c.St, c.X.sprintf(c.St, c.str(0), c.slice(1))))
	}
	models["fmt.Sprintf"] = func(c *CallCtx) { c.ret(c.X.sprintf(c.St, c.str(0), c.slice(1))) }
	models["(error).Error"] = func(c *CallCtx) {
		v := c.iface(0)
		c.X.oblige(c.St, "safety", "nil dereference", c.X.pos(c.Pos), Not(Eq(v.Tag, IntT(0))))
		c.ret(App("errtext", SStr, v.Tag, v.Ref, errText(c.X, c.St, v)))
	}
	// io
	readAll := func(c *CallCtx) {
		v := c.iface(0)
		x, st := c.X, c.St
		x.oblige(st, "safety", "nil dereference", x.pos(c.Pos), Not(Eq(v.Tag, IntT(0))))
		content := x.gf(st, "RD|", SStr, v.Ref)
		x.setGf(st, "RD|", SStr, v.Ref, StrT(""))
		if src := x.gf(st, "LR|src", SInt, v.Ref); src.Op != "int" {
			if _, isAlloc := allocInfo(v.Ref); isAlloc {
				x.setGf(st, "RD|", SStr, src, Fresh("rest", SStr))
			}
		}
		c.fork(UF("readok", content), func(c *CallCtx) {
			c.ret(c.X.newBytes(c.St, UF("rdata", content), types.Typ[types.Byte]), nilIface)
		}, func(c *CallCtx) {
			c.ret(c.X.newBytes(c.St, UF("rdata", content), types.Typ[types.Byte]), c.X.freshErr(c.St))
		})
	}
	models["io/ioutil.ReadAll"] = readAll
	models["io.ReadAll"] = readAll
	models["io.LimitReader"] = func(c *CallCtx) {
		v := c.iface(0)
		x, st := c.X, c.St
		r := x.alloc(st)
		x.setGf(st, "RD|", SStr, r, UF("limit", x.gf(st, "RD|", SStr, v.Ref), c.str(1)))
		x.setGf(st, "LR|src", SInt, r, v.Ref)
		c.ret(&IfaceV{Tag: libTag("*io.LimitedReader"), Ref: r})
	}
	closeM := func(c *CallCtx) {
		v := c.iface(0)
		x, st := c.X, c.St
		x.oblige(st, "safety", "nil dereference", x.pos(c.Pos), Not(Eq(v.Tag, IntT(0))))
		x.setGf(st, "CL|", SInt, v.Ref, Add(x.gf(st, "CL|", SInt, v.Ref), IntT(1)))
		c.ret(&IfaceV{Tag: Fresh("closeerr", SInt), Ref: Fresh("closeerr", SInt)})
	}
	models["(io.ReadCloser).Close"] = closeM
	models["(io.Closer).Close"] = closeM
	// crypto
	rd := func(c *CallCtx, s *SliceV, okv Val) {
		x, st := c.X, c.St
		i := x.ghost(st, "rng")
		x.setGhost(st, "rng", Add(i, IntT(1)))
		n := s.Len
		good := App("rngok", SBool, i)
		c.fork(good, func(c *CallCtx) {
			x, st := c.X, c.St
			r := UF("rnd", i, n)
			st.assume(Eq(StrLen(r), n))
			m := x.comp(st, "M|byte|", fSort(SStr))
			old := Select(m, s.Ref)
			end := Add(s.Off, n)
			nc := StrCat(StrSub(old, IntT(0), s.Off), StrCat(r, StrSub(old, end, Sub(StrLen(old), end))))
			if s.Off.Op == "int" && s.Off.Int.Sign() == 0 && (StrLen(old) == n || st.simp(Eq(StrLen(old), n)).Op == "true") {
				nc = r
			}
			x.setComp(st, "M|byte|", Store(m, s.Ref, nc))
			c.ret(n, nilIface)
		}, func(c *CallCtx) {
			x, st := c.X, c.St
			m := x.comp(st, "M|byte|", fSort(SStr))
			f := Fresh("partial", SStr)
			st.assume(Eq(StrLen(f), StrLen(Select(m, s.Ref))))
			x.setComp(st, "M|byte|", Store(m, s.Ref, f))
			c.ret(Fresh("n", SInt), x.freshErr(st))
		})
	}
	models["io.ReadFull"] = func(c *CallCtx) {
		v := c.iface(0)
		rr := c.X.comp(c.St, "G|crypto/rand.Reader|.ref", SInt)
		rt := c.X.comp(c.St, "G|crypto/rand.Reader|.tag", SInt)
		if v.Ref != rr || v.Tag != rt {
			panic(unsupported{"io.ReadFull from something other than crypto/rand.Reader"})
		}
		rd(c, c.slice(1), nil)
	}
	models["crypto/rand.Read"] = func(c *CallCtx) { rd(c, c.slice(0), nil) }
	models["crypto/hmac.New"] = func(c *CallCtx) {
		f, ok := c.Args[0].(*FuncV)
		if !ok || f.Fn == nil || fnName(f.Fn) != "crypto/sha256.New" {
			panic(unsupported{"hmac with a hash other than SHA-256"})
		}
		x, st := c.X, c.St
		r := x.alloc(st)
		x.setGf(st, "HK|", SStr, r, x.bytesOf(st, c.slice(1)))
		x.setGf(st, "HB|", SStr, r, StrT(""))
		c.ret(&IfaceV{Tag: libTag("*hmac.hmac"), Ref: r})
	}
	hwrite := func(c *CallCtx) {
		v := c.iface(0)
		x, st := c.X, c.St
		if v.Tag != libTag("*hmac.hmac") {
			if v.Tag.Op == "int" || true {
				panic(unsupported{"write to unknown hash"})
			}
		}
		s := c.slice(1)
		x.setGf(st, "HB|", SStr, v.Ref, StrCat(x.gf(st, "HB|", SStr, v.Ref), x.bytesOf(st, s)))
		c.ret(s.Len, nilIface)
	}
	models["(hash.Hash).Write"] = hwrite
	models["(hash.Hash).Sum"] = func(c *CallCtx) {
		v := c.iface(0)
		x, st := c.X, c.St
		h := UF("hmac256", x.gf(st, "HK|", SStr, v.Ref), x.gf(st, "HB|", SStr, v.Ref))
		st.assume(Eq(StrLen(h), IntT(32)))
		s := c.slice(1)
		x.appendInPlace(st, s)
		c.ret(x.newBytes(st, StrCat(x.bytesOf(st, s), h), s.Elem))
	}
	models["(hash.Hash).Reset"] = func(c *CallCtx) {
		c.X.setGf(c.St, "HB|", SStr, c.iface(0).Ref, StrT(""))
		c.ret()
	}
	models["crypto/hmac.Equal"] = models["bytes.Equal"]
	models["crypto/subtle.ConstantTimeCompare"] = func(c *CallCtx) {
		c.ret(Ite(Eq(c.X.bytesOf(c.St, c.slice(0)), c.X.bytesOf(c.St, c.slice(1))), IntT(1), IntT(0)))
	}
	models["(*encoding/base64.Encoding).EncodeToString"] = func(c *CallCtx) {
		c.ret(UF("b64enc", c.ptr(0).Ref, c.X.bytesOf(c.St, c.slice(1))))
	}
	models["(*encoding/base64.Encoding).DecodeString"] = func(c *CallCtx) {
		e, s := c.ptr(0).Ref, c.str(1)
		c.fork(UF("b64ok", e, s), func(c *CallCtx) {
			c.ret(c.X.newBytes(c.St, UF("b64dec", e, s), types.Typ[types.Byte]), nilIface)
		}, func(c *CallCtx) {
			c.ret(c.X.newBytes(c.St, Fresh("partial", SStr), types.Typ[types.Byte]), c.X.freshErr(c.St))
		})
	}
	// mime
	models["mime.ParseMediaType"] = func(c *CallCtx) {
		s := c.str(0)
		c.fork(UF("mediaok", s), func(c *CallCtx) {
			c.ret(UF("mediatype", s), c.X.freshVal(c.St, c.resType(1), "mparams"), nilIface)
		}, func(c *CallCtx) {
			// a malformed parameter still yields the media type
			c.ret(Fresh("mt", SStr), IntT(0), c.X.freshErr(c.St))
		})
	}
	// sync
	lock := func(c *CallCtx) {
		p := c.Args[0].(*Ptr)
		x, st := c.X, c.St
		x.nonNil(st, p, c.Pos)
		n, ref := lockName(p)
		cur := x.gf(st, n, SInt, ref)
		x.oblige(st, "safety", "lock not already held", x.pos(c.Pos), Eq(cur, IntT(0)))
		x.setGf(st, n, SInt, ref, IntT(1))
		x.setGhost(st, "locks", Add(x.ghost(st, "locks"), IntT(1)))
		c.ret()
	}
	unlock := func(c *CallCtx) {
		p := c.Args[0].(*Ptr)
		x, st := c.X, c.St
		x.nonNil(st, p, c.Pos)
		n, ref := lockName(p)
		cur := x.gf(st, n, SInt, ref)
		x.oblige(st, "safety", "unlock of a held lock", x.pos(c.Pos), Eq(cur, IntT(1)))
		x.setGf(st, n, SInt, ref, IntT(0))
		c.ret()
	}
	models["(*sync.Mutex).Lock"] = lock
	models["(*sync.Mutex).Unlock"] = unlock
	models["(*sync.RWMutex).Lock"] = lock
	models["(*sync.RWMutex).Unlock"] = unlock
	models["(*sync.RWMutex).RLock"] = func(c *CallCtx) {
		p := c.Args[0].(*Ptr)
		x, st := c.X, c.St
		x.nonNil(st, p, c.Pos)
		n, ref := lockName(p)
		x.oblige(st, "safety", "lock not already held", x.pos(c.Pos), Eq(x.gf(st, n, SInt, ref), IntT(0)))
		x.setGf(st, n, SInt, ref, IntT(2))
		x.setGhost(st, "locks", Add(x.ghost(st, "locks"), IntT(1)))
		c.ret()
	}
	models["(*sync.RWMutex).RUnlock"] = func(c *CallCtx) {
		p := c.Args[0].(*Ptr)
		x, st := c.X, c.St
		x.nonNil(st, p, c.Pos)
		n, ref := lockName(p)
		x.oblige(st, "safety", "unlock of a held lock", x.pos(c.Pos), Eq(x.gf(st, n, SInt, ref), IntT(2)))
		x.setGf(st, n, SInt, ref, IntT(0))
		c.ret()
	}
	// time (values are nanoseconds since the Unix epoch)
	now := func(x *Exec, st *State) *Term {
		cur := x.ghost(st, "clock")
		n := Fresh("now", SInt)
		st.assume(Le(cur, n))
		x.setGhost(st, "clock", n)
		return n
	}
	models["time.Now"] = func(c *CallCtx) { c.ret(now(c.X, c.St)) }
	models["time.Since"] = func(c *CallCtx) { c.ret(Sub(now(c.X, c.St), c.str(0))) }
	models["time.Until"] = func(c *CallCtx) { c.ret(Sub(c.str(0), now(c.X, c.St))) }
	models["(time.Time).Add"] = func(c *CallCtx) { c.ret(Add(c.str(0), c.str(1))) }
	models["(time.Time).Sub"] = func(c *CallCtx) { c.ret(Sub(c.str(0), c.str(1))) }
	models["(time.Time).Before"] = func(c *CallCtx) { c.ret(Lt(c.str(0), c.str(1))) }
	models["(time.Time).After"] = func(c *CallCtx) { c.ret(Lt(c.str(1), c.str(0))) }
	models["(time.Time).Equal"] = func(c *CallCtx) { c.ret(Eq(c.str(0), c.str(1))) }
	models["(time.Time).Compare"] = func(c *CallCtx) {
		c.ret(Ite(Lt(c.str(0), c.str(1)), IntT(-1), Ite(Eq(c.str(0), c.str(1)), IntT(0), IntT(1))))
	}
	models["(time.Time).IsZero"] = func(c *CallCtx) { c.ret(Eq(c.str(0), zeroTimeT)) }
	models["(time.Time).Unix"] = func(c *CallCtx) { c.ret(mk("div", SInt, "", c.str(0), IntT(1000000000))) }
	models["(time.Time).UnixNano"] = func(c *CallCtx) { c.ret(c.str(0)) }
	id := func(c *CallCtx) { c.ret(c.Args[0]) }
	models["(time.Time).UTC"] = id
	models["(time.Time).Local"] = id
	models["(time.Duration).Seconds"] = func(c *CallCtx) { c.ret(App("secs", SReal, c.str(0))) }
	models["(time.Duration).Milliseconds"] = func(c *CallCtx) { c.ret(quoT(c.str(0), IntT(1000000))) }
	models["(time.Duration).Minutes"] = func(c *CallCtx) { c.ret(App("mins", SReal, c.str(0))) }
	rewriters["ftoi"] = func(a []*Term) *Term {
		switch a[0].Op {
		case "app:secs":
			return quoT(a[0].Args[0], IntT(1000000000))
		case "app:mins":
			return quoT(a[0].Args[0], IntT(60000000000))
		case "app:itof":
			return a[0].Args[0]
		}
		return nil
	}
	models["(time.Duration).Round"] = func(c *CallCtx) { c.ret(App("dround", SInt, c.str(0), c.str(1))) }
	models["(time.Duration).Truncate"] = func(c *CallCtx) {
		m := c.str(1)
		if m.Op != "int" || m.Int.Sign() <= 0 {
			panic(unsupported{"duration truncation"})
		}
		c.ret(Mul(quoT(c.str(0), m), m))
	}
	models["math.Ceil"] = func(c *CallCtx) { c.ret(App("ceil", SReal, c.str(0))) }
	models["math.Round"] = func(c *CallCtx) { c.ret(App("round", SReal, c.str(0))) }
	models["math.Floor"] = func(c *CallCtx) { c.ret(App("floor", SReal, c.str(0))) }

	// basic facts about encodings
	x := BVar("x", SStr)
	y := BVar("y", SStr)
	e := BVar("e", SInt)
	mm := BVar("mm", mmSort)
	addAxiom("unq-quesc", []string{"app:quesc"}, Forall([]*Term{x}, And(UF("quok", UF("quesc", x)), Eq(UF("unq", UF("quesc", x)), x), Eq(Eq(UF("quesc", x), StrT("")), Eq(x, StrT("")))), []*Term{UF("quesc", x)}))
	addAxiom("unq-empty", []string{"app:unq"}, And(Eq(UF("unq", StrT("")), StrT("")), UF("quok", StrT(""))))
	addAxiom("parseq-enc", []string{"app:parseq", "app:enc"}, Forall([]*Term{mm}, Eq(UF("parseq", mk("app:enc", SStr, "", mm)), mm), []*Term{UF("parseq", mk("app:enc", SStr, "", mm))}))
	be := UF("b64enc", e, x)
	addAxiom("b64-inv", []string{"app:b64enc"}, Forall([]*Term{e, x}, And(UF("b64ok", e, be), Eq(UF("b64dec", e, be), x)), []*Term{be}))
	addAxiom("ba-inv", []string{"app:bahdr"}, Forall([]*Term{x, y}, Implies(Not(StrOp("str.contains", SBool, x, StrT(":"))), And(UF("baok", UF("bahdr", x, y)), Eq(UF("bauser", UF("bahdr", x, y)), x), Eq(UF("bapass", UF("bahdr", x, y)), y))), []*Term{UF("bahdr", x, y)}))
	addAxiom("ba-empty", []string{"app:baok"}, Not(UF("baok", StrT(""))))
}

func bufRef(p *Ptr) *Term {
	if p.Path != "" || p.Idx != nil || p.Ref == nil {
		panic(unsupported{"embedded buffer"})
	}
	return p.Ref
}

func runeStr(t *Term) *Term {
	if t.Op == "int" {
		return StrT(string(rune(t.Int.Int64())))
	}
	return StrOp("str.from_code", SStr, t)
}

// cut splits a text at the first separator.
func (c *CallCtx) cut(s, sep *Term, found func(c *CallCtx, before, after *Term), missing func(c *CallCtx)) {
	c.fork(StrOp("str.contains", SBool, s, sep), func(c *CallCtx) {
		i := StrOp("str.indexof", SInt, s, sep, IntT(0))
		before, after := c.X.cutFacts(c.St, s, sep, i, tTrue)
		found(c, before, after)
	}, func(c *CallCtx) {
		if sep.Op == "str" && sep.Name != "" {
			c.St.assume(Eq(UF("split", s, sep), Snoc(slNil, s)))
			c.St.assume(Eq(UF("sllen", UF("split", s, sep)), IntT(1)))
		}
		missing(c)
	})
}

// cutFacts states what the index of the first separator says about the text.
func (x *Exec) cutFacts(st *State, s, sep, i, found *Term) (before, after *Term) {
	end := Add(i, StrLen(sep))
	before, after = StrSub(s, IntT(0), i), StrSub(s, end, Sub(StrLen(s), end))
	st.assume(Implies(found, And(Le(IntT(0), i), Le(end, StrLen(s)), Eq(s, StrCat(before, StrCat(sep, after))))))
	if sep.Op != "str" || sep.Name == "" {
		return before, after
	}
	more := StrOp("str.contains", SBool, after, sep)
	l := UF("split", s, sep)
	st.assume(Implies(found, Not(StrOp("str.contains", SBool, before, sep))))
	st.assume(Implies(Not(found), And(Eq(l, Snoc(slNil, s)), Eq(UF("sllen", l), IntT(1)))))
	two := Snoc(Snoc(slNil, before), after)
	st.assume(Implies(And(found, Not(more)), And(Eq(l, two), Eq(UF("sllen", l), IntT(2)), Eq(Select(UF("slarr", l), IntT(0)), before), Eq(Select(UF("slarr", l), IntT(1)), after))))
	st.assume(Implies(And(found, more), Le(IntT(3), UF("sllen", l))))
	return before, after
}

func lockName(p *Ptr) (string, *Term) {
	ref := p.Ref
	if ref == nil {
		ref = IntT(0)
	}
	if p.Idx != nil {
		panic(unsupported{"lock in a slice"})
	}
	return "LK|" + p.Root + "|" + p.Path, ref
}

// mmSet updates an entry of the map passed as first argument.
func (c *CallCtx) mmSet(k, l *Term) {
	m := c.str(0)
	x, st := c.X, c.St
	if _, ok := allocInfo(m); !ok {
		x.oblige(st, "safety", "assignment to nil map", x.pos(c.Pos), Not(Eq(m, IntT(0))))
	}
	// appending in place to an aliased entry could write through its backing array
	x.mmAliasCheck(st, m, k, l, x.pos(c.Pos))
	x.setMM(st, m, Store(x.mm(st, m), k, l))
	c.ret()
}

func (x *Exec) mmAliasCheck(st *State, m, k, l *Term, pos string) {}

var urlLeaves = []string{".Scheme", ".Opaque", ".User", ".Host", ".Path", ".Fragment", ".RawQuery", ".RawPath", ".RawFragment", ".ForceQuery", ".OmitHost"}

// newURL allocates a parsed URL.
func (x *Exec) newURL(st *State, ut types.Type, prefix string, s *Term) *Ptr {
	p := x.allocObj(st, ut)
	for _, l := range leaves(ut) {
		x.writeLeaf(st, p, l, App(prefix+l.Path, l.Sort, s))
	}
	return p
}

// urlString renders a URL from its fields.
func (x *Exec) urlString(st *State, p *Ptr) *Term {
	var as []*Term
	for _, l := range leaves(p.T) {
		as = append(as, x.readLeaf(st, p, l))
	}
	return UF("urlstr", as...)
}

// sprintf renders a literal format.
func (x *Exec) sprintf(st *State, f *Term, args *SliceV) *Term {
	if f.Op != "str" {
		if args.Len.Op == "int" && args.Len.Int.Sign() == 0 {
			return App("sprintf0", SStr, f)
		}
		panic(unsupported{"non-literal format"})
	}
	out := StrT("")
	n := 0
	s := f.Name
	for {
		i := strings.IndexByte(s, '%')
		if i < 0 {
			return StrCat(out, StrT(s))
		}
		out = StrCat(out, StrT(s[:i]))
		if i+1 >= len(s) {
			panic(unsupported{"format"})
		}
		verb := s[i+1]
		s = s[i+2:]
		if verb == '%' {
			out = StrCat(out, StrT("%"))
			continue
		}
		if args.Len.Op != "int" || int64(n) >= args.Len.Int.Int64() {
			panic(unsupported{"format arguments"})
		}
		v := x.load(st, &Ptr{Root: "M|" + typeKey(args.Elem), Ref: args.Ref, Idx: Add(args.Off, IntT(int64(n))), T: args.Elem}).(*IfaceV)
		n++
		out = StrCat(out, x.formatArg(st, verb, v))
	}
}

func (x *Exec) formatArg(st *State, verb byte, v *IfaceV) *Term {
	if v.DynT != nil {
		if b, ok := v.DynT.Underlying().(*types.Basic); ok {
			pl := x.payload(st, v, v.DynT).(*Term)
			_, isNamed := types.Unalias(v.DynT).(*types.Named)
			switch {
			case b.Info()&types.IsString != 0 && !isNamed && (verb == 's' || verb == 'v'):
				return pl
			case b.Info()&types.IsString != 0 && !isNamed && verb == 'q':
				return UF("quote", pl)
			case b.Info()&types.IsInteger != 0 && !isNamed && (verb == 'd' || verb == 'v'):
				return UF("itoa", pl)
			}
			return App("fmt:"+string(verb)+typeKey(v.DynT), SStr, boxSort(pl))
		}
	}
	return App("fmt:"+string(verb), SStr, v.Tag, v.Ref)
}

// access checks that a location of shared state may be touched (set by the
// unit's guard).
func (x *Exec) access(st *State, p *Ptr, write bool, pos token.Pos) {
	if x.U.guard != nil {
		x.U.guard(x, st, p, write, pos)
	}
}

func (x *Exec) mapAccess(st *State, t types.Type, write bool, pos token.Pos) {
	if x.U.mapGuard != nil {
		x.U.mapGuard(x, st, t, write, pos)
	}
}

// whitelisted packages whose functions are pure in their string arguments
var purePkgs = map[string]bool{"strings": true, "strconv": true, "path": true, "unicode": true, "math": true, "net/http": false}

// genericModel treats pure library functions over scalars as uninterpreted.
func (x *Exec) genericModel(fn *ssa.Function, name string) modelFn {
	if fn.Pkg == nil || !purePkgs[fn.Pkg.Pkg.Path()] || fn.Signature.Recv() != nil {
		return nil
	}
	sig := fn.Signature
	if sig.Variadic() || sig.Results().Len() != 1 {
		return nil
	}
	rb, ok := sig.Results().At(0).Type().Underlying().(*types.Basic)
	if !ok {
		return nil
	}
	rs, _ := basicSort(rb)
	for i := 0; i < sig.Params().Len(); i++ {
		if _, ok := sig.Params().At(i).Type().Underlying().(*types.Basic); !ok {
			return nil
		}
	}
	return func(c *CallCtx) {
		var as []*Term
		for i := range c.Args {
			as = append(as, c.str(i))
		}
		c.ret(App("lib:"+name, rs, as...))
	}
}

// invoke calls an interface method.
func (x *Exec) invoke(fr *Frame, st *State, cc *ssa.CallCommon, recv *IfaceV, args []Val, pos token.Pos, k Cont) {
	tag := st.simp(recv.Tag)
	if tag != recv.Tag {
		n := mkIface(tag, recv.Ref)
		if n.Dyn == nil {
			n.DynT, n.Dyn = recv.DynT, recv.Dyn
		}
		recv = n
	}
	m := cc.Method
	if recv.DynT == nil && tag.Op == "int" {
		if t, ok := tagTypes[tag.Int.Int64()]; ok {
			recv.DynT = t
		}
	}
	if recv.DynT != nil {
		fn := x.V.Prog.LookupMethod(recv.DynT, m.Pkg(), m.Name())
		if fn != nil {
			pl := x.payload(st, recv, recv.DynT)
			x.callFn(fr, st, &FuncV{Fn: fn}, append([]Val{pl}, args...), pos, false, k)
			return
		}
	}
	if tag.Op == "int" && tag.Int.Sign() == 0 {
		x.oblige(st, "safety", "nil dereference", x.pos(pos), tFalse)
		return
	}
	it := cc.Value.Type()
	names := []string{"(" + typeKeyFull(it) + ")." + m.Name()}
	if r := m.Type().(*types.Signature).Recv(); r != nil {
		names = append(names, "("+typeKeyFull(r.Type())+")."+m.Name())
	}
	if tag == libTag("*hmac.hmac") {
		names = append(names, "(hash.Hash)."+m.Name())
	}
	for _, n := range names {
		if mf, ok := models[n]; ok {
			x.U.modelsUsed[n] = true
			mf(&CallCtx{X: x, Fr: fr, St: st, Args: append([]Val{recv}, args...), Pos: pos, K: k, Name: n, Sig: m.Type().(*types.Signature)})
			return
		}
	}
	panic(unsupported{"call of interface method " + names[0]})
}

func typeKeyFull(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Path() })
}
