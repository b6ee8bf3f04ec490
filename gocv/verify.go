package main

// Verification of functions against contracts, and use of contracts by callers.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

var debugLoops = os.Getenv("GOCV_LOOPS") != ""

func dump(name, text string) {
	fmt.Fprintf(os.Stderr, "--- %s\n%s\n", name, text)
}

// Unit is one function being verified.
type Unit struct {
	V                *Verifier
	Name             string
	C                *Contract
	Obs              []*Oblig
	trivial          int
	inlined          map[string]bool
	modelsUsed       map[string]bool
	contractsUsed    map[string]*Contract
	measure          *Term // entry value of the recursion measure
	mutedUnsupported []string
	loops            map[string]bool
	assumptions      map[string]bool
	noContract       map[string]bool // callees to inline although they have a contract
	guard            func(x *Exec, st *State, p *Ptr, write bool, pos token.Pos)
	mapGuard         func(x *Exec, st *State, t types.Type, write bool, pos token.Pos)
	outcomes         int
	panics           int
	execTime         time.Duration
	pre              []*Term // requirement facts
	failure          string
	clauseSeen       map[*Clause]int
	guarded          int
}

func (u *Unit) add(o *Oblig) { u.Obs = append(u.Obs, o) }

func (u *Unit) assume(s string) { u.assumptions[s] = true }

// Verifier holds the program and its contracts.
type Verifier struct {
	Prog    *ssa.Program
	Pkgs    []*packages.Package
	SSA     []*ssa.Package
	Spec    *Spec
	byFn    map[*ssa.Function]*Contract
	fnOf    map[*Contract]*ssa.Function
	loops   map[*ssa.Function]map[*ssa.BasicBlock]*loopInfo
	wonce   map[string]*ssa.Global // write-once globals
	unitCtr int
	missing []string
	absent  []string // unexported functions that no longer exist
}

const rootPath = "github.com/256dpi/oauth2/v2"

// Load type-checks /repo and builds SSA form for it.
func Load(dir, specDir string, overlay map[string][]byte) *Verifier {
	cfg := &packages.Config{Mode: packages.LoadSyntax | packages.NeedModule, Dir: dir, Overlay: overlay,
		Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off", "GOWORK=off")}
	ps, err := packages.Load(cfg, "./...")
	if err != nil {
		fatal("load: %v", err)
	}
	bad := false
	packages.Visit(ps, nil, func(p *packages.Package) {
		if strings.HasPrefix(p.PkgPath, rootPath) {
			for _, e := range p.Errors {
				fmt.Fprintf(os.Stderr, "gocv: %v\n", e)
				bad = true
			}
		}
	})
	if bad {
		fatal("the code does not type-check")
	}
	prog, spkgs := ssautil.Packages(ps, ssa.BuilderMode(0))
	for _, p := range spkgs {
		if p != nil {
			p.Build()
		}
	}
	v := &Verifier{Prog: prog, Pkgs: ps, SSA: spkgs, Spec: ParseSpecs(specDir), byFn: map[*ssa.Function]*Contract{},
		fnOf: map[*Contract]*ssa.Function{}, loops: map[*ssa.Function]map[*ssa.BasicBlock]*loopInfo{}, wonce: map[string]*ssa.Global{}}
	for _, c := range v.Spec.Contracts {
		fn := v.findFn(c.Name)
		if c.Sig != "" && (fn == nil || sigText(fn) != c.Sig) {
			fn = v.findSig(c)
			if fn == nil {
				v.absent = append(v.absent, c.Name)
				continue
			}
		}
		if fn == nil {
			if n := c.Name[strings.LastIndexByte(c.Name, '.')+1:]; n[0] >= 'a' && n[0] <= 'z' {
				// nobody outside can rely on it
				v.absent = append(v.absent, c.Name)
			} else {
				v.missing = append(v.missing, c.Name)
			}
			continue
		}
		v.byFn[fn] = c
		v.fnOf[c] = fn
	}
	v.findWriteOnce()
	return v
}

func (v *Verifier) pkg(path string) *ssa.Package {
	for _, p := range v.SSA {
		if p != nil && p.Pkg.Path() == path {
			return p
		}
	}
	return nil
}

// findFn resolves "Type.Method", "Func" or "oauth2test.Func".
func (v *Verifier) findFn(name string) *ssa.Function {
	p := v.pkg(rootPath)
	parts := strings.Split(name, ".")
	if len(parts) > 1 && parts[0] == "oauth2test" {
		p = v.pkg(rootPath + "/oauth2test")
		parts = parts[1:]
	}
	if p == nil {
		return nil
	}
	if len(parts) == 1 {
		return p.Func(parts[0])
	}
	tn, ok := p.Members[parts[0]].(*ssa.Type)
	if !ok {
		return nil
	}
	t := tn.Type()
	for _, rt := range []types.Type{t, types.NewPointer(t)} {
		ms := v.Prog.MethodSets.MethodSet(rt)
		for i := 0; i < ms.Len(); i++ {
			s := ms.At(i)
			if s.Obj().Name() == parts[1] {
				fn := v.Prog.MethodValue(s)
				if fn != nil && fn.Synthetic == "" {
					return fn
				}
			}
		}
	}
	return nil
}

// findSig finds an unexported function of the contract's package by its type.
func (v *Verifier) findSig(c *Contract) *ssa.Function {
	path := rootPath
	if strings.HasPrefix(c.Name, "oauth2test.") {
		path += "/oauth2test"
	}
	p := v.pkg(path)
	if p == nil {
		return nil
	}
	taken := map[*ssa.Function]bool{}
	for _, o := range v.Spec.Contracts {
		if o != c {
			taken[v.findFn(o.Name)] = true
		}
	}
	for _, n := range sortedKeys(p.Members) {
		if fn, ok := p.Members[n].(*ssa.Function); ok && !token.IsExported(n) && sigText(fn) == c.Sig && !taken[fn] {
			return fn
		}
	}
	return nil
}

// sigText is the type of a function without parameter names.
func sigText(fn *ssa.Function) string {
	strip := func(t *types.Tuple) *types.Tuple {
		var vs []*types.Var
		for i := 0; i < t.Len(); i++ {
			vs = append(vs, types.NewVar(token.NoPos, nil, "", t.At(i).Type()))
		}
		return types.NewTuple(vs...)
	}
	s := fn.Signature
	return types.NewSignatureType(nil, nil, nil, strip(s.Params()), strip(s.Results()), s.Variadic()).String()
}

func (c *Contract) pkg() *types.Package {
	if fn := theV.fnOf[c]; fn != nil && fn.Pkg != nil {
		return fn.Pkg.Pkg
	}
	return nil
}

var theV *Verifier

// typeByName resolves a type name in a contract.
func (v *Verifier) typeByName(name string, c *Contract) types.Type {
	if name == "stringmap" {
		return types.NewMap(types.Typ[types.String], types.Typ[types.String])
	}
	if i := strings.IndexByte(name, '_'); i >= 0 {
		name = name[:i] + "." + name[i+1:]
	}
	if i := strings.IndexByte(name, '.'); i >= 0 {
		for _, p := range v.Prog.AllPackages() {
			if p.Pkg.Name() == name[:i] && (p.Pkg.Path() == "net/http" || p.Pkg.Path() == "net/http/httptest" || p.Pkg.Path() == "net/url") {
				if o := p.Pkg.Scope().Lookup(name[i+1:]); o != nil {
					return o.Type()
				}
			}
		}
		return nil
	}
	for _, path := range []string{rootPath, rootPath + "/oauth2test"} {
		if p := v.pkg(path); p != nil {
			if o, ok := p.Pkg.Scope().Lookup(name).(*types.TypeName); ok {
				return o.Type()
			}
		}
	}
	return nil
}

func constTerm(o *types.Const) *Term {
	switch o.Val().Kind() {
	case constant.String:
		return StrT(constant.StringVal(o.Val()))
	case constant.Bool:
		return BoolT(constant.BoolVal(o.Val()))
	case constant.Int:
		n, _ := constant.Int64Val(o.Val())
		return IntT(n)
	}
	return IntT(0)
}

// findWriteOnce finds package variables that only alias another variable.
func (v *Verifier) findWriteOnce() {
	type use struct {
		stores int
		val    ssa.Value
		bad    bool
	}
	uses := map[*ssa.Global]*use{}
	get := func(g *ssa.Global) *use {
		if uses[g] == nil {
			uses[g] = &use{}
		}
		return uses[g]
	}
	for fn := range ssautil.AllFunctions(v.Prog) {
		if fn.Pkg == nil || !strings.HasPrefix(fn.Pkg.Pkg.Path(), rootPath) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if g, ok := s.Addr.(*ssa.Global); ok {
						u := get(g)
						u.stores++
						u.val = s.Val
						if fn.Name() != "init" {
							u.bad = true
						}
						if g2, ok := s.Val.(*ssa.Global); ok {
							get(g2).bad = true
						}
						continue
					}
				}
				if l, ok := in.(*ssa.UnOp); ok && l.Op == token.MUL {
					continue
				}
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Global); ok {
						get(g).bad = true
					}
				}
			}
		}
	}
	for g, u := range uses {
		if u.bad || u.stores != 1 {
			continue
		}
		if l, ok := u.val.(*ssa.UnOp); ok && l.Op == token.MUL {
			if o, ok := l.X.(*ssa.Global); ok {
				v.wonce[globalName(g)] = o
			}
		}
	}
}

func (v *Verifier) loopsOf(fn *ssa.Function) map[*ssa.BasicBlock]*loopInfo {
	if l, ok := v.loops[fn]; ok {
		return l
	}
	l := findLoops(fn)
	v.loops[fn] = l
	return l
}

func (v *Verifier) contractFor(fn *ssa.Function) *Contract {
	if fn.Synthetic != "" && fn.Object() != nil {
		return nil
	}
	return v.byFn[fn]
}

func (v *Verifier) useContract(ct *Contract, u *Unit) bool {
	if !ct.Extern && u.C.Relies[ct.Name] == nil && (ct.Inline || ct == u.C || u.noContract[ct.Name]) {
		return false
	}
	u.contractsUsed[ct.Name] = ct
	return true
}

// reliesOn reports whether a clause may be used (all, without a selection).
func reliesOn(sel []string, cl *Clause) bool {
	if len(sel) == 0 || len(cl.Props) == 0 {
		return true
	}
	for _, p := range cl.Props {
		if has(sel, p) {
			return true
		}
	}
	return false
}

// target is a modifiable location.
type target struct {
	comp string // component name or prefix ending in "*"
	ref  *Term  // nil: the whole component
}

func matchComp(pat, name string) bool {
	if strings.HasSuffix(pat, "*") {
		return strings.HasPrefix(name, pat[:len(pat)-1])
	}
	return pat == name
}

// targets evaluates a modifies item in the entry state.
func (e *Env) targets(ex *Ex) []target {
	x := e.x
	if ex.Op == "call" {
		switch ex.Name {
		case "writer":
			v := e.eval(ex.Args[0])
			r := refOf(v.V)
			var h *Term
			e.view(func(st *State) { h = x.respHeader(st, r) })
			return []target{{"W|status", r}, {"W|sent", r}, {"W|body", r}, {"W|count", r}, {"C|", h}, {"CR|*", h}}
		case "whead":
			v := e.eval(ex.Args[0])
			r := refOf(v.V)
			var h *Term
			e.view(func(st *State) { h = x.respHeader(st, r) })
			return []target{{"C|", h}, {"CR|*", h}}
		case "form":
			p := e.eval(ex.Args[0]).V.(*Ptr)
			var b *Term
			e.view(func(st *State) { b = x.field(st, p, "Body").(*IfaceV).Ref })
			return []target{{p.Root + "|.PostForm", p.Ref}, {p.Root + "|.Form", p.Ref}, {"RD|", b}}
		case "ghost":
			n := ex.Args[0].Name
			if ex.Args[0].Op == "sel" {
				n = ex.Args[0].Args[0].Name + "." + n
			}
			return []target{{"S|" + n, nil}}
		case "net":
			return []target{{"S|net.*", nil}}
		case "failed":
			r := refOf(e.eval(ex.Args[0]).V)
			return []target{{failedComp, r}}
		case "handled":
			return []target{{"S|h.*", nil}}
		case "rdata":
			r := refOf(e.eval(ex.Args[0]).V)
			return []target{{"RD|", r}}
		case "closes":
			r := refOf(e.eval(ex.Args[0]).V)
			return []target{{"CL|", r}}
		case "lock":
			p := e.eval(ex.Args[0]).V.(*Ptr)
			n, r := lockName(p)
			return []target{{n, r}, {"S|locks", nil}}
		case "entries":
			v := e.eval(ex.Args[0])
			m := v.V.(*Term)
			if isMM(v.T) {
				return []target{{"C|", m}, {"CR|*", m}}
			}
			ks := keySort(v.T)
			x.baseComp("D|"+mapKey(v.T), fSort(ArrS(ks, SBool)))
			for _, l := range leaves(v.T.Underlying().(*types.Map).Elem()) {
				x.baseComp("V|"+mapKey(v.T)+"|"+l.Path, fSort(ArrS(ks, l.Sort)))
			}
			return []target{{"D|" + mapKey(v.T), m}, {"V|" + mapKey(v.T) + "|*", m}}
		case "fields": // every object of a type
			t := e.lookupType(ex.Args[0])
			leaves(t)
			return []target{{"F|" + typeKey(t) + "|." + ex.Args[1].Name + "*", nil}}
		case "object":
			p := e.eval(ex.Args[0]).V.(*Ptr)
			leaves(p.T)
			return []target{{p.Root + "|" + p.Path + "*", p.Ref}}
		case "everything":
			return []target{{"*", nil}}
		}
		e.err(ex, "unknown modifies item %s", ex.Name)
	}
	if ex.Op == "sel" {
		p, ok := e.eval(ex.Args[0]).V.(*Ptr)
		if ok {
			return []target{{p.Root + "|" + p.Path + "." + ex.Name + "*", p.Ref}}
		}
	}
	e.err(ex, "unknown modifies item")
	return nil
}

// bookkeeping components carry no program meaning for callers.
func bookkeeping(name string) bool {
	return strings.HasPrefix(name, "IT|") || strings.HasPrefix(name, "CR|") || strings.HasPrefix(name, "EN|") || strings.HasPrefix(name, "DE|") || strings.HasPrefix(name, "LR|") || strings.HasPrefix(name, "ERR|") ||
		strings.HasPrefix(name, "HM|") || strings.HasPrefix(name, "BUF|") || strings.HasPrefix(name, "SB|")
}

// ----- verification -----

func (v *Verifier) newUnit(c *Contract, noContract map[string]bool) *Unit {
	return &Unit{V: v, Name: c.Name, C: c, inlined: map[string]bool{}, modelsUsed: map[string]bool{}, contractsUsed: map[string]*Contract{},
		loops: map[string]bool{}, assumptions: map[string]bool{}, noContract: noContract}
}

// Run symbolically executes the function and collects its obligations.
func (v *Verifier) Run(c *Contract, noContract map[string]bool) (u *Unit) {
	u = v.newUnit(c, noContract)
	v.unitCtr++
	fn := v.fnOf[c]
	t0 := time.Now()
	x := &Exec{V: v, U: u, base: map[string]*Term{}, bsort: map[string]Sort{}, prefix: fmt.Sprintf("u%d.", v.unitCtr)}
	x.wm0 = newWM()
	st := &State{heap: map[string]*Term{}, pcset: map[int]bool{}, sub: map[int]*Term{}, wm: x.wm0}
	st.assume(Le(IntT(0), x.wm0))
	defer func() {
		u.execTime = time.Since(t0)
		if r := recover(); r != nil {
			switch e := r.(type) {
			case unsupported:
				u.failure = e.what
			case specError:
				u.failure = "specification error: " + e.msg
			default:
				if os.Getenv("GOCV_CRASH") != "" {
					panic(r)
				}
				u.failure = fmt.Sprintf("internal error: %v", r)
			}
			u.add(&Oblig{Unit: u, Kind: "unsupported", Name: u.failure, Goal: tFalse})
		}
	}()
	if len(fn.Params) != len(c.Params) {
		panic(specError{fmt.Sprintf("%s: parameter count", c.Name)})
	}
	vars := map[string]SV{}
	var args []Val
	for i, p := range fn.Params {
		a := x.freshVal(st, p.Type(), "p."+c.Params[i])
		args = append(args, a)
		vars[c.Params[i]] = SV{a, p.Type()}
	}
	e := &Env{x: x, ct: c, vars: vars, cur: st, post: st, pre: st, base: x.wm0}
	for _, r := range c.Requires {
		t := e.Bool(r.E)
		st.assume(t)
		noteDistinctions(t)
	}
	for _, n := range c.Uses {
		th := theorems[n]
		if th == nil {
			panic(specError{"unknown theorem " + n})
		}
		for _, o := range th.obligations(u, c.UsesLab) {
			if o.Goal.Op == "true" {
				u.trivial++
			} else {
				u.add(o)
			}
		}
		st.assume(th.statement())
	}
	for _, l := range c.Lets {
		vars[l.Name] = e.eval(l.E)
	}
	u.pre = st.pc[:len(st.pc):len(st.pc)]
	if st.dead {
		panic(specError{fmt.Sprintf("%s: contradictory precondition", c.Name)})
	}
	var allowed []target
	allowed = append(allowed, e.allTargets(c.Modifies)...)
	caseTargets := make([][]target, len(c.Cases))
	for i, cs := range c.Cases {
		caseTargets[i] = e.allTargets(cs.Modifies)
	}
	x.setGuards(e)
	if c.Decreases != nil {
		u.measure = e.eval(c.Decreases).V.(*Term)
	}
	pre := st.clone()
	fr := &Frame{fn: fn, env: map[ssa.Value]Val{}}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	fr.ret = func(st *State, o Outcome) {
		if st.dead {
			return
		}
		x.paths++
		if o.Panic != nil {
			u.panics++
		} else {
			u.outcomes++
		}
		x.finish(st, pre, o, vars, allowed, caseTargets)
	}
	x.run(fr, st, fn.Blocks[0], 0)
	return u
}

func (e *Env) allTargets(es []*Ex) []target {
	var out []target
	for _, ex := range es {
		out = append(out, e.targets(ex)...)
	}
	return out
}

// noteDistinctions records assumed reference inequalities.
func noteDistinctions(t *Term) {
	switch t.Op {
	case "and":
		for _, a := range t.Args {
			noteDistinctions(a)
		}
	case "not":
		if q := t.Args[0]; q.Op == "=" && q.Args[0].Sort == SInt && !isLit(q.Args[0]) && !isLit(q.Args[1]) {
			noteDistinct(q.Args[0], q.Args[1])
		}
	}
}

// finish emits the postcondition obligations of one outcome.
func (x *Exec) finish(st, pre *State, o Outcome, vars map[string]SV, allowed []target, caseTargets [][]target) {
	c := x.U.C
	fn := x.V.fnOf[c]
	m := map[string]SV{}
	for k, v := range vars {
		m[k] = v
	}
	if o.Panic == nil {
		res := fn.Signature.Results()
		if len(c.Results) != res.Len() {
			panic(specError{c.Name + ": result count"})
		}
		for i, n := range c.Results {
			m[n] = SV{o.Rets[i], res.At(i).Type()}
		}
	}
	mkEnv := func(st *State) *Env {
		return &Env{x: x, ct: c, vars: m, cur: st, post: st, pre: pre, base: x.wm0}
	}
	frame := func(st *State, ts []target) { x.frameObls(st, pre, ts) }
	panicNote := func(st *State, labels []string) {
		x.U.add(&Oblig{Unit: x.U, Kind: "panic", Labels: append(append([]string{}, labels...), c.Safe...), Name: "no unexpected panic (" + o.Panic.Kind + ")", Pos: o.Panic.Pos, Facts: st.pc, Goal: tFalse, Trace: st.trace})
	}
	// general clauses
	if o.Panic != nil {
		if c.PanicIf != nil {
			s := st.clone()
			g := mkEnv(s).Bool(c.PanicIf)
			x.goals(s, &Clause{Kind: "panic", Props: append(append([]string{}, c.PanicLab...), c.Safe...), Label: "panics only when allowed"}, g, o.Panic.Pos)
		}
		for _, cl := range c.Exsures {
			s := st.clone()
			x.clauseGoals(mkEnv(s), s, cl)
		}
	} else {
		for _, cl := range c.Ensures {
			s := st.clone()
			x.clauseGoals(mkEnv(s), s, cl)
		}
	}
	if len(c.Cases) == 0 {
		if o.Panic != nil && c.PanicIf == nil {
			panicNote(st, nil)
			return
		}
		frame(st, allowed)
		return
	}
	neg := tTrue
	for i, cs := range c.Cases {
		s := st.clone()
		e := mkEnv(s)
		e.inOld = true
		cond := neg
		if cs.When != nil {
			w := e.Bool(cs.When)
			cond = And(cond, w)
			neg = And(neg, Not(w))
		} else {
			neg = tFalse
		}
		e.inOld = false
		if s.simp(cond).Op == "false" {
			continue
		}
		s.assume(cond)
		if s.dead {
			continue
		}
		var labels []string
		for _, cl := range cs.Ensures {
			labels = append(labels, cl.Props...)
		}
		if (o.Panic != nil) != cs.Panics {
			if o.Panic != nil && c.PanicIf != nil {
				continue
			}
			if o.Panic != nil {
				panicNote(s, labels)
			} else {
				x.U.add(&Oblig{Unit: x.U, Kind: "ensures", Labels: labels, Name: "case " + cs.Name + " panics", Facts: s.pc, Goal: tFalse, Trace: s.trace})
			}
			continue
		}
		for _, nd := range cs.New {
			v := e.eval(nd.E)
			t := e.lookupType(&Ex{Op: "ident", Name: nd.Type, File: c.File})
			g := e.fresh(refOf(v.V))
			if iv, ok := v.V.(*IfaceV); ok {
				g = And(Eq(iv.Tag, tagOf(types.NewPointer(t))), g)
			}
			x.goals(s.clone(), &Clause{Kind: "ensures", Props: labels, Label: cs.Name + ": new " + nd.Type}, g, "")
		}
		for _, cl := range cs.Ensures {
			s2 := s.clone()
			e2 := mkEnv(s2)
			x.clauseGoals(e2, s2, cl)
		}
		frame(s, append(append([]target{}, allowed...), caseTargets[i]...))
	}
}

func (x *Exec) clauseGoals(e *Env, st *State, cl *Clause) {
	g := e.Bool(cl.E)
	x.goals(st, cl, g, "")
}

// goals splits a formula into obligations.
func (x *Exec) goals(st *State, cl *Clause, g *Term, pos string) {
	name := cl.Label
	if cl.Case != "" {
		name = cl.Case + ": " + name
	}
	x.split(st, g, func() { x.U.trivial++; x.markClause(cl) }, func(st *State, g *Term) {
		x.markClause(cl)
		x.U.add(&Oblig{Unit: x.U, Kind: cl.Kind, Labels: cl.Props, Name: name, Pos: pos, Facts: st.pc[:len(st.pc):len(st.pc)], Goal: g, Trace: st.trace, Clause: cl})
	})
}

// split reduces a formula to goals that are not obviously true.
func (x *Exec) split(st *State, g *Term, triv func(), emit func(st *State, g *Term)) {
	if st.dead {
		return
	}
	g = st.simp(g)
	switch g.Op {
	case "true":
		triv()
		return
	case "and":
		for i, a := range g.Args {
			s := st
			if i < len(g.Args)-1 {
				s = st.clone()
			}
			x.split(s, a, triv, emit)
		}
		return
	case "=>":
		s := st.clone()
		s.assume(g.Args[0])
		if x.U.C.Extern && !s.dead {
			if m := textEqs(g.Args[0]); len(m) > 0 {
				s.substFacts(m)
				x.split(s, Subst(g.Args[1], m), triv, emit)
				return
			}
		}
		x.split(s, g.Args[1], triv, emit)
		return
	case "or":
		// prove the last disjunct assuming the others fail
		s := st.clone()
		n := len(g.Args)
		// prefer a quantified or conjunctive disjunct as the goal
		k := n - 1
		for i, a := range g.Args {
			if a.Op == "forall" || a.Op == "and" {
				k = i
			}
		}
		for i, a := range g.Args {
			if i != k {
				s.assume(Not(a))
			}
		}
		if s.dead {
			triv()
			return
		}
		if g.Args[k].Op == "or" || s.simp(g.Args[k]) == g {
			break
		}
		x.split(s, g.Args[k], triv, emit)
		return
	case "exists":
		if len(g.Vars) == 1 && g.Vars[0].Sort == SStr {
			for _, w := range witnesses(g.Args[0]) {
				if st.simp(Subst(g.Args[0], map[int]*Term{g.Vars[0].id: w})).Op == "true" {
					triv()
					return
				}
			}
		}
	case "forall":
		m := map[int]*Term{}
		for _, v := range g.Vars {
			m[v.id] = Fresh("sk."+v.Name, v.Sort)
		}
		x.split(st, Subst(g.Args[0], m), triv, emit)
		return
	case "=":
		if g.Args[0].Sort == SBool && !isLit(g.Args[0]) && !isLit(g.Args[1]) {
			a, b := st.simp(g.Args[0]), st.simp(g.Args[1])
			if len(g.Args[0].Args) > 0 || len(g.Args[1].Args) > 0 {
				x.split(st.clone(), Implies(a, b), triv, emit)
				x.split(st, Implies(b, a), triv, emit)
				return
			}
		}
	case "ite":
		x.split(st.clone(), Implies(g.Args[0], g.Args[1]), triv, emit)
		x.split(st, Implies(Not(g.Args[0]), g.Args[2]), triv, emit)
		return
	}
	emit(st, g)
}

// textEqs lists the opaque texts that a conjunction equates with a compound text.
func textEqs(t *Term) map[int]*Term {
	m := map[int]*Term{}
	var walk func(t *Term)
	walk = func(t *Term) {
		switch t.Op {
		case "and":
			for _, a := range t.Args {
				walk(a)
			}
		case "=":
			a, b := t.Args[0], t.Args[1]
			if a.Op == "str.++" {
				a, b = b, a
			}
			if b.Op == "str.++" && a.Op != "str.++" && !isLit(a) && !occurs(a, b) {
				m[a.id] = b
			}
		}
	}
	walk(t)
	return m
}

func (x *Exec) markClause(cl *Clause) {
	if x.U.clauseSeen == nil {
		x.U.clauseSeen = map[*Clause]int{}
	}
	x.U.clauseSeen[cl]++
}

// frameObls requires everything outside the targets to be unchanged for
// objects that existed at entry.
func (x *Exec) frameObls(st, pre *State, ts []target) {
	c := x.U.C
	for _, name := range sortedKeys(st.heap) {
		if bookkeeping(name) {
			continue
		}
		post := st.heap[name]
		old, ok := pre.heap[name]
		if !ok {
			old = x.base[name]
		}
		if old == nil {
			continue
		}
		if post == old {
			continue
		}
		var refs []*Term
		all := false
		for _, t := range ts {
			if matchComp(t.comp, name) {
				if t.ref == nil {
					all = true
				} else {
					refs = append(refs, t.ref)
				}
			}
		}
		if all {
			continue
		}
		cl := &Clause{Kind: "frame", Props: c.Frame, Label: "unchanged outside the modifies clause: " + name}
		s := st.clone()
		if strings.HasPrefix(name, "S|") || strings.HasPrefix(name, "G|") {
			x.goals(s, cl, Eq(post, old), "")
			continue
		}
		r := Fresh("sk.ref", SInt)
		markOld(r, x.wm0)
		s.assume(Le(IntT(0), r))
		s.assume(Le(r, x.wm0))
		if strings.HasPrefix(name, "D|") || strings.HasPrefix(name, "V|") || strings.HasPrefix(name, "C|") || strings.HasPrefix(name, "F|") {
			s.assume(Lt(IntT(0), r))
		}
		for _, o := range refs {
			s.assume(Not(Eq(r, o)))
		}
		g := Eq(Select(post, r), Select(old, r))
		if g.Op == "true" {
			x.U.trivial++
			continue
		}
		if is, _, ok := arrParts(Select(post, r).Sort); ok {
			k := Fresh("sk.key", is)
			g = Eq(Select(Select(post, r), k), Select(Select(old, r), k))
		}
		x.goals(s, cl, g, "")
	}
}

// setGuards installs the lock discipline of the contract.
func (x *Exec) setGuards(e *Env) {
	c := x.U.C
	for _, g := range c.Guard {
		g := g
		p, ok := e.eval(g.E).V.(*Ptr)
		if !ok {
			panic(specError{c.Name + ": guard"})
		}
		ln, lr := lockName(p)
		held := func(st *State, write bool) *Term {
			t := x.gf(st, ln, SInt, lr)
			if write {
				return Eq(t, IntT(1))
			}
			return Lt(IntT(0), t)
		}
		typ := map[string]bool{}
		for _, n := range g.Types {
			typ[n] = true
		}
		emit := func(x *Exec, st *State, goal *Term, what string, pos token.Pos) {
			if x.mute > 0 {
				return
			}
			gl := st.simp(goal)
			if gl.Op == "true" {
				x.U.trivial++
				x.U.guarded++
				return
			}
			x.U.guarded++
			x.U.add(&Oblig{Unit: x.U, Kind: "guard", Labels: g.Props, Name: what + " while holding the lock", Pos: x.pos(pos), Facts: st.pc[:len(st.pc):len(st.pc)], Goal: goal, Trace: st.trace})
		}
		x.U.guard = func(x *Exec, st *State, p *Ptr, write bool, pos token.Pos) {
			for n := range typ {
				if p.Root == "F|"+n {
					if _, fresh := allocInfo(p.Ref); fresh {
						if k, _ := allocInfo(p.Ref); k >= wmIndex[x.wm0.id] {
							return
						}
					}
					goal := Or(Lt(x.wm0, p.Ref), held(st, write))
					emit(x, st, goal, "access to "+n, pos)
				}
			}
		}
		x.U.mapGuard = func(x *Exec, st *State, t types.Type, write bool, pos token.Pos) {
			for n := range typ {
				if mapKey(t) == "map[string]*"+n || strings.HasSuffix(mapKey(t), "*."+n) || strings.HasSuffix(mapKey(t), "]*"+n) {
					emit(x, st, held(st, write), "access to a table of "+n, pos)
				}
			}
		}
	}
}

// ----- calls by contract -----

func (x *Exec) contractCall(fr *Frame, st *State, ct *Contract, fn *ssa.Function, args []Val, pos token.Pos, k Cont) {
	if len(args) != len(ct.Params) {
		panic(specError{ct.Name + ": parameter count"})
	}
	vars := map[string]SV{}
	for i, p := range fn.Params {
		vars[ct.Params[i]] = SV{args[i], p.Type()}
	}
	e0 := &Env{x: x, ct: ct, vars: vars, cur: st, post: st, pre: st, base: st.level()}
	for _, r := range ct.Requires {
		g := e0.Bool(r.E)
		x.requireGoal(st, ct, r, g, pos)
	}
	if ct == x.U.C {
		g := tFalse
		if ct.Decreases != nil {
			m := e0.eval(ct.Decreases).V.(*Term)
			g = And(Le(IntT(0), m), Lt(m, x.U.measure))
		}
		x.requireGoal(st, ct, &Clause{Label: "a smaller measure for the recursive call"}, g, pos)
	}
	for _, l := range ct.Lets {
		vars[l.Name] = e0.eval(l.E)
	}
	if st.dead {
		return
	}
	if len(ct.Cases) == 0 {
		if ct.PanicIf != nil {
			s := st.clone()
			x.callCase(fr, s, ct, &Case{Name: "panic", Panics: true}, fn, vars, pos, k)
		}
		x.callCase(fr, st, ct, nil, fn, vars, pos, k)
		return
	}
	if ct.PanicIf != nil {
		panic(unsupported{"call of a contract with cases and a panic condition"})
	}
	type br struct {
		st *State
		cs *Case
	}
	var brs []br
	neg := tTrue
	for _, cs := range ct.Cases {
		s := st.clone()
		e := *e0
		e.cur, e.post, e.pre = s, s, s
		cond := neg
		if cs.When != nil {
			w := e.Bool(cs.When)
			cond = And(cond, w)
			neg = And(neg, Not(w))
		} else {
			neg = tFalse
		}
		if s.simp(cond).Op == "false" {
			continue
		}
		s.assume(cond)
		if s.dead {
			continue
		}
		if s.simp(cond).Op != "true" || len(brs) > 0 {
			s.trace = append(s.trace, x.pos(pos)+" "+ct.Name+":"+cs.Name)
		}
		brs = append(brs, br{s, cs})
	}
	for _, b := range brs {
		x.callCase(fr, b.st, ct, b.cs, fn, vars, pos, k)
	}
}

func (x *Exec) requireGoal(st *State, ct *Contract, r *Clause, g *Term, pos token.Pos) {
	g = st.simp(g)
	if g.Op == "and" {
		for _, a := range g.Args {
			x.requireGoal(st, ct, r, a, pos)
		}
		return
	}
	if g.Op != "true" && !st.pcset[g.id] && x.mute == 0 {
		x.split(st.clone(), g, func() { x.U.trivial++ }, func(s *State, g *Term) {
			x.U.add(&Oblig{Unit: x.U, Kind: "requires", Labels: nil, Name: ct.Name + " requires " + r.Label, Pos: x.pos(pos), Facts: s.pc[:len(s.pc):len(s.pc)], Goal: g, Trace: s.trace, Callee: ct})
		})
	} else {
		x.U.trivial++
	}
	st.assume(g)
}

func (x *Exec) callCase(fr *Frame, st *State, ct *Contract, cs *Case, fn *ssa.Function, vars0 map[string]SV, pos token.Pos, k Cont) {
	vars := map[string]SV{}
	for n, v := range vars0 {
		vars[n] = v
	}
	pre := st.clone()
	base := st.level()
	e := &Env{x: x, ct: ct, vars: vars, cur: st, post: st, pre: pre, base: base}
	var ts []target
	ts = append(ts, e.allTargets(ct.Modifies)...)
	if cs != nil {
		ts = append(ts, e.allTargets(cs.Modifies)...)
	}
	nw := newWM()
	st.assume(Le(base, nw))
	st.wm, st.n = nw, 0
	hav := map[int]bool{}
	fresh := func(hint string, s Sort) *Term {
		f := Fresh(hint, s)
		markOld(f, nw)
		hav[f.id] = true
		return f
	}
	touched := map[string]bool{}
	for _, t := range ts {
		names := []string{t.comp}
		if strings.HasSuffix(t.comp, "*") {
			names = nil
			for _, n := range x.knownComps(t.comp, st) {
				names = append(names, n)
			}
		}
		for _, n := range names {
			cur, ok := st.heap[n]
			if !ok {
				s := x.compSort(n)
				if s == "" {
					continue
				}
				cur = x.comp(st, n, s)
			}
			touched[n] = true
			if t.ref == nil {
				f := fresh("call."+n, cur.Sort)
				if n == "S|clock" || n == "S|rng" || n == "S|locks" || n == "S|net.count" {
					st.assume(Le(cur, f))
				}
				st.heap[n] = f
				continue
			}
			_, es, _ := arrParts(cur.Sort)
			f := fresh("call."+n, es)
			x.compFacts(st, n, f)
			st.heap[n] = Store(cur, t.ref, f)
		}
	}
	panics := cs != nil && cs.Panics
	var rets []Val
	res := fn.Signature.Results()
	var sliceFacts []*Term
	noteSlice := func(ls []Leaf, ts []*Term) {
		for i := 0; i+3 < len(ls); i++ {
			if strings.HasSuffix(ls[i].Path, ".ref") && ls[i+1].Off && strings.HasSuffix(ls[i+2].Path, ".len") && strings.HasSuffix(ls[i+3].Path, ".cap") {
				nz := Eq(ts[i], IntT(0))
				sliceFacts = append(sliceFacts, Implies(nz, Eq(ts[i+2], IntT(0))), Implies(nz, Eq(ts[i+3], IntT(0))))
			}
		}
	}
	freshLeaves := func(t types.Type, hint string) Val {
		var ls []*Term
		for _, l := range leaves(t) {
			if l.Off {
				ls = append(ls, IntT(0))
				continue
			}
			f := fresh(hint+l.Path, l.Sort)
			if l.Ref {
				st.assume(Le(f, st.level()))
			}
			if l.Ne {
				st.assume(Le(IntT(0), f))
			}
			ls = append(ls, f)
		}
		noteSlice(leaves(t), ls)
		v := fromLeaves(t, ls)
		x.valFacts(st, v)
		return v
	}
	setRes := func() {
		for i, n := range ct.Results {
			vars[n] = SV{rets[i], res.At(i).Type()}
		}
	}
	if !panics {
		for i := 0; i < res.Len(); i++ {
			rets = append(rets, freshLeaves(res.At(i).Type(), "ret."+ct.Name))
		}
		setRes()
	}
	// new objects
	if cs != nil {
		for _, nd := range cs.New {
			t := e.lookupType(&Ex{Op: "ident", Name: nd.Type, File: ct.File})
			p := x.alloc(st)
			mt, isMap := t.Underlying().(*types.Map)
			var obj *Ptr
			if !isMap {
				obj = mkPtr(t, p).(*Ptr)
			}
			v := e.eval(nd.E)
			repl := map[int]*Term{}
			switch o := v.V.(type) {
			case *Term:
				repl[o.id] = p
			case *Ptr:
				repl[o.Ref.id] = p
			case *IfaceV:
				repl[o.Tag.id] = tagOf(types.NewPointer(t))
				repl[o.Ref.id] = p
			}
			for i := range rets {
				ls := toLeaves(rets[i], res.At(i).Type())
				for j := range ls {
					ls[j] = Subst(ls[j], repl)
				}
				rets[i] = fromLeaves(res.At(i).Type(), ls)
			}
			for n := range touched {
				st.heap[n] = Subst(st.heap[n], repl)
			}
			setRes()
			if isMap {
				ks := keySort(t)
				set := func(n string, es Sort) {
					x.setComp(st, n, Store(x.comp(st, n, fSort(ArrS(ks, es))), p, fresh("new."+n, ArrS(ks, es))))
					touched[n] = true
				}
				set("D|"+mapKey(t), SBool)
				for _, l := range leaves(mt.Elem()) {
					set("V|"+mapKey(t)+"|"+l.Path, l.Sort)
				}
			} else if obj != nil && !obj.Arr {
				x.zeroLocks(st, obj, t)
				var newLs []*Term
				for _, l := range leaves(t) {
					var f *Term
					if l.Off {
						f = IntT(0)
					} else {
						f = fresh("new."+nd.Type+l.Path, l.Sort)
						if l.Ref {
							st.assume(Le(f, nw))
						}
						if l.Ne {
							st.assume(Le(IntT(0), f))
						}
					}
					newLs = append(newLs, f)
					x.writeLeaf(st, obj, l, f)
					touched[obj.Root+"|"+obj.Path+l.Path] = true
				}
				noteSlice(leaves(t), newLs)
			}
		}
	}
	// postconditions
	var conj []*Term
	var addC func(t *Term)
	addC = func(t *Term) {
		t = st.simp(t)
		switch t.Op {
		case "and":
			for _, a := range t.Args {
				addC(a)
			}
			return
		case "true":
			return
		}
		conj = append(conj, t)
	}
	evalAll := func() {
		conj = nil
		general := ct.Ensures
		if panics {
			general = ct.Exsures
			if ct.PanicIf != nil {
				addC(e.Bool(ct.PanicIf))
			}
		}
		for _, cl := range general {
			if reliesOn(x.U.C.Relies[ct.Name], cl) && !hasSome(cl.E) {
				addC(e.Bool(cl.E))
			}
		}
		if cs != nil {
			for _, cl := range cs.Ensures {
				addC(e.Bool(cl.E))
			}
		}
	}
	evalAll()
	for _, f := range sliceFacts {
		addC(f)
	}
	// solve equalities for the unknowns of the call
	for progress := true; progress; {
		progress = false
		for i, c := range conj {
			var v, t *Term
			switch {
			case c.Op == "const" && hav[c.id]:
				v, t = c, tTrue
			case c.Op == "not" && c.Args[0].Op == "const" && hav[c.Args[0].id]:
				v, t = c.Args[0], tFalse
			case c.Op == "=":
				a, b := c.Args[0], c.Args[1]
				if a.Op == "const" && hav[a.id] && !occurs(a, b) {
					v, t = a, b
				} else if b.Op == "const" && hav[b.id] && !occurs(b, a) {
					v, t = b, a
				}
			}
			if v == nil {
				continue
			}
			m := map[int]*Term{v.id: t}
			delete(hav, v.id)
			rest := append(append([]*Term{}, conj[:i]...), conj[i+1:]...)
			conj = nil
			for _, r := range rest {
				addC(Subst(r, m))
			}
			for n := range touched {
				st.heap[n] = Subst(st.heap[n], m)
			}
			for j := range rets {
				ls := toLeaves(rets[j], res.At(j).Type())
				for q := range ls {
					ls[q] = Subst(ls[q], m)
				}
				rets[j] = fromLeaves(res.At(j).Type(), ls)
			}
			st.substFacts(m)
			progress = true
			break
		}
	}
	if !panics {
		setRes()
	}
	for _, c := range conj {
		st.assume(c)
		if c.Op == "=" {
			a, b := c.Args[0], c.Args[1]
			if strings.HasPrefix(a.Op, "app:strs") || strings.HasPrefix(a.Op, "app:slarr") {
				st.setSub(a, b)
			} else if strings.HasPrefix(b.Op, "app:strs") {
				st.setSub(b, a)
			} else if a.Op == "str.substr" && b.Op == "app:jencstr" {
				st.setSub(a, b)
			} else if b.Op == "str.substr" && a.Op == "app:jencstr" {
				st.setSub(b, a)
			} else if a.Op == "app:mmof" && b.Op != "app:mmof" {
				st.setSub(a, b)
			} else if b.Op == "app:mmof" && a.Op != "app:mmof" {
				st.setSub(b, a)
			}
		}
		if st.dead {
			return
		}
	}
	if panics {
		k(st, Outcome{Panic: &PanicInfo{Val: nilIface, Kind: "contract of " + ct.Name, Pos: x.pos(pos)}})
		return
	}
	e.vars = vars
	x.record(st, ct, e, vars)
	x.runCalls(fr, st, cs, e, Outcome{Rets: rets}, k)
}

// substFacts replaces constants in the path condition.
func (s *State) substFacts(m map[int]*Term) {
	var out []*Term
	changed := false
	for _, t := range s.pc {
		u := Subst(t, m)
		if u != t {
			changed = true
		}
		out = append(out, u)
	}
	if !changed {
		return
	}
	s.pc = nil
	for _, t := range out {
		if t.Op == "true" {
			continue
		}
		if t.Op == "false" {
			s.dead = true
		}
		if !s.pcset[t.id] {
			s.pcset[t.id] = true
			s.learn(t)
		}
		s.pc = append(s.pc, t)
	}
}

func occurs(c, t *Term) bool {
	m := map[int]*Term{}
	constsOf(t, m, map[int]bool{})
	_, ok := m[c.id]
	return ok
}

// knownComps lists components matching a pattern.
func (x *Exec) knownComps(pat string, st *State) []string {
	seen := map[string]bool{}
	for n := range st.heap {
		if matchComp(pat, n) {
			seen[n] = true
		}
	}
	for n := range x.base {
		if matchComp(pat, n) {
			seen[n] = true
		}
	}
	for n := range netSorts {
		if matchComp(pat, "S|"+n) {
			seen["S|"+n] = true
		}
	}
	// fields of a type
	if strings.HasPrefix(pat, "F|") {
		p := strings.TrimSuffix(pat, "*")
		parts := strings.SplitN(p, "|", 3)
		for t, ls := range leafCache {
			if t == parts[1] {
				for _, l := range ls {
					n := "F|" + t + "|" + l.Path
					if matchComp(pat, n) {
						seen[n] = true
						if _, ok := x.base[n]; !ok {
							x.baseComp(n, fSort(l.Sort))
						}
					}
				}
			}
		}
	}
	return sortedKeys(seen)
}

var netSorts = map[string]Sort{"net.count": SInt, "net.client": SInt, "net.method": SStr, "net.url": SStr, "net.header": mmSort, "net.body": SStr, "net.res": SInt, "net.failed": SInt,
	"net.code": SInt, "net.text": SStr, "net.reshdr": mmSort, "net.data": SStr, "net.resbody": SInt,
	"h.count": SInt, "h.before": SInt, "h.req": SInt, "h.fresh": SInt, "h.callbacks": SInt, "h.callback": SInt, "h.cbarg0": SInt, "h.cbarg1": SInt, "h.handler": SInt, "h.method": SStr, "h.url": SStr, "h.header": mmSort, "h.postform": mmSort, "h.body": SStr, "h.rec": SInt,
	"h.code": SInt, "h.text": SStr, "h.rhdr": mmSort, "h.cbcode": SInt, "h.cbtext": SStr, "h.cbhdr": mmSort}

// compSort is the sort of a component that has not been read yet.
func (x *Exec) compSort(n string) Sort {
	switch {
	case strings.HasPrefix(n, "S|"):
		if s, ok := netSorts[n[2:]]; ok {
			return s
		}
		return SInt
	case n == failedComp:
		return fSort(SBool)
	case n == "W|status" || n == "W|count" || n == "CL|" || strings.HasPrefix(n, "LK|"):
		return fSort(SInt)
	case n == "W|body" || n == "RD|":
		return fSort(SStr)
	case n == "W|sent" || n == "C|":
		return fSort(mmSort)
	}
	if s, ok := x.bsort[n]; ok {
		return s
	}
	if strings.HasPrefix(n, "F|") {
		parts := strings.SplitN(n, "|", 3)
		if ls, ok := leafCache[parts[1]]; ok {
			for _, l := range ls {
				if l.Path == parts[2] {
					return fSort(l.Sort)
				}
			}
		}
	}
	return ""
}

func (x *Exec) compFacts(st *State, n string, f *Term) {
	if strings.HasSuffix(n, ".PostForm") || strings.HasSuffix(n, ".Form") {
		st.assume(Le(IntT(0), f))
		st.assume(Le(f, st.level()))
	}
}

// ----- discharge -----

var textMu sync.Mutex

func lockedAnd(gs []*Term) *Term {
	textMu.Lock()
	defer textMu.Unlock()
	return And(gs...)
}

// Discharge proves the obligations of a unit; obligations sharing a path are
// first tried together.
// It gives up after maxFail failures (0: never) or at the deadline.
func Discharge(obs []*Oblig, maxFail int) {
	var failed int64
	giveUp := func() bool {
		return maxFail > 0 && atomic.LoadInt64(&failed) >= int64(maxFail) || pastDeadline()
	}
	prove := func(o *Oblig) {
		if giveUp() {
			o.Res.Status = "not attempted"
			return
		}
		q := &Query{Facts: o.Facts, Goal: o.Goal}
		o.Res = q.Prove(false)
		if o.Res.Status != "unsat" {
			atomic.AddInt64(&failed, 1)
		}
	}
	type group struct {
		obs []*Oblig
	}
	groups := map[string]*group{}
	var order []string
	for _, o := range obs {
		if o.Res.Status != "" && o.Res.Status != "not attempted" {
			continue
		}
		if o.Goal.Op == "false" {
			// still has to be shown unreachable
		}
		key := ""
		if len(o.Facts) > 0 {
			key = fmt.Sprintf("%d/%p", len(o.Facts), &o.Facts[len(o.Facts)-1])
		}
		key += "/" + o.Unit.Name
		g := groups[key]
		if g == nil {
			g = &group{}
			groups[key] = g
			order = append(order, key)
		}
		g.obs = append(g.obs, o)
	}
	var wg sync.WaitGroup
	sem := make(chan struct{}, 10)
	for _, k := range order {
		g := groups[k]
		wg.Add(1)
		sem <- struct{}{}
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			defer func() {
				if r := recover(); r != nil {
					for _, o := range g.obs {
						if o.Res.Status == "" {
							o.Res.Status = fmt.Sprintf("error: %v", r)
						}
					}
				}
			}()
			if len(g.obs) > 1 && !giveUp() {
				var gs []*Term
				for _, o := range g.obs {
					gs = append(gs, o.Goal)
				}
				q := &Query{Facts: g.obs[0].Facts, Goal: lockedAnd(gs)}
				r := q.Prove(true)
				if r.Status == "unsat" {
					for _, o := range g.obs {
						o.Res = r
						o.Res.Time = r.Time / time.Duration(len(g.obs))
					}
					return
				}
			}
			for _, o := range g.obs {
				prove(o)
			}
		}()
	}
	wg.Wait()
}

// deadline bounds the work of the current phase.
var deadline time.Time

func pastDeadline() bool { return !deadline.IsZero() && time.Now().After(deadline) }

func sortObs(obs []*Oblig) {
	sort.SliceStable(obs, func(i, j int) bool { return obs[i].Name < obs[j].Name })
}

// witnesses lists the closed string terms of a formula.
func witnesses(t *Term) []*Term {
	var out []*Term
	seen := map[int]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t.id] {
			return
		}
		seen[t.id] = true
		if t.Sort == SStr && t.Op != "var" && !t.fv {
			out = append(out, t)
		}
		if b := lamBody[strings.TrimPrefix(t.Op, "app:")]; b != nil {
			walk(b)
		}
		for _, a := range t.Args {
			walk(a)
		}
	}
	walk(t)
	return append(out, StrT(""))
}
