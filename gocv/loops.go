package main

// Loops: havoc, candidate invariants and their inductive checking.

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// loopInfo is a natural loop.
type loopInfo struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

// activeLoop is a loop being executed in a frame.
type activeLoop struct {
	info  *loopInfo
	back  func(fr *Frame, st *State, from *ssa.BasicBlock)
	exit  func(fr *Frame, st *State)
	check bool
}

// findLoops computes the natural loops of a function by header.
func findLoops(fn *ssa.Function) map[*ssa.BasicBlock]*loopInfo {
	out := map[*ssa.BasicBlock]*loopInfo{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if !s.Dominates(b) {
				continue
			}
			li := out[s]
			if li == nil {
				li = &loopInfo{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
				out[s] = li
			}
			work := []*ssa.BasicBlock{b}
			for len(work) > 0 {
				n := work[len(work)-1]
				work = work[:len(work)-1]
				if li.blocks[n] {
					continue
				}
				li.blocks[n] = true
				work = append(work, n.Preds...)
			}
		}
	}
	return out
}

// phisOf lists the phis of a block.
func phisOf(b *ssa.BasicBlock) []*ssa.Phi {
	var out []*ssa.Phi
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		out = append(out, p)
	}
	return out
}

// phiVals evaluates the phis of to for the edge from.
func (x *Exec) phiVals(fr *Frame, st *State, from, to *ssa.BasicBlock) []Val {
	idx := -1
	for i, p := range to.Preds {
		if p == from {
			idx = i
		}
	}
	var out []Val
	for _, p := range phisOf(to) {
		out = append(out, x.value(fr, st, p.Edges[idx]))
	}
	return out
}

// headerDecided reports whether the header's branch is decided syntactically.
func (x *Exec) headerDecided(fr *Frame, st *State, to *ssa.BasicBlock, vals []Val) bool {
	env := map[ssa.Value]Val{}
	for i, p := range phisOf(to) {
		env[p] = vals[i]
	}
	get := func(v ssa.Value) (Val, bool) {
		if r, ok := env[v]; ok {
			return r, true
		}
		if c, ok := v.(*ssa.Const); ok {
			return constVal(c), true
		}
		if in, ok := v.(ssa.Instruction); ok && in.Block() == to {
			return nil, false
		}
		r, ok := fr.env[v]
		return r, ok
	}
	for _, in := range to.Instrs {
		switch in := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.BinOp:
			a, ok1 := get(in.X)
			b, ok2 := get(in.Y)
			if !ok1 || !ok2 {
				return false
			}
			_, t1 := a.(*Term)
			_, t2 := b.(*Term)
			if !t1 || !t2 {
				return false
			}
			x.mute++
			r := x.binop(st.clone(), in, a, b)
			x.mute--
			env[in] = r
		case *ssa.Call:
			b, ok := in.Call.Value.(*ssa.Builtin)
			if !ok || b.Name() != "len" {
				return false
			}
			v, ok := get(in.Call.Args[0])
			if !ok {
				return false
			}
			s, ok := v.(*SliceV)
			if !ok {
				return false
			}
			env[in] = s.Len
		case *ssa.If:
			c, ok := get(in.Cond)
			if !ok {
				return false
			}
			t, ok := c.(*Term)
			if !ok {
				return false
			}
			return isLit(st.simp(t))
		default:
			return false
		}
	}
	return false
}

// loop executes a loop entered from the given block.
func (x *Exec) loop(fr *Frame, st *State, from *ssa.BasicBlock, li *loopInfo) {
	x.loopFrom(fr, st, from, li, 0)
}

func (x *Exec) loopFrom(fr *Frame, st *State, from *ssa.BasicBlock, li *loopInfo, unrolled int) {
	vals := x.phiVals(fr, st, from, li.header)
	if unrolled < 64 && x.headerDecided(fr, st, li.header, vals) {
		fr2 := fr.clone()
		fr2.loops = append(fr2.loops, &activeLoop{info: li, back: func(fr3 *Frame, st3 *State, from3 *ssa.BasicBlock) {
			fr4 := fr3.clone()
			fr4.loops = fr4.loops[:len(fr4.loops)-1]
			x.loopFrom(fr4, st3, from3, li, unrolled+1)
		}})
		x.enter(fr2, st, from, li.header)
		return
	}
	l := &loopRun{x: x, fr: fr, st: st, li: li, entry: vals}
	l.run()
}

// compMod says how a component changes in a loop.
type compMod struct {
	full  bool
	layer bool
	refs  []*Term // loop-invariant references written
}

type loopRun struct {
	x      *Exec
	fr     *Frame
	st     *State
	li     *loopInfo
	entry  []Val
	mods   map[string]*compMod
	phiMod map[string]bool // "<phi index>/<leaf index>"
	thr    int             // terms below existed before the loop

	head    *State
	headFr  *Frame
	phis    []Val
	phiT    [][]*Term
	wm      *Term
	newVals map[string]*Term // comp|ref -> fresh content at invariant refs
	itVars  []string

	captures bool // an iteration stores slices in a header or values map

	cands []*cand
}

type cand struct {
	name string
	f    func(st *State, phis [][]*Term) *Term
}

type backEdge struct {
	st   *State
	phis [][]*Term
	npc  int
}

func (l *loopRun) phiTypes() []types.Type {
	var out []types.Type
	for _, p := range phisOf(l.li.header) {
		out = append(out, p.Type())
	}
	return out
}

func safeLeaves(v Val, t types.Type) (ls []*Term, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(unsupported); is {
				ok = false
				return
			}
			panic(r)
		}
	}()
	return toLeaves(v, t), true
}

// buildHead creates the arbitrary-iteration state.
func (l *loopRun) buildHead() {
	x := l.x
	st := l.st.clone()
	lvl := st.level()
	l.wm = newWM()
	st.assume(Le(lvl, l.wm))
	st.wm, st.n = l.wm, 0
	l.newVals = map[string]*Term{}
	if l.captures {
		// any memory known so far may be captured
		f := Fresh("loop.captured", SInt)
		markOld(f, l.wm)
		st.captured = append(st.captured, f)
	}
	for _, c := range sortedKeys(l.mods) {
		m := l.mods[c]
		cur, ok := st.heap[c]
		if !ok {
			cur, ok = x.base[c]
			if !ok {
				continue
			}
		}
		_, _, isArr := arrParts(cur.Sort)
		switch {
		case strings.HasPrefix(c, "IT|") || strings.HasPrefix(c, "S|") || strings.HasPrefix(c, "G|"):
			f := Fresh("loop."+c, cur.Sort)
			if c == "S|clock" {
				st.assume(Le(cur, f))
			}
			st.heap[c] = f
		case m.full || !isArr:
			f := Fresh("loop."+c, cur.Sort)
			markOld(f, l.wm)
			st.heap[c] = f
		default:
			t := cur
			if m.layer {
				h := Fresh("loop."+c, cur.Sort)
				markOld(h, l.wm)
				t = Layer(cur, h, lvl)
			}
			_, es, _ := arrParts(cur.Sort)
			for _, r := range m.refs {
				f := Fresh("loop."+c+".at", es)
				markOld(f, l.wm)
				l.newVals[fmt.Sprintf("%s@%d", c, r.id)] = f
				t = Store(t, r, f)
			}
			st.heap[c] = t
		}
	}
	l.phis, l.phiT = nil, nil
	fr := l.fr.clone()
	for i, p := range phisOf(l.li.header) {
		t := p.Type()
		ls, ok := safeLeaves(l.entry[i], t)
		if !ok {
			// values that cannot be flattened must not change
			l.phis = append(l.phis, l.entry[i])
			l.phiT = append(l.phiT, nil)
			fr.env[p] = l.entry[i]
			continue
		}
		out := make([]*Term, len(ls))
		anyMod := false
		lvs := leaves(t)
		for j := range ls {
			out[j] = ls[j]
			if l.phiMod[fmt.Sprintf("%d/%d", i, j)] {
				anyMod = true
				f := Fresh("phi."+p.Name()+lvs[j].Path, lvs[j].Sort)
				if lvs[j].Ref {
					markOld(f, l.wm)
					st.assume(Le(f, l.wm))
				}
				if lvs[j].Ne {
					st.assume(Le(IntT(0), f))
				}
				out[j] = f
			}
		}
		v := l.entry[i]
		if anyMod {
			v = fromLeaves(t, out)
			x.valFacts(st, v)
		}
		l.phis = append(l.phis, v)
		l.phiT = append(l.phiT, out)
		fr.env[p] = v
	}
	for _, c := range l.cands {
		st.assume(c.f(st, l.phiT))
	}
	l.head, l.headFr = st, fr
}

// pass executes one arbitrary iteration and returns the back-edge states.
func (l *loopRun) pass() []backEdge {
	x := l.x
	var out []backEdge
	fr := l.headFr.clone()
	st := l.head.clone()
	npc := len(st.pc)
	fr.ret = func(*State, Outcome) {}
	fr.loops = append(fr.loops, &activeLoop{info: l.li, check: true, back: func(fr2 *Frame, st2 *State, from *ssa.BasicBlock) {
		vs := x.phiVals(fr2, st2, from, l.li.header)
		be := backEdge{st: st2, npc: npc}
		for i, t := range l.phiTypes() {
			ls, ok := safeLeaves(vs[i], t)
			if !ok {
				if vs[i] != l.entry[i] {
					panic(unsupported{"loop-carried pointer into an object"})
				}
				ls = nil
			}
			be.phis = append(be.phis, ls)
		}
		out = append(out, be)
	}})
	x.mute++
	func() {
		defer func() { x.mute-- }()
		x.run(fr, st, l.li.header, 0)
	}()
	return out
}

// invariant reports whether t only depends on pre-loop values.
func (l *loopRun) invariant(t *Term) bool {
	cs := map[int]*Term{}
	constsOf(t, cs, map[int]bool{})
	for id := range cs {
		if id >= l.thr && !l.x.entryConst(id) {
			return false
		}
	}
	if _, ok := allocInfo(t); ok {
		b, _ := refBase(t)
		return b.id < l.thr
	}
	return !t.fv
}

// entryConst reports whether a constant denotes part of the entry heap.
func (x *Exec) entryConst(id int) bool {
	t := termList[id]
	return t.Op == "const" && strings.HasPrefix(t.Name, x.prefix+"h0.")
}

// noteMods compares back edges with the head; it reports growth.
func (l *loopRun) noteMods(bs []backEdge) bool {
	changed := false
	for _, b := range bs {
		if len(b.st.captured) > len(l.head.captured) && !l.captures {
			l.captures, changed = true, true
		}
		for c, t := range b.st.heap {
			h, ok := l.head.heap[c]
			if !ok {
				h = l.x.base[c]
			}
			if h == t {
				continue
			}
			if h == nil {
				// created inside the loop: an inner iterator or a fresh component
				continue
			}
			m := l.mods[c]
			if m == nil {
				m = &compMod{}
				l.mods[c] = m
				changed = true
			}
			if m.full {
				continue
			}
			// strip stores
			cur := t
			skip := map[*Term]bool{}
			for cur.Op == "store" && cur != h {
				i := cur.Args[1]
				if j, ok := allocInfo(i); ok && i.Sort == SInt && j >= wmIndex[l.wm.id] {
					if !m.layer {
						m.layer = true
						changed = true
					}
				} else if l.invariant(i) && i.Sort == SInt {
					found := false
					for _, r := range m.refs {
						if r == i {
							found = true
						}
					}
					if !found && Select(t, i) == Select(h, i) {
						// written back unchanged
						skip[i] = true
					} else if !found {
						m.refs = append(m.refs, i)
						changed = true
					}
				} else {
					break
				}
				cur = cur.Args[0]
			}
			hb := h
			for hb.Op == "store" && cur != hb {
				// the head's own stores at invariant references
				in := skip[hb.Args[1]]
				for _, r := range m.refs {
					if r == hb.Args[1] {
						in = true
					}
				}
				if !in {
					break
				}
				hb = hb.Args[0]
			}
			if cur != h && cur != hb {
				if !m.full {
					m.full = true
					changed = true
				}
			}
		}
		for i := range b.phis {
			for j := range b.phis[i] {
				if b.phis[i][j] != l.phiT[i][j] {
					k := fmt.Sprintf("%d/%d", i, j)
					if !l.phiMod[k] {
						l.phiMod[k] = true
						changed = true
					}
				}
			}
		}
	}
	return changed
}

func (l *loopRun) run() {
	x := l.x
	l.mods = map[string]*compMod{}
	l.phiMod = map[string]bool{}
	l.thr = len(termList)
	var bs []backEdge
	for round := 0; ; round++ {
		if round > 12 {
			panic(unsupported{"loop summary did not stabilise"})
		}
		l.buildHead()
		bs = l.pass()
		if !l.noteMods(bs) {
			break
		}
	}
	// candidate invariants
	cs := l.generate(bs)
	var live []*cand
	for _, c := range cs {
		var init [][]*Term
		for i, t := range l.phiTypes() {
			ls, _ := safeLeaves(l.entry[i], t)
			init = append(init, ls)
		}
		g := c.f(l.st, init)
		if x.provable(l.st, g) {
			live = append(live, c)
		} else if debugLoops {
			fmt.Printf("  loop %s: drop (entry) %s: %s\n", x.pos(l.li.header.Instrs[len(l.li.header.Instrs)-1].Pos()), c.name, g)
		}
	}
	for {
		if pastDeadline() {
			panic(unsupported{"time budget exceeded"})
		}
		l.cands = live
		l.buildHead()
		bs = l.pass()
		if l.noteMods(bs) {
			// assumed invariants cannot grow the modified set, but stay safe
			continue
		}
		var keep []*cand
		for _, c := range live {
			ok := true
			for _, b := range bs {
				g := c.f(b.st, b.phis)
				if !x.provable(b.st, g) {
					ok = false
					if debugLoops {
						fmt.Printf("  loop in %s: drop (step) %s: %s\n", l.fr.fn.Name(), c.name, g)
						if dumpDir != "" {
							q := &Query{Facts: b.st.pc, Goal: g}
							dump("loop", q.text(false))
						}
					}
					break
				}
			}
			if ok {
				keep = append(keep, c)
			}
		}
		if len(keep) == len(live) {
			break
		}
		live = keep
	}
	if debugLoops {
		for _, c := range live {
			fmt.Printf("  loop in %s: invariant %s %s\n", l.fr.fn.Name(), c.name, c.f(l.head, l.phiT))
		}
	}
	x.U.loops[fmt.Sprintf("%s (%d invariants)", x.pos(firstPos(l.li.header)), len(live))] = true
	x.terminates(l, bs)
	// final execution
	fr := l.headFr.clone()
	st := l.head.clone()
	fr.loops = append(fr.loops, &activeLoop{info: l.li, back: func(*Frame, *State, *ssa.BasicBlock) {}})
	x.run(fr, st, l.li.header, 0)
}

// terminates obliges the loop to have a measure: an integer that every
// iteration decreases without leaving the naturals, or the unvisited entries of
// a map that the loop does not extend.
func (x *Exec) terminates(l *loopRun, bs []backEdge) {
	if x.mute != 0 {
		return
	}
	done := func(how string) {
		x.U.trivial++
		if debugLoops {
			fmt.Printf("  loop in %s: measure %s\n", l.fr.fn.Name(), how)
		}
	}
	if len(bs) == 0 {
		done("none needed")
		return
	}
	goal := tFalse
	for _, in := range l.li.header.Instrs {
		n, ok := in.(*ssa.Next)
		if !ok {
			continue
		}
		it, ok := l.headFr.env[n.Iter].(*IterV)
		if !ok {
			break
		}
		dom := func(st *State) *Term {
			if it.CC != nil {
				return mmDom(x.mm(st, it.M))
			}
			return x.mapDom(st, it.T, it.M)
		}
		ok = true
		for _, b := range bs {
			h, d := dom(l.head.clone()), dom(b.st)
			for d.Op == "store" && d != h && d.Args[2].Op == "false" {
				d = d.Args[0]
			}
			if d == h {
				continue
			}
			k := BVar("k", keySort(it.T))
			ok = ok && x.provable(b.st, Forall([]*Term{k}, Implies(Select(dom(b.st), k), Select(h, k))))
		}
		if ok {
			done("unvisited entries")
			return
		}
	}
	// integer measures: counters, lengths and the distance to what they are compared with
	allowed := map[int]bool{}
	var ms []*Term
	seen := map[int]bool{}
	add := func(t *Term) {
		if !seen[t.id] {
			seen[t.id] = true
			ms = append(ms, t)
		}
	}
	for i, t := range l.phiTypes() {
		if len(l.phiT[i]) == 0 {
			continue
		}
		for j, lf := range leaves(t) {
			if !l.phiMod[fmt.Sprintf("%d/%d", i, j)] {
				continue
			}
			p := l.phiT[i][j]
			allowed[p.id] = true
			switch {
			case lf.Kind == "len" || lf.Kind == "basic" && lf.Sort == SInt:
				add(p)
			case lf.Sort == SStr:
				add(StrLen(p))
			}
		}
	}
	usable := func(a *Term) bool {
		if a.fv || a.Sort != SInt {
			return false
		}
		c := map[int]*Term{}
		constsOf(a, c, map[int]bool{})
		for id := range c {
			if id >= l.thr && !allowed[id] && !x.entryConst(id) {
				return false
			}
		}
		return true
	}
	for _, b := range bs {
		for _, a := range b.st.pc[b.npc:] {
			if a.Op == "not" {
				a = a.Args[0]
			}
			if a.Op != "<" && a.Op != "<=" && a.Op != "=" || !usable(a.Args[0]) || !usable(a.Args[1]) {
				continue
			}
			add(Sub(a.Args[1], a.Args[0]))
			add(Sub(a.Args[0], a.Args[1]))
			add(a.Args[1])
			add(a.Args[0])
		}
	}
	for _, m := range ms {
		ok := true
		for _, b := range bs {
			sub := map[int]*Term{}
			for i := range l.phiT {
				for j := range l.phiT[i] {
					if i < len(b.phis) && j < len(b.phis[i]) {
						sub[l.phiT[i][j].id] = b.phis[i][j]
					}
				}
			}
			// bounded below in this iteration; a constant slack is harmless
			if !x.provable(b.st, And(Lt(Subst(m, sub), m), Le(IntT(-1), m))) {
				ok = false
				break
			}
		}
		if ok {
			done(m.String())
			return
		}
	}
	x.U.add(&Oblig{Unit: x.U, Kind: "safety", Name: "the loop terminates", Pos: x.pos(firstPos(l.li.header)), Facts: l.head.pc, Goal: goal, Trace: l.head.trace})
}

// provable asks the solver quickly.
func (x *Exec) provable(st *State, g *Term) (ok bool) {
	g = st.simp(g)
	if g.Op == "true" {
		return true
	}
	if g.Op == "false" {
		// still possible when the path is infeasible
		return false
	}
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(unsupported); is {
				ok = false
				return
			}
			panic(r)
		}
	}()
	for _, a := range conjuncts(g) {
		if pastDeadline() {
			return false
		}
		q := &Query{Facts: st.pc, Goal: a}
		if q.Prove(true).Status != "unsat" {
			return false
		}
	}
	return true
}

func conjuncts(g *Term) []*Term {
	if g.Op == "and" {
		var out []*Term
		for _, a := range g.Args {
			out = append(out, conjuncts(a)...)
		}
		return out
	}
	return []*Term{g}
}

// generate proposes invariants from the shape of the back edges.
func (l *loopRun) generate(bs []backEdge) []*cand {
	if len(bs) == 0 {
		return nil
	}
	x := l.x
	var cs []*cand
	add := func(name string, f func(st *State, ph [][]*Term) *Term) {
		cs = append(cs, &cand{name, f})
	}
	lvl := l.st.level()
	wm0 := x.wm0
	pts := l.phiTypes()

	type counter struct {
		i, j int
		p    *Term
		e    *Term
	}
	var ctrs []counter
	for i, t := range pts {
		if len(l.phiT[i]) == 0 {
			continue
		}
		es, _ := safeLeaves(l.entry[i], t)
		for j, lf := range leaves(t) {
			if !l.phiMod[fmt.Sprintf("%d/%d", i, j)] {
				continue
			}
			i, j := i, j
			e := es[j]
			p := l.phiT[i][j]
			if lf.Kind == "basic" && lf.Sort == SInt || lf.Kind == "len" {
				add(fmt.Sprintf("phi%d.%d>=entry", i, j), func(st *State, ph [][]*Term) *Term { return Le(e, ph[i][j]) })
				add(fmt.Sprintf("phi%d.%d<=entry", i, j), func(st *State, ph [][]*Term) *Term { return Le(ph[i][j], e) })
				if lf.Kind == "basic" {
					ctrs = append(ctrs, counter{i, j, p, e})
				}
			}
			if lf.Ref {
				add(fmt.Sprintf("phi%d.%d owned", i, j), func(st *State, ph [][]*Term) *Term {
					return Or(Eq(ph[i][j], IntT(0)), Lt(wm0, ph[i][j]))
				})
				add(fmt.Sprintf("phi%d.%d new", i, j), func(st *State, ph [][]*Term) *Term {
					return Or(Eq(ph[i][j], e), Lt(lvl, ph[i][j]))
				})
				add(fmt.Sprintf("phi%d.%d nonnil", i, j), func(st *State, ph [][]*Term) *Term {
					return Not(Eq(ph[i][j], IntT(0)))
				})
			}
			if lf.Sort == SBool {
				add(fmt.Sprintf("phi%d.%d const", i, j), func(st *State, ph [][]*Term) *Term { return Eq(ph[i][j], e) })
			}
		}
		if _, ok := t.Underlying().(*types.Slice); ok {
			i := i
			add(fmt.Sprintf("phi%d nil iff empty", i), func(st *State, ph [][]*Term) *Term {
				return Eq(Eq(ph[i][0], IntT(0)), Eq(ph[i][2], IntT(0)))
			})
			add(fmt.Sprintf("phi%d nil if empty", i), func(st *State, ph [][]*Term) *Term {
				return Implies(Eq(ph[i][2], IntT(0)), Eq(ph[i][0], IntT(0)))
			})
			if leaves(t)[1].Off && l.phiMod[fmt.Sprintf("%d/1", i)] {
				add(fmt.Sprintf("phi%d off 0", i), func(st *State, ph [][]*Term) *Term { return Eq(ph[i][1], IntT(0)) })
			}
		}
	}
	// path atoms
	atoms := func(b backEdge) []*Term {
		var out []*Term
		for _, a := range b.st.pc[b.npc:] {
			out = append(out, a)
		}
		return out
	}
	// usable atoms depend on pre-loop values and the given terms only
	usable := func(a *Term, allowed map[int]bool) bool {
		if a.fv {
			return false
		}
		c := map[int]*Term{}
		constsOf(a, c, map[int]bool{})
		for id := range c {
			if id >= l.thr && !allowed[id] && !x.entryConst(id) {
				return false
			}
		}
		return true
	}
	// counter bounds
	for _, c := range ctrs {
		c := c
		seen := map[int]bool{}
		for _, b := range bs {
			for _, a := range atoms(b) {
				neg := false
				at := a
				if at.Op == "not" {
					neg = true
					at = at.Args[0]
				}
				if at.Op != "<" && at.Op != "<=" && at.Op != "=" {
					continue
				}
				for k, t := range at.Args {
					base, _ := refBase(t)
					if base != c.p {
						continue
					}
					o := at.Args[1-k]
					if !l.invariant(o) || seen[o.id] {
						continue
					}
					_ = neg
					seen[o.id] = true
					add(fmt.Sprintf("phi%d < %s", c.i, o), func(st *State, ph [][]*Term) *Term { return Lt(ph[c.i][c.j], o) })
					add(fmt.Sprintf("phi%d <= %s", c.i, o), func(st *State, ph [][]*Term) *Term { return Le(ph[c.i][c.j], o) })
					add(fmt.Sprintf("phi%d >= %s", c.i, o), func(st *State, ph [][]*Term) *Term { return Le(o, ph[c.i][c.j]) })
				}
			}
		}
	}
	// scan invariants over counters
	for _, c := range ctrs {
		c := c
		allowed := map[int]bool{c.p.id: true}
		d := indexShift(bs, c.p)
		k := BVar("j", SInt)
		jt := Sub(k, IntT(d)) // head counter value of the iteration handling index k
		var disj []*Term
		for _, b := range bs {
			var conj []*Term
			for _, a := range atoms(b) {
				if !usable(a, allowed) || !mentions(a, c.p) {
					continue
				}
				conj = append(conj, Subst(a, map[int]*Term{c.p.id: jt}))
			}
			disj = append(disj, And(conj...))
		}
		up := func(g *Term) func(st *State, ph [][]*Term) *Term {
			return func(st *State, ph [][]*Term) *Term {
				p := ph[c.i][c.j]
				return Forall([]*Term{k}, Implies(And(Le(Add(c.e, IntT(d)), k), Lt(k, Add(p, IntT(d)))), g))
			}
		}
		down := func(g *Term) func(st *State, ph [][]*Term) *Term {
			return func(st *State, ph [][]*Term) *Term {
				p := ph[c.i][c.j]
				return Forall([]*Term{k}, Implies(And(Lt(Add(p, IntT(d)), k), Le(k, Add(c.e, IntT(d)))), g))
			}
		}
		// what an inner loop found at an index of its own
		for _, b := range bs {
			if g := innerScan(x, l, b, c.p, atoms(b), usable); g != nil && len(bs) == 1 {
				g = Subst(g, map[int]*Term{c.p.id: jt})
				add(fmt.Sprintf("scan phi%d: %s", c.i, g), up(g))
			}
		}
		if len(disj) == 1 {
			for _, g := range conjuncts(disj[0]) {
				if g.Op == "true" {
					continue
				}
				add(fmt.Sprintf("scan phi%d: %s", c.i, g), up(g))
				add(fmt.Sprintf("scandown phi%d: %s", c.i, g), down(g))
			}
		} else if g := Or(disj...); g.Op != "true" {
			add(fmt.Sprintf("scan phi%d: %s", c.i, g), up(g))
			add(fmt.Sprintf("scandown phi%d: %s", c.i, g), down(g))
		}
		// boolean accumulators
		for i, t := range pts {
			if len(l.phiT[i]) != 1 || !l.phiMod[fmt.Sprintf("%d/0", i)] || leaves(t)[0].Sort != SBool {
				continue
			}
			i := i
			e0, _ := safeLeaves(l.entry[i], t)
			b := l.phiT[i][0]
			for _, want := range []bool{true, false} {
				var on []*Term
				for _, be := range bs {
					nv := be.phis[i][0]
					if nv == b {
						continue
					}
					var conj []*Term
					for _, a := range atoms(be) {
						if usable(a, allowed) && mentions(a, c.p) {
							conj = append(conj, a)
						}
					}
					switch {
					case nv.Op == "true" && want || nv.Op == "false" && !want:
						on = append(on, And(conj...))
					case want && usable(nv, map[int]bool{c.p.id: true, b.id: true}):
						// b' = b || phi
						on = append(on, And(append(conj, Subst(nv, map[int]*Term{b.id: tFalse}))...))
					case !want && usable(nv, map[int]bool{c.p.id: true, b.id: true}):
						on = append(on, And(append(conj, Not(Subst(nv, map[int]*Term{b.id: tTrue})))...))
					}
				}
				if len(on) == 0 {
					continue
				}
				g := Subst(Or(on...), map[int]*Term{c.p.id: jt})
				want := want
				add(fmt.Sprintf("flag phi%d", i), func(st *State, ph [][]*Term) *Term {
					p := ph[c.i][c.j]
					ex := Exists([]*Term{k}, And(Le(Add(c.e, IntT(d)), k), Lt(k, Add(p, IntT(d))), g))
					if want {
						return Eq(ph[i][0], Or(e0[0], ex))
					}
					return Eq(ph[i][0], And(e0[0], Not(ex)))
				})
			}
		}
		// joined texts
		for _, lst := range listsIndexed(bs, c.p, l) {
			lst := lst
			for _, sep := range separators(bs) {
				sep := sep
				for i, t := range pts {
					if len(l.phiT[i]) != 1 || leaves(t)[0].Sort != SStr || !l.phiMod[fmt.Sprintf("%d/0", i)] {
						continue
					}
					i := i
					add(fmt.Sprintf("join phi%d", i), func(st *State, ph [][]*Term) *Term {
						return Eq(ph[i][0], UF("join", Strs(lst.arr, lst.off, Sub(ph[c.i][c.j], c.e)), sep))
					})
				}
				if m := l.mods["SB|"]; m != nil && !m.full {
					for _, r := range m.refs {
						r := r
						add("join builder", func(st *State, ph [][]*Term) *Term {
							return Eq(x.gf(st, "SB|", SStr, r), UF("join", Strs(lst.arr, lst.off, Sub(ph[c.i][c.j], c.e)), sep))
						})
					}
				}
			}
		}
		// folds over string lists
		for _, lst := range listsIndexed(bs, c.p, l) {
			for i, t := range pts {
				if !isStringSlice(t) || !l.phiMod[fmt.Sprintf("%d/2", i)] {
					continue
				}
				i := i
				et := t.Underlying().(*types.Slice).Elem()
				es, _ := safeLeaves(l.entry[i], t)
				for _, fname := range sortedKeys(folds) {
					fname := fname
					lst := lst
					add(fmt.Sprintf("fold %s phi%d", fname, i), func(st *State, ph [][]*Term) *Term {
						v := &SliceV{ph[i][0], ph[i][1], ph[i][2], ph[i][3], et}
						n := Sub(ph[c.i][c.j], c.e)
						return Eq(x.strsOf(st, v), App(fname, SSL, Strs(lst.arr, lst.off, n)))
					})
				}
				_ = es
				// plain copy
				lst := lst
				add(fmt.Sprintf("copy phi%d", i), func(st *State, ph [][]*Term) *Term {
					v := &SliceV{ph[i][0], ph[i][1], ph[i][2], ph[i][3], et}
					n := Sub(ph[c.i][c.j], c.e)
					return Eq(x.strsOf(st, v), Strs(lst.arr, lst.off, n))
				})
			}
		}
		// appended lengths
		for i, t := range pts {
			if _, ok := t.Underlying().(*types.Slice); ok && l.phiMod[fmt.Sprintf("%d/2", i)] {
				i := i
				es, _ := safeLeaves(l.entry[i], t)
				add(fmt.Sprintf("len phi%d", i), func(st *State, ph [][]*Term) *Term {
					return Eq(Sub(ph[i][2], es[2]), Sub(ph[c.i][c.j], c.e))
				})
				add(fmt.Sprintf("len phi%d <=", i), func(st *State, ph [][]*Term) *Term {
					return Le(Sub(ph[i][2], es[2]), Sub(ph[c.i][c.j], c.e))
				})
			}
		}
	}
	// element-wise stores into a slice over a counter (values filled in place)
	l.genMapRange(bs, atoms, usable, add)
	return cs
}

// innerScan states what the iteration that led to back edge b knows about the
// element at counter p and some index at which an inner loop was left.
func innerScan(x *Exec, l *loopRun, b backEdge, p *Term, as []*Term, usable func(*Term, map[int]bool) bool) *Term {
	for _, a := range as {
		if a.fv || !mentions(a, p) || hasQuant(a) {
			continue
		}
		cm := map[int]*Term{}
		constsOf(a, cm, map[int]bool{})
		var q *Term
		n := 0
		for id, t := range cm {
			if id != p.id && id >= l.thr && !x.entryConst(id) {
				q, n = t, n+1
			}
		}
		if n != 1 || q.Sort != SInt {
			continue
		}
		d := indexShift([]backEdge{b}, q)
		k := BVar("i", SInt)
		sub := map[int]*Term{q.id: Sub(k, IntT(d))}
		var conj []*Term
		for _, e := range as {
			if mentions(e, q) && !hasQuant(e) && usable(e, map[int]bool{p.id: true, q.id: true}) {
				conj = append(conj, Subst(e, sub))
			}
		}
		return Exists([]*Term{k}, And(conj...))
	}
	return nil
}

func hasQuant(t *Term) bool {
	found := false
	walk(t, map[int]bool{}, func(t *Term) {
		if t.Op == "forall" || t.Op == "exists" {
			found = true
		}
	})
	return found
}

func mentions(t, p *Term) bool {
	c := map[int]*Term{}
	constsOf(t, c, map[int]bool{})
	_, ok := c[p.id]
	return ok
}

func isStringSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// indexShift finds d such that elements are indexed by p+d.
func indexShift(bs []backEdge, p *Term) int64 {
	best := int64(0)
	found := false
	for _, b := range bs {
		for _, a := range b.st.pc[b.npc:] {
			walk(a, map[int]bool{}, func(t *Term) {
				if t.Op == "select" && t.Args[1].Sort == SInt {
					if base, n := addBase(t.Args[1], p); base && !found {
						best, found = n, true
					}
				}
			})
		}
	}
	if !found {
		for _, b := range bs {
			for _, a := range b.st.pc[b.npc:] {
				walk(a, map[int]bool{}, func(t *Term) {
					if t.Op == "+" && t.Args[0] == p && t.Args[1].Op == "int" && !found {
						best, found = t.Args[1].Int.Int64(), true
					}
				})
			}
		}
	}
	return best
}

// addBase decomposes t = p + n or off + (p + n).
func addBase(t, p *Term) (bool, int64) {
	if t == p {
		return true, 0
	}
	if t.Op == "+" {
		for _, a := range t.Args {
			if a == p {
				for _, b := range t.Args {
					if b.Op == "int" {
						return true, b.Int.Int64()
					}
				}
				return true, 0
			}
		}
		for _, a := range t.Args {
			if a.Op == "+" {
				if ok, n := addBase(a, p); ok {
					return true, n
				}
			}
		}
	}
	return false, 0
}

func walk(t *Term, seen map[int]bool, f func(*Term)) {
	if seen[t.id] {
		return
	}
	seen[t.id] = true
	f(t)
	for _, a := range t.Args {
		walk(a, seen, f)
	}
}

// separators are the short literals in the texts an iteration builds.
func separators(bs []backEdge) []*Term {
	var out []*Term
	seen := map[int]bool{}
	try := func(t *Term) {
		if t.Op == "str" && len(t.Name) > 0 && len(t.Name) <= 2 && len(out) < 3 {
			out = append(out, t)
		}
	}
	for _, b := range bs {
		if h := b.st.heap["SB|"]; h != nil {
			walk(h, seen, try)
		}
		for _, ph := range b.phis {
			for _, t := range ph {
				if t.Sort == SStr {
					walk(t, seen, try)
				}
			}
		}
	}
	return out
}

type listRef struct{ arr, off *Term }

// listsIndexed finds string arrays read at the counter.
func listsIndexed(bs []backEdge, p *Term, l *loopRun) []listRef {
	var out []listRef
	seen := map[int]bool{}
	try := func(t *Term) {
		if t.Op != "select" || t.Sort != SStr || t.Args[1].Sort != SInt {
			return
		}
		arr := t.Args[0]
		if !l.invariant(arr) || seen[arr.id] {
			return
		}
		ok, n := addBase(t.Args[1], p)
		if !ok {
			return
		}
		seen[arr.id] = true
		off := IntT(0)
		// index = off + (p + n) with the first element at off
		rest := Subst(t.Args[1], map[int]*Term{p.id: IntT(-n)})
		off = rest
		// entry counter e satisfies e + n = 0 for a full scan
		out = append(out, listRef{arr, off})
	}
	for _, b := range bs {
		s := map[int]bool{}
		for _, a := range b.st.pc[b.npc:] {
			walk(a, s, try)
		}
		for _, c := range sortedKeys(b.st.heap) {
			walk(b.st.heap[c], s, try)
		}
		for _, ph := range b.phis {
			for _, t := range ph {
				walk(t, s, try)
			}
		}
	}
	return out
}

// genMapRange proposes invariants for iterations over maps.
func (l *loopRun) genMapRange(bs []backEdge, atoms func(backEdge) []*Term, usable func(*Term, map[int]bool) bool, add func(string, func(*State, [][]*Term) *Term)) {
	x := l.x
	for _, itn := range sortedKeys(l.mods) {
		if !strings.HasPrefix(itn, "IT|") {
			continue
		}
		itn := itn
		vh := l.head.heap[itn]
		if vh == nil {
			continue
		}
		ks, _, _ := arrParts(vh.Sort)
		var it *IterV
		for _, v := range l.headFr.env {
			if i, ok := v.(*IterV); ok && i.Name == itn {
				it = i
			}
		}
		if it == nil {
			continue
		}
		k := BVar("k", ks)
		vis := func(st *State) *Term { return x.comp(st, itn, vh.Sort) }
		add("visited in domain", func(st *State, ph [][]*Term) *Term {
			return Forall([]*Term{k}, Implies(Select(vis(st), k), Select(it.Dom0, k)), []*Term{Select(vis(st), k)})
		})
		// the key constant of each back edge
		keyOf := func(b backEdge) *Term {
			v := b.st.heap[itn]
			if v != nil && v.Op == "store" && v.Args[0] == vh {
				return v.Args[1]
			}
			return nil
		}
		okKeys := true
		for _, b := range bs {
			if keyOf(b) == nil {
				okKeys = false
			}
		}
		if !okKeys {
			continue
		}
		// modified contents at invariant references: head value -> entry value
		type content struct {
			comp string
			ref  *Term
			xh   *Term
			x0   *Term
		}
		var cts []content
		for _, c := range sortedKeys(l.mods) {
			m := l.mods[c]
			if m.full || strings.HasPrefix(c, "IT|") {
				continue
			}
			for _, r := range m.refs {
				xh := l.newVals[fmt.Sprintf("%s@%d", c, r.id)]
				if xh == nil {
					continue
				}
				base, ok := l.st.heap[c]
				if !ok {
					base = x.base[c]
				}
				cts = append(cts, content{c, r, xh, Select(base, r)})
			}
		}
		// normalise: reads of head contents at the current key are entry reads
		norm := func(t, key *Term) *Term {
			m := map[int]*Term{}
			for _, c := range cts {
				if is, _, ok := arrParts(c.xh.Sort); ok && is == ks {
					s := Select(c.xh, key)
					m[s.id] = Select(c.x0, key)
				}
			}
			return Subst(t, m)
		}
		cond := func(b backEdge, key *Term) *Term {
			var conj []*Term
			for _, a := range atoms(b) {
				a = norm(a, key)
				if usable(a, map[int]bool{key.id: true}) && mentions(a, key) {
					conj = append(conj, Subst(a, map[int]*Term{key.id: k}))
				}
			}
			return And(conj...)
		}
		// what distinguishes a back edge from the others
		atomsOf := func(b backEdge) []*Term {
			c := cond(b, keyOf(b))
			if c.Op == "and" {
				return c.Args
			}
			return []*Term{c}
		}
		count := map[int]int{}
		for _, b := range bs {
			for _, a := range atomsOf(b) {
				count[a.id]++
			}
		}
		distinguishing := func(b backEdge) *Term {
			var conj []*Term
			for _, a := range atomsOf(b) {
				if count[a.id] < len(bs) {
					conj = append(conj, a)
				}
			}
			return And(conj...)
		}
		// scan over visited keys
		var disj []*Term
		for _, b := range bs {
			disj = append(disj, cond(b, keyOf(b)))
		}
		if g := Or(disj...); g.Op != "true" {
			for _, a := range conjuncts(g) {
				a := a
				add("visited: "+a.String(), func(st *State, ph [][]*Term) *Term {
					return Forall([]*Term{k}, Implies(Select(vis(st), k), a), []*Term{Select(vis(st), k)})
				})
			}
		}
		// pointwise effects
		for _, c := range cts {
			c := c
			is, es, ok := arrParts(c.xh.Sort)
			if !ok || is != SStr {
				continue
			}
			type eff struct{ cond, g, e *Term }
			var effs []eff
			good := true
			same := true
			for _, b := range bs {
				key := keyOf(b)
				cur := b.st.heap[c.comp]
				nv := Select(cur, c.ref)
				if nv == c.xh {
					continue
				}
				if nv.Op != "store" || nv.Args[0] != c.xh {
					good = false
					break
				}
				idx := nv.Args[1]
				val := nv.Args[2]
				if idx != key {
					same = false
				}
				// reads of the head content at the written index
				m := map[int]*Term{}
				s := Select(c.xh, idx)
				m[s.id] = Select(c.x0, idx)
				val = norm(Subst(val, m), key)
				al := map[int]bool{key.id: true}
				if !usable(val, al) || !usable(idx, al) {
					good = false
					break
				}
				sub := map[int]*Term{key.id: k}
				effs = append(effs, eff{distinguishing(b), Subst(idx, sub), Subst(val, sub)})
			}
			if !good || len(effs) == 0 {
				continue
			}
			cur := func(st *State) *Term { return Select(x.comp(st, c.comp, l.head.heap[c.comp].Sort), c.ref) }
			if same && ks == SStr {
				add("pointwise "+c.comp, func(st *State, ph [][]*Term) *Term {
					v := Select(c.x0, k)
					for _, e := range effs {
						v = Ite(And(Select(vis(st), k), e.cond), e.e, v)
					}
					xc := cur(st)
					return Forall([]*Term{k}, Eq(Select(xc, k), v), []*Term{Select(xc, k)})
				})
				_ = es
			} else if len(effs) == 1 {
				e := effs[0]
				h := BVar("h", SStr)
				k2 := BVar("k2", ks)
				add("image "+c.comp, func(st *State, ph [][]*Term) *Term {
					xc := cur(st)
					return Forall([]*Term{k}, Implies(And(Select(vis(st), k), e.cond), Eq(Select(xc, e.g), e.e)), []*Term{Select(vis(st), k)})
				})
				add("image frame "+c.comp, func(st *State, ph [][]*Term) *Term {
					xc := cur(st)
					g2 := Subst(e.g, map[int]*Term{k.id: k2})
					c2 := Subst(e.cond, map[int]*Term{k.id: k2})
					return Forall([]*Term{h}, Implies(Forall([]*Term{k2}, Implies(And(Select(vis(st), k2), c2), Not(Eq(g2, h)))), Eq(Select(xc, h), Select(c.x0, h))), []*Term{Select(xc, h)})
				})
			}
		}
		// bags of formatted entries
		for i, t := range l.phiTypes() {
			if !isStringSlice(t) || !l.phiMod[fmt.Sprintf("%d/2", i)] || len(bs) != 1 {
				continue
			}
			b := bs[0]
			key := keyOf(b)
			et := t.Underlying().(*types.Slice).Elem()
			nv := &SliceV{b.phis[i][0], b.phis[i][1], b.phis[i][2], b.phis[i][3], et}
			hv := &SliceV{l.phiT[i][0], l.phiT[i][1], l.phiT[i][2], l.phiT[i][3], et}
			ns := x.strsOf(b.st, nv)
			hs := x.strsOf(l.head, hv)
			ns = peel(ns)
			if debugLoops {
				fmt.Println("   bag:", clip(ns.String()), "|", clip(hs.String()))
			}
			if ns.Op != "ctor:snoc" || ns.Args[0] != hs {
				continue
			}
			e := norm(ns.Args[1], key)
			if !usable(e, map[int]bool{key.id: true}) {
				continue
			}
			lam := lambda(Subst(e, map[int]*Term{key.id: k}), k)
			es, _ := safeLeaves(l.entry[i], t)
			if es[2].Op != "int" || es[2].Int.Sign() != 0 {
				continue
			}
			i := i
			add("bag", func(st *State, ph [][]*Term) *Term {
				v := &SliceV{ph[i][0], ph[i][1], ph[i][2], ph[i][3], et}
				return Eq(bagOf(x.strsOf(st, v)), mapBag(vis(st), lam))
			})
		}
	}
}

// peel turns a list view of n+1 elements into the view of n with the last one
// appended (proof hint only: the invariant built from it is checked).
func peel(l *Term) *Term {
	if l.Op != "app:strs" {
		return l
	}
	n := l.Args[2]
	if _, c := refBase(n); c.Sign() <= 0 {
		return l
	}
	p := Sub(n, IntT(1))
	return Snoc(Strs(l.Args[0], l.Args[1], p), Select(l.Args[0], Add(l.Args[1], p)))
}

func firstPos(b *ssa.BasicBlock) (p token.Pos) {
	for _, i := range b.Instrs {
		if i.Pos().IsValid() {
			return i.Pos()
		}
	}
	for _, s := range b.Succs {
		for _, i := range s.Instrs {
			if i.Pos().IsValid() {
				return i.Pos()
			}
		}
	}
	return
}
