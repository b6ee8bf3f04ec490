package main

// Theorems about lists, proved by structural induction.

// Theorem is a statement about every list.
type Theorem struct {
	Name string
	Stmt func(l *Term) *Term
	Trig func(l *Term) [][]*Term
}

var theorems = map[string]*Theorem{}

func addTheorem(t *Theorem) { theorems[t.Name] = t }

func (t *Theorem) statement() *Term {
	l := BVar("l", SSL)
	return Forall([]*Term{l}, t.Stmt(l), t.Trig(l)...)
}

// obligations are the base case and the induction step.
func (t *Theorem) obligations(u *Unit, labels []string) []*Oblig {
	l, x := Fresh("ind.l", SSL), Fresh("ind.x", SStr)
	return []*Oblig{
		{Unit: u, Kind: "theorem", Labels: labels, Name: t.Name + ": empty list", Goal: t.Stmt(slNil)},
		{Unit: u, Kind: "theorem", Labels: labels, Name: t.Name + ": induction step", Facts: []*Term{t.Stmt(l)}, Goal: t.Stmt(Snoc(l, x))},
	}
}

func init() {
	// nospace: no element contains a space
	addFold(&Fold{Name: "nospace", Ret: SBool,
		Nil: func([]*Term) *Term { return tTrue },
		Snoc: func(rec, _, x *Term, _ []*Term) *Term {
			return And(rec, Not(StrOp("str.contains", SBool, x, StrT(" "))))
		}})
	// plain: every element is a non-empty trimmed text without spaces
	addFold(&Fold{Name: "plain", Ret: SBool,
		Nil: func([]*Term) *Term { return tTrue },
		Snoc: func(rec, _, x *Term, _ []*Term) *Term {
			return And(rec, Not(StrOp("str.contains", SBool, x, StrT(" "))), Not(Eq(x, StrT(""))), Eq(UF("trim", x), x))
		}})
	pscan := func(l *Term) *Term { return UF("pscan", l) }
	plain := func(l *Term) *Term { return UF("plain", l) }
	nospace := func(l *Term) *Term { return UF("nospace", l) }
	one := func(ts ...*Term) [][]*Term {
		var out [][]*Term
		for _, t := range ts {
			out = append(out, []*Term{t})
		}
		return out
	}
	addTheorem(&Theorem{Name: "scanplain", Stmt: func(l *Term) *Term { return Implies(nospace(l), plain(pscan(l))) }, Trig: func(l *Term) [][]*Term { return one(pscan(l)) }})
	addTheorem(&Theorem{Name: "scanid", Stmt: func(l *Term) *Term { return Implies(plain(l), Eq(pscan(l), l)) }, Trig: func(l *Term) [][]*Term { return one(plain(l)) }})
	addTheorem(&Theorem{Name: "plainnospace", Stmt: func(l *Term) *Term { return Implies(plain(l), nospace(l)) }, Trig: func(l *Term) [][]*Term { return one(plain(l)) }})
	x, l := BVar("x", SStr), BVar("l", SSL)
	sp := StrT(" ")
	addAxiom("scan-empty", []string{"app:split", "app:pscan", "app:nospace"}, Eq(mk("app:pscan", SSL, "", mk("app:split", SSL, "", StrT(""), sp)), slNil))
	// library: the pieces of a split contain no separator, and joining pieces
	// without separators is undone by splitting
	split := mk("app:split", SSL, "", x, sp)
	addAxiom("split-nospace", []string{"app:split", "app:nospace"}, Forall([]*Term{x}, nospace(split), []*Term{split}))
	join := mk("app:join", SStr, "", l, sp)
	addAxiom("split-join", []string{"app:split", "app:join", "app:nospace"}, Forall([]*Term{l}, Implies(And(nospace(l), Not(Eq(l, slNil))), Eq(mk("app:split", SSL, "", join, sp), l)), []*Term{join}))
}
