package main

// SMT-LIB printing, background axioms and the solver portfolio.

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"time"
)

var slNil = Ctor("nil", SSL)
var jAbsent = Ctor("jabsent", SJV)

// Snoc appends to a list.
func Snoc(l, x *Term) *Term { return Ctor("snoc", SSL, l, x) }

// Axiom is a background fact included when all of its symbols occur.
type Axiom struct {
	Name  string
	Needs []string // op names
	T     *Term
}

var axioms []*Axiom

func addAxiom(name string, needs []string, t *Term) {
	axioms = append(axioms, &Axiom{name, needs, t})
}

// groundUnfolders produce definitional instances for occurring ground terms.
var groundUnfolders = map[string]func(t *Term) []*Term{}

// Query is one satisfiability question.
type Query struct {
	Facts []*Term
	Goal  *Term
}

type printer struct {
	theory bool
	sb     *strings.Builder
	decl   map[string]string
	lits   []string
	litIdx map[string]int
	refs   map[int]int
	names  map[int]string
	nDef   int
}

func sortText(s Sort, theory bool) string {
	if !theory {
		return string(s)
	}
	return strings.ReplaceAll(string(s), "Str", "String")
}

func (p *printer) sort(s Sort) string { return sortText(s, p.theory) }

func smtName(n string) string {
	return "|" + strings.NewReplacer("|", "_", "\\", "_").Replace(n) + "|"
}

func smtString(s string) string {
	var sb strings.Builder
	sb.WriteByte('"')
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c == '"':
			sb.WriteString(`""`)
		case c == '\\' || c < 32 || c > 126:
			fmt.Fprintf(&sb, `\u{%x}`, c)
		default:
			sb.WriteByte(c)
		}
	}
	sb.WriteByte('"')
	return sb.String()
}

// strOpsTheory lists operators that exist in the theory of strings.
var opaqueNames = map[string]string{
	"str.++": "s_cat", "str.len": "s_len", "str.substr": "s_sub", "str.prefixof": "s_prefixof",
	"str.suffixof": "s_suffixof", "str.contains": "s_contains", "str.<": "s_lt", "str.<=": "s_le",
	"str.indexof": "s_indexof", "str.at": "s_at", "str.to_code": "s_code", "str.from_code": "s_fromcode",
}

func (p *printer) count(t *Term, seen map[int]bool) {
	p.refs[t.id]++
	if seen[t.id] {
		return
	}
	seen[t.id] = true
	for _, a := range t.Args {
		p.count(a, seen)
	}
}

func (p *printer) declare(key, text string) {
	if _, ok := p.decl[key]; !ok {
		p.decl[key] = text
		p.sb.WriteString(text)
		p.sb.WriteByte('\n')
	}
}

func (p *printer) lit(s string) string {
	if p.theory {
		return smtString(s)
	}
	i, ok := p.litIdx[s]
	if !ok {
		i = len(p.lits)
		p.litIdx[s] = i
		p.lits = append(p.lits, s)
		p.declare(fmt.Sprintf("lit%d", i), fmt.Sprintf("(declare-const lit!%d Str) ; %q", i, s))
	}
	return fmt.Sprintf("lit!%d", i)
}

func (p *printer) term(t *Term) string {
	if n, ok := p.names[t.id]; ok {
		return n
	}
	s := p.term1(t)
	if p.refs[t.id] > 1 && !t.fv && len(t.Args) > 0 && len(s) > 24 {
		p.nDef++
		n := fmt.Sprintf("d!%d", p.nDef)
		fmt.Fprintf(p.sb, "(define-fun %s () %s %s)\n", n, p.sort(t.Sort), s)
		p.names[t.id] = n
		return n
	}
	return s
}

func (p *printer) term1(t *Term) string {
	switch t.Op {
	case "const":
		n := smtName(t.Name)
		p.declare("c"+t.Name, fmt.Sprintf("(declare-const %s %s)", n, p.sort(t.Sort)))
		return n
	case "var":
		return smtName(t.Name)
	case "int":
		if t.Int.Sign() < 0 {
			return "(- " + t.Name[1:] + ")"
		}
		return t.Name
	case "str":
		return p.lit(t.Name)
	case "true", "false":
		return t.Op
	case "as-const":
		return "((as const " + p.sort(t.Sort) + ") " + p.term(t.Args[0]) + ")"
	case "forall", "exists":
		var sb strings.Builder
		body := p.term(t.Args[0])
		var pats []string
		for _, pt := range t.Pats {
			var ps []string
			for _, x := range pt {
				ps = append(ps, p.term(x))
			}
			pats = append(pats, " :pattern ("+strings.Join(ps, " ")+")")
		}
		sb.WriteString("(" + t.Op + " (")
		for _, v := range t.Vars {
			sb.WriteString("(" + smtName(v.Name) + " " + p.sort(v.Sort) + ")")
		}
		sb.WriteString(") ")
		if len(pats) > 0 {
			sb.WriteString("(! " + body + strings.Join(pats, "") + ")")
		} else {
			sb.WriteString(body)
		}
		sb.WriteString(")")
		return sb.String()
	case "layer":
		if t.fv {
			panic(unsupported{"heap layer under a quantifier"})
		}
		n := fmt.Sprintf("|layer!%d|", t.id)
		if _, ok := p.decl["l"+n]; !ok {
			a, h, wm := p.term(t.Args[0]), p.term(t.Args[1]), p.term(t.Args[2])
			p.declare("l"+n, fmt.Sprintf("(declare-const %s %s)", n, p.sort(t.Sort)))
			fmt.Fprintf(p.sb, "(assert (forall ((i Int)) (! (= (select %s i) (ite (<= i %s) (select %s i) (select %s i))) :pattern ((select %s i)))))\n", n, wm, a, h, n)
		}
		return n
	}
	var as []string
	for _, a := range t.Args {
		as = append(as, p.term(a))
	}
	op := t.Op
	switch {
	case strings.HasPrefix(op, "ctor:"):
		op = op[5:]
	case strings.HasPrefix(op, "app:"):
		name := smtName("f_" + op[4:])
		var ss []string
		for _, a := range t.Args {
			ss = append(ss, p.sort(a.Sort))
		}
		key := "f" + op + strings.Join(ss, ",") + string(t.Sort)
		p.declare(key, fmt.Sprintf("(declare-fun %s (%s) %s)", name, strings.Join(ss, " "), p.sort(t.Sort)))
		op = name
	case strings.HasPrefix(op, "str."):
		if !p.theory {
			name := opaqueNames[op]
			if name == "" {
				name = smtName(op)
			}
			var ss []string
			for _, a := range t.Args {
				ss = append(ss, p.sort(a.Sort))
			}
			p.declare("f"+op, fmt.Sprintf("(declare-fun %s (%s) %s)", name, strings.Join(ss, " "), p.sort(t.Sort)))
			op = name
		}
	}
	if len(as) == 0 {
		return op
	}
	return "(" + op + " " + strings.Join(as, " ") + ")"
}

// opsOf collects operator names.
func opsOf(t *Term, out map[string]bool, seen map[int]bool) {
	if seen[t.id] {
		return
	}
	seen[t.id] = true
	out[t.Op] = true
	for _, a := range t.Args {
		opsOf(a, out, seen)
	}
}

// closedTerms collects ground subterms.
func closedTerms(t *Term, seen map[int]bool, f func(*Term)) {
	if seen[t.id] {
		return
	}
	seen[t.id] = true
	if !t.fv && t.Op != "var" {
		f(t)
	}
	for _, a := range t.Args {
		closedTerms(a, seen, f)
	}
}

// relevant keeps the facts connected to the goal through shared constants.
func expand(q *Query) []*Term {
	facts := append([]*Term(nil), q.Facts...)
	facts = append(facts, Not(q.Goal))
	// ground unfoldings, two rounds
	seen := map[int]bool{}
	done := map[int]bool{}
	for round := 0; round < 3; round++ {
		var add []*Term
		for _, f := range facts {
			closedTerms(f, seen, func(t *Term) {
				if done[t.id] {
					return
				}
				if strings.HasPrefix(t.Op, "app:") {
					if u, ok := groundUnfolders[t.Op[4:]]; ok {
						done[t.id] = true
						add = append(add, u(t)...)
					}
				}
			})
		}
		if len(add) == 0 {
			break
		}
		facts = append(facts, add...)
	}
	// references held in maps were allocated before the map was last seen
	rseen := map[int]bool{}
	var rows []*Term
	for _, f := range facts {
		closedTerms(f, rseen, func(t *Term) {
			if _, es, ok := arrParts(t.Sort); ok && es == SInt && (t.Op == "select" || t.Op == "const") {
				rows = append(rows, t)
			}
		})
	}
	for _, t := range rows {
		if wm := refRow(t); wm != nil {
			ks, _, _ := arrParts(t.Sort)
			k := BVar("k", ks)
			r := Select(t, k)
			facts = append(facts, Forall([]*Term{k}, And(Le(IntT(0), r), Le(r, wm)), []*Term{r}))
		}
	}
	// bags of map entries depend on the entries only
	var bags []*Term
	bseen := map[int]bool{}
	for _, f := range facts {
		closedTerms(f, bseen, func(t *Term) {
			if t.Op == "app:mapbag" {
				bags = append(bags, t)
			}
		})
	}
	if len(bags) > 8 {
		bags = bags[:8]
	}
	for i := range bags {
		for j := i + 1; j < len(bags); j++ {
			a, b := bags[i], bags[j]
			is, _, _ := arrParts(a.Args[0].Sort)
			if a.Args[0].Sort != b.Args[0].Sort {
				continue
			}
			sk := Const(fmt.Sprintf("bag!%d!%d", a.id, b.id), is)
			facts = append(facts, Or(Eq(a, b), Not(Eq(Select(a.Args[0], sk), Select(b.Args[0], sk))),
				And(Select(a.Args[0], sk), Not(Eq(Select(a.Args[1], sk), Select(b.Args[1], sk))))))
		}
	}
	// unfold the functions of the new instances
	for round := 0; round < 2 && len(bags) > 1; round++ {
		var add []*Term
		for _, f := range facts {
			closedTerms(f, seen, func(t *Term) {
				if !done[t.id] && strings.HasPrefix(t.Op, "app:") {
					if u, ok := groundUnfolders[t.Op[4:]]; ok {
						done[t.id] = true
						add = append(add, u(t)...)
					}
				}
			})
		}
		facts = append(facts, add...)
	}
	// axioms by occurring symbols, to fixpoint
	ops := map[string]bool{}
	oseen := map[int]bool{}
	for _, f := range facts {
		opsOf(f, ops, oseen)
	}
	used := map[*Axiom]bool{}
	for {
		n := 0
		for _, ax := range axioms {
			if used[ax] {
				continue
			}
			ok := true
			for _, nd := range ax.Needs {
				if !ops[nd] {
					ok = false
					break
				}
			}
			if ok {
				used[ax] = true
				facts = append(facts, ax.T)
				opsOf(ax.T, ops, oseen)
				n++
			}
		}
		if n == 0 {
			break
		}
	}
	// extensionality instances for arrays compared through functions
	groups := map[string][]*Term{}
	gseen := map[string]bool{}
	cseen := map[int]bool{}
	for _, f := range facts {
		closedTerms(f, cseen, func(t *Term) {
			if !strings.HasPrefix(t.Op, "app:") {
				return
			}
			for i, a := range t.Args {
				if _, _, ok := arrParts(a.Sort); ok && !a.fv {
					k := fmt.Sprintf("%s/%d/%s", t.Op, i, a.Sort)
					kk := fmt.Sprintf("%s=%d", k, a.id)
					if !gseen[kk] {
						gseen[kk] = true
						groups[k] = append(groups[k], a)
					}
				}
			}
		})
	}
	pairs := map[[2]int]bool{}
	for _, k := range sortedKeys(groups) {
		g := groups[k]
		if len(g) > 12 {
			g = g[:12]
		}
		for i := range g {
			for j := i + 1; j < len(g); j++ {
				a, b := g[i], g[j]
				if pairs[[2]int{a.id, b.id}] {
					continue
				}
				pairs[[2]int{a.id, b.id}] = true
				is, _, _ := arrParts(a.Sort)
				sk := Const(fmt.Sprintf("ext!%d!%d", a.id, b.id), is)
				facts = append(facts, Or(Eq(a, b), Not(Eq(Select(a, sk), Select(b, sk)))))
			}
		}
	}
	return facts
}

// text prints a query.
func (q *Query) text(theory bool) string {
	facts := expand(q)
	p := &printer{theory: theory, sb: &strings.Builder{}, decl: map[string]string{}, litIdx: map[string]int{}, refs: map[int]int{}, names: map[int]string{}}
	sb := p.sb
	sb.WriteString("(set-logic ALL)\n")
	if !theory {
		sb.WriteString("(declare-sort Str 0)\n")
	}
	fmt.Fprintf(sb, "(declare-datatypes ((SL 0)) (((nil) (snoc (slinit SL) (sllast %s)))))\n", p.sort(SStr))
	fmt.Fprintf(sb, "(declare-datatypes ((JV 0)) (((jabsent) (jstr (jstr_v %s)) (jint (jint_v Int)) (jbool (jbool_v Bool)) (jraw (jraw_v Int)))))\n", p.sort(SStr))
	seen := map[int]bool{}
	for _, f := range facts {
		p.count(f, seen)
	}
	ops := map[string]bool{}
	oseen := map[int]bool{}
	for _, f := range facts {
		opsOf(f, ops, oseen)
	}
	for _, f := range facts {
		s := p.term(f)
		sb.WriteString("(assert " + s + ")\n")
	}
	if !theory {
		p.lit("")
		if len(p.lits) > 1 {
			sb.WriteString("(assert (distinct")
			for i := range p.lits {
				fmt.Fprintf(sb, " lit!%d", i)
			}
			sb.WriteString("))\n")
		}
		if ops["str.len"] {
			p.declare("fstr.len", "(declare-fun s_len (Str) Int)")
			for i, l := range p.lits {
				fmt.Fprintf(sb, "(assert (= (s_len lit!%d) %d))\n", i, len(l))
			}
			sb.WriteString("(assert (forall ((x Str)) (! (and (>= (s_len x) 0) (=> (= (s_len x) 0) (= x lit!" + fmt.Sprint(p.litIdx[""]) + "))) :pattern ((s_len x)))))\n")
			if ops["str.++"] {
				sb.WriteString("(assert (forall ((x Str) (y Str)) (! (= (s_len (s_cat x y)) (+ (s_len x) (s_len y))) :pattern ((s_cat x y)))))\n")
			}
			if ops["str.substr"] {
				sb.WriteString("(assert (forall ((x Str) (o Int) (n Int)) (! (=> (and (<= 0 o) (<= 0 n) (<= (+ o n) (s_len x))) (= (s_len (s_sub x o n)) n)) :pattern ((s_sub x o n)))))\n")
			}
		}
		if ops["str.substr"] {
			p.declare("fstr.len", "(declare-fun s_len (Str) Int)")
			sb.WriteString("(assert (forall ((x Str) (n Int)) (! (=> (= n (s_len x)) (= (s_sub x 0 n) x)) :pattern ((s_sub x 0 n)))))\n")
		}
		if ops["str.++"] {
			e := fmt.Sprintf("lit!%d", p.litIdx[""])
			sb.WriteString("(assert (forall ((x Str) (y Str)) (! (= (= (s_cat x y) " + e + ") (and (= x " + e + ") (= y " + e + "))) :pattern ((s_cat x y)))))\n")
		}
	}
	sb.WriteString("(check-sat)\n")
	return sb.String()
}

// Result of a query.
type Result struct {
	Status string // unsat, sat, unknown
	Solver string
	Time   time.Duration
}

// Stats accumulates solver work.
type Stats struct {
	sync.Mutex
	Queries  int
	Time     time.Duration
	BySolver map[string]int
}

var stats = Stats{BySolver: map[string]int{}}
var solverSem = make(chan struct{}, 8)
var dumpDir = os.Getenv("GOCV_DUMP")
var dumpCtr int

func runSolver(ctx context.Context, name, text string, tmo time.Duration) string {
	select {
	case solverSem <- struct{}{}:
	case <-ctx.Done():
		return "unknown"
	}
	defer func() { <-solverSem }()
	var args []string
	switch name {
	case "z3-new":
		args = []string{"z3-new", "-in", fmt.Sprintf("-t:%d", tmo.Milliseconds()), "-memory:3000"}
	case "z3":
		args = []string{"z3", "-in", fmt.Sprintf("-t:%d", tmo.Milliseconds()), "-memory:3000"}
	case "cvc5":
		args = []string{"cvc5", "--lang=smt2", fmt.Sprintf("--tlimit=%d", tmo.Milliseconds()), "--strings-exp"}
	}
	c2, cancel := context.WithTimeout(ctx, tmo+2*time.Second)
	defer cancel()
	cmd := exec.CommandContext(c2, args[0], args[1:]...)
	cmd.Stdin = strings.NewReader(text)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	t0 := time.Now()
	_ = cmd.Run()
	stats.Lock()
	stats.Queries++
	stats.Time += time.Since(t0)
	stats.Unlock()
	for _, line := range strings.Split(out.String(), "\n") {
		line = strings.TrimSpace(line)
		switch line {
		case "unsat", "sat", "unknown":
			return line
		case "timeout":
			return "unknown"
		}
		if strings.HasPrefix(line, "(error") {
			fmt.Fprintf(os.Stderr, "solver %s: %s\n", name, line)
			if dumpDir != "" {
				_ = os.WriteFile(dumpDir+"/error.smt2", []byte(text), 0644)
			}
			return "unknown"
		}
	}
	return "unknown"
}

// proveCache avoids repeating identical questions.
var proveCache sync.Map

// quickTimeout and slowTimeout bound solver calls.
var quickTimeout = 4 * time.Second
var slowTimeout = 15 * time.Second

// Prove asks whether the facts imply the goal. When quick is set only the
// cheap attempt is made.
func (q *Query) Prove(quick bool) Result {
	if q.Goal.Op == "true" {
		return Result{Status: "unsat", Solver: "simplifier"}
	}
	text := q.lockedText(false)
	key := fmt.Sprintf("%v|%s", quick, text)
	if r, ok := proveCache.Load(key); ok {
		return r.(Result)
	}
	t0 := time.Now()
	r := q.prove(text, quick)
	r.Time = time.Since(t0)
	proveCache.Store(key, r)
	if r.Status == "unsat" {
		stats.Lock()
		stats.BySolver[r.Solver]++
		stats.Unlock()
	}
	if dumpDir != "" && r.Status != "unsat" && !quick {
		dumpCtr++
		_ = os.WriteFile(fmt.Sprintf("%s/q%d.smt2", dumpDir, dumpCtr), []byte(text), 0644)
	}
	return r
}

var fastMode bool

func (q *Query) prove(text string, quick bool) Result {
	tmo := quickTimeout
	if quick {
		tmo = 1500 * time.Millisecond
	}
	s := runSolver(context.Background(), "z3-new", text, tmo)
	if s == "unsat" {
		return Result{Status: s, Solver: "z3-5.3 (uninterpreted strings)"}
	}
	hasStr := strings.Contains(text, "s_len") || strings.Contains(text, "s_cat") || strings.Contains(text, "s_sub") ||
		strings.Contains(text, "s_prefixof") || strings.Contains(text, "s_contains") || strings.Contains(text, "s_at") || strings.Contains(text, "s_suffixof") || strings.Contains(text, "s_indexof")
	if fastMode {
		quick = true
	}
	if quick && (!hasStr || s == "sat" && !strings.Contains(text, "f_join")) {
		return Result{Status: s}
	}
	if quick {
		theory := q.lockedText(true)
		if s := runSolver(context.Background(), "z3-new", theory, tmo); s == "unsat" {
			return Result{Status: s, Solver: "z3-5.3 (strings)"}
		}
		return Result{Status: "unknown"}
	}
	type job struct{ solver, text, label string }
	jobs := []job{}
	// a model of a quantified problem is not taken from one solver alone
	slow := slowTimeout
	if s == "sat" {
		slow = quickTimeout
	}
	if s != "sat" || strings.Contains(text, "(forall ") {
		jobs = append(jobs, job{"cvc5", text, "cvc5 (uninterpreted strings)"}, job{"z3", text, "z3-4.8 (uninterpreted strings)"})
	}
	if hasStr {
		theory := q.lockedText(true)
		jobs = append(jobs, job{"z3-new", theory, "z3-5.3 (strings)"}, job{"cvc5", theory, "cvc5 (strings)"}, job{"z3", theory, "z3-4.8 (strings)"})
	}
	if len(jobs) == 0 {
		return Result{Status: s}
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	type out struct {
		s string
		j job
	}
	ch := make(chan out, len(jobs))
	for _, j := range jobs {
		j := j
		go func() { ch <- out{runSolver(ctx, j.solver, j.text, slow), j} }()
	}
	res := Result{Status: "unknown"}
	for range jobs {
		o := <-ch
		if o.s == "unsat" {
			return Result{Status: "unsat", Solver: o.j.label}
		}
		if o.s == "sat" {
			res.Status = "sat"
		}
	}
	if s == "sat" && !hasStr {
		res.Status = "sat"
	}
	return res
}

// sortTerms orders terms by creation.
func sortTerms(ts []*Term) {
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
}

func (q *Query) lockedText(theory bool) string {
	textMu.Lock()
	defer textMu.Unlock()
	return q.text(theory)
}
