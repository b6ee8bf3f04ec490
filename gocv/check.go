package main

// The deciding check of a property: every obligation of every contract clause
// that states the property, together with the contracts those proofs use.

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

func has(ps []string, p string) bool {
	for _, q := range ps {
		if q == p {
			return true
		}
	}
	return false
}

// clauses lists all postcondition clauses.
func (c *Contract) clauses() []*Clause {
	out := append([]*Clause{}, c.Ensures...)
	out = append(out, c.Exsures...)
	for _, cs := range c.Cases {
		out = append(out, cs.Ensures...)
	}
	return out
}

// states reports whether the contract states (part of) the property.
func (c *Contract) states(p string) bool {
	for _, cl := range c.clauses() {
		if has(cl.Props, p) {
			return true
		}
	}
	for _, g := range c.Guard {
		if has(g.Props, p) {
			return true
		}
	}
	return has(c.Safe, p) || has(c.Frame, p) || has(c.PanicLab, p)
}

func relevant(o *Oblig, c *Contract, p string) bool {
	switch o.Kind {
	case "unsupported", "requires", "safety-append":
		return true
	case "safety":
		return has(c.Safe, p)
	case "frame":
		return has(c.Frame, p)
	}
	return has(o.Labels, p)
}

// partial lists the obligations behind the clauses with the given labels.
func partial(u *Unit, c *Contract, labs []string) []*Oblig {
	var out []*Oblig
	for _, o := range u.Obs {
		ok := len(o.Labels) == 0 || o.Kind != "ensures" && o.Kind != "exsures" && o.Kind != "guard"
		for _, l := range o.Labels {
			ok = ok || has(labs, l)
		}
		if ok {
			out = append(out, o)
		}
	}
	return out
}

type failureRec struct {
	Function   string   `json:"function"`
	Obligation string   `json:"obligation"`
	Kind       string   `json:"kind"`
	Case       string   `json:"case,omitempty"`
	At         string   `json:"at,omitempty"`
	Verdict    string   `json:"verifier"`
	Goal       string   `json:"goal,omitempty"`
	Path       []string `json:"path,omitempty"`
}

// Check holds the state of one property check.
type Check struct {
	v     *Verifier
	prop  string
	cache map[string]*Unit
	fails []failureRec
}

// unit runs a function against its contract, cached.
func (k *Check) unit(c *Contract, no map[string]bool) *Unit {
	key := c.Name + "|" + strings.Join(sortedKeys(no), ",")
	if u := k.cache[key]; u != nil {
		return u
	}
	u := k.v.Run(c, no)
	k.cache[key] = u
	return u
}

// callee reports whether a contract used by callers is satisfied.
func (k *Check) calleeFails(u *Unit) *Oblig {
	Discharge(u.Obs, 1)
	for _, o := range u.Obs {
		if o.Res.Status != "unsat" {
			return o
		}
	}
	if u.outcomes+u.panics == 0 {
		return &Oblig{Unit: u, Kind: "vacuous", Name: "no execution path"}
	}
	return nil
}

type config struct {
	targets []*Unit
	callees []*Unit
	no      map[string]bool
	dropped map[string]string
	broken  []failureRec        // contracts a lemma relies on that do not hold
	part    map[string][]string // labels of contracts that are only used in part
}

// resolve finds a configuration in which every used callee contract is proved.
func (k *Check) resolve(ts []*Contract, no map[string]bool) *config {
	cf := &config{no: no, dropped: map[string]string{}, part: map[string][]string{}}
	for _, c := range ts {
		for n, labs := range c.Relies {
			cf.part[n] = append(cf.part[n], labs...)
		}
	}
	target := map[*Contract]bool{}
	for _, c := range ts {
		target[c] = true
	}
again:
	cf.targets, cf.callees, cf.broken = nil, nil, nil
	seen := map[string]bool{}
	var todo []*Contract
	push := func(u *Unit) {
		for _, n := range sortedKeys(u.contractsUsed) {
			if c := u.contractsUsed[n]; !seen[n] && !c.Assumed {
				seen[n] = true
				todo = append(todo, u.contractsUsed[n])
			}
		}
	}
	badRequires := func(u *Unit) bool {
		for _, o := range u.Obs {
			if o.Kind == "requires" && o.Callee != nil && !no[o.Callee.Name] && o.Res.Status != "unsat" {
				no[o.Callee.Name] = true
				cf.dropped[o.Callee.Name] = "precondition not established at " + o.Pos + ": " + o.Name
				return true
			}
		}
		return false
	}
	for _, c := range ts {
		u := k.unit(c, no)
		var obs []*Oblig
		for _, o := range u.Obs {
			if relevant(o, c, k.prop) {
				obs = append(obs, o)
			}
		}
		var reqs []*Oblig
		for _, o := range obs {
			if o.Kind == "requires" {
				reqs = append(reqs, o)
			}
		}
		Discharge(reqs, 4)
		if badRequires(u) {
			goto again
		}
		Discharge(obs, 8)
		cf.targets = append(cf.targets, u)
		push(u)
	}
	for len(todo) > 0 {
		c := todo[0]
		todo = todo[1:]
		if c.Extern && target[c] {
			continue
		}
		u := k.unit(c, no)
		if labs := cf.part[c.Name]; len(labs) > 0 {
			obs := partial(u, c, labs)
			Discharge(obs, 8)
			if badRequires(u) {
				goto again
			}
			for _, o := range obs {
				if o.Res.Status != "unsat" {
					cf.broken = append(cf.broken, failureRec{Function: c.Name, Kind: o.Kind, Obligation: o.Name, At: o.Pos, Verdict: o.Res.Status, Path: o.Trace})
				}
			}
			if u.outcomes+u.panics == 0 {
				cf.broken = append(cf.broken, failureRec{Function: c.Name, Kind: "vacuous", Obligation: "the function has no terminating path"})
			}
			cf.callees = append(cf.callees, u)
			push(u)
			continue
		}
		if o := k.calleeFails(u); o != nil {
			if badRequires(u) {
				goto again
			}
			no[c.Name] = true
			cf.dropped[c.Name] = o.Kind + ": " + o.Name
			goto again
		}
		cf.callees = append(cf.callees, u)
		push(u)
	}
	return cf
}

// cyclic finds a function that depends on its own contract through others.
func cyclic(us []*Unit) string {
	next := map[string]*Unit{}
	for _, u := range us {
		next[u.C.Name] = u
	}
	state := map[string]int{}
	var visit func(n string) bool
	visit = func(n string) bool {
		u := next[n]
		if u == nil || state[n] == 2 {
			return false
		}
		if state[n] == 1 {
			return true
		}
		state[n] = 1
		for m := range u.contractsUsed {
			if m != n && visit(m) {
				return true
			}
		}
		state[n] = 2
		return false
	}
	for _, u := range us {
		if visit(u.C.Name) {
			return u.C.Name
		}
	}
	return ""
}

// judge lists the failed obligations of the property.
func (k *Check) judge(cf *config) (fails []failureRec, total, proved, trivial int) {
	for _, u := range cf.targets {
		c := u.C
		if u.outcomes+u.panics == 0 && u.failure == "" {
			fails = append(fails, failureRec{Function: c.Name, Kind: "vacuous", Obligation: "the function has no terminating path"})
		}
		for _, o := range u.Obs {
			if !relevant(o, c, k.prop) {
				continue
			}
			total++
			if o.Res.Status == "unsat" {
				proved++
				continue
			}
			f := failureRec{Function: c.Name, Kind: o.Kind, Obligation: o.Name, At: o.Pos, Verdict: o.Res.Status, Path: o.Trace}
			if o.Clause != nil {
				f.Case = o.Clause.Case
			}
			if o.Goal != nil {
				f.Goal = clipN(o.Goal.String(), 2000)
			}
			fails = append(fails, f)
		}
		total += u.trivial
		proved += u.trivial
		trivial += u.trivial
		if u.failure == "" {
			for _, cl := range c.clauses() {
				if cl.Kind == "exsures" && u.panics == 0 {
					continue
				}
				if has(cl.Props, k.prop) && u.clauseSeen[cl] == 0 {
					fails = append(fails, failureRec{Function: c.Name, Kind: "vacuous", Case: cl.Case, Obligation: "no execution reaches clause: " + cl.Label})
				}
			}
			for _, g := range c.Guard {
				if has(g.Props, k.prop) && u.guarded == 0 {
					fails = append(fails, failureRec{Function: c.Name, Kind: "vacuous", Obligation: "no guarded access"})
				}
			}
		}
	}
	fails = append(fails, cf.broken...)
	for _, u := range cf.callees {
		n := len(u.Obs)
		if labs := cf.part[u.Name]; len(labs) > 0 {
			n = len(partial(u, u.C, labs))
		}
		total += n + u.trivial
		proved += n + u.trivial
		trivial += u.trivial
	}
	proved -= len(cf.broken)
	return
}

func clipN(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// preSat checks that the precondition of a contract can be met.
func preSat(u *Unit) string {
	q := &Query{Facts: u.pre, Goal: tFalse}
	r := q.Prove(true)
	return r.Status
}

func runCheck(v *Verifier, prop, tier, stage, evidence, replayDir string, t0 time.Time) int {
	k := &Check{v: v, prop: prop, cache: map[string]*Unit{}}
	var ts []*Contract
	var fails []failureRec
	for _, c := range v.Spec.Contracts {
		if !c.states(prop) {
			continue
		}
		if v.fnOf[c] == nil && has(v.absent, c.Name) {
			fmt.Printf("note: there is no function %s any more\n", c.Name)
			continue
		}
		if v.fnOf[c] == nil {
			fails = append(fails, failureRec{Function: c.Name, Kind: "missing", Obligation: "the function under contract does not exist"})
			continue
		}
		ts = append(ts, c)
	}
	if len(ts) == 0 && len(fails) == 0 {
		fmt.Fprintf(os.Stderr, "no contract states property %s\n", prop)
		return 2
	}
	// First every function is checked against the contracts of its callees
	// (contracts that do not hold are replaced by the bodies). If that fails,
	// the proof may still go through on the bodies of all callees.
	no := map[string]bool{}
	budget := 400 * time.Second
	if stage == "bodies" {
		budget = 260 * time.Second
		for _, c := range v.Spec.Contracts {
			no[c.Name] = true
		}
	}
	deadline = t0.Add(budget)
	cf := k.resolve(ts, no)
	fs, total, proved, trivial := k.judge(cf)
	deadline = time.Time{}
	fails = append(fails, fs...)
	pre := map[string]string{}
	for _, u := range cf.targets {
		if u.failure != "" {
			continue
		}
		pre[u.Name] = preSat(u)
		if pre[u.Name] == "unsat" {
			fails = append(fails, failureRec{Function: u.Name, Kind: "vacuous", Obligation: "contradictory precondition"})
		}
	}
	if n := cyclic(append(append([]*Unit{}, cf.targets...), cf.callees...)); n != "" {
		fails = append(fails, failureRec{Function: n, Kind: "safety", Obligation: "mutual recursion through contracts has no measure"})
	}
	if total == 0 {
		fails = append(fails, failureRec{Kind: "vacuous", Obligation: "no obligations were generated"})
	}
	viol := 0
	if len(fails) > 0 {
		viol = 1
	}
	writeEvidence(k, cf, tier, evidence, fails, pre, total, proved, trivial, viol, t0)
	for _, u := range cf.targets {
		fmt.Printf("function %s: paths %d, exceptional %d, obligations %d\n", u.Name, u.outcomes, u.panics, len(u.Obs)+u.trivial)
	}
	for _, n := range sortedKeys(cf.dropped) {
		fmt.Printf("contract of %s not usable (%s): its body was used instead\n", n, cf.dropped[n])
	}
	fmt.Printf("property %s: %d obligations, %d discharged, %d failed, %.1fs\n", prop, total, proved, len(fails), time.Since(t0).Seconds())
	if len(fails) == 0 {
		return 0
	}
	for i, f := range fails {
		if i == 12 {
			fmt.Printf("... %d more\n", len(fails)-i)
			break
		}
		fmt.Printf("FAILED %s [%s] %s %s (%s)\n", f.Function, f.Kind, f.Obligation, f.At, f.Verdict)
	}
	if replayDir != "" {
		_ = os.MkdirAll(replayDir, 0755)
		b, _ := json.MarshalIndent(map[string]any{"property": prop, "failed_obligations": fails, "contracts_not_usable": cf.dropped}, "", " ")
		_ = os.WriteFile(filepath.Join(replayDir, prop+".json"), b, 0644)
	}
	return 1
}

func writeEvidence(k *Check, cf *config, tier, path string, fails []failureRec, pre map[string]string, total, proved, trivial, viol int, t0 time.Time) {
	if path == "" {
		return
	}
	fns := []map[string]any{}
	trusted := map[string]bool{}
	assume := map[string]bool{}
	inlined := map[string]bool{}
	unit := func(u *Unit, role string) {
		n := 0
		for _, o := range u.Obs {
			if labs := cf.part[u.Name]; role == "callee" && len(labs) > 0 {
				n = len(partial(u, u.C, labs))
			} else if role == "callee" || relevant(o, u.C, k.prop) {
				n++
			}
		}
		fns = append(fns, map[string]any{"function": u.Name, "role": role, "contract": filepath.Base(u.C.File) + ":" + strconv.Itoa(u.C.Line), "normal_paths": u.outcomes, "exceptional_paths": u.panics,
			"obligations": n + u.trivial, "loops_with_invariants": len(u.loops), "exec_s": round(u.execTime.Seconds()), "precondition": pre[u.Name]})
		for m := range u.modelsUsed {
			trusted[m] = true
		}
		for a := range u.assumptions {
			assume[a] = true
		}
		for a := range u.inlined {
			inlined[a] = true
		}
	}
	for _, u := range cf.targets {
		unit(u, "property")
	}
	for _, u := range cf.callees {
		unit(u, "callee")
	}
	stats.Lock()
	solvers := map[string]any{"simplifier (rewriting in the symbolic executor)": trivial}
	for s, n := range stats.BySolver {
		solvers[s] = n
	}
	queries, stime := stats.Queries, stats.Time.Seconds()
	stats.Unlock()
	tb := []string{"gocv: symbolic executor over golang.org/x/tools/go/ssa of /repo, term simplifier, loop invariant inference (candidate invariants, each proved)",
		"z3 5.3, z3 4.8.12, cvc5 1.1.2", "go/types and go/ssa front end"}
	for _, u := range append(append([]*Unit{}, cf.targets...), cf.callees...) {
		for _, n := range sortedKeys(u.contractsUsed) {
			if t := "assumed contract of " + n; u.contractsUsed[n].Assumed && !has(tb, t) {
				tb = append(tb, t)
			}
		}
	}
	var models []string
	for _, m := range sortedKeys(trusted) {
		models = append(models, "model of "+m)
	}
	tb = append(tb, models...)
	cov := map[string]any{
		"obligations": total, "discharged": proved, "checker_cmd": "bin/gocv -prop " + k.prop, "trusted_base": tb,
		"functions_under_contract": fns, "bodies_inlined": sortedKeys(inlined), "back_ends": solvers,
		"solver_queries": queries, "solver_time_s": round(stime), "failed": fails, "contracts_replaced_by_bodies": cf.dropped,
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	as := append(sortedKeys(assume), generalAssumptions...)
	ev := map[string]any{"property": k.prop, "tier": tier, "seed": seed, "level": "proof", "coverage": cov, "assumptions": as, "wall_s": round(time.Since(t0).Seconds()), "violations": viol}
	b, _ := json.MarshalIndent(ev, "", " ")
	_ = os.MkdirAll(filepath.Dir(path), 0755)
	_ = os.WriteFile(path, append(b, '\n'), 0644)
}

func round(f float64) float64 { return float64(int(f*100+0.5)) / 100 }

var generalAssumptions = []string{
	"time is a mathematical integer number of nanoseconds; integer operations of the library's own code are proved not to overflow, given that strings, slices and maps have fewer than 2^48 entries",
	"standard library and third-party calls behave as their models (see trusted_base) state",
	"appending to a slice yields storage not shared with other slices unless the code slices an existing array",
	"callbacks and handlers supplied by users do not modify the library's private state",
	"strings placed in JSON documents are compared at document level (invalid UTF-8 replacement is not modelled)",
	"loops and recursions are proved to terminate; library calls, handlers, transports and the waiting for a lock are assumed to return",
}

var _ = sort.Strings
