package main

// Command gocv verifies Go functions against contracts.

import (
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"strings"
	"time"
)

func main() {
	debug.SetGCPercent(400)
	repo := flag.String("repo", "/repo", "repository to verify")
	specs := flag.String("contracts", "/verif/contracts", "contract directory")
	unit := flag.String("unit", "", "verify single functions (comma separated), for development")
	verbose := flag.Bool("v", false, "list obligations")
	inlineAll := flag.Bool("inline", false, "do not use callee contracts")
	prop := flag.String("prop", "", "check a property")
	out := flag.String("evidence", "", "evidence file")
	replay := flag.String("replay", "", "directory for failure descriptions")
	label := flag.String("label", "", "development: only obligations with this label")
	fast := flag.Bool("fast", false, "development: short time-outs")
	lemmas := flag.String("lemmas", "/verif/lemmas", "directory of lemma functions: PACKAGE.go, root.go for the root package")
	tier := flag.String("tier", "quick", "quick or thorough")
	stage := flag.String("stage", "contracts", "contracts: use callee contracts; bodies: use the bodies of all callees")
	flag.Parse()
	t0 := time.Now()
	v := Load(*repo, *specs, lemmaOverlay(*repo, *lemmas))
	theV = v
	if *prop != "" {
		os.Exit(runCheck(v, *prop, *tier, *stage, *out, *replay, t0))
	}
	fmt.Printf("loaded in %.1fs\n", time.Since(t0).Seconds())
	for _, m := range v.missing {
		fmt.Println("missing function:", m)
	}
	for _, c := range v.Spec.Contracts {
		if v.fnOf[c] == nil {
			continue
		}
		sel := *unit == "" || *unit == "all"
		for _, n := range strings.Split(*unit, ",") {
			sel = sel || n == c.Name
		}
		if !sel {
			continue
		}
		no := map[string]bool{}
		if *inlineAll {
			for _, d := range v.Spec.Contracts {
				no[d.Name] = true
			}
		}
		t1 := time.Now()
		u := v.Run(c, no)
		t2 := time.Now()
		if *label != "" {
			var obs []*Oblig
			for _, o := range u.Obs {
				if relevant(o, c, *label) {
					obs = append(obs, o)
				}
			}
			u.Obs = obs
		}
		if *fast {
			fastMode = true
		}
		fmt.Printf("%s: exec %.1fs, %d obligations\n", c.Name, t2.Sub(t1).Seconds(), len(u.Obs))
		Discharge(u.Obs, 0)
		bad := 0
		for _, o := range u.Obs {
			if o.Res.Status != "unsat" {
				bad++
			}
		}
		fmt.Printf("%-40s paths %d/%d obligations %d trivial %d failed %d exec %.1fs solve %.1fs\n", c.Name, u.outcomes, u.panics, len(u.Obs), u.trivial, bad, t2.Sub(t1).Seconds(), time.Since(t2).Seconds())
		for _, o := range u.Obs {
			if o.Res.Status != "unsat" || *verbose {
				fmt.Printf("   [%s %.1fs] %s %v %q %s\n      goal: %s\n", o.Res.Status, o.Res.Time.Seconds(), o.Kind, o.Labels, o.Name, o.Pos, clip(o.Goal.String()))
				if o.Res.Status != "unsat" {
					fmt.Printf("      path: %s\n", strings.Join(o.Trace, "; "))
				}
			}
		}
		if len(u.mutedUnsupported) > 0 {
			fmt.Println("   muted:", u.mutedUnsupported)
		}
	}
	fmt.Printf("total %.1fs, %d solver queries, %.1fs solver time\n", time.Since(t0).Seconds(), stats.Queries, stats.Time.Seconds())
}

func clip(s string) string {
	if len(s) > 600 && os.Getenv("GOCV_FULL") == "" {
		return s[:600] + "..."
	}
	return s
}

// lemmaOverlay lays the lemma functions over the packages they belong to.
func lemmaOverlay(repo, dir string) map[string][]byte {
	out := map[string][]byte{}
	fs, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	for _, f := range fs {
		data, err := os.ReadFile(f)
		if err != nil {
			fatal("lemmas: %v", err)
		}
		pkg := strings.TrimSuffix(filepath.Base(f), ".go")
		if pkg == "root" {
			pkg = "."
		}
		abs, _ := filepath.Abs(repo)
		out[filepath.Join(abs, pkg, "zz_verif_lemmas.go")] = data
	}
	return out
}
