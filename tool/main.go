// vgo is a deductive verifier for this repository: it reads the contracts in
// /verif/contracts, translates the SSA form of the functions in /repo in
// verification conditions and discharges them with SMT solvers.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type FuncReport struct {
	Name        string   `json:"name"`
	Obligations int      `json:"obligations"`
	Proved      int      `json:"proved"`
	Inlined     []string `json:"inlined,omitempty"`
	Contracts   []string `json:"contracts_assumed_at_calls,omitempty"`
	Trusted     []string `json:"trusted_library,omitempty"`
	Assumptions []string `json:"assumptions,omitempty"`
	Error       string   `json:"error,omitempty"`
	Overflow    bool     `json:"machine_integers"`
}

type Report struct {
	Prop        string         `json:"prop"`
	Funcs       []*FuncReport  `json:"functions"`
	Lemmas      []string       `json:"lemmas"`
	Obligations int            `json:"obligations"`
	Discharged  int            `json:"discharged"`
	Covers      int            `json:"vacuity_checks"`
	Failed      []*Result      `json:"failed"`
	BySolver    map[string]int `json:"by_solver"`
	SolverSecs  float64        `json:"solver_seconds"`
	Slowest     float64        `json:"slowest_obligation_seconds"`
	ByKind      map[string]int `json:"by_kind"`
	TrustedFn   []string       `json:"trusted_contracts"`
	Definitions []string       `json:"definitions"`
	Wall        float64        `json:"wall_seconds"`
	Samples     []string       `json:"samples"`
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vgo check|func|ssa|list ...")
		os.Exit(2)
	}
	fs := flag.NewFlagSet("vgo", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "repository")
	contracts := fs.String("contracts", "/verif/contracts", "contracts")
	prop := fs.String("prop", "", "property")
	fname := fs.String("f", "", "only functions whose name contains this")
	oname := fs.String("o", "", "only obligations whose name contains this")
	out := fs.String("json", "", "write the report here")
	scale := fs.Float64("scale", 1, "scale of the time limits")
	retry := fs.Float64("retry", 2, "factor of time of a second try of what fails")
	budget := fs.Float64("budget", 400, "total seconds")
	dump := fs.String("dump", "", "write the failed queries in this directory")
	verbose := fs.Bool("v", false, "verbose")
	slice := fs.Bool("slow", false, "list the slowest obligations")
	workers := fs.Int("j", 8, "workers")
	fs.Parse(os.Args[2:])
	t0 := time.Now()
	pr, err := loadProg(*repo)
	if err != nil {
		fmt.Fprintln(os.Stderr, "vgo:", err)
		os.Exit(3)
	}
	if os.Args[1] == "ssa" {
		for _, k := range sortedKeys(pr.funcs) {
			if strings.HasSuffix(k, *fname) {
				dumpSSA(pr, pr.funcs[k])
			}
		}
		return
	}
	sp, err := loadSpecs(pr, *contracts)
	if err != nil {
		fmt.Fprintln(os.Stderr, "vgo: contracts:", err)
		os.Exit(3)
	}
	pr.sp = sp
	pr.specs = map[string]*FuncSpec{}
	for _, f := range sp.funcs {
		if pr.specs[f.Name] != nil {
			fmt.Fprintln(os.Stderr, "vgo: two contracts for", f.Name)
			os.Exit(3)
		}
		pr.specs[f.Name] = f
	}
	rep := &Report{Prop: *prop, BySolver: map[string]int{}, ByKind: map[string]int{}}
	var todo []*FuncSpec
	for _, f := range sp.funcs {
		if f.inline {
			continue
		}
		if *prop != "" && !has(f.props, *prop) {
			continue
		}
		if *fname != "" && !strings.Contains(f.Short, *fname) {
			continue
		}
		if f.trusted {
			continue
		}
		todo = append(todo, f)
	}
	if os.Args[1] == "list" {
		for _, f := range todo {
			fmt.Println(f.Name, f.props)
		}
		return
	}
	if *prop != "" {
		for _, f := range sp.funcs {
			if has(f.props, *prop) {
				f.only(*prop)
			}
		}
	}
	picked := map[*FuncSpec]bool{}
	for _, f := range todo {
		picked[f] = true
	}
	var vcs []*VC
	for next := 0; next < len(todo); {
		end := len(todo)
		vcs = append(vcs, make([]*VC, end-next)...)
		var wg sync.WaitGroup
		sem := make(chan bool, *workers)
		for i := next; i < end; i++ {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				sem <- true
				defer func() { <-sem }()
				vcs[i] = genFunc(pr, todo[i])
			}(i)
		}
		wg.Wait()
		// the contracts used by these
		for i := next; i < end && *prop != "" && *fname == ""; i++ {
			for _, c := range sortedKeys(vcs[i].called) {
				if f := pr.specs[c]; f != nil && !f.trusted && !f.separate && !picked[f] {
					picked[f] = true
					todo = append(todo, f)
				}
			}
		}
		next = end
	}
	var all []*Result
	lemmas := map[string]bool{}
	trusted := map[string]bool{}
	defs := map[string]bool{}
	collect := func(name string, vc *VC, fr *FuncReport) {
		if vc.err != nil {
			all = append(all, &Result{Func: name, Name: "verification conditions could be generated", Kind: "tool", Status: "failed", Detail: vc.err.Error()})
		}
		for l := range vc.usedLemmas {
			lemmas[l] = true
		}
		n := 0
		for _, o := range vc.obls {
			if *oname != "" && !strings.Contains(o.Name, *oname) {
				continue
			}
			q, ls := vc.query(o)
			for _, l := range ls {
				lemmas[l] = true
			}
			all = append(all, &Result{Func: name, Name: o.Name, Kind: o.Kind, Pos: o.Pos, Props: o.Props, query: q, recent: []string{vc.recent(o, 1), vc.recent(o, 2)}, lemmas: ls, obl: o})
			n++
		}
		if n == 0 && vc.err == nil && *oname == "" {
			all = append(all, &Result{Func: name, Name: "there is some obligation", Kind: "tool", Status: "failed", Detail: "no obligations were generated"})
		}
	}
	for i, f := range todo {
		vc := vcs[i]
		fr := &FuncReport{Name: f.Name, Overflow: f.overflow}
		fr.Inlined = sortedKeys(vc.inlined)
		fr.Trusted = sortedKeys(vc.trusted)
		fr.Contracts = sortedKeys(vc.called)
		fr.Assumptions = sortedKeys(vc.assumptions)
		if vc.err != nil {
			fr.Error = vc.err.Error()
		}
		for c := range vc.called {
			if s := pr.specs[c]; s != nil && s.trusted {
				trusted[c] = true
			}
		}
		rep.Funcs = append(rep.Funcs, fr)
		collect(f.Short, vc, fr)
	}
	// every use of a variable with a lock is in some function which was verified
	if *prop != "" && *fname == "" {
		seen := map[string]bool{}
		for i, f := range todo {
			seen[f.Name] = true
			for n := range vcs[i].inlined {
				seen[n] = true
			}
		}
		for _, g := range sortedKeys(sp.guards) {
			if !has(strings.Fields(sp.guardProps[g]), *prop) {
				continue
			}
			for _, n := range pr.usersOf(g) {
				r := &Result{Func: n, Name: "lock: function which uses " + g + " is under contract", Kind: "safety", Status: "proved", Solver: "scan"}
				if !seen[n] {
					r.Status, r.Detail = "failed", "this function uses a variable which has a lock and it was not verified"
				}
				all = append(all, r)
			}
		}
	}
	// lemmas which were used, and those used by them
	done := map[string]bool{}
	for {
		var ns []string
		for l := range lemmas {
			if !done[l] {
				ns = append(ns, l)
			}
		}
		if *fname != "" && *prop == "" {
			ns = nil
			for _, l := range sp.lemmas {
				if !done[l.name] && strings.Contains("lemma "+l.name, *fname) {
					ns = append(ns, l.name)
				}
			}
		}
		if len(ns) == 0 {
			break
		}
		sort.Strings(ns)
		for _, n := range ns {
			done[n] = true
			l := pr.lemma(n)
			if l == nil || l.axiom {
				continue
			}
			vc := genLemma(pr, l)
			rep.Lemmas = append(rep.Lemmas, n)
			collect("lemma "+n, vc, nil)
		}
	}
	tGen := time.Since(t0)
	discharge(all, *scale, time.Now().Add(time.Duration(*budget*float64(time.Second))), *workers, *dump)
	// a second, longer try for the few left
	var again []*Result
	for _, r := range all {
		if r.Status == "failed" {
			again = append(again, r)
		}
	}
	if *retry > 0 && len(again) <= 6 {
		for _, r := range again {
			r.Status = ""
		}
		discharge(again, *scale**retry, time.Now().Add(time.Duration(*budget*float64(time.Second)/2)), *workers, *dump)
	}
	byFunc := map[string]*FuncReport{}
	for i, f := range todo {
		byFunc[f.Short] = rep.Funcs[i]
	}
	for _, r := range all {
		rep.SolverSecs += r.Secs
		if r.Secs > rep.Slowest {
			rep.Slowest = r.Secs
		}
		if r.Kind == "cover" {
			rep.Covers++
			if r.Status == "vacuous" {
				rep.Failed = append(rep.Failed, r)
			}
			continue
		}
		rep.Obligations++
		rep.ByKind[r.Kind]++
		f := byFunc[r.Func]
		if f != nil {
			f.Obligations++
		}
		if r.Status == "proved" {
			rep.Discharged++
			rep.BySolver[strings.SplitN(r.Solver, "/", 2)[0]]++
			if f != nil {
				f.Proved++
			}
			if len(rep.Samples) < 12 && (r.Kind == "ensures" || r.Kind == "invariant" || r.Kind == "lemma") {
				rep.Samples = append(rep.Samples, r.Func+": "+r.Name)
			}
		} else {
			rep.Failed = append(rep.Failed, r)
		}
	}
	for _, l := range sp.lemmas {
		if l.axiom {
			defs[l.name] = true
		}
	}
	rep.Definitions = sortedKeys(defs)
	rep.TrustedFn = sortedKeys(trusted)
	rep.Wall = time.Since(t0).Seconds()
	if *verbose {
		for _, r := range all {
			fmt.Printf("%-8s %-8s %5.2fs %s: %s [%s] %s\n", r.Status, r.Solver, r.Secs, r.Func, r.Name, r.Pos, r.Detail)
		}
	} else {
		for _, r := range rep.Failed {
			fmt.Printf("%-8s %s %s: %s [%s] %s\n", r.Status, r.Kind, r.Func, r.Name, r.Pos, r.Detail)
		}
	}
	if *slice {
		sort.Slice(all, func(i, j int) bool { return all[i].Secs > all[j].Secs })
		for i, r := range all {
			if i < 15 {
				fmt.Printf("slow %5.2fs %s %s: %s [%s]\n", r.Secs, r.Solver, r.Func, r.Name, r.Pos)
			}
		}
	}
	fmt.Printf("functions %d, lemmas %d, obligations %d, discharged %d, failed %d, generation %.1fs, wall %.1fs\n", len(todo), len(rep.Lemmas), rep.Obligations, rep.Discharged, len(rep.Failed), tGen.Seconds(), rep.Wall)
	if *out != "" {
		b, _ := json.MarshalIndent(rep, "", " ")
		os.MkdirAll(filepath.Dir(*out), 0o755)
		os.WriteFile(*out, b, 0o644)
	}
	if len(rep.Failed) > 0 || rep.Obligations == 0 {
		os.Exit(1)
	}
}

func has(xs []string, x string) bool {
	for _, y := range xs {
		if x == y {
			return true
		}
	}
	return false
}

func genFunc(pr *Prog, f *FuncSpec) *VC {
	vc := verifyFunc(pr, f)
	vc.addAxioms()
	return vc
}

func genLemma(pr *Prog, l *Lemma) *VC {
	vc := verifyLemma(pr, l)
	vc.addAxioms()
	return vc
}

func (vc *VC) addAxioms() {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(vcError); ok {
				if vc.err == nil {
					vc.err = fmt.Errorf("%s", e.msg)
				}
				return
			}
			panic(r)
		}
	}()
	vc.globalAxioms()
}

func dumpSSA(pr *Prog, fn *ssa.Function) {
	fn.WriteTo(os.Stdout)
	for _, l := range pr.analyseDump(fn).loops {
		fmt.Printf("# loop %d: header block %d, %s\n", l.n, l.header.Index, pr.pos(l.pos))
	}
}

func (pr *Prog) analyseDump(fn *ssa.Function) *fnInfo { return pr.analyse(fn) }
