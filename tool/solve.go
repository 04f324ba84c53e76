package main

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"
)

type Result struct {
	Func   string   `json:"func"`
	Name   string   `json:"name"`
	Kind   string   `json:"kind"`
	Pos    string   `json:"pos,omitempty"`
	Status string   `json:"status"` // "proved", "failed", "cover-ok", "vacuous"
	Solver string   `json:"solver,omitempty"`
	Secs   float64  `json:"secs"`
	Props  []string `json:"props,omitempty"`
	Detail string   `json:"detail,omitempty"`
	query  string
	recent []string
	lemmas []string
	obl    *Obl
}

// query builds the SMT problem of an obligation.
func (vc *VC) query(o *Obl) (string, []string) {
	anc := o.node.ancestors()
	var asserts []string
	asserts = append(asserts, vc.rootFacts...)
	for _, f := range vc.facts[:o.nfacts] {
		if anc[f.node] {
			asserts = append(asserts, f.term)
		}
	}
	asserts = append(asserts, o.guard, tNot(o.goal))
	return vc.problem(asserts)
}

// recent builds the same problem with only what is known at the beginning of the function
// and since the last n loop heads: it is shorter, and what it proves is proved.
func (vc *VC) recent(o *Obl, n int) string {
	anc := o.node.ancestors()
	var heads []int
	for a := range anc {
		if a.head {
			heads = append(heads, a.id)
		}
	}
	if len(heads) <= n {
		return ""
	}
	sort.Sort(sort.Reverse(sort.IntSlice(heads)))
	from := heads[n-1]
	first := vc.facts[0].node
	var asserts []string
	asserts = append(asserts, vc.rootFacts...)
	dropped := 0
	for _, f := range vc.facts[:o.nfacts] {
		if !anc[f.node] {
			continue
		}
		if f.node.id >= from || f.node == first {
			asserts = append(asserts, f.term)
		} else {
			dropped++
		}
	}
	if dropped < 30 {
		return ""
	}
	asserts = append(asserts, o.guard, tNot(o.goal))
	q, _ := vc.problem(asserts)
	return q
}

func (vc *VC) problem(asserts []string) (string, []string) {
	seen := map[string]bool{}
	var order []string
	var axioms []Axiom
	axSeen := map[string]bool{}
	var todo []string
	todo = append(todo, asserts...)
	for len(todo) > 0 {
		t := todo[0]
		todo = todo[1:]
		symbolsIn(t, func(s string) {
			if seen[s] {
				return
			}
			sym := vc.u.syms[s]
			if sym == nil {
				return
			}
			seen[s] = true
			order = append(order, s)
			for _, a := range sym.axioms {
				if axSeen[a.term] {
					continue
				}
				axSeen[a.term] = true
				axioms = append(axioms, a)
				todo = append(todo, a.term)
			}
		})
	}
	// string literals are different
	var lits []string
	for _, s := range order {
		if strings.HasPrefix(s, "str.") {
			lits = append(lits, s)
		}
	}
	sort.Strings(order)
	var b strings.Builder
	for _, s := range vc.u.sorts {
		b.WriteString(s + "\n")
	}
	for _, s := range order {
		b.WriteString(vc.u.syms[s].decl + "\n")
	}
	if len(lits) > 1 {
		sort.Strings(lits)
		b.WriteString("(assert (distinct " + strings.Join(lits, " ") + "))\n")
	}
	var lemmas []string
	for _, a := range axioms {
		if strings.HasPrefix(a.name, "lemma ") {
			lemmas = append(lemmas, a.name[6:])
		}
		b.WriteString("; " + a.name + "\n(assert " + a.term + ")\n")
	}
	for _, a := range asserts {
		b.WriteString("(assert " + a + ")\n")
	}
	b.WriteString("(check-sat)\n")
	return b.String(), lemmas
}

type stage struct {
	name string
	cmd  []string
	head string
	secs float64
	rec  int  // only what is recent
	abs  bool // products and quotients of variables are left without definition
}

// abstract leaves out the definitions of nonlinear operations.
func abstract(q string) string {
	if !strings.Contains(q, "; imul\n") && !strings.Contains(q, "; quo\n") {
		return q
	}
	ls := strings.Split(q, "\n")
	var out []string
	for i := 0; i < len(ls); i++ {
		if ls[i] == "; imul" || ls[i] == "; quo" {
			i++
			continue
		}
		out = append(out, ls[i])
	}
	return strings.Join(out, "\n")
}

const z3head = "(set-option :auto_config false)\n(set-option :smt.mbqi false)\n(set-option :smt.random_seed %d)\n"

func stages(scale float64) []stage {
	z := func(bin string, seed int, secs float64, extra string) stage {
		return stage{name: fmt.Sprintf("%s/%d", bin, seed), cmd: []string{bin, "-in"}, head: fmt.Sprintf(z3head, seed) + extra, secs: secs}
	}
	abs := z("z3-new", 3, 2*scale, "")
	abs.abs = true
	cabs := stage{name: "cvc5", cmd: []string{"cvc5", "--lang=smt2", "-"}, head: "(set-logic ALL)\n", secs: 4 * scale, abs: true}
	rec := func(st stage, n int) stage {
		st.name += fmt.Sprintf("+recent%d", n)
		st.rec = n
		return st
	}
	return []stage{
		abs,
		rec(z("z3-new", 0, 2*scale, ""), 1),
		z("z3-new", 0, 2*scale, ""),
		rec(z("z3-new", 0, 2*scale, ""), 2),
		rec(z("z3", 0, 2*scale, ""), 2),
		z("z3", 0, 2*scale, ""),
		{name: "cvc5", cmd: []string{"cvc5", "--lang=smt2", "-"}, head: "(set-logic ALL)\n", secs: 4 * scale},
		cabs,
		z("z3-new", 7, 6*scale, "(set-option :smt.arith.solver 2)\n"),
		z("z3", 11, 8*scale, ""),
		rec(z("z3", 5, 4*scale, ""), 1),
		rec(z("z3-new", 7, 8*scale, "(set-option :smt.arith.solver 2)\n"), 2),
		z("z3-new", 3, 10*scale, ""),
		z("z3-new", 42, 15*scale, ""),
	}
}

func runSolver(ctx context.Context, st stage, q string, secs float64) (string, string) {
	c, cancel := context.WithTimeout(ctx, time.Duration(secs*float64(time.Second)))
	defer cancel()
	cmd := exec.CommandContext(c, st.cmd[0], st.cmd[1:]...)
	cmd.Stdin = strings.NewReader(st.head + q)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	_ = cmd.Run()
	s := out.String()
	for _, l := range strings.Split(s, "\n") {
		l = strings.TrimSpace(l)
		if l == "unsat" || l == "sat" || l == "unknown" {
			if strings.Contains(s, "(error") {
				return "error", s
			}
			return l, s
		}
	}
	if strings.Contains(s, "error") {
		return "error", s
	}
	return "timeout", s
}

// discharge runs the solvers over the obligations.
func discharge(rs []*Result, scale float64, deadline time.Time, workers int, dumpDir string) {
	var wg sync.WaitGroup
	ch := make(chan *Result)
	for i := 0; i < workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for r := range ch {
				solveOne(r, scale, deadline, dumpDir)
			}
		}()
	}
	for _, r := range rs {
		if r.Status == "" {
			ch <- r
		}
	}
	close(ch)
	wg.Wait()
}

func solveOne(r *Result, scale float64, deadline time.Time, dumpDir string) {
	t0 := time.Now()
	defer func() {
		r.Secs = time.Since(t0).Seconds()
		if dumpDir != "" && (r.Status == "failed" || r.Status == "vacuous" || os.Getenv("DUMPALL") != "") {
			os.MkdirAll(dumpDir, 0o755)
			n := sanitize(r.Func + "_" + r.Name)
			if len(n) > 120 {
				n = n[:120]
			}
			os.WriteFile(filepath.Join(dumpDir, n+".smt2"), []byte(r.query), 0o644)
			for i, q := range r.recent {
				if q != "" {
					os.WriteFile(filepath.Join(dumpDir, fmt.Sprintf("%s.recent%d.smt2", n, i+1)), []byte(q), 0o644)
				}
			}
		}
	}()
	if r.Kind == "cover" {
		st := stages(1)[1]
		res, _ := runSolver(context.Background(), st, r.query, 1.0)
		r.Solver = st.name
		r.Status = "cover-ok"
		if res == "unsat" {
			r.Status = "vacuous"
		}
		return
	}
	var details []string
	for _, st := range stages(scale) {
		if time.Now().After(deadline) {
			details = append(details, "budget exhausted")
			break
		}
		q := r.query
		if st.rec > 0 {
			if st.rec > len(r.recent) || r.recent[st.rec-1] == "" {
				continue
			}
			q = r.recent[st.rec-1]
		}
		if st.abs {
			q = abstract(q)
			if q == r.query {
				continue
			}
		}
		res, out := runSolver(context.Background(), st, q, st.secs)
		if (st.abs || st.rec > 0) && res == "sat" {
			res = "unknown"
		}
		if res == "unsat" {
			r.Status, r.Solver = "proved", st.name
			return
		}
		if res == "error" {
			details = append(details, st.name+": "+firstLine(out))
			if strings.HasPrefix(st.name, "z3") {
				break
			}
			continue
		}
		details = append(details, st.name+": "+res)
		if res == "sat" {
			break
		}
	}
	r.Status = "failed"
	r.Detail = strings.Join(details, "; ")
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	return s
}
