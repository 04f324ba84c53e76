package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func newVC(pr *Prog) *VC {
	vc := &VC{pr: pr.session(), u: newUniv(), lastPerm: map[int]string{}}
	vc.cells = map[string]*Cell{}
	vc.mods = map[string]map[string]bool{}
	vc.inlined = map[string]bool{}
	vc.trusted = map[string]bool{}
	vc.called = map[string]bool{}
	vc.assumptions = map[string]bool{}
	vc.oblN = map[string]int{}
	vc.rootSeen = map[string]bool{}
	vc.usedLemmas = map[string]bool{}
	vc.entry = &State{cells: map[*Cell]Val{}, heap: map[string]string{}}
	vc.st = &State{cells: map[*Cell]Val{}, heap: map[string]string{}}
	vc.cur = &Node{id: 0, reach: "true"}
	vc.u.konst("alloc!0", "Int")
	vc.entry.heap["alloc"] = "alloc!0"
	vc.st.heap["alloc"] = "alloc!0"
	vc.rootFact("(>= alloc!0 1)")
	return vc
}

// verifyFunc generates the obligations of one function.
func verifyFunc(pr *Prog, spec *FuncSpec) (vc *VC) {
	vc = newVC(pr)
	vc.spec = spec
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(vcError); ok {
				vc.err = fmt.Errorf("%s: %s", spec.Short, e.msg)
				if vc.topFrame != nil && vc.topFrame.pos.IsValid() {
					vc.err = fmt.Errorf("%v (near %s)", vc.err, pr.pos(vc.topFrame.pos))
				}
				return
			}
			panic(r)
		}
	}()
	fn := pr.funcs[spec.Name]
	if fn == nil {
		vc.fail("function not found in the source")
	}
	vc.fn = fn
	fr := vc.newFrame(fn, "top")
	fr.top = true
	fr.specs = spec
	vc.topFrame = fr
	for _, p := range fn.Params {
		v := vc.paramVal(p.Name(), p.Type())
		fr.env[p] = v
		fr.param[p.Name()] = v
	}
	for _, p := range fn.FreeVars {
		v := vc.paramVal(p.Name(), p.Type())
		fr.env[p] = v
		fr.param[p.Name()] = v
	}
	for _, r := range spec.requires {
		env := vc.specEnv(fr)
		env.old = nil
		vc.assume(env.boolExpr(r.e))
	}
	vc.cover("requires are satisfiable", vc.cur, "false")
	vc.hints(fr, func(h *Hint) bool { return h.where == "entry" }, token.NoPos, nil)
	var rets []Edge
	nret := 0
	fr.onReturn = func(st *State, res []Val, b *ssa.BasicBlock) {
		if vc.cur.reach == "false" {
			return
		}
		nret++
		env := vc.specEnv(fr)
		env.results = res
		for i := range res {
			if res[i].typ == nil {
				env.results[i].typ = fn.Signature.Results().At(i).Type()
			}
		}
		vc.hints(fr, func(h *Hint) bool { return h.where == "return" }, fr.pos, res)
		env.st = vc.st
		for i, e := range spec.ensures {
			env.wit = token.NoPos
			if e.assumed {
				continue
			}
			if e.witness {
				env.wit = fr.pos
			}
			vc.obligC("ensures", fmt.Sprintf("ensures %s (return %d)", clauseName(e, i), nret), vc.clauseGoal(env, e), fr.pos, e.props)
		}
		vc.frameCheck(nret, fr.pos)
		rets = append(rets, Edge{node: vc.cur, cond: "true"})
	}
	vc.execFrom(fr, fn.Blocks[0], &region{})
	if len(rets) > 0 && !spec.noreturn {
		var rs []string
		for _, r := range rets {
			rs = append(rs, r.node.reach)
		}
		n := &Node{id: vc.nnode + 1, reach: "true"}
		vc.nnode++
		for _, r := range rets {
			n.preds = append(n.preds, r.node)
		}
		vc.cover("some return is reachable", n, tNot(tOr(rs...)))
	}
	return vc
}

// clauseGoal is what must hold: where the variables which the consequence of a "witness" clause mentions
// do not exist, its condition must be false.
func (vc *VC) clauseGoal(env *Env, c Clause) (goal string) {
	if c.witness && c.e.op == "bin" && c.e.name == "==>" {
		defer func(pure int, st *State) {
			if r := recover(); r != nil {
				if _, ok := r.(vcError); !ok {
					panic(r)
				}
				vc.pure, vc.st = pure, st
				goal = tNot(env.boolExpr(c.e.args[0]))
			}
		}(vc.pure, vc.st)
	}
	return env.boolExpr(c.e)
}

func (vc *VC) paramVal(name string, t types.Type) Val {
	if pt, ok := types.Unalias(t).Underlying().(*types.Pointer); ok && !refPtr(pt.Elem()) {
		c := vc.cellFor("param/"+name, pt.Elem())
		v := vc.freshVal("p."+sanitize(name), pt.Elem())
		vc.st.cells[c] = v
		vc.entry.cells[c] = v
		return Val{lv: &LV{kind: "cell", cell: c, typ: pt.Elem(), ptyp: pt.Elem()}, typ: t}
	}
	return vc.freshVal("p."+sanitize(name), t)
}

func (vc *VC) obligC(kind, name, goal string, pos token.Pos, props []string) {
	vc.oblig(kind, name, goal, pos, props)
}

func (vc *VC) cover(name string, n *Node, goal string) {
	if vc.dry > 0 || vc.pure > 0 {
		return
	}
	vc.obls = append(vc.obls, &Obl{Name: name, Kind: "cover", node: n, nfacts: len(vc.facts), goal: goal, guard: n.reach, cover: true})
}

// listed tells whether (and how) the contract lets a heap variable change.
func (vc *VC) listed(h string) (all, fresh bool) {
	if h == "alloc" {
		return true, false
	}
	for _, m := range vc.spec.modifies {
		if m.heap != "" && vc.resolveHeap(m.heap, vc.spec.pkg) == h {
			if m.fresh {
				fresh = true
			} else {
				all = true
			}
		}
	}
	return
}

// frameCheck: what the contract does not list is not modified.
func (vc *VC) frameCheck(nret int, pos token.Pos) {
	for _, h := range sortedKeys(vc.st.heap) {
		t := vc.st.heap[h]
		t0 := vc.entry.heap[h]
		if t == t0 {
			continue
		}
		if all, _ := vc.listed(h); all {
			continue
		}
		vc.oblig("frame", fmt.Sprintf("frame: %s (return %d)", h, nret), vc.freshFrame(h, t0, t, "alloc!0"), pos, nil)
	}
	for c, v0 := range vc.entry.cells {
		if !strings.HasPrefix(c.key, "param/") {
			continue
		}
		name := c.key[6:]
		ok := false
		for _, m := range vc.spec.modifies {
			if m.param == name {
				ok = true
			}
		}
		v := vc.st.cells[c]
		if !ok && v.t != v0.t {
			vc.oblig("frame", fmt.Sprintf("frame: *%s (return %d)", name, nret), tEq(v.t, v0.t), pos, nil)
		}
	}
}

// ---------------------------------------------------------------- loops

func (vc *VC) loopEnv(fr *Frame, l *Loop) *Env {
	env := vc.specEnv(fr)
	env.scope = l.scope
	env.entry = fr.loopEntry[l.n]
	return env
}

func (vc *VC) loopName(fr *Frame, l *Loop) string {
	s := fmt.Sprintf("loop %d", l.n)
	if !fr.top {
		s += " of " + fr.fn.Name()
	}
	return s
}

func (vc *VC) checkInvs(fr *Frame, l *Loop, when string) {
	if fr.specs == nil {
		vc.frameInv(fr, l, when, false)
		return
	}
	if when == "init" {
		vc.hints(fr, func(h *Hint) bool { return h.where == "loop" && h.loop == l.n && h.when == "entry" }, l.scope, nil)
	} else {
		vc.hints(fr, func(h *Hint) bool { return h.where == "loop" && h.loop == l.n && h.when == "back" }, l.end, nil)
	}
	for i, c := range fr.specs.invs[l.n] {
		env := vc.loopEnv(fr, l)
		env.st = vc.st
		vc.oblig("invariant", fmt.Sprintf("%s: invariant %s (%s)", vc.loopName(fr, l), clauseName(c, i), when), env.boolExpr(c.e), l.pos, c.props)
	}
	vc.frameInv(fr, l, when, false)
}

// frameInv: heap variables which the contract does not let change, change only in new objects.
func (vc *VC) frameInv(fr *Frame, l *Loop, when string, assume bool) {
	key := fr.path + "#" + fmt.Sprint(l.header.Index)
	for _, k := range sortedKeys(vc.mods[key]) {
		if !strings.HasPrefix(k, "h:") || k == "h:alloc" {
			continue
		}
		h := k[2:]
		if all, _ := vc.listed(h); all {
			continue
		}
		t0, ok := vc.entry.heap[h]
		if !ok {
			continue
		}
		cur := vc.st.heap[h]
		if cur == "" || cur == t0 {
			continue
		}
		f := vc.freshFrame(h, t0, cur, "alloc!0")
		if assume {
			vc.assume(f)
		} else {
			vc.oblig("frame", fmt.Sprintf("%s: frame of %s (%s)", vc.loopName(fr, l), h, when), f, l.pos, nil)
		}
	}
}

func (vc *VC) assumeInvs(fr *Frame, l *Loop) {
	vc.frameInv(fr, l, "", true)
	// the parameters which the contract does not let change
	if fr.specs == nil {
		vc.noVariant(fr, l)
		return
	}
	for _, c := range fr.specs.invs[l.n] {
		env := vc.loopEnv(fr, l)
		env.st = vc.st
		vc.assume(env.boolExpr(c.e))
	}
	vc.hints(fr, func(h *Hint) bool { return h.where == "loop" && h.loop == l.n && h.when == "body" }, l.scope, nil)
	fr.loopVar[l.n] = nil
	if vs := fr.specs.variants[l.n]; len(vs) > 0 {
		for _, v := range vs {
			env := vc.loopEnv(fr, l)
			env.st = vc.st
			t := env.eval(v).t
			n := vc.fresh("variant", "Int")
			vc.fact(tEq(n, t))
			fr.loopVar[l.n] = append(fr.loopVar[l.n], n)
		}
	} else {
		vc.noVariant(fr, l)
	}
}

func (vc *VC) noVariant(fr *Frame, l *Loop) {
	if l.rng != nil || l.rnext != nil || l.rcell != nil {
		return // range loops always end
	}
	vc.assumptions[fmt.Sprintf("termination of %s in %s is not proved", vc.loopName(fr, l), fr.fn.Name())] = true
}

func (vc *VC) loopBack(fr *Frame, l *Loop) {
	if l == nil {
		vc.fail("irreducible loop")
	}
	vc.checkInvs(fr, l, "kept")
	if vs := fr.loopVar[l.n]; len(vs) > 0 && fr.specs != nil {
		var lex []string
		var eqs []string
		for i, v := range fr.specs.variants[l.n] {
			env := vc.loopEnv(fr, l)
			env.st = vc.st
			t := env.eval(v).t
			c := append(append([]string{}, eqs...), app("<", t, vs[i]), app(">=", vs[i], "0"))
			lex = append(lex, tAnd(c...))
			eqs = append(eqs, tEq(t, vs[i]))
		}
		vc.oblig("termination", vc.loopName(fr, l)+": variant decreases", tOr(lex...), l.pos, nil)
	}
}

// ---------------------------------------------------------------- hints

func (vc *VC) hints(fr *Frame, sel func(*Hint) bool, scope token.Pos, res []Val) {
	if fr.specs == nil || vc.dry > 0 || vc.pure > 0 {
		return
	}
	for i := range fr.specs.hints {
		h := &fr.specs.hints[i]
		if sel(h) {
			vc.hint(fr, h, scope, res)
		}
	}
}

func (vc *VC) hint(fr *Frame, h *Hint, scope token.Pos, res []Val) {
	if h.where == "return" || h.where == "call" {
		// it may mention variables which do not exist here
		nf, no := len(vc.facts), len(vc.obls)
		p := vc.pure
		st := vc.st
		defer func() {
			if r := recover(); r != nil {
				e, ok := r.(vcError)
				if !ok {
					panic(r)
				}
				if os.Getenv("VGO_HINTS") != "" {
					fmt.Fprintf(os.Stderr, "hint %q left out: %s\n", h.name, e.msg)
				}
				vc.facts, vc.obls, vc.pure, vc.st = vc.facts[:nf], vc.obls[:no], p, st
			}
		}()
	}
	env := vc.specEnv(fr)
	env.scope = scope
	env.results = res
	for i, a := range vc.hintArgs {
		env.vars[fmt.Sprintf("arg%d", i)] = a
	}
	if h.where == "loop" {
		if l := fr.info.byNum[h.loop]; l != nil {
			env.entry = fr.loopEntry[l.n]
		}
	}
	if h.use != "" {
		vc.assume(vc.useLemma(env, h))
		return
	}
	t := env.boolExpr(h.assert)
	n := len(vc.facts)
	if h.claim {
		// shown, and not used afterwards
		vc.oblig("assert", "claim "+strings.TrimPrefix(h.name, "claim "), t, fr.pos, nil)
		vc.facts = vc.facts[:n]
		return
	}
	vc.oblig("assert", "assert "+strings.TrimPrefix(h.name, "assert "), t, fr.pos, nil)
}

func (vc *VC) useLemma(env *Env, h *Hint) string {
	if h.assert != nil { // quantified
		q := *h.assert
		call := q.args[0]
		q.args = []*Expr{{op: "lemma", name: call.name, args: call.args}}
		return env.boolExpr(&q)
	}
	return env.boolExpr(&Expr{op: "lemma", name: h.use, args: h.args})
}

func (pr *Prog) lemma(name string) *Lemma {
	for _, l := range pr.sp.lemmas {
		if l.name == name {
			return l
		}
	}
	return nil
}

// lemmaTerm: the lemma for some arguments.
func (e *Env) lemmaTerm(name string, args []*Expr) string {
	vc := e.vc
	l := vc.pr.lemma(name)
	if l == nil {
		e.fail("unknown lemma %s", name)
	}
	if len(args) != len(l.params) {
		e.fail("lemma %s wants %d arguments", name, len(l.params))
	}
	if vc.lemmaLimitSet && l.order >= vc.lemmaLimit {
		e.fail("lemma %s is not proved yet", name)
	}
	vc.usedLemmas[name] = true
	var ns []string
	var vs []Val
	for i, a := range args {
		ns = append(ns, "$"+l.params[i].name)
		vs = append(vs, e.load(e.ev(a)))
	}
	n := e.bind(ns, vs)
	n.pkg = l.pkg
	n.fr = nil
	return n.lemmaBody(l)
}

func (e *Env) lemmaBody(l *Lemma) string {
	var req, ens []string
	if l.induct != "" {
		req = append(req, app(">=", e.ident(l.induct).t, "0"))
	}
	for _, c := range l.requires {
		req = append(req, e.ev(c.e).t)
	}
	for _, c := range l.ensures {
		ens = append(ens, e.ev(c.e).t)
	}
	return tImp(tAnd(req...), tAnd(ens...))
}

// globalAxioms puts the axioms and the automatic lemmas in the table of symbols.
func (vc *VC) globalAxioms() {
	pr := vc.pr
	for _, l := range pr.sp.lemmas {
		if len(l.auto) == 0 {
			continue
		}
		if vc.lemmaLimitSet && l.order >= vc.lemmaLimit {
			continue
		}
		e := &Env{vc: vc, st: vc.st, pkg: l.pkg, vars: map[string]Val{}}
		var t string
		if l.axiom {
			t = e.eval(l.ensures[0].e).t
		} else {
			t = e.eval(vc.lemmaQuant(l)).t
		}
		for _, o := range l.auto {
			if f := pr.sp.funs[o]; f != nil {
				vc.st2(func() { vc.declareFun(f) })
			}
			s := vc.u.syms[o]
			if s == nil {
				vc.fail("lemma %s: unknown symbol %s", l.name, o)
			}
			k := "lemma " + l.name
			if l.axiom {
				k = "definition " + l.name
			}
			s.axioms = append(s.axioms, Axiom{k, t})
		}
	}
}

func (vc *VC) st2(f func()) { f() }

// lemmaQuant is the lemma as a quantified formula.
func (vc *VC) lemmaQuant(l *Lemma) *Expr {
	q := &Expr{op: "quant", name: "forall", vars: l.params, trig: l.trig}
	var args []*Expr
	for _, p := range l.params {
		args = append(args, &Expr{op: "id", name: p.name})
	}
	q.args = []*Expr{{op: "lemmabody", name: l.name, args: args}}
	if len(l.params) == 0 {
		return q.args[0]
	}
	return q
}

// verifyLemma generates the obligations of a lemma.
func verifyLemma(pr *Prog, l *Lemma) (vc *VC) {
	vc = newVC(pr)
	vc.lemmaLimit, vc.lemmaLimitSet = l.order, true
	vc.spec = &FuncSpec{Name: "lemma " + l.name, Short: "lemma " + l.name, pkg: l.pkg}
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(vcError); ok {
				vc.err = fmt.Errorf("lemma %s: %s", l.name, e.msg)
				return
			}
			panic(r)
		}
	}()
	env := &Env{vc: vc, st: vc.st, pkg: l.pkg, vars: map[string]Val{}}
	var ns []string
	var vs []Val
	var ih []Val
	for _, p := range l.params {
		t, s := env.qsort(p.typ)
		c := vc.fresh("l."+p.name, s)
		v := Val{t: c, typ: t}
		if t == nil {
			v.srt = s
		}
		if strings.HasPrefix(p.typ, "mem(") {
			v.mt = vc.pr.parseType(p.typ[4:len(p.typ)-1], l.pkg)
		}
		if strings.HasPrefix(p.typ, "heap(") {
			v.mt = vc.heapElem(p.typ[5:len(p.typ)-1], l.pkg)
		}
		ns = append(ns, "$"+p.name)
		vs = append(vs, v)
		w := v
		if p.name == l.induct {
			w.t = app("-", c, "1")
		}
		ih = append(ih, w)
	}
	e := env.bind(ns, vs)
	for _, r := range l.requires {
		vc.assume(e.boolExpr(r.e))
	}
	vc.cover("requires are satisfiable", vc.cur, "false")
	if l.induct != "" {
		h := env.bind(ns, ih)
		vc.pure++
		t := h.lemmaBody(l)
		vc.pure--
		vc.assume(tImp(app(">", e.ident(l.induct).t, "0"), t))
	}
	for i := range l.uses {
		vc.assume(vc.useLemma(e, &l.uses[i]))
	}
	for i, c := range l.ensures {
		goal := e.boolExpr(c.e)
		if l.induct != "" {
			goal = tImp(app(">=", e.ident(l.induct).t, "0"), goal)
		}
		vc.oblig("lemma", fmt.Sprintf("ensures %s", clauseName(c, i)), goal, token.NoPos, c.props)
	}
	return vc
}
