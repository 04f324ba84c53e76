package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (vc *VC) call(fr *Frame, x ssa.Instruction, c *ssa.CallCommon, pos token.Pos) Val {
	var rt types.Type = c.Signature().Results()
	if v, ok := x.(ssa.Value); ok {
		rt = v.Type()
	}
	if c.IsInvoke() {
		return vc.invoke(fr, c, rt, pos)
	}
	if vc.spec != nil && vc.spec.output {
		if f := c.StaticCallee(); f != nil {
			if k := printers[f.String()]; k != "" {
				vc.trusted[f.String()] = true
				vc.print(fr, c, k)
				return vc.libFresh(f, rt)
			}
			if s := vc.pr.specs[f.String()]; s != nil && !s.output && vc.pr.calls(f, isPrinter, map[*ssa.Function]bool{}) {
				vc.fail("%s prints, and its contract does not say what", f)
			}
		}
	}
	if vc.spec != nil && vc.spec.logs {
		if f := c.StaticCallee(); f != nil {
			if s := vc.pr.specs[f.String()]; s != nil && !s.logs && vc.pr.calls(f, isWarning, map[*ssa.Function]bool{}) {
				vc.fail("%s logs, and its contract does not say when", f)
			}
		}
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return vc.builtin(fr, b, c, rt, pos)
	}
	var args []Val
	for _, a := range c.Args {
		args = append(args, vc.value(fr, a))
	}
	var clos *Clos
	if f, ok := c.Value.(*ssa.Function); ok {
		clos = &Clos{fn: f}
	} else {
		v := vc.value(fr, c.Value)
		if v.fn == nil {
			return vc.unknownCall(fr, c, rt, pos, args)
		}
		clos = v.fn
	}
	return vc.callFn(fr, clos, args, rt, pos)
}

func (vc *VC) callFn(fr *Frame, clos *Clos, args []Val, rt types.Type, pos token.Pos) Val {
	fn := clos.fn
	name := fn.String()
	if spec := vc.pr.specs[name]; spec != nil && !spec.inline {
		return vc.contractCall(fr, spec, fn, args, rt, pos)
	}
	if lf := libFuncs[name]; lf != nil {
		vc.trusted[name] = true
		if vc.pure == 0 {
			nth := callNumber(fr.fn, fn, pos)
			vc.callHints(fr, name, nth, "before", pos, args)
			defer func() { vc.callHints(fr, name, nth, "after", pos, args) }()
		}
		return lf(vc, fr, &libCall{fn: fn, args: args, rt: rt, pos: pos})
	}
	if fn.Name() == "init" && fn.Synthetic != "" {
		return Val{typ: rt} // initialization of another package
	}
	if fn.Pkg == nil || shortPkgOf(fn) == false || len(fn.Blocks) == 0 {
		for _, p := range havocLib {
			if strings.HasPrefix(name, p) {
				vc.trusted[name] = true
				if vc.spec != nil && vc.spec.logs && isWarning(name) {
					vc.heapSet(warnHeap, vc.outHeap(warnHeap), tAdd(vc.heapGet(warnHeap, vc.outHeap(warnHeap)), "1"))
				}
				return vc.libFresh(fn, rt)
			}
		}
		vc.fail("call of unknown function %s", name)
	}
	return vc.inlineCall(fr, clos, args, rt, pos)
}

func shortPkgOf(fn *ssa.Function) bool {
	_, ok := shortPkg[fn.Pkg.Pkg.Path()]
	return ok
}

func (vc *VC) libFresh(fn *ssa.Function, rt types.Type) Val {
	r := vc.freshVal("r."+sanitize(fn.Name()), rt)
	return r
}

func (vc *VC) inlineCall(fr *Frame, clos *Clos, args []Val, rt types.Type, pos token.Pos) Val {
	fn := clos.fn
	if vc.depth > 8 {
		vc.fail("inlining too deep at %s (recursive function without contract?)", fn)
	}
	for f := fr; f != nil; f = f.parent {
		if f.fn == fn {
			vc.fail("recursive function %s without contract", fn)
		}
	}
	vc.inlined[fn.String()] = true
	nth := callNumber(fr.fn, fn, pos)
	vc.callHints(fr, fn.Name(), nth, "before", pos, args)
	defer func() { vc.callHints(fr, fn.Name(), nth, "after", pos, args) }()
	nf := vc.newFrame(fn, fmt.Sprintf("%s/%s@%d", fr.path, fn.Name(), int(pos)))
	nf.parent = fr
	nf.specs = vc.pr.specs[fn.String()]
	for i, p := range fn.Params {
		nf.env[p] = args[i]
		nf.param[p.Name()] = args[i]
	}
	for i, f := range fn.FreeVars {
		nf.env[f] = clos.bind[i]
		nf.param[f.Name()] = clos.bind[i]
	}
	var rets []Edge
	var results [][]Val
	nf.onReturn = func(st *State, res []Val, b *ssa.BasicBlock) {
		if vc.cur.reach == "false" {
			return
		}
		rets = append(rets, Edge{node: vc.cur, cond: "true", st: st.clone()})
		results = append(results, res)
	}
	vc.depth++
	if vc.pure > 0 && len(nf.info.loops) > 0 {
		vc.fail("loop in pure context: %s", fn)
	}
	vc.execFrom(nf, fn.Blocks[0], &region{})
	vc.depth--
	if len(rets) == 0 {
		vc.branch("false")
		return vc.freshVal("dead", rt)
	}
	if vc.pure > 0 {
		// a term
		n := fn.Signature.Results().Len()
		if n != 1 {
			vc.fail("pure call with %d results", n)
		}
		t := results[len(results)-1][0].t
		for i := len(results) - 2; i >= 0; i-- {
			t = tIte(rets[i].node.reach, results[i][0].t, t)
		}
		vc.st = rets[0].st
		return Val{t: t, typ: rt}
	}
	if len(rets) == 1 {
		vc.cur, vc.st = rets[0].node, rets[0].st
		switch len(results[0]) {
		case 0:
			return Val{typ: rt}
		case 1:
			return results[0][0]
		}
		return Val{tup: results[0], typ: rt}
	}
	vc.join(rets)
	n := len(results[0])
	var out []Val
	for i := 0; i < n; i++ {
		v0 := results[0][i]
		same := true
		for _, r := range results {
			if !r[i].same(v0) {
				same = false
			}
		}
		if same {
			out = append(out, v0)
			continue
		}
		f := vc.fresh("res", vc.u.sortOf(v0.typ))
		for j, e := range rets {
			vc.fact(tImp(e.node.reach, tEq(f, results[j][i].t)))
		}
		out = append(out, Val{t: f, typ: v0.typ})
	}
	switch n {
	case 0:
		return Val{typ: rt}
	case 1:
		return out[0]
	}
	return Val{tup: out, typ: rt}
}

func (vc *VC) builtin(fr *Frame, b *ssa.Builtin, c *ssa.CallCommon, rt types.Type, pos token.Pos) Val {
	var args []Val
	for _, a := range c.Args {
		args = append(args, vc.value(fr, a))
	}
	switch b.Name() {
	case "len":
		a := args[0]
		if _, ok := types.Unalias(c.Args[0].Type()).Underlying().(*types.Map); ok {
			a.typ = c.Args[0].Type()
		}
		if a.typ == nil {
			a.typ = c.Args[0].Type()
		}
		if vc.spec != nil && vc.spec.overflow { // nothing is larger than the memory
			vc.fact(app("<=", vc.lenOf(a), "4611686018427387904"))
		}
		return Val{t: vc.lenOf(a), typ: rt}
	case "cap":
		return Val{t: sCap(args[0].t), typ: rt}
	case "append":
		el := types.Unalias(c.Args[0].Type()).Underlying().(*types.Slice).Elem()
		if vc.pure > 0 {
			vc.fail("append in pure context")
		}
		nth := builtinNumber(fr.fn, "append", pos)
		vc.callHints(fr, "append", nth, "before", pos, args)
		r := Val{t: vc.appendSlices(el, args[0].t, args[1].t), typ: rt}
		vc.callHints(fr, "append", nth, "after", pos, append(args, r))
		return r
	case "delete":
		m := c.Args[0].Type()
		dn, ds, _, _ := vc.hMap(m)
		d := vc.heapGet(dn, ds)
		vc.heapSet(dn, ds, tIte(tEq(args[0].t, "0"), d, tSto(d, args[0].t, tSto(tSel(d, args[0].t), args[1].t, "false"))))
		return Val{typ: rt}
	case "print", "println":
		return Val{typ: rt}
	case "ssa:deferstack":
		return Val{t: "0", typ: rt}
	case "min", "max":
		t := args[0].t
		for _, a := range args[1:] {
			op := "<="
			if b.Name() == "max" {
				op = ">="
			}
			t = tIte(app(op, t, a.t), t, a.t)
		}
		return Val{t: t, typ: rt}
	case "copy":
		sl := types.Unalias(c.Args[0].Type()).Underlying().(*types.Slice)
		if bt, ok := types.Unalias(c.Args[1].Type()).Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
			break
		}
		el := sl.Elem()
		heap, srt := vc.hMem(el)
		at := vc.u.at(el)
		h := vc.heapGet(heap, srt)
		n := vc.name("ncopy", "Int", tIte(app("<=", sLen(args[0].t), sLen(args[1].t)), sLen(args[0].t), sLen(args[1].t)))
		h2 := vc.fresh(heap, srt)
		d := args[0].t
		vc.fact(fmt.Sprintf("(forall ((a Int) (o Int) (i Int)) (! (=> (or (not (= a %s)) (< (+ o i) %s) (>= (+ o i) (+ %s %s))) (= (%s %s a o i) (%s %s a o i))) :pattern ((%s %s a o i))))",
			sArr(d), sOff(d), sOff(d), n, at, h2, at, h, at, h2))
		vc.fact(fmt.Sprintf("(forall ((i Int)) (! (=> (and (<= 0 i) (< i %s)) (= (%s %s %s %s i) (%s %s %s %s i))) :pattern ((%s %s %s %s i))))",
			n, at, h2, sArr(d), sOff(d), at, h, sArr(args[1].t), sOff(args[1].t), at, h2, sArr(d), sOff(d)))
		vc.st.heap[heap] = h2
		return Val{t: n, typ: rt}
	}
	vc.fail("builtin %s", b.Name())
	return Val{}
}

func (vc *VC) invoke(fr *Frame, c *ssa.CallCommon, rt types.Type, pos token.Pos) Val {
	recv := vc.value(fr, c.Value)
	vc.oblig("safety", "nil-deref:interface."+c.Method.Name(), tNot(tEq(app("itag", recv.t), "0")), pos, nil)
	var args []Val
	args = append(args, recv)
	for _, a := range c.Args {
		args = append(args, vc.value(fr, a))
	}
	key := "iface " + types.TypeString(c.Value.Type(), qual) + "." + c.Method.Name()
	if _, ok := types.Unalias(c.Value.Type()).(*types.Named); !ok {
		key = "iface ." + c.Method.Name()
	}
	if spec := vc.pr.specs[key]; spec != nil {
		return vc.contractCall(fr, spec, nil, args, rt, pos)
	}
	switch c.Method.Name() {
	case "String", "Error":
		vc.trusted["(interface)."+c.Method.Name()] = true
		return vc.freshVal("str", rt)
	}
	vc.fail("call of interface method %s without contract (%s)", c.Method.Name(), key)
	return Val{}
}

// unknownCall is a call of a function found in a global table, which has a contract for all of them ("funcval TABLE").
func (vc *VC) unknownCall(fr *Frame, c *ssa.CallCommon, rt types.Type, pos token.Pos, args []Val) Val {
	v := c.Value
	if e, ok := v.(*ssa.Extract); ok && e.Index == 0 {
		v = e.Tuple
	}
	if lk, ok := v.(*ssa.Lookup); ok {
		if ld, ok := lk.X.(*ssa.UnOp); ok && ld.Op == token.MUL {
			if g, ok := ld.X.(*ssa.Global); ok {
				if spec := vc.pr.specs["funcval "+g.Name()]; spec != nil && spec.pkg == g.Pkg.Pkg {
					vc.oblig("safety", "nil-function:"+g.Name(), tNot(tEq(vc.value(fr, c.Value).t, "0")), pos, nil)
					self := Val{t: vc.value(fr, c.Value).t, typ: types.Typ[types.UnsafePointer]}
					return vc.contractCall(fr, spec, nil, append([]Val{self}, args...), rt, pos)
				}
			}
		}
	}
	vc.fail("call of unknown function value %s", c.Value)
	return Val{}
}

// contractCall uses the contract of the callee.
func (vc *VC) contractCall(fr *Frame, spec *FuncSpec, fn *ssa.Function, args []Val, rt types.Type, pos token.Pos) Val {
	vc.called[spec.Name] = true
	fr.callN[spec.Name]++
	nth := fr.callN[spec.Name]
	if fn != nil {
		nth = callNumber(fr.fn, fn, pos)
	}
	vc.callHints(fr, spec.Short, nth, "before", pos, args)
	defer func() {
		if fn != nil {
			fr.afterCall[fmt.Sprintf("%s#%d", fn.Name(), nth)] = vc.st.clone()
		}
		vc.callHints(fr, spec.Short, nth, "after", pos, args)
	}()
	env := &Env{vc: vc, st: vc.st, old: vc.st, vars: map[string]Val{}, pkg: spec.pkg}
	var names []string
	if fn != nil {
		for _, p := range fn.Params {
			names = append(names, p.Name())
		}
	} else {
		names = append([]string{"self"}, spec.params...)
	}
	for i, a := range args {
		n := fmt.Sprintf("arg%d", i)
		if i < len(names) {
			n = names[i]
		}
		if a.typ == nil && fn != nil {
			a.typ = fn.Params[i].Type()
		}
		env.vars[n] = a
	}
	if vc.pure > 0 {
		if spec.pureDef == nil {
			vc.fail("call of %s in pure context", spec.Name)
		}
		v := env.eval(spec.pureDef)
		return Val{t: v.t, typ: rt}
	}
	if fn != nil {
		for i, p := range fn.Params {
			if pt, ok := types.Unalias(p.Type()).Underlying().(*types.Pointer); ok && !refPtr(pt.Elem()) && i < len(args) && args[i].lv == nil {
				vc.fail("call of %s: argument %s is not a known place", spec.Short, p.Name())
			}
		}
	}
	framed := vc.spec != nil && vc.spec.framed[spec.Short]
	if framed {
		vc.assumptions["of "+spec.Short+" only what it may modify is used: its precondition and that it returns are not checked at the call in "+vc.spec.Short] = true
	}
	for i, r := range spec.requires {
		if framed {
			break
		}
		vc.oblig("requires", fmt.Sprintf("call %s: requires %s", spec.Short, clauseName(r, i)), env.boolExpr(r.e), pos, nil)
	}
	if spec.panics != nil && !framed {
		vc.oblig("requires", fmt.Sprintf("call %s: does not panic", spec.Short), tNot(env.boolExpr(spec.panics)), pos, nil)
	}
	if spec.decreases != nil && vc.spec != nil && vc.topFrame != nil && vc.recursiveWith(spec) {
		// variant must decrease
		te := vc.specEnv(vc.topFrame)
		te.st = vc.entry
		var lex []string
		for i := range spec.decreases {
			if i >= len(vc.spec.decreases) {
				break
			}
			nv := env.eval(spec.decreases[i]).t
			ov := te.eval(vc.spec.decreases[i]).t
			var c []string
			for j := 0; j < i; j++ {
				c = append(c, tEq(env.eval(spec.decreases[j]).t, te.eval(vc.spec.decreases[j]).t))
			}
			c = append(c, app("<", nv, ov), app(">=", ov, "0"))
			lex = append(lex, tAnd(c...))
		}
		vc.oblig("termination", "call "+spec.Short+": variant decreases", tOr(lex...), pos, nil)
	}
	old := vc.st.clone()
	env.old = old
	a0 := vc.alloc()
	// havoc
	na := vc.fresh("alloc", "Int")
	vc.fact(app(">=", na, a0))
	vc.st.heap["alloc"] = na
	for _, m := range spec.modifies {
		if m.param != "" {
			v, ok := env.vars[m.param]
			if !ok {
				vc.fail("modifies *%s: no such parameter in %s", m.param, spec.Name)
			}
			if v.lv == nil {
				if pt, ok := types.Unalias(v.typ).Underlying().(*types.Pointer); ok && isTime(pt.Elem()) {
					vc.storeLV(vc.lvOf(v), vc.freshVal("mod", pt.Elem()))
					continue
				}
				vc.fail("modifies *%s: not a place in %s", m.param, spec.Name)
			}
			nv := vc.freshVal("mod."+m.param, v.lv.ptyp)
			vc.storeLV(v.lv, nv)
			continue
		}
		h := vc.resolveHeap(m.heap, spec.pkg)
		oldT := vc.heapGet(h, vc.heapSort(h))
		nt := vc.fresh(h, vc.heapSort(h))
		vc.st.heap[h] = nt
		vc.heapWF(h, nt, false)
		if m.fresh {
			vc.fact(vc.freshFrame(h, oldT, nt, a0))
		}
	}
	env.st = vc.st
	var out Val
	if fn != nil {
		out = vc.freshVal("r."+sanitize(fn.Name()), rt)
	} else {
		out = vc.freshVal("r", rt)
	}
	env.setResults(out, rt)
	for _, e := range spec.ensures {
		if framed || e.witness {
			continue
		}
		if e.assumed {
			vc.assumptions[spec.Short+": "+clauseName(e, 0)+" (assumed of its result, not proved)"] = true
		}
		vc.assume(env.boolExpr(e.e))
	}
	if spec.noreturn {
		vc.branch("false")
	}
	return out
}

func (vc *VC) callHints(fr *Frame, name string, nth int, when string, pos token.Pos, args []Val) {
	vc.hintArgs = args
	defer func() { vc.hintArgs = nil }()
	vc.hints(fr, func(h *Hint) bool {
		return h.where == "call" && h.call == name && (h.nth == nth || h.nth == 0) && h.when == when
	}, pos, nil)
}

func (vc *VC) recursiveWith(spec *FuncSpec) bool {
	return spec == vc.spec || (spec.recGroup != "" && spec.recGroup == vc.spec.recGroup)
}

// freshFrame says that only new objects differ.
func (vc *VC) freshFrame(h, old, nt, a0 string) string {
	if old == nt {
		return "true"
	}
	switch {
	case strings.HasPrefix(h, "E."):
		at := vc.u.at(vc.pr.heapTypes[h])
		return fmt.Sprintf("(forall ((a Int) (o Int) (i Int)) (! (=> (< a %s) (= (%s %s a o i) (%s %s a o i))) :pattern ((%s %s a o i))))", a0, at, nt, at, old, at, nt)
	case h == "C.Time":
		return fmt.Sprintf("(forall ((o Int)) (! (=> (and (< o %s) (< (- o) %s)) (= (select %s o) (select %s o))) :pattern ((select %s o))))", a0, a0, nt, old, nt)
	case strings.HasPrefix(h, "H."), strings.HasPrefix(h, "MD."), strings.HasPrefix(h, "MV."), h == "BigVal", h == "ScanN":
		return fmt.Sprintf("(forall ((o Int)) (! (=> (< o %s) (= (select %s o) (select %s o))) :pattern ((select %s o))))", a0, nt, old, nt)
	}
	return tEq(nt, old)
}

// resolveHeap turns the name used in contracts in a heap variable.
func (vc *VC) resolveHeap(s string, pkg *types.Package) string {
	switch {
	case s == "time":
		n, _ := vc.hTime()
		return n
	case strings.HasPrefix(s, "OUT."), s == warnHeap:
		vc.outHeap(s)
		return s
	case s == "scanners":
		vc.scanHeap()
		return "ScanN"
	case s == "bigint":
		vc.bigHeap()
		return "BigVal"
	case strings.HasPrefix(s, "mem("):
		t := vc.pr.parseType(s[4:len(s)-1], pkg)
		n, _ := vc.hMem(t)
		return n
	case strings.HasPrefix(s, "mapdom("), strings.HasPrefix(s, "mapval("):
		t := vc.pr.parseType(s[7:len(s)-1], pkg)
		d, _, v, _ := vc.hMap(t)
		if s[3] == 'd' {
			return d
		}
		return v
	case strings.HasPrefix(s, "global("):
		g := s[7 : len(s)-1]
		o := pkg.Scope().Lookup(g)
		if o == nil {
			vc.fail("unknown global %s", g)
		}
		n := "G." + sanitize(pkg.Name()) + "." + g
		vc.heapVar(n, o.Type(), vc.u.sortOf(o.Type()))
		return n
	}
	i := strings.LastIndexByte(s, '.')
	if i < 0 {
		vc.fail("bad heap location %q", s)
	}
	t := vc.pr.parseType(s[:i], pkg)
	if isTimeField(t, s[i+1:]) {
		n, _ := vc.hTime()
		return n
	}
	n, _, _ := vc.hField(t, s[i+1:])
	return n
}

func (vc *VC) bigHeap() (string, string) {
	vc.pr.heapSorts["BigVal"] = "(Array Int Int)"
	return "BigVal", "(Array Int Int)"
}

// callNumber is the number of a call to a function, in the order of the source, beginning with 1.
func callNumber(fn, callee *ssa.Function, pos token.Pos) int {
	n := 1
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if call, ok := in.(ssa.CallInstruction); ok && call.Pos() < pos && call.Common().StaticCallee() == callee {
				n++
			}
		}
	}
	return n
}

func builtinNumber(fn *ssa.Function, name string, pos token.Pos) int {
	n := 1
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if call, ok := in.(*ssa.Call); ok && call.Pos() < pos {
				if b, ok := call.Call.Value.(*ssa.Builtin); ok && b.Name() == name {
					n++
				}
			}
		}
	}
	return n
}
