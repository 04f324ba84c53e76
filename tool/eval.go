package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Env is where a contract expression is evaluated.
type Env struct {
	vc      *VC
	fr      *Frame
	scope   token.Pos
	st      *State
	now     *State
	old     *State
	entry   *State
	vars    map[string]Val
	pkg     *types.Package
	results []Val
	depth   int
	inTrig  bool      // in a trigger
	wit     token.Pos // where the variables of the function may be mentioned
}

var (
	tBool = types.Typ[types.Bool]
	tInt_ = types.Typ[types.Int]
	tStr  = types.Typ[types.String]
)

func (vc *VC) specEnv(fr *Frame) *Env {
	e := &Env{vc: vc, fr: fr, st: vc.st, old: vc.entry, vars: map[string]Val{}}
	if fr != nil {
		e.pkg = fr.fn.Pkg.Pkg
		for k, v := range fr.param {
			e.vars[k] = v
		}
	} else if vc.spec != nil {
		e.pkg = vc.spec.pkg
	}
	return e
}

func (e *Env) setResults(v Val, rt types.Type) {
	if v.tup != nil {
		e.results = v.tup
	} else if v.t != "" || v.lv != nil || v.fn != nil {
		e.results = []Val{v}
	}
}

func (e *Env) fail(format string, args ...interface{}) {
	e.vc.fail("contract: "+format, args...)
}

func (e *Env) boolExpr(x *Expr) string {
	v := e.eval(x)
	return v.t
}

func (e *Env) eval(x *Expr) Val {
	vc := e.vc
	save := vc.st
	vc.st = e.st
	vc.pure++
	defer func() {
		vc.pure--
		vc.st = save
	}()
	return e.ev(x)
}

func (e *Env) with(st *State) *Env {
	n := *e
	n.st = st
	return &n
}

func (e *Env) bind(names []string, vals []Val) *Env {
	n := *e
	n.vars = make(map[string]Val, len(e.vars)+len(names))
	for k, v := range e.vars {
		n.vars[k] = v
	}
	for i, k := range names {
		n.vars[k] = vals[i]
	}
	return &n
}

func (e *Env) sort(v Val) string {
	if v.srt != "" {
		return v.srt
	}
	return e.vc.u.sortOf(v.typ)
}

func elemOf(t types.Type) (types.Type, bool) {
	if t == nil {
		return nil, false
	}
	p, ok := types.Unalias(t).Underlying().(*types.Pointer)
	if !ok {
		return nil, false
	}
	return p.Elem(), true
}

// rv turns places (pointers to cells) in a term only when it is a pointer which was dereferenced.
func (e *Env) load(v Val) Val {
	if v.lv != nil {
		return e.vc.loadLV(v.lv)
	}
	return v
}

func (e *Env) ev(x *Expr) Val {
	vc := e.vc
	u := vc.u
	switch x.op {
	case "int":
		return Val{t: x.name, typ: tInt_}
	case "str":
		return Val{t: u.str(x.name), typ: tStr}
	case "id":
		return e.ident(x.name)
	case "heapref":
		switch x.name {
		case "mem":
			t := vc.pr.parseType(x.text, e.pkg)
			n, s := vc.hMem(t)
			return Val{t: vc.heapGet(n, s), srt: s, mt: t}
		case "heap":
			n := vc.resolveHeap(x.text, e.pkg)
			s := vc.heapSort(n)
			return Val{t: vc.heapGet(n, s), srt: s, mt: vc.heapElem(x.text, e.pkg)}
		case "mapdom", "mapval":
			t := vc.pr.parseType(x.text, e.pkg)
			d, ds, v, vs := vc.hMap(t)
			if x.name == "mapdom" {
				return Val{t: vc.heapGet(d, ds), srt: ds}
			}
			return Val{t: vc.heapGet(v, vs), srt: vs}
		case "zero":
			t := vc.pr.parseType(x.text, e.pkg)
			return Val{t: u.zero(t), typ: t}
		}
	case "istype":
		v := e.ev(x.args[0])
		t := vc.pr.parseType(x.text, e.pkg)
		return Val{t: tEq(app("itag", v.t), u.tag(t)), typ: tBool}
	case "astype":
		v := e.ev(x.args[0])
		t := vc.pr.parseType(x.text, e.pkg)
		return Val{t: vc.fromIface(v.t, t), typ: t}
	case "mk":
		t := vc.pr.parseType(x.text, e.pkg)
		if _, ok := types.Unalias(t).Underlying().(*types.Interface); ok {
			e.fail("mk of interface")
		}
		if _, ok := types.Unalias(t).Underlying().(*types.Pointer); ok { // interface holding a pointer
			v := e.ev(x.args[0])
			return Val{t: vc.toIface(v, t), typ: types.NewInterfaceType(nil, nil)}
		}
		if _, ok := types.Unalias(t).Underlying().(*types.Basic); ok { // interface holding a number or a text
			return Val{t: vc.toIface(Val{t: e.ev(x.args[0]).t, typ: t}, t), typ: types.NewInterfaceType(nil, nil)}
		}
		var fs []string
		for _, a := range x.args {
			fs = append(fs, e.ev(a).t)
		}
		return Val{t: u.mkStruct(t, fs), typ: t}
	case "un":
		v := x.args[0]
		switch x.name {
		case "!":
			return Val{t: tNot(e.ev(v).t), typ: tBool}
		case "-":
			a := e.ev(v)
			return Val{t: app("-", a.t), typ: a.typ}
		case "*":
			a := e.ev(v)
			if a.lv != nil {
				return vc.loadLV(a.lv)
			}
			el, ok := elemOf(a.typ)
			if !ok {
				e.fail("* of non pointer in %q", x.text)
			}
			if isTime(el) {
				n, s := vc.hTime()
				return Val{t: tSel(vc.heapGet(n, s), a.t), typ: el}
			}
			return Val{t: vc.loadObject(el, a.t), typ: el}
		case "&":
			if v.op == "sel" {
				o := e.ev(v.args[0])
				if el, ok := elemOf(o.typ); ok && isTimeField(el, v.name) {
					return Val{t: app("-", o.t), typ: types.NewPointer(vc.pr.timeType)}
				}
			}
			e.fail("bad address")
		}
	case "bin":
		return e.binary(x)
	case "quant":
		return e.quant(x)
	case "sel":
		return e.selector(x)
	case "index":
		b := e.load(e.ev(x.args[0]))
		i := e.ev(x.args[1])
		if b.typ == nil {
			if b.mt != nil {
				return Val{t: tSel(b.t, i.t), typ: b.mt}
			}
			return Val{t: tSel(b.t, i.t), srt: elemSort(b.srt)}
		}
		switch tt := types.Unalias(b.typ).Underlying().(type) {
		case *types.Slice:
			n, s := vc.hMem(tt.Elem())
			return Val{t: u.elem(vc.heapGet(n, s), tt.Elem(), b.t, i.t), typ: tt.Elem()}
		case *types.Map:
			dn, ds, vn, vs := vc.hMap(b.typ)
			v := tSel(tSel(vc.heapGet(vn, vs), b.t), i.t)
			if !e.inTrig {
				v = tIte(tSel(tSel(vc.heapGet(dn, ds), b.t), i.t), v, u.zero(tt.Elem()))
			}
			return Val{t: v, typ: tt.Elem()}
		case *types.Basic:
			return Val{t: app("sat", b.t, i.t), typ: types.Typ[types.Byte]}
		}
		e.fail("index of %v", b.typ)
	case "slice":
		b := e.load(e.ev(x.args[0]))
		lo := "0"
		if x.args[1] != nil {
			lo = e.ev(x.args[1]).t
		}
		if bt, ok := types.Unalias(b.typ).Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
			hi := app("slen.s", b.t)
			if x.args[2] != nil {
				hi = e.ev(x.args[2]).t
			}
			return Val{t: app("ssub", b.t, lo, hi), typ: b.typ}
		}
		hi := sLen(b.t)
		if x.args[2] != nil {
			hi = e.ev(x.args[2]).t
		}
		return Val{t: mkS(sArr(b.t), tAdd(sOff(b.t), lo), tSub(hi, lo), tSub(sCap(b.t), lo)), typ: b.typ}
	case "call":
		return e.callExpr(x)
	case "lemma":
		return Val{t: e.lemmaTerm(x.name, x.args), typ: tBool}
	case "lemmabody":
		return Val{t: e.lemmaBody(vc.pr.lemma(x.name)), typ: tBool}
	}
	e.fail("cannot evaluate %s %q", x.op, x.name)
	return Val{}
}

func elemSort(s string) string {
	p := splitSexp(s)
	if len(p) == 3 && p[0] == "Array" {
		return p[2]
	}
	return "Int"
}

func (e *Env) ident(n string) Val {
	vc := e.vc
	switch n {
	case "true", "false":
		return Val{t: n, typ: tBool}
	case "nil":
		return Val{t: "0", typ: types.Typ[types.UntypedNil]}
	case "alloc":
		return Val{t: vc.alloc(), typ: tInt_}
	case "locks":
		return Val{t: vc.heapGet("ghost.lock", "(Array Int Int)"), srt: "(Array Int Int)"}
	case "zeroTime":
		return Val{t: zeroTime, typ: vc.pr.timeType}
	case "result":
		if len(e.results) > 0 {
			return e.results[0]
		}
	}
	if strings.HasPrefix(n, "result") && len(n) == 7 {
		i := int(n[6] - '0')
		if i < len(e.results) {
			return e.results[i]
		}
	}
	if v, ok := e.vars["$"+n]; ok { // bound variables
		return v
	}
	if e.fr != nil && e.scope.IsValid() {
		if v, ok := vc.localVar(e.fr, n, e.scope, e.st); ok {
			return v
		}
	}
	if v, ok := e.vars[n]; ok {
		return v
	}
	if e.pkg != nil {
		if o := e.pkg.Scope().Lookup(n); o != nil {
			switch c := o.(type) {
			case *types.Const:
				t, ok := vc.u.constTerm(c.Val(), c.Type())
				if ok {
					return Val{t: t, typ: c.Type()}
				}
			case *types.Var:
				if isObj(c.Type()) {
					vc.u.konst("gref."+n, "Int")
					return Val{t: "gref." + n, typ: types.NewPointer(c.Type())}
				}
				h := "G." + sanitize(e.pkg.Name()) + "." + n
				vc.heapVar(h, c.Type(), vc.u.sortOf(c.Type()))
				return Val{t: vc.heapGet(h, vc.heapSort(h)), typ: c.Type()}
			}
		}
	}
	if e.fr != nil && e.wit.IsValid() {
		if v, ok := vc.localVar(e.fr, n, e.wit, e.st); ok {
			return v
		}
	}
	e.fail("unknown name %q", n)
	return Val{}
}

// heapElem is the type of the fields kept in a heap variable.
func (vc *VC) heapElem(s string, pkg *types.Package) types.Type {
	if s == "time" {
		return vc.pr.timeType
	}
	if s == "bigint" || strings.Contains(s, "(") {
		return nil
	}
	i := strings.LastIndexByte(s, '.')
	if i < 0 {
		return nil
	}
	t := vc.pr.parseType(s[:i], pkg)
	if isTimeField(t, s[i+1:]) {
		return vc.pr.timeType
	}
	_, _, ft := vc.hField(t, s[i+1:])
	return ft
}

// localVar finds a local variable of the function.
func (vc *VC) localVar(fr *Frame, name string, pos token.Pos, st *State) (Val, bool) {
	sc := fr.fn.Pkg.Pkg.Scope().Innermost(pos)
	if sc == nil {
		return Val{}, false
	}
	_, obj := sc.LookupParent(name, pos)
	if obj == nil || obj.Parent() == fr.fn.Pkg.Pkg.Scope() || obj.Parent() == types.Universe {
		return Val{}, false
	}
	for _, b := range fr.fn.Blocks {
		for _, in := range b.Instrs {
			a, ok := in.(*ssa.Alloc)
			if !ok || a.Comment != name || a.Pos() != obj.Pos() {
				continue
			}
			v, ok := fr.env[a]
			if !ok {
				vc.fail("contract: variable %s is not set yet", name)
			}
			if v.lv != nil && v.lv.kind == "cell" {
				c, ok := st.cells[v.lv.cell]
				if !ok {
					vc.fail("contract: variable %s has no value here", name)
				}
				return c, true
			}
			return v, true // object reference
		}
	}
	for _, f := range fr.fn.FreeVars {
		if f.Name() == name {
			v := fr.env[f]
			if v.lv != nil {
				save := vc.st
				vc.st = st
				r := vc.loadLV(v.lv)
				vc.st = save
				return r, true
			}
			return v, true
		}
	}
	return Val{}, false
}

func (e *Env) selector(x *Expr) Val {
	vc := e.vc
	// package-qualified constants
	if x.args[0].op == "id" && x.args[0].name == "accounting" {
		p := vc.pr.pkgByPath("github.com/cespedes/accounting")
		n := *e
		n.pkg, n.fr = p, nil
		return (&n).ident(x.name)
	}
	b := e.ev(x.args[0])
	if b.lv != nil {
		b = vc.loadLV(b.lv)
	}
	if b.typ == nil {
		e.fail("field %s of untyped value", x.name)
	}
	if el, ok := elemOf(b.typ); ok {
		st, ok := types.Unalias(el).Underlying().(*types.Struct)
		if !ok {
			e.fail("field %s of %v", x.name, b.typ)
		}
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == x.name {
				return Val{t: vc.readField(el, x.name, b.t), typ: st.Field(i).Type()}
			}
		}
		e.fail("no field %s in %v", x.name, el)
	}
	st, ok := types.Unalias(b.typ).Underlying().(*types.Struct)
	if !ok {
		e.fail("field %s of %v", x.name, b.typ)
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == x.name {
			return Val{t: vc.u.structSel(b.typ, i, b.t), typ: st.Field(i).Type()}
		}
	}
	e.fail("no field %s in %v", x.name, b.typ)
	return Val{}
}

func isNilExpr(v Val) bool {
	b, ok := v.typ.(*types.Basic)
	return ok && b.Kind() == types.UntypedNil
}

func (e *Env) binary(x *Expr) Val {
	vc := e.vc
	switch x.name {
	case "&&":
		return Val{t: tAnd(e.ev(x.args[0]).t, e.ev(x.args[1]).t), typ: tBool}
	case "||":
		return Val{t: tOr(e.ev(x.args[0]).t, e.ev(x.args[1]).t), typ: tBool}
	case "==>":
		return Val{t: tImp(e.ev(x.args[0]).t, e.ev(x.args[1]).t), typ: tBool}
	case "<==>":
		return Val{t: tEq(e.ev(x.args[0]).t, e.ev(x.args[1]).t), typ: tBool}
	case "in":
		k := e.ev(x.args[0])
		m := e.ev(x.args[1])
		if m.typ == nil {
			return Val{t: tSel(m.t, k.t), typ: tBool}
		}
		dn, ds, _, _ := vc.hMap(m.typ)
		return Val{t: tSel(tSel(vc.heapGet(dn, ds), m.t), k.t), typ: tBool}
	}
	a, b := e.ev(x.args[0]), e.ev(x.args[1])
	if a.lv != nil && !(b.lv != nil) {
		a = vc.loadLV(a.lv)
	}
	if b.lv != nil {
		b = vc.loadLV(b.lv)
	}
	switch x.name {
	case "==", "!=":
		var t string
		switch {
		case isNilT(b.typ) && a.typ != nil:
			t = vc.nilTest(a)
		case isNilT(a.typ) && b.typ != nil:
			t = vc.nilTest(b)
		case a.typ != nil && vc.u.sortOf(a.typ) == "Str" && a.srt == "":
			t = vc.strEq(a.t, b.t)
		default:
			t = tEq(a.t, b.t)
		}
		if x.name == "!=" {
			t = tNot(t)
		}
		return Val{t: t, typ: tBool}
	case "<", "<=", ">", ">=":
		if a.typ != nil && a.srt == "" && vc.u.sortOf(a.typ) == "Str" {
			switch x.name {
			case "<":
				return Val{t: app("slt", a.t, b.t), typ: tBool}
			case ">":
				return Val{t: app("slt", b.t, a.t), typ: tBool}
			case "<=":
				return Val{t: tNot(app("slt", b.t, a.t)), typ: tBool}
			}
			return Val{t: tNot(app("slt", a.t, b.t)), typ: tBool}
		}
		return Val{t: app(x.name, a.t, b.t), typ: tBool}
	case "+":
		if a.typ != nil && a.srt == "" && vc.u.sortOf(a.typ) == "Str" {
			return Val{t: app("scat", a.t, b.t), typ: tStr}
		}
		return Val{t: tAdd(a.t, b.t), typ: a.typ}
	case "-":
		return Val{t: tSub(a.t, b.t), typ: a.typ}
	case "*":
		return Val{t: tMul(a.t, b.t), typ: a.typ}
	case "/":
		return Val{t: app("div", a.t, b.t), typ: a.typ}
	case "%":
		return Val{t: app("mod", a.t, b.t), typ: a.typ}
	}
	e.fail("operator %s", x.name)
	return Val{}
}

func isNilT(t types.Type) bool {
	b, ok := t.(*types.Basic)
	return ok && b.Kind() == types.UntypedNil
}

func (vc *VC) nilTest(v Val) string {
	switch types.Unalias(v.typ).Underlying().(type) {
	case *types.Slice:
		return tEq(sArr(v.t), "0")
	case *types.Interface:
		return tEq(app("itag", v.t), "0")
	}
	return tEq(v.t, "0")
}

func (e *Env) qsort(ty string) (types.Type, string) {
	vc := e.vc
	switch ty {
	case "int":
		return tInt_, "Int"
	case "bool":
		return tBool, "Bool"
	case "ref":
		return tInt_, "Int"
	case "slice":
		return nil, "Slice"
	case "Time":
		return vc.pr.timeType, "Time"
	}
	if strings.HasPrefix(ty, "mem(") {
		t := vc.pr.parseType(ty[4:len(ty)-1], e.pkg)
		_, s := vc.hMem(t)
		return nil, s
	}
	if strings.HasPrefix(ty, "heap(") {
		n := vc.resolveHeap(ty[5:len(ty)-1], e.pkg)
		return nil, vc.heapSort(n)
	}
	if strings.HasPrefix(ty, "mapdom(") || strings.HasPrefix(ty, "mapval(") {
		n := vc.resolveHeap(ty, e.pkg)
		return nil, vc.heapSort(n)
	}
	if strings.HasPrefix(ty, "set(") {
		_, s := e.qsort(ty[4 : len(ty)-1])
		return nil, "(Array " + s + " Bool)"
	}
	if strings.HasPrefix(ty, "fmap(") {
		_, s := e.qsort(ty[5 : len(ty)-1])
		return nil, "(Array Int " + s + ")"
	}
	t := vc.pr.parseType(ty, e.pkg)
	return t, vc.u.sortOf(t)
}

func (e *Env) quant(x *Expr) Val {
	vc := e.vc
	var names []string
	var vals []Val
	var decl []string
	for _, v := range x.vars {
		t, s := e.qsort(v.typ)
		vc.nname++
		n := fmt.Sprintf("%s?%d", v.name, vc.nname)
		val := Val{t: n, typ: t}
		if t == nil {
			val.srt = s
		}
		if strings.HasPrefix(v.typ, "mem(") {
			val.mt = vc.pr.parseType(v.typ[4:len(v.typ)-1], e.pkg)
		}
		if strings.HasPrefix(v.typ, "heap(") {
			val.mt = vc.heapElem(v.typ[5:len(v.typ)-1], e.pkg)
		}
		names = append(names, "$"+v.name)
		vals = append(vals, val)
		decl = append(decl, "("+n+" "+s+")")
	}
	n := e.bind(names, vals)
	body := n.ev(x.args[0]).t
	if body == "true" {
		return Val{t: "true", typ: tBool}
	}
	var pats []string
	n.inTrig = true
	for _, tr := range x.trig {
		var ts []string
		for _, t := range tr {
			ts = append(ts, n.ev(t).t)
		}
		pats = append(pats, ":pattern ("+strings.Join(ts, " ")+")")
	}
	if len(pats) > 0 {
		body = "(! " + body + " " + strings.Join(pats, " ") + ")"
	}
	return Val{t: fmt.Sprintf("(%s (%s) %s)", x.name, strings.Join(decl, " "), body), typ: tBool}
}

func (e *Env) callExpr(x *Expr) Val {
	vc := e.vc
	u := vc.u
	arg := func(i int) Val { return e.load(e.ev(x.args[i])) }
	switch x.name {
	case "len":
		v := arg(0)
		if v.typ == nil {
			return Val{t: sLen(v.t), typ: tInt_}
		}
		return Val{t: vc.lenOf(v), typ: tInt_}
	case "cap":
		return Val{t: sCap(arg(0).t), typ: tInt_}
	case "arr":
		return Val{t: sArr(arg(0).t), typ: tInt_}
	case "off":
		return Val{t: sOff(arg(0).t), typ: tInt_}
	case "old":
		if e.old == nil {
			e.fail("no old state")
		}
		n := *e
		if n.now == nil {
			n.now = e.st
		}
		n.st = e.old
		save := vc.st
		vc.st = e.old
		defer func() { vc.st = save }()
		// parameters have their initial value
		if e.fr != nil {
			n.scope = token.NoPos
		}
		return n.ev(x.args[0])
	case "entry", "start", "after": // after(function, n, expr): after its n-th call; entry(expr) or entry(loop, expr); start(loop, expr): in the current iteration
		st, last := e.entry, len(x.args)-1
		if x.name == "after" {
			st = nil
			if e.fr != nil && last == 2 {
				st = e.fr.afterCall[x.args[0].name+"#"+x.args[1].name]
			}
		} else if last == 1 {
			k := 0
			fmt.Sscan(x.args[0].name, &k)
			st = nil
			if e.fr != nil {
				st = e.fr.loopEntry[k]
				if x.name == "start" {
					st = e.fr.loopStart[k]
				}
			}
		}
		if st == nil {
			e.fail("no loop here")
		}
		n := *e
		n.entry = st
		if n.now == nil {
			n.now = e.st
		}
		n.st = st
		save := vc.st
		vc.st = st
		defer func() { vc.st = save }()
		return n.ev(x.args[last])
	case "fresh":
		v := arg(0)
		if e.sort(v) == "Slice" {
			return Val{t: app(">=", sArr(v.t), e.old.heap["alloc"]), typ: tBool}
		}
		return Val{t: app(">=", v.t, vc.heapGetIn(e.old, "alloc", "Int")), typ: tBool}
	case "allocated":
		v := arg(0)
		if e.sort(v) == "Slice" {
			return Val{t: app("<", sArr(v.t), vc.alloc()), typ: tBool}
		}
		return Val{t: app("<", v.t, vc.alloc()), typ: tBool}
	case "ite":
		c, a, b := arg(0), arg(1), arg(2)
		return Val{t: tIte(c.t, a.t, b.t), typ: a.typ, srt: a.srt}
	case "quo":
		return Val{t: app("quo", arg(0).t, arg(1).t), typ: tInt_}
	case "div":
		return Val{t: app("div", arg(0).t, arg(1).t), typ: tInt_}
	case "mod":
		return Val{t: app("mod", arg(0).t, arg(1).t), typ: tInt_}
	case "min", "max":
		a, b := arg(0), arg(1)
		op := "<="
		if x.name == "max" {
			op = ">="
		}
		return Val{t: tIte(app(op, a.t, b.t), a.t, b.t), typ: a.typ}
	case "big":
		n, s := vc.bigHeap()
		return Val{t: tSel(vc.heapGet(n, s), arg(0).t), typ: tInt_}
	case "inst":
		return Val{t: inst(arg(0).t), typ: tInt_}
	case "deref": // value of a *time.Time
		n, s := vc.hTime()
		return Val{t: tSel(vc.heapGet(n, s), arg(0).t), typ: vc.pr.timeType}
	case "address":
		return Val{t: arg(0).t, typ: tInt_}
	case "at": // at(mem, slice, i)
		m, s, i := arg(0), arg(1), arg(2)
		if m.mt != nil {
			return Val{t: u.elem(m.t, m.mt, s.t, i.t), typ: m.mt}
		}
		e.fail("at: bad memory")
	case "atr": // atr(mem, array, offset, i)
		m := arg(0)
		if m.mt == nil {
			e.fail("atr: bad memory")
		}
		return Val{t: app(u.at(m.mt), m.t, arg(1).t, arg(2).t, arg(3).t), typ: m.mt}
	case "elem":
	case "implements":
		v := arg(0)
		f := "impl." + x.args[1].name
		u.fun(f, "(Int) Bool", Axiom{"impl-nil", fmt.Sprintf("(not (%s 0))", f)})
		return Val{t: app(f, app("itag", v.t)), typ: tBool}
	case "outn": // number of texts printed
		return Val{t: vc.heapGet("OUT.n", vc.outHeap("OUT.n")), typ: tInt_}
	case "outp": // outp(k): one of them
		return Val{t: tSel(vc.heapGet("OUT.p", vc.outHeap("OUT.p")), arg(0).t), typ: tStr}
	case "outw": // outw(k): where
		return Val{t: tSel(vc.heapGet("OUT.w", vc.outHeap("OUT.w")), arg(0).t), typ: types.NewInterfaceType(nil, nil)}
	case "warnings": // number of warnings so far
		return Val{t: vc.heapGet(warnHeap, vc.outHeap(warnHeap)), typ: tInt_}
	case "stdout":
		return Val{t: vc.stdout(), typ: types.NewInterfaceType(nil, nil)}
	case "timetext": // timetext(moment, layout)
		u.fun("timetext", "(Time Str) Str")
		return Val{t: app("timetext", arg(0).t, arg(1).t), typ: tStr}
	case "contains": // contains(text, part)
		vc.u.fun("strcontains", "(Str Str) Bool")
		return boolVal(app("strcontains", arg(0).t, arg(1).t))
	case "lower":
		vc.u.fun("strlower", "(Str) Str")
		return Val{t: app("strlower", arg(0).t), typ: tStr}
	case "scanned": // scanned(scanner): how many lines it has given
		h, srt := vc.scanHeap()
		return Val{t: tSel(vc.heapGet(h, srt), arg(0).t), typ: tInt_}
	case "scanline": // scanline(scanner, k): the k-th line, from 1
		u.fun("scanline", "(Int Int) Str")
		return Val{t: app("scanline", arg(0).t, arg(1).t), typ: tStr}
	case "scanend": // scanend(scanner, k): it has only k lines
		u.fun("scanend", "(Int Int) Bool")
		return boolVal(app("scanend", arg(0).t, arg(1).t))
	case "scanerr": // scanerr(scanner): why it ended
		u.fun("scanerr", "(Int) Iface")
		return Val{t: app("scanerr", arg(0).t), typ: types.Universe.Lookup("error").Type()}
	case "scanname": // scanname(scanner): the file it reads
		u.fun("scanfile", "(Int) Iface")
		u.fun("scanof", "(Iface) Int")
		u.fun("openname", "(Int) Str")
		return Val{t: app("openname", app("scanof", app("scanfile", arg(0).t))), typ: tStr}
	case "notexist": // notexist(error): os.IsNotExist
		u.fun("notexist", "(Iface) Bool")
		return boolVal(app("notexist", arg(0).t))
	case "pathjoin": // pathjoin(directory, name)
		u.fun("pathjoin", "(Str Str) Str")
		return Val{t: app("pathjoin", arg(0).t, arg(1).t), typ: tStr}
	case "fields": // fields(text, separator): how many
		u.fun("split.n", "(Str Str) Int")
		return Val{t: app("split.n", arg(0).t, arg(1).t), typ: tInt_}
	case "field": // field(text, separator, k): one of them
		u.fun("split.at", "(Str Str Int) Str")
		return Val{t: app("split.at", arg(0).t, arg(1).t, arg(2).t), typ: tStr}
	case "atoiok":
		u.fun("atoi.ok", "(Str) Bool")
		return boolVal(app("atoi.ok", arg(0).t))
	case "atoi":
		u.fun("atoi.val", "(Str) Int")
		return Val{t: app("atoi.val", arg(0).t), typ: tInt_}
	case "floatok":
		u.fun("float.ok", "(Str) Bool")
		return boolVal(app("float.ok", arg(0).t))
	case "hundredths": // hundredths(text): the number written in text, times 100, rounded
		u.fun("float.val", "(Str) Real")
		u.fun("float.round", "(Real) Real")
		u.fun("float.int", "(Real) Int")
		return Val{t: app("float.int", app("float.round", app("*", "100.0", app("float.val", arg(0).t)))), typ: tInt_}
	case "insideof": // insideof(x, T): the T inside the object x
		return Val{t: app("-", arg(0).t), typ: types.NewPointer(vc.pr.parseType(x.args[1].name, e.pkg))}
	case "openerr": // openerr(name): what os.Open gives
		u.fun("openerr", "(Str) Iface")
		return Val{t: app("openerr", arg(0).t), typ: types.Universe.Lookup("error").Type()}
	case "regfind": // regfind(expression, text): the first match
		vc.u.fun("regexp.find", "(Str Str) Str")
		return Val{t: app("regexp.find", arg(0).t, arg(1).t), typ: tStr}
	case "adddate": // adddate(moment, years, months, days)
		vc.u.fun("adddate", "(Time Int Int Int) Time")
		return Val{t: app("adddate", arg(0).t, arg(1).t, arg(2).t, arg(3).t), typ: vc.pr.timeType}
	case "parseok": // parseok(layout, text)
		vc.u.fun("time.parse.ok", "(Str Str) Bool")
		return Val{t: app("time.parse.ok", arg(0).t, arg(1).t), typ: tBool}
	case "parsed": // parsed(layout, text)
		vc.u.fun("time.parse", "(Str Str) Time")
		return Val{t: app("time.parse", arg(0).t, arg(1).t), typ: vc.pr.timeType}
	case "urlok":
		vc.u.fun("url.ok", "(Str) Bool")
		return Val{t: app("url.ok", e.ev(x.args[0]).t), typ: tBool}
	case "urlscheme":
		vc.u.fun("url.scheme", "(Str) Str")
		return Val{t: app("url.scheme", e.ev(x.args[0]).t), typ: tStr}
	case "urlpath":
		vc.u.fun("url.path", "(Str) Str")
		return Val{t: app("url.path", e.ev(x.args[0]).t), typ: tStr}
	case "isspace":
		return Val{t: vc.isSpace(arg(0).t), typ: tBool}
	case "trimlo", "trimhi":
		vc.trim(arg(0).t)
		return Val{t: app("trim."+x.name[4:], arg(0).t), typ: types.Typ[types.Int]}
	case "trim":
		return Val{t: vc.trim(arg(0).t), typ: tStr}
	case "rune":
		return Val{t: app("srune", arg(0).t), typ: tStr}
	case "store": // store(map, key, value)
		m := arg(0)
		return Val{t: tSto(m.t, arg(1).t, arg(2).t), srt: m.srt, typ: m.typ}
	case "dom": // set of keys of a map
		m := arg(0)
		dn, ds, _, _ := vc.hMap(m.typ)
		return Val{t: tSel(vc.heapGet(dn, ds), m.t), srt: elemSort(ds), mt: tBool}
	case "vals":
		m := arg(0)
		_, _, vn, vs := vc.hMap(m.typ)
		return Val{t: tSel(vc.heapGet(vn, vs), m.t), srt: elemSort(vs), mt: types.Unalias(m.typ).Underlying().(*types.Map).Elem()}
	case "it", "rs", "visited", "pos", "perm", "permat":
		return e.loopThing(x)
	case "unchanged": // unchanged(heap...) since old
		var cs []string
		for _, a := range x.args {
			cs = append(cs, tEq(e.ev(a).t, (&Expr{}).evOld(e, a)))
		}
		return Val{t: tAnd(cs...), typ: tBool}
	}
	if d := vc.pr.sp.defs[x.name]; d != nil {
		if len(d.params) != len(x.args) {
			e.fail("%s wants %d arguments", x.name, len(d.params))
		}
		if e.depth > 30 {
			e.fail("recursive def %s", x.name)
		}
		var names []string
		var vals []Val
		for i, a := range x.args {
			names = append(names, "$"+d.params[i])
			vals = append(vals, e.load(e.ev(a)))
		}
		n := e.bind(names, vals)
		n.depth++
		return n.ev(d.body)
	}
	if f := vc.pr.sp.funs[x.name]; f != nil {
		if len(f.params) != len(x.args) {
			e.fail("%s wants %d arguments", x.name, len(f.params))
		}
		n := *e
		n.pkg = f.pkg
		var as []string
		for i := range x.args {
			as = append(as, arg(i).t)
		}
		rt, rs := (&n).qsort(f.res)
		vc.declareFun(f)
		t := f.name
		if len(as) > 0 {
			t = app(f.name, as...)
		}
		v := Val{t: t, typ: rt}
		if rt == nil {
			v.srt = rs
		}
		return v
	}
	e.fail("unknown function %q", x.name)
	return Val{}
}

func (*Expr) evOld(e *Env, a *Expr) string {
	return e.ev(&Expr{op: "call", name: "old", args: []*Expr{a}}).t
}

func (vc *VC) declareFun(f *SpecFun) {
	if _, ok := vc.u.syms[f.name]; ok {
		return
	}
	e := &Env{vc: vc, st: vc.st, pkg: f.pkg}
	var ss []string
	for _, p := range f.params {
		_, s := e.qsort(p.typ)
		ss = append(ss, s)
	}
	_, rs := e.qsort(f.res)
	vc.u.fun(f.name, "("+strings.Join(ss, " ")+") "+rs)
}

func (e *Env) loopThing(x *Expr) Val {
	vc := e.vc
	if e.fr == nil {
		e.fail("%s outside of a function", x.name)
	}
	n := 0
	fmt.Sscan(x.args[0].name, &n)
	if x.name == "perm" || x.name == "permat" {
		f := vc.lastPerm[n]
		if f == "" {
			// not done yet: nothing is known
			f = fmt.Sprintf("perm!none%d", n)
			vc.u.fun(f, "(Int) Int")
			vc.u.fun(strings.Replace(f, "perm!", "perminv!", 1), "(Int) Int")
		}
		if x.name == "permat" { // where an element went
			f = strings.Replace(f, "perm!", "perminv!", 1)
		}
		return Val{t: app(f, e.ev(x.args[1]).t), typ: tInt_}
	}
	l := e.fr.info.byNum[n]
	if l == nil {
		e.fail("no loop %d in %s", n, e.fr.fn)
	}
	st := e.st
	if e.now != nil { // inside old() or entry()
		st = e.now
	}
	switch x.name {
	case "it":
		if l.rcell == nil {
			e.fail("loop %d is not a range over a slice", n)
		}
		c := vc.cellFor(e.fr.path+"/"+l.rcell.Name()+":rangeindex", nil)
		return Val{t: tAdd(st.cells[c].t, "1"), typ: tInt_}
	case "rs":
		if l.rng == nil {
			e.fail("loop %d is not a range", n)
		}
		return vc.value(e.fr, l.rng)
	case "pos":
		v := e.fr.env[l.rnext]
		return Val{t: st.cells[v.it.cell].t, typ: tInt_}
	case "visited":
		v := e.fr.env[l.rnext]
		return Val{t: tSel(st.cells[v.it.cell].t, e.ev(x.args[1]).t), typ: tBool}
	}
	return Val{}
}
