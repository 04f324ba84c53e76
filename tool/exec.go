package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- values

type Cell struct {
	key string
	typ types.Type
}

// LV is a place in memory.
type LV struct {
	kind string // "cell", "field", "elem", "time", "glob"
	cell *Cell
	heap string     // heap variable: for field, elem, glob
	ref  string     // object (field), array (elem), address (time)
	off  string     // for elem
	idx  string     // for elem
	typ  types.Type // type of the base place
	path []int      // struct fields, from the base place
	ptyp types.Type // type of the place
}

func (l *LV) same(m *LV) bool {
	if l == nil || m == nil {
		return l == m
	}
	return l.kind == m.kind && l.cell == m.cell && l.heap == m.heap && l.ref == m.ref && l.off == m.off && l.idx == m.idx && fmt.Sprint(l.path) == fmt.Sprint(m.path)
}

type Clos struct {
	fn   *ssa.Function
	bind []Val
}

type Val struct {
	t    string // SMT term
	typ  types.Type
	lv   *LV
	fn   *Clos
	tup  []Val
	it   *Iter
	arr  types.Type // element type, when it is a pointer to an array (t = array id)
	orig *Val       // what is inside an interface
	srt  string     // sort, for values which only exist in contracts
	mt   types.Type // element type, for memories
}

type Iter struct {
	kind string // "string" or "map"
	x    Val
	cell *Cell
	dom0 string
}

func (v Val) same(w Val) bool {
	return v.t == w.t && v.lv.same(w.lv) && v.fn == w.fn
}

type State struct {
	cells map[*Cell]Val
	heap  map[string]string
}

func (s *State) clone() *State {
	n := &State{cells: make(map[*Cell]Val, len(s.cells)), heap: make(map[string]string, len(s.heap))}
	for k, v := range s.cells {
		n.cells[k] = v
	}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	return n
}

// ---------------------------------------------------------------- verification conditions

type Node struct {
	id    int
	preds []*Node
	reach string
	anc   map[*Node]bool
	head  bool // head of a loop
}

func (n *Node) ancestors() map[*Node]bool {
	if n.anc != nil {
		return n.anc
	}
	m := map[*Node]bool{n: true}
	for _, p := range n.preds {
		for a := range p.ancestors() {
			m[a] = true
		}
	}
	n.anc = m
	return m
}

type Fact struct {
	node *Node
	term string
}

type Obl struct {
	Name   string
	Kind   string
	Pos    string
	Props  []string
	node   *Node
	nfacts int
	goal   string
	guard  string
	cover  bool // it must NOT be provable (reachability)
	text   string
	hints  []string
}

type Edge struct {
	node *Node
	cond string
	st   *State
	from *ssa.BasicBlock
}

type Frame struct {
	fn        *ssa.Function
	env       map[ssa.Value]Val
	path      string
	top       bool
	info      *fnInfo
	param     map[string]Val // values at entry
	defers    []Deferred
	loopEntry map[int]*State
	loopStart map[int]*State // at the beginning of the current iteration
	afterCall map[string]*State
	loopVar   map[int][]string
	callN     map[string]int
	specs     *FuncSpec
	onReturn  func(st *State, res []Val, b *ssa.BasicBlock)
	pos       token.Pos
	curBlock  *ssa.BasicBlock
	parent    *Frame
}

type VC struct {
	pr            *Prog
	u             *Univ
	fn            *ssa.Function
	spec          *FuncSpec
	facts         []Fact
	obls          []*Obl
	nnode         int
	nname         int
	cur           *Node
	st            *State
	entry         *State
	dry           int
	pure          int
	cells         map[string]*Cell
	mods          map[string]map[string]bool // loop key -> modified things
	inlined       map[string]bool
	trusted       map[string]bool
	called        map[string]bool
	assumptions   map[string]bool
	err           error
	depth         int
	topFrame      *Frame
	oblN          map[string]int
	rootFacts     []string
	rootSeen      map[string]bool
	hintArgs      []Val
	lastPerm      map[int]string
	flags         map[string][]flagPlace // of each flag.FlagSet
	flagRest      map[string]string
	lemmaLimit    int
	lemmaLimitSet bool
	usedLemmas    map[string]bool
}

type vcError struct{ msg string }

func (vc *VC) fail(format string, args ...interface{}) {
	panic(vcError{fmt.Sprintf(format, args...)})
}

func (vc *VC) fresh(base, srt string) string {
	vc.nname++
	n := fmt.Sprintf("%s!%d", base, vc.nname)
	vc.u.konst(n, srt)
	return n
}

func (vc *VC) fact(t string) {
	if t == "true" || vc.pure > 0 {
		return
	}
	vc.facts = append(vc.facts, Fact{vc.cur, t})
}

// assume adds a fact which holds when the current point is reached.
func (vc *VC) assume(t string) {
	if t == "true" {
		return
	}
	vc.fact(tImp(vc.cur.reach, t))
}

func (vc *VC) name(base, srt, t string) string {
	if vc.pure > 0 || len(t) < 60 {
		return t
	}
	n := vc.fresh(base, srt)
	vc.fact(tEq(n, t))
	return n
}

func (vc *VC) newNode(edges []Edge) *Node {
	vc.nnode++
	n := &Node{id: vc.nnode}
	var rs []string
	for _, e := range edges {
		n.preds = append(n.preds, e.node)
		rs = append(rs, tAnd(e.node.reach, e.cond))
	}
	r := tOr(rs...)
	if r == "true" || r == "false" {
		n.reach = r
		return n
	}
	n.reach = vc.fresh("R", "Bool")
	vc.facts = append(vc.facts, Fact{n, tEq(n.reach, r)})
	return n
}

// branch opens a new node where cond holds.
func (vc *VC) branch(cond string) {
	vc.cur = vc.newNode([]Edge{{node: vc.cur, cond: cond}})
}

func (vc *VC) oblig(kind, name, goal string, pos token.Pos, props []string) {
	if vc.dry > 0 || vc.pure > 0 {
		return
	}
	if vc.cur.reach == "false" {
		return
	}
	if goal == "true" && kind == "safety" {
		return
	}
	o := &Obl{Name: name, Kind: kind, Pos: vc.pr.pos(pos), Props: props, node: vc.cur, nfacts: len(vc.facts), goal: goal, guard: vc.cur.reach}
	vc.obls = append(vc.obls, o)
	vc.assume(goal)
}

func (vc *VC) heapGet(name, srt string) string {
	if t, ok := vc.st.heap[name]; ok {
		return t
	}
	// first use: it has the value it had at the beginning
	t, ok := vc.entry.heap[name]
	if !ok {
		t = name + "!0"
		vc.u.konst(t, srt)
		vc.entry.heap[name] = t
		vc.pr.heapSorts[name] = srt
		vc.heapWF(name, t, true)
	}
	vc.st.heap[name] = t
	return t
}

// heapGetIn reads a heap variable in some other state.
func (vc *VC) heapGetIn(st *State, name, srt string) string {
	if t, ok := st.heap[name]; ok {
		return t
	}
	save := vc.st
	vc.st = st
	t := vc.heapGet(name, srt)
	vc.st = save
	return t
}

func (vc *VC) heapSet(name, srt, t string) {
	vc.heapGet(name, srt) // make sure that it exists at entry
	vc.st.heap[name] = vc.name(name, srt, t)
}

func (vc *VC) alloc() string { return vc.heapGet("alloc", "Int") }

// heapWF adds the type invariants of a new version of a heap variable.
func (vc *VC) heapWF(name, t string, entry bool) {
	typ := vc.pr.heapTypes[name]
	if typ == nil {
		return
	}
	al := "alloc!0"
	add := vc.fact
	if !entry {
		al = vc.alloc()
	} else {
		vc.u.konst("alloc!0", "Int")
		if _, ok := vc.entry.heap["alloc"]; !ok {
			vc.entry.heap["alloc"] = "alloc!0"
			vc.pr.heapSorts["alloc"] = "Int"
		}
		add = func(s string) {
			vc.rootFact(s)
		}
	}
	switch {
	case strings.HasPrefix(name, "H."), name == "C.Time":
		if vc.spec != nil && vc.spec.zeroed && name != "C.Time" {
			// what is not an object of that type, or not yet, has zero fields
			add(fmt.Sprintf("(forall ((o Int)) (! (=> (>= o %s) (= (select %s o) %s)) :pattern ((select %s o))))", al, t, vc.u.zero(typ), t))
		}
		w := vc.wfTerm(typ, app("select", t, "o"), al)
		if w != "true" {
			g := app("<", "o", al)
			if name == "C.Time" {
				g = tAnd(g, app("<", "(- o)", al))
			}
			add(fmt.Sprintf("(forall ((o Int)) (! %s :pattern ((select %s o))))", tImp(g, w), t))
		}
	case strings.HasPrefix(name, "E."):
		at := vc.u.at(typ)
		w := vc.wfTerm(typ, app(at, t, "a", "o", "i"), al)
		if w != "true" {
			add(fmt.Sprintf("(forall ((a Int) (o Int) (i Int)) (! %s :pattern ((%s %s a o i))))", tImp(app("<", "a", al), w), at, t))
		}
	case strings.HasPrefix(name, "MV."):
		m := typ.Underlying().(*types.Map)
		w := vc.wfTerm(m.Elem(), fmt.Sprintf("(select (select %s o) k)", t), al)
		if w != "true" {
			add(fmt.Sprintf("(forall ((o Int) (k %s)) (! %s :pattern ((select (select %s o) k))))", vc.u.sortOf(m.Key()), tImp(app("<", "o", al), w), t))
		}
	case strings.HasPrefix(name, "MD."):
		m := typ.Underlying().(*types.Map)
		add(fmt.Sprintf("(forall ((k %s)) (! (not (select (select %s 0) k)) :pattern ((select (select %s 0) k))))", vc.u.sortOf(m.Key()), t, t))
		w := vc.wfTerm(m.Key(), "k", al)
		if w != "true" {
			add(fmt.Sprintf("(forall ((o Int) (k %s)) (! (=> (and (< o %s) (select (select %s o) k)) %s) :pattern ((select (select %s o) k))))", vc.u.sortOf(m.Key()), al, t, w, t))
		}
	case strings.HasPrefix(name, "G."):
		add(vc.wfTerm(typ, t, al))
		if name == "G.io.EOF" { // it is an error
			add(tNot(tEq(app("itag", t), "0")))
		}
	}
}

// rootFact adds a fact about the initial state.
func (vc *VC) rootFact(s string) {
	if s == "true" || vc.rootSeen[s] {
		return
	}
	vc.rootSeen[s] = true
	vc.rootFacts = append(vc.rootFacts, s)
}

// wfTerm is what the type system guarantees about a value.
func (vc *VC) wfTerm(t types.Type, v, alloc string) string {
	t = types.Unalias(t)
	if isTime(t) {
		return "true"
	}
	switch x := t.Underlying().(type) {
	case *types.Pointer:
		if isTime(x.Elem()) {
			return tAnd(app("<", v, alloc), app("<", app("-", v), alloc))
		}
		return tAnd(app("<=", "0", v), app("<", v, alloc))
	case *types.Map:
		return tAnd(app("<=", "0", v), app("<", v, alloc))
	case *types.Slice:
		return tAnd(app("<=", "0", sLen(v)), app("<=", sLen(v), sCap(v)), app("<=", "0", sOff(v)),
			app("<=", "0", sArr(v)), app("<", sArr(v), alloc), tImp(tEq(sArr(v), "0"), tEq(sCap(v), "0")))
	case *types.Interface:
		return tAnd(app("<=", "0", app("itag", v)), tImp(tEq(app("itag", v), "0"), tEq(app("ival", v), "0")), app("<", app("ival", v), alloc))
	case *types.Struct:
		si := vc.u.structOf(t)
		var out []string
		for i := range si.fields {
			out = append(out, vc.wfTerm(si.types[i], vc.u.structSel(t, i, v), alloc))
		}
		return tAnd(out...)
	case *types.Basic:
		if vc.spec != nil && vc.spec.overflow {
			return rangeOf(x, v)
		}
		switch x.Kind() {
		case types.Uint8:
			return tAnd(app("<=", "0", v), app("<=", v, "255"))
		case types.Uint64, types.Uint, types.Uint32, types.Uint16:
			return rangeOf(x, v)
		}
	}
	return "true"
}

func rangeOf(x *types.Basic, v string) string {
	lo, hi := intRange(x)
	if lo == "" {
		return "true"
	}
	return tAnd(app("<=", lo, v), app("<=", v, hi))
}

func intRange(x *types.Basic) (string, string) {
	switch x.Kind() {
	case types.Int64, types.Int:
		return "(- 9223372036854775808)", "9223372036854775807"
	case types.Int32:
		return "(- 2147483648)", "2147483647"
	case types.Int16:
		return "(- 32768)", "32767"
	case types.Int8:
		return "(- 128)", "127"
	case types.Uint64, types.Uint, types.Uintptr:
		return "0", "18446744073709551615"
	case types.Uint32:
		return "0", "4294967295"
	case types.Uint16:
		return "0", "65535"
	case types.Uint8:
		return "0", "255"
	}
	return "", ""
}

// ---------------------------------------------------------------- memory

func (vc *VC) heapVar(name string, typ types.Type, srt string) string {
	if _, ok := vc.pr.heapTypes[name]; !ok {
		vc.pr.heapTypes[name] = typ
	}
	vc.pr.heapSorts[name] = srt
	return srt
}

// declared heap variables
func (vc *VC) hField(t types.Type, f string) (string, string, types.Type) {
	st := types.Unalias(t).Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == f {
			n := fieldName(t, f)
			ft := st.Field(i).Type()
			return n, vc.heapVar(n, ft, "(Array Int "+vc.u.sortOf(ft)+")"), ft
		}
	}
	vc.fail("no field %s in %s", f, t)
	return "", "", nil
}

func (vc *VC) hMem(elem types.Type) (string, string) {
	n := memName(elem)
	vc.u.at(elem)
	return n, vc.heapVar(n, elem, vc.u.memSort(elem))
}

func (vc *VC) hTime() (string, string) {
	return "C.Time", vc.heapVar("C.Time", vc.pr.timeType, "(Array Int Time)")
}

func (vc *VC) hMap(t types.Type) (dn, ds, vn, vs string) {
	m := types.Unalias(t).Underlying().(*types.Map)
	n := tname(m)
	dn, vn = "MD."+n, "MV."+n
	ds = vc.heapVar(dn, m, fmt.Sprintf("(Array Int (Array %s Bool))", vc.u.sortOf(m.Key())))
	vs = vc.heapVar(vn, m, fmt.Sprintf("(Array Int (Array %s %s))", vc.u.sortOf(m.Key()), vc.u.sortOf(m.Elem())))
	return
}

// isTimeField tells about the fields whose address is taken: they live in C.Time
func isTimeField(t types.Type, f string) bool {
	return isNamed(t, "github.com/cespedes/accounting", "Transaction") && f == "Time"
}

func (vc *VC) project(base string, typ types.Type, path []int) (string, types.Type) {
	for _, i := range path {
		st := types.Unalias(typ).Underlying().(*types.Struct)
		base = vc.u.structSel(typ, i, base)
		typ = st.Field(i).Type()
	}
	return base, typ
}

func (vc *VC) update(base string, typ types.Type, path []int, nv string) string {
	if len(path) == 0 {
		return nv
	}
	st := types.Unalias(typ).Underlying().(*types.Struct)
	old := vc.u.structSel(typ, path[0], base)
	return vc.u.structUpd(typ, path[0], base, vc.update(old, st.Field(path[0]).Type(), path[1:], nv))
}

func (vc *VC) loadLV(l *LV) Val {
	var base string
	switch l.kind {
	case "cell":
		v, ok := vc.st.cells[l.cell]
		if !ok {
			vc.fail("read of unknown cell %s", l.cell.key)
		}
		if len(l.path) == 0 {
			return v
		}
		base = v.t
	case "glob":
		base = vc.heapGet(l.heap, vc.pr.heapSorts[l.heap])
	case "field":
		base = tSel(vc.heapGet(l.heap, vc.heapSort(l.heap)), l.ref)
	case "time":
		n, s := vc.hTime()
		base = tSel(vc.heapGet(n, s), l.ref)
	case "elem":
		base = app(vc.u.at(l.typ), vc.heapGet(l.heap, vc.heapSort(l.heap)), l.ref, l.off, l.idx)
	}
	t, typ := vc.project(base, l.typ, l.path)
	if l.kind != "cell" && vc.pure == 0 {
		if w := vc.wfTerm(typ, t, vc.alloc()); w != "true" {
			vc.fact(w)
		}
	}
	return Val{t: t, typ: typ}
}

func (vc *VC) heapSort(n string) string {
	s, ok := vc.pr.heapSorts[n]
	if !ok {
		vc.fail("unknown heap variable %s", n)
	}
	return s
}

func (vc *VC) storeLV(l *LV, v Val) {
	switch l.kind {
	case "cell":
		if len(l.path) == 0 {
			if v.lv == nil && v.fn == nil && v.it == nil {
				v.t = vc.name("v."+cellBase(l.cell), vc.u.sortOf(l.cell.typ), v.t)
			}
			v.typ = l.cell.typ
			vc.st.cells[l.cell] = v
			return
		}
		old := vc.st.cells[l.cell]
		nv := vc.update(old.t, l.typ, l.path, v.t)
		vc.st.cells[l.cell] = Val{t: vc.name("v."+cellBase(l.cell), vc.u.sortOf(l.cell.typ), nv), typ: l.cell.typ}
	case "glob":
		old := vc.heapGet(l.heap, vc.pr.heapSorts[l.heap])
		vc.heapSet(l.heap, vc.pr.heapSorts[l.heap], vc.update(old, l.typ, l.path, v.t))
	case "field":
		srt := vc.heapSort(l.heap)
		h := vc.heapGet(l.heap, srt)
		old := tSel(h, l.ref)
		vc.heapSet(l.heap, srt, tSto(h, l.ref, vc.update(old, l.typ, l.path, v.t)))
	case "time":
		n, s := vc.hTime()
		h := vc.heapGet(n, s)
		vc.heapSet(n, s, tSto(h, l.ref, v.t))
	case "elem":
		srt := vc.heapSort(l.heap)
		h := vc.heapGet(l.heap, srt)
		at := vc.u.at(l.typ)
		nv := vc.update(app(at, h, l.ref, l.off, l.idx), l.typ, l.path, v.t)
		vc.elemStore(l.heap, srt, at, l.ref, l.off, l.idx, nv)
	}
}

// elemStore writes one element of an array.
func (vc *VC) elemStore(heap, srt, at, arr, off, idx, nv string) {
	h := vc.heapGet(heap, srt)
	h2 := vc.fresh(heap, srt)
	vc.fact(fmt.Sprintf("(= (%s %s %s %s %s) %s)", at, h2, arr, off, idx, nv))
	pos := tAdd(off, idx)
	cond := fmt.Sprintf("(and (= a %s) (= (+ o i) %s))", arr, pos)
	vc.fact(fmt.Sprintf("(forall ((a Int) (o Int) (i Int)) (! (= (%s %s a o i) (ite %s %s (%s %s a o i))) :pattern ((%s %s a o i))))", at, h2, cond, nv, at, h, at, h2))
	vc.fact(fmt.Sprintf("(= %s (store %s %s (store (select %s %s) %s %s)))", h2, h, arr, h, arr, pos, nv))
	vc.st.heap[heap] = h2
}

func cellBase(c *Cell) string {
	i := strings.LastIndexByte(c.key, '/')
	return sanitize(c.key[i+1:])
}

// newRef allocates a reference.
func (vc *VC) newRef(base string) string {
	a := vc.alloc()
	r := vc.fresh(base, "Int")
	vc.fact(tAnd(app(">=", r, a), app(">", r, "0")))
	n := vc.fresh("alloc", "Int")
	vc.fact(app("=", n, tAdd(r, "1")))
	vc.st.heap["alloc"] = n
	return r
}

// newObject allocates a zeroed object.
func (vc *VC) newObject(t types.Type, base string) string {
	r := vc.newRef(base)
	if isTime(t) {
		n, s := vc.hTime()
		vc.heapSet(n, s, tSto(vc.heapGet(n, s), r, zeroTime))
		return r
	}
	vc.storeObject(t, r, vc.u.zeroFields(t))
	return r
}

func (u *Univ) zeroFields(t types.Type) map[string]string {
	st := types.Unalias(t).Underlying().(*types.Struct)
	m := map[string]string{}
	for i := 0; i < st.NumFields(); i++ {
		m[st.Field(i).Name()] = u.zero(st.Field(i).Type())
	}
	return m
}

func (vc *VC) skipField(t types.Type, f string) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	_, repo := shortPkg[n.Obj().Pkg().Path()]
	return !repo
}

func (vc *VC) storeObject(t types.Type, ref string, fs map[string]string) {
	st := types.Unalias(t).Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i).Name()
		if vc.skipField(t, f) {
			continue
		}
		if isTimeField(t, f) {
			n, s := vc.hTime()
			vc.heapSet(n, s, tSto(vc.heapGet(n, s), app("-", ref), fs[f]))
			continue
		}
		n, s, _ := vc.hField(t, f)
		vc.heapSet(n, s, tSto(vc.heapGet(n, s), ref, fs[f]))
	}
}

func (vc *VC) loadObject(t types.Type, ref string) string {
	st := types.Unalias(t).Underlying().(*types.Struct)
	var fs []string
	for i := 0; i < st.NumFields(); i++ {
		fs = append(fs, vc.readField(t, st.Field(i).Name(), ref))
	}
	return vc.u.mkStruct(t, fs)
}

func (vc *VC) readField(t types.Type, f, ref string) string {
	if isTimeField(t, f) {
		n, s := vc.hTime()
		return tSel(vc.heapGet(n, s), app("-", ref))
	}
	n, s, _ := vc.hField(t, f)
	return tSel(vc.heapGet(n, s), ref)
}

// fieldLV is the place of a field of an object.
func (vc *VC) fieldLV(t types.Type, f, ref string) *LV {
	if isTimeField(t, f) {
		return &LV{kind: "time", ref: app("-", ref), typ: vc.pr.timeType, ptyp: vc.pr.timeType}
	}
	n, _, ft := vc.hField(t, f)
	return &LV{kind: "field", heap: n, ref: ref, typ: ft, ptyp: ft}
}

// lvOf turns a pointer in a place.
func (vc *VC) lvOf(p Val) *LV {
	if p.lv != nil {
		return p.lv
	}
	pt, ok := types.Unalias(p.typ).Underlying().(*types.Pointer)
	if !ok {
		vc.fail("not a pointer: %v", p.typ)
	}
	if isTime(pt.Elem()) {
		return &LV{kind: "time", ref: p.t, typ: vc.pr.timeType, ptyp: vc.pr.timeType}
	}
	vc.fail("pointer to %v is not a place", pt.Elem())
	return nil
}

func (vc *VC) nilCheck(p Val, pos token.Pos, what string) {
	if p.lv != nil || p.t == "" {
		return
	}
	vc.oblig("safety", "nil-deref:"+what, tNot(tEq(p.t, "0")), pos, nil)
}

func (vc *VC) deref(p Val, pos token.Pos) Val {
	pt := types.Unalias(p.typ).Underlying().(*types.Pointer)
	if p.arr != nil {
		vc.fail("load of whole array")
	}
	if p.lv == nil && isObj(pt.Elem()) {
		vc.nilCheck(p, pos, "*"+tname(pt.Elem()))
		return Val{t: vc.loadObject(pt.Elem(), p.t), typ: pt.Elem()}
	}
	if p.lv == nil {
		vc.nilCheck(p, pos, "*"+tname(pt.Elem()))
	}
	return vc.loadLV(vc.lvOf(p))
}

func (vc *VC) storePtr(p, v Val, pos token.Pos) {
	pt := types.Unalias(p.typ).Underlying().(*types.Pointer)
	if p.lv == nil && isObj(pt.Elem()) {
		vc.nilCheck(p, pos, "*"+tname(pt.Elem()))
		st := types.Unalias(pt.Elem()).Underlying().(*types.Struct)
		m := map[string]string{}
		for i := 0; i < st.NumFields(); i++ {
			m[st.Field(i).Name()] = vc.u.structSel(pt.Elem(), i, v.t)
		}
		vc.storeObject(pt.Elem(), p.t, m)
		return
	}
	if p.lv == nil {
		vc.nilCheck(p, pos, "*"+tname(pt.Elem()))
	}
	vc.storeLV(vc.lvOf(p), v)
}

// ---------------------------------------------------------------- slices

// appendSlices implements append(s, x...): returns the new slice.
func (vc *VC) appendSlices(elem types.Type, s, x string) string {
	heap, srt := vc.hMem(elem)
	at := vc.u.at(elem)
	h := vc.heapGet(heap, srt)
	n := sLen(x)
	a0 := vc.alloc()
	r := vc.fresh("app", "Slice")
	total := tAdd(sLen(s), n)
	fits := app("<=", total, sCap(s))
	vc.fact(tEq(sLen(r), total))
	vc.fact(tImp(fits, tAnd(tEq(sArr(r), sArr(s)), tEq(sOff(r), sOff(s)), tEq(sCap(r), sCap(s)))))
	vc.fact(tImp(tNot(fits), tAnd(app(">=", sArr(r), a0), app(">", sArr(r), "0"), tEq(sOff(r), "0"), app(">=", sCap(r), total))))
	na := vc.fresh("alloc", "Int")
	vc.fact(tEq(na, tIte(fits, a0, tAdd(sArr(r), "1"))))
	vc.st.heap["alloc"] = na
	h2 := vc.fresh(heap, srt)
	// contents of the result
	if k := litLen(n); k >= 0 && k <= 4 {
		for i := 0; i < k; i++ {
			vc.fact(tEq(app(at, h2, sArr(r), sOff(r), tAdd(sLen(s), fmt.Sprint(i))), app(at, h, sArr(x), sOff(x), fmt.Sprint(i))))
		}
	} else {
		vc.fact(fmt.Sprintf("(forall ((i Int)) (! (=> (and (<= %s i) (< i %s)) (= (%s %s %s %s i) (%s %s %s %s (- i %s)))) :pattern ((%s %s %s %s i))))",
			sLen(s), total, at, h2, sArr(r), sOff(r), at, h, sArr(x), sOff(x), sLen(s), at, h2, sArr(r), sOff(r)))
		vc.fact(fmt.Sprintf("(forall ((i Int)) (! (=> (and (<= 0 i) (< i %s)) (= (%s %s %s %s (+ i %s)) (%s %s %s %s i))) :pattern ((%s %s %s %s i))))",
			n, at, h2, sArr(r), sOff(r), sLen(s), at, h, sArr(x), sOff(x), at, h, sArr(x), sOff(x)))
	}
	back := ""
	if vc.spec != nil && vc.spec.zeroed {
		back = fmt.Sprintf(" :pattern ((%s %s %s %s i))", at, h, sArr(s), sOff(s))
	}
	vc.fact(fmt.Sprintf("(forall ((i Int)) (! (=> (and (<= 0 i) (< i %s)) (= (%s %s %s %s i) (%s %s %s %s i))) :pattern ((%s %s %s %s i))%s))",
		sLen(s), at, h2, sArr(r), sOff(r), at, h, sArr(s), sOff(s), at, h2, sArr(r), sOff(r), back))
	// everything else is kept
	lo := tAdd(sOff(r), sLen(s))
	hi := tAdd(sOff(r), total)
	vc.fact(fmt.Sprintf("(forall ((a Int) (o Int) (i Int)) (! (=> (or (not (= a %s)) (and %s (or (< (+ o i) %s) (>= (+ o i) %s)))) (= (%s %s a o i) (%s %s a o i))) :pattern ((%s %s a o i))))",
		sArr(r), fits, lo, hi, at, h2, at, h, at, h2))
	vc.st.heap[heap] = h2
	return r
}

func litLen(s string) int {
	if isNum(s) {
		n := 0
		fmt.Sscan(s, &n)
		return n
	}
	return -1
}

func (vc *VC) makeSlice(elem types.Type, l, c string) string {
	heap, srt := vc.hMem(elem)
	at := vc.u.at(elem)
	arr := vc.newRef("arr")
	h := vc.heapGet(heap, srt)
	h2 := vc.fresh(heap, srt)
	vc.fact(fmt.Sprintf("(forall ((a Int) (o Int) (i Int)) (! (= (%s %s a o i) (ite (= a %s) %s (%s %s a o i))) :pattern ((%s %s a o i))))",
		at, h2, arr, vc.u.zero(elem), at, h, at, h2))
	vc.st.heap[heap] = h2
	return mkS(arr, "0", l, c)
}

// ---------------------------------------------------------------- joins

func (vc *VC) join(edges []Edge) {
	n := vc.newNode(edges)
	if len(edges) == 1 {
		vc.cur = n
		vc.st = edges[0].st.clone()
		return
	}
	st := &State{cells: map[*Cell]Val{}, heap: map[string]string{}}
	vc.cur = n
	// heap
	names := map[string]bool{}
	for _, e := range edges {
		for k := range e.st.heap {
			names[k] = true
		}
	}
	for _, k := range sortedKeys(names) {
		var ts []string
		same := true
		for _, e := range edges {
			t := vc.heapGetIn(e.st, k, vc.heapSort(k))
			ts = append(ts, t)
			if t != ts[0] {
				same = false
			}
		}
		if same {
			st.heap[k] = ts[0]
			continue
		}
		f := vc.fresh(k, vc.heapSort(k))
		for i, e := range edges {
			vc.fact(tImp(tAnd(e.node.reach, e.cond), tEq(f, ts[i])))
		}
		st.heap[k] = f
	}
	var cells []*Cell
	for c := range edges[0].st.cells {
		cells = append(cells, c)
	}
	sort.Slice(cells, func(i, j int) bool { return cells[i].key < cells[j].key })
	for _, c := range cells {
		v0 := edges[0].st.cells[c]
		same, all := true, true
		for _, e := range edges[1:] {
			v, ok := e.st.cells[c]
			if !ok {
				all = false
				break
			}
			if !v.same(v0) {
				same = false
			}
		}
		if !all {
			continue
		}
		if same {
			st.cells[c] = v0
			continue
		}
		bad := false
		for _, e := range edges {
			v := e.st.cells[c]
			if v.lv != nil || v.fn != nil || v.it != nil {
				bad = true
			}
		}
		if bad {
			continue // unusable from now on
		}
		f := vc.fresh("v."+cellBase(c), vc.u.sortOf(c.typ))
		for i, e := range edges {
			_ = i
			vc.fact(tImp(tAnd(e.node.reach, e.cond), tEq(f, e.st.cells[c].t)))
		}
		st.cells[c] = Val{t: f, typ: c.typ}
	}
	vc.st = st
}

// ---------------------------------------------------------------- functions

type fnInfo struct {
	rpo     []*ssa.BasicBlock
	order   map[*ssa.BasicBlock]int
	loops   []*Loop // in source order
	header  map[*ssa.BasicBlock]*Loop
	escapes map[*ssa.Alloc]bool
	byNum   map[int]*Loop
	body    *ast.BlockStmt
}

type Loop struct {
	n      int
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
	rng    ssa.Value // ranged slice/string/map, if any
	rcell  *ssa.Alloc
	rnext  *ssa.Range
	pos    token.Pos
	scope  token.Pos
	end    token.Pos // of the body: where its variables are known
}

func analyse(fn *ssa.Function) *fnInfo {
	info := &fnInfo{order: map[*ssa.BasicBlock]int{}, header: map[*ssa.BasicBlock]*Loop{}, escapes: map[*ssa.Alloc]bool{}}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		info.order[post[i]] = len(info.rpo)
		info.rpo = append(info.rpo, post[i])
	}
	for _, b := range info.rpo {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := info.header[s]
				if l == nil {
					l = &Loop{header: s, body: map[*ssa.BasicBlock]bool{s: true}}
					info.header[s] = l
					info.loops = append(info.loops, l)
				}
				var up func(x *ssa.BasicBlock)
				up = func(x *ssa.BasicBlock) {
					if l.body[x] {
						return
					}
					l.body[x] = true
					for _, p := range x.Preds {
						up(p)
					}
				}
				up(b)
			}
		}
	}
	for _, l := range info.loops {
		l.pos = token.Pos(0)
		for b := range l.body {
			for _, in := range b.Instrs {
				if p := in.Pos(); p.IsValid() && (l.pos == 0 || p < l.pos) {
					if _, ok := in.(*ssa.Alloc); ok {
						continue
					}
					l.pos = p
				}
			}
		}
		for _, in := range l.header.Instrs {
			switch x := in.(type) {
			case *ssa.Next:
				if r, ok := x.Iter.(*ssa.Range); ok {
					l.rng = r.X
					l.rnext = r
				}
			case *ssa.Store:
				if a, ok := x.Addr.(*ssa.Alloc); ok && a.Comment == "rangeindex" {
					l.rcell = a
				}
			case *ssa.BinOp:
				if l.rcell != nil && x.Op == token.LSS {
					if c, ok := x.Y.(*ssa.Call); ok {
						l.rng = c.Call.Args[0]
					}
				}
			}
		}
	}
	sort.SliceStable(info.loops, func(i, j int) bool {
		a, b := info.loops[i], info.loops[j]
		if a.pos != b.pos {
			return a.pos < b.pos
		}
		return len(a.body) > len(b.body)
	})
	for i, l := range info.loops {
		l.n = i
	}
	// allocations whose address goes somewhere
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			a, ok := in.(*ssa.Alloc)
			if !ok {
				continue
			}
			el := a.Type().Underlying().(*types.Pointer).Elem()
			if !refPtr(el) {
				continue
			}
			for _, r := range *a.Referrers() {
				switch x := r.(type) {
				case *ssa.Store:
					if x.Val == ssa.Value(a) {
						info.escapes[a] = true
					}
				case *ssa.UnOp, *ssa.DebugRef:
				case *ssa.FieldAddr:
					if refPtr(x.Type().Underlying().(*types.Pointer).Elem()) {
						for _, rr := range *x.Referrers() {
							if _, ok := rr.(*ssa.UnOp); !ok {
								if s, ok := rr.(*ssa.Store); !ok || s.Val == ssa.Value(x) {
									info.escapes[a] = true
								}
							}
						}
					}
				case *ssa.MakeClosure:
					// captured: still a cell
				default:
					info.escapes[a] = true
				}
			}
		}
	}
	return info
}

func (vc *VC) newFrame(fn *ssa.Function, path string) *Frame {
	return &Frame{fn: fn, env: map[ssa.Value]Val{}, path: path, info: vc.pr.analyse(fn), loopEntry: map[int]*State{}, loopStart: map[int]*State{}, afterCall: map[string]*State{}, loopVar: map[int][]string{}, callN: map[string]int{}, param: map[string]Val{}}
}

func (vc *VC) cellFor(key string, t types.Type) *Cell {
	c := vc.cells[key]
	if c == nil {
		c = &Cell{key: key, typ: t}
		vc.cells[key] = c
	}
	return c
}

type region struct {
	blocks map[*ssa.BasicBlock]bool // nil: all
	header *ssa.BasicBlock          // loop header which is being analysed
	back   []Edge                   // edges to that header
}

// execFrom executes the blocks of a region, starting at a block with the current state.
func (vc *VC) execFrom(fr *Frame, start *ssa.BasicBlock, reg *region) {
	in := map[*ssa.BasicBlock][]Edge{}
	first := true
	for _, b := range fr.info.rpo[fr.info.order[start]:] {
		if reg.blocks != nil && !reg.blocks[b] {
			continue
		}
		if first {
			first = false
		} else {
			edges := in[b]
			if len(edges) == 0 {
				continue
			}
			vc.join(edges)
			vc.phis(fr, b, edges)
			if l := fr.info.header[b]; l != nil {
				vc.loopHead(fr, l)
			}
		}
		vc.execBlock(fr, b, reg, in)
	}
}

func (vc *VC) phis(fr *Frame, b *ssa.BasicBlock, edges []Edge) {
	for _, ins := range b.Instrs {
		phi, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		var vals []Val
		for _, e := range edges {
			for i, p := range b.Preds {
				if p == e.from {
					vals = append(vals, vc.value(fr, phi.Edges[i]))
					break
				}
			}
		}
		same := true
		for _, v := range vals {
			if !v.same(vals[0]) {
				same = false
			}
		}
		if same {
			fr.env[phi] = vals[0]
			continue
		}
		if vc.pure > 0 {
			t := vals[len(vals)-1].t
			for i := len(vals) - 2; i >= 0; i-- {
				t = tIte(tAnd(edges[i].node.reach, edges[i].cond), vals[i].t, t)
			}
			fr.env[phi] = Val{t: t, typ: phi.Type()}
			continue
		}
		f := vc.fresh("phi", vc.u.sortOf(phi.Type()))
		for i, e := range edges {
			vc.fact(tImp(tAnd(e.node.reach, e.cond), tEq(f, vals[i].t)))
		}
		fr.env[phi] = Val{t: f, typ: phi.Type()}
	}
}

func (vc *VC) execBlock(fr *Frame, b *ssa.BasicBlock, reg *region, in map[*ssa.BasicBlock][]Edge) {
	fr.curBlock = b
	for _, ins := range b.Instrs {
		if p := ins.Pos(); p.IsValid() {
			fr.pos = p
		}
		switch x := ins.(type) {
		case *ssa.If:
			c := vc.value(fr, x.Cond).t
			vc.jump(fr, b, b.Succs[0], c, reg, in)
			vc.jump(fr, b, b.Succs[1], tNot(c), reg, in)
			return
		case *ssa.Jump:
			vc.jump(fr, b, b.Succs[0], "true", reg, in)
			return
		case *ssa.Return:
			var res []Val
			for _, r := range x.Results {
				v := vc.value(fr, r)
				res = append(res, v)
			}
			fr.onReturn(vc.st, res, b)
			return
		case *ssa.Panic:
			vc.doPanic(fr, x.Pos(), "panic")
			return
		default:
			vc.instr(fr, ins)
		}
	}
}

func (vc *VC) doPanic(fr *Frame, pos token.Pos, what string) {
	goal := "false"
	if vc.spec != nil && vc.spec.panics != nil {
		env := vc.specEnv(vc.topFrame)
		env.st = vc.entry
		goal = env.boolExpr(vc.spec.panics)
	}
	vc.oblig("safety", "unreachable:"+what, goal, pos, nil)
	if vc.spec != nil && len(vc.spec.onpanic) > 0 && vc.dry == 0 {
		for f := fr; f != nil; f = f.parent {
			vc.runDefers(f, f.curBlock)
		}
		env := vc.specEnv(vc.topFrame)
		env.st = vc.st
		for i, c := range vc.spec.onpanic {
			vc.oblig("ensures", fmt.Sprintf("when it panics: %s", clauseName(c, i)), env.boolExpr(c.e), pos, c.props)
		}
	}
}

func (vc *VC) jump(fr *Frame, from, to *ssa.BasicBlock, cond string, reg *region, in map[*ssa.BasicBlock][]Edge) {
	if vc.cur.reach == "false" || cond == "false" {
		return
	}
	e := Edge{node: vc.cur, cond: cond, st: vc.st.clone(), from: from}
	if to.Dominates(from) { // back edge
		if reg.header == to {
			reg.back = append(reg.back, e)
			return
		}
		if vc.dry > 0 {
			return
		}
		l := fr.info.header[to]
		save, saveSt := vc.cur, vc.st
		vc.cur = vc.newNode([]Edge{e})
		vc.st = e.st.clone()
		vc.phis(fr, to, []Edge{e})
		vc.loopBack(fr, l)
		vc.cur, vc.st = save, saveSt
		return
	}
	if reg.blocks != nil && !reg.blocks[to] {
		return
	}
	in[to] = append(in[to], e)
}

// loopHead: the state is the one before the loop.
func (vc *VC) loopHead(fr *Frame, l *Loop) {
	entry := vc.st.clone()
	fr.loopEntry[l.n] = entry
	key := fr.path + "#" + fmt.Sprint(l.header.Index)
	// which variables are modified in the loop?
	mods := vc.mods[key]
	if mods == nil {
		mods = map[string]bool{}
	}
	for round := 0; ; round++ {
		if round > 20 {
			vc.fail("no fixpoint for the modified variables of a loop")
		}
		sf, so, sc, ss := len(vc.facts), len(vc.obls), vc.cur, vc.st
		vc.st = entry.clone()
		vc.dry++
		saveEnv := make(map[ssa.Value]Val, len(fr.env))
		for k, v := range fr.env {
			saveEnv[k] = v
		}
		saveCall := fr.callN
		fr.callN = map[string]int{}
		saveRet := fr.onReturn
		fr.onReturn = func(*State, []Val, *ssa.BasicBlock) {}
		saveDefers := fr.defers
		vc.havoc(mods, entry)
		vc.cur = vc.newNode([]Edge{{node: vc.cur, cond: "true"}})
		head := vc.st.clone()
		reg := &region{blocks: l.body, header: l.header}
		vc.execFrom(fr, l.header, reg)
		vc.dry--
		fr.onReturn = saveRet
		fr.callN = saveCall
		fr.env = saveEnv
		fr.defers = saveDefers
		grown := false
		for _, e := range reg.back {
			for c, v := range head.cells {
				w, ok := e.st.cells[c]
				if (!ok || !w.same(v)) && !mods["c:"+c.key] {
					mods["c:"+c.key] = true
					grown = true
				}
			}
			for h, t := range e.st.heap {
				ht, ok := head.heap[h]
				if !ok {
					ht = vc.entry.heap[h]
				}
				if ht != t && !mods["h:"+h] {
					mods["h:"+h] = true
					grown = true
				}
			}
		}
		vc.facts, vc.obls, vc.cur, vc.st = vc.facts[:sf], vc.obls[:so], sc, ss
		if !grown {
			break
		}
	}
	vc.mods[key] = mods
	// invariants hold at the beginning
	vc.st = entry.clone()
	if vc.dry == 0 {
		vc.checkInvs(fr, l, "init")
	}
	base := entry.clone()
	vc.st = base
	vc.havoc(mods, entry)
	pre := vc.cur
	vc.cur = vc.newNode([]Edge{{node: pre, cond: "true"}})
	vc.cur.head = true
	if mods["h:alloc"] {
		vc.fact(app(">=", vc.st.heap["alloc"], entry.heap["alloc"]))
		if a0 := vc.entry.heap["alloc"]; a0 != "" {
			vc.fact(app(">=", vc.st.heap["alloc"], a0))
		}
	}
	// rangeindex is always in its range
	vc.autoInv(fr, l)
	fr.loopStart[l.n] = vc.st.clone()
	if vc.dry == 0 {
		vc.assumeInvs(fr, l)
	}
}

func (vc *VC) havoc(mods map[string]bool, entry *State) {
	for _, k := range sortedKeys(mods) {
		if k == "h:alloc" {
			vc.st.heap["alloc"] = vc.fresh("alloc", "Int")
		}
	}
	for _, k := range sortedKeys(mods) {
		n := k[2:]
		if k[0] == 'h' {
			if n == "alloc" {
				continue
			}
			vc.heapGet(n, vc.heapSort(n))
			t := vc.fresh(n, vc.heapSort(n))
			vc.st.heap[n] = t
			vc.heapWF(n, t, false)
			continue
		}
		c := vc.cells[n]
		if _, ok := vc.st.cells[c]; !ok {
			continue
		}
		old := vc.st.cells[c]
		if old.lv != nil || old.fn != nil || old.it != nil {
			delete(vc.st.cells, c)
			continue
		}
		t := vc.fresh("v."+cellBase(c), vc.sortOfCell(c))
		vc.st.cells[c] = Val{t: t, typ: c.typ}
		if c.typ != nil {
			vc.fact(vc.wfTerm(c.typ, t, vc.alloc()))
		}
	}
}

func (vc *VC) sortOfCell(c *Cell) string {
	if s, ok := vc.pr.cellSorts[c.key]; ok {
		return s
	}
	return vc.u.sortOf(c.typ)
}

// autoInv adds what the compiler guarantees about "range" loops.
func (vc *VC) autoInv(fr *Frame, l *Loop) {
	if l.rcell != nil && l.rng != nil {
		c := vc.cellFor(fr.path+"/"+l.rcell.Name()+":rangeindex", l.rcell.Type())
		i := vc.st.cells[c]
		n := vc.lenOf(vc.value(fr, l.rng))
		vc.fact(tAnd(app("<=", "(- 1)", i.t), tOr(app("<", i.t, n), tEq(i.t, "(- 1)"))))
	}
	if l.rnext != nil {
		v := fr.env[l.rnext]
		if v.it != nil && v.it.kind == "string" {
			p := vc.st.cells[v.it.cell].t
			vc.fact(tAnd(app("<=", "0", p), app("<=", p, app("slen.s", v.it.x.t))))
		}
		if v.it != nil && v.it.kind == "map" {
			m := types.Unalias(v.it.x.typ).Underlying().(*types.Map)
			vis := vc.st.cells[v.it.cell].t
			vc.fact(fmt.Sprintf("(forall ((k %s)) (! (=> (select %s k) (select %s k)) :pattern ((select %s k))))", vc.u.sortOf(m.Key()), vis, v.it.dom0, vis))
		}
	}
}

func (vc *VC) lenOf(v Val) string {
	switch types.Unalias(v.typ).Underlying().(type) {
	case *types.Slice:
		return sLen(v.t)
	case *types.Basic:
		return app("slen.s", v.t)
	case *types.Map:
		dn, ds, _, _ := vc.hMap(v.typ)
		d := tSel(vc.heapGet(dn, ds), v.t)
		f := "card." + tname(v.typ)
		m := types.Unalias(v.typ).Underlying().(*types.Map)
		ks := vc.u.sortOf(m.Key())
		vc.u.fun(f, "((Array "+ks+" Bool)) Int",
			Axiom{"card", fmt.Sprintf("(forall ((d (Array %s Bool))) (! (>= (%s d) 0) :pattern ((%s d))))", ks, f, f)},
			Axiom{"card0", fmt.Sprintf("(forall ((d (Array %s Bool)) (k %s)) (! (=> (= (%s d) 0) (not (select d k))) :pattern ((%s d) (select d k))))", ks, ks, f, f)})
		return app(f, d)
	}
	vc.fail("len of %v", v.typ)
	return ""
}

func (vc *VC) value(fr *Frame, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return Val{t: vc.u.zero(x.Type()), typ: x.Type()}
		}
		t, ok := vc.u.constTerm(x.Value, x.Type())
		if !ok {
			vc.fail("constant %v", x)
		}
		return Val{t: t, typ: x.Type()}
	case *ssa.Function:
		return Val{fn: &Clos{fn: x}, typ: x.Type(), t: "1"}
	case *ssa.Global:
		el := x.Type().Underlying().(*types.Pointer).Elem()
		if isObj(el) {
			n := "gref." + x.Name()
			vc.u.konst(n, "Int")
			vc.alloc()
			vc.rootFact(tAnd(app(">", n, "0"), app("<", n, "alloc!0")))
			return Val{t: n, typ: x.Type()}
		}
		n := "G." + sanitize(x.Pkg.Pkg.Name()) + "." + x.Name()
		vc.heapVar(n, el, vc.u.sortOf(el))
		vc.pr.heapSorts[n] = vc.u.sortOf(el)
		return Val{lv: &LV{kind: "glob", heap: n, typ: el, ptyp: el}, typ: x.Type()}
	case *ssa.Builtin:
		return Val{typ: x.Type()}
	}
	r, ok := fr.env[v]
	if !ok {
		vc.fail("value of %s (%s) unknown in %s", v.Name(), v, fr.fn)
	}
	return r
}

func (vc *VC) instr(fr *Frame, ins ssa.Instruction) {
	switch x := ins.(type) {
	case *ssa.DebugRef:
	case *ssa.Phi:
	case *ssa.Alloc:
		el := x.Type().Underlying().(*types.Pointer).Elem()
		if at, ok := el.Underlying().(*types.Array); ok {
			// backing array of a slice
			s := vc.makeSlice(at.Elem(), fmt.Sprint(at.Len()), fmt.Sprint(at.Len()))
			fr.env[x] = Val{t: sArr(s), typ: x.Type(), arr: at.Elem()}
			return
		}
		if refPtr(el) && fr.info.escapes[x] || isBigInt(el) {
			r := vc.newObject(el, "new."+tname(el))
			fr.env[x] = Val{t: r, typ: x.Type()}
			return
		}
		c := vc.cellFor(fr.path+"/"+x.Name()+":"+x.Comment, el)
		vc.st.cells[c] = Val{t: vc.u.zero(el), typ: el}
		fr.env[x] = Val{lv: &LV{kind: "cell", cell: c, typ: el, ptyp: el}, typ: x.Type()}
	case *ssa.Store:
		if g, ok := x.Addr.(*ssa.Global); ok {
			if g.Name() == "init$guard" {
				return
			}
			vc.guarded(g, true, x.Pos())
		}
		if printed(x.Addr) {
			return
		}
		p := vc.value(fr, x.Addr)
		v := vc.value(fr, x.Val)
		vc.storePtr(p, v, x.Pos())
	case *ssa.UnOp:
		fr.env[x] = vc.unop(fr, x)
	case *ssa.BinOp:
		a, b := vc.value(fr, x.X), vc.value(fr, x.Y)
		fr.env[x] = Val{t: vc.binop(x.Op, a, b, x.Type(), x.Pos()), typ: x.Type()}
	case *ssa.FieldAddr:
		p := vc.value(fr, x.X)
		st := x.X.Type().Underlying().(*types.Pointer).Elem()
		f := types.Unalias(st).Underlying().(*types.Struct).Field(x.Field)
		if p.lv != nil {
			l := *p.lv
			l.path = append(append([]int{}, l.path...), x.Field)
			l.ptyp = f.Type()
			fr.env[x] = Val{lv: &l, typ: x.Type()}
			return
		}
		vc.nilCheck(p, x.Pos(), tname(st)+"."+f.Name())
		if isTimeField(st, f.Name()) {
			fr.env[x] = Val{t: app("-", p.t), typ: x.Type()}
			return
		}
		if isObj(f.Type()) {
			// an object inside another one: reached only by its address
			if n := embedded(st); n != 1 {
				vc.fail("%d objects inside %s", n, tname(st))
			}
			fr.env[x] = Val{t: app("-", p.t), typ: x.Type()}
			return
		}
		fr.env[x] = Val{lv: vc.fieldLV(st, f.Name(), p.t), typ: x.Type()}
	case *ssa.Field:
		v := vc.value(fr, x.X)
		fr.env[x] = Val{t: vc.u.structSel(x.X.Type(), x.Field, v.t), typ: x.Type()}
	case *ssa.IndexAddr:
		b := vc.value(fr, x.X)
		i := vc.value(fr, x.Index)
		if b.arr != nil {
			n, _ := vc.hMem(b.arr)
			at := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
			vc.boundsCheck(i.t, fmt.Sprint(at.Len()), x.Pos())
			fr.env[x] = Val{lv: &LV{kind: "elem", heap: n, ref: b.t, off: "0", idx: i.t, typ: b.arr, ptyp: b.arr}, typ: x.Type()}
			return
		}
		sl, ok := types.Unalias(x.X.Type()).Underlying().(*types.Slice)
		if !ok {
			vc.fail("index of %v", x.X.Type())
		}
		vc.boundsCheck(i.t, sLen(b.t), x.Pos())
		n, _ := vc.hMem(sl.Elem())
		fr.env[x] = Val{lv: &LV{kind: "elem", heap: n, ref: sArr(b.t), off: sOff(b.t), idx: i.t, typ: sl.Elem(), ptyp: sl.Elem()}, typ: x.Type()}
	case *ssa.Index:
		b := vc.value(fr, x.X)
		i := vc.value(fr, x.Index)
		if bt, ok := types.Unalias(x.X.Type()).Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
			vc.boundsCheck(i.t, app("slen.s", b.t), x.Pos())
			fr.env[x] = Val{t: app("sat", b.t, i.t), typ: x.Type()}
			return
		}
		vc.fail("index of %v", x.X.Type())
	case *ssa.Lookup:
		if u, ok := x.X.(*ssa.UnOp); ok {
			if g, ok := u.X.(*ssa.Global); ok {
				vc.guarded(g, false, x.Pos())
			}
		}
		b := vc.value(fr, x.X)
		i := vc.value(fr, x.Index)
		if bt, ok := types.Unalias(x.X.Type()).Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
			vc.boundsCheck(i.t, app("slen.s", b.t), x.Pos())
			fr.env[x] = Val{t: app("sat", b.t, i.t), typ: x.Type()}
			return
		}
		m := types.Unalias(x.X.Type()).Underlying().(*types.Map)
		dn, ds, vn, vs := vc.hMap(m)
		dom := tSel(tSel(vc.heapGet(dn, ds), b.t), i.t)
		raw := tSel(tSel(vc.heapGet(vn, vs), b.t), i.t)
		val := tIte(dom, raw, vc.u.zero(m.Elem()))
		val = vc.name("mapval", vc.u.sortOf(m.Elem()), val)
		if vc.pure == 0 {
			vc.fact(vc.wfTerm(m.Elem(), val, vc.alloc()))
		}
		if fn, ok := vc.pr.mapFuncs[tname(m)]; ok && fn != nil {
			_ = fn
		}
		v := Val{t: val, typ: m.Elem()}
		if x.CommaOk {
			fr.env[x] = Val{tup: []Val{v, {t: dom, typ: types.Typ[types.Bool]}}, typ: x.Type()}
		} else {
			fr.env[x] = v
		}
	case *ssa.MapUpdate:
		if u, ok := x.Map.(*ssa.UnOp); ok {
			if g, ok := u.X.(*ssa.Global); ok {
				vc.guarded(g, true, x.Pos())
			}
		}
		b := vc.value(fr, x.Map)
		k := vc.value(fr, x.Key)
		v := vc.value(fr, x.Value)
		vc.oblig("safety", "nil-map-write", tNot(tEq(b.t, "0")), x.Pos(), nil)
		dn, ds, vn, vs := vc.hMap(x.Map.Type())
		d, vv := vc.heapGet(dn, ds), vc.heapGet(vn, vs)
		vc.heapSet(dn, ds, tSto(d, b.t, tSto(tSel(d, b.t), k.t, "true")))
		vc.heapSet(vn, vs, tSto(vv, b.t, tSto(tSel(vv, b.t), k.t, v.t)))
	case *ssa.MakeMap:
		r := vc.newRef("map")
		dn, ds, vn, vs := vc.hMap(x.Type())
		m := types.Unalias(x.Type()).Underlying().(*types.Map)
		_, _ = vn, vs
		d := vc.heapGet(dn, ds)
		vc.heapSet(dn, ds, tSto(d, r, fmt.Sprintf("((as const (Array %s Bool)) false)", vc.u.sortOf(m.Key()))))
		fr.env[x] = Val{t: r, typ: x.Type()}
	case *ssa.MakeSlice:
		l, c := vc.value(fr, x.Len).t, vc.value(fr, x.Cap).t
		vc.oblig("safety", "make-len", tAnd(app("<=", "0", l), app("<=", l, c)), x.Pos(), nil)
		el := types.Unalias(x.Type()).Underlying().(*types.Slice).Elem()
		s := vc.makeSlice(el, l, c)
		fr.env[x] = Val{t: s, typ: x.Type()}
	case *ssa.Slice:
		fr.env[x] = vc.slice(fr, x)
	case *ssa.MakeInterface:
		v := vc.value(fr, x.X)
		if v.typ == nil {
			v.typ = x.X.Type()
		}
		fr.env[x] = Val{t: vc.toIface(v, x.X.Type()), typ: x.Type(), orig: &v}
	case *ssa.ChangeInterface:
		v := vc.value(fr, x.X)
		v.typ = x.Type()
		fr.env[x] = v
	case *ssa.ChangeType:
		v := vc.value(fr, x.X)
		v.typ = x.Type()
		fr.env[x] = v
	case *ssa.Convert:
		fr.env[x] = vc.convert(fr, x)
	case *ssa.TypeAssert:
		fr.env[x] = vc.typeAssert(fr, x)
	case *ssa.Extract:
		t := vc.value(fr, x.Tuple)
		if x.Index >= len(t.tup) {
			vc.fail("extract %d of %s", x.Index, x.Tuple)
		}
		fr.env[x] = t.tup[x.Index]
	case *ssa.Range:
		v := vc.value(fr, x.X)
		it := &Iter{x: v}
		if _, ok := types.Unalias(x.X.Type()).Underlying().(*types.Map); ok {
			it.kind = "map"
			m := types.Unalias(x.X.Type()).Underlying().(*types.Map)
			it.cell = vc.cellFor(fr.path+"/"+x.Name()+":visited", nil)
			srt := fmt.Sprintf("(Array %s Bool)", vc.u.sortOf(m.Key()))
			vc.pr.cellSorts[it.cell.key] = srt
			vc.st.cells[it.cell] = Val{t: fmt.Sprintf("((as const %s) false)", srt)}
			dn, ds, _, _ := vc.hMap(m)
			it.dom0 = vc.name("dom", srt, tSel(vc.heapGet(dn, ds), v.t))
		} else {
			it.kind = "string"
			it.cell = vc.cellFor(fr.path+"/"+x.Name()+":strpos", types.Typ[types.Int])
			vc.st.cells[it.cell] = Val{t: "0", typ: types.Typ[types.Int]}
		}
		fr.env[x] = Val{it: it, typ: x.Type()}
	case *ssa.Next:
		fr.env[x] = vc.next(fr, x)
	case *ssa.MakeClosure:
		var b []Val
		for _, v := range x.Bindings {
			b = append(b, vc.value(fr, v))
		}
		fr.env[x] = Val{fn: &Clos{fn: x.Fn.(*ssa.Function), bind: b}, typ: x.Type(), t: "1"}
	case *ssa.Call:
		fr.env[x] = vc.call(fr, x, x.Common(), x.Pos())
	case *ssa.Defer:
		c := x.Common()
		fr.defers = append(fr.defers, Deferred{x.Block(), func() { vc.call(fr, x, c, x.Pos()) }})
	case *ssa.RunDefers:
		vc.runDefers(fr, x.Block())
	default:
		if v, ok := ins.(ssa.Value); ok && strings.Contains(fmt.Sprint(ins), "deferstack") {
			fr.env[v] = Val{t: "0", typ: v.Type()}
			return
		}
		vc.fail("unsupported instruction %T: %s", ins, ins)
	}
}

// Deferred is a deferred call and the block where it was deferred.
type Deferred struct {
	b   *ssa.BasicBlock
	run func()
}

func reaches(from, to *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock) bool
	walk = func(b *ssa.BasicBlock) bool {
		if b == to {
			return true
		}
		if seen[b] {
			return false
		}
		seen[b] = true
		for _, s := range b.Succs {
			if walk(s) {
				return true
			}
		}
		return false
	}
	return walk(from)
}

func (vc *VC) runDefers(fr *Frame, at *ssa.BasicBlock) {
	for i := len(fr.defers) - 1; i >= 0; i-- {
		d := fr.defers[i]
		if d.b.Dominates(at) {
			d.run()
		} else if reaches(d.b, at) {
			vc.fail("a deferred call which may not be reached")
		}
	}
}

func (vc *VC) boundsCheck(i, n string, pos token.Pos) {
	if a, b := litLen(i), litLen(n); a >= 0 && b >= 0 && a < b {
		return
	}
	vc.oblig("safety", "index-in-range", tAnd(app("<=", "0", i), app("<", i, n)), pos, nil)
}

func (vc *VC) toIface(v Val, t types.Type) string {
	if v.lv != nil {
		return app("mkI", vc.u.tag(t), "1")
	}
	s := vc.u.sortOf(t)
	if v.t == "" {
		return app("mkI", vc.u.tag(t), "1")
	}
	switch s {
	case "Int":
		if _, ok := types.Unalias(t).Underlying().(*types.Basic); !ok {
			return app("mkI", vc.u.tag(t), v.t)
		}
	}
	f := "box." + tname(t)
	g := "unbox." + tname(t)
	vc.u.fun(f, "("+s+") Int", Axiom{"box", fmt.Sprintf("(forall ((x %s)) (! (and (= (%s (%s x)) x) (< (%s x) 0)) :pattern ((%s x))))", s, g, f, f, f)})
	vc.u.fun(g, "(Int) "+s)
	return app("mkI", vc.u.tag(t), app(f, v.t))
}

func (vc *VC) fromIface(i string, t types.Type) string {
	s := vc.u.sortOf(t)
	if s == "Int" {
		if _, ok := types.Unalias(t).Underlying().(*types.Basic); !ok {
			return app("ival", i)
		}
	}
	vc.toIface(Val{t: vc.u.zero(t)}, t)
	return app("unbox."+tname(t), app("ival", i))
}

func (vc *VC) typeAssert(fr *Frame, x *ssa.TypeAssert) Val {
	v := vc.value(fr, x.X)
	var ok, res string
	if _, isI := types.Unalias(x.AssertedType).Underlying().(*types.Interface); isI {
		ok = vc.implements(v.t, x.AssertedType)
		res = v.t
		if x.CommaOk {
			res = tIte(ok, v.t, "(mkI 0 0)")
		}
	} else {
		ok = tEq(app("itag", v.t), vc.u.tag(x.AssertedType))
		res = vc.fromIface(v.t, x.AssertedType)
		if x.CommaOk {
			res = tIte(ok, res, vc.u.zero(x.AssertedType))
		}
	}
	r := Val{t: res, typ: x.AssertedType}
	if !x.CommaOk {
		vc.oblig("safety", "type-assertion", ok, x.Pos(), nil)
		return r
	}
	r.t = vc.name("ta", vc.u.sortOf(x.AssertedType), res)
	return Val{tup: []Val{r, {t: ok, typ: types.Typ[types.Bool]}}, typ: x.Type()}
}

func (vc *VC) implements(i string, t types.Type) string {
	it := types.Unalias(t).Underlying().(*types.Interface)
	var ms []string
	for k := 0; k < it.NumMethods(); k++ {
		ms = append(ms, it.Method(k).Name())
	}
	sort.Strings(ms)
	f := "impl." + strings.Join(ms, ".")
	vc.u.fun(f, "(Int) Bool", Axiom{"impl-nil", fmt.Sprintf("(not (%s 0))", f)})
	return app(f, app("itag", i))
}

// guarded: a variable with a lock is used only while holding it.
func (vc *VC) guarded(g *ssa.Global, write bool, pos token.Pos) {
	lock := vc.pr.sp.guards[g.Pkg.Pkg.Path()+"."+g.Name()]
	if lock == "" || vc.pure > 0 || vc.fn != nil && vc.fn.Name() == "init" && vc.fn.Synthetic != "" {
		return // the initialization of the package runs before anything else
	}
	m, _ := g.Pkg.Members[lock].(*ssa.Global)
	if m == nil {
		vc.fail("the lock %s of %s does not exist", lock, g.Name())
	}
	s := tSel(vc.heapGet("ghost.lock", "(Array Int Int)"), vc.value(nil, m).t)
	if write {
		vc.oblig("safety", "lock: "+g.Name()+" is changed while holding its lock exclusively", tEq(s, "(- 1)"), pos, nil)
	} else {
		vc.oblig("safety", "lock: "+g.Name()+" is read while holding its lock", tNot(tEq(s, "0")), pos, nil)
	}
}

// guardEscapes: what is read from a variable with a lock is used at once.
func (vc *VC) guardEscapes(g *ssa.Global, x *ssa.UnOp) {
	if vc.pr.sp.guards[g.Pkg.Pkg.Path()+"."+g.Name()] == "" || vc.pure > 0 {
		return
	}
	for _, r := range *x.Referrers() {
		switch y := r.(type) {
		case *ssa.Lookup, *ssa.MapUpdate, *ssa.DebugRef:
			continue
		case *ssa.Call:
			if b, ok := y.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
				continue
			}
		}
		vc.oblig("safety", "lock: the contents of "+g.Name()+" are used only where it is read", "false", x.Pos(), nil)
	}
}

func (vc *VC) unop(fr *Frame, x *ssa.UnOp) Val {
	v := vc.value(fr, x.X)
	switch x.Op {
	case token.MUL:
		if g, ok := x.X.(*ssa.Global); ok {
			if g.Name() == "init$guard" { // it runs once
				return Val{t: "false", typ: x.Type()}
			}
			vc.guarded(g, false, x.Pos())
			vc.guardEscapes(g, x)
		}
		r := vc.deref(v, x.Pos())
		if r.typ == nil {
			r.typ = x.Type()
		}
		return r
	case token.NOT:
		return Val{t: tNot(v.t), typ: x.Type()}
	case token.SUB:
		if b, ok := types.Unalias(x.Type()).Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 {
			_, hi := intRange(b)
			return Val{t: vc.name("neg", "Int", tIte(tEq(v.t, "0"), "0", app("-", app("+", hi, "1"), v.t))), typ: x.Type()}
		}
		r := app("-", v.t)
		vc.checkRange(r, x.Type(), x.Pos(), "negate")
		return Val{t: r, typ: x.Type()}
	}
	vc.fail("unary %s", x)
	return Val{}
}

func (vc *VC) checkRange(t string, typ types.Type, pos token.Pos, what string) {
	if vc.spec == nil || !vc.spec.overflow {
		return
	}
	if b, ok := types.Unalias(typ).Underlying().(*types.Basic); ok {
		vc.oblig("safety", "no-overflow:"+what, rangeOf(b, t), pos, nil)
	}
}

func (vc *VC) binop(op token.Token, a, b Val, typ types.Type, pos token.Pos) string {
	at := types.Unalias(a.typ).Underlying()
	switch op {
	case token.EQL:
		return vc.eqVal(a, b)
	case token.NEQ:
		return tNot(vc.eqVal(a, b))
	}
	if bt, ok := at.(*types.Basic); ok && bt.Info()&types.IsString != 0 {
		switch op {
		case token.ADD:
			return vc.name("cat", "Str", app("scat", a.t, b.t))
		case token.LSS:
			return app("slt", a.t, b.t)
		case token.GTR:
			return app("slt", b.t, a.t)
		case token.LEQ:
			return tNot(app("slt", b.t, a.t))
		case token.GEQ:
			return tNot(app("slt", a.t, b.t))
		}
	}
	switch op {
	case token.LSS:
		return app("<", a.t, b.t)
	case token.LEQ:
		return app("<=", a.t, b.t)
	case token.GTR:
		return app(">", a.t, b.t)
	case token.GEQ:
		return app(">=", a.t, b.t)
	}
	bt, _ := types.Unalias(typ).Underlying().(*types.Basic)
	if bt != nil && bt.Info()&types.IsFloat != 0 {
		switch op {
		case token.ADD:
			return app("+", a.t, b.t)
		case token.SUB:
			return app("-", a.t, b.t)
		case token.MUL:
			return app("*", a.t, b.t)
		}
		return vc.fresh("float", "Real")
	}
	if bt != nil && bt.Info()&types.IsBoolean != 0 {
		switch op {
		case token.AND:
			return tAnd(a.t, b.t)
		case token.OR:
			return tOr(a.t, b.t)
		}
	}
	unsigned := bt != nil && bt.Info()&types.IsUnsigned != 0
	var r string
	switch op {
	case token.ADD:
		r = tAdd(a.t, b.t)
		if a.t != "0" && b.t != "0" {
			r = app("+", a.t, b.t)
		}
	case token.SUB:
		r = app("-", a.t, b.t)
	case token.MUL:
		r = tMul(a.t, b.t)
	case token.QUO:
		vc.oblig("safety", "division-by-zero", tNot(tEq(b.t, "0")), pos, nil)
		if unsigned {
			return app("div", a.t, b.t)
		}
		return app("quo", a.t, b.t)
	case token.REM:
		vc.oblig("safety", "division-by-zero", tNot(tEq(b.t, "0")), pos, nil)
		if unsigned {
			return app("mod", a.t, b.t)
		}
		return app("-", a.t, tMul(b.t, app("quo", a.t, b.t)))
	default:
		return vc.fresh("op", "Int")
	}
	if unsigned {
		_, hi := intRange(bt)
		return vc.name("wrap", "Int", app("mod", r, app("+", hi, "1")))
	}
	vc.checkRange(r, typ, pos, op.String())
	return r
}

func (vc *VC) eqVal(a, b Val) string {
	at := types.Unalias(a.typ).Underlying()
	if _, ok := at.(*types.Slice); ok { // comparison with nil
		s := a.t
		if s == "(mkS 0 0 0 0)" {
			s = b.t
		}
		return tEq(sArr(s), "0")
	}
	if a.fn != nil || b.fn != nil {
		return "false"
	}
	if a.lv != nil || b.lv != nil {
		if a.lv != nil && b.lv != nil {
			if a.lv.same(b.lv) {
				return "true"
			}
		}
		if a.t == "0" || b.t == "0" {
			return "false"
		}
		vc.fail("comparison of pointers")
	}
	if bt, ok := at.(*types.Basic); ok && bt.Info()&types.IsString != 0 {
		return vc.strEq(a.t, b.t)
	}
	return tEq(a.t, b.t)
}

func (vc *VC) strEq(a, b string) string {
	for _, s := range []string{a, b} {
		if !strings.HasPrefix(s, "str.") || s == "str.empty" {
			continue
		}
		o := a
		if o == s {
			o = b
		}
		// mention it, for extensionality
		vc.u.fun("streq", "(Str Str) Bool", Axiom{"streq", "(forall ((a Str) (b Str)) (! (= (streq a b) (= a b)) :pattern ((streq a b))))"})
		return app("streq", o, s)
	}
	if a == "str.empty" {
		return tEq(app("slen.s", b), "0")
	}
	if b == "str.empty" {
		return tEq(app("slen.s", a), "0")
	}
	return tEq(a, b)
}

func (vc *VC) convert(fr *Frame, x *ssa.Convert) Val {
	v := vc.value(fr, x.X)
	from, _ := types.Unalias(x.X.Type()).Underlying().(*types.Basic)
	to, _ := types.Unalias(x.Type()).Underlying().(*types.Basic)
	switch {
	case from != nil && to != nil && from.Info()&types.IsInteger != 0 && to.Info()&types.IsInteger != 0:
		flo, fhi := intRange(from)
		lo, hi := intRange(to)
		if flo == lo && fhi == hi || from.Kind() == types.UntypedInt {
			return Val{t: v.t, typ: x.Type()}
		}
		if to.Kind() == types.Uint64 && (from.Kind() == types.Int64 || from.Kind() == types.Int) {
			return Val{t: vc.name("u64", "Int", tIte(app(">=", v.t, "0"), v.t, app("+", v.t, "18446744073709551616"))), typ: x.Type()}
		}
		if widens(from, to) {
			return Val{t: v.t, typ: x.Type()}
		}
		vc.oblig("safety", "conversion-in-range", rangeOf(to, v.t), x.Pos(), nil)
		return Val{t: v.t, typ: x.Type()}
	case from != nil && to != nil && from.Info()&types.IsInteger != 0 && to.Info()&types.IsString != 0:
		return Val{t: app("srune", v.t), typ: x.Type()}
	case from != nil && to != nil && from.Info()&types.IsString != 0 && to.Info()&types.IsString != 0:
		return Val{t: v.t, typ: x.Type()}
	}
	if vc.u.sortOf(x.X.Type()) == "Real" && vc.u.sortOf(x.Type()) == "Int" {
		vc.u.fun("float.int", "(Real) Int")
		return Val{t: app("float.int", v.t), typ: x.Type()}
	}
	return vc.freshVal("conv", x.Type())
}

// embedded counts the objects which are fields of a type.
func embedded(t types.Type) int {
	st := types.Unalias(t).Underlying().(*types.Struct)
	n := 0
	for i := 0; i < st.NumFields(); i++ {
		if isObj(st.Field(i).Type()) {
			n++
		}
	}
	return n
}

func widens(a, b *types.Basic) bool {
	sz := map[types.BasicKind]int{types.Int8: 8, types.Int16: 16, types.Int32: 32, types.Int64: 64, types.Int: 64, types.Uint8: 8, types.Uint16: 16, types.Uint32: 32, types.Uint64: 64, types.Uint: 64}
	ua, ub := a.Info()&types.IsUnsigned != 0, b.Info()&types.IsUnsigned != 0
	if ua == ub {
		return sz[a.Kind()] <= sz[b.Kind()]
	}
	return ua && sz[a.Kind()] < sz[b.Kind()]
}

func (vc *VC) freshVal(base string, t types.Type) Val {
	if tp, ok := t.(*types.Tuple); ok {
		var out Val
		out.typ = t
		for i := 0; i < tp.Len(); i++ {
			out.tup = append(out.tup, vc.freshVal(base, tp.At(i).Type()))
		}
		return out
	}
	n := vc.fresh(base, vc.u.sortOf(t))
	vc.fact(vc.wfTerm(t, n, vc.alloc()))
	return Val{t: n, typ: t}
}

func (vc *VC) slice(fr *Frame, x *ssa.Slice) Val {
	b := vc.value(fr, x.X)
	lo := "0"
	if x.Low != nil {
		lo = vc.value(fr, x.Low).t
	}
	if b.arr != nil {
		at := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		n := fmt.Sprint(at.Len())
		if x.Low != nil || x.High != nil {
			hi := n
			if x.High != nil {
				hi = vc.value(fr, x.High).t
			}
			vc.oblig("safety", "slice-bounds", tAnd(app("<=", "0", lo), app("<=", lo, hi), app("<=", hi, n)), x.Pos(), nil)
			return Val{t: mkS(b.t, lo, tSub(hi, lo), tSub(n, lo)), typ: x.Type()}
		}
		return Val{t: mkS(b.t, "0", n, n), typ: x.Type()}
	}
	if bt, ok := types.Unalias(x.X.Type()).Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
		n := app("slen.s", b.t)
		hi := n
		if x.High != nil {
			hi = vc.value(fr, x.High).t
		}
		vc.oblig("safety", "slice-bounds", tAnd(app("<=", "0", lo), app("<=", lo, hi), app("<=", hi, n)), x.Pos(), nil)
		return Val{t: vc.name("sub", "Str", app("ssub", b.t, lo, hi)), typ: x.Type()}
	}
	sl, ok := types.Unalias(x.X.Type()).Underlying().(*types.Slice)
	if !ok {
		vc.fail("slice of %v", x.X.Type())
	}
	hi := sLen(b.t)
	if x.High != nil {
		hi = vc.value(fr, x.High).t
	}
	vc.oblig("safety", "slice-bounds", tAnd(app("<=", "0", lo), app("<=", lo, hi), app("<=", hi, sCap(b.t))), x.Pos(), nil)
	if lo == "0" {
		return Val{t: mkS(sArr(b.t), sOff(b.t), hi, sCap(b.t)), typ: x.Type()}
	}
	r := mkS(sArr(b.t), tAdd(sOff(b.t), lo), app("-", hi, lo), app("-", sCap(b.t), lo))
	if vc.pure == 0 {
		n := vc.fresh("sub", "Slice")
		vc.fact(tEq(n, r))
		at := vc.u.at(sl.Elem())
		ms := vc.u.memSort(sl.Elem())
		// reading through the new slice is reading through the old one
		vc.fact(fmt.Sprintf("(forall ((E %s) (i Int)) (! (= (%s E %s %s i) (%s E %s %s (+ i %s))) :pattern ((%s E %s %s i))))", ms,
			at, sArr(n), sOff(n), at, sArr(b.t), sOff(b.t), lo, at, sArr(n), sOff(n)))
		return Val{t: n, typ: x.Type()}
	}
	return Val{t: r, typ: x.Type()}
}

func (vc *VC) next(fr *Frame, x *ssa.Next) Val {
	iv := vc.value(fr, x.Iter)
	it := iv.it
	tp := x.Type().(*types.Tuple)
	if it.kind == "string" {
		p := vc.st.cells[it.cell].t
		n := app("slen.s", it.x.t)
		ok := app("<", p, n)
		c := vc.fresh("rune", "Int")
		b := app("sat", it.x.t, p)
		np := vc.fresh("strpos", "Int")
		vc.fact(tImp(ok, tAnd(tImp(app("<", b, "128"), tAnd(tEq(c, b), tEq(np, tAdd(p, "1")))),
			tImp(app(">=", b, "128"), tAnd(app(">=", c, "128"), app("<=", c, "1114111"), app(">", np, p), app("<=", np, tAdd(p, "4")), app("<=", np, n),
				fmt.Sprintf("(forall ((k Int)) (! (=> (and (<= %s k) (< k %s)) (>= (sat %s k) 128)) :pattern ((sat %s k))))", p, np, it.x.t, it.x.t))))))
		vc.fact(tImp(tNot(ok), tEq(np, p)))
		vc.st.cells[it.cell] = Val{t: np, typ: types.Typ[types.Int]}
		return Val{tup: []Val{{t: ok, typ: types.Typ[types.Bool]}, {t: p, typ: types.Typ[types.Int]}, {t: c, typ: types.Typ[types.Rune]}}, typ: tp}
	}
	m := types.Unalias(it.x.typ).Underlying().(*types.Map)
	ks := vc.u.sortOf(m.Key())
	dn, ds, vn, vs := vc.hMap(m)
	dom := tSel(vc.heapGet(dn, ds), it.x.t)
	vis := vc.st.cells[it.cell].t
	ok := vc.fresh("more", "Bool")
	k := vc.fresh("key", ks)
	v := vc.name("mapval", vc.u.sortOf(m.Elem()), tSel(tSel(vc.heapGet(vn, vs), it.x.t), k))
	vc.fact(tImp(ok, tAnd(tSel(dom, k), tNot(tSel(vis, k)), tSel(it.dom0, k))))
	vc.fact(tImp(tNot(ok), fmt.Sprintf("(forall ((k %s)) (! (=> (and (select %s k) (select %s k)) (select %s k)) :pattern ((select %s k)) :pattern ((select %s k))))", ks, it.dom0, dom, vis, vis, it.dom0)))
	vc.fact(vc.wfTerm(m.Key(), k, vc.alloc()))
	vc.fact(vc.wfTerm(m.Elem(), v, vc.alloc()))
	nv := vc.fresh("visited", vc.pr.cellSorts[it.cell.key])
	vc.fact(tEq(nv, tIte(ok, tSto(vis, k, "true"), vis)))
	vc.st.cells[it.cell] = Val{t: nv}
	return Val{tup: []Val{{t: ok, typ: types.Typ[types.Bool]}, {t: k, typ: m.Key()}, {t: v, typ: m.Elem()}}, typ: tp}
}

var _ = constant.MakeInt64
