package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"
)

// Sym is a declared SMT symbol, with the axioms which come with it.
type Sym struct {
	name   string
	decl   string
	axioms []Axiom
}

type Axiom struct {
	name string
	term string
}

// Univ holds everything that is declared once for the whole program.
type Univ struct {
	sorts   []string // sort declarations, in order
	seen    map[string]bool
	syms    map[string]*Sym
	tags    map[string]int
	strs    map[string]string
	strVals []string
	structs map[string]*structInfo
}

type structInfo struct {
	sort   string
	fields []string // selector names
	names  []string
	types  []types.Type
}

func newUniv() *Univ {
	u := &Univ{seen: map[string]bool{}, syms: map[string]*Sym{}, tags: map[string]int{}, strs: map[string]string{}, structs: map[string]*structInfo{}}
	u.sorts = append(u.sorts,
		"(declare-datatypes ((Slice 0)) (((mkS (sarr Int) (soff Int) (slen Int) (scap Int)))))",
		"(declare-datatypes ((Iface 0)) (((mkI (itag Int) (ival Int)))))",
		"(declare-datatypes ((Time 0)) (((mkT (tinst Int) (tloc Int)))))",
		"(declare-sort Str 0)",
	)
	u.fun("slen.s", "(Str) Int", Axiom{"strlen", "(forall ((s Str)) (! (>= (slen.s s) 0) :pattern ((slen.s s))))"})
	u.fun("sat", "(Str Int) Int", Axiom{"strbyte", "(forall ((s Str) (i Int)) (! (and (>= (sat s i) 0) (<= (sat s i) 255)) :pattern ((sat s i))))"})
	u.fun("ssub", "(Str Int Int) Str",
		Axiom{"substr-len", "(forall ((s Str) (i Int) (j Int)) (! (=> (and (<= 0 i) (<= i j) (<= j (slen.s s))) (= (slen.s (ssub s i j)) (- j i))) :pattern ((ssub s i j))))"},
		Axiom{"substr-at", "(forall ((s Str) (i Int) (j Int) (k Int)) (! (=> (and (<= 0 i) (<= i j) (<= j (slen.s s)) (<= 0 k) (< k (- j i))) (= (sat (ssub s i j) k) (sat s (+ i k)))) :pattern ((sat (ssub s i j) k))))"},
		Axiom{"substr-all", "(forall ((s Str)) (! (= (ssub s 0 (slen.s s)) s) :pattern ((ssub s 0 (slen.s s)))))"})
	u.fun("scat", "(Str Str) Str",
		Axiom{"concat-len", "(forall ((a Str) (b Str)) (! (= (slen.s (scat a b)) (+ (slen.s a) (slen.s b))) :pattern ((scat a b))))"},
		Axiom{"concat-at", "(forall ((a Str) (b Str) (k Int)) (! (=> (and (<= 0 k) (< k (+ (slen.s a) (slen.s b)))) (= (sat (scat a b) k) (ite (< k (slen.s a)) (sat a k) (sat b (- k (slen.s a)))))) :pattern ((sat (scat a b) k))))"},
		Axiom{"concat-empty-l", "(forall ((a Str) (b Str)) (! (=> (= (slen.s a) 0) (= (scat a b) b)) :pattern ((scat a b))))"},
		Axiom{"concat-empty-r", "(forall ((a Str) (b Str)) (! (=> (= (slen.s b) 0) (= (scat a b) a)) :pattern ((scat a b))))"})
	u.fun("srune", "(Int) Str",
		Axiom{"rune-ascii", "(forall ((c Int)) (! (=> (and (<= 0 c) (< c 128)) (and (= (slen.s (srune c)) 1) (= (sat (srune c) 0) c))) :pattern ((srune c))))"},
		Axiom{"rune-other", "(forall ((c Int)) (! (=> (not (and (<= 0 c) (< c 128))) (and (>= (slen.s (srune c)) 2) (<= (slen.s (srune c)) 4) (>= (sat (srune c) 0) 128))) :pattern ((srune c))))"})
	u.fun("slt", "(Str Str) Bool",
		Axiom{"strlt-irrefl", "(forall ((a Str)) (! (not (slt a a)) :pattern ((slt a a))))"},
		Axiom{"strlt-trans", "(forall ((a Str) (b Str) (c Str)) (! (=> (and (slt a b) (slt b c)) (slt a c)) :pattern ((slt a b) (slt b c))))"},
		Axiom{"strlt-total", "(forall ((a Str) (b Str)) (! (or (slt a b) (slt b a) (= a b)) :pattern ((slt a b))))"})
	// truncated division
	u.fun("quo", "(Int Int) Int", Axiom{"quo", "(forall ((a Int) (b Int)) (! (=> (not (= b 0)) (= (quo a b) (ite (>= a 0) (ite (> b 0) (div a b) (- (div a (- b)))) (ite (> b 0) (- (div (- a) b)) (div (- a) (- b)))))) :pattern ((quo a b))))"})
	u.fun("imul", "(Int Int) Int", Axiom{"imul", "(forall ((a Int) (b Int)) (! (= (imul a b) (* a b)) :pattern ((imul a b))))"},
		Axiom{"imul-comm", "(forall ((a Int) (b Int)) (! (= (imul a b) (imul b a)) :pattern ((imul a b))))"})
	u.fun("alloc.max", "() Int")
	return u
}

func (u *Univ) fun(name, sig string, ax ...Axiom) {
	if _, ok := u.syms[name]; ok {
		u.syms[name].axioms = append(u.syms[name].axioms, ax...)
		return
	}
	u.syms[name] = &Sym{name: name, decl: "(declare-fun " + name + " " + sig + ")", axioms: ax}
}

func (u *Univ) konst(name, srt string) {
	if _, ok := u.syms[name]; ok {
		return
	}
	u.syms[name] = &Sym{name: name, decl: "(declare-fun " + name + " () " + srt + ")"}
}

var shortPkg = map[string]string{
	"github.com/cespedes/accounting":                "",
	"github.com/cespedes/accounting/backend/ledger": "ledger.",
	"github.com/cespedes/accounting/backend/txtdb":  "txtdb.",
	"github.com/cespedes/accounting/cmd/ledger":     "main.",
}

func qual(p *types.Package) string {
	if s, ok := shortPkg[p.Path()]; ok {
		return strings.TrimSuffix(s, ".")
	}
	return p.Name()
}

func sanitize(s string) string {
	var b strings.Builder
	for _, c := range s {
		switch {
		case c >= 'a' && c <= 'z', c >= 'A' && c <= 'Z', c >= '0' && c <= '9', c == '.', c == '_':
			b.WriteRune(c)
		case c == '*':
			b.WriteString("p.")
		case c == '[':
			b.WriteString("l.")
		case c == ']':
		default:
			b.WriteString("_")
		}
	}
	return b.String()
}

// tname is a stable name for a type.
func tname(t types.Type) string {
	switch x := t.(type) {
	case *types.Alias:
		return tname(types.Unalias(x))
	case *types.Named:
		switch x.Underlying().(type) {
		case *types.Slice, *types.Basic, *types.Map:
			if x.Obj().Pkg() != nil {
				return tname(x.Underlying()) // same representation
			}
		}
	case *types.Pointer:
		return "p." + tname(x.Elem())
	case *types.Slice:
		return "l." + tname(x.Elem())
	case *types.Map:
		return "m." + tname(x.Key()) + "." + tname(x.Elem())
	}
	return sanitize(types.TypeString(t, qual))
}

func isNamed(t types.Type, pkg, name string) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Name() == name && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == pkg
}

func isTime(t types.Type) bool { return isNamed(t, "time", "Time") }

func isBigInt(t types.Type) bool { return isNamed(t, "math/big", "Int") }

var valueStructs = map[string]bool{
	"Value": true, "ledger.scannerFile": true, "ledger.ScannerLine": true, "main.account": true, "main.flags": true,
}

// isObj tells whether pointers to t are references to heap objects.
func isObj(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return false
	}
	if _, ok := n.Underlying().(*types.Struct); !ok {
		return false
	}
	if isTime(t) {
		return false
	}
	return !valueStructs[types.TypeString(n, qual)]
}

// refPtr tells whether a pointer to t is a first class value.
func refPtr(t types.Type) bool { return isObj(t) || isTime(t) }

func (u *Univ) sortOf(t types.Type) string {
	t = types.Unalias(t)
	if isTime(t) {
		return "Time"
	}
	switch x := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case x.Info()&types.IsBoolean != 0:
			return "Bool"
		case x.Info()&types.IsInteger != 0:
			return "Int"
		case x.Info()&types.IsString != 0:
			return "Str"
		case x.Info()&types.IsFloat != 0:
			return "Real"
		}
		return "Int"
	case *types.Pointer:
		return "Int"
	case *types.Map, *types.Signature, *types.Chan:
		return "Int"
	case *types.Slice:
		return "Slice"
	case *types.Interface:
		return "Iface"
	case *types.Struct:
		return u.structOf(t).sort
	case *types.Array:
		return "(Array Int " + u.sortOf(x.Elem()) + ")"
	}
	return "Int"
}

func (u *Univ) structOf(t types.Type) *structInfo {
	t = types.Unalias(t)
	name := "V." + tname(t)
	if si := u.structs[name]; si != nil {
		return si
	}
	st := t.Underlying().(*types.Struct)
	si := &structInfo{sort: name}
	u.structs[name] = si
	var fs []string
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		sel := name + "." + f.Name()
		si.fields = append(si.fields, sel)
		si.names = append(si.names, f.Name())
		si.types = append(si.types, f.Type())
		fs = append(fs, fmt.Sprintf("(%s %s)", sel, u.sortOf(f.Type())))
	}
	ctor := "mk." + name
	if len(fs) == 0 {
		u.sorts = append(u.sorts, fmt.Sprintf("(declare-datatypes ((%s 0)) (((%s))))", name, ctor))
	} else {
		u.sorts = append(u.sorts, fmt.Sprintf("(declare-datatypes ((%s 0)) (((%s %s))))", name, ctor, strings.Join(fs, " ")))
	}
	return si
}

func (u *Univ) mkStruct(t types.Type, fields []string) string {
	si := u.structOf(t)
	if len(fields) == 0 {
		return "mk." + si.sort
	}
	return app("mk."+si.sort, fields...)
}

func (u *Univ) structSel(t types.Type, i int, v string) string {
	si := u.structOf(t)
	if strings.HasPrefix(v, "(mk."+si.sort+" ") {
		parts := splitSexp(v)
		if len(parts) == len(si.fields)+1 {
			return parts[i+1]
		}
	}
	return app(si.fields[i], v)
}

func (u *Univ) structUpd(t types.Type, i int, v, nv string) string {
	si := u.structOf(t)
	var fs []string
	for j := range si.fields {
		if j == i {
			fs = append(fs, nv)
		} else {
			fs = append(fs, u.structSel(t, j, v))
		}
	}
	return u.mkStruct(t, fs)
}

const zeroTime = "(mkT 0 0)"

func (u *Univ) zero(t types.Type) string {
	t = types.Unalias(t)
	if isTime(t) {
		return zeroTime
	}
	switch x := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case x.Info()&types.IsBoolean != 0:
			return "false"
		case x.Info()&types.IsString != 0:
			return u.str("")
		case x.Info()&types.IsFloat != 0:
			return "0.0"
		}
		return "0"
	case *types.Slice:
		return "(mkS 0 0 0 0)"
	case *types.Interface:
		return "(mkI 0 0)"
	case *types.Struct:
		si := u.structOf(t)
		var fs []string
		for i := range si.fields {
			fs = append(fs, u.zero(si.types[i]))
		}
		return u.mkStruct(t, fs)
	case *types.Array:
		return fmt.Sprintf("((as const (Array Int %s)) %s)", u.sortOf(x.Elem()), u.zero(x.Elem()))
	}
	return "0"
}

// str returns the constant for a string literal.
func (u *Univ) str(s string) string {
	if c, ok := u.strs[s]; ok {
		return c
	}
	name := fmt.Sprintf("str.%d", len(u.strs))
	if s == "" {
		name = "str.empty"
	}
	u.strs[s] = name
	u.strVals = append(u.strVals, s)
	var ax []string
	ax = append(ax, fmt.Sprintf("(= (slen.s %s) %d)", name, len(s)))
	if len(s) <= 64 {
		for i := 0; i < len(s); i++ {
			ax = append(ax, fmt.Sprintf("(= (sat %s %d) %d)", name, i, s[i]))
		}
	}
	a := []Axiom{{"strlit", tAnd(ax...)}}
	// extensionality, for this string only
	if s == "" {
		a = append(a, Axiom{"strlit-ext", fmt.Sprintf("(forall ((s Str)) (! (=> (= (slen.s s) 0) (= s %s)) :pattern ((slen.s s))))", name)})
	} else if len(s) <= 16 {
		c := []string{fmt.Sprintf("(= (slen.s s) %d)", len(s))}
		for i := 0; i < len(s); i++ {
			c = append(c, fmt.Sprintf("(= (sat s %d) %d)", i, s[i]))
		}
		a = append(a, Axiom{"strlit-ext", fmt.Sprintf("(forall ((s Str)) (! (=> %s (= s %s)) :pattern ((streq s %s))))", tAnd(c...), name, name)})
		u.fun("streq", "(Str Str) Bool")
	}
	u.syms[name] = &Sym{name: name, decl: "(declare-fun " + name + " () Str)", axioms: a}
	return name
}

func (u *Univ) tag(t types.Type) string {
	s := types.TypeString(t, nil)
	if n, ok := u.tags[s]; ok {
		return fmt.Sprint(n)
	}
	u.tags[s] = len(u.tags) + 1
	return fmt.Sprint(len(u.tags))
}

// at returns the name of the function which reads one element of a slice
func (u *Univ) at(elem types.Type) string {
	n := "at." + tname(elem)
	if _, ok := u.syms[n]; !ok {
		s := u.sortOf(elem)
		u.fun(n, fmt.Sprintf("(%s Int Int Int) %s", u.memSort(elem), s),
			Axiom{"elem", fmt.Sprintf("(forall ((E %s) (a Int) (o Int) (i Int)) (! (= (%s E a o i) (select (select E a) (+ o i))) :pattern ((%s E a o i))))", u.memSort(elem), n, n)})
	}
	return n
}

func (u *Univ) memSort(elem types.Type) string {
	return fmt.Sprintf("(Array Int (Array Int %s))", u.sortOf(elem))
}

func (u *Univ) elem(E string, elem types.Type, s, i string) string {
	return app(u.at(elem), E, sArr(s), sOff(s), i)
}

func memName(elem types.Type) string { return "E." + tname(elem) }

func fieldName(t types.Type, f string) string { return "H." + tname(t) + "." + f }

func (u *Univ) constTerm(v constant.Value, t types.Type) (string, bool) {
	if v == nil {
		return u.zero(t), true
	}
	switch v.Kind() {
	case constant.Bool:
		if constant.BoolVal(v) {
			return "true", true
		}
		return "false", true
	case constant.String:
		return u.str(constant.StringVal(v)), true
	case constant.Int:
		s := v.ExactString()
		if u.sortOf(t) == "Real" {
			s += ".0"
		}
		if strings.HasPrefix(s, "-") {
			return "(- " + s[1:] + ")", true
		}
		return s, true
	case constant.Float:
		f, _ := constant.Float64Val(v)
		if u.sortOf(t) == "Int" {
			if i, ok := constant.Int64Val(constant.ToInt(v)); ok {
				return tInt(i), true
			}
		}
		s := fmt.Sprintf("%f", f)
		if strings.HasPrefix(s, "-") {
			return "(- " + s[1:] + ")", true
		}
		return s, true
	}
	return "", false
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
