package main

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"unicode"
)

// ---------------------------------------------------------------- syntax

type Expr struct {
	op   string // "id", "int", "str", "call", "sel", "index", "slice", "un", "bin", "quant", "cmp", "type"
	name string
	args []*Expr
	vars []qvar
	trig [][]*Expr
	text string
}

type qvar struct{ name, typ string }

type Clause struct {
	name    string
	props   []string
	e       *Expr
	assumed bool // callers assume it, and it is not proved: it is listed among the assumptions
	witness bool // it mentions variables of the function: callers do not see it
}

type Mod struct {
	heap  string
	param string
	fresh bool
}

type Hint struct {
	where  string // "loop", "return", "call", "entry"
	loop   int
	when   string
	call   string
	nth    int
	assert *Expr
	use    string
	args   []*Expr
	name   string
	props  []string
	claim  bool
}

type decFor struct {
	props []string
	es    []*Expr
}

type FuncSpec struct {
	Name, Short string
	pkgPath     string
	pkg         *types.Package
	props       []string
	params      []string
	requires    []Clause
	ensures     []Clause
	modifies    []Mod
	modAlloc    bool
	panics      *Expr
	onpanic     []Clause
	invs        map[int][]Clause
	variants    map[int][]*Expr
	hints       []Hint
	decreases   []*Expr
	decFor      []decFor
	zeroed      bool
	recGroup    string
	framed      map[string]bool // callees used for their frame only
	overflow    bool
	logs        bool
	output      bool
	trusted     bool
	inline      bool
	noreturn    bool
	separate    bool
	iface       bool
	pureDef     *Expr
	nonterm     map[int]bool
	file        string
	timeout     int
	bounded     string
}

type Def struct {
	name   string
	params []string
	body   *Expr
}

type SpecFun struct {
	name   string
	params []qvar
	res    string
	pkg    *types.Package
}

type Lemma struct {
	name     string
	params   []qvar
	requires []Clause
	ensures  []Clause
	induct   string
	auto     []string // owners
	trig     [][]*Expr
	uses     []Hint
	props    []string
	pkg      *types.Package
	order    int
	axiom    bool
}

func clauseName(c Clause, i int) string {
	if c.name != "" {
		return c.name
	}
	return fmt.Sprint(i)
}

// ---------------------------------------------------------------- lexer

type tok struct {
	k string // "id", "int", "str", "op", "eof"
	s string
}

func lex(s string) ([]tok, error) {
	var out []tok
	rs := []rune(s)
	i := 0
	ops := []string{"<==>", "==>", "::", "&&", "||", "==", "!=", "<=", ">=", ":="}
	for i < len(rs) {
		c := rs[i]
		switch {
		case unicode.IsSpace(c):
			i++
		case unicode.IsLetter(c) || c == '_' || c == '$':
			j := i
			for j < len(rs) && (unicode.IsLetter(rs[j]) || unicode.IsDigit(rs[j]) || rs[j] == '_' || rs[j] == '$' || rs[j] == '\'') {
				j++
			}
			out = append(out, tok{"id", string(rs[i:j])})
			i = j
		case unicode.IsDigit(c):
			j := i
			for j < len(rs) && (unicode.IsDigit(rs[j]) || rs[j] == '_') {
				j++
			}
			out = append(out, tok{"int", strings.ReplaceAll(string(rs[i:j]), "_", "")})
			i = j
		case c == '"':
			j := i + 1
			var b strings.Builder
			for j < len(rs) && rs[j] != '"' {
				r := rs[j]
				if r == '\\' && j+1 < len(rs) {
					j++
					switch r = rs[j]; r {
					case 'n':
						r = '\n'
					case 't':
						r = '\t'
					}
				}
				b.WriteRune(r)
				j++
			}
			if j >= len(rs) {
				return nil, fmt.Errorf("unterminated string")
			}
			out = append(out, tok{"str", b.String()})
			i = j + 1
		default:
			found := false
			for _, o := range ops {
				if strings.HasPrefix(string(rs[i:min(len(rs), i+4)]), o) {
					out = append(out, tok{"op", o})
					i += len([]rune(o))
					found = true
					break
				}
			}
			if !found {
				out = append(out, tok{"op", string(c)})
				i++
			}
		}
	}
	return append(out, tok{"eof", ""}), nil
}

type parser struct {
	toks []tok
	i    int
	src  string
}

func (p *parser) peek() tok { return p.toks[p.i] }
func (p *parser) next() tok { t := p.toks[p.i]; p.i++; return t }
func (p *parser) is(s string) bool {
	t := p.peek()
	return (t.k == "op" || t.k == "id") && t.s == s
}
func (p *parser) accept(s string) bool {
	if p.is(s) {
		p.i++
		return true
	}
	return false
}
func (p *parser) expect(s string) {
	if !p.accept(s) {
		panic(vcError{fmt.Sprintf("contract: expected %q, found %q in %q", s, p.peek().s, p.src)})
	}
}

func parseExpr(s string) *Expr {
	ts, err := lex(s)
	if err != nil {
		panic(vcError{fmt.Sprintf("contract: %v in %q", err, s)})
	}
	p := &parser{toks: ts, src: s}
	e := p.expr(0)
	if p.peek().k != "eof" {
		panic(vcError{fmt.Sprintf("contract: unexpected %q in %q", p.peek().s, s)})
	}
	e.text = strings.Join(strings.Fields(s), " ")
	return e
}

func parseExprs(s string) []*Expr {
	ts, err := lex(s)
	if err != nil {
		panic(vcError{err.Error()})
	}
	p := &parser{toks: ts, src: s}
	var out []*Expr
	for p.peek().k != "eof" {
		out = append(out, p.expr(0))
		if !p.accept(",") {
			break
		}
	}
	return out
}

var prec = map[string]int{"<==>": 1, "==>": 2, "||": 3, "&&": 4, "==": 5, "!=": 5, "<": 5, "<=": 5, ">": 5, ">=": 5, "in": 5, "+": 6, "-": 6, "*": 7, "/": 7, "%": 7}

func (p *parser) expr(min int) *Expr {
	if p.is("forall") || p.is("exists") {
		return p.quant()
	}
	l := p.unary()
	for {
		t := p.peek()
		pr, ok := prec[t.s]
		if !ok || (t.k != "op" && t.s != "in") || pr < min || pr == 0 {
			return l
		}
		if pr == 5 { // chained comparisons
			var cs []*Expr
			left := l
			for {
				t := p.peek()
				if prec[t.s] != 5 || (t.k != "op" && t.s != "in") {
					break
				}
				p.next()
				r := p.expr(6)
				cs = append(cs, &Expr{op: "bin", name: t.s, args: []*Expr{left, r}})
				left = r
			}
			l = cs[0]
			for _, c := range cs[1:] {
				l = &Expr{op: "bin", name: "&&", args: []*Expr{l, c}}
			}
			continue
		}
		p.next()
		var r *Expr
		if t.s == "==>" {
			r = p.expr(pr)
		} else {
			r = p.expr(pr + 1)
		}
		l = &Expr{op: "bin", name: t.s, args: []*Expr{l, r}}
	}
}

func (p *parser) quant() *Expr {
	q := &Expr{op: "quant", name: p.next().s}
	for {
		var ns []string
		ns = append(ns, p.next().s)
		p.expect(":")
		ty := p.typ()
		for _, n := range ns {
			q.vars = append(q.vars, qvar{n, ty})
		}
		if !p.accept(",") {
			break
		}
	}
	for p.accept("{") {
		var tr []*Expr
		for !p.accept("}") {
			tr = append(tr, p.expr(0))
			p.accept(",")
		}
		q.trig = append(q.trig, tr)
	}
	p.expect("::")
	q.args = []*Expr{p.expr(0)}
	return q
}

// typ reads a type: returns its text
func (p *parser) typ() string {
	var b strings.Builder
	for {
		t := p.peek()
		if t.k == "op" && (t.s == "*" || t.s == "[" || t.s == "]") {
			b.WriteString(t.s)
			p.next()
			continue
		}
		break
	}
	t := p.next()
	b.WriteString(t.s)
	if t.s == "map" {
		p.expect("[")
		b.WriteString("[" + p.typ() + "]")
		p.expect("]")
		b.WriteString(p.typ())
		return b.String()
	}
	if t.s == "interface" {
		p.expect("{")
		p.expect("}")
		return b.String() + "{}"
	}
	for p.is(".") {
		p.next()
		b.WriteString("." + p.next().s)
	}
	if p.is("(") { // mem(T), heap(T.f), set(T)
		p.next()
		b.WriteString("(" + p.typ() + ")")
		p.expect(")")
	}
	return b.String()
}

func (p *parser) unary() *Expr {
	t := p.peek()
	if t.k == "op" {
		switch t.s {
		case "!", "-", "*", "&":
			p.next()
			return &Expr{op: "un", name: t.s, args: []*Expr{p.unary()}}
		}
	}
	return p.postfix(p.primary())
}

func (p *parser) primary() *Expr {
	t := p.next()
	switch t.k {
	case "int":
		return &Expr{op: "int", name: t.s}
	case "str":
		return &Expr{op: "str", name: t.s}
	case "id":
		if t.s == "heap" || t.s == "mem" || t.s == "mapdom" || t.s == "mapval" || t.s == "zero" {
			p.expect("(")
			ty := p.typ()
			p.expect(")")
			return &Expr{op: "heapref", name: t.s, text: ty}
		}
		if (t.s == "istype" || t.s == "astype") && p.is("(") {
			p.next()
			e := p.expr(0)
			p.expect(",")
			ty := p.typ()
			p.expect(")")
			return &Expr{op: t.s, text: ty, args: []*Expr{e}}
		}
		if t.s == "mk" && p.is("(") {
			p.next()
			ty := p.typ()
			e := &Expr{op: "mk", text: ty}
			for p.accept(",") {
				e.args = append(e.args, p.expr(0))
			}
			p.expect(")")
			return e
		}
		return &Expr{op: "id", name: t.s}
	case "op":
		if t.s == "(" {
			e := p.expr(0)
			p.expect(")")
			return e
		}
	}
	panic(vcError{fmt.Sprintf("contract: unexpected %q in %q", t.s, p.src)})
}

func (p *parser) postfix(e *Expr) *Expr {
	for {
		switch {
		case p.accept("."):
			e = &Expr{op: "sel", name: p.next().s, args: []*Expr{e}}
		case p.accept("("):
			c := &Expr{op: "call", name: e.name}
			if e.op != "id" {
				panic(vcError{fmt.Sprintf("contract: bad call in %q", p.src)})
			}
			for !p.accept(")") {
				c.args = append(c.args, p.expr(0))
				p.accept(",")
			}
			e = c
		case p.accept("["):
			if p.accept(":") {
				hi := p.expr(0)
				p.expect("]")
				e = &Expr{op: "slice", args: []*Expr{e, nil, hi}}
				continue
			}
			i := p.expr(0)
			if p.accept(":") {
				var hi *Expr
				if !p.is("]") {
					hi = p.expr(0)
				}
				p.expect("]")
				e = &Expr{op: "slice", args: []*Expr{e, i, hi}}
				continue
			}
			p.expect("]")
			e = &Expr{op: "index", args: []*Expr{e, i}}
		default:
			return e
		}
	}
}

// ---------------------------------------------------------------- contract files

type Specs struct {
	funcs      []*FuncSpec
	defs       map[string]*Def
	funs       map[string]*SpecFun
	lemmas     []*Lemma
	guards     map[string]string // global variable -> lock
	guardProps map[string]string
}

var keywords = map[string]bool{"package": true, "def": true, "fun": true, "axiom": true, "lemma": true, "func": true, "trusted": true, "iface": true, "funcval": true,
	"props": true, "requires": true, "ensures": true, "witness": true, "assumes": true, "modifies": true, "panics": true, "onpanic": true, "guard": true, "inv": true, "variant": true, "hint": true, "decreases": true,
	"option": true, "induct": true, "auto": true, "trigger": true, "pure": true, "inline": true, "params": true, "use": true, "nonterm": true, "bounded": true}

func loadSpecs(pr *Prog, dir string) (*Specs, error) {
	sp := &Specs{guards: map[string]string{}, guardProps: map[string]string{}, defs: map[string]*Def{}, funs: map[string]*SpecFun{}}
	files, _ := filepath.Glob(filepath.Join(dir, "*.spec"))
	sort.Strings(files)
	for _, f := range files {
		if err := sp.load(pr, f); err != nil {
			return nil, fmt.Errorf("%s: %v", filepath.Base(f), err)
		}
	}
	return sp, nil
}

func (sp *Specs) load(pr *Prog, file string) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(vcError); ok {
				err = fmt.Errorf("%s", e.msg)
				return
			}
			panic(r)
		}
	}()
	data, err := os.ReadFile(file)
	if err != nil {
		return err
	}
	var clauses []string
	for _, line := range strings.Split(string(data), "\n") {
		if i := strings.Index(line, "//"); i >= 0 {
			line = line[:i]
		}
		t := strings.TrimSpace(line)
		if t == "" {
			continue
		}
		w := strings.Fields(t)[0]
		if keywords[w] {
			clauses = append(clauses, t)
		} else if len(clauses) > 0 {
			clauses[len(clauses)-1] += " " + t
		} else {
			return fmt.Errorf("unexpected %q", t)
		}
	}
	var cur *FuncSpec
	var lem *Lemma
	var pkg *types.Package
	var pkgPath string
	for _, c := range clauses {
		w, rest, _ := strings.Cut(c, " ")
		rest = strings.TrimSpace(rest)
		switch w {
		case "package":
			pkgPath = rest
			pkg = pr.pkgByPath(rest)
			if pkg == nil {
				return fmt.Errorf("unknown package %s", rest)
			}
			cur, lem = nil, nil
		case "def":
			head, body, ok := strings.Cut(rest, ":=")
			if !ok {
				return fmt.Errorf("bad def %q", rest)
			}
			n, ps := splitHead(head)
			var names []string
			for _, p := range ps {
				names = append(names, p.name)
			}
			if sp.defs[n] != nil {
				return fmt.Errorf("%s is defined twice", n)
			}
			sp.defs[n] = &Def{name: n, params: names, body: parseExpr(body)}
		case "fun":
			i := strings.LastIndex(rest, ")")
			n, ps := splitHead(rest[:i+1])
			res := strings.TrimSpace(strings.TrimPrefix(strings.TrimSpace(rest[i+1:]), ":"))
			if sp.funs[n] != nil {
				return fmt.Errorf("%s is declared twice", n)
			}
			sp.funs[n] = &SpecFun{name: n, params: ps, res: res, pkg: pkg}
		case "axiom":
			head, body, _ := strings.Cut(rest, ":=")
			l := &Lemma{name: strings.TrimSpace(head), axiom: true, pkg: pkg, ensures: []Clause{{e: parseExpr(body)}}, order: len(sp.lemmas)}
			l.auto = []string{strings.Fields(head)[0]}
			sp.lemmas = append(sp.lemmas, l)
		case "lemma":
			n, ps := splitHead(rest)
			lem = &Lemma{name: n, params: ps, pkg: pkg, order: len(sp.lemmas)}
			sp.lemmas = append(sp.lemmas, lem)
			cur = nil
		case "func", "trusted", "iface", "funcval":
			name := rest
			cur = &FuncSpec{Short: name, pkgPath: pkgPath, pkg: pkg, invs: map[int][]Clause{}, variants: map[int][]*Expr{}, nonterm: map[int]bool{}, file: filepath.Base(file)}
			cur.trusted = w == "trusted"
			lem = nil
			if w == "iface" || w == "funcval" {
				cur.iface, cur.trusted = true, true
				cur.Name = w + " " + name
			} else {
				cur.Name = pr.fullName(pkgPath, name)
			}
			sp.funcs = append(sp.funcs, cur)
		case "induct":
			lem.induct = rest
		case "auto":
			lem.auto = strings.Fields(rest)
		case "trigger":
			lem.trig = append(lem.trig, parseExprs(rest))
		case "use":
			if lem == nil {
				return fmt.Errorf("use outside of lemma: %q", c)
			}
			e := parseExpr(rest)
			lem.uses = append(lem.uses, Hint{use: e.name, args: e.args})
		case "props":
			if lem != nil {
				lem.props = strings.Fields(rest)
			} else {
				cur.props = strings.Fields(rest)
			}
		case "params":
			cur.params = strings.Fields(rest)
		case "requires":
			if lem != nil {
				lem.requires = append(lem.requires, parseClause(rest))
			} else {
				cur.requires = append(cur.requires, parseClause(rest))
			}
		case "ensures":
			if lem != nil {
				lem.ensures = append(lem.ensures, parseClause(rest))
			} else {
				cur.ensures = append(cur.ensures, parseClause(rest))
			}
		case "assumes":
			c := parseClause(rest)
			c.assumed = true
			cur.ensures = append(cur.ensures, c)
		case "witness":
			c := parseClause(rest)
			c.witness = true
			cur.ensures = append(cur.ensures, c)
		case "modifies":
			for _, m := range splitTop(rest) {
				m = strings.TrimSpace(m)
				var md Mod
				if strings.HasPrefix(m, "fresh ") {
					md.fresh = true
					m = strings.TrimSpace(m[6:])
				}
				if m == "output" {
					for _, h := range outHeaps {
						cur.modifies = append(cur.modifies, Mod{heap: h})
					}
					continue
				}
				if m == "warnings" {
					m = warnHeap
				}
				if strings.HasPrefix(m, "*") {
					md.param = m[1:]
				} else {
					md.heap = m
				}
				cur.modifies = append(cur.modifies, md)
			}
		case "panics":
			cur.panics = parseExpr(rest)
		case "onpanic":
			cur.onpanic = append(cur.onpanic, parseClause(rest))
		case "guard":
			f := strings.Fields(rest)
			if len(f) < 4 || f[1] != "by" {
				return fmt.Errorf("bad guard %q", rest)
			}
			sp.guards[pkgPath+"."+f[0]] = f[2]
			sp.guardProps[pkgPath+"."+f[0]] = strings.Join(f[3:], " ")
		case "pure":
			cur.pureDef = parseExpr(rest)
		case "inline":
			cur.inline = true
		case "bounded":
			cur.bounded = rest
		case "inv", "variant", "nonterm":
			ns, body, _ := strings.Cut(rest, " ")
			n := 0
			if _, err := fmt.Sscan(ns, &n); err != nil {
				return fmt.Errorf("loop number expected in %q", c)
			}
			switch w {
			case "inv":
				cur.invs[n] = append(cur.invs[n], parseClause(body))
			case "variant":
				cur.variants[n] = parseExprs(body)
			default:
				cur.nonterm[n] = true
			}
		case "decreases":
			if strings.HasPrefix(rest, "@") { // for the check of some properties
				w, r, _ := strings.Cut(rest, " ")
				cur.decFor = append(cur.decFor, decFor{strings.Split(w[1:], ","), parseExprs(strings.TrimSpace(r))})
			} else {
				cur.decreases = parseExprs(rest)
			}
		case "option":
			switch f := strings.Fields(rest); f[0] {
			case "overflow":
				cur.overflow = true
			case "separate": // its contract is proved by its own check
				cur.separate = true
			case "zeroed": // the fields of objects which do not exist yet are known to be zero
				cur.zeroed = true
			case "output": // what it prints is known
				cur.output = true
			case "logs": // its warnings are counted
				cur.logs = true
			case "noreturn":
				cur.noreturn = true
			case "group":
				cur.recGroup = f[1]
			case "framed": // of that function, only what it may modify is used
				if cur.framed == nil {
					cur.framed = map[string]bool{}
				}
				cur.framed[f[1]] = true
			case "timeout":
				fmt.Sscan(f[1], &cur.timeout)
			default:
				return fmt.Errorf("unknown option %q", rest)
			}
		case "hint":
			var tags []string
			if strings.HasPrefix(rest, "@") {
				w, r, _ := strings.Cut(rest, " ")
				tags = strings.Split(w[1:], ",")
				rest = strings.TrimSpace(r)
			}
			h, err := parseHint(rest)
			h.props = tags
			if err != nil {
				return err
			}
			cur.hints = append(cur.hints, h)
		}
	}
	return nil
}

// only keeps the clauses which serve a property (those without a mark serve all of them).
func (f *FuncSpec) only(prop string) {
	sel := func(cs []Clause) []Clause {
		var out []Clause
		for _, c := range cs {
			if len(c.props) == 0 || has(c.props, prop) {
				c.props = nil
				out = append(out, c)
			}
		}
		return out
	}
	for _, d := range f.decFor {
		if has(d.props, prop) {
			f.decreases = d.es
		}
	}
	f.requires, f.ensures, f.onpanic = sel(f.requires), sel(f.ensures), sel(f.onpanic)
	for k := range f.invs {
		f.invs[k] = sel(f.invs[k])
	}
	var hs []Hint
	for _, h := range f.hints {
		if len(h.props) == 0 || has(h.props, prop) {
			hs = append(hs, h)
		}
	}
	f.hints = hs
}

func splitTop(s string) []string {
	var out []string
	d, st := 0, 0
	for i, c := range s {
		switch c {
		case '(', '[', '{':
			d++
		case ')', ']', '}':
			d--
		case ',':
			if d == 0 {
				out = append(out, s[st:i])
				st = i + 1
			}
		}
	}
	return append(out, s[st:])
}

func splitHead(s string) (string, []qvar) {
	s = strings.TrimSpace(s)
	i := strings.Index(s, "(")
	if i < 0 {
		return s, nil
	}
	name := strings.TrimSpace(s[:i])
	inner := s[i+1 : strings.LastIndex(s, ")")]
	var out []qvar
	for _, p := range splitTop(inner) {
		p = strings.TrimSpace(p)
		if p == "" {
			continue
		}
		n, t, _ := strings.Cut(p, ":")
		out = append(out, qvar{strings.TrimSpace(n), strings.ReplaceAll(strings.TrimSpace(t), " ", "")})
	}
	return name, out
}

// parseClause reads: [@P01,P02] [name:] expr
func parseClause(s string) Clause {
	var c Clause
	s = strings.TrimSpace(s)
	if strings.HasPrefix(s, "@") {
		w, r, _ := strings.Cut(s, " ")
		c.props = strings.Split(w[1:], ",")
		s = strings.TrimSpace(r)
	}
	if i := strings.Index(s, ":"); i > 0 && i+1 < len(s) && s[i+1] != ':' && s[i+1] != '=' {
		ok := true
		for _, ch := range s[:i] {
			if !(unicode.IsLetter(ch) || unicode.IsDigit(ch) || ch == '-' || ch == '_') {
				ok = false
			}
		}
		if ok {
			c.name = s[:i]
			s = s[i+1:]
		}
	}
	c.e = parseExpr(s)
	if c.name == "" {
		c.name = ""
	}
	return c
}

// parseHint reads: loop N entry|body|back: assert e / use L(args); return: ...; call NAME K before|after: ...
func parseHint(s string) (Hint, error) {
	var h Hint
	i := strings.Index(s, ":")
	if i < 0 {
		return h, fmt.Errorf("bad hint %q", s)
	}
	w := strings.Fields(s[:i])
	body := strings.TrimSpace(s[i+1:])
	h.where = w[0]
	switch w[0] {
	case "loop":
		fmt.Sscan(w[1], &h.loop)
		h.when = w[2]
	case "call":
		h.call = w[1]
		fmt.Sscan(w[2], &h.nth)
		h.when = w[3]
	case "return", "entry":
	default:
		return h, fmt.Errorf("bad hint %q", s)
	}
	k, rest, _ := strings.Cut(body, " ")
	switch k {
	case "assert", "claim":
		h.assert = parseExpr(rest)
		h.claim = k == "claim"
	case "use":
		e := parseExpr(rest)
		h.use, h.args = e.name, e.args
		if e.op == "quant" { // use forall x: T {trig} :: lemma(args)
			h.assert = e
			h.use = e.args[0].name
		}
	default:
		return h, fmt.Errorf("bad hint %q", s)
	}
	h.name = strings.Join(strings.Fields(body), " ")
	return h, nil
}
