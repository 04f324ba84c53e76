package main

import (
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// What a function prints, for those with "option output": a list of texts, which are the words of the formats, each
// of the arguments, the ends of lines ("\n") and the wide blanks ("\t": tabs, or more than one space).  Single spaces are
// left out.  It is the same however the texts are shared out in calls.

var outHeaps = []string{"OUT.n", "OUT.p", "OUT.w"}

var printers = map[string]string{
	"fmt.Printf": "f", "fmt.Print": "p", "fmt.Println": "pl", "fmt.Fprintf": "Ff", "fmt.Fprint": "Fp", "fmt.Fprintln": "Fpl",
}

func (vc *VC) outHeap(h string) string {
	s := map[string]string{"OUT.n": "Int", "OUT.p": "(Array Int Str)", "OUT.w": "(Array Int Iface)", warnHeap: "Int"}[h]
	vc.pr.heapSorts[h] = s
	return s
}

// warnHeap counts the warnings: what goes to the log, or is printed to standard output (for those with "option logs").
const warnHeap = "LOG.n"

func isPrinter(name string) bool { return printers[name] != "" }

func isWarning(name string) bool {
	return strings.HasPrefix(name, "log.Print") || strings.HasPrefix(name, "fmt.Print") || strings.HasPrefix(name, "fmt.Fprint")
}

// calls tells if a function can call any of some functions of other packages.
func (pr *Prog) calls(f *ssa.Function, what func(string) bool, seen map[*ssa.Function]bool) bool {
	if what(f.String()) {
		return true
	}
	if seen[f] || f.Pkg == nil || !shortPkgOf(f) {
		return false
	}
	seen[f] = true
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				if g := c.Common().StaticCallee(); g != nil && pr.calls(g, what, seen) {
					return true
				}
			}
		}
	}
	return false
}

// words of a text
func words(s string) []string {
	var out []string
	for s != "" {
		n := strings.IndexFunc(s, func(r rune) bool { return strings.ContainsRune(" \t\n", r) })
		if n > 0 {
			out = append(out, s[:n])
		} else if n < 0 {
			return append(out, s)
		}
		s = s[n:]
		m := len(s) - len(strings.TrimLeft(s, " \t"))
		switch {
		case m == 0:
			out = append(out, "\n")
			m = 1
		case m > 1 || s[0] == '\t':
			out = append(out, "\t")
		}
		s = s[m:]
	}
	return out
}

// printed tells if an address is in the list of arguments of a call which prints them (a list nothing else can see).
func printed(v ssa.Value) bool {
	ia, ok := v.(*ssa.IndexAddr)
	if !ok {
		return false
	}
	a, ok := ia.X.(*ssa.Alloc)
	if !ok || a.Comment != "varargs" {
		return false
	}
	for _, r := range *a.Referrers() {
		switch r := r.(type) {
		case *ssa.IndexAddr:
		case *ssa.Slice:
			for _, u := range *r.Referrers() {
				c, ok := u.(*ssa.Call)
				if !ok {
					return false
				}
				f := c.Call.StaticCallee()
				if f == nil || !(isWarning(f.String()) || strings.HasPrefix(f.String(), "log.Fatal")) {
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}

// variadic gives the arguments which were collected in a list.
func variadic(v ssa.Value) ([]ssa.Value, bool) {
	if k, ok := v.(*ssa.Const); ok && k.Value == nil {
		return nil, true
	}
	s, ok := v.(*ssa.Slice)
	if !ok || s.Low != nil || s.High != nil {
		return nil, false
	}
	a, ok := s.X.(*ssa.Alloc)
	if !ok || a.Comment != "varargs" {
		return nil, false
	}
	n := int(types.Unalias(a.Type()).Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
	out := make([]ssa.Value, n)
	for _, r := range *a.Referrers() {
		ia, ok := r.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		k, ok := ia.Index.(*ssa.Const)
		if !ok {
			return nil, false
		}
		i, _ := constant.Int64Val(k.Value)
		for _, r := range *ia.Referrers() {
			if st, ok := r.(*ssa.Store); ok && int(i) < n {
				out[i] = st.Val
			}
		}
	}
	for _, x := range out {
		if x == nil {
			return nil, false
		}
	}
	return out, true
}

// stdout is the value of os.Stdout as a writer.
func (vc *VC) stdout() string {
	p := vc.pr.ssaProg.ImportedPackage("os")
	if p == nil {
		vc.u.konst("stdout.w", "Iface")
		return "stdout.w"
	}
	g := p.Var("Stdout")
	el := g.Type().Underlying().(*types.Pointer).Elem()
	n := "G.os.Stdout"
	vc.heapVar(n, el, vc.u.sortOf(el))
	vc.pr.heapSorts[n] = vc.u.sortOf(el)
	return vc.toIface(Val{t: vc.heapGet(n, vc.u.sortOf(el)), typ: el}, el)
}

func (vc *VC) print(fr *Frame, c *ssa.CallCommon, kind string) {
	as := c.Args
	w := ""
	if kind[0] != 'F' {
		w = vc.stdout()
	}
	if kind[0] == 'F' {
		w = vc.value(fr, as[0]).t
		kind = kind[1:]
		as = as[1:]
	}
	ln := strings.HasSuffix(kind, "l")
	kind = kind[:1]
	args, ok := variadic(as[len(as)-1])
	format := ""
	if kind == "f" && ok {
		var k *ssa.Const
		k, ok = as[0].(*ssa.Const)
		if ok {
			format = constant.StringVal(k.Value)
		}
	}
	if !ok { // anything
		for _, h := range outHeaps {
			vc.heapGet(h, vc.outHeap(h))
			vc.st.heap[h] = vc.fresh(h, vc.outHeap(h))
		}
		return
	}
	emit := func(t string) {
		n := vc.heapGet("OUT.n", vc.outHeap("OUT.n"))
		vc.heapSet("OUT.p", vc.outHeap("OUT.p"), tSto(vc.heapGet("OUT.p", vc.outHeap("OUT.p")), n, t))
		vc.heapSet("OUT.w", vc.outHeap("OUT.w"), tSto(vc.heapGet("OUT.w", vc.outHeap("OUT.w")), n, w))
		vc.heapSet("OUT.n", "Int", tAdd(n, "1"))
	}
	text := func(s string) {
		for _, x := range words(s) {
			emit(vc.u.str(x))
		}
	}
	// number of an argument
	num := func(x ssa.Value) (string, bool) {
		if m, ok := x.(*ssa.MakeInterface); ok {
			x = m.X
		}
		b, ok := types.Unalias(x.Type()).Underlying().(*types.Basic)
		if !ok || b.Info()&types.IsInteger == 0 {
			return "", false
		}
		return vc.value(fr, x).t, true
	}
	arg := func(x ssa.Value, prec string) {
		m, isM := x.(*ssa.MakeInterface)
		if isM {
			x = m.X
		}
		t := types.Unalias(x.Type())
		b, _ := t.Underlying().(*types.Basic)
		named, _ := t.(*types.Named)
		p := ""
		switch {
		case isM && b != nil && b.Info()&types.IsString != 0 && named == nil:
			if k, ok := x.(*ssa.Const); ok && prec == "" {
				text(constant.StringVal(k.Value))
				return
			}
			p = vc.value(fr, x).t
		case isM && b != nil && b.Info()&types.IsInteger != 0 && named == nil && vc.pr.sp.funs["itoa"] != nil:
			vc.declareFun(vc.pr.sp.funs["itoa"])
			p = app("itoa", vc.value(fr, x).t)
		case isM && named != nil:
			if f := vc.pr.ssaProg.LookupMethod(t, nil, "String"); f != nil && vc.pr.specs[f.String()] != nil {
				v := vc.value(fr, x)
				p = vc.callFn(fr, &Clos{fn: f}, []Val{v}, types.Typ[types.String], x.Pos()).t
			}
		}
		if p == "" {
			p = vc.fresh("printed", "Str")
		}
		if prec != "" { // cut if it is longer (in characters, of which there are at most as many as bytes)
			p = vc.name("printed", "Str", tIte(app(">=", prec, app("slen.s", p)), p, vc.fresh("cut", "Str")))
		}
		emit(p)
	}
	if kind != "f" {
		for _, x := range args {
			arg(x, "")
		}
		if ln {
			text("\n")
		}
		return
	}
	next := 0
	take := func() ssa.Value {
		if next >= len(args) {
			return nil
		}
		next++
		return args[next-1]
	}
	lit := ""
	for i := 0; i < len(format); i++ {
		if format[i] != '%' {
			lit += format[i : i+1]
			continue
		}
		i++
		if i < len(format) && format[i] == '%' {
			lit += "%"
			continue
		}
		text(lit)
		lit = ""
		prec := ""
		for i < len(format) && strings.IndexByte("-+# 0123456789*.", format[i]) >= 0 {
			if format[i] == '.' {
				prec = "0"
				if i+1 < len(format) && format[i+1] == '*' {
					i++
					prec = vc.fresh("prec", "Int")
					if x := take(); x != nil {
						if t, ok := num(x); ok {
							prec = t
						}
					}
				} else {
					j := i + 1
					for j < len(format) && format[j] >= '0' && format[j] <= '9' {
						j++
					}
					if j > i+1 {
						prec = strings.TrimLeft(format[i+1:j], "0")
						if prec == "" {
							prec = "0"
						}
					}
					i = j - 1
				}
			} else if format[i] == '*' {
				take()
			}
			i++
		}
		x := take()
		if i >= len(format) || x == nil {
			emit(vc.fresh("bad", "Str"))
			continue
		}
		if prec == "0" && format[i] == 's' {
			continue
		}
		if format[i] != 's' && format[i] != 'd' && format[i] != 'v' {
			emit(vc.fresh("printed", "Str"))
			continue
		}
		arg(x, prec)
	}
	text(lit)
	for next < len(args) {
		take()
		emit(vc.fresh("extra", "Str"))
	}
}
