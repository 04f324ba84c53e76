package main

import (
	"fmt"
	"go/ast"
	goparser "go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Prog is the program under verification and its contracts.
type Prog struct {
	repo      string
	fset      *token.FileSet
	pkgs      map[string]*packages.Package
	ssaProg   *ssa.Program
	funcs     map[string]*ssa.Function
	sp        *Specs
	specs     map[string]*FuncSpec
	heapTypes map[string]types.Type
	heapSorts map[string]string
	cellSorts map[string]string
	mapFuncs  map[string]*ssa.Function
	timeType  types.Type
	infos     map[*ssa.Function]*fnInfo
	typeCache map[string]types.Type
}

var pkgPatterns = []string{".", "./backend/ledger", "./backend/txtdb", "./cmd/ledger"}

var (
	loadOnce sync.Once
)

func loadProg(repo string) (*Prog, error) {
	cfg := &packages.Config{Mode: packages.LoadSyntax, Dir: repo, Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off")}
	pkgs, err := packages.Load(cfg, pkgPatterns...)
	if err != nil {
		return nil, err
	}
	pr := &Prog{repo: repo, pkgs: map[string]*packages.Package{}, infos: map[*ssa.Function]*fnInfo{}, typeCache: map[string]types.Type{}}
	for _, p := range pkgs {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("%s: %v", p.PkgPath, e)
		}
		pr.pkgs[p.PkgPath] = p
		pr.fset = p.Fset
		for n, ip := range p.Imports {
			if n == "time" && pr.timeType == nil {
				pr.timeType = ip.Types.Scope().Lookup("Time").Type()
			}
		}
	}
	prog, ps := ssautil.Packages(pkgs, ssa.NaiveForm|ssa.InstantiateGenerics)
	for _, p := range ps {
		p.Build()
	}
	pr.ssaProg = prog
	pr.funcs = map[string]*ssa.Function{}
	for f := range ssautil.AllFunctions(prog) {
		if f.Pkg != nil && shortPkgOf(f) && len(f.Blocks) > 0 {
			pr.funcs[f.String()] = f
		}
	}
	return pr, nil
}

// session makes a copy with its own tables, to verify one function.
func (pr *Prog) session() *Prog {
	n := *pr
	n.heapTypes = map[string]types.Type{}
	n.heapSorts = map[string]string{"alloc": "Int", "ghost.lock": "(Array Int Int)"}
	n.cellSorts = map[string]string{}
	n.mapFuncs = map[string]*ssa.Function{}
	n.infos = map[*ssa.Function]*fnInfo{}
	n.typeCache = map[string]types.Type{}
	return &n
}

func (pr *Prog) pkgByPath(path string) *types.Package {
	if p := pr.pkgs[path]; p != nil {
		return p.Types
	}
	for _, p := range pr.pkgs {
		for _, ip := range p.Imports {
			if ip.PkgPath == path {
				return ip.Types
			}
		}
	}
	return nil
}

func (pr *Prog) pkgByName(name string, from *types.Package) *types.Package {
	if from != nil {
		for _, ip := range from.Imports() {
			if ip.Name() == name {
				return ip
			}
		}
	}
	for _, path := range []string{"github.com/cespedes/accounting", "github.com/cespedes/accounting/backend/ledger"} {
		if p := pr.pkgs[path]; p != nil && p.Types.Name() == name {
			return p.Types
		}
	}
	for _, k := range sortedKeys(pr.pkgs) {
		p := pr.pkgs[k]
		if p.Types.Name() == name && p.Types.Name() != "main" {
			return p.Types
		}
		for _, n := range sortedKeys(p.Imports) {
			if p.Imports[n].Types.Name() == name {
				return p.Imports[n].Types
			}
		}
	}
	return nil
}

func (pr *Prog) fullName(pkgPath, short string) string {
	switch {
	case strings.HasPrefix(short, "(*"):
		return "(*" + pkgPath + "." + short[2:]
	case strings.HasPrefix(short, "("):
		return "(" + pkgPath + "." + short[1:]
	}
	return pkgPath + "." + short
}

func (pr *Prog) pos(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	q := pr.fset.Position(p)
	f, err := filepath.Rel(pr.repo, q.Filename)
	if err != nil {
		f = q.Filename
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

// parseType reads a type written in a contract.
func (pr *Prog) parseType(text string, pkg *types.Package) types.Type {
	key := text
	if pkg != nil {
		key = pkg.Path() + " " + text
	}
	if t := pr.typeCache[key]; t != nil {
		return t
	}
	e, err := goparser.ParseExpr(text)
	if err != nil {
		panic(vcError{fmt.Sprintf("contract: bad type %q: %v", text, err)})
	}
	t := pr.typeExpr(e, pkg, text)
	pr.typeCache[key] = t
	return t
}

func (pr *Prog) typeExpr(e ast.Expr, pkg *types.Package, text string) types.Type {
	switch x := e.(type) {
	case *ast.Ident:
		if pkg != nil {
			if o, ok := pkg.Scope().Lookup(x.Name).(*types.TypeName); ok {
				return o.Type()
			}
		}
		if o, ok := types.Universe.Lookup(x.Name).(*types.TypeName); ok {
			return o.Type()
		}
		if p := pr.pkgs["github.com/cespedes/accounting"]; p != nil {
			if o, ok := p.Types.Scope().Lookup(x.Name).(*types.TypeName); ok {
				return o.Type()
			}
		}
	case *ast.StarExpr:
		return types.NewPointer(pr.typeExpr(x.X, pkg, text))
	case *ast.ArrayType:
		if x.Len == nil {
			return types.NewSlice(pr.typeExpr(x.Elt, pkg, text))
		}
	case *ast.MapType:
		return types.NewMap(pr.typeExpr(x.Key, pkg, text), pr.typeExpr(x.Value, pkg, text))
	case *ast.InterfaceType:
		return types.NewInterfaceType(nil, nil)
	case *ast.SelectorExpr:
		if id, ok := x.X.(*ast.Ident); ok {
			if p := pr.pkgByName(id.Name, pkg); p != nil {
				if o, ok := p.Scope().Lookup(x.Sel.Name).(*types.TypeName); ok {
					return o.Type()
				}
			}
		}
	}
	panic(vcError{fmt.Sprintf("contract: unknown type %q", text)})
}

func (pr *Prog) analyse(fn *ssa.Function) *fnInfo {
	if i := pr.infos[fn]; i != nil {
		return i
	}
	i := analyse(fn)
	matchLoops(fn, i)
	pr.infos[fn] = i
	return i
}

type astLoop struct {
	stmt   ast.Stmt
	body   *ast.BlockStmt
	parent int
}

// matchLoops numbers the loops by the order of their statements in the source.
func matchLoops(fn *ssa.Function, info *fnInfo) {
	var root ast.Node
	var body *ast.BlockStmt
	switch x := fn.Syntax().(type) {
	case *ast.FuncDecl:
		root, body = x.Body, x.Body
	case *ast.FuncLit:
		root, body = x.Body, x.Body
	default:
		return
	}
	info.body = body
	var loops []astLoop
	var stack []int
	var walk func(n ast.Node)
	walk = func(n ast.Node) {
		ast.Inspect(n, func(m ast.Node) bool {
			if m == nil || m == n {
				return true
			}
			switch x := m.(type) {
			case *ast.FuncLit:
				return false
			case *ast.ForStmt, *ast.RangeStmt:
				par := -1
				if len(stack) > 0 {
					par = stack[len(stack)-1]
				}
				l := astLoop{stmt: x.(ast.Stmt), parent: par}
				if f, ok := x.(*ast.ForStmt); ok {
					l.body = f.Body
				} else {
					l.body = x.(*ast.RangeStmt).Body
				}
				loops = append(loops, l)
				stack = append(stack, len(loops)-1)
				walk(m)
				stack = stack[:len(stack)-1]
				return false
			}
			return true
		})
	}
	walk(root)
	taken := map[int]bool{}
	ls := append([]*Loop{}, info.loops...)
	sort.SliceStable(ls, func(i, j int) bool { return len(ls[i].body) < len(ls[j].body) })
	extra := 1000
	info.byNum = map[int]*Loop{}
	for _, l := range ls {
		best := -1
		for i, a := range loops {
			ok, some := true, false
			for b := range l.body {
				for _, in := range b.Instrs {
					if _, isA := in.(*ssa.Alloc); isA {
						continue
					}
					if _, isD := in.(*ssa.DebugRef); isD {
						continue
					}
					if p := in.Pos(); p.IsValid() {
						some = true
						if p < a.stmt.Pos() || p >= a.stmt.End() {
							ok = false
						}
					}
				}
			}
			if ok && some && (best < 0 || a.stmt.Pos() > loops[best].stmt.Pos()) {
				best = i
			}
		}
		for best >= 0 && taken[best] {
			best = loops[best].parent
		}
		if best < 0 {
			l.n = extra
			extra++
		} else {
			taken[best] = true
			l.n = best
			l.scope = loops[best].body.Lbrace + 1
			l.end = loops[best].body.Rbrace
			l.pos = loops[best].stmt.Pos()
		}
		info.byNum[l.n] = l
	}
}

// usersOf are the functions which use a global variable, without the initialization of the package.
func (pr *Prog) usersOf(g string) []string {
	var out []string
	for _, n := range sortedKeys(pr.funcs) {
		fn := pr.funcs[n]
		if fn.Name() == "init" && fn.Synthetic != "" {
			continue
		}
		used := false
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				for _, op := range ins.Operands(nil) {
					if x, ok := (*op).(*ssa.Global); ok && x.Pkg.Pkg.Path()+"."+x.Name() == g {
						used = true
					}
				}
			}
		}
		if used {
			out = append(out, n)
		}
	}
	return out
}
