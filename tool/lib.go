package main

import (
	"fmt"
	"go/token"
	"go/types"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// libCall is a call of a function outside the repository.
type libCall struct {
	fn   *ssa.Function
	args []Val
	rt   types.Type
	pos  token.Pos
}

// Functions with no visible effect and an unknown result.
var havocLib = []string{
	"fmt.", "strings.", "strconv.", "regexp.", "(*regexp.Regexp)", "path.", "path/filepath.", "math.", "errors.",
	"(time.Time)", "(time.Duration)", "(time.Month)", "unicode.", "log.Print", "(*net/url.URL)", "net/url.", "os.Getenv", "os.IsNotExist", "os.Open", "(*os.File)", "bufio.NewScanner",
	"time.", "io.", "slices.Contains", "utf8.", "unicode/utf8.", "(*strings.Builder)", "(*bytes.Buffer)",
}

const maxDur = "9223372036854775807"
const minDur = "(- 9223372036854775808)"

var libFuncs map[string]func(vc *VC, fr *Frame, c *libCall) Val

func boolVal(t string) Val { return Val{t: t, typ: types.Typ[types.Bool]} }
func intVal(t string) Val  { return Val{t: t, typ: types.Typ[types.Int]} }

func inst(t string) string {
	if strings.HasPrefix(t, "(mkT ") {
		return splitSexp(t)[1]
	}
	return app("tinst", t)
}

func init() {
	libFuncs = map[string]func(vc *VC, fr *Frame, c *libCall) Val{
		"errors.New":  nonNil,
		"fmt.Errorf":  nonNil,
		"log.Fatalf":  noReturn,
		"log.Fatal":   noReturn,
		"log.Fatalln": noReturn,
		"os.Exit":     noReturn,
		"log.Panicf": func(vc *VC, fr *Frame, c *libCall) Val {
			vc.doPanic(fr, c.pos, "log.Panicf")
			vc.branch("false")
			return Val{typ: c.rt}
		},
		"log.Panic": func(vc *VC, fr *Frame, c *libCall) Val {
			vc.doPanic(fr, c.pos, "log.Panic")
			vc.branch("false")
			return Val{typ: c.rt}
		},

		"(time.Time).After": func(vc *VC, fr *Frame, c *libCall) Val {
			return boolVal(app(">", inst(c.args[0].t), inst(c.args[1].t)))
		},
		"(time.Time).Before": func(vc *VC, fr *Frame, c *libCall) Val {
			return boolVal(app("<", inst(c.args[0].t), inst(c.args[1].t)))
		},
		"(time.Time).Equal": func(vc *VC, fr *Frame, c *libCall) Val { return boolVal(tEq(inst(c.args[0].t), inst(c.args[1].t))) },
		"(time.Time).AddDate": func(vc *VC, fr *Frame, c *libCall) Val {
			vc.u.fun("adddate", "(Time Int Int Int) Time")
			return Val{t: app("adddate", c.args[0].t, c.args[1].t, c.args[2].t, c.args[3].t), typ: c.rt}
		},
		"(time.Time).Format": func(vc *VC, fr *Frame, c *libCall) Val {
			vc.u.fun("timetext", "(Time Str) Str")
			return Val{t: app("timetext", c.args[0].t, c.args[1].t), typ: c.rt}
		},
		"flag.NewFlagSet": func(vc *VC, fr *Frame, c *libCall) Val {
			return Val{t: vc.newRef("flagset"), typ: c.rt}
		},
		"(*flag.FlagSet).StringVar": flagVar("flagstr"),
		"(*flag.FlagSet).BoolVar":   flagVar("flagbool"),
		"(*flag.FlagSet).Var":       flagVar("flaglist"),
		"(*flag.FlagSet).Parse":     flagParse,
		"(*flag.FlagSet).Args": func(vc *VC, fr *Frame, c *libCall) Val {
			if r, ok := vc.flagRest[c.args[0].t]; ok {
				return Val{t: r, typ: c.rt}
			}
			return vc.libFresh(c.fn, c.rt)
		},
		"(time.Time).IsZero": func(vc *VC, fr *Frame, c *libCall) Val { return boolVal(tEq(inst(c.args[0].t), "0")) },
		"(time.Time).Compare": func(vc *VC, fr *Frame, c *libCall) Val {
			a, b := inst(c.args[0].t), inst(c.args[1].t)
			return Val{t: tIte(app("<", a, b), "(- 1)", tIte(app(">", a, b), "1", "0")), typ: c.rt}
		},
		"(time.Time).Sub": func(vc *VC, fr *Frame, c *libCall) Val {
			d := app("-", inst(c.args[0].t), inst(c.args[1].t))
			return Val{t: vc.name("dur", "Int", tIte(app(">", d, maxDur), maxDur, tIte(app("<", d, minDur), minDur, d))), typ: c.rt}
		},
		"(time.Time).Add": func(vc *VC, fr *Frame, c *libCall) Val {
			t := c.args[0].t
			return Val{t: app("mkT", tAdd(inst(t), c.args[1].t), app("tloc", t)), typ: c.rt}
		},
		"(time.Duration).Abs": func(vc *VC, fr *Frame, c *libCall) Val {
			d := c.args[0].t
			return Val{t: tIte(app(">=", d, "0"), d, tIte(tEq(d, minDur), maxDur, app("-", d))), typ: c.rt}
		},

		"math/big.NewInt":     bigNew,
		"(*math/big.Int).Mul": bigOp(func(a, b string) string { return tMul(a, b) }, false),
		"(*math/big.Int).Add": bigOp(func(a, b string) string { return app("+", a, b) }, false),
		"(*math/big.Int).Sub": bigOp(func(a, b string) string { return app("-", a, b) }, false),
		"(*math/big.Int).Quo": bigOp(func(a, b string) string { return app("quo", a, b) }, true),
		"(*math/big.Int).Div": bigOp(func(a, b string) string { return app("div", a, b) }, true),
		"(*math/big.Int).Neg": bigOp1(func(a string) string { return app("-", a) }),
		"(*math/big.Int).Set": bigOp1(func(a string) string { return a }),
		"(*math/big.Int).SetInt64": func(vc *VC, fr *Frame, c *libCall) Val {
			n, s := vc.bigHeap()
			vc.heapSet(n, s, tSto(vc.heapGet(n, s), c.args[0].t, c.args[1].t))
			return c.args[0]
		},
		"(*math/big.Int).Sign": func(vc *VC, fr *Frame, c *libCall) Val {
			n, s := vc.bigHeap()
			v := tSel(vc.heapGet(n, s), c.args[0].t)
			return Val{t: tIte(app(">", v, "0"), "1", tIte(app("<", v, "0"), "(- 1)", "0")), typ: c.rt}
		},
		"(*math/big.Int).Cmp": func(vc *VC, fr *Frame, c *libCall) Val {
			n, s := vc.bigHeap()
			a := tSel(vc.heapGet(n, s), c.args[0].t)
			b := tSel(vc.heapGet(n, s), c.args[1].t)
			return Val{t: tIte(app(">", a, b), "1", tIte(app("<", a, b), "(- 1)", "0")), typ: c.rt}
		},
		"(*math/big.Int).IsInt64": func(vc *VC, fr *Frame, c *libCall) Val {
			n, s := vc.bigHeap()
			v := tSel(vc.heapGet(n, s), c.args[0].t)
			return boolVal(tAnd(app("<=", minDur, v), app("<=", v, maxDur)))
		},
		"(*math/big.Int).Int64": func(vc *VC, fr *Frame, c *libCall) Val {
			n, s := vc.bigHeap()
			v := tSel(vc.heapGet(n, s), c.args[0].t)
			vc.assumptions["results of big.Int.Int64 fit in 64 bits (amounts and prices do not overflow int64)"] = true
			return Val{t: vc.name("i64", "Int", v), typ: c.rt}
		},

		"unicode.IsSpace": func(vc *VC, fr *Frame, c *libCall) Val { return boolVal(vc.isSpace(c.args[0].t)) },
		"unicode.IsDigit": func(vc *VC, fr *Frame, c *libCall) Val {
			vc.u.fun("isdigit", "(Int) Bool", Axiom{"isdigit", "(forall ((c Int)) (! (=> (and (<= 0 c) (< c 128)) (= (isdigit c) (and (<= 48 c) (<= c 57)))) :pattern ((isdigit c))))"})
			return boolVal(app("isdigit", c.args[0].t))
		},

		"strings.ContainsRune": func(vc *VC, fr *Frame, c *libCall) Val {
			if lit, ok := vc.litOf(c.args[0].t); ok {
				var or []string
				for _, r := range lit {
					or = append(or, tEq(c.args[1].t, fmt.Sprint(r)))
				}
				return boolVal(tOr(or...))
			}
			return vc.libFresh(c.fn, c.rt)
		},
		"strings.ContainsAny": func(vc *VC, fr *Frame, c *libCall) Val {
			lit, ok := vc.litOf(c.args[1].t)
			if !ok || !ascii(lit) {
				return vc.libFresh(c.fn, c.rt)
			}
			s := c.args[0].t
			r := vc.fresh("containsany", "Bool")
			var or []string
			for _, ch := range lit {
				or = append(or, fmt.Sprintf("(= (sat %s k) %d)", s, ch))
			}
			w := vc.fresh("where", "Int")
			vc.fact(tImp(r, tAnd(app("<=", "0", w), app("<", w, app("slen.s", s)), strings.ReplaceAll(tOr(or...), " k)", " "+w+")"))))
			vc.fact(tImp(tNot(r), fmt.Sprintf("(forall ((k Int)) (! (=> (and (<= 0 k) (< k (slen.s %s))) (not %s)) :pattern ((sat %s k))))", s, tOr(or...), s)))
			return boolVal(r)
		},
		"strings.Index":     func(vc *VC, fr *Frame, c *libCall) Val { return vc.strIndex(c, false) },
		"strings.Contains":  strPred("strcontains"),
		"strings.HasPrefix": strPrefix,
		"strings.HasSuffix": strPred("strhassuffix"),
		"strings.EqualFold": strPred("strequalfold"),
		"strings.ToLower":   strFun("strlower"),
		"strings.Repeat": func(vc *VC, fr *Frame, c *libCall) Val {
			vc.oblig("safety", "count of strings.Repeat not negative", app(">=", c.args[1].t, "0"), c.pos, nil)
			vc.u.fun("strrepeat", "(Str Int) Str")
			return Val{t: app("strrepeat", c.args[0].t, c.args[1].t), typ: c.rt}
		},
		"strings.ToUpper":       strFun("strupper"),
		"strings.IndexByte":     func(vc *VC, fr *Frame, c *libCall) Val { return vc.strIndexByte(c, false) },
		"strings.IndexRune":     func(vc *VC, fr *Frame, c *libCall) Val { return vc.strIndexByte(c, false) },
		"strings.LastIndexByte": func(vc *VC, fr *Frame, c *libCall) Val { return vc.strIndexByte(c, true) },
		"strings.TrimSpace":     func(vc *VC, fr *Frame, c *libCall) Val { return Val{t: vc.trim(c.args[0].t), typ: c.rt} },
		"strings.Split": func(vc *VC, fr *Frame, c *libCall) Val {
			s := vc.makeSliceUnknown(types.Typ[types.String])
			vc.fact(app(">=", sLen(s), "1"))
			vc.u.fun("split.n", "(Str Str) Int")
			vc.u.fun("split.at", "(Str Str Int) Str")
			vc.fact(tEq(sLen(s), app("split.n", c.args[0].t, c.args[1].t)))
			n, srt := vc.hMem(types.Typ[types.String])
			el := app(vc.u.at(types.Typ[types.String]), vc.heapGet(n, srt), sArr(s), sOff(s), "i")
			vc.fact(fmt.Sprintf("(forall ((i Int)) (! (=> (and (<= 0 i) (< i %s)) (= %s (split.at %s %s i))) :pattern (%s)))", sLen(s), el, c.args[0].t, c.args[1].t, el))
			return Val{t: s, typ: c.rt}
		},
		"strconv.Atoi": func(vc *VC, fr *Frame, c *libCall) Val {
			r := vc.libFresh(c.fn, c.rt)
			vc.u.fun("atoi.ok", "(Str) Bool")
			vc.u.fun("atoi.val", "(Str) Int")
			ok := app("atoi.ok", c.args[0].t)
			vc.fact(tEq(tEq(app("itag", r.tup[1].t), "0"), ok))
			vc.fact(tImp(ok, tEq(r.tup[0].t, app("atoi.val", c.args[0].t))))
			return r
		},
		"strconv.ParseFloat": func(vc *VC, fr *Frame, c *libCall) Val {
			r := vc.libFresh(c.fn, c.rt)
			vc.u.fun("float.ok", "(Str) Bool")
			vc.u.fun("float.val", "(Str) Real")
			if c.args[1].t != "64" {
				return r
			}
			ok := app("float.ok", c.args[0].t)
			vc.fact(tEq(tEq(app("itag", r.tup[1].t), "0"), ok))
			vc.fact(tImp(ok, tEq(r.tup[0].t, app("float.val", c.args[0].t))))
			return r
		},
		"math.Round": func(vc *VC, fr *Frame, c *libCall) Val {
			vc.u.fun("float.round", "(Real) Real")
			return Val{t: app("float.round", c.args[0].t), typ: c.rt}
		},
		"os.IsNotExist": func(vc *VC, fr *Frame, c *libCall) Val {
			vc.u.fun("notexist", "(Iface) Bool", Axiom{"notexist", "(forall ((e Iface)) (! (=> (notexist e) (not (= (itag e) 0))) :pattern ((notexist e))))"})
			return boolVal(app("notexist", c.args[0].t))
		},
		"path/filepath.Join": func(vc *VC, fr *Frame, c *libCall) Val {
			r := vc.libFresh(c.fn, c.rt)
			vc.u.fun("pathjoin", "(Str Str) Str")
			n, srt := vc.hMem(types.Typ[types.String])
			el := func(i string) string {
				return app(vc.u.at(types.Typ[types.String]), vc.heapGet(n, srt), sArr(c.args[0].t), sOff(c.args[0].t), i)
			}
			vc.fact(tImp(tEq(sLen(c.args[0].t), "2"), tEq(r.t, app("pathjoin", el("0"), el("1")))))
			return r
		},

		"sort.Slice":       func(vc *VC, fr *Frame, c *libCall) Val { return vc.sortSlice(fr, c, false) },
		"sort.SliceStable": func(vc *VC, fr *Frame, c *libCall) Val { return vc.sortSlice(fr, c, true) },

		"(*sync.RWMutex).RLock":   lockOp("rlock"),
		"(*sync.RWMutex).RUnlock": lockOp("runlock"),
		"(*sync.RWMutex).Lock":    lockOp("lock"),
		"(*sync.RWMutex).Unlock":  lockOp("unlock"),

		"net/url.Parse": func(vc *VC, fr *Frame, c *libCall) Val {
			r := vc.libFresh(c.fn, c.rt)
			u, e := r.tup[0].t, r.tup[1].t
			vc.u.fun("url.ok", "(Str) Bool")
			vc.u.fun("url.scheme", "(Str) Str")
			vc.u.fun("url.path", "(Str) Str")
			s := c.args[0].t
			vc.fact(tEq(tEq(app("itag", e), "0"), app("url.ok", s)))
			vc.fact(tImp(app("url.ok", s), app(">", u, "0")))
			vc.fact(tImp(tNot(app("url.ok", s)), tEq(u, "0")))
			st := types.Unalias(r.tup[0].typ).Underlying().(*types.Pointer).Elem()
			vc.fact(tImp(app("url.ok", s), tAnd(tEq(vc.readField(st, "Scheme", u), app("url.scheme", s)), tEq(vc.readField(st, "Path", u), app("url.path", s)))))
			return r
		},
		// a scanner gives the lines of its file, one after another, up to the end (or an error)
		"bufio.NewScanner": func(vc *VC, fr *Frame, c *libCall) Val {
			r := vc.newRef("scanner")
			h, srt := vc.scanHeap()
			vc.heapSet(h, srt, tSto(vc.heapGet(h, srt), r, "0"))
			vc.u.fun("scanfile", "(Int) Iface")
			vc.fact(tEq(app("scanfile", r), c.args[0].t))
			vc.u.fun("scanof", "(Iface) Int")
			if f, ok := c.args[0].orig, c.args[0].orig != nil; ok && f.t != "" {
				vc.fact(tEq(app("scanof", app("scanfile", r)), f.t))
			}
			return Val{t: r, typ: c.rt}
		},
		"(*bufio.Scanner).Scan": func(vc *VC, fr *Frame, c *libCall) Val {
			vc.nilCheck(c.args[0], c.pos, "Scanner")
			h, srt := vc.scanHeap()
			r := vc.libFresh(c.fn, c.rt)
			n := tSel(vc.heapGet(h, srt), c.args[0].t)
			vc.u.fun("scanend", "(Int Int) Bool")
			vc.fact(tEq(r.t, tNot(app("scanend", c.args[0].t, n))))
			vc.heapSet(h, srt, tSto(vc.heapGet(h, srt), c.args[0].t, tAdd(n, tIte(r.t, "1", "0"))))
			return r
		},
		"(*bufio.Scanner).Text": func(vc *VC, fr *Frame, c *libCall) Val {
			vc.nilCheck(c.args[0], c.pos, "Scanner")
			h, srt := vc.scanHeap()
			vc.u.fun("scanline", "(Int Int) Str")
			return Val{t: app("scanline", c.args[0].t, tSel(vc.heapGet(h, srt), c.args[0].t)), typ: c.rt}
		},
		"(*bufio.Scanner).Err": func(vc *VC, fr *Frame, c *libCall) Val {
			vc.nilCheck(c.args[0], c.pos, "Scanner")
			vc.u.fun("scanerr", "(Int) Iface")
			r := vc.libFresh(c.fn, c.rt)
			vc.fact(tEq(r.t, app("scanerr", c.args[0].t)))
			return r
		},
		"os.Open": func(vc *VC, fr *Frame, c *libCall) Val {
			r := vc.libFresh(c.fn, c.rt)
			vc.u.fun("openerr", "(Str) Iface")
			vc.u.fun("openname", "(Int) Str")
			vc.fact(tEq(r.tup[1].t, app("openerr", c.args[0].t)))
			vc.fact(tImp(tEq(app("itag", r.tup[1].t), "0"), tAnd(app(">", r.tup[0].t, "0"), tEq(app("openname", r.tup[0].t), c.args[0].t))))
			return r
		},
		"regexp.MustCompile": func(vc *VC, fr *Frame, c *libCall) Val {
			r := vc.libFresh(c.fn, c.rt)
			vc.fact(app(">", r.t, "0"))
			lit, ok := vc.litOf(c.args[0].t)
			if ok {
				_, err := regexp.Compile(lit)
				ok = err == nil
			}
			if !ok {
				vc.doPanic(fr, c.pos, "regexp.MustCompile")
			}
			vc.u.fun("regexp.text", "(Int) Str")
			vc.fact(tEq(app("regexp.text", r.t), c.args[0].t))
			return r
		},
		"(*regexp.Regexp).FindString": func(vc *VC, fr *Frame, c *libCall) Val {
			vc.nilCheck(c.args[0], c.pos, "Regexp")
			// [a-z]+:.* : whatever is found, if any, has a letter and then a colon
			r := vc.libFresh(c.fn, c.rt)
			w := vc.fresh("colon", "Int")
			vc.u.fun("regexp.text", "(Int) Str")
			vc.u.fun("regexp.find", "(Str Str) Str")
			vc.fact(tEq(r.t, app("regexp.find", app("regexp.text", c.args[0].t), c.args[1].t)))
			vc.fact(tImp(tAnd(tEq(app("regexp.text", c.args[0].t), vc.u.str("[a-z]+:.*")), app(">", app("slen.s", r.t), "0")),
				tAnd(app("<=", "1", w), app("<", w, app("slen.s", r.t)), tEq(app("sat", r.t, w), "58"))))
			return r
		},
		"time.Parse": func(vc *VC, fr *Frame, c *libCall) Val {
			vc.u.fun("time.parse.ok", "(Str Str) Bool")
			vc.u.fun("time.parse", "(Str Str) Time")
			r := vc.libFresh(c.fn, c.rt)
			ok := app("time.parse.ok", c.args[0].t, c.args[1].t)
			vc.fact(tEq(tEq(app("itag", r.tup[1].t), "0"), ok))
			vc.fact(tEq(r.tup[0].t, tIte(ok, app("time.parse", c.args[0].t, c.args[1].t), zeroTime)))
			return r
		},
		"strings.ReplaceAll": func(vc *VC, fr *Frame, c *libCall) Val {
			vc.u.fun("strreplaceall", "(Str Str Str) Str")
			if a, ok := vc.litOf(c.args[1].t); ok && len(a) == 1 && a[0] < 128 {
				if b, ok := vc.litOf(c.args[2].t); ok && len(b) == 1 {
					r := vc.name("replaced", "Str", app("strreplaceall", c.args[0].t, c.args[1].t, c.args[2].t))
					vc.fact(tEq(app("slen.s", r), app("slen.s", c.args[0].t)))
					vc.fact(fmt.Sprintf("(forall ((i Int)) (! (=> (and (<= 0 i) (< i (slen.s %s))) (= (sat %s i) (ite (= (sat %s i) %d) %d (sat %s i)))) :pattern ((sat %s i))))",
						r, r, c.args[0].t, a[0], b[0], c.args[0].t, r))
					return Val{t: r, typ: c.rt}
				}
			}
			return Val{t: app("strreplaceall", c.args[0].t, c.args[1].t, c.args[2].t), typ: c.rt}
		},
		"fmt.Sprintf": sprintf,
	}
}

func lockOp(op string) func(vc *VC, fr *Frame, c *libCall) Val {
	return func(vc *VC, fr *Frame, c *libCall) Val {
		// ghost state of the lock: 0 free, -1 writing, n>0 readers
		h := "ghost.lock"
		m := c.args[0].t
		if m == "" {
			vc.fail("lock which is not a variable")
		}
		vc.pr.heapSorts[h] = "(Array Int Int)"
		arr := vc.heapGet(h, "(Array Int Int)")
		s := tSel(arr, m)
		defer func() { vc.trusted["sync.RWMutex (mutual exclusion; ghost state of the lock)"] = true }()
		switch op {
		case "rlock":
			vc.oblig("safety", "lock: not already held", tEq(s, "0"), c.pos, nil)
			vc.st.heap[h] = tSto(arr, m, "1")
		case "lock":
			vc.oblig("safety", "lock: not already held", tEq(s, "0"), c.pos, nil)
			vc.st.heap[h] = tSto(arr, m, "(- 1)")
		case "runlock":
			vc.oblig("safety", "lock: held for reading", tEq(s, "1"), c.pos, nil)
			vc.st.heap[h] = tSto(arr, m, "0")
		case "unlock":
			vc.oblig("safety", "lock: held for writing", tEq(s, "(- 1)"), c.pos, nil)
			vc.st.heap[h] = tSto(arr, m, "0")
		}
		return Val{typ: c.rt}
	}
}

func ascii(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] >= 128 {
			return false
		}
	}
	return true
}

func (vc *VC) litOf(t string) (string, bool) {
	for _, s := range vc.u.strVals {
		if vc.u.strs[s] == t {
			return s, true
		}
	}
	return "", false
}

func nonNil(vc *VC, fr *Frame, c *libCall) Val {
	r := vc.freshVal("err", c.rt)
	vc.fact(app(">", app("itag", r.t), "0"))
	return r
}

func noReturn(vc *VC, fr *Frame, c *libCall) Val {
	vc.branch("false")
	return Val{typ: c.rt}
}

func bigNew(vc *VC, fr *Frame, c *libCall) Val {
	r := vc.newRef("big")
	n, s := vc.bigHeap()
	vc.heapSet(n, s, tSto(vc.heapGet(n, s), r, c.args[0].t))
	return Val{t: r, typ: c.rt}
}

func bigOp(f func(a, b string) string, div bool) func(vc *VC, fr *Frame, c *libCall) Val {
	return func(vc *VC, fr *Frame, c *libCall) Val {
		n, s := vc.bigHeap()
		h := vc.heapGet(n, s)
		a, b := vc.name("ba", "Int", tSel(h, c.args[1].t)), vc.name("bb", "Int", tSel(h, c.args[2].t))
		if div {
			vc.oblig("safety", "division-by-zero", tNot(tEq(b, "0")), c.pos, nil)
		}
		r := vc.name("bigr", "Int", f(a, b))
		vc.heapSet(n, s, tSto(h, c.args[0].t, r))
		return Val{t: c.args[0].t, typ: c.rt}
	}
}

func bigOp1(f func(a string) string) func(vc *VC, fr *Frame, c *libCall) Val {
	return func(vc *VC, fr *Frame, c *libCall) Val {
		n, s := vc.bigHeap()
		h := vc.heapGet(n, s)
		vc.heapSet(n, s, tSto(h, c.args[0].t, f(tSel(h, c.args[1].t))))
		return Val{t: c.args[0].t, typ: c.rt}
	}
}

func (vc *VC) isSpace(c string) string {
	vc.u.fun("isspace", "(Int) Bool", Axiom{"isspace", "(forall ((c Int)) (! (=> (and (<= 0 c) (< c 128)) (= (isspace c) (or (and (<= 9 c) (<= c 13)) (= c 32)))) :pattern ((isspace c))))"})
	return app("isspace", c)
}

func strPred(f string) func(vc *VC, fr *Frame, c *libCall) Val {
	return func(vc *VC, fr *Frame, c *libCall) Val {
		vc.u.fun(f, "(Str Str) Bool")
		return boolVal(app(f, c.args[0].t, c.args[1].t))
	}
}

func strFun(f string) func(vc *VC, fr *Frame, c *libCall) Val {
	return func(vc *VC, fr *Frame, c *libCall) Val {
		vc.u.fun(f, "(Str) Str")
		return Val{t: app(f, c.args[0].t), typ: c.rt}
	}
}

func strPrefix(vc *VC, fr *Frame, c *libCall) Val {
	lit, ok := vc.litOf(c.args[1].t)
	if !ok || len(lit) > 16 {
		return strPred("strhasprefix")(vc, fr, c)
	}
	cs := []string{app(">=", app("slen.s", c.args[0].t), fmt.Sprint(len(lit)))}
	for i := 0; i < len(lit); i++ {
		cs = append(cs, tEq(app("sat", c.args[0].t, fmt.Sprint(i)), fmt.Sprint(lit[i])))
	}
	return boolVal(tAnd(cs...))
}

func (vc *VC) trim(s string) string {
	vc.isSpace("0")
	vc.u.fun("trim.lo", "(Str) Int",
		Axiom{"trim", "(forall ((s Str)) (! (and (<= 0 (trim.lo s)) (<= (trim.lo s) (trim.hi s)) (<= (trim.hi s) (slen.s s)) (=> (< (trim.lo s) (trim.hi s)) (and (not (isspace (sat s (trim.lo s)))) (or (>= (sat s (- (trim.hi s) 1)) 128) (not (isspace (sat s (- (trim.hi s) 1)))))))) :pattern ((trim.lo s))))"},
		Axiom{"trim-removed", "(forall ((s Str) (k Int)) (! (=> (and (<= 0 k) (< k (slen.s s)) (or (< k (trim.lo s)) (>= k (trim.hi s)))) (or (>= (sat s k) 128) (isspace (sat s k)))) :pattern ((trim.lo s) (sat s k))))"})
	vc.u.fun("trim.hi", "(Str) Int")
	return vc.name("trim", "Str", app("ssub", s, app("trim.lo", s), app("trim.hi", s)))
}

func (vc *VC) strIndex(c *libCall, last bool) Val {
	s, sub := c.args[0].t, c.args[1].t
	lit, ok := vc.litOf(sub)
	r := vc.fresh("idx", "Int")
	n := app("slen.s", s)
	if !ok || len(lit) == 0 || len(lit) > 16 {
		vc.fact(tAnd(app("<=", "(- 1)", r), tOr(tEq(r, "(- 1)"), app("<=", app("+", r, app("slen.s", sub)), n))))
		return Val{t: r, typ: c.rt}
	}
	match := func(k string) string {
		var cs []string
		for i := 0; i < len(lit); i++ {
			cs = append(cs, tEq(app("sat", s, tAdd(k, fmt.Sprint(i))), fmt.Sprint(lit[i])))
		}
		return tAnd(cs...)
	}
	vc.fact(tOr(tEq(r, "(- 1)"), tAnd(app("<=", "0", r), app("<=", app("+", r, fmt.Sprint(len(lit))), n), match(r))))
	vc.fact(fmt.Sprintf("(forall ((k Int)) (! (=> (and (<= 0 k) (<= (+ k %d) (slen.s %s)) (or (< %s 0) (< k %s))) (not %s)) :pattern ((sat %s k))))", len(lit), s, r, r, match("k"), s))
	return Val{t: r, typ: c.rt}
}

func (vc *VC) scanHeap() (string, string) {
	vc.pr.heapSorts["ScanN"] = "(Array Int Int)"
	return "ScanN", "(Array Int Int)"
}

func (vc *VC) strIndexByte(c *libCall, last bool) Val {
	s, b := c.args[0].t, c.args[1].t
	r := vc.fresh("idx", "Int")
	n := app("slen.s", s)
	vc.fact(tOr(tEq(r, "(- 1)"), tAnd(app("<=", "0", r), app("<", r, n), tEq(app("sat", s, r), b))))
	cmp := "<"
	if last {
		cmp = ">"
	}
	vc.fact(fmt.Sprintf("(forall ((k Int)) (! (=> (and (<= 0 k) (< k (slen.s %s)) (or (< %s 0) (%s k %s))) (not (= (sat %s k) %s))) :pattern ((sat %s k))))", s, r, cmp, r, s, b, s))
	return Val{t: r, typ: c.rt}
}

func (vc *VC) makeSliceUnknown(elem types.Type) string {
	heap, srt := vc.hMem(elem)
	at := vc.u.at(elem)
	arr := vc.newRef("arr")
	h := vc.heapGet(heap, srt)
	h2 := vc.fresh(heap, srt)
	vc.fact(fmt.Sprintf("(forall ((a Int) (o Int) (i Int)) (! (=> (not (= a %s)) (= (%s %s a o i) (%s %s a o i))) :pattern ((%s %s a o i))))", arr, at, h2, at, h, at, h2))
	vc.st.heap[heap] = h2
	n := vc.fresh("n", "Int")
	vc.fact(app(">=", n, "0"))
	return mkS(arr, "0", n, n)
}

// sortSlice implements sort.Slice and sort.SliceStable.
func (vc *VC) sortSlice(fr *Frame, c *libCall, stable bool) Val {
	if c.args[0].orig == nil || c.args[1].fn == nil {
		vc.fail("sort.Slice of unknown slice")
	}
	sv := c.args[0].orig
	sl, ok := types.Unalias(sv.typ).Underlying().(*types.Slice)
	if !ok {
		vc.fail("sort.Slice of %v", sv.typ)
	}
	el := sl.Elem()
	less := c.args[1].fn
	s := sv.t
	heap, srt := vc.hMem(el)
	at := vc.u.at(el)
	h := vc.heapGet(heap, srt)
	n := sLen(s)
	bt := types.Typ[types.Bool]
	it := types.Typ[types.Int]
	// the comparison is safe for any two elements
	{
		i, j := vc.fresh("si", "Int"), vc.fresh("sj", "Int")
		saveN, saveS := vc.cur, vc.st
		vc.st = vc.st.clone()
		vc.branch(tAnd(app("<=", "0", i), app("<", i, n), app("<=", "0", j), app("<", j, n)))
		vc.callFn(fr, less, []Val{{t: i, typ: it}, {t: j, typ: it}}, bt, c.pos)
		for k, v := range vc.st.heap {
			if k != "alloc" && k != "BigVal" && saveS.heap[k] != v && saveS.heap[k] != "" {
				vc.fail("sort comparison modifies %s", k)
			}
		}
		vc.cur, vc.st = saveN, saveS
	}
	pureLess := func(i, j string) string {
		vc.pure++
		save := vc.cur
		vc.cur = &Node{reach: "true"}
		saveSt := vc.st
		vc.st = vc.st.clone()
		r := vc.callFn(fr, less, []Val{{t: i, typ: it}, {t: j, typ: it}}, bt, c.pos)
		vc.cur, vc.st = save, saveSt
		vc.pure--
		return r.t
	}
	in := func(xs ...string) string {
		var cs []string
		for _, x := range xs {
			cs = append(cs, app("<=", "0", x), app("<", x, n))
		}
		return tAnd(cs...)
	}
	// it must be a strict weak order
	p := func(E, i string) string { return app(at, E, sArr(s), sOff(s), i) }
	vc.oblig("safety", "sort: strict weak order", tAnd(
		fmt.Sprintf("(forall ((qi Int)) (=> %s (not %s)))", in("qi"), pureLess("qi", "qi")),
		fmt.Sprintf("(forall ((qi Int) (qj Int) (qk Int)) (=> (and %s %s %s) %s))", in("qi", "qj", "qk"), pureLess("qi", "qj"), pureLess("qj", "qk"), pureLess("qi", "qk")),
		fmt.Sprintf("(forall ((qi Int) (qj Int) (qk Int)) (=> (and %s (not %s) (not %s)) (not %s)))", in("qi", "qj", "qk"), pureLess("qi", "qj"), pureLess("qj", "qk"), pureLess("qi", "qk")),
	), c.pos, nil)
	h2 := vc.fresh(heap, srt)
	vc.nname++
	perm := fmt.Sprintf("perm!%d", vc.nname)
	inv := fmt.Sprintf("perminv!%d", vc.nname)
	vc.u.fun(perm, "(Int) Int")
	vc.u.fun(inv, "(Int) Int")
	vc.fact(fmt.Sprintf("(forall ((a Int) (o Int) (i Int)) (! (=> (or (not (= a %s)) (< (+ o i) %s) (>= (+ o i) (+ %s %s))) (= (%s %s a o i) (%s %s a o i))) :pattern ((%s %s a o i))))",
		sArr(s), sOff(s), sOff(s), n, at, h2, at, h, at, h2))
	vc.fact(fmt.Sprintf("(forall ((qi Int)) (! (=> %s (and (<= 0 (%s qi)) (< (%s qi) %s) (= %s %s) (= (%s (%s qi)) qi))) :pattern (%s)))",
		in("qi"), perm, perm, n, p(h2, "qi"), p(h, "("+perm+" qi)"), inv, perm, p(h2, "qi")))
	vc.fact(fmt.Sprintf("(forall ((qi Int)) (! (=> %s (and (<= 0 (%s qi)) (< (%s qi) %s) (= %s %s) (= (%s (%s qi)) qi))) :pattern (%s) :pattern ((%s qi))))",
		in("qi"), inv, inv, n, p(h2, "("+inv+" qi)"), p(h, "qi"), perm, inv, p(h, "qi"), inv))
	vc.st.heap[heap] = h2
	l1 := pureLess("qj", "qi")
	vc.fact(fmt.Sprintf("(forall ((qi Int) (qj Int)) (! (=> (and %s (< qi qj)) (not %s)) :pattern (%s %s)))", in("qi", "qj"), l1, p(h2, "qi"), p(h2, "qj")))
	if stable {
		l2 := pureLess("qi", "qj")
		vc.fact(fmt.Sprintf("(forall ((qi Int) (qj Int)) (! (=> (and %s (< qi qj) (not %s)) (< (%s qi) (%s qj))) :pattern (%s %s)))", in("qi", "qj"), l2, perm, perm, p(h2, "qi"), p(h2, "qj")))
	}
	if vc.dry == 0 {
		vc.lastPerm[sortNumber(fr.fn, c.pos)] = perm
	}
	return Val{typ: c.rt}
}

// sprintf models the formats made of text, %d and %08d (of integers) and %s (of strings), with itoa and ipad8, whose
// properties are stated in the contracts.  The result of other formats is unknown.
func sprintf(vc *VC, fr *Frame, c *libCall) Val {
	unknown := vc.libFresh(c.fn, c.rt)
	f, ok := vc.litOf(c.args[0].t)
	if !ok || vc.pr.sp.funs["itoa"] == nil || vc.pr.sp.funs["ipad8"] == nil {
		return unknown
	}
	el := types.NewInterfaceType(nil, nil)
	hn, hs := vc.hMem(el)
	mem := vc.heapGet(hn, hs)
	res := ""
	add := func(t string) {
		if res == "" {
			res = t
		} else {
			res = app("scat", res, t)
		}
	}
	text := ""
	narg := 0
	for i := 0; i < len(f); {
		if f[i] != '%' {
			text += f[i : i+1]
			i++
			continue
		}
		if text != "" {
			add(vc.u.str(text))
			text = ""
		}
		verb := ""
		for _, v := range []string{"%d", "%08d", "%s"} {
			if strings.HasPrefix(f[i:], v) {
				verb = v
			}
		}
		if verb == "" {
			return unknown
		}
		i += len(verb)
		e := vc.u.elem(mem, el, c.args[1].t, fmt.Sprint(narg))
		narg++
		p := vc.fresh("fmt", "Str")
		if verb == "%s" {
			t := types.Typ[types.String]
			vc.fact(tImp(tEq(app("itag", e), vc.u.tag(t)), tEq(p, vc.fromIface(e, t))))
		} else {
			n := map[string]string{"%d": "itoa", "%08d": "ipad8"}[verb]
			vc.declareFun(vc.pr.sp.funs[n])
			for _, k := range []types.BasicKind{types.Int, types.Int64, types.Uint64, types.Uint} {
				t := types.Typ[k]
				vc.fact(tImp(tEq(app("itag", e), vc.u.tag(t)), tEq(p, app(n, vc.fromIface(e, t)))))
			}
		}
		add(p)
	}
	if text != "" {
		add(vc.u.str(text))
	}
	if res == "" {
		return unknown
	}
	return Val{t: vc.name("sprintf", "Str", res), typ: c.rt}
}

// sortNumber is the number of a call to sort in its function, in the order of the source.
func sortNumber(fn *ssa.Function, pos token.Pos) int {
	n := 0
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if call, ok := in.(*ssa.Call); ok && call.Pos() < pos {
				if f := call.Call.StaticCallee(); f != nil && f.Pkg != nil && f.Pkg.Pkg.Path() == "sort" {
					n++
				}
			}
		}
	}
	return n
}

// a flag of the command line, and the variable which receives it
type flagPlace struct {
	fun  string // the contract function which gives its value
	name string
	lv   *LV
}

func flagVar(fun string) func(vc *VC, fr *Frame, c *libCall) Val {
	return func(vc *VC, fr *Frame, c *libCall) Val {
		if vc.pr.sp.funs[fun] == nil || vc.pr.sp.funs["flaggiven"] == nil {
			vc.fail("contracts must declare %s and flaggiven", fun)
		}
		p, name := c.args[1], c.args[2]
		if fun == "flaglist" {
			if p.orig == nil {
				vc.fail("flag in an unknown place")
			}
			// the method Set of the variable must add the text to the list, which its contract states
			t := types.Unalias(p.orig.typ)
			pt, ok := t.Underlying().(*types.Pointer)
			if !ok || pt.Elem().Underlying().String() != "[]string" {
				vc.fail("flag in a %s", t)
			}
			if vc.pr.specs["("+t.String()+").Set"] == nil {
				vc.fail("flag in a %s, whose method Set has no contract", t)
			}
			p = *p.orig
		}
		if p.lv == nil {
			vc.fail("flag in an unknown place")
		}
		if fun != "flaglist" {
			vc.storeLV(p.lv, Val{t: c.args[3].t, typ: p.lv.ptyp})
		}
		if vc.flags == nil {
			vc.flags = map[string][]flagPlace{}
		}
		vc.flags[c.args[0].t] = append(vc.flags[c.args[0].t], flagPlace{fun, name.t, p.lv})
		return Val{typ: c.rt}
	}
}

// flagParse gives each variable the value in the arguments, if there is one.
func flagParse(vc *VC, fr *Frame, c *libCall) Val {
	fs, args := c.args[0].t, c.args[1].t
	for _, f := range vc.flags[fs] {
		vc.declareFun(vc.pr.sp.funs["flaggiven"])
		vc.declareFun(vc.pr.sp.funs[f.fun])
		old := vc.loadLV(f.lv)
		v := vc.name("flag", vc.u.sortOf(f.lv.ptyp), tIte(app("flaggiven", f.name, args), app(f.fun, f.name, args), old.t))
		vc.storeLV(f.lv, Val{t: v, typ: f.lv.ptyp})
	}
	r := vc.freshVal("rest", c.args[1].typ)
	if vc.flagRest == nil {
		vc.flagRest = map[string]string{}
	}
	vc.flagRest[fs] = r.t
	return vc.libFresh(c.fn, c.rt)
}
