package ledger

import (
	"bytes"
	"fmt"
	"io"
	"log"
	"math/big"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/cespedes/accounting"
)

// ------------------------------------------------------- journals as they are written

type jCur struct {
	name      string
	before    bool
	nospace   bool
	thousand  string
	decimal   string
	precision int
	comments  []string
	isin      string
	declared  bool
}

type jVal struct {
	n   int64
	cur *jCur
}

type jSplit struct {
	acc      string
	when     time.Time // zero: that of the transaction
	val      *jVal
	price    *jVal // total
	unit     *jVal // price of one unit, when it is written so
	assert   *jVal
	comments []string
}

type jTrans struct {
	when     time.Time
	desc     string
	comments []string
	splits   []*jSplit
}

type jPrice struct {
	when     time.Time
	cur      *jCur
	val      jVal
	comments []string
}

type jAcc struct {
	name     string
	code     string
	comments []string
	declared bool
}

type journal struct {
	accs   []*jAcc
	curs   []*jCur
	trans  []*jTrans
	prices []*jPrice
	def    *jCur
	files  map[string]string
	text   string
}

func (v jVal) text(h *H, extra bool) string {
	prec := v.cur.precision
	if extra {
		prec = h.r.Intn(9)
	}
	th := v.cur.thousand
	if h.r.Intn(3) == 0 {
		th = ""
	}
	s, _ := decimalText(v.n, prec, th, v.cur.decimal)
	if v.n < 0 {
		s = "-" + s
	}
	if v.cur.name == "" {
		return s
	}
	sp := ""
	if h.r.Intn(2) == 0 {
		sp = " "
	}
	if h.r.Intn(2) == 0 {
		return v.cur.name + sp + s
	}
	return s + sp + v.cur.name
}

type jBuild struct {
	h     *H
	j     *journal
	names []string // open files
	n     int
	date  time.Time
}

func (b *jBuild) line(f string, a ...interface{}) {
	fn := b.names[len(b.names)-1]
	b.j.files[fn] += fmt.Sprintf(f, a...) + "\n"
}

// cm gives a comment for the end of a line and the lines after it.
func (b *jBuild) cm(max int) (string, []string, []string) {
	var all []string
	for i, n := 0, b.h.r.Intn(max+1); i < n; i++ {
		all = append(all, []string{"note", "two words", "a; b", "50% @ = x", "Note: this", "x  y"}[b.h.r.Intn(6)]+fmt.Sprint(" ", b.h.r.Intn(100)))
	}
	if len(all) > 0 && b.h.r.Intn(2) == 0 {
		return []string{" ; ", ";", "  ;  "}[b.h.r.Intn(3)] + all[0], all[1:], all
	}
	return "", all, all
}

func (b *jBuild) more(cs []string) {
	for _, c := range cs {
		b.line("%s%s%s", []string{"\t", "  ", " "}[b.h.r.Intn(3)], []string{"; ", ";", "# ", "* "}[b.h.r.Intn(4)], c)
		b.noise()
	}
}

func (b *jBuild) noise() {
	switch b.h.r.Intn(12) {
	case 0:
		b.line("")
	case 1:
		b.line("; comment of the file")
	case 2:
		b.line("   ")
	}
}

// file opens or closes an included file
func (b *jBuild) file() {
	b.noise()
	r := b.h.r.Intn(8)
	if r == 0 && len(b.names) < 4 {
		b.n++
		cur := b.names[len(b.names)-1]
		name := fmt.Sprintf("inc%d.txt", b.n)
		full := filepath.Join(filepath.Dir(cur), name)
		if b.h.r.Intn(3) == 0 {
			name = fmt.Sprintf("sub/inc%d.txt", b.n)
			full = filepath.Join(filepath.Dir(cur), name)
		}
		b.line("include %s", name)
		b.j.files[full] = ""
		b.names = append(b.names, full)
	}
	if r == 1 && len(b.names) > 1 {
		b.names = b.names[:len(b.names)-1]
	}
}

func dateText(h *H, t time.Time) string {
	s := []string{"-", "/", "."}[h.r.Intn(3)]
	d := t.Format("2006" + s + "01" + s + "02")
	if t.Hour() == 12 && t.Minute() == 0 && t.Second() == 0 && h.r.Intn(2) == 0 {
		return d
	}
	if t.Second() != 0 {
		return d + "/" + t.Format("15:04:05")
	}
	return d + "/" + t.Format("15:04")
}

func (b *jBuild) next() time.Time {
	switch b.h.r.Intn(4) {
	case 0:
	case 1:
		b.date = b.date.Add(time.Duration(b.h.r.Intn(90)) * time.Minute)
	default:
		y, m, d := b.date.Date()
		b.date = time.Date(y, m, d+1+b.h.r.Intn(4), 12, 0, 0, 0, time.UTC)
	}
	return b.date
}

func (h *H) jamount() int64 {
	switch h.r.Intn(4) {
	case 0:
		return (h.r.Int63n(200001) - 100000) * 1_000_000
	case 1:
		return (h.r.Int63n(2001) - 1000) * accounting.U
	case 2:
		return h.r.Int63n(2_000_000_000_000_000) - 1_000_000_000_000_000
	}
	return h.r.Int63n(2001) - 1000
}

type jOpt struct {
	undeclared bool // accounts which are not declared
	ownDates   bool
	zeroOK     bool
}

// genJournal writes a journal without mistakes.
func (h *H) genJournal(o jOpt) *journal {
	j := &journal{files: map[string]string{"main.txt": ""}}
	b := &jBuild{h: h, j: j, names: []string{"main.txt"}, date: day(0)}
	for i, n := 0, 1+h.r.Intn(3); i < n; i++ {
		c := &jCur{name: []string{"EUR", "$", "Fund A"}[i], before: h.r.Intn(2) == 0, nospace: h.r.Intn(2) == 0, precision: []int{2, 0, 4, 8, 1}[h.r.Intn(5)], declared: true}
		c.thousand = []string{",", ".", "_", "'"}[h.r.Intn(4)]
		c.decimal = []string{".", ","}[h.r.Intn(2)]
		if c.thousand == c.decimal {
			c.decimal = map[string]string{",": ".", ".": ","}[c.thousand]
		}
		if h.r.Intn(3) == 0 {
			c.thousand, c.decimal = "", "."
		}
		num := "1000000"
		if c.thousand != "" {
			num = group(num, c.thousand)
		}
		if c.precision > 0 {
			num += c.decimal + "00000000"[:c.precision]
		} else if c.thousand == "," || c.thousand == "_" || c.thousand == "'" || c.thousand == "" {
			c.decimal = "."
		} else {
			c.decimal = ","
		}
		sp := " "
		if c.nospace {
			sp = ""
		}
		s := num + sp + c.name
		if c.before {
			s = c.name + sp + num
		}
		inl, rest, all := b.cm(2)
		if h.r.Intn(4) == 0 {
			c.isin = fmt.Sprint("X", h.r.Intn(100))
			rest = append(rest, "isin:"+c.isin)
		}
		c.comments = all
		b.line("commodity %s%s", s, inl)
		b.more(rest)
		b.file()
		j.curs = append(j.curs, c)
	}
	if h.r.Intn(3) == 0 {
		j.def = j.curs[h.r.Intn(len(j.curs))]
		b.line("D %s", jVal{1_000 * accounting.U, j.def}.text(h, false))
		b.file()
	}
	seen := map[string]*jAcc{}
	var addAcc func(name string, declared bool) *jAcc
	addAcc = func(name string, declared bool) *jAcc {
		if a := seen[name]; a != nil {
			return a
		}
		if i := strings.LastIndexByte(name, ':'); i >= 0 {
			addAcc(name[:i], false)
		}
		a := &jAcc{name: name, declared: declared}
		seen[name] = a
		j.accs = append(j.accs, a)
		return a
	}
	tops := []string{"Assets", "Income", "Expense", "Equity x"}
	for i, n := 0, 1+h.r.Intn(6); i < n; i++ {
		name := tops[h.r.Intn(4)]
		for h.r.Intn(2) == 0 && len(name) < 40 {
			name += ":" + []string{"Bank", "Cash", "Two words", "A"}[h.r.Intn(4)]
		}
		if seen[name] != nil {
			continue
		}
		a := addAcc(name, true)
		inl, rest, all := b.cm(2)
		if h.r.Intn(4) == 0 {
			a.code = fmt.Sprint("C", h.r.Intn(100))
			if inl == "" && len(rest) == 0 && h.r.Intn(2) == 0 {
				inl = " ; code:" + a.code
			} else {
				rest = append(rest, "code:"+a.code)
			}
		}
		a.comments = all
		b.line("account %s%s", name, inl)
		b.more(rest)
		b.file()
	}
	bal := map[string]map[*jCur]int64{}
	pool := append([]*jAcc(nil), j.accs...)
	for i, n := 0, h.r.Intn(7); i < n; i++ {
		b.file()
		if h.r.Intn(4) == 0 {
			p := &jPrice{when: b.next(), cur: j.curs[h.r.Intn(len(j.curs))], val: jVal{h.jamount(), j.curs[h.r.Intn(len(j.curs))]}}
			if strings.Contains(p.cur.name, " ") { // a price needs a currency of one word
				continue
			}
			inl, rest, all := b.cm(2)
			p.comments = all
			b.line("P %s %s %s%s", dateText(h, p.when), p.cur.name, p.val.text(h, true), inl)
			b.more(rest)
			j.prices = append(j.prices, p)
			continue
		}
		t := &jTrans{when: b.next(), desc: []string{"Shop", "two words", "(x) a - b", "", "100 @ = 3"}[h.r.Intn(5)]}
		if t.desc != "" {
			t.desc += fmt.Sprint(" ", h.r.Intn(50))
		}
		inl, rest, all := b.cm(2)
		t.comments = all
		b.line("%s", strings.TrimRight(dateText(h, t.when)+" "+t.desc, " ")+inl)
		b.more(rest)
		sum := map[*jCur]int64{}
		var ss []*jSplit
		for k, m := 0, 1+h.r.Intn(3); k < m; k++ {
			s := &jSplit{acc: pool[h.r.Intn(len(pool))].name, val: &jVal{h.jamount(), j.curs[h.r.Intn(len(j.curs))]}}
			if h.r.Intn(4) == 0 {
				s.price = &jVal{h.jamount(), j.curs[h.r.Intn(len(j.curs))]}
				if h.r.Intn(2) == 0 {
					s.unit = &jVal{s.price.n, s.price.cur}
					x := new(big.Int).Mul(big.NewInt(s.val.n), big.NewInt(s.unit.n))
					x.Quo(x, big.NewInt(accounting.U))
					if x.BitLen() > 55 {
						s.unit = nil
					} else {
						s.price.n = x.Int64()
					}
				}
				sum[s.price.cur] += s.price.n
			} else {
				sum[s.val.cur] += s.val.n
			}
			ss = append(ss, s)
		}
		for _, c := range j.curs {
			if sum[c] != 0 {
				ss = append(ss, &jSplit{acc: pool[h.r.Intn(len(pool))].name, val: &jVal{-sum[c], c}})
			}
		}
		h.r.Shuffle(len(ss), func(x, y int) { ss[x], ss[y] = ss[y], ss[x] })
		gap := h.r.Intn(len(ss) + 2) // the posting whose amount is not written
		for k, s := range ss {
			if o.undeclared && h.r.Intn(3) == 0 {
				s.acc = tops[h.r.Intn(4)] + ":new " + fmt.Sprint(h.r.Intn(3))
				addAcc(s.acc, false)
			}
			if bal[s.acc] == nil {
				bal[s.acc] = map[*jCur]int64{}
			}
			bal[s.acc][s.val.cur] += s.val.n
			line := []string{"  ", "\t", " "}[h.r.Intn(3)] + s.acc
			if k == gap && s.price == nil {
				s.val = nil
				if h.r.Intn(3) == 0 {
					line += "  "
				}
			} else {
				line += []string{"  ", "    "}[h.r.Intn(2)] + s.val.text(h, true)
				if s.price != nil {
					if s.unit != nil {
						line += []string{" @ ", "@", "  @  "}[h.r.Intn(3)] + s.unit.text(h, true)
					} else {
						line += []string{" @@ ", "@@", "  @@  "}[h.r.Intn(3)] + s.price.text(h, true)
					}
				}
				if !o.ownDates && h.r.Intn(4) == 0 {
					s.assert = &jVal{bal[s.acc][s.val.cur], s.val.cur}
					line += []string{" = ", "=", "  =  "}[h.r.Intn(3)] + s.assert.text(h, true)
				}
			}
			inl, rest, all := b.cm(2)
			s.comments = all
			if o.ownDates && h.r.Intn(4) == 0 {
				s.when = day(h.r.Intn(20))
				if inl == "" && h.r.Intn(2) == 0 {
					inl = " ; date:" + dateText(h, s.when)
				} else {
					rest = append(rest, "date:"+dateText(h, s.when))
				}
			}
			b.line("%s%s", line, inl)
			b.more(rest)
			t.splits = append(t.splits, s)
		}
		j.trans = append(j.trans, t)
	}
	var fs []string
	for f := range j.files {
		fs = append(fs, f)
	}
	sort.Strings(fs)
	for _, f := range fs {
		j.text += "--- " + f + "\n" + j.files[f]
	}
	return j
}

func scratchDir() string {
	if d := os.Getenv("VERIF_SCRATCH"); d != "" {
		return d
	}
	d, _ := os.MkdirTemp("", "verif-search-")
	os.Setenv("VERIF_SCRATCH", d)
	return d
}

// write puts the files of a journal in an empty directory and returns the main one.
func (j *journal) write() string {
	d := filepath.Join(scratchDir(), "j")
	os.RemoveAll(d)
	os.MkdirAll(filepath.Join(d, "sub/sub/sub/sub"), 0o755)
	for f, s := range j.files {
		os.MkdirAll(filepath.Dir(filepath.Join(d, f)), 0o755)
		os.WriteFile(filepath.Join(d, f), []byte(s), 0o644)
	}
	return filepath.Join(d, "main.txt")
}

type exitNow struct{ msg string }

type logCatcher struct{ buf bytes.Buffer }

func (l *logCatcher) Write(p []byte) (int, error) {
	l.buf.Write(p)
	for _, m := range []string{"is not chronologically sorted", "account already defined"} {
		if strings.Contains(string(p), m) { // log.Fatalf comes next
			panic(exitNow{string(p)})
		}
	}
	return len(p), nil
}

// openJournal opens a ledger file; exit tells whether the program would have ended with a message.
func openJournal(fn string) (l *accounting.Ledger, err error, warnings string, exit bool) {
	lc := &logCatcher{}
	log.SetOutput(lc)
	out := os.Stdout
	r, w, _ := os.Pipe()
	os.Stdout = w
	got := make(chan string, 1)
	go func() {
		b, _ := io.ReadAll(r)
		got <- string(b)
	}()
	defer func() {
		os.Stdout = out
		w.Close()
		warnings = lc.buf.String() + <-got
		r.Close()
		log.SetOutput(os.Stderr)
		if e := recover(); e != nil {
			if _, ok := e.(exitNow); ok {
				exit = true
				return
			}
			panic(e)
		}
	}()
	l, err = accounting.Open("ledger:" + fn)
	return
}

func sameStrings(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func trimAll(s []string) []string {
	var r []string
	for _, x := range s {
		r = append(r, strings.TrimSpace(x))
	}
	return r
}

func TestVerifP18(t *testing.T) {
	search(t, "random journals without mistakes, written with every kind of entry, included files and comments, compared with what was meant; non-trivial: one or more transactions", func(h *H) {
		o := jOpt{undeclared: h.r.Intn(3) == 0, ownDates: h.r.Intn(3) == 0}
		j := h.genJournal(o)
		h.input(len(j.trans) > 0, "%s", j.text)
		l, err, warn, exit := openJournal(j.write())
		if exit {
			h.fail("exit", "the program ends: %s", warn)
			return
		}
		if err != nil {
			h.fail("error", "%v (%s)", err, warn)
			return
		}
		if o.undeclared {
			for _, w := range strings.Split(strings.TrimSpace(warn), "\n") {
				if w != "" && !strings.Contains(w, "undefined account") {
					h.fail("warning", "%s", w)
				}
			}
		} else if warn != "" {
			h.fail("warning", "%s", warn)
			return
		}
		// currencies
		curs := map[*jCur]*accounting.Currency{}
		if len(l.Currencies) != len(j.curs) {
			h.fail("currencies", "%d currencies, expected %d", len(l.Currencies), len(j.curs))
			return
		}
		for i, c := range j.curs {
			x := l.Currencies[i]
			curs[c] = x
			if x.Name != c.name || x.PrintBefore != c.before || x.WithoutSpace != c.nospace || x.Decimal != c.decimal || x.Precision != c.precision || x.ISIN != c.isin || x.Thousand != c.thousand {
				h.fail("currency", "currency %+v, expected %+v", *x, *c)
			}
			if !sameStrings(l.Comments[x], trimAll(c.comments)) {
				h.fail("currency-comments", "comments of %s: %q, expected %q", c.name, l.Comments[x], c.comments)
			}
		}
		if j.def == nil && l.DefaultCurrency != nil || j.def != nil && l.DefaultCurrency != curs[j.def] {
			h.fail("default", "wrong default currency")
		}
		// accounts
		byName := map[string]*accounting.Account{}
		for _, a := range l.Accounts {
			n := a.FullName()
			if n == "Assets:Transfer account" && a.Name == n {
				continue
			}
			if byName[n] != nil {
				h.fail("accounts", "account %q twice", n)
			}
			byName[n] = a
		}
		if len(byName) != len(j.accs) {
			h.fail("accounts", "%d accounts, expected %d", len(byName), len(j.accs))
		}
		for _, a := range j.accs {
			x := byName[a.name]
			if x == nil {
				h.fail("accounts", "no account %q", a.name)
				return
			}
			if x.Code != a.code {
				h.fail("account", "code of %q: %q, expected %q", a.name, x.Code, a.code)
			}
			if !sameStrings(l.Comments[x], trimAll(a.comments)) {
				h.fail("account-comments", "comments of %q: %q, expected %q", a.name, l.Comments[x], a.comments)
			}
			if i := strings.LastIndexByte(a.name, ':'); i >= 0 && x.Parent != byName[a.name[:i]] || i < 0 && x.Parent != nil {
				h.fail("account-parent", "parent of %q", a.name)
			}
		}
		// prices
		var ps []*accounting.Price
		for _, p := range l.Prices {
			if cs := l.Comments[p]; p.ID == nil && len(cs) == 1 && cs[0] == "automatic" {
				continue
			}
			ps = append(ps, p)
		}
		if len(ps) != len(j.prices) {
			h.fail("prices", "%d prices, expected %d", len(ps), len(j.prices))
			return
		}
		for i, p := range j.prices {
			x := ps[i]
			if !x.Time.Equal(p.when) || x.Currency != curs[p.cur] || x.Value.Amount != p.val.n || x.Value.Currency != curs[p.val.cur] {
				h.fail("price", "price %d: %s %s %s", i, x.Time, cname(x.Currency), showValue(x.Value))
			}
			if !sameStrings(l.Comments[x], trimAll(p.comments)) {
				h.fail("price-comments", "comments of price %d: %q, expected %q", i, l.Comments[x], p.comments)
			}
		}
		// transactions
		if len(l.Transactions) != len(j.trans) {
			h.fail("transactions", "%d transactions, expected %d", len(l.Transactions), len(j.trans))
			return
		}
		ncom, nass, npri := 0, 0, 0
		for i, t := range j.trans {
			x := l.Transactions[i]
			if !x.Time.Equal(t.when) || x.Description != t.desc {
				h.fail("transaction", "transaction %d: %s %q, expected %s %q", i, x.Time, x.Description, t.when, t.desc)
			}
			if !sameStrings(l.Comments[x], trimAll(t.comments)) {
				h.fail("transaction-comments", "comments of transaction %d: %q, expected %q", i, l.Comments[x], t.comments)
			}
			var ss []*accounting.Split
			for _, s := range x.Splits {
				if s.Account != nil && byName[s.Account.FullName()] == s.Account {
					ss = append(ss, s)
				}
			}
			if len(ss) != len(t.splits) {
				h.fail("postings", "transaction %d has %d postings, expected %d", i, len(ss), len(t.splits))
				return
			}
			for k, s := range t.splits {
				y := ss[k]
				if y.Account != byName[s.acc] {
					h.fail("posting-account", "posting %d.%d in %q, expected %q", i, k, y.Account.FullName(), s.acc)
				}
				if s.val != nil && (y.Value.Amount != s.val.n || y.Value.Currency != curs[s.val.cur]) {
					h.fail("posting-value", "posting %d.%d: %s, expected %d %s", i, k, showValue(y.Value), s.val.n, s.val.cur.name)
				}
				w := t.when
				if !s.when.IsZero() {
					w = s.when
				}
				if y.Time == nil || !y.Time.Equal(w) {
					h.fail("posting-date", "posting %d.%d at %s, expected %s", i, k, y.Time, w)
				}
				if !sameStrings(l.Comments[y], trimAll(s.comments)) {
					h.fail("posting-comments", "comments of posting %d.%d: %q, expected %q", i, k, l.Comments[y], s.comments)
				}
				v, ok := l.SplitPrices[y]
				if ok != (s.price != nil) || ok && (v.Amount != s.price.n || v.Currency != curs[s.price.cur]) {
					h.fail("posting-price", "stated price of posting %d.%d: %v %s", i, k, ok, showValue(v))
				}
				if ok {
					npri++
				}
				v, ok = l.Assertions[y]
				if ok != (s.assert != nil) || ok && (v.Amount != s.assert.n || v.Currency != curs[s.assert.cur]) {
					h.fail("posting-assertion", "assertion of posting %d.%d: %v %s", i, k, ok, showValue(v))
				}
				if ok {
					nass++
				}
			}
		}
		if len(l.Assertions) != nass || len(l.SplitPrices) != npri {
			h.fail("extra", "%d assertions, expected %d; %d stated prices, expected %d", len(l.Assertions), nass, len(l.SplitPrices), npri)
		}
		_ = ncom
	})
}

// damage changes a text here and there
func (h *H) damage(s string) string {
	b := []byte(s)
	for i, n := 0, 1+h.r.Intn(4); i < n; i++ {
		ls := bytes.Split(b, []byte("\n"))
		k := h.r.Intn(len(ls))
		switch h.r.Intn(6) {
		case 0: // remove a line
			ls = append(ls[:k], ls[k+1:]...)
		case 1: // repeat a line elsewhere
			m := h.r.Intn(len(ls))
			ls = append(ls[:k], append([][]byte{append([]byte(nil), ls[m]...)}, ls[k:]...)...)
		case 2, 3: // change a character
			if len(ls[k]) > 0 {
				l := append([]byte(nil), ls[k]...)
				const set = "0123456789 -+.,@=;:#*PD\t\"a%\xff\x00€"
				p := h.r.Intn(len(l))
				switch h.r.Intn(3) {
				case 0:
					l[p] = set[h.r.Intn(len(set))]
				case 1:
					l = append(l[:p], l[p+1:]...)
				case 2:
					l = append(l[:p], append([]byte{set[h.r.Intn(len(set))]}, l[p:]...)...)
				}
				ls[k] = l
			}
		case 4: // a line of its own
			x := []string{"include main.txt", "include nowhere", "include", "account", "account ", "account :", "account a::b", "commodity", "commodity x", "D", "D x", "P", "P 2020-01-01", "P 2020-01-01 EUR", "P 2020-01-01 EUR ;x",
				"  x", "  x  ", "  x  = ", "  x  @", "  x  @@", "  x  1@", "  x  1@@", "  x  = 3 EUR", "  x  1 EUR @ 2 $ = 3 EUR", "  x  =@", "  x  1=@2", "  x  @ 1 = 1", "  ; alone", ";", " ;date:2020-01-01", "\t; date:x", "2020-01-01", "9999-01-01 x", "  :  1", "  x:y:  5", "\xff", "  x  = =", "  x  1 EUR = 2 @ 3",
				"P 2020-01-01 EUR 1000000000000 $", "  x  90000000000 EUR @ 90000000000 $", "  x  -92233720368.54775808 EUR", "include ../j/main.txt", "include /dev/null", "include .", "  x  0 EUR @@ 0 $", "  x  1 @ ", "D 5", "commodity 5", "commodity ; isin:X1", "  x  1.123456789 NEW", "  x  1,000.123456789012 N2", "commodity 0.0000000001 N3", "P 2020-01-01 N4 1.0000000000 N5", "D 1.000000000", "commodity ;x", "  x ; date:x", "P 2020-01-01 ; a:b", "account ; code:1", "  x  1 @ ; date:2020-01-01"}
			ls = append(ls[:k], append([][]byte{[]byte(x[h.r.Intn(len(x))])}, ls[k:]...)...)
		case 5:
			if h.r.Intn(40) == 0 {
				ls = append(ls, bytes.Repeat([]byte("x"), 70000))
			} else if k > 0 {
				ls[k], ls[k-1] = ls[k-1], ls[k]
			}
		}
		b = bytes.Join(ls, []byte("\n"))
		if len(b) == 0 {
			return ""
		}
	}
	return string(b)
}

// coherent checks what every ledger read from a journal must satisfy.
func coherent(l *accounting.Ledger) string {
	accs := map[*accounting.Account]bool{}
	trs := map[*accounting.Transaction]bool{}
	curs := map[*accounting.Currency]bool{l.DefaultCurrency: true}
	for _, c := range l.Currencies {
		if c == nil {
			return "nil currency"
		}
		if c.Precision < 0 || c.Precision > 8 {
			return fmt.Sprintf("currency %s with %d decimals", c.Name, c.Precision)
		}
		curs[c] = true
	}
	for _, a := range l.Accounts {
		if a == nil {
			return "nil account"
		}
		if a.Parent != nil && !accs[a.Parent] {
			return "account " + a.FullName() + " is before its parent"
		}
		if accs[a] {
			return "account " + a.FullName() + " twice"
		}
		accs[a] = true
	}
	for _, t := range l.Transactions {
		trs[t] = true
	}
	for _, t := range l.Transactions {
		for _, s := range t.Splits {
			if s.Account == nil || !accs[s.Account] {
				return "posting in an account which is not in the ledger"
			}
			if s.Transaction != t {
				return "posting of another transaction"
			}
			if s.Time == nil {
				return "posting without date"
			}
			if s.Value.Currency == nil {
				return "amount without currency"
			}
			if s.Value.Amount != 0 && !curs[s.Value.Currency] && s.Value.Currency.Name != "" {
				return "amount in a currency which is not in the ledger"
			}
		}
	}
	for _, p := range l.Prices {
		if p.Currency == nil || !curs[p.Currency] && p.Currency.Name != "" {
			return "price of a currency which is not in the ledger"
		}
		if p.Value.Amount != 0 && !curs[p.Value.Currency] && (p.Value.Currency == nil || p.Value.Currency.Name != "") {
			return "price in a currency which is not in the ledger"
		}
	}
	for _, m := range []map[*accounting.Split]accounting.Value{l.Assertions, l.SplitPrices} {
		for s, v := range m {
			_ = s
			if v.Amount != 0 && !curs[v.Currency] && (v.Currency == nil || v.Currency.Name != "") {
				return "assertion or stated price in a currency which is not in the ledger"
			}
		}
	}
	return ""
}

func TestVerifP17(t *testing.T) {
	search(t, "random journals damaged in several places; non-trivial: three or more lines", func(h *H) {
		j := h.genJournal(jOpt{undeclared: h.r.Intn(2) == 0, ownDates: h.r.Intn(2) == 0})
		text := ""
		for f, s := range j.files {
			if h.r.Intn(4) > 0 {
				s = h.damage(s)
				j.files[f] = s
			}
			text += "--- " + f + "\n" + s
		}
		h.input(strings.Count(text, "\n") > 2, "%s", text)
		fn := j.write()
		l, err, _, exit := openJournal(fn)
		if exit {
			return // the program ends with a message
		}
		if err == nil && l == nil {
			h.fail("nothing", "neither a ledger nor an error")
			return
		}
		if err != nil {
			if l != nil {
				h.fail("both", "a ledger and an error: %v", err)
			}
			return
		}
		if e := coherent(l); e != "" {
			h.fail("incoherent", "%s", e)
		}
	})
}

// openDB opens a text database.
func openDB(dir string) (l *accounting.Ledger, err error, warnings string) {
	var b bytes.Buffer
	log.SetOutput(&b)
	defer func() {
		log.SetOutput(os.Stderr)
		warnings = b.String()
	}()
	l, err = accounting.Open("txtdb:" + dir)
	return
}
