package ledger

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/cespedes/accounting"
)

type cPost struct {
	trans int
	acc   string
	when  time.Time
	own   bool
	cur   string
	n     int64 // cents
}

type cBook struct {
	accs  []string
	posts []cPost
	trans []time.Time
	file  string
	text  string
}

// genBook writes a journal with simple formats.
func (h *H) genBook(own bool) *cBook {
	b := &cBook{}
	curs := []string{"EUR", "USD", []string{"GBP", "usd"}[h.r.Intn(2)]}[:1+h.r.Intn(3)]
	var s strings.Builder
	for _, c := range curs {
		fmt.Fprintf(&s, "commodity 1000.00 %s\n", c)
	}
	fmt.Fprintf(&s, "D 1000.00 EUR\n")
	for i, n := 0, 2+h.r.Intn(5); i < n; i++ {
		a := fmt.Sprintf("acc%d", i)
		if i > 0 && h.r.Intn(2) == 0 {
			a = b.accs[h.r.Intn(i)] + ":" + a
		}
		b.accs = append(b.accs, a)
		fmt.Fprintf(&s, "account %s\n", a)
	}
	at := time.Date(2019, time.Month(11+h.r.Intn(2)), 1+h.r.Intn(28), 12, 0, 0, 0, time.UTC)
	for i, n := 0, h.r.Intn(9); i < n; i++ {
		switch h.r.Intn(5) {
		case 0:
		case 1:
			at = at.Add(time.Duration(h.r.Intn(50000)) * time.Second)
		case 2:
			y, m, d := at.AddDate(0, 0, 1).Date()
			at = time.Date(y, m, d, 0, 0, 0, 0, time.UTC)
		case 3:
			at = at.AddDate(0, 0, h.r.Intn(40))
		case 4: // the last second of the month
			y, m, _ := at.Date()
			x := time.Date(y, m+1, 1, 0, 0, 0, 0, time.UTC).Add(-time.Second)
			if !x.Before(at) {
				at = x
			}
		}
		b.trans = append(b.trans, at)
		fmt.Fprintf(&s, "%s tr%d.\n", at.Format("2006-01-02/15:04:05"), i)
		c := curs[h.r.Intn(len(curs))]
		var sum int64
		for k, m := 0, 2+h.r.Intn(2); k < m; k++ {
			p := cPost{trans: i, acc: b.accs[h.r.Intn(len(b.accs))], when: at, cur: c, n: h.r.Int63n(2001) - 1000}
			if k == m-1 {
				p.n = -sum
			}
			sum += p.n
			x := p.n
			sign := ""
			if x < 0 {
				sign, x = "-", -x
			}
			fmt.Fprintf(&s, "  %s  %s%d.%02d %s", p.acc, sign, x/100, x%100, c)
			if own && h.r.Intn(4) == 0 {
				p.own = true
				p.when = at.AddDate(0, 0, h.r.Intn(60)-20)
				fmt.Fprintf(&s, " ; date:%s", p.when.Format("2006-01-02/15:04:05"))
			}
			fmt.Fprintln(&s)
			b.posts = append(b.posts, p)
		}
		if h.r.Intn(4) == 0 && len(curs) > 1 {
			fmt.Fprintf(&s, "P %s %s %d.50 EUR\n", at.Format("2006-01-02/15:04:05"), curs[1], 1+h.r.Intn(3))
		}
	}
	b.text = s.String()
	b.file = filepath.Join(scratchDir(), "book")
	os.WriteFile(b.file, []byte(b.text), 0o644)
	return b
}

// withTransfer adds the postings of the transfer account.
func (b *cBook) withTransfer() []cPost {
	ps := append([]cPost(nil), b.posts...)
	for _, p := range b.posts {
		if p.own {
			ps = append(ps, cPost{p.trans, transferName, p.when, false, p.cur, -p.n}, cPost{p.trans, transferName, b.trans[p.trans], false, p.cur, p.n})
		}
	}
	return ps
}

const transferName = "Assets:Transfer account"

func runLedger(args ...string) (string, error) {
	bin := os.Getenv("VERIF_LEDGER")
	if bin == "" {
		return "", fmt.Errorf("no binary")
	}
	c := exec.Command(bin, args...)
	c.Env = append(os.Environ(), "LEDGER_FILE=")
	var out, errb bytes.Buffer
	c.Stdout, c.Stderr = &out, &errb
	err := c.Run()
	if err != nil {
		return out.String(), fmt.Errorf("%v: %s", err, errb.String())
	}
	if errb.Len() > 0 {
		return out.String(), fmt.Errorf("message: %s", errb.String())
	}
	return out.String(), nil
}

var amountRE = regexp.MustCompile(`(-?)(\d+)\.(\d\d) ([A-Za-z]{3})`)

// amounts reads a list of amounts in cents.
func amounts(s string) map[string]int64 {
	m := map[string]int64{}
	for _, x := range amountRE.FindAllStringSubmatch(s, -1) {
		a, _ := strconv.ParseInt(x[2], 10, 64)
		c, _ := strconv.ParseInt(x[3], 10, 64)
		n := a*100 + c
		if x[1] == "-" {
			n = -n
		}
		if _, ok := m[x[4]]; ok {
			m["twice "+x[4]] = n
		}
		m[x[4]] = n
	}
	return m
}

func sameAmounts(a, b map[string]int64) bool {
	for c, n := range a {
		if b[c] != n {
			return false
		}
	}
	for c, n := range b {
		if a[c] != n {
			return false
		}
	}
	return true
}

// period gives random flags for a period and the moments they mean (to: the first moment after it).
func (h *H) period(b *cBook) (args []string, from, to time.Time) {
	mid := func() time.Time {
		if len(b.posts) > 0 && h.r.Intn(4) > 0 {
			p := b.posts[h.r.Intn(len(b.posts))]
			return p.when
		}
		return time.Date(2019, 12, 1, 0, 0, 0, 0, time.UTC).AddDate(0, 0, h.r.Intn(200))
	}
	s := string("-/."[h.r.Intn(3)])
	if h.r.Intn(4) > 0 {
		t := mid()
		y, m, d := t.Date()
		var txt string
		switch h.r.Intn(5) {
		case 0:
			txt, from = t.Format("2006"), time.Date(y, 1, 1, 0, 0, 0, 0, time.UTC)
		case 1:
			txt, from = t.Format("2006"+s+"01"), time.Date(y, m, 1, 0, 0, 0, 0, time.UTC)
		case 2, 3:
			txt, from = t.Format("2006"+s+"01"+s+"02"), time.Date(y, m, d, 0, 0, 0, 0, time.UTC)
		case 4:
			txt, from = t.Format("2006-01-02/15:04:05"), t
		}
		args = append(args, "-b", txt)
	}
	if h.r.Intn(4) > 0 {
		t := mid()
		if !from.IsZero() && t.Before(from) {
			t = from
		}
		y, m, d := t.Date()
		var txt string
		switch h.r.Intn(5) {
		case 0:
			txt, to = t.Format("2006"), time.Date(y+1, 1, 1, 0, 0, 0, 0, time.UTC)
		case 1:
			txt, to = t.Format("2006"+s+"01"), time.Date(y, m+1, 1, 0, 0, 0, 0, time.UTC)
		case 2, 3:
			txt, to = t.Format("2006"+s+"01"+s+"02"), time.Date(y, m, d+1, 0, 0, 0, 0, time.UTC)
		case 4:
			txt, to = t.Format("2006-01-02/15:04:05"), t.Add(time.Second)
		}
		args = append(args, "-e", txt)
	}
	return
}

func inPeriod(t, from, to time.Time) bool {
	return !t.Before(from) && (to.IsZero() || t.Before(to))
}

func TestVerifP15(t *testing.T) {
	search(t, "random journals and periods given to the command line: transactions printed, changes and final balances of each account; non-trivial: two or more transactions", func(h *H) {
		b := h.genBook(h.r.Intn(2) == 0)
		for k := 0; k < 5; k++ {
			per, from, to := h.period(b)
			base := append([]string{"-f", b.file}, per...)
			what := h.r.Intn(4)
			acc := b.accs[h.r.Intn(len(b.accs))]
			if h.r.Intn(8) == 0 {
				acc = transferName
			}
			cmd := [][]string{{"print"}, {"delta", acc}, {"balance"}, {"-total", "balance"}}[what]
			h.input(len(b.trans) > 1, "%s%s %s", b.text, strings.Join(per, " "), strings.Join(cmd, " "))
			out, err := runLedger(append(base, cmd...)...)
			if err != nil {
				h.fail("cli", "%v", err)
				return
			}
			switch what {
			case 0:
				var want, got []string
				for i, x := range b.trans {
					if inPeriod(x, from, to) {
						want = append(want, fmt.Sprintf("tr%d.", i))
					}
				}
				got = regexp.MustCompile(`tr\d+\.`).FindAllString(out, -1)
				if !sameStrings(got, want) {
					h.fail("transactions", "transactions %v, expected %v", got, want)
				}
			case 1:
				want := map[string]int64{}
				for _, p := range b.withTransfer() {
					if strings.Contains(strings.ToLower(p.acc), strings.ToLower(acc)) && inPeriod(p.when, from, to) {
						want[p.cur] += p.n
					}
				}
				if got := amounts(out); !sameAmounts(got, want) {
					h.fail("changes", "changes of %q: %q, expected %v cents", acc, out, want)
				}
			default:
				// the final balance: everything before the end
				want := map[string]map[string]int64{}
				total := map[string]int64{}
				for _, p := range b.withTransfer() {
					if to.IsZero() || p.when.Before(to) {
						if want[p.acc] == nil {
							want[p.acc] = map[string]int64{}
						}
						want[p.acc][p.cur] += p.n
						total[p.cur] += p.n
					}
				}
				if what == 3 {
					if got := amounts(out); !sameAmounts(got, total) {
						h.fail("total", "total %q, expected %v", out, total)
					}
					return
				}
				rows, tot := readBalances(out)
				for _, a := range append(append([]string(nil), b.accs...), transferName) {
					n := a[strings.LastIndexByte(a, ':')+1:]
					if a == transferName {
						n = a
					}
					if !sameAmounts(rows[n], want[a]) {
						h.fail("balance", "balance of %q: %v, expected %v cents", a, rows[n], want[a])
					}
				}
				if !sameAmounts(tot, total) {
					h.fail("total", "total %v, expected %v", tot, total)
				}
			}
		}
	})
}

// readBalances reads the balance report: amounts for each short name, and the total.
func readBalances(out string) (map[string]map[string]int64, map[string]int64) {
	rows := map[string]map[string]int64{}
	total := map[string]int64{}
	var pend []string
	inTotal := false
	for _, l := range strings.Split(strings.TrimRight(out, "\n"), "\n") {
		if strings.Trim(l, "-") == "" {
			inTotal = true
			continue
		}
		loc := amountRE.FindStringIndex(l)
		if inTotal {
			for c, n := range amounts(l) {
				if _, ok := total[c]; ok {
					c = "twice " + c
				}
				total[c] = n
			}
			continue
		}
		name := strings.TrimSpace(l)
		if loc != nil && strings.TrimSpace(l[:loc[0]]) == "" {
			pend = append(pend, l[loc[0]:loc[1]])
			name = strings.TrimSpace(l[loc[1]:])
			if name == "" {
				continue
			}
		}
		m := map[string]int64{}
		for _, p := range pend {
			for c, n := range amounts(p) {
				if _, ok := m[c]; ok {
					c = "twice " + c
				}
				m[c] = n
			}
		}
		pend = nil
		if _, ok := rows[name]; ok {
			name = "again " + name
		}
		rows[name] = m
	}
	return rows, total
}

func TestVerifP16(t *testing.T) {
	search(t, "random journals, balance reports of everything or of some names, of one currency, or of the total; non-trivial: two or more transactions", func(h *H) {
		b := h.genBook(h.r.Intn(3) == 0)
		if h.r.Intn(3) == 0 && strings.Contains(b.text, "USD") { // an account which may be worth nothing
			at := time.Date(2024, 1, 1, 0, 0, 0, 0, time.UTC)
			b.accs = append(b.accs, "accx")
			n := 100 * (1 + h.r.Int63n(3))
			b.text += fmt.Sprintf("account accx\nP 2024-01-01 USD 2.00 EUR\n2024-01-01/00:00:00 x\n  accx  %d.00 USD\n  acc0  -%d.00 USD\n2024-01-01/00:00:00 x\n  accx  -600.00 EUR\n  acc0  600.00 EUR\n", n, n)
			for _, c := range []cPost{{0, "accx", at, false, "USD", 100 * n}, {0, "acc0", at, false, "USD", -100 * n}, {0, "accx", at, false, "EUR", -60000}, {0, "acc0", at, false, "EUR", 60000}} {
				b.posts = append(b.posts, c)
			}
			os.WriteFile(b.file, []byte(b.text), 0o644)
		}
		final := map[string]map[string]int64{}
		all := append([]string(nil), b.accs...)
		all = append(all, transferName)
		for _, a := range all {
			final[a] = map[string]int64{}
		}
		for _, p := range b.withTransfer() {
			final[p.acc][p.cur] += p.n
		}
		for k := 0; k < 4; k++ {
			var args, names []string
			only := map[string]bool{}
			for h.r.Intn(3) == 0 { // perhaps the same one twice
				c := []string{"EUR", "USD", "GBP", "usd"}[h.r.Intn(4)]
				only[c] = true
				args = append(args, "-currency", c)
			}
			market := h.r.Intn(3) == 0
			if market {
				args = append(args, "-market")
			}
			tot := h.r.Intn(3) == 0
			if tot {
				args = append(args, "-total")
			}
			args = append(args, "balance")
			for i, n := 0, h.r.Intn(3); i < n; i++ {
				a := all[h.r.Intn(len(all))]
				if h.r.Intn(2) == 0 {
					a = a[strings.LastIndexByte(a, ':')+1:]
				}
				if h.r.Intn(3) == 0 {
					a = strings.ToUpper(a)
				}
				names = append(names, a)
			}
			args = append(args, names...)
			h.input(len(b.trans) > 1, "%s%s", b.text, strings.Join(args, " "))
			out, runErr := runLedger(append([]string{"-f", b.file}, args...)...)
			shown := func(a string) bool {
				if len(names) == 0 {
					return true
				}
				for _, n := range names {
					if strings.Contains(strings.ToLower(a), strings.ToLower(n)) {
						return true
					}
				}
				return false
			}
			// descendants come with their ancestors: a name in an ancestor is in the full name too
			want := map[string]map[string]int64{}
			total := map[string]int64{}
			var l *accounting.Ledger
			var full accounting.Balance // the total, with all its decimals
			noPrice := false
			if market {
				var err error
				if l, err = accounting.Open(b.file); err != nil {
					h.fail("open", "%v", err)
					return
				}
			}
			for _, a := range all {
				if !shown(a) {
					continue
				}
				w := map[string]int64{}
				var row accounting.Balance
				for c, n := range final[a] {
					if n == 0 || len(only) > 0 && !only[c] {
						continue
					}
					if market {
						for _, cur := range l.Currencies {
							if cur.Name == c {
								v, err := l.Convert(accounting.Value{Amount: n * 1000000, Currency: cur}, time.Now(), l.DefaultCurrency)
								if err != nil {
									noPrice = true
								}
								row.Add(v)
								full.Add(v)
							}
						}
						continue
					}
					w[c] = n
					total[c] += n
				}
				for _, v := range row {
					w = amounts(v.String())
				}
				s := a[strings.LastIndexByte(a, ':')+1:]
				if a == transferName {
					s = a
				}
				want[s] = w
			}
			if noPrice {
				if runErr == nil {
					h.fail("cli", "no error, and an amount has no price:\n%s", out)
				}
				continue
			}
			if runErr != nil {
				h.fail("cli", "%v", runErr)
				return
			}
			for _, v := range full {
				total = amounts(v.String())
			}
			if tot {
				if got := amounts(out); !sameAmounts(got, total) {
					h.fail("total", "total %q, expected %v cents", out, total)
				}
				continue
			}
			rows, tt := readBalances(out)
			if !sameAmounts(tt, total) {
				h.fail("total", "total %v, expected %v cents:\n%s", tt, total, out)
			}
			got := map[string]map[string]int64{}
			for n, r := range rows {
				s := n[strings.LastIndexByte(n, ':')+1:]
				if n == transferName {
					s = n
				}
				if strings.HasPrefix(n, "again ") {
					h.fail("twice", "%q is shown twice:\n%s", n, out)
				}
				if _, ok := got[s]; ok {
					h.fail("twice", "%q is shown twice:\n%s", s, out)
				}
				got[s] = r
			}
			for n, w := range want {
				if !sameAmounts(got[n], w) {
					h.fail("amount", "balance of %q: %v, expected %v cents:\n%s", n, got[n], w, out)
				}
			}
			for n, r := range got {
				if _, ok := want[n]; !ok {
					h.fail("extra", "unexpected account %q: %v\n%s", n, r, out)
				}
			}
		}
	})
}

// ------------------------------------------------------------------- printing

func TestVerifP22(t *testing.T) {
	search(t, "random ledgers with every format of currency, exported and compared line by line; non-trivial: two or more transactions", func(h *H) {
		o := anyOpt(h)
		o.bad = false
		m := h.genLedger(o)
		h.decorate(m)
		for i, c := range m.curs {
			c.Name = []string{"EUR", "$", "Fund A", "x"}[i]
			if c.Thousand == c.Decimal || c.Thousand == "." && c.Decimal == "" {
				c.Thousand = ""
			}
		}
		h.input(len(m.trans) > 1, "%s", m.text)
		if err := m.l.Fill(); err != nil {
			return
		}
		if h.r.Intn(3) == 0 { // postings at another moment of the day, or at its own date written apart
			for _, x := range m.l.Transactions {
				for _, s := range x.Splits {
					if h.r.Intn(4) == 0 {
						n := s.Time.Add(time.Duration(h.r.Intn(5)-2) * []time.Duration{time.Minute, time.Hour, 7 * time.Hour}[h.r.Intn(3)])
						s.Time = &n
					}
				}
			}
		}
		before := dump(m.l)
		var buf bytes.Buffer
		Export(&buf, m.l)
		if dump(m.l) != before {
			h.fail("changes", "exporting changed the ledger")
			return
		}
		full := func(v accounting.Value) string {
			c := accounting.Currency{}
			if v.Currency != nil {
				c = *v.Currency
			}
			de := c.Decimal
			if de == "" {
				de = "."
			}
			s, _ := decimalText(v.Amount, c.Precision, c.Thousand, de)
			if v.Amount < 0 {
				s = "-" + s
			}
			sp := " "
			if c.WithoutSpace {
				sp = ""
			}
			if c.PrintBefore {
				return c.Name + sp + s
			}
			if c.Name == "" {
				return s
			}
			return s + sp + c.Name
		}
		const layout = "2006-01-02/15:04"
		com := func(cs []string) []string {
			var r []string
			for _, c := range cs {
				r = append(r, "; "+c)
			}
			return r
		}
		// what must be found, in order, for transactions and for prices
		var wt, wp [][]string
		for _, t := range m.l.Transactions {
			w := append([]string{t.Time.Format(layout) + " " + t.Description}, com(m.l.Comments[t])...)
			for _, s := range t.Splits {
				w = append(w, s.Account.FullName(), full(s.Value))
				if v, ok := m.l.SplitPrices[s]; ok {
					w = append(w, "@@ "+full(v))
				}
				if v, ok := m.l.Assertions[s]; ok {
					w = append(w, "= "+full(v))
				}
				if *s.Time != t.Time {
					w = append(w, "; date:"+s.Time.Format(layout))
				}
				w = append(w, com(m.l.Comments[s])...)
			}
			wt = append(wt, w)
		}
		for _, p := range m.l.Prices {
			wp = append(wp, append([]string{"P " + p.Time.Format(layout) + " " + p.Currency.Name + " " + full(p.Value)}, com(m.l.Comments[p])...))
		}
		// blocks of the text
		var blocks []string
		for _, l := range strings.Split(buf.String(), "\n") {
			if l == "" {
				continue
			}
			if l[0] == ' ' || l[0] == '\t' {
				if len(blocks) == 0 {
					h.fail("text", "indented line first")
					return
				}
				blocks[len(blocks)-1] += "\n" + l
			} else {
				blocks = append(blocks, l)
			}
		}
		squash := func(s string) string { return strings.Join(strings.Fields(s), " ") }
		it, ip, na, nc := 0, 0, 0, 0
		last := ""
		for _, b := range blocks {
			var w []string
			switch {
			case strings.HasPrefix(b, "account "):
				if na >= len(m.l.Accounts) {
					h.fail("accounts", "too many accounts")
					return
				}
				a := m.l.Accounts[na]
				w = append([]string{"account " + a.FullName()}, com(m.l.Comments[a])...)
				na++
			case strings.HasPrefix(b, "commodity "):
				if nc >= len(m.l.Currencies) {
					h.fail("currencies", "too many currencies")
					return
				}
				c := m.l.Currencies[nc]
				w = append([]string{"commodity " + accounting.Value{Amount: 1_000_000 * accounting.U, Currency: c}.String()}, com(m.l.Comments[c])...)
				nc++
			case strings.HasPrefix(b, "P "):
				if ip >= len(wp) {
					h.fail("prices", "too many prices")
					return
				}
				w = wp[ip]
				ip++
				if len(b) > 12 && b[2:12] < last {
					h.fail("order", "%q comes after %s", b, last)
				} else if len(b) > 12 {
					last = b[2:12]
				}
			default:
				if it >= len(wt) {
					h.fail("transactions", "too many transactions")
					return
				}
				w = wt[it]
				it++
				if len(b) > 10 && b[:10] < last {
					h.fail("order", "%q comes after %s", b, last)
				} else if len(b) > 10 {
					last = b[:10]
				}
			}
			got, want := squash(b), squash(strings.Join(w, " "))
			if got != want {
				h.fail("line", "written:\n%s\nexpected:\n%s", got, want)
				return
			}
		}
		if it != len(wt) || ip != len(wp) || na != len(m.l.Accounts) || nc != len(m.l.Currencies) {
			h.fail("lost", "%d of %d transactions, %d of %d prices, %d of %d accounts, %d of %d currencies", it, len(wt), ip, len(wp), na, len(m.l.Accounts), nc, len(m.l.Currencies))
		}
	})
}
