package ledger

import (
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/cespedes/accounting"
	_ "github.com/cespedes/accounting/backend/txtdb"
)

type fakeConn struct{}

func (fakeConn) Close() error { return nil }
func (fakeConn) Refresh()     {}

// fakeDriver records what it is given.
type fakeDriver struct {
	name   string
	mu     sync.Mutex
	urls   []string
	ledger *accounting.Ledger
	err    error
	bad    bool // leaves a ledger which cannot be filled
	boom   bool
}

func (d *fakeDriver) Open(url string, b *accounting.Backend) (accounting.Connection, error) {
	d.mu.Lock()
	defer d.mu.Unlock()
	d.urls = append(d.urls, url)
	if d.boom {
		panic("driver failure")
	}
	if d.err != nil {
		return nil, d.err
	}
	d.ledger = b.Ledger
	b.Ledger.Comments = map[interface{}][]string{}
	a := &accounting.Account{Name: d.name}
	b.Ledger.Accounts = []*accounting.Account{a}
	if d.bad {
		c := &accounting.Currency{Name: "X"}
		b.Ledger.Transactions = []*accounting.Transaction{{ID: sid("t"), Splits: []*accounting.Split{{ID: sid("s"), Account: a, Value: accounting.Value{Amount: 1, Currency: c}}}}}
	}
	return fakeConn{}, nil
}

var (
	drvMu  sync.Mutex
	drvNum int
)

func newName() string {
	drvMu.Lock()
	defer drvMu.Unlock()
	drvNum++
	return fmt.Sprintf("drv%d", drvNum)
}

func panics(f func()) (p bool) {
	defer func() {
		if recover() != nil {
			p = true
		}
	}()
	f()
	return
}

// inTime runs f, and reports whether it ended.
func inTime(f func()) bool {
	done := make(chan bool, 1)
	go func() {
		defer func() { recover(); done <- true }()
		f()
	}()
	select {
	case <-done:
		return true
	case <-time.After(20 * time.Second):
		return false
	}
}

func TestVerifP20(t *testing.T) {
	drivers := map[string]*fakeDriver{}
	var names []string
	search(t, "random drivers registered and addresses opened, some of them wrong; non-trivial: every input", func(h *H) {
		if len(names) == 0 || h.r.Intn(40) == 0 && len(names) < 300 {
			d := &fakeDriver{name: newName()}
			accounting.Register(d.name, d)
			drivers[d.name] = d
			names = append(names, d.name)
		}
		n := names[h.r.Intn(len(names))]
		d := drivers[n]
		switch h.r.Intn(9) {
		case 0:
			h.input(true, "registering %s again", n)
			if !panics(func() { accounting.Register(n, &fakeDriver{name: "other"}) }) {
				h.fail("register-twice", "a second driver with the same name was accepted")
			}
			fallthrough
		case 1:
			url := n + "://host/path?x=" + fmt.Sprint(h.r.Intn(1000))
			h.input(true, "%s", url)
			d.urls, d.err, d.bad, d.ledger = nil, nil, false, nil
			l, err := accounting.Open(url)
			if err != nil || l == nil || l != d.ledger || len(d.urls) != 1 || d.urls[0] != url {
				h.fail("open", "ledger %p (%v), that of the driver %p; the driver was given %q", l, err, d.ledger, d.urls)
			}
			for m, e := range drivers {
				if m != n && len(e.urls) > 0 {
					h.fail("other", "driver %s was used", m)
				}
			}
			d.urls = nil
		case 2:
			h.input(true, "a driver which is nil")
			nm := newName()
			if !panics(func() { accounting.Register(nm, nil) }) {
				h.fail("register-nil", "a nil driver was accepted")
			}
			if _, err := accounting.Open(nm + ":x"); err == nil {
				h.fail("register-nil", "a nil driver can be opened")
			}
		case 3:
			url := n + ":" + fmt.Sprint(h.r.Intn(1000))
			h.input(true, "%s (the driver fails)", url)
			d.err = errors.New("driver error")
			l, err := accounting.Open(url)
			if l != nil || err == nil {
				h.fail("driver-error", "ledger %p, error %v", l, err)
			}
			d.err, d.urls = nil, nil
		case 4:
			url := n + ":" + fmt.Sprint(h.r.Intn(1000))
			h.input(true, "%s (its ledger cannot be filled)", url)
			d.bad = true
			l, err := accounting.Open(url)
			if l != nil || err == nil {
				h.fail("fill-error", "ledger %p, error %v", l, err)
			}
			d.bad, d.urls = false, nil
		case 5:
			url := fmt.Sprintf("unknown%d:x", h.r.Intn(100))
			h.input(true, "%s", url)
			if l, err := accounting.Open(url); l != nil || err == nil {
				h.fail("unknown", "ledger %p, error %v", l, err)
			}
		case 6:
			url := []string{":x", "%zz", "1a:b", "ht tp:x", "x\x7f:y", "drv1://[", "\x00"}[h.r.Intn(7)]
			h.input(true, "%q", url)
			if l, err := accounting.Open(url); l != nil || err == nil {
				h.fail("invalid", "ledger %p, error %v", l, err)
			}
		case 7: // plain names are files
			fn := filepath.Join(scratchDir(), fmt.Sprintf("file%d", h.r.Intn(1000)))
			k := h.r.Intn(5)
			h.input(true, "%s with %d accounts", fn, k)
			txt := ""
			for i := 0; i < k; i++ {
				txt += fmt.Sprintf("account a%d\n", i)
			}
			os.WriteFile(fn, []byte(txt), 0o644)
			l, err := accounting.Open(fn)
			if err != nil || l == nil || len(l.Accounts) != k+1 {
				h.fail("plain", "error %v", err)
			}
			os.Remove(fn)
			if l, err := accounting.Open(fn); l != nil || err == nil {
				h.fail("no-file", "ledger %p, error %v", l, err)
			}
		case 8:
			m := names[h.r.Intn(len(names))]
			url := strings.ToUpper(m) + ":x" // schemes are not sensitive to case
			h.input(true, "%s", url)
			e := drivers[m]
			e.urls, e.ledger = nil, nil
			l, err := accounting.Open(url)
			if err != nil || l != e.ledger {
				h.fail("scheme", "error %v", err)
			}
			e.urls = nil
		}
	})
}

func TestVerifP23(t *testing.T) {
	search(t, "many drivers registered and ledgers opened at once, with refusals, errors and failures in the middle; then the registry must be free; non-trivial: every input", func(h *H) {
		n := 2 + h.r.Intn(6)
		h.input(true, "%d goroutines, seed %d", n, h.seed)
		ok := inTime(func() {
			var wg sync.WaitGroup
			ops := make([][]int, n)
			for i := range ops {
				for k := 0; k < 8; k++ {
					ops[i] = append(ops[i], h.r.Intn(7))
				}
			}
			for i := 0; i < n; i++ {
				wg.Add(1)
				go func(ops []int) {
					defer wg.Done()
					mine := &fakeDriver{name: newName()}
					accounting.Register(mine.name, mine)
					for _, o := range ops {
						switch o {
						case 0:
							panics(func() { accounting.Register(mine.name, mine) })
						case 1:
							panics(func() { accounting.Register(mine.name, nil) })
						case 2:
							panics(func() { accounting.Open(mine.name + ":x") })
						case 3:
							panics(func() { accounting.Open("nobody:x") })
						case 4:
							mine.err = errors.New("x")
							panics(func() { accounting.Open(mine.name + ":x") })
							mine.err = nil
						case 5:
							mine.boom = true
							panics(func() { accounting.Open(mine.name + ":x") })
							mine.boom = false
						case 6:
							panics(func() { accounting.Open("%zz:") })
						}
					}
				}(ops[i])
			}
			wg.Wait()
		})
		if !ok {
			h.fail("deadlock", "they did not end in 20 s")
			h.stop = true
			return
		}
		// the lock is free after each kind of ending
		d := &fakeDriver{name: newName()}
		steps := []struct {
			name string
			f    func()
		}{
			{"registering", func() { accounting.Register(d.name, d) }},
			{"registering twice", func() { accounting.Register(d.name, d) }},
			{"registering nil", func() { accounting.Register("nil", nil) }},
			{"opening", func() { accounting.Open(d.name + ":x") }},
			{"opening an unknown scheme", func() { accounting.Open("nobody:x") }},
			{"opening an invalid address", func() { accounting.Open("%zz:") }},
			{"opening with an error of the driver", func() {
				d.err = errors.New("x")
				accounting.Open(d.name + ":x")
				d.err = nil
			}},
			{"opening a ledger which cannot be filled", func() {
				d.bad = true
				accounting.Open(d.name + ":x")
				d.bad = false
			}},
			{"opening with a panic in the driver", func() {
				d.boom = true
				defer func() { d.boom = false }()
				accounting.Open(d.name + ":x")
			}},
		}
		for _, s := range steps {
			if !inTime(func() { panics(s.f) }) {
				h.fail("deadlock", "%s does not end", s.name)
				h.stop = true
				return
			}
			if !inTime(func() { e := &fakeDriver{name: newName()}; accounting.Register(e.name, e) }) {
				h.fail("lock", "the registry is not free after %s", s.name)
				h.stop = true
				return
			}
		}
	})
}

func TestVerifP21(t *testing.T) {
	search(t, "random text databases, compared with what was written; missing and unreadable files; non-trivial: two or more postings", func(h *H) {
		dir := filepath.Join(scratchDir(), "db")
		os.RemoveAll(dir)
		os.MkdirAll(dir, 0o755)
		type acc struct {
			id, parent int
			name, code string
		}
		var accs []acc
		var at, tt strings.Builder
		used := map[int]bool{}
		for i, n := 0, 1+h.r.Intn(6); i < n; i++ {
			a := acc{id: 1 + h.r.Intn(50), name: fmt.Sprintf("%cname%d", 'A'+h.r.Intn(26), i), code: fmt.Sprint("c", h.r.Intn(99))}
			if used[a.id] {
				continue
			}
			used[a.id] = true
			par := ""
			if len(accs) > 0 && h.r.Intn(2) == 0 {
				a.parent = accs[h.r.Intn(len(accs))].id
				par = fmt.Sprint(a.parent)
			}
			accs = append(accs, a)
			fmt.Fprintf(&at, "%d:x:y:%s:%s:%s\n", a.id, a.name, a.code, par)
			if h.r.Intn(8) == 0 {
				at.WriteString([]string{"not an account\n", "x:x:y:bad:c:\n", "\n"}[h.r.Intn(3)])
			}
		}
		type post struct {
			acc   int
			when  time.Time
			cents int64
		}
		type trans struct {
			desc  string
			posts []post
		}
		var trs []trans
		when := time.Date(2020, 1, 1, 0, 0, 0, 0, time.UTC)
		np := 0
		bal := map[int]int64{}
		for i, n := 0, h.r.Intn(6); i < n; i++ {
			when = when.AddDate(0, 0, h.r.Intn(3))
			var tr trans
			tr.desc = fmt.Sprintf("tr %d", i)
			var sum int64
			for k, m := 0, 2+h.r.Intn(3); k < m; k++ {
				p := post{acc: accs[h.r.Intn(len(accs))].id, when: when, cents: h.r.Int63n(20_000_000) - 10_000_000}
				if h.r.Intn(3) == 0 {
					p.when = when.Add(time.Duration(h.r.Intn(1440)) * time.Minute)
				}
				if k == m-1 {
					p.cents = -sum
				}
				if p.cents == 0 || (k < m-1 && sum+p.cents == 0) {
					p.cents++
					if k == m-1 {
						p.cents = -sum
					}
				}
				sum += p.cents
				if p.cents == 0 {
					continue
				}
				sign, x := "+", p.cents
				if x < 0 {
					sign, x = "-", -x
				}
				ds := p.when.Format("2006-01-02 15.04")
				if p.when.Hour() == 0 && p.when.Minute() == 0 && h.r.Intn(2) == 0 {
					ds = p.when.Format("2006-01-02")
				}
				d := tr.desc
				if len(tr.posts) > 0 {
					d = ""
				}
				fmt.Fprintf(&tt, "%d:%s:%s:z:%d:%s%d.%02d:\n", i, ds, d, p.acc, sign, x/100, x%100)
				if h.r.Intn(15) == 0 {
					tt.WriteString([]string{"rubbish\n", "\n", "1:2:3\n"}[h.r.Intn(3)])
				}
				bal[p.acc] += p.cents
				tr.posts = append(tr.posts, p)
				np++
			}
			if sum != 0 || len(tr.posts) == 0 {
				return
			}
			trs = append(trs, tr)
		}
		os.WriteFile(filepath.Join(dir, "accounts"), []byte(at.String()), 0o644)
		mode := h.r.Intn(8)
		if mode != 1 {
			os.WriteFile(filepath.Join(dir, "transactions"), []byte(tt.String()), 0o644)
		}
		note := ""
		switch mode {
		case 0:
			note = "(no accounts file)"
			os.Remove(filepath.Join(dir, "accounts"))
		case 1:
			note = "(no transactions file)"
			trs, np = nil, 0
		case 2:
			note = "(the file of transactions has a line which is too long)"
			os.WriteFile(filepath.Join(dir, "transactions"), []byte(tt.String()+strings.Repeat("x", 70000)+"\n"), 0o644)
		case 3:
			note = "(the file of accounts has a line which is too long)"
			os.WriteFile(filepath.Join(dir, "accounts"), []byte(at.String()+strings.Repeat("x", 70000)+"\n"), 0o644)
		case 4:
			note = "(transactions is a directory)"
			os.Remove(filepath.Join(dir, "transactions"))
			os.Mkdir(filepath.Join(dir, "transactions"), 0o755)
		}
		h.input(np > 1, "accounts:\n%stransactions:\n%s%s", at.String(), tt.String(), note)
		l, err, warn := openDB(dir)
		if mode == 0 || mode == 2 || mode == 3 || mode == 4 {
			if err == nil || l != nil {
				h.fail("not-refused", "ledger %p, error %v", l, err)
			}
			return
		}
		if err != nil {
			h.fail("error", "%v (%s)", err, warn)
			return
		}
		byID := map[string]*accounting.Account{}
		n := 0
		for i, a := range l.Accounts {
			if a.ID == nil && a.Name == transferName {
				continue
			}
			n++
			byID[a.ID.String()] = a
			_ = i
		}
		if n != len(accs) {
			h.fail("accounts", "%d accounts, expected %d", n, len(accs))
			return
		}
		for _, a := range accs {
			x := byID[fmt.Sprintf("id:%d", a.id)]
			if x == nil || x.Name != a.name || x.Code != a.code {
				h.fail("account", "account %d: %+v", a.id, x)
				return
			}
			var par *accounting.Account
			if a.parent != 0 {
				par = byID[fmt.Sprintf("id:%d", a.parent)]
			}
			if x.Parent != par {
				h.fail("parent", "account %d has another parent", a.id)
			}
		}
		if len(l.Transactions) != len(trs) {
			h.fail("transactions", "%d transactions, expected %d", len(l.Transactions), len(trs))
			return
		}
		left := append([]trans(nil), trs...)
		for _, t := range l.Transactions {
			k := -1
			for i := range left {
				if left[i].desc == t.Description {
					k = i
				}
			}
			if k < 0 {
				h.fail("transaction", "transaction %q", t.Description)
				return
			}
			tr := left[k]
			left = append(left[:k], left[k+1:]...)
			if !t.Time.Equal(tr.posts[0].when) {
				h.fail("date", "transaction %q at %s, expected %s", t.Description, t.Time, tr.posts[0].when)
			}
			var ss []*accounting.Split
			for _, s := range t.Splits {
				if s.Account.ID != nil {
					ss = append(ss, s)
				}
			}
			if len(ss) != len(tr.posts) {
				h.fail("postings", "transaction %q has %d postings, expected %d", t.Description, len(ss), len(tr.posts))
				return
			}
			for i, p := range tr.posts {
				if ss[i].Account != byID[fmt.Sprintf("id:%d", p.acc)] || ss[i].Value.Amount != p.cents*1_000_000 || !ss[i].Time.Equal(p.when) {
					h.fail("posting", "%q, posting %d: %s in %s at %s, expected %d cents in %d at %s", t.Description, i, showValue(ss[i].Value), ss[i].Account.ID, ss[i].Time, p.cents, p.acc, p.when)
				}
			}
		}
	})
}
