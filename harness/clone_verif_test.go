package ledger

import (
	"fmt"
	"reflect"
	"testing"
	"time"

	"github.com/cespedes/accounting"
)

// cloneCheck walks two ledgers at once.
type cloneCheck struct {
	h    *H
	to   map[uintptr]uintptr
	from map[uintptr]uintptr
	bad  string
}

func (c *cloneCheck) fail(path, f string, a ...interface{}) {
	if c.bad == "" {
		c.bad = path + ": " + fmt.Sprintf(f, a...)
	}
}

func (c *cloneCheck) same(path string, x, y reflect.Value) {
	if c.bad != "" {
		return
	}
	if x.Type() == reflect.TypeOf(time.Time{}) {
		if x.CanInterface() && x.Interface().(time.Time) != y.Interface().(time.Time) {
			c.fail(path, "different moment")
		}
		return
	}
	switch x.Kind() {
	case reflect.Ptr:
		if x.IsNil() || y.IsNil() {
			if x.IsNil() != y.IsNil() {
				c.fail(path, "nil in one of them only")
			}
			return
		}
		px, py := x.Pointer(), y.Pointer()
		if px == py {
			c.fail(path, "shared")
			return
		}
		if x.Type().Elem() == reflect.TypeOf(time.Time{}) {
			if !x.Elem().Interface().(time.Time).Equal(y.Elem().Interface().(time.Time)) {
				c.fail(path, "different moment")
			}
			return
		}
		if q, ok := c.to[px]; ok {
			if q != py {
				c.fail(path, "not the same relation")
			}
			return
		}
		if _, ok := c.from[py]; ok {
			c.fail(path, "two objects became one")
			return
		}
		c.to[px], c.from[py] = py, px
		c.same(path, x.Elem(), y.Elem())
	case reflect.Struct:
		for i := 0; i < x.NumField(); i++ {
			f := x.Type().Field(i)
			if f.PkgPath != "" {
				continue
			}
			c.same(path+"."+f.Name, x.Field(i), y.Field(i))
		}
	case reflect.Slice:
		if x.Len() != y.Len() {
			c.fail(path, "%d elements and %d", x.Len(), y.Len())
			return
		}
		if x.Cap() > 0 && y.Cap() > 0 && x.Pointer() == y.Pointer() && x.Type().Elem().Size() > 0 {
			c.fail(path, "the list is shared")
			return
		}
		for i := 0; i < x.Len(); i++ {
			c.same(fmt.Sprintf("%s[%d]", path, i), x.Index(i), y.Index(i))
		}
	case reflect.Interface:
		if x.IsNil() || y.IsNil() {
			if x.IsNil() != y.IsNil() {
				c.fail(path, "nil in one of them only")
			}
			return
		}
		if x.Interface() != y.Interface() {
			c.fail(path, "different: %v and %v", x.Interface(), y.Interface())
		}
	case reflect.Map:
		// handled apart
	default:
		if x.Interface() != y.Interface() {
			c.fail(path, "different: %v and %v", x.Interface(), y.Interface())
		}
	}
}

func cloneDiff(h *H, l, k *accounting.Ledger) string {
	c := &cloneCheck{h: h, to: map[uintptr]uintptr{}, from: map[uintptr]uintptr{}}
	c.same("ledger", reflect.ValueOf(*l), reflect.ValueOf(*k))
	if c.bad != "" {
		return c.bad
	}
	ptr := func(x interface{}) uintptr { return reflect.ValueOf(x).Pointer() }
	if len(l.Comments) != len(k.Comments) || len(l.Assertions) != len(k.Assertions) || len(l.SplitPrices) != len(k.SplitPrices) {
		return fmt.Sprintf("comments %d and %d, assertions %d and %d, stated prices %d and %d", len(l.Comments), len(k.Comments), len(l.Assertions), len(k.Assertions), len(l.SplitPrices), len(k.SplitPrices))
	}
	kc := map[uintptr][]string{}
	for w, s := range k.Comments {
		kc[ptr(w)] = s
	}
	for w, s := range l.Comments {
		s2, ok := kc[c.to[ptr(w)]]
		if !ok || len(s) != len(s2) {
			return fmt.Sprintf("comments %q became %q", s, s2)
		}
		for i := range s {
			if s[i] != s2[i] {
				return fmt.Sprintf("comments %q became %q", s, s2)
			}
		}
		if len(s) > 0 && &s[0] == &s2[0] {
			return "a list of comments is shared"
		}
	}
	for n, x := range []map[*accounting.Split]accounting.Value{l.Assertions, l.SplitPrices} {
		y := []map[*accounting.Split]accounting.Value{k.Assertions, k.SplitPrices}[n]
		ky := map[uintptr]accounting.Value{}
		for s, v := range y {
			ky[ptr(s)] = v
		}
		for s, v := range x {
			v2, ok := ky[c.to[ptr(s)]]
			if !ok {
				return "a map lost an entry"
			}
			c.same(fmt.Sprintf("map %d of %v", n, s.ID), reflect.ValueOf(v), reflect.ValueOf(v2))
		}
	}
	for _, t := range l.Transactions {
		for _, s := range t.Splits {
			if s.Time == &s.Transaction.Time {
				if t2 := c.to[ptr(s)]; t2 != 0 {
					for _, u := range k.Transactions {
						for _, r := range u.Splits {
							if ptr(r) == t2 && r.Time != &r.Transaction.Time {
								return fmt.Sprintf("%v no longer has the date of its transaction", s.ID)
							}
						}
					}
				}
			}
		}
	}
	return c.bad
}

// dump writes everything reachable from a ledger.
func dump(l *accounting.Ledger) string {
	s := ""
	id := func(x accounting.ID) string {
		if x == nil {
			return "-"
		}
		return x.String()
	}
	sp := func(p *accounting.Split) string {
		if p == nil {
			return "nil"
		}
		r := id(p.ID) + " " + showValue(p.Value) + " " + showBalance(p.Balance)
		if p.Time != nil {
			r += p.Time.String()
		}
		if p.Account != nil {
			r += p.Account.Name
		}
		for _, c := range l.Comments[p] {
			r += ";" + c
		}
		return r + fmt.Sprint(l.Assertions[p].Amount, l.SplitPrices[p].Amount)
	}
	for _, a := range l.Accounts {
		s += fmt.Sprintf("A %p %s %s %s %d %s", a, id(a.ID), a.Name, a.Code, a.Level, showBalance(a.StartBalance))
		for _, c := range a.Children {
			s += fmt.Sprintf(" %p", c)
		}
		for _, x := range a.Splits {
			s += "\n  " + sp(x)
		}
		s += fmt.Sprint(l.Comments[a]) + "\n"
	}
	for _, t := range l.Transactions {
		s += fmt.Sprintf("T %p %s %s %s %v", t, id(t.ID), t.Time, t.Description, l.Comments[t])
		for _, x := range t.Splits {
			s += "\n  " + sp(x)
		}
		s += "\n"
	}
	for _, c := range l.Currencies {
		s += fmt.Sprintf("C %p %+v %v\n", c, *c, l.Comments[c])
	}
	for _, p := range l.Prices {
		s += fmt.Sprintf("P %p %s %s %s %s %v\n", p, id(p.ID), p.Time, cname(p.Currency), showValue(p.Value), l.Comments[p])
	}
	if l.DefaultCurrency != nil {
		s += fmt.Sprintf("D %+v", *l.DefaultCurrency)
	}
	return s
}

func (h *H) comments() []string {
	var s []string
	for i, n := 0, 1+h.r.Intn(3); i < n; i++ {
		s = append(s, fmt.Sprintf("comment %d", h.r.Intn(1000)))
	}
	return s
}

func (h *H) decorate(m *mLedger) {
	for i, c := range m.curs {
		c.ID = sid(fmt.Sprintf("c%d", i))
		c.PrintBefore, c.WithoutSpace = h.r.Intn(2) == 0, h.r.Intn(2) == 0
		c.Thousand, c.Decimal = []string{"", ",", "."}[h.r.Intn(3)], []string{".", ",", ""}[h.r.Intn(3)]
		c.Precision = h.r.Intn(9)
		c.ISIN = fmt.Sprint("I", h.r.Intn(9))
		if h.r.Intn(3) == 0 {
			m.l.Comments[c] = h.comments()
		}
	}
	for _, a := range m.accs {
		a.Code = fmt.Sprint("code", h.r.Intn(9))
		for i, n := 0, h.r.Intn(3); i < n; i++ {
			a.StartBalance.Add(accounting.Value{Amount: h.amt(), Currency: m.curs[h.r.Intn(len(m.curs))]})
		}
		if h.r.Intn(3) == 0 {
			m.l.Comments[a] = h.comments()
		}
	}
	for _, mt := range m.trans {
		if h.r.Intn(3) == 0 {
			m.l.Comments[mt.t] = h.comments()
		}
		for _, ms := range mt.splits {
			if h.r.Intn(3) == 0 {
				m.l.Comments[ms.s] = h.comments()
			}
		}
	}
	for _, p := range m.prices {
		if h.r.Intn(3) == 0 {
			m.l.Comments[p] = h.comments()
		}
	}
	switch h.r.Intn(4) {
	case 0:
	case 1:
		m.l.DefaultCurrency = &accounting.Currency{Name: "", Decimal: ",", Precision: 1}
	default:
		m.l.DefaultCurrency = m.curs[h.r.Intn(len(m.curs))]
	}
	if h.r.Intn(3) == 0 && len(m.l.Currencies) > 0 { // currencies do not have to be in the list
		m.l.Currencies = m.l.Currencies[:len(m.l.Currencies)-1]
		delete(m.l.Comments, m.curs[len(m.curs)-1])
	}
}

func TestVerifP13(t *testing.T) {
	search(t, "random ledgers, cloned and compared field by field, then one of the two is changed; non-trivial: two or more transactions", func(h *H) {
		o := anyOpt(h)
		o.bad = false
		m := h.genLedger(o)
		h.decorate(m)
		h.input(len(m.trans) > 1, "%s", m.text)
		if err := m.l.Fill(); err != nil {
			return
		}
		before := dump(m.l)
		k := m.l.Clone()
		if d := cloneDiff(h, m.l, k); d != "" {
			h.fail("clone", "%s", d)
			return
		}
		if dump(m.l) != before {
			h.fail("clone-changes", "cloning changed the ledger")
			return
		}
		// change one
		x, y := m.l, k
		if h.r.Intn(2) == 0 {
			x, y = k, m.l
		}
		was := dump(y)
		for i, n := 0, 1+h.r.Intn(6); i < n; i++ {
			h.mutate(x)
		}
		if dump(y) != was {
			h.fail("clone-shares", "a change in one of the two ledgers is seen in the other")
			return
		}
		if h.r.Intn(3) == 0 {
			x.Fill()
			if dump(y) != was {
				h.fail("clone-shares-fill", "filling one of the two ledgers is seen in the other")
			}
		}
	})
}

func (h *H) mutate(x *accounting.Ledger) {
	switch h.r.Intn(12) {
	case 0:
		for _, a := range x.Accounts {
			a.Name += "x"
			a.Level += 7
		}
	case 1:
		for _, a := range x.Accounts {
			for i := range a.StartBalance {
				a.StartBalance[i].Amount += 5
			}
			for i, j := 0, len(a.Splits)-1; i < j; i, j = i+1, j-1 {
				a.Splits[i], a.Splits[j] = a.Splits[j], a.Splits[i]
			}
			a.Children = append(a.Children[:0], a.Children...)
			for i := range a.Children {
				a.Children[i] = a
			}
		}
	case 2:
		for _, t := range x.Transactions {
			t.Time = t.Time.AddDate(1, 0, 0)
			t.Description += "y"
		}
	case 3:
		for _, t := range x.Transactions {
			for _, s := range t.Splits {
				s.Value.Amount += 3
				for i := range s.Balance {
					s.Balance[i].Amount += 2
				}
			}
		}
	case 4:
		for _, t := range x.Transactions {
			for _, s := range t.Splits {
				if s.Time != nil {
					*s.Time = s.Time.Add(time.Hour)
				}
			}
		}
	case 5:
		for _, c := range x.Currencies {
			c.Name += "z"
			c.Precision++
		}
		if x.DefaultCurrency != nil {
			x.DefaultCurrency.Name += "d"
		}
	case 6:
		for _, p := range x.Prices {
			p.Time = p.Time.Add(time.Hour)
			p.Value.Amount++
			if p.Currency != nil {
				p.Currency.ISIN += "!"
			}
		}
	case 7:
		for w, s := range x.Comments {
			for i := range s {
				s[i] += "c"
			}
			x.Comments[w] = append(s, "more")
		}
	case 8:
		for s, v := range x.Assertions {
			v.Amount++
			x.Assertions[s] = v
		}
		for s, v := range x.SplitPrices {
			v.Amount++
			x.SplitPrices[s] = v
		}
	case 9:
		for i, t := range x.Transactions {
			if i > 0 {
				x.Transactions[i-1], x.Transactions[i] = t, x.Transactions[i-1]
			}
		}
		for i := range x.Accounts {
			x.Accounts[0], x.Accounts[i] = x.Accounts[i], x.Accounts[0]
		}
		for i := range x.Prices {
			x.Prices[0], x.Prices[i] = x.Prices[i], x.Prices[0]
		}
		for i := range x.Currencies {
			x.Currencies[0], x.Currencies[i] = x.Currencies[i], x.Currencies[0]
		}
	case 10:
		for _, t := range x.Transactions {
			for i, s := range t.Splits {
				t.Splits[0], t.Splits[i] = s, t.Splits[0]
			}
		}
	case 11:
		if len(x.Accounts) > 0 {
			x.Accounts = append(x.Accounts[:len(x.Accounts)-1], &accounting.Account{Name: "new"})
		}
	}
}

// ------------------------------------------------------------------- queries

func TestVerifP14(t *testing.T) {
	search(t, "random ledgers, each query at moments around all the dates; non-trivial: two or more transactions", func(h *H) {
		o := anyOpt(h)
		o.bad = false
		m := h.genLedger(o)
		h.input(len(m.trans) > 1, "%s", m.text)
		if err := m.l.Fill(); err != nil {
			return
		}
		for _, a := range m.l.Accounts {
			for i, n := 0, h.r.Intn(3); i < n; i++ {
				a.StartBalance.Add(accounting.Value{Amount: h.amt(), Currency: m.curs[h.r.Intn(len(m.curs))]})
			}
		}
		show := func(b accounting.Balance) string { return showBalance(b) }
		for d := -1; d < 11; d++ {
			for _, off := range []time.Duration{0, -1, 1} {
				at := day(d).Add(off)
				for _, a := range m.l.Accounts {
					want := a.StartBalance
					for _, s := range a.Splits {
						if !s.Time.After(at) {
							want = s.Balance
						}
					}
					if got := m.l.GetBalance(a, at); show(got) != show(want) {
						h.fail("balance-at", "balance of %v at %s: %s, expected %s", a.ID, at, show(got), show(want))
						return
					}
				}
			}
		}
		for _, a := range m.l.Accounts {
			want := a.StartBalance
			if len(a.Splits) > 0 {
				want = a.Splits[len(a.Splits)-1].Balance
			}
			if got := m.l.GetBalance(a, time.Time{}); show(got) != show(want) {
				h.fail("balance-now", "balance of %v: %s, expected %s", a.ID, show(got), show(want))
				return
			}
		}
		for k := 0; k < 12; k++ {
			x := day(h.r.Intn(11) - 1).Add(time.Duration(h.r.Intn(3) - 1))
			y := day(h.r.Intn(11) - 1).Add(time.Duration(h.r.Intn(3) - 1))
			var want []*accounting.Transaction
			for _, t := range m.l.Transactions {
				if !t.Time.Before(x) && !t.Time.After(y) {
					want = append(want, t)
				}
			}
			got := m.l.TransactionsInInterval(x, y)
			if len(got) != len(want) {
				h.fail("interval", "%s to %s: %d transactions, expected %d", x, y, len(got), len(want))
				return
			}
			for i := range got {
				if got[i] != want[i] {
					h.fail("interval", "%s to %s: transaction %d is %s, expected %s", x, y, i, got[i].ID, want[i].ID)
					return
				}
			}
		}
		for _, a := range append(append([]*accounting.Account(nil), m.accs...), &accounting.Account{ID: sid("none")}) {
			var want []*accounting.Transaction
			for _, t := range m.l.Transactions {
				for _, s := range t.Splits {
					if s.Account.ID == a.ID {
						want = append(want, t)
						break
					}
				}
			}
			got := m.l.TransactionsInAccount(a.ID)
			if len(got) != len(want) {
				h.fail("account", "account %s: %d transactions, expected %d", a.ID, len(got), len(want))
				return
			}
			for i := range got {
				if got[i] != want[i] {
					h.fail("account", "account %s: transaction %d is %s, expected %s", a.ID, i, got[i].ID, want[i].ID)
					return
				}
			}
			var wa *accounting.Account
			for _, b := range m.l.Accounts {
				if b.ID == a.ID {
					wa = b
					break
				}
			}
			if ga := m.l.Account(a.ID); ga != wa {
				h.fail("account-id", "account %s: got another account", a.ID)
			}
		}
	})
}
