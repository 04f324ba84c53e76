package ledger

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/cespedes/accounting"
)

// mSplit is what is put in a posting, and what is known of it.
type mSplit struct {
	s       *accounting.Split
	acc     *accounting.Account
	time    *time.Time // own time, or nil
	value   accounting.Value
	truth   accounting.Value // the value it must end with, in ledgers which must be accepted
	missing bool
	assert  accounting.Value
	price   accounting.Value
	priced  bool
}

type mTrans struct {
	t      *accounting.Transaction
	splits []*mSplit
	time   time.Time
}

type mLedger struct {
	l        *accounting.Ledger
	accs     []*accounting.Account
	parents  []*accounting.Account
	curs     []*accounting.Currency
	trans    []*mTrans // in order of entry
	prices   []*accounting.Price
	priceVal []accounting.Price
	accept   bool
	refuse   string
	text     string
}

func day(n int) time.Time { return time.Date(2020, 1, 1, 12, 0, 0, 0, time.UTC).AddDate(0, 0, n) }

// amt is an amount in a ledger: never zero
func (h *H) amt() int64 {
	for {
		var a int64
		switch h.r.Intn(5) {
		case 0:
			a = h.r.Int63n(2_000_000_000_000) - 1_000_000_000_000
		case 1:
			a = (h.r.Int63n(19) - 9) * accounting.U
		default:
			a = h.r.Int63n(9) - 4
		}
		if a != 0 {
			return a
		}
	}
}

type genOpt struct {
	dates   bool // postings with their own dates
	missing bool
	asserts bool
	prices  bool
	two     bool // transactions which leave two currencies
	bad     bool // may have mistakes
}

// genLedger builds a ledger with the exported types.
func (h *H) genLedger(o genOpt) *mLedger {
	m := &mLedger{accept: true}
	m.curs = h.currencies(1 + h.r.Intn(4))
	for i, n := 0, 1+h.r.Intn(6); i < n; i++ {
		a := &accounting.Account{ID: sid(fmt.Sprintf("a%d", i)), Name: fmt.Sprintf("n%d", h.r.Intn(4))}
		if i > 0 && h.r.Intn(2) == 0 {
			a.Parent = m.accs[h.r.Intn(i)]
		}
		m.accs = append(m.accs, a)
		m.parents = append(m.parents, a.Parent)
	}
	span := 1 + h.r.Intn(8)
	for i, n := 0, h.r.Intn(7); i < n; i++ {
		m.trans = append(m.trans, h.genTrans(o, m, span, i))
	}
	m.resolve(h, o)
	l := &accounting.Ledger{Comments: map[interface{}][]string{}, Assertions: map[*accounting.Split]accounting.Value{}, SplitPrices: map[*accounting.Split]accounting.Value{}}
	m.l = l
	l.Accounts = append(l.Accounts, m.accs...)
	l.Currencies = append(l.Currencies, m.curs...)
	var b strings.Builder
	for i, a := range m.accs {
		fmt.Fprintf(&b, "account %s name %s parent %v\n", a.ID, a.Name, func() string {
			if a.Parent == nil {
				return "-"
			}
			return a.Parent.ID.String()
		}())
		_ = i
	}
	for i, mt := range m.trans {
		mt.t = &accounting.Transaction{ID: sid(fmt.Sprintf("t%d", i)), Time: mt.time, Description: fmt.Sprintf("tr %d", i)}
		fmt.Fprintf(&b, "t%d %s\n", i, mt.time.Format("2006-01-02T15:04:05"))
		for j, ms := range mt.splits {
			s := &accounting.Split{ID: sid(fmt.Sprintf("t%d.%d", i, j)), Account: ms.acc, Value: ms.value}
			if ms.time != nil {
				tt := *ms.time
				s.Time = &tt
			}
			ms.s = s
			mt.t.Splits = append(mt.t.Splits, s)
			fmt.Fprintf(&b, "   %s", ms.acc.ID)
			if ms.missing {
				fmt.Fprint(&b, " (missing)")
			} else {
				fmt.Fprintf(&b, " %s", showValue(ms.value))
			}
			if ms.priced {
				l.SplitPrices[s] = ms.price
				fmt.Fprintf(&b, " @@ %s", showValue(ms.price))
			}
			if ms.assert != (accounting.Value{}) {
				l.Assertions[s] = ms.assert
				fmt.Fprintf(&b, " = %s", showValue(ms.assert))
			}
			if ms.time != nil {
				fmt.Fprintf(&b, " date %s", ms.time.Format("2006-01-02"))
			}
			fmt.Fprintln(&b)
		}
		l.Transactions = append(l.Transactions, mt.t)
	}
	for i, n := 0, h.r.Intn(4); i < n; i++ {
		p := &accounting.Price{ID: sid(fmt.Sprintf("p%d", i)), Time: day(h.r.Intn(span)), Currency: m.curs[h.r.Intn(len(m.curs))], Value: accounting.Value{Amount: h.amt(), Currency: m.curs[h.r.Intn(len(m.curs))]}}
		l.Prices = append(l.Prices, p)
		m.prices = append(m.prices, p)
		m.priceVal = append(m.priceVal, *p)
		fmt.Fprintf(&b, "P %s %s %s\n", p.Time.Format("2006-01-02"), cname(p.Currency), showValue(p.Value))
	}
	if m.refuse != "" {
		m.accept = false
		fmt.Fprintf(&b, "(must be refused: %s)\n", m.refuse)
	} else if m.accept {
		fmt.Fprintf(&b, "(must be accepted)\n")
	}
	m.text = b.String()
	return m
}

func (h *H) genTrans(o genOpt, m *mLedger, span int, i int) *mTrans {
	mt := &mTrans{time: day(h.r.Intn(span))}
	sum := bag{}
	n := h.r.Intn(4)
	acc := func() *accounting.Account { return m.accs[h.r.Intn(len(m.accs))] }
	add := func(v accounting.Value) *mSplit {
		ms := &mSplit{acc: acc(), value: v, truth: v}
		mt.splits = append(mt.splits, ms)
		return ms
	}
	for j := 0; j < n; j++ {
		v := accounting.Value{Amount: h.amt(), Currency: m.curs[h.r.Intn(len(m.curs))]}
		if h.r.Intn(15) == 0 {
			v.Amount = 0
		}
		ms := add(v)
		if o.prices && h.r.Intn(3) == 0 {
			ms.priced = true
			ms.price = accounting.Value{Amount: h.amt(), Currency: m.curs[h.r.Intn(len(m.curs))]}
			if h.r.Intn(10) == 0 {
				ms.price.Amount = 0
			}
			sum.add(ms.price)
		} else {
			sum.add(v)
		}
	}
	left := 0
	if o.two && h.r.Intn(3) == 0 {
		left = 2
	}
	if o.bad && h.r.Intn(12) == 0 {
		left = []int{1, 3, 4}[h.r.Intn(3)]
	}
	// close the currencies in the order of m.curs
	for len(sum) > left {
		for _, c := range m.curs {
			if a := sum[c]; a != 0 && len(sum) > left {
				if h.r.Intn(4) == 0 && a > 1 {
					add(accounting.Value{Amount: -1, Currency: c})
					a--
				}
				add(accounting.Value{Amount: -a, Currency: c})
				delete(sum, c)
			}
		}
	}
	if len(sum) == 1 || len(sum) > 2 {
		m.refuse = fmt.Sprintf("t%d leaves %d currencies", i, len(sum))
	}
	h.r.Shuffle(len(mt.splits), func(a, b int) { mt.splits[a], mt.splits[b] = mt.splits[b], mt.splits[a] })
	if o.dates {
		for _, ms := range mt.splits {
			if h.r.Intn(3) == 0 {
				t := day(h.r.Intn(span+2) - 1)
				ms.time = &t
			}
		}
	}
	if o.missing && len(sum) == 0 && len(mt.splits) > 0 && h.r.Intn(2) == 0 {
		ms := mt.splits[h.r.Intn(len(mt.splits))]
		if !ms.priced {
			ms.missing = true
			ms.value = accounting.Value{}
			if o.bad && h.r.Intn(10) == 0 && len(mt.splits) > 1 {
				for _, o := range mt.splits {
					if o != ms && !o.priced {
						o.missing = true
						o.value = accounting.Value{}
						m.refuse = fmt.Sprintf("t%d has two postings without amount", i)
						break
					}
				}
			}
		}
	}
	return mt
}

func (ms *mSplit) when(mt *mTrans) time.Time {
	if ms.time != nil {
		return *ms.time
	}
	return mt.time
}

func (m *mLedger) sorted() []*mTrans {
	ts := append([]*mTrans(nil), m.trans...)
	// insertion sort, so that it is stable
	for i := 1; i < len(ts); i++ {
		for j := i; j > 0 && ts[j-1].time.After(ts[j].time); j-- {
			ts[j-1], ts[j] = ts[j], ts[j-1]
		}
	}
	return ts
}

type mEntry struct {
	ms *mSplit
	mt *mTrans
}

func (m *mLedger) register(a *accounting.Account) []mEntry {
	var es []mEntry
	for _, mt := range m.sorted() {
		for _, ms := range mt.splits {
			if ms.acc == a {
				es = append(es, mEntry{ms, mt})
			}
		}
	}
	for i := 1; i < len(es); i++ {
		for j := i; j > 0 && es[j-1].ms.when(es[j-1].mt).After(es[j].ms.when(es[j].mt)); j-- {
			es[j-1], es[j] = es[j], es[j-1]
		}
	}
	return es
}

// resolve adds assertions, true or false, and amounts left to them.
func (m *mLedger) resolve(h *H, o genOpt) {
	if !o.asserts {
		if o.dates && o.missing {
			m.accept = true // an amount is deduced from its own transaction only
		}
		return
	}
	hasMissing := map[*mTrans]*mSplit{}
	own := false
	for _, mt := range m.trans {
		for _, ms := range mt.splits {
			if ms.missing {
				hasMissing[mt] = ms
			}
			if ms.time != nil {
				own = true
			}
		}
	}
	anyDeduced := false
	for _, a := range m.accs {
		b := bag{}
		for _, e := range m.register(a) {
			b.add(e.ms.truth)
			if h.r.Intn(3) > 0 {
				continue
			}
			c := e.ms.truth.Currency
			if h.r.Intn(4) == 0 {
				c = m.curs[h.r.Intn(len(m.curs))]
			}
			v := accounting.Value{Amount: b[c], Currency: c}
			if o.bad && h.r.Intn(12) == 0 {
				v.Amount += 1 + int64(h.r.Intn(3))
				if e.ms.missing {
					continue
				}
				m.refuse = fmt.Sprintf("false assertion in %s", e.mt.time)
			} else if c == e.ms.truth.Currency && !e.ms.priced && (o.missing && h.r.Intn(3) == 0 || e.ms.missing) {
				// left to the assertion
				if e.ms.missing {
					delete(hasMissing, e.mt)
				}
				e.ms.missing = true
				e.ms.value = accounting.Value{}
				anyDeduced = true
			} else if e.ms.missing {
				continue
			}
			e.ms.assert = v
		}
	}
	if anyDeduced {
		if own {
			m.accept = false
		}
		// a posting left to the rest of its transaction, in an account which has an assertion deduced after it
		for mt, p := range hasMissing {
			for _, x := range m.trans {
				for _, ms := range x.splits {
					if ms.assert != (accounting.Value{}) && ms.missing && ms.acc == p.acc && x.time.Equal(mt.time) {
						m.accept = false
					}
				}
			}
		}
		// a mistake may hide another one
	}
}

func runFill(m *mLedger) (err error, panicked interface{}) {
	defer func() {
		if e := recover(); e != nil {
			panicked = e
		}
	}()
	err = m.l.Fill()
	return
}

func isTransfer(m *mLedger, a *accounting.Account) bool {
	for _, x := range m.accs {
		if x == a {
			return false
		}
	}
	return true
}

// ownSplits are the postings of a transaction which are not automatic
func ownSplits(m *mLedger, t *accounting.Transaction) []*accounting.Split {
	var r []*accounting.Split
	for _, s := range t.Splits {
		if !isTransfer(m, s.Account) {
			r = append(r, s)
		}
	}
	return r
}

func left(m *mLedger, t *accounting.Transaction) bag {
	b := bag{}
	for _, s := range ownSplits(m, t) {
		if v, ok := m.l.SplitPrices[s]; ok {
			b.add(v)
		} else {
			b.add(s.Value)
		}
	}
	return b
}

// fillSearch is the search for the properties of Fill.
func fillSearch(t *testing.T, rule string, opt func(h *H) genOpt, check func(h *H, m *mLedger, err error)) {
	search(t, rule, func(h *H) {
		m := h.genLedger(opt(h))
		h.input(len(m.trans) > 1, "%s", m.text)
		err, p := runFill(m)
		if p != nil {
			h.fail("fill-panic", "Fill panicked: %v", p)
			return
		}
		check(h, m, err)
	})
}

func anyOpt(h *H) genOpt {
	b := func(n int) bool { return h.r.Intn(n) > 0 }
	return genOpt{dates: b(2), missing: b(3), asserts: b(3), prices: b(2), two: b(2), bad: !b(3)}
}

func TestVerifP01(t *testing.T) {
	fillSearch(t, "random ledgers; the rest of every transaction counted apart; non-trivial: two or more transactions", anyOpt, func(h *H, m *mLedger, err error) {
		if err == nil && m.refuse != "" && strings.Contains(m.refuse, "leaves") {
			h.fail("not-refused", "accepted, but %s", m.refuse)
		}
		if err != nil && m.accept && m.refuse == "" {
			h.fail("refused", "refused: %v", err)
		}
		if err != nil {
			return
		}
		for _, mt := range m.trans {
			b := left(m, mt.t)
			if len(b) != 0 && len(b) != 2 {
				h.fail("unbalanced", "%s leaves %d currencies", mt.t.ID, len(b))
			}
		}
	})
}

func TestVerifP02(t *testing.T) {
	fillSearch(t, "random ledgers with missing amounts and assertions; non-trivial: two or more transactions", func(h *H) genOpt {
		o := anyOpt(h)
		o.missing = true
		return o
	}, func(h *H, m *mLedger, err error) {
		if err == nil && strings.Contains(m.refuse, "without amount") {
			// one of the two may have got an assertion
			for _, mt := range m.trans {
				n := 0
				for _, ms := range mt.splits {
					if ms.missing && ms.assert == (accounting.Value{}) {
						n++
					}
				}
				if n > 1 {
					h.fail("two-missing", "%s has two postings without amount and was accepted", mt.t.ID)
				}
			}
		}
		for _, mt := range m.trans {
			for _, ms := range mt.splits {
				if !ms.missing && ms.s.Value != ms.value {
					h.fail("changed", "%s: %s became %s", ms.s.ID, showValue(ms.value), showValue(ms.s.Value))
				}
			}
		}
		if err != nil {
			if m.accept && m.refuse == "" {
				h.fail("refused", "refused: %v", err)
			}
			return
		}
		for _, mt := range m.trans {
			n, deduced := 0, 0
			for _, ms := range mt.splits {
				if ms.missing {
					n++
					if ms.assert != (accounting.Value{}) {
						deduced++
					}
				}
				if ms.missing && ms.s.Value.Currency == nil {
					h.fail("not-filled", "%s was not filled", ms.s.ID)
				}
			}
			if n > deduced && len(left(m, mt.t)) != 0 {
				h.fail("filled", "%s had a missing amount and does not add up to zero", mt.t.ID)
			}
		}
		for _, a := range m.accs {
			b := bag{}
			for _, e := range m.register(a) {
				b.add(e.ms.s.Value)
				if e.ms.missing && e.ms.assert != (accounting.Value{}) {
					if e.ms.s.Value.Currency != e.ms.assert.Currency || b[e.ms.assert.Currency] != e.ms.assert.Amount {
						h.fail("deduced", "%s: %s, balance is %d, asserted %s", e.ms.s.ID, showValue(e.ms.s.Value), b[e.ms.assert.Currency], showValue(e.ms.assert))
					}
				}
			}
		}
		if m.accept && m.refuse == "" {
			for _, mt := range m.trans {
				for _, ms := range mt.splits {
					if ms.missing && ms.s.Value.Amount != ms.truth.Amount {
						h.fail("amount", "%s: %s, expected %s", ms.s.ID, showValue(ms.s.Value), showValue(ms.truth))
					}
				}
			}
		}
	})
}

func TestVerifP03(t *testing.T) {
	fillSearch(t, "random ledgers; balances computed again from the postings; non-trivial: two or more transactions", anyOpt, func(h *H, m *mLedger, err error) {
		if err != nil {
			if m.accept && m.refuse == "" {
				h.fail("refused", "refused: %v", err)
			}
			return
		}
		var all []*accounting.Split
		checkBalances := func(name string, ss []*accounting.Split) {
			b := bag{}
			for _, s := range ss {
				b.add(s.Value)
				if e := sameBag(s.Balance, b); e != "" {
					h.fail("balance", "account %s, posting %v at %s: balance is %s: %s", name, s.ID, s.Time, showBalance(s.Balance), e)
					return
				}
				all = append(all, s)
			}
		}
		for _, a := range m.accs {
			var ss []*accounting.Split
			for _, e := range m.register(a) {
				ss = append(ss, e.ms.s)
			}
			checkBalances(a.Name, ss)
		}
		for _, a := range m.l.Accounts {
			if isTransfer(m, a) {
				var ss []*accounting.Split
				for _, mt := range m.sorted() {
					for _, s := range mt.t.Splits {
						if s.Account == a {
							ss = append(ss, s)
						}
					}
				}
				sort.SliceStable(ss, func(i, j int) bool { return ss[i].Time.Before(*ss[j].Time) })
				checkBalances(a.Name, ss)
			}
		}
		// independence
		if len(all) == 0 {
			return
		}
		var was []accounting.Balance
		for _, s := range all {
			was = append(was, append(accounting.Balance(nil), s.Balance...))
		}
		k := h.r.Intn(len(all))
		for _, c := range m.curs {
			all[k].Balance.Add(accounting.Value{Amount: 1000003, Currency: c})
		}
		for i, s := range all {
			if i == k {
				continue
			}
			if showBalance(s.Balance) != showBalance(was[i]) {
				h.fail("shared", "changing the balance of %v changed that of %v", all[k].ID, s.ID)
			}
		}
	})
}

func TestVerifP04(t *testing.T) {
	fillSearch(t, "random ledgers with assertions; non-trivial: two or more transactions", func(h *H) genOpt {
		o := anyOpt(h)
		o.asserts = true
		return o
	}, func(h *H, m *mLedger, err error) {
		if err != nil {
			if m.accept && m.refuse == "" {
				h.fail("refused", "refused: %v", err)
			}
			return
		}
		for _, a := range m.accs {
			b := bag{}
			for _, e := range m.register(a) {
				b.add(e.ms.s.Value)
				v := e.ms.assert
				if v == (accounting.Value{}) {
					continue
				}
				if b[v.Currency] != v.Amount {
					h.fail("false-assertion", "%s: the balance is %d, asserted %s, and it was accepted", e.ms.s.ID, b[v.Currency], showValue(v))
				}
				if bagOf(e.ms.s.Balance)[v.Currency] != v.Amount {
					h.fail("false-assertion", "%s: the stored balance is %s, asserted %s, and it was accepted", e.ms.s.ID, showBalance(e.ms.s.Balance), showValue(v))
				}
			}
		}
	})
}

func TestVerifP05(t *testing.T) {
	fillSearch(t, "random ledgers with postings with their own dates, sums at every date; non-trivial: two or more transactions", func(h *H) genOpt {
		o := anyOpt(h)
		o.dates = true
		o.two = false
		o.prices = h.r.Intn(4) == 0
		return o
	}, func(h *H, m *mLedger, err error) {
		if err != nil {
			if m.accept && m.refuse == "" {
				h.fail("refused", "refused: %v", err)
			}
			return
		}
		again := h.r.Intn(3) == 0
		for n := 0; n < 2; n++ {
			checkP05(h, m)
			if !again {
				return
			}
			if err := m.l.Fill(); err != nil {
				h.fail("again", "Fill again: %v", err)
				return
			}
		}
	})
}

func checkP05(h *H, m *mLedger) {
	balanced := true
	for _, mt := range m.trans {
		b := bag{}
		for _, s := range ownSplits(m, mt.t) {
			b.add(s.Value)
		}
		if len(b) > 0 {
			balanced = false
		}
		// transfer postings
		type tv struct {
			at  time.Time
			amt int64
			cur *accounting.Currency
		}
		want := map[tv]int{}
		for _, ms := range mt.splits {
			if ms.time != nil && (!ms.time.Equal(mt.time) || len(ownSplits(m, mt.t)) < len(mt.t.Splits)) {
				w := ms.s.Value
				if ms.time.Equal(mt.time) {
					continue
				}
				want[tv{ms.time.UTC(), -w.Amount, w.Currency}]++
				want[tv{mt.time.UTC(), w.Amount, w.Currency}]++
			}
		}
		for _, s := range mt.t.Splits {
			if isTransfer(m, s.Account) {
				want[tv{s.Time.UTC(), s.Value.Amount, s.Value.Currency}]--
			}
		}
		for k, n := range want {
			// postings with a date of their own equal to that of the transaction may add pairs at the same date
			if n > 0 && k.amt != 0 || (n < 0 && !k.at.Equal(mt.time.UTC())) {
				h.fail("transfer", "%s: transfer posting of %d %s at %s: %d too few", mt.t.ID, k.amt, cname(k.cur), k.at, n)
			}
		}
		own := 0
		for _, ms := range mt.splits {
			if ms.time != nil {
				own++
			}
		}
		if len(mt.t.Splits)-len(ownSplits(m, mt.t)) > 2*own {
			h.fail("transfer-extra", "%s: %d transfer postings for %d postings with their own date", mt.t.ID, len(mt.t.Splits)-len(ownSplits(m, mt.t)), own)
		}
	}
	if !balanced {
		return
	}
	for d := -2; d < 14; d++ {
		b, b2 := bag{}, bag{}
		at := day(d)
		for _, a := range m.l.Accounts {
			var last accounting.Balance
			for _, s := range a.Splits {
				if !s.Time.After(at) {
					b.add(s.Value)
					last = s.Balance
				}
			}
			for _, v := range last {
				b2.add(v)
			}
		}
		if len(b) > 0 || len(b2) > 0 {
			h.fail("date", "the books do not balance at %s", at)
			return
		}
	}
}

func TestVerifP06(t *testing.T) {
	fillSearch(t, "random ledgers with repeated dates in any order; non-trivial: two or more transactions", anyOpt, func(h *H, m *mLedger, err error) {
		if err != nil {
			if m.accept && m.refuse == "" {
				h.fail("refused", "refused: %v", err)
			}
			return
		}
		st := m.sorted()
		if len(st) != len(m.l.Transactions) {
			h.fail("transactions", "%d transactions, expected %d", len(m.l.Transactions), len(st))
			return
		}
		for i, mt := range st {
			if m.l.Transactions[i] != mt.t {
				h.fail("transactions", "transaction %d is %s, expected %s", i, m.l.Transactions[i].ID, mt.t.ID)
				return
			}
			os := ownSplits(m, mt.t)
			if len(os) != len(mt.splits) {
				h.fail("postings", "%s has %d postings, expected %d", mt.t.ID, len(os), len(mt.splits))
				return
			}
			for j, ms := range mt.splits {
				if os[j] != ms.s {
					h.fail("postings", "%s: posting %d is %v", mt.t.ID, j, os[j].ID)
				}
				if ms.s.Transaction != mt.t || ms.s.Account != ms.acc {
					h.fail("links", "%s is not linked to its transaction and account", ms.s.ID)
				}
				if ms.s.Time == nil || !ms.s.Time.Equal(ms.when(mt)) {
					h.fail("time", "%s has a wrong time", ms.s.ID)
				}
			}
			for _, s := range mt.t.Splits {
				if s.Transaction != mt.t {
					h.fail("links", "posting %v of %s is not linked to it", s.ID, mt.t.ID)
				}
			}
		}
		for _, a := range m.accs {
			r := m.register(a)
			if len(r) != len(a.Splits) {
				h.fail("register", "account %s has %d postings, expected %d", a.ID, len(a.Splits), len(r))
				return
			}
			for i := range r {
				if a.Splits[i] != r[i].ms.s {
					h.fail("register", "account %s: posting %d is %v, expected %v", a.ID, i, a.Splits[i].ID, r[i].ms.s.ID)
					return
				}
			}
		}
		for _, a := range m.l.Accounts {
			if !isTransfer(m, a) {
				continue
			}
			n := map[*accounting.Split]int{}
			tot := 0
			for _, mt := range m.trans {
				for _, s := range mt.t.Splits {
					if s.Account == a {
						n[s]++
						tot++
					}
				}
			}
			for i, s := range a.Splits {
				n[s]--
				if n[s] != 0 || i > 0 && a.Splits[i-1].Time.After(*s.Time) {
					h.fail("transfer-register", "the register of the transfer account is wrong")
				}
			}
			if tot != len(a.Splits) {
				h.fail("transfer-register", "the register of the transfer account has %d postings, expected %d", len(a.Splits), tot)
			}
		}
		// prices
		for i := range m.l.Prices {
			if i > 0 && m.l.Prices[i-1].Time.After(m.l.Prices[i].Time) {
				h.fail("prices", "prices are not in chronological order")
			}
		}
		pos := map[*accounting.Price]int{}
		for i, p := range m.l.Prices {
			pos[p] = i + 1
		}
		for i, p := range m.prices {
			if pos[p] == 0 {
				h.fail("prices", "a price was lost")
			}
			for j := i + 1; j < len(m.prices); j++ {
				if m.prices[j].Time.Equal(p.Time) && pos[m.prices[j]] < pos[p] {
					h.fail("prices", "prices with the same date changed their order")
				}
			}
			for q, k := range pos {
				if q.ID == nil && q.Time.Equal(p.Time) && k < pos[p] {
					h.fail("prices", "an automatic price precedes one entered before with the same date")
				}
			}
		}
	})
}

func TestVerifP07(t *testing.T) {
	search(t, "random account trees with some postings; non-trivial: four or more accounts", func(h *H) {
		m := h.genLedger(anyOpt(h))
		if h.r.Intn(2) == 0 { // more accounts
			for i, n := 0, h.r.Intn(20); i < n; i++ {
				a := &accounting.Account{ID: sid(fmt.Sprintf("b%d", i)), Name: fmt.Sprintf("m%d", h.r.Intn(4))}
				if h.r.Intn(4) > 0 {
					a.Parent = m.accs[h.r.Intn(len(m.accs))]
				}
				m.accs = append(m.accs, a)
				m.parents = append(m.parents, a.Parent)
				m.text += fmt.Sprintf("account %s name %s parent %v\n", a.ID, a.Name, func() string {
					if a.Parent == nil {
						return "-"
					}
					return a.Parent.ID.String()
				}())
			}
			m.l.Accounts = append([]*accounting.Account(nil), m.accs...)
		}
		h.input(len(m.accs) > 3, "%s", m.text)
		err, p := runFill(m)
		if p != nil {
			h.fail("fill-panic", "Fill panicked: %v", p)
			return
		}
		check := func(withTransfer bool) {
			var want []*accounting.Account
			kids := map[*accounting.Account][]*accounting.Account{}
			for i, a := range m.accs {
				if m.parents[i] != nil {
					kids[m.parents[i]] = append(kids[m.parents[i]], a)
				}
			}
			var rec func(a *accounting.Account, level int, prefix string)
			rec = func(a *accounting.Account, level int, prefix string) {
				want = append(want, a)
				if a.Level != level {
					h.fail("level", "account %s has level %d, expected %d", a.ID, a.Level, level)
				}
				if a.FullName() != prefix+a.Name {
					h.fail("fullname", "account %s is %q, expected %q", a.ID, a.FullName(), prefix+a.Name)
				}
				if len(a.Children) != len(kids[a]) {
					h.fail("children", "account %s has %d children, expected %d", a.ID, len(a.Children), len(kids[a]))
				} else {
					for i := range a.Children {
						if a.Children[i] != kids[a][i] {
							h.fail("children", "account %s: child %d is %s, expected %s", a.ID, i, a.Children[i].ID, kids[a][i].ID)
						}
					}
				}
				for _, b := range kids[a] {
					rec(b, level+1, prefix+a.Name+":")
				}
			}
			for i, a := range m.accs {
				if a.Parent != m.parents[i] {
					h.fail("parent", "account %s has another parent", a.ID)
				}
				if m.parents[i] == nil {
					rec(a, 0, "")
				}
			}
			got := m.l.Accounts
			if withTransfer {
				if len(got) == 0 || !isTransfer(m, got[len(got)-1]) {
					h.fail("transfer", "there is no transfer account")
					return
				}
				got = got[:len(got)-1]
			}
			if len(got) != len(want) {
				h.fail("accounts", "%d accounts, expected %d", len(got), len(want))
				return
			}
			for i := range got {
				if got[i] != want[i] {
					h.fail("accounts", "account %d is %s, expected %s", i, got[i].ID, want[i].ID)
					return
				}
			}
		}
		if err != nil {
			return
		}
		check(true)
		if h.r.Intn(3) == 0 {
			if m.l.Fill() == nil {
				tr := m.l.Accounts
				n := 0
				for _, a := range tr {
					if isTransfer(m, a) {
						n++
					}
				}
				if n != 1 {
					h.fail("transfer-again", "%d transfer accounts after a second Fill", n)
				}
			}
		}
	})
}

func quoU(a, b int64) int64 { // a*U/b truncated
	x := new(big.Int).Mul(big.NewInt(accounting.U), big.NewInt(a))
	x.Quo(x, big.NewInt(b))
	return x.Int64()
}

func TestVerifP12(t *testing.T) {
	fillSearch(t, "random ledgers with stated prices and exchanges; non-trivial: two or more transactions", func(h *H) genOpt {
		o := anyOpt(h)
		o.prices = h.r.Intn(3) > 0
		o.two = true
		o.bad = false
		return o
	}, func(h *H, m *mLedger, err error) {
		if err != nil {
			if m.accept && m.refuse == "" {
				h.fail("refused", "refused: %v", err)
			}
			return
		}
		type key struct {
			at   time.Time
			c, d *accounting.Currency
			amt  int64
		}
		want := map[key]int{}
		for _, mt := range m.trans {
			b := left(m, mt.t)
			if len(b) == 2 {
				for c, x := range b {
					for d, y := range b {
						if c != d {
							want[key{mt.time.UTC(), c, d, quoU(-y, x)}]++
						}
					}
				}
			}
			for _, ms := range mt.splits {
				if ms.priced && ms.s.Value.Amount != 0 && ms.price.Amount != 0 {
					want[key{ms.when(mt).UTC(), ms.s.Value.Currency, ms.price.Currency, quoU(ms.price.Amount, ms.s.Value.Amount)}]++
					want[key{ms.when(mt).UTC(), ms.price.Currency, ms.s.Value.Currency, quoU(ms.s.Value.Amount, ms.price.Amount)}]++
				}
			}
		}
		nauto := 0
		old := map[*accounting.Price]bool{}
		for i, p := range m.prices {
			old[p] = true
			if *p != m.priceVal[i] {
				h.fail("altered", "price %s was altered", p.ID)
			}
		}
		seen := 0
		for _, p := range m.l.Prices {
			if old[p] {
				seen++
				if len(m.l.Comments[p]) > 0 {
					h.fail("marked", "price %s is marked as automatic", p.ID)
				}
				continue
			}
			nauto++
			k := key{p.Time.UTC(), p.Currency, p.Value.Currency, p.Value.Amount}
			want[k]--
			if want[k] < 0 {
				h.fail("wrong-price", "unexpected automatic price: %s of %s at %s", showValue(p.Value), cname(p.Currency), p.Time)
			}
			if len(m.l.Comments[p]) != 1 || m.l.Comments[p][0] != "automatic" {
				h.fail("marked", "an automatic price is not marked as such: %q", m.l.Comments[p])
			}
		}
		if seen != len(m.prices) {
			h.fail("lost", "%d prices, expected %d", seen, len(m.prices))
		}
		for k, n := range want {
			if n > 0 {
				h.fail("missing-price", "missing automatic price: %d %s for %s at %s", k.amt, cname(k.d), cname(k.c), k.at)
			}
		}
	})
}
