package ledger

import (
	"fmt"
	"strings"
	"testing"

	"github.com/cespedes/accounting"
)

func (h *H) currencies(n int) []*accounting.Currency {
	var cs []*accounting.Currency
	for i := 0; i < n; i++ {
		cs = append(cs, &accounting.Currency{Name: fmt.Sprintf("C%d", i), Precision: 2})
	}
	return cs
}

// amount: mostly small numbers, so that they cancel out often
func (h *H) amount() int64 {
	switch h.r.Intn(6) {
	case 0:
		return h.r.Int63n(2_000_000_000_000_000) - 1_000_000_000_000_000
	case 1:
		return (h.r.Int63n(9) - 4) * accounting.U
	case 2:
		return 0
	}
	return h.r.Int63n(9) - 4
}

func TestVerifP08(t *testing.T) {
	search(t, "random sequences of operations over a few balances, compared with an independent map; non-trivial: two or more operations", func(h *H) {
		cs := h.currencies(1 + h.r.Intn(4))
		k := 1 + h.r.Intn(3)
		bs := make([]accounting.Balance, k)
		ms := make([]bag, k)
		for i := range ms {
			ms[i] = bag{}
		}
		n := 1 + h.r.Intn(20)
		var log []string
		check := func(op string) bool {
			for i := range bs {
				if e := sameBag(bs[i], ms[i]); e != "" {
					h.fail("balance-"+strings.Fields(op)[0], "after %s: balance %d is %s: %s", op, i, showBalance(bs[i]), e)
					return false
				}
			}
			return true
		}
		for j := 0; j < n; j++ {
			i, o := h.r.Intn(k), h.r.Intn(k)
			v := accounting.Value{Amount: h.amount(), Currency: cs[h.r.Intn(len(cs))]}
			var op string
			switch h.r.Intn(7) {
			case 0, 1, 2:
				op = fmt.Sprintf("Add b%d %s", i, showValue(v))
			case 3:
				op = fmt.Sprintf("Sub b%d %s", i, showValue(v))
			case 4:
				op = fmt.Sprintf("AddBalance b%d b%d", i, o)
			case 5:
				op = fmt.Sprintf("SubBalance b%d b%d", i, o)
			case 6:
				op = fmt.Sprintf("Dup b%d = b%d", i, o)
			}
			if i == o && strings.Contains(op, "Balance") {
				continue
			}
			for _, a := range ms {
				for _, x := range a {
					if x > 1e18 || x < -1e18 {
						return
					}
				}
			}
			log = append(log, op)
			h.input(j > 0, "%s", strings.Join(log, "\n"))
			switch strings.Fields(op)[0] {
			case "Add":
				bs[i].Add(v)
				ms[i].add(v)
			case "Sub":
				bs[i].Sub(v)
				ms[i].add(accounting.Value{Amount: -v.Amount, Currency: v.Currency})
			case "AddBalance":
				bs[i].AddBalance(bs[o])
				for c, a := range ms[o] {
					ms[i].add(accounting.Value{Amount: a, Currency: c})
				}
			case "SubBalance":
				bs[i].SubBalance(bs[o])
				for c, a := range ms[o] {
					ms[i].add(accounting.Value{Amount: -a, Currency: c})
				}
			case "Dup":
				bs[i] = bs[o].Dup()
				ms[i] = ms[o].dup()
			}
			if !check(op) {
				return
			}
		}
	})
}
