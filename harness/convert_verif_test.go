package ledger

import (
	"fmt"
	"math/big"
	"strings"
	"testing"
	"time"

	"github.com/cespedes/accounting"
)

func mulU(a, b int64) (int64, bool) { // a*b/U rounded down
	x := new(big.Int).Mul(big.NewInt(a), big.NewInt(b))
	x.Div(x, big.NewInt(accounting.U))
	return x.Int64(), x.IsInt64()
}

// direct: the possible results of a conversion with direct prices.
func direct(l *accounting.Ledger, v accounting.Value, at time.Time, c *accounting.Currency) (res []int64, any bool) {
	var exact, prev, next []*accounting.Price
	for _, p := range l.Prices {
		if p.Currency != v.Currency || p.Value.Currency != c {
			continue
		}
		any = true
		switch {
		case p.Time.Equal(at):
			exact = append(exact, p)
		case p.Time.Before(at):
			if len(prev) > 0 && p.Time.After(prev[0].Time) {
				prev = nil
			}
			if len(prev) == 0 || p.Time.Equal(prev[0].Time) {
				prev = append(prev, p)
			}
		default:
			if len(next) > 0 && p.Time.Before(next[0].Time) {
				next = nil
			}
			if len(next) == 0 || p.Time.Equal(next[0].Time) {
				next = append(next, p)
			}
		}
	}
	add := func(rate int64) {
		x, _ := mulU(rate, v.Amount)
		res = append(res, x)
	}
	if len(exact) > 0 {
		for _, p := range exact {
			add(p.Value.Amount)
		}
		return
	}
	if len(prev) == 0 {
		for _, p := range next {
			add(p.Value.Amount)
		}
		return
	}
	if len(next) == 0 {
		for _, p := range prev {
			add(p.Value.Amount)
		}
		return
	}
	for _, p := range prev {
		for _, q := range next {
			x := big.NewInt(q.Value.Amount - p.Value.Amount)
			x.Mul(x, big.NewInt(int64(at.Sub(p.Time))))
			x.Quo(x, big.NewInt(int64(q.Time.Sub(p.Time))))
			add(x.Int64() + p.Value.Amount)
		}
	}
	return
}

func TestVerifP11(t *testing.T) {
	search(t, "random price lists and conversions at moments around their dates; direct prices computed again, chains by search in the graph of prices; non-trivial: two or more prices", func(h *H) {
		l := &accounting.Ledger{Comments: map[interface{}][]string{}}
		cs := h.currencies(2 + h.r.Intn(5))
		l.Currencies = cs
		path := h.r.Intn(3) == 0
		var b strings.Builder
		d := 0
		span := 3
		if h.r.Intn(4) == 0 { // years apart
			span = 3000
		}
		for i, n := 0, h.r.Intn(9); i < n; i++ {
			d += h.r.Intn(span)
			x, y := h.r.Intn(len(cs)), h.r.Intn(len(cs))
			if path { // a chain of currencies
				x = h.r.Intn(len(cs) - 1)
				y = x + 1
				if h.r.Intn(2) == 0 {
					x, y = y, x
				}
			}
			a := h.amt()
			if h.r.Intn(2) == 0 {
				a = 1 + h.r.Int63n(3*accounting.U)
			} else if h.r.Intn(4) == 0 {
				a = 1 + h.r.Int63n(1<<uint(30+h.r.Intn(25)))
			}
			p := &accounting.Price{Time: day(d), Currency: cs[x], Value: accounting.Value{Amount: a, Currency: cs[y]}}
			l.Prices = append(l.Prices, p)
			fmt.Fprintf(&b, "P %s %s %s\n", p.Time.Format("2006-01-02"), cs[x].Name, showValue(p.Value))
		}
		for k := 0; k < 6; k++ {
			at := day(h.r.Intn(d+3) - 1)
			if h.r.Intn(3) == 0 {
				at = at.Add(time.Duration(h.r.Intn(86400)) * time.Second)
			}
			v := accounting.Value{Amount: h.amt(), Currency: cs[h.r.Intn(len(cs))]}
			if h.r.Intn(3) == 0 {
				v.Amount = accounting.U * (1 + h.r.Int63n(100))
			}
			c := cs[h.r.Intn(len(cs))]
			h.input(len(l.Prices) > 1, "%sconvert %s to %s at %s", b.String(), showValue(v), c.Name, at.Format(time.RFC3339))
			got, err := l.Convert(v, at, c)
			if v.Currency == c {
				if err != nil || got != v {
					h.fail("identity", "%s became %s (%v)", showValue(v), showValue(got), err)
				}
				continue
			}
			if res, ok := direct(l, v, at, c); ok {
				found := false
				for _, r := range res {
					if err == nil && got.Amount == r && got.Currency == c {
						found = true
					}
				}
				if !found {
					h.fail("direct", "got %s (%v), expected %v", showValue(got), err, res)
				}
				continue
			}
			// reachable?
			reach := map[*accounting.Currency]bool{v.Currency: true}
			for ch := true; ch; {
				ch = false
				for _, p := range l.Prices {
					if reach[p.Currency] && !reach[p.Value.Currency] {
						reach[p.Value.Currency] = true
						ch = true
					}
				}
			}
			if !reach[c] {
				if err == nil {
					h.fail("no-chain", "got %s without any chain of prices", showValue(got))
				}
				continue
			}
			if err == nil && got.Currency != c {
				h.fail("currency", "got %s", showValue(got))
			}
			if path && (v.Currency == cs[0] || v.Currency == cs[len(cs)-1]) { // one way only
				if err != nil {
					h.fail("chain", "there is a chain of prices: %v", err)
					continue
				}
				// the only chain
				i, j := 0, 0
				for n := range cs {
					if cs[n] == v.Currency {
						i = n
					}
					if cs[n] == c {
						j = n
					}
				}
				vals := map[int64]bool{v.Amount: true}
				for i != j {
					n := i + 1
					if j < i {
						n = i - 1
					}
					nv := map[int64]bool{}
					for a := range vals {
						r, _ := direct(l, accounting.Value{Amount: a, Currency: cs[i]}, at, cs[n])
						for _, x := range r {
							nv[x] = true
						}
					}
					vals, i = nv, n
				}
				if !vals[got.Amount] {
					h.fail("chain-amount", "got %s, expected %v", showValue(got), vals)
				}
			}
		}
	})
}
