package ledger

import (
	"fmt"
	"math"
	"math/big"
	"regexp"
	"strings"
	"testing"
	"time"

	"github.com/cespedes/accounting"
)

func conn(l *accounting.Ledger) *ledgerConnection {
	c := new(ledgerConnection)
	c.ledger = l
	return c
}

func group(digits, sep string) string {
	if sep == "" {
		return digits
	}
	out := ""
	for i, c := range digits {
		if i > 0 && (len(digits)-i)%3 == 0 {
			out += sep
		}
		out += string(c)
	}
	return out
}

// decimalText is the text of n with at least prec decimals, and the number of decimals used.
func decimalText(n int64, prec int, thousand, decimal string) (string, int) {
	x := new(big.Int).Abs(big.NewInt(n))
	d := new(big.Int)
	x.QuoRem(x, big.NewInt(accounting.U), d)
	f := fmt.Sprintf("%08d", d.Int64())
	k := 8
	for k > prec && f[k-1] == '0' {
		k--
	}
	s := group(x.String(), thousand)
	if k > 0 {
		s += decimal + f[:k]
	}
	return s, k
}

func (h *H) money() int64 {
	switch h.r.Intn(8) {
	case 0:
		return math.MaxInt64 - h.r.Int63n(1000)
	case 1:
		return math.MinInt64 + h.r.Int63n(1000)
	case 2:
		return h.r.Int63() - h.r.Int63()
	case 3:
		return (h.r.Int63n(2001) - 1000) * accounting.U
	case 4:
		return h.r.Int63n(2_000_000_00) * 1_000_000
	case 5:
		return h.r.Int63n(20001) - 10000
	case 6:
		n := int64(1)
		for i := h.r.Intn(19); i > 0; i-- {
			n *= 10
		}
		return n - int64(h.r.Intn(2))
	}
	return h.r.Int63n(2_000_000_000_000_000) - 1_000_000_000_000_000
}

// readBack gives the number which a text denotes with these separators, or nil.
func readBack(s, thousand, decimal string) *big.Int {
	neg := false
	if s != "" && (s[0] == '-' || s[0] == '+') {
		neg = s[0] == '-'
		s = s[1:]
	}
	ip, fp := s, ""
	if decimal != "" {
		if i := strings.Index(s, decimal); i >= 0 {
			ip, fp = s[:i], s[i+len(decimal):]
			if fp == "" {
				return nil
			}
		}
	}
	if thousand != "" && strings.Contains(ip, thousand) {
		parts := strings.Split(ip, thousand)
		for i, p := range parts {
			if i > 0 && len(p) != 3 || len(p) == 0 || len(p) > 3 {
				return nil
			}
		}
		ip = strings.Join(parts, "")
	}
	if ip == "" || len(fp) > 8 {
		return nil
	}
	for len(fp) < 8 {
		fp += "0"
	}
	for _, c := range ip + fp {
		if c < '0' || c > '9' {
			return nil
		}
	}
	x, ok := new(big.Int).SetString(ip+fp, 10)
	if !ok {
		return nil
	}
	if neg {
		x.Neg(x)
	}
	return x
}

func TestVerifP09(t *testing.T) {
	const punct = "-+0123456789.,_'"
	names := []string{"EUR", "$", "€", "x y", "ñ", "A-", "F.", "\"Q\"", "a'b"}
	search(t, "well-formed amounts, which must be read exactly, and damaged ones, which must be rejected or read as what they say; non-trivial: three or more characters", func(h *H) {
		l := &accounting.Ledger{Comments: map[interface{}][]string{}}
		c := conn(l)
		name := names[h.r.Intn(5)]
		if h.r.Intn(4) == 0 {
			name = ""
		}
		th := []string{"", "", ",", ".", "_", "'"}[h.r.Intn(6)]
		de := []string{".", ".", ",", "_", "'"}[h.r.Intn(5)]
		if th == de {
			th = ""
		}
		declared := h.r.Intn(2) == 0 && name != ""
		var cur *accounting.Currency
		if declared {
			cur = &accounting.Currency{Name: name, Thousand: th, Decimal: de, Precision: h.r.Intn(9)}
			l.Currencies = append(l.Currencies, &accounting.Currency{Name: "OTHER"}, cur)
			if h.r.Intn(4) == 0 { // known by name only
				cur.Thousand, cur.Decimal, cur.Precision = "", "", 0
			}
		}
		for k := 0; k < 3; k++ {
			n := h.money()
			if n == math.MinInt64 {
				n++
			}
			num, dec := decimalText(n, h.r.Intn(9), th, de)
			clear := true // it can be read in one way only
			known := declared && cur.Decimal != ""
			if !known && k > 0 {
				break
			}
			if known && (cur.Decimal != de || cur.Thousand != "" && cur.Thousand != th) {
				clear = false
			}
			if !known {
				ts := 0
				if th != "" {
					ts = strings.Count(num, th)
				}
				ip := len(num)
				if dec > 0 {
					ip = strings.Index(num, de)
				}
				switch {
				case ts == 1 && dec == 0:
					clear = false
				case ts == 0 && dec == 3 && ip <= 3:
					clear = false
				}
			}
			if n < 0 {
				num = "-" + num
			} else if h.r.Intn(8) == 0 {
				num = "+" + num
			}
			var s string
			sp := ""
			if h.r.Intn(2) == 0 {
				sp = " "
			}
			if h.r.Intn(2) == 0 {
				s = name + sp + num
			} else {
				s = num + sp + name
			}
			s = strings.TrimSpace(s)
			good := clear
			if h.r.Intn(3) == 0 { // damage it
				good = false
				b := []byte(s)
				for j, m := 0, 1+h.r.Intn(3); j < m && len(b) > 0; j++ {
					i := h.r.Intn(len(b))
					switch h.r.Intn(4) {
					case 0:
						b = append(b[:i], b[i+1:]...)
					case 1:
						b = append(b[:i], append([]byte{(punct + " E")[h.r.Intn(len(punct)+2)]}, b[i:]...)...)
					case 2:
						b[i] = (punct + " E")[h.r.Intn(len(punct)+2)]
					case 3:
						j := h.r.Intn(len(b))
						b[i], b[j] = b[j], b[i]
					}
				}
				s = string(b)
			}
			wasT, wasD := "", ""
			if declared {
				wasT, wasD = cur.Thousand, cur.Decimal
			}
			h.input(len(s) > 2, "%q (currency declared: %v, thousand %q, decimal %q)", s, declared, wasT, wasD)
			v, err, isNew := c.getValue(s)
			if err != nil {
				if good {
					h.fail("rejected", "%v", err)
				}
				if !declared {
					return
				}
				if cur.Thousand != wasT || cur.Decimal != wasD {
					return
				}
				continue
			}
			if good && v.Amount != n {
				h.fail("amount", "read as %d, it is %d", v.Amount, n)
			}
			if s == "" {
				if v != (accounting.Value{}) {
					h.fail("empty", "an empty text is read as %s", showValue(v))
				}
				continue
			}
			if v.Currency == nil {
				h.fail("no-currency", "no currency")
				continue
			}
			// the amount, found again in the text
			var am, nm string
			if strings.IndexByte("-+0123456789", s[0]) >= 0 {
				i := 0
				for i < len(s) && strings.IndexByte(punct, s[i]) >= 0 {
					i++
				}
				am, nm = s[:i], s[i:]
			} else {
				i := len(s)
				for i > 0 && strings.IndexByte(punct, s[i-1]) >= 0 {
					i--
				}
				am, nm = s[i:], s[:i]
			}
			nm = strings.TrimSpace(nm)
			x := readBack(am, v.Currency.Thousand, v.Currency.Decimal)
			if x == nil || !x.IsInt64() || x.Int64() != v.Amount {
				h.fail("different", "read as %d (thousand %q, decimal %q); the text says %v", v.Amount, v.Currency.Thousand, v.Currency.Decimal, x)
			}
			if nm != "" && v.Currency.Name != nm {
				h.fail("name", "currency %q, written %q", v.Currency.Name, nm)
			}
			if nm == "" && v.Currency != l.DefaultCurrency {
				h.fail("default", "an amount without currency is not in the default one")
			}
			if nm != "" {
				found := 0
				for _, x := range l.Currencies {
					if x.Name == nm {
						found++
						if x != v.Currency {
							h.fail("currency", "another currency with the same name")
						}
					}
				}
				if found != 1 {
					h.fail("currency", "%d currencies named %q", found, nm)
				}
				if isNew != !(declared && nm == name) && k == 0 && nm != "OTHER" {
					h.fail("new", "new currency: %v", isNew)
				}
			}
			if declared && v.Currency == cur && (wasT != "" && cur.Thousand != wasT || wasD != "" && cur.Decimal != wasD) {
				h.fail("format", "the format of the currency changed to %q %q", cur.Thousand, cur.Decimal)
			}
		}
	})
}

func TestVerifP10(t *testing.T) {
	search(t, "random amounts (the limits included) and currency formats; the text computed apart; non-trivial: amount not zero", func(h *H) {
		n := h.money()
		if h.r.Intn(20) == 0 {
			n = math.MinInt64
		}
		c := &accounting.Currency{Name: []string{"EUR", "$", "", "x y"}[h.r.Intn(4)], PrintBefore: h.r.Intn(2) == 0, WithoutSpace: h.r.Intn(2) == 0,
			Thousand: []string{"", ",", ".", " ", "''"}[h.r.Intn(5)], Decimal: []string{".", ",", "", "·"}[h.r.Intn(4)], Precision: h.r.Intn(9)}
		v := accounting.Value{Amount: n, Currency: c}
		if h.r.Intn(20) == 0 {
			v.Currency = nil
			c = &accounting.Currency{}
		}
		h.input(n != 0, "%d %+v", n, *c)
		de := c.Decimal
		if de == "" {
			de = "."
		}
		full, _ := decimalText(n, c.Precision, c.Thousand, de)
		all, _ := decimalText(n, 8, c.Thousand, de)
		short := all[:len(all)-8+c.Precision]
		if c.Precision == 0 {
			short = all[:len(all)-8-len(de)]
		}
		if n < 0 {
			full, short = "-"+full, "-"+short
		}
		wrap := func(s string) string {
			sp := " "
			if c.WithoutSpace {
				sp = ""
			}
			if c.PrintBefore {
				return c.Name + sp + s
			}
			if c.Name == "" {
				sp = ""
			}
			return s + sp + c.Name
		}
		// an unnamed currency put before has no text of its own: with or without a space
		eq := func(got, want string) bool {
			return got == want || c.Name == "" && strings.TrimPrefix(got, " ") == strings.TrimPrefix(want, " ")
		}
		if got := v.GetString(true, false); got != full {
			h.fail("full", "full text %q, expected %q", got, full)
		}
		if got := v.GetString(false, false); got != short {
			h.fail("short", "short text %q, expected %q", got, short)
		}
		if got := v.FullString(); !eq(got, wrap(full)) {
			h.fail("fullstring", "full text %q, expected %q", got, wrap(full))
		}
		if got := v.String(); !eq(got, wrap(short)) {
			h.fail("string", "short text %q, expected %q", got, wrap(short))
		}
		if got := v.GetString(true, true); !eq(got, wrap(full)) {
			h.fail("fullstring", "full text %q, expected %q", got, wrap(full))
		}
		if h.r.Intn(4) == 0 {
			b := accounting.Balance{v}
			want := v.String()
			for i, m := 0, h.r.Intn(3); i < m; i++ {
				w := accounting.Value{Amount: h.money(), Currency: &accounting.Currency{Name: fmt.Sprint("N", i), Precision: 2}}
				b = append(b, w)
				want += ", " + w.String()
			}
			if want != "" && b.String() != want {
				h.fail("balance", "balance %q, expected %q", b.String(), want)
			}
			if s := (accounting.Balance{}).String(); s != "0" {
				h.fail("balance", "empty balance: %q", s)
			}
		}
	})
}

var dateRE = regexp.MustCompile(`^(\d{4})-(\d\d)-(\d\d)(?:-(\d{1,2})(?:-(\d\d)(?:-(\d\d)(?:[.,]\d+)?)?)?)?$`)

func TestVerifP19(t *testing.T) {
	search(t, "dates in every layout with every separator, exact or damaged; non-trivial: eight or more characters", func(h *H) {
		y, mo, d := h.r.Intn(10000), h.r.Intn(14), h.r.Intn(33)
		if h.r.Intn(2) == 0 {
			y, mo, d = 1990+h.r.Intn(50), 1+h.r.Intn(12), 1+h.r.Intn(28)
		}
		hh, mi, ss := h.r.Intn(24), h.r.Intn(60), h.r.Intn(60)
		if h.r.Intn(10) == 0 {
			hh, mi, ss = h.r.Intn(30), h.r.Intn(70), h.r.Intn(70)
		}
		sep := func() string { return string("-/_:."[h.r.Intn(5)]) }
		s := fmt.Sprintf("%04d%s%02d%s%02d", y, sep(), mo, sep(), d)
		parts := h.r.Intn(4)
		if parts > 0 {
			s += fmt.Sprintf("%s%02d", sep(), hh)
		}
		if parts > 1 {
			s += fmt.Sprintf("%s%02d", sep(), mi)
		}
		if parts > 2 {
			s += fmt.Sprintf("%s%02d", sep(), ss)
		}
		if h.r.Intn(3) == 0 {
			b := []byte(s)
			for j, m := 0, 1+h.r.Intn(2); j < m && len(b) > 0; j++ {
				i := h.r.Intn(len(b))
				const set = "0123456789-/_:. ,xT+Z"
				switch h.r.Intn(3) {
				case 0:
					b = append(b[:i], b[i+1:]...)
				case 1:
					b = append(b[:i], append([]byte{set[h.r.Intn(len(set))]}, b[i:]...)...)
				case 2:
					b[i] = set[h.r.Intn(len(set))]
				}
			}
			s = string(b)
		}
		h.input(len(s) >= 8, "%q", s)
		got, err := GetDate(s)
		norm := strings.NewReplacer("/", "-", "_", "-", ":", "-", ".", "-").Replace(s)
		m := dateRE.FindStringSubmatch(norm)
		valid := m != nil
		var want time.Time
		loose := false
		if valid {
			var f [7]int
			for i := 1; i < 7; i++ {
				fmt.Sscanf(strings.TrimLeft(m[i], "0")+" ", "%d", &f[i])
			}
			if m[4] == "" {
				f[4] = 12
			}
			loose = len(m[4]) == 1 || strings.ContainsAny(norm, ",.") // forms which may be read or not
			leap := f[1]%4 == 0 && (f[1]%100 != 0 || f[1]%400 == 0)
			days := []int{31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}
			if f[2] < 1 || f[2] > 12 || f[4] > 23 || f[5] > 59 || f[6] > 59 {
				valid = false
			} else {
				n := days[f[2]-1]
				if f[2] == 2 && leap {
					n = 29
				}
				if f[3] < 1 || f[3] > n {
					valid = false
				}
			}
			want = time.Date(f[1], time.Month(f[2]), f[3], f[4], f[5], f[6], 0, time.UTC)
		}
		switch {
		case err == nil && !valid:
			h.fail("accepted", "read as %s", got)
		case err != nil && valid && !loose:
			h.fail("rejected", "%v", err)
		case err == nil && valid && !loose && (!got.Equal(want) || got.Location() != time.UTC):
			h.fail("date", "read as %s, it is %s", got, want)
		case err == nil && valid && loose && (got.Sub(want) < 0 || got.Sub(want) >= time.Second):
			h.fail("date", "read as %s, it is %s", got, want)
		}
	})
}
