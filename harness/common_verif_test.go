package ledger

// Search for failing inputs: it backs the proofs of /verif (replay of failed
// obligations against the real code).  It uses the exported API only, except
// for the functions which the tests of the repository use too.

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"runtime/debug"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/cespedes/accounting"
)

type hFail struct {
	Key  string `json:"key"`
	Text string `json:"text"`
}

type hOut struct {
	Evaluations int      `json:"evaluations"`
	Distinct    int      `json:"distinct_nontrivial"`
	Rule        string   `json:"rule"`
	Samples     []string `json:"samples"`
	Failures    []hFail  `json:"failures"`
	Done        bool     `json:"done"`
}

type H struct {
	r     *rand.Rand
	out   hOut
	seen  map[uint64]bool
	cur   string
	stop  bool
	trace *os.File
	seed  int64
}

// input records what is about to be tried.
func (h *H) input(nontrivial bool, format string, args ...interface{}) {
	h.cur = fmt.Sprintf(format, args...)
	h.out.Evaluations++
	if h.trace != nil {
		b := []byte(h.cur)
		h.trace.Truncate(0)
		h.trace.WriteAt(b, 0)
	}
	if nontrivial {
		f := fnv.New64a()
		f.Write([]byte(h.cur))
		if !h.seen[f.Sum64()] {
			h.seen[f.Sum64()] = true
			h.out.Distinct++
			if len(h.out.Samples) < 3 && len(h.cur) < 1500 {
				h.out.Samples = append(h.out.Samples, h.cur)
			}
		}
	}
}

func (h *H) fail(key, format string, args ...interface{}) {
	for _, f := range h.out.Failures {
		if f.Key == key {
			return
		}
	}
	h.out.Failures = append(h.out.Failures, hFail{key, fmt.Sprintf(format, args...) + "\ninput:\n" + h.cur})
	if len(h.out.Failures) >= 3 {
		h.stop = true
	}
}

func envInt(name string, def int64) int64 {
	if n, err := strconv.ParseInt(os.Getenv(name), 10, 64); err == nil {
		return n
	}
	return def
}

// search runs f with random choices until the time is over.
func search(t *testing.T, rule string, f func(h *H)) {
	h := &H{seen: map[uint64]bool{}}
	h.out.Rule = rule
	seed := envInt("VERIF_SEED", 1)*1000003 + envInt("VERIF_WORKER", 0)
	ms := envInt("VERIF_MS", 3000)
	if fn := os.Getenv("VERIF_TRACE"); fn != "" {
		h.trace, _ = os.Create(fn)
	}
	end := time.Now().Add(time.Duration(ms) * time.Millisecond)
	for i := int64(0); !h.stop && (i < 50 || time.Now().Before(end)); i++ {
		h.seed = seed*7919 + i
		h.r = rand.New(rand.NewSource(h.seed))
		func() {
			defer func() {
				if e := recover(); e != nil {
					st := string(debug.Stack())
					key := "panic"
					h.fail(key, "panic: %v\n%s", e, firstFrames(st))
				}
			}()
			f(h)
		}()
		if len(h.seen) > 3000000 {
			break
		}
	}
	h.out.Done = true
	if fn := os.Getenv("VERIF_OUT"); fn != "" {
		b, _ := json.Marshal(h.out)
		os.WriteFile(fn, b, 0o644)
	}
	for _, f := range h.out.Failures {
		t.Errorf("%s: %s", f.Key, f.Text)
	}
	t.Logf("%d evaluations, %d distinct", h.out.Evaluations, h.out.Distinct)
}

func firstFrames(st string) string {
	var out []string
	for _, l := range strings.Split(st, "\n") {
		if strings.Contains(l, "/repo/") || strings.Contains(l, "cespedes/accounting") {
			if !strings.Contains(l, "verif_test") {
				out = append(out, strings.TrimSpace(l))
			}
		}
		if len(out) > 6 {
			break
		}
	}
	return strings.Join(out, "\n")
}

// ------------------------------------------------------------ own arithmetic

// bag is an independent representation of a balance.
type bag map[*accounting.Currency]int64

func (b bag) add(v accounting.Value) {
	if v.Amount == 0 {
		return
	}
	b[v.Currency] += v.Amount
	if b[v.Currency] == 0 {
		delete(b, v.Currency)
	}
}

func (b bag) dup() bag {
	n := bag{}
	for k, v := range b {
		n[k] = v
	}
	return n
}

// sameBag compares a balance with its expected contents: canonical form included.
func sameBag(x accounting.Balance, b bag) string {
	seen := bag{}
	for _, v := range x {
		if v.Amount == 0 {
			return "entry with amount zero"
		}
		if _, ok := seen[v.Currency]; ok {
			return "two entries for the same currency"
		}
		seen[v.Currency] = v.Amount
	}
	for c, n := range seen {
		if b[c] != n {
			return fmt.Sprintf("currency %s: %d, expected %d", cname(c), n, b[c])
		}
	}
	for c, n := range b {
		if seen[c] != n {
			return fmt.Sprintf("currency %s: %d, expected %d", cname(c), seen[c], n)
		}
	}
	return ""
}

func cname(c *accounting.Currency) string {
	if c == nil {
		return "(none)"
	}
	return strconv.Quote(c.Name)
}

func showValue(v accounting.Value) string { return fmt.Sprintf("%d %s", v.Amount, cname(v.Currency)) }

func showBalance(b accounting.Balance) string {
	var s []string
	for _, v := range b {
		s = append(s, showValue(v))
	}
	return "[" + strings.Join(s, ", ") + "]"
}

func bagOf(x accounting.Balance) bag {
	b := bag{}
	for _, v := range x {
		b.add(v)
	}
	return b
}

type sid string

func (s sid) String() string { return string(s) }
