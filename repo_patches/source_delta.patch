From e4b99f947f5fbd0d7af00ae4e542181f46ae2974 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:27 +0000
Subject: [PATCH 01/25] fix: deterministic automatic prices, and no division by
 zero

A split with a price and a zero amount ("10 A @@ 0 B") made Fill panic, as did
a priced split discarded by the parser; and the automatic prices were added in
the (random) order of a map, so conversions could change between two runs.
---
 accounting.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/accounting.go b/accounting.go
index 002612c..fb1d325 100644
--- a/accounting.go
+++ b/accounting.go
@@ -775,8 +775,20 @@ func (l *Ledger) Fill() error {
 		return fmt.Errorf("%s: deadlock (cannot balance transaction)", l.Transactions[iTransactions].ID)
 	}
 
-	// Adding prices from splits
-	for s, v := range l.SplitPrices {
+	// Adding prices from splits, always in the same order
+	var pricedSplits []*Split
+	for _, t := range l.Transactions {
+		for _, s := range t.Splits {
+			if _, ok := l.SplitPrices[s]; ok {
+				pricedSplits = append(pricedSplits, s)
+			}
+		}
+	}
+	for _, s := range pricedSplits {
+		v := l.SplitPrices[s]
+		if s.Value.Amount == 0 || v.Amount == 0 {
+			continue // no exchange rate can be deduced from this split
+		}
 		price := new(Price)
 		price.Time = *s.Time
 		price.Currency = s.Value.Currency
-- 
2.43.0


From 85db0dd4cbb1364d195f3b7f25f4c67c24748339 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:55 +0000
Subject: [PATCH 02/25] fix: balance assertions in a currency the account does
 not hold

Asserting a zero balance failed if the account had only other currencies, and a
posting with just an assertion failed in an account with other currencies, or
ended in a deadlock error if the asserted balance was already zero.
---
 accounting.go | 30 ++++++++++--------------------
 1 file changed, 10 insertions(+), 20 deletions(-)

diff --git a/accounting.go b/accounting.go
index fb1d325..746422a 100644
--- a/accounting.go
+++ b/accounting.go
@@ -741,31 +741,21 @@ func (l *Ledger) Fill() error {
 				b.Add(s.Value)
 				s.Balance = b.Dup()
 				if a := l.Assertions[s]; a != (Value{}) {
-					if a.Amount == 0 && len(b) == 0 {
-						a = Value{}
-					} else if s.Value == (Value{}) && len(b) == 0 {
-						s.Value = a
-						s.Value.Amount = a.Amount
-						b.Add(s.Value)
-						s.Balance.Add(s.Value)
-						a = Value{}
-					}
+					current := Value{Currency: a.Currency}
 					for _, v := range b {
 						if v.Currency == a.Currency {
-							if s.Value == (Value{}) {
-								s.Value = a
-								s.Value.Amount = a.Amount - v.Amount
-								b.Add(s.Value)
-								s.Balance.Add(s.Value)
-							} else if v.Amount != a.Amount {
-								return fmt.Errorf("%s: wrong assertion: %s != %s", s.ID, v, a)
-							}
-							a = Value{}
+							current = v
 							break
 						}
 					}
-					if a != (Value{}) {
-						return fmt.Errorf("%s: wrong assertion: %s", s.ID, a)
+					if s.Value == (Value{}) {
+						// no amount: it is deduced from the assertion
+						s.Value = a
+						s.Value.Amount = a.Amount - current.Amount
+						b.Add(s.Value)
+						s.Balance.Add(s.Value)
+					} else if current.Amount != a.Amount {
+						return fmt.Errorf("%s: wrong assertion: %s != %s", s.ID, current, a)
 					}
 				}
 			}
-- 
2.43.0


From 671c9a7d33f48712c9cef3471c736db321b1bc23 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:56 +0000
Subject: [PATCH 03/25] fix: GetBalance before the first split of an account

It returned the balance after that split (or the current one).
---
 accounting.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/accounting.go b/accounting.go
index 746422a..1a2d6cf 100644
--- a/accounting.go
+++ b/accounting.go
@@ -319,11 +319,14 @@ func (a Account) FullName() string {
 // If passed the zero value, it gets the current balance.
 func (l *Ledger) GetBalance(account *Account, when time.Time) Balance {
 	if len(account.Splits) == 0 {
-		return nil
+		return account.StartBalance
 	}
 	if (when == time.Time{}) {
 		return account.Splits[len(account.Splits)-1].Balance
 	}
+	if account.Splits[0].Time.After(when) {
+		return account.StartBalance
+	}
 	for i := 1; i < len(account.Splits); i++ {
 		if account.Splits[i].Time.After(when) {
 			return account.Splits[i-1].Balance
-- 
2.43.0


From af961721bd31eabb5790ad80d4f2c926b8e62933 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:57 +0000
Subject: [PATCH 04/25] fix: endless recursion and nil currency in Convert

With two currencies having prices in each other and no way to reach the
requested one, Convert called itself until the stack was exhausted. It also
panicked if there was no currency to convert to.
---
 accounting.go | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/accounting.go b/accounting.go
index 1a2d6cf..8de613d 100644
--- a/accounting.go
+++ b/accounting.go
@@ -520,8 +520,25 @@ func insertAccount(where *[]*Account, account *Account) {
 	}
 }
 
+func currencyIn(currency *Currency, list []*Currency) bool {
+	for _, c := range list {
+		if c == currency {
+			return true
+		}
+	}
+	return false
+}
+
 // Convert returns a value to another currency.
 func (l *Ledger) Convert(v Value, when time.Time, currency *Currency) (Value, error) {
+	if currency == nil && v.Currency != nil {
+		return v, fmt.Errorf("could not convert %q: no currency to convert to", v)
+	}
+	return l.convert(v, when, currency, nil)
+}
+
+// convert is like Convert, without using any of the currencies in visited as an intermediate step.
+func (l *Ledger) convert(v Value, when time.Time, currency *Currency, visited []*Currency) (Value, error) {
 	if v.Currency == currency {
 		//fmt.Printf("Convert(%s,%s,%s) = %s (1)\n", v, when.Format("2006-01-02"), currency.Name, v)
 		return v, nil
@@ -551,7 +568,7 @@ func (l *Ledger) Convert(v Value, when time.Time, currency *Currency) (Value, er
 	}
 	if prevTime == (time.Time{}) && nextTime == (time.Time{}) { // no price match
 		for _, p := range l.Prices {
-			if p.Currency != v.Currency {
+			if p.Currency != v.Currency || p.Value.Currency == v.Currency || currencyIn(p.Value.Currency, visited) {
 				continue
 			}
 			if p.Time.Before(when) {
@@ -569,11 +586,11 @@ func (l *Ledger) Convert(v Value, when time.Time, currency *Currency) (Value, er
 			//fmt.Printf("Convert(%s,%s,%s) = %s (3)\n", v, when.Format("2006-01-02"), currency.Name, v)
 			return v, fmt.Errorf("could not convert %q to %q", v, currency.Name)
 		}
-		nv, err := l.Convert(v, when, prevValue.Currency)
+		nv, err := l.convert(v, when, prevValue.Currency, append(visited, prevValue.Currency))
 		if err != nil {
 			return nv, err
 		}
-		return l.Convert(nv, when, currency)
+		return l.convert(nv, when, currency, append(visited, v.Currency))
 	}
 	if nextTime == (time.Time{}) {
 		prevValue.Mul(v)
-- 
2.43.0


From 67a15eb1590bd158bd6907af66be8d71f1611fcc Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:12 +0000
Subject: [PATCH 05/25] fix: currencies missing from Ledger.Currencies were
 lost in Clone

The values without currency name (and the ones in the txtdb back-end) use a
currency which is not in that list, and their clones had no currency at all.
---
 accounting.go | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/accounting.go b/accounting.go
index 8de613d..66c42ce 100644
--- a/accounting.go
+++ b/accounting.go
@@ -188,6 +188,17 @@ func (l *Ledger) Clone() *Ledger {
 	for _, c := range l.Currencies {
 		mapCurrencies[c] = new(Currency)
 	}
+	// not all the currencies have to be in l.Currencies:
+	cloneCurrency := func(c *Currency) *Currency {
+		if c == nil {
+			return nil
+		}
+		if mapCurrencies[c] == nil {
+			mapCurrencies[c] = new(Currency)
+			*mapCurrencies[c] = *c
+		}
+		return mapCurrencies[c]
+	}
 	for _, p := range l.Prices {
 		mapPrices[p] = new(Price)
 	}
@@ -214,7 +225,7 @@ func (l *Ledger) Clone() *Ledger {
 		na.StartBalance = make([]Value, len(a.StartBalance))
 		for k, v := range a.StartBalance {
 			na.StartBalance[k].Amount = v.Amount
-			na.StartBalance[k].Currency = mapCurrencies[v.Currency]
+			na.StartBalance[k].Currency = cloneCurrency(v.Currency)
 		}
 	}
 	res.Transactions = make([]*Transaction, len(l.Transactions))
@@ -241,11 +252,11 @@ func (l *Ledger) Clone() *Ledger {
 				*ns.Time = *s.Time
 			}
 			ns.Value.Amount = s.Value.Amount
-			ns.Value.Currency = mapCurrencies[s.Value.Currency]
+			ns.Value.Currency = cloneCurrency(s.Value.Currency)
 			ns.Balance = make([]Value, len(s.Balance))
 			for k, v := range s.Balance {
 				ns.Balance[k].Amount = v.Amount
-				ns.Balance[k].Currency = mapCurrencies[v.Currency]
+				ns.Balance[k].Currency = cloneCurrency(v.Currency)
 			}
 		}
 	}
@@ -268,23 +279,23 @@ func (l *Ledger) Clone() *Ledger {
 		res.Prices[i] = np
 		np.ID = p.ID
 		np.Time = p.Time
-		np.Currency = mapCurrencies[p.Currency]
+		np.Currency = cloneCurrency(p.Currency)
 		np.Value.Amount = p.Value.Amount
-		np.Value.Currency = mapCurrencies[p.Value.Currency]
+		np.Value.Currency = cloneCurrency(p.Value.Currency)
 	}
 	res.Comments = make(map[interface{}][]string)
 	// TODO: Comments are not deep-copied (I have to deal with interface{})
 	res.Assertions = make(map[*Split]Value)
 	for s, v := range l.Assertions {
-		v.Currency = mapCurrencies[v.Currency]
+		v.Currency = cloneCurrency(v.Currency)
 		res.Assertions[mapSplits[s]] = v
 	}
 	res.SplitPrices = make(map[*Split]Value)
 	for s, v := range l.SplitPrices {
-		v.Currency = mapCurrencies[v.Currency]
+		v.Currency = cloneCurrency(v.Currency)
 		res.SplitPrices[mapSplits[s]] = v
 	}
-	res.DefaultCurrency = mapCurrencies[l.DefaultCurrency]
+	res.DefaultCurrency = cloneCurrency(l.DefaultCurrency)
 
 	return res
 }
-- 
2.43.0


From 14ec363eb5b4571beddfbd3780838fe784a950d3 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:40 +0000
Subject: [PATCH 06/25] fix: Clone lost all the comments

"ledger print" works on a clone, so it never printed any comment.
---
 accounting.go | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/accounting.go b/accounting.go
index 66c42ce..66d12b1 100644
--- a/accounting.go
+++ b/accounting.go
@@ -284,7 +284,30 @@ func (l *Ledger) Clone() *Ledger {
 		np.Value.Currency = cloneCurrency(p.Value.Currency)
 	}
 	res.Comments = make(map[interface{}][]string)
-	// TODO: Comments are not deep-copied (I have to deal with interface{})
+	for where, comments := range l.Comments {
+		switch x := where.(type) {
+		case *Account:
+			if na, ok := mapAccounts[x]; ok {
+				res.Comments[na] = append([]string(nil), comments...)
+			}
+		case *Transaction:
+			if nt, ok := mapTransactions[x]; ok {
+				res.Comments[nt] = append([]string(nil), comments...)
+			}
+		case *Split:
+			if ns, ok := mapSplits[x]; ok {
+				res.Comments[ns] = append([]string(nil), comments...)
+			}
+		case *Currency:
+			if nc, ok := mapCurrencies[x]; ok {
+				res.Comments[nc] = append([]string(nil), comments...)
+			}
+		case *Price:
+			if np, ok := mapPrices[x]; ok {
+				res.Comments[np] = append([]string(nil), comments...)
+			}
+		}
+	}
 	res.Assertions = make(map[*Split]Value)
 	for s, v := range l.Assertions {
 		v.Currency = cloneCurrency(v.Currency)
-- 
2.43.0


From 1d7254acb39266493e83a624f75ac1f1ba7d8256 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:41 +0000
Subject: [PATCH 07/25] fix: print the lowest possible amount

It cannot be negated, so its decimals were shown with a sign of their own.
---
 accounting.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/accounting.go b/accounting.go
index 66d12b1..963c757 100644
--- a/accounting.go
+++ b/accounting.go
@@ -81,12 +81,13 @@ func (value Value) GetString(full bool, units bool) string {
 			result += " "
 		}
 	}
+	amount := uint64(value.Amount)
 	if value.Amount < 0 {
 		result += "-"
-		value.Amount = -value.Amount
+		amount = -amount
 	}
-	i := value.Amount / U
-	d := value.Amount % U
+	i := amount / U
+	d := amount % U
 	if c.Decimal == "" { // shouldn't happen
 		c.Decimal = "."
 	}
-- 
2.43.0


From 0904592b1f34922c8bdeab5ae26db4c0e0473824 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:42 +0000
Subject: [PATCH 08/25] fix: Export wrote the additional comments of accounts
 with a colon

So they were not read back as comments.
---
 backend/ledger/ledger.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/backend/ledger/ledger.go b/backend/ledger/ledger.go
index 9c27f33..32a70c2 100644
--- a/backend/ledger/ledger.go
+++ b/backend/ledger/ledger.go
@@ -53,7 +53,7 @@ func Export(out io.Writer, ledger *accounting.Ledger) {
 		fmt.Fprint(out, "\n")
 		if len(ledger.Comments[a]) > 1 {
 			for _, c := range ledger.Comments[a][1:] {
-				fmt.Fprintf(out, "\t: %s\n", c)
+				fmt.Fprintf(out, "\t; %s\n", c)
 			}
 		}
 	}
-- 
2.43.0


From a1cf5ef1424eb411f029c5648cf23e5d51a6ef07 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:45 +0000
Subject: [PATCH 09/25] fix: report the errors found when reading a journal

A journal which could not be opened was loaded as an empty ledger, and one with
a read error (or a line too long) was silently truncated.
---
 backend/ledger/ledger.go | 4 +++-
 backend/ledger/parser.go | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/backend/ledger/ledger.go b/backend/ledger/ledger.go
index 32a70c2..269270e 100644
--- a/backend/ledger/ledger.go
+++ b/backend/ledger/ledger.go
@@ -30,7 +30,9 @@ func (driver) Open(name string, backend *accounting.Backend) (accounting.Connect
 	conn.file = url.Path
 	conn.backend = backend
 	conn.ledger = backend.Ledger
-	conn.readJournal()
+	if err = conn.readJournal(); err != nil {
+		return nil, err
+	}
 	return conn, nil
 }
 
diff --git a/backend/ledger/parser.go b/backend/ledger/parser.go
index 1973619..0bc69c4 100644
--- a/backend/ledger/parser.go
+++ b/backend/ledger/parser.go
@@ -188,7 +188,9 @@ func (l *ledgerConnection) readJournal() error {
 	l.ledger.SplitPrices = make(map[*accounting.Split]accounting.Value)
 	l.ledger.DefaultCurrency = nil
 	s := NewScanner()
-	s.NewFile(l.file)
+	if err := s.NewFile(l.file); err != nil {
+		return err
+	}
 
 	lastLine := lineNone
 	for {
-- 
2.43.0


From 411a78cd5f12a01b2b3e16c9d29ed5ffa48eb279 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:46 +0000
Subject: [PATCH 10/25] fix: endless inclusion of a file by itself

It went on until there were no file descriptors left, and then every line of the
file was processed thousands of times.
---
 backend/ledger/parser.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/backend/ledger/parser.go b/backend/ledger/parser.go
index 0bc69c4..6d1b3aa 100644
--- a/backend/ledger/parser.go
+++ b/backend/ledger/parser.go
@@ -95,6 +95,11 @@ func (s *Scanner) NewFile(filename string) error {
 	if len(filename) > 0 && filename[0] != '/' && len(s.files) > 0 {
 		filename = path.Join(path.Dir(s.files[len(s.files)-1].filename), filename)
 	}
+	for i := range s.files {
+		if s.files[i].filename == filename {
+			return errors.New(filename + " is already being read")
+		}
+	}
 	f, err := os.Open(filename)
 	if err != nil {
 		return err
-- 
2.43.0


From 6b90972f03e753a5b887666d363474492a56425a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:47 +0000
Subject: [PATCH 11/25] fix: amounts with a known thousand sign after one or
 two digits

Once the thousand sign of a currency was known, amounts such as "1,234.56" were
rejected (and "100,234.56" accepted), so the postings with them were discarded.
---
 backend/ledger/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/backend/ledger/parser.go b/backend/ledger/parser.go
index 6d1b3aa..4fc0aee 100644
--- a/backend/ledger/parser.go
+++ b/backend/ledger/parser.go
@@ -551,7 +551,7 @@ done2:
 		}
 		if value.Currency.Thousand == string(c) || (value.Currency.Thousand == "" && value.Currency.Decimal != "" && value.Currency.Decimal != string(c)) {
 			value.Currency.Thousand = string(c)
-			if (thousandPos == -1 && i > 3) || i-thousandPos != 4 || decimalPos > -1 {
+			if (thousandPos == -1 && i > 3) || (thousandPos > -1 && i-thousandPos != 4) || decimalPos > -1 {
 				return value, fmt.Errorf("syntax error: wrong position for thousand sign '%s'", value.Currency.Thousand), newCurrency
 			}
 			thousandPos = i
-- 
2.43.0


From b9cbe7857cc7f8ab4d891cfcd7a8f781e9be8148 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:49 +0000
Subject: [PATCH 12/25] fix: last thousand sign of an amount in a wrong
 position

"1,00" was read as 100 if the comma was already known as a thousand sign.
---
 backend/ledger/parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/backend/ledger/parser.go b/backend/ledger/parser.go
index 4fc0aee..07e1d3f 100644
--- a/backend/ledger/parser.go
+++ b/backend/ledger/parser.go
@@ -595,6 +595,9 @@ done2:
 	if punct != "" {
 		return value, fmt.Errorf("syntax error: punctuation '%s' can be a thousand or a decimal", punct), newCurrency
 	}
+	if thousandPos > -1 && decimalPos == -1 && len(sAmount)-thousandPos != 4 {
+		return value, fmt.Errorf("syntax error: wrong position for thousand sign '%s'", value.Currency.Thousand), newCurrency
+	}
 	shift := 0
 	if decimalPos == -1 {
 		shift = 8
-- 
2.43.0


From 6e94c89b8c19d34a81df73847af785720688cbfb Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:50 +0000
Subject: [PATCH 13/25] fix: quote as punctuation mark in amounts after the
 currency

As documented, and as it was already done in amounts before the currency.
---
 backend/ledger/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/backend/ledger/parser.go b/backend/ledger/parser.go
index 07e1d3f..7bf5cea 100644
--- a/backend/ledger/parser.go
+++ b/backend/ledger/parser.go
@@ -480,7 +480,7 @@ func (l *ledgerConnection) getValue(s string) (accounting.Value, error, bool) {
 		// first currency, then amount
 		value.Currency.PrintBefore = true
 		for i := len(s) - 1; i >= 0; i-- {
-			if !strings.ContainsRune("-+0123456789.,_", rune(s[i])) {
+			if !strings.ContainsRune("-+0123456789.,_'", rune(s[i])) {
 				if !unicode.IsSpace(rune(s[i])) {
 					value.Currency.WithoutSpace = true
 				}
-- 
2.43.0


From cc0f68d8014b118826aab132f0f56a12c728b160 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:27 +0000
Subject: [PATCH 14/25] fix: reject the amounts which do not fit in a Value

They overflowed, and a different amount was silently stored.
---
 backend/ledger/parser.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/backend/ledger/parser.go b/backend/ledger/parser.go
index 7bf5cea..17e7670 100644
--- a/backend/ledger/parser.go
+++ b/backend/ledger/parser.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"io"
 	"log"
+	"math"
 	"math/big"
 	"os"
 	"path"
@@ -412,6 +413,10 @@ func (l *ledgerConnection) readJournal() error {
 					k := big.NewInt(s.Value.Amount)
 					k.Mul(k, big.NewInt(value.Amount))
 					k.Quo(k, big.NewInt(accounting.U))
+					if !k.IsInt64() {
+						log.Printf("%s:%d: total price too big\n", line.Filename, line.LineNum)
+						continue
+					}
 					value.Amount = k.Int64()
 				}
 				l.ledger.SplitPrices[s] = value
@@ -533,8 +538,12 @@ done2:
 	}
 	for i, c := range sAmount {
 		if c >= '0' && c <= '9' {
+			digit := int64(c - '0')
+			if value.Amount > (math.MaxInt64-digit)/10 {
+				return value, errors.New("syntax error: amount too big"), newCurrency
+			}
 			value.Amount *= 10
-			value.Amount += int64(c - '0')
+			value.Amount += digit
 			continue
 		}
 		if i == 0 {
@@ -612,6 +621,9 @@ done2:
 		return value, fmt.Errorf("syntax error: too many decimal numbers"), newCurrency
 	}
 	for i := 0; i < shift; i++ {
+		if value.Amount > math.MaxInt64/10 {
+			return value, errors.New("syntax error: amount too big"), newCurrency
+		}
 		value.Amount *= 10
 	}
 	value.Amount *= sign
-- 
2.43.0


From 26ca2ad290be6835aa33f1e6df375301dd0cb798 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:28 +0000
Subject: [PATCH 15/25] fix: comments after a commodity directive

They were added to the last currency seen for the first time, which may be any
other one, and the program panicked if there was none.
---
 backend/ledger/parser.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/backend/ledger/parser.go b/backend/ledger/parser.go
index 17e7670..3f93b94 100644
--- a/backend/ledger/parser.go
+++ b/backend/ledger/parser.go
@@ -199,6 +199,7 @@ func (l *ledgerConnection) readJournal() error {
 	}
 
 	lastLine := lineNone
+	var lastCommodity *accounting.Currency
 	for {
 		line := s.Line()
 		if line.Err != nil {
@@ -229,8 +230,9 @@ func (l *ledgerConnection) readJournal() error {
 					var account *accounting.Account = l.ledger.Accounts[len(l.ledger.Accounts)-1]
 					l.addComment(account, comment)
 				case lineCommodity:
-					var currency *accounting.Currency = l.ledger.Currencies[len(l.ledger.Currencies)-1]
-					l.addComment(currency, comment)
+					if lastCommodity != nil {
+						l.addComment(lastCommodity, comment)
+					}
 				case linePrice:
 					var price *accounting.Price = l.ledger.Prices[len(l.ledger.Prices)-1]
 					l.addComment(price, comment)
@@ -308,11 +310,13 @@ func (l *ledgerConnection) readJournal() error {
 		}
 		if !indented && word == "commodity" {
 			lastLine = lineCommodity
-			_, err, _ := l.getValue(rest)
+			lastCommodity = nil
+			value, err, _ := l.getValue(rest)
 			if err != nil {
 				log.Printf("%s:%d: Syntax error: %s", line.Filename, line.LineNum, err.Error())
 				continue
 			}
+			lastCommodity = value.Currency
 			continue
 		}
 		if !indented && word == "account" {
-- 
2.43.0


From 1ada5071252a6034f5dac546ef46d1001fb27a8d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:30 +0000
Subject: [PATCH 16/25] fix: remove all the automatic transfer splits in Fill

If Fill was called twice, only half of them were removed and the transactions
were no longer balanced.
---
 accounting.go | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/accounting.go b/accounting.go
index 963c757..afcb705 100644
--- a/accounting.go
+++ b/accounting.go
@@ -668,17 +668,14 @@ func (l *Ledger) Fill() error {
 
 	// Remove splits with transferAccount, if any:
 	for i := range l.Transactions {
-		// TODO: this may be buggy!
-		for j := range l.Transactions[i].Splits {
-			if j >= len(l.Transactions[i].Splits) {
-				break
-			}
-			l.Transactions[i].Splits[j].Balance = nil
-			if l.Transactions[i].Splits[j].Account == &TransferAccount {
-				l.Transactions[i].Splits[j] = l.Transactions[i].Splits[len(l.Transactions[i].Splits)-1]
-				l.Transactions[i].Splits = l.Transactions[i].Splits[:len(l.Transactions[i].Splits)-1]
+		var splits []*Split
+		for _, s := range l.Transactions[i].Splits {
+			s.Balance = nil
+			if s.Account != &TransferAccount {
+				splits = append(splits, s)
 			}
 		}
+		l.Transactions[i].Splits = splits
 	}
 	sort.SliceStable(l.Transactions, func(i, j int) bool {
 		return l.Transactions[i].Time.Before(l.Transactions[j].Time)
-- 
2.43.0


From 5d47b12c649bb45bd4f1d15b881c65ce5c1fdefc Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:31 +0000
Subject: [PATCH 17/25] fix: market prices and repeated accounts in "ledger
 delta"

The final balance was valued with the prices at the begin date, and an account
matching two arguments was added twice.
---
 cmd/ledger/main.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/ledger/main.go b/cmd/ledger/main.go
index 5b59108..10f8e28 100644
--- a/cmd/ledger/main.go
+++ b/cmd/ledger/main.go
@@ -319,6 +319,7 @@ func runDelta(L *accounting.Ledger, flags flags, args []string) error {
 		for _, b := range args {
 			if strings.Contains(strings.ToLower(a.FullName()), strings.ToLower(b)) {
 				accounts = append(accounts, a)
+				break
 			}
 		}
 	}
@@ -343,7 +344,7 @@ func runDelta(L *accounting.Ledger, flags flags, args []string) error {
 		balanceEnd.AddBalance(balanceBegin)
 		balanceEnd.AddBalance(balanceDelta)
 		for _, v := range balanceEnd {
-			nv, err := L.Convert(v, flags.beginDate, L.DefaultCurrency)
+			nv, err := L.Convert(v, flags.endDate, L.DefaultCurrency)
 			if err != nil {
 				return err
 			}
-- 
2.43.0


From 8c043a46ccd7ab1048a804450013bdb4b1019c27 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:32 +0000
Subject: [PATCH 18/25] fix: balances of the accounts without movements in the
 period

"ledger balance" added them to the total but did not show them.
---
 cmd/ledger/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/ledger/main.go b/cmd/ledger/main.go
index 10f8e28..c02d59f 100644
--- a/cmd/ledger/main.go
+++ b/cmd/ledger/main.go
@@ -139,7 +139,7 @@ func runBalance(L *accounting.Ledger, flags flags, args []string) error {
 	}
 	if !flags.total {
 		for _, a := range accounts {
-			if len(a.Account.Splits) > 0 {
+			if len(a.Account.Splits) > 0 || len(a.Balance) > 0 {
 				for i, v := range a.Balance {
 					fmt.Printf("%*.*s", maxLength, maxLength, v.String())
 					if i == len(a.Balance)-1 {
-- 
2.43.0


From e10a7c2f6384fa84fae8e8e7818cee477268b502 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:33 +0000
Subject: [PATCH 19/25] fix: txtdb: report the errors found when reading the
 files

The data was silently truncated.
---
 backend/txtdb/txtdb.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/backend/txtdb/txtdb.go b/backend/txtdb/txtdb.go
index 4c02b90..a34f926 100644
--- a/backend/txtdb/txtdb.go
+++ b/backend/txtdb/txtdb.go
@@ -96,12 +96,18 @@ func (c *conn) read() error {
 		c.accountMap[id] = &ac
 		c.ledger.Accounts = append(c.ledger.Accounts, &ac)
 	}
+	if err = sc.Err(); err != nil {
+		return err
+	}
 	c.ledger.Accounts = accounting.SortAccounts(c.ledger.Accounts)
 
 	f, err = os.Open(filepath.Join(c.dir, "transactions"))
-	if err != nil {
+	if os.IsNotExist(err) {
 		return nil
 	}
+	if err != nil {
+		return err
+	}
 	sc = bufio.NewScanner(f)
 	nextID := 1
 	var balance int64
@@ -209,6 +215,9 @@ func (c *conn) read() error {
 			nextID++
 		}
 	}
+	if err = sc.Err(); err != nil {
+		return err
+	}
 	if balance != 0 {
 		log.Printf("transactions: balance is %d, not zero", balance)
 	}
-- 
2.43.0


From acc04a66725d8d22ccbd448f9e8cb4f6910d08a7 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:01 +0000
Subject: [PATCH 20/25] fix: one transfer account for each ledger

All of them shared the same account, so the splits of every ledger were mixed in
it when a program opened more than one (and cloning them crashed).
---
 accounting.go | 25 +++++++++++++++----------
 types.go      |  3 ++-
 2 files changed, 17 insertions(+), 11 deletions(-)

diff --git a/accounting.go b/accounting.go
index afcb705..26114cf 100644
--- a/accounting.go
+++ b/accounting.go
@@ -206,6 +206,7 @@ func (l *Ledger) Clone() *Ledger {
 
 	res := new(Ledger)
 	res.connection = l.connection
+	res.transferAccount = mapAccounts[l.transferAccount]
 	res.Accounts = make([]*Account, len(l.Accounts))
 	for i, a := range l.Accounts {
 		na := mapAccounts[a]
@@ -648,6 +649,10 @@ func (l *Ledger) convert(v Value, when time.Time, currency *Currency, visited []
 
 // Fill re-calculates all the automatic fields in all the accounting data.
 func (l *Ledger) Fill() error {
+	if l.transferAccount == nil {
+		account := TransferAccount
+		l.transferAccount = &account
+	}
 	for _, a := range l.Accounts {
 		a.Splits = nil
 		a.Children = nil
@@ -671,7 +676,7 @@ func (l *Ledger) Fill() error {
 		var splits []*Split
 		for _, s := range l.Transactions[i].Splits {
 			s.Balance = nil
-			if s.Account != &TransferAccount {
+			if s.Account != l.transferAccount {
 				splits = append(splits, s)
 			}
 		}
@@ -861,17 +866,17 @@ func (l *Ledger) Fill() error {
 
 	// Create fake splits in transactions with different times.
 	for i := range l.Accounts {
-		if l.Accounts[i] == &TransferAccount {
+		if l.Accounts[i] == l.transferAccount {
 			goto transferAlreadyInAccounts
 		}
 	}
-	l.Accounts = append(l.Accounts, &TransferAccount)
+	l.Accounts = append(l.Accounts, l.transferAccount)
 transferAlreadyInAccounts:
 	for i := range l.Transactions {
 		for j := range l.Transactions[i].Splits {
 			if l.Transactions[i].Splits[j].Time != &l.Transactions[i].Time {
 				split1 := &Split{
-					Account:     &TransferAccount,
+					Account:     l.transferAccount,
 					Transaction: l.Transactions[i],
 					Time:        l.Transactions[i].Splits[j].Time,
 					Value: Value{
@@ -880,7 +885,7 @@ transferAlreadyInAccounts:
 					},
 				}
 				split2 := &Split{
-					Account:     &TransferAccount,
+					Account:     l.transferAccount,
 					Transaction: l.Transactions[i],
 					Time:        &l.Transactions[i].Time,
 					Value: Value{
@@ -890,17 +895,17 @@ transferAlreadyInAccounts:
 				}
 				l.Transactions[i].Splits = append(l.Transactions[i].Splits, split1)
 				l.Transactions[i].Splits = append(l.Transactions[i].Splits, split2)
-				TransferAccount.Splits = append(TransferAccount.Splits, split1)
-				TransferAccount.Splits = append(TransferAccount.Splits, split2)
+				l.transferAccount.Splits = append(l.transferAccount.Splits, split1)
+				l.transferAccount.Splits = append(l.transferAccount.Splits, split2)
 			}
 		}
 	}
-	sort.SliceStable(TransferAccount.Splits, func(i, j int) bool {
-		return TransferAccount.Splits[i].Time.Before(*TransferAccount.Splits[j].Time)
+	sort.SliceStable(l.transferAccount.Splits, func(i, j int) bool {
+		return l.transferAccount.Splits[i].Time.Before(*l.transferAccount.Splits[j].Time)
 	})
 
 	var b Balance
-	for _, s := range TransferAccount.Splits {
+	for _, s := range l.transferAccount.Splits {
 		b.Add(s.Value)
 		s.Balance = b.Dup()
 	}
diff --git a/types.go b/types.go
index f306178..8b596a1 100644
--- a/types.go
+++ b/types.go
@@ -8,6 +8,7 @@ const U = 100_000_000
 // Ledger stores all the accounts and transactions in one accounting.
 type Ledger struct {
 	connection      Connection
+	transferAccount *Account // copy of TransferAccount used in this ledger
 	Accounts        []*Account
 	Transactions    []*Transaction           // sorted by Time.
 	Currencies      []*Currency              // can be empty.
@@ -62,7 +63,7 @@ type Account struct {
 }
 
 // TransferAccount is a special account used when a transaction has two or more splits with different times.
-// Ledger.Fill() automatically generates splits with this account.
+// Ledger.Fill() automatically generates splits with a copy of this account (one for each ledger).
 var TransferAccount Account = Account{
 	Name: "Assets:Transfer account",
 }
-- 
2.43.0


From d3ed0e7112ece31242ec8c2fb46cfd66f56e106f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:22 +0000
Subject: [PATCH 21/25] fix: keep the comments in the lines of account and
 commodity directives

---
 backend/ledger/parser.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/backend/ledger/parser.go b/backend/ledger/parser.go
index 3f93b94..dd859f9 100644
--- a/backend/ledger/parser.go
+++ b/backend/ledger/parser.go
@@ -317,14 +317,20 @@ func (l *ledgerConnection) readJournal() error {
 				continue
 			}
 			lastCommodity = value.Currency
+			if comment != "" {
+				l.addComment(lastCommodity, comment)
+			}
 			continue
 		}
 		if !indented && word == "account" {
 			lastLine = lineAccount
-			_, new := l.getAccount(line.Filename, line.LineNum, rest)
+			account, new := l.getAccount(line.Filename, line.LineNum, rest)
 			if new == false {
 				log.Fatalf("%s:%d: account already defined", line.Filename, line.LineNum)
 			}
+			if comment != "" {
+				l.addComment(account, comment)
+			}
 			continue
 		}
 		if !indented {
-- 
2.43.0


From 3089994527e45054415231e37a9dc726ea1c2d1f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:22 +0000
Subject: [PATCH 22/25] fix: keep the comments of a currency which look like an
 unknown tag

---
 backend/ledger/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/backend/ledger/parser.go b/backend/ledger/parser.go
index dd859f9..61ec395 100644
--- a/backend/ledger/parser.go
+++ b/backend/ledger/parser.go
@@ -176,8 +176,8 @@ func (l *ledgerConnection) addComment(where interface{}, comment string) {
 	case *accounting.Currency:
 		if tag.Name == "isin" {
 			x.ISIN = tag.Value
+			return
 		}
-		return
 	}
 	// Unknown tag:
 	l.ledger.Comments[where] = append(l.ledger.Comments[where], comment)
-- 
2.43.0


From 78a2b86fde9ea098692c33257f0451f3b8d2cbb7 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:43 +0000
Subject: [PATCH 23/25] fix: crash with a commodity directive without currency
 but with a tag

---
 backend/ledger/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/backend/ledger/parser.go b/backend/ledger/parser.go
index 61ec395..00c3237 100644
--- a/backend/ledger/parser.go
+++ b/backend/ledger/parser.go
@@ -317,7 +317,7 @@ func (l *ledgerConnection) readJournal() error {
 				continue
 			}
 			lastCommodity = value.Currency
-			if comment != "" {
+			if comment != "" && lastCommodity != nil {
 				l.addComment(lastCommodity, comment)
 			}
 			continue
-- 
2.43.0


From 0fbdd949c9d5a050d05b7a2442974c3c0c0c9477 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:37 +0000
Subject: [PATCH 24/25] fix: crash printing a currency first seen with too many
 decimals

---
 backend/ledger/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/backend/ledger/parser.go b/backend/ledger/parser.go
index 00c3237..b22f9f5 100644
--- a/backend/ledger/parser.go
+++ b/backend/ledger/parser.go
@@ -622,7 +622,7 @@ done2:
 		shift = 8
 	} else {
 		shift = len(sAmount) - decimalPos - 1
-		if newCurrency {
+		if newCurrency && shift <= 8 {
 			value.Currency.Precision = shift
 		}
 		shift = 8 - shift
-- 
2.43.0


From a37b6e84d0296632d53eccc4d0f528aa63abe015 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:52 +0000
Subject: [PATCH 25/25] fix: an amount is shown once when its currency is asked
 for more than once

---
 cmd/ledger/main.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmd/ledger/main.go b/cmd/ledger/main.go
index c02d59f..9f3fdde 100644
--- a/cmd/ledger/main.go
+++ b/cmd/ledger/main.go
@@ -107,6 +107,7 @@ func runBalance(L *accounting.Ledger, flags flags, args []string) error {
 				for _, c := range flags.currency {
 					if v.Currency.Name == c {
 						bal.Add(v)
+						break
 					}
 				}
 			}
-- 
2.43.0

