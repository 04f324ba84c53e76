package github.com/cespedes/accounting/backend/ledger

// ---- reading of amounts (P09), and what the reading of a journal needs from it (P17)

def numch(c) := digit(c) || c == 43 || c == 45 || c == 46 || c == 44 || c == 95 || c == 39
def signch(c) := c == 43 || c == 45

// DIGV: the number written by the digits of the first n bytes of a text
fun DIGV(t: string, n: int): int
axiom DIGV := forall t: string, n: int {DIGV(t,n)} :: n <= 0 ==> DIGV(t,n) == 0
axiom DIGV step := forall t: string, n: int, m: int {DIGV(t,n), t[m]} :: n == m+1 && m >= 0 ==> DIGV(t,n) == ite(digit(t[m]), 10*DIGV(t,m) + (t[m] - 48), DIGV(t,m))
// SC: v times ten, n times
fun SC(v: int, n: int): int
axiom SC := forall v: int, n: int {SC(v,n)} :: n <= 0 ==> SC(v,n) == v
axiom SC step := forall v: int, n: int, m: int {SC(v,n), SC(v,m)} :: n == m+1 && m >= 0 ==> SC(v,n) == 10*SC(v,m)

// the signs of a currency: one character each, and not the same
def sepOK(c) := len(c.Thousand) <= 1 && len(c.Decimal) <= 1 && (c.Thousand == "" || c.Thousand != c.Decimal)
def isch(s, c) := len(s) == 1 && s[0] == c

// t is the number in s, after its sign: neg tells whether the sign is "-"
def numFirst(s) := signch(s[0]) || digit(s[0])
def negText(s, t) := ite(numFirst(s), s[0] == 45, len(s) > len(t) && s[len(s)-len(t)-1] == 45)
def frontText(s, t) := ite(signch(s[0]),
     len(t)+1 <= len(s) && (forall k: int {t[k]} :: 0 <= k < len(t) ==> t[k] == s[k+1]) && (len(t)+1 == len(s) || !numch(s[len(t)+1])),
     len(t) <= len(s) && (forall k: int {t[k]} :: 0 <= k < len(t) ==> t[k] == s[k]) && (len(t) == len(s) || !numch(s[len(t)])))
def backText(s, t) := len(t) < len(s) && (forall k: int {t[k]} :: 0 <= k < len(t) ==> t[k] == s[len(s)-len(t)+k])
     && (!numch(s[len(s)-len(t)-1]) || (signch(s[len(s)-len(t)-1]) && len(t)+1 < len(s) && !numch(s[len(s)-len(t)-2])))
def numText(s, t) := len(t) > 0 && ite(numFirst(s), frontText(s, t), backText(s, t))

// a thousand sign at k: after one to three digits, or after another one and three digits; and before exactly three digits and then
// the end, another one or the decimal sign (at d, or -1)
def thousandOK(t, k, d) := 1 <= k && (d == 0-1 || k < d) && (k <= 3 || !digit(t[k-4]))
     && k+3 < len(t) && digit(t[k+1]) && digit(t[k+2]) && digit(t[k+3]) && (k+4 == len(t) || !digit(t[k+4]))

// texts which are accepted: digits, with at most one decimal sign (at d), which the currency has, or may have if it has none yet
def plain(s) := forall k: int {s[k]} :: 0 <= k < len(s) ==> s[k] != 61 && s[k] != 64
def digitsBut(t, d) := forall k: int {t[k]} :: 0 <= k < len(t) && k != d ==> digit(t[k])
def decimalOK(t, d, th, de) := 0 < d && d < len(t)-1 && len(t)-1-d <= 8 && !digit(t[d]) && !signch(t[d]) && digitsBut(t, d)
     && (isch(de, t[d]) || (de == "" && !isch(th, t[d]) && (th != "" || d > 3 || len(t)-d != 4)))
     && SC(DIGV(t, len(t)), 8 - (len(t)-1-d)) <= 9223372036854775807
def wholeOK(t) := digitsBut(t, 0-1) && SC(DIGV(t, len(t)), 8) <= 9223372036854775807
def oldTh(c) := ite(c >= old(alloc), "", old(c.Thousand))
def oldDe(c) := ite(c >= old(alloc), "", old(c.Decimal))

lemma DIGVstep(t: string, n: int)
  requires 0 < n <= len(t)
  ensures DIGV(t,n) == ite(digit(t[n-1]), 10*DIGV(t,n-1) + (t[n-1] - 48), DIGV(t,n-1))

lemma DIGVpos(t: string, n: int)
  requires n <= len(t)
  ensures DIGV(t,n) >= 0
  induct n
  use DIGVstep(t, n)

lemma DIGVmono(t: string, m: int, n: int)
  requires 0 <= m <= n && n <= len(t)
  ensures DIGV(t,m) <= DIGV(t,n)
  induct n
  use DIGVstep(t, n)
  use DIGVpos(t, n-1)

lemma SCpos(v: int, n: int)
  requires v >= 0
  ensures SC(v,n) >= 0
  induct n

lemma SCmono(v: int, m: int, n: int)
  requires 0 <= m <= n && v >= 0
  ensures SC(v,m) >= 0 && SC(v,m) <= SC(v,n)
  induct n
  use SCpos(v, n-1)

// place of the first character which is not of a number, and after the last one
fun NUMHI(s: string): int
axiom NUMHI := forall s: string {NUMHI(s)} :: 0 <= NUMHI(s) && NUMHI(s) <= len(s) && (NUMHI(s) < len(s) ==> !numch(s[NUMHI(s)]))
axiom NUMHI first := forall s: string, k: int {NUMHI(s), s[k]} :: 0 <= k < NUMHI(s) ==> numch(s[k])
fun NUMLO(s: string): int
axiom NUMLO := forall s: string {NUMLO(s)} :: 0 <= NUMLO(s) && NUMLO(s) <= len(s) && (NUMLO(s) > 0 ==> !numch(s[NUMLO(s)-1]))
axiom NUMLO last := forall s: string, k: int {NUMLO(s), s[k]} :: NUMLO(s) <= k < len(s) ==> numch(s[k])
// the currency in the text of an amount
def CURT(s) := ite(numFirst(s), ite(NUMHI(s) < len(s), trim(s[NUMHI(s):len(s)]), ""), trim(s[0:NUMLO(s)]))
// READV(s, a, c): getValue read s as an amount a of c (what that is, is P09)
fun READV(s: string, a: int, c: *Currency): bool
// no currency has the name of another
def curNames(L) := forall k: int, m: int {L.Currencies[k], L.Currencies[m]} :: 0 <= k && k < m && m < len(L.Currencies) ==> L.Currencies[k].Name != L.Currencies[m].Name

func (*ledgerConnection).getValue
  props P09 P17 P18
  option overflow
  option zeroed
  requires ledger: l > 0 && l.ledger > 0
  requires currencies: forall i: int {l.ledger.Currencies[i]} :: 0 <= i < len(l.ledger.Currencies) ==> l.ledger.Currencies[i] > 0 && sepOK(l.ledger.Currencies[i])
  requires default: l.ledger.DefaultCurrency == nil || sepOK(l.ledger.DefaultCurrency)
  modifies Ledger.DefaultCurrency, Ledger.Currencies, mem(*Currency), Currency.Thousand, Currency.Decimal, fresh Currency.Precision, fresh Currency.Name, fresh Currency.ID, fresh Currency.PrintBefore, fresh Currency.WithoutSpace, fresh Currency.ISIN
  requires @P17,P18 base: 0 < BASE() && BASE() <= alloc
  requires @P17,P18 all: curOK(l.ledger)
  ensures @P17,P18 separators: sepsOK()
  ensures @P17,P18 precisions: precOK()
  ensures @P17,P18 currencies: curList(l.ledger)
  ensures @P17,P18 default: curDefault(l.ledger)
  ensures @P17,P18 named: s != "" && result1 == nil ==> okc(l.ledger, result.Currency)
  ensures @P17,P18 new: result2 ==> result.Currency > 0
  ensures @P17,P18 listed: len(l.ledger.Currencies) >= old(len(l.ledger.Currencies)) && forall k: int {l.ledger.Currencies[k]} {old(l.ledger.Currencies[k])} :: 0 <= k < old(len(l.ledger.Currencies)) ==> l.ledger.Currencies[k] == old(l.ledger.Currencies[k])
  ensures @P17,P18 refused: (exists k: int {s[k]} :: 0 <= k < len(s) && s[k] == 61) ==> result1 != nil
  ensures empty: s == "" ==> result1 == nil && result.Amount == 0 && result.Currency == nil
  ensures currency: s != "" && result1 == nil ==> result.Currency != nil
  ensures kept: forall c: *Currency {c.Thousand} :: old(c.Thousand) != "" && c > 0 && c < old(alloc) ==> c.Thousand == old(c.Thousand)
  ensures kept: forall c: *Currency {c.Decimal} :: old(c.Decimal) != "" && c > 0 && c < old(alloc) ==> c.Decimal == old(c.Decimal)
  witness @P09 number: s != "" && result1 == nil ==> numText(s, sAmount)
  witness @P09 characters: s != "" && result1 == nil ==> forall k: int {sAmount[k]} :: 0 <= k < len(sAmount) ==> digit(sAmount[k]) || (k == decimalPos && isch(result.Currency.Decimal, sAmount[k])) || (k != decimalPos && isch(result.Currency.Thousand, sAmount[k]) && thousandOK(sAmount, k, decimalPos))
  witness @P09 decimals: s != "" && result1 == nil ==> decimalPos == 0-1 || (0 < decimalPos && decimalPos < len(sAmount)-1 && len(sAmount)-1-decimalPos <= 8 && !digit(sAmount[decimalPos]))
  witness @P09 amount: s != "" && result1 == nil ==> result.Amount == ite(negText(s, sAmount), 0-1, 1) * SC(DIGV(sAmount, len(sAmount)), ite(decimalPos == 0-1, 8, 8 - (len(sAmount)-1-decimalPos)))
  witness @P09 whole-accepted: s != "" && result1 != nil ==> !(plain(s) && numText(s, sAmount) && wholeOK(sAmount))
  witness @P09 decimal-accepted: s != "" && result1 != nil ==> forall d: int {sAmount[d]} :: !(plain(s) && numText(s, sAmount) && decimalOK(sAmount, d, oldTh(result.Currency), oldDe(result.Currency)))
  assumes @P18 read: result1 == nil ==> READV(s, result.Amount, result.Currency)
  requires @P18 names: curNames(l.ledger)
  ensures @P18 names: curNames(l.ledger)
  ensures @P18 currency-read: s != "" && result1 == nil ==> ite(CURT(s) == "", result.Currency == l.ledger.DefaultCurrency, result.Currency.Name == CURT(s) && curIn(l.ledger, result.Currency))
  ensures @P18 default-kept: old(l.ledger.DefaultCurrency) != nil ==> l.ledger.DefaultCurrency == old(l.ledger.DefaultCurrency)
  ensures @P18 added: len(l.ledger.Currencies) <= old(len(l.ledger.Currencies)) + 1 && (len(l.ledger.Currencies) > old(len(l.ledger.Currencies)) ==> result2 && l.ledger.Currencies[old(len(l.ledger.Currencies))] == result.Currency)
  ensures @P18 new-named: s != "" && result1 == nil && len(l.ledger.Currencies) > old(len(l.ledger.Currencies)) ==> l.ledger.Currencies[old(len(l.ledger.Currencies))].Name == CURT(s)
  ensures @P18 undeclared: result1 == nil && !result2 ==> len(l.ledger.Currencies) == old(len(l.ledger.Currencies))
  inv 2 @P18 forall k: int {l.ledger.Currencies[k]} :: 0 <= k < it(2) ==> l.ledger.Currencies[k].Name != value.Currency.Name
  hint @P18 call strings.ContainsAny 1 before: assert numFirst(s) && len(sAmount) < len(s) ==> len(sAmount) == NUMHI(s)
  hint @P18 call strings.ContainsAny 1 before: assert numFirst(s) && len(sAmount) == len(s) ==> NUMHI(s) == len(s)
  hint @P18 call strings.ContainsAny 1 before: assert !numFirst(s) ==> len(s) - len(sAmount) == NUMLO(s)
  hint @P18 call strings.ContainsAny 1 before: assert value.Currency.Name == CURT(s)
  hint @P18 loop 3 entry: assert curNames(l.ledger)
  hint @P18 loop 3 entry: assert len(l.ledger.Currencies) > old(len(l.ledger.Currencies)) ==> l.ledger.Currencies[old(len(l.ledger.Currencies))].Name == CURT(s)
  hint @P18 loop 3 entry: assert ite(CURT(s) == "", value.Currency == l.ledger.DefaultCurrency, value.Currency.Name == CURT(s) && curIn(l.ledger, value.Currency))
  // currency first, scanning backwards
  inv 1 0-1 <= i && i < len(s)
  inv 1 forall k: int {s[k]} :: i < k < len(s) ==> numch(s[k])
  inv 1 sAmount == ""
  inv 0 forall k: int {s[k]} :: 0 <= k < pos(0) ==> numch(s[k])
  inv 0 sAmount == ""
  // the digits and signs
  hint loop 3 entry: assert forall k: int {sAmount[k]} :: 0 <= k < len(sAmount) ==> numch(sAmount[k])
  hint @P09 loop 3 entry: assert numText(s, sAmount)
  hint @P17,P18 call strings.ContainsAny 1 before: assert numFirst(s) && len(sAmount) < len(s) ==> same(value.Currency.Name, trim(s[len(sAmount):]))
  hint @P17,P18 call strings.ContainsAny 1 before: assert !numFirst(s) ==> same(value.Currency.Name, trim(s[0:len(s)-len(sAmount)]))
  hint @P17,P18 call strings.ContainsAny 1 before: assert forall k: int {s[k]} :: ite(numFirst(s), 0 <= k && k < len(sAmount), len(s)-len(sAmount) <= k && k < len(s)) ==> numch(s[k])
  hint @P17,P18 call strings.ContainsAny 1 before: assert numFirst(s) && len(sAmount) < len(s) ==> forall j: int {s[j]} :: len(sAmount) <= j && j < len(s) && s[j] == 61 ==> s[len(sAmount):][j-len(sAmount)] == 61 && trimlo(s[len(sAmount):]) <= j-len(sAmount) && j-len(sAmount) < trimhi(s[len(sAmount):]) && trim(s[len(sAmount):])[j-len(sAmount)-trimlo(s[len(sAmount):])] == 61
  hint @P17,P18 call strings.ContainsAny 1 before: assert !numFirst(s) ==> forall j: int {s[j]} :: 0 <= j && j < len(s)-len(sAmount) && s[j] == 61 ==> s[0:len(s)-len(sAmount)][j] == 61 && trimlo(s[0:len(s)-len(sAmount)]) <= j && j < trimhi(s[0:len(s)-len(sAmount)]) && trim(s[0:len(s)-len(sAmount)])[j-trimlo(s[0:len(s)-len(sAmount)])] == 61

  hint @P17,P18 loop 3 entry: assert precOK()
  hint @P17,P18 loop 3 entry: assert curList(l.ledger)
  hint @P17,P18 loop 3 entry: assert curDefault(l.ledger)
  hint @P17,P18 loop 3 entry: assert okc(l.ledger, value.Currency)
  hint @P17,P18 loop 3 entry: assert forall k: int {s[k]} :: 0 <= k < len(s) ==> s[k] != 61
  inv 3 currency: value.Currency > 0 && sepOK(value.Currency)
  inv 3 @P17,P18 separators: sepsOK()
  inv 3 @P17,P18 same: value.Currency == entry(3, value.Currency)
  inv 3 new: newCurrency ==> value.Currency >= old(alloc)
  inv 3 amount: value.Amount == DIGV(sAmount, pos(3)) && 0 <= value.Amount && value.Amount <= 9223372036854775807
  inv 3 thousands-kept: forall c: *Currency {c.Thousand} :: old(c.Thousand) != "" && c > 0 && c < old(alloc) ==> c.Thousand == old(c.Thousand)
  inv 3 decimals-kept: forall c: *Currency {c.Decimal} :: old(c.Decimal) != "" && c > 0 && c < old(alloc) ==> c.Decimal == old(c.Decimal)
  inv 3 punct: ite(punct == "", punctPos == 0-1, 0 < punctPos && punctPos <= 3 && punctPos < pos(3) && isch(punct, sAmount[punctPos]) && !digit(sAmount[punctPos]) && value.Currency.Thousand == "" && value.Currency.Decimal == "" && thousandPos == 0-1 && decimalPos == 0-1)
  inv 3 decimal: decimalPos == 0-1 || (0 < decimalPos && decimalPos < pos(3) && isch(value.Currency.Decimal, sAmount[decimalPos]) && !digit(sAmount[decimalPos]) && (thousandPos == 0-1 || decimalPos == thousandPos+4))
  inv 3 thousand: thousandPos == 0-1 || (0 < thousandPos && thousandPos < pos(3) && isch(value.Currency.Thousand, sAmount[thousandPos]) && !digit(sAmount[thousandPos]))
  inv 3 digits: forall k: int {sAmount[k]} :: thousandPos < k < pos(3) && k != decimalPos && k != punctPos ==> digit(sAmount[k])
  inv 3 last: thousandPos > 0-1 ==> thousandPos <= 3 || !digit(sAmount[thousandPos-4])
  inv 3 characters: forall k: int {sAmount[k]} :: 0 <= k < thousandPos ==> digit(sAmount[k]) || (isch(value.Currency.Thousand, sAmount[k]) && 1 <= k && (k <= 3 || !digit(sAmount[k-4])) && k+4 <= thousandPos && digit(sAmount[k+1]) && digit(sAmount[k+2]) && digit(sAmount[k+3]) && !digit(sAmount[k+4]))
  inv 4 currency: value.Currency == entry(4, value.Currency)
  inv 4 0 <= i && i <= shift && shift <= 8
  inv 4 amount: value.Amount == SC(DIGV(sAmount, len(sAmount)), i) && 0 <= value.Amount && value.Amount <= 9223372036854775807
  inv 4 sign: sign == 1 || sign == 0-1
  hint @P09 loop 3 entry: assert value.Currency.Thousand == oldTh(value.Currency) && value.Currency.Decimal == oldDe(value.Currency)
  inv 3 @P09 whole: wholeOK(sAmount) ==> punct == "" && thousandPos == 0-1 && decimalPos == 0-1
  inv 3 @P09 before: forall d: int {sAmount[d]} :: decimalOK(sAmount, d, oldTh(value.Currency), oldDe(value.Currency)) && pos(3) <= d ==> punct == "" && thousandPos == 0-1 && decimalPos == 0-1 && value.Currency.Thousand == oldTh(value.Currency) && value.Currency.Decimal == oldDe(value.Currency)
  inv 3 @P09 after: forall d: int {sAmount[d]} :: decimalOK(sAmount, d, oldTh(value.Currency), oldDe(value.Currency)) && pos(3) > d ==> thousandPos == 0-1 && ite(decimalPos == d, punct == "", decimalPos == 0-1 && punctPos == d && len(sAmount)-d != 4)
  hint @P09 loop 3 body: use DIGVmono(sAmount, pos(3)+1, len(sAmount))
  hint @P09 loop 3 body: use DIGVstep(sAmount, pos(3)+1)
  hint @P09 loop 3 body: use SCmono(DIGV(sAmount, len(sAmount)), 0, 8)
  hint @P09 loop 3 body: assert forall d: int {sAmount[d]} :: 0 <= d && len(sAmount)-1-d <= 8 && d < len(sAmount)-1 ==> DIGV(sAmount, len(sAmount)) <= SC(DIGV(sAmount, len(sAmount)), 8 - (len(sAmount)-1-d))
  hint @P09 loop 4 body: use SCmono(DIGV(sAmount, len(sAmount)), i+1, shift)
  hint @P09 loop 3 body: assert pos(3) < len(sAmount) && !digit(sAmount[pos(3)]) ==> forall d: int {sAmount[d]} :: decimalOK(sAmount, d, oldTh(value.Currency), oldDe(value.Currency)) ==> d == pos(3)
  hint @P09 loop 3 body: assert pos(3) < len(sAmount) && isch(value.Currency.Decimal, sAmount[pos(3)]) ==> same(value.Currency.Decimal, rune(sAmount[pos(3)]))
  hint @P09 loop 3 body: assert pos(3) < len(sAmount) && isch(value.Currency.Thousand, sAmount[pos(3)]) ==> same(value.Currency.Thousand, rune(sAmount[pos(3)]))
