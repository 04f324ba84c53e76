package github.com/cespedes/accounting/backend/ledger

// ---- writing of ledgers (P22)

// What is written is a list of texts: outp(k), for k < outn() (words, arguments, ends of lines and wide blanks).
// TXT(k) is the text which has to be in each place.  It is defined by the preconditions of Export, whose places follow one another:
// XA(i), XC(i), X(k) are those of the account number i, the currency number i, and the number k of the transactions and prices;
// XS(t,j) is the place, inside a transaction, of its posting number j; TI(k) and TJ(k) tell how many transactions and prices
// there are among the first k of both.
fun TXT(k: int): string
fun XA(i: int): int
fun XC(i: int): int
fun X(k: int): int
fun XS(t: *Transaction, j: int): int
fun TI(k: int): int
fun TJ(k: int): int

// CMA, CMC, CMT, CMS, CMP: the comments of each thing
fun CMA(a: *Account): []string
fun CMC(c: *Currency): []string
fun CMT(t: *Transaction): []string
fun CMS(s: *Split): []string
fun CMP(p: *Price): []string

// the n comments of something: the first in its line, and each of the others in its own
def cn(n) := ite(n <= 0, 1, 4*n-1)
def oneComment(p, c, k) := TXT(p+4*k) == ";" && TXT(p+4*k+1) == c && TXT(p+4*k+2) == "\n" && (k > 0 ==> TXT(p+4*k-1) == "\t")
def noComment(p, n) := n == 0 ==> TXT(p) == "\n"

def nameOf(o) := ite(o.Parent == nil, o.Name, (fullName(o.Parent) + ":") + o.Name)
def isTrx(L, k) := TI(k) < len(L.Transactions) && (TJ(k) >= len(L.Prices) || inst(L.Transactions[TI(k)].Time) <= inst(L.Prices[TJ(k)].Time))
def items(L) := len(L.Transactions) + len(L.Prices)
def trx(L, k) := L.Transactions[TI(k)]
def price(L, k) := L.Prices[TJ(k)]
def moment(L, k) := ite(isTrx(L, k), inst(trx(L, k).Time), inst(price(L, k).Time))
def inOrder(L) := (forall m: int, n: int {L.Transactions[m], L.Transactions[n]} :: 0 <= m && m < n && n < len(L.Transactions) ==> inst(L.Transactions[m].Time) <= inst(L.Transactions[n].Time))
  && (forall m: int, n: int {L.Prices[m], L.Prices[n]} :: 0 <= m && m < n && n < len(L.Prices) ==> inst(L.Prices[m].Time) <= inst(L.Prices[n].Time))
def priceText(L, s) := ite(s in L.SplitPrices, 2, 0)
def assertText(L, s) := ite(s in L.Assertions, 2, 0)
// the date of a posting is written if it is not that of its transaction, as its first comment
def ownDate(t, s) := ite(deref(s.Time) != t.Time, 1, 0)
def splitRest(L, s) := 4 + priceText(L, s) + assertText(L, s)
def splitSize(L, t, s) := splitRest(L, s) + cn(ownDate(t, s) + len(CMS(s)))
def dateText(s) := "date:" + timetext(deref(s.Time), "2006-01-02/15:04")
// a posting, at p
def splitText(L, t, s, p) := TXT(p) == "\t" && TXT(p+1) == nameOf(s.Account) && TXT(p+2) == "\t" && TXT(p+3) == tAll(s.Value, true, true)
  && (s in L.SplitPrices ==> TXT(p+4) == "@@" && TXT(p+5) == tAll(L.SplitPrices[s], true, true))
  && (s in L.Assertions ==> TXT(p+4+priceText(L, s)) == "=" && TXT(p+5+priceText(L, s)) == tAll(L.Assertions[s], true, true))
  && noComment(p + splitRest(L, s), ownDate(t, s) + len(CMS(s)))
  && (ownDate(t, s) == 1 ==> oneComment(p + splitRest(L, s), dateText(s), 0))

def okCurrency(c) := c == nil || (c > 0 && 0 <= c.Precision <= 8)
def okValue(v) := okCurrency(v.Currency) && 0-9223372036854775808 <= v.Amount && v.Amount <= 9223372036854775807
def okAccount(o) := o > 0 && ACC(o)

func Export
  props P22
  option output
  requires ledger: ledger > 0
  requires accounts: forall i: int {ledger.Accounts[i]} :: 0 <= i < len(ledger.Accounts) ==> okAccount(ledger.Accounts[i])
  requires up: forall o: *Account {o.Parent} :: ACC(o) ==> o > 0 && allocated(o) && AIDX(o) >= 0 && rooted(o)
  requires currencies: forall i: int {ledger.Currencies[i]} :: 0 <= i < len(ledger.Currencies) ==> ledger.Currencies[i] > 0 && okCurrency(ledger.Currencies[i])
  requires transactions: forall i: int {ledger.Transactions[i]} :: 0 <= i < len(ledger.Transactions) ==> ledger.Transactions[i] > 0
  requires postings: forall i: int, j: int {ledger.Transactions[i].Splits[j]} :: 0 <= i < len(ledger.Transactions) && 0 <= j < len(ledger.Transactions[i].Splits) ==> ledger.Transactions[i].Splits[j] > 0 && ledger.Transactions[i].Splits[j].Time != nil && okAccount(ledger.Transactions[i].Splits[j].Account) && okValue(ledger.Transactions[i].Splits[j].Value)
  requires stated: forall s: *Split {ledger.SplitPrices[s]} :: s in ledger.SplitPrices ==> okValue(ledger.SplitPrices[s])
  requires asserted: forall s: *Split {ledger.Assertions[s]} :: s in ledger.Assertions ==> okValue(ledger.Assertions[s])
  requires prices: forall i: int {ledger.Prices[i]} :: 0 <= i < len(ledger.Prices) ==> ledger.Prices[i] > 0 && ledger.Prices[i].Currency > 0 && okValue(ledger.Prices[i].Value)
  // the text
  requires comments: (forall a: *Account {CMA(a)} :: CMA(a) == ledger.Comments[mk(*Account, a)]) && (forall a: *Currency {CMC(a)} :: CMC(a) == ledger.Comments[mk(*Currency, a)]) && (forall a: *Transaction {CMT(a)} :: CMT(a) == ledger.Comments[mk(*Transaction, a)]) && (forall a: *Split {CMS(a)} :: CMS(a) == ledger.Comments[mk(*Split, a)]) && (forall a: *Price {CMP(a)} :: CMP(a) == ledger.Comments[mk(*Price, a)])
  requires text-accounts: XA(0) == outn() && (forall i: int, n: int {XA(i), XA(n)} :: n == i+1 && 0 <= i < len(ledger.Accounts) ==> XA(n) == XA(i) + 2 + cn(len(CMA(ledger.Accounts[i])))) && (forall i: int {ledger.Accounts[i]} :: 0 <= i < len(ledger.Accounts) ==> TXT(XA(i)) == "account" && TXT(XA(i)+1) == nameOf(ledger.Accounts[i]) && noComment(XA(i)+2, len(CMA(ledger.Accounts[i]))))
  requires text-account-comments: forall i: int, k: int {CMA(ledger.Accounts[i])[k]} :: 0 <= i < len(ledger.Accounts) && 0 <= k < len(CMA(ledger.Accounts[i])) ==> oneComment(XA(i)+2, CMA(ledger.Accounts[i])[k], k)
  requires text-currencies: TXT(XA(len(ledger.Accounts))) == "\n" && XC(0) == XA(len(ledger.Accounts)) + 1 && (forall i: int, n: int {XC(i), XC(n)} :: n == i+1 && 0 <= i < len(ledger.Currencies) ==> XC(n) == XC(i) + 2 + cn(len(CMC(ledger.Currencies[i])))) && (forall i: int {ledger.Currencies[i]} :: 0 <= i < len(ledger.Currencies) ==> TXT(XC(i)) == "commodity" && TXT(XC(i)+1) == tAll(mk(Value, 100000000000000, ledger.Currencies[i]), false, true) && noComment(XC(i)+2, len(CMC(ledger.Currencies[i]))))
  requires text-currency-comments: forall i: int, k: int {CMC(ledger.Currencies[i])[k]} :: 0 <= i < len(ledger.Currencies) && 0 <= k < len(CMC(ledger.Currencies[i])) ==> oneComment(XC(i)+2, CMC(ledger.Currencies[i])[k], k)
  // transactions and prices: the earlier of both, or the transaction
  requires order: TI(0) == 0 && TJ(0) == 0 && (forall k: int, n: int {X(k), X(n)} :: n == k+1 && 0 <= k < items(ledger) ==> TI(n) == TI(k) + ite(isTrx(ledger, k), 1, 0) && TJ(n) == TJ(k) + ite(isTrx(ledger, k), 0, 1))
  requires text-items: TXT(XC(len(ledger.Currencies))) == "\n" && X(0) == XC(len(ledger.Currencies)) + 1 && (forall k: int, n: int {X(k), X(n)} :: n == k+1 && 0 <= k < items(ledger) ==> X(n) == X(k) + ite(isTrx(ledger, k), XS(trx(ledger, k), len(trx(ledger, k).Splits)), 4 + cn(len(CMP(price(ledger, k))))))
  requires text-transactions: forall k: int {TI(k)} :: 0 <= k < items(ledger) && isTrx(ledger, k) ==> TXT(X(k)) == timetext(trx(ledger, k).Time, "2006-01-02/15:04") && TXT(X(k)+1) == trx(ledger, k).Description && noComment(X(k)+2, len(CMT(trx(ledger, k))))
  requires text-transaction-comments: forall k: int, c: int {TI(k), CMT(trx(ledger, k))[c]} :: 0 <= k < items(ledger) && isTrx(ledger, k) && 0 <= c < len(CMT(trx(ledger, k))) ==> oneComment(X(k)+2, CMT(trx(ledger, k))[c], c)
  requires place-postings: (forall t: *Transaction {CMT(t)} {XS(t, 0)} :: XS(t, 0) == 2 + cn(len(CMT(t)))) && (forall t: *Transaction, j: int, n: int {XS(t, j), XS(t, n)} :: n == j+1 && 0 <= j < len(t.Splits) ==> XS(t, n) == XS(t, j) + splitSize(ledger, t, t.Splits[j]))
  requires text-postings: forall k: int, m: int {TI(k), XS(trx(ledger, k), m)} :: 0 <= k < items(ledger) && isTrx(ledger, k) && 0 <= m < len(trx(ledger, k).Splits) ==> splitText(ledger, trx(ledger, k), trx(ledger, k).Splits[m], X(k) + XS(trx(ledger, k), m))
  requires text-posting-comments: forall k: int, m: int, c: int {TI(k), XS(trx(ledger, k), m), CMS(trx(ledger, k).Splits[m])[c]} :: 0 <= k < items(ledger) && isTrx(ledger, k) && 0 <= m < len(trx(ledger, k).Splits) && 0 <= c < len(CMS(trx(ledger, k).Splits[m])) ==> oneComment(X(k) + XS(trx(ledger, k), m) + splitRest(ledger, trx(ledger, k).Splits[m]), CMS(trx(ledger, k).Splits[m])[c], c + ownDate(trx(ledger, k), trx(ledger, k).Splits[m]))
  requires text-prices: forall k: int {TJ(k)} :: 0 <= k < items(ledger) && !isTrx(ledger, k) ==> TXT(X(k)) == "P" && TXT(X(k)+1) == timetext(price(ledger, k).Time, "2006-01-02/15:04") && TXT(X(k)+2) == price(ledger, k).Currency.Name && TXT(X(k)+3) == tAll(price(ledger, k).Value, true, true) && noComment(X(k)+4, len(CMP(price(ledger, k))))
  requires text-price-comments: forall k: int, c: int {TJ(k), CMP(price(ledger, k))[c]} :: 0 <= k < items(ledger) && !isTrx(ledger, k) && 0 <= c < len(CMP(price(ledger, k))) ==> oneComment(X(k)+4, CMP(price(ledger, k))[c], c)
  modifies output, fresh mem(string)
  inv 0 at: outn() == XA(it(0)) && outn() >= old(outn())
  inv 0 text: forall k: int {outp(k)} :: old(outn()) <= k < outn() ==> outp(k) == TXT(k)
  inv 0 where: forall k: int {outw(k)} :: old(outn()) <= k < outn() ==> outw(k) == out
  inv 0 kept: forall k: int {outp(k)} {outw(k)} :: k < old(outn()) ==> outp(k) == old(outp(k)) && outw(k) == old(outw(k))
  inv 1 at: outn() == XA(it(0)-1) + 2 + 3 + 4*it(1) && outn() >= old(outn())
  inv 1 text: forall k: int {outp(k)} :: old(outn()) <= k < outn() ==> outp(k) == TXT(k)
  inv 1 where: forall k: int {outw(k)} :: old(outn()) <= k < outn() ==> outw(k) == out
  inv 1 kept: forall k: int {outp(k)} {outw(k)} :: k < old(outn()) ==> outp(k) == old(outp(k)) && outw(k) == old(outw(k))
  inv 2 at: outn() == XC(it(2)) && outn() >= old(outn())
  inv 2 text: forall k: int {outp(k)} :: old(outn()) <= k < outn() ==> outp(k) == TXT(k)
  inv 2 where: forall k: int {outw(k)} :: old(outn()) <= k < outn() ==> outw(k) == out
  inv 2 kept: forall k: int {outp(k)} {outw(k)} :: k < old(outn()) ==> outp(k) == old(outp(k)) && outw(k) == old(outw(k))
  inv 3 at: outn() == XC(it(2)-1) + 2 + 3 + 4*it(3) && outn() >= old(outn())
  inv 3 text: forall k: int {outp(k)} :: old(outn()) <= k < outn() ==> outp(k) == TXT(k)
  inv 3 where: forall k: int {outw(k)} :: old(outn()) <= k < outn() ==> outw(k) == out
  inv 3 kept: forall k: int {outp(k)} {outw(k)} :: k < old(outn()) ==> outp(k) == old(outp(k)) && outw(k) == old(outw(k))
  inv 4 range: 0 <= i && 0 <= j && i <= len(ledger.Transactions) && j <= len(ledger.Prices)
  inv 4 place: i == TI(i+j) && j == TJ(i+j)
  inv 4 at: outn() == X(i+j) && outn() >= old(outn())
  inv 4 text: forall k: int {outp(k)} :: old(outn()) <= k < outn() ==> outp(k) == TXT(k)
  inv 4 where: forall k: int {outw(k)} :: old(outn()) <= k < outn() ==> outw(k) == out
  inv 4 kept: forall k: int {outp(k)} {outw(k)} :: k < old(outn()) ==> outp(k) == old(outp(k)) && outw(k) == old(outw(k))
  inv 4 ahead: inOrder(ledger) && i+j > 0 ==> (i < len(ledger.Transactions) ==> moment(ledger, i+j-1) <= inst(ledger.Transactions[i].Time)) && (j < len(ledger.Prices) ==> moment(ledger, i+j-1) <= inst(ledger.Prices[j].Time))
  inv 4 chronological: inOrder(ledger) ==> forall k: int, n: int {X(k), X(n)} :: n == k+1 && 0 <= k && n < i+j ==> moment(ledger, k) <= moment(ledger, n)
  inv 5 at: outn() == X(i+j-1) + 2 + 3 + 4*it(5) && outn() >= old(outn())
  inv 5 text: forall k: int {outp(k)} :: old(outn()) <= k < outn() ==> outp(k) == TXT(k)
  inv 5 where: forall k: int {outw(k)} :: old(outn()) <= k < outn() ==> outw(k) == out
  inv 5 kept: forall k: int {outp(k)} {outw(k)} :: k < old(outn()) ==> outp(k) == old(outp(k)) && outw(k) == old(outw(k))
  inv 6 at: outn() == X(i+j-1) + XS(ledger.Transactions[i-1], it(6)) && outn() >= old(outn())
  inv 6 text: forall k: int {outp(k)} :: old(outn()) <= k < outn() ==> outp(k) == TXT(k)
  inv 6 where: forall k: int {outw(k)} :: old(outn()) <= k < outn() ==> outw(k) == out
  inv 6 kept: forall k: int {outp(k)} {outw(k)} :: k < old(outn()) ==> outp(k) == old(outp(k)) && outw(k) == old(outw(k))
  inv 7 at: outn() == X(i+j-1) + XS(ledger.Transactions[i-1], it(6)-1) + splitRest(ledger, ledger.Transactions[i-1].Splits[it(6)-1]) + 3 + 4*it(7) && outn() >= old(outn())
  inv 7 text: forall k: int {outp(k)} :: old(outn()) <= k < outn() ==> outp(k) == TXT(k)
  inv 7 where: forall k: int {outw(k)} :: old(outn()) <= k < outn() ==> outw(k) == out
  inv 7 kept: forall k: int {outp(k)} {outw(k)} :: k < old(outn()) ==> outp(k) == old(outp(k)) && outw(k) == old(outw(k))
  inv 8 at: outn() == X(i+j-1) + 4 + 3 + 4*it(8) && outn() >= old(outn())
  inv 8 text: forall k: int {outp(k)} :: old(outn()) <= k < outn() ==> outp(k) == TXT(k)
  inv 8 where: forall k: int {outw(k)} :: old(outn()) <= k < outn() ==> outw(k) == out
  inv 8 kept: forall k: int {outp(k)} {outw(k)} :: k < old(outn()) ==> outp(k) == old(outp(k)) && outw(k) == old(outw(k))
  hint loop 5 back: assert TI(i+j-1) == i-1
  hint loop 5 back: assert oneComment(X(i+j-1)+2, CMT(ledger.Transactions[i-1])[it(5)], it(5))
  hint loop 8 back: assert TJ(i+j-1) == j-1
  hint loop 8 back: assert oneComment(X(i+j-1)+4, CMP(ledger.Prices[j-1])[it(8)], it(8))
  hint loop 6 entry: assert t == ledger.Transactions[i-1]
  hint loop 6 body: assert t == ledger.Transactions[i-1]
  hint loop 6 body: assert TI(i+j-1) == i-1
  hint loop 6 body: assert isTrx(ledger, i+j-1)
  hint loop 6 body: assert trx(ledger, i+j-1) == ledger.Transactions[i-1]
  hint loop 6 body: assert XS(trx(ledger, i+j-1), it(6)) == XS(ledger.Transactions[i-1], it(6))
  hint loop 6 body: assert 0 <= i+j-1 && i+j-1 < items(ledger)
  hint loop 6 body: assert it(6) < len(ledger.Transactions[i-1].Splits) ==> splitText(ledger, trx(ledger, i+j-1), trx(ledger, i+j-1).Splits[it(6)], X(i+j-1) + XS(trx(ledger, i+j-1), it(6)))
  hint loop 6 body: assert it(6) < len(ledger.Transactions[i-1].Splits) ==> splitText(ledger, ledger.Transactions[i-1], ledger.Transactions[i-1].Splits[it(6)], X(i+j-1) + XS(ledger.Transactions[i-1], it(6)))
  hint loop 6 body: assert trx(ledger, i+j-1).Splits[it(6)] == ledger.Transactions[i-1].Splits[it(6)]
  hint loop 6 body: assert CMS(trx(ledger, i+j-1).Splits[it(6)]) == CMS(ledger.Transactions[i-1].Splits[it(6)]) && splitRest(ledger, trx(ledger, i+j-1).Splits[it(6)]) == splitRest(ledger, ledger.Transactions[i-1].Splits[it(6)]) && ownDate(trx(ledger, i+j-1), trx(ledger, i+j-1).Splits[it(6)]) == ownDate(ledger.Transactions[i-1], ledger.Transactions[i-1].Splits[it(6)])
  hint loop 6 body: assert forall c: int {CMS(trx(ledger, i+j-1).Splits[it(6)])[c]} :: it(6) < len(trx(ledger, i+j-1).Splits) && 0 <= c && c < len(CMS(trx(ledger, i+j-1).Splits[it(6)])) ==> oneComment(X(i+j-1) + XS(trx(ledger, i+j-1), it(6)) + splitRest(ledger, trx(ledger, i+j-1).Splits[it(6)]), CMS(trx(ledger, i+j-1).Splits[it(6)])[c], c + ownDate(trx(ledger, i+j-1), trx(ledger, i+j-1).Splits[it(6)]))
  hint loop 6 body: assert forall c: int {CMS(ledger.Transactions[i-1].Splits[it(6)])[c]} :: it(6) < len(ledger.Transactions[i-1].Splits) && 0 <= c && c < len(CMS(ledger.Transactions[i-1].Splits[it(6)])) ==> oneComment(X(i+j-1) + XS(ledger.Transactions[i-1], it(6)) + splitRest(ledger, ledger.Transactions[i-1].Splits[it(6)]), CMS(ledger.Transactions[i-1].Splits[it(6)])[c], c + ownDate(ledger.Transactions[i-1], ledger.Transactions[i-1].Splits[it(6)]))
  hint loop 7 entry: assert len(comments) == ownDate(ledger.Transactions[i-1], ledger.Transactions[i-1].Splits[it(6)-1]) + len(CMS(ledger.Transactions[i-1].Splits[it(6)-1]))
  hint loop 7 entry: assert ownDate(ledger.Transactions[i-1], ledger.Transactions[i-1].Splits[it(6)-1]) == 1 ==> comments[0] == dateText(ledger.Transactions[i-1].Splits[it(6)-1])
  hint loop 7 entry: assert forall c: int {CMS(ledger.Transactions[i-1].Splits[it(6)-1])[c]} {comments[c + ownDate(ledger.Transactions[i-1], ledger.Transactions[i-1].Splits[it(6)-1])]} :: 0 <= c < len(CMS(ledger.Transactions[i-1].Splits[it(6)-1])) ==> comments[c + ownDate(ledger.Transactions[i-1], ledger.Transactions[i-1].Splits[it(6)-1])] == CMS(ledger.Transactions[i-1].Splits[it(6)-1])[c]
  hint loop 7 entry: assert ownDate(ledger.Transactions[i-1], ledger.Transactions[i-1].Splits[it(6)-1]) == 0 ==> oneComment(X(i+j-1) + XS(ledger.Transactions[i-1], it(6)-1) + splitRest(ledger, ledger.Transactions[i-1].Splits[it(6)-1]), CMS(ledger.Transactions[i-1].Splits[it(6)-1])[0], 0)
  hint loop 7 entry: assert comments[0] == TXT(X(i+j-1) + XS(ledger.Transactions[i-1], it(6)-1) + splitRest(ledger, ledger.Transactions[i-1].Splits[it(6)-1]) + 1)
  hint loop 7 back: assert comments[it(7)] == CMS(ledger.Transactions[i-1].Splits[it(6)-1])[it(7)-ownDate(ledger.Transactions[i-1], ledger.Transactions[i-1].Splits[it(6)-1])]
  hint loop 7 back: assert oneComment(X(i+j-1) + XS(ledger.Transactions[i-1], it(6)-1) + splitRest(ledger, ledger.Transactions[i-1].Splits[it(6)-1]), CMS(ledger.Transactions[i-1].Splits[it(6)-1])[it(7)-ownDate(ledger.Transactions[i-1], ledger.Transactions[i-1].Splits[it(6)-1])], it(7))
  hint loop 6 back: assert splitText(ledger, ledger.Transactions[i-1], ledger.Transactions[i-1].Splits[it(6)-1], X(i+j-1) + XS(ledger.Transactions[i-1], it(6)-1))
  hint loop 6 back: assert ownDate(ledger.Transactions[i-1], ledger.Transactions[i-1].Splits[it(6)-1]) == 0 && len(CMS(ledger.Transactions[i-1].Splits[it(6)-1])) > 0 ==> oneComment(X(i+j-1) + XS(ledger.Transactions[i-1], it(6)-1) + splitRest(ledger, ledger.Transactions[i-1].Splits[it(6)-1]), CMS(ledger.Transactions[i-1].Splits[it(6)-1])[0], 0)
  ensures all: TI(items(ledger)) == len(ledger.Transactions) && TJ(items(ledger)) == len(ledger.Prices)
  ensures chronological: inOrder(ledger) ==> forall k: int, n: int {X(k), X(n)} :: n == k+1 && 0 <= k && n < items(ledger) ==> moment(ledger, k) <= moment(ledger, n)
  ensures end: outn() == X(items(ledger))
  ensures text: forall k: int {outp(k)} :: old(outn()) <= k < outn() ==> outp(k) == TXT(k)
  ensures where: forall k: int {outw(k)} :: old(outn()) <= k < outn() ==> outw(k) == out
  ensures kept: forall k: int {outp(k)} {outw(k)} :: k < old(outn()) ==> outp(k) == old(outp(k)) && outw(k) == old(outw(k))
