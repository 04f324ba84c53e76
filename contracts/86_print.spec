package github.com/cespedes/accounting/cmd/ledger

// ---- the command which prints the ledger (P22)

func runPrint
  props P22
  option output
  requires ledger: L > 0
  requires accounts: forall i: int {L.Accounts[i]} :: 0 <= i < len(L.Accounts) ==> okAccount(L.Accounts[i])
  requires up: forall o: *Account {o.Parent} :: ACC(o) ==> o > 0 && allocated(o) && AIDX(o) >= 0 && rooted(o)
  requires currencies: forall i: int {L.Currencies[i]} :: 0 <= i < len(L.Currencies) ==> L.Currencies[i] > 0 && okCurrency(L.Currencies[i])
  requires transactions: forall i: int {L.Transactions[i]} :: 0 <= i < len(L.Transactions) ==> L.Transactions[i] > 0
  requires postings: forall i: int, j: int {L.Transactions[i].Splits[j]} :: 0 <= i < len(L.Transactions) && 0 <= j < len(L.Transactions[i].Splits) ==> L.Transactions[i].Splits[j] > 0 && L.Transactions[i].Splits[j].Time != nil && okAccount(L.Transactions[i].Splits[j].Account) && okValue(L.Transactions[i].Splits[j].Value)
  requires stated: forall s: *Split {L.SplitPrices[s]} :: s in L.SplitPrices ==> okValue(L.SplitPrices[s])
  requires asserted: forall s: *Split {L.Assertions[s]} :: s in L.Assertions ==> okValue(L.Assertions[s])
  requires prices: forall i: int {L.Prices[i]} :: 0 <= i < len(L.Prices) ==> L.Prices[i] > 0 && L.Prices[i].Currency > 0 && okValue(L.Prices[i].Value)
  requires comments: (forall a: *Account {CMA(a)} :: CMA(a) == L.Comments[mk(*Account, a)]) && (forall a: *Currency {CMC(a)} :: CMC(a) == L.Comments[mk(*Currency, a)]) && (forall a: *Transaction {CMT(a)} :: CMT(a) == L.Comments[mk(*Transaction, a)]) && (forall a: *Split {CMS(a)} :: CMS(a) == L.Comments[mk(*Split, a)]) && (forall a: *Price {CMP(a)} :: CMP(a) == L.Comments[mk(*Price, a)])
  requires text-accounts: XA(0) == outn() && (forall i: int, n: int {XA(i), XA(n)} :: n == i+1 && 0 <= i < len(L.Accounts) ==> XA(n) == XA(i) + 2 + cn(len(CMA(L.Accounts[i])))) && (forall i: int {L.Accounts[i]} :: 0 <= i < len(L.Accounts) ==> TXT(XA(i)) == "account" && TXT(XA(i)+1) == nameOf(L.Accounts[i]) && noComment(XA(i)+2, len(CMA(L.Accounts[i]))))
  requires text-account-comments: forall i: int, k: int {CMA(L.Accounts[i])[k]} :: 0 <= i < len(L.Accounts) && 0 <= k < len(CMA(L.Accounts[i])) ==> oneComment(XA(i)+2, CMA(L.Accounts[i])[k], k)
  requires text-currencies: TXT(XA(len(L.Accounts))) == "\n" && XC(0) == XA(len(L.Accounts)) + 1 && (forall i: int, n: int {XC(i), XC(n)} :: n == i+1 && 0 <= i < len(L.Currencies) ==> XC(n) == XC(i) + 2 + cn(len(CMC(L.Currencies[i])))) && (forall i: int {L.Currencies[i]} :: 0 <= i < len(L.Currencies) ==> TXT(XC(i)) == "commodity" && TXT(XC(i)+1) == tAll(mk(Value, 100000000000000, L.Currencies[i]), false, true) && noComment(XC(i)+2, len(CMC(L.Currencies[i]))))
  requires text-currency-comments: forall i: int, k: int {CMC(L.Currencies[i])[k]} :: 0 <= i < len(L.Currencies) && 0 <= k < len(CMC(L.Currencies[i])) ==> oneComment(XC(i)+2, CMC(L.Currencies[i])[k], k)
  requires order: TI(0) == 0 && TJ(0) == 0 && (forall k: int, n: int {X(k), X(n)} :: n == k+1 && 0 <= k < items(L) ==> TI(n) == TI(k) + ite(isTrx(L, k), 1, 0) && TJ(n) == TJ(k) + ite(isTrx(L, k), 0, 1))
  requires text-items: TXT(XC(len(L.Currencies))) == "\n" && X(0) == XC(len(L.Currencies)) + 1 && (forall k: int, n: int {X(k), X(n)} :: n == k+1 && 0 <= k < items(L) ==> X(n) == X(k) + ite(isTrx(L, k), XS(trx(L, k), len(trx(L, k).Splits)), 4 + cn(len(CMP(price(L, k))))))
  requires text-transactions: forall k: int {TI(k)} :: 0 <= k < items(L) && isTrx(L, k) ==> TXT(X(k)) == timetext(trx(L, k).Time, "2006-01-02/15:04") && TXT(X(k)+1) == trx(L, k).Description && noComment(X(k)+2, len(CMT(trx(L, k))))
  requires text-transaction-comments: forall k: int, c: int {TI(k), CMT(trx(L, k))[c]} :: 0 <= k < items(L) && isTrx(L, k) && 0 <= c < len(CMT(trx(L, k))) ==> oneComment(X(k)+2, CMT(trx(L, k))[c], c)
  requires place-postings: (forall t: *Transaction {CMT(t)} {XS(t, 0)} :: XS(t, 0) == 2 + cn(len(CMT(t)))) && (forall t: *Transaction, j: int, n: int {XS(t, j), XS(t, n)} :: n == j+1 && 0 <= j < len(t.Splits) ==> XS(t, n) == XS(t, j) + splitSize(L, t, t.Splits[j]))
  requires text-postings: forall k: int, m: int {TI(k), XS(trx(L, k), m)} :: 0 <= k < items(L) && isTrx(L, k) && 0 <= m < len(trx(L, k).Splits) ==> splitText(L, trx(L, k), trx(L, k).Splits[m], X(k) + XS(trx(L, k), m))
  requires text-posting-comments: forall k: int, m: int, c: int {TI(k), XS(trx(L, k), m), CMS(trx(L, k).Splits[m])[c]} :: 0 <= k < items(L) && isTrx(L, k) && 0 <= m < len(trx(L, k).Splits) && 0 <= c < len(CMS(trx(L, k).Splits[m])) ==> oneComment(X(k) + XS(trx(L, k), m) + splitRest(L, trx(L, k).Splits[m]), CMS(trx(L, k).Splits[m])[c], c + ownDate(trx(L, k), trx(L, k).Splits[m]))
  requires text-prices: forall k: int {TJ(k)} :: 0 <= k < items(L) && !isTrx(L, k) ==> TXT(X(k)) == "P" && TXT(X(k)+1) == timetext(price(L, k).Time, "2006-01-02/15:04") && TXT(X(k)+2) == price(L, k).Currency.Name && TXT(X(k)+3) == tAll(price(L, k).Value, true, true) && noComment(X(k)+4, len(CMP(price(L, k))))
  requires text-price-comments: forall k: int, c: int {TJ(k), CMP(price(L, k))[c]} :: 0 <= k < items(L) && !isTrx(L, k) && 0 <= c < len(CMP(price(L, k))) ==> oneComment(X(k)+4, CMP(price(L, k))[c], c)
  modifies output, fresh mem(string)
  ensures all: TI(items(L)) == len(L.Transactions) && TJ(items(L)) == len(L.Prices)
  ensures chronological: inOrder(L) ==> forall k: int, n: int {X(k), X(n)} :: n == k+1 && 0 <= k && n < items(L) ==> moment(L, k) <= moment(L, n)
  ensures end: outn() == X(items(L))
  ensures text: forall k: int {outp(k)} :: old(outn()) <= k < outn() ==> outp(k) == TXT(k)
  ensures where: forall k: int {outw(k)} :: old(outn()) <= k < outn() ==> outw(k) == stdout()
  ensures kept: forall k: int {outp(k)} {outw(k)} :: k < old(outn()) ==> outp(k) == old(outp(k)) && outw(k) == old(outw(k))
  ensures good: result == nil
