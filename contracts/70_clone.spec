package github.com/cespedes/accounting

// ---- copies of a ledger (P13)

// KC: the currencies which the ledger lists; KCI: the place of each
fun KC(c: *Currency): bool
fun KCI(c: *Currency): int

// each thing of the ledger has one copy, which is new and is the copy of nothing else
def curOf(n, c) := ite(c == nil, n == nil, c in mapCurrencies && n == mapCurrencies[c])
def sameCur(c, n) := n.ID == old(c.ID) && n.Name == old(c.Name) && n.PrintBefore == old(c.PrintBefore) && n.WithoutSpace == old(c.WithoutSpace) && n.Thousand == old(c.Thousand) && n.Decimal == old(c.Decimal) && n.Precision == old(c.Precision) && n.ISIN == old(c.ISIN)
def la(i) := old(l.Accounts[i])
def lt(i) := old(l.Transactions[i])
def ls(i, j) := old(l.Transactions[i].Splits[j])
def lp(i) := old(l.Prices[i])
def sameList(n, o) := len(n) == len(o) && fresh(n)
def accFields(a, n) := n.ID == old(a.ID) && n.Level == old(a.Level) && n.Name == old(a.Name) && n.Code == old(a.Code) && n.Parent == mapAccounts[old(a.Parent)]
def accLists(a, n) := sameList(n.Children, old(a.Children)) && sameList(n.Splits, old(a.Splits)) && sameList(n.StartBalance, old(a.StartBalance))
def txFields(t, n) := n.ID == old(t.ID) && n.Time == old(t.Time) && n.Description == old(t.Description) && sameList(n.Splits, old(t.Splits))
def timeOf(s, n) := ite(old(s.Time == &s.Transaction.Time), n.Time == &n.Transaction.Time, ite(old(s.Time) == nil, n.Time == nil, n.Time != nil && fresh(n.Time) && deref(n.Time) == old(deref(s.Time))))
def spFields(s, n) := n.ID == old(s.ID) && n.Account == mapAccounts[old(s.Account)] && n.Transaction == mapTransactions[old(s.Transaction)] && n.Value.Amount == old(s.Value.Amount) && sameList(n.Balance, old(s.Balance))
def priceFields(p, n) := n.ID == old(p.ID) && n.Time == old(p.Time) && n.Value.Amount == old(p.Value.Amount)

func (*Ledger).Clone
  props P13
  requires ledger: l != nil
  requires accounts: forall i: int {l.Accounts[i]} :: 0 <= i < len(l.Accounts) ==> l.Accounts[i] != nil
  requires transactions: forall i: int {l.Transactions[i]} :: 0 <= i < len(l.Transactions) ==> l.Transactions[i] != nil
  requires postings: forall i: int, j: int {l.Transactions[i].Splits[j]} :: 0 <= i < len(l.Transactions) && 0 <= j < len(l.Transactions[i].Splits) ==> l.Transactions[i].Splits[j] != nil && l.Transactions[i].Splits[j].Transaction == l.Transactions[i]
  requires prices: forall i: int {l.Prices[i]} :: 0 <= i < len(l.Prices) ==> l.Prices[i] != nil
  requires currencies: forall i: int {l.Currencies[i]} :: 0 <= i < len(l.Currencies) ==> l.Currencies[i] != nil && KC(l.Currencies[i])
  requires listed: forall c: *Currency {KC(c)} :: KC(c) ==> 0 <= KCI(c) < len(l.Currencies) && l.Currencies[KCI(c)] == c
  modifies fresh Ledger.connection, fresh Ledger.transferAccount, fresh Ledger.Accounts, fresh Ledger.Transactions, fresh Ledger.Currencies, fresh Ledger.Prices, fresh Ledger.Comments, fresh Ledger.Assertions, fresh Ledger.SplitPrices, fresh Ledger.DefaultCurrency, fresh Account.ID, fresh Account.Parent, fresh Account.Children, fresh Account.Level, fresh Account.Name, fresh Account.Code, fresh Account.Splits, fresh Account.StartBalance, fresh Transaction.ID, fresh Transaction.Time, fresh Transaction.Description, fresh Transaction.Splits, fresh Split.ID, fresh Split.Account, fresh Split.Transaction, fresh Split.Time, fresh Split.Value, fresh Split.Balance, fresh Currency.ID, fresh Currency.Name, fresh Currency.PrintBefore, fresh Currency.WithoutSpace, fresh Currency.Thousand, fresh Currency.Decimal, fresh Currency.Precision, fresh Currency.ISIN, fresh Price.ID, fresh Price.Currency, fresh Price.Value, fresh mem(*Account), fresh mem(*Transaction), fresh mem(*Split), fresh mem(*Currency), fresh mem(*Price), fresh mem(Value), fresh mem(string), fresh mapdom(map[*Account]*Account), fresh mapval(map[*Account]*Account), fresh mapdom(map[*Transaction]*Transaction), fresh mapval(map[*Transaction]*Transaction), fresh mapdom(map[*Split]*Split), fresh mapval(map[*Split]*Split), fresh mapdom(map[*Currency]*Currency), fresh mapval(map[*Currency]*Currency), fresh mapdom(map[*Price]*Price), fresh mapval(map[*Price]*Price), fresh mapdom(map[any][]string), fresh mapval(map[any][]string), fresh mapdom(map[*Split]Value), fresh mapval(map[*Split]Value)
  inv 0 keys: forall x: *Account {mapAccounts[x]} :: x in mapAccounts ==> x != nil && x < old(alloc) && fresh(mapAccounts[x])
  inv 0 apart: forall x: *Account, y: *Account {mapAccounts[x], mapAccounts[y]} :: x in mapAccounts && y in mapAccounts && mapAccounts[x] == mapAccounts[y] ==> x == y
  inv 0 all: forall i: int {la(i)} :: 0 <= i < it(0) ==> la(i) in mapAccounts
  inv 1 tkeys: forall x: *Transaction {mapTransactions[x]} :: x in mapTransactions ==> x != nil && x < old(alloc) && fresh(mapTransactions[x])
  inv 1 tapart: forall x: *Transaction, y: *Transaction {mapTransactions[x], mapTransactions[y]} :: x in mapTransactions && y in mapTransactions && mapTransactions[x] == mapTransactions[y] ==> x == y
  inv 1 tall: forall i: int {lt(i)} :: 0 <= i < it(1) ==> lt(i) in mapTransactions
  inv 1 skeys: forall x: *Split {mapSplits[x]} :: x in mapSplits ==> x != nil && x < old(alloc) && fresh(mapSplits[x])
  inv 1 sapart: forall x: *Split, y: *Split {mapSplits[x], mapSplits[y]} :: x in mapSplits && y in mapSplits && mapSplits[x] == mapSplits[y] ==> x == y
  inv 1 sall: forall i: int, j: int {ls(i,j)} :: 0 <= i < it(1) && 0 <= j < old(len(l.Transactions[i].Splits)) ==> ls(i,j) in mapSplits
  inv 2 skeys: forall x: *Split {mapSplits[x]} :: x in mapSplits ==> x != nil && x < old(alloc) && fresh(mapSplits[x])
  inv 2 sapart: forall x: *Split, y: *Split {mapSplits[x], mapSplits[y]} :: x in mapSplits && y in mapSplits && mapSplits[x] == mapSplits[y] ==> x == y
  inv 2 sall: forall i: int, j: int {ls(i,j)} :: 0 <= i < it(1)-1 && 0 <= j < old(len(l.Transactions[i].Splits)) ==> ls(i,j) in mapSplits
  inv 2 sthis: forall j: int {ls(it(1)-1,j)} :: 0 <= j < it(2) ==> ls(it(1)-1,j) in mapSplits
  inv 3 ckeys: forall x: *Currency {mapCurrencies[x]} :: x in mapCurrencies ==> x != nil && x < old(alloc) && fresh(mapCurrencies[x])
  inv 3 capart: forall x: *Currency, y: *Currency {mapCurrencies[x], mapCurrencies[y]} :: x in mapCurrencies && y in mapCurrencies && mapCurrencies[x] == mapCurrencies[y] ==> x == y
  inv 3 call: forall i: int {old(l.Currencies[i])} :: 0 <= i < it(3) ==> old(l.Currencies[i]) in mapCurrencies
  inv 3 conly: forall c: *Currency {mapCurrencies[c]} :: c in mapCurrencies ==> KC(c)
  inv 4 pkeys: forall x: *Price {mapPrices[x]} :: x in mapPrices ==> x != nil && x < old(alloc) && fresh(mapPrices[x])
  inv 4 papart: forall x: *Price, y: *Price {mapPrices[x], mapPrices[y]} :: x in mapPrices && y in mapPrices && mapPrices[x] == mapPrices[y] ==> x == y
  inv 4 pall: forall i: int {lp(i)} :: 0 <= i < it(4) ==> lp(i) in mapPrices
  inv 5 ckeys: forall x: *Currency {mapCurrencies[x]} :: x in mapCurrencies ==> x != nil && x < old(alloc) && fresh(mapCurrencies[x])
  inv 5 capart: forall x: *Currency, y: *Currency {mapCurrencies[x], mapCurrencies[y]} :: x in mapCurrencies && y in mapCurrencies && mapCurrencies[x] == mapCurrencies[y] ==> x == y
  inv 5 crest: forall c: *Currency {mapCurrencies[c]} :: c in mapCurrencies && !KC(c) ==> sameCur(c, mapCurrencies[c])
  inv 5 cgrown: forall c: *Currency {mapCurrencies[c]} {entry(5, mapCurrencies[c])} :: entry(5, c in mapCurrencies) ==> c in mapCurrencies && mapCurrencies[c] == entry(5, mapCurrencies[c])
  inv 8 ckeys: forall x: *Currency {mapCurrencies[x]} :: x in mapCurrencies ==> x != nil && x < old(alloc) && fresh(mapCurrencies[x])
  inv 8 capart: forall x: *Currency, y: *Currency {mapCurrencies[x], mapCurrencies[y]} :: x in mapCurrencies && y in mapCurrencies && mapCurrencies[x] == mapCurrencies[y] ==> x == y
  inv 8 crest: forall c: *Currency {mapCurrencies[c]} :: c in mapCurrencies && !KC(c) ==> sameCur(c, mapCurrencies[c])
  inv 8 cgrown: forall c: *Currency {mapCurrencies[c]} {entry(8, mapCurrencies[c])} :: entry(8, c in mapCurrencies) ==> c in mapCurrencies && mapCurrencies[c] == entry(8, mapCurrencies[c])
  inv 9 ckeys: forall x: *Currency {mapCurrencies[x]} :: x in mapCurrencies ==> x != nil && x < old(alloc) && fresh(mapCurrencies[x])
  inv 9 capart: forall x: *Currency, y: *Currency {mapCurrencies[x], mapCurrencies[y]} :: x in mapCurrencies && y in mapCurrencies && mapCurrencies[x] == mapCurrencies[y] ==> x == y
  inv 9 crest: forall c: *Currency {mapCurrencies[c]} :: c in mapCurrencies && !KC(c) ==> sameCur(c, mapCurrencies[c])
  inv 9 cgrown: forall c: *Currency {mapCurrencies[c]} {entry(9, mapCurrencies[c])} :: entry(9, c in mapCurrencies) ==> c in mapCurrencies && mapCurrencies[c] == entry(9, mapCurrencies[c])
  inv 10 ckeys: forall x: *Currency {mapCurrencies[x]} :: x in mapCurrencies ==> x != nil && x < old(alloc) && fresh(mapCurrencies[x])
  inv 10 capart: forall x: *Currency, y: *Currency {mapCurrencies[x], mapCurrencies[y]} :: x in mapCurrencies && y in mapCurrencies && mapCurrencies[x] == mapCurrencies[y] ==> x == y
  inv 10 crest: forall c: *Currency {mapCurrencies[c]} :: c in mapCurrencies && !KC(c) ==> sameCur(c, mapCurrencies[c])
  inv 10 cgrown: forall c: *Currency {mapCurrencies[c]} {entry(10, mapCurrencies[c])} :: entry(10, c in mapCurrencies) ==> c in mapCurrencies && mapCurrencies[c] == entry(10, mapCurrencies[c])
  inv 11 ckeys: forall x: *Currency {mapCurrencies[x]} :: x in mapCurrencies ==> x != nil && x < old(alloc) && fresh(mapCurrencies[x])
  inv 11 capart: forall x: *Currency, y: *Currency {mapCurrencies[x], mapCurrencies[y]} :: x in mapCurrencies && y in mapCurrencies && mapCurrencies[x] == mapCurrencies[y] ==> x == y
  inv 11 crest: forall c: *Currency {mapCurrencies[c]} :: c in mapCurrencies && !KC(c) ==> sameCur(c, mapCurrencies[c])
  inv 11 cgrown: forall c: *Currency {mapCurrencies[c]} {entry(11, mapCurrencies[c])} :: entry(11, c in mapCurrencies) ==> c in mapCurrencies && mapCurrencies[c] == entry(11, mapCurrencies[c])
  inv 13 ckeys: forall x: *Currency {mapCurrencies[x]} :: x in mapCurrencies ==> x != nil && x < old(alloc) && fresh(mapCurrencies[x])
  inv 13 capart: forall x: *Currency, y: *Currency {mapCurrencies[x], mapCurrencies[y]} :: x in mapCurrencies && y in mapCurrencies && mapCurrencies[x] == mapCurrencies[y] ==> x == y
  inv 13 crest: forall c: *Currency {mapCurrencies[c]} :: c in mapCurrencies && true ==> sameCur(c, mapCurrencies[c])
  inv 13 cgrown: forall c: *Currency {mapCurrencies[c]} {entry(13, mapCurrencies[c])} :: entry(13, c in mapCurrencies) ==> c in mapCurrencies && mapCurrencies[c] == entry(13, mapCurrencies[c])
  inv 15 ckeys: forall x: *Currency {mapCurrencies[x]} :: x in mapCurrencies ==> x != nil && x < old(alloc) && fresh(mapCurrencies[x])
  inv 15 capart: forall x: *Currency, y: *Currency {mapCurrencies[x], mapCurrencies[y]} :: x in mapCurrencies && y in mapCurrencies && mapCurrencies[x] == mapCurrencies[y] ==> x == y
  inv 15 crest: forall c: *Currency {mapCurrencies[c]} :: c in mapCurrencies && true ==> sameCur(c, mapCurrencies[c])
  inv 15 cgrown: forall c: *Currency {mapCurrencies[c]} {entry(15, mapCurrencies[c])} :: entry(15, c in mapCurrencies) ==> c in mapCurrencies && mapCurrencies[c] == entry(15, mapCurrencies[c])
  inv 16 ckeys: forall x: *Currency {mapCurrencies[x]} :: x in mapCurrencies ==> x != nil && x < old(alloc) && fresh(mapCurrencies[x])
  inv 16 capart: forall x: *Currency, y: *Currency {mapCurrencies[x], mapCurrencies[y]} :: x in mapCurrencies && y in mapCurrencies && mapCurrencies[x] == mapCurrencies[y] ==> x == y
  inv 16 crest: forall c: *Currency {mapCurrencies[c]} :: c in mapCurrencies && true ==> sameCur(c, mapCurrencies[c])
  inv 16 cgrown: forall c: *Currency {mapCurrencies[c]} {entry(16, mapCurrencies[c])} :: entry(16, c in mapCurrencies) ==> c in mapCurrencies && mapCurrencies[c] == entry(16, mapCurrencies[c])
  inv 12 done: forall i: int {old(l.Currencies[i])} :: 0 <= i < it(12) ==> sameCur(old(l.Currencies[i]), mapCurrencies[old(l.Currencies[i])]) && res.Currencies[i] == mapCurrencies[old(l.Currencies[i])]
  inv 12 crest: forall c: *Currency {mapCurrencies[c]} :: c in mapCurrencies && !KC(c) ==> sameCur(c, mapCurrencies[c])
  inv 5 list: forall i: int {la(i)} :: 0 <= i < it(5) ==> res.Accounts[i] == mapAccounts[la(i)]
  inv 5 fields: forall i: int {la(i)} :: 0 <= i < it(5) ==> accFields(la(i), mapAccounts[la(i)])
  inv 5 lists: forall i: int {la(i)} :: 0 <= i < it(5) ==> accLists(la(i), mapAccounts[la(i)]) && arr(mapAccounts[la(i)].Children) > arr(res.Accounts)
  inv 5 children: forall i: int, k: int {old(l.Accounts[i].Children[k])} :: 0 <= i < it(5) && 0 <= k < old(len(l.Accounts[i].Children)) ==> mapAccounts[la(i)].Children[k] == mapAccounts[old(l.Accounts[i].Children[k])]
  inv 5 splits: forall i: int, k: int {old(l.Accounts[i].Splits[k])} :: 0 <= i < it(5) && 0 <= k < old(len(l.Accounts[i].Splits)) ==> mapAccounts[la(i)].Splits[k] == mapSplits[old(l.Accounts[i].Splits[k])]
  inv 5 start: forall i: int, k: int {old(l.Accounts[i].StartBalance[k])} :: 0 <= i < it(5) && 0 <= k < old(len(l.Accounts[i].StartBalance)) ==> mapAccounts[la(i)].StartBalance[k].Amount == old(l.Accounts[i].StartBalance[k].Amount) && curOf(mapAccounts[la(i)].StartBalance[k].Currency, old(l.Accounts[i].StartBalance[k].Currency))
  inv 6 others: forall a: int, o: int, k: int {atr(mem(*Account),a,o,k)} {entry(6, atr(mem(*Account),a,o,k))} :: a != arr(na.Children) ==> atr(mem(*Account),a,o,k) == entry(6, atr(mem(*Account),a,o,k))
  inv 6 done: forall k: int {old(l.Accounts[it(5)-1].Children[k])} :: 0 <= k < it(6) ==> na.Children[k] == mapAccounts[old(l.Accounts[it(5)-1].Children[k])]
  inv 7 others: forall a: int, o: int, k: int {atr(mem(*Split),a,o,k)} {entry(7, atr(mem(*Split),a,o,k))} :: a != arr(na.Splits) ==> atr(mem(*Split),a,o,k) == entry(7, atr(mem(*Split),a,o,k))
  inv 7 done: forall k: int {old(l.Accounts[it(5)-1].Splits[k])} :: 0 <= k < it(7) ==> na.Splits[k] == mapSplits[old(l.Accounts[it(5)-1].Splits[k])]
  inv 8 others: forall a: int, o: int, k: int {atr(mem(Value),a,o,k)} {entry(8, atr(mem(Value),a,o,k))} :: a != arr(na.StartBalance) ==> atr(mem(Value),a,o,k) == entry(8, atr(mem(Value),a,o,k))
  inv 8 done: forall k: int {old(l.Accounts[it(5)-1].StartBalance[k])} :: 0 <= k < it(8) ==> na.StartBalance[k].Amount == old(l.Accounts[it(5)-1].StartBalance[k].Amount) && curOf(na.StartBalance[k].Currency, old(l.Accounts[it(5)-1].StartBalance[k].Currency))
  inv 9 kept: forall a: int, o: int, k: int {atr(mem(*Split),a,o,k)} {entry(9, atr(mem(*Split),a,o,k))} :: a < entry(9, alloc) ==> atr(mem(*Split),a,o,k) == entry(9, atr(mem(*Split),a,o,k))
  inv 9 vkept: forall a: int, o: int, k: int {atr(mem(Value),a,o,k)} {entry(9, atr(mem(Value),a,o,k))} :: a < entry(9, alloc) ==> atr(mem(Value),a,o,k) == entry(9, atr(mem(Value),a,o,k))
  inv 10 vkept: forall a: int, o: int, k: int {atr(mem(Value),a,o,k)} {entry(10, atr(mem(Value),a,o,k))} :: a < entry(10, alloc) ==> atr(mem(Value),a,o,k) == entry(10, atr(mem(Value),a,o,k))
  inv 9 list: forall i: int {lt(i)} :: 0 <= i < it(9) ==> res.Transactions[i] == mapTransactions[lt(i)]
  inv 9 fields: forall i: int {lt(i)} :: 0 <= i < it(9) ==> txFields(lt(i), mapTransactions[lt(i)])
  inv 9 posting: forall i: int, j: int {ls(i,j)} :: 0 <= i < it(9) && 0 <= j < old(len(l.Transactions[i].Splits)) ==> mapTransactions[lt(i)].Splits[j] == mapSplits[ls(i,j)]
  inv 9 posted: forall i: int, j: int {ls(i,j)} :: 0 <= i < it(9) && 0 <= j < old(len(l.Transactions[i].Splits)) ==> spFields(ls(i,j), mapSplits[ls(i,j)])
  inv 9 time: forall i: int, j: int {ls(i,j)} :: 0 <= i < it(9) && 0 <= j < old(len(l.Transactions[i].Splits)) ==> timeOf(ls(i,j), mapSplits[ls(i,j)])
  inv 9 currency: forall i: int, j: int {ls(i,j)} :: 0 <= i < it(9) && 0 <= j < old(len(l.Transactions[i].Splits)) ==> curOf(mapSplits[ls(i,j)].Value.Currency, old(l.Transactions[i].Splits[j].Value.Currency))
  inv 9 balance: forall i: int, j: int, k: int {old(l.Transactions[i].Splits[j].Balance[k])} :: 0 <= i < it(9) && 0 <= j < old(len(l.Transactions[i].Splits)) && 0 <= k < old(len(l.Transactions[i].Splits[j].Balance)) ==> mapSplits[ls(i,j)].Balance[k].Amount == old(l.Transactions[i].Splits[j].Balance[k].Amount) && curOf(mapSplits[ls(i,j)].Balance[k].Currency, old(l.Transactions[i].Splits[j].Balance[k].Currency))
  inv 10 this: txFields(lt(it(9)-1), nt) && arr(nt.Splits) >= start(9, alloc)
  inv 10 fields: forall i: int {lt(i)} :: 0 <= i < it(9)-1 ==> txFields(lt(i), mapTransactions[lt(i)])
  inv 10 posting: forall i: int, j: int {ls(i,j)} :: 0 <= i < it(9)-1 && 0 <= j < old(len(l.Transactions[i].Splits)) && lt(i) != lt(it(9)-1) ==> mapTransactions[lt(i)].Splits[j] == mapSplits[ls(i,j)]
  inv 10 posted: forall i: int, j: int {ls(i,j)} :: 0 <= i < it(9)-1 && 0 <= j < old(len(l.Transactions[i].Splits)) ==> spFields(ls(i,j), mapSplits[ls(i,j)])
  inv 10 time: forall i: int, j: int {ls(i,j)} :: 0 <= i < it(9)-1 && 0 <= j < old(len(l.Transactions[i].Splits)) ==> timeOf(ls(i,j), mapSplits[ls(i,j)])
  inv 10 currency: forall i: int, j: int {ls(i,j)} :: 0 <= i < it(9)-1 && 0 <= j < old(len(l.Transactions[i].Splits)) ==> curOf(mapSplits[ls(i,j)].Value.Currency, old(l.Transactions[i].Splits[j].Value.Currency))
  inv 10 balance: forall i: int, j: int, k: int {old(l.Transactions[i].Splits[j].Balance[k])} :: 0 <= i < it(9)-1 && 0 <= j < old(len(l.Transactions[i].Splits)) && 0 <= k < old(len(l.Transactions[i].Splits[j].Balance)) ==> mapSplits[ls(i,j)].Balance[k].Amount == old(l.Transactions[i].Splits[j].Balance[k].Amount) && curOf(mapSplits[ls(i,j)].Balance[k].Currency, old(l.Transactions[i].Splits[j].Balance[k].Currency))
  inv 10 this-posting: forall j: int {ls(it(9)-1,j)} :: 0 <= j < it(10) ==> mapTransactions[lt(it(9)-1)].Splits[j] == mapSplits[ls(it(9)-1,j)]
  inv 10 this-posted: forall j: int {ls(it(9)-1,j)} :: 0 <= j < it(10) ==> spFields(ls(it(9)-1,j), mapSplits[ls(it(9)-1,j)])
  inv 10 this-time: forall j: int {ls(it(9)-1,j)} :: 0 <= j < it(10) ==> timeOf(ls(it(9)-1,j), mapSplits[ls(it(9)-1,j)])
  inv 10 this-currency: forall j: int {ls(it(9)-1,j)} :: 0 <= j < it(10) ==> curOf(mapSplits[ls(it(9)-1,j)].Value.Currency, old(l.Transactions[it(9)-1].Splits[j].Value.Currency))
  inv 10 this-balance: forall j: int, k: int {old(l.Transactions[it(9)-1].Splits[j].Balance[k])} :: 0 <= j < it(10) && 0 <= k < old(len(l.Transactions[it(9)-1].Splits[j].Balance)) ==> mapSplits[ls(it(9)-1,j)].Balance[k].Amount == old(l.Transactions[it(9)-1].Splits[j].Balance[k].Amount) && curOf(mapSplits[ls(it(9)-1,j)].Balance[k].Currency, old(l.Transactions[it(9)-1].Splits[j].Balance[k].Currency))
  inv 10 rows: forall a: int, o: int, k: int {atr(mem(*Split),a,o,k)} {entry(10, atr(mem(*Split),a,o,k))} :: a != arr(nt.Splits) ==> atr(mem(*Split),a,o,k) == entry(10, atr(mem(*Split),a,o,k))
  inv 11 others: forall a: int, o: int, k: int {atr(mem(Value),a,o,k)} {entry(11, atr(mem(Value),a,o,k))} :: a != arr(ns.Balance) ==> atr(mem(Value),a,o,k) == entry(11, atr(mem(Value),a,o,k))
  inv 11 done: forall k: int {old(l.Transactions[it(9)-1].Splits[it(10)-1].Balance[k])} :: 0 <= k < it(11) ==> ns.Balance[k].Amount == old(l.Transactions[it(9)-1].Splits[it(10)-1].Balance[k].Amount) && curOf(ns.Balance[k].Currency, old(l.Transactions[it(9)-1].Splits[it(10)-1].Balance[k].Currency))
  inv 13 list: forall i: int {lp(i)} :: 0 <= i < it(13) ==> res.Prices[i] == mapPrices[lp(i)]
  inv 13 fields: forall i: int {lp(i)} :: 0 <= i < it(13) ==> priceFields(lp(i), mapPrices[lp(i)])
  inv 13 currency: forall i: int {lp(i)} :: 0 <= i < it(13) ==> curOf(mapPrices[lp(i)].Currency, old(l.Prices[i].Currency)) && curOf(mapPrices[lp(i)].Value.Currency, old(l.Prices[i].Value.Currency))
  inv 14 Account-comments: forall x: *Account {mapAccounts[x]} :: x in mapAccounts ==> (mk(*Account, mapAccounts[x]) in res.Comments <==> visited(14, mk(*Account, x)))
  inv 14 Account-text: forall x: *Account {mapAccounts[x]} :: x in mapAccounts && visited(14, mk(*Account, x)) ==> len(res.Comments[mk(*Account, mapAccounts[x])]) == len(old(l.Comments[mk(*Account, x)])) && (len(old(l.Comments[mk(*Account, x)])) == 0 || fresh(res.Comments[mk(*Account, mapAccounts[x])]))
  inv 14 Account-lines: forall x: *Account, k: int {mapAccounts[x], res.Comments[mk(*Account, mapAccounts[x])][k]} {mapAccounts[x], old(l.Comments[mk(*Account, x)][k])} :: x in mapAccounts && visited(14, mk(*Account, x)) && 0 <= k < len(old(l.Comments[mk(*Account, x)])) ==> res.Comments[mk(*Account, mapAccounts[x])][k] == old(l.Comments[mk(*Account, x)][k])
  inv 14 Transaction-comments: forall x: *Transaction {mapTransactions[x]} :: x in mapTransactions ==> (mk(*Transaction, mapTransactions[x]) in res.Comments <==> visited(14, mk(*Transaction, x)))
  inv 14 Transaction-text: forall x: *Transaction {mapTransactions[x]} :: x in mapTransactions && visited(14, mk(*Transaction, x)) ==> len(res.Comments[mk(*Transaction, mapTransactions[x])]) == len(old(l.Comments[mk(*Transaction, x)])) && (len(old(l.Comments[mk(*Transaction, x)])) == 0 || fresh(res.Comments[mk(*Transaction, mapTransactions[x])]))
  inv 14 Transaction-lines: forall x: *Transaction, k: int {mapTransactions[x], res.Comments[mk(*Transaction, mapTransactions[x])][k]} {mapTransactions[x], old(l.Comments[mk(*Transaction, x)][k])} :: x in mapTransactions && visited(14, mk(*Transaction, x)) && 0 <= k < len(old(l.Comments[mk(*Transaction, x)])) ==> res.Comments[mk(*Transaction, mapTransactions[x])][k] == old(l.Comments[mk(*Transaction, x)][k])
  inv 14 Split-comments: forall x: *Split {mapSplits[x]} :: x in mapSplits ==> (mk(*Split, mapSplits[x]) in res.Comments <==> visited(14, mk(*Split, x)))
  inv 14 Split-text: forall x: *Split {mapSplits[x]} :: x in mapSplits && visited(14, mk(*Split, x)) ==> len(res.Comments[mk(*Split, mapSplits[x])]) == len(old(l.Comments[mk(*Split, x)])) && (len(old(l.Comments[mk(*Split, x)])) == 0 || fresh(res.Comments[mk(*Split, mapSplits[x])]))
  inv 14 Split-lines: forall x: *Split, k: int {mapSplits[x], res.Comments[mk(*Split, mapSplits[x])][k]} {mapSplits[x], old(l.Comments[mk(*Split, x)][k])} :: x in mapSplits && visited(14, mk(*Split, x)) && 0 <= k < len(old(l.Comments[mk(*Split, x)])) ==> res.Comments[mk(*Split, mapSplits[x])][k] == old(l.Comments[mk(*Split, x)][k])
  inv 14 Price-comments: forall x: *Price {mapPrices[x]} :: x in mapPrices ==> (mk(*Price, mapPrices[x]) in res.Comments <==> visited(14, mk(*Price, x)))
  inv 14 Price-text: forall x: *Price {mapPrices[x]} :: x in mapPrices && visited(14, mk(*Price, x)) ==> len(res.Comments[mk(*Price, mapPrices[x])]) == len(old(l.Comments[mk(*Price, x)])) && (len(old(l.Comments[mk(*Price, x)])) == 0 || fresh(res.Comments[mk(*Price, mapPrices[x])]))
  inv 14 Price-lines: forall x: *Price, k: int {mapPrices[x], res.Comments[mk(*Price, mapPrices[x])][k]} {mapPrices[x], old(l.Comments[mk(*Price, x)][k])} :: x in mapPrices && visited(14, mk(*Price, x)) && 0 <= k < len(old(l.Comments[mk(*Price, x)])) ==> res.Comments[mk(*Price, mapPrices[x])][k] == old(l.Comments[mk(*Price, x)][k])
  inv 14 Currency-comments: forall x: *Currency {mapCurrencies[x]} :: x in mapCurrencies ==> (mk(*Currency, mapCurrencies[x]) in res.Comments <==> visited(14, mk(*Currency, x)))
  inv 14 Currency-text: forall x: *Currency {mapCurrencies[x]} :: x in mapCurrencies && visited(14, mk(*Currency, x)) ==> len(res.Comments[mk(*Currency, mapCurrencies[x])]) == len(old(l.Comments[mk(*Currency, x)])) && (len(old(l.Comments[mk(*Currency, x)])) == 0 || fresh(res.Comments[mk(*Currency, mapCurrencies[x])]))
  inv 14 Currency-lines: forall x: *Currency, k: int {mapCurrencies[x], res.Comments[mk(*Currency, mapCurrencies[x])][k]} {mapCurrencies[x], old(l.Comments[mk(*Currency, x)][k])} :: x in mapCurrencies && visited(14, mk(*Currency, x)) && 0 <= k < len(old(l.Comments[mk(*Currency, x)])) ==> res.Comments[mk(*Currency, mapCurrencies[x])][k] == old(l.Comments[mk(*Currency, x)][k])
  inv 14 kept: forall a: int, o: int, k: int {atr(mem(string),a,o,k)} {entry(14, atr(mem(string),a,o,k))} :: a < entry(14, alloc) ==> atr(mem(string),a,o,k) == entry(14, atr(mem(string),a,o,k))
  inv 15 keys: forall x: *Split {mapSplits[x]} :: x in mapSplits ==> (mapSplits[x] in res.Assertions <==> visited(15, x))
  inv 15 values: forall x: *Split {mapSplits[x]} :: x in mapSplits && visited(15, x) ==> res.Assertions[mapSplits[x]].Amount == old(l.Assertions[x].Amount) && curOf(res.Assertions[mapSplits[x]].Currency, old(l.Assertions[x].Currency))
  inv 16 keys: forall x: *Split {mapSplits[x]} :: x in mapSplits ==> (mapSplits[x] in res.SplitPrices <==> visited(16, x))
  inv 16 values: forall x: *Split {mapSplits[x]} :: x in mapSplits && visited(16, x) ==> res.SplitPrices[mapSplits[x]].Amount == old(l.SplitPrices[x].Amount) && curOf(res.SplitPrices[mapSplits[x]].Currency, old(l.SplitPrices[x].Currency))
  inv 16 a: forall x: *Split {mapSplits[x]} :: x in mapSplits ==> (mapSplits[x] in res.Assertions <==> old(x in l.Assertions)) && (old(x in l.Assertions) ==> res.Assertions[mapSplits[x]].Amount == old(l.Assertions[x].Amount) && curOf(res.Assertions[mapSplits[x]].Currency, old(l.Assertions[x].Currency)))
  witness Account-new: forall x: *Account {mapAccounts[x]} :: x in mapAccounts ==> x != nil && x < old(alloc) && fresh(mapAccounts[x])
  witness Account-apart: forall x: *Account, y: *Account {mapAccounts[x], mapAccounts[y]} :: x in mapAccounts && y in mapAccounts && mapAccounts[x] == mapAccounts[y] ==> x == y
  witness Transaction-new: forall x: *Transaction {mapTransactions[x]} :: x in mapTransactions ==> x != nil && x < old(alloc) && fresh(mapTransactions[x])
  witness Transaction-apart: forall x: *Transaction, y: *Transaction {mapTransactions[x], mapTransactions[y]} :: x in mapTransactions && y in mapTransactions && mapTransactions[x] == mapTransactions[y] ==> x == y
  witness Split-new: forall x: *Split {mapSplits[x]} :: x in mapSplits ==> x != nil && x < old(alloc) && fresh(mapSplits[x])
  witness Split-apart: forall x: *Split, y: *Split {mapSplits[x], mapSplits[y]} :: x in mapSplits && y in mapSplits && mapSplits[x] == mapSplits[y] ==> x == y
  witness Price-new: forall x: *Price {mapPrices[x]} :: x in mapPrices ==> x != nil && x < old(alloc) && fresh(mapPrices[x])
  witness Price-apart: forall x: *Price, y: *Price {mapPrices[x], mapPrices[y]} :: x in mapPrices && y in mapPrices && mapPrices[x] == mapPrices[y] ==> x == y
  witness Currency-new: forall x: *Currency {mapCurrencies[x]} :: x in mapCurrencies ==> x != nil && x < old(alloc) && fresh(mapCurrencies[x])
  witness Currency-apart: forall x: *Currency, y: *Currency {mapCurrencies[x], mapCurrencies[y]} :: x in mapCurrencies && y in mapCurrencies && mapCurrencies[x] == mapCurrencies[y] ==> x == y
  witness accounts: len(result.Accounts) == old(len(l.Accounts)) && fresh(result.Accounts) && forall i: int {la(i)} :: 0 <= i < old(len(l.Accounts)) ==> la(i) in mapAccounts && result.Accounts[i] == mapAccounts[la(i)]
  witness transactions: len(result.Transactions) == old(len(l.Transactions)) && fresh(result.Transactions) && forall i: int {lt(i)} :: 0 <= i < old(len(l.Transactions)) ==> lt(i) in mapTransactions && result.Transactions[i] == mapTransactions[lt(i)]
  witness currencies: len(result.Currencies) == old(len(l.Currencies)) && fresh(result.Currencies) && forall i: int {old(l.Currencies[i])} :: 0 <= i < old(len(l.Currencies)) ==> old(l.Currencies[i]) in mapCurrencies && result.Currencies[i] == mapCurrencies[old(l.Currencies[i])]
  witness prices: len(result.Prices) == old(len(l.Prices)) && fresh(result.Prices) && forall i: int {lp(i)} :: 0 <= i < old(len(l.Prices)) ==> lp(i) in mapPrices && result.Prices[i] == mapPrices[lp(i)]
  witness postings: forall i: int, j: int {ls(i,j)} :: 0 <= i < old(len(l.Transactions)) && 0 <= j < old(len(l.Transactions[i].Splits)) ==> ls(i,j) in mapSplits && mapTransactions[lt(i)].Splits[j] == mapSplits[ls(i,j)]
  witness currency-contents: forall c: *Currency {mapCurrencies[c]} :: c in mapCurrencies ==> sameCur(c, mapCurrencies[c])
  witness account: forall i: int {la(i)} :: 0 <= i < old(len(l.Accounts)) ==> accFields(la(i), mapAccounts[la(i)]) && accLists(la(i), mapAccounts[la(i)])
  witness children: forall i: int, k: int {old(l.Accounts[i].Children[k])} :: 0 <= i < old(len(l.Accounts)) && 0 <= k < old(len(l.Accounts[i].Children)) ==> mapAccounts[la(i)].Children[k] == mapAccounts[old(l.Accounts[i].Children[k])]
  witness account-postings: forall i: int, k: int {old(l.Accounts[i].Splits[k])} :: 0 <= i < old(len(l.Accounts)) && 0 <= k < old(len(l.Accounts[i].Splits)) ==> mapAccounts[la(i)].Splits[k] == mapSplits[old(l.Accounts[i].Splits[k])]
  witness start: forall i: int, k: int {old(l.Accounts[i].StartBalance[k])} :: 0 <= i < old(len(l.Accounts)) && 0 <= k < old(len(l.Accounts[i].StartBalance)) ==> mapAccounts[la(i)].StartBalance[k].Amount == old(l.Accounts[i].StartBalance[k].Amount) && curOf(mapAccounts[la(i)].StartBalance[k].Currency, old(l.Accounts[i].StartBalance[k].Currency))
  witness transaction: forall i: int {lt(i)} :: 0 <= i < old(len(l.Transactions)) ==> txFields(lt(i), mapTransactions[lt(i)])
  witness posted: forall i: int, j: int {ls(i,j)} :: 0 <= i < old(len(l.Transactions)) && 0 <= j < old(len(l.Transactions[i].Splits)) ==> spFields(ls(i,j), mapSplits[ls(i,j)])
  witness time: forall i: int, j: int {ls(i,j)} :: 0 <= i < old(len(l.Transactions)) && 0 <= j < old(len(l.Transactions[i].Splits)) ==> timeOf(ls(i,j), mapSplits[ls(i,j)])
  witness currency: forall i: int, j: int {ls(i,j)} :: 0 <= i < old(len(l.Transactions)) && 0 <= j < old(len(l.Transactions[i].Splits)) ==> curOf(mapSplits[ls(i,j)].Value.Currency, old(l.Transactions[i].Splits[j].Value.Currency))
  witness balance: forall i: int, j: int, k: int {old(l.Transactions[i].Splits[j].Balance[k])} :: 0 <= i < old(len(l.Transactions)) && 0 <= j < old(len(l.Transactions[i].Splits)) && 0 <= k < old(len(l.Transactions[i].Splits[j].Balance)) ==> mapSplits[ls(i,j)].Balance[k].Amount == old(l.Transactions[i].Splits[j].Balance[k].Amount) && curOf(mapSplits[ls(i,j)].Balance[k].Currency, old(l.Transactions[i].Splits[j].Balance[k].Currency))
  witness price: forall i: int {lp(i)} :: 0 <= i < old(len(l.Prices)) ==> priceFields(lp(i), mapPrices[lp(i)]) && curOf(mapPrices[lp(i)].Currency, old(l.Prices[i].Currency)) && curOf(mapPrices[lp(i)].Value.Currency, old(l.Prices[i].Value.Currency))
  witness Account-comments: forall x: *Account {mapAccounts[x]} :: x in mapAccounts ==> (mk(*Account, mapAccounts[x]) in result.Comments <==> old(mk(*Account, x) in l.Comments))
  witness Account-text: forall x: *Account {mapAccounts[x]} :: x in mapAccounts && old(mk(*Account, x) in l.Comments) ==> len(result.Comments[mk(*Account, mapAccounts[x])]) == len(old(l.Comments[mk(*Account, x)])) && (len(old(l.Comments[mk(*Account, x)])) == 0 || fresh(result.Comments[mk(*Account, mapAccounts[x])]))
  witness Account-lines: forall x: *Account, k: int {mapAccounts[x], result.Comments[mk(*Account, mapAccounts[x])][k]} :: x in mapAccounts && old(mk(*Account, x) in l.Comments) && 0 <= k < len(old(l.Comments[mk(*Account, x)])) ==> result.Comments[mk(*Account, mapAccounts[x])][k] == old(l.Comments[mk(*Account, x)][k])
  witness Transaction-comments: forall x: *Transaction {mapTransactions[x]} :: x in mapTransactions ==> (mk(*Transaction, mapTransactions[x]) in result.Comments <==> old(mk(*Transaction, x) in l.Comments))
  witness Transaction-text: forall x: *Transaction {mapTransactions[x]} :: x in mapTransactions && old(mk(*Transaction, x) in l.Comments) ==> len(result.Comments[mk(*Transaction, mapTransactions[x])]) == len(old(l.Comments[mk(*Transaction, x)])) && (len(old(l.Comments[mk(*Transaction, x)])) == 0 || fresh(result.Comments[mk(*Transaction, mapTransactions[x])]))
  witness Transaction-lines: forall x: *Transaction, k: int {mapTransactions[x], result.Comments[mk(*Transaction, mapTransactions[x])][k]} :: x in mapTransactions && old(mk(*Transaction, x) in l.Comments) && 0 <= k < len(old(l.Comments[mk(*Transaction, x)])) ==> result.Comments[mk(*Transaction, mapTransactions[x])][k] == old(l.Comments[mk(*Transaction, x)][k])
  witness Split-comments: forall x: *Split {mapSplits[x]} :: x in mapSplits ==> (mk(*Split, mapSplits[x]) in result.Comments <==> old(mk(*Split, x) in l.Comments))
  witness Split-text: forall x: *Split {mapSplits[x]} :: x in mapSplits && old(mk(*Split, x) in l.Comments) ==> len(result.Comments[mk(*Split, mapSplits[x])]) == len(old(l.Comments[mk(*Split, x)])) && (len(old(l.Comments[mk(*Split, x)])) == 0 || fresh(result.Comments[mk(*Split, mapSplits[x])]))
  witness Split-lines: forall x: *Split, k: int {mapSplits[x], result.Comments[mk(*Split, mapSplits[x])][k]} :: x in mapSplits && old(mk(*Split, x) in l.Comments) && 0 <= k < len(old(l.Comments[mk(*Split, x)])) ==> result.Comments[mk(*Split, mapSplits[x])][k] == old(l.Comments[mk(*Split, x)][k])
  witness Price-comments: forall x: *Price {mapPrices[x]} :: x in mapPrices ==> (mk(*Price, mapPrices[x]) in result.Comments <==> old(mk(*Price, x) in l.Comments))
  witness Price-text: forall x: *Price {mapPrices[x]} :: x in mapPrices && old(mk(*Price, x) in l.Comments) ==> len(result.Comments[mk(*Price, mapPrices[x])]) == len(old(l.Comments[mk(*Price, x)])) && (len(old(l.Comments[mk(*Price, x)])) == 0 || fresh(result.Comments[mk(*Price, mapPrices[x])]))
  witness Price-lines: forall x: *Price, k: int {mapPrices[x], result.Comments[mk(*Price, mapPrices[x])][k]} :: x in mapPrices && old(mk(*Price, x) in l.Comments) && 0 <= k < len(old(l.Comments[mk(*Price, x)])) ==> result.Comments[mk(*Price, mapPrices[x])][k] == old(l.Comments[mk(*Price, x)][k])
  witness Currency-comments: forall x: *Currency {mapCurrencies[x]} :: KC(x) ==> (mk(*Currency, mapCurrencies[x]) in result.Comments <==> old(mk(*Currency, x) in l.Comments))
  witness Currency-text: forall x: *Currency {mapCurrencies[x]} :: KC(x) && old(mk(*Currency, x) in l.Comments) ==> len(result.Comments[mk(*Currency, mapCurrencies[x])]) == len(old(l.Comments[mk(*Currency, x)])) && (len(old(l.Comments[mk(*Currency, x)])) == 0 || fresh(result.Comments[mk(*Currency, mapCurrencies[x])]))
  witness Currency-lines: forall x: *Currency, k: int {mapCurrencies[x], result.Comments[mk(*Currency, mapCurrencies[x])][k]} :: KC(x) && old(mk(*Currency, x) in l.Comments) && 0 <= k < len(old(l.Comments[mk(*Currency, x)])) ==> result.Comments[mk(*Currency, mapCurrencies[x])][k] == old(l.Comments[mk(*Currency, x)][k])
  witness Assertions: forall x: *Split {mapSplits[x]} :: x in mapSplits ==> (mapSplits[x] in result.Assertions <==> old(x in l.Assertions)) && (old(x in l.Assertions) ==> result.Assertions[mapSplits[x]].Amount == old(l.Assertions[x].Amount) && curOf(result.Assertions[mapSplits[x]].Currency, old(l.Assertions[x].Currency)))
  witness SplitPrices: forall x: *Split {mapSplits[x]} :: x in mapSplits ==> (mapSplits[x] in result.SplitPrices <==> old(x in l.SplitPrices)) && (old(x in l.SplitPrices) ==> result.SplitPrices[mapSplits[x]].Amount == old(l.SplitPrices[x].Amount) && curOf(result.SplitPrices[mapSplits[x]].Currency, old(l.SplitPrices[x].Currency)))
  witness maps: fresh(result.Comments) && fresh(result.Assertions) && fresh(result.SplitPrices)
  witness default: curOf(result.DefaultCurrency, old(l.DefaultCurrency))
  witness transfer: result.transferAccount == mapAccounts[old(l.transferAccount)] && result.connection == old(l.connection)
  ensures new: fresh(result) && result != nil
