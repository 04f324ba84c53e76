package github.com/cespedes/accounting

// ---- text databases (P21)

func SortAccounts
  props P21
  requires base: 0 < BASE()
  requires older: older()
  requires accounts: forall k: int {accounts[k]} :: 0 <= k < len(accounts) ==> BASE() <= accounts[k] && allocated(accounts[k])
  modifies mem(*Account)
  hint return: assert forall k: int {old(accounts[k])} :: 0 <= k < len(accounts) ==> 0 <= permat(0, k) && permat(0, k) < len(accounts) && accounts[permat(0, k)] == old(accounts[k])
  hint return: assert forall j: int {accounts[j]} :: 0 <= j < len(accounts) ==> 0 <= perm(0, j) && perm(0, j) < len(accounts) && old(accounts[perm(0, j)]) == accounts[j]
  ensures list: result == accounts
  ensures all: forall k: int {old(accounts[k])} :: 0 <= k < len(accounts) && 0 < old(accounts[k]) ==> exists j: int {accounts[j]} :: 0 <= j < len(accounts) && accounts[j] == old(accounts[k])
  ensures only: forall j: int {accounts[j]} :: 0 <= j < len(accounts) && 0 <= accounts[j] ==> exists k: int {old(accounts[k])} :: 0 <= k < len(accounts) && accounts[j] == old(accounts[k])
  ensures others: forall a: int, o: int, i: int {atr(mem(*Account), a, o, i)} :: a != arr(accounts) ==> atr(mem(*Account), a, o, i) == old(atr(mem(*Account), a, o, i))
  ensures once: (forall i: int, j: int {old(accounts[i]), old(accounts[j])} :: 0 <= i && i < j && j < len(accounts) ==> old(accounts[i]) != old(accounts[j])) ==> (forall i: int, j: int {accounts[i], accounts[j]} :: 0 <= i && i < j && j < len(accounts) ==> accounts[i] != accounts[j])

package github.com/cespedes/accounting/backend/txtdb

def accLine(x) := fields(x, ":") == 6 && atoiok(field(x, ":", 0))
def isAcc(o, x) := o.ID == mk(ID, atoi(field(x, ":", 0))) && o.Name == field(x, ":", 3) && o.Code == field(x, ":", 4) && ite(atoiok(field(x, ":", 5)), o.Parent == nil || o.Parent.ID == mk(ID, atoi(field(x, ":", 5))), o.Parent == nil)
// lines of accounts in the first k lines
fun ACCN(sc: *int, k: int): int
axiom ACCN := forall sc: *int, k: int {ACCN(sc,k)} :: k <= 0 ==> ACCN(sc,k) == 0
axiom ACCN step := forall sc: *int, k: int {ACCN(sc,k), scanline(sc,k)} :: k >= 1 ==> ACCN(sc,k) == ACCN(sc,k-1) + ite(accLine(scanline(sc,k)), 1, 0)
def accountsRead(c, o) := scanname(o) == pathjoin(c.dir, "accounts") && scanend(o, scanned(o)) && scanerr(o) == nil && len(c.ledger.Accounts) == ACCN(o, scanned(o))
  && (forall i: int, j: int {c.ledger.Accounts[i], c.ledger.Accounts[j]} :: 0 <= i && i < j && j < len(c.ledger.Accounts) ==> c.ledger.Accounts[i] != c.ledger.Accounts[j])
  && (forall k: int {scanline(o,k)} :: 1 <= k && k <= scanned(o) && accLine(scanline(o,k)) ==> exists j: int {c.ledger.Accounts[j]} :: 0 <= j < len(c.ledger.Accounts) && isAcc(c.ledger.Accounts[j], scanline(o,k)))
  && (forall j: int {c.ledger.Accounts[j]} :: 0 <= j < len(c.ledger.Accounts) && 0 <= c.ledger.Accounts[j] ==> exists k: int {scanline(o,k)} :: 1 <= k && k <= scanned(o) && accLine(scanline(o,k)) && isAcc(c.ledger.Accounts[j], scanline(o,k)))
def mapOK(c) := forall n: int {c.accountMap[n]} :: n in c.accountMap ==> BASE() <= c.accountMap[n] && allocated(c.accountMap[n]) && c.accountMap[n].ID == mk(ID, n)
def accsOK(c) := forall k: int {c.ledger.Accounts[k]} :: 0 <= k < len(c.ledger.Accounts) ==> BASE() <= c.ledger.Accounts[k] && allocated(c.ledger.Accounts[k])
// the lines of the file of transactions
def dbLine(x) := fields(x, ":") == 7
def dbPost(x) := dbLine(x) && !(field(x, ":", 5) == "" && field(x, ":", 6) == "")
def dbDateOK(t) := parseok("2006-01-02 15.04", trim(t)) || parseok("2006-01-02", trim(t))
def dbDate(t) := ite(parseok("2006-01-02 15.04", trim(t)), parsed("2006-01-02 15.04", trim(t)), parsed("2006-01-02", trim(t)))
def dbAmount(t) := ite(t[0] == 43, 1, 0-1) * hundredths(t[1:len(t)]) * 1000000
def dbBalance(t) := ite(t[0] == 43, hundredths(t[1:len(t)]), ite(t[0] == 45, 0-hundredths(t[1:len(t)]), hundredths(t[0:len(t)]))) * 1000000
def quiet1() := warnings() == start(1, warnings())
def since() := warnings() == old(warnings())

func (*conn).read
  props P21
  option logs
  option zeroed
  requires conn: c > 0 && c.ledger > 0 && c.accountMap != nil && c.ledger.Assertions != nil
  requires empty: len(c.ledger.Accounts) == 0 && len(c.ledger.Transactions) == 0
  requires no-accounts: forall n: int {n in c.accountMap} :: !(n in c.accountMap)
  requires no-assertions: forall s: *Split {s in c.ledger.Assertions} :: !(s in c.ledger.Assertions)
  requires base: 0 < BASE() && BASE() <= alloc
  requires older: older()
  modifies Ledger.Accounts, Ledger.Transactions, mem(*Account), mem(*Transaction), mem(*Split), fresh mem(string), mapdom(map[int]*Account), mapval(map[int]*Account), mapdom(map[*Split]Value), mapval(map[*Split]Value)
    , Account.ID, Account.Parent, Account.Children, Account.Level, Account.Name, Account.Code, Account.Splits, Account.StartBalance
    , scanners, warnings, time, Split.Time, Transaction.ID, Transaction.Description, Transaction.Splits, Split.ID, Split.Account, Split.Transaction, Split.Value, Split.Balance
  nonterm 0
  nonterm 1
  ensures missing: openerr(pathjoin(c.dir, "accounts")) != nil ==> result != nil
  ensures unreadable: result == nil ==> openerr(pathjoin(c.dir, "transactions")) == nil || notexist(openerr(pathjoin(c.dir, "transactions")))
  ensures none: result == nil && openerr(pathjoin(c.dir, "transactions")) != nil ==> len(c.ledger.Transactions) == 0
  ensures accounts: result == nil ==> exists o: *int {scanname(o)} :: accountsRead(c, o)
  witness transactions: result == nil && openerr(pathjoin(c.dir, "transactions")) == nil ==> scanname(sc) == pathjoin(c.dir, "transactions") && scanend(sc, scanned(sc)) && scanerr(sc) == nil
  witness whole: result == nil && openerr(pathjoin(c.dir, "transactions")) == nil && since() ==> balance == 0 && (tr == nil || len(tr.Splits) == 0)
  inv 0 scanner: sc > 0 && scanname(sc) == pathjoin(c.dir, "accounts") && scanned(sc) >= 0
  inv 0 older: older()
  inv 0 map: mapOK(c)
  inv 0 no-splits: forall n: int {c.accountMap[n]} :: n in c.accountMap ==> arr(c.accountMap[n].Splits) == 0
  inv 0 list: accsOK(c)
  inv 0 distinct: forall i: int, j: int {c.ledger.Accounts[i], c.ledger.Accounts[j]} :: 0 <= i && i < j && j < len(c.ledger.Accounts) ==> c.ledger.Accounts[i] < c.ledger.Accounts[j]
  inv 0 count: len(c.ledger.Accounts) == ACCN(sc, scanned(sc))
  inv 0 from: forall j: int {c.ledger.Accounts[j]} :: 0 <= j < len(c.ledger.Accounts) && 0 <= c.ledger.Accounts[j] ==> exists k: int {scanline(sc,k)} :: 1 <= k && k <= scanned(sc) && accLine(scanline(sc,k)) && isAcc(c.ledger.Accounts[j], scanline(sc,k))
  inv 0 accounts: forall k: int {scanline(sc,k)} :: 1 <= k && k <= scanned(sc) && accLine(scanline(sc,k)) ==> exists j: int {c.ledger.Accounts[j]} :: 0 <= j < len(c.ledger.Accounts) && isAcc(c.ledger.Accounts[j], scanline(sc,k))
  hint loop 0 back: claim forall n: int {n in c.accountMap} {c.accountMap[n]} :: accLine(scanline(sc, scanned(sc))) && atoiok(field(scanline(sc, scanned(sc)), ":", 5)) && n == atoi(field(scanline(sc, scanned(sc)), ":", 5)) && start(0, n in c.accountMap) ==> c.ledger.Accounts[len(c.ledger.Accounts)-1].Parent == start(0, c.accountMap[n])
  hint loop 0 back: claim accLine(scanline(sc, scanned(sc))) ==> atoi(field(scanline(sc, scanned(sc)), ":", 0)) in c.accountMap && c.accountMap[atoi(field(scanline(sc, scanned(sc)), ":", 0))] == c.ledger.Accounts[len(c.ledger.Accounts)-1]
  hint loop 0 back: claim forall n: int {n in c.accountMap} {c.accountMap[n]} :: !accLine(scanline(sc, scanned(sc))) || n != atoi(field(scanline(sc, scanned(sc)), ":", 0)) ==> (n in c.accountMap <==> start(0, n in c.accountMap)) && c.accountMap[n] == start(0, c.accountMap[n])
  inv 1 scanner: sc > 0 && scanname(sc) == pathjoin(c.dir, "transactions") && openerr(pathjoin(c.dir, "transactions")) == nil
  inv 1 accounts: exists o: *int {scanname(o)} :: o < sc && accountsRead(c, o)
  inv 1 map: mapOK(c)
  inv 1 warned: warnings() >= old(warnings())
  inv 1 transaction: tr == nil || (tr > 0 && allocated(tr))
  inv 1 apart: forall k: int {c.ledger.Transactions[k]} :: 0 <= k < len(c.ledger.Transactions) ==> c.ledger.Transactions[k] > 0 && allocated(c.ledger.Transactions[k]) && c.ledger.Transactions[k] != tr
  inv 1 own: tr != nil && arr(tr.Splits) != 0 ==> forall k: int {c.ledger.Transactions[k]} :: 0 <= k < len(c.ledger.Transactions) ==> arr(c.ledger.Transactions[k].Splits) != arr(tr.Splits)
  inv 1 asserted: forall s: *Split {s in c.ledger.Assertions} :: s in c.ledger.Assertions ==> allocated(s)
  inv 1 theirs: tr != nil && arr(tr.Splits) != 0 ==> forall n: int {c.accountMap[n]} :: n in c.accountMap ==> arr(c.accountMap[n].Splits) != arr(tr.Splits)
  inv 1 theirs: forall n: int, k: int {c.accountMap[n], c.ledger.Transactions[k]} :: n in c.accountMap && arr(c.accountMap[n].Splits) != 0 && 0 <= k < len(c.ledger.Transactions) ==> arr(c.ledger.Transactions[k].Splits) != arr(c.accountMap[n].Splits)
  inv 1 none: tr == nil ==> balance == 0
  inv 1 zero: since() && tr != nil && balance == 0 ==> len(tr.Splits) == 0
  inv 1 started: since() && tr != nil ==> (tr.ID != nil <==> len(tr.Splits) > 0)
  hint loop 1 back: claim quiet1() && dbLine(scanline(sc, scanned(sc))) ==> dbDateOK(field(scanline(sc, scanned(sc)), ":", 1)) && atoiok(field(scanline(sc, scanned(sc)), ":", 4)) && atoi(field(scanline(sc, scanned(sc)), ":", 4)) in c.accountMap
  hint loop 1 back: claim quiet1() && !dbPost(scanline(sc, scanned(sc))) ==> len(c.ledger.Transactions) == start(1, len(c.ledger.Transactions)) && balance == start(1, balance)
  hint loop 1 back: claim quiet1() && !dbLine(scanline(sc, scanned(sc))) && start(1, tr) != nil ==> tr == start(1, tr) && len(tr.Splits) == start(1, len(tr.Splits))
  hint loop 1 back: claim quiet1() && dbLine(scanline(sc, scanned(sc))) && !dbPost(scanline(sc, scanned(sc))) ==> balance == 0 && tr == nil
  hint loop 1 back: claim quiet1() && dbPost(scanline(sc, scanned(sc))) ==> ite(balance == 0, c.ledger.Transactions[len(c.ledger.Transactions)-1], tr) > 0 && ite(start(1, tr) == nil, ite(balance == 0, c.ledger.Transactions[len(c.ledger.Transactions)-1], tr) >= start(1, alloc), ite(balance == 0, c.ledger.Transactions[len(c.ledger.Transactions)-1], tr) == start(1, tr))
  hint loop 1 back: claim quiet1() && dbPost(scanline(sc, scanned(sc))) ==> len(ite(balance == 0, c.ledger.Transactions[len(c.ledger.Transactions)-1], tr).Splits) == ite(start(1, tr) == nil, 0, start(1, len(tr.Splits))) + 1
  hint loop 1 back: claim forall o: *Transaction, k: int {o.Splits[k]} :: o == start(1, tr) && o != nil && 0 <= k < start(1, len(o.Splits)) ==> o.Splits[k] == start(1, o.Splits[k])
  hint loop 1 back: claim quiet1() && since() && dbPost(scanline(sc, scanned(sc))) ==> ite(start(1, tr) == nil || start(1, len(tr.Splits)) == 0, ite(balance == 0, c.ledger.Transactions[len(c.ledger.Transactions)-1], tr).Time == dbDate(field(scanline(sc, scanned(sc)), ":", 1)) && ite(balance == 0, c.ledger.Transactions[len(c.ledger.Transactions)-1], tr).Description == field(scanline(sc, scanned(sc)), ":", 2), ite(balance == 0, c.ledger.Transactions[len(c.ledger.Transactions)-1], tr).Time == start(1, tr.Time) && ite(balance == 0, c.ledger.Transactions[len(c.ledger.Transactions)-1], tr).Description == start(1, tr.Description))
  hint loop 1 back: claim quiet1() && dbPost(scanline(sc, scanned(sc))) ==> balance == start(1, balance) + ite(balance == 0, c.ledger.Transactions[len(c.ledger.Transactions)-1], tr).Splits[len(ite(balance == 0, c.ledger.Transactions[len(c.ledger.Transactions)-1], tr).Splits)-1].Value.Amount
  hint loop 1 back: claim quiet1() && dbPost(scanline(sc, scanned(sc))) ==> len(c.ledger.Transactions) == start(1, len(c.ledger.Transactions)) + ite(balance == 0, 1, 0) && (balance == 0 ==> tr == nil)
  hint loop 1 back: claim quiet1() && dbPost(scanline(sc, scanned(sc))) ==> ite(balance == 0, c.ledger.Transactions[len(c.ledger.Transactions)-1], tr).Splits[len(ite(balance == 0, c.ledger.Transactions[len(c.ledger.Transactions)-1], tr).Splits)-1] >= start(1, alloc) && ite(balance == 0, c.ledger.Transactions[len(c.ledger.Transactions)-1], tr).Splits[len(ite(balance == 0, c.ledger.Transactions[len(c.ledger.Transactions)-1], tr).Splits)-1].Account == c.accountMap[atoi(field(scanline(sc, scanned(sc)), ":", 4))]
  hint loop 1 back: claim quiet1() && dbPost(scanline(sc, scanned(sc))) ==> field(scanline(sc, scanned(sc)), ":", 5) != "" ==> ite(balance == 0, c.ledger.Transactions[len(c.ledger.Transactions)-1], tr).Splits[len(ite(balance == 0, c.ledger.Transactions[len(c.ledger.Transactions)-1], tr).Splits)-1].Value.Amount == dbAmount(field(scanline(sc, scanned(sc)), ":", 5)) && ite(balance == 0, c.ledger.Transactions[len(c.ledger.Transactions)-1], tr).Splits[len(ite(balance == 0, c.ledger.Transactions[len(c.ledger.Transactions)-1], tr).Splits)-1].Value.Currency == insideof(c, Currency) && !(ite(balance == 0, c.ledger.Transactions[len(c.ledger.Transactions)-1], tr).Splits[len(ite(balance == 0, c.ledger.Transactions[len(c.ledger.Transactions)-1], tr).Splits)-1] in c.ledger.Assertions)
  hint loop 1 back: claim quiet1() && dbPost(scanline(sc, scanned(sc))) ==> field(scanline(sc, scanned(sc)), ":", 5) == "" ==> ite(balance == 0, c.ledger.Transactions[len(c.ledger.Transactions)-1], tr).Splits[len(ite(balance == 0, c.ledger.Transactions[len(c.ledger.Transactions)-1], tr).Splits)-1].Value.Amount == 0 && ite(balance == 0, c.ledger.Transactions[len(c.ledger.Transactions)-1], tr).Splits[len(ite(balance == 0, c.ledger.Transactions[len(c.ledger.Transactions)-1], tr).Splits)-1] in c.ledger.Assertions && vals(c.ledger.Assertions)[ite(balance == 0, c.ledger.Transactions[len(c.ledger.Transactions)-1], tr).Splits[len(ite(balance == 0, c.ledger.Transactions[len(c.ledger.Transactions)-1], tr).Splits)-1]].Amount == dbBalance(field(scanline(sc, scanned(sc)), ":", 6)) && vals(c.ledger.Assertions)[ite(balance == 0, c.ledger.Transactions[len(c.ledger.Transactions)-1], tr).Splits[len(ite(balance == 0, c.ledger.Transactions[len(c.ledger.Transactions)-1], tr).Splits)-1]].Currency == insideof(c, Currency)
  hint loop 1 back: claim quiet1() && dbPost(scanline(sc, scanned(sc))) ==> ite(ite(balance == 0, c.ledger.Transactions[len(c.ledger.Transactions)-1], tr).Splits[len(ite(balance == 0, c.ledger.Transactions[len(c.ledger.Transactions)-1], tr).Splits)-1].Time == nil, ite(balance == 0, c.ledger.Transactions[len(c.ledger.Transactions)-1], tr).Time == dbDate(field(scanline(sc, scanned(sc)), ":", 1)), deref(ite(balance == 0, c.ledger.Transactions[len(c.ledger.Transactions)-1], tr).Splits[len(ite(balance == 0, c.ledger.Transactions[len(c.ledger.Transactions)-1], tr).Splits)-1].Time) == dbDate(field(scanline(sc, scanned(sc)), ":", 1)))
  hint loop 1 back: claim len(c.ledger.Transactions) >= start(1, len(c.ledger.Transactions)) && forall k: int {c.ledger.Transactions[k]} :: 0 <= k < start(1, len(c.ledger.Transactions)) ==> c.ledger.Transactions[k] == start(1, c.ledger.Transactions[k])
  hint loop 1 back: claim forall o: *Transaction {o.Time} :: 0 < o && o < start(1, alloc) && (o != start(1, tr) || start(1, len(tr.Splits)) > 0) && quiet1() && since() ==> o.Time == start(1, o.Time)
  hint loop 1 back: claim forall o: *Transaction {o.Description} :: 0 < o && o < start(1, alloc) && (o != start(1, tr) || start(1, len(tr.Splits)) > 0) && quiet1() && since() ==> o.Description == start(1, o.Description)
  hint loop 1 back: claim forall o: *Transaction {o.Splits} :: 0 < o && o < start(1, alloc) && o != start(1, tr) ==> o.Splits == start(1, o.Splits)
  hint loop 1 back: claim forall i: int, j: int {c.ledger.Transactions[i].Splits[j]} :: 0 <= i < start(1, len(c.ledger.Transactions)) && 0 <= j < start(1, len(c.ledger.Transactions[i].Splits)) ==> c.ledger.Transactions[i].Splits[j] == start(1, c.ledger.Transactions[i].Splits[j])
  hint loop 1 back: claim forall s: *Split {s in c.ledger.Assertions} {vals(c.ledger.Assertions)[s]} :: 0 < s && s < start(1, alloc) ==> (s in c.ledger.Assertions <==> start(1, s in c.ledger.Assertions)) && vals(c.ledger.Assertions)[s] == start(1, vals(c.ledger.Assertions)[s])
  hint loop 1 back: claim forall o: *Split {o.Account} :: 0 < o && o < start(1, alloc) ==> o.Account == start(1, o.Account)
  hint loop 1 back: claim forall o: *Split {o.Value} :: 0 < o && o < start(1, alloc) ==> o.Value == start(1, o.Value)
  hint loop 1 back: claim forall o: *Split {o.Time} :: 0 < o && o < start(1, alloc) ==> o.Time == start(1, o.Time)

func (driver).Open
  props P21
  option logs
  option zeroed
  requires backend: backend > 0 && backend.Ledger > 0
  requires empty: len(backend.Ledger.Accounts) == 0 && len(backend.Ledger.Transactions) == 0
  requires base: 0 < BASE() && BASE() == alloc
  modifies Ledger.Accounts, Ledger.Transactions, Ledger.Comments, Ledger.Assertions, Ledger.SplitPrices, mem(*Account), mem(*Transaction), mem(*Split), mem(string), mapdom(map[int]*Account), mapval(map[int]*Account), mapdom(map[*Split]Value), mapval(map[*Split]Value)
    , Account.ID, Account.Parent, Account.Children, Account.Level, Account.Name, Account.Code, Account.Splits, Account.StartBalance, Currency.Precision, Currency.Name, Currency.ID, Currency.ISIN, Currency.Decimal, Currency.Thousand, Currency.PrintBefore, Currency.WithoutSpace
    , scanners, warnings, time, Split.Time, Transaction.ID, Transaction.Description, Transaction.Splits, Split.ID, Split.Account, Split.Transaction, Split.Value, Split.Balance, conn.dir, conn.backend, conn.ledger, conn.accountMap, conn.currency
    , mapdom(map[any][]string), mapval(map[any][]string)
  witness precision: result1 == nil ==> insideof(conn, Currency).Precision == 2
  witness ledger: result1 == nil ==> conn.ledger == backend.Ledger && conn.dir == urlpath(name)
  ensures missing: urlok(name) && openerr(pathjoin(urlpath(name), "accounts")) != nil ==> result1 != nil
  ensures address: !urlok(name) ==> result1 != nil
