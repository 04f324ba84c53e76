package github.com/cespedes/accounting

// ---- queries by date and account (P14)

def splitInst(s) := inst(deref(s.Time))
def written(a) := forall i: int {a.Splits[i]} :: 0 <= i < len(a.Splits) ==> a.Splits[i] > 0 && a.Splits[i].Time != nil
def chronological(a) := forall i: int, j: int {a.Splits[i], a.Splits[j]} :: 0 <= i < j && j < len(a.Splits) ==> splitInst(a.Splits[i]) <= splitInst(a.Splits[j])

func (*Ledger).GetBalance
  props P14
  requires account: account > 0
  requires posted: written(account)
  requires sorted: chronological(account)
  ensures now: when == zeroTime && len(account.Splits) > 0 ==> result == account.Splits[len(account.Splits)-1].Balance
  ensures before: (forall i: int {account.Splits[i]} :: 0 <= i < len(account.Splits) ==> when != zeroTime && splitInst(account.Splits[i]) > inst(when)) ==> result == account.StartBalance
  ensures after: when != zeroTime ==> forall i: int {account.Splits[i]} :: 0 <= i < len(account.Splits) && splitInst(account.Splits[i]) <= inst(when)
     && (i+1 == len(account.Splits) || splitInst(account.Splits[i+1]) > inst(when)) ==> result == account.Splits[i].Balance
  inv 0 i >= 1
  inv 0 forall j: int {account.Splits[j]} :: 0 <= j < i ==> splitInst(account.Splits[j]) <= inst(when)

// number of transactions in an interval, among the first n
fun CNTI(E: mem(*Transaction), H: heap(time), a: int, o: int, n: int, s: int, e: int): int
axiom CNTI := forall E: mem(*Transaction), H: heap(time), a: int, o: int, n: int, s: int, e: int {CNTI(E,H,a,o,n,s,e)} :: n <= 0 ==> CNTI(E,H,a,o,n,s,e) == 0
axiom CNTI step := forall E: mem(*Transaction), H: heap(time), a: int, o: int, n: int, m: int, s: int, e: int {CNTI(E,H,a,o,n,s,e), atr(E,a,o,m)} :: n == m+1 && m >= 0
   ==> CNTI(E,H,a,o,n,s,e) == CNTI(E,H,a,o,m,s,e) + ite(s <= inst(H[-atr(E,a,o,m)]) && inst(H[-atr(E,a,o,m)]) <= e, 1, 0)

def cnti(l, n, s, e) := CNTI(mem(*Transaction), heap(time), arr(l.Transactions), off(l.Transactions), n, inst(s), inst(e))
def inIv(t, s, e) := inst(s) <= inst(t.Time) && inst(t.Time) <= inst(e)
def txs(l) := forall i: int {l.Transactions[i]} :: 0 <= i < len(l.Transactions) ==> l.Transactions[i] > 0

iface .TransactionsInInterval
  params start end
  modifies fresh mem(*Transaction)
iface .TransactionsInAccount
  params account
  modifies fresh mem(*Transaction)
iface .Account
  params id

func (*Ledger).TransactionsInInterval
  props P14
  requires l > 0 && txs(l)
  modifies fresh mem(*Transaction)
  ensures count: !implements(l.connection, TransactionsInInterval) ==> len(result) == old(cnti(l, len(l.Transactions), start, end))
  ensures exact: !implements(l.connection, TransactionsInInterval) ==> forall i: int {l.Transactions[i]} :: 0 <= i < len(l.Transactions) && inIv(l.Transactions[i], start, end)
     ==> result[old(cnti(l, i, start, end))] == l.Transactions[i]
  inv 0 len(trans) == old(cnti(l, it(0), start, end))
  inv 0 fresh(trans)
  inv 0 forall i: int {old(l.Transactions[i])} :: 0 <= i < it(0) ==> 0 <= old(cnti(l, i, start, end)) <= old(cnti(l, i+1, start, end)) && old(cnti(l, i+1, start, end)) <= len(trans)
  inv 0 forall i: int {old(l.Transactions[i])} :: 0 <= i < it(0) && inIv(l.Transactions[i], start, end) ==> trans[old(cnti(l, i, start, end))] == l.Transactions[i] && old(cnti(l, i, start, end)) < old(cnti(l, it(0), start, end))

// transactions of an account
def hasAcc(ES, HS, HA, HI, t, id) := exists j: int {at(ES, HS[t], j)} :: 0 <= j < len(HS[t]) && HI[HA[at(ES, HS[t], j)]] == id
fun CNTA(E: mem(*Transaction), HS: heap(Transaction.Splits), ES: mem(*Split), HA: heap(Split.Account), HI: heap(Account.ID), a: int, o: int, n: int, id: ID): int
axiom CNTA := forall E: mem(*Transaction), HS: heap(Transaction.Splits), ES: mem(*Split), HA: heap(Split.Account), HI: heap(Account.ID), a: int, o: int, n: int, id: ID {CNTA(E,HS,ES,HA,HI,a,o,n,id)} :: n <= 0 ==> CNTA(E,HS,ES,HA,HI,a,o,n,id) == 0
axiom CNTA step := forall E: mem(*Transaction), HS: heap(Transaction.Splits), ES: mem(*Split), HA: heap(Split.Account), HI: heap(Account.ID), a: int, o: int, n: int, m: int, id: ID {CNTA(E,HS,ES,HA,HI,a,o,n,id), atr(E,a,o,m)} :: n == m+1 && m >= 0
   ==> CNTA(E,HS,ES,HA,HI,a,o,n,id) == CNTA(E,HS,ES,HA,HI,a,o,m,id) + ite(hasAcc(ES,HS,HA,HI,atr(E,a,o,m),id), 1, 0)
def cnta(l, n, id) := CNTA(mem(*Transaction), heap(Transaction.Splits), mem(*Split), heap(Split.Account), heap(Account.ID), arr(l.Transactions), off(l.Transactions), n, id)
def inAcc(t, id) := hasAcc(mem(*Split), heap(Transaction.Splits), heap(Split.Account), heap(Account.ID), t, id)
def splitsOK(l) := forall i: int, j: int {l.Transactions[i], l.Transactions[i].Splits[j]} :: 0 <= i < len(l.Transactions) && 0 <= j < len(l.Transactions[i].Splits)
   ==> l.Transactions[i].Splits[j] > 0 && l.Transactions[i].Splits[j].Account > 0

func (*Ledger).TransactionsInAccount
  props P14
  requires l > 0 && txs(l) && splitsOK(l)
  modifies fresh mem(*Transaction)
  ensures count: !implements(l.connection, TransactionsInAccount) ==> len(result) == old(cnta(l, len(l.Transactions), account))
  ensures exact: !implements(l.connection, TransactionsInAccount) ==> forall i: int {l.Transactions[i]} :: 0 <= i < len(l.Transactions) && inAcc(l.Transactions[i], account)
     ==> result[old(cnta(l, i, account))] == l.Transactions[i]
  inv 0 len(trans) == old(cnta(l, it(0), account))
  inv 0 fresh(trans)
  inv 0 forall i: int {old(l.Transactions[i])} :: 0 <= i < it(0) ==> 0 <= old(cnta(l, i, account)) <= old(cnta(l, i+1, account)) && old(cnta(l, i+1, account)) <= len(trans)
  inv 0 forall i: int {old(l.Transactions[i])} :: 0 <= i < it(0) && inAcc(l.Transactions[i], account) ==> trans[old(cnta(l, i, account))] == l.Transactions[i] && old(cnta(l, i, account)) < old(cnta(l, it(0), account))
  inv 1 forall j: int {t.Splits[j]} :: 0 <= j < it(1) ==> t.Splits[j].Account.ID != account

func (*Ledger).Account
  props P14
  requires l > 0
  requires forall i: int {l.Accounts[i]} :: 0 <= i < len(l.Accounts) ==> l.Accounts[i] > 0
  ensures found: !implements(l.connection, Account) && result != nil ==> result.ID == id && (exists i: int {l.Accounts[i]} :: 0 <= i < len(l.Accounts) && l.Accounts[i] == result)
  ensures first: !implements(l.connection, Account) ==> forall i: int {l.Accounts[i]} :: 0 <= i < len(l.Accounts) && l.Accounts[i].ID == id ==> result != nil
  inv 0 forall j: int {l.Accounts[j]} :: 0 <= j < it(0) ==> l.Accounts[j].ID != id
