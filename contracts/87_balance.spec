package github.com/cespedes/accounting/cmd/ledger

// ---- the balance report (P16)

// The accounts are listed so that after each of them comes the tree below it: those in the tree of a are
// the SZ(a) accounts from a on.
def under(x, a) := AIDX(a) <= AIDX(x) && AIDX(x) < AIDX(a) + SZ(a)
def inList(o) := o > 0 && allocated(o) && 0 <= AIDX(o) && AIDX(o) < AN() && LACC(AIDX(o)) == o && len(o.Children) == CHN(o)
def listed() := forall o: *Account {o.Children} :: ACC(o) ==> inList(o)
def inPlace(o, j) := ACC(o.Children[j]) && CH(o, j) == o.Children[j] && inList(o.Children[j]) && AIDX(o.Children[j]) == AIDX(o) + 1 + SS(o, j)
def depthFirst() := listed() && (forall o: *Account, j: int {o.Children[j]} :: ACC(o) && 0 <= j < len(o.Children) ==> inPlace(o, j))

// CNT: how many of the first n rows are of account x
fun CNT(E: mem(account), a: int, o: int, n: int, x: *Account): int
axiom CNT := forall E: mem(account), a: int, o: int, n: int, x: *Account {CNT(E,a,o,n,x)} :: n <= 0 ==> CNT(E,a,o,n,x) == 0
axiom CNT step := forall E: mem(account), a: int, o: int, n: int, m: int, x: *Account {CNT(E,a,o,n,x), atr(E,a,o,m)} :: n == m+1 && m >= 0
   ==> CNT(E,a,o,n,x) == CNT(E,a,o,m,x) + ite(atr(E,a,o,m).Account == x, 1, 0)
def cntIn(E, w, x) := CNT(E, arr(w), off(w), len(w), x)
def cnt(w, x) := cntIn(mem(account), w, x)

lemma CNTstep(E: mem(account), a: int, o: int, n: int, x: *Account)
  requires n > 0
  ensures CNT(E,a,o,n,x) == CNT(E,a,o,n-1,x) + ite(atr(E,a,o,n-1).Account == x, 1, 0)

lemma CNTeq(E1: mem(account), a1: int, o1: int, E2: mem(account), a2: int, o2: int, n: int, x: *Account)
  requires forall i: int {atr(E1,a1,o1,i)} {atr(E2,a2,o2,i)} :: 0 <= i < n ==> atr(E1,a1,o1,i).Account == atr(E2,a2,o2,i).Account
  ensures CNT(E1,a1,o1,n,x) == CNT(E2,a2,o2,n,x)
  induct n
  use CNTstep(E1,a1,o1,n,x)
  use CNTstep(E2,a2,o2,n,x)

lemma CNTnone(E: mem(account), a: int, o: int, n: int, x: *Account)
  requires forall i: int {atr(E,a,o,i)} :: 0 <= i < n ==> atr(E,a,o,i).Account != x
  ensures CNT(E,a,o,n,x) == 0
  induct n
  use CNTstep(E,a,o,n,x)

lemma CNThas(E: mem(account), a: int, o: int, n: int, k: int, x: *Account)
  requires 0 <= k < n ==> atr(E,a,o,k).Account == x
  ensures CNT(E,a,o,n,x) >= ite(0 <= k < n, 1, 0)
  induct n
  use CNTstep(E,a,o,n,x)

def rowName(r) := r.Name == r.Account.Name || r.Name == fullName(r.Account)
def rowsOK(w) := forall i: int {at(mem(account),w,i)} :: 0 <= i < len(w) ==> ACC(at(mem(account),w,i).Account)
def namesOK(w) := forall i: int {at(mem(account),w,i)} :: 0 <= i < len(w) ==> rowName(at(mem(account),w,i))

func insertAccount
  props P16
  requires list: depthFirst()
  requires account: ACC(a) && inList(a)
  requires name: name == a.Name || name == fullName(a)
  requires once: forall x: *Account {cnt(*where, x)} :: ACC(x) ==> cnt(*where, x) <= 1
  requires complete: forall x: *Account, y: *Account {cnt(*where, x), cnt(*where, y)} :: ACC(x) && ACC(y) && under(x, a) && under(y, x) && cnt(*where, x) >= 1 ==> cnt(*where, y) >= 1
  modifies *where, mem(account)
  decreases AN() - AIDX(a)
  ensures rows: forall x: *Account {cnt(*where, x)} :: ACC(x) && inList(x) ==> cnt(*where, x) == ite(under(x, a), 1, old(cnt(*where, x)))
  ensures members: old(rowsOK(*where)) ==> rowsOK(*where)
  ensures names: old(namesOK(*where)) ==> namesOK(*where)
  inv 0 forall j: int {at(mem(account),*where,j)} :: 0 <= j < it(0) ==> at(mem(account),*where,j).Account != a
  inv 1 rows: forall x: *Account {cnt(*where, x)} {old(cnt(*where, x))} :: ACC(x) && inList(x) ==> cnt(*where, x) == ite(AIDX(a) <= AIDX(x) && AIDX(x) < AIDX(a) + 1 + SS(a, it(1)), 1, old(cnt(*where, x)))
  inv 1 old(rowsOK(*where)) ==> rowsOK(*where)
  inv 1 old(namesOK(*where)) ==> namesOK(*where)
  hint loop 1 entry: use forall x: *Account {cnt(*where, x)} {old(cnt(*where, x))} :: CNTstep(mem(account), arr(*where), off(*where), len(*where), x)
  hint loop 1 entry: use forall x: *Account {cnt(*where, x)} {old(cnt(*where, x))} :: CNTeq(old(mem(account)), old(arr(*where)), old(off(*where)), mem(account), arr(*where), off(*where), old(len(*where)), x)
  hint loop 1 entry: use CNTnone(old(mem(account)), old(arr(*where)), old(off(*where)), old(len(*where)), a)
  hint call insertAccount 0 before: use SSpos(a.Children[it(1)-1], CHN(a.Children[it(1)-1]))
  hint call insertAccount 0 before: use SSpos(a, it(1)-1)
  hint call insertAccount 0 before: use SSone(a, it(1))
  hint call insertAccount 0 before: use SSmono(a, it(1), CHN(a))
  hint call insertAccount 0 before: assert arg3 == a.Children[it(1)-1]
  hint call insertAccount 0 before: assert it(1)-1 < CHN(a)
  hint call insertAccount 0 before: assert inPlace(a, it(1)-1)
  hint call insertAccount 0 before: assert SZ(a) == 1 + SS(a, CHN(a))
  hint call insertAccount 0 before: assert SZ(a.Children[it(1)-1]) >= 1
  hint call insertAccount 0 before: assert SS(a, it(1)) == SS(a, it(1)-1) + SZ(a.Children[it(1)-1])
  hint return: use CNThas(old(mem(account)), old(arr(*where)), old(off(*where)), old(len(*where)), it(0)-1, a)

// the accounts asked for
def matches(a, args) := exists k: int {args[k]} :: 0 <= k < len(args) && contains(lower(nameFull(a)), lower(args[k]))
def nameFull(a) := ite(a.Parent == nil, a.Name, (fullName(a.Parent) + ":") + a.Name)
// MATCH(a): the full name of a contains one of the names; SELN(x,n): x is in the tree of one of the first n accounts which do
fun MATCH(a: *Account): bool
fun SELN(x: *Account, n: int): bool
axiom SELN := forall x: *Account, n: int {SELN(x,n)} :: n <= 0 ==> !SELN(x,n)
axiom SELN step := forall x: *Account, n: int, m: int {SELN(x,n), SELN(x,m)} :: n == m+1 && m >= 0 ==> (SELN(x,n) <==> SELN(x,m) || (MATCH(LACC(m)) && under(x, LACC(m))))
// ASK(c): the amounts in c are asked for
fun ASK(c: *Currency): bool
// FB(a): the final balance of a; HAS(a): it has postings
fun FB(a: *Account): Balance
fun HAS(a: *Account): bool
// MS: value in the market of the amounts asked for, of the first n
fun MS(E: mem(Value), l: *Ledger, when: time.Time, cur: *Currency, a: int, o: int, n: int): int
axiom MS := forall E: mem(Value), l: *Ledger, when: time.Time, cur: *Currency, a: int, o: int, n: int {MS(E,l,when,cur,a,o,n)} :: n <= 0 ==> MS(E,l,when,cur,a,o,n) == 0
axiom MS step := forall E: mem(Value), l: *Ledger, when: time.Time, cur: *Currency, a: int, o: int, n: int, m: int {MS(E,l,when,cur,a,o,n), atr(E,a,o,m)} :: n == m+1 && m >= 0
   ==> MS(E,l,when,cur,a,o,n) == MS(E,l,when,cur,a,o,m) + ite(ASK(atr(E,a,o,m).Currency), MV(l, atr(E,a,o,m), when, cur), 0)
def ms(b, L, flags) := MS(mem(Value), L, flags.endDate, L.DefaultCurrency, arr(b), off(b), len(b))

lemma MSstep(E: mem(Value), l: *Ledger, when: time.Time, cur: *Currency, a: int, o: int, n: int)
  requires n > 0
  ensures MS(E,l,when,cur,a,o,n) == MS(E,l,when,cur,a,o,n-1) + ite(ASK(atr(E,a,o,n-1).Currency), MV(l, atr(E,a,o,n-1), when, cur), 0)

lemma MSeq(E1: mem(Value), a1: int, o1: int, E2: mem(Value), a2: int, o2: int, l: *Ledger, when: time.Time, cur: *Currency, n: int)
  requires forall i: int {atr(E1,a1,o1,i)} {atr(E2,a2,o2,i)} :: 0 <= i < n ==> atr(E1,a1,o1,i) == atr(E2,a2,o2,i)
  ensures MS(E1,l,when,cur,a1,o1,n) == MS(E2,l,when,cur,a2,o2,n)
  induct n
  use MSstep(E1,l,when,cur,a1,o1,n)
  use MSstep(E2,l,when,cur,a2,o2,n)

// SHOWN(x,c): the amount of c in the row of x
fun SHOWN(x: *Account, c: *Currency): int
// TOTS: the sum of the amounts of c in the first n rows
fun TOTS(E: mem(account), a: int, o: int, n: int, c: *Currency): int
axiom TOTS := forall E: mem(account), a: int, o: int, n: int, c: *Currency {TOTS(E,a,o,n,c)} :: n <= 0 ==> TOTS(E,a,o,n,c) == 0
axiom TOTS step := forall E: mem(account), a: int, o: int, n: int, m: int, c: *Currency {TOTS(E,a,o,n,c), atr(E,a,o,m)} :: n == m+1 && m >= 0
   ==> TOTS(E,a,o,n,c) == TOTS(E,a,o,m,c) + SHOWN(atr(E,a,o,m).Account, c)
lemma TOTSstep(E: mem(account), a: int, o: int, n: int, c: *Currency)
  requires n > 0
  ensures TOTS(E,a,o,n,c) == TOTS(E,a,o,n-1,c) + SHOWN(atr(E,a,o,n-1).Account, c)
lemma TOTSeq(E1: mem(account), a1: int, o1: int, E2: mem(account), a2: int, o2: int, n: int, c: *Currency)
  requires forall i: int {atr(E1,a1,o1,i)} {atr(E2,a2,o2,i)} :: 0 <= i < n ==> atr(E1,a1,o1,i).Account == atr(E2,a2,o2,i).Account
  ensures TOTS(E1,a1,o1,n,c) == TOTS(E2,a2,o2,n,c)
  induct n
  use TOTSstep(E1,a1,o1,n,c)
  use TOTSstep(E2,a2,o2,n,c)

// the texts of the rows: those of each take WR places
def rowsText(m, x) := ite(m > 0, 2*m+1, ite(HAS(x), 0, 2))
fun WP(E: mem(account), a: int, o: int, n: int): int
axiom WP := forall E: mem(account), a: int, o: int, n: int {WP(E,a,o,n)} :: n <= 0 ==> WP(E,a,o,n) == 0
axiom WP step := forall E: mem(account), a: int, o: int, n: int, m: int {WP(E,a,o,n), atr(E,a,o,m)} :: n == m+1 && m >= 0
   ==> WP(E,a,o,n) == WP(E,a,o,m) + rowsText(len(atr(E,a,o,m).Balance), atr(E,a,o,m).Account)
lemma WPstep(E: mem(account), a: int, o: int, n: int)
  requires n > 0
  ensures WP(E,a,o,n) == WP(E,a,o,n-1) + rowsText(len(atr(E,a,o,n-1).Balance), atr(E,a,o,n-1).Account)
lemma WPmono(E: mem(account), a: int, o: int, k: int, n: int)
  requires 0 <= k <= n
  ensures WP(E,a,o,k) <= WP(E,a,o,n)
  induct n
  use WPstep(E,a,o,n)

def goodVal(v) := goodCur(v.Currency) && -9223372036854775808 <= v.Amount && v.Amount <= 9223372036854775807 && v.Amount != 0
def textOf(v) := tAll(v, false, true)
lemma SELNone(x: *Account, n: int)
  requires n > 0
  ensures SELN(x,n) <==> SELN(x,n-1) || (MATCH(LACC(n-1)) && under(x, LACC(n-1)))
lemma SELNsz(a: *Account)
  requires true
  ensures SZ(a) >= 1
  use SSpos(a, CHN(a))
lemma SELNdown(x: *Account, y: *Account, n: int)
  requires forall a: *Account {SZ(a)} :: ACC(a) && under(x, a) ==> AIDX(x) + SZ(x) <= AIDX(a) + SZ(a)
  requires forall i: int {LACC(i)} :: 0 <= i < n ==> ACC(LACC(i))
  requires under(y, x)
  ensures SELN(x,n) ==> SELN(y,n)
  induct n
  use SELNone(x,n)
  use SELNone(y,n)
  use SELNsz(LACC(n-1))
def theList(L) := AN() == len(L.Accounts) && (forall i: int {LACC(i)} {L.Accounts[i]} :: 0 <= i < AN() ==> L.Accounts[i] == LACC(i) && ACC(LACC(i)) && AIDX(LACC(i)) == i && inList(LACC(i)))
def nested() := forall x: *Account, a: *Account {under(x, a)} :: ACC(x) && ACC(a) && under(x, a) ==> AIDX(x) + SZ(x) <= AIDX(a) + SZ(a)
def goodBal(b) := wfBal(b) && inRange(b) && goodCurs(b)
def rowBal(w, k) := at(mem(account),w,k).Balance
def rowAcc(w, k) := at(mem(account),w,k).Account

func runBalance
  props P16
  option output
  requires ledger: L > 0 && priced(L) && pricesSorted(L)
  requires accounts: theList(L) && depthFirst()
  requires nested: forall x: *Account, a: *Account {SZ(x), SZ(a)} :: ACC(x) && ACC(a) && under(x, a) ==> AIDX(x) + SZ(x) <= AIDX(a) + SZ(a)
  requires up: forall o: *Account {o.Parent} :: ACC(o) ==> o > 0 && allocated(o) && AIDX(o) >= 0 && rooted(o)
  requires names: forall a: *Account {MATCH(a)} :: ACC(a) ==> (MATCH(a) <==> matches(a, args))
  requires postings: forall a: *Account, k: int {a.Splits[k]} :: ACC(a) && 0 <= k < len(a.Splits) ==> a.Splits[k] > 0
  requires has: forall a: *Account {HAS(a)} {a.Splits} :: ACC(a) ==> (HAS(a) <==> len(a.Splits) > 0)
  requires final: forall a: *Account {FB(a)} {a.Splits} :: ACC(a) ==> FB(a) == ite(HAS(a), a.Splits[len(a.Splits)-1].Balance, a.StartBalance) && goodBal(FB(a)) && arr(FB(a)) < alloc
  requires asked: forall c: *Currency {ASK(c)} :: c > 0 ==> (ASK(c) <==> len(flags.currency) == 0 || (exists k: int {flags.currency[k]} :: 0 <= k < len(flags.currency) && flags.currency[k] == c.Name))
  requires shown: forall x: *Account, c: *Currency {SHOWN(x,c)} :: ACC(x) ==> SHOWN(x,c) == ite(flags.market, ite(c == L.DefaultCurrency, ms(FB(x), L, flags), 0), ite(c > 0 && ASK(c), bal(FB(x), c), 0))
  requires default: L.DefaultCurrency == nil || goodCur(L.DefaultCurrency)
  modifies output, bigint, fresh mem(*Currency), fresh mem(Value), mem(account)
  // every account asked for has one row, and there are no others
  witness each-once: result == nil ==> forall x: *Account {cnt(accounts, x)} :: ACC(x) ==> cnt(accounts, x) == ite(ite(len(args) == 0, AIDX(x) < AN(), SELN(x, AN())), 1, 0)
  witness only-accounts: result == nil ==> rowsOK(accounts)
  witness names: result == nil ==> namesOK(accounts)
  // its balance is that of the account
  witness amounts: result == nil ==> forall k: int, c: *Currency {bal(rowBal(accounts,k), c)} :: 0 <= k < len(accounts) && c > 0 ==> bal(rowBal(accounts,k), c) == SHOWN(rowAcc(accounts,k), c)
  witness currency-once: result == nil ==> forall k: int, i: int, j: int {at(mem(Value),rowBal(accounts,k),i), at(mem(Value),rowBal(accounts,k),j)} :: 0 <= k < len(accounts) && 0 <= i && i < j && j < len(rowBal(accounts,k)) ==> at(mem(Value),rowBal(accounts,k),i).Currency != at(mem(Value),rowBal(accounts,k),j).Currency
  // the total is the sum of the rows
  witness total: result == nil ==> forall c: *Currency {bal(total, c)} :: c > 0 ==> bal(total, c) == TOTS(mem(account), arr(accounts), off(accounts), len(accounts), c)
  witness total-well: result == nil ==> wfBal(total)
  witness printed-texts: result == nil && !flags.total ==> forall k: int, j: int {at(mem(Value),rowBal(accounts,k),j)} :: 0 <= k < len(accounts) && 0 <= j < len(rowBal(accounts,k)) ==> outp(old(outn())+WP(mem(account), arr(accounts), off(accounts), k)+2*j) == textOf(at(mem(Value),rowBal(accounts,k),j)) && (j+1 < len(rowBal(accounts,k)) ==> outp(old(outn())+WP(mem(account), arr(accounts), off(accounts), k)+2*j+1) == "\n")
  witness printed-names: result == nil && !flags.total ==> forall k: int {at(mem(account),accounts,k)} :: 0 <= k < len(accounts) && len(rowBal(accounts,k)) > 0 ==> outp(old(outn())+WP(mem(account), arr(accounts), off(accounts), k)+2*len(rowBal(accounts,k))-1) == at(mem(account),accounts,k).Name && outp(old(outn())+WP(mem(account), arr(accounts), off(accounts), k)+2*len(rowBal(accounts,k))) == "\n"
  witness printed-bare: result == nil && !flags.total ==> forall k: int {at(mem(account),accounts,k)} :: 0 <= k < len(accounts) && len(rowBal(accounts,k)) == 0 && !HAS(rowAcc(accounts,k)) ==> outp(old(outn())+WP(mem(account), arr(accounts), off(accounts), k)) == at(mem(account),accounts,k).Name && outp(old(outn())+WP(mem(account), arr(accounts), off(accounts), k)+1) == "\n"
  witness printed-line: result == nil && !flags.total ==> outp(old(outn()) + WP(mem(account), arr(accounts), off(accounts), len(accounts)) + 1) == "\n"
  witness printed-total: result == nil ==> forall j: int {at(mem(Value),total,j)} :: 0 <= j < len(total) ==> outp(old(outn()) + ite(flags.total, 0, WP(mem(account), arr(accounts), off(accounts), len(accounts)) + 2) + 2*j) == textOf(at(mem(Value),total,j)) && outp(old(outn()) + ite(flags.total, 0, WP(mem(account), arr(accounts), off(accounts), len(accounts)) + 2) + 2*j + 1) == "\n"
  witness printed-zero: result == nil && len(total) == 0 ==> outp(old(outn()) + ite(flags.total, 0, WP(mem(account), arr(accounts), off(accounts), len(accounts)) + 2)) == "0" && outp(old(outn()) + ite(flags.total, 0, WP(mem(account), arr(accounts), off(accounts), len(accounts)) + 2) + 1) == "\n"
  witness printed-end: result == nil ==> outn() == old(outn()) + ite(flags.total, 0, WP(mem(account), arr(accounts), off(accounts), len(accounts)) + 2) + ite(len(total) == 0, 2, 2*len(total))
  ensures where: forall p: int {outp(p)} {outw(p)} :: old(outn()) <= p < outn() ==> outw(p) == stdout()
  ensures failed: result != nil ==> flags.market && outn() == old(outn())
  inv 0 list: len(accounts) == it(0) && rowsOK(accounts) && namesOK(accounts)
  inv 0 rows: forall x: *Account {cnt(accounts, x)} :: ACC(x) && inList(x) ==> cnt(accounts, x) == ite(AIDX(x) < it(0), 1, 0)
  inv 1 list: rowsOK(accounts) && namesOK(accounts)
  inv 1 rows: forall x: *Account {cnt(accounts, x)} :: ACC(x) && inList(x) ==> cnt(accounts, x) == ite(SELN(x, it(1)), 1, 0)
  inv 2 forall k: int {args[k]} :: 0 <= k < it(2) ==> !contains(lower(nameFull(a)), lower(args[k]))
  inv 3 list: rowsOK(accounts) && namesOK(accounts)
  inv 3 rows: forall x: *Account {cnt(accounts, x)} :: ACC(x) ==> cnt(accounts, x) == ite(ite(len(args) == 0, AIDX(x) < AN(), SELN(x, AN())), 1, 0)
  inv 3 same: forall k: int {at(mem(account),accounts,k)} {at(entry(3,mem(account)),accounts,k)} :: 0 <= k < len(accounts) ==> rowAcc(accounts,k) == at(entry(3,mem(account)),accounts,k).Account
  inv 3 shown: forall k: int, c: *Currency {bal(rowBal(accounts,k), c)} :: 0 <= k < it(3) && c > 0 ==> bal(rowBal(accounts,k), c) == SHOWN(rowAcc(accounts,k), c)
  inv 3 good: forall k: int {at(mem(account),accounts,k)} :: 0 <= k < it(3) ==> arr(rowBal(accounts,k)) < alloc && (arr(rowBal(accounts,k)) != arr(total) || arr(total) == 0)
  inv 3 values: forall k: int, j: int {at(mem(Value),rowBal(accounts,k),j)} :: 0 <= k < it(3) && 0 <= j < len(rowBal(accounts,k)) ==> goodVal(at(mem(Value),rowBal(accounts,k),j)) && len(textOf(at(mem(Value),rowBal(accounts,k),j))) <= maxLength
  inv 3 once: forall k: int, i: int, j: int {at(mem(Value),rowBal(accounts,k),i), at(mem(Value),rowBal(accounts,k),j)} :: 0 <= k < it(3) && 0 <= i && i < j && j < len(rowBal(accounts,k)) ==> at(mem(Value),rowBal(accounts,k),i).Currency != at(mem(Value),rowBal(accounts,k),j).Currency
  inv 3 total: forall c: *Currency {bal(total, c)} {TOTS(mem(account), arr(accounts), off(accounts), it(3), c)} :: c > 0 ==> bal(total, c) == TOTS(mem(account), arr(accounts), off(accounts), it(3), c)
  inv 3 well: goodBal(total) && (arr(total) == 0 || fresh(total)) && maxLength >= 0
  inv 4 src: rs(4) == FB(a.Account)
  inv 4 sum: forall c: *Currency {bal(bal, c)} :: c > 0 ==> bal(bal, c) == ite(ASK(c), SUM(mem(Value), arr(rs(4)), off(rs(4)), it(4), c), 0)
  inv 4 well: goodBal(bal) && (arr(bal) == 0 || arr(bal) >= entry(4,alloc))
  inv 4 asked: forall k: int {at(mem(Value),bal,k)} :: 0 <= k < len(bal) ==> ASK(at(mem(Value),bal,k).Currency)
  inv 4 from: forall k: int {at(mem(Value),bal,k)} :: 0 <= k < len(bal) ==> (exists j: int {at(mem(Value),rs(4),j)} :: 0 <= j < it(4) && at(mem(Value),bal,k) == at(mem(Value),rs(4),j))
  inv 4 market: ms(bal, L, flags) == MS(old(mem(Value)), L, flags.endDate, L.DefaultCurrency, arr(rs(4)), off(rs(4)), it(4))
  inv 4 kept: forall x: int, o: int, i: int {atr(mem(Value),x,o,i)} :: x < entry(4,alloc) ==> atr(mem(Value),x,o,i) == atr(entry(4,mem(Value)),x,o,i)
  inv 4 sums: forall x: int, o: int, n: int, c: *Currency {SUM(mem(Value),x,o,n,c)} :: x < entry(4,alloc) ==> SUM(mem(Value),x,o,n,c) == SUM(entry(4,mem(Value)),x,o,n,c)
  inv 5 bal == entry(5, bal) && mem(Value) == entry(5, mem(Value))
  inv 5 forall k: int {flags.currency[k]} :: 0 <= k < it(5) ==> flags.currency[k] != v.Currency.Name
  inv 6 arr: arr(rs(6)) < entry(6,alloc)
  inv 6 market: ms(rs(6), L, flags) == MS(old(mem(Value)), L, flags.endDate, L.DefaultCurrency, arr(FB(a.Account)), off(FB(a.Account)), len(FB(a.Account)))
  inv 6 src-once: nodup(mem(Value), rs(6))
  inv 6 src-zero: nozero(mem(Value), rs(6))
  inv 6 src-good: inRange(rs(6)) && goodCurs(rs(6))
  inv 6 asked: forall j: int {at(mem(Value),rs(6),j)} :: 0 <= j < len(rs(6)) ==> ASK(at(mem(Value),rs(6),j).Currency)
  inv 6 sum: forall c: *Currency {bal(bal, c)} :: c > 0 ==> bal(bal, c) == ite(c == L.DefaultCurrency, MS(mem(Value), L, flags.endDate, L.DefaultCurrency, arr(rs(6)), off(rs(6)), it(6)), 0)
  inv 6 well: goodBal(bal) && (arr(bal) == 0 || arr(bal) >= entry(6,alloc))
  inv 6 kept: forall x: int, o: int, i: int {atr(mem(Value),x,o,i)} :: x < entry(6,alloc) ==> atr(mem(Value),x,o,i) == atr(entry(6,mem(Value)),x,o,i)
  inv 6 sums: forall x: int, o: int, n: int, c: *Currency {SUM(mem(Value),x,o,n,c)} :: x < entry(6,alloc) ==> SUM(mem(Value),x,o,n,c) == SUM(entry(6,mem(Value)),x,o,n,c)
  inv 7 src: rs(7) == rowBal(accounts, it(3)-1) && goodBal(rs(7)) && arr(rs(7)) < entry(7,alloc) && (arr(rs(7)) == 0 || arr(rs(7)) != arr(total))
  inv 7 shown: forall c: *Currency {bal(rs(7), c)} :: c > 0 ==> bal(rs(7), c) == SHOWN(rowAcc(accounts,it(3)-1), c)
  inv 7 sum: forall c: *Currency {bal(total, c)} :: c > 0 ==> bal(total, c) == entry(7, bal(total, c)) + SUM(mem(Value), arr(rs(7)), off(rs(7)), it(7), c)
  inv 7 width: maxLength >= entry(7,maxLength) && (forall j: int {at(mem(Value),rs(7),j)} :: 0 <= j < it(7) ==> len(textOf(at(mem(Value),rs(7),j))) <= maxLength)
  inv 7 well: goodBal(total) && (arr(total) == entry(7,arr(total)) || arr(total) >= entry(7,alloc)) && (arr(total) == 0 || fresh(total))
  inv 7 kept: forall x: int, o: int, i: int {atr(mem(Value),x,o,i)} :: x < entry(7,alloc) && (x != entry(7,arr(total)) || x == 0) ==> atr(mem(Value),x,o,i) == atr(entry(7,mem(Value)),x,o,i)
  inv 7 sums: forall x: int, o: int, n: int, c: *Currency {SUM(mem(Value),x,o,n,c)} :: x < entry(7,alloc) && (x != entry(7,arr(total)) || x == 0) ==> SUM(mem(Value),x,o,n,c) == SUM(entry(7,mem(Value)),x,o,n,c)
  inv 8 width: maxLength >= entry(8,maxLength) && (forall j: int {at(mem(Value),total,j)} :: 0 <= j < it(8) ==> len(textOf(at(mem(Value),total,j))) <= maxLength)
  hint loop 0 back: use forall x: *Account {cnt(accounts, x)} :: CNTstep(mem(account), arr(accounts), off(accounts), len(accounts), x)
  hint loop 0 back: use forall x: *Account {cnt(accounts, x)} :: CNTeq(start(0,mem(account)), start(0,arr(accounts)), start(0,off(accounts)), mem(account), arr(accounts), off(accounts), len(accounts)-1, x)
  hint call insertAccount 0 before: use forall x: *Account, y: *Account {SELN(x, it(1)-1), SELN(y, it(1)-1)} :: SELNdown(x, y, it(1)-1)
  hint call insertAccount 0 before: use SELNone(a, it(1))
  hint call insertAccount 0 before: assert a == LACC(it(1)-1) && MATCH(a)
  inv 3 sums: forall x: int, o: int, n: int, c: *Currency {SUM(mem(Value),x,o,n,c)} {old(SUM(mem(Value),x,o,n,c))} :: x < old(alloc) ==> SUM(mem(Value),x,o,n,c) == old(SUM(mem(Value),x,o,n,c))
  inv 3 markets: forall x: int, o: int, n: int {MS(mem(Value),L, flags.endDate, L.DefaultCurrency,x,o,n)} {MS(old(mem(Value)),L, flags.endDate, L.DefaultCurrency,x,o,n)} :: x < old(alloc) ==> MS(mem(Value),L, flags.endDate, L.DefaultCurrency,x,o,n) == MS(old(mem(Value)),L, flags.endDate, L.DefaultCurrency,x,o,n)
  hint loop 3 back: use forall x: int, o: int, n: int, c: *Currency {SUM(mem(Value),x,o,n,c)} {old(SUM(mem(Value),x,o,n,c))} :: SUMeq(old(mem(Value)), x, o, mem(Value), x, o, n, c)
  hint loop 3 back: use forall x: int, o: int, n: int {MS(mem(Value),L, flags.endDate, L.DefaultCurrency,x,o,n)} {MS(old(mem(Value)),L, flags.endDate, L.DefaultCurrency,x,o,n)} :: MSeq(old(mem(Value)), x, o, mem(Value), x, o, L, flags.endDate, L.DefaultCurrency, n)
  hint loop 3 back: use forall c: *Currency {bal(total, c)} :: TOTSstep(mem(account), arr(accounts), off(accounts), it(3), c)
  hint loop 3 back: use forall c: *Currency {bal(total, c)} :: TOTSeq(start(3,mem(account)), arr(accounts), off(accounts), mem(account), arr(accounts), off(accounts), it(3)-1, c)
  hint loop 6 back: use MSeq(start(6,mem(Value)), arr(rs(6)), off(rs(6)), mem(Value), arr(rs(6)), off(rs(6)), L, flags.endDate, L.DefaultCurrency, len(rs(6)))
  hint loop 6 back: use MSeq(start(6,mem(Value)), arr(rs(6)), off(rs(6)), mem(Value), arr(rs(6)), off(rs(6)), L, flags.endDate, L.DefaultCurrency, it(6)-1)
  hint loop 6 back: use MSstep(mem(Value), L, flags.endDate, L.DefaultCurrency, arr(rs(6)), off(rs(6)), it(6))
  hint loop 4 back: use MSstep(old(mem(Value)), L, flags.endDate, L.DefaultCurrency, arr(rs(4)), off(rs(4)), it(4))
  hint loop 4 back: use MSstep(mem(Value), L, flags.endDate, L.DefaultCurrency, arr(bal), off(bal), len(bal))
  hint loop 4 back: use MSeq(start(4,mem(Value)), start(4,arr(bal)), start(4,off(bal)), mem(Value), arr(bal), off(bal), L, flags.endDate, L.DefaultCurrency, start(4,len(bal)))
  hint loop 4 back: assert at(mem(Value),rs(4),it(4)-1) == v
  hint loop 6 entry: use MSeq(old(mem(Value)), arr(rs(6)), off(rs(6)), mem(Value), arr(rs(6)), off(rs(6)), L, flags.endDate, L.DefaultCurrency, len(rs(6)))
  hint loop 7 entry: assert len(flags.currency) == 0 ==> forall c: *Currency {ASK(c)} :: c > 0 ==> ASK(c)
  hint loop 7 entry: assert flags.market ==> forall c: *Currency {bal(rs(7), c)} :: c > 0 ==> bal(rs(7), c) == SHOWN(rowAcc(accounts,it(3)-1), c)
  hint loop 7 entry: assert !flags.market && len(flags.currency) > 0 ==> forall c: *Currency {bal(rs(7), c)} :: c > 0 ==> bal(rs(7), c) == SHOWN(rowAcc(accounts,it(3)-1), c)
  hint loop 7 entry: assert !flags.market && len(flags.currency) == 0 ==> forall c: *Currency {bal(rs(7), c)} :: c > 0 ==> bal(rs(7), c) == SHOWN(rowAcc(accounts,it(3)-1), c)
  hint call insertAccount 0 before: assert forall x: *Account, y: *Account {SELN(x, it(1)-1), SELN(y, it(1)-1)} :: ACC(x) && ACC(y) && under(y, x) && SELN(x, it(1)-1) ==> SELN(y, it(1)-1)
  hint call insertAccount 0 before: assert forall x: *Account {cnt(accounts, x)} :: ACC(x) && inList(x) ==> cnt(accounts, x) == ite(SELN(x, it(1)-1), 1, 0)
  hint call insertAccount 0 before: assert forall x: *Account {CNT(mem(account),arr(accounts),off(accounts),len(accounts),x)} :: ACC(x) ==> inList(x)
  hint loop 5 entry: assert forall k: int {at(mem(Value),bal,k)} :: 0 <= k < len(bal) ==> at(mem(Value),bal,k).Currency != v.Currency
  hint loop 4 back: assert forall k: int {at(mem(Value),bal,k)} :: 0 <= k < start(4,len(bal)) ==> at(mem(Value),bal,k) == at(start(4,mem(Value)),start(4,bal),k)
  hint loop 4 back: assert len(bal) == start(4,len(bal)) || (len(bal) == start(4,len(bal)) + 1 && at(mem(Value),bal,len(bal)-1) == v)
  inv 9 texts: forall k: int, j: int {at(mem(Value),rowBal(accounts,k),j)} :: 0 <= k < it(9) && 0 <= j < len(rowBal(accounts,k)) ==> outp(old(outn())+WP(mem(account), arr(accounts), off(accounts), k)+2*j) == textOf(at(mem(Value),rowBal(accounts,k),j)) && (j+1 < len(rowBal(accounts,k)) ==> outp(old(outn())+WP(mem(account), arr(accounts), off(accounts), k)+2*j+1) == "\n")
  inv 9 names: forall k: int {at(mem(account),accounts,k)} :: 0 <= k < it(9) && len(rowBal(accounts,k)) > 0 ==> outp(old(outn())+WP(mem(account), arr(accounts), off(accounts), k)+2*len(rowBal(accounts,k))-1) == at(mem(account),accounts,k).Name && outp(old(outn())+WP(mem(account), arr(accounts), off(accounts), k)+2*len(rowBal(accounts,k))) == "\n"
  inv 9 bare: forall k: int {at(mem(account),accounts,k)} :: 0 <= k < it(9) && len(rowBal(accounts,k)) == 0 && !HAS(rowAcc(accounts,k)) ==> outp(old(outn())+WP(mem(account), arr(accounts), off(accounts), k)) == at(mem(account),accounts,k).Name && outp(old(outn())+WP(mem(account), arr(accounts), off(accounts), k)+1) == "\n"
  inv 9 place: outn() == old(outn()) + WP(mem(account), arr(accounts), off(accounts), it(9))
  inv 9 where: forall p: int {outp(p)} {outw(p)} :: old(outn()) <= p < outn() ==> outw(p) == stdout()
  inv 9 kept: forall p: int {outp(p)} {outw(p)} :: p < old(outn()) ==> outp(p) == old(outp(p)) && outw(p) == old(outw(p))
  inv 10 place: outn() == old(outn()) + WP(mem(account), arr(accounts), off(accounts), it(9)-1) + 2*it(10) + ite(len(rs(10)) > 0 && it(10) == len(rs(10)), 1, 0)
  inv 10 row: rs(10) == rowBal(accounts,it(9)-1)
  inv 10 texts: forall j: int {at(mem(Value),rs(10),j)} :: 0 <= j < it(10) ==> outp(old(outn())+WP(mem(account), arr(accounts), off(accounts), it(9)-1)+2*j) == textOf(at(mem(Value),rs(10),j)) && (j+1 < len(rs(10)) ==> outp(old(outn())+WP(mem(account), arr(accounts), off(accounts), it(9)-1)+2*j+1) == "\n")
  inv 10 name: len(rs(10)) > 0 && it(10) == len(rs(10)) ==> outp(outn()-2) == a.Name && outp(outn()-1) == "\n"
  inv 10 where: forall p: int {outp(p)} {outw(p)} :: old(outn()) <= p < outn() ==> outw(p) == stdout()
  inv 10 before: forall p: int {outp(p)} {outw(p)} :: p < entry(10,outn()) ==> outp(p) == entry(10,outp(p)) && outw(p) == entry(10,outw(p))
  inv 11 place: outn() == entry(11,outn()) + 2*it(11)
  inv 11 texts: forall j: int {at(mem(Value),total,j)} :: 0 <= j < it(11) ==> outp(entry(11,outn())+2*j) == textOf(at(mem(Value),total,j)) && outp(entry(11,outn())+2*j+1) == "\n"
  inv 11 where: forall p: int {outp(p)} {outw(p)} :: old(outn()) <= p < outn() ==> outw(p) == stdout()
  inv 11 before: forall p: int {outp(p)} {outw(p)} :: p < entry(11,outn()) ==> outp(p) == entry(11,outp(p)) && outw(p) == entry(11,outw(p))
  hint loop 9 back: use forall k: int {at(mem(account),accounts,k)} :: WPmono(mem(account), arr(accounts), off(accounts), k+1, it(9)-1)
  hint loop 9 back: use forall k: int {at(mem(account),accounts,k)} :: WPstep(mem(account), arr(accounts), off(accounts), k+1)
  hint loop 9 body: use forall k: int {at(mem(account),accounts,k)} :: WPmono(mem(account), arr(accounts), off(accounts), k+1, it(9))
  hint loop 9 body: use forall k: int {at(mem(account),accounts,k)} :: WPstep(mem(account), arr(accounts), off(accounts), k+1)
  hint return: use forall k: int {at(mem(account),accounts,k)} :: WPmono(mem(account), arr(accounts), off(accounts), k+1, len(accounts))
  hint return: use forall k: int {at(mem(account),accounts,k)} :: WPstep(mem(account), arr(accounts), off(accounts), k+1)
  hint loop 3 back: use forall x: *Account {cnt(accounts, x)} :: CNTeq(start(3,mem(account)), arr(accounts), off(accounts), mem(account), arr(accounts), off(accounts), len(accounts), x)
  hint loop 3 entry: assert forall x: *Account {cnt(accounts, x)} :: ACC(x) ==> inList(x)
  hint loop 9 back: use WPmono(mem(account), arr(accounts), off(accounts), 0, it(9)-1)
  hint loop 9 body: use WPmono(mem(account), arr(accounts), off(accounts), 0, it(9))
