package github.com/cespedes/accounting

// ---- the tree of accounts (P07, and everything which goes over the accounts)

// The accounts of a ledger, when Fill begins: ACC tells them from any other, AIDX is the
// position of each in the list, LACC the account at a position, PAR its parent, AN how many there are.
// They stand for the state at the beginning (see the preconditions of Fill).
fun ACC(a: *Account): bool
fun AIDX(a: *Account): int
fun LACC(i: int): *Account
fun PAR(a: *Account): *Account
fun AN(): int

// CNTP: how many of the first n accounts have parent p
fun CNTP(p: *Account, n: int): int
axiom CNTP := forall p: *Account, n: int {CNTP(p,n)} :: n <= 0 ==> CNTP(p,n) == 0
axiom CNTP step := forall p: *Account, n: int, m: int {CNTP(p,n), LACC(m)} :: n == m+1 && m >= 0 ==> CNTP(p,n) == CNTP(p,m) + ite(PAR(LACC(m)) == p, 1, 0)
def CHN(p) := CNTP(p, AN())
def CIDX(a) := CNTP(PAR(a), AIDX(a))

// CH: the children of an account, in the order of the list of accounts
fun CH(p: *Account, k: int): *Account
axiom CH := forall i: int {LACC(i)} :: 0 <= i < AN() ==> CH(PAR(LACC(i)), CNTP(PAR(LACC(i)), i)) == LACC(i)

// SZ: number of accounts in the tree below an account, itself included; SS: the same for its first k children
fun SZ(a: *Account): int
fun SS(a: *Account, k: int): int
axiom SZ := forall a: *Account {SZ(a)} :: SZ(a) == 1 + SS(a, CHN(a))
axiom SS := forall a: *Account, k: int {SS(a,k)} :: k <= 0 ==> SS(a,k) == 0
axiom SS step := forall a: *Account, k: int, m: int {SS(a,k), CH(a,m)} :: k == m+1 && m >= 0 ==>
   SS(a,k) == SS(a,m) + ite(AIDX(CH(a,m)) > AIDX(a) && AIDX(CH(a,m)) < AN(), max(SZ(CH(a,m)), 1), 1)
// ROOTS: number of accounts in the trees of the first n accounts without parent
fun ROOTS(n: int): int
axiom ROOTS := forall n: int {ROOTS(n)} :: n <= 0 ==> ROOTS(n) == 0
axiom ROOTS step := forall n: int, m: int {ROOTS(n), LACC(m)} :: n == m+1 && m >= 0 ==> ROOTS(n) == ROOTS(m) + ite(PAR(LACC(m)) == nil, SZ(LACC(m)), 0)

// ABS: position of an account in depth-first order
fun ABS(a: *Account): int
axiom ABS root := forall a: *Account {ABS(a)} :: PAR(a) == nil ==> ABS(a) == ROOTS(AIDX(a))
axiom ABS child := forall a: *Account {ABS(a)} :: PAR(a) != nil && 0 <= AIDX(PAR(a)) < AIDX(a) ==> ABS(a) == ABS(PAR(a)) + 1 + SS(PAR(a), CIDX(a))

lemma SSone(a: *Account, k: int)
  requires k > 0
  ensures SS(a,k) == SS(a,k-1) + ite(AIDX(CH(a,k-1)) > AIDX(a) && AIDX(CH(a,k-1)) < AN(), max(SZ(CH(a,k-1)), 1), 1)

lemma SSpos(a: *Account, k: int)
  requires true
  ensures SS(a,k) >= ite(k > 0, k, 0)
  induct k
  use SSone(a, k)

lemma SSmono(a: *Account, k: int, n: int)
  requires 0 <= k <= n
  ensures SS(a,k) <= SS(a,n)
  induct n
  use SSone(a, n)

// the children of every account are those of the list
def childOK(o, j) := ACC(o.Children[j]) && o.Children[j] > 0 && CH(o, j) == o.Children[j] && PAR(o.Children[j]) == o && CIDX(o.Children[j]) == j && AIDX(o) < AIDX(o.Children[j]) && AIDX(o.Children[j]) < AN()
def treeOK() := (forall o: *Account {o.Children} :: ACC(o) ==> o > 0 && allocated(o) && AIDX(o) >= 0 && len(o.Children) == CHN(o))
  && (forall o: *Account, j: int {o.Children[j]} :: ACC(o) && 0 <= j < len(o.Children) ==> childOK(o, j))

// the k-th of the list is in its place, and its children too
def placed(E, w, k) := ACC(at(E,w,k)) && at(E,w,k) > 0 && ABS(at(E,w,k)) == k
def closed(E, w, k) := forall j: int {CH(at(E,w,k),j)} :: 0 <= j < CHN(at(E,w,k)) ==> k < ABS(CH(at(E,w,k),j)) && ABS(CH(at(E,w,k),j)) < len(w) && at(E,w,ABS(CH(at(E,w,k),j))) == CH(at(E,w,k),j)
def accKept(w) := forall a: int, o: int, i: int {atr(mem(*Account),a,o,i)} :: a < old(alloc) && (a != arr(w) || i < len(w)) ==> atr(mem(*Account),a,o,i) == old(atr(mem(*Account),a,o,i))

func insertAccount
  props P01 P02 P03 P04 P05 P06 P07 P12
  requires tree: treeOK()
  requires account: ACC(account) && account > 0 && AIDX(account) < AN()
  requires place: len(*where) == ABS(account)
  requires apart: forall o: *Account {o.Children} :: ACC(o) ==> arr(o.Children) != arr(*where) || arr(*where) == 0
  modifies *where, mem(*Account)
  decreases AN() - AIDX(account)
  ensures size: len(*where) == old(len(*where)) + SZ(account)
  ensures array: arr(*where) == old(arr(*where)) && off(*where) == old(off(*where)) || fresh(*where)
  ensures kept: forall i: int {(*where)[i]} :: 0 <= i < old(len(*where)) ==> (*where)[i] == old((*where)[i])
  ensures others: forall a: int, o: int, i: int {atr(mem(*Account),a,o,i)} :: a < old(alloc) && (a != old(arr(*where)) || a == 0) ==> atr(mem(*Account),a,o,i) == old(atr(mem(*Account),a,o,i))
  ensures self: (*where)[ABS(account)] == account
  ensures placed: forall k: int {(*where)[k]} :: old(len(*where)) <= k < len(*where) ==> placed(mem(*Account), *where, k)
  ensures closed: forall k: int {(*where)[k]} :: old(len(*where)) <= k < len(*where) ==> closed(mem(*Account), *where, k)
  inv 0 len(*where) == ABS(account) + 1 + SS(account, it(0))
  inv 0 array: arr(*where) == old(arr(*where)) && off(*where) == old(off(*where)) || fresh(*where)
  inv 0 kept: forall i: int {(*where)[i]} :: 0 <= i < old(len(*where)) ==> (*where)[i] == old((*where)[i])
  inv 0 others: forall a: int, o: int, i: int {atr(mem(*Account),a,o,i)} :: a < old(alloc) && (a != old(arr(*where)) || a == 0) ==> atr(mem(*Account),a,o,i) == old(atr(mem(*Account),a,o,i))
  inv 0 self: (*where)[ABS(account)] == account
  inv 0 placed: forall k: int {(*where)[k]} :: old(len(*where)) <= k < len(*where) ==> placed(mem(*Account), *where, k)
  inv 0 closed: forall k: int {(*where)[k]} :: old(len(*where)) < k < len(*where) ==> closed(mem(*Account), *where, k)
  inv 0 children: forall j: int {CH(account,j)} :: 0 <= j < it(0) ==> ABS(account) < ABS(CH(account,j)) && ABS(CH(account,j)) < len(*where) && (*where)[ABS(CH(account,j))] == CH(account,j)
  hint loop 0 back: use SSone(account, it(0))
  hint loop 0 body: use SSpos(account, it(0))
  hint loop 0 back: use SSpos(rs(0)[it(0)-1], CHN(rs(0)[it(0)-1]))

lemma ROOTSstep(n: int)
  requires n > 0
  ensures ROOTS(n) == ROOTS(n-1) + ite(PAR(LACC(n-1)) == nil, SZ(LACC(n-1)), 0)

lemma CNTPstep(p: *Account, n: int)
  requires n > 0
  ensures CNTP(p,n) == CNTP(p,n-1) + ite(PAR(LACC(n-1)) == p, 1, 0)

lemma CNTPpos(p: *Account, n: int)
  requires true
  ensures CNTP(p,n) >= 0
  induct n
  use CNTPstep(p, n)

lemma CNTPmono(p: *Account, m: int, n: int)
  requires 0 <= m <= n
  ensures 0 <= CNTP(p,m) && CNTP(p,m) <= CNTP(p,n)
  induct n
  use CNTPstep(p, n)
  use CNTPpos(p, m)

// every account of the list has a place
def held(E, a, o, w, x) := 0 <= ABS(x) && ABS(x) < w && atr(E,a,o,ABS(x)) == x
lemma cover(E: mem(*Account), a: int, o: int, w: int, n: int)
  requires n <= AN()
  requires forall i: int {LACC(i)} :: 0 <= i < AN() ==> PAR(LACC(i)) != nil ==> 0 <= AIDX(PAR(LACC(i))) && AIDX(PAR(LACC(i))) < i && LACC(AIDX(PAR(LACC(i)))) == PAR(LACC(i))
  requires forall i: int {LACC(i)} :: 0 <= i < AN() && PAR(LACC(i)) == nil ==> held(E,a,o,w,LACC(i))
  requires forall i: int {LACC(i)} :: 0 <= i < AN() && PAR(LACC(i)) != nil && held(E,a,o,w,PAR(LACC(i))) ==> held(E,a,o,w,LACC(i))
  ensures forall i: int {LACC(i)} :: 0 <= i < n ==> held(E,a,o,w,LACC(i))
  induct n

// FN: the full name of an account, from the names of its first ancestors
fun FN(P: heap(Account.Parent), N: heap(Account.Name), a: *Account): string
axiom FN := forall P: heap(Account.Parent), N: heap(Account.Name), a: *Account {FN(P,N,a)} :: PAR(a) == P[a] && (P[a] == nil || (ACC(P[a]) && 0 <= AIDX(P[a]) && AIDX(P[a]) < AIDX(a))) ==> FN(P,N,a) == ite(P[a] == nil, N[a], (FN(P,N,P[a]) + ":") + N[a])
def fullName(a) := FN(heap(Account.Parent), heap(Account.Name), a)
def rooted(a) := PAR(a) == a.Parent && (a.Parent == nil || (ACC(a.Parent) && 0 <= AIDX(a.Parent) && AIDX(a.Parent) < AIDX(a)))

func (Account).FullName
  props P01 P02 P03 P04 P05 P06 P07 P12 P16 P17 P18 P21 P22
  requires @P01,P02,P03,P04,P05,P06,P07,P12,P16,P22 up: forall o: *Account {o.Parent} :: ACC(o) ==> o > 0 && allocated(o) && AIDX(o) >= 0 && rooted(o)
  requires @P01,P02,P03,P04,P05,P06,P07,P12,P16,P22 here: a.Parent == nil || ACC(a.Parent)
  requires @P17,P18,P21 base: 0 < BASE()
  requires @P17,P18,P21 older: older()
  requires @P17,P18,P21 parent: a.Parent == nil || BASE() <= a.Parent
  decreases @P17,P18,P21 a.Parent
  decreases @P01,P02,P03,P04,P05,P06,P07,P12,P16,P22 ite(a.Parent == nil, 0, 1 + AIDX(a.Parent))
  ensures @P01,P02,P03,P04,P05,P06,P07,P12,P16,P22 name: result == ite(a.Parent == nil, a.Name, (fullName(a.Parent) + ":") + a.Name)
  pure ite(a.Parent == nil, a.Name, (JN(heap(Account.Parent), heap(Account.Name), a.Parent) + ":") + a.Name)
  ensures @P18,P21 name: result == ite(a.Parent == nil, a.Name, (JN(heap(Account.Parent), heap(Account.Name), a.Parent) + ":") + a.Name)
  ensures @P21 older: older()
