package github.com/cespedes/accounting

// SUM: amount of currency c in the first n values of the slice at offset o of array a
// (E is the memory which holds the values).
fun SUM(E: mem(Value), a: int, o: int, n: int, c: *Currency): int
axiom SUM := forall E: mem(Value), a: int, o: int, n: int, c: *Currency {SUM(E,a,o,n,c)} :: n <= 0 ==> SUM(E,a,o,n,c) == 0
axiom SUM step := forall E: mem(Value), a: int, o: int, n: int, m: int, c: *Currency {SUM(E,a,o,n,c), atr(E,a,o,m)} :: n == m+1 && m >= 0
   ==> SUM(E,a,o,n,c) == SUM(E,a,o,m,c) + part(atr(E,a,o,m), c)

def part(v, c) := ite(v.Currency == c, v.Amount, 0)
def balIn(E, b, c) := SUM(E, arr(b), off(b), len(b), c)
def bal(b, c) := balIn(mem(Value), b, c)

// a balance: at most one value for each currency, none of them zero.
def nodup(E, b) := forall i: int, j: int {at(E,b,i), at(E,b,j)} :: 0 <= i && i < j && j < len(b) ==> at(E,b,i).Currency != at(E,b,j).Currency
def nozero(E, b) := forall i: int {at(E,b,i)} :: 0 <= i < len(b) ==> at(E,b,i).Amount != 0
def wfBal(b) := nodup(mem(Value), b) && nozero(mem(Value), b)

lemma SUMstep(E: mem(Value), a: int, o: int, n: int, c: *Currency)
  requires n > 0
  ensures SUM(E,a,o,n,c) == SUM(E,a,o,n-1,c) + part(atr(E,a,o,n-1), c)

lemma SUMeq(E1: mem(Value), a1: int, o1: int, E2: mem(Value), a2: int, o2: int, n: int, c: *Currency)
  requires forall i: int {atr(E1,a1,o1,i)} {atr(E2,a2,o2,i)} :: 0 <= i < n ==> atr(E1,a1,o1,i) == atr(E2,a2,o2,i)
  ensures SUM(E1,a1,o1,n,c) == SUM(E2,a2,o2,n,c)
  induct n
  use SUMstep(E1,a1,o1,n,c)
  use SUMstep(E2,a2,o2,n,c)

// one value changes
lemma SUMupd(E1: mem(Value), E2: mem(Value), a: int, o: int, n: int, k: int, c: *Currency)
  requires 0 <= k
  requires forall i: int {atr(E1,a,o,i)} {atr(E2,a,o,i)} :: 0 <= i < n && i != k ==> atr(E1,a,o,i) == atr(E2,a,o,i)
  ensures SUM(E2,a,o,n,c) == SUM(E1,a,o,n,c) + ite(k < n, part(atr(E2,a,o,k),c) - part(atr(E1,a,o,k),c), 0)
  induct n
  use SUMstep(E1,a,o,n,c)
  use SUMstep(E2,a,o,n,c)

lemma SUMnone(E: mem(Value), a: int, o: int, n: int, c: *Currency)
  requires forall i: int {atr(E,a,o,i)} :: 0 <= i < n ==> atr(E,a,o,i).Currency != c
  ensures SUM(E,a,o,n,c) == 0
  induct n
  use SUMstep(E,a,o,n,c)

// what the balance says about a currency is its amount
lemma SUMhas(E: mem(Value), a: int, o: int, n: int, k: int, c: *Currency)
  requires 0 <= k < n
  requires atr(E,a,o,k).Currency == c
  requires forall i: int {atr(E,a,o,i)} :: 0 <= i < n && i != k ==> atr(E,a,o,i).Currency != c
  ensures SUM(E,a,o,n,c) == atr(E,a,o,k).Amount
  induct n
  use SUMstep(E,a,o,n,c)
  use SUMnone(E,a,o,n-1,c)

// other arrays are not touched
def othersKept(b) := forall a: int, o: int, i: int {atr(mem(Value),a,o,i)} :: a < old(alloc) && (a != arr(b) || a == 0) ==> atr(mem(Value),a,o,i) == old(atr(mem(Value),a,o,i))

def sumsKept(b) := forall a: int, o: int, n: int, c: *Currency {SUM(mem(Value),a,o,n,c)} :: a < old(alloc) && (a != arr(b) || a == 0) ==> SUM(mem(Value),a,o,n,c) == old(SUM(mem(Value),a,o,n,c))

def goodCur(c) := c > 0 && 0 <= c.Precision <= 8
def goodCurs(b) := forall j: int {at(mem(Value),b,j)} :: 0 <= j < len(b) ==> goodCur(at(mem(Value),b,j).Currency)
// the amounts fit in 64 bits
def inRange(b) := forall j: int {at(mem(Value),b,j)} :: 0 <= j < len(b) ==> -9223372036854775808 <= at(mem(Value),b,j).Amount && at(mem(Value),b,j).Amount <= 9223372036854775807

func (*Balance).Add
  props P08 P16
  modifies *b, mem(Value)
  ensures sum: forall c: *Currency {bal(*b, c)} {SUM(old(mem(Value)),old(arr(*b)),old(off(*b)),old(len(*b)),c)} :: bal(*b, c) == old(bal(*b, c)) + part(v, c)
  ensures wf: old(wfBal(*b)) ==> wfBal(*b)
  ensures array: arr(*b) == old(arr(*b)) || fresh(*b)
  ensures others: othersKept(old(*b))
  ensures sums: sumsKept(old(*b))
  // a value in a new currency goes after the others
  ensures @P16 zero: v.Amount == 0 ==> *b == old(*b) && forall j: int {at(mem(Value),*b,j)} :: 0 <= j < len(*b) ==> at(mem(Value),*b,j) == old(at(mem(Value),*b,j))
  ensures @P16 appended: v.Amount != 0 && (forall j: int {old(at(mem(Value),*b,j))} :: 0 <= j < old(len(*b)) ==> old(at(mem(Value),*b,j)).Currency != v.Currency) ==> len(*b) == old(len(*b)) + 1 && at(mem(Value),*b,old(len(*b))) == v
     && (forall j: int {at(mem(Value),*b,j)} :: 0 <= j < old(len(*b)) ==> at(mem(Value),*b,j) == old(at(mem(Value),*b,j)))
  ensures @P16 currencies: goodCur(v.Currency) && old(goodCurs(*b)) ==> goodCurs(*b)
  assumes @P16 fits: -9223372036854775808 <= v.Amount <= 9223372036854775807 && old(inRange(*b)) ==> inRange(*b)
  inv 0 forall j: int {at(mem(Value),*b,j)} :: 0 <= j < it(0) ==> at(mem(Value),*b,j).Currency != v.Currency
  hint return: use forall c: *Currency {bal(*b, c)} :: SUMupd(old(mem(Value)), mem(Value), old(arr(*b)), old(off(*b)), old(len(*b)), i, c)
  hint return: use forall c: *Currency {bal(*b, c)} :: SUMstep(mem(Value), old(arr(*b)), old(off(*b)), old(len(*b)), c)
  hint return: use forall c: *Currency {bal(*b, c)} :: SUMeq(old(mem(Value)), old(arr(*b)), old(off(*b)), mem(Value), arr(*b), off(*b), old(len(*b)), c)
  hint return: use forall a: int, o: int, n: int, c: *Currency {SUM(mem(Value),a,o,n,c)} :: SUMeq(old(mem(Value)), a, o, mem(Value), a, o, n, c)

func (*Balance).Sub
  props P08
  modifies *b, mem(Value)
  ensures sum: forall c: *Currency {bal(*b, c)} {SUM(old(mem(Value)),old(arr(*b)),old(off(*b)),old(len(*b)),c)} :: bal(*b, c) == old(bal(*b, c)) - part(v, c)
  ensures wf: old(wfBal(*b)) ==> wfBal(*b)
  ensures array: arr(*b) == old(arr(*b)) || fresh(*b)
  ensures others: othersKept(old(*b))
  ensures sums: sumsKept(old(*b))
  hint return: use forall a: int, o: int, n: int, c: *Currency {SUM(mem(Value),a,o,n,c)} :: SUMeq(old(mem(Value)), a, o, mem(Value), a, o, n, c)

func (*Balance).AddBalance
  props P08
  requires apart: arr(b2) != arr(*b) || arr(b2) == 0
  modifies *b, mem(Value)
  ensures sum: forall c: *Currency {bal(*b, c)} {SUM(old(mem(Value)),old(arr(*b)),old(off(*b)),old(len(*b)),c)} :: bal(*b, c) == old(bal(*b, c)) + old(bal(b2, c))
  ensures wf: old(wfBal(*b)) ==> wfBal(*b)
  ensures array: arr(*b) == old(arr(*b)) || fresh(*b)
  ensures others: othersKept(old(*b))
  ensures sums: sumsKept(old(*b))
  inv 0 forall c: *Currency {bal(*b, c)} {SUM(old(mem(Value)),old(arr(*b)),old(off(*b)),old(len(*b)),c)} :: bal(*b, c) == old(bal(*b, c)) + SUM(old(mem(Value)), arr(b2), off(b2), it(0), c)
  inv 0 old(wfBal(*b)) ==> wfBal(*b)
  inv 0 arr(*b) == old(arr(*b)) || fresh(*b)
  inv 0 othersKept(old(*b))
  hint loop 0 back: use forall c: *Currency {bal(*b, c)} :: SUMstep(old(mem(Value)), arr(b2), off(b2), it(0), c)
  hint return: use forall a: int, o: int, n: int, c: *Currency {SUM(mem(Value),a,o,n,c)} :: SUMeq(old(mem(Value)), a, o, mem(Value), a, o, n, c)

func (*Balance).SubBalance
  props P08
  requires apart: arr(b2) != arr(*b) || arr(b2) == 0
  modifies *b, mem(Value)
  ensures sum: forall c: *Currency {bal(*b, c)} {SUM(old(mem(Value)),old(arr(*b)),old(off(*b)),old(len(*b)),c)} :: bal(*b, c) == old(bal(*b, c)) - old(bal(b2, c))
  ensures wf: old(wfBal(*b)) ==> wfBal(*b)
  ensures array: arr(*b) == old(arr(*b)) || fresh(*b)
  ensures others: othersKept(old(*b))
  ensures sums: sumsKept(old(*b))
  inv 0 forall c: *Currency {bal(*b, c)} {SUM(old(mem(Value)),old(arr(*b)),old(off(*b)),old(len(*b)),c)} :: bal(*b, c) == old(bal(*b, c)) - SUM(old(mem(Value)), arr(b2), off(b2), it(0), c)
  inv 0 old(wfBal(*b)) ==> wfBal(*b)
  inv 0 arr(*b) == old(arr(*b)) || fresh(*b)
  inv 0 othersKept(old(*b))
  hint loop 0 back: use forall c: *Currency {bal(*b, c)} :: SUMstep(old(mem(Value)), arr(b2), off(b2), it(0), c)
  hint return: use forall a: int, o: int, n: int, c: *Currency {SUM(mem(Value),a,o,n,c)} :: SUMeq(old(mem(Value)), a, o, mem(Value), a, o, n, c)

func (Balance).Dup
  props P08
  modifies fresh mem(Value)
  ensures sum: forall c: *Currency {bal(result, c)} :: bal(result, c) == old(bal(b, c))
  ensures wf: wfBal(result)
  ensures array: fresh(result)
  ensures sums: forall a: int, o: int, n: int, c: *Currency {SUM(mem(Value),a,o,n,c)} :: a < old(alloc) ==> SUM(mem(Value),a,o,n,c) == old(SUM(mem(Value),a,o,n,c))
  inv 0 forall c: *Currency {bal(res, c)} :: bal(res, c) == SUM(old(mem(Value)), arr(b), off(b), it(0), c)
  inv 0 wfBal(res)
  inv 0 fresh(res)
  hint loop 0 back: use forall c: *Currency {bal(res, c)} :: SUMstep(old(mem(Value)), arr(b), off(b), it(0), c)
  hint return: use forall a: int, o: int, n: int, c: *Currency {SUM(mem(Value),a,o,n,c)} :: SUMeq(old(mem(Value)), a, o, mem(Value), a, o, n, c)
