package github.com/cespedes/accounting

// ---- conversion of values (P11)

func (*Value).Mul
  props P11
  modifies *value, bigint
  ensures product: (*value).Amount == div(old((*value).Amount) * v2.Amount, 100000000)
  ensures currency: (*value).Currency == old((*value).Currency)

def priced(l) := forall i: int {l.Prices[i]} :: 0 <= i < len(l.Prices) ==> l.Prices[i] > 0 && l.Prices[i].Time != zeroTime
def pricesSorted(l) := forall i: int, j: int {l.Prices[i], l.Prices[j]} :: 0 <= i < j && j < len(l.Prices) ==> inst(l.Prices[i].Time) <= inst(l.Prices[j].Time)
// direct price from a currency to another
def direct(l, i, from, to) := l.Prices[i].Currency == from && l.Prices[i].Value.Currency == to
def pinst(l, i) := inst(l.Prices[i].Time)
def times(p, v) := div(p * v, 100000000)
// price between two, at a moment
def between(l, i, j, when) := quo((l.Prices[j].Value.Amount - l.Prices[i].Value.Amount) * (inst(when) - pinst(l,i)), pinst(l,j) - pinst(l,i)) + l.Prices[i].Value.Amount

func currencyIn
  props P11
  ensures result <==> (exists i: int {list[i]} :: 0 <= i < len(list) && list[i] == currency)
  inv 0 forall i: int {list[i]} :: 0 <= i < it(0) ==> list[i] != currency

// number of prices (of the first n) whose currency has not been visited: it decreases in each step
fun CNTV(E: mem(*Price), H: heap(Price.Value), EC: mem(*Currency), a: int, o: int, n: int, va: int, vo: int, vn: int, c: *Currency): int
def vis(EC, va, vo, vn, c, x) := x == c || (exists k: int {atr(EC,va,vo,k)} :: 0 <= k < vn && atr(EC,va,vo,k) == x)
axiom CNTV := forall E: mem(*Price), H: heap(Price.Value), EC: mem(*Currency), a: int, o: int, n: int, va: int, vo: int, vn: int, c: *Currency {CNTV(E,H,EC,a,o,n,va,vo,vn,c)} ::
  n <= 0 ==> CNTV(E,H,EC,a,o,n,va,vo,vn,c) == 0
axiom CNTV step := forall E: mem(*Price), H: heap(Price.Value), EC: mem(*Currency), a: int, o: int, n: int, m: int, va: int, vo: int, vn: int, c: *Currency {CNTV(E,H,EC,a,o,n,va,vo,vn,c), atr(E,a,o,m)} ::
  n == m+1 && m >= 0 ==> CNTV(E,H,EC,a,o,n,va,vo,vn,c) == CNTV(E,H,EC,a,o,m,va,vo,vn,c) + ite(vis(EC,va,vo,vn,c,H[atr(E,a,o,m)].Currency), 0, 1)

lemma CNTVstep(E: mem(*Price), H: heap(Price.Value), EC: mem(*Currency), a: int, o: int, n: int, va: int, vo: int, vn: int, c: *Currency)
  requires n > 0
  ensures CNTV(E,H,EC,a,o,n,va,vo,vn,c) == CNTV(E,H,EC,a,o,n-1,va,vo,vn,c) + ite(vis(EC,va,vo,vn,c,H[atr(E,a,o,n-1)].Currency), 0, 1)

// a larger set of visited currencies
lemma CNTVless(E: mem(*Price), H: heap(Price.Value), EC: mem(*Currency), a: int, o: int, n: int, va: int, vo: int, vn: int, c: *Currency, EC2: mem(*Currency), va2: int, vo2: int, vn2: int, c2: *Currency)
  requires forall i: int {atr(E,a,o,i)} :: 0 <= i < n && vis(EC,va,vo,vn,c,H[atr(E,a,o,i)].Currency) ==> vis(EC2,va2,vo2,vn2,c2,H[atr(E,a,o,i)].Currency)
  ensures CNTV(E,H,EC2,a,o,n,va2,vo2,vn2,c2) <= CNTV(E,H,EC,a,o,n,va,vo,vn,c)
  ensures forall k: int {atr(E,a,o,k)} :: 0 <= k < n && !vis(EC,va,vo,vn,c,H[atr(E,a,o,k)].Currency) && vis(EC2,va2,vo2,vn2,c2,H[atr(E,a,o,k)].Currency) ==> CNTV(E,H,EC2,a,o,n,va2,vo2,vn2,c2) < CNTV(E,H,EC,a,o,n,va,vo,vn,c)
  ensures CNTV(E,H,EC,a,o,n,va,vo,vn,c) >= 0
  induct n
  use CNTVstep(E,H,EC,a,o,n,va,vo,vn,c)
  use CNTVstep(E,H,EC2,a,o,n,va2,vo2,vn2,c2)

func (*Ledger).convert
  props P11
  requires ledger: l > 0 && priced(l) && pricesSorted(l)
  requires target: currency > 0 || v.Currency == currency || (exists i: int {l.Prices[i]} :: 0 <= i < len(l.Prices) && direct(l, i, v.Currency, currency))
  modifies mem(*Currency), bigint
  decreases CNTV(mem(*Price), heap(Price.Value), mem(*Currency), arr(l.Prices), off(l.Prices), len(l.Prices), arr(visited), off(visited), len(visited), v.Currency)
  ensures same: v.Currency == currency ==> result == v && result1 == nil
  ensures currency: result1 == nil ==> result.Currency == currency
  ensures exact: v.Currency != currency ==> forall i: int {l.Prices[i]} :: 0 <= i < len(l.Prices) && direct(l, i, v.Currency, currency) && pinst(l,i) == inst(when)
     && (forall j: int {l.Prices[j]} :: 0 <= j < i && direct(l, j, v.Currency, currency) ==> pinst(l,j) < inst(when))
     ==> result1 == nil && result.Amount == times(l.Prices[i].Value.Amount, v.Amount)
  ensures between: v.Currency != currency ==> forall i: int, j: int {l.Prices[i], l.Prices[j]} :: 0 <= i < j && j < len(l.Prices) && direct(l, i, v.Currency, currency) && direct(l, j, v.Currency, currency)
     && pinst(l,i) < inst(when) && inst(when) < pinst(l,j) && pinst(l,j) - pinst(l,i) <= 9223372036854775807
     && (forall k: int {l.Prices[k]} :: i < k < j ==> !direct(l, k, v.Currency, currency))
     ==> result1 == nil && result.Amount == times(between(l, i, j, when), v.Amount)
  ensures later: v.Currency != currency ==> forall i: int {l.Prices[i]} :: 0 <= i < len(l.Prices) && direct(l, i, v.Currency, currency) && pinst(l,i) > inst(when)
     && (forall j: int {l.Prices[j]} :: 0 <= j < i ==> !direct(l, j, v.Currency, currency))
     ==> result1 == nil && result.Amount == times(l.Prices[i].Value.Amount, v.Amount)
  ensures earlier: v.Currency != currency ==> forall i: int {l.Prices[i]} :: 0 <= i < len(l.Prices) && direct(l, i, v.Currency, currency) && pinst(l,i) < inst(when)
     && (forall j: int {l.Prices[j]} :: i < j < len(l.Prices) ==> !direct(l, j, v.Currency, currency))
     ==> result1 == nil && result.Amount == times(l.Prices[i].Value.Amount, v.Amount)
  ensures chain: forall R: set(*Currency) {R[v.Currency]} :: R[v.Currency] && (forall i: int {l.Prices[i]} :: 0 <= i < len(l.Prices) && R[l.Prices[i].Currency] ==> R[l.Prices[i].Value.Currency]) && result1 == nil ==> R[currency]
  ensures frame: forall a: int, o: int, i: int {atr(mem(*Currency),a,o,i)} :: a < old(alloc) && (a != arr(visited) || a == 0 || o+i < off(visited) + len(visited)) ==> atr(mem(*Currency),a,o,i) == old(atr(mem(*Currency),a,o,i))
  hint call (*Ledger).convert 0 before: assert forall k: int {at(old(mem(*Currency)), visited, k)} :: 0 <= k < len(visited) ==> at(mem(*Currency), arg4, k) == at(old(mem(*Currency)), visited, k)
  hint call (*Ledger).convert 0 before: assert len(arg4) == len(visited) + 1
  hint call (*Ledger).convert 1 before: assert arg4[len(visited)] == prevValue.Currency && arg1 == v
  hint call (*Ledger).convert 2 before: assert arg4[len(visited)] == v.Currency && arg1.Currency == prevValue.Currency
  hint call (*Ledger).convert 0 before: use CNTVless(mem(*Price), heap(Price.Value), old(mem(*Currency)), arr(l.Prices), off(l.Prices), len(l.Prices), arr(visited), off(visited), len(visited), v.Currency, mem(*Currency), arr(arg4), off(arg4), len(arg4), arg1.Currency)
  inv 0 nextTime == zeroTime
  inv 0 forall j: int {l.Prices[j]} :: 0 <= j < it(0) && direct(l, j, v.Currency, currency) ==> pinst(l,j) < inst(when)
  inv 0 prevTime == zeroTime ==> forall j: int {l.Prices[j]} :: 0 <= j < it(0) ==> !direct(l, j, v.Currency, currency)
  inv 0 prevTime != zeroTime ==> exists j: int {l.Prices[j]} :: 0 <= j < it(0) && direct(l, j, v.Currency, currency) && prevTime == l.Prices[j].Time && prevValue == l.Prices[j].Value
     && (forall k: int {l.Prices[k]} :: j < k < it(0) ==> !direct(l, k, v.Currency, currency))
  inv 1 prevTime != zeroTime ==> exists j: int {l.Prices[j]} :: 0 <= j < len(l.Prices) && prevValue == l.Prices[j].Value && l.Prices[j].Currency == v.Currency && prevValue.Currency != v.Currency
     && !(exists k: int {visited[k]} :: 0 <= k < len(visited) && visited[k] == prevValue.Currency)

// MV: the amount which Convert gives, for the balance report
fun MV(l: *Ledger, v: Value, when: time.Time, c: *Currency): int

func (*Ledger).Convert
  props P11 P16
  requires ledger: l > 0 && priced(l) && pricesSorted(l)
  modifies fresh mem(*Currency), bigint
  assumes @P16 deterministic: result1 == nil ==> result.Amount == MV(l, v, when, currency) && -9223372036854775808 <= result.Amount && result.Amount <= 9223372036854775807
  ensures none: currency == nil && v.Currency != nil ==> result == v && result1 != nil
  ensures same: v.Currency == currency ==> result == v && result1 == nil
  ensures currency: result1 == nil ==> result.Currency == currency
  ensures exact: currency > 0 && v.Currency != currency ==> forall i: int {l.Prices[i]} :: 0 <= i < len(l.Prices) && direct(l, i, v.Currency, currency) && pinst(l,i) == inst(when)
     && (forall j: int {l.Prices[j]} :: 0 <= j < i && direct(l, j, v.Currency, currency) ==> pinst(l,j) < inst(when))
     ==> result1 == nil && result.Amount == times(l.Prices[i].Value.Amount, v.Amount)
  ensures between: currency > 0 && v.Currency != currency ==> forall i: int, j: int {l.Prices[i], l.Prices[j]} :: 0 <= i < j && j < len(l.Prices) && direct(l, i, v.Currency, currency) && direct(l, j, v.Currency, currency)
     && pinst(l,i) < inst(when) && inst(when) < pinst(l,j) && pinst(l,j) - pinst(l,i) <= 9223372036854775807
     && (forall k: int {l.Prices[k]} :: i < k < j ==> !direct(l, k, v.Currency, currency))
     ==> result1 == nil && result.Amount == times(between(l, i, j, when), v.Amount)
  ensures later: currency > 0 && v.Currency != currency ==> forall i: int {l.Prices[i]} :: 0 <= i < len(l.Prices) && direct(l, i, v.Currency, currency) && pinst(l,i) > inst(when)
     && (forall j: int {l.Prices[j]} :: 0 <= j < i ==> !direct(l, j, v.Currency, currency))
     ==> result1 == nil && result.Amount == times(l.Prices[i].Value.Amount, v.Amount)
  ensures earlier: currency > 0 && v.Currency != currency ==> forall i: int {l.Prices[i]} :: 0 <= i < len(l.Prices) && direct(l, i, v.Currency, currency) && pinst(l,i) < inst(when)
     && (forall j: int {l.Prices[j]} :: i < j < len(l.Prices) ==> !direct(l, j, v.Currency, currency))
     ==> result1 == nil && result.Amount == times(l.Prices[i].Value.Amount, v.Amount)
  ensures chain: forall R: set(*Currency) {R[v.Currency]} :: R[v.Currency] && (forall i: int {l.Prices[i]} :: 0 <= i < len(l.Prices) && R[l.Prices[i].Currency] ==> R[l.Prices[i].Value.Currency]) && result1 == nil ==> R[currency]
