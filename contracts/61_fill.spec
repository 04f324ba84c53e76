package github.com/cespedes/accounting

// ---- Fill: the automatic fields of a ledger

// The transactions of a ledger, when Fill begins (TRX, TIDX, LTR, TN: as for the accounts), and
// their postings: OSP is the one at a place, and SPL tells those which are not of the transfer account
// (STR is the transaction of each, SIDX its place there).
fun TRX(t: *Transaction): bool
fun TIDX(t: *Transaction): int
fun LTR(i: int): *Transaction
fun TN(): int
fun SPL(s: *Split): bool
fun STR(s: *Split): *Transaction
fun SIDX(s: *Split): int
fun OSP(t: *Transaction, j: int): *Split
// NSP: how many of the first n postings are not of the transfer account
fun NSP(t: *Transaction, n: int): int
axiom NSP := forall t: *Transaction, n: int {NSP(t,n)} :: n <= 0 ==> NSP(t,n) == 0
axiom NSP step := forall t: *Transaction, n: int, m: int {NSP(t,n), OSP(t,m)} :: n == m+1 && m >= 0 ==> NSP(t,n) == NSP(t,m) + ite(SPL(OSP(t,m)), 1, 0)
lemma NSPstep(t: *Transaction, n: int)
  requires n > 0
  ensures NSP(t,n) == NSP(t,n-1) + ite(SPL(OSP(t,n-1)), 1, 0)
// place of a posting among those
def PIX(s) := NSP(STR(s), SIDX(s))
// place of a transaction in chronological order (the first sort)
def POS(t) := permat(0, TIDX(t))
// the k-th of them
fun FSP(t: *Transaction, k: int): *Split
// stated total price of a posting
fun HASP(s: *Split): bool
fun PRV(s: *Split): Value
// what a posting counts for in its transaction (H holds the values of the postings)
def weight(H, s) := ite(HASP(s), PRV(s), H[s])
// WS: total of the first n postings of a transaction in a currency
fun WS(H: heap(Split.Value), t: *Transaction, n: int, c: *Currency): int
axiom WS := forall H: heap(Split.Value), t: *Transaction, n: int, c: *Currency {WS(H,t,n,c)} :: n <= 0 ==> WS(H,t,n,c) == 0
axiom WS step := forall H: heap(Split.Value), t: *Transaction, n: int, m: int, c: *Currency {WS(H,t,n,c), FSP(t,m)} :: n == m+1 && m >= 0 ==> WS(H,t,n,c) == WS(H,t,m,c) + part(weight(H,FSP(t,m)), c)
lemma WSstep(H: heap(Split.Value), t: *Transaction, n: int, c: *Currency)
  requires n > 0
  ensures WS(H,t,n,c) == WS(H,t,n-1,c) + part(weight(H,FSP(t,n-1)), c)
lemma WSeq(H1: heap(Split.Value), H2: heap(Split.Value), t: *Transaction, n: int, c: *Currency)
  requires forall k: int {FSP(t,k)} :: 0 <= k < n ==> weight(H1,FSP(t,k)) == weight(H2,FSP(t,k))
  ensures WS(H1,t,n,c) == WS(H2,t,n,c)
  induct n
  use WSstep(H1,t,n,c)
  use WSstep(H2,t,n,c)
lemma WSupd(H1: heap(Split.Value), H2: heap(Split.Value), t: *Transaction, n: int, i: int, c: *Currency)
  requires 0 <= i
  requires forall k: int {FSP(t,k)} :: 0 <= k < n && k != i ==> weight(H1,FSP(t,k)) == weight(H2,FSP(t,k))
  ensures WS(H2,t,n,c) == WS(H1,t,n,c) + ite(i < n, part(weight(H2,FSP(t,i)), c) - part(weight(H1,FSP(t,i)), c), 0)
  induct n
  use WSstep(H1,t,n,c)
  use WSstep(H2,t,n,c)
// nothing left, or two currencies
def most2(H, t, n) := forall c: *Currency, d: *Currency, e: *Currency {WS(H,t,n,c), WS(H,t,n,d), WS(H,t,n,e)} :: c != d && d != e && c != e ==> WS(H,t,n,c) == 0 || WS(H,t,n,d) == 0 || WS(H,t,n,e) == 0
def notone(H, t, n) := forall c: *Currency {WS(H,t,n,c)} :: WS(H,t,n,c) != 0 ==> (exists d: *Currency {WS(H,t,n,d)} :: d != c && WS(H,t,n,d) != 0)
// (only inside Fill: the number of those of a transaction)
def NT(t) := NSP(t, old(len(t.Splits)))
// neither amount nor assertion
def noamount(s) := old(s.Value.Currency) == nil && l.Assertions[s].Currency == nil
// RS: total of the first n postings of a register in a currency
fun RS(E: mem(*Split), H: heap(Split.Value), a: int, o: int, n: int, c: *Currency): int
axiom RS := forall E: mem(*Split), H: heap(Split.Value), a: int, o: int, n: int, c: *Currency {RS(E,H,a,o,n,c)} :: n <= 0 ==> RS(E,H,a,o,n,c) == 0
axiom RS step := forall E: mem(*Split), H: heap(Split.Value), a: int, o: int, n: int, m: int, c: *Currency {RS(E,H,a,o,n,c), atr(E,a,o,m)} :: n == m+1 && m >= 0
   ==> RS(E,H,a,o,n,c) == RS(E,H,a,o,m,c) + part(H[atr(E,a,o,m)], c)
lemma RSstep(E: mem(*Split), H: heap(Split.Value), a: int, o: int, n: int, c: *Currency)
  requires n > 0
  ensures RS(E,H,a,o,n,c) == RS(E,H,a,o,n-1,c) + part(H[atr(E,a,o,n-1)], c)
lemma RSeq(E1: mem(*Split), H1: heap(Split.Value), E2: mem(*Split), H2: heap(Split.Value), a: int, o: int, n: int, c: *Currency)
  requires forall i: int {atr(E1,a,o,i)} {atr(E2,a,o,i)} :: 0 <= i < n ==> atr(E1,a,o,i) == atr(E2,a,o,i) && H1[atr(E1,a,o,i)] == H2[atr(E1,a,o,i)]
  ensures RS(E1,H1,a,o,n,c) == RS(E2,H2,a,o,n,c)
  induct n
  use RSstep(E1,H1,a,o,n,c)
  use RSstep(E2,H2,a,o,n,c)
def reg(E, H, o, n, c) := RS(E, H, arr(o.Splits), off(o.Splits), n, c)
// balances do not share memory
def notshared(s, u) := arr(s.Balance) == 0 || arr(s.Balance) != arr(u.Balance)
// order of the postings: that of their transactions, then that inside of them
def before(s, u) := POS(STR(s)) < POS(STR(u)) || (POS(STR(s)) == POS(STR(u)) && PIX(s) < PIX(u))
// chronological order; with the same date, that of the list of transactions
def chrono(s, u) := inst(*s.Time) <= inst(*u.Time) && (inst(*s.Time) == inst(*u.Time) ==> before(s, u))
// somewhere in the register of its account
def registered(s) := exists k: int {s.Account.Splits[k]} :: 0 <= k < len(s.Account.Splits) && s.Account.Splits[k] == s
// a posting of the transfer account is one of its transaction
def posted(s) := TRX(s.Transaction) && (exists k: int {s.Transaction.Splits[k]} :: NT(s.Transaction) <= k && k < len(s.Transaction.Splits) && s.Transaction.Splits[k] == s)
def transferred(s) := exists k: int {l.transferAccount.Splits[k]} :: 0 <= k < len(l.transferAccount.Splits) && l.transferAccount.Splits[k] == s
def nosl(s) := arr(s) == 0 && len(s) == 0
def empty0(s) := arr(s) == 0
def newsl(s) := arr(s) == 0 || fresh(s)

// P05: INST is the moment behind a reference to a time when Fill begins;
// DS, total in a currency of the first n postings of an array dated up to a moment
fun INST(p: *time.Time): int
fun DS(E: mem(*Split), H: heap(Split.Value), P: heap(Split.Time), a: int, o: int, n: int, m: int, c: *Currency): int
axiom DS := forall E: mem(*Split), H: heap(Split.Value), P: heap(Split.Time), a: int, o: int, n: int, m: int, c: *Currency {DS(E,H,P,a,o,n,m,c)} :: n <= 0 ==> DS(E,H,P,a,o,n,m,c) == 0
axiom DS step := forall E: mem(*Split), H: heap(Split.Value), P: heap(Split.Time), a: int, o: int, n: int, i: int, m: int, c: *Currency {DS(E,H,P,a,o,n,m,c), atr(E,a,o,i)} :: n == i+1 && i >= 0
   ==> DS(E,H,P,a,o,n,m,c) == DS(E,H,P,a,o,i,m,c) + ite(INST(P[atr(E,a,o,i)]) <= m, part(H[atr(E,a,o,i)], c), 0)
lemma DSstep(E: mem(*Split), H: heap(Split.Value), P: heap(Split.Time), a: int, o: int, n: int, m: int, c: *Currency)
  requires n > 0
  ensures DS(E,H,P,a,o,n,m,c) == DS(E,H,P,a,o,n-1,m,c) + ite(INST(P[atr(E,a,o,n-1)]) <= m, part(H[atr(E,a,o,n-1)], c), 0)
lemma DSeq(E1: mem(*Split), H1: heap(Split.Value), P1: heap(Split.Time), a1: int, o1: int, E2: mem(*Split), H2: heap(Split.Value), P2: heap(Split.Time), a2: int, o2: int, n: int, m: int, c: *Currency)
  requires forall i: int {atr(E1,a1,o1,i)} {atr(E2,a2,o2,i)} :: 0 <= i < n ==> H1[atr(E1,a1,o1,i)] == H2[atr(E2,a2,o2,i)] && P1[atr(E1,a1,o1,i)] == P2[atr(E2,a2,o2,i)]
  ensures DS(E1,H1,P1,a1,o1,n,m,c) == DS(E2,H2,P2,a2,o2,n,m,c)
  induct n
  use DSstep(E1,H1,P1,a1,o1,n,m,c)
  use DSstep(E2,H2,P2,a2,o2,n,m,c)
// FD and VS: of the first n postings given in a transaction, those dated up to a moment, and all
fun FD(H: heap(Split.Value), P: heap(Split.Time), t: *Transaction, n: int, m: int, c: *Currency): int
axiom FD := forall H: heap(Split.Value), P: heap(Split.Time), t: *Transaction, n: int, m: int, c: *Currency {FD(H,P,t,n,m,c)} :: n <= 0 ==> FD(H,P,t,n,m,c) == 0
axiom FD step := forall H: heap(Split.Value), P: heap(Split.Time), t: *Transaction, n: int, i: int, m: int, c: *Currency {FD(H,P,t,n,m,c), FSP(t,i)} :: n == i+1 && i >= 0
   ==> FD(H,P,t,n,m,c) == FD(H,P,t,i,m,c) + ite(INST(P[FSP(t,i)]) <= m, part(H[FSP(t,i)], c), 0)
lemma FDstep(H: heap(Split.Value), P: heap(Split.Time), t: *Transaction, n: int, m: int, c: *Currency)
  requires n > 0
  ensures FD(H,P,t,n,m,c) == FD(H,P,t,n-1,m,c) + ite(INST(P[FSP(t,n-1)]) <= m, part(H[FSP(t,n-1)], c), 0)
lemma DSFD(E: mem(*Split), H1: heap(Split.Value), P1: heap(Split.Time), a: int, o: int, H2: heap(Split.Value), P2: heap(Split.Time), t: *Transaction, n: int, m: int, c: *Currency)
  requires forall i: int {atr(E,a,o,i)} {FSP(t,i)} :: 0 <= i < n ==> H1[atr(E,a,o,i)] == H2[FSP(t,i)] && P1[atr(E,a,o,i)] == P2[FSP(t,i)]
  ensures DS(E,H1,P1,a,o,n,m,c) == FD(H2,P2,t,n,m,c)
  induct n
  use DSstep(E,H1,P1,a,o,n,m,c)
  use FDstep(H2,P2,t,n,m,c)
fun VS(H: heap(Split.Value), t: *Transaction, n: int, c: *Currency): int
axiom VS := forall H: heap(Split.Value), t: *Transaction, n: int, c: *Currency {VS(H,t,n,c)} :: n <= 0 ==> VS(H,t,n,c) == 0
axiom VS step := forall H: heap(Split.Value), t: *Transaction, n: int, i: int, c: *Currency {VS(H,t,n,c), FSP(t,i)} :: n == i+1 && i >= 0 ==> VS(H,t,n,c) == VS(H,t,i,c) + part(H[FSP(t,i)], c)
lemma VSstep(H: heap(Split.Value), t: *Transaction, n: int, c: *Currency)
  requires n > 0
  ensures VS(H,t,n,c) == VS(H,t,n-1,c) + part(H[FSP(t,n-1)], c)
lemma VSeq(H1: heap(Split.Value), H2: heap(Split.Value), t: *Transaction, n: int, c: *Currency)
  requires forall i: int {FSP(t,i)} :: 0 <= i < n ==> H1[FSP(t,i)] == H2[FSP(t,i)]
  ensures VS(H1,t,n,c) == VS(H2,t,n,c)
  induct n
  use VSstep(H1,t,n,c)
  use VSstep(H2,t,n,c)
// OD: of those, how many have a date of their own
fun OD(P: heap(Split.Time), t: *Transaction, n: int): int
axiom OD := forall P: heap(Split.Time), t: *Transaction, n: int {OD(P,t,n)} :: n <= 0 ==> OD(P,t,n) == 0
axiom OD step := forall P: heap(Split.Time), t: *Transaction, n: int, i: int {OD(P,t,n), FSP(t,i)} :: n == i+1 && i >= 0 ==> OD(P,t,n) == OD(P,t,i) + ite(P[FSP(t,i)] != &t.Time, 1, 0)
lemma ODstep(P: heap(Split.Time), t: *Transaction, n: int)
  requires n > 0
  ensures OD(P,t,n) == OD(P,t,n-1) + ite(P[FSP(t,n-1)] != &t.Time, 1, 0)
lemma ODeq(P1: heap(Split.Time), P2: heap(Split.Time), t: *Transaction, n: int)
  requires forall i: int {FSP(t,i)} :: 0 <= i < n ==> P1[FSP(t,i)] == P2[FSP(t,i)]
  ensures OD(P1,t,n) == OD(P2,t,n)
  induct n
  use ODstep(P1,t,n)
  use ODstep(P2,t,n)
lemma ODpos(P: heap(Split.Time), t: *Transaction, n: int)
  ensures OD(P,t,n) >= 0
  induct n
  use ODstep(P,t,n)
def ds(t, n, m, c) := DS(mem(*Split), heap(Split.Value), heap(Split.Time), arr(t.Splits), off(t.Splits), n, m, c)
// what the transaction adds up to, from its date on
def due(t, m, c) := ite(INST(&t.Time) <= m, VS(entry(18, heap(Split.Value)), t, NT(t), c), 0)
// the two postings of the transfer account for the k-th posting, in places p and p+1
def pair(t, k, p) := p+1 < len(t.Splits) && t.Splits[p].Time == FSP(t,k).Time && t.Splits[p].Value.Amount == 0-FSP(t,k).Value.Amount && t.Splits[p].Value.Currency == FSP(t,k).Value.Currency && t.Splits[p].Account == l.transferAccount
    && t.Splits[p+1].Time == &t.Time && t.Splits[p+1].Value == FSP(t,k).Value && t.Splits[p+1].Account == l.transferAccount
def own(s) := s.Time != &STR(s).Time
def PT() := entry(18, heap(Split.Time))
def VT() := entry(18, heap(Split.Value))

// P12: NTT is the number of postings of a transaction, when Fill begins; UC a currency that it leaves, if it leaves any
fun NTT(t: *Transaction): int
fun UC(H: heap(Split.Value), t: *Transaction): *Currency
axiom UC := forall H: heap(Split.Value), t: *Transaction, c: *Currency {WS(H,t,NTT(t),c), UC(H,t)} :: WS(H,t,NTT(t),c) != 0 ==> WS(H,t,NTT(t),UC(H,t)) != 0
def unb(H, t) := WS(H,t,NTT(t),UC(H,t)) != 0
lemma UNBeq(H1: heap(Split.Value), H2: heap(Split.Value), t: *Transaction)
  requires forall k: int {FSP(t,k)} :: 0 <= k < NTT(t) ==> weight(H1,FSP(t,k)) == weight(H2,FSP(t,k))
  ensures unb(H1,t) <==> unb(H2,t)
  use WSeq(H1,H2,t,NTT(t),UC(H1,t))
  use WSeq(H1,H2,t,NTT(t),UC(H2,t))
// TP: prices of the first n transactions
fun TP(H: heap(Split.Value), E: mem(*Transaction), a: int, o: int, n: int): int
axiom TP := forall H: heap(Split.Value), E: mem(*Transaction), a: int, o: int, n: int {TP(H,E,a,o,n)} :: n <= 0 ==> TP(H,E,a,o,n) == 0
axiom TP step := forall H: heap(Split.Value), E: mem(*Transaction), a: int, o: int, n: int, m: int {TP(H,E,a,o,n), atr(E,a,o,m)} :: n == m+1 && m >= 0 ==> TP(H,E,a,o,n) == TP(H,E,a,o,m) + ite(unb(H,atr(E,a,o,m)), 2, 0)
lemma TPstep(H: heap(Split.Value), E: mem(*Transaction), a: int, o: int, n: int)
  requires n > 0
  ensures TP(H,E,a,o,n) == TP(H,E,a,o,n-1) + ite(unb(H,atr(E,a,o,n-1)), 2, 0)
lemma TPeq(H1: heap(Split.Value), H2: heap(Split.Value), E: mem(*Transaction), a: int, o: int, n: int)
  requires forall k: int {atr(E,a,o,k)} :: 0 <= k < n ==> (unb(H1,atr(E,a,o,k)) <==> unb(H2,atr(E,a,o,k)))
  ensures TP(H1,E,a,o,n) == TP(H2,E,a,o,n)
  induct n
  use TPstep(H1,E,a,o,n)
  use TPstep(H2,E,a,o,n)
def tp(H, n) := TP(H, mem(*Transaction), arr(l.Transactions), off(l.Transactions), n)
// an exchange rate can be deduced from the posting
def nz(H, s) := H[s].Amount != 0 && PRV(s).Amount != 0
// CT: postings with stated price among the first n of a transaction; NZT: their prices
fun CT(t: *Transaction, n: int): int
axiom CT := forall t: *Transaction, n: int {CT(t,n)} :: n <= 0 ==> CT(t,n) == 0
axiom CT step := forall t: *Transaction, n: int, m: int {CT(t,n), FSP(t,m)} :: n == m+1 && m >= 0 ==> CT(t,n) == CT(t,m) + ite(HASP(FSP(t,m)), 1, 0)
lemma CTstep(t: *Transaction, n: int)
  requires n > 0
  ensures CT(t,n) == CT(t,n-1) + ite(HASP(FSP(t,n-1)), 1, 0)
fun NZT(H: heap(Split.Value), t: *Transaction, n: int): int
axiom NZT := forall H: heap(Split.Value), t: *Transaction, n: int {NZT(H,t,n)} :: n <= 0 ==> NZT(H,t,n) == 0
axiom NZT step := forall H: heap(Split.Value), t: *Transaction, n: int, m: int {NZT(H,t,n), FSP(t,m)} :: n == m+1 && m >= 0 ==> NZT(H,t,n) == NZT(H,t,m) + ite(HASP(FSP(t,m)) && nz(H,FSP(t,m)), 2, 0)
lemma NZTstep(H: heap(Split.Value), t: *Transaction, n: int)
  requires n > 0
  ensures NZT(H,t,n) == NZT(H,t,n-1) + ite(HASP(FSP(t,n-1)) && nz(H,FSP(t,n-1)), 2, 0)
lemma NZTeq(H1: heap(Split.Value), H2: heap(Split.Value), t: *Transaction, n: int)
  requires forall k: int {FSP(t,k)} :: 0 <= k < n ==> H1[FSP(t,k)] == H2[FSP(t,k)]
  ensures NZT(H1,t,n) == NZT(H2,t,n)
  induct n
  use NZTstep(H1,t,n)
  use NZTstep(H2,t,n)
// CP, PP: the same for the first n transactions
fun CP(E: mem(*Transaction), a: int, o: int, n: int): int
axiom CP := forall E: mem(*Transaction), a: int, o: int, n: int {CP(E,a,o,n)} :: n <= 0 ==> CP(E,a,o,n) == 0
axiom CP step := forall E: mem(*Transaction), a: int, o: int, n: int, m: int {CP(E,a,o,n), atr(E,a,o,m)} :: n == m+1 && m >= 0 ==> CP(E,a,o,n) == CP(E,a,o,m) + CT(atr(E,a,o,m), NTT(atr(E,a,o,m)))
fun PP(H: heap(Split.Value), E: mem(*Transaction), a: int, o: int, n: int): int
axiom PP := forall H: heap(Split.Value), E: mem(*Transaction), a: int, o: int, n: int {PP(H,E,a,o,n)} :: n <= 0 ==> PP(H,E,a,o,n) == 0
axiom PP step := forall H: heap(Split.Value), E: mem(*Transaction), a: int, o: int, n: int, m: int {PP(H,E,a,o,n), atr(E,a,o,m)} :: n == m+1 && m >= 0 ==> PP(H,E,a,o,n) == PP(H,E,a,o,m) + NZT(H, atr(E,a,o,m), NTT(atr(E,a,o,m)))
lemma PPstep(H: heap(Split.Value), E: mem(*Transaction), a: int, o: int, n: int)
  requires n > 0
  ensures PP(H,E,a,o,n) == PP(H,E,a,o,n-1) + NZT(H, atr(E,a,o,n-1), NTT(atr(E,a,o,n-1)))
lemma CPstep(E: mem(*Transaction), a: int, o: int, n: int)
  requires n > 0
  ensures CP(E,a,o,n) == CP(E,a,o,n-1) + CT(atr(E,a,o,n-1), NTT(atr(E,a,o,n-1)))
lemma PPeq(H1: heap(Split.Value), H2: heap(Split.Value), E: mem(*Transaction), a: int, o: int, n: int)
  requires forall i: int, k: int {FSP(atr(E,a,o,i),k)} :: 0 <= i < n && 0 <= k < NTT(atr(E,a,o,i)) ==> H1[FSP(atr(E,a,o,i),k)] == H2[FSP(atr(E,a,o,i),k)]
  ensures PP(H1,E,a,o,n) == PP(H2,E,a,o,n)
  induct n
  use PPstep(H1,E,a,o,n)
  use PPstep(H2,E,a,o,n)
  use NZTeq(H1,H2,atr(E,a,o,n-1),NTT(atr(E,a,o,n-1)))
def cp(n) := CP(mem(*Transaction), arr(l.Transactions), off(l.Transactions), n)
def pp(H, n) := PP(H, mem(*Transaction), arr(l.Transactions), off(l.Transactions), n)
// NZ: prices of the first n postings of a list
fun NZ(E: mem(*Split), H: heap(Split.Value), a: int, o: int, n: int): int
axiom NZ := forall E: mem(*Split), H: heap(Split.Value), a: int, o: int, n: int {NZ(E,H,a,o,n)} :: n <= 0 ==> NZ(E,H,a,o,n) == 0
axiom NZ step := forall E: mem(*Split), H: heap(Split.Value), a: int, o: int, n: int, m: int {NZ(E,H,a,o,n), atr(E,a,o,m)} :: n == m+1 && m >= 0 ==> NZ(E,H,a,o,n) == NZ(E,H,a,o,m) + ite(nz(H,atr(E,a,o,m)), 2, 0)
lemma NZstep(E: mem(*Split), H: heap(Split.Value), a: int, o: int, n: int)
  requires n > 0
  ensures NZ(E,H,a,o,n) == NZ(E,H,a,o,n-1) + ite(nz(H,atr(E,a,o,n-1)), 2, 0)
lemma NZpos(E: mem(*Split), H: heap(Split.Value), a: int, o: int, n: int)
  ensures NZ(E,H,a,o,n) >= 0
  induct n
  use NZstep(E,H,a,o,n)
lemma NZeq(E1: mem(*Split), a1: int, o1: int, E2: mem(*Split), a2: int, o2: int, H: heap(Split.Value), n: int)
  requires forall i: int {atr(E1,a1,o1,i)} {atr(E2,a2,o2,i)} :: 0 <= i < n ==> atr(E1,a1,o1,i) == atr(E2,a2,o2,i)
  ensures NZ(E1,H,a1,o1,n) == NZ(E2,H,a2,o2,n)
  induct n
  use NZstep(E1,H,a1,o1,n)
  use NZstep(E2,H,a2,o2,n)
def nzp(n) := NZ(mem(*Split), heap(Split.Value), arr(pricedSplits), off(pricedSplits), n)
// price p: x units of c are worth y units of d
def rate(p, c, x, d, y) := p.Currency == c && p.Value.Currency == d && p.Value.Amount == quo(U*y, x)
def rateneg(p, c, x, d, y) := p.Currency == c && p.Value.Currency == d && p.Value.Amount == quo((0-U)*y, x)
// the two prices of a transaction, and those of a posting
def tpriced(H, t, p, q) := p.Currency != p.Value.Currency && WS(H,t,NTT(t),p.Currency) != 0 && WS(H,t,NTT(t),p.Value.Currency) != 0
   && rateneg(p, p.Currency, WS(H,t,NTT(t),p.Currency), p.Value.Currency, WS(H,t,NTT(t),p.Value.Currency)) && inst(p.Time) == inst(t.Time)
   && rateneg(q, p.Value.Currency, WS(H,t,NTT(t),p.Value.Currency), p.Currency, WS(H,t,NTT(t),p.Currency)) && inst(q.Time) == inst(t.Time)
def spriced(H, s, p, q) := rate(p, H[s].Currency, H[s].Amount, PRV(s).Currency, PRV(s).Amount) && inst(p.Time) == inst(*s.Time)
   && rate(q, PRV(s).Currency, PRV(s).Amount, H[s].Currency, H[s].Amount) && inst(q.Time) == inst(*s.Time)
def oldp() := old(len(l.Prices))
def tpricedat(H, t, i) := 0 <= i && i+1 < len(l.Prices) && tpriced(H, t, l.Prices[i], l.Prices[i+1])
def spricedat(H, s, i) := 0 <= i && i+1 < len(l.Prices) && spriced(H, s, l.Prices[i], l.Prices[i+1])

func (*Ledger).Fill
  props P01 P02 P03 P04 P05 P06 P07 P12
  option separate
  requires ledger: l > 0 && allocated(l) && l.Comments != nil
  // the ghost names stand for the state at the beginning
  requires accounts: AN() == len(l.Accounts) && forall i: int {l.Accounts[i]} {LACC(i)} :: 0 <= i < len(l.Accounts) ==> l.Accounts[i] == LACC(i) && ACC(LACC(i)) && AIDX(LACC(i)) == i
  requires account: forall o: *Account {ACC(o)} :: ACC(o) ==> o > 0 && allocated(o) && 0 <= AIDX(o) && AIDX(o) < AN() && LACC(AIDX(o)) == o
  requires parent: forall o: *Account {PAR(o)} {o.Parent} :: ACC(o) ==> PAR(o) == o.Parent
  requires order: forall o: *Account {PAR(o)} :: ACC(o) && PAR(o) != nil ==> ACC(PAR(o)) && AIDX(PAR(o)) < AIDX(o)
  requires transfer: l.transferAccount == nil || ACC(l.transferAccount)
  requires transferAccount: nosl(TransferAccount.Splits)
  requires transactions: TN() == len(l.Transactions) && forall i: int {l.Transactions[i]} {LTR(i)} :: 0 <= i < len(l.Transactions) ==> l.Transactions[i] == LTR(i) && TRX(LTR(i)) && TIDX(LTR(i)) == i
  requires transaction: forall t: *Transaction {TRX(t)} :: TRX(t) ==> t > 0 && allocated(t) && 0 <= TIDX(t) && TIDX(t) < TN() && LTR(TIDX(t)) == t
  requires postings: forall t: *Transaction, j: int {t.Splits[j]} {OSP(t,j)} :: TRX(t) && 0 <= j < len(t.Splits) ==> t.Splits[j] == OSP(t,j) && OSP(t,j) > 0 && allocated(OSP(t,j)) && STR(OSP(t,j)) == t && SIDX(OSP(t,j)) == j
     && OSP(t,j).Account > 0 && allocated(OSP(t,j).Account) && (SPL(OSP(t,j)) <==> OSP(t,j).Account != l.transferAccount)
  requires posting: forall s: *Split {SPL(s)} :: SPL(s) ==> s > 0 && allocated(s) && TRX(STR(s)) && 0 <= SIDX(s) && SIDX(s) < len(STR(s).Splits) && OSP(STR(s), SIDX(s)) == s && ACC(s.Account) && s.Account != l.transferAccount
  requires prices: forall i: int {l.Prices[i]} :: 0 <= i < len(l.Prices) ==> l.Prices[i] > 0
  // an amount without currency is no amount
  requires missing: forall s: *Split {s.Value} :: SPL(s) && s.Value.Currency == nil ==> s.Value.Amount == 0
  requires assertions: forall s: *Split {l.Assertions[s]} :: s in l.Assertions && l.Assertions[s].Currency == nil ==> l.Assertions[s].Amount == 0
  requires totals: forall s: *Split {l.SplitPrices[s]} :: s in l.SplitPrices ==> l.SplitPrices[s].Currency != nil
  requires @P01,P02,P03,P04,P05,P06,P12 posting2: forall s: *Split {NSP(STR(s),SIDX(s))} :: SPL(s) ==> FSP(STR(s), PIX(s)) == s
  requires @P01,P02,P12 totals2: forall s: *Split {l.SplitPrices[s]} {HASP(s)} :: (s in l.SplitPrices <==> HASP(s)) && (HASP(s) ==> l.SplitPrices[s] == PRV(s))
  requires @P01,P02,P12 amounts: forall s: *Split {HASP(s)} :: SPL(s) && HASP(s) ==> s.Value.Currency != nil
  ensures @P01,P02,P12 postings: result == nil ==> forall t: *Transaction, k: int {FSP(t,k)} :: TRX(t) && 0 <= k < NT(t) ==> k < len(t.Splits) && t.Splits[k] == FSP(t,k) && SPL(t.Splits[k])
  ensures @P01 most2: result == nil ==> forall t: *Transaction {TRX(t)} :: TRX(t) ==> most2(heap(Split.Value), t, NT(t))
  ensures @P01 notone: result == nil ==> forall t: *Transaction {TRX(t)} :: TRX(t) ==> notone(heap(Split.Value), t, NT(t))
  ensures @P02 kept: result == nil ==> forall s: *Split {s.Value} :: SPL(s) && old(s.Value.Currency) != nil ==> s.Value == old(s.Value)
  ensures @P02 exact: result == nil ==> forall s: *Split, c: *Currency {WS(heap(Split.Value), STR(s), NT(STR(s)), c), SPL(s)} :: SPL(s) && noamount(s) ==> WS(heap(Split.Value), STR(s), NT(STR(s)), c) == 0
  ensures @P02 one: result == nil ==> forall s: *Split, u: *Split {SPL(s), SPL(u)} :: SPL(s) && SPL(u) && noamount(s) && noamount(u) && STR(s) == STR(u) ==> s == u
  ensures @P03 balance: result == nil ==> forall o: *Account, k: int, c: *Currency {bal(o.Splits[k].Balance, c)} :: (ACC(o) || o == l.transferAccount) && 0 <= k < len(o.Splits) ==> bal(o.Splits[k].Balance, c) == reg(mem(*Split), heap(Split.Value), o, k+1, c)
  ensures @P03 wf: result == nil ==> forall o: *Account, k: int {o.Splits[k]} :: (ACC(o) || o == l.transferAccount) && 0 <= k < len(o.Splits) ==> wfBal(o.Splits[k].Balance)
  ensures @P03 apart: result == nil ==> forall o: *Account, k: int, p: *Account, j: int {o.Splits[k], p.Splits[j]} :: (ACC(o) || o == l.transferAccount) && (ACC(p) || p == l.transferAccount) && 0 <= k < len(o.Splits) && 0 <= j < len(p.Splits) && (o != p || j != k) ==> notshared(o.Splits[k], p.Splits[j])
  ensures @P02,P04 asserted: result == nil ==> forall s: *Split {SPL(s)} :: SPL(s) && l.Assertions[s].Currency != nil ==> bal(s.Balance, l.Assertions[s].Currency) == l.Assertions[s].Amount
  ensures @P06 transactions: result == nil ==> len(l.Transactions) == TN() && forall k: int {l.Transactions[k]} :: 0 <= k < TN() ==> TRX(l.Transactions[k]) && POS(l.Transactions[k]) == k
  ensures @P06 place: result == nil ==> forall t: *Transaction {TRX(t)} :: TRX(t) ==> 0 <= POS(t) && POS(t) < TN() && l.Transactions[POS(t)] == t
  ensures @P06 sorted: result == nil ==> forall j: int, k: int {l.Transactions[j], l.Transactions[k]} :: 0 <= j < k && k < TN() ==> inst(l.Transactions[j].Time) <= inst(l.Transactions[k].Time) && (inst(l.Transactions[j].Time) == inst(l.Transactions[k].Time) ==> TIDX(l.Transactions[j]) < TIDX(l.Transactions[k]))
  ensures @P06 linked: result == nil ==> forall s: *Split {SPL(s)} :: SPL(s) ==> s.Transaction == STR(s) && s.Account == old(s.Account) && (old(s.Time) != nil ==> s.Time == old(s.Time)) && (old(s.Time) == nil ==> s.Time == &STR(s).Time)
  ensures @P06 register: result == nil ==> forall o: *Account, k: int {o.Splits[k]} :: ACC(o) && o != l.transferAccount && 0 <= k < len(o.Splits) ==> SPL(o.Splits[k]) && o.Splits[k].Account == o
  ensures @P06 complete: result == nil ==> forall s: *Split {SPL(s)} :: SPL(s) ==> registered(s)
  ensures @P06 order: result == nil ==> forall o: *Account, j: int, k: int {o.Splits[j], o.Splits[k]} :: ACC(o) && o != l.transferAccount && 0 <= j < k && k < len(o.Splits) ==> chrono(o.Splits[j], o.Splits[k])
  ensures @P06 posted: result == nil ==> forall t: *Transaction, k: int {t.Splits[k]} :: TRX(t) && 0 <= k < len(t.Splits) ==> ite(k < NT(t), t.Splits[k] == FSP(t,k), t.Splits[k].Account == l.transferAccount && t.Splits[k].Transaction == t && registered(t.Splits[k]))
  ensures @P06 transfers: result == nil ==> forall k: int {l.transferAccount.Splits[k]} :: 0 <= k < len(l.transferAccount.Splits) ==> l.transferAccount.Splits[k].Account == l.transferAccount && posted(l.transferAccount.Splits[k])
  ensures @P06 once: result == nil ==> forall j: int, k: int {l.transferAccount.Splits[j], l.transferAccount.Splits[k]} :: 0 <= j < k && k < len(l.transferAccount.Splits) ==> l.transferAccount.Splits[j] != l.transferAccount.Splits[k] && inst(*l.transferAccount.Splits[j].Time) <= inst(*l.transferAccount.Splits[k].Time)
  ensures @P06 prices: result == nil ==> forall j: int, k: int {l.Prices[j], l.Prices[k]} :: 0 <= j < k && k < len(l.Prices) ==> inst(l.Prices[j].Time) <= inst(l.Prices[k].Time)
  ensures @P06,P12 stable: result == nil ==> forall i: int {old(l.Prices[i])} :: 0 <= i < old(len(l.Prices)) ==> 0 <= permat(2,i) && permat(2,i) < len(l.Prices) && l.Prices[permat(2,i)] == old(l.Prices[i])
  ensures @P06 stable2: result == nil ==> forall i: int, j: int {old(l.Prices[i]), old(l.Prices[j])} :: 0 <= i < j && j < old(len(l.Prices)) && inst(old(l.Prices[i].Time)) == inst(old(l.Prices[j].Time)) ==> permat(2,i) < permat(2,j)
  requires @P05 dates: forall s: *Split {s.Time} :: SPL(s) && s.Time != nil ==> INST(s.Time) == inst(*s.Time)
  requires @P05 dates2: forall t: *Transaction {TRX(t)} :: TRX(t) ==> INST(&t.Time) == inst(t.Time)
  ensures @P05 books: result == nil ==> forall t: *Transaction, m: int, c: *Currency {ds(t, len(t.Splits), m, c)} :: TRX(t) ==> ds(t, len(t.Splits), m, c) == ite(INST(&t.Time) <= m, VS(heap(Split.Value), t, NT(t), c), 0)
  ensures @P05 dates: result == nil ==> forall t: *Transaction, k: int {t.Splits[k]} :: TRX(t) && 0 <= k < len(t.Splits) ==> INST(t.Splits[k].Time) == inst(*t.Splits[k].Time) && INST(&t.Time) == inst(t.Time)
  ensures @P05 count: result == nil ==> forall t: *Transaction {TRX(t)} :: TRX(t) ==> len(t.Splits) == NT(t) + 2*OD(heap(Split.Time), t, NT(t))
  ensures @P05 pairs: result == nil ==> forall t: *Transaction, k: int {FSP(t,k)} :: TRX(t) && 0 <= k < NT(t) && FSP(t,k).Time != &t.Time ==> pair(t, k, NT(t) + 2*OD(heap(Split.Time), t, k))
  requires @P12 size: forall t: *Transaction {TRX(t)} :: TRX(t) ==> NTT(t) == NSP(t, len(t.Splits))
  requires @P12 pricesbefore: forall i: int {l.Prices[i]} :: 0 <= i < len(l.Prices) ==> allocated(l.Prices[i])
  ensures @P12 size: result == nil ==> len(l.Prices) == oldp() + tp(heap(Split.Value), TN()) + pp(heap(Split.Value), TN())
  ensures @P12 rates: result == nil ==> forall t: *Transaction {TRX(t)} :: TRX(t) && unb(heap(Split.Value), t) ==> tpriced(heap(Split.Value), t, l.Prices[permat(2, oldp() + tp(heap(Split.Value), POS(t)))], l.Prices[permat(2, oldp() + tp(heap(Split.Value), POS(t)) + 1)])
  ensures @P12 stated: result == nil ==> forall s: *Split {SPL(s)} :: SPL(s) && HASP(s) && nz(heap(Split.Value), s) ==> spriced(heap(Split.Value), s, l.Prices[permat(2, oldp() + tp(heap(Split.Value), TN()) + pp(heap(Split.Value), POS(STR(s))) + NZT(heap(Split.Value), STR(s), PIX(s)))], l.Prices[permat(2, oldp() + tp(heap(Split.Value), TN()) + pp(heap(Split.Value), POS(STR(s))) + NZT(heap(Split.Value), STR(s), PIX(s)) + 1)])
  ensures @P12 places: result == nil ==> forall i: int {permat(2,i)} :: 0 <= i < len(l.Prices) ==> 0 <= permat(2,i) && permat(2,i) < len(l.Prices)
  ensures @P12 places2: result == nil ==> forall i: int, j: int {permat(2,i), permat(2,j)} :: 0 <= i < j && j < len(l.Prices) ==> permat(2,i) != permat(2,j)
  requires @P07 levels: forall o: *Account {o.Level} :: ACC(o) && PAR(o) == nil ==> o.Level == 0
  ensures @P07 size: result == nil ==> len(l.Accounts) == ROOTS(AN()) || (len(l.Accounts) == ROOTS(AN())+1 && !ACC(l.transferAccount) && l.Accounts[ROOTS(AN())] == l.transferAccount)
  ensures @P07 same: result == nil ==> forall k: int {l.Accounts[k]} :: 0 <= k < ROOTS(AN()) ==> ACC(l.Accounts[k]) && ABS(l.Accounts[k]) == k
  ensures @P07 place: result == nil ==> forall o: *Account {ACC(o)} :: ACC(o) ==> 0 <= ABS(o) && ABS(o) < ROOTS(AN()) && l.Accounts[ABS(o)] == o
  ensures @P07 children: result == nil ==> forall o: *Account {o.Children} :: ACC(o) ==> len(o.Children) == CHN(o)
  ensures @P07 child: result == nil ==> forall o: *Account {ACC(o)} :: ACC(o) && PAR(o) != nil ==> 0 <= CIDX(o) && CIDX(o) < len(PAR(o).Children) && PAR(o).Children[CIDX(o)] == o
  ensures @P07 parent: result == nil ==> forall o: *Account {o.Parent} :: ACC(o) ==> o.Parent == PAR(o) && o.Name == old(o.Name)
  ensures @P07 level: result == nil ==> forall o: *Account {o.Level} :: ACC(o) ==> o.Level == ite(PAR(o) == nil, 0, PAR(o).Level + 1)
  modifies Ledger.transferAccount, Ledger.Accounts, Ledger.Prices, fresh mem(*Account), mem(*Transaction), mem(*Price), fresh mem(*Split), fresh mem(Value), mem(string), mapdom(map[any][]string), mapval(map[any][]string)
    , Account.Splits, Account.Children, Account.Level, Split.Balance, Split.Transaction, Split.Time, Split.Value, Transaction.Splits
    , fresh Account.Name, fresh Account.Code, fresh Account.ID, fresh Account.Parent, fresh Account.StartBalance, fresh Price.Currency, fresh Price.Value, fresh Price.Time
  // all the accounts begin without postings or children
  inv 0 reset: forall j: int {LACC(j)} :: 0 <= j < it(0) ==> nosl(LACC(j).Children) && nosl(LACC(j).Splits)
  inv 0 transfer: ACC(l.transferAccount) || nosl(l.transferAccount.Splits)
  // each one is added to its parent, in order
  inv 1 count: forall o: *Account {o.Children} :: ACC(o) ==> len(o.Children) == CNTP(o, it(1)) && newsl(o.Children)
  inv 1 child: forall o: *Account, j: int {o.Children[j]} :: ACC(o) && 0 <= j < len(o.Children) ==> childOK(o, j) && AIDX(o.Children[j]) < it(1)
  inv 1 apart: forall o: *Account, p: *Account {o.Children, p.Children} :: ACC(o) && ACC(p) && o != p && arr(o.Children) == arr(p.Children) ==> arr(o.Children) == 0
  inv 1 @P07 level: forall o: *Account {o.Level} :: ACC(o) && (AIDX(o) < it(1) || PAR(o) == nil) ==> o.Level == ite(PAR(o) == nil, 0, PAR(o).Level + 1)
  // the trees of the accounts without parents are put one after another
  inv 2 size: len(newAccounts) == ROOTS(it(2))
  inv 2 array: newsl(newAccounts)
  inv 2 tree: treeOK()
  inv 2 apart: forall o: *Account {o.Children} :: ACC(o) ==> arr(o.Children) != arr(newAccounts) || arr(newAccounts) == 0
  inv 2 placed: forall k: int {newAccounts[k]} :: 0 <= k < len(newAccounts) ==> placed(mem(*Account), newAccounts, k)
  inv 2 closed: forall k: int {newAccounts[k]} :: 0 <= k < len(newAccounts) ==> closed(mem(*Account), newAccounts, k)
  inv 2 roots: forall i: int {LACC(i)} :: 0 <= i < it(2) && PAR(LACC(i)) == nil ==> 0 <= ABS(LACC(i)) && ABS(LACC(i)) < len(newAccounts) && newAccounts[ABS(LACC(i))] == LACC(i)
  hint loop 2 back: use SSpos(rs(2)[it(2)-1], CHN(rs(2)[it(2)-1]))
  hint loop 2 back: use ROOTSstep(it(2))
  hint loop 3 entry: use forall i: int {LACC(i)} :: CNTPmono(PAR(LACC(i)), i+1, AN())
  hint loop 3 entry: use forall i: int {LACC(i)} :: CNTPstep(PAR(LACC(i)), i+1)
  hint loop 3 entry: use forall i: int {LACC(i)} :: CNTPpos(PAR(LACC(i)), i)
  hint loop 3 entry: assert forall i: int {LACC(i)} :: 0 <= i < AN() && PAR(LACC(i)) != nil ==> CH(PAR(LACC(i)), CIDX(LACC(i))) == LACC(i) && 0 <= CIDX(LACC(i)) && CIDX(LACC(i)) < CHN(PAR(LACC(i)))
  hint loop 3 entry: use cover(mem(*Account), arr(l.Accounts), off(l.Accounts), len(l.Accounts), AN())
  hint loop 3 entry: assert forall o: *Account {ACC(o)} :: ACC(o) ==> 0 <= ABS(o) && ABS(o) < len(l.Accounts) && l.Accounts[ABS(o)] == o
  // the postings of the transfer account are removed
  inv 3 array: forall t: *Transaction {t.Splits} :: TRX(t) && TIDX(t) < it(3) ==> newsl(t.Splits) && len(t.Splits) == NSP(t, old(len(t.Splits)))
  inv 3 same: forall t: *Transaction {t.Splits} :: TRX(t) && TIDX(t) >= it(3) ==> t.Splits == old(t.Splits)
  inv 3 posting: forall t: *Transaction, k: int {t.Splits[k]} :: TRX(t) && TIDX(t) < it(3) && 0 <= k < len(t.Splits) ==> SPL(t.Splits[k]) && STR(t.Splits[k]) == t && PIX(t.Splits[k]) == k
  inv 3 all: forall s: *Split {SIDX(s)} :: SPL(s) && TIDX(STR(s)) < it(3) ==> 0 <= PIX(s) && PIX(s) < len(STR(s).Splits) && STR(s).Splits[PIX(s)] == s
  inv 3 apart: forall t: *Transaction, u: *Transaction {t.Splits, u.Splits} :: TRX(t) && TRX(u) && TIDX(t) < it(3) && TIDX(u) < it(3) && t != u && arr(t.Splits) == arr(u.Splits) ==> arr(t.Splits) == 0
  inv 4 array: arr(splits) == 0 || arr(splits) >= entry(alloc)
  inv 4 size: len(splits) == NSP(LTR(i), it(4))
  inv 4 kept: forall a: int, o: int, k: int {atr(mem(*Split),a,o,k)} {entry(atr(mem(*Split),a,o,k))} :: a < entry(alloc) ==> atr(mem(*Split),a,o,k) == entry(atr(mem(*Split),a,o,k))
  inv 4 posting: forall k: int {splits[k]} :: 0 <= k < len(splits) ==> SPL(splits[k]) && STR(splits[k]) == LTR(i) && PIX(splits[k]) == k
  inv 4 all: forall s: *Split {SIDX(s)} :: SPL(s) && STR(s) == LTR(i) && SIDX(s) < it(4) ==> 0 <= PIX(s) && PIX(s) < len(splits) && splits[PIX(s)] == s
  hint loop 4 back: use NSPstep(LTR(i), it(4))
  // transactions are sorted, and the postings attached
  hint loop 5 entry: assert forall t: *Transaction {TRX(t)} :: TRX(t) ==> 0 <= POS(t) && POS(t) < TN() && l.Transactions[POS(t)] == t
  hint loop 5 entry: assert forall i: int {l.Transactions[i]} :: 0 <= i < TN() ==> TRX(l.Transactions[i]) && POS(l.Transactions[i]) == i
  inv 5 array: forall o: *Account {o.Splits} :: ACC(o) ==> arr(o.Splits) == 0 || arr(o.Splits) >= entry(5, alloc)
  inv 5 apart: forall o: *Account, p: *Account {o.Splits, p.Splits} :: ACC(o) && ACC(p) && o != p && arr(o.Splits) == arr(p.Splits) ==> arr(o.Splits) == 0
  inv 5 transfer: nosl(l.transferAccount.Splits)
  inv 5 kept: forall a: int, o: int, k: int {atr(mem(*Split),a,o,k)} {entry(5, atr(mem(*Split),a,o,k))} :: a < entry(5, alloc) ==> atr(mem(*Split),a,o,k) == entry(5, atr(mem(*Split),a,o,k))
  inv 5 posting: forall o: *Account, k: int {o.Splits[k]} :: ACC(o) && 0 <= k < len(o.Splits) ==> SPL(o.Splits[k]) && o.Splits[k].Account == o && o.Splits[k].Time != nil
  inv 5 linked: forall t: *Transaction, k: int {t.Splits[k]} :: TRX(t) && POS(t) < it(5) && 0 <= k < len(t.Splits) ==> t.Splits[k].Time != nil && t.Splits[k].Transaction == t
  inv 6 array: forall o: *Account {o.Splits} :: ACC(o) ==> arr(o.Splits) == 0 || arr(o.Splits) >= entry(5, alloc)
  inv 6 apart: forall o: *Account, p: *Account {o.Splits, p.Splits} :: ACC(o) && ACC(p) && o != p && arr(o.Splits) == arr(p.Splits) ==> arr(o.Splits) == 0
  inv 6 transfer: nosl(l.transferAccount.Splits)
  inv 6 kept: forall a: int, o: int, k: int {atr(mem(*Split),a,o,k)} {entry(5, atr(mem(*Split),a,o,k))} :: a < entry(5, alloc) ==> atr(mem(*Split),a,o,k) == entry(5, atr(mem(*Split),a,o,k))
  inv 6 posting: forall o: *Account, k: int {o.Splits[k]} :: ACC(o) && 0 <= k < len(o.Splits) ==> SPL(o.Splits[k]) && o.Splits[k].Account == o && o.Splits[k].Time != nil
  inv 6 linked: forall u: *Transaction, k: int {u.Splits[k]} :: TRX(u) && POS(u) < it(5)-1 && 0 <= k < len(u.Splits) ==> u.Splits[k].Time != nil && u.Splits[k].Transaction == u
  inv 6 this: forall k: int {t.Splits[k]} :: 0 <= k < it(6) ==> t.Splits[k].Time != nil && t.Splits[k].Transaction == t
  // the postings of each account are sorted
  inv 7 kept: forall a: int, o: int, k: int {atr(mem(*Split),a,o,k)} {entry(5, atr(mem(*Split),a,o,k))} :: a < entry(5, alloc) ==> atr(mem(*Split),a,o,k) == entry(5, atr(mem(*Split),a,o,k))
  inv 7 posting: forall o: *Account, k: int {o.Splits[k]} :: ACC(o) && 0 <= k < len(o.Splits) ==> SPL(o.Splits[k]) && o.Splits[k].Account == o && o.Splits[k].Time != nil
  // amounts and balances
  inv 8 place: 0 <= iTransactions && iTransactions <= len(l.Transactions)
  inv 8 places: forall k: int {l.Accounts[k]} :: 0 <= k < len(l.Accounts) ==> 0 <= iAccounts[k] && iAccounts[k] <= len(l.Accounts[k].Splits)
  inv 8 missing: forall s: *Split {s.Value} :: SPL(s) && s.Value.Currency == nil ==> s.Value.Amount == 0
  inv 8 done: forall t: *Transaction, k: int {t.Splits[k]} :: TRX(t) && POS(t) < iTransactions && 0 <= k < len(t.Splits) ==> t.Splits[k].Value.Currency != nil
  inv 8 prices: forall k: int {l.Prices[k]} :: 0 <= k < len(l.Prices) ==> l.Prices[k] > 0
  inv 8 stuck: !finished && deadlock ==> iTransactions < len(l.Transactions)
  inv 9 place: 0 <= iTransactions && iTransactions <= len(l.Transactions)
  inv 9 missing: forall s: *Split {s.Value} :: SPL(s) && s.Value.Currency == nil ==> s.Value.Amount == 0
  inv 9 done: forall t: *Transaction, k: int {t.Splits[k]} :: TRX(t) && POS(t) < iTransactions && 0 <= k < len(t.Splits) ==> t.Splits[k].Value.Currency != nil
  inv 9 prices: forall k: int {l.Prices[k]} :: 0 <= k < len(l.Prices) ==> l.Prices[k] > 0
  inv 9 stuck: !finished ==> !deadlock
  inv 10 array: newsl(balance)
  inv 10 balance: wfBal(balance) && bal(balance, nil) == 0
  inv 10 left: unbalancedSplit != nil ==> SPL(unbalancedSplit) && unbalancedSplit.Value.Currency == nil && STR(unbalancedSplit) == transaction
  inv 10 done: forall k: int {transaction.Splits[k]} :: 0 <= k < it(10) && transaction.Splits[k] != unbalancedSplit ==> transaction.Splits[k].Value.Currency != nil
  inv 10 named: forall k: int {balance[k]} :: 0 <= k < len(balance) ==> balance[k].Currency != nil
  hint loop 10 back: use forall k: int {balance[k]} :: SUMhas(mem(Value), arr(balance), off(balance), len(balance), k, nil)
  inv 11 place: 0 <= i
  inv 11 places: forall k: int {l.Accounts[k]} :: 0 <= k < len(l.Accounts) ==> 0 <= iAccounts[k] && iAccounts[k] <= len(l.Accounts[k].Splits)
  inv 11 missing: forall s: *Split {s.Value} :: SPL(s) && s.Value.Currency == nil ==> s.Value.Amount == 0
  inv 11 done: forall t: *Transaction, k: int {t.Splits[k]} :: TRX(t) && POS(t) < iTransactions && 0 <= k < len(t.Splits) ==> t.Splits[k].Value.Currency != nil
  inv 11 stuck: iTransactions == len(l.Transactions) && !finished ==> !deadlock
  inv 12 places: forall k: int {l.Accounts[k]} :: 0 <= k < len(l.Accounts) ==> 0 <= iAccounts[k] && iAccounts[k] <= len(l.Accounts[k].Splits)
  inv 12 array: newsl(b)
  inv 12 missing: forall s: *Split {s.Value} :: SPL(s) && s.Value.Currency == nil ==> s.Value.Amount == 0
  inv 12 done: forall t: *Transaction, k: int {t.Splits[k]} :: TRX(t) && POS(t) < iTransactions && 0 <= k < len(t.Splits) ==> t.Splits[k].Value.Currency != nil
  inv 12 stuck: iTransactions == len(l.Transactions) && !finished ==> !deadlock
  // prices of the postings with a stated price
  inv 14 array: newsl(pricedSplits)
  inv 14 kept: forall a: int, o: int, k: int {atr(mem(*Split),a,o,k)} {entry(14, atr(mem(*Split),a,o,k))} :: a < entry(14, alloc) ==> atr(mem(*Split),a,o,k) == entry(14, atr(mem(*Split),a,o,k))
  inv 14 new: arr(pricedSplits) == 0 || arr(pricedSplits) >= entry(14, alloc)
  inv 14 posting: forall k: int {pricedSplits[k]} :: 0 <= k < len(pricedSplits) ==> SPL(pricedSplits[k]) && pricedSplits[k].Time != nil
  inv 15 array: newsl(pricedSplits)
  inv 15 kept: forall a: int, o: int, k: int {atr(mem(*Split),a,o,k)} {entry(14, atr(mem(*Split),a,o,k))} :: a < entry(14, alloc) ==> atr(mem(*Split),a,o,k) == entry(14, atr(mem(*Split),a,o,k))
  inv 15 new: arr(pricedSplits) == 0 || arr(pricedSplits) >= entry(14, alloc)
  hint call append 8 before: assert SPL(s) && s.Time != nil
  inv 15 posting: forall k: int {pricedSplits[k]} :: 0 <= k < len(pricedSplits) ==> SPL(pricedSplits[k]) && pricedSplits[k].Time != nil
  inv 16 prices: forall k: int {l.Prices[k]} :: 0 <= k < len(l.Prices) ==> l.Prices[k] > 0
  // postings of the transfer account
  inv 18 list: l > 0 && l.transferAccount > 0 && allocated(l.transferAccount) && len(l.Transactions) == TN() && forall k: int {l.Transactions[k]} :: 0 <= k < TN() ==> TRX(l.Transactions[k]) && l.Transactions[k] > 0 && POS(l.Transactions[k]) == k
  inv 18 array: forall t: *Transaction {t.Splits} :: TRX(t) ==> newsl(t.Splits)
  inv 18 apart: forall t: *Transaction, u: *Transaction {t.Splits, u.Splits} :: TRX(t) && TRX(u) && t != u && arr(t.Splits) == arr(u.Splits) ==> arr(t.Splits) == 0
  inv 18 posting: forall t: *Transaction, k: int {t.Splits[k]} :: TRX(t) && 0 <= k < len(t.Splits) ==> t.Splits[k] > 0 && t.Splits[k].Time != nil
  inv 18 others: newsl(l.transferAccount.Splits) && forall t: *Transaction {t.Splits} :: TRX(t) && arr(t.Splits) == arr(l.transferAccount.Splits) ==> arr(t.Splits) == 0
  inv 18 transfer: forall k: int {l.transferAccount.Splits[k]} :: 0 <= k < len(l.transferAccount.Splits) ==> l.transferAccount.Splits[k] > 0 && l.transferAccount.Splits[k].Time != nil
  inv 19 list: l > 0 && l.transferAccount > 0 && allocated(l.transferAccount) && len(l.Transactions) == TN() && forall k: int {l.Transactions[k]} :: 0 <= k < TN() ==> TRX(l.Transactions[k]) && l.Transactions[k] > 0 && POS(l.Transactions[k]) == k
  inv 19 longer: len(l.Transactions[i].Splits) >= entry(len(l.Transactions[i].Splits))
  inv 19 array: forall t: *Transaction {t.Splits} :: TRX(t) ==> newsl(t.Splits)
  inv 19 apart: forall t: *Transaction, u: *Transaction {t.Splits, u.Splits} :: TRX(t) && TRX(u) && t != u && arr(t.Splits) == arr(u.Splits) ==> arr(t.Splits) == 0
  inv 19 posting: forall t: *Transaction, k: int {t.Splits[k]} :: TRX(t) && 0 <= k < len(t.Splits) ==> t.Splits[k] > 0 && t.Splits[k].Time != nil
  inv 19 others: newsl(l.transferAccount.Splits) && forall t: *Transaction {t.Splits} :: TRX(t) && arr(t.Splits) == arr(l.transferAccount.Splits) ==> arr(t.Splits) == 0
  inv 19 transfer: forall k: int {l.transferAccount.Splits[k]} :: 0 <= k < len(l.transferAccount.Splits) ==> l.transferAccount.Splits[k] > 0 && l.transferAccount.Splits[k].Time != nil
  inv 20 array: newsl(b)
  hint loop 19 back: assert forall a: int, o: int, k: int {atr(mem(*Split),a,o,k)} {start(19, atr(mem(*Split),a,o,k))} :: a < start(19, alloc) && a != start(19, arr(l.Transactions[i].Splits)) && a != start(19, arr(l.transferAccount.Splits)) ==> atr(mem(*Split),a,o,k) == start(19, atr(mem(*Split),a,o,k))
  hint loop 19 back: assert arr(l.transferAccount.Splits) == start(19, arr(l.transferAccount.Splits)) || arr(l.transferAccount.Splits) >= start(19, alloc)
  hint loop 19 back: assert arr(l.Transactions[i].Splits) == start(19, arr(l.Transactions[i].Splits)) || arr(l.Transactions[i].Splits) >= start(19, alloc)
  hint loop 19 back: assert forall k: int {l.Transactions[i].Splits[k]} {start(19, l.Transactions[i].Splits[k])} :: 0 <= k < start(19, len(l.Transactions[i].Splits)) ==> l.Transactions[i].Splits[k] == start(19, l.Transactions[i].Splits[k]) && len(l.Transactions[i].Splits) >= start(19, len(l.Transactions[i].Splits))
  hint loop 19 back: assert forall k: int {l.transferAccount.Splits[k]} {start(19, l.transferAccount.Splits[k])} :: 0 <= k < start(19, len(l.transferAccount.Splits)) ==> l.transferAccount.Splits[k] == start(19, l.transferAccount.Splits[k])
  hint loop 19 back: assert forall k: int {l.transferAccount.Splits[k]} :: 0 <= k < start(19, len(l.transferAccount.Splits)) ==> l.transferAccount.Splits[k] < start(19, alloc)
  hint loop 19 back: assert len(l.transferAccount.Splits) != start(19, len(l.transferAccount.Splits)) ==> len(l.transferAccount.Splits) == start(19, len(l.transferAccount.Splits)) + 2 && l.transferAccount.Splits[len(l.transferAccount.Splits)-2] >= start(19, alloc) && l.transferAccount.Splits[len(l.transferAccount.Splits)-1] > l.transferAccount.Splits[len(l.transferAccount.Splits)-2]
  hint loop 19 back: assert forall k: int {l.Transactions[i].Splits[k]} :: 0 <= k < len(l.Transactions[i].Splits) ==> l.Transactions[i].Splits[k] > 0
  hint loop 19 back: assert forall k: int {l.Transactions[i].Splits[k]} :: 0 <= k < len(l.Transactions[i].Splits) ==> l.Transactions[i].Splits[k].Time != nil
  hint loop 19 back: assert forall t: *Transaction, k: int {t.Splits[k]} :: TRX(t) && t != l.Transactions[i] && 0 <= k < len(t.Splits) ==> t.Splits[k] > 0 && t.Splits[k].Time != nil
  inv 17 @P07 notyet: forall k: int {l.Accounts[k]} :: 0 <= k < it(17) ==> l.Accounts[k] != l.transferAccount
  // P01: transactions balance
  hint @P01,P02,P03,P04,P05,P06,P12 loop 5 entry: assert forall t: *Transaction, k: int {FSP(t,k)} :: TRX(t) && 0 <= k < NT(t) ==> t.Splits[k] == FSP(t,k) && SPL(FSP(t,k)) && STR(FSP(t,k)) == t && PIX(FSP(t,k)) == k
  inv 8 @P01,P02,P12 most2: forall t: *Transaction {TRX(t)} :: TRX(t) && POS(t) < iTransactions ==> most2(heap(Split.Value), t, NT(t))
  inv 8 @P01,P02,P12 notone: forall t: *Transaction {TRX(t)} :: TRX(t) && POS(t) < iTransactions ==> notone(heap(Split.Value), t, NT(t))
  inv 9 @P01,P02,P12 most2: forall t: *Transaction {TRX(t)} :: TRX(t) && POS(t) < iTransactions ==> most2(heap(Split.Value), t, NT(t))
  inv 9 @P01,P02,P12 notone: forall t: *Transaction {TRX(t)} :: TRX(t) && POS(t) < iTransactions ==> notone(heap(Split.Value), t, NT(t))
  inv 11 @P01,P02,P12 most2: forall t: *Transaction {TRX(t)} :: TRX(t) && POS(t) < iTransactions ==> most2(heap(Split.Value), t, NT(t))
  inv 11 @P01,P02,P12 notone: forall t: *Transaction {TRX(t)} :: TRX(t) && POS(t) < iTransactions ==> notone(heap(Split.Value), t, NT(t))
  inv 12 @P01,P02,P12 most2: forall t: *Transaction {TRX(t)} :: TRX(t) && POS(t) < iTransactions ==> most2(heap(Split.Value), t, NT(t))
  inv 12 @P01,P02,P12 notone: forall t: *Transaction {TRX(t)} :: TRX(t) && POS(t) < iTransactions ==> notone(heap(Split.Value), t, NT(t))
  inv 10 @P01,P02,P12 sum: forall c: *Currency {bal(balance, c)} {WS(heap(Split.Value), transaction, it(10), c)} :: bal(balance, c) == WS(heap(Split.Value), transaction, it(10), c)
  inv 10 @P01,P02,P12 has: forall k: int {balance[k]} :: 0 <= k < len(balance) ==> bal(balance, balance[k].Currency) == balance[k].Amount && balance[k].Amount != 0
  inv 10 @P01,P02,P12 none: len(balance) == 0 ==> forall c: *Currency {bal(balance, c)} :: bal(balance, c) == 0
  inv 10 @P01,P02,P12 one: len(balance) == 1 ==> forall c: *Currency {bal(balance, c)} :: c != balance[0].Currency ==> bal(balance, c) == 0
  inv 10 @P01,P02,P12 two: len(balance) == 2 ==> forall c: *Currency {bal(balance, c)} :: c != balance[0].Currency && c != balance[1].Currency ==> bal(balance, c) == 0
  hint @P01,P02,P12 loop 10 back: assert 0 <= it(10)-1 && it(10) <= NT(transaction) && FSP(transaction, it(10)-1) == transaction.Splits[it(10)-1]
  hint @P01,P02,P12 loop 10 back: use forall c: *Currency {WS(heap(Split.Value), transaction, it(10), c)} :: WSstep(heap(Split.Value), transaction, it(10), c)
  hint @P01,P02,P12 loop 10 back: assert forall c: *Currency {bal(balance, c)} {WS(heap(Split.Value), transaction, it(10), c)} :: bal(balance, c) == WS(heap(Split.Value), transaction, it(10), c)
  hint @P01,P02,P12 loop 10 back: use forall k: int {balance[k]} :: SUMhas(mem(Value), arr(balance), off(balance), len(balance), k, balance[k].Currency)
  hint @P01,P02,P12 loop 10 back: use forall c: *Currency {bal(balance, c)} :: SUMnone(mem(Value), arr(balance), off(balance), len(balance), c)
  inv 12 @P01,P02,P12 kept: forall s: *Split {s.Value} {entry(12, s.Value)} :: SPL(s) && entry(12, s.Value.Currency) != nil ==> s.Value == entry(12, s.Value)
  hint @P01,P02,P12 loop 12 back: assert forall u: *Split {u.Value} {SPL(u)} :: SPL(u) && POS(STR(u)) < iTransactions ==> u.Value == start(12, u.Value)
  hint @P01,P02,P12 loop 12 back: assert forall t: *Transaction, k: int {FSP(t,k)} :: TRX(t) && 0 <= k < NT(t) && POS(t) < iTransactions ==> FSP(t,k).Value == start(12, FSP(t,k).Value)
  hint @P01,P02,P12 loop 12 back: use forall t: *Transaction, c: *Currency {WS(heap(Split.Value), t, NT(t), c)} :: WSeq(start(12, heap(Split.Value)), heap(Split.Value), t, NT(t), c)
  hint @P01,P02,P12 loop 12 back: assert forall t: *Transaction, c: *Currency {WS(heap(Split.Value), t, NT(t), c)} {WS(start(12, heap(Split.Value)), t, NT(t), c)} :: TRX(t) && POS(t) < iTransactions ==> WS(heap(Split.Value), t, NT(t), c) == WS(start(12, heap(Split.Value)), t, NT(t), c)
  hint @P01,P02,P12 loop 12 back: assert forall t: *Transaction {TRX(t)} :: TRX(t) && POS(t) < iTransactions ==> notone(heap(Split.Value), t, NT(t))
  hint @P01,P02,P12 loop 9 back: use forall t: *Transaction, c: *Currency {WS(heap(Split.Value), t, NT(t), c)} {WS(entry(10, heap(Split.Value)), t, NT(t), c)} :: WSeq(entry(10, heap(Split.Value)), heap(Split.Value), t, NT(t), c)
  hint @P01,P02,P12 loop 9 back: use forall c: *Currency {WS(heap(Split.Value), transaction, NT(transaction), c)} :: WSupd(entry(10, heap(Split.Value)), heap(Split.Value), transaction, NT(transaction), PIX(unbalancedSplit), c)
  inv 18 @P01,P02,P05,P06,P12 first: forall t: *Transaction {TRX(t)} :: TRX(t) ==> len(t.Splits) >= NT(t) && NT(t) >= 0
  inv 18 @P01,P02,P05,P06,P12 postings: forall t: *Transaction, k: int {FSP(t,k)} {t.Splits[k]} :: TRX(t) && 0 <= k < NT(t) ==> t.Splits[k] == FSP(t,k)
  inv 18 @P01,P02,P12 values: forall s: *Split {s.Value} :: SPL(s) ==> s.Value == entry(18, s.Value)
  inv 19 @P01,P02,P05,P06,P12 first: forall t: *Transaction {TRX(t)} :: TRX(t) ==> len(t.Splits) >= NT(t) && NT(t) >= 0
  inv 19 @P01,P02,P05,P06,P12 postings: forall t: *Transaction, k: int {FSP(t,k)} {t.Splits[k]} :: TRX(t) && 0 <= k < NT(t) ==> t.Splits[k] == FSP(t,k)
  inv 19 @P01,P02,P12 values: forall s: *Split {s.Value} :: SPL(s) ==> s.Value == entry(18, s.Value)
  hint @P01,P02,P12 return: use forall t: *Transaction, c: *Currency {WS(heap(Split.Value), t, NT(t), c)} {WS(entry(18, heap(Split.Value)), t, NT(t), c)} :: WSeq(entry(18, heap(Split.Value)), heap(Split.Value), t, NT(t), c)
  inv 8 @P01,P02,P12 postings: forall t: *Transaction, k: int {FSP(t,k)} {t.Splits[k]} :: TRX(t) && 0 <= k < NT(t) ==> t.Splits[k] == FSP(t,k)
  inv 9 @P01,P02,P12 postings: forall t: *Transaction, k: int {FSP(t,k)} {t.Splits[k]} :: TRX(t) && 0 <= k < NT(t) ==> t.Splits[k] == FSP(t,k)
  inv 10 @P01,P02,P12 postings: forall t: *Transaction, k: int {FSP(t,k)} {t.Splits[k]} :: TRX(t) && 0 <= k < NT(t) ==> t.Splits[k] == FSP(t,k)
  inv 11 @P01,P02,P12 postings: forall t: *Transaction, k: int {FSP(t,k)} {t.Splits[k]} :: TRX(t) && 0 <= k < NT(t) ==> t.Splits[k] == FSP(t,k)
  inv 12 @P01,P02,P12 postings: forall t: *Transaction, k: int {FSP(t,k)} {t.Splits[k]} :: TRX(t) && 0 <= k < NT(t) ==> t.Splits[k] == FSP(t,k)
  inv 14 @P01,P02,P12 postings: forall t: *Transaction, k: int {FSP(t,k)} {t.Splits[k]} :: TRX(t) && 0 <= k < NT(t) ==> t.Splits[k] == FSP(t,k)
  inv 15 @P01,P02,P12 postings: forall t: *Transaction, k: int {FSP(t,k)} {t.Splits[k]} :: TRX(t) && 0 <= k < NT(t) ==> t.Splits[k] == FSP(t,k)
  inv 8 @P01,P02,P12 end: finished ==> iTransactions >= len(l.Transactions)
  inv 11 @P01,P02,P12 end: finished ==> iTransactions >= len(l.Transactions)
  inv 12 @P01,P02,P12 end: finished ==> iTransactions >= len(l.Transactions)
  inv 8 @P01,P02,P12 same: forall s: *Split {s.Value} {old(s.Value)} :: SPL(s) && old(s.Value.Currency) != nil ==> s.Value == old(s.Value)
  inv 9 @P01,P02,P12 same: forall s: *Split {s.Value} {old(s.Value)} :: SPL(s) && old(s.Value.Currency) != nil ==> s.Value == old(s.Value)
  inv 11 @P01,P02,P12 same: forall s: *Split {s.Value} {old(s.Value)} :: SPL(s) && old(s.Value.Currency) != nil ==> s.Value == old(s.Value)
  inv 12 @P01,P02,P12 same: forall s: *Split {s.Value} {old(s.Value)} :: SPL(s) && old(s.Value.Currency) != nil ==> s.Value == old(s.Value)
  hint @P01,P02,P12 loop 9 back: assert NT(transaction) == len(transaction.Splits) && TRX(transaction) && POS(transaction) == iTransactions-1
  hint @P01,P02,P12 loop 9 back: assert len(balance) == 2 ==> WS(heap(Split.Value), transaction, NT(transaction), balance[0].Currency) != 0 && WS(heap(Split.Value), transaction, NT(transaction), balance[1].Currency) != 0 && balance[0].Currency != balance[1].Currency
  hint @P01,P02,P12 loop 9 back: assert len(balance) != 2 ==> forall c: *Currency {WS(heap(Split.Value), transaction, NT(transaction), c)} :: WS(heap(Split.Value), transaction, NT(transaction), c) == 0
  hint @P01,P02,P12 loop 9 back: assert most2(heap(Split.Value), transaction, NT(transaction)) && notone(heap(Split.Value), transaction, NT(transaction))
  inv 8 @P02 notyet: forall s: *Split {s.Value} :: SPL(s) && noamount(s) && POS(STR(s)) >= iTransactions ==> s.Value.Currency == nil
  inv 8 @P02 exact: forall s: *Split, c: *Currency {WS(heap(Split.Value), STR(s), NT(STR(s)), c), SPL(s)} :: SPL(s) && noamount(s) && POS(STR(s)) < iTransactions ==> WS(heap(Split.Value), STR(s), NT(STR(s)), c) == 0
  inv 8 @P02 one: forall s: *Split, u: *Split {SPL(s), SPL(u)} :: SPL(s) && SPL(u) && noamount(s) && noamount(u) && STR(s) == STR(u) && POS(STR(s)) < iTransactions ==> s == u
  inv 9 @P02 notyet: forall s: *Split {s.Value} :: SPL(s) && noamount(s) && POS(STR(s)) >= iTransactions ==> s.Value.Currency == nil
  inv 9 @P02 exact: forall s: *Split, c: *Currency {WS(heap(Split.Value), STR(s), NT(STR(s)), c), SPL(s)} :: SPL(s) && noamount(s) && POS(STR(s)) < iTransactions ==> WS(heap(Split.Value), STR(s), NT(STR(s)), c) == 0
  inv 9 @P02 one: forall s: *Split, u: *Split {SPL(s), SPL(u)} :: SPL(s) && SPL(u) && noamount(s) && noamount(u) && STR(s) == STR(u) && POS(STR(s)) < iTransactions ==> s == u
  inv 11 @P02 notyet: forall s: *Split {s.Value} :: SPL(s) && noamount(s) && POS(STR(s)) >= iTransactions ==> s.Value.Currency == nil
  inv 11 @P02 exact: forall s: *Split, c: *Currency {WS(heap(Split.Value), STR(s), NT(STR(s)), c), SPL(s)} :: SPL(s) && noamount(s) && POS(STR(s)) < iTransactions ==> WS(heap(Split.Value), STR(s), NT(STR(s)), c) == 0
  inv 11 @P02 one: forall s: *Split, u: *Split {SPL(s), SPL(u)} :: SPL(s) && SPL(u) && noamount(s) && noamount(u) && STR(s) == STR(u) && POS(STR(s)) < iTransactions ==> s == u
  inv 12 @P02 notyet: forall s: *Split {s.Value} :: SPL(s) && noamount(s) && POS(STR(s)) >= iTransactions ==> s.Value.Currency == nil
  inv 12 @P02 exact: forall s: *Split, c: *Currency {WS(heap(Split.Value), STR(s), NT(STR(s)), c), SPL(s)} :: SPL(s) && noamount(s) && POS(STR(s)) < iTransactions ==> WS(heap(Split.Value), STR(s), NT(STR(s)), c) == 0
  inv 12 @P02 one: forall s: *Split, u: *Split {SPL(s), SPL(u)} :: SPL(s) && SPL(u) && noamount(s) && noamount(u) && STR(s) == STR(u) && POS(STR(s)) < iTransactions ==> s == u
  hint @P02 loop 9 back: assert forall s: *Split {SPL(s)} :: SPL(s) && noamount(s) && STR(s) == transaction ==> s == unbalancedSplit
  hint @P02 loop 9 back: assert unbalancedSplit != nil ==> forall c: *Currency {WS(heap(Split.Value), transaction, NT(transaction), c)} :: WS(heap(Split.Value), transaction, NT(transaction), c) == 0
  hint @P02 loop 9 back: assert forall s: *Split, c: *Currency {WS(heap(Split.Value), STR(s), NT(STR(s)), c), SPL(s)} :: SPL(s) && noamount(s) && POS(STR(s)) < iTransactions-1 ==> WS(heap(Split.Value), STR(s), NT(STR(s)), c) == 0
  hint @P02 loop 9 back: assert forall s: *Split {SPL(s)} :: SPL(s) && POS(STR(s)) == iTransactions-1 ==> STR(s) == transaction
  // P06: registers
  inv 5 @P02,P03,P04,P06 all: forall s: *Split {SPL(s)} :: SPL(s) && POS(STR(s)) < it(5) ==> registered(s)
  inv 5 @P02,P03,P04,P06 only: forall o: *Account, k: int {o.Splits[k]} :: ACC(o) && 0 <= k < len(o.Splits) ==> POS(STR(o.Splits[k])) < it(5)
  inv 5 @P02,P03,P04,P06 order: forall o: *Account, j: int, k: int {o.Splits[j], o.Splits[k]} :: ACC(o) && 0 <= j < k && k < len(o.Splits) ==> before(o.Splits[j], o.Splits[k])
  inv 6 @P02,P03,P04,P06 all: forall s: *Split {SPL(s)} :: SPL(s) && (POS(STR(s)) < it(5)-1 || (STR(s) == t && PIX(s) < it(6))) ==> registered(s)
  inv 6 @P02,P03,P04,P06 only: forall o: *Account, k: int {o.Splits[k]} :: ACC(o) && 0 <= k < len(o.Splits) ==> POS(STR(o.Splits[k])) < it(5)-1 || (STR(o.Splits[k]) == t && PIX(o.Splits[k]) < it(6))
  inv 6 @P02,P03,P04,P06 order: forall o: *Account, j: int, k: int {o.Splits[j], o.Splits[k]} :: ACC(o) && 0 <= j < k && k < len(o.Splits) ==> before(o.Splits[j], o.Splits[k])
  inv 7 @P02,P03,P04,P06 all: forall s: *Split {SPL(s)} :: SPL(s) ==> registered(s)
  inv 7 @P02,P03,P04,P06 done: forall o: *Account, j: int, k: int {o.Splits[j], o.Splits[k]} :: ACC(o) && ABS(o) < it(7) && 0 <= j < k && k < len(o.Splits) ==> chrono(o.Splits[j], o.Splits[k])
  inv 7 @P02,P03,P04,P06 left: forall o: *Account, j: int, k: int {o.Splits[j], o.Splits[k]} :: ACC(o) && ABS(o) >= it(7) && 0 <= j < k && k < len(o.Splits) ==> before(o.Splits[j], o.Splits[k])
  hint @P02,P03,P04,P06 loop 6 back: assert forall o: *Account, k: int {start(6, o.Splits[k])} :: ACC(o) && 0 <= k < start(6, len(o.Splits)) ==> o.Splits[k] == start(6, o.Splits[k]) && k < len(o.Splits)
  hint @P02,P03,P04,P06 loop 6 back: assert s == t.Splits[it(6)-1] && SPL(s) && s.Account.Splits[len(s.Account.Splits)-1] == s && len(s.Account.Splits) > 0
  hint @P02,P03,P04,P06 loop 6 back: assert forall o: *Account, k: int {o.Splits[k]} :: ACC(o) && 0 <= k < start(6, len(o.Splits)) ==> before(o.Splits[k], s)
  hint @P02,P03,P04,P06 loop 6 back: assert forall o: *Account, k: int {o.Splits[k]} :: ACC(o) && start(6, len(o.Splits)) <= k && k < len(o.Splits) ==> k == len(o.Splits)-1 && o.Splits[k] == s
  hint @P02,P03,P04,P06 loop 6 back: assert forall u: *Split {SPL(u)} :: SPL(u) && STR(u) == t && PIX(u) == it(6)-1 ==> u == s
  hint @P02,P03,P04,P06 loop 7 back: assert forall o: *Account, k: int {start(7, o.Splits[k])} :: ACC(o) && 0 <= k < len(o.Splits) && o != a ==> o.Splits[k] == start(7, o.Splits[k])
  hint @P02,P03,P04,P06 loop 7 back: assert forall o: *Account, k: int {start(7, o.Splits[k])} :: o == a && 0 <= k < len(o.Splits) ==> 0 <= permat(1, k) && permat(1, k) < len(o.Splits) && o.Splits[permat(1, k)] == start(7, o.Splits[k])
  inv 8 @P02,P03,P04 filled: forall o: *Account, k: int {o.Splits[k]} :: ACC(o) && 0 <= k < iAccounts[ABS(o)] ==> o.Splits[k].Value.Currency != nil
  inv 8 @P02,P03,P04 asserted: forall o: *Account, k: int {o.Splits[k]} :: ACC(o) && 0 <= k < iAccounts[ABS(o)] && l.Assertions[o.Splits[k]].Currency != nil ==> bal(o.Splits[k].Balance, l.Assertions[o.Splits[k]].Currency) == l.Assertions[o.Splits[k]].Amount
  inv 8 @P02,P03,P04 wf: forall o: *Account, k: int {o.Splits[k]} :: ACC(o) && 0 <= k < iAccounts[ABS(o)] ==> wfBal(o.Splits[k].Balance)
  inv 8 @P02,P03,P04 apart: forall o: *Account, k: int, p: *Account, j: int {o.Splits[k], p.Splits[j]} :: ACC(o) && ACC(p) && 0 <= k < iAccounts[ABS(o)] && 0 <= j < iAccounts[ABS(p)] && (o != p || j != k) ==> notshared(o.Splits[k], p.Splits[j])
  inv 8 @P03 balance: forall o: *Account, k: int, c: *Currency {bal(o.Splits[k].Balance, c)} :: ACC(o) && 0 <= k < iAccounts[ABS(o)] ==> bal(o.Splits[k].Balance, c) == reg(mem(*Split), heap(Split.Value), o, k+1, c)
  inv 9 @P02,P03,P04 filled: forall o: *Account, k: int {o.Splits[k]} :: ACC(o) && 0 <= k < iAccounts[ABS(o)] ==> o.Splits[k].Value.Currency != nil
  inv 9 @P02,P03,P04 asserted: forall o: *Account, k: int {o.Splits[k]} :: ACC(o) && 0 <= k < iAccounts[ABS(o)] && l.Assertions[o.Splits[k]].Currency != nil ==> bal(o.Splits[k].Balance, l.Assertions[o.Splits[k]].Currency) == l.Assertions[o.Splits[k]].Amount
  inv 9 @P02,P03,P04 wf: forall o: *Account, k: int {o.Splits[k]} :: ACC(o) && 0 <= k < iAccounts[ABS(o)] ==> wfBal(o.Splits[k].Balance)
  inv 9 @P02,P03,P04 apart: forall o: *Account, k: int, p: *Account, j: int {o.Splits[k], p.Splits[j]} :: ACC(o) && ACC(p) && 0 <= k < iAccounts[ABS(o)] && 0 <= j < iAccounts[ABS(p)] && (o != p || j != k) ==> notshared(o.Splits[k], p.Splits[j])
  inv 9 @P03 balance: forall o: *Account, k: int, c: *Currency {bal(o.Splits[k].Balance, c)} :: ACC(o) && 0 <= k < iAccounts[ABS(o)] ==> bal(o.Splits[k].Balance, c) == reg(mem(*Split), heap(Split.Value), o, k+1, c)
  inv 11 @P02,P03,P04 filled: forall o: *Account, k: int {o.Splits[k]} :: ACC(o) && 0 <= k < iAccounts[ABS(o)] ==> o.Splits[k].Value.Currency != nil
  inv 11 @P02,P03,P04 asserted: forall o: *Account, k: int {o.Splits[k]} :: ACC(o) && 0 <= k < iAccounts[ABS(o)] && l.Assertions[o.Splits[k]].Currency != nil ==> bal(o.Splits[k].Balance, l.Assertions[o.Splits[k]].Currency) == l.Assertions[o.Splits[k]].Amount
  inv 11 @P02,P03,P04 wf: forall o: *Account, k: int {o.Splits[k]} :: ACC(o) && 0 <= k < iAccounts[ABS(o)] ==> wfBal(o.Splits[k].Balance)
  inv 11 @P02,P03,P04 apart: forall o: *Account, k: int, p: *Account, j: int {o.Splits[k], p.Splits[j]} :: ACC(o) && ACC(p) && 0 <= k < iAccounts[ABS(o)] && 0 <= j < iAccounts[ABS(p)] && (o != p || j != k) ==> notshared(o.Splits[k], p.Splits[j])
  inv 11 @P03 balance: forall o: *Account, k: int, c: *Currency {bal(o.Splits[k].Balance, c)} :: ACC(o) && 0 <= k < iAccounts[ABS(o)] ==> bal(o.Splits[k].Balance, c) == reg(mem(*Split), heap(Split.Value), o, k+1, c)
  // (what is known of the registers, again)
  inv 12 @P02,P03,P04 regs: forall o: *Account, k: int {o.Splits[k]} :: ACC(o) && 0 <= k < len(o.Splits) ==> SPL(o.Splits[k]) && o.Splits[k].Account == o && allocated(o.Splits[k])
  inv 12 @P02,P03,P04 dist: forall o: *Account, j: int, k: int {o.Splits[j], o.Splits[k]} :: ACC(o) && 0 <= j < k && k < len(o.Splits) ==> o.Splits[j] != o.Splits[k]
  inv 12 @P02,P03,P04 accs: forall k: int {l.Accounts[k]} :: 0 <= k < len(l.Accounts) ==> ACC(l.Accounts[k]) && ABS(l.Accounts[k]) == k
  inv 12 @P02,P03,P04 accs2: forall o: *Account {ACC(o)} :: ACC(o) ==> 0 <= ABS(o) && ABS(o) < len(l.Accounts) && l.Accounts[ABS(o)] == o
  inv 12 @P02,P03,P04 filled: forall o: *Account, k: int {o.Splits[k]} :: ACC(o) && 0 <= k < iAccounts[ABS(o)] ==> o.Splits[k].Value.Currency != nil
  inv 12 @P02,P03,P04 asserted: forall o: *Account, k: int {o.Splits[k]} :: ACC(o) && 0 <= k < iAccounts[ABS(o)] && l.Assertions[o.Splits[k]].Currency != nil ==> bal(o.Splits[k].Balance, l.Assertions[o.Splits[k]].Currency) == l.Assertions[o.Splits[k]].Amount
  inv 12 @P02,P03,P04 wf: forall o: *Account, k: int {o.Splits[k]} :: ACC(o) && 0 <= k < iAccounts[ABS(o)] ==> wfBal(o.Splits[k].Balance)
  inv 12 @P02,P03,P04 apart: forall o: *Account, k: int, p: *Account, j: int {o.Splits[k], p.Splits[j]} :: ACC(o) && ACC(p) && 0 <= k < iAccounts[ABS(o)] && 0 <= j < iAccounts[ABS(p)] && (o != p || j != k) ==> notshared(o.Splits[k], p.Splits[j])
  inv 12 @P03 balance: forall o: *Account, k: int, c: *Currency {bal(o.Splits[k].Balance, c)} :: ACC(o) && 0 <= k < iAccounts[ABS(o)] ==> bal(o.Splits[k].Balance, c) == reg(mem(*Split), heap(Split.Value), o, k+1, c)
  inv 11 @P02,P03,P04 end: finished ==> forall k: int {l.Accounts[k]} :: 0 <= k < i ==> iAccounts[k] == len(l.Accounts[k].Splits)
  inv 12 @P02,P03,P04 end: finished ==> forall k: int {l.Accounts[k]} :: 0 <= k < i ==> iAccounts[k] == len(l.Accounts[k].Splits)
  inv 8 @P02,P03,P04 end: finished ==> forall k: int {l.Accounts[k]} :: 0 <= k < len(l.Accounts) ==> iAccounts[k] == len(l.Accounts[k].Splits)
  inv 12 @P02,P03,P04 b: wfBal(b)
  inv 12 @P02,P03,P04 bapart: forall o: *Account, k: int {o.Splits[k]} :: ACC(o) && 0 <= k < iAccounts[ABS(o)] ==> arr(b) == 0 || arr(o.Splits[k].Balance) != arr(b)
  inv 12 @P03 sum: forall c: *Currency {bal(b, c)} :: bal(b, c) == reg(mem(*Split), heap(Split.Value), l.Accounts[i], iAccounts[i], c)
  hint @P02,P03,P04 loop 12 back: assert forall o: *Account, k: int {o.Splits[k]} :: ACC(o) && 0 <= k < start(12, iAccounts[ABS(o)]) ==> o.Splits[k] != s && o.Splits[k].Balance == start(12, o.Splits[k].Balance)
  hint @P02,P03,P04 loop 12 back: assert forall o: *Account, k: int, n: int {at(mem(Value), o.Splits[k].Balance, n)} :: ACC(o) && 0 <= k < start(12, iAccounts[ABS(o)]) && 0 <= n < len(o.Splits[k].Balance) ==> at(mem(Value), o.Splits[k].Balance, n) == start(12, at(mem(Value), o.Splits[k].Balance, n))
  hint @P02,P03,P04 loop 12 back: assert forall o: *Account, k: int {o.Splits[k]} :: ACC(o) && 0 <= k < start(12, iAccounts[ABS(o)]) ==> wfBal(o.Splits[k].Balance)
  hint @P02,P03,P04 loop 12 back: use forall o: *Account, k: int, c: *Currency {bal(o.Splits[k].Balance, c)} :: SUMeq(start(12, mem(Value)), arr(o.Splits[k].Balance), off(o.Splits[k].Balance), mem(Value), arr(o.Splits[k].Balance), off(o.Splits[k].Balance), len(o.Splits[k].Balance), c)
  hint @P03 loop 12 back: use forall o: *Account, k: int, c: *Currency {reg(mem(*Split), heap(Split.Value), o, k, c)} {reg(mem(*Split), start(12, heap(Split.Value)), o, k, c)} :: RSeq(mem(*Split), start(12, heap(Split.Value)), mem(*Split), heap(Split.Value), arr(o.Splits), off(o.Splits), k, c)
  hint @P03 loop 12 back: use forall c: *Currency {bal(b, c)} :: RSstep(mem(*Split), heap(Split.Value), arr(l.Accounts[i].Splits), off(l.Accounts[i].Splits), iAccounts[i], c)
  hint @P03 loop 9 back: use forall o: *Account, k: int, c: *Currency {reg(mem(*Split), heap(Split.Value), o, k, c)} {reg(mem(*Split), start(9, heap(Split.Value)), o, k, c)} :: RSeq(mem(*Split), start(9, heap(Split.Value)), mem(*Split), heap(Split.Value), arr(o.Splits), off(o.Splits), k, c)
  hint @P02,P03,P04 call (*Balance).Add 4 before: use forall k: int {b[k]} :: SUMhas(mem(Value), arr(b), off(b), len(b), k, a.Currency)
  hint @P02,P03,P04 call (*Balance).Add 4 before: use SUMnone(mem(Value), arr(b), off(b), len(b), a.Currency)
  hint @P02,P03,P04 loop 12 back: use forall k: int {b[k]} :: SUMhas(mem(Value), arr(b), off(b), len(b), k, l.Assertions[s].Currency)
  hint @P02,P03,P04 loop 12 back: use SUMnone(mem(Value), arr(b), off(b), len(b), l.Assertions[s].Currency)
  inv 13 @P02,P03,P04 none: forall k: int {b[k]} :: 0 <= k < it(13) ==> b[k].Currency != a.Currency
  inv 10 @P02,P03,P04 newer: arr(balance) == 0 || arr(balance) >= entry(10, alloc)
  inv 10 @P02,P03,P04 kept: forall a: int, o: int, k: int {atr(mem(Value),a,o,k)} {entry(10, atr(mem(Value),a,o,k))} :: a < entry(10, alloc) ==> atr(mem(Value),a,o,k) == entry(10, atr(mem(Value),a,o,k))
  hint @P02,P03,P04 loop 9 back: use forall o: *Account, k: int, c: *Currency {bal(o.Splits[k].Balance, c)} :: SUMeq(entry(10, mem(Value)), arr(o.Splits[k].Balance), off(o.Splits[k].Balance), mem(Value), arr(o.Splits[k].Balance), off(o.Splits[k].Balance), len(o.Splits[k].Balance), c)
  hint @P02,P03,P04 loop 11 entry: use forall o: *Account, k: int, c: *Currency {bal(o.Splits[k].Balance, c)} :: SUMeq(entry(10, mem(Value)), arr(o.Splits[k].Balance), off(o.Splits[k].Balance), mem(Value), arr(o.Splits[k].Balance), off(o.Splits[k].Balance), len(o.Splits[k].Balance), c)
  hint @P02,P03,P04 loop 12 entry: use forall o: *Account, k: int, c: *Currency {bal(o.Splits[k].Balance, c)} :: SUMeq(start(11, mem(Value)), arr(o.Splits[k].Balance), off(o.Splits[k].Balance), mem(Value), arr(o.Splits[k].Balance), off(o.Splits[k].Balance), len(o.Splits[k].Balance), c)
  inv 18 @P02,P03,P04 new: forall k: int {l.transferAccount.Splits[k]} :: 0 <= k < len(l.transferAccount.Splits) ==> l.transferAccount.Splits[k] >= entry(18, alloc)
  inv 18 @P02,P03,P04 balances: forall s: *Split {s.Balance} :: SPL(s) ==> s.Balance == entry(18, s.Balance)
  inv 19 @P02,P03,P04 new: forall k: int {l.transferAccount.Splits[k]} :: 0 <= k < len(l.transferAccount.Splits) ==> l.transferAccount.Splits[k] >= entry(18, alloc)
  inv 19 @P02,P03,P04 balances: forall s: *Split {s.Balance} :: SPL(s) ==> s.Balance == entry(18, s.Balance)
  inv 20 @P02,P03,P04 kept: forall a: int, o: int, k: int {atr(mem(Value),a,o,k)} {entry(20, atr(mem(Value),a,o,k))} :: a < entry(20, alloc) ==> atr(mem(Value),a,o,k) == entry(20, atr(mem(Value),a,o,k))
  inv 20 @P02,P03,P04 newer: arr(b) == 0 || arr(b) >= entry(20, alloc)
  inv 20 @P02,P03,P04 balances: forall s: *Split {s.Balance} :: SPL(s) ==> s.Balance == entry(18, s.Balance)
  hint @P02,P03,P04 return: use forall s: *Split, c: *Currency {bal(s.Balance, c)} :: SUMeq(entry(20, mem(Value)), arr(s.Balance), off(s.Balance), mem(Value), arr(s.Balance), off(s.Balance), len(s.Balance), c)
  hint @P02,P03,P04 loop 12 back: assert l.Assertions[s].Currency != nil ==> bal(b, l.Assertions[s].Currency) == l.Assertions[s].Amount
  hint @P02,P03,P04 loop 12 back: assert l.Assertions[s].Currency != nil ==> bal(s.Balance, l.Assertions[s].Currency) == l.Assertions[s].Amount
  hint @P02,P03,P04 call (*Balance).Add 4 before: assert current.Amount == bal(b, a.Currency)
  hint @P02,P03,P04 call (*Balance).Add 4 after: assert bal(b, a.Currency) == a.Amount
  hint @P02,P03,P04 call (*Balance).Add 5 after: assert bal(s.Balance, a.Currency) == a.Amount
  inv 18 @P03,P06 accounts: forall o: *Account {o.Splits} :: ACC(o) && o != l.transferAccount ==> o.Splits == entry(18, o.Splits)
  inv 18 @P03,P06 registers: forall o: *Account, k: int {o.Splits[k]} {entry(18, o.Splits[k])} :: ACC(o) && o != l.transferAccount && 0 <= k < len(o.Splits) ==> o.Splits[k] == entry(18, o.Splits[k])
  inv 18 @P03,P06 elsewhere: forall o: *Account, t: *Transaction {o.Splits, t.Splits} :: ACC(o) && o != l.transferAccount && TRX(t) ==> arr(o.Splits) == 0 || arr(o.Splits) != arr(t.Splits)
  inv 18 @P03,P06 elsewhere2: forall o: *Account {o.Splits} :: ACC(o) && o != l.transferAccount ==> arr(o.Splits) == 0 || arr(o.Splits) != arr(l.transferAccount.Splits)
  inv 18 @P03,P06 new2: forall k: int {l.transferAccount.Splits[k]} :: 0 <= k < len(l.transferAccount.Splits) ==> l.transferAccount.Splits[k] >= entry(18, alloc)
  inv 18 @P03,P06 distinct: forall j: int, k: int {l.transferAccount.Splits[j], l.transferAccount.Splits[k]} :: 0 <= j < k && k < len(l.transferAccount.Splits) ==> l.transferAccount.Splits[j] < l.transferAccount.Splits[k]
  inv 18 @P03 values3: forall s: *Split {s.Value} :: SPL(s) ==> s.Value == entry(18, s.Value)
  inv 19 @P03,P06 accounts: forall o: *Account {o.Splits} :: ACC(o) && o != l.transferAccount ==> o.Splits == entry(18, o.Splits)
  inv 19 @P03,P06 registers: forall o: *Account, k: int {o.Splits[k]} {entry(18, o.Splits[k])} :: ACC(o) && o != l.transferAccount && 0 <= k < len(o.Splits) ==> o.Splits[k] == entry(18, o.Splits[k])
  inv 19 @P03,P06 elsewhere: forall o: *Account, t: *Transaction {o.Splits, t.Splits} :: ACC(o) && o != l.transferAccount && TRX(t) ==> arr(o.Splits) == 0 || arr(o.Splits) != arr(t.Splits)
  inv 19 @P03,P06 elsewhere2: forall o: *Account {o.Splits} :: ACC(o) && o != l.transferAccount ==> arr(o.Splits) == 0 || arr(o.Splits) != arr(l.transferAccount.Splits)
  inv 19 @P03,P06 new2: forall k: int {l.transferAccount.Splits[k]} :: 0 <= k < len(l.transferAccount.Splits) ==> l.transferAccount.Splits[k] >= entry(18, alloc)
  inv 19 @P03,P06 distinct: forall j: int, k: int {l.transferAccount.Splits[j], l.transferAccount.Splits[k]} :: 0 <= j < k && k < len(l.transferAccount.Splits) ==> l.transferAccount.Splits[j] < l.transferAccount.Splits[k]
  inv 19 @P03 values3: forall s: *Split {s.Value} :: SPL(s) ==> s.Value == entry(18, s.Value)
  inv 20 @P03,P06 distinct: forall j: int, k: int {l.transferAccount.Splits[j], l.transferAccount.Splits[k]} :: 0 <= j < k && k < len(l.transferAccount.Splits) ==> l.transferAccount.Splits[j] != l.transferAccount.Splits[k] && l.transferAccount.Splits[j] >= entry(18, alloc)
  inv 20 @P03 b: wfBal(b)
  inv 20 @P03 sum: forall c: *Currency {bal(b, c)} :: bal(b, c) == reg(mem(*Split), heap(Split.Value), l.transferAccount, it(20), c)
  inv 20 @P03 balance: forall k: int, c: *Currency {bal(l.transferAccount.Splits[k].Balance, c)} :: 0 <= k < it(20) ==> bal(l.transferAccount.Splits[k].Balance, c) == reg(mem(*Split), heap(Split.Value), l.transferAccount, k+1, c)
  inv 20 @P03 wf: forall k: int {l.transferAccount.Splits[k]} :: 0 <= k < it(20) ==> wfBal(l.transferAccount.Splits[k].Balance) && (arr(b) == 0 || arr(l.transferAccount.Splits[k].Balance) != arr(b))
  inv 20 @P03 new: forall k: int {l.transferAccount.Splits[k]} :: 0 <= k < it(20) ==> arr(l.transferAccount.Splits[k].Balance) == 0 || arr(l.transferAccount.Splits[k].Balance) >= entry(20, alloc)
  inv 20 @P03 apart: forall j: int, k: int {l.transferAccount.Splits[j], l.transferAccount.Splits[k]} :: 0 <= j < it(20) && 0 <= k < it(20) && j != k ==> notshared(l.transferAccount.Splits[j], l.transferAccount.Splits[k])
  hint @P03 loop 20 back: use forall c: *Currency {bal(b, c)} :: RSstep(mem(*Split), heap(Split.Value), arr(l.transferAccount.Splits), off(l.transferAccount.Splits), it(20), c)
  hint @P03 return: use forall o: *Account, n: int, c: *Currency {reg(mem(*Split), heap(Split.Value), o, n, c)} :: RSeq(entry(14, mem(*Split)), entry(14, heap(Split.Value)), mem(*Split), heap(Split.Value), arr(o.Splits), off(o.Splits), n, c)
  hint @P03 return: use forall s: *Split, c: *Currency {bal(s.Balance, c)} :: SUMeq(entry(20, mem(Value)), arr(s.Balance), off(s.Balance), mem(Value), arr(s.Balance), off(s.Balance), len(s.Balance), c)
  hint @P03 return: assert result == nil ==> forall s: *Split {s.Balance} :: SPL(s) ==> s.Balance == entry(14, s.Balance)
  hint @P03 return: assert result == nil ==> forall o: *Account, k: int {o.Splits[k]} :: ACC(o) && o != l.transferAccount && 0 <= k < len(o.Splits) ==> o.Splits == entry(14, o.Splits) && o.Splits[k] == entry(14, o.Splits[k]) && SPL(o.Splits[k])
  hint @P03 return: assert result == nil ==> forall s: *Split {s.Balance} :: SPL(s) ==> arr(s.Balance) < entry(20, alloc)
  hint @P03 return: assert result == nil ==> forall s: *Split, i: int {at(mem(Value), s.Balance, i)} :: SPL(s) ==> at(mem(Value), s.Balance, i) == entry(14, at(mem(Value), s.Balance, i))
  hint @P03 return: assert result == nil ==> forall s: *Split {s.Balance} :: SPL(s) && entry(14, wfBal(s.Balance)) ==> wfBal(s.Balance)
  hint @P03 return: assert result == nil ==> forall o: *Account, k: int {o.Splits[k]} :: ACC(o) && o != l.transferAccount && 0 <= k < len(o.Splits) ==> entry(14, wfBal(o.Splits[k].Balance))
  hint @P03 return: assert result == nil ==> forall o: *Account, k: int {o.Splits[k]} :: ACC(o) && o != l.transferAccount && 0 <= k < len(o.Splits) ==> wfBal(o.Splits[k].Balance)
  hint @P03 return: assert result == nil ==> forall k: int {l.transferAccount.Splits[k]} :: 0 <= k < len(l.transferAccount.Splits) ==> wfBal(l.transferAccount.Splits[k].Balance) && (arr(l.transferAccount.Splits[k].Balance) == 0 || arr(l.transferAccount.Splits[k].Balance) >= entry(20, alloc))
  hint @P03 return: assert result == nil ==> forall o: *Account, k: int, p: *Account, j: int {o.Splits[k], p.Splits[j]} :: ACC(o) && ACC(p) && o != l.transferAccount && p != l.transferAccount && 0 <= k < len(o.Splits) && 0 <= j < len(p.Splits) && (o != p || j != k) ==> notshared(o.Splits[k], p.Splits[j])
  hint @P03 loop 14 entry: assert forall o: *Account, k: int {o.Splits[k]} :: ACC(o) && 0 <= k < len(o.Splits) ==> wfBal(o.Splits[k].Balance)
  inv 18 @P06 posted: forall t: *Transaction, k: int {t.Splits[k]} :: TRX(t) && NT(t) <= k && k < len(t.Splits) ==> t.Splits[k].Account == l.transferAccount && t.Splits[k].Transaction == t && t.Splits[k] >= entry(18, alloc) && transferred(t.Splits[k])
  inv 18 @P06 transfers: forall k: int {l.transferAccount.Splits[k]} :: 0 <= k < len(l.transferAccount.Splits) ==> l.transferAccount.Splits[k].Account == l.transferAccount && posted(l.transferAccount.Splits[k])
  inv 18 @P06 linked: forall s: *Split {SPL(s)} :: SPL(s) ==> s.Transaction == entry(18, s.Transaction) && s.Account == entry(18, s.Account) && s.Time == entry(18, s.Time)
  inv 19 @P06 posted: forall t: *Transaction, k: int {t.Splits[k]} :: TRX(t) && NT(t) <= k && k < len(t.Splits) ==> t.Splits[k].Account == l.transferAccount && t.Splits[k].Transaction == t && t.Splits[k] >= entry(18, alloc) && transferred(t.Splits[k])
  inv 19 @P06 transfers: forall k: int {l.transferAccount.Splits[k]} :: 0 <= k < len(l.transferAccount.Splits) ==> l.transferAccount.Splits[k].Account == l.transferAccount && posted(l.transferAccount.Splits[k])
  inv 19 @P06 linked: forall s: *Split {SPL(s)} :: SPL(s) ==> s.Transaction == entry(18, s.Transaction) && s.Account == entry(18, s.Account) && s.Time == entry(18, s.Time)
  inv 8 @P06,P12 first: len(l.Prices) >= old(len(l.Prices)) && forall i: int {l.Prices[i]} {old(l.Prices[i])} :: 0 <= i < old(len(l.Prices)) ==> l.Prices[i] == old(l.Prices[i])
  inv 9 @P06,P12 first: len(l.Prices) >= old(len(l.Prices)) && forall i: int {l.Prices[i]} {old(l.Prices[i])} :: 0 <= i < old(len(l.Prices)) ==> l.Prices[i] == old(l.Prices[i])
  inv 16 @P06,P12 first: len(l.Prices) >= old(len(l.Prices)) && forall i: int {l.Prices[i]} {old(l.Prices[i])} :: 0 <= i < old(len(l.Prices)) ==> l.Prices[i] == old(l.Prices[i])
  inv 5 @P05,P06 linked: forall s: *Split {SPL(s)} :: SPL(s) && POS(STR(s)) < it(5) ==> s.Transaction == STR(s) && (old(s.Time) != nil ==> s.Time == old(s.Time)) && (old(s.Time) == nil ==> s.Time == &STR(s).Time)
  inv 5 @P05,P06 others: forall s: *Split {SPL(s)} :: SPL(s) && !(POS(STR(s)) < it(5)) ==> s.Time == old(s.Time)
  inv 6 @P05,P06 linked: forall s: *Split {SPL(s)} :: SPL(s) && (POS(STR(s)) < it(5)-1 || (STR(s) == t && PIX(s) < it(6))) ==> s.Transaction == STR(s) && (old(s.Time) != nil ==> s.Time == old(s.Time)) && (old(s.Time) == nil ==> s.Time == &STR(s).Time)
  inv 6 @P05,P06 others: forall s: *Split {SPL(s)} :: SPL(s) && !((POS(STR(s)) < it(5)-1 || (STR(s) == t && PIX(s) < it(6)))) ==> s.Time == old(s.Time)
  hint @P06 loop 20 entry: assert forall k: int {start(18, l.transferAccount.Splits[k])} :: 0 <= k < len(l.transferAccount.Splits) ==> 0 <= permat(3,k) && permat(3,k) < len(l.transferAccount.Splits) && l.transferAccount.Splits[permat(3,k)] == start(18, l.transferAccount.Splits[k])
  hint @P06 loop 20 entry: assert forall t: *Transaction, k: int {t.Splits[k]} :: TRX(t) && 0 <= k < len(t.Splits) ==> t.Splits[k] == start(18, t.Splits[k])
  hint @P06 loop 20 entry: assert forall s: *Split {s.Transaction} {start(18, s.Transaction)} :: start(18, transferred(s)) ==> transferred(s)
  hint @P06 loop 20 entry: assert forall t: *Transaction, k: int {t.Splits[k]} :: TRX(t) && NT(t) <= k && k < len(t.Splits) && t.Splits[k] == start(18, t.Splits[k]) ==> start(18, transferred(t.Splits[k]))
  hint @P06 loop 20 entry: assert forall t: *Transaction, k: int {t.Splits[k]} :: TRX(t) && NT(t) <= k && k < len(t.Splits) && t.Splits[k] == start(18, t.Splits[k]) ==> transferred(t.Splits[k])
  hint @P06 loop 20 entry: assert forall o: *Account, k: int {o.Splits[k]} {entry(14, o.Splits[k])} :: ACC(o) && o != l.transferAccount && 0 <= k < len(o.Splits) ==> o.Splits[k] == entry(14, o.Splits[k]) && o.Splits == entry(14, o.Splits)
  hint @P06 loop 20 entry: assert forall s: *Split {SPL(s)} :: SPL(s) ==> s.Time == entry(14, s.Time) && inst(*s.Time) == entry(14, inst(*s.Time)) && s.Account == entry(14, s.Account)
  hint @P06 loop 20 entry: assert forall s: *Split {SPL(s)} :: SPL(s) ==> registered(s)
  hint @P06 loop 20 entry: assert forall o: *Account, j: int, k: int {o.Splits[j], o.Splits[k]} :: ACC(o) && o != l.transferAccount && 0 <= j < k && k < len(o.Splits) ==> chrono(o.Splits[j], o.Splits[k])
  hint @P05,P06 call append 16 before: assert len(l.Transactions[i].Splits) == start(19, len(l.Transactions[i].Splits)) + 2 && l.Transactions[i].Splits[len(l.Transactions[i].Splits)-2] == split1 && l.Transactions[i].Splits[len(l.Transactions[i].Splits)-1] == split2
  hint @P05,P06 call append 17 before: assert l.Transactions[i].Splits[len(l.Transactions[i].Splits)-2] == split1 && l.Transactions[i].Splits[len(l.Transactions[i].Splits)-1] == split2 && l.transferAccount.Splits[len(l.transferAccount.Splits)-1] == split1
  hint @P05,P06 loop 19 back: assert len(l.transferAccount.Splits) != start(19, len(l.transferAccount.Splits)) ==> len(l.Transactions[i].Splits) == start(19, len(l.Transactions[i].Splits)) + 2 && l.Transactions[i].Splits[len(l.Transactions[i].Splits)-2] == l.transferAccount.Splits[len(l.transferAccount.Splits)-2] && l.Transactions[i].Splits[len(l.Transactions[i].Splits)-1] == l.transferAccount.Splits[len(l.transferAccount.Splits)-1]
  hint @P05,P06 loop 19 back: assert len(l.transferAccount.Splits) != start(19, len(l.transferAccount.Splits)) ==> l.transferAccount.Splits[len(l.transferAccount.Splits)-2].Transaction == l.Transactions[i] && l.transferAccount.Splits[len(l.transferAccount.Splits)-1].Transaction == l.Transactions[i]
  hint @P06 loop 19 back: assert forall s: *Split {s.Transaction} {start(19, s.Transaction)} :: s < start(19, alloc) ==> s.Transaction == start(19, s.Transaction)
  hint @P06 loop 19 back: assert forall t: *Transaction, k: int {start(19, t.Splits[k])} :: TRX(t) && 0 <= k && k < start(19, len(t.Splits)) ==> k < len(t.Splits) && t.Splits[k] == start(19, t.Splits[k])
  hint @P06 loop 19 back: assert forall s: *Split {s.Transaction} :: s < start(19, alloc) && TRX(s.Transaction) && start(19, posted(s)) ==> posted(s)
  // P05
  inv 18 @P05 given: forall s: *Split {s.Value} {s.Time} :: SPL(s) ==> s.Value == entry(18, s.Value) && s.Time == entry(18, s.Time)
  inv 18 @P05 dates: forall t: *Transaction, k: int {t.Splits[k]} :: TRX(t) && 0 <= k < len(t.Splits) ==> INST(t.Splits[k].Time) == inst(*t.Splits[k].Time)
  inv 18 @P05 left: forall t: *Transaction {TRX(t)} :: TRX(t) && POS(t) >= it(18) ==> len(t.Splits) == NT(t)
  inv 18 @P05 books: forall t: *Transaction, m: int, c: *Currency {ds(t, len(t.Splits), m, c)} :: TRX(t) && POS(t) < it(18) ==> ds(t, len(t.Splits), m, c) == due(t, m, c)
  inv 18 @P05 count: forall t: *Transaction {TRX(t)} :: TRX(t) && POS(t) < it(18) ==> len(t.Splits) == NT(t) + 2*OD(PT(), t, NT(t))
  inv 18 @P05 pairs: forall t: *Transaction, k: int {FSP(t,k)} :: TRX(t) && POS(t) < it(18) && 0 <= k < NT(t) && FSP(t,k).Time != &t.Time ==> pair(t, k, NT(t) + 2*OD(PT(), t, k))
  inv 19 @P05 given: forall s: *Split {s.Value} {s.Time} :: SPL(s) ==> s.Value == entry(18, s.Value) && s.Time == entry(18, s.Time)
  inv 19 @P05 dates: forall t: *Transaction, k: int {t.Splits[k]} :: TRX(t) && 0 <= k < len(t.Splits) ==> INST(t.Splits[k].Time) == inst(*t.Splits[k].Time)
  inv 19 @P05 left: forall t: *Transaction {TRX(t)} :: TRX(t) && POS(t) > i ==> len(t.Splits) == NT(t)
  inv 19 @P05 books: forall t: *Transaction, m: int, c: *Currency {ds(t, len(t.Splits), m, c)} :: TRX(t) && POS(t) < i ==> ds(t, len(t.Splits), m, c) == due(t, m, c)
  inv 19 @P05 count: forall t: *Transaction {TRX(t)} :: TRX(t) && POS(t) < i ==> len(t.Splits) == NT(t) + 2*OD(PT(), t, NT(t))
  inv 19 @P05 pairs: forall t: *Transaction, k: int {FSP(t,k)} :: TRX(t) && POS(t) < i && 0 <= k < NT(t) && FSP(t,k).Time != &t.Time ==> pair(t, k, NT(t) + 2*OD(PT(), t, k))
  inv 19 @P05 sum: forall m: int, c: *Currency {ds(l.Transactions[i], len(l.Transactions[i].Splits), m, c)} :: ds(l.Transactions[i], len(l.Transactions[i].Splits), m, c) == FD(VT(), PT(), l.Transactions[i], NT(l.Transactions[i]), m, c) - FD(VT(), PT(), l.Transactions[i], it(19), m, c) + ite(INST(&l.Transactions[i].Time) <= m, VS(VT(), l.Transactions[i], it(19), c), 0)
  inv 19 @P05 size: it(19) <= NT(l.Transactions[i]) && len(l.Transactions[i].Splits) == NT(l.Transactions[i]) + 2*OD(PT(), l.Transactions[i], it(19))
  inv 19 @P05 some: forall k: int {FSP(l.Transactions[i],k)} :: 0 <= k < it(19) && FSP(l.Transactions[i],k).Time != &l.Transactions[i].Time ==> pair(l.Transactions[i], k, NT(l.Transactions[i]) + 2*OD(PT(), l.Transactions[i], k))
  hint @P05 loop 18 entry: assert forall s: *Split {s.Time} :: SPL(s) ==> s.Time != nil && INST(s.Time) == inst(*s.Time)
  hint @P05 loop 19 entry: use forall m: int, c: *Currency {ds(l.Transactions[i], len(l.Transactions[i].Splits), m, c)} :: DSFD(mem(*Split), heap(Split.Value), heap(Split.Time), arr(l.Transactions[i].Splits), off(l.Transactions[i].Splits), VT(), PT(), l.Transactions[i], NT(l.Transactions[i]), m, c)
  hint @P05 loop 19 back: use forall t: *Transaction, m: int, c: *Currency {ds(t, len(t.Splits), m, c)} {ds(t, start(19, len(t.Splits)), m, c)} :: DSeq(start(19, mem(*Split)), start(19, heap(Split.Value)), start(19, heap(Split.Time)), start(19, arr(t.Splits)), start(19, off(t.Splits)), mem(*Split), heap(Split.Value), heap(Split.Time), arr(t.Splits), off(t.Splits), start(19, len(t.Splits)), m, c)
  hint @P05 loop 19 back: use forall m: int, c: *Currency {ds(l.Transactions[i], len(l.Transactions[i].Splits), m, c)} :: DSstep(mem(*Split), heap(Split.Value), heap(Split.Time), arr(l.Transactions[i].Splits), off(l.Transactions[i].Splits), len(l.Transactions[i].Splits), m, c)
  hint @P05 loop 19 back: use forall m: int, c: *Currency {ds(l.Transactions[i], len(l.Transactions[i].Splits), m, c)} :: DSstep(mem(*Split), heap(Split.Value), heap(Split.Time), arr(l.Transactions[i].Splits), off(l.Transactions[i].Splits), len(l.Transactions[i].Splits)-1, m, c)
  hint @P05 loop 19 back: use forall m: int, c: *Currency {ds(l.Transactions[i], len(l.Transactions[i].Splits), m, c)} :: FDstep(VT(), PT(), l.Transactions[i], it(19), m, c)
  hint @P05 loop 19 back: use forall c: *Currency {VS(VT(), l.Transactions[i], it(19), c)} :: VSstep(VT(), l.Transactions[i], it(19), c)
  hint @P05 loop 19 back: use ODstep(PT(), l.Transactions[i], it(19))
  hint @P05 loop 19 back: assert FSP(l.Transactions[i], it(19)-1).Time != &l.Transactions[i].Time ==> pair(l.Transactions[i], it(19)-1, NT(l.Transactions[i]) + 2*OD(PT(), l.Transactions[i], it(19)-1))
  hint @P05 loop 19 back: assert forall k: int {start(19, l.Transactions[i].Splits[k])} {l.Transactions[i].Splits[k]} :: 0 <= k < start(19, len(l.Transactions[i].Splits)) ==> l.Transactions[i].Splits[k] == start(19, l.Transactions[i].Splits[k]) && l.Transactions[i].Splits[k].Value == start(19, l.Transactions[i].Splits[k].Value) && l.Transactions[i].Splits[k].Time == start(19, l.Transactions[i].Splits[k].Time) && l.Transactions[i].Splits[k].Account == start(19, l.Transactions[i].Splits[k].Account)
  hint @P05 loop 19 back: use forall k: int {OD(PT(), l.Transactions[i], k)} :: ODpos(PT(), l.Transactions[i], k)
  hint @P05 loop 19 back: assert forall s: *Split {s.Time} {s.Value} :: SPL(s) ==> s.Time == start(19, s.Time) && s.Value == start(19, s.Value)
  hint @P05 loop 19 back: assert forall k: int {FSP(l.Transactions[i],k)} :: 0 <= k < it(19)-1 && FSP(l.Transactions[i],k).Time != &l.Transactions[i].Time ==> pair(l.Transactions[i], k, NT(l.Transactions[i]) + 2*OD(PT(), l.Transactions[i], k))
  hint @P05 loop 20 entry: assert forall t: *Transaction, k: int {t.Splits[k]} :: TRX(t) && 0 <= k < len(t.Splits) ==> t.Splits[k] == start(18, t.Splits[k])
  hint @P05 loop 20 entry: use forall t: *Transaction, m: int, c: *Currency {ds(t, len(t.Splits), m, c)} :: DSeq(start(18, mem(*Split)), start(18, heap(Split.Value)), start(18, heap(Split.Time)), start(18, arr(t.Splits)), start(18, off(t.Splits)), mem(*Split), heap(Split.Value), heap(Split.Time), arr(t.Splits), off(t.Splits), len(t.Splits), m, c)
  hint @P05 loop 20 entry: assert forall t: *Transaction, m: int, c: *Currency {ds(t, len(t.Splits), m, c)} :: TRX(t) ==> ds(t, len(t.Splits), m, c) == due(t, m, c)
  hint @P05 loop 20 entry: assert forall s: *Split {s.Value} {s.Time} :: SPL(s) ==> s.Value == entry(18, s.Value) && s.Time == entry(18, s.Time)
  hint @P05 loop 20 entry: use forall t: *Transaction, c: *Currency {VS(heap(Split.Value), t, NT(t), c)} {VS(VT(), t, NT(t), c)} :: VSeq(VT(), heap(Split.Value), t, NT(t), c)
  hint @P05 loop 20 entry: use forall t: *Transaction, k: int {OD(heap(Split.Time), t, k)} {OD(PT(), t, k)} :: ODeq(PT(), heap(Split.Time), t, k)
  hint @P05 loop 20 entry: assert forall t: *Transaction, c: *Currency {VS(heap(Split.Value), t, NT(t), c)} :: TRX(t) ==> VS(heap(Split.Value), t, NT(t), c) == VS(VT(), t, NT(t), c)
  hint @P05 loop 20 entry: assert forall t: *Transaction, k: int {OD(heap(Split.Time), t, k)} :: TRX(t) && k <= NT(t) ==> OD(heap(Split.Time), t, k) == OD(PT(), t, k)
  hint @P05 loop 20 entry: assert forall t: *Transaction {TRX(t)} :: TRX(t) ==> len(t.Splits) == NT(t) + 2*OD(heap(Split.Time), t, NT(t))
  hint @P05 loop 20 entry: assert forall t: *Transaction, k: int {FSP(t,k)} :: TRX(t) && 0 <= k < NT(t) && FSP(t,k).Time != &t.Time ==> pair(t, k, NT(t) + 2*OD(heap(Split.Time), t, k))
  hint @P05 loop 19 back: assert forall m: int, c: *Currency {ds(l.Transactions[i], start(19, len(l.Transactions[i].Splits)), m, c)} {ds(l.Transactions[i], len(l.Transactions[i].Splits), m, c)} :: ds(l.Transactions[i], start(19, len(l.Transactions[i].Splits)), m, c) == start(19, ds(l.Transactions[i], len(l.Transactions[i].Splits), m, c))
  hint @P05 loop 19 back: assert FSP(l.Transactions[i], it(19)-1).Time == &l.Transactions[i].Time ==> len(l.Transactions[i].Splits) == start(19, len(l.Transactions[i].Splits))
  hint @P05 loop 19 back: assert FSP(l.Transactions[i], it(19)-1).Time != &l.Transactions[i].Time ==> forall m: int, c: *Currency {ds(l.Transactions[i], len(l.Transactions[i].Splits), m, c)} :: ds(l.Transactions[i], len(l.Transactions[i].Splits), m, c) == ds(l.Transactions[i], start(19, len(l.Transactions[i].Splits)), m, c) + ite(INST(l.Transactions[i].Splits[len(l.Transactions[i].Splits)-2].Time) <= m, part(l.Transactions[i].Splits[len(l.Transactions[i].Splits)-2].Value, c), 0) + ite(INST(l.Transactions[i].Splits[len(l.Transactions[i].Splits)-1].Time) <= m, part(l.Transactions[i].Splits[len(l.Transactions[i].Splits)-1].Value, c), 0)
  hint @P05 loop 19 back: assert FSP(l.Transactions[i], it(19)-1).Time != &l.Transactions[i].Time ==> forall c: *Currency {part(l.Transactions[i].Splits[len(l.Transactions[i].Splits)-2].Value, c)} :: part(l.Transactions[i].Splits[len(l.Transactions[i].Splits)-2].Value, c) == 0-part(FSP(l.Transactions[i], it(19)-1).Value, c)
  hint @P05 loop 19 back: assert FSP(l.Transactions[i], it(19)-1).Time != &l.Transactions[i].Time ==> forall m: int, c: *Currency {ds(l.Transactions[i], len(l.Transactions[i].Splits), m, c)} :: ds(l.Transactions[i], len(l.Transactions[i].Splits), m, c) == ds(l.Transactions[i], start(19, len(l.Transactions[i].Splits)), m, c) - ite(INST(FSP(l.Transactions[i], it(19)-1).Time) <= m, part(FSP(l.Transactions[i], it(19)-1).Value, c), 0) + ite(INST(&l.Transactions[i].Time) <= m, part(FSP(l.Transactions[i], it(19)-1).Value, c), 0)
  // P12
  inv 8 @P12 count: len(l.Prices) == oldp() + tp(heap(Split.Value), iTransactions)
  inv 8 @P12 rates: forall t: *Transaction {TRX(t)} :: TRX(t) && POS(t) < iTransactions && unb(heap(Split.Value), t) ==> tpricedat(heap(Split.Value), t, oldp() + tp(heap(Split.Value), POS(t)))
  inv 9 @P12 count: len(l.Prices) == oldp() + tp(heap(Split.Value), iTransactions)
  inv 9 @P12 rates: forall t: *Transaction {TRX(t)} :: TRX(t) && POS(t) < iTransactions && unb(heap(Split.Value), t) ==> tpricedat(heap(Split.Value), t, oldp() + tp(heap(Split.Value), POS(t)))
  inv 11 @P12 count: len(l.Prices) == oldp() + tp(heap(Split.Value), iTransactions)
  inv 11 @P12 rates: forall t: *Transaction {TRX(t)} :: TRX(t) && POS(t) < iTransactions && unb(heap(Split.Value), t) ==> tpricedat(heap(Split.Value), t, oldp() + tp(heap(Split.Value), POS(t)))
  inv 12 @P12 count: len(l.Prices) == oldp() + tp(heap(Split.Value), iTransactions)
  inv 12 @P12 rates: forall t: *Transaction {TRX(t)} :: TRX(t) && POS(t) < iTransactions && unb(heap(Split.Value), t) ==> tpricedat(heap(Split.Value), t, oldp() + tp(heap(Split.Value), POS(t)))
  inv 8 @P12 allocated: forall k: int {l.Prices[k]} :: 0 <= k < len(l.Prices) ==> allocated(l.Prices[k])
  inv 9 @P12 allocated: forall k: int {l.Prices[k]} :: 0 <= k < len(l.Prices) ==> allocated(l.Prices[k])
  hint @P12 loop 9 back: use forall t: *Transaction {UC(heap(Split.Value), t)} {UC(entry(10, heap(Split.Value)), t)} :: UNBeq(entry(10, heap(Split.Value)), heap(Split.Value), t)
  hint @P12 loop 9 back: use forall n: int {tp(heap(Split.Value), n)} {tp(entry(10, heap(Split.Value)), n)} :: TPeq(entry(10, heap(Split.Value)), heap(Split.Value), mem(*Transaction), arr(l.Transactions), off(l.Transactions), n)
  hint @P12 loop 9 back: assert transaction == l.Transactions[iTransactions-1] && NTT(transaction) == NT(transaction)
  hint @P12 loop 9 back: assert forall t: *Transaction {TRX(t)} :: TRX(t) && POS(t) < iTransactions-1 ==> (unb(heap(Split.Value), t) <==> unb(entry(10, heap(Split.Value)), t))
  hint @P12 loop 9 back: assert tp(heap(Split.Value), iTransactions-1) == tp(entry(10, heap(Split.Value)), iTransactions-1)
  hint @P12 loop 9 back: use TPstep(heap(Split.Value), mem(*Transaction), arr(l.Transactions), off(l.Transactions), iTransactions)
  hint @P12 loop 9 back: assert unb(heap(Split.Value), transaction) <==> len(balance) == 2
  hint @P12 loop 9 back: assert len(l.Prices) == start(9, len(l.Prices)) + ite(len(balance) == 2, 2, 0)
  hint @P12 loop 12 back: use forall t: *Transaction {UC(heap(Split.Value), t)} {UC(start(12, heap(Split.Value)), t)} :: UNBeq(start(12, heap(Split.Value)), heap(Split.Value), t)
  hint @P12 loop 12 back: use forall n: int {tp(heap(Split.Value), n)} {tp(start(12, heap(Split.Value)), n)} :: TPeq(start(12, heap(Split.Value)), heap(Split.Value), mem(*Transaction), arr(l.Transactions), off(l.Transactions), n)
  inv 14 @P12 count: len(pricedSplits) == cp(it(14)) && nzp(len(pricedSplits)) == pp(heap(Split.Value), it(14))
  inv 14 @P12 placed: forall s: *Split {SPL(s)} :: SPL(s) && HASP(s) && POS(STR(s)) < it(14) ==> 0 <= cp(POS(STR(s))) + CT(STR(s), PIX(s)) && cp(POS(STR(s))) + CT(STR(s), PIX(s)) < len(pricedSplits) && pricedSplits[cp(POS(STR(s))) + CT(STR(s), PIX(s))] == s && nzp(cp(POS(STR(s))) + CT(STR(s), PIX(s))) == pp(heap(Split.Value), POS(STR(s))) + NZT(heap(Split.Value), STR(s), PIX(s))
  inv 15 @P12 count: len(pricedSplits) == cp(it(14)-1) + CT(t, it(15)) && nzp(len(pricedSplits)) == pp(heap(Split.Value), it(14)-1) + NZT(heap(Split.Value), t, it(15))
  inv 15 @P12 placed: forall s: *Split {SPL(s)} :: SPL(s) && HASP(s) && (POS(STR(s)) < it(14)-1 || (STR(s) == t && PIX(s) < it(15))) ==> 0 <= cp(POS(STR(s))) + CT(STR(s), PIX(s)) && cp(POS(STR(s))) + CT(STR(s), PIX(s)) < len(pricedSplits) && pricedSplits[cp(POS(STR(s))) + CT(STR(s), PIX(s))] == s && nzp(cp(POS(STR(s))) + CT(STR(s), PIX(s))) == pp(heap(Split.Value), POS(STR(s))) + NZT(heap(Split.Value), STR(s), PIX(s))
  hint @P12 loop 15 back: use CTstep(t, it(15))
  hint @P12 loop 15 back: use NZTstep(heap(Split.Value), t, it(15))
  hint @P12 loop 15 back: use forall n: int {nzp(n)} {start(15, nzp(n))} :: NZeq(start(15, mem(*Split)), start(15, arr(pricedSplits)), start(15, off(pricedSplits)), mem(*Split), arr(pricedSplits), off(pricedSplits), heap(Split.Value), n)
  hint @P12 loop 15 back: use NZstep(mem(*Split), heap(Split.Value), arr(pricedSplits), off(pricedSplits), len(pricedSplits))
  hint @P12 loop 14 back: use CPstep(mem(*Transaction), arr(l.Transactions), off(l.Transactions), it(14))
  hint @P12 loop 14 back: use PPstep(heap(Split.Value), mem(*Transaction), arr(l.Transactions), off(l.Transactions), it(14))
  inv 16 @P12 count: len(l.Prices) == entry(16, len(l.Prices)) + nzp(it(16))
  inv 16 @P12 kept: forall i: int {l.Prices[i]} {entry(16, l.Prices[i])} :: 0 <= i < entry(16, len(l.Prices)) ==> l.Prices[i] == entry(16, l.Prices[i])
  inv 16 @P12 same: forall p: *Price {p.Currency} {p.Value} {p.Time} :: p < entry(16, alloc) ==> p.Currency == entry(16, p.Currency) && p.Value == entry(16, p.Value) && p.Time == entry(16, p.Time)
  inv 16 @P12 allocated: forall k: int {l.Prices[k]} :: 0 <= k < len(l.Prices) ==> allocated(l.Prices[k])
  inv 16 @P12 rates: forall k: int {pricedSplits[k]} :: 0 <= k < it(16) && nz(heap(Split.Value), pricedSplits[k]) ==> spricedat(heap(Split.Value), pricedSplits[k], entry(16, len(l.Prices)) + nzp(k))
  hint @P12 loop 16 back: use NZstep(mem(*Split), heap(Split.Value), arr(pricedSplits), off(pricedSplits), it(16))
  hint @P12 loop 9 back: assert forall i: int {l.Prices[i]} {start(9, l.Prices[i])} :: 0 <= i < start(9, len(l.Prices)) ==> l.Prices[i] == start(9, l.Prices[i]) && l.Prices[i].Currency == start(9, l.Prices[i].Currency) && l.Prices[i].Value == start(9, l.Prices[i].Value) && l.Prices[i].Time == start(9, l.Prices[i].Time)
  hint @P12 loop 9 back: assert forall t: *Transaction {TRX(t)} :: TRX(t) && POS(t) < iTransactions-1 ==> tp(heap(Split.Value), POS(t)) == tp(entry(10, heap(Split.Value)), POS(t))
  hint @P12 loop 9 back: assert forall t: *Transaction {TRX(t)} :: TRX(t) && POS(t) < iTransactions-1 && unb(heap(Split.Value), t) ==> tpricedat(entry(10, heap(Split.Value)), t, oldp() + tp(heap(Split.Value), POS(t)))
  hint @P12 loop 9 back: assert forall t: *Transaction, c: *Currency {WS(heap(Split.Value), t, NT(t), c)} {WS(entry(10, heap(Split.Value)), t, NT(t), c)} :: TRX(t) && POS(t) < iTransactions-1 ==> WS(heap(Split.Value), t, NT(t), c) == WS(entry(10, heap(Split.Value)), t, NT(t), c)
  hint @P12 loop 9 back: assert forall t: *Transaction {TRX(t)} :: TRX(t) && POS(t) < iTransactions-1 && unb(heap(Split.Value), t) ==> tpricedat(heap(Split.Value), t, oldp() + tp(heap(Split.Value), POS(t)))
  hint @P12 loop 9 back: assert len(balance) == 2 ==> tpricedat(heap(Split.Value), transaction, start(9, len(l.Prices)))
  hint @P12 loop 12 back: assert forall t: *Transaction {TRX(t)} :: TRX(t) && POS(t) < iTransactions ==> (unb(heap(Split.Value), t) <==> unb(start(12, heap(Split.Value)), t))
  hint @P12 loop 12 back: assert forall t: *Transaction {TRX(t)} :: TRX(t) && POS(t) < iTransactions ==> tp(heap(Split.Value), POS(t)) == tp(start(12, heap(Split.Value)), POS(t))
  hint @P12 loop 12 back: assert forall t: *Transaction {TRX(t)} :: TRX(t) && POS(t) < iTransactions && unb(heap(Split.Value), t) ==> tpricedat(start(12, heap(Split.Value)), t, oldp() + tp(heap(Split.Value), POS(t)))
  hint @P12 loop 16 back: assert len(l.Prices) == start(16, len(l.Prices)) + ite(nz(heap(Split.Value), pricedSplits[it(16)-1]), 2, 0)
  hint @P12 loop 16 back: use NZpos(mem(*Split), heap(Split.Value), arr(pricedSplits), off(pricedSplits), it(16)-1)
  hint @P12 loop 16 back: assert forall i: int {l.Prices[i]} {start(16, l.Prices[i])} :: 0 <= i < start(16, len(l.Prices)) ==> l.Prices[i] == start(16, l.Prices[i])
  hint @P12 loop 17 entry: assert forall i: int {permat(2,i)} :: 0 <= i < len(l.Prices) ==> 0 <= permat(2,i) && permat(2,i) < len(l.Prices) && l.Prices[permat(2,i)] == start(16, l.Prices[i])
  hint @P12 loop 17 entry: assert forall i: int, j: int {permat(2,i), permat(2,j)} :: 0 <= i < j && j < len(l.Prices) ==> permat(2,i) != permat(2,j)
  inv 14 @P12 stated: forall k: int {pricedSplits[k]} :: 0 <= k < len(pricedSplits) ==> HASP(pricedSplits[k])
  inv 15 @P12 stated: forall k: int {pricedSplits[k]} :: 0 <= k < len(pricedSplits) ==> HASP(pricedSplits[k])
  inv 18 @P12 times: forall s: *Split {s.Time} :: SPL(s) ==> s.Time == entry(18, s.Time)
  inv 19 @P12 times: forall s: *Split {s.Time} :: SPL(s) ==> s.Time == entry(18, s.Time)
  hint @P12 loop 17 entry: assert forall t: *Transaction {TRX(t)} :: TRX(t) && unb(heap(Split.Value), t) ==> start(16, tpricedat(heap(Split.Value), t, oldp() + tp(heap(Split.Value), POS(t))))
  hint @P12 loop 17 entry: assert forall t: *Transaction {TRX(t)} :: TRX(t) && unb(heap(Split.Value), t) ==> tpriced(heap(Split.Value), t, l.Prices[permat(2, oldp() + tp(heap(Split.Value), POS(t)))], l.Prices[permat(2, oldp() + tp(heap(Split.Value), POS(t)) + 1)])
  hint @P12 loop 17 entry: assert forall s: *Split {SPL(s)} :: SPL(s) && HASP(s) && nz(heap(Split.Value), s) ==> start(16, spricedat(heap(Split.Value), s, oldp() + tp(heap(Split.Value), TN()) + pp(heap(Split.Value), POS(STR(s))) + NZT(heap(Split.Value), STR(s), PIX(s))))
  hint @P12 loop 17 entry: assert forall s: *Split {SPL(s)} :: SPL(s) && HASP(s) && nz(heap(Split.Value), s) ==> spriced(heap(Split.Value), s, l.Prices[permat(2, oldp() + tp(heap(Split.Value), TN()) + pp(heap(Split.Value), POS(STR(s))) + NZT(heap(Split.Value), STR(s), PIX(s)))], l.Prices[permat(2, oldp() + tp(heap(Split.Value), TN()) + pp(heap(Split.Value), POS(STR(s))) + NZT(heap(Split.Value), STR(s), PIX(s)) + 1)])
  hint @P12 loop 17 entry: assert len(l.Prices) == oldp() + tp(heap(Split.Value), TN()) + pp(heap(Split.Value), TN())
  hint @P12 loop 20 entry: assert forall s: *Split {s.Value} {s.Time} :: SPL(s) ==> s.Value == entry(18, s.Value) && s.Time == entry(18, s.Time)
  hint @P12 loop 20 entry: use forall t: *Transaction {UC(heap(Split.Value), t)} {UC(VT(), t)} :: UNBeq(VT(), heap(Split.Value), t)
  hint @P12 loop 20 entry: use forall t: *Transaction, c: *Currency {WS(heap(Split.Value), t, NT(t), c)} {WS(VT(), t, NT(t), c)} :: WSeq(VT(), heap(Split.Value), t, NT(t), c)
  hint @P12 loop 20 entry: use forall n: int {tp(heap(Split.Value), n)} {tp(VT(), n)} :: TPeq(VT(), heap(Split.Value), mem(*Transaction), arr(l.Transactions), off(l.Transactions), n)
  hint @P12 loop 20 entry: use forall n: int {pp(heap(Split.Value), n)} {pp(VT(), n)} :: PPeq(VT(), heap(Split.Value), mem(*Transaction), arr(l.Transactions), off(l.Transactions), n)
  hint @P12 loop 20 entry: use forall t: *Transaction, n: int {NZT(heap(Split.Value), t, n)} {NZT(VT(), t, n)} :: NZTeq(VT(), heap(Split.Value), t, n)
  hint @P12 loop 20 entry: assert forall t: *Transaction {TRX(t)} :: TRX(t) ==> (unb(heap(Split.Value), t) <==> unb(VT(), t))
  hint @P12 loop 20 entry: assert forall n: int {tp(heap(Split.Value), n)} :: n <= TN() ==> tp(heap(Split.Value), n) == tp(VT(), n)
  hint @P12 loop 20 entry: assert forall n: int {pp(heap(Split.Value), n)} :: n <= TN() ==> pp(heap(Split.Value), n) == pp(VT(), n)
  hint @P12 loop 20 entry: assert forall t: *Transaction, n: int {NZT(heap(Split.Value), t, n)} :: TRX(t) && n <= NT(t) ==> NZT(heap(Split.Value), t, n) == NZT(VT(), t, n)
  hint @P12 loop 20 entry: assert len(l.Prices) == oldp() + tp(heap(Split.Value), TN()) + pp(heap(Split.Value), TN())
  hint @P12 loop 20 entry: assert forall t: *Transaction {TRX(t)} :: TRX(t) && unb(heap(Split.Value), t) ==> tpriced(heap(Split.Value), t, l.Prices[permat(2, oldp() + tp(heap(Split.Value), POS(t)))], l.Prices[permat(2, oldp() + tp(heap(Split.Value), POS(t)) + 1)])
  hint @P12 loop 20 entry: assert forall s: *Split {SPL(s)} :: SPL(s) && HASP(s) && nz(heap(Split.Value), s) ==> spriced(heap(Split.Value), s, l.Prices[permat(2, oldp() + tp(heap(Split.Value), TN()) + pp(heap(Split.Value), POS(STR(s))) + NZT(heap(Split.Value), STR(s), PIX(s)))], l.Prices[permat(2, oldp() + tp(heap(Split.Value), TN()) + pp(heap(Split.Value), POS(STR(s))) + NZT(heap(Split.Value), STR(s), PIX(s)) + 1)])
  inv 16 @P12 trans: forall t: *Transaction {TRX(t)} :: TRX(t) && unb(heap(Split.Value), t) ==> tpricedat(heap(Split.Value), t, oldp() + tp(heap(Split.Value), POS(t)))
  hint @P12 loop 16 back: assert forall i: int {l.Prices[i]} {start(16, l.Prices[i])} :: 0 <= i < start(16, len(l.Prices)) ==> l.Prices[i].Currency == start(16, l.Prices[i].Currency) && l.Prices[i].Value == start(16, l.Prices[i].Value) && l.Prices[i].Time == start(16, l.Prices[i].Time)
