package github.com/cespedes/accounting/cmd/ledger

// ---- reports for a period (P15)

// the options in the arguments of a command
fun flaggiven(name: string, args: []string): bool
fun flagstr(name: string, args: []string): string
fun flagbool(name: string, args: []string): bool
fun flaglist(name: string, args: []string): []string

// what main2 is given
fun ARGS(): []string
fun T0(): []*Transaction
fun A0(): []*Account
fun S0(a: *Account): []*Split
fun SB0(a: *Account): Balance

def opt(name) := ite(flaggiven(name, ARGS()), flagstr(name, ARGS()), "")
def hasB() := opt("b") != ""
def hasE() := opt("e") != ""
// a year, a month or a day begins in its first second
def beginText(s) := ite(len(s) == 4, s + "-01-01/00:00:00", ite(len(s) == 7, s + "-01/00:00:00", ite(len(s) == 10, s + "/00:00:00", s)))
// and lasts until its last one
def endText(s) := ite(len(s) == 4, s + "-12-31/23:59:59", ite(len(s) == 7, s + "-01/23:59:59", ite(len(s) == 10, s + "/23:59:59", s)))

// t is the moment written in s
def readAs(t, s) := (forall n: string {dDate(n)} :: dashed(n, s) ==> (dDate(n) || dHour(n) || dMin(n) || dSec(n)))
  && (forall n: string {dDate(n)} :: dashed(n, s) && dDate(n) ==> inst(t) == inst(parsed("2006-01-02", n)) + 43200000000000)
  && (forall n: string {dDate(n)} :: dashed(n, s) && !dDate(n) && dHour(n) ==> t == parsed("2006-01-02-15", n))
  && (forall n: string {dDate(n)} :: dashed(n, s) && !dDate(n) && !dHour(n) && dMin(n) ==> t == parsed("2006-01-02-15-04", n))
  && (forall n: string {dDate(n)} :: dashed(n, s) && !dDate(n) && !dHour(n) && !dMin(n) && dSec(n) ==> t == parsed("2006-01-02-15-04-05", n))

// ---- the transactions of L and the postings of each account are those in the period from b to e
def early(t, b) := hasB() && inst(t) < inst(b)
def late(t, e) := hasE() && inst(t) > inst(e)
def loT(L) := off(L.Transactions) - off(T0())
def loS(a) := off(a.Splits) - off(S0(a))
def placeT(L) := 0 <= loT(L) && loT(L) + len(L.Transactions) <= len(T0()) && arr(L.Transactions) == arr(T0())
def placeS(a) := 0 <= loS(a) && loS(a) + len(a.Splits) <= len(S0(a)) && arr(a.Splits) == arr(S0(a))
def beginT(L, b) := forall k: int {T0()[k]} :: 0 <= k < len(T0()) ==> (k < loT(L) <==> early(T0()[k].Time, b))
def beginS(a, b) := forall k: int {S0(a)[k]} :: 0 <= k < len(S0(a)) ==> (k < loS(a) <==> early(deref(S0(a)[k].Time), b))
def endT(L, e) := forall k: int {T0()[k]} :: loT(L) <= k < len(T0()) ==> (k < loT(L) + len(L.Transactions) <==> !late(T0()[k].Time, e))
def endS(a, e) := forall k: int {S0(a)[k]} :: loS(a) <= k < len(S0(a)) ==> (k < loS(a) + len(a.Splits) <==> !late(deref(S0(a)[k].Time), e))
// the balance before the period
def starts(a) := a.StartBalance == ite(loS(a) == 0, SB0(a), S0(a)[loS(a)-1].Balance)
// nothing else changes
def wholeT(L) := loT(L) + len(L.Transactions) == len(T0())
def wholeS(a) := loS(a) + len(a.Splits) == len(S0(a))
def asGiven(a) := a.Splits == S0(a) && a.StartBalance == SB0(a)

funcval commands
  params L flags args
  requires begin: hasB() ==> readAs(flags.beginDate, beginText(opt("b")))
  requires end: hasE() && len(opt("e")) != 7 ==> readAs(flags.endDate, endText(opt("e")))
  requires end-month: hasE() && len(opt("e")) == 7 ==> exists d: time.Time {adddate(d, 0, 1, -1)} :: readAs(d, endText(opt("e"))) && flags.endDate == adddate(d, 0, 1, -1)
  requires accounts: L.Accounts == A0()
  requires transactions: placeT(L) && beginT(L, flags.beginDate) && endT(L, flags.endDate)
  requires postings: forall i: int {A0()[i]} :: 0 <= i < len(A0()) ==> placeS(A0()[i])
  requires postings-begin: forall i: int {A0()[i]} :: 0 <= i < len(A0()) ==> beginS(A0()[i], flags.beginDate)
  requires postings-end: forall i: int {A0()[i]} :: 0 <= i < len(A0()) ==> endS(A0()[i], flags.endDate)
  requires balances: forall i: int {A0()[i]} :: 0 <= i < len(A0()) ==> starts(A0()[i])

trusted tableAccounts
  props P15
  requires accounts: ledger.Accounts == A0()
  requires transactions: placeT(ledger) && (!hasB() && !hasE() ==> ledger.Transactions == T0())
  requires postings: forall i: int {A0()[i]} :: 0 <= i < len(A0()) ==> placeS(A0()[i]) && (!hasB() && !hasE() ==> A0()[i].Splits == S0(A0()[i]))
  requires balances: forall i: int {A0()[i]} :: 0 <= i < len(A0()) ==> starts(A0()[i])

// not called without the option -pivot
trusted doPivot
  props P15
  option noreturn
  requires never: false

func (*sliceString).Set
  props P15
  modifies *s, mem(string)
  ensures added: len(s) == old(len(s)) + 1 && s[len(s)-1] == value && result == nil
  ensures kept: forall k: int {s[k]} :: 0 <= k < old(len(s)) ==> s[k] == old(s[k])

func main2
  props P15
  requires ledger: L > 0
  requires arguments: args == ARGS()
  requires no-pivot: !flaggiven("pivot", ARGS())
  requires transactions: L.Transactions == T0()
  requires accounts: L.Accounts == A0()
  requires allocated: forall k: int {T0()[k]} :: 0 <= k < len(T0()) ==> T0()[k] > 0
  requires sorted: forall k: int, m: int {T0()[k], T0()[m]} :: 0 <= k && k < m && m < len(T0()) ==> inst(T0()[k].Time) <= inst(T0()[m].Time)
  requires allocated-accounts: forall i: int {A0()[i]} :: 0 <= i < len(A0()) ==> A0()[i] > 0
  requires distinct: forall i: int, j: int {A0()[i], A0()[j]} :: 0 <= i && i < j && j < len(A0()) ==> A0()[i] != A0()[j]
  requires registers: forall i: int {A0()[i]} :: 0 <= i < len(A0()) ==> asGiven(A0()[i])
  requires allocated-postings: forall i: int, k: int {S0(A0()[i])[k]} :: 0 <= i < len(A0()) && 0 <= k < len(S0(A0()[i])) ==> S0(A0()[i])[k] > 0 && S0(A0()[i])[k].Time != nil
  requires sorted-postings: forall i: int, k: int, m: int {S0(A0()[i])[k], S0(A0()[i])[m]} :: 0 <= i < len(A0()) && 0 <= k && k < m && m < len(S0(A0()[i])) ==> inst(deref(S0(A0()[i])[k].Time)) <= inst(deref(S0(A0()[i])[m].Time))
  modifies Ledger.Transactions, Account.Splits, Account.StartBalance
  inv 0 later: forall k: int {T0()[k]} :: i < k && k < len(T0()) ==> !early(T0()[k].Time, flags.beginDate)
  inv 0 range: -1 <= i && i < len(T0())
  inv 1 place: forall m: int {A0()[m]} :: 0 <= m < it(1) ==> placeS(A0()[m]) && wholeS(A0()[m])
  inv 1 begin: forall m: int {A0()[m]} :: 0 <= m < it(1) ==> beginS(A0()[m], flags.beginDate)
  inv 1 starts: forall m: int {A0()[m]} :: 0 <= m < it(1) ==> starts(A0()[m])
  inv 1 rest: forall m: int {A0()[m]} :: it(1) <= m < len(A0()) ==> asGiven(A0()[m])
  inv 2 later: forall k: int {S0(A0()[it(1)-1])[k]} :: j < k && k < len(S0(A0()[it(1)-1])) ==> !early(deref(S0(A0()[it(1)-1])[k].Time), flags.beginDate)
  inv 2 range: -1 <= j && j < len(S0(A0()[it(1)-1]))
  inv 3 inside: forall k: int {T0()[k]} :: loT(L) <= k < loT(L) + it(3) ==> !late(T0()[k].Time, flags.endDate)
  hint loop 3 body: assert L.Transactions[it(3)] == T0()[loT(L)+it(3)]
  inv 4 place: forall m: int {A0()[m]} :: 0 <= m < it(4) ==> placeS(A0()[m])
  inv 4 end: forall m: int {A0()[m]} :: 0 <= m < it(4) ==> endS(A0()[m], flags.endDate)
  inv 4 rest: forall m: int {A0()[m]} :: it(4) <= m < len(A0()) ==> placeS(A0()[m]) && wholeS(A0()[m])
  inv 4 begin: forall m: int {A0()[m]} :: 0 <= m < len(A0()) ==> beginS(A0()[m], flags.beginDate)
  inv 4 starts: forall m: int {A0()[m]} :: 0 <= m < len(A0()) ==> starts(A0()[m])
  inv 5 inside: forall k: int {S0(A0()[it(4)-1])[k]} :: loS(A0()[it(4)-1]) <= k < loS(A0()[it(4)-1]) + it(5) ==> !late(deref(S0(A0()[it(4)-1])[k].Time), flags.endDate)
  hint loop 5 body: assert A0()[it(4)-1].Splits[it(5)] == S0(A0()[it(4)-1])[loS(A0()[it(4)-1])+it(5)]
