package github.com/cespedes/accounting

// ---- what a journal becomes when it is read (P17)

// everything which is read is created after this point
fun BASE(): int

def curIn(L, c) := exists k: int {L.Currencies[k]} :: 0 <= k < len(L.Currencies) && L.Currencies[k] == c
def accIn(L, a, n) := exists k: int {L.Accounts[k]} :: 0 <= k < n && L.Accounts[k] == a
// a currency of what is read: one of the ledger, unless it has no name
def okc(L, c) := c >= BASE() && (c.Name == "" || curIn(L, c))
def okv(L, v) := ite(v.Currency == nil, v.Amount == 0, okc(L, v.Currency))
def sepsOK() := forall c: *Currency {c.Thousand} {c.Decimal} :: BASE() <= c && allocated(c) ==> sepOK(c)
def precOK() := forall c: *Currency {c.Precision} :: BASE() <= c && allocated(c) ==> 0 <= c.Precision && c.Precision <= 8
def curList(L) := forall k: int {L.Currencies[k]} :: 0 <= k < len(L.Currencies) ==> L.Currencies[k] >= BASE()
def curDefault(L) := L.DefaultCurrency == nil || okc(L, L.DefaultCurrency)
def curOK(L) := sepsOK() && precOK() && curList(L) && curDefault(L)
// parents are created before their children
def older() := forall o: *Account {o.Parent} :: BASE() <= o && allocated(o) ==> o.Parent == nil || (BASE() <= o.Parent && o.Parent < o)
def accList(L) := forall k: int {L.Accounts[k]} :: 0 <= k < len(L.Accounts) ==> L.Accounts[k] >= BASE() && (L.Accounts[k].Parent == nil || accIn(L, L.Accounts[k].Parent, k))
// no account is listed twice (they are in the order in which they were created)
def accSorted(L) := forall k: int, m: int {L.Accounts[k], L.Accounts[m]} :: 0 <= k && k < m && m < len(L.Accounts) ==> L.Accounts[k] < L.Accounts[m]

// JN: the full name of an account which was read
fun JN(P: heap(Account.Parent), N: heap(Account.Name), a: *Account): string
axiom JN := forall P: heap(Account.Parent), N: heap(Account.Name), a: *Account {JN(P,N,a)} :: P[a] == nil || (0 < P[a] && P[a] < a) ==> JN(P,N,a) == ite(P[a] == nil, N[a], (JN(P,N,P[a]) + ":") + N[a])
def named(a) := JN(heap(Account.Parent), heap(Account.Name), a)
// it does not change if those of its ancestors do not
lemma JNeq(P: heap(Account.Parent), N: heap(Account.Name), Q: heap(Account.Parent), M: heap(Account.Name), n: int)
  requires 0 < BASE()
  requires forall o: *Account {P[o]} {Q[o]} :: BASE() <= o && o <= n ==> P[o] == Q[o] && N[o] == M[o] && (P[o] == nil || (BASE() <= P[o] && P[o] < o))
  ensures forall o: *Account {JN(P,N,o)} {JN(Q,M,o)} :: BASE() <= o && o <= n ==> JN(P,N,o) == JN(Q,M,o)
  induct n
lemma joined(s: string, i: int)
  requires 0 <= i < len(s) && s[i] == 58
  ensures same((s[0:i] + ":") + s[i+1:len(s)], s)
// no account has the name of another
def accNames(L) := forall k: int, m: int {L.Accounts[k], L.Accounts[m]} :: 0 <= k && k < m && m < len(L.Accounts) ==> named(L.Accounts[k]) != named(L.Accounts[m])
// n is s, or the part of it before a colon
def upTo(n, s) := len(n) <= len(s) && (forall k: int {n[k]} :: 0 <= k < len(n) ==> n[k] == s[k]) && (len(n) == len(s) || s[len(n)] == 58)

func (*Ledger).GetCurrency
  props P17 P18
  option zeroed
  requires ledger: l > 0
  requires currencies: forall k: int {l.Currencies[k]} :: 0 <= k < len(l.Currencies) ==> l.Currencies[k] > 0
  modifies Ledger.Currencies, mem(*Currency), fresh Currency.Thousand, fresh Currency.Decimal, fresh Currency.Precision, fresh Currency.Name, fresh Currency.ID, fresh Currency.PrintBefore, fresh Currency.WithoutSpace, fresh Currency.ISIN
  ensures listed: curIn(l, result)
  ensures found: !result1 ==> l.Currencies == old(l.Currencies) && mem(*Currency) == old(mem(*Currency))
  ensures new: result1 ==> result >= old(alloc) && result.Name == s && result.Thousand == "" && result.Decimal == "" && result.Precision == 0
  ensures others: result1 ==> forall k: int {l.Currencies[k]} :: 0 <= k < len(l.Currencies) ==> l.Currencies[k] == result || k < old(len(l.Currencies))
  ensures name: result > 0 && result.Name == s
  requires @P18 names: curNames(l)
  ensures @P18 names: curNames(l)
  ensures @P18 added: len(l.Currencies) == old(len(l.Currencies)) + ite(result1, 1, 0) && (result1 ==> l.Currencies[len(l.Currencies)-1] == result)
  inv 0 @P18 forall k: int {l.Currencies[k]} :: 0 <= k < it(0) ==> l.Currencies[k].Name != s
  ensures kept: len(l.Currencies) >= old(len(l.Currencies)) && forall k: int {l.Currencies[k]} {old(l.Currencies[k])} :: 0 <= k < old(len(l.Currencies)) ==> l.Currencies[k] == old(l.Currencies[k])
  ensures allocated: forall c: *Currency {c.Thousand} {c.Decimal} {c.Precision} :: c >= old(alloc) && allocated(c) ==> c.Thousand == "" && c.Decimal == "" && c.Precision == 0

package github.com/cespedes/accounting/backend/ledger

def fileOK(s) := forall k: int {s.files[k]} :: 0 <= k < len(s.files) ==> s.files[k].f > 0 && s.files[k].s > 0

// each file has a scanner of its own
def fileApart(s) := forall k: int, m: int {s.files[k], s.files[m]} :: 0 <= k && k < m && m < len(s.files) ==> s.files[k].s != s.files[m].s
def fileKept(s) := forall k: int {s.files[k]} {old(s.files[k])} :: 0 <= k < len(s.files) && k < old(len(s.files)) ==> s.files[k].s == old(s.files[k].s) && s.files[k].filename == old(s.files[k].filename)

func (*Scanner).NewFile
  props P17 P18
  requires scanner: s > 0
  requires files: fileOK(s)
  modifies Scanner.files, mem(scannerFile), scanners
  ensures files: fileOK(s)
  requires @P18 apart: fileApart(s)
  requires @P18 old: forall k: int {s.files[k]} :: 0 <= k < len(s.files) ==> s.files[k].s < alloc
  ensures @P18 apart: fileApart(s)
  ensures @P18 old: forall k: int {s.files[k]} :: 0 <= k < len(s.files) ==> s.files[k].s < alloc
  ensures @P18 kept: fileKept(s)
  ensures @P18 added: len(s.files) == old(len(s.files)) + ite(result == nil, 1, 0)
  ensures @P18 beginning: result == nil ==> scanned(s.files[len(s.files)-1].s) == 0
  ensures @P18 others: forall o: int {scanned(o)} :: o < old(alloc) ==> scanned(o) == old(scanned(o))

// the next line is that of the last file which is not at its end: the files after it are
func (*Scanner).Line
  props P17 P18
  requires scanner: s > 0
  requires files: fileOK(s)
  decreases len(s.files)
  modifies Scanner.files, mem(scannerFile), scanners
  ensures files: fileOK(s)
  requires @P18 apart: fileApart(s)
  requires @P18 old: forall k: int {s.files[k]} :: 0 <= k < len(s.files) ==> s.files[k].s < alloc
  ensures @P18 apart: fileApart(s)
  ensures @P18 old: forall k: int {s.files[k]} :: 0 <= k < len(s.files) ==> s.files[k].s < alloc
  ensures @P18 kept: fileKept(s) && len(s.files) <= old(len(s.files))
  ensures @P18 ended: forall k: int {old(s.files[k])} :: len(s.files) <= k < old(len(s.files)) ==> scanend(old(s.files[k].s), old(scanned(s.files[k].s))) && scanerr(old(s.files[k].s)) == nil
  ensures @P18 open: result.Err == nil ==> len(s.files) > 0
  ensures @P18 text: result.Err == nil ==> result.Text == scanline(s.files[len(s.files)-1].s, scanned(s.files[len(s.files)-1].s))
  ensures @P18 next: result.Err == nil ==> (forall o: int {scanned(o)} :: o == s.files[len(s.files)-1].s ==> scanned(o) == old(scanned(o)) + 1)
  ensures @P18 others: forall o: int {scanned(o)} :: result.Err != nil || o != s.files[len(s.files)-1].s ==> scanned(o) == old(scanned(o))
  ensures @P18 failed: result.Err != nil ==> len(s.files) == 0 || (result.Err == scanerr(s.files[len(s.files)-1].s) && scanend(s.files[len(s.files)-1].s, scanned(s.files[len(s.files)-1].s)))

// ---- what each line of a journal becomes (P18)

// first place of a byte in a text, or its length
fun CUT(t: string, c: int): int
axiom CUT := forall t: string, c: int {CUT(t,c)} :: 0 <= CUT(t,c) && CUT(t,c) <= len(t) && (CUT(t,c) < len(t) ==> t[CUT(t,c)] == c)
axiom CUT first := forall t: string, c: int, k: int {CUT(t,c), t[k]} :: 0 <= k < CUT(t,c) ==> t[k] != c
// first place of a byte which is there twice, or the length
fun PAIR(t: string, c: int): int
axiom PAIR := forall t: string, c: int {PAIR(t,c)} :: 0 <= PAIR(t,c) && PAIR(t,c) <= len(t) && (PAIR(t,c) < len(t) ==> PAIR(t,c)+1 < len(t) && t[PAIR(t,c)] == c && t[PAIR(t,c)+1] == c)
axiom PAIR first := forall t: string, c: int, k: int {PAIR(t,c), t[k]} :: 0 <= k < PAIR(t,c) && k+1 < len(t) ==> t[k] != c || t[k+1] != c
// s with all its separators turned into "-"
fun DASH(s: string): string
axiom DASH := forall s: string {DASH(s)} :: dashed(DASH(s), s)
def accepted(n) := dDate(n) || dHour(n) || dMin(n) || dSec(n)
def dateOK(s) := accepted(DASH(s))
def dateOf(t, s) := accepted(DASH(s))
  && (dDate(DASH(s)) ==> inst(t) == inst(parsed("2006-01-02", DASH(s))) + 43200000000000)
  && (!dDate(DASH(s)) && dHour(DASH(s)) ==> t == parsed("2006-01-02-15", DASH(s)))
  && (!dDate(DASH(s)) && !dHour(DASH(s)) && dMin(DASH(s)) ==> t == parsed("2006-01-02-15-04", DASH(s)))
  && (!dDate(DASH(s)) && !dHour(DASH(s)) && !dMin(DASH(s)) && dSec(DASH(s)) ==> t == parsed("2006-01-02-15-04-05", DASH(s)))

// tags in comments
def tagText(c) := regfind("[a-z]+:.*", c)
def tagged(c, name) := tagText(c) != "" && tagText(c)[0:CUT(tagText(c),58)] == name
def tagValue(c) := tagText(c)[CUT(tagText(c),58)+1:len(tagText(c))]
// number of comments of something
def CN(L, w) := ite(w in L.Comments, len(L.Comments[w]), 0)
def isTag(w, c) := (istype(w, *Account) && tagged(c, "code")) || (istype(w, *Split) && tagged(c, "date")) || (istype(w, *Currency) && tagged(c, "isin"))
// no two things share their lists of comments
def notesApart(L) := forall w: any, v: any {L.Comments[w], L.Comments[v]} :: w in L.Comments && v in L.Comments && w != v && arr(L.Comments[w]) != 0 ==> arr(L.Comments[w]) != arr(L.Comments[v])
def notesIn(L) := forall w: any {L.Comments[w]} :: w in L.Comments ==> arr(L.Comments[w]) < alloc

func getTag
  props P18
  modifies fresh tag.Name, fresh tag.Value
  ensures none: result == nil <==> tagText(s) == ""
  ensures name: result != nil ==> result > 0 && result.Name == tagText(s)[0:CUT(tagText(s),58)]
  ensures value: result != nil ==> result.Value == tagValue(s)

func (*ledgerConnection).addComment
  props P17 P18
  option logs
  requires ledger: l > 0 && l.ledger > 0 && l.ledger.Comments != nil
  requires account: istype(where, *Account) ==> astype(where, *Account) > 0
  requires posting: istype(where, *Split) ==> astype(where, *Split) > 0
  requires currency: istype(where, *Currency) ==> astype(where, *Currency) > 0
  modifies mapdom(map[any][]string), mapval(map[any][]string), mem(string), Account.Code, Split.Time, fresh time, Currency.ISIN, warnings
  requires @P18 apart: notesApart(l.ledger)
  requires @P18 in: notesIn(l.ledger)
  ensures @P18 in: notesIn(l.ledger)
  hint @P18 return: assert forall w: any {l.ledger.Comments[w]} {w in l.ledger.Comments} :: w != where ==> (w in l.ledger.Comments <==> old(w in l.ledger.Comments)) && l.ledger.Comments[w] == old(l.ledger.Comments[w])
  hint @P18 return: assert where in l.ledger.Comments ==> arr(l.ledger.Comments[where]) == 0 || arr(l.ledger.Comments[where]) >= old(alloc) || (old(where in l.ledger.Comments) && arr(l.ledger.Comments[where]) == old(arr(l.ledger.Comments[where])))
  ensures @P18 apart: notesApart(l.ledger)
  ensures @P18 warnings: warnings() >= old(warnings())
  ensures @P18 added: !isTag(where, comment) ==> where in l.ledger.Comments && len(l.ledger.Comments[where]) == old(CN(l.ledger, where)) + 1 && l.ledger.Comments[where][old(CN(l.ledger, where))] == comment
  ensures @P18 tagged: isTag(where, comment) ==> CN(l.ledger, where) == old(CN(l.ledger, where))
  ensures @P18 others: forall w: any {l.ledger.Comments[w]} {w in l.ledger.Comments} :: w != where ==> (w in l.ledger.Comments <==> old(w in l.ledger.Comments)) && l.ledger.Comments[w] == old(l.ledger.Comments[w])
  ensures @P18 kept: forall w: any, k: int {l.ledger.Comments[w][k]} :: 0 <= k < old(CN(l.ledger, w)) ==> l.ledger.Comments[w][k] == old(l.ledger.Comments[w][k])
  ensures @P18 code: istype(where, *Account) && tagged(comment, "code") ==> astype(where, *Account).Code == tagValue(comment)
  ensures @P18 isin: istype(where, *Currency) && tagged(comment, "isin") ==> astype(where, *Currency).ISIN == tagValue(comment)
  ensures @P18 date: istype(where, *Split) && tagged(comment, "date") && warnings() == old(warnings()) ==> astype(where, *Split).Time != nil && dateOf(deref(astype(where, *Split).Time), tagValue(comment))
  ensures @P18 other-codes: forall o: *Account {o.Code} :: o != astype(where, *Account) || !isTag(where, comment) || !istype(where, *Account) ==> o.Code == old(o.Code)
  ensures @P18 other-isins: forall o: *Currency {o.ISIN} :: o != astype(where, *Currency) || !isTag(where, comment) || !istype(where, *Currency) ==> o.ISIN == old(o.ISIN)
  ensures @P18 other-dates: forall o: *Split {o.Time} :: o != astype(where, *Split) || !isTag(where, comment) || !istype(where, *Split) ==> o.Time == old(o.Time)

func (*ledgerConnection).getAccount
  props P17 P18
  option zeroed
  requires ledger: l > 0 && l.ledger > 0
  requires base: 0 < BASE() && BASE() <= alloc
  requires older: older()
  requires accounts: accList(l.ledger)
  requires distinct: accSorted(l.ledger)
  decreases len(str)
  modifies Ledger.Accounts, mem(*Account), fresh Account.ID, fresh Account.Parent, fresh Account.Children, fresh Account.Level, fresh Account.Name, fresh Account.Code, fresh Account.Splits, fresh Account.StartBalance, fresh ID.filename, fresh ID.lineNum
  ensures older: older()
  ensures accounts: accList(l.ledger)
  ensures distinct: accSorted(l.ledger)
  ensures listed: result > 0 && accIn(l.ledger, result, len(l.ledger.Accounts))
  ensures kept: len(l.ledger.Accounts) >= old(len(l.ledger.Accounts)) && forall k: int {l.ledger.Accounts[k]} {old(l.ledger.Accounts[k])} :: 0 <= k < old(len(l.ledger.Accounts)) ==> l.ledger.Accounts[k] == old(l.ledger.Accounts[k])
  hint call append 1 before: assert accList(l.ledger)
  hint return: assert new ==> result == l.ledger.Accounts[len(l.ledger.Accounts)-1] && (result.Parent == nil || accIn(l.ledger, result.Parent, len(l.ledger.Accounts)-1))
  hint return: assert new ==> forall k: int {l.ledger.Accounts[k]} :: 0 <= k < len(l.ledger.Accounts)-1 ==> l.ledger.Accounts[k] >= BASE() && l.ledger.Accounts[k] < result
  hint return: assert new ==> forall k: int {l.ledger.Accounts[k]} :: 0 <= k < len(l.ledger.Accounts)-1 ==> l.ledger.Accounts[k].Parent == nil || accIn(l.ledger, l.ledger.Accounts[k].Parent, k)
  requires @P18 names: accNames(l.ledger)
  ensures @P18 name: named(result) == str
  ensures @P18 found: !result1 ==> l.ledger.Accounts == old(l.ledger.Accounts)
  ensures @P18 last: result1 ==> len(l.ledger.Accounts) > old(len(l.ledger.Accounts)) && result == l.ledger.Accounts[len(l.ledger.Accounts)-1]
  ensures @P18 parents: forall k: int {l.ledger.Accounts[k]} :: old(len(l.ledger.Accounts)) <= k < len(l.ledger.Accounts) ==> upTo(named(l.ledger.Accounts[k]), str)
  ensures @P18 same: forall k: int {l.ledger.Accounts[k]} :: 0 <= k < old(len(l.ledger.Accounts)) ==> named(l.ledger.Accounts[k]) == old(named(l.ledger.Accounts[k]))
  ensures @P18 names: accNames(l.ledger)
  inv 0 @P18 forall k: int {l.ledger.Accounts[k]} :: 0 <= k < it(0) ==> named(l.ledger.Accounts[k]) != str
  hint @P18 return: use JNeq(old(heap(Account.Parent)), old(heap(Account.Name)), heap(Account.Parent), heap(Account.Name), old(alloc)-1)
  hint @P18 return: use JNeq(after(getAccount, 1, heap(Account.Parent)), after(getAccount, 1, heap(Account.Name)), heap(Account.Parent), heap(Account.Name), after(getAccount, 1, alloc)-1)
  hint @P18 return: assert result1 ==> named(result) == ite(result.Parent == nil, result.Name, (named(result.Parent) + ":") + result.Name)
  hint @P18 return: assert result1 && result.Parent != nil ==> len(result.Name) < len(old(str)) && old(str)[len(old(str))-len(result.Name)-1] == 58 && result.Name == old(str)[len(old(str))-len(result.Name):len(old(str))] && named(result.Parent) == old(str)[0:len(old(str))-len(result.Name)-1]
  hint @P18 return: use joined(old(str), len(old(str))-len(result.Name)-1)
  hint @P18 return: assert result1 ==> named(result) == old(str)
  hint @P18 return: assert result1 && result.Parent != nil ==> forall k: int {l.ledger.Accounts[k]} :: 0 <= k < len(l.ledger.Accounts)-1 ==> l.ledger.Accounts[k] < after(getAccount, 1, alloc) && l.ledger.Accounts[k] == after(getAccount, 1, l.ledger.Accounts[k]) && named(l.ledger.Accounts[k]) == after(getAccount, 1, named(l.ledger.Accounts[k]))
  hint @P18 return: assert result1 && result.Parent == nil ==> len(l.ledger.Accounts) == old(len(l.ledger.Accounts)) + 1
  hint @P18 return: assert result1 && result.Parent != nil ==> forall k: int {l.ledger.Accounts[k]} :: old(len(l.ledger.Accounts)) <= k < len(l.ledger.Accounts)-1 ==> upTo(named(l.ledger.Accounts[k]), old(str)[0:len(old(str))-len(result.Name)-1])
  hint @P18 return: assert result1 && result.Parent != nil ==> forall k: int {old(str)[0:len(old(str))-len(result.Name)-1][k]} {old(str)[k]} :: 0 <= k < len(old(str)[0:len(old(str))-len(result.Name)-1]) ==> old(str)[0:len(old(str))-len(result.Name)-1][k] == old(str)[k]
  hint @P18 return: assert result1 ==> forall k: int {l.ledger.Accounts[k]} :: old(len(l.ledger.Accounts)) <= k < len(l.ledger.Accounts)-1 ==> upTo(named(l.ledger.Accounts[k]), old(str)) && len(named(l.ledger.Accounts[k])) < len(old(str))

// ---- what is read
def ledgerOK(L) := L.Comments != nil && L.Assertions != nil && L.SplitPrices != nil
def pricesIn(L) := forall i: int {L.Prices[i]} :: 0 <= i < len(L.Prices) ==> L.Prices[i] > 0
def pricesOf(L) := forall i: int {L.Prices[i]} :: 0 <= i < len(L.Prices) ==> okc(L, L.Prices[i].Currency)
def pricesOK(L) := forall i: int {L.Prices[i]} :: 0 <= i < len(L.Prices) ==> okv(L, L.Prices[i].Value)
def trxOK(L) := forall i: int {L.Transactions[i]} :: 0 <= i < len(L.Transactions) ==> L.Transactions[i] >= BASE()
// the postings of each transaction are in memory of their own
def trxOwn(L) := forall i: int {L.Transactions[i]} :: 0 <= i < len(L.Transactions) ==> arr(L.Transactions[i].Splits) == 0 || L.Transactions[i] < arr(L.Transactions[i].Splits)
def trxSorted(L) := forall i: int, j: int {L.Transactions[i], L.Transactions[j]} :: 0 <= i && i < j && j < len(L.Transactions) ==> L.Transactions[i] < L.Transactions[j] && arr(L.Transactions[i].Splits) < L.Transactions[j]
def postingOf(L, s) := s.Account > 0 && accIn(L, s.Account, len(L.Accounts))
def postingsOf(L) := forall i: int, j: int {L.Transactions[i].Splits[j]} :: 0 <= i < len(L.Transactions) && 0 <= j < len(L.Transactions[i].Splits) ==> postingOf(L, L.Transactions[i].Splits[j])
def postingsOK(L) := forall i: int, j: int {L.Transactions[i].Splits[j]} :: 0 <= i < len(L.Transactions) && 0 <= j < len(L.Transactions[i].Splits) ==> okv(L, L.Transactions[i].Splits[j].Value)
// no posting is listed twice
def within(L, i, s) := L.Transactions[i] < s && (i+1 >= len(L.Transactions) || s < L.Transactions[i+1])
def splitsIn(L) := forall i: int, j: int {L.Transactions[i].Splits[j]} :: 0 <= i < len(L.Transactions) && 0 <= j < len(L.Transactions[i].Splits) ==> within(L, i, L.Transactions[i].Splits[j])
def splitsSorted(L) := forall i: int, j: int, k: int {L.Transactions[i].Splits[j], L.Transactions[i].Splits[k]} :: 0 <= i < len(L.Transactions) && 0 <= j && j < k && k < len(L.Transactions[i].Splits) ==> L.Transactions[i].Splits[j] < L.Transactions[i].Splits[k]
def statedOK(L) := forall s: *Split {vals(L.SplitPrices)[s]} :: s in L.SplitPrices ==> okv(L, vals(L.SplitPrices)[s])
def assertedOK(L) := forall s: *Split {vals(L.Assertions)[s]} :: s in L.Assertions ==> okv(L, vals(L.Assertions)[s])
def lastLineOK(L, n) := 0 <= n && n <= 7 && (n == 1 ==> len(L.Accounts) > 0) && (n == 4 ==> len(L.Prices) > 0) && (n == 5 ==> len(L.Transactions) > 0)
     && (n == 6 ==> len(L.Transactions) > 0 && len(L.Transactions[len(L.Transactions)-1].Splits) > 0)








// ---- lines (P18)
def indented(x) := len(x) > 0 && (x[0] == 32 || x[0] == 9)
def blank(x) := len(trim(x)) == 0
def isNote(x) := !blank(x) && (trim(x)[0] == 42 || trim(x)[0] == 35 || trim(x)[0] == 59)
fun CODE(x: string): string
axiom CODE := forall x: string {CODE(x)} :: CODE(x) == ite(CUT(trim(x),59) < len(trim(x)), trim(trim(x)[0:CUT(trim(x),59)]), trim(x))
fun NOTE(x: string): string
axiom NOTE := forall x: string {NOTE(x)} :: NOTE(x) == ite(CUT(trim(x),59) < len(trim(x)), trim(trim(x)[CUT(trim(x),59)+1:len(trim(x))]), "")
fun FULLNOTE(x: string): string
axiom FULLNOTE := forall x: string {FULLNOTE(x)} :: FULLNOTE(x) == trim(trim(x)[1:len(trim(x))])
def spaced(t) := 0 < CUT(t,32) && CUT(t,32) < len(t)
fun WORD(t: string): string
axiom WORD := forall t: string {WORD(t)} :: WORD(t) == ite(spaced(t), t[0:CUT(t,32)], t)
fun REST(t: string): string
axiom REST := forall t: string {REST(t)} :: REST(t) == ite(spaced(t), trim(t[CUT(t,32)+1:len(t)]), "")
def plainLine(x) := !blank(x) && !isNote(x)
def dirOf(x, w) := plainLine(x) && !indented(x) && WORD(CODE(x)) == w
def isDir(x) := dirOf(x, "include") || dirOf(x, "P") || dirOf(x, "D") || dirOf(x, "commodity") || dirOf(x, "account")
def isHead(x) := plainLine(x) && !indented(x) && !isDir(x) && dateOK(WORD(CODE(x)))
def isPost(x, n) := plainLine(x) && indented(x) && (n == 5 || n == 6)
// the parts of a posting
fun hasV(x: string): bool
axiom hasV := forall x: string {hasV(x)} :: hasV(x) <==> (0 < PAIR(CODE(x),32) && PAIR(CODE(x),32) < len(CODE(x)))
fun ACCT(x: string): string
axiom ACCT := forall x: string {ACCT(x)} :: ACCT(x) == ite(hasV(x), CODE(x)[0:PAIR(CODE(x),32)], CODE(x)[0:len(CODE(x))])
def VST(x) := PAIR(CODE(x),32) + 2
fun VTEXT(x: string): string
axiom VTEXT := forall x: string {VTEXT(x)} :: VTEXT(x) == CODE(x)[VST(x):len(CODE(x))]
fun hasAbs(x: string): bool
axiom hasAbs := forall x: string {hasAbs(x)} :: hasAbs(x) <==> (hasV(x) && 0 < PAIR(VTEXT(x),64) && PAIR(VTEXT(x),64) < len(VTEXT(x)))
fun hasRel(x: string): bool
axiom hasRel := forall x: string {hasRel(x)} :: hasRel(x) <==> (hasV(x) && !hasAbs(x) && 0 < CUT(VTEXT(x),64) && CUT(VTEXT(x),64) < len(VTEXT(x)))
fun hasEq(x: string): bool
axiom hasEq := forall x: string {hasEq(x)} :: hasEq(x) <==> (hasV(x) && CUT(VTEXT(x),61) < len(VTEXT(x)))
fun PST(x: string): int
axiom PST := forall x: string {PST(x)} :: PST(x) == ite(hasAbs(x), VST(x) + PAIR(VTEXT(x),64) + 2, VST(x) + CUT(VTEXT(x),64) + 1)
fun VEND(x: string): int
axiom VEND := forall x: string {VEND(x)} :: VEND(x) == ite(hasAbs(x), VST(x) + PAIR(VTEXT(x),64), ite(hasRel(x), VST(x) + CUT(VTEXT(x),64), ite(hasEq(x), VST(x) + CUT(VTEXT(x),61), len(CODE(x)))))
fun AMTTEXT(x: string): string
axiom AMTTEXT := forall x: string {AMTTEXT(x)} :: AMTTEXT(x) == trim(CODE(x)[VST(x):VEND(x)])
fun PRICETEXT(x: string): string
axiom PRICETEXT := forall x: string {PRICETEXT(x)} :: PRICETEXT(x) == trim(CODE(x)[PST(x):ite(hasEq(x), VST(x) + CUT(VTEXT(x),61), len(CODE(x)))])
fun ASSTEXT(x: string): string
axiom ASSTEXT := forall x: string {ASSTEXT(x)} :: ASSTEXT(x) == trim(CODE(x)[VST(x) + CUT(VTEXT(x),61) + 1:len(CODE(x))])
// what is written in t, as an amount
def curWritten(L, c, t) := t != "" ==> ite(CURT(t) == "", c == L.DefaultCurrency, c.Name == CURT(t) && curIn(L, c))
def valueOf(L, v, t) := READV(t, v.Amount, v.Currency) && curWritten(L, v.Currency, t)
def quiet() := warnings() == start(0, warnings())
def tagDone(w, c) := (istype(w, *Account) && tagged(c, "code") ==> astype(w, *Account).Code == tagValue(c))
  && (istype(w, *Currency) && tagged(c, "isin") ==> astype(w, *Currency).ISIN == tagValue(c))
  && (istype(w, *Split) && tagged(c, "date") ==> astype(w, *Split).Time != nil && dateOf(deref(astype(w, *Split).Time), tagValue(c)))
def remarked(L, w, c) := ite(isTag(w, c), CN(L, w) == start(0, CN(L, w)), CN(L, w) == start(0, CN(L, w)) + 1 && w in L.Comments && L.Comments[w][start(0, CN(L, w))] == c)
def noted(L, w, c) := ite(c == "" || isTag(w, c), CN(L, w) == start(0, CN(L, w)), CN(L, w) == start(0, CN(L, w)) + 1 && w in L.Comments && L.Comments[w][start(0, CN(L, w))] == c)
// ---- end of lines

func (*ledgerConnection).readJournal
  props P17 P18
  option logs
  option zeroed
  requires ledger: l > 0 && l.ledger > 0
  requires base: 0 < BASE() && BASE() <= alloc
  requires older: older()
  requires separators: sepsOK()
  requires precisions: precOK()
  modifies Ledger.Accounts, Ledger.Transactions, Ledger.Currencies, Ledger.Prices, Ledger.Comments, Ledger.Assertions, Ledger.SplitPrices, Ledger.DefaultCurrency
    , mem(*Account), mem(*Transaction), mem(*Split), mem(*Price), mem(*Currency), mem(string), mem(scannerFile), mapdom(map[any][]string), mapval(map[any][]string), mapdom(map[*Split]Value), mapval(map[*Split]Value)
    , Account.ID, Account.Parent, Account.Children, Account.Level, Account.Name, Account.Code, Account.Splits, Account.StartBalance
    , ID.filename, ID.lineNum, Scanner.files, scanners, warnings, Split.Time, time, Currency.ISIN, Currency.Thousand, Currency.Decimal, Currency.Precision, Currency.Name, Currency.ID, Currency.PrintBefore, Currency.WithoutSpace
    , Price.ID, Price.Currency, Price.Value, Transaction.ID, Transaction.Description, Transaction.Splits, Split.ID, Split.Account, Split.Transaction, Split.Value, Split.Balance, bigint
  nonterm 0
  ensures ledger: result == nil ==> ledgerOK(l.ledger)
  ensures accounts: result == nil ==> accList(l.ledger)
  ensures accounts-distinct: result == nil ==> accSorted(l.ledger)
  ensures transactions-distinct: result == nil ==> trxSorted(l.ledger)
  ensures postings-apart: result == nil ==> splitsIn(l.ledger)
  ensures postings-distinct: result == nil ==> splitsSorted(l.ledger)
  ensures separators: result == nil ==> sepsOK()
  ensures precisions: result == nil ==> precOK()
  ensures currencies: result == nil ==> curList(l.ledger)
  ensures default: result == nil ==> curDefault(l.ledger)
  ensures prices: result == nil ==> pricesIn(l.ledger)
  ensures @P17 price-currencies: result == nil ==> pricesOf(l.ledger)
  ensures @P17 price-values: result == nil ==> pricesOK(l.ledger)
  ensures transactions: result == nil ==> trxOK(l.ledger)
  ensures @P17 posting-accounts: result == nil ==> postingsOf(l.ledger)
  ensures @P17 posting-values: result == nil ==> postingsOK(l.ledger)
  ensures @P17 stated: result == nil ==> statedOK(l.ledger)
  ensures @P17 asserted: result == nil ==> assertedOK(l.ledger)
  inv 0 scanner: s > 0 && fileOK(s)
  inv 0 ledger: ledgerOK(l.ledger)
  inv 0 older: older()
  inv 0 accounts: accList(l.ledger)
  inv 0 distinct: accSorted(l.ledger)
  inv 0 apart: splitsIn(l.ledger)
  inv 0 splits: splitsSorted(l.ledger)
  inv 0 separators: sepsOK()
  inv 0 precisions: precOK()
  inv 0 currencies: curList(l.ledger)
  inv 0 default: curDefault(l.ledger)
  inv 0 prices: pricesIn(l.ledger)
  inv 0 @P17 price-currencies: pricesOf(l.ledger)
  inv 0 @P17 price-values: pricesOK(l.ledger)
  inv 0 transactions: trxOK(l.ledger)
  inv 0 own: trxOwn(l.ledger)
  inv 0 sorted: trxSorted(l.ledger)
  inv 0 @P17 posting-accounts: postingsOf(l.ledger)
  inv 0 @P17 posting-values: postingsOK(l.ledger)
  inv 0 @P17 stated: statedOK(l.ledger)
  inv 0 @P17 asserted: assertedOK(l.ledger)
  inv 0 last: lastLineOK(l.ledger, lastLine)
  inv 0 commodity: lastCommodity == nil || lastCommodity > 0
  hint call (*ledgerConnection).getValue 4 before: assert hasAssertion && (hasPriceAbs || hasPriceRel) && priceEnd < priceStart ==> valueStart <= priceEnd && priceEnd < valueEnd
  hint call (*ledgerConnection).getValue 4 before: assert hasAssertion && (hasPriceAbs || hasPriceRel) && priceEnd < valueEnd && valueStart <= priceEnd ==> text[valueStart:valueEnd][priceEnd-valueStart] == 61 && arg1[priceEnd-valueStart-trimlo(text[valueStart:valueEnd])] == 61 && 0 <= priceEnd-valueStart-trimlo(text[valueStart:valueEnd]) && priceEnd-valueStart-trimlo(text[valueStart:valueEnd]) < len(arg1)
  hint @P17 call append 1 before: assert pricesOf(l.ledger)
  hint @P17 call append 1 before: assert pricesOK(l.ledger)
  hint @P17 call append 1 before: assert okc(l.ledger, price.Currency)
  hint @P17 call append 1 before: assert okv(l.ledger, price.Value)
  // the posting, step by step
  hint call (*ledgerConnection).getAccount 2 before: assert t == l.ledger.Transactions[len(l.ledger.Transactions)-1]
  hint call (*ledgerConnection).getAccount 2 before: assert forall i: int, j: int {l.ledger.Transactions[i].Splits[j]} :: 0 <= i < len(l.ledger.Transactions) && 0 <= j < len(l.ledger.Transactions[i].Splits) ==> l.ledger.Transactions[i].Splits[j] < s
  hint call (*ledgerConnection).getValue 4 before: assert len(l.ledger.Currencies) >= start(0, len(l.ledger.Currencies)) && forall k: int {l.ledger.Currencies[k]} {start(0, l.ledger.Currencies[k])} :: 0 <= k < start(0, len(l.ledger.Currencies)) ==> l.ledger.Currencies[k] == start(0, l.ledger.Currencies[k])
  hint call (*ledgerConnection).getValue 4 before: assert forall o: *Currency {o.Name} :: o < start(0, alloc) ==> o.Name == start(0, o.Name)
  hint @P17 call (*ledgerConnection).getValue 4 before: assert forall o: *Split {o.Value} :: o < s ==> o.Value == start(0, o.Value)
  hint @P17 call (*ledgerConnection).getValue 4 before: assert okv(l.ledger, s.Value)
  hint call (*ledgerConnection).getValue 4 before: assert hasAssertion && (hasPriceAbs || hasPriceRel) && priceEnd < priceStart ==> valueStart <= priceEnd && priceEnd < valueEnd
  hint call (*ledgerConnection).getValue 4 before: assert hasAssertion && (hasPriceAbs || hasPriceRel) && priceEnd < valueEnd && valueStart <= priceEnd ==> text[valueStart:valueEnd][priceEnd-valueStart] == 61 && arg1[priceEnd-valueStart-trimlo(text[valueStart:valueEnd])] == 61 && 0 <= priceEnd-valueStart-trimlo(text[valueStart:valueEnd]) && priceEnd-valueStart-trimlo(text[valueStart:valueEnd]) < len(arg1)
  hint @P17 call (*ledgerConnection).getValue 4 before: assert statedOK(l.ledger)
  hint @P17 call (*ledgerConnection).getValue 4 before: assert assertedOK(l.ledger)
  hint @P18 call (*ledgerConnection).getValue 4 after: assert forall o: *Currency {o.Name} :: o < start(0, alloc) ==> o.Name == start(0, o.Name)
  hint @P17 call (*ledgerConnection).getValue 4 after: assert statedOK(l.ledger)
  hint @P17 call (*ledgerConnection).getValue 4 after: assert assertedOK(l.ledger)
  hint call (*ledgerConnection).getValue 5 before: assert len(l.ledger.Currencies) >= start(0, len(l.ledger.Currencies)) && forall k: int {l.ledger.Currencies[k]} {start(0, l.ledger.Currencies[k])} :: 0 <= k < start(0, len(l.ledger.Currencies)) ==> l.ledger.Currencies[k] == start(0, l.ledger.Currencies[k])
  hint call (*ledgerConnection).getValue 5 before: assert forall o: *Currency {o.Name} :: o < start(0, alloc) ==> o.Name == start(0, o.Name)
  hint @P17 call (*ledgerConnection).getValue 5 before: assert forall o: *Split {o.Value} :: o < s ==> o.Value == start(0, o.Value)
  hint @P17 call (*ledgerConnection).getValue 5 before: assert okv(l.ledger, s.Value)
  hint @P17 call (*ledgerConnection).getValue 5 before: assert statedOK(l.ledger)
  hint @P17 call (*ledgerConnection).getValue 5 before: assert assertedOK(l.ledger)
  hint @P18 call (*ledgerConnection).getValue 5 after: assert forall o: *Currency {o.Name} :: o < start(0, alloc) ==> o.Name == start(0, o.Name)
  hint @P17 call (*ledgerConnection).getValue 5 after: assert statedOK(l.ledger)
  hint @P17 call (*ledgerConnection).getValue 5 after: assert assertedOK(l.ledger)
  hint call (*ledgerConnection).getValue 6 before: assert len(l.ledger.Currencies) >= start(0, len(l.ledger.Currencies)) && forall k: int {l.ledger.Currencies[k]} {start(0, l.ledger.Currencies[k])} :: 0 <= k < start(0, len(l.ledger.Currencies)) ==> l.ledger.Currencies[k] == start(0, l.ledger.Currencies[k])
  hint call (*ledgerConnection).getValue 6 before: assert forall o: *Currency {o.Name} :: o < start(0, alloc) ==> o.Name == start(0, o.Name)
  hint @P17 call (*ledgerConnection).getValue 6 before: assert forall o: *Split {o.Value} :: o < s ==> o.Value == start(0, o.Value)
  hint @P17 call (*ledgerConnection).getValue 6 before: assert okv(l.ledger, s.Value)
  hint @P17 call (*ledgerConnection).getValue 6 before: assert statedOK(l.ledger)
  hint @P17 call (*ledgerConnection).getValue 6 before: assert assertedOK(l.ledger)
  hint @P18 call (*ledgerConnection).getValue 6 after: assert forall o: *Currency {o.Name} :: o < start(0, alloc) ==> o.Name == start(0, o.Name)
  hint @P17 call (*ledgerConnection).getValue 6 after: assert statedOK(l.ledger)
  hint @P17 call (*ledgerConnection).getValue 6 after: assert assertedOK(l.ledger)
  hint call append 3 before: assert len(l.ledger.Currencies) >= start(0, len(l.ledger.Currencies)) && forall k: int {l.ledger.Currencies[k]} {start(0, l.ledger.Currencies[k])} :: 0 <= k < start(0, len(l.ledger.Currencies)) ==> l.ledger.Currencies[k] == start(0, l.ledger.Currencies[k])
  hint call append 3 before: assert forall o: *Currency {o.Name} :: o < start(0, alloc) ==> o.Name == start(0, o.Name)
  hint @P17 call append 3 before: assert forall o: *Split {o.Value} :: o < s ==> o.Value == start(0, o.Value)
  hint @P17 call append 3 before: assert okv(l.ledger, s.Value)
  hint call append 3 before: assert len(l.ledger.Accounts) >= start(0, len(l.ledger.Accounts)) && forall k: int {l.ledger.Accounts[k]} {start(0, l.ledger.Accounts[k])} :: 0 <= k < start(0, len(l.ledger.Accounts)) ==> l.ledger.Accounts[k] == start(0, l.ledger.Accounts[k])
  hint @P17 call append 3 before: assert forall o: *Split {o.Account} :: o < s ==> o.Account == start(0, o.Account)
  hint call append 3 before: assert forall i: int, j: int {l.ledger.Transactions[i].Splits[j]} :: 0 <= i < len(l.ledger.Transactions) && 0 <= j < len(l.ledger.Transactions[i].Splits) ==> l.ledger.Transactions[i].Splits[j] < s
  hint call append 3 before: assert forall i: int, j: int {l.ledger.Transactions[i].Splits[j]} :: 0 <= i < len(l.ledger.Transactions) && 0 <= j < len(l.ledger.Transactions[i].Splits) ==> l.ledger.Transactions[i].Splits[j] == start(0, l.ledger.Transactions[i].Splits[j])
  hint @P17 call append 3 before: assert forall i: int, j: int {l.ledger.Transactions[i].Splits[j]} :: 0 <= i < len(l.ledger.Transactions) && 0 <= j < len(l.ledger.Transactions[i].Splits) ==> l.ledger.Transactions[i].Splits[j].Account == start(0, l.ledger.Transactions[i].Splits[j].Account)
  hint @P17 call append 3 before: assert forall i: int, j: int {l.ledger.Transactions[i].Splits[j]} :: 0 <= i < len(l.ledger.Transactions) && 0 <= j < len(l.ledger.Transactions[i].Splits) ==> start(0, postingOf(l.ledger, l.ledger.Transactions[i].Splits[j]))
  hint @P17 call append 3 before: assert forall i: int, j: int {l.ledger.Transactions[i].Splits[j]} :: 0 <= i < len(l.ledger.Transactions) && 0 <= j < len(l.ledger.Transactions[i].Splits) ==> l.ledger.Transactions[i].Splits[j].Account > 0
  hint @P17 call append 3 before: assert postingsOf(l.ledger)
  hint @P17 call append 3 before: assert forall i: int, j: int {l.ledger.Transactions[i].Splits[j]} :: 0 <= i < len(l.ledger.Transactions) && 0 <= j < len(l.ledger.Transactions[i].Splits) ==> l.ledger.Transactions[i].Splits[j].Value == start(0, l.ledger.Transactions[i].Splits[j].Value)
  hint @P17 call append 3 before: assert forall i: int, j: int {l.ledger.Transactions[i].Splits[j]} :: 0 <= i < len(l.ledger.Transactions) && 0 <= j < len(l.ledger.Transactions[i].Splits) ==> start(0, okv(l.ledger, l.ledger.Transactions[i].Splits[j].Value))
  hint @P17 call append 3 before: assert forall i: int, j: int {l.ledger.Transactions[i].Splits[j]} :: 0 <= i < len(l.ledger.Transactions) && 0 <= j < len(l.ledger.Transactions[i].Splits) ==> l.ledger.Transactions[i].Splits[j].Value.Currency != nil ==> l.ledger.Transactions[i].Splits[j].Value.Currency < start(0, alloc)
  hint @P17 call append 3 before: assert forall i: int, j: int {l.ledger.Transactions[i].Splits[j]} :: 0 <= i < len(l.ledger.Transactions) && 0 <= j < len(l.ledger.Transactions[i].Splits) ==> l.ledger.Transactions[i].Splits[j].Value.Currency != nil ==> l.ledger.Transactions[i].Splits[j].Value.Currency >= BASE()
  hint @P17 call append 3 before: assert forall i: int, j: int {l.ledger.Transactions[i].Splits[j]} :: 0 <= i < len(l.ledger.Transactions) && 0 <= j < len(l.ledger.Transactions[i].Splits) ==> l.ledger.Transactions[i].Splits[j].Value.Currency != nil && l.ledger.Transactions[i].Splits[j].Value.Currency.Name != "" ==> start(0, curIn(l.ledger, l.ledger.Transactions[i].Splits[j].Value.Currency))
  hint @P17 call append 3 before: assert forall i: int, j: int {l.ledger.Transactions[i].Splits[j]} :: 0 <= i < len(l.ledger.Transactions) && 0 <= j < len(l.ledger.Transactions[i].Splits) ==> l.ledger.Transactions[i].Splits[j].Value.Currency != nil && l.ledger.Transactions[i].Splits[j].Value.Currency.Name != "" ==> curIn(l.ledger, l.ledger.Transactions[i].Splits[j].Value.Currency)
  hint @P17 call append 3 before: assert postingsOK(l.ledger)
  hint @P17 call append 3 before: assert statedOK(l.ledger)
  hint @P17 call append 3 before: assert assertedOK(l.ledger)
  hint @P17 call append 3 before: assert postingOf(l.ledger, s)
  hint call append 3 before: assert forall j: int {t.Splits[j]} :: 0 <= j < len(t.Splits) ==> t.Splits[j] < s && t < s
  hint call append 3 before: assert trxOwn(l.ledger) && trxSorted(l.ledger)
  hint call append 3 after: assert forall i: int {l.ledger.Transactions[i]} :: 0 <= i < len(l.ledger.Transactions)-1 ==> l.ledger.Transactions[i] < t
  hint call append 3 after: assert forall i: int, j: int {l.ledger.Transactions[i].Splits[j]} :: 0 <= i < len(l.ledger.Transactions)-1 && 0 <= j < len(l.ledger.Transactions[i].Splits) ==> l.ledger.Transactions[i].Splits[j] == start(0, l.ledger.Transactions[i].Splits[j])
  hint call append 3 after: assert forall j: int {arg2[j]} :: 0 <= j < len(arg2)-1 ==> arg2[j] == start(0, l.ledger.Transactions[len(l.ledger.Transactions)-1].Splits[j])
  hint call append 3 after: assert len(arg2) == len(t.Splits)+1 && arg2[len(arg2)-1] == s && t < arr(arg2)
  hint @P17 call append 3 after: assert forall i: int, j: int {l.ledger.Transactions[i].Splits[j]} :: 0 <= i < len(l.ledger.Transactions)-1 && 0 <= j < len(l.ledger.Transactions[i].Splits) ==> postingOf(l.ledger, l.ledger.Transactions[i].Splits[j])
  hint @P17 call append 3 after: assert forall i: int, j: int {l.ledger.Transactions[i].Splits[j]} :: 0 <= i < len(l.ledger.Transactions)-1 && 0 <= j < len(l.ledger.Transactions[i].Splits) ==> okv(l.ledger, l.ledger.Transactions[i].Splits[j].Value)
  hint @P17 call append 3 after: assert forall j: int {arg2[j]} :: 0 <= j < len(arg2)-1 ==> postingOf(l.ledger, arg2[j])
  hint @P17 call append 3 after: assert forall j: int {arg2[j]} :: 0 <= j < len(arg2)-1 ==> okv(l.ledger, arg2[j].Value)
  hint @P17 call append 3 after: assert forall j: int {arg2[j]} :: 0 <= j < len(arg2) ==> postingOf(l.ledger, arg2[j])
  hint @P17 call append 3 after: assert forall j: int {arg2[j]} :: 0 <= j < len(arg2) ==> okv(l.ledger, arg2[j].Value)
  hint call append 3 after: assert forall i: int, j: int, k: int {l.ledger.Transactions[i].Splits[j], l.ledger.Transactions[i].Splits[k]} :: 0 <= i < len(l.ledger.Transactions)-1 && 0 <= j && j < k && k < len(l.ledger.Transactions[i].Splits) ==> l.ledger.Transactions[i].Splits[j] < l.ledger.Transactions[i].Splits[k]
  hint call append 3 after: assert forall j: int, k: int {arg2[j], arg2[k]} :: 0 <= j && j < k && k < len(arg2)-1 ==> arg2[j] < arg2[k]
  hint call append 3 after: assert forall j: int, k: int {arg2[j], arg2[k]} :: 0 <= j && j < k && k < len(arg2) ==> arg2[j] < arg2[k]
  // what each line does (P18)
  inv 0 @P18 files: fileApart(s)
  inv 0 @P18 open: forall k: int {s.files[k]} :: 0 <= k < len(s.files) ==> s.files[k].s < alloc
  inv 0 @P18 account-names: accNames(l.ledger)
  inv 0 @P18 currency-names: curNames(l.ledger)
  inv 0 @P18 notes-apart: notesApart(l.ledger)
  inv 0 @P18 notes-in: notesIn(l.ledger)
  inv 0 @P18 notes-old: forall w: any {w in l.ledger.Comments} :: w in l.ledger.Comments ==> (istype(w, *Transaction) ==> astype(w, *Transaction) < alloc) && (istype(w, *Split) ==> astype(w, *Split) < alloc) && (istype(w, *Price) ==> astype(w, *Price) < alloc) && (istype(w, *Account) ==> astype(w, *Account) < alloc) && (istype(w, *Currency) ==> astype(w, *Currency) < alloc)
  hint @P18 call (*ledgerConnection).getAccount 2 before: assert comment == NOTE(line.Text)
  hint @P18 call (*ledgerConnection).getAccount 2 before: assert comment != "" && quiet() ==> tagDone(mk(*Split, s), NOTE(line.Text))
  hint @P18 call append 3 before: assert comment != "" && quiet() ==> tagDone(mk(*Split, s), NOTE(line.Text))
  hint @P18 call (*ledgerConnection).getAccount 2 before: assert text == CODE(line.Text)
  hint @P18 call (*ledgerConnection).getAccount 2 before: assert hasValue <==> hasV(line.Text)
  hint @P18 call (*ledgerConnection).getAccount 2 before: assert accountEnd == ite(hasValue, PAIR(CODE(line.Text),32), len(text)) && (hasValue ==> valueStart == VST(line.Text))
  hint @P18 call (*ledgerConnection).getAccount 2 before: assert arg3 == ACCT(line.Text)
  hint @P18 call (*ledgerConnection).getValue 4 before: assert hasValue ==> text[valueStart:] == VTEXT(line.Text)
  hint @P18 call (*ledgerConnection).getValue 4 before: assert hasPriceAbs <==> hasAbs(line.Text)
  hint @P18 call (*ledgerConnection).getValue 4 before: assert hasPriceRel <==> hasRel(line.Text)
  hint @P18 call (*ledgerConnection).getValue 4 before: assert hasAssertion <==> hasEq(line.Text)
  hint @P18 call (*ledgerConnection).getValue 5 before: assert hasValue ==> text[valueStart:] == VTEXT(line.Text)
  hint @P18 call (*ledgerConnection).getValue 5 before: assert hasPriceAbs <==> hasAbs(line.Text)
  hint @P18 call (*ledgerConnection).getValue 5 before: assert hasPriceRel <==> hasRel(line.Text)
  hint @P18 call (*ledgerConnection).getValue 5 before: assert hasAssertion <==> hasEq(line.Text)
  hint @P18 call (*ledgerConnection).getValue 6 before: assert hasValue ==> text[valueStart:] == VTEXT(line.Text)
  hint @P18 call (*ledgerConnection).getValue 6 before: assert hasPriceAbs <==> hasAbs(line.Text)
  hint @P18 call (*ledgerConnection).getValue 6 before: assert hasPriceRel <==> hasRel(line.Text)
  hint @P18 call (*ledgerConnection).getValue 6 before: assert hasAssertion <==> hasEq(line.Text)
  hint @P18 call (*ledgerConnection).getValue 4 before: assert valueStart == VST(line.Text) && valueEnd == VEND(line.Text)
  hint @P18 call (*ledgerConnection).getValue 4 before: assert arg1 == AMTTEXT(line.Text)
  hint @P18 call (*ledgerConnection).getValue 5 before: assert priceStart == PST(line.Text)
  hint @P18 call (*ledgerConnection).getValue 5 before: assert arg1 == PRICETEXT(line.Text)
  hint @P18 call (*ledgerConnection).getValue 6 before: assert assertionStart == VST(line.Text) + CUT(VTEXT(line.Text),61) + 1
  hint @P18 call (*ledgerConnection).getValue 6 before: assert arg1 == ASSTEXT(line.Text)
  hint @P18 call (*ledgerConnection).getAccount 1 before: assert arg3 == REST(CODE(line.Text))
  hint @P18 call GetDate 1 before: assert rest == REST(CODE(line.Text)) ==> arg0 == WORD(REST(CODE(line.Text)))
  hint @P18 call (*Ledger).GetCurrency 1 before: assert arg1 == WORD(REST(REST(CODE(line.Text))))
  hint @P18 call (*ledgerConnection).getValue 1 before: assert arg1 == REST(REST(REST(CODE(line.Text))))
  hint @P18 call (*ledgerConnection).getValue 1 before: assert price.Currency.Name == WORD(REST(REST(CODE(line.Text)))) && curIn(l.ledger, price.Currency)
  hint @P18 call append 1 before: assert price.Currency.Name == WORD(REST(REST(CODE(line.Text)))) && curIn(l.ledger, price.Currency)
  hint @P18 loop 0 back: claim quiet() ==> blank(line.Text) || isNote(line.Text) || isDir(line.Text) || isHead(line.Text) || isPost(line.Text, start(0, lastLine))
  hint @P18 loop 0 back: claim len(l.ledger.Accounts) >= start(0, len(l.ledger.Accounts)) && forall k: int {l.ledger.Accounts[k]} {start(0, l.ledger.Accounts[k])} :: 0 <= k < start(0, len(l.ledger.Accounts)) ==> l.ledger.Accounts[k] == start(0, l.ledger.Accounts[k])
  hint @P18 loop 0 back: claim len(l.ledger.Transactions) >= start(0, len(l.ledger.Transactions)) && forall k: int {l.ledger.Transactions[k]} {start(0, l.ledger.Transactions[k])} :: 0 <= k < start(0, len(l.ledger.Transactions)) ==> l.ledger.Transactions[k] == start(0, l.ledger.Transactions[k])
  hint @P18 loop 0 back: claim len(l.ledger.Prices) >= start(0, len(l.ledger.Prices)) && forall k: int {l.ledger.Prices[k]} {start(0, l.ledger.Prices[k])} :: 0 <= k < start(0, len(l.ledger.Prices)) ==> l.ledger.Prices[k] == start(0, l.ledger.Prices[k])
  hint @P18 loop 0 back: claim len(l.ledger.Currencies) >= start(0, len(l.ledger.Currencies)) && forall k: int {l.ledger.Currencies[k]} {start(0, l.ledger.Currencies[k])} :: 0 <= k < start(0, len(l.ledger.Currencies)) ==> l.ledger.Currencies[k] == start(0, l.ledger.Currencies[k])
  hint @P18 loop 0 back: claim forall o: *Account {o.Name} :: 0 < o && o < start(0, alloc) ==> o.Name == start(0, o.Name)
  hint @P18 loop 0 back: claim forall o: *Account {o.Parent} :: 0 < o && o < start(0, alloc) ==> o.Parent == start(0, o.Parent)
  hint @P18 loop 0 back: claim forall o: *Transaction {o.Time} :: 0 < o && o < start(0, alloc) ==> o.Time == start(0, o.Time)
  hint @P18 loop 0 back: claim forall o: *Transaction {o.Description} :: 0 < o && o < start(0, alloc) ==> o.Description == start(0, o.Description)
  hint @P18 loop 0 back: claim forall o: *Price {o.Time} :: 0 < o && o < start(0, alloc) ==> o.Time == start(0, o.Time)
  hint @P18 loop 0 back: claim forall o: *Price {o.Currency} :: 0 < o && o < start(0, alloc) ==> o.Currency == start(0, o.Currency)
  hint @P18 loop 0 back: claim forall o: *Price {o.Value} :: 0 < o && o < start(0, alloc) ==> o.Value == start(0, o.Value)
  hint @P18 loop 0 back: claim forall o: *Currency {o.Name} :: 0 < o && o < start(0, alloc) ==> o.Name == start(0, o.Name)
  hint @P18 loop 0 back: claim forall o: *Split {o.Account} :: 0 < o && o < start(0, alloc) ==> o.Account == start(0, o.Account)
  hint @P18 loop 0 back: claim forall o: *Split {o.Value} :: 0 < o && o < start(0, alloc) ==> o.Value == start(0, o.Value)
  hint @P18 loop 0 back: claim forall i: int {l.ledger.Transactions[i]} :: 0 <= i < start(0, len(l.ledger.Transactions)) && (i < len(l.ledger.Transactions)-1 || !isPost(line.Text, start(0, lastLine))) ==> l.ledger.Transactions[i].Splits == start(0, l.ledger.Transactions[i].Splits)
  hint @P18 loop 0 back: claim forall i: int, j: int {l.ledger.Transactions[i].Splits[j]} :: 0 <= i < start(0, len(l.ledger.Transactions)) && 0 <= j < start(0, len(l.ledger.Transactions[i].Splits)) ==> l.ledger.Transactions[i].Splits[j] == start(0, l.ledger.Transactions[i].Splits[j])
  hint @P18 loop 0 back: claim forall p: *Split {p in l.ledger.SplitPrices} {vals(l.ledger.SplitPrices)[p]} :: p < start(0, alloc) || !isPost(line.Text, start(0, lastLine)) ==> (p in l.ledger.SplitPrices <==> start(0, p in l.ledger.SplitPrices)) && vals(l.ledger.SplitPrices)[p] == start(0, vals(l.ledger.SplitPrices)[p])
  hint @P18 loop 0 back: claim forall p: *Split {p in l.ledger.Assertions} {vals(l.ledger.Assertions)[p]} :: p < start(0, alloc) || !isPost(line.Text, start(0, lastLine)) ==> (p in l.ledger.Assertions <==> start(0, p in l.ledger.Assertions)) && vals(l.ledger.Assertions)[p] == start(0, vals(l.ledger.Assertions)[p])
  hint @P18 loop 0 back: claim forall w: any, k: int {l.ledger.Comments[w][k]} :: 0 <= k < start(0, CN(l.ledger, w)) ==> l.ledger.Comments[w][k] == start(0, l.ledger.Comments[w][k])
  hint @P18 loop 0 back: claim quiet() ==> len(l.ledger.Transactions) == start(0, len(l.ledger.Transactions)) + ite(isHead(line.Text), 1, 0)
  hint @P18 loop 0 back: claim quiet() ==> len(l.ledger.Prices) == start(0, len(l.ledger.Prices)) + ite(dirOf(line.Text, "P"), 1, 0)
  hint @P18 loop 0 back: claim quiet() && !dirOf(line.Text, "account") && !isPost(line.Text, start(0, lastLine)) ==> len(l.ledger.Accounts) == start(0, len(l.ledger.Accounts))
  hint @P18 loop 0 back: claim quiet() && !dirOf(line.Text, "D") && !dirOf(line.Text, "commodity") ==> len(l.ledger.Currencies) == start(0, len(l.ledger.Currencies))
  hint @P18 loop 0 back: claim !dirOf(line.Text, "D") && start(0, l.ledger.DefaultCurrency) != nil ==> l.ledger.DefaultCurrency == start(0, l.ledger.DefaultCurrency)
  hint @P18 loop 0 back: claim quiet() && isHead(line.Text) ==> l.ledger.Transactions[len(l.ledger.Transactions)-1] >= start(0, alloc) && dateOf(l.ledger.Transactions[len(l.ledger.Transactions)-1].Time, WORD(CODE(line.Text))) && l.ledger.Transactions[len(l.ledger.Transactions)-1].Description == REST(CODE(line.Text)) && len(l.ledger.Transactions[len(l.ledger.Transactions)-1].Splits) == 0 && lastLine == 5
  hint @P18 loop 0 back: claim quiet() && dirOf(line.Text, "P") ==> l.ledger.Prices[len(l.ledger.Prices)-1] >= start(0, alloc) && dateOf(l.ledger.Prices[len(l.ledger.Prices)-1].Time, WORD(REST(CODE(line.Text)))) && lastLine == 4
  hint @P18 loop 0 back: claim quiet() && dirOf(line.Text, "P") ==> l.ledger.Prices[len(l.ledger.Prices)-1].Currency.Name == WORD(REST(REST(CODE(line.Text)))) && curIn(l.ledger, l.ledger.Prices[len(l.ledger.Prices)-1].Currency)
  hint @P18 loop 0 back: claim quiet() && dirOf(line.Text, "P") ==> valueOf(l.ledger, l.ledger.Prices[len(l.ledger.Prices)-1].Value, REST(REST(REST(CODE(line.Text)))))
  hint @P18 loop 0 back: claim quiet() && dirOf(line.Text, "D") ==> (exists a: int {READV(REST(CODE(line.Text)), a, l.ledger.DefaultCurrency)} :: READV(REST(CODE(line.Text)), a, l.ledger.DefaultCurrency)) && (REST(CODE(line.Text)) != "" && CURT(REST(CODE(line.Text))) != "" ==> l.ledger.DefaultCurrency.Name == CURT(REST(CODE(line.Text))) && curIn(l.ledger, l.ledger.DefaultCurrency)) && lastLine == 2
  hint @P18 loop 0 back: claim quiet() && dirOf(line.Text, "commodity") ==> (exists a: int {READV(REST(CODE(line.Text)), a, lastCommodity)} :: READV(REST(CODE(line.Text)), a, lastCommodity)) && curWritten(l.ledger, lastCommodity, REST(CODE(line.Text))) && lastLine == 3
  hint @P18 loop 0 back: claim !dirOf(line.Text, "commodity") ==> lastCommodity == start(0, lastCommodity)
  hint @P18 loop 0 back: claim quiet() && (dirOf(line.Text, "D") || dirOf(line.Text, "commodity")) ==> len(l.ledger.Currencies) <= start(0, len(l.ledger.Currencies)) + 1 && (len(l.ledger.Currencies) > start(0, len(l.ledger.Currencies)) ==> l.ledger.Currencies[len(l.ledger.Currencies)-1].Name == CURT(REST(CODE(line.Text))))
  hint @P18 loop 0 back: claim quiet() && dirOf(line.Text, "account") ==> len(l.ledger.Accounts) > start(0, len(l.ledger.Accounts)) && named(l.ledger.Accounts[len(l.ledger.Accounts)-1]) == REST(CODE(line.Text)) && lastLine == 1
  hint @P18 loop 0 back: claim quiet() && dirOf(line.Text, "account") ==> forall k: int {l.ledger.Accounts[k]} :: start(0, len(l.ledger.Accounts)) <= k < len(l.ledger.Accounts) ==> upTo(named(l.ledger.Accounts[k]), REST(CODE(line.Text)))
  hint @P18 loop 0 back: claim quiet() && isPost(line.Text, start(0, lastLine)) ==> len(l.ledger.Transactions[len(l.ledger.Transactions)-1].Splits) == start(0, len(l.ledger.Transactions[len(l.ledger.Transactions)-1].Splits)) + 1 && l.ledger.Transactions[len(l.ledger.Transactions)-1].Splits[len(l.ledger.Transactions[len(l.ledger.Transactions)-1].Splits)-1] >= start(0, alloc) && lastLine == 6
  hint @P18 loop 0 back: claim quiet() && isPost(line.Text, start(0, lastLine)) ==> named(l.ledger.Transactions[len(l.ledger.Transactions)-1].Splits[len(l.ledger.Transactions[len(l.ledger.Transactions)-1].Splits)-1].Account) == ACCT(line.Text)
  hint @P18 loop 0 back: claim isPost(line.Text, start(0, lastLine)) ==> forall k: int {l.ledger.Accounts[k]} :: start(0, len(l.ledger.Accounts)) <= k < len(l.ledger.Accounts) ==> upTo(named(l.ledger.Accounts[k]), ACCT(line.Text))
  hint @P18 loop 0 back: claim quiet() && isPost(line.Text, start(0, lastLine)) ==> ite(hasV(line.Text), valueOf(l.ledger, l.ledger.Transactions[len(l.ledger.Transactions)-1].Splits[len(l.ledger.Transactions[len(l.ledger.Transactions)-1].Splits)-1].Value, AMTTEXT(line.Text)), l.ledger.Transactions[len(l.ledger.Transactions)-1].Splits[len(l.ledger.Transactions[len(l.ledger.Transactions)-1].Splits)-1].Value.Amount == 0 && l.ledger.Transactions[len(l.ledger.Transactions)-1].Splits[len(l.ledger.Transactions[len(l.ledger.Transactions)-1].Splits)-1].Value.Currency == nil)
  hint @P18 loop 0 back: claim quiet() && isPost(line.Text, start(0, lastLine)) ==> (l.ledger.Transactions[len(l.ledger.Transactions)-1].Splits[len(l.ledger.Transactions[len(l.ledger.Transactions)-1].Splits)-1] in l.ledger.SplitPrices <==> hasAbs(line.Text) || hasRel(line.Text)) && (l.ledger.Transactions[len(l.ledger.Transactions)-1].Splits[len(l.ledger.Transactions[len(l.ledger.Transactions)-1].Splits)-1] in l.ledger.Assertions <==> hasEq(line.Text))
  hint @P18 loop 0 back: claim quiet() && isPost(line.Text, start(0, lastLine)) ==> hasAbs(line.Text) ==> valueOf(l.ledger, vals(l.ledger.SplitPrices)[l.ledger.Transactions[len(l.ledger.Transactions)-1].Splits[len(l.ledger.Transactions[len(l.ledger.Transactions)-1].Splits)-1]], PRICETEXT(line.Text))
  hint @P18 loop 0 back: claim quiet() && isPost(line.Text, start(0, lastLine)) ==> hasRel(line.Text) ==> curWritten(l.ledger, vals(l.ledger.SplitPrices)[l.ledger.Transactions[len(l.ledger.Transactions)-1].Splits[len(l.ledger.Transactions[len(l.ledger.Transactions)-1].Splits)-1]].Currency, PRICETEXT(line.Text)) && exists a: int {READV(PRICETEXT(line.Text), a, vals(l.ledger.SplitPrices)[l.ledger.Transactions[len(l.ledger.Transactions)-1].Splits[len(l.ledger.Transactions[len(l.ledger.Transactions)-1].Splits)-1]].Currency)} :: READV(PRICETEXT(line.Text), a, vals(l.ledger.SplitPrices)[l.ledger.Transactions[len(l.ledger.Transactions)-1].Splits[len(l.ledger.Transactions[len(l.ledger.Transactions)-1].Splits)-1]].Currency) && vals(l.ledger.SplitPrices)[l.ledger.Transactions[len(l.ledger.Transactions)-1].Splits[len(l.ledger.Transactions[len(l.ledger.Transactions)-1].Splits)-1]].Amount == quo(l.ledger.Transactions[len(l.ledger.Transactions)-1].Splits[len(l.ledger.Transactions[len(l.ledger.Transactions)-1].Splits)-1].Value.Amount*a, 100000000)
  hint @P18 loop 0 back: claim quiet() && isPost(line.Text, start(0, lastLine)) ==> hasEq(line.Text) ==> valueOf(l.ledger, vals(l.ledger.Assertions)[l.ledger.Transactions[len(l.ledger.Transactions)-1].Splits[len(l.ledger.Transactions[len(l.ledger.Transactions)-1].Splits)-1]], ASSTEXT(line.Text))
  hint @P18 loop 0 back: claim quiet() && isPost(line.Text, start(0, lastLine)) ==> NOTE(line.Text) == "" ==> l.ledger.Transactions[len(l.ledger.Transactions)-1].Splits[len(l.ledger.Transactions[len(l.ledger.Transactions)-1].Splits)-1].Time == nil
  hint @P18 loop 0 back: claim quiet() && isHead(line.Text) ==> forall w: any {l.ledger.Comments[w]} :: ite(true && w == mk(*Transaction, l.ledger.Transactions[len(l.ledger.Transactions)-1]), noted(l.ledger, w, NOTE(line.Text)), CN(l.ledger, w) == start(0, CN(l.ledger, w)))
  hint @P18 loop 0 back: claim quiet() && isHead(line.Text) && true && NOTE(line.Text) != "" ==> tagDone(mk(*Transaction, l.ledger.Transactions[len(l.ledger.Transactions)-1]), NOTE(line.Text))
  hint @P18 loop 0 back: claim quiet() && isHead(line.Text) ==> forall o: *Account {o.Code} :: o < start(0, alloc) ==> o.Code == start(0, o.Code)
  hint @P18 loop 0 back: claim quiet() && isHead(line.Text) ==> forall o: *Currency {o.ISIN} :: o < start(0, alloc) ==> o.ISIN == start(0, o.ISIN)
  hint @P18 loop 0 back: claim quiet() && isHead(line.Text) ==> forall o: *Split {o.Time} :: o < start(0, alloc) ==> o.Time == start(0, o.Time)
  hint @P18 loop 0 back: claim quiet() && dirOf(line.Text, "P") ==> forall w: any {l.ledger.Comments[w]} :: ite(true && w == mk(*Price, l.ledger.Prices[len(l.ledger.Prices)-1]), noted(l.ledger, w, NOTE(line.Text)), CN(l.ledger, w) == start(0, CN(l.ledger, w)))
  hint @P18 loop 0 back: claim quiet() && dirOf(line.Text, "P") && true && NOTE(line.Text) != "" ==> tagDone(mk(*Price, l.ledger.Prices[len(l.ledger.Prices)-1]), NOTE(line.Text))
  hint @P18 loop 0 back: claim quiet() && dirOf(line.Text, "P") ==> forall o: *Account {o.Code} :: o < start(0, alloc) ==> o.Code == start(0, o.Code)
  hint @P18 loop 0 back: claim quiet() && dirOf(line.Text, "P") ==> forall o: *Currency {o.ISIN} :: o < start(0, alloc) ==> o.ISIN == start(0, o.ISIN)
  hint @P18 loop 0 back: claim quiet() && dirOf(line.Text, "P") ==> forall o: *Split {o.Time} :: o < start(0, alloc) ==> o.Time == start(0, o.Time)
  hint @P18 loop 0 back: claim quiet() && dirOf(line.Text, "commodity") ==> forall w: any {l.ledger.Comments[w]} :: ite(lastCommodity != nil && w == mk(*Currency, lastCommodity), noted(l.ledger, w, NOTE(line.Text)), CN(l.ledger, w) == start(0, CN(l.ledger, w)))
  hint @P18 loop 0 back: claim quiet() && dirOf(line.Text, "commodity") && lastCommodity != nil && NOTE(line.Text) != "" ==> tagDone(mk(*Currency, lastCommodity), NOTE(line.Text))
  hint @P18 loop 0 back: claim quiet() && dirOf(line.Text, "commodity") ==> forall o: *Account {o.Code} :: o < start(0, alloc) ==> o.Code == start(0, o.Code)
  hint @P18 loop 0 back: claim quiet() && dirOf(line.Text, "commodity") ==> forall o: *Currency {o.ISIN} :: o < start(0, alloc) && !(lastCommodity != nil && o == lastCommodity) ==> o.ISIN == start(0, o.ISIN)
  hint @P18 loop 0 back: claim quiet() && dirOf(line.Text, "commodity") ==> forall o: *Split {o.Time} :: o < start(0, alloc) ==> o.Time == start(0, o.Time)
  hint @P18 loop 0 back: claim quiet() && dirOf(line.Text, "account") ==> forall w: any {l.ledger.Comments[w]} :: ite(true && w == mk(*Account, l.ledger.Accounts[len(l.ledger.Accounts)-1]), noted(l.ledger, w, NOTE(line.Text)), CN(l.ledger, w) == start(0, CN(l.ledger, w)))
  hint @P18 loop 0 back: claim quiet() && dirOf(line.Text, "account") && true && NOTE(line.Text) != "" ==> tagDone(mk(*Account, l.ledger.Accounts[len(l.ledger.Accounts)-1]), NOTE(line.Text))
  hint @P18 loop 0 back: claim quiet() && dirOf(line.Text, "account") ==> forall o: *Account {o.Code} :: o < start(0, alloc) && !(true && o == l.ledger.Accounts[len(l.ledger.Accounts)-1]) ==> o.Code == start(0, o.Code)
  hint @P18 loop 0 back: claim quiet() && dirOf(line.Text, "account") ==> forall o: *Currency {o.ISIN} :: o < start(0, alloc) ==> o.ISIN == start(0, o.ISIN)
  hint @P18 loop 0 back: claim quiet() && dirOf(line.Text, "account") ==> forall o: *Split {o.Time} :: o < start(0, alloc) ==> o.Time == start(0, o.Time)
  hint @P18 loop 0 back: claim quiet() && isPost(line.Text, start(0, lastLine)) ==> forall w: any {l.ledger.Comments[w]} :: ite(true && w == mk(*Split, l.ledger.Transactions[len(l.ledger.Transactions)-1].Splits[len(l.ledger.Transactions[len(l.ledger.Transactions)-1].Splits)-1]), noted(l.ledger, w, NOTE(line.Text)), CN(l.ledger, w) == start(0, CN(l.ledger, w)))
  hint @P18 loop 0 back: claim quiet() && isPost(line.Text, start(0, lastLine)) && true && NOTE(line.Text) != "" ==> tagDone(mk(*Split, l.ledger.Transactions[len(l.ledger.Transactions)-1].Splits[len(l.ledger.Transactions[len(l.ledger.Transactions)-1].Splits)-1]), NOTE(line.Text))
  hint @P18 loop 0 back: claim quiet() && isPost(line.Text, start(0, lastLine)) ==> forall o: *Account {o.Code} :: o < start(0, alloc) ==> o.Code == start(0, o.Code)
  hint @P18 loop 0 back: claim quiet() && isPost(line.Text, start(0, lastLine)) ==> forall o: *Currency {o.ISIN} :: o < start(0, alloc) ==> o.ISIN == start(0, o.ISIN)
  hint @P18 loop 0 back: claim quiet() && isPost(line.Text, start(0, lastLine)) ==> forall o: *Split {o.Time} :: o < start(0, alloc) && !(true && o == l.ledger.Transactions[len(l.ledger.Transactions)-1].Splits[len(l.ledger.Transactions[len(l.ledger.Transactions)-1].Splits)-1]) ==> o.Time == start(0, o.Time)
  hint @P18 loop 0 back: claim quiet() && isNote(line.Text) && indented(line.Text) && start(0, lastLine) == 1 ==> forall w: any {l.ledger.Comments[w]} :: ite(true && w == mk(*Account, l.ledger.Accounts[len(l.ledger.Accounts)-1]), remarked(l.ledger, w, FULLNOTE(line.Text)), CN(l.ledger, w) == start(0, CN(l.ledger, w)))
  hint @P18 loop 0 back: claim quiet() && isNote(line.Text) && indented(line.Text) && start(0, lastLine) == 1 && true ==> tagDone(mk(*Account, l.ledger.Accounts[len(l.ledger.Accounts)-1]), FULLNOTE(line.Text))
  hint @P18 loop 0 back: claim quiet() && isNote(line.Text) && indented(line.Text) && start(0, lastLine) == 1 ==> forall o: *Account {o.Code} :: o < start(0, alloc) && !(true && o == l.ledger.Accounts[len(l.ledger.Accounts)-1]) ==> o.Code == start(0, o.Code)
  hint @P18 loop 0 back: claim quiet() && isNote(line.Text) && indented(line.Text) && start(0, lastLine) == 1 ==> forall o: *Currency {o.ISIN} :: o < start(0, alloc) ==> o.ISIN == start(0, o.ISIN)
  hint @P18 loop 0 back: claim quiet() && isNote(line.Text) && indented(line.Text) && start(0, lastLine) == 1 ==> forall o: *Split {o.Time} :: o < start(0, alloc) ==> o.Time == start(0, o.Time)
  hint @P18 loop 0 back: claim quiet() && isNote(line.Text) && indented(line.Text) && start(0, lastLine) == 3 ==> forall w: any {l.ledger.Comments[w]} :: ite(lastCommodity != nil && w == mk(*Currency, lastCommodity), remarked(l.ledger, w, FULLNOTE(line.Text)), CN(l.ledger, w) == start(0, CN(l.ledger, w)))
  hint @P18 loop 0 back: claim quiet() && isNote(line.Text) && indented(line.Text) && start(0, lastLine) == 3 && lastCommodity != nil ==> tagDone(mk(*Currency, lastCommodity), FULLNOTE(line.Text))
  hint @P18 loop 0 back: claim quiet() && isNote(line.Text) && indented(line.Text) && start(0, lastLine) == 3 ==> forall o: *Account {o.Code} :: o < start(0, alloc) ==> o.Code == start(0, o.Code)
  hint @P18 loop 0 back: claim quiet() && isNote(line.Text) && indented(line.Text) && start(0, lastLine) == 3 ==> forall o: *Currency {o.ISIN} :: o < start(0, alloc) && !(lastCommodity != nil && o == lastCommodity) ==> o.ISIN == start(0, o.ISIN)
  hint @P18 loop 0 back: claim quiet() && isNote(line.Text) && indented(line.Text) && start(0, lastLine) == 3 ==> forall o: *Split {o.Time} :: o < start(0, alloc) ==> o.Time == start(0, o.Time)
  hint @P18 loop 0 back: claim quiet() && isNote(line.Text) && indented(line.Text) && start(0, lastLine) == 4 ==> forall w: any {l.ledger.Comments[w]} :: ite(true && w == mk(*Price, l.ledger.Prices[len(l.ledger.Prices)-1]), remarked(l.ledger, w, FULLNOTE(line.Text)), CN(l.ledger, w) == start(0, CN(l.ledger, w)))
  hint @P18 loop 0 back: claim quiet() && isNote(line.Text) && indented(line.Text) && start(0, lastLine) == 4 && true ==> tagDone(mk(*Price, l.ledger.Prices[len(l.ledger.Prices)-1]), FULLNOTE(line.Text))
  hint @P18 loop 0 back: claim quiet() && isNote(line.Text) && indented(line.Text) && start(0, lastLine) == 4 ==> forall o: *Account {o.Code} :: o < start(0, alloc) ==> o.Code == start(0, o.Code)
  hint @P18 loop 0 back: claim quiet() && isNote(line.Text) && indented(line.Text) && start(0, lastLine) == 4 ==> forall o: *Currency {o.ISIN} :: o < start(0, alloc) ==> o.ISIN == start(0, o.ISIN)
  hint @P18 loop 0 back: claim quiet() && isNote(line.Text) && indented(line.Text) && start(0, lastLine) == 4 ==> forall o: *Split {o.Time} :: o < start(0, alloc) ==> o.Time == start(0, o.Time)
  hint @P18 loop 0 back: claim quiet() && isNote(line.Text) && indented(line.Text) && start(0, lastLine) == 5 ==> forall w: any {l.ledger.Comments[w]} :: ite(true && w == mk(*Transaction, l.ledger.Transactions[len(l.ledger.Transactions)-1]), remarked(l.ledger, w, FULLNOTE(line.Text)), CN(l.ledger, w) == start(0, CN(l.ledger, w)))
  hint @P18 loop 0 back: claim quiet() && isNote(line.Text) && indented(line.Text) && start(0, lastLine) == 5 && true ==> tagDone(mk(*Transaction, l.ledger.Transactions[len(l.ledger.Transactions)-1]), FULLNOTE(line.Text))
  hint @P18 loop 0 back: claim quiet() && isNote(line.Text) && indented(line.Text) && start(0, lastLine) == 5 ==> forall o: *Account {o.Code} :: o < start(0, alloc) ==> o.Code == start(0, o.Code)
  hint @P18 loop 0 back: claim quiet() && isNote(line.Text) && indented(line.Text) && start(0, lastLine) == 5 ==> forall o: *Currency {o.ISIN} :: o < start(0, alloc) ==> o.ISIN == start(0, o.ISIN)
  hint @P18 loop 0 back: claim quiet() && isNote(line.Text) && indented(line.Text) && start(0, lastLine) == 5 ==> forall o: *Split {o.Time} :: o < start(0, alloc) ==> o.Time == start(0, o.Time)
  hint @P18 loop 0 back: claim quiet() && isNote(line.Text) && indented(line.Text) && start(0, lastLine) == 6 ==> forall w: any {l.ledger.Comments[w]} :: ite(true && w == mk(*Split, l.ledger.Transactions[len(l.ledger.Transactions)-1].Splits[len(l.ledger.Transactions[len(l.ledger.Transactions)-1].Splits)-1]), remarked(l.ledger, w, FULLNOTE(line.Text)), CN(l.ledger, w) == start(0, CN(l.ledger, w)))
  hint @P18 loop 0 back: claim quiet() && isNote(line.Text) && indented(line.Text) && start(0, lastLine) == 6 && true ==> tagDone(mk(*Split, l.ledger.Transactions[len(l.ledger.Transactions)-1].Splits[len(l.ledger.Transactions[len(l.ledger.Transactions)-1].Splits)-1]), FULLNOTE(line.Text))
  hint @P18 loop 0 back: claim quiet() && isNote(line.Text) && indented(line.Text) && start(0, lastLine) == 6 ==> forall o: *Account {o.Code} :: o < start(0, alloc) ==> o.Code == start(0, o.Code)
  hint @P18 loop 0 back: claim quiet() && isNote(line.Text) && indented(line.Text) && start(0, lastLine) == 6 ==> forall o: *Currency {o.ISIN} :: o < start(0, alloc) ==> o.ISIN == start(0, o.ISIN)
  hint @P18 loop 0 back: claim quiet() && isNote(line.Text) && indented(line.Text) && start(0, lastLine) == 6 ==> forall o: *Split {o.Time} :: o < start(0, alloc) && !(true && o == l.ledger.Transactions[len(l.ledger.Transactions)-1].Splits[len(l.ledger.Transactions[len(l.ledger.Transactions)-1].Splits)-1]) ==> o.Time == start(0, o.Time)
  hint @P18 loop 0 back: claim quiet() && (blank(line.Text) || (isNote(line.Text) && !indented(line.Text)) || dirOf(line.Text, "D") || dirOf(line.Text, "include")) ==> forall w: any {l.ledger.Comments[w]} :: CN(l.ledger, w) == start(0, CN(l.ledger, w))
  hint @P18 loop 0 back: claim quiet() && (blank(line.Text) || (isNote(line.Text) && !indented(line.Text)) || dirOf(line.Text, "D") || dirOf(line.Text, "include")) ==> forall o: *Account {o.Code} :: o < start(0, alloc) ==> o.Code == start(0, o.Code)
  hint @P18 loop 0 back: claim quiet() && (blank(line.Text) || (isNote(line.Text) && !indented(line.Text)) || dirOf(line.Text, "D") || dirOf(line.Text, "include")) ==> forall o: *Currency {o.ISIN} :: o < start(0, alloc) ==> o.ISIN == start(0, o.ISIN)
  hint @P18 loop 0 back: claim quiet() && (blank(line.Text) || (isNote(line.Text) && !indented(line.Text)) || dirOf(line.Text, "D") || dirOf(line.Text, "include")) ==> forall o: *Split {o.Time} :: o < start(0, alloc) ==> o.Time == start(0, o.Time)
  hint @P18 loop 0 back: claim blank(line.Text) || isNote(line.Text) ==> lastLine == start(0, lastLine)
  hint @P18 loop 0 back: claim quiet() && isNote(line.Text) && indented(line.Text) ==> start(0, lastLine) == 1 || start(0, lastLine) == 3 || start(0, lastLine) == 4 || start(0, lastLine) == 5 || start(0, lastLine) == 6
  hint @P18 loop 0 back: claim quiet() && dirOf(line.Text, "include") ==> lastLine == 7
  hint @P18 loop 0 back: claim len(s.files) == after(Line, 1, len(s.files)) + ite(dirOf(line.Text, "include") && quiet(), 1, 0) || (dirOf(line.Text, "include") && !quiet())
  hint @P18 loop 0 back: claim forall k: int {s.files[k]} :: 0 <= k < after(Line, 1, len(s.files)) && !(dirOf(line.Text, "include")) ==> s.files[k].s == after(Line, 1, s.files[k].s) && scanned(s.files[k].s) == after(Line, 1, scanned(s.files[k].s))
  // end of what each line does

func (driver).Open
  props P17
  option zeroed
  requires backend: backend > 0 && backend.Ledger > 0
  requires base: 0 < BASE() && BASE() == alloc
  modifies Ledger.Accounts, Ledger.Transactions, Ledger.Currencies, Ledger.Prices, Ledger.Comments, Ledger.Assertions, Ledger.SplitPrices, Ledger.DefaultCurrency
    , mem(*Account), mem(*Transaction), mem(*Split), mem(*Price), mem(*Currency), mem(string), mem(scannerFile), mapdom(map[any][]string), mapval(map[any][]string), mapdom(map[*Split]Value), mapval(map[*Split]Value)
    , Account.ID, Account.Parent, Account.Children, Account.Level, Account.Name, Account.Code, Account.Splits, Account.StartBalance
    , ID.filename, ID.lineNum, Scanner.files, scanners, warnings, Split.Time, time, Currency.ISIN, Currency.Thousand, Currency.Decimal, Currency.Precision, Currency.Name, Currency.ID, Currency.PrintBefore, Currency.WithoutSpace
    , Price.ID, Price.Currency, Price.Value, Transaction.ID, Transaction.Description, Transaction.Splits, Split.ID, Split.Account, Split.Transaction, Split.Value, Split.Balance, bigint, ledgerConnection.file, ledgerConnection.backend, ledgerConnection.ledger
  ensures ledger: result1 == nil ==> ledgerOK(backend.Ledger)
  ensures accounts: result1 == nil ==> accList(backend.Ledger)
  ensures accounts-distinct: result1 == nil ==> accSorted(backend.Ledger)
  ensures transactions-distinct: result1 == nil ==> trxSorted(backend.Ledger)
  ensures postings-apart: result1 == nil ==> splitsIn(backend.Ledger)
  ensures postings-distinct: result1 == nil ==> splitsSorted(backend.Ledger)
  ensures separators: result1 == nil ==> sepsOK()
  ensures precisions: result1 == nil ==> precOK()
  ensures currencies: result1 == nil ==> curList(backend.Ledger)
  ensures default: result1 == nil ==> curDefault(backend.Ledger)
  ensures prices: result1 == nil ==> pricesIn(backend.Ledger)
  ensures price-currencies: result1 == nil ==> pricesOf(backend.Ledger)
  ensures price-values: result1 == nil ==> pricesOK(backend.Ledger)
  ensures transactions: result1 == nil ==> trxOK(backend.Ledger)
  ensures posting-accounts: result1 == nil ==> postingsOf(backend.Ledger)
  ensures posting-values: result1 == nil ==> postingsOK(backend.Ledger)
  ensures stated: result1 == nil ==> statedOK(backend.Ledger)
  ensures asserted: result1 == nil ==> assertedOK(backend.Ledger)
