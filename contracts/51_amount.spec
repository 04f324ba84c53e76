package github.com/cespedes/accounting

// ---- writing of amounts (P10)

// GRP: p followed by the first m digits of s, with the sign t before each group of three (counted from the end), except the first
fun GRP(p: string, s: string, t: string, m: int): string
axiom GRP := forall p: string, s: string, t: string, m: int {GRP(p,s,t,m)} :: m <= 0 ==> GRP(p,s,t,m) == p
axiom GRP step := forall p: string, s: string, t: string, m: int, n: int {GRP(p,s,t,m), s[n]} :: m == n+1 && n >= 0 ==>
  GRP(p,s,t,m) == ite(n > 0 && mod(len(s)-n, 3) == 0, GRP(p,s,t,n) + t, GRP(p,s,t,n)) + s[n:n+1]

// KEEP: number of decimals to write, at least d, so that the others (up to n) are zeros
fun KEEP(s: string, d: int, n: int): int
axiom KEEP := forall s: string, d: int, n: int {KEEP(s,d,n)} :: n <= d ==> KEEP(s,d,n) == d
axiom KEEP step := forall s: string, d: int, n: int, m: int {KEEP(s,d,n), s[m]} :: n == m+1 && n > d ==> KEEP(s,d,n) == ite(s[m] != 48, n, KEEP(s,d,m))

lemma KEEPzeros(s: string, d: int, n: int)
  requires d >= 0 && n <= len(s)
  ensures n >= d ==> d <= KEEP(s,d,n) <= n
  ensures forall k: int {s[k]} :: KEEP(s,d,n) <= k < n ==> s[k] == 48
  induct n

lemma GRPstep(p: string, s: string, t: string, n: int)
  requires 0 <= n < len(s)
  ensures GRP(p,s,t,n+1) == ite(n > 0 && mod(len(s)-n, 3) == 0, GRP(p,s,t,n) + t, GRP(p,s,t,n)) + s[n:n+1]

// the parts of a text
def cName(v) := ite(v.Currency != nil, v.Currency.Name, "")
def cBefore(v) := v.Currency != nil && v.Currency.PrintBefore
def cTight(v) := v.Currency != nil && v.Currency.WithoutSpace
def cThousand(v) := ite(v.Currency != nil, v.Currency.Thousand, "")
def cDecimal(v) := ite(v.Currency != nil && v.Currency.Decimal != "", v.Currency.Decimal, ".")
def cPrec(v) := ite(v.Currency != nil, v.Currency.Precision, 0)
def mag(v) := ite(v.Amount < 0, 0-v.Amount, v.Amount)
def whole(v) := itoa(div(mag(v), 100000000))
def frac(v) := ipad8(mod(mag(v), 100000000))
def decimals(v, full) := ite(full, KEEP(frac(v), cPrec(v), 8), cPrec(v))
def tBefore(v, units) := ite(units && cBefore(v), ite(cTight(v), cName(v), cName(v) + " "), "")
def tSign(v, units) := ite(v.Amount < 0, tBefore(v, units) + "-", tBefore(v, units))
def tWhole(v, units) := GRP(tSign(v, units), whole(v), cThousand(v), len(whole(v)))
def tNumber(v, full, units) := ite(cPrec(v) > 0 || (full && mod(mag(v), 100000000) > 0), (tWhole(v, units) + cDecimal(v)) + frac(v)[0:decimals(v, full)], tWhole(v, units))
def tAll(v, full, units) := ite(units && !cBefore(v), ite(!cTight(v) && cName(v) != "", tNumber(v, full, units) + " ", tNumber(v, full, units)) + cName(v), tNumber(v, full, units))

func (Value).GetString
  props P10 P22
  requires precision: value.Currency == nil || (value.Currency > 0 && 0 <= value.Currency.Precision <= 8)
  requires machine: 0-9223372036854775808 <= value.Amount && value.Amount <= 9223372036854775807
  ensures text: result == tAll(value, full, units)
  // the number written is the amount: whole part and eight decimals, of which only zeros are left out (if full)
  ensures exact: mag(value) == DECN(whole(value), len(whole(value))) * 100000000 + DECN(frac(value), 8)
  ensures zeros: full ==> forall k: int {frac(value)[k]} :: KEEP(frac(value), cPrec(value), 8) <= k < 8 ==> frac(value)[k] == 48
  inv 0 0 <= n <= 1 + div(l-1, 3)
  inv 0 result == GRP(tSign(value, units), integer, c.Thousand, ite(n == 0, 0, 3*n + mod(l-1, 3) - 2))
  inv 1 c.Precision - 1 <= i <= 7
  inv 1 precision == c.Precision
  inv 1 forall k: int {digits[k]} :: i < k < 8 ==> digits[k] == 48
  inv 1 KEEP(digits, c.Precision, 8) == KEEP(digits, c.Precision, i+1)
  hint loop 0 back: assert mod(len(integer) - ite(n == 1, 0, 3*(n-1) + mod(l-1, 3) - 2), 3) == 0 || n == 1
  hint loop 0 back: use GRPstep(tSign(value, units), integer, c.Thousand, ite(n == 1, 0, 3*(n-1) + mod(l-1, 3) - 2))
  hint loop 0 back: use GRPstep(tSign(value, units), integer, c.Thousand, ite(n == 1, 0, 3*(n-1) + mod(l-1, 3) - 2) + 1)
  hint loop 0 back: use GRPstep(tSign(value, units), integer, c.Thousand, ite(n == 1, 0, 3*(n-1) + mod(l-1, 3) - 2) + 2)
  hint loop 0 back: use split(ite(n > 1, GRP(tSign(value, units), integer, c.Thousand, ite(n == 1, 0, 3*(n-1) + mod(l-1, 3) - 2)) + c.Thousand, GRP(tSign(value, units), integer, c.Thousand, ite(n == 1, 0, 3*(n-1) + mod(l-1, 3) - 2))), integer, ite(n == 1, 0, 3*(n-1) + mod(l-1, 3) - 2), ite(n == 1, 0, 3*(n-1) + mod(l-1, 3) - 2) + 1, (3*(n-1) + mod(l-1, 3) + 1))
  hint loop 0 back: use split(ite(n > 1, GRP(tSign(value, units), integer, c.Thousand, ite(n == 1, 0, 3*(n-1) + mod(l-1, 3) - 2)) + c.Thousand, GRP(tSign(value, units), integer, c.Thousand, ite(n == 1, 0, 3*(n-1) + mod(l-1, 3) - 2))) + integer[ite(n == 1, 0, 3*(n-1) + mod(l-1, 3) - 2) : ite(n == 1, 0, 3*(n-1) + mod(l-1, 3) - 2) + 1], integer, ite(n == 1, 0, 3*(n-1) + mod(l-1, 3) - 2) + 1, ite(n == 1, 0, 3*(n-1) + mod(l-1, 3) - 2) + 2, (3*(n-1) + mod(l-1, 3) + 1))
  hint return: use KEEPzeros(frac(value), cPrec(value), 8)
  hint return: assert integer == whole(value)
  hint return: assert d == mod(mag(value), 100000000)
  hint return: assert !full && c.Precision == 0 && (!units || c.PrintBefore) ==> result == tWhole(value, units)
  hint return: assert !full && c.Precision > 0 && (!units || c.PrintBefore) ==> result == tNumber(value, full, units)
  hint return: assert full && (!units || c.PrintBefore) ==> result == tNumber(value, full, units)

func (Value).String
  props P10 P22
  requires precision: value.Currency == nil || (value.Currency > 0 && 0 <= value.Currency.Precision <= 8)
  requires machine: 0-9223372036854775808 <= value.Amount && value.Amount <= 9223372036854775807
  ensures text: result == tAll(value, false, true)

func (Value).FullString
  props P10 P22
  requires precision: value.Currency == nil || (value.Currency > 0 && 0 <= value.Currency.Precision <= 8)
  requires machine: 0-9223372036854775808 <= value.Amount && value.Amount <= 9223372036854775807
  ensures text: result == tAll(value, true, true)
