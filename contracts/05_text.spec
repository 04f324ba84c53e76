package github.com/cespedes/accounting

// ---- strings

// strings with the same bytes are the same string
fun same(a: string, b: string): bool
axiom same := forall a: string, b: string {same(a,b)} :: (same(a,b) <==> a == b) && (len(a) == len(b) && (forall i: int {a[i]} {b[i]} :: 0 <= i < len(a) ==> a[i] == b[i]) ==> same(a,b))

lemma split(x: string, s: string, a: int, m: int, b: int)
  requires 0 <= a <= m && m <= b && b <= len(s)
  ensures same(x + s[a:b], (x + s[a:m]) + s[m:b])

def digit(c) := 48 <= c && c <= 57
// number written by the first n digits of a text
fun DECN(s: string, n: int): int
axiom DECN := forall s: string, n: int {DECN(s,n)} :: n <= 0 ==> DECN(s,n) == 0
axiom DECN step := forall s: string, n: int, m: int {DECN(s,n), s[m]} :: n == m+1 && m >= 0 ==> DECN(s,n) == 10*DECN(s,m) + (s[m] - 48)

// what fmt.Sprintf gives for %d and %08d
fun itoa(n: int): string
axiom itoa := forall n: int {itoa(n)} :: n >= 0 ==> len(itoa(n)) >= 1 && DECN(itoa(n), len(itoa(n))) == n && (forall k: int {itoa(n)[k]} :: 0 <= k < len(itoa(n)) ==> digit(itoa(n)[k])) && (len(itoa(n)) > 1 ==> itoa(n)[0] != 48)
fun ipad8(n: int): string
axiom ipad8 := forall n: int {ipad8(n)} :: 0 <= n < 100000000 ==> len(ipad8(n)) == 8 && DECN(ipad8(n), 8) == n && (forall k: int {ipad8(n)[k]} :: 0 <= k < 8 ==> digit(ipad8(n)[k]))
