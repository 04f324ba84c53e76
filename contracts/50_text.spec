package github.com/cespedes/accounting/backend/ledger


// ---- dates (P19)

def isSep(c) := c == 47 || c == 95 || c == 58 || c == 46 || c == 45
// n is s with all its separators turned into "-"
def dashed(n, s) := len(n) == len(s) && (forall i: int {n[i]} :: 0 <= i < len(n) ==> n[i] == ite(isSep(s[i]), 45, s[i]))
def dDate(n) := parseok("2006-01-02", n)
def dHour(n) := parseok("2006-01-02-15", n)
def dMin(n) := parseok("2006-01-02-15-04", n)
def dSec(n) := parseok("2006-01-02-15-04-05", n)

func GetDate
  props P19 P18
  ensures rejected: forall n: string {dDate(n)} :: dashed(n, s) ==> (result1 == nil <==> dDate(n) || dHour(n) || dMin(n) || dSec(n))
  ensures date: forall n: string {dDate(n)} :: dashed(n, s) && dDate(n) ==> inst(result) == inst(parsed("2006-01-02", n)) + 43200000000000
  ensures hour: forall n: string {dDate(n)} :: dashed(n, s) && !dDate(n) && dHour(n) ==> result == parsed("2006-01-02-15", n)
  ensures minute: forall n: string {dDate(n)} :: dashed(n, s) && !dDate(n) && !dHour(n) && dMin(n) ==> result == parsed("2006-01-02-15-04", n)
  ensures second: forall n: string {dDate(n)} :: dashed(n, s) && !dDate(n) && !dHour(n) && !dMin(n) && dSec(n) ==> result == parsed("2006-01-02-15-04-05", n)
  hint return: assert forall n: string {dDate(n)} :: dashed(n, old(s)) ==> same(n, s)
