package main

import (
	"fmt"
	"strings"
)

// Terms are SMT-LIB s-expressions kept as strings.

func app(f string, args ...string) string {
	return "(" + f + " " + strings.Join(args, " ") + ")"
}

func tAnd(xs ...string) string {
	var out []string
	for _, x := range xs {
		if x == "true" || x == "" {
			continue
		}
		if x == "false" {
			return "false"
		}
		out = append(out, x)
	}
	switch len(out) {
	case 0:
		return "true"
	case 1:
		return out[0]
	}
	return app("and", out...)
}

func tOr(xs ...string) string {
	var out []string
	for _, x := range xs {
		if x == "false" || x == "" {
			continue
		}
		if x == "true" {
			return "true"
		}
		out = append(out, x)
	}
	switch len(out) {
	case 0:
		return "false"
	case 1:
		return out[0]
	}
	return app("or", out...)
}

func tNot(x string) string {
	switch x {
	case "true":
		return "false"
	case "false":
		return "true"
	}
	if strings.HasPrefix(x, "(not ") {
		return x[5 : len(x)-1]
	}
	return app("not", x)
}

func tImp(a, b string) string {
	if a == "true" {
		return b
	}
	if a == "false" || b == "true" {
		return "true"
	}
	return app("=>", a, b)
}

func tEq(a, b string) string {
	if a == b {
		return "true"
	}
	return app("=", a, b)
}

func tIte(c, a, b string) string {
	if c == "true" || a == b {
		return a
	}
	if c == "false" {
		return b
	}
	return app("ite", c, a, b)
}

func tInt(n int64) string {
	if n < 0 {
		if n == -9223372036854775808 {
			return "(- 9223372036854775808)"
		}
		return fmt.Sprintf("(- %d)", -n)
	}
	return fmt.Sprint(n)
}

func isNum(s string) bool {
	if s == "" {
		return false
	}
	for _, c := range s {
		if c < '0' || c > '9' {
			return false
		}
	}
	return true
}

func tAdd(a, b string) string {
	if a == "0" {
		return b
	}
	if b == "0" {
		return a
	}
	return app("+", a, b)
}

func tSub(a, b string) string {
	if b == "0" {
		return a
	}
	return app("-", a, b)
}

func tSel(a, i string) string    { return app("select", a, i) }
func tSto(a, i, v string) string { return app("store", a, i, v) }

func sArr(s string) string { return sliceSel(s, 0, "sarr") }
func sOff(s string) string { return sliceSel(s, 1, "soff") }
func sLen(s string) string { return sliceSel(s, 2, "slen") }
func sCap(s string) string { return sliceSel(s, 3, "scap") }

func sliceSel(s string, i int, name string) string {
	if strings.HasPrefix(s, "(mkS ") {
		parts := splitSexp(s)
		if len(parts) == 5 {
			return parts[i+1]
		}
	}
	return app(name, s)
}

func mkS(arr, off, l, c string) string { return app("mkS", arr, off, l, c) }

// splitSexp splits "(f a b)" in its top-level parts.
func splitSexp(s string) []string {
	s = s[1 : len(s)-1]
	var out []string
	depth := 0
	start := -1
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(':
			if depth == 0 && start < 0 {
				start = i
			}
			depth++
		case ')':
			depth--
		case ' ', '\n':
			if depth == 0 && start >= 0 {
				out = append(out, s[start:i])
				start = -1
			}
			continue
		case '|':
			if start < 0 {
				start = i
			}
			for i++; i < len(s) && s[i] != '|'; i++ {
			}
		default:
			if start < 0 {
				start = i
			}
		}
	}
	if start >= 0 {
		out = append(out, s[start:])
	}
	return out
}

// symbolsIn calls f with every symbol of an s-expression.
func symbolsIn(s string, f func(string)) {
	i := 0
	for i < len(s) {
		c := s[i]
		switch {
		case c == '(' || c == ')' || c == ' ' || c == '\n' || c == '\t':
			i++
		case c == '|':
			j := i + 1
			for j < len(s) && s[j] != '|' {
				j++
			}
			f(s[i : j+1])
			i = j + 1
		default:
			j := i
			for j < len(s) && s[j] != '(' && s[j] != ')' && s[j] != ' ' && s[j] != '\n' && s[j] != '\t' {
				j++
			}
			f(s[i:j])
			i = j
		}
	}
}

func isLit(s string) bool {
	return isNum(s) || (strings.HasPrefix(s, "(- ") && isNum(strings.TrimSuffix(s[3:], ")")))
}

// tMul is a product: of variables, it is a function symbol with a definition.
func tMul(a, b string) string {
	if isLit(a) || isLit(b) {
		return app("*", a, b)
	}
	return app("imul", a, b)
}
