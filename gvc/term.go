package main

import (
	"fmt"
	"strings"
)

func and(ts ...string) string {
	var o []string
	for _, t := range ts {
		if t == "true" || t == "" {
			continue
		}
		if t == "false" {
			return "false"
		}
		o = append(o, t)
	}
	switch len(o) {
	case 0:
		return "true"
	case 1:
		return o[0]
	}
	return "(and " + strings.Join(o, " ") + ")"
}

func or(ts ...string) string {
	var o []string
	for _, t := range ts {
		if t == "false" || t == "" {
			continue
		}
		if t == "true" {
			return "true"
		}
		o = append(o, t)
	}
	switch len(o) {
	case 0:
		return "false"
	case 1:
		return o[0]
	}
	return "(or " + strings.Join(o, " ") + ")"
}

func not(t string) string {
	switch t {
	case "true":
		return "false"
	case "false":
		return "true"
	}
	if strings.HasPrefix(t, "(not ") {
		return t[5 : len(t)-1]
	}
	return "(not " + t + ")"
}

func implies(a, b string) string {
	if a == "true" {
		return b
	}
	if b == "true" || a == "false" {
		return "true"
	}
	return "(=> " + a + " " + b + ")"
}

func eq(a, b string) string {
	if a == b {
		return "true"
	}
	return "(= " + a + " " + b + ")"
}

func ite(c, a, b string) string {
	if c == "true" || a == b {
		return a
	}
	if c == "false" {
		return b
	}
	return "(ite " + c + " " + a + " " + b + ")"
}

func app(f string, args ...string) string {
	if len(args) == 0 {
		return f
	}
	return "(" + f + " " + strings.Join(args, " ") + ")"
}

func num(n int64) string {
	if n < 0 {
		return fmt.Sprintf("(- %d)", -n)
	}
	return fmt.Sprint(n)
}

// isNum reports whether t is an integer literal.
func isNum(t string) (int64, bool) {
	var n int64
	if strings.HasPrefix(t, "(- ") && strings.HasSuffix(t, ")") {
		if _, err := fmt.Sscanf(t[3:len(t)-1], "%d", &n); err == nil && !strings.ContainsAny(t[3:len(t)-1], " (") {
			return -n, true
		}
		return 0, false
	}
	if t == "" || t[0] < '0' || t[0] > '9' {
		return 0, false
	}
	for i := 0; i < len(t); i++ {
		if t[i] < '0' || t[i] > '9' {
			return 0, false
		}
	}
	fmt.Sscanf(t, "%d", &n)
	return n, true
}

func add(a, b string) string {
	x, ok1 := isNum(a)
	y, ok2 := isNum(b)
	switch {
	case ok1 && ok2:
		return num(x + y)
	case ok1 && x == 0:
		return b
	case ok2 && y == 0:
		return a
	}
	return "(+ " + a + " " + b + ")"
}

func sub(a, b string) string {
	x, ok1 := isNum(a)
	y, ok2 := isNum(b)
	switch {
	case ok1 && ok2:
		return num(x - y)
	case ok2 && y == 0:
		return a
	case a == b:
		return "0"
	}
	return "(- " + a + " " + b + ")"
}

// sequence operations

func slen(s *Sort, t string) string {
	e := "empty_" + s.Elem.id()
	if t == e {
		return "0"
	}
	if strings.HasPrefix(t, "(unit_"+s.Elem.id()+" ") {
		return "1"
	}
	return app("len_"+s.Elem.id(), t)
}
func sat(s *Sort, t, i string) string { return app("at_"+s.Elem.id(), t, i) }
func scat(s *Sort, a, b string) string {
	e := "empty_" + s.Elem.id()
	if a == e {
		return b
	}
	if b == e {
		return a
	}
	return app("cat_"+s.Elem.id(), a, b)
}
func ssub(s *Sort, a, i, j string) string {
	if i == j {
		return "empty_" + s.Elem.id()
	}
	if i == "0" && j == slen(s, a) {
		return a
	}
	return app("sub_"+s.Elem.id(), a, i, j)
}
func sunit(s *Sort, x string) string { return app("unit_"+s.Elem.id(), x) }
func supd(s *Sort, a, i, x string) string {
	return app("upd_"+s.Elem.id(), a, i, x)
}
func sempty(s *Sort) string { return "empty_" + s.Elem.id() }

// sexpr splitting, used for goal decomposition

type sx struct {
	atom string
	list []*sx
}

func parseSx(s string) *sx {
	pos := 0
	var rec func() *sx
	rec = func() *sx {
		for pos < len(s) && (s[pos] == ' ' || s[pos] == '\n') {
			pos++
		}
		if s[pos] == '(' {
			pos++
			n := &sx{list: []*sx{}}
			for {
				for pos < len(s) && (s[pos] == ' ' || s[pos] == '\n') {
					pos++
				}
				if s[pos] == ')' {
					pos++
					return n
				}
				n.list = append(n.list, rec())
			}
		}
		st := pos
		if s[pos] == '|' {
			pos++
			for s[pos] != '|' {
				pos++
			}
			pos++
			return &sx{atom: s[st:pos]}
		}
		for pos < len(s) && s[pos] != ' ' && s[pos] != ')' && s[pos] != '(' && s[pos] != '\n' {
			pos++
		}
		return &sx{atom: s[st:pos]}
	}
	return rec()
}

func (n *sx) String() string {
	if n.list == nil {
		return n.atom
	}
	var b strings.Builder
	b.WriteByte('(')
	for i, c := range n.list {
		if i > 0 {
			b.WriteByte(' ')
		}
		b.WriteString(c.String())
	}
	b.WriteByte(')')
	return b.String()
}
