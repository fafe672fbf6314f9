package main

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"unicode"
	"unicode/utf8"
)

// Expr is a specification expression.
type Expr struct {
	op   string // id num str call field index slice bin not neg forall exists if let
	name string
	args []*Expr
	vars []Var
	trig [][]*Expr
	text string
}

// Var is a typed specification variable.
type Var struct {
	Name string
	Type string
	Kind string // phi, val, state (templates)
}

// Clause is a labelled specification expression.
type Clause struct {
	Using []string
	Label string
	E     *Expr
	Text  string
	Props []string
}

// Contract is the specification of one function.
type Contract struct {
	Name       string
	File       string
	Params     []string
	Results    []string
	Requires   []Clause
	Ensures    []Clause
	Modifies   []*Expr
	Fresh      []string
	Invs       []Template
	Decreases  *Expr
	Uses       []string
	Props      []string
	Extern     bool
	NoInline   bool
	NoAlloc    bool
	Terminates bool
	Assumes    []Clause // listed assumptions local to the function
	Asserts    []Clause
	Lets       []Clause
	Inline     bool
	Ghosts     []Ghost
	Tables     []Table
}

// Table is an array holding, for every argument, the value an expression has
// on entry to the function.
type Table struct {
	Name string
	Vars []Var
	Type string
	E    *Expr
}

// Ghost names a value of the body in the postconditions; callers know it as
// some value of its type.
type Ghost struct {
	Name, Type string
	E          *Expr
}

// mentions reports whether a clause of the contract contains the text.
func (c *Contract) mentions(t string) bool {
	if c == nil {
		return false
	}
	for _, l := range [][]Clause{c.Requires, c.Ensures, c.Asserts} {
		for _, k := range l {
			if strings.Contains(k.Text, t) {
				return true
			}
		}
	}
	for _, k := range c.Invs {
		if strings.Contains(k.Text, t) {
			return true
		}
	}
	return false
}

// Template is a loop invariant over typed loop variables.
type Template struct {
	Using []string // the lemmas its proof needs; nil for all
	Vars  []Var
	E     *Expr
	Text  string
}

// FnDecl is a specification function, homomorphism, fold or macro.
type FnDecl struct {
	Kind   string // fn def hom fold
	Opaque bool   // unfolded only where a proof says "uses =name"
	Name   string
	Params []Var
	Ret    string
	Body   *Expr
	Init   *Expr
	Op     string

	// resolved lazily
	done  bool
	comps []string // heap components the body reads
	ps    []*Sort
	ret   *Sort
	ax    string
}

// Lemma is proved once and then available as an axiom.
type Lemma struct {
	Name      string
	Vars      []Var
	Requires  []*Expr
	Ensures   *Expr
	Trig      [][]*Expr
	Decreases *Expr
	Fixed     bool
	Checks    []*Expr
	Uses      []string
	Axiom     bool
	Text      string
	Note      string
	Props     []string
}

// Specs is everything read from the contract files.
type Specs struct {
	Contracts map[string]*Contract
	Order     []*Contract
	Fns       map[string]*FnDecl
	FnOrder   []*FnDecl
	Lemmas    map[string]*Lemma
	LemOrder  []*Lemma
	Heap      []string
	Facts     []string // facts checked by other means, listed in the evidence
}

type lexer struct {
	s    string
	pos  int
	tok  string
	kind byte // i ident, n number, s string, c char, o operator, e eof
}

func (l *lexer) next() {
	for l.pos < len(l.s) && unicode.IsSpace(rune(l.s[l.pos])) {
		l.pos++
	}
	if l.pos >= len(l.s) {
		l.tok, l.kind = "", 'e'
		return
	}
	st := l.pos
	c := l.s[l.pos]
	switch {
	case c == '_' || unicode.IsLetter(rune(c)):
		for l.pos < len(l.s) && (l.s[l.pos] == '_' || l.s[l.pos] == '#' || unicode.IsLetter(rune(l.s[l.pos])) || unicode.IsDigit(rune(l.s[l.pos]))) {
			l.pos++
		}
		l.kind = 'i'
	case unicode.IsDigit(rune(c)):
		for l.pos < len(l.s) && (unicode.IsDigit(rune(l.s[l.pos])) || (l.s[l.pos] == '.' && l.pos+1 < len(l.s) && unicode.IsDigit(rune(l.s[l.pos+1])))) {
			l.pos++
		}
		l.kind = 'n'
	case c == '"':
		l.pos++
		for l.s[l.pos] != '"' {
			if l.s[l.pos] == '\\' {
				l.pos++
			}
			l.pos++
		}
		l.pos++
		l.kind = 's'
	case c == '\'':
		l.pos++
		for l.s[l.pos] != '\'' {
			l.pos++
		}
		l.pos++
		l.kind = 'c'
	default:
		l.kind = 'o'
		for _, op := range []string{"<==>", "==>", "::", "==", "!=", "<=", ">=", "&&", "||", "++"} {
			if strings.HasPrefix(l.s[l.pos:], op) {
				l.pos += len(op)
				l.tok = op
				return
			}
		}
		_, n := utf8.DecodeRuneInString(l.s[l.pos:])
		l.pos += n
	}
	l.tok = l.s[st:l.pos]
}

type parser struct {
	lexer
}

func (p *parser) fail(msg string) {
	panic(fmt.Sprintf("spec: %s at %q in %q", msg, p.tok, p.s))
}

func (p *parser) expect(t string) {
	if p.tok != t {
		p.fail("expected " + t)
	}
	p.next()
}

func (p *parser) accept(t string) bool {
	if p.tok == t && p.kind != 's' {
		p.next()
		return true
	}
	return false
}

func parseExprText(s string) *Expr {
	p := &parser{lexer{s: s}}
	p.next()
	e := p.expr()
	if p.kind != 'e' {
		p.fail("trailing input")
	}
	e.text = s
	return e
}

func (p *parser) typ() string {
	// textual type up to a delimiter
	var b strings.Builder
	for {
		switch {
		case p.tok == "*":
			b.WriteString("*")
			p.next()
			continue
		case p.tok == "[":
			p.next()
			if p.tok == "]" {
				b.WriteString("[]")
				p.next()
				continue
			}
			b.WriteString("[" + p.tok)
			p.next()
			p.expect("]")
			b.WriteString("]")
			continue
		case p.tok == "map":
			p.next()
			p.expect("[")
			k := p.typ()
			p.expect("]")
			b.WriteString("map[" + k + "]")
			continue
		case p.tok == "seq":
			p.next()
			p.expect("[")
			k := p.typ()
			p.expect("]")
			b.WriteString("seq[" + k + "]")
			return b.String()
		case p.tok == "arr":
			p.next()
			p.expect("[")
			k := p.typ()
			p.expect(",")
			v := p.typ()
			p.expect("]")
			b.WriteString("arr[" + k + "," + v + "]")
			return b.String()
		}
		break
	}
	if p.kind != 'i' {
		p.fail("type expected")
	}
	b.WriteString(p.tok)
	p.next()
	if p.tok == "." {
		p.next()
		b.WriteString("." + p.tok)
		p.next()
	}
	return b.String()
}

func (p *parser) vars() []Var {
	var vs []Var
	for {
		kind := ""
		if p.tok == "phi" || p.tok == "val" || p.tok == "state" {
			kind = p.tok
			p.next()
		}
		n := p.tok
		p.next()
		p.expect(":")
		vs = append(vs, Var{n, p.typ(), kind})
		if !p.accept(",") {
			return vs
		}
	}
}

func (p *parser) expr() *Expr {
	if p.tok == "forall" || p.tok == "exists" {
		e := &Expr{op: p.tok}
		p.next()
		e.vars = p.vars()
		for p.accept("{") {
			var g []*Expr
			for {
				g = append(g, p.expr())
				if !p.accept(",") {
					break
				}
			}
			p.expect("}")
			e.trig = append(e.trig, g)
		}
		p.expect("::")
		e.args = []*Expr{p.expr()}
		return e
	}
	if p.tok == "if" {
		p.next()
		c := p.expr()
		p.expect("then")
		a := p.expr()
		p.expect("else")
		b := p.expr()
		return &Expr{op: "if", args: []*Expr{c, a, b}}
	}
	if p.tok == "let" {
		p.next()
		n := p.tok
		p.next()
		p.expect("=")
		a := p.expr()
		p.expect("in")
		b := p.expr()
		return &Expr{op: "let", name: n, args: []*Expr{a, b}}
	}
	return p.iff()
}

func (p *parser) iff() *Expr {
	l := p.impl()
	for p.tok == "<==>" {
		p.next()
		l = &Expr{op: "bin", name: "<==>", args: []*Expr{l, p.impl()}}
	}
	return l
}

func (p *parser) impl() *Expr {
	l := p.or()
	if p.tok == "==>" {
		p.next()
		var r *Expr
		if p.tok == "forall" || p.tok == "exists" || p.tok == "if" || p.tok == "let" {
			r = p.expr()
		} else {
			r = p.impl()
		}
		return &Expr{op: "bin", name: "==>", args: []*Expr{l, r}}
	}
	return l
}

func (p *parser) or() *Expr {
	l := p.and()
	for p.tok == "||" {
		p.next()
		l = &Expr{op: "bin", name: "||", args: []*Expr{l, p.and()}}
	}
	return l
}

func (p *parser) and() *Expr {
	l := p.cmp()
	for p.tok == "&&" {
		p.next()
		var r *Expr
		if p.tok == "forall" || p.tok == "exists" {
			r = p.expr()
		} else {
			r = p.cmp()
		}
		l = &Expr{op: "bin", name: "&&", args: []*Expr{l, r}}
	}
	return l
}

func isCmp(t string) bool {
	switch t {
	case "==", "!=", "<", "<=", ">", ">=":
		return true
	}
	return false
}

func (p *parser) cmp() *Expr {
	l := p.sum()
	var out *Expr
	for p.kind == 'o' && isCmp(p.tok) {
		op := p.tok
		p.next()
		r := p.sum()
		c := &Expr{op: "bin", name: op, args: []*Expr{l, r}}
		if out == nil {
			out = c
		} else {
			out = &Expr{op: "bin", name: "&&", args: []*Expr{out, c}}
		}
		l = r
	}
	if out != nil {
		return out
	}
	return l
}

func (p *parser) sum() *Expr {
	l := p.prod()
	for p.kind == 'o' && (p.tok == "+" || p.tok == "-" || p.tok == "++") {
		op := p.tok
		p.next()
		l = &Expr{op: "bin", name: op, args: []*Expr{l, p.prod()}}
	}
	return l
}

func (p *parser) prod() *Expr {
	l := p.unary()
	for p.kind == 'o' && (p.tok == "*" || p.tok == "/" || p.tok == "%") {
		op := p.tok
		p.next()
		l = &Expr{op: "bin", name: op, args: []*Expr{l, p.unary()}}
	}
	return l
}

func (p *parser) unary() *Expr {
	if p.kind == 'o' && p.tok == "!" {
		p.next()
		return &Expr{op: "not", args: []*Expr{p.unary()}}
	}
	if p.kind == 'o' && p.tok == "-" {
		p.next()
		return &Expr{op: "neg", args: []*Expr{p.unary()}}
	}
	return p.postfix()
}

func (p *parser) postfix() *Expr {
	e := p.primary()
	for p.kind == 'o' {
		switch p.tok {
		case ".":
			p.next()
			e = &Expr{op: "field", name: p.tok, args: []*Expr{e}}
			p.next()
		case "[":
			p.next()
			if p.accept(":") {
				j := p.expr()
				p.expect("]")
				e = &Expr{op: "slice", args: []*Expr{e, nil, j}}
				continue
			}
			i := p.expr()
			if p.accept(":") {
				var j *Expr
				if p.tok != "]" {
					j = p.expr()
				}
				p.expect("]")
				e = &Expr{op: "slice", args: []*Expr{e, i, j}}
				continue
			}
			p.expect("]")
			e = &Expr{op: "index", args: []*Expr{e, i}}
		case "(":
			if e.op != "id" {
				p.fail("call")
			}
			p.next()
			c := &Expr{op: "call", name: e.name}
			for p.tok != ")" {
				c.args = append(c.args, p.expr())
				if !p.accept(",") {
					break
				}
			}
			p.expect(")")
			e = c
		default:
			return e
		}
	}
	return e
}

func (p *parser) primary() *Expr {
	t := p.tok
	switch p.kind {
	case 'i':
		p.next()
		return &Expr{op: "id", name: t}
	case 'n':
		p.next()
		return &Expr{op: "num", name: t}
	case 's':
		p.next()
		return &Expr{op: "str", name: t}
	case 'c':
		p.next()
		r, _ := utf8.DecodeRuneInString(t[1:])
		if t[1] == '\\' {
			switch t[2] {
			case 'n':
				r = '\n'
			case '\\':
				r = '\\'
			}
		}
		return &Expr{op: "num", name: fmt.Sprint(int(r))}
	}
	if p.accept("(") {
		e := p.expr()
		p.expect(")")
		return e
	}
	p.fail("expression expected")
	return nil
}

var keywords = map[string]bool{"func": true, "extern": true, "requires": true, "ensures": true, "modifies": true,
	"fresh": true, "inv": true, "decreases": true, "uses": true, "prop": true, "def": true, "fn": true, "hom": true, "fold": true,
	"lemma": true, "axiom": true, "heap": true, "noinline": true, "inline": true, "noalloc": true, "terminates": true, "opaque": true, "assume": true, "check": true, "note": true, "trigger": true, "fact": true, "let": true, "ghost": true, "table": true}

// ReadSpecs parses all *.spec files of a directory.
func ReadSpecs(dir string) *Specs {
	sp := &Specs{Contracts: map[string]*Contract{}, Fns: map[string]*FnDecl{}, Lemmas: map[string]*Lemma{}}
	files, _ := filepath.Glob(filepath.Join(dir, "*.spec"))
	sort.Strings(files)
	for _, f := range files {
		data, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		sp.parse(filepath.Base(f), string(data))
	}
	return sp
}

func (sp *Specs) parse(file, src string) {
	type clause struct{ kw, text string }
	var cs []clause
	for _, ln := range strings.Split(src, "\n") {
		if i := strings.Index(ln, "//"); i >= 0 {
			ln = ln[:i]
		}
		t := strings.TrimSpace(ln)
		if t == "" {
			continue
		}
		w := t
		if i := strings.IndexAny(t, " \t"); i >= 0 {
			w = t[:i]
		}
		if keywords[w] {
			cs = append(cs, clause{w, strings.TrimSpace(t[len(w):])})
		} else {
			if len(cs) == 0 {
				panic("spec: text before the first clause in " + file)
			}
			cs[len(cs)-1].text += " " + t
		}
	}
	var cur *Contract
	var lem *Lemma
	for _, c := range cs {
		switch c.kw {
		case "func", "extern":
			lem = nil
			cur = &Contract{File: file, Extern: c.kw == "extern"}
			t := c.text
			// NAME(params) (results)
			i := strings.Index(t, "(")
			if strings.HasPrefix(t, "(") { // (recv).name(
				j := strings.Index(t, ").")
				i = j + strings.Index(t[j:], "(")
			}
			cur.Name = strings.TrimSpace(t[:i])
			rest := t[i+1:]
			j := strings.Index(rest, ")")
			cur.Params = splitNames(rest[:j])
			rest = strings.TrimSpace(rest[j+1:])
			if strings.HasPrefix(rest, "(") {
				cur.Results = splitNames(rest[1:strings.Index(rest, ")")])
			}
			if sp.Contracts[cur.Name] != nil {
				panic("duplicate contract " + cur.Name)
			}
			sp.Contracts[cur.Name] = cur
			sp.Order = append(sp.Order, cur)
		case "requires", "ensures", "assume", "check", "let":
			label, text := "", c.text
			if strings.HasPrefix(text, "@") {
				k := strings.IndexAny(text, " ")
				label, text = text[1:k], strings.TrimSpace(text[k:])
			}
			if lem != nil {
				e := parseExprText(text)
				if c.kw == "requires" {
					lem.Requires = append(lem.Requires, e)
				} else if c.kw == "check" {
					lem.Checks = append(lem.Checks, e)
				} else if lem.Ensures == nil {
					lem.Ensures = e
				} else {
					lem.Ensures = &Expr{op: "bin", name: "&&", args: []*Expr{lem.Ensures, e}}
				}
				lem.Text += c.kw + " " + text + "; "
				continue
			}
			if c.kw == "let" {
				k := strings.Index(text, "=")
				cur.Lets = append(cur.Lets, Clause{nil, strings.TrimSpace(text[:k]), parseExprText(text[k+1:]), text, nil})
				continue
			}
			var props []string
			if strings.Contains(label, ":") {
				k := strings.Index(label, ":")
				props = strings.Split(label[k+1:], ",")
				label = label[:k]
			}
			using, text := cutUsing(text)
			cl := Clause{using, label, parseExprText(text), text, props}
			switch c.kw {
			case "requires":
				cur.Requires = append(cur.Requires, cl)
			case "ensures":
				cur.Ensures = append(cur.Ensures, cl)
			case "assume":
				cur.Assumes = append(cur.Assumes, cl)
			case "check":
				cur.Asserts = append(cur.Asserts, cl)
			}
		case "modifies":
			p := &parser{lexer{s: c.text}}
			p.next()
			for {
				cur.Modifies = append(cur.Modifies, p.expr())
				if !p.accept(",") {
					break
				}
			}
		case "ghost":
			p := &parser{lexer{s: c.text}}
			p.next()
			g := Ghost{Name: p.tok}
			p.next()
			p.expect(":")
			g.Type = p.typ()
			p.expect("=")
			g.E = p.expr()
			cur.Ghosts = append(cur.Ghosts, g)
		case "table":
			p := &parser{lexer{s: c.text}}
			p.next()
			g := Table{Name: p.tok}
			p.next()
			p.expect("(")
			g.Vars = p.vars()
			p.expect(")")
			p.expect(":")
			g.Type = p.typ()
			for i := len(g.Vars) - 1; i >= 0; i-- {
				g.Type = "arr[" + g.Vars[i].Type + "," + g.Type + "]"
			}
			p.expect("=")
			g.E = p.expr()
			cur.Tables = append(cur.Tables, g)
		case "fresh":
			cur.Fresh = append(cur.Fresh, splitNames(c.text)...)
		case "inv":
			using, text := cutUsing(c.text)
			p := &parser{lexer{s: text}}
			p.next()
			t := Template{Text: text, Using: using}
			if p.tok == "phi" || p.tok == "val" || p.tok == "state" {
				t.Vars = p.vars()
				p.expect("::")
			}
			t.E = p.expr()
			if p.kind != 'e' {
				p.fail("trailing input")
			}
			cur.Invs = append(cur.Invs, t)
		case "decreases":
			e := parseExprText(c.text)
			if lem != nil {
				lem.Decreases = e
			} else {
				cur.Decreases = e
			}
		case "uses":
			if lem != nil {
				lem.Uses = append(lem.Uses, splitNames(c.text)...)
			} else {
				cur.Uses = append(cur.Uses, splitNames(c.text)...)
			}
		case "prop":
			if lem != nil {
				lem.Props = append(lem.Props, splitNames(c.text)...)
			} else {
				cur.Props = append(cur.Props, splitNames(c.text)...)
			}
		case "noinline":
			cur.NoInline = true
		case "inline":
			cur.Inline = true
		case "terminates":
			cur.Terminates = true
		case "noalloc":
			cur.NoAlloc = true
		case "note":
			if lem != nil {
				lem.Note = c.text
			}
		case "trigger":
			p := &parser{lexer{s: c.text}}
			p.next()
			var g []*Expr
			for {
				g = append(g, p.expr())
				if !p.accept(",") {
					break
				}
			}
			lem.Trig = append(lem.Trig, g)
		case "heap":
			for _, t := range strings.Split(c.text, ";") {
				if t = strings.TrimSpace(t); t != "" {
					sp.Heap = append(sp.Heap, t)
				}
			}
		case "fact":
			sp.Facts = append(sp.Facts, c.text)
		case "lemma", "axiom":
			cur = nil
			lem = &Lemma{Axiom: c.kw == "axiom"}
			i := strings.Index(c.text, "(")
			lem.Name = strings.TrimSpace(c.text[:i])
			p := &parser{lexer{s: c.text[i+1:]}}
			p.next()
			if p.tok != ")" {
				lem.Vars = p.vars()
			}
			if sp.Lemmas[lem.Name] != nil {
				panic("duplicate lemma " + lem.Name)
			}
			sp.Lemmas[lem.Name] = lem
			sp.LemOrder = append(sp.LemOrder, lem)
		case "fn", "def", "hom", "fold", "opaque":
			cur, lem = nil, nil
			d := &FnDecl{Kind: c.kw}
			if c.kw == "opaque" {
				d.Kind, d.Opaque = "fn", true
			}
			p := &parser{lexer{s: c.text}}
			p.next()
			d.Name = p.tok
			p.next()
			p.expect("(")
			if p.tok != ")" {
				d.Params = p.vars()
			}
			p.expect(")")
			if p.tok != "=" && p.kind != 'e' {
				d.Ret = p.typ()
			}
			if c.kw == "hom" {
				if p.tok == "+" || p.tok == "and" || p.tok == "or" {
					d.Op = p.tok
					p.next()
				} else {
					d.Op = "cat"
				}
			}
			if p.accept("=") {
				d.Body = p.expr()
				if c.kw == "fold" {
					p.expect(";")
					d.Init = d.Body
					d.Body = p.expr()
				}
			}
			if p.kind != 'e' {
				p.fail("trailing input")
			}
			if sp.Fns[d.Name] != nil {
				panic("duplicate fn " + d.Name)
			}
			sp.Fns[d.Name] = d
			sp.FnOrder = append(sp.FnOrder, d)
		}
	}
}

// cutUsing splits off a leading "using a, b:".
func cutUsing(s string) ([]string, string) {
	if !strings.HasPrefix(s, "using ") {
		return nil, s
	}
	k := strings.Index(s, ":")
	if k < 0 {
		panic("using without colon: " + s)
	}
	r := splitNames(s[6:k])
	if r == nil {
		r = []string{"none"}
	}
	return r, strings.TrimSpace(s[k+1:])
}

func splitNames(s string) []string {
	var r []string
	for _, x := range strings.FieldsFunc(s, func(r rune) bool { return r == ',' || r == ' ' }) {
		r = append(r, x)
	}
	return r
}

// resolveType turns a specification type into a sort.
func (v *Verifier) resolveType(t string) *Sort {
	t = strings.TrimSpace(t)
	if strings.HasPrefix(t, "seq[") {
		s := seqOf(v.resolveType(t[4 : len(t)-1]))
		v.ss.note(s)
		return s
	}
	if strings.HasPrefix(t, "arr[") {
		in := t[4 : len(t)-1]
		d := 0
		for i := range in {
			switch in[i] {
			case '[':
				d++
			case ']':
				d--
			case ',':
				if d == 0 {
					s := &Sort{K: 'A', Key: v.resolveType(in[:i]), Elem: v.resolveType(in[i+1:])}
					v.ss.note(s)
					return s
				}
			}
		}
	}
	switch t {
	case "trie":
		return sTrie
	case "ref":
		return sRef
	case "real":
		return sReal
	}
	g := v.goType(t)
	return v.ss.of(g)
}

func (v *Verifier) goType(t string) types.Type {
	switch {
	case strings.HasPrefix(t, "[]"):
		return types.NewSlice(v.goType(t[2:]))
	case strings.HasPrefix(t, "*"):
		return types.NewPointer(v.goType(t[1:]))
	case strings.HasPrefix(t, "map["):
		d := 0
		for i := range t {
			switch t[i] {
			case '[':
				d++
			case ']':
				d--
				if d == 0 {
					return types.NewMap(v.goType(t[4:i]), v.goType(t[i+1:]))
				}
			}
		}
	case strings.HasPrefix(t, "["):
		i := strings.Index(t, "]")
		var n int64
		fmt.Sscanf(t[1:i], "%d", &n)
		return types.NewArray(v.goType(t[i+1:]), n)
	}
	if t == "error" {
		return types.Universe.Lookup("error").Type()
	}
	if i := strings.Index(t, "."); i >= 0 {
		for _, p := range v.allPkgs {
			if p.Name() == t[:i] {
				if o := p.Scope().Lookup(t[i+1:]); o != nil {
					if tn, ok := o.(*types.TypeName); ok {
						return tn.Type()
					}
				}
			}
		}
		panic("spec: unknown type " + t)
	}
	if o := types.Universe.Lookup(t); o != nil {
		return o.Type()
	}
	panic("spec: unknown type " + t)
}
