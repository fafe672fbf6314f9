package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strconv"
	"strings"
)

// TV is a typed term.
type TV struct {
	t string
	s *Sort
}

// State maps heap components and cells to their current terms.
type State struct {
	m map[string]string
}

func (s *State) clone() *State {
	m := make(map[string]string, len(s.m))
	for k, v := range s.m {
		m[k] = v
	}
	return &State{m}
}

// Env is where specification expressions are evaluated.
type Env struct {
	v    *Verifier
	vars map[string]TV
	st   *State
	old  *State
	get  func(st *State, key string, sort *Sort) string
	bnd  int
	rets map[string]map[token.Pos]*Val
	tv   func(*Val) TV
}

// try evaluates an expression that may refer to a call that was not made.
func (e *Env) try(x *Expr) (tv TV, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			tv, ok = TV{}, false
		}
	}()
	return e.eval(x), true
}

func (x *Expr) mentions(n string) bool {
	if x == nil {
		return false
	}
	if x.name == n {
		return true
	}
	for _, a := range x.args {
		if a.mentions(n) {
			return true
		}
	}
	return false
}

func (e *Env) with(n string, tv TV) *Env {
	m := make(map[string]TV, len(e.vars)+1)
	for k, v := range e.vars {
		m[k] = v
	}
	m[n] = tv
	c := *e
	c.vars = m
	return &c
}

func (e *Env) fail(f string, a ...any) {
	panic(specErr(fmt.Sprintf(f, a...)))
}

type specErr string

func (e *Env) comp(key string, s *Sort) string { return e.get(e.st, key, s) }

func arrOf(s *Sort) *Sort { return &Sort{K: 'A', Key: sInt, Elem: s} }

// fieldKey names the heap component of a struct field.
func fieldKey(st *Sort, f string) string { return "F_" + st.Name + "_" + f }

func elemKey(s *Sort) string {
	n := s.SMT()
	if s.Go != nil {
		n = mangle(tstr(s.Go))
	}
	return "E_" + n
}

func mapKey(s *Sort) string {
	return s.Key.id() + "_" + s.Elem.id()
}

func (v *Verifier) subAddr(st *Sort, f, p string) string {
	n := "sa_" + st.Name + "_" + f
	if !v.subs[n] {
		v.subs[n] = true
		v.subOrder = append(v.subOrder, n)
	}
	return app(n, p)
}

// loadStruct reads a whole struct at address p.
func (e *Env) loadStruct(s *Sort, p string) string {
	if len(s.Fields) == 0 {
		return "mk_" + s.Name
	}
	args := []string{}
	for _, f := range s.Fields {
		args = append(args, e.loadField(s, f.Name, p).t)
	}
	return app("mk_"+s.Name, args...)
}

func (e *Env) loadField(s *Sort, f, p string) TV {
	_, fd := s.field(f)
	if fd == nil {
		e.fail("no field %s in %s", f, s.Name)
	}
	if fd.S.K == 'S' {
		return TV{e.loadStruct(fd.S, e.v.subAddr(s, f, p)), fd.S}
	}
	return TV{app("select", e.comp(fieldKey(s, f), arrOf(fd.S)), p), fd.S}
}

func (e *Env) eval(x *Expr) TV {
	switch x.op {
	case "id":
		if tv, ok := e.vars[x.name]; ok {
			return tv
		}
		switch x.name {
		case "true", "false":
			return TV{x.name, sBool}
		case "nil":
			return TV{"0", sNil}
		case "empty":
			return TV{"empty_Int", sSeqInt}
		case "alloc":
			return TV{e.comp("A", sInt), sInt}
		}
		if d := e.v.sp.Fns[x.name]; d != nil && len(d.Params) == 0 {
			return e.call(x)
		}
		e.fail("unknown name %s", x.name)
	case "num":
		if strings.Contains(x.name, ".") {
			return TV{x.name, sReal}
		}
		return TV{x.name, sInt}
	case "str":
		s, err := strconv.Unquote(x.name)
		if err != nil {
			e.fail("bad string %s", x.name)
		}
		return TV{e.v.strConst(s), sSeqInt}
	case "neg":
		a := e.eval(x.args[0])
		if n, ok := isNum(a.t); ok {
			return TV{num(-n), a.s}
		}
		return TV{app("-", a.t), a.s}
	case "not":
		a := e.eval(x.args[0])
		return TV{not(a.t), sBool}
	case "if":
		c, a, b := e.eval(x.args[0]), e.eval(x.args[1]), e.eval(x.args[2])
		if a.s.K == 'N' {
			a = e.v.typedNil(b.s)
		} else if b.s.K == 'N' {
			b = e.v.typedNil(a.s)
		}
		if !a.s.same(b.s) {
			e.fail("if branches differ: %s %s", a.s.SMT(), b.s.SMT())
		}
		return TV{ite(c.t, a.t, b.t), a.s}
	case "let":
		a := e.eval(x.args[0])
		return e.with(x.name, a).eval(x.args[1])
	case "forall", "exists":
		ne := e
		var bs []string
		for _, w := range x.vars {
			s := e.v.resolveType(w.Type)
			e.v.nbound++
			n := fmt.Sprintf("%s_b%d", w.Name, e.v.nbound)
			bs = append(bs, "("+n+" "+s.SMT()+")")
			ne = ne.with(w.Name, TV{n, s})
		}
		body := ne.eval(x.args[0])
		if body.s.K != 'B' {
			e.fail("quantified body is not boolean")
		}
		t := body.t
		var pats string
		for _, g := range x.trig {
			var ps []string
			for _, p := range g {
				ps = append(ps, ne.eval(p).t)
			}
			pats += " :pattern (" + strings.Join(ps, " ") + ")"
		}
		if pats != "" {
			t = "(! " + t + pats + ")"
		}
		return TV{"(" + x.op + " (" + strings.Join(bs, " ") + ") " + t + ")", sBool}
	case "bin":
		return e.bin(x)
	case "field":
		a := e.eval(x.args[0])
		switch a.s.K {
		case 'P':
			ps := e.v.ss.pointee(a.s)
			if ps == nil || ps.K != 'S' {
				e.fail("field %s of non-struct pointer", x.name)
			}
			_, fd := ps.field(x.name)
			if fd == nil {
				e.fail("no field %s in %s", x.name, ps.Name)
			}
			return e.loadField(ps, x.name, a.t)
		case 'S':
			_, fd := a.s.field(x.name)
			if fd == nil {
				e.fail("no field %s in %s", x.name, a.s.Name)
			}
			return TV{structGet(a.s, x.name, a.t), fd.S}
		case 'H':
			switch x.name {
			case "ref":
				return TV{app("slref", a.t), sInt}
			case "off":
				return TV{app("sloff", a.t), sInt}
			}
		}
		e.fail("field %s of %s", x.name, a.s.SMT())
	case "index":
		a, i := e.eval(x.args[0]), e.eval(x.args[1])
		switch a.s.K {
		case 'Q':
			return TV{sat(a.s, a.t, i.t), a.s.Elem}
		case 'H':
			return e.heapElem(a, i.t)
		case 'M':
			return TV{ite(app("select", app("select", e.comp("MD_"+mapKey(a.s), domArr(a.s)), a.t), i.t), app("select", app("select", e.comp("MV_"+mapKey(a.s), mapArr(a.s)), a.t), i.t), e.v.ss.zero(a.s.Elem)), a.s.Elem}
		case 'A':
			return TV{app("select", a.t, i.t), a.s.Elem}
		}
		e.fail("index of %s", a.s.SMT())
	case "slice":
		a := e.eval(x.args[0])
		if a.s.K != 'Q' && a.s.K != 'H' {
			e.fail("slice of %s", a.s.SMT())
		}
		lo := "0"
		if x.args[1] != nil {
			lo = e.eval(x.args[1]).t
		}
		if a.s.K == 'H' {
			hi := app("sllen", a.t)
			if x.args[2] != nil {
				hi = e.eval(x.args[2]).t
			}
			return TV{app("mkslc", app("slref", a.t), add(app("sloff", a.t), lo), sub(hi, lo)), a.s}
		}
		hi := slen(a.s, a.t)
		if x.args[2] != nil {
			hi = e.eval(x.args[2]).t
		}
		return TV{ssub(a.s, a.t, lo, hi), a.s}
	case "call":
		return e.call(x)
	}
	e.fail("cannot evaluate %s", x.op)
	return TV{}
}

func mapArr(s *Sort) *Sort { return arrOf(&Sort{K: 'A', Key: s.Key, Elem: s.Elem}) }
func domArr(s *Sort) *Sort { return arrOf(&Sort{K: 'A', Key: s.Key, Elem: sBool}) }

func structGet(s *Sort, f, t string) string {
	pre := "(mk_" + s.Name + " "
	if strings.HasPrefix(t, pre) {
		n := parseSx(t)
		i, _ := s.field(f)
		return n.list[i+1].String()
	}
	return app(s.Name+"_"+f, t)
}

// heapElem is s[i] of a heap slice: a pointer for struct elements, the value otherwise.
func (e *Env) heapElem(a TV, i string) TV {
	addr := app("elo", app("slref", a.t), app("sloff", a.t), i)
	if a.s.Elem.K == 'S' {
		return TV{addr, &Sort{K: 'P', Go: types.NewPointer(a.s.Elem.Go)}}
	}
	return TV{app("select", e.comp(elemKey(a.s.Elem), arrOf(a.s.Elem)), addr), a.s.Elem}
}

func (e *Env) bin(x *Expr) TV {
	a := e.eval(x.args[0])
	b := e.eval(x.args[1])
	op := x.name
	real := a.s.K == 'R' || b.s.K == 'R'
	lift := func(t TV) string {
		if real && t.s.K == 'I' {
			if n, ok := isNum(t.t); ok {
				if n < 0 {
					return fmt.Sprintf("(- %d.0)", -n)
				}
				return fmt.Sprintf("%d.0", n)
			}
			return app("to_real", t.t)
		}
		return t.t
	}
	need := func(k byte) {
		if a.s.K != k || b.s.K != k {
			e.fail("operator %s on %s and %s", op, a.s.SMT(), b.s.SMT())
		}
	}
	switch op {
	case "&&":
		need('B')
		return TV{and(a.t, b.t), sBool}
	case "||":
		need('B')
		return TV{or(a.t, b.t), sBool}
	case "==>":
		need('B')
		return TV{implies(a.t, b.t), sBool}
	case "<==>":
		need('B')
		return TV{eq(a.t, b.t), sBool}
	case "==", "!=":
		var t string
		switch {
		case a.s.K == 'N' && b.s.K == 'Q':
			t = eq(slen(b.s, b.t), "0")
		case b.s.K == 'N' && a.s.K == 'Q':
			t = eq(slen(a.s, a.t), "0")
		case a.s.K == 'N' && b.s.K == 'H':
			t = eq(app("slref", b.t), "0")
		case b.s.K == 'N' && a.s.K == 'H':
			t = eq(app("slref", a.t), "0")
		default:
			if !real && !a.s.same(b.s) {
				e.fail("comparison of %s and %s", a.s.SMT(), b.s.SMT())
			}
			t = eq(lift(a), lift(b))
		}
		if op == "!=" {
			t = not(t)
		}
		return TV{t, sBool}
	case "<", "<=", ">", ">=":
		if a.s.K != 'I' && a.s.K != 'R' && a.s.K != 'P' && a.s.K != 'F' && a.s.K != 'M' {
			e.fail("order on %s", a.s.SMT())
		}
		return TV{app(op, lift(a), lift(b)), sBool}
	case "++":
		need('Q')
		if !a.s.same(b.s) {
			e.fail("++ on %s and %s", a.s.SMT(), b.s.SMT())
		}
		return TV{scat(a.s, a.t, b.t), a.s}
	case "+", "-", "*":
		if a.s.K == 'Q' && op == "+" {
			return TV{scat(a.s, a.t, b.t), a.s}
		}
		if real {
			return TV{app(op, lift(a), lift(b)), sReal}
		}
		need('I')
		switch op {
		case "+":
			return TV{add(a.t, b.t), sInt}
		case "-":
			return TV{sub(a.t, b.t), sInt}
		}
		return TV{app("*", a.t, b.t), sInt}
	case "/":
		need('I')
		return TV{app("div", a.t, b.t), sInt}
	case "%":
		need('I')
		return TV{app("mod", a.t, b.t), sInt}
	}
	e.fail("operator %s", op)
	return TV{}
}

func (e *Env) call(x *Expr) TV {
	arg := func(i int) TV {
		if i >= len(x.args) {
			e.fail("missing argument of %s", x.name)
		}
		return e.eval(x.args[i])
	}
	switch x.name {
	case "len":
		a := arg(0)
		switch a.s.K {
		case 'Q':
			return TV{slen(a.s, a.t), sInt}
		case 'H':
			return TV{app("sllen", a.t), sInt}
		case 'M':
			return TV{app("select", e.comp("ML_"+mapKey(a.s), arrOf(sInt)), a.t), sInt}
		}
		e.fail("len of %s", a.s.SMT())
	case "old":
		if e.old == nil {
			e.fail("old() outside a function contract")
		}
		c := *e
		c.st = e.old
		return c.eval(x.args[0])
	case "unit":
		a := arg(0)
		s := seqOf(a.s)
		e.v.ss.note(s)
		return TV{sunit(s, a.t), s}
	case "upd":
		a, i, b := arg(0), arg(1), arg(2)
		return TV{supd(a.s, a.t, i.t, b.t), a.s}
	case "rep":
		a, n := arg(0), arg(1)
		s := seqOf(a.s)
		return TV{app("rep_"+a.s.id(), a.t, n.t), s}
	case "ret": // ret("name"): what the one call of the function in the body returned
		n, _ := strconv.Unquote(x.args[0].name)
		var r *Val
		for k, m := range e.rets {
			if k == n || strings.HasSuffix(k, "."+n) {
				for _, w := range m {
					if r != nil {
						e.fail("ret(%q): several calls", n)
					}
					r = w
				}
			}
		}
		if r == nil || r.tuple != nil {
			e.fail("ret(%q): no such call", n)
		}
		return e.tv(r)
	case "emptyof":
		a := arg(0)
		return TV{sempty(a.s), a.s}
	case "has":
		m, k := arg(0), arg(1)
		if m.s.K != 'M' {
			e.fail("has() of %s", m.s.SMT())
		}
		return TV{app("select", app("select", e.comp("MD_"+mapKey(m.s), domArr(m.s)), m.t), k.t), sBool}
	case "dom":
		m := arg(0)
		return TV{app("select", e.comp("MD_"+mapKey(m.s), domArr(m.s)), m.t), &Sort{K: 'A', Key: m.s.Key, Elem: sBool}}
	case "vals":
		m := arg(0)
		return TV{app("select", e.comp("MV_"+mapKey(m.s), mapArr(m.s)), m.t), &Sort{K: 'A', Key: m.s.Key, Elem: m.s.Elem}}
	case "store":
		m, k, w := arg(0), arg(1), arg(2)
		return TV{app("store", m.t, k.t, w.t), m.s}
	case "base":
		return TV{app("base", arg(0).t), sInt}
	case "isfresh":
		a := arg(0)
		if e.old == nil {
			e.fail("isfresh outside a contract")
		}
		t := a.t
		if a.s.K == 'H' {
			t = app("slref", a.t)
		}
		return TV{app(">=", app("base", t), e.get(e.old, "A", sInt)), sBool}
	case "isalloc":
		a := arg(0)
		t := a.t
		if a.s.K == 'H' {
			t = app("slref", a.t)
		}
		return TV{app("<", app("base", t), e.comp("A", sInt)), sBool}
	case "trie":
		a := arg(0)
		return TV{app("select", e.comp("G_trie", arrOf(sTrie)), a.t), sTrie}
	case "content":
		a := arg(0)
		return TV{app("select", e.comp("G_buf", arrOf(sSeqInt)), a.t), sSeqInt}
	case "view": // view(s): the elements of a heap slice as a sequence (pointers for struct elements)
		a := arg(0)
		if a.s.K != 'H' {
			e.fail("view of %s", a.s.SMT())
		}
		return e.view(a)
	case "addr": // addr(p, f): address of an embedded struct field
		a := arg(0)
		ps := e.v.ss.pointee(a.s)
		f := x.args[1].name
		_, fd := ps.field(f)
		return TV{e.v.subAddr(ps, f, a.t), &Sort{K: 'P', Go: types.NewPointer(fd.Go)}}
	case "global":
		n := x.args[0].name
		s, ok := e.v.globalSort(n)
		if !ok {
			e.fail("no global %s", n)
		}
		return TV{e.comp("V_"+n, s), s}
	case "mk":
		s := e.v.resolveTypeExpr(x.args[0])
		var as []string
		for i := 1; i < len(x.args); i++ {
			as = append(as, arg(i).t)
		}
		return TV{app("mk_"+s.Name, as...), s}
	case "real":
		a := arg(0)
		if a.s.K == 'R' {
			return a
		}
		if n, ok := isNum(a.t); ok {
			if n < 0 {
				return TV{fmt.Sprintf("(- %d.0)", -n), sReal}
			}
			return TV{fmt.Sprintf("%d.0", n), sReal}
		}
		return TV{app("to_real", a.t), sReal}
	case "enc", "dec", "valid8", "vr", "strlt", "fadd", "fsub", "fmul", "fdiv", "i2f", "f2i", "f32", "flog", "flog2", "fneg", "el":
		var as []string
		for i := range x.args {
			as = append(as, arg(i).t)
		}
		var s *Sort
		switch x.name {
		case "enc", "dec":
			s = sSeqInt
		case "valid8", "vr", "strlt":
			s = sBool
		case "f2i", "el":
			s = sInt
		default:
			s = sReal
		}
		return TV{app(x.name, as...), s}
	}
	d := e.v.sp.Fns[x.name]
	if d == nil {
		e.fail("unknown function %s", x.name)
	}
	if len(d.Params) != len(x.args) {
		e.fail("%s takes %d arguments", x.name, len(d.Params))
	}
	if d.Kind == "def" {
		ne := &Env{v: e.v, vars: map[string]TV{}, st: e.st, old: e.old, get: e.get}
		for i, p := range d.Params {
			a := arg(i)
			want := e.v.resolveType(p.Type)
			if !a.s.same(want) {
				e.fail("argument %s of %s: %s, want %s", p.Name, x.name, a.s.SMT(), want.SMT())
			}
			if a.s.K == 'N' || a.s.Go == nil || a.s.K == 'P' || a.s.K == 'F' || a.s.K == 'M' || a.s.K == 'Q' {
				a.s = want
			}
			ne.vars[p.Name] = a
		}
		return ne.eval(d.Body)
	}
	e.v.resolveFn(d)
	var as []string
	for _, c := range d.comps {
		as = append(as, e.get(e.st, c, e.v.compSorts[c]))
	}
	for i := range d.Params {
		a := arg(i)
		if !a.s.same(d.ps[i]) {
			if a.s.K == 'I' && d.ps[i].K == 'R' {
				a = e.call(&Expr{op: "call", name: "real", args: x.args[i : i+1]})
			} else {
				e.fail("argument %d of %s: %s, want %s", i, x.name, a.s.SMT(), d.ps[i].SMT())
			}
		}
		as = append(as, a.t)
	}
	return TV{app("u_"+d.Name, as...), d.ret}
}

// view gives the sequence of a heap slice's elements.
func (e *Env) view(a TV) TV {
	if a.s.Elem.K == 'S' {
		es := &Sort{K: 'P', Go: types.NewPointer(a.s.Elem.Go)}
		s := seqOf(es)
		e.v.ss.note(s)
		e.v.needPview = true
		return TV{app("pview", app("slref", a.t), app("sloff", a.t), app("sllen", a.t)), s}
	}
	s := seqOf(a.s.Elem)
	e.v.ss.note(s)
	k := elemKey(a.s.Elem)
	e.v.views[a.s.Elem.id()] = a.s.Elem
	return TV{app("view_"+a.s.Elem.id(), e.comp(k, arrOf(a.s.Elem)), app("slref", a.t), app("sloff", a.t), app("sllen", a.t)), s}
}

func (v *Verifier) resolveTypeExpr(x *Expr) *Sort {
	if x.op == "id" {
		return v.resolveType(x.name)
	}
	if x.op == "field" {
		return v.resolveType(x.args[0].name + "." + x.name)
	}
	panic(specErr("type expected"))
}

// resolveFn types a specification function and produces its axioms.
func (v *Verifier) resolveFn(d *FnDecl) {
	if d.done {
		return
	}
	d.done = true
	for _, p := range d.Params {
		d.ps = append(d.ps, v.resolveType(p.Type))
	}
	d.ret = v.resolveType(d.Ret)
	if d.Body == nil {
		return
	}
	eval := func(x *Expr, vars map[string]TV) TV {
		env := &Env{v: v, vars: vars, st: &State{}, get: func(st *State, key string, s *Sort) string {
			v.noteComp(key, s)
			found := false
			for _, c := range d.comps {
				if c == key {
					found = true
				}
			}
			if !found {
				d.comps = append(d.comps, key)
			}
			return "c_" + key
		}}
		return env.eval(x)
	}
	// first pass finds the heap components read (also through recursive calls)
	vars := map[string]TV{}
	for i, p := range d.Params {
		vars[p.Name] = TV{"p_" + p.Name, d.ps[i]}
	}
	n := len(d.Params)
	switch d.Kind {
	case "hom", "fold":
		in := d.ps[n-1]
		if in.K != 'Q' {
			panic(specErr(d.Name + ": last parameter must be a sequence"))
		}
		vars["x"] = TV{"x_e", in.Elem}
		vars["acc"] = TV{"acc_e", d.ret}
	}
	for {
		k := len(d.comps)
		if d.Init != nil {
			eval(d.Init, vars)
		}
		eval(d.Body, vars)
		if len(d.comps) == k {
			break
		}
	}
	body := eval(d.Body, vars)
	if !body.s.same(d.ret) {
		panic(specErr(fmt.Sprintf("%s: body has sort %s, declared %s", d.Name, body.s.SMT(), d.ret.SMT())))
	}
	var comps, args []string
	for _, c := range d.comps {
		comps = append(comps, "(c_"+c+" "+v.compSorts[c].SMT()+")")
		args = append(args, "c_"+c)
	}
	np := n
	if d.Kind != "fn" {
		np = n - 1
	}
	for i := 0; i < np; i++ {
		comps = append(comps, "(p_"+d.Params[i].Name+" "+d.ps[i].SMT()+")")
		args = append(args, "p_"+d.Params[i].Name)
	}
	switch d.Kind {
	case "fn":
		t := app("u_"+d.Name, args...)
		if len(args) == 0 {
			d.ax = "(assert (= " + t + " " + body.t + "))\n"
		} else {
			d.ax = "(assert (forall (" + strings.Join(comps, " ") + ") (! (= " + t + " " + body.t + ") :pattern (" + t + "))))\n"
		}
	case "hom":
		d.ax = homAxioms("u_"+d.Name, strings.Join(comps, " "), strings.Join(args, " "), d.ps[n-1], d.ret, d.Op, body.t, "x_e")
		d.ax += v.homFrame(d, comps, args)
	case "fold":
		init := eval(d.Init, vars)
		d.ax = foldAxioms("u_"+d.Name, strings.Join(comps, " "), strings.Join(args, " "), d.ps[n-1], d.ret, init.t, body.t, "acc_e", "x_e")
	}
}

// homFrame: a homomorphism over pointers does not change when the heap
// components it reads agree on the sequence's elements.
func (v *Verifier) homFrame(d *FnDecl, comps, args []string) string {
	in := d.ps[len(d.ps)-1]
	if len(d.comps) != 1 || in.Elem.K != 'P' {
		return ""
	}
	c := d.comps[0]
	cs := v.compSorts[c].SMT()
	rest := strings.Join(comps[1:], " ")
	restA := strings.Join(args[1:], " ")
	E := in.Elem.id()
	f := func(h, s string) string {
		return strings.ReplaceAll(fmt.Sprintf("(u_%s %s %s %s)", d.Name, h, restA, s), "  ", " ")
	}
	w := "hw_" + d.Name
	return fmt.Sprintf("(declare-fun %s (%s %s %s) Int)\n(assert (forall ((h1 %s) (h2 %s) %s (s %s)) (! (or (= %s %s) (and (<= 0 (%s h1 h2 s)) (< (%s h1 h2 s) (len_%s s)) (not (= (select h1 (at_%s s (%s h1 h2 s))) (select h2 (at_%s s (%s h1 h2 s))))))) :pattern (%s %s))))\n",
		w, cs, cs, in.SMT(), cs, cs, rest, in.SMT(), f("h1", "s"), f("h2", "s"), w, w, E, E, w, E, w, f("h1", "s"), f("h2", "s"))
}

func (v *Verifier) typedNil(s *Sort) TV {
	switch s.K {
	case 'Q':
		return TV{sempty(s), s}
	case 'H':
		return TV{"(mkslc 0 0 0)", s}
	}
	return TV{"0", s}
}
