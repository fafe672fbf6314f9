package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// genFunc generates the obligations of one function under its contract.
func (v *Verifier) genFunc(con *Contract) (x *Ctx, err error) {
	f := v.funcs[con.Name]
	if f == nil {
		return nil, fmt.Errorf("contract for %s: no such function in the repository", con.Name)
	}
	x = &Ctx{v: v, fn: f, con: con, name: con.Name, declIdx: map[string]int{}, inits: map[string]bool{}, params: map[string]TV{}, inlined: map[string]bool{}, called: map[string]bool{}}
	defer func() {
		if r := recover(); r != nil {
			switch e := r.(type) {
			case abortErr:
				err = fmt.Errorf("%s: %s", con.Name, string(e))
			case specErr:
				err = fmt.Errorf("%s: specification: %s", con.Name, string(e))
			default:
				panic(r)
			}
		}
	}()
	x.cur = &Blk{id: 0, R: "true", anc: map[int]bool{}}
	x.entry = &State{map[string]string{}}
	x.st = &State{map[string]string{}}
	x.a0 = x.get(x.entry, "A", sInt)
	x.raw(app(">", x.a0, "0"))
	fr := x.newFrame(f, nil)
	fr.con = con
	fr.vars = x.params
	fr.entry = x.entry
	if len(con.Params) != len(f.Params) {
		return nil, fmt.Errorf("%s: contract names %d parameters, the function has %d", con.Name, len(con.Params), len(f.Params))
	}
	cells := map[string]*Val{}
	for i, p := range f.Params {
		s := v.ss.of(p.Type())
		n := "p$" + con.Params[i]
		x.declare(n, s)
		val := tval(n, s)
		x.wellFormed(val)
		x.params[con.Params[i]] = TV{n, s}
		if i == 0 && f.Signature.Recv() != nil && s.K == 'P' {
			x.assume(not(eq(n, "0")))
		}
		if s.K == 'Q' && fr.mut[p] {
			c := x.newCell(con.Params[i], s, n)
			c.param = true
			for _, m := range con.Modifies {
				if m.op == "call" && m.name == "elems" && m.args[0].name == con.Params[i] {
					c.param = false
				}
			}
			cells[con.Params[i]] = c
			val = c
		}
		fr.env[p] = val
	}
	e := &Env{v: v, vars: x.params, st: x.entry, old: x.entry, get: x.get}
	for _, l := range con.Lets {
		tv := e.eval(l.E)
		n := x.define("let", tv.s, tv.t)
		x.params[l.Label] = TV{n, tv.s}
	}
	x.tables(e, con, func(n string, tv TV) { x.params[n] = tv })
	for _, m := range con.Modifies {
		x.modf = append(x.modf, v.modSpecOf(e, m))
	}
	for _, r := range con.Requires {
		x.assume(e.eval(r.E).t)
	}
	for _, r := range con.Assumes {
		x.assume(e.eval(r.E).t)
	}
	x.stack = []*ssa.Function{f}
	x.runBody(fr)
	if len(fr.rets) == 0 {
		return nil, fmt.Errorf("%s: no return is reachable", con.Name)
	}
	names := resultNames(con, f.Signature)
	for ri, r := range fr.rets {
		x.cur, x.st = r.blk, r.st
		pe := &Env{v: v, vars: map[string]TV{}, st: x.st, old: x.entry, get: x.get}
		for k, tv := range x.params {
			pe.vars[k] = tv
		}
		for n, c := range cells {
			pe.vars[n+"_out"] = TV{x.st.m[c.cell], c.s}
		}
		for k, n := range names {
			s := v.ss.of(f.Signature.Results().At(k).Type())
			rv := r.vals[k]
			if rv.s == nil || rv.s.K == 'N' {
				rv = tval(x.term(rv), s)
			}
			t := x.define("res_"+n, s, x.term(rv))
			pe.vars[n] = TV{t, s}
			for _, fn := range con.Fresh {
				if fn == n {
					x.oblige("fresh", n+" is new memory", r.pos, x.freshTerm(tval(t, s), x.a0), "", nil)
				}
			}
		}
		x.obls = append(x.obls, &Obl{Kind: "cover", Label: fmt.Sprintf("return %d is reachable under the contract", ri), Pos: x.pos(r.pos), blk: x.cur, goal: "false", nfact: len(x.facts), ndecl: len(x.decls), fn: x.name})
		pe.rets, pe.tv = x.rets, x.tv
		for _, g := range con.Ghosts {
			tv := pe.eval(g.E)
			pe.vars[g.Name] = TV{x.define("gh_"+g.Name, tv.s, tv.t), tv.s}
		}
		for i, en := range con.Asserts {
			nObl := len(x.obls)
			x.oblige("step", fmt.Sprintf("%s step %d", con.Name, i+1), r.pos, pe.eval(en.E).t, en.Text, nil)
			for _, o := range x.obls[nObl:] {
				o.using = en.Using
			}
		}
		for i, en := range con.Ensures {
			l := en.Label
			if l == "" {
				l = fmt.Sprintf("#%d", i+1)
			}
			nObl := len(x.obls)
			x.oblige("post", con.Name+" ensures "+l, r.pos, pe.eval(en.E).t, en.Text, en.Props)
			for _, o := range x.obls[nObl:] {
				o.using = en.Using
			}
		}
		for k := range names {
			_ = k
		}
	}
	x.ownCheck()
	return x, nil
}

// genLemma generates the obligations of a lemma (by strong induction when it
// has a measure).
func (v *Verifier) genLemma(l *Lemma) (x *Ctx, err error) {
	x = &Ctx{v: v, name: "lemma " + l.Name, declIdx: map[string]int{}, inits: map[string]bool{}, params: map[string]TV{}, inlined: map[string]bool{}, called: map[string]bool{}}
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(specErr); ok {
				err = fmt.Errorf("lemma %s: %s", l.Name, string(e))
				return
			}
			panic(r)
		}
	}()
	x.cur = &Blk{id: 0, R: "true", anc: map[int]bool{}}
	x.entry = &State{map[string]string{}}
	x.st = x.entry
	x.con = &Contract{Name: x.name, Uses: l.Uses}
	e := &Env{v: v, vars: x.params, st: x.entry, old: x.entry, get: x.get}
	for _, w := range l.Vars {
		s := v.resolveType(w.Type)
		n := "l$" + w.Name
		x.declare(n, s)
		x.params[w.Name] = TV{n, s}
	}
	if l.Decreases != nil {
		m := e.eval(l.Decreases).t
		// induction hypothesis for smaller instances
		x.assume(v.lemmaText(l, x, m))
	}
	for _, r := range l.Requires {
		x.assume(e.eval(r).t)
	}
	x.obls = append(x.obls, &Obl{Kind: "cover", Label: "hypotheses are consistent", blk: x.cur, goal: "false", nfact: len(x.facts), ndecl: len(x.decls), fn: x.name})
	for i, c := range l.Checks {
		x.oblige("lemma", fmt.Sprintf("%s step %d", l.Name, i+1), 0, e.eval(c).t, "", nil)
	}
	x.oblige("lemma", l.Name, 0, e.eval(l.Ensures).t, l.Text, nil)
	return x, nil
}

// lemmaText is the lemma as a quantified formula; with a bound it is the
// induction hypothesis below that measure.
func (v *Verifier) lemmaText(l *Lemma, x *Ctx, below string) string {
	get := x.get
	vars := map[string]TV{}
	var bs []string
	comps := map[string]bool{}
	var order []string
	if below == "" || !l.Fixed {
		get = func(st *State, key string, s *Sort) string {
			v.noteComp(key, s)
			n := "lc_" + key
			if !comps[key] {
				comps[key] = true
				order = append(order, key)
			}
			return n
		}
	}
	for _, w := range l.Vars {
		s := v.resolveType(w.Type)
		v.nbound++
		n := fmt.Sprintf("%s_b%d", w.Name, v.nbound)
		bs = append(bs, "("+n+" "+s.SMT()+")")
		vars[w.Name] = TV{n, s}
	}
	e := &Env{v: v, vars: vars, st: &State{map[string]string{}}, get: get}
	var hyp []string
	if below != "" {
		m := e.eval(l.Decreases).t
		hyp = append(hyp, app("<=", "0", m), app("<", m, below))
	}
	for _, r := range l.Requires {
		hyp = append(hyp, e.eval(r).t)
	}
	con := e.eval(l.Ensures).t
	var pats string
	for _, g := range l.Trig {
		var ps []string
		for _, p := range g {
			ps = append(ps, e.eval(p).t)
		}
		pats += " :pattern (" + strings.Join(ps, " ") + ")"
	}
	for _, k := range order {
		bs = append(bs, "(lc_"+k+" "+v.compSorts[k].SMT()+")")
	}
	body := implies(and(hyp...), con)
	if len(bs) == 0 {
		return body
	}
	if pats != "" {
		body = "(! " + body + pats + ")"
	}
	return "(forall (" + strings.Join(bs, " ") + ") " + body + ")"
}

var _ = types.Universe
