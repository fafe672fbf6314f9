package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// scopeVal is a value a loop template may talk about.
type scopeVal struct {
	name string
	typ  types.Type
	s    *Sort
	at   func(st *State) TV
}

type loopPhi struct {
	p    *ssa.Phi
	s    *Sort
	cell string // state key of a mutable slice
	rng  bool   // rangeindex: templates see phi+1
}

type snapshot struct {
	env    map[ssa.Value]*Val
	in     map[*ssa.BasicBlock][]*inEdge
	runs   map[*ssa.BasicBlock]*loopRun
	nrets  int
	nfacts int
	ndecls int
	nobls  int
	cur    *Blk
	st     *State
}

func (x *Ctx) snap(fr *Frame) *snapshot {
	s := &snapshot{nrets: len(fr.rets), nfacts: len(x.facts), ndecls: len(x.decls), nobls: len(x.obls), cur: x.cur, st: x.st.clone()}
	s.env = map[ssa.Value]*Val{}
	for k, v := range fr.env {
		s.env[k] = v
	}
	s.in = map[*ssa.BasicBlock][]*inEdge{}
	for k, v := range fr.in {
		s.in[k] = append([]*inEdge{}, v...)
	}
	s.runs = map[*ssa.BasicBlock]*loopRun{}
	for k, v := range fr.runs {
		s.runs[k] = v
	}
	return s
}

func (x *Ctx) restore(fr *Frame, s *snapshot) {
	fr.env, fr.in, fr.runs, fr.rets = s.env, s.in, s.runs, fr.rets[:s.nrets]
	x.facts, x.decls, x.obls = x.facts[:s.nfacts], x.decls[:s.ndecls], x.obls[:s.nobls]
	x.cur, x.st = s.cur, s.st
}

func headerPhis(b *ssa.BasicBlock) []*ssa.Phi {
	var r []*ssa.Phi
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		r = append(r, p)
	}
	return r
}

func isLocalKey(k string) bool {
	return strings.HasPrefix(k, "cell_") || strings.HasPrefix(k, "it_") || strings.HasPrefix(k, "vis_")
}

func isHeapKey(k string) bool {
	return k != "A" && !isLocalKey(k) && !strings.HasPrefix(k, "V_")
}

// phiTV is a header phi's value as templates see it.
func (lr *loopRun) phiTV(lp *loopPhi, phi map[*ssa.Phi]TV, st *State) TV {
	if lp.cell != "" {
		return TV{st.m[lp.cell], lp.s}
	}
	tv := phi[lp.p]
	if lp.rng {
		tv.t = add(tv.t, "1")
	}
	return tv
}

func (x *Ctx) enterLoop(fr *Frame, l *loopInfo, ins []*inEdge) {
	x.join(ins)
	b := l.head
	phis := headerPhis(b)
	entry := map[*ssa.Phi]TV{}
	var lps []*loopPhi
	for _, p := range phis {
		v := x.mergePhi(fr, p, b, ins)
		lp := &loopPhi{p: p, s: x.v.ss.of(p.Type()), rng: p.Comment == "rangeindex"}
		if len(v.fns) > 0 || (v.lv != nil && v.t == "" && (v.lv.addr == "" || v.lv.s.K != 'S')) {
			panic(abortErr("loop-carried function or local address"))
		}
		if lp.s.K == 'Q' && fr.mut[p] {
			c := x.newCell(phiName(p), lp.s, x.term(v))
			lp.cell = c.cell
		}
		entry[p] = TV{x.term(v), lp.s}
		lps = append(lps, lp)
	}
	preBlk, preSt := x.cur, x.st.clone()
	x.loopsN++
	ord := x.loopsN
	setPhis := func(m map[*ssa.Phi]TV) {
		for _, lp := range lps {
			if lp.cell != "" {
				fr.env[lp.p] = &Val{cell: lp.cell, s: lp.s}
			} else {
				fr.env[lp.p] = tval(m[lp.p].t, lp.s)
			}
		}
	}
	havocPhis := func() map[*ssa.Phi]TV {
		m := map[*ssa.Phi]TV{}
		for _, lp := range lps {
			if lp.cell == "" {
				m[lp.p] = TV{x.newConst(phiName(lp.p), lp.s), lp.s}
			}
		}
		return m
	}
	// dry run: which state components does the body write?
	sn := x.snap(fr)
	nw := len(x.writes)
	x.dry++
	{
		lr := &loopRun{info: l, fr: fr}
		fr.runs[b] = lr
		m := havocPhis()
		lr.phiHead = m
		setPhis(m)
		// local iteration state must not look constant while probing
		for k := range x.st.m {
			if isLocalKey(k) {
				x.st.m[k] = x.newConst(k, x.v.compSorts[k])
			}
		}
		for _, bb := range l.order {
			if bb == b {
				x.instrs(fr, b)
				continue
			}
			if len(fr.in[bb]) > 0 {
				x.runBlocks(fr, []*ssa.BasicBlock{bb})
			}
		}
	}
	x.dry--
	var ws []writeRec
	ws = append(ws, x.writes[nw:]...)
	x.restore(fr, sn)
	written := map[string]bool{}
	for _, w := range ws {
		if isLocalKey(w.key) {
			if _, ok := preSt.m[w.key]; !ok {
				continue
			}
		}
		written[w.key] = true
	}
	for _, lp := range lps {
		if lp.cell != "" {
			written[lp.cell] = true
			x.writes = append(x.writes, writeRec{lp.cell, ""})
		}
	}
	// the loop head
	x.nblk++
	h := &Blk{id: x.nblk, anc: map[int]bool{}}
	for a := range preBlk.anc {
		h.anc[a] = true
	}
	h.anc[preBlk.id] = true
	h.R = fmt.Sprintf("R!%d", h.id)
	x.declare(h.R, sBool)
	x.cur = h
	x.raw(implies(h.R, preBlk.R))
	lr := &loopRun{info: l, fr: fr, preSt: preSt, name: fmt.Sprintf("%s#%d", fr.name, ord)}
	lr.phiHead = havocPhis()
	st := preSt.clone()
	var keys []string
	for k := range written {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	preA := x.get(preSt, "A", sInt)
	for _, k := range keys {
		st.m[k] = x.newConst(k, x.v.compSorts[k])
	}
	if written["A"] {
		x.assume(app(">=", st.m["A"], preA))
	}
	x.st = st
	for _, k := range keys {
		if isHeapKey(k) {
			x.assumeFrame(k, x.get(x.entry, k, x.v.compSorts[k]), st.m[k])
		}
		if strings.HasPrefix(k, "it_") {
			x.assume(app(">=", st.m[k], "0"))
		}
	}
	for _, lp := range lps {
		tv := lr.phiHead[lp.p]
		if lp.cell != "" {
			continue
		}
		switch lp.s.K {
		case 'P', 'M':
			x.assume(app("<", app("base", tv.t), x.get(st, "A", sInt)))
		case 'H':
			x.assume(app("<", app("base", app("slref", tv.t)), x.get(st, "A", sInt)))
			x.assume(app(">=", app("sllen", tv.t), "0"))
		case 'I':
			if lp.s.Bits == 8 {
				x.assume(and(app("<=", "0", tv.t), app("<=", tv.t, "255")))
			}
		}
	}
	setPhis(lr.phiHead)
	lr.headSt = st.clone()
	fr.runs[b] = lr
	if x.dry == 0 {
		x.runs = append(x.runs, lr)
		x.makeCands(fr, lr, lps, entry, preBlk, ws, keys)
		if x.con.Terminates {
			x.makeMeasures(fr, lr, lps)
		} else {
			lr.isRange = true
		}
	}
	lr.scope = nil
}

// assumeFrame: every store was checked against the function's frame, so what
// existed at entry and is not listed has not changed.
func (x *Ctx) assumeFrame(key, old, cur string) {
	if old == cur {
		return
	}
	x.v.nbound++
	p := fmt.Sprintf("p_b%d", x.v.nbound)
	conds := []string{app("<", app("base", p), x.a0)}
	for _, m := range x.modf {
		switch m.kind {
		case "global":
		case "field", "map", "trie":
			if m.keys[key] {
				conds = append(conds, not(eq(p, m.addr)))
			}
		case "elems":
			if m.keys[key] {
				conds = append(conds, not(eq(app("base", p), m.base)))
			}
		case "all":
			conds = append(conds, not(eq(app("base", p), m.base)))
		}
	}
	x.assume(fmt.Sprintf("(forall ((%s Int)) (! (=> %s (= (select %s %s) (select %s %s))) :pattern ((select %s %s))))", p, and(conds...), cur, p, old, p, cur, p))
}

type frameTmpl struct {
	tmpl []Template
	vars map[string]TV
	old  *State
	con  *Contract
}

// templates visible to a frame: its own contract's and those of the frames it is inlined in.
func (fr *Frame) tmpls() []frameTmpl {
	var r []frameTmpl
	for f := fr; f != nil; f = f.parent {
		if f.con != nil {
			r = append(r, frameTmpl{f.con.Invs, f.vars, f.entry, f.con})
		}
	}
	return r
}

func typeMatches(want *Sort, typ types.Type, s *Sort) bool {
	if want.K == 'R' || want.K == 'B' || want.K == 'A' || want.K == 'U' || want.K == 'S' {
		return want.SMT() == s.SMT()
	}
	if want.Go == nil || typ == nil {
		return want.SMT() == s.SMT() && want.K == s.K
	}
	return types.Identical(want.Go, typ) || (want.K == s.K && types.Identical(want.Go.Underlying(), typ.Underlying()) && (want.K == 'Q' || want.K == 'I'))
}

// scope lists the values defined outside the loop that it or the code after it uses.
func (x *Ctx) scope(fr *Frame, l *loopInfo) []scopeVal {
	var out []scopeVal
	seen := map[ssa.Value]bool{}
	addV := func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		r, ok := fr.env[v]
		if !ok || r.s == nil || r.tuple != nil || r.iter != nil || len(r.fns) > 0 {
			return
		}
		if r.lv != nil && r.t == "" {
			return
		}
		if r.cell != "" {
			if r.view {
				return
			}
			key := r.cell
			s := r.s
			out = append(out, scopeVal{v.Name(), v.Type(), s, func(st *State) TV { return TV{st.m[key], s} }})
			return
		}
		if r.t == "" {
			return
		}
		tv := TV{r.t, r.s}
		out = append(out, scopeVal{v.Name(), v.Type(), r.s, func(*State) TV { return tv }})
	}
	for _, p := range fr.fn.Params {
		addV(p)
	}
	for _, p := range fr.fn.FreeVars {
		addV(p)
	}
	var vs []ssa.Value
	for v := range fr.env {
		in, ok := v.(ssa.Instruction)
		if !ok || l.blocks[in.Block()] || !in.Block().Dominates(l.head) {
			continue
		}
		used := false
		if refs := v.Referrers(); refs != nil {
			for _, r := range *refs {
				if l.blocks[r.Block()] || l.head.Dominates(r.Block()) {
					used = true
				}
				// the counter of an enclosing loop
				if p, ok := r.(*ssa.Phi); ok && p.Block().Dominates(in.Block()) && p.Comment == "rangeindex" {
					used = true
				}
			}
		}
		if used {
			vs = append(vs, v)
		}
	}
	sort.Slice(vs, func(i, j int) bool { return vs[i].Name() < vs[j].Name() })
	for _, v := range vs {
		addV(v)
	}
	return out
}

func (x *Ctx) makeCands(fr *Frame, lr *loopRun, lps []*loopPhi, entry map[*ssa.Phi]TV, preBlk *Blk, ws []writeRec, keys []string) {
	scope := x.scope(fr, lr.info)
	type cdef struct {
		text  string
		auto  bool
		using []string
		eval  func(phi map[*ssa.Phi]TV, st *State) (string, bool)
	}
	var defs []cdef
	// binding sources
	type src struct {
		name string
		typ  types.Type
		s    *Sort
		get  func(phi map[*ssa.Phi]TV, st *State) TV
	}
	var phiS, valS, stS []src
	for _, lp := range lps {
		lp := lp
		phiS = append(phiS, src{phiName(lp.p), lp.p.Type(), lp.s, func(phi map[*ssa.Phi]TV, st *State) TV { return lr.phiTV(lp, phi, st) }})
	}
	for _, sv := range scope {
		sv := sv
		valS = append(valS, src{sv.name, sv.typ, sv.s, func(phi map[*ssa.Phi]TV, st *State) TV { return sv.at(st) }})
	}
	ci := 0
	for _, k := range keys {
		if !isLocalKey(k) {
			continue
		}
		isPhi := false
		for _, lp := range lps {
			if lp.cell == k {
				isPhi = true
			}
		}
		if isPhi {
			continue
		}
		k := k
		s := x.v.compSorts[k]
		ci++
		stS = append(stS, src{fmt.Sprintf("%s~%d", strings.SplitN(k, "_", 2)[0], ci), nil, s, func(phi map[*ssa.Phi]TV, st *State) TV { return TV{st.m[k], s} }})
	}
	for _, ft := range fr.tmpls() {
		ft := ft
		for _, t := range ft.tmpl {
			t := t
			var opts [][]src
			ok := true
			for _, w := range t.Vars {
				want := x.v.resolveType(w.Type)
				var o []src
				var from []src
				switch w.Kind {
				case "phi":
					from = phiS
				case "val":
					from = valS
				case "state":
					from = stS
				default:
					from = append(append(append([]src{}, phiS...), stS...), valS...)
				}
				for _, s := range from {
					if typeMatches(want, s.typ, s.s) {
						s := s
						s.s = want
						o = append(o, s)
					}
				}
				if len(o) == 0 {
					ok = false
				}
				opts = append(opts, o)
			}
			if !ok {
				continue
			}
			idx := make([]int, len(opts))
			n := 0
			for {
				n++
				if n > 400 {
					break
				}
				bs := make([]src, len(opts))
				names := make([]string, len(opts))
				dup := false
				for i := range opts {
					bs[i] = opts[i][idx[i]]
					names[i] = t.Vars[i].Name + "=" + bs[i].name
					for j := 0; j < i; j++ {
						if bs[j].name == bs[i].name {
							dup = true
						}
					}
				}
				if !dup {
					defs = append(defs, cdef{t.Text + " [" + strings.Join(names, ",") + "]", false, t.Using, func(phi map[*ssa.Phi]TV, st *State) (rt string, rok bool) {
						e := &Env{v: x.v, vars: map[string]TV{}, st: st, old: ft.old, get: x.get, rets: x.rets, tv: x.tv}
						for k, v := range ft.vars {
							e.vars[k] = v
						}
						if len(ft.con.Ghosts) > 0 {
							// a ghost whose call has not been made yet has no value
							for _, g := range ft.con.Ghosts {
								if tv, ok := e.try(g.E); ok && x.declaredBefore(tv.t) {
									e.vars[g.Name] = tv
								} else if t.E.mentions(g.Name) {
									return "", false
								}
							}
						}
						for i, w := range t.Vars {
							tv := bs[i].get(phi, st)
							tv.s = bs[i].s
							e.vars[w.Name] = tv
						}
						r := e.eval(t.E)
						return r.t, true
					}})
				}
				k := len(idx) - 1
				for ; k >= 0; k-- {
					idx[k]++
					if idx[k] < len(opts[k]) {
						break
					}
					idx[k] = 0
				}
				if k < 0 {
					break
				}
			}
		}
	}
	// automatic integer bounds
	for _, a := range append(append([]src{}, phiS...), stS...) {
		a := a
		if a.s.K != 'I' {
			continue
		}
		mk := func(text string, f func(t string, phi map[*ssa.Phi]TV, st *State) string) {
			defs = append(defs, cdef{a.name + text, true, nil, func(phi map[*ssa.Phi]TV, st *State) (string, bool) {
				return f(a.get(phi, st).t, phi, st), true
			}})
		}
		mk(" >= 0", func(t string, _ map[*ssa.Phi]TV, _ *State) string { return app(">=", t, "0") })
		e0 := a.get(entry, lr.preSt).t
		if e0 != "0" {
			mk(" >= entry", func(t string, _ map[*ssa.Phi]TV, _ *State) string { return app(">=", t, e0) })
		}
		mk(" <= entry", func(t string, _ map[*ssa.Phi]TV, _ *State) string { return app("<=", t, e0) })
		for _, o := range append(append(append([]src{}, phiS...), valS...), stS...) {
			o := o
			if o.name == a.name {
				continue
			}
			switch o.s.K {
			case 'I':
				if o.s.Bits > 0 || a.s.Bits > 0 {
					continue
				}
				mk(" <= "+o.name, func(t string, phi map[*ssa.Phi]TV, st *State) string {
					return app("<=", t, o.get(phi, st).t)
				})
			case 'Q':
				mk(" <= len "+o.name, func(t string, phi map[*ssa.Phi]TV, st *State) string {
					tv := o.get(phi, st)
					return app("<=", t, slen(tv.s, tv.t))
				})
			case 'H':
				mk(" <= len "+o.name, func(t string, phi map[*ssa.Phi]TV, st *State) string {
					return app("<=", t, app("sllen", o.get(phi, st).t))
				})
			}
		}
	}
	// range iterators stay within their range
	for _, k := range keys {
		if !strings.HasPrefix(k, "it_") {
			continue
		}
		k := k
		var it *Iter
		for _, v := range fr.env {
			if v.iter != nil && v.iter.str && v.iter.cnt == k {
				it = v.iter
			}
		}
		if it != nil {
			defs = append(defs, cdef{"iterator within its string", true, nil, func(phi map[*ssa.Phi]TV, st *State) (string, bool) {
				return app("<=", st.m[k], slen(sSeqInt, it.runes)), true
			}})
		}
	}
	// mutable slices keep their length
	for _, a := range append(append([]src{}, phiS...), stS...) {
		a := a
		if a.s.K == 'Q' {
			e0 := slen(a.s, a.get(entry, lr.preSt).t)
			defs = append(defs, cdef{"len " + a.name + " = entry", true, nil, func(phi map[*ssa.Phi]TV, st *State) (string, bool) {
				return eq(slen(a.s, a.get(phi, st).t), e0), true
			}})
		}
	}
	// heap frames relative to the loop entry
	preA := x.get(lr.preSt, "A", sInt)
	for _, k := range keys {
		if !isHeapKey(k) {
			continue
		}
		k := k
		s := x.v.compSorts[k]
		pre := x.get(lr.preSt, k, s)
		var roots []string
		inv := true
		for _, w := range ws {
			if w.key != k {
				continue
			}
			if w.addr == "" || !x.declaredBefore(w.addr) {
				inv = false
				continue
			}
			roots = append(roots, w.addr)
		}
		fm := func(ex []string) func(phi map[*ssa.Phi]TV, st *State) (string, bool) {
			return func(phi map[*ssa.Phi]TV, st *State) (string, bool) {
				cur := x.get(st, k, s)
				if cur == pre {
					return "true", true
				}
				conds := []string{app("<", app("base", "p_fr"), preA)}
				for _, e := range ex {
					conds = append(conds, not(eq("p_fr", e)))
				}
				return fmt.Sprintf("(forall ((p_fr Int)) (! (=> %s (= (select %s p_fr) (select %s p_fr))) :pattern ((select %s p_fr))))", and(conds...), cur, pre, cur), true
			}
		}
		if len(roots) == 0 {
			defs = append(defs, cdef{"loop writes only new memory: " + k, true, nil, fm(nil)})
		} else {
			defs = append(defs, cdef{"loop writes only its roots: " + k, true, nil, fm(uniqStr(roots))})
		}
		_ = inv
	}
	for _, d := range defs {
		h, ok := d.eval(lr.phiHead, lr.headSt)
		if !ok || h == "true" {
			continue
		}
		e, ok := d.eval(entry, lr.preSt)
		if !ok || e == "false" {
			continue
		}
		c := &Cand{id: len(x.cands), text: d.text, alive: true, loop: lr, auto: d.auto, using: d.using, key: lr.name + "|" + d.text}
		x.cands = append(x.cands, c)
		lr.cands = append(lr.cands, c)
		lr.evals = append(lr.evals, d.eval)
		x.facts = append(x.facts, fact{blk: x.cur, t: h, cand: c})
		if e != "true" {
			// facts known before the loop only
			x.obls = append(x.obls, &Obl{Kind: "inv-init", Label: d.text, Pos: x.pos(loopPos(lr.info)), blk: preBlk, goal: e, nfact: len(x.facts), ndecl: len(x.decls), cand: c, fn: x.name})
		}
	}
}

func uniqStr(a []string) []string {
	var r []string
	m := map[string]bool{}
	for _, s := range a {
		if !m[s] {
			m[s] = true
			r = append(r, s)
		}
	}
	return r
}

// declaredBefore: all constants of the term still exist (the dry run's were dropped).
func (x *Ctx) declaredBefore(t string) bool {
	for _, tok := range tokens(t) {
		if strings.Contains(tok, "!") {
			i, ok := x.declIdx[tok]
			if !ok {
				return false
			}
			if i >= 0 && (i >= len(x.decls) || !strings.HasPrefix(x.decls[i], "(declare-const "+tok+" ")) {
				return false
			}
		}
	}
	return true
}

func tokens(t string) []string {
	return strings.FieldsFunc(t, func(r rune) bool { return r == ' ' || r == '(' || r == ')' || r == '\n' })
}

func loopPos(l *loopInfo) token.Pos {
	for _, b := range l.order {
		for _, in := range b.Instrs {
			if in.Pos().IsValid() {
				return in.Pos()
			}
		}
	}
	return token.NoPos
}

func (x *Ctx) makeMeasures(fr *Frame, lr *loopRun, lps []*loopPhi) {
	// range loops end by construction
	for _, in := range lr.info.head.Instrs {
		if _, ok := in.(*ssa.Next); ok {
			lr.isRange = true
		}
	}
	for _, lp := range lps {
		if lp.rng {
			lr.isRange = true
		}
	}
	if lr.isRange {
		return
	}
	scope := x.scope(fr, lr.info)
	var ints []*loopPhi
	for _, lp := range lps {
		if lp.s.K == 'I' && lp.s.Bits == 0 {
			ints = append(ints, lp)
		}
	}
	addM := func(text string, f func(phi map[*ssa.Phi]TV, st *State) string) {
		lr.measures = append(lr.measures, measure{text, f})
		lr.mHead = append(lr.mHead, f(lr.phiHead, lr.headSt))
	}
	for _, a := range ints {
		a := a
		addM(phiName(a.p), func(phi map[*ssa.Phi]TV, st *State) string { return phi[a.p].t })
		for _, o := range scope {
			o := o
			switch o.s.K {
			case 'I':
				addM(o.name+"-"+phiName(a.p), func(phi map[*ssa.Phi]TV, st *State) string { return sub(o.at(st).t, phi[a.p].t) })
			case 'Q':
				addM("len "+o.name+"-"+phiName(a.p), func(phi map[*ssa.Phi]TV, st *State) string {
					return sub(slen(o.s, o.at(st).t), phi[a.p].t)
				})
			case 'H':
				addM("len "+o.name+"-"+phiName(a.p), func(phi map[*ssa.Phi]TV, st *State) string {
					return sub(app("sllen", o.at(st).t), phi[a.p].t)
				})
			}
		}
		for _, b := range ints {
			b := b
			if a != b {
				addM(phiName(b.p)+"-"+phiName(a.p), func(phi map[*ssa.Phi]TV, st *State) string { return sub(phi[b.p].t, phi[a.p].t) })
			}
		}
	}
	for _, a := range lps {
		a := a
		if a.s.K == 'Q' {
			addM("len "+phiName(a.p), func(phi map[*ssa.Phi]TV, st *State) string {
				tv := lr.phiTV(a, phi, st)
				return slen(tv.s, tv.t)
			})
		}
	}
}

func (x *Ctx) backEdge(fr *Frame, lr *loopRun, from *ssa.BasicBlock, cond string) {
	b := lr.info.head
	i := predIndex(b, from)
	save, saveSt := x.cur, x.st
	defer func() { x.cur, x.st = save, saveSt }()
	if cond != "true" {
		x.join([]*inEdge{{from, x.cur, cond, x.st}})
	} else {
		x.st = x.st.clone()
	}
	if x.dry > 0 {
		// values are still evaluated: cells may be copied
		return
	}
	back := map[*ssa.Phi]TV{}
	var cells []func()
	for _, p := range headerPhis(b) {
		v := x.val(fr, p.Edges[i])
		if hv := fr.env[p]; hv != nil && hv.cell != "" {
			t := x.term(v)
			key := hv.cell
			cells = append(cells, func() { x.st.m[key] = t })
			continue
		}
		s := x.v.ss.of(p.Type())
		back[p] = TV{x.term(v), s}
	}
	for _, f := range cells {
		f()
	}
	lr.backs++
	for k, c := range lr.cands {
		g, ok := lr.evals[k](back, x.st)
		if !ok || g == "true" {
			continue
		}
		x.obls = append(x.obls, &Obl{Kind: "inv-step", Label: c.text, Pos: x.pos(loopPos(lr.info)), blk: x.cur, goal: g, nfact: len(x.facts), ndecl: len(x.decls), cand: c, fn: x.name})
	}
	for k, m := range lr.measures {
		g := and(app("<", m.eval(back, x.st), lr.mHead[k]), app("<=", "0", lr.mHead[k]))
		x.obls = append(x.obls, &Obl{Kind: "term", Label: "loop ends: " + m.text, Pos: x.pos(loopPos(lr.info)), blk: x.cur, goal: g, nfact: len(x.facts), ndecl: len(x.decls), alt: k, group: lr, fn: x.name})
	}
	if len(lr.measures) == 0 && !lr.isRange {
		x.obls = append(x.obls, &Obl{Kind: "term", Label: "loop ends: no measure", Pos: x.pos(loopPos(lr.info)), blk: x.cur, goal: "false", nfact: len(x.facts), ndecl: len(x.decls), group: lr, fn: x.name})
	}
}
