package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// shortName is the contract key of a function.
func shortName(f *ssa.Function) string {
	if f.Parent() != nil {
		return shortName(f.Parent()) + "$" + f.Name()
	}
	if r := f.Signature.Recv(); r != nil {
		return "(" + tstr(r.Type()) + ")." + f.Name()
	}
	if f.Pkg != nil {
		return f.Pkg.Pkg.Name() + "." + f.Name()
	}
	if o := f.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Name() + "." + f.Name()
	}
	return f.Name()
}

func (v *Verifier) contractOf(f *ssa.Function) *Contract {
	return v.sp.Contracts[shortName(f)]
}

// inlinable: repository code without a contract of its own.
func (v *Verifier) inlinable(f *ssa.Function) bool {
	if f == nil || len(f.Blocks) == 0 || !v.inRepo(f) {
		return false
	}
	c := v.contractOf(f)
	return c == nil || c.Inline
}

func (v *Verifier) inRepo(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	return f.Pkg != nil && strings.HasPrefix(f.Pkg.Pkg.Path(), "github.com/go-ego/gse")
}

func (x *Ctx) call(fr *Frame, in ssa.Value, c *ssa.CallCommon, site ssa.Value) *Val {
	var rs *Sort
	if in != nil {
		if _, ok := in.Type().(*types.Tuple); !ok {
			rs = x.v.ss.of(in.Type())
		}
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return x.builtin(fr, b, c, rs, site)
	}
	if c.IsInvoke() {
		name := "(" + tstr(c.Value.Type()) + ")." + c.Method.Name()
		if con := x.v.sp.Contracts[name]; con != nil {
			args := []*Val{x.val(fr, c.Value)}
			for _, a := range c.Args {
				args = append(args, x.val(fr, a))
			}
			return x.contractCall(con, c.Signature(), args, c.Pos())
		}
		x.unsupported(c.Pos(), "interface call "+name)
		return x.havocResults(c.Signature())
	}
	var args []*Val
	for _, a := range c.Args {
		args = append(args, x.val(fr, a))
	}
	if f := c.StaticCallee(); f != nil {
		var binds []*Val
		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			for _, b := range mc.Bindings {
				binds = append(binds, x.val(fr, b))
			}
		}
		return x.callFn(fr, f, args, binds, c)
	}
	fv := x.val(fr, c.Value)
	if len(fv.fns) == 0 {
		x.unsupported(c.Pos(), "call of an unknown function value")
		return x.havocResults(c.Signature())
	}
	if len(fv.fns) == 1 {
		return x.callFn(fr, fv.fns[0].fn, args, fv.fns[0].binds, c)
	}
	base, st := x.cur, x.st
	var rets []retEdge
	for _, a := range fv.fns {
		x.join([]*inEdge{{nil, base, eq(fv.t, a.id), st}})
		r := x.callFn(fr, a.fn, args, a.binds, c)
		re := retEdge{blk: x.cur, st: x.st}
		if r != nil {
			if r.tuple != nil {
				re.vals = r.tuple
			} else {
				re.vals = []*Val{r}
			}
		}
		rets = append(rets, re)
	}
	return x.joinRets(rets, c.Signature())
}

func (x *Ctx) callFn(fr *Frame, f *ssa.Function, args, binds []*Val, c *ssa.CallCommon) *Val {
	name := shortName(f)
	if h := special[name]; h != nil {
		return h(x, fr, f, args, c)
	}
	con := x.v.contractOf(f)
	if con != nil && !con.Inline {
		x.called[name] = true
		return x.contractCall(con, f.Signature, args, c.Pos())
	}
	if !x.v.inlinable(f) {
		x.unsupported(c.Pos(), "call of "+name+" without a contract")
		return x.havocResults(f.Signature)
	}
	for _, s := range x.stack {
		if s == f {
			x.unsupported(c.Pos(), "recursive call of "+name+" without a contract")
			return x.havocResults(f.Signature)
		}
	}
	if len(x.stack) > 14 {
		panic(abortErr("inlining too deep at " + name))
	}
	return x.inline(fr, f, args, binds)
}

func (x *Ctx) inline(fr *Frame, f *ssa.Function, args, binds []*Val) *Val {
	x.inlined[shortName(f)] = true
	x.stack = append(x.stack, f)
	nf := x.newFrame(f, fr)
	for i, p := range f.Params {
		a := args[i]
		if a.s != nil && a.s.K == 'Q' && nf.mut[p] && a.cell == "" {
			// the callee writes its parameter in place: the caller's value must be a cell
			panic(abortErr("callee " + f.Name() + " writes a slice that is not tracked"))
		}
		nf.env[p] = a
	}
	for i, p := range f.FreeVars {
		nf.env[p] = binds[i]
	}
	if nf.con != nil {
		for i, n := range nf.con.Params {
			if i < len(args) && args[i].s != nil && (args[i].t != "" || args[i].cell != "") {
				nf.vars[n] = TV{x.term(args[i]), x.v.ss.of(f.Params[i].Type())}
			}
		}
	}
	nf.entry = x.st.clone()
	x.runBody(nf)
	x.stack = x.stack[:len(x.stack)-1]
	return x.joinRets(nf.rets, f.Signature)
}

func (x *Ctx) newFrame(f *ssa.Function, parent *Frame) *Frame {
	nf := &Frame{fn: f, env: map[ssa.Value]*Val{}, parent: parent, mut: x.v.mutSet(f), name: shortName(f), vars: map[string]TV{}}
	if c := x.v.contractOf(f); c != nil {
		nf.con = c
	}
	if parent != nil {
		nf.depth = parent.depth + 1
	}
	return nf
}

func (x *Ctx) joinRets(rets []retEdge, sig *types.Signature) *Val {
	if len(rets) == 0 {
		// never returns
		b := x.newBlk([]*inEdge{{nil, x.cur, "false", x.st}})
		x.cur = b
		x.raw(not(b.R))
		return x.havocResults(sig)
	}
	var es []*inEdge
	for _, r := range rets {
		es = append(es, &inEdge{nil, r.blk, "true", r.st})
	}
	x.join(es)
	n := sig.Results().Len()
	if n == 0 {
		return nil
	}
	out := make([]*Val, n)
	for k := 0; k < n; k++ {
		s := x.v.ss.of(sig.Results().At(k).Type())
		var vs []*Val
		for _, r := range rets {
			vs = append(vs, r.vals[k])
		}
		out[k] = x.mergeVals(es, vs, s, "ret")
	}
	if n == 1 {
		return out[0]
	}
	return &Val{tuple: out}
}

// mergeVals joins values arriving over several edges.
func (x *Ctx) mergeVals(es []*inEdge, vs []*Val, s *Sort, hint string) *Val {
	if len(vs) == 1 {
		return vs[0]
	}
	if len(vs[0].fns) > 0 {
		n := x.newConst("fn", sInt)
		r := &Val{t: n, s: s}
		for i, v := range vs {
			x.raw(implies(and(es[i].blk.R, es[i].cond), eq(n, v.t)))
			r.fns = append(r.fns, v.fns...)
		}
		return r
	}
	var ts []string
	same := true
	for i, v := range vs {
		save := x.st
		x.st = es[i].st
		ts = append(ts, x.term(v))
		x.st = save
		if ts[i] != ts[0] {
			same = false
		}
	}
	if same {
		return vs[0]
	}
	n := x.newConst(hint, s)
	for i, e := range es {
		x.raw(implies(and(e.blk.R, e.cond), eq(n, ts[i])))
	}
	return tval(n, s)
}

func (x *Ctx) fresh(hint string, s *Sort) *Val {
	v := tval(x.newConst(hint, s), s)
	x.wellFormed(v)
	return v
}

// wellFormed: references are allocated, lengths and bytes are in range.
func (x *Ctx) wellFormed(v *Val) {
	switch v.s.K {
	case 'P', 'M':
		x.assume(app("<", app("base", v.t), x.get(x.st, "A", sInt)))
	case 'H':
		x.assume(app("<", app("base", app("slref", v.t)), x.get(x.st, "A", sInt)))
		x.assume(app(">=", app("sllen", v.t), "0"))
	case 'I':
		if v.s.Bits == 8 {
			x.assume(and(app("<=", "0", v.t), app("<=", v.t, "255")))
		}
		if v.s.Bits == 16 {
			x.assume(and(app("<=", "0", v.t), app("<=", v.t, "65535")))
		}
	case 'S':
		for _, f := range v.s.Fields {
			if f.S.K != 'Q' {
				x.wellFormed(tval(structGet(v.s, f.Name, v.t), f.S))
			}
		}
	}
}

func (x *Ctx) havocResults(sig *types.Signature) *Val {
	n := sig.Results().Len()
	if n == 0 {
		return nil
	}
	var out []*Val
	for k := 0; k < n; k++ {
		out = append(out, x.fresh("hv", x.v.ss.of(sig.Results().At(k).Type())))
	}
	if n == 1 {
		return out[0]
	}
	return &Val{tuple: out}
}

// modSpecOf reads one modifies entry.
func (v *Verifier) modSpecOf(e *Env, m *Expr) modSpec {
	switch m.op {
	case "field":
		p := e.eval(m.args[0])
		ps := v.ss.pointee(p.s)
		if ps == nil || ps.K != 'S' {
			panic(specErr("modifies: field of a non-struct pointer"))
		}
		_, fd := ps.field(m.name)
		if fd == nil {
			panic(specErr("modifies: no field " + m.name))
		}
		if fd.S.K == 'S' {
			sp := modSpec{kind: "field", keys: map[string]bool{}, addr: v.subAddr(ps, m.name, p.t)}
			for _, f := range fd.S.Fields {
				v.noteComp(fieldKey(fd.S, f.Name), arrOf(f.S))
				sp.keys[fieldKey(fd.S, f.Name)] = true
			}
			return sp
		}
		k := fieldKey(ps, m.name)
		v.noteComp(k, arrOf(fd.S))
		return modSpec{kind: "field", keys: map[string]bool{k: true}, addr: p.t}
	case "call":
		switch m.name {
		case "global":
			s, ok := v.globalSort(m.args[0].name)
			if !ok {
				panic(specErr("modifies: no global " + m.args[0].name))
			}
			v.noteComp("V_"+m.args[0].name, s)
			return modSpec{kind: "global", key: "V_" + m.args[0].name}
		case "trie":
			p := e.eval(m.args[0])
			v.noteComp("G_trie", arrOf(sTrie))
			return modSpec{kind: "trie", keys: map[string]bool{"G_trie": true}, addr: p.t}
		case "content":
			p := e.eval(m.args[0])
			v.noteComp("G_buf", arrOf(sSeqInt))
			return modSpec{kind: "trie", keys: map[string]bool{"G_buf": true}, addr: p.t}
		case "map":
			p := e.eval(m.args[0])
			k := mapKey(p.s)
			v.noteComp("MD_"+k, domArr(p.s))
			v.noteComp("MV_"+k, mapArr(p.s))
			v.noteComp("ML_"+k, arrOf(sInt))
			return modSpec{kind: "map", keys: map[string]bool{"MD_" + k: true, "MV_" + k: true, "ML_" + k: true}, addr: p.t}
		case "elems":
			p := e.eval(m.args[0])
			if p.s.K == 'Q' {
				return modSpec{kind: "cell", key: m.args[0].name}
			}
			ks := map[string]bool{}
			v.elemComps(p.s.Elem, ks)
			return modSpec{kind: "elems", keys: ks, base: app("base", app("slref", p.t))}
		}
	}
	panic(specErr("modifies: cannot read entry"))
}

func (v *Verifier) elemComps(es *Sort, ks map[string]bool) {
	if es.K != 'S' {
		v.noteComp(elemKey(es), arrOf(es))
		ks[elemKey(es)] = true
		return
	}
	for _, f := range es.Fields {
		if f.S.K == 'S' {
			v.elemComps(f.S, ks)
			continue
		}
		v.noteComp(fieldKey(es, f.Name), arrOf(f.S))
		ks[fieldKey(es, f.Name)] = true
	}
}

func resultNames(con *Contract, sig *types.Signature) []string {
	var r []string
	for k := 0; k < sig.Results().Len(); k++ {
		if k < len(con.Results) {
			r = append(r, con.Results[k])
		} else {
			r = append(r, fmt.Sprintf("result%d", k))
		}
	}
	return r
}

// contractCall replaces a call by the callee's contract.
func (x *Ctx) contractCall(con *Contract, sig *types.Signature, args []*Val, p token.Pos) *Val {
	pre := x.st.clone()
	e := &Env{v: x.v, vars: map[string]TV{}, st: pre, old: pre, get: x.get}
	var ptypes []types.Type
	if sig.Recv() != nil {
		ptypes = append(ptypes, sig.Recv().Type())
	}
	for k := 0; k < sig.Params().Len(); k++ {
		ptypes = append(ptypes, sig.Params().At(k).Type())
	}
	if len(con.Params) > 0 && len(con.Params) != len(args) {
		panic(specErr(fmt.Sprintf("%s: contract names %d parameters, the function has %d", con.Name, len(con.Params), len(args))))
	}
	for i, n := range con.Params {
		s := args[i].s
		if i < len(ptypes) {
			s = x.v.ss.of(ptypes[i])
		}
		if s.K == 'F' && args[i].iface != nil && args[i].iface.s != nil && args[i].iface.t != "" {
			// an interface holding a known value: the contract may talk about the value
			e.vars[n+"_val"] = TV{x.term(args[i].iface), args[i].iface.s}
		}
		if args[i].t == "" && args[i].cell == "" && (args[i].lv == nil || args[i].lv.addr == "") {
			panic(abortErr("argument " + n + " of " + con.Name + " has no value"))
		}
		e.vars[n] = TV{x.term(args[i]), s}
	}
	if sig.Recv() != nil && len(con.Params) > 0 && !con.Extern {
		if _, ok := sig.Recv().Type().(*types.Pointer); ok {
			x.oblige("safe", "receiver of "+con.Name+" is not nil", p, not(eq(e.vars[con.Params[0]].t, "0")), "", nil)
		}
	}
	for _, l := range con.Lets {
		e.vars[l.Label] = e.eval(l.E)
	}
	x.tables(e, con, func(n string, tv TV) { e.vars[n] = tv })
	for _, r := range con.Requires {
		x.oblige("pre", con.Name+" requires "+r.Label, p, e.eval(r.E).t, r.Text, nil)
	}
	// effects
	post := pre.clone()
	var specs []modSpec
	outs := map[string]string{}
	for _, m := range con.Modifies {
		ms := x.v.modSpecOf(e, m)
		if ms.kind == "cell" {
			for i, n := range con.Params {
				if n == ms.key {
					if args[i].cell == "" {
						panic(abortErr("callee " + con.Name + " writes a slice that is not tracked"))
					}
					outs[n] = x.newConst(n+"_out", args[i].s)
				}
			}
			continue
		}
		specs = append(specs, ms)
	}
	havoc := map[string]bool{}
	var hk []string
	for _, m := range specs {
		if m.kind == "global" {
			if !havoc[m.key] {
				havoc[m.key] = true
				hk = append(hk, m.key)
			}
			continue
		}
		for _, k := range sortedKeys(m.keys) {
			if !havoc[k] {
				havoc[k] = true
				hk = append(hk, k)
			}
		}
	}
	preA := x.get(pre, "A", sInt)
	if con.allocates() {
		na := x.newConst("A", sInt)
		x.assume(app(">=", na, preA))
		post.m["A"] = na
		x.writes = append(x.writes, writeRec{"A", ""})
	}
	for _, k := range hk {
		s := x.v.compSorts[k]
		old := x.get(pre, k, s)
		n := x.newConst(k, s)
		post.m[k] = n
		if strings.HasPrefix(k, "V_") {
			x.frameCheck(k, "", p)
			x.writes = append(x.writes, writeRec{k, ""})
			continue
		}
		x.v.nbound++
		q := fmt.Sprintf("p_b%d", x.v.nbound)
		conds := []string{app("<", app("base", q), preA)}
		for _, m := range specs {
			if !m.keys[k] {
				continue
			}
			if m.kind == "elems" {
				conds = append(conds, not(eq(app("base", q), m.base)))
				x.frameCheckBase(k, m.base, p)
				x.writes = append(x.writes, writeRec{k, ""})
			} else {
				conds = append(conds, not(eq(q, m.addr)))
				x.frameCheck(k, m.addr, p)
				x.writes = append(x.writes, writeRec{k, m.addr})
			}
		}
		x.assume(fmt.Sprintf("(forall ((%s Int)) (! (=> %s (= (select %s %s) (select %s %s))) :pattern ((select %s %s))))", q, and(conds...), n, q, old, q, n, q))
	}
	x.st = post
	// results
	names := resultNames(con, sig)
	var out []*Val
	pe := &Env{v: x.v, vars: map[string]TV{}, st: post, old: pre, get: x.get}
	for k, v := range e.vars {
		pe.vars[k] = v
	}
	for n, t := range outs {
		pe.vars[n+"_out"] = TV{t, pe.vars[n].s}
	}
	for k, n := range names {
		r := x.fresh(n, x.v.ss.of(sig.Results().At(k).Type()))
		pe.vars[n] = x.tv(r)
		out = append(out, r)
		for _, f := range con.Fresh {
			if f == n {
				x.assume(x.freshTerm(r, preA))
			}
		}
	}
	for _, g := range con.Ghosts {
		gs := x.v.resolveType(g.Type)
		pe.vars[g.Name] = TV{x.newConst("gh_"+g.Name, gs), gs}
	}
	for _, en := range con.Ensures {
		x.assume(pe.eval(en.E).t)
	}
	for i, n := range con.Params {
		if t, ok := outs[n]; ok {
			x.setCell(args[i], t, p)
		}
	}
	switch len(out) {
	case 0:
		return nil
	case 1:
		if x.rets == nil {
			x.rets = map[string]map[token.Pos]*Val{}
		}
		if x.rets[con.Name] == nil {
			x.rets[con.Name] = map[token.Pos]*Val{}
		}
		x.rets[con.Name][p] = out[0]
		return out[0]
	}
	return &Val{tuple: out}
}

func (c *Contract) allocates() bool { return !c.NoAlloc }

func (x *Ctx) freshTerm(r *Val, a string) string {
	t := x.term(r)
	if r.s.K == 'H' {
		return or(eq(app("slref", t), "0"), app(">=", app("base", app("slref", t)), a))
	}
	return or(eq(t, "0"), app(">=", app("base", t), a))
}

func (x *Ctx) frameCheckBase(key, base string, p token.Pos) {
	if x.dry > 0 || x.con == nil {
		return
	}
	alts := []string{app(">=", base, x.a0)}
	for _, m := range x.modf {
		if m.kind == "elems" && m.keys[key] || m.kind == "all" {
			alts = append(alts, eq(base, m.base))
		}
	}
	x.oblige("frame", "writes only what it may: "+key, p, or(alts...), "", nil)
}

func (x *Ctx) builtin(fr *Frame, b *ssa.Builtin, c *ssa.CallCommon, rs *Sort, site ssa.Value) *Val {
	arg := func(i int) *Val { return x.val(fr, c.Args[i]) }
	switch b.Name() {
	case "len", "cap":
		a := arg(0)
		if a.s.K == 'P' {
			arr := x.v.ss.of(c.Args[0].Type().Underlying().(*types.Pointer).Elem())
			return tval(num(arr.ArrLen), sInt)
		}
		if b.Name() == "cap" {
			n := x.newConst("cap", sInt)
			l := "0"
			if a.s.K == 'Q' {
				l = slen(a.s, x.term(a))
			} else {
				l = app("sllen", x.term(a))
			}
			x.assume(app(">=", n, l))
			return tval(n, rs)
		}
		switch a.s.K {
		case 'Q':
			return tval(slen(a.s, x.term(a)), rs)
		case 'H':
			return tval(app("sllen", x.term(a)), rs)
		case 'M':
			_, _, ml := x.mapComps(a.s)
			t := app("select", x.get(x.st, ml, arrOf(sInt)), x.term(a))
			n := x.define("mlen", sInt, ite(eq(x.term(a), "0"), "0", t))
			x.assume(app(">=", n, "0"))
			return tval(n, rs)
		}
	case "append":
		a, e := arg(0), arg(1)
		if rs.K == 'Q' {
			return tval(x.define("app", rs, scat(rs, x.term(a), x.term(e))), rs)
		}
		return x.heapAppend(a, e, rs, c.Pos())
	case "copy":
		d, s := arg(0), arg(1)
		if d.s.K != 'Q' || s.s.K != 'Q' || d.cell == "" {
			break
		}
		if d.view {
			dl, sl := sub(d.hi, d.lo), slen(s.s, x.term(s))
			n := x.define("n", sInt, ite(app("<=", dl, sl), dl, sl))
			whole := *d
			whole.view = false
			w := x.term(&whole)
			x.setCell(&whole, scat(d.s, ssub(d.s, w, "0", d.lo), scat(d.s, ssub(d.s, x.term(s), "0", n), ssub(d.s, w, add(d.lo, n), slen(d.s, w)))), c.Pos())
			return tval(n, sInt)
		}
		dl, sl := slen(d.s, x.term(d)), slen(s.s, x.term(s))
		n := x.define("n", sInt, ite(app("<=", dl, sl), dl, sl))
		x.setCell(d, scat(d.s, ssub(d.s, x.term(s), "0", n), ssub(d.s, x.term(d), n, dl)), c.Pos())
		return tval(n, sInt)
	case "delete":
		x.mapDelete(arg(0), x.term(arg(1)), c.Pos())
		return nil
	case "min", "max":
		t := x.term(arg(0))
		for i := 1; i < len(c.Args); i++ {
			u := x.term(arg(i))
			op := "<="
			if b.Name() == "max" {
				op = ">="
			}
			t = ite(app(op, t, u), t, u)
		}
		return tval(x.define("m", rs, t), rs)
	case "ssa:wrapnilchk":
		return arg(0)
	case "print", "println":
		return nil
	}
	x.unsupported(c.Pos(), "builtin "+b.Name())
	if rs == nil {
		return nil
	}
	return x.fresh("hv", rs)
}

// heapAppend: the result is the old backing array when there is room, and a
// copy otherwise.
func (x *Ctx) heapAppend(a, e *Val, rs *Sort, p token.Pos) *Val {
	at, et := x.define("sl", rs, x.term(a)), x.define("sl", rs, x.term(e))
	n, k := app("sllen", at), app("sllen", et)
	inplace := x.newConst("inplace", sBool)
	x.assume(implies(eq(app("slref", at), "0"), not(inplace)))
	ref := x.allocRef("arr")
	nref := x.define("ref", sInt, ite(inplace, app("slref", at), ref))
	noff := x.define("off", sInt, ite(inplace, app("sloff", at), "0"))
	r := x.define("app", rs, app("mkslc", nref, noff, add(n, k)))
	ks := map[string]bool{}
	x.v.elemComps(rs.Elem, ks)
	single := false
	if d, ok := x.defOf(et); ok && strings.HasPrefix(d, "(mkslc ") && parseSx(d).list[3].String() == "1" {
		single = true
		x.assume(eq(k, "1"))
	}
	for _, key := range sortedKeys(ks) {
		if rs.Elem.K == 'S' && !x.directField(rs.Elem, key) {
			x.unsupported(p, "append of nested structs")
			continue
		}
		s := x.v.compSorts[key]
		old := x.get(x.st, key, s)
		nc := x.newConst(key, s)
		dst := func(i string) string { return app("elo", nref, noff, i) }
		src := func(i string) string { return app("elo", app("slref", at), app("sloff", at), i) }
		x.v.nbound++
		q := fmt.Sprintf("q_b%d", x.v.nbound)
		// old elements
		x.assume(fmt.Sprintf("(forall ((%s Int)) (! (=> (and (<= 0 %s) (< %s %s)) (= (select %s %s) (select %s %s))) :pattern ((select %s %s)) :pattern ((select %s %s))))",
			q, q, q, n, nc, dst(q), old, src(q), nc, dst(q), old, src(q)))
		if single {
			x.assume(eq(app("select", nc, dst(n)), app("select", old, app("elo", app("slref", et), app("sloff", et), "0"))))
		} else {
			esrc := app("elo", app("slref", et), app("sloff", et), sub(q, n))
			x.assume(fmt.Sprintf("(forall ((%s Int)) (! (=> (and (<= %s %s) (< %s (+ %s %s))) (= (select %s %s) (select %s %s))) :pattern ((select %s %s))))",
				q, n, q, q, n, k, nc, dst(q), old, esrc, nc, dst(q)))
		}
		if rs.Elem.K != 'S' && x.con.mentions("view(") {
			es := rs.Elem
			qs := seqOf(es)
			x.v.ss.note(qs)
			x.v.views[es.id()] = es
			vw := func(c, r, o, n string) string { return app("view_"+es.id(), c, r, o, n) }
			more := vw(old, app("slref", et), app("sloff", et), k)
			if single {
				more = sunit(qs, app("select", old, app("elo", app("slref", et), app("sloff", et), "0")))
			}
			x.assume(eq(vw(nc, nref, noff, add(n, k)), scat(qs, vw(old, app("slref", at), app("sloff", at), n), more)))
		}
		// everything else is as before
		x.v.nbound++
		f := fmt.Sprintf("p_b%d", x.v.nbound)
		x.assume(fmt.Sprintf("(forall ((%s Int)) (! (=> (not (and %s (= (elr %s) %s) (>= (eli %s) (+ %s %s)) (= (el (elr %s) (eli %s)) %s))) (or (= (base %s) %s) (= (select %s %s) (select %s %s)))) :pattern ((select %s %s))))",
			f, inplace, f, nref, f, noff, n, f, f, f, f, ref, nc, f, old, f, nc, f))
		x.st.m[key] = nc
		x.writes = append(x.writes, writeRec{key, ""})
		if x.dry == 0 && x.con != nil {
			// writing into spare room of an array someone else owns breaks the frame
			x.when = and(inplace, app(">", k, "0"))
			x.frameCheckBase(key, app("base", app("slref", at)), p)
			x.when = ""
		}
	}
	return tval(r, rs)
}

func (x *Ctx) directField(es *Sort, key string) bool {
	for _, f := range es.Fields {
		if fieldKey(es, f.Name) == key {
			return true
		}
	}
	return false
}

// special handlers for library functions whose contract needs the callee's Go
// type (sorting, formatting).
var special = map[string]func(x *Ctx, fr *Frame, f *ssa.Function, args []*Val, c *ssa.CallCommon) *Val{}

// tables introduces the tables of a contract, read in the state of e.
func (x *Ctx) tables(e *Env, con *Contract, bind func(string, TV)) {
	if len(con.Tables) > 0 {
		x.mapsHeld()
	}
	for _, t := range con.Tables {
		s := x.v.resolveType(t.Type)
		c := TV{x.newConst("tbl_"+t.Name, s), s}
		bind(t.Name, c)
		at := &Expr{op: "id", name: t.Name}
		for _, w := range t.Vars {
			at = &Expr{op: "index", args: []*Expr{at, {op: "id", name: w.Name}}}
		}
		q := &Expr{op: "forall", vars: t.Vars, trig: [][]*Expr{{at}}, args: []*Expr{{op: "bin", name: "==", args: []*Expr{at, t.E}}}}
		x.assume(e.with(t.Name, c).eval(q).t)
	}
}

// mapsHeld: the maps global variables hold, and what these refer to, are allocated.
func (x *Ctx) mapsHeld() {
	var names []string
	for n := range x.v.globals {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		s, _ := x.v.globalSort(n)
		if s.K == 'M' {
			x.assume(app("<", app("base", x.get(x.st, "V_"+n, s)), x.get(x.st, "A", sInt)))
		}
		if s.K != 'M' || s.Elem == nil || (s.Elem.K != 'M' && s.Elem.K != 'P') {
			continue
		}
		_, mv, _ := x.mapComps(s)
		at := app("select", app("select", x.get(x.st, mv, mapArr(s)), x.get(x.st, "V_"+n, s)), "k_h")
		x.assume(fmt.Sprintf("(forall ((k_h %s)) (! (< (base %s) %s) :pattern (%s)))", s.Key.SMT(), at, x.get(x.st, "A", sInt), at))
	}
}

// sorted is a call of sort.Sort: the contract is the one written for the type
// of the value sorted.
func sorted(x *Ctx, fr *Frame, f *ssa.Function, args []*Val, c *ssa.CallCommon) *Val {
	a, name := args[0], "sort.Sort_"
	for a != nil && a.rev != nil {
		a, name = a.rev, name+"reverse_"
	}
	if a == nil || a.iface == nil || a.ityp == nil {
		x.unsupported(c.Pos(), "sort.Sort of an unknown value")
		return nil
	}
	name += tstr(a.ityp)
	con := x.v.sp.Contracts[name]
	if con == nil {
		x.unsupported(c.Pos(), "no contract for "+name)
		return nil
	}
	sig := types.NewSignatureType(nil, nil, nil, types.NewTuple(types.NewParam(0, nil, "x", a.ityp)), nil, false)
	x.called[name] = true
	return x.contractCall(con, sig, []*Val{a.iface}, c.Pos())
}

func init() {
	special["sort.Sort"] = sorted
	special["sort.Reverse"] = func(x *Ctx, fr *Frame, f *ssa.Function, args []*Val, c *ssa.CallCommon) *Val {
		n := x.newConst("if", sRef)
		x.assume(not(eq(n, "0")))
		return &Val{t: n, s: sRef, rev: args[0]}
	}
}
