package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Val is the symbolic value of an SSA register.
type Val struct {
	t       string
	s       *Sort
	lv      *LV
	cell    string // mutable value-mode slice: contents live in the state
	wb      *LV    // write-through location of a cell loaded from memory
	param   bool   // cell of a parameter: element stores violate the frame
	lo, hi  string // view into a cell (set when view)
	view    bool
	tuple   []*Val
	fns     []fnAlt
	iter    *Iter
	iface   *Val
	ityp    types.Type // of iface
	rev     *Val       // the value sort.Reverse reverses
	reverse bool
}

type fnAlt struct {
	id    string
	fn    *ssa.Function
	binds []*Val
}

// Iter is a range iterator over a string or map.
type Iter struct {
	str   bool
	runes string
	cnt   string // state key
	vis   string // state key
	m     *Val
	dom0  string
	src   string
}

// LV is an address the executor keeps symbolic.
type LV struct {
	key   string // heap component, global or cell key
	s     *Sort  // sort of the whole location addressed at this level
	addr  string // heap address; "" for globals and cells
	proj  []Proj
	wbs   *Val
	cellV *Val // cell register the address points into
	init  bool
}

// Proj is one projection step inside a cell.
type Proj struct {
	field string
	idx   string
	s     *Sort // sort of the container
}

// Blk is a node of the (loop-cut) control-flow graph.
type Blk struct {
	id  int
	R   string
	anc map[int]bool

	froms []*Blk   // incoming edges, for splitting a goal by path
	conds []string // and when each is taken
}

type fact struct {
	blk  *Blk
	t    string
	raw  bool // not guarded by the block's reach condition
	cand *Cand
}

// Cand is a candidate loop invariant.
type Cand struct {
	id    int
	key   string
	text  string
	alive bool
	loop  *loopRun
	auto  bool
	using []string
}

// Obl is a proof obligation.
type Obl struct {
	Kind  string
	Label string
	Pos   string
	Text  string
	Props []string
	blk   *Blk
	goal  string
	nfact int
	ndecl int
	cand  *Cand
	alt   int // alternative index for variants
	group *loopRun
	fn    string
	using []string

	Res    string
	Solver string
	Secs   float64
	Out    string
}

type inEdge struct {
	from *ssa.BasicBlock
	blk  *Blk
	cond string
	st   *State
}

type loopInfo struct {
	head   *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	order  []*ssa.BasicBlock
}

// loopRun is one symbolic traversal of a loop.
type loopRun struct {
	info     *loopInfo
	fr       *Frame
	cands    []*Cand
	evals    []func(phi map[*ssa.Phi]TV, st *State) (string, bool)
	phiHead  map[*ssa.Phi]TV
	headSt   *State
	preSt    *State
	measures []measure
	mHead    []string
	name     string
	isRange  bool
	oldAlloc string
	scope    []scopeVal
	backs    int
}

type measure struct {
	text string
	eval func(phi map[*ssa.Phi]TV, st *State) string
}

// Frame is one (possibly inlined) activation.
type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]*Val
	in     map[*ssa.BasicBlock][]*inEdge
	loops  map[*ssa.BasicBlock]*loopInfo
	runs   map[*ssa.BasicBlock]*loopRun
	rets   []retEdge
	depth  int
	parent *Frame
	mut    map[ssa.Value]bool
	name   string
	con    *Contract
	vars   map[string]TV
	entry  *State
}

type retEdge struct {
	blk  *Blk
	st   *State
	vals []*Val
	pos  token.Pos
}

type writeRec struct {
	key, addr string
}

// Ctx is the verification of one function.
type Ctx struct {
	reveals map[string]bool
	lemName map[string]string // rendered lemma -> name
	v       *Verifier
	fn      *ssa.Function
	con     *Contract
	name    string
	decls   []string
	declIdx map[string]int
	facts   []fact
	obls    []*Obl
	cands   []*Cand
	cur     *Blk
	st      *State
	entry   *State
	inits   map[string]bool
	nc      int
	nblk    int
	dry     int
	when    string // guards the obligations being added
	writes  []writeRec
	params  map[string]TV
	a0      string
	tmpl    []Template
	stack   []*ssa.Function
	loopsN  int
	modf    []modSpec
	runs    []*loopRun
	unsup   []string
	inlined map[string]bool
	called  map[string]bool
	rets    map[string]map[token.Pos]*Val // results of contract calls, by callee and call site
	lets    []Clause
}

type modSpec struct {
	kind string // field elems all map trie global buf
	key  string
	keys map[string]bool
	addr string
	base string
}

type abortErr string

func (x *Ctx) newConst(hint string, s *Sort) string {
	x.nc++
	n := fmt.Sprintf("%s!%d", mangle(hint), x.nc)
	x.declare(n, s)
	return n
}

func (x *Ctx) declare(n string, s *Sort) {
	x.v.ss.note(s)
	x.declIdx[n] = len(x.decls)
	x.decls = append(x.decls, "(declare-const "+n+" "+s.SMT()+")")
}

// define names a term so that later terms stay small.
func (x *Ctx) define(hint string, s *Sort, t string) string {
	if !strings.ContainsAny(t, " ") {
		return t
	}
	n := x.newConst(hint, s)
	x.raw(eq(n, t))
	return n
}

func (x *Ctx) raw(t string) {
	if t != "true" {
		x.facts = append(x.facts, fact{blk: x.cur, t: t, raw: true})
	}
}

func (x *Ctx) assume(t string) {
	if t != "true" {
		x.facts = append(x.facts, fact{blk: x.cur, t: t})
	}
}

func (x *Ctx) pos(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	q := x.v.prog.Fset.Position(p)
	f := q.Filename
	f = strings.TrimPrefix(f, x.v.repo+"/")
	return fmt.Sprintf("%s:%d", f, q.Line)
}

// oblige adds an obligation and assumes it afterwards.
func (x *Ctx) oblige(kind, label string, p token.Pos, goal, text string, props []string) {
	if x.dry > 0 {
		return
	}
	if goal == "true" {
		x.v.trivial++
		return
	}
	if x.when != "" {
		goal = implies(x.when, goal)
	}
	x.obls = append(x.obls, &Obl{Kind: kind, Label: label, Pos: x.pos(p), Text: text, Props: props, blk: x.cur, goal: goal, nfact: len(x.facts), ndecl: len(x.decls), fn: x.name})
	x.assume(goal)
}

func (x *Ctx) unsupported(p token.Pos, what string) {
	if x.dry == 0 {
		x.unsup = append(x.unsup, what+" at "+x.pos(p))
		x.obls = append(x.obls, &Obl{Kind: "unsupported", Label: what, Pos: x.pos(p), blk: x.cur, goal: "false", nfact: len(x.facts), ndecl: len(x.decls), fn: x.name})
	}
}

func (x *Ctx) newBlk(edges []*inEdge) *Blk {
	x.nblk++
	b := &Blk{id: x.nblk, anc: map[int]bool{}}
	for _, e := range edges {
		for a := range e.blk.anc {
			b.anc[a] = true
		}
		b.anc[e.blk.id] = true
	}
	b.R = fmt.Sprintf("R!%d", b.id)
	x.declare(b.R, sBool)
	return b
}

// get reads a state component, declaring its initial value on first use.
func (x *Ctx) get(st *State, key string, s *Sort) string {
	x.v.noteComp(key, s)
	if t, ok := st.m[key]; ok {
		return t
	}
	n := key + "!0"
	if !x.inits[key] {
		x.inits[key] = true
		x.declIdx[n] = -1
		x.v.ss.note(s)
	}
	return n
}

func (x *Ctx) env(st *State) *Env {
	return &Env{v: x.v, vars: map[string]TV{}, st: st, old: x.entry, get: x.get}
}

// join merges edges into x.cur / x.st.
func (x *Ctx) join(edges []*inEdge) {
	if len(edges) == 1 && edges[0].cond == "true" {
		x.cur = edges[0].blk
		x.st = edges[0].st.clone()
		return
	}
	b := x.newBlk(edges)
	x.cur = b
	var cs []string
	for _, e := range edges {
		cs = append(cs, and(e.blk.R, e.cond))
		b.froms = append(b.froms, e.blk)
		b.conds = append(b.conds, and(e.blk.R, e.cond))
	}
	x.raw(eq(b.R, or(cs...)))
	if len(edges) == 1 {
		x.st = edges[0].st.clone()
		return
	}
	st := &State{map[string]string{}}
	keys := map[string]bool{}
	for _, e := range edges {
		for k := range e.st.m {
			keys[k] = true
		}
	}
	var ks []string
	for k := range keys {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		// a cell exists only on the paths that created it
		local := strings.HasPrefix(k, "cell_") || strings.HasPrefix(k, "it_") || strings.HasPrefix(k, "vis_")
		var ts []string
		same, miss := true, false
		for _, e := range edges {
			if _, ok := e.st.m[k]; !ok && local {
				miss = true
				continue
			}
			t := x.get(e.st, k, x.v.compSorts[k])
			if len(ts) > 0 && ts[0] != t {
				same = false
			}
			ts = append(ts, t)
		}
		if same {
			st.m[k] = ts[0]
			continue
		}
		if miss && local {
			// merge the paths that have it
			n := x.newConst(k, x.v.compSorts[k])
			for i, e := range edges {
				if t, ok := e.st.m[k]; ok {
					x.raw(implies(cs[i], eq(n, t)))
				}
			}
			st.m[k] = n
			continue
		}
		n := x.newConst(k, x.v.compSorts[k])
		for i := range edges {
			x.raw(implies(cs[i], eq(n, ts[i])))
		}
		st.m[k] = n
	}
	x.st = st
}

// term is the current value term of v.
func (x *Ctx) term(v *Val) string {
	if v.cell != "" {
		c := x.st.m[v.cell]
		if v.view {
			return ssub(v.s, c, v.lo, v.hi)
		}
		return c
	}
	if v.lv != nil && v.t == "" {
		if v.lv.addr != "" && len(v.lv.proj) == 0 && v.lv.s != nil && v.lv.s.K == 'S' {
			return v.lv.addr
		}
		panic(abortErr("address of a local used as a value"))
	}
	if v.t == "" {
		panic(abortErr("value without a term"))
	}
	return v.t
}

func (x *Ctx) tv(v *Val) TV { return TV{x.term(v), v.s} }

func tval(t string, s *Sort) *Val { return &Val{t: t, s: s} }

// val looks up an SSA operand.
func (x *Ctx) val(fr *Frame, v ssa.Value) *Val {
	switch c := v.(type) {
	case *ssa.Const:
		return x.constVal(c)
	case *ssa.Global:
		s := x.v.ss.of(c.Type().(*types.Pointer).Elem())
		key := "V_" + c.Pkg.Pkg.Name() + "_" + c.Name()
		if s.K == 'S' {
			// a struct-typed global: a fixed address
			return &Val{t: x.v.globalAddr(c), s: x.v.ss.of(c.Type())}
		}
		return &Val{lv: &LV{key: key, s: s}, s: x.v.ss.of(c.Type())}
	case *ssa.Function:
		return &Val{t: "0", s: sRef, fns: []fnAlt{{"0", c, nil}}}
	case *ssa.Builtin:
		return &Val{t: "0", s: sRef}
	}
	if r, ok := fr.env[v]; ok {
		return r
	}
	panic(abortErr(fmt.Sprintf("no value for %s in %s", v.Name(), fr.fn.Name())))
}

func (x *Ctx) constVal(c *ssa.Const) *Val {
	s := x.v.ss.of(c.Type())
	if c.Value == nil {
		return tval(x.v.ss.zero(s), s)
	}
	switch s.K {
	case 'I':
		if i, ok := constant.Int64Val(constant.ToInt(c.Value)); ok {
			return tval(num(i), s)
		}
		return tval(constant.ToInt(c.Value).ExactString(), s)
	case 'B':
		return tval(fmt.Sprint(constant.BoolVal(c.Value)), s)
	case 'R':
		return tval(realConst(c.Value), s)
	case 'Q':
		return tval(x.v.strConst(constant.StringVal(c.Value)), s)
	}
	return tval(x.v.ss.zero(s), s)
}

func realConst(v constant.Value) string {
	r := constant.ToFloat(v)
	n, d := constant.Num(r), constant.Denom(r)
	if n.Kind() == constant.Int && d.Kind() == constant.Int {
		ns := n.ExactString()
		neg := strings.HasPrefix(ns, "-")
		ns = strings.TrimPrefix(ns, "-")
		t := ns + ".0"
		if ds := d.ExactString(); ds != "1" {
			t = "(/ " + ns + ".0 " + ds + ".0)"
		}
		if neg {
			t = "(- " + t + ")"
		}
		return t
	}
	f, _ := constant.Float64Val(r)
	return fmt.Sprintf("%f", f)
}

// load reads through an address value.
func (x *Ctx) load(a *Val, want *Sort, p token.Pos) *Val {
	if a.lv == nil {
		// plain pointer term to a non-struct or struct
		ps := x.v.ss.pointee(a.s)
		x.nilCheck(a.t, p)
		if ps.K == 'S' {
			return tval(x.env(x.st).loadStruct(ps, a.t), ps)
		}
		return x.wf(tval(app("select", x.get(x.st, "P_"+ps.id(), arrOf(ps)), a.t), ps))
	}
	lv := a.lv
	if lv.addr == "" {
		if lv.cellV != nil {
			t := x.term(lv.cellV)
			return x.wf(tval(x.project(t, lv), lv.s))
		}
		root := x.get(x.st, lv.key, x.rootSort(lv))
		r := x.wf(tval(x.project(root, lv), lv.s))
		if len(lv.proj) == 0 {
			x.entryRef(r, root, "")
		}
		return r
	}
	if lv.s.K == 'S' && len(lv.proj) == 0 {
		return tval(x.env(x.st).loadStruct(lv.s, lv.addr), lv.s)
	}
	c := x.get(x.st, lv.key, arrOf(lv.s))
	r := x.wf(tval(app("select", c, lv.addr), lv.s))
	x.entryRef(r, c, lv.addr)
	return r
}

// entryRef: what the entry heap held was allocated on entry.
func (x *Ctx) entryRef(v *Val, comp, addr string) {
	if !strings.HasSuffix(comp, "!0") || x.get(x.st, "A", sInt) == x.a0 {
		return
	}
	t := v.t
	switch v.s.K {
	case 'P', 'M':
	case 'H':
		t = app("slref", t)
	default:
		return
	}
	c := app("<", app("base", t), x.a0)
	if addr != "" {
		c = implies(app("<", app("base", addr), x.a0), c)
	}
	x.assume(c)
}

// wf names a loaded value and records that what it points to is allocated.
func (x *Ctx) wf(v *Val) *Val {
	if v.s == nil {
		return v
	}
	switch v.s.K {
	case 'P', 'M':
		v.t = x.define("p", v.s, v.t)
		x.assume(app("<", app("base", v.t), x.get(x.st, "A", sInt)))
	case 'H':
		v.t = x.define("sl", v.s, v.t)
		x.assume(app("<", app("base", app("slref", v.t)), x.get(x.st, "A", sInt)))
		x.assume(app(">=", app("sllen", v.t), "0"))
	case 'Q', 'S':
		v.t = x.define("v", v.s, v.t)
	}
	if v.s.K == 'I' && v.s.Bits == 8 && strings.Contains(v.t, " ") {
		v.t = x.define("b", v.s, v.t)
		x.assume(and(app("<=", "0", v.t), app("<=", v.t, "255")))
	}
	return v
}

func (x *Ctx) rootSort(lv *LV) *Sort {
	if len(lv.proj) > 0 {
		return lv.proj[0].s
	}
	return lv.s
}

func (x *Ctx) project(t string, lv *LV) string {
	for _, p := range lv.proj {
		if p.field != "" {
			t = structGet(p.s, p.field, t)
		} else {
			t = sat(p.s, t, p.idx)
		}
	}
	return t
}

func (x *Ctx) update(t string, proj []Proj, nv string) string {
	if len(proj) == 0 {
		return nv
	}
	p := proj[0]
	if p.field != "" {
		args := []string{}
		for _, f := range p.s.Fields {
			g := structGet(p.s, f.Name, t)
			if f.Name == p.field {
				g = x.update(g, proj[1:], nv)
			}
			args = append(args, g)
		}
		return app("mk_"+p.s.Name, args...)
	}
	return supd(p.s, t, p.idx, x.update(sat(p.s, t, p.idx), proj[1:], nv))
}

func (x *Ctx) store(a *Val, v *Val, p token.Pos) {
	if a.lv == nil {
		ps := x.v.ss.pointee(a.s)
		x.nilCheck(a.t, p)
		if ps.K == 'S' {
			x.storeStruct(ps, a.t, x.term(v), p)
			return
		}
		x.storeComp("P_"+ps.id(), ps, a.t, x.term(v), p)
		return
	}
	lv := a.lv
	if lv.addr == "" {
		if lv.cellV != nil {
			x.setCell(lv.cellV, x.update(x.term(&Val{cell: lv.cellV.cell, s: lv.cellV.s}), shiftProj(lv), x.term(v)), p)
			return
		}
		if strings.HasPrefix(lv.key, "V_") {
			x.frameCheck(lv.key, "", p)
			x.writes = append(x.writes, writeRec{lv.key, ""})
		} else {
			x.writes = append(x.writes, writeRec{lv.key, ""})
		}
		root := x.get(x.st, lv.key, x.rootSort(lv))
		x.st.m[lv.key] = x.define(lv.key, x.rootSort(lv), x.update(root, lv.proj, x.term(v)))
		return
	}
	if lv.s.K == 'S' {
		x.storeStruct(lv.s, lv.addr, x.term(v), p)
		return
	}
	if lv.init {
		// first store to a field of an object allocated in this block: the
		// component is unconstrained there, so its value can be assumed
		x.assume(eq(app("select", x.get(x.st, lv.key, arrOf(lv.s)), lv.addr), x.term(v)))
		return
	}
	x.storeComp(lv.key, lv.s, lv.addr, x.term(v), p)
}

func shiftProj(lv *LV) []Proj {
	if lv.cellV.view && len(lv.proj) > 0 {
		ps := append([]Proj{}, lv.proj...)
		ps[0].idx = add(lv.cellV.lo, ps[0].idx)
		return ps
	}
	return lv.proj
}

// setCell replaces the contents of a mutable slice.
func (x *Ctx) setCell(c *Val, t string, p token.Pos) {
	if c.param {
		x.oblige("frame", "writes to the caller's slice", p, "false", "", nil)
	}
	x.writes = append(x.writes, writeRec{c.cell, ""})
	x.st.m[c.cell] = x.define(c.cell, c.s, t)
	if c.wb != nil {
		x.store(&Val{lv: c.wb}, tval(x.st.m[c.cell], c.s), p)
	}
}

func (x *Ctx) storeStruct(s *Sort, addr, t string, p token.Pos) {
	for _, f := range s.Fields {
		ft := structGet(s, f.Name, t)
		if f.S.K == 'S' {
			x.storeStruct(f.S, x.v.subAddr(s, f.Name, addr), ft, p)
			continue
		}
		x.storeComp(fieldKey(s, f.Name), f.S, addr, ft, p)
	}
}

func (x *Ctx) storeComp(key string, s *Sort, addr, t string, p token.Pos) {
	x.frameCheck(key, addr, p)
	x.writes = append(x.writes, writeRec{key, addr})
	c := x.get(x.st, key, arrOf(s))
	x.st.m[key] = x.define(key, arrOf(s), app("store", c, addr, t))
}

// frameCheck: a store must hit fresh memory or something the contract lists.
func (x *Ctx) frameCheck(key, addr string, p token.Pos) {
	if x.dry > 0 || x.con == nil {
		return
	}
	var alts []string
	if addr != "" {
		alts = append(alts, app(">=", app("base", addr), x.a0))
	}
	for _, m := range x.modf {
		switch m.kind {
		case "global":
			if m.key == key {
				return
			}
		case "field", "map", "trie":
			if m.keys[key] && addr != "" {
				alts = append(alts, eq(addr, m.addr))
			}
		case "elems":
			if m.keys[key] && addr != "" {
				alts = append(alts, eq(app("base", addr), m.base))
			}
		case "all":
			if addr != "" {
				alts = append(alts, eq(app("base", addr), m.base))
			}
		}
	}
	x.oblige("frame", "writes only what it may: "+key, p, or(alts...), "", nil)
}

func (x *Ctx) nilCheck(t string, p token.Pos) {
	if n, ok := isNum(t); ok && n == 0 {
		x.oblige("safe", "nil dereference", p, "false", "", nil)
		return
	}
	x.oblige("safe", "no nil dereference", p, not(eq(t, "0")), "", nil)
}

// allocRef allocates a fresh reference.
func (x *Ctx) allocRef(hint string) string {
	a := x.get(x.st, "A", sInt)
	p := x.newConst(hint, sInt)
	x.assume(eq(p, a))
	x.assume(eq(app("base", p), p))
	x.assume(app(">", p, "0"))
	na := x.newConst("A", sInt)
	x.raw(eq(na, add(a, "1")))
	x.st.m["A"] = na
	x.writes = append(x.writes, writeRec{"A", ""})
	return p
}

// edge sends control from the current block to another.
func (x *Ctx) edge(fr *Frame, from, to *ssa.BasicBlock, cond string) {
	if cond == "false" && x.dry == 0 {
		return
	}
	if lr := fr.runs[to]; lr != nil && lr.info.blocks[from] {
		x.backEdge(fr, lr, from, cond)
		return
	}
	fr.in[to] = append(fr.in[to], &inEdge{from, x.cur, cond, x.st.clone()})
}

func rpo(fn *ssa.Function) []*ssa.BasicBlock {
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			if !seen[b.Succs[i]] {
				dfs(b.Succs[i])
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i, j := 0, len(post)-1; i < j; i, j = i+1, j-1 {
		post[i], post[j] = post[j], post[i]
	}
	return post
}

func findLoops(fn *ssa.Function, order []*ssa.BasicBlock) map[*ssa.BasicBlock]*loopInfo {
	loops := map[*ssa.BasicBlock]*loopInfo{}
	for _, b := range order {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := loops[s]
				if l == nil {
					l = &loopInfo{head: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					loops[s] = l
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					c := work[len(work)-1]
					work = work[:len(work)-1]
					if l.blocks[c] {
						continue
					}
					l.blocks[c] = true
					work = append(work, c.Preds...)
				}
			}
		}
	}
	for _, l := range loops {
		for _, b := range order {
			if l.blocks[b] {
				l.order = append(l.order, b)
			}
		}
	}
	return loops
}

// runBody executes a frame from the current block and state.
func (x *Ctx) runBody(fr *Frame) {
	order := rpo(fr.fn)
	fr.loops = findLoops(fr.fn, order)
	fr.in = map[*ssa.BasicBlock][]*inEdge{}
	fr.runs = map[*ssa.BasicBlock]*loopRun{}
	fr.in[fr.fn.Blocks[0]] = []*inEdge{{nil, x.cur, "true", x.st}}
	x.runBlocks(fr, order)
}

func (x *Ctx) runBlocks(fr *Frame, order []*ssa.BasicBlock) {
	for _, b := range order {
		ins := fr.in[b]
		if len(ins) == 0 {
			continue
		}
		if l := fr.loops[b]; l != nil && fr.runs[b] == nil {
			x.enterLoop(fr, l, ins)
		} else if l != nil {
			// dry run start: state and phis already set
			lr := fr.runs[b]
			x.join(ins)
			for p, tv := range lr.phiHead {
				fr.env[p] = tval(tv.t, tv.s)
			}
		} else {
			x.join(ins)
			x.phis(fr, b, ins)
		}
		x.instrs(fr, b)
		if l := fr.loops[b]; l != nil {
			_ = l
		}
	}
}

func predIndex(b, from *ssa.BasicBlock) int {
	for i, p := range b.Preds {
		if p == from {
			return i
		}
	}
	return -1
}

// edgeIndex finds which predecessor slot an edge uses (duplicate edges share values).
func (x *Ctx) phis(fr *Frame, b *ssa.BasicBlock, ins []*inEdge) {
	type pv struct {
		p *ssa.Phi
		v *Val
	}
	var out []pv
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		out = append(out, pv{p, x.mergePhi(fr, p, b, ins)})
	}
	for _, o := range out {
		fr.env[o.p] = x.bind(fr, o.p, o.v)
	}
}

func (x *Ctx) mergePhi(fr *Frame, p *ssa.Phi, b *ssa.BasicBlock, ins []*inEdge) *Val {
	s := x.v.ss.of(p.Type())
	var vs []*Val
	for _, e := range ins {
		i := predIndex(b, e.from)
		vs = append(vs, x.val(fr, p.Edges[i]))
	}
	return x.mergeVals(ins, vs, s, phiName(p))
}

func phiName(p *ssa.Phi) string {
	if p.Comment != "" && !strings.ContainsAny(p.Comment, " &|") {
		return p.Comment
	}
	return p.Name()
}

// bind registers a computed value, turning it into a cell when it is mutated in place.
func (x *Ctx) bind(fr *Frame, r ssa.Value, v *Val) *Val {
	if v != nil && v.s != nil && v.s.K == 'Q' && v.lv == nil && fr.mut[r] && v.cell == "" {
		return x.newCell(r.Name(), v.s, v.t)
	}
	return v
}

func (x *Ctx) newCell(hint string, s *Sort, t string) *Val {
	x.nc++
	key := fmt.Sprintf("cell_%s_%d_%s", mangle(hint), x.nc, s.id())
	x.v.noteComp(key, s)
	x.st.m[key] = x.define(key, s, t)
	x.writes = append(x.writes, writeRec{key, ""})
	return &Val{cell: key, s: s}
}

func (x *Ctx) instrs(fr *Frame, b *ssa.BasicBlock) {
	for _, in := range b.Instrs {
		switch i := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.If:
			c := x.term(x.val(fr, i.Cond))
			x.edge(fr, b, b.Succs[0], c)
			x.edge(fr, b, b.Succs[1], not(c))
		case *ssa.Jump:
			x.edge(fr, b, b.Succs[0], "true")
		case *ssa.Return:
			var vs []*Val
			for _, r := range i.Results {
				v := x.val(fr, r)
				if v.cell != "" {
					v = tval(x.term(v), v.s)
				}
				vs = append(vs, v)
			}
			fr.rets = append(fr.rets, retEdge{x.cur, x.st.clone(), vs, i.Pos()})
		case *ssa.Panic:
			x.oblige("safe", "panic is unreachable", i.Pos(), "false", "", nil)
		case ssa.Value:
			v := x.value(fr, i)
			if v == nil {
				continue
			}
			fr.env[i] = x.bind(fr, i, v)
		default:
			x.effect(fr, in)
		}
	}
}

func (x *Ctx) effect(fr *Frame, in ssa.Instruction) {
	switch i := in.(type) {
	case *ssa.Store:
		x.store(x.val(fr, i.Addr), x.val(fr, i.Val), i.Pos())
	case *ssa.MapUpdate:
		m := x.val(fr, i.Map)
		x.mapStore(m, x.term(x.val(fr, i.Key)), x.term(x.val(fr, i.Value)), i.Pos())
	case *ssa.RunDefers:
	default:
		x.unsupported(in.Pos(), fmt.Sprintf("instruction %T", in))
	}
}

func (x *Ctx) mapComps(s *Sort) (md, mv, ml string) {
	k := mapKey(s)
	return "MD_" + k, "MV_" + k, "ML_" + k
}

func (x *Ctx) mapStore(m *Val, k, v string, p token.Pos) {
	md, mv, ml := x.mapComps(m.s)
	t := x.term(m)
	x.oblige("safe", "no write to a nil map", p, not(eq(t, "0")), "", nil)
	x.frameCheck(md, t, p)
	D := x.get(x.st, md, domArr(m.s))
	V := x.get(x.st, mv, mapArr(m.s))
	L := x.get(x.st, ml, arrOf(sInt))
	x.writes = append(x.writes, writeRec{md, t}, writeRec{mv, t}, writeRec{ml, t})
	x.st.m[ml] = x.define(ml, arrOf(sInt), app("store", L, t, ite(app("select", app("select", D, t), k), app("select", L, t), add(app("select", L, t), "1"))))
	x.st.m[md] = x.define(md, domArr(m.s), app("store", D, t, app("store", app("select", D, t), k, "true")))
	x.st.m[mv] = x.define(mv, mapArr(m.s), app("store", V, t, app("store", app("select", V, t), k, v)))
}

func (x *Ctx) mapDelete(m *Val, k string, p token.Pos) {
	md, _, ml := x.mapComps(m.s)
	t := x.term(m)
	D := x.get(x.st, md, domArr(m.s))
	L := x.get(x.st, ml, arrOf(sInt))
	// delete on a nil map is a no-op: the empty domain stays empty
	x.nilMap(m)
	x.frameCheckIf(md, t, p, not(eq(t, "0")))
	x.writes = append(x.writes, writeRec{md, t}, writeRec{ml, t})
	x.st.m[ml] = x.define(ml, arrOf(sInt), app("store", L, t, ite(app("select", app("select", D, t), k), sub(app("select", L, t), "1"), app("select", L, t))))
	x.st.m[md] = x.define(md, domArr(m.s), app("store", D, t, app("store", app("select", D, t), k, "false")))
}

func (x *Ctx) frameCheckIf(key, addr string, p token.Pos, cond string) {
	x.when = cond
	x.frameCheck(key, addr, p)
	x.when = ""
}

// nilMap records that the nil map is empty.
func (x *Ctx) nilMap(m *Val) {
	t := x.term(m)
	md, mv, _ := x.mapComps(m.s)
	D := x.get(x.st, md, domArr(m.s))
	V := x.get(x.st, mv, mapArr(m.s))
	_ = V
	x.assume(implies(eq(t, "0"), eq(app("select", D, t), constArr(domArr(m.s).Elem, "false"))))
}

func constArr(s *Sort, v string) string {
	return "((as const " + s.SMT() + ") " + v + ")"
}

func (x *Ctx) value(fr *Frame, in ssa.Value) *Val {
	s := func() *Sort { return x.v.ss.of(in.Type()) }
	switch i := in.(type) {
	case *ssa.Alloc:
		return x.alloc(fr, i)
	case *ssa.BinOp:
		return x.binop(fr, i)
	case *ssa.UnOp:
		a := x.val(fr, i.X)
		switch i.Op {
		case token.MUL:
			r := x.load(a, s(), i.Pos())
			if r.s.K == 'Q' && fr.mut[i] && a.lv != nil {
				c := x.newCell(i.Name(), r.s, r.t)
				c.wb = a.lv
				return c
			}
			return r
		case token.NOT:
			return tval(not(x.term(a)), sBool)
		case token.SUB:
			if a.s.K == 'R' {
				return tval(app("fneg", x.term(a)), a.s)
			}
			return tval(x.wrap(app("-", x.term(a)), a.s), a.s)
		}
		x.unsupported(i.Pos(), "operator "+i.Op.String())
		return tval(x.newConst("u", s()), s())
	case *ssa.ChangeType:
		a := x.val(fr, i.X)
		c := *a
		c.s = s()
		return &c
	case *ssa.Convert:
		return x.convert(fr, i)
	case *ssa.MultiConvert:
		x.unsupported(i.Pos(), "conversion")
		return tval(x.newConst("u", s()), s())
	case *ssa.ChangeInterface:
		a := x.val(fr, i.X)
		return a
	case *ssa.MakeInterface:
		a := x.val(fr, i.X)
		n := x.newConst("if", sRef)
		x.assume(not(eq(n, "0")))
		return &Val{t: n, s: sRef, iface: a, ityp: i.X.Type()}
	case *ssa.FieldAddr:
		return x.fieldAddr(fr, i)
	case *ssa.Field:
		a := x.val(fr, i.X)
		f := a.s.Fields[i.Field]
		return x.wf(tval(structGet(a.s, f.Name, x.term(a)), f.S))
	case *ssa.IndexAddr:
		return x.indexAddr(fr, i)
	case *ssa.Index:
		a := x.val(fr, i.X)
		ix := x.term(x.val(fr, i.Index))
		x.bounds(ix, slen(a.s, x.term(a)), i.Pos())
		return x.wf(tval(sat(a.s, x.term(a), ix), a.s.Elem))
	case *ssa.Slice:
		return x.slice(fr, i)
	case *ssa.MakeSlice:
		return x.makeSlice(fr, i)
	case *ssa.MakeMap:
		m := s()
		p := x.allocRef("map")
		md, _, ml := x.mapComps(m)
		x.assume(eq(app("select", x.get(x.st, md, domArr(m)), p), constArr(domArr(m).Elem, "false")))
		// a missing key reads as the zero value
		x.assume(eq(app("select", x.get(x.st, ml, arrOf(sInt)), p), "0"))
		return tval(p, m)
	case *ssa.Lookup:
		a := x.val(fr, i.X)
		k := x.term(x.val(fr, i.Index))
		if a.s.K == 'Q' {
			x.bounds(k, slen(a.s, x.term(a)), i.Pos())
			return x.wf(tval(sat(a.s, x.term(a), k), &Sort{K: 'I', Bits: 8}))
		}
		md, mv, _ := x.mapComps(a.s)
		x.nilMap(a)
		d := app("select", app("select", x.get(x.st, md, domArr(a.s)), x.term(a)), k)
		v := ite(d, app("select", app("select", x.get(x.st, mv, mapArr(a.s)), x.term(a)), k), x.v.ss.zero(a.s.Elem))
		r := x.wf(tval(x.define("lk", a.s.Elem, v), a.s.Elem))
		x.entryRef(r, x.get(x.st, mv, mapArr(a.s)), x.term(a))
		if i.CommaOk {
			return &Val{tuple: []*Val{r, tval(x.define("ok", sBool, d), sBool)}}
		}
		return r
	case *ssa.Range:
		return x.rng(fr, i)
	case *ssa.Next:
		return x.next(fr, i)
	case *ssa.Extract:
		t := x.val(fr, i.Tuple)
		return t.tuple[i.Index]
	case *ssa.Call:
		return x.call(fr, i, i.Common(), i)
	case *ssa.MakeClosure:
		var bs []*Val
		for _, b := range i.Bindings {
			bs = append(bs, x.val(fr, b))
		}
		x.nc++
		id := fmt.Sprint(1000 + x.nc)
		return &Val{t: id, s: sRef, fns: []fnAlt{{id, i.Fn.(*ssa.Function), bs}}}
	case *ssa.TypeAssert:
		x.unsupported(i.Pos(), "type assertion")
		if i.CommaOk {
			return &Val{tuple: []*Val{tval(x.newConst("ta", x.v.ss.of(i.AssertedType)), x.v.ss.of(i.AssertedType)), tval(x.newConst("ok", sBool), sBool)}}
		}
		return tval(x.newConst("ta", s()), s())
	}
	x.unsupported(in.Pos(), fmt.Sprintf("instruction %T", in))
	return tval(x.newConst("u", s()), s())
}

func (x *Ctx) bounds(i, n string, p token.Pos) {
	x.oblige("safe", "index in range", p, and(app("<=", "0", i), app("<", i, n)), "", nil)
}

var bufTypes = map[string]bool{"bytes.Buffer": true, "strings.Builder": true}

func (x *Ctx) alloc(fr *Frame, i *ssa.Alloc) *Val {
	et := i.Type().(*types.Pointer).Elem()
	if bufTypes[tstr(et)] {
		p := x.allocRef("buf")
		x.assume(eq(app("select", x.get(x.st, "G_buf", arrOf(sSeqInt)), p), "empty_Int"))
		return tval(p, x.v.ss.of(i.Type()))
	}
	s := x.v.ss.of(et)
	if x.localUse(i, 0) {
		x.nc++
		key := fmt.Sprintf("cell_%s_%d_%s", mangle(i.Name()), x.nc, s.id())
		x.v.noteComp(key, s)
		x.st.m[key] = x.v.ss.zero(s)
		x.writes = append(x.writes, writeRec{key, ""})
		return &Val{lv: &LV{key: key, s: s}, s: x.v.ss.of(i.Type())}
	}
	p := x.allocRef("new")
	skip := map[string]bool{}
	if s.K == 'S' {
		skip = initStores(i, s)
	}
	x.zeroAt(s, p, skip)
	return tval(p, x.v.ss.of(i.Type()))
}

// initStores finds fields whose first access is a store in the allocating block.
func initStores(a *ssa.Alloc, s *Sort) map[string]bool {
	r := map[string]bool{}
	for _, ref := range *a.Referrers() {
		fa, ok := ref.(*ssa.FieldAddr)
		if !ok || fa.Block() != a.Block() {
			continue
		}
		refs := *fa.Referrers()
		if len(refs) != 1 {
			continue
		}
		st, ok := refs[0].(*ssa.Store)
		if !ok || st.Addr != fa || st.Block() != a.Block() {
			continue
		}
		n := s.Fields[fa.Field].Name
		if s.Fields[fa.Field].S.K == 'S' {
			continue
		}
		if r[n] {
			delete(r, n) // stored twice: not an initialising store
			r[n+"!"] = true
			continue
		}
		if r[n+"!"] {
			continue
		}
		// nothing between the allocation and the store may see the object
		seen := true
		for _, in := range a.Block().Instrs {
			if in == ssa.Instruction(a) {
				seen = false
				continue
			}
			if seen {
				continue
			}
			if in == ssa.Instruction(st) {
				break
			}
			for _, op := range in.Operands(nil) {
				if *op == ssa.Value(a) {
					if _, ok := in.(*ssa.FieldAddr); !ok {
						seen = true
					}
				}
			}
			if seen {
				break
			}
		}
		if !seen {
			r[n] = true
		}
	}
	return r
}

func (x *Ctx) zeroAt(s *Sort, p string, skip map[string]bool) {
	if s.K != 'S' {
		x.assume(eq(app("select", x.get(x.st, "P_"+s.id(), arrOf(s)), p), x.v.ss.zero(s)))
		return
	}
	for _, f := range s.Fields {
		if skip[f.Name] {
			continue
		}
		if f.S.K == 'S' {
			x.zeroAt(f.S, x.v.subAddr(s, f.Name, p), nil)
			continue
		}
		x.assume(eq(app("select", x.get(x.st, fieldKey(s, f.Name), arrOf(f.S)), p), x.v.ss.zero(f.S)))
	}
}

// localUse: the address never leaves the function (nor its inlined callees).
func (x *Ctx) localUse(v ssa.Value, depth int) bool {
	if depth > 6 || v.Referrers() == nil {
		return false
	}
	for _, r := range *v.Referrers() {
		switch i := r.(type) {
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.Store:
			if i.Val == v {
				return false
			}
		case *ssa.FieldAddr:
			if !x.localUse(i, depth+1) {
				return false
			}
		case *ssa.IndexAddr:
			if !x.localUse(i, depth+1) {
				return false
			}
		case *ssa.Slice:
			if _, ok := v.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array); !ok {
				return false
			}
		case *ssa.Call:
			f := i.Common().StaticCallee()
			if f == nil || !x.v.inlinable(f) {
				return false
			}
			for k, a := range i.Common().Args {
				if a == v && (k >= len(f.Params) || !x.localUse(f.Params[k], depth+1)) {
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}

func (x *Ctx) fieldAddr(fr *Frame, i *ssa.FieldAddr) *Val {
	a := x.val(fr, i.X)
	st := x.v.ss.of(i.X.Type().Underlying().(*types.Pointer).Elem())
	f := st.Fields[i.Field]
	rs := x.v.ss.of(i.Type())
	if a.lv != nil && a.lv.addr == "" {
		lv := *a.lv
		lv.proj = append(append([]Proj{}, lv.proj...), Proj{field: f.Name, s: st})
		lv.s = f.S
		return &Val{lv: &lv, s: rs}
	}
	var p string
	if a.lv != nil {
		p = a.lv.addr
	} else {
		p = a.t
		x.nilCheck(p, i.Pos())
	}
	if f.S.K == 'S' {
		return &Val{t: x.v.subAddr(st, f.Name, p), s: rs}
	}
	lv := &LV{key: fieldKey(st, f.Name), s: f.S, addr: p}
	if al, ok := i.X.(*ssa.Alloc); ok && initStores(al, st)[f.Name] && i.Block() == al.Block() {
		if refs := *i.Referrers(); len(refs) == 1 {
			if sto, ok := refs[0].(*ssa.Store); ok && sto.Addr == ssa.Value(i) {
				lv.init = true
			}
		}
	}
	return &Val{lv: lv, s: rs}
}

func (x *Ctx) indexAddr(fr *Frame, i *ssa.IndexAddr) *Val {
	a := x.val(fr, i.X)
	ix := x.term(x.val(fr, i.Index))
	rs := x.v.ss.of(i.Type())
	if a.lv != nil && a.s.K == 'P' { // pointer to array
		arr := x.v.ss.of(i.X.Type().Underlying().(*types.Pointer).Elem())
		x.bounds(ix, num(arr.ArrLen), i.Pos())
		lv := *a.lv
		lv.proj = append(append([]Proj{}, lv.proj...), Proj{idx: ix, s: arr})
		lv.s = arr.Elem
		return &Val{lv: &lv, s: rs}
	}
	switch a.s.K {
	case 'Q':
		t := x.term(a)
		x.bounds(ix, slen(a.s, t), i.Pos())
		if a.cell != "" {
			return &Val{lv: &LV{s: a.s.Elem, cellV: a, proj: []Proj{{idx: ix, s: a.s}}}, s: rs}
		}
		// read-only element address
		return &Val{lv: &LV{s: a.s.Elem, cellV: a, proj: []Proj{{idx: ix, s: a.s}}}, s: rs}
	case 'H':
		t := x.term(a)
		x.bounds(ix, app("sllen", t), i.Pos())
		addr := app("elo", app("slref", t), app("sloff", t), ix)
		// an element in range has an address
		x.assume(not(eq(addr, "0")))
		if a.s.Elem.K == 'S' {
			return &Val{t: x.define("ea", sInt, addr), s: rs}
		}
		return &Val{lv: &LV{key: elemKey(a.s.Elem), s: a.s.Elem, addr: x.define("ea", sInt, addr)}, s: rs}
	}
	x.unsupported(i.Pos(), "element address")
	return &Val{t: x.newConst("u", sInt), s: rs}
}

func (x *Ctx) slice(fr *Frame, i *ssa.Slice) *Val {
	a := x.val(fr, i.X)
	rs := x.v.ss.of(i.Type())
	lo, hi := "0", ""
	if i.Low != nil {
		lo = x.term(x.val(fr, i.Low))
	}
	if a.s.K == 'P' { // pointer to array
		arr := x.v.ss.of(i.X.Type().Underlying().(*types.Pointer).Elem())
		content := x.load(a, arr, i.Pos())
		hi = num(arr.ArrLen)
		if i.High != nil {
			hi = x.term(x.val(fr, i.High))
		}
		if rs.K == 'H' {
			// copy into a fresh backing array
			return x.heapSliceFrom(rs, x.term(content), arr, i.Pos())
		}
		x.sliceBounds(lo, hi, num(arr.ArrLen), i.Pos())
		return tval(x.arrayLit(fr, i, arr, x.term(content), lo, hi), rs)
	}
	if a.s.K == 'H' {
		t := x.term(a)
		n := app("sllen", t)
		hi = n
		if i.High != nil {
			hi = x.term(x.val(fr, i.High))
		}
		x.sliceBounds(lo, hi, n, i.Pos())
		return tval(x.define("sl", rs, app("mkslc", app("slref", t), add(app("sloff", t), lo), sub(hi, lo))), rs)
	}
	n := slen(a.s, x.term(a))
	hi = n
	if i.High != nil {
		hi = x.term(x.val(fr, i.High))
	}
	x.sliceBounds(lo, hi, n, i.Pos())
	if a.cell != "" && fr.mut[i] {
		v := *a
		v.view = true
		if a.view {
			v.lo, v.hi = add(a.lo, lo), add(a.lo, hi)
		} else {
			v.lo, v.hi = lo, hi
		}
		v.s = rs
		return &v
	}
	return tval(x.define("sub", rs, ssub(a.s, x.term(a), lo, hi)), rs)
}

// arrayLit simplifies the contents of a freshly stored literal array.
func (x *Ctx) arrayLit(fr *Frame, i *ssa.Slice, arr *Sort, t, lo, hi string) string {
	if lo != "0" || hi != num(arr.ArrLen) {
		return x.define("sub", arr, ssub(arr, t, lo, hi))
	}
	if arr.ArrLen <= 16 {
		u := ""
		for k := int64(arr.ArrLen) - 1; k >= 0; k-- {
			e := sunit(arr, readUpd(arr, t, num(k), x))
			if u == "" {
				u = e
			} else {
				u = scat(arr, e, u)
			}
		}
		if u == "" {
			u = sempty(arr)
		}
		return x.define("lit", arr, u)
	}
	return t
}

// readUpd reads element k of an update chain syntactically when possible.
func readUpd(s *Sort, t, k string, x *Ctx) string {
	for depth := 0; depth < 40; depth++ {
		if f, ok := x.defOf(t); ok {
			t = f
		}
		if strings.HasPrefix(t, "(upd_") {
			n := parseSx(t)
			if n.list[2].String() == k {
				return n.list[3].String()
			}
			if _, ok := isNum(n.list[2].String()); ok {
				t = n.list[1].String()
				continue
			}
		}
		break
	}
	return sat(s, t, k)
}

// defOf finds the defining equation of a constant.
func (x *Ctx) defOf(c string) (string, bool) {
	if strings.Contains(c, " ") {
		return "", false
	}
	for j := len(x.facts) - 1; j >= 0; j-- {
		f := x.facts[j]
		if f.raw && strings.HasPrefix(f.t, "(= "+c+" ") {
			return f.t[len("(= "+c+" ") : len(f.t)-1], true
		}
	}
	return "", false
}

func (x *Ctx) heapSliceFrom(rs *Sort, t string, arr *Sort, p token.Pos) *Val {
	ref := x.allocRef("arr")
	for k := int64(0); k < arr.ArrLen; k++ {
		e := readUpd(arr, t, num(k), x)
		a := app("elo", ref, "0", num(k))
		x.elemAssume(rs.Elem, a, e)
	}
	return tval(app("mkslc", ref, "0", num(arr.ArrLen)), rs)
}

// elemAssume fixes the contents of a fresh element.
func (x *Ctx) elemAssume(es *Sort, addr, t string) {
	if es.K == 'S' {
		for _, f := range es.Fields {
			x.elemFieldAssume(es, f, addr, structGet(es, f.Name, t))
		}
		return
	}
	x.assume(eq(app("select", x.get(x.st, elemKey(es), arrOf(es)), addr), t))
}

func (x *Ctx) elemFieldAssume(es *Sort, f SField, addr, t string) {
	if f.S.K == 'S' {
		for _, g := range f.S.Fields {
			x.elemFieldAssume(f.S, g, x.v.subAddr(es, f.Name, addr), structGet(f.S, g.Name, t))
		}
		return
	}
	x.assume(eq(app("select", x.get(x.st, fieldKey(es, f.Name), arrOf(f.S)), addr), t))
}

func (x *Ctx) sliceBounds(lo, hi, n string, p token.Pos) {
	var gs []string
	if lo != "0" {
		gs = append(gs, app("<=", "0", lo))
	}
	if lo != hi && lo != "0" {
		gs = append(gs, app("<=", lo, hi))
	}
	if lo == "0" && hi != n {
		gs = append(gs, app("<=", "0", hi))
	}
	if hi != n {
		gs = append(gs, app("<=", hi, n))
	}
	x.oblige("safe", "slice bounds in range", p, and(gs...), "", nil)
}

func (x *Ctx) makeSlice(fr *Frame, i *ssa.MakeSlice) *Val {
	rs := x.v.ss.of(i.Type())
	n := x.term(x.val(fr, i.Len))
	c := x.term(x.val(fr, i.Cap))
	x.oblige("safe", "make: length is not negative", i.Pos(), app("<=", "0", n), "", nil)
	if c != n {
		x.oblige("safe", "make: length within capacity", i.Pos(), app("<=", n, c), "", nil)
	}
	if rs.K == 'H' {
		ref := x.allocRef("arr")
		x.v.nbound++
		k := fmt.Sprintf("k_b%d", x.v.nbound)
		a := "(elo " + ref + " 0 " + k + ")"
		var z func(es *Sort, addr string)
		z = func(es *Sort, addr string) {
			if es.K == 'S' {
				for _, f := range es.Fields {
					if f.S.K == 'S' {
						z(f.S, x.v.subAddr(es, f.Name, addr))
						continue
					}
					sel := app("select", x.get(x.st, fieldKey(es, f.Name), arrOf(f.S)), addr)
					x.assume("(forall ((" + k + " Int)) (! " + eq(sel, x.v.ss.zero(f.S)) + " :pattern (" + sel + ")))")
				}
				return
			}
			sel := app("select", x.get(x.st, elemKey(es), arrOf(es)), addr)
			x.assume("(forall ((" + k + " Int)) (! " + eq(sel, x.v.ss.zero(es)) + " :pattern (" + sel + ")))")
		}
		if n != "0" {
			z(rs.Elem, a)
		}
		return tval(x.define("sl", rs, app("mkslc", ref, "0", n)), rs)
	}
	if k, ok := isNum(n); ok && k == 0 {
		return tval(sempty(rs), rs)
	}
	return tval(x.define("mk", rs, app("rep_"+rs.Elem.id(), x.v.ss.zero(rs.Elem), n)), rs)
}

func (x *Ctx) rng(fr *Frame, i *ssa.Range) *Val {
	a := x.val(fr, i.X)
	x.nc++
	if a.s.K == 'Q' {
		key := fmt.Sprintf("it_%d", x.nc)
		x.v.noteComp(key, sInt)
		x.st.m[key] = "0"
		x.writes = append(x.writes, writeRec{key, ""})
		r := x.define("runes", sSeqInt, app("dec", x.term(a)))
		return &Val{iter: &Iter{str: true, runes: r, cnt: key, src: x.term(a)}, s: sRef}
	}
	key := fmt.Sprintf("vis_%d", x.nc)
	vs := &Sort{K: 'A', Key: a.s.Key, Elem: sBool}
	x.v.noteComp(key, vs)
	x.st.m[key] = constArr(vs, "false")
	x.writes = append(x.writes, writeRec{key, ""})
	md, _, _ := x.mapComps(a.s)
	x.nilMap(a)
	d0 := x.define("dom0", vs, app("select", x.get(x.st, md, domArr(a.s)), x.term(a)))
	return &Val{iter: &Iter{m: a, vis: key, dom0: d0}, s: sRef}
}

func (x *Ctx) next(fr *Frame, i *ssa.Next) *Val {
	it := x.val(fr, i.Iter).iter
	if it.str {
		c := x.st.m[it.cnt]
		ok := x.define("ok", sBool, app("<", c, slen(sSeqInt, it.runes)))
		r := x.define("r", sInt, sat(sSeqInt, it.runes, c))
		off := x.newConst("off", sInt)
		x.assume(implies(ok, and(app("<=", "0", off), app("<", off, slen(sSeqInt, it.src)))))
		x.st.m[it.cnt] = x.define(it.cnt, sInt, add(c, "1"))
		x.writes = append(x.writes, writeRec{it.cnt, ""})
		return &Val{tuple: []*Val{tval(ok, sBool), tval(off, sInt), tval(r, sInt)}}
	}
	m := it.m
	md, mv, _ := x.mapComps(m.s)
	D := app("select", x.get(x.st, md, domArr(m.s)), x.term(m))
	V := app("select", x.get(x.st, mv, mapArr(m.s)), x.term(m))
	vis := x.st.m[it.vis]
	ok := x.newConst("ok", sBool)
	k := x.newConst("k", m.s.Key)
	x.assume(implies(ok, and(app("select", D, k), not(app("select", vis, k)))))
	x.v.nbound++
	q := fmt.Sprintf("q_b%d", x.v.nbound)
	x.assume(implies(not(ok), fmt.Sprintf("(forall ((%s %s)) (! (=> (and (select %s %s) (select %s %s)) (select %s %s)) :pattern ((select %s %s)) :pattern ((select %s %s))))",
		q, m.s.Key.SMT(), it.dom0, q, D, q, vis, q, vis, q, D, q)))
	v := x.wf(tval(x.define("mv", m.s.Elem, app("select", V, k)), m.s.Elem))
	vs := x.v.compSorts[it.vis]
	x.st.m[it.vis] = x.define(it.vis, vs, app("store", vis, k, "true"))
	x.writes = append(x.writes, writeRec{it.vis, ""})
	return &Val{tuple: []*Val{tval(ok, sBool), x.wf(tval(k, m.s.Key)), v}}
}

// wrap reduces machine integers of 8 and 16 bits.
func (x *Ctx) wrap(t string, s *Sort) string {
	switch s.Bits {
	case 8:
		if n, ok := isNum(t); ok && n >= 0 && n < 256 {
			return t
		}
		return "(mod " + t + " 256)"
	case 16:
		if n, ok := isNum(t); ok && n >= 0 && n < 65536 {
			return t
		}
		return "(mod " + t + " 65536)"
	}
	return t
}

func (x *Ctx) convert(fr *Frame, i *ssa.Convert) *Val {
	a := x.val(fr, i.X)
	rs := x.v.ss.of(i.Type())
	from, to := i.X.Type().Underlying(), i.Type().Underlying()
	isStr := func(t types.Type) bool {
		b, ok := t.(*types.Basic)
		return ok && b.Info()&types.IsString != 0
	}
	elemKind := func(t types.Type) types.BasicKind {
		if s, ok := t.(*types.Slice); ok {
			if b, ok := s.Elem().Underlying().(*types.Basic); ok {
				return b.Kind()
			}
		}
		return types.Invalid
	}
	switch {
	case isStr(to) && elemKind(from) == types.Int32: // string(runes)
		return tval(x.define("enc", rs, app("enc", x.term(a))), rs)
	case isStr(from) && elemKind(to) == types.Int32: // []rune(s)
		return tval(x.define("dec", rs, app("dec", x.term(a))), rs)
	case isStr(to) && elemKind(from) == types.Uint8, isStr(from) && elemKind(to) == types.Uint8:
		return tval(x.term(a), rs)
	case isStr(to) && a.s.K == 'I':
		return tval(x.define("enc", rs, app("enc", sunit(rs, x.term(a)))), rs)
	case rs.K == 'I' && a.s.K == 'I':
		if rs.Bits != 0 && (a.s.Bits == 0 || a.s.Bits > rs.Bits) {
			return tval(x.wrap(x.term(a), rs), rs)
		}
		return tval(x.term(a), rs)
	case rs.K == 'R' && a.s.K == 'I':
		t := app("i2f", x.term(a))
		if b, ok := i.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Float32 {
			t = app("f32", t)
		}
		return tval(t, rs)
	case rs.K == 'I' && a.s.K == 'R':
		return tval(x.wrap(app("f2i", x.term(a)), rs), rs)
	case rs.K == 'R' && a.s.K == 'R':
		if i.X.Type().Underlying().(*types.Basic).Kind() == types.Float64 && i.Type().Underlying().(*types.Basic).Kind() == types.Float32 {
			return tval(app("f32", x.term(a)), rs)
		}
		return tval(x.term(a), rs)
	case isStr(from) && isStr(to):
		return tval(x.term(a), rs)
	}
	x.unsupported(i.Pos(), "conversion")
	return tval(x.newConst("cv", rs), rs)
}

func (x *Ctx) binop(fr *Frame, i *ssa.BinOp) *Val {
	a, b := x.val(fr, i.X), x.val(fr, i.Y)
	rs := x.v.ss.of(i.Type())
	real := a.s.K == 'R'
	def := func(t string) *Val { return tval(x.define(i.Name(), rs, t), rs) }
	switch i.Op {
	case token.EQL, token.NEQ:
		var t string
		switch a.s.K {
		case 'Q':
			if _, ok := i.X.Type().Underlying().(*types.Slice); ok {
				// comparison with nil: modelled as emptiness
				o := a
				if c, ok := i.X.(*ssa.Const); ok && c.Value == nil {
					o = b
				}
				t = eq(slen(o.s, x.term(o)), "0")
			} else {
				t = eq(x.term(a), x.term(b))
			}
		case 'H':
			o := a
			if c, ok := i.X.(*ssa.Const); ok && c.Value == nil {
				o = b
			}
			t = eq(app("slref", x.term(o)), "0")
		default:
			t = eq(x.term(a), x.term(b))
		}
		if i.Op == token.NEQ {
			t = not(t)
		}
		return def(t)
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		op := i.Op.String()
		if a.s.K == 'Q' {
			s, u := x.term(a), x.term(b)
			switch i.Op {
			case token.LSS:
				return def(app("strlt", s, u))
			case token.GTR:
				return def(app("strlt", u, s))
			case token.LEQ:
				return def(not(app("strlt", u, s)))
			}
			return def(not(app("strlt", s, u)))
		}
		return def(app(op, x.term(a), x.term(b)))
	case token.ADD:
		if a.s.K == 'Q' {
			return def(scat(a.s, x.term(a), x.term(b)))
		}
		if real {
			return def(app("fadd", x.term(a), x.term(b)))
		}
		return def(x.wrap(add(x.term(a), x.term(b)), rs))
	case token.SUB:
		if real {
			return def(app("fsub", x.term(a), x.term(b)))
		}
		return def(x.wrap(sub(x.term(a), x.term(b)), rs))
	case token.MUL:
		if real {
			return def(app("fmul", x.term(a), x.term(b)))
		}
		return def(x.wrap(app("*", x.term(a), x.term(b)), rs))
	case token.QUO:
		if real {
			return def(app("fdiv", x.term(a), x.term(b)))
		}
		x.oblige("safe", "no division by zero", i.Pos(), not(eq(x.term(b), "0")), "", nil)
		return def(tdiv(x.term(a), x.term(b)))
	case token.REM:
		x.oblige("safe", "no division by zero", i.Pos(), not(eq(x.term(b), "0")), "", nil)
		ta, tb := x.term(a), x.term(b)
		return def(sub(ta, app("*", tb, tdiv(ta, tb))))
	case token.AND, token.OR, token.XOR, token.SHL, token.SHR, token.AND_NOT:
		if rs.K == 'B' {
			switch i.Op {
			case token.AND:
				return def(and(x.term(a), x.term(b)))
			case token.OR:
				return def(or(x.term(a), x.term(b)))
			}
		}
		if n, ok := isNum(x.term(b)); ok && i.Op == token.SHR && n < 31 {
			return def(app("div", x.term(a), num(1<<uint(n))))
		}
		if n, ok := isNum(x.term(b)); ok && i.Op == token.SHL && n < 31 {
			return def(x.wrap(app("*", x.term(a), num(1<<uint(n))), rs))
		}
	}
	x.unsupported(i.Pos(), "operator "+i.Op.String())
	return tval(x.newConst("op", rs), rs)
}

func tdiv(a, b string) string {
	if n, ok := isNum(b); ok && n > 0 {
		return ite(app(">=", a, "0"), app("div", a, b), app("-", app("div", app("-", a), b)))
	}
	return ite(app(">=", a, "0"), app("div", a, b), app("-", app("div", app("-", a), b)))
}
