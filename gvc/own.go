package main

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Slices of plain values are treated as immutable sequences. That is exact as
// long as a write into a backing array is never seen through another slice.
// ownCheck establishes it for every function of the proof, by a flow analysis
// on the SSA form:
//
//   - a write (element store, copy, a callee that modifies elements) goes to
//     memory made in the function, or declared writable by the contract, and no
//     other slice of the same array is used afterwards;
//   - an append (which may write behind the end of its argument) extends memory
//     made in the function, or a field, variable or map entry that is written
//     back at once, no longer slice of the same array is used afterwards, and
//     nothing is appended twice to the same slice.

type ownProblem struct {
	pos token.Pos
	msg string
}

func (x *Ctx) ownCheck() {
	fns := map[*ssa.Function]bool{x.v.funcs[x.name]: true}
	for n := range x.inlined {
		if f := x.v.byShort(n); f != nil {
			fns[f] = true
		}
	}
	nf := 0
	for f := range fns {
		if f == nil || len(f.Blocks) == 0 {
			continue
		}
		for _, p := range x.v.ownProblems(f) {
			nf++
			x.obls = append(x.obls, &Obl{Kind: "own", Label: "slices are not shared: " + p.msg, Pos: x.pos(p.pos), blk: x.cur, goal: "false", fn: x.name, Res: "failed", Solver: "flow analysis", Out: shortName(f) + ": " + p.msg})
		}
	}
	if nf == 0 {
		x.obls = append(x.obls, &Obl{Kind: "own", Label: "written slices are not shared", blk: x.cur, goal: "true", fn: x.name, Res: "proved", Solver: "flow analysis"})
	}
}

func (v *Verifier) byShort(n string) *ssa.Function { return v.funcs[n] }

type ownFn struct {
	v    *Verifier
	f    *ssa.Function
	up   map[ssa.Value]ssa.Value // union-find over aliasing slice values
	vals []ssa.Value
	all  map[ssa.Value][]ssa.Value // class members
	out  []ownProblem
}

func (o *ownFn) isSeq(t types.Type) bool {
	if t == nil {
		return false
	}
	if _, ok := t.Underlying().(*types.Slice); !ok {
		return false
	}
	return o.v.ss.of(t).K == 'Q'
}

func (o *ownFn) find(x ssa.Value) ssa.Value {
	p, ok := o.up[x]
	if !ok || p == x {
		return x
	}
	r := o.find(p)
	o.up[x] = r
	return r
}

func (o *ownFn) join(a, b ssa.Value) {
	if isNil(a) || isNil(b) {
		return
	}
	if x, y := o.find(a), o.find(b); x != y {
		o.up[x] = y
	}
}

func isNil(v ssa.Value) bool { _, ok := v.(*ssa.Const); return ok }

func builtin(c *ssa.Call) string {
	if b, ok := c.Common().Value.(*ssa.Builtin); ok {
		return b.Name()
	}
	return ""
}

// ownProblems reports why a function's slices cannot be treated as values.
func (v *Verifier) ownProblems(f *ssa.Function) []ownProblem {
	if r, ok := v.owns[f]; ok {
		return r
	}
	o := &ownFn{v: v, f: f, up: map[ssa.Value]ssa.Value{}, all: map[ssa.Value][]ssa.Value{}}
	add := func(x ssa.Value) {
		if o.isSeq(x.Type()) && !isNil(x) {
			o.vals = append(o.vals, x)
		}
	}
	for _, p := range f.Params {
		add(p)
	}
	for _, p := range f.FreeVars {
		add(p)
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if x, ok := in.(ssa.Value); ok {
				add(x)
			}
		}
	}
	for _, x := range o.vals {
		switch i := x.(type) {
		case *ssa.Slice:
			if o.isSeq(i.X.Type()) {
				o.join(i, i.X)
			}
		case *ssa.ChangeType:
			o.join(i, i.X)
		case *ssa.Phi:
			for _, e := range i.Edges {
				o.join(i, e)
			}
		case *ssa.Call:
			switch builtin(i) {
			case "append":
				o.join(i, i.Common().Args[0])
			case "":
				for _, k := range v.aliasParams(i.Common()) {
					if a := i.Common().Args[k]; o.isSeq(a.Type()) {
						o.join(i, a)
					}
				}
			}
		case *ssa.UnOp:
			// loads of the same local variable
			if i.Op == token.MUL {
				if a, ok := i.X.(*ssa.Alloc); ok {
					o.joinAlloc(i, a)
				}
			}
		}
	}
	for _, x := range o.vals {
		r := o.find(x)
		o.all[r] = append(o.all[r], x)
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch i := in.(type) {
			case *ssa.Store:
				if ia, ok := rootIndex(i.Addr); ok && o.isSeq(ia.X.Type()) {
					o.write(ia.X, i)
				}
			case *ssa.Call:
				c := i.Common()
				switch builtin(i) {
				case "append":
					if o.isSeq(i.Type()) {
						o.extend(i)
					}
				case "copy":
					if o.isSeq(c.Args[0].Type()) {
						o.write(c.Args[0], i)
					}
				case "":
					for k, a := range c.Args {
						if o.isSeq(a.Type()) && v.calleeWrites(c, k) {
							o.write(a, i)
						}
						if ia, ok := rootIndex(a); ok && o.isSeq(ia.X.Type()) {
							o.write(ia.X, i)
						}
					}
				}
			}
		}
	}
	v.owns[f] = o.out
	return o.out
}

func (o *ownFn) joinAlloc(x ssa.Value, a *ssa.Alloc) {
	if a.Referrers() == nil {
		return
	}
	for _, r := range *a.Referrers() {
		if s, ok := r.(*ssa.Store); ok && s.Addr == a && o.isSeq(s.Val.Type()) {
			o.join(x, s.Val)
		}
		if u, ok := r.(*ssa.UnOp); ok && u.Op == token.MUL {
			o.join(x, u)
		}
	}
}

// rootIndex is the element address a derived address lies in.
func rootIndex(a ssa.Value) (*ssa.IndexAddr, bool) {
	for {
		switch i := a.(type) {
		case *ssa.FieldAddr:
			a = i.X
		case *ssa.IndexAddr:
			if _, ok := i.X.Type().Underlying().(*types.Pointer); ok {
				a = i.X
				continue
			}
			return i, true
		default:
			return nil, false
		}
	}
}

// calleeWrites: does the call write elements of its k-th argument?
func (v *Verifier) calleeWrites(c *ssa.CallCommon, k int) bool {
	g := c.StaticCallee()
	if g == nil {
		return false
	}
	if con := v.contractOf(g); con != nil && !con.Inline {
		if k < len(con.Params) {
			for _, md := range con.Modifies {
				if md.op == "call" && md.name == "elems" && md.args[0].name == con.Params[k] {
					return true
				}
			}
		}
		return false
	}
	if len(g.Blocks) > 0 && k < len(g.Params) {
		return v.mutSet(g)[g.Params[k]]
	}
	return false
}

// aliasParams: the arguments a call's result may share its array with.
func (v *Verifier) aliasParams(c *ssa.CallCommon) []int {
	g := c.StaticCallee()
	var all []int
	for k, a := range c.Args {
		if _, ok := a.Type().Underlying().(*types.Slice); ok {
			all = append(all, k)
		}
	}
	if g == nil {
		if c.IsInvoke() {
			return nil
		}
		return all
	}
	if len(g.Blocks) == 0 {
		return nil // libraries: their assumed contracts describe new results
	}
	if r, ok := v.alias[g]; ok {
		return r
	}
	v.alias[g] = nil
	// parameters that flow into a result
	seen := map[ssa.Value]bool{}
	hit := map[int]bool{}
	var walk func(x ssa.Value)
	walk = func(x ssa.Value) {
		if seen[x] {
			return
		}
		seen[x] = true
		switch i := x.(type) {
		case *ssa.Parameter:
			for k, p := range g.Params {
				if p == i {
					hit[k] = true
				}
			}
		case *ssa.Slice:
			walk(i.X)
		case *ssa.ChangeType:
			walk(i.X)
		case *ssa.Phi:
			for _, e := range i.Edges {
				walk(e)
			}
		case *ssa.Extract:
			walk(i.Tuple)
		case *ssa.Call:
			if builtin(i) == "append" {
				walk(i.Common().Args[0])
			} else if builtin(i) == "" {
				for _, k := range v.aliasParams(i.Common()) {
					walk(i.Common().Args[k])
				}
			}
		case *ssa.UnOp:
			if a, ok := i.X.(*ssa.Alloc); ok && a.Referrers() != nil {
				for _, r := range *a.Referrers() {
					if s, ok := r.(*ssa.Store); ok && s.Addr == a {
						walk(s.Val)
					}
				}
			}
		}
	}
	for _, b := range g.Blocks {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			for _, x := range r.Results {
				walk(x)
			}
		}
	}
	var out []int
	for k := range g.Params {
		if hit[k] {
			out = append(out, k)
		}
	}
	v.alias[g] = out
	return out
}

func (o *ownFn) bad(p token.Pos, f string, a ...any) {
	o.out = append(o.out, ownProblem{p, fmt.Sprintf(f, a...)})
}

// fresh: is x's array made by this function (or nil)?
func (o *ownFn) fresh(x ssa.Value, at ssa.Instruction, seen map[ssa.Value]bool) string {
	if seen[x] {
		return ""
	}
	seen[x] = true
	switch i := x.(type) {
	case *ssa.Const:
		return ""
	case *ssa.MakeSlice, *ssa.Convert:
		return ""
	case *ssa.Slice:
		if !o.isSeq(i.X.Type()) { // array literal
			if _, ok := i.X.(*ssa.Alloc); ok {
				return ""
			}
			return "a slice of an array"
		}
		return o.fresh(i.X, at, seen)
	case *ssa.ChangeType:
		return o.fresh(i.X, at, seen)
	case *ssa.Phi:
		for _, e := range i.Edges {
			if r := o.fresh(e, at, seen); r != "" {
				return r
			}
		}
		return ""
	case *ssa.Call:
		switch builtin(i) {
		case "append":
			return o.fresh(i.Common().Args[0], at, seen)
		case "":
			g := i.Common().StaticCallee()
			if g == nil {
				return "the result of a dynamic call"
			}
			if len(g.Blocks) == 0 {
				return ""
			}
			if !o.v.returnsNew(g, map[*ssa.Function]bool{}) {
				return "the result of " + g.Name()
			}
			for _, k := range o.v.aliasParams(i.Common()) {
				if r := o.fresh(i.Common().Args[k], at, seen); r != "" {
					return r
				}
			}
			return ""
		}
		return "a call"
	case *ssa.Parameter:
		if con := o.v.contractOf(o.f); con != nil {
			for k, p := range o.f.Params {
				if p == i && k < len(con.Params) {
					for _, md := range con.Modifies {
						if md.op == "call" && md.name == "elems" && md.args[0].name == con.Params[k] {
							return ""
						}
					}
				}
			}
		}
		return "the parameter " + i.Name()
	case *ssa.UnOp:
		if i.Op == token.MUL {
			if a, ok := i.X.(*ssa.Alloc); ok && a.Referrers() != nil {
				for _, r := range *a.Referrers() {
					switch s := r.(type) {
					case *ssa.Store:
						if s.Addr == a {
							if m := o.fresh(s.Val, at, seen); m != "" {
								return m
							}
						}
					case *ssa.UnOp, *ssa.DebugRef:
					default:
						return "a captured variable"
					}
				}
				return ""
			}
		}
		return "memory of others"
	}
	return "memory of others"
}

// returnsNew: results of g come from memory made by g or from its parameters.
func (v *Verifier) returnsNew(g *ssa.Function, seen map[*ssa.Function]bool) bool {
	if r, ok := v.news[g]; ok {
		return r
	}
	if seen[g] {
		return true
	}
	seen[g] = true
	ok := true
	sv := map[ssa.Value]bool{}
	var walk func(x ssa.Value)
	walk = func(x ssa.Value) {
		if sv[x] || !ok {
			return
		}
		sv[x] = true
		if _, is := x.Type().Underlying().(*types.Slice); !is {
			if _, t := x.Type().(*types.Tuple); !t {
				return
			}
		}
		switch i := x.(type) {
		case *ssa.Const, *ssa.MakeSlice, *ssa.Convert, *ssa.Parameter:
		case *ssa.Slice:
			if _, arr := i.X.Type().Underlying().(*types.Pointer); arr {
				_, lit := i.X.(*ssa.Alloc)
				ok = ok && lit
			} else {
				walk(i.X)
			}
		case *ssa.ChangeType:
			walk(i.X)
		case *ssa.Phi:
			for _, e := range i.Edges {
				walk(e)
			}
		case *ssa.Extract:
			walk(i.Tuple)
		case *ssa.Call:
			switch builtin(i) {
			case "append":
				walk(i.Common().Args[0])
			case "":
				h := i.Common().StaticCallee()
				if h == nil {
					ok = false
				} else if len(h.Blocks) > 0 {
					ok = ok && v.returnsNew(h, seen)
					for _, k := range v.aliasParams(i.Common()) {
						walk(i.Common().Args[k])
					}
				}
			default:
				ok = false
			}
		case *ssa.UnOp:
			a, is := i.X.(*ssa.Alloc)
			if !is || a.Referrers() == nil {
				ok = false
				return
			}
			for _, r := range *a.Referrers() {
				switch s := r.(type) {
				case *ssa.Store:
					if s.Addr == a {
						walk(s.Val)
					}
				case *ssa.UnOp, *ssa.DebugRef:
				default:
					ok = false
				}
			}
		default:
			ok = false
		}
		// a result that was also stored elsewhere is shared
		if ok && x.Referrers() != nil {
			for _, r := range *x.Referrers() {
				switch s := r.(type) {
				case *ssa.Store:
					if _, loc := s.Addr.(*ssa.Alloc); s.Val == x && !loc {
						ok = false
					}
				case *ssa.MapUpdate:
					if s.Value == x {
						ok = false
					}
				case *ssa.MakeInterface, *ssa.Send, *ssa.MakeClosure:
					ok = false
				}
			}
		}
	}
	for _, b := range g.Blocks {
		if r, is := b.Instrs[len(b.Instrs)-1].(*ssa.Return); is {
			for _, x := range r.Results {
				walk(x)
			}
		}
	}
	v.news[g] = ok
	return ok
}

// uses lists where a value is read. A phi reads it at the end of the edge.
type use struct {
	in  ssa.Instruction
	blk *ssa.BasicBlock // for a phi, the predecessor
	phi *ssa.Phi
}

func uses(y ssa.Value) []use {
	var r []use
	if y.Referrers() == nil {
		return nil
	}
	for _, in := range *y.Referrers() {
		switch i := in.(type) {
		case *ssa.DebugRef:
		case *ssa.Phi:
			for k, e := range i.Edges {
				if e == y {
					r = append(r, use{in: in, blk: i.Block().Preds[k], phi: i})
				}
			}
		case *ssa.Call:
			if b := builtin(i); b == "len" || b == "cap" {
				continue // the length is not affected
			}
			r = append(r, use{in: in, blk: in.Block()})
		default:
			r = append(r, use{in: in, blk: in.Block()})
		}
	}
	return r
}

func index(in ssa.Instruction) int {
	for k, i := range in.Block().Instrs {
		if i == in {
			return k
		}
	}
	return -1
}

// after: can u be reached from in without passing y's definition?
func after(in ssa.Instruction, u use, y ssa.Value) bool {
	var def ssa.Instruction
	if d, ok := y.(ssa.Instruction); ok {
		def = d
	}
	_, defPhi := y.(*ssa.Phi)
	target := u.blk
	tpos := len(target.Instrs)
	if u.phi == nil {
		tpos = index(u.in)
	}
	// scan from position k in block b; returns whether the target is reached
	seen := map[*ssa.BasicBlock]bool{}
	var scan func(b *ssa.BasicBlock, from int) bool
	scan = func(b *ssa.BasicBlock, from int) bool {
		stop := len(b.Instrs)
		if def != nil && def.Block() == b && (from == 0 || index(def) >= from) {
			if defPhi && from > 0 {
				// phis are at the head, passed already
			} else {
				stop = index(def)
				if defPhi {
					stop = 0
				}
			}
		}
		if b == target && tpos >= from && tpos <= stop && !(tpos == stop && stop < len(b.Instrs)) {
			return true
		}
		if stop < len(b.Instrs) {
			return false
		}
		for _, s := range b.Succs {
			if !seen[s] {
				seen[s] = true
				if scan(s, 0) {
					return true
				}
			}
		}
		return false
	}
	return scan(in.Block(), index(in)+1)
}

// viewOf: is y a tracked view into x?
func viewOf(y, x ssa.Value) bool {
	for y != x {
		s, ok := y.(*ssa.Slice)
		if !ok {
			return false
		}
		y = s.X
	}
	return true
}

// write checks a write to elements of x at instruction in.
func (o *ownFn) write(x ssa.Value, in ssa.Instruction) {
	base := x
	for {
		s, ok := base.(*ssa.Slice)
		if !ok || !o.isSeq(s.X.Type()) {
			break
		}
		base = s.X
	}
	if u, ok := base.(*ssa.UnOp); ok && u.Op == token.MUL {
		if _, loc := u.X.(*ssa.Alloc); !loc {
			// a slice loaded from memory: the write is carried back to that place,
			// other names of the array are not known
			o.bad(in.Pos(), "write through a slice taken from memory")
			return
		}
	}
	if m := o.fresh(base, in, map[ssa.Value]bool{}); m != "" {
		o.bad(in.Pos(), "write to %s", m)
		return
	}
	for _, y := range o.all[o.find(base)] {
		if y == base || viewOf(y, base) {
			if y != base {
				// a view that is not tracked as a cell must not be read later
				if !o.v.mutSet(o.f)[y] {
					for _, u := range uses(y) {
						if after(in, u, y) {
							o.bad(in.Pos(), "part %s of the written slice is used later", y.Name())
						}
					}
				}
			}
			continue
		}
		for _, u := range uses(y) {
			if u.in == in {
				continue
			}
			if after(in, u, y) {
				o.bad(in.Pos(), "the written array is also used as %s", y.Name())
				return
			}
		}
	}
	// a slice that was stored somewhere before the write is seen there
	for _, y := range o.all[o.find(base)] {
		if y.Referrers() == nil {
			continue
		}
		for _, r := range *y.Referrers() {
			esc := false
			switch s := r.(type) {
			case *ssa.Store:
				_, loc := s.Addr.(*ssa.Alloc)
				esc = s.Val == y && !loc
			case *ssa.MapUpdate:
				esc = s.Value == y
			case *ssa.MakeInterface, *ssa.MakeClosure, *ssa.Send:
				esc = true
			case *ssa.Call:
				if builtin(s) == "append" {
					for k, a := range s.Common().Args {
						if k > 0 && a == y && o.elemIsSlice(y) {
							esc = false
						}
					}
				}
			}
			if m, is := base.(*ssa.MakeSlice); is && esc {
				// another round of a loop makes another array
				esc = after(r, use{in: in, blk: in.Block()}, m)
			}
			if esc && after(r, use{in: in, blk: in.Block()}, y) {
				o.bad(in.Pos(), "written after it was stored elsewhere")
				return
			}
		}
	}
}

func (o *ownFn) elemIsSlice(y ssa.Value) bool {
	s, ok := y.Type().Underlying().(*types.Slice)
	return ok && o.isSeq(s.Elem())
}

// sameAddr: do two address computations denote the same place?
func sameAddr(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	switch x := a.(type) {
	case *ssa.FieldAddr:
		y, ok := b.(*ssa.FieldAddr)
		return ok && x.Field == y.Field && sameAddr(x.X, y.X)
	case *ssa.UnOp:
		y, ok := b.(*ssa.UnOp)
		return ok && x.Op == token.MUL && y.Op == token.MUL && sameAddr(x.X, y.X)
	}
	return false
}

// writtenBack: x was taken from a field, variable or map entry, and the result
// r of the append goes back to that very place.
func writtenBack(x ssa.Value, r *ssa.Call) bool {
	if r.Referrers() == nil {
		return false
	}
	if e, ok := x.(*ssa.Extract); ok {
		x = e.Tuple
	}
	for _, u := range *r.Referrers() {
		switch s := u.(type) {
		case *ssa.Store:
			if ld, ok := x.(*ssa.UnOp); ok && ld.Op == token.MUL && s.Val == r && s.Block() == r.Block() && sameAddr(ld.X, s.Addr) {
				return true
			}
		case *ssa.MapUpdate:
			if lk, ok := x.(*ssa.Lookup); ok && s.Value == r && s.Block() == r.Block() && sameAddr(lk.X, s.Map) && sameVal(lk.Index, s.Key) {
				return true
			}
		}
	}
	return false
}

func sameVal(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	x, ok := a.(*ssa.UnOp)
	y, ok2 := b.(*ssa.UnOp)
	return ok && ok2 && x.Op == y.Op && sameAddr(x.X, y.X)
}

// grown: y becomes x by appends, merges and renaming only (so y is no longer than x).
func grown(x, y ssa.Value, seen map[ssa.Value]bool) bool {
	if x == y {
		return true
	}
	if seen[x] {
		return false
	}
	seen[x] = true
	switch i := x.(type) {
	case *ssa.Phi:
		for _, e := range i.Edges {
			if grown(e, y, seen) {
				return true
			}
		}
	case *ssa.ChangeType:
		return grown(i.X, y, seen)
	case *ssa.Call:
		if builtin(i) == "append" {
			return grown(i.Common().Args[0], y, seen)
		}
	case *ssa.Slice:
		if i.High == nil {
			return grown(i.X, y, seen)
		}
	}
	return false
}

// extend checks r = append(x, ...).
func (o *ownFn) extend(r *ssa.Call) {
	x := r.Common().Args[0]
	if isNil(x) {
		return
	}
	if m := o.fresh(x, r, map[ssa.Value]bool{}); m != "" && !writtenBack(x, r) {
		o.bad(r.Pos(), "append to %s", m)
		return
	}
	for _, y := range o.all[o.find(x)] {
		if y == r {
			continue
		}
		anc := grown(x, y, map[ssa.Value]bool{})
		desc := grown(y, r, map[ssa.Value]bool{})
		for _, u := range uses(y) {
			if !after(r, u, y) {
				continue
			}
			if u.in == r && y == x {
				o.bad(r.Pos(), "appended again and again to the same slice %s", y.Name())
				return
			}
			if anc && !o.appends(u, map[ssa.Value]bool{}) {
				continue
			}
			if !anc && desc {
				continue
			}
			if !anc && o.appends(u, map[ssa.Value]bool{}) && desc {
				continue
			}
			o.bad(r.Pos(), "slice %s of the same array is used after the append", y.Name())
			return
		}
	}
}

// appends: does this use lead to an append, or a write, on the value?
func (o *ownFn) appends(u use, seen map[ssa.Value]bool) bool {
	switch i := u.in.(type) {
	case *ssa.Phi:
		if seen[i] {
			return false
		}
		seen[i] = true
		for _, w := range uses(i) {
			if o.appends(w, seen) {
				return true
			}
		}
		return false
	case *ssa.Call:
		if builtin(i) == "append" {
			for k, a := range i.Common().Args {
				if k == 0 && o.isSeq(a.Type()) {
					return true
				}
			}
			return false
		}
		return false
	case *ssa.Slice, *ssa.ChangeType:
		for _, w := range uses(i.(ssa.Value)) {
			if seen[i.(ssa.Value)] {
				return false
			}
			if o.appends(w, seen) {
				return true
			}
		}
		return false
	}
	return false
}
