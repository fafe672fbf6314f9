package main

import (
	"go/constant"
	"regexp/syntax"

	"golang.org/x/tools/go/ssa"
)

// rxGlobals finds the unexported package variables that hold a pattern for
// good: compiled by the package initializer from a constant, and read only.
// The value says whether every match is non-empty.
func (v *Verifier) rxGlobals() map[string]bool {
	if v.rxg != nil {
		return v.rxg
	}
	v.rxg = map[string]bool{}
	set := map[*ssa.Global][]string{}
	bad := map[*ssa.Global]bool{}
	for _, g := range v.globals {
		if tstr(g.Type()) == "**regexp.Regexp" && !g.Object().Exported() {
			set[g] = nil
		}
	}
	seen := map[*ssa.Function]bool{}
	var scan func(f *ssa.Function)
	scan = func(f *ssa.Function) {
		if f == nil || seen[f] {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if af, ok := (*op).(*ssa.Function); ok && af.Pkg == f.Pkg {
						scan(af)
					}
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					if _, ours := set[g]; !ours {
						continue
					}
					switch i := in.(type) {
					case *ssa.UnOp:
					case *ssa.Store:
						c, ok := i.Val.(*ssa.Call)
						if i.Addr != g || i.Val == ssa.Value(g) || f != g.Pkg.Func("init") || !ok {
							bad[g] = true
							break
						}
						callee := c.Call.StaticCallee()
						if callee == nil || callee.String() != "regexp.MustCompile" {
							bad[g] = true
							break
						}
						k, ok := c.Call.Args[0].(*ssa.Const)
						if !ok {
							bad[g] = true
							break
						}
						set[g] = append(set[g], constant.StringVal(k.Value))
					default:
						bad[g] = true
					}
				}
			}
		}
	}
	for _, p := range v.prog.AllPackages() {
		for _, m := range p.Members {
			if f, ok := m.(*ssa.Function); ok {
				if f.Name() == "init" || len(f.Blocks) > 0 {
					scan(f)
				}
			}
		}
	}
	for _, f := range v.funcs {
		scan(f)
	}
	for g, ts := range set {
		if bad[g] || len(ts) != 1 {
			continue
		}
		re, err := syntax.Parse(ts[0], syntax.Perl)
		if err != nil {
			continue
		}
		v.rxg["V_"+g.Pkg.Pkg.Name()+"_"+g.Name()] = minMatch(re.Simplify()) > 0
	}
	return v.rxg
}

// minMatch is a lower bound on the length of what re matches.
func minMatch(re *syntax.Regexp) int {
	switch re.Op {
	case syntax.OpLiteral:
		return len(re.Rune)
	case syntax.OpCharClass, syntax.OpAnyChar, syntax.OpAnyCharNotNL, syntax.OpNoMatch:
		return 1
	case syntax.OpCapture, syntax.OpPlus:
		return minMatch(re.Sub[0])
	case syntax.OpRepeat:
		return re.Min * minMatch(re.Sub[0])
	case syntax.OpConcat:
		n := 0
		for _, s := range re.Sub {
			n += minMatch(s)
		}
		return n
	case syntax.OpAlternate:
		n := minMatch(re.Sub[0])
		for _, s := range re.Sub[1:] {
			n = min(n, minMatch(s))
		}
		return n
	}
	return 0
}
