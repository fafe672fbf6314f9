package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Verifier holds what is shared between functions.
type Verifier struct {
	rxg map[string]bool
	sp        *Specs
	ss        *sorts
	prog      *ssa.Program
	pkgs      []*ssa.Package
	allPkgs   []*types.Package
	repo      string
	compSorts map[string]*Sort
	subs      map[string]bool
	subOrder  []string
	views     map[string]*Sort
	needPview bool
	nbound    int
	trivial   int
	strs      map[string]string
	strOrder  []string
	globals   map[string]*ssa.Global
	gaddrs    map[string]bool
	gaddrOrd  []string
	funcs     map[string]*ssa.Function
	muts      map[*ssa.Function]map[ssa.Value]bool
	owns      map[*ssa.Function][]ownProblem
	alias     map[*ssa.Function][]int
	news      map[*ssa.Function]bool
}

// Load type-checks the repository's current source and builds its SSA form.
func Load(repo string, sp *Specs) (*Verifier, error) {
	cfg := &packages.Config{
		Mode:       packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:        repo,
		BuildFlags: []string{"-tags=ne"},
		Env:        append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off", "GOWORK=off"),
	}
	ps, err := packages.Load(cfg, ".", "./hmm", "./hmm/pos", "./hmm/idf", "./hmm/segment", "./hmm/util", "./hmm/stopwords", "./consts", "./types")
	if err != nil {
		return nil, err
	}
	var good []*packages.Package
	for _, p := range ps {
		if len(p.GoFiles) == 0 {
			continue
		}
		if len(p.Errors) > 0 {
			return nil, fmt.Errorf("%s: %v", p.PkgPath, p.Errors[0])
		}
		good = append(good, p)
	}
	prog, pkgs := ssautil.Packages(good, ssa.InstantiateGenerics)
	prog.Build()
	v := &Verifier{sp: sp, ss: newSorts(), prog: prog, pkgs: pkgs, repo: repo, compSorts: map[string]*Sort{}, subs: map[string]bool{},
		views: map[string]*Sort{}, strs: map[string]string{}, globals: map[string]*ssa.Global{}, gaddrs: map[string]bool{}, funcs: map[string]*ssa.Function{}, muts: map[*ssa.Function]map[ssa.Value]bool{},
		owns: map[*ssa.Function][]ownProblem{}, alias: map[*ssa.Function][]int{}, news: map[*ssa.Function]bool{}}
	seen := map[*types.Package]bool{}
	var add func(p *types.Package)
	add = func(p *types.Package) {
		if seen[p] {
			return
		}
		seen[p] = true
		v.allPkgs = append(v.allPkgs, p)
		for _, q := range p.Imports() {
			add(q)
		}
	}
	for _, p := range pkgs {
		add(p.Pkg)
	}
	for _, h := range sp.Heap {
		v.ss.heapElem[h] = true
	}
	v.compSorts["A"] = sInt
	v.compSorts["G_trie"] = arrOf(sTrie)
	v.compSorts["G_buf"] = arrOf(sSeqInt)
	v.ss.of(types.Typ[types.String])
	for _, p := range pkgs {
		for _, m := range p.Members {
			switch g := m.(type) {
			case *ssa.Global:
				v.globals[g.Pkg.Pkg.Name()+"_"+g.Name()] = g
			case *ssa.Function:
				v.addFunc(g)
			case *ssa.Type:
				for _, t := range []types.Type{g.Type(), types.NewPointer(g.Type())} {
					ms := prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						if f := prog.MethodValue(ms.At(i)); f != nil && f.Synthetic == "" {
							v.addFunc(f)
						}
					}
				}
			}
		}
	}
	v.rxGlobals()
	return v, nil
}

func (v *Verifier) addFunc(f *ssa.Function) {
	v.funcs[shortName(f)] = f
	// a package has several init functions: one is also known by the variables
	// whose maps it fills
	if f.Pkg != nil && f.Parent() == nil && strings.HasPrefix(f.Name(), "init#") {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if u, ok := in.(*ssa.MapUpdate); ok {
					if l, ok := u.Map.(*ssa.UnOp); ok {
						if g, ok := l.X.(*ssa.Global); ok {
							v.funcs[f.Pkg.Pkg.Name()+".init@"+g.Name()] = f
						}
					}
				}
			}
		}
	}
	for _, a := range f.AnonFuncs {
		v.addFunc(a)
	}
}

func (v *Verifier) noteComp(k string, s *Sort) {
	if v.compSorts[k] == nil {
		v.compSorts[k] = s
		v.ss.note(s)
	}
}

func (v *Verifier) globalSort(n string) (*Sort, bool) {
	g := v.globals[n]
	if g == nil {
		if i := strings.Index(n, "_"); i > 0 {
			for _, p := range v.allPkgs {
				if p.Name() == n[:i] {
					if o, ok := p.Scope().Lookup(n[i+1:]).(*types.Var); ok {
						return v.ss.of(o.Type()), true
					}
				}
			}
		}
		return nil, false
	}
	return v.ss.of(g.Type().(*types.Pointer).Elem()), true
}

func (v *Verifier) globalAddr(g *ssa.Global) string {
	n := "ga_" + g.Pkg.Pkg.Name() + "_" + g.Name()
	if !v.gaddrs[n] {
		v.gaddrs[n] = true
		v.gaddrOrd = append(v.gaddrOrd, n)
	}
	return n
}

func (v *Verifier) strConst(s string) string {
	if s == "" {
		return "empty_Int"
	}
	if n, ok := v.strs[s]; ok {
		return n
	}
	n := fmt.Sprintf("str$%d", len(v.strOrder))
	v.strs[s] = n
	v.strOrder = append(v.strOrder, s)
	return n
}

// strDecls declares the string constants used in a query.
func (v *Verifier) strDecls(used func(string) bool) string {
	var b strings.Builder
	var ns []string
	for i, s := range v.strOrder {
		n := fmt.Sprintf("str$%d", i)
		if !used(n) {
			continue
		}
		ns = append(ns, n)
		fmt.Fprintf(&b, "(declare-const %s Sq_Int)\n(assert (= (len_Int %s) %d))\n", n, n, len(s))
		if utf8.ValidString(s) {
			fmt.Fprintf(&b, "(assert (valid8 %s))\n", n)
		}

		if len(s) <= 24 {
			ascii := true
			for k := 0; k < len(s); k++ {
				fmt.Fprintf(&b, "(assert (= (at_Int %s %d) %d))\n", n, k, s[k])
				ascii = ascii && s[k] < 128
			}
			if len(s) == 1 {
				fmt.Fprintf(&b, "(assert (= %s (unit_Int %d)))\n", n, s[0])
			}
			if ascii {
				fmt.Fprintf(&b, "(assert (= (dec %s) %s))\n", n, n)
			} else {
				rs := []rune(s)
				fmt.Fprintf(&b, "(assert (= (len_Int (dec %s)) %d))\n", n, len(rs))
				for k, c := range rs {
					fmt.Fprintf(&b, "(assert (= (at_Int (dec %s) %d) %d))\n", n, k, c)
				}
				if len(rs) == 1 {
					fmt.Fprintf(&b, "(assert (= (dec %s) (unit_Int %d)))\n", n, rs[0])
				}
			}
		}
	}
	if len(ns) > 1 {
		fmt.Fprintf(&b, "(assert (distinct %s))\n", strings.Join(ns, " "))
	}
	return b.String()
}

func sortedKeys(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// mutSet finds the slice-typed values whose elements the function writes.
func (v *Verifier) mutSet(f *ssa.Function) map[ssa.Value]bool {
	if m, ok := v.muts[f]; ok {
		return m
	}
	m := map[ssa.Value]bool{}
	v.muts[f] = m
	isSeq := func(t types.Type) bool {
		switch t.Underlying().(type) {
		case *types.Slice:
			return v.ss.of(t).K == 'Q'
		}
		return false
	}
	var stored func(a ssa.Value, depth int) bool
	stored = func(a ssa.Value, depth int) bool {
		if depth > 8 || a.Referrers() == nil {
			return true
		}
		for _, r := range *a.Referrers() {
			switch i := r.(type) {
			case *ssa.Store:
				if i.Addr == a {
					return true
				}
			case *ssa.FieldAddr:
				if stored(i, depth+1) {
					return true
				}
			case *ssa.IndexAddr:
				if stored(i, depth+1) {
					return true
				}
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.Call:
				// the address of an element is passed on
				return true
			}
		}
		return false
	}
	vals := func(yield func(ssa.Value)) {
		for _, p := range f.Params {
			yield(p)
		}
		for _, p := range f.FreeVars {
			yield(p)
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if x, ok := in.(ssa.Value); ok {
					yield(x)
				}
			}
		}
	}
	for changed := true; changed; {
		changed = false
		vals(func(x ssa.Value) {
			if m[x] || x.Type() == nil || !isSeq(x.Type()) || x.Referrers() == nil {
				return
			}
			for _, r := range *x.Referrers() {
				hit := false
				switch i := r.(type) {
				case *ssa.IndexAddr:
					hit = i.X == x && stored(i, 0)
				case *ssa.Slice:
					hit = i.X == x && m[i]
				case *ssa.Phi:
					hit = false
				case *ssa.ChangeType:
					hit = m[i]
				case *ssa.Call:
					c := i.Common()
					if b, ok := c.Value.(*ssa.Builtin); ok {
						hit = b.Name() == "copy" && c.Args[0] == x
						break
					}
					if g := c.StaticCallee(); g != nil {
						for k, a := range c.Args {
							if a != x || k >= len(g.Params) && len(g.Blocks) > 0 {
								continue
							}
							if v.inlinable(g) {
								hit = hit || v.mutSet(g)[g.Params[k]]
							} else if con := v.contractOf(g); con != nil && k < len(con.Params) {
								for _, md := range con.Modifies {
									if md.op == "call" && md.name == "elems" && md.args[0].name == con.Params[k] {
										hit = true
									}
								}
							}
						}
					}
				}
				if hit {
					m[x] = true
					changed = true
					return
				}
			}
		})
	}
	return m
}
