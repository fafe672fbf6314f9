package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// callees lists the contracts reachable from a function's code, looking
// through everything that would be inlined.
func (v *Verifier) callees(f *ssa.Function) []string {
	out := map[string]bool{}
	seen := map[*ssa.Function]bool{}
	var rec func(f *ssa.Function)
	rec = func(f *ssa.Function) {
		if seen[f] {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Function)
					if !ok {
						continue
					}
					c := v.contractOf(g)
					if c != nil {
						out[c.Name] = true
					}
					if v.inlinable(g) {
						rec(g)
					}
				}
			}
		}
	}
	rec(f)
	return sortedKeys(out)
}

func has(ps []string, p string) bool {
	for _, q := range ps {
		if q == p {
			return true
		}
	}
	return false
}

var shortBudget = []int{3, 0, 3, 3}

func longBudget() []int { return []int{*quickSecs, *quickSecs, *quickSecs, *quickSecs} }

// discharge proves the obligations, first finding the inductive candidates.
func (x *Ctx) discharge(lem []string, prop string, hAlive, hDead []string) (aliveKeys, deadKeys []string) {
	dead := map[string]bool{}
	for _, k := range hDead {
		dead[k] = true
	}
	known := map[string]bool{}
	for _, k := range hAlive {
		known[k] = true
	}
	hinted := len(hAlive)+len(hDead) > 0
	for _, c := range x.cands {
		c.alive = !dead[c.key]
	}
	alive := func(c *Cand) bool { return c.alive }
	main := func(o *Obl) bool {
		if o.cand != nil || o.Kind == "own" {
			return false
		}
		if prop != "" && len(o.Props) > 0 && !has(o.Props, prop) {
			return false
		}
		return true
	}
	run := func(obls []*Obl, short bool) {
		var wg sync.WaitGroup
		for _, o := range obls {
			wg.Add(1)
			go func(o *Obl) {
				defer wg.Done()
				if o.Kind == "cover" {
					x.cover(o, alive, lem)
					return
				}
				b := longBudget()
				if o.Kind == "term" {
					b = []int{*quickSecs / 3, *quickSecs / 3, 0, 0}
				}
				if short {
					b = shortBudget
				}
				x.prove(o, alive, lem, b)
			}(o)
		}
		wg.Wait()
	}
	var todo []*Obl
	for _, o := range x.obls {
		if main(o) {
			todo = append(todo, o)
		}
	}
	failed := func() []*Obl {
		var r []*Obl
		for _, o := range todo {
			if o.Res != "proved" && o.Res != "vacuous" && o.Kind != "term" {
				r = append(r, o)
			}
		}
		return r
	}
	count := func() int {
		n := 0
		for _, c := range x.cands {
			if c.alive {
				n++
			}
		}
		return n
	}
	reset := func() {
		for _, c := range x.cands {
			c.alive = true
		}
	}
	func() {
		if hinted {
			n := count()
			x.houdini(lem, false)
			run(todo, true)
			if len(failed()) == 0 {
				return
			}
			if count() == n {
				run(failed(), false)
				if len(failed()) == 0 {
					return
				}
			}
			// the hints may not fit this tree: start from every candidate
			reset()
		}
		x.houdini(lem, true)
		run(todo, true)
		if len(failed()) == 0 {
			return
		}
		run(failed(), false)
		if len(failed()) == 0 {
			return
		}
		if n := count(); n < len(x.cands) {
			reset()
			x.houdini(lem, false)
			if count() != n {
				// facts proved before may have rested on candidates that are gone
				run(todo, false)
			}
		}
	}()
	// one reachable return is enough: defensive branches may be dead
	anyCover := false
	for _, o := range todo {
		anyCover = anyCover || o.Kind == "cover" && o.Res == "proved"
	}
	for _, o := range todo {
		if anyCover && o.Kind == "cover" && o.Res == "vacuous" {
			o.Res, o.Text = "proved", "unreachable"
		}
	}
	if *showCands {
		for _, c := range x.cands {
			fmt.Printf("CAND %v %s\n", c.alive, c.key)
		}
	}
	for _, c := range x.cands {
		if c.alive {
			aliveKeys = append(aliveKeys, c.key)
		} else {
			deadKeys = append(deadKeys, c.key)
		}
	}
	return
}

// cover: the hypotheses at a return must not be contradictory.
func (x *Ctx) cover(o *Obl, alive func(*Cand) bool, lem []string) {
	q := x.build(o, alive, "false", lem)
	r := runSolver(q, 3, 0)
	o.Secs = r.secs
	o.Solver = r.solver
	if r.res == "proved" {
		o.Res = "vacuous"
		if keepDir != "" {
			os.WriteFile(filepath.Join(keepDir, "vacuous.smt2"), []byte(q), 0o644)
		}
		return
	}
	if r.res == "error" {
		o.Res, o.Out = "error", r.out
		return
	}
	o.Res = "proved"
}

// houdini drops candidates that are not inductive until the rest is.
func (x *Ctx) houdini(lem []string, short bool) {
	for round := 0; round < 60; round++ {
		snapshot := map[*Cand]bool{}
		for _, c := range x.cands {
			snapshot[c] = c.alive
		}
		alive := func(c *Cand) bool { return snapshot[c] }
		var wg sync.WaitGroup
		var mu sync.Mutex
		dropped := false
		for _, o := range x.obls {
			if o.cand == nil || !snapshot[o.cand] {
				continue
			}
			wg.Add(1)
			go func(o *Obl) {
				defer wg.Done()
				mu.Lock()
				gone := !o.cand.alive
				mu.Unlock()
				if gone {
					return
				}
				b := []int{2, 0, 1, 0}
				if round > 0 && o.Res == "proved" {
					b = []int{3, 1, 2, 1}
				}
				if !o.cand.auto && short {
					b = shortBudget
				} else if !o.cand.auto {
					b = []int{*quickSecs / 2, *quickSecs / 3, *quickSecs / 3, *quickSecs / 3}
				}
				x.prove(o, alive, lem, b)
				if o.Res != "proved" {
					if *showCands && !o.cand.auto {
						fmt.Printf("DROP round %d %s %s: %s %s\n", round, o.Kind, o.cand.key, o.Res, trunc(o.Out, 300)+" "+o.Out[strings.LastIndex(o.Out, " ")+1:])
					}
					mu.Lock()
					o.cand.alive = false
					dropped = true
					mu.Unlock()
				}
			}(o)
		}
		wg.Wait()
		if !dropped {
			return
		}
	}
}

// termReport gives one line per loop that needs a measure.
func (x *Ctx) termReport() []oblReport {
	var out []oblReport
	for _, lr := range x.runs {
		if lr.isRange {
			continue
		}
		byAlt := map[int]bool{}
		any := false
		for _, o := range x.obls {
			if o.Kind == "term" && o.group == lr {
				any = true
				if _, ok := byAlt[o.alt]; !ok {
					byAlt[o.alt] = true
				}
				if o.Res != "proved" {
					byAlt[o.alt] = false
				}
			}
		}
		if !any {
			continue
		}
		ok := ""
		for alt, good := range byAlt {
			if good && alt < len(lr.measures) {
				ok = lr.measures[alt].text
			}
		}
		r := oblReport{Fn: x.name, Kind: "ends", Label: fmt.Sprintf("loop %s ends", lr.name), Pos: x.pos(loopPos(lr.info)), Res: "proved", Text: ok}
		if ok == "" {
			r.Res = "unknown"
		}
		out = append(out, r)
	}
	return out
}
