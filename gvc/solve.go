package main

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// text preludes split so that sorts come before datatypes.

func (v *Verifier) seqPrelude(s *Sort) (decl, rest string) {
	t := strings.ReplaceAll(seqAxioms, "$S", s.Elem.SMT())
	t = replaceE(t, s.Elem.id())
	i := strings.Index(t, "\n(declare-fun len_")
	return strings.TrimSpace(t[:i]) + "\n", t[i:]
}

func replaceE(t, id string) string {
	for _, p := range []string{"Sq", "len", "at", "empty", "unit", "cat", "sub", "upd", "rep", "diff"} {
		t = strings.ReplaceAll(t, p+"_E", p+"_"+id)
	}
	return t
}

func structDecl(s *Sort) string {
	var b strings.Builder
	fmt.Fprintf(&b, "(declare-datatypes ((T_%s 0)) (((mk_%s", s.Name, s.Name)
	for _, f := range s.Fields {
		fmt.Fprintf(&b, " (%s_%s %s)", s.Name, f.Name, f.S.SMT())
	}
	b.WriteString("))))\n")
	return b.String()
}

func viewAxioms(es *Sort) string {
	E, S := es.id(), es.SMT()
	t := `
(declare-fun view_E ((Array Int $S) Int Int Int) Sq_E)
(assert (forall ((c (Array Int $S)) (r Int) (o Int) (n Int)) (! (=> (>= n 0) (= (len_E (view_E c r o n)) n)) :pattern ((view_E c r o n)))))
(assert (forall ((c (Array Int $S)) (r Int) (o Int) (n Int) (i Int)) (! (=> (and (<= 0 i) (< i n)) (= (at_E (view_E c r o n) i) (select c (elo r o i)))) :pattern ((at_E (view_E c r o n) i)))))
(assert (forall ((c (Array Int $S)) (r Int) (o Int) (n Int) (i Int) (x $S)) (! (=> (and (<= 0 i) (< i n)) (= (view_E (store c (elo r o i) x) r o n) (upd_E (view_E c r o n) i x))) :pattern ((view_E (store c (elo r o i) x) r o n)))))
(assert (forall ((c (Array Int $S)) (a Int) (r Int) (o Int) (n Int) (x $S)) (! (=> (not (= (elr a) r)) (= (view_E (store c a x) r o n) (view_E c r o n))) :pattern ((view_E (store c a x) r o n)))))
(assert (forall ((c (Array Int $S)) (r Int) (o Int) (n Int) (i Int) (j Int)) (! (=> (and (not (= (sub_E (view_E c r o n) i j) (view_E c r o n))) (<= 0 i) (<= i j) (<= j n)) (= (sub_E (view_E c r o n) i j) (view_E c r (+ o i) (- j i)))) :pattern ((sub_E (view_E c r o n) i j)))))
`
	t = strings.ReplaceAll(t, "$S", S)
	t = strings.ReplaceAll(t, "view_E", "view_"+E)
	return replaceE(t, E)
}

const pviewAxioms = `
(declare-fun pview (Int Int Int) Sq_Int)
(assert (forall ((r Int) (o Int) (n Int)) (! (=> (>= n 0) (= (len_Int (pview r o n)) n)) :pattern ((pview r o n)))))
(assert (forall ((r Int) (o Int) (n Int) (i Int)) (! (=> (and (<= 0 i) (< i n)) (= (at_Int (pview r o n) i) (elo r o i))) :pattern ((at_Int (pview r o n) i)))))
(assert (forall ((r Int) (o Int) (n Int) (i Int) (j Int)) (! (=> (and (not (= (sub_Int (pview r o n) i j) (pview r o n))) (<= 0 i) (<= i j) (<= j n)) (= (sub_Int (pview r o n) i j) (pview r (+ o i) (- j i)))) :pattern ((sub_Int (pview r o n) i j)))))
`

func collect(m map[string]bool, t string) {
	st := -1
	for i := 0; i <= len(t); i++ {
		if i < len(t) && t[i] != ' ' && t[i] != '(' && t[i] != ')' && t[i] != '\n' {
			if st < 0 {
				st = i
			}
			continue
		}
		if st >= 0 {
			m[t[st:i]] = true
			st = -1
		}
	}
}

// genQuery is the shared part of a function's queries.
type genQuery struct {
	x      *Ctx
	lemmas []string
}

func (x *Ctx) usesLemmas() []*Lemma {
	seen := map[string]bool{}
	var r []*Lemma
	add := func(ns []string) {
		for _, n := range ns {
			if seen[n] {
				continue
			}
			seen[n] = true
			if strings.HasPrefix(n, "=") {
				if x.reveals == nil {
					x.reveals = map[string]bool{}
				}
				x.reveals[n[1:]] = true
				continue
			}
			l := x.v.sp.Lemmas[n]
			if l == nil {
				panic(specErr("unknown lemma " + n))
			}
			r = append(r, l)
		}
	}
	if x.con != nil {
		add(x.con.Uses)
	}
	for _, n := range sortedKeys(x.inlined) {
		if c := x.v.sp.Contracts[n]; c != nil {
			add(c.Uses)
		}
	}
	return r
}

// build renders the query for one goal.
func (x *Ctx) build(o *Obl, alive func(*Cand) bool, goal string, lemTexts []string) string {
	return x.buildNear(o, alive, goal, lemTexts, nil)
}

// nearest: the loop whose invariants were assumed last on the way to o.
func (x *Ctx) nearest(o *Obl, alive func(*Cand) bool) (near *loopRun, others bool) {
	fs := x.facts
	if o.nfact < len(fs) {
		fs = fs[:o.nfact]
	}
	for i := len(fs) - 1; i >= 0; i-- {
		f := fs[i]
		if f.cand == nil || !alive(f.cand) || f.blk != nil && f.blk.id != o.blk.id && !o.blk.anc[f.blk.id] {
			continue
		}
		if near == nil {
			near = f.cand.loop
		} else if f.cand.loop != near {
			return near, true
		}
	}
	return near, false
}

// buildNear leaves out the invariants of every loop but one, if one is given.
func (x *Ctx) buildNear(o *Obl, alive func(*Cand) bool, goal string, lemTexts []string, only *loopRun) string {
	v := x.v
	var body strings.Builder
	used := map[string]bool{}
	fs := x.facts
	if o.nfact < len(fs) {
		fs = fs[:o.nfact]
	}
	var factLines []string
	for _, f := range fs {
		if f.blk != nil && f.blk.id != o.blk.id && !o.blk.anc[f.blk.id] {
			continue
		}
		if f.cand != nil && (!alive(f.cand) || only != nil && f.cand.loop != only) {
			continue
		}
		t := f.t
		if !f.raw && f.blk != nil && f.blk.R != "true" {
			t = implies(f.blk.R, t)
		}
		factLines = append(factLines, t)
	}
	factLines = prune(factLines, goal+" "+o.blk.R, x)
	for _, t := range factLines {
		collect(used, t)
		body.WriteString("(assert " + t + ")\n")
	}
	if o.blk.R != "true" {
		body.WriteString("(assert " + o.blk.R + ")\n")
		used[o.blk.R] = true
	}
	for _, t := range lemTexts {
		collect(used, t)
		body.WriteString("(assert " + t + ")\n")
	}
	collect(used, goal)
	if goal != "false" {
		body.WriteString(refute(goal, x, used))
	}
	// specification functions, transitively
	var fnText strings.Builder
	fnDecls := strings.Builder{}
	done := map[string]bool{}
	for changed := true; changed; {
		changed = false
		for _, d := range v.sp.FnOrder {
			if d.Kind == "def" || done[d.Name] || !used["u_"+d.Name] {
				continue
			}
			done[d.Name] = true
			changed = true
			v.resolveFn(d)
			var as []string
			for _, c := range d.comps {
				as = append(as, v.compSorts[c].SMT())
			}
			for _, p := range d.ps {
				as = append(as, p.SMT())
			}
			fmt.Fprintf(&fnDecls, "(declare-fun u_%s (%s) %s)\n", d.Name, strings.Join(as, " "), d.ret.SMT())
			if d.Kind == "hom" && (d.Op == "or" || d.Op == "and") {
				fmt.Fprintf(&fnDecls, "(declare-fun w_%s!w (%s) Int)\n", d.Name, strings.Join(as, " "))
			}
			if !d.Opaque || x.reveals[d.Name] {
				fnText.WriteString(d.ax)
				collect(used, d.ax)
			}
			collect(used, strings.Join(as, " "))
		}
	}
	strs := v.strDecls(func(n string) bool { return used[n] })
	collect(used, strs)
	var out strings.Builder
	out.WriteString("(set-option :auto_config false)\n(set-option :smt.mbqi false)\n")
	// sorts
	out.WriteString("(declare-sort Trie 0)\n(declare-const zero_Trie Trie)\n")
	var decls []string
	for i, d := range x.decls {
		if i >= o.ndecl {
			break
		}
		n := strings.SplitN(d, " ", 3)[1]
		if used[n] {
			decls = append(decls, d)
			collect(used, d)
		}
	}
	for _, k := range sortedKeys(x.inits) {
		if used[k+"!0"] {
			d := "(declare-const " + k + "!0 " + v.compSorts[k].SMT() + ")"
			decls = append(decls, d)
			collect(used, d)
			if used["u_rxNonEmpty"] {
				if non, ok := v.rxGlobals()[k]; ok {
					fmt.Fprintf(&body, "(assert (not (= %s!0 0)))\n", k)
					if non {
						fmt.Fprintf(&body, "(assert (u_rxNonEmpty %s!0))\n", k)
					}
				}
			}
		}
	}
	// every registered sequence sort may occur in struct declarations
	var seqRest strings.Builder
	needSeq := map[string]bool{"Sq_Int": true}
	for changed := true; changed; {
		changed = false
		for _, s := range v.ss.seqOrder {
			if needSeq[s.SMT()] {
				continue
			}
			id := s.Elem.id()
			if used[s.SMT()] || used["len_"+id] || used["at_"+id] || used["cat_"+id] || used["unit_"+id] || used["empty_"+id] || used["sub_"+id] || used["upd_"+id] || used["rep_"+id] || used["view_"+id] {
				needSeq[s.SMT()] = true
				changed = true
			}
		}
	}
	out.WriteString("(declare-datatypes ((Slc 0)) (((mkslc (slref Int) (sloff Int) (sllen Int)))))\n")
	var seqDone = map[string]bool{}
	for _, s := range v.ss.seqOrder {
		d, _ := v.seqPrelude(s)
		out.WriteString(d)
	}
	for _, s := range v.ss.order {
		out.WriteString(structDecl(s))
	}
	for _, s := range v.ss.seqOrder {
		if needSeq[s.SMT()] && !seqDone[s.SMT()] {
			seqDone[s.SMT()] = true
			_, r := v.seqPrelude(s)
			seqRest.WriteString(r)
		}
	}
	if !seqDone["Sq_Int"] {
		d, r := v.seqPrelude(sSeqInt)
		out.WriteString(d)
		seqRest.WriteString(r)
	}
	out.WriteString(seqRest.String())
	if used["el"] || used["elo"] || used["elr"] || used["base"] || len(v.subOrder) > 0 {
		out.WriteString(strings.Replace(memAxioms, "(declare-datatypes ((Slc 0)) (((mkslc (slref Int) (sloff Int) (sllen Int)))))\n", "", 1))
	}
	for i, n := range v.subOrder {
		if used[n] {
			fmt.Fprintf(&out, "(declare-fun %s (Int) Int)\n(declare-fun %s_inv (Int) Int)\n(assert (forall ((p Int)) (! (and (= (%s_inv (%s p)) p) (= (base (%s p)) (base p)) (not (= (%s p) 0)) (= (satag (%s p)) %d)) :pattern ((%s p)))))\n", n, n, n, n, n, n, n, i+1, n)
		}
	}
	for _, n := range v.gaddrOrd {
		if used[n] {
			fmt.Fprintf(&out, "(declare-const %s Int)\n(assert (and (> %s 0) (= (base %s) %s) (< %s A!0)))\n", n, n, n, n, n)
		}
	}
	text := false
	for _, n := range []string{"enc", "dec", "valid8", "vr", "strlt"} {
		if used[n] {
			text = true
		}
	}
	if text {
		out.WriteString(textAxioms)
		out.WriteString(encHom)
	}
	for _, n := range []string{"fadd", "fsub", "fmul", "fdiv", "i2f", "f2i", "f32", "fneg", "flog", "flog2"} {
		if used[n] {
			out.WriteString(floatAxioms)
			break
		}
	}
	if used["pview"] {
		out.WriteString(pviewAxioms)
	}
	for _, k := range sortedSortKeys(v.views) {
		if used["view_"+k] {
			out.WriteString(viewAxioms(v.views[k]))
		}
	}
	out.WriteString(strs)
	out.WriteString(fnDecls.String())
	out.WriteString(fnText.String())
	hasA0 := false
	for _, d := range decls {
		if strings.HasPrefix(d, "(declare-const A!0 ") {
			hasA0 = true
		}
	}
	var ds strings.Builder
	if !hasA0 {
		ds.WriteString("(declare-const A!0 Int)\n")
	}
	for _, d := range decls {
		ds.WriteString(d + "\n")
	}
	// constants first: global addresses mention A!0
	res := out.String()
	i := strings.Index(res, "(declare-const ga_")
	if i < 0 {
		res += ds.String()
	} else {
		res = res[:i] + ds.String() + res[i:]
	}
	if strings.Contains(res, "(satag ") {
		k := strings.Index(res, "(declare-fun sa_")
		res = res[:k] + "(declare-fun satag (Int) Int)\n" + res[k:]
	}
	// a nil map is empty
	var nils strings.Builder
	for _, d := range append([]string{}, decls...) {
		n := strings.SplitN(d, " ", 3)[1]
		if i := strings.LastIndex(n, "!"); i > 0 {
			if strings.HasPrefix(n, "MD_") {
				if cs := v.compSorts[n[:i]]; cs != nil {
					fmt.Fprintf(&nils, "(assert (= (select %s 0) ((as const %s) false)))\n", n, cs.Elem.SMT())
				}
			} else if strings.HasPrefix(n, "ML_") {
				fmt.Fprintf(&nils, "(assert (= (select %s 0) 0))\n", n)
			}
		}
	}
	return res + nils.String() + body.String() + "(check-sat)\n"
}

func sortedSortKeys(m map[string]*Sort) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// prune drops the defining equations of constants nothing else mentions.
func prune(fs []string, goal string, x *Ctx) []string {
	need := map[string]bool{}
	collect(need, goal)
	keep := make([]bool, len(fs))
	type def struct {
		i    int
		toks []string
	}
	defs := map[string][]int{}
	for i, f := range fs {
		if n, ok := defName(f); ok {
			defs[n] = append(defs[n], i)
		} else {
			keep[i] = true
			collect(need, f)
		}
	}
	// closure
	var work []string
	for n := range need {
		work = append(work, n)
	}
	done := map[string]bool{}
	for len(work) > 0 {
		n := work[len(work)-1]
		work = work[:len(work)-1]
		if done[n] {
			continue
		}
		done[n] = true
		for _, i := range defs[n] {
			if keep[i] {
				continue
			}
			keep[i] = true
			m := map[string]bool{}
			collect(m, fs[i])
			for k := range m {
				if !done[k] {
					work = append(work, k)
				}
			}
		}
	}
	var r []string
	for i, f := range fs {
		if keep[i] {
			r = append(r, f)
		}
	}
	return r
}

// defName: (= c!n term) with an atomic left side.
func defName(f string) (string, bool) {
	if !strings.HasPrefix(f, "(= ") {
		return "", false
	}
	r := f[3:]
	i := strings.IndexAny(r, " (")
	if i <= 0 || r[i] != ' ' || !strings.Contains(r[:i], "!") || strings.HasPrefix(r, "R!") {
		return "", false
	}
	return r[:i], true
}

// refute asserts the negation of the goal, with extensionality for sequence
// equalities that have to be shown.
func refute(goal string, x *Ctx, used map[string]bool) string {
	var b strings.Builder
	n := parseSx(goal)
	k := 0
	ren := map[string]string{}
	for {
		if n.list != nil && len(n.list) == 3 && n.list[0].atom == "forall" {
			for _, bv := range n.list[1].list {
				k++
				nn := fmt.Sprintf("sk!%d", k)
				ren[bv.list[0].atom] = nn
				fmt.Fprintf(&b, "(declare-const %s %s)\n", nn, bv.list[1].String())
				collect(used, bv.list[1].String())
			}
			n = n.list[2]
			if n.list != nil && n.list[0].atom == "!" {
				n = n.list[1]
			}
			n = subst(n, ren)
			ren = map[string]string{}
			continue
		}
		if n.list != nil && len(n.list) == 3 && n.list[0].atom == "=>" {
			fmt.Fprintf(&b, "(assert %s)\n", n.list[1].String())
			n = n.list[2]
			continue
		}
		break
	}
	fmt.Fprintf(&b, "(assert (not %s))\n", n.String())
	// extensionality
	if n.list != nil && len(n.list) == 3 && n.list[0].atom == "=" {
		if s := x.seqSortOf(n.list[1]); s != nil {
			l, r := n.list[1].String(), n.list[2].String()
			E := s.Elem.id()
			collect(used, "diff_"+E+" len_"+E)
			fmt.Fprintf(&b, "(assert (or (not (= (len_%s %s) (len_%s %s))) (and (<= 0 (diff_%s %s %s)) (< (diff_%s %s %s) (len_%s %s)) (not (= (at_%s %s (diff_%s %s %s)) (at_%s %s (diff_%s %s %s)))))))\n",
				E, l, E, r, E, l, r, E, l, r, E, l, E, l, E, l, r, E, r, E, l, r)
		}
	}
	return b.String()
}

func subst(n *sx, ren map[string]string) *sx {
	if n.list == nil {
		if r, ok := ren[n.atom]; ok {
			return &sx{atom: r}
		}
		return n
	}
	m := &sx{list: make([]*sx, len(n.list))}
	for i, c := range n.list {
		m.list[i] = subst(c, ren)
	}
	return m
}

// seqSortOf guesses the sequence sort of a term from its head symbol.
func (x *Ctx) seqSortOf(n *sx) *Sort {
	byName := func(h string) *Sort {
		for _, s := range x.v.ss.seqOrder {
			id := s.Elem.id()
			for _, p := range []string{"cat_", "sub_", "unit_", "upd_", "rep_", "empty_", "view_"} {
				if h == p+id {
					return s
				}
			}
		}
		return nil
	}
	if n.list == nil {
		if s := byName(n.atom); s != nil {
			return s
		}
		if strings.HasPrefix(n.atom, "str$") {
			return sSeqInt
		}
		for _, d := range x.decls {
			if strings.HasPrefix(d, "(declare-const "+n.atom+" Sq_") {
				so := strings.TrimSuffix(strings.Fields(d)[2], ")")
				return x.v.ss.seqs[so]
			}
		}
		return nil
	}
	h := n.list[0].atom
	if h == "enc" || h == "dec" || h == "pview" {
		return sSeqInt
	}
	if s := byName(h); s != nil {
		return s
	}
	if strings.HasPrefix(h, "u_") {
		if d := x.v.sp.Fns[h[2:]]; d != nil && d.ret != nil && d.ret.K == 'Q' {
			return d.ret
		}
	}
	for _, s := range x.v.ss.order {
		for _, f := range s.Fields {
			if h == s.Name+"_"+f.Name && f.S.K == 'Q' {
				return f.S
			}
		}
	}
	if h == "select" && n.list[1].list == nil {
		for k, s := range x.v.compSorts {
			if s.K == 'A' && s.Elem.K == 'Q' && strings.HasPrefix(n.list[1].atom, k+"!") {
				return s.Elem
			}
		}
	}
	if h == "ite" {
		if s := x.seqSortOf(n.list[2]); s != nil {
			return s
		}
		return x.seqSortOf(n.list[3])
	}
	if h == "at_"+"" {
		return nil
	}
	if strings.HasPrefix(h, "at_Sq_") {
		return x.v.ss.seqs[strings.TrimPrefix(h, "at_")]
	}
	return nil
}

// conjuncts splits a goal so that each part gets its own query.
func conjuncts(g string) []string {
	var out []string
	var rec func(n *sx, wrap func(string) string)
	rec = func(n *sx, wrap func(string) string) {
		if n.list != nil && len(n.list) > 0 {
			switch n.list[0].atom {
			case "and":
				for _, c := range n.list[1:] {
					rec(c, wrap)
				}
				return
			case "=>":
				if len(n.list) == 3 {
					h := n.list[1].String()
					rec(n.list[2], func(s string) string { return wrap("(=> " + h + " " + s + ")") })
					return
				}
			case "or":
				var hs []string
				for _, c := range n.list[1 : len(n.list)-1] {
					hs = append(hs, not(c.String()))
				}
				h := and(hs...)
				rec(n.list[len(n.list)-1], func(s string) string { return wrap("(=> " + h + " " + s + ")") })
				return
			case "forall":
				b := n.list[2]
				if b.list != nil && b.list[0].atom == "!" {
					b = b.list[1]
				}
				vs := n.list[1].String()
				rec(b, func(s string) string { return wrap("(forall " + vs + " " + s + ")") })
				return
			}
		}
		out = append(out, wrap(n.String()))
	}
	rec(parseSx(g), func(s string) string { return s })
	return out
}

// unfold replaces a predicate at the head of a goal by its definition.
func (x *Ctx) unfold(g string) string {
	var rec func(n *sx, depth int) *sx
	rec = func(n *sx, depth int) *sx {
		if len(n.list) == 0 {
			return n
		}
		last := func(i int) *sx {
			m := &sx{list: append([]*sx{}, n.list...)}
			m.list[i] = rec(n.list[i], depth)
			return m
		}
		switch h := n.list[0].atom; {
		case h == "=>" || h == "forall":
			return last(2)
		case h == "!":
			return rec(n.list[1], depth)
		case h == "and":
			m := &sx{list: append([]*sx{}, n.list...)}
			for i := 1; i < len(m.list); i++ {
				m.list[i] = rec(m.list[i], depth)
			}
			return m
		case h == "or":
			return last(len(n.list) - 1)
		case h == "let":
			ren := map[string]*sx{}
			for _, b := range n.list[1].list {
				ren[b.list[0].atom] = b.list[1]
			}
			return rec(substSx(n.list[2], ren), depth)
		case h == "ite" && len(n.list) == 4:
			c := n.list[1].String()
			return parseSx("(and (=> " + c + " " + rec(n.list[2], depth).String() + ") (=> (not " + c + ") " + rec(n.list[3], depth).String() + "))")
		case strings.HasPrefix(h, "u_") && depth < 3:
			d := x.v.sp.Fns[h[2:]]
			if d == nil || d.Kind != "fn" || d.Body == nil || d.ret == nil || d.ret.K != 'B' || d.ax == "" || d.Opaque && !x.reveals[d.Name] {
				return n
			}
			ax := parseSx(strings.TrimSuffix(d.ax, "\n"))
			if len(n.list) == 1 || ax.list[1].list == nil || ax.list[1].list[0].atom != "forall" {
				return n
			}
			eqn := ax.list[1].list[2].list[1]
			body := eqn.list[2]
			if strings.Contains(body.String(), "("+h+" ") {
				return n
			}
			ren := map[string]*sx{}
			for i, a := range eqn.list[1].list[1:] {
				ren[a.atom] = n.list[i+1]
			}
			return rec(substSx(body, ren), depth+1)
		}
		return n
	}
	return rec(parseSx(g), 0).String()
}

func substSx(n *sx, ren map[string]*sx) *sx {
	if n.list == nil {
		if r, ok := ren[n.atom]; ok {
			return r
		}
		return n
	}
	m := &sx{list: make([]*sx, len(n.list))}
	for i, c := range n.list {
		m.list[i] = substSx(c, ren)
	}
	return m
}

type solver struct {
	name string
	args func(file string, secs int) []string
}

var solvers = []solver{
	{"z3-new", func(f string, s int) []string {
		return []string{"z3-new", fmt.Sprintf("-T:%d", s), "smt.case_split=3", f}
	}},
	{"z3", func(f string, s int) []string { return []string{"z3", fmt.Sprintf("-T:%d", s), f} }},
	{"cvc5", func(f string, s int) []string {
		return []string{"cvc5", fmt.Sprintf("--tlimit=%d", s*1000), "--no-mbqi", "--user-pat=trust", f}
	}},
	{"z3-new", func(f string, s int) []string { return []string{"z3-new", fmt.Sprintf("-T:%d", s), f} }},
}

var tmpDir string
var solveSem = make(chan bool, 8)
var queryN int
var queryMu sync.Mutex

// deadline is the overall limit (Unix milliseconds; 0: none).
var deadline atomic.Int64
var keepDir string

// every query is kept, for debugging
var keepAll = os.Getenv("GVC_KEEP") != ""
var keptN int
var failN int

type solveRes struct {
	res, solver, out string
	secs             float64
}

// runSolver decides one query; unsat means the goal is proved.
func runSolver(q string, secs int, which int) solveRes {
	solveSem <- true
	defer func() { <-solveSem }()
	if d := deadline.Load(); d > 0 {
		left := int((d - time.Now().UnixMilli()) / 1000)
		if left < 1 {
			return solveRes{res: "timeout", solver: solvers[which].name, out: "overall time limit"}
		}
		if secs > left {
			secs = left
		}
	}
	queryMu.Lock()
	queryN++
	f := filepath.Join(tmpDir, fmt.Sprintf("q%d.smt2", queryN))
	queryMu.Unlock()
	if solvers[which].name == "cvc5" {
		q = strings.Replace(q, "(set-option :auto_config false)\n(set-option :smt.mbqi false)\n", "(set-logic ALL)\n", 1)
	}
	if err := os.WriteFile(f, []byte(q), 0o644); err != nil {
		return solveRes{res: "error", out: err.Error()}
	}
	if true {
		defer os.Remove(f)
	}
	a := solvers[which].args(f, secs)
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(secs+2)*time.Second)
	defer cancel()
	t0 := time.Now()
	c := exec.CommandContext(ctx, a[0], a[1:]...)
	var o bytes.Buffer
	c.Stdout, c.Stderr = &o, &o
	_ = c.Run()
	r := solveRes{solver: solvers[which].name, secs: time.Since(t0).Seconds(), out: strings.TrimSpace(o.String())}
	if strings.Contains(r.out, "pattern does not contain all quantified variables") {
		r.res = "error"
		return r
	}
	first := strings.SplitN(r.out, "\n", 2)[0]
	switch {
	case first == "unsat":
		r.res = "proved"
	case first == "sat":
		r.res = "refuted"
	case first == "unknown":
		r.res = "unknown"
	case strings.Contains(r.out, "error"):
		r.res = "error"
	default:
		r.res = "timeout"
	}
	return r
}

// lite drops the marked axioms from a query.
func lite(q string, cut []string) string {
	L := strings.Split(q, "\n")
	var r []string
next:
	for _, l := range L {
		for _, c := range cut {
			if strings.HasSuffix(l, c) {
				continue next
			}
		}
		r = append(r, l)
	}
	return strings.Join(r, "\n")
}

// paths lists the ways control can reach a block, as conditions; their
// disjunction is implied by the block's reach condition.
func (b *Blk) paths(limit int) []string {
	if len(b.froms) == 0 || limit < len(b.froms) {
		return []string{""}
	}
	var r []string
	for i, f := range b.froms {
		for _, p := range f.paths(limit / len(b.froms)) {
			if p == "" {
				r = append(r, b.conds[i])
			} else {
				r = append(r, "(and "+b.conds[i]+" "+p+")")
			}
		}
	}
	return r
}

// proveSplit tries the goal path by path.
func (x *Ctx) proveSplit(o *Obl, q string, budget []int, names map[string]bool) bool {
	ps := o.blk.paths(24)
	if len(ps) < 2 {
		return false
	}
	for _, p := range ps {
		qp := strings.TrimSuffix(q, "(check-sat)\n") + "(assert " + p + ")\n(check-sat)\n"
		ok := false
		for _, cut := range [][]string{{" ;SA"}, {" ;SA", " ;SB"}} {
			r := runSolver(lite(qp, cut), 1, 0)
			o.Secs += r.secs
			if r.res == "proved" {
				ok = true
				names[r.solver] = true
				break
			}
		}
		if ok {
			continue
		}
		for i, secs := range budget {
			if secs == 0 {
				continue
			}
			r := runSolver(qp, secs, i)
			o.Secs += r.secs
			if r.res == "proved" {
				ok = true
				names[r.solver] = true
				break
			}
		}
		if !ok {
			if *showCands {
				fmt.Println("SPLIT FAIL", o.Label, p)
			}
			return false
		}
	}
	return true
}

// prove runs the portfolio on a goal until a solver accepts it.
func (x *Ctx) prove(o *Obl, alive func(*Cand) bool, lem []string, budget []int) {
	using := o.using
	if o.cand != nil {
		using = o.cand.using
	}
	if using != nil {
		var some []string
		for _, t := range lem {
			if has(using, x.lemName[t]) {
				some = append(some, t)
			}
		}
		lem = some
	}
	parts := conjuncts(o.goal)
	tried := map[string]bool{}
	o.Secs = 0
	o.Res = "proved"
	names := map[string]bool{}
	for len(parts) > 0 {
		g := parts[0]
		parts = parts[1:]
		q := x.build(o, alive, g, lem)
		qNear := ""
		if near, others := x.nearest(o, alive); others && (o.cand == nil || !o.cand.auto) {
			qNear = x.buildNear(o, alive, g, lem, near)
		}
		ok := false
		if keepDir != "" && keepAll {
			keptN++
			os.WriteFile(filepath.Join(keepDir, fmt.Sprintf("keep%d.smt2", keptN)), []byte("; "+o.Label+"\n"+q), 0o644)
		}
		var last solveRes
		// short attempts with every solver before long ones
		rounds := [][]int{budget}
		if budget[0] > 4 {
			short := make([]int, len(budget))
			for i := range short {
				short[i] = min(3, budget[i])
			}
			rounds = [][]int{short, budget}
		}
		// a first look with less about pieces of sequences: fewer matches
		for _, cut := range [][]string{{" ;SA"}, {" ;SA", " ;SB"}} {
			if ok || budget[0] == 0 {
				break
			}
			r := runSolver(lite(q, cut), 1, 0)
			o.Secs += r.secs
			if r.res == "proved" {
				ok = true
				names[r.solver] = true
			}
		}
		for _, bud := range rounds {
			if ok {
				break
			}
			slow := false
			for i, secs := range bud {
				if secs == 0 {
					continue
				}
				last = runSolver(q, secs, i)
				slow = slow || last.res == "timeout"
				o.Secs += last.secs
				if last.res == "proved" {
					ok = true
					names[last.solver] = true
					break
				}
				if qNear != "" && solvers[i].name == "z3-new" && last.res != "error" {
					r := runSolver(qNear, secs, i)
					o.Secs += r.secs
					if r.res == "proved" {
						ok = true
						names[r.solver] = true
						break
					}
				}
				if last.res == "error" {
					o.Res, o.Out = "error", last.out
					if keepDir != "" {
						os.WriteFile(filepath.Join(keepDir, "error.smt2"), []byte(q), 0o644)
					}
					return
				}
			}
			if ok {
				break
			}
			if slow && (o.cand == nil || !o.cand.auto) {
				if ok = x.proveSplit(o, q, bud, names); ok {
					break
				}
			}
		}
		if !ok && !tried[g] {
			if wider := conjuncts(x.unfold(g)); len(wider) > 1 {
				for _, w := range wider {
					tried[w] = true
				}
				parts = append(wider, parts...)
				continue
			}
		}
		if !ok {
			o.Res, o.Out, o.Solver = last.res, last.out, last.solver
			if true {
				o.Out = g + "\n" + last.out
				if keepDir != "" {
					queryMu.Lock()
					failN++
					f := filepath.Join(keepDir, fmt.Sprintf("fail%d.smt2", failN))
					queryMu.Unlock()
					os.WriteFile(f, []byte(q), 0o644)
					o.Out += " " + f
				}
			}
			return
		}
	}
	var ns []string
	for n := range names {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	o.Solver = strings.Join(ns, "+")
}

const encHom = `
(assert (= (enc empty_Int) empty_Int))
(assert (forall ((a Sq_Int) (b Sq_Int)) (! (= (enc (cat_Int a b)) (cat_Int (enc a) (enc b))) :pattern ((enc (cat_Int a b))))))
(assert (forall ((s Sq_Int) (i Int) (j Int) (k Int)) (! (=> (and (<= 0 i) (<= i j) (<= j k) (<= k (len_Int s))) (= (enc (sub_Int s i k)) (cat_Int (enc (sub_Int s i j)) (enc (sub_Int s j k))))) :pattern ((enc (sub_Int s i j)) (enc (sub_Int s j k))))))
`
