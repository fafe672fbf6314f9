package main

import (
	"fmt"
	"strings"
)

// seqAxioms is the theory of finite sequences over one element sort. E is the
// element's name fragment, S the SMT element sort.
const seqAxioms = `
(declare-sort Sq_E 0)
(declare-fun len_E (Sq_E) Int)
(declare-fun at_E (Sq_E Int) $S)
(declare-const empty_E Sq_E)
(declare-fun unit_E ($S) Sq_E)
(declare-fun cat_E (Sq_E Sq_E) Sq_E)
(declare-fun sub_E (Sq_E Int Int) Sq_E)
(declare-fun upd_E (Sq_E Int $S) Sq_E)
(declare-fun rep_E ($S Int) Sq_E)
(declare-fun diff_E (Sq_E Sq_E) Int)
(assert (forall ((s Sq_E)) (! (>= (len_E s) 0) :pattern ((len_E s)))))
(assert (= (len_E empty_E) 0))
(assert (forall ((s Sq_E)) (! (=> (= (len_E s) 0) (= s empty_E)) :pattern ((len_E s)))))
(assert (forall ((x $S)) (! (and (= (len_E (unit_E x)) 1) (= (at_E (unit_E x) 0) x)) :pattern ((unit_E x)))))
(assert (forall ((a Sq_E) (b Sq_E)) (! (= (len_E (cat_E a b)) (+ (len_E a) (len_E b))) :pattern ((cat_E a b)))))
(assert (forall ((a Sq_E) (b Sq_E) (i Int)) (! (=> (and (<= 0 i) (< i (len_E a))) (= (at_E (cat_E a b) i) (at_E a i))) :pattern ((at_E (cat_E a b) i)))))
(assert (forall ((a Sq_E) (b Sq_E) (i Int)) (! (=> (and (not (= a empty_E)) (<= (len_E a) i) (< i (+ (len_E a) (len_E b)))) (= (at_E (cat_E a b) i) (at_E b (- i (len_E a))))) :pattern ((at_E (cat_E a b) i)))))
(assert (forall ((s Sq_E) (i Int) (j Int)) (! (=> (and (<= 0 i) (<= i j) (<= j (len_E s))) (= (len_E (sub_E s i j)) (- j i))) :pattern ((sub_E s i j)))))
(assert (forall ((s Sq_E) (i Int) (j Int) (k Int)) (! (=> (and (not (= (sub_E s i j) s)) (<= 0 i) (<= i j) (<= j (len_E s)) (<= 0 k) (< k (- j i))) (= (at_E (sub_E s i j) k) (at_E s (+ i k)))) :pattern ((at_E (sub_E s i j) k)))))
(assert (forall ((s Sq_E) (i Int) (j Int)) (! (=> (and (= i j) (<= 0 i) (<= i (len_E s))) (= (sub_E s i j) empty_E)) :pattern ((sub_E s i j)))))
(assert (forall ((s Sq_E) (i Int) (j Int)) (! (=> (and (= i 0) (= j (len_E s))) (= (sub_E s i j) s)) :pattern ((sub_E s i j)))))
(assert (forall ((s Sq_E) (i Int) (j Int)) (! (=> (and (= j (+ i 1)) (<= 0 i) (< i (len_E s))) (= (sub_E s i j) (unit_E (at_E s i)))) :pattern ((sub_E s i j)))))
(assert (forall ((s Sq_E) (i Int) (j Int) (k Int) (l Int)) (! (=> (and (not (= (sub_E s i j) s)) (<= 0 i) (<= i j) (<= j (len_E s)) (<= 0 k) (<= k l) (<= l (- j i))) (= (sub_E (sub_E s i j) k l) (sub_E s (+ i k) (+ i l)))) :pattern ((sub_E (sub_E s i j) k l))))) ;SB
(assert (forall ((a Sq_E) (b Sq_E)) (! (=> (= a empty_E) (= (cat_E a b) b)) :pattern ((cat_E a b)))))
(assert (forall ((a Sq_E) (b Sq_E)) (! (=> (= b empty_E) (= (cat_E a b) a)) :pattern ((cat_E a b)))))
(assert (forall ((a Sq_E) (b Sq_E) (c Sq_E)) (! (= (cat_E (cat_E a b) c) (cat_E a (cat_E b c))) :pattern ((cat_E (cat_E a b) c)))))
(assert (forall ((a Sq_E) (b Sq_E) (c Sq_E)) (! (= (cat_E (cat_E a b) c) (cat_E a (cat_E b c))) :pattern ((cat_E a (cat_E b c))))))
(assert (forall ((s Sq_E) (i Int) (j Int) (k Int)) (! (=> (and (<= 0 i) (<= i j) (<= j k) (<= k (len_E s))) (= (cat_E (sub_E s i j) (sub_E s j k)) (sub_E s i k))) :pattern ((sub_E s i j) (sub_E s j k)))))
(assert (forall ((s Sq_E) (i Int) (j Int) (k Int)) (! (=> (and (<= 0 i) (<= i j) (= k (+ j 1)) (<= k (len_E s))) (= (sub_E s i k) (cat_E (sub_E s i j) (unit_E (at_E s j))))) :pattern ((sub_E s i j) (sub_E s i k))))) ;SB
(assert (forall ((s Sq_E) (i Int) (j Int) (k Int)) (! (=> (and (<= 0 i) (= j (+ i 1)) (<= j k) (<= k (len_E s))) (= (sub_E s i k) (cat_E (unit_E (at_E s i)) (sub_E s j k)))) :pattern ((sub_E s i k) (sub_E s j k))))) ;SB
(assert (forall ((a Sq_E) (b Sq_E) (i Int) (j Int)) (! (=> (and (not (= b empty_E)) (<= 0 i) (<= i j) (<= j (len_E a))) (= (sub_E (cat_E a b) i j) (sub_E a i j))) :pattern ((sub_E (cat_E a b) i j))))) ;SA
(assert (forall ((a Sq_E) (b Sq_E) (i Int) (j Int)) (! (=> (and (not (= a empty_E)) (<= (len_E a) i) (<= i j) (<= j (+ (len_E a) (len_E b)))) (= (sub_E (cat_E a b) i j) (sub_E b (- i (len_E a)) (- j (len_E a))))) :pattern ((sub_E (cat_E a b) i j))))) ;SA
(assert (forall ((a Sq_E) (b Sq_E) (i Int) (j Int)) (! (=> (and (not (= a empty_E)) (not (= b empty_E)) (<= 0 i) (<= i (len_E a)) (<= (len_E a) j) (<= j (+ (len_E a) (len_E b)))) (= (sub_E (cat_E a b) i j) (cat_E (sub_E a i (len_E a)) (sub_E b 0 (- j (len_E a)))))) :pattern ((sub_E (cat_E a b) i j))))) ;SA
(assert (forall ((s Sq_E) (i Int) (x $S)) (! (=> (and (<= 0 i) (< i (len_E s))) (and (= (len_E (upd_E s i x)) (len_E s)) (= (at_E (upd_E s i x) i) x))) :pattern ((upd_E s i x)))))
(assert (forall ((s Sq_E) (i Int) (x $S) (j Int)) (! (=> (and (<= 0 i) (< i (len_E s)) (not (= i j))) (= (at_E (upd_E s i x) j) (at_E s j))) :pattern ((at_E (upd_E s i x) j)))))
(assert (forall ((s Sq_E) (i Int) (x $S) (j Int) (k Int)) (! (=> (and (<= 0 j) (<= j k) (<= k i) (< i (len_E s))) (= (sub_E (upd_E s i x) j k) (sub_E s j k))) :pattern ((sub_E (upd_E s i x) j k)))))
(assert (forall ((s Sq_E) (i Int) (x $S) (j Int) (k Int)) (! (=> (and (<= 0 i) (< i j) (<= j k) (<= k (len_E s))) (= (sub_E (upd_E s i x) j k) (sub_E s j k))) :pattern ((sub_E (upd_E s i x) j k)))))
(assert (forall ((x $S) (n Int)) (! (=> (<= 0 n) (= (len_E (rep_E x n)) n)) :pattern ((rep_E x n)))))
(assert (forall ((x $S) (n Int) (i Int)) (! (=> (and (<= 0 i) (< i n)) (= (at_E (rep_E x n) i) x)) :pattern ((at_E (rep_E x n) i)))))
`

const memAxioms = `
(declare-datatypes ((Slc 0)) (((mkslc (slref Int) (sloff Int) (sllen Int)))))
(declare-fun base (Int) Int)
(declare-fun el (Int Int) Int)
(declare-fun elo (Int Int Int) Int)
(declare-fun elr (Int) Int)
(declare-fun eli (Int) Int)
(assert (= (base 0) 0))
(assert (forall ((r Int) (o Int) (k Int)) (! (= (elo r o k) (el r (+ o k))) :pattern ((elo r o k)))))
(assert (forall ((r Int) (i Int)) (! (and (= (elr (el r i)) r) (= (eli (el r i)) i) (= (base (el r i)) (base r)) (not (= (el r i) 0))) :pattern ((el r i)))))
`

const textAxioms = `
(declare-fun enc (Sq_Int) Sq_Int)
(declare-fun dec (Sq_Int) Sq_Int)
(declare-fun valid8 (Sq_Int) Bool)
(declare-fun vr (Sq_Int) Bool)
(assert (= (dec empty_Int) empty_Int))
(assert (forall ((s Sq_Int)) (! (valid8 (enc s)) :pattern ((enc s)))))
(assert (forall ((s Sq_Int)) (! (=> (valid8 s) (= (enc (dec s)) s)) :pattern ((valid8 s)))))
(assert (forall ((s Sq_Int)) (! (vr (dec s)) :pattern ((dec s)))))
(assert (forall ((s Sq_Int)) (! (=> (vr s) (= (dec (enc s)) s)) :pattern ((dec (enc s))))))
(assert (forall ((s Sq_Int)) (! (<= (len_Int (dec s)) (len_Int s)) :pattern ((dec s)))))
(assert (forall ((s Sq_Int)) (! (=> (> (len_Int s) 0) (> (len_Int (dec s)) 0)) :pattern ((dec s)))))
(assert (forall ((s Sq_Int)) (! (and (<= (len_Int s) (len_Int (enc s))) (<= (len_Int (enc s)) (* 4 (len_Int s)))) :pattern ((enc s)))))
(assert (vr empty_Int))
(assert (forall ((s Sq_Int) (i Int) (j Int)) (! (=> (and (vr s) (<= 0 i) (<= i j) (<= j (len_Int s))) (vr (sub_Int s i j))) :pattern ((sub_Int s i j) (vr s)))))
(assert (forall ((a Sq_Int) (b Sq_Int)) (! (=> (and (vr a) (vr b)) (vr (cat_Int a b))) :pattern ((vr (cat_Int a b))))))
(assert (forall ((a Sq_Int) (b Sq_Int)) (! (=> (and (valid8 a) (valid8 b)) (valid8 (cat_Int a b))) :pattern ((valid8 (cat_Int a b))))))
(assert (forall ((s Sq_Int) (i Int)) (! (=> (and (vr s) (<= 0 i) (< i (len_Int s))) (vr (unit_Int (at_Int s i)))) :pattern ((vr s) (at_Int s i)))))
(declare-fun strlt (Sq_Int Sq_Int) Bool)
(assert (forall ((a Sq_Int)) (! (not (strlt a a)) :pattern ((strlt a a)))))
(assert (forall ((a Sq_Int) (b Sq_Int)) (! (=> (strlt a b) (not (strlt b a))) :pattern ((strlt a b)))))
(assert (forall ((a Sq_Int) (b Sq_Int)) (! (or (= a b) (strlt a b) (strlt b a)) :pattern ((strlt a b)))))
(assert (forall ((a Sq_Int) (b Sq_Int) (c Sq_Int)) (! (=> (and (strlt a b) (strlt b c)) (strlt a c)) :pattern ((strlt a b) (strlt b c)))))
`

const floatAxioms = `
(declare-fun fadd (Real Real) Real)
(declare-fun fsub (Real Real) Real)
(declare-fun fmul (Real Real) Real)
(declare-fun fdiv (Real Real) Real)
(declare-fun i2f (Int) Real)
(declare-fun f2i (Real) Int)
(declare-fun f32 (Real) Real)
(declare-fun fneg (Real) Real)
(declare-fun flog (Real) Real)
(declare-fun flog2 (Real) Real)
(assert (forall ((n Int)) (! (and (=> (>= n 0) (>= (i2f n) 0.0)) (=> (> n 0) (> (i2f n) 0.0))) :pattern ((i2f n)))))
(assert (forall ((a Real) (b Real)) (! (=> (and (>= a 0.0) (> b 0.0)) (>= (fdiv a b) 0.0)) :pattern ((fdiv a b)))))
(assert (forall ((a Real)) (! (=> (>= a 0.0) (>= (f2i a) 0)) :pattern ((f2i a)))))
(assert (forall ((a Real)) (! (=> (>= a 0.0) (>= (f32 a) 0.0)) :pattern ((f32 a)))))
`

// homAxioms instantiates the monoid-morphism axioms for a homomorphism symbol.
func homAxioms(name, comps, compArgs string, in, out *Sort, op string, unitBody string, elemVar string) string {
	// comps: "(c0 sort) (c1 sort)", compArgs: "c0 c1"
	var b strings.Builder
	E := in.Elem.id()
	SQ := in.SMT()
	cat := func(x, y string) string {
		switch op {
		case "cat":
			return fmt.Sprintf("(cat_%s %s %s)", out.Elem.id(), x, y)
		case "+":
			return fmt.Sprintf("(+ %s %s)", x, y)
		case "and":
			return fmt.Sprintf("(and %s %s)", x, y)
		case "or":
			return fmt.Sprintf("(or %s %s)", x, y)
		}
		panic(op)
	}
	var unit string
	switch op {
	case "cat":
		unit = "empty_" + out.Elem.id()
	case "+":
		unit = "0"
	case "and":
		unit = "true"
	case "or":
		unit = "false"
	}
	H := func(s string) string {
		if compArgs == "" {
			return fmt.Sprintf("(%s %s)", name, s)
		}
		return fmt.Sprintf("(%s %s %s)", name, compArgs, s)
	}
	fa := func(vars, body, pat string) {
		fmt.Fprintf(&b, "(assert (forall (%s %s) (! %s :pattern %s)))\n", comps, vars, body, pat)
	}
	sq := "(s " + SQ + ")"
	fa(sq, fmt.Sprintf("(=> (= s empty_%s) (= %s %s))", E, H("s"), unit), "("+H("s")+")")
	fa(fmt.Sprintf("(%s %s)", elemVar, in.Elem.SMT()), fmt.Sprintf("(= %s %s)", H("(unit_"+E+" "+elemVar+")"), unitBody), "("+H("(unit_"+E+" "+elemVar+")")+")")
	fa(fmt.Sprintf("(a %s) (b %s)", SQ, SQ), fmt.Sprintf("(= %s %s)", H(fmt.Sprintf("(cat_%s a b)", E)), cat(H("a"), H("b"))), "("+H(fmt.Sprintf("(cat_%s a b)", E))+")")
	sb := func(i, j string) string { return fmt.Sprintf("(sub_%s s %s %s)", E, i, j) }
	fa(sq+" (i Int) (j Int) (k Int)",
		fmt.Sprintf("(=> (and (<= 0 i) (<= i j) (<= j k) (<= k (len_%s s))) (= %s %s))", E, H(sb("i", "k")), cat(H(sb("i", "j")), H(sb("j", "k")))),
		"("+H(sb("i", "j"))+" "+H(sb("j", "k"))+")")
	fa(sq+" (i Int) (j Int) (k Int)",
		fmt.Sprintf("(=> (and (<= 0 i) (<= i j) (= k (+ j 1)) (<= k (len_%s s))) (= %s %s))", E, H(sb("i", "k")), cat(H(sb("i", "j")), H(fmt.Sprintf("(unit_%s (at_%s s j))", E, E)))),
		"("+H(sb("i", "j"))+" "+H(sb("i", "k"))+")")
	fa(sq+" (i Int) (j Int) (k Int)",
		fmt.Sprintf("(=> (and (<= 0 i) (= j (+ i 1)) (<= j k) (<= k (len_%s s))) (= %s %s))", E, H(sb("i", "k")), cat(H(fmt.Sprintf("(unit_%s (at_%s s i))", E, E)), H(sb("j", "k")))),
		"("+H(sb("i", "k"))+" "+H(sb("j", "k"))+")")
	if op == "cat" && out.Elem != nil && strings.HasPrefix(unitBody, "(unit_"+out.Elem.id()+" ") {
		// a map: one element for each element (follows by induction)
		e := strings.TrimSuffix(strings.TrimPrefix(unitBody, "(unit_"+out.Elem.id()+" "), ")")
		fa(sq, fmt.Sprintf("(= (len_%s %s) (len_%s s))", out.Elem.id(), H("s"), E), "("+H("s")+")")
		fa(sq+" (i Int)", fmt.Sprintf("(=> (and (<= 0 i) (< i (len_%s s))) (= (at_%s %s i) (let ((%s (at_%s s i))) %s)))", E, out.Elem.id(), H("s"), elemVar, E, e), fmt.Sprintf("((at_%s %s i))", out.Elem.id(), H("s")))
	}
	if op == "or" || op == "and" {
		// some / every element
		at := func(i string) string { return fmt.Sprintf("(at_%s s %s)", E, i) }
		holds := func(i string) string { return fmt.Sprintf("(let ((%s %s)) %s)", elemVar, at(i), unitBody) }
		w := "w" + strings.TrimPrefix(name, "u") + "!w"
		ws := H("s")
		ws = "(" + w + ws[len(name)+1:]
		if op == "or" {
			fa(sq+" (i Int)", fmt.Sprintf("(=> (and (<= 0 i) (< i (len_%s s)) %s) %s)", E, holds("i"), H("s")), "("+H("s")+" "+at("i")+")")
			fa(sq, fmt.Sprintf("(=> %s (and (<= 0 %s) (< %s (len_%s s)) %s))", H("s"), ws, ws, E, holds(ws)), "("+H("s")+")")
		} else {
			fa(sq+" (i Int)", fmt.Sprintf("(=> (and (<= 0 i) (< i (len_%s s)) %s) %s)", E, H("s"), holds("i")), "("+H("s")+" "+at("i")+")")
			fa(sq, fmt.Sprintf("(=> (not %s) (and (<= 0 %s) (< %s (len_%s s)) (not %s)))", H("s"), ws, ws, E, holds(ws)), "("+H("s")+")")
		}
	}
	// whole sequence against a prefix that is one element (or nothing) short
	fa(sq+" (j Int)",
		fmt.Sprintf("(=> (and (<= 0 j) (<= j (len_%s s))) (= %s %s))", E, H("s"), cat(H(sb("0", "j")), H(fmt.Sprintf("(sub_%s s j (len_%s s))", E, E)))),
		"("+H("s")+" "+H(sb("0", "j"))+")")
	return b.String()
}

// foldAxioms instantiates the axioms of a left fold.
func foldAxioms(name, comps, compArgs string, in, out *Sort, init, step, acc, elemVar string) string {
	var b strings.Builder
	E := in.Elem.id()
	SQ := in.SMT()
	H := func(s string) string {
		if compArgs == "" {
			return fmt.Sprintf("(%s %s)", name, s)
		}
		return fmt.Sprintf("(%s %s %s)", name, compArgs, s)
	}
	fa := func(vars, body, pat string) {
		fmt.Fprintf(&b, "(assert (forall (%s %s) (! %s :pattern %s)))\n", comps, vars, body, pat)
	}
	sq := "(s " + SQ + ")"
	fa(sq, fmt.Sprintf("(=> (= s empty_%s) (= %s %s))", E, H("s"), init), "("+H("s")+")")
	stepOf := func(a, x string) string {
		return fmt.Sprintf("(let ((%s %s) (%s %s)) %s)", acc, a, elemVar, x, step)
	}
	fa(sq+fmt.Sprintf(" (x %s)", in.Elem.SMT()),
		fmt.Sprintf("(= %s %s)", H(fmt.Sprintf("(cat_%s s (unit_%s x))", E, E)), stepOf(H("s"), "x")),
		"("+H(fmt.Sprintf("(cat_%s s (unit_%s x))", E, E))+")")
	sb := func(i, j string) string { return fmt.Sprintf("(sub_%s s %s %s)", E, i, j) }
	fa(sq+" (j Int) (k Int)",
		fmt.Sprintf("(=> (and (<= 0 j) (= k (+ j 1)) (<= k (len_%s s))) (= %s %s))", E, H(sb("0", "k")), stepOf(H(sb("0", "j")), fmt.Sprintf("(at_%s s j)", E))),
		"("+H(sb("0", "j"))+" "+H(sb("0", "k"))+")")
	fa(sq+" (j Int)",
		fmt.Sprintf("(=> (and (<= 0 j) (= (+ j 1) (len_%s s))) (= %s %s))", E, H("s"), stepOf(H(sb("0", "j")), fmt.Sprintf("(at_%s s j)", E))),
		"("+H("s")+" "+H(sb("0", "j"))+")")
	return b.String()
}
