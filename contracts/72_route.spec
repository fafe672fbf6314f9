extern math.Log(x) (r)
  ensures r == flog(x)
// the logarithm of a step's probability; a step that is no word counts once
fn wgt(d: *gse.Dictionary, rs: []rune, k: int, i: int) real = fsub(flog(if pw(d, rs, k, i) then wordFreq(d, enc(rs[k:i+1])) else 1.0), flog(d.totalFreq))
fn stepVal(d: *gse.Dictionary, rs: []rune, R: arr[int,gse.route], k: int, i: int) real = fadd(wgt(d, rs, k, i), R[i+1].freq)
opaque bestOf(d: *gse.Dictionary, rs: []rune, R: arr[int,gse.route], k: int, l: []int, r: gse.route) bool = memI(r.index, l) && r.freq == stepVal(d, rs, R, k, r.index) && (forall i: int :: memI(i, l) ==> stepVal(d, rs, R, k, i) <= r.freq)
opaque routeOK(d: *gse.Dictionary, rs: []rune, R: arr[int,gse.route], k: int) bool = edge(d, rs, k, R[k].index) && R[k].freq == stepVal(d, rs, R, k, R[k].index) && (forall i: int :: edge(d, rs, k, i) ==> stepVal(d, rs, R, k, i) <= R[k].freq)

lemma route_best(d: *gse.Dictionary, rs: []rune, R: arr[int,gse.route], k: int, l: []int)
  requires dagDone(d, rs, k, l) && bestOf(d, rs, R, k, l, R[k])
  ensures routeOK(d, rs, R, k)
  trigger dagDone(d, rs, k, l), bestOf(d, rs, R, k, l, R[k])
  uses =dagDone, =routeOK, =bestOf
lemma route_in(d: *gse.Dictionary, rs: []rune, R: arr[int,gse.route], k: int)
  requires routeOK(d, rs, R, k)
  ensures k <= R[k].index && R[k].index < len(rs)
  trigger routeOK(d, rs, R, k)
  uses =routeOK
lemma route_frame(d: *gse.Dictionary, rs: []rune, R: arr[int,gse.route], S: arr[int,gse.route], k: int, x: int, v: gse.route)
  requires routeOK(d, rs, R, k) && x < k && S == store(R, x, v)
  ensures routeOK(d, rs, S, k)
  trigger routeOK(d, rs, R, k), routeOK(d, rs, S, k), store(R, x, v)
  uses =routeOK
lemma dag_some(d: *gse.Dictionary, rs: []rune, k: int, l: []int)
  requires dagDone(d, rs, k, l)
  ensures len(l) > 0
  trigger dagDone(d, rs, k, l)
  uses =dagDone
lemma dag_range(d: *gse.Dictionary, rs: []rune, k: int, l: []int, j: int)
  requires dagDone(d, rs, k, l) && 0 <= j && j < len(l)
  ensures k <= l[j] && l[j] < len(rs)
  trigger dagDone(d, rs, k, l), l[j]
  uses =dagDone, mem_nth
  check memI(l[j], l)
lemma mem_sub(d: *gse.Dictionary, rs: []rune, x: int, k: int, l: []int, i: int)
  requires dagDone(d, rs, k, l) && 0 <= i && i <= len(l) && memI(x, l[:i])
  ensures k <= x && x < len(rs)
  trigger dagDone(d, rs, k, l), memI(x, l[:i])
  uses =dagDone
  check l == l[:i] ++ l[i:]
  check memI(x, l)
lemma best_first(d: *gse.Dictionary, rs: []rune, R: arr[int,gse.route], k: int, l: []int, j: int, r: gse.route)
  requires j == 1 && len(l) > 0 && r.index == l[0] && r.freq == stepVal(d, rs, R, k, l[0])
  ensures bestOf(d, rs, R, k, l[:j], r)
  trigger bestOf(d, rs, R, k, l[:j], r)
  uses =bestOf
  check l[:j] == unit(l[0])
lemma best_next(d: *gse.Dictionary, rs: []rune, R: arr[int,gse.route], S: arr[int,gse.route], k: int, l: []int, i: int, j: int, r: gse.route)
  requires 0 <= i && j == i + 1 && j <= len(l) && dagDone(d, rs, k, l) && bestOf(d, rs, R, k, l[:i], R[k])
  requires (S == R && r == R[k] && stepVal(d, rs, R, k, l[i]) <= r.freq) || (S == store(R, k, r) && r.index == l[i] && r.freq == stepVal(d, rs, R, k, l[i]) && R[k].freq <= r.freq)
  ensures bestOf(d, rs, S, k, l[:j], r)
  trigger bestOf(d, rs, R, k, l[:i], R[k]), bestOf(d, rs, S, k, l[:j], r)
  uses =bestOf, dag_range, mem_sub
  check l[:j] == l[:i] ++ unit(l[i])
  check forall x: int :: memI(x, l[:j]) ==> x >= k
  check forall x: int :: memI(x, l[:j]) ==> stepVal(d, rs, S, k, x) == stepVal(d, rs, R, k, x)

func (*gse.Segmenter).calc(seg, runes) (rm)
  prop C05, C23
  uses route_best, route_in, route_frame, dag_some, dag_range, best_first, best_next
  requires dictOK(seg.Dict)
  ensures isfresh(rm) && (forall k: int :: has(rm, k) <==> 0 <= k && k <= len(runes)) && vals(rm)[len(runes)].freq == 0.0
  ensures @best:C05: forall k: int :: 0 <= k && k < len(runes) ==> routeOK(seg.Dict, runes, vals(rm), k)
  ensures forall k: int :: 0 <= k && k < len(runes) ==> k <= vals(rm)[k].index && vals(rm)[k].index < len(runes)
  inv phi x: int, val m: map[int]gse.route :: -1 <= x && x < len(runes) && (forall q: int :: has(m, q) <==> x < q && q <= len(runes)) && vals(m)[len(runes)].freq == 0.0
  inv phi x: int, val m: map[int]gse.route :: forall q: int :: x < q && q < len(runes) ==> routeOK(seg.Dict, runes, vals(m), q)
  inv phi x: int, val m: map[int]gse.route :: forall q: int :: x < q && q < len(runes) ==> q <= vals(m)[q].index && vals(m)[q].index < len(runes)
  inv phi j: int, val x: int, val m: map[int]gse.route, val l: []int :: j <= len(l) && dagDone(seg.Dict, runes, x, l) && (forall q: int :: has(m, q) <==> (x < q && q <= len(runes)) || (q == x && j > 0)) && vals(m)[len(runes)].freq == 0.0
  inv phi j: int, val x: int, val m: map[int]gse.route, val l: []int :: forall q: int :: x < q && q < len(runes) ==> routeOK(seg.Dict, runes, vals(m), q)
  inv phi j: int, val x: int, val m: map[int]gse.route, val l: []int :: forall q: int :: x < q && q < len(runes) ==> q <= vals(m)[q].index && vals(m)[q].index < len(runes)
  inv phi j: int, val x: int, val m: map[int]gse.route, val l: []int :: j > 0 ==> bestOf(seg.Dict, runes, vals(m), x, l[:j], vals(m)[x])

// every route through the word graph, as the starts of its steps, the last step first
def stepEnd(rs: []rune, ps: []int, i: int) = (if i == 0 then len(rs) else ps[i-1]) - 1
fn legal(d: *gse.Dictionary, rs: []rune, ps: []int) bool = forall i: int :: 0 <= i && i < len(ps) ==> 0 <= ps[i] && edge(d, rs, ps[i], stepEnd(rs, ps, i))
// the sum of its weights (freq) and where it starts (index)
fold run(d: *gse.Dictionary, rs: []rune, ps: []int) gse.route = mk(gse.route, 0.0, len(rs)) ; mk(gse.route, fadd(wgt(d, rs, x, acc.index - 1), acc.freq), x)
axiom fadd_mono(a: real, b: real, c: real)
  requires b <= c
  trigger fadd(a, b), fadd(a, c)
  ensures fadd(a, b) <= fadd(a, c)
  note IEEE addition is monotone in each argument

opaque bestTable(d: *gse.Dictionary, rs: []rune, R: arr[int,gse.route]) bool = (forall j: int :: 0 <= j && j < len(rs) ==> routeOK(d, rs, R, j)) && R[len(rs)].freq == 0.0
// no route through the word graph scores higher
lemma route_opt(d: *gse.Dictionary, rs: []rune, R: arr[int,gse.route], ps: []int)
  prop C05
  requires bestTable(d, rs, R)
  requires legal(d, rs, ps)
  ensures run(d, rs, ps).index == (if len(ps) == 0 then len(rs) else ps[len(ps)-1]) && run(d, rs, ps).freq <= R[run(d, rs, ps).index].freq
  decreases len(ps)
  trigger bestTable(d, rs, R), legal(d, rs, ps), run(d, rs, ps)
  uses fadd_mono, =routeOK, =bestTable
  check len(ps) > 0 ==> ps == ps[:len(ps)-1] ++ unit(ps[len(ps)-1])
  check len(ps) > 0 ==> legal(d, rs, ps[:len(ps)-1])
  check len(ps) > 0 ==> run(d, rs, ps[:len(ps)-1]).index == stepEnd(rs, ps, len(ps)-1) + 1
  check len(ps) > 0 ==> edge(d, rs, ps[len(ps)-1], run(d, rs, ps[:len(ps)-1]).index - 1) && routeOK(d, rs, R, ps[len(ps)-1])
  check len(ps) > 0 ==> run(d, rs, ps).freq == fadd(wgt(d, rs, ps[len(ps)-1], run(d, rs, ps[:len(ps)-1]).index - 1), run(d, rs, ps[:len(ps)-1]).freq)
  check len(ps) > 0 ==> stepVal(d, rs, R, ps[len(ps)-1], run(d, rs, ps[:len(ps)-1]).index - 1) <= R[ps[len(ps)-1]].freq

// the route that the table describes, from x on
fn starts(R: arr[int,gse.route], n: int, x: int) []int
axiom starts_none(R: arr[int,gse.route], n: int, x: int)
  requires x >= n
  trigger starts(R, n, x)
  ensures starts(R, n, x) == nil
  note definition by recursion on the position
axiom starts_step(R: arr[int,gse.route], n: int, x: int, y: int)
  requires 0 <= x && x < y && y <= n && y == R[x].index + 1
  trigger starts(R, n, x), starts(R, n, y)
  ensures starts(R, n, x) == starts(R, n, y) ++ unit(x)
  note definition by recursion on the position
lemma route_attained(d: *gse.Dictionary, rs: []rune, R: arr[int,gse.route], x: int)
  prop C05
  requires bestTable(d, rs, R)
  requires 0 <= x && x <= len(rs)
  ensures legal(d, rs, starts(R, len(rs), x)) && run(d, rs, starts(R, len(rs), x)).index == x && run(d, rs, starts(R, len(rs), x)).freq == R[x].freq && (if len(starts(R, len(rs), x)) == 0 then x == len(rs) else starts(R, len(rs), x)[len(starts(R, len(rs), x))-1] == x)
  decreases len(rs) - x
  trigger bestTable(d, rs, R), starts(R, len(rs), x)
  uses starts_none, starts_step, =routeOK, =bestTable
  check x < len(rs) ==> routeOK(d, rs, R, x)
  check x < len(rs) ==> x <= R[x].index && R[x].index < len(rs) && edge(d, rs, x, R[x].index)
  check x < len(rs) ==> legal(d, rs, starts(R, len(rs), R[x].index + 1)) && run(d, rs, starts(R, len(rs), R[x].index + 1)).freq == R[R[x].index + 1].freq
  check x < len(rs) ==> starts(R, len(rs), x) == starts(R, len(rs), R[x].index + 1) ++ unit(x)
  check x < len(rs) ==> legal(d, rs, starts(R, len(rs), x))

// the characters of its steps
fn steps(R: arr[int,gse.route], rs: []rune, x: int) [][]rune
axiom steps_none(R: arr[int,gse.route], rs: []rune, x: int)
  requires x >= len(rs)
  trigger steps(R, rs, x)
  ensures steps(R, rs, x) == nil
  note definition by recursion on the position
axiom steps_step(R: arr[int,gse.route], rs: []rune, x: int, y: int)
  requires 0 <= x && x < y && y <= len(rs) && y == R[x].index + 1
  trigger steps(R, rs, x), steps(R, rs, y)
  ensures steps(R, rs, x) == unit(rs[x:y]) ++ steps(R, rs, y)
  note definition by recursion on the position
hom cat(cs: [][]rune) []rune = x
lemma steps_cat(R: arr[int,gse.route], rs: []rune, x: int)
  requires forall j: int :: 0 <= j && j < len(rs) ==> j <= R[j].index && R[j].index < len(rs)
  requires 0 <= x && x <= len(rs)
  ensures cat(steps(R, rs, x)) == rs[x:]
  decreases len(rs) - x
  trigger steps(R, rs, x)
  uses steps_none, steps_step
  check x < len(rs) ==> cat(steps(R, rs, R[x].index + 1)) == rs[R[x].index + 1:]
  check x < len(rs) ==> steps(R, rs, x) == unit(rs[x:R[x].index + 1]) ++ steps(R, rs, R[x].index + 1)
  check x < len(rs) ==> rs[x:] == rs[x:R[x].index + 1] ++ rs[R[x].index + 1:]

// adjacent single letters and digits are joined
fn rxMatch(re: *regexp.Regexp, s: string) bool
extern (*regexp.Regexp).MatchString(re, s) (b)
  ensures b == rxMatch(re, s)
fn single(re: *regexp.Regexp, c: []rune) bool = rxMatch(re, enc(c)) && len(c) == 1
fold jbuf(re: *regexp.Regexp, cs: [][]rune) []rune = emptyof(dec("")) ; if single(re, x) then acc ++ x else emptyof(dec(""))
def flush(b: []rune) = if len(b) > 0 then unit(enc(b)) else nil
fn jres(re: *regexp.Regexp, cs: [][]rune) []string
axiom jres_none(re: *regexp.Regexp, cs: [][]rune)
  requires len(cs) == 0
  trigger jres(re, cs)
  ensures jres(re, cs) == nil
  note definition by recursion on the list
axiom jres_step(re: *regexp.Regexp, cs: [][]rune, c: []rune)
  trigger jres(re, cs), cs ++ unit(c)
  ensures jres(re, cs ++ unit(c)) == (if single(re, c) then jres(re, cs) else jres(re, cs) ++ flush(jbuf(re, cs)) ++ unit(enc(c)))
  note definition by recursion on the list
lemma jres_flat(re: *regexp.Regexp, cs: [][]rune)
  ensures flat(jres(re, cs) ++ flush(jbuf(re, cs))) == enc(cat(cs))
  decreases len(cs)
  trigger jres(re, cs)
  uses jres_none, jres_step
  check len(cs) > 0 ==> cs == cs[:len(cs)-1] ++ unit(cs[len(cs)-1])
  check len(cs) > 0 ==> flat(jres(re, cs[:len(cs)-1])) ++ enc(jbuf(re, cs[:len(cs)-1])) == enc(cat(cs[:len(cs)-1]))
  check len(cs) > 0 ==> flat(jres(re, cs)) ++ enc(jbuf(re, cs)) == enc(cat(cs))

// q steps are done when the rest of the route starts at x
opaque walked(W: [][]rune, q: int, T: [][]rune) bool = q == len(W) - len(T) && 0 <= q && W == W[:q] ++ T
lemma walk_start(W: [][]rune)
  ensures walked(W, 0, W)
  trigger walked(W, 0, W)
  uses =walked
lemma walk_next(W: [][]rune, q: int, p: int, c: []rune, T: [][]rune, U: [][]rune)
  requires walked(W, q, T) && T == unit(c) ++ U && p == q + 1
  ensures walked(W, p, U)
  trigger walked(W, q, T), unit(c) ++ U, walked(W, p, U)
  uses =walked
  check W == W[:q] ++ unit(c) ++ U
lemma walk_more(W: [][]rune, q: int, p: int, c: []rune, T: [][]rune, U: [][]rune)
  requires walked(W, q, T) && T == unit(c) ++ U && p == q + 1
  ensures W[:p] == W[:q] ++ unit(c)
  trigger walked(W, q, T), unit(c) ++ U, W[:p]
  uses =walked
  check W == W[:q] ++ unit(c) ++ U
lemma walk_end(W: [][]rune, q: int, T: [][]rune)
  requires walked(W, q, T) && len(T) == 0
  ensures W[:q] == W && q == len(W)
  trigger walked(W, q, T)
  uses =walked

def chars(str: string) = dec(refText(str))
def W(R: arr[int,gse.route], str: string) = steps(R, chars(str), 0)
def doneTo(R: arr[int,gse.route], str: string, x: int) = W(R, str)[:len(W(R, str)) - len(steps(R, chars(str), x))]
func (*gse.Segmenter).cutDAGNoHMM(seg, str) (r)
  prop C04, C05, C23
  ghost R: arr[int,gse.route] = vals(ret("calc"))
  let re = global(gse_reEng)
  uses walk_start, walk_next, walk_more, walk_end, steps_none, steps_step, steps_cat, jres_none, jres_step, jres_flat, =bestTable
  requires dictOK(seg.Dict)
  ensures @best:C05: bestTable(seg.Dict, chars(str), R)
  ensures @words:C05: r == jres(re, W(R, str)) ++ flush(jbuf(re, W(R, str)))
  ensures @text:C04: flat(r) == enc(chars(str))
  inv phi x: int, val m: map[int]gse.route :: 0 <= x && x <= len(chars(str)) && walked(W(vals(m), str), len(W(vals(m), str)) - len(steps(vals(m), chars(str), x)), steps(vals(m), chars(str), x))
  inv phi x: int, phi b: []rune, val m: map[int]gse.route :: b == jbuf(re, doneTo(vals(m), str, x))
  inv phi x: int, phi o: []string, val m: map[int]gse.route :: o == jres(re, doneTo(vals(m), str, x))
