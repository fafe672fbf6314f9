// Cutting with the hidden Markov model.

heap *hmm.probState

// the states B, M, E, S and which may follow which
fn isState(y: byte) bool = y == 66 || y == 77 || y == 69 || y == 83
fn prevA(y: byte) byte = if y == 66 then 69 else if y == 77 then 77 else if y == 83 then 83 else 66
fn prevB(y: byte) byte = if y == 66 then 83 else if y == 77 then 66 else if y == 83 then 69 else 77
fn follows(a: byte, y: byte) bool = isState(y) && (a == prevA(y) || a == prevB(y))
fn final(y: byte) bool = y == 69 || y == 83
// one of the first k of B, M, E, S
fn early(y: byte, k: int) bool = (y == 66 && k > 0) || (y == 77 && k > 1) || (y == 69 && k > 2) || (y == 83 && k > 3)
def hmmTables() = (forall y: byte :: isState(y) ==> has(global(hmm_prevStatus), y) && vals(global(hmm_prevStatus))[y] == unit(prevA(y)) ++ unit(prevB(y)))

// the float64 nearest to -3.14e100
def minFloat() = -31399999999999998440121755087188611496023317657858142522962119136060321217693842207715753438069391360.0
def emission(y: byte, c: rune) = if has(global(hmm_probEmit)[y], c) then vals(global(hmm_probEmit)[y])[c] else minFloat()
def transition(a: byte, y: byte) = if has(global(hmm_probTrans)[a], y) then vals(global(hmm_probTrans)[a])[y] else minFloat()

// an allowed sequence of n states
opaque wf(p: []byte, n: int) bool = len(p) == n && (forall i: int :: 0 <= i && i < n ==> isState(p[i]) && (i > 0 ==> follows(p[i-1], p[i])))
lemma wf_len(p: []byte, n: int)
  requires wf(p, n)
  ensures len(p) == n
  trigger wf(p, n)
  uses =wf
lemma wf_one(p: []byte, y: byte)
  requires isState(y) && p == unit(y)
  ensures wf(p, 1)
  trigger wf(p, 1), unit(y)
  uses =wf
lemma wf_step(p: []byte, n: int, q: []byte, y: byte, m: int)
  requires wf(p, n) && n > 0 && follows(p[n-1], y) && q == p ++ unit(y) && m == n + 1
  ensures wf(q, m)
  trigger wf(p, n), wf(q, m), p ++ unit(y)
  uses =wf

// the log probability of the states p for the characters obs
fn score(E: arr[int,arr[int,real]], T: arr[int,arr[int,real]], S: arr[int,real], obs: []rune, p: []byte) real
axiom score_one(E: arr[int,arr[int,real]], T: arr[int,arr[int,real]], S: arr[int,real], obs: []rune, p: []byte)
  requires len(p) == 1
  trigger score(E, T, S, obs, p)
  ensures score(E, T, S, obs, p) == fadd(E[p[0]][obs[0]], S[p[0]])
  note definition by recursion on the number of states
axiom score_step(E: arr[int,arr[int,real]], T: arr[int,arr[int,real]], S: arr[int,real], obs: []rune, p: []byte, q: []byte, y: byte)
  requires q == p ++ unit(y) && len(p) > 0
  trigger score(E, T, S, obs, q), score(E, T, S, obs, p), p ++ unit(y)
  ensures score(E, T, S, obs, q) == fadd(fadd(score(E, T, S, obs, p), T[p[len(p)-1]][y]), E[y][obs[len(p)]])
  note definition by recursion on the number of states
axiom fadd_mono2(a: real, b: real, c: real)
  requires b <= c
  trigger fadd(b, a), fadd(c, a)
  ensures fadd(b, a) <= fadd(c, a)
  note IEEE addition is monotone in each argument

// no sequence of n states ending in y scores more than v
opaque topped(E: arr[int,arr[int,real]], T: arr[int,arr[int,real]], S: arr[int,real], obs: []rune, n: int, y: byte, v: real) bool = forall p: []byte :: wf(p, n) && p[n-1] == y ==> score(E, T, S, obs, p) <= v
lemma topped_one(E: arr[int,arr[int,real]], T: arr[int,arr[int,real]], S: arr[int,real], obs: []rune, y: byte, v: real)
  requires v == fadd(E[y][obs[0]], S[y])
  ensures topped(E, T, S, obs, 1, y, v)
  trigger topped(E, T, S, obs, 1, y, v)
  uses =topped, =wf, score_one
def via(E: arr[int,arr[int,real]], T: arr[int,arr[int,real]], obs: []rune, n: int, y: byte, a: byte, va: real) = fadd(fadd(va, T[a][y]), E[y][obs[n]])
lemma topped_at(E: arr[int,arr[int,real]], T: arr[int,arr[int,real]], S: arr[int,real], obs: []rune, n: int, y: byte, v: real, p: []byte)
  requires topped(E, T, S, obs, n, y, v) && wf(p, n) && p[n-1] == y
  ensures score(E, T, S, obs, p) <= v
  trigger topped(E, T, S, obs, n, y, v), wf(p, n), score(E, T, S, obs, p)
  uses =topped
lemma topped_via(E: arr[int,arr[int,real]], T: arr[int,arr[int,real]], S: arr[int,real], obs: []rune, n: int, y: byte, va: real, vb: real, v: real, p: []byte, m: int)
  requires n > 0 && m == n + 1 && topped(E, T, S, obs, n, prevA(y), va) && topped(E, T, S, obs, n, prevB(y), vb) && via(E, T, obs, n, y, prevA(y), va) <= v && via(E, T, obs, n, y, prevB(y), vb) <= v
  requires wf(p, m) && p[m-1] == y
  ensures score(E, T, S, obs, p) <= v
  uses =wf, score_step, fadd_mono2, topped_at
  trigger topped(E, T, S, obs, n, prevA(y), va), topped(E, T, S, obs, n, prevB(y), vb), topped(E, T, S, obs, m, y, v), wf(p, m)
  check p == p[:n] ++ unit(y) && wf(p[:n], n) && follows(p[n-1], y)
  check score(E, T, S, obs, p) == fadd(fadd(score(E, T, S, obs, p[:n]), T[p[n-1]][y]), E[y][obs[n]])
  check p[n-1] == prevA(y) ==> score(E, T, S, obs, p[:n]) <= va
  check p[n-1] == prevB(y) ==> score(E, T, S, obs, p[:n]) <= vb
lemma topped_step(E: arr[int,arr[int,real]], T: arr[int,arr[int,real]], S: arr[int,real], obs: []rune, n: int, y: byte, a: byte, b: byte, va: real, vb: real, v: real, m: int)
  requires n > 0 && m == n + 1 && a == prevA(y) && b == prevB(y) && topped(E, T, S, obs, n, a, va) && topped(E, T, S, obs, n, b, vb) && via(E, T, obs, n, y, a, va) <= v && via(E, T, obs, n, y, b, vb) <= v
  ensures topped(E, T, S, obs, m, y, v)
  trigger topped(E, T, S, obs, n, a, va), topped(E, T, S, obs, n, b, vb), topped(E, T, S, obs, m, y, v)
  uses =topped, topped_via

// v is the best score of n states ending in y, and p attains it
opaque best(E: arr[int,arr[int,real]], T: arr[int,arr[int,real]], S: arr[int,real], obs: []rune, n: int, y: byte, v: real, p: []byte) bool = n > 0 && wf(p, n) && p[n-1] == y && score(E, T, S, obs, p) == v && topped(E, T, S, obs, n, y, v)
lemma best_is(E: arr[int,arr[int,real]], T: arr[int,arr[int,real]], S: arr[int,real], obs: []rune, n: int, y: byte, v: real, p: []byte)
  requires best(E, T, S, obs, n, y, v, p)
  ensures n > 0 && len(p) == n && wf(p, n) && p[n-1] == y && score(E, T, S, obs, p) == v && topped(E, T, S, obs, n, y, v)
  trigger best(E, T, S, obs, n, y, v, p)
  uses =best, wf_len
lemma best_one(E: arr[int,arr[int,real]], T: arr[int,arr[int,real]], S: arr[int,real], obs: []rune, y: byte, v: real, p: []byte)
  requires isState(y) && p == unit(y) && v == fadd(E[y][obs[0]], S[y])
  ensures best(E, T, S, obs, 1, y, v, p)
  trigger best(E, T, S, obs, 1, y, v, p)
  uses =best, wf_one, topped_one, score_one
// one more state: a is the better of the two states before y, o the other
lemma best_step(E: arr[int,arr[int,real]], T: arr[int,arr[int,real]], S: arr[int,real], obs: []rune, n: int, y: byte, a: byte, o: byte, va: real, vo: real, pa: []byte, po: []byte, v: real, q: []byte, m: int)
  requires best(E, T, S, obs, n, a, va, pa) && best(E, T, S, obs, n, o, vo, po) && isState(y) && m == n + 1 && ((a == prevA(y) && o == prevB(y)) || (a == prevB(y) && o == prevA(y)))
  requires v == via(E, T, obs, n, y, a, va) && via(E, T, obs, n, y, o, vo) <= v && q == pa ++ unit(y)
  ensures best(E, T, S, obs, m, y, v, q)
  trigger best(E, T, S, obs, n, a, va, pa), best(E, T, S, obs, n, o, vo, po), best(E, T, S, obs, m, y, v, q)
  uses =best, topped_step, score_step, wf_step, wf_len
  check wf(q, m) && q[m-1] == y
  check score(E, T, S, obs, q) == v
  check topped(E, T, S, obs, m, y, v)

// the order of candidate states
def lessState(a: *hmm.probState, b: *hmm.probState) = a.prob < b.prob || (a.prob == b.prob && a.state < b.state)
func (hmm.probStates).Len(ps) (r)
  prop C09
  ensures r == len(ps)
func (hmm.probStates).Less(ps, i, j) (r)
  prop C09
  requires 0 <= i && i < len(ps) && 0 <= j && j < len(ps) && view(ps)[i] != nil && view(ps)[j] != nil
  ensures r <==> lessState(view(ps)[i], view(ps)[j])
func (hmm.probStates).Swap(ps, i, j) ()
  prop C09
  requires 0 <= i && i < len(ps) && 0 <= j && j < len(ps)
  modifies elems(ps)
  ensures view(ps) == upd(upd(old(view(ps)), i, old(view(ps))[j]), j, old(view(ps))[i])
// sort.Sort(sort.Reverse(x)) exchanges elements until none before another is less than it
extern sort.Sort_reverse_hmm.probStates(x) ()
  modifies elems(x)
  ensures forall i: int, j: int :: 0 <= i && i < j && j < len(x) ==> !lessState(view(x)[i], view(x)[j])
  ensures len(x) == 2 ==> !lessState(view(x)[0], view(x)[1])
  ensures len(x) == 2 ==> (view(x)[0] == old(view(x))[0] && view(x)[1] == old(view(x))[1]) || (view(x)[0] == old(view(x))[1] && view(x)[1] == old(view(x))[0])

func hmm.probs(obs, vtb, y, t) (r)
  prop C08, C09
  requires hmmTables() && isState(y) && 0 < t && t < len(obs) && t <= len(vtb)
  ensures len(r) == 2 && view(r)[0].state == prevA(y) && view(r)[1].state == prevB(y)
  ensures isfresh(r) && isfresh(view(r)[0]) && isfresh(view(r)[1])
  ensures forall k: int :: 0 <= k && k < 2 ==> view(r)[k].prob == fadd(fadd(view(vtb)[t-1][view(r)[k].state], transition(view(r)[k].state, y)), emission(y, obs[t]))
  inv phi k: int, phi ps: hmm.probStates :: len(ps) == k && k <= 2 && (if k > 0 then isfresh(ps) else ps.ref == 0) && (forall j: int :: 0 <= j && j < k ==> isfresh(view(ps)[j]) && view(ps)[j].state == (if j == 0 then prevA(y) else prevB(y)))
  inv phi k: int, phi ps: hmm.probStates :: forall j: int :: 0 <= j && j < k ==> view(ps)[j].prob == fadd(fadd(view(vtb)[t-1][view(ps)[j].state], transition(view(ps)[j].state, y)), emission(y, obs[t]))

def bestAll(E: arr[int,arr[int,real]], T: arr[int,arr[int,real]], S: arr[int,real], obs: []rune, t: int, k: int, V: map[byte]float64, P: map[byte][]byte) = forall y: byte {vals(V)[y]} {vals(P)[y]} {has(V, y)} {has(P, y)} {early(y, k)} :: early(y, k) ==> has(V, y) && has(P, y) && best(E, T, S, obs, t, y, vals(V)[y], vals(P)[y])
func hmm.Viterbi(obs, states) (prob, path)
  prop C08, C09
  table E(y: byte, c: rune): real = emission(y, c)
  table T(a: byte, y: byte): real = transition(a, y)
  table S(y: byte): real = global(hmm_probStart)[y]
  uses best_one, best_step, best_is
  requires hmmTables() && len(obs) > 0
  requires len(states) == 4 && states[0] == 66 && states[1] == 77 && states[2] == 69 && states[3] == 83
  ensures @wf:C08,C09: wf(path, len(obs)) && final(path[len(obs)-1])
  ensures @attained:C09: prob == score(E, T, S, obs, path)
  ensures @optimal:C09: forall y: byte :: final(y) ==> (exists v: real :: v <= prob && topped(E, T, S, obs, len(obs), y, v))
  inv phi k: int, val V: []map[byte]float64, val P: map[byte][]byte :: len(V) == len(obs) && isfresh(V) && isfresh(view(V)[0]) && isfresh(P) && bestAll(E, T, S, obs, 1, k, view(V)[0], P)
  inv phi t: int, phi P: map[byte][]byte, val V: []map[byte]float64 :: 1 <= t && t <= len(obs) && len(V) == len(obs) && isfresh(V) && isfresh(view(V)[t-1]) && isalloc(view(V)[t-1]) && isalloc(P) && isfresh(P) && bestAll(E, T, S, obs, t, 4, view(V)[t-1], P)
  inv phi k: int, val t: int, val P: map[byte][]byte, val V: []map[byte]float64 :: 1 <= t && t < len(obs) && len(V) == len(obs) && isfresh(V) && view(V)[t] != view(V)[t-1] && bestAll(E, T, S, obs, t, 4, view(V)[t-1], P)
  inv phi k: int, val t: int, val N: map[byte][]byte, val V: []map[byte]float64 :: isfresh(view(V)[t]) && isfresh(N) && bestAll(E, T, S, obs, t + 1, k, view(V)[t], N)
  inv phi k: int, phi ps: hmm.probStates, val V: []map[byte]float64 :: len(ps) == k && k <= 2 && isfresh(ps) && (forall j: int :: 0 <= j && j < k ==> isfresh(view(ps)[j]) && view(ps)[j].state == (if j == 0 then 69 else 83) && view(ps)[j].prob == vals(view(V)[len(obs)-1])[view(ps)[j].state])
