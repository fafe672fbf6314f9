// Full mode and search cutting.

// the words of two or more characters in a list of ends
hom multi(rs: []rune, k: int, l: []int) []string = if x > k then unit(enc(rs[k:x+1])) else nil
fold reach(s: int, k: int, l: []int) int = s ; if x > k then x else acc
// how far the words listed before start k reach; a lone entry beyond that is listed whatever its length
fn full(D: arr[int,[]int], k: int) int
axiom full_none(D: arr[int,[]int], k: int)
  requires k <= 0
  trigger full(D, k)
  ensures full(D, k) == 0 - 1
  note definition by recursion on the position
axiom full_step(D: arr[int,[]int], k: int, e: int)
  requires 0 <= k && e == k + 1
  trigger full(D, k), full(D, e)
  ensures full(D, e) == (if len(D[k]) == 1 && k > full(D, k) then D[k][0] else reach(full(D, k), k, D[k]))
  note definition by recursion on the position
def item(D: arr[int,[]int], rs: []rune, k: int) = if len(D[k]) == 1 && k > full(D, k) then unit(enc(rs[k:D[k][0]+1])) else multi(rs, k, D[k])
fn fullOut(D: arr[int,[]int], rs: []rune, k: int) []string
axiom fullout_none(D: arr[int,[]int], rs: []rune, k: int)
  requires k <= 0
  trigger fullOut(D, rs, k)
  ensures fullOut(D, rs, k) == nil
  note definition by recursion on the position
axiom fullout_step(D: arr[int,[]int], rs: []rune, k: int, e: int)
  requires 0 <= k && e == k + 1
  trigger fullOut(D, rs, k), fullOut(D, rs, e)
  ensures fullOut(D, rs, e) == fullOut(D, rs, k) ++ item(D, rs, k)
  note definition by recursion on the position

func (*gse.Segmenter).cutAll(seg, str) (r)
  prop C06, C23
  ghost D: arr[int,[]int] = vals(ret("getDag"))
  uses full_none, full_step, fullout_none, fullout_step, graph_at, dag_range, dag_some
  requires dictOK(seg.Dict)
  ensures @graph:C06: graph(seg.Dict, chars(str), D)
  ensures @list:C06: r == fullOut(D, chars(str), len(chars(str)))
  inv phi k: int :: k <= len(chars(str)) && graph(seg.Dict, chars(str), D)
  inv phi k: int, phi s: int :: s == full(D, k)
  inv phi k: int, phi o: []string :: o == fullOut(D, chars(str), k)
  inv phi j: int, phi s: int, val k: int, val l: []int :: j <= len(l) && s == reach(full(D, k), k, l[:j])
  inv phi j: int, phi o: []string, val k: int, val l: []int :: o == fullOut(D, chars(str), k) ++ multi(chars(str), k, l[:j])

// the entry q..e is among those listed
fn lists(D: arr[int,[]int], q: int, e: int) bool = memI(e, D[q]) && (e > q || (len(D[q]) == 1 && q > full(D, q)))
hom isIn(w: string, ws: []string) bool or = x == w
lemma multi_in(rs: []rune, k: int, l: []int, e: int)
  requires memI(e, l) && e > k
  ensures isIn(enc(rs[k:e+1]), multi(rs, k, l))
  decreases len(l)
  trigger memI(e, l), multi(rs, k, l)
  check len(l) > 0 ==> l == l[:len(l)-1] ++ unit(l[len(l)-1])
  check len(l) > 0 ==> (memI(e, l) <==> memI(e, l[:len(l)-1]) || e == l[len(l)-1])
  check len(l) > 0 && memI(e, l[:len(l)-1]) ==> isIn(enc(rs[k:e+1]), multi(rs, k, l[:len(l)-1]))
lemma full_in(D: arr[int,[]int], rs: []rune, n: int, q: int, e: int)
  requires 0 <= q && q < n && lists(D, q, e)
  ensures isIn(enc(rs[q:e+1]), fullOut(D, rs, n))
  decreases n
  trigger lists(D, q, e), fullOut(D, rs, n)
  uses fullout_step, multi_in
  check q < n - 1 ==> isIn(enc(rs[q:e+1]), fullOut(D, rs, n - 1))
  check fullOut(D, rs, n) == fullOut(D, rs, n - 1) ++ item(D, rs, n - 1)
  check q == n - 1 && len(D[q]) == 1 ==> D[q] == unit(D[q][0]) && e == D[q][0]
// every occurrence of a word of two or more characters is listed
lemma full_complete(d: *gse.Dictionary, rs: []rune, D: arr[int,[]int], k: int, i: int)
  prop C06
  requires graph(d, rs, D) && 0 <= k && k < i && i < len(rs) && pw(d, rs, k, i)
  ensures isIn(enc(rs[k:i+1]), fullOut(D, rs, len(rs)))
  trigger graph(d, rs, D), pw(d, rs, k, i)
  uses full_in, graph_at, =dagDone
  check dagDone(d, rs, k, D[k])
  check memI(i, D[k])
  check lists(D, k, i)
// nothing else of two or more characters is
opaque listed(D: arr[int,[]int], rs: []rune, n: int, w: string) bool = exists q: int, e: int :: 0 <= q && q < n && lists(D, q, e) && w == enc(rs[q:e+1])
opaque listedAt(rs: []rune, k: int, l: []int, w: string) bool = exists e: int :: memI(e, l) && e > k && w == enc(rs[k:e+1])
lemma multi_only(rs: []rune, k: int, l: []int, w: string)
  requires isIn(w, multi(rs, k, l))
  ensures listedAt(rs, k, l, w)
  decreases len(l)
  trigger isIn(w, multi(rs, k, l))
  uses =listedAt
  check len(l) > 0 ==> l == l[:len(l)-1] ++ unit(l[len(l)-1])
  check len(l) > 0 ==> isIn(w, multi(rs, k, l[:len(l)-1])) || (l[len(l)-1] > k && w == enc(rs[k:l[len(l)-1]+1]))
  check len(l) > 0 ==> (forall e: int :: memI(e, l) <==> memI(e, l[:len(l)-1]) || e == l[len(l)-1])
lemma listed_more(D: arr[int,[]int], rs: []rune, n: int, m: int, w: string)
  requires listed(D, rs, n, w) && n <= m
  ensures listed(D, rs, m, w)
  trigger listed(D, rs, n, w), listed(D, rs, m, w)
  uses =listed
lemma listed_item(D: arr[int,[]int], rs: []rune, k: int, w: string, ws: []string)
  requires 0 <= k && ws == item(D, rs, k) && isIn(w, ws)
  ensures listed(D, rs, k + 1, w)
  trigger isIn(w, ws), fullOut(D, rs, k)
  uses =listed, =listedAt, multi_only
  check len(D[k]) == 1 ==> D[k] == unit(D[k][0]) && memI(D[k][0], D[k])
  check listedAt(rs, k, D[k], w) || (len(D[k]) == 1 && k > full(D, k) && w == enc(rs[k:D[k][0]+1]))
  check forall e: int :: memI(e, D[k]) && e > k ==> lists(D, k, e)
  check listedAt(rs, k, D[k], w) ==> (exists e: int :: lists(D, k, e) && w == enc(rs[k:e+1]))
  check len(D[k]) == 1 && k > full(D, k) ==> lists(D, k, D[k][0])
lemma full_only(D: arr[int,[]int], rs: []rune, n: int, w: string)
  requires 0 <= n && isIn(w, fullOut(D, rs, n))
  ensures listed(D, rs, n, w)
  decreases n
  trigger isIn(w, fullOut(D, rs, n))
  uses fullout_step, fullout_none, listed_more, listed_item
  check n > 0 ==> fullOut(D, rs, n) == fullOut(D, rs, n - 1) ++ item(D, rs, n - 1)
  check n > 0 && isIn(w, fullOut(D, rs, n - 1)) ==> listed(D, rs, n - 1, w)
  check n > 0 && isIn(w, item(D, rs, n - 1)) ==> listed(D, rs, n - 1 + 1, w)
lemma full_sound(d: *gse.Dictionary, rs: []rune, D: arr[int,[]int], w: string)
  prop C06
  requires graph(d, rs, D) && isIn(w, fullOut(D, rs, len(rs)))
  ensures exists q: int, e: int :: 0 <= q && q <= e && e < len(rs) && w == enc(rs[q:e+1]) && (e > q ==> pw(d, rs, q, e))
  uses full_only, graph_at, =listed, =dagDone
  check listed(D, rs, len(rs), w)
  check forall q: int, e: int :: 0 <= q && q < len(rs) && lists(D, q, e) ==> dagDone(d, rs, q, D[q])
  check forall q: int, e: int :: 0 <= q && q < len(rs) && lists(D, q, e) ==> edge(d, rs, q, e)
  check forall q: int, e: int :: 0 <= q && q < len(rs) && lists(D, q, e) ==> q <= e && e < len(rs) && (e > q ==> pw(d, rs, q, e))
// the listed entries cover every character
opaque covered(D: arr[int,[]int], n: int, p: int) bool = exists q: int, e: int :: 0 <= q && q < n && q <= p && p <= e && lists(D, q, e)
lemma reach_is(s: int, k: int, l: []int)
  ensures reach(s, k, l) == s || (memI(reach(s, k, l), l) && reach(s, k, l) > k)
  decreases len(l)
  trigger reach(s, k, l)
  check len(l) > 0 ==> l == l[:len(l)-1] ++ unit(l[len(l)-1])
lemma covered_more(D: arr[int,[]int], n: int, m: int, p: int)
  requires covered(D, n, p) && n <= m
  ensures covered(D, m, p)
  trigger covered(D, n, p), covered(D, m, p)
  uses =covered
lemma covered_by(D: arr[int,[]int], n: int, p: int, q: int, e: int)
  requires 0 <= q && q < n && q <= p && p <= e && lists(D, q, e)
  ensures covered(D, n, p)
  trigger covered(D, n, p), lists(D, q, e)
  uses =covered
lemma full_cover(d: *gse.Dictionary, rs: []rune, D: arr[int,[]int], n: int, p: int)
  prop C06
  requires graph(d, rs, D) && 0 <= n && n <= len(rs) && 0 <= p && (p < n || p <= full(D, n))
  ensures covered(D, n, p)
  decreases n
  trigger graph(d, rs, D), covered(D, n, p)
  uses full_none, full_step, covered_more, covered_by, reach_is, graph_at, mem_nth, =dagDone
  check n > 0 && (p < n - 1 || p <= full(D, n - 1)) ==> covered(D, n - 1, p)
  check n > 0 ==> dagDone(d, rs, n - 1, D[n-1]) && memI(D[n-1][0], D[n-1]) && D[n-1][0] >= n - 1
  check n > 0 && len(D[n-1]) == 1 && n - 1 > full(D, n - 1) ==> lists(D, n - 1, D[n-1][0]) && full(D, n) == D[n-1][0]
  check n > 0 && len(D[n-1]) > 1 ==> memI(D[n-1][1], D[n-1]) && D[n-1][1] > D[n-1][0] && lists(D, n - 1, D[n-1][1])
  check n > 0 && !(len(D[n-1]) == 1 && n - 1 > full(D, n - 1)) ==> full(D, n) == full(D, n - 1) || (lists(D, n - 1, full(D, n)) && full(D, n) > n - 1)
