// Cutting with the word graph of a text.

// the characters k..i are a dictionary word that counts
fn pw(d: *gse.Dictionary, rs: []rune, k: int, i: int) bool = hasWord(d, enc(rs[k:i+1])) && wordFreq(d, enc(rs[k:i+1])) > 0.0
hom memI(v: int, l: []int) bool or = x == v
fn noWordAt(d: *gse.Dictionary, rs: []rune, k: int) bool = forall j: int :: k <= j && j < len(rs) ==> !pw(d, rs, k, j)
// the word graph: a word, or a single character where no word starts
fn edge(d: *gse.Dictionary, rs: []rune, k: int, i: int) bool = k <= i && i < len(rs) && (pw(d, rs, k, i) || (i == k && noWordAt(d, rs, k)))
fn ascending(l: []int) bool = forall a: int, b: int :: 0 <= a && a < b && b < len(l) ==> l[a] < l[b]
opaque dagDone(d: *gse.Dictionary, rs: []rune, k: int, l: []int) bool = len(l) > 0 && ascending(l) && (forall i: int :: memI(i, l) <==> edge(d, rs, k, i))

lemma dag_stop(t: trie, rs: []rune, k: int, e: int, j: int)
  requires 0 <= k && k < e && e <= j && j <= len(rs) && !tpre(t, enc(rs[k:e]))
  ensures !thas(t, enc(rs[k:j]))
  trigger tpre(t, enc(rs[k:e])), thas(t, enc(rs[k:j]))
  uses trie_has, trie_pre
  check rs[k:j] == rs[k:e] ++ rs[e:j]
  check enc(rs[k:j]) == enc(rs[k:e]) ++ enc(rs[e:j])
lemma mem_nth(v: int, l: []int)
  ensures forall i: int :: 0 <= i && i < len(l) ==> memI(l[i], l)
  decreases len(l)
  trigger memI(v, l)
  check len(l) > 0 ==> l == l[:len(l)-1] ++ unit(l[len(l)-1])
  check len(l) > 0 ==> (forall i: int :: 0 <= i && i < len(l) - 1 ==> memI(l[i], l[:len(l)-1]))

// l lists the words k..j for j below i
opaque dagPart(d: *gse.Dictionary, rs: []rune, k: int, i: int, l: []int) bool = ascending(l) && (forall j: int :: memI(j, l) <==> k <= j && j < i && pw(d, rs, k, j))
lemma asc_app(l: []int, i: int)
  requires ascending(l) && (forall j: int :: memI(j, l) ==> j < i)
  ensures ascending(l ++ unit(i))
  trigger ascending(l), l ++ unit(i)
  uses mem_nth
  check forall a: int :: 0 <= a && a < len(l) ==> memI(l[a], l)
lemma part_app(d: *gse.Dictionary, rs: []rune, k: int, i: int, l: []int)
  requires dagPart(d, rs, k, i, l) && k <= i && pw(d, rs, k, i)
  ensures dagPart(d, rs, k, i + 1, l ++ unit(i))
  trigger dagPart(d, rs, k, i, l), l ++ unit(i)
  uses asc_app, =dagPart
  check forall j: int :: memI(j, l ++ unit(i)) <==> memI(j, l) || j == i
lemma part_skip(d: *gse.Dictionary, rs: []rune, k: int, i: int, e: int, l: []int)
  requires dagPart(d, rs, k, i, l) && k <= i && e == i + 1 && !pw(d, rs, k, i)
  ensures dagPart(d, rs, k, e, l)
  trigger dagPart(d, rs, k, i, l), rs[k:e]
  uses =dagPart
lemma part_full(d: *gse.Dictionary, rs: []rune, k: int, i: int, l: []int)
  requires dagPart(d, rs, k, i, l) && 0 <= k && k <= i && k < len(rs) && i <= len(rs) && (forall j: int :: i <= j && j < len(rs) ==> !pw(d, rs, k, j))
  ensures (len(l) > 0 ==> dagDone(d, rs, k, l)) && (len(l) == 0 ==> dagDone(d, rs, k, l ++ unit(k)))
  trigger dagPart(d, rs, k, i, l)
  uses mem_nth, =dagPart, =dagDone
  check len(l) > 0 ==> memI(l[0], l)
  check len(l) > 0 ==> pw(d, rs, k, l[0]) && l[0] >= k && l[0] < len(rs)
  check len(l) > 0 ==> !noWordAt(d, rs, k)
  check forall j: int :: memI(j, l) <==> k <= j && j < len(rs) && pw(d, rs, k, j)
  check len(l) == 0 ==> l == nil && (forall j: int :: k <= j && j < len(rs) ==> !pw(d, rs, k, j))
  check len(l) == 0 ==> noWordAt(d, rs, k) && l ++ unit(k) == unit(k)
  check len(l) == 0 ==> (forall j: int :: memI(j, unit(k)) <==> j == k)

lemma part_stop(d: *gse.Dictionary, rs: []rune, k: int, i: int, l: []int)
  requires dagPart(d, rs, k, i, l) && 0 <= k && k <= i && k < len(rs) && i <= len(rs) && (i == len(rs) || !tpre(trie(d.trie), enc(rs[k:i+1])))
  ensures (len(l) > 0 ==> dagDone(d, rs, k, l)) && (len(l) == 0 ==> dagDone(d, rs, k, l ++ unit(k)))
  trigger dagPart(d, rs, k, i, l)
  uses dag_stop, part_full
  check forall j: int :: i <= j && j < len(rs) ==> !thas(trie(d.trie), enc(rs[k:j+1]))
  check forall j: int :: i <= j && j < len(rs) ==> !pw(d, rs, k, j)
lemma part_none(d: *gse.Dictionary, rs: []rune, k: int, l: []int)
  requires len(l) == 0
  ensures dagPart(d, rs, k, k, l)
  trigger dagPart(d, rs, k, k, l)
  uses =dagPart
opaque graph(d: *gse.Dictionary, rs: []rune, D: arr[int,[]int]) bool = forall k: int :: 0 <= k && k < len(rs) ==> dagDone(d, rs, k, D[k])
lemma graph_at(d: *gse.Dictionary, rs: []rune, D: arr[int,[]int], k: int)
  requires graph(d, rs, D) && 0 <= k && k < len(rs)
  ensures dagDone(d, rs, k, D[k])
  trigger graph(d, rs, D), D[k]
  uses =graph
func (*gse.Segmenter).getDag(seg, runes) (dag)
  prop C05, C06, C23
  uses part_none, part_app, part_skip, part_stop, =graph
  requires dictOK(seg.Dict)
  ensures isfresh(dag) && len(dag) == len(runes) && (forall k: int :: has(dag, k) <==> 0 <= k && k < len(runes))
  ensures @dag:C05,C06: forall k: int :: 0 <= k && k < len(runes) ==> dagDone(seg.Dict, runes, k, vals(dag)[k])
  ensures @graph:C06: graph(seg.Dict, runes, vals(dag))
  inv phi k: int, val m: map[int][]int :: k <= len(runes) && len(m) == k && (forall q: int :: has(m, q) <==> 0 <= q && q < k)
  inv phi k: int, val m: map[int][]int :: forall q: int :: 0 <= q && q < k ==> dagDone(seg.Dict, runes, q, vals(m)[q])
  inv phi i: int, phi f: []rune, val k: int, val m: map[int][]int :: k <= i && i < len(runes) && f == runes[k:i+1] && len(m) == k + 1 && (forall q: int :: has(m, q) <==> 0 <= q && q <= k)
  inv phi i: int, val k: int, val m: map[int][]int :: forall q: int :: 0 <= q && q < k ==> dagDone(seg.Dict, runes, q, vals(m)[q])
  inv phi i: int, val k: int, val m: map[int][]int :: dagPart(seg.Dict, runes, k, i, vals(m)[k])

