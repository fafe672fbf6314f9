// Splitting by a pattern; the table of document frequencies.

fn rxText(re: *regexp.Regexp) string
fn rxGroups(re: *regexp.Regexp) []string
fn rxAll(re: *regexp.Regexp, s: string, n: int) [][]int
def matchOK(m: []int, s: string) = len(m) >= 2 && 0 <= m[0] && m[0] <= m[1] && m[1] <= len(s)
extern (*regexp.Regexp).String(re) (r)
  ensures r == rxText(re)
extern (*regexp.Regexp).SubexpNames(re) (r)
  ensures r == rxGroups(re)
extern (*regexp.Regexp).FindAllStringSubmatchIndex(re, s, n) (r)
  ensures r == rxAll(re, s, n)
  ensures forall i: int :: 0 <= i && i < len(r) ==> matchOK(r[i], s)
  ensures forall i: int, j: int :: 0 <= i && j == i + 1 && j < len(r) ==> r[i][1] <= r[j][0]
extern (*regexp.Regexp).FindAllStringIndex(re, s, n) (r)
  ensures r == rxAll(re, s, n)
  ensures forall i: int :: 0 <= i && i < len(r) ==> matchOK(r[i], s)
  ensures forall i: int, j: int :: 0 <= i && j == i + 1 && j < len(r) ==> r[i][1] <= r[j][0]

// where the last of the matches starts and ends
fold lastFrom(ms: [][]int) int = 0 ; x[0]
fold lastTo(ms: [][]int) int = 0 ; x[1]
// the text before each match and the match itself, in turn
fn pieces(s: string, ms: [][]int) []string
axiom pieces_none(s: string, ms: [][]int)
  requires len(ms) == 0
  trigger pieces(s, ms)
  ensures pieces(s, ms) == nil
  note definition by recursion on the list
axiom pieces_step(s: string, ms: [][]int, n: int, m: int)
  requires 0 < n && n <= len(ms) && m == n - 1
  trigger pieces(s, ms[:n]), pieces(s, ms[:m])
  ensures pieces(s, ms[:n]) == (if ms[m][1] != 0 then pieces(s, ms[:m]) ++ unit(s[lastTo(ms[:m]):ms[m][0]]) else pieces(s, ms[:m])) ++ unit(s[ms[m][0]:ms[m][1]])
  note definition by recursion on the list

func util.RegexpSplit(re, s, n) (r)
  prop C29, C10, C23
  uses pieces_none, pieces_step
  ensures n == 0 ==> len(r) == 0
  ensures @whole:C29,C10: n != 0 && len(rxGroups(re)) > 1 ==> flat(r) == s
  ensures @parts:C29: n < 0 && len(rxGroups(re)) > 1 && len(s) > 0 ==> r == pieces(s, rxAll(re, s, n)) ++ (if lastFrom(rxAll(re, s, n)) != len(s) then unit(s[lastTo(rxAll(re, s, n)):]) else nil)
  inv phi i: int, phi b: int, phi e: int, val ms: [][]int :: i <= len(ms) && b == lastTo(ms[:i]) && e == lastFrom(ms[:i]) && 0 <= e && e <= b && b <= len(s)
  inv phi i: int, val ms: [][]int :: i > 0 ==> lastTo(ms[:i]) == ms[i-1][1]
  inv phi i: int, phi o: []string, val ms: [][]int :: len(rxGroups(re)) > 1 ==> o == pieces(s, ms[:i])
  inv phi i: int, phi b: int, phi o: []string :: len(rxGroups(re)) > 1 ==> flat(o) == s[:b]

// the upper median of a list
heap float64
def upperMedian(m: real, n: int, less: int, lessEq: int) = less <= n / 2 && lessEq > n / 2
hom below(v: real, fs: seq[float64]) int + = if x < v then 1 else 0
hom upTo(v: real, fs: seq[float64]) int + = if x <= v then 1 else 0
fn sorted(fs: seq[float64]) bool = forall i: int, j: int :: 0 <= i && i <= j && j < len(fs) ==> fs[i] <= fs[j]
opaque sameCounts(a: seq[float64], b: seq[float64]) bool = len(a) == len(b) && (forall v: real :: below(v, a) == below(v, b) && upTo(v, a) == upTo(v, b))
extern sort.Float64s(x) ()
  modifies elems(x)
  ensures sorted(view(x)) && sameCounts(old(view(x)), view(x))

lemma below_le(v: real, fs: seq[float64])
  ensures 0 <= below(v, fs) && below(v, fs) <= len(fs)
  decreases len(fs)
  trigger below(v, fs)
  check len(fs) > 0 ==> below(v, fs) == below(v, fs[:len(fs)-1]) + (if fs[len(fs)-1] < v then 1 else 0)
lemma below_none(v: real, fs: seq[float64])
  requires forall i: int :: 0 <= i && i < len(fs) ==> fs[i] >= v
  ensures below(v, fs) == 0
  decreases len(fs)
  trigger below(v, fs)
  check len(fs) > 0 ==> below(v, fs) == below(v, fs[:len(fs)-1]) + (if fs[len(fs)-1] < v then 1 else 0)
lemma upto_nonneg(v: real, fs: seq[float64])
  ensures 0 <= upTo(v, fs)
  decreases len(fs)
  trigger upTo(v, fs)
  check len(fs) > 0 ==> upTo(v, fs) == upTo(v, fs[:len(fs)-1]) + (if fs[len(fs)-1] <= v then 1 else 0)
lemma upto_all(v: real, fs: seq[float64])
  requires forall i: int :: 0 <= i && i < len(fs) ==> fs[i] <= v
  ensures upTo(v, fs) == len(fs)
  decreases len(fs)
  trigger upTo(v, fs)
  check len(fs) > 0 ==> upTo(v, fs) == upTo(v, fs[:len(fs)-1]) + (if fs[len(fs)-1] <= v then 1 else 0)
lemma median_sorted(fs: seq[float64], k: int)
  requires sorted(fs) && 0 <= k && k < len(fs)
  ensures below(fs[k], fs) <= k && upTo(fs[k], fs) > k
  trigger sorted(fs), fs[k]
  uses below_le, below_none, upto_nonneg, upto_all
  check fs == fs[:k] ++ fs[k:] && fs == fs[:k+1] ++ fs[k+1:]
  check below(fs[k], fs) == below(fs[k], fs[:k]) + below(fs[k], fs[k:])
  check upTo(fs[k], fs) == upTo(fs[k], fs[:k+1]) + upTo(fs[k], fs[k+1:])
  check below(fs[k], fs[k:]) == 0 && upTo(fs[k], fs[:k+1]) == k + 1

lemma same_refl(a: seq[float64])
  ensures sameCounts(a, a)
  trigger sameCounts(a, a)
  uses =sameCounts
lemma same_app(a: seq[float64], b: seq[float64], x: real)
  requires sameCounts(a, b)
  ensures sameCounts(a ++ unit(x), b ++ unit(x))
  trigger sameCounts(a, b), a ++ unit(x), b ++ unit(x)
  uses =sameCounts
lemma same_trans(a: seq[float64], b: seq[float64], c: seq[float64])
  requires sameCounts(a, b) && sameCounts(a, c)
  ensures sameCounts(b, c)
  trigger sameCounts(a, b), sameCounts(a, c)
  uses =sameCounts
lemma same_median(fs: seq[float64], h: seq[float64], k: int)
  requires sorted(fs) && sameCounts(fs, h) && len(h) > 0 && k == len(h) / 2
  ensures below(fs[k], h) <= k && upTo(fs[k], h) > k && len(fs) == len(h)
  trigger sorted(fs), sameCounts(fs, h), fs[k]
  uses median_sorted, =sameCounts
  check below(fs[k], fs) <= k && upTo(fs[k], fs) > k

// i holds exactly the frequencies fs, and their upper median
def idfOK(i: *idf.Idf, fs: seq[float64]) = sameCounts(view(i.freqs), fs) && (len(fs) > 0 ==> below(i.median, fs) <= len(fs) / 2 && upTo(i.median, fs) > len(fs) / 2)

func (*idf.Idf).AddToken(i, text, freq, pos) (err)
  prop C26
  uses same_app, same_trans, same_median
  requires dictOK(i.seg.Dict)
  modifies i.freqs, i.median, elems(i.freqs), i.seg.Dict.Tokens, elems(i.seg.Dict.Tokens), i.seg.Dict.totalFreq, i.seg.Dict.maxTokenLen, trie(i.seg.Dict.trie)
  ensures err == nil && dictOK(i.seg.Dict)
  ensures @median:C26: forall h: seq[float64] :: old(sameCounts(view(i.freqs), h)) ==> idfOK(i, h ++ unit(freq))

func idf.NewIdf() (r)
  prop C26
  ensures len(r.freqs) == 0
