// The cutting functions users call.

opaque noHMM(d: *gse.Dictionary, str: string, r: []string) bool = exists R: arr[int,gse.route] {bestTable(d, chars(str), R)} :: bestTable(d, chars(str), R) && r == jres(global(gse_reEng), W(R, str)) ++ flush(jbuf(global(gse_reEng), W(R, str)))
opaque withHMM(d: *gse.Dictionary, str: string, r: []string) bool = exists R: arr[int,gse.route] {bestTable(d, chars(str), R)} :: bestTable(d, chars(str), R) && kept(W(R, str), emptyof(dec("")), r)

func (*gse.Segmenter).CutDAG(seg, str, reg) (r)
  prop C04, C05, C23
  uses =withHMM
  requires dictOK(seg.Dict) && hmmTables() && okRegs(reg)
  ensures @route:C05: withHMM(seg.Dict, str, r)
  ensures @text:C04: flat(r) == enc(chars(str))
func (*gse.Segmenter).CutDAGNoHMM(seg, str) (r)
  prop C04, C05, C23
  uses =noHMM
  requires dictOK(seg.Dict)
  ensures @route:C05: noHMM(seg.Dict, str, r)
  ensures @text:C04: flat(r) == enc(chars(str))
func (*gse.Segmenter).CutAll(seg, str) (r)
  prop C06, C23
  requires dictOK(seg.Dict)
  ensures @list:C06: exists D: arr[int,[]int] {graph(seg.Dict, chars(str), D)} :: graph(seg.Dict, chars(str), D) && r == fullOut(D, chars(str), len(chars(str)))

def canSegment(seg: *gse.Segmenter) = seg.Dict != nil && dictOK(seg.Dict) && segProper(seg)
func (*gse.Segmenter).Cut(seg, str, hmm) (r)
  prop C04, C05, C07, C23
  uses =noHMM, =withHMM
  requires canSegment(seg) && hmmTables()
  ensures @text:C04: len(hmm) > 0 ==> flat(r) == enc(chars(str))
  ensures @nohmm:C05,C07: len(hmm) > 0 && !hmm[0] ==> noHMM(seg.Dict, str, r)
  ensures @hmm:C05,C07: len(hmm) > 0 && hmm[0] ==> withHMM(seg.Dict, str, r)

// the first k pieces of n characters
fn windows(rs: []rune, n: int, k: int) [][]rune
axiom windows_none(rs: []rune, n: int, k: int)
  requires k <= 0
  trigger windows(rs, n, k)
  ensures windows(rs, n, k) == nil
  note definition by recursion on the number
axiom windows_step(rs: []rune, n: int, k: int, m: int)
  requires 0 <= k && m == k + 1
  trigger windows(rs, n, k), windows(rs, n, m)
  ensures windows(rs, n, m) == windows(rs, n, k) ++ unit(rs[k:k+n])
  note definition by recursion on the number
def known(d: *gse.Dictionary, s: string) = hasWord(d, s) && wordFreq(d, s) > 0.0
// those of them that are dictionary words
hom wordsIn(d: *gse.Dictionary, cs: [][]rune) []string = if known(d, enc(x)) then unit(enc(x)) else nil
def gramsTo(d: *gse.Dictionary, w: string, n: int, k: int) = wordsIn(d, windows(dec(w), n, k))
def grams(d: *gse.Dictionary, w: string, n: int) = if len(dec(w)) > n then gramsTo(d, w, n, len(dec(w)) - n + 1) else nil
// what one word of the plain cut becomes
hom searchWords(d: *gse.Dictionary, ws: []string) []string = grams(d, x, 2) ++ grams(d, x, 3) ++ unit(x)
func (*gse.Segmenter).cutForSearch(seg, str, hmm) (r)
  prop C07, C23
  ghost ws: []string = ret("Cut")
  uses windows_none, windows_step
  requires canSegment(seg) && hmmTables()
  ensures @plain:C07: (len(hmm) > 0 && !hmm[0] ==> noHMM(seg.Dict, str, ws)) && (len(hmm) > 0 && hmm[0] ==> withHMM(seg.Dict, str, ws))
  ensures @grams:C07: r == searchWords(seg.Dict, ws)
  inv phi q: int, phi o: []string :: o == searchWords(seg.Dict, ws[:q])
  inv phi j: int, phi o: []string, val q: int, val inc: []int :: j <= 2 && o == searchWords(seg.Dict, ws[:q]) ++ (if j > 0 then grams(seg.Dict, ws[q], 2) else nil) ++ (if j > 1 then grams(seg.Dict, ws[q], 3) else nil)
  inv phi i: int, phi o: []string, val q: int, val n: int :: (n == 2 || n == 3) && 0 <= i && i <= len(dec(ws[q])) - n + 1 && o == searchWords(seg.Dict, ws[:q]) ++ (if n == 3 then grams(seg.Dict, ws[q], 2) else nil) ++ gramsTo(seg.Dict, ws[q], n, i)
