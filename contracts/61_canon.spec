// A text has only one split: the dictionary's words are split like any text.

lemma blen_sub(ws: []gse.Text, a: int, b: int)
  requires 0 <= a && a <= b && b <= len(ws)
  ensures blen(ws[a:b]) == blen(ws[:b]) - blen(ws[:a]) && flat(ws[a:b]) == flat(ws)[blen(ws[:a]):blen(ws[:b])] && blen(ws[:b]) <= blen(ws) && 0 <= blen(ws[:a]) && blen(ws[:a]) <= blen(ws[:b])
  trigger blen(ws[a:b])
  trigger flat(ws[a:b])
  uses flat_len, blen_nonneg
  check blen(ws[:b]) == blen(ws[:a]) + blen(ws[a:b])
  check blen(ws) == blen(ws[:b]) + blen(ws[b:])
  check blen(ws[b:]) >= 0 && blen(ws[a:b]) >= 0 && blen(ws[:a]) >= 0
  check flat(ws) == flat(ws[:a]) ++ (flat(ws[a:b]) ++ flat(ws[b:]))
  check len(flat(ws[:a])) == blen(ws[:a]) && len(flat(ws[a:b])) == blen(ws[a:b])

lemma cuts_sub(ws: []gse.Text, a: int, b: int)
  requires 0 <= a && a <= b && b <= len(ws) && splitAt(ws)
  ensures splitAt(ws[a:b])
  uses =cuts, bnd_sub, blen_sub, flat_len
  trigger splitAt(ws), splitAt(ws[a:b])
  check bnd(flat(ws), blen(ws[:a])) && bnd(flat(ws), blen(ws[:b]))
  check flat(ws[a:b]) == flat(ws)[blen(ws[:a]):blen(ws[:b])]
  check forall i: int, j: int :: 0 <= i && j == a + i && j <= b ==> ws[a:b][:i] == ws[a:j]
  check forall i: int, j: int :: 0 <= i && j == a + i && j <= b ==> blen(ws[a:b][:i]) == blen(ws[:j]) - blen(ws[:a])
  check forall i: int, j: int :: 0 <= i && j == a + i && j <= b ==> bnd(flat(ws), blen(ws[:j]))
  check forall i: int, j: int :: 0 <= i && j == a + i && j <= b ==> bnd(flat(ws[a:b]), blen(ws[:j]) - blen(ws[:a]))

lemma adj_sub(num: bool, alpha: bool, ws: []gse.Text, a: int, b: int)
  requires 0 <= a && a <= b && b <= len(ws) && noAdj(num, alpha, ws)
  ensures noAdj(num, alpha, ws[a:b])
  trigger noAdj(num, alpha, ws), noAdj(num, alpha, ws[a:b])
  check forall i: int, j: int :: 0 <= i && j == a + i && j < b ==> ws[a:b][i] == ws[j]
lemma proper_sub(num: bool, alpha: bool, alnum: bool, ws: []gse.Text, a: int, b: int)
  requires 0 <= a && a <= b && b <= len(ws) && proper(num, alpha, alnum, ws)
  ensures proper(num, alpha, alnum, ws[a:b])
  trigger proper(num, alpha, alnum, ws), proper(num, alpha, alnum, ws[a:b])
  uses cuts_sub, adj_sub

axiom dec_none(s: string)
  requires len(s) == 0
  trigger dec(s)
  ensures dec(s) == ""
  note the empty string has no characters
// a boundary strictly inside a word: it has two characters
lemma inside(v: string, k: int)
  requires 0 < k && k < len(v) && bnd(v, k)
  ensures len(dec(v)) >= 2 && dec(v) == dec(v[:k]) ++ dec(v[k:]) && len(dec(v[:k])) > 0 && len(dec(v[k:])) > 0
  trigger bnd(v, k)
  uses bnd_dec, dec_some
lemma last_word(ws: []gse.Text, m: int)
  requires len(ws) > 0 && m == len(ws) - 1
  ensures flat(ws) == flat(ws[:m]) ++ ws[m] && blen(ws) == blen(ws[:m]) + len(ws[m]) && ws[m] == flat(ws)[blen(ws[:m]):len(flat(ws))]
  trigger flat(ws), ws[:m]
  uses flat_len, blen_nonneg
  check ws == ws[:m] ++ unit(ws[m])
  check flat(ws) == flat(ws[:m]) ++ ws[m]
  check blen(ws) == blen(ws[:m]) + len(ws[m])
  check len(flat(ws[:m])) == blen(ws[:m])
lemma first_an(num: bool, alpha: bool, w: string)
  requires allAn(num, alpha, dec(w)) && len(dec(w)) > 0
  ensures startsAn(num, alpha, w)
  trigger allAn(num, alpha, dec(w))
  check dec(w) == unit(dec(w)[0]) ++ dec(w)[1:]
lemma longer(num: bool, alpha: bool, alnum: bool, ws: []gse.Text, vs: []gse.Text, s: string, n: int, n2: int, m: int, p: int, p2: int, q: int)
  requires proper(num, alpha, alnum, ws) && proper(num, alpha, alnum, vs) && flat(ws) == s && flat(vs) == s && len(ws) > 0 && len(vs) > 0
  requires n == len(ws) - 1 && m == len(vs) - 1 && p == blen(ws[:n]) && q == blen(vs[:m]) && n2 == n - 1 && p2 == blen(ws[:n2])
  ensures p <= q
  uses =cuts, last_word, flat_len, blen_nonneg, inside, first_an, bnd_sub, dec_some, bnd_dec
  check bnd(s, p) && bnd(s, q) && bnd(s, len(s)) && 0 <= q && p <= len(s) && len(s) == blen(ws)
  check vs[m] == s[q:len(s)] && ws[n] == s[p:len(s)]
  check okWord(num, alpha, alnum, ws[n]) && okWord(num, alpha, alnum, vs[m])
  check len(ws[n]) > 0
  check p > q ==> bnd(vs[m], p - q) && vs[m][p-q:] == ws[n]
  check p > q ==> 0 < p - q && p - q < len(vs[m])
  check p > q ==> len(dec(vs[m])) >= 2 && dec(vs[m]) == dec(vs[m][:p-q]) ++ dec(ws[n]) && len(dec(ws[n])) > 0
  check p > q ==> !alnum && allAn(num, alpha, dec(vs[m]))
  check p > q ==> allAn(num, alpha, dec(ws[n]))
  check p > q ==> startsAn(num, alpha, ws[n])
  check p > q ==> n > 0
  check p > q ==> !startsAn(num, alpha, ws[n2])
  check p > q ==> okWord(num, alpha, alnum, ws[n2]) && bnd(s, p2)
  check p > q ==> flat(ws[:n]) == flat(ws[:n2]) ++ ws[n2] && p == p2 + len(ws[n2]) && ws[n2] == s[p2:p]
  check p > q ==> len(ws[n2]) > 0
  check p > q ==> len(dec(ws[n2])) == 1
  check p > q && p2 < q ==> bnd(ws[n2], q - p2) && q - p2 < len(ws[n2])
  check p > q && p2 < q ==> false
  check p > q ==> bnd(vs[m], p2 - q)
  check p > q && p2 == q ==> vs[m][:p-q] == ws[n2]
  check p > q && p2 > q ==> bnd(vs[m][:p-q], p2 - q) && vs[m][:p-q][p2-q:] == ws[n2]
  check p > q && p2 > q ==> dec(vs[m][:p-q]) == dec(vs[m][:p-q][:p2-q]) ++ dec(ws[n2])
  check p > q ==> allAn(num, alpha, dec(vs[m][:p-q]))
  check p > q ==> allAn(num, alpha, dec(ws[n2]))

lemma words_some(num: bool, alpha: bool, alnum: bool, ws: []gse.Text)
  requires okWords(num, alpha, alnum, ws) && blen(ws) == 0
  ensures len(ws) == 0
  trigger okWords(num, alpha, alnum, ws), blen(ws)
  uses dec_none, blen_nonneg
  check len(ws) > 0 ==> blen(ws) == blen(ws[:len(ws)-1]) + len(ws[len(ws)-1])
  check len(ws) > 0 ==> okWord(num, alpha, alnum, ws[len(ws)-1]) && len(ws[len(ws)-1]) > 0
lemma uniq(num: bool, alpha: bool, alnum: bool, ws: []gse.Text, vs: []gse.Text)
  requires proper(num, alpha, alnum, ws) && proper(num, alpha, alnum, vs) && flat(ws) == flat(vs)
  ensures ws == vs
  decreases len(ws)
  uses longer, words_some, last_word, flat_len, proper_sub
  trigger proper(num, alpha, alnum, ws), proper(num, alpha, alnum, vs)
  check blen(ws) == blen(vs)
  check len(ws) > 0 <==> len(vs) > 0
  check len(ws) > 0 ==> blen(ws[:len(ws)-1]) == blen(vs[:len(vs)-1])
  check len(ws) > 0 ==> flat(ws) == flat(ws[:len(ws)-1]) ++ ws[len(ws)-1] && flat(vs) == flat(vs[:len(vs)-1]) ++ vs[len(vs)-1]
  check len(ws) > 0 ==> len(flat(ws[:len(ws)-1])) == blen(ws[:len(ws)-1]) && len(flat(vs[:len(vs)-1])) == blen(vs[:len(vs)-1])
  check len(ws) > 0 ==> flat(ws[:len(ws)-1]) == flat(ws)[:blen(ws[:len(ws)-1])] && flat(vs[:len(vs)-1]) == flat(ws)[:blen(ws[:len(ws)-1])]
  check len(ws) > 0 ==> ws[len(ws)-1] == vs[len(vs)-1] && flat(ws[:len(ws)-1]) == flat(vs[:len(vs)-1])
  check len(ws) > 0 ==> proper(num, alpha, alnum, ws[:len(ws)-1]) && proper(num, alpha, alnum, vs[:len(vs)-1])
  check len(ws) > 0 ==> ws[:len(ws)-1] == vs[:len(vs)-1]

lemma canon_proper(d: *gse.Dictionary, num: bool, alpha: bool, alnum: bool, ws: []gse.Text)
  requires dictProper(d, num, alpha, alnum) && proper(num, alpha, alnum, ws)
  ensures canon(d, ws)
  trigger canon(d, ws), dictProper(d, num, alpha, alnum), proper(num, alpha, alnum, ws)
  uses uniq, proper_sub
  check forall a: int, b: int :: 0 <= a && a < b && b <= len(ws) && hasWord(d, flat(ws[a:b])) ==> proper(num, alpha, alnum, ws[a:b]) && proper(num, alpha, alnum, wordText(d, flat(ws[a:b]))) && flat(wordText(d, flat(ws[a:b]))) == flat(ws[a:b])
  check forall a: int, b: int :: 0 <= a && a < b && b <= len(ws) && hasWord(d, flat(ws[a:b])) ==> wordText(d, flat(ws[a:b])) == ws[a:b]
lemma words_nonempty(num: bool, alpha: bool, alnum: bool, ws: []gse.Text)
  requires okWords(num, alpha, alnum, ws)
  ensures nonEmptyWords(ws)
  decreases len(ws)
  trigger okWords(num, alpha, alnum, ws), nonEmptyWords(ws)
  uses dec_none
  check len(ws) > 0 ==> nonEmptyWords(ws[:len(ws)-1]) && okWord(num, alpha, alnum, ws[len(ws)-1]) && ws == ws[:len(ws)-1] ++ unit(ws[len(ws)-1])
lemma tok_piece(ts: seq[*gse.Token], k: int, j: int)
  requires 0 <= k && j == k + 1 && j <= len(ts)
  ensures flat(ts[k].text) == flat(tokTexts(ts))[blen(tokTexts(ts[:k])):blen(tokTexts(ts[:j]))] && 0 <= blen(tokTexts(ts[:k])) && blen(tokTexts(ts[:k])) <= blen(tokTexts(ts[:j])) && blen(tokTexts(ts[:j])) <= len(flat(tokTexts(ts)))
  trigger flat(tokTexts(ts)), tokTexts(ts[:k]), tokTexts(ts[:j])
  uses flat_len, blen_nonneg
  check ts == ts[:k] ++ unit(ts[k]) ++ ts[j:]
  check tokTexts(ts[:j]) == tokTexts(ts[:k]) ++ ts[k].text
  check tokTexts(ts) == tokTexts(ts[:k]) ++ ts[k].text ++ tokTexts(ts[j:])
  check flat(tokTexts(ts)) == flat(tokTexts(ts[:k])) ++ flat(ts[k].text) ++ flat(tokTexts(ts[j:]))
  check blen(tokTexts(ts[:j])) == blen(tokTexts(ts[:k])) + blen(ts[k].text)
  check len(flat(tokTexts(ts[:k]))) == blen(tokTexts(ts[:k])) && len(flat(ts[k].text)) == blen(ts[k].text)

func (*gse.Segmenter).internalSegment(seg, bytes, search) (out)
  prop C01, C02, C03, C23
  uses canon_proper, words_nonempty, tok_piece, flat_len, lower_len
  requires seg.Dict != nil ==> dictOK(seg.Dict) && segProper(seg)
  ensures @none:C01: len(bytes) == 0 || seg.Dict == nil ==> len(out) == 0
  ensures @ends:C01,C03: len(bytes) > 0 && seg.Dict != nil ==> len(out) > 0 && out[0].start == 0 && out[len(out)-1].end == len(bytes)
  ensures @adjacent:C01: forall k: int, j: int :: 0 <= k && j == k + 1 && j < len(out) ==> out[k].end == out[j].start
  ensures @spells:C01: forall k: int :: 0 <= k && k < len(out) ==> 0 <= out[k].start && out[k].start <= out[k].end && out[k].end <= len(bytes) && out[k].token != nil && flat(out[k].token.text) == normOf(seg, bytes)[out[k].start:out[k].end]

func (*gse.Segmenter).ModeSegment(seg, bytes, searchMode) (out)
  prop C01, C03, C23
  requires seg.Dict != nil ==> dictOK(seg.Dict) && segProper(seg)
  ensures @none:C01: len(bytes) == 0 || seg.Dict == nil ==> len(out) == 0
  ensures @ends:C01,C03: len(bytes) > 0 && seg.Dict != nil ==> len(out) > 0 && out[0].start == 0 && out[len(out)-1].end == len(bytes)
  ensures @adjacent:C01: forall k: int, j: int :: 0 <= k && j == k + 1 && j < len(out) ==> out[k].end == out[j].start
  ensures @spells:C01: forall k: int :: 0 <= k && k < len(out) ==> 0 <= out[k].start && out[k].start <= out[k].end && out[k].end <= len(bytes) && out[k].token != nil && flat(out[k].token.text) == normOf(seg, bytes)[out[k].start:out[k].end]
func (*gse.Segmenter).Segment(seg, bytes) (out)
  prop C01, C02, C23
  requires seg.Dict != nil ==> dictOK(seg.Dict) && segProper(seg)
  ensures @none:C01: len(bytes) == 0 || seg.Dict == nil ==> len(out) == 0
  ensures @ends:C01: len(bytes) > 0 && seg.Dict != nil ==> len(out) > 0 && out[0].start == 0 && out[len(out)-1].end == len(bytes)
  ensures @adjacent:C01: forall k: int, j: int :: 0 <= k && j == k + 1 && j < len(out) ==> out[k].end == out[j].start
  ensures @spells:C01: forall k: int :: 0 <= k && k < len(out) ==> 0 <= out[k].start && out[k].start <= out[k].end && out[k].end <= len(bytes) && out[k].token != nil && flat(out[k].token.text) == normOf(seg, bytes)[out[k].start:out[k].end]
