// Segmentation: dictionary lookup, cheapest path, search mode.

heap gse.jumper

// lengths (in words) of the dictionary words a word list starts with
fn hitLens(t: trie, ws: []gse.Text) []int
axiom hits_none(t: trie, ws: []gse.Text)
  requires len(ws) == 0
  trigger hitLens(t, ws)
  ensures hitLens(t, ws) == nil
  note definition by recursion on the list
axiom hits_step(t: trie, ws: []gse.Text, n: int, m: int)
  requires 0 < n && n <= len(ws) && m == n - 1
  ensures hitLens(t, ws[:n]) == (if thas(t, flat(ws[:n])) then hitLens(t, ws[:m]) ++ unit(n) else hitLens(t, ws[:m]))
  trigger hitLens(t, ws[:n]), hitLens(t, ws[:m])
  note definition by recursion on the list
lemma hits_last(t: trie, ws: []gse.Text, m: int)
  requires 0 < len(ws) && m == len(ws) - 1
  ensures hitLens(t, ws) == (if thas(t, flat(ws)) then hitLens(t, ws[:m]) ++ unit(len(ws)) else hitLens(t, ws[:m]))
  trigger hitLens(t, ws), hitLens(t, ws[:m])
  uses hits_step
  check hitLens(t, ws[:len(ws)]) == (if thas(t, flat(ws[:len(ws)])) then hitLens(t, ws[:m]) ++ unit(len(ws)) else hitLens(t, ws[:m]))

hom nonEmptyWords(ws: []gse.Text) bool and = len(x) > 0

lemma hits_stop(t: trie, ws: []gse.Text, i: int, j: int)
  requires 0 <= i && i <= j && j <= len(ws) && (forall k: int :: i < k && k <= j ==> !thas(t, flat(ws[:k])))
  ensures hitLens(t, ws[:j]) == hitLens(t, ws[:i])
  decreases j - i
  trigger hitLens(t, ws[:i]), hitLens(t, ws[:j])
  uses hits_step
  check i < j ==> hitLens(t, ws[:j-1]) == hitLens(t, ws[:i])
  check i < j ==> hitLens(t, ws[:j]) == hitLens(t, ws[:j-1])

lemma no_word(t: trie, ws: []gse.Text, i: int, j: int)
  requires 0 <= i && i <= j && j <= len(ws) && !tpre(t, flat(ws[:i]))
  ensures !thas(t, flat(ws[:j]))
  trigger tpre(t, flat(ws[:i])), thas(t, flat(ws[:j]))
  uses trie_has, trie_pre
  check flat(ws[:j]) == flat(ws[:i]) ++ flat(ws[i:j])
  check thas(t, flat(ws[:i]) ++ flat(ws[i:j])) ==> tpre(t, flat(ws[:i]))
lemma hits_cut(t: trie, ws: []gse.Text, i: int)
  requires 0 <= i && i < len(ws) && !tpre(t, flat(ws[:i+1]))
  ensures hitLens(t, ws) == hitLens(t, ws[:i])
  trigger hitLens(t, ws), hitLens(t, ws[:i])
  uses no_word, hits_stop
  check forall k: int :: i < k && k <= len(ws) ==> !thas(t, flat(ws[:k]))
  check hitLens(t, ws[:len(ws)]) == hitLens(t, ws[:i])

func (*gse.Dictionary).LookupTokens(dict, words, tokens) (n)
  prop C01, C02, C23
  uses trie_root, trie_has, trie_pre, hits_none, hits_step, hits_cut
  requires dictOK(dict) && len(words) <= len(tokens) && nonEmptyWords(words)
  modifies elems(tokens)
  ensures n == len(hitLens(trie(dict.trie), words)) && n <= len(words)
  ensures forall i: int :: 0 <= i && i < n ==> tokens[i] == wordTok(dict, flat(words[:hitLens(trie(dict.trie), words)[i]]))
  inv phi c: int, phi n: int, phi id: int :: c <= len(words) && n <= c && n == len(hitLens(trie(dict.trie), words[:c]))
  inv phi c: int, phi n: int, phi id: int :: tnode(trie(dict.trie), id) && npath(trie(dict.trie), id) == flat(words[:c])
  inv phi c: int, phi n: int, phi id: int :: forall i: int :: 0 <= i && i < n ==> tokens[i] == wordTok(dict, flat(words[:hitLens(trie(dict.trie), words[:c])[i]]))

def add32(a: real, b: real) = f32(fadd(a, b))
// every run of words that spells a dictionary word is how the dictionary splits it
fn canon(d: *gse.Dictionary, ws: []gse.Text) bool = forall a: int, b: int :: 0 <= a && a < b && b <= len(ws) && hasWord(d, flat(ws[a:b])) ==> wordText(d, flat(ws[a:b])) == ws[a:b]

hom jtoks(js: seq[*gse.jumper]) seq[*gse.Token] = unit(x.token)
hom tlens(ts: seq[*gse.Token]) []int = unit(len(x.text))
hom tokTexts(ts: seq[*gse.Token]) []gse.Text = x.text
hom segToks(ss: seq[*gse.Segment]) seq[*gse.Token] = unit(x.token)

// following the jumps back from position k
fn path(ts: seq[*gse.Token], ls: []int, k: int) seq[*gse.Token]
axiom path_end(ts: seq[*gse.Token], ls: []int, k: int)
  requires k < 0
  trigger path(ts, ls, k)
  ensures path(ts, ls, k) == nil
  note definition by recursion on k
axiom path_step(ts: seq[*gse.Token], ls: []int, k: int, j: int)
  requires 0 <= k && k < len(ts) && j == k - ls[k] && ls[k] >= 1
  trigger path(ts, ls, k), path(ts, ls, j)
  ensures path(ts, ls, k) == path(ts, ls, j) ++ unit(ts[k])
  note definition by recursion on k

lemma path_pre(ts: seq[*gse.Token], ls: []int, k: int, p: seq[*gse.Token], n: int)
  requires 0 <= k && k < len(ts) && ls[k] >= 1 && 0 <= n && n <= len(p) && path(ts, ls, k) == p[:n]
  ensures n > 0 && p[n-1] == ts[k] && path(ts, ls, k - ls[k]) == p[:n-1] && len(path(ts, ls, k - ls[k])) == n - 1
  trigger path(ts, ls, k), p[:n]
  uses path_step
  check path(ts, ls, k) == path(ts, ls, k - ls[k]) ++ unit(ts[k])
  check len(path(ts, ls, k)) == n && n > 0
  check path(ts, ls, k)[n-1] == ts[k]
  check path(ts, ls, k - ls[k]) == path(ts, ls, k)[:n-1]
  check p[:n][n-1] == p[n-1]

fn endsAt(ws: []gse.Text, t: *gse.Token, k: int) bool = t != nil && 1 <= len(t.text) && len(t.text) <= k + 1 && t.text == ws[k+1-len(t.text):k+1]
fn allEnd(ws: []gse.Text, ts: seq[*gse.Token]) bool = len(ts) == len(ws) && (forall i: int :: 0 <= i && i < len(ts) ==> endsAt(ws, ts[i], i))

fn jumpOK(ws: []gse.Text, search: bool, c: int, t: *gse.Token, k: int) bool = endsAt(ws, t, k) && k + 1 - len(t.text) < c && isalloc(t) && (search ==> len(t.text) < len(ws))

lemma hits_range(t: trie, ws: []gse.Text, i: int)
  requires 0 <= i && i < len(hitLens(t, ws))
  ensures 1 <= hitLens(t, ws)[i] && hitLens(t, ws)[i] <= len(ws) && thas(t, flat(ws[:hitLens(t, ws)[i]]))
  decreases len(ws)
  trigger hitLens(t, ws)[i]
  uses hits_none, hits_last
  check len(ws) > 0
  check ws[:len(ws)] == ws
  check hitLens(t, ws) == hitLens(t, ws[:len(ws)-1]) ++ (if thas(t, flat(ws)) then unit(len(ws)) else nil)
  check i < len(hitLens(t, ws[:len(ws)-1])) ==> hitLens(t, ws)[i] == hitLens(t, ws[:len(ws)-1])[i]
lemma hits_first(t: trie, ws: []gse.Text)
  requires len(ws) > 0
  ensures (thas(t, flat(ws[:1])) ==> len(hitLens(t, ws)) > 0 && hitLens(t, ws)[0] == 1)
  decreases len(ws)
  trigger hitLens(t, ws)
  uses hits_none, hits_last
  check len(ws) == 1 ==> hitLens(t, ws[:1]) == hitLens(t, ws[:0]) ++ (if thas(t, flat(ws[:1])) then unit(1) else nil)
  check len(ws) > 1 ==> hitLens(t, ws) == hitLens(t, ws[:len(ws)-1]) ++ (if thas(t, flat(ws)) then unit(len(ws)) else nil)
  check len(ws) > 1 && thas(t, flat(ws[:1])) ==> len(hitLens(t, ws[:len(ws)-1])) > 0 && hitLens(t, ws[:len(ws)-1])[0] == 1

lemma hit_text(d: *gse.Dictionary, ws: []gse.Text, c: int, e: int, i: int)
  requires canon(d, ws) && 0 <= c && c <= e && e <= len(ws) && 0 <= i && i < len(hitLens(trie(d.trie), ws[c:e]))
  ensures (let n = hitLens(trie(d.trie), ws[c:e])[i] in 1 <= n && c + n <= e && hasWord(d, flat(ws[c:c+n])) && flat(ws[c:e][:n]) == flat(ws[c:c+n]) && wordText(d, flat(ws[c:c+n])) == ws[c:c+n] && wordTok(d, flat(ws[c:e][:n])).text == ws[c:c+n])
  trigger canon(d, ws), hitLens(trie(d.trie), ws[c:e])[i]
  uses hits_range
  check ws[c:e][:hitLens(trie(d.trie), ws[c:e])[i]] == ws[c:c+hitLens(trie(d.trie), ws[c:e])[i]]

lemma path_text(ws: []gse.Text, ts: seq[*gse.Token], k: int)
  requires allEnd(ws, ts) && -1 <= k && k < len(ws)
  ensures tokTexts(path(ts, tlens(ts), k)) == ws[:k+1]
  decreases k + 1
  trigger allEnd(ws, ts), path(ts, tlens(ts), k)
  uses path_end, path_step
  check k >= 0 ==> endsAt(ws, ts[k], k)
  check k >= 0 ==> tokTexts(path(ts, tlens(ts), k - len(ts[k].text))) == ws[:k-len(ts[k].text)+1]
  check k >= 0 ==> path(ts, tlens(ts), k) == path(ts, tlens(ts), k - len(ts[k].text)) ++ unit(ts[k])

lemma path_same(ss: seq[*gse.Segment], ts: seq[*gse.Token], ls: []int, k: int)
  requires len(ss) == len(path(ts, ls, k)) && (forall i: int :: 0 <= i && i < len(ss) ==> ss[i].token == path(ts, ls, k)[i])
  ensures segToks(ss) == path(ts, ls, k)
  trigger segToks(ss), path(ts, ls, k)
  check len(segToks(ss)) == len(ss)
  check forall i: int :: 0 <= i && i < len(ss) ==> segToks(ss)[i] == ss[i].token

func (*gse.Segmenter).segmentWords(seg, text, search) (out)
  prop C01, C02, C03, C23
  uses hits_none, hit_text, hits_first, path_end, path_step, path_pre, path_text, path_same
  requires seg.Dict != nil ==> dictOK(seg.Dict) && canon(seg.Dict, text)
  requires nonEmptyWords(text)
  ensures seg.Dict == nil || (search && len(text) == 1) ==> len(out) == 0
  ensures @words:C01,C03: seg.Dict != nil && !(search && len(text) == 1) ==> tokTexts(segToks(view(out))) == text
  ensures @pos:C01: forall k: int :: 0 <= k && k < len(out) ==> out[k].token != nil && out[k].start == blen(tokTexts(segToks(view(out))[:k])) && out[k].end == blen(tokTexts(segToks(view(out))[:k+1]))
  inv phi c: int, val js: []gse.jumper :: canon(seg.Dict, text) && dictOK(seg.Dict)
  inv phi c: int, val js: []gse.jumper, val ts: []*gse.Token :: c <= len(text) && len(js) == len(text) && len(ts) == seg.Dict.maxTokenLen
  inv phi c: int, val js: []gse.jumper :: forall k: int :: 0 <= k && k < len(js) ==> js[k].token == nil || jumpOK(text, search, c, js[k].token, k)
  inv phi c: int, val js: []gse.jumper :: forall k: int :: 0 <= k && k < c ==> js[k].token != nil
  inv phi i: int, val c: int, val js: []gse.jumper :: i <= len(hitLens(trie(seg.Dict.trie), text[c:(if c + seg.Dict.maxTokenLen <= len(text) then c + seg.Dict.maxTokenLen else len(text))]))
  inv phi i: int, val c: int, val js: []gse.jumper :: forall k: int :: 0 <= k && k < len(js) ==> js[k].token == nil || jumpOK(text, search, c+1, js[k].token, k)
  inv phi i: int, val c: int, val js: []gse.jumper :: forall k: int :: 0 <= k && k < c ==> js[k].token != nil
  inv phi i: int, val c: int, val js: []gse.jumper :: i > 0 && thas(trie(seg.Dict.trie), flat(text[c:c+1])) && !(search && c == 0 && len(text) == 1) ==> js[c].token != nil
  inv phi i: int, phi n: int, val js: []gse.jumper :: -1 <= i && i < len(js) && n + len(path(jtoks(view(js)), tlens(jtoks(view(js))), i)) == len(path(jtoks(view(js)), tlens(jtoks(view(js))), len(text)-1))
  inv phi i: int, phi n: int, val js: []gse.jumper, val o: []gse.Segment :: -1 <= i && i < len(js) && path(jtoks(view(js)), tlens(jtoks(view(js))), i) == path(jtoks(view(js)), tlens(jtoks(view(js))), len(text)-1)[:n] && 0 <= n && n <= len(o) && len(o) == len(path(jtoks(view(js)), tlens(jtoks(view(js))), len(text)-1))
  inv phi i: int, phi n: int, val js: []gse.jumper, val o: []gse.Segment :: forall k: int :: n <= k && k < len(o) ==> o[k].token == path(jtoks(view(js)), tlens(jtoks(view(js))), len(text)-1)[k]
  inv phi i: int, val js: []gse.jumper, val o: []gse.Segment :: i < 0 ==> segToks(view(o)) == path(jtoks(view(js)), tlens(jtoks(view(js))), len(text)-1)
  inv phi i: int, val js: []gse.jumper, val o: []gse.Segment :: allEnd(text, jtoks(view(js)))
  inv phi n: int, val js: []gse.jumper, val o: []gse.Segment :: forall k: int :: n <= k && k < len(o) ==> o[k].token != nil
  inv phi i: int, val js: []gse.jumper, val o: []gse.Segment :: i < 0 ==> tokTexts(segToks(view(o))) == text
  inv phi i: int, phi n: int, val o: []gse.Segment :: n == blen(tokTexts(segToks(view(o))[:i]))
  inv phi i: int, val o: []gse.Segment :: forall k: int :: 0 <= k && k < i ==> o[k].start == blen(tokTexts(segToks(view(o))[:k])) && o[k].end == blen(tokTexts(segToks(view(o))[:k+1]))
