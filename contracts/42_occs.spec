// Occurrence search and token analysis.

fn occAt(d: string, s: string, p: int) bool = 0 <= p && p + len(s) <= len(d) && d[p:p+len(s)] == s
fn lastIdx(d: string, s: string) int
extern bytes.LastIndex(s, sep) (r)
  ensures r == lastIdx(s, sep)
  ensures r == -1 || occAt(s, sep, r)
  ensures forall p: int :: occAt(s, sep, p) ==> p <= r
axiom last_idx(d: string, s: string)
  trigger lastIdx(d, s)
  ensures (lastIdx(d, s) == -1 || occAt(d, s, lastIdx(d, s))) && (forall p: int :: occAt(d, s, p) ==> p <= lastIdx(d, s))
  note meaning of bytes.LastIndex

fn occs(d: string, s: string, idx: int) []int
axiom occs_def(d: string, s: string, idx: int)
  requires 0 <= idx && idx <= len(d) && s != ""
  trigger occs(d, s, idx), lastIdx(d[:idx], s)
  ensures occs(d, s, idx) == (if lastIdx(d[:idx], s) < 0 then nil else unit(lastIdx(d[:idx], s)) ++ occs(d, s, lastIdx(d[:idx], s)))
  note definition by recursion on idx
def upper(l: []int, idx: int, i: int) = if i == 0 then idx else l[i-1]
fn soundOccs(d: string, s: string, idx: int, l: []int) bool = forall i: int :: 0 <= i && i < len(l) ==> occAt(d, s, l[i]) && l[i] + len(s) <= upper(l, idx, i)
fn fullOccs(d: string, s: string, idx: int, l: []int) bool = (forall i: int, p: int :: 0 <= i && i < len(l) && occAt(d, s, p) && p + len(s) <= upper(l, idx, i) ==> p <= l[i]) && (forall p: int :: occAt(d, s, p) ==> p + len(s) > upper(l, idx, len(l)))

lemma occ_prefix(d: string, s: string, idx: int, p: int)
  requires 0 <= idx && idx <= len(d)
  ensures occAt(d[:idx], s, p) <==> (occAt(d, s, p) && p + len(s) <= idx)
  trigger occAt(d[:idx], s, p)
  trigger occAt(d, s, p), occs(d, s, idx)
lemma occs_sound(d: string, s: string, idx: int)
  requires 0 <= idx && idx <= len(d) && s != ""
  ensures soundOccs(d, s, idx, occs(d, s, idx))
  decreases idx
  trigger occs(d, s, idx)
  uses occs_def, last_idx, occ_prefix
  check lastIdx(d[:idx], s) >= 0 ==> occAt(d, s, lastIdx(d[:idx], s)) && lastIdx(d[:idx], s) + len(s) <= idx
  check lastIdx(d[:idx], s) >= 0 ==> soundOccs(d, s, lastIdx(d[:idx], s), occs(d, s, lastIdx(d[:idx], s)))
  check lastIdx(d[:idx], s) >= 0 ==> (forall i: int :: 1 <= i && i < len(occs(d, s, idx)) ==> occs(d, s, idx)[i] == occs(d, s, lastIdx(d[:idx], s))[i-1])
lemma occs_full(d: string, s: string, idx: int)
  requires 0 <= idx && idx <= len(d) && s != ""
  ensures fullOccs(d, s, idx, occs(d, s, idx))
  decreases idx
  trigger occs(d, s, idx)
  uses occs_def, last_idx, occs_sound, occ_prefix
  check forall p: int :: occAt(d, s, p) && p + len(s) <= idx ==> occAt(d[:idx], s, p)
  check forall p: int :: occAt(d, s, p) && p + len(s) <= idx ==> p <= lastIdx(d[:idx], s)
  check lastIdx(d[:idx], s) >= 0 ==> fullOccs(d, s, lastIdx(d[:idx], s), occs(d, s, lastIdx(d[:idx], s)))
  check lastIdx(d[:idx], s) >= 0 ==> (forall i: int :: 1 <= i && i < len(occs(d, s, idx)) ==> occs(d, s, idx)[i] == occs(d, s, lastIdx(d[:idx], s))[i-1])
  check lastIdx(d[:idx], s) < 0 ==> len(occs(d, s, idx)) == 0
  check lastIdx(d[:idx], s) >= 0 ==> len(occs(d, s, idx)) == 1 + len(occs(d, s, lastIdx(d[:idx], s))) && occs(d, s, idx)[0] == lastIdx(d[:idx], s)
  check forall i: int, p: int :: 0 <= i && i < len(occs(d, s, idx)) && occAt(d, s, p) && p + len(s) <= upper(occs(d, s, idx), idx, i) ==> p <= occs(d, s, idx)[i]
  check forall p: int :: occAt(d, s, p) ==> p + len(s) > upper(occs(d, s, idx), idx, len(occs(d, s, idx)))

hom count(q: string, ws: []string) int + = if x == q then 1 else 0
hom repOcc(d: string, q: string, ws: []string) []int = if x == q && x != "" then occs(d, q, len(d)) else nil
hom allOcc(d: string, q: string, l: []int) bool and = occAt(d, q, x)

lemma count_nonneg(q: string, ws: []string)
  ensures count(q, ws) >= 0
  decreases len(ws)
  trigger count(q, ws)
  check len(ws) > 0 ==> count(q, ws[:len(ws)-1]) >= 0 && count(q, ws) == count(q, ws[:len(ws)-1]) + count(q, unit(ws[len(ws)-1]))
lemma count_at(q: string, ws: []string, k: int)
  requires 0 <= k && k < len(ws) && ws[k] == q
  ensures count(q, ws) >= count(q, ws[:k]) + 1 && count(q, ws[:k]) >= 0
  trigger count(q, ws[:k]), count(q, ws)
  trigger count(q, ws[:k]), ws[k]
  uses count_nonneg
  check count(q, ws) == count(q, ws[:k]) + count(q, ws[k:])
  check count(q, ws[k:]) == count(q, unit(ws[k])) + count(q, ws[k+1:])
lemma rep_len(d: string, q: string, ws: []string)
  requires q != ""
  ensures (len(occs(d, q, len(d))) > 0 ==> len(repOcc(d, q, ws)) >= count(q, ws)) && (len(occs(d, q, len(d))) == 0 ==> len(repOcc(d, q, ws)) == 0)
  decreases len(ws)
  trigger repOcc(d, q, ws)
  check len(ws) > 0 && len(occs(d, q, len(d))) > 0 ==> len(repOcc(d, q, ws[:len(ws)-1])) >= count(q, ws[:len(ws)-1])
  check len(ws) > 0 ==> repOcc(d, q, ws) == repOcc(d, q, ws[:len(ws)-1]) ++ repOcc(d, q, unit(ws[len(ws)-1]))
  check len(ws) > 0 ==> count(q, ws) == count(q, ws[:len(ws)-1]) + count(q, unit(ws[len(ws)-1]))
lemma rep_once(d: string, q: string, ws: []string)
  ensures (count(q, ws) == 0 ==> len(repOcc(d, q, ws)) == 0) && (count(q, ws) == 1 && q != "" ==> repOcc(d, q, ws) == occs(d, q, len(d)))
  decreases len(ws)
  trigger repOcc(d, q, ws)
  uses count_nonneg
  check len(ws) > 0 ==> repOcc(d, q, ws) == repOcc(d, q, ws[:len(ws)-1]) ++ repOcc(d, q, unit(ws[len(ws)-1]))
  check len(ws) > 0 ==> count(q, ws) == count(q, ws[:len(ws)-1]) + count(q, unit(ws[len(ws)-1]))
lemma rep_all(d: string, q: string, ws: []string)
  ensures allOcc(d, q, repOcc(d, q, ws))
  decreases len(ws)
  trigger repOcc(d, q, ws)
  uses occs_sound
  check len(ws) > 0 ==> repOcc(d, q, ws) == repOcc(d, q, ws[:len(ws)-1]) ++ repOcc(d, q, unit(ws[len(ws)-1]))
  check q != "" ==> soundOccs(d, q, len(d), occs(d, q, len(d)))
  check q != "" ==> allOcc(d, q, occs(d, q, len(d)))
lemma rep_none(d: string, ws: []string)
  ensures len(repOcc(d, "", ws)) == 0
  decreases len(ws)
  trigger repOcc(d, "", ws)
  check len(ws) > 0 ==> repOcc(d, "", ws) == repOcc(d, "", ws[:len(ws)-1]) ++ repOcc(d, "", unit(ws[len(ws)-1]))

func gse.FindAllOccs(data, searches) (results)
  prop C20, C19
  uses occs_def, rep_once, rep_none, occs_sound, occs_full
  ensures isfresh(results)
  ensures forall q: string :: results[q] == repOcc(data, q, searches)
  ensures @once:C20: forall q: string :: q != "" && count(q, searches) == 1 ==> soundOccs(data, q, len(data), results[q]) && fullOccs(data, q, len(data), results[q])
  inv phi i: int, val m: map[string][]int, val ws: []string :: i <= len(ws) && (forall q: string :: m[q] == repOcc(data, q, ws[:i]))
  inv phi idx: int, phi i: int, val m: map[string][]int, val s: string :: 0 <= idx && idx <= len(data)
  inv phi idx: int, val i: int, val m: map[string][]int, val s: string :: s == searches[i] && s != "" && (forall q: string :: q != s ==> m[q] == repOcc(data, q, searches[:i]))
  inv phi idx: int, val i: int, val m: map[string][]int, val s: string :: s == searches[i] && s != "" && m[s] ++ occs(data, s, idx) == repOcc(data, s, searches[:i]) ++ occs(data, s, len(data))

fn lowerUni(s: string) string
extern strings.ToLower(s) (r)
  ensures r == lowerUni(s)
axiom lower_empty(s: string)
  trigger lowerUni(s)
  ensures lowerUni(s) == "" <==> s == ""
  note lowercasing keeps texts non-empty

hom slens(ws: []string) int + = len(x)
hom rlens(ws: []string) int + = len(dec(x))
def refText(t: string) = if global(gse_ToLower) then lowerUni(t) else t

func (*gse.Segmenter).Analyze(seg, text, t1, by) (az)
  prop C19, C23
  uses trie_has, rep_len, rep_all, rep_none, count_nonneg, count_at, lower_empty
  requires dictOK(seg.Dict)
  ensures len(az) == len(text)
  ensures forall k: int :: 0 <= k && k < len(text) ==> az[k].Position == k && az[k].Text == text[k]
  ensures forall k: int :: 0 <= k && k < len(text) ==> (hasWord(seg.Dict, text[k]) ==> az[k].Freq == wordFreq(seg.Dict, text[k]) && az[k].Pos == wordPos(seg.Dict, text[k])) && (!hasWord(seg.Dict, text[k]) ==> az[k].Freq == 0.0 && az[k].Pos == "")
  ensures t1 == "" && len(by) == 0 ==> (forall k: int :: 0 <= k && k < len(text) ==> az[k].Start == slens(text[:k]) && az[k].End == slens(text[:k]) + len(text[k]))
  ensures t1 == "" && len(by) > 0 ==> (forall k: int :: 0 <= k && k < len(text) ==> az[k].Start == rlens(text[:k]) && az[k].End == rlens(text[:k]) + len(dec(text[k])))
  ensures t1 != "" ==> (forall k: int :: 0 <= k && k < len(text) && len(occs(refText(t1), text[k], len(refText(t1)))) > 0 && text[k] != "" ==> az[k].Start == repOcc(refText(t1), text[k], text)[count(text[k], text[:k])] && occAt(refText(t1), text[k], az[k].Start) && az[k].End == az[k].Start + len(text[k]))
  inv phi k: int, phi az: []gse.AnalyzeToken :: k <= len(text) && len(az) == k
  inv phi k: int, phi az: []gse.AnalyzeToken :: forall j: int :: 0 <= j && j < k ==> az[j].Position == j && az[j].Text == text[j]
  inv phi k: int, phi az: []gse.AnalyzeToken :: forall j: int :: 0 <= j && j < k ==> (hasWord(seg.Dict, text[j]) ==> az[j].Freq == wordFreq(seg.Dict, text[j]) && az[j].Pos == wordPos(seg.Dict, text[j])) && (!hasWord(seg.Dict, text[j]) ==> az[j].Freq == 0.0 && az[j].Pos == "")
  inv phi k: int, phi az: []gse.AnalyzeToken :: t1 == "" && len(by) == 0 ==> (forall j: int :: 0 <= j && j < k ==> az[j].Start == slens(text[:j]) && az[j].End == slens(text[:j+1]))
  inv phi k: int, phi az: []gse.AnalyzeToken :: t1 == "" && len(by) > 0 ==> (forall j: int :: 0 <= j && j < k ==> az[j].Start == rlens(text[:j]) && az[j].End == rlens(text[:j+1]))
  inv phi k: int, phi st: int, phi en: int :: k == 0 && t1 == "" ==> st == 0 && en == (if len(by) > 0 then len(dec(text[0])) else len(text[0]))
  inv phi k: int, val m: map[string]int :: t1 != "" ==> (forall w: string :: (has(m, w) <==> count(w, text[:k]) > 0) && (has(m, w) ==> m[w] == count(w, text[:k]) - 1))
  inv phi k: int, phi az: []gse.AnalyzeToken :: t1 != "" ==> (forall j: int :: 0 <= j && j < k && len(occs(refText(t1), text[j], len(refText(t1)))) > 0 && text[j] != "" ==> az[j].Start == repOcc(refText(t1), text[j], text)[count(text[j], text[:j])] && occAt(refText(t1), text[j], az[j].Start) && az[j].End == az[j].Start + len(text[j]))
