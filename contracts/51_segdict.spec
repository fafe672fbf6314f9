// The dictionary functions of the segmenter.

def normOf(seg: *gse.Segmenter, s: string) = norm(global(gse_ToLower) && !seg.Alpha, s)
def posOf(pos: []string) = if len(pos) > 0 then pos[0] else ""
// everything the dictionary records about its words is as before
def wordsKept(d: *gse.Dictionary) = forall k: string :: old(hasWord(d, k)) && hasWord(d, k) ==> wordFreq(d, k) == old(wordFreq(d, k)) && wordPos(d, k) == old(wordPos(d, k)) && wordText(d, k) == old(wordText(d, k))

// every word of the dictionary is split as the splitter splits texts
fn dictProper(d: *gse.Dictionary, num: bool, alpha: bool, alnum: bool) bool = forall k: string :: hasWord(d, k) ==> proper(num, alpha, alnum, wordText(d, k)) && flat(wordText(d, k)) == k
def segProper(seg: *gse.Segmenter) = dictProper(seg.Dict, seg.Num, seg.Alpha, seg.AlphaNum)

func (*gse.Segmenter).Find(seg, str) (freq, pos, ok)
  prop C11, C23
  uses trie_has
  requires dictOK(seg.Dict)
  ensures hasWord(seg.Dict, str) ==> ok && freq == wordFreq(seg.Dict, str) && pos == wordPos(seg.Dict, str)
  ensures !hasWord(seg.Dict, str) ==> freq == 0.0 && pos == ""
  ensures len(str) > 0 ==> ok == tpre(trie(seg.Dict.trie), str)

func (*gse.Segmenter).Value(seg, str) (val, id, err)
  prop C11, C23
  requires dictOK(seg.Dict)
  ensures (err == nil) == hasWord(seg.Dict, str)

func (*gse.Segmenter).Dictionary(seg) (d)
  prop C12, C23
  ensures d == seg.Dict

func (*gse.Segmenter).ToToken(seg, text, freq, pos) (tok)
  prop C11, C12, C23
  ensures flat(tok.text) == normOf(seg, text)
  ensures tok.freq == freq && tok.pos == posOf(pos) && len(tok.segments) == 0
  ensures proper(seg.Num, seg.Alpha, seg.AlphaNum, tok.text)

func (*gse.Segmenter).AddToken(seg, text, freq, pos) (err)
  prop C11, C12
  requires dictOK(seg.Dict)
  modifies seg.Dict.Tokens, elems(seg.Dict.Tokens), seg.Dict.totalFreq, seg.Dict.maxTokenLen, trie(seg.Dict.trie)
  let key = normOf(seg, text)
  let noop = len(normOf(seg, text)) == 0 || old(hasWord(seg.Dict, normOf(seg, text)))
  ensures old(segProper(seg)) ==> segProper(seg)
  ensures dictOK(seg.Dict) && seg.Dict.trie == old(seg.Dict.trie)
  ensures err == nil
  ensures @has:C11: forall k: string :: hasWord(seg.Dict, k) <==> ((k == key && len(key) > 0) || old(hasWord(seg.Dict, k)))
  ensures @kept:C11: wordsKept(seg.Dict)
  ensures @new:C11: !noop ==> wordFreq(seg.Dict, key) == freq && wordPos(seg.Dict, key) == posOf(pos)
  ensures @count:C12: len(seg.Dict.Tokens) == old(len(seg.Dict.Tokens)) + (if noop then 0 else 1)
  ensures @total:C12: seg.Dict.totalFreq == (if noop then old(seg.Dict.totalFreq) else fadd(old(seg.Dict.totalFreq), freq))
  ensures @max:C12: noop ==> seg.Dict.maxTokenLen == old(seg.Dict.maxTokenLen)
  ensures @max:C12: !noop ==> seg.Dict.maxTokenLen == (if len(wordText(seg.Dict, key)) > old(seg.Dict.maxTokenLen) then len(wordText(seg.Dict, key)) else old(seg.Dict.maxTokenLen))

func (*gse.Segmenter).RemoveToken(seg, text) (err)
  prop C11, C12
  requires dictOK(seg.Dict)
  modifies trie(seg.Dict.trie)
  let key = normOf(seg, text)
  ensures old(segProper(seg)) ==> segProper(seg)
  ensures dictOK(seg.Dict)
  ensures @err:C11: (err == nil) == old(hasWord(seg.Dict, normOf(seg, text)))
  ensures @has:C11: forall k: string :: hasWord(seg.Dict, k) <==> (old(hasWord(seg.Dict, k)) && k != key)
  ensures @kept:C11: wordsKept(seg.Dict)

func (*gse.Segmenter).ReAddToken(seg, text, freq, pos) (err)
  prop C11, C12
  requires dictOK(seg.Dict)
  modifies seg.Dict.Tokens, elems(seg.Dict.Tokens), seg.Dict.totalFreq, seg.Dict.maxTokenLen, trie(seg.Dict.trie)
  let key = normOf(seg, text)
  let had = old(hasWord(seg.Dict, normOf(seg, text)))
  ensures old(segProper(seg)) ==> segProper(seg)
  ensures dictOK(seg.Dict)
  ensures @err:C11: (err == nil) == had
  ensures @has:C11: forall k: string :: hasWord(seg.Dict, k) <==> old(hasWord(seg.Dict, k))
  ensures @kept:C11: forall k: string :: k != key && hasWord(seg.Dict, k) ==> wordFreq(seg.Dict, k) == old(wordFreq(seg.Dict, k)) && wordPos(seg.Dict, k) == old(wordPos(seg.Dict, k)) && wordText(seg.Dict, k) == old(wordText(seg.Dict, k))
  ensures @new:C11: had ==> wordFreq(seg.Dict, key) == freq && wordPos(seg.Dict, key) == posOf(pos)
  ensures @count:C12: len(seg.Dict.Tokens) == old(len(seg.Dict.Tokens)) + (if had then 1 else 0)
  ensures @total:C12: seg.Dict.totalFreq == (if had then fadd(old(seg.Dict.totalFreq), freq) else old(seg.Dict.totalFreq))
  ensures @max:C12: !had ==> seg.Dict.maxTokenLen == old(seg.Dict.maxTokenLen)
  ensures @max:C12: had ==> seg.Dict.maxTokenLen == (if len(wordText(seg.Dict, key)) > old(seg.Dict.maxTokenLen) then len(wordText(seg.Dict, key)) else old(seg.Dict.maxTokenLen))
