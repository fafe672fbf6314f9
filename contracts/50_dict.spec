// The dictionary: an abstract map kept in a trie (package cedar, trusted).

fn thas(t: trie, k: string) bool
fn tval(t: trie, k: string) int
fn tpre(t: trie, k: string) bool
fn tnode(t: trie, id: int) bool
fn npath(t: trie, id: int) string
fn tset(t: trie, k: string, v: int) trie
fn tdel(t: trie, k: string) trie

axiom trie_set(t: trie, k: string, v: int, q: string)
  trigger thas(tset(t, k, v), q)
  trigger tval(tset(t, k, v), q)
  ensures (thas(tset(t, k, v), q) <==> (q == k || thas(t, q))) && (thas(tset(t, k, v), q) ==> tval(tset(t, k, v), q) == (if q == k then v else tval(t, q)))
  note cedar.Insert stores one key
axiom trie_del(t: trie, k: string, q: string)
  trigger thas(tdel(t, k), q)
  trigger tval(tdel(t, k), q)
  ensures (thas(tdel(t, k), q) <==> (q != k && thas(t, q))) && (thas(tdel(t, k), q) ==> tval(tdel(t, k), q) == tval(t, q))
  note cedar.Delete removes one key
axiom trie_root(t: trie)
  trigger npath(t, 0)
  trigger tnode(t, 0)
  ensures npath(t, 0) == "" && tnode(t, 0)
  note node 0 is the root of every cedar trie

axiom trie_pre(t: trie, a: string, b: string)
  requires thas(t, a ++ b)
  trigger thas(t, a ++ b), tpre(t, a)
  ensures tpre(t, a)
  note every prefix of a stored key is a path of the trie
axiom trie_has(t: trie, k: string)
  requires thas(t, k)
  trigger thas(t, k)
  ensures tpre(t, k)
  note every stored key is a path of the trie
axiom trie_up(t: trie, a: string, b: string)
  requires tpre(t, a ++ b)
  trigger tpre(t, a ++ b), tpre(t, a)
  ensures tpre(t, a)
  note paths of the trie are closed under prefixes

extern (*bytes.Buffer).Write(b, p) (n, err)
  modifies content(b)
  ensures content(b) == old(content(b)) ++ p && n == len(p) && err == nil
extern (*bytes.Buffer).WriteString(b, s) (n, err)
  modifies content(b)
  ensures content(b) == old(content(b)) ++ s && n == len(s) && err == nil
extern (*bytes.Buffer).WriteByte(b, c) (err)
  modifies content(b)
  ensures content(b) == old(content(b)) ++ unit(c) && err == nil
extern (*bytes.Buffer).Bytes(b) (r)
  ensures r == content(b)
extern (*bytes.Buffer).String(b) (r)
  ensures r == content(b)
extern (*strings.Builder).WriteString(b, s) (n, err)
  modifies content(b)
  ensures content(b) == old(content(b)) ++ s && n == len(s) && err == nil
extern (*strings.Builder).WriteByte(b, c) (err)
  modifies content(b)
  ensures content(b) == old(content(b)) ++ unit(c) && err == nil
extern (*strings.Builder).String(b) (r)
  ensures r == content(b)

extern cedar.New(reduced) (cd)
  fresh
  ensures cd != nil && isfresh(cd) && (forall k: string :: !thas(trie(cd), k))
extern (*cedar.Cedar).Get(cd, key) (val, err)
  ensures (err == nil) == thas(trie(cd), key)
  ensures err == nil ==> val == tval(trie(cd), key)
  ensures err != nil ==> val == 0
extern (*cedar.Cedar).Insert(cd, key, val) (err)
  requires len(key) > 0 && val >= 0
  modifies trie(cd)
  ensures err == nil && trie(cd) == tset(old(trie(cd)), key, val)
extern (*cedar.Cedar).Delete(cd, key) (err)
  requires thas(trie(cd), key)
  modifies trie(cd)
  ensures err == nil && trie(cd) == tdel(old(trie(cd)), key)
extern (*cedar.Cedar).Jump(cd, path, from) (to, err)
  requires tnode(trie(cd), from) && (len(path) > 0 || from == 0)
  ensures (err == nil) == tpre(trie(cd), npath(trie(cd), from) ++ path)
  ensures tnode(trie(cd), to)
  ensures err == nil ==> npath(trie(cd), to) == npath(trie(cd), from) ++ path && (to == 0 <==> len(npath(trie(cd), from) ++ path) == 0)
extern (*cedar.Cedar).Value(cd, path) (val, err)
  requires tnode(trie(cd), path)
  ensures (err == nil) == thas(trie(cd), npath(trie(cd), path))
  ensures err == nil ==> val == tval(trie(cd), npath(trie(cd), path))

def hasWord(d: *gse.Dictionary, k: string) = thas(trie(d.trie), k)
def wordTok(d: *gse.Dictionary, k: string) = d.Tokens[tval(trie(d.trie), k)]
def wordFreq(d: *gse.Dictionary, k: string) = d.Tokens[tval(trie(d.trie), k)].freq
def wordPos(d: *gse.Dictionary, k: string) = d.Tokens[tval(trie(d.trie), k)].pos
def wordText(d: *gse.Dictionary, k: string) = d.Tokens[tval(trie(d.trie), k)].text

def dictOK(d: *gse.Dictionary) = d != nil && d.trie != nil && d.maxTokenLen >= 0 && (forall k: string :: hasWord(d, k) ==> len(k) > 0 && 0 <= tval(trie(d.trie), k) && tval(trie(d.trie), k) < len(d.Tokens) && flat(wordText(d, k)) == k && len(wordText(d, k)) <= d.maxTokenLen)

func gse.textSliceToBytes(text) (r)
  ensures r == flat(text)
  inv phi i: int, val b: *bytes.Buffer :: i <= len(text) && content(b) == flat(text[:i])
  inv phi i: int, val t: []gse.Text, val b: *bytes.Buffer :: i <= len(t) && content(b) == flat(t[:i])

func gse.NewDict() (d)
  prop C11, C12, C14
  ensures dictOK(d) && isfresh(d) && isfresh(d.trie) && len(d.Tokens) == 0 && d.maxTokenLen == 0
  ensures forall k: string :: !hasWord(d, k)

func (*gse.Dictionary).NumTokens(dict) (r)
  prop C12, C23
  ensures r == len(dict.Tokens) && r >= 0
func (*gse.Dictionary).TotalFreq(dict) (r)
  prop C12, C23
  ensures r == dict.totalFreq
func (*gse.Dictionary).MaxTokenLen(dict) (r)
  prop C12, C23
  ensures r == dict.maxTokenLen

func (*gse.Dictionary).AddToken(dict, token) (err)
  prop C11, C12, C14
  uses trie_set
  requires dictOK(dict)
  modifies dict.Tokens, elems(dict.Tokens), dict.totalFreq, dict.maxTokenLen, trie(dict.trie)
  let key = flat(token.text)
  let noop = len(flat(token.text)) == 0 || old(hasWord(dict, flat(token.text)))
  ensures dictOK(dict) && dict.trie == old(dict.trie)
  ensures err == nil
  ensures @has:C11,C14: forall k: string :: hasWord(dict, k) <==> ((k == key && len(key) > 0) || old(hasWord(dict, k)))
  ensures @kept:C11,C14: forall k: string :: old(hasWord(dict, k)) ==> wordFreq(dict, k) == old(wordFreq(dict, k)) && wordPos(dict, k) == old(wordPos(dict, k)) && wordText(dict, k) == old(wordText(dict, k))
  ensures @new:C11,C14: !noop ==> wordFreq(dict, key) == token.freq && wordPos(dict, key) == token.pos && wordText(dict, key) == token.text
  ensures @count:C12,C14: len(dict.Tokens) == old(len(dict.Tokens)) + (if noop then 0 else 1)
  ensures @total:C12,C14: dict.totalFreq == (if noop then old(dict.totalFreq) else fadd(old(dict.totalFreq), token.freq))
  ensures @max:C12: dict.maxTokenLen == (if !noop && len(token.text) > old(dict.maxTokenLen) then len(token.text) else old(dict.maxTokenLen))

func (*gse.Dictionary).RemoveToken(dict, token) (err)
  prop C11, C12
  uses trie_del
  requires dictOK(dict)
  modifies trie(dict.trie)
  let key = flat(token.text)
  ensures dictOK(dict)
  ensures @err:C11: (err == nil) == old(hasWord(dict, flat(token.text)))
  ensures @has:C11: forall k: string :: hasWord(dict, k) <==> (old(hasWord(dict, k)) && k != key)
  ensures @kept:C11: forall k: string :: hasWord(dict, k) ==> wordFreq(dict, k) == old(wordFreq(dict, k)) && wordPos(dict, k) == old(wordPos(dict, k)) && wordText(dict, k) == old(wordText(dict, k))

func (*gse.Dictionary).Find(dict, word) (freq, pos, ok)
  prop C11, C23
  uses trie_root, trie_has, trie_pre
  requires dictOK(dict)
  ensures hasWord(dict, word) ==> ok && freq == wordFreq(dict, word) && pos == wordPos(dict, word)
  ensures !hasWord(dict, word) ==> freq == 0.0 && pos == ""
  ensures len(word) > 0 ==> ok == tpre(trie(dict.trie), word)

func (*gse.Dictionary).Value(dict, word) (val, id, err)
  prop C11, C23
  uses trie_root, trie_has, trie_pre
  requires dictOK(dict)
  ensures (err == nil) == hasWord(dict, word)
