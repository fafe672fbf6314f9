// Joining, token comparison, stop words, admission of dictionary lines.

hom eachSep(sep: string, ws: []string) string = x ++ sep
fn posItem(skip: bool, p: gse.SegPos) string = if skip then p.Text else p.Text ++ "/" ++ p.Pos
hom eachSepPos(skip: bool, sep: string, ws: []gse.SegPos) string = posItem(skip, x) ++ sep
def sepOf(s: []string) = if len(s) > 0 then s[0] else " "

func (*gse.Segmenter).CutStr(seg, str, separator) (r)
  prop C18, C23
  ensures len(str) == 0 ==> r == ""
  ensures len(str) > 0 ==> r == eachSep(sepOf(separator), str[:len(str)-1]) ++ str[len(str)-1]
  inv phi i: int, phi o: string :: i <= len(str) && (i < len(str) ==> o == eachSep(sepOf(separator), str[:i])) && (i == len(str) && i > 0 ==> o == eachSep(sepOf(separator), str[:i-1]) ++ str[i-1]) && (i == 0 ==> o == "")

func (*gse.Segmenter).PosStr(seg, str, separator) (r)
  prop C18, C23
  ensures len(str) == 0 ==> r == ""
  ensures len(str) > 0 ==> r == eachSepPos(seg.SkipPos, sepOf(separator), str[:len(str)-1]) ++ posItem(seg.SkipPos, str[len(str)-1])
  inv phi i: int, phi o: string :: i <= len(str) && (i < len(str) ==> o == eachSepPos(seg.SkipPos, sepOf(separator), str[:i])) && (i == len(str) && i > 0 ==> o == eachSepPos(seg.SkipPos, sepOf(separator), str[:i-1]) ++ posItem(seg.SkipPos, str[i-1])) && (i == 0 ==> o == "")

func (*gse.Token).Text(token) (r)
  prop C21, C23
  ensures r == flat(token.text)

func (*gse.Token).Equals(token, str) (r)
  prop C21, C23
  uses flat_len, blen_nonneg
  ensures r == (flat(token.text) == str)
  inv phi i: int, phi n: int :: i <= len(token.text) && n == blen(token.text[:i])
  inv phi i: int, phi n: int :: i <= len(token.text) && n == blen(token.text[:i]) && str[:n] == flat(token.text[:i])
  inv val i: int :: flat(token.text) == flat(token.text[:i]) ++ token.text[i] ++ flat(token.text[i+1:])
  inv val i: int :: blen(token.text) == blen(token.text[:i]) + len(token.text[i]) + blen(token.text[i+1:])
  inv phi j: int, phi n: int, val i: int :: j <= len(token.text[i]) && n == blen(token.text[:i]) + j && str[:n] == flat(token.text[:i]) ++ token.text[i][:j]

// stop words
def isStop(seg: *gse.Segmenter, w: string) = has(seg.StopWordMap, w)
hom member(w: string, ws: []string) bool or = x == w

func (*gse.Segmenter).AddStop(seg, text) ()
  prop C15
  modifies seg.StopWordMap, map(seg.StopWordMap)
  ensures forall w: string :: isStop(seg, w) <==> (w == text || old(isStop(seg, w)))
  ensures old(seg.StopWordMap) != nil ==> seg.StopWordMap == old(seg.StopWordMap)
  ensures old(seg.StopWordMap) == nil ==> isfresh(seg.StopWordMap)

func (*gse.Segmenter).LoadStopArr(seg, dict) ()
  prop C15
  modifies seg.StopWordMap, map(seg.StopWordMap)
  ensures forall w: string :: isStop(seg, w) <==> (member(w, dict) || old(isStop(seg, w)))
  ensures old(seg.StopWordMap) != nil ==> seg.StopWordMap == old(seg.StopWordMap)
  ensures old(seg.StopWordMap) == nil ==> isfresh(seg.StopWordMap)
  inv phi i: int :: i <= len(dict) && (forall w: string :: isStop(seg, w) <==> (member(w, dict[:i]) || old(isStop(seg, w))))

func (*gse.Segmenter).AddStopArr(seg, text) ()
  prop C15
  modifies seg.StopWordMap, map(seg.StopWordMap)
  ensures forall w: string :: isStop(seg, w) <==> (member(w, text) || old(isStop(seg, w)))

func (*gse.Segmenter).RemoveStop(seg, text) ()
  prop C15
  modifies map(seg.StopWordMap)
  ensures forall w: string :: isStop(seg, w) <==> (w != text && old(isStop(seg, w)))

func (*gse.Segmenter).EmptyStop(seg) (err)
  prop C15
  modifies seg.StopWordMap
  ensures err == nil && (forall w: string :: !isStop(seg, w))

fn lines(s: string, sep: string) []string
fn trimmed(s: string) string
extern strings.Split(s, sep) (r)
  ensures r == lines(s, sep)
  ensures sep != "" ==> len(r) > 0
extern strings.TrimSpace(s) (r)
  ensures r == trimmed(s)
hom trimmedMember(w: string, ws: []string) bool or = trimmed(x) == w && w != ""

func (*gse.Segmenter).LoadStopStr(seg, dict) (err)
  prop C15
  modifies seg.StopWordMap, map(seg.StopWordMap)
  ensures err == nil
  ensures forall w: string :: isStop(seg, w) <==> (trimmedMember(w, lines(dict, "\n")) || old(isStop(seg, w)))
  inv phi i: int, val a: []string :: i <= len(a) && (forall w: string :: isStop(seg, w) <==> (trimmedMember(w, a[:i]) || old(isStop(seg, w))))

// admission of dictionary lines
fn parses(s: string) bool
fn parsed(s: string) real
extern strconv.ParseFloat(s, bits) (f, err)
  ensures (err == nil) <==> parses(s)
  ensures err == nil ==> f == parsed(s)

fn lineFreq(noFreq: bool, deflt: string, min: real, size: int, text: string, ft: string) real =
  if size == 0 || (size < 2 && !noFreq) then 0.0 else let f = (if size < 2 then deflt else ft) in
  if !parses(f) || parsed(f) < min then 0.0 else
  if len(dec(text)) < 2 then 2.0 else parsed(f)

func (*gse.Segmenter).Size(seg, size, text, freqText) (freq)
  prop C13, C14, C23
  ensures freq == lineFreq(seg.LoadNoFreq, seg.TextFreq, seg.MinTokenFreq, size, text, freqText)
