// Filters over word lists and characters.

fn isSpace(r: int) bool
fn isPunct(r: int) bool
fn isSymbol(r: int) bool
fn isLetter(r: int) bool
fn inTable(t: *unicode.RangeTable, r: int) bool

extern unicode.IsSpace(r) (b)
  ensures b == isSpace(r)
extern unicode.IsPunct(r) (b)
  ensures b == isPunct(r)
extern unicode.IsSymbol(r) (b)
  ensures b == isSymbol(r)
extern unicode.IsLetter(r) (b)
  ensures b == isLetter(r)
extern unicode.Is(t, r) (b)
  ensures b == inTable(t, r)
extern utf8.DecodeRuneInString(s) (r, n)
  ensures len(s) > 0 ==> r == dec(s)[0]
  ensures len(dec(s)) == 1 && valid8(s) ==> n == len(s)

// some character is neither space nor punctuation
hom anyWordChar(s: string) bool or = !isSpace(x) && !isPunct(x)
hom keepNonPunct(ws: []string) []string = if anyWordChar(dec(x)) then unit(x) else nil
def stopped(seg: *gse.Segmenter, w: string) = !seg.NotStop && has(seg.StopWordMap, w)
fn startsWord(s: string) bool = s != "" && !isSpace(dec(s)[0]) && !isPunct(dec(s)[0])
hom keepWordPos(ns: bool, m: map[string]bool, ws: []gse.SegPos) []gse.SegPos = if (!ns && has(m, x.Text)) || !startsWord(x.Text) then nil else unit(x)
hom dropPos(p: string, ws: []gse.SegPos) []gse.SegPos = if x.Pos != p then unit(x) else nil
fold dropAllPos(ws: []gse.SegPos, ps: []string) []gse.SegPos = ws ; dropPos(x, acc)
hom dropStops(m: map[string]bool, ws: []string) []string = if !has(m, x) && x != "" then unit(x) else nil
hom plainChars(s: string) string = if !isSymbol(x) && !isSpace(x) && !isPunct(x) then unit(x) else nil
fn plain(s: string) string = enc(plainChars(dec(s)))
hom cleaned(ns: bool, m: map[string]bool, ws: []string) []string = if plain(x) == "" || (!ns && has(m, plain(x))) then nil else unit(plain(x))
hom cleanedAll(ws: []string) []string = if plain(x) == "" then nil else unit(plain(x))
hom keepPos(ns: bool, m: map[string]bool, ws: []gse.SegPos) []gse.SegPos = if plain(x.Text) == "" || (!ns && has(m, plain(x.Text))) then nil else unit(x)
hom bmpChars(s: string) string = if len(enc(unit(x))) <= 3 then unit(x) else nil
hom langChars(t: *unicode.RangeTable, s: string) string = if isLetter(x) || inTable(t, x) then unit(x) else nil
hom charList(s: string) []string = unit(enc(unit(x)))
hom spacedChars(s: string) string = enc(unit(x)) ++ " "

func gse.notPunct(ru) (r)
  ensures r == anyWordChar(ru)
  inv phi i: int :: i <= len(ru) && !anyWordChar(ru[:i])

func (*gse.Segmenter).TrimPunct(seg, s) (r)
  prop C16, C23
  ensures r == keepNonPunct(s)
  inv phi i: int, phi r: []string :: i <= len(s) && r == keepNonPunct(s[:i])

func (*gse.Segmenter).TrimPosPunct(seg, se) (re)
  prop C16, C23
  ensures re == keepWordPos(seg.NotStop, seg.StopWordMap, se)
  inv phi i: int, phi r: []gse.SegPos :: i <= len(se) && r == keepWordPos(seg.NotStop, seg.StopWordMap, se[:i])

func (*gse.Segmenter).TrimWithPos(seg, se, pos) (re)
  prop C16, C23
  ensures re == dropAllPos(se, pos)
  inv phi h: int, phi t: []gse.SegPos, phi r: []gse.SegPos :: h <= len(pos) && (h == 0 ==> r == nil && t == se) && (h > 0 ==> r == dropAllPos(se, pos[:h]))
  inv phi i: int, phi r: []gse.SegPos, val t: []gse.SegPos, val h: int :: i <= len(t) && r == dropPos(pos[h], t[:i])

func (*gse.Segmenter).Stop(seg, s) (r)
  prop C16, C23
  ensures r == dropStops(seg.StopWordMap, s)
  inv phi i: int, phi r: []string :: i <= len(s) && r == dropStops(seg.StopWordMap, s[:i])

func (*gse.Segmenter).Trim(seg, s) (r)
  prop C16, C23
  ensures r == cleaned(seg.NotStop, seg.StopWordMap, s)
  inv phi i: int, phi r: []string :: i <= len(s) && r == cleaned(seg.NotStop, seg.StopWordMap, s[:i])

func (*gse.Segmenter).TrimSymbol(seg, s) (r)
  prop C16, C23
  ensures r == cleanedAll(s)
  inv phi i: int, phi r: []string :: i <= len(s) && r == cleanedAll(s[:i])

func (*gse.Segmenter).TrimPos(seg, s) (r)
  prop C16, C23
  ensures r == keepPos(seg.NotStop, seg.StopWordMap, s)
  inv phi i: int, phi r: []gse.SegPos :: i <= len(s) && r == keepPos(seg.NotStop, seg.StopWordMap, s[:i])

func (*gse.Segmenter).IsStop(seg, s) (b)
  prop C15, C16
  ensures b == has(seg.StopWordMap, s)

func gse.FilterSymbol(text) (new)
  prop C17, C16
  ensures new == plain(text)
  inv state it: int, phi r: string :: r == enc(plainChars(dec(text)[:it]))

func gse.FilterEmoji(text) (new)
  prop C17
  ensures new == enc(bmpChars(dec(text)))
  inv state it: int, phi r: string :: r == enc(bmpChars(dec(text)[:it]))

func gse.FilterLang(text, lang) (new)
  prop C17
  ensures new == enc(langChars(global(unicode_Scripts)[lang], dec(text)))
  inv state it: int, phi r: string :: r == enc(langChars(global(unicode_Scripts)[lang], dec(text)[:it]))

func gse.Range(text) (new)
  prop C17
  ensures new == charList(dec(text))
  inv state it: int, phi r: []string :: r == charList(dec(text)[:it])

func gse.RangeText(text) (new)
  prop C17
  ensures new == spacedChars(dec(text))
  inv state it: int, phi r: string :: r == spacedChars(dec(text)[:it])
