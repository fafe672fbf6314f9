// Splitting a text into words.

fn isNumber(r: int) bool
extern unicode.IsNumber(r) (b)
  ensures b == isNumber(r)
// n is where a character of s starts (or its end)
fn bnd(s: string, n: int) bool
axiom bnd_ends(s: string, n: int)
  requires n == 0 || n == len(s)
  trigger bnd(s, n)
  ensures bnd(s, n)
  note decoding starts at the first byte and ends at the last
axiom bnd_sub(s: string, a: int, b: int, m: int)
  requires bnd(s, a) && bnd(s, b) && 0 <= a && a <= m && m <= b && b <= len(s)
  trigger bnd(s, m), s[a:b]
  ensures bnd(s, m) <==> bnd(s[a:b], m - a)
  note decoding a piece cut at character boundaries finds the same characters
// length of the first character
fn rlen(s: string) int
axiom bnd_next(s: string, a: int, b: int)
  requires bnd(s, a) && 0 <= a && a < b && b == len(s)
  trigger bnd(s, a), rlen(s[a:b])
  ensures bnd(s, a + rlen(s[a:b]))
  note decoding goes on where a character ends
axiom bnd_dec(s: string, n: int)
  requires bnd(s, n) && 0 <= n && n <= len(s)
  trigger bnd(s, n), dec(s)
  ensures dec(s) == dec(s[:n]) ++ dec(s[n:])
  note decoding is left to right
axiom bnd_lower(s: string, n: int)
  trigger bnd(lowerAscii(s), n)
  ensures bnd(lowerAscii(s), n) <==> bnd(s, n)
  note lowercasing ASCII keeps every character's length
axiom dec_some(s: string)
  requires len(s) > 0
  trigger dec(s)
  ensures len(dec(s)) > 0
  note a non-empty string has a first character

extern utf8.DecodeRune(s) (r, n)
  ensures n == rlen(s)
  ensures len(s) == 0 ==> n == 0 && r == 65533
  ensures len(s) > 0 ==> 1 <= n && n <= 4 && n <= len(s) && r == dec(s)[0] && dec(s[:n]) == unit(r) && dec(s) == unit(r) ++ dec(s[n:])
  ensures r != 65533 ==> valid8(s[:n]) && (n <= 2 <==> r < 2048)
  ensures len(s) > 0 && r < 128 ==> n == 1 && s[0] == r
  ensures len(s) > 0 && r >= 128 ==> (forall i: int :: 0 <= i && i < n ==> s[i] >= 128)
  ensures 0 <= r && r < 1114112

axiom ascii_class(r: int)
  trigger isLetter(r), isNumber(r)
  ensures ((65 <= r && r <= 90) || (97 <= r && r <= 122) ==> isLetter(r)) && (65 <= r && r <= 122 ==> !isNumber(r)) && !isLetter(65533) && !isNumber(65533)
  note unicode tables: ASCII letters are letters, are no numbers; U+FFFD is neither
axiom dec_lower(s: string)
  trigger dec(lowerAscii(s))
  trigger lowerAscii(s), dec(s)
  ensures dec(lowerAscii(s)) == lowerAscii(dec(s)) && (valid8(s) <==> valid8(lowerAscii(s)))
  note UTF-8: bytes below 128 are exactly the ASCII characters
axiom dec_cat(a: string, b: string)
  requires valid8(a)
  trigger dec(a ++ b)
  ensures dec(a ++ b) == dec(a) ++ dec(b)
  note UTF-8 is self-synchronising

hom lowerAscii(s: string) string = if 65 <= x && x <= 90 then unit(x + 32) else unit(x)
def norm(low: bool, s: string) = if low then lowerAscii(s) else s
fn an(num: bool, alpha: bool, r: int) bool = r < 2048 && ((isLetter(r) && !alpha) || (isNumber(r) && !num))
hom allAn(num: bool, alpha: bool, rs: string) bool and = an(num, alpha, x)
fn okWord(num: bool, alpha: bool, alnum: bool, w: string) bool = len(dec(w)) == 1 || (!alnum && len(w) > 0 && allAn(num, alpha, dec(w)))
hom okWords(num: bool, alpha: bool, alnum: bool, ws: []gse.Text) bool and = okWord(num, alpha, alnum, x)
fn startsAn(num: bool, alpha: bool, w: string) bool = an(num, alpha, dec(w)[0])

// the words start at character boundaries of the text they spell
opaque cuts(s: string, ws: []gse.Text) bool = forall i: int :: 0 <= i && i <= len(ws) ==> bnd(s, blen(ws[:i]))
fn splitAt(ws: []gse.Text) bool = cuts(flat(ws), ws)
lemma cuts_app(s: string, ws: []gse.Text, w: string)
  requires cuts(s, ws) && bnd(s, blen(ws) + len(w))
  ensures cuts(s, ws ++ unit(w))
  uses =cuts
  trigger cuts(s, ws ++ unit(w))
  check blen(ws ++ unit(w)) == blen(ws) + len(w)
  check forall i: int :: 0 <= i && i <= len(ws) ==> (ws ++ unit(w))[:i] == ws[:i]
  check (ws ++ unit(w))[:len(ws)+1] == ws ++ unit(w)
  check forall i: int :: 0 <= i && i <= len(ws) ==> bnd(s, blen((ws ++ unit(w))[:i]))
lemma cuts_none(s: string, ws: []gse.Text)
  requires len(ws) == 0
  ensures cuts(s, ws)
  trigger cuts(s, ws)
  uses bnd_ends, =cuts
  check forall i: int :: 0 <= i && i <= len(ws) ==> blen(ws[:i]) == 0
lemma cuts_lower(s: string, ws: []gse.Text)
  requires cuts(s, ws)
  ensures cuts(lowerAscii(s), ws)
  trigger cuts(lowerAscii(s), ws)
  uses bnd_lower, =cuts
fn noAdj(num: bool, alpha: bool, ws: []gse.Text) bool = forall k: int, j: int :: 0 <= j && k == j + 1 && k < len(ws) ==> !(startsAn(num, alpha, ws[j]) && startsAn(num, alpha, ws[k]))
// what the splitter makes of a text
fn proper(num: bool, alpha: bool, alnum: bool, ws: []gse.Text) bool = okWords(num, alpha, alnum, ws) && (alnum || noAdj(num, alpha, ws)) && splitAt(ws)

lemma lower_len(s: string)
  ensures len(lowerAscii(s)) == len(s)
  decreases len(s)
  trigger lowerAscii(s)
  check len(s) > 0 ==> len(lowerAscii(s[:len(s)-1])) == len(s) - 1
  check len(s) > 0 ==> lowerAscii(s) == lowerAscii(s[:len(s)-1]) ++ lowerAscii(unit(s[len(s)-1]))
lemma lower_id(s: string)
  requires forall i: int :: 0 <= i && i < len(s) ==> !(65 <= s[i] && s[i] <= 90)
  ensures lowerAscii(s) == s
  decreases len(s)
  trigger lowerAscii(s)
  check len(s) > 0 ==> lowerAscii(s[:len(s)-1]) == s[:len(s)-1]
  check len(s) > 0 ==> lowerAscii(s) == lowerAscii(s[:len(s)-1]) ++ lowerAscii(unit(s[len(s)-1]))
lemma lower_an(num: bool, alpha: bool, s: string)
  requires allAn(num, alpha, s)
  ensures allAn(num, alpha, lowerAscii(s))
  decreases len(s)
  trigger allAn(num, alpha, s), lowerAscii(s)
  uses ascii_class
  check len(s) > 0 ==> allAn(num, alpha, lowerAscii(s[:len(s)-1]))
  check len(s) > 0 ==> lowerAscii(s) == lowerAscii(s[:len(s)-1]) ++ lowerAscii(unit(s[len(s)-1]))
  check len(s) > 0 ==> an(num, alpha, s[len(s)-1])
  check len(s) > 0 ==> isLetter(s[len(s)-1]) || isNumber(s[len(s)-1])

lemma lower_run(num: bool, w: string)
  requires valid8(w) && allAn(num, true, dec(w))
  ensures lowerAscii(w) == w
  trigger allAn(num, true, dec(w)), lowerAscii(w)
  uses ascii_class, dec_lower, lower_id
  check forall i: int :: 0 <= i && i < len(dec(w)) ==> an(num, true, dec(w)[i])
  check lowerAscii(dec(w)) == dec(w)

func gse.toLower(text) (r)
  ensures r == lowerAscii(text)
  inv phi i: int, state o: []byte :: i <= len(text) && len(o) == len(text) && o[:i] == lowerAscii(text[:i])

func (*gse.Segmenter).SplitTextToWords(seg, text) (out)
  prop C22, C01, C23
  uses ascii_class, dec_lower, dec_cat, lower_len, lower_id, lower_an, lower_run, flat_len, bnd_ends, bnd_next, cuts_app, cuts_none, cuts_lower
  let low = global(gse_ToLower) && !seg.Alpha
  ensures flat(out) == norm(low, text)
  ensures okWords(seg.Num, seg.Alpha, seg.AlphaNum, out)
  ensures !seg.AlphaNum ==> noAdj(seg.Num, seg.Alpha, out)
  ensures proper(seg.Num, seg.Alpha, seg.AlphaNum, out)
  inv using none: phi c: int, phi st: int, phi in: bool, phi out: []gse.Text :: c <= len(text) && (in ==> st < c || (c == 0 && st == 0))
  inv using ascii_class, dec_cat: phi c: int, phi st: int, phi in: bool, phi out: []gse.Text :: in && !seg.AlphaNum ==> valid8(text[st:c]) && allAn(seg.Num, seg.Alpha, dec(text[st:c]))
  inv using lower_run, lower_id, ascii_class, dec_lower: phi c: int, phi st: int, phi in: bool, phi out: []gse.Text :: flat(out) == norm(low, text[:(if in && !seg.AlphaNum then st else c)])
  inv phi c: int, phi st: int, phi in: bool, phi out: []gse.Text :: okWords(seg.Num, seg.Alpha, seg.AlphaNum, out)
  inv phi c: int, phi st: int, phi in: bool, phi out: []gse.Text :: !seg.AlphaNum ==> noAdj(seg.Num, seg.Alpha, out)
  inv phi c: int, phi st: int, phi in: bool, phi out: []gse.Text :: !seg.AlphaNum && len(out) > 0 ==> !startsAn(seg.Num, seg.Alpha, out[len(out)-1])
  inv using bnd_ends, bnd_next: phi c: int, phi st: int, phi in: bool, phi out: []gse.Text :: bnd(text, c) && (in ==> bnd(text, st))
  inv using cuts_app, cuts_none, lower_len, bnd_next: phi c: int, phi st: int, phi in: bool, phi out: []gse.Text :: cuts(text, out)
  inv using lower_len: phi c: int, phi st: int, phi in: bool, phi out: []gse.Text :: blen(out) == (if in && !seg.AlphaNum then st else c)
