// Sequences of words and plain text helpers.

heap gse.Token; gse.Segment; *gse.Token; *gse.Segment; map[byte]float64

// all words concatenated
hom flat(ws: []gse.Text) string = x
// total byte length
hom blen(ws: []gse.Text) int + = len(x)

func gse.textSliceByteLen(text) (length)
  prop C01, C04
  ensures length == blen(text)
  inv phi i: int, phi n: int :: i <= len(text) && n == blen(text[:i])
  inv phi n: int, phi i: int, val t: []gse.Text :: i <= len(t) && n == blen(t[:i])

lemma flat_len(ws: []gse.Text)
  ensures len(flat(ws)) == blen(ws)
  decreases len(ws)
  trigger flat(ws), blen(ws)
  check len(ws) > 0 ==> len(flat(ws[:len(ws)-1])) == blen(ws[:len(ws)-1])
  check len(ws) > 0 ==> flat(ws) == flat(ws[:len(ws)-1]) ++ ws[len(ws)-1]
  check len(ws) > 0 ==> blen(ws) == blen(ws[:len(ws)-1]) + len(ws[len(ws)-1])

lemma blen_nonneg(ws: []gse.Text)
  ensures blen(ws) >= 0
  decreases len(ws)
  trigger blen(ws)
  check len(ws) > 0 ==> blen(ws[:len(ws)-1]) >= 0
  check len(ws) > 0 ==> blen(ws) == blen(ws[:len(ws)-1]) + len(ws[len(ws)-1])

func gse.Join(text) (r)
  prop C21
  ensures r == flat(text)
  check len(text) == 3 ==> flat(text[:3]) == flat(text[:2]) ++ text[2]
  check len(text) >= 2 ==> flat(text[:2]) == flat(text[:1]) ++ text[1]
  uses flat_len
  inv phi i: int, phi n: int :: i <= len(text) && n == blen(text[:i])
  inv phi i: int, phi n: int, val t: []gse.Text :: i <= len(t) && n == blen(t[:i])
  inv phi i: int, phi n: int, state b: []byte, val t: []gse.Text :: i <= len(t) && n == len(flat(text[:i+1])) && b[:n] == flat(text[:i+1]) && len(b) == len(flat(text))
  inv phi i: int, phi n: int, state b: []byte, val t: []gse.Text :: i <= len(t) && n == len(flat(t[:i])) && b[:n] == flat(t[:i]) && len(b) == len(flat(t))

func gse.textSliceToString(text) (r)
  ensures r == flat(text)

func gse.textToString(text) (r)
  ensures r == flat(text)
  inv phi i: int, phi o: string, val t: []gse.Text :: i <= len(t) && o == flat(t[:i])
