// Cutting along the route, runs of single characters handed to the model.

extern hmm.loadDefEmit() ()
  modifies map(global(hmm_probEmit))
func hmm.LoadModel(prob) ()
  prop C08
  requires global(hmm_probEmit) != nil
  modifies map(global(hmm_probEmit))
func (*gse.Segmenter).HMMCut(seg, str, reg) (r)
  prop C08, C23
  requires hmmTables() && valid8(str) && okRegs(reg)
  ensures @text:C08: flat(r) == str
  ensures @solid:C08: solid(r)
func (*gse.Segmenter).HMMCutMod(seg, str, prob) (r)
  prop C08
  requires hmmTables() && valid8(str) && global(hmm_probEmit) != nil
  modifies map(global(hmm_probEmit))
  ensures @text:C08: flat(r) == str
  ensures @solid:C08: solid(r)
func (*gse.Segmenter).hmm(seg, bufString, buf, reg) (r)
  prop C04, C05, C23
  requires dictOK(seg.Dict) && hmmTables() && okRegs(reg) && bufString == enc(buf)
  ensures flat(r) == bufString
  inv phi k: int, phi o: []string :: flat(o) == enc(buf[:k])

// kept(W, b, r): r, and b after it, come from the route W by keeping its words
// of two or more characters and putting, for the single characters between
// them, any pieces with the same text: the least relation with these rules.
fn kept(W: [][]rune, b: []rune, r: []string) bool
axiom kept_none(W: [][]rune, b: []rune, r: []string)
  requires len(W) == 0 && len(b) == 0 && len(r) == 0
  trigger kept(W, b, r)
  ensures kept(W, b, r)
  note definition of kept, the least such relation
axiom kept_char(W: [][]rune, b: []rune, r: []string, c: []rune)
  requires kept(W, b, r) && len(c) == 1
  trigger kept(W, b, r), W ++ unit(c), b ++ c
  ensures kept(W ++ unit(c), b ++ c, r)
  note definition of kept, the least such relation
axiom kept_flush(W: [][]rune, b: []rune, r: []string, o: []string, z: []rune)
  requires kept(W, b, r) && flat(o) == enc(b) && len(z) == 0
  trigger kept(W, b, r), kept(W, z, r ++ o)
  trigger kept(W, b, r), r ++ o, len(z)
  ensures kept(W, z, r ++ o)
  note definition of kept, the least such relation
axiom kept_word(W: [][]rune, b: []rune, r: []string, c: []rune)
  requires kept(W, b, r) && len(b) == 0 && len(c) > 1
  trigger kept(W, b, r), W ++ unit(c), r ++ unit(enc(c))
  ensures kept(W ++ unit(c), b, r ++ unit(enc(c)))
  note definition of kept, the least such relation

func (*gse.Segmenter).cutDAG(seg, str, reg) (r)
  prop C04, C05, C23
  ghost R: arr[int,gse.route] = vals(ret("calc"))
  uses walk_start, walk_next, walk_more, walk_end, steps_none, steps_step, steps_cat, kept_none, kept_char, kept_flush, kept_word, =bestTable
  requires dictOK(seg.Dict) && hmmTables() && okRegs(reg)
  ensures @best:C05: bestTable(seg.Dict, chars(str), R)
  ensures @words:C05: kept(W(R, str), emptyof(dec("")), r)
  ensures @text:C04: flat(r) == enc(chars(str))
  inv phi x: int, val m: map[int]gse.route :: 0 <= x && x <= len(chars(str)) && walked(W(vals(m), str), len(W(vals(m), str)) - len(steps(vals(m), chars(str), x)), steps(vals(m), chars(str), x))
  inv phi x: int, phi b: []rune, phi o: []string, val m: map[int]gse.route :: flat(o) ++ enc(b) == enc(cat(doneTo(vals(m), str, x)))
  inv phi x: int, phi b: []rune, phi o: []string, val m: map[int]gse.route :: kept(doneTo(vals(m), str, x), b, o)
