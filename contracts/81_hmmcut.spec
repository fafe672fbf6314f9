// Cutting a text with the model: the pieces are the text again.

opaque solid(ws: []string) bool = forall i: int :: 0 <= i && i < len(ws) ==> len(ws[i]) > 0
lemma solid_none(ws: []string)
  requires len(ws) == 0
  ensures solid(ws)
  trigger solid(ws)
  uses =solid
lemma solid_one(ws: []string, w: string)
  requires solid(ws) && len(w) > 0
  ensures solid(ws ++ unit(w))
  trigger solid(ws ++ unit(w))
  uses =solid
lemma solid_more(ws: []string, vs: []string)
  requires solid(ws) && solid(vs)
  ensures solid(ws ++ vs)
  trigger solid(ws ++ vs)
  uses =solid
axiom valid_sub(s: string, a: int, b: int)
  requires valid8(s) && bnd(s, a) && bnd(s, b) && 0 <= a && a <= b && b <= len(s)
  trigger bnd(s, a), s[a:b]
  trigger bnd(s, b), s[a:b]
  ensures valid8(s[a:b])
  note a piece of valid UTF-8 cut at character boundaries is valid UTF-8
lemma enc_some(r: []rune)
  requires len(r) > 0
  ensures len(enc(r)) > 0
  trigger enc(r)

lemma wf_at(p: []byte, n: int, i: int, j: int)
  requires wf(p, n) && 0 < i && i < n && j == i - 1
  ensures isState(p[i]) && follows(p[j], p[i])
  trigger wf(p, n), p[i], p[j]
  uses =wf
lemma wf_state(p: []byte, n: int, i: int)
  requires wf(p, n) && 0 <= i && i < n
  ensures isState(p[i])
  trigger wf(p, n), p[i]
  uses =wf

func hmm.init@prevStatus() ()
  prop C08, C09
  requires global(hmm_prevStatus) != nil && global(hmm_probStart) != nil && global(hmm_prevStatus) != global(hmm_probStart)
  modifies map(global(hmm_prevStatus)), map(global(hmm_probStart))
  ensures hmmTables()

func hmm.internalCut(text) (r)
  prop C08
  uses enc_some, wf_len, wf_at, wf_state, solid_none, solid_one
  requires hmmTables() && valid8(text) && len(text) > 0
  ensures @text:C08: flat(r) == text
  ensures @solid:C08: solid(r)
  inv phi i: int, phi o: []string, phi next: int, val rs: []rune :: 0 <= next && next <= i && flat(o) == enc(rs[:next]) && solid(o)
  inv phi i: int, phi b: int, phi next: int, val p: []byte :: i > 0 ==> (if final(p[i-1]) then next == i else b == next && next < i)
  inv phi i: int, phi b: int, phi next: int :: i == 0 ==> next == 0 && b == 0

fn rxNonEmpty(re: *regexp.Regexp) bool
extern (*regexp.Regexp).FindStringIndex(re, s) (r)
  ensures len(r) == 0 || len(r) == 2
  ensures len(r) == 2 ==> 0 <= r[0] && r[0] <= r[1] && r[1] <= len(s) && bnd(s, r[0]) && bnd(s, r[1])
  ensures len(r) == 2 && rxNonEmpty(re) ==> r[0] < r[1]

def okRegs(reg: []*regexp.Regexp) = forall i: int :: 0 <= i && i < len(reg) ==> reg[i] != nil && rxNonEmpty(reg[i])
func hmm.Cut(text, reg) (r)
  prop C08
  uses bnd_ends, valid_sub, solid_none, solid_one, solid_more
  requires hmmTables() && valid8(text) && okRegs(reg)
  ensures @text:C08: flat(r) == text
  ensures @solid:C08: solid(r)
  inv phi t: string, phi o: []string :: flat(o) ++ t == text && valid8(t) && solid(o)
