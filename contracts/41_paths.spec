// Dictionary path lists.

fn pathJoin(ws: []string) string
fn contains(s: string, t: string) bool
extern strings.Contains(s, t) (b)
  ensures b == contains(s, t)
extern path.Join(elem) (r)
  ensures r == pathJoin(elem)
fn relClean(s: string) bool = s == "dict/jp/dict.txt" || s == "dict/zh/t_1.txt" || s == "dict/zh/s_1.txt"
axiom join_keeps(a: string, b: string)
  requires relClean(b)
  trigger pathJoin(unit(a) ++ unit(b))
  ensures len(pathJoin(unit(a) ++ unit(b))) >= len(b)
  note joining never shortens a clean relative last element

def in2(dir: string, f: string) = pathJoin(unit(dir) ++ unit(f))
fn builtin(dir: string, it: string) []string =
  if it == "zh" then unit(in2(dir, "dict/zh/t_1.txt")) ++ unit(in2(dir, "dict/zh/s_1.txt")) else
  if it == "zh_s" then unit(in2(dir, "dict/zh/s_1.txt")) else
  if it == "zh_t" then unit(in2(dir, "dict/zh/t_1.txt")) else
  if it == "ja" || it == "jp" then unit(in2(dir, "dict/jp/dict.txt")) else
  if it == "en" || it == "ko" || it == "ti" || it == "" || it == " " then nil else unit(it)
hom expand(dir: string, items: []string) []string = builtin(dir, x)
def itemsOf(s: string) = if contains(s, ", ") then lines(s, ", ") else lines(s, ",")

func gse.DictPaths(dictDir, filePath) (files)
  prop C28
  uses join_keeps
  ensures filePath == "en" ==> len(files) == 0
  ensures filePath != "en" ==> files == expand(dictDir, itemsOf(filePath))
  inv phi i: int, phi f: []string, val a: []string :: i <= len(a) && f == expand(dictDir, a[:i])
