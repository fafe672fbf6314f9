From b4fc31854b80c2250b7f265566d4b2db832e6928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:04 +0000
Subject: [PATCH 01/14] fix: do not treat a zero distance as an unvisited
 jumper

---
 segmenter.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/segmenter.go b/segmenter.go
index 0cd1125..c2dbc5c 100755
--- a/segmenter.go
+++ b/segmenter.go
@@ -184,7 +184,7 @@ func (seg *Segmenter) segmentWords(text []Text, searchMode bool) []Segment {
 
 // updateJumper Update the jump information:
 //  1. When the location has never been visited
-//     (the case where jumper.minDistance is zero), or
+//     (the case where jumper.token is nil), or
 //  2. When the current shortest path at the location
 //     is greater than the new shortest path
 //
@@ -192,7 +192,7 @@ func (seg *Segmenter) segmentWords(text []Text, searchMode bool) []Segment {
 // add the probability of the new split
 func updateJumper(jumper *jumper, baseDistance float32, token *Token) {
 	newDistance := baseDistance + token.distance
-	if jumper.minDistance == 0 || jumper.minDistance > newDistance {
+	if jumper.token == nil || jumper.minDistance > newDistance {
 		jumper.minDistance = newDistance
 		jumper.token = token
 	}
-- 
2.43.0


From b66f3a80ee31f3cf218094ce07e26e70d5e3f224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:04 +0000
Subject: [PATCH 02/14] fix: AddStop on a segmenter without a stop word map

---
 stop.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stop.go b/stop.go
index 4166f09..43e4811 100644
--- a/stop.go
+++ b/stop.go
@@ -81,6 +81,10 @@ func (seg *Segmenter) LoadStop(files ...string) error {
 
 // AddStop add a token to the StopWord dictionary.
 func (seg *Segmenter) AddStop(text string) {
+	if seg.StopWordMap == nil {
+		seg.StopWordMap = make(map[string]bool)
+	}
+
 	seg.StopWordMap[text] = true
 }
 
-- 
2.43.0


From 5f86929eb30d53b23bc47a6f8c5efc640e6eb428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:04 +0000
Subject: [PATCH 03/14] fix: keep the part of speech of the first dictionary
 token

---
 hmm/pos/dict.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hmm/pos/dict.go b/hmm/pos/dict.go
index cde3159..3ef9c89 100644
--- a/hmm/pos/dict.go
+++ b/hmm/pos/dict.go
@@ -51,8 +51,8 @@ func (d *Dict) Freq(key string) (float64, string, bool) {
 
 // Pos find the key return the POS and existence
 func (d *Dict) Pos(key string) (string, bool) {
-	value, _, _ := d.Seg.Value(key)
-	if value == 0 {
+	value, _, err := d.Seg.Value(key)
+	if err != nil {
 		return "", false
 	}
 
-- 
2.43.0


From fb345c956c0944dd5624c8e8fb933eba1c6622e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:04 +0000
Subject: [PATCH 04/14] fix: TrimWithPos without pos removes nothing

---
 hmm/pos/pos_seg.go | 4 ++++
 trim.go            | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/hmm/pos/pos_seg.go b/hmm/pos/pos_seg.go
index a3ff13d..e99ef31 100644
--- a/hmm/pos/pos_seg.go
+++ b/hmm/pos/pos_seg.go
@@ -386,6 +386,10 @@ func (seg *Segmenter) Trim(se []gse.SegPos) (re []gse.SegPos) {
 
 // TrimWithPos trim some pos
 func (seg *Segmenter) TrimWithPos(se []gse.SegPos, pos ...string) (re []gse.SegPos) {
+	if len(pos) == 0 {
+		return se
+	}
+
 	for h := 0; h < len(pos); h++ {
 		if h > 0 {
 			se = re
diff --git a/trim.go b/trim.go
index e9958ff..ac905fe 100644
--- a/trim.go
+++ b/trim.go
@@ -68,6 +68,10 @@ func (seg *Segmenter) TrimPosPunct(se []SegPos) (re []SegPos) {
 
 // TrimWithPos trim some seg with pos
 func (seg *Segmenter) TrimWithPos(se []SegPos, pos ...string) (re []SegPos) {
+	if len(pos) == 0 {
+		return se
+	}
+
 	for h := 0; h < len(pos); h++ {
 		if h > 0 {
 			se = re
-- 
2.43.0


From ebb7cfd818377cb6c15faf3e850ba1a278a40b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:04 +0000
Subject: [PATCH 05/14] fix: TrimPosPunct does not modify its argument

---
 trim.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trim.go b/trim.go
index ac905fe..4fb06fa 100644
--- a/trim.go
+++ b/trim.go
@@ -52,7 +52,7 @@ func (seg *Segmenter) TrimPunct(s []string) (r []string) {
 func (seg *Segmenter) TrimPosPunct(se []SegPos) (re []SegPos) {
 	for i := 0; i < len(se); i++ {
 		if !seg.NotStop && seg.IsStop(se[i].Text) {
-			se[i].Text = ""
+			continue
 		}
 
 		if se[i].Text != "" && len(se[i].Text) > 0 {
-- 
2.43.0


From 5deda50d89161fb7123cad045ee09c4f8cb876ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:04 +0000
Subject: [PATCH 06/14] fix: TextRank finds the maximum rank in any iteration
 order

---
 hmm/idf/textrank.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hmm/idf/textrank.go b/hmm/idf/textrank.go
index 5fa64a0..46f5de9 100644
--- a/hmm/idf/textrank.go
+++ b/hmm/idf/textrank.go
@@ -120,7 +120,8 @@ func (u *undirectWeightedGraph) rank() segment.Segments {
 	for _, w := range ws {
 		if w < minRank {
 			minRank = w
-		} else if w > maxRank {
+		}
+		if w > maxRank {
 			maxRank = w
 		}
 	}
-- 
2.43.0


From b539fee4052c63d59a21aeebc05e4e35a3e35740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:04 +0000
Subject: [PATCH 07/14] fix: DictPaths does not repeat a path for the next item

---
 dict_util.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dict_util.go b/dict_util.go
index 58bf42c..a2e0f19 100644
--- a/dict_util.go
+++ b/dict_util.go
@@ -384,8 +384,6 @@ func (seg *Segmenter) Reader(reader *bufio.Reader, files ...string) error {
 
 // DictPaths get the dict's paths
 func DictPaths(dictDir, filePath string) (files []string) {
-	var dictPath string
-
 	if filePath == "en" {
 		return
 	}
@@ -398,6 +396,8 @@ func DictPaths(dictDir, filePath string) (files []string) {
 	}
 
 	for i := 0; i < len(fileName); i++ {
+		var dictPath string
+
 		if fileName[i] == "ja" || fileName[i] == "jp" {
 			dictPath = path.Join(dictDir, "dict/jp/dict.txt")
 		}
-- 
2.43.0


From bddc532411ff9aa68cc114132e1f29cbc228c623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:04 +0000
Subject: [PATCH 08/14] fix: a bare dictionary prefix counts as frequency 1 in
 the route

---
 dag.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dag.go b/dag.go
index dd15cb9..4be65ab 100644
--- a/dag.go
+++ b/dag.go
@@ -178,7 +178,7 @@ func (seg *Segmenter) calc(runes []rune) map[int]route {
 		for _, i := range dag[idx] {
 			freq, _, ok := seg.Find(string(runes[idx : i+1]))
 
-			if ok {
+			if ok && freq > 0 {
 				f := math.Log(freq) - logT + rs[i+1].freq
 				r = route{freq: f, index: i}
 			} else {
-- 
2.43.0


From 3491d369785cea2894ae37ab4e4ee49302f31fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:04 +0000
Subject: [PATCH 09/14] fix: removing a bare prefix does not remove the words
 below it

---
 dictionary.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dictionary.go b/dictionary.go
index 31a85bb..ae43caa 100755
--- a/dictionary.go
+++ b/dictionary.go
@@ -73,6 +73,9 @@ func (dict *Dictionary) AddToken(token Token) error {
 // RemoveToken remove token in dictionary
 func (dict *Dictionary) RemoveToken(token Token) error {
 	bytes := textSliceToBytes(token.text)
+	if _, err := dict.trie.Get(bytes); err != nil {
+		return err
+	}
 
 	return dict.trie.Delete(bytes)
 }
-- 
2.43.0


From 51e0a63bcfca4c03bdf78a64ea846df1346c369c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:04 +0000
Subject: [PATCH 10/14] fix: search mode keeps a text of a single word

---
 segmenter.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/segmenter.go b/segmenter.go
index c2dbc5c..b757fa4 100755
--- a/segmenter.go
+++ b/segmenter.go
@@ -97,6 +97,10 @@ func (seg *Segmenter) internalSegment(bytes []byte, searchMode bool) []Segment {
 
 	// split text to words
 	text := seg.SplitTextToWords(bytes)
+	if len(text) == 1 {
+		// a single word has no sub-division to search for
+		searchMode = false
+	}
 
 	return seg.segmentWords(text, searchMode)
 }
-- 
2.43.0


From e1d4148c9913c6b728bfb058a8d88e79bda7639d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:04 +0000
Subject: [PATCH 11/14] fix: FindAllOccs terminates on an empty search string

---
 dag.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dag.go b/dag.go
index 4be65ab..b3f4a23 100644
--- a/dag.go
+++ b/dag.go
@@ -50,6 +50,10 @@ func FindAllOccs(data []byte, searches []string) map[string][]int {
 	results := make(map[string][]int, 0)
 	tmp := data
 	for _, search := range searches {
+		if search == "" {
+			continue
+		}
+
 		index := len(data)
 		for {
 			match := bytes.LastIndex(tmp[0:index], []byte(search))
-- 
2.43.0


From 1657568a35a01e1aad50cde47a7a038f4b308021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:42 +0000
Subject: [PATCH 12/14] fix: ignore dictionary entries whose frequency is out
 of range
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

Size returned strconv.ParseFloat's value on error, which is ±Inf for a
frequency out of range ("1e999"), so such an entry was loaded with an
infinite frequency.
---
 dict_util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dict_util.go b/dict_util.go
index a2e0f19..19f2068 100644
--- a/dict_util.go
+++ b/dict_util.go
@@ -277,7 +277,7 @@ func (seg *Segmenter) Size(size int, text, freqText string) (freq float64) {
 	freq, err = strconv.ParseFloat(freqText, 64)
 	if err != nil {
 		// continue
-		return
+		return 0.0
 	}
 
 	// Filter out the words that are too infrequent
-- 
2.43.0


From f636cf25b753f3e7fe4639de45286bb9e709d030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:32 +0000
Subject: [PATCH 13/14] fix: adding the empty word does not wipe out the
 dictionary

---
 dictionary.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dictionary.go b/dictionary.go
index ae43caa..41483bc 100755
--- a/dictionary.go
+++ b/dictionary.go
@@ -50,6 +50,11 @@ func (dict *Dictionary) TotalFreq() float64 {
 // AddToken add a token to the dictionary
 func (dict *Dictionary) AddToken(token Token) error {
 	bytes := textSliceToBytes(token.text)
+	if len(bytes) == 0 {
+		// an empty key would overwrite the root of the trie
+		return nil
+	}
+
 	val, err := dict.trie.Get(bytes)
 	if err == nil || val > 0 {
 		return nil
-- 
2.43.0


From b4344e3c1264f3949adfb4e19368c8892ac8d123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:09 +0000
Subject: [PATCH 14/14] fix: a bare prefix of IDF words counts as an unknown
 word

---
 hmm/idf/idf.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hmm/idf/idf.go b/hmm/idf/idf.go
index 65e1f42..68c5cef 100644
--- a/hmm/idf/idf.go
+++ b/hmm/idf/idf.go
@@ -50,6 +50,11 @@ func (i *Idf) LoadDict(files ...string) error {
 
 // Freq return the IDF of the word
 func (i *Idf) Freq(key string) (float64, string, bool) {
+	if _, _, err := i.seg.Value(key); err != nil {
+		// not a word, or only a prefix of longer words
+		return 0, "", false
+	}
+
 	return i.seg.Find(key)
 }
 
-- 
2.43.0

