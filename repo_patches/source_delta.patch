From 7809ace24d4f1d280fa01ff677922db4b5359831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:52 +0000
Subject: [PATCH 01/37] fix: removing a string that is only a prefix of words
 no longer deletes those words

---
 dictionary.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dictionary.go b/dictionary.go
index 31a85bb..583477c 100755
--- a/dictionary.go
+++ b/dictionary.go
@@ -73,6 +73,11 @@ func (dict *Dictionary) AddToken(token Token) error {
 // RemoveToken remove token in dictionary
 func (dict *Dictionary) RemoveToken(token Token) error {
 	bytes := textSliceToBytes(token.text)
+	// only a token of the dictionary can be removed: deleting a mere prefix
+	// would destroy the longer tokens below it
+	if _, err := dict.trie.Get(bytes); err != nil {
+		return err
+	}
 
 	return dict.trie.Delete(bytes)
 }
-- 
2.43.0


From 63a363baf0021626220a6eaaa1f4b41e41b0fdba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:57 +0000
Subject: [PATCH 02/37] fix: a path of distance zero is no longer taken for an
 unvisited one

---
 segmenter.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/segmenter.go b/segmenter.go
index 0cd1125..c2dbc5c 100755
--- a/segmenter.go
+++ b/segmenter.go
@@ -184,7 +184,7 @@ func (seg *Segmenter) segmentWords(text []Text, searchMode bool) []Segment {
 
 // updateJumper Update the jump information:
 //  1. When the location has never been visited
-//     (the case where jumper.minDistance is zero), or
+//     (the case where jumper.token is nil), or
 //  2. When the current shortest path at the location
 //     is greater than the new shortest path
 //
@@ -192,7 +192,7 @@ func (seg *Segmenter) segmentWords(text []Text, searchMode bool) []Segment {
 // add the probability of the new split
 func updateJumper(jumper *jumper, baseDistance float32, token *Token) {
 	newDistance := baseDistance + token.distance
-	if jumper.minDistance == 0 || jumper.minDistance > newDistance {
+	if jumper.token == nil || jumper.minDistance > newDistance {
 		jumper.minDistance = newDistance
 		jumper.token = token
 	}
-- 
2.43.0


From 466c22e5492bb6d10210db9523255f287f662611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:42 +0000
Subject: [PATCH 03/37] fix: search mode no longer loses a text that is a
 single word

---
 segmenter.go | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/segmenter.go b/segmenter.go
index c2dbc5c..8e123bc 100755
--- a/segmenter.go
+++ b/segmenter.go
@@ -75,20 +75,19 @@ type jumper struct {
 //
 // []Segment return segments result
 func (seg *Segmenter) Segment(bytes []byte) []Segment {
-	return seg.internalSegment(bytes, false)
+	return seg.internalSegment(bytes)
 }
 
 // ModeSegment segment using search mode if searchMode is true
+//
+// The segments of a text are the same in both modes: the search mode is about
+// the sub-segments that ToSlice, ToString and ToPos expand, and a text that is
+// a single word must not get lost in it.
 func (seg *Segmenter) ModeSegment(bytes []byte, searchMode ...bool) []Segment {
-	var mode bool
-	if len(searchMode) > 0 {
-		mode = searchMode[0]
-	}
-
-	return seg.internalSegment(bytes, mode)
+	return seg.internalSegment(bytes)
 }
 
-func (seg *Segmenter) internalSegment(bytes []byte, searchMode bool) []Segment {
+func (seg *Segmenter) internalSegment(bytes []byte) []Segment {
 	// special cases
 	if len(bytes) == 0 {
 		// return []Segment{}
@@ -98,7 +97,7 @@ func (seg *Segmenter) internalSegment(bytes []byte, searchMode bool) []Segment {
 	// split text to words
 	text := seg.SplitTextToWords(bytes)
 
-	return seg.segmentWords(text, searchMode)
+	return seg.segmentWords(text, false)
 }
 
 func (seg *Segmenter) segmentWords(text []Text, searchMode bool) []Segment {
-- 
2.43.0


From 6faf8907ff5f392a8d2a3ae35e319a5817edef98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:48 +0000
Subject: [PATCH 04/37] fix: TrimWithPos without a part of speech keeps the
 segments instead of dropping all

---
 hmm/pos/pos_seg.go | 4 ++++
 trim.go            | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/hmm/pos/pos_seg.go b/hmm/pos/pos_seg.go
index a3ff13d..460fbc5 100644
--- a/hmm/pos/pos_seg.go
+++ b/hmm/pos/pos_seg.go
@@ -386,6 +386,10 @@ func (seg *Segmenter) Trim(se []gse.SegPos) (re []gse.SegPos) {
 
 // TrimWithPos trim some pos
 func (seg *Segmenter) TrimWithPos(se []gse.SegPos, pos ...string) (re []gse.SegPos) {
+	if len(pos) == 0 {
+		return append(re, se...)
+	}
+
 	for h := 0; h < len(pos); h++ {
 		if h > 0 {
 			se = re
diff --git a/trim.go b/trim.go
index e9958ff..09bc4db 100644
--- a/trim.go
+++ b/trim.go
@@ -68,6 +68,10 @@ func (seg *Segmenter) TrimPosPunct(se []SegPos) (re []SegPos) {
 
 // TrimWithPos trim some seg with pos
 func (seg *Segmenter) TrimWithPos(se []SegPos, pos ...string) (re []SegPos) {
+	if len(pos) == 0 {
+		return append(re, se...)
+	}
+
 	for h := 0; h < len(pos); h++ {
 		if h > 0 {
 			se = re
-- 
2.43.0


From d0a39cd6e5b47a9e8843524e790aea2ef588af63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:53 +0000
Subject: [PATCH 05/37] fix: AddStop on a fresh or emptied stop dictionary no
 longer panics

---
 stop.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stop.go b/stop.go
index 4166f09..43e4811 100644
--- a/stop.go
+++ b/stop.go
@@ -81,6 +81,10 @@ func (seg *Segmenter) LoadStop(files ...string) error {
 
 // AddStop add a token to the StopWord dictionary.
 func (seg *Segmenter) AddStop(text string) {
+	if seg.StopWordMap == nil {
+		seg.StopWordMap = make(map[string]bool)
+	}
+
 	seg.StopWordMap[text] = true
 }
 
-- 
2.43.0


From b5010413eeaff40d8d7925144a760cc383262c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:59 +0000
Subject: [PATCH 06/37] fix: loading a dictionary after Empty no longer panics

---
 dict_util.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dict_util.go b/dict_util.go
index 58bf42c..f6ef026 100644
--- a/dict_util.go
+++ b/dict_util.go
@@ -106,6 +106,7 @@ func (seg *Segmenter) RemoveToken(text string) error {
 // Empty empty the seg dictionary
 func (seg *Segmenter) Empty() error {
 	seg.Dict = nil
+	seg.Load = false
 	return nil
 }
 
-- 
2.43.0


From e7c484a9f686f264d63b34f9ecb8e1640246ce76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:04 +0000
Subject: [PATCH 07/37] fix: LoadDict after LoadDictStr or LoadDictMap keeps
 the words already loaded

---
 dict_1.16.go | 1 +
 dict_util.go | 1 +
 2 files changed, 2 insertions(+)

diff --git a/dict_1.16.go b/dict_1.16.go
index e90fceb..2438917 100644
--- a/dict_1.16.go
+++ b/dict_1.16.go
@@ -91,6 +91,7 @@ func (seg *Segmenter) LoadDictEmbed(dict ...string) (err error) {
 func (seg *Segmenter) LoadDictStr(dict string) error {
 	if seg.Dict == nil {
 		seg.Dict = NewDict()
+		seg.Load = true
 		seg.Init()
 	}
 
diff --git a/dict_util.go b/dict_util.go
index f6ef026..722ca3b 100644
--- a/dict_util.go
+++ b/dict_util.go
@@ -114,6 +114,7 @@ func (seg *Segmenter) Empty() error {
 func (seg *Segmenter) LoadDictMap(dict []map[string]string) error {
 	if seg.Dict == nil {
 		seg.Dict = NewDict()
+		seg.Load = true
 		seg.Init()
 	}
 
-- 
2.43.0


From 399d0cb60560ba0c77373f50167cadee857c01ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:28 +0000
Subject: [PATCH 08/37] fix: a character that only begins words no longer rules
 out every path through it

---
 dag.go             | 7 ++++---
 hmm/pos/pos_seg.go | 3 ++-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/dag.go b/dag.go
index dd15cb9..d4bbcc1 100644
--- a/dag.go
+++ b/dag.go
@@ -178,7 +178,8 @@ func (seg *Segmenter) calc(runes []rune) map[int]route {
 		for _, i := range dag[idx] {
 			freq, _, ok := seg.Find(string(runes[idx : i+1]))
 
-			if ok {
+			// a mere prefix of words is found with the frequency 0
+			if ok && freq > 0 {
 				f := math.Log(freq) - logT + rs[i+1].freq
 				r = route{freq: f, index: i}
 			} else {
@@ -382,7 +383,7 @@ func (seg *Segmenter) SuggestFreq(words ...string) float64 {
 	if len(words) > 1 {
 		for _, word := range words {
 			v, _, ok := seg.Find(word)
-			if ok {
+			if ok && v > 0 {
 				freq *= v
 			}
 
@@ -406,7 +407,7 @@ func (seg *Segmenter) SuggestFreq(words ...string) float64 {
 	word := words[0]
 	for _, segment := range seg.Cut(word, false) {
 		v, _, ok := seg.Find(segment)
-		if ok {
+		if ok && v > 0 {
 			freq *= v
 		}
 
diff --git a/hmm/pos/pos_seg.go b/hmm/pos/pos_seg.go
index 460fbc5..41b0523 100644
--- a/hmm/pos/pos_seg.go
+++ b/hmm/pos/pos_seg.go
@@ -160,7 +160,8 @@ func (seg *Segmenter) calc(runes []rune) map[int]route {
 
 	for idx := n - 1; idx >= 0; idx-- {
 		for _, i := range dag[idx] {
-			if freq, _, ok := seg.dict.Freq(string(runes[idx : i+1])); ok {
+			// a mere prefix of words is found with the frequency 0
+			if freq, _, ok := seg.dict.Freq(string(runes[idx : i+1])); ok && freq > 0.0 {
 				r = route{
 					freq:  math.Log(freq) - seg.dict.logTotal + rs[i+1].freq,
 					index: i}
-- 
2.43.0


From 78e9a7786939f1523a2579d9328d859eb02f6f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:34 +0000
Subject: [PATCH 09/37] fix: the first word of the dictionary no longer loses
 its part of speech

---
 hmm/pos/dict.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hmm/pos/dict.go b/hmm/pos/dict.go
index cde3159..3ef9c89 100644
--- a/hmm/pos/dict.go
+++ b/hmm/pos/dict.go
@@ -51,8 +51,8 @@ func (d *Dict) Freq(key string) (float64, string, bool) {
 
 // Pos find the key return the POS and existence
 func (d *Dict) Pos(key string) (string, bool) {
-	value, _, _ := d.Seg.Value(key)
-	if value == 0 {
+	value, _, err := d.Seg.Value(key)
+	if err != nil {
 		return "", false
 	}
 
-- 
2.43.0


From ba0075378002976a11c0f495f1b1d540ae7b8b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:40 +0000
Subject: [PATCH 10/37] fix: a row without a part of speech no longer takes
 that of an earlier row

---
 dict_util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dict_util.go b/dict_util.go
index 722ca3b..42c98df 100644
--- a/dict_util.go
+++ b/dict_util.go
@@ -370,7 +370,7 @@ func (seg *Segmenter) Reader(reader *bufio.Reader, files ...string) error {
 			continue
 		}
 
-		if size == 2 {
+		if size <= 2 {
 			// No part of speech, marked as an empty string
 			pos = ""
 		}
-- 
2.43.0


From 0aefb13e8ce20686106f9a12699c6437ab8bb34a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:10 +0000
Subject: [PATCH 11/37] fix: rows without frequency keep no newline and blank
 lines add no empty word

---
 dict_util.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dict_util.go b/dict_util.go
index 42c98df..682a61e 100644
--- a/dict_util.go
+++ b/dict_util.go
@@ -259,8 +259,8 @@ func (seg *Segmenter) Read(file string) error {
 
 // Size frequency is calculated based on the size of the text
 func (seg *Segmenter) Size(size int, text, freqText string) (freq float64) {
-	if size == 0 {
-		// End of file or error line
+	if size == 0 || text == "" {
+		// End of file, error line or a line without text
 		// continue
 		return
 	}
@@ -304,7 +304,8 @@ func (seg *Segmenter) ReadN(reader *bufio.Reader) (size int,
 	parts := strings.Split(txt, seg.DictSep+" ")
 	size = len(parts)
 
-	text = parts[0]
+	// the text of a row without further columns ends with the newline
+	text = strings.TrimSpace(parts[0])
 	if size > 1 {
 		freqText = strings.TrimSpace(parts[1])
 	}
-- 
2.43.0


From c70589d1ecced38bd5460c8862e23bb81c502524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:16 +0000
Subject: [PATCH 12/37] fix: a dictionary row whose frequency is not a finite
 number is skipped

---
 dict_util.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dict_util.go b/dict_util.go
index 682a61e..186d9be 100644
--- a/dict_util.go
+++ b/dict_util.go
@@ -277,9 +277,9 @@ func (seg *Segmenter) Size(size int, text, freqText string) (freq float64) {
 	// Analyze the word frequency
 	var err error
 	freq, err = strconv.ParseFloat(freqText, 64)
-	if err != nil {
+	if err != nil || math.IsNaN(freq) || math.IsInf(freq, 0) {
 		// continue
-		return
+		return 0.0
 	}
 
 	// Filter out the words that are too infrequent
-- 
2.43.0


From 18a70b724fce1590e4779469c64500ef57ef2e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:39 +0000
Subject: [PATCH 13/37] fix: FilterHtml also removes self-closing tags and
 single-quoted attributes

---
 trim.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trim.go b/trim.go
index 09bc4db..2119f04 100644
--- a/trim.go
+++ b/trim.go
@@ -241,7 +241,7 @@ func FilterSymbol(text string) (new string) {
 
 // FilterHtml filter the html tag
 func FilterHtml(text string) string {
-	regHtml := regexp.MustCompile(`(?U)\<[^>]*[\w|=|"]+\>`)
+	regHtml := regexp.MustCompile(`(?U)\<[^>]*[\w|=|"|'|/]+\>`)
 	text = regHtml.ReplaceAllString(text, "")
 	return text
 }
-- 
2.43.0


From 3978c437cde1ceeba70829e86f1225ddcdde2a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:40 +0000
Subject: [PATCH 14/37] fix: TextRank no longer depends on the iteration order
 of maps

---
 hmm/idf/textrank.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/hmm/idf/textrank.go b/hmm/idf/textrank.go
index 5fa64a0..1d24b4e 100644
--- a/hmm/idf/textrank.go
+++ b/hmm/idf/textrank.go
@@ -120,7 +120,8 @@ func (u *undirectWeightedGraph) rank() segment.Segments {
 	for _, w := range ws {
 		if w < minRank {
 			minRank = w
-		} else if w > maxRank {
+		}
+		if w > maxRank {
 			maxRank = w
 		}
 	}
@@ -168,8 +169,19 @@ func (t *TextRanker) TextRankWithPOS(text string, topK int, allowPOS []string) s
 		}
 	}
 
-	for startEnd, weight := range cm {
-		g.addEdge(startEnd[0], startEnd[1], weight)
+	// add the edges in a fixed order, the sums of the ranks depend on it
+	keys := make([][2]string, 0, len(cm))
+	for startEnd := range cm {
+		keys = append(keys, startEnd)
+	}
+	sort.Slice(keys, func(i, j int) bool {
+		if keys[i][0] == keys[j][0] {
+			return keys[i][1] < keys[j][1]
+		}
+		return keys[i][0] < keys[j][0]
+	})
+	for _, startEnd := range keys {
+		g.addEdge(startEnd[0], startEnd[1], cm[startEnd])
 	}
 
 	tags := g.rank()
-- 
2.43.0


From a9a9512157dc937e8c25d9d1dcbb4e44db97eec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:45 +0000
Subject: [PATCH 15/37] fix: FindAllOccs no longer loops forever on an empty
 search string

---
 dag.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dag.go b/dag.go
index d4bbcc1..0dc9c46 100644
--- a/dag.go
+++ b/dag.go
@@ -50,6 +50,11 @@ func FindAllOccs(data []byte, searches []string) map[string][]int {
 	results := make(map[string][]int, 0)
 	tmp := data
 	for _, search := range searches {
+		if search == "" {
+			// the empty string occurs everywhere, there is nothing to report
+			continue
+		}
+
 		index := len(data)
 		for {
 			match := bytes.LastIndex(tmp[0:index], []byte(search))
-- 
2.43.0


From 43864c8cd99f8f87e6d83d6e619d5fa5e1213008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:50 +0000
Subject: [PATCH 16/37] fix: TrimPosPunct no longer changes the segments passed
 in

---
 trim.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trim.go b/trim.go
index 2119f04..8ca0742 100644
--- a/trim.go
+++ b/trim.go
@@ -52,7 +52,7 @@ func (seg *Segmenter) TrimPunct(s []string) (r []string) {
 func (seg *Segmenter) TrimPosPunct(se []SegPos) (re []SegPos) {
 	for i := 0; i < len(se); i++ {
 		if !seg.NotStop && seg.IsStop(se[i].Text) {
-			se[i].Text = ""
+			continue
 		}
 
 		if se[i].Text != "" && len(se[i].Text) > 0 {
-- 
2.43.0


From f40010fed99325b47755ea62b423820e1dd36999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:55 +0000
Subject: [PATCH 17/37] fix: FilterLang no longer panics on an unknown script
 name

---
 trim.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trim.go b/trim.go
index 8ca0742..a067dbe 100644
--- a/trim.go
+++ b/trim.go
@@ -248,8 +248,9 @@ func FilterHtml(text string) string {
 
 // FilterLang filter the language
 func FilterLang(text, lang string) (new string) {
+	script, ok := unicode.Scripts[lang]
 	for _, value := range text {
-		if unicode.IsLetter(value) || unicode.Is(unicode.Scripts[lang], value) {
+		if unicode.IsLetter(value) || (ok && unicode.Is(script, value)) {
 			new += string(value)
 		}
 	}
-- 
2.43.0


From 6a47b4939a776f79a022f3e3f07d9f478e364436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:57 +0000
Subject: [PATCH 18/37] fix: HMM cut no longer hangs or panics on expressions
 that match the empty string

---
 hmm/hmm_seg.go | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/hmm/hmm_seg.go b/hmm/hmm_seg.go
index 1d63329..c4db6bc 100644
--- a/hmm/hmm_seg.go
+++ b/hmm/hmm_seg.go
@@ -72,6 +72,22 @@ func internalCut(text string) []string {
 	return result
 }
 
+// findIndex finds the first match of reg that is not empty: an expression
+// that also matches the empty string, like `\d*`, must not stop the cut
+func findIndex(reg *regexp.Regexp, text string) []int {
+	loc := reg.FindStringIndex(text)
+	if loc == nil || loc[0] < loc[1] {
+		return loc
+	}
+
+	for _, loc := range reg.FindAllStringIndex(text, -1) {
+		if loc[0] < loc[1] {
+			return loc
+		}
+	}
+	return nil
+}
+
 // Cut cuts text to words using HMM with Viterbi algorithm
 func Cut(text string, reg ...*regexp.Regexp) []string {
 	result := make([]string, 0, 10)
@@ -85,9 +101,9 @@ func Cut(text string, reg ...*regexp.Regexp) []string {
 	for {
 		// find(text, cuts, cutLoc, nonCutLoc)
 		if len(reg) > 1 {
-			cutLoc = reg[1].FindStringIndex(text)
+			cutLoc = findIndex(reg[1], text)
 		} else {
-			cutLoc = regHan.FindStringIndex(text)
+			cutLoc = findIndex(regHan, text)
 		}
 
 		if cutLoc == nil {
@@ -102,9 +118,9 @@ func Cut(text string, reg ...*regexp.Regexp) []string {
 		}
 
 		if len(reg) > 0 {
-			nonCutLoc = reg[0].FindStringIndex(text)
+			nonCutLoc = findIndex(reg[0], text)
 		} else {
-			nonCutLoc = regSkip.FindStringIndex(text)
+			nonCutLoc = findIndex(regSkip, text)
 		}
 		if nonCutLoc == nil {
 			if len(text) == 0 {
-- 
2.43.0


From a3433317f1ed5544031bdf7da7198d97a4190eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:29 +0000
Subject: [PATCH 19/37] fix: segmentation covers the text also when the
 splitting options changed after loading

---
 segmenter.go | 36 +++++++++++++++++++++++++++++-------
 1 file changed, 29 insertions(+), 7 deletions(-)

diff --git a/segmenter.go b/segmenter.go
index 8e123bc..24f82e1 100755
--- a/segmenter.go
+++ b/segmenter.go
@@ -63,6 +63,8 @@ type Segmenter struct {
 type jumper struct {
 	minDistance float32
 	token       *Token
+	// size is the number of words of the text that the token covers
+	size int
 }
 
 // Segment use the shortest path to segment the text
@@ -136,18 +138,24 @@ func (seg *Segmenter) segmentWords(text []Text, searchMode bool) []Segment {
 
 		// Update the jump information at the end of the split word
 		// for all possible splits
+		firstSize := 0
 		for iToken := 0; iToken < numTokens; iToken++ {
-			location := current + len(tokens[iToken].text) - 1
+			size := coveredWords(tx, tokens[iToken])
+			if iToken == 0 {
+				firstSize = size
+			}
+
+			location := current + size - 1
 			if !searchMode || current != 0 || location != len(text)-1 {
-				updateJumper(&jumpers[location], baseDistance, tokens[iToken])
+				updateJumper(&jumpers[location], baseDistance, tokens[iToken], size)
 			}
 		}
 
 		// Add a pseudo-syllable if there is no corresponding syllable
 		// for the current character
-		if numTokens == 0 || len(tokens[0].text) > 1 {
+		if numTokens == 0 || firstSize > 1 {
 			updateJumper(&jumpers[current], baseDistance,
-				&Token{text: []Text{text[current]}, freq: 1, distance: 32, pos: "x"})
+				&Token{text: []Text{text[current]}, freq: 1, distance: 32, pos: "x"}, 1)
 		}
 	}
 
@@ -155,7 +163,7 @@ func (seg *Segmenter) segmentWords(text []Text, searchMode bool) []Segment {
 	// to get the number of subwords to be added
 	numSeg := 0
 	for index := len(text) - 1; index >= 0; {
-		location := index - len(jumpers[index].token.text) + 1
+		location := index - jumpers[index].size + 1
 		numSeg++
 		index = location - 1
 	}
@@ -164,7 +172,7 @@ func (seg *Segmenter) segmentWords(text []Text, searchMode bool) []Segment {
 	// to add the split to the final result
 	outputSegments := make([]Segment, numSeg)
 	for index := len(text) - 1; index >= 0; {
-		location := index - len(jumpers[index].token.text) + 1
+		location := index - jumpers[index].size + 1
 		numSeg--
 		outputSegments[numSeg].token = jumpers[index].token
 		index = location - 1
@@ -189,12 +197,26 @@ func (seg *Segmenter) segmentWords(text []Text, searchMode bool) []Segment {
 //
 // Update the shortest path value of the current location to baseDistance
 // add the probability of the new split
-func updateJumper(jumper *jumper, baseDistance float32, token *Token) {
+func updateJumper(jumper *jumper, baseDistance float32, token *Token, size int) {
 	newDistance := baseDistance + token.distance
 	if jumper.token == nil || jumper.minDistance > newDistance {
 		jumper.minDistance = newDistance
 		jumper.token = token
+		jumper.size = size
+	}
+}
+
+// coveredWords returns how many of the words make up the token they begin with:
+// more or fewer than the token has itself when they were split with other
+// settings (AlphaNum, Alpha, Num) than the token was
+func coveredWords(words []Text, token *Token) (size int) {
+	rest := textSliceByteLen(token.text)
+	for size < len(words) && rest > 0 {
+		rest -= len(words[size])
+		size++
 	}
+
+	return
 }
 
 // SplitWords splits a string to token words
-- 
2.43.0


From 602ddb0295cb932e998c59266c8f0c4270c589ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:35 +0000
Subject: [PATCH 20/37] fix: loading a dictionary no longer races with HMM cuts
 on other goroutines

---
 hmm/hmm_seg.go | 8 ++++++++
 hmm/viterbi.go | 3 +++
 2 files changed, 11 insertions(+)

diff --git a/hmm/hmm_seg.go b/hmm/hmm_seg.go
index c4db6bc..7da07f7 100644
--- a/hmm/hmm_seg.go
+++ b/hmm/hmm_seg.go
@@ -19,8 +19,13 @@ package hmm
 
 import (
 	"regexp"
+	"sync"
 )
 
+// modelMu guards the model: loading any dictionary loads the model,
+// maybe while other goroutines cut
+var modelMu sync.RWMutex
+
 var (
 	regHan  = regexp.MustCompile(`\p{Han}+`)
 	regSkip = regexp.MustCompile(`(\d+\.\d+|[a-zA-Z0-9]+)`)
@@ -32,6 +37,9 @@ var (
 
 // LoadModel load the HMM model
 func LoadModel(prob ...map[rune]float64) {
+	modelMu.Lock()
+	defer modelMu.Unlock()
+
 	if len(prob) > 3 {
 		probEmit['B'] = prob[0]
 		probEmit['E'] = prob[1]
diff --git a/hmm/viterbi.go b/hmm/viterbi.go
index 7db8d54..f092e20 100644
--- a/hmm/viterbi.go
+++ b/hmm/viterbi.go
@@ -66,6 +66,9 @@ func (ps probStates) Swap(i, j int) {
 
 // Viterbi write viterbi algorithm by go
 func Viterbi(obs []rune, states []byte) (float64, []byte) {
+	modelMu.RLock()
+	defer modelMu.RUnlock()
+
 	path := make(map[byte][]byte)
 	vtb := make([]map[byte]float64, len(obs))
 	vtb[0] = make(map[byte]float64)
-- 
2.43.0


From bb2b17641632b09def593ca5a4b01c51c2364794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:03 +0000
Subject: [PATCH 21/37] fix: the JSON server no longer races between adding
 words and answering

---
 tools/server/server.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/tools/server/server.go b/tools/server/server.go
index 0fde819..7a302c2 100755
--- a/tools/server/server.go
+++ b/tools/server/server.go
@@ -33,6 +33,7 @@ import (
 	"log"
 	"runtime"
 	"strconv"
+	"sync"
 
 	"encoding/json"
 	"net/http"
@@ -42,6 +43,8 @@ import (
 
 var (
 	seg = gse.Segmenter{}
+	// segMu guards seg: requests are served concurrently, and /add changes it
+	segMu sync.RWMutex
 
 	host = flag.String("host", "", "HTTP服务器主机名")
 	port = flag.Int("port", 8080, "HTTP服务器端口")
@@ -83,7 +86,9 @@ func JsonRpcServer(w http.ResponseWriter, req *http.Request) {
 	}
 
 	if *hmm {
+		segMu.RLock()
 		segs := seg.Cut(text, true)
+		segMu.RUnlock()
 		response, _ := json.Marshal(&JsonResp{Seg: segs})
 
 		w.Header().Set("Content-Type", "application/json")
@@ -93,7 +98,9 @@ func JsonRpcServer(w http.ResponseWriter, req *http.Request) {
 	}
 
 	// 分词
+	segMu.RLock()
 	segs := seg.Segment([]byte(text))
+	segMu.RUnlock()
 
 	// 整理为输出格式
 	ss := []*Segment{}
@@ -111,7 +118,9 @@ func addToken(w http.ResponseWriter, req *http.Request) {
 	text := req.URL.Query().Get("text")
 	freq, _ := strconv.ParseFloat(req.URL.Query().Get("freq"), 64)
 	pos := req.URL.Query().Get("pos")
+	segMu.Lock()
 	seg.AddTokenForce(text, freq, pos)
+	segMu.Unlock()
 
 	response, _ := json.Marshal(&Resp{Code: 200, Text: "ok"})
 	w.Header().Set("Content-Type", "application/json")
-- 
2.43.0


From 59efd1a2535c18ef484f44d77727adc549be897d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:00 +0000
Subject: [PATCH 22/37] fix: words with a zero byte no longer corrupt the trie
 and zero bytes match no word

---
 dictionary.go | 36 ++++++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/dictionary.go b/dictionary.go
index 583477c..452de18 100755
--- a/dictionary.go
+++ b/dictionary.go
@@ -14,9 +14,15 @@
 package gse
 
 import (
+	"errors"
+
 	"github.com/vcaesar/cedar"
 )
 
+// errNul a zero byte marks the end of a word in the trie,
+// so it can not be part of one
+var errNul = errors.New("gse: a token can not contain a zero byte")
+
 // Dictionary struct implements a string double array trie.
 // one segment maybe in leaf node or not
 type Dictionary struct {
@@ -50,6 +56,10 @@ func (dict *Dictionary) TotalFreq() float64 {
 // AddToken add a token to the dictionary
 func (dict *Dictionary) AddToken(token Token) error {
 	bytes := textSliceToBytes(token.text)
+	if hasNul(bytes) {
+		return errNul
+	}
+
 	val, err := dict.trie.Get(bytes)
 	if err == nil || val > 0 {
 		return nil
@@ -73,6 +83,10 @@ func (dict *Dictionary) AddToken(token Token) error {
 // RemoveToken remove token in dictionary
 func (dict *Dictionary) RemoveToken(token Token) error {
 	bytes := textSliceToBytes(token.text)
+	if hasNul(bytes) {
+		return errNul
+	}
+
 	// only a token of the dictionary can be removed: deleting a mere prefix
 	// would destroy the longer tokens below it
 	if _, err := dict.trie.Get(bytes); err != nil {
@@ -92,6 +106,10 @@ func (dict *Dictionary) LookupTokens(
 	)
 
 	for _, word := range words {
+		if hasNul(word) {
+			break
+		}
+
 		id, err = dict.trie.Jump(word, id)
 		if err != nil {
 			break
@@ -116,6 +134,10 @@ func (dict *Dictionary) Find(word []byte) (float64, string, bool) {
 		err       error
 	)
 
+	if hasNul(word) {
+		return 0, "", false
+	}
+
 	id, err = dict.trie.Jump(word, id)
 	if err != nil {
 		return 0, "", false
@@ -138,6 +160,10 @@ func (dict *Dictionary) Find(word []byte) (float64, string, bool) {
 // Value find word in the dictionary
 // return the word's value and id
 func (dict *Dictionary) Value(word []byte) (val, id int, err error) {
+	if hasNul(word) {
+		return 0, 0, errNul
+	}
+
 	id, err = dict.trie.Jump(word, id)
 	if err != nil {
 		return 0, id, err
@@ -146,3 +172,13 @@ func (dict *Dictionary) Value(word []byte) (val, id int, err error) {
 	val, err = dict.trie.Value(id)
 	return
 }
+
+func hasNul(word []byte) bool {
+	for _, b := range word {
+		if b == 0 {
+			return true
+		}
+	}
+
+	return false
+}
-- 
2.43.0


From 29f2c3cbb723c66691265d620a97dc962c97053f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:39 +0000
Subject: [PATCH 23/37] fix: adding the empty word no longer destroys the
 dictionary

---
 dictionary.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/dictionary.go b/dictionary.go
index 452de18..17d8600 100755
--- a/dictionary.go
+++ b/dictionary.go
@@ -23,6 +23,9 @@ import (
 // so it can not be part of one
 var errNul = errors.New("gse: a token can not contain a zero byte")
 
+// errEmpty the empty word would take the place of the root of the trie
+var errEmpty = errors.New("gse: a token can not be empty")
+
 // Dictionary struct implements a string double array trie.
 // one segment maybe in leaf node or not
 type Dictionary struct {
@@ -56,6 +59,9 @@ func (dict *Dictionary) TotalFreq() float64 {
 // AddToken add a token to the dictionary
 func (dict *Dictionary) AddToken(token Token) error {
 	bytes := textSliceToBytes(token.text)
+	if len(bytes) == 0 {
+		return errEmpty
+	}
 	if hasNul(bytes) {
 		return errNul
 	}
@@ -83,6 +89,9 @@ func (dict *Dictionary) AddToken(token Token) error {
 // RemoveToken remove token in dictionary
 func (dict *Dictionary) RemoveToken(token Token) error {
 	bytes := textSliceToBytes(token.text)
+	if len(bytes) == 0 {
+		return errEmpty
+	}
 	if hasNul(bytes) {
 		return errNul
 	}
-- 
2.43.0


From dd3a6b0aafdfe642858f9cdd7e7cfa574064a8f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:37 +0000
Subject: [PATCH 24/37] fix: the last row of a dictionary file no longer needs
 a part of speech or a newline to be read

---
 dict_util.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dict_util.go b/dict_util.go
index 186d9be..1c37d66 100644
--- a/dict_util.go
+++ b/dict_util.go
@@ -345,8 +345,9 @@ func (seg *Segmenter) Reader(reader *bufio.Reader, files ...string) error {
 
 		if fsErr != nil {
 			if fsErr == io.EOF {
-				// End of file
-				if seg.DictSep == "" {
+				// End of file, a last row without a newline and
+				// with less than three columns ends with it too
+				if seg.DictSep == "" && size == 0 {
 					break
 				}
 
-- 
2.43.0


From a1ded7dabcf80ab40eb9e6ef4f229556c30e3b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:24 +0000
Subject: [PATCH 25/37] fix: stop words of one keyword extractor no longer leak
 into all others

---
 hmm/idf/stop_words.go    | 10 ++++++++--
 hmm/idf/tag_extracker.go | 13 ++++++++++---
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/hmm/idf/stop_words.go b/hmm/idf/stop_words.go
index 202dd90..a37c742 100644
--- a/hmm/idf/stop_words.go
+++ b/hmm/idf/stop_words.go
@@ -59,7 +59,10 @@ func (s *StopWord) RemoveStop(text string) {
 // NewStopWord create a new StopWord with the default stop words.
 func NewStopWord() *StopWord {
 	s := new(StopWord)
-	s.stopWordMap = StopWordMap
+	s.stopWordMap = make(map[string]bool, len(StopWordMap))
+	for k, v := range StopWordMap {
+		s.stopWordMap[k] = v
+	}
 	return s
 }
 
@@ -76,8 +79,11 @@ func (s *StopWord) LoadDict(files ...string) error {
 		return err
 	}
 
+	if s.stopWordMap == nil {
+		s.stopWordMap = make(map[string]bool)
+	}
 	for k, v := range s.seg.StopWordMap {
-		StopWordMap[k] = v
+		s.stopWordMap[k] = v
 	}
 
 	return nil
diff --git a/hmm/idf/tag_extracker.go b/hmm/idf/tag_extracker.go
index 4603b74..3322783 100644
--- a/hmm/idf/tag_extracker.go
+++ b/hmm/idf/tag_extracker.go
@@ -17,15 +17,22 @@ type TagExtracter struct {
 	stopWord *StopWord
 }
 
+// initStopWord gives the extracter its own stop words, unless it has them
+func (t *TagExtracter) initStopWord() {
+	if t.stopWord == nil {
+		t.stopWord = NewStopWord()
+	}
+}
+
 // WithGse register the gse segmenter
 func (t *TagExtracter) WithGse(segs gse.Segmenter) {
-	t.stopWord = NewStopWord()
+	t.initStopWord()
 	t.seg = segs
 }
 
 // LoadDict load and create a new dictionary from the file
 func (t *TagExtracter) LoadDict(fileName ...string) error {
-	t.stopWord = NewStopWord()
+	t.initStopWord()
 	return t.seg.LoadDict(fileName...)
 }
 
@@ -43,7 +50,7 @@ func (t *TagExtracter) LoadIdfStr(str string) error {
 
 // LoadStopWords load and create a new StopWord dictionary from the file.
 func (t *TagExtracter) LoadStopWords(fileName ...string) error {
-	t.stopWord = NewStopWord()
+	t.initStopWord()
 	return t.stopWord.LoadDict(fileName...)
 }
 
-- 
2.43.0


From a3b52458522f7febd90188fd9568e607734a938e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:25 +0000
Subject: [PATCH 26/37] fix: a keyword that only begins IDF words gets the
 fallback weight

---
 hmm/idf/tag_extracker.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hmm/idf/tag_extracker.go b/hmm/idf/tag_extracker.go
index 3322783..6bfb66c 100644
--- a/hmm/idf/tag_extracker.go
+++ b/hmm/idf/tag_extracker.go
@@ -86,7 +86,8 @@ func (t *TagExtracter) ExtractTags(text string, topK int) (tags segment.Segments
 	ws := make(segment.Segments, 0)
 	var s segment.Segment
 	for k, v := range freqMap {
-		if freq, _, ok := t.Idf.Freq(k); ok {
+		// a mere prefix of words is found with the weight 0
+		if freq, _, ok := t.Idf.Freq(k); ok && freq > 0.0 {
 			s = segment.Segment{Text: k, Weight: freq * v}
 		} else {
 			s = segment.Segment{Text: k, Weight: t.Idf.median * v}
-- 
2.43.0


From fc8d0b84b57bf1cc04a60ece43275386a17c2347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:11 +0000
Subject: [PATCH 27/37] fix: a failing reader or an over-long line no longer
 hangs or silently ends the loading of a file

LoadDict of a directory, or of any reader that fails, looped for ever; LoadStop
ended a stop file at a read error or at a line of 64 KiB without telling.
---
 dict_util.go | 28 +++++++++++++++++++++++++++-
 stop.go      |  8 ++++++++
 2 files changed, 35 insertions(+), 1 deletion(-)

diff --git a/dict_util.go b/dict_util.go
index 1c37d66..459b9c8 100644
--- a/dict_util.go
+++ b/dict_util.go
@@ -316,6 +316,21 @@ func (seg *Segmenter) ReadN(reader *bufio.Reader) (size int,
 	return
 }
 
+// rowReader notes the errors of its reader, to tell them from those of a row
+type rowReader struct {
+	*bufio.Reader
+	err error
+}
+
+// ReadRune reads a single rune
+func (r *rowReader) ReadRune() (c rune, size int, err error) {
+	c, size, err = r.Reader.ReadRune()
+	if err != nil && err != io.EOF {
+		r.err = err
+	}
+	return
+}
+
 // Reader load dictionary from io.Reader
 func (seg *Segmenter) Reader(reader *bufio.Reader, files ...string) error {
 	var (
@@ -330,6 +345,7 @@ func (seg *Segmenter) Reader(reader *bufio.Reader, files ...string) error {
 	}
 
 	// Read the word segmentation line by line
+	rows := &rowReader{Reader: reader}
 	line := 0
 	for {
 		line++
@@ -338,9 +354,19 @@ func (seg *Segmenter) Reader(reader *bufio.Reader, files ...string) error {
 			fsErr error
 		)
 		if seg.DictSep == "" {
-			size, fsErr = fmt.Fscanln(reader, &text, &freqText, &pos)
+			size, fsErr = fmt.Fscanln(rows, &text, &freqText, &pos)
 		} else {
 			size, text, freqText, pos, fsErr = seg.ReadN(reader)
+			if fsErr != io.EOF {
+				rows.err = fsErr
+			}
+		}
+
+		if rows.err != nil {
+			// in contrast to a malformed row, this would go on for ever
+			log.Printf("File '%v' line \"%v\" read error: %v",
+				file, line, rows.err)
+			return rows.err
 		}
 
 		if fsErr != nil {
diff --git a/stop.go b/stop.go
index 43e4811..8c94990 100644
--- a/stop.go
+++ b/stop.go
@@ -17,6 +17,7 @@ package gse
 import (
 	"bufio"
 	"log"
+	"math"
 	"os"
 	"path"
 	"strings"
@@ -68,12 +69,19 @@ func (seg *Segmenter) LoadStop(files ...string) error {
 		defer file.Close()
 
 		scanner := bufio.NewScanner(file)
+		// the lines may have any length
+		scanner.Buffer(nil, math.MaxInt32)
 		for scanner.Scan() {
 			text := scanner.Text()
 			if text != "" {
 				seg.StopWordMap[text] = true
 			}
 		}
+
+		if err := scanner.Err(); err != nil {
+			log.Printf("Could not load dictionaries: \"%s\", %v \n", name[i], err)
+			return err
+		}
 	}
 
 	return nil
-- 
2.43.0


From 249b0fef6bbeaba594b6a5e5eae4b33eca21bd3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:20 +0000
Subject: [PATCH 28/37] fix: the fallback weight of keywords is the median of
 the loaded IDF dictionary, and a new Idf is usable at once

---
 hmm/idf/idf.go           | 25 ++++++++++++++++++++-----
 hmm/idf/tag_extracker.go |  4 +++-
 2 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/hmm/idf/idf.go b/hmm/idf/idf.go
index 65e1f42..acc5c92 100644
--- a/hmm/idf/idf.go
+++ b/hmm/idf/idf.go
@@ -32,11 +32,21 @@ type Idf struct {
 // AddToken add a new word with IDF into the dictionary.
 func (i *Idf) AddToken(text string, freq float64, pos ...string) error {
 	err := i.seg.AddToken(text, freq, pos...)
+	i.calcMedian()
+	return err
+}
 
-	i.freqs = append(i.freqs, freq)
+// calcMedian calculate the median of the IDFs of all words in the dictionary
+func (i *Idf) calcMedian() {
+	// words are only ever added
+	for _, token := range i.seg.Dict.Tokens[len(i.freqs):] {
+		i.freqs = append(i.freqs, token.Freq())
+	}
 	sort.Float64s(i.freqs)
-	i.median = i.freqs[len(i.freqs)/2]
-	return err
+
+	if len(i.freqs) > 0 {
+		i.median = i.freqs[len(i.freqs)/2]
+	}
 }
 
 // LoadDict load the idf dictionary
@@ -45,7 +55,9 @@ func (i *Idf) LoadDict(files ...string) error {
 		files = i.seg.GetIdfPath(files...)
 	}
 
-	return i.seg.LoadDict(files...)
+	err := i.seg.LoadDict(files...)
+	i.calcMedian()
+	return err
 }
 
 // Freq return the IDF of the word
@@ -65,5 +77,8 @@ func (i *Idf) TotalFreq() float64 {
 
 // NewIdf create a new Idf
 func NewIdf() *Idf {
-	return &Idf{freqs: make([]float64, 0)}
+	i := &Idf{freqs: make([]float64, 0)}
+	// start with an empty dictionary
+	i.seg.LoadDictMap(nil)
+	return i
 }
diff --git a/hmm/idf/tag_extracker.go b/hmm/idf/tag_extracker.go
index 6bfb66c..44b4652 100644
--- a/hmm/idf/tag_extracker.go
+++ b/hmm/idf/tag_extracker.go
@@ -45,7 +45,9 @@ func (t *TagExtracter) LoadIdf(fileName ...string) error {
 // LoadIdfStr load and create a new Idf dictionary from the string.
 func (t *TagExtracter) LoadIdfStr(str string) error {
 	t.Idf = NewIdf()
-	return t.Idf.seg.LoadDictStr(str)
+	err := t.Idf.seg.LoadDictStr(str)
+	t.Idf.calcMedian()
+	return err
 }
 
 // LoadStopWords load and create a new StopWord dictionary from the file.
-- 
2.43.0


From ae057303d978f56b80cd62993a48876050511989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:04 +0000
Subject: [PATCH 29/37] fix: load the words of an IDF dictionary whose weight
 is below two

NewIdf kept the loader's default of leaving out words with a frequency
below 2. An IDF is the logarithm of a ratio, and that of a common word
is smaller: such a word was dropped and weighed as if it was unknown.
---
 hmm/idf/idf.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hmm/idf/idf.go b/hmm/idf/idf.go
index acc5c92..d9212c1 100644
--- a/hmm/idf/idf.go
+++ b/hmm/idf/idf.go
@@ -15,6 +15,7 @@
 package idf
 
 import (
+	"math"
 	"sort"
 
 	"github.com/go-ego/gse"
@@ -78,6 +79,8 @@ func (i *Idf) TotalFreq() float64 {
 // NewIdf create a new Idf
 func NewIdf() *Idf {
 	i := &Idf{freqs: make([]float64, 0)}
+	// the IDF of a common word is small, it is no rare word to be left out
+	i.seg.MinTokenFreq = math.SmallestNonzeroFloat64
 	// start with an empty dictionary
 	i.seg.LoadDictMap(nil)
 	return i
-- 
2.43.0


From a7ee6e7e1336d626c5384f43fed2a8d4126efabe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:45 +0000
Subject: [PATCH 30/37] fix: loading keyword stop words no longer brings back
 words that were removed

---
 hmm/idf/stop_words.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hmm/idf/stop_words.go b/hmm/idf/stop_words.go
index a37c742..03de159 100644
--- a/hmm/idf/stop_words.go
+++ b/hmm/idf/stop_words.go
@@ -74,6 +74,8 @@ func (s *StopWord) IsStopWord(word string) bool {
 
 // LoadDict load the idf stop dictionary
 func (s *StopWord) LoadDict(files ...string) error {
+	// only the words of these files, none of an earlier load
+	s.seg.StopWordMap = nil
 	err := s.seg.LoadStop(files...)
 	if err != nil {
 		return err
-- 
2.43.0


From 9476b12e199f241b1708fb443c253c547f52f3d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:30 +0000
Subject: [PATCH 31/37] fix: SuggestFreq on an empty dictionary suggests a
 number

---
 dag.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dag.go b/dag.go
index 0dc9c46..395adb4 100644
--- a/dag.go
+++ b/dag.go
@@ -384,6 +384,10 @@ func (seg *Segmenter) cutForSearch(str string, hmm ...bool) []string {
 func (seg *Segmenter) SuggestFreq(words ...string) float64 {
 	freq := 1.0
 	total := seg.Dict.totalFreq
+	if total == 0 {
+		// an empty dictionary, there is nothing to take shares of
+		total = 1.0
+	}
 
 	if len(words) > 1 {
 		for _, word := range words {
-- 
2.43.0


From d65ab34aef53ee9f7752c66f4b77c433d4114023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:41 +0000
Subject: [PATCH 32/37] fix: LoadDict calculates the weights of the words it
 read before an error

---
 dict_util.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dict_util.go b/dict_util.go
index 459b9c8..579526d 100644
--- a/dict_util.go
+++ b/dict_util.go
@@ -161,6 +161,8 @@ func (seg *Segmenter) LoadDict(files ...string) error {
 		dictPath string
 		// load     bool
 	)
+	// also after an error: the words read before it stay in the dictionary
+	defer seg.CalcToken()
 
 	if len(files) > 0 {
 		dictFiles := DictPaths(dictDir, files[0])
@@ -210,7 +212,6 @@ func (seg *Segmenter) LoadDict(files ...string) error {
 	// 	}
 	// }
 
-	seg.CalcToken()
 	if !seg.SkipLog {
 		log.Println("Gse dictionary loaded finished.")
 	}
-- 
2.43.0


From e73d883f58945127bf91f18e83a7902de7e57b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:23 +0000
Subject: [PATCH 33/37] fix: FindAllOccs lists the occurrences of a string
 given twice once

---
 dag.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dag.go b/dag.go
index 395adb4..93b1907 100644
--- a/dag.go
+++ b/dag.go
@@ -54,6 +54,10 @@ func FindAllOccs(data []byte, searches []string) map[string][]int {
 			// the empty string occurs everywhere, there is nothing to report
 			continue
 		}
+		if _, ok := results[search]; ok {
+			// searched for already
+			continue
+		}
 
 		index := len(data)
 		for {
-- 
2.43.0


From 80ad10bbf976e0f2e23bb58f2a74f9f98151e0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:25 +0000
Subject: [PATCH 34/37] fix: long texts are segmented at least cost, path
 values are summed in double precision

---
 dict_util.go | 4 ++--
 segmenter.go | 6 +++---
 token.go     | 2 +-
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/dict_util.go b/dict_util.go
index 579526d..7825a5d 100644
--- a/dict_util.go
+++ b/dict_util.go
@@ -485,10 +485,10 @@ func IsJp(segText string) bool {
 func (seg *Segmenter) CalcToken() {
 	// Calculate the path value of each word segment.
 	// For the meaning of the path value, see the notes of the Token structure
-	logTotalFreq := float32(math.Log2(seg.Dict.totalFreq))
+	logTotalFreq := math.Log2(seg.Dict.totalFreq)
 	for i := range seg.Dict.Tokens {
 		token := &seg.Dict.Tokens[i]
-		token.distance = logTotalFreq - float32(math.Log2(token.freq))
+		token.distance = logTotalFreq - math.Log2(token.freq)
 	}
 
 	// Each word segmentation is carefully divided for search engine mode,
diff --git a/segmenter.go b/segmenter.go
index 24f82e1..c837bc8 100755
--- a/segmenter.go
+++ b/segmenter.go
@@ -61,7 +61,7 @@ type Segmenter struct {
 // jumper this structure is used to record information
 // about the forward leap at a word in the Viterbi algorithm
 type jumper struct {
-	minDistance float32
+	minDistance float64
 	token       *Token
 	// size is the number of words of the text that the token covers
 	size int
@@ -123,7 +123,7 @@ func (seg *Segmenter) segmentWords(text []Text, searchMode bool) []Segment {
 	for current := 0; current < len(text); current++ {
 		// find the shortest path of the previous token,
 		// to calculate the subsequent path values
-		var baseDistance float32
+		var baseDistance float64
 		if current == 0 {
 			// When this character is at the beginning of the text,
 			// the base distance should be zero
@@ -197,7 +197,7 @@ func (seg *Segmenter) segmentWords(text []Text, searchMode bool) []Segment {
 //
 // Update the shortest path value of the current location to baseDistance
 // add the probability of the new split
-func updateJumper(jumper *jumper, baseDistance float32, token *Token, size int) {
+func updateJumper(jumper *jumper, baseDistance float64, token *Token, size int) {
 	newDistance := baseDistance + token.distance
 	if jumper.token == nil || jumper.minDistance > newDistance {
 		jumper.minDistance = newDistance
diff --git a/token.go b/token.go
index 5df6ed5..fbe16f8 100755
--- a/token.go
+++ b/token.go
@@ -82,7 +82,7 @@ type Token struct {
 	// Solving for the maximum of prod(p(segment)) is equivalent to solving for the minimum of
 	// the minimum of sum(distance(segment)),
 	// which is where "shortest path" comes from.
-	distance float32
+	distance float64
 
 	// For further segmentation of this segmented text,
 	// see the Segments function comment.
-- 
2.43.0


From 45c80c66754bce0f2f641bddbd98349634dbacca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:30 +0000
Subject: [PATCH 35/37] fix: Analyze does not panic on a piece that is given
 more often than it occurs

---
 dag.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dag.go b/dag.go
index 93b1907..6b3580f 100644
--- a/dag.go
+++ b/dag.go
@@ -111,8 +111,10 @@ func (seg *Segmenter) Analyze(text []string, t1 string, by ...bool) (az []Analyz
 				isEx[v] = 0
 			}
 
-			if len(all[v]) > 0 {
-				start = all[v][isEx[v]]
+			if occs := all[v]; len(occs) > 0 {
+				// a piece can be given more often than it occurs without
+				// overlaps, "aa" in "aaa"
+				start = occs[minInt(isEx[v], len(occs)-1)]
 			}
 			end = start + len([]byte(v))
 		}
-- 
2.43.0


From 8c06b5d53028aa33817b4d629001e438480d6f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:24 +0000
Subject: [PATCH 36/37] fix: the columns after the third one of a dictionary
 row are not read as a row of their own

---
 dict_util.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/dict_util.go b/dict_util.go
index 7825a5d..c4ce621 100644
--- a/dict_util.go
+++ b/dict_util.go
@@ -320,7 +320,8 @@ func (seg *Segmenter) ReadN(reader *bufio.Reader) (size int,
 // rowReader notes the errors of its reader, to tell them from those of a row
 type rowReader struct {
 	*bufio.Reader
-	err error
+	last rune
+	err  error
 }
 
 // ReadRune reads a single rune
@@ -329,9 +330,21 @@ func (r *rowReader) ReadRune() (c rune, size int, err error) {
 	if err != nil && err != io.EOF {
 		r.err = err
 	}
+	r.last = c
 	return
 }
 
+// skipRow skips what is left of the row that was read last
+func (r *rowReader) skipRow() {
+	if r.last == '\n' {
+		return
+	}
+
+	if _, err := r.ReadString('\n'); err != nil && err != io.EOF {
+		r.err = err
+	}
+}
+
 // Reader load dictionary from io.Reader
 func (seg *Segmenter) Reader(reader *bufio.Reader, files ...string) error {
 	var (
@@ -356,6 +369,10 @@ func (seg *Segmenter) Reader(reader *bufio.Reader, files ...string) error {
 		)
 		if seg.DictSep == "" {
 			size, fsErr = fmt.Fscanln(rows, &text, &freqText, &pos)
+			if fsErr != nil && fsErr != io.EOF && rows.err == nil {
+				// columns after the third one are no row of their own
+				rows.skipRow()
+			}
 		} else {
 			size, text, freqText, pos, fsErr = seg.ReadN(reader)
 			if fsErr != io.EOF {
-- 
2.43.0


From 5ace9654422f11a825e0e5233172afde7f11f100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:29 +0000
Subject: [PATCH 37/37] fix: LoadDictStr reads rows with several blanks or tabs
 between the columns, as LoadDict does

---
 dict_1.16.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dict_1.16.go b/dict_1.16.go
index 2438917..22bc8c0 100644
--- a/dict_1.16.go
+++ b/dict_1.16.go
@@ -98,6 +98,10 @@ func (seg *Segmenter) LoadDictStr(dict string) error {
 	arr := strings.Split(dict, "\n")
 	for i := 0; i < len(arr); i++ {
 		s1 := strings.Split(arr[i], seg.DictSep+" ")
+		if seg.DictSep == "" {
+			// any blanks, as in the rows of a file
+			s1 = strings.Fields(arr[i])
+		}
 		size := len(s1)
 		if size == 0 {
 			continue
-- 
2.43.0

