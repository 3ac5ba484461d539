From 7f85e40d35f1aee7218308e0641405f0792272b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:28 +0000
Subject: [PATCH 01/33] fix: a zero path length does not mean that a position
 was never reached

A word holding the whole frequency of the dictionary has path length 0,
so every later (longer) path overwrote it and the word was never found.
---
 segmenter.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/segmenter.go b/segmenter.go
index 0cd1125..c2dbc5c 100755
--- a/segmenter.go
+++ b/segmenter.go
@@ -184,7 +184,7 @@ func (seg *Segmenter) segmentWords(text []Text, searchMode bool) []Segment {
 
 // updateJumper Update the jump information:
 //  1. When the location has never been visited
-//     (the case where jumper.minDistance is zero), or
+//     (the case where jumper.token is nil), or
 //  2. When the current shortest path at the location
 //     is greater than the new shortest path
 //
@@ -192,7 +192,7 @@ func (seg *Segmenter) segmentWords(text []Text, searchMode bool) []Segment {
 // add the probability of the new split
 func updateJumper(jumper *jumper, baseDistance float32, token *Token) {
 	newDistance := baseDistance + token.distance
-	if jumper.minDistance == 0 || jumper.minDistance > newDistance {
+	if jumper.token == nil || jumper.minDistance > newDistance {
 		jumper.minDistance = newDistance
 		jumper.token = token
 	}
-- 
2.43.0


From e0aa3f3fc02bde17a1aeb701c42e02bf1ce85dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:52 +0000
Subject: [PATCH 02/33] fix: search mode must not lose the words that span the
 whole text

segmentWords excludes the whole text when it divides a dictionary word
into sub-words; ModeSegment and with it Slice, String, Pos and CutSearch
passed that exclusion on for the user's text, so a text of one word gave
nothing and a word spanning the whole text was dropped.
---
 segmenter.go | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/segmenter.go b/segmenter.go
index c2dbc5c..1de3937 100755
--- a/segmenter.go
+++ b/segmenter.go
@@ -75,20 +75,19 @@ type jumper struct {
 //
 // []Segment return segments result
 func (seg *Segmenter) Segment(bytes []byte) []Segment {
-	return seg.internalSegment(bytes, false)
+	return seg.internalSegment(bytes)
 }
 
 // ModeSegment segment using search mode if searchMode is true
+//
+// The segments of a text are the same in both modes: the sub-words that
+// the search mode adds are those of the segments (see Token.Segments),
+// which ToSlice, ToString and ToPos output when searchMode is true.
 func (seg *Segmenter) ModeSegment(bytes []byte, searchMode ...bool) []Segment {
-	var mode bool
-	if len(searchMode) > 0 {
-		mode = searchMode[0]
-	}
-
-	return seg.internalSegment(bytes, mode)
+	return seg.internalSegment(bytes)
 }
 
-func (seg *Segmenter) internalSegment(bytes []byte, searchMode bool) []Segment {
+func (seg *Segmenter) internalSegment(bytes []byte) []Segment {
 	// special cases
 	if len(bytes) == 0 {
 		// return []Segment{}
@@ -98,7 +97,7 @@ func (seg *Segmenter) internalSegment(bytes []byte, searchMode bool) []Segment {
 	// split text to words
 	text := seg.SplitTextToWords(bytes)
 
-	return seg.segmentWords(text, searchMode)
+	return seg.segmentWords(text, false)
 }
 
 func (seg *Segmenter) segmentWords(text []Text, searchMode bool) []Segment {
-- 
2.43.0


From 50275b4cd3a1e9fbc51c73e019cd398975e333d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:34 +0000
Subject: [PATCH 03/33] fix: do not take the length of a match in the text from
 the dictionary

The number of units a word has in the dictionary is not the number it
spans in the text when AlphaNum, Alpha or Num was changed after the word
was added: segmentWords then indexed past the end of the text, or put the
word at the wrong place.
---
 segmenter.go | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/segmenter.go b/segmenter.go
index 1de3937..2ccb50e 100755
--- a/segmenter.go
+++ b/segmenter.go
@@ -63,6 +63,9 @@ type Segmenter struct {
 type jumper struct {
 	minDistance float32
 	token       *Token
+	// the number of units of the text that the token spans, which can differ
+	// from that of the token when the options changed after it was added
+	numUnits int
 }
 
 // Segment use the shortest path to segment the text
@@ -136,18 +139,28 @@ func (seg *Segmenter) segmentWords(text []Text, searchMode bool) []Segment {
 
 		// Update the jump information at the end of the split word
 		// for all possible splits
+		location, byteLen, hasUnit := current-1, 0, false
 		for iToken := 0; iToken < numTokens; iToken++ {
-			location := current + len(tokens[iToken].text) - 1
+			tokenLen := textSliceByteLen(tokens[iToken].text)
+			for byteLen < tokenLen {
+				location++
+				byteLen += len(text[location])
+			}
+
+			if location == current {
+				hasUnit = true
+			}
 			if !searchMode || current != 0 || location != len(text)-1 {
-				updateJumper(&jumpers[location], baseDistance, tokens[iToken])
+				updateJumper(&jumpers[location], baseDistance,
+					tokens[iToken], location-current+1)
 			}
 		}
 
 		// Add a pseudo-syllable if there is no corresponding syllable
 		// for the current character
-		if numTokens == 0 || len(tokens[0].text) > 1 {
+		if !hasUnit {
 			updateJumper(&jumpers[current], baseDistance,
-				&Token{text: []Text{text[current]}, freq: 1, distance: 32, pos: "x"})
+				&Token{text: []Text{text[current]}, freq: 1, distance: 32, pos: "x"}, 1)
 		}
 	}
 
@@ -155,7 +168,7 @@ func (seg *Segmenter) segmentWords(text []Text, searchMode bool) []Segment {
 	// to get the number of subwords to be added
 	numSeg := 0
 	for index := len(text) - 1; index >= 0; {
-		location := index - len(jumpers[index].token.text) + 1
+		location := index - jumpers[index].numUnits + 1
 		numSeg++
 		index = location - 1
 	}
@@ -164,7 +177,7 @@ func (seg *Segmenter) segmentWords(text []Text, searchMode bool) []Segment {
 	// to add the split to the final result
 	outputSegments := make([]Segment, numSeg)
 	for index := len(text) - 1; index >= 0; {
-		location := index - len(jumpers[index].token.text) + 1
+		location := index - jumpers[index].numUnits + 1
 		numSeg--
 		outputSegments[numSeg].token = jumpers[index].token
 		index = location - 1
@@ -189,11 +202,12 @@ func (seg *Segmenter) segmentWords(text []Text, searchMode bool) []Segment {
 //
 // Update the shortest path value of the current location to baseDistance
 // add the probability of the new split
-func updateJumper(jumper *jumper, baseDistance float32, token *Token) {
+func updateJumper(jumper *jumper, baseDistance float32, token *Token, numUnits int) {
 	newDistance := baseDistance + token.distance
 	if jumper.token == nil || jumper.minDistance > newDistance {
 		jumper.minDistance = newDistance
 		jumper.token = token
+		jumper.numUnits = numUnits
 	}
 }
 
-- 
2.43.0


From 8ab6ad3d1b4fbd2e9a5beb3b5756995258afedcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:15 +0000
Subject: [PATCH 04/33] fix: removing a string that is not a word must not
 destroy other words

Cedar deletes the node the key leads to whether or not it holds a value:
RemoveToken (and ReAddToken) of a proper prefix of dictionary words took
those words out of the trie. Report an absent word as an error instead.
---
 dictionary.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dictionary.go b/dictionary.go
index 31a85bb..6124ee4 100755
--- a/dictionary.go
+++ b/dictionary.go
@@ -73,6 +73,10 @@ func (dict *Dictionary) AddToken(token Token) error {
 // RemoveToken remove token in dictionary
 func (dict *Dictionary) RemoveToken(token Token) error {
 	bytes := textSliceToBytes(token.text)
+	// Deleting a key that is only the prefix of words would cut them off
+	if _, err := dict.trie.Get(bytes); err != nil {
+		return err
+	}
 
 	return dict.trie.Delete(bytes)
 }
-- 
2.43.0


From e693daf6ca2dfd8a425dbb272ca4e651e2822f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:41 +0000
Subject: [PATCH 05/33] fix: removed words no longer count in the dictionary's
 size and total frequency

RemoveToken and ReAddToken left the word count and the total frequency,
and with it every word's probability, as they were before.
---
 dictionary.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/dictionary.go b/dictionary.go
index 6124ee4..c0e065c 100755
--- a/dictionary.go
+++ b/dictionary.go
@@ -25,6 +25,7 @@ type Dictionary struct {
 	maxTokenLen int     // the maximum length of the dictionary
 	Tokens      []Token // the all tokens in the dictionary, to traverse
 	totalFreq   float64 // the total number of tokens in the dictionary
+	numRemoved  int     // the number of Tokens that were removed from the dictionary
 }
 
 // NewDict a new dictionary trie
@@ -39,7 +40,7 @@ func (dict *Dictionary) MaxTokenLen() int {
 
 // NumTokens the number of tokens in the dictionary
 func (dict *Dictionary) NumTokens() int {
-	return len(dict.Tokens)
+	return len(dict.Tokens) - dict.numRemoved
 }
 
 // TotalFreq the total frequency of the dictionary
@@ -55,7 +56,7 @@ func (dict *Dictionary) AddToken(token Token) error {
 		return nil
 	}
 
-	err = dict.trie.Insert(bytes, dict.NumTokens())
+	err = dict.trie.Insert(bytes, len(dict.Tokens))
 	if err != nil {
 		return err
 	}
@@ -74,11 +75,19 @@ func (dict *Dictionary) AddToken(token Token) error {
 func (dict *Dictionary) RemoveToken(token Token) error {
 	bytes := textSliceToBytes(token.text)
 	// Deleting a key that is only the prefix of words would cut them off
-	if _, err := dict.trie.Get(bytes); err != nil {
+	value, err := dict.trie.Get(bytes)
+	if err != nil {
+		return err
+	}
+
+	err = dict.trie.Delete(bytes)
+	if err != nil {
 		return err
 	}
 
-	return dict.trie.Delete(bytes)
+	dict.numRemoved++
+	dict.totalFreq -= dict.Tokens[value].freq
+	return nil
 }
 
 // LookupTokens finds tokens and words in the dictionary, matching the given pattern
-- 
2.43.0


From 7031d28478b693fb00f58f400f39c7f9df0047dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:51 +0000
Subject: [PATCH 06/33] fix: do not add an empty word to the dictionary

AddToken("") or a blank line read with LoadNoFreq stored a value in the
root of the trie; a text with a NUL byte then made Segment panic.
---
 dictionary.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dictionary.go b/dictionary.go
index c0e065c..7d914d2 100755
--- a/dictionary.go
+++ b/dictionary.go
@@ -51,6 +51,11 @@ func (dict *Dictionary) TotalFreq() float64 {
 // AddToken add a token to the dictionary
 func (dict *Dictionary) AddToken(token Token) error {
 	bytes := textSliceToBytes(token.text)
+	if len(bytes) == 0 {
+		// An empty word would match before any text
+		return nil
+	}
+
 	val, err := dict.trie.Get(bytes)
 	if err == nil || val > 0 {
 		return nil
-- 
2.43.0


From 38d40c59739c08a0526e878ae5f6e7214067c02d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:49 +0000
Subject: [PATCH 07/33] fix: LoadDict works after Empty and keeps what other
 loaders loaded

Empty left the Load flag set, so the next LoadDict used the nil
dictionary and panicked; LoadDictStr and LoadDictMap did not set it, so
the next LoadDict threw away the words they had loaded.
---
 dict_1.16.go |  3 +--
 dict_util.go | 17 +++++++++++------
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/dict_1.16.go b/dict_1.16.go
index e90fceb..1e1f2b8 100644
--- a/dict_1.16.go
+++ b/dict_1.16.go
@@ -90,8 +90,7 @@ func (seg *Segmenter) LoadDictEmbed(dict ...string) (err error) {
 // LoadDictStr load the dictionary from dict path
 func (seg *Segmenter) LoadDictStr(dict string) error {
 	if seg.Dict == nil {
-		seg.Dict = NewDict()
-		seg.Init()
+		seg.initDict()
 	}
 
 	arr := strings.Split(dict, "\n")
diff --git a/dict_util.go b/dict_util.go
index 58bf42c..bcf2f81 100644
--- a/dict_util.go
+++ b/dict_util.go
@@ -54,6 +54,13 @@ func (seg *Segmenter) Init() {
 	}
 }
 
+// initDict starts a new, empty dictionary
+func (seg *Segmenter) initDict() {
+	seg.Dict = NewDict()
+	seg.Load = true
+	seg.Init()
+}
+
 // Dictionary returns the dictionary used by the tokenizer
 func (seg *Segmenter) Dictionary() *Dictionary {
 	return seg.Dict
@@ -106,14 +113,14 @@ func (seg *Segmenter) RemoveToken(text string) error {
 // Empty empty the seg dictionary
 func (seg *Segmenter) Empty() error {
 	seg.Dict = nil
+	seg.Load = false
 	return nil
 }
 
 // LoadDictMap load dictionary from []map[string]string
 func (seg *Segmenter) LoadDictMap(dict []map[string]string) error {
 	if seg.Dict == nil {
-		seg.Dict = NewDict()
-		seg.Init()
+		seg.initDict()
 	}
 
 	for _, d := range dict {
@@ -148,10 +155,8 @@ func (seg *Segmenter) LoadDictMap(dict []map[string]string) error {
 // When a participle appears both in the user dictionary and
 // in the `common dictionary`, the `user dictionary` is given priority.
 func (seg *Segmenter) LoadDict(files ...string) error {
-	if !seg.Load {
-		seg.Dict = NewDict()
-		seg.Load = true
-		seg.Init()
+	if !seg.Load || seg.Dict == nil {
+		seg.initDict()
 	}
 
 	var (
-- 
2.43.0


From 1887ce16cec9cd00b32efa287b92f591a3aac090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:00 +0000
Subject: [PATCH 08/33] fix: a segmenter without a dictionary finds no words
 instead of crashing

Find, Value, Cut with hmm, CutAll, SuggestFreq and the edits panicked on
a new or emptied segmenter. AddToken and Reader start a dictionary as the
loaders do.
---
 dag.go        |  4 ++--
 dict_util.go  | 12 ++++++++++++
 dictionary.go | 28 ++++++++++++++++++++++++++++
 3 files changed, 42 insertions(+), 2 deletions(-)

diff --git a/dag.go b/dag.go
index dd15cb9..f3c1254 100644
--- a/dag.go
+++ b/dag.go
@@ -173,7 +173,7 @@ func (seg *Segmenter) calc(runes []rune) map[int]route {
 	rs[n] = route{freq: 0.0, index: 0}
 	var r route
 
-	logT := math.Log(seg.Dict.totalFreq)
+	logT := math.Log(seg.Dict.TotalFreq())
 	for idx := n - 1; idx >= 0; idx-- {
 		for _, i := range dag[idx] {
 			freq, _, ok := seg.Find(string(runes[idx : i+1]))
@@ -377,7 +377,7 @@ func (seg *Segmenter) cutForSearch(str string, hmm ...bool) []string {
 // return a suggested frequency of a word cutted to short words.
 func (seg *Segmenter) SuggestFreq(words ...string) float64 {
 	freq := 1.0
-	total := seg.Dict.totalFreq
+	total := seg.Dict.TotalFreq()
 
 	if len(words) > 1 {
 		for _, word := range words {
diff --git a/dict_util.go b/dict_util.go
index bcf2f81..1e824e8 100644
--- a/dict_util.go
+++ b/dict_util.go
@@ -80,6 +80,10 @@ func (seg *Segmenter) ToToken(text string, freq float64, pos ...string) Token {
 
 // AddToken add a new text to the token
 func (seg *Segmenter) AddToken(text string, freq float64, pos ...string) error {
+	if seg.Dict == nil {
+		seg.initDict()
+	}
+
 	token := seg.ToToken(text, freq, pos...)
 	return seg.Dict.AddToken(token)
 }
@@ -331,6 +335,10 @@ func (seg *Segmenter) Reader(reader *bufio.Reader, files ...string) error {
 		file = files[0]
 	}
 
+	if seg.Dict == nil {
+		seg.initDict()
+	}
+
 	// Read the word segmentation line by line
 	line := 0
 	for {
@@ -457,6 +465,10 @@ func IsJp(segText string) bool {
 
 // CalcToken calc the segmenter token
 func (seg *Segmenter) CalcToken() {
+	if seg.Dict == nil {
+		return
+	}
+
 	// Calculate the path value of each word segment.
 	// For the meaning of the path value, see the notes of the Token structure
 	logTotalFreq := float32(math.Log2(seg.Dict.totalFreq))
diff --git a/dictionary.go b/dictionary.go
index 7d914d2..d776104 100755
--- a/dictionary.go
+++ b/dictionary.go
@@ -14,9 +14,13 @@
 package gse
 
 import (
+	"errors"
+
 	"github.com/vcaesar/cedar"
 )
 
+var errNoDict = errors.New("gse: the dictionary is not loaded")
+
 // Dictionary struct implements a string double array trie.
 // one segment maybe in leaf node or not
 type Dictionary struct {
@@ -35,16 +39,28 @@ func NewDict() *Dictionary {
 
 // MaxTokenLen the maximum length of the dictionary
 func (dict *Dictionary) MaxTokenLen() int {
+	if dict == nil {
+		return 0
+	}
+
 	return dict.maxTokenLen
 }
 
 // NumTokens the number of tokens in the dictionary
 func (dict *Dictionary) NumTokens() int {
+	if dict == nil {
+		return 0
+	}
+
 	return len(dict.Tokens) - dict.numRemoved
 }
 
 // TotalFreq the total frequency of the dictionary
 func (dict *Dictionary) TotalFreq() float64 {
+	if dict == nil {
+		return 0
+	}
+
 	return dict.totalFreq
 }
 
@@ -78,6 +94,10 @@ func (dict *Dictionary) AddToken(token Token) error {
 
 // RemoveToken remove token in dictionary
 func (dict *Dictionary) RemoveToken(token Token) error {
+	if dict == nil {
+		return errNoDict
+	}
+
 	bytes := textSliceToBytes(token.text)
 	// Deleting a key that is only the prefix of words would cut them off
 	value, err := dict.trie.Get(bytes)
@@ -129,6 +149,10 @@ func (dict *Dictionary) Find(word []byte) (float64, string, bool) {
 		err       error
 	)
 
+	if dict == nil {
+		return 0, "", false
+	}
+
 	id, err = dict.trie.Jump(word, id)
 	if err != nil {
 		return 0, "", false
@@ -151,6 +175,10 @@ func (dict *Dictionary) Find(word []byte) (float64, string, bool) {
 // Value find word in the dictionary
 // return the word's value and id
 func (dict *Dictionary) Value(word []byte) (val, id int, err error) {
+	if dict == nil {
+		return 0, 0, errNoDict
+	}
+
 	id, err = dict.trie.Jump(word, id)
 	if err != nil {
 		return 0, id, err
-- 
2.43.0


From 79bd1791473d0a09b2885a14204b874cdfc1a072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:25 +0000
Subject: [PATCH 09/33] fix: AddStop must not panic on a new segmenter or after
 EmptyStop

---
 stop.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stop.go b/stop.go
index 4166f09..43e4811 100644
--- a/stop.go
+++ b/stop.go
@@ -81,6 +81,10 @@ func (seg *Segmenter) LoadStop(files ...string) error {
 
 // AddStop add a token to the StopWord dictionary.
 func (seg *Segmenter) AddStop(text string) {
+	if seg.StopWordMap == nil {
+		seg.StopWordMap = make(map[string]bool)
+	}
+
 	seg.StopWordMap[text] = true
 }
 
-- 
2.43.0


From 80f9f463fe93c594fd2dfbf141112eb2295167e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:37 +0000
Subject: [PATCH 10/33] fix: LoadStop reports an error while reading a stop
 word file

A directory, a failing disk or a line longer than the scanner's buffer
ended the file silently.
---
 stop.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/stop.go b/stop.go
index 43e4811..daddde3 100644
--- a/stop.go
+++ b/stop.go
@@ -74,6 +74,11 @@ func (seg *Segmenter) LoadStop(files ...string) error {
 				seg.StopWordMap[text] = true
 			}
 		}
+
+		if err := scanner.Err(); err != nil {
+			log.Printf("Could not load dictionaries: \"%s\", %v \n", name[i], err)
+			return err
+		}
 	}
 
 	return nil
-- 
2.43.0


From fa9103d2bbd87922d2911da80bca5e032b3d6216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:49 +0000
Subject: [PATCH 11/33] fix: a character that only starts dictionary words has
 frequency 1, not 0

Find reports a prefix as found with frequency 0; log(0) made every
division through such a character equally impossible, so the longest
word at the left was taken instead of the most probable division.
---
 dag.go             | 2 +-
 hmm/pos/pos_seg.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dag.go b/dag.go
index f3c1254..5b1b8f0 100644
--- a/dag.go
+++ b/dag.go
@@ -178,7 +178,7 @@ func (seg *Segmenter) calc(runes []rune) map[int]route {
 		for _, i := range dag[idx] {
 			freq, _, ok := seg.Find(string(runes[idx : i+1]))
 
-			if ok {
+			if ok && freq > 0 {
 				f := math.Log(freq) - logT + rs[i+1].freq
 				r = route{freq: f, index: i}
 			} else {
diff --git a/hmm/pos/pos_seg.go b/hmm/pos/pos_seg.go
index a3ff13d..534ae8e 100644
--- a/hmm/pos/pos_seg.go
+++ b/hmm/pos/pos_seg.go
@@ -160,7 +160,7 @@ func (seg *Segmenter) calc(runes []rune) map[int]route {
 
 	for idx := n - 1; idx >= 0; idx-- {
 		for _, i := range dag[idx] {
-			if freq, _, ok := seg.dict.Freq(string(runes[idx : i+1])); ok {
+			if freq, _, ok := seg.dict.Freq(string(runes[idx : i+1])); ok && freq > 0 {
 				r = route{
 					freq:  math.Log(freq) - seg.dict.logTotal + rs[i+1].freq,
 					index: i}
-- 
2.43.0


From 0fee825eb7214b22b64b3aca5dbfc3392b31aa67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:49 +0000
Subject: [PATCH 12/33] fix: read dictionaries line by line and report read
 errors

Fscanln left the rest of a line with more than three fields to be read as
a word of its own, kept the part of speech of an earlier line for a line
with the word alone, dropped a last line without part of speech and line
end, and turned any read error (a directory, a failing reader) into an
endless loop. With DictSep a word alone kept its line end.
---
 dict_util.go | 78 +++++++++++++++++++---------------------------------
 1 file changed, 29 insertions(+), 49 deletions(-)

diff --git a/dict_util.go b/dict_util.go
index 1e824e8..3fc4adf 100644
--- a/dict_util.go
+++ b/dict_util.go
@@ -16,7 +16,6 @@ package gse
 
 import (
 	"bufio"
-	"fmt"
 	"io"
 	"log"
 	"math"
@@ -308,15 +307,22 @@ func (seg *Segmenter) ReadN(reader *bufio.Reader) (size int,
 	var txt string
 	txt, fsErr = reader.ReadString('\n')
 
-	parts := strings.Split(txt, seg.DictSep+" ")
-	size = len(parts)
+	var parts []string
+	if seg.DictSep == "" {
+		parts = strings.Fields(txt)
+	} else {
+		parts = strings.Split(txt, seg.DictSep+" ")
+	}
 
-	text = parts[0]
+	size = len(parts)
+	if size > 0 {
+		text = strings.TrimSpace(parts[0])
+	}
 	if size > 1 {
 		freqText = strings.TrimSpace(parts[1])
 	}
 	if size > 2 {
-		pos = strings.TrimSpace(strings.Trim(parts[2], "\n"))
+		pos = strings.TrimSpace(parts[2])
 	}
 
 	return
@@ -324,13 +330,7 @@ func (seg *Segmenter) ReadN(reader *bufio.Reader) (size int,
 
 // Reader load dictionary from io.Reader
 func (seg *Segmenter) Reader(reader *bufio.Reader, files ...string) error {
-	var (
-		file           string
-		text, freqText string
-		freq           float64
-		pos            string
-	)
-
+	var file string
 	if len(files) > 0 {
 		file = files[0]
 	}
@@ -340,52 +340,32 @@ func (seg *Segmenter) Reader(reader *bufio.Reader, files ...string) error {
 	}
 
 	// Read the word segmentation line by line
-	line := 0
-	for {
-		line++
-		var (
-			size  int
-			fsErr error
-		)
-		if seg.DictSep == "" {
-			size, fsErr = fmt.Fscanln(reader, &text, &freqText, &pos)
-		} else {
-			size, text, freqText, pos, fsErr = seg.ReadN(reader)
+	for line, eof := 1, false; !eof; line++ {
+		size, text, freqText, pos, fsErr := seg.ReadN(reader)
+		if fsErr != nil && fsErr != io.EOF {
+			// The line may be incomplete, do not use it
+			log.Printf("File '%v' line \"%v\" read error: %v",
+				file, line, fsErr.Error())
+			return fsErr
 		}
 
-		if fsErr != nil {
-			if fsErr == io.EOF {
-				// End of file
-				if seg.DictSep == "" {
-					break
-				}
-
-				if seg.DictSep != "" && text == "" {
-					break
-				}
-			}
-
-			if size > 0 {
-				if seg.MoreLog {
-					log.Printf("File '%v' line \"%v\" read error: %v, skip",
-						file, line, fsErr.Error())
-				}
-			} else {
-				log.Printf("File '%v' line \"%v\" is empty, read error: %v, skip",
-					file, line, fsErr.Error())
+		eof = fsErr == io.EOF
+		if text == "" {
+			if !eof {
+				log.Printf("File '%v' line \"%v\" is empty, skip", file, line)
 			}
+			continue
 		}
 
-		freq = seg.Size(size, text, freqText)
+		freq := seg.Size(size, text, freqText)
 		if freq == 0.0 {
+			if seg.MoreLog {
+				log.Printf("File '%v' line \"%v\" has no valid frequency, skip",
+					file, line)
+			}
 			continue
 		}
 
-		if size == 2 {
-			// No part of speech, marked as an empty string
-			pos = ""
-		}
-
 		// Add participle tokens to the dictionary
 		words := seg.SplitTextToWords([]byte(text))
 		token := Token{text: words, freq: freq, pos: pos}
-- 
2.43.0


From c789244bc01f654444c966d98edf1036f21638ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:01 +0000
Subject: [PATCH 13/33] fix: skip dictionary lines whose frequency is not a
 finite number

NaN and Inf (also 1e999, for which ParseFloat returns Inf and an error)
were accepted and made the total frequency and every path length useless.
---
 dict_util.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dict_util.go b/dict_util.go
index 3fc4adf..4f3adb0 100644
--- a/dict_util.go
+++ b/dict_util.go
@@ -283,9 +283,9 @@ func (seg *Segmenter) Size(size int, text, freqText string) (freq float64) {
 	// Analyze the word frequency
 	var err error
 	freq, err = strconv.ParseFloat(freqText, 64)
-	if err != nil {
+	if err != nil || math.IsNaN(freq) || math.IsInf(freq, 0) {
 		// continue
-		return
+		return 0.0
 	}
 
 	// Filter out the words that are too infrequent
-- 
2.43.0


From ccd281bc429dffd771dbdae307073e540897fe55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:32 +0000
Subject: [PATCH 14/33] fix: TrimWithPos without tags drops nothing

With no tag to drop it returned nothing at all, and with it PosTrim,
PosTrimArr and PosTrimStr called without tags.
---
 hmm/pos/pos_seg.go | 4 ++++
 trim.go            | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/hmm/pos/pos_seg.go b/hmm/pos/pos_seg.go
index 534ae8e..e97f9b3 100644
--- a/hmm/pos/pos_seg.go
+++ b/hmm/pos/pos_seg.go
@@ -386,6 +386,10 @@ func (seg *Segmenter) Trim(se []gse.SegPos) (re []gse.SegPos) {
 
 // TrimWithPos trim some pos
 func (seg *Segmenter) TrimWithPos(se []gse.SegPos, pos ...string) (re []gse.SegPos) {
+	if len(pos) == 0 {
+		return se
+	}
+
 	for h := 0; h < len(pos); h++ {
 		if h > 0 {
 			se = re
diff --git a/trim.go b/trim.go
index e9958ff..ac905fe 100644
--- a/trim.go
+++ b/trim.go
@@ -68,6 +68,10 @@ func (seg *Segmenter) TrimPosPunct(se []SegPos) (re []SegPos) {
 
 // TrimWithPos trim some seg with pos
 func (seg *Segmenter) TrimWithPos(se []SegPos, pos ...string) (re []SegPos) {
+	if len(pos) == 0 {
+		return se
+	}
+
 	for h := 0; h < len(pos); h++ {
 		if h > 0 {
 			se = re
-- 
2.43.0


From d2262f780a3125e2b3a8a818f7b7d88ca8f17782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:44 +0000
Subject: [PATCH 15/33] fix: TrimPosPunct must not change its argument

It emptied the text of the stop words in the caller's slice.
---
 trim.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trim.go b/trim.go
index ac905fe..4fb06fa 100644
--- a/trim.go
+++ b/trim.go
@@ -52,7 +52,7 @@ func (seg *Segmenter) TrimPunct(s []string) (r []string) {
 func (seg *Segmenter) TrimPosPunct(se []SegPos) (re []SegPos) {
 	for i := 0; i < len(se); i++ {
 		if !seg.NotStop && seg.IsStop(se[i].Text) {
-			se[i].Text = ""
+			continue
 		}
 
 		if se[i].Text != "" && len(se[i].Text) > 0 {
-- 
2.43.0


From 21d9f12f5dba1164da45ce5ff5057f5f396b2f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:56 +0000
Subject: [PATCH 16/33] fix: FilterLang must not panic on the name of an
 unknown script

---
 trim.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/trim.go b/trim.go
index 4fb06fa..a049b13 100644
--- a/trim.go
+++ b/trim.go
@@ -248,8 +248,10 @@ func FilterHtml(text string) string {
 
 // FilterLang filter the language
 func FilterLang(text, lang string) (new string) {
+	script := unicode.Scripts[lang]
 	for _, value := range text {
-		if unicode.IsLetter(value) || unicode.Is(unicode.Scripts[lang], value) {
+		if unicode.IsLetter(value) ||
+			(script != nil && unicode.Is(script, value)) {
 			new += string(value)
 		}
 	}
-- 
2.43.0


From eff85005a02949ca2e8f1e6892b6904505b4bf09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:07 +0000
Subject: [PATCH 17/33] fix: the first word of the dictionary has a part of
 speech too

Dict.Pos took the value 0, the index of the first word, for not found.
---
 hmm/pos/dict.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hmm/pos/dict.go b/hmm/pos/dict.go
index cde3159..3ef9c89 100644
--- a/hmm/pos/dict.go
+++ b/hmm/pos/dict.go
@@ -51,8 +51,8 @@ func (d *Dict) Freq(key string) (float64, string, bool) {
 
 // Pos find the key return the POS and existence
 func (d *Dict) Pos(key string) (string, bool) {
-	value, _, _ := d.Seg.Value(key)
-	if value == 0 {
+	value, _, err := d.Seg.Value(key)
+	if err != nil {
 		return "", false
 	}
 
-- 
2.43.0


From 06dcf42095f5f029709d5cb601a738cd611e7a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:08 +0000
Subject: [PATCH 18/33] fix: TextRank takes the lowest rank into account for
 the highest one

A rank that was the lowest so far was not considered as the highest: with
one word, or with the map giving the ranks in descending order, the
weights were negative or above 1 and the ranking could be reversed.
---
 hmm/idf/textrank.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hmm/idf/textrank.go b/hmm/idf/textrank.go
index 5fa64a0..46f5de9 100644
--- a/hmm/idf/textrank.go
+++ b/hmm/idf/textrank.go
@@ -120,7 +120,8 @@ func (u *undirectWeightedGraph) rank() segment.Segments {
 	for _, w := range ws {
 		if w < minRank {
 			minRank = w
-		} else if w > maxRank {
+		}
+		if w > maxRank {
 			maxRank = w
 		}
 	}
-- 
2.43.0


From 5d796d2918288a638f1c016e178631077e71c686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:16 +0000
Subject: [PATCH 19/33] fix: TextRank gives the same result on every call

The edges were added in the random order of a map, so sums, ranks and the
order of words of nearly the same rank changed from call to call.
---
 hmm/idf/textrank.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/hmm/idf/textrank.go b/hmm/idf/textrank.go
index 46f5de9..129aee5 100644
--- a/hmm/idf/textrank.go
+++ b/hmm/idf/textrank.go
@@ -169,8 +169,20 @@ func (t *TextRanker) TextRankWithPOS(text string, topK int, allowPOS []string) s
 		}
 	}
 
-	for startEnd, weight := range cm {
-		g.addEdge(startEnd[0], startEnd[1], weight)
+	// Add the edges in a fixed order, the order of the additions changes the sums
+	starts := make([][2]string, 0, len(cm))
+	for startEnd := range cm {
+		starts = append(starts, startEnd)
+	}
+	sort.Slice(starts, func(i, j int) bool {
+		if starts[i][0] != starts[j][0] {
+			return starts[i][0] < starts[j][0]
+		}
+		return starts[i][1] < starts[j][1]
+	})
+
+	for _, startEnd := range starts {
+		g.addEdge(startEnd[0], startEnd[1], cm[startEnd])
 	}
 
 	tags := g.rank()
-- 
2.43.0


From 6400566cda20e3b0dbebf36a028e2aecb02044f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:23 +0000
Subject: [PATCH 20/33] fix: keyword extractors do not share their stop words

Every StopWord used the package's default map itself, so words added,
removed or loaded for one extractor changed all others, and loading one
while another was in use was a concurrent map access.
---
 hmm/idf/stop_words.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/hmm/idf/stop_words.go b/hmm/idf/stop_words.go
index 202dd90..c336af0 100644
--- a/hmm/idf/stop_words.go
+++ b/hmm/idf/stop_words.go
@@ -59,7 +59,10 @@ func (s *StopWord) RemoveStop(text string) {
 // NewStopWord create a new StopWord with the default stop words.
 func NewStopWord() *StopWord {
 	s := new(StopWord)
-	s.stopWordMap = StopWordMap
+	s.stopWordMap = make(map[string]bool, len(StopWordMap))
+	for k, v := range StopWordMap {
+		s.stopWordMap[k] = v
+	}
 	return s
 }
 
@@ -77,7 +80,7 @@ func (s *StopWord) LoadDict(files ...string) error {
 	}
 
 	for k, v := range s.seg.StopWordMap {
-		StopWordMap[k] = v
+		s.stopWordMap[k] = v
 	}
 
 	return nil
-- 
2.43.0


From 450511451a97df16b5cb3aa560c1f4a960eb0a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:32 +0000
Subject: [PATCH 21/33] fix: weigh words without IDF by the median of the
 loaded IDFs

The median was only kept up by AddToken (also for words it did not add)
and stayed 0 after LoadIdf and LoadIdfStr; a word that only starts words
of the IDF dictionary got the IDF 0 instead of the median.
---
 hmm/idf/idf.go           | 26 +++++++++++++++++++++++---
 hmm/idf/tag_extracker.go |  6 ++++--
 2 files changed, 27 insertions(+), 5 deletions(-)

diff --git a/hmm/idf/idf.go b/hmm/idf/idf.go
index 65e1f42..a3dafcf 100644
--- a/hmm/idf/idf.go
+++ b/hmm/idf/idf.go
@@ -32,11 +32,22 @@ type Idf struct {
 // AddToken add a new word with IDF into the dictionary.
 func (i *Idf) AddToken(text string, freq float64, pos ...string) error {
 	err := i.seg.AddToken(text, freq, pos...)
+	i.calcMedian()
+	return err
+}
 
-	i.freqs = append(i.freqs, freq)
+// calcMedian calculates the median of the IDFs in the dictionary
+func (i *Idf) calcMedian() {
+	if i.seg.Dict.NumTokens() == 0 {
+		return
+	}
+
+	i.freqs = i.freqs[:0]
+	for k := range i.seg.Dict.Tokens {
+		i.freqs = append(i.freqs, i.seg.Dict.Tokens[k].Freq())
+	}
 	sort.Float64s(i.freqs)
 	i.median = i.freqs[len(i.freqs)/2]
-	return err
 }
 
 // LoadDict load the idf dictionary
@@ -45,7 +56,9 @@ func (i *Idf) LoadDict(files ...string) error {
 		files = i.seg.GetIdfPath(files...)
 	}
 
-	return i.seg.LoadDict(files...)
+	err := i.seg.LoadDict(files...)
+	i.calcMedian()
+	return err
 }
 
 // Freq return the IDF of the word
@@ -53,6 +66,13 @@ func (i *Idf) Freq(key string) (float64, string, bool) {
 	return i.seg.Find(key)
 }
 
+// has reports whether the word itself, not only longer words starting with it,
+// is in the dictionary
+func (i *Idf) has(key string) bool {
+	_, _, err := i.seg.Value(key)
+	return err == nil
+}
+
 // NumTokens return the IDF tokens' num
 func (i *Idf) NumTokens() int {
 	return i.seg.Dict.NumTokens()
diff --git a/hmm/idf/tag_extracker.go b/hmm/idf/tag_extracker.go
index 4603b74..e1c3061 100644
--- a/hmm/idf/tag_extracker.go
+++ b/hmm/idf/tag_extracker.go
@@ -38,7 +38,9 @@ func (t *TagExtracter) LoadIdf(fileName ...string) error {
 // LoadIdfStr load and create a new Idf dictionary from the string.
 func (t *TagExtracter) LoadIdfStr(str string) error {
 	t.Idf = NewIdf()
-	return t.Idf.seg.LoadDictStr(str)
+	err := t.Idf.seg.LoadDictStr(str)
+	t.Idf.calcMedian()
+	return err
 }
 
 // LoadStopWords load and create a new StopWord dictionary from the file.
@@ -79,7 +81,7 @@ func (t *TagExtracter) ExtractTags(text string, topK int) (tags segment.Segments
 	ws := make(segment.Segments, 0)
 	var s segment.Segment
 	for k, v := range freqMap {
-		if freq, _, ok := t.Idf.Freq(k); ok {
+		if freq, _, _ := t.Idf.Freq(k); t.Idf.has(k) {
 			s = segment.Segment{Text: k, Weight: freq * v}
 		} else {
 			s = segment.Segment{Text: k, Weight: t.Idf.median * v}
-- 
2.43.0


From 5a2d0796c962e0a4bb97769f14ba02daf7f0cae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:07 +0000
Subject: [PATCH 22/33] fix: ExtractTags must not panic before LoadIdf or with
 a negative topK

---
 hmm/idf/tag_extracker.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/hmm/idf/tag_extracker.go b/hmm/idf/tag_extracker.go
index e1c3061..5a26008 100644
--- a/hmm/idf/tag_extracker.go
+++ b/hmm/idf/tag_extracker.go
@@ -51,6 +51,17 @@ func (t *TagExtracter) LoadStopWords(fileName ...string) error {
 
 // ExtractTags extract the topK key words from text.
 func (t *TagExtracter) ExtractTags(text string, topK int) (tags segment.Segments) {
+	if topK < 0 {
+		topK = 0
+	}
+	idf, stopWord := t.Idf, t.stopWord
+	if idf == nil {
+		idf = NewIdf()
+	}
+	if stopWord == nil {
+		stopWord = NewStopWord()
+	}
+
 	freqMap := make(map[string]float64)
 
 	for _, w := range t.seg.Cut(text, true) {
@@ -58,7 +69,7 @@ func (t *TagExtracter) ExtractTags(text string, topK int) (tags segment.Segments
 		if utf8.RuneCountInString(w) < 2 {
 			continue
 		}
-		if t.stopWord.IsStopWord(w) {
+		if stopWord.IsStopWord(w) {
 			continue
 		}
 
@@ -81,10 +92,10 @@ func (t *TagExtracter) ExtractTags(text string, topK int) (tags segment.Segments
 	ws := make(segment.Segments, 0)
 	var s segment.Segment
 	for k, v := range freqMap {
-		if freq, _, _ := t.Idf.Freq(k); t.Idf.has(k) {
+		if freq, _, _ := idf.Freq(k); idf.has(k) {
 			s = segment.Segment{Text: k, Weight: freq * v}
 		} else {
-			s = segment.Segment{Text: k, Weight: t.Idf.median * v}
+			s = segment.Segment{Text: k, Weight: idf.median * v}
 		}
 		ws = append(ws, s)
 	}
-- 
2.43.0


From b08f262efa82c066aca7e1bda48428d44e749a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:19 +0000
Subject: [PATCH 23/33] fix: loading a dictionary must not touch the HMM model
 that is in use

Every load of any segmenter rewrote the shared emission map: a data race
with (and a fatal concurrent map access in) segmenters that were cutting,
and a model the user had loaded was silently replaced by the default.
---
 dict_util.go   |  4 +++-
 hmm/hmm_seg.go | 17 +++++++++++++++++
 hmm/viterbi.go |  3 +++
 3 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/dict_util.go b/dict_util.go
index 4f3adb0..c6ba305 100644
--- a/dict_util.go
+++ b/dict_util.go
@@ -25,6 +25,8 @@ import (
 	"strconv"
 	"strings"
 	"unicode"
+
+	"github.com/go-ego/gse/hmm"
 )
 
 var (
@@ -49,7 +51,7 @@ func (seg *Segmenter) Init() {
 
 	// init the model of hmm cut
 	if !seg.NotLoadHMM {
-		seg.LoadModel()
+		hmm.InitModel()
 	}
 }
 
diff --git a/hmm/hmm_seg.go b/hmm/hmm_seg.go
index 1d63329..8e47c32 100644
--- a/hmm/hmm_seg.go
+++ b/hmm/hmm_seg.go
@@ -19,6 +19,7 @@ package hmm
 
 import (
 	"regexp"
+	"sync"
 )
 
 var (
@@ -26,12 +27,18 @@ var (
 	regSkip = regexp.MustCompile(`(\d+\.\d+|[a-zA-Z0-9]+)`)
 )
 
+// modelMu guards probEmit, which all segmenters share
+var modelMu sync.RWMutex
+
 // func LoadFile(filePath string) map[rune]float64 {
 //
 // }
 
 // LoadModel load the HMM model
 func LoadModel(prob ...map[rune]float64) {
+	modelMu.Lock()
+	defer modelMu.Unlock()
+
 	if len(prob) > 3 {
 		probEmit['B'] = prob[0]
 		probEmit['E'] = prob[1]
@@ -44,6 +51,16 @@ func LoadModel(prob ...map[rune]float64) {
 	loadDefEmit()
 }
 
+// InitModel load the default HMM model if no model is loaded yet
+func InitModel() {
+	modelMu.Lock()
+	defer modelMu.Unlock()
+
+	if len(probEmit) == 0 {
+		loadDefEmit()
+	}
+}
+
 func internalCut(text string) []string {
 	result := make([]string, 0, 10)
 
diff --git a/hmm/viterbi.go b/hmm/viterbi.go
index 7db8d54..f092e20 100644
--- a/hmm/viterbi.go
+++ b/hmm/viterbi.go
@@ -66,6 +66,9 @@ func (ps probStates) Swap(i, j int) {
 
 // Viterbi write viterbi algorithm by go
 func Viterbi(obs []rune, states []byte) (float64, []byte) {
+	modelMu.RLock()
+	defer modelMu.RUnlock()
+
 	path := make(map[byte][]byte)
 	vtb := make([]map[byte]float64, len(obs))
 	vtb[0] = make(map[byte]float64)
-- 
2.43.0


From 6ac926c594cc676dd55de64a638e4701d547f0f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:22 +0000
Subject: [PATCH 24/33] fix: HMM cut must finish when a regular expression
 matches nothing

An empty match of the user's regular expressions made Cut loop forever,
or panic in Viterbi, which had no answer for no characters at all.
---
 hmm/hmm_seg.go | 19 +++++++++++++++++--
 hmm/viterbi.go |  4 ++++
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/hmm/hmm_seg.go b/hmm/hmm_seg.go
index 8e47c32..db8f867 100644
--- a/hmm/hmm_seg.go
+++ b/hmm/hmm_seg.go
@@ -102,7 +102,7 @@ func Cut(text string, reg ...*regexp.Regexp) []string {
 	for {
 		// find(text, cuts, cutLoc, nonCutLoc)
 		if len(reg) > 1 {
-			cutLoc = reg[1].FindStringIndex(text)
+			cutLoc = findIndex(reg[1], text)
 		} else {
 			cutLoc = regHan.FindStringIndex(text)
 		}
@@ -119,7 +119,7 @@ func Cut(text string, reg ...*regexp.Regexp) []string {
 		}
 
 		if len(reg) > 0 {
-			nonCutLoc = reg[0].FindStringIndex(text)
+			nonCutLoc = findIndex(reg[0], text)
 		} else {
 			nonCutLoc = regSkip.FindStringIndex(text)
 		}
@@ -149,6 +149,21 @@ func Cut(text string, reg ...*regexp.Regexp) []string {
 	return result
 }
 
+// findIndex find the first match of reg in text that is not empty
+func findIndex(reg *regexp.Regexp, text string) []int {
+	loc := reg.FindStringIndex(text)
+	if loc == nil || loc[0] < loc[1] {
+		return loc
+	}
+
+	for _, loc = range reg.FindAllStringIndex(text, -1) {
+		if loc[0] < loc[1] {
+			return loc
+		}
+	}
+	return nil
+}
+
 func locJudge(str string, cutLoc, nonCutLoc []int) (loc []int) {
 	if cutLoc == nil && nonCutLoc == nil {
 		if len(str) > 0 {
diff --git a/hmm/viterbi.go b/hmm/viterbi.go
index f092e20..8e395db 100644
--- a/hmm/viterbi.go
+++ b/hmm/viterbi.go
@@ -66,6 +66,10 @@ func (ps probStates) Swap(i, j int) {
 
 // Viterbi write viterbi algorithm by go
 func Viterbi(obs []rune, states []byte) (float64, []byte) {
+	if len(obs) == 0 {
+		return 0, nil
+	}
+
 	modelMu.RLock()
 	defer modelMu.RUnlock()
 
-- 
2.43.0


From 8c2e92ccdb11f93d2329f85109fe5f93a8c19c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:34 +0000
Subject: [PATCH 25/33] fix: HMM cut with user regular expressions keeps bytes
 that are not UTF-8

When the user's expression for the text to cut matched such bytes, each
of them came out as the three bytes of U+FFFD.
---
 hmm/hmm_seg.go | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/hmm/hmm_seg.go b/hmm/hmm_seg.go
index db8f867..49c8e7a 100644
--- a/hmm/hmm_seg.go
+++ b/hmm/hmm_seg.go
@@ -20,6 +20,7 @@ package hmm
 import (
 	"regexp"
 	"sync"
+	"unicode/utf8"
 )
 
 var (
@@ -66,24 +67,30 @@ func internalCut(text string) []string {
 
 	runes := []rune(text)
 	_, posList := Viterbi(runes, []byte{'B', 'M', 'E', 'S'})
-	begin, next := 0, 0
+	begin, next, start := 0, 0, 0
+
+	// Take the words from the text itself, not from the runes,
+	// in which bytes that are not UTF-8 are replaced
+	for i := range runes {
+		_, size := utf8.DecodeRuneInString(text[start:])
+		end := start + size
 
-	for i, char := range runes {
 		pos := posList[i]
 		switch pos {
 		case 'B':
-			begin = i
+			begin = start
 		case 'E':
-			result = append(result, string(runes[begin:i+1]))
-			next = i + 1
+			result = append(result, text[begin:end])
+			next = end
 		case 'S':
-			result = append(result, string(char))
-			next = i + 1
+			result = append(result, text[start:end])
+			next = end
 		}
+		start = end
 	}
 
-	if next < len(runes) {
-		result = append(result, string(runes[next:]))
+	if next < len(text) {
+		result = append(result, text[next:])
 	}
 
 	return result
-- 
2.43.0


From 09640a078aebc777593874ffffb09e26ae68ecc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:24 +0000
Subject: [PATCH 26/33] fix: lower-case letters with the Alpha option too

With Alpha the letters are units of their own, which were not
lower-cased, so they matched no dictionary word and a text and a
dictionary in the same capitals gave tokens that only matched each other.
---
 segmenter.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/segmenter.go b/segmenter.go
index 2ccb50e..13e294a 100755
--- a/segmenter.go
+++ b/segmenter.go
@@ -245,7 +245,11 @@ func (seg *Segmenter) SplitTextToWords(text Text) []Text {
 				}
 			}
 
-			output = append(output, text[current:current+size])
+			unit := text[current : current+size]
+			if size == 1 {
+				unit = toLow(unit)
+			}
+			output = append(output, unit)
 		}
 		current += size
 	}
-- 
2.43.0


From 7a76e129abf550226f6b4c6016543ad2de10f688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:35 +0000
Subject: [PATCH 27/33] fix: FindAllOccs and Analyze must not loop forever on
 an empty word

---
 dag.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dag.go b/dag.go
index 5b1b8f0..c2605d7 100644
--- a/dag.go
+++ b/dag.go
@@ -50,6 +50,10 @@ func FindAllOccs(data []byte, searches []string) map[string][]int {
 	results := make(map[string][]int, 0)
 	tmp := data
 	for _, search := range searches {
+		if search == "" {
+			continue
+		}
+
 		index := len(data)
 		for {
 			match := bytes.LastIndex(tmp[0:index], []byte(search))
-- 
2.43.0


From 433793b14285a85e5a269ac3bd9aa39e468ffa7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:19 +0000
Subject: [PATCH 28/33] fix: the server must not add words while it segments

/add changed the dictionary without any lock while /json requests were
using it: data races, lost words and crashes.
---
 tools/server/server.go | 37 +++++++++++++++++++++++++++++++------
 1 file changed, 31 insertions(+), 6 deletions(-)

diff --git a/tools/server/server.go b/tools/server/server.go
index 0fde819..5aa2cb8 100755
--- a/tools/server/server.go
+++ b/tools/server/server.go
@@ -33,6 +33,7 @@ import (
 	"log"
 	"runtime"
 	"strconv"
+	"sync"
 
 	"encoding/json"
 	"net/http"
@@ -42,6 +43,8 @@ import (
 
 var (
 	seg = gse.Segmenter{}
+	// segMu 保护 seg: addToken 会修改正在分词的字典
+	segMu sync.RWMutex
 
 	host = flag.String("host", "", "HTTP服务器主机名")
 	port = flag.Int("port", 8080, "HTTP服务器端口")
@@ -83,7 +86,7 @@ func JsonRpcServer(w http.ResponseWriter, req *http.Request) {
 	}
 
 	if *hmm {
-		segs := seg.Cut(text, true)
+		segs := cut(text)
 		response, _ := json.Marshal(&JsonResp{Seg: segs})
 
 		w.Header().Set("Content-Type", "application/json")
@@ -93,6 +96,24 @@ func JsonRpcServer(w http.ResponseWriter, req *http.Request) {
 	}
 
 	// 分词
+	ss := segment(text)
+	response, _ := json.Marshal(&JsonResponse{Segments: ss})
+
+	w.Header().Set("Content-Type", "application/json")
+	io.WriteString(w, string(response))
+}
+
+func cut(text string) []string {
+	segMu.RLock()
+	defer segMu.RUnlock()
+
+	return seg.Cut(text, true)
+}
+
+func segment(text string) []*Segment {
+	segMu.RLock()
+	defer segMu.RUnlock()
+
 	segs := seg.Segment([]byte(text))
 
 	// 整理为输出格式
@@ -101,23 +122,27 @@ func JsonRpcServer(w http.ResponseWriter, req *http.Request) {
 		ss = append(ss, &Segment{
 			Text: segment.Token().Text(), Pos: segment.Token().Pos()})
 	}
-	response, _ := json.Marshal(&JsonResponse{Segments: ss})
-
-	w.Header().Set("Content-Type", "application/json")
-	io.WriteString(w, string(response))
+	return ss
 }
 
 func addToken(w http.ResponseWriter, req *http.Request) {
 	text := req.URL.Query().Get("text")
 	freq, _ := strconv.ParseFloat(req.URL.Query().Get("freq"), 64)
 	pos := req.URL.Query().Get("pos")
-	seg.AddTokenForce(text, freq, pos)
+	addForce(text, freq, pos)
 
 	response, _ := json.Marshal(&Resp{Code: 200, Text: "ok"})
 	w.Header().Set("Content-Type", "application/json")
 	io.WriteString(w, string(response))
 }
 
+func addForce(text string, freq float64, pos string) {
+	segMu.Lock()
+	defer segMu.Unlock()
+
+	seg.AddTokenForce(text, freq, pos)
+}
+
 func main() {
 	flag.Parse()
 
-- 
2.43.0


From 869cf8893820632fe6a1fbd2185834d9f487cdcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:33 +0000
Subject: [PATCH 29/33] fix: NUL bytes must not get into the dictionary, nor
 match in it

---
 dictionary.go | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/dictionary.go b/dictionary.go
index d776104..77e8151 100755
--- a/dictionary.go
+++ b/dictionary.go
@@ -14,12 +14,22 @@
 package gse
 
 import (
+	"bytes"
 	"errors"
 
 	"github.com/vcaesar/cedar"
 )
 
-var errNoDict = errors.New("gse: the dictionary is not loaded")
+var (
+	errNoDict = errors.New("gse: the dictionary is not loaded")
+	errNul    = errors.New("gse: a word cannot contain NUL bytes")
+)
+
+// hasNul reports whether the word has a NUL byte,
+// which the trie uses to mark the end of a word
+func hasNul(word []byte) bool {
+	return bytes.IndexByte(word, 0) >= 0
+}
 
 // Dictionary struct implements a string double array trie.
 // one segment maybe in leaf node or not
@@ -71,6 +81,9 @@ func (dict *Dictionary) AddToken(token Token) error {
 		// An empty word would match before any text
 		return nil
 	}
+	if hasNul(bytes) {
+		return errNul
+	}
 
 	val, err := dict.trie.Get(bytes)
 	if err == nil || val > 0 {
@@ -99,6 +112,10 @@ func (dict *Dictionary) RemoveToken(token Token) error {
 	}
 
 	bytes := textSliceToBytes(token.text)
+	if hasNul(bytes) {
+		return errNul
+	}
+
 	// Deleting a key that is only the prefix of words would cut them off
 	value, err := dict.trie.Get(bytes)
 	if err != nil {
@@ -125,6 +142,10 @@ func (dict *Dictionary) LookupTokens(
 	)
 
 	for _, word := range words {
+		if hasNul(word) {
+			break
+		}
+
 		id, err = dict.trie.Jump(word, id)
 		if err != nil {
 			break
@@ -149,7 +170,7 @@ func (dict *Dictionary) Find(word []byte) (float64, string, bool) {
 		err       error
 	)
 
-	if dict == nil {
+	if dict == nil || hasNul(word) {
 		return 0, "", false
 	}
 
@@ -178,6 +199,9 @@ func (dict *Dictionary) Value(word []byte) (val, id int, err error) {
 	if dict == nil {
 		return 0, 0, errNoDict
 	}
+	if hasNul(word) {
+		return 0, 0, errNul
+	}
 
 	id, err = dict.trie.Jump(word, id)
 	if err != nil {
-- 
2.43.0


From 4b628a332367031fa4cde584f78781cf0417e7e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:10 +0000
Subject: [PATCH 30/33] fix: loading extractor stop words must not bring
 removed ones back

---
 hmm/idf/stop_words.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hmm/idf/stop_words.go b/hmm/idf/stop_words.go
index c336af0..c57380f 100644
--- a/hmm/idf/stop_words.go
+++ b/hmm/idf/stop_words.go
@@ -74,6 +74,8 @@ func (s *StopWord) IsStopWord(word string) bool {
 
 // LoadDict load the idf stop dictionary
 func (s *StopWord) LoadDict(files ...string) error {
+	// Words of earlier loads may have been removed since
+	s.seg.EmptyStop()
 	err := s.seg.LoadStop(files...)
 	if err != nil {
 		return err
-- 
2.43.0


From a3ceef7db5f9e0e9847591b351b1b931160ab90a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:39 +0000
Subject: [PATCH 31/33] fix: SuggestFreq must not panic without words

---
 dag.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dag.go b/dag.go
index c2605d7..7953846 100644
--- a/dag.go
+++ b/dag.go
@@ -380,6 +380,10 @@ func (seg *Segmenter) cutForSearch(str string, hmm ...bool) []string {
 // SuggestFreq suggest the words frequency
 // return a suggested frequency of a word cutted to short words.
 func (seg *Segmenter) SuggestFreq(words ...string) float64 {
+	if len(words) == 0 {
+		return 0
+	}
+
 	freq := 1.0
 	total := seg.Dict.TotalFreq()
 
-- 
2.43.0


From ff267eb50dfbdd92ca3aaa6980cabc9ce528e031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:40 +0000
Subject: [PATCH 32/33] fix: a zero StopWord is an empty set of stop words

---
 hmm/idf/stop_words.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/hmm/idf/stop_words.go b/hmm/idf/stop_words.go
index c57380f..6e07904 100644
--- a/hmm/idf/stop_words.go
+++ b/hmm/idf/stop_words.go
@@ -48,6 +48,10 @@ type StopWord struct {
 
 // AddStop add a token to StopWord dictionary.
 func (s *StopWord) AddStop(text string) {
+	if s.stopWordMap == nil {
+		s.stopWordMap = make(map[string]bool)
+	}
+
 	s.stopWordMap[text] = true
 }
 
@@ -81,8 +85,8 @@ func (s *StopWord) LoadDict(files ...string) error {
 		return err
 	}
 
-	for k, v := range s.seg.StopWordMap {
-		s.stopWordMap[k] = v
+	for k := range s.seg.StopWordMap {
+		s.AddStop(k)
 	}
 
 	return nil
-- 
2.43.0


From d5cfa93a53df078531c8d11d94e46ed838e6fd9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:12 +0000
Subject: [PATCH 33/33] fix: the units of a text do not share the caller's
 buffer

---
 segmenter.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/segmenter.go b/segmenter.go
index 13e294a..8f1818c 100755
--- a/segmenter.go
+++ b/segmenter.go
@@ -220,6 +220,8 @@ func SplitWords(text Text) []Text {
 // SplitTextToWords splits a string to token words
 func (seg *Segmenter) SplitTextToWords(text Text) []Text {
 	output := make([]Text, 0, len(text)/3)
+	// The words must not change when the caller reuses its buffer
+	text = append(Text(nil), text...)
 	current, alphanumericStart := 0, 0
 	inAlphanumeric := true
 
-- 
2.43.0

