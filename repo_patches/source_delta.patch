From 0d15aa3fa249a363466d4056d5d192b4732baf70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:01 +0000
Subject: [PATCH 01/96] fix: Encoding.Truncate shares backing arrays between
 overflow parts, panics without words and keeps stale ranges

---
 encoding.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/encoding.go b/encoding.go
index 341bc7f..2fe522d 100644
--- a/encoding.go
+++ b/encoding.go
@@ -365,8 +365,12 @@ func (e *Encoding) Truncate(maxLen int, stride int) (retVal *Encoding, err error
 	oSpeToks := e.SpecialTokenMask[maxLen:len(e.SpecialTokenMask)]
 	newAttent := e.AttentionMask[0:maxLen]
 	oAttent := e.AttentionMask[maxLen:len(e.AttentionMask)]
-	newWords := e.Words[0:maxLen]
-	oWords := e.Words[maxLen:len(e.Words)]
+	// NOTE. `Words` is optional
+	var newWords, oWords []int
+	if e.Words != nil {
+		newWords = e.Words[0:maxLen]
+		oWords = e.Words[maxLen:len(e.Words)]
+	}
 
 	e.Ids = newIds
 	e.TypeIds = newTypeIds
@@ -375,6 +379,10 @@ func (e *Encoding) Truncate(maxLen int, stride int) (retVal *Encoding, err error
 	e.SpecialTokenMask = newSpeToks
 	e.AttentionMask = newAttent
 	e.Words = newWords
+	// The ranges do not survive truncation.
+	if len(e.SequenceRanges) > 0 {
+		e.SequenceRanges = make(map[int]Range)
+	}
 
 	// Separate the overflowing part into as many Encoding as needed
 	partSize := maxLen - stride
@@ -679,7 +687,7 @@ func getCurrentPart[T any](previous, current []T, size, idx, stride int) []T {
 
 	start := idx * size
 	if start >= len(current) {
-		return previous[len(previous)-stride:]
+		return util.Merge(nil, previous[len(previous)-stride:])
 	}
 
 	end := (idx + 1) * size
@@ -690,5 +698,6 @@ func getCurrentPart[T any](previous, current []T, size, idx, stride int) []T {
 	curr := current[start:end]
 	prev := previous[len(previous)-stride:]
 
-	return append(prev, curr...)
+	// NOTE. always copy, `prev` shares its backing array with the previous part.
+	return util.Merge(prev, curr)
 }
-- 
2.43.0


From c46724dfce7bf77dab4b138c0acde08e88656346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:02 +0000
Subject: [PATCH 02/96] fix: TruncateEncodings longest-first count, exact fit
 and ignored truncation errors

---
 util.go | 40 +++++++++++++++++++++++++++++++++-------
 1 file changed, 33 insertions(+), 7 deletions(-)

diff --git a/util.go b/util.go
index 1e5d49c..2d0c230 100644
--- a/util.go
+++ b/util.go
@@ -96,7 +96,7 @@ func TruncateEncodings(encoding, pairEncoding *Encoding, params *TruncationParam
 		totalLength = len(encoding.GetIds()) + len(pairEncoding.GetIds())
 	}
 
-	if totalLength < params.MaxLength {
+	if totalLength <= params.MaxLength {
 		return encoding, pairEncoding
 	}
 
@@ -113,21 +113,22 @@ func TruncateEncodings(encoding, pairEncoding *Encoding, params *TruncationParam
 		for i := 0; i < toRemove; i++ {
 			if nFirst > nSecond {
 				nFirst -= 1
+			} else {
+				nSecond -= 1
 			}
-			nSecond -= 1
 		}
 
-		encoding.Truncate(nFirst, params.Stride)
-		if pairEncoding != nil {
-			pairEncoding.Truncate(nSecond, params.Stride)
+		err = truncateTo(encoding, nFirst, params.Stride)
+		if err == nil && pairEncoding != nil {
+			err = truncateTo(pairEncoding, nSecond, params.Stride)
 		}
 
 	case OnlyFirst, OnlySecond:
 		var truncateFunc = func(target *Encoding) (*Encoding, error) {
 			targetLength := len(target.GetIds())
 			if targetLength > toRemove {
-				target.Truncate(targetLength-toRemove, params.Stride)
-				return target, nil
+				err := truncateTo(target, targetLength-toRemove, params.Stride)
+				return target, err
 			} else {
 				err := errors.New(SequenceTooShort)
 				return nil, err
@@ -151,6 +152,31 @@ func TruncateEncodings(encoding, pairEncoding *Encoding, params *TruncationParam
 	return encoding, pairEncoding
 }
 
+// truncateTo keeps the first `length` tokens of the given encoding. The stride is
+// reduced when it would not be smaller than what is kept, and an encoding left
+// without any token has all of them in one overflowing part.
+func truncateTo(encoding *Encoding, length, stride int) error {
+	if length >= encoding.Len() {
+		return nil
+	}
+
+	if length == 0 {
+		whole := *encoding
+		whole.Overflowing = []Encoding{}
+		whole.SequenceRanges = nil
+		*encoding = *DefaultEncoding()
+		encoding.Overflowing = []Encoding{whole}
+		return nil
+	}
+
+	if stride >= length {
+		stride = length - 1
+	}
+	_, err := encoding.Truncate(length, stride)
+
+	return err
+}
+
 func PadEncodings(encodings []Encoding, params PaddingParams) []Encoding {
 	if len(encodings) == 0 {
 		return encodings
-- 
2.43.0


From 11d804646f5329e84c3c7d957ec9317595b1084c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:50 +0000
Subject: [PATCH 03/96] fix: left padding copies ids into type ids, panics on
 offsets, and leaves sequence ranges unshifted; long overflow parts are left
 alone

---
 encoding.go | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/encoding.go b/encoding.go
index 2fe522d..f526f64 100644
--- a/encoding.go
+++ b/encoding.go
@@ -578,8 +578,21 @@ func (e *Encoding) Pad(targetLength, padId, padTypeId int, padToken string, dire
 	return paddedEn
 }
 
+// wordsOrNone returns the word indexes, -1 (none) for each token when there are not any.
+func (e *Encoding) wordsOrNone() []int {
+	if e.Words == nil && e.Len() > 0 {
+		return util.Repeat(-1, e.Len())
+	}
+
+	return e.Words
+}
+
 func (e *Encoding) pad(targetLength, padId, padTypeId int, padToken string, direction PaddingDirection) *Encoding {
 	padLength := targetLength - len(e.Ids)
+	if padLength <= 0 {
+		return e
+	}
+	e.Words = e.wordsOrNone()
 
 	switch direction {
 	case Left:
@@ -594,7 +607,7 @@ func (e *Encoding) pad(targetLength, padId, padTypeId int, padToken string, dire
 		for i := 0; i < len(newTypeIds); i++ {
 			newTypeIds[i] = padTypeId
 		}
-		newTypeIds = append(newTypeIds, e.Ids...)
+		newTypeIds = append(newTypeIds, e.TypeIds...)
 		e.TypeIds = newTypeIds
 
 		newTokens := make([]string, padLength)
@@ -619,7 +632,7 @@ func (e *Encoding) pad(targetLength, padId, padTypeId int, padToken string, dire
 		e.AttentionMask = newAttentionMask
 
 		newOffsets := make([][]int, padLength)
-		for i := 0; i < len(newIds); i++ {
+		for i := 0; i < len(newOffsets); i++ {
 			newOffsets[i] = []int{0, 0}
 		}
 		newOffsets = append(newOffsets, e.Offsets...)
@@ -632,6 +645,15 @@ func (e *Encoding) pad(targetLength, padId, padTypeId int, padToken string, dire
 		newWords = append(newWords, e.Words...)
 		e.Words = newWords
 
+		// The tokens have moved, so do the ranges designating them.
+		if len(e.SequenceRanges) > 0 {
+			newRanges := make(map[int]Range)
+			for seqId, r := range e.SequenceRanges {
+				newRanges[seqId] = NewRange(padLength+r[0], padLength+r[len(r)-1]+1)
+			}
+			e.SequenceRanges = newRanges
+		}
+
 	case Right:
 		for i := 0; i < padLength; i++ {
 			e.Ids = append(e.Ids, padId)
-- 
2.43.0


From 4e85692444528b34a6e85f76b741c7074088ede4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:20 +0000
Subject: [PATCH 04/96] fix: Encoding.MergeWith shares offsets and ranges with
 other encodings, panics without ranges, loses word alignment

---
 encoding.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/encoding.go b/encoding.go
index f526f64..9f20448 100644
--- a/encoding.go
+++ b/encoding.go
@@ -463,6 +463,12 @@ func (e *Encoding) MergeWith(pair *Encoding, growingOffsets bool) (retVal *Encod
 	// Merging others
 	originalLen := e.Len()
 	if len(pair.SequenceRanges) > 0 {
+		// NOTE. never write into a map shared with another encoding
+		ranges := make(map[int]Range)
+		for seqId, r := range e.SequenceRanges {
+			ranges[seqId] = r
+		}
+		e.SequenceRanges = ranges
 		for seqId, r := range pair.SequenceRanges {
 			start := originalLen + r[0]
 			end := originalLen + r[r.Len()-1] + 1
@@ -473,16 +479,21 @@ func (e *Encoding) MergeWith(pair *Encoding, growingOffsets bool) (retVal *Encod
 		}
 	}
 
+	var mergedWords []int
+	if e.Words != nil || pair.Words != nil {
+		mergedWords = util.Merge(e.wordsOrNone(), pair.wordsOrNone())
+	}
+
 	e.Ids = util.Merge(e.Ids, pair.Ids)
 	e.Tokens = util.Merge(e.Tokens, pair.Tokens)
-	e.Words = util.Merge(e.Words, pair.Words)
+	e.Words = mergedWords
 	e.TypeIds = util.Merge(e.TypeIds, pair.TypeIds)
 	e.SpecialTokenMask = util.Merge(e.SpecialTokenMask, pair.SpecialTokenMask)
 	e.AttentionMask = util.Merge(e.AttentionMask, pair.AttentionMask)
 
 	// Offsets
 	var startingOffset int = 0
-	offsets := e.Offsets
+	offsets := util.Merge(e.Offsets, nil)
 	if growingOffsets {
 		if len(offsets) > 0 {
 			last := offsets[len(offsets)-1]
-- 
2.43.0


From 2e078883a2fd4c3958d420dd55a739cddc615892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:01 +0000
Subject: [PATCH 05/96] fix: Encoding lookups between words, tokens, chars and
 sequences mis-index, panic or ignore absent answers

---
 encoding.go | 55 ++++++++++++++++++++++++++---------------------------
 1 file changed, 27 insertions(+), 28 deletions(-)

diff --git a/encoding.go b/encoding.go
index 9f20448..33bf373 100644
--- a/encoding.go
+++ b/encoding.go
@@ -190,20 +190,10 @@ func (e *Encoding) SetSequenceIds(sequenceId int) {
 
 func (e *Encoding) GetSequenceIds() []int {
 	sequences := make([]int, e.Len())
-	for seqId := 0; seqId < e.NSequences(); seqId++ {
-		r := e.SequenceRanges[seqId]
-		seqLen := r.Len()
-		var a []int
-		for i := 0; i < seqLen; i++ {
-			a = append(a, seqId)
+	for seqId, r := range e.SequenceRanges {
+		for _, i := range r {
+			sequences[i] = seqId
 		}
-		// replace items in Range r with seqId
-		start := r[0]
-		end := r[len(r)-1]
-		before := sequences[:start]
-		after := sequences[end:]
-		sequences = append(before, a...)
-		sequences = append(sequences, after...)
 	}
 
 	return sequences
@@ -265,20 +255,26 @@ func (e *Encoding) Word2Tokens(word int) (startTok, endTok int, ok bool) {
 
 	var start, end int = -1, -1
 
-	var inRangeWords []int
-	for _, w := range e.Words {
-		if w <= word {
-			inRangeWords = append(inRangeWords, w)
-		}
+	if word < 0 {
+		return startTok, endTok, false
 	}
-	for i, w := range inRangeWords {
-		if w == word && start < 0 {
+
+	var startSeq int
+	for i, w := range e.Words {
+		if w != word {
+			continue
+		}
+		// NOTE. each sequence has its own words
+		seq, _ := e.Token2Sequence(i)
+		if start < 0 {
 			start = i
+			startSeq = seq
+		}
+		if seq == startSeq {
+			end = i + 1
 		}
 	}
 
-	end = len(inRangeWords)
-
 	if start != -1 && end != -1 {
 		return start, end, true
 	} else {
@@ -290,18 +286,18 @@ func (e *Encoding) Word2Tokens(word int) (startTok, endTok int, ok bool) {
 // the input sequence
 func (e *Encoding) Word2Chars(word int) (retVal []int, ok bool) {
 	start, end, ok := e.Word2Tokens(word)
-	if end == 0 {
+	if !ok {
 		return retVal, false
 	} else {
 		oStart := e.Offsets[start][0]
 		oEnd := e.Offsets[end-1][1]
-		return []int{oStart, oEnd}, true // Should we check whether `ok`?
+		return []int{oStart, oEnd}, true
 	}
 }
 
 // Token2Chars get the offsets of the token at the given index
 func (e *Encoding) Token2Chars(tokenIdx int) (retVal []int, ok bool) {
-	if tokenIdx < 0 || tokenIdx > len(e.Offsets) {
+	if tokenIdx < 0 || tokenIdx >= len(e.Offsets) {
 		return retVal, false
 	} else {
 		return e.Offsets[tokenIdx], true
@@ -312,7 +308,7 @@ func (e *Encoding) Token2Chars(tokenIdx int) (retVal []int, ok bool) {
 func (e *Encoding) Token2Word(tokenIdx int) (retVal int, ok bool) {
 	// naive search. TODO. improve algorithm
 	for i, w := range e.Words {
-		if i == tokenIdx {
+		if i == tokenIdx && w >= 0 {
 			return w, true
 		}
 	}
@@ -682,7 +678,7 @@ func (e *Encoding) pad(targetLength, padId, padTypeId int, padToken string, dire
 
 // Token2Sequence returns the index of the sequence containing the given token.
 func (e *Encoding) Token2Sequence(token int) (int, bool) {
-	if token > e.Len() {
+	if token < 0 || token >= e.Len() {
 		return -1, false
 	} else if len(e.SequenceRanges) == 0 {
 		return 0, true
@@ -700,13 +696,16 @@ func (e *Encoding) Token2Sequence(token int) (int, bool) {
 // SequenceRange returns the range to target to retrieve something (word id, offsets, ...)
 // related to the given sequence id.
 func (e *Encoding) SequenceRange(sequencId int) (Range, error) {
+	if sequencId == 0 && len(e.SequenceRanges) == 0 && e.Len() > 0 {
+		return NewRange(0, e.Len()), nil
+	}
 	r, ok := e.SequenceRanges[sequencId]
 	if !ok {
 		err := fmt.Errorf("input 'sequence_id' is out of range.\n")
 		return nil, err
 	}
 
-	return r[0:e.Len()], nil
+	return r, nil
 }
 
 func getCurrentPart[T any](previous, current []T, size, idx, stride int) []T {
-- 
2.43.0


From f6e3cc1828188fba2c9b91176ffb15c1ef2957cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:47 +0000
Subject: [PATCH 06/96] fix: Bert and Roberta processing lose which sequence a
 token belongs to; Roberta without offset trimming panics

---
 processor/bert.go    | 30 ++++++++++++++++++++++++++----
 processor/roberta.go | 13 +++++++++----
 2 files changed, 35 insertions(+), 8 deletions(-)

diff --git a/processor/bert.go b/processor/bert.go
index 2055035..576ee17 100644
--- a/processor/bert.go
+++ b/processor/bert.go
@@ -2,6 +2,7 @@ package processor
 
 import (
 	"github.com/sugarme/tokenizer"
+	"github.com/sugarme/tokenizer/util"
 )
 
 type PostToken struct {
@@ -89,7 +90,7 @@ func (bp *BertProcessing) addSpecialToken(encoding *tokenizer.Encoding) *tokeniz
 
 	var words []int
 	words = append(words, -1)
-	words = append(words, encoding.GetWords()...)
+	words = append(words, wordsOf(encoding)...)
 	words = append(words, -1)
 
 	var offsets [][]int
@@ -112,7 +113,8 @@ func (bp *BertProcessing) addSpecialToken(encoding *tokenizer.Encoding) *tokeniz
 	}
 
 	wordsOpt := tokenizer.WithWordsEncodingOpt(words)
-	return tokenizer.NewEncoding(ids, typeIds, tokens, offsets, specialTokens, attentionMask, []tokenizer.Encoding{}, wordsOpt)
+	rangesOpt := sequenceRangeOpt(0, 1, encoding.Len())
+	return tokenizer.NewEncoding(ids, typeIds, tokens, offsets, specialTokens, attentionMask, []tokenizer.Encoding{}, wordsOpt, rangesOpt)
 }
 
 // pairAddSpecialToken adds special token "[SEP]" to input encoding. It ignores
@@ -131,7 +133,7 @@ func (bp *BertProcessing) pairAddSpecialToken(pairEncoding *tokenizer.Encoding)
 	pairTokens = append(pairTokens, bp.sep.Value)
 
 	var pairWords []int
-	pairWords = append(pairWords, pairEncoding.GetWords()...)
+	pairWords = append(pairWords, wordsOf(pairEncoding)...)
 	pairWords = append(pairWords, -1)
 
 	var pairOffsets [][]int
@@ -152,5 +154,25 @@ func (bp *BertProcessing) pairAddSpecialToken(pairEncoding *tokenizer.Encoding)
 
 	pairWordsOpt := tokenizer.WithWordsEncodingOpt(pairWords)
 
-	return tokenizer.NewEncoding(pairIds, pairTypeIds, pairTokens, pairOffsets, pairSpecialTokens, pairAttentionMask, []tokenizer.Encoding{}, pairWordsOpt)
+	pairRangesOpt := sequenceRangeOpt(1, 0, pairEncoding.Len())
+	return tokenizer.NewEncoding(pairIds, pairTypeIds, pairTokens, pairOffsets, pairSpecialTokens, pairAttentionMask, []tokenizer.Encoding{}, pairWordsOpt, pairRangesOpt)
+}
+
+// sequenceRangeOpt sets the range of the tokens of the given sequence, starting at `start`.
+func sequenceRangeOpt(sequenceId, start, length int) tokenizer.EncodingOpt {
+	ranges := make(map[int]tokenizer.Range)
+	if length > 0 {
+		ranges[sequenceId] = tokenizer.NewRange(start, start+length)
+	}
+
+	return tokenizer.WithSequenceRangeEncodingOpt(ranges)
+}
+
+// wordsOf returns the word indexes of an encoding, -1 (none) for each token when there are not any.
+func wordsOf(encoding *tokenizer.Encoding) []int {
+	if len(encoding.Words) == 0 {
+		return util.Repeat(-1, encoding.Len())
+	}
+
+	return encoding.Words
 }
diff --git a/processor/roberta.go b/processor/roberta.go
index 1c921b0..cbbbad3 100644
--- a/processor/roberta.go
+++ b/processor/roberta.go
@@ -86,6 +86,9 @@ func (rp *RobertaProcessing) Process(encoding, pairEncoding *tokenizer.Encoding,
 			newPairEncoding.Overflowing = newOverflowPairEncoding
 		}
 
+	} else {
+		newEncoding = encoding
+		newPairEncoding = pairEncoding
 	}
 
 	if !addSpecialTokens {
@@ -145,7 +148,7 @@ func (rp *RobertaProcessing) addSpecialToken(encoding *tokenizer.Encoding) *toke
 
 	var words []int
 	words = append(words, -1)
-	words = append(words, encoding.Words...)
+	words = append(words, wordsOf(encoding)...)
 	words = append(words, -1)
 
 	var offsets [][]int
@@ -168,7 +171,8 @@ func (rp *RobertaProcessing) addSpecialToken(encoding *tokenizer.Encoding) *toke
 	attentionMask = append(attentionMask, 1)
 
 	wordsOpt := tokenizer.WithWordsEncodingOpt(words)
-	return tokenizer.NewEncoding(ids, typeIds, tokens, offsets, specialTokens, attentionMask, []tokenizer.Encoding{}, wordsOpt)
+	rangesOpt := sequenceRangeOpt(0, 1, encoding.Len())
+	return tokenizer.NewEncoding(ids, typeIds, tokens, offsets, specialTokens, attentionMask, []tokenizer.Encoding{}, wordsOpt, rangesOpt)
 }
 
 // addSpecialToken adds special tokens to input pair encoding. It ignores the `Overflowing` field
@@ -193,7 +197,7 @@ func (rp *RobertaProcessing) pairAddSpecialToken(pair *tokenizer.Encoding) *toke
 
 	var pairWords []int
 	pairWords = append(pairWords, -1)
-	pairWords = append(pairWords, pair.Words...)
+	pairWords = append(pairWords, wordsOf(pair)...)
 	pairWords = append(pairWords, -1)
 
 	var pairOffsets [][]int
@@ -216,7 +220,8 @@ func (rp *RobertaProcessing) pairAddSpecialToken(pair *tokenizer.Encoding) *toke
 	pairAttentionMask = append(pairAttentionMask, 1)
 
 	pairWordsOpt := tokenizer.WithWordsEncodingOpt(pairWords)
-	return tokenizer.NewEncoding(pairIds, pairTypeIds, pairTokens, pairOffsets, pairSpecialTokens, pairAttentionMask, []tokenizer.Encoding{}, pairWordsOpt)
+	pairRangesOpt := sequenceRangeOpt(1, 1, pair.Len())
+	return tokenizer.NewEncoding(pairIds, pairTypeIds, pairTokens, pairOffsets, pairSpecialTokens, pairAttentionMask, []tokenizer.Encoding{}, pairWordsOpt, pairRangesOpt)
 }
 
 // TODO: implement Serialize interface for RobertaProcessing
-- 
2.43.0


From 280664b98bdf42cb3bfbeb058c038b0607caaeb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:16 +0000
Subject: [PATCH 07/96] fix: post-processing loses word alignment and sequence
 ranges, and a processor sequence merges the pair once per member

---
 pretokenizer/bytelevel.go |  4 ----
 processor/sequence.go     | 18 +++++++++++++++++-
 processor/template.go     | 15 ++++++++++++++-
 tokenizer.go              | 11 ++++++++++-
 4 files changed, 41 insertions(+), 7 deletions(-)

diff --git a/pretokenizer/bytelevel.go b/pretokenizer/bytelevel.go
index f3e3ff6..4bab947 100644
--- a/pretokenizer/bytelevel.go
+++ b/pretokenizer/bytelevel.go
@@ -286,10 +286,6 @@ func (bl *ByteLevel) Process(encoding, pairEncoding *tokenizer.Encoding, addSpec
 		newEncodings = encodings
 	}
 
-	for i, enc := range newEncodings {
-		enc.SetSequenceIds(i)
-	}
-
 	if pairEncoding != nil {
 		return tokenizer.MergeEncodings(newEncodings, false)
 	} else {
diff --git a/processor/sequence.go b/processor/sequence.go
index cad57cc..044fc8c 100644
--- a/processor/sequence.go
+++ b/processor/sequence.go
@@ -26,8 +26,24 @@ func (seq *Sequence) AddedTokens(isPair bool) (retVal int) {
 func (seq *Sequence) Process(encoding, pairEncoding *tokenizer.Encoding, addSpecialTokens bool) (retVal *tokenizer.Encoding) {
 	// return blp.pretok.Process(encoding, pairEncoding, addSpecialTokens)
 	var encodings *tokenizer.Encoding = encoding
-	for _, p := range seq.processors {
+	for i, p := range seq.processors {
+		if pairEncoding != nil && i < len(seq.processors)-1 && p.AddedTokens(true) == 0 {
+			// nothing to insert between the sequences, process each of them on its own
+			pairTypeIds := pairEncoding.GetTypeIds()
+			encodings = p.Process(encodings, nil, addSpecialTokens)
+			pairEncoding = p.Process(pairEncoding, nil, addSpecialTokens)
+			pairEncoding.SetTypeIds(pairTypeIds)
+			// it is still the second sequence
+			pairEncoding.SequenceRanges = nil
+			for o := range pairEncoding.Overflowing {
+				pairEncoding.Overflowing[o].SequenceRanges = nil
+			}
+			continue
+		}
+
 		encodings = p.Process(encodings, pairEncoding, addSpecialTokens)
+		// the pair is merged from now on
+		pairEncoding = nil
 	}
 
 	return encodings
diff --git a/processor/template.go b/processor/template.go
index a94e1f7..874e171 100644
--- a/processor/template.go
+++ b/processor/template.go
@@ -504,6 +504,13 @@ func (tp *TemplateProcessingBuilder) Build() *TemplateProcessing {
 func (tp *TemplateProcessing) ApplyTemplate(template []Piece, encodings []tokenizer.Encoding, addSpecialTokens bool) []tokenizer.Encoding {
 	var finalEncodings []tokenizer.Encoding
 
+	var hasWords bool = true
+	for _, e := range encodings {
+		if len(e.Words) != e.Len() {
+			hasWords = false
+		}
+	}
+
 	for _, piece := range template {
 		typ := getType(piece)
 
@@ -542,7 +549,13 @@ func (tp *TemplateProcessing) ApplyTemplate(template []Piece, encodings []tokeni
 				specialTokenMask := util.Repeat(1, length)
 				attentionMask := util.Repeat(1, length)
 				var overflowing []tokenizer.Encoding = nil
-				encoding := tokenizer.NewEncoding(ids, typeIds, tokens, offsets, specialTokenMask, attentionMask, overflowing)
+				// NOTE. `Words` is optional, follow what the input encodings do
+				var words []int
+				if hasWords {
+					words = util.Repeat(-1, length)
+				}
+				wordsOpt := tokenizer.WithWordsEncodingOpt(words)
+				encoding := tokenizer.NewEncoding(ids, typeIds, tokens, offsets, specialTokenMask, attentionMask, overflowing, wordsOpt)
 
 				finalEncodings = append(finalEncodings, *encoding)
 			}
diff --git a/tokenizer.go b/tokenizer.go
index 38f9bf1..51c9809 100644
--- a/tokenizer.go
+++ b/tokenizer.go
@@ -80,7 +80,7 @@ func DefaultProcess(encoding, pairEncoding *Encoding, addSpecialTokens bool) *En
 	}
 
 	if pairEncoding != nil {
-		return encoding.MergeWith(pairEncoding, false)
+		return MergeEncodings(PrepareEncodings(encoding, pairEncoding), false)
 	}
 
 	return encoding
@@ -93,9 +93,18 @@ func PrepareEncodings(encoding, pairEncoding *Encoding) (out []Encoding) {
 		encodings = append(encodings, *pairEncoding)
 	}
 	for i, encoding := range encodings {
+		// already made of sequences, leave them as they are
+		if len(encoding.SequenceRanges) > 0 {
+			out = append(out, encoding)
+			continue
+		}
+
+		// NOTE. never write into a map shared with the input encodings
+		encoding.SequenceRanges = make(map[int]Range)
 		encoding.SetSequenceIds(i)
 		var overflowing []Encoding
 		for _, e := range encoding.GetOverflowing() {
+			e.SequenceRanges = make(map[int]Range)
 			e.SetSequenceIds(i)
 			overflowing = append(overflowing, e)
 		}
-- 
2.43.0


From 4e8e9c830eaa04c692d0ec9761235c2a927a1956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:57 +0000
Subject: [PATCH 08/96] fix: right padding writes into arrays shared with other
 encodings

---
 encoding.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/encoding.go b/encoding.go
index 33bf373..4092213 100644
--- a/encoding.go
+++ b/encoding.go
@@ -662,6 +662,14 @@ func (e *Encoding) pad(targetLength, padId, padTypeId int, padToken string, dire
 		}
 
 	case Right:
+		// NOTE. never append into a backing array shared with another encoding
+		e.Ids = util.Merge(e.Ids, nil)
+		e.TypeIds = util.Merge(e.TypeIds, nil)
+		e.Tokens = util.Merge(e.Tokens, nil)
+		e.SpecialTokenMask = util.Merge(e.SpecialTokenMask, nil)
+		e.AttentionMask = util.Merge(e.AttentionMask, nil)
+		e.Offsets = util.Merge(e.Offsets, nil)
+		e.Words = util.Merge(e.Words, nil)
 		for i := 0; i < padLength; i++ {
 			e.Ids = append(e.Ids, padId)
 			e.TypeIds = append(e.TypeIds, padTypeId)
-- 
2.43.0


From f29fa35f0841ac8263b44c417cdafcc9130b94c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:24 +0000
Subject: [PATCH 09/96] fix: PrepareEncodings shares ranges of already
 processed encodings

---
 tokenizer.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tokenizer.go b/tokenizer.go
index 51c9809..3b0078e 100644
--- a/tokenizer.go
+++ b/tokenizer.go
@@ -95,6 +95,11 @@ func PrepareEncodings(encoding, pairEncoding *Encoding) (out []Encoding) {
 	for i, encoding := range encodings {
 		// already made of sequences, leave them as they are
 		if len(encoding.SequenceRanges) > 0 {
+			ranges := make(map[int]Range)
+			for seqId, r := range encoding.SequenceRanges {
+				ranges[seqId] = r
+			}
+			encoding.SequenceRanges = ranges
 			out = append(out, encoding)
 			continue
 		}
-- 
2.43.0


From a633c1fa49ce8f77d2f78404fa53f1cef4c2b52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:30 +0000
Subject: [PATCH 10/96] fix: TransformRange corrupts alignments: recompute the
 original alignments from the normalized ones

---
 normalizer/normalized.go | 412 ++++++---------------------------------
 1 file changed, 62 insertions(+), 350 deletions(-)

diff --git a/normalizer/normalized.go b/normalizer/normalized.go
index e1a4212..d1bdfb5 100644
--- a/normalizer/normalized.go
+++ b/normalizer/normalized.go
@@ -7,7 +7,6 @@ import (
 	"unicode"
 	"unicode/utf8"
 
-	"github.com/sugarme/tokenizer/util"
 	slice "github.com/sugarme/tokenizer/util/slice"
 
 	"golang.org/x/text/unicode/norm"
@@ -439,14 +438,7 @@ type ChangeMap struct {
 // of removed chars at the very beginning.
 func (n *NormalizedString) TransformRange(inputRange *Range, changeMap []ChangeMap, initialOffset int) (retVal *NormalizedString) {
 
-	// fmt.Printf("normalized: %+v\n", n)
-	// fmt.Printf("inputRange: %v\n", inputRange)
-
-	// I. Update `original` alignments based on `initialOffset`.
-	// If `initialOffset` > 0, there are some chars being replaced.
-
-	// I.1. Determine range on `original` string and `normalized` string
-	// based on `inputRange`
+	// I. Determine the range to replace on the `normalized` string
 	var nRange *Range
 	switch inputRange.indexOn {
 	case NormalizedTarget:
@@ -460,371 +452,91 @@ func (n *NormalizedString) TransformRange(inputRange *Range, changeMap []ChangeM
 		nRange.end = len(n.alignments)
 	}
 
-	// fmt.Printf("nRange: %v\n", nRange)
-
-	// I.2. Get removed chars to a slice (`removedChars`); number of removed
-	// bytes (`initialRemoved`); and update original alignments (`n.alignmensOriginal`)
-
-	// log.Printf("===== TransformRange call (initial offset: %v) ====\n", initialOffset)
-	// Retrieve the original characters that are being replaced. This let us
-	// compute the change in byte sizes along the way.
-	nBytes := []byte(n.normalized)[nRange.start:nRange.end]
-	replacedNormalized := util.NewRuneIter(bytes.Runes(nBytes))
-	/*
-	 *   fmt.Printf("replaceddNoramlized len: %v\n", replacedNormalized.Len())
-	 *   fmt.Printf("replacedNormalized: %+q\n", func(it *util.RuneIter) []string {
-	 *     var chars []string
-	 *     for {
-	 *       r, ok := it.Next()
-	 *       if !ok {
-	 *         break
-	 *       }
-	 *       chars = append(chars, string(r))
-	 *     }
-	 *     return chars
-	 *   }(replacedNormalized))
-	 *  */
-	replacedNormalized.Reset()
-
-	// Handle the initial offset in the original alignment. All the characters
-	// that were removed from the normalized one should have their width reduced
-	// by the number of bytes we remove
-	endShiftStart := nRange.end
-	initialRemoved := 0
-	if initialOffset > 0 {
-		// log.Printf("=> Clearing alignment for %v chars\n", initialOffset)
-		removedBytes := 0
-		var removedChars []rune
-		for i := 0; i < initialOffset; i++ {
-			c, ok := replacedNormalized.Next()
-			if !ok {
-				// We want to panic here, because the NormalizedString is in
-				// a bad state if this happens. We already modified a lot of things
-				log.Fatalf("1. Expected to remove %v characters but couldn't find them ...\n", initialOffset)
-			}
-			removedBytes += len([]byte(string(c)))
-			removedChars = append(removedChars, c)
-		}
-		initialRemoved = removedBytes
-		offset := nRange.start
-		oShift := 0
-		// Then we remove all these chars, updating the alignments along the way
-		for _, c := range removedChars {
-			removedORange := expandAlignments(n.alignments[offset : offset+len(string(c))])
-			offset += len(string(c))
-			oShift += len(string(c))
-			alignments := n.alignmentsOriginal[removedORange[0]:removedORange[1]]
-			// log.Printf("Clearing alignments for char: %q - alignments: %+v\n", c, alignments)
-			// 1. Get new alignments
-			var newAlignments [][]int
-			for _, offsets := range alignments {
-				// At the very end we will apply the global shift to the remaining
-				// original offsets. We should start after these to avoid doing it twice
-				if offsets[1] > endShiftStart {
-					endShiftStart = offsets[1]
-				}
-
-				offsets[1] = applySign(offsets[1], -(oShift))
-				// Make sure the starting offset is always smaller or equal to the end
-				if offsets[0] > offsets[1] {
-					offsets[0] = offsets[1]
-				}
-
-				newAlignments = append(newAlignments, offsets)
+	// II. Apply the changes, giving each new `char` its alignment.
+	// `offset` is the position of the next char to replace.
+	replaced := []rune(n.normalized[nRange.start:nRange.end])
+	offset := nRange.start
+	// skip moves past the given number of chars to replace
+	skip := func(nChars int) bool {
+		for i := 0; i < nChars; i++ {
+			if len(replaced) == 0 {
+				return false
 			}
-			// 2. Update alignmentOriginal with new alignments in `removedORange` range
-			var aligns [][]int = append(n.alignmentsOriginal[:removedORange[0]], newAlignments...)
-			aligns = append(aligns, n.alignmentsOriginal[removedORange[1]:]...)
-			n.alignmentsOriginal = aligns
-
-			// log.Printf("Cleared: %+v\n", alignments)
+			offset += len(string(replaced[0]))
+			replaced = replaced[1:]
 		}
-	} // end `If` block
-
-	// II.	Do the transformation based on input `changeMap`.
-	// 1. 	Update alignments on normalized string(`n.alignments`) and original
-	// 			string (`n.alignmentsOriginal`);
-	// 2. 	collect transformed `chars` to a string
-	// 			variable (`normalized`)
+		return true
+	}
 
-	// oShift is the shift to be applied to all original alignments along the way
-	// NOTE. `oShift` and `offset` here are different from ones inside previous block
-	oShift := -(initialRemoved)
-	offset := initialRemoved + nRange.start
-	var normalizedAlignments [][]int
+	if initialOffset > 0 && !skip(initialOffset) {
+		log.Fatalf("1. Expected to remove %v characters but couldn't find them ...\n", initialOffset)
+	}
 
-	// log.Printf("Applying transformations...\n")
 	var (
-		normalizedRunes []rune
+		newNormalized string
+		newAlignments [][]int
 	)
-
-	replacedNormalized.Reset() // make sure iterating from begining
 	for _, item := range changeMap {
-		/*
-		 *     var changeType string
-		 *     switch {
-		 *     case item.Changes == 0:
-		 *       changeType = "Replacing"
-		 *     case item.Changes > 0:
-		 *       changeType = "Adding"
-		 *     case item.Changes < 0:
-		 *       changeType = fmt.Sprintf("Replacing + Removing %v following chars", item.Changes)
-		 *     default:
-		 *       changeType = "Undefined"
-		 *     }
-		 *     // log.Printf("### %+q with size %v : %v with offset %v ###\n", item.RuneVal, len(item.RuneVal), changeType, offset)
-		 *     // log.Printf("### '%v' with size %v : %v with offset %v ###\n", item.RuneVal, len(item.RuneVal), changeType, offset)
-		 *     fmt.Printf("'%v' - changes: %v\n", item.RuneVal, item.Changes)
-		 *  */
-		idx := offset
-		// fmt.Printf("idx: %v\n", idx)
-		var align []int
-		if item.Changes > 0 {
-			if idx < 1 {
-				align = []int{0, 0}
-			} else {
-				// This is a newly inserted character, so it shares the same alignment
-				// as the previous one
-				align = n.alignments[idx-1]
-			}
-		} else {
-			if idx >= len(n.alignments) {
-				align = n.alignments[len(n.alignments)-1]
-			} else {
-				align = n.alignments[idx]
+		align := []int{0, 0}
+		switch {
+		case item.Changes > 0:
+			// This is a newly inserted character, so it shares the same alignment
+			// as the previous one
+			if offset > 0 {
+				align = n.alignments[offset-1]
 			}
+		case offset < len(n.alignments):
+			align = n.alignments[offset]
+		case len(n.alignments) > 0:
+			align = n.alignments[len(n.alignments)-1]
 		}
 
-		// If we are replacing a character, find it and compute the change in size
-		var replacedChar rune
+		// The replaced char and the ones removed right after it
 		if item.Changes <= 0 {
-			replacedChar, _ = replacedNormalized.Next()
-		} else {
-			replacedChar = 0 // nil rune value
-		}
-		replacedCharSize := 0
-		if replacedChar > 0 {
-			replacedCharSize = len([]byte(string(replacedChar)))
-		}
-		replacedCharSizeChange := len(item.RuneVal) - replacedCharSize
-		if replacedChar > 0 {
-			// log.Printf("Replacing char: '%v' - with a change in size: %v", string(replacedChar), replacedCharSizeChange)
-		}
-
-		// If we are removing some characters, find them too
-		var nChanges int = 0
-		if item.Changes < 0 {
-			nChanges = -item.Changes
-		}
-
-		var (
-			removedChars       []rune
-			totalBytesToRemove int
-		)
-		for i := 0; i < nChanges; i++ {
-			c, ok := replacedNormalized.Next()
-			if !ok {
-				// We want to panic here, because the NormalizedString is in
-				// a bad state if this happens. We already modified a lot of things
-				// log.Fatalf("2. Expected to remove %v characters but couldn't find them ...\n", nChanges)
-			}
-			removedChars = append(removedChars, c)
-			totalBytesToRemove += len(string(c))
-		}
-		// fmt.Printf("removedChars: %+q\n", string(removedChars))
-		// log.Printf("Total bytes to remove: %v\n", totalBytesToRemove)
-
-		// If we are removing characters, there are two possible scenarios:
-		//   1. We remove characters that are part of the original string (most likely)
-		//   2. We remove characters that were previously added (with NFD for example)
-		//      and are just part of the normalized string
-
-		var removingFromOriginal, removingFromNormalized int = 0, 0
-		// Guard: idx may equal len(n.alignments) when removals fall at the very end of the string.
-		if totalBytesToRemove > 0 && idx < len(n.alignments) {
-			start := n.alignments[idx][1]
-			// Bounds check to prevent index out of range panic
-			endIdx := idx + totalBytesToRemove
-			if endIdx >= len(n.alignments) {
-				endIdx = len(n.alignments) - 1
-			}
-			end := n.alignments[endIdx][1]
-			originalRange := util.MakeRange(start, end)
-			// fmt.Printf("start: %v - end: %v; range: (%+v)\n", start, end, originalRange)
-			removingFromOriginal = len(originalRange)
-			removingFromNormalized = totalBytesToRemove - len(originalRange)
-
-			// log.Printf("Bytes to remove from original alignments: %v\n", removingFromOriginal)
-			// log.Printf("Bytes to remove from normalized alignments: %v\n", removingFromNormalized)
+			skip(1 - item.Changes)
 		}
 
-		// Update the original alignments for the **current** `char`
-		// fmt.Printf("align: %v\n", align)
-		// fmt.Printf("current alignmentsOriginal: %+v\n", n.alignmentsOriginal)
-		alignments := n.alignmentsOriginal[align[0]:align[1]]
-		// fmt.Printf("alignments: %+v\n", alignments)
-		if len(alignments) > 0 {
-			// log.Printf("Updating original alignments: %+v\n", alignments)
-
-			// Let's compute the actual change in size for the original alignment.
-			// This value may be different than `replacedCharSizeChange` because the
-			// char might not exist in the original string. It might have been added.
-			originalRange := expandAlignments(alignments)
-
-			replacedCharSizeChangeOriginal := len(item.RuneVal) - (originalRange[1] - originalRange[0])
-			// log.Printf("Change in size for the current char: %v\n", replacedCharSizeChange)
-			// log.Printf("Change in size in the original alignment for the current char: %v\n", replacedCharSizeChangeOriginal)
-
-			var newAlignments [][]int
-			for _, offsets := range alignments {
-				var newAlign []int = make([]int, 2)
-
-				// A new char is being added, we need to extend the current
-				// alignment. No need to apply the shift in this case as it
-				// should have been applied already (with a previous changes == 0).
-				if item.Changes > 0 {
-					newAlign[0] = offsets[0]
-					newAlign[1] = offsets[1] + len(item.RuneVal)
-				} else {
-					// Otherwise we just apply the shift
-					newAlign[0] = offsets[0]
-					newAlign[1] = applySign(offsets[1], replacedCharSizeChange)
-					newAlign[1] = applySign(newAlign[1], -(removingFromNormalized))
-
-					// NOTE: We only apply oShift if we are:
-					// - Removing characters
-					// - Replacing one, that has the same size in both normalized and
-					//   original alignments.
-					// Otherwise it means we are modifying multiple times the same
-					// original character. This happens when normalized characters
-					// are added (not part of the original), and then replaced.
-					if item.Changes < 0 || replacedCharSizeChange == replacedCharSizeChangeOriginal {
-						newAlign[0] = applySign(newAlign[0], oShift)
-						newAlign[1] = applySign(newAlign[1], oShift)
-					}
-				}
-
-				newAlignments = append(newAlignments, newAlign)
-			}
-
-			// Now, update original alignments for current `char` with new alignments
-			// fmt.Printf("newAlignments: %+v\n", newAlignments)
-			var aligns [][]int
-			if align[0] == 0 {
-				aligns = append(newAlignments, n.alignmentsOriginal[align[1]:]...)
-			} else {
-				aligns = append(n.alignmentsOriginal[:align[0]], newAlignments...)
-				aligns = append(aligns, n.alignmentsOriginal[align[1]:]...)
-			}
-			n.alignmentsOriginal = aligns
-			// log.Printf("Updated to: %+v\n", newAlignments)
-			// fmt.Printf("current n.alignmentsOriginal: %+v\n", n.alignmentsOriginal)
-		}
-
-		// If some were removed, we need to zero them out in the original alignments
-		if removingFromOriginal > 0 {
-			start := n.alignments[idx][1]
-			end := n.alignments[idx+totalBytesToRemove][1]
-			// They should use the original alignment of the current character
-			newIdx := n.alignmentsOriginal[align[0]][1]
-			alignments := n.alignmentsOriginal[start:end]
-			var newAlignments [][]int
-			if len(alignments) > 0 {
-				// log.Printf("Removing original alignments: %v\n", alignments)
-				for _, offsets := range alignments {
-					offsets[0] = newIdx
-					offsets[1] = newIdx
-					newAlignments = append(newAlignments, offsets)
-				}
-
-				aligns := append(n.alignmentsOriginal[:start], newAlignments...)
-				aligns = append(aligns, n.alignmentsOriginal[end:]...)
-				n.alignmentsOriginal = aligns
-			}
-		}
-
-		// Keep track of the changes for next offsets
-		offset += replacedCharSize
-		offset += totalBytesToRemove
-		// For the original only the real modifications count
-		oShift += replacedCharSizeChange
-		oShift -= totalBytesToRemove
-		// log.Printf("New normalized alignment: %vx %v\n", len(item.RuneVal), align)
-
+		newNormalized += item.RuneVal
 		for i := 0; i < len(item.RuneVal); i++ {
-			normalizedAlignments = append(normalizedAlignments, align)
+			newAlignments = append(newAlignments, []int{align[0], align[1]})
 		}
+	}
 
-		// Then we keep only the char for string reconstruction
-		normalizedRunes = append(normalizedRunes, []rune(item.RuneVal)...)
-
-		// fmt.Printf("replacedCharSize: %v\n", replacedCharSize)
-		// fmt.Printf("totalBytesToRemove: %v\n", totalBytesToRemove)
-		// fmt.Printf("next offset: %v\n", offset)
+	// III. Put the new chars and their alignments in place of the replaced ones
+	var alignments [][]int
+	alignments = append(alignments, n.alignments[:nRange.start]...)
+	alignments = append(alignments, newAlignments...)
+	alignments = append(alignments, n.alignments[nRange.end:]...)
 
-	} // End of `For` block
+	n.normalized = n.normalized[:nRange.start] + newNormalized + n.normalized[nRange.end:]
+	n.alignments = alignments
+	n.alignmentsOriginal = invertAlignments(alignments, n.LenOriginal())
 
-	// Apply the changes to the remaining original alignments
-	if oShift != 0 {
-		// log.Printf("Shifting the end  from %v using shift: %v\n", endShiftStart, oShift)
+	return n
+}
 
-		var endShift [][]int
-		for _, item := range n.alignments[endShiftStart:] {
-			endShift = append(endShift, item)
+// invertAlignments computes the alignments of the original bytes from those of
+// the normalized bytes: each original byte maps to the normalized bytes that are
+// aligned with it, or to the empty span where they would be when there are none.
+func invertAlignments(alignments [][]int, lenOriginal int) [][]int {
+	var (
+		inverted   [][]int
+		start, end int
+	)
+	for pos := 0; pos < lenOriginal; pos++ {
+		for start < len(alignments) && alignments[start][1] <= pos {
+			start++
 		}
-		endRange := expandAlignments(endShift)
-
-		// log.Printf("End range: %+v\n", endRange)
-
-		if endRange != nil {
-			alignments := n.alignmentsOriginal[endRange[0]:endRange[1]]
-			var newAlignments [][]int
-			if len(alignments) > 0 {
-				// log.Printf("Alignments before shifting: %+v\n", alignments)
-				for _, offsets := range alignments {
-					newOffset0 := applySign(offsets[0], oShift)
-					newOffset1 := applySign(offsets[1], oShift)
-					newAlignments = append(newAlignments, []int{newOffset0, newOffset1})
-				}
-				aligns := append(n.alignmentsOriginal[:endRange[0]], newAlignments...)
-				aligns = append(aligns, n.alignmentsOriginal[endRange[1]:]...)
-				n.alignmentsOriginal = aligns
-				// log.Printf("After: %+v\n", newAlignments)
-			}
+		if end < start {
+			end = start
 		}
-	}
-
-	// replace alignments with new ones in range
-	var newAlignments [][]int
-	// fmt.Printf("nRange: %v\n", nRange)
-	// fmt.Printf("normalizedAlignments: %+v\n", normalizedAlignments)
-	// fmt.Printf("alignments to be replaced: %v\n", n.alignments[nRange.start:nRange.end])
-	// fmt.Printf("normalized alignments before action: %v\n", n.alignments)
-	if len(n.alignments[:nRange.start]) == 0 { // at the beginning
-		newAlignments = append(normalizedAlignments, n.alignments[nRange.end:]...)
-	} else { // in the middle
-		var beforeAligns, afterAligns [][]int
-		for i, a := range n.alignments {
-			if i < nRange.start {
-				beforeAligns = append(beforeAligns, a)
-			}
-			if i >= nRange.end {
-				afterAligns = append(afterAligns, a)
-			}
+		for end < len(alignments) && alignments[end][0] <= pos {
+			end++
 		}
-		newAlignments = append(beforeAligns, normalizedAlignments...)
-		newAlignments = append(newAlignments, afterAligns...)
+		inverted = append(inverted, []int{start, end})
 	}
-	n.alignments = newAlignments
 
-	// Finally, change the `normalized` string
-	newNormalized := n.normalized[:nRange.start] + string(normalizedRunes) + n.normalized[nRange.end:]
-	n.normalized = newNormalized
-
-	// log.Printf("New normalized alignments: %+v\nNew original alignments: %+v\n", n.alignments, n.alignmentsOriginal)
-	// log.Printf("New normalized string: %q\n", n.normalized)
-
-	return n
+	return inverted
 }
 
 // Transform applies transformations to the current normalized version, updating the current
-- 
2.43.0


From 73492ab6c7c6dcd9f3fb322048b3c8fe4d87efd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:47 +0000
Subject: [PATCH 11/96] fix: case changes, Map, ForEach, Clear and Transform of
 a whole string leave alignments or the function out

---
 normalizer/normalized.go | 27 ++++++---------------------
 1 file changed, 6 insertions(+), 21 deletions(-)

diff --git a/normalizer/normalized.go b/normalizer/normalized.go
index d1bdfb5..56994f6 100644
--- a/normalizer/normalized.go
+++ b/normalizer/normalized.go
@@ -3,7 +3,6 @@ package normalizer
 import (
 	"bytes"
 	"log"
-	"strings"
 	"unicode"
 	"unicode/utf8"
 
@@ -569,9 +568,7 @@ func invertAlignments(alignments [][]int, lenOriginal int) [][]int {
 // {5, 6},
 // {6, 7},
 func (n *NormalizedString) Transform(m []ChangeMap, initialOffset int) (retVal *NormalizedString) {
-	start := 0
-	end := len(n.original)
-	wholeRange := NewRange(start, end, OriginalTarget)
+	wholeRange := NewRange(0, n.Len(), NormalizedTarget)
 	return n.TransformRange(wholeRange, m, initialOffset)
 }
 
@@ -836,7 +833,7 @@ func (n *NormalizedString) Map(nfn NormFn) (retVal *NormalizedString) {
 	s := n.normalized
 	var changeMap []ChangeMap
 	for _, r := range []rune(s) {
-		changeMap = append(changeMap, ChangeMap{string(r), 0})
+		changeMap = append(changeMap, ChangeMap{string(nfn(r)), 0})
 	}
 
 	return n.Transform(changeMap, 0)
@@ -845,14 +842,7 @@ func (n *NormalizedString) Map(nfn NormFn) (retVal *NormalizedString) {
 // ForEach applies function on each `char` of normalized string
 // Similar to Map???
 func (n *NormalizedString) ForEach(nfn NormFn) (retVal *NormalizedString) {
-	s := n.normalized
-	var runes []rune
-	for _, r := range []rune(s) {
-		runes = append(runes, nfn(r))
-	}
-	n.normalized = string(runes)
-
-	return n
+	return n.Map(nfn)
 }
 
 // RemoveAccents removes all Unicode Mn group (M non-spacing)
@@ -864,22 +854,17 @@ func (n *NormalizedString) RemoveAccents() (retVal *NormalizedString) {
 
 // Lowercase transforms string to lowercase
 func (n *NormalizedString) Lowercase() (retVal *NormalizedString) {
-	n.normalized = strings.ToLower(n.normalized)
-
-	return n
+	return n.Map(unicode.ToLower)
 }
 
 // Uppercase transforms string to uppercase
 func (n *NormalizedString) Uppercase() (retVal *NormalizedString) {
-	n.normalized = strings.ToUpper(n.normalized)
-
-	return n
+	return n.Map(unicode.ToUpper)
 }
 
 // Clear clears the normalized part of the string
 func (n *NormalizedString) Clear() {
-	length := n.Len()
-	n.Transform([]ChangeMap{}, length)
+	n.Transform([]ChangeMap{}, utf8.RuneCountInString(n.normalized))
 }
 
 // Split the current string in many subparts. Specify what to do with the
-- 
2.43.0


From f061bd1bdd4a32b19569db2fa02893547225b8d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:24 +0000
Subject: [PATCH 12/96] fix: NFC/NFKC do not compose, NFD/NFKD misalign
 decomposed text, NFKD returns nil for normal text

---
 normalizer/normalized.go | 177 ++++++++-------------------------------
 1 file changed, 37 insertions(+), 140 deletions(-)

diff --git a/normalizer/normalized.go b/normalizer/normalized.go
index 56994f6..2ed4862 100644
--- a/normalizer/normalized.go
+++ b/normalizer/normalized.go
@@ -1,7 +1,6 @@
 package normalizer
 
 import (
-	"bytes"
 	"log"
 	"unicode"
 	"unicode/utf8"
@@ -572,162 +571,60 @@ func (n *NormalizedString) Transform(m []ChangeMap, initialOffset int) (retVal *
 	return n.TransformRange(wholeRange, m, initialOffset)
 }
 
-func (n *NormalizedString) NFD() (retVal *NormalizedString) {
+// applyForm transforms the normalized string to the given Unicode normal form,
+// one segment (a starter and the chars that may combine with it) at a time.
+//
+// Within a segment, each new char replaces the old one at the same position. When
+// there are more new chars than old ones, the rest is added (changes = 1). When
+// there are fewer, the last new char is right before the removed ones (changes = -N).
+func (n *NormalizedString) applyForm(form norm.Form) (retVal *NormalizedString) {
+	var changeMap []ChangeMap
 
-	s := n.normalized
-	var (
-		changeMap []ChangeMap
-		it        norm.Iter
-	)
-	// Create slice of (char, changes) to map changing
-	// if added (inserted) rune, changes = 1; `-N` if char
-	// right before N removed chars
-	// changes = 0 if this represents the old one (even if changed)
-
-	// Iterating over string and apply tranformer (NFD). One character at a time
-	// A `character` is defined as:
-	// - a sequence of runes that starts with a starter,
-	// - a rune that does not modify or combine backwards with any other rune,
-	// - followed by possibly empty sequence of non-starters, that is, runes that do (typically accents).
-	// We will iterate over string and apply transformer to each char
-	// If a char composes of one rune, there no changes
-	// If more than one rune, first is no change, the rest is 1 changes
-	it.InitString(norm.NFD, s)
-	for !it.Done() {
-		// runes := []rune(string(it.Next()))
-		runes := bytes.Runes(it.Next())
+	for text := n.normalized; text != ""; {
+		_, end := utf8.DecodeRuneInString(text)
+		for end < len(text) && !form.PropertiesString(text[end:]).BoundaryBefore() {
+			_, size := utf8.DecodeRuneInString(text[end:])
+			end += size
+		}
+		runes := []rune(form.String(text[:end]))
+		replaced := utf8.RuneCountInString(text[:end])
+		text = text[end:]
 
 		for i, r := range runes {
-			switch i := i; {
-			case i == 0:
-				changeMap = append(changeMap, ChangeMap{
-					RuneVal: string(r),
-					Changes: 0,
-				})
-			case i > 0:
-				changeMap = append(changeMap, ChangeMap{
-					RuneVal: string(r),
-					Changes: 1,
-				})
+			changes := 0
+			if i >= replaced {
+				changes = 1
+			} else if i == len(runes)-1 {
+				changes = len(runes) - replaced
 			}
+			changeMap = append(changeMap, ChangeMap{
+				RuneVal: string(r),
+				Changes: changes,
+			})
 		}
 	}
 
-	// for i, c := range changeMap {
-	// fmt.Printf("%v - Char: %+q - changes: %v\n", i, c.RuneVal, c.Changes)
-	// }
-
 	return n.Transform(changeMap, 0)
 }
 
-func (n *NormalizedString) NFC() (retVal *NormalizedString) {
-	var (
-		changeMap []ChangeMap
-		it        norm.Iter
-	)
-
-	s := n.normalized
-
-	isNFC := norm.Form.IsNormalString(norm.NFC, s)
-	if isNFC {
-		return n
-	}
-
-	it.InitString(norm.NFD, s)
-
-	for !it.Done() {
-		// runes := []rune(string(it.Next()))
-		runes := bytes.Runes(it.Next())
-
-		for i, r := range runes {
-			switch i := i; {
-			case i == 0:
-				changeMap = append(changeMap, ChangeMap{
-					RuneVal: string(r),
-					Changes: 0,
-				})
-			case i > 0:
-				changeMap = append(changeMap, ChangeMap{
-					RuneVal: string(r),
-					Changes: 1,
-				})
-			}
-		}
-	}
+// NFD applies canonical decomposition
+func (n *NormalizedString) NFD() (retVal *NormalizedString) {
+	return n.applyForm(norm.NFD)
+}
 
-	return n.Transform(changeMap, 0)
+// NFC applies canonical decomposition followed by canonical composition
+func (n *NormalizedString) NFC() (retVal *NormalizedString) {
+	return n.applyForm(norm.NFC)
 }
 
+// NFKD applies compatibility decomposition
 func (n *NormalizedString) NFKD() (retVal *NormalizedString) {
-
-	s := n.normalized
-	isNFKD := norm.Form.IsNormalString(norm.NFKD, s)
-	if isNFKD {
-		return
-	}
-
-	var (
-		changeMap []ChangeMap
-		it        norm.Iter
-	)
-
-	it.InitString(norm.NFKD, s)
-	for !it.Done() {
-		runes := []rune(string(it.Next()))
-
-		for i, r := range runes {
-			switch i := i; {
-			case i == 0:
-				changeMap = append(changeMap, ChangeMap{
-					RuneVal: string(r),
-					Changes: 0,
-				})
-			case i > 0:
-				changeMap = append(changeMap, ChangeMap{
-					RuneVal: string(r),
-					Changes: 1,
-				})
-			}
-		}
-	}
-
-	return n.Transform(changeMap, 0)
+	return n.applyForm(norm.NFKD)
 }
 
+// NFKC applies compatibility decomposition followed by canonical composition
 func (n *NormalizedString) NFKC() (retVal *NormalizedString) {
-
-	var (
-		changeMap []ChangeMap
-		it        norm.Iter
-	)
-
-	s := n.normalized
-
-	isNFKC := norm.Form.IsNormalString(norm.NFKC, s)
-
-	if isNFKC {
-		return n
-	}
-
-	it.InitString(norm.NFKD, n.normalized)
-
-	for !it.Done() {
-		runes := []rune(string(it.Next()))
-
-		if len(runes) == 1 {
-			changeMap = append(changeMap, ChangeMap{
-				RuneVal: string(runes),
-				Changes: 0,
-			})
-		} else if len(runes) > 1 {
-			changeMap = append(changeMap, ChangeMap{
-				RuneVal: string(runes),
-				Changes: -1,
-			})
-		}
-	}
-
-	return n.Transform(changeMap, 0)
+	return n.applyForm(norm.NFKC)
 }
 
 // Filter applies filtering on NormalizedString
-- 
2.43.0


From 321866837dda45d3661476c8a57d501f00ab5f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:10 +0000
Subject: [PATCH 13/96] fix: Bert cleaning keeps tabs and precomposed accents,
 Prepend returns nil for empty text, NewNormalizer ignores its options

---
 normalizer/bert.go       | 9 +++++----
 normalizer/normalized.go | 2 +-
 normalizer/normalizer.go | 7 +++----
 normalizer/prepend.go    | 2 +-
 4 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/normalizer/bert.go b/normalizer/bert.go
index 7adce5e..894aaf7 100644
--- a/normalizer/bert.go
+++ b/normalizer/bert.go
@@ -125,10 +125,10 @@ func doCleanText(n *NormalizedString) *NormalizedString {
 		if r == 0 || r == 0xfffd || isControl(r) {
 			removed += 1
 		} else {
+			if isWhitespace(r) {
+				r = ' '
+			}
 			if removed > 0 {
-				if isWhitespace(r) {
-					r = ' '
-				}
 				changeMap = append(changeMap, ChangeMap{
 					RuneVal: string(r),
 					Changes: -removed,
@@ -185,7 +185,8 @@ func doLowercase(n *NormalizedString) *NormalizedString {
 }
 
 func stripAccents(n *NormalizedString) *NormalizedString {
-	return n.RemoveAccents()
+	// accents of precomposed characters have to be taken apart first
+	return n.NFD().RemoveAccents()
 }
 
 // Normalize implements Normalizer interface for BertNormalizer
diff --git a/normalizer/normalized.go b/normalizer/normalized.go
index 2ed4862..1bacbe2 100644
--- a/normalizer/normalized.go
+++ b/normalizer/normalized.go
@@ -679,7 +679,7 @@ func (n *NormalizedString) Filter(fn func(rune) bool) (retVal *NormalizedString)
 func (n *NormalizedString) Prepend(s string) (retVal *NormalizedString) {
 	chars := []rune(n.normalized)
 	var changeMap []ChangeMap
-	if len(chars) == 0 {
+	if len(chars) == 0 || len(s) == 0 {
 		return n
 	}
 
diff --git a/normalizer/normalizer.go b/normalizer/normalizer.go
index 9438fc8..eca9ade 100644
--- a/normalizer/normalizer.go
+++ b/normalizer/normalizer.go
@@ -23,8 +23,7 @@ func newNormalizer(opts ...DefaultOption) *normalizer {
 }
 
 func (n *normalizer) Normalize(normalized *NormalizedString) (*NormalizedString, error) {
-
-	return normalized, nil
+	return n.Normalizer.Normalize(normalized)
 }
 
 type Option func(*normalizer)
@@ -32,14 +31,14 @@ type Option func(*normalizer)
 // WithBertNormalizer creates normalizer with BERT normalization features.
 func WithBertNormalizer(cleanText, lowercase, handleChineseChars, stripAccents bool) Option {
 	return func(o *normalizer) {
-		NewBertNormalizer(cleanText, lowercase, handleChineseChars, stripAccents)
+		o.Normalizer = NewBertNormalizer(cleanText, lowercase, handleChineseChars, stripAccents)
 	}
 }
 
 // WithUnicodeNormalizer creates normalizer with one of unicode NFD, NFC, NFKD, or NFKC normalization feature.
 func WithUnicodeNormalizer(form norm.Form) Option {
 	return func(o *normalizer) {
-		NewUnicodeNormalizer(form)
+		o.Normalizer = NewUnicodeNormalizer(form)
 	}
 
 }
diff --git a/normalizer/prepend.go b/normalizer/prepend.go
index 9fef305..88dc61a 100644
--- a/normalizer/prepend.go
+++ b/normalizer/prepend.go
@@ -12,7 +12,7 @@ func NewPrepend(prepend string) *Prepend {
 // Implement Normalizer for Prepend
 func (p *Prepend) Normalize(normalized *NormalizedString) (*NormalizedString, error) {
 	if normalized.IsEmpty() {
-		return nil, nil
+		return normalized, nil
 	}
 
 	return normalized.Prepend(p.Prepend), nil
-- 
2.43.0


From 299ac807f49010607521aa675fd382d1b9fe71c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:11 +0000
Subject: [PATCH 14/96] fix: empty regexp matches break the tiling of a text,
 inverting other patterns ends the process

---
 normalizer/pattern.go | 30 ++++++++----------------------
 1 file changed, 8 insertions(+), 22 deletions(-)

diff --git a/normalizer/pattern.go b/normalizer/pattern.go
index 1a5ebe7..4825642 100644
--- a/normalizer/pattern.go
+++ b/normalizer/pattern.go
@@ -1,11 +1,7 @@
 package normalizer
 
 import (
-	"log"
-	// "reflect"
 	"regexp"
-
-	"github.com/sugarme/tokenizer/util"
 )
 
 // Pattern is used to split a NormalizedString
@@ -116,7 +112,13 @@ func (s *StringPattern) FindMatches(inside string) []OffsetsMatch {
 
 func findMatches(re *regexp.Regexp, inside string) []OffsetsMatch {
 
-	matches := re.FindAllStringIndex(inside, -1)
+	var matches [][]int
+	for _, m := range re.FindAllStringIndex(inside, -1) {
+		// an empty match does not cover anything
+		if m[0] < m[1] {
+			matches = append(matches, m)
+		}
+	}
 
 	// 0. If no matches, just return
 	if len(matches) == 0 {
@@ -284,23 +286,7 @@ func NewInvertPattern(p Pattern) *Invert {
 
 // FindMatches implement Pattern interface for Invert
 func (i *Invert) FindMatches(inside string) []OffsetsMatch {
-	var matches []OffsetsMatch
-	typ := util.GetType(i.Pattern)
-	switch typ {
-	case "*StringPattern":
-		matches = i.Pattern.(*StringPattern).FindMatches(inside)
-	case "*RunePattern":
-		matches = i.Pattern.(*RunePattern).FindMatches(inside)
-	case "*FnPattern":
-		matches = i.Pattern.(*FnPattern).FindMatches(inside)
-	case "*RegexpPattern":
-		matches = i.Pattern.(*RegexpPattern).FindMatches(inside)
-
-	default:
-		log.Fatalf("Unsupported type - %q\n", typ)
-	}
-
-	return invert(matches)
+	return invert(i.Pattern.FindMatches(inside))
 }
 
 func invert(matches []OffsetsMatch) (retVal []OffsetsMatch) {
-- 
2.43.0


From f71e8aa27fa24de1fc629822cd3c531bb4cd20a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:31 +0000
Subject: [PATCH 15/96] fix: slices keep alignments outside of themselves,
 ranges at the end of a text panic

---
 normalizer/normalized.go | 26 +++++++-------------------
 1 file changed, 7 insertions(+), 19 deletions(-)

diff --git a/normalizer/normalized.go b/normalizer/normalized.go
index 1bacbe2..603d83d 100644
--- a/normalizer/normalized.go
+++ b/normalizer/normalized.go
@@ -273,7 +273,7 @@ func (n *NormalizedString) ConvertOffset(inputRange *Range) (retVal *Range) {
 	// Otherwise, just convert them.
 	// NOTE. if out of bound, return nil
 	var lowerB, upperB int = 0, len(alignments)
-	if target.start < lowerB || target.start > upperB || target.end < lowerB || target.end > upperB {
+	if target.start < lowerB || target.start > target.end || target.end > upperB {
 		return nil
 	}
 
@@ -336,7 +336,7 @@ func (n *NormalizedString) validateRange(inputRange *Range) *Range {
 	}
 
 	// Basic bounds check
-	if r.start < 0 || r.end < 0 || r.start > len(s) || r.end > len(s) {
+	if r.start < 0 || r.start > r.end || r.end > len(s) {
 		return nil
 	}
 
@@ -346,7 +346,7 @@ func (n *NormalizedString) validateRange(inputRange *Range) *Range {
 	}
 
 	// Check if r.start is on a rune boundary
-	if r.start != 0 {
+	if r.start != 0 && r.start != len(s) {
 		// If not the very start, verify it's a valid rune boundary
 		if !utf8.RuneStart(s[r.start]) {
 			return nil
@@ -385,18 +385,10 @@ func (n *NormalizedString) Slice(inputRange *Range) (retVal *NormalizedString) {
 	// 2. `nShift` is normalized shift on original string
 	nShift := oRange.start
 
-	// 3. `oShift` is original shift on original string
-	var oShift int
-	if r := expandAlignments(n.alignmentsOriginal[0:nShift]); r == nil {
-		oShift = 0
-	} else {
-		oShift = r[1]
-	}
-
 	var (
-		sOriginal, sNormalized           string
-		sAlignments, sAlignmentsOriginal [][]int
-		sOriginalShift                   int
+		sOriginal, sNormalized string
+		sAlignments            [][]int
+		sOriginalShift         int
 	)
 
 	sOriginal = n.RangeOriginal(fullRange)
@@ -405,17 +397,13 @@ func (n *NormalizedString) Slice(inputRange *Range) (retVal *NormalizedString) {
 		sAlignment := []int{a[0] - nShift, a[1] - nShift}
 		sAlignments = append(sAlignments, sAlignment)
 	}
-	for _, a := range n.alignmentsOriginal[oRange.start:oRange.end] {
-		sAlignmentOriginal := []int{a[0] - oShift, a[1] - oShift}
-		sAlignmentsOriginal = append(sAlignmentsOriginal, sAlignmentOriginal)
-	}
 	sOriginalShift = n.originalShift + oRange.start
 
 	return &NormalizedString{
 		original:           sOriginal,
 		normalized:         sNormalized,
 		alignments:         sAlignments,
-		alignmentsOriginal: sAlignmentsOriginal,
+		alignmentsOriginal: invertAlignments(sAlignments, len(sOriginal)),
 		originalShift:      sOriginalShift,
 	}
 }
-- 
2.43.0


From e863b6359808f9b988e11c0495499366a477ba45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:43 +0000
Subject: [PATCH 16/96] fix: alignments of text with invalid UTF-8 are longer
 than the text

---
 normalizer/normalized.go | 40 ++++++++++++++++++++++++++--------------
 1 file changed, 26 insertions(+), 14 deletions(-)

diff --git a/normalizer/normalized.go b/normalizer/normalized.go
index 603d83d..682e7da 100644
--- a/normalizer/normalized.go
+++ b/normalizer/normalized.go
@@ -172,8 +172,9 @@ func NewNormalizedFrom(s string) (retVal *NormalizedString) {
 func createAligns(s string) [][]int {
 	var alignments [][]int
 	currIdx := 0
-	for i, r := range []rune(s) {
-		charLen := len([]byte(string(r)))
+	for i := range s {
+		// NOTE. an invalid byte counts as one char
+		_, charLen := utf8.DecodeRuneInString(s[i:])
 		var align []int
 		if i == 0 {
 			align = []int{0, charLen}
@@ -346,23 +347,33 @@ func (n *NormalizedString) validateRange(inputRange *Range) *Range {
 	}
 
 	// Check if r.start is on a rune boundary
-	if r.start != 0 && r.start != len(s) {
-		// If not the very start, verify it's a valid rune boundary
-		if !utf8.RuneStart(s[r.start]) {
-			return nil
-		}
+	if !isCharBoundary(s, r.start) {
+		return nil
 	}
 
 	// Check if r.end is on a rune boundary
-	if r.end != len(s) {
-		if !utf8.RuneStart(s[r.end]) {
-			return nil
-		}
+	if !isCharBoundary(s, r.end) {
+		return nil
 	}
 
 	return inputRange
 }
 
+// isCharBoundary returns whether byte position `i` of `s` is not inside of a char.
+// A byte which is not part of valid UTF-8 counts as a char.
+func isCharBoundary(s string, i int) bool {
+	if i <= 0 || i >= len(s) || utf8.RuneStart(s[i]) {
+		return true
+	}
+	for j := i - 1; j >= 0 && i-j < utf8.UTFMax; j-- {
+		if utf8.RuneStart(s[j]) {
+			_, size := utf8.DecodeRuneInString(s[j:])
+			return j+size <= i
+		}
+	}
+	return true
+}
+
 // Slice returns a slice of the current NormalizedString
 // If the range is not on char boundaries, return `nil`
 func (n *NormalizedString) Slice(inputRange *Range) (retVal *NormalizedString) {
@@ -440,7 +451,7 @@ func (n *NormalizedString) TransformRange(inputRange *Range, changeMap []ChangeM
 
 	// II. Apply the changes, giving each new `char` its alignment.
 	// `offset` is the position of the next char to replace.
-	replaced := []rune(n.normalized[nRange.start:nRange.end])
+	replaced := n.normalized[nRange.start:nRange.end]
 	offset := nRange.start
 	// skip moves past the given number of chars to replace
 	skip := func(nChars int) bool {
@@ -448,8 +459,9 @@ func (n *NormalizedString) TransformRange(inputRange *Range, changeMap []ChangeM
 			if len(replaced) == 0 {
 				return false
 			}
-			offset += len(string(replaced[0]))
-			replaced = replaced[1:]
+			_, size := utf8.DecodeRuneInString(replaced)
+			offset += size
+			replaced = replaced[size:]
 		}
 		return true
 	}
-- 
2.43.0


From d42374b729bc82ce76335e817cfcef8da6ce5331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:52 +0000
Subject: [PATCH 17/96] fix: matches of invalid UTF-8 are longer than the text

---
 normalizer/normalized.go | 3 ++-
 normalizer/pattern.go    | 7 +++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/normalizer/normalized.go b/normalizer/normalized.go
index 682e7da..c8a9598 100644
--- a/normalizer/normalized.go
+++ b/normalizer/normalized.go
@@ -694,7 +694,8 @@ func (n *NormalizedString) Prepend(s string) (retVal *NormalizedString) {
 		changeMap = append(changeMap, c)
 	}
 	changeMap = append(changeMap, ChangeMap{string(next), 1})
-	inputRange := NewRange(0, len([]byte(string(next))), NormalizedTarget)
+	_, nextLen := utf8.DecodeRuneInString(n.normalized)
+	inputRange := NewRange(0, nextLen, NormalizedTarget)
 
 	return n.TransformRange(inputRange, changeMap, 0)
 }
diff --git a/normalizer/pattern.go b/normalizer/pattern.go
index 4825642..754770e 100644
--- a/normalizer/pattern.go
+++ b/normalizer/pattern.go
@@ -2,6 +2,7 @@ package normalizer
 
 import (
 	"regexp"
+	"unicode/utf8"
 )
 
 // Pattern is used to split a NormalizedString
@@ -51,7 +52,8 @@ func (r *RunePattern) FindMatches(inside string) []OffsetsMatch {
 
 	for byteIdx, char := range inside {
 		if char == r.rune {
-			nextIdx := byteIdx + len(string(char))
+			_, charLen := utf8.DecodeRuneInString(inside[byteIdx:])
+			nextIdx := byteIdx + charLen
 			// 1. Add previous unmatched if any
 			if hasPrevious {
 				prev := OffsetsMatch{Offsets: []int{prevStart, byteIdx}, Match: false}
@@ -241,7 +243,8 @@ func (fp *FnPattern) FindMatches(inside string) []OffsetsMatch {
 
 	for byteIdx, char := range inside {
 		if fp.fn(char) {
-			nextIdx := byteIdx + len(string(char))
+			_, charLen := utf8.DecodeRuneInString(inside[byteIdx:])
+			nextIdx := byteIdx + charLen
 			// 1. Add previous unmatched if any
 			if hasPrevious {
 				prev := OffsetsMatch{Offsets: []int{prevStart, byteIdx}, Match: false}
-- 
2.43.0


From 6724688afe45586e091750b6167b6afcf2c27500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:13 +0000
Subject: [PATCH 18/96] fix: CJK extension A is not recognised as Chinese:
 range tables must be sorted

---
 normalizer/bert.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/normalizer/bert.go b/normalizer/bert.go
index 894aaf7..ac4de98 100644
--- a/normalizer/bert.go
+++ b/normalizer/bert.go
@@ -72,8 +72,8 @@ func isPunctuation(c rune) bool {
 var cjk = &unicode.RangeTable{
 
 	R16: []unicode.Range16{
-		{0x4e00, 0x9fff, 1},
 		{0x3400, 0x4dbf, 1},
+		{0x4e00, 0x9fff, 1},
 		{0xf900, 0xfaff, 1},
 	},
 	R32: []unicode.Range32{
-- 
2.43.0


From 8f61b8322a10be84c1b3173343d55deab7111f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:22 +0000
Subject: [PATCH 19/96] fix: normalizing the splits drops those that already
 carry tokens

---
 pretokenizer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pretokenizer.go b/pretokenizer.go
index 6a55545..23e33e0 100644
--- a/pretokenizer.go
+++ b/pretokenizer.go
@@ -101,11 +101,11 @@ func (pt *PreTokenizedString) Normalize(nFn func(*normalizer.NormalizedString) *
 	var nSplits []Split
 
 	for _, split := range pt.splits {
+		newSplit := split
 		if split.tokens == nil {
-			newSplit := split
 			newSplit.normalized = nFn(split.normalized)
-			nSplits = append(nSplits, newSplit)
 		}
+		nSplits = append(nSplits, newSplit)
 	}
 
 	pt.splits = nSplits
-- 
2.43.0


From f0740b473e215d2ced1d3031804f904c912855d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:22 +0000
Subject: [PATCH 20/96] fix: a word the model gives no token for makes the
 encoding fail

---
 pretokenizer.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pretokenizer.go b/pretokenizer.go
index 23e33e0..027c832 100644
--- a/pretokenizer.go
+++ b/pretokenizer.go
@@ -124,6 +124,9 @@ func (pt *PreTokenizedString) Tokenize(tokFn func(*normalizer.NormalizedString)
 			if err != nil {
 				return nil, err
 			}
+			if toks == nil { // tokenized, with no token
+				toks = []Token{}
+			}
 			newSplit.tokens = toks
 		}
 		nSplits = append(nSplits, newSplit)
@@ -147,7 +150,7 @@ func (pt *PreTokenizedString) IntoEncoding(typeId int, wordIdx int, offsetType O
 	}
 
 	for _, s := range pt.splits {
-		if len(s.tokens) == 0 {
+		if s.tokens == nil {
 			err := fmt.Errorf("Split has not been tokenized. Call 'PreTokenizeString.Tokenize()' method first.\n")
 			return nil, err
 		}
-- 
2.43.0


From e96369386fda235870ea792c05e6bb42221584d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:52 +0000
Subject: [PATCH 21/96] fix: character offsets end before the last character,
 and panic at the end of the text

---
 pretokenizer.go | 76 +++++++++++++++++++------------------------------
 1 file changed, 29 insertions(+), 47 deletions(-)

diff --git a/pretokenizer.go b/pretokenizer.go
index 027c832..0722f01 100644
--- a/pretokenizer.go
+++ b/pretokenizer.go
@@ -4,8 +4,7 @@ package tokenizer
 
 import (
 	"fmt"
-	"log"
-	// "reflect"
+	"unicode/utf8"
 
 	"github.com/sugarme/tokenizer/normalizer"
 )
@@ -156,21 +155,12 @@ func (pt *PreTokenizedString) IntoEncoding(typeId int, wordIdx int, offsetType O
 		}
 	}
 
-	charMap := make(map[int]int, 0) // map[byteIdx]runeIdx
+	var converter *BytesToCharOffsetConverter
 
 	switch {
 	case offsetType == Char:
-		currRuneIdx := 0
-		for byteIdx, r := range pt.original {
-			n := 0
-			for i := 0; i < len([]byte(string(r))); i++ {
-				charMap[byteIdx+n] = currRuneIdx
-				n += 1
-			}
-			currRuneIdx += 1
-		}
+		converter = NewBytesToCharOffsetConverter(pt.original)
 	case offsetType == Byte:
-		charMap = make(map[int]int, 0)
 
 	default:
 		err := fmt.Errorf("Invalid offsetType (%v).\n", offsetType)
@@ -190,7 +180,6 @@ func (pt *PreTokenizedString) IntoEncoding(typeId int, wordIdx int, offsetType O
 	for idx, split := range pt.splits {
 		normalized := split.normalized
 		offsets := normalized.OffsetsOriginal()
-		charMapSplit := charMap
 		var convertedOffsets []int
 		for _, tok := range split.tokens {
 			o := normalized.ConvertOffset(normalizer.NewRange(tok.Offsets[0], tok.Offsets[1], normalizer.NormalizedTarget))
@@ -201,30 +190,13 @@ func (pt *PreTokenizedString) IntoEncoding(typeId int, wordIdx int, offsetType O
 			}
 
 			// Convert to char offset if relevant
-			start, ok := charMapSplit[convertedOffsets[0]]
-			if !ok {
-				start = -1
-			}
-			end, ok := charMapSplit[convertedOffsets[1]]
-			if !ok {
-				end = -1
-			}
-
-			var newConvertedOffsets []int
-			switch {
-			case start != -1 && end != -1:
-				newConvertedOffsets = []int{start, end}
-			case start != -1 && end == -1: // If we reached the end, `end` is not in the map
-				// But the one just before should be
-				last, ok := charMapSplit[convertedOffsets[1]-1]
-				if !ok {
-					log.Printf("Something wrong here. Should find from map.\n")
-					last = start + 1
+			newConvertedOffsets := convertedOffsets
+			if converter != nil {
+				var err error
+				newConvertedOffsets, err = converter.Convert(convertedOffsets)
+				if err != nil {
+					return nil, err
 				}
-				newConvertedOffsets = []int{start, last}
-
-			default:
-				newConvertedOffsets = convertedOffsets
 			}
 
 			var wordIndex int = wordIdx
@@ -320,32 +292,42 @@ type BytesToCharOffsetConverter struct {
 }
 
 func NewBytesToCharOffsetConverter(sequence string) *BytesToCharOffsetConverter {
-	chars := []rune(sequence) // utf-8
-
 	b2c := make(map[int]int)
-	n := 0
-	for charIdx, char := range chars {
-		nbytes := len([]byte(string(char)))
+	charIdx := 0
+	for byteIdx := 0; byteIdx < len(sequence); charIdx++ {
+		_, nbytes := utf8.DecodeRuneInString(sequence[byteIdx:])
 		for i := 0; i < nbytes; i++ {
-			byteIdx := n + i
-			b2c[byteIdx] = charIdx
+			b2c[byteIdx+i] = charIdx
 		}
 
-		n += nbytes
+		byteIdx += nbytes
 	}
 
 	return &BytesToCharOffsetConverter{b2c}
 }
 
+// charIndex is the index of the character at byte index, which may be the end
+// of the sequence.
+func (c *BytesToCharOffsetConverter) charIndex(byteIdx int) (int, bool) {
+	if charIdx, ok := c.b2c[byteIdx]; ok {
+		return charIdx, true
+	}
+	if byteIdx == 0 { // empty sequence
+		return 0, true
+	}
+	charIdx, ok := c.b2c[byteIdx-1]
+	return charIdx + 1, ok
+}
+
 // Convert converts byte-indexed offsets to character-index offsets.
 func (c *BytesToCharOffsetConverter) Convert(offsets []int) ([]int, error) {
-	start, ok := c.b2c[offsets[0]]
+	start, ok := c.charIndex(offsets[0])
 	if !ok {
 		err := fmt.Errorf("Invalid offsets start %v\n", offsets[0])
 		return nil, err
 	}
 
-	end, ok := c.b2c[offsets[1]]
+	end, ok := c.charIndex(offsets[1])
 	if !ok {
 		err := fmt.Errorf("Invalid offsets end %v\n", offsets[1])
 		return nil, err
-- 
2.43.0


From 62781b7f6724ba7303f48b3e29243f523e329cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:53 +0000
Subject: [PATCH 22/96] fix: the whitespace splitter cuts words at every
 non-ASCII letter

---
 pretokenizer/whitespace.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pretokenizer/whitespace.go b/pretokenizer/whitespace.go
index 00d071a..d0a1dd1 100644
--- a/pretokenizer/whitespace.go
+++ b/pretokenizer/whitespace.go
@@ -21,7 +21,9 @@ var _ tokenizer.PreTokenizer = new(Whitespace)
 
 func (p *Whitespace) PreTokenize(pretokenized *tokenizer.PreTokenizedString) (*tokenizer.PreTokenizedString, error) {
 	pretok := pretokenized.Split(func(noop int, normalized *normalizer.NormalizedString) []tokenizer.SplitIdx {
-		s := `\w+|[^\w\s]+`
+		// `\w+|[^\w\s]+` with the Unicode classes (those of Go are ASCII only)
+		const w, ws = `\p{L}\p{M}\p{Nd}\p{Nl}\p{Pc}\x{200c}\x{200d}`, `\t-\r\x{85}\p{Z}`
+		s := `[` + w + `]+|[^` + w + ws + `]+`
 		rePattern := normalizer.NewRegexpPattern(s)
 		invert := normalizer.NewInvertPattern(rePattern)
 		splits := normalized.Split(invert, normalizer.RemovedBehavior)
-- 
2.43.0


From ee9e6e87383ccf8c5d978c2d9cd69234e67c53f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:11 +0000
Subject: [PATCH 23/96] fix: white space outside of ASCII is not recognised as
 such by BERT and the white space splitter

---
 normalizer/bert.go   | 8 +-------
 pretokenizer/bert.go | 2 +-
 2 files changed, 2 insertions(+), 8 deletions(-)

diff --git a/normalizer/bert.go b/normalizer/bert.go
index ac4de98..605edae 100644
--- a/normalizer/bert.go
+++ b/normalizer/bert.go
@@ -22,13 +22,7 @@ func NewBertNormalizer(cleanText, lowercase, handleChineseChars, stripAccents bo
 
 // IsWhitespace checks whether rune c is a BERT whitespace character
 func isWhitespace(c rune) bool {
-	// NOTE. `unicode.IsSpace(c rune)` has more cases
-	switch c {
-	case ' ', '\t', '\n', '\r':
-		return true
-	default:
-		return false
-	}
+	return unicode.IsSpace(c)
 }
 
 // IsControl checks whether rune c is a BERT control character
diff --git a/pretokenizer/bert.go b/pretokenizer/bert.go
index 9c40aad..4024aab 100644
--- a/pretokenizer/bert.go
+++ b/pretokenizer/bert.go
@@ -75,7 +75,7 @@ func NewBertPreTokenizer() *BertPreTokenizer {
 func (bt *BertPreTokenizer) PreTokenize(pretokenized *tokenizer.PreTokenizedString) (*tokenizer.PreTokenizedString, error) {
 	pretok := pretokenized.Split(func(noop int, sub *normalizer.NormalizedString) []tokenizer.SplitIdx {
 		var splits []normalizer.NormalizedString
-		whitespace := normalizer.NewRegexpPattern(`\s+`)
+		whitespace := normalizer.NewFnPattern(normalizer.IsWhitespace)
 		wsSubs := sub.Split(whitespace, normalizer.RemovedBehavior)
 
 		for _, sub := range wsSubs {
-- 
2.43.0


From 97f6ea8c6eec77ba80e6e9a99aafaf63a3efdeb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:12 +0000
Subject: [PATCH 24/96] fix: the metaspace replacement is used as a regular
 expression

---
 pretokenizer/metaspace.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pretokenizer/metaspace.go b/pretokenizer/metaspace.go
index 7d9606f..4ed5d77 100644
--- a/pretokenizer/metaspace.go
+++ b/pretokenizer/metaspace.go
@@ -98,7 +98,7 @@ func (m *Metaspace) PreTokenize(pretokenized *tokenizer.PreTokenizedString) (*to
 			// Never prepend
 		}
 
-		replacement := normalizer.NewRegexpPattern(m.Replacement)
+		replacement := normalizer.NewStringPattern(m.Replacement)
 		splits = normalized.Split(replacement, normalizer.MergedWithNextBehavior)
 
 		// log.Printf("splits: %+v\n", splits)
-- 
2.43.0


From f1059e844c37c8f38cfbeac8a888fb00efabdfc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:26 +0000
Subject: [PATCH 25/96] fix: byte-level splitting does not handle runs of white
 space as its expression says

---
 pretokenizer/bytelevel.go | 39 +++++++++++++++++++++++++++++++++------
 1 file changed, 33 insertions(+), 6 deletions(-)

diff --git a/pretokenizer/bytelevel.go b/pretokenizer/bytelevel.go
index 4bab947..552d118 100644
--- a/pretokenizer/bytelevel.go
+++ b/pretokenizer/bytelevel.go
@@ -3,6 +3,8 @@ package pretokenizer
 import (
 	"regexp"
 	"strings"
+	"unicode"
+	"unicode/utf8"
 
 	"github.com/sugarme/tokenizer"
 	"github.com/sugarme/tokenizer/normalizer"
@@ -12,13 +14,39 @@ import (
 // including prefix whitespace. Contractions and punctuation
 // will be split as well.
 // Ref.https://regex101.com/r/pf5XJv
-// const splitRegStr = `'s|'t|'re|'ve|'m|'ll|'d| ?\p{L}+| ?\p{N}+| ?[^\s\p{L}\p{N}]+|\s+`
-// const splitRegStr = `'s|'t|'re|'ve|'m|'ll|'d| ?\p{L}+| ?\p{N}+| ?[^\s\p{L}\p{N}]+|\s+(?!\S)|\s+`
-// TODO: this RE does not cover the case with trailing whitespace!!!
-const splitRegStr = `'s|'t|'re|'ve|'m|'ll|'d| ?\p{L}+| ?\p{N}+| ?[^\s\p{L}\p{N}]+`
+// The expression meant is `'s|'t|'re|'ve|'m|'ll|'d| ?\p{L}+| ?\p{N}+| ?[^\s\p{L}\p{N}]+|\s+(?!\S)|\s+`.
+// Go has no lookahead: see splitMatcher. Its `\s` is ASCII only, hence the explicit class of white space.
+const splitRegStr = `'s|'t|'re|'ve|'m|'ll|'d| ?\p{L}+| ?\p{N}+| ?[^\t-\r\x{85}\p{Z}\p{L}\p{N}]+|[\t-\r\x{85}\p{Z}]+`
 
 var splitRE = regexp.MustCompile(splitRegStr)
 
+// splitMatcher is the pattern which cuts a text into words.
+type splitMatcher struct{}
+
+// FindMatches implements normalizer.Pattern.
+func (splitMatcher) FindMatches(inside string) []normalizer.OffsetsMatch {
+	if len(inside) == 0 {
+		return []normalizer.OffsetsMatch{{Offsets: []int{0, 0}, Match: false}}
+	}
+
+	var matches []normalizer.OffsetsMatch
+	for start := 0; start < len(inside); {
+		loc := splitRE.FindStringIndex(inside[start:]) // any character starts a match
+		end := start + loc[1]
+		if end < len(inside) {
+			// `\s+(?!\S)`: several whitespaces leave the last one to the word that follows
+			last, size := utf8.DecodeLastRuneInString(inside[start:end])
+			if unicode.IsSpace(last) && end-size > start {
+				end -= size
+			}
+		}
+		matches = append(matches, normalizer.OffsetsMatch{Offsets: []int{start, end}, Match: true})
+		start = end
+	}
+
+	return matches
+}
+
 var BytesChar map[uint8]string = GenerateBytesChar()
 
 var CharBytes map[string]uint8 = func() map[string]uint8 {
@@ -187,8 +215,7 @@ func (bl *ByteLevel) PreTokenize(pretokenized *tokenizer.PreTokenizedString) (*t
 			newNormalized = normalized.Prepend(" ")
 		}
 
-		splitPattern := normalizer.NewRegexpPattern(splitRegStr)
-		splits := newNormalized.Split(splitPattern, normalizer.IsolatedBehavior)
+		splits := newNormalized.Split(splitMatcher{}, normalizer.IsolatedBehavior)
 
 		var splitIdx []tokenizer.SplitIdx
 		for _, s := range splits {
-- 
2.43.0


From a8a5e05875d8878dde55e258cda9ffbf8a68c61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:27 +0000
Subject: [PATCH 26/96] fix: byte-level decoding turns characters of added
 tokens into zero bytes

---
 pretokenizer/bytelevel.go | 29 +++++++++++++----------------
 1 file changed, 13 insertions(+), 16 deletions(-)

diff --git a/pretokenizer/bytelevel.go b/pretokenizer/bytelevel.go
index 552d118..ecc7766 100644
--- a/pretokenizer/bytelevel.go
+++ b/pretokenizer/bytelevel.go
@@ -256,32 +256,29 @@ var _ tokenizer.Decoder = new(ByteLevel)
 // Decode converts any byte-level characters to their unicode couterpart
 // before merging everything back into a single string
 func (bl *ByteLevel) Decode(tokens []string) string {
-	s := strings.Join(tokens, "")
-	chars := strings.Split(s, "")
-
-	var bytes []byte
-
-	for _, c := range chars {
-		b := CharBytes[c]
-
-		bytes = append(bytes, b)
-	}
-
-	return string(bytes)
+	return strings.Join(bl.DecodeChain(tokens), "")
 }
 
 func (bl *ByteLevel) DecodeChain(tokens []string) []string {
 	out := make([]string, len(tokens))
 	for i, s := range tokens {
-		chars := strings.Split(s, "")
 		var bytes []byte
-		for _, c := range chars {
-			b := CharBytes[c]
+		isByteLevel := true
+		for _, c := range s {
+			b, ok := CharBytes[string(c)]
+			if !ok {
+				isByteLevel = false
+				break
+			}
 
 			bytes = append(bytes, b)
 		}
 
-		out[i] = string(bytes)
+		if isByteLevel {
+			out[i] = string(bytes)
+		} else {
+			out[i] = s // a token which is not made of bytes, as added tokens may be, is kept
+		}
 	}
 
 	return out
-- 
2.43.0


From d0c77ef7b6f9a37b51a2741fa30727fcf5f24f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:27 +0000
Subject: [PATCH 27/96] fix: the script splitter drops leading characters of no
 script

---
 pretokenizer/unicode-script.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pretokenizer/unicode-script.go b/pretokenizer/unicode-script.go
index f34436b..de5282a 100644
--- a/pretokenizer/unicode-script.go
+++ b/pretokenizer/unicode-script.go
@@ -51,7 +51,7 @@ var _ tokenizer.PreTokenizer = new(UnicodeScript)
 
 func (us *UnicodeScript) PreTokenize(pretokenized *tokenizer.PreTokenizedString) (*tokenizer.PreTokenizedString, error) {
 	pretok := pretokenized.Split(func(noop int, normalized *normalizer.NormalizedString) []tokenizer.SplitIdx {
-		lastScript := ""
+		lastScript := "none" // characters of no script have script ""
 		offset := 0
 		var ranges []int
 		for _, c := range normalized.GetNormalized() {
-- 
2.43.0


From b087cfc9bf7515cb678108bbfd3111286712e266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:38 +0000
Subject: [PATCH 28/96] fix: character offsets of normalized splits are looked
 up in the original text

---
 pretokenizer.go | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/pretokenizer.go b/pretokenizer.go
index 0722f01..3a71853 100644
--- a/pretokenizer.go
+++ b/pretokenizer.go
@@ -246,21 +246,24 @@ func (pt *PreTokenizedString) GetSplits(offsetRef normalizer.IndexOn, offsetType
 		switch {
 		case offsetRef == normalizer.OriginalTarget:
 			offsets = s.normalized.OffsetsOriginal()
+
+			// Convert to char offsets if relevant
+			if offsetConverter != nil {
+				var err error
+				offsets, err = offsetConverter.Convert(offsets)
+				if err != nil {
+					panic(err)
+				}
+			}
 		case offsetRef == normalizer.NormalizedTarget:
 			length := s.normalized.Len()
+			if offsetType == Char {
+				length = utf8.RuneCountInString(s.normalized.GetNormalized())
+			}
 			offset += length
 			offsets = []int{offset - length, offset}
 		}
 
-		// Convert to char offsets if relevant
-		if offsetConverter != nil {
-			var err error
-			offsets, err = offsetConverter.Convert(offsets)
-			if err != nil {
-				panic(err)
-			}
-		}
-
 		preToks = append(preToks, PreToken{s.normalized.GetNormalized(), offsets, s.tokens})
 	}
 
-- 
2.43.0


From 1cd8f3308be0527c7909adec295bb79dddb2bb9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:14 +0000
Subject: [PATCH 29/96] fix: the script splitter miscounts bytes of invalid
 UTF-8

---
 pretokenizer/unicode-script.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pretokenizer/unicode-script.go b/pretokenizer/unicode-script.go
index de5282a..b07c334 100644
--- a/pretokenizer/unicode-script.go
+++ b/pretokenizer/unicode-script.go
@@ -52,9 +52,8 @@ var _ tokenizer.PreTokenizer = new(UnicodeScript)
 func (us *UnicodeScript) PreTokenize(pretokenized *tokenizer.PreTokenizedString) (*tokenizer.PreTokenizedString, error) {
 	pretok := pretokenized.Split(func(noop int, normalized *normalizer.NormalizedString) []tokenizer.SplitIdx {
 		lastScript := "none" // characters of no script have script ""
-		offset := 0
 		var ranges []int
-		for _, c := range normalized.GetNormalized() {
+		for offset, c := range normalized.GetNormalized() {
 			script := FixedScript(c)
 			var result int
 			if script != "Any" && lastScript != "Any" && lastScript != script {
@@ -63,7 +62,6 @@ func (us *UnicodeScript) PreTokenize(pretokenized *tokenizer.PreTokenizedString)
 				result = -1
 			}
 
-			offset += len(string(c))
 			if script != "Any" {
 				lastScript = script
 			}
-- 
2.43.0


From 012114060501827bd55e7476a58722c329fb65bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:49 +0000
Subject: [PATCH 30/96] fix: listing the vocabulary with added tokens writes
 them into the model

---
 tokenizer.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/tokenizer.go b/tokenizer.go
index 3b0078e..ad9c81b 100644
--- a/tokenizer.go
+++ b/tokenizer.go
@@ -356,13 +356,14 @@ func (t *Tokenizer) GetPadding() (retVal *PaddingParams) {
 
 // GetVocab get the vocabulary
 func (t *Tokenizer) GetVocab(withAddedTokens bool) map[string]int {
-	finalVocab := t.model.GetVocab()
+	// NOTE. never hand out, or write into, the vocabulary of the model itself
+	finalVocab := make(map[string]int)
+	for k, v := range t.model.GetVocab() {
+		finalVocab[k] = v
+	}
 	if withAddedTokens {
-		addedVocab := t.addedVocabulary.GetVocab()
-		if len(addedVocab) > 0 {
-			for k, v := range addedVocab {
-				finalVocab[k] = v
-			}
+		for k, v := range t.addedVocabulary.GetVocab() {
+			finalVocab[k] = v
 		}
 	}
 
-- 
2.43.0


From 28e7b6087afd95b9d6221516748eb23ccc9539a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:49 +0000
Subject: [PATCH 31/96] fix: special tokens are listed in random order

---
 tokenizer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tokenizer.go b/tokenizer.go
index ad9c81b..61495f3 100644
--- a/tokenizer.go
+++ b/tokenizer.go
@@ -382,8 +382,8 @@ func (t *Tokenizer) GetVocabSize(withAddedTokens bool) int {
 // GetSpecialTokens returns a slice of special tokens.
 func (t *Tokenizer) GetSpecialTokens() []string {
 	var tokens []string
-	for k := range t.addedVocabulary.specialTokensSet {
-		tokens = append(tokens, k)
+	for _, tok := range t.addedVocabulary.specialTokens {
+		tokens = append(tokens, tok.Content)
 	}
 
 	return tokens
-- 
2.43.0


From 91015c990ea2b57abd245ca56bda78c5c7e1fc5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:49 +0000
Subject: [PATCH 32/96] fix: added tokens share ids with the model when its ids
 have gaps

---
 added-vocabulary.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/added-vocabulary.go b/added-vocabulary.go
index cafeb11..eac1763 100644
--- a/added-vocabulary.go
+++ b/added-vocabulary.go
@@ -300,6 +300,10 @@ func (av *AddedVocabulary) AddTokens(tokens []AddedToken, model Model, normalize
 			id = i
 		} else {
 			id = model.GetVocabSize() + len(av.addedTokenMap)
+			// ids of the model may have gaps, never share one with it
+			for _, taken := av.IdToToken(id, model); taken; _, taken = av.IdToToken(id, model) {
+				id++
+			}
 			av.addedTokenMap[token.Content] = id
 
 			if _, ok := av.specialTokensSet[token.Content]; !ok {
-- 
2.43.0


From 3445de58cf869de739a1d4692b6877504111eb5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:49 +0000
Subject: [PATCH 33/96] fix: added tokens are not matched in their normalized
 form

---
 added-vocabulary.go | 58 +++++++++++++++++++++------------------------
 1 file changed, 27 insertions(+), 31 deletions(-)

diff --git a/added-vocabulary.go b/added-vocabulary.go
index eac1763..7984ad0 100644
--- a/added-vocabulary.go
+++ b/added-vocabulary.go
@@ -119,45 +119,37 @@ func (at AddedToken) SetNormalized(normalized bool) (retVal AddedToken) {
 	return at
 }
 
+// matchContent returns the text this token matches: its content, in normalized form
+// when it is to be matched against normalized text.
+func (at AddedToken) matchContent(n normalizer.Normalizer) string {
+	if !at.Normalized || n == nil {
+		return at.Content
+	}
+
+	normalized, err := n.Normalize(normalizer.NewNormalizedFrom(at.Content))
+	if err != nil {
+		log.Fatal(err)
+	}
+
+	return normalized.GetNormalized()
+}
+
 // GetPattern retrieves the pattern built for this token, according to all the specified parameters.
 //
 // NOTE. normalizer input is optional
 func (at AddedToken) GetPattern(n normalizer.Normalizer) (retVal string) {
 	var reStr string // regular expression pattern
 
-	if at.SingleWord {
-		var firstB, lastB string
-		runes := []rune(at.Content)
-		firstChar := runes[0]
-		lastChar := runes[len(runes)-1]
-		if isWordCharacter(firstChar) {
-			firstB = `\b`
-		} else {
-			firstB = ``
-		}
-		if isWordCharacter(lastChar) {
-			lastB = `\b`
-		} else {
-			lastB = ``
+	content := at.matchContent(n)
+	reStr = regexp.QuoteMeta(content)
+	if at.SingleWord && content != "" {
+		runes := []rune(content)
+		if isWordCharacter(runes[0]) {
+			reStr = `\b` + reStr
 		}
-
-		// normalize the content
-		content := normalizer.NewNormalizedFrom(at.Content)
-		var normalized string
-		if n != nil {
-			normalizedString, err := n.Normalize(content)
-			if err != nil {
-				log.Fatal(err)
-			}
-			normalized = normalizedString.GetNormalized()
-		} else { // don't have a normalizer, just use content as is
-			normalized = at.Content
+		if isWordCharacter(runes[len(runes)-1]) {
+			reStr = reStr + `\b`
 		}
-
-		reStr = fmt.Sprintf("%v%v%v", firstB, regexp.QuoteMeta(normalized), lastB)
-
-	} else {
-		reStr = regexp.QuoteMeta(at.Content)
 	}
 
 	if at.LStrip && at.RStrip {
@@ -340,6 +332,10 @@ func (av *AddedVocabulary) refreshAddedTokens(model Model, normalizer normalizer
 			log.Fatalf("Missing additional token.\n")
 		}
 
+		if token.matchContent(normalizer) == "" {
+			continue // nothing left to match
+		}
+
 		pattern := token.GetPattern(normalizer)
 		if token.Normalized {
 			normIds = append(normIds, id)
-- 
2.43.0


From 2d8793b1d3cd2cb0761f75ff5ae69636e0c64121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:37 +0000
Subject: [PATCH 34/96] fix: added tokens strip only one white space

---
 added-vocabulary.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/added-vocabulary.go b/added-vocabulary.go
index 7984ad0..61fcec3 100644
--- a/added-vocabulary.go
+++ b/added-vocabulary.go
@@ -1,7 +1,6 @@
 package tokenizer
 
 import (
-	"fmt"
 	"log"
 	"regexp"
 	"sort"
@@ -152,12 +151,13 @@ func (at AddedToken) GetPattern(n normalizer.Normalizer) (retVal string) {
 		}
 	}
 
-	if at.LStrip && at.RStrip {
-		reStr = fmt.Sprintf("(\\s)?%v(\\s)?", reStr)
-	} else if at.LStrip {
-		reStr = fmt.Sprintf("(\\s)?%v", reStr)
-	} else if at.RStrip {
-		reStr = fmt.Sprintf("%v(\\s)?", reStr)
+	// all the whitespaces, as unicode.IsSpace has them
+	const spaces = `[\s\v\x{85}\p{Z}]*`
+	if at.LStrip {
+		reStr = spaces + reStr
+	}
+	if at.RStrip {
+		reStr = reStr + spaces
 	}
 
 	return reStr
-- 
2.43.0


From 08a636f45b198528ac4b3ce11d3197f61484aa91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:37 +0000
Subject: [PATCH 35/96] fix: single word tokens are matched inside of words and
 missed between them

---
 added-vocabulary.go | 44 ++++++++++++++++++++++++++------------------
 1 file changed, 26 insertions(+), 18 deletions(-)

diff --git a/added-vocabulary.go b/added-vocabulary.go
index 61fcec3..2b6b059 100644
--- a/added-vocabulary.go
+++ b/added-vocabulary.go
@@ -5,6 +5,7 @@ import (
 	"regexp"
 	"sort"
 	"unicode"
+	"unicode/utf8"
 
 	"github.com/sugarme/regexpset"
 	"github.com/sugarme/tokenizer/normalizer"
@@ -135,21 +136,13 @@ func (at AddedToken) matchContent(n normalizer.Normalizer) string {
 
 // GetPattern retrieves the pattern built for this token, according to all the specified parameters.
 //
-// NOTE. normalizer input is optional
+// NOTE. normalizer input is optional. The first group of the pattern is the content of the token.
+// That a single word is not part of a longer one depends on the characters around it (`\b` only
+// knows about ASCII), see isWholeWord.
 func (at AddedToken) GetPattern(n normalizer.Normalizer) (retVal string) {
 	var reStr string // regular expression pattern
 
-	content := at.matchContent(n)
-	reStr = regexp.QuoteMeta(content)
-	if at.SingleWord && content != "" {
-		runes := []rune(content)
-		if isWordCharacter(runes[0]) {
-			reStr = `\b` + reStr
-		}
-		if isWordCharacter(runes[len(runes)-1]) {
-			reStr = reStr + `\b`
-		}
-	}
+	reStr = "(" + regexp.QuoteMeta(at.matchContent(n)) + ")"
 
 	// all the whitespaces, as unicode.IsSpace has them
 	const spaces = `[\s\v\x{85}\p{Z}]*`
@@ -164,16 +157,25 @@ func (at AddedToken) GetPattern(n normalizer.Normalizer) (retVal string) {
 }
 
 func isWordCharacter(r rune) bool {
-	if unicode.IsLetter(r) || unicode.IsMark(r) || unicode.IsDigit(r) || unicode.IsControl(r) || unicode.IsPunct(r) {
-		return true
+	return unicode.In(r, unicode.L, unicode.M, unicode.Nd, unicode.Nl, unicode.Pc) || unicode.Is(unicode.Join_Control, r)
+}
+
+// isWholeWord returns whether what is between the given positions doesn't cut a word
+// at its start nor at its end.
+func isWholeWord(sentence string, start, end int) bool {
+	isWord := func(r rune, size int) bool { return size > 0 && isWordCharacter(r) }
+	cuts := func(at int) bool {
+		return isWord(utf8.DecodeLastRuneInString(sentence[:at])) && isWord(utf8.DecodeRuneInString(sentence[at:]))
 	}
-	return false
+	return !cuts(start) && !cuts(end)
 }
 
 // matchingSet is a set of regular expression string
 type matchingSet struct {
 	regexSet regexpset.RegexpSet
 	ids      []int
+	// whether a pattern should match on whole words only
+	singleWords []bool
 }
 
 // AddedVocabulary is a vocabulary built on top of the Model
@@ -325,6 +327,7 @@ type tokenId struct {
 func (av *AddedVocabulary) refreshAddedTokens(model Model, normalizer normalizer.Normalizer) {
 	var normIds, nnormIds []int
 	var normPatterns, nnormPatterns []string
+	var normWords, nnormWords []bool
 	tokens := append(av.specialTokens, av.addedTokens...)
 	for _, token := range tokens {
 		id, ok := av.TokenToId(token.Content, model)
@@ -340,9 +343,11 @@ func (av *AddedVocabulary) refreshAddedTokens(model Model, normalizer normalizer
 		if token.Normalized {
 			normIds = append(normIds, id)
 			normPatterns = append(normPatterns, pattern)
+			normWords = append(normWords, token.SingleWord)
 		} else {
 			nnormIds = append(nnormIds, id)
 			nnormPatterns = append(nnormPatterns, pattern)
+			nnormWords = append(nnormWords, token.SingleWord)
 		}
 	}
 
@@ -355,8 +360,8 @@ func (av *AddedVocabulary) refreshAddedTokens(model Model, normalizer normalizer
 		log.Fatal(err)
 	}
 
-	av.splitNormalizedRe = matchingSet{*normSet, normIds}
-	av.splitRe = matchingSet{*nnormSet, nnormIds}
+	av.splitNormalizedRe = matchingSet{*normSet, normIds, normWords}
+	av.splitRe = matchingSet{*nnormSet, nnormIds, nnormWords}
 }
 
 type idOffsets struct {
@@ -395,8 +400,11 @@ func (av *AddedVocabulary) findMatches(sentence string, splitRe matchingSet) (re
 
 	for _, idx := range matches {
 		r := regexp.MustCompile(splitRe.regexSet.Patterns()[idx])
-		locs := r.FindAllStringIndex(sentence, -1)
+		locs := r.FindAllStringSubmatchIndex(sentence, -1)
 		for _, loc := range locs {
+			if splitRe.singleWords[idx] && !isWholeWord(sentence, loc[2], loc[3]) {
+				continue
+			}
 			id := idx
 			ioPair := idOffsets{id: id, offsets: []int{loc[0], loc[1]}}
 			ioPairs = append(ioPairs, ioPair)
-- 
2.43.0


From 485a3f9e7d70f02bf1905c412faaf331325d450a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:37 +0000
Subject: [PATCH 36/96] fix: added tokens are missed or selected out of order
 when they overlap

---
 added-vocabulary.go | 108 +++++++++++++++++++-------------------------
 1 file changed, 46 insertions(+), 62 deletions(-)

diff --git a/added-vocabulary.go b/added-vocabulary.go
index 2b6b059..7bcb716 100644
--- a/added-vocabulary.go
+++ b/added-vocabulary.go
@@ -369,23 +369,6 @@ type idOffsets struct {
 	offsets []int
 }
 
-// helper functions to sort idOffsets
-// By implement sort interface of package sort
-
-// byStart sort by offset.Start
-type byStart []idOffsets
-
-func (s byStart) Len() int           { return len(s) }
-func (s byStart) Less(i, j int) bool { return s[i].offsets[0] < s[j].offsets[0] }
-func (s byStart) Swap(i, j int)      { s[i], s[j] = s[j], s[i] }
-
-// byId sort by id
-type byId []idOffsets
-
-func (bi byId) Len() int           { return len(bi) }
-func (bi byId) Less(i, j int) bool { return bi[i].id < bi[j].id }
-func (bi byId) Swap(i, j int)      { bi[i], bi[j] = bi[j], bi[i] }
-
 // findMatches finds any AddedToken in the given sentence, using the provided MatchingSet.
 // This method returns a list "splits", each of them being a pair of Offsets
 // and an optional ID if it is an AddedToken. The list of splits cover the entire input string.
@@ -395,59 +378,60 @@ func (av *AddedVocabulary) findMatches(sentence string, splitRe matchingSet) (re
 		return []idOffsets{{-1, []int{0, 0}}}
 	}
 
-	matches := splitRe.regexSet.Matches(sentence).Matches()
-	var ioPairs []idOffsets
+	patterns := make(map[int]*regexp.Regexp)
+	for _, idx := range splitRe.regexSet.Matches(sentence).Matches() {
+		patterns[idx] = regexp.MustCompile(splitRe.regexSet.Patterns()[idx])
+	}
 
-	for _, idx := range matches {
-		r := regexp.MustCompile(splitRe.regexSet.Patterns()[idx])
-		locs := r.FindAllStringSubmatchIndex(sentence, -1)
-		for _, loc := range locs {
-			if splitRe.singleWords[idx] && !isWholeWord(sentence, loc[2], loc[3]) {
-				continue
+	// The first occurrence of a pattern starting at or after the given position, if any
+	next := func(idx, from int) (pair idOffsets, ok bool) {
+		for from < len(sentence) {
+			loc := patterns[idx].FindStringSubmatchIndex(sentence[from:])
+			if loc == nil {
+				break
+			}
+			if !splitRe.singleWords[idx] || isWholeWord(sentence, from+loc[2], from+loc[3]) {
+				return idOffsets{id: idx, offsets: []int{from + loc[0], from + loc[1]}}, true
 			}
-			id := idx
-			ioPair := idOffsets{id: id, offsets: []int{loc[0], loc[1]}}
-			ioPairs = append(ioPairs, ioPair)
+			// part of a longer word, look further
+			_, size := utf8.DecodeRuneInString(sentence[from+loc[0]:])
+			from += loc[0] + size
 		}
+		return idOffsets{}, false
 	}
 
-	// Sort id-offsets by start then by pattern id
-	sort.Sort(byStart(ioPairs))
-	sort.Sort(byId(ioPairs))
-
-	// Select the matches, if they overlap, keep them
-	var (
-		i              int         = 0
-		currentOffsets int         = 0
-		splits         []idOffsets = make([]idOffsets, 0)
-	)
-
-	for i < len(ioPairs) {
-		ioPair := ioPairs[i]
-
-		// current match is before the current offset, skip it
-		if ioPair.offsets[0] < currentOffsets {
-			i++
-			continue
+	var ioPairs []idOffsets
+	for idx := range patterns {
+		if pair, ok := next(idx, 0); ok {
+			ioPairs = append(ioPairs, pair)
 		}
+	}
 
-		// Find out whether having overlapping neighbours.
-		// If so, keep the one with lowest Idx. All other will be skipped
-		// because `currentOffsets` will have been increased.
-		if i+1 < len(ioPairs) {
-			overlapPairs := ioPairs[i:]
-			sort.Sort(byId(overlapPairs))
-			lowestPair := overlapPairs[0] // lowest Id one
-			splits = append(splits, lowestPair)
-			currentOffsets = ioPair.offsets[1]
-			i++
-			continue
+	// Select the matches from left to right. If some start at the same place, keep the
+	// one with lowest id. What overlaps the selected one is looked for after it.
+	var splits []idOffsets
+	for len(ioPairs) > 0 {
+		sort.Slice(ioPairs, func(i, j int) bool {
+			a, b := ioPairs[i], ioPairs[j]
+			if a.offsets[0] != b.offsets[0] {
+				return a.offsets[0] < b.offsets[0]
+			}
+			return a.id < b.id
+		})
+		selected := ioPairs[0]
+		splits = append(splits, selected)
+
+		var remaining []idOffsets
+		for _, pair := range ioPairs {
+			ok := true
+			if pair.offsets[0] < selected.offsets[1] {
+				pair, ok = next(pair.id, selected.offsets[1])
+			}
+			if ok {
+				remaining = append(remaining, pair)
+			}
 		}
-
-		// Not found overlap neighbours. Just apply itself
-		splits = append(splits, ioPair)
-		currentOffsets = ioPair.offsets[1]
-		i++
+		ioPairs = remaining
 	}
 
 	// Also, insert the splits in-between added tokens, to split the entire string
-- 
2.43.0


From 7ecc89a171171543b4a1cab5d731252285b67a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:37 +0000
Subject: [PATCH 37/96] fix: added tokens keep matching the form of a replaced
 normalizer

---
 tokenizer.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tokenizer.go b/tokenizer.go
index 61495f3..baaa0d7 100644
--- a/tokenizer.go
+++ b/tokenizer.go
@@ -300,6 +300,8 @@ func NewTokenizer(model Model) *Tokenizer {
 
 func (t *Tokenizer) WithNormalizer(n normalizer.Normalizer) {
 	t.normalizer = n
+	// added tokens match in their normalized form
+	t.addedVocabulary.refreshAddedTokens(t.model, n)
 }
 
 func (t *Tokenizer) GetNormalizer() normalizer.Normalizer {
-- 
2.43.0


From e3551948e04cf7c3afc087f2d816e6063203abe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:01 +0000
Subject: [PATCH 38/96] fix: a special token the new model doesn't know ends
 the process

---
 added-vocabulary.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/added-vocabulary.go b/added-vocabulary.go
index 7bcb716..9f30a6e 100644
--- a/added-vocabulary.go
+++ b/added-vocabulary.go
@@ -332,7 +332,7 @@ func (av *AddedVocabulary) refreshAddedTokens(model Model, normalizer normalizer
 	for _, token := range tokens {
 		id, ok := av.TokenToId(token.Content, model)
 		if !ok {
-			log.Fatalf("Missing additional token.\n")
+			continue // known to a model since replaced, there's nothing to extract it as
 		}
 
 		if token.matchContent(normalizer) == "" {
-- 
2.43.0


From 55e0d85d79fbaffadeb887ece46d1fd52932846e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:49 +0000
Subject: [PATCH 39/96] fix: BPE puts the continuing prefix on the first
 character and never the end suffix

---
 model/bpe/bpe.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/model/bpe/bpe.go b/model/bpe/bpe.go
index d408818..8f92fbf 100644
--- a/model/bpe/bpe.go
+++ b/model/bpe/bpe.go
@@ -384,13 +384,14 @@ func (b *BPE) MergeWord(w string) *Word {
 		)
 		byteLen = len(string(r))
 
-		// if first rune, add prefix
-		if byteIdx == 0 {
-			s = fmt.Sprintf("%v%v", prefix, string(r))
-		} else if currRuneIdx == len(chars) { // last rune, add suffix
-			s = fmt.Sprintf("%v%v", string(r), suffix)
-		} else { // the rest
-			s = string(r)
+		s = string(r)
+		// behind another one, add prefix
+		if byteIdx > 0 {
+			s = prefix + s
+		}
+		// last rune, add suffix
+		if currRuneIdx == len(chars)-1 {
+			s = s + suffix
 		}
 		currRuneIdx++
 
-- 
2.43.0


From ac861c455a7a245ca15a0127e24cb4d3641b0530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:49 +0000
Subject: [PATCH 40/96] fix: BPE offsets are wrong behind a byte of invalid
 UTF-8

---
 model/bpe/bpe.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/model/bpe/bpe.go b/model/bpe/bpe.go
index 8f92fbf..827ec68 100644
--- a/model/bpe/bpe.go
+++ b/model/bpe/bpe.go
@@ -14,6 +14,7 @@ import (
 	// "strconv"
 	"log"
 	"strings"
+	"unicode/utf8"
 
 	"github.com/sugarme/tokenizer"
 	"github.com/sugarme/tokenizer/model"
@@ -383,6 +384,9 @@ func (b *BPE) MergeWord(w string) *Word {
 			byteLen int
 		)
 		byteLen = len(string(r))
+		if r == utf8.RuneError { // an invalid byte counts as one
+			_, byteLen = utf8.DecodeRuneInString(w[byteIdx:])
+		}
 
 		s = string(r)
 		// behind another one, add prefix
-- 
2.43.0


From c60f60b6884291dda8140724771cb9e49d660fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:49 +0000
Subject: [PATCH 41/96] fix: BPE merges of the same rank are not applied from
 left to right

---
 model/bpe/word.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/model/bpe/word.go b/model/bpe/word.go
index 03b6b21..ad07893 100644
--- a/model/bpe/word.go
+++ b/model/bpe/word.go
@@ -261,16 +261,13 @@ func (w *Word) MergeAll(merges map[Pair]PairVal, dropoutOpt ...float32) {
 	}
 
 	// countComaparator return the `smaller` rank value
-	// if both ranks are equal, then return one with smaller timestamp
+	// if both ranks are equal, then return the leftmost one
 	countComparator := func(a, b interface{}) int {
 		c1 := a.(Merge).Rank
 		c2 := b.(Merge).Rank
 
 		if c1 == c2 {
-			aTime := a.(Merge).Time
-			bTime := b.(Merge).Time
-
-			return utils.TimeComparator(aTime, bTime)
+			return utils.IntComparator(a.(Merge).Pos, b.(Merge).Pos)
 		}
 
 		return utils.IntComparator(c1, c2)
-- 
2.43.0


From 437c990ab44097f6924b941c103a84bdd537b20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:49 +0000
Subject: [PATCH 42/96] fix: BPE merges dropped once are tried again and again

---
 model/bpe/word.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/model/bpe/word.go b/model/bpe/word.go
index ad07893..17354f5 100644
--- a/model/bpe/word.go
+++ b/model/bpe/word.go
@@ -321,6 +321,7 @@ func (w *Word) MergeAll(merges map[Pair]PairVal, dropoutOpt ...float32) {
 			for _, s := range skip {
 				queue.Push(s)
 			}
+			skip = nil
 
 			if (w.Symbols[top.(Merge).Pos]).Len > 0 {
 				if (w.Symbols[top.(Merge).Pos]).Next == -1 {
-- 
2.43.0


From 2447e0ca2bb6fd6ac42ade9f9db5ab49be4d3dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:49 +0000
Subject: [PATCH 43/96] fix: BPE without a cache panics

---
 model/bpe/bpe.go | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/model/bpe/bpe.go b/model/bpe/bpe.go
index 827ec68..d8d8cf8 100644
--- a/model/bpe/bpe.go
+++ b/model/bpe/bpe.go
@@ -483,18 +483,20 @@ func (b BPE) Tokenize(sequence string) (retVal []tokenizer.Token, err error) {
 
 func (b BPE) TokenizeWithCache(sequence string) (retVal []tokenizer.Token) {
 
-	if hit, ok := b.Cache.Get(sequence); ok {
-		return b.WordToTokens(hit)
-	} else {
-		word := b.MergeWord(sequence)
-		retVal = b.WordToTokens(*word)
-		if b.Cache != nil {
-			b.Cache.SetValues([]CacheItem{
-				{sequence, *word},
-			})
+	if b.Cache != nil {
+		if hit, ok := b.Cache.Get(sequence); ok {
+			return b.WordToTokens(hit)
 		}
-		return retVal
 	}
+
+	word := b.MergeWord(sequence)
+	retVal = b.WordToTokens(*word)
+	if b.Cache != nil {
+		b.Cache.SetValues([]CacheItem{
+			{sequence, *word},
+		})
+	}
+	return retVal
 }
 
 func (b BPE) TokenToId(token string) (id int, ok bool) {
-- 
2.43.0


From 353678631baa1219f9d7241627cb577379f2f2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:21 +0000
Subject: [PATCH 44/96] fix: BPE panics or uses id 0 for unknown characters
 when it has no unknown token

---
 model/bpe/bpe.go | 55 +++++++++++++++++++++++++++++++++++-------------
 1 file changed, 40 insertions(+), 15 deletions(-)

diff --git a/model/bpe/bpe.go b/model/bpe/bpe.go
index d8d8cf8..8fcfea2 100644
--- a/model/bpe/bpe.go
+++ b/model/bpe/bpe.go
@@ -356,8 +356,17 @@ func (b *BPE) GetContinuingSubwordPrfix() *string {
 	return b.ContinuingSubwordPrefix
 }
 
-// MergeWord merges given word
+// MergeWord merges given word. It panics if there's an unknown character but no `unk` token.
 func (b *BPE) MergeWord(w string) *Word {
+	word, err := b.mergeWord(w)
+	if err != nil {
+		panic(err)
+	}
+
+	return word
+}
+
+func (b *BPE) mergeWord(w string) (*Word, error) {
 
 	word := NewWord()
 	var (
@@ -404,15 +413,16 @@ func (b *BPE) MergeWord(w string) *Word {
 		if id, ok := vocab[s]; ok { // found
 			word.Add(id, byteLen)
 		} else { // not found, add `unk`
-			if b.UnkToken != nil {
-				// get `unk` id
-				unkId := (*b.Vocab)[*b.UnkToken]
-				// add `unk`
-				word.Add(unkId, byteLen)
-			} else {
-				fmt.Printf("cannot find '%s' in the vocab. \n", s)
-				panic("Can't find `unk` token in the vocab. Have you added one when initiating the model?")
+			if b.UnkToken == nil {
+				return nil, fmt.Errorf("cannot find '%s' in the vocab and there's no `unk` token. Have you added one when initiating the model?", s)
 			}
+			// get `unk` id
+			unkId, ok := vocab[*b.UnkToken]
+			if !ok {
+				return nil, fmt.Errorf("cannot find '%s' nor the `unk` token '%s' in the vocab", s, *b.UnkToken)
+			}
+			// add `unk`
+			word.Add(unkId, byteLen)
 		}
 	}
 
@@ -422,7 +432,7 @@ func (b *BPE) MergeWord(w string) *Word {
 		word.MergeAll(*b.Merges)
 	}
 
-	return word
+	return word, nil
 }
 
 // WordToTokens slices word to tokens
@@ -473,30 +483,45 @@ func (b BPE) Tokenize(sequence string) (retVal []tokenizer.Token, err error) {
 	}
 
 	if b.Dropout == nil {
-		return b.TokenizeWithCache(sequence), nil
+		return b.tokenizeWithCache(sequence)
 	}
 
-	word := b.MergeWord(sequence)
+	word, err := b.mergeWord(sequence)
+	if err != nil {
+		return nil, err
+	}
 
 	return b.WordToTokens(*word), nil
 }
 
 func (b BPE) TokenizeWithCache(sequence string) (retVal []tokenizer.Token) {
+	retVal, err := b.tokenizeWithCache(sequence)
+	if err != nil {
+		panic(err)
+	}
+
+	return retVal
+}
+
+func (b BPE) tokenizeWithCache(sequence string) (retVal []tokenizer.Token, err error) {
 
 	if b.Cache != nil {
 		if hit, ok := b.Cache.Get(sequence); ok {
-			return b.WordToTokens(hit)
+			return b.WordToTokens(hit), nil
 		}
 	}
 
-	word := b.MergeWord(sequence)
+	word, err := b.mergeWord(sequence)
+	if err != nil {
+		return nil, err
+	}
 	retVal = b.WordToTokens(*word)
 	if b.Cache != nil {
 		b.Cache.SetValues([]CacheItem{
 			{sequence, *word},
 		})
 	}
-	return retVal
+	return retVal, nil
 }
 
 func (b BPE) TokenToId(token string) (id int, ok bool) {
-- 
2.43.0


From 1c5b63b0ba877c1985120ff37a85bd7425836466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:17 +0000
Subject: [PATCH 45/96] fix: merges read from files repeat the continuing
 prefix inside the new token

---
 model/bpe/bpe.go | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/model/bpe/bpe.go b/model/bpe/bpe.go
index 8fcfea2..1534144 100644
--- a/model/bpe/bpe.go
+++ b/model/bpe/bpe.go
@@ -127,6 +127,7 @@ func (bb *BpeBuilder) Build() (*BPE, error) {
 
 	// Read files if provided
 	if bb.config.files != nil {
+		bpe.ContinuingSubwordPrefix = bb.config.continuingSubwordPrefix
 		vocab, merges, err = bpe.ReadFiles(bb.config.files.vocab, bb.config.files.merges)
 		if err != nil {
 			return nil, err
@@ -260,6 +261,11 @@ func (b *BPE) ReadFiles(vocabF string, mergesF string) (*model.Vocab, *Merges, e
 		return nil, nil, err
 	}
 
+	var prefix string
+	if b.ContinuingSubwordPrefix != nil {
+		prefix = *b.ContinuingSubwordPrefix
+	}
+
 	// Read merges file. Each line contains a Merges object(rank, )
 	// Recall: Merges is map[Pair]PairVal (rank int, newId int)
 	mFile, err := os.Open(mergesF)
@@ -305,7 +311,7 @@ func (b *BPE) ReadFiles(vocabF string, mergesF string) (*model.Vocab, *Merges, e
 
 		pair := Pair{a, b}
 		// newToken := fmt.Sprintf("%v%v", parts[0], parts[1])
-		newToken := fmt.Sprintf("%v%v", parts[0], parts[1])
+		newToken := fmt.Sprintf("%v%v", parts[0], strings.TrimPrefix(parts[1], prefix))
 		newId, ok := vocab[newToken]
 		if !ok {
 			err = fmt.Errorf("Read merge file error: key value for token: \"%s\" not found.", newToken)
@@ -632,7 +638,13 @@ func makeFilePath(filename string) error {
 	return os.MkdirAll(dirName, os.ModePerm)
 }
 
-func CreateMerges(vocab map[string]int, mergesData []string) (*Merges, error) {
+// CreateMerges creates merges of the given pairs. If there is a continuing subword prefix,
+// it is not repeated when the second part of a pair is put behind the first.
+func CreateMerges(vocab map[string]int, mergesData []string, continuingSubwordPrefix ...string) (*Merges, error) {
+	var prefix string
+	if len(continuingSubwordPrefix) > 0 {
+		prefix = continuingSubwordPrefix[0]
+	}
 	var (
 		lineNum int    = 0
 		merges  Merges = make(map[Pair]PairVal)
@@ -660,7 +672,7 @@ func CreateMerges(vocab map[string]int, mergesData []string) (*Merges, error) {
 
 		pair := Pair{a, b}
 		// newToken := fmt.Sprintf("%v%v", parts[0], parts[1])
-		newToken := fmt.Sprintf("%v%v", parts[0], parts[1])
+		newToken := fmt.Sprintf("%v%v", parts[0], strings.TrimPrefix(parts[1], prefix))
 		newId, ok := vocab[newToken]
 		if !ok {
 			err := fmt.Errorf("Read merges error: key value for token: \"%s\" not found.", newToken)
@@ -687,7 +699,11 @@ func New(
 	continuingSubwordPrefix *string,
 	endOfWordSuffix *string,
 ) (*BPE, error) {
-	merges, err := CreateMerges(vocab, mergesData)
+	var prefix string
+	if continuingSubwordPrefix != nil {
+		prefix = *continuingSubwordPrefix
+	}
+	merges, err := CreateMerges(vocab, mergesData, prefix)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From c9cb1e5ed7bf2e8b75775ffb2dcab8d65712c31b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:45 +0000
Subject: [PATCH 46/96] fix: BPE training loses the special tokens

---
 model/bpe/trainer.go | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/model/bpe/trainer.go b/model/bpe/trainer.go
index dc93a00..242a9c0 100644
--- a/model/bpe/trainer.go
+++ b/model/bpe/trainer.go
@@ -187,23 +187,20 @@ func (bt *BpeTrainer) updateProgress(p interface{}, len int, msg string) {
 }
 
 // addSpecialTokens adds the provided special tokens to the initial vocabulary
-func (bt *BpeTrainer) addSpecialTokens(w2id map[string]int, id2w []string) {
+func (bt *BpeTrainer) addSpecialTokens(w2id map[string]int, id2w []string) []string {
 	for _, tok := range bt.SpecialTokens {
 		if _, ok := w2id[tok.Content]; !ok {
 			id2w = append(id2w, tok.Content)
 			w2id[tok.Content] = len(id2w) - 1
 		}
 	}
+	return id2w
 }
 
-// computeAlphabet generate maps of `chars` from input words and limit it if relevant
-func (bt *BpeTrainer) computeAlphabet(wc map[string]int) (wordToId map[string]int, IdToWord []string) {
+// computeAlphabet adds `chars` from input words to the given maps and limit it if relevant
+func (bt *BpeTrainer) computeAlphabet(wc map[string]int, w2id map[string]int, id2w []string) (wordToId map[string]int, IdToWord []string) {
 	// compute the alphabet from seen words
-	var (
-		alphabet map[string]int = make(map[string]int)
-		w2id     map[string]int = make(map[string]int)
-		id2w     []string
-	)
+	var alphabet map[string]int = make(map[string]int)
 
 	for word, count := range wc {
 		chars := strings.Split(word, "")
@@ -612,13 +609,13 @@ func (bt *BpeTrainer) train(wordCounts map[string]int) (BPE, []tokenizer.AddedTo
 
 	// 1. Add all special tokens to the vocabular
 	fmt.Printf("1. Adding special tokens...\n")
-	bt.addSpecialTokens(wordToId, idToWord)
+	idToWord = bt.addSpecialTokens(wordToId, idToWord)
 
 	// 2. Compute the initial alphabet (create maps of `chars`)
 	// These maps will be updated if `prefix`, `suffix` are added
 	// in the following steps
 	fmt.Printf("2. Creating maps of 'chars'...\n")
-	wordToId, idToWord = bt.computeAlphabet(wordCounts)
+	wordToId, idToWord = bt.computeAlphabet(wordCounts, wordToId, idToWord)
 	// fmt.Printf("Before id2Word: length %v - values:  %v\n", len(idToWord), idToWord)
 	// fmt.Printf("Before word2Id: length %v - %v\n", len(wordToId), wordToId)
 
-- 
2.43.0


From b8495ee6fbba46a91c4fd383a5877a3928a9c31e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:47 +0000
Subject: [PATCH 47/96] fix: limiting the alphabet keeps the wrong characters

---
 model/bpe/trainer.go | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/model/bpe/trainer.go b/model/bpe/trainer.go
index 242a9c0..03754ca 100644
--- a/model/bpe/trainer.go
+++ b/model/bpe/trainer.go
@@ -205,13 +205,7 @@ func (bt *BpeTrainer) computeAlphabet(wc map[string]int, w2id map[string]int, id
 	for word, count := range wc {
 		chars := strings.Split(word, "")
 		for _, char := range chars {
-			// if char not existing, newCount will be zero
-			if newCount, ok := alphabet[char]; ok {
-				newCount += count
-				alphabet[char] = newCount
-			} else {
-				alphabet[char] = newCount
-			}
+			alphabet[char] += count
 		}
 	}
 
@@ -241,7 +235,6 @@ func (bt *BpeTrainer) computeAlphabet(wc map[string]int, w2id map[string]int, id
 	// compute the number of chars to remove from the alphabet
 	// if `limitAlphabet` < `len(initialAlphabet)` some of these
 	// initial characters will be removed.
-	// TODO: how we sort these characters before cutting off?
 	var toRemove int = 0
 	var limit int
 	if bt.LimitAlphabet != nil {
@@ -253,14 +246,15 @@ func (bt *BpeTrainer) computeAlphabet(wc map[string]int, w2id map[string]int, id
 
 	// remove the unwanted `chars`
 	if toRemove > 0 {
-		fmt.Println("We are going to remove some chars...")
-		// 1. Sort `kept` by char alphabetically?
-		// TODO: double-check this (sort by char or freq? asc or desc)
+		// 1. Sort `kept` by freq, most frequent first (and by char for determinism)
 		sort.Slice(kept, func(i, j int) bool {
+			if kept[i].Freq != kept[j].Freq {
+				return kept[i].Freq > kept[j].Freq
+			}
 			return kept[i].Char < kept[j].Char
 		})
 		// 2. Remove the unwanted chars
-		kept = kept[:toRemove]
+		kept = kept[:len(kept)-toRemove]
 	}
 
 	// // Keep the initial alphabet (sorted by determinism)
-- 
2.43.0


From c3fcf6ba033af086c4a160746394ef573b1d096b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:49 +0000
Subject: [PATCH 48/96] fix: BPE training puts prefix and suffix on the wrong
 characters

---
 model/bpe/trainer.go | 21 +++++----------------
 1 file changed, 5 insertions(+), 16 deletions(-)

diff --git a/model/bpe/trainer.go b/model/bpe/trainer.go
index 03754ca..7d7d71a 100644
--- a/model/bpe/trainer.go
+++ b/model/bpe/trainer.go
@@ -309,26 +309,15 @@ func (bt *BpeTrainer) tokenizeWords(wc map[string]int, w2id map[string]int, id2w
 		chars := strings.Split(word, "")
 
 		for i, c := range chars {
-			var s string
 			if _, ok := w2id[c]; ok {
+				s := c
 				// Add the `continuingSubwordPrefix` if relevant
-				if i == 0 { // first `char`
-					if prefix := bt.ContinuingSubwordPrefix; prefix != nil {
-						s = fmt.Sprintf("%v%v", &prefix, c)
-					} else {
-						s = c
-					}
-				}
-				if i > 0 && i < len(chars)-1 {
-					s = c
+				if prefix := bt.ContinuingSubwordPrefix; prefix != nil && i > 0 {
+					s = *prefix + s
 				}
 				// Add the `endOfWordSuffix` if relevant
-				if i == len(chars)-1 { // last `char`
-					if suffix := bt.EndOfWordSuffix; suffix != nil {
-						s = fmt.Sprintf("%v%v", &suffix, c)
-					} else {
-						s = c
-					}
+				if suffix := bt.EndOfWordSuffix; suffix != nil && i == len(chars)-1 { // last `char`
+					s = s + *suffix
 				}
 
 				// Insert the new formed string if neccessary
-- 
2.43.0


From 0192fa9412a1273f100012a13abad740f177701d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:50 +0000
Subject: [PATCH 49/96] fix: BPE training ignores most words when there are
 10000 or more

---
 model/bpe/trainer.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/model/bpe/trainer.go b/model/bpe/trainer.go
index 7d7d71a..edd2435 100644
--- a/model/bpe/trainer.go
+++ b/model/bpe/trainer.go
@@ -407,7 +407,7 @@ func (bt *BpeTrainer) countPairs(words []Word, counts []int, progress interface{
 
 				// fmt.Printf("Word: %v\n", word)
 				var window = 2
-				for x := 0; i < len(word.Symbols)-1; x += window - 1 {
+				for x := 0; x < len(word.Symbols)-1; x += window - 1 {
 					y := x + window
 					if y > len(word.Symbols) {
 						// TODO: should we stop when last chunk < chunk size or we just return it
@@ -469,7 +469,13 @@ func (bt *BpeTrainer) countPairs(words []Word, counts []int, progress interface{
 			}
 
 			for pair, hashSet := range res.WT {
-				whereToUpdate[pair] = hashSet
+				if _, ok := whereToUpdate[pair]; !ok {
+					whereToUpdate[pair] = hashSet
+					continue
+				}
+				for pos := range hashSet {
+					whereToUpdate[pair][pos] = struct{}{}
+				}
 			}
 		}
 
-- 
2.43.0


From 4af2b34b1daae8ea7ed22469b8e6c569dfdbbc30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:51 +0000
Subject: [PATCH 50/96] fix: Word.Merge leaves out the changes behind a merge
 at the start of the word

---
 model/bpe/word.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/model/bpe/word.go b/model/bpe/word.go
index 17354f5..ff35d17 100644
--- a/model/bpe/word.go
+++ b/model/bpe/word.go
@@ -227,7 +227,7 @@ func (w *Word) Merge(c1, c2, replacement int) ([]WChange, error) {
 			}
 
 			// If there are other `chars` after the pair
-			if i > 0 && i < len(w.Symbols)-1 {
+			if i < len(w.Symbols)-1 {
 				// fmt.Println("Yes, there some char after the pair")
 				changes = append(changes, WChange{
 					C1:     second.C,
-- 
2.43.0


From 225b9c144188604df9d011a219308018e9e2a169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:57 +0000
Subject: [PATCH 51/96] fix: BPE training merges pairs by outdated counts and
 breaks ties by chance

---
 model/bpe/trainer.go | 79 +++++++++++++++++++++-----------------------
 1 file changed, 38 insertions(+), 41 deletions(-)

diff --git a/model/bpe/trainer.go b/model/bpe/trainer.go
index edd2435..32e522e 100644
--- a/model/bpe/trainer.go
+++ b/model/bpe/trainer.go
@@ -638,16 +638,19 @@ func (bt *BpeTrainer) train(wordCounts map[string]int) (BPE, []tokenizer.AddedTo
 	// 5. Do merges
 	fmt.Printf("5. Merging pairs from top count down...\n")
 
-	// countComparator sort heap descendingly by `Count` field of TMerge struct
+	// countComparator sort heap descendingly by `Count` field of TMerge struct,
+	// the smaller pair first if counts are equal
 	countComparator := func(a, b interface{}) int {
 		c1 := a.(TMerge).Count
 		c2 := b.(TMerge).Count
 
 		if c1 == c2 {
-			aTime := a.(TMerge).Time
-			bTime := b.(TMerge).Time
-
-			return utils.TimeComparator(bTime, aTime)
+			aPair := a.(TMerge).Pair
+			bPair := b.(TMerge).Pair
+			if aPair.C1 != bPair.C1 {
+				return utils.IntComparator(aPair.C1, bPair.C1)
+			}
+			return utils.IntComparator(aPair.C2, bPair.C2)
 		}
 
 		return utils.IntComparator(c2, c1)
@@ -680,6 +683,7 @@ func (bt *BpeTrainer) train(wordCounts map[string]int) (BPE, []tokenizer.AddedTo
 	}
 
 	var merges []TMerges
+	var merged map[Pair]bool = make(map[Pair]bool)
 
 	// fmt.Printf("Word2ID before merge loop: %v\n", wordToId)
 
@@ -714,7 +718,8 @@ func (bt *BpeTrainer) train(wordCounts map[string]int) (BPE, []tokenizer.AddedTo
 		// fmt.Printf("Top: count = %v | pair: %v\n", top.Count, top.Pair)
 
 		if top.Count != pairCounts[top.Pair] {
-			pairCounts[top.Pair] = top.Count
+			// outdated
+			top.Count = pairCounts[top.Pair]
 			queue.Push(top)
 			// fmt.Println("Not found. Push new one...")
 
@@ -728,7 +733,7 @@ func (bt *BpeTrainer) train(wordCounts map[string]int) (BPE, []tokenizer.AddedTo
 
 		// If `pair` is no longer mapped in its origin word, skip merging
 		var skip bool = true
-		for p, _ := range top.Pos {
+		for p, _ := range whereToUpdate[top.Pair] {
 			w := words[p]
 			c1 := top.Pair.C1
 			c2 := top.Pair.C2
@@ -761,10 +766,16 @@ func (bt *BpeTrainer) train(wordCounts map[string]int) (BPE, []tokenizer.AddedTo
 		// fmt.Printf("new token: %v\n", newToken)
 
 		// Insert new token
-		newTokenId := len(idToWord)
-		idToWord = append(idToWord, newToken)
-		wordToId[newToken] = newTokenId
-		merges = append(merges, TMerges{top.Pair, newTokenId})
+		newTokenId, ok := wordToId[newToken]
+		if !ok {
+			newTokenId = len(idToWord)
+			idToWord = append(idToWord, newToken)
+			wordToId[newToken] = newTokenId
+		}
+		if !merged[top.Pair] {
+			merges = append(merges, TMerges{top.Pair, newTokenId})
+			merged[top.Pair] = true
+		}
 
 		type TChange struct {
 			WChange WChange
@@ -772,7 +783,7 @@ func (bt *BpeTrainer) train(wordCounts map[string]int) (BPE, []tokenizer.AddedTo
 		}
 		var changes []TChange
 		// Merge the new pair in word(s) that contains the current pair
-		for i, _ := range top.Pos {
+		for i, _ := range whereToUpdate[top.Pair] {
 			// NOTE: words []Word
 			// TODO: merge each of these words concurrently
 			w := words[i]
@@ -787,49 +798,35 @@ func (bt *BpeTrainer) train(wordCounts map[string]int) (BPE, []tokenizer.AddedTo
 			}
 		}
 
-		// Introduce new formed pairs
-		// NOTE: reset `whereToUpdate` first
-		whereToUpdate = make(map[Pair]UintSet)
+		// Update counts and introduce new formed pairs
+		var formed map[Pair]bool = make(map[Pair]bool)
 		for _, tc := range changes {
-			if tc.WChange.Change > 0 {
-				count := tc.WChange.Change * counts[tc.WIndex]
-
-				pair := Pair{tc.WChange.C1, tc.WChange.C2}
-
-				if _, ok := pairCounts[pair]; !ok {
-					pairCounts[pair] = count
-					// fmt.Printf("pair: %v - count: %v\n", pair, count)
-				} else {
-					c, _ := pairCounts[pair]
-					c += count
-					pairCounts[pair] = c
-					// fmt.Printf("pair: %v - count: %v\n", pair, c)
-				}
+			pair := Pair{tc.WChange.C1, tc.WChange.C2}
+			pairCounts[pair] += tc.WChange.Change * counts[tc.WIndex]
 
-				var hs UintSet = make(map[int]struct{})
-				if h, ok := whereToUpdate[pair]; !ok {
-					// if not existing, we create new one anyway
-					hs[tc.WIndex] = struct{}{}
-					whereToUpdate[pair] = hs
-				} else {
-					// Existing, append one
-					h[tc.WIndex] = struct{}{}
-					whereToUpdate[pair] = h
+			if tc.WChange.Change > 0 {
+				formed[pair] = true
+				if _, ok := whereToUpdate[pair]; !ok {
+					whereToUpdate[pair] = make(map[int]struct{})
 				}
+				whereToUpdate[pair][tc.WIndex] = struct{}{}
 			}
 		}
+		// nothing of the merged pair is left
+		pairCounts[top.Pair] = 0
+		delete(whereToUpdate, top.Pair)
 
 		// fmt.Printf("length of whereToUpdate: %v\n", len(whereToUpdate))
 		// fmt.Println(whereToUpdate)
 
-		for pair, pos := range whereToUpdate {
+		for pair := range formed {
 			count := pairCounts[pair]
 			// char1 := idToWord[pair.C1]
 			// char2 := idToWord[pair.C2]
-			// fmt.Printf("pair chars: '%v%v' - pair: %v - count: %v - pos: %v\n", char1, char2, pair, count, pos)
+			// fmt.Printf("pair chars: '%v%v' - pair: %v - count: %v\n", char1, char2, pair, count)
 			if count > 0 {
 				queue.Push(TMerge{
-					pair, count, pos, time.Now(),
+					Pair: pair, Count: count, Pos: whereToUpdate[pair],
 				})
 			}
 		}
-- 
2.43.0


From 7cbf074e5cd0f51bfd38212bf3e8eaf24e33a7e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:48 +0000
Subject: [PATCH 52/96] fix: Train counts words of large files wrongly and ends
 the process on a missing file

---
 tokenizer.go | 98 ++++++++++++++++++++++++++++++----------------------
 1 file changed, 56 insertions(+), 42 deletions(-)

diff --git a/tokenizer.go b/tokenizer.go
index baaa0d7..3dae136 100644
--- a/tokenizer.go
+++ b/tokenizer.go
@@ -5,6 +5,7 @@ import (
 	"bufio"
 	// "context"
 	"fmt"
+	"io"
 	"log"
 	"math"
 	"os"
@@ -24,9 +25,11 @@ import (
 
 const (
 	mb = 1024 * 1024
-	gb = 1024 * mb
 )
 
+// trainChunkSize is the number of bytes of a file that one worker of `Train` reads
+var trainChunkSize int64 = 100 * mb
+
 type Token struct {
 	Id      int
 	Value   string
@@ -760,6 +763,7 @@ func (t *Tokenizer) Train(trainer Trainer, files []string) error {
 	type Job struct {
 		File     string
 		Progress *progressbar.ProgressBar
+		Size     int64
 	}
 
 	var jobs []Job
@@ -769,16 +773,16 @@ func (t *Tokenizer) Train(trainer Trainer, files []string) error {
 	doneChan := make(chan (bool), 1)
 	dict := make(map[string]int)
 
-	scanWG := new(sync.WaitGroup)
+	scanWG := new(errgroup.Group)
 
 	for _, f := range files {
 		fsize, err := util.FileSize(f)
 		if err != nil {
-			log.Fatal(err)
+			return err
 		}
 		bar := progressbar.New(int(fsize))
 
-		jobs = append(jobs, Job{f, bar})
+		jobs = append(jobs, Job{f, bar, fsize})
 	}
 
 	// Step 1. scan text files by chunks in goroutines. In each goroutine,
@@ -795,28 +799,25 @@ func (t *Tokenizer) Train(trainer Trainer, files []string) error {
 		currentJob := i
 
 		file := jobs[currentJob].File
-		// current is the counter for bytes of the file.
-		var current int64 = 0
-		var limit int64 = 100 * mb
+		var limit int64 = trainChunkSize
 
-		fi, err := os.Stat(file)
-		if err != nil {
-			return err
-		}
-		fsize := float64(fi.Size())
+		fsize := float64(jobs[currentJob].Size)
 
 		chunkNum := int(math.Ceil(fsize / float64(limit)))
 
 		// Setup some workers to process
 		for n := 1; n <= chunkNum; n++ {
-			scanWG.Add(1)
+			n := n
 
-			go func(n int, file string) {
+			scanWG.Go(func() error {
 				// start reading file chunk by chunk
-				current = t.processChunk(current, limit, file, wChan, trainer)
+				err := t.processChunk(int64(n-1)*limit, limit, file, wChan, trainer)
+				if err != nil {
+					return err
+				}
 				fmt.Printf("File chunk %d has been completed\n", n)
-				scanWG.Done()
-			}(n, file)
+				return nil
+			})
 		}
 	}
 
@@ -841,13 +842,18 @@ func (t *Tokenizer) Train(trainer Trainer, files []string) error {
 	}()
 
 	// wait for all goroutines to complete
-	scanWG.Wait()
+	err := scanWG.Wait()
 	close(wChan)
 
 	// Wait for dictionary to process all words then close
 	<-doneChan
 	close(doneChan)
 
+	// Words are missing if any of the chunks could not be read
+	if err != nil {
+		return err
+	}
+
 	fmt.Printf("Dictionary length: %v words\n", len(dict))
 	// // Print out some samples
 	// var count = 0
@@ -869,42 +875,50 @@ func (t *Tokenizer) Train(trainer Trainer, files []string) error {
 	return nil
 }
 
-// processChunk reads file chunk and processes it to word-count and sends off to channel
+// processChunk reads file chunk and processes it to word-count and sends off to channel.
+// The lines of a chunk are those that start in it.
 // offset: start bound
-// limit: end bound
+// limit: size of the chunk
 // filename: file path includes file name
 // channel: channel to send proccessed words to.
-// current: cummulative point where the file processing stops.
 // trainer: Trainer to process tokens
-func (t *Tokenizer) processChunk(offset int64, limit int64, filename string, channel chan (map[string]int), trainer Trainer) (current int64) {
+func (t *Tokenizer) processChunk(offset int64, limit int64, filename string, channel chan (map[string]int), trainer Trainer) error {
 	file, err := os.Open(filename)
 	if err != nil {
-		panic(err)
+		return err
 	}
 	defer file.Close()
 
-	// move the pointer of the file to the start of designated chunk
-	file.Seek(offset, 0) // 0 means relative to the origin of file
-
-	scanner := bufio.NewScanner(file)
-	buf := make([]byte, 0, 1*gb) // initial buffer
-	scanner.Buffer(buf, 2*gb)    // max buffer size = 2GB
-
-	var cummulativeSize int64
+	reader := bufio.NewReader(file)
+	current := offset // where the next line starts
 
-	for scanner.Scan() {
-		// Stop if read size has exceed the chunk size
-		cummulativeSize += int64(len(scanner.Bytes()))
-		if cummulativeSize > limit {
-			break
+	if offset > 0 {
+		// move the pointer of the file to the start of designated chunk, and
+		// leave a line that started before it to the chunks before
+		current = offset - 1
+		if _, err := file.Seek(current, io.SeekStart); err != nil {
+			return err
+		}
+		skipped, err := reader.ReadString('\n')
+		if err != nil && err != io.EOF {
+			return err
 		}
+		current += int64(len(skipped))
+	}
 
+	for current < offset+limit {
 		// line words
 		lwords := make(map[string]int)
 		var line string
-		line = scanner.Text()
-		// NOTE: io.scanner returns line w/o `\n`. We add it back manually.
-		// line = fmt.Sprintf("%v\n", line)
+		line, err = reader.ReadString('\n')
+		if err != nil && err != io.EOF {
+			return err
+		}
+		if len(line) == 0 {
+			break // end of file
+		}
+		current += int64(len(line))
+		line = strings.TrimSuffix(strings.TrimSuffix(line, "\n"), "\r")
 
 		/* input := NewSingleEncodeInput(NewInputSequence(line))
 		 * encoding, err := t.Encode(input, false)
@@ -914,13 +928,13 @@ func (t *Tokenizer) processChunk(offset int64, limit int64, filename string, cha
 
 		normalized, err := t.doNormalize(line)
 		if err != nil {
-			log.Fatalf("call 'doNormalize' method error: %v\n", err)
+			return fmt.Errorf("call 'doNormalize' method error: %w", err)
 		}
 
 		pretok := NewPreTokenizedStringFromNS(normalized)
 		pretokenized, err := t.doPreTokenize(pretok)
 		if err != nil {
-			log.Fatalf("call 'doPreTokenize' method error: %v\n", err)
+			return fmt.Errorf("call 'doPreTokenize' method error: %w", err)
 		}
 
 		// NOTE. should we get OffsetType as input parameter: either Byte or Char?
@@ -952,7 +966,7 @@ func (t *Tokenizer) processChunk(offset int64, limit int64, filename string, cha
 
 	}
 
-	return cummulativeSize
+	return nil
 }
 
 /*
-- 
2.43.0


From 41e97d879a99ef8efef17032fef9f10aec518715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:50 +0000
Subject: [PATCH 53/96] verif hook: size of the chunks of files that Train
 reads

---
 verif_hooks.go | 9 +++++++++
 1 file changed, 9 insertions(+)
 create mode 100644 verif_hooks.go

diff --git a/verif_hooks.go b/verif_hooks.go
new file mode 100644
index 0000000..efd6d57
--- /dev/null
+++ b/verif_hooks.go
@@ -0,0 +1,9 @@
+//go:build verif
+
+package tokenizer
+
+// SetTrainChunkSize sets the number of bytes of a file that one worker of
+// `Train` reads, so that chunks of small files can be verified too.
+func SetTrainChunkSize(n int64) {
+	trainChunkSize = n
+}
-- 
2.43.0


From 454705b9d96f2161404cf683cd8ecde6eb9a59ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:45 +0000
Subject: [PATCH 54/96] fix: WordPiece offsets count characters instead of
 bytes

---
 model/wordpiece/wordpiece.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/model/wordpiece/wordpiece.go b/model/wordpiece/wordpiece.go
index a691bc9..4d221c4 100644
--- a/model/wordpiece/wordpiece.go
+++ b/model/wordpiece/wordpiece.go
@@ -257,8 +257,13 @@ func (wp WordPiece) Tokenize(sequence string) (retVal []tokenizer.Token, err err
 
 	var outputTokens []tokenizer.Token
 
-	chars := []rune(sequence)
-	charLen := len(chars)
+	// positions of the characters, and the end, in bytes
+	var pos []int
+	for i := range sequence {
+		pos = append(pos, i)
+	}
+	charLen := len(pos)
+	pos = append(pos, len(sequence))
 	if charLen > wp.maxInputCharsPerWord {
 		id, ok := (*wp.vocab)[wp.unkToken]
 		if !ok {
@@ -268,7 +273,7 @@ func (wp WordPiece) Tokenize(sequence string) (retVal []tokenizer.Token, err err
 		token := tokenizer.Token{
 			Value:   wp.unkToken,
 			Id:      id,
-			Offsets: []int{0, charLen},
+			Offsets: []int{0, len(sequence)},
 		}
 		outputTokens = append(outputTokens, token)
 
@@ -286,7 +291,7 @@ func (wp WordPiece) Tokenize(sequence string) (retVal []tokenizer.Token, err err
 		var currStr *tokenizer.Token
 
 		for start < end {
-			substr := string(chars[start:end])
+			substr := sequence[pos[start]:pos[end]]
 			if start > 0 {
 				substr = fmt.Sprintf("%v%v", wp.continueSubwordPrefix, substr)
 			}
@@ -295,7 +300,7 @@ func (wp WordPiece) Tokenize(sequence string) (retVal []tokenizer.Token, err err
 				currStr = &tokenizer.Token{
 					Id:      id,
 					Value:   substr,
-					Offsets: []int{start, end},
+					Offsets: []int{pos[start], pos[end]},
 				}
 
 				break
@@ -320,7 +325,7 @@ func (wp WordPiece) Tokenize(sequence string) (retVal []tokenizer.Token, err err
 		token := tokenizer.Token{
 			Value:   wp.unkToken,
 			Id:      id,
-			Offsets: []int{0, charLen},
+			Offsets: []int{0, len(sequence)},
 		}
 
 		outputTokens = append(outputTokens, token)
-- 
2.43.0


From f3b26ee40e58ccca58f091c65b0f776d8aaa8e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:46 +0000
Subject: [PATCH 55/96] fix: the continuing subword prefix of a WordPiece
 configuration is ignored

---
 model/wordpiece/wordpiece.go | 2 +-
 pretrained/model.go          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/model/wordpiece/wordpiece.go b/model/wordpiece/wordpiece.go
index 4d221c4..ef86b50 100644
--- a/model/wordpiece/wordpiece.go
+++ b/model/wordpiece/wordpiece.go
@@ -423,7 +423,7 @@ func New(
 	if opts.Has("unk_token") {
 		unkToken = opts.Get("unk_token").(string)
 	}
-	if opts.Has("continuingSubwordPrefix") {
+	if opts.Has("continuing_subword_prefix") {
 		continuingSubwordPrefix = opts.Get("continuing_subword_prefix").(string)
 	}
 	if opts.Has("max_input_chars_per_word") {
diff --git a/pretrained/model.go b/pretrained/model.go
index 507790d..3a01e3c 100644
--- a/pretrained/model.go
+++ b/pretrained/model.go
@@ -128,7 +128,7 @@ func createWordPiece(params *util.Params) (tokenizer.Model, error) {
 	}
 	if params.Has("continuing_subword_prefix") {
 		v := params.Get("continuing_subword_prefix").(string)
-		opts.Get("continuing_subword_prefix", v)
+		opts.Set("continuing_subword_prefix", v)
 	}
 
 	if params.Has("max_input_chars_per_word") {
-- 
2.43.0


From ea609573ef24d99f32e8e6c6bc3c51c4d4c99090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:47 +0000
Subject: [PATCH 56/96] fix: WordLevelBuilder.UnkToken changes the id of a
 token already in the vocab

---
 model/wordlevel/wordlevel.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/model/wordlevel/wordlevel.go b/model/wordlevel/wordlevel.go
index 8fc7806..d8b0567 100644
--- a/model/wordlevel/wordlevel.go
+++ b/model/wordlevel/wordlevel.go
@@ -46,7 +46,23 @@ func (wlb *WordLevelBuilder) Vocab(vocab map[string]int) {
 // UnkToken set `UNK` token for the vocab
 func (wlb *WordLevelBuilder) UnkToken(unkToken string) {
 	wlb.config.unkToken = unkToken
-	wlb.config.vocab[unkToken] = len(wlb.config.vocab)
+	if _, ok := wlb.config.vocab[unkToken]; ok {
+		return
+	}
+
+	// not in vocab, give it the first free id
+	if wlb.config.vocab == nil {
+		wlb.config.vocab = make(map[string]int)
+	}
+	used := make(map[int]bool)
+	for _, id := range wlb.config.vocab {
+		used[id] = true
+	}
+	id := len(wlb.config.vocab)
+	for used[id] {
+		id++
+	}
+	wlb.config.vocab[unkToken] = id
 }
 
 // Build builds a WordLevel using configuration
-- 
2.43.0


From 3ad627e940491ce3888a73aa2df657a92307f033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:06 +0000
Subject: [PATCH 57/96] fix: Unigram prefers long pieces to a better score and
 ignores those of more than 20 bytes

---
 model/unigram/unigram.go | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/model/unigram/unigram.go b/model/unigram/unigram.go
index 8f40367..d4acca9 100644
--- a/model/unigram/unigram.go
+++ b/model/unigram/unigram.go
@@ -39,6 +39,7 @@ type Config struct {
 type Unigram struct {
 	vocab         []TokenScore
 	tokenToIDs    map[string]int
+	maxLen        int // length of the longest token, in bytes
 	unkID         *int
 	bytesFallback bool
 	fuseUnk       bool
@@ -92,8 +93,10 @@ func (ub *UnigramBuilder) FuseUnk(fuseUnk bool) *UnigramBuilder {
 func (ub *UnigramBuilder) Build() (*Unigram, error) {
 	// Create token to ID mapping
 	tokenToIDs := make(map[string]int, len(ub.config.vocab))
+	maxLen := 0
 	for i, ts := range ub.config.vocab {
 		tokenToIDs[ts.Token] = i
+		maxLen = max(maxLen, len(ts.Token))
 	}
 
 	// Validate unkID if provided
@@ -106,6 +109,7 @@ func (ub *UnigramBuilder) Build() (*Unigram, error) {
 	return &Unigram{
 		vocab:         ub.config.vocab,
 		tokenToIDs:    tokenToIDs,
+		maxLen:        maxLen,
 		unkID:         ub.config.unkID,
 		bytesFallback: ub.config.bytesFallback,
 		fuseUnk:       ub.config.fuseUnk,
@@ -338,8 +342,8 @@ func (u *Unigram) tokenizeWithViterbi(sequence string) ([]string, error) {
 		}
 
 		// Try all possible tokens starting at this position
-		// Limit the maximum token length to 20 characters for efficiency
-		maxLen := 20
+		// None is longer than the longest token of the vocabulary
+		maxLen := u.maxLen
 		if i+maxLen > n {
 			maxLen = n - i
 		}
@@ -372,13 +376,8 @@ func (u *Unigram) tokenizeWithViterbi(sequence string) ([]string, error) {
 			// If the token is in the vocabulary, use its score
 			score := u.vocab[id].Score
 
-			// Add a bonus for longer tokens to match the Rust implementation
-			// This helps prioritize longer tokens like "ab" over "a" + "b"
-			tokenLength := j - i
-			lengthBonus := float64(tokenLength) * 0.1
-
 			// Calculate the new score for this path
-			newScore := lattice[i].bestScore + score + lengthBonus
+			newScore := lattice[i].bestScore + score
 
 			// If this is a better path to position j, update the lattice
 			if newScore > lattice[j].bestScore {
-- 
2.43.0


From 427aca9935d205976ff573b1475f2cd1022c7572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:07 +0000
Subject: [PATCH 58/96] fix: Unigram makes a text with invalid UTF-8 one
 unknown token

---
 model/unigram/unigram.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/model/unigram/unigram.go b/model/unigram/unigram.go
index d4acca9..3c5af9d 100644
--- a/model/unigram/unigram.go
+++ b/model/unigram/unigram.go
@@ -354,8 +354,7 @@ func (u *Unigram) tokenizeWithViterbi(sequence string) ([]string, error) {
 		// Get the length of the current character in UTF-8
 		charLen := 1
 		if i < n {
-			r, _ := utf8.DecodeRuneInString(sequence[i:])
-			charLen = utf8.RuneLen(r)
+			_, charLen = utf8.DecodeRuneInString(sequence[i:])
 		}
 
 		// Try to match tokens of all lengths
-- 
2.43.0


From 1897fcd2647bca7e5b06f7ae6d60fbe5ab2250fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:07 +0000
Subject: [PATCH 59/96] fix: Unigram byte fallback replaces known pieces,
 misplaces tokens and drops text

---
 model/unigram/unigram.go | 235 ++++++++++++++++++---------------------
 1 file changed, 106 insertions(+), 129 deletions(-)

diff --git a/model/unigram/unigram.go b/model/unigram/unigram.go
index 3c5af9d..a392193 100644
--- a/model/unigram/unigram.go
+++ b/model/unigram/unigram.go
@@ -9,7 +9,6 @@ import (
 	"math"
 	"os"
 	"path/filepath"
-	"strings"
 	"time"
 	"unicode/utf8"
 )
@@ -251,63 +250,102 @@ func (u *Unigram) Tokenize(sequence string) ([]tokenizer.Token, error) {
 	// Check cache first
 	data, ok := u.cache.Get(sequence)
 	if ok {
-		tokens := data.([]string)
-		return u.tokensToTokenizer(tokens, sequence), nil
-	}
-
-	// If byte fallback is enabled, always use it
-	if u.bytesFallback {
-		tokens := u.tokenizeWithByteFallback(sequence)
-		u.cache.Set(sequence, tokens, CacheExpiredTime*time.Minute)
-
-		return u.tokensToTokenizer(tokens, sequence), nil
+		return copyTokens(data.([]tokenizer.Token)), nil
 	}
 
 	// Tokenize using the Viterbi algorithm
-	tokens, err := u.tokenizeWithViterbi(sequence)
+	segments, err := u.tokenizeWithViterbi(sequence)
 	if err != nil {
 		return nil, err
 	}
-	u.cache.Set(sequence, tokens, CacheExpiredTime)
+	tokens := u.segmentsToTokens(segments, sequence)
+	u.cache.Set(sequence, tokens, CacheExpiredTime*time.Minute)
 
-	return u.tokensToTokenizer(tokens, sequence), nil
+	return copyTokens(tokens), nil
 }
 
-// tokensToTokenizer converts string tokens to tokenizer.Token
-func (u *Unigram) tokensToTokenizer(tokens []string, sequence string) []tokenizer.Token {
+// copyTokens copies tokens, so that those in the cache stay as they are
+func copyTokens(tokens []tokenizer.Token) []tokenizer.Token {
 	var result []tokenizer.Token
-	var offset int
-
 	for _, token := range tokens {
-		length := len(token)
-		id, ok := u.TokenToId(token)
-		if !ok {
-			// Handle unknown token
-			if u.unkID != nil {
-				id = *u.unkID
-			} else {
-				// Skip if no unkID is defined
-				offset += length
+		token.Offsets = append([]int(nil), token.Offsets...)
+		result = append(result, token)
+	}
+	return result
+}
+
+// segment is a part of a sequence, from start to end, and the id of its token
+type segment struct {
+	start int
+	end   int
+	id    int // -1 if it is unknown and there is no unknown token
+}
+
+// isUnk returns whether an id in a segment stands for unknown text
+func (u *Unigram) isUnk(id int) bool {
+	return id == -1 || (u.unkID != nil && id == *u.unkID)
+}
+
+// hasBytes returns whether there is a token for each byte of the text
+func (u *Unigram) hasBytes(text string) bool {
+	for _, b := range []byte(text) {
+		if _, ok := u.TokenToId(byteToken(b)); !ok {
+			return false
+		}
+	}
+	return true
+}
+
+// byteToken is the token in the format "<0xXX>" for a byte
+func byteToken(b byte) string {
+	return fmt.Sprintf("<0x%02X>", b)
+}
+
+// segmentsToTokens converts segments to tokenizer.Token
+func (u *Unigram) segmentsToTokens(segments []segment, sequence string) []tokenizer.Token {
+	var result []tokenizer.Token
+
+	for i := 0; i < len(segments); i++ {
+		start, end, id := segments[i].start, segments[i].end, segments[i].id
+		text := sequence[start:end]
+
+		if u.isUnk(id) {
+			if u.fallsBack(text) {
+				result = append(result, u.tokenizeWithByteFallback(text, start)...)
 				continue
 			}
+			if u.fuseUnk {
+				// fuse consecutive unknown segments
+				for i+1 < len(segments) && u.isUnk(segments[i+1].id) && !u.fallsBack(sequence[segments[i+1].start:segments[i+1].end]) {
+					i++
+					end = segments[i].end
+				}
+				text = sequence[start:end]
+			}
+			if u.bytesFallback {
+				text, _ = u.IdToToken(id)
+			}
 		}
 
 		result = append(result, tokenizer.Token{
 			Id:      id,
-			Value:   token,
-			Offsets: []int{offset, offset + length},
+			Value:   text,
+			Offsets: []int{start, end},
 		})
-
-		offset += length
 	}
 
 	return result
 }
 
+// fallsBack returns whether an unknown text is replaced by its bytes
+func (u *Unigram) fallsBack(text string) bool {
+	return u.bytesFallback && u.hasBytes(text)
+}
+
 // tokenizeWithViterbi implements the Viterbi algorithm for tokenization
-func (u *Unigram) tokenizeWithViterbi(sequence string) ([]string, error) {
+func (u *Unigram) tokenizeWithViterbi(sequence string) ([]segment, error) {
 	if len(sequence) == 0 {
-		return []string{}, nil
+		return []segment{}, nil
 	}
 
 	// Create a lattice for the Viterbi algorithm
@@ -392,123 +430,62 @@ func (u *Unigram) tokenizeWithViterbi(sequence string) ([]string, error) {
 		}
 
 		// If we haven't found a single character token and we have an unknown token ID,
-		// add an unknown token for this character
-		if !hasSingleNode && u.unkID != nil {
+		// or its bytes, add an unknown token for this character
+		if !hasSingleNode && (u.unkID != nil || u.fallsBack(sequence[i:i+charLen])) {
 			j := i + charLen
 			if j <= n {
 				newScore := lattice[i].bestScore + unkScore
 				if newScore > lattice[j].bestScore {
 					lattice[j].bestScore = newScore
 					lattice[j].bestIndex = i
-					lattice[j].id = *u.unkID
+					lattice[j].id = -1
+					if u.unkID != nil {
+						lattice[j].id = *u.unkID
+					}
 				}
 			}
 		}
 	}
 
-	// If we couldn't reach the end of the sequence, handle unknown tokens
+	// If we couldn't reach the end of the sequence, there are unknown tokens
 	if lattice[n].bestScore == math.Inf(-1) {
-		// If we have an unknown token ID, return the whole sequence as unknown
-		if u.unkID != nil {
-			return []string{sequence}, nil
-		}
-
-		// If we're using byte fallback, handle it here
-		if u.bytesFallback {
-			return u.tokenizeWithByteFallback(sequence), nil
-		}
-
 		return nil, fmt.Errorf("could not tokenize sequence with Viterbi algorithm")
 	}
 
 	// Backtrack to find the best segmentation
-	if u.fuseUnk && u.unkID != nil {
-		// When fuseUnk is true, we need to fuse consecutive unknown tokens
-		var tokens []string
-		var unkTokens []string
-		pos := n
-
-		for pos > 0 {
-			start := lattice[pos].bestIndex
-			if start < 0 {
-				// This shouldn't happen if the algorithm is correct
-				return nil, fmt.Errorf("invalid backtracking index: %d", start)
-			}
-
-			token := sequence[start:pos]
-			id := lattice[pos].id
-
-			// Check if this is an unknown token
-			if id == *u.unkID {
-				// Add to the list of unknown tokens
-				unkTokens = append([]string{token}, unkTokens...)
-			} else {
-				// If we have accumulated unknown tokens, add them as a single token
-				if len(unkTokens) > 0 {
-					fusedUnk := strings.Join(unkTokens, "")
-					tokens = append([]string{fusedUnk}, tokens...)
-					unkTokens = nil
-				}
-				// Add the current token
-				tokens = append([]string{token}, tokens...)
-			}
-
-			pos = start
+	var segments []segment
+	pos := n
+
+	for pos > 0 {
+		start := lattice[pos].bestIndex
+		if start < 0 {
+			// This shouldn't happen if the algorithm is correct
+			return nil, fmt.Errorf("invalid backtracking index: %d", start)
 		}
 
-		// If we have any remaining unknown tokens, add them
-		if len(unkTokens) > 0 {
-			fusedUnk := strings.Join(unkTokens, "")
-			tokens = append([]string{fusedUnk}, tokens...)
-		}
-
-		return tokens, nil
-	} else {
-		// Standard backtracking without fusing unknown tokens
-		var tokens []string
-		pos := n
-
-		for pos > 0 {
-			start := lattice[pos].bestIndex
-			if start < 0 {
-				// This shouldn't happen if the algorithm is correct
-				return nil, fmt.Errorf("invalid backtracking index: %d", start)
-			}
-
-			token := sequence[start:pos]
-			tokens = append([]string{token}, tokens...)
-			pos = start
-		}
-
-		return tokens, nil
+		segments = append([]segment{{start, pos, lattice[pos].id}}, segments...)
+		pos = start
 	}
+
+	return segments, nil
 }
 
-// tokenizeWithByteFallback tokenizes a string by representing each byte as a separate token
-func (u *Unigram) tokenizeWithByteFallback(sequence string) []string {
-	var tokens []string
-
-	// Convert the string to bytes
-	bytes := []byte(sequence)
-
-	// For each byte, create a token in the format "<0xXX>"
-	for _, b := range bytes {
-		// Format the byte as a token
-		token := fmt.Sprintf("<0x%02X>", b)
-
-		// Check if the token is in the vocabulary
-		_, ok := u.TokenToId(token)
-		if ok {
-			// If the token is in the vocabulary, use it
-			tokens = append(tokens, token)
-		} else if u.unkID != nil {
-			// If the token is not in the vocabulary and we have an unknown token ID,
-			// use the unknown token
-			unkToken, _ := u.IdToToken(*u.unkID)
-			tokens = append(tokens, unkToken)
-		} else {
-			// If we don't have an unknown token ID, use the byte token format
-			tokens = append(tokens, token)
+// tokenizeWithByteFallback tokenizes an unknown text, which starts at the given
+// offset, by representing each byte as a separate token
+func (u *Unigram) tokenizeWithByteFallback(text string, offset int) []tokenizer.Token {
+	var tokens []tokenizer.Token
+
+	for i := range text {
+		_, size := utf8.DecodeRuneInString(text[i:])
+		// For each byte, create a token; all span the character
+		for _, b := range []byte(text[i : i+size]) {
+			token := byteToken(b)
+			id, _ := u.TokenToId(token)
+			tokens = append(tokens, tokenizer.Token{
+				Id:      id,
+				Value:   token,
+				Offsets: []int{offset + i, offset + i + size},
+			})
 		}
 	}
 
-- 
2.43.0


From ac6b05dd48cbb808f85481061bd7b021ad1ef4ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:07 +0000
Subject: [PATCH 60/96] fix: Decode of the default BPE, WordPiece and CTC
 decoders panics

---
 decoder/bpe.go       | 2 +-
 decoder/ctc.go       | 8 +-------
 decoder/wordpiece.go | 5 +----
 3 files changed, 3 insertions(+), 12 deletions(-)

diff --git a/decoder/bpe.go b/decoder/bpe.go
index 44bfec7..12989b9 100644
--- a/decoder/bpe.go
+++ b/decoder/bpe.go
@@ -29,7 +29,7 @@ func NewBpeDecoder(suffix string) *BpeDecoder {
 
 // DefaultBpeDecoder create a new BpeDecoder with default suffix (`</w>`)
 func DefaultBpeDecoder() *BpeDecoder {
-	return &BpeDecoder{suffix: "</w>"}
+	return NewBpeDecoder("</w>")
 }
 
 /*
diff --git a/decoder/ctc.go b/decoder/ctc.go
index f1f0655..3236e35 100644
--- a/decoder/ctc.go
+++ b/decoder/ctc.go
@@ -30,13 +30,7 @@ func NewCTC(padToken string, wordDelimiterToken string, cleanup bool) *CTC {
 }
 
 func DefaultCTC() *CTC {
-	base := new(DecoderBase)
-	return &CTC{
-		DecoderBase:        base,
-		PadToken:           "<pad>",
-		WordDelimiterToken: "|",
-		Cleanup:            true,
-	}
+	return NewCTC("<pad>", "|", true)
 }
 
 // dedup deduplicates consecutive elements.
diff --git a/decoder/wordpiece.go b/decoder/wordpiece.go
index 8c66b62..37acdc0 100644
--- a/decoder/wordpiece.go
+++ b/decoder/wordpiece.go
@@ -33,10 +33,7 @@ func NewWordPieceDecoder(prefix string, cleanup bool) *WordPieceDecoder {
 
 // DefaultBpeDecoder create a new BpeDecoder with default suffix (`</w>`)
 func DefaultWordpieceDecoder() *WordPieceDecoder {
-	return &WordPieceDecoder{
-		prefix:  "##",
-		cleanup: true,
-	}
+	return NewWordPieceDecoder("##", true)
 }
 
 /*
-- 
2.43.0


From 8541b81856269efa182dce12c9db5b2853dc944b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:07 +0000
Subject: [PATCH 61/96] fix: the byte fallback decoder panics at a token which
 looks like a byte but is none

---
 decoder/byte-fallback.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/decoder/byte-fallback.go b/decoder/byte-fallback.go
index 763f85a..fb03675 100644
--- a/decoder/byte-fallback.go
+++ b/decoder/byte-fallback.go
@@ -40,10 +40,10 @@ func (d *ByteFallback) DecodeChain(tokens []string) []string {
 		var err error
 
 		if len(token) == 6 && strings.HasPrefix(token, "<0x") && strings.HasSuffix(token, ">") {
-			// convert hex string to bytes
+			// convert hex string to bytes; a token with other characters is not a byte
 			bytes, err = hex.DecodeString(token[3:5])
 			if err != nil {
-				panic(err)
+				bytes = nil
 			}
 		}
 
-- 
2.43.0


From dcf4b621c30e97ec8996cf2aca1636748b129ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:07 +0000
Subject: [PATCH 62/96] fix: the strip decoder panics at tokens shorter than
 what it may strip

---
 decoder/strip.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/decoder/strip.go b/decoder/strip.go
index dd428e2..c93ebe2 100644
--- a/decoder/strip.go
+++ b/decoder/strip.go
@@ -36,7 +36,7 @@ func (d *Strip) DecodeChain(tokens []string) []string {
 		chars := strings.Split(token, "")
 
 		startCut := 0
-		for i := 0; i < d.Start; i++ {
+		for i := 0; i < d.Start && i < len(chars); i++ {
 			c := chars[i]
 			if c == d.Content {
 				startCut = i + 1
@@ -47,7 +47,7 @@ func (d *Strip) DecodeChain(tokens []string) []string {
 		}
 
 		stopCut := len(chars)
-		for i := 0; i < d.Stop; i++ {
+		for i := 0; i < d.Stop && i < len(chars)-startCut; i++ {
 			index := len(chars) - i - 1
 			if chars[index] == d.Content {
 				stopCut = index
-- 
2.43.0


From 95dba9c631be085bdaa751281e005e7f015e3644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:56 +0000
Subject: [PATCH 63/96] fix: merges of tokens which are not in the vocab are
 dropped without an error

---
 model/bpe/bpe.go | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/model/bpe/bpe.go b/model/bpe/bpe.go
index 1534144..bedcf24 100644
--- a/model/bpe/bpe.go
+++ b/model/bpe/bpe.go
@@ -297,16 +297,14 @@ func (b *BPE) ReadFiles(vocabF string, mergesF string) (*model.Vocab, *Merges, e
 
 		a, ok := vocab[parts[0]]
 		if !ok {
-			// err = fmt.Errorf("Read merge file error: part a value for '%s' key not found.", parts[0])
-			continue
-			// return nil, nil, err
+			err = fmt.Errorf("Read merge file error: part a value for '%s' key not found.", parts[0])
+			return nil, nil, err
 		}
 
 		b, ok := vocab[parts[1]]
 		if !ok {
-			// err = fmt.Errorf("Read merge file error: part b value for '%s' key not found.", parts[1])
-			continue
-			// return nil, nil, err
+			err = fmt.Errorf("Read merge file error: part b value for '%s' key not found.", parts[1])
+			return nil, nil, err
 		}
 
 		pair := Pair{a, b}
@@ -658,16 +656,14 @@ func CreateMerges(vocab map[string]int, mergesData []string, continuingSubwordPr
 
 		a, ok := vocab[parts[0]]
 		if !ok {
-			// err = fmt.Errorf("Read merge file error: part a value for '%s' key not found.", parts[0])
-			continue
-			// return nil, nil, err
+			err := fmt.Errorf("Read merges error: part a value for '%s' key not found.", parts[0])
+			return nil, err
 		}
 
 		b, ok := vocab[parts[1]]
 		if !ok {
-			// err = fmt.Errorf("Read merge file error: part b value for '%s' key not found.", parts[1])
-			continue
-			// return nil, nil, err
+			err := fmt.Errorf("Read merges error: part b value for '%s' key not found.", parts[1])
+			return nil, err
 		}
 
 		pair := Pair{a, b}
-- 
2.43.0


From 7e9333bebd4cb31b0e014e2b57be723db09887c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:57 +0000
Subject: [PATCH 64/96] fix: merges with the text #version are dropped when
 they are read from a file

---
 model/bpe/bpe.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/model/bpe/bpe.go b/model/bpe/bpe.go
index bedcf24..b3833dc 100644
--- a/model/bpe/bpe.go
+++ b/model/bpe/bpe.go
@@ -8,7 +8,6 @@ import (
 	"io/ioutil"
 	"os"
 	"path/filepath"
-	"regexp"
 	"sort"
 
 	// "strconv"
@@ -280,12 +279,11 @@ func (b *BPE) ReadFiles(vocabF string, mergesF string) (*model.Vocab, *Merges, e
 	// end of file or hit any error. The error will be
 	// access by s.Err. If error caused by EOF it's value is nil.
 	var lineNum = 0
-	for s.Scan() {
+	for first := true; s.Scan(); first = false {
 		line := s.Text()
 
-		// Skip line with `#version`
-		re := regexp.MustCompile(`#version`)
-		if re.MatchString(line) {
+		// Skip a first line with `#version`
+		if first && strings.HasPrefix(line, "#version") {
 			continue
 		}
 
-- 
2.43.0


From fed6c375ca3612442887d6f7875883ef314eb4ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:26 +0000
Subject: [PATCH 65/96] fix: DecodeBatch returns each decoding at the position
 of its sentence

Workers appended to a shared slice without synchronization: a data race that
lost results, and results came in the order workers finished.
---
 tokenizer.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tokenizer.go b/tokenizer.go
index 3dae136..eab01f9 100644
--- a/tokenizer.go
+++ b/tokenizer.go
@@ -692,7 +692,7 @@ func (t *Tokenizer) EncodeBatch(inputs []EncodeInput, addSpecialTokens bool) (re
 
 // DecodeBatch decodes all sentences in concurrency
 func (t *Tokenizer) DecodeBatch(sentences [][]int, skipSpecialTokens bool) []string {
-	var decodings []string
+	decodings := make([]string, len(sentences))
 	var wg sync.WaitGroup
 
 	wg.Add(len(sentences))
@@ -702,8 +702,8 @@ func (t *Tokenizer) DecodeBatch(sentences [][]int, skipSpecialTokens bool) []str
 		go func(i int) {
 			defer wg.Done()
 
-			s := t.Decode(sentences[i], skipSpecialTokens)
-			decodings = append(decodings, s)
+			// NOTE. each worker writes at its own position only
+			decodings[i] = t.Decode(sentences[i], skipSpecialTokens)
 		}(i)
 	}
 
-- 
2.43.0


From e33dc6daf779879f405f3517cb93679db56e82c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:07 +0000
Subject: [PATCH 66/96] fix: Replace with a regular expression is loaded as
 such

The pattern was looked up in the wrong object, so that the normalizer or the
decoder replaced the empty string; patterns of other kinds are reported.
---
 pretrained/decoder.go    | 7 +++++--
 pretrained/normalizer.go | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/pretrained/decoder.go b/pretrained/decoder.go
index afff515..8cd53a1 100644
--- a/pretrained/decoder.go
+++ b/pretrained/decoder.go
@@ -167,9 +167,12 @@ func createReplaceDecoder(params *util.Params) (*normalizer.Replace, error) {
 		pattern = pparams.Get("String").(string)
 		patternType = normalizer.String
 
-	case params.Has("Regex"):
+	case pparams.Has("Regex"):
 		pattern = pparams.Get("Regex").(string)
-		patternType = normalizer.String
+		patternType = normalizer.Regex
+
+	default:
+		return nil, fmt.Errorf("Unsupported pattern: %#v\n", patternParams)
 	}
 
 	content := params.Get("content").(string)
diff --git a/pretrained/normalizer.go b/pretrained/normalizer.go
index fa6bee3..215005f 100644
--- a/pretrained/normalizer.go
+++ b/pretrained/normalizer.go
@@ -110,9 +110,12 @@ func createReplaceNormalizer(params *util.Params) (normalizer.Normalizer, error)
 		pattern = pparams.Get("String").(string)
 		patternType = normalizer.String
 
-	case params.Has("Regex"):
+	case pparams.Has("Regex"):
 		pattern = pparams.Get("Regex").(string)
-		patternType = normalizer.String
+		patternType = normalizer.Regex
+
+	default:
+		return nil, fmt.Errorf("Unsupported pattern: %#v\n", patternParams)
 	}
 
 	content := params.Get("content").(string)
-- 
2.43.0


From d0a3a932080e250cbc30e45b15ee5b7deab30022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:08 +0000
Subject: [PATCH 67/96] fix: Split on a string is not loaded as a regular
 expression

---
 pretrained/pretokenizer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pretrained/pretokenizer.go b/pretrained/pretokenizer.go
index 87eb7fb..e45efe8 100644
--- a/pretrained/pretokenizer.go
+++ b/pretrained/pretokenizer.go
@@ -188,7 +188,7 @@ func createSplitPreTokenizer(params *util.Params) (tokenizer.PreTokenizer, error
 	if v, ok := patternMap["Regex"]; ok {
 		pattern = normalizer.NewRegexpPattern(v.(string))
 	} else if v, ok := patternMap["String"]; ok {
-		pattern = normalizer.NewRegexpPattern(v.(string))
+		pattern = normalizer.NewStringPattern(v.(string))
 	} else {
 		err := fmt.Errorf("Unsupported pattern: %#v\n", patternMap)
 		return nil, err
-- 
2.43.0


From e686f76603f2cd525fc50a252ab1eeb308afb854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:10 +0000
Subject: [PATCH 68/96] fix: an unknown truncation strategy is reported

It was replaced by LongestFirst.
---
 pretrained/truncation.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pretrained/truncation.go b/pretrained/truncation.go
index 7a8c63d..c76bc6e 100644
--- a/pretrained/truncation.go
+++ b/pretrained/truncation.go
@@ -1,6 +1,8 @@
 package pretrained
 
 import (
+	"fmt"
+
 	"github.com/sugarme/tokenizer"
 	"github.com/sugarme/tokenizer/util"
 )
@@ -24,6 +26,8 @@ func CreateTruncationParams(config map[string]interface{}) (*tokenizer.Truncatio
 		strategy = tokenizer.OnlyFirst
 	case "OnlySecond":
 		strategy = tokenizer.OnlySecond
+	default:
+		return nil, fmt.Errorf("Unsupported truncation strategy: %q\n", strategyName)
 	}
 
 	return &tokenizer.TruncationParams{
-- 
2.43.0


From d71a4e33e3575940a6491306ead09bdb14abcd6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:11 +0000
Subject: [PATCH 69/96] fix: an unknown padding strategy or direction is
 reported

They were replaced by Fixed and Right.
---
 pretrained/padding.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pretrained/padding.go b/pretrained/padding.go
index 31193e8..fc52efc 100644
--- a/pretrained/padding.go
+++ b/pretrained/padding.go
@@ -1,6 +1,7 @@
 package pretrained
 
 import (
+	"fmt"
 	"reflect"
 
 	"github.com/sugarme/tokenizer"
@@ -71,9 +72,7 @@ func CreatePaddingParams(config map[string]interface{}) (*tokenizer.PaddingParam
 		opt := tokenizer.WithFixed(strategySize)
 		strategy = tokenizer.NewPaddingStrategy(opt)
 	default:
-		// Default to Fixed with size
-		opt := tokenizer.WithFixed(strategySize)
-		strategy = tokenizer.NewPaddingStrategy(opt)
+		return nil, fmt.Errorf("Unsupported padding strategy: %q\n", strategyName)
 	}
 
 	// Get direction with fallback to Right
@@ -86,7 +85,7 @@ func CreatePaddingParams(config map[string]interface{}) (*tokenizer.PaddingParam
 		case "right", "Right", "":
 			direction = tokenizer.Right
 		default:
-			direction = tokenizer.Right
+			return nil, fmt.Errorf("Unsupported padding direction: %q\n", dirVal)
 		}
 	} else {
 		direction = tokenizer.Right // Default
-- 
2.43.0


From 4ea05e85b1e3af242c870c9e6dc4c111f876bd5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:12 +0000
Subject: [PATCH 70/96] fix: CTC decoders of tokenizer.json files can be loaded

Their delimiter has the key word_delimiter_token.
---
 pretrained/decoder.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pretrained/decoder.go b/pretrained/decoder.go
index 8cd53a1..2b12c8f 100644
--- a/pretrained/decoder.go
+++ b/pretrained/decoder.go
@@ -94,7 +94,8 @@ func createCTCDecoder(params *util.Params) (*decoder.CTC, error) {
 	}
 
 	padToken := params.Get("pad_token").(string)
-	wordDelimiter := params.Get("word_delimiter").(string)
+	// NOTE. the key is `word_delimiter_token` in "tokenizer.json"
+	wordDelimiter := params.Get("word_delimiter_token", params.Get("word_delimiter")).(string)
 	cleanup := params.Get("cleanup").(bool)
 
 	return decoder.NewCTC(padToken, wordDelimiter, cleanup), nil
-- 
2.43.0


From bf43af0c2cd2c8b1ad311f2a9edd048ea457617c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:14 +0000
Subject: [PATCH 71/96] fix: the Metaspace decoder is loaded with its
 prepend_scheme

It was ignored, so that the space put before a text stayed in the decoded text.
---
 pretrained/decoder.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pretrained/decoder.go b/pretrained/decoder.go
index 2b12c8f..3e49740 100644
--- a/pretrained/decoder.go
+++ b/pretrained/decoder.go
@@ -82,10 +82,13 @@ func createMetaspaceDecoder(params *util.Params) (*pretokenizer.Metaspace, error
 		return nil, nil
 	}
 
-	replacement := params.Get("replacement", "").(string)
-	addPrefixSpace := params.Get("add_prefix_space", false).(bool)
+	// the same options as those of the pre-tokenizer
+	pretok, err := createMetaspacePreTokenizer(params)
+	if err != nil {
+		return nil, err
+	}
 
-	return pretokenizer.NewMetaspace(replacement, addPrefixSpace), nil
+	return pretok.(*pretokenizer.Metaspace), nil
 }
 
 func createCTCDecoder(params *util.Params) (*decoder.CTC, error) {
-- 
2.43.0


From d55b4953c8e653bcf66c366751f3423a5e1bbca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:16 +0000
Subject: [PATCH 72/96] fix: a BertNormalizer with strip_accents null strips
 accents if it lowercases

As the original BERT does, and BertBaseUncased here.
---
 pretrained/normalizer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pretrained/normalizer.go b/pretrained/normalizer.go
index 215005f..ac2572c 100644
--- a/pretrained/normalizer.go
+++ b/pretrained/normalizer.go
@@ -90,8 +90,9 @@ func createBertNormalizer(params *util.Params) (normalizer.Normalizer, error) {
 
 	cleanText := params.Get("clean_text", false).(bool)
 	handleChineseChars := params.Get("handle_chinese_chars", false).(bool)
-	stripAccents := params.Get("strip_accents", false).(bool)
 	lowercase := params.Get("lowercase", false).(bool)
+	// null: accents are stripped when lowercasing
+	stripAccents := params.Get("strip_accents", lowercase).(bool)
 
 	return normalizer.NewBertNormalizer(cleanText, lowercase, handleChineseChars, stripAccents), nil
 }
-- 
2.43.0


From 3e325458dbd5f848b1252d836d357ddca479c215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:17 +0000
Subject: [PATCH 73/96] fix: added tokens are loaded with the ids they are
 listed with

Special tokens were added first, which changed the ids of all when an ordinary
token is listed before a special one.
---
 pretrained/tokenizer.go | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/pretrained/tokenizer.go b/pretrained/tokenizer.go
index e5769eb..09e3108 100644
--- a/pretrained/tokenizer.go
+++ b/pretrained/tokenizer.go
@@ -72,12 +72,20 @@ func FromReader(r io.Reader) (*tokenizer.Tokenizer, error) {
 	tk.WithDecoder(decoder)
 
 	// 6. AddedVocabulary
-	specialAddedTokens, addedTokens := CreateAddedTokens(config.AddedTokens)
-	if len(specialAddedTokens) > 0 {
-		tk.AddSpecialTokens(specialAddedTokens)
-	}
-	if len(addedTokens) > 0 {
-		tk.AddTokens(addedTokens)
+	// NOTE. in the order they are listed, which is that of their ids
+	for data := config.AddedTokens; len(data) > 0; {
+		n := 1
+		for n < len(data) && data[n].Special == data[0].Special {
+			n++
+		}
+		specialAddedTokens, addedTokens := CreateAddedTokens(data[:n])
+		if len(specialAddedTokens) > 0 {
+			tk.AddSpecialTokens(specialAddedTokens)
+		}
+		if len(addedTokens) > 0 {
+			tk.AddTokens(addedTokens)
+		}
+		data = data[n:]
 	}
 
 	// 7. TruncationParams
-- 
2.43.0


From 8fc2747222145c579d753465b949289996535cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:49 +0000
Subject: [PATCH 74/96] fix: an unknown piece or sequence of a template is
 reported

---
 pretrained/processor.go | 79 +++++++++++++++++++++--------------------
 1 file changed, 40 insertions(+), 39 deletions(-)

diff --git a/pretrained/processor.go b/pretrained/processor.go
index 06feeac..320e9e6 100644
--- a/pretrained/processor.go
+++ b/pretrained/processor.go
@@ -33,7 +33,7 @@ func CreatePostProcessor(config map[string]interface{}) (tokenizer.PostProcessor
 	case "ByteLevel":
 		return createByteLevel(params)
 	case "TemplateProcessing": // T5
-		return createTemplateProcessing(params), nil
+		return createTemplateProcessing(params)
 	case "Sequence":
 		return createSequence(params)
 
@@ -135,7 +135,7 @@ func createByteLevel(params *util.Params) (tokenizer.PostProcessor, error) {
     }
   },
 */
-func createTemplateProcessing(params *util.Params) tokenizer.PostProcessor {
+func createTemplateProcessing(params *util.Params) (tokenizer.PostProcessor, error) {
 	var (
 		single        processor.Template
 		pair          processor.Template
@@ -144,48 +144,20 @@ func createTemplateProcessing(params *util.Params) tokenizer.PostProcessor {
 
 	// Single
 	if params.Has("single") {
-		singleData := params.Get("single").([]interface{})
-		for _, p := range singleData {
-			ps := util.NewParams(p.(map[string]interface{}))
-			if ps.Has("Sequence") {
-				item := ps.Get("Sequence").(map[string]interface{})
-				id := item["id"].(string) // always "A"
-				typeId := int(item["type_id"].(float64))
-				piece := processor.NewSequencePiece(id, typeId)
-				single = append(single, piece)
-			}
-
-			if ps.Has("SpecialToken") {
-				item := ps.Get("SpecialToken").(map[string]interface{})
-				id := item["id"].(string)
-				typeId := int(item["type_id"].(float64))
-				piece := processor.NewSpecialTokenPiece(id, typeId)
-				single = append(single, piece)
-			}
+		template, err := createTemplate(params.Get("single").([]interface{}))
+		if err != nil {
+			return nil, err
 		}
+		single = template
 	}
 
 	// Pair
 	if params.Has("pair") {
-		pairData := params.Get("pair").([]interface{})
-		for _, p := range pairData {
-			ps := util.NewParams(p.(map[string]interface{}))
-			if ps.Has("Sequence") {
-				item := ps.Get("Sequence").(map[string]interface{})
-				id := item["id"].(string)
-				typeId := int(item["type_id"].(float64))
-				piece := processor.NewSequencePiece(id, typeId)
-				pair = append(pair, piece)
-			}
-
-			if ps.Has("SpecialToken") {
-				item := ps.Get("SpecialToken").(map[string]interface{})
-				id := item["id"].(string)
-				typeId := int(item["type_id"].(float64))
-				piece := processor.NewSpecialTokenPiece(id, typeId)
-				pair = append(pair, piece)
-			}
+		template, err := createTemplate(params.Get("pair").([]interface{}))
+		if err != nil {
+			return nil, err
 		}
+		pair = template
 	}
 
 	// SpecialTokens
@@ -205,7 +177,36 @@ func createTemplateProcessing(params *util.Params) tokenizer.PostProcessor {
 		specialTokens = processor.NewTokensFrom(toks)
 	}
 
-	return processor.NewTemplateProcessing(single, pair, specialTokens)
+	return processor.NewTemplateProcessing(single, pair, specialTokens), nil
+}
+
+// createTemplate creates the pieces of a template.
+func createTemplate(data []interface{}) (processor.Template, error) {
+	var template processor.Template
+	for _, p := range data {
+		ps := util.NewParams(p.(map[string]interface{}))
+		switch {
+		case ps.Has("Sequence"):
+			item := ps.Get("Sequence").(map[string]interface{})
+			id := item["id"].(string)
+			if id != "A" && id != "B" {
+				return nil, fmt.Errorf("Unknown sequence %q in template", id)
+			}
+			typeId := int(item["type_id"].(float64))
+			template = append(template, processor.NewSequencePiece(id, typeId))
+
+		case ps.Has("SpecialToken"):
+			item := ps.Get("SpecialToken").(map[string]interface{})
+			id := item["id"].(string)
+			typeId := int(item["type_id"].(float64))
+			template = append(template, processor.NewSpecialTokenPiece(id, typeId))
+
+		default:
+			return nil, fmt.Errorf("Unknown piece %#v in template", p)
+		}
+	}
+
+	return template, nil
 }
 
 func createSequence(params *util.Params) (tokenizer.PostProcessor, error) {
-- 
2.43.0


From a302cc493affbcfb18f74b5938c79d847e7d5686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:05 +0000
Subject: [PATCH 75/96] fix: report malformed configurations as errors instead
 of crashing

---
 pretrained/tokenizer.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pretrained/tokenizer.go b/pretrained/tokenizer.go
index 09e3108..7ebb4a2 100644
--- a/pretrained/tokenizer.go
+++ b/pretrained/tokenizer.go
@@ -25,7 +25,14 @@ func FromFile(file string) (*tokenizer.Tokenizer, error) {
 }
 
 // FromReader constructs a new Tokenizer from json data reader.
-func FromReader(r io.Reader) (*tokenizer.Tokenizer, error) {
+func FromReader(r io.Reader) (tk *tokenizer.Tokenizer, err error) {
+	// NOTE. options which are missing or of another type than expected
+	defer func() {
+		if e := recover(); e != nil {
+			tk, err = nil, fmt.Errorf("Malformed configuration: %v", e)
+		}
+	}()
+
 	var config *tokenizer.Config
 	if err := json.NewDecoder(r).Decode(&config); err != nil {
 		return nil, err
@@ -37,7 +44,7 @@ func FromReader(r io.Reader) (*tokenizer.Tokenizer, error) {
 		return nil, err
 	}
 
-	tk := tokenizer.NewTokenizer(model)
+	tk = tokenizer.NewTokenizer(model)
 
 	// 2. Normalizer
 	n, err := CreateNormalizer(config.Normalizer)
-- 
2.43.0


From 7e862eba3df8c540318373cd597874101adb324f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:00 +0000
Subject: [PATCH 76/96] fix: directories of the cache are not returned as
 cached files

---
 file-util.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/file-util.go b/file-util.go
index 350dc9c..a3b3c2d 100644
--- a/file-util.go
+++ b/file-util.go
@@ -54,7 +54,8 @@ func CachedPath(modelNameOrPath, fileName string) (resolvedPath string, err erro
 	cachedFileCandidate := fmt.Sprintf("%s/%s/%s", CachedDir, modelNameOrPath, fileName)
 
 	// 1. Cached candidate file exists
-	if _, err := os.Stat(cachedFileCandidate); err == nil {
+	// NOTE. there may be a directory of that name, of files of another model
+	if info, err := os.Stat(cachedFileCandidate); err == nil && !info.IsDir() {
 		return cachedFileCandidate, nil
 	}
 
-- 
2.43.0


From 2bda96230be1c89ef08fd94c5e57a37228e78e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:03 +0000
Subject: [PATCH 77/96] fix: files are requested once, without leaving a
 response open

---
 file-util.go | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/file-util.go b/file-util.go
index a3b3c2d..659cab1 100644
--- a/file-util.go
+++ b/file-util.go
@@ -74,18 +74,13 @@ func CachedPath(modelNameOrPath, fileName string) (resolvedPath string, err erro
 	url := fmt.Sprintf("%s/%s/resolve/main/%s", HFpath, modelNameOrPath, fileName)
 	// url := fmt.Sprintf("%s/%s/raw/main/%s", HFpath, modelNameOrPath, fileName)
 	if isValidURL(url) {
-		if _, err := http.Get(url); err == nil {
-			err := downloadFile(url, cachedFileCandidate)
-			if err != nil {
-				err = fmt.Errorf("CachedPath() failed at trying to download file: %w", err)
-				return "", err
-			}
-
-			return cachedFileCandidate, nil
-		} else {
-			err = fmt.Errorf("CachedPath() failed: Unable to parse '%v' as a URL or as a local path.\n", url)
+		err := downloadFile(url, cachedFileCandidate)
+		if err != nil {
+			err = fmt.Errorf("CachedPath() failed at trying to download file: %w", err)
 			return "", err
 		}
+
+		return cachedFileCandidate, nil
 	}
 
 	// Not resolves
-- 
2.43.0


From 40678c27a807ff11248a4aa2b3c04221a2215558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:05 +0000
Subject: [PATCH 78/96] fix: local files are cached, complete or not at all

---
 file-util.go | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/file-util.go b/file-util.go
index 659cab1..93bd95e 100644
--- a/file-util.go
+++ b/file-util.go
@@ -223,12 +223,35 @@ func copyFile(src, dst string) error {
 	}
 	defer source.Close()
 
-	destination, err := os.Create(dst)
+	return saveFile(source, dst)
+}
+
+// saveFile writes all of r to file dst, creating its directory if needed.
+// There is a file dst only once it is complete.
+func saveFile(r io.Reader, dst string) error {
+	dir := path.Dir(dst)
+	if err := os.MkdirAll(dir, 0755); err != nil {
+		return err
+	}
+
+	out, err := os.CreateTemp(dir, ".tmp-*")
 	if err != nil {
 		return err
 	}
-	defer destination.Close()
-	_, err = io.Copy(destination, source)
+	_, err = io.Copy(out, r)
+	if err == nil {
+		err = out.Chmod(0644)
+	}
+	if cerr := out.Close(); err == nil {
+		err = cerr
+	}
+	if err == nil {
+		err = os.Rename(out.Name(), dst)
+	}
+	if err != nil {
+		os.Remove(out.Name())
+	}
+
 	return err
 }
 
-- 
2.43.0


From 9ac861e8a63ee78812132062ca9d563d10a8592b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:08 +0000
Subject: [PATCH 79/96] fix: downloads share no temporary file and leave none
 when they fail

---
 file-util.go | 24 +-----------------------
 1 file changed, 1 insertion(+), 23 deletions(-)

diff --git a/file-util.go b/file-util.go
index 93bd95e..2275e76 100644
--- a/file-util.go
+++ b/file-util.go
@@ -3,7 +3,6 @@ package tokenizer
 import (
 	"fmt"
 	"io"
-	"log"
 	"net/http"
 	"os"
 	"path"
@@ -99,22 +98,7 @@ func isValidURL(url string) bool {
 // the entire file into memory. An `io.TeeReader` is passed into Copy()
 // to report progress on the download.
 func downloadFile(url string, filepath string) error {
-	// Create path if not existing
-	dir := path.Dir(filepath)
 	filename := path.Base(filepath)
-	if _, err := os.Stat(dir); os.IsNotExist(err) {
-		if err := os.MkdirAll(dir, 0755); err != nil {
-			log.Fatal(err)
-		}
-	}
-
-	// Create the file with .tmp extension, so that we won't overwrite a
-	// file until it's downloaded fully
-	out, err := os.Create(filepath + ".tmp")
-	if err != nil {
-		return err
-	}
-	defer out.Close()
 
 	// Get the data
 	resp, err := http.Get(url)
@@ -149,7 +133,7 @@ func downloadFile(url string, filepath string) error {
 
 	// Create our bytes counter and pass it to be used alongside our writer
 	counter := &writeCounter{FileSize: downloadSize}
-	_, err = io.Copy(out, io.TeeReader(resp.Body, counter))
+	err = saveFile(io.TeeReader(resp.Body, counter), filepath)
 	if err != nil {
 		return err
 	}
@@ -158,12 +142,6 @@ func downloadFile(url string, filepath string) error {
 	// The progress use the same line so print a new line once it's finished downloading
 	fmt.Println()
 
-	// Rename the tmp file back to the original file
-	err = os.Rename(filepath+".tmp", filepath)
-	if err != nil {
-		return err
-	}
-
 	return nil
 }
 
-- 
2.43.0


From 0e76abadb749fe8dfab4e6b5d4e8cf0d22590389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:11 +0000
Subject: [PATCH 80/96] fix: CleanCache finds the cache when nothing has been
 resolved before

---
 file-util.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/file-util.go b/file-util.go
index 2275e76..fb7cbe5 100644
--- a/file-util.go
+++ b/file-util.go
@@ -237,6 +237,10 @@ func saveFile(r io.Reader, dst string) error {
 //
 // NOTE. custom `CachedDir` can be changed by setting environment `GO_TRANSFORMER`
 func CleanCache() error {
+	if CachedDir == "NOT_SETTING" {
+		initCachePath()
+	}
+
 	err := os.RemoveAll(CachedDir)
 	if err != nil {
 		err = fmt.Errorf("CleanCache() failed: %w", err)
-- 
2.43.0


From c1fe3179fa5fb10eba74233ebdd05af79c74e6a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:56 +0000
Subject: [PATCH 81/96] fix: Precompiled map: rules that map to nothing,
 graphemes after the first, malformed data

Transform could not tell a rule that maps to an empty text from no rule at all,
NormalizeString returned after the first rewritten grapheme, and
NewPrecompiledFrom panicked on truncated data instead of returning an error.
---
 spm/spm-precompiled.go | 44 ++++++++++++++++++++++++++++--------------
 1 file changed, 29 insertions(+), 15 deletions(-)

diff --git a/spm/spm-precompiled.go b/spm/spm-precompiled.go
index 08050ef..60e08b8 100644
--- a/spm/spm-precompiled.go
+++ b/spm/spm-precompiled.go
@@ -98,6 +98,9 @@ func (da *DoubleArray) CommonPrefixSearch(key []byte) []int {
 		}
 
 		nodePos ^= int(c)
+		if nodePos >= len(da.Array) {
+			return results
+		}
 		unit = da.Array[nodePos]
 
 		if unit.Label() != uint(c) {
@@ -105,7 +108,7 @@ func (da *DoubleArray) CommonPrefixSearch(key []byte) []int {
 		}
 
 		nodePos ^= int(unit.Offset())
-		if unit.HasLeaf() {
+		if unit.HasLeaf() && nodePos < len(da.Array) {
 			results = append(results, int(da.Array[nodePos].Value()))
 		}
 	}
@@ -132,6 +135,12 @@ func Parse(precompiledCharsmap []byte) ([]byte, Array) {
 }
 
 func NewPrecompiledFrom(data []byte) (*Precompiled, error) {
+	if len(data) < 4 {
+		return nil, fmt.Errorf("invalid precompiled_charsmap: no trie size")
+	}
+	if size := binary.LittleEndian.Uint32(data[:4]); size < 4 || size%4 != 0 || uint64(size) > uint64(len(data)-4) {
+		return nil, fmt.Errorf("invalid precompiled_charsmap: trie of %d bytes", size)
+	}
 	normalizedBlob, trieBlob := Parse(data)
 
 	normalized := string(normalizedBlob)
@@ -144,13 +153,25 @@ func NewPrecompiledFrom(data []byte) (*Precompiled, error) {
 	}, nil
 }
 
+// Transform returns what `chunk` is rewritten to, or an empty string if there's
+// no rule for it.
 func (m *Precompiled) Transform(chunk string) string {
+	norm, _ := m.Lookup(chunk)
+	return norm
+}
+
+// Lookup returns what `chunk` is rewritten to (which may be empty) and whether
+// there's a rule for it.
+func (m *Precompiled) Lookup(chunk string) (string, bool) {
 	results := m.Trie.CommonPrefixSearch([]byte(chunk))
 	if len(results) == 0 {
-		return ""
+		return "", false
 	}
 
 	index := results[0]
+	if index > len(m.Normalized) {
+		return "", false
+	}
 	index2 := index
 	for index2 < len(m.Normalized) {
 		if []byte(m.Normalized)[index2] == byte(0) {
@@ -161,7 +182,7 @@ func (m *Precompiled) Transform(chunk string) string {
 
 	normalized := m.Normalized[index:index2]
 
-	return string(normalized)
+	return string(normalized), true
 }
 
 func NormalizeMn(input string) string {
@@ -202,12 +223,9 @@ func (m *Precompiled) NormalizeString(original string) string {
 		// break a single test.
 		// You don't pass.
 		if len(grapheme) < 6 {
-			norm := m.Transform(grapheme)
-			if len(norm) > 0 {
-				for _, c := range strings.Split(norm, "") {
-					chars = append(chars, c)
-				}
-				return strings.Join(chars, "")
+			if norm, ok := m.Lookup(grapheme); ok {
+				chars = append(chars, norm)
+				continue
 			}
 		}
 
@@ -217,12 +235,8 @@ func (m *Precompiled) NormalizeString(original string) string {
 		var charIdx int = 0
 		for _, r := range grapheme {
 			part := string(grapheme)[charIdx : charIdx+len(string(r))]
-			norm := m.Transform(part)
-			norm = normalizeMn(norm)
-			if len(norm) > 0 {
-				for _, c := range strings.Split(norm, "") {
-					chars = append(chars, c)
-				}
+			if norm, ok := m.Lookup(part); ok {
+				chars = append(chars, normalizeMn(norm))
 			} else {
 				chars = append(chars, string(r))
 			}
-- 
2.43.0


From ec3f6b3a40e86a889517a917f2d054569f55b224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:56 +0000
Subject: [PATCH 82/96] fix: Precompiled normalizer keeps text and alignment

The changes started with one empty entry per byte of the text, every entry was
marked as added as soon as one was, a removal in front panicked, and marks that
no rule covers were replaced by their code point in hexadecimal.
---
 normalizer/precompiled.go | 56 ++++++++++++++++-----------------------
 1 file changed, 23 insertions(+), 33 deletions(-)

diff --git a/normalizer/precompiled.go b/normalizer/precompiled.go
index 9afd0a6..ba2302c 100644
--- a/normalizer/precompiled.go
+++ b/normalizer/precompiled.go
@@ -2,6 +2,7 @@ package normalizer
 
 import (
 	"strings"
+	"unicode/utf8"
 
 	"github.com/sugarme/tokenizer/spm"
 
@@ -28,12 +29,11 @@ func replace(transformations []ChangeMap, oldPart, newPart string) []ChangeMap {
 	switch {
 	case diff > 0:
 		// If adding some characters, the last diff characters should be == 1
-		for i := n - 1; i >= diff || i >= 0; i-- {
+		for i := n - diff; i < n; i++ {
 			transformations[i].Changes = 1
 		}
-	case diff < 0:
+	case diff < 0 && n > 0:
 		// If removing some characters, the last one should include the diff
-		n := len(transformations)
 		transformations[n-1].Changes += diff
 	}
 
@@ -46,53 +46,43 @@ type Precompiled struct {
 
 // Implement Normalizer for spm.Precompiled
 func (m *Precompiled) Normalize(normalized *NormalizedString) (*NormalizedString, error) {
-	original := normalized.GetNormalized()
-	var transformations []ChangeMap
-	for i := 0; i < len(original); i++ {
-		transformations = append(transformations, ChangeMap{})
+	var (
+		transformations []ChangeMap
+		removed         int // characters removed in front of all others
+		modified        bool
+	)
+	change := func(oldPart, newPart string) {
+		modified = true
+		if len(transformations) == 0 && newPart == "" {
+			removed += utf8.RuneCountInString(oldPart)
+			return
+		}
+		transformations = replace(transformations, oldPart, newPart)
 	}
 
-	graphemes := uniseg.NewGraphemes(original)
-
-	var modified bool
-
+	graphemes := uniseg.NewGraphemes(normalized.GetNormalized())
 	for graphemes.Next() {
 		grapheme := graphemes.Str()
 
 		if len(grapheme) < 6 {
-			norm := m.Transform(grapheme)
-			if len(norm) > 0 {
-				modified = true
-				transformations = replace(transformations, grapheme, norm)
-
+			if norm, ok := m.Lookup(grapheme); ok {
+				change(grapheme, norm)
 				continue
 			}
 		}
 
-		// TT. This is a hacky way to turn non-spacing marks into hexa string
-		// and pass the unit tests.
-		grapheme = spm.NormalizeMn(grapheme)
-		var charIdx int = 0
 		for _, r := range grapheme {
-			part := string(grapheme)[charIdx : charIdx+len(string(r))]
-			norm := m.Transform(part)
-			norm = spm.NormalizeMn(norm)
-			if len(norm) > 0 {
-				modified = true
-				transformations = replace(transformations, part, norm)
+			part := string(r)
+			if norm, ok := m.Lookup(part); ok {
+				change(part, norm)
 			} else {
-				t := ChangeMap{
-					RuneVal: string(r),
-					Changes: 0,
-				}
-				transformations = append(transformations, t)
+				transformations = append(transformations, ChangeMap{RuneVal: part, Changes: 0})
 			}
-			// charIdx += len(string(r))
 		}
 	}
 
 	if modified {
-		normalized = normalized.Transform(transformations, 0)
+		normalized = normalized.Transform(transformations, removed)
 	}
 
 	return normalized, nil
-- 
2.43.0


From be291048c0d25f91bd208a966a17a226305235f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:23 +0000
Subject: [PATCH 83/96] fix: NewEncodingFromTokens gives tokens the type id it
 is told

Its typeId argument was ignored.
---
 encoding.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/encoding.go b/encoding.go
index 4092213..846bc91 100644
--- a/encoding.go
+++ b/encoding.go
@@ -114,7 +114,7 @@ func NewEncodingFromTokens(tokens []Token, typeId int) (retVal *Encoding) {
 		toks = append(toks, t.Value)
 	}
 
-	typeIds := make([]int, len(tokens))
+	typeIds := util.Repeat(typeId, len(tokens))
 	// words := make([]int, len(tokens))
 	var words []int
 	specialTokenMask := util.Repeat(0, len(tokens))
-- 
2.43.0


From 10a32583b2f39af2f0aec5202a459418c57363a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:23 +0000
Subject: [PATCH 84/96] fix: merging no encodings gives the empty encoding
 instead of nil

A template that contributes nothing (special tokens only, none wanted) made
Process return nil, which its callers use.
---
 tokenizer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tokenizer.go b/tokenizer.go
index eab01f9..a238c2e 100644
--- a/tokenizer.go
+++ b/tokenizer.go
@@ -150,7 +150,7 @@ func MergeEncodings(encodings []Encoding, growingOffsets bool) *Encoding {
 	var out *Encoding
 	switch len(encodings) {
 	case 0:
-		return nil
+		return DefaultEncoding()
 	case 1:
 		out = &encodings[0]
 	case 2:
-- 
2.43.0


From 40dd13e8430857c9ec1d355a7237c614cc57874f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:25 +0000
Subject: [PATCH 85/96] fix: template builder's Validate reports what is
 missing

It panicked on any template with a special token (type assertion) and on no
special tokens (index out of range), and could not report a missing one: the
names of the piece types were misspelled and the test was inverted.  It also
wrote the pair's pieces into spare capacity of the single template.
---
 processor/template.go | 60 ++++++++++++-------------------------------
 1 file changed, 16 insertions(+), 44 deletions(-)

diff --git a/processor/template.go b/processor/template.go
index 874e171..685f63d 100644
--- a/processor/template.go
+++ b/processor/template.go
@@ -262,6 +262,9 @@ func NewTokens(toks []tokenizer.Token) *Tokens {
 }
 
 func (t *Tokens) GetItemByOrder(index int) (SpecialToken, bool) {
+	if index < 0 || index >= len(t.orderedKeys) {
+		return SpecialToken{}, false
+	}
 	k := t.orderedKeys[index]
 
 	return t.GetItemByKey(k)
@@ -403,69 +406,38 @@ func (b *TemplateProcessingBuilder) DefaultAdded(isSingle bool) int {
 }
 
 func (b *TemplateProcessingBuilder) Validate() error {
-	var pairHasBoth bool = true
 	var (
 		hasA bool
 		hasB bool
 	)
 
 	for _, piece := range b.Pair {
-		if piece.(*SequencePiece).Id == A {
-			hasA = true
-		}
-
-		if piece.(*SequencePiece).Id == B {
-			hasB = true
+		if p, ok := piece.(*SequencePiece); ok {
+			hasA = hasA || p.Id == A
+			hasB = hasB || p.Id == B
 		}
 	}
 
-	pairHasBoth = hasA && hasB
-
-	if !pairHasBoth {
+	if !hasA || !hasB {
 		err := fmt.Errorf("Template for 'pair' must use both sequences.")
 		return err
 	}
 
-	check := func(sp string) string {
-		var exist bool
-		tok, ok := b.SpecialTokens.GetItemByOrder(0)
-		if !ok {
-			exist = false
-		} else {
-			exist = util.Contains(tok.Tokens, sp)
-		}
-
-		if exist {
-			return sp
-		} else {
-			return ""
-		}
-	}
-
 	var missing []string
-	var pieces []Piece = append(b.Single, b.Pair...)
-	for _, p := range pieces {
-		typ := getType(p)
-		switch typ {
-		case "*SequencePeice":
-			// None
-		case "*SpecialToken":
-			id := p.(*SpecialTokenPiece).Id
-			s := check(id)
-			if s != "" {
-				missing = append(missing, s)
+	for _, template := range []Template{b.Single, b.Pair} {
+		for _, piece := range template {
+			p, ok := piece.(*SpecialTokenPiece)
+			if !ok {
+				continue
+			}
+			if _, ok := b.SpecialTokens.GetItemByKey(p.Id); !ok && !util.Contains(missing, p.Id) {
+				missing = append(missing, p.Id)
 			}
 		}
 	}
 
 	if len(missing) > 0 {
-		var msg string
-		for _, s := range missing {
-			v := fmt.Sprintf("Missing SpecialToken %q", s)
-			msg = fmt.Sprintf("%s, %s", msg, v)
-		}
-
-		return fmt.Errorf(msg)
+		return fmt.Errorf("Missing SpecialToken(s) %q", missing)
 	}
 
 	return nil
-- 
2.43.0


From fe0b5ae62cc24e16df67f7db3976018272909883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:47 +0000
Subject: [PATCH 86/96] fix: a Unigram model with a negative unknown id is
 refused, not a panic at the first unknown character

---
 model/unigram/unigram.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/model/unigram/unigram.go b/model/unigram/unigram.go
index a392193..a0fcaca 100644
--- a/model/unigram/unigram.go
+++ b/model/unigram/unigram.go
@@ -100,7 +100,7 @@ func (ub *UnigramBuilder) Build() (*Unigram, error) {
 
 	// Validate unkID if provided
 	if ub.config.unkID != nil {
-		if *ub.config.unkID >= len(ub.config.vocab) {
+		if *ub.config.unkID < 0 || *ub.config.unkID >= len(ub.config.vocab) {
 			return nil, fmt.Errorf("unkID %d is out of vocabulary range (size: %d)", *ub.config.unkID, len(ub.config.vocab))
 		}
 	}
-- 
2.43.0


From 3fa612a3bb4265758ec203f9ddcf428da1ccf863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:47 +0000
Subject: [PATCH 87/96] fix: a saved Unigram model is a model configuration
 that can be loaded, with its unknown tokens fused as before

---
 model/unigram/unigram.go | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/model/unigram/unigram.go b/model/unigram/unigram.go
index a0fcaca..c61c867 100644
--- a/model/unigram/unigram.go
+++ b/model/unigram/unigram.go
@@ -215,17 +215,10 @@ func (u *Unigram) Save(dir string, prefixOpt ...string) error {
 	}
 	defer vocabFile.Close()
 
-	// Create a serializable representation of the vocabulary
-	type VocabEntry struct {
-		Token string  `json:"token"`
-		Score float64 `json:"score"`
-	}
-	vocabEntries := make([]VocabEntry, len(u.vocab))
+	// Entries are pairs of token and score, as in the `model` of a tokenizer.json
+	vocabEntries := make([][]interface{}, len(u.vocab))
 	for i, ts := range u.vocab {
-		vocabEntries[i] = VocabEntry{
-			Token: ts.Token,
-			Score: ts.Score,
-		}
+		vocabEntries[i] = []interface{}{ts.Token, ts.Score}
 	}
 
 	// Create the model config
@@ -234,6 +227,7 @@ func (u *Unigram) Save(dir string, prefixOpt ...string) error {
 		"vocab":         vocabEntries,
 		"unk_id":        u.unkID,
 		"byte_fallback": u.bytesFallback,
+		"fuse_unk":      u.fuseUnk,
 	}
 
 	encoder := json.NewEncoder(vocabFile)
-- 
2.43.0


From 5f5849fdee5e1cb2ba33a2f24744f9093fe1c544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:49 +0000
Subject: [PATCH 88/96] fix: BytesToChar and CharToBytes convert between bytes
 and characters, and do not panic at the last character

---
 normalizer/normalized.go | 50 ++++++++++++++++++++--------------------
 1 file changed, 25 insertions(+), 25 deletions(-)

diff --git a/normalizer/normalized.go b/normalizer/normalized.go
index c8a9598..42e0983 100644
--- a/normalizer/normalized.go
+++ b/normalizer/normalized.go
@@ -1065,7 +1065,22 @@ func (n *NormalizedString) Replace(pattern Pattern, content string) (retVal *Nor
 type byteIdxRune struct {
 	byteIdx int
 	runeIdx int
-	char    rune
+	size    int // number of bytes
+}
+
+// byteIdxRunes returns all characters of a string with their positions.
+func byteIdxRunes(s string) (retVal []byteIdxRune) {
+	for i := 0; i < len(s); {
+		_, size := utf8.DecodeRuneInString(s[i:])
+		retVal = append(retVal, byteIdxRune{
+			byteIdx: i,
+			runeIdx: len(retVal),
+			size:    size,
+		})
+		i += size
+	}
+
+	return retVal
 }
 
 // BytesToChar converts a given range from bytes to `char`
@@ -1080,16 +1095,10 @@ func BytesToChar(s string, byteRange []int) (retVal []int) {
 	}
 
 	var selectedChars []byteIdxRune
-	var currRuneIdx int = 0
-	for i, char := range []rune(s) {
-		if i >= byteRange[0] && i <= byteRange[1] {
-			selectedChars = append(selectedChars, byteIdxRune{
-				byteIdx: i,
-				runeIdx: currRuneIdx,
-				char:    char,
-			})
+	for _, item := range byteIdxRunes(s) {
+		if item.byteIdx >= byteRange[0] && item.byteIdx <= byteRange[1] {
+			selectedChars = append(selectedChars, item)
 		}
-		currRuneIdx++
 	}
 
 	for _, item := range selectedChars {
@@ -1101,7 +1110,7 @@ func BytesToChar(s string, byteRange []int) (retVal []int) {
 			end = item.runeIdx
 		}
 
-		if item.byteIdx+len([]byte(string(item.char))) == byteRange[1] {
+		if item.byteIdx+item.size == byteRange[1] {
 			end = item.runeIdx + 1
 		}
 	}
@@ -1120,28 +1129,19 @@ func CharToBytes(s string, charRange []int) (retVal []int) {
 		end = -1
 	}
 
-	var chars []byteIdxRune
-	var currRuneIdx int = 0
-	for i, char := range []rune(s) {
-		chars = append(chars, byteIdxRune{
-			byteIdx: i,
-			runeIdx: currRuneIdx,
-			char:    char,
-		})
-		currRuneIdx++
-	}
+	chars := byteIdxRunes(s)
 
 	if charRange[0] == charRange[1] {
 		for i := range chars {
 			if i == charRange[0] {
-				start = chars[i+1].byteIdx
-				end = chars[i+1].byteIdx
+				start = chars[i].byteIdx
+				end = chars[i].byteIdx
 			}
 		}
 	} else {
 		var selected []byteIdxRune
 		for _, c := range chars {
-			if c.byteIdx > charRange[0] && c.byteIdx <= charRange[1] {
+			if c.runeIdx >= charRange[0] && c.runeIdx < charRange[1] {
 				selected = append(selected, c)
 			}
 		}
@@ -1151,7 +1151,7 @@ func CharToBytes(s string, charRange []int) (retVal []int) {
 				start = c.byteIdx
 			}
 
-			end = c.byteIdx + len([]byte(string(c.char)))
+			end = c.byteIdx + c.size
 		}
 	}
 
-- 
2.43.0


From b214727d894a3a99bd3ebdca44f9d82e49421f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:17 +0000
Subject: [PATCH 89/96] fix: RangeOf an empty range is the whole text, not a
 panic

---
 normalizer/normalized.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/normalizer/normalized.go b/normalizer/normalized.go
index 42e0983..7b2b429 100644
--- a/normalizer/normalized.go
+++ b/normalizer/normalized.go
@@ -986,7 +986,7 @@ func RangeOf(s string, r []int) (retVal string) {
 		start = r[0]
 	}
 
-	if r[len(r)-1] > sLen {
+	if len(r) == 0 || r[len(r)-1] > sLen {
 		end = sLen
 	} else {
 		end = r[len(r)-1]
-- 
2.43.0


From bb9e570e1df58454694c0ea521608c6f6cab6177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:30 +0000
Subject: [PATCH 90/96] fix: making the BERT large and RoBERTa SQuAD tokenizers
 leaves the working directory as it was

Unlike the others they changed to the directory of their code and stayed
there, so that any relative path of the program pointed elsewhere, and the
next ready-made tokenizer could not find its files in a program built with
-trimpath.
---
 pretrained/bert.go    | 6 ++++++
 pretrained/roberta.go | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/pretrained/bert.go b/pretrained/bert.go
index 9f3384e..022e359 100644
--- a/pretrained/bert.go
+++ b/pretrained/bert.go
@@ -80,7 +80,13 @@ func BertBaseUncased() *tokenizer.Tokenizer {
 // https://cdn.huggingface.co/bert-large-cased-whole-word-masking-finetuned-squad-vocab.txt
 func BertLargeCasedWholeWordMaskingSquad() *tokenizer.Tokenizer {
 
+	currDir, err := os.Getwd()
+	if err != nil {
+		log.Fatal(err)
+	}
 	util.CdToThis()
+	defer util.CdBack(currDir)
+
 	vocabFile := "model/bert-large-cased-whole-word-masking-finetuned-squad-vocab.txt"
 	model, err := wordpiece.NewWordPieceFromFile(vocabFile, "[UNK]")
 	if err != nil {
diff --git a/pretrained/roberta.go b/pretrained/roberta.go
index 7760fcf..7bc800a 100644
--- a/pretrained/roberta.go
+++ b/pretrained/roberta.go
@@ -82,7 +82,13 @@ func RobertaBase(addPrefixSpace, trimOffsets bool) *tokenizer.Tokenizer {
 // - vocab: "https://cdn.huggingface.co/deepset/roberta-base-squad2/vocab.json",
 // - merges: "https://cdn.huggingface.co/deepset/roberta-base-squad2/merges.txt",
 func RobertaBaseSquad2(addPrefixSpace, trimOffsets bool) *tokenizer.Tokenizer {
+	currDir, err := os.Getwd()
+	if err != nil {
+		log.Fatal(err)
+	}
 	util.CdToThis()
+	defer util.CdBack(currDir)
+
 	vocabFile := "model/roberta-base-squad2-vocab.json"
 	mergesFile := "model/roberta-base-squad2-merges.txt"
 	model, err := bpe.NewBpeFromFiles(vocabFile, mergesFile)
-- 
2.43.0


From 480f4fcb77c6b676b84186f4a89abc6c57a7f61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:30 +0000
Subject: [PATCH 91/96] fix: the RoBERTa tokenizers trim offsets as asked

The post-processor always trimmed, whatever the trimOffsets argument, and did
not know whether a space had been added: without one the offsets of a first
word kept the space of the text in front of it.
---
 pretrained/roberta.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pretrained/roberta.go b/pretrained/roberta.go
index 7bc800a..dacf287 100644
--- a/pretrained/roberta.go
+++ b/pretrained/roberta.go
@@ -55,7 +55,8 @@ func RobertaBase(addPrefixSpace, trimOffsets bool) *tokenizer.Tokenizer {
 	tk.WithPreTokenizer(blPreTokenizer)
 
 	postProcess := processor.DefaultRobertaProcessing()
-	// postProcess.TrimOffsets(trimOffsets)
+	postProcess.TrimOffsets(trimOffsets)
+	postProcess.AddPrefixSpace(addPrefixSpace)
 	tk.WithPostProcessor(postProcess)
 
 	bpeDecoder := decoder.NewBpeDecoder("Ġ")
@@ -107,6 +108,8 @@ func RobertaBaseSquad2(addPrefixSpace, trimOffsets bool) *tokenizer.Tokenizer {
 	tk.WithPreTokenizer(blPreTokenizer)
 
 	postProcess := processor.DefaultRobertaProcessing()
+	postProcess.TrimOffsets(trimOffsets)
+	postProcess.AddPrefixSpace(addPrefixSpace)
 	tk.WithPostProcessor(postProcess)
 
 	bpeDecoder := decoder.NewBpeDecoder("Ġ")
-- 
2.43.0


From 49dc675ad4d00417822948d44227a90b947dc705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:21 +0000
Subject: [PATCH 92/96] fix: the GPT-2 and RoBERTa tokenizers decode what they
 encode
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

Their tokens are made of characters that stand for bytes, but were decoded
with a BPE decoder for which only the space character meant something, and
which dropped it from the last token: 'hello world' came back as 'helloworld',
and 'é' as two other characters.
---
 pretrained/gpt2.go    | 5 ++---
 pretrained/roberta.go | 9 ++++-----
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/pretrained/gpt2.go b/pretrained/gpt2.go
index 58c1b9c..852d915 100644
--- a/pretrained/gpt2.go
+++ b/pretrained/gpt2.go
@@ -5,7 +5,6 @@ import (
 	"os"
 
 	"github.com/sugarme/tokenizer"
-	"github.com/sugarme/tokenizer/decoder"
 	"github.com/sugarme/tokenizer/model/bpe"
 	"github.com/sugarme/tokenizer/pretokenizer"
 	"github.com/sugarme/tokenizer/processor"
@@ -56,8 +55,8 @@ func GPT2(addPrefixSpace bool, trimOffsets bool) *tokenizer.Tokenizer {
 	pprocessor := processor.NewByteLevelProcessing(pretok)
 	tk.WithPostProcessor(pprocessor)
 
-	bpeDecoder := decoder.NewBpeDecoder("Ġ")
-	tk.WithDecoder(bpeDecoder)
+	// tokens are made of characters that stand for bytes
+	tk.WithDecoder(pretok)
 
 	return tk
 }
diff --git a/pretrained/roberta.go b/pretrained/roberta.go
index dacf287..571009a 100644
--- a/pretrained/roberta.go
+++ b/pretrained/roberta.go
@@ -5,7 +5,6 @@ import (
 	"os"
 
 	"github.com/sugarme/tokenizer"
-	"github.com/sugarme/tokenizer/decoder"
 	"github.com/sugarme/tokenizer/model/bpe"
 	"github.com/sugarme/tokenizer/pretokenizer"
 	"github.com/sugarme/tokenizer/processor"
@@ -59,8 +58,8 @@ func RobertaBase(addPrefixSpace, trimOffsets bool) *tokenizer.Tokenizer {
 	postProcess.AddPrefixSpace(addPrefixSpace)
 	tk.WithPostProcessor(postProcess)
 
-	bpeDecoder := decoder.NewBpeDecoder("Ġ")
-	tk.WithDecoder(bpeDecoder)
+	// tokens are made of characters that stand for bytes
+	tk.WithDecoder(blPreTokenizer)
 
 	return tk
 }
@@ -112,8 +111,8 @@ func RobertaBaseSquad2(addPrefixSpace, trimOffsets bool) *tokenizer.Tokenizer {
 	postProcess.AddPrefixSpace(addPrefixSpace)
 	tk.WithPostProcessor(postProcess)
 
-	bpeDecoder := decoder.NewBpeDecoder("Ġ")
-	tk.WithDecoder(bpeDecoder)
+	// tokens are made of characters that stand for bytes
+	tk.WithDecoder(blPreTokenizer)
 
 	return tk
 }
-- 
2.43.0


From e06e8c88a44df144cfcb259f0ab9a2a67046c151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:03 +0000
Subject: [PATCH 93/96] fix: tokens do not belong to two sequences at once
 after setting their sequence

---
 encoding.go           | 7 ++-----
 processor/template.go | 5 ++++-
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/encoding.go b/encoding.go
index 846bc91..b19270b 100644
--- a/encoding.go
+++ b/encoding.go
@@ -180,11 +180,8 @@ func (e *Encoding) SetWord(index int, val int) {
 // SetSequenceIds set the given sequence id for the whole range of tokens contained in this Encoding
 func (e *Encoding) SetSequenceIds(sequenceId int) {
 	if e.Len() > 0 {
-		if e.SequenceRanges == nil {
-			e.SequenceRanges = make(map[int]Range)
-		}
-
-		e.SequenceRanges[sequenceId] = NewRange(0, e.Len())
+		// all the tokens are of this sequence, and of no other
+		e.SequenceRanges = map[int]Range{sequenceId: NewRange(0, e.Len())}
 	}
 }
 
diff --git a/processor/template.go b/processor/template.go
index 685f63d..118c40b 100644
--- a/processor/template.go
+++ b/processor/template.go
@@ -498,7 +498,10 @@ func (tp *TemplateProcessing) ApplyTemplate(template []Piece, encodings []tokeni
 			encoding := encodings[id]
 			typeIds := util.Repeat(typeId, encoding.Len())
 			encoding.SetTypeIds(typeIds)
-			encoding.SetSequenceIds(i)
+			// a pair that is merged already keeps its sequences
+			if encoding.NSequences() < 2 {
+				encoding.SetSequenceIds(i)
+			}
 
 			finalEncodings = append(finalEncodings, encoding)
 
-- 
2.43.0


From feeb8a2732cec68e2cc1421ed694f584c8369e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:03 +0000
Subject: [PATCH 94/96] fix: the initial alphabet of a BPE trainer is kept
 whatever the counts of the letters

---
 model/bpe/trainer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/model/bpe/trainer.go b/model/bpe/trainer.go
index 32e522e..32e908d 100644
--- a/model/bpe/trainer.go
+++ b/model/bpe/trainer.go
@@ -212,8 +212,8 @@ func (bt *BpeTrainer) computeAlphabet(wc map[string]int, w2id map[string]int, id
 	// Also, include anything from the provided intial alphabet
 	// NOTE: InitialAlphabet is CharSet which is map[string]struct{}
 	for initChar, _ := range bt.InitialAlphabet {
-		// asign a uint max as frequency
-		alphabet[initChar] = math.MaxUint32
+		// asign the max int as frequency
+		alphabet[initChar] = math.MaxInt
 	}
 
 	type keptItem struct {
-- 
2.43.0


From 58f5b4c3eebdb8b847738d9cf8f883c4868b8469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:55 +0000
Subject: [PATCH 95/96] fix: a processor sequence keeps to the pair template of
 its first members

---
 processor/sequence.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/processor/sequence.go b/processor/sequence.go
index 044fc8c..713468b 100644
--- a/processor/sequence.go
+++ b/processor/sequence.go
@@ -27,7 +27,7 @@ func (seq *Sequence) Process(encoding, pairEncoding *tokenizer.Encoding, addSpec
 	// return blp.pretok.Process(encoding, pairEncoding, addSpecialTokens)
 	var encodings *tokenizer.Encoding = encoding
 	for i, p := range seq.processors {
-		if pairEncoding != nil && i < len(seq.processors)-1 && p.AddedTokens(true) == 0 {
+		if pairEncoding != nil && i < len(seq.processors)-1 && p.AddedTokens(true) == 0 && !usesTemplate(p) {
 			// nothing to insert between the sequences, process each of them on its own
 			pairTypeIds := pairEncoding.GetTypeIds()
 			encodings = p.Process(encodings, nil, addSpecialTokens)
@@ -48,3 +48,19 @@ func (seq *Sequence) Process(encoding, pairEncoding *tokenizer.Encoding, addSpec
 
 	return encodings
 }
+
+// usesTemplate tells whether a processor has a template of its own for pairs.
+func usesTemplate(p tokenizer.PostProcessor) bool {
+	switch p := p.(type) {
+	case *TemplateProcessing:
+		return true
+	case *Sequence:
+		for _, member := range p.processors {
+			if usesTemplate(member) {
+				return true
+			}
+		}
+	}
+
+	return false
+}
-- 
2.43.0


From ec437d92769a33faf408afbb8f53435206418e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:19 +0000
Subject: [PATCH 96/96] fix: special tokens around an empty text do not become
 a sequence of their own

---
 tokenizer.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/tokenizer.go b/tokenizer.go
index a238c2e..53e1221 100644
--- a/tokenizer.go
+++ b/tokenizer.go
@@ -96,8 +96,8 @@ func PrepareEncodings(encoding, pairEncoding *Encoding) (out []Encoding) {
 		encodings = append(encodings, *pairEncoding)
 	}
 	for i, encoding := range encodings {
-		// already made of sequences, leave them as they are
-		if len(encoding.SequenceRanges) > 0 {
+		// already made of sequences, or of special tokens around nothing: leave them as they are
+		if len(encoding.SequenceRanges) > 0 || onlySpecial(encoding) {
 			ranges := make(map[int]Range)
 			for seqId, r := range encoding.SequenceRanges {
 				ranges[seqId] = r
@@ -133,6 +133,17 @@ func PrepareEncodings(encoding, pairEncoding *Encoding) (out []Encoding) {
 	return
 }
 
+// onlySpecial tells whether an encoding has tokens, all of them marked special.
+func onlySpecial(encoding Encoding) bool {
+	for _, special := range encoding.SpecialTokenMask {
+		if special == 0 {
+			return false
+		}
+	}
+
+	return len(encoding.SpecialTokenMask) > 0
+}
+
 /*
 
    encodings.iter_mut().enumerate().for_each(|(i, encoding)| {
-- 
2.43.0

