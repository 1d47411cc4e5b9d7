From 903bb8cf9ffc673325965313675bc6d3d9ee652e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:26 +0000
Subject: [PATCH 01/95] fix: tokenize without a cache when the BPE cache is
 disabled

---
 model/bpe/bpe.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/model/bpe/bpe.go b/model/bpe/bpe.go
index d408818..4ad59f4 100644
--- a/model/bpe/bpe.go
+++ b/model/bpe/bpe.go
@@ -478,6 +478,11 @@ func (b BPE) Tokenize(sequence string) (retVal []tokenizer.Token, err error) {
 
 func (b BPE) TokenizeWithCache(sequence string) (retVal []tokenizer.Token) {
 
+	// the cache is disabled
+	if b.Cache == nil {
+		return b.WordToTokens(*b.MergeWord(sequence))
+	}
+
 	if hit, ok := b.Cache.Get(sequence); ok {
 		return b.WordToTokens(hit)
 	} else {
-- 
2.43.0


From 6927192d9e9e292a4da375c2c66e6ccc7ae99bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:57 +0000
Subject: [PATCH 02/95] fix: merge equal-rank BPE pairs leftmost first

---
 model/bpe/word.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/model/bpe/word.go b/model/bpe/word.go
index 03b6b21..166f354 100644
--- a/model/bpe/word.go
+++ b/model/bpe/word.go
@@ -267,6 +267,11 @@ func (w *Word) MergeAll(merges map[Pair]PairVal, dropoutOpt ...float32) {
 		c2 := b.(Merge).Rank
 
 		if c1 == c2 {
+			// leftmost first
+			if a.(Merge).Pos != b.(Merge).Pos {
+				return utils.IntComparator(a.(Merge).Pos, b.(Merge).Pos)
+			}
+
 			aTime := a.(Merge).Time
 			bTime := b.(Merge).Time
 
-- 
2.43.0


From 1fb195552e5583f6d2dacba63016a311735ec6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:59 +0000
Subject: [PATCH 03/95] fix: re-queue merges skipped by dropout only once

---
 model/bpe/word.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/model/bpe/word.go b/model/bpe/word.go
index 166f354..c4e4287 100644
--- a/model/bpe/word.go
+++ b/model/bpe/word.go
@@ -329,6 +329,7 @@ func (w *Word) MergeAll(merges map[Pair]PairVal, dropoutOpt ...float32) {
 			for _, s := range skip {
 				queue.Push(s)
 			}
+			skip = nil
 
 			if (w.Symbols[top.(Merge).Pos]).Len > 0 {
 				if (w.Symbols[top.(Merge).Pos]).Next == -1 {
-- 
2.43.0


From e1619318b6899871dc798125198402d0f86cb460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:00 +0000
Subject: [PATCH 04/95] fix: apply BPE continuing prefix and end-of-word suffix
 to the right characters

---
 model/bpe/bpe.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/model/bpe/bpe.go b/model/bpe/bpe.go
index 4ad59f4..f627d4e 100644
--- a/model/bpe/bpe.go
+++ b/model/bpe/bpe.go
@@ -384,13 +384,13 @@ func (b *BPE) MergeWord(w string) *Word {
 		)
 		byteLen = len(string(r))
 
-		// if first rune, add prefix
-		if byteIdx == 0 {
-			s = fmt.Sprintf("%v%v", prefix, string(r))
-		} else if currRuneIdx == len(chars) { // last rune, add suffix
-			s = fmt.Sprintf("%v%v", string(r), suffix)
-		} else { // the rest
-			s = string(r)
+		// if not first rune, add prefix
+		s = string(r)
+		if byteIdx > 0 {
+			s = fmt.Sprintf("%v%v", prefix, s)
+		}
+		if currRuneIdx == len(chars)-1 { // last rune, add suffix
+			s = fmt.Sprintf("%v%v", s, suffix)
 		}
 		currRuneIdx++
 
-- 
2.43.0


From 3cd844c04789a2f5e43e18486cbbe42a9bf4c903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:07 +0000
Subject: [PATCH 05/95] fix: report WordPiece token offsets in bytes

---
 model/wordpiece/wordpiece.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/model/wordpiece/wordpiece.go b/model/wordpiece/wordpiece.go
index a691bc9..184b799 100644
--- a/model/wordpiece/wordpiece.go
+++ b/model/wordpiece/wordpiece.go
@@ -268,7 +268,7 @@ func (wp WordPiece) Tokenize(sequence string) (retVal []tokenizer.Token, err err
 		token := tokenizer.Token{
 			Value:   wp.unkToken,
 			Id:      id,
-			Offsets: []int{0, charLen},
+			Offsets: []int{0, len(sequence)},
 		}
 		outputTokens = append(outputTokens, token)
 
@@ -295,7 +295,7 @@ func (wp WordPiece) Tokenize(sequence string) (retVal []tokenizer.Token, err err
 				currStr = &tokenizer.Token{
 					Id:      id,
 					Value:   substr,
-					Offsets: []int{start, end},
+					Offsets: []int{len(string(chars[:start])), len(string(chars[:end]))},
 				}
 
 				break
@@ -320,7 +320,7 @@ func (wp WordPiece) Tokenize(sequence string) (retVal []tokenizer.Token, err err
 		token := tokenizer.Token{
 			Value:   wp.unkToken,
 			Id:      id,
-			Offsets: []int{0, charLen},
+			Offsets: []int{0, len(sequence)},
 		}
 
 		outputTokens = append(outputTokens, token)
-- 
2.43.0


From 5c647d0422dace893ad7885e98b52b37f725d0dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:08 +0000
Subject: [PATCH 06/95] fix: honour continuing_subword_prefix of WordPiece
 configurations

---
 model/wordpiece/wordpiece.go | 2 +-
 pretrained/model.go          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/model/wordpiece/wordpiece.go b/model/wordpiece/wordpiece.go
index 184b799..a509f6a 100644
--- a/model/wordpiece/wordpiece.go
+++ b/model/wordpiece/wordpiece.go
@@ -418,7 +418,7 @@ func New(
 	if opts.Has("unk_token") {
 		unkToken = opts.Get("unk_token").(string)
 	}
-	if opts.Has("continuingSubwordPrefix") {
+	if opts.Has("continuing_subword_prefix") {
 		continuingSubwordPrefix = opts.Get("continuing_subword_prefix").(string)
 	}
 	if opts.Has("max_input_chars_per_word") {
diff --git a/pretrained/model.go b/pretrained/model.go
index 507790d..3a01e3c 100644
--- a/pretrained/model.go
+++ b/pretrained/model.go
@@ -128,7 +128,7 @@ func createWordPiece(params *util.Params) (tokenizer.Model, error) {
 	}
 	if params.Has("continuing_subword_prefix") {
 		v := params.Get("continuing_subword_prefix").(string)
-		opts.Get("continuing_subword_prefix", v)
+		opts.Set("continuing_subword_prefix", v)
 	}
 
 	if params.Has("max_input_chars_per_word") {
-- 
2.43.0


From 1ff84d30619ecef23bcb6569245e1e39e5f76cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:10 +0000
Subject: [PATCH 07/95] fix: keep the id of a word-level unknown token already
 in the vocabulary

---
 model/wordlevel/wordlevel.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/model/wordlevel/wordlevel.go b/model/wordlevel/wordlevel.go
index 8fc7806..ee9f75f 100644
--- a/model/wordlevel/wordlevel.go
+++ b/model/wordlevel/wordlevel.go
@@ -46,7 +46,9 @@ func (wlb *WordLevelBuilder) Vocab(vocab map[string]int) {
 // UnkToken set `UNK` token for the vocab
 func (wlb *WordLevelBuilder) UnkToken(unkToken string) {
 	wlb.config.unkToken = unkToken
-	wlb.config.vocab[unkToken] = len(wlb.config.vocab)
+	if _, ok := wlb.config.vocab[unkToken]; !ok {
+		wlb.config.vocab[unkToken] = len(wlb.config.vocab)
+	}
 }
 
 // Build builds a WordLevel using configuration
-- 
2.43.0


From 9cd35c69c43a7432e1316566cd33079ab73f0f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:21 +0000
Subject: [PATCH 08/95] fix: use unigram byte fallback for unknown characters
 only

---
 model/unigram/unigram.go | 35 +++++++++++++++++++++++++----------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/model/unigram/unigram.go b/model/unigram/unigram.go
index 8f40367..9d30fd0 100644
--- a/model/unigram/unigram.go
+++ b/model/unigram/unigram.go
@@ -251,14 +251,6 @@ func (u *Unigram) Tokenize(sequence string) ([]tokenizer.Token, error) {
 		return u.tokensToTokenizer(tokens, sequence), nil
 	}
 
-	// If byte fallback is enabled, always use it
-	if u.bytesFallback {
-		tokens := u.tokenizeWithByteFallback(sequence)
-		u.cache.Set(sequence, tokens, CacheExpiredTime*time.Minute)
-
-		return u.tokensToTokenizer(tokens, sequence), nil
-	}
-
 	// Tokenize using the Viterbi algorithm
 	tokens, err := u.tokenizeWithViterbi(sequence)
 	if err != nil {
@@ -277,6 +269,25 @@ func (u *Unigram) tokensToTokenizer(tokens []string, sequence string) []tokenize
 	for _, token := range tokens {
 		length := len(token)
 		id, ok := u.TokenToId(token)
+		if !ok && u.bytesFallback {
+			// Byte tokens cover the character they come from
+			for _, r := range token {
+				charLen := utf8.RuneLen(r)
+				for _, byteToken := range u.tokenizeWithByteFallback(string(r)) {
+					byteID, ok := u.TokenToId(byteToken)
+					if !ok {
+						continue
+					}
+					result = append(result, tokenizer.Token{
+						Id:      byteID,
+						Value:   byteToken,
+						Offsets: []int{offset, offset + charLen},
+					})
+				}
+				offset += charLen
+			}
+			continue
+		}
 		if !ok {
 			// Handle unknown token
 			if u.unkID != nil {
@@ -395,14 +406,18 @@ func (u *Unigram) tokenizeWithViterbi(sequence string) ([]string, error) {
 
 		// If we haven't found a single character token and we have an unknown token ID,
 		// add an unknown token for this character
-		if !hasSingleNode && u.unkID != nil {
+		if !hasSingleNode && (u.unkID != nil || u.bytesFallback) {
+			unkID := -1
+			if u.unkID != nil {
+				unkID = *u.unkID
+			}
 			j := i + charLen
 			if j <= n {
 				newScore := lattice[i].bestScore + unkScore
 				if newScore > lattice[j].bestScore {
 					lattice[j].bestScore = newScore
 					lattice[j].bestIndex = i
-					lattice[j].id = *u.unkID
+					lattice[j].id = unkID
 				}
 			}
 		}
-- 
2.43.0


From 066083b31098996f165c320aaa54f922fc6ad563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:22 +0000
Subject: [PATCH 09/95] fix: let unigram match tokens longer than 20 bytes

---
 model/unigram/unigram.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/model/unigram/unigram.go b/model/unigram/unigram.go
index 9d30fd0..b1e81ad 100644
--- a/model/unigram/unigram.go
+++ b/model/unigram/unigram.go
@@ -42,6 +42,8 @@ type Unigram struct {
 	unkID         *int
 	bytesFallback bool
 	fuseUnk       bool
+	// Length in bytes of the longest token
+	maxTokenLen int
 	// Cache for tokenization
 	cache *Catch.Cache
 }
@@ -92,8 +94,12 @@ func (ub *UnigramBuilder) FuseUnk(fuseUnk bool) *UnigramBuilder {
 func (ub *UnigramBuilder) Build() (*Unigram, error) {
 	// Create token to ID mapping
 	tokenToIDs := make(map[string]int, len(ub.config.vocab))
+	maxTokenLen := 0
 	for i, ts := range ub.config.vocab {
 		tokenToIDs[ts.Token] = i
+		if len(ts.Token) > maxTokenLen {
+			maxTokenLen = len(ts.Token)
+		}
 	}
 
 	// Validate unkID if provided
@@ -109,6 +115,7 @@ func (ub *UnigramBuilder) Build() (*Unigram, error) {
 		unkID:         ub.config.unkID,
 		bytesFallback: ub.config.bytesFallback,
 		fuseUnk:       ub.config.fuseUnk,
+		maxTokenLen:   maxTokenLen,
 		cache:         Catch.New(CacheExpiredTime*time.Minute, CacheCleanTime*time.Minute),
 	}, nil
 }
@@ -349,8 +356,8 @@ func (u *Unigram) tokenizeWithViterbi(sequence string) ([]string, error) {
 		}
 
 		// Try all possible tokens starting at this position
-		// Limit the maximum token length to 20 characters for efficiency
-		maxLen := 20
+		// Limit the maximum token length to the longest one for efficiency
+		maxLen := u.maxTokenLen
 		if i+maxLen > n {
 			maxLen = n - i
 		}
-- 
2.43.0


From 5e8f280239d315fe9cddebf7c1e68b1cbe6e63c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:31 +0000
Subject: [PATCH 10/95] fix: recompute original alignments after each edit of a
 normalized string

---
 normalizer/normalized.go | 233 ++++++---------------------------------
 1 file changed, 31 insertions(+), 202 deletions(-)

diff --git a/normalizer/normalized.go b/normalizer/normalized.go
index e1a4212..c3ea836 100644
--- a/normalizer/normalized.go
+++ b/normalizer/normalized.go
@@ -192,6 +192,29 @@ func createAligns(s string) [][]int {
 	return alignments
 }
 
+// invertAlignments gives, for each byte of the original string, the range of the
+// normalized bytes aligned with its character. A character without any gets the
+// empty range at the place where it was removed.
+func invertAlignments(original string, alignments [][]int) [][]int {
+	retVal := make([][]int, 0, len(original))
+	start := 0
+	for pos, r := range original {
+		charEnd := pos + utf8.RuneLen(r)
+		for start < len(alignments) && alignments[start][1] <= pos {
+			start++
+		}
+		end := start
+		for end < len(alignments) && alignments[end][0] < charEnd {
+			end++
+		}
+		for i := pos; i < charEnd; i++ {
+			retVal = append(retVal, []int{start, end})
+		}
+	}
+
+	return retVal
+}
+
 func NewNormalizedString(original, normalized string, alignments, alignmentsOriginal [][]int, originalShift int) *NormalizedString {
 	return &NormalizedString{
 		original:           original,
@@ -486,15 +509,9 @@ func (n *NormalizedString) TransformRange(inputRange *Range, changeMap []ChangeM
 	 *  */
 	replacedNormalized.Reset()
 
-	// Handle the initial offset in the original alignment. All the characters
-	// that were removed from the normalized one should have their width reduced
-	// by the number of bytes we remove
-	endShiftStart := nRange.end
 	initialRemoved := 0
 	if initialOffset > 0 {
 		// log.Printf("=> Clearing alignment for %v chars\n", initialOffset)
-		removedBytes := 0
-		var removedChars []rune
 		for i := 0; i < initialOffset; i++ {
 			c, ok := replacedNormalized.Next()
 			if !ok {
@@ -502,42 +519,7 @@ func (n *NormalizedString) TransformRange(inputRange *Range, changeMap []ChangeM
 				// a bad state if this happens. We already modified a lot of things
 				log.Fatalf("1. Expected to remove %v characters but couldn't find them ...\n", initialOffset)
 			}
-			removedBytes += len([]byte(string(c)))
-			removedChars = append(removedChars, c)
-		}
-		initialRemoved = removedBytes
-		offset := nRange.start
-		oShift := 0
-		// Then we remove all these chars, updating the alignments along the way
-		for _, c := range removedChars {
-			removedORange := expandAlignments(n.alignments[offset : offset+len(string(c))])
-			offset += len(string(c))
-			oShift += len(string(c))
-			alignments := n.alignmentsOriginal[removedORange[0]:removedORange[1]]
-			// log.Printf("Clearing alignments for char: %q - alignments: %+v\n", c, alignments)
-			// 1. Get new alignments
-			var newAlignments [][]int
-			for _, offsets := range alignments {
-				// At the very end we will apply the global shift to the remaining
-				// original offsets. We should start after these to avoid doing it twice
-				if offsets[1] > endShiftStart {
-					endShiftStart = offsets[1]
-				}
-
-				offsets[1] = applySign(offsets[1], -(oShift))
-				// Make sure the starting offset is always smaller or equal to the end
-				if offsets[0] > offsets[1] {
-					offsets[0] = offsets[1]
-				}
-
-				newAlignments = append(newAlignments, offsets)
-			}
-			// 2. Update alignmentOriginal with new alignments in `removedORange` range
-			var aligns [][]int = append(n.alignmentsOriginal[:removedORange[0]], newAlignments...)
-			aligns = append(aligns, n.alignmentsOriginal[removedORange[1]:]...)
-			n.alignmentsOriginal = aligns
-
-			// log.Printf("Cleared: %+v\n", alignments)
+			initialRemoved += len([]byte(string(c)))
 		}
 	} // end `If` block
 
@@ -547,9 +529,6 @@ func (n *NormalizedString) TransformRange(inputRange *Range, changeMap []ChangeM
 	// 2. 	collect transformed `chars` to a string
 	// 			variable (`normalized`)
 
-	// oShift is the shift to be applied to all original alignments along the way
-	// NOTE. `oShift` and `offset` here are different from ones inside previous block
-	oShift := -(initialRemoved)
 	offset := initialRemoved + nRange.start
 	var normalizedAlignments [][]int
 
@@ -558,7 +537,6 @@ func (n *NormalizedString) TransformRange(inputRange *Range, changeMap []ChangeM
 		normalizedRunes []rune
 	)
 
-	replacedNormalized.Reset() // make sure iterating from begining
 	for _, item := range changeMap {
 		/*
 		 *     var changeType string
@@ -596,19 +574,11 @@ func (n *NormalizedString) TransformRange(inputRange *Range, changeMap []ChangeM
 		}
 
 		// If we are replacing a character, find it and compute the change in size
-		var replacedChar rune
-		if item.Changes <= 0 {
-			replacedChar, _ = replacedNormalized.Next()
-		} else {
-			replacedChar = 0 // nil rune value
-		}
 		replacedCharSize := 0
-		if replacedChar > 0 {
-			replacedCharSize = len([]byte(string(replacedChar)))
-		}
-		replacedCharSizeChange := len(item.RuneVal) - replacedCharSize
-		if replacedChar > 0 {
-			// log.Printf("Replacing char: '%v' - with a change in size: %v", string(replacedChar), replacedCharSizeChange)
+		if item.Changes <= 0 {
+			if replacedChar, ok := replacedNormalized.Next(); ok {
+				replacedCharSize = len([]byte(string(replacedChar)))
+			}
 		}
 
 		// If we are removing some characters, find them too
@@ -634,121 +604,9 @@ func (n *NormalizedString) TransformRange(inputRange *Range, changeMap []ChangeM
 		// fmt.Printf("removedChars: %+q\n", string(removedChars))
 		// log.Printf("Total bytes to remove: %v\n", totalBytesToRemove)
 
-		// If we are removing characters, there are two possible scenarios:
-		//   1. We remove characters that are part of the original string (most likely)
-		//   2. We remove characters that were previously added (with NFD for example)
-		//      and are just part of the normalized string
-
-		var removingFromOriginal, removingFromNormalized int = 0, 0
-		// Guard: idx may equal len(n.alignments) when removals fall at the very end of the string.
-		if totalBytesToRemove > 0 && idx < len(n.alignments) {
-			start := n.alignments[idx][1]
-			// Bounds check to prevent index out of range panic
-			endIdx := idx + totalBytesToRemove
-			if endIdx >= len(n.alignments) {
-				endIdx = len(n.alignments) - 1
-			}
-			end := n.alignments[endIdx][1]
-			originalRange := util.MakeRange(start, end)
-			// fmt.Printf("start: %v - end: %v; range: (%+v)\n", start, end, originalRange)
-			removingFromOriginal = len(originalRange)
-			removingFromNormalized = totalBytesToRemove - len(originalRange)
-
-			// log.Printf("Bytes to remove from original alignments: %v\n", removingFromOriginal)
-			// log.Printf("Bytes to remove from normalized alignments: %v\n", removingFromNormalized)
-		}
-
-		// Update the original alignments for the **current** `char`
-		// fmt.Printf("align: %v\n", align)
-		// fmt.Printf("current alignmentsOriginal: %+v\n", n.alignmentsOriginal)
-		alignments := n.alignmentsOriginal[align[0]:align[1]]
-		// fmt.Printf("alignments: %+v\n", alignments)
-		if len(alignments) > 0 {
-			// log.Printf("Updating original alignments: %+v\n", alignments)
-
-			// Let's compute the actual change in size for the original alignment.
-			// This value may be different than `replacedCharSizeChange` because the
-			// char might not exist in the original string. It might have been added.
-			originalRange := expandAlignments(alignments)
-
-			replacedCharSizeChangeOriginal := len(item.RuneVal) - (originalRange[1] - originalRange[0])
-			// log.Printf("Change in size for the current char: %v\n", replacedCharSizeChange)
-			// log.Printf("Change in size in the original alignment for the current char: %v\n", replacedCharSizeChangeOriginal)
-
-			var newAlignments [][]int
-			for _, offsets := range alignments {
-				var newAlign []int = make([]int, 2)
-
-				// A new char is being added, we need to extend the current
-				// alignment. No need to apply the shift in this case as it
-				// should have been applied already (with a previous changes == 0).
-				if item.Changes > 0 {
-					newAlign[0] = offsets[0]
-					newAlign[1] = offsets[1] + len(item.RuneVal)
-				} else {
-					// Otherwise we just apply the shift
-					newAlign[0] = offsets[0]
-					newAlign[1] = applySign(offsets[1], replacedCharSizeChange)
-					newAlign[1] = applySign(newAlign[1], -(removingFromNormalized))
-
-					// NOTE: We only apply oShift if we are:
-					// - Removing characters
-					// - Replacing one, that has the same size in both normalized and
-					//   original alignments.
-					// Otherwise it means we are modifying multiple times the same
-					// original character. This happens when normalized characters
-					// are added (not part of the original), and then replaced.
-					if item.Changes < 0 || replacedCharSizeChange == replacedCharSizeChangeOriginal {
-						newAlign[0] = applySign(newAlign[0], oShift)
-						newAlign[1] = applySign(newAlign[1], oShift)
-					}
-				}
-
-				newAlignments = append(newAlignments, newAlign)
-			}
-
-			// Now, update original alignments for current `char` with new alignments
-			// fmt.Printf("newAlignments: %+v\n", newAlignments)
-			var aligns [][]int
-			if align[0] == 0 {
-				aligns = append(newAlignments, n.alignmentsOriginal[align[1]:]...)
-			} else {
-				aligns = append(n.alignmentsOriginal[:align[0]], newAlignments...)
-				aligns = append(aligns, n.alignmentsOriginal[align[1]:]...)
-			}
-			n.alignmentsOriginal = aligns
-			// log.Printf("Updated to: %+v\n", newAlignments)
-			// fmt.Printf("current n.alignmentsOriginal: %+v\n", n.alignmentsOriginal)
-		}
-
-		// If some were removed, we need to zero them out in the original alignments
-		if removingFromOriginal > 0 {
-			start := n.alignments[idx][1]
-			end := n.alignments[idx+totalBytesToRemove][1]
-			// They should use the original alignment of the current character
-			newIdx := n.alignmentsOriginal[align[0]][1]
-			alignments := n.alignmentsOriginal[start:end]
-			var newAlignments [][]int
-			if len(alignments) > 0 {
-				// log.Printf("Removing original alignments: %v\n", alignments)
-				for _, offsets := range alignments {
-					offsets[0] = newIdx
-					offsets[1] = newIdx
-					newAlignments = append(newAlignments, offsets)
-				}
-
-				aligns := append(n.alignmentsOriginal[:start], newAlignments...)
-				aligns = append(aligns, n.alignmentsOriginal[end:]...)
-				n.alignmentsOriginal = aligns
-			}
-		}
-
 		// Keep track of the changes for next offsets
 		offset += replacedCharSize
 		offset += totalBytesToRemove
-		// For the original only the real modifications count
-		oShift += replacedCharSizeChange
-		oShift -= totalBytesToRemove
 		// log.Printf("New normalized alignment: %vx %v\n", len(item.RuneVal), align)
 
 		for i := 0; i < len(item.RuneVal); i++ {
@@ -764,36 +622,6 @@ func (n *NormalizedString) TransformRange(inputRange *Range, changeMap []ChangeM
 
 	} // End of `For` block
 
-	// Apply the changes to the remaining original alignments
-	if oShift != 0 {
-		// log.Printf("Shifting the end  from %v using shift: %v\n", endShiftStart, oShift)
-
-		var endShift [][]int
-		for _, item := range n.alignments[endShiftStart:] {
-			endShift = append(endShift, item)
-		}
-		endRange := expandAlignments(endShift)
-
-		// log.Printf("End range: %+v\n", endRange)
-
-		if endRange != nil {
-			alignments := n.alignmentsOriginal[endRange[0]:endRange[1]]
-			var newAlignments [][]int
-			if len(alignments) > 0 {
-				// log.Printf("Alignments before shifting: %+v\n", alignments)
-				for _, offsets := range alignments {
-					newOffset0 := applySign(offsets[0], oShift)
-					newOffset1 := applySign(offsets[1], oShift)
-					newAlignments = append(newAlignments, []int{newOffset0, newOffset1})
-				}
-				aligns := append(n.alignmentsOriginal[:endRange[0]], newAlignments...)
-				aligns = append(aligns, n.alignmentsOriginal[endRange[1]:]...)
-				n.alignmentsOriginal = aligns
-				// log.Printf("After: %+v\n", newAlignments)
-			}
-		}
-	}
-
 	// replace alignments with new ones in range
 	var newAlignments [][]int
 	// fmt.Printf("nRange: %v\n", nRange)
@@ -820,6 +648,7 @@ func (n *NormalizedString) TransformRange(inputRange *Range, changeMap []ChangeM
 	// Finally, change the `normalized` string
 	newNormalized := n.normalized[:nRange.start] + string(normalizedRunes) + n.normalized[nRange.end:]
 	n.normalized = newNormalized
+	n.alignmentsOriginal = invertAlignments(n.original, n.alignments)
 
 	// log.Printf("New normalized alignments: %+v\nNew original alignments: %+v\n", n.alignments, n.alignmentsOriginal)
 	// log.Printf("New normalized string: %q\n", n.normalized)
@@ -858,8 +687,8 @@ func (n *NormalizedString) TransformRange(inputRange *Range, changeMap []ChangeM
 // {6, 7},
 func (n *NormalizedString) Transform(m []ChangeMap, initialOffset int) (retVal *NormalizedString) {
 	start := 0
-	end := len(n.original)
-	wholeRange := NewRange(start, end, OriginalTarget)
+	end := len(n.normalized)
+	wholeRange := NewRange(start, end, NormalizedTarget)
 	return n.TransformRange(wholeRange, m, initialOffset)
 }
 
-- 
2.43.0


From febb138f3801c92ae528f5f607a76ee656949a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:51 +0000
Subject: [PATCH 11/95] fix: apply the requested Unicode normalization form
 with matching alignments

---
 normalizer/normalized.go | 130 +++++++--------------------------------
 1 file changed, 22 insertions(+), 108 deletions(-)

diff --git a/normalizer/normalized.go b/normalizer/normalized.go
index c3ea836..dfd4187 100644
--- a/normalizer/normalized.go
+++ b/normalizer/normalized.go
@@ -692,7 +692,8 @@ func (n *NormalizedString) Transform(m []ChangeMap, initialOffset int) (retVal *
 	return n.TransformRange(wholeRange, m, initialOffset)
 }
 
-func (n *NormalizedString) NFD() (retVal *NormalizedString) {
+// normalForm brings the normalized string into the given Unicode normalization form.
+func (n *NormalizedString) normalForm(form norm.Form) (retVal *NormalizedString) {
 
 	s := n.normalized
 	var (
@@ -704,27 +705,34 @@ func (n *NormalizedString) NFD() (retVal *NormalizedString) {
 	// right before N removed chars
 	// changes = 0 if this represents the old one (even if changed)
 
-	// Iterating over string and apply tranformer (NFD). One character at a time
+	// Iterating over string and apply tranformer (the form). One character at a time
 	// A `character` is defined as:
 	// - a sequence of runes that starts with a starter,
 	// - a rune that does not modify or combine backwards with any other rune,
 	// - followed by possibly empty sequence of non-starters, that is, runes that do (typically accents).
 	// We will iterate over string and apply transformer to each char
 	// If a char composes of one rune, there no changes
-	// If more than one rune, first is no change, the rest is 1 changes
-	it.InitString(norm.NFD, s)
+	// Otherwise each rune replaces one of the character's former runes; runes more than
+	// there were are added (1) and former runes more than there are now removed (-N).
+	it.InitString(form, s)
 	for !it.Done() {
-		// runes := []rune(string(it.Next()))
+		pos := it.Pos()
 		runes := bytes.Runes(it.Next())
+		replaced := utf8.RuneCountInString(s[pos:it.Pos()])
 
 		for i, r := range runes {
 			switch i := i; {
-			case i == 0:
+			case i < replaced && i == len(runes)-1:
+				changeMap = append(changeMap, ChangeMap{
+					RuneVal: string(r),
+					Changes: -(replaced - len(runes)),
+				})
+			case i < replaced:
 				changeMap = append(changeMap, ChangeMap{
 					RuneVal: string(r),
 					Changes: 0,
 				})
-			case i > 0:
+			default:
 				changeMap = append(changeMap, ChangeMap{
 					RuneVal: string(r),
 					Changes: 1,
@@ -740,114 +748,20 @@ func (n *NormalizedString) NFD() (retVal *NormalizedString) {
 	return n.Transform(changeMap, 0)
 }
 
-func (n *NormalizedString) NFC() (retVal *NormalizedString) {
-	var (
-		changeMap []ChangeMap
-		it        norm.Iter
-	)
-
-	s := n.normalized
-
-	isNFC := norm.Form.IsNormalString(norm.NFC, s)
-	if isNFC {
-		return n
-	}
-
-	it.InitString(norm.NFD, s)
-
-	for !it.Done() {
-		// runes := []rune(string(it.Next()))
-		runes := bytes.Runes(it.Next())
-
-		for i, r := range runes {
-			switch i := i; {
-			case i == 0:
-				changeMap = append(changeMap, ChangeMap{
-					RuneVal: string(r),
-					Changes: 0,
-				})
-			case i > 0:
-				changeMap = append(changeMap, ChangeMap{
-					RuneVal: string(r),
-					Changes: 1,
-				})
-			}
-		}
-	}
+func (n *NormalizedString) NFD() (retVal *NormalizedString) {
+	return n.normalForm(norm.NFD)
+}
 
-	return n.Transform(changeMap, 0)
+func (n *NormalizedString) NFC() (retVal *NormalizedString) {
+	return n.normalForm(norm.NFC)
 }
 
 func (n *NormalizedString) NFKD() (retVal *NormalizedString) {
-
-	s := n.normalized
-	isNFKD := norm.Form.IsNormalString(norm.NFKD, s)
-	if isNFKD {
-		return
-	}
-
-	var (
-		changeMap []ChangeMap
-		it        norm.Iter
-	)
-
-	it.InitString(norm.NFKD, s)
-	for !it.Done() {
-		runes := []rune(string(it.Next()))
-
-		for i, r := range runes {
-			switch i := i; {
-			case i == 0:
-				changeMap = append(changeMap, ChangeMap{
-					RuneVal: string(r),
-					Changes: 0,
-				})
-			case i > 0:
-				changeMap = append(changeMap, ChangeMap{
-					RuneVal: string(r),
-					Changes: 1,
-				})
-			}
-		}
-	}
-
-	return n.Transform(changeMap, 0)
+	return n.normalForm(norm.NFKD)
 }
 
 func (n *NormalizedString) NFKC() (retVal *NormalizedString) {
-
-	var (
-		changeMap []ChangeMap
-		it        norm.Iter
-	)
-
-	s := n.normalized
-
-	isNFKC := norm.Form.IsNormalString(norm.NFKC, s)
-
-	if isNFKC {
-		return n
-	}
-
-	it.InitString(norm.NFKD, n.normalized)
-
-	for !it.Done() {
-		runes := []rune(string(it.Next()))
-
-		if len(runes) == 1 {
-			changeMap = append(changeMap, ChangeMap{
-				RuneVal: string(runes),
-				Changes: 0,
-			})
-		} else if len(runes) > 1 {
-			changeMap = append(changeMap, ChangeMap{
-				RuneVal: string(runes),
-				Changes: -1,
-			})
-		}
-	}
-
-	return n.Transform(changeMap, 0)
+	return n.normalForm(norm.NFKC)
 }
 
 // Filter applies filtering on NormalizedString
-- 
2.43.0


From d79a3c0c97844149e35c723ce401b4a8c2a819f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:53 +0000
Subject: [PATCH 12/95] fix: keep alignments when mapping characters

---
 normalizer/normalized.go | 20 ++++----------------
 1 file changed, 4 insertions(+), 16 deletions(-)

diff --git a/normalizer/normalized.go b/normalizer/normalized.go
index dfd4187..11fbfaa 100644
--- a/normalizer/normalized.go
+++ b/normalizer/normalized.go
@@ -3,7 +3,6 @@ package normalizer
 import (
 	"bytes"
 	"log"
-	"strings"
 	"unicode"
 	"unicode/utf8"
 
@@ -867,7 +866,7 @@ func (n *NormalizedString) Map(nfn NormFn) (retVal *NormalizedString) {
 	s := n.normalized
 	var changeMap []ChangeMap
 	for _, r := range []rune(s) {
-		changeMap = append(changeMap, ChangeMap{string(r), 0})
+		changeMap = append(changeMap, ChangeMap{string(nfn(r)), 0})
 	}
 
 	return n.Transform(changeMap, 0)
@@ -876,14 +875,7 @@ func (n *NormalizedString) Map(nfn NormFn) (retVal *NormalizedString) {
 // ForEach applies function on each `char` of normalized string
 // Similar to Map???
 func (n *NormalizedString) ForEach(nfn NormFn) (retVal *NormalizedString) {
-	s := n.normalized
-	var runes []rune
-	for _, r := range []rune(s) {
-		runes = append(runes, nfn(r))
-	}
-	n.normalized = string(runes)
-
-	return n
+	return n.Map(nfn)
 }
 
 // RemoveAccents removes all Unicode Mn group (M non-spacing)
@@ -895,16 +887,12 @@ func (n *NormalizedString) RemoveAccents() (retVal *NormalizedString) {
 
 // Lowercase transforms string to lowercase
 func (n *NormalizedString) Lowercase() (retVal *NormalizedString) {
-	n.normalized = strings.ToLower(n.normalized)
-
-	return n
+	return n.Map(unicode.ToLower)
 }
 
 // Uppercase transforms string to uppercase
 func (n *NormalizedString) Uppercase() (retVal *NormalizedString) {
-	n.normalized = strings.ToUpper(n.normalized)
-
-	return n
+	return n.Map(unicode.ToUpper)
 }
 
 // Clear clears the normalized part of the string
-- 
2.43.0


From 336a987288d5c3be0431d8af8605deca0b5dcd3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:55 +0000
Subject: [PATCH 13/95] fix: count characters when clearing a normalized string

---
 normalizer/normalized.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/normalizer/normalized.go b/normalizer/normalized.go
index 11fbfaa..6917c20 100644
--- a/normalizer/normalized.go
+++ b/normalizer/normalized.go
@@ -897,7 +897,7 @@ func (n *NormalizedString) Uppercase() (retVal *NormalizedString) {
 
 // Clear clears the normalized part of the string
 func (n *NormalizedString) Clear() {
-	length := n.Len()
+	length := utf8.RuneCountInString(n.normalized)
 	n.Transform([]ChangeMap{}, length)
 }
 
-- 
2.43.0


From 656796fc732d115446f793905e6ee692ab214b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:09 +0000
Subject: [PATCH 14/95] fix: slice normalized strings safely at every position

---
 normalizer/normalized.go | 58 +++++++++++++++++++++++++++-------------
 1 file changed, 40 insertions(+), 18 deletions(-)

diff --git a/normalizer/normalized.go b/normalizer/normalized.go
index 6917c20..efefbe8 100644
--- a/normalizer/normalized.go
+++ b/normalizer/normalized.go
@@ -98,6 +98,9 @@ func (r *Range) On() IndexOn {
 // original provided range was out of bound.
 // maxLen is maximal len of string in `chars` (runes)
 func (r *Range) IntoFullRange(maxLen int) (retVal *Range) {
+	// the caller's range stays as it is
+	r = NewRange(r.start, r.end, r.indexOn)
+
 	// case: start out of bound (including `None` value)
 	// if r.start == -1 || r.start > maxLen {
 	if r.start == -1 {
@@ -314,6 +317,9 @@ func (n *NormalizedString) Range(r *Range) (retVal string) {
 	switch r.indexOn {
 	case OriginalTarget:
 		nRange := n.ConvertOffset(r)
+		if nRange == nil || nRange.start >= nRange.end {
+			return ""
+		}
 		retVal = string(bytes[nRange.start:nRange.end])
 	case NormalizedTarget:
 		nRange := r.IntoFullRange(n.Len())
@@ -330,6 +336,9 @@ func (n *NormalizedString) RangeOriginal(r *Range) (retVal string) {
 	switch r.indexOn {
 	case NormalizedTarget:
 		oRange := n.ConvertOffset(r)
+		if oRange == nil || oRange.start >= oRange.end {
+			return ""
+		}
 		retVal = string(bytes[oRange.start:oRange.end])
 	case OriginalTarget:
 		oRange := r.IntoFullRange(n.LenOriginal())
@@ -361,17 +370,17 @@ func (n *NormalizedString) validateRange(inputRange *Range) *Range {
 	}
 
 	// Basic bounds check
-	if r.start < 0 || r.end < 0 || r.start > len(s) || r.end > len(s) {
+	if r.start < 0 || r.end < r.start || r.start > len(s) || r.end > len(s) {
 		return nil
 	}
 
 	// If both start and end are zero, it's valid.
 	if r.start == 0 && r.end == 0 {
-		return inputRange
+		return r
 	}
 
 	// Check if r.start is on a rune boundary
-	if r.start != 0 {
+	if r.start != 0 && r.start != len(s) {
 		// If not the very start, verify it's a valid rune boundary
 		if !utf8.RuneStart(s[r.start]) {
 			return nil
@@ -385,7 +394,7 @@ func (n *NormalizedString) validateRange(inputRange *Range) *Range {
 		}
 	}
 
-	return inputRange
+	return r
 }
 
 // Slice returns a slice of the current NormalizedString
@@ -407,33 +416,34 @@ func (n *NormalizedString) Slice(inputRange *Range) (retVal *NormalizedString) {
 		oRange = n.ConvertOffset(fullRange)
 	}
 
+	// An empty range stands for a position, not for the same numbers in the other string
+	if fullRange.start == fullRange.end {
+		switch fullRange.indexOn {
+		case OriginalTarget:
+			at := convertPosition(n.alignmentsOriginal, fullRange.start)
+			nRange = NewRange(at, at, NormalizedTarget)
+		case NormalizedTarget:
+			at := convertPosition(n.alignments, fullRange.start)
+			oRange = NewRange(at, at, OriginalTarget)
+		}
+	}
+
 	// 2. `nShift` is normalized shift on original string
 	nShift := oRange.start
 
-	// 3. `oShift` is original shift on original string
-	var oShift int
-	if r := expandAlignments(n.alignmentsOriginal[0:nShift]); r == nil {
-		oShift = 0
-	} else {
-		oShift = r[1]
-	}
-
 	var (
 		sOriginal, sNormalized           string
 		sAlignments, sAlignmentsOriginal [][]int
 		sOriginalShift                   int
 	)
 
-	sOriginal = n.RangeOriginal(fullRange)
-	sNormalized = n.Range(fullRange)
+	sOriginal = n.original[oRange.start:oRange.end]
+	sNormalized = n.normalized[nRange.start:nRange.end]
 	for _, a := range n.alignments[nRange.start:nRange.end] {
 		sAlignment := []int{a[0] - nShift, a[1] - nShift}
 		sAlignments = append(sAlignments, sAlignment)
 	}
-	for _, a := range n.alignmentsOriginal[oRange.start:oRange.end] {
-		sAlignmentOriginal := []int{a[0] - oShift, a[1] - oShift}
-		sAlignmentsOriginal = append(sAlignmentsOriginal, sAlignmentOriginal)
-	}
+	sAlignmentsOriginal = invertAlignments(sOriginal, sAlignments)
 	sOriginalShift = n.originalShift + oRange.start
 
 	return &NormalizedString{
@@ -445,6 +455,18 @@ func (n *NormalizedString) Slice(inputRange *Range) (retVal *NormalizedString) {
 	}
 }
 
+// convertPosition converts a position between two bytes into the other string.
+func convertPosition(alignments [][]int, pos int) int {
+	switch {
+	case pos < len(alignments):
+		return alignments[pos][0]
+	case len(alignments) > 0:
+		return alignments[len(alignments)-1][1]
+	default:
+		return 0
+	}
+}
+
 type ChangeMap struct {
 	RuneVal string
 	Changes int
-- 
2.43.0


From 78044d3ecd0fcfcce094e1db72fc09d86e9ada73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:11 +0000
Subject: [PATCH 15/95] fix: leave alignments alone when prepending nothing

---
 normalizer/normalized.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/normalizer/normalized.go b/normalizer/normalized.go
index efefbe8..1171dc1 100644
--- a/normalizer/normalized.go
+++ b/normalizer/normalized.go
@@ -837,7 +837,7 @@ func (n *NormalizedString) Filter(fn func(rune) bool) (retVal *NormalizedString)
 func (n *NormalizedString) Prepend(s string) (retVal *NormalizedString) {
 	chars := []rune(n.normalized)
 	var changeMap []ChangeMap
-	if len(chars) == 0 {
+	if len(chars) == 0 || s == "" {
 		return n
 	}
 
-- 
2.43.0


From 3f68fd0cb03b6f7509a6b875e4adfded696eb622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:00 +0000
Subject: [PATCH 16/95] fix: align multi-part decompositions with their own
 character

---
 normalizer/normalized.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/normalizer/normalized.go b/normalizer/normalized.go
index 1171dc1..71b6845 100644
--- a/normalizer/normalized.go
+++ b/normalizer/normalized.go
@@ -719,7 +719,6 @@ func (n *NormalizedString) normalForm(form norm.Form) (retVal *NormalizedString)
 	s := n.normalized
 	var (
 		changeMap []ChangeMap
-		it        norm.Iter
 	)
 	// Create slice of (char, changes) to map changing
 	// if added (inserted) rune, changes = 1; `-N` if char
@@ -735,11 +734,11 @@ func (n *NormalizedString) normalForm(form norm.Form) (retVal *NormalizedString)
 	// If a char composes of one rune, there no changes
 	// Otherwise each rune replaces one of the character's former runes; runes more than
 	// there were are added (1) and former runes more than there are now removed (-N).
-	it.InitString(form, s)
-	for !it.Done() {
-		pos := it.Pos()
-		runes := bytes.Runes(it.Next())
-		replaced := utf8.RuneCountInString(s[pos:it.Pos()])
+	for pos := 0; pos < len(s); {
+		char := s[pos : pos+form.NextBoundaryInString(s[pos:], true)]
+		pos += len(char)
+		runes := []rune(form.String(char))
+		replaced := utf8.RuneCountInString(char)
 
 		for i, r := range runes {
 			switch i := i; {
-- 
2.43.0


From e5689c473c9cb6be9a4157baab15cbb1ed24271f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:47 +0000
Subject: [PATCH 17/95] fix: replace every BERT whitespace by a space when
 cleaning text

---
 normalizer/bert.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/normalizer/bert.go b/normalizer/bert.go
index 7adce5e..b07bc35 100644
--- a/normalizer/bert.go
+++ b/normalizer/bert.go
@@ -125,10 +125,10 @@ func doCleanText(n *NormalizedString) *NormalizedString {
 		if r == 0 || r == 0xfffd || isControl(r) {
 			removed += 1
 		} else {
+			if isWhitespace(r) {
+				r = ' '
+			}
 			if removed > 0 {
-				if isWhitespace(r) {
-					r = ' '
-				}
 				changeMap = append(changeMap, ChangeMap{
 					RuneVal: string(r),
 					Changes: -removed,
-- 
2.43.0


From f4c7f1f7d4e0cbbb6243d35cbc214db4b2e3f42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:49 +0000
Subject: [PATCH 18/95] fix: align the space before a CJK character with that
 character

---
 normalizer/bert.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/normalizer/bert.go b/normalizer/bert.go
index b07bc35..9adb80e 100644
--- a/normalizer/bert.go
+++ b/normalizer/bert.go
@@ -161,11 +161,11 @@ func doHandleChineseChars(n *NormalizedString) *NormalizedString {
 			changeMap = append(changeMap, []ChangeMap{
 				{
 					RuneVal: string(' '),
-					Changes: 1,
+					Changes: 0,
 				},
 				{
 					RuneVal: string(r),
-					Changes: 0,
+					Changes: 1,
 				},
 				{
 					RuneVal: string(' '),
-- 
2.43.0


From 17c1f3dc003360532849daa81152cdd3512236cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:51 +0000
Subject: [PATCH 19/95] fix: decompose before stripping accents in the BERT
 normalizer

---
 normalizer/bert.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/normalizer/bert.go b/normalizer/bert.go
index 9adb80e..7e09c62 100644
--- a/normalizer/bert.go
+++ b/normalizer/bert.go
@@ -185,7 +185,7 @@ func doLowercase(n *NormalizedString) *NormalizedString {
 }
 
 func stripAccents(n *NormalizedString) *NormalizedString {
-	return n.RemoveAccents()
+	return n.NFD().RemoveAccents()
 }
 
 // Normalize implements Normalizer interface for BertNormalizer
-- 
2.43.0


From decc28c18a4860c61903156c6a27f1f0a693e6a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:53 +0000
Subject: [PATCH 20/95] fix: return empty text unchanged from the prepend
 normalizer

---
 normalizer/prepend.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/normalizer/prepend.go b/normalizer/prepend.go
index 9fef305..88dc61a 100644
--- a/normalizer/prepend.go
+++ b/normalizer/prepend.go
@@ -12,7 +12,7 @@ func NewPrepend(prepend string) *Prepend {
 // Implement Normalizer for Prepend
 func (p *Prepend) Normalize(normalized *NormalizedString) (*NormalizedString, error) {
 	if normalized.IsEmpty() {
-		return nil, nil
+		return normalized, nil
 	}
 
 	return normalized.Prepend(p.Prepend), nil
-- 
2.43.0


From 9741f72935d868a874802b211a2766d45dd27a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:56 +0000
Subject: [PATCH 21/95] fix: apply the normalizer chosen by NewNormalizer's
 options

---
 normalizer/normalizer.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/normalizer/normalizer.go b/normalizer/normalizer.go
index 9438fc8..c91bdd1 100644
--- a/normalizer/normalizer.go
+++ b/normalizer/normalizer.go
@@ -24,7 +24,7 @@ func newNormalizer(opts ...DefaultOption) *normalizer {
 
 func (n *normalizer) Normalize(normalized *NormalizedString) (*NormalizedString, error) {
 
-	return normalized, nil
+	return n.Normalizer.Normalize(normalized)
 }
 
 type Option func(*normalizer)
@@ -32,14 +32,14 @@ type Option func(*normalizer)
 // WithBertNormalizer creates normalizer with BERT normalization features.
 func WithBertNormalizer(cleanText, lowercase, handleChineseChars, stripAccents bool) Option {
 	return func(o *normalizer) {
-		NewBertNormalizer(cleanText, lowercase, handleChineseChars, stripAccents)
+		o.Normalizer = NewBertNormalizer(cleanText, lowercase, handleChineseChars, stripAccents)
 	}
 }
 
 // WithUnicodeNormalizer creates normalizer with one of unicode NFD, NFC, NFKD, or NFKC normalization feature.
 func WithUnicodeNormalizer(form norm.Form) Option {
 	return func(o *normalizer) {
-		NewUnicodeNormalizer(form)
+		o.Normalizer = NewUnicodeNormalizer(form)
 	}
 
 }
-- 
2.43.0


From 4cc959af4065d370a2d31e9a0e4af5507fa84f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:41 +0000
Subject: [PATCH 22/95] fix: apply precompiled character maps to the whole text

---
 normalizer/precompiled.go | 34 ++++++++++++++++------------------
 spm/spm-precompiled.go    | 37 ++++++++++++++++++++++++++++---------
 2 files changed, 44 insertions(+), 27 deletions(-)

diff --git a/normalizer/precompiled.go b/normalizer/precompiled.go
index 9afd0a6..61302c6 100644
--- a/normalizer/precompiled.go
+++ b/normalizer/precompiled.go
@@ -28,7 +28,7 @@ func replace(transformations []ChangeMap, oldPart, newPart string) []ChangeMap {
 	switch {
 	case diff > 0:
 		// If adding some characters, the last diff characters should be == 1
-		for i := n - 1; i >= diff || i >= 0; i-- {
+		for i := n - 1; i >= n-diff; i-- {
 			transformations[i].Changes = 1
 		}
 	case diff < 0:
@@ -48,9 +48,7 @@ type Precompiled struct {
 func (m *Precompiled) Normalize(normalized *NormalizedString) (*NormalizedString, error) {
 	original := normalized.GetNormalized()
 	var transformations []ChangeMap
-	for i := 0; i < len(original); i++ {
-		transformations = append(transformations, ChangeMap{})
-	}
+	var removed int // characters removed at the very beginning
 
 	graphemes := uniseg.NewGraphemes(original)
 
@@ -60,26 +58,27 @@ func (m *Precompiled) Normalize(normalized *NormalizedString) (*NormalizedString
 		grapheme := graphemes.Str()
 
 		if len(grapheme) < 6 {
-			norm := m.Transform(grapheme)
-			if len(norm) > 0 {
+			if norm, ok := m.Lookup(grapheme); ok {
 				modified = true
-				transformations = replace(transformations, grapheme, norm)
+				if norm == "" && len(transformations) == 0 {
+					removed += len([]rune(grapheme))
+				} else {
+					transformations = replace(transformations, grapheme, norm)
+				}
 
 				continue
 			}
 		}
 
-		// TT. This is a hacky way to turn non-spacing marks into hexa string
-		// and pass the unit tests.
-		grapheme = spm.NormalizeMn(grapheme)
-		var charIdx int = 0
 		for _, r := range grapheme {
-			part := string(grapheme)[charIdx : charIdx+len(string(r))]
-			norm := m.Transform(part)
-			norm = spm.NormalizeMn(norm)
-			if len(norm) > 0 {
+			part := string(r)
+			if norm, ok := m.Lookup(part); ok {
 				modified = true
-				transformations = replace(transformations, part, norm)
+				if norm == "" && len(transformations) == 0 {
+					removed++
+				} else {
+					transformations = replace(transformations, part, norm)
+				}
 			} else {
 				t := ChangeMap{
 					RuneVal: string(r),
@@ -87,12 +86,11 @@ func (m *Precompiled) Normalize(normalized *NormalizedString) (*NormalizedString
 				}
 				transformations = append(transformations, t)
 			}
-			// charIdx += len(string(r))
 		}
 	}
 
 	if modified {
-		normalized = normalized.Transform(transformations, 0)
+		normalized = normalized.Transform(transformations, removed)
 	}
 
 	return normalized, nil
diff --git a/spm/spm-precompiled.go b/spm/spm-precompiled.go
index 08050ef..e83e496 100644
--- a/spm/spm-precompiled.go
+++ b/spm/spm-precompiled.go
@@ -90,6 +90,9 @@ func (da *DoubleArray) CommonPrefixSearch(key []byte) []int {
 	nodePos := 0
 	var results []int
 
+	if len(da.Array) == 0 {
+		return results
+	}
 	unit := da.Array[nodePos]
 	nodePos ^= int(unit.Offset()) // bitwise XOR
 	for _, c := range key {
@@ -98,6 +101,9 @@ func (da *DoubleArray) CommonPrefixSearch(key []byte) []int {
 		}
 
 		nodePos ^= int(c)
+		if nodePos >= len(da.Array) {
+			return results
+		}
 		unit = da.Array[nodePos]
 
 		if unit.Label() != uint(c) {
@@ -105,7 +111,7 @@ func (da *DoubleArray) CommonPrefixSearch(key []byte) []int {
 		}
 
 		nodePos ^= int(unit.Offset())
-		if unit.HasLeaf() {
+		if unit.HasLeaf() && nodePos < len(da.Array) {
 			results = append(results, int(da.Array[nodePos].Value()))
 		}
 	}
@@ -132,6 +138,12 @@ func Parse(precompiledCharsmap []byte) ([]byte, Array) {
 }
 
 func NewPrecompiledFrom(data []byte) (*Precompiled, error) {
+	if len(data) < 4 {
+		return nil, fmt.Errorf("precompiled charsmap of %d bytes has no trie size", len(data))
+	}
+	if size := binary.LittleEndian.Uint32(data[:4]); size == 0 || size%4 != 0 || uint64(size) > uint64(len(data)-4) {
+		return nil, fmt.Errorf("precompiled charsmap of %d bytes cannot hold a trie of %d bytes", len(data), size)
+	}
 	normalizedBlob, trieBlob := Parse(data)
 
 	normalized := string(normalizedBlob)
@@ -145,9 +157,17 @@ func NewPrecompiledFrom(data []byte) (*Precompiled, error) {
 }
 
 func (m *Precompiled) Transform(chunk string) string {
+	normalized, _ := m.Lookup(chunk)
+
+	return normalized
+}
+
+// Lookup is Transform that also tells whether the map knows the chunk, as the
+// answer for a chunk to remove is empty.
+func (m *Precompiled) Lookup(chunk string) (string, bool) {
 	results := m.Trie.CommonPrefixSearch([]byte(chunk))
-	if len(results) == 0 {
-		return ""
+	if len(results) == 0 || results[0] > len(m.Normalized) {
+		return "", false
 	}
 
 	index := results[0]
@@ -161,7 +181,7 @@ func (m *Precompiled) Transform(chunk string) string {
 
 	normalized := m.Normalized[index:index2]
 
-	return string(normalized)
+	return string(normalized), true
 }
 
 func NormalizeMn(input string) string {
@@ -202,12 +222,11 @@ func (m *Precompiled) NormalizeString(original string) string {
 		// break a single test.
 		// You don't pass.
 		if len(grapheme) < 6 {
-			norm := m.Transform(grapheme)
-			if len(norm) > 0 {
+			if norm, ok := m.Lookup(grapheme); ok {
 				for _, c := range strings.Split(norm, "") {
 					chars = append(chars, c)
 				}
-				return strings.Join(chars, "")
+				continue
 			}
 		}
 
@@ -217,9 +236,9 @@ func (m *Precompiled) NormalizeString(original string) string {
 		var charIdx int = 0
 		for _, r := range grapheme {
 			part := string(grapheme)[charIdx : charIdx+len(string(r))]
-			norm := m.Transform(part)
+			norm, ok := m.Lookup(part)
 			norm = normalizeMn(norm)
-			if len(norm) > 0 {
+			if ok {
 				for _, c := range strings.Split(norm, "") {
 					chars = append(chars, c)
 				}
-- 
2.43.0


From 138f5562f8d195459a21a8950566b150621c9fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:55 +0000
Subject: [PATCH 23/95] fix: sort the CJK range table

---
 normalizer/bert.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/normalizer/bert.go b/normalizer/bert.go
index 7e09c62..cf60218 100644
--- a/normalizer/bert.go
+++ b/normalizer/bert.go
@@ -72,8 +72,8 @@ func isPunctuation(c rune) bool {
 var cjk = &unicode.RangeTable{
 
 	R16: []unicode.Range16{
-		{0x4e00, 0x9fff, 1},
 		{0x3400, 0x4dbf, 1},
+		{0x4e00, 0x9fff, 1},
 		{0xf900, 0xfaff, 1},
 	},
 	R32: []unicode.Range32{
-- 
2.43.0


From 3044a517370e153182cdea87fca69ff78e346088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:17 +0000
Subject: [PATCH 24/95] fix: keep the windows of a truncated encoding apart

---
 encoding.go | 59 +++++++++++++++++++++++++++++++++++++++++------------
 1 file changed, 46 insertions(+), 13 deletions(-)

diff --git a/encoding.go b/encoding.go
index 341bc7f..f6e8b17 100644
--- a/encoding.go
+++ b/encoding.go
@@ -342,31 +342,35 @@ func (e *Encoding) Char2Word(pos int) (retVal int, ok bool) {
 // Truncate truncates the current encoding
 func (e *Encoding) Truncate(maxLen int, stride int) (retVal *Encoding, err error) {
 
-	if stride >= maxLen || maxLen == 0 {
-		return retVal, fmt.Errorf("Invalid input maxLen or stride (stride must be less than maxLen and maxLen must be greater than zero.)")
-	}
-
 	if maxLen >= len(e.Ids) {
 		// do nothing
 		return e, nil
 	}
 
+	if stride < 0 || stride >= maxLen || maxLen <= 0 {
+		return retVal, fmt.Errorf("Invalid input maxLen or stride (stride must be less than maxLen and maxLen must be greater than zero.)")
+	}
+
 	// Truncating at maxLen (exclusive) to keep.
 	// The rest (overflowing) from maxLen (inclusive)
-	newIds := e.Ids[0:maxLen]
+	newIds := e.Ids[0:maxLen:maxLen]
 	oIds := e.Ids[maxLen:len(e.Ids)] // overflowing
-	newTypeIds := e.TypeIds[0:maxLen]
+	newTypeIds := e.TypeIds[0:maxLen:maxLen]
 	oTypeIds := e.TypeIds[maxLen:len(e.TypeIds)]
-	newTokens := e.Tokens[0:maxLen]
+	newTokens := e.Tokens[0:maxLen:maxLen]
 	oTokens := e.Tokens[maxLen:len(e.Tokens)]
-	newOffsets := e.Offsets[0:maxLen]
+	newOffsets := e.Offsets[0:maxLen:maxLen]
 	oOffsets := e.Offsets[maxLen:len(e.Offsets)]
-	newSpeToks := e.SpecialTokenMask[0:maxLen]
+	newSpeToks := e.SpecialTokenMask[0:maxLen:maxLen]
 	oSpeToks := e.SpecialTokenMask[maxLen:len(e.SpecialTokenMask)]
-	newAttent := e.AttentionMask[0:maxLen]
+	newAttent := e.AttentionMask[0:maxLen:maxLen]
 	oAttent := e.AttentionMask[maxLen:len(e.AttentionMask)]
-	newWords := e.Words[0:maxLen]
-	oWords := e.Words[maxLen:len(e.Words)]
+	newWords, oWords := e.Words, []int(nil) // words are optional
+	if len(e.Words) > 0 {
+		newWords = e.Words[0:maxLen:maxLen]
+		oWords = e.Words[maxLen:len(e.Words)]
+	}
+	sequenceRanges := e.SequenceRanges
 
 	e.Ids = newIds
 	e.TypeIds = newTypeIds
@@ -375,6 +379,7 @@ func (e *Encoding) Truncate(maxLen int, stride int) (retVal *Encoding, err error
 	e.SpecialTokenMask = newSpeToks
 	e.AttentionMask = newAttent
 	e.Words = newWords
+	e.SequenceRanges = sliceSequenceRanges(sequenceRanges, 0, maxLen)
 
 	// Separate the overflowing part into as many Encoding as needed
 	partSize := maxLen - stride
@@ -394,6 +399,8 @@ func (e *Encoding) Truncate(maxLen int, stride int) (retVal *Encoding, err error
 			Words:            getCurrentPart(prevEncoding.Words, oWords, partSize, partId, stride),
 			Overflowing:      make([]Encoding, 0),
 		}
+		partStart := (partId + 1) * partSize
+		o.SequenceRanges = sliceSequenceRanges(sequenceRanges, partStart, partStart+len(o.Ids))
 
 		partId += 1
 		overflowing = append(overflowing, o)
@@ -690,5 +697,31 @@ func getCurrentPart[T any](previous, current []T, size, idx, stride int) []T {
 	curr := current[start:end]
 	prev := previous[len(previous)-stride:]
 
-	return append(prev, curr...)
+	// a new slice, so that no two parts share their backing array
+	part := make([]T, 0, len(prev)+len(curr))
+	part = append(part, prev...)
+	return append(part, curr...)
+}
+
+// sliceSequenceRanges restricts sequence ranges to the tokens from `start` (inclusive)
+// to `end` (exclusive), relative to `start`.
+func sliceSequenceRanges(ranges map[int]Range, start, end int) map[int]Range {
+	if len(ranges) == 0 {
+		return ranges
+	}
+
+	out := make(map[int]Range)
+	for seqId, r := range ranges {
+		var kept Range
+		for _, i := range r {
+			if i >= start && i < end {
+				kept = append(kept, i-start)
+			}
+		}
+		if len(kept) > 0 {
+			out[seqId] = kept
+		}
+	}
+
+	return out
 }
-- 
2.43.0


From 0031f2ce0f2aec90ddcb6aab92659ca152ed23ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:41 +0000
Subject: [PATCH 25/95] fix: truncate to the configured length or return an
 error

---
 tokenizer.go | 28 ++++++++++++++++++++--------
 util.go      | 40 +++++++++++++++++++++++++---------------
 2 files changed, 45 insertions(+), 23 deletions(-)

diff --git a/tokenizer.go b/tokenizer.go
index 38f9bf1..2528c37 100644
--- a/tokenizer.go
+++ b/tokenizer.go
@@ -474,7 +474,7 @@ func (t *Tokenizer) Encode(input EncodeInput, addSpecialTokens bool) (retVal *En
 		log.Fatalf("Invalid input type - '%T'. \n", input)
 	}
 
-	return t.PostProcess(encoding, pairEncoding, addSpecialTokens), nil
+	return t.postProcess(encoding, pairEncoding, addSpecialTokens)
 }
 
 // EncodeCharOffsets encodes the given input, using offsets relative to chars instead of bytes.
@@ -508,7 +508,7 @@ func (t *Tokenizer) EncodeCharOffsets(input EncodeInput, addSpecialTokens bool)
 		log.Fatalf("Invalid input type - '%T'. \n", input)
 	}
 
-	return t.PostProcess(encoding, pairEncoding, addSpecialTokens), nil
+	return t.postProcess(encoding, pairEncoding, addSpecialTokens)
 }
 
 // Decode decodes the given ids, back to a String
@@ -586,10 +586,19 @@ func (t *Tokenizer) doTokenize(pretokenized *PreTokenizedString, typeId int, wor
 
 // PostProcess does post-processing logic, handling the case where there is no PostProcessor set
 func (t *Tokenizer) PostProcess(encoding, pairEncoding *Encoding, addSpecialTokens bool) (retVal *Encoding) {
+	retVal, err := t.postProcess(encoding, pairEncoding, addSpecialTokens)
+	if err != nil {
+		log.Fatal(err)
+	}
+
+	return retVal
+}
+
+func (t *Tokenizer) postProcess(encoding, pairEncoding *Encoding, addSpecialTokens bool) (retVal *Encoding, err error) {
 	var tEncoding, tPairEncoding *Encoding
 
 	// 1. Truncate if needed
-	if t.trunc == nil {
+	if t.trunc == nil || t.trunc.MaxLength == 0 {
 		tEncoding, tPairEncoding = encoding, pairEncoding
 	} else {
 		trunc := t.trunc
@@ -606,9 +615,12 @@ func (t *Tokenizer) PostProcess(encoding, pairEncoding *Encoding, addSpecialToke
 				Strategy:  trunc.Strategy,
 				Stride:    trunc.Stride,
 			}
-			tEncoding, tPairEncoding = TruncateEncodings(encoding, pairEncoding, params)
+			tEncoding, tPairEncoding, err = truncateEncodings(encoding, pairEncoding, params)
 		} else {
-			tEncoding, tPairEncoding = TruncateEncodings(encoding, pairEncoding, trunc)
+			tEncoding, tPairEncoding, err = truncateEncodings(encoding, pairEncoding, trunc)
+		}
+		if err != nil {
+			return nil, err
 		}
 	}
 
@@ -623,16 +635,16 @@ func (t *Tokenizer) PostProcess(encoding, pairEncoding *Encoding, addSpecialToke
 
 	// 3. Pad if needed
 	if t.padding == nil {
-		return finalEncoding
+		return finalEncoding, nil
 	}
 
 	var padEncodings []Encoding
 	encodings := []Encoding{*finalEncoding}
 	padEncodings = PadEncodings(encodings, *t.padding)
 	if len(padEncodings) == 1 {
-		return &padEncodings[0]
+		return &padEncodings[0], nil
 	} else {
-		return padEncodings[0].Merge(padEncodings[1:], true)
+		return padEncodings[0].Merge(padEncodings[1:], true), nil
 	}
 }
 
diff --git a/util.go b/util.go
index 1e5d49c..072969d 100644
--- a/util.go
+++ b/util.go
@@ -81,23 +81,33 @@ const (
 )
 
 func TruncateEncodings(encoding, pairEncoding *Encoding, params *TruncationParams) (tEncoding, tPairEncoding *Encoding) {
+	if params.MaxLength == 0 {
+		return encoding, pairEncoding
+	}
+
+	tEncoding, tPairEncoding, err := truncateEncodings(encoding, pairEncoding, params)
+	if err != nil {
+		log.Fatal(err)
+	}
+
+	return tEncoding, tPairEncoding
+}
+
+// truncateEncodings truncates the encodings to the maximum length of params,
+// or fails when this cannot be done.
+func truncateEncodings(encoding, pairEncoding *Encoding, params *TruncationParams) (tEncoding, tPairEncoding *Encoding, err error) {
 	var (
 		totalLength int
 		toRemove    int
-		err         error
 	)
 
-	if params.MaxLength == 0 {
-		return encoding, pairEncoding
-	}
-
 	totalLength = len(encoding.GetIds())
 	if pairEncoding != nil {
 		totalLength = len(encoding.GetIds()) + len(pairEncoding.GetIds())
 	}
 
-	if totalLength < params.MaxLength {
-		return encoding, pairEncoding
+	if totalLength <= params.MaxLength {
+		return encoding, pairEncoding, nil
 	}
 
 	toRemove = totalLength - params.MaxLength
@@ -113,21 +123,21 @@ func TruncateEncodings(encoding, pairEncoding *Encoding, params *TruncationParam
 		for i := 0; i < toRemove; i++ {
 			if nFirst > nSecond {
 				nFirst -= 1
+			} else {
+				nSecond -= 1
 			}
-			nSecond -= 1
 		}
 
-		encoding.Truncate(nFirst, params.Stride)
-		if pairEncoding != nil {
-			pairEncoding.Truncate(nSecond, params.Stride)
+		_, err = encoding.Truncate(nFirst, params.Stride)
+		if err == nil && pairEncoding != nil {
+			_, err = pairEncoding.Truncate(nSecond, params.Stride)
 		}
 
 	case OnlyFirst, OnlySecond:
 		var truncateFunc = func(target *Encoding) (*Encoding, error) {
 			targetLength := len(target.GetIds())
 			if targetLength > toRemove {
-				target.Truncate(targetLength-toRemove, params.Stride)
-				return target, nil
+				return target.Truncate(targetLength-toRemove, params.Stride)
 			} else {
 				err := errors.New(SequenceTooShort)
 				return nil, err
@@ -145,10 +155,10 @@ func TruncateEncodings(encoding, pairEncoding *Encoding, params *TruncationParam
 	}
 
 	if err != nil {
-		log.Fatal(err)
+		return nil, nil, err
 	}
 
-	return encoding, pairEncoding
+	return encoding, pairEncoding, nil
 }
 
 func PadEncodings(encodings []Encoding, params PaddingParams) []Encoding {
-- 
2.43.0


From 90e7e9b7992a308cb6ee087990c2ee407904582a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:54 +0000
Subject: [PATCH 26/95] fix: pad encodings without disturbing their tokens

---
 encoding.go | 35 +++++++++++++++++++++++++++++++++--
 1 file changed, 33 insertions(+), 2 deletions(-)

diff --git a/encoding.go b/encoding.go
index f6e8b17..244a48f 100644
--- a/encoding.go
+++ b/encoding.go
@@ -579,6 +579,14 @@ func (e *Encoding) Pad(targetLength, padId, padTypeId int, padToken string, dire
 
 func (e *Encoding) pad(targetLength, padId, padTypeId int, padToken string, direction PaddingDirection) *Encoding {
 	padLength := targetLength - len(e.Ids)
+	if padLength <= 0 {
+		return e
+	}
+
+	// words are optional: give the tokens none, so that they stay in line with the padding
+	for len(e.Words) < len(e.Ids) {
+		e.Words = util.Merge(e.Words, []int{-1})
+	}
 
 	switch direction {
 	case Left:
@@ -593,7 +601,7 @@ func (e *Encoding) pad(targetLength, padId, padTypeId int, padToken string, dire
 		for i := 0; i < len(newTypeIds); i++ {
 			newTypeIds[i] = padTypeId
 		}
-		newTypeIds = append(newTypeIds, e.Ids...)
+		newTypeIds = append(newTypeIds, e.TypeIds...)
 		e.TypeIds = newTypeIds
 
 		newTokens := make([]string, padLength)
@@ -618,7 +626,7 @@ func (e *Encoding) pad(targetLength, padId, padTypeId int, padToken string, dire
 		e.AttentionMask = newAttentionMask
 
 		newOffsets := make([][]int, padLength)
-		for i := 0; i < len(newIds); i++ {
+		for i := 0; i < len(newOffsets); i++ {
 			newOffsets[i] = []int{0, 0}
 		}
 		newOffsets = append(newOffsets, e.Offsets...)
@@ -631,7 +639,30 @@ func (e *Encoding) pad(targetLength, padId, padTypeId int, padToken string, dire
 		newWords = append(newWords, e.Words...)
 		e.Words = newWords
 
+		// tokens moved to the right, so do the ranges of their sequences
+		var newRanges map[int]Range
+		if e.SequenceRanges != nil {
+			newRanges = make(map[int]Range)
+		}
+		for seqId, r := range e.SequenceRanges {
+			var newRange Range
+			for _, i := range r {
+				newRange = append(newRange, i+padLength)
+			}
+			newRanges[seqId] = newRange
+		}
+		e.SequenceRanges = newRanges
+
 	case Right:
+		// never append into memory that other encodings use
+		e.Ids = e.Ids[:len(e.Ids):len(e.Ids)]
+		e.TypeIds = e.TypeIds[:len(e.TypeIds):len(e.TypeIds)]
+		e.Tokens = e.Tokens[:len(e.Tokens):len(e.Tokens)]
+		e.SpecialTokenMask = e.SpecialTokenMask[:len(e.SpecialTokenMask):len(e.SpecialTokenMask)]
+		e.AttentionMask = e.AttentionMask[:len(e.AttentionMask):len(e.AttentionMask)]
+		e.Offsets = e.Offsets[:len(e.Offsets):len(e.Offsets)]
+		e.Words = e.Words[:len(e.Words):len(e.Words)]
+
 		for i := 0; i < padLength; i++ {
 			e.Ids = append(e.Ids, padId)
 			e.TypeIds = append(e.TypeIds, padTypeId)
-- 
2.43.0


From f9972c52057d66cd3c7831af195410743426d059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:26 +0000
Subject: [PATCH 27/95] fix: merge sequence ranges, words and offsets
 completely

---
 encoding.go | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/encoding.go b/encoding.go
index 244a48f..00d4c4c 100644
--- a/encoding.go
+++ b/encoding.go
@@ -462,26 +462,41 @@ func (e *Encoding) MergeWith(pair *Encoding, growingOffsets bool) (retVal *Encod
 	// Merging others
 	originalLen := e.Len()
 	if len(pair.SequenceRanges) > 0 {
+		sequenceRanges := make(map[int]Range)
+		for seqId, r := range e.SequenceRanges {
+			sequenceRanges[seqId] = r
+		}
 		for seqId, r := range pair.SequenceRanges {
-			start := originalLen + r[0]
-			end := originalLen + r[r.Len()-1] + 1
-			newRange := NewRange(start, end)
-			var oldRange Range
-			util.DeepCopy(e.SequenceRanges[seqId], oldRange)
-			e.SequenceRanges[seqId] = util.Merge(oldRange, newRange)
+			var newRange Range
+			for _, i := range r {
+				newRange = append(newRange, originalLen+i)
+			}
+			sequenceRanges[seqId] = util.Merge(sequenceRanges[seqId], newRange)
+		}
+		e.SequenceRanges = sequenceRanges
+	}
+
+	// words are optional: tokens without any have none in the merged encoding
+	words, pairWords := e.Words, pair.Words
+	if len(words) > 0 || len(pairWords) > 0 {
+		for len(words) < e.Len() {
+			words = util.Merge(words, []int{-1})
+		}
+		for len(pairWords) < pair.Len() {
+			pairWords = util.Merge(pairWords, []int{-1})
 		}
 	}
 
 	e.Ids = util.Merge(e.Ids, pair.Ids)
 	e.Tokens = util.Merge(e.Tokens, pair.Tokens)
-	e.Words = util.Merge(e.Words, pair.Words)
+	e.Words = util.Merge(words, pairWords)
 	e.TypeIds = util.Merge(e.TypeIds, pair.TypeIds)
 	e.SpecialTokenMask = util.Merge(e.SpecialTokenMask, pair.SpecialTokenMask)
 	e.AttentionMask = util.Merge(e.AttentionMask, pair.AttentionMask)
 
 	// Offsets
 	var startingOffset int = 0
-	offsets := e.Offsets
+	offsets := e.Offsets[:len(e.Offsets):len(e.Offsets)]
 	if growingOffsets {
 		if len(offsets) > 0 {
 			last := offsets[len(offsets)-1]
-- 
2.43.0


From 91a806b72b2c8fd3e12c2e8add416daf92d5acb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:29 +0000
Subject: [PATCH 28/95] fix: pad nested overflowing parts

---
 encoding.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/encoding.go b/encoding.go
index 00d4c4c..0a78466 100644
--- a/encoding.go
+++ b/encoding.go
@@ -577,7 +577,7 @@ func (e *Encoding) Pad(targetLength, padId, padTypeId int, padToken string, dire
 	// 1. Overflowing
 	var overflowing []Encoding
 	for _, o := range e.Overflowing {
-		padded := o.pad(targetLength, padId, padTypeId, padToken, direction)
+		padded := o.Pad(targetLength, padId, padTypeId, padToken, direction)
 		overflowing = append(overflowing, *padded)
 	}
 	e.Overflowing = overflowing
-- 
2.43.0


From a6d38fb7b7dd959852f71acc899dfefee657329f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:51 +0000
Subject: [PATCH 29/95] fix: answer token, word and sequence lookups from the
 tokens

---
 encoding.go | 72 ++++++++++++++++++++++++++++++++---------------------
 1 file changed, 43 insertions(+), 29 deletions(-)

diff --git a/encoding.go b/encoding.go
index 0a78466..07b0dff 100644
--- a/encoding.go
+++ b/encoding.go
@@ -188,22 +188,15 @@ func (e *Encoding) SetSequenceIds(sequenceId int) {
 	}
 }
 
+// GetSequenceIds returns the sequence index of every token. None value = -1
 func (e *Encoding) GetSequenceIds() []int {
 	sequences := make([]int, e.Len())
-	for seqId := 0; seqId < e.NSequences(); seqId++ {
-		r := e.SequenceRanges[seqId]
-		seqLen := r.Len()
-		var a []int
-		for i := 0; i < seqLen; i++ {
-			a = append(a, seqId)
-		}
-		// replace items in Range r with seqId
-		start := r[0]
-		end := r[len(r)-1]
-		before := sequences[:start]
-		after := sequences[end:]
-		sequences = append(before, a...)
-		sequences = append(sequences, after...)
+	for i := range sequences {
+		seqId, ok := e.Token2Sequence(i)
+		if !ok {
+			seqId = -1 // no sequence, i.e. a special token or padding
+		}
+		sequences[i] = seqId
 	}
 
 	return sequences
@@ -265,20 +258,23 @@ func (e *Encoding) Word2Tokens(word int) (startTok, endTok int, ok bool) {
 
 	var start, end int = -1, -1
 
-	var inRangeWords []int
-	for _, w := range e.Words {
-		if w <= word {
-			inRangeWords = append(inRangeWords, w)
-		}
+	if word < 0 { // `none` value
+		return startTok, endTok, false
 	}
-	for i, w := range inRangeWords {
+
+	// every sequence counts its words from 0: take those of the first one having the word
+	for i, w := range e.Words {
 		if w == word && start < 0 {
 			start = i
 		}
+		if start >= 0 {
+			if w != word || !e.sameSequence(start, i) {
+				break
+			}
+			end = i + 1
+		}
 	}
 
-	end = len(inRangeWords)
-
 	if start != -1 && end != -1 {
 		return start, end, true
 	} else {
@@ -290,18 +286,29 @@ func (e *Encoding) Word2Tokens(word int) (startTok, endTok int, ok bool) {
 // the input sequence
 func (e *Encoding) Word2Chars(word int) (retVal []int, ok bool) {
 	start, end, ok := e.Word2Tokens(word)
-	if end == 0 {
+	if !ok {
 		return retVal, false
 	} else {
 		oStart := e.Offsets[start][0]
 		oEnd := e.Offsets[end-1][1]
-		return []int{oStart, oEnd}, true // Should we check whether `ok`?
+		return []int{oStart, oEnd}, true
 	}
 }
 
+// sameSequence returns whether both tokens are in the same sequence
+func (e *Encoding) sameSequence(tokenA, tokenB int) bool {
+	for _, r := range e.SequenceRanges {
+		if r.Contains(tokenA) != r.Contains(tokenB) {
+			return false
+		}
+	}
+
+	return true
+}
+
 // Token2Chars get the offsets of the token at the given index
 func (e *Encoding) Token2Chars(tokenIdx int) (retVal []int, ok bool) {
-	if tokenIdx < 0 || tokenIdx > len(e.Offsets) {
+	if tokenIdx < 0 || tokenIdx >= len(e.Offsets) {
 		return retVal, false
 	} else {
 		return e.Offsets[tokenIdx], true
@@ -312,11 +319,11 @@ func (e *Encoding) Token2Chars(tokenIdx int) (retVal []int, ok bool) {
 func (e *Encoding) Token2Word(tokenIdx int) (retVal int, ok bool) {
 	// naive search. TODO. improve algorithm
 	for i, w := range e.Words {
-		if i == tokenIdx {
+		if i == tokenIdx && w >= 0 {
 			return w, true
 		}
 	}
-	return retVal, false
+	return -1, false
 }
 
 // Char2Token returns a token index that contains the given `char` index
@@ -694,7 +701,7 @@ func (e *Encoding) pad(targetLength, padId, padTypeId int, padToken string, dire
 
 // Token2Sequence returns the index of the sequence containing the given token.
 func (e *Encoding) Token2Sequence(token int) (int, bool) {
-	if token > e.Len() {
+	if token < 0 || token >= e.Len() {
 		return -1, false
 	} else if len(e.SequenceRanges) == 0 {
 		return 0, true
@@ -712,13 +719,20 @@ func (e *Encoding) Token2Sequence(token int) (int, bool) {
 // SequenceRange returns the range to target to retrieve something (word id, offsets, ...)
 // related to the given sequence id.
 func (e *Encoding) SequenceRange(sequencId int) (Range, error) {
+	if len(e.SequenceRanges) == 0 && sequencId == 0 { // the only one
+		if e.Len() == 0 {
+			return Range{}, nil
+		}
+		return NewRange(0, e.Len()), nil
+	}
+
 	r, ok := e.SequenceRanges[sequencId]
 	if !ok {
 		err := fmt.Errorf("input 'sequence_id' is out of range.\n")
 		return nil, err
 	}
 
-	return r[0:e.Len()], nil
+	return append(Range{}, r...), nil
 }
 
 func getCurrentPart[T any](previous, current []T, size, idx, stride int) []T {
-- 
2.43.0


From 4dfea80c55a9fdcdbd38de2b01904558266a45ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:44 +0000
Subject: [PATCH 30/95] fix: keep sequence ranges, words and masks when adding
 special tokens

---
 processor/bert.go    | 29 +++++++++++++++++++++++++----
 processor/roberta.go | 17 +++++++++--------
 tokenizer.go         | 25 ++++++++++++++-----------
 3 files changed, 48 insertions(+), 23 deletions(-)

diff --git a/processor/bert.go b/processor/bert.go
index 2055035..732560b 100644
--- a/processor/bert.go
+++ b/processor/bert.go
@@ -69,6 +69,27 @@ func (bp *BertProcessing) Process(encoding, pairEncoding *tokenizer.Encoding, ad
 	return newEncoding
 }
 
+// wordsOf returns the word index of every token of the encoding. Words being optional,
+// tokens have none (-1) if there aren't any.
+func wordsOf(encoding *tokenizer.Encoding) []int {
+	words := append([]int{}, encoding.Words...)
+	for len(words) < encoding.Len() {
+		words = append(words, -1)
+	}
+
+	return words
+}
+
+// sequenceRange makes the content tokens, `n` tokens from `start`, those of the given sequence.
+func sequenceRange(sequenceId, start, n int) tokenizer.EncodingOpt {
+	ranges := make(map[int]tokenizer.Range)
+	if n > 0 {
+		ranges[sequenceId] = tokenizer.NewRange(start, start+n)
+	}
+
+	return tokenizer.WithSequenceRangeEncodingOpt(ranges)
+}
+
 // addSpecialToken adds special token "[CLS]" and "[SEP]" to input encoding. It ignores
 // `Overflowing` field.
 func (bp *BertProcessing) addSpecialToken(encoding *tokenizer.Encoding) *tokenizer.Encoding {
@@ -89,7 +110,7 @@ func (bp *BertProcessing) addSpecialToken(encoding *tokenizer.Encoding) *tokeniz
 
 	var words []int
 	words = append(words, -1)
-	words = append(words, encoding.GetWords()...)
+	words = append(words, wordsOf(encoding)...)
 	words = append(words, -1)
 
 	var offsets [][]int
@@ -112,7 +133,7 @@ func (bp *BertProcessing) addSpecialToken(encoding *tokenizer.Encoding) *tokeniz
 	}
 
 	wordsOpt := tokenizer.WithWordsEncodingOpt(words)
-	return tokenizer.NewEncoding(ids, typeIds, tokens, offsets, specialTokens, attentionMask, []tokenizer.Encoding{}, wordsOpt)
+	return tokenizer.NewEncoding(ids, typeIds, tokens, offsets, specialTokens, attentionMask, []tokenizer.Encoding{}, wordsOpt, sequenceRange(0, 1, encoding.Len()))
 }
 
 // pairAddSpecialToken adds special token "[SEP]" to input encoding. It ignores
@@ -131,7 +152,7 @@ func (bp *BertProcessing) pairAddSpecialToken(pairEncoding *tokenizer.Encoding)
 	pairTokens = append(pairTokens, bp.sep.Value)
 
 	var pairWords []int
-	pairWords = append(pairWords, pairEncoding.GetWords()...)
+	pairWords = append(pairWords, wordsOf(pairEncoding)...)
 	pairWords = append(pairWords, -1)
 
 	var pairOffsets [][]int
@@ -152,5 +173,5 @@ func (bp *BertProcessing) pairAddSpecialToken(pairEncoding *tokenizer.Encoding)
 
 	pairWordsOpt := tokenizer.WithWordsEncodingOpt(pairWords)
 
-	return tokenizer.NewEncoding(pairIds, pairTypeIds, pairTokens, pairOffsets, pairSpecialTokens, pairAttentionMask, []tokenizer.Encoding{}, pairWordsOpt)
+	return tokenizer.NewEncoding(pairIds, pairTypeIds, pairTokens, pairOffsets, pairSpecialTokens, pairAttentionMask, []tokenizer.Encoding{}, pairWordsOpt, sequenceRange(1, 0, pairEncoding.Len()))
 }
diff --git a/processor/roberta.go b/processor/roberta.go
index 1c921b0..5b741b6 100644
--- a/processor/roberta.go
+++ b/processor/roberta.go
@@ -67,6 +67,7 @@ func (rp *RobertaProcessing) Process(encoding, pairEncoding *tokenizer.Encoding,
 		newPairEncoding         *tokenizer.Encoding
 		newOverflowPairEncoding []tokenizer.Encoding
 	)
+	newEncoding, newPairEncoding = encoding, pairEncoding
 	if rp.trimOffsets {
 		newEncoding = pretokenizer.ProcessOffsets(encoding, rp.addPrefixSpace)
 
@@ -145,7 +146,7 @@ func (rp *RobertaProcessing) addSpecialToken(encoding *tokenizer.Encoding) *toke
 
 	var words []int
 	words = append(words, -1)
-	words = append(words, encoding.Words...)
+	words = append(words, wordsOf(encoding)...)
 	words = append(words, -1)
 
 	var offsets [][]int
@@ -155,20 +156,20 @@ func (rp *RobertaProcessing) addSpecialToken(encoding *tokenizer.Encoding) *toke
 
 	var specialTokens []int
 	specialTokens = append(specialTokens, 1)
-	for i := 0; i < len(encoding.SpecialTokenMask); i++ {
+	for i := 0; i < len(encoding.Ids); i++ {
 		specialTokens = append(specialTokens, 0)
 	}
 	specialTokens = append(specialTokens, 1)
 
 	var attentionMask []int
 	attentionMask = append(attentionMask, 1)
-	for i := 0; i < len(encoding.AttentionMask); i++ {
+	for i := 0; i < len(encoding.Ids); i++ {
 		attentionMask = append(attentionMask, 1)
 	}
 	attentionMask = append(attentionMask, 1)
 
 	wordsOpt := tokenizer.WithWordsEncodingOpt(words)
-	return tokenizer.NewEncoding(ids, typeIds, tokens, offsets, specialTokens, attentionMask, []tokenizer.Encoding{}, wordsOpt)
+	return tokenizer.NewEncoding(ids, typeIds, tokens, offsets, specialTokens, attentionMask, []tokenizer.Encoding{}, wordsOpt, sequenceRange(0, 1, encoding.Len()))
 }
 
 // addSpecialToken adds special tokens to input pair encoding. It ignores the `Overflowing` field
@@ -193,7 +194,7 @@ func (rp *RobertaProcessing) pairAddSpecialToken(pair *tokenizer.Encoding) *toke
 
 	var pairWords []int
 	pairWords = append(pairWords, -1)
-	pairWords = append(pairWords, pair.Words...)
+	pairWords = append(pairWords, wordsOf(pair)...)
 	pairWords = append(pairWords, -1)
 
 	var pairOffsets [][]int
@@ -203,20 +204,20 @@ func (rp *RobertaProcessing) pairAddSpecialToken(pair *tokenizer.Encoding) *toke
 
 	var pairSpecialTokens []int
 	pairSpecialTokens = append(pairSpecialTokens, 1)
-	for i := 0; i < len(pair.SpecialTokenMask); i++ {
+	for i := 0; i < len(pair.Ids); i++ {
 		pairSpecialTokens = append(pairSpecialTokens, 0)
 	}
 	pairSpecialTokens = append(pairSpecialTokens, 1)
 
 	var pairAttentionMask []int
 	pairAttentionMask = append(pairAttentionMask, 1)
-	for i := 0; i < len(pair.AttentionMask); i++ {
+	for i := 0; i < len(pair.Ids); i++ {
 		pairAttentionMask = append(pairAttentionMask, 1)
 	}
 	pairAttentionMask = append(pairAttentionMask, 1)
 
 	pairWordsOpt := tokenizer.WithWordsEncodingOpt(pairWords)
-	return tokenizer.NewEncoding(pairIds, pairTypeIds, pairTokens, pairOffsets, pairSpecialTokens, pairAttentionMask, []tokenizer.Encoding{}, pairWordsOpt)
+	return tokenizer.NewEncoding(pairIds, pairTypeIds, pairTokens, pairOffsets, pairSpecialTokens, pairAttentionMask, []tokenizer.Encoding{}, pairWordsOpt, sequenceRange(1, 1, pair.Len()))
 }
 
 // TODO: implement Serialize interface for RobertaProcessing
diff --git a/tokenizer.go b/tokenizer.go
index 2528c37..69ffebe 100644
--- a/tokenizer.go
+++ b/tokenizer.go
@@ -79,11 +79,21 @@ func DefaultProcess(encoding, pairEncoding *Encoding, addSpecialTokens bool) *En
 		return encoding
 	}
 
-	if pairEncoding != nil {
-		return encoding.MergeWith(pairEncoding, false)
+	return withSequenceId(encoding, 0).MergeWith(withSequenceId(pairEncoding, 1), false)
+}
+
+// withSequenceId returns a copy of the encoding whose tokens, and those of its overflowing
+// parts, make up the given sequence.
+func withSequenceId(encoding *Encoding, sequenceId int) *Encoding {
+	out := *encoding
+	out.SequenceRanges = make(map[int]Range)
+	out.SetSequenceIds(sequenceId)
+	out.Overflowing = nil
+	for _, e := range encoding.Overflowing {
+		out.Overflowing = append(out.Overflowing, *withSequenceId(&e, sequenceId))
 	}
 
-	return encoding
+	return &out
 }
 
 // PrepareEncodings prepares encoding and pairEncoding if any before `ProcessEncodings` call.
@@ -93,14 +103,7 @@ func PrepareEncodings(encoding, pairEncoding *Encoding) (out []Encoding) {
 		encodings = append(encodings, *pairEncoding)
 	}
 	for i, encoding := range encodings {
-		encoding.SetSequenceIds(i)
-		var overflowing []Encoding
-		for _, e := range encoding.GetOverflowing() {
-			e.SetSequenceIds(i)
-			overflowing = append(overflowing, e)
-		}
-
-		encoding.Overflowing = overflowing
+		encoding = *withSequenceId(&encoding, i)
 
 		if encoding.Len() > 0 {
 			typeIds := make([]int, encoding.Len())
-- 
2.43.0


From 77eac621f7c4a2d7d43d26aa10dfce9f8a290d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:47 +0000
Subject: [PATCH 31/95] fix: process pairs once in a sequence of
 post-processors

---
 pretokenizer/bytelevel.go |  6 ++++--
 processor/bytelevel.go    | 16 ++++++++++++++++
 processor/sequence.go     | 16 +++++++++++++++-
 processor/template.go     |  5 ++++-
 4 files changed, 39 insertions(+), 4 deletions(-)

diff --git a/pretokenizer/bytelevel.go b/pretokenizer/bytelevel.go
index f3e3ff6..af44414 100644
--- a/pretokenizer/bytelevel.go
+++ b/pretokenizer/bytelevel.go
@@ -364,9 +364,11 @@ func processOffsets(encoding *tokenizer.Encoding, addPrefixSpace bool) *tokenize
 		newOffsets = append(newOffsets, []int{offset0, offset1})
 	}
 
-	encoding.Offsets = newOffsets
+	// the given encoding keeps its offsets
+	out := *encoding
+	out.Offsets = newOffsets
 
-	return encoding
+	return &out
 }
 
 func ProcessOffsets(encoding *tokenizer.Encoding, addPrefixSpace bool) *tokenizer.Encoding {
diff --git a/processor/bytelevel.go b/processor/bytelevel.go
index 168e040..f0ebc40 100644
--- a/processor/bytelevel.go
+++ b/processor/bytelevel.go
@@ -22,6 +22,22 @@ func (blp *ByteLevelProcessing) AddedTokens(isPair bool) (retVal int) {
 	return blp.pretok.AddedToken(isPair)
 }
 
+// trimOffsets trims the offsets of the encoding and its overflowing parts, if asked to do so.
+func (blp *ByteLevelProcessing) trimOffsets(encoding *tokenizer.Encoding) *tokenizer.Encoding {
+	if encoding == nil || !blp.pretok.TrimOffsets {
+		return encoding
+	}
+
+	out := pretokenizer.ProcessOffsets(encoding, blp.pretok.AddPrefixSpace)
+	var overflowing []tokenizer.Encoding
+	for _, en := range encoding.Overflowing {
+		overflowing = append(overflowing, *blp.trimOffsets(&en))
+	}
+	out.Overflowing = overflowing
+
+	return out
+}
+
 func (blp *ByteLevelProcessing) Process(encoding, pairEncoding *tokenizer.Encoding, addSpecialTokens bool) (retVal *tokenizer.Encoding) {
 	return blp.pretok.Process(encoding, pairEncoding, addSpecialTokens)
 }
diff --git a/processor/sequence.go b/processor/sequence.go
index cad57cc..bfde29b 100644
--- a/processor/sequence.go
+++ b/processor/sequence.go
@@ -26,8 +26,22 @@ func (seq *Sequence) AddedTokens(isPair bool) (retVal int) {
 func (seq *Sequence) Process(encoding, pairEncoding *tokenizer.Encoding, addSpecialTokens bool) (retVal *tokenizer.Encoding) {
 	// return blp.pretok.Process(encoding, pairEncoding, addSpecialTokens)
 	var encodings *tokenizer.Encoding = encoding
-	for _, p := range seq.processors {
+	last := len(seq.processors) - 1
+	for i, p := range seq.processors {
+		// Byte-level processing only trims offsets: among others it leaves the sequences to them.
+		if bl, ok := p.(*ByteLevelProcessing); ok && (i < last || (i > 0 && pairEncoding == nil)) {
+			encodings = bl.trimOffsets(encodings)
+			pairEncoding = bl.trimOffsets(pairEncoding)
+			continue
+		}
+
 		encodings = p.Process(encodings, pairEncoding, addSpecialTokens)
+		// from here on, the pair is part of the encoding
+		pairEncoding = nil
+	}
+
+	if pairEncoding != nil {
+		return tokenizer.DefaultProcess(encodings, pairEncoding, addSpecialTokens)
 	}
 
 	return encodings
diff --git a/processor/template.go b/processor/template.go
index a94e1f7..268a1e4 100644
--- a/processor/template.go
+++ b/processor/template.go
@@ -538,7 +538,10 @@ func (tp *TemplateProcessing) ApplyTemplate(template []Piece, encodings []tokeni
 				ids := tok.Ids
 				typeIds := util.Repeat(typeId, length)
 				tokens := tok.Tokens
-				offsets := util.Repeat([]int{0, 0}, length)
+				offsets := make([][]int, length)
+				for n := range offsets {
+					offsets[n] = []int{0, 0}
+				}
 				specialTokenMask := util.Repeat(1, length)
 				attentionMask := util.Repeat(1, length)
 				var overflowing []tokenizer.Encoding = nil
-- 
2.43.0


From 66507f448bd07cb78bc01d3f6d4e4f8f1010791f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:40 +0000
Subject: [PATCH 32/95] fix: refuse a maximum that special tokens exceed

---
 util.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/util.go b/util.go
index 072969d..5790a59 100644
--- a/util.go
+++ b/util.go
@@ -110,6 +110,10 @@ func truncateEncodings(encoding, pairEncoding *Encoding, params *TruncationParam
 		return encoding, pairEncoding, nil
 	}
 
+	if params.MaxLength < 0 { // special tokens alone are too many
+		return nil, nil, errors.New(SequenceTooShort)
+	}
+
 	toRemove = totalLength - params.MaxLength
 
 	switch params.Strategy {
-- 
2.43.0


From c0ecf524f7f49d4c6212672728a0ce11b61d86c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:52 +0000
Subject: [PATCH 33/95] fix: give special tokens around an empty input word
 indexes

---
 tokenizer.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tokenizer.go b/tokenizer.go
index 69ffebe..81def3e 100644
--- a/tokenizer.go
+++ b/tokenizer.go
@@ -636,6 +636,11 @@ func (t *Tokenizer) postProcess(encoding, pairEncoding *Encoding, addSpecialToke
 		finalEncoding = DefaultProcess(tEncoding, tPairEncoding, addSpecialTokens)
 	}
 
+	// special tokens have no words
+	for len(finalEncoding.Words) < finalEncoding.Len() {
+		finalEncoding.Words = append(finalEncoding.Words, -1)
+	}
+
 	// 3. Pad if needed
 	if t.padding == nil {
 		return finalEncoding, nil
-- 
2.43.0


From a46e1ca9ad130250f0fca58149867af63c8b7687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:10 +0000
Subject: [PATCH 34/95] fix: find added tokens leftmost first, with Unicode
 word boundaries

---
 added-vocabulary.go | 236 +++++++++++++++++++-------------------------
 1 file changed, 103 insertions(+), 133 deletions(-)

diff --git a/added-vocabulary.go b/added-vocabulary.go
index cafeb11..3c7ae17 100644
--- a/added-vocabulary.go
+++ b/added-vocabulary.go
@@ -4,10 +4,10 @@ import (
 	"fmt"
 	"log"
 	"regexp"
-	"sort"
+	"strings"
 	"unicode"
+	"unicode/utf8"
 
-	"github.com/sugarme/regexpset"
 	"github.com/sugarme/tokenizer/normalizer"
 )
 
@@ -123,67 +123,95 @@ func (at AddedToken) SetNormalized(normalized bool) (retVal AddedToken) {
 //
 // NOTE. normalizer input is optional
 func (at AddedToken) GetPattern(n normalizer.Normalizer) (retVal string) {
-	var reStr string // regular expression pattern
-
-	if at.SingleWord {
-		var firstB, lastB string
-		runes := []rune(at.Content)
-		firstChar := runes[0]
-		lastChar := runes[len(runes)-1]
-		if isWordCharacter(firstChar) {
-			firstB = `\b`
-		} else {
-			firstB = ``
-		}
-		if isWordCharacter(lastChar) {
-			lastB = `\b`
-		} else {
-			lastB = ``
-		}
+	// the text to look for
+	content := at.searchedContent(n)
+	reStr := regexp.QuoteMeta(content) // regular expression pattern
 
-		// normalize the content
-		content := normalizer.NewNormalizedFrom(at.Content)
-		var normalized string
-		if n != nil {
-			normalizedString, err := n.Normalize(content)
-			if err != nil {
-				log.Fatal(err)
-			}
-			normalized = normalizedString.GetNormalized()
-		} else { // don't have a normalizer, just use content as is
-			normalized = at.Content
+	if at.SingleWord && content != "" {
+		if firstChar, _ := utf8.DecodeRuneInString(content); isWordCharacter(firstChar) {
+			reStr = `\b` + reStr
+		}
+		if lastChar, _ := utf8.DecodeLastRuneInString(content); isWordCharacter(lastChar) {
+			reStr = reStr + `\b`
 		}
-
-		reStr = fmt.Sprintf("%v%v%v", firstB, regexp.QuoteMeta(normalized), lastB)
-
-	} else {
-		reStr = regexp.QuoteMeta(at.Content)
 	}
 
 	if at.LStrip && at.RStrip {
-		reStr = fmt.Sprintf("(\\s)?%v(\\s)?", reStr)
+		reStr = fmt.Sprintf("(\\s)*%v(\\s)*", reStr)
 	} else if at.LStrip {
-		reStr = fmt.Sprintf("(\\s)?%v", reStr)
+		reStr = fmt.Sprintf("(\\s)*%v", reStr)
 	} else if at.RStrip {
-		reStr = fmt.Sprintf("%v(\\s)?", reStr)
+		reStr = fmt.Sprintf("%v(\\s)*", reStr)
 	}
 
 	return reStr
 }
 
-func isWordCharacter(r rune) bool {
-	if unicode.IsLetter(r) || unicode.IsMark(r) || unicode.IsDigit(r) || unicode.IsControl(r) || unicode.IsPunct(r) {
-		return true
+// searchedContent returns the text that stands for this token in the text being searched:
+// the normalized content if the token matches against normalized text, the content otherwise.
+func (at AddedToken) searchedContent(n normalizer.Normalizer) string {
+	if n == nil || !at.Normalized {
+		return at.Content
+	}
+
+	normalized, err := n.Normalize(normalizer.NewNormalizedFrom(at.Content))
+	if err != nil {
+		log.Fatal(err)
 	}
-	return false
+
+	return normalized.GetNormalized()
+}
+
+// isWordCharacter tells whether a rune is part of a word (Unicode's definition of \w).
+func isWordCharacter(r rune) bool {
+	return unicode.IsLetter(r) || unicode.IsMark(r) || unicode.IsDigit(r) || unicode.In(r, unicode.Pc, unicode.Join_Control)
 }
 
-// matchingSet is a set of regular expression string
+// matchingSet is a set of added tokens to look for, along with their ids
 type matchingSet struct {
-	regexSet regexpset.RegexpSet
+	tokens   []AddedToken
+	contents []string // the text to look for, for each token
 	ids      []int
 }
 
+// matchAt tells whether the sentence holds the token at index `idx` of the set at the given
+// position, whitespace stripped on its left included, and where that occurrence ends.
+func (ms matchingSet) matchAt(sentence string, pos, idx int) (end int, ok bool) {
+	token, content := ms.tokens[idx], ms.contents[idx]
+	if content == "" {
+		return 0, false
+	}
+
+	start := pos
+	if token.LStrip {
+		start = len(sentence) - len(strings.TrimLeftFunc(sentence[pos:], unicode.IsSpace))
+	}
+
+	for ; start >= pos; start-- {
+		if !strings.HasPrefix(sentence[start:], content) {
+			continue
+		}
+		end = start + len(content)
+		if token.SingleWord && (isInsideWord(sentence, start) || isInsideWord(sentence, end)) {
+			continue
+		}
+		if token.RStrip {
+			end = len(sentence) - len(strings.TrimLeftFunc(sentence[end:], unicode.IsSpace))
+		}
+		return end, true
+	}
+
+	return 0, false
+}
+
+// isInsideWord tells whether a position is surrounded by word characters.
+func isInsideWord(sentence string, pos int) bool {
+	before, _ := utf8.DecodeLastRuneInString(sentence[:pos])
+	after, _ := utf8.DecodeRuneInString(sentence[pos:])
+
+	return isWordCharacter(before) && isWordCharacter(after)
+}
+
 // AddedVocabulary is a vocabulary built on top of the Model
 //
 // This provides a way to add new vocabulary to a Tokenizer that has already been trained,
@@ -211,9 +239,9 @@ type AddedVocabulary struct {
 	// A map, containing all the special token for easy access while decoding. This let's
 	// us remove them easily with an O(1) complexity.
 	specialTokensSet map[string]bool
-	// A struct containing all the non-normalized patterns used to split on AddedTokens
+	// A struct containing all the non-normalized tokens used to split on AddedTokens
 	splitRe matchingSet
-	// A struct containing all the normalized patterns used to split on AddedTokens
+	// A struct containing all the normalized tokens used to split on AddedTokens
 	splitNormalizedRe matchingSet
 }
 
@@ -322,41 +350,32 @@ type tokenId struct {
 	id    int
 }
 
-// refreshAddedTokens reconstructs our internal RegexSet when new tokens are added to the vocabulary.
+// refreshAddedTokens reconstructs our internal matching sets when new tokens are added to the vocabulary.
 //
-// NOTE. We keep two different regular expression sets, one that will take care of matching against the
+// NOTE. We keep two different sets, one that will take care of matching against the
 // non-normalized string, and one matching against the normalized one.
 func (av *AddedVocabulary) refreshAddedTokens(model Model, normalizer normalizer.Normalizer) {
-	var normIds, nnormIds []int
-	var normPatterns, nnormPatterns []string
-	tokens := append(av.specialTokens, av.addedTokens...)
+	var normSet, nnormSet matchingSet
+	var tokens []AddedToken
+	tokens = append(tokens, av.specialTokens...)
+	tokens = append(tokens, av.addedTokens...)
 	for _, token := range tokens {
 		id, ok := av.TokenToId(token.Content, model)
 		if !ok {
 			log.Fatalf("Missing additional token.\n")
 		}
 
-		pattern := token.GetPattern(normalizer)
+		set := &nnormSet
 		if token.Normalized {
-			normIds = append(normIds, id)
-			normPatterns = append(normPatterns, pattern)
-		} else {
-			nnormIds = append(nnormIds, id)
-			nnormPatterns = append(nnormPatterns, pattern)
+			set = &normSet
 		}
+		set.tokens = append(set.tokens, token)
+		set.contents = append(set.contents, token.searchedContent(normalizer))
+		set.ids = append(set.ids, id)
 	}
 
-	normSet, err := regexpset.NewRegexpSet(normPatterns)
-	if err != nil {
-		log.Fatal(err)
-	}
-	nnormSet, err := regexpset.NewRegexpSet(nnormPatterns)
-	if err != nil {
-		log.Fatal(err)
-	}
-
-	av.splitNormalizedRe = matchingSet{*normSet, normIds}
-	av.splitRe = matchingSet{*nnormSet, nnormIds}
+	av.splitNormalizedRe = normSet
+	av.splitRe = nnormSet
 }
 
 type idOffsets struct {
@@ -364,23 +383,6 @@ type idOffsets struct {
 	offsets []int
 }
 
-// helper functions to sort idOffsets
-// By implement sort interface of package sort
-
-// byStart sort by offset.Start
-type byStart []idOffsets
-
-func (s byStart) Len() int           { return len(s) }
-func (s byStart) Less(i, j int) bool { return s[i].offsets[0] < s[j].offsets[0] }
-func (s byStart) Swap(i, j int)      { s[i], s[j] = s[j], s[i] }
-
-// byId sort by id
-type byId []idOffsets
-
-func (bi byId) Len() int           { return len(bi) }
-func (bi byId) Less(i, j int) bool { return bi[i].id < bi[j].id }
-func (bi byId) Swap(i, j int)      { bi[i], bi[j] = bi[j], bi[i] }
-
 // findMatches finds any AddedToken in the given sentence, using the provided MatchingSet.
 // This method returns a list "splits", each of them being a pair of Offsets
 // and an optional ID if it is an AddedToken. The list of splits cover the entire input string.
@@ -390,56 +392,24 @@ func (av *AddedVocabulary) findMatches(sentence string, splitRe matchingSet) (re
 		return []idOffsets{{-1, []int{0, 0}}}
 	}
 
-	matches := splitRe.regexSet.Matches(sentence).Matches()
-	var ioPairs []idOffsets
-
-	for _, idx := range matches {
-		r := regexp.MustCompile(splitRe.regexSet.Patterns()[idx])
-		locs := r.FindAllStringIndex(sentence, -1)
-		for _, loc := range locs {
-			id := idx
-			ioPair := idOffsets{id: id, offsets: []int{loc[0], loc[1]}}
-			ioPairs = append(ioPairs, ioPair)
-		}
-	}
-
-	// Sort id-offsets by start then by pattern id
-	sort.Sort(byStart(ioPairs))
-	sort.Sort(byId(ioPairs))
-
-	// Select the matches, if they overlap, keep them
-	var (
-		i              int         = 0
-		currentOffsets int         = 0
-		splits         []idOffsets = make([]idOffsets, 0)
-	)
-
-	for i < len(ioPairs) {
-		ioPair := ioPairs[i]
-
-		// current match is before the current offset, skip it
-		if ioPair.offsets[0] < currentOffsets {
-			i++
-			continue
+	// Select the matches: the leftmost one, then the one with the lowest index, and so on
+	// from the end of the match.
+	var splits []idOffsets
+	for pos := 0; pos < len(sentence); {
+		matched := false
+		for idx := range splitRe.ids {
+			end, ok := splitRe.matchAt(sentence, pos, idx)
+			if ok {
+				splits = append(splits, idOffsets{id: idx, offsets: []int{pos, end}})
+				pos = end
+				matched = true
+				break
+			}
 		}
-
-		// Find out whether having overlapping neighbours.
-		// If so, keep the one with lowest Idx. All other will be skipped
-		// because `currentOffsets` will have been increased.
-		if i+1 < len(ioPairs) {
-			overlapPairs := ioPairs[i:]
-			sort.Sort(byId(overlapPairs))
-			lowestPair := overlapPairs[0] // lowest Id one
-			splits = append(splits, lowestPair)
-			currentOffsets = ioPair.offsets[1]
-			i++
-			continue
+		if !matched {
+			_, size := utf8.DecodeRuneInString(sentence[pos:])
+			pos += size
 		}
-
-		// Not found overlap neighbours. Just apply itself
-		splits = append(splits, ioPair)
-		currentOffsets = ioPair.offsets[1]
-		i++
 	}
 
 	// Also, insert the splits in-between added tokens, to split the entire string
-- 
2.43.0


From 689f759a46ff0ba45a71b3184c9608415700d992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:12 +0000
Subject: [PATCH 35/95] fix: WithNormalizer refreshes the added tokens

---
 tokenizer.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tokenizer.go b/tokenizer.go
index 81def3e..b7368d6 100644
--- a/tokenizer.go
+++ b/tokenizer.go
@@ -289,6 +289,8 @@ func NewTokenizer(model Model) *Tokenizer {
 
 func (t *Tokenizer) WithNormalizer(n normalizer.Normalizer) {
 	t.normalizer = n
+	// The added tokens that match normalized text depend on it
+	t.addedVocabulary.refreshAddedTokens(t.model, n)
 }
 
 func (t *Tokenizer) GetNormalizer() normalizer.Normalizer {
-- 
2.43.0


From 51693166514b2c84fc3ac50f95a4bfc14afa54bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:13 +0000
Subject: [PATCH 36/95] fix: added tokens never take an id already in use

---
 added-vocabulary.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/added-vocabulary.go b/added-vocabulary.go
index 3c7ae17..b6cc0c8 100644
--- a/added-vocabulary.go
+++ b/added-vocabulary.go
@@ -328,6 +328,10 @@ func (av *AddedVocabulary) AddTokens(tokens []AddedToken, model Model, normalize
 			id = i
 		} else {
 			id = model.GetVocabSize() + len(av.addedTokenMap)
+			// The ids of a model are not necessarily contiguous
+			for _, taken := av.IdToToken(id, model); taken; _, taken = av.IdToToken(id, model) {
+				id++
+			}
 			av.addedTokenMap[token.Content] = id
 
 			if _, ok := av.specialTokensSet[token.Content]; !ok {
-- 
2.43.0


From 47e20884895dea11338f8b4163846c54ffd0e90d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:14 +0000
Subject: [PATCH 37/95] fix: GetVocab does not alter the model's vocabulary

---
 tokenizer.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tokenizer.go b/tokenizer.go
index b7368d6..e895d0b 100644
--- a/tokenizer.go
+++ b/tokenizer.go
@@ -347,7 +347,12 @@ func (t *Tokenizer) GetPadding() (retVal *PaddingParams) {
 
 // GetVocab get the vocabulary
 func (t *Tokenizer) GetVocab(withAddedTokens bool) map[string]int {
-	finalVocab := t.model.GetVocab()
+	modelVocab := t.model.GetVocab()
+	// The model's vocabulary must not be altered
+	finalVocab := make(map[string]int, len(modelVocab))
+	for k, v := range modelVocab {
+		finalVocab[k] = v
+	}
 	if withAddedTokens {
 		addedVocab := t.addedVocabulary.GetVocab()
 		if len(addedVocab) > 0 {
-- 
2.43.0


From 9855751d8bc5b9aeaf36e030ee2cd587329a9fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:16 +0000
Subject: [PATCH 38/95] fix: GetSpecialTokens keeps the order of addition

---
 tokenizer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tokenizer.go b/tokenizer.go
index e895d0b..30075cd 100644
--- a/tokenizer.go
+++ b/tokenizer.go
@@ -377,8 +377,8 @@ func (t *Tokenizer) GetVocabSize(withAddedTokens bool) int {
 // GetSpecialTokens returns a slice of special tokens.
 func (t *Tokenizer) GetSpecialTokens() []string {
 	var tokens []string
-	for k := range t.addedVocabulary.specialTokensSet {
-		tokens = append(tokens, k)
+	for _, tok := range t.addedVocabulary.specialTokens {
+		tokens = append(tokens, tok.Content)
 	}
 
 	return tokens
-- 
2.43.0


From 772148cce5aee5bda4cf8ff0f6ff73bad04c51ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:01 +0000
Subject: [PATCH 39/95] fix: PreTokenizedString.Normalize keeps splits that
 already have tokens

---
 pretokenizer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pretokenizer.go b/pretokenizer.go
index 6a55545..23e33e0 100644
--- a/pretokenizer.go
+++ b/pretokenizer.go
@@ -101,11 +101,11 @@ func (pt *PreTokenizedString) Normalize(nFn func(*normalizer.NormalizedString) *
 	var nSplits []Split
 
 	for _, split := range pt.splits {
+		newSplit := split
 		if split.tokens == nil {
-			newSplit := split
 			newSplit.normalized = nFn(split.normalized)
-			nSplits = append(nSplits, newSplit)
 		}
+		nSplits = append(nSplits, newSplit)
 	}
 
 	pt.splits = nSplits
-- 
2.43.0


From f930b540e7675e36fb07dd5063ebdeaa64dbf414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:42 +0000
Subject: [PATCH 40/95] fix: character offsets at the end of the text

---
 pretokenizer.go | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/pretokenizer.go b/pretokenizer.go
index 23e33e0..792c2cb 100644
--- a/pretokenizer.go
+++ b/pretokenizer.go
@@ -4,7 +4,6 @@ package tokenizer
 
 import (
 	"fmt"
-	"log"
 	// "reflect"
 
 	"github.com/sugarme/tokenizer/normalizer"
@@ -166,6 +165,7 @@ func (pt *PreTokenizedString) IntoEncoding(typeId int, wordIdx int, offsetType O
 			}
 			currRuneIdx += 1
 		}
+		charMap[len(pt.original)] = currRuneIdx // the end of the text
 	case offsetType == Byte:
 		charMap = make(map[int]int, 0)
 
@@ -211,15 +211,6 @@ func (pt *PreTokenizedString) IntoEncoding(typeId int, wordIdx int, offsetType O
 			switch {
 			case start != -1 && end != -1:
 				newConvertedOffsets = []int{start, end}
-			case start != -1 && end == -1: // If we reached the end, `end` is not in the map
-				// But the one just before should be
-				last, ok := charMapSplit[convertedOffsets[1]-1]
-				if !ok {
-					log.Printf("Something wrong here. Should find from map.\n")
-					last = start + 1
-				}
-				newConvertedOffsets = []int{start, last}
-
 			default:
 				newConvertedOffsets = convertedOffsets
 			}
-- 
2.43.0


From ebd4a7c4f2c5e265e2de09897374824c3868c17d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:46 +0000
Subject: [PATCH 41/95] fix: BytesToCharOffsetConverter converts the end of the
 text

---
 pretokenizer.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pretokenizer.go b/pretokenizer.go
index 792c2cb..8b30cb3 100644
--- a/pretokenizer.go
+++ b/pretokenizer.go
@@ -321,6 +321,7 @@ func NewBytesToCharOffsetConverter(sequence string) *BytesToCharOffsetConverter
 
 		n += nbytes
 	}
+	b2c[n] = len(chars) // the end of the text
 
 	return &BytesToCharOffsetConverter{b2c}
 }
-- 
2.43.0


From abe1eec2ec047035abdc6c2f5aadfdf989a9fe9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:48 +0000
Subject: [PATCH 42/95] fix: Metaspace splits on the literal replacement

---
 pretokenizer/metaspace.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pretokenizer/metaspace.go b/pretokenizer/metaspace.go
index 7d9606f..4ed5d77 100644
--- a/pretokenizer/metaspace.go
+++ b/pretokenizer/metaspace.go
@@ -98,7 +98,7 @@ func (m *Metaspace) PreTokenize(pretokenized *tokenizer.PreTokenizedString) (*to
 			// Never prepend
 		}
 
-		replacement := normalizer.NewRegexpPattern(m.Replacement)
+		replacement := normalizer.NewStringPattern(m.Replacement)
 		splits = normalized.Split(replacement, normalizer.MergedWithNextBehavior)
 
 		// log.Printf("splits: %+v\n", splits)
-- 
2.43.0


From 0afba982cf6d76efb33698a99417a0419fc9a677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:30 +0000
Subject: [PATCH 43/95] fix: UnicodeScript keeps the beginning of the text

---
 pretokenizer/unicode-script.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pretokenizer/unicode-script.go b/pretokenizer/unicode-script.go
index f34436b..78c13d3 100644
--- a/pretokenizer/unicode-script.go
+++ b/pretokenizer/unicode-script.go
@@ -51,9 +51,10 @@ var _ tokenizer.PreTokenizer = new(UnicodeScript)
 
 func (us *UnicodeScript) PreTokenize(pretokenized *tokenizer.PreTokenizedString) (*tokenizer.PreTokenizedString, error) {
 	pretok := pretokenized.Split(func(noop int, normalized *normalizer.NormalizedString) []tokenizer.SplitIdx {
-		lastScript := ""
+		// Spaces belong to any script: leading ones go with what follows
+		lastScript := "Any"
 		offset := 0
-		var ranges []int
+		ranges := []int{0}
 		for _, c := range normalized.GetNormalized() {
 			script := FixedScript(c)
 			var result int
-- 
2.43.0


From 0f49557d84a22c921ff739b6fcd3f044f491da08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:32 +0000
Subject: [PATCH 44/95] fix: Invert works on any pattern

---
 normalizer/pattern.go | 21 +--------------------
 1 file changed, 1 insertion(+), 20 deletions(-)

diff --git a/normalizer/pattern.go b/normalizer/pattern.go
index 1a5ebe7..8fd11f6 100644
--- a/normalizer/pattern.go
+++ b/normalizer/pattern.go
@@ -1,11 +1,8 @@
 package normalizer
 
 import (
-	"log"
 	// "reflect"
 	"regexp"
-
-	"github.com/sugarme/tokenizer/util"
 )
 
 // Pattern is used to split a NormalizedString
@@ -284,23 +281,7 @@ func NewInvertPattern(p Pattern) *Invert {
 
 // FindMatches implement Pattern interface for Invert
 func (i *Invert) FindMatches(inside string) []OffsetsMatch {
-	var matches []OffsetsMatch
-	typ := util.GetType(i.Pattern)
-	switch typ {
-	case "*StringPattern":
-		matches = i.Pattern.(*StringPattern).FindMatches(inside)
-	case "*RunePattern":
-		matches = i.Pattern.(*RunePattern).FindMatches(inside)
-	case "*FnPattern":
-		matches = i.Pattern.(*FnPattern).FindMatches(inside)
-	case "*RegexpPattern":
-		matches = i.Pattern.(*RegexpPattern).FindMatches(inside)
-
-	default:
-		log.Fatalf("Unsupported type - %q\n", typ)
-	}
-
-	return invert(matches)
+	return invert(i.Pattern.FindMatches(inside))
 }
 
 func invert(matches []OffsetsMatch) (retVal []OffsetsMatch) {
-- 
2.43.0


From 5454d125555197b9f0c714e31b13e71e75f0064a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:43 +0000
Subject: [PATCH 45/95] fix: Whitespace uses Unicode word characters and spaces

---
 pretokenizer/whitespace.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pretokenizer/whitespace.go b/pretokenizer/whitespace.go
index 00d071a..94b4fe7 100644
--- a/pretokenizer/whitespace.go
+++ b/pretokenizer/whitespace.go
@@ -21,7 +21,12 @@ var _ tokenizer.PreTokenizer = new(Whitespace)
 
 func (p *Whitespace) PreTokenize(pretokenized *tokenizer.PreTokenizedString) (*tokenizer.PreTokenizedString, error) {
 	pretok := pretokenized.Split(func(noop int, normalized *normalizer.NormalizedString) []tokenizer.SplitIdx {
-		s := `\w+|[^\w\s]+`
+		// `\w+|[^\w\s]+` with Unicode's definitions of `\w` and `\s`
+		const (
+			w  = `\p{L}\p{M}\p{Nl}\p{Nd}\p{Pc}\x{200C}\x{200D}`
+			ws = `\t-\r\x{85}\p{Z}`
+		)
+		s := `[` + w + `]+|[^` + w + ws + `]+`
 		rePattern := normalizer.NewRegexpPattern(s)
 		invert := normalizer.NewInvertPattern(rePattern)
 		splits := normalized.Split(invert, normalizer.RemovedBehavior)
-- 
2.43.0


From af940b9cd8c79210d55e8c1b44435e6384f77223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:56 +0000
Subject: [PATCH 46/95] fix: convert the end of the text without changing the
 converter's map

---
 pretokenizer.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/pretokenizer.go b/pretokenizer.go
index 8b30cb3..658e23d 100644
--- a/pretokenizer.go
+++ b/pretokenizer.go
@@ -321,20 +321,30 @@ func NewBytesToCharOffsetConverter(sequence string) *BytesToCharOffsetConverter
 
 		n += nbytes
 	}
-	b2c[n] = len(chars) // the end of the text
 
 	return &BytesToCharOffsetConverter{b2c}
 }
 
+// convert converts a byte index, which may be that of the end of the text.
+func (c *BytesToCharOffsetConverter) convert(byteIdx int) (int, bool) {
+	if charIdx, ok := c.b2c[byteIdx]; ok || byteIdx == 0 {
+		return charIdx, true
+	}
+
+	// the end is not in the map, but the byte just before is
+	last, ok := c.b2c[byteIdx-1]
+	return last + 1, ok
+}
+
 // Convert converts byte-indexed offsets to character-index offsets.
 func (c *BytesToCharOffsetConverter) Convert(offsets []int) ([]int, error) {
-	start, ok := c.b2c[offsets[0]]
+	start, ok := c.convert(offsets[0])
 	if !ok {
 		err := fmt.Errorf("Invalid offsets start %v\n", offsets[0])
 		return nil, err
 	}
 
-	end, ok := c.b2c[offsets[1]]
+	end, ok := c.convert(offsets[1])
 	if !ok {
 		err := fmt.Errorf("Invalid offsets end %v\n", offsets[1])
 		return nil, err
-- 
2.43.0


From 6dd42f593f1f77fb4dc3f18ec6d2fd29d61097e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:14 +0000
Subject: [PATCH 47/95] fix: default decoders can decode

---
 decoder/bpe.go       | 2 +-
 decoder/ctc.go       | 8 +-------
 decoder/wordpiece.go | 5 +----
 3 files changed, 3 insertions(+), 12 deletions(-)

diff --git a/decoder/bpe.go b/decoder/bpe.go
index 44bfec7..12989b9 100644
--- a/decoder/bpe.go
+++ b/decoder/bpe.go
@@ -29,7 +29,7 @@ func NewBpeDecoder(suffix string) *BpeDecoder {
 
 // DefaultBpeDecoder create a new BpeDecoder with default suffix (`</w>`)
 func DefaultBpeDecoder() *BpeDecoder {
-	return &BpeDecoder{suffix: "</w>"}
+	return NewBpeDecoder("</w>")
 }
 
 /*
diff --git a/decoder/ctc.go b/decoder/ctc.go
index f1f0655..3236e35 100644
--- a/decoder/ctc.go
+++ b/decoder/ctc.go
@@ -30,13 +30,7 @@ func NewCTC(padToken string, wordDelimiterToken string, cleanup bool) *CTC {
 }
 
 func DefaultCTC() *CTC {
-	base := new(DecoderBase)
-	return &CTC{
-		DecoderBase:        base,
-		PadToken:           "<pad>",
-		WordDelimiterToken: "|",
-		Cleanup:            true,
-	}
+	return NewCTC("<pad>", "|", true)
 }
 
 // dedup deduplicates consecutive elements.
diff --git a/decoder/wordpiece.go b/decoder/wordpiece.go
index 8c66b62..37acdc0 100644
--- a/decoder/wordpiece.go
+++ b/decoder/wordpiece.go
@@ -33,10 +33,7 @@ func NewWordPieceDecoder(prefix string, cleanup bool) *WordPieceDecoder {
 
 // DefaultBpeDecoder create a new BpeDecoder with default suffix (`</w>`)
 func DefaultWordpieceDecoder() *WordPieceDecoder {
-	return &WordPieceDecoder{
-		prefix:  "##",
-		cleanup: true,
-	}
+	return NewWordPieceDecoder("##", true)
 }
 
 /*
-- 
2.43.0


From beaae119916fb3f00e0e06e21c8cb7c992c428f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:16 +0000
Subject: [PATCH 48/95] fix: Strip decoder on short tokens

---
 decoder/strip.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/decoder/strip.go b/decoder/strip.go
index dd428e2..c93ebe2 100644
--- a/decoder/strip.go
+++ b/decoder/strip.go
@@ -36,7 +36,7 @@ func (d *Strip) DecodeChain(tokens []string) []string {
 		chars := strings.Split(token, "")
 
 		startCut := 0
-		for i := 0; i < d.Start; i++ {
+		for i := 0; i < d.Start && i < len(chars); i++ {
 			c := chars[i]
 			if c == d.Content {
 				startCut = i + 1
@@ -47,7 +47,7 @@ func (d *Strip) DecodeChain(tokens []string) []string {
 		}
 
 		stopCut := len(chars)
-		for i := 0; i < d.Stop; i++ {
+		for i := 0; i < d.Stop && i < len(chars)-startCut; i++ {
 			index := len(chars) - i - 1
 			if chars[index] == d.Content {
 				stopCut = index
-- 
2.43.0


From 60ecf46a43173cd14de422b599ef557fc198a5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:17 +0000
Subject: [PATCH 49/95] fix: ByteFallback keeps tokens that are no bytes

---
 decoder/byte-fallback.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/decoder/byte-fallback.go b/decoder/byte-fallback.go
index 763f85a..edccad0 100644
--- a/decoder/byte-fallback.go
+++ b/decoder/byte-fallback.go
@@ -37,13 +37,11 @@ func (d *ByteFallback) DecodeChain(tokens []string) []string {
 
 	for _, token := range tokens {
 		var bytes []byte
-		var err error
 
 		if len(token) == 6 && strings.HasPrefix(token, "<0x") && strings.HasSuffix(token, ">") {
-			// convert hex string to bytes
-			bytes, err = hex.DecodeString(token[3:5])
-			if err != nil {
-				panic(err)
+			// convert hex string to bytes; it is an ordinary token if it can't be
+			if b, err := hex.DecodeString(token[3:5]); err == nil {
+				bytes = b
 			}
 		}
 
-- 
2.43.0


From 659ef53a45206abcd8eda03dd7ff4546ebd9d6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:18 +0000
Subject: [PATCH 50/95] fix: ByteLevel decoding keeps tokens outside its
 alphabet

---
 pretokenizer/bytelevel.go | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/pretokenizer/bytelevel.go b/pretokenizer/bytelevel.go
index af44414..59c8767 100644
--- a/pretokenizer/bytelevel.go
+++ b/pretokenizer/bytelevel.go
@@ -229,18 +229,7 @@ var _ tokenizer.Decoder = new(ByteLevel)
 // Decode converts any byte-level characters to their unicode couterpart
 // before merging everything back into a single string
 func (bl *ByteLevel) Decode(tokens []string) string {
-	s := strings.Join(tokens, "")
-	chars := strings.Split(s, "")
-
-	var bytes []byte
-
-	for _, c := range chars {
-		b := CharBytes[c]
-
-		bytes = append(bytes, b)
-	}
-
-	return string(bytes)
+	return strings.Join(bl.DecodeChain(tokens), "")
 }
 
 func (bl *ByteLevel) DecodeChain(tokens []string) []string {
@@ -248,13 +237,22 @@ func (bl *ByteLevel) DecodeChain(tokens []string) []string {
 	for i, s := range tokens {
 		chars := strings.Split(s, "")
 		var bytes []byte
+		isByteLevel := true
 		for _, c := range chars {
-			b := CharBytes[c]
+			b, ok := CharBytes[c]
+			if !ok {
+				isByteLevel = false
+				break
+			}
 
 			bytes = append(bytes, b)
 		}
 
-		out[i] = string(bytes)
+		if isByteLevel {
+			out[i] = string(bytes)
+		} else { // e.g. an added token
+			out[i] = s
+		}
 	}
 
 	return out
-- 
2.43.0


From 49db742bc1c2ac3bb66a5a239c30982531f9203f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:19 +0000
Subject: [PATCH 51/95] fix: Metaspace decodes any replacement

---
 pretokenizer/metaspace.go | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/pretokenizer/metaspace.go b/pretokenizer/metaspace.go
index 4ed5d77..4350e5c 100644
--- a/pretokenizer/metaspace.go
+++ b/pretokenizer/metaspace.go
@@ -120,22 +120,15 @@ func (m *Metaspace) PreTokenize(pretokenized *tokenizer.PreTokenizedString) (*to
 func (m *Metaspace) DecodeChain(tokens []string) []string {
 	var toks []string
 	for i, token := range tokens {
-		chars := strings.Split(token, "")
-
-		var newChars []string
-		for _, c := range chars {
-			if c == m.Replacement {
-				if i == 0 && m.AddPrefixSpace {
-					// nil
-				} else {
-					newChars = append(newChars, " ")
-				}
-			} else {
-				newChars = append(newChars, c)
-			}
+		replacement := " "
+		if i == 0 && m.AddPrefixSpace {
+			replacement = ""
 		}
 
-		newTok := strings.Join(newChars, "")
+		newTok := token
+		if m.Replacement != "" {
+			newTok = strings.ReplaceAll(token, m.Replacement, replacement)
+		}
 		toks = append(toks, newTok)
 	}
 
-- 
2.43.0


From a7d15cf9a23eb8ec7e56b3ca8b35cc6fad55c6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:43 +0000
Subject: [PATCH 52/95] fix: byte-level trimming leaves no part of a character

---
 pretokenizer/bytelevel.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pretokenizer/bytelevel.go b/pretokenizer/bytelevel.go
index 59c8767..16c09a3 100644
--- a/pretokenizer/bytelevel.go
+++ b/pretokenizer/bytelevel.go
@@ -350,7 +350,6 @@ func processOffsets(encoding *tokenizer.Encoding, addPrefixSpace bool) *tokenize
 		}
 
 		tl := m.TrailingSpace
-
 		offset1 = offsets[1]
 		if tl > 0 && offsets[1] >= tl {
 			offset1 = offsets[1] - tl
@@ -358,6 +357,9 @@ func processOffsets(encoding *tokenizer.Encoding, addPrefixSpace bool) *tokenize
 				offset1 = offset0
 			}
 		}
+		if tl > 0 && tl == len([]rune(toks[i])) {
+			offset1 = offset0 // nothing but spaces
+		}
 
 		newOffsets = append(newOffsets, []int{offset0, offset1})
 	}
-- 
2.43.0


From 47d59ba0eac69f0f70c03f57f2cbf0cb00076da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:09 +0000
Subject: [PATCH 53/95] fix: Save creates a missing directory

---
 model/bpe/bpe.go             | 7 +------
 model/wordlevel/wordlevel.go | 7 +------
 model/wordpiece/wordpiece.go | 7 +------
 3 files changed, 3 insertions(+), 18 deletions(-)

diff --git a/model/bpe/bpe.go b/model/bpe/bpe.go
index f627d4e..22f2b83 100644
--- a/model/bpe/bpe.go
+++ b/model/bpe/bpe.go
@@ -597,12 +597,7 @@ func deleteWord(a []Word, i int) ([]Word, error) {
 
 // makeFilePath creates a filePath. If dir not existing, create it
 func makeFilePath(filename string) error {
-	var err error
-	dirName := filepath.Dir(filename)
-	if _, err = os.Stat(dirName); err != nil {
-		return err
-	}
-	return os.MkdirAll(dirName, os.ModePerm)
+	return os.MkdirAll(filepath.Dir(filename), os.ModePerm)
 }
 
 func CreateMerges(vocab map[string]int, mergesData []string) (*Merges, error) {
diff --git a/model/wordlevel/wordlevel.go b/model/wordlevel/wordlevel.go
index ee9f75f..91369f1 100644
--- a/model/wordlevel/wordlevel.go
+++ b/model/wordlevel/wordlevel.go
@@ -238,12 +238,7 @@ func (wl *WordLevel) Save(dir string, nameOpt ...string) (err error) {
 
 // makeFilePath creates a filePath. If dir not existing, create it
 func makeFilePath(filename string) error {
-	var err error
-	dirName := filepath.Dir(filename)
-	if _, err = os.Stat(dirName); err != nil {
-		return err
-	}
-	return os.MkdirAll(dirName, os.ModePerm)
+	return os.MkdirAll(filepath.Dir(filename), os.ModePerm)
 }
 
 // New creates new WordLevel from input data.
diff --git a/model/wordpiece/wordpiece.go b/model/wordpiece/wordpiece.go
index a509f6a..850bd49 100644
--- a/model/wordpiece/wordpiece.go
+++ b/model/wordpiece/wordpiece.go
@@ -398,12 +398,7 @@ func (wp WordPiece) Save(dir string, nameOpt ...string) (err error) {
 
 // makeFilePath creates a filePath. If dir not existing, create it
 func makeFilePath(filename string) error {
-	var err error
-	dirName := filepath.Dir(filename)
-	if _, err = os.Stat(dirName); err != nil {
-		return err
-	}
-	return os.MkdirAll(dirName, os.ModePerm)
+	return os.MkdirAll(filepath.Dir(filename), os.ModePerm)
 }
 
 // New creates WordPiece model from input data.
-- 
2.43.0


From 9e284ccb41c9058ec1a65e76ed3e1024f49ec983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:31 +0000
Subject: [PATCH 54/95] fix: only the first line of a merges file is its
 version

---
 model/bpe/bpe.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/model/bpe/bpe.go b/model/bpe/bpe.go
index 22f2b83..924ae1c 100644
--- a/model/bpe/bpe.go
+++ b/model/bpe/bpe.go
@@ -8,7 +8,6 @@ import (
 	"io/ioutil"
 	"os"
 	"path/filepath"
-	"regexp"
 	"sort"
 
 	// "strconv"
@@ -273,12 +272,14 @@ func (b *BPE) ReadFiles(vocabF string, mergesF string) (*model.Vocab, *Merges, e
 	// end of file or hit any error. The error will be
 	// access by s.Err. If error caused by EOF it's value is nil.
 	var lineNum = 0
+	var firstLine = true
 	for s.Scan() {
 		line := s.Text()
 
-		// Skip line with `#version`
-		re := regexp.MustCompile(`#version`)
-		if re.MatchString(line) {
+		// Skip the `#version` header
+		isFirst := firstLine
+		firstLine = false
+		if isFirst && strings.HasPrefix(line, "#version") {
 			continue
 		}
 
@@ -578,6 +579,7 @@ func (b BPE) Save(dir string, nameOpt ...string) error {
 	defer file.Close()
 
 	w := bufio.NewWriter(file)
+	fmt.Fprintln(w, "#version: 0.2")
 	for _, line := range lines {
 		fmt.Fprintln(w, line)
 	}
-- 
2.43.0


From 9d9e57f2fd5f2405111cba5beb9a9b5b09cddc33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:59 +0000
Subject: [PATCH 55/95] fix: merged tokens lose the continuing prefix of their
 second part when loading

---
 model/bpe/bpe.go | 35 ++++++++++++++++++++++++++---------
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/model/bpe/bpe.go b/model/bpe/bpe.go
index 924ae1c..c2d8bc1 100644
--- a/model/bpe/bpe.go
+++ b/model/bpe/bpe.go
@@ -125,6 +125,7 @@ func (bb *BpeBuilder) Build() (*BPE, error) {
 
 	// Read files if provided
 	if bb.config.files != nil {
+		bpe.ContinuingSubwordPrefix = bb.config.continuingSubwordPrefix
 		vocab, merges, err = bpe.ReadFiles(bb.config.files.vocab, bb.config.files.merges)
 		if err != nil {
 			return nil, err
@@ -289,23 +290,22 @@ func (b *BPE) ReadFiles(vocabF string, mergesF string) (*model.Vocab, *Merges, e
 			return nil, nil, err
 		}
 
-		a, ok := vocab[parts[0]]
+		c1, ok := vocab[parts[0]]
 		if !ok {
 			// err = fmt.Errorf("Read merge file error: part a value for '%s' key not found.", parts[0])
 			continue
 			// return nil, nil, err
 		}
 
-		b, ok := vocab[parts[1]]
+		c2, ok := vocab[parts[1]]
 		if !ok {
 			// err = fmt.Errorf("Read merge file error: part b value for '%s' key not found.", parts[1])
 			continue
 			// return nil, nil, err
 		}
 
-		pair := Pair{a, b}
-		// newToken := fmt.Sprintf("%v%v", parts[0], parts[1])
-		newToken := fmt.Sprintf("%v%v", parts[0], parts[1])
+		pair := Pair{c1, c2}
+		newToken := b.mergedToken(parts[0], parts[1])
 		newId, ok := vocab[newToken]
 		if !ok {
 			err = fmt.Errorf("Read merge file error: key value for token: \"%s\" not found.", newToken)
@@ -333,6 +333,16 @@ func (b *BPE) ReadFiles(vocabF string, mergesF string) (*model.Vocab, *Merges, e
 	return &vocab, &merges, nil
 }
 
+// mergedToken returns the token that merging both parts makes: the second one
+// loses its continuing prefix.
+func (b *BPE) mergedToken(first, second string) string {
+	if b.ContinuingSubwordPrefix != nil {
+		second = strings.TrimPrefix(second, *b.ContinuingSubwordPrefix)
+	}
+
+	return first + second
+}
+
 // ClearCache reset the cache
 func (b *BPE) ClearCache() {
 	if b.Cache != nil {
@@ -602,11 +612,15 @@ func makeFilePath(filename string) error {
 	return os.MkdirAll(filepath.Dir(filename), os.ModePerm)
 }
 
-func CreateMerges(vocab map[string]int, mergesData []string) (*Merges, error) {
+func CreateMerges(vocab map[string]int, mergesData []string, continuingSubwordPrefixOpt ...string) (*Merges, error) {
 	var (
 		lineNum int    = 0
 		merges  Merges = make(map[Pair]PairVal)
+		bpe     BPE
 	)
+	if len(continuingSubwordPrefixOpt) > 0 {
+		bpe.ContinuingSubwordPrefix = &continuingSubwordPrefixOpt[0]
+	}
 	for _, line := range mergesData {
 		parts := strings.Split(line, " ")
 		if len(parts) != 2 {
@@ -629,8 +643,7 @@ func CreateMerges(vocab map[string]int, mergesData []string) (*Merges, error) {
 		}
 
 		pair := Pair{a, b}
-		// newToken := fmt.Sprintf("%v%v", parts[0], parts[1])
-		newToken := fmt.Sprintf("%v%v", parts[0], parts[1])
+		newToken := bpe.mergedToken(parts[0], parts[1])
 		newId, ok := vocab[newToken]
 		if !ok {
 			err := fmt.Errorf("Read merges error: key value for token: \"%s\" not found.", newToken)
@@ -657,7 +670,11 @@ func New(
 	continuingSubwordPrefix *string,
 	endOfWordSuffix *string,
 ) (*BPE, error) {
-	merges, err := CreateMerges(vocab, mergesData)
+	var prefixOpt []string
+	if continuingSubwordPrefix != nil {
+		prefixOpt = []string{*continuingSubwordPrefix}
+	}
+	merges, err := CreateMerges(vocab, mergesData, prefixOpt...)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 1eaf65d015715bed830250a66ecdbee0cedca10a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:10 +0000
Subject: [PATCH 56/95] fix: save unigram models in the format they are loaded
 from

---
 model/unigram/unigram.go | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/model/unigram/unigram.go b/model/unigram/unigram.go
index b1e81ad..de56fc4 100644
--- a/model/unigram/unigram.go
+++ b/model/unigram/unigram.go
@@ -220,16 +220,10 @@ func (u *Unigram) Save(dir string, prefixOpt ...string) error {
 	defer vocabFile.Close()
 
 	// Create a serializable representation of the vocabulary
-	type VocabEntry struct {
-		Token string  `json:"token"`
-		Score float64 `json:"score"`
-	}
-	vocabEntries := make([]VocabEntry, len(u.vocab))
+	// Each entry is a pair of token and score, as in the configuration of a tokenizer
+	vocabEntries := make([][]interface{}, len(u.vocab))
 	for i, ts := range u.vocab {
-		vocabEntries[i] = VocabEntry{
-			Token: ts.Token,
-			Score: ts.Score,
-		}
+		vocabEntries[i] = []interface{}{ts.Token, ts.Score}
 	}
 
 	// Create the model config
@@ -238,6 +232,7 @@ func (u *Unigram) Save(dir string, prefixOpt ...string) error {
 		"vocab":         vocabEntries,
 		"unk_id":        u.unkID,
 		"byte_fallback": u.bytesFallback,
+		"fuse_unk":      u.fuseUnk,
 	}
 
 	encoder := json.NewEncoder(vocabFile)
-- 
2.43.0


From 9a9902b09b9b8e33e2627208e057f48458671c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:11 +0000
Subject: [PATCH 57/95] fix: report malformed configuration components as
 errors

---
 pretrained/decoder.go      |  3 ++-
 pretrained/model.go        | 14 ++++++++++++--
 pretrained/normalizer.go   |  5 +++--
 pretrained/pretokenizer.go |  3 ++-
 pretrained/processor.go    |  3 ++-
 pretrained/truncation.go   |  3 ++-
 6 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/pretrained/decoder.go b/pretrained/decoder.go
index afff515..de6a56b 100644
--- a/pretrained/decoder.go
+++ b/pretrained/decoder.go
@@ -22,10 +22,11 @@ import (
 	"github.com/sugarme/tokenizer/util"
 )
 
-func CreateDecoder(config map[string]interface{}) (tokenizer.Decoder, error) {
+func CreateDecoder(config map[string]interface{}) (dec tokenizer.Decoder, err error) {
 	if config == nil {
 		return nil, nil
 	}
+	defer recoverConfig("decoder", &err)
 
 	params := util.NewParams(config)
 	typ := params.Get("type").(string)
diff --git a/pretrained/model.go b/pretrained/model.go
index 3a01e3c..33e204e 100644
--- a/pretrained/model.go
+++ b/pretrained/model.go
@@ -15,10 +15,20 @@ import (
 
 // This file provides functions to create tokenizer.Model from input data.
 
-func CreateModel(config *tokenizer.Config) (tokenizer.Model, error) {
+// recoverConfig turns a panic raised while reading the description of a component
+// (e.g. a required field is missing or a field has an unexpected type) into an error.
+// It should be deferred.
+func recoverConfig(component string, err *error) {
+	if r := recover(); r != nil {
+		*err = fmt.Errorf("invalid %s configuration: %v", component, r)
+	}
+}
+
+func CreateModel(config *tokenizer.Config) (m tokenizer.Model, err error) {
 	if config == nil {
-		return nil, nil
+		return nil, fmt.Errorf("Could not construct tokenizer.Model: no input data")
 	}
+	defer recoverConfig("model", &err)
 
 	params := util.NewParams(config.Model)
 
diff --git a/pretrained/normalizer.go b/pretrained/normalizer.go
index fa6bee3..724b302 100644
--- a/pretrained/normalizer.go
+++ b/pretrained/normalizer.go
@@ -24,11 +24,12 @@ import (
 )
 
 // CreateNormalizer creates Normalizer from config data.
-func CreateNormalizer(config map[string]interface{}) (normalizer.Normalizer, error) {
+func CreateNormalizer(config map[string]interface{}) (n normalizer.Normalizer, err error) {
 	// No Normalizer at all
 	if config == nil {
 		return nil, nil
 	}
+	defer recoverConfig("normalizer", &err)
 
 	params := util.NewParams(config)
 
@@ -173,7 +174,7 @@ func createPrecompiledNormalizer(params *util.Params) (normalizer.Normalizer, er
 
 func createNmtNormalizer(params *util.Params) (normalizer.Normalizer, error) {
 	// TODO
-	panic("NotImplementedError")
+	return nil, fmt.Errorf("Nmt normalizer is not implemented")
 }
 
 func createSequenceNormalizer(params *util.Params) (normalizer.Normalizer, error) {
diff --git a/pretrained/pretokenizer.go b/pretrained/pretokenizer.go
index 87eb7fb..f5fb397 100644
--- a/pretrained/pretokenizer.go
+++ b/pretrained/pretokenizer.go
@@ -23,10 +23,11 @@ import (
 	"github.com/sugarme/tokenizer/util"
 )
 
-func CreatePreTokenizer(config map[string]interface{}) (tokenizer.PreTokenizer, error) {
+func CreatePreTokenizer(config map[string]interface{}) (preTok tokenizer.PreTokenizer, err error) {
 	if config == nil {
 		return nil, nil
 	}
+	defer recoverConfig("pre_tokenizer", &err)
 
 	params := util.NewParams(config)
 	typ := params.Get("type").(string)
diff --git a/pretrained/processor.go b/pretrained/processor.go
index 06feeac..d685e89 100644
--- a/pretrained/processor.go
+++ b/pretrained/processor.go
@@ -16,10 +16,11 @@ import (
 	"github.com/sugarme/tokenizer/util"
 )
 
-func CreatePostProcessor(config map[string]interface{}) (tokenizer.PostProcessor, error) {
+func CreatePostProcessor(config map[string]interface{}) (postProcessor tokenizer.PostProcessor, err error) {
 	if config == nil {
 		return nil, nil
 	}
+	defer recoverConfig("post_processor", &err)
 
 	params := util.NewParams(config)
 
diff --git a/pretrained/truncation.go b/pretrained/truncation.go
index 7a8c63d..7007140 100644
--- a/pretrained/truncation.go
+++ b/pretrained/truncation.go
@@ -5,10 +5,11 @@ import (
 	"github.com/sugarme/tokenizer/util"
 )
 
-func CreateTruncationParams(config map[string]interface{}) (*tokenizer.TruncationParams, error) {
+func CreateTruncationParams(config map[string]interface{}) (truncParams *tokenizer.TruncationParams, err error) {
 	if config == nil {
 		return nil, nil
 	}
+	defer recoverConfig("truncation", &err)
 
 	params := util.NewParams(config)
 	// direction := params.Get("direction").(string)
-- 
2.43.0


From 70b53f22974903388654febf8925cfa289fcc338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:34 +0000
Subject: [PATCH 58/95] fix: honour the Regex pattern of Replace components

---
 pretrained/decoder.go    | 7 +++++--
 pretrained/normalizer.go | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/pretrained/decoder.go b/pretrained/decoder.go
index de6a56b..5712fae 100644
--- a/pretrained/decoder.go
+++ b/pretrained/decoder.go
@@ -168,9 +168,12 @@ func createReplaceDecoder(params *util.Params) (*normalizer.Replace, error) {
 		pattern = pparams.Get("String").(string)
 		patternType = normalizer.String
 
-	case params.Has("Regex"):
+	case pparams.Has("Regex"):
 		pattern = pparams.Get("Regex").(string)
-		patternType = normalizer.String
+		patternType = normalizer.Regex
+
+	default:
+		return nil, fmt.Errorf("Unsupported pattern: %#v\n", patternParams)
 	}
 
 	content := params.Get("content").(string)
diff --git a/pretrained/normalizer.go b/pretrained/normalizer.go
index 724b302..b9bedf6 100644
--- a/pretrained/normalizer.go
+++ b/pretrained/normalizer.go
@@ -111,9 +111,12 @@ func createReplaceNormalizer(params *util.Params) (normalizer.Normalizer, error)
 		pattern = pparams.Get("String").(string)
 		patternType = normalizer.String
 
-	case params.Has("Regex"):
+	case pparams.Has("Regex"):
 		pattern = pparams.Get("Regex").(string)
-		patternType = normalizer.String
+		patternType = normalizer.Regex
+
+	default:
+		return nil, fmt.Errorf("Unsupported pattern: %#v\n", patternParams)
 	}
 
 	content := params.Get("content").(string)
-- 
2.43.0


From 5018f688262c3e652962bd171152c8b610901d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:41 +0000
Subject: [PATCH 59/95] fix: read the String pattern of Split literally

---
 pretrained/pretokenizer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pretrained/pretokenizer.go b/pretrained/pretokenizer.go
index f5fb397..f4e5749 100644
--- a/pretrained/pretokenizer.go
+++ b/pretrained/pretokenizer.go
@@ -189,7 +189,7 @@ func createSplitPreTokenizer(params *util.Params) (tokenizer.PreTokenizer, error
 	if v, ok := patternMap["Regex"]; ok {
 		pattern = normalizer.NewRegexpPattern(v.(string))
 	} else if v, ok := patternMap["String"]; ok {
-		pattern = normalizer.NewRegexpPattern(v.(string))
+		pattern = normalizer.NewStringPattern(v.(string))
 	} else {
 		err := fmt.Errorf("Unsupported pattern: %#v\n", patternMap)
 		return nil, err
-- 
2.43.0


From fd00b7430c8b04fc048fdd902e8e569c13340994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:49 +0000
Subject: [PATCH 60/95] fix: let a null strip_accents follow lowercase

---
 pretrained/normalizer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pretrained/normalizer.go b/pretrained/normalizer.go
index b9bedf6..2465135 100644
--- a/pretrained/normalizer.go
+++ b/pretrained/normalizer.go
@@ -91,8 +91,9 @@ func createBertNormalizer(params *util.Params) (normalizer.Normalizer, error) {
 
 	cleanText := params.Get("clean_text", false).(bool)
 	handleChineseChars := params.Get("handle_chinese_chars", false).(bool)
-	stripAccents := params.Get("strip_accents", false).(bool)
 	lowercase := params.Get("lowercase", false).(bool)
+	// NOTE. when `strip_accents` is absent or null, accents are stripped if lowercasing.
+	stripAccents := params.Get("strip_accents", lowercase).(bool)
 
 	return normalizer.NewBertNormalizer(cleanText, lowercase, handleChineseChars, stripAccents), nil
 }
-- 
2.43.0


From 25a0e1501dbb2ee32df8e7be3fb83a86066e0c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:17 +0000
Subject: [PATCH 61/95] fix: honour prepend_scheme in the Metaspace decoder

---
 pretrained/decoder.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pretrained/decoder.go b/pretrained/decoder.go
index 5712fae..773f9dd 100644
--- a/pretrained/decoder.go
+++ b/pretrained/decoder.go
@@ -83,10 +83,13 @@ func createMetaspaceDecoder(params *util.Params) (*pretokenizer.Metaspace, error
 		return nil, nil
 	}
 
-	replacement := params.Get("replacement", "").(string)
-	addPrefixSpace := params.Get("add_prefix_space", false).(bool)
+	// same options as those of the pre-tokenizer
+	metaspace, err := createMetaspacePreTokenizer(params)
+	if err != nil {
+		return nil, err
+	}
 
-	return pretokenizer.NewMetaspace(replacement, addPrefixSpace), nil
+	return metaspace.(*pretokenizer.Metaspace), nil
 }
 
 func createCTCDecoder(params *util.Params) (*decoder.CTC, error) {
-- 
2.43.0


From 9651bdb84d7cf6d618f30bd07e0a2bb917331540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:24 +0000
Subject: [PATCH 62/95] fix: add configured tokens in their order so that they
 get their ids

---
 pretrained/tokenizer.go | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/pretrained/tokenizer.go b/pretrained/tokenizer.go
index e5769eb..db641a6 100644
--- a/pretrained/tokenizer.go
+++ b/pretrained/tokenizer.go
@@ -72,12 +72,21 @@ func FromReader(r io.Reader) (*tokenizer.Tokenizer, error) {
 	tk.WithDecoder(decoder)
 
 	// 6. AddedVocabulary
-	specialAddedTokens, addedTokens := CreateAddedTokens(config.AddedTokens)
-	if len(specialAddedTokens) > 0 {
-		tk.AddSpecialTokens(specialAddedTokens)
-	}
-	if len(addedTokens) > 0 {
-		tk.AddTokens(addedTokens)
+	// NOTE. ids are given in order of addition, hence tokens are added in their
+	// configured order, special or not.
+	for i := 0; i < len(config.AddedTokens); {
+		j := i + 1
+		for j < len(config.AddedTokens) && config.AddedTokens[j].Special == config.AddedTokens[i].Special {
+			j++
+		}
+		specialAddedTokens, addedTokens := CreateAddedTokens(config.AddedTokens[i:j])
+		if len(specialAddedTokens) > 0 {
+			tk.AddSpecialTokens(specialAddedTokens)
+		}
+		if len(addedTokens) > 0 {
+			tk.AddTokens(addedTokens)
+		}
+		i = j
 	}
 
 	// 7. TruncationParams
-- 
2.43.0


From b94c7856ed0815381f47bcf452a8db104cf1efa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:32 +0000
Subject: [PATCH 63/95] fix: reject unsupported truncation strategies and
 directions

---
 pretrained/truncation.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pretrained/truncation.go b/pretrained/truncation.go
index 7007140..cd0a298 100644
--- a/pretrained/truncation.go
+++ b/pretrained/truncation.go
@@ -1,6 +1,8 @@
 package pretrained
 
 import (
+	"fmt"
+
 	"github.com/sugarme/tokenizer"
 	"github.com/sugarme/tokenizer/util"
 )
@@ -12,7 +14,9 @@ func CreateTruncationParams(config map[string]interface{}) (truncParams *tokeniz
 	defer recoverConfig("truncation", &err)
 
 	params := util.NewParams(config)
-	// direction := params.Get("direction").(string)
+	if direction := params.Get("direction", "Right").(string); direction != "Right" {
+		return nil, fmt.Errorf("Unsupported truncation direction: %q", direction)
+	}
 	maxLen := int(params.Get("max_length").(float64))
 	stride := int(params.Get("stride").(float64))
 	strategyName := params.Get("strategy").(string)
@@ -25,6 +29,8 @@ func CreateTruncationParams(config map[string]interface{}) (truncParams *tokeniz
 		strategy = tokenizer.OnlyFirst
 	case "OnlySecond":
 		strategy = tokenizer.OnlySecond
+	default:
+		return nil, fmt.Errorf("Unsupported truncation strategy: %q", strategyName)
 	}
 
 	return &tokenizer.TruncationParams{
-- 
2.43.0


From 3ce1070d5ced66e2a6ca63ba7ed15ac8bfd43799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:18 +0000
Subject: [PATCH 64/95] fix: reject unsupported padding parameters

---
 pretrained/padding.go | 65 ++++++++++++++++++++++++-------------------
 1 file changed, 37 insertions(+), 28 deletions(-)

diff --git a/pretrained/padding.go b/pretrained/padding.go
index 31193e8..e0eeb5d 100644
--- a/pretrained/padding.go
+++ b/pretrained/padding.go
@@ -1,6 +1,7 @@
 package pretrained
 
 import (
+	"fmt"
 	"reflect"
 
 	"github.com/sugarme/tokenizer"
@@ -22,6 +23,9 @@ func CreatePaddingParams(config map[string]interface{}) (*tokenizer.PaddingParam
 	switch v := strategyValue.(type) {
 	case map[string]interface{}:
 		// Handle object format like {"Fixed": 128}
+		if len(v) != 1 {
+			return nil, fmt.Errorf("Unsupported padding strategy: %#v", v)
+		}
 		for k, val := range v {
 			strategyName = k
 			// Handle different numeric types
@@ -33,11 +37,10 @@ func CreatePaddingParams(config map[string]interface{}) (*tokenizer.PaddingParam
 			default:
 				// Try to convert using reflection
 				valValue := reflect.ValueOf(val)
-				if valValue.Kind() == reflect.Float64 || valValue.Kind() == reflect.Int {
-					strategySize = int(valValue.Int())
-				} else {
-					strategySize = 512 // Default fallback
+				if valValue.Kind() != reflect.Int {
+					return nil, fmt.Errorf("Unsupported padding size: %#v", val)
 				}
+				strategySize = int(valValue.Int())
 			}
 		}
 	case string:
@@ -50,16 +53,20 @@ func CreatePaddingParams(config map[string]interface{}) (*tokenizer.PaddingParam
 				strategySize = int(s)
 			case int:
 				strategySize = s
-			default:
+			case nil:
 				strategySize = 512 // Default fallback
+			default:
+				return nil, fmt.Errorf("Unsupported padding size: %#v", s)
 			}
 		} else {
 			strategySize = 512 // Default size if not specified
 		}
-	default:
-		// Handle unexpected type with a reasonable default
+	case nil:
+		// Handle missing strategy with a reasonable default
 		strategyName = "Fixed"
 		strategySize = 512
+	default:
+		return nil, fmt.Errorf("Unsupported padding strategy: %#v", v)
 	}
 
 	// Create strategy based on name
@@ -71,25 +78,23 @@ func CreatePaddingParams(config map[string]interface{}) (*tokenizer.PaddingParam
 		opt := tokenizer.WithFixed(strategySize)
 		strategy = tokenizer.NewPaddingStrategy(opt)
 	default:
-		// Default to Fixed with size
-		opt := tokenizer.WithFixed(strategySize)
-		strategy = tokenizer.NewPaddingStrategy(opt)
+		return nil, fmt.Errorf("Unsupported padding strategy: %q", strategyName)
 	}
 
 	// Get direction with fallback to Right
 	var direction tokenizer.PaddingDirection
 	directionVal := params.Get("direction")
-	if dirVal, ok := directionVal.(string); ok {
-		switch dirVal {
-		case "left", "Left":
-			direction = tokenizer.Left
-		case "right", "Right", "":
-			direction = tokenizer.Right
-		default:
-			direction = tokenizer.Right
-		}
-	} else {
+	switch directionVal {
+	case "left", "Left":
+		direction = tokenizer.Left
+	case "right", "Right", "", nil:
 		direction = tokenizer.Right // Default
+	default:
+		return nil, fmt.Errorf("Unsupported padding direction: %#v", directionVal)
+	}
+
+	if multiple := params.Get("pad_to_multiple_of"); multiple != nil {
+		return nil, fmt.Errorf("Unsupported padding to a multiple of %v", multiple)
 	}
 
 	// Get other parameters with fallbacks
@@ -97,23 +102,27 @@ func CreatePaddingParams(config map[string]interface{}) (*tokenizer.PaddingParam
 	var token string
 
 	if idVal := params.Get("pad_id"); idVal != nil {
-		if fVal, ok := idVal.(float64); ok {
-			id = int(fVal)
+		fVal, ok := idVal.(float64)
+		if !ok {
+			return nil, fmt.Errorf("Unsupported pad_id: %#v", idVal)
 		}
+		id = int(fVal)
 	}
 
 	if typeIdVal := params.Get("pad_type_id"); typeIdVal != nil {
-		if fVal, ok := typeIdVal.(float64); ok {
-			typeId = int(fVal)
+		fVal, ok := typeIdVal.(float64)
+		if !ok {
+			return nil, fmt.Errorf("Unsupported pad_type_id: %#v", typeIdVal)
 		}
+		typeId = int(fVal)
 	}
 
 	if tokenVal := params.Get("pad_token"); tokenVal != nil {
-		if sVal, ok := tokenVal.(string); ok {
-			token = sVal
-		} else {
-			token = "[PAD]" // Default pad token
+		sVal, ok := tokenVal.(string)
+		if !ok {
+			return nil, fmt.Errorf("Unsupported pad_token: %#v", tokenVal)
 		}
+		token = sVal
 	} else {
 		token = "[PAD]" // Default pad token
 	}
-- 
2.43.0


From f93a87109578ae8a59aa31e01a83f0a398a051da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:10 +0000
Subject: [PATCH 65/95] fix: reject malformed template processors

---
 pretrained/processor.go | 48 ++++++++++++++++++++++++++++++++++++++---
 1 file changed, 45 insertions(+), 3 deletions(-)

diff --git a/pretrained/processor.go b/pretrained/processor.go
index d685e89..78ca541 100644
--- a/pretrained/processor.go
+++ b/pretrained/processor.go
@@ -34,7 +34,7 @@ func CreatePostProcessor(config map[string]interface{}) (postProcessor tokenizer
 	case "ByteLevel":
 		return createByteLevel(params)
 	case "TemplateProcessing": // T5
-		return createTemplateProcessing(params), nil
+		return createTemplateProcessing(params)
 	case "Sequence":
 		return createSequence(params)
 
@@ -136,18 +136,25 @@ func createByteLevel(params *util.Params) (tokenizer.PostProcessor, error) {
     }
   },
 */
-func createTemplateProcessing(params *util.Params) tokenizer.PostProcessor {
+func createTemplateProcessing(params *util.Params) (tokenizer.PostProcessor, error) {
 	var (
 		single        processor.Template
 		pair          processor.Template
 		specialTokens *processor.Tokens
 	)
 
+	if !params.Has("single") || !params.Has("pair") {
+		return nil, fmt.Errorf("Missing 'single' or 'pair' template")
+	}
+
 	// Single
 	if params.Has("single") {
 		singleData := params.Get("single").([]interface{})
 		for _, p := range singleData {
 			ps := util.NewParams(p.(map[string]interface{}))
+			if err := checkTemplatePiece(ps, false); err != nil {
+				return nil, err
+			}
 			if ps.Has("Sequence") {
 				item := ps.Get("Sequence").(map[string]interface{})
 				id := item["id"].(string) // always "A"
@@ -171,6 +178,9 @@ func createTemplateProcessing(params *util.Params) tokenizer.PostProcessor {
 		pairData := params.Get("pair").([]interface{})
 		for _, p := range pairData {
 			ps := util.NewParams(p.(map[string]interface{}))
+			if err := checkTemplatePiece(ps, true); err != nil {
+				return nil, err
+			}
 			if ps.Has("Sequence") {
 				item := ps.Get("Sequence").(map[string]interface{})
 				id := item["id"].(string)
@@ -199,6 +209,9 @@ func createTemplateProcessing(params *util.Params) tokenizer.PostProcessor {
 			ids := util.ConvertSlice[float64, int](util.CastSlice[float64](d["ids"].([]interface{})))
 
 			tokens := util.CastSlice[string](d["tokens"].([]interface{}))
+			if len(ids) != len(tokens) {
+				return nil, fmt.Errorf("Special token %q should have as many ids as tokens", id)
+			}
 			tok := processor.NewSpecialToken(id, ids, tokens)
 			toks = append(toks, *tok)
 		}
@@ -206,7 +219,36 @@ func createTemplateProcessing(params *util.Params) tokenizer.PostProcessor {
 		specialTokens = processor.NewTokensFrom(toks)
 	}
 
-	return processor.NewTemplateProcessing(single, pair, specialTokens)
+	if specialTokens == nil {
+		specialTokens = processor.DefaultTokens()
+	}
+	for _, tpl := range []processor.Template{single, pair} {
+		for _, p := range tpl {
+			if piece, ok := p.(*processor.SpecialTokenPiece); ok {
+				if _, ok := specialTokens.GetItemByKey(piece.Id); !ok {
+					return nil, fmt.Errorf("Missing special token %q of the template", piece.Id)
+				}
+			}
+		}
+	}
+
+	return processor.NewTemplateProcessing(single, pair, specialTokens), nil
+}
+
+// checkTemplatePiece returns an error if input data does not describe exactly one
+// supported piece of template.
+func checkTemplatePiece(ps *util.Params, isPair bool) error {
+	if ps.Has("Sequence") == ps.Has("SpecialToken") {
+		return fmt.Errorf("Unsupported template piece: either 'Sequence' or 'SpecialToken' is expected")
+	}
+	if ps.Has("Sequence") {
+		item := ps.Get("Sequence").(map[string]interface{})
+		if id := item["id"]; id != "A" && (id != "B" || !isPair) {
+			return fmt.Errorf("Unsupported template sequence: %v", id)
+		}
+	}
+
+	return nil
 }
 
 func createSequence(params *util.Params) (tokenizer.PostProcessor, error) {
-- 
2.43.0


From 55e967ebfa15e9ce6e71086eb43bb2c1cb834dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:17 +0000
Subject: [PATCH 66/95] fix: reject malformed merges and delimiters

---
 pretrained/model.go        | 2 ++
 pretrained/pretokenizer.go | 7 +++++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/pretrained/model.go b/pretrained/model.go
index 33e204e..50b72ec 100644
--- a/pretrained/model.go
+++ b/pretrained/model.go
@@ -242,6 +242,8 @@ func castMerge(input []interface{}) ([]string, error) {
 			out[i] = vTyped[0] + " " + vTyped[1]
 		case string:
 			out[i] = vTyped
+		default:
+			return nil, fmt.Errorf("invalid merge format: %#v", v)
 		}
 	}
 
diff --git a/pretrained/pretokenizer.go b/pretrained/pretokenizer.go
index f4e5749..b724aa9 100644
--- a/pretrained/pretokenizer.go
+++ b/pretrained/pretokenizer.go
@@ -78,8 +78,11 @@ func createByteLevelPreTokenizer(params *util.Params) (tokenizer.PreTokenizer, e
 
 func createDelimiterPreTokenizer(params *util.Params) (tokenizer.PreTokenizer, error) {
 	// TODO. verify key `delimiter`
-	delimiter := []rune(params.Get("delimiter").(string))[0]
-	return pretokenizer.NewCharDelimiterSplit(delimiter), nil
+	delimiter := []rune(params.Get("delimiter").(string))
+	if len(delimiter) != 1 {
+		return nil, fmt.Errorf("Unsupported delimiter: %q should be one character", string(delimiter))
+	}
+	return pretokenizer.NewCharDelimiterSplit(delimiter[0]), nil
 }
 
 func createMetaspacePreTokenizer(params *util.Params) (tokenizer.PreTokenizer, error) {
-- 
2.43.0


From 9121a89155018c956b7e94ac4ba813e74f7d808f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:18 +0000
Subject: [PATCH 67/95] fix: accept BatchLongest padding given as an object

---
 pretrained/padding.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pretrained/padding.go b/pretrained/padding.go
index e0eeb5d..15b6811 100644
--- a/pretrained/padding.go
+++ b/pretrained/padding.go
@@ -37,10 +37,11 @@ func CreatePaddingParams(config map[string]interface{}) (*tokenizer.PaddingParam
 			default:
 				// Try to convert using reflection
 				valValue := reflect.ValueOf(val)
-				if valValue.Kind() != reflect.Int {
+				if valValue.Kind() == reflect.Int {
+					strategySize = int(valValue.Int())
+				} else if strategyName != "BatchLongest" { // has no size
 					return nil, fmt.Errorf("Unsupported padding size: %#v", val)
 				}
-				strategySize = int(valValue.Int())
 			}
 		}
 	case string:
-- 
2.43.0


From 2bdb1058dcdeb02be682f1137ee5607c85876614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:21 +0000
Subject: [PATCH 68/95] fix: reject a negative unk_id

---
 model/unigram/unigram.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/model/unigram/unigram.go b/model/unigram/unigram.go
index de56fc4..b6d8c66 100644
--- a/model/unigram/unigram.go
+++ b/model/unigram/unigram.go
@@ -104,7 +104,7 @@ func (ub *UnigramBuilder) Build() (*Unigram, error) {
 
 	// Validate unkID if provided
 	if ub.config.unkID != nil {
-		if *ub.config.unkID >= len(ub.config.vocab) {
+		if *ub.config.unkID < 0 || *ub.config.unkID >= len(ub.config.vocab) {
 			return nil, fmt.Errorf("unkID %d is out of vocabulary range (size: %d)", *ub.config.unkID, len(ub.config.vocab))
 		}
 	}
-- 
2.43.0


From d2f99eb5ee7540e7874e50acbd37c82b184cb2eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:48 +0000
Subject: [PATCH 69/95] fix: cached files appear complete or not at all

---
 file-util.go | 52 ++++++++++++++++++++++++++++++++++++++--------------
 init.go      | 26 ++++++++++----------------
 2 files changed, 48 insertions(+), 30 deletions(-)

diff --git a/file-util.go b/file-util.go
index 350dc9c..e621d3c 100644
--- a/file-util.go
+++ b/file-util.go
@@ -3,7 +3,6 @@ package tokenizer
 import (
 	"fmt"
 	"io"
-	"log"
 	"net/http"
 	"os"
 	"path"
@@ -47,7 +46,9 @@ var (
 func CachedPath(modelNameOrPath, fileName string) (resolvedPath string, err error) {
 
 	if CachedDir == "NOT_SETTING" {
-		initCachePath()
+		if err := initCachePath(); err != nil {
+			return "", fmt.Errorf("CachedPath() failed: %w", err)
+		}
 	}
 
 	// Resolves to "candidate" filename at `CacheDir`
@@ -73,7 +74,8 @@ func CachedPath(modelNameOrPath, fileName string) (resolvedPath string, err erro
 	url := fmt.Sprintf("%s/%s/resolve/main/%s", HFpath, modelNameOrPath, fileName)
 	// url := fmt.Sprintf("%s/%s/raw/main/%s", HFpath, modelNameOrPath, fileName)
 	if isValidURL(url) {
-		if _, err := http.Get(url); err == nil {
+		if resp, err := http.Get(url); err == nil {
+			resp.Body.Close()
 			err := downloadFile(url, cachedFileCandidate)
 			if err != nil {
 				err = fmt.Errorf("CachedPath() failed at trying to download file: %w", err)
@@ -106,18 +108,17 @@ func downloadFile(url string, filepath string) error {
 	// Create path if not existing
 	dir := path.Dir(filepath)
 	filename := path.Base(filepath)
-	if _, err := os.Stat(dir); os.IsNotExist(err) {
-		if err := os.MkdirAll(dir, 0755); err != nil {
-			log.Fatal(err)
-		}
+	if err := os.MkdirAll(dir, 0755); err != nil {
+		return err
 	}
 
 	// Create the file with .tmp extension, so that we won't overwrite a
 	// file until it's downloaded fully
-	out, err := os.Create(filepath + ".tmp")
+	out, err := createTemp(filepath)
 	if err != nil {
 		return err
 	}
+	defer os.Remove(out.Name())
 	defer out.Close()
 
 	// Get the data
@@ -163,12 +164,25 @@ func downloadFile(url string, filepath string) error {
 	fmt.Println()
 
 	// Rename the tmp file back to the original file
-	err = os.Rename(filepath+".tmp", filepath)
-	if err != nil {
+	return commitTemp(out, filepath)
+}
+
+// createTemp creates a temporary file next to the given path. Its name is not used by any
+// other call, so that calls running at the same time do not write to the same file.
+func createTemp(filepath string) (*os.File, error) {
+	return os.CreateTemp(path.Dir(filepath), path.Base(filepath)+".*.tmp")
+}
+
+// commitTemp gives the completely written temporary file its final name.
+func commitTemp(out *os.File, filepath string) error {
+	if err := out.Chmod(0644); err != nil {
+		return err
+	}
+	if err := out.Close(); err != nil {
 		return err
 	}
 
-	return nil
+	return os.Rename(out.Name(), filepath)
 }
 
 // writeCounter counts the number of bytes written to it. By implementing the Write method,
@@ -227,13 +241,23 @@ func copyFile(src, dst string) error {
 	}
 	defer source.Close()
 
-	destination, err := os.Create(dst)
+	if err := os.MkdirAll(path.Dir(dst), 0755); err != nil {
+		return err
+	}
+
+	// the file gets its name when it is complete
+	destination, err := createTemp(dst)
 	if err != nil {
 		return err
 	}
+	defer os.Remove(destination.Name())
 	defer destination.Close()
-	_, err = io.Copy(destination, source)
-	return err
+
+	if _, err = io.Copy(destination, source); err != nil {
+		return err
+	}
+
+	return commitTemp(destination, dst)
 }
 
 // CleanCache removes all files cached in transformer cache directory `CachedDir`.
diff --git a/init.go b/init.go
index b6f49f1..6c86aad 100644
--- a/init.go
+++ b/init.go
@@ -11,25 +11,19 @@ var (
 	tokenizerEnvKey string = "GO_TOKENIZER"
 )
 
-func initCachePath() {
+func initCachePath() error {
 	// default path: {$HOME}/.cache/tokenizer
 	homeDir := os.Getenv("HOME")
-	CachedDir = fmt.Sprintf("%s/.cache/tokenizer", homeDir)
-
-	initEnv()
-
-	log.Printf("INFO: CachedDir=%q\n", CachedDir)
-}
-
-func initEnv() {
-	val := os.Getenv(tokenizerEnvKey)
-	if val != "" {
-		CachedDir = val
+	dir := fmt.Sprintf("%s/.cache/tokenizer", homeDir)
+	if val := os.Getenv(tokenizerEnvKey); val != "" {
+		dir = val
 	}
 
-	if _, err := os.Stat(CachedDir); os.IsNotExist(err) {
-		if err := os.MkdirAll(CachedDir, 0755); err != nil {
-			log.Fatal(err)
-		}
+	if err := os.MkdirAll(dir, 0755); err != nil {
+		return err
 	}
+	CachedDir = dir
+
+	log.Printf("INFO: CachedDir=%q\n", CachedDir)
+	return nil
 }
-- 
2.43.0


From fe070895a087202f48c6bd22649b0b429748e72b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:10 +0000
Subject: [PATCH 70/95] fix: DecodeBatch keeps every result in its place

---
 tokenizer.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/tokenizer.go b/tokenizer.go
index 30075cd..c354529 100644
--- a/tokenizer.go
+++ b/tokenizer.go
@@ -699,7 +699,7 @@ func (t *Tokenizer) EncodeBatch(inputs []EncodeInput, addSpecialTokens bool) (re
 
 // DecodeBatch decodes all sentences in concurrency
 func (t *Tokenizer) DecodeBatch(sentences [][]int, skipSpecialTokens bool) []string {
-	var decodings []string
+	decodings := make([]string, len(sentences))
 	var wg sync.WaitGroup
 
 	wg.Add(len(sentences))
@@ -709,8 +709,7 @@ func (t *Tokenizer) DecodeBatch(sentences [][]int, skipSpecialTokens bool) []str
 		go func(i int) {
 			defer wg.Done()
 
-			s := t.Decode(sentences[i], skipSpecialTokens)
-			decodings = append(decodings, s)
+			decodings[i] = t.Decode(sentences[i], skipSpecialTokens)
 		}(i)
 	}
 
-- 
2.43.0


From 680b961878cbcdc48aa575049bc2bbd77c1fc49e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:34 +0000
Subject: [PATCH 71/95] fix: template without sequences gives an empty encoding

---
 processor/template.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/processor/template.go b/processor/template.go
index 268a1e4..3a074c7 100644
--- a/processor/template.go
+++ b/processor/template.go
@@ -581,6 +581,9 @@ func (tp *TemplateProcessing) Process(encoding, pairEncoding *tokenizer.Encoding
 	}
 
 	appliedEncodings := tp.ApplyTemplate(template, encodings, addSpecialTokens)
+	if len(appliedEncodings) == 0 { // only special tokens, and none wanted
+		return tokenizer.DefaultEncoding()
+	}
 
 	return tokenizer.MergeEncodings(appliedEncodings, false)
 }
-- 
2.43.0


From ade05a7d87778b05b2bef76c299263b5e0677855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:48 +0000
Subject: [PATCH 72/95] fix: template processing hands out copies of its tokens

---
 processor/template.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/processor/template.go b/processor/template.go
index 3a074c7..a1926bc 100644
--- a/processor/template.go
+++ b/processor/template.go
@@ -535,9 +535,9 @@ func (tp *TemplateProcessing) ApplyTemplate(template []Piece, encodings []tokeni
 				}
 				length := len(tok.Ids)
 
-				ids := tok.Ids
+				ids := append([]int{}, tok.Ids...)
 				typeIds := util.Repeat(typeId, length)
-				tokens := tok.Tokens
+				tokens := append([]string{}, tok.Tokens...)
 				offsets := make([][]int, length)
 				for n := range offsets {
 					offsets[n] = []int{0, 0}
-- 
2.43.0


From c4e9480da25db4d9df2d6370afb9a93996694655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:13 +0000
Subject: [PATCH 73/95] fix: GetVocab hands out a copy

---
 added-vocabulary.go          | 3 ++-
 model/bpe/bpe.go             | 3 ++-
 model/unigram/unigram.go     | 3 ++-
 model/wordlevel/wordlevel.go | 3 ++-
 model/wordpiece/wordpiece.go | 3 ++-
 5 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/added-vocabulary.go b/added-vocabulary.go
index b6cc0c8..d01d48a 100644
--- a/added-vocabulary.go
+++ b/added-vocabulary.go
@@ -3,6 +3,7 @@ package tokenizer
 import (
 	"fmt"
 	"log"
+	"maps"
 	"regexp"
 	"strings"
 	"unicode"
@@ -264,7 +265,7 @@ func (av *AddedVocabulary) Len() int {
 
 // GetVocab gets the additional vocabulary
 func (av *AddedVocabulary) GetVocab() (retVal map[string]int) {
-	return av.addedTokenMap
+	return maps.Clone(av.addedTokenMap)
 }
 
 // Get the id matching one of our token if it exists
diff --git a/model/bpe/bpe.go b/model/bpe/bpe.go
index c2d8bc1..f2e0960 100644
--- a/model/bpe/bpe.go
+++ b/model/bpe/bpe.go
@@ -6,6 +6,7 @@ import (
 	"errors"
 	"fmt"
 	"io/ioutil"
+	"maps"
 	"os"
 	"path/filepath"
 	"sort"
@@ -353,7 +354,7 @@ func (b *BPE) ClearCache() {
 // GetVocab returns BPE vocab
 // func (b *BPE) GetVocab() *model.Vocab {
 func (b BPE) GetVocab() map[string]int {
-	return *b.Vocab
+	return maps.Clone(*b.Vocab)
 }
 
 // GetUnkToken returns `unk` token
diff --git a/model/unigram/unigram.go b/model/unigram/unigram.go
index b6d8c66..c8c2c4e 100644
--- a/model/unigram/unigram.go
+++ b/model/unigram/unigram.go
@@ -6,6 +6,7 @@ import (
 	Catch "github.com/patrickmn/go-cache"
 	"github.com/sugarme/tokenizer"
 	"github.com/sugarme/tokenizer/util"
+	"maps"
 	"math"
 	"os"
 	"path/filepath"
@@ -158,7 +159,7 @@ func New(vocab []TokenScore, opts *util.Params) (*Unigram, error) {
 
 // GetVocab returns the vocabulary mapping (token -> ID)
 func (u *Unigram) GetVocab() map[string]int {
-	return u.tokenToIDs
+	return maps.Clone(u.tokenToIDs)
 }
 
 // GetVocabSize returns the size of the vocabulary
diff --git a/model/wordlevel/wordlevel.go b/model/wordlevel/wordlevel.go
index 91369f1..12bf89c 100644
--- a/model/wordlevel/wordlevel.go
+++ b/model/wordlevel/wordlevel.go
@@ -3,6 +3,7 @@ package wordlevel
 import (
 	"bufio"
 	"fmt"
+	"maps"
 	"os"
 	"path/filepath"
 	"sort"
@@ -132,7 +133,7 @@ func NewWordLevel() *WordLevel {
 
 // GetVocab returns model vocab.
 func (wl *WordLevel) GetVocab() (retVal map[string]int) {
-	return wl.vocab
+	return maps.Clone(wl.vocab)
 }
 
 // GetVocabSize returns size of vocab.
diff --git a/model/wordpiece/wordpiece.go b/model/wordpiece/wordpiece.go
index 850bd49..f6d28ba 100644
--- a/model/wordpiece/wordpiece.go
+++ b/model/wordpiece/wordpiece.go
@@ -4,6 +4,7 @@ import (
 	"bufio"
 	"fmt"
 	"log"
+	"maps"
 	"os"
 	"path/filepath"
 	"sort"
@@ -244,7 +245,7 @@ func NewWordPieceFromBPE(bpe bpe.BPE) (retVal WordPiece) {
 // ========================================
 
 func (wp WordPiece) GetVocab() (retVal map[string]int) {
-	return *wp.vocab
+	return maps.Clone(*wp.vocab)
 }
 
 func (wp WordPiece) GetVocabSize() (retVal int) {
-- 
2.43.0


From 20390255c4b56f9f0f01f7695edaa8cd40359a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:19 +0000
Subject: [PATCH 74/95] fix: report a missing training file instead of ending
 the process

---
 tokenizer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tokenizer.go b/tokenizer.go
index c354529..d55e6a2 100644
--- a/tokenizer.go
+++ b/tokenizer.go
@@ -783,7 +783,7 @@ func (t *Tokenizer) Train(trainer Trainer, files []string) error {
 	for _, f := range files {
 		fsize, err := util.FileSize(f)
 		if err != nil {
-			log.Fatal(err)
+			return err
 		}
 		bar := progressbar.New(int(fsize))
 
-- 
2.43.0


From 62630b2c333835b983280239c1ab0e7d196c45d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:58 +0000
Subject: [PATCH 75/95] fix: return errors of reading training files from Train

---
 tokenizer.go | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/tokenizer.go b/tokenizer.go
index d55e6a2..ce21da6 100644
--- a/tokenizer.go
+++ b/tokenizer.go
@@ -780,6 +780,10 @@ func (t *Tokenizer) Train(trainer Trainer, files []string) error {
 
 	scanWG := new(sync.WaitGroup)
 
+	// the first error of the reading goroutines
+	var scanErr error
+	var scanErrOnce sync.Once
+
 	for _, f := range files {
 		fsize, err := util.FileSize(f)
 		if err != nil {
@@ -822,9 +826,14 @@ func (t *Tokenizer) Train(trainer Trainer, files []string) error {
 
 			go func(n int, file string) {
 				// start reading file chunk by chunk
-				current = t.processChunk(current, limit, file, wChan, trainer)
+				defer scanWG.Done()
+				var err error
+				current, err = t.processChunk(current, limit, file, wChan, trainer)
+				if err != nil {
+					scanErrOnce.Do(func() { scanErr = err })
+					return
+				}
 				fmt.Printf("File chunk %d has been completed\n", n)
-				scanWG.Done()
 			}(n, file)
 		}
 	}
@@ -857,6 +866,10 @@ func (t *Tokenizer) Train(trainer Trainer, files []string) error {
 	<-doneChan
 	close(doneChan)
 
+	if scanErr != nil {
+		return scanErr
+	}
+
 	fmt.Printf("Dictionary length: %v words\n", len(dict))
 	// // Print out some samples
 	// var count = 0
@@ -885,10 +898,10 @@ func (t *Tokenizer) Train(trainer Trainer, files []string) error {
 // channel: channel to send proccessed words to.
 // current: cummulative point where the file processing stops.
 // trainer: Trainer to process tokens
-func (t *Tokenizer) processChunk(offset int64, limit int64, filename string, channel chan (map[string]int), trainer Trainer) (current int64) {
+func (t *Tokenizer) processChunk(offset int64, limit int64, filename string, channel chan (map[string]int), trainer Trainer) (current int64, err error) {
 	file, err := os.Open(filename)
 	if err != nil {
-		panic(err)
+		return 0, err
 	}
 	defer file.Close()
 
@@ -923,13 +936,13 @@ func (t *Tokenizer) processChunk(offset int64, limit int64, filename string, cha
 
 		normalized, err := t.doNormalize(line)
 		if err != nil {
-			log.Fatalf("call 'doNormalize' method error: %v\n", err)
+			return cummulativeSize, fmt.Errorf("call 'doNormalize' method error: %w", err)
 		}
 
 		pretok := NewPreTokenizedStringFromNS(normalized)
 		pretokenized, err := t.doPreTokenize(pretok)
 		if err != nil {
-			log.Fatalf("call 'doPreTokenize' method error: %v\n", err)
+			return cummulativeSize, fmt.Errorf("call 'doPreTokenize' method error: %w", err)
 		}
 
 		// NOTE. should we get OffsetType as input parameter: either Byte or Char?
@@ -961,7 +974,7 @@ func (t *Tokenizer) processChunk(offset int64, limit int64, filename string, cha
 
 	}
 
-	return cummulativeSize
+	return cummulativeSize, scanner.Err()
 }
 
 /*
-- 
2.43.0


From b4962ffc671744d780abafe7c6f710ea50cbf9a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:30 +0000
Subject: [PATCH 76/95] fix: read each chunk of a large training file once

---
 tokenizer.go | 45 +++++++++++++++++++++++++--------------------
 1 file changed, 25 insertions(+), 20 deletions(-)

diff --git a/tokenizer.go b/tokenizer.go
index ce21da6..92d66de 100644
--- a/tokenizer.go
+++ b/tokenizer.go
@@ -808,8 +808,6 @@ func (t *Tokenizer) Train(trainer Trainer, files []string) error {
 		currentJob := i
 
 		file := jobs[currentJob].File
-		// current is the counter for bytes of the file.
-		var current int64 = 0
 		var limit int64 = 100 * mb
 
 		fi, err := os.Stat(file)
@@ -827,8 +825,7 @@ func (t *Tokenizer) Train(trainer Trainer, files []string) error {
 			go func(n int, file string) {
 				// start reading file chunk by chunk
 				defer scanWG.Done()
-				var err error
-				current, err = t.processChunk(current, limit, file, wChan, trainer)
+				err := t.processChunk(int64(n-1)*limit, limit, file, wChan, trainer)
 				if err != nil {
 					scanErrOnce.Do(func() { scanErr = err })
 					return
@@ -893,33 +890,41 @@ func (t *Tokenizer) Train(trainer Trainer, files []string) error {
 
 // processChunk reads file chunk and processes it to word-count and sends off to channel
 // offset: start bound
-// limit: end bound
+// limit: size of the chunk. The chunk holds the lines that start in it.
 // filename: file path includes file name
 // channel: channel to send proccessed words to.
-// current: cummulative point where the file processing stops.
 // trainer: Trainer to process tokens
-func (t *Tokenizer) processChunk(offset int64, limit int64, filename string, channel chan (map[string]int), trainer Trainer) (current int64, err error) {
+func (t *Tokenizer) processChunk(offset int64, limit int64, filename string, channel chan (map[string]int), trainer Trainer) error {
 	file, err := os.Open(filename)
 	if err != nil {
-		return 0, err
+		return err
 	}
 	defer file.Close()
 
-	// move the pointer of the file to the start of designated chunk
-	file.Seek(offset, 0) // 0 means relative to the origin of file
+	// move the pointer of the file to the start of designated chunk, or rather
+	// one byte before, as a line that starts earlier belongs to another chunk.
+	pos := max(offset-1, 0)
+	if _, err := file.Seek(pos, 0); err != nil { // 0 means relative to the origin of file
+		return err
+	}
 
 	scanner := bufio.NewScanner(file)
 	buf := make([]byte, 0, 1*gb) // initial buffer
 	scanner.Buffer(buf, 2*gb)    // max buffer size = 2GB
 
-	var cummulativeSize int64
+	// pos follows the start of the next line, including line ends.
+	scanner.Split(func(data []byte, atEOF bool) (int, []byte, error) {
+		advance, token, err := bufio.ScanLines(data, atEOF)
+		pos += int64(advance)
+		return advance, token, err
+	})
 
-	for scanner.Scan() {
-		// Stop if read size has exceed the chunk size
-		cummulativeSize += int64(len(scanner.Bytes()))
-		if cummulativeSize > limit {
-			break
-		}
+	if offset > 0 {
+		scanner.Scan()
+	}
+
+	// Stop at the first line after the chunk
+	for pos < offset+limit && scanner.Scan() {
 
 		// line words
 		lwords := make(map[string]int)
@@ -936,13 +941,13 @@ func (t *Tokenizer) processChunk(offset int64, limit int64, filename string, cha
 
 		normalized, err := t.doNormalize(line)
 		if err != nil {
-			return cummulativeSize, fmt.Errorf("call 'doNormalize' method error: %w", err)
+			return fmt.Errorf("call 'doNormalize' method error: %w", err)
 		}
 
 		pretok := NewPreTokenizedStringFromNS(normalized)
 		pretokenized, err := t.doPreTokenize(pretok)
 		if err != nil {
-			return cummulativeSize, fmt.Errorf("call 'doPreTokenize' method error: %w", err)
+			return fmt.Errorf("call 'doPreTokenize' method error: %w", err)
 		}
 
 		// NOTE. should we get OffsetType as input parameter: either Byte or Char?
@@ -974,7 +979,7 @@ func (t *Tokenizer) processChunk(offset int64, limit int64, filename string, cha
 
 	}
 
-	return cummulativeSize, scanner.Err()
+	return scanner.Err()
 }
 
 /*
-- 
2.43.0


From bbbc1711f2180f1dd263fb95cdf67ee2d571796b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:34 +0000
Subject: [PATCH 77/95] verif: settable chunk size of training files

---
 tokenizer.go         | 2 +-
 train_chunk.go       | 6 ++++++
 train_chunk_verif.go | 9 +++++++++
 3 files changed, 16 insertions(+), 1 deletion(-)
 create mode 100644 train_chunk.go
 create mode 100644 train_chunk_verif.go

diff --git a/tokenizer.go b/tokenizer.go
index 92d66de..8e07b5a 100644
--- a/tokenizer.go
+++ b/tokenizer.go
@@ -808,7 +808,7 @@ func (t *Tokenizer) Train(trainer Trainer, files []string) error {
 		currentJob := i
 
 		file := jobs[currentJob].File
-		var limit int64 = 100 * mb
+		var limit int64 = trainChunkSize
 
 		fi, err := os.Stat(file)
 		if err != nil {
diff --git a/train_chunk.go b/train_chunk.go
new file mode 100644
index 0000000..b625299
--- /dev/null
+++ b/train_chunk.go
@@ -0,0 +1,6 @@
+//go:build !verif
+
+package tokenizer
+
+// trainChunkSize is how many bytes of a training file one goroutine reads.
+const trainChunkSize int64 = 100 * mb
diff --git a/train_chunk_verif.go b/train_chunk_verif.go
new file mode 100644
index 0000000..1bac853
--- /dev/null
+++ b/train_chunk_verif.go
@@ -0,0 +1,9 @@
+//go:build verif
+
+package tokenizer
+
+// trainChunkSize is how many bytes of a training file one goroutine reads.
+var trainChunkSize int64 = 100 * mb
+
+// SetTrainChunkSize lets a model checker cut small files into chunks.
+func SetTrainChunkSize(n int64) { trainChunkSize = n }
-- 
2.43.0


From 7063416cf94fed3f29801d680034c1e062012f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:30 +0000
Subject: [PATCH 78/95] fix: keep special tokens in the trained BPE vocabulary

---
 model/bpe/trainer.go | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/model/bpe/trainer.go b/model/bpe/trainer.go
index dc93a00..6954bcd 100644
--- a/model/bpe/trainer.go
+++ b/model/bpe/trainer.go
@@ -187,23 +187,21 @@ func (bt *BpeTrainer) updateProgress(p interface{}, len int, msg string) {
 }
 
 // addSpecialTokens adds the provided special tokens to the initial vocabulary
-func (bt *BpeTrainer) addSpecialTokens(w2id map[string]int, id2w []string) {
+func (bt *BpeTrainer) addSpecialTokens(w2id map[string]int, id2w []string) []string {
 	for _, tok := range bt.SpecialTokens {
 		if _, ok := w2id[tok.Content]; !ok {
 			id2w = append(id2w, tok.Content)
 			w2id[tok.Content] = len(id2w) - 1
 		}
 	}
+
+	return id2w
 }
 
-// computeAlphabet generate maps of `chars` from input words and limit it if relevant
-func (bt *BpeTrainer) computeAlphabet(wc map[string]int) (wordToId map[string]int, IdToWord []string) {
+// computeAlphabet adds `chars` from input words to the maps and limit them if relevant
+func (bt *BpeTrainer) computeAlphabet(wc map[string]int, w2id map[string]int, id2w []string) (wordToId map[string]int, IdToWord []string) {
 	// compute the alphabet from seen words
-	var (
-		alphabet map[string]int = make(map[string]int)
-		w2id     map[string]int = make(map[string]int)
-		id2w     []string
-	)
+	var alphabet map[string]int = make(map[string]int)
 
 	for word, count := range wc {
 		chars := strings.Split(word, "")
@@ -612,13 +610,13 @@ func (bt *BpeTrainer) train(wordCounts map[string]int) (BPE, []tokenizer.AddedTo
 
 	// 1. Add all special tokens to the vocabular
 	fmt.Printf("1. Adding special tokens...\n")
-	bt.addSpecialTokens(wordToId, idToWord)
+	idToWord = bt.addSpecialTokens(wordToId, idToWord)
 
 	// 2. Compute the initial alphabet (create maps of `chars`)
 	// These maps will be updated if `prefix`, `suffix` are added
 	// in the following steps
 	fmt.Printf("2. Creating maps of 'chars'...\n")
-	wordToId, idToWord = bt.computeAlphabet(wordCounts)
+	wordToId, idToWord = bt.computeAlphabet(wordCounts, wordToId, idToWord)
 	// fmt.Printf("Before id2Word: length %v - values:  %v\n", len(idToWord), idToWord)
 	// fmt.Printf("Before word2Id: length %v - %v\n", len(wordToId), wordToId)
 
-- 
2.43.0


From f4c185577f4bd3c837e8e081aaa5e94d7a8b9d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:43 +0000
Subject: [PATCH 79/95] fix: limit the alphabet of a BPE trainer to its most
 frequent characters

---
 model/bpe/trainer.go | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/model/bpe/trainer.go b/model/bpe/trainer.go
index 6954bcd..fc8174a 100644
--- a/model/bpe/trainer.go
+++ b/model/bpe/trainer.go
@@ -206,13 +206,7 @@ func (bt *BpeTrainer) computeAlphabet(wc map[string]int, w2id map[string]int, id
 	for word, count := range wc {
 		chars := strings.Split(word, "")
 		for _, char := range chars {
-			// if char not existing, newCount will be zero
-			if newCount, ok := alphabet[char]; ok {
-				newCount += count
-				alphabet[char] = newCount
-			} else {
-				alphabet[char] = newCount
-			}
+			alphabet[char] += count
 		}
 	}
 
@@ -242,7 +236,6 @@ func (bt *BpeTrainer) computeAlphabet(wc map[string]int, w2id map[string]int, id
 	// compute the number of chars to remove from the alphabet
 	// if `limitAlphabet` < `len(initialAlphabet)` some of these
 	// initial characters will be removed.
-	// TODO: how we sort these characters before cutting off?
 	var toRemove int = 0
 	var limit int
 	if bt.LimitAlphabet != nil {
@@ -255,13 +248,12 @@ func (bt *BpeTrainer) computeAlphabet(wc map[string]int, w2id map[string]int, id
 	// remove the unwanted `chars`
 	if toRemove > 0 {
 		fmt.Println("We are going to remove some chars...")
-		// 1. Sort `kept` by char alphabetically?
-		// TODO: double-check this (sort by char or freq? asc or desc)
-		sort.Slice(kept, func(i, j int) bool {
-			return kept[i].Char < kept[j].Char
+		// 1. Sort `kept` by frequency, the chars to remove first
+		sort.SliceStable(kept, func(i, j int) bool {
+			return kept[i].Freq < kept[j].Freq
 		})
 		// 2. Remove the unwanted chars
-		kept = kept[:toRemove]
+		kept = kept[toRemove:]
 	}
 
 	// // Keep the initial alphabet (sorted by determinism)
-- 
2.43.0


From fd753b9dd0672fc49ccf4487ed0122053e89d8d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:56 +0000
Subject: [PATCH 80/95] fix: add subword prefix and word suffix as tokenizing
 does

---
 model/bpe/trainer.go | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/model/bpe/trainer.go b/model/bpe/trainer.go
index fc8174a..d78adbe 100644
--- a/model/bpe/trainer.go
+++ b/model/bpe/trainer.go
@@ -310,23 +310,17 @@ func (bt *BpeTrainer) tokenizeWords(wc map[string]int, w2id map[string]int, id2w
 		for i, c := range chars {
 			var s string
 			if _, ok := w2id[c]; ok {
+				s = c
 				// Add the `continuingSubwordPrefix` if relevant
-				if i == 0 { // first `char`
+				if i > 0 { // not the first `char`
 					if prefix := bt.ContinuingSubwordPrefix; prefix != nil {
-						s = fmt.Sprintf("%v%v", &prefix, c)
-					} else {
-						s = c
+						s = fmt.Sprintf("%v%v", *prefix, s)
 					}
 				}
-				if i > 0 && i < len(chars)-1 {
-					s = c
-				}
 				// Add the `endOfWordSuffix` if relevant
 				if i == len(chars)-1 { // last `char`
 					if suffix := bt.EndOfWordSuffix; suffix != nil {
-						s = fmt.Sprintf("%v%v", &suffix, c)
-					} else {
-						s = c
+						s = fmt.Sprintf("%v%v", s, *suffix)
 					}
 				}
 
-- 
2.43.0


From cbb8e1e40157c621f66ce3b233c7d2fc5bf0f6ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:06 +0000
Subject: [PATCH 81/95] fix: count the pairs of all words in a BPE trainer

---
 model/bpe/trainer.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/model/bpe/trainer.go b/model/bpe/trainer.go
index d78adbe..3ae2789 100644
--- a/model/bpe/trainer.go
+++ b/model/bpe/trainer.go
@@ -411,7 +411,7 @@ func (bt *BpeTrainer) countPairs(words []Word, counts []int, progress interface{
 
 				// fmt.Printf("Word: %v\n", word)
 				var window = 2
-				for x := 0; i < len(word.Symbols)-1; x += window - 1 {
+				for x := 0; x < len(word.Symbols)-1; x += window - 1 {
 					y := x + window
 					if y > len(word.Symbols) {
 						// TODO: should we stop when last chunk < chunk size or we just return it
@@ -473,7 +473,14 @@ func (bt *BpeTrainer) countPairs(words []Word, counts []int, progress interface{
 			}
 
 			for pair, hashSet := range res.WT {
-				whereToUpdate[pair] = hashSet
+				// each worker has words of its own
+				if hs, ok := whereToUpdate[pair]; ok {
+					for k := range hashSet {
+						hs[k] = struct{}{}
+					}
+				} else {
+					whereToUpdate[pair] = hashSet
+				}
 			}
 		}
 
-- 
2.43.0


From ce07d1d471a45b9d6dea6670a787c57a6dac76da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:16 +0000
Subject: [PATCH 82/95] fix: choose merges of a BPE trainer by the current pair
 counts

---
 model/bpe/trainer.go | 67 +++++++++++---------------------------------
 model/bpe/word.go    |  2 +-
 2 files changed, 18 insertions(+), 51 deletions(-)

diff --git a/model/bpe/trainer.go b/model/bpe/trainer.go
index 3ae2789..a6dff0c 100644
--- a/model/bpe/trainer.go
+++ b/model/bpe/trainer.go
@@ -719,9 +719,9 @@ func (bt *BpeTrainer) train(wordCounts map[string]int) (BPE, []tokenizer.AddedTo
 		// fmt.Printf("Top: count = %v | pair: %v\n", top.Count, top.Pair)
 
 		if top.Count != pairCounts[top.Pair] {
-			pairCounts[top.Pair] = top.Count
+			// the count has changed since the pair was queued
+			top.Count = pairCounts[top.Pair]
 			queue.Push(top)
-			// fmt.Println("Not found. Push new one...")
 
 			continue
 		}
@@ -731,26 +731,6 @@ func (bt *BpeTrainer) train(wordCounts map[string]int) (BPE, []tokenizer.AddedTo
 			break
 		}
 
-		// If `pair` is no longer mapped in its origin word, skip merging
-		var skip bool = true
-		for p, _ := range top.Pos {
-			w := words[p]
-			c1 := top.Pair.C1
-			c2 := top.Pair.C2
-
-			for i := 0; i < len(w.Symbols); i++ {
-				// found it
-				if w.Symbols[i].C == c1 && (i+1) < len(w.Symbols) && w.Symbols[i+1].C == c2 {
-					skip = false
-				}
-			}
-		}
-
-		if skip {
-			// fmt.Println("Skipped because `pair` is no longer mapped in its origin word!")
-			continue
-		}
-
 		partA := idToWord[top.Pair.C1]
 		partB := idToWord[top.Pair.C2]
 
@@ -777,7 +757,7 @@ func (bt *BpeTrainer) train(wordCounts map[string]int) (BPE, []tokenizer.AddedTo
 		}
 		var changes []TChange
 		// Merge the new pair in word(s) that contains the current pair
-		for i, _ := range top.Pos {
+		for i, _ := range whereToUpdate[top.Pair] {
 			// NOTE: words []Word
 			// TODO: merge each of these words concurrently
 			w := words[i]
@@ -793,48 +773,35 @@ func (bt *BpeTrainer) train(wordCounts map[string]int) (BPE, []tokenizer.AddedTo
 		}
 
 		// Introduce new formed pairs
-		// NOTE: reset `whereToUpdate` first
-		whereToUpdate = make(map[Pair]UintSet)
+		var formed map[Pair]struct{} = make(map[Pair]struct{})
 		for _, tc := range changes {
-			if tc.WChange.Change > 0 {
-				count := tc.WChange.Change * counts[tc.WIndex]
-
-				pair := Pair{tc.WChange.C1, tc.WChange.C2}
+			pair := Pair{tc.WChange.C1, tc.WChange.C2}
+			pairCounts[pair] += tc.WChange.Change * counts[tc.WIndex]
 
-				if _, ok := pairCounts[pair]; !ok {
-					pairCounts[pair] = count
-					// fmt.Printf("pair: %v - count: %v\n", pair, count)
-				} else {
-					c, _ := pairCounts[pair]
-					c += count
-					pairCounts[pair] = c
-					// fmt.Printf("pair: %v - count: %v\n", pair, c)
-				}
-
-				var hs UintSet = make(map[int]struct{})
-				if h, ok := whereToUpdate[pair]; !ok {
-					// if not existing, we create new one anyway
-					hs[tc.WIndex] = struct{}{}
-					whereToUpdate[pair] = hs
-				} else {
-					// Existing, append one
-					h[tc.WIndex] = struct{}{}
-					whereToUpdate[pair] = h
+			if tc.WChange.Change > 0 {
+				if _, ok := whereToUpdate[pair]; !ok {
+					whereToUpdate[pair] = make(map[int]struct{})
 				}
+				whereToUpdate[pair][tc.WIndex] = struct{}{}
+				formed[pair] = struct{}{}
 			}
 		}
 
+		// The merged pair is gone from all words
+		delete(pairCounts, top.Pair)
+		delete(whereToUpdate, top.Pair)
+
 		// fmt.Printf("length of whereToUpdate: %v\n", len(whereToUpdate))
 		// fmt.Println(whereToUpdate)
 
-		for pair, pos := range whereToUpdate {
+		for pair := range formed {
 			count := pairCounts[pair]
 			// char1 := idToWord[pair.C1]
 			// char2 := idToWord[pair.C2]
 			// fmt.Printf("pair chars: '%v%v' - pair: %v - count: %v - pos: %v\n", char1, char2, pair, count, pos)
 			if count > 0 {
 				queue.Push(TMerge{
-					pair, count, pos, time.Now(),
+					pair, count, whereToUpdate[pair], time.Now(),
 				})
 			}
 		}
diff --git a/model/bpe/word.go b/model/bpe/word.go
index c4e4287..142c854 100644
--- a/model/bpe/word.go
+++ b/model/bpe/word.go
@@ -227,7 +227,7 @@ func (w *Word) Merge(c1, c2, replacement int) ([]WChange, error) {
 			}
 
 			// If there are other `chars` after the pair
-			if i > 0 && i < len(w.Symbols)-1 {
+			if i < len(w.Symbols)-1 {
 				// fmt.Println("Yes, there some char after the pair")
 				changes = append(changes, WChange{
 					C1:     second.C,
-- 
2.43.0


From 32986fad7356be4e35484ce3ea1c5e5d52c37bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:29 +0000
Subject: [PATCH 83/95] fix: break ties of a BPE trainer the same way on every
 run

---
 model/bpe/trainer.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/model/bpe/trainer.go b/model/bpe/trainer.go
index a6dff0c..969d6e1 100644
--- a/model/bpe/trainer.go
+++ b/model/bpe/trainer.go
@@ -643,16 +643,20 @@ func (bt *BpeTrainer) train(wordCounts map[string]int) (BPE, []tokenizer.AddedTo
 	// 5. Do merges
 	fmt.Printf("5. Merging pairs from top count down...\n")
 
-	// countComparator sort heap descendingly by `Count` field of TMerge struct
+	// countComparator sort heap descendingly by `Count` field of TMerge struct.
+	// Pairs with the same count are sorted by their ids, the same way on every run.
 	countComparator := func(a, b interface{}) int {
 		c1 := a.(TMerge).Count
 		c2 := b.(TMerge).Count
 
 		if c1 == c2 {
-			aTime := a.(TMerge).Time
-			bTime := b.(TMerge).Time
+			aPair := a.(TMerge).Pair
+			bPair := b.(TMerge).Pair
+			if aPair.C1 != bPair.C1 {
+				return utils.IntComparator(aPair.C1, bPair.C1)
+			}
 
-			return utils.TimeComparator(bTime, aTime)
+			return utils.IntComparator(aPair.C2, bPair.C2)
 		}
 
 		return utils.IntComparator(c2, c1)
-- 
2.43.0


From e115e9a1077f0709d9b7d321b3c0874027f1a6e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:43 +0000
Subject: [PATCH 84/95] fix: give a trained BPE token one id

---
 model/bpe/trainer.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/model/bpe/trainer.go b/model/bpe/trainer.go
index 969d6e1..4a5645e 100644
--- a/model/bpe/trainer.go
+++ b/model/bpe/trainer.go
@@ -689,6 +689,7 @@ func (bt *BpeTrainer) train(wordCounts map[string]int) (BPE, []tokenizer.AddedTo
 	}
 
 	var merges []TMerges
+	var merged map[Pair]struct{} = make(map[Pair]struct{})
 
 	// fmt.Printf("Word2ID before merge loop: %v\n", wordToId)
 
@@ -749,11 +750,17 @@ func (bt *BpeTrainer) train(wordCounts map[string]int) (BPE, []tokenizer.AddedTo
 		newToken := fmt.Sprintf("%v%v", partA, partB)
 		// fmt.Printf("new token: %v\n", newToken)
 
-		// Insert new token
-		newTokenId := len(idToWord)
-		idToWord = append(idToWord, newToken)
-		wordToId[newToken] = newTokenId
-		merges = append(merges, TMerges{top.Pair, newTokenId})
+		// Insert new token, unless other parts have made the same one before
+		newTokenId, ok := wordToId[newToken]
+		if !ok {
+			newTokenId = len(idToWord)
+			idToWord = append(idToWord, newToken)
+			wordToId[newToken] = newTokenId
+		}
+		if _, ok := merged[top.Pair]; !ok {
+			merged[top.Pair] = struct{}{}
+			merges = append(merges, TMerges{top.Pair, newTokenId})
+		}
 
 		type TChange struct {
 			WChange WChange
-- 
2.43.0


From 238214c85260a8d308e974ffc7743b4cfcf48c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:31 +0000
Subject: [PATCH 85/95] fix: make the WordPiece trainer a tokenizer.Trainer

---
 model/wordpiece/trainer.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/model/wordpiece/trainer.go b/model/wordpiece/trainer.go
index 8e0f4a2..0ce815d 100644
--- a/model/wordpiece/trainer.go
+++ b/model/wordpiece/trainer.go
@@ -98,11 +98,11 @@ func (wpt WordPieceTrainer) Builder() (retVal WordPieceTrainerBuilder) {
 // Implement Trainer interface for WordPieceTrainer:
 // =================================================
 
-func (wpt WordPieceTrainer) Train(wordCounts map[string]int) (retVal tokenizer.Model) {
+func (wpt WordPieceTrainer) Train(wordCounts map[string]int) (retVal tokenizer.Model, specialTokens []tokenizer.AddedToken) {
 
-	bpeModel, _ := wpt.bpeTrainer.Train(wordCounts)
+	bpeModel, specialTokens := wpt.bpeTrainer.Train(wordCounts)
 
-	return NewWordPieceFromBPE(bpeModel.(bpe.BPE))
+	return NewWordPieceFromBPE(bpeModel.(bpe.BPE)), specialTokens
 }
 
 func (wpt WordPieceTrainer) ProcessTokens(words map[string]int, tokens []string) {
-- 
2.43.0


From 0d403cbac3252a4f06ce2b95e94fb43e5a99dd79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:03 +0000
Subject: [PATCH 86/95] fix: keep the initial alphabet of a BPE trainer
 whatever the counts

---
 model/bpe/trainer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/model/bpe/trainer.go b/model/bpe/trainer.go
index 4a5645e..0c03756 100644
--- a/model/bpe/trainer.go
+++ b/model/bpe/trainer.go
@@ -213,8 +213,8 @@ func (bt *BpeTrainer) computeAlphabet(wc map[string]int, w2id map[string]int, id
 	// Also, include anything from the provided intial alphabet
 	// NOTE: InitialAlphabet is CharSet which is map[string]struct{}
 	for initChar, _ := range bt.InitialAlphabet {
-		// asign a uint max as frequency
-		alphabet[initChar] = math.MaxUint32
+		// asign an int max as frequency
+		alphabet[initChar] = math.MaxInt
 	}
 
 	type keptItem struct {
-- 
2.43.0


From 265e2fb0a50dad3910ea50b8d237b9725af0cac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:58 +0000
Subject: [PATCH 87/95] fix: give encodings built from tokens the requested
 type id

---
 encoding.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/encoding.go b/encoding.go
index 07b0dff..745b3d9 100644
--- a/encoding.go
+++ b/encoding.go
@@ -114,7 +114,7 @@ func NewEncodingFromTokens(tokens []Token, typeId int) (retVal *Encoding) {
 		toks = append(toks, t.Value)
 	}
 
-	typeIds := make([]int, len(tokens))
+	typeIds := util.Repeat(typeId, len(tokens))
 	// words := make([]int, len(tokens))
 	var words []int
 	specialTokenMask := util.Repeat(0, len(tokens))
-- 
2.43.0


From f274e7a458889eda85695d1c0e938327ef2f541e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:07 +0000
Subject: [PATCH 88/95] fix: read model files with tokens of any length

---
 model/bpe/bpe.go             | 2 ++
 model/wordlevel/wordlevel.go | 2 ++
 model/wordpiece/wordpiece.go | 3 +++
 3 files changed, 7 insertions(+)

diff --git a/model/bpe/bpe.go b/model/bpe/bpe.go
index f2e0960..f4a7ed0 100644
--- a/model/bpe/bpe.go
+++ b/model/bpe/bpe.go
@@ -13,6 +13,7 @@ import (
 
 	// "strconv"
 	"log"
+	"math"
 	"strings"
 
 	"github.com/sugarme/tokenizer"
@@ -269,6 +270,7 @@ func (b *BPE) ReadFiles(vocabF string, mergesF string) (*model.Vocab, *Merges, e
 	defer mFile.Close()
 
 	s := bufio.NewScanner(mFile)
+	s.Buffer(nil, math.MaxInt) // tokens can be of any length
 
 	// `s.Scan()` advance scaning and return `false` if
 	// end of file or hit any error. The error will be
diff --git a/model/wordlevel/wordlevel.go b/model/wordlevel/wordlevel.go
index 12bf89c..bf10872 100644
--- a/model/wordlevel/wordlevel.go
+++ b/model/wordlevel/wordlevel.go
@@ -4,6 +4,7 @@ import (
 	"bufio"
 	"fmt"
 	"maps"
+	"math"
 	"os"
 	"path/filepath"
 	"sort"
@@ -95,6 +96,7 @@ func NewWorldLevelFromFile(vocabFile string, unkToken string) (*WordLevel, error
 	)
 
 	scanner := bufio.NewScanner(file)
+	scanner.Buffer(nil, math.MaxInt) // tokens can be of any length
 	for scanner.Scan() {
 		line = scanner.Text()
 		vocab[line] = idx
diff --git a/model/wordpiece/wordpiece.go b/model/wordpiece/wordpiece.go
index f6d28ba..fd865ca 100644
--- a/model/wordpiece/wordpiece.go
+++ b/model/wordpiece/wordpiece.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"log"
 	"maps"
+	"math"
 	"os"
 	"path/filepath"
 	"sort"
@@ -159,6 +160,7 @@ func (wp WordPiece) ReadFiles(filename string) (retVal model.Vocab) {
 	vocab := make(model.Vocab)
 
 	scanner := bufio.NewScanner(file)
+	scanner.Buffer(nil, math.MaxInt) // tokens can be of any length
 	for scanner.Scan() {
 		line = scanner.Text()
 		vocab[line] = idx
@@ -201,6 +203,7 @@ func NewWordPieceFromFile(vocabFile string, unkToken string, maxInputCharsPerWor
 	)
 
 	scanner := bufio.NewScanner(file)
+	scanner.Buffer(nil, math.MaxInt) // tokens can be of any length
 	for scanner.Scan() {
 		line = scanner.Text()
 		vocab[line] = idx
-- 
2.43.0


From 304fe854c3a3123c1d924d1e18637a840f0d0521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:20 +0000
Subject: [PATCH 89/95] fix: byte and character ranges are converted by the
 positions of the characters

---
 normalizer/normalized.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/normalizer/normalized.go b/normalizer/normalized.go
index 71b6845..8e14a6b 100644
--- a/normalizer/normalized.go
+++ b/normalizer/normalized.go
@@ -1238,7 +1238,7 @@ func BytesToChar(s string, byteRange []int) (retVal []int) {
 
 	var selectedChars []byteIdxRune
 	var currRuneIdx int = 0
-	for i, char := range []rune(s) {
+	for i, char := range s {
 		if i >= byteRange[0] && i <= byteRange[1] {
 			selectedChars = append(selectedChars, byteIdxRune{
 				byteIdx: i,
@@ -1279,7 +1279,7 @@ func CharToBytes(s string, charRange []int) (retVal []int) {
 
 	var chars []byteIdxRune
 	var currRuneIdx int = 0
-	for i, char := range []rune(s) {
+	for i, char := range s {
 		chars = append(chars, byteIdxRune{
 			byteIdx: i,
 			runeIdx: currRuneIdx,
@@ -1291,14 +1291,14 @@ func CharToBytes(s string, charRange []int) (retVal []int) {
 	if charRange[0] == charRange[1] {
 		for i := range chars {
 			if i == charRange[0] {
-				start = chars[i+1].byteIdx
-				end = chars[i+1].byteIdx
+				start = chars[i].byteIdx
+				end = chars[i].byteIdx
 			}
 		}
 	} else {
 		var selected []byteIdxRune
 		for _, c := range chars {
-			if c.byteIdx > charRange[0] && c.byteIdx <= charRange[1] {
+			if c.runeIdx >= charRange[0] && c.runeIdx < charRange[1] {
 				selected = append(selected, c)
 			}
 		}
-- 
2.43.0


From 4482486bf5ac1cfc11e5115a571d237062294bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:22 +0000
Subject: [PATCH 90/95] fix: an array is no nil value

---
 util/param.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/param.go b/util/param.go
index 0954ee0..af949ec 100644
--- a/util/param.go
+++ b/util/param.go
@@ -208,7 +208,7 @@ func IsNil(i interface{}) bool {
 	}
 
 	switch reflect.ValueOf(i).Kind() {
-	case reflect.Ptr, reflect.Map, reflect.Array, reflect.Chan, reflect.Slice:
+	case reflect.Ptr, reflect.Map, reflect.Chan, reflect.Slice:
 		return reflect.ValueOf(i).IsNil()
 	}
 
-- 
2.43.0


From d68c2465f51c669ec1fe9b1ed8cbe40fb0a38162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:24 +0000
Subject: [PATCH 91/95] fix: MakeRange counts up, ReadAllLn returns every line
 once

---
 util/util.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/util/util.go b/util/util.go
index c03c077..2090bd3 100644
--- a/util/util.go
+++ b/util/util.go
@@ -35,7 +35,7 @@ func MakeRange(start, end int) []int {
 		return []int{}
 	} else {
 		for i := start; i < end; i++ {
-			r = append(r, start)
+			r = append(r, i)
 		}
 	}
 
@@ -140,7 +140,7 @@ func ReadAllLn(filepath string, keepBreakLine bool) ([]string, error) {
 	for scanner.Scan() {
 		l := scanner.Text()
 		if keepBreakLine {
-			lines = append(lines, fmt.Sprintf("%v\n", l))
+			l = fmt.Sprintf("%v\n", l)
 		}
 		lines = append(lines, l)
 	}
-- 
2.43.0


From fa4afebf6bed50021c681d5cd37dde5521bfdbe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:25 +0000
Subject: [PATCH 92/95] fix: slice helpers answer positions and sizes out of
 bounds with an error

---
 util/slice/int.go    | 12 ++++++++----
 util/slice/string.go |  8 ++++++--
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/util/slice/int.go b/util/slice/int.go
index fcdb8e1..20c8e18 100644
--- a/util/slice/int.go
+++ b/util/slice/int.go
@@ -20,12 +20,12 @@ func CopyInt(a []int) []int {
 // to end (exclusive in remve slice) from original slice
 func CutInt(a []int, start int, end int) ([]int, error) {
 	var err error
-	if start < -1 || start > len(a) {
+	if start < 0 || start > len(a) {
 		err = errors.New("`start` is out of bound")
 		return nil, err
 	}
 
-	if end < -1 || end > len(a) {
+	if end < 0 || end > len(a) {
 		err = errors.New("`end` is out of bound")
 		return nil, err
 	}
@@ -41,7 +41,7 @@ func CutInt(a []int, start int, end int) ([]int, error) {
 // DeleteInt deletes an string item at specified index and preserves order
 func DeleteInt(a []int, i int) ([]int, error) {
 	var err error
-	if i < 0 || i > len(a) {
+	if i < 0 || i >= len(a) {
 		err = errors.New("`i` index is out of bound.")
 		return nil, err
 	}
@@ -190,7 +190,7 @@ func ShuffleInt(a []int) []int {
 // BatchInt slits a slice to batches (slice of slices)
 func BatchInt(a []int, size int) ([][]int, error) {
 	var err error
-	if size < 0 {
+	if size <= 0 {
 		err = errors.New("Batch size should be greater than zero")
 		return nil, err
 	}
@@ -207,6 +207,10 @@ func BatchInt(a []int, size int) ([][]int, error) {
 
 // DeduplicateInt de-duplicates a slice in place
 func DeduplicateInt(a []int) []int {
+	if len(a) == 0 {
+		return a
+	}
+
 	sort.Ints(a)
 	j := 0
 	for i := 1; i < len(a); i++ {
diff --git a/util/slice/string.go b/util/slice/string.go
index 9884607..b9fdf74 100644
--- a/util/slice/string.go
+++ b/util/slice/string.go
@@ -41,7 +41,7 @@ func CutStr(a []string, start int, end int) ([]string, error) {
 // DeleteStr deletes an string item at specified index and preserves order
 func DeleteStr(a []string, i int) ([]string, error) {
 	var err error
-	if i < 0 || i > len(a) {
+	if i < 0 || i >= len(a) {
 		err = errors.New("`i` index is out of bound.")
 		return nil, err
 	}
@@ -190,7 +190,7 @@ func ShuffleStr(a []string) []string {
 // BatchStr slits a slice to batches (slice of slices)
 func BatchStr(a []string, size int) ([][]string, error) {
 	var err error
-	if size < 0 {
+	if size <= 0 {
 		err = errors.New("Batch size should be greater than zero")
 		return nil, err
 	}
@@ -207,6 +207,10 @@ func BatchStr(a []string, size int) ([][]string, error) {
 
 // DeduplicateStr de-duplicates a slice in place
 func DeduplicateStr(a []string) []string {
+	if len(a) == 0 {
+		return a
+	}
+
 	sort.Strings(a)
 	j := 0
 	for i := 1; i < len(a); i++ {
-- 
2.43.0


From a10218d930a84843ce0e565e25c98106879823fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:48 +0000
Subject: [PATCH 93/95] fix: load bundled presets without changing the working
 directory

---
 pretrained/bert.go    | 27 +++++++++++++++------------
 pretrained/gpt2.go    | 13 ++-----------
 pretrained/roberta.go | 18 ++++--------------
 3 files changed, 21 insertions(+), 37 deletions(-)

diff --git a/pretrained/bert.go b/pretrained/bert.go
index 9f3384e..9e923f3 100644
--- a/pretrained/bert.go
+++ b/pretrained/bert.go
@@ -2,7 +2,8 @@ package pretrained
 
 import (
 	"log"
-	"os"
+	"path/filepath"
+	"runtime"
 
 	"github.com/sugarme/tokenizer"
 	"github.com/sugarme/tokenizer/decoder"
@@ -10,9 +11,19 @@ import (
 	"github.com/sugarme/tokenizer/normalizer"
 	"github.com/sugarme/tokenizer/pretokenizer"
 	"github.com/sugarme/tokenizer/processor"
-	"github.com/sugarme/tokenizer/util"
 )
 
+// modelFile returns the path of a file in directory `model` beside this file,
+// whatever the working directory is.
+func modelFile(name string) string {
+	_, file, _, ok := runtime.Caller(0)
+	if !ok {
+		log.Fatal("Runtime Caller error: cannot get information of current caller.")
+	}
+
+	return filepath.Join(filepath.Dir(file), "model", name)
+}
+
 // BertBaseUncase loads pretrained BERT tokenizer.
 //
 // Special tokens:
@@ -27,14 +38,7 @@ import (
 // "https://cdn.huggingface.co/bert-base-uncased-vocab.txt"
 func BertBaseUncased() *tokenizer.Tokenizer {
 
-	currDir, err := os.Getwd()
-	if err != nil {
-		log.Fatal(err)
-	}
-	util.CdToThis()
-	defer util.CdBack(currDir)
-
-	vocabFile := "model/bert-base-uncased-vocab.txt"
+	vocabFile := modelFile("bert-base-uncased-vocab.txt")
 	model, err := wordpiece.NewWordPieceFromFile(vocabFile, "[UNK]")
 	if err != nil {
 		log.Fatal(err)
@@ -80,8 +84,7 @@ func BertBaseUncased() *tokenizer.Tokenizer {
 // https://cdn.huggingface.co/bert-large-cased-whole-word-masking-finetuned-squad-vocab.txt
 func BertLargeCasedWholeWordMaskingSquad() *tokenizer.Tokenizer {
 
-	util.CdToThis()
-	vocabFile := "model/bert-large-cased-whole-word-masking-finetuned-squad-vocab.txt"
+	vocabFile := modelFile("bert-large-cased-whole-word-masking-finetuned-squad-vocab.txt")
 	model, err := wordpiece.NewWordPieceFromFile(vocabFile, "[UNK]")
 	if err != nil {
 		log.Fatal(err)
diff --git a/pretrained/gpt2.go b/pretrained/gpt2.go
index 58c1b9c..18af09a 100644
--- a/pretrained/gpt2.go
+++ b/pretrained/gpt2.go
@@ -2,14 +2,12 @@ package pretrained
 
 import (
 	"log"
-	"os"
 
 	"github.com/sugarme/tokenizer"
 	"github.com/sugarme/tokenizer/decoder"
 	"github.com/sugarme/tokenizer/model/bpe"
 	"github.com/sugarme/tokenizer/pretokenizer"
 	"github.com/sugarme/tokenizer/processor"
-	"github.com/sugarme/tokenizer/util"
 )
 
 // GPT2 loads GPT2 (small) tokenizer from vocab and merges files.
@@ -31,15 +29,8 @@ import (
 // "https://cdn.huggingface.co/gpt2-vocab.json"
 func GPT2(addPrefixSpace bool, trimOffsets bool) *tokenizer.Tokenizer {
 
-	currDir, err := os.Getwd()
-	if err != nil {
-		log.Fatal(err)
-	}
-	util.CdToThis()
-	defer util.CdBack(currDir)
-
-	vocabFile := "model/gpt2-vocab.json"
-	mergeFile := "model/gpt2-merges.txt"
+	vocabFile := modelFile("gpt2-vocab.json")
+	mergeFile := modelFile("gpt2-merges.txt")
 
 	model, err := bpe.NewBpeFromFiles(vocabFile, mergeFile)
 	if err != nil {
diff --git a/pretrained/roberta.go b/pretrained/roberta.go
index 7760fcf..d0b9a68 100644
--- a/pretrained/roberta.go
+++ b/pretrained/roberta.go
@@ -2,14 +2,12 @@ package pretrained
 
 import (
 	"log"
-	"os"
 
 	"github.com/sugarme/tokenizer"
 	"github.com/sugarme/tokenizer/decoder"
 	"github.com/sugarme/tokenizer/model/bpe"
 	"github.com/sugarme/tokenizer/pretokenizer"
 	"github.com/sugarme/tokenizer/processor"
-	"github.com/sugarme/tokenizer/util"
 )
 
 // RobertaBase loads pretrained RoBERTa tokenizer.
@@ -30,15 +28,8 @@ import (
 // - vocab: "https://cdn.huggingface.co/roberta-base-vocab.json",
 // - merges: "https://cdn.huggingface.co/roberta-base-merges.txt",
 func RobertaBase(addPrefixSpace, trimOffsets bool) *tokenizer.Tokenizer {
-	currDir, err := os.Getwd()
-	if err != nil {
-		log.Fatal(err)
-	}
-	util.CdToThis()
-	defer util.CdBack(currDir)
-
-	vocabFile := "model/roberta-base-vocab.json"
-	mergesFile := "model/roberta-base-merges.txt"
+	vocabFile := modelFile("roberta-base-vocab.json")
+	mergesFile := modelFile("roberta-base-merges.txt")
 	model, err := bpe.NewBpeFromFiles(vocabFile, mergesFile)
 	if err != nil {
 		log.Fatal(err)
@@ -82,9 +73,8 @@ func RobertaBase(addPrefixSpace, trimOffsets bool) *tokenizer.Tokenizer {
 // - vocab: "https://cdn.huggingface.co/deepset/roberta-base-squad2/vocab.json",
 // - merges: "https://cdn.huggingface.co/deepset/roberta-base-squad2/merges.txt",
 func RobertaBaseSquad2(addPrefixSpace, trimOffsets bool) *tokenizer.Tokenizer {
-	util.CdToThis()
-	vocabFile := "model/roberta-base-squad2-vocab.json"
-	mergesFile := "model/roberta-base-squad2-merges.txt"
+	vocabFile := modelFile("roberta-base-squad2-vocab.json")
+	mergesFile := modelFile("roberta-base-squad2-merges.txt")
 	model, err := bpe.NewBpeFromFiles(vocabFile, mergesFile)
 	if err != nil {
 		log.Fatal(err)
-- 
2.43.0


From b2e8dcdf9a7fc081d1640b0b10bbc902b047ffb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:59 +0000
Subject: [PATCH 94/95] fix: GPT2 and Roberta presets decode with the ByteLevel
 decoder

---
 pretrained/gpt2.go    | 4 +---
 pretrained/roberta.go | 7 ++-----
 2 files changed, 3 insertions(+), 8 deletions(-)

diff --git a/pretrained/gpt2.go b/pretrained/gpt2.go
index 18af09a..199d8d9 100644
--- a/pretrained/gpt2.go
+++ b/pretrained/gpt2.go
@@ -4,7 +4,6 @@ import (
 	"log"
 
 	"github.com/sugarme/tokenizer"
-	"github.com/sugarme/tokenizer/decoder"
 	"github.com/sugarme/tokenizer/model/bpe"
 	"github.com/sugarme/tokenizer/pretokenizer"
 	"github.com/sugarme/tokenizer/processor"
@@ -47,8 +46,7 @@ func GPT2(addPrefixSpace bool, trimOffsets bool) *tokenizer.Tokenizer {
 	pprocessor := processor.NewByteLevelProcessing(pretok)
 	tk.WithPostProcessor(pprocessor)
 
-	bpeDecoder := decoder.NewBpeDecoder("Ġ")
-	tk.WithDecoder(bpeDecoder)
+	tk.WithDecoder(pretok)
 
 	return tk
 }
diff --git a/pretrained/roberta.go b/pretrained/roberta.go
index d0b9a68..94baccb 100644
--- a/pretrained/roberta.go
+++ b/pretrained/roberta.go
@@ -4,7 +4,6 @@ import (
 	"log"
 
 	"github.com/sugarme/tokenizer"
-	"github.com/sugarme/tokenizer/decoder"
 	"github.com/sugarme/tokenizer/model/bpe"
 	"github.com/sugarme/tokenizer/pretokenizer"
 	"github.com/sugarme/tokenizer/processor"
@@ -49,8 +48,7 @@ func RobertaBase(addPrefixSpace, trimOffsets bool) *tokenizer.Tokenizer {
 	// postProcess.TrimOffsets(trimOffsets)
 	tk.WithPostProcessor(postProcess)
 
-	bpeDecoder := decoder.NewBpeDecoder("Ġ")
-	tk.WithDecoder(bpeDecoder)
+	tk.WithDecoder(blPreTokenizer)
 
 	return tk
 }
@@ -93,8 +91,7 @@ func RobertaBaseSquad2(addPrefixSpace, trimOffsets bool) *tokenizer.Tokenizer {
 	postProcess := processor.DefaultRobertaProcessing()
 	tk.WithPostProcessor(postProcess)
 
-	bpeDecoder := decoder.NewBpeDecoder("Ġ")
-	tk.WithDecoder(bpeDecoder)
+	tk.WithDecoder(blPreTokenizer)
 
 	return tk
 }
-- 
2.43.0


From ec4917709eab2fa661913a228dc4b86b8a269a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:10 +0000
Subject: [PATCH 95/95] fix: Roberta presets honour trimOffsets and
 addPrefixSpace when post-processing

---
 pretrained/roberta.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pretrained/roberta.go b/pretrained/roberta.go
index 94baccb..2776e61 100644
--- a/pretrained/roberta.go
+++ b/pretrained/roberta.go
@@ -45,7 +45,8 @@ func RobertaBase(addPrefixSpace, trimOffsets bool) *tokenizer.Tokenizer {
 	tk.WithPreTokenizer(blPreTokenizer)
 
 	postProcess := processor.DefaultRobertaProcessing()
-	// postProcess.TrimOffsets(trimOffsets)
+	postProcess.TrimOffsets(trimOffsets)
+	postProcess.AddPrefixSpace(addPrefixSpace)
 	tk.WithPostProcessor(postProcess)
 
 	tk.WithDecoder(blPreTokenizer)
@@ -89,6 +90,8 @@ func RobertaBaseSquad2(addPrefixSpace, trimOffsets bool) *tokenizer.Tokenizer {
 	tk.WithPreTokenizer(blPreTokenizer)
 
 	postProcess := processor.DefaultRobertaProcessing()
+	postProcess.TrimOffsets(trimOffsets)
+	postProcess.AddPrefixSpace(addPrefixSpace)
 	tk.WithPostProcessor(postProcess)
 
 	tk.WithDecoder(blPreTokenizer)
-- 
2.43.0

