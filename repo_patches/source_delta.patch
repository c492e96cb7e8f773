From 2bead3672f450d476125980984c48b85c210dabc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:07 +0000
Subject: [PATCH 01/79] fix: compare glyph names lexicographically in
 FindIndexByName

---
 font.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/font.go b/font.go
index 75e605f..e29752b 100644
--- a/font.go
+++ b/font.go
@@ -496,8 +496,9 @@ func (self *FontGlyphs) getNthGlyphName(nth uint32, numNamedGlyphs uint32) []byt
 
 func bytesSmallerThanStr(bytes []byte, str string) bool {
 	for i := 0; i < len(bytes); i++ {
-		if i >= len(str) { return true }
+		if i >= len(str) { return false }
 		if bytes[i] > str[i] { return false }
+		if bytes[i] < str[i] { return true }
 	}
 	if len(bytes) == len(str) { return false } // equal
 	return true // smaller
-- 
2.43.0


From 134eeed1ff37849397fa899a260508231abb9080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:07 +0000
Subject: [PATCH 02/79] fix: GlyphMappingGroup.Select list stride is two bytes
 per glyph

---
 font.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/font.go b/font.go
index e29752b..4f934fa 100644
--- a/font.go
+++ b/font.go
@@ -734,7 +734,7 @@ func (self *GlyphMappingGroup) Select(choice uint8) GlyphIndex {
 	if (info & 0b1000_0000) != 0 { // range case
 		return GlyphIndex(internal.DecodeUint16LE(self.font.Data[self.offset + 2 : ]) + uint16(choice))
 	} else {
-		return GlyphIndex(internal.DecodeUint16LE(self.font.Data[self.offset + 2 + (uint32(choice) << 2) : ]))
+		return GlyphIndex(internal.DecodeUint16LE(self.font.Data[self.offset + 2 + (uint32(choice) << 1) : ]))
 	}
 }
 
-- 
2.43.0


From f1ffcbb52e5e9f21a8bcbee0964c1499cd519aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:08 +0000
Subject: [PATCH 03/79] fix: animation flags follow the group info byte

---
 font.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/font.go b/font.go
index 4f934fa..29f5600 100644
--- a/font.go
+++ b/font.go
@@ -708,7 +708,7 @@ func (self *GlyphMappingGroup) Size() uint8 {
 func (self *GlyphMappingGroup) AnimationFlags() AnimationFlags {
 	if self.directMapping { return 0 }
 	if (0b0111_1111 & self.font.Data[self.offset + 0]) == 0 { return 0 }
-	return AnimationFlags(self.font.Data[self.offset + 2])
+	return AnimationFlags(self.font.Data[self.offset + 1])
 }
 func (self *GlyphMappingGroup) CaseBranch() uint8 {
 	return self.caseBranch
-- 
2.43.0


From 450f05c6aa35fb4811e6aa7bbf40184ca5da1bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:08 +0000
Subject: [PATCH 04/79] fix: detect range groups when walking mapping cases

---
 font.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/font.go b/font.go
index 29f5600..e94e98f 100644
--- a/font.go
+++ b/font.go
@@ -836,7 +836,7 @@ func (self *FontMapping) Utf8WithCache(codePoint rune, settingsCache *SettingsCa
 	for targetSwitchCase > 0 {
 		groupInfo := self.Data[offsetToMappingData + int(startOffset)]
 		groupSize := (groupInfo & 0b0111_1111) + 1
-		groupDefinedAsRange := ((groupSize & 0b1000_0000) != 0)
+		groupDefinedAsRange := ((groupInfo & 0b1000_0000) != 0)
 		if groupDefinedAsRange {
 			startOffset += 3 // 1 byte group size, 2 bytes base glyph
 		} else {
@@ -907,7 +907,7 @@ func (self *FontMapping) Utf8(codePoint rune, settings []uint8) (GlyphMappingGro
 	for targetSwitchCase > 0 {
 		groupInfo := self.Data[offsetToMappingData + int(startOffset)]
 		groupSize := (groupInfo & 0b0111_1111) + 1
-		groupDefinedAsRange := ((groupSize & 0b1000_0000) != 0)
+		groupDefinedAsRange := ((groupInfo & 0b1000_0000) != 0)
 		if groupDefinedAsRange {
 			startOffset += 3 // 1 byte group size, 2 bytes base glyph
 		} else {
-- 
2.43.0


From 9ec8cb88320f60f6601dc467d2aec4c0bce7c6a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:29 +0000
Subject: [PATCH 05/79] fix: widen header string lengths so long names do not
 overflow the offsets

---
 font.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/font.go b/font.go
index e94e98f..896c349 100644
--- a/font.go
+++ b/font.go
@@ -117,20 +117,20 @@ func (self *FontHeader) Name() string {
 	return unsafe.String(&self.Data[29], nameLen)
 }
 func (self *FontHeader) Family() string {
-	nameLen   := self.Data[28]
-	familyLen := self.Data[29 + nameLen]
+	nameLen   := int(self.Data[28])
+	familyLen := int(self.Data[29 + nameLen])
 	return unsafe.String(&self.Data[30 + nameLen], familyLen)
 }
 func (self *FontHeader) Author() string {
-	nameLen   := self.Data[28]
-	familyLen := self.Data[29 + nameLen]
-	authorLen := self.Data[30 + nameLen + familyLen]
+	nameLen   := int(self.Data[28])
+	familyLen := int(self.Data[29 + nameLen])
+	authorLen := int(self.Data[30 + nameLen + familyLen])
 	return unsafe.String(&self.Data[31 + nameLen + familyLen], authorLen)
 }
 func (self *FontHeader) About() string {
-	nameLen   := self.Data[28]
-	familyLen := self.Data[29 + nameLen]
-	authorLen := self.Data[30 + nameLen + familyLen]
+	nameLen   := int(self.Data[28])
+	familyLen := int(self.Data[29 + nameLen])
+	authorLen := int(self.Data[30 + nameLen + familyLen])
 	aboutIndex := 31 + nameLen + familyLen + authorLen
 	aboutLen := internal.DecodeUint16LE(self.Data[aboutIndex : aboutIndex + 2])
 	return unsafe.String(&self.Data[33 + nameLen + familyLen + authorLen], aboutLen)
-- 
2.43.0


From 730dd18bac46791d176ad2309504ac84ec4b5a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:29 +0000
Subject: [PATCH 06/79] fix: rule outputs are two bytes per glyph and four
 bytes per code point

---
 font.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/font.go b/font.go
index 896c349..4e0779f 100644
--- a/font.go
+++ b/font.go
@@ -1125,7 +1125,7 @@ func (self *GlyphRewriteRule) InLen() uint8 { return self.Data[1] + self.Data[2]
 func (self *GlyphRewriteRule) OutLen() uint8 { return self.Data[4] } // sequence size
 func (self *GlyphRewriteRule) EachOut(each func(GlyphIndex)) {
 	outSize := int(self.Data[4])
-	for i := 5; i < 5 + outSize; i += 2 {
+	for i := 5; i < 5 + outSize*2; i += 2 {
 		each(GlyphIndex(internal.DecodeUint16LE(self.Data[i : ])))
 	}
 }
@@ -1163,7 +1163,7 @@ func (self *Utf8RewriteRule) InLen() uint8 { return self.Data[1] + self.Data[2]
 func (self *Utf8RewriteRule) OutLen() uint8 { return self.Data[4] } // sequence size
 func (self *Utf8RewriteRule) EachOut(each func(rune)) {
 	outSize := int(self.Data[4])
-	for i := 5; i < 5 + outSize; i += 2 {
+	for i := 5; i < 5 + outSize*4; i += 4 {
 		each(rune(internal.DecodeUint32LE(self.Data[i : ])))
 	}
 }
-- 
2.43.0


From cff49b9431d457803652e182a08d27b7dc1bca62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:30 +0000
Subject: [PATCH 07/79] fix: rune set ranges take five bytes each

---
 font.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/font.go b/font.go
index 4e0779f..3089b65 100644
--- a/font.go
+++ b/font.go
@@ -1243,9 +1243,9 @@ func (self *FontRewrites) GetGlyphSet(set uint8) GlyphRewriteSet {
 type Utf8RewriteSet internal.RawBlock
 func (self *Utf8RewriteSet) EachRange(each func(start, end rune) error) error {
 	numRanges := int(self.Data[0])
-	for i := 1; i < numRanges*5; i += 5 {
+	for i := 1; i < 1 + numRanges*5; i += 5 {
 		codePoint := rune(internal.DecodeUint32LE(self.Data[i : i + 4]))
-		err := each(codePoint, codePoint + rune(self.Data[i + 3]))
+		err := each(codePoint, codePoint + rune(self.Data[i + 4]))
 		if err != nil { return err }
 	}
 	return nil
-- 
2.43.0


From 15b2207c7e69c8dbfdc8140d7e4d5f02ae69114c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:31 +0000
Subject: [PATCH 08/79] fix: rewrite condition end offsets are uint16

---
 font.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/font.go b/font.go
index 3089b65..386578a 100644
--- a/font.go
+++ b/font.go
@@ -960,9 +960,9 @@ func (self *FontRewrites) EvaluateCondition(conditionKey uint8, settings []uint8
 	if conditionKey >= numConditions { panic("invalid condition key") }
 
 	var startOffset uint16 = 0
-	endOffset := internal.DecodeUint16LE(self.Data[self.OffsetToRewriteConditions + 1 + uint32(conditionKey) : ])
+	endOffset := internal.DecodeUint16LE(self.Data[self.OffsetToRewriteConditions + 1 + (uint32(conditionKey) << 1) : ])
 	if conditionKey > 0 {
-		startOffset = internal.DecodeUint16LE(self.Data[self.OffsetToRewriteConditions + uint32(conditionKey) : ])
+		startOffset = internal.DecodeUint16LE(self.Data[self.OffsetToRewriteConditions + (uint32(conditionKey) << 1) - 1 : ])
 	}
 	if endOffset <= startOffset { panic(invalidFontData) }
 	endOffset -= 1 // we will evaluate from last to first
-- 
2.43.0


From ace5638bfbd4e64742459c011754ad60ebbe3e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:32 +0000
Subject: [PATCH 09/79] fix: rewrite condition evaluation ends one past the
 last data byte

---
 font.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/font.go b/font.go
index 386578a..f6efeab 100644
--- a/font.go
+++ b/font.go
@@ -972,7 +972,7 @@ func (self *FontRewrites) EvaluateCondition(conditionKey uint8, settings []uint8
 	if int(maxDataIndex) >= len(self.Data) { panic(invalidFontData) } // discretionary assertion
 	dataIndex := offsetToRewriteConditionsData + uint32(startOffset)
 	endDataIndex, satisfied := self.evalConditionSubexpr(dataIndex, maxDataIndex, settings)
-	if endDataIndex != maxDataIndex { panic(brokenCode) }
+	if endDataIndex != maxDataIndex + 1 { panic(brokenCode) }
 	return satisfied
 
 	// - 0b000X_XXXX: `OR` condition group. The X's indicate the number of terms in the expression (can't be < 2).
@@ -991,7 +991,7 @@ func (self *FontRewrites) evalConditionSubexpr(dataIndex, maxDataIndex uint32, s
 		for i := uint8(0); i < numTerms; i++ {
 			var satisfied bool
 			dataIndex, satisfied = self.evalConditionSubexpr(dataIndex, maxDataIndex, settings)
-			if dataIndex > maxDataIndex { panic(invalidFontData) } // discretionary assertion
+			if dataIndex > maxDataIndex + 1 { panic(invalidFontData) } // discretionary assertion
 			if satisfied {
 				numSettings := uint8(min(len(settings), 255))
 				for i < numTerms { // could be optimized in some cases, but it's a pain
@@ -1008,7 +1008,7 @@ func (self *FontRewrites) evalConditionSubexpr(dataIndex, maxDataIndex uint32, s
 		for i := uint8(0); i < numTerms; i++ {
 			var satisfied bool
 			dataIndex, satisfied = self.evalConditionSubexpr(dataIndex, maxDataIndex, settings)
-			if dataIndex > maxDataIndex { panic(invalidFontData) } // discretionary assertion
+			if dataIndex > maxDataIndex + 1 { panic(invalidFontData) } // discretionary assertion
 			if !satisfied {
 				numSettings := uint8(min(len(settings), 255))
 				for i < numTerms { // could be optimized in some cases, but it's a pain
@@ -1072,7 +1072,7 @@ func (self *FontRewrites) skipConditionSubexpr(dataIndex, maxDataIndex uint32, n
 		numTerms := (ctrl & 0b0001_1111)
 		for i := uint8(0); i < numTerms; i++ {
 			dataIndex = self.skipConditionSubexpr(dataIndex, maxDataIndex, numSettings)
-			if dataIndex > maxDataIndex { panic(invalidFontData) } // discretionary assertion
+			if dataIndex > maxDataIndex + 1 { panic(invalidFontData) } // discretionary assertion
 		}
 		return dataIndex
 	case 0b0010_0000: // AND
@@ -1080,7 +1080,7 @@ func (self *FontRewrites) skipConditionSubexpr(dataIndex, maxDataIndex uint32, n
 		numTerms := (ctrl & 0b0001_1111)
 		for i := uint8(0); i < numTerms; i++ {
 			dataIndex = self.skipConditionSubexpr(dataIndex, maxDataIndex, numSettings)
-			if dataIndex > maxDataIndex { panic(invalidFontData) } // discretionary assertion
+			if dataIndex > maxDataIndex + 1 { panic(invalidFontData) } // discretionary assertion
 		}
 		return dataIndex
 	case 0b0100_0000: // comparison
-- 
2.43.0


From 28b32273a604fed2afb59c049f48eb910acc584f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:32 +0000
Subject: [PATCH 10/79] fix: skip only the remaining terms when a condition
 group short-circuits

---
 font.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/font.go b/font.go
index f6efeab..c1834fe 100644
--- a/font.go
+++ b/font.go
@@ -994,7 +994,7 @@ func (self *FontRewrites) evalConditionSubexpr(dataIndex, maxDataIndex uint32, s
 			if dataIndex > maxDataIndex + 1 { panic(invalidFontData) } // discretionary assertion
 			if satisfied {
 				numSettings := uint8(min(len(settings), 255))
-				for i < numTerms { // could be optimized in some cases, but it's a pain
+				for i += 1; i < numTerms; { // could be optimized in some cases, but it's a pain
 					dataIndex = self.skipConditionSubexpr(dataIndex, maxDataIndex, numSettings)
 					i += 1
 				}
@@ -1011,7 +1011,7 @@ func (self *FontRewrites) evalConditionSubexpr(dataIndex, maxDataIndex uint32, s
 			if dataIndex > maxDataIndex + 1 { panic(invalidFontData) } // discretionary assertion
 			if !satisfied {
 				numSettings := uint8(min(len(settings), 255))
-				for i < numTerms { // could be optimized in some cases, but it's a pain
+				for i += 1; i < numTerms; { // could be optimized in some cases, but it's a pain
 					dataIndex = self.skipConditionSubexpr(dataIndex, maxDataIndex, numSettings)
 					i += 1
 				}
-- 
2.43.0


From af6756dc27bd22a5e2215e112f68628c726f60c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:33 +0000
Subject: [PATCH 11/79] fix: rewrite conditions compare setting values, not
 setting indices

---
 font.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/font.go b/font.go
index c1834fe..7b7ee12 100644
--- a/font.go
+++ b/font.go
@@ -1027,13 +1027,14 @@ func (self *FontRewrites) evalConditionSubexpr(dataIndex, maxDataIndex uint32, s
 			if int(operand) > len(settings) { panic(invalidFontData) } // discretionary assertion
 			operand = settings[operand]
 		}
+		value := settings[setting]
 		switch (ctrl & 0b0000_1111) {
-		case 0b000: return dataIndex + 3, setting == operand
-		case 0b001: return dataIndex + 3, setting != operand
-		case 0b010: return dataIndex + 3, setting  < operand
-		case 0b011: return dataIndex + 3, setting  > operand
-		case 0b100: return dataIndex + 3, setting <= operand
-		case 0b101: return dataIndex + 3, setting >= operand
+		case 0b000: return dataIndex + 3, value == operand
+		case 0b001: return dataIndex + 3, value != operand
+		case 0b010: return dataIndex + 3, value  < operand
+		case 0b011: return dataIndex + 3, value  > operand
+		case 0b100: return dataIndex + 3, value <= operand
+		case 0b101: return dataIndex + 3, value >= operand
 		default:
 			panic(invalidFontData)
 		}
-- 
2.43.0


From 784ad05b79d5c6c09757912216ddb5f73ce11549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:34 +0000
Subject: [PATCH 12/79] fix: reject out of range settings in rewrite conditions

---
 font.go | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/font.go b/font.go
index 7b7ee12..3f5c123 100644
--- a/font.go
+++ b/font.go
@@ -1021,10 +1021,10 @@ func (self *FontRewrites) evalConditionSubexpr(dataIndex, maxDataIndex uint32, s
 		return dataIndex, true
 	case 0b0100_0000: // comparison
 		setting := self.Data[dataIndex + 1]
-		if int(setting) > len(settings) { panic(invalidFontData) } // discretionary assertion
+		if int(setting) >= len(settings) { panic(invalidFontData) } // discretionary assertion
 		operand := self.Data[dataIndex + 2]
 		if (ctrl & 0b0001_0000) == 0 { // comparing two settings
-			if int(operand) > len(settings) { panic(invalidFontData) } // discretionary assertion
+			if int(operand) >= len(settings) { panic(invalidFontData) } // discretionary assertion
 			operand = settings[operand]
 		}
 		value := settings[setting]
@@ -1041,22 +1041,22 @@ func (self *FontRewrites) evalConditionSubexpr(dataIndex, maxDataIndex uint32, s
 	case 0b0110_0000: // quick comparison `setting == const`
 		constValue := (ctrl & 0b0001_1111)
 		setting := self.Data[dataIndex + 1]
-		if int(setting) > len(settings) { panic(invalidFontData) } // discretionary assertion
+		if int(setting) >= len(settings) { panic(invalidFontData) } // discretionary assertion
 		return dataIndex + 2, settings[setting] == constValue
 	case 0b1000_0000: // quick comparison `setting != const`
 		constValue := (ctrl & 0b0001_1111)
 		setting := self.Data[dataIndex + 1]
-		if int(setting) > len(settings) { panic(invalidFontData) } // discretionary assertion
+		if int(setting) >= len(settings) { panic(invalidFontData) } // discretionary assertion
 		return dataIndex + 2, settings[setting] != constValue
 	case 0b1010_0000: // quick comparison `setting < const`
 		constValue := (ctrl & 0b0001_1111)
 		setting := self.Data[dataIndex + 1]
-		if int(setting) > len(settings) { panic(invalidFontData) } // discretionary assertion
+		if int(setting) >= len(settings) { panic(invalidFontData) } // discretionary assertion
 		return dataIndex + 2, settings[setting] < constValue
 	case 0b1100_0000: // quick comparison `setting > const`
 		constValue := (ctrl & 0b0001_1111)
 		setting := self.Data[dataIndex + 1]
-		if int(setting) > len(settings) { panic(invalidFontData) } // discretionary assertion
+		if int(setting) >= len(settings) { panic(invalidFontData) } // discretionary assertion
 		return dataIndex + 2, settings[setting] > constValue
 	default: // undefined control mode
 		panic(invalidFontData)
@@ -1085,9 +1085,9 @@ func (self *FontRewrites) skipConditionSubexpr(dataIndex, maxDataIndex uint32, n
 		}
 		return dataIndex
 	case 0b0100_0000: // comparison
-		if self.Data[dataIndex + 1] > numSettings { panic(invalidFontData) } // discretionary assertion
+		if self.Data[dataIndex + 1] >= numSettings { panic(invalidFontData) } // discretionary assertion
 		if (ctrl & 0b0001_0000) == 0 { // comparing two settings
-			if self.Data[dataIndex + 2] > numSettings { panic(invalidFontData) } // discretionary assertion
+			if self.Data[dataIndex + 2] >= numSettings { panic(invalidFontData) } // discretionary assertion
 		}
 		switch (ctrl & 0b0000_1111) {
 		case 0b000: return dataIndex + 3
@@ -1100,16 +1100,16 @@ func (self *FontRewrites) skipConditionSubexpr(dataIndex, maxDataIndex uint32, n
 			panic(invalidFontData)
 		}
 	case 0b0110_0000: // quick comparison `setting == const`
-		if self.Data[dataIndex + 1] > numSettings { panic(invalidFontData) } // discretionary assertion
+		if self.Data[dataIndex + 1] >= numSettings { panic(invalidFontData) } // discretionary assertion
 		return dataIndex + 2
 	case 0b1000_0000: // quick comparison `setting != const`
-		if self.Data[dataIndex + 1] > numSettings { panic(invalidFontData) } // discretionary assertion
+		if self.Data[dataIndex + 1] >= numSettings { panic(invalidFontData) } // discretionary assertion
 		return dataIndex + 2
 	case 0b1010_0000: // quick comparison `setting < const`
-		if self.Data[dataIndex + 1] > numSettings { panic(invalidFontData) } // discretionary assertion
+		if self.Data[dataIndex + 1] >= numSettings { panic(invalidFontData) } // discretionary assertion
 		return dataIndex + 2
 	case 0b1100_0000: // quick comparison `setting > const`
-		if self.Data[dataIndex + 1] > numSettings { panic(invalidFontData) } // discretionary assertion
+		if self.Data[dataIndex + 1] >= numSettings { panic(invalidFontData) } // discretionary assertion
 		return dataIndex + 2
 	default: // undefined control mode
 		panic(invalidFontData)
-- 
2.43.0


From 66cd21d71150a7955946a14099630ec30a91c79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:34 +0000
Subject: [PATCH 13/79] fix: validate dates without a month without panicking

---
 date.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/date.go b/date.go
index 3d631b0..4759f4d 100644
--- a/date.go
+++ b/date.go
@@ -26,6 +26,7 @@ func (self *Date) IsValid() bool {
 	if self.Month == 0 && self.Day != 0 { return false }
 	if self.Year == 0 && (self.Month != 0 || self.Day != 0) { return false }
 	if self.Month > 12 { return false }
+	if self.Month == 0 { return true } // unset date or year only
 	if self.Day > self.monthDays() { return false }
 	return true
 }
-- 
2.43.0


From 49c73da59d45921f68227a6550b7210bf6f986fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:11 +0000
Subject: [PATCH 14/79] fix: read the file signature fully when the reader
 returns short reads

---
 parse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse.go b/parse.go
index 37537b5..d55e4da 100644
--- a/parse.go
+++ b/parse.go
@@ -52,7 +52,7 @@ func Parse(reader io.Reader) (*Font, error) {
 	if traceParsing { fmt.Printf("starting parsing...\n") }
 
 	// read signature first (this is not gzipped, so it's important)
-	n, err := reader.Read(parser.TempBuff[0 : 6])
+	n, err := io.ReadFull(reader, parser.TempBuff[0 : 6])
 	if err != nil || n != 6 {
 		if n == 0 {
 			return &font, parser.NewError("failed to read any data from the file")
-- 
2.43.0


From ac383588a0ed641bab5d2400544cb9afd07bf792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:12 +0000
Subject: [PATCH 15/79] fix: reject font data that continues after the last
 section

---
 internal/parsing_buffer.go | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/internal/parsing_buffer.go b/internal/parsing_buffer.go
index 6ef79a5..ad0df36 100644
--- a/internal/parsing_buffer.go
+++ b/internal/parsing_buffer.go
@@ -38,15 +38,14 @@ func (self *ParsingBuffer) InitGzipReader(reader io.Reader) error {
 }
 
 func (self *ParsingBuffer) EnsureEOF() error {
-	if self.eof { return nil }
-	preIndex := self.Index
-	err := self.readMore()
-	if err != nil { return err }
-	if self.Index > preIndex {
-		return errors.New("file continues beyond the expected end")
+	for {
+		if len(self.Bytes) > self.Index {
+			return errors.New("file continues beyond the expected end")
+		}
+		if self.eof { return nil }
+		err := self.readMore()
+		if err != nil { return err }
 	}
-	if !self.eof { panic("broken code") }
-	return nil
 }
 
 // utility function called to read more data
-- 
2.43.0


From a117ed540fb8a5360927369d1ef520ad5a151a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:13 +0000
Subject: [PATCH 16/79] fix: do not ignore read errors in the rewrite rules and
 kerning sections

---
 parse.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parse.go b/parse.go
index d55e4da..7ce1c3f 100644
--- a/parse.go
+++ b/parse.go
@@ -384,6 +384,7 @@ func Parse(reader io.Reader) (*Font, error) {
 		err := parser.AdvanceBytes(int(numUtf8Rules - 1)*3)
 		if err != nil { return &font, err }
 		utf8RulesLen, err := parser.ReadUint24()
+		if err != nil { return &font, err }
 		if int(utf8RulesLen) < int(numUtf8Rules)*8 {
 			return &font, parser.NewError("UTF8RuleEndOffsets declares UTF8Rules to end before allowed")
 		}
@@ -404,6 +405,7 @@ func Parse(reader io.Reader) (*Font, error) {
 		err := parser.AdvanceBytes(int(numGlyphRules - 1)*3)
 		if err != nil { return &font, err }
 		glyphRulesLen, err := parser.ReadUint24()
+		if err != nil { return &font, err }
 		if int(glyphRulesLen) < int(numGlyphRules)*8 {
 			return &font, parser.NewError("GlyphRuleEndOffsets declares GlyphRules to end before allowed")
 		}
@@ -426,6 +428,7 @@ func Parse(reader io.Reader) (*Font, error) {
 	maxKerningPairs := uint32(numGlyphs)*uint32(numGlyphs)
 
 	numHorzKerningPairs, err := parser.ReadUint24()
+	if err != nil { return &font, err }
 	if numHorzKerningPairs > 0 {
 		if numHorzKerningPairs > maxKerningPairs {
 			return &font, parser.NewError("NumHorzKerningPairs can't exceed NumGlyphs^2")
@@ -438,6 +441,7 @@ func Parse(reader io.Reader) (*Font, error) {
 
 	font.OffsetToVertKernings = uint32(parser.Index)
 	numVertKerningPairs, err := parser.ReadUint24()
+	if err != nil { return &font, err }
 	if numVertKerningPairs > 0 {
 		if numVertKerningPairs > maxKerningPairs {
 			return &font, parser.NewError("NumVertKerningPairs can't exceed NumGlyphs^2")
-- 
2.43.0


From 5aec4b08bf9b2b8bb5c97d20d74a741d01dbb09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:49 +0000
Subject: [PATCH 17/79] fix: accept the 254 mapping switches the format allows

---
 parse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse.go b/parse.go
index 7ce1c3f..8de7369 100644
--- a/parse.go
+++ b/parse.go
@@ -273,7 +273,7 @@ func Parse(reader io.Reader) (*Font, error) {
 	font.OffsetToMappingSwitches = uint32(parser.Index)
 	numMappingSwitches, err := parser.ReadUint8()
 	if err != nil { return &font, err }
-	if numMappingSwitches > 253 {
+	if numMappingSwitches > 254 {
 		return &font, parser.NewError("NumMappingSwitches can't exceed 254 (both 254 and 255 are reserved)")
 	}
 	if numMappingSwitches > 0 {
-- 
2.43.0


From ae072c34bd4c64779d23b7349751686ebce96518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:50 +0000
Subject: [PATCH 18/79] fix: accept rewrite rules of up to 4096 bytes when
 parsing

---
 parse.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parse.go b/parse.go
index 8de7369..7a3dd06 100644
--- a/parse.go
+++ b/parse.go
@@ -388,7 +388,7 @@ func Parse(reader io.Reader) (*Font, error) {
 		if int(utf8RulesLen) < int(numUtf8Rules)*8 {
 			return &font, parser.NewError("UTF8RuleEndOffsets declares UTF8Rules to end before allowed")
 		}
-		if int(utf8RulesLen) > int(numUtf8Rules)*(6 + 255*4) {
+		if int(utf8RulesLen) > int(numUtf8Rules)*4096 {
 			return &font, parser.NewError("UTF8RuleEndOffsets declares UTF8Rules to end beyond allowed")
 		}
 
@@ -409,7 +409,7 @@ func Parse(reader io.Reader) (*Font, error) {
 		if int(glyphRulesLen) < int(numGlyphRules)*8 {
 			return &font, parser.NewError("GlyphRuleEndOffsets declares GlyphRules to end before allowed")
 		}
-		if int(glyphRulesLen) > int(numGlyphRules)*514 {
+		if int(glyphRulesLen) > int(numGlyphRules)*4096 {
 			return &font, parser.NewError("GlyphRuleEndOffsets declares GlyphRules to end beyond allowed")
 		}
 
-- 
2.43.0


From 0b873f0595147983ebe4c3aaaecbfd5fd8d9a183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:50 +0000
Subject: [PATCH 19/79] fix: do not limit the size of glyph masks to 255 bytes
 when parsing

---
 parse.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/parse.go b/parse.go
index 7a3dd06..dab3cda 100644
--- a/parse.go
+++ b/parse.go
@@ -196,9 +196,7 @@ func Parse(reader io.Reader) (*Font, error) {
 	if glyphMasksLen < (uint32(placementSize)*uint32(numGlyphs)) {
 		return &font, parser.NewError("GlyphMaskEndOffsets declares GlyphMasks to end before allowed")
 	}
-	if glyphMasksLen > (uint32(placementSize) + 255)*uint32(numGlyphs) {
-		return &font, parser.NewError("GlyphMaskEndOffsets declares GlyphMasks to end beyond allowed")
-	}
+	// note: no upper bound check, we gotta trust max font size here
 	err = parser.AdvanceBytes(int(glyphMasksLen))
 	if err != nil { return &font, err }
 
-- 
2.43.0


From 2b1de9366fee7f01101b6c484def5463adf669b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:51 +0000
Subject: [PATCH 20/79] fix: accept empty and list-only rewrite sets when
 parsing

---
 parse.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parse.go b/parse.go
index dab3cda..2059dea 100644
--- a/parse.go
+++ b/parse.go
@@ -347,7 +347,7 @@ func Parse(reader io.Reader) (*Font, error) {
 		if err != nil { return &font, err }
 		utf8SetsLen, err := parser.ReadUint16()
 		if err != nil { return &font, err }
-		if int(utf8SetsLen) < 1 + int(numUtf8Sets)*5 {
+		if int(utf8SetsLen) < int(numUtf8Sets)*2 {
 			return &font, parser.NewError("UTF8SetEndOffsets declares UTF8Sets to end before allowed")
 		}
 
@@ -365,7 +365,7 @@ func Parse(reader io.Reader) (*Font, error) {
 		if err != nil { return &font, err }
 		glyphSetsLen, err := parser.ReadUint16()
 		if err != nil { return &font, err }
-		if int(glyphSetsLen) < 1 + int(numGlyphSets)*3 {
+		if int(glyphSetsLen) < int(numGlyphSets)*2 {
 			return &font, parser.NewError("GlyphSetEndOffsets declares GlyphSets to end before allowed")
 		}
 
-- 
2.43.0


From 2330b9f83a4a0808ec1f585a13dbfca285604114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:51 +0000
Subject: [PATCH 21/79] fix: close the file when ParseFromFS fails early

---
 parse.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parse.go b/parse.go
index 2059dea..ce96958 100644
--- a/parse.go
+++ b/parse.go
@@ -16,8 +16,12 @@ func ParseFromFS(filesys fs.FS, filename string) (*Font, error) {
 	file, err := filesys.Open(filename)
 	if err != nil { return nil, err }
 	stat, err := file.Stat()
-	if err != nil { return nil, err }
+	if err != nil {
+		_ = file.Close()
+		return nil, err
+	}
 	if stat.Size() > MaxFontDataSize {
+		_ = file.Close()
 		return nil, errors.New("file size exceeds limit")
 	}
 	
-- 
2.43.0


From 5b3fbdbf2b7d0644317af9fa1139cfb2971c2c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:52 +0000
Subject: [PATCH 22/79] fix: refuse consecutive hyphens in basic names

---
 internal/parsing_buffer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/parsing_buffer.go b/internal/parsing_buffer.go
index ad0df36..4370a0c 100644
--- a/internal/parsing_buffer.go
+++ b/internal/parsing_buffer.go
@@ -198,7 +198,7 @@ func ValidateBasicName(name string) error {
 		}
 		if name[i] == '-' {
 			if prevIsHyphen {
-				errors.New("basic name can't contain consecutive hyphens")
+				return errors.New("basic name can't contain consecutive hyphens")
 			}
 			prevIsHyphen = true
 			continue
-- 
2.43.0


From a4af0af43a5ba868bb113995e133e717459ea93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:44 +0000
Subject: [PATCH 23/79] fix: encode setting words deterministically and with
 consistent indices

---
 builder/font_builder.go          | 13 +++----
 builder/font_builder_settings.go | 61 ++++++++++++++------------------
 2 files changed, 30 insertions(+), 44 deletions(-)

diff --git a/builder/font_builder.go b/builder/font_builder.go
index c126a5e..8ecbf11 100644
--- a/builder/font_builder.go
+++ b/builder/font_builder.go
@@ -359,12 +359,13 @@ func (self *Font) Build() (*ggfnt.Font, error) {
 		self.settings[i].AppendWords(words)
 	}
 	var builtinWords map[string]int16
+	var wordsList []string
 	if len(words) > 0 {
 		builtinWords = make(map[string]int16, 256)
 		for i := 0; i < 256; i++ {
 			builtinWords[ggfnt.GetPredefinedWord(uint8(i))] = int16(i)
 		}
-		err := organizeWords(builtinWords, words)
+		wordsList, err = organizeWords(builtinWords, words)
 		if err != nil { return nil, err }
 	}
 	if len(words) > 255 { panic(invalidInternalState) }
@@ -372,21 +373,15 @@ func (self *Font) Build() (*ggfnt.Font, error) {
 	font.OffsetToWords = uint32(len(data))
 	data = append(data, numWords)
 	if len(words) > 0 {
-		wordsList := make([]string, len(words))
-		for word, index := range words {
-			wordsList[index] = word
-		}
-		slices.Sort(wordsList)
-
 		// WordEndOffsets
 		var offset uint16
-		for word, _ := range words {
+		for _, word := range wordsList {
 			offset += uint16(len(word))
 			data = internal.AppendUint16LE(data, offset)
 		}
 
 		// Words | append actual words
-		for word, _ := range words {
+		for _, word := range wordsList {
 			data = append(data, word...)
 		}
 	}
diff --git a/builder/font_builder_settings.go b/builder/font_builder_settings.go
index cd73ee1..80e8870 100644
--- a/builder/font_builder_settings.go
+++ b/builder/font_builder_settings.go
@@ -1,6 +1,7 @@
 package builder
 
 import "errors"
+import "slices"
 
 import "github.com/tinne26/ggfnt"
 import "github.com/tinne26/ggfnt/internal"
@@ -19,50 +20,40 @@ func (self *settingEntry) AppendWords(words map[string]int16) {
 	}
 }
 
-func organizeWords(builtinWords, words map[string]int16) error {
-	if len(words) > 255 { return errors.New("setting options require too many words") }
+// Leaves only the custom words in 'words', with their index set, and
+// returns them in index order. Custom words hide the built-in words with
+// the same indices, so those become custom words too if they are required.
+func organizeWords(builtinWords, words map[string]int16) ([]string, error) {
+	numCustomWords := 0
+	for {
+		count := 0
+		for word, _ := range words {
+			builtinIndex, isBuiltIn := builtinWords[word]
+			if !isBuiltIn || int(builtinIndex) < numCustomWords { count += 1 }
+		}
+		if count == numCustomWords { break }
+		numCustomWords = count
+	}
+	if numCustomWords > 255 { return nil, errors.New("setting options require too many words") }
 
-	// set indices for all unique words
-	var customWordIndex uint16
-	var minBuiltinIndex uint16 = 65535
+	// collect custom words, delete built-in words
+	wordsList := make([]string, 0, numCustomWords)
 	for word, _ := range words {
 		builtinIndex, isBuiltIn := builtinWords[word]
-		if isBuiltIn {
-			words[word] = -builtinIndex
-			if uint16(builtinIndex) < minBuiltinIndex {
-				minBuiltinIndex = uint16(builtinIndex)
-			}
+		if isBuiltIn && int(builtinIndex) >= numCustomWords {
+			delete(words, word)
 		} else {
-			words[word] = int16(customWordIndex)
-			customWordIndex += 1
-		}
-	}
-
-	// see if builtin words can be used or not
-	for minBuiltinIndex < customWordIndex {
-		target := -int16(minBuiltinIndex)
-		minBuiltinIndex = 65535
-		for word, index := range words {
-			if index == target {
-				words[word] = int16(customWordIndex)
-				customWordIndex += 1
-			} else if index < 0 { // built-in word
-				if uint16(-index) < minBuiltinIndex {
-					minBuiltinIndex = uint16(-index)
-				}
-			}
+			wordsList = append(wordsList, word)
 		}
 	}
 
-	// delete built-in words
-	for word, index := range words {
-		if index < 0 { delete(words, word) }
+	// sort for encoding stability and set indices
+	slices.Sort(wordsList)
+	for index, word := range wordsList {
+		words[word] = int16(index)
 	}
-	
-	// NOTE: sorting is done later to improve encoding
-	// stability, but directly on the encoding code
 
-	return nil
+	return wordsList, nil
 }
 
 func (self *settingEntry) AppendTo(data []byte, builtinWords, words map[string]int16) []byte {
-- 
2.43.0


From c7cde6ff1da72aa7d9f1f1a82afea470c42dba08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:44 +0000
Subject: [PATCH 24/79] fix: Build does not add the main dye to the builder as
 a side effect

---
 builder/font_builder.go | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/builder/font_builder.go b/builder/font_builder.go
index 8ecbf11..0d30a96 100644
--- a/builder/font_builder.go
+++ b/builder/font_builder.go
@@ -239,27 +239,27 @@ func (self *Font) Build() (*ggfnt.Font, error) {
 	// --- colors ---
 	numColorSections := len(self.dyes) + len(self.palettes)
 	if numColorSections > 255 { panic(invalidInternalState) }
-	if numColorSections == 0 { // add main dye if nothing else exists
-		err := self.AddDye("main", 255)
-		if err != nil { return nil, err }
+	dyes := self.dyes
+	if numColorSections == 0 { // use main dye if nothing else exists
+		dyes = []dyeSection{ dyeSection{ name: "main", alphas: []uint8{255} } }
 	}
 	
 	// - dyes -
 	font.OffsetToDyes = uint32(len(data))
-	data = append(data, uint8(len(self.dyes))) // NumDyes
+	data = append(data, uint8(len(dyes))) // NumDyes
 	var clrIndex int
-	for i, _ := range self.dyes { // DyeEndIndices
-		clrIndex += len(self.dyes[i].alphas)
+	for i, _ := range dyes { // DyeEndIndices
+		clrIndex += len(dyes[i].alphas)
 		if clrIndex > 255 { panic(invalidInternalState) }
 		data = append(data, uint8(clrIndex))
 	}
-	for i, _ := range self.dyes { data = append(data, self.dyes[i].alphas...) } // DyeAlphas
+	for i, _ := range dyes { data = append(data, dyes[i].alphas...) } // DyeAlphas
 	var clrSectionNameOffset uint16
-	for i, _ := range self.dyes { // DyeNameEndOffsets
-		clrSectionNameOffset += uint16(len(self.dyes[i].name))
+	for i, _ := range dyes { // DyeNameEndOffsets
+		clrSectionNameOffset += uint16(len(dyes[i].name))
 		data = internal.AppendUint16LE(data, clrSectionNameOffset)
 	}
-	for i, _ := range self.dyes { data = append(data, self.dyes[i].name...) } // DyeNames
+	for i, _ := range dyes { data = append(data, dyes[i].name...) } // DyeNames
 
 	// - palettes -
 	font.OffsetToPalettes = uint32(len(data))
-- 
2.43.0


From f4ff63f945bdddd6835b66faa94c9ea76bd9f4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:44 +0000
Subject: [PATCH 25/79] fix: vertical kerning values come from the vertical
 kerning pairs

---
 builder/font_builder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/builder/font_builder.go b/builder/font_builder.go
index 0d30a96..0e5b497 100644
--- a/builder/font_builder.go
+++ b/builder/font_builder.go
@@ -647,7 +647,7 @@ func (self *Font) Build() (*ggfnt.Font, error) {
 	for _, pair64 := range self.tempSortingBuffer { // VertKerningValues
 		glyphUID1 := self.glyphOrder[uint16(pair64 >> 16)]
 		glyphUID2 := self.glyphOrder[uint16(pair64)]
-		kerningInfo, found := self.horzKerningPairs[[2]uint64{glyphUID1, glyphUID2}]
+		kerningInfo, found := self.vertKerningPairs[[2]uint64{glyphUID1, glyphUID2}]
 		if !found { panic(invalidInternalState) }
 		if kerningInfo.Class == 0 {
 			data = append(data, uint8(kerningInfo.Value))
-- 
2.43.0


From 00d1ab318ea827c794c6ccafc7b79baaef025e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:45 +0000
Subject: [PATCH 26/79] fix: edition data kerning pair counts are uint24

---
 builder/font_builder.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/builder/font_builder.go b/builder/font_builder.go
index 0e5b497..40d4659 100644
--- a/builder/font_builder.go
+++ b/builder/font_builder.go
@@ -740,7 +740,7 @@ func (self *Font) ParseEditionData(reader io.Reader) error {
 		(&self.kerningClasses[i]).Value = value
 	}
 	
-	numHorzKerningPairsWithClasses, err := parser.ReadUint32()
+	numHorzKerningPairsWithClasses, err := parser.ReadUint24()
 	if err != nil { return err }
 	for i := uint32(0); i < numHorzKerningPairsWithClasses; i++ {
 		firstIndex, err := parser.ReadUint16()
@@ -763,7 +763,7 @@ func (self *Font) ParseEditionData(reader io.Reader) error {
 		}
 	}
 	
-	numVertKerningPairsWithClasses, err := parser.ReadUint32()
+	numVertKerningPairsWithClasses, err := parser.ReadUint24()
 	if err != nil { return err }
 	for i := uint32(0); i < numVertKerningPairsWithClasses; i++ {
 		firstIndex, err := parser.ReadUint16()
-- 
2.43.0


From 7e495bd1ba9d940f002147dd24d073443609973b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:45 +0000
Subject: [PATCH 27/79] fix: refuse edition data kerning pairs with undefined
 glyphs or classes

---
 builder/font_builder.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/builder/font_builder.go b/builder/font_builder.go
index 40d4659..112775b 100644
--- a/builder/font_builder.go
+++ b/builder/font_builder.go
@@ -752,6 +752,12 @@ func (self *Font) ParseEditionData(reader io.Reader) error {
 		if kerningClass == 0 {
 			return parser.NewError("kerning pair class can't be zero")
 		}
+		if kerningClass > numKerningClasses {
+			return parser.NewError("kerning pair class is not defined")
+		}
+		if int(firstIndex) >= len(self.glyphOrder) || int(secondIndex) >= len(self.glyphOrder) {
+			return parser.NewError("kerning pair glyph index out of range")
+		}
 		
 		first  := self.glyphOrder[firstIndex]
 		second := self.glyphOrder[secondIndex]
@@ -775,6 +781,12 @@ func (self *Font) ParseEditionData(reader io.Reader) error {
 		if kerningClass == 0 {
 			return parser.NewError("kerning pair class can't be zero")
 		}
+		if kerningClass > numKerningClasses {
+			return parser.NewError("kerning pair class is not defined")
+		}
+		if int(firstIndex) >= len(self.glyphOrder) || int(secondIndex) >= len(self.glyphOrder) {
+			return parser.NewError("kerning pair glyph index out of range")
+		}
 		
 		first  := self.glyphOrder[firstIndex]
 		second := self.glyphOrder[secondIndex]
-- 
2.43.0


From f2b5a101ba5d94210df8cbe7fd39b5b6a67fbe69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:45 +0000
Subject: [PATCH 28/79] fix: clearing edition data removes the kerning pairs it
 introduced

---
 builder/font_builder.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/builder/font_builder.go b/builder/font_builder.go
index 112775b..c82781f 100644
--- a/builder/font_builder.go
+++ b/builder/font_builder.go
@@ -830,11 +830,14 @@ func (self *Font) ParseEditionData(reader io.Reader) error {
 func (self *Font) ClearEditionData() {
 	self.categories = self.categories[ : 0]
 	self.kerningClasses = self.kerningClasses[ : 0]
-	for _, kerningPair := range self.horzKerningPairs {
-		kerningPair.Class = 0
-	}
-	for _, kerningPair := range self.vertKerningPairs {
-		kerningPair.Class = 0
+	for _, kerningPairs := range []map[[2]uint64]*editionKerningPair{self.horzKerningPairs, self.vertKerningPairs} {
+		for key, kerningPair := range kerningPairs {
+			if kerningPair.HasClass() && kerningPair.Value == 0 {
+				delete(kerningPairs, key) // pair only defined through the class
+			} else {
+				kerningPair.Class = 0
+			}
+		}
 	}
 	for i, _ := range self.rewriteConditions {
 		self.rewriteConditions[i].EditorName = ""
-- 
2.43.0


From 53002ef193dee703cb78dfa8ae71816de608c464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:45 +0000
Subject: [PATCH 29/79] fix: read the edition data signature fully when the
 reader returns short reads

---
 builder/font_builder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/builder/font_builder.go b/builder/font_builder.go
index c82781f..448929f 100644
--- a/builder/font_builder.go
+++ b/builder/font_builder.go
@@ -691,7 +691,7 @@ func (self *Font) ParseEditionData(reader io.Reader) error {
 	parser.FileType = "ggwkfnt"
 
 	// read signature first (this is not gzipped, so it's important)
-	n, err := reader.Read(parser.TempBuff[0 : 6])
+	n, err := io.ReadFull(reader, parser.TempBuff[0 : 6])
 	if err != nil || n != 6 {
 		return parser.NewError("failed to read file signature")
 	}
-- 
2.43.0


From 64e07268f114e942240027b14856698c9ac02632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:46 +0000
Subject: [PATCH 30/79] fix: ignore kerning pairs for undefined glyphs so Build
 does not panic

---
 builder/font_builder_props.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/builder/font_builder_props.go b/builder/font_builder_props.go
index 71ab823..303172d 100644
--- a/builder/font_builder_props.go
+++ b/builder/font_builder_props.go
@@ -247,7 +247,9 @@ func checkStringValidity(str string) error {
 
 // ---- kerning ----
 
+// Pairs with undefined glyphs are ignored.
 func (self *Font) SetKerningPair(uidPrev, uidNext uint64, kerning int8) {
+	if self.glyphData[uidPrev] == nil || self.glyphData[uidNext] == nil { return }
 	if kerning == 0 {
 		delete(self.horzKerningPairs, [2]uint64{uidPrev, uidNext})
 	} else {
-- 
2.43.0


From 7218510c56b40319711e967995f225d3b039ca61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:46 +0000
Subject: [PATCH 31/79] fix: refuse empty font names, which parsing does not
 accept

---
 builder/font_builder_props.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/builder/font_builder_props.go b/builder/font_builder_props.go
index 303172d..36ace11 100644
--- a/builder/font_builder_props.go
+++ b/builder/font_builder_props.go
@@ -68,6 +68,7 @@ func (self *Font) SetVersion(major, minor uint16) {
 
 func (self *Font) GetName() string { return self.fontName }
 func (self *Font) SetName(name string) error {
+	if len(name) == 0 { return errors.New("font name can't be empty") }
 	if len(name) > 255 { return errors.New("font name can't exceed 255 bytes") }
 	err := checkStringValidity(name)
 	if err != nil { return err }
-- 
2.43.0


From a6903bc41f506922db90cbeaa500ae5fe9f0e565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:46 +0000
Subject: [PATCH 32/79] fix: report vert interspacing without vert layout when
 building, as parsing does

---
 builder/font_builder_props.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/builder/font_builder_props.go b/builder/font_builder_props.go
index 36ace11..be3132c 100644
--- a/builder/font_builder_props.go
+++ b/builder/font_builder_props.go
@@ -112,6 +112,9 @@ func (self *Font) GetMetricsStatus() error {
 	if self.ascent <= self.extraAscent { return errors.New("ascent must be greater than extra ascent") }
 	if self.ascent < self.midlineAscent { return errors.New("ascent must be equal or greater than midline ascent") }
 	if self.ascent < self.uppercaseAscent { return errors.New("ascent must be equal or greater than uppercase ascent") }
+	if self.vertInterspacing != 0 && !self.hasVertLayout {
+		return errors.New("vert interspacing can't be set without enabling vert layout")
+	}
 	if self.midlineAscent > self.uppercaseAscent { return errors.New("midline ascent must be equal or greater than uppercase ascent") }
 	return nil
 }
-- 
2.43.0


From 8c538a16eb523c84eee25dc7fa09eaeb5ccd8c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:46 +0000
Subject: [PATCH 33/79] fix: copy the glyph mask given to AddGlyph

---
 builder/font_builder_props.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/builder/font_builder_props.go b/builder/font_builder_props.go
index be3132c..50cb281 100644
--- a/builder/font_builder_props.go
+++ b/builder/font_builder_props.go
@@ -3,6 +3,7 @@ package builder
 import "fmt"
 import "image"
 import "errors"
+import "slices"
 import "unicode/utf8"
 
 import "github.com/tinne26/ggfnt"
@@ -213,7 +214,7 @@ func (self *Font) AddGlyph(glyphMask *image.Alpha) (uint64, error) {
 					BottomAdvance: self.descent,
 					HorzCenter: uint8(min(255, glyphMask.Bounds().Dx()/2)),
 				},
-				Mask: glyphMask,
+				Mask: cloneMask(glyphMask),
 			}
 			self.glyphOrder = append(self.glyphOrder, glyphUID)
 			return glyphUID, nil
@@ -239,6 +240,12 @@ func (self *Font) SetGlyphName(glyphUID uint64, name string) error {
 	return nil
 }
 
+func cloneMask(glyphMask *image.Alpha) *image.Alpha {
+	clone := *glyphMask
+	clone.Pix = slices.Clone(glyphMask.Pix)
+	return &clone
+}
+
 func checkStringValidity(str string) error {
 	if !utf8.ValidString(str) { return errors.New("string contains invalid characters") }
 	for _, codePoint := range str {
-- 
2.43.0


From 2e97a765944df2f7737b109a7e847ea2edf0f0dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:47 +0000
Subject: [PATCH 34/79] fix: MapWithSwitch validates glyphs and group sizes,
 and keeps animation flags aligned

---
 builder/font_builder_mapping.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/builder/font_builder_mapping.go b/builder/font_builder_mapping.go
index e19d448..dc300e0 100644
--- a/builder/font_builder_mapping.go
+++ b/builder/font_builder_mapping.go
@@ -214,13 +214,16 @@ func (self *Font) MapWithSwitch(codePoint rune, mapSwitch uint8, glyphUIDs [][]u
 	if len(glyphUIDs) != numSwitchCases {
 		return fmt.Errorf("switch %d expects %d glyph groups, but received %d", mapSwitch, numSwitchCases, len(glyphUIDs))
 	}
-	finalAnimFlags := make([]ggfnt.AnimationFlags, 0, len(glyphUIDs))
+	finalAnimFlags := make([]ggfnt.AnimationFlags, len(glyphUIDs))
 	animFlagIndex := 0
-	for _, group := range glyphUIDs {
+	for i, group := range glyphUIDs {
 		if len(group) == 0 { panic("glyph groups can't be empty") }
+		if len(group) > 128 { return errors.New("glyph groups can't exceed 128 glyphs") }
+		err := self.validateMapGlyphs(codePoint, group...)
+		if err != nil { return err }
 		if len(group) == 1 { continue }
 		if len(animFlags) <= animFlagIndex { return errors.New("not enough animation flags for all multi-glyph groups") }
-		finalAnimFlags = append(finalAnimFlags, animFlags[animFlagIndex])
+		finalAnimFlags[i] = animFlags[animFlagIndex]
 		animFlagIndex += 1
 	}
 	if animFlagIndex != len(animFlags) {
-- 
2.43.0


From 288396f9825a1f6e14e2ee0b182a9ea08acfdabf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:47 +0000
Subject: [PATCH 35/79] fix: MapWithSwitchSingles validates the given glyphs

---
 builder/font_builder_mapping.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/builder/font_builder_mapping.go b/builder/font_builder_mapping.go
index dc300e0..bc188b3 100644
--- a/builder/font_builder_mapping.go
+++ b/builder/font_builder_mapping.go
@@ -187,6 +187,9 @@ func (self *Font) MapWithSwitchSingles(codePoint rune, mapSwitch uint8, glyphUID
 		return fmt.Errorf("switch %d expects %d glyph groups, but received %d", mapSwitch, numSwitchCases, len(glyphUIDs))
 	}
 	
+	err := self.validateMapGlyphs(codePoint, glyphUIDs...)
+	if err != nil { return err }
+	
 	cases := make([]mappingGroup, 0, len(glyphUIDs))
 	for _, glyphUID := range glyphUIDs {
 		cases = append(cases, mappingGroup{ Glyphs: []uint64{glyphUID}, AnimationFlags: 0 })
-- 
2.43.0


From d3efff46e12e6131638c85557beccff9bb3d6fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:47 +0000
Subject: [PATCH 36/79] fix: mapping groups keep a copy of the given glyphs

---
 builder/font_builder_mapping.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/builder/font_builder_mapping.go b/builder/font_builder_mapping.go
index bc188b3..712dac9 100644
--- a/builder/font_builder_mapping.go
+++ b/builder/font_builder_mapping.go
@@ -156,7 +156,7 @@ func (self *Font) MapGroup(codePoint rune, animFlags ggfnt.AnimationFlags, glyph
 	// actual addition
 	self.runeMapping[codePoint] = mappingEntry{
 		SwitchType: 254,
-		SwitchCases: []mappingGroup{ mappingGroup{ Glyphs: glyphUIDs, AnimationFlags: animFlags } },
+		SwitchCases: []mappingGroup{ mappingGroup{ Glyphs: slices.Clone(glyphUIDs), AnimationFlags: animFlags } },
 	}
 	return nil
 }
@@ -235,7 +235,7 @@ func (self *Font) MapWithSwitch(codePoint rune, mapSwitch uint8, glyphUIDs [][]u
 	
 	cases := make([]mappingGroup, 0, len(glyphUIDs))
 	for i, group := range glyphUIDs {
-		cases = append(cases, mappingGroup{ Glyphs: group, AnimationFlags: finalAnimFlags[i] })
+		cases = append(cases, mappingGroup{ Glyphs: slices.Clone(group), AnimationFlags: finalAnimFlags[i] })
 	}
 	self.runeMapping[codePoint] = mappingEntry{
 		SwitchType: mapSwitch,
-- 
2.43.0


From 68753cf13881417f9f34300ee61e8b309f363aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:47 +0000
Subject: [PATCH 37/79] fix: keep the order of the glyphs in mapping groups

---
 builder/font_builder_mapping.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/builder/font_builder_mapping.go b/builder/font_builder_mapping.go
index 712dac9..52e5290 100644
--- a/builder/font_builder_mapping.go
+++ b/builder/font_builder_mapping.go
@@ -99,8 +99,6 @@ func (self *mappingGroup) AppendTo(data []byte, glyphLookup map[uint64]uint16, s
 		scratchBuffer[i] = glyphIndex
 	}
 
-	// sort scratch buffer, makes it easier to see if glyphs are consecutive
-	slices.Sort(scratchBuffer)
 	if isContinuousSlice(scratchBuffer) {
 		data = append(data, 0b1000_0000 | uint8(len(self.Glyphs) - 1))
 		data = append(data, uint8(self.AnimationFlags))
-- 
2.43.0


From 7a56dff74ccc9b61f2954d49447763814197b364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:48 +0000
Subject: [PATCH 38/79] fix: refuse mapping switches with more than 254 cases

---
 builder/font_builder_mapping.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/builder/font_builder_mapping.go b/builder/font_builder_mapping.go
index 52e5290..2cb9ace 100644
--- a/builder/font_builder_mapping.go
+++ b/builder/font_builder_mapping.go
@@ -18,6 +18,7 @@ func (self *Font) AddSwitch(settings ...ggfnt.SettingKey) (uint8, error) {
 	if len(self.mappingSwitches) >= 254 {
 		return 0, errors.New("can't have more than 254 mapping switches")
 	}
+	numCases := 1
 	repeated := make(map[ggfnt.SettingKey]struct{}, len(settings))
 	numSettings := uint8(len(self.settings))
 	newSettings := make([]uint8, 0, len(settings))
@@ -31,6 +32,10 @@ func (self *Font) AddSwitch(settings ...ggfnt.SettingKey) (uint8, error) {
 		}
 		repeated[setting] = struct{}{}
 		newSettings = append(newSettings, uint8(setting))
+		numCases *= len(self.settings[setting].Options)
+		if numCases > 254 {
+			return 0, errors.New("mapping switch can't have more than 254 cases")
+		}
 	}
 
 	key := uint8(len(self.mappingSwitches))
-- 
2.43.0


From ff92fd9eee6987060b04cbd35f795a58fc62dcae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:48 +0000
Subject: [PATCH 39/79] fix: Build reports too many mapped code points as an
 error

---
 builder/font_builder.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/builder/font_builder.go b/builder/font_builder.go
index 448929f..fcda454 100644
--- a/builder/font_builder.go
+++ b/builder/font_builder.go
@@ -439,7 +439,9 @@ func (self *Font) Build() (*ggfnt.Font, error) {
 	}
 	
 	// main mapping
-	if len(self.runeMapping) > ggfnt.MaxGlyphs { panic(invalidInternalState) }
+	if len(self.runeMapping) > ggfnt.MaxGlyphs {
+		return nil, errors.New("font maps too many code points")
+	}
 	font.OffsetToMapping = uint32(len(data))
 	numMappingEntries := uint16(len(self.runeMapping))
 	data = internal.AppendUint16LE(data, numMappingEntries)
-- 
2.43.0


From 281728882e9d8ba51521ab4d0d00704b5592b871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:48 +0000
Subject: [PATCH 40/79] fix: refuse settings without options

---
 builder/font_builder_settings.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/builder/font_builder_settings.go b/builder/font_builder_settings.go
index 80e8870..71023e5 100644
--- a/builder/font_builder_settings.go
+++ b/builder/font_builder_settings.go
@@ -77,6 +77,9 @@ func (self *Font) AddSetting(name string, options ...string) (ggfnt.SettingKey,
 		if err != nil { return 0, err }
 	}
 
+	if len(options) < 1 {
+		return 0, errors.New("setting must have at least 1 option")
+	}
 	if len(options) > 255 {
 		return 0, errors.New("setting can't have more than 255 options")
 	}
-- 
2.43.0


From 8ef7e14063d65da5dfbfe916d44cf238b95a6b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:48 +0000
Subject: [PATCH 41/79] fix: settings keep a copy of the given options

---
 builder/font_builder_settings.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/builder/font_builder_settings.go b/builder/font_builder_settings.go
index 71023e5..2184e6f 100644
--- a/builder/font_builder_settings.go
+++ b/builder/font_builder_settings.go
@@ -95,6 +95,6 @@ func (self *Font) AddSetting(name string, options ...string) (ggfnt.SettingKey,
 	}
 	
 	key := ggfnt.SettingKey(len(self.settings))
-	self.settings = append(self.settings, settingEntry{ Name: name, Options: options })
+	self.settings = append(self.settings, settingEntry{ Name: name, Options: slices.Clone(options) })
 	return key, nil
 }
-- 
2.43.0


From bb1b48394e4201578f531f553c49eccd4278339b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:49 +0000
Subject: [PATCH 42/79] fix: EachDyeAlpha and EachPaletteColor find existing
 sections

---
 builder/font_builder_color.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/builder/font_builder_color.go b/builder/font_builder_color.go
index 93abafd..f856ec2 100644
--- a/builder/font_builder_color.go
+++ b/builder/font_builder_color.go
@@ -23,6 +23,7 @@ func (self *Font) EachDyeAlpha(name string, fn func(alpha, index uint8)) error {
 			for index, alpha := range self.dyes[index].alphas {
 				fn(alpha, uint8(clrIndex - index)) // TODO: this might be an inverse order...
 			}
+			return nil
 		} else {
 			clrIndex -= len(self.dyes[index].alphas)
 		}
@@ -72,8 +73,9 @@ func (self *Font) EachPaletteColor(name string, fn func(rgba color.RGBA, index u
 			for index, clr := range self.palettes[index].colors {
 				fn(clr, uint8(clrIndex - index)) // TODO: this might be an inverse order...
 			}
+			return nil
 		} else {
-			clrIndex -= len(self.dyes[index].alphas)
+			clrIndex -= len(self.palettes[index].colors)
 		}
 	}
 	return errors.New("palette section not found")
-- 
2.43.0


From 4c4628889e6824240cd6740d1567c78a85c09c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:49 +0000
Subject: [PATCH 43/79] fix: refuse unnamed and empty color sections, which the
 format can't represent

---
 builder/font_builder_color.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/builder/font_builder_color.go b/builder/font_builder_color.go
index f856ec2..6e518e7 100644
--- a/builder/font_builder_color.go
+++ b/builder/font_builder_color.go
@@ -32,6 +32,8 @@ func (self *Font) EachDyeAlpha(name string, fn func(alpha, index uint8)) error {
 }
 
 func (self *Font) AddDye(name string, alphas ...uint8) error {
+	if len(alphas) == 0 { return errors.New("dye must have at least one alpha value") }
+
 	// ensure no name collisions
 	err := self.checkColorSectionNameCollision(name)
 	if err != nil { return err }
@@ -82,6 +84,8 @@ func (self *Font) EachPaletteColor(name string, fn func(rgba color.RGBA, index u
 }
 
 func (self *Font) AddPalette(name string, colors ...color.RGBA) error {
+	if len(colors) == 0 { return errors.New("palette must have at least one color") }
+
 	// ensure no name collisions
 	err := self.checkColorSectionNameCollision(name)
 	if err != nil { return err }
@@ -103,6 +107,8 @@ func (self *Font) AddPalette(name string, colors ...color.RGBA) error {
 // --- shared helpers ---
 
 func (self *Font) checkColorSectionNameCollision(name string) error {
+	if len(name) == 0 { return errors.New("color section name can't be empty") }
+	if len(name) > 255 { return errors.New("color section name can't exceed 255 bytes") }
 	for index, _ := range self.dyes {
 		if self.dyes[index].name == name {
 			return errors.New("the given name is already taken by an existing dye section")
-- 
2.43.0


From 818fd02017a5a0c707c47624cbe5126d3ffed9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:49 +0000
Subject: [PATCH 44/79] fix: CreateRuneSet works on a new builder

---
 builder/font_builder_rewrite_sets.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/builder/font_builder_rewrite_sets.go b/builder/font_builder_rewrite_sets.go
index d8cd9e8..8d69859 100644
--- a/builder/font_builder_rewrite_sets.go
+++ b/builder/font_builder_rewrite_sets.go
@@ -178,11 +178,13 @@ func (self *Font) CreateRuneSet() (uint64, error) {
 	
 	uid, err := internal.CryptoRandUint64()
 	if err != nil { return 0, err } // don't think this can ever happen
-	_, found := self.rewriteGlyphSets[uid]
+	_, found := self.rewriteRuneSets[uid]
 	if found {
 		return 0, errors.New("failed to generate unique rune set UID")
 	}
+	if self.rewriteRuneSets == nil { self.rewriteRuneSets = make(map[uint64]reRuneSet) }
 	self.rewriteRuneSets[uid] = reRuneSet{}
+	self.runeSetsOrder = append(self.runeSetsOrder, uid)
 	return uid, nil
 }
 
-- 
2.43.0


From 7f431866f8732cc67b10f7a442107dfbfbd84515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:49 +0000
Subject: [PATCH 45/79] fix: removing a rewrite set also removes it from the
 encoding order

---
 builder/font_builder_rewrite_sets.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/builder/font_builder_rewrite_sets.go b/builder/font_builder_rewrite_sets.go
index 8d69859..bfc4c55 100644
--- a/builder/font_builder_rewrite_sets.go
+++ b/builder/font_builder_rewrite_sets.go
@@ -78,6 +78,7 @@ func (self *Font) RemoveGlyphSet(setUID uint64) bool {
 	_, found := self.rewriteGlyphSets[setUID]
 	if !found { return false }
 	delete(self.rewriteGlyphSets, setUID)
+	self.glyphSetsOrder = slices.DeleteFunc(self.glyphSetsOrder, func(uid uint64) bool { return uid == setUID })
 	return true
 }
 
@@ -192,6 +193,7 @@ func (self *Font) RemoveRuneSet(setUID uint64) bool {
 	_, found := self.rewriteRuneSets[setUID]
 	if !found { return false }
 	delete(self.rewriteRuneSets, setUID)
+	self.runeSetsOrder = slices.DeleteFunc(self.runeSetsOrder, func(uid uint64) bool { return uid == setUID })
 	return true
 }
 
-- 
2.43.0


From 4f374e8c63205c1c7de08b955fd04f2ca9c09f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:50 +0000
Subject: [PATCH 46/79] fix: removing ranges and elements from rewrite sets
 actually removes them

---
 builder/font_builder_rewrite_sets.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/builder/font_builder_rewrite_sets.go b/builder/font_builder_rewrite_sets.go
index bfc4c55..43da3c0 100644
--- a/builder/font_builder_rewrite_sets.go
+++ b/builder/font_builder_rewrite_sets.go
@@ -111,7 +111,7 @@ func (self *Font) RemoveGlyphSetRange(setUID, rangeStartGlyphUID, rangeEndGlyphU
 		}
 	}
 	if rangeIndex == -1 { return false }
-	set.ranges = slices.Delete(set.ranges, rangeIndex, rangeIndex)
+	set.ranges = slices.Delete(set.ranges, rangeIndex, rangeIndex + 1)
 	self.rewriteGlyphSets[setUID] = set
 	return true
 }
@@ -151,7 +151,7 @@ func (self *Font) RemoveGlyphSetListGlyph(setUID, glyphUID uint64) bool {
 		}
 	}
 	if listIndex == -1 { return false }
-	set.list = slices.Delete(set.list, listIndex, listIndex)
+	set.list = slices.Delete(set.list, listIndex, listIndex + 1)
 	self.rewriteGlyphSets[setUID] = set
 	return true
 }
@@ -224,7 +224,7 @@ func (self *Font) RemoveRuneSetRange(setUID uint64, rangeStart, rangeEnd rune) b
 		}
 	}
 	if rangeIndex == -1 { return false }
-	set.ranges = slices.Delete(set.ranges, rangeIndex, rangeIndex)
+	set.ranges = slices.Delete(set.ranges, rangeIndex, rangeIndex + 1)
 	self.rewriteRuneSets[setUID] = set
 	return true
 }
@@ -261,7 +261,7 @@ func (self *Font) RemoveRuneSetListRune(setUID uint64, codePoint rune) bool {
 		}
 	}
 	if listIndex == -1 { return false }
-	set.list = slices.Delete(set.list, listIndex, listIndex)
+	set.list = slices.Delete(set.list, listIndex, listIndex + 1)
 	self.rewriteRuneSets[setUID] = set
 	return true
 }
-- 
2.43.0


From eb0b124d935476c1567eaed8a148269ffde13af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:50 +0000
Subject: [PATCH 47/79] fix: encode glyph sets with exactly 255 ranges or
 glyphs

---
 builder/font_builder_rewrite_sets.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/builder/font_builder_rewrite_sets.go b/builder/font_builder_rewrite_sets.go
index 43da3c0..d4f2e34 100644
--- a/builder/font_builder_rewrite_sets.go
+++ b/builder/font_builder_rewrite_sets.go
@@ -21,8 +21,8 @@ func (self *reGlyphSet) GetSize() uint32 {
 }
 
 func (self *reGlyphSet) AppendTo(data []byte, glyphLookup map[uint64]uint16) ([]byte, error) {
-	if len(self.ranges) >= 255 { panic(invalidInternalState) }
-	if len(self.list) >= 255 { panic(invalidInternalState) }
+	if len(self.ranges) > 255 { panic(invalidInternalState) }
+	if len(self.list) > 255 { panic(invalidInternalState) }
 
 	// ranges
 	data = append(data, uint8(len(self.ranges)))
-- 
2.43.0


From 47059badc998768a0800430bb57fbffa01ae288f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:50 +0000
Subject: [PATCH 48/79] fix: encode rune sets instead of panicking when
 building

---
 builder/font_builder.go              | 25 ++++++++++++++++++++---
 builder/font_builder_rewrite_sets.go | 30 ++++++++++++++++++++++++++++
 2 files changed, 52 insertions(+), 3 deletions(-)

diff --git a/builder/font_builder.go b/builder/font_builder.go
index fcda454..5871781 100644
--- a/builder/font_builder.go
+++ b/builder/font_builder.go
@@ -512,10 +512,29 @@ func (self *Font) Build() (*ggfnt.Font, error) {
 	// rewrite sets
 	font.OffsetToRewriteUtf8Sets = uint32(len(data))
 	var runeSetsMap = make(map[uint64]uint8)
-	data = append(data, 0) // NumUtf8Sets
-	// ... (TODO)
+	if len(self.rewriteRuneSets) > 255 { panic(invalidInternalState) }
+	if len(self.rewriteRuneSets) != len(self.runeSetsOrder) { panic(invalidInternalState) }
+	data = append(data, uint8(len(self.rewriteRuneSets))) // NumUtf8Sets
 	if len(self.rewriteRuneSets) > 0 {
-		panic("rune sets encoding unimplemented")
+		// UTF8SetEndOffsets
+		var offset uint32
+		for index, setUID := range self.runeSetsOrder {
+			runeSetsMap[setUID] = uint8(index)
+			set, found := self.rewriteRuneSets[setUID]
+			if !found { panic(invalidInternalState) }
+			offset += set.GetSize()
+			if offset > 65535 {
+				return nil, errors.New("rewrite rune sets contain too much data (can't exceed 65535 bytes)")
+			}
+			data = internal.AppendUint16LE(data, uint16(offset))
+		}
+
+		// UTF8Sets
+		for _, setUID := range self.runeSetsOrder {
+			set := self.rewriteRuneSets[setUID]
+			data, err = set.AppendTo(data)
+			if err != nil { return nil, err }
+		}
 	}
 	
 	if len(self.rewriteGlyphSets) > 255 { panic(invalidInternalState) }
diff --git a/builder/font_builder_rewrite_sets.go b/builder/font_builder_rewrite_sets.go
index d4f2e34..186e133 100644
--- a/builder/font_builder_rewrite_sets.go
+++ b/builder/font_builder_rewrite_sets.go
@@ -172,6 +172,34 @@ type reRuneSet struct {
 	list []rune
 }
 
+func (self *reRuneSet) GetSize() uint32 {
+	return uint32(2 + len(self.ranges)*5 + len(self.list)*4)
+}
+
+func (self *reRuneSet) AppendTo(data []byte) ([]byte, error) {
+	if len(self.ranges) > 255 { panic(invalidInternalState) }
+	if len(self.list) > 255 { panic(invalidInternalState) }
+
+	// ranges
+	data = append(data, uint8(len(self.ranges)))
+	for _, runeRange := range self.ranges {
+		rangeLen := int64(runeRange.Last) - int64(runeRange.First)
+		if rangeLen > 255 {
+			return data, errors.New("rewrite rune set range can't exceed length 255")
+		}
+		data = internal.AppendUint32LE(data, uint32(runeRange.First))
+		data = append(data, uint8(rangeLen))
+	}
+
+	// list
+	data = append(data, uint8(len(self.list)))
+	for _, codePoint := range self.list {
+		data = internal.AppendUint32LE(data, uint32(codePoint))
+	}
+
+	return data, nil
+}
+
 func (self *Font) CreateRuneSet() (uint64, error) {
 	if len(self.rewriteRuneSets) >= 255 {
 		return 0, errors.New("font can't contain more than 255 rune sets")
@@ -200,6 +228,7 @@ func (self *Font) RemoveRuneSet(setUID uint64) bool {
 func (self *Font) AddRuneSetRange(setUID uint64, rangeStart, rangeEnd rune) error {
 	set, found := self.rewriteRuneSets[setUID]
 	if !found { return errors.New("invalid rune set UID") }
+	if len(set.ranges) >= 255 { return errors.New("rune set can't contain more than 255 ranges") }
 	if rangeStart > rangeEnd {
 		return errors.New("invalid rune range (start > end)")
 	}
@@ -240,6 +269,7 @@ func (self *Font) EachRuneSetRange(setUID uint64, each func(start, end rune)) {
 func (self *Font) AddRuneSetListRune(setUID uint64, codePoint rune) error {
 	set, found := self.rewriteRuneSets[setUID]
 	if !found { return errors.New("invalid rune set UID") }
+	if len(set.list) >= 255 { return errors.New("rune set can't contain more than 255 runes") }
 	for _, listGlyphUID := range set.list {
 		if listGlyphUID == codePoint {
 			return errors.New("rune already included")
-- 
2.43.0


From 9f0f5376ce8e54a879078fc9a48b19baabaeb2ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:50 +0000
Subject: [PATCH 49/79] fix: refuse glyph rewrite rules with invalid block or
 output lengths

---
 builder/font_builder_rewrite_rules.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/builder/font_builder_rewrite_rules.go b/builder/font_builder_rewrite_rules.go
index 3ec9672..86b7d16 100644
--- a/builder/font_builder_rewrite_rules.go
+++ b/builder/font_builder_rewrite_rules.go
@@ -232,14 +232,18 @@ func (self *Font) AddUtf8RewriteRule(headLen, bodyLen, tailLen uint8, input []an
 // Ids can be for glyphs or glyph sets, we assume they won't collide.
 func (self *Font) AddGlyphRewriteRule(headLen, bodyLen, tailLen uint8, input []uint64, out ...uint64) error {
 	// validate input sizes
-	if bodyLen == 0 { errors.New("rewrite rule exceeds input body must have len >= 1") }
-	headBodyLen := headLen + bodyLen
-	if headBodyLen < bodyLen || headBodyLen + tailLen < tailLen {
+	if bodyLen == 0 { return errors.New("rewrite rule input body must have len >= 1") }
+	inputLen := int(headLen) + int(bodyLen) + int(tailLen)
+	if inputLen > 255 {
 		return errors.New("rewrite rule exceeds 255 input elements")
 	}
-	if int(headBodyLen + tailLen) != len(input) {
+	if inputLen != len(input) {
 		return errors.New("rewrite rule input block lengths don't match given input")
 	}
+	if len(out) == 0 { return errors.New("rewrite rule output can't be empty") }
+	if len(out) > int(bodyLen) {
+		return errors.New("rewrite rule output can't be longer than the input body")
+	}
 	
 	// validate output glyphs
 	for _, glyphUID := range out {
-- 
2.43.0


From 3d0126e31982a1e3ea52ea9e5cdeb3813fe3356a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:51 +0000
Subject: [PATCH 50/79] fix: rewrite rules keep a copy of the given sequences

---
 builder/font_builder_rewrite_rules.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/builder/font_builder_rewrite_rules.go b/builder/font_builder_rewrite_rules.go
index 86b7d16..979a556 100644
--- a/builder/font_builder_rewrite_rules.go
+++ b/builder/font_builder_rewrite_rules.go
@@ -1,6 +1,7 @@
 package builder
 
 import "errors"
+import "slices"
 
 import "github.com/tinne26/ggfnt/internal"
 
@@ -216,7 +217,7 @@ func (self *Font) AddSimpleUtf8RewriteRule(replacement rune, sequence ...rune) e
 	if len(sequence) == 0 { return errors.New("rewrite rule sequence can't be empty") }
 	if len(sequence) > 255 { return errors.New("rewrite rule sequence can't exceed 255 runes") }
 	
-	rule := utf8RewriteRule{ condition: 255, bodyLen: uint8(len(sequence)), inRunes: sequence, output: []rune{replacement} }
+	rule := utf8RewriteRule{ condition: 255, bodyLen: uint8(len(sequence)), inRunes: slices.Clone(sequence), output: []rune{replacement} }
 	for i := 0; i < len(sequence); i++ {
 		rule.inElemsAreGroups.Push(false)
 	}
@@ -277,7 +278,7 @@ func (self *Font) AddGlyphRewriteRule(headLen, bodyLen, tailLen uint8, input []u
 	rule.tailLen = tailLen
 	rule.inGlyphs = inGlyphs
 	rule.inGroups = inGroups
-	rule.output = out
+	rule.output = slices.Clone(out)
 	self.glyphRules = append(self.glyphRules, rule)
 	return nil
 }
-- 
2.43.0


From 3d7bd35673c690e5da4a2454f5173d3a9009031e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:51 +0000
Subject: [PATCH 51/79] fix: refuse more rewrite rules than the format can
 represent

---
 builder/font_builder_rewrite_rules.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/builder/font_builder_rewrite_rules.go b/builder/font_builder_rewrite_rules.go
index 979a556..6fb33c9 100644
--- a/builder/font_builder_rewrite_rules.go
+++ b/builder/font_builder_rewrite_rules.go
@@ -214,6 +214,7 @@ func (self *utf8RewriteRule) appendAccumulatedInBlock(data []byte, groups []uint
 // --- public API ---
 
 func (self *Font) AddSimpleUtf8RewriteRule(replacement rune, sequence ...rune) error {
+	if len(self.utf8Rules) >= 65535 { return errors.New("font can't contain more than 65535 utf8 rewrite rules") }
 	if len(sequence) == 0 { return errors.New("rewrite rule sequence can't be empty") }
 	if len(sequence) > 255 { return errors.New("rewrite rule sequence can't exceed 255 runes") }
 	
@@ -232,6 +233,8 @@ func (self *Font) AddUtf8RewriteRule(headLen, bodyLen, tailLen uint8, input []an
 
 // Ids can be for glyphs or glyph sets, we assume they won't collide.
 func (self *Font) AddGlyphRewriteRule(headLen, bodyLen, tailLen uint8, input []uint64, out ...uint64) error {
+	if len(self.glyphRules) >= 65535 { return errors.New("font can't contain more than 65535 glyph rewrite rules") }
+
 	// validate input sizes
 	if bodyLen == 0 { return errors.New("rewrite rule input body must have len >= 1") }
 	inputLen := int(headLen) + int(bodyLen) + int(tailLen)
-- 
2.43.0


From fb6ff38e06a313efb0f769c775298908c56af909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:17 +0000
Subject: [PATCH 52/79] fix: the mapping cache entries form a single list from
 the start, so eviction is LRU

---
 mapping_cache.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mapping_cache.go b/mapping_cache.go
index 7891259..77c5937 100644
--- a/mapping_cache.go
+++ b/mapping_cache.go
@@ -59,7 +59,7 @@ func NewMappingCache(font *Font, size int) *MappingCache {
 
 	cache := &MappingCache{
 		font: font, 
-		mruIndex: noEntry,
+		mruIndex: uint16(size - 1),
 		lruIndex: 0,
 		cachedMappings: make(map[rune]uint16, size),
 		mappingEntries: make([]mappingEntry, size),
@@ -71,7 +71,7 @@ func NewMappingCache(font *Font, size int) *MappingCache {
 // Resets the mapping cache completely, with only the size being preserved.
 func (self *MappingCache) Reset(font *Font) {
 	self.font = font
-	self.mruIndex = noEntry
+	self.mruIndex = uint16(len(self.mappingEntries) - 1)
 	self.lruIndex = 0
 	clear(self.mappingEntries)
 	clear(self.cachedMappings)
-- 
2.43.0


From 6efcfe0f402fa275d662163ebef3eafc68a008c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:17 +0000
Subject: [PATCH 53/79] fix: never used mapping cache entries do not evict code
 point zero

---
 mapping_cache.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mapping_cache.go b/mapping_cache.go
index 77c5937..2ff32d6 100644
--- a/mapping_cache.go
+++ b/mapping_cache.go
@@ -127,7 +127,9 @@ func (self *MappingCache) Get(codePoint rune, settings *SettingsCache) (GlyphMap
 		entry.codePoint = codePoint // code point also updated in this case
 
 		// delete previous entry, link new one
-		delete(self.cachedMappings, evictedCodePoint)
+		if evictedIndex, found := self.cachedMappings[evictedCodePoint]; found && evictedIndex == self.lruIndex {
+			delete(self.cachedMappings, evictedCodePoint)
+		}
 		self.cachedMappings[codePoint] = self.lruIndex
 
 		// update MRU and return
-- 
2.43.0


From 4e7ad311f694e4e5268841aad6cf372beb8fcec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:18 +0000
Subject: [PATCH 54/79] fix: cached mapping groups preserve the switch type

---
 mapping_cache.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mapping_cache.go b/mapping_cache.go
index 2ff32d6..d6ad4f0 100644
--- a/mapping_cache.go
+++ b/mapping_cache.go
@@ -23,6 +23,7 @@ func (self *mappingEntry) ToMappingGroup(font *Font) GlyphMappingGroup {
 	return GlyphMappingGroup{
 		font: font,
 		offset: self.mappingOffset,
+		switchType: self.switchType,
 		caseBranch: self.caseBranch,
 		directMapping: self.directMapping,
 	}
-- 
2.43.0


From bb82ba43f48304549a0021116a97a4881166ef2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:38 +0000
Subject: [PATCH 55/79] fix: changing the circular buffer capacity keeps its
 elements in order

---
 internal/circular_buffer.go | 26 ++++++--------------------
 1 file changed, 6 insertions(+), 20 deletions(-)

diff --git a/internal/circular_buffer.go b/internal/circular_buffer.go
index b03fd91..4dee57f 100644
--- a/internal/circular_buffer.go
+++ b/internal/circular_buffer.go
@@ -115,27 +115,13 @@ func (self *CircularBufferU16[T]) SetCapacity(capacity uint16) bool {
 	// get current length and check that it's compatible with the requested capacity
 	if capacity < self.numElements { return false }
 	
-	// see if we are growing or shrinking
-	if capacity < self.capacity { // shrinking
-		lenReduction := self.capacity - capacity
-		if self.numElements > (self.capacity - self.headIndex) {
-			copy(self.buffer[self.headIndex - lenReduction : ], self.buffer[self.headIndex : ])
-			self.headIndex -= lenReduction
-		} else if self.headIndex > capacity - self.numElements {
-			copy(self.buffer[ : self.numElements], self.buffer[self.headIndex : self.headIndex + self.numElements])
-			self.headIndex = 0
-		}
-		self.buffer = self.buffer[ : capacity]
-	} else { // growing
-		extraLen := capacity - self.capacity
-		self.buffer = GrowSliceByN(self.buffer, int(extraLen))
-		
-		// correct indices if necessary
-		if self.numElements > (self.capacity - self.headIndex) {
-			copy(self.buffer[self.headIndex + extraLen : ], self.buffer[self.headIndex : self.capacity])
-			self.headIndex += extraLen
-		}
+	// move elements to the start of the new buffer
+	buffer := make([]T, capacity)
+	for i := 0; i < int(self.numElements); i++ {
+		buffer[i] = self.buffer[(int(self.headIndex) + i) % int(self.capacity)]
 	}
+	self.buffer = buffer
+	self.headIndex = 0
 
 	self.capacity = capacity
 	return true
-- 
2.43.0


From abf66d7120b6e354708d704b0cbb536e153bef97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:39 +0000
Subject: [PATCH 56/79] fix: circular buffer indices do not overflow with big
 capacities

---
 internal/circular_buffer.go | 25 +++++++++----------------
 1 file changed, 9 insertions(+), 16 deletions(-)

diff --git a/internal/circular_buffer.go b/internal/circular_buffer.go
index 4dee57f..e58f26d 100644
--- a/internal/circular_buffer.go
+++ b/internal/circular_buffer.go
@@ -131,26 +131,19 @@ func (self *CircularBufferU16[T]) SetCapacity(capacity uint16) bool {
 
 // Precondition: circular buffer is not empty.
 func (self *CircularBufferU16[T]) unsafeLastElemIndex() uint16 {
-	index := self.headIndex + self.numElements - 1
-	
-	if index < self.headIndex { // overflow case
-		return self.numElements - (self.capacity - self.headIndex)
-	} else if index < self.capacity { // simple case
-		return index
-	} else { // wrap case
-		return index - self.capacity
-	}
+	return self.unsafeElemIndex(self.numElements - 1)
 }
 
 // Precondition: circular buffer is not empty.
 func (self *CircularBufferU16[T]) unsafePeekElemIndex() uint16 {
-	index := self.headIndex + self.numPeeks
-	
-	if index < self.headIndex { // overflow case
-		return self.numPeeks - (self.capacity - self.headIndex)
-	} else if index < self.capacity { // simple case
-		return index
+	return self.unsafeElemIndex(self.numPeeks)
+}
+
+func (self *CircularBufferU16[T]) unsafeElemIndex(nth uint16) uint16 {
+	index := uint32(self.headIndex) + uint32(nth)
+	if index < uint32(self.capacity) { // simple case
+		return uint16(index)
 	} else { // wrap case
-		return index - self.capacity
+		return uint16(index - uint32(self.capacity))
 	}
 }
-- 
2.43.0


From 765257674bee3314fdb5d9cf8defc2d1c23968b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:39 +0000
Subject: [PATCH 57/79] fix: popping from the circular buffer keeps the peek
 position on its element

---
 internal/circular_buffer.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/circular_buffer.go b/internal/circular_buffer.go
index e58f26d..79b4781 100644
--- a/internal/circular_buffer.go
+++ b/internal/circular_buffer.go
@@ -85,6 +85,7 @@ func (self *CircularBufferU16[T]) PopHead() T {
 
 	element := self.buffer[self.headIndex]
 	self.numElements -= 1
+	if self.numPeeks > 0 { self.numPeeks -= 1 }
 	self.headIndex += 1
 	if self.headIndex == self.capacity {
 		self.headIndex = 0
@@ -99,6 +100,7 @@ func (self *CircularBufferU16[T]) PopTail() T {
 
 	element := self.buffer[self.unsafeLastElemIndex()]
 	self.numElements -= 1
+	if self.numPeeks > 0 && self.numPeeks == self.numElements { self.numPeeks -= 1 }
 	return element
 }
 
-- 
2.43.0


From b7dd4270d3058b9013308062c218c194536bd330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:40 +0000
Subject: [PATCH 58/79] fix: encode masks whose stride doesn't match their
 width

---
 mask/encoder.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mask/encoder.go b/mask/encoder.go
index 864b62f..ad108fa 100644
--- a/mask/encoder.go
+++ b/mask/encoder.go
@@ -119,9 +119,9 @@ func (self *Encoder) AppendRasterOps(data []byte, mask *image.Alpha) []byte {
 
 func (self *Encoder) computeMaskFragments(mask *image.Alpha) {
 	maskCopy := image.NewAlpha(mask.Rect)
-	copy(maskCopy.Pix, mask.Pix)
-	if mask.Stride != maskCopy.Stride {
-		panic("mask.Stride != maskCopy.Stride")
+	width := maskCopy.Stride
+	for row := 0; row < mask.Rect.Dy(); row++ {
+		copy(maskCopy.Pix[row*width : (row + 1)*width], mask.Pix[row*mask.Stride : ])
 	}
 
 	// find isolated pixels and diagonals (only down-left/down-right)
-- 
2.43.0


From ee12869a251c42f1be571b9cbe56e83136982f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:40 +0000
Subject: [PATCH 59/79] fix: encode masks with distances beyond 128 pixels

---
 mask/encoder.go | 33 +++++++++++++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/mask/encoder.go b/mask/encoder.go
index ad108fa..b507fb9 100644
--- a/mask/encoder.go
+++ b/mask/encoder.go
@@ -32,6 +32,9 @@ func (self *Encoder) AppendRasterOps(data []byte, mask *image.Alpha) []byte {
 	value := uint8(255) // default palette index value
 	var payload [8]byte
 	for i := 0; i < len(self.fragments); i++ {
+		// long distances require additional move operations
+		data, x, y = self.appendLongMoves(data, x, y, self.fragments[i])
+
 		// reset payload control code and payload size
 		var payloadSize int = 1
 		payload[0] = 0
@@ -49,7 +52,6 @@ func (self *Encoder) AppendRasterOps(data []byte, mask *image.Alpha) []byte {
 		// encode pre-moves to reach the target
 		xDist, yDist := self.fragments[i].GetDistsFrom(x, y)
 		if xDist != 0 {
-			if xDist < -128 || xDist > 128 { panic("distances > 128 unimplemented") } // not too hard to do
 			payload[0] |= 0b0000_0010
 			if xDist > 0 {
 				payload[payloadSize] = uint8(int8(xDist - 1)) // nzint8 conversion
@@ -63,7 +65,6 @@ func (self *Encoder) AppendRasterOps(data []byte, mask *image.Alpha) []byte {
 				payload[0] |= 0b0000_1000
 			} else {
 				payload[0] |= 0b0000_0100
-				if yDist < -128 || yDist > 128 { panic("distances > 128 unimplemented") } // not too hard to do
 				if yDist > 0 {
 					payload[payloadSize] = uint8(int8(yDist - 1)) // nzint8 conversion
 				} else {
@@ -117,6 +118,34 @@ func (self *Encoder) AppendRasterOps(data []byte, mask *image.Alpha) []byte {
 	return data
 }
 
+// Moves can't exceed 128 pixels on a single raster operation, so here we
+// append as many move operations as necessary for the remaining distance
+// to be within that limit. Returns also the new position.
+func (self *Encoder) appendLongMoves(data []byte, x, y int, fragment rasterFragment) ([]byte, int, int) {
+	for {
+		xDist, yDist := fragment.GetDistsFrom(x, y)
+		xMove, yMove := 0, 0
+		if xDist >  128 { xMove =  128 }
+		if xDist < -128 { xMove = -128 }
+		if yDist >  128 { yMove =  128 }
+		if yDist < -128 { yMove = -128 }
+		if xMove == 0 && yMove == 0 { return data, x, y }
+
+		ctrlIndex := len(data)
+		data = append(data, 0)
+		if xMove != 0 {
+			data[ctrlIndex] |= ctrlFlagPreHorzMove
+			if xMove > 0 { data = append(data, 127) } else { data = append(data, 128) } // nzint8 conversion
+		}
+		if yMove != 0 {
+			data[ctrlIndex] |= ctrlFlagPreVertMove
+			if yMove > 0 { data = append(data, 127) } else { data = append(data, 128) } // nzint8 conversion
+		}
+		x += xMove
+		y += yMove
+	}
+}
+
 func (self *Encoder) computeMaskFragments(mask *image.Alpha) {
 	maskCopy := image.NewAlpha(mask.Rect)
 	width := maskCopy.Stride
-- 
2.43.0


From ab13256522e14383492231923eb2bbf06199812a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:40 +0000
Subject: [PATCH 60/79] fix: encode masks with draws beyond 256 pixels

---
 mask/encoder.go         | 10 +++++++---
 mask/raster_fragment.go | 32 ++++++++++++++++++++++++++++++++
 2 files changed, 39 insertions(+), 3 deletions(-)

diff --git a/mask/encoder.go b/mask/encoder.go
index b507fb9..c4929c1 100644
--- a/mask/encoder.go
+++ b/mask/encoder.go
@@ -17,6 +17,13 @@ func (self *Encoder) AppendRasterOps(data []byte, mask *image.Alpha) []byte {
 	// empty mask case
 	if len(self.fragments) == 0 { return data }
 
+	// draws can't exceed 256 pixels on a single raster operation
+	for i := 0; i < len(self.fragments); i++ {
+		for self.fragments[i].ExceedsDrawLimit() {
+			self.fragments = append(self.fragments, self.fragments[i].SplitAtDrawLimit())
+		}
+	}
+
 	// sort by palette index and (y, x)
 	sort.Slice(self.fragments, func(i, j int) bool {
 		if self.fragments[i].value > self.fragments[j].value { return true  } // higher value goes first
@@ -82,7 +89,6 @@ func (self *Encoder) AppendRasterOps(data []byte, mask *image.Alpha) []byte {
 			payload[0] |= 0b0001_0000 // diagonal marker
 			if xDraw > 0 {
 				payload[0] |= 0b0010_0000
-				if xDraw > 256 { panic("draw distances > 256 unimplemented") } // not too hard to do
 				payload[payloadSize] = uint8(xDraw - 1)
 				payloadSize += 1
 			}
@@ -94,14 +100,12 @@ func (self *Encoder) AppendRasterOps(data []byte, mask *image.Alpha) []byte {
 			if xDraw > 0 && (xDraw > 1 || yDraw <= 1) {
 				payload[0] |= 0b0010_0000
 				if yDraw == 1 { yDraw = 0 }
-				if xDraw > 256 { panic("draw distances > 256 unimplemented") } // not too hard to do
 				payload[payloadSize] = uint8(xDraw - 1)
 				payloadSize += 1
 			}
 
 			if yDraw > 0 {
 				payload[0] |= 0b0100_0000
-				if yDraw > 256 { panic("draw distances > 256 unimplemented") } // not too hard to do
 				payload[payloadSize] = uint8(yDraw - 1)
 				payloadSize += 1
 			}
diff --git a/mask/raster_fragment.go b/mask/raster_fragment.go
index 0f966cf..06f8847 100644
--- a/mask/raster_fragment.go
+++ b/mask/raster_fragment.go
@@ -47,6 +47,38 @@ func (self *rasterFragment) ClearFrom(img *image.Alpha) {
 	}
 }
 
+const maxRasterDraw = 256
+
+func (self *rasterFragment) ExceedsDrawLimit() bool {
+	width, height := self.GetDrawSizes()
+	return width > maxRasterDraw || height > maxRasterDraw
+}
+
+// Reduces the fragment to the draw limit on one of its
+// exceeding dimensions and returns the remaining part.
+func (self *rasterFragment) SplitAtDrawLimit() rasterFragment {
+	rest := *self
+	width, _ := self.GetDrawSizes()
+	if width > maxRasterDraw {
+		self.maxX = self.minX + maxRasterDraw - 1
+		rest.minX = self.maxX + 1
+	}
+	switch self.diagonalType {
+	case diagAsc:
+		self.minY = self.maxY - maxRasterDraw + 1
+		rest.maxY = self.minY - 1
+	case diagDesc:
+		self.maxY = self.minY + maxRasterDraw - 1
+		rest.minY = self.maxY + 1
+	default:
+		if width <= maxRasterDraw {
+			self.maxY = self.minY + maxRasterDraw - 1
+			rest.minY = self.maxY + 1
+		}
+	}
+	return rest
+}
+
 func (self *rasterFragment) GetDistsFrom(x, y int) (int, int) {
 	return self.minX - x, self.minY - y
 }
-- 
2.43.0


From aed9c74d870a72cbd9b7d90f1ca57c07665c0d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:22 +0000
Subject: [PATCH 61/79] fix: rewrite rules apply only while their condition is
 satisfied

---
 internal/rerules/glyphrule/tester.go | 9 +++++++++
 internal/rerules/utf8rule/tester.go  | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/internal/rerules/glyphrule/tester.go b/internal/rerules/glyphrule/tester.go
index 9550603..d9c68df 100644
--- a/internal/rerules/glyphrule/tester.go
+++ b/internal/rerules/glyphrule/tester.go
@@ -89,6 +89,12 @@ func (self *Tester) RefreshConditions(font *ggfnt.Font, settingsCache *ggfnt.Set
 		self.trees[i].ConditionCachedValue = satisfied
 		self.trees[i].ConditionIsCached = true
 	}
+
+	// if we have a sequence in progress without pending elements,
+	// we can make the new conditions take effect immediately
+	if self.isOperating && self.accumulator.IsEmpty() {
+		self.treesRestartDetection()
+	}
 }
 
 // --- glyph sequence operations ---
@@ -329,6 +335,9 @@ func (self *Tester) treesRestartDetection() {
 			self.trees[i].BreakSequence()
 		}
 		self.trees[i].BeginSequence()
+		if !self.trees[i].ConditionCachedValue {
+			self.trees[i].BreakSequence() // condition not satisfied, can't match
+		}
 	}
 }
 
diff --git a/internal/rerules/utf8rule/tester.go b/internal/rerules/utf8rule/tester.go
index 22f72bb..528ea62 100644
--- a/internal/rerules/utf8rule/tester.go
+++ b/internal/rerules/utf8rule/tester.go
@@ -90,6 +90,12 @@ func (self *Tester) RefreshConditions(font *ggfnt.Font, settingsCache *ggfnt.Set
 		self.trees[i].ConditionCachedValue = satisfied
 		self.trees[i].ConditionIsCached = true
 	}
+
+	// if we have a sequence in progress without pending elements,
+	// we can make the new conditions take effect immediately
+	if self.isOperating && self.accumulator.IsEmpty() {
+		self.treesRestartDetection()
+	}
 }
 
 // --- utf8 sequence operations ---
@@ -329,6 +335,9 @@ func (self *Tester) treesRestartDetection() {
 			self.trees[i].BreakSequence()
 		}
 		self.trees[i].BeginSequence()
+		if !self.trees[i].ConditionCachedValue {
+			self.trees[i].BreakSequence() // condition not satisfied, can't match
+		}
 	}
 }
 
-- 
2.43.0


From 53631a02d7ac3463a5d96515a14bac28ccfc4eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:22 +0000
Subject: [PATCH 62/79] fix: failed tester compilation doesn't leave the tester
 nor the shared compiler in an operating state

---
 internal/rerules/glyphrule/tester.go | 7 +++++--
 internal/rerules/utf8rule/tester.go  | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/internal/rerules/glyphrule/tester.go b/internal/rerules/glyphrule/tester.go
index d9c68df..6931aff 100644
--- a/internal/rerules/glyphrule/tester.go
+++ b/internal/rerules/glyphrule/tester.go
@@ -104,11 +104,11 @@ type GlyphConfirmationFunc = func(ggfnt.GlyphIndex)
 func (self *Tester) BeginSequence(font *ggfnt.Font, settingsCache *ggfnt.SettingsCache) error {
 	if self.isOperating { panic(PreViolation) }
 	
-	self.isOperating = true
 	if self.needsRecompile {
 		err := self.recompile(font, settingsCache)
 		if err != nil { return err }
 	}
+	self.isOperating = true
 	self.treesRestartDetection()
 
 	return nil
@@ -214,7 +214,10 @@ func (self *Tester) recompile(font *ggfnt.Font, settingsCache *ggfnt.SettingsCac
 				// (NOTE: this is not particularly efficient)
 				if self.rules[ruleIndex].Condition() == tree.Condition {
 					err := compiler.Feed(self.rules[ruleIndex], RuleIndex(ruleIndex))
-					if err != nil { return err }
+					if err != nil {
+						tree.DecisionTree.states = compiler.Finish()
+						return err
+					}
 					numRulesFound += 1
 				}
 			}
diff --git a/internal/rerules/utf8rule/tester.go b/internal/rerules/utf8rule/tester.go
index 528ea62..2385992 100644
--- a/internal/rerules/utf8rule/tester.go
+++ b/internal/rerules/utf8rule/tester.go
@@ -105,11 +105,11 @@ type Utf8ConfirmationFunc = func(rune)
 func (self *Tester) BeginSequence(font *ggfnt.Font, settingsCache *ggfnt.SettingsCache) error {
 	if self.isOperating { panic(PreViolation) }
 	
-	self.isOperating = true
 	if self.needsRecompile {
 		err := self.recompile(font, settingsCache)
 		if err != nil { return err }
 	}
+	self.isOperating = true
 	self.treesRestartDetection()
 
 	return nil
@@ -214,7 +214,10 @@ func (self *Tester) recompile(font *ggfnt.Font, settingsCache *ggfnt.SettingsCac
 				// (NOTE: this is not particularly efficient)
 				if self.rules[ruleIndex].Condition() == tree.Condition {
 					err := compiler.Feed(self.rules[ruleIndex], RuleIndex(ruleIndex))
-					if err != nil { return err }
+					if err != nil {
+						tree.DecisionTree.states = compiler.Finish()
+						return err
+					}
 					numRulesFound += 1
 				}
 			}
-- 
2.43.0


From e481a634f1bdf503c74932d4f618cfda3f18ce41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:22 +0000
Subject: [PATCH 63/79] fix: feeding a rewrite tester without rules doesn't
 panic

---
 internal/rerules/glyphrule/tester.go | 4 ++++
 internal/rerules/utf8rule/tester.go  | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/internal/rerules/glyphrule/tester.go b/internal/rerules/glyphrule/tester.go
index 6931aff..0701f1e 100644
--- a/internal/rerules/glyphrule/tester.go
+++ b/internal/rerules/glyphrule/tester.go
@@ -123,6 +123,10 @@ func (self *Tester) Feed(glyphIndex ggfnt.GlyphIndex, fn GlyphConfirmationFunc)
 	}
 	
 	// feed glyph and see if we stopped running
+	if len(self.rules) == 0 { // nothing to detect
+		fn(glyphIndex)
+		return nil
+	}
 	self.accumulator.Push(glyphIndex)
 	detectionRunning := self.treesFeedUnrestrictedGlyph(glyphIndex)
 	if !detectionRunning {
diff --git a/internal/rerules/utf8rule/tester.go b/internal/rerules/utf8rule/tester.go
index 2385992..c6d863f 100644
--- a/internal/rerules/utf8rule/tester.go
+++ b/internal/rerules/utf8rule/tester.go
@@ -123,6 +123,10 @@ func (self *Tester) Feed(codePoint rune, fn Utf8ConfirmationFunc) error {
 	}
 	
 	// feed code point and see if we stopped running
+	if len(self.rules) == 0 { // nothing to detect
+		fn(codePoint)
+		return nil
+	}
 	self.accumulator.Push(codePoint)
 	detectionRunning := self.treesFeedUnrestrictedRune(codePoint)
 	if !detectionRunning {
-- 
2.43.0


From d5098582dd5dfe3b28db9ec973e88ff497183564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:00 +0000
Subject: [PATCH 64/79] fix: rewrite rules with unknown sets or conditions are
 reported as invalid on compilation

---
 .../glyphrule/decision_tree_compiler.go       |  4 ++++
 internal/rerules/glyphrule/tester.go          | 19 +++++++++++++++++
 .../utf8rule/decision_tree_compiler.go        |  4 ++++
 internal/rerules/utf8rule/tester.go           | 21 +++++++++++++++++++
 4 files changed, 48 insertions(+)

diff --git a/internal/rerules/glyphrule/decision_tree_compiler.go b/internal/rerules/glyphrule/decision_tree_compiler.go
index 90cf1cd..06be291 100644
--- a/internal/rerules/glyphrule/decision_tree_compiler.go
+++ b/internal/rerules/glyphrule/decision_tree_compiler.go
@@ -5,6 +5,7 @@ import "errors"
 
 import "github.com/tinne26/ggfnt"
 import "github.com/tinne26/ggfnt/internal"
+import "github.com/tinne26/ggfnt/internal/rerules"
 
 const CompilerHitLimits = "DecisionTreeCompiler hit a limit on number of states, transitions or a similar parameter"
 var ErrCompilerHitLimits = errors.New(CompilerHitLimits)
@@ -118,6 +119,9 @@ func (self *DecisionTreeCompiler) Feed(rule ggfnt.GlyphRewriteRule, index RuleIn
 			} else { // glyph set case
 				if glyphSet == GlyphSetNone { panic(BrokenCode) } // discretionary safety assertion
 	
+				if self.run.Font == nil || uint8(glyphSet) >= self.run.Font.Rewrites().NumGlyphSets() {
+					return rerules.ErrInvalidReRule
+				}
 				set := self.run.Font.Rewrites().GetGlyphSet(uint8(glyphSet))
 				err := set.EachRange(func(glyphRange ggfnt.GlyphRange) error {
 					return self.states[state].AppendRange(glyphRange, matchRule, self.stateLinker)
diff --git a/internal/rerules/glyphrule/tester.go b/internal/rerules/glyphrule/tester.go
index 0701f1e..d0f7412 100644
--- a/internal/rerules/glyphrule/tester.go
+++ b/internal/rerules/glyphrule/tester.go
@@ -85,6 +85,7 @@ func (self *Tester) RemoveRule(rule ggfnt.GlyphRewriteRule) bool {
 func (self *Tester) RefreshConditions(font *ggfnt.Font, settingsCache *ggfnt.SettingsCache) {
 	for i, _ := range self.trees {
 		condition := self.trees[i].Condition
+		if !self.isKnownCondition(condition, font, settingsCache) { continue } // reported on recompile
 		satisfied := self.testCondition(condition, font, settingsCache)
 		self.trees[i].ConditionCachedValue = satisfied
 		self.trees[i].ConditionIsCached = true
@@ -178,6 +179,19 @@ func (self *Tester) findTreeByCondition(condition uint8) (int, bool) {
 	return start, start < numTrees && self.trees[start].Condition == condition
 }
 
+func (self *Tester) hasRuleWithCondition(condition uint8) bool {
+	for i, _ := range self.rules {
+		if self.rules[i].Condition() == condition { return true }
+	}
+	return false
+}
+
+func (self *Tester) isKnownCondition(condition uint8, font *ggfnt.Font, settingsCache *ggfnt.SettingsCache) bool {
+	if condition == 255 { return true } // no condition
+	return font != nil && settingsCache != nil && condition < font.Rewrites().NumConditions()
+}
+
+// Precondition: the condition is known (see isKnownCondition).
 func (self *Tester) testCondition(condition uint8, font *ggfnt.Font, settingsCache *ggfnt.SettingsCache) bool {
 	// base case, not needed in general, but allows font and settings to be nil
 	if condition == 255 { return true }
@@ -202,6 +216,11 @@ func (self *Tester) recompile(font *ggfnt.Font, settingsCache *ggfnt.SettingsCac
 	var treeIndex int = 0
 	for treeIndex < len(self.trees) {
 		tree := &self.trees[treeIndex]
+		if !self.isKnownCondition(tree.Condition, font, settingsCache) {
+			if self.hasRuleWithCondition(tree.Condition) { return rerules.ErrInvalidReRule }
+			self.trees = internal.DeleteElementAt(self.trees, treeIndex)
+			continue
+		}
 
 		// test and cache condition if uncached
 		if !tree.ConditionIsCached {
diff --git a/internal/rerules/utf8rule/decision_tree_compiler.go b/internal/rerules/utf8rule/decision_tree_compiler.go
index 680b900..41cbc58 100644
--- a/internal/rerules/utf8rule/decision_tree_compiler.go
+++ b/internal/rerules/utf8rule/decision_tree_compiler.go
@@ -5,6 +5,7 @@ import "errors"
 
 import "github.com/tinne26/ggfnt"
 import "github.com/tinne26/ggfnt/internal"
+import "github.com/tinne26/ggfnt/internal/rerules"
 
 const CompilerHitLimits = "DecisionTreeCompiler hit a limit on number of states, transitions or a similar parameter"
 var ErrCompilerHitLimits = errors.New(CompilerHitLimits)
@@ -118,6 +119,9 @@ func (self *DecisionTreeCompiler) Feed(rule ggfnt.Utf8RewriteRule, index RuleInd
 			} else { // utf8 set case
 				if utf8Set == Utf8SetNone { panic(BrokenCode) } // discretionary safety assertion
 	
+				if self.run.Font == nil || uint8(utf8Set) >= self.run.Font.Rewrites().NumUTF8Sets() {
+					return rerules.InvalidUtf8RuleErr(rule)
+				}
 				set := self.run.Font.Rewrites().GetUtf8Set(uint8(utf8Set))
 				err := set.EachRange(func(firstRune, lastRune rune) error {
 					runeRange := RuneRange{ First: firstRune, Last: lastRune }
diff --git a/internal/rerules/utf8rule/tester.go b/internal/rerules/utf8rule/tester.go
index c6d863f..4d8faef 100644
--- a/internal/rerules/utf8rule/tester.go
+++ b/internal/rerules/utf8rule/tester.go
@@ -86,6 +86,7 @@ func (self *Tester) RemoveRule(rule ggfnt.Utf8RewriteRule) bool {
 func (self *Tester) RefreshConditions(font *ggfnt.Font, settingsCache *ggfnt.SettingsCache) {
 	for i, _ := range self.trees {
 		condition := self.trees[i].Condition
+		if !self.isKnownCondition(condition, font, settingsCache) { continue } // reported on recompile
 		satisfied := self.testCondition(condition, font, settingsCache)
 		self.trees[i].ConditionCachedValue = satisfied
 		self.trees[i].ConditionIsCached = true
@@ -178,6 +179,20 @@ func (self *Tester) findTreeByCondition(condition uint8) (int, bool) {
 	return start, start < numTrees && self.trees[start].Condition == condition
 }
 
+// Returns -1 if no rule with the given condition exists.
+func (self *Tester) findRuleWithCondition(condition uint8) int {
+	for i, _ := range self.rules {
+		if self.rules[i].Condition() == condition { return i }
+	}
+	return -1
+}
+
+func (self *Tester) isKnownCondition(condition uint8, font *ggfnt.Font, settingsCache *ggfnt.SettingsCache) bool {
+	if condition == 255 { return true } // no condition
+	return font != nil && settingsCache != nil && condition < font.Rewrites().NumConditions()
+}
+
+// Precondition: the condition is known (see isKnownCondition).
 func (self *Tester) testCondition(condition uint8, font *ggfnt.Font, settingsCache *ggfnt.SettingsCache) bool {
 	// base case, not needed in general, but allows font and settings to be nil
 	if condition == 255 { return true }
@@ -202,6 +217,12 @@ func (self *Tester) recompile(font *ggfnt.Font, settingsCache *ggfnt.SettingsCac
 	var treeIndex int = 0
 	for treeIndex < len(self.trees) {
 		tree := &self.trees[treeIndex]
+		if !self.isKnownCondition(tree.Condition, font, settingsCache) {
+			ruleIndex := self.findRuleWithCondition(tree.Condition)
+			if ruleIndex != -1 { return rerules.InvalidUtf8RuleErr(self.rules[ruleIndex]) }
+			self.trees = internal.DeleteElementAt(self.trees, treeIndex)
+			continue
+		}
 
 		// test and cache condition if uncached
 		if !tree.ConditionIsCached {
-- 
2.43.0


From ce13c51c640370b9187c1539b36be4f182278551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:00 +0000
Subject: [PATCH 65/79] fix: breaking or restarting a rewrite sequence drops
 the already reported tail context

---
 internal/rerules/glyphrule/tester.go | 7 +++++++
 internal/rerules/utf8rule/tester.go  | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/internal/rerules/glyphrule/tester.go b/internal/rerules/glyphrule/tester.go
index d0f7412..d112e2e 100644
--- a/internal/rerules/glyphrule/tester.go
+++ b/internal/rerules/glyphrule/tester.go
@@ -35,6 +35,7 @@ func (self *Tester) RemoveAllRules() {
 	self.rules = self.rules[ : 0]
 	self.trees = self.trees[ : 0]
 	self.accumulator.Clear()
+	self.unflushedTail = 0
 	self.needsRecompile = false
 }
 
@@ -155,6 +156,11 @@ func (self *Tester) Break(fn GlyphConfirmationFunc) {
 		}
 		for self.rerunDetection(fn) {}
 	}
+
+	// drop any remaining tail, which has already been reported
+	self.accumulator.Clear()
+	self.unflushedTail = 0
+	self.treesRestartDetection()
 }
 
 func (self *Tester) FinishSequence(fn GlyphConfirmationFunc) {
@@ -263,6 +269,7 @@ func (self *Tester) recompile(font *ggfnt.Font, settingsCache *ggfnt.SettingsCac
 		maxAccLen = max(maxAccLen, self.rules[i].InLen())
 	}
 	self.accumulator.Clear()
+	self.unflushedTail = 0
 	self.accumulator.SetCapacity(uint16(maxAccLen))
 
 	// success, return
diff --git a/internal/rerules/utf8rule/tester.go b/internal/rerules/utf8rule/tester.go
index 4d8faef..cc5cf8e 100644
--- a/internal/rerules/utf8rule/tester.go
+++ b/internal/rerules/utf8rule/tester.go
@@ -36,6 +36,7 @@ func (self *Tester) RemoveAllRules() {
 	self.rules = self.rules[ : 0]
 	self.trees = self.trees[ : 0]
 	self.accumulator.Clear()
+	self.unflushedTail = 0
 	self.needsRecompile = false
 }
 
@@ -155,6 +156,11 @@ func (self *Tester) Break(fn Utf8ConfirmationFunc) {
 		}
 		for self.rerunDetection(fn) {}
 	}
+
+	// drop any remaining tail, which has already been reported
+	self.accumulator.Clear()
+	self.unflushedTail = 0
+	self.treesRestartDetection()
 }
 
 func (self *Tester) FinishSequence(fn Utf8ConfirmationFunc) {
@@ -265,6 +271,7 @@ func (self *Tester) recompile(font *ggfnt.Font, settingsCache *ggfnt.SettingsCac
 		maxAccLen = max(maxAccLen, self.rules[i].InLen())
 	}
 	self.accumulator.Clear()
+	self.unflushedTail = 0
 	self.accumulator.SetCapacity(uint16(maxAccLen))
 
 	// success, return
-- 
2.43.0


From 27812d9cde53c0046a47176e64f338214f8f9a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:00 +0000
Subject: [PATCH 66/79] fix: rewriting with an already reported tail as the
 rule head

---
 internal/rerules/glyphrule/tester.go | 5 +++--
 internal/rerules/utf8rule/tester.go  | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/internal/rerules/glyphrule/tester.go b/internal/rerules/glyphrule/tester.go
index d112e2e..2f98b34 100644
--- a/internal/rerules/glyphrule/tester.go
+++ b/internal/rerules/glyphrule/tester.go
@@ -325,10 +325,11 @@ func (self *Tester) rewrite(matchRuleIndex RuleIndex, fn GlyphConfirmationFunc)
 	// report head
 	headLen := self.rules[matchRuleIndex].HeadLen()
 	for i := uint8(0); i < headLen; i++ {
-		if self.unflushedTail > 0 {
+		glyphIndex := self.accumulator.PopHead()
+		if self.unflushedTail > 0 { // already reported
 			self.unflushedTail -= 1
 		} else {
-			fn(self.accumulator.PopHead())
+			fn(glyphIndex)
 		}
 	}
 
diff --git a/internal/rerules/utf8rule/tester.go b/internal/rerules/utf8rule/tester.go
index cc5cf8e..b1d9fa6 100644
--- a/internal/rerules/utf8rule/tester.go
+++ b/internal/rerules/utf8rule/tester.go
@@ -327,10 +327,11 @@ func (self *Tester) rewrite(matchRuleIndex RuleIndex, fn Utf8ConfirmationFunc) {
 	// report head
 	headLen := self.rules[matchRuleIndex].HeadLen()
 	for i := uint8(0); i < headLen; i++ {
-		if self.unflushedTail > 0 {
+		codePoint := self.accumulator.PopHead()
+		if self.unflushedTail > 0 { // already reported
 			self.unflushedTail -= 1
 		} else {
-			fn(self.accumulator.PopHead())
+			fn(codePoint)
 		}
 	}
 
-- 
2.43.0


From b4fceb3c6004330885fad668059fc1a0e2ea66ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:00 +0000
Subject: [PATCH 67/79] fix: rewrite tails are reported from the rewritten
 position

---
 internal/rerules/glyphrule/tester.go | 3 ++-
 internal/rerules/utf8rule/tester.go  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/internal/rerules/glyphrule/tester.go b/internal/rerules/glyphrule/tester.go
index 2f98b34..b228b24 100644
--- a/internal/rerules/glyphrule/tester.go
+++ b/internal/rerules/glyphrule/tester.go
@@ -321,7 +321,8 @@ func (self *Tester) treesGetBestMatch() RuleIndex {
 
 func (self *Tester) rewrite(matchRuleIndex RuleIndex, fn GlyphConfirmationFunc) {
 	if matchRuleIndex == RuleNone { panic(PreViolation) }
-	
+	self.accumulator.DiscardPeeks() // peeks will be used for the tail
+
 	// report head
 	headLen := self.rules[matchRuleIndex].HeadLen()
 	for i := uint8(0); i < headLen; i++ {
diff --git a/internal/rerules/utf8rule/tester.go b/internal/rerules/utf8rule/tester.go
index b1d9fa6..f52e5f4 100644
--- a/internal/rerules/utf8rule/tester.go
+++ b/internal/rerules/utf8rule/tester.go
@@ -323,7 +323,8 @@ func (self *Tester) treesGetBestMatch() RuleIndex {
 
 func (self *Tester) rewrite(matchRuleIndex RuleIndex, fn Utf8ConfirmationFunc) {
 	if matchRuleIndex == RuleNone { panic(PreViolation) }
-	
+	self.accumulator.DiscardPeeks() // peeks will be used for the tail
+
 	// report head
 	headLen := self.rules[matchRuleIndex].HeadLen()
 	for i := uint8(0); i < headLen; i++ {
-- 
2.43.0


From 656d8ce648171f4250d5d984b4f62d2e2b5a3ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:01 +0000
Subject: [PATCH 68/79] fix: rules can't rewrite elements that have already
 been reported as the tail of another rule

---
 internal/rerules/glyphrule/decision_tree_state.go |  2 +-
 internal/rerules/glyphrule/tester.go              | 13 +++++++++++++
 internal/rerules/utf8rule/decision_tree_state.go  |  2 +-
 internal/rerules/utf8rule/tester.go               | 13 +++++++++++++
 4 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/internal/rerules/glyphrule/decision_tree_state.go b/internal/rerules/glyphrule/decision_tree_state.go
index cff16de..b5fe9e8 100644
--- a/internal/rerules/glyphrule/decision_tree_state.go
+++ b/internal/rerules/glyphrule/decision_tree_state.go
@@ -46,7 +46,7 @@ func (self *State) Trigger(glyphIndex ggfnt.GlyphIndex) (StateIndex, RuleIndex)
 }
 
 func (self *State) SatisfiesMinRequiredHead(minRequiredHeadLen uint8) bool {
-	return minRequiredHeadLen >= self.MinHeadLen && minRequiredHeadLen <= self.MaxHeadLen
+	return minRequiredHeadLen <= self.MaxHeadLen
 }
 
 // The new range might overlap previous empty areas or previously existing ranges,
diff --git a/internal/rerules/glyphrule/tester.go b/internal/rerules/glyphrule/tester.go
index b228b24..d2184d1 100644
--- a/internal/rerules/glyphrule/tester.go
+++ b/internal/rerules/glyphrule/tester.go
@@ -290,7 +290,9 @@ func (self *Tester) treesFeedHeadGlyph(glyphIndex ggfnt.GlyphIndex) bool {
 	minRequiredHeadLen := self.unflushedTail
 	for i, _ := range self.trees {
 		if !self.trees[i].IsScanning() { continue }
+		prevMatch := self.trees[i].bestMatch
 		self.trees[i].FeedHead(glyphIndex, minRequiredHeadLen)
+		self.discardInapplicableMatch(&self.trees[i], prevMatch)
 		if self.trees[i].IsScanning() {
 			running = true
 		}
@@ -302,7 +304,9 @@ func (self *Tester) treesFeedUnrestrictedGlyph(glyphIndex ggfnt.GlyphIndex) bool
 	var running bool = false
 	for i, _ := range self.trees {
 		if !self.trees[i].IsScanning() { continue }
+		prevMatch := self.trees[i].bestMatch
 		self.trees[i].Feed(glyphIndex)
+		self.discardInapplicableMatch(&self.trees[i], prevMatch)
 		if self.trees[i].IsScanning() {
 			running = true
 		}
@@ -310,6 +314,15 @@ func (self *Tester) treesFeedUnrestrictedGlyph(glyphIndex ggfnt.GlyphIndex) bool
 	return running
 }
 
+// The unflushed tail has already been reported, so rules that don't
+// have a head covering it completely can't be considered anymore.
+func (self *Tester) discardInapplicableMatch(tree *TesterTreeInstance, prevMatch RuleIndex) {
+	if tree.bestMatch == prevMatch { return }
+	if self.rules[tree.bestMatch].HeadLen() < self.unflushedTail {
+		tree.bestMatch = prevMatch
+	}
+}
+
 func (self *Tester) treesGetBestMatch() RuleIndex {
 	var bestMatch RuleIndex = RuleNone
 	for i, _ := range self.trees {
diff --git a/internal/rerules/utf8rule/decision_tree_state.go b/internal/rerules/utf8rule/decision_tree_state.go
index 04df50d..46322dc 100644
--- a/internal/rerules/utf8rule/decision_tree_state.go
+++ b/internal/rerules/utf8rule/decision_tree_state.go
@@ -45,7 +45,7 @@ func (self *State) Trigger(codePoint rune) (StateIndex, RuleIndex) {
 }
 
 func (self *State) SatisfiesMinRequiredHead(minRequiredHeadLen uint8) bool {
-	return minRequiredHeadLen >= self.MinHeadLen && minRequiredHeadLen <= self.MaxHeadLen
+	return minRequiredHeadLen <= self.MaxHeadLen
 }
 
 // The new range might overlap previous empty areas or previously existing ranges,
diff --git a/internal/rerules/utf8rule/tester.go b/internal/rerules/utf8rule/tester.go
index f52e5f4..aca1631 100644
--- a/internal/rerules/utf8rule/tester.go
+++ b/internal/rerules/utf8rule/tester.go
@@ -292,7 +292,9 @@ func (self *Tester) treesFeedHeadRune(codePoint rune) bool {
 	minRequiredHeadLen := self.unflushedTail
 	for i, _ := range self.trees {
 		if !self.trees[i].IsScanning() { continue }
+		prevMatch := self.trees[i].bestMatch
 		self.trees[i].FeedHead(codePoint, minRequiredHeadLen)
+		self.discardInapplicableMatch(&self.trees[i], prevMatch)
 		if self.trees[i].IsScanning() {
 			running = true
 		}
@@ -304,7 +306,9 @@ func (self *Tester) treesFeedUnrestrictedRune(codePoint rune) bool {
 	var running bool = false
 	for i, _ := range self.trees {
 		if !self.trees[i].IsScanning() { continue }
+		prevMatch := self.trees[i].bestMatch
 		self.trees[i].Feed(codePoint)
+		self.discardInapplicableMatch(&self.trees[i], prevMatch)
 		if self.trees[i].IsScanning() {
 			running = true
 		}
@@ -312,6 +316,15 @@ func (self *Tester) treesFeedUnrestrictedRune(codePoint rune) bool {
 	return running
 }
 
+// The unflushed tail has already been reported, so rules that don't
+// have a head covering it completely can't be considered anymore.
+func (self *Tester) discardInapplicableMatch(tree *TesterTreeInstance, prevMatch RuleIndex) {
+	if tree.bestMatch == prevMatch { return }
+	if self.rules[tree.bestMatch].HeadLen() < self.unflushedTail {
+		tree.bestMatch = prevMatch
+	}
+}
+
 func (self *Tester) treesGetBestMatch() RuleIndex {
 	var bestMatch RuleIndex = RuleNone
 	for i, _ := range self.trees {
-- 
2.43.0


From 77316c9811fa264ed9544ec0eda7285546f17eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:31 +0000
Subject: [PATCH 69/79] fix: overlapping ranges in rewrite decision trees are
 split at the right positions

---
 internal/rerules/glyphrule/decision_tree_state.go | 6 +++---
 internal/rerules/utf8rule/decision_tree_state.go  | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/internal/rerules/glyphrule/decision_tree_state.go b/internal/rerules/glyphrule/decision_tree_state.go
index b5fe9e8..4b3d98a 100644
--- a/internal/rerules/glyphrule/decision_tree_state.go
+++ b/internal/rerules/glyphrule/decision_tree_state.go
@@ -85,7 +85,7 @@ func (self *State) AppendRange(glyphRange ggfnt.GlyphRange, ruleMatchIndex RuleI
 			return self.Transitions[candidateTrans + 1].Link(ruleMatchIndex, stateLinker, 2)
 			// ^ we terminate here
 		case splitMidLast:
-			err := self.splitTransitionBy(candidateTrans, splitRange)
+			err := self.splitTransitionAt(candidateTrans, splitRange.First - 1)
 			if err != nil { return err }
 			err  = self.Transitions[candidateTrans + 1].Link(ruleMatchIndex, stateLinker, 1)
 			if err != nil { return err }
@@ -124,7 +124,7 @@ func (self *State) confrontRanges(candidateRange, incomingRange ggfnt.GlyphRange
 		if incomingRange.Last < candidateRange.First {
 			return noSplitPre, incomingRange
 		} else {
-			return noSplitPre, ggfnt.GlyphRange{ incomingRange.First, candidateRange.Last - 1 }
+			return noSplitPre, ggfnt.GlyphRange{ incomingRange.First, candidateRange.First - 1 }
 		}
 	} else if incomingRange.First == candidateRange.First { // splitFirst*
 		if incomingRange.Last >= candidateRange.Last {
@@ -185,7 +185,7 @@ func (self *State) splitTransitionAt(transIndex TransitionIndex, lastGlyphOfPre
 	vacatedRange := self.Transitions[transIndex].ShortenRTL(lastGlyphOfPre)
 	newTransIndex, err := self.unsafeInsertUninitializedTransition(vacatedRange)
 	if err != nil { return err }
-	if transIndex != newTransIndex + 1 { panic(BrokenCode) }
+	if newTransIndex != transIndex + 1 { panic(BrokenCode) }
 
 	// initialize new transition to match the previously existing one
 	self.Transitions[newTransIndex].NextState = self.Transitions[transIndex].NextState
diff --git a/internal/rerules/utf8rule/decision_tree_state.go b/internal/rerules/utf8rule/decision_tree_state.go
index 46322dc..655034b 100644
--- a/internal/rerules/utf8rule/decision_tree_state.go
+++ b/internal/rerules/utf8rule/decision_tree_state.go
@@ -84,7 +84,7 @@ func (self *State) AppendRange(runeRange RuneRange, ruleMatchIndex RuleIndex, st
 			return self.Transitions[candidateTrans + 1].Link(ruleMatchIndex, stateLinker, 2)
 			// ^ we terminate here
 		case splitMidLast:
-			err := self.splitTransitionBy(candidateTrans, splitRange)
+			err := self.splitTransitionAt(candidateTrans, splitRange.First - 1)
 			if err != nil { return err }
 			err  = self.Transitions[candidateTrans + 1].Link(ruleMatchIndex, stateLinker, 1)
 			if err != nil { return err }
@@ -123,7 +123,7 @@ func (self *State) confrontRanges(candidateRange, incomingRange RuneRange) (spli
 		if incomingRange.Last < candidateRange.First {
 			return noSplitPre, incomingRange
 		} else {
-			return noSplitPre, RuneRange{ incomingRange.First, candidateRange.Last - 1 }
+			return noSplitPre, RuneRange{ incomingRange.First, candidateRange.First - 1 }
 		}
 	} else if incomingRange.First == candidateRange.First { // splitFirst*
 		if incomingRange.Last >= candidateRange.Last {
@@ -184,7 +184,7 @@ func (self *State) splitTransitionAt(transIndex TransitionIndex, lastRuneOfPre r
 	vacatedRange := self.Transitions[transIndex].ShortenRTL(lastRuneOfPre)
 	newTransIndex, err := self.unsafeInsertUninitializedTransition(vacatedRange)
 	if err != nil { return err }
-	if transIndex != newTransIndex + 1 { panic(BrokenCode) }
+	if newTransIndex != transIndex + 1 { panic(BrokenCode) }
 
 	// initialize new transition to match the previously existing one
 	self.Transitions[newTransIndex].NextState = self.Transitions[transIndex].NextState
-- 
2.43.0


From da59d29fd82d98d056849d0f05e6f646a20ae73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:31 +0000
Subject: [PATCH 70/79] fix: rewrite decision tree transitions without next
 state can be split

---
 internal/rerules/glyphrule/decision_tree_compiler.go | 1 -
 internal/rerules/utf8rule/decision_tree_compiler.go  | 1 -
 2 files changed, 2 deletions(-)

diff --git a/internal/rerules/glyphrule/decision_tree_compiler.go b/internal/rerules/glyphrule/decision_tree_compiler.go
index 06be291..5061abf 100644
--- a/internal/rerules/glyphrule/decision_tree_compiler.go
+++ b/internal/rerules/glyphrule/decision_tree_compiler.go
@@ -200,7 +200,6 @@ func (self *DecisionTreeCompiler) stateLinker(referenceStateIndex StateIndex, nu
 	// update tracking and helper variables
 	self.appendStateToNextRound(resultStateIndex)
 	self.adjustStateUseCount(resultStateIndex, 1)
-	if referenceStateIndex == StateNone && numSplits != 0 { panic(PreViolation) }
 	if referenceStateIndex != StateNone {
 		if numSplits < 0 || numSplits > 2 { panic(PreViolation) }
 		self.adjustStateUseCount(referenceStateIndex, numSplits - 1)
diff --git a/internal/rerules/utf8rule/decision_tree_compiler.go b/internal/rerules/utf8rule/decision_tree_compiler.go
index 41cbc58..72ccdc6 100644
--- a/internal/rerules/utf8rule/decision_tree_compiler.go
+++ b/internal/rerules/utf8rule/decision_tree_compiler.go
@@ -201,7 +201,6 @@ func (self *DecisionTreeCompiler) stateLinker(referenceStateIndex StateIndex, nu
 	// update tracking and helper variables
 	self.appendStateToNextRound(resultStateIndex)
 	self.adjustStateUseCount(resultStateIndex, 1)
-	if referenceStateIndex == StateNone && numSplits != 0 { panic(PreViolation) }
 	if referenceStateIndex != StateNone {
 		if numSplits < 0 || numSplits > 2 { panic(PreViolation) }
 		self.adjustStateUseCount(referenceStateIndex, numSplits - 1)
-- 
2.43.0


From 65a33d5a9ec977805be5921c28da1de1246e07a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:32 +0000
Subject: [PATCH 71/79] fix: rewrite decision tree states are kept while they
 are referenced

---
 .../glyphrule/decision_tree_compiler.go       | 31 +++++++++++++++----
 .../rerules/glyphrule/decision_tree_state.go  | 10 +++---
 .../glyphrule/decision_tree_transition.go     |  3 +-
 .../utf8rule/decision_tree_compiler.go        | 31 +++++++++++++++----
 .../rerules/utf8rule/decision_tree_state.go   | 10 +++---
 .../utf8rule/decision_tree_transition.go      |  3 +-
 6 files changed, 64 insertions(+), 24 deletions(-)

diff --git a/internal/rerules/glyphrule/decision_tree_compiler.go b/internal/rerules/glyphrule/decision_tree_compiler.go
index 5061abf..d60ffe5 100644
--- a/internal/rerules/glyphrule/decision_tree_compiler.go
+++ b/internal/rerules/glyphrule/decision_tree_compiler.go
@@ -33,7 +33,7 @@ type DecisionTreeCompiler struct {
 
 		TrackerFreedStates []StateIndex // indices of states that can be repurposed due to no use
 		// all the remaining slices begin with state index 1 (0 is root)
-		TrackerStateUses []uint8 // use counts for each state. when 0, we can clean them up
+		TrackerStateUses []int // use counts for each state. when 0, we can clean them up
 		TrackerStateRules [][]RuleIndex // rules involved in the state, sorted (asc.)
 		TrackerStatesByDepth [][]StateIndex // depth to list of states on that depth level, sorted (asc.)
 	}
@@ -114,7 +114,7 @@ func (self *DecisionTreeCompiler) Feed(rule ggfnt.GlyphRewriteRule, index RuleIn
 				if glyphSet != GlyphSetNone { panic(BrokenCode) } // discretionary safety assertion
 	
 				glyphRange := ggfnt.GlyphRange{ First: glyphIndex, Last: glyphIndex }
-				err := self.states[state].AppendRange(glyphRange, matchRule, self.stateLinker)
+				err := self.states[state].AppendRange(glyphRange, matchRule, self.stateLinker, self.stateSplitter)
 				if err != nil { return err }
 			} else { // glyph set case
 				if glyphSet == GlyphSetNone { panic(BrokenCode) } // discretionary safety assertion
@@ -124,12 +124,12 @@ func (self *DecisionTreeCompiler) Feed(rule ggfnt.GlyphRewriteRule, index RuleIn
 				}
 				set := self.run.Font.Rewrites().GetGlyphSet(uint8(glyphSet))
 				err := set.EachRange(func(glyphRange ggfnt.GlyphRange) error {
-					return self.states[state].AppendRange(glyphRange, matchRule, self.stateLinker)
+					return self.states[state].AppendRange(glyphRange, matchRule, self.stateLinker, self.stateSplitter)
 				})
 				if err != nil { return err }
 				err = set.EachListGlyph(func(glyphIndex ggfnt.GlyphIndex) error {
 					glyphRange := ggfnt.GlyphRange{ First: glyphIndex, Last: glyphIndex }
-					return self.states[state].AppendRange(glyphRange, matchRule, self.stateLinker)
+					return self.states[state].AppendRange(glyphRange, matchRule, self.stateLinker, self.stateSplitter)
 				})
 				if err != nil { return err }
 			}
@@ -165,6 +165,7 @@ func (self *DecisionTreeCompiler) freeUnusedStates() {
 			// notice: we don't reset state info here yet, it will have
 			//         to be reset later when we need it again
 			self.run.TrackerFreedStates = append(self.run.TrackerFreedStates, state)
+			self.adjustNextStatesUseCount(state, -1)
 			freedCount += 1
 		} else if freedCount > 0 {
 			self.run.TrackerStatesByDepth[depth][i - freedCount] = state
@@ -177,6 +178,15 @@ func (self *DecisionTreeCompiler) freeUnusedStates() {
 	}
 }
 
+// Must be called when a transition to the given state (which can be StateNone)
+// is split without the next state itself changing.
+func (self *DecisionTreeCompiler) stateSplitter(stateIndex StateIndex, numSplits int) {
+	if stateIndex != StateNone && numSplits != 0 {
+		self.adjustStateUseCount(stateIndex, numSplits)
+	}
+}
+
+type StateSplitterFn = func(StateIndex, int)
 type StateLinkerFn = func(StateIndex, int) (StateIndex, error)
 func (self *DecisionTreeCompiler) stateLinker(referenceStateIndex StateIndex, numSplits int) (StateIndex, error) {
 	// check if the desired state already exists
@@ -189,6 +199,7 @@ func (self *DecisionTreeCompiler) stateLinker(referenceStateIndex StateIndex, nu
 		if err != nil { return StateNone, err }
 		if referenceStateIndex != StateNone {
 			self.states[resultStateIndex].CopyDataFrom(self.states[referenceStateIndex])
+			self.adjustNextStatesUseCount(resultStateIndex, 1)
 			self.initializeStateRulesWithRef(resultStateIndex, referenceStateIndex)
 		} else {
 			self.states[resultStateIndex].Reset()
@@ -285,6 +296,14 @@ func (self *DecisionTreeCompiler) appendStateToNextRound(stateIndex StateIndex)
 	self.run.ToStates = internal.BasicOrderedNonRepeatInsert(self.run.ToStates, stateIndex)
 }
 
+// Adjusts the use count of each state that can be reached from the given one.
+func (self *DecisionTreeCompiler) adjustNextStatesUseCount(stateIndex StateIndex, delta int) {
+	for i, _ := range self.states[stateIndex].Transitions {
+		nextState := self.states[stateIndex].Transitions[i].NextState
+		if nextState != StateNone { self.adjustStateUseCount(nextState, delta) }
+	}
+}
+
 // The state can't be 0, as 0 is the root, which is treated separately.
 func (self *DecisionTreeCompiler) adjustStateUseCount(stateIndex StateIndex, delta int) {
 	if stateIndex == 0 { panic(PreViolation) }
@@ -298,8 +317,8 @@ func (self *DecisionTreeCompiler) adjustStateUseCount(stateIndex StateIndex, del
 	} else {
 		result = int(self.run.TrackerStateUses[stateIndex]) + delta
 	}
-	if result > 255 || result < 0 { panic(BrokenCode) }
-	self.run.TrackerStateUses[stateIndex] = uint8(result)
+	if result < 0 { panic(BrokenCode) }
+	self.run.TrackerStateUses[stateIndex] = result
 }
 
 // The states can't be 0, as 0 is the root, which is treated separately.
diff --git a/internal/rerules/glyphrule/decision_tree_state.go b/internal/rerules/glyphrule/decision_tree_state.go
index 4b3d98a..12620fa 100644
--- a/internal/rerules/glyphrule/decision_tree_state.go
+++ b/internal/rerules/glyphrule/decision_tree_state.go
@@ -53,7 +53,7 @@ func (self *State) SatisfiesMinRequiredHead(minRequiredHeadLen uint8) bool {
 // both fully, partially, or in many different combinations. We need to get each
 // fragment and set up a new transition or adjust an already existing one. This
 // is a tricky method.
-func (self *State) AppendRange(glyphRange ggfnt.GlyphRange, ruleMatchIndex RuleIndex, stateLinker StateLinkerFn) error {
+func (self *State) AppendRange(glyphRange ggfnt.GlyphRange, ruleMatchIndex RuleIndex, stateLinker StateLinkerFn, stateSplitter StateSplitterFn) error {
 	// for the first part, we find candidate transitions and check if our range
 	// begins earlier, later, how much overlap it has, etc.
 	candidateTrans, _ := self.findGlyphTransition(glyphRange.First)
@@ -72,22 +72,22 @@ func (self *State) AppendRange(glyphRange ggfnt.GlyphRange, ruleMatchIndex RuleI
 		case splitFirstMid:
 			err := self.splitTransitionAt(candidateTrans, splitRange.Last)
 			if err != nil { return err }
-			return self.Transitions[candidateTrans].Link(ruleMatchIndex, stateLinker, 1)
+			return self.Transitions[candidateTrans].Link(ruleMatchIndex, stateLinker, stateSplitter, 1)
 			// ^ we terminate here
 		case splitFirstLast:
-			err := self.Transitions[candidateTrans].Link(ruleMatchIndex, stateLinker, 0)
+			err := self.Transitions[candidateTrans].Link(ruleMatchIndex, stateLinker, stateSplitter, 0)
 			if err != nil { return err }
 			glyphRange.First = splitRange.Last + 1
 			candidateTrans += 1
 		case splitMidMid:
 			err := self.splitTransitionBy(candidateTrans, splitRange)
 			if err != nil { return err }
-			return self.Transitions[candidateTrans + 1].Link(ruleMatchIndex, stateLinker, 2)
+			return self.Transitions[candidateTrans + 1].Link(ruleMatchIndex, stateLinker, stateSplitter, 2)
 			// ^ we terminate here
 		case splitMidLast:
 			err := self.splitTransitionAt(candidateTrans, splitRange.First - 1)
 			if err != nil { return err }
-			err  = self.Transitions[candidateTrans + 1].Link(ruleMatchIndex, stateLinker, 1)
+			err  = self.Transitions[candidateTrans + 1].Link(ruleMatchIndex, stateLinker, stateSplitter, 1)
 			if err != nil { return err }
 			glyphRange.First = splitRange.Last + 1
 			candidateTrans += 1
diff --git a/internal/rerules/glyphrule/decision_tree_transition.go b/internal/rerules/glyphrule/decision_tree_transition.go
index 337a14a..3172fdc 100644
--- a/internal/rerules/glyphrule/decision_tree_transition.go
+++ b/internal/rerules/glyphrule/decision_tree_transition.go
@@ -13,11 +13,12 @@ type Transition struct {
 	NextState StateIndex // StateNone (255) is reserved for "none"
 }
 
-func (self *Transition) Link(ruleMatchIndex RuleIndex, stateLinker StateLinkerFn, numSplits int) error {
+func (self *Transition) Link(ruleMatchIndex RuleIndex, stateLinker StateLinkerFn, stateSplitter StateSplitterFn, numSplits int) error {
 	if ruleMatchIndex != RuleNone { // on rule match, state addition stops
 		if self.RuleMatch == RuleNone {
 			self.RuleMatch = ruleMatchIndex
 		}
+		stateSplitter(self.NextState, numSplits)
 		return nil
 	} else { // add next state
 		var err error
diff --git a/internal/rerules/utf8rule/decision_tree_compiler.go b/internal/rerules/utf8rule/decision_tree_compiler.go
index 72ccdc6..7d34204 100644
--- a/internal/rerules/utf8rule/decision_tree_compiler.go
+++ b/internal/rerules/utf8rule/decision_tree_compiler.go
@@ -33,7 +33,7 @@ type DecisionTreeCompiler struct {
 
 		TrackerFreedStates []StateIndex // indices of states that can be repurposed due to no use
 		// all the remaining slices begin with state index 1 (0 is root)
-		TrackerStateUses []uint8 // use counts for each state. when 0, we can clean them up
+		TrackerStateUses []int // use counts for each state. when 0, we can clean them up
 		TrackerStateRules [][]RuleIndex // rules involved in the state, sorted (asc.)
 		TrackerStatesByDepth [][]StateIndex // depth to list of states on that depth level, sorted (asc.)
 	}
@@ -114,7 +114,7 @@ func (self *DecisionTreeCompiler) Feed(rule ggfnt.Utf8RewriteRule, index RuleInd
 				if utf8Set != Utf8SetNone { panic(BrokenCode) } // discretionary safety assertion
 	
 				runeRange := RuneRange{ First: codePoint, Last: codePoint }
-				err := self.states[state].AppendRange(runeRange, matchRule, self.stateLinker)
+				err := self.states[state].AppendRange(runeRange, matchRule, self.stateLinker, self.stateSplitter)
 				if err != nil { return err }
 			} else { // utf8 set case
 				if utf8Set == Utf8SetNone { panic(BrokenCode) } // discretionary safety assertion
@@ -125,12 +125,12 @@ func (self *DecisionTreeCompiler) Feed(rule ggfnt.Utf8RewriteRule, index RuleInd
 				set := self.run.Font.Rewrites().GetUtf8Set(uint8(utf8Set))
 				err := set.EachRange(func(firstRune, lastRune rune) error {
 					runeRange := RuneRange{ First: firstRune, Last: lastRune }
-					return self.states[state].AppendRange(runeRange, matchRule, self.stateLinker)
+					return self.states[state].AppendRange(runeRange, matchRule, self.stateLinker, self.stateSplitter)
 				})
 				if err != nil { return err }
 				err = set.EachListRune(func(codePoint rune) error {
 					runeRange := RuneRange{ First: codePoint, Last: codePoint }
-					return self.states[state].AppendRange(runeRange, matchRule, self.stateLinker)
+					return self.states[state].AppendRange(runeRange, matchRule, self.stateLinker, self.stateSplitter)
 				})
 				if err != nil { return err }
 			}
@@ -166,6 +166,7 @@ func (self *DecisionTreeCompiler) freeUnusedStates() {
 			// notice: we don't reset state info here yet, it will have
 			//         to be reset later when we need it again
 			self.run.TrackerFreedStates = append(self.run.TrackerFreedStates, state)
+			self.adjustNextStatesUseCount(state, -1)
 			freedCount += 1
 		} else if freedCount > 0 {
 			self.run.TrackerStatesByDepth[depth][i - freedCount] = state
@@ -178,6 +179,15 @@ func (self *DecisionTreeCompiler) freeUnusedStates() {
 	}
 }
 
+// Must be called when a transition to the given state (which can be StateNone)
+// is split without the next state itself changing.
+func (self *DecisionTreeCompiler) stateSplitter(stateIndex StateIndex, numSplits int) {
+	if stateIndex != StateNone && numSplits != 0 {
+		self.adjustStateUseCount(stateIndex, numSplits)
+	}
+}
+
+type StateSplitterFn = func(StateIndex, int)
 type StateLinkerFn = func(StateIndex, int) (StateIndex, error)
 func (self *DecisionTreeCompiler) stateLinker(referenceStateIndex StateIndex, numSplits int) (StateIndex, error) {
 	// check if the desired state already exists
@@ -190,6 +200,7 @@ func (self *DecisionTreeCompiler) stateLinker(referenceStateIndex StateIndex, nu
 		if err != nil { return StateNone, err }
 		if referenceStateIndex != StateNone {
 			self.states[resultStateIndex].CopyDataFrom(self.states[referenceStateIndex])
+			self.adjustNextStatesUseCount(resultStateIndex, 1)
 			self.initializeStateRulesWithRef(resultStateIndex, referenceStateIndex)
 		} else {
 			self.states[resultStateIndex].Reset()
@@ -286,6 +297,14 @@ func (self *DecisionTreeCompiler) appendStateToNextRound(stateIndex StateIndex)
 	self.run.ToStates = internal.BasicOrderedNonRepeatInsert(self.run.ToStates, stateIndex)
 }
 
+// Adjusts the use count of each state that can be reached from the given one.
+func (self *DecisionTreeCompiler) adjustNextStatesUseCount(stateIndex StateIndex, delta int) {
+	for i, _ := range self.states[stateIndex].Transitions {
+		nextState := self.states[stateIndex].Transitions[i].NextState
+		if nextState != StateNone { self.adjustStateUseCount(nextState, delta) }
+	}
+}
+
 // The state can't be 0, as 0 is the root, which is treated separately.
 func (self *DecisionTreeCompiler) adjustStateUseCount(stateIndex StateIndex, delta int) {
 	if stateIndex == 0 { panic(PreViolation) }
@@ -299,8 +318,8 @@ func (self *DecisionTreeCompiler) adjustStateUseCount(stateIndex StateIndex, del
 	} else {
 		result = int(self.run.TrackerStateUses[stateIndex]) + delta
 	}
-	if result > 255 || result < 0 { panic(BrokenCode) }
-	self.run.TrackerStateUses[stateIndex] = uint8(result)
+	if result < 0 { panic(BrokenCode) }
+	self.run.TrackerStateUses[stateIndex] = result
 }
 
 // The states can't be 0, as 0 is the root, which is treated separately.
diff --git a/internal/rerules/utf8rule/decision_tree_state.go b/internal/rerules/utf8rule/decision_tree_state.go
index 655034b..fcfcbe6 100644
--- a/internal/rerules/utf8rule/decision_tree_state.go
+++ b/internal/rerules/utf8rule/decision_tree_state.go
@@ -52,7 +52,7 @@ func (self *State) SatisfiesMinRequiredHead(minRequiredHeadLen uint8) bool {
 // both fully, partially, or in many different combinations. We need to get each
 // fragment and set up a new transition or adjust an already existing one. This
 // is a tricky method.
-func (self *State) AppendRange(runeRange RuneRange, ruleMatchIndex RuleIndex, stateLinker StateLinkerFn) error {
+func (self *State) AppendRange(runeRange RuneRange, ruleMatchIndex RuleIndex, stateLinker StateLinkerFn, stateSplitter StateSplitterFn) error {
 	// for the first part, we find candidate transitions and check if our range
 	// begins earlier, later, how much overlap it has, etc.
 	candidateTrans, _ := self.findRuneTransition(runeRange.First)
@@ -71,22 +71,22 @@ func (self *State) AppendRange(runeRange RuneRange, ruleMatchIndex RuleIndex, st
 		case splitFirstMid:
 			err := self.splitTransitionAt(candidateTrans, splitRange.Last)
 			if err != nil { return err }
-			return self.Transitions[candidateTrans].Link(ruleMatchIndex, stateLinker, 1)
+			return self.Transitions[candidateTrans].Link(ruleMatchIndex, stateLinker, stateSplitter, 1)
 			// ^ we terminate here
 		case splitFirstLast:
-			err := self.Transitions[candidateTrans].Link(ruleMatchIndex, stateLinker, 0)
+			err := self.Transitions[candidateTrans].Link(ruleMatchIndex, stateLinker, stateSplitter, 0)
 			if err != nil { return err }
 			runeRange.First = splitRange.Last + 1
 			candidateTrans += 1
 		case splitMidMid:
 			err := self.splitTransitionBy(candidateTrans, splitRange)
 			if err != nil { return err }
-			return self.Transitions[candidateTrans + 1].Link(ruleMatchIndex, stateLinker, 2)
+			return self.Transitions[candidateTrans + 1].Link(ruleMatchIndex, stateLinker, stateSplitter, 2)
 			// ^ we terminate here
 		case splitMidLast:
 			err := self.splitTransitionAt(candidateTrans, splitRange.First - 1)
 			if err != nil { return err }
-			err  = self.Transitions[candidateTrans + 1].Link(ruleMatchIndex, stateLinker, 1)
+			err  = self.Transitions[candidateTrans + 1].Link(ruleMatchIndex, stateLinker, stateSplitter, 1)
 			if err != nil { return err }
 			runeRange.First = splitRange.Last + 1
 			candidateTrans += 1
diff --git a/internal/rerules/utf8rule/decision_tree_transition.go b/internal/rerules/utf8rule/decision_tree_transition.go
index b4b472d..f5d0683 100644
--- a/internal/rerules/utf8rule/decision_tree_transition.go
+++ b/internal/rerules/utf8rule/decision_tree_transition.go
@@ -11,11 +11,12 @@ type Transition struct {
 	NextState StateIndex // StateNone (255) is reserved for "none"
 }
 
-func (self *Transition) Link(ruleMatchIndex RuleIndex, stateLinker StateLinkerFn, numSplits int) error {
+func (self *Transition) Link(ruleMatchIndex RuleIndex, stateLinker StateLinkerFn, stateSplitter StateSplitterFn, numSplits int) error {
 	if ruleMatchIndex != RuleNone { // on rule match, state addition stops
 		if self.RuleMatch == RuleNone {
 			self.RuleMatch = ruleMatchIndex
 		}
+		stateSplitter(self.NextState, numSplits)
 		return nil
 	} else { // add next state
 		var err error
-- 
2.43.0


From b13a147c400a27c30018882c633bc5c8d14b031b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:32 +0000
Subject: [PATCH 72/79] fix: state reuse in rewrite decision trees compares all
 the rules and accepts elements repeated within a set

---
 internal/rerules/glyphrule/decision_tree_compiler.go | 3 +--
 internal/rerules/utf8rule/decision_tree_compiler.go  | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/internal/rerules/glyphrule/decision_tree_compiler.go b/internal/rerules/glyphrule/decision_tree_compiler.go
index d60ffe5..9e0bc3e 100644
--- a/internal/rerules/glyphrule/decision_tree_compiler.go
+++ b/internal/rerules/glyphrule/decision_tree_compiler.go
@@ -241,8 +241,7 @@ func (self *DecisionTreeCompiler) fetchReusableState(referenceStateIndex StateIn
 		rules = self.run.TrackerStateRules[referenceStateIndex - 1]
 		for i, _ := range rules {
 			if rules[i] < self.run.RuleIndex { comparisonRulePosition += 1 }
-			if rules[i] == self.run.RuleIndex { panic(BrokenCode) }
-			break
+			if rules[i] == self.run.RuleIndex { return referenceStateIndex } // already contains the rule
 		}
 	}
 
diff --git a/internal/rerules/utf8rule/decision_tree_compiler.go b/internal/rerules/utf8rule/decision_tree_compiler.go
index 7d34204..123c915 100644
--- a/internal/rerules/utf8rule/decision_tree_compiler.go
+++ b/internal/rerules/utf8rule/decision_tree_compiler.go
@@ -242,8 +242,7 @@ func (self *DecisionTreeCompiler) fetchReusableState(referenceStateIndex StateIn
 		rules = self.run.TrackerStateRules[referenceStateIndex - 1]
 		for i, _ := range rules {
 			if rules[i] < self.run.RuleIndex { comparisonRulePosition += 1 }
-			if rules[i] == self.run.RuleIndex { panic(BrokenCode) }
-			break
+			if rules[i] == self.run.RuleIndex { return referenceStateIndex } // already contains the rule
 		}
 	}
 
-- 
2.43.0


From eeaed04f5131ab55db482c2a1e1eac93d2f1a0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:32 +0000
Subject: [PATCH 73/79] fix: compiling sets with multiple ranges doesn't lose
 transitions when states are reallocated

---
 internal/rerules/glyphrule/decision_tree_compiler.go | 8 +++++++-
 internal/rerules/utf8rule/decision_tree_compiler.go  | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/internal/rerules/glyphrule/decision_tree_compiler.go b/internal/rerules/glyphrule/decision_tree_compiler.go
index 9e0bc3e..98ae789 100644
--- a/internal/rerules/glyphrule/decision_tree_compiler.go
+++ b/internal/rerules/glyphrule/decision_tree_compiler.go
@@ -9,6 +9,7 @@ import "github.com/tinne26/ggfnt/internal/rerules"
 
 const CompilerHitLimits = "DecisionTreeCompiler hit a limit on number of states, transitions or a similar parameter"
 var ErrCompilerHitLimits = errors.New(CompilerHitLimits)
+const maxStates = 254
 
 // package level reusable decision tree (could have also been a pool)
 var CommonDecisionTreeCompiler internal.SingleInstancePool[DecisionTreeCompiler]
@@ -48,6 +49,11 @@ func (self *DecisionTreeCompiler) Begin(font *ggfnt.Font, buffer []State) {
 	if self.compiling { panic(PreViolation) } // discretionary safety assertion
 
 	self.compiling = true
+	if cap(buffer) < maxStates {
+		// avoid reallocations, as references to states being modified
+		// might be held while new states are being added
+		buffer = append(make([]State, 0, maxStates), buffer[ : cap(buffer)]...)
+	}
 	self.states = buffer[ : 0]
 	
 	self.run.Font = font
@@ -282,7 +288,7 @@ func (self *DecisionTreeCompiler) fetchFreedOrNewState() (StateIndex, error) {
 		resultStateIndex := self.run.TrackerFreedStates[freedCount - 1]
 		self.run.TrackerFreedStates = self.run.TrackerFreedStates[ : freedCount - 1]
 		return resultStateIndex, nil
-	case len(self.states) >= 254: // compiler limit reached
+	case len(self.states) >= maxStates: // compiler limit reached
 		return StateNone, ErrCompilerHitLimits
 	default: // general case if no freed states nor issues detected
 		resultStateIndex := StateIndex(len(self.states))
diff --git a/internal/rerules/utf8rule/decision_tree_compiler.go b/internal/rerules/utf8rule/decision_tree_compiler.go
index 123c915..2819256 100644
--- a/internal/rerules/utf8rule/decision_tree_compiler.go
+++ b/internal/rerules/utf8rule/decision_tree_compiler.go
@@ -9,6 +9,7 @@ import "github.com/tinne26/ggfnt/internal/rerules"
 
 const CompilerHitLimits = "DecisionTreeCompiler hit a limit on number of states, transitions or a similar parameter"
 var ErrCompilerHitLimits = errors.New(CompilerHitLimits)
+const maxStates = 254
 
 // package level reusable decision tree (could have also been a pool)
 var CommonDecisionTreeCompiler internal.SingleInstancePool[DecisionTreeCompiler]
@@ -48,6 +49,11 @@ func (self *DecisionTreeCompiler) Begin(font *ggfnt.Font, buffer []State) {
 	if self.compiling { panic(PreViolation) } // discretionary safety assertion
 
 	self.compiling = true
+	if cap(buffer) < maxStates {
+		// avoid reallocations, as references to states being modified
+		// might be held while new states are being added
+		buffer = append(make([]State, 0, maxStates), buffer[ : cap(buffer)]...)
+	}
 	self.states = buffer[ : 0]
 	
 	self.run.Font = font
@@ -283,7 +289,7 @@ func (self *DecisionTreeCompiler) fetchFreedOrNewState() (StateIndex, error) {
 		resultStateIndex := self.run.TrackerFreedStates[freedCount - 1]
 		self.run.TrackerFreedStates = self.run.TrackerFreedStates[ : freedCount - 1]
 		return resultStateIndex, nil
-	case len(self.states) >= 254: // compiler limit reached
+	case len(self.states) >= maxStates: // compiler limit reached
 		return StateNone, ErrCompilerHitLimits
 	default: // general case if no freed states nor issues detected
 		resultStateIndex := StateIndex(len(self.states))
-- 
2.43.0


From 2a4a7fedeb6de53069725128edcbdcf07198bae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:19 +0000
Subject: [PATCH 74/79] fix: malformed rewrite rules are always reported as
 errors

---
 internal/rerules/glyphrule/rule_scanner.go | 10 +++++++---
 internal/rerules/utf8rule/rule_scanner.go  | 10 +++++++---
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/internal/rerules/glyphrule/rule_scanner.go b/internal/rerules/glyphrule/rule_scanner.go
index bb6446e..1b10553 100644
--- a/internal/rerules/glyphrule/rule_scanner.go
+++ b/internal/rerules/glyphrule/rule_scanner.go
@@ -45,6 +45,9 @@ func (self *RuleScanner) Start(rule ggfnt.GlyphRewriteRule) error {
 	
 	// skip to body if head is empty
 	if self.rule.Data[1] == 0 {
+		if int(self.dataIndex) >= len(self.rule.Data) || self.rule.Data[self.dataIndex] != 0 {
+			return rerules.ErrInvalidReRule
+		}
 		self.dataIndex += 1
 		self.block = RuleBody
 		self.remainingBlockElements = self.rule.Data[2]
@@ -54,9 +57,7 @@ func (self *RuleScanner) Start(rule ggfnt.GlyphRewriteRule) error {
 	}
 
 	// parse head or body fragment control
-	self.parseFragmentControl()
-
-	return nil
+	return self.parseFragmentControl()
 }
 
 func (self *RuleScanner) Condition() uint8 { return self.rule.Condition() }
@@ -139,6 +140,7 @@ func (self *RuleScanner) advanceControl() error {
 }
 
 func (self *RuleScanner) parseFragmentControl() error {
+	if !self.HasNext() { return rerules.ErrInvalidReRule }
 	ctrl := self.rule.Data[self.dataIndex]
 	self.dataIndex += 1
 	self.remainingSets   = (ctrl & 0b1111_0000) >> 4
@@ -150,7 +152,9 @@ func (self *RuleScanner) parseFragmentControl() error {
 		if self.accumulatedBlockSets + self.accumulatedBlockGlyphs != self.rule.Data[1 + int(self.block)] {
 			return rerules.ErrInvalidReRule
 		}
+		if self.HasNext() { return rerules.ErrInvalidReRule } // trailing data
 	} else {
+		if !self.HasNext() { return rerules.ErrInvalidReRule }
 		if self.accumulatedBlockSets + self.accumulatedBlockGlyphs < self.accumulatedBlockSets {
 			return rerules.ErrInvalidReRule // ^ overflow
 		}
diff --git a/internal/rerules/utf8rule/rule_scanner.go b/internal/rerules/utf8rule/rule_scanner.go
index 9ee5366..68d3b51 100644
--- a/internal/rerules/utf8rule/rule_scanner.go
+++ b/internal/rerules/utf8rule/rule_scanner.go
@@ -44,6 +44,9 @@ func (self *RuleScanner) Start(rule ggfnt.Utf8RewriteRule) error {
 	
 	// skip to body if head is empty
 	if self.rule.Data[1] == 0 {
+		if int(self.dataIndex) >= len(self.rule.Data) || self.rule.Data[self.dataIndex] != 0 {
+			return rerules.InvalidUtf8RuleErr(rule)
+		}
 		self.dataIndex += 1
 		self.block = RuleBody
 		self.remainingBlockElements = self.rule.Data[2]
@@ -53,9 +56,7 @@ func (self *RuleScanner) Start(rule ggfnt.Utf8RewriteRule) error {
 	}
 
 	// parse head or body fragment control
-	self.parseFragmentControl()
-
-	return nil
+	return self.parseFragmentControl()
 }
 
 func (self *RuleScanner) Condition() uint8 { return self.rule.Condition() }
@@ -137,6 +138,7 @@ func (self *RuleScanner) advanceControl() error {
 }
 
 func (self *RuleScanner) parseFragmentControl() error {
+	if !self.HasNext() { return rerules.InvalidUtf8RuleErr(self.rule) }
 	ctrl := self.rule.Data[self.dataIndex]
 	self.dataIndex += 1
 	self.remainingSets = (ctrl & 0b1111_0000) >> 4
@@ -148,7 +150,9 @@ func (self *RuleScanner) parseFragmentControl() error {
 		if self.accumulatedBlockSets + self.accumulatedBlockCodePoints != self.rule.Data[1 + int(self.block)] {
 			return rerules.InvalidUtf8RuleErr(self.rule)
 		}
+		if self.HasNext() { return rerules.InvalidUtf8RuleErr(self.rule) } // trailing data
 	} else {
+		if !self.HasNext() { return rerules.InvalidUtf8RuleErr(self.rule) }
 		if self.accumulatedBlockSets + self.accumulatedBlockCodePoints < self.accumulatedBlockSets {
 			return rerules.InvalidUtf8RuleErr(self.rule) // ^ overflow
 		}
-- 
2.43.0


From 99950f65e0b6c31fffb3f3dc717c39f308e5eb8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:33 +0000
Subject: [PATCH 75/79] fix: rewrite rules with set index 255 are reported as
 invalid

---
 internal/rerules/glyphrule/rule_scanner.go | 1 +
 internal/rerules/utf8rule/rule_scanner.go  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/internal/rerules/glyphrule/rule_scanner.go b/internal/rerules/glyphrule/rule_scanner.go
index 1b10553..fdd9b2e 100644
--- a/internal/rerules/glyphrule/rule_scanner.go
+++ b/internal/rerules/glyphrule/rule_scanner.go
@@ -83,6 +83,7 @@ func (self *RuleScanner) Next() (ggfnt.GlyphIndex, GlyphSetIndex, error) {
 
 		set := GlyphSetIndex(self.rule.Data[self.dataIndex])
 		self.dataIndex += 1
+		if set == GlyphSetNone { return GlyphNone, GlyphSetNone, rerules.ErrInvalidReRule }
 		if int(self.dataIndex) >= len(self.rule.Data) {
 			err := self.checkTermination()
 			if err != nil { return GlyphNone, GlyphSetNone, err }
diff --git a/internal/rerules/utf8rule/rule_scanner.go b/internal/rerules/utf8rule/rule_scanner.go
index 68d3b51..578bed8 100644
--- a/internal/rerules/utf8rule/rule_scanner.go
+++ b/internal/rerules/utf8rule/rule_scanner.go
@@ -81,6 +81,7 @@ func (self *RuleScanner) Next() (rune, Utf8SetIndex, error) {
 
 		set := Utf8SetIndex(self.rule.Data[self.dataIndex])
 		self.dataIndex += 1
+		if set == Utf8SetNone { return RuneError, Utf8SetNone, rerules.InvalidUtf8RuleErr(self.rule) }
 		if int(self.dataIndex) >= len(self.rule.Data) {
 			err := self.checkTermination()
 			if err != nil { return RuneError, Utf8SetNone, err }
-- 
2.43.0


From ad231f5b5ab9344c50b7e8f89f7eba899661d2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:15 +0000
Subject: [PATCH 76/79] fix: parsing time grows linearly with the size of the
 font data

---
 internal/parsing_buffer.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/internal/parsing_buffer.go b/internal/parsing_buffer.go
index 4370a0c..b4d9d56 100644
--- a/internal/parsing_buffer.go
+++ b/internal/parsing_buffer.go
@@ -54,12 +54,10 @@ func (self *ParsingBuffer) readMore() error {
 		// read and process read bytes
 		n, err := self.gzipReader.Read(self.TempBuff)
 		if n > 0 {
-			self.Bytes = GrowSliceByN(self.Bytes, n)
-			if len(self.Bytes) > MaxFontDataSize {
+			if len(self.Bytes) + n > MaxFontDataSize {
 				return self.NewError("font data size exceeds limit")
 			}
-			k := copy(self.Bytes[len(self.Bytes) - n : ], self.TempBuff[ : n])
-			if k != n { panic("broken code") }
+			self.Bytes = append(self.Bytes, self.TempBuff[ : n]...)
 		}
 
 		// handle errors
-- 
2.43.0


From ae53268d01745c459d0f4d3f45b155dd0300b6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:57 +0000
Subject: [PATCH 77/79] fix: Build refuses masks or mappings that exceed the
 16MiB of their offsets

---
 builder/font_builder.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/builder/font_builder.go b/builder/font_builder.go
index 5871781..d0c8542 100644
--- a/builder/font_builder.go
+++ b/builder/font_builder.go
@@ -349,6 +349,9 @@ func (self *Font) Build() (*ggfnt.Font, error) {
 
 		// write offset back on the relevant index
 		offset32 = uint32(len(data) - baseGlyphMasksIndex)
+		if offset32 > 16777215 {
+			return nil, errors.New("glyph masks exceed maximum allowed size of 16MiB")
+		}
 		internal.EncodeUint24LE(data[glyphMaskEndOffsetsIndex : glyphMaskEndOffsetsIndex + 3], offset32)
 		glyphMaskEndOffsetsIndex += 3
 	}
@@ -479,6 +482,9 @@ func (self *Font) Build() (*ggfnt.Font, error) {
 			data, scratchBuffer, err = mapping.AppendTo(data, self.tempGlyphIndexLookup, scratchBuffer)
 			if err != nil { return nil, err }
 			offset += len(data) - preLen
+			if offset > 16777215 {
+				return nil, errors.New("mappings exceed maximum allowed size of 16MiB")
+			}
 
 			// append offset
 			internal.EncodeUint24LE(data[nextMappingEndOffsetIndex : nextMappingEndOffsetIndex + 3], uint32(offset))
-- 
2.43.0


From a91bfad771277e5743780053bd287b76c51fea80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:57 +0000
Subject: [PATCH 78/79] fix: Build returns an error instead of panicking on too
 many kerning pairs

---
 builder/font_builder.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/builder/font_builder.go b/builder/font_builder.go
index d0c8542..f20a7d8 100644
--- a/builder/font_builder.go
+++ b/builder/font_builder.go
@@ -621,8 +621,9 @@ func (self *Font) Build() (*ggfnt.Font, error) {
 	}
 
 	// --- kernings ---
-	if len(self.horzKerningPairs) > 16777215 { panic(invalidInternalState) }
-	if len(self.vertKerningPairs) > 16777215 { panic(invalidInternalState) }
+	if len(self.horzKerningPairs) > 16777215 || len(self.vertKerningPairs) > 16777215 {
+		return nil, errFontDataExceedsMax
+	}
 	font.OffsetToHorzKernings = uint32(len(data))
 	data = internal.AppendUint24LE(data, uint32(len(self.horzKerningPairs)))
 	self.tempSortingBuffer = self.tempSortingBuffer[ : 0]
-- 
2.43.0


From 9a7703c4933e7a352c2c3f8705cd2f678b52e6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:27:37 +0000
Subject: [PATCH 79/79] fix: RasterizeMask drew neighbouring data for glyphs
 that don't exist

Advance and Placement already refuse indices beyond the last glyph.
---
 font.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/font.go b/font.go
index 3f5c123..16d4139 100644
--- a/font.go
+++ b/font.go
@@ -513,9 +513,11 @@ func bytesEqStr(bytes []byte, str string) bool {
 }
 
 func (self *FontGlyphs) RasterizeMask(glyphIndex GlyphIndex) *image.Alpha {
+	numGlyphs := uint32(self.Count())
+	if uint32(glyphIndex) >= numGlyphs { panic("glyphIndex out of range") } // discretionary assertion
+
 	startOffset, endOffset := self.getGlyphDataOffsets(glyphIndex)
 	if self.hasVertLayout() { startOffset += 4 } else { startOffset += 1 }
-	numGlyphs := uint32(self.Count())
 	offsetToMasksData := self.OffsetToGlyphMasks + (numGlyphs << 1) + numGlyphs
 	glyphMask, err := mask.Rasterize(self.Data[offsetToMasksData + startOffset : offsetToMasksData + endOffset])
 	if err != nil { panic(err) }
-- 
2.43.0

