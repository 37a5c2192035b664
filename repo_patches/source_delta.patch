From 66136dfaf04f8ca021196723123368b08becb2c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:13 +0000
Subject: [PATCH 01/45] fix: bit vector of the DAWG builder reads the wrong bit
 and ranks exclusively

get tested the bit at (id%32)&1 and rank did not count the bit itself, so
key sets whose keys share an ending and a value gave a panic or a wrong trie.
---
 dartsclone/bitvector.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dartsclone/bitvector.go b/dartsclone/bitvector.go
index 8159da4..e70d50c 100644
--- a/dartsclone/bitvector.go
+++ b/dartsclone/bitvector.go
@@ -16,14 +16,14 @@ func newBitVector() *bitVector {
 }
 
 func (v *bitVector) get(id int) bool {
-	return v.units[id/unitLength]>>((uint(id)%unitLength)&1) == 1
+	return (v.units[id/unitLength]>>(uint(id)%unitLength))&1 == 1
 }
 
 func (v *bitVector) rank(id int) int {
 	const mask = uint32(0xffffffff)
 	unitId := id / unitLength
 	offset := uint(id % unitLength)
-	return v.ranks[unitId] + popCount(v.units[unitId] & ^(mask<<offset))
+	return v.ranks[unitId] + popCount(v.units[unitId]&(mask>>(unitLength-offset-1)))
 }
 
 func (v *bitVector) set(id int, bit bool) {
-- 
2.43.0


From ed592ac82c2e5e0a55bb9092b5e6cf6e51bd8ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:13 +0000
Subject: [PATCH 02/45] fix: DAWG builder reads past the end of a repeated or
 shortened key

A key equal to, or a proper prefix of, the key before it made the trie
build panic instead of being ignored or refused as wrongly ordered.
---
 dartsclone/dawgbuilder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dartsclone/dawgbuilder.go b/dartsclone/dawgbuilder.go
index 81a9d0b..2940fce 100644
--- a/dartsclone/dawgbuilder.go
+++ b/dartsclone/dawgbuilder.go
@@ -168,7 +168,7 @@ func (b *dawgBuilder) insert(key []byte, value int) error {
 		}
 
 		var keyLabel byte
-		if keyPos <= keylen {
+		if keyPos < keylen {
 			keyLabel = key[keyPos]
 		}
 		if keyPos < keylen && keyLabel == 0 {
-- 
2.43.0


From f012bf498b518311d441dcb8e6e18ac0e585ee0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:13 +0000
Subject: [PATCH 03/45] fix: DAWG builder accepts a null byte in the new part
 of a key

Such a key was silently cut at the null byte and stored as another key.
---
 dartsclone/dawgbuilder.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dartsclone/dawgbuilder.go b/dartsclone/dawgbuilder.go
index 2940fce..055a5bb 100644
--- a/dartsclone/dawgbuilder.go
+++ b/dartsclone/dawgbuilder.go
@@ -194,6 +194,9 @@ func (b *dawgBuilder) insert(key []byte, value int) error {
 		var keyLabel byte
 		if keyPos < keylen {
 			keyLabel = key[keyPos]
+			if keyLabel == 0 {
+				return fmt.Errorf("invalid null character")
+			}
 		}
 		childId := b.appendNode()
 
-- 
2.43.0


From 777ad396a7c2c332545916b932a3c08c06e40d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:14 +0000
Subject: [PATCH 04/45] fix: Traverse does not continue from the given node
 position

The first unit was always the root's, so a traversal in several steps
lost its way.
---
 dartsclone/da.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dartsclone/da.go b/dartsclone/da.go
index 9e7ca7f..6492519 100644
--- a/dartsclone/da.go
+++ b/dartsclone/da.go
@@ -233,7 +233,7 @@ type TraverseResult struct {
 func (da *DoubleArray) Traverse(key []byte, offset int, length int, nodePosition int) *TraverseResult {
 	nodePos := uint32(nodePosition)
 	id := nodePos
-	u := daunit(da.array[0])
+	u := daunit(da.array[int(id)])
 
 	for i := offset; i < length; i++ {
 		k := uint32(key[i])
-- 
2.43.0


From 8fe9bad9515f452dd15d244dbf6caf49aedb0cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:54 +0000
Subject: [PATCH 05/45] fix: lexicon source escape right after an incomplete
 escape is not decoded

---
 dictionary/dicbuilder.go | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/dictionary/dicbuilder.go b/dictionary/dicbuilder.go
index f92ceb9..15ed6f0 100644
--- a/dictionary/dicbuilder.go
+++ b/dictionary/dicbuilder.go
@@ -182,13 +182,10 @@ func (r *lexiconReader) decode(s []byte) []byte {
 		i += width
 		switch rc {
 		case '\\':
-			if nmark >= 0 {
-				nmark = -1
-			} else {
-				r.fieldBuffer = append(r.fieldBuffer, s[last:i-width]...)
-				last = i - width
-				umark = runecount
-			}
+			nmark = -1
+			r.fieldBuffer = append(r.fieldBuffer, s[last:i-width]...)
+			last = i - width
+			umark = runecount
 		case 'u':
 			if nmark >= 0 {
 				nmark = -1
-- 
2.43.0


From e61114b86e4955f04e190d7d7665e5c02abbfd4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:54 +0000
Subject: [PATCH 06/45] fix: reading words that name each other as dictionary
 form never ends

---
 dictionary/dalexicon.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/dictionary/dalexicon.go b/dictionary/dalexicon.go
index 88bb645..614f214 100644
--- a/dictionary/dalexicon.go
+++ b/dictionary/dalexicon.go
@@ -129,8 +129,7 @@ func (l *wordInfoList) getWordInfo(wordId int32) *WordInfo {
 
 	dictionaryForm := surface
 	if dictionaryFormWordId >= 0 && dictionaryFormWordId != wordId {
-		wi := l.getWordInfo(dictionaryFormWordId)
-		dictionaryForm = wi.Surface
+		_, dictionaryForm = l.bufferToStringF(l.bytebuffer, l.wordIdToOffset(dictionaryFormWordId))
 	}
 
 	return &WordInfo{
-- 
2.43.0


From ee9a2a2b6186a05aba79697ec9c3f0b8f0e00ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:21 +0000
Subject: [PATCH 07/45] fix: code points with an odd number of hex digits are
 refused in char.def

---
 dictionary/charcategory.go | 28 ++++++----------------------
 1 file changed, 6 insertions(+), 22 deletions(-)

diff --git a/dictionary/charcategory.go b/dictionary/charcategory.go
index 3714640..f818f20 100644
--- a/dictionary/charcategory.go
+++ b/dictionary/charcategory.go
@@ -1,9 +1,9 @@
 package dictionary
 
 import (
-	"encoding/hex"
 	"fmt"
 	"io"
+	"strconv"
 	"strings"
 	"unicode/utf8"
 
@@ -169,28 +169,12 @@ func (cc *CharacterCategory) ReadCharacterDefinition(charDefReader io.Reader) er
 }
 
 func decodeHexStrToInt32(s string) (int32, error) {
-	if len(s) < 3 {
-		return 0, fmt.Errorf("invalid hex string: too short")
+	if !strings.HasPrefix(s, "0x") {
+		return 0, fmt.Errorf("invalid hex string: %s does not start with 0x", s)
 	}
-	src := []byte(s[2:])
-	dst := make([]byte, hex.DecodedLen(len(src)))
-	n, err := hex.Decode(dst, src)
+	n, err := strconv.ParseUint(s[2:], 16, 31)
 	if err != nil {
-		return 0, err
+		return 0, fmt.Errorf("invalid hex string: %s", err)
 	}
-	if n > 4 {
-		return 0, fmt.Errorf("invalid hex string: too long")
-	}
-	var ret int32
-	switch n {
-	case 4:
-		ret = int32(dst[0])*16777216 + int32(dst[1])*65536 + int32(dst[2])*256 + int32(dst[3])
-	case 3:
-		ret = int32(dst[0])*65536 + int32(dst[1])*256 + int32(dst[2])
-	case 2:
-		ret = int32(dst[0])*256 + int32(dst[1])
-	case 1:
-		ret = int32(dst[0])
-	}
-	return ret, nil
+	return int32(n), nil
 }
-- 
2.43.0


From 816737f6f15aac144bc4c95196cac84324f20cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:32 +0000
Subject: [PATCH 08/45] fix: a run of characters need not share one category
 with all its members

---
 inputtext.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inputtext.go b/inputtext.go
index 98ea4ad..e0c9e96 100644
--- a/inputtext.go
+++ b/inputtext.go
@@ -236,8 +236,8 @@ func getCharCategoryContinuousLength(charCategories []uint32, offset int) int {
 	continuousCategory := charCategories[offset]
 	var length int
 	for length = 1; length < len(charCategories)-offset; length++ {
-		cc := continuousCategory & charCategories[offset+length]
-		if cc == 0 {
+		continuousCategory &= charCategories[offset+length]
+		if continuousCategory == 0 {
 			return length
 		}
 	}
-- 
2.43.0


From 5280890943b3a0896a1f3e9a9a324b576c74c8d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:59 +0000
Subject: [PATCH 09/45] fix: later runs of sound marks are replaced at the
 wrong place unless the replacement is one character

---
 prolongedsoundmarkinputtextplugin.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prolongedsoundmarkinputtextplugin.go b/prolongedsoundmarkinputtextplugin.go
index cf1ccfb..c785a40 100644
--- a/prolongedsoundmarkinputtextplugin.go
+++ b/prolongedsoundmarkinputtextplugin.go
@@ -68,7 +68,7 @@ func (p *ProlongedSoundMarkInputTextPlugin) Rewrite(builder *InputTextBuilder) e
 		} else if isProlongedSoundMark && !ok {
 			if (i - markStartIndex) > 1 {
 				builder.Replace(markStartIndex-offset, i-offset, p.replacementSymbol)
-				offset += i - markStartIndex - 1
+				offset += i - markStartIndex - len(p.replacementSymbol)
 			}
 			isProlongedSoundMark = false
 		}
-- 
2.43.0


From f95c53b6c0a693874e24938e393b2424116051ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:59 +0000
Subject: [PATCH 10/45] fix: the inhibitedPair setting of
 InhibitConnectionPlugin is never read

---
 inhibitconnectioncostplugin.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/inhibitconnectioncostplugin.go b/inhibitconnectioncostplugin.go
index e720e52..8480428 100644
--- a/inhibitconnectioncostplugin.go
+++ b/inhibitconnectioncostplugin.go
@@ -5,12 +5,12 @@ import (
 )
 
 type InhibitConnectionPlugin struct {
-	inhibitedPair []*[]int
+	InhibitedPair []*[]int
 }
 
 func NewInhibitConnectionPlugin(inhibitedPair []*[]int) *InhibitConnectionPlugin {
 	return &InhibitConnectionPlugin{
-		inhibitedPair: inhibitedPair,
+		InhibitedPair: inhibitedPair,
 	}
 }
 
@@ -23,7 +23,7 @@ func (p *InhibitConnectionPlugin) SetUp(grammar *dictionary.Grammar) error {
 }
 
 func (p *InhibitConnectionPlugin) Edit(grammar *dictionary.Grammar) error {
-	for _, pair := range p.inhibitedPair {
+	for _, pair := range p.InhibitedPair {
 		if len(*pair) < 2 {
 			continue
 		}
-- 
2.43.0


From a99c71302a7ef3a22a9a3c30bd826116e5474155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:00 +0000
Subject: [PATCH 11/45] fix: a decimal point makes every number invalid

---
 numericparser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/numericparser.go b/numericparser.go
index 3e0288a..d25b5e6 100644
--- a/numericparser.go
+++ b/numericparser.go
@@ -202,7 +202,7 @@ func (p *numericParser) append(c rune) bool {
 			p.errorState = errComma
 			return false
 
-		} else if p.tmp.setPoint() {
+		} else if !p.tmp.setPoint() {
 			p.errorState = errPoint
 			return false
 		}
-- 
2.43.0


From 92a46c10036ef1987cdd5cb60117f627590ccb56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:01 +0000
Subject: [PATCH 12/45] fix: adding a number with a decimal point inserts the
 point twice

---
 numericparser.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/numericparser.go b/numericparser.go
index d25b5e6..62094f8 100644
--- a/numericparser.go
+++ b/numericparser.go
@@ -82,7 +82,6 @@ func (n *stringNumber) add(t *stringNumber) bool {
 		if t.point >= 0 {
 			n.point = len(n.significand) + t.point
 		}
-		_ = t.String()
 		n.significand = append(n.significand, t.significand...)
 		n.scale = t.scale
 		return true
-- 
2.43.0


From e3bd2344c5d627be15482e218ae8fe75cb07dbb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:02 +0000
Subject: [PATCH 13/45] fix: adding to a number that had a decimal point uses
 its scale before normalization

---
 numericparser.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/numericparser.go b/numericparser.go
index 62094f8..f80a862 100644
--- a/numericparser.go
+++ b/numericparser.go
@@ -76,6 +76,7 @@ func (n *stringNumber) add(t *stringNumber) bool {
 		return true
 	}
 
+	n.normalizeScale()
 	l := t.intLength()
 	if n.scale >= l {
 		n.fillZero(n.scale - l)
-- 
2.43.0


From cc2139e5d7910d736d2cda8ac5ccedbad4665095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:02 +0000
Subject: [PATCH 14/45] fix: a comma or point directly before a unit, or a
 comma after a point, is swallowed by the number

---
 numericparser.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/numericparser.go b/numericparser.go
index f80a862..5f07126 100644
--- a/numericparser.go
+++ b/numericparser.go
@@ -183,7 +183,7 @@ func (p *numericParser) clear() {
 }
 
 func (p *numericParser) checkComma() bool {
-	if p.isFirstDigit {
+	if p.isFirstDigit || p.tmp.point >= 0 {
 		return false
 	} else if !p.hasComma {
 		return p.digitLength <= 3 && !p.tmp.isZero() && !p.tmp.IsAllZero
@@ -222,6 +222,15 @@ func (p *numericParser) append(c rune) bool {
 	if !ok {
 		return false
 	}
+	if n < 0 {
+		if p.hasHangingPoint {
+			p.errorState = errPoint
+			return false
+		} else if p.hasComma && p.digitLength != 3 {
+			p.errorState = errComma
+			return false
+		}
+	}
 	if n < 0 && n >= -3 { // isSmallUnit
 		p.tmp.shiftScale(-n)
 		if !p.subtotal.add(p.tmp) {
-- 
2.43.0


From 9240e1f5a6b491e77cb6ed93cdc85f31d0cc74fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:03 +0000
Subject: [PATCH 15/45] fix: joining numbers never ends when a separator of the
 numeric category is not part of a number

---
 joinnumericplugin.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/joinnumericplugin.go b/joinnumericplugin.go
index 722dff2..61505cb 100644
--- a/joinnumericplugin.go
+++ b/joinnumericplugin.go
@@ -80,10 +80,14 @@ func (p *JoinNumericPlugin) Rewrite(text *InputText, path *[]*LatticeNode, latti
 		types := GetCharCategoryTypes(text, node)
 		wi := node.GetWordInfo()
 		s := wi.NormalizedForm
-		if (types&dictionary.NUMERIC) == dictionary.NUMERIC ||
-			(types&dictionary.KANJINUMERIC) == dictionary.KANJINUMERIC ||
-			(periodAsDigit && s == ".") ||
-			(commaAsDigit && s == ",") {
+		isDigit := (types&dictionary.NUMERIC) == dictionary.NUMERIC ||
+			(types&dictionary.KANJINUMERIC) == dictionary.KANJINUMERIC
+		if s == "." {
+			isDigit = periodAsDigit
+		} else if s == "," {
+			isDigit = commaAsDigit
+		}
+		if isDigit {
 
 			if beginIndex < 0 {
 				parser.clear()
@@ -93,10 +97,10 @@ func (p *JoinNumericPlugin) Rewrite(text *InputText, path *[]*LatticeNode, latti
 			for _, c := range s {
 				if !parser.append(c) {
 					if beginIndex >= 0 {
-						if parser.errorState == errComma {
+						if parser.errorState == errComma && commaAsDigit {
 							commaAsDigit = false
 							i = beginIndex - 1
-						} else if parser.errorState == errPoint {
+						} else if parser.errorState == errPoint && periodAsDigit {
 							periodAsDigit = false
 							i = beginIndex - 1
 						}
-- 
2.43.0


From cf4c10175a4214efa8313ce8227315c3fae009be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:04 +0000
Subject: [PATCH 16/45] fix: the given resource path is ignored when a settings
 document has no path

---
 settingsjson.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/settingsjson.go b/settingsjson.go
index 0c287da..75362e7 100644
--- a/settingsjson.go
+++ b/settingsjson.go
@@ -42,7 +42,7 @@ func (settings *SettingsJSON) ParseSettingsJSON(defpath string, reader io.Reader
 	if err != nil {
 		return err
 	}
-	if internalBaseConfig.Path == nil && settings.path != "" {
+	if internalBaseConfig.Path == nil && settings.path == "" {
 		settings.path = defpath
 	} else if internalBaseConfig.Path != nil {
 		settings.path = *internalBaseConfig.Path
-- 
2.43.0


From 4868b460d35d176ca15c6584a97d3321eb4dfe8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:51 +0000
Subject: [PATCH 17/45] fix: a plugin entry without name or class inherits
 those of the entry before it

---
 settingsjson.go | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/settingsjson.go b/settingsjson.go
index 75362e7..42924f8 100644
--- a/settingsjson.go
+++ b/settingsjson.go
@@ -86,11 +86,11 @@ func (settings *SettingsJSON) getPath(path string) string {
 
 func (settings *SettingsJSON) GetInputTextPluginArray(makeproc MakeInputTextPluginFunc) ([]InputTextPlugin, error) {
 	ret := []InputTextPlugin{}
-	pname := &struct {
-		Class *string
-		Name  *string
-	}{}
 	for _, raw := range settings.inputTextPlugin {
+		pname := &struct {
+			Class *string
+			Name  *string
+		}{}
 		err := json.Unmarshal(raw, pname)
 		if err != nil {
 			return ret, err
@@ -117,11 +117,11 @@ func (settings *SettingsJSON) GetInputTextPluginArray(makeproc MakeInputTextPlug
 
 func (settings *SettingsJSON) GetOovProviderPluginArray(makeproc MakeOovProviderPluginFunc) ([]OovProviderPlugin, error) {
 	ret := []OovProviderPlugin{}
-	pname := &struct {
-		Class *string
-		Name  *string
-	}{}
 	for _, raw := range settings.oovProviderPlugin {
+		pname := &struct {
+			Class *string
+			Name  *string
+		}{}
 		err := json.Unmarshal(raw, pname)
 		if err != nil {
 			return ret, err
@@ -148,11 +148,11 @@ func (settings *SettingsJSON) GetOovProviderPluginArray(makeproc MakeOovProvider
 
 func (settings *SettingsJSON) GetEditConnectionCostPluginArray(makeproc MakeEditConnectionCostPluginFunc) ([]EditConnectionCostPlugin, error) {
 	ret := []EditConnectionCostPlugin{}
-	pname := &struct {
-		Class *string
-		Name  *string
-	}{}
 	for _, raw := range settings.editConnectionCostPlugin {
+		pname := &struct {
+			Class *string
+			Name  *string
+		}{}
 		err := json.Unmarshal(raw, pname)
 		if err != nil {
 			return ret, err
@@ -179,11 +179,11 @@ func (settings *SettingsJSON) GetEditConnectionCostPluginArray(makeproc MakeEdit
 
 func (settings *SettingsJSON) GetPathRewritePluginArray(makeproc MakePathRewritePluginFunc) ([]PathRewritePlugin, error) {
 	ret := []PathRewritePlugin{}
-	pname := &struct {
-		Class *string
-		Name  *string
-	}{}
 	for _, raw := range settings.pathRewritePlugin {
+		pname := &struct {
+			Class *string
+			Name  *string
+		}{}
 		err := json.Unmarshal(raw, pname)
 		if err != nil {
 			return ret, err
-- 
2.43.0


From 3292fe19eadef4153985dcfe6ac95a03a494e82b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:52 +0000
Subject: [PATCH 18/45] fix: a user dictionary does not find the parts of
 speech of its system dictionary

---
 dictionary/dicbuilder.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/dictionary/dicbuilder.go b/dictionary/dicbuilder.go
index 15ed6f0..c615016 100644
--- a/dictionary/dicbuilder.go
+++ b/dictionary/dicbuilder.go
@@ -77,18 +77,14 @@ type PosTableUser struct {
 	baseStore PosIdStore
 }
 
-func (pt *PosTableUser) getId(s string) int16 {
-	posId := pt.baseStore.GetPosId(s)
+func (pt *PosTableUser) GetPosId(posstrings ...string) int16 {
+	posId := pt.baseStore.GetPosId(posstrings...)
 	if posId < 0 {
-		posId = pt.PosTable.getId(s) + int16(pt.baseStore.GetPartOfSpeechSize())
+		posId = pt.PosTable.GetPosId(posstrings...) + int16(pt.baseStore.GetPartOfSpeechSize())
 	}
 	return posId
 }
 
-func (pt *PosTableUser) GetPosId(posstrings ...string) int16 {
-	return pt.getId(strings.Join(posstrings, ","))
-}
-
 func NewPosTableUser(base PosIdStore) *PosTableUser {
 	return &PosTableUser{
 		PosTable: PosTable{
-- 
2.43.0


From 313d8e03c5681ccc488a63b4e1004b07ee8c5149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:53 +0000
Subject: [PATCH 19/45] fix: loading a user dictionary without a part-of-speech
 table panics

---
 dictionary.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dictionary.go b/dictionary.go
index 9f67420..34acbad 100644
--- a/dictionary.go
+++ b/dictionary.go
@@ -131,7 +131,9 @@ func (d *JapaneseDictionary) ReadUserDictionary(filename string, utf16string boo
 		return int16(cost), nil
 	})
 	d.lexicon.Add(userLexicon, int32(d.grammar.GetPartOfSpeechSize()))
-	d.grammar.AddPosList(dict.Grammar)
+	if dict.Grammar != nil {
+		d.grammar.AddPosList(dict.Grammar)
+	}
 	return nil
 }
 
-- 
2.43.0


From 027ffd771aef1d81b8aebf0f0772adf131a59508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:54 +0000
Subject: [PATCH 20/45] fix: a failed automatic cost calculation is not
 reported

---
 dictionary.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dictionary.go b/dictionary.go
index 34acbad..b90abe6 100644
--- a/dictionary.go
+++ b/dictionary.go
@@ -117,7 +117,7 @@ func (d *JapaneseDictionary) ReadUserDictionary(filename string, utf16string boo
 		d.oovProviderPlugins,
 		[]PathRewritePlugin{},
 	)
-	userLexicon.CalculateCost(func(text string) (int16, error) {
+	err = userLexicon.CalculateCost(func(text string) (int16, error) {
 		ms, err := tokenizer.Tokenize("C", text)
 		if err != nil {
 			return int16(mincost), err
@@ -130,6 +130,9 @@ func (d *JapaneseDictionary) ReadUserDictionary(filename string, utf16string boo
 		}
 		return int16(cost), nil
 	})
+	if err != nil {
+		return fmt.Errorf("fail to calculate a cost: %s", err)
+	}
 	d.lexicon.Add(userLexicon, int32(d.grammar.GetPartOfSpeechSize()))
 	if dict.Grammar != nil {
 		d.grammar.AddPosList(dict.Grammar)
-- 
2.43.0


From b1e414f548c9fb47fbc26c81227066e649aad46e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:54 +0000
Subject: [PATCH 21/45] fix: the internal cost of an empty analysis panics

---
 morpheme.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/morpheme.go b/morpheme.go
index 975d377..f331b7d 100644
--- a/morpheme.go
+++ b/morpheme.go
@@ -157,5 +157,8 @@ func (l *MorphemeList) GetDictionaryId(index int) int {
 }
 
 func (l *MorphemeList) GetInternalCost() int {
+	if len(l.path) == 0 {
+		return 0
+	}
 	return l.path[len(l.path)-1].GetPathCost() - l.path[0].GetPathCost()
 }
-- 
2.43.0


From 1782e13ccaed8b22b33930353fe6c425382e3ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:55 +0000
Subject: [PATCH 22/45] fix: dictionaries stay open when opening fails

---
 dictionary.go            | 10 ++++++++--
 dictionary/binarydict.go |  2 ++
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/dictionary.go b/dictionary.go
index b90abe6..350d458 100644
--- a/dictionary.go
+++ b/dictionary.go
@@ -25,7 +25,7 @@ type JapaneseDictionary struct {
 	dictionaries       []*dictionary.BinaryDictionary
 }
 
-func NewJapaneseDictionary(config *BaseConfig, inputTextPlugins []InputTextPlugin, oovProviderPlugins []OovProviderPlugin, pathRewritePlugins []PathRewritePlugin, editConnectionCostPlugins []EditConnectionCostPlugin) (*JapaneseDictionary, error) {
+func NewJapaneseDictionary(config *BaseConfig, inputTextPlugins []InputTextPlugin, oovProviderPlugins []OovProviderPlugin, pathRewritePlugins []PathRewritePlugin, editConnectionCostPlugins []EditConnectionCostPlugin) (_ *JapaneseDictionary, err error) {
 	if len(oovProviderPlugins) == 0 {
 		return nil, fmt.Errorf("no OOV provider")
 	}
@@ -36,7 +36,13 @@ func NewJapaneseDictionary(config *BaseConfig, inputTextPlugins []InputTextPlugi
 		pathRewritePlugins: pathRewritePlugins,
 	}
 
-	err := d.ReadSystemDictionary(config.SystemDict, config.Utf16String)
+	defer func() {
+		if err != nil {
+			d.Close()
+		}
+	}()
+
+	err = d.ReadSystemDictionary(config.SystemDict, config.Utf16String)
 	if err != nil {
 		return nil, fmt.Errorf("fail to read a system dictionary: %s", err)
 	}
diff --git a/dictionary/binarydict.go b/dictionary/binarydict.go
index f0c0953..25d130b 100644
--- a/dictionary/binarydict.go
+++ b/dictionary/binarydict.go
@@ -34,6 +34,8 @@ func NewBinaryDictionary(filename string, utf16string bool) (*BinaryDictionary,
 	offset := 0
 	header := ParseDictionaryHeader(fmap, offset)
 	if header == nil {
+		_ = mmap.Munmap(fmap)
+		_ = fd.Close()
 		return nil, fmt.Errorf("invalid header: %s", filename)
 	}
 
-- 
2.43.0


From 6dfa9d70ac3de7d3a6158f3015af1120149abcbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:57 +0000
Subject: [PATCH 23/45] fix: a file too short for a dictionary header is read
 past its end

---
 dictionary/dicheader.go  | 3 +++
 dictionary/dicprinter.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/dictionary/dicheader.go b/dictionary/dicheader.go
index cb6e4f6..43162d1 100644
--- a/dictionary/dicheader.go
+++ b/dictionary/dicheader.go
@@ -26,6 +26,9 @@ func NewDictionaryHeader(version uint64, createTime int64, description string) *
 }
 
 func ParseDictionaryHeader(input []byte, offset int) *DictionaryHeader {
+	if len(input)-offset < HeaderStorageSize {
+		return nil
+	}
 	offset, version := bufferToUint64(input, offset)
 	offset, createTime := bufferToInt64(input, offset)
 
diff --git a/dictionary/dicprinter.go b/dictionary/dicprinter.go
index 5714e62..6013f06 100644
--- a/dictionary/dicprinter.go
+++ b/dictionary/dicprinter.go
@@ -112,6 +112,9 @@ func PrintHeader(dictfile string, output io.Writer) error {
 	defer mmap.Munmap(bytebuffer)
 
 	dh := ParseDictionaryHeader(bytebuffer, 0)
+	if dh == nil {
+		return fmt.Errorf("invalid header: %s", dictfile)
+	}
 
 	fmt.Fprintf(output, "filename: %s\n", dictfile)
 
-- 
2.43.0


From d1d147ec8b065b8613780259fd118b5808afb61c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:58 +0000
Subject: [PATCH 24/45] fix: printed parts of speech and splits are preceded by
 empty elements

---
 dictionary/dicprinter.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dictionary/dicprinter.go b/dictionary/dicprinter.go
index 6013f06..d236e74 100644
--- a/dictionary/dicprinter.go
+++ b/dictionary/dicprinter.go
@@ -32,7 +32,7 @@ func PrintDictionary(filename string, utf16string bool, systemDict *BinaryDictio
 	}
 
 	possize := grammar.GetPartOfSpeechSize()
-	posStrings := make([]string, possize, possize)
+	posStrings := make([]string, 0, possize)
 	for pid := 0; pid < possize; pid++ {
 		posStrings = append(posStrings, strings.Join(grammar.GetPartOfSpeechString(int16(pid)), ","))
 	}
@@ -86,7 +86,7 @@ func splitToString(split []int32) string {
 	if len(split) == 0 {
 		return "*"
 	}
-	splitstrs := make([]string, len(split), len(split))
+	splitstrs := make([]string, 0, len(split))
 	for _, i := range split {
 		splitstrs = append(splitstrs, strconv.Itoa(int(i)))
 	}
-- 
2.43.0


From 5685385fb5ff2e3d2fc95c26788b5ccc349f4562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:59 +0000
Subject: [PATCH 25/45] fix: printing a user dictionary changes the system
 dictionary

---
 dictionary/dicprinter.go | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/dictionary/dicprinter.go b/dictionary/dicprinter.go
index d236e74..4cc4e03 100644
--- a/dictionary/dicprinter.go
+++ b/dictionary/dicprinter.go
@@ -13,7 +13,7 @@ import (
 )
 
 func PrintDictionary(filename string, utf16string bool, systemDict *BinaryDictionary, output io.Writer) error {
-	var grammar *Grammar
+	var posList [][]string
 
 	dic, err := NewBinaryDictionary(filename, utf16string)
 	if err != nil {
@@ -21,20 +21,19 @@ func PrintDictionary(filename string, utf16string bool, systemDict *BinaryDictio
 	}
 	defer dic.Close()
 	if dic.Header.Version == SystemDictVersion {
-		grammar = dic.Grammar
+		posList = dic.Grammar.posList
 	} else if systemDict == nil {
 		return errors.New("the system dictionary is not specified")
 	} else {
-		grammar = systemDict.Grammar
+		posList = append(posList, systemDict.Grammar.posList...)
 		if dic.Header.Version == UserDictVersion2 {
-			grammar.AddPosList(dic.Grammar)
+			posList = append(posList, dic.Grammar.posList...)
 		}
 	}
 
-	possize := grammar.GetPartOfSpeechSize()
-	posStrings := make([]string, 0, possize)
-	for pid := 0; pid < possize; pid++ {
-		posStrings = append(posStrings, strings.Join(grammar.GetPartOfSpeechString(int16(pid)), ","))
+	posStrings := make([]string, 0, len(posList))
+	for _, pos := range posList {
+		posStrings = append(posStrings, strings.Join(pos, ","))
 	}
 
 	lexicon := dic.Lexicon
-- 
2.43.0


From 8f471639ef2b5ae0a8fd5d2316e316a670126ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:59 +0000
Subject: [PATCH 26/45] fix: the converter goes on after it failed to read the
 dictionary

---
 dicconv/main.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dicconv/main.go b/dicconv/main.go
index 638a81b..3ed2d09 100644
--- a/dicconv/main.go
+++ b/dicconv/main.go
@@ -65,6 +65,7 @@ Options:
 	fromdic, err := dictionary.NewBinaryDictionary(args[0], !utf16string)
 	if err != nil {
 		fmt.Fprintln(os.Stderr, err)
+		os.Exit(1)
 	}
 	defer fromdic.Close()
 
-- 
2.43.0


From 6d3dc39c1c138542f7a059434752af709a07fe43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:00 +0000
Subject: [PATCH 27/45] fix: a line is lost when a CR LF ends the read buffer

---
 gosudachicli/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gosudachicli/main.go b/gosudachicli/main.go
index 9476437..ac011d6 100644
--- a/gosudachicli/main.go
+++ b/gosudachicli/main.go
@@ -161,7 +161,7 @@ func (norm *normalizer) Read(p []byte) (n int, err error) {
 		switch {
 		case p[i] == '\n' && norm.lastChar == '\r':
 			copy(p[i:n], p[i+1:])
-			norm.lastChar = p[i]
+			norm.lastChar = '\n'
 			n--
 			i--
 		case p[i] == '\r':
-- 
2.43.0


From d970cf5e86b3064467334007e73434292eed1e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:01 +0000
Subject: [PATCH 28/45] fix: a failed analysis leaves its candidates to the
 next one

---
 tokenizer.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tokenizer.go b/tokenizer.go
index 0d194a5..dc1bcdc 100644
--- a/tokenizer.go
+++ b/tokenizer.go
@@ -97,6 +97,7 @@ func (t *JapaneseTokenizer) Tokenize(mode string, text string) (*MorphemeList, e
 
 func (t *JapaneseTokenizer) buildLattice(input *InputText) error {
 	bytea := input.Bytea
+	t.lattice.clear()
 	t.lattice.resize(len(bytea))
 	for i, _ := range bytea {
 		if !input.CanBow(i) || !t.lattice.HasPreviousNode(i) {
-- 
2.43.0


From bb43bca920d53da7922478894ba10b77d5a11aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:47 +0000
Subject: [PATCH 29/45] fix: a headword over the length limit in bytes wraps
 around in the UTF-16 format

---
 dictionary/dicbuilder.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dictionary/dicbuilder.go b/dictionary/dicbuilder.go
index c615016..3de18eb 100644
--- a/dictionary/dicbuilder.go
+++ b/dictionary/dicbuilder.go
@@ -7,6 +7,7 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"math"
 	"os"
 	"strconv"
 	"strings"
@@ -303,7 +304,7 @@ func (dicbuilder *DictionaryBuilder) BuildLexicon(store PosIdStore, input io.Rea
 			return fmt.Errorf("invalid format at line: columns length must be %d: at line %d", NumberOfColumns, r.numLine)
 		}
 
-		if dicbuilder.stringLen(cols[0]) {
+		if dicbuilder.stringLen(cols[0]) || len(cols[0]) > math.MaxInt16 {
 			return fmt.Errorf("string is too long: column 0 at line %d", r.numLine)
 		}
 		if dicbuilder.stringLen(cols[4]) {
-- 
2.43.0


From 78e9db1db57b2fb2777da277c2ac9741a9f8cb4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:48 +0000
Subject: [PATCH 30/45] fix: a string over the length limit is written with a
 wrong length

---
 dictionary/dicbuilder.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dictionary/dicbuilder.go b/dictionary/dicbuilder.go
index 3de18eb..cdcb34f 100644
--- a/dictionary/dicbuilder.go
+++ b/dictionary/dicbuilder.go
@@ -418,6 +418,9 @@ func writeStringLength(buffer *bytes.Buffer, length int16) error {
 }
 
 func writeString(buffer *bytes.Buffer, s string) error {
+	if len(s) > StringUtf8MaxLength {
+		return errors.New("string is too long")
+	}
 	err := writeStringLength(buffer, int16(len(s)))
 	if err != nil {
 		return err
@@ -433,6 +436,9 @@ func writeStringUtf16(buffer *bytes.Buffer, s string) error {
 	// java compatible
 	javainternal := utf16.Encode([]rune(s))
 
+	if len(javainternal) > StringUtf16MaxLength {
+		return errors.New("string is too long")
+	}
 	err := writeStringLength(buffer, int16(len(javainternal)))
 	if err != nil {
 		return err
-- 
2.43.0


From 2a6d62ad8fc0cc11f21b25e0b7bb576fdfff875b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:49 +0000
Subject: [PATCH 31/45] fix: more than 255 words with the same headword corrupt
 the word-ID table

---
 dictionary/dicbuilder.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dictionary/dicbuilder.go b/dictionary/dicbuilder.go
index cdcb34f..4dbc365 100644
--- a/dictionary/dicbuilder.go
+++ b/dictionary/dicbuilder.go
@@ -662,6 +662,9 @@ func (dicbuilder *DictionaryBuilder) WriteLexicon(writer io.WriteSeeker, store P
 		wordIds, _ := v.([]int32)
 		keys[i] = bkey
 		values[i] = position
+		if len(wordIds) > math.MaxUint8 {
+			return fmt.Errorf("too many words with the same headword: %s", bkey)
+		}
 		err := wordIdTable.WriteByte(byte(len(wordIds)))
 		if err != nil {
 			return err
-- 
2.43.0


From 49346599a288168b3177fc8a7ba888dd037e2860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:50 +0000
Subject: [PATCH 32/45] fix: a dictionary form that names no word is accepted

---
 dictionary/dicbuilder.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dictionary/dicbuilder.go b/dictionary/dicbuilder.go
index 4dbc365..52e1cd7 100644
--- a/dictionary/dicbuilder.go
+++ b/dictionary/dicbuilder.go
@@ -811,6 +811,9 @@ func (dicbuilder *DictionaryBuilder) writeWordInfo(writer io.WriteSeeker, store
 		if err != nil {
 			return err
 		}
+		if wi.DictionaryFormWordId < -1 || int(wi.DictionaryFormWordId) >= len(dicbuilder.wordEntries) {
+			return fmt.Errorf("invalid dictionary form word ID: %d", wi.DictionaryFormWordId)
+		}
 		err = binary.Write(dicbuilder.buffer, binary.LittleEndian, uint32(wi.DictionaryFormWordId))
 		if err != nil {
 			return err
-- 
2.43.0


From 6bb7611919ed87d7df5dd582d6886ab8aca2c4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:51 +0000
Subject: [PATCH 33/45] fix: connection ids outside the matrix are written to
 other cells or panic

---
 dictionary/dicbuilder.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dictionary/dicbuilder.go b/dictionary/dicbuilder.go
index 52e1cd7..d545ca2 100644
--- a/dictionary/dicbuilder.go
+++ b/dictionary/dicbuilder.go
@@ -513,6 +513,9 @@ func (dicbuilder *DictionaryBuilder) WriteGrammar(postable *PosTable, input io.R
 	if err != nil {
 		return fmt.Errorf("%s: invalid format at line %d", err, r.NumLine)
 	}
+	if leftSize < 0 || rightSize < 0 {
+		return fmt.Errorf("negative matrix size: invalid format at line %d", r.NumLine)
+	}
 	err = binary.Write(dicbuilder.buffer, binary.LittleEndian, uint16(leftSize))
 	if err != nil {
 		return fmt.Errorf("%s: invalid format at line %d", err, r.NumLine)
@@ -560,6 +563,9 @@ func (dicbuilder *DictionaryBuilder) WriteGrammar(postable *PosTable, input io.R
 		if err != nil {
 			return fmt.Errorf("%s: invalid format at line %d", err, r.NumLine)
 		}
+		if left < 0 || left >= leftSize || right < 0 || right >= rightSize {
+			return fmt.Errorf("connection id is out of range: invalid format at line %d", r.NumLine)
+		}
 		binary.LittleEndian.PutUint16(matrix[2*(left+leftSize*right):], uint16(cost))
 	}
 
-- 
2.43.0


From a526255d3780c75d69157cefb19df438df1042b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:52 +0000
Subject: [PATCH 34/45] fix: a comma in a part of speech corrupts the
 part-of-speech table, and more parts of speech than ids wrap around

---
 dictionary/dicbuilder.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/dictionary/dicbuilder.go b/dictionary/dicbuilder.go
index d545ca2..bffb3ad 100644
--- a/dictionary/dicbuilder.go
+++ b/dictionary/dicbuilder.go
@@ -342,7 +342,15 @@ func (dicbuilder *DictionaryBuilder) BuildLexicon(store PosIdStore, input io.Rea
 		entry.Parameters[2] = int16(cols3)
 
 		// part of speech
+		for i := 5; i <= 10; i++ {
+			if strings.Contains(cols[i], ",") {
+				return fmt.Errorf("part of speech contains a comma: column %d at line %d", i, r.numLine)
+			}
+		}
 		posId := store.GetPosId(cols[5], cols[6], cols[7], cols[8], cols[9], cols[10])
+		if posId < 0 {
+			return fmt.Errorf("too many parts of speech: at line %d", r.numLine)
+		}
 
 		if strings.Count(cols[15], "/")+1 > ArrayMaxLength {
 			return fmt.Errorf("too many units: columns 15 at line %d", r.numLine)
-- 
2.43.0


From 4d09586d830107e4d25c76a150156d7187c82a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:53 +0000
Subject: [PATCH 35/45] fix: unknown-word candidates longer than a headword can
 be wrap around

---
 mecaboovproviderplugin.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/mecaboovproviderplugin.go b/mecaboovproviderplugin.go
index 79cb83f..1bacbc9 100644
--- a/mecaboovproviderplugin.go
+++ b/mecaboovproviderplugin.go
@@ -3,6 +3,7 @@ package gosudachi
 import (
 	"fmt"
 	"io"
+	"math"
 	"os"
 	"strconv"
 	"strings"
@@ -85,6 +86,13 @@ func (p *MeCabOovProviderPlugin) SetUp(grammar *dictionary.Grammar) error {
 func (p *MeCabOovProviderPlugin) ProvideOOV(inputText *InputText, offset int, hasOtherWords bool) ([]*LatticeNode, error) {
 	nodes := []*LatticeNode{}
 	length := inputText.GetCharCategoryContinuousLength(offset)
+	if length > math.MaxInt16 {
+		// a word cannot be longer
+		length = math.MaxInt16
+		for !inputText.IsCharAlignment(offset + length) {
+			length--
+		}
+	}
 	if length > 0 {
 		catTypes := inputText.GetCharCategoryTypes(offset)
 		for t := dictionary.DEFAULT; t <= dictionary.NOOOVBOW; t *= 2 {
-- 
2.43.0


From 968cbcedb6b958ce658a7072484e4042bc8d28b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:54 +0000
Subject: [PATCH 36/45] fix: looking up a part of speech with too few parts
 panics

---
 dictionary/grammar.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dictionary/grammar.go b/dictionary/grammar.go
index 66d88f0..e7df2a1 100644
--- a/dictionary/grammar.go
+++ b/dictionary/grammar.go
@@ -80,6 +80,9 @@ func (g *Grammar) GetPartOfSpeechString(posId int16) []string {
 }
 
 func (g *Grammar) GetPartOfSpeechId(pos []string) int16 {
+	if len(pos) != posDepth {
+		return int16(-1)
+	}
 L:
 	for i, p := range g.posList {
 		for j := 0; j < posDepth; j++ {
-- 
2.43.0


From c77d6d3f51fb35c58828ad3dbb4d1cee293ad5f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:26 +0000
Subject: [PATCH 37/45] fix: a printed user dictionary refers to its own words
 by numbers its source cannot hold

---
 dictionary/dicprinter.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dictionary/dicprinter.go b/dictionary/dicprinter.go
index 4cc4e03..6d77c3a 100644
--- a/dictionary/dicprinter.go
+++ b/dictionary/dicprinter.go
@@ -87,6 +87,11 @@ func splitToString(split []int32) string {
 	}
 	splitstrs := make([]string, 0, len(split))
 	for _, i := range split {
+		if i>>28 != 0 {
+			// a word of the user dictionary itself
+			splitstrs = append(splitstrs, "U"+strconv.Itoa(int(i&0x0FFFFFFF)))
+			continue
+		}
 		splitstrs = append(splitstrs, strconv.Itoa(int(i)))
 	}
 	return strings.Join(splitstrs, "/")
-- 
2.43.0


From e98741e2ac94281a128d5b905935c6d4a6e27b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:24 +0000
Subject: [PATCH 38/45] fix: a malformed number with a hanging separator is
 joined into a wrong value

---
 numericparser.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/numericparser.go b/numericparser.go
index 5f07126..b148a1f 100644
--- a/numericparser.go
+++ b/numericparser.go
@@ -264,7 +264,9 @@ func (p *numericParser) append(c rune) bool {
 }
 
 func (p *numericParser) done() bool {
-	ret := p.subtotal.add(p.tmp) && p.total.add(p.subtotal)
+	if !p.subtotal.add(p.tmp) || !p.total.add(p.subtotal) {
+		return false
+	}
 	if p.hasHangingPoint {
 		p.errorState = errPoint
 		return false
@@ -272,7 +274,7 @@ func (p *numericParser) done() bool {
 		p.errorState = errComma
 		return false
 	}
-	return ret
+	return true
 }
 
 func (p *numericParser) getNormalized() string {
-- 
2.43.0


From 0b100c4fe46c3bb282a73d3939735a33576b7185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:29 +0000
Subject: [PATCH 39/45] fix: end of the description of a header that is not at
 offset 0

---
 dictionary/dicheader.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dictionary/dicheader.go b/dictionary/dicheader.go
index 43162d1..be593ce 100644
--- a/dictionary/dicheader.go
+++ b/dictionary/dicheader.go
@@ -29,11 +29,12 @@ func ParseDictionaryHeader(input []byte, offset int) *DictionaryHeader {
 	if len(input)-offset < HeaderStorageSize {
 		return nil
 	}
+	end := offset + HeaderStorageSize
 	offset, version := bufferToUint64(input, offset)
 	offset, createTime := bufferToInt64(input, offset)
 
 	i := offset
-	for ; i < HeaderStorageSize; i++ {
+	for ; i < end; i++ {
 		if input[i] == 0 {
 			break
 		}
-- 
2.43.0


From 37aaf0ec10a0b895b243371e748886d85607af77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:10 +0000
Subject: [PATCH 40/45] fix: output before a failure was lost with -o, and
 failed writes were ignored

---
 gosudachicli/main.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/gosudachicli/main.go b/gosudachicli/main.go
index ac011d6..5cde2e0 100644
--- a/gosudachicli/main.go
+++ b/gosudachicli/main.go
@@ -248,26 +248,27 @@ func run(tokenizer *gosudachi.JapaneseTokenizer, mode string, text string, outpu
 	if err != nil {
 		return err
 	}
+	w := bufio.NewWriter(output)
 	for i := 0; i < ms.Length(); i++ {
 		m := ms.Get(i)
 
-		fmt.Fprintf(output, "%s\t%s\t%s",
+		fmt.Fprintf(w, "%s\t%s\t%s",
 			m.Surface(),
 			strings.Join(m.PartOfSpeech(), ","),
 			m.NormalizedForm())
 		if printAll {
-			fmt.Fprintf(output, "\t%s\t%s\t%d",
+			fmt.Fprintf(w, "\t%s\t%s\t%d",
 				m.DictionaryForm(),
 				m.ReadingForm(),
 				m.GetDictionaryId())
 			if m.IsOOV() {
-				fmt.Fprintf(output, "\t(OOV)")
+				fmt.Fprintf(w, "\t(OOV)")
 			}
 		}
-		fmt.Fprintf(output, "\n")
+		fmt.Fprintf(w, "\n")
 	}
-	fmt.Fprintln(output, "EOS")
-	return nil
+	fmt.Fprintln(w, "EOS")
+	return w.Flush()
 }
 
 func main() {
-- 
2.43.0


From a80633925f701c58e530abcb9dbf5da2e3c044df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:04 +0000
Subject: [PATCH 41/45] fix: undo 6d3dc39, the line reader was right as it was

The stale byte that it looked at can never be a CR.
---
 gosudachicli/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gosudachicli/main.go b/gosudachicli/main.go
index 5cde2e0..268f712 100644
--- a/gosudachicli/main.go
+++ b/gosudachicli/main.go
@@ -161,7 +161,7 @@ func (norm *normalizer) Read(p []byte) (n int, err error) {
 		switch {
 		case p[i] == '\n' && norm.lastChar == '\r':
 			copy(p[i:n], p[i+1:])
-			norm.lastChar = '\n'
+			norm.lastChar = p[i]
 			n--
 			i--
 		case p[i] == '\r':
-- 
2.43.0


From 31ebddba2d8f7755b5db2e1dcfe1b9b34a3e4043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:46 +0000
Subject: [PATCH 42/45] fix: closing a dictionary file again could unmap
 another one

---
 dictionary/binarydict.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dictionary/binarydict.go b/dictionary/binarydict.go
index 25d130b..551ff93 100644
--- a/dictionary/binarydict.go
+++ b/dictionary/binarydict.go
@@ -86,9 +86,13 @@ func ReadUserDictionary(filename string, utf16string bool) (*BinaryDictionary, e
 }
 
 func (bd *BinaryDictionary) Close() error {
+	if bd.fmap == nil {
+		return nil
+	}
 	err := mmap.Munmap(bd.fmap)
 	if err != nil {
 		return err
 	}
+	bd.fmap = nil
 	return bd.fd.Close()
 }
-- 
2.43.0


From 83aecc1c0a24641610cf94c26d6fa27fb7fd398b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:28 +0000
Subject: [PATCH 43/45] fix: an inhibited pair outside the matrix changed
 another connection or crashed

---
 dictionary/grammar.go          | 4 ++++
 inhibitconnectioncostplugin.go | 7 ++++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/dictionary/grammar.go b/dictionary/grammar.go
index e7df2a1..5bb0287 100644
--- a/dictionary/grammar.go
+++ b/dictionary/grammar.go
@@ -99,6 +99,10 @@ func (g *Grammar) GetPosId(posstrings ...string) int16 {
 	return g.GetPartOfSpeechId(posstrings)
 }
 
+func (g *Grammar) HasConnection(leftId int, rightId int) bool {
+	return leftId >= 0 && leftId < int(g.leftIdSize) && rightId >= 0 && rightId < int(g.rightIdSize)
+}
+
 func (g *Grammar) GetConnectCost(leftId int16, rightId int16) int16 {
 	s := g.connectTableOffset + int(leftId)*2 + 2*int(g.leftIdSize)*int(rightId)
 	_, cost := bufferToInt16(g.connectTableBytes, s)
diff --git a/inhibitconnectioncostplugin.go b/inhibitconnectioncostplugin.go
index 8480428..2555226 100644
--- a/inhibitconnectioncostplugin.go
+++ b/inhibitconnectioncostplugin.go
@@ -1,6 +1,8 @@
 package gosudachi
 
 import (
+	"fmt"
+
 	"github.com/msnoigrs/gosudachi/dictionary"
 )
 
@@ -24,9 +26,12 @@ func (p *InhibitConnectionPlugin) SetUp(grammar *dictionary.Grammar) error {
 
 func (p *InhibitConnectionPlugin) Edit(grammar *dictionary.Grammar) error {
 	for _, pair := range p.InhibitedPair {
-		if len(*pair) < 2 {
+		if pair == nil || len(*pair) < 2 {
 			continue
 		}
+		if !grammar.HasConnection((*pair)[0], (*pair)[1]) {
+			return fmt.Errorf("InhibitConnectionPlugin: inhibitedPair %v is invalid", *pair)
+		}
 		InhibitConnection(grammar, int16((*pair)[0]), int16((*pair)[1]))
 	}
 	return nil
-- 
2.43.0


From 1a3753e091af762d8dd30758277f84161fa1f16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:12 +0000
Subject: [PATCH 44/45] fix: user dictionaries with more parts of speech in all
 than there are ids were accepted

---
 dictionary.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dictionary.go b/dictionary.go
index 350d458..91674f9 100644
--- a/dictionary.go
+++ b/dictionary.go
@@ -3,6 +3,7 @@ package gosudachi
 import (
 	"fmt"
 	"io"
+	"math"
 	"os"
 
 	"github.com/msnoigrs/gosudachi/data"
@@ -115,6 +116,11 @@ func (d *JapaneseDictionary) ReadUserDictionary(filename string, utf16string boo
 
 	d.dictionaries = append(d.dictionaries, dict)
 
+	if dict.Grammar != nil &&
+		d.grammar.GetPartOfSpeechSize()+dict.Grammar.GetPartOfSpeechSize() > math.MaxInt16+1 {
+		return fmt.Errorf("too many parts of speech")
+	}
+
 	userLexicon := dict.Lexicon
 	tokenizer := NewJapaneseTokenizer(
 		d.grammar,
-- 
2.43.0


From 4e0ac20250734ea75a4eb5dc3eef352af6b448d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:27 +0000
Subject: [PATCH 45/45] fix: refuse a character definition line with more than
 two ends of a range

---
 dictionary/charcategory.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dictionary/charcategory.go b/dictionary/charcategory.go
index f818f20..a7d900d 100644
--- a/dictionary/charcategory.go
+++ b/dictionary/charcategory.go
@@ -135,6 +135,9 @@ func (cc *CharacterCategory) ReadCharacterDefinition(charDefReader io.Reader) er
 
 		catrange := new(categoryRange)
 		rs := strings.Split(cols[0], "..")
+		if len(rs) > 2 {
+			return fmt.Errorf("invalid format at line %d: more than one range", r.NumLine)
+		}
 		low, err := decodeHexStrToInt32(rs[0])
 		if err != nil {
 			return fmt.Errorf("invalid format at line %d: %s", r.NumLine, err)
-- 
2.43.0

