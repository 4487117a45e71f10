From 9e1869bb16e9d3ccec53cb8e04d7da21bb6dc135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:12 +0000
Subject: [PATCH 01/36] fix: keccak paddings of data one byte short of a full
 block

The first and the last byte of the padding coincide when the data is 135 bytes
modulo 136: Pad101Bits put a block too many, PadBits101 produced a stream of a
wrong length and GetRoundIndex selected a block that the standard padding does not have.
---
 circuits/gadgets/keccak/pad.go       | 16 ++++++----------
 circuits/gadgets/keccak/periphery.go | 14 +++++++++-----
 2 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/circuits/gadgets/keccak/pad.go b/circuits/gadgets/keccak/pad.go
index 57156e8..9e01103 100644
--- a/circuits/gadgets/keccak/pad.go
+++ b/circuits/gadgets/keccak/pad.go
@@ -75,19 +75,15 @@ func Pad101Bits(
 		}
 
 		actualLen := j
-		rounds := (actualLen+8)/1088 + 1
+		rounds := actualLen/1088 + 1
 
-		// insert the padding part
-		for ; j < actualLen+7; j++ {
+		// insert the padding part, the first and the last pad byte are the same one
+		// if the data is one byte short of a full block
+		for ; j < rounds*1088; j++ {
 			padded[i][j] = 0
 		}
-		padded[i][j] = 1
-		j++
-		for ; j < rounds*1088-8; j++ {
-			padded[i][j] = 0
-		}
-		padded[i][j] = 1
-		j++
+		padded[i][actualLen+7] = 1
+		padded[i][rounds*1088-8] = 1
 
 		// populate the rest with dummy zeros
 		for ; j < outBitsLen; j++ {
diff --git a/circuits/gadgets/keccak/periphery.go b/circuits/gadgets/keccak/periphery.go
index 65f53f5..8af2220 100644
--- a/circuits/gadgets/keccak/periphery.go
+++ b/circuits/gadgets/keccak/periphery.go
@@ -37,7 +37,7 @@ func GetKeccakRoundForPaddedBytes(data []byte) int {
 }
 
 func GetRoundIndex(bitsLen int) int {
-	return (bitsLen + 8) / 1088
+	return bitsLen / 1088
 }
 
 func Bytes2BlockBits(bytes []byte) (bits []uint8) {
@@ -246,11 +246,15 @@ func PadBits101(api frontend.API, data []frontend.Variable, maxRound int) []fron
 	var missedLen = 1088 - len(data)%1088
 	var zeroBitLen = missedLen - 8*2
 
-	padBits = append(padBits, api.ToBinary(1, 8)...) // 1000, 0000
-	for i := 0; i < zeroBitLen; i++ {
-		padBits = append(padBits, 0) //00...0000
+	if missedLen == 8 {
+		padBits = append(padBits, api.ToBinary(129, 8)...) // 1000, 0001
+	} else {
+		padBits = append(padBits, api.ToBinary(1, 8)...) // 1000, 0000
+		for i := 0; i < zeroBitLen; i++ {
+			padBits = append(padBits, 0) //00...0000
+		}
+		padBits = append(padBits, api.ToBinary(128, 8)...) // 0000 0001
 	}
-	padBits = append(padBits, api.ToBinary(128, 8)...) // 0000 0001
 
 	padZeroLen := maxRound*1088 - len(padBits)
 
-- 
2.43.0


From 9666317ef126c8d43c51f0515ac57ee206601ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:12 +0000
Subject: [PATCH 02/36] fix: Bits2Nibbles passed a slice as a single bit and
 skipped every second nibble

---
 circuits/gadgets/conv/bits.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/circuits/gadgets/conv/bits.go b/circuits/gadgets/conv/bits.go
index 4e232ca..bc047f7 100644
--- a/circuits/gadgets/conv/bits.go
+++ b/circuits/gadgets/conv/bits.go
@@ -49,8 +49,8 @@ func Bits2Uint128s(api frontend.API, bits [256]frontend.Variable) [2]frontend.Va
 
 func Bits2Nibbles(api frontend.API, bits []frontend.Variable) []frontend.Variable {
 	bytes := []frontend.Variable{}
-	for i := 0; i < len(bits); i += 8 {
-		bytes = append(bytes, api.FromBinary(bits[i:i+4]))
+	for i := 0; i < len(bits); i += 4 {
+		bytes = append(bytes, api.FromBinary(bits[i:i+4]...))
 	}
 	return bytes
 }
-- 
2.43.0


From fa8aadb5c7e38f86374aaa63219789878296c064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:48 +0000
Subject: [PATCH 03/36] fix: RLP list checks miscounted empty list items

---
 circuits/gadgets/rlp/rlp.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/circuits/gadgets/rlp/rlp.go b/circuits/gadgets/rlp/rlp.go
index afa2884..2cda551 100644
--- a/circuits/gadgets/rlp/rlp.go
+++ b/circuits/gadgets/rlp/rlp.go
@@ -265,7 +265,8 @@ func RlpFieldPrefix(api frontend.API, in [2]frontend.Variable) (frontend.Variabl
 	isValid = api.Sub(isValid, api.Mul(lt1, isEmptyList))
 
 	prefixOrTotalHexLen = api.Add(api.Mul(isValid, prefixOrTotalHexLen), api.Mul(isArray, arrayHexLen))
-	isValid = api.Add(isValid, isArray)
+	// the empty list 0xc0 is already valid and an array as well, it must not be counted twice
+	isValid = api.Sub(api.Add(isValid, isArray), api.Mul(isValid, isArray))
 
 	isBig = api.Add(isBig, isArrayBig)
 
@@ -474,7 +475,7 @@ func (a *ArrayCheck) RlpNestArrayCheck(api frontend.API, in []frontend.Variable)
 			shiftToFieldIn = append(shiftToFieldIn, shiftToFieldRlpsOuts[idx][j])
 		}
 
-		fieldPrefixIsBig, fieldPrefixIsLiteral, fieldPrefixPrefixOrTotalHexLen, fieldPrefixIsValid, isArrayField, isEmptyList, isZero := RlpFieldPrefix(api, [2]frontend.Variable{shiftToFieldRlpsOuts[idx][0], shiftToFieldRlpsOuts[idx][1]})
+		fieldPrefixIsBig, fieldPrefixIsLiteral, fieldPrefixPrefixOrTotalHexLen, fieldPrefixIsValid, isArrayField, _, isZero := RlpFieldPrefix(api, [2]frontend.Variable{shiftToFieldRlpsOuts[idx][0], shiftToFieldRlpsOuts[idx][1]})
 
 		fieldRlpPrefix1HexLen := api.Mul(fieldPrefixIsBig, fieldPrefixPrefixOrTotalHexLen)
 
@@ -517,7 +518,6 @@ func (a *ArrayCheck) RlpNestArrayCheck(api frontend.API, in []frontend.Variable)
 
 		//  lenSum = lenSum + 2 - 2 * fieldPrefix[idx].isLiteral + fieldRlpPrefix1HexLen[idx] + fieldHexLen[idx];
 		lenSum = api.Sub(api.Add(lenSum, 2), api.Mul(2, fieldPrefixIsLiteral))
-		lenSum = api.Sub(lenSum, api.Mul(1, isEmptyList))
 		lenSum = api.Add(lenSum, fieldRlpPrefix1HexLen, fieldHexLen)
 
 		fieldHexLen = api.Add(fieldHexLen, keptArrayPrefixLen)
-- 
2.43.0


From 67b6a9c03c69e3eb47fdab4aa9ac892471778550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:45 +0000
Subject: [PATCH 04/36] fix: ShiftLeft ignored the shift when only one amount
 is allowed

---
 circuits/gadgets/rlp/rlp.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/circuits/gadgets/rlp/rlp.go b/circuits/gadgets/rlp/rlp.go
index 2cda551..c64823c 100644
--- a/circuits/gadgets/rlp/rlp.go
+++ b/circuits/gadgets/rlp/rlp.go
@@ -291,6 +291,7 @@ func ShiftLeft(api frontend.API, nIn int, minShift int, maxShift int, in []front
 	var out []frontend.Variable
 
 	if minShift == maxShift {
+		api.AssertIsEqual(shift, minShift)
 		for i := 0; i < nIn; i++ {
 			out = append(out, in[(i+minShift)%nIn])
 		}
-- 
2.43.0


From b37351e10451d8cb2d91207702cfe709c6b390d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:26 +0000
Subject: [PATCH 05/36] fix: block header list check counted a prefix for
 absent trailing fields

---
 circuits/gadgets/rlp/rlp.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/circuits/gadgets/rlp/rlp.go b/circuits/gadgets/rlp/rlp.go
index c64823c..8b6f915 100644
--- a/circuits/gadgets/rlp/rlp.go
+++ b/circuits/gadgets/rlp/rlp.go
@@ -774,8 +774,9 @@ func (a *ArrayCheck) BlkHeaderRlpCheck(api frontend.API, in []frontend.Variable,
 		check = api.Add(check, fieldPrefixIsValid)
 
 		//  lenSum = lenSum + 2 - 2 * fieldPrefix[idx].isLiteral + fieldRlpPrefix1HexLen[idx] + fieldHexLen[idx];
-		lenSum = api.Sub(api.Add(lenSum, 2), api.Mul(2, fieldPrefixIsLiteral))
-		lenSum = api.Add(lenSum, fieldRlpPrefix1HexLen, fieldHexLen)
+		// what follows the last field of the header is no field and has no prefix
+		prefixHexLen := api.Add(api.Sub(2, api.Mul(2, fieldPrefixIsLiteral)), fieldRlpPrefix1HexLen)
+		lenSum = api.Add(lenSum, api.Mul(prefixHexLen, idxLessThanMaxFields), fieldHexLen)
 	}
 
 	lenCheck := api.IsZero(api.Sub(totalArrayHexLen, lenSum))
-- 
2.43.0


From 879f0f80391de6d7f21453b97b20a70ab1b11194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:43 +0000
Subject: [PATCH 06/36] fix: storage absence proofs accepted present slots and
 arbitrary values

---
 circuits/gadgets/mpt/mpt.go      | 11 ++++-------
 circuits/gadgets/mpt/mpt_util.go | 21 ++++++++++++---------
 2 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/circuits/gadgets/mpt/mpt.go b/circuits/gadgets/mpt/mpt.go
index 5663ed5..3ac16de 100644
--- a/circuits/gadgets/mpt/mpt.go
+++ b/circuits/gadgets/mpt/mpt.go
@@ -4,7 +4,6 @@ import (
 	"github.com/brevis-network/zk-utils/circuits/gadgets/keccak"
 	"github.com/brevis-network/zk-utils/circuits/gadgets/rlp"
 	"github.com/brevis-network/zk-utils/common/utils"
-	"github.com/consensys/gnark/std/selector"
 
 	"github.com/celer-network/goutils/log"
 	"github.com/consensys/gnark/frontend"
@@ -98,19 +97,17 @@ func CheckMPTInclusionFixedKeyLength(
 	// 1. the node is last node
 	// 2. in case of the node is branch node or an extension node, but the key path is not matched
 	if isStorageProof {
-		lastNodeLayer := api.Sub(depth, 1)
-		lastNodeKeySelector := selector.Mux(api, lastNodeLayer, key[:]...)
-
-		// layer index start at 0, last node layer = depth -1
 		lastNodeBranchCheck := NewMPTBranchCheck(64)
-		lastNodeBranchNonExistence := lastNodeBranchCheck.CheckBranchForNonExistence(api, lastNodeKeySelector, lastNodeRlp)
+		lastNodeBranchNonExistence := lastNodeBranchCheck.CheckBranchForNonExistence(api, leafSelector[0], lastNodeRlp)
 		log.Infoln("lastNodeBranchNonExistence:", lastNodeBranchNonExistence)
 
 		lastNodeExtensionCheck := NewMPTExtensionCheck(keyLength, 64)
-		lastNodeExtensionNonExistence := lastNodeExtensionCheck.checkExtensionNodeNonExistence(api, leafSelector, leafSelectorLength, lastNodeRlp, leafPathPrefixLength)
+		lastNodeExtensionNonExistence := lastNodeExtensionCheck.checkExtensionNodeNonExistence(api, leafSelector, lastNodeRlp, leafPathPrefixLength)
 		log.Infoln("lastNodeExtensionNonExistence:", lastNodeExtensionNonExistence)
 
 		isNotExist := api.Or(lastNodeBranchNonExistence, lastNodeExtensionNonExistence)
+		// an absent slot has no value but zero
+		isNotExist = api.And(isNotExist, isZeroSlotValue(api, value))
 		lastNodeCheckResult.result.output = api.Select(isNotExist, 4, lastNodeCheckResult.result.output)
 
 	}
diff --git a/circuits/gadgets/mpt/mpt_util.go b/circuits/gadgets/mpt/mpt_util.go
index a3d3328..2516fd7 100644
--- a/circuits/gadgets/mpt/mpt_util.go
+++ b/circuits/gadgets/mpt/mpt_util.go
@@ -51,6 +51,14 @@ func NewMPTLeafCheck(maxKeyLength int, maxValueLength int) MPTLeafCheck {
 	return *leafCheck
 }
 
+// isZeroSlotValue tells whether values is the rlp of the zero value (0x80), the value of a slot that is not in the trie
+func isZeroSlotValue(api frontend.API, values []frontend.Variable) frontend.Variable {
+	valuePrefix := values[:2]
+	isSingleValue := rlp.ArrayEqual(api, valuePrefix[:], []frontend.Variable{8, 0}, 2, 2)
+	isZeroArr := rlp.ArrayEqual(api, values[2:], []frontend.Variable{0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}, 64, 64)
+	return api.And(isSingleValue, isZeroArr)
+}
+
 //	Valid Leaf Case
 //	1. No-zero value: rlpout: 1, prefixCheck: 1, keyPass: 1, valueMatched: 1
 //
@@ -68,10 +76,7 @@ func (leafCheck *MPTLeafCheck) CheckLeaf(
 	api.AssertIsEqual(len(keyNibbles), leafCheck.maxKeyLength)
 	api.AssertIsEqual(len(values), leafCheck.maxValueLength)
 
-	valuePrefix := values[:2]
-	isSingleValue := rlp.ArrayEqual(api, valuePrefix[:], []frontend.Variable{8, 0}, 2, 2)
-	isZeroArr := rlp.ArrayEqual(api, values[2:], []frontend.Variable{0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}, 64, 64)
-	isZeroValue := api.And(isSingleValue, isZeroArr)
+	isZeroValue := isZeroSlotValue(api, values)
 
 	arrayCheck := &rlp.ArrayCheck{}
 	arrayCheck.MaxHexLen = leafCheck.maxRLPLength
@@ -200,7 +205,6 @@ func (extensionCheck *MPTExtensionCheck) CheckExtension(
 func (ec *MPTExtensionCheck) checkExtensionNodeNonExistence(
 	api frontend.API,
 	keyNibbles []frontend.Variable,
-	keyNibbleLen frontend.Variable,
 	nodeRlp []frontend.Variable,
 	nodeTypePrefixLength frontend.Variable) frontend.Variable {
 
@@ -230,13 +234,12 @@ func (ec *MPTExtensionCheck) checkExtensionNodeNonExistence(
 	// shift node type (node prefix), max type len = 2
 	keyPathsArr := rlp.ShiftLeft(api, ec.maxRLPLength, 0, 2, fields[0], nodeTypePrefixLength)
 
-	// check key path part
+	// check key path part, the key is absent only if it leaves the path of the extension node
 	keyNibblesMatched := rlp.ArrayEqual(api, keyNibbles, keyPathsArr, ec.maxKeyLength, api.Sub(fieldsLength[0], nodeTypePrefixLength))
-	keyNibblesLengthMatched := rlp.Equal(api, keyNibbleLen, api.Sub(fieldsLength[0], nodeTypePrefixLength))
 
-	keyNotExistInPath := api.Sub(1, api.And(keyNibblesMatched, keyNibblesLengthMatched))
+	keyNotExistInPath := api.Sub(1, keyNibblesMatched)
 
-	isNotExist := rlp.Equal(api, api.Add(prefixCheck, keyNotExistInPath), 2)
+	isNotExist := rlp.Equal(api, api.Add(rlpout, prefixCheck, keyNotExistInPath), 3)
 	return isNotExist
 
 }
-- 
2.43.0


From 3faefae7313d18463f815b833eb5287907ef22cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:43 +0000
Subject: [PATCH 07/36] fix: fixed-length trie proofs were not tied to the root
 at depth 1 nor to the start of the key

---
 circuits/gadgets/mpt/mpt.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/circuits/gadgets/mpt/mpt.go b/circuits/gadgets/mpt/mpt.go
index 3ac16de..369bfef 100644
--- a/circuits/gadgets/mpt/mpt.go
+++ b/circuits/gadgets/mpt/mpt.go
@@ -70,6 +70,8 @@ func CheckMPTInclusionFixedKeyLength(
 
 	allFragmentsValidMultiplexer := rlp.Multiplexer(api, api.Sub(depth, 1), 1, maxDepth, allFragmentsInput)
 	allFragmentsValid := rlp.Equal(api, allFragmentsValidMultiplexer[0], api.Mul(3, depth))
+	// the path begins with the first nibble of the key
+	allFragmentsValid = api.Mul(allFragmentsValid, api.IsZero(keyFragmentStarts[0]))
 
 	var leafStartInput [][]frontend.Variable
 	for i := 0; i < maxDepth; i++ {
@@ -220,7 +222,12 @@ func CheckMPTInclusionFixedKeyLength(
 		nodeHashes[layer] = *rlp.Keccak256AsNibbles(api, nodeHashInputLengthAtCurrentLayer, nodeRlpBlock, nodeRoundIndexes[layer])
 	}
 
-	rootHashCheck := rlp.ArrayEqual(api, rootHash[:], nodeHashes[0].Output[:], 64, 64)
+	// the root is the last node itself when depth is 1
+	var rootNodeHash [64]frontend.Variable
+	for i := 0; i < 64; i++ {
+		rootNodeHash[i] = api.Select(depthEqual[0], leafHash.Output[i], nodeHashes[0].Output[i])
+	}
+	rootHashCheck := rlp.ArrayEqual(api, rootHash[:], rootNodeHash[:], 64, 64)
 	log.Debug(rootHashCheck, lastNodeCheckResult.result.output, allFragmentsValid, extensionCheckResults, branchCheckResults)
 
 	var allCheckMultiplexerInput [][]frontend.Variable
-- 
2.43.0


From 20b7399a7804258190d7360a7c715ef9156d1585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:43 +0000
Subject: [PATCH 08/36] fix: fixed-length trie proofs constrained the padding
 after the last node

---
 circuits/gadgets/mpt/mpt.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/circuits/gadgets/mpt/mpt.go b/circuits/gadgets/mpt/mpt.go
index 369bfef..800bb6e 100644
--- a/circuits/gadgets/mpt/mpt.go
+++ b/circuits/gadgets/mpt/mpt.go
@@ -61,8 +61,9 @@ func CheckMPTInclusionFixedKeyLength(
 		if len(allFragmentsInput) == 0 {
 			allFragmentsInput = append(allFragmentsInput, []frontend.Variable{})
 		}
+		// the fragment of the last node ends with the key, what follows it is padding
+		allFragmentsInput[0] = append(allFragmentsInput[0], api.Add(tmp, 2, isStartRange[i]))
 		tmp = api.Add(tmp, keyFragmentValidBranch[i], isMonotoneStart[i], isStartRange[i])
-		allFragmentsInput[0] = append(allFragmentsInput[0], tmp)
 	}
 
 	tmp = api.Add(tmp, 2, isStartRange[maxDepth-1])
-- 
2.43.0


From f9f57b257c5c9a7725c4f8e5be4a00108477cc4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:43 +0000
Subject: [PATCH 09/36] fix: trie proofs of transactions accepted one failing
 check and refused valid ones

---
 circuits/gadgets/mpt/mpt.go | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/circuits/gadgets/mpt/mpt.go b/circuits/gadgets/mpt/mpt.go
index 800bb6e..9ce55b5 100644
--- a/circuits/gadgets/mpt/mpt.go
+++ b/circuits/gadgets/mpt/mpt.go
@@ -289,11 +289,15 @@ func CheckMPTInclusionNoBranchTermination(
 	for index := 0; index < maxDepth-1; index++ {
 		isSingleKeyFragment = append(isSingleKeyFragment, rlp.Equal(api, api.Add(keyFragmentStarts[index], 1), keyFragmentStarts[index+1]))
 		isMonotoneStart = append(isMonotoneStart, rlp.LessThan(api, keyFragmentStarts[index], keyFragmentStarts[index+1]))
-		keyFragmentValidBranch = append(keyFragmentValidBranch, api.Or(isSingleKeyFragment[index], api.Sub(1, nodeTypes[index])))
+		keyFragmentValidBranch = append(keyFragmentValidBranch, api.Or(isSingleKeyFragment[index], nodeTypes[index]))
 		isStartRange = append(isStartRange, rlp.LessThan(api, keyFragmentStarts[index], keyLength))
 	}
 
-	isStartRange = append(isStartRange, rlp.LessThan(api, keyFragmentStarts[maxDepth-1], keyLength))
+	// no nibble of the key may be left for the leaf
+	var isLeafStartRange []frontend.Variable // [maxDepth]
+	for index := 0; index < maxDepth; index++ {
+		isLeafStartRange = append(isLeafStartRange, rlp.LessThan(api, keyFragmentStarts[index], api.Add(keyLength, 1)))
+	}
 
 	var allFragmentsInput [][]frontend.Variable
 	var tmp frontend.Variable = 0
@@ -301,15 +305,18 @@ func CheckMPTInclusionNoBranchTermination(
 		if len(allFragmentsInput) == 0 {
 			allFragmentsInput = append(allFragmentsInput, []frontend.Variable{})
 		}
+		// the fragment of the leaf ends with the key, what follows it is padding
+		allFragmentsInput[0] = append(allFragmentsInput[0], api.Add(tmp, 2, isLeafStartRange[i]))
 		tmp = api.Add(tmp, keyFragmentValidBranch[i], isMonotoneStart[i], isStartRange[i])
-		allFragmentsInput[0] = append(allFragmentsInput[0], tmp)
 	}
 
-	tmp = api.Add(tmp, 2, isStartRange[maxDepth-1])
+	tmp = api.Add(tmp, 2, isLeafStartRange[maxDepth-1])
 	allFragmentsInput[0] = append(allFragmentsInput[0], tmp)
 
 	allFragmentsValidMultiplexer := rlp.Multiplexer(api, api.Sub(depth, 1), 1, maxDepth, allFragmentsInput)
 	allFragmentsValid := rlp.Equal(api, allFragmentsValidMultiplexer[0], api.Mul(3, depth))
+	// the path begins with the first nibble of the key
+	allFragmentsValid = api.Mul(allFragmentsValid, api.IsZero(keyFragmentStarts[0]))
 
 	var leafStartInput [][]frontend.Variable
 	for i := 0; i < maxDepth; i++ {
@@ -438,7 +445,12 @@ func CheckMPTInclusionNoBranchTermination(
 		nodeHashes[layer] = *rlp.Keccak256AsNibbles(api, nodeHashInputLengthAtCurrentLayer, nodeRlpBlock, nodeRoundIndexes[layer])
 	}
 
-	rootHashCheck := rlp.ArrayEqual(api, rootHash[:], nodeHashes[0].Output[:], 64, 64)
+	// the root is the leaf itself when depth is 1
+	var rootNodeHash [64]frontend.Variable
+	for i := 0; i < 64; i++ {
+		rootNodeHash[i] = api.Select(depthEqual[0], leafHash[i], nodeHashes[0].Output[i])
+	}
+	rootHashCheck := rlp.ArrayEqual(api, rootHash[:], rootNodeHash[:], 64, 64)
 	log.Debug("Inclusion Check:", rootHashCheck, allFragmentsValid, extensionCheckResults, branchCheckResults)
 
 	var allCheckMultiplexerInput [][]frontend.Variable
@@ -466,7 +478,7 @@ func CheckMPTInclusionNoBranchTermination(
 	allCheckMultiplexer := rlp.Multiplexer(api, api.Sub(depth, 1), 1, maxDepth, allCheckMultiplexerInput)
 
 	return CheckMPTInclusionFixedKeyLengthResult{
-		Output:      rlp.Equal(api, allCheckMultiplexer[0], api.Add(api.Mul(depth, 4), 1)),
+		Output:      rlp.Equal(api, allCheckMultiplexer[0], api.Add(api.Mul(depth, 4), 2)),
 		ValueLength: 0,
 	}
 }
-- 
2.43.0


From 70ca279eebcf5120bb585237a36753cabb7d3613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:30 +0000
Subject: [PATCH 10/36] fix: limb splits were not constrained to their sizes;
 Resplit ignored a single limb

---
 circuits/gadgets/limbs/limbapi.go | 35 ++++++++++++++-----------------
 1 file changed, 16 insertions(+), 19 deletions(-)

diff --git a/circuits/gadgets/limbs/limbapi.go b/circuits/gadgets/limbs/limbapi.go
index 5dd8357..89eb54f 100644
--- a/circuits/gadgets/limbs/limbapi.go
+++ b/circuits/gadgets/limbs/limbapi.go
@@ -57,7 +57,7 @@ func NewAPI(api frontend.API) *API {
 }
 
 // Split splits the word into parts of `limbSize` except the last element.
-// this function uses a hint function to compute the Split results, then constrains the sum.
+// this function decomposes the word into bits, so a word that does not fit its size is rejected.
 // nbLimbs is the number of equal sized parts of `limbSize`. optional, if not specified, the word is Split into as many
 // `limbSize` chunks as possible.
 // e.g. for word 1010 if `limbSize = 1` and `nbLimbsOpt = 2` then the result is [1, 0, 10]
@@ -76,27 +76,17 @@ func (wa *API) Split(l Limb, newLimbSize int, nbLimbsOpt ...int) Limbs {
 		panic(fmt.Sprintf("cannot split word of size %d into %d parts", l.Size, nbLimbs))
 	}
 	remSize := l.Size - nbLimbs*newLimbSize
-	nbTotal := nbLimbs
-	if remSize > 0 {
-		nbTotal++
-	}
-	out, err := wa.api.Compiler().NewHint(SplitHint, nbTotal, l.Val, l.Size, newLimbSize, nbLimbs)
-	if err != nil {
-		panic(fmt.Sprintf("hint failed to split merge output: %s", err.Error()))
-	}
+	// least significant bit first; this constrains the parts to their sizes
+	bits := wa.api.ToBinary(l.Val, l.Size)
 	var ret Limbs
-	var acc frontend.Variable = 0
 	nbZeros := l.Size
 	for i := 0; i < nbLimbs; i++ {
 		nbZeros -= newLimbSize
-		acc = wa.api.MulAcc(acc, out[i], exp2(nbZeros))
-		ret = append(ret, Limb{Val: out[i], Size: newLimbSize})
+		ret = append(ret, Limb{Val: wa.api.FromBinary(bits[nbZeros:nbZeros+newLimbSize]...), Size: newLimbSize})
 	}
 	if remSize > 0 {
-		acc = wa.api.Add(acc, out[len(out)-1])
-		ret = append(ret, Limb{Val: out[len(out)-1], Size: remSize})
+		ret = append(ret, Limb{Val: wa.api.FromBinary(bits[:remSize]...), Size: remSize})
 	}
-	wa.api.AssertIsEqual(acc, l.Val)
 	return ret
 }
 
@@ -126,14 +116,17 @@ func (wa *API) Merge(ws Limbs) Limb {
 // Resplit resplits limbs into new limb sizes
 func (wa *API) Resplit(ws Limbs, newLimbSize int) Limbs {
 	if len(ws) == 1 {
-		return ws
+		if newLimbSize >= ws[0].Size {
+			return ws
+		}
+		return wa.Split(ws[0], newLimbSize)
 	}
 	totalSize := ws.TotalSize()
 	f := wa.api.Compiler().FieldBitLen()
-	if totalSize <= f {
+	if totalSize < f {
 		return wa.Split(wa.Merge(ws), newLimbSize)
 	}
-	// if the total limb size is greater than the field size, we cannot merge all the limbs together then
+	// if the total limb size is not below the field size, we cannot merge all the limbs together then
 	// split. in this case, we split all limbs into 1-bit limbs then merge them to `newLimbSize` limbs
 	var bits Limbs
 	for _, w := range ws {
@@ -141,7 +134,11 @@ func (wa *API) Resplit(ws Limbs, newLimbSize int) Limbs {
 	}
 	var ret Limbs
 	for i := 0; i < totalSize; i += newLimbSize {
-		ret = append(ret, wa.Merge(bits[i:i+newLimbSize]))
+		end := i + newLimbSize
+		if end > totalSize {
+			end = totalSize
+		}
+		ret = append(ret, wa.Merge(bits[i:end]))
 	}
 	return ret
 }
-- 
2.43.0


From b7946fadd371605a882d7836eeb61b06d5c69b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:30 +0000
Subject: [PATCH 11/36] fix: emulated MiMC hashed already summed data again

---
 circuits/gadgets/emulated/mimc/mimc.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/circuits/gadgets/emulated/mimc/mimc.go b/circuits/gadgets/emulated/mimc/mimc.go
index 470222c..6be4f5a 100644
--- a/circuits/gadgets/emulated/mimc/mimc.go
+++ b/circuits/gadgets/emulated/mimc/mimc.go
@@ -82,5 +82,6 @@ func (h *MiMC[Base]) Sum() *emulated.Element[Base] {
 		temp := h.fp.Add(h.h, r)
 		h.h = h.fp.Add(temp, stream)
 	}
+	h.data = nil // flush the data already hashed
 	return h.fp.Reduce(h.h)
 }
-- 
2.43.0


From 778442dea3b61ecc4e92bdad0d9ef5d66920ebdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:51 +0000
Subject: [PATCH 12/36] fix: BLS12-381 gadgets overwrote the operands of
 pending multiplication checks

---
 .../gadgets/pairing_bls12381/hash2curve.go    |  9 +++-----
 circuits/gadgets/pairing_bls12381/tower.go    | 22 +++++++++++++++++++
 2 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/circuits/gadgets/pairing_bls12381/hash2curve.go b/circuits/gadgets/pairing_bls12381/hash2curve.go
index aec5ad2..3eca072 100644
--- a/circuits/gadgets/pairing_bls12381/hash2curve.go
+++ b/circuits/gadgets/pairing_bls12381/hash2curve.go
@@ -524,8 +524,7 @@ func G1NotZero(api frontend.API, x baseEl) frontend.Variable {
 	if err != nil {
 		log.Fatal(err)
 	}
-	x = *ba.Reduce(&x)
-	bs := ba.ToBits(&x)
+	bs := ba.ToBits(ba.Reduce(&x))
 	var isNotZero frontend.Variable
 	isNotZero = 0
 	for _, b := range bs {
@@ -547,10 +546,8 @@ func G1NotEqual(api frontend.API, x, y baseEl) frontend.Variable {
 	if err != nil {
 		log.Fatal(err)
 	}
-	x = *ba.Reduce(&x)
-	y = *ba.Reduce(&y)
-	xBits := ba.ToBits(&x)
-	yBits := ba.ToBits(&y)
+	xBits := ba.ToBits(ba.Reduce(&x))
+	yBits := ba.ToBits(ba.Reduce(&y))
 
 	var notEqual frontend.Variable
 	notEqual = 0
diff --git a/circuits/gadgets/pairing_bls12381/tower.go b/circuits/gadgets/pairing_bls12381/tower.go
index 8dd6802..aef530c 100644
--- a/circuits/gadgets/pairing_bls12381/tower.go
+++ b/circuits/gadgets/pairing_bls12381/tower.go
@@ -80,8 +80,17 @@ func NewExt12(baseField *curveF) *ext12 {
 	return &ext12{ext6: NewExt6(baseField)}
 }
 
+// own returns a copy of x. The field keeps pointers to the operands of the
+// multiplications (and of the reductions any operation may need) it still has to
+// check, so they must not be values which the caller is free to overwrite.
+func own(x *E2) *E2 {
+	return &E2{A0: x.A0, A1: x.A1}
+}
+
 // TODO: check where to use Mod and where ModMul.
 func (e ext2) MulByElement(x *E2, y *baseEl) *E2 {
+	yCopy := *y
+	x, y = own(x), &yCopy
 	// var yCopy fp.Element
 	// yCopy.Set(y)
 	z0 := e.fp.MulMod(&x.A0, y) // z.A0.Mul(&x.A0, &yCopy)
@@ -93,6 +102,7 @@ func (e ext2) MulByElement(x *E2, y *baseEl) *E2 {
 }
 
 func (e ext2) Conjugate(x *E2) *E2 {
+	x = own(x)
 	z0 := x.A0            // z.A0 = x.A0
 	z1 := e.fp.Neg(&x.A1) // z.A1.Neg(&x.A1)
 	return &E2{           // return z
@@ -129,6 +139,7 @@ func (e ext2) MulByNonResidue(x *E2) *E2 {
 }
 
 func (e ext2) MulByNonResidueInv(x *E2) *E2 {
+	x = own(x)
 	z0 := e.fp.Add(&x.A0, &x.A1)
 	z1 := e.fp.Sub(&x.A1, &x.A0)
 	return e.mulByNonResidue(&E2{
@@ -182,6 +193,7 @@ func (e ext2) MulByNonResidue2Power5(x *E2) *E2 {
 }
 
 func (e ext2) Mul(x, y *E2) *E2 {
+	x, y = own(x), own(y)
 	// var a, b, c fp.Element
 	a := e.fp.Add(&x.A0, &x.A1)    // a.Add(&x.A0, &x.A1)
 	b := e.fp.Add(&y.A0, &y.A1)    // b.Add(&y.A0, &y.A1)
@@ -198,6 +210,7 @@ func (e ext2) Mul(x, y *E2) *E2 {
 }
 
 func (e ext2) Add(x, y *E2) *E2 {
+	x, y = own(x), own(y)
 	z0 := e.fp.Add(&x.A0, &y.A0) // z.A0.Add(&x.A0, &y.A0)
 	z1 := e.fp.Add(&x.A1, &y.A1) // z.A1.Add(&x.A1, &y.A1)
 	return &E2{
@@ -207,6 +220,7 @@ func (e ext2) Add(x, y *E2) *E2 {
 }
 
 func (e ext2) Select(selector frontend.Variable, x, y *E2) *E2 {
+	x, y = own(x), own(y)
 	z0 := e.fp.Select(selector, &x.A0, &y.A0) // z.A0.Add(&x.A0, &y.A0)
 	z1 := e.fp.Select(selector, &x.A1, &y.A1) // z.A1.Add(&x.A1, &y.A1)
 	return &E2{
@@ -216,6 +230,7 @@ func (e ext2) Select(selector frontend.Variable, x, y *E2) *E2 {
 }
 
 func (e ext2) Sub(x, y *E2) *E2 {
+	x, y = own(x), own(y)
 	z0 := e.fp.Sub(&x.A0, &y.A0) // z.A0.Sub(&x.A0, &y.A0)
 	z1 := e.fp.Sub(&x.A1, &y.A1) // z.A1.Sub(&x.A1, &y.A1)
 	return &E2{
@@ -225,6 +240,7 @@ func (e ext2) Sub(x, y *E2) *E2 {
 }
 
 func (e ext2) Neg(x *E2) *E2 {
+	x = own(x)
 	z0 := e.fp.Neg(&x.A0) // z.A0.Neg(&x.A0)
 	z1 := e.fp.Neg(&x.A1) // z.A1.Neg(&x.A1)
 	return &E2{
@@ -252,6 +268,7 @@ func (e ext2) Zero() *E2 {
 }
 
 func (e ext2) Square(x *E2) *E2 {
+	x = own(x)
 	// var a, b fp.Element
 	a := e.fp.Add(&x.A0, &x.A1)         // a.Add(&x.A0, &x.A1)
 	b := e.fp.Sub(&x.A0, &x.A1)         // b.Sub(&x.A0, &x.A1)
@@ -276,6 +293,7 @@ func (e ext2) Div(x *E2, y *E2) *E2 {
 }
 
 func (e ext2) Double(x *E2) *E2 {
+	x = own(x)
 	two := big.NewInt(2)
 	z0 := e.fp.MulConst(&x.A0, two) // z.A0.Double(&x.A0)
 	z1 := e.fp.MulConst(&x.A1, two) // z.A1.Double(&x.A1)
@@ -286,6 +304,7 @@ func (e ext2) Double(x *E2) *E2 {
 }
 
 func (e ext2) Halve(x *E2) *E2 {
+	x = own(x)
 	// I'm trying to avoid hard-coding modulus here in case want to make generic
 	// for different curves.
 	// TODO: if implemented Half in field emulation, then replace with it.
@@ -301,6 +320,7 @@ func (e ext2) Halve(x *E2) *E2 {
 
 func (e ext2) MulBybTwistCurveCoeff(x *E2) *E2 {
 
+	x = own(x)
 	//var res E2
 	a0 := e.fp.Sub(&x.A0, &x.A1) //	res.A0.Sub(&x.A0, &x.A1)
 	a1 := e.fp.Add(&x.A0, &x.A1) //	res.A1.Add(&x.A0, &x.A1)
@@ -315,6 +335,7 @@ func (e ext2) MulBybTwistCurveCoeff(x *E2) *E2 {
 }
 
 func (e ext2) Inverse(x *E2) *E2 {
+	x = own(x)
 	// var t0, t1 fp.Element
 	t0 := e.fp.MulMod(&x.A0, &x.A0) // t0.Square(&x.A0)
 	t1 := e.fp.MulMod(&x.A1, &x.A1) // t1.Square(&x.A1)
@@ -330,6 +351,7 @@ func (e ext2) Inverse(x *E2) *E2 {
 }
 
 func (e ext2) AssertIsEqual(x, y *E2) {
+	x, y = own(x), own(y)
 	e.fp.AssertIsEqual(&x.A0, &y.A0)
 	e.fp.AssertIsEqual(&x.A1, &y.A1)
 }
-- 
2.43.0


From 99f7df3569b9753923b9d52af12429c78ef3e717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:51 +0000
Subject: [PATCH 13/36] fix: FrobeniusCube raised to p instead of p^3

---
 circuits/gadgets/pairing_bls12381/tower.go | 25 +---------------------
 1 file changed, 1 insertion(+), 24 deletions(-)

diff --git a/circuits/gadgets/pairing_bls12381/tower.go b/circuits/gadgets/pairing_bls12381/tower.go
index aef530c..f2f7c7d 100644
--- a/circuits/gadgets/pairing_bls12381/tower.go
+++ b/circuits/gadgets/pairing_bls12381/tower.go
@@ -709,30 +709,7 @@ func (e ext12) FrobeniusSquare(x *E12) *E12 {
 }
 
 func (e ext12) FrobeniusCube(x *E12) *E12 {
-	// var t [6]E2
-	t0 := e.ext2.Conjugate(&x.C0.B0)       // t[0].Conjugate(&x.C0.B0)
-	t1 := e.ext2.Conjugate(&x.C0.B1)       // t[1].Conjugate(&x.C0.B1)
-	t2 := e.ext2.Conjugate(&x.C0.B2)       // t[2].Conjugate(&x.C0.B2)
-	t3 := e.ext2.Conjugate(&x.C1.B0)       // t[3].Conjugate(&x.C1.B0)
-	t4 := e.ext2.Conjugate(&x.C1.B1)       // t[4].Conjugate(&x.C1.B1)
-	t5 := e.ext2.Conjugate(&x.C1.B2)       // t[5].Conjugate(&x.C1.B2)
-	t1 = e.ext2.MulByNonResidue1Power2(t1) // t[1].MulByNonResidue3Power2(&t[1])
-	t2 = e.ext2.MulByNonResidue1Power4(t2) // t[2].MulByNonResidue3Power4(&t[2])
-	t3 = e.ext2.MulByNonResidue1Power1(t3) // t[3].MulByNonResidue3Power1(&t[3])
-	t4 = e.ext2.MulByNonResidue1Power3(t4) // t[4].MulByNonResidue3Power3(&t[4])
-	t5 = e.ext2.MulByNonResidue1Power5(t5) // t[5].MulByNonResidue3Power5(&t[5])
-	return &E12{                           // return z
-		C0: E6{
-			B0: *t0, // z.C0.B0 = t[0]
-			B1: *t1, // z.C0.B1 = t[1]
-			B2: *t2, // z.C0.B2 = t[2]
-		},
-		C1: E6{
-			B0: *t3, // z.C1.B0 = t[3]
-			B1: *t4, // z.C1.B1 = t[4]
-			B2: *t5, // z.C1.B2 = t[5]
-		},
-	}
+	return e.Frobenius(e.FrobeniusSquare(x))
 }
 
 func (e ext12) DecompressKarabina(x E12) *E12 {
-- 
2.43.0


From df1e4a3355b04b541ec6b045cd682cb9fac8a90e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:51 +0000
Subject: [PATCH 14/36] fix: E2Exp negated the caller's exponent

---
 circuits/gadgets/pairing_bls12381/hash2curve.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/circuits/gadgets/pairing_bls12381/hash2curve.go b/circuits/gadgets/pairing_bls12381/hash2curve.go
index 3eca072..ad53695 100644
--- a/circuits/gadgets/pairing_bls12381/hash2curve.go
+++ b/circuits/gadgets/pairing_bls12381/hash2curve.go
@@ -331,7 +331,7 @@ func E2Exp(api frontend.API, x E2, k *big.Int) *E2 {
 
 		// we negate k in a temp big.Int since
 		// Int.Bit(_) of k and -k is different
-		e.Neg(k)
+		e = new(big.Int).Neg(k)
 	}
 
 	b := e.Bytes()
-- 
2.43.0


From 7addac96647fe29ea9a677a18ce80af3b132f4af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:07 +0000
Subject: [PATCH 15/36] fix: zero and equality tests of BLS12-381 elements
 depended on the representative

---
 circuits/gadgets/pairing_bls12381/hash2curve.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/circuits/gadgets/pairing_bls12381/hash2curve.go b/circuits/gadgets/pairing_bls12381/hash2curve.go
index ad53695..f6e7042 100644
--- a/circuits/gadgets/pairing_bls12381/hash2curve.go
+++ b/circuits/gadgets/pairing_bls12381/hash2curve.go
@@ -519,12 +519,20 @@ func E2NotZero(api frontend.API, x E2) frontend.Variable {
 	return api.Or(a0NotZero, a1NotZero)
 }
 
+// canonicalBits returns the bits of x reduced below the modulus. Reduce alone
+// leaves the prover the choice between the residue and its other representatives.
+func canonicalBits(ba *curveF, x *baseEl) []frontend.Variable {
+	x = ba.Reduce(x)
+	ba.AssertIsInRange(x)
+	return ba.ToBits(x)
+}
+
 func G1NotZero(api frontend.API, x baseEl) frontend.Variable {
 	ba, err := emulated.NewField[BLS12381Fp](api)
 	if err != nil {
 		log.Fatal(err)
 	}
-	bs := ba.ToBits(ba.Reduce(&x))
+	bs := canonicalBits(ba, &x)
 	var isNotZero frontend.Variable
 	isNotZero = 0
 	for _, b := range bs {
@@ -546,8 +554,8 @@ func G1NotEqual(api frontend.API, x, y baseEl) frontend.Variable {
 	if err != nil {
 		log.Fatal(err)
 	}
-	xBits := ba.ToBits(ba.Reduce(&x))
-	yBits := ba.ToBits(ba.Reduce(&y))
+	xBits := canonicalBits(ba, &x)
+	yBits := canonicalBits(ba, &y)
 
 	var notEqual frontend.Variable
 	notEqual = 0
-- 
2.43.0


From 6a9fac22e71840388ef4e1576e6f1f85790162eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:08 +0000
Subject: [PATCH 16/36] fix: sgn0 of E2 elements with a zero first coordinate
 and of unreduced elements

---
 .../gadgets/pairing_bls12381/hash2curve.go    | 36 +++++--------------
 1 file changed, 8 insertions(+), 28 deletions(-)

diff --git a/circuits/gadgets/pairing_bls12381/hash2curve.go b/circuits/gadgets/pairing_bls12381/hash2curve.go
index f6e7042..65f74b1 100644
--- a/circuits/gadgets/pairing_bls12381/hash2curve.go
+++ b/circuits/gadgets/pairing_bls12381/hash2curve.go
@@ -211,35 +211,15 @@ func g2Sgn0(api frontend.API, u *E2) frontend.Variable {
 		log.Fatal(err)
 	}
 
-	uu := E2{
-		A0: *ba.Reduce(&u.A0),
-		A1: *ba.Reduce(&u.A1),
-	}
-	var A0Bits [6][]frontend.Variable
-	A0Bits[0] = bits.ToBinary(api, uu.A0.Limbs[0], bits.WithNbDigits(64))
-	A0Bits[1] = bits.ToBinary(api, uu.A0.Limbs[1], bits.WithNbDigits(64))
-	A0Bits[2] = bits.ToBinary(api, uu.A0.Limbs[2], bits.WithNbDigits(64))
-	A0Bits[3] = bits.ToBinary(api, uu.A0.Limbs[3], bits.WithNbDigits(64))
-	A0Bits[4] = bits.ToBinary(api, uu.A0.Limbs[4], bits.WithNbDigits(64))
-	A0Bits[5] = bits.ToBinary(api, uu.A0.Limbs[5], bits.WithNbDigits(64))
-
-	var sign, zero, signI, zeroI frontend.Variable
-	sign = 0
-	zero = 1
-	signI = A0Bits[0][0]
-
-	zeroI = 0
-	for _, subBits := range A0Bits {
-		for _, b := range subBits {
-			zeroI = api.Or(signI, b)
-		}
-	}
+	A0Bits := canonicalBits(ba, &u.A0)
+	A1Bits := canonicalBits(ba, &u.A1)
 
-	sign = api.Or(sign, api.And(zero, signI))
-	zero = api.And(zero, zeroI)
-	signI = bits.ToBinary(api, uu.A1.Limbs[0], bits.WithNbDigits(64))[0]
-	sign = api.Or(sign, api.And(zero, signI))
-	return sign
+	// sgn0(u) = sgn0(A0) || (A0 == 0 && sgn0(A1))
+	var a0NotZero frontend.Variable = 0
+	for _, b := range A0Bits {
+		a0NotZero = api.Or(a0NotZero, b)
+	}
+	return api.Select(a0NotZero, A0Bits[0], A1Bits[0])
 }
 
 func g2SqrtRatio(api frontend.API, u *E2, v *E2) (z *E2, isQNr frontend.Variable) {
-- 
2.43.0


From 03891ab0c5c175ed806c031f2357dd4806870cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:48 +0000
Subject: [PATCH 17/36] fix: Karabina decompression could not handle one nor g3
 = 0

---
 circuits/gadgets/pairing_bls12381/tower.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/circuits/gadgets/pairing_bls12381/tower.go b/circuits/gadgets/pairing_bls12381/tower.go
index f2f7c7d..3ae83da 100644
--- a/circuits/gadgets/pairing_bls12381/tower.go
+++ b/circuits/gadgets/pairing_bls12381/tower.go
@@ -267,6 +267,13 @@ func (e ext2) Zero() *E2 {
 	}
 }
 
+// isZero returns 1 if x is zero and 0 otherwise. The norm of x is zero only for
+// x = 0, as -1 is not a square in the base field.
+func (e ext2) isZero(x *E2) frontend.Variable {
+	x = own(x)
+	return e.fp.IsZero(e.fp.Add(e.fp.MulMod(&x.A0, &x.A0), e.fp.MulMod(&x.A1, &x.A1)))
+}
+
 func (e ext2) Square(x *E2) *E2 {
 	x = own(x)
 	// var a, b fp.Element
@@ -715,8 +722,12 @@ func (e ext12) FrobeniusCube(x *E12) *E12 {
 func (e ext12) DecompressKarabina(x E12) *E12 {
 
 	one := e.ext2.One()
+	zero := e.ext2.Zero()
 
-	// TODO: add iszero handle
+	// g4 = (E * g5^2 + 3 * g1^2 - 2 * g2)/4g3, or 2g1g5/g2 if g3 = 0. If g2 = 0
+	// as well, then x = 1 and g4 = 0.
+	g3IsZero := e.ext2.isZero(&x.C1.B0)
+	g2IsZero := e.ext2.isZero(&x.C0.B2)
 
 	t0 := e.ext2.Square(&x.C0.B1) //t0[i].Square(&x[i].C0.B1)
 	// t1 = 3 * g1^2 - 2 * g2
@@ -731,6 +742,12 @@ func (e ext12) DecompressKarabina(x E12) *E12 {
 	t1 = e.ext2.Double(&x.C1.B0) //			t1[i].Double(&x[i].C1.B0).
 	t1 = e.ext2.Double(t1)       //				Double(&t1[i])
 
+	num := e.ext2.Double(e.ext2.Mul(&x.C0.B1, &x.C1.B2))
+	num = e.ext2.Select(g2IsZero, zero, num)
+	den := e.ext2.Select(g2IsZero, one, &x.C0.B2)
+	t0 = e.ext2.Select(g3IsZero, num, t0)
+	t1 = e.ext2.Select(g3IsZero, den, t1)
+
 	// z4 = g4
 	zc11 := e.ext2.Div(t0, t1) //	z.C1.B1.Div(&t[0], &t[1]) // costly
 
-- 
2.43.0


From fe8ce054438abae566238d5d88208043d1bc21cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:49 +0000
Subject: [PATCH 18/36] fix: the Jacobian point at infinity could not be made
 affine

---
 circuits/gadgets/pairing_bls12381/hash2curve.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/circuits/gadgets/pairing_bls12381/hash2curve.go b/circuits/gadgets/pairing_bls12381/hash2curve.go
index 65f74b1..9764209 100644
--- a/circuits/gadgets/pairing_bls12381/hash2curve.go
+++ b/circuits/gadgets/pairing_bls12381/hash2curve.go
@@ -590,13 +590,13 @@ func GetG2AffineFromG2Jac(api frontend.API, Q *G2Jacobian) *G2Affine {
 		X: *et2.Zero(),
 		Y: *et2.Zero(),
 	}
-	a := et2.Inverse(&Q.Z)
+	jacZNotZero := E2NotZero(api, Q.Z)
+	a := et2.Inverse(et2.Select(jacZNotZero, &Q.Z, et2.One()))
 	b := et2.Square(a)
 	res2 := &G2Affine{}
 	res2.X = *et2.Mul(&Q.X, b)
 	res2.Y = *et2.Mul(&Q.Y, b)
 	res2.Y = *et2.Mul(&res2.Y, a)
-	jacZNotZero := E2NotZero(api, Q.Z)
 
 	final := &G2Affine{}
 	final.X = *et2.Select(jacZNotZero, &res2.X, &res1.X)
-- 
2.43.0


From 14272d44b0db5db641a6b5fe18029354c3959950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:32 +0000
Subject: [PATCH 19/36] fix: the map to the curve refused the exceptional field
 elements

---
 circuits/gadgets/pairing_bls12381/hash2curve.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/circuits/gadgets/pairing_bls12381/hash2curve.go b/circuits/gadgets/pairing_bls12381/hash2curve.go
index 9764209..c279279 100644
--- a/circuits/gadgets/pairing_bls12381/hash2curve.go
+++ b/circuits/gadgets/pairing_bls12381/hash2curve.go
@@ -172,8 +172,8 @@ func MapElementToCurve2(api frontend.API, e2 E2) (x, y *E2) {
 	tv3 := et2.Add(tv2, et2.One())          // 5.  tv3 = tv2 + 1
 	tv3 = et2.Mul(tv3, &SswuIsoCurveCoeffB) // 6.  tv3 = B * tv3
 
-	tv2 = et2.Neg(tv2)
-	tv4 := et2.Mul(tv2, &SswuIsoCurveCoeffA)
+	tv2 = et2.Select(E2NotZero(api, *tv2), et2.Neg(tv2), &Tv4Z) // 7.  tv4 = CMOV(Z, -tv2, tv2 != 0)
+	tv4 := et2.Mul(tv2, &SswuIsoCurveCoeffA)                    // 8.  tv4 = A * tv4
 
 	tv2 = et2.Square(tv3) // 9.  tv2 = tv3²
 
-- 
2.43.0


From f5ac29a0ac1abd25de4e98e2a1d8272a5f5ad826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:11 +0000
Subject: [PATCH 20/36] fix: the Ed25519 challenge was reduced from more limbs
 than a multiplication takes, so no signature verified

---
 circuits/gadgets/ed25519/ed25519.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/circuits/gadgets/ed25519/ed25519.go b/circuits/gadgets/ed25519/ed25519.go
index 10291b4..07e9090 100644
--- a/circuits/gadgets/ed25519/ed25519.go
+++ b/circuits/gadgets/ed25519/ed25519.go
@@ -150,7 +150,7 @@ func (e *Ed25519) Verify(
 	}
 
 	hRamScalar := e.fp.scalarField.FromBitsOverflow(bits...)
-	hRamScalar = e.fp.scalarField.Reduce(hRamScalar)
+	hRamScalar = e.fp.scalarField.ReduceWithoutConstantCheck(hRamScalar)
 
 	baseX := emulated.ValueOf[Ed25519Fp](curve.Params().Base[0])
 	baseY := emulated.ValueOf[Ed25519Fp](curve.Params().Base[1])
-- 
2.43.0


From 39ac7e60b705c328c4682c2cfadc3b20ee3e91c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:11 +0000
Subject: [PATCH 21/36] fix: Ed25519 verification accepted points off the
 curve, so that R = (0,0) forged any signature

---
 circuits/gadgets/ed25519/ed25519.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/circuits/gadgets/ed25519/ed25519.go b/circuits/gadgets/ed25519/ed25519.go
index 07e9090..4820f08 100644
--- a/circuits/gadgets/ed25519/ed25519.go
+++ b/circuits/gadgets/ed25519/ed25519.go
@@ -130,6 +130,10 @@ func (e *Ed25519) Verify(
 		panic("new twistededwards curve failed")
 	}
 
+	// the group law only holds, and divisions are only determined, on the curve
+	curve.AssertIsOnCurve(sig.R)
+	curve.AssertIsOnCurve(pubKey.A)
+
 	hash := sha512.New(e.api)
 	sigBytes := e.bytes(&sig.R)
 	pubKeyBytes := e.bytes(&pubKey.A)
-- 
2.43.0


From 78ab0905ca53264be07a851e62fad8b0036eedb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:01 +0000
Subject: [PATCH 22/36] fix: GenerateBls12377Hash left out every chunk above
 the BLS12-377 scalar modulus, since the hash refuses them

---
 common/utils/utils.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/utils/utils.go b/common/utils/utils.go
index 32a162b..05c6885 100644
--- a/common/utils/utils.go
+++ b/common/utils/utils.go
@@ -181,9 +181,9 @@ func GenerateBls12377Hash(input []byte) []byte {
 	var i int
 	for i < len(bits) {
 		if i+bitSize > len(bits) {
-			frDataArray = append(frDataArray, BitsToFrBigInt(bits[i:], ecc.BN254.ScalarField()))
+			frDataArray = append(frDataArray, BitsToFrBigInt(bits[i:], ecc.BLS12_377.ScalarField()))
 		} else {
-			frDataArray = append(frDataArray, BitsToFrBigInt(bits[i:i+bitSize], ecc.BN254.ScalarField()))
+			frDataArray = append(frDataArray, BitsToFrBigInt(bits[i:i+bitSize], ecc.BLS12_377.ScalarField()))
 		}
 		i += bitSize
 	}
-- 
2.43.0


From 80d4058f03eda0f4bcd7690f19e79aa54716422f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:01 +0000
Subject: [PATCH 23/36] fix: BitsToFrBigInt did not reduce the modulus itself

---
 common/utils/binary.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/utils/binary.go b/common/utils/binary.go
index ba021f6..0b6ee43 100644
--- a/common/utils/binary.go
+++ b/common/utils/binary.go
@@ -59,7 +59,7 @@ func BitsToFrBigInt(b []uint, frModulus *big.Int) *big.Int {
 			var decimal = big.NewInt(1)
 			decimal.Lsh(decimal, uint(lens-i-1))
 			res.Add(res, decimal)
-			if res.Cmp(frModulus) > 0 {
+			if res.Cmp(frModulus) >= 0 {
 				res.Mod(res, frModulus)
 			}
 		}
-- 
2.43.0


From e2bfb9bb9912abcf34618aaa0e1461339bb227ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:01 +0000
Subject: [PATCH 24/36] fix: Str2Uint64 gave 2^63-1 for every larger number

---
 common/utils/string.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/common/utils/string.go b/common/utils/string.go
index 8fd7855..9f800cb 100644
--- a/common/utils/string.go
+++ b/common/utils/string.go
@@ -17,5 +17,6 @@ func Str2Int(str string) int {
 }
 
 func Str2Uint64(str string) uint64 {
-	return uint64(Str2Int(str))
+	ret, _ := strconv.ParseUint(str, 10, 64)
+	return ret
 }
-- 
2.43.0


From d44e7af62c47c03251de93550cb55a0fb4ac9d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:50 +0000
Subject: [PATCH 25/36] fix: the contract codec handed out its own selector
 bytes, so that callers' appends and writes changed each other's calldata

---
 common/utils/contract_codec.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/common/utils/contract_codec.go b/common/utils/contract_codec.go
index 90dc59c..6a2aeb0 100644
--- a/common/utils/contract_codec.go
+++ b/common/utils/contract_codec.go
@@ -1,6 +1,7 @@
 package utils
 
 import (
+	"bytes"
 	"fmt"
 	"github.com/celer-network/goutils/log"
 	"github.com/ethereum/go-ethereum/accounts/abi"
@@ -25,7 +26,7 @@ func (c *ContractCodec) ABI() *abi.ABI {
 }
 
 func (c *ContractCodec) Selector(methodName string) []byte {
-	return c.abi.Methods[methodName].ID
+	return bytes.Clone(c.abi.Methods[methodName].ID)
 }
 
 func (c *ContractCodec) EncodeCalldata(methodName string, args ...interface{}) ([]byte, error) {
@@ -37,7 +38,8 @@ func (c *ContractCodec) EncodeCalldata(methodName string, args ...interface{}) (
 	if err != nil {
 		return nil, err
 	}
-	return append(method.ID, inputs...), nil
+	// the ID is a part of a larger array and shared by all callers: never append to it
+	return append(bytes.Clone(method.ID), inputs...), nil
 }
 
 func (c *ContractCodec) DecodeCalldata(methodName string, data []byte, ptrs ...interface{}) error {
-- 
2.43.0


From 2a29c52b9ffadb4d51ec071468a4f92be332ffcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:37 +0000
Subject: [PATCH 26/36] fix: EncodeHeaders panicked on headers without a base
 fee

---
 circuits/fabric/smt/utils.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/circuits/fabric/smt/utils.go b/circuits/fabric/smt/utils.go
index ce88e17..a77eb52 100644
--- a/circuits/fabric/smt/utils.go
+++ b/circuits/fabric/smt/utils.go
@@ -64,7 +64,9 @@ func checkDynamicFieldLen(h types.Header) bool {
 	hasErr += checkLen("GasLimit", getUintByteLen(h.GasLimit), 4)
 	hasErr += checkLen("GasUsed", getUintByteLen(h.GasUsed), 4)
 	hasErr += checkLen("Time", getUintByteLen(h.Time), 4)
-	hasErr += checkLen("BaseFee", len(h.BaseFee.Bytes()), 7)
+	if h.BaseFee != nil { // nil before London
+		hasErr += checkLen("BaseFee", len(h.BaseFee.Bytes()), 7)
+	}
 	return hasErr == 0
 }
 
-- 
2.43.0


From aedb318cfc9aa0ad3a0332094ee406ec7521fb62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:30 +0000
Subject: [PATCH 27/36] fix: the signer of a legacy transaction signed before
 EIP-155 could not be recovered

---
 common/proof/util.go | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/common/proof/util.go b/common/proof/util.go
index 29f7146..0e450db 100644
--- a/common/proof/util.go
+++ b/common/proof/util.go
@@ -25,7 +25,17 @@ type unsignedTransactionData struct {
 }
 
 func PrepareUnsignedTransactionRlp(transaction *ethtypes.Transaction) ([]byte, error) {
-	if transaction.Type() == types.LegacyTxType {
+	if transaction.Type() == types.LegacyTxType && !transaction.Protected() {
+		// signed before EIP-155: the chain id is not part of the signed data
+		return rlp.EncodeToBytes(&unprotectedLegacyTransactionData{
+			Nonce:    transaction.Nonce(),
+			GasPrice: transaction.GasPrice(),
+			Gas:      transaction.Gas(),
+			To:       transaction.To(),
+			Value:    transaction.Value(),
+			Data:     transaction.Data(),
+		})
+	} else if transaction.Type() == types.LegacyTxType {
 		unsignedTransaction := &unsignedLegacyTransactionData{
 			Nonce:    transaction.Nonce(),
 			GasPrice: transaction.GasPrice(),
@@ -70,6 +80,15 @@ type unsignedLegacyTransactionData struct {
 	Pad2     *big.Int
 }
 
+type unprotectedLegacyTransactionData struct {
+	Nonce    uint64
+	GasPrice *big.Int
+	Gas      uint64
+	To       *common.Address `rlp:"nil"`
+	Value    *big.Int
+	Data     []byte
+}
+
 func RecoverTransactionSignerAddress(transaction *ethtypes.Transaction) ([]byte, error) {
 	unsignedTransactionRlp, err := PrepareUnsignedTransactionRlp(transaction)
 	if err != nil {
@@ -89,7 +108,9 @@ func RecoverTransactionSignerAddress(transaction *ethtypes.Transaction) ([]byte,
 	var sigBytes []byte
 	v, r, s := transaction.RawSignatureValues()
 
-	if transactionType == types.LegacyTxType {
+	if transactionType == types.LegacyTxType && !transaction.Protected() {
+		v = new(big.Int).SetUint64(v.Uint64() - 27)
+	} else if transactionType == types.LegacyTxType {
 		actualV := v.Uint64() - 35 - transaction.ChainId().Uint64()*2
 		v = new(big.Int).SetUint64(actualV)
 	}
-- 
2.43.0


From cf042d67505ad1a9f6c836f53777eace149e7d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:30 +0000
Subject: [PATCH 28/36] fix: transaction and receipt proofs of indexes outside
 the block panicked or proved another leaf's path

---
 common/proof/tx_merkel_proof.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/common/proof/tx_merkel_proof.go b/common/proof/tx_merkel_proof.go
index be7a453..f9218f5 100644
--- a/common/proof/tx_merkel_proof.go
+++ b/common/proof/tx_merkel_proof.go
@@ -28,6 +28,10 @@ func (p *ProofWriter) Delete(key []byte) error {
 }
 
 func GetTransactionProof(bk *types.Block, index int) (nodes [][]byte, keyIndex, leafRlpPrefix []byte, err error) {
+	if index < 0 || index >= len(bk.Transactions()) {
+		err = fmt.Errorf("no transaction %d in blk: %d", index, bk.NumberU64())
+		return
+	}
 	var indexBuf []byte
 	keyIndex = rlp.AppendUint64(indexBuf[:0], uint64(index))
 
@@ -61,6 +65,10 @@ func GetTransactionProof(bk *types.Block, index int) (nodes [][]byte, keyIndex,
 }
 
 func GetReceiptProof(bk *types.Block, receipts types.Receipts, index int) (nodes [][]byte, keyIndex, leafRlpPrefix []byte, err error) {
+	if index < 0 || index >= len(receipts) {
+		err = fmt.Errorf("no receipt %d in blk: %d", index, bk.NumberU64())
+		return
+	}
 	var indexBuf []byte
 	keyIndex = rlp.AppendUint64(indexBuf[:0], uint64(index))
 
-- 
2.43.0


From 95827e6f44440f762e34724d7b080d69d8e5c969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:23 +0000
Subject: [PATCH 29/36] fix: chunk proofs encoded block numbers of 2^63 and
 more as other numbers

---
 common/proof/types.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/proof/types.go b/common/proof/types.go
index 640f609..9bf473d 100644
--- a/common/proof/types.go
+++ b/common/proof/types.go
@@ -175,9 +175,9 @@ func (p *ChunkProof) EncodeABI() []byte {
 	args = append(args, prevHash[0:16], prevHash[16:])
 	endHash := utils.Hex2Hash(p.EndHash)
 	args = append(args, endHash[0:16], endHash[16:])
-	startBlockNum := big.NewInt(int64(p.StartBlockNum)).Bytes()
+	startBlockNum := new(big.Int).SetUint64(p.StartBlockNum).Bytes()
 	args = append(args, startBlockNum)
-	endBlockNum := big.NewInt(int64(p.EndBlockNum)).Bytes()
+	endBlockNum := new(big.Int).SetUint64(p.EndBlockNum).Bytes()
 	args = append(args, endBlockNum)
 
 	var ret []byte
-- 
2.43.0


From e337041c587c96426a955958b59a11b634a5fca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:04 +0000
Subject: [PATCH 30/36] fix: GetSlot and GetBlock panicked on answers without
 the expected data

---
 common/eth/client.go | 30 ++++++++++++++----------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/common/eth/client.go b/common/eth/client.go
index f7b7159..aa2af08 100644
--- a/common/eth/client.go
+++ b/common/eth/client.go
@@ -60,18 +60,18 @@ func (ec *Client) GetSlot(block uint64) (uint64, bool) {
 	resBody, _ := io.ReadAll(res.Body)
 	var jsonRes map[string]interface{}    // declaring a map for key names as string and values as interface
 	_ = json.Unmarshal(resBody, &jsonRes) // Unmarshalling
-	dataList := jsonRes["data"].([]interface{})
-	data := dataList[0].(map[string]interface{})
-	if data["posConsensus"] == nil {
+	dataList, _ := jsonRes["data"].([]interface{})
+	if len(dataList) == 0 {
 		return 0, false
 	}
-	posConsensus := data["posConsensus"].(map[string]interface{})
-	slot := uint64(0)
-	finilized := false
-
-	slot = uint64(posConsensus["slot"].(float64))
-	finilized = posConsensus["finalized"].(bool)
-	return slot, finilized
+	data, _ := dataList[0].(map[string]interface{})
+	posConsensus, _ := data["posConsensus"].(map[string]interface{})
+	slot, hasSlot := posConsensus["slot"].(float64)
+	finalized, hasFinalized := posConsensus["finalized"].(bool)
+	if !hasSlot || !hasFinalized {
+		return 0, false
+	}
+	return uint64(slot), finalized
 }
 
 func (ec *Client) GetBlock(slot uint64) uint64 {
@@ -103,12 +103,10 @@ func (ec *Client) GetBlock(slot uint64) uint64 {
 	resBody, _ := io.ReadAll(res.Body)
 	var jsonRes map[string]interface{}    // declaring a map for key names as string and values as interface
 	_ = json.Unmarshal(resBody, &jsonRes) // Unmarshalling
-	data := jsonRes["data"].(map[string]interface{})
-	if data == nil {
-		return 0
-	}
-	if data["exec_block_number"] == nil {
+	data, _ := jsonRes["data"].(map[string]interface{})
+	blockNumber, ok := data["exec_block_number"].(float64)
+	if !ok {
 		return 0
 	}
-	return uint64(data["exec_block_number"].(float64))
+	return uint64(blockNumber)
 }
-- 
2.43.0


From 1a2d3150ca2d7fb9581d8fbd8a5b12decdb5b897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:05 +0000
Subject: [PATCH 31/36] fix: ListObjects left out everything after the first
 page of 1000 objects

---
 common/s3api/client.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/common/s3api/client.go b/common/s3api/client.go
index ae6b386..f8fde5f 100644
--- a/common/s3api/client.go
+++ b/common/s3api/client.go
@@ -64,14 +64,18 @@ func NewClient(bucket string) (*Client, error) {
 }
 
 func (s *Client) ListObjects(prefix string) ([]*s3.Object, error) {
-	res, err := s.s3.ListObjects(&s3.ListObjectsInput{
+	var objects []*s3.Object
+	err := s.s3.ListObjectsPages(&s3.ListObjectsInput{
 		Bucket: aws.String(s.bucket),
 		Prefix: aws.String(prefix),
+	}, func(page *s3.ListObjectsOutput, _ bool) bool {
+		objects = append(objects, page.Contents...)
+		return true
 	})
 	if err != nil {
 		return nil, err
 	}
-	return res.Contents, nil
+	return objects, nil
 }
 
 func (s *Client) Upload(key string, body io.Reader) error {
-- 
2.43.0


From 782ebe6e3926cacc65d4f32289a6877653cb15e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:29 +0000
Subject: [PATCH 32/36] fix: the key, witness and constraint writers left their
 files open

---
 common/utils/pk-vk-utils.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/common/utils/pk-vk-utils.go b/common/utils/pk-vk-utils.go
index 9968f8e..16003d9 100644
--- a/common/utils/pk-vk-utils.go
+++ b/common/utils/pk-vk-utils.go
@@ -38,6 +38,8 @@ func WritePlonkProvingKey(filename string, pk plonk.ProvingKey) {
 	if err != nil {
 		log.Error("pk writing open failed... ", err)
 	}
+	defer f.Close()
+
 	_, err = pk.WriteTo(f)
 	if err != nil {
 		log.Error("pk writing failed... ", err)
@@ -60,6 +62,7 @@ func WritePlonkVerifyingKey(filename string, vk plonk.VerifyingKey) error {
 	if err != nil {
 		return err
 	}
+	defer f.Close()
 
 	_, err = vk.WriteTo(f)
 	if err != nil {
@@ -85,6 +88,7 @@ func WriteWitness(filename string, witness witness.Witness) error {
 		log.Error("witness writing failed... ", err)
 		return err
 	}
+	defer f.Close()
 
 	_, err = witness.WriteTo(f)
 	if err != nil {
@@ -110,6 +114,8 @@ func WritePlonkCcs(filename string, css constraint.ConstraintSystem) error {
 	if err != nil {
 		return err
 	}
+	defer f.Close()
+
 	_, err = css.WriteTo(f)
 	if err != nil {
 		return err
@@ -178,6 +184,8 @@ func WriteProvingKey(filename string, pk groth16.ProvingKey) error {
 	if err != nil {
 		return err
 	}
+	defer f.Close()
+
 	_, err = pk.WriteTo(f)
 	if err != nil {
 		return err
@@ -202,6 +210,7 @@ func WriteVerifyingKey(filename string, vk groth16.VerifyingKey) error {
 		log.Error("vk writing failed... ", err)
 		return err
 	}
+	defer f.Close()
 
 	_, err = vk.WriteTo(f)
 	if err != nil {
@@ -227,6 +236,8 @@ func WriteCcs(filename string, css constraint.ConstraintSystem) error {
 	if err != nil {
 		return err
 	}
+	defer f.Close()
+
 	_, err = css.WriteTo(f)
 	if err != nil {
 		return err
-- 
2.43.0


From 4953ca7383956954821869e5a0c1aab649d97cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:50 +0000
Subject: [PATCH 33/36] fix: RestoreMimcRoot took sides other than 0 and 1 in
 PLONK circuits

---
 circuits/gadgets/merkle/emulated_mimc_root.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/circuits/gadgets/merkle/emulated_mimc_root.go b/circuits/gadgets/merkle/emulated_mimc_root.go
index 2bf81fc..934395e 100644
--- a/circuits/gadgets/merkle/emulated_mimc_root.go
+++ b/circuits/gadgets/merkle/emulated_mimc_root.go
@@ -41,6 +41,7 @@ func (a *MimcRootAPI[T]) RestoreMimcRoot(
 		panic(err)
 	}
 	for i, node := range path {
+		a.api.AssertIsBoolean(leftRight[i])
 		hash0 := a.hasher.Hash(node, h)
 		hash1 := a.hasher.Hash(h, node)
 		h = f.Select(leftRight[i], hash0, hash1)
-- 
2.43.0


From 254b1ff0e9480ed558320f105ae6e07788ae5cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:27 +0000
Subject: [PATCH 34/36] fix: Ed25519 points have one encoding

A coordinate with two representatives (x = 0, y < 19) let a prover hash and declare a second encoding of R or A.
---
 circuits/gadgets/ed25519/ed25519.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/circuits/gadgets/ed25519/ed25519.go b/circuits/gadgets/ed25519/ed25519.go
index 4820f08..510a70a 100644
--- a/circuits/gadgets/ed25519/ed25519.go
+++ b/circuits/gadgets/ed25519/ed25519.go
@@ -57,6 +57,9 @@ func (e *Ed25519) bytes(v *Point) [32]frontend.Variable {
 }
 
 func (e *Ed25519) copyFieldElement(v *emulated.Element[Ed25519Fp]) [32]frontend.Variable {
+	// an encoding is unique only below the modulus
+	v = e.fp.baseField.Reduce(v)
+	e.fp.baseField.AssertIsInRange(v)
 	bits := e.fp.baseField.ToBits(v)
 
 	var buf [32]frontend.Variable
-- 
2.43.0


From 96a61fc3969bfcb5e821f8fcf515df910c24fbf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:27 +0000
Subject: [PATCH 35/36] fix: Pad101Bytes overwrote what follows its input in
 the caller's buffer

---
 circuits/gadgets/keccak/periphery.go | 2 +-
 common/circuits/keccak.go            | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/circuits/gadgets/keccak/periphery.go b/circuits/gadgets/keccak/periphery.go
index 8af2220..39e5be3 100644
--- a/circuits/gadgets/keccak/periphery.go
+++ b/circuits/gadgets/keccak/periphery.go
@@ -24,7 +24,7 @@ func Pad101Bytes(data []byte) []byte {
 	if len(data)%136 == 0 {
 		miss = 136
 	}
-	data = append(data, 1)
+	data = append(data[:len(data):len(data)], 1)
 	for i := 0; i < miss-1; i++ {
 		data = append(data, 0)
 	}
diff --git a/common/circuits/keccak.go b/common/circuits/keccak.go
index 5ebb751..2763b1f 100644
--- a/common/circuits/keccak.go
+++ b/common/circuits/keccak.go
@@ -9,7 +9,7 @@ func Pad101Bytes(data []byte) []byte {
 	if len(data)%136 == 0 {
 		miss = 136
 	}
-	data = append(data, 1)
+	data = append(data[:len(data):len(data)], 1)
 	for i := 0; i < miss-1; i++ {
 		data = append(data, 0)
 	}
-- 
2.43.0


From 7e5ebae8daa52b102e9ede403a722efc4685eb0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:28 +0000
Subject: [PATCH 36/36] fix: beacon lookups left the answer open when its
 status was not 200

---
 common/eth/client.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/eth/client.go b/common/eth/client.go
index aa2af08..ab074d2 100644
--- a/common/eth/client.go
+++ b/common/eth/client.go
@@ -52,11 +52,11 @@ func (ec *Client) GetSlot(block uint64) (uint64, bool) {
 		fmt.Println("Err is", err)
 		return 0, false
 	}
+	defer res.Body.Close()
 	if res.StatusCode != 200 {
 		log.Errorf("failed to curl slot by block: status code %d", res.StatusCode)
 		return 0, false
 	}
-	defer res.Body.Close()
 	resBody, _ := io.ReadAll(res.Body)
 	var jsonRes map[string]interface{}    // declaring a map for key names as string and values as interface
 	_ = json.Unmarshal(resBody, &jsonRes) // Unmarshalling
@@ -95,11 +95,11 @@ func (ec *Client) GetBlock(slot uint64) uint64 {
 		fmt.Println("Err is", err)
 		return 0
 	}
+	defer res.Body.Close()
 	if res.StatusCode != 200 {
 		log.Errorf("failed to curl block by slot: status code %d", res.StatusCode)
 		return 0
 	}
-	defer res.Body.Close()
 	resBody, _ := io.ReadAll(res.Body)
 	var jsonRes map[string]interface{}    // declaring a map for key names as string and values as interface
 	_ = json.Unmarshal(resBody, &jsonRes) // Unmarshalling
-- 
2.43.0

