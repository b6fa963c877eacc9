From c36e145e21370590888e0c612535de3e1601df6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:23 +0000
Subject: [PATCH 01/45] fix: limbs.Split must constrain every limb to its size,
 and full-width words to their canonical value

---
 circuits/gadgets/limbs/limbapi.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/circuits/gadgets/limbs/limbapi.go b/circuits/gadgets/limbs/limbapi.go
index 5dd8357..6559b87 100644
--- a/circuits/gadgets/limbs/limbapi.go
+++ b/circuits/gadgets/limbs/limbapi.go
@@ -84,15 +84,20 @@ func (wa *API) Split(l Limb, newLimbSize int, nbLimbsOpt ...int) Limbs {
 	if err != nil {
 		panic(fmt.Sprintf("hint failed to split merge output: %s", err.Error()))
 	}
+	// the sum below alone does not determine the limbs: each limb also has to be the value of its own bits in the
+	// (canonical) binary decomposition of the word
+	bits := wa.api.ToBinary(l.Val, l.Size)
 	var ret Limbs
 	var acc frontend.Variable = 0
 	nbZeros := l.Size
 	for i := 0; i < nbLimbs; i++ {
 		nbZeros -= newLimbSize
+		wa.api.AssertIsEqual(out[i], wa.api.FromBinary(bits[nbZeros:nbZeros+newLimbSize]...))
 		acc = wa.api.MulAcc(acc, out[i], exp2(nbZeros))
 		ret = append(ret, Limb{Val: out[i], Size: newLimbSize})
 	}
 	if remSize > 0 {
+		wa.api.AssertIsEqual(out[len(out)-1], wa.api.FromBinary(bits[:remSize]...))
 		acc = wa.api.Add(acc, out[len(out)-1])
 		ret = append(ret, Limb{Val: out[len(out)-1], Size: remSize})
 	}
@@ -130,7 +135,7 @@ func (wa *API) Resplit(ws Limbs, newLimbSize int) Limbs {
 	}
 	totalSize := ws.TotalSize()
 	f := wa.api.Compiler().FieldBitLen()
-	if totalSize <= f {
+	if totalSize < f {
 		return wa.Split(wa.Merge(ws), newLimbSize)
 	}
 	// if the total limb size is greater than the field size, we cannot merge all the limbs together then
-- 
2.43.0


From c34b5b62168b97f1240763396f010785d97618bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:28 +0000
Subject: [PATCH 02/45] fix: limbs.Resplit has to split a single wide limb and
 keep the remainder of a wide word

---
 circuits/gadgets/limbs/limbapi.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/circuits/gadgets/limbs/limbapi.go b/circuits/gadgets/limbs/limbapi.go
index 6559b87..9bb7d10 100644
--- a/circuits/gadgets/limbs/limbapi.go
+++ b/circuits/gadgets/limbs/limbapi.go
@@ -130,7 +130,7 @@ func (wa *API) Merge(ws Limbs) Limb {
 
 // Resplit resplits limbs into new limb sizes
 func (wa *API) Resplit(ws Limbs, newLimbSize int) Limbs {
-	if len(ws) == 1 {
+	if len(ws) == 1 && ws[0].Size <= newLimbSize {
 		return ws
 	}
 	totalSize := ws.TotalSize()
@@ -146,7 +146,11 @@ func (wa *API) Resplit(ws Limbs, newLimbSize int) Limbs {
 	}
 	var ret Limbs
 	for i := 0; i < totalSize; i += newLimbSize {
-		ret = append(ret, wa.Merge(bits[i:i+newLimbSize]))
+		end := i + newLimbSize
+		if end > totalSize {
+			end = totalSize
+		}
+		ret = append(ret, wa.Merge(bits[i:end]))
 	}
 	return ret
 }
-- 
2.43.0


From 66a986bb16b381cdf20c1d8529b3bd93823d9688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:20 +0000
Subject: [PATCH 03/45] fix: keccak padding of messages that lack exactly one
 byte of a round

---
 circuits/gadgets/keccak/pad.go       | 21 ++++++---------------
 circuits/gadgets/keccak/periphery.go | 14 +++++++++-----
 2 files changed, 15 insertions(+), 20 deletions(-)

diff --git a/circuits/gadgets/keccak/pad.go b/circuits/gadgets/keccak/pad.go
index 57156e8..fda5741 100644
--- a/circuits/gadgets/keccak/pad.go
+++ b/circuits/gadgets/keccak/pad.go
@@ -45,7 +45,7 @@ func Pad101Bits(
 		log.Fatalf("Invald input length for pad101. Input max length: %d, Input length: %d", inLenMax, len(in))
 	}
 
-	outBitsLen := ((inLenMax*inBits+8)/1088 + 1) * 1088
+	outBitsLen := (inLenMax*inBits/1088 + 1) * 1088
 	fmt.Println("pad: output bits length", outBitsLen)
 
 	checkLen("in", len(in), inBits)
@@ -75,24 +75,15 @@ func Pad101Bits(
 		}
 
 		actualLen := j
-		rounds := (actualLen+8)/1088 + 1
+		rounds := actualLen/1088 + 1
 
-		// insert the padding part
-		for ; j < actualLen+7; j++ {
-			padded[i][j] = 0
-		}
-		padded[i][j] = 1
-		j++
-		for ; j < rounds*1088-8; j++ {
-			padded[i][j] = 0
-		}
-		padded[i][j] = 1
-		j++
-
-		// populate the rest with dummy zeros
+		// the padding part, and the rest populated with dummy zeros
 		for ; j < outBitsLen; j++ {
 			padded[i][j] = 0
 		}
+		// both ends of the padding land in the same byte (0x81) if only one byte is missing in the last round
+		padded[i][actualLen+7] = 1
+		padded[i][rounds*1088-8] = 1
 	}
 	sel := api.Div(api.Sub(inLen, inLenMin), 8/inBits)
 	out := mux.Multiplex(api, sel, outBitsLen, rows, transpose(padded))
diff --git a/circuits/gadgets/keccak/periphery.go b/circuits/gadgets/keccak/periphery.go
index 65f53f5..7c97e92 100644
--- a/circuits/gadgets/keccak/periphery.go
+++ b/circuits/gadgets/keccak/periphery.go
@@ -37,7 +37,7 @@ func GetKeccakRoundForPaddedBytes(data []byte) int {
 }
 
 func GetRoundIndex(bitsLen int) int {
-	return (bitsLen + 8) / 1088
+	return bitsLen / 1088
 }
 
 func Bytes2BlockBits(bytes []byte) (bits []uint8) {
@@ -246,11 +246,15 @@ func PadBits101(api frontend.API, data []frontend.Variable, maxRound int) []fron
 	var missedLen = 1088 - len(data)%1088
 	var zeroBitLen = missedLen - 8*2
 
-	padBits = append(padBits, api.ToBinary(1, 8)...) // 1000, 0000
-	for i := 0; i < zeroBitLen; i++ {
-		padBits = append(padBits, 0) //00...0000
+	if missedLen == 8 {
+		padBits = append(padBits, api.ToBinary(129, 8)...) // 1000 0001
+	} else {
+		padBits = append(padBits, api.ToBinary(1, 8)...) // 1000, 0000
+		for i := 0; i < zeroBitLen; i++ {
+			padBits = append(padBits, 0) //00...0000
+		}
+		padBits = append(padBits, api.ToBinary(128, 8)...) // 0000 0001
 	}
-	padBits = append(padBits, api.ToBinary(128, 8)...) // 0000 0001
 
 	padZeroLen := maxRound*1088 - len(padBits)
 
-- 
2.43.0


From d2b08b8bfab2c3f63b1d5557709e6467ef2b159c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:46 +0000
Subject: [PATCH 04/45] fix: conv.Bits2Nibbles passed a slice as one variable
 and skipped every other nibble

---
 circuits/gadgets/conv/bits.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/circuits/gadgets/conv/bits.go b/circuits/gadgets/conv/bits.go
index 4e232ca..4f1cfe8 100644
--- a/circuits/gadgets/conv/bits.go
+++ b/circuits/gadgets/conv/bits.go
@@ -48,9 +48,9 @@ func Bits2Uint128s(api frontend.API, bits [256]frontend.Variable) [2]frontend.Va
 }
 
 func Bits2Nibbles(api frontend.API, bits []frontend.Variable) []frontend.Variable {
-	bytes := []frontend.Variable{}
-	for i := 0; i < len(bits); i += 8 {
-		bytes = append(bytes, api.FromBinary(bits[i:i+4]))
+	nibbles := []frontend.Variable{}
+	for i := 0; i < len(bits); i += 4 {
+		nibbles = append(nibbles, api.FromBinary(bits[i:i+4]...))
 	}
-	return bytes
+	return nibbles
 }
-- 
2.43.0


From da7cd4fb231fb5f1af78b2f1b44e883928f99e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:54 +0000
Subject: [PATCH 05/45] fix: flush hashed data in the emulated MiMC Sum

A second Sum, or Write and Sum, on the same hasher absorbed the data already
hashed once more, so its digest was not the one of the native hash.
---
 circuits/gadgets/emulated/mimc/mimc.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/circuits/gadgets/emulated/mimc/mimc.go b/circuits/gadgets/emulated/mimc/mimc.go
index 470222c..6be4f5a 100644
--- a/circuits/gadgets/emulated/mimc/mimc.go
+++ b/circuits/gadgets/emulated/mimc/mimc.go
@@ -82,5 +82,6 @@ func (h *MiMC[Base]) Sum() *emulated.Element[Base] {
 		temp := h.fp.Add(h.h, r)
 		h.h = h.fp.Add(temp, stream)
 	}
+	h.data = nil // flush the data already hashed
 	return h.fp.Reduce(h.h)
 }
-- 
2.43.0


From 2c6f4e70daf9e187cfe3639d59b0e820786f8df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:03 +0000
Subject: [PATCH 06/45] fix: RlpFieldPrefix counted an empty list as valid
 twice

The doubled count made RlpArrayCheck reject lists with an empty list in them and could
make up for an invalid item elsewhere.
---
 circuits/gadgets/rlp/rlp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/circuits/gadgets/rlp/rlp.go b/circuits/gadgets/rlp/rlp.go
index afa2884..307e206 100644
--- a/circuits/gadgets/rlp/rlp.go
+++ b/circuits/gadgets/rlp/rlp.go
@@ -265,7 +265,7 @@ func RlpFieldPrefix(api frontend.API, in [2]frontend.Variable) (frontend.Variabl
 	isValid = api.Sub(isValid, api.Mul(lt1, isEmptyList))
 
 	prefixOrTotalHexLen = api.Add(api.Mul(isValid, prefixOrTotalHexLen), api.Mul(isArray, arrayHexLen))
-	isValid = api.Add(isValid, isArray)
+	isValid = api.Add(isValid, api.Sub(isArray, isEmptyList))
 
 	isBig = api.Add(isBig, isArrayBig)
 
-- 
2.43.0


From cd7dc109538a589cb1d6b34a9166a588e56d8dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:03 +0000
Subject: [PATCH 07/45] fix: RlpNestArrayCheck counted an empty list one digit
 short

---
 circuits/gadgets/rlp/rlp.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/circuits/gadgets/rlp/rlp.go b/circuits/gadgets/rlp/rlp.go
index 307e206..87bee05 100644
--- a/circuits/gadgets/rlp/rlp.go
+++ b/circuits/gadgets/rlp/rlp.go
@@ -474,7 +474,7 @@ func (a *ArrayCheck) RlpNestArrayCheck(api frontend.API, in []frontend.Variable)
 			shiftToFieldIn = append(shiftToFieldIn, shiftToFieldRlpsOuts[idx][j])
 		}
 
-		fieldPrefixIsBig, fieldPrefixIsLiteral, fieldPrefixPrefixOrTotalHexLen, fieldPrefixIsValid, isArrayField, isEmptyList, isZero := RlpFieldPrefix(api, [2]frontend.Variable{shiftToFieldRlpsOuts[idx][0], shiftToFieldRlpsOuts[idx][1]})
+		fieldPrefixIsBig, fieldPrefixIsLiteral, fieldPrefixPrefixOrTotalHexLen, fieldPrefixIsValid, isArrayField, _, isZero := RlpFieldPrefix(api, [2]frontend.Variable{shiftToFieldRlpsOuts[idx][0], shiftToFieldRlpsOuts[idx][1]})
 
 		fieldRlpPrefix1HexLen := api.Mul(fieldPrefixIsBig, fieldPrefixPrefixOrTotalHexLen)
 
@@ -517,7 +517,6 @@ func (a *ArrayCheck) RlpNestArrayCheck(api frontend.API, in []frontend.Variable)
 
 		//  lenSum = lenSum + 2 - 2 * fieldPrefix[idx].isLiteral + fieldRlpPrefix1HexLen[idx] + fieldHexLen[idx];
 		lenSum = api.Sub(api.Add(lenSum, 2), api.Mul(2, fieldPrefixIsLiteral))
-		lenSum = api.Sub(lenSum, api.Mul(1, isEmptyList))
 		lenSum = api.Add(lenSum, fieldRlpPrefix1HexLen, fieldHexLen)
 
 		fieldHexLen = api.Add(fieldHexLen, keptArrayPrefixLen)
-- 
2.43.0


From 8ecba6b75a59824ff56d11978aa49a76547c2361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:03 +0000
Subject: [PATCH 08/45] fix: RlpNestArrayCheck gave the one-byte string 0x00
 length zero

---
 circuits/gadgets/rlp/rlp.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/circuits/gadgets/rlp/rlp.go b/circuits/gadgets/rlp/rlp.go
index 87bee05..dc9d32d 100644
--- a/circuits/gadgets/rlp/rlp.go
+++ b/circuits/gadgets/rlp/rlp.go
@@ -474,7 +474,7 @@ func (a *ArrayCheck) RlpNestArrayCheck(api frontend.API, in []frontend.Variable)
 			shiftToFieldIn = append(shiftToFieldIn, shiftToFieldRlpsOuts[idx][j])
 		}
 
-		fieldPrefixIsBig, fieldPrefixIsLiteral, fieldPrefixPrefixOrTotalHexLen, fieldPrefixIsValid, isArrayField, _, isZero := RlpFieldPrefix(api, [2]frontend.Variable{shiftToFieldRlpsOuts[idx][0], shiftToFieldRlpsOuts[idx][1]})
+		fieldPrefixIsBig, fieldPrefixIsLiteral, fieldPrefixPrefixOrTotalHexLen, fieldPrefixIsValid, isArrayField, _, _ := RlpFieldPrefix(api, [2]frontend.Variable{shiftToFieldRlpsOuts[idx][0], shiftToFieldRlpsOuts[idx][1]})
 
 		fieldRlpPrefix1HexLen := api.Mul(fieldPrefixIsBig, fieldPrefixPrefixOrTotalHexLen)
 
@@ -511,7 +511,6 @@ func (a *ArrayCheck) RlpNestArrayCheck(api frontend.API, in []frontend.Variable)
 
 		fieldHexLen := api.Add(fieldTemp, api.Mul(2, fieldPrefixIsLiteral))
 		fieldHexLen = api.Sub(fieldHexLen, api.Mul(fieldTemp, fieldPrefixIsLiteral))
-		fieldHexLen = api.Mul(fieldHexLen, api.Sub(1, isZero))
 
 		check = api.Add(check, fieldPrefixIsValid)
 
-- 
2.43.0


From 66ca439311ace5be5faf5a676c42fd69c96f6999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:03 +0000
Subject: [PATCH 09/45] fix: ShiftLeft has to reject a shift that is not the
 only one it can do

A list field declared with a fixed length could have another length in the input, and the
fields after it were then read from the wrong place.
---
 circuits/gadgets/rlp/rlp.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/circuits/gadgets/rlp/rlp.go b/circuits/gadgets/rlp/rlp.go
index dc9d32d..6b95240 100644
--- a/circuits/gadgets/rlp/rlp.go
+++ b/circuits/gadgets/rlp/rlp.go
@@ -290,6 +290,7 @@ func ShiftLeft(api frontend.API, nIn int, minShift int, maxShift int, in []front
 	var out []frontend.Variable
 
 	if minShift == maxShift {
+		api.AssertIsEqual(shift, minShift)
 		for i := 0; i < nIn; i++ {
 			out = append(out, in[(i+minShift)%nIn])
 		}
-- 
2.43.0


From f2c0d8cbcac461d79faaef875b0bb67c38a0411e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:03 +0000
Subject: [PATCH 10/45] fix: BlkHeaderRlpCheck counted the padding behind a
 short header as fields

Headers with fewer fields than the maximum only passed if the bytes behind them happened
to look like valid fields of the right total length. RlpArrayCheck already handles a
variable number of fields.
---
 circuits/gadgets/rlp/rlp.go | 110 +-----------------------------------
 1 file changed, 1 insertion(+), 109 deletions(-)

diff --git a/circuits/gadgets/rlp/rlp.go b/circuits/gadgets/rlp/rlp.go
index 6b95240..393fd30 100644
--- a/circuits/gadgets/rlp/rlp.go
+++ b/circuits/gadgets/rlp/rlp.go
@@ -672,113 +672,5 @@ func (a *ArrayCheck) BlkHeaderRlpCheck(api frontend.API, in []frontend.Variable,
 	fieldHexLens []frontend.Variable,
 	fields [][]frontend.Variable) {
 
-	isBig, prefixOrTotalHexLen, isValid := RlpArrayPrefix(api, [2]frontend.Variable{in[0], in[1]})
-
-	check := isValid
-
-	lenSum := frontend.Variable(0)
-
-	var temp = frontend.Variable(0)
-	var totalArrayIn [][]frontend.Variable
-	for idx := 0; idx < a.ArrayPrefixMaxHexLen; idx++ {
-		temp = api.Add(api.Mul(16, temp), in[2+idx])
-		if len(totalArrayIn) <= idx {
-			totalArrayIn = append(totalArrayIn, make([]frontend.Variable, a.ArrayPrefixMaxHexLen))
-		}
-		totalArrayIn[0][idx] = temp
-	}
-
-	arrayRlpPrefix1HexLen := api.Mul(isBig, prefixOrTotalHexLen)
-
-	// when isBig, the arrayRlpPrefix1HexLen = 2. if <55byte, arrayRlpPrefix1HexLen not exits
-	sel := api.Mul(isBig, api.Sub(arrayRlpPrefix1HexLen, 1))
-	totalArrayOut := Multiplexer(api, sel, 1, a.ArrayPrefixMaxHexLen, totalArrayIn)
-
-	//	totalArrayHexLen = rlpArrayPrefix.prefixOrTotalHexLen + rlpArrayPrefix.isBig * (2 * totalArray.out[0] - rlpArrayPrefix.prefixOrTotalHexLen);
-	totalArrayHexLen := api.Sub(api.Mul(2, totalArrayOut[0]), prefixOrTotalHexLen)
-	totalArrayHexLen = api.Add(prefixOrTotalHexLen, api.Mul(isBig, totalArrayHexLen))
-
-	totalRlpHexLen = api.Add(2, arrayRlpPrefix1HexLen, totalArrayHexLen)
-
-	//shiftToField[nFields]
-	var shiftToFieldOuts [][]frontend.Variable
-	var shiftToFieldRlpsOuts [][]frontend.Variable
-
-	for idx := 0; idx < a.MaxFields; idx++ {
-
-		if idx == 0 {
-			var shiftToFieldRlpsIn []frontend.Variable
-
-			for j := 0; j < a.MaxHexLen; j++ {
-				shiftToFieldRlpsIn = append(shiftToFieldRlpsIn, in[j])
-			}
-			shlOut := ShiftLeft(api, a.MaxHexLen, 0, a.ArrayPrefixMaxHexLen, shiftToFieldRlpsIn, api.Add(2, arrayRlpPrefix1HexLen))
-			shiftToFieldRlpsOuts = append(shiftToFieldRlpsOuts, make([]frontend.Variable, len(shlOut)))
-			shiftToFieldRlpsOuts[idx] = shlOut
-		} else {
-			var shiftToFieldRlpsIn []frontend.Variable
-			for j := 0; j < a.MaxHexLen; j++ {
-				shiftToFieldRlpsIn = append(shiftToFieldRlpsIn, shiftToFieldOuts[idx-1][j])
-			}
-			shlOut := ShiftLeft(api, a.MaxHexLen, a.FieldMinHexLen[idx-1], a.FieldMaxHexLen[idx-1], shiftToFieldRlpsIn, fieldHexLens[idx-1])
-			shiftToFieldRlpsOuts = append(shiftToFieldRlpsOuts, make([]frontend.Variable, len(shlOut)))
-			shiftToFieldRlpsOuts[idx] = shlOut
-		}
-
-		var shiftToFieldIn []frontend.Variable
-		for j := 0; j < a.MaxHexLen; j++ {
-			shiftToFieldIn = append(shiftToFieldIn, shiftToFieldRlpsOuts[idx][j])
-		}
-
-		fieldPrefixIsBig, fieldPrefixIsLiteral, fieldPrefixPrefixOrTotalHexLen, fieldPrefixIsValid, _, _, _ := RlpFieldPrefix(api, [2]frontend.Variable{shiftToFieldRlpsOuts[idx][0], shiftToFieldRlpsOuts[idx][1]})
-
-		fieldRlpPrefix1HexLen := api.Mul(fieldPrefixIsBig, fieldPrefixPrefixOrTotalHexLen)
-
-		lenPrefixMaxHexs := LogCeil(a.FieldMaxHexLen[idx]) / 8
-		lenPrefixMaxHexs = (lenPrefixMaxHexs + 1) * 2
-		shlToFieldShift := api.Mul(fieldPrefixIsLiteral, api.Add(2, fieldRlpPrefix1HexLen))
-		shlToFieldShift = api.Sub(api.Add(2, fieldRlpPrefix1HexLen), shlToFieldShift)
-		shiftToLeftOut := ShiftLeft(api, a.MaxHexLen, 0, lenPrefixMaxHexs, shiftToFieldIn, shlToFieldShift)
-
-		shiftToFieldOuts = append(shiftToFieldOuts, make([]frontend.Variable, len(shiftToLeftOut)))
-		shiftToFieldOuts[idx] = shiftToLeftOut
-
-		fields = append(fields, make([]frontend.Variable, a.MaxHexLen))
-		for j := 0; j < a.MaxHexLen; j++ {
-			fields[idx][j] = shiftToLeftOut[j]
-		}
-
-		fieldHexLenMultiSelc := api.Mul(fieldPrefixIsBig, api.Sub(fieldRlpPrefix1HexLen, 1))
-
-		var fieldHexLenMultiIn [][]frontend.Variable
-
-		var tmp = frontend.Variable(0)
-		fieldHexLenMultiIn = append(fieldHexLenMultiIn, make([]frontend.Variable, lenPrefixMaxHexs))
-		for j := 0; j < lenPrefixMaxHexs; j++ {
-			tmp = api.Add(api.Mul(16, tmp), shiftToFieldRlpsOuts[idx][2+j])
-			fieldHexLenMultiIn[0][j] = tmp
-		}
-		fieldHexLenMultiOut := Multiplexer(api, fieldHexLenMultiSelc, 1, lenPrefixMaxHexs, fieldHexLenMultiIn)
-
-		temp2 := api.Sub(api.Mul(fieldHexLenMultiOut[0], 2), fieldPrefixPrefixOrTotalHexLen)
-		fieldTemp := api.Add(fieldPrefixPrefixOrTotalHexLen, api.Mul(fieldPrefixIsBig, temp2))
-
-		idxLessThanMaxFields := LessThan(api, idx, FieldsNum)
-		fieldHexLen := api.Add(fieldTemp, api.Mul(2, fieldPrefixIsLiteral))
-		fieldHexLen = api.Sub(fieldHexLen, api.Mul(fieldTemp, fieldPrefixIsLiteral))
-		fieldHexLen = api.Mul(fieldHexLen, idxLessThanMaxFields)
-		fieldHexLens = append(fieldHexLens, fieldHexLen)
-
-		check = api.Add(check, fieldPrefixIsValid)
-
-		//  lenSum = lenSum + 2 - 2 * fieldPrefix[idx].isLiteral + fieldRlpPrefix1HexLen[idx] + fieldHexLen[idx];
-		lenSum = api.Sub(api.Add(lenSum, 2), api.Mul(2, fieldPrefixIsLiteral))
-		lenSum = api.Add(lenSum, fieldRlpPrefix1HexLen, fieldHexLen)
-	}
-
-	lenCheck := api.IsZero(api.Sub(totalArrayHexLen, lenSum))
-
-	out = api.IsZero(api.Sub(api.Add(check, lenCheck), api.Add(a.MaxFields, 2)))
-
-	return
+	return a.RlpArrayCheck(api, in, FieldsNum)
 }
-- 
2.43.0


From 11d96466a3e9c1f7b403085b43eda770ff26f2c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:03 +0000
Subject: [PATCH 11/45] fix: DecodeTxLeafRlp has to check the transaction type

---
 circuits/gadgets/rlp/rlp.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/circuits/gadgets/rlp/rlp.go b/circuits/gadgets/rlp/rlp.go
index 393fd30..9d56d72 100644
--- a/circuits/gadgets/rlp/rlp.go
+++ b/circuits/gadgets/rlp/rlp.go
@@ -52,6 +52,9 @@ func DecodeTxLeafRlp(api frontend.API, data []frontend.Variable) (transaction Tr
 	out, _, _, fields := TxLeafArrayRlpParams.RlpNestArrayCheck(api, data)
 	api.AssertIsEqual(out, 1)
 	signedTxRlp = fields[1]
+	// only transaction type 0x02 is supported
+	api.AssertIsEqual(signedTxRlp[0], 0)
+	api.AssertIsEqual(signedTxRlp[1], 2)
 
 	out, totalRlpHexLen, fieldHexLens, lFields := SignedTxArrayCheckParams.RlpNestArrayCheck(api, signedTxRlp[2:])
 	api.AssertIsEqual(out, 1)
-- 
2.43.0


From 8f48cbdbfa27be8c30339873b4adbac2153d51e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:43 +0000
Subject: [PATCH 12/45] fix: the root of a one-node trie proof is the last node

With depth 1 the root hash was compared with an unused node, so any leaf was accepted.
---
 circuits/gadgets/mpt/mpt.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/circuits/gadgets/mpt/mpt.go b/circuits/gadgets/mpt/mpt.go
index 5663ed5..04f4133 100644
--- a/circuits/gadgets/mpt/mpt.go
+++ b/circuits/gadgets/mpt/mpt.go
@@ -223,7 +223,12 @@ func CheckMPTInclusionFixedKeyLength(
 		nodeHashes[layer] = *rlp.Keccak256AsNibbles(api, nodeHashInputLengthAtCurrentLayer, nodeRlpBlock, nodeRoundIndexes[layer])
 	}
 
-	rootHashCheck := rlp.ArrayEqual(api, rootHash[:], nodeHashes[0].Output[:], 64, 64)
+	// the last node of a one-node proof is the root itself
+	var firstNodeHash [64]frontend.Variable
+	for i := 0; i < 64; i++ {
+		firstNodeHash[i] = api.Select(depthEqual[0], leafHash.Output[i], nodeHashes[0].Output[i])
+	}
+	rootHashCheck := rlp.ArrayEqual(api, rootHash[:], firstNodeHash[:], 64, 64)
 	log.Debug(rootHashCheck, lastNodeCheckResult.result.output, allFragmentsValid, extensionCheckResults, branchCheckResults)
 
 	var allCheckMultiplexerInput [][]frontend.Variable
@@ -433,7 +438,12 @@ func CheckMPTInclusionNoBranchTermination(
 		nodeHashes[layer] = *rlp.Keccak256AsNibbles(api, nodeHashInputLengthAtCurrentLayer, nodeRlpBlock, nodeRoundIndexes[layer])
 	}
 
-	rootHashCheck := rlp.ArrayEqual(api, rootHash[:], nodeHashes[0].Output[:], 64, 64)
+	// the last node of a one-node proof is the root itself
+	var firstNodeHash [64]frontend.Variable
+	for i := 0; i < 64; i++ {
+		firstNodeHash[i] = api.Select(depthEqual[0], leafHash[i], nodeHashes[0].Output[i])
+	}
+	rootHashCheck := rlp.ArrayEqual(api, rootHash[:], firstNodeHash[:], 64, 64)
 	log.Debug("Inclusion Check:", rootHashCheck, allFragmentsValid, extensionCheckResults, branchCheckResults)
 
 	var allCheckMultiplexerInput [][]frontend.Variable
-- 
2.43.0


From 053a25968906900f3a628637f2a0eb1d03762fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:43 +0000
Subject: [PATCH 13/45] fix: a trie path has to begin with the first digit of
 the key

---
 circuits/gadgets/mpt/mpt.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/circuits/gadgets/mpt/mpt.go b/circuits/gadgets/mpt/mpt.go
index 04f4133..f73cc13 100644
--- a/circuits/gadgets/mpt/mpt.go
+++ b/circuits/gadgets/mpt/mpt.go
@@ -39,6 +39,9 @@ func CheckMPTInclusionFixedKeyLength(
 	//maxLeafRLPLength := 4 + (keyLength + 2) + 4 + maxValueLength
 	maxExtensionRlpHexLen := 4 + 2 + keyLength + 2 + 64
 
+	// the path begins with the first digit of the key
+	api.AssertIsEqual(keyFragmentStarts[0], 0)
+
 	// KEY_BITS := LogCeil(keyLength)
 	// api.AssertIsEqual(KEY_BITS, 6)
 
@@ -278,6 +281,9 @@ func CheckMPTInclusionNoBranchTermination(
 ) CheckMPTInclusionFixedKeyLengthResult {
 	api.AssertIsLessOrEqual(maxDepth, 10)
 
+	// the path begins with the first digit of the key
+	api.AssertIsEqual(keyFragmentStarts[0], 0)
+
 	maxBranchRlpHexLen := 1064
 	maxExtensionRlpHexLen := 4 + 2 + maxKeyHexLen + 2 + 64
 
-- 
2.43.0


From eb6f1d1d843bfa41ea7340fbc455004ee2b575f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:43 +0000
Subject: [PATCH 14/45] fix: key fragment checks of the last node of a trie
 proof

The last node was treated as a branch or extension node when the proof is shorter than the
maximum depth, so no such proof passed.
---
 circuits/gadgets/mpt/mpt.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/circuits/gadgets/mpt/mpt.go b/circuits/gadgets/mpt/mpt.go
index f73cc13..d9e7cba 100644
--- a/circuits/gadgets/mpt/mpt.go
+++ b/circuits/gadgets/mpt/mpt.go
@@ -65,8 +65,9 @@ func CheckMPTInclusionFixedKeyLength(
 		if len(allFragmentsInput) == 0 {
 			allFragmentsInput = append(allFragmentsInput, []frontend.Variable{})
 		}
+		// the last node only has to start inside the key
+		allFragmentsInput[0] = append(allFragmentsInput[0], api.Add(tmp, 2, isStartRange[i]))
 		tmp = api.Add(tmp, keyFragmentValidBranch[i], isMonotoneStart[i], isStartRange[i])
-		allFragmentsInput[0] = append(allFragmentsInput[0], tmp)
 	}
 
 	tmp = api.Add(tmp, 2, isStartRange[maxDepth-1])
@@ -307,8 +308,9 @@ func CheckMPTInclusionNoBranchTermination(
 		if len(allFragmentsInput) == 0 {
 			allFragmentsInput = append(allFragmentsInput, []frontend.Variable{})
 		}
+		// the last node only has to start inside the key
+		allFragmentsInput[0] = append(allFragmentsInput[0], api.Add(tmp, 2, isStartRange[i]))
 		tmp = api.Add(tmp, keyFragmentValidBranch[i], isMonotoneStart[i], isStartRange[i])
-		allFragmentsInput[0] = append(allFragmentsInput[0], tmp)
 	}
 
 	tmp = api.Add(tmp, 2, isStartRange[maxDepth-1])
-- 
2.43.0


From cd1f32fe0d641cb09956acaa87fe859d7f7c7e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:43 +0000
Subject: [PATCH 15/45] fix: CheckMPTInclusionNoBranchTermination demanded that
 one check fails

The node type was negated in the key fragment check, so that check never held, and the
expected number of checks was one too low: a proof with valid fragments and a wrong root
hash passed.
---
 circuits/gadgets/mpt/mpt.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/circuits/gadgets/mpt/mpt.go b/circuits/gadgets/mpt/mpt.go
index d9e7cba..b70c05b 100644
--- a/circuits/gadgets/mpt/mpt.go
+++ b/circuits/gadgets/mpt/mpt.go
@@ -296,7 +296,7 @@ func CheckMPTInclusionNoBranchTermination(
 	for index := 0; index < maxDepth-1; index++ {
 		isSingleKeyFragment = append(isSingleKeyFragment, rlp.Equal(api, api.Add(keyFragmentStarts[index], 1), keyFragmentStarts[index+1]))
 		isMonotoneStart = append(isMonotoneStart, rlp.LessThan(api, keyFragmentStarts[index], keyFragmentStarts[index+1]))
-		keyFragmentValidBranch = append(keyFragmentValidBranch, api.Or(isSingleKeyFragment[index], api.Sub(1, nodeTypes[index])))
+		keyFragmentValidBranch = append(keyFragmentValidBranch, api.Or(isSingleKeyFragment[index], nodeTypes[index]))
 		isStartRange = append(isStartRange, rlp.LessThan(api, keyFragmentStarts[index], keyLength))
 	}
 
@@ -479,7 +479,7 @@ func CheckMPTInclusionNoBranchTermination(
 	allCheckMultiplexer := rlp.Multiplexer(api, api.Sub(depth, 1), 1, maxDepth, allCheckMultiplexerInput)
 
 	return CheckMPTInclusionFixedKeyLengthResult{
-		Output:      rlp.Equal(api, allCheckMultiplexer[0], api.Add(api.Mul(depth, 4), 1)),
+		Output:      rlp.Equal(api, allCheckMultiplexer[0], api.Add(api.Mul(depth, 4), 2)),
 		ValueLength: 0,
 	}
 }
-- 
2.43.0


From 6486ba83f895a2796cc34d56e5858e806a14f05c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:43 +0000
Subject: [PATCH 16/45] fix: a transaction or receipt leaf may have no key
 digits left

In tries of more than 16 entries both digits of a short key are used up by branches.
---
 circuits/gadgets/mpt/mpt.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/circuits/gadgets/mpt/mpt.go b/circuits/gadgets/mpt/mpt.go
index b70c05b..12d95df 100644
--- a/circuits/gadgets/mpt/mpt.go
+++ b/circuits/gadgets/mpt/mpt.go
@@ -297,10 +297,10 @@ func CheckMPTInclusionNoBranchTermination(
 		isSingleKeyFragment = append(isSingleKeyFragment, rlp.Equal(api, api.Add(keyFragmentStarts[index], 1), keyFragmentStarts[index+1]))
 		isMonotoneStart = append(isMonotoneStart, rlp.LessThan(api, keyFragmentStarts[index], keyFragmentStarts[index+1]))
 		keyFragmentValidBranch = append(keyFragmentValidBranch, api.Or(isSingleKeyFragment[index], nodeTypes[index]))
-		isStartRange = append(isStartRange, rlp.LessThan(api, keyFragmentStarts[index], keyLength))
+		isStartRange = append(isStartRange, rlp.LessThan(api, keyFragmentStarts[index], api.Add(keyLength, 1)))
 	}
 
-	isStartRange = append(isStartRange, rlp.LessThan(api, keyFragmentStarts[maxDepth-1], keyLength))
+	isStartRange = append(isStartRange, rlp.LessThan(api, keyFragmentStarts[maxDepth-1], api.Add(keyLength, 1)))
 
 	var allFragmentsInput [][]frontend.Variable
 	var tmp frontend.Variable = 0
@@ -308,7 +308,7 @@ func CheckMPTInclusionNoBranchTermination(
 		if len(allFragmentsInput) == 0 {
 			allFragmentsInput = append(allFragmentsInput, []frontend.Variable{})
 		}
-		// the last node only has to start inside the key
+		// the last node may start where the key ends: a leaf below a branch can have no digit left
 		allFragmentsInput[0] = append(allFragmentsInput[0], api.Add(tmp, 2, isStartRange[i]))
 		tmp = api.Add(tmp, keyFragmentValidBranch[i], isMonotoneStart[i], isStartRange[i])
 	}
@@ -410,7 +410,7 @@ func CheckMPTInclusionNoBranchTermination(
 			}
 			nibbleSelectorInput[0] = append(nibbleSelectorInput[0], key[i])
 		}
-		nibbleSelector := rlp.Multiplexer(api, api.Mul(depthLessThan[layer], keyFragmentStarts[layer]), 1, maxKeyHexLen, nibbleSelectorInput)
+		nibbleSelector := rlp.Multiplexer(api, api.Mul(depthLessThan[layer+1], keyFragmentStarts[layer]), 1, maxKeyHexLen, nibbleSelectorInput)
 
 		branchCheck := NewMPTBranchCheck(64)
 
-- 
2.43.0


From fd3ba73c0f900f5402652859c1a29dd0ddfc8f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:43 +0000
Subject: [PATCH 17/45] fix: storage non-existence proofs

A key could be proven absent although an extension or branch node on its path leads to it,
and any value passed along with such a proof:
- the value has to be the empty one,
- the digit looked up in the last branch is the one at the branch's position in the key, which
  is not its depth when there are extension nodes above,
- an extension rules the key out only if it is a valid node whose path has a different digit.
---
 circuits/gadgets/mpt/mpt.go      | 10 +++-------
 circuits/gadgets/mpt/mpt_util.go | 20 ++++++++++++--------
 2 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/circuits/gadgets/mpt/mpt.go b/circuits/gadgets/mpt/mpt.go
index 12d95df..aa0a76b 100644
--- a/circuits/gadgets/mpt/mpt.go
+++ b/circuits/gadgets/mpt/mpt.go
@@ -4,7 +4,6 @@ import (
 	"github.com/brevis-network/zk-utils/circuits/gadgets/keccak"
 	"github.com/brevis-network/zk-utils/circuits/gadgets/rlp"
 	"github.com/brevis-network/zk-utils/common/utils"
-	"github.com/consensys/gnark/std/selector"
 
 	"github.com/celer-network/goutils/log"
 	"github.com/consensys/gnark/frontend"
@@ -102,19 +101,16 @@ func CheckMPTInclusionFixedKeyLength(
 	// 1. the node is last node
 	// 2. in case of the node is branch node or an extension node, but the key path is not matched
 	if isStorageProof {
-		lastNodeLayer := api.Sub(depth, 1)
-		lastNodeKeySelector := selector.Mux(api, lastNodeLayer, key[:]...)
-
-		// layer index start at 0, last node layer = depth -1
+		// leafSelector starts with the first key digit the last node is about
 		lastNodeBranchCheck := NewMPTBranchCheck(64)
-		lastNodeBranchNonExistence := lastNodeBranchCheck.CheckBranchForNonExistence(api, lastNodeKeySelector, lastNodeRlp)
+		lastNodeBranchNonExistence := lastNodeBranchCheck.CheckBranchForNonExistence(api, leafSelector[0], lastNodeRlp)
 		log.Infoln("lastNodeBranchNonExistence:", lastNodeBranchNonExistence)
 
 		lastNodeExtensionCheck := NewMPTExtensionCheck(keyLength, 64)
 		lastNodeExtensionNonExistence := lastNodeExtensionCheck.checkExtensionNodeNonExistence(api, leafSelector, leafSelectorLength, lastNodeRlp, leafPathPrefixLength)
 		log.Infoln("lastNodeExtensionNonExistence:", lastNodeExtensionNonExistence)
 
-		isNotExist := api.Or(lastNodeBranchNonExistence, lastNodeExtensionNonExistence)
+		isNotExist := api.And(isEmptyValue(api, value), api.Or(lastNodeBranchNonExistence, lastNodeExtensionNonExistence))
 		lastNodeCheckResult.result.output = api.Select(isNotExist, 4, lastNodeCheckResult.result.output)
 
 	}
diff --git a/circuits/gadgets/mpt/mpt_util.go b/circuits/gadgets/mpt/mpt_util.go
index a3d3328..83a6606 100644
--- a/circuits/gadgets/mpt/mpt_util.go
+++ b/circuits/gadgets/mpt/mpt_util.go
@@ -68,10 +68,7 @@ func (leafCheck *MPTLeafCheck) CheckLeaf(
 	api.AssertIsEqual(len(keyNibbles), leafCheck.maxKeyLength)
 	api.AssertIsEqual(len(values), leafCheck.maxValueLength)
 
-	valuePrefix := values[:2]
-	isSingleValue := rlp.ArrayEqual(api, valuePrefix[:], []frontend.Variable{8, 0}, 2, 2)
-	isZeroArr := rlp.ArrayEqual(api, values[2:], []frontend.Variable{0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}, 64, 64)
-	isZeroValue := api.And(isSingleValue, isZeroArr)
+	isZeroValue := isEmptyValue(api, values)
 
 	arrayCheck := &rlp.ArrayCheck{}
 	arrayCheck.MaxHexLen = leafCheck.maxRLPLength
@@ -112,6 +109,14 @@ func (leafCheck *MPTLeafCheck) CheckLeaf(
 	}
 }
 
+// isEmptyValue says whether the value is 0x80, which stands for no value
+func isEmptyValue(api frontend.API, values []frontend.Variable) frontend.Variable {
+	valuePrefix := values[:2]
+	isSingleValue := rlp.ArrayEqual(api, valuePrefix[:], []frontend.Variable{8, 0}, 2, 2)
+	isZeroArr := rlp.ArrayEqual(api, values[2:], []frontend.Variable{0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}, 64, 64)
+	return api.And(isSingleValue, isZeroArr)
+}
+
 type MPTExtensionCheck struct {
 	maxKeyLength            int
 	maxNodeRefLength        int
@@ -232,11 +237,10 @@ func (ec *MPTExtensionCheck) checkExtensionNodeNonExistence(
 
 	// check key path part
 	keyNibblesMatched := rlp.ArrayEqual(api, keyNibbles, keyPathsArr, ec.maxKeyLength, api.Sub(fieldsLength[0], nodeTypePrefixLength))
-	keyNibblesLengthMatched := rlp.Equal(api, keyNibbleLen, api.Sub(fieldsLength[0], nodeTypePrefixLength))
-
-	keyNotExistInPath := api.Sub(1, api.And(keyNibblesMatched, keyNibblesLengthMatched))
+	// the key continues below the extension, so only a different digit in its path rules the key out
+	keyNotExistInPath := api.Sub(1, keyNibblesMatched)
 
-	isNotExist := rlp.Equal(api, api.Add(prefixCheck, keyNotExistInPath), 2)
+	isNotExist := rlp.Equal(api, api.Add(rlpout, prefixCheck, keyNotExistInPath), 3)
 	return isNotExist
 
 }
-- 
2.43.0


From 529121033372cd58a6ad7e9cd1b25c5ca23a8285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:39 +0000
Subject: [PATCH 18/45] fix: prove storage against the genesis block

The number of block 0 has no digits, so it is shifted by eight places, which takes four bits.
---
 circuits/gadgets/mpt/eth_proof.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/circuits/gadgets/mpt/eth_proof.go b/circuits/gadgets/mpt/eth_proof.go
index ae0f05a..6293230 100644
--- a/circuits/gadgets/mpt/eth_proof.go
+++ b/circuits/gadgets/mpt/eth_proof.go
@@ -324,7 +324,7 @@ func CheckEthAddressStorageProof(
 		storageProofDepth,
 	)
 
-	blockNumberShift := rlp.ShiftRight(api, 8, 3, rlpBlockHashResult.BlockNumber[:], api.Sub(8, rlpBlockHashResult.BlockNumberLength))
+	blockNumberShift := rlp.ShiftRight(api, 8, 4, rlpBlockHashResult.BlockNumber[:], api.Sub(8, rlpBlockHashResult.BlockNumberLength))
 	var blockNumber = frontend.Variable(0)
 	for i := 0; i < 8; i++ {
 		blockNumber = api.Add(blockNumber, api.Mul(blockNumberShift[i], big.NewInt(int64(math.Pow(16, float64(7-i))))))
-- 
2.43.0


From cd2b1cfde60110ad997dea93359138686d18f950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:15 +0000
Subject: [PATCH 19/45] fix: keep the operands of BLS12-381 extension field
 operations

The emulated multiplications are recorded by reference and only checked when
the whole circuit is defined. Callers that assign to a variable they passed
(MulBy014, the Miller loop, the Jacobian G2 operations, hash to curve) made
those checks unsatisfiable, so that no proof existed for any input.
---
 circuits/gadgets/pairing_bls12381/tower.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/circuits/gadgets/pairing_bls12381/tower.go b/circuits/gadgets/pairing_bls12381/tower.go
index 8dd6802..656e5aa 100644
--- a/circuits/gadgets/pairing_bls12381/tower.go
+++ b/circuits/gadgets/pairing_bls12381/tower.go
@@ -80,8 +80,18 @@ func NewExt12(baseField *curveF) *ext12 {
 	return &ext12{ext6: NewExt6(baseField)}
 }
 
+// own returns a copy of x. Multiplications are recorded by reference and checked
+// when the whole circuit is defined, by which time the caller may have assigned
+// something else to its variable.
+func own(x *E2) *E2 {
+	c := *x
+	return &c
+}
+
 // TODO: check where to use Mod and where ModMul.
 func (e ext2) MulByElement(x *E2, y *baseEl) *E2 {
+	yc := *y
+	x, y = own(x), &yc
 	// var yCopy fp.Element
 	// yCopy.Set(y)
 	z0 := e.fp.MulMod(&x.A0, y) // z.A0.Mul(&x.A0, &yCopy)
@@ -93,6 +103,7 @@ func (e ext2) MulByElement(x *E2, y *baseEl) *E2 {
 }
 
 func (e ext2) Conjugate(x *E2) *E2 {
+	x = own(x)
 	z0 := x.A0            // z.A0 = x.A0
 	z1 := e.fp.Neg(&x.A1) // z.A1.Neg(&x.A1)
 	return &E2{           // return z
@@ -129,6 +140,7 @@ func (e ext2) MulByNonResidue(x *E2) *E2 {
 }
 
 func (e ext2) MulByNonResidueInv(x *E2) *E2 {
+	x = own(x)
 	z0 := e.fp.Add(&x.A0, &x.A1)
 	z1 := e.fp.Sub(&x.A1, &x.A0)
 	return e.mulByNonResidue(&E2{
@@ -182,6 +194,7 @@ func (e ext2) MulByNonResidue2Power5(x *E2) *E2 {
 }
 
 func (e ext2) Mul(x, y *E2) *E2 {
+	x, y = own(x), own(y)
 	// var a, b, c fp.Element
 	a := e.fp.Add(&x.A0, &x.A1)    // a.Add(&x.A0, &x.A1)
 	b := e.fp.Add(&y.A0, &y.A1)    // b.Add(&y.A0, &y.A1)
@@ -198,6 +211,7 @@ func (e ext2) Mul(x, y *E2) *E2 {
 }
 
 func (e ext2) Add(x, y *E2) *E2 {
+	x, y = own(x), own(y)
 	z0 := e.fp.Add(&x.A0, &y.A0) // z.A0.Add(&x.A0, &y.A0)
 	z1 := e.fp.Add(&x.A1, &y.A1) // z.A1.Add(&x.A1, &y.A1)
 	return &E2{
@@ -216,6 +230,7 @@ func (e ext2) Select(selector frontend.Variable, x, y *E2) *E2 {
 }
 
 func (e ext2) Sub(x, y *E2) *E2 {
+	x, y = own(x), own(y)
 	z0 := e.fp.Sub(&x.A0, &y.A0) // z.A0.Sub(&x.A0, &y.A0)
 	z1 := e.fp.Sub(&x.A1, &y.A1) // z.A1.Sub(&x.A1, &y.A1)
 	return &E2{
@@ -225,6 +240,7 @@ func (e ext2) Sub(x, y *E2) *E2 {
 }
 
 func (e ext2) Neg(x *E2) *E2 {
+	x = own(x)
 	z0 := e.fp.Neg(&x.A0) // z.A0.Neg(&x.A0)
 	z1 := e.fp.Neg(&x.A1) // z.A1.Neg(&x.A1)
 	return &E2{
@@ -252,6 +268,7 @@ func (e ext2) Zero() *E2 {
 }
 
 func (e ext2) Square(x *E2) *E2 {
+	x = own(x)
 	// var a, b fp.Element
 	a := e.fp.Add(&x.A0, &x.A1)         // a.Add(&x.A0, &x.A1)
 	b := e.fp.Sub(&x.A0, &x.A1)         // b.Sub(&x.A0, &x.A1)
@@ -276,6 +293,7 @@ func (e ext2) Div(x *E2, y *E2) *E2 {
 }
 
 func (e ext2) Double(x *E2) *E2 {
+	x = own(x)
 	two := big.NewInt(2)
 	z0 := e.fp.MulConst(&x.A0, two) // z.A0.Double(&x.A0)
 	z1 := e.fp.MulConst(&x.A1, two) // z.A1.Double(&x.A1)
@@ -286,6 +304,7 @@ func (e ext2) Double(x *E2) *E2 {
 }
 
 func (e ext2) Halve(x *E2) *E2 {
+	x = own(x)
 	// I'm trying to avoid hard-coding modulus here in case want to make generic
 	// for different curves.
 	// TODO: if implemented Half in field emulation, then replace with it.
@@ -301,6 +320,7 @@ func (e ext2) Halve(x *E2) *E2 {
 
 func (e ext2) MulBybTwistCurveCoeff(x *E2) *E2 {
 
+	x = own(x)
 	//var res E2
 	a0 := e.fp.Sub(&x.A0, &x.A1) //	res.A0.Sub(&x.A0, &x.A1)
 	a1 := e.fp.Add(&x.A0, &x.A1) //	res.A1.Add(&x.A0, &x.A1)
@@ -315,6 +335,7 @@ func (e ext2) MulBybTwistCurveCoeff(x *E2) *E2 {
 }
 
 func (e ext2) Inverse(x *E2) *E2 {
+	x = own(x)
 	// var t0, t1 fp.Element
 	t0 := e.fp.MulMod(&x.A0, &x.A0) // t0.Square(&x.A0)
 	t1 := e.fp.MulMod(&x.A1, &x.A1) // t1.Square(&x.A1)
@@ -330,6 +351,7 @@ func (e ext2) Inverse(x *E2) *E2 {
 }
 
 func (e ext2) AssertIsEqual(x, y *E2) {
+	x, y = own(x), own(y)
 	e.fp.AssertIsEqual(&x.A0, &y.A0)
 	e.fp.AssertIsEqual(&x.A1, &y.A1)
 }
-- 
2.43.0


From 5e8a52595f4ed1c7e0de57048b9a3d896b4869bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:15 +0000
Subject: [PATCH 20/45] fix: G1NotZero and G1NotEqual compare residues

A residue has a second representative below the element width. The prover
could have zero, or two equal elements, reported as nonzero or different.
---
 .../gadgets/pairing_bls12381/hash2curve.go     | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/circuits/gadgets/pairing_bls12381/hash2curve.go b/circuits/gadgets/pairing_bls12381/hash2curve.go
index aec5ad2..fcb7165 100644
--- a/circuits/gadgets/pairing_bls12381/hash2curve.go
+++ b/circuits/gadgets/pairing_bls12381/hash2curve.go
@@ -524,8 +524,9 @@ func G1NotZero(api frontend.API, x baseEl) frontend.Variable {
 	if err != nil {
 		log.Fatal(err)
 	}
-	x = *ba.Reduce(&x)
-	bs := ba.ToBits(&x)
+	reduced := ba.Reduce(&x)
+	ba.AssertIsInRange(reduced) // x = 0 mod p has another representative, p
+	bs := ba.ToBits(reduced)
 	var isNotZero frontend.Variable
 	isNotZero = 0
 	for _, b := range bs {
@@ -547,18 +548,7 @@ func G1NotEqual(api frontend.API, x, y baseEl) frontend.Variable {
 	if err != nil {
 		log.Fatal(err)
 	}
-	x = *ba.Reduce(&x)
-	y = *ba.Reduce(&y)
-	xBits := ba.ToBits(&x)
-	yBits := ba.ToBits(&y)
-
-	var notEqual frontend.Variable
-	notEqual = 0
-	for i, b := range xBits {
-		notEqual = api.Or(notEqual, api.Xor(b, yBits[i]))
-	}
-
-	return notEqual
+	return G1NotZero(api, *ba.Sub(&x, &y))
 }
 
 func E2NotEqual(api frontend.API, x, y E2) frontend.Variable {
-- 
2.43.0


From ce9096a25dcaf36942197d0ff42c1eca92869fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:15 +0000
Subject: [PATCH 21/45] fix: g2Sgn0 takes the parity of the reduced element

The prover could choose the sign through the second representative, and an
element with A0 = 0 got the sign of zero instead of that of A1.
---
 circuits/gadgets/pairing_bls12381/hash2curve.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/circuits/gadgets/pairing_bls12381/hash2curve.go b/circuits/gadgets/pairing_bls12381/hash2curve.go
index fcb7165..35b3166 100644
--- a/circuits/gadgets/pairing_bls12381/hash2curve.go
+++ b/circuits/gadgets/pairing_bls12381/hash2curve.go
@@ -211,10 +211,13 @@ func g2Sgn0(api frontend.API, u *E2) frontend.Variable {
 		log.Fatal(err)
 	}
 
+	// the parity is that of the representative below the modulus
 	uu := E2{
 		A0: *ba.Reduce(&u.A0),
 		A1: *ba.Reduce(&u.A1),
 	}
+	ba.AssertIsInRange(&uu.A0)
+	ba.AssertIsInRange(&uu.A1)
 	var A0Bits [6][]frontend.Variable
 	A0Bits[0] = bits.ToBinary(api, uu.A0.Limbs[0], bits.WithNbDigits(64))
 	A0Bits[1] = bits.ToBinary(api, uu.A0.Limbs[1], bits.WithNbDigits(64))
@@ -223,20 +226,20 @@ func g2Sgn0(api frontend.API, u *E2) frontend.Variable {
 	A0Bits[4] = bits.ToBinary(api, uu.A0.Limbs[4], bits.WithNbDigits(64))
 	A0Bits[5] = bits.ToBinary(api, uu.A0.Limbs[5], bits.WithNbDigits(64))
 
-	var sign, zero, signI, zeroI frontend.Variable
+	var sign, zero, signI, notZeroI frontend.Variable
 	sign = 0
 	zero = 1
 	signI = A0Bits[0][0]
 
-	zeroI = 0
+	notZeroI = 0
 	for _, subBits := range A0Bits {
 		for _, b := range subBits {
-			zeroI = api.Or(signI, b)
+			notZeroI = api.Or(notZeroI, b)
 		}
 	}
 
 	sign = api.Or(sign, api.And(zero, signI))
-	zero = api.And(zero, zeroI)
+	zero = api.And(zero, api.Sub(1, notZeroI))
 	signI = bits.ToBinary(api, uu.A1.Limbs[0], bits.WithNbDigits(64))[0]
 	sign = api.Or(sign, api.And(zero, signI))
 	return sign
-- 
2.43.0


From a922b003075a6651ebf00af7c65ff597ce85b435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:16 +0000
Subject: [PATCH 22/45] fix: map zero to the curve

The exceptional case of the simplified SWU map divides by A*Z.
---
 circuits/gadgets/pairing_bls12381/hash2curve.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/circuits/gadgets/pairing_bls12381/hash2curve.go b/circuits/gadgets/pairing_bls12381/hash2curve.go
index 35b3166..3078edd 100644
--- a/circuits/gadgets/pairing_bls12381/hash2curve.go
+++ b/circuits/gadgets/pairing_bls12381/hash2curve.go
@@ -172,8 +172,8 @@ func MapElementToCurve2(api frontend.API, e2 E2) (x, y *E2) {
 	tv3 := et2.Add(tv2, et2.One())          // 5.  tv3 = tv2 + 1
 	tv3 = et2.Mul(tv3, &SswuIsoCurveCoeffB) // 6.  tv3 = B * tv3
 
-	tv2 = et2.Neg(tv2)
-	tv4 := et2.Mul(tv2, &SswuIsoCurveCoeffA)
+	tv4 := et2.Select(E2NotZero(api, *tv2), et2.Neg(tv2), &Tv4Z) // 7.  tv4 = CMOV(Z, -tv2, tv2 != 0)
+	tv4 = et2.Mul(tv4, &SswuIsoCurveCoeffA)                      // 8.  tv4 = A * tv4
 
 	tv2 = et2.Square(tv3) // 9.  tv2 = tv3²
 
-- 
2.43.0


From ac82e647242ffa00cc72fd60cc845e3a995dd396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:16 +0000
Subject: [PATCH 23/45] fix: convert the Jacobian point at infinity

Z = 0 has no inverse, so that the circuit had no solution.
---
 circuits/gadgets/pairing_bls12381/hash2curve.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/circuits/gadgets/pairing_bls12381/hash2curve.go b/circuits/gadgets/pairing_bls12381/hash2curve.go
index 3078edd..44c42c8 100644
--- a/circuits/gadgets/pairing_bls12381/hash2curve.go
+++ b/circuits/gadgets/pairing_bls12381/hash2curve.go
@@ -598,13 +598,14 @@ func GetG2AffineFromG2Jac(api frontend.API, Q *G2Jacobian) *G2Affine {
 		X: *et2.Zero(),
 		Y: *et2.Zero(),
 	}
-	a := et2.Inverse(&Q.Z)
+	// zero has no inverse, and the result at infinity does not use it
+	jacZNotZero := E2NotZero(api, Q.Z)
+	a := et2.Inverse(et2.Select(jacZNotZero, &Q.Z, et2.One()))
 	b := et2.Square(a)
 	res2 := &G2Affine{}
 	res2.X = *et2.Mul(&Q.X, b)
 	res2.Y = *et2.Mul(&Q.Y, b)
 	res2.Y = *et2.Mul(&res2.Y, a)
-	jacZNotZero := E2NotZero(api, Q.Z)
 
 	final := &G2Affine{}
 	final.X = *et2.Select(jacZNotZero, &res2.X, &res1.X)
-- 
2.43.0


From d0f26f9a3f0392c5294a2be918a19a58a50c2900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:16 +0000
Subject: [PATCH 24/45] fix: FrobeniusCube raises to p^3

It used the coefficients of the first power.
---
 circuits/gadgets/pairing_bls12381/tower.go | 25 +---------------------
 1 file changed, 1 insertion(+), 24 deletions(-)

diff --git a/circuits/gadgets/pairing_bls12381/tower.go b/circuits/gadgets/pairing_bls12381/tower.go
index 656e5aa..e8755cc 100644
--- a/circuits/gadgets/pairing_bls12381/tower.go
+++ b/circuits/gadgets/pairing_bls12381/tower.go
@@ -709,30 +709,7 @@ func (e ext12) FrobeniusSquare(x *E12) *E12 {
 }
 
 func (e ext12) FrobeniusCube(x *E12) *E12 {
-	// var t [6]E2
-	t0 := e.ext2.Conjugate(&x.C0.B0)       // t[0].Conjugate(&x.C0.B0)
-	t1 := e.ext2.Conjugate(&x.C0.B1)       // t[1].Conjugate(&x.C0.B1)
-	t2 := e.ext2.Conjugate(&x.C0.B2)       // t[2].Conjugate(&x.C0.B2)
-	t3 := e.ext2.Conjugate(&x.C1.B0)       // t[3].Conjugate(&x.C1.B0)
-	t4 := e.ext2.Conjugate(&x.C1.B1)       // t[4].Conjugate(&x.C1.B1)
-	t5 := e.ext2.Conjugate(&x.C1.B2)       // t[5].Conjugate(&x.C1.B2)
-	t1 = e.ext2.MulByNonResidue1Power2(t1) // t[1].MulByNonResidue3Power2(&t[1])
-	t2 = e.ext2.MulByNonResidue1Power4(t2) // t[2].MulByNonResidue3Power4(&t[2])
-	t3 = e.ext2.MulByNonResidue1Power1(t3) // t[3].MulByNonResidue3Power1(&t[3])
-	t4 = e.ext2.MulByNonResidue1Power3(t4) // t[4].MulByNonResidue3Power3(&t[4])
-	t5 = e.ext2.MulByNonResidue1Power5(t5) // t[5].MulByNonResidue3Power5(&t[5])
-	return &E12{                           // return z
-		C0: E6{
-			B0: *t0, // z.C0.B0 = t[0]
-			B1: *t1, // z.C0.B1 = t[1]
-			B2: *t2, // z.C0.B2 = t[2]
-		},
-		C1: E6{
-			B0: *t3, // z.C1.B0 = t[3]
-			B1: *t4, // z.C1.B1 = t[4]
-			B2: *t5, // z.C1.B2 = t[5]
-		},
-	}
+	return e.Frobenius(e.FrobeniusSquare(x))
 }
 
 func (e ext12) DecompressKarabina(x E12) *E12 {
-- 
2.43.0


From 2cc6d0a7204c2d94d2ee4d6660963b8cc3ea1395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:16 +0000
Subject: [PATCH 25/45] fix: decompress cyclotomic elements with g3 = 0

DecompressKarabina divided by zero, for one in particular.
---
 circuits/gadgets/pairing_bls12381/tower.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/circuits/gadgets/pairing_bls12381/tower.go b/circuits/gadgets/pairing_bls12381/tower.go
index e8755cc..23399b3 100644
--- a/circuits/gadgets/pairing_bls12381/tower.go
+++ b/circuits/gadgets/pairing_bls12381/tower.go
@@ -229,6 +229,12 @@ func (e ext2) Select(selector frontend.Variable, x, y *E2) *E2 {
 	}
 }
 
+// selectIfZero returns a if x is zero and b otherwise
+func (e ext2) selectIfZero(x, a, b *E2) *E2 {
+	x = own(x)
+	return e.Select(e.fp.IsZero(&x.A0), e.Select(e.fp.IsZero(&x.A1), a, b), b)
+}
+
 func (e ext2) Sub(x, y *E2) *E2 {
 	x, y = own(x), own(y)
 	z0 := e.fp.Sub(&x.A0, &y.A0) // z.A0.Sub(&x.A0, &y.A0)
@@ -716,8 +722,6 @@ func (e ext12) DecompressKarabina(x E12) *E12 {
 
 	one := e.ext2.One()
 
-	// TODO: add iszero handle
-
 	t0 := e.ext2.Square(&x.C0.B1) //t0[i].Square(&x[i].C0.B1)
 	// t1 = 3 * g1^2 - 2 * g2
 	t1 := e.ext2.Sub(t0, &x.C0.B2) //			t1[i].Sub(&t0[i], &x[i].C0.B2).
@@ -731,6 +735,12 @@ func (e ext12) DecompressKarabina(x E12) *E12 {
 	t1 = e.ext2.Double(&x.C1.B0) //			t1[i].Double(&x[i].C1.B0).
 	t1 = e.ext2.Double(t1)       //				Double(&t1[i])
 
+	// if g3 = 0 then g4 = 2 * g1 * g5 / g2, and if also g2 = 0 then g1 = g5 = 0 and x = 1
+	t2 = e.ext2.Double(e.ext2.Mul(&x.C0.B1, &x.C1.B2))
+	t0 = e.ext2.selectIfZero(&x.C1.B0, t2, t0)
+	t1 = e.ext2.selectIfZero(&x.C1.B0, &x.C0.B2, t1)
+	t1 = e.ext2.selectIfZero(t1, one, t1)
+
 	// z4 = g4
 	zc11 := e.ext2.Div(t0, t1) //	z.C1.B1.Div(&t[0], &t[1]) // costly
 
-- 
2.43.0


From f61e3e3dd5589349fab6ea7a79ff27f38edfc2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:16 +0000
Subject: [PATCH 26/45] fix: E2Exp leaves the caller's negative exponent alone

---
 circuits/gadgets/pairing_bls12381/hash2curve.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/circuits/gadgets/pairing_bls12381/hash2curve.go b/circuits/gadgets/pairing_bls12381/hash2curve.go
index 44c42c8..4201dba 100644
--- a/circuits/gadgets/pairing_bls12381/hash2curve.go
+++ b/circuits/gadgets/pairing_bls12381/hash2curve.go
@@ -334,7 +334,7 @@ func E2Exp(api frontend.API, x E2, k *big.Int) *E2 {
 
 		// we negate k in a temp big.Int since
 		// Int.Bit(_) of k and -k is different
-		e.Neg(k)
+		e = new(big.Int).Neg(k)
 	}
 
 	b := e.Bytes()
-- 
2.43.0


From 85d1beab66e1e027f6b90363cf5504cd5445ac2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:15 +0000
Subject: [PATCH 27/45] fix: report failed writes and closes of key, witness
 and proof files

---
 common/utils/pk-vk-utils.go | 60 +++++++++++++++++++++++--------------
 1 file changed, 38 insertions(+), 22 deletions(-)

diff --git a/common/utils/pk-vk-utils.go b/common/utils/pk-vk-utils.go
index 9968f8e..981ac6f 100644
--- a/common/utils/pk-vk-utils.go
+++ b/common/utils/pk-vk-utils.go
@@ -22,6 +22,13 @@ func ReadFileAndReturnByteArray(extractedFilePath string) ([]byte, error) {
 	return io.ReadAll(file)
 }
 
+// closeFile closes a written file, what was written may be lost if that fails
+func closeFile(f *os.File, err *error) {
+	if closeErr := f.Close(); *err == nil {
+		*err = closeErr
+	}
+}
+
 func ReadPlonkProvingKey(filename string, pk plonk.ProvingKey) error {
 	f, err := os.Open(filename)
 	if err != nil {
@@ -33,15 +40,20 @@ func ReadPlonkProvingKey(filename string, pk plonk.ProvingKey) error {
 	return err
 }
 
-func WritePlonkProvingKey(filename string, pk plonk.ProvingKey) {
+func WritePlonkProvingKey(filename string, pk plonk.ProvingKey) (err error) {
 	f, err := os.Create(filename)
 	if err != nil {
 		log.Error("pk writing open failed... ", err)
+		return err
 	}
+	defer closeFile(f, &err)
+
 	_, err = pk.WriteTo(f)
 	if err != nil {
 		log.Error("pk writing failed... ", err)
+		return err
 	}
+	return nil
 }
 
 func ReadPlonkVerifyingKey(filename string, vk plonk.VerifyingKey) error {
@@ -55,11 +67,12 @@ func ReadPlonkVerifyingKey(filename string, vk plonk.VerifyingKey) error {
 	return err
 }
 
-func WritePlonkVerifyingKey(filename string, vk plonk.VerifyingKey) error {
+func WritePlonkVerifyingKey(filename string, vk plonk.VerifyingKey) (err error) {
 	f, err := os.Create(filename)
 	if err != nil {
 		return err
 	}
+	defer closeFile(f, &err)
 
 	_, err = vk.WriteTo(f)
 	if err != nil {
@@ -79,12 +92,13 @@ func ReadWitness(filename string, witness witness.Witness) error {
 	return err
 }
 
-func WriteWitness(filename string, witness witness.Witness) error {
+func WriteWitness(filename string, witness witness.Witness) (err error) {
 	f, err := os.Create(filename)
 	if err != nil {
 		log.Error("witness writing failed... ", err)
 		return err
 	}
+	defer closeFile(f, &err)
 
 	_, err = witness.WriteTo(f)
 	if err != nil {
@@ -105,11 +119,13 @@ func ReadPlonkCcs(filename string, ccs constraint.ConstraintSystem) error {
 	return err
 }
 
-func WritePlonkCcs(filename string, css constraint.ConstraintSystem) error {
+func WritePlonkCcs(filename string, css constraint.ConstraintSystem) (err error) {
 	f, err := os.Create(filename)
 	if err != nil {
 		return err
 	}
+	defer closeFile(f, &err)
+
 	_, err = css.WriteTo(f)
 	if err != nil {
 		return err
@@ -117,13 +133,12 @@ func WritePlonkCcs(filename string, css constraint.ConstraintSystem) error {
 	return nil
 }
 
-func WritePlonkVKSolidity(filename string, vk plonk.VerifyingKey) error {
+func WritePlonkVKSolidity(filename string, vk plonk.VerifyingKey) (err error) {
 	f, err := os.Create(filename)
 	if err != nil {
 		return err
 	}
-
-	defer f.Close()
+	defer closeFile(f, &err)
 
 	err = vk.ExportSolidity(f)
 
@@ -144,14 +159,13 @@ func ReadPlonkProofFromLocalFile(filename string, proof plonk.Proof) error {
 	return err
 }
 
-func WritePlonkProofIntoLocalFile(proof plonk.Proof, filename string) error {
+func WritePlonkProofIntoLocalFile(proof plonk.Proof, filename string) (err error) {
 	f, err := os.Create(filename)
 	if err != nil {
 		log.Error(err)
 		return err
 	}
-
-	defer f.Close()
+	defer closeFile(f, &err)
 
 	_, err = proof.WriteRawTo(f)
 
@@ -173,11 +187,13 @@ func ReadProvingKey(filename string, pk groth16.ProvingKey) error {
 	return err
 }
 
-func WriteProvingKey(filename string, pk groth16.ProvingKey) error {
+func WriteProvingKey(filename string, pk groth16.ProvingKey) (err error) {
 	f, err := os.Create(filename)
 	if err != nil {
 		return err
 	}
+	defer closeFile(f, &err)
+
 	_, err = pk.WriteTo(f)
 	if err != nil {
 		return err
@@ -196,12 +212,13 @@ func ReadVerifyingKey(filename string, vk groth16.VerifyingKey) error {
 	return err
 }
 
-func WriteVerifyingKey(filename string, vk groth16.VerifyingKey) error {
+func WriteVerifyingKey(filename string, vk groth16.VerifyingKey) (err error) {
 	f, err := os.Create(filename)
 	if err != nil {
 		log.Error("vk writing failed... ", err)
 		return err
 	}
+	defer closeFile(f, &err)
 
 	_, err = vk.WriteTo(f)
 	if err != nil {
@@ -222,11 +239,13 @@ func ReadCcs(filename string, ccs constraint.ConstraintSystem) error {
 	return err
 }
 
-func WriteCcs(filename string, css constraint.ConstraintSystem) error {
+func WriteCcs(filename string, css constraint.ConstraintSystem) (err error) {
 	f, err := os.Create(filename)
 	if err != nil {
 		return err
 	}
+	defer closeFile(f, &err)
+
 	_, err = css.WriteTo(f)
 	if err != nil {
 		return err
@@ -234,13 +253,12 @@ func WriteCcs(filename string, css constraint.ConstraintSystem) error {
 	return nil
 }
 
-func WriteVKSolidity(filename string, vk groth16.VerifyingKey) error {
+func WriteVKSolidity(filename string, vk groth16.VerifyingKey) (err error) {
 	f, err := os.Create(filename)
 	if err != nil {
 		return err
 	}
-
-	defer f.Close()
+	defer closeFile(f, &err)
 
 	err = vk.ExportSolidity(f)
 
@@ -261,14 +279,13 @@ func ReadProofFromLocalFile(filename string, proof groth16.Proof) error {
 	return err
 }
 
-func WriteProofIntoLocalFile(filename string, proof groth16.Proof) error {
+func WriteProofIntoLocalFile(filename string, proof groth16.Proof) (err error) {
 	f, err := os.Create(filename)
 	if err != nil {
 		log.Error(err)
 		return err
 	}
-
-	defer f.Close()
+	defer closeFile(f, &err)
 
 	_, err = proof.WriteRawTo(f)
 
@@ -283,14 +300,13 @@ func ReadPublicInputs(filename string) ([]byte, error) {
 	return os.ReadFile(filename)
 }
 
-func WritePublicInputs(filename string, publicInputs []byte) error {
+func WritePublicInputs(filename string, publicInputs []byte) (err error) {
 	f, err := os.Create(filename)
 	if err != nil {
 		log.Error(err)
 		return err
 	}
-
-	defer f.Close()
+	defer closeFile(f, &err)
 
 	_, err = f.Write(publicInputs)
 
-- 
2.43.0


From e60a3ac0c86cce9092e2f0b4fb69cc756054d841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:15 +0000
Subject: [PATCH 28/45] fix: CreateOrOpenFile keeps a file another process just
 created

---
 common/utils/utils.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/common/utils/utils.go b/common/utils/utils.go
index 32a162b..2cea5bf 100644
--- a/common/utils/utils.go
+++ b/common/utils/utils.go
@@ -155,7 +155,8 @@ func Recompose6BytesToNibbles(api frontend.API, d frontend.Variable) [12]fronten
 func CreateOrOpenFile(path string) (*os.File, error) {
 	f, err := os.Open(path)
 	if errors.Is(err, os.ErrNotExist) {
-		f, err = os.Create(path)
+		// another process may have created it meanwhile, keep what it wrote
+		f, err = os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0666)
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 1d762e2d293879493a6d61737fce8265069694c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:15 +0000
Subject: [PATCH 29/45] fix: ListObjects returns all objects, not the first
 1000

---
 common/s3api/client.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/common/s3api/client.go b/common/s3api/client.go
index ae6b386..bfa9f80 100644
--- a/common/s3api/client.go
+++ b/common/s3api/client.go
@@ -64,14 +64,19 @@ func NewClient(bucket string) (*Client, error) {
 }
 
 func (s *Client) ListObjects(prefix string) ([]*s3.Object, error) {
-	res, err := s.s3.ListObjects(&s3.ListObjectsInput{
+	// one response holds at most 1000 objects
+	var objects []*s3.Object
+	err := s.s3.ListObjectsPages(&s3.ListObjectsInput{
 		Bucket: aws.String(s.bucket),
 		Prefix: aws.String(prefix),
+	}, func(page *s3.ListObjectsOutput, lastPage bool) bool {
+		objects = append(objects, page.Contents...)
+		return true
 	})
 	if err != nil {
 		return nil, err
 	}
-	return res.Contents, nil
+	return objects, nil
 }
 
 func (s *Client) Upload(key string, body io.Reader) error {
-- 
2.43.0


From 24776fc608e3694926161ede8af9516ba8068e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:15 +0000
Subject: [PATCH 30/45] fix: a multi-part download comes from one version of
 the object

---
 common/s3api/client.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/common/s3api/client.go b/common/s3api/client.go
index bfa9f80..ca9b85b 100644
--- a/common/s3api/client.go
+++ b/common/s3api/client.go
@@ -3,9 +3,11 @@ package s3api
 import (
 	"io"
 	"os"
+	"sync"
 
 	"github.com/aws/aws-sdk-go/aws"
 	"github.com/aws/aws-sdk-go/aws/credentials"
+	"github.com/aws/aws-sdk-go/aws/request"
 	"github.com/aws/aws-sdk-go/aws/session"
 	"github.com/aws/aws-sdk-go/service/s3"
 	"github.com/aws/aws-sdk-go/service/s3/s3manager"
@@ -102,10 +104,23 @@ func (s *Client) HeadObject(filePath string) error {
 
 func (s *Client) Download(key string, w io.WriterAt) error {
 	log.Debugf("downloading file: bucket %s, key %s", s.bucket, key)
+	// big objects come in parts, all of them must be of the version the first one is of
+	var etag *string
+	var once sync.Once
+	pinVersion := func(r *request.Request) {
+		if in, ok := r.Params.(*s3.GetObjectInput); ok {
+			in.IfMatch = etag
+		}
+		r.Handlers.Complete.PushBack(func(r *request.Request) {
+			if out, ok := r.Data.(*s3.GetObjectOutput); ok && r.Error == nil {
+				once.Do(func() { etag = out.ETag })
+			}
+		})
+	}
 	_, err := s.downloader.Download(w, &s3.GetObjectInput{
 		Bucket: aws.String(s.bucket),
 		Key:    aws.String(key),
-	})
+	}, s3manager.WithDownloaderRequestOptions(pinVersion))
 	return err
 }
 
-- 
2.43.0


From 820a0f8e4f61352898b61961494def9fc7280f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:19 +0000
Subject: [PATCH 31/45] fix: GetSlot and GetBlock survive any response body

---
 common/eth/client.go | 41 ++++++++++++++++++++++-------------------
 1 file changed, 22 insertions(+), 19 deletions(-)

diff --git a/common/eth/client.go b/common/eth/client.go
index f7b7159..0a1fd78 100644
--- a/common/eth/client.go
+++ b/common/eth/client.go
@@ -58,20 +58,24 @@ func (ec *Client) GetSlot(block uint64) (uint64, bool) {
 	}
 	defer res.Body.Close()
 	resBody, _ := io.ReadAll(res.Body)
-	var jsonRes map[string]interface{}    // declaring a map for key names as string and values as interface
-	_ = json.Unmarshal(resBody, &jsonRes) // Unmarshalling
-	dataList := jsonRes["data"].([]interface{})
-	data := dataList[0].(map[string]interface{})
-	if data["posConsensus"] == nil {
+	var jsonRes struct {
+		Data []struct {
+			PosConsensus *struct {
+				Slot      *uint64 `json:"slot"`
+				Finalized *bool   `json:"finalized"`
+			} `json:"posConsensus"`
+		} `json:"data"`
+	}
+	err = json.Unmarshal(resBody, &jsonRes) // Unmarshalling
+	if err != nil || len(jsonRes.Data) == 0 || jsonRes.Data[0].PosConsensus == nil {
 		return 0, false
 	}
-	posConsensus := data["posConsensus"].(map[string]interface{})
-	slot := uint64(0)
-	finilized := false
-
-	slot = uint64(posConsensus["slot"].(float64))
-	finilized = posConsensus["finalized"].(bool)
-	return slot, finilized
+	slot := jsonRes.Data[0].PosConsensus.Slot
+	finilized := jsonRes.Data[0].PosConsensus.Finalized
+	if slot == nil || finilized == nil {
+		return 0, false
+	}
+	return *slot, *finilized
 }
 
 func (ec *Client) GetBlock(slot uint64) uint64 {
@@ -101,14 +105,13 @@ func (ec *Client) GetBlock(slot uint64) uint64 {
 	}
 	defer res.Body.Close()
 	resBody, _ := io.ReadAll(res.Body)
-	var jsonRes map[string]interface{}    // declaring a map for key names as string and values as interface
-	_ = json.Unmarshal(resBody, &jsonRes) // Unmarshalling
-	data := jsonRes["data"].(map[string]interface{})
-	if data == nil {
-		return 0
+	var jsonRes struct {
+		Data struct {
+			ExecBlockNumber uint64 `json:"exec_block_number"`
+		} `json:"data"`
 	}
-	if data["exec_block_number"] == nil {
+	if err = json.Unmarshal(resBody, &jsonRes); err != nil { // Unmarshalling
 		return 0
 	}
-	return uint64(data["exec_block_number"].(float64))
+	return jsonRes.Data.ExecBlockNumber
 }
-- 
2.43.0


From 3445fb1982213eeb140562189cb7dedfe4e41149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:23 +0000
Subject: [PATCH 32/45] fix: beaconcha.in requests time out and release their
 connection

---
 common/eth/client.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/common/eth/client.go b/common/eth/client.go
index 0a1fd78..033fec5 100644
--- a/common/eth/client.go
+++ b/common/eth/client.go
@@ -7,6 +7,7 @@ import (
 	"io"
 	"math/big"
 	"net/http"
+	"time"
 
 	"github.com/celer-network/goutils/log"
 	"github.com/ethereum/go-ethereum/common"
@@ -20,6 +21,9 @@ type IClient interface {
 	GetProof(ctx context.Context, account common.Address, keys []string, blockNumber *big.Int) (*gethclient.AccountResult, error)
 }
 
+// requestTimeout bounds the requests to beaconcha.in
+const requestTimeout = 30 * time.Second
+
 type Clients map[uint64]IClient
 
 type Client struct {
@@ -45,18 +49,18 @@ func (ec *Client) GetSlot(block uint64) (uint64, bool) {
 	}
 	// get slot based on block, see: https://beaconcha.in/api/v1/docs/index.html#/Execution/get_api_v1_execution_block__blockNumber_
 	url := fmt.Sprintf("https://%sbeaconcha.in/api/v1/execution/block/%d", prefix, block)
-	client := &http.Client{}
+	client := &http.Client{Timeout: requestTimeout}
 	req, _ := http.NewRequest("GET", url, nil)
 	res, err := client.Do(req)
 	if err != nil {
 		fmt.Println("Err is", err)
 		return 0, false
 	}
+	defer res.Body.Close()
 	if res.StatusCode != 200 {
 		log.Errorf("failed to curl slot by block: status code %d", res.StatusCode)
 		return 0, false
 	}
-	defer res.Body.Close()
 	resBody, _ := io.ReadAll(res.Body)
 	var jsonRes struct {
 		Data []struct {
@@ -92,18 +96,18 @@ func (ec *Client) GetBlock(slot uint64) uint64 {
 	}
 	// get slot based on block, see: https://beaconcha.in/api/v1/docs/index.html#/Slot/get_api_v1_slot__slotOrHash_
 	url := fmt.Sprintf("https://%sbeaconcha.in/api/v1/slot/%d", prefix, slot)
-	client := &http.Client{}
+	client := &http.Client{Timeout: requestTimeout}
 	req, _ := http.NewRequest("GET", url, nil)
 	res, err := client.Do(req)
 	if err != nil {
 		fmt.Println("Err is", err)
 		return 0
 	}
+	defer res.Body.Close()
 	if res.StatusCode != 200 {
 		log.Errorf("failed to curl block by slot: status code %d", res.StatusCode)
 		return 0
 	}
-	defer res.Body.Close()
 	resBody, _ := io.ReadAll(res.Body)
 	var jsonRes struct {
 		Data struct {
-- 
2.43.0


From 15c189c573e9ac072d0ebb93140be4be61c7e605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:37 +0000
Subject: [PATCH 33/45] fix: no merkle proof for a transaction or receipt the
 block lacks

---
 common/proof/tx_merkel_proof.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/common/proof/tx_merkel_proof.go b/common/proof/tx_merkel_proof.go
index be7a453..e3e3171 100644
--- a/common/proof/tx_merkel_proof.go
+++ b/common/proof/tx_merkel_proof.go
@@ -28,6 +28,11 @@ func (p *ProofWriter) Delete(key []byte) error {
 }
 
 func GetTransactionProof(bk *types.Block, index int) (nodes [][]byte, keyIndex, leafRlpPrefix []byte, err error) {
+	if index < 0 || index >= len(bk.Transactions()) {
+		err = fmt.Errorf("no transaction of index %d in blk %d", index, bk.NumberU64())
+		return
+	}
+
 	var indexBuf []byte
 	keyIndex = rlp.AppendUint64(indexBuf[:0], uint64(index))
 
@@ -61,6 +66,11 @@ func GetTransactionProof(bk *types.Block, index int) (nodes [][]byte, keyIndex,
 }
 
 func GetReceiptProof(bk *types.Block, receipts types.Receipts, index int) (nodes [][]byte, keyIndex, leafRlpPrefix []byte, err error) {
+	if index < 0 || index >= len(receipts) {
+		err = fmt.Errorf("no receipt of index %d in blk %d", index, bk.NumberU64())
+		return
+	}
+
 	var indexBuf []byte
 	keyIndex = rlp.AppendUint64(indexBuf[:0], uint64(index))
 
-- 
2.43.0


From 0d6f45a869b56afc1cf36d3d6b0e3cc1f0a748cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:38 +0000
Subject: [PATCH 34/45] fix: GetReceiptRaw refuses unknown types and does not
 grow with the index

---
 common/proof/tx_merkel_proof.go | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/common/proof/tx_merkel_proof.go b/common/proof/tx_merkel_proof.go
index e3e3171..d3f53b4 100644
--- a/common/proof/tx_merkel_proof.go
+++ b/common/proof/tx_merkel_proof.go
@@ -1,7 +1,6 @@
 package proof
 
 import (
-	"bytes"
 	"fmt"
 
 	"github.com/ethereum/go-ethereum/triedb"
@@ -107,12 +106,5 @@ func GetReceiptRaw(receipt *types.Receipt) ([]byte, error) {
 	if receipt == nil {
 		return nil, fmt.Errorf("empty receipt")
 	}
-	var receipts types.Receipts
-	for i := 0; i < int(receipt.TransactionIndex); i++ {
-		receipts = append(receipts, nil)
-	}
-	receipts = append(receipts, receipt)
-	var buffer bytes.Buffer
-	receipts.EncodeIndex(int(receipt.TransactionIndex), &buffer)
-	return buffer.Bytes(), nil
+	return receipt.MarshalBinary()
 }
-- 
2.43.0


From 728dab0bc7beb2673e820e3b242ce1fd1a5fb693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:01 +0000
Subject: [PATCH 35/45] fix: recover signers of valid signatures only, without
 panics

---
 common/proof/util.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/common/proof/util.go b/common/proof/util.go
index 29f7146..d41f0d5 100644
--- a/common/proof/util.go
+++ b/common/proof/util.go
@@ -90,8 +90,12 @@ func RecoverTransactionSignerAddress(transaction *ethtypes.Transaction) ([]byte,
 	v, r, s := transaction.RawSignatureValues()
 
 	if transactionType == types.LegacyTxType {
-		actualV := v.Uint64() - 35 - transaction.ChainId().Uint64()*2
-		v = new(big.Int).SetUint64(actualV)
+		// 35 + chainId * 2 + y parity
+		v = new(big.Int).Sub(v, big.NewInt(35))
+		v.Sub(v, new(big.Int).Lsh(transaction.ChainId(), 1))
+	}
+	if v.BitLen() > 8 || v.Sign() < 0 || !crypto.ValidateSignatureValues(byte(v.Uint64()), r, s, true) {
+		return nil, ethtypes.ErrInvalidSig
 	}
 
 	var rBuf [32]byte
-- 
2.43.0


From 2db229d3ed56ff1fb828db8e17099c217fecffc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:02 +0000
Subject: [PATCH 36/45] fix: EncodeHeaders refuses headers it cannot encode

---
 circuits/fabric/smt/utils.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/circuits/fabric/smt/utils.go b/circuits/fabric/smt/utils.go
index ce88e17..ed6205c 100644
--- a/circuits/fabric/smt/utils.go
+++ b/circuits/fabric/smt/utils.go
@@ -41,6 +41,9 @@ func EncodeHeaders(headers []types.Header) (encoded [][]frontend.Variable, idxs
 			err = encodeErr
 			return
 		}
+		if len(headerRLP) >= 5*136 {
+			return nil, nil, fmt.Errorf("header rlp len %d does not fit 5 keccak blocks", len(headerRLP))
+		}
 		padded := circuits.Pad101Bytes(headerRLP)
 		paddedBits := circuits.Bytes2BlockBits(padded)
 		var fv []frontend.Variable
@@ -58,6 +61,10 @@ func EncodeHeaders(headers []types.Header) (encoded [][]frontend.Variable, idxs
 }
 
 func checkDynamicFieldLen(h types.Header) bool {
+	if h.Difficulty == nil || h.Number == nil || h.BaseFee == nil {
+		fmt.Println("header lacks difficulty, number or base fee")
+		return false
+	}
 	hasErr := 0
 	hasErr += checkLen("Difficulty", len(h.Difficulty.Bytes()), 7)
 	hasErr += checkLen("Number", len(h.Number.Bytes()), 8)
-- 
2.43.0


From 18fa5ffeab464b3144e86c1f83f4e8b2665d61c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:15 +0000
Subject: [PATCH 37/45] fix: the Poseidon hasher keeps what was written, not
 the caller's number

---
 common/utils/poseidon_bn254.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/utils/poseidon_bn254.go b/common/utils/poseidon_bn254.go
index 1e72e45..1349e97 100644
--- a/common/utils/poseidon_bn254.go
+++ b/common/utils/poseidon_bn254.go
@@ -14,7 +14,7 @@ func NewPoseidonBn254() *PoseidonBn254Hasher {
 }
 
 func (p *PoseidonBn254Hasher) Write(input *big.Int) {
-	p.preimages = append(p.preimages, input)
+	p.preimages = append(p.preimages, new(big.Int).Set(input))
 }
 
 func (p *PoseidonBn254Hasher) Reset() {
-- 
2.43.0


From d09dbb1e50d018f8f0223f0a34d9b2d6a824f485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:15 +0000
Subject: [PATCH 38/45] fix: Pad101Bytes leaves the caller's buffer alone

---
 circuits/gadgets/keccak/periphery.go | 3 ++-
 common/circuits/keccak.go            | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/circuits/gadgets/keccak/periphery.go b/circuits/gadgets/keccak/periphery.go
index 7c97e92..ddee9f1 100644
--- a/circuits/gadgets/keccak/periphery.go
+++ b/circuits/gadgets/keccak/periphery.go
@@ -24,7 +24,8 @@ func Pad101Bytes(data []byte) []byte {
 	if len(data)%136 == 0 {
 		miss = 136
 	}
-	data = append(data, 1)
+	// the caller may go on using what follows data in its array
+	data = append(data[:len(data):len(data)], 1)
 	for i := 0; i < miss-1; i++ {
 		data = append(data, 0)
 	}
diff --git a/common/circuits/keccak.go b/common/circuits/keccak.go
index 5ebb751..39c1b13 100644
--- a/common/circuits/keccak.go
+++ b/common/circuits/keccak.go
@@ -9,7 +9,8 @@ func Pad101Bytes(data []byte) []byte {
 	if len(data)%136 == 0 {
 		miss = 136
 	}
-	data = append(data, 1)
+	// the caller may go on using what follows data in its array
+	data = append(data[:len(data):len(data)], 1)
 	for i := 0; i < miss-1; i++ {
 		data = append(data, 0)
 	}
-- 
2.43.0


From 4163d011bbcc28207c53d87a78d3f5529a327960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:29 +0000
Subject: [PATCH 39/45] fix: ContractCodec hands out copies of its selectors

---
 common/utils/contract_codec.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/utils/contract_codec.go b/common/utils/contract_codec.go
index 90dc59c..29aff28 100644
--- a/common/utils/contract_codec.go
+++ b/common/utils/contract_codec.go
@@ -25,7 +25,7 @@ func (c *ContractCodec) ABI() *abi.ABI {
 }
 
 func (c *ContractCodec) Selector(methodName string) []byte {
-	return c.abi.Methods[methodName].ID
+	return append([]byte(nil), c.abi.Methods[methodName].ID...)
 }
 
 func (c *ContractCodec) EncodeCalldata(methodName string, args ...interface{}) ([]byte, error) {
@@ -37,7 +37,7 @@ func (c *ContractCodec) EncodeCalldata(methodName string, args ...interface{}) (
 	if err != nil {
 		return nil, err
 	}
-	return append(method.ID, inputs...), nil
+	return append(c.Selector(methodName), inputs...), nil
 }
 
 func (c *ContractCodec) DecodeCalldata(methodName string, data []byte, ptrs ...interface{}) error {
-- 
2.43.0


From c2f6462440c858923e9b1ad915d902cbe082aad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:58 +0000
Subject: [PATCH 40/45] fix: no query commitment for negative or malformed
 numbers

---
 common/proof/query_id.go | 6 +++++-
 common/utils/compose.go  | 3 +++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/common/proof/query_id.go b/common/proof/query_id.go
index 6016fd2..9a75229 100644
--- a/common/proof/query_id.go
+++ b/common/proof/query_id.go
@@ -1,6 +1,7 @@
 package proof
 
 import (
+	"fmt"
 	"math/big"
 
 	"github.com/brevis-network/zk-utils/common/utils"
@@ -78,7 +79,10 @@ func MiMCHashStorageCustomInputs(
 	var slot = utils.ParseBytes32(GetPaddedSlotBytes(data.Slot), 248)
 	bits = append(bits, utils.Byte32ToFrBits(slot, 248)...)
 
-	storageValue, _ := new(big.Int).SetString(data.SlotValue, 10)
+	storageValue, ok := new(big.Int).SetString(data.SlotValue, 10)
+	if !ok || storageValue.Sign() < 0 {
+		return nil, fmt.Errorf("invalid slot value %s", data.SlotValue)
+	}
 
 	var value = utils.ParseBytes32(storageValue.Bytes(), 248)
 	bits = append(bits, utils.Byte32ToFrBits(value, 248)...)
diff --git a/common/utils/compose.go b/common/utils/compose.go
index 585d162..685f524 100644
--- a/common/utils/compose.go
+++ b/common/utils/compose.go
@@ -27,6 +27,9 @@ func decompose[T uint | byte](data *big.Int, bitSize uint, length int) []T {
 		panic(fmt.Errorf("decomposed integer (bit len %d) does not fit into output (bit len %d, length %d)",
 			data.BitLen(), bitSize, length))
 	}
+	if data.Sign() < 0 {
+		panic(fmt.Errorf("decomposed integer is negative"))
+	}
 	decomposed := make([]T, length)
 	base := new(big.Int).Lsh(big.NewInt(1), bitSize)
 	d := new(big.Int).Set(data)
-- 
2.43.0


From d9077a0c77b2e2d9bc3c3665b9426bdb351ffe98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:58 +0000
Subject: [PATCH 41/45] fix: EncodeABI keeps block numbers above 2^63

---
 common/proof/types.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/proof/types.go b/common/proof/types.go
index 640f609..9bf473d 100644
--- a/common/proof/types.go
+++ b/common/proof/types.go
@@ -175,9 +175,9 @@ func (p *ChunkProof) EncodeABI() []byte {
 	args = append(args, prevHash[0:16], prevHash[16:])
 	endHash := utils.Hex2Hash(p.EndHash)
 	args = append(args, endHash[0:16], endHash[16:])
-	startBlockNum := big.NewInt(int64(p.StartBlockNum)).Bytes()
+	startBlockNum := new(big.Int).SetUint64(p.StartBlockNum).Bytes()
 	args = append(args, startBlockNum)
-	endBlockNum := big.NewInt(int64(p.EndBlockNum)).Bytes()
+	endBlockNum := new(big.Int).SetUint64(p.EndBlockNum).Bytes()
 	args = append(args, endBlockNum)
 
 	var ret []byte
-- 
2.43.0


From f8af415a9d5d22c8b5af6f46cffe846a7a78748a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:34 +0000
Subject: [PATCH 42/45] fix: GenerateBls12377Hash hashes every part of its
 input

---
 common/utils/binary.go | 2 +-
 common/utils/utils.go  | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/common/utils/binary.go b/common/utils/binary.go
index ba021f6..0b6ee43 100644
--- a/common/utils/binary.go
+++ b/common/utils/binary.go
@@ -59,7 +59,7 @@ func BitsToFrBigInt(b []uint, frModulus *big.Int) *big.Int {
 			var decimal = big.NewInt(1)
 			decimal.Lsh(decimal, uint(lens-i-1))
 			res.Add(res, decimal)
-			if res.Cmp(frModulus) > 0 {
+			if res.Cmp(frModulus) >= 0 {
 				res.Mod(res, frModulus)
 			}
 		}
diff --git a/common/utils/utils.go b/common/utils/utils.go
index 2cea5bf..6ecdc2b 100644
--- a/common/utils/utils.go
+++ b/common/utils/utils.go
@@ -182,9 +182,9 @@ func GenerateBls12377Hash(input []byte) []byte {
 	var i int
 	for i < len(bits) {
 		if i+bitSize > len(bits) {
-			frDataArray = append(frDataArray, BitsToFrBigInt(bits[i:], ecc.BN254.ScalarField()))
+			frDataArray = append(frDataArray, BitsToFrBigInt(bits[i:], ecc.BLS12_377.ScalarField()))
 		} else {
-			frDataArray = append(frDataArray, BitsToFrBigInt(bits[i:i+bitSize], ecc.BN254.ScalarField()))
+			frDataArray = append(frDataArray, BitsToFrBigInt(bits[i:i+bitSize], ecc.BLS12_377.ScalarField()))
 		}
 		i += bitSize
 	}
-- 
2.43.0


From c791f26e1d4fdf2c5a8f14320c52e98da579b8a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:05 +0000
Subject: [PATCH 43/45] fix: reduce the Ed25519 hash in a way the prover can
 follow

---
 circuits/gadgets/ed25519/ed25519.go | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/circuits/gadgets/ed25519/ed25519.go b/circuits/gadgets/ed25519/ed25519.go
index 10291b4..52ff739 100644
--- a/circuits/gadgets/ed25519/ed25519.go
+++ b/circuits/gadgets/ed25519/ed25519.go
@@ -3,6 +3,7 @@ package ed25519
 import (
 	"errors"
 	"fmt"
+	"math/big"
 
 	sha512 "github.com/brevis-network/zk-utils/circuits/gadgets/sha512"
 
@@ -119,6 +120,28 @@ func (e *Ed25519) recomposePbKey(vbs []frontend.Variable) []frontend.Variable {
 	return result[:]
 }
 
+// reduceHash returns the 512-bit little-endian number modulo the group order.
+func (e *Ed25519) reduceHash(bits []frontend.Variable) *emulated.Element[Ed25519Fr] {
+	const w = 252
+	f := e.fp.scalarField
+	var sum *emulated.Element[Ed25519Fr]
+	for i := 0; i < len(bits); i += w {
+		limbBits := make([]frontend.Variable, 255)
+		n := copy(limbBits, bits[i:min(i+w, len(bits))])
+		for j := n; j < len(limbBits); j++ {
+			limbBits[j] = 0
+		}
+		part := f.FromBits(limbBits...)
+		if i == 0 {
+			sum = part
+			continue
+		}
+		weight := emulated.ValueOf[Ed25519Fr](new(big.Int).Lsh(big.NewInt(1), uint(i)))
+		sum = f.Add(sum, f.Mul(part, &weight))
+	}
+	return f.Reduce(sum)
+}
+
 func (e *Ed25519) Verify(
 	originPubs []frontend.Variable,
 	sig Signature,
@@ -149,8 +172,7 @@ func (e *Ed25519) Verify(
 		bits = append(bits, e.api.ToBinary(hRam[i], 8)...)
 	}
 
-	hRamScalar := e.fp.scalarField.FromBitsOverflow(bits...)
-	hRamScalar = e.fp.scalarField.Reduce(hRamScalar)
+	hRamScalar := e.reduceHash(bits)
 
 	baseX := emulated.ValueOf[Ed25519Fp](curve.Params().Base[0])
 	baseY := emulated.ValueOf[Ed25519Fp](curve.Params().Base[1])
-- 
2.43.0


From 7223021c9d9e6150e0fdff83959041a4c2d1ddbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:07 +0000
Subject: [PATCH 44/45] fix: Ed25519 verification takes curve points, canonical
 coordinates and S below the order only

---
 circuits/gadgets/ed25519/ed25519.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/circuits/gadgets/ed25519/ed25519.go b/circuits/gadgets/ed25519/ed25519.go
index 52ff739..8fb329e 100644
--- a/circuits/gadgets/ed25519/ed25519.go
+++ b/circuits/gadgets/ed25519/ed25519.go
@@ -58,6 +58,8 @@ func (e *Ed25519) bytes(v *Point) [32]frontend.Variable {
 }
 
 func (e *Ed25519) copyFieldElement(v *emulated.Element[Ed25519Fp]) [32]frontend.Variable {
+	// only the canonical representative has the right bytes and sign
+	e.fp.baseField.AssertIsInRange(v)
 	bits := e.fp.baseField.ToBits(v)
 
 	var buf [32]frontend.Variable
@@ -153,6 +155,12 @@ func (e *Ed25519) Verify(
 		panic("new twistededwards curve failed")
 	}
 
+	// the addition formulas hold for points of the curve only
+	curve.AssertIsOnCurve(sig.R)
+	curve.AssertIsOnCurve(pubKey.A)
+	// 0 <= S < L, otherwise signatures are malleable
+	e.fp.scalarField.AssertIsInRange(e.fp.scalarField.FromBits(e.api.ToBinary(sig.S)...))
+
 	hash := sha512.New(e.api)
 	sigBytes := e.bytes(&sig.R)
 	pubKeyBytes := e.bytes(&pubKey.A)
-- 
2.43.0


From e939ec96306214ed52fef6599472a5d89235e31d Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 06:05:34 +0000
Subject: [PATCH 45/45] fix: bytes decoded by ContractCodec stay what they were

---
 common/utils/contract_codec.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/common/utils/contract_codec.go b/common/utils/contract_codec.go
index 29aff28..aadcac8 100644
--- a/common/utils/contract_codec.go
+++ b/common/utils/contract_codec.go
@@ -65,7 +65,8 @@ func (c *ContractCodec) EncodeReturnData(methodName string, ifaces ...interface{
 }
 
 func decodeArgs(args abi.Arguments, data []byte, ptrs ...interface{}) error {
-	unpacked, err := args.Unpack(data)
+	// unpacked bytes point into what they were unpacked from, which belongs to the caller
+	unpacked, err := args.Unpack(append([]byte(nil), data...))
 	if err != nil {
 		return err
 	}
-- 
2.43.0

