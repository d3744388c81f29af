From 7c9f4cdbdf04b6dcb99767a5ce8f842de15c61c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:20 +0000
Subject: [PATCH 01/55] fix: write the exponent length of reals whose exponent
 needs two octets

---
 asn1/encode.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/asn1/encode.go b/asn1/encode.go
index c9426eb..0ef43c0 100755
--- a/asn1/encode.go
+++ b/asn1/encode.go
@@ -222,6 +222,7 @@ func (asn *ASNWriter) WriteReal(r float64) errors.Error {
 	if r < 0 {
 		preamble |= 0x40
 	}
+	preamble |= uint8(expSize - 1)
 	asn.WriteByte(preamble)
 
 	for i := 0; i < expSize; i++ {
-- 
2.43.0


From b2589bd253cb0512e84ef656119a38071f02dc19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:20 +0000
Subject: [PATCH 02/55] fix: write lengths of 64 KB and more with the right
 length-of-length

---
 asn1/encode.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/asn1/encode.go b/asn1/encode.go
index 0ef43c0..b292632 100755
--- a/asn1/encode.go
+++ b/asn1/encode.go
@@ -260,7 +260,7 @@ func (asn *ASNWriter) writeLength(len int) errors.Error {
 		}
 		err = asn.data.WriteByte(byte(len & 0xFF))
 	} else if len <= 0xffffff {
-		err = asn.data.WriteByte(0x82)
+		err = asn.data.WriteByte(0x83)
 		if err != nil {
 			return errors.NewError(err)
 		}
@@ -273,6 +273,10 @@ func (asn *ASNWriter) writeLength(len int) errors.Error {
 			return errors.NewError(err)
 		}
 		err = asn.data.WriteByte(byte(len & 0xFF))
+	} else if uint64(len) <= 0xffffffff {
+		_, err = asn.data.Write([]byte{0x84, byte(len >> 24), byte(len >> 16), byte(len >> 8), byte(len)})
+	} else {
+		return errors.New("Length %d too big", len)
 	}
 	return errors.NewError(err)
 }
-- 
2.43.0


From 07f8aa9b9ef153ae24a7978674faca7ba15e11ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:20 +0000
Subject: [PATCH 03/55] fix: encode the OID arc 127 in one octet

---
 asn1/encode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1/encode.go b/asn1/encode.go
index b292632..66c5e42 100755
--- a/asn1/encode.go
+++ b/asn1/encode.go
@@ -337,7 +337,7 @@ func (asn *ASNWriter) WriteRelativeOID(oid RelativeOID) errors.Error {
 		val := oid[i]
 		encodedBytes := make([]byte, 0)
 		for {
-			if val < 0x7F {
+			if val <= 0x7F {
 				break
 			}
 			encodedBytes = append(encodedBytes, byte(val&0x7F))
-- 
2.43.0


From c0df1072b50e67687facb4a1bd992e695f670bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:21 +0000
Subject: [PATCH 04/55] fix: write the length octet of NULL

---
 asn1/encode.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/asn1/encode.go b/asn1/encode.go
index 66c5e42..4b263c8 100755
--- a/asn1/encode.go
+++ b/asn1/encode.go
@@ -121,7 +121,10 @@ func (asn *ASNWriter) WriteInt64(i int64) errors.Error {
 
 func (asn *ASNWriter) WriteNull() errors.Error {
 	err := asn.data.WriteByte(EMBER_NULL)
-	return errors.NewError(err)
+	if err != nil {
+		return errors.NewError(err)
+	}
+	return asn.writeLength(0)
 }
 
 func (asn *ASNWriter) WriteEnum(i int) errors.Error {
-- 
2.43.0


From e7e461aec131dbabfff249f216cc39a20e1860c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:42 +0000
Subject: [PATCH 05/55] fix: report truncated and empty integers and booleans
 as errors

---
 asn1/decode.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/asn1/decode.go b/asn1/decode.go
index 4ff5426..c173173 100755
--- a/asn1/decode.go
+++ b/asn1/decode.go
@@ -70,7 +70,7 @@ func (a *ASNReader) ReadBoolean() (bool, errors.Error) {
 		return false, errors.New("Invalid boolean length %d at offset %d", l, offset)
 	}
 	b, e := a.ReadByte()
-	if err != nil {
+	if e != nil {
 		return false, errors.Update(e)
 	}
 	if b == 0 {
@@ -217,10 +217,16 @@ func (a *ASNReader) ReadInt() (int, errors.Error) {
 	if l > 4 {
 		return 0, errors.New("Integer length too big %d at offset %d", l, offset)
 	}
+	if l < 1 {
+		return 0, errors.New("Invalid integer length %d at offset %d", l, offset)
+	}
 
 	var b byte
 	val := int(0)
 	b, err = a.ReadByte()
+	if err != nil {
+		return 0, errors.Update(err)
+	}
 	if b&0x80 > 0 {
 		val = -1
 	}
@@ -241,6 +247,9 @@ func (a *ASNReader) readInt64(l int) (int64, errors.Error) {
 	if l > 8 {
 		return 0, errors.New("Integer length too big %d at offset %d.", l, a.TopOffset())
 	}
+	if l < 1 {
+		return 0, errors.New("Invalid integer length %d at offset %d.", l, a.TopOffset())
+	}
 	var b byte
 	val := int64(0)
 	b, err := a.ReadByte()
@@ -283,7 +292,7 @@ func (a *ASNReader) ReadInt64() (int64, errors.Error) {
 	}
 
 	val, err := a.readInt64(l)
-	return val, nil
+	return val, errors.Update(err)
 }
 
 func (a *ASNReader) ReadIndifiniteLengthData() ([]byte, errors.Error) {
-- 
2.43.0


From 02845e5b467aecee330a8ac850d089992bd9c1e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:42 +0000
Subject: [PATCH 06/55] fix: terminate and report errors on malformed reals

---
 asn1/decode.go | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/asn1/decode.go b/asn1/decode.go
index c173173..b5311d5 100755
--- a/asn1/decode.go
+++ b/asn1/decode.go
@@ -383,7 +383,7 @@ func (a *ASNReader) ReadReal() (float64, errors.Error) {
 	}
 
 	buf, e := a.readStringBuffer()
-	if e != nil || buf == nil {
+	if e != nil || len(buf) == 0 {
 		return 0.0, errors.Update(e)
 	}
 
@@ -401,6 +401,10 @@ func (a *ASNReader) ReadReal() (float64, errors.Error) {
 		}
 	}
 
+	if preamble&0xB0 != 0x80 {
+		return math.NaN(), errors.New("Unsupported real encoding 0x%x", preamble)
+	}
+
 	var sign int = -1
 	if preamble&0x40 == 0 {
 		sign = 1
@@ -423,14 +427,35 @@ func (a *ASNReader) ReadReal() (float64, errors.Error) {
 		pos++
 	}
 
+	if exponent < -1023 || exponent > 1023 {
+		return math.NaN(), errors.New("Real exponent %d out of range", exponent)
+	}
+
+	if len(buf) == pos || len(buf)-pos > 8 {
+		return math.NaN(), errors.New("Invalid real mantissa length %d", len(buf)-pos)
+	}
+
 	significand := uint64(0)
 	for pos < len(buf) {
 		significand = (significand << 8) | uint64(buf[pos])
 		pos++
 	}
 
+	if significand == 0 {
+		return 0.0, nil
+	}
+
+	// drop the bits a float64 can't hold
+	for significand > 0x001FFFFFFFFFFFFF {
+		significand >>= 1
+	}
+
 	significand = significand << significandShift
 
+	for significand > 0x001FFFFFFFFFFFFF {
+		significand >>= 1
+	}
+
 	mask := uint64(0x7FFFF00000000000)
 	for significand&mask == 0 {
 		significand <<= 8
-- 
2.43.0


From b1eb6e3f4ca5b1756ba16dd002268b699975ea87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:42 +0000
Subject: [PATCH 07/55] fix: reject lengths beyond the end of the data

---
 asn1/decode.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/asn1/decode.go b/asn1/decode.go
index b5311d5..519314c 100755
--- a/asn1/decode.go
+++ b/asn1/decode.go
@@ -7,6 +7,9 @@ import (
 	"github.com/dufourgilles/emberlib/errors"
 )
 
+// how many bytes a container may announce beyond the data left; they read as 0.
+const maxMissingBytes = 8
+
 type ASNReader struct {
 	data           *bytes.Reader
 	startingOffset int
@@ -30,11 +33,16 @@ func (a *ASNReader) TopOffset() int {
 }
 
 func (a *ASNReader) NewReader(length int) (*ASNReader, errors.Error) {
+	offset := a.TopOffset()
 	if length <= 0 {
-		return NewASNReader([]byte{}), nil
+		newReader := NewASNReader([]byte{})
+		newReader.startingOffset = offset
+		return newReader, nil
+	}
+	if length > a.Len()+maxMissingBytes {
+		return nil, errors.New("Length %d at offset %d exceeds the %d bytes left", length, offset, a.Len())
 	}
 	b := make([]byte, length)
-	offset := a.TopOffset()
 	_, err := a.data.Read(b)
 	if err != nil {
 		return nil, errors.New("Failed To read byte at offset %d. %s", a.TopOffset(), err)
@@ -153,6 +161,9 @@ func (a *ASNReader) ReadSequenceStart(tag uint8) (int, *ASNReader, errors.Error)
 		return -1, a, errors.New("Sequence TAG mismatch at offset %d. Got %d instead of %d", offset, b, tag)
 	}
 	length, err := a.ReadLength()
+	if err != nil {
+		return -1, nil, errors.Update(err)
+	}
 	if length >= 0 {
 		newReader, err := a.NewReader(length)
 
@@ -332,6 +343,9 @@ func (a *ASNReader) readStringBuffer() ([]byte, errors.Error) {
 	} else if l == 0 {
 		return nil, nil
 	}
+	if l > a.Len() {
+		return nil, errors.New("Length %d at offset %d exceeds the %d bytes left", l, a.TopOffset(), a.Len())
+	}
 	b = make([]byte, l)
 	for i := 0; i < l; i++ {
 		b[i], err = a.ReadByte()
-- 
2.43.0


From 224759ec7c974de51abecd2cf5dd39badaec5f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:43 +0000
Subject: [PATCH 08/55] fix: check the tag of OIDs and reject incomplete or
 oversized components

---
 asn1/decode.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/asn1/decode.go b/asn1/decode.go
index 519314c..344747b 100755
--- a/asn1/decode.go
+++ b/asn1/decode.go
@@ -90,10 +90,13 @@ func (a *ASNReader) ReadBoolean() (bool, errors.Error) {
 func (a *ASNReader) ReadOID(tag uint8) (RelativeOID, errors.Error) {
 	var oid RelativeOID
 	offset := a.TopOffset()
-	tag, err := a.ReadByte()
+	b, err := a.ReadByte()
 	if err != nil {
 		return nil, errors.New("Failed to read OID tag at offset %d. %s", offset, err)
 	}
+	if b != tag {
+		return nil, errors.New("Incorrect OID tag %d at offset %d.", b, offset)
+	}
 	buf, err := a.readStringBuffer()
 	if err != nil {
 		return nil, errors.Update(err)
@@ -102,6 +105,9 @@ func (a *ASNReader) ReadOID(tag uint8) (RelativeOID, errors.Error) {
 	value := int32(0)
 	for i := 0; i < len(buf); i++ {
 		b := buf[i] & 0xff
+		if value > math.MaxInt32>>7 {
+			return nil, errors.New("OID component too big at offset %d", offset)
+		}
 		value <<= 7
 		value += int32(b & 0x7f)
 		if b&0x80 == 0 {
@@ -109,6 +115,9 @@ func (a *ASNReader) ReadOID(tag uint8) (RelativeOID, errors.Error) {
 			value = 0
 		}
 	}
+	if len(buf) > 0 && buf[len(buf)-1]&0x80 != 0 {
+		return nil, errors.New("Truncated OID at offset %d", offset)
+	}
 
 	return oid, nil
 }
-- 
2.43.0


From b6d8eb191f15fed6451a39a490a9134d990f0410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:58 +0000
Subject: [PATCH 09/55] fix: report sequences whose end marker is missing

---
 asn1/decode.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/asn1/decode.go b/asn1/decode.go
index 344747b..2aece4a 100755
--- a/asn1/decode.go
+++ b/asn1/decode.go
@@ -14,6 +14,8 @@ type ASNReader struct {
 	data           *bytes.Reader
 	startingOffset int
 	len            int
+	// number of indefinite length sequences started and not ended yet
+	openSequences int
 }
 
 func NewASNReader(p []byte) *ASNReader {
@@ -178,6 +180,7 @@ func (a *ASNReader) ReadSequenceStart(tag uint8) (int, *ASNReader, errors.Error)
 
 		return length, newReader, err
 	}
+	a.openSequences++
 	return length, a, nil
 }
 
@@ -197,6 +200,9 @@ func (a *ASNReader) ReadSequenceEnd() errors.Error {
 
 func (a *ASNReader) CheckSequenceEnd() (bool, errors.Error) {
 	if a.Len() == 0 {
+		if a.openSequences > 0 {
+			return false, errors.New("Sequence End missing at offset %d.", a.TopOffset())
+		}
 		return true, nil
 	}
 	x1, err := a.data.ReadByte()
@@ -216,6 +222,9 @@ func (a *ASNReader) CheckSequenceEnd() (bool, errors.Error) {
 		a.data.UnreadByte()
 		return false, nil
 	}
+	if a.openSequences > 0 {
+		a.openSequences--
+	}
 	return true, nil
 }
 
@@ -318,6 +327,7 @@ func (a *ASNReader) ReadInt64() (int64, errors.Error) {
 func (a *ASNReader) ReadIndifiniteLengthData() ([]byte, errors.Error) {
 	var b byte
 	ret := make([]byte, 0)
+	a.openSequences++
 	for {
 		end, err := a.CheckSequenceEnd()
 		if err != nil {
-- 
2.43.0


From 2e7d9404e204e8b286c47c560b78fe21c2fc4b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:48 +0000
Subject: [PATCH 10/55] fix: encode and decode subnormal reals by their value

---
 asn1/decode.go | 8 +++++++-
 asn1/encode.go | 9 +++++++++
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/asn1/decode.go b/asn1/decode.go
index 2aece4a..fb0bb04 100755
--- a/asn1/decode.go
+++ b/asn1/decode.go
@@ -460,7 +460,7 @@ func (a *ASNReader) ReadReal() (float64, errors.Error) {
 		pos++
 	}
 
-	if exponent < -1023 || exponent > 1023 {
+	if exponent < -1074 || exponent > 1023 {
 		return math.NaN(), errors.New("Real exponent %d out of range", exponent)
 	}
 
@@ -499,6 +499,12 @@ func (a *ASNReader) ReadReal() (float64, errors.Error) {
 		significand <<= 1
 	}
 
+	if exponent < -1022 {
+		// subnormal: no implicit leading 1
+		significand >>= uint(-1022 - exponent)
+		exponent = -1023
+	}
+
 	significand = significand & uint64(0x000FFFFFFFFFFFFF)
 	longExponent := uint64(exponent)
 	bits := ((longExponent + 1023) << 52) | significand
diff --git a/asn1/encode.go b/asn1/encode.go
index 4b263c8..8df7c34 100755
--- a/asn1/encode.go
+++ b/asn1/encode.go
@@ -207,6 +207,15 @@ func (asn *ASNWriter) WriteReal(r float64) errors.Error {
 	bits := math.Float64bits(r)
 	significand := (uint64(0x000FFFFFFFFFFFFF) & bits) | 0x0010000000000000
 	exponent := int(((uint64(0x7FF0000000000000) & bits) >> 52)) - 1023
+	if exponent == -1023 {
+		// subnormal: there is no implicit leading 1
+		significand &= 0x000FFFFFFFFFFFFF
+		exponent = -1022
+		for significand&0x0010000000000000 == 0 {
+			significand <<= 1
+			exponent--
+		}
+	}
 
 	for significand&uint64(0xFF) == 0 {
 		significand = significand >> 8
-- 
2.43.0


From f26bce3ab154c5660d0571b34063da8ba5e95db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:14 +0000
Subject: [PATCH 11/55] fix: take 00 00 for an end marker only inside
 indefinite sequences

---
 asn1/decode.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/asn1/decode.go b/asn1/decode.go
index fb0bb04..3ff8f11 100755
--- a/asn1/decode.go
+++ b/asn1/decode.go
@@ -205,6 +205,10 @@ func (a *ASNReader) CheckSequenceEnd() (bool, errors.Error) {
 		}
 		return true, nil
 	}
+	if a.openSequences == 0 {
+		// only an indefinite length sequence has an end marker
+		return false, nil
+	}
 	x1, err := a.data.ReadByte()
 	if err != nil {
 		return false, errors.New("Failed To read byte at offset %d. %s", a.TopOffset(), err)
@@ -222,9 +226,7 @@ func (a *ASNReader) CheckSequenceEnd() (bool, errors.Error) {
 		a.data.UnreadByte()
 		return false, nil
 	}
-	if a.openSequences > 0 {
-		a.openSequences--
-	}
+	a.openSequences--
 	return true, nil
 }
 
-- 
2.43.0


From be810f1dc3bd9a68050042b49834274b03491ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:24 +0000
Subject: [PATCH 12/55] fix: decode empty containers of indefinite length

---
 embertree/connection.go     | 13 +++++++-----
 embertree/elementFactory.go | 32 ++++++++++++++--------------
 embertree/function.go       | 42 +++++++++++++++++++++----------------
 embertree/invocation.go     | 21 +++++++++++--------
 embertree/matrix.go         | 32 ++++++++++++++--------------
 embertree/matrix_element.go | 32 ++++++++++++++--------------
 embertree/node.go           | 16 +++++++-------
 embertree/parameter.go      | 16 +++++++-------
 embertree/root.go           | 16 +++++++-------
 9 files changed, 116 insertions(+), 104 deletions(-)

diff --git a/embertree/connection.go b/embertree/connection.go
index 506b13a..8ef80ef 100755
--- a/embertree/connection.go
+++ b/embertree/connection.go
@@ -142,7 +142,14 @@ func (c *Connection) Decode(reader *asn1.ASNReader) errors.Error {
 		return errors.Update(err)
 	}
 
-	for connectionReader.Len() > 0 {
+	for {
+		end, err := connectionReader.CheckSequenceEnd()
+		if err != nil {
+			return errors.Update(err)
+		}
+		if end {
+			break
+		}
 		tag, err := connectionReader.Peek()
 		if err != nil {
 			return errors.Update(err)
@@ -185,10 +192,6 @@ func (c *Connection) Decode(reader *asn1.ASNReader) errors.Error {
 		if err != nil {
 			return errors.Update(err)
 		}
-		end, err := connectionReader.CheckSequenceEnd()
-		if end {
-			break
-		}
 	}
 	return nil
 }
diff --git a/embertree/elementFactory.go b/embertree/elementFactory.go
index db2e9f8..e7920b5 100755
--- a/embertree/elementFactory.go
+++ b/embertree/elementFactory.go
@@ -91,7 +91,14 @@ func decodeChildren(ctxt uint8, element *Element, reader *asn1.ASNReader) errors
 	if err != nil {
 		return errors.Update(err)
 	}
-	for childrenReader.Len() > 0 {
+	for {
+		end, err := childrenReader.CheckSequenceEnd()
+		if err != nil {
+			return errors.Update(err)
+		}
+		if end {
+			break
+		}
 		_, childReader, err := childrenReader.ReadSequenceStart(asn1.Context(0))
 		if err != nil {
 			return errors.Update(err)
@@ -106,13 +113,6 @@ func decodeChildren(ctxt uint8, element *Element, reader *asn1.ASNReader) errors
 			return errors.Update(err)
 		}
 		element.AddChild(child)
-		end, err := childrenReader.CheckSequenceEnd()
-		if end {
-			break
-		}
-		if err != nil {
-			return errors.Update(err)
-		}
 	}
 	return ctxtReader.ReadSequenceEnd()
 }
@@ -161,7 +161,14 @@ func DecodeElement(reader *asn1.ASNReader) (*Element, errors.Error) {
 	} else {
 		element = NewElement(tag, number, contentCreator)
 	}
-	for elementReader.Len() > 0 {
+	for {
+		end, err := elementReader.CheckSequenceEnd()
+		if err != nil {
+			return element, errors.Update(err)
+		}
+		if end {
+			break
+		}
 		b, err := elementReader.Peek()
 		if err != nil {
 			return nil, errors.Update(err)
@@ -193,13 +200,6 @@ func DecodeElement(reader *asn1.ASNReader) (*Element, errors.Error) {
 				return nil, errors.Update(err)
 			}
 		}
-		end, err := elementReader.CheckSequenceEnd()
-		if end {
-			break
-		}
-		if err != nil {
-			return element, errors.Update(err)
-		}
 	}
 	return element, nil
 }
diff --git a/embertree/function.go b/embertree/function.go
index 8471fa7..91e2877 100755
--- a/embertree/function.go
+++ b/embertree/function.go
@@ -96,7 +96,14 @@ func decodeTupleDescriptions(reader *asn1.ASNReader) ([]*TupleDescription, error
 	if err != nil {
 		return nil, errors.Update(err)
 	}
-	for seqReader.Len() > 0 {
+	for {
+		end, err := seqReader.CheckSequenceEnd()
+		if err != nil {
+			return nil, errors.Update(err)
+		}
+		if end {
+			break
+		}
 		_, argReader, err := seqReader.ReadSequenceStart(asn1.Context(0))
 		if err != nil {
 			return nil, errors.Update(err)
@@ -111,13 +118,6 @@ func decodeTupleDescriptions(reader *asn1.ASNReader) ([]*TupleDescription, error
 		if err != nil {
 			return nil, errors.Update(err)
 		}
-		end, err := seqReader.CheckSequenceEnd()
-		if end {
-			break
-		}
-		if err != nil {
-			return nil, errors.Update(err)
-		}
 	}
 	return arguments, nil
 }
@@ -157,7 +157,14 @@ func (tuple *TupleDescription) Decode(reader *asn1.ASNReader) errors.Error {
 	if err != nil {
 		return errors.Update(err)
 	}
-	for tupleReader.Len() > 0 {
+	for {
+		end, err := tupleReader.CheckSequenceEnd()
+		if err != nil {
+			return errors.Update(err)
+		}
+		if end {
+			break
+		}
 		peek, err := tupleReader.Peek()
 		if err != nil {
 			return errors.Update(err)
@@ -188,10 +195,6 @@ func (tuple *TupleDescription) Decode(reader *asn1.ASNReader) errors.Error {
 		if err != nil {
 			return errors.Update(err)
 		}
-		end, err := tupleReader.CheckSequenceEnd()
-		if end || err != nil {
-			break
-		}
 	}
 	return errors.Update(err)
 }
@@ -243,7 +246,14 @@ func (fc *FunctionContents) Decode(reader *asn1.ASNReader) errors.Error {
 	if err != nil {
 		return errors.Update(err)
 	}
-	for reader.Len() > 0 {
+	for {
+		end, err := reader.CheckSequenceEnd()
+		if err != nil {
+			return errors.Update(err)
+		}
+		if end {
+			break
+		}
 		peek, err := reader.Peek()
 		if err != nil {
 			return errors.Update(err)
@@ -288,10 +298,6 @@ func (fc *FunctionContents) Decode(reader *asn1.ASNReader) errors.Error {
 		default:
 			return errors.New("Unknown function content tag %d", peek)
 		}
-		end, err := reader.CheckSequenceEnd()
-		if end || err != nil {
-			break
-		}
 	}
 	return errors.Update(err)
 }
diff --git a/embertree/invocation.go b/embertree/invocation.go
index c7f1565..442c264 100755
--- a/embertree/invocation.go
+++ b/embertree/invocation.go
@@ -69,7 +69,14 @@ func (i *Invocation) Decode(reader *asn1.ASNReader) errors.Error {
 		return errors.Update(err)
 	}
 
-	for invocationReader.Len() > 0 {
+	for {
+		end, err := invocationReader.CheckSequenceEnd()
+		if err != nil {
+			return errors.Update(err)
+		}
+		if end {
+			break
+		}
 		peek, err := invocationReader.Peek()
 		if err != nil {
 			return errors.Update(err)
@@ -92,19 +99,19 @@ func (i *Invocation) Decode(reader *asn1.ASNReader) errors.Error {
 			if err != nil {
 				return errors.Update(err)
 			}
-			for seqReader.Len() > 0 {
-				value, err := DecodeValue(seqReader, 0)
+			for {
+				end, err := seqReader.CheckSequenceEnd()
 				if err != nil {
 					return errors.Update(err)
 				}
-				arguments = append(arguments, value)
-				end, err := seqReader.CheckSequenceEnd()
 				if end {
 					break
 				}
+				value, err := DecodeValue(seqReader, 0)
 				if err != nil {
 					return errors.Update(err)
 				}
+				arguments = append(arguments, value)
 			}
 			break
 		default:
@@ -114,10 +121,6 @@ func (i *Invocation) Decode(reader *asn1.ASNReader) errors.Error {
 		if err != nil {
 			return errors.Update(err)
 		}
-		end, err := invocationReader.CheckSequenceEnd()
-		if end || err != nil {
-			break
-		}
 	}
 	return errors.Update(err)
 }
diff --git a/embertree/matrix.go b/embertree/matrix.go
index 8cc4036..bb90ec9 100755
--- a/embertree/matrix.go
+++ b/embertree/matrix.go
@@ -271,7 +271,14 @@ func (c *MatrixContent) DecodeLabels(reader *asn1.ASNReader) errors.Error {
 	if err != nil {
 		return errors.Update(err)
 	}
-	for seqReader.Len() > 0 {
+	for {
+		end, err := seqReader.CheckSequenceEnd()
+		if err != nil {
+			return errors.Update(err)
+		}
+		if end {
+			break
+		}
 		_, ctxtReader, err := seqReader.ReadSequenceStart(asn1.Context(0))
 		if err != nil {
 			return errors.Update(err)
@@ -285,13 +292,6 @@ func (c *MatrixContent) DecodeLabels(reader *asn1.ASNReader) errors.Error {
 		if err != nil {
 			return errors.Update(err)
 		}
-		end, err := seqReader.CheckSequenceEnd()
-		if end {
-			break
-		}
-		if err != nil {
-			return errors.Update(err)
-		}
 	}
 	err = reader.ReadSequenceEnd()
 	if err != nil {
@@ -348,7 +348,14 @@ func (c *MatrixContent) Decode(reader *asn1.ASNReader) errors.Error {
 		return errors.Update(err)
 	}
 
-	for matrixContentReader.Len() > 0 {
+	for {
+		end, err := matrixContentReader.CheckSequenceEnd()
+		if err != nil {
+			return errors.Update(err)
+		}
+		if end {
+			break
+		}
 		peek, err := matrixContentReader.Peek()
 		if err != nil {
 			return errors.Update(err)
@@ -386,13 +393,6 @@ func (c *MatrixContent) Decode(reader *asn1.ASNReader) errors.Error {
 				return errors.Update(err)
 			}
 		}
-		end, err := matrixContentReader.CheckSequenceEnd()
-		if end {
-			break
-		}
-		if err != nil {
-			return errors.Update(err)
-		}
 	}
 
 	return nil
diff --git a/embertree/matrix_element.go b/embertree/matrix_element.go
index 974227b..7c26a94 100755
--- a/embertree/matrix_element.go
+++ b/embertree/matrix_element.go
@@ -59,7 +59,14 @@ func DeodeSignals(reader *asn1.ASNReader, ctxt uint8) ([]Signal, errors.Error) {
 		return nil, errors.Update(err)
 	}
 
-	for setReader.Len() > 0 {
+	for {
+		end, err := setReader.CheckSequenceEnd()
+		if err != nil {
+			return nil, errors.Update(err)
+		}
+		if end {
+			break
+		}
 		_, ctxtReader, err := setReader.ReadSequenceStart(asn1.Context(0))
 		if err != nil {
 			return nil, errors.Update(err)
@@ -73,13 +80,6 @@ func DeodeSignals(reader *asn1.ASNReader, ctxt uint8) ([]Signal, errors.Error) {
 		if err != nil {
 			return nil, errors.Update(err)
 		}
-		end, err := setReader.CheckSequenceEnd()
-		if end {
-			break
-		}
-		if err != nil {
-			return nil, errors.Update(err)
-		}
 	}
 	return signals, signalsReader.ReadSequenceEnd()
 }
@@ -153,7 +153,14 @@ func (element *Element) DecodeConnections(reader *asn1.ASNReader) errors.Error {
 	if err != nil {
 		return errors.Update(err)
 	}
-	for setReader.Len() > 0 {
+	for {
+		end, err := setReader.CheckSequenceEnd()
+		if err != nil {
+			return errors.Update(err)
+		}
+		if end {
+			break
+		}
 		_, ctxtReader, err := setReader.ReadSequenceStart(asn1.Context(0))
 		if err != nil {
 			return errors.Update(err)
@@ -168,13 +175,6 @@ func (element *Element) DecodeConnections(reader *asn1.ASNReader) errors.Error {
 		if err != nil {
 			return errors.Update(err)
 		}
-		end, err := setReader.CheckSequenceEnd()
-		if end {
-			break
-		}
-		if err != nil {
-			return errors.Update(err)
-		}
 	}
 	element.connections = connections
 	return connectionReader.ReadSequenceEnd()
diff --git a/embertree/node.go b/embertree/node.go
index 7479e63..29287b5 100755
--- a/embertree/node.go
+++ b/embertree/node.go
@@ -142,7 +142,14 @@ func (nc *NodeContents) Decode(reader *asn1.ASNReader) errors.Error {
 		return errors.Update(err)
 	}
 
-	for reader.Len() > 0 {
+	for {
+		end, err := reader.CheckSequenceEnd()
+		if err != nil {
+			return errors.Update(err)
+		}
+		if end {
+			break
+		}
 		peek, err := reader.Peek()
 		if err != nil {
 			return errors.Update(err)
@@ -193,13 +200,6 @@ func (nc *NodeContents) Decode(reader *asn1.ASNReader) errors.Error {
 				}
 			}
 		}
-		end, err := reader.CheckSequenceEnd()
-		if end {
-			break
-		}
-		if err != nil {
-			return errors.Update(err)
-		}
 	}
 	return nil
 }
diff --git a/embertree/parameter.go b/embertree/parameter.go
index 6216a53..8de5abc 100755
--- a/embertree/parameter.go
+++ b/embertree/parameter.go
@@ -186,7 +186,14 @@ func (pc *ParameterContents) Decode(reader *asn1.ASNReader) errors.Error {
 		return errors.Update(err)
 	}
 
-	for reader.Len() > 0 {
+	for {
+		end, err := reader.CheckSequenceEnd()
+		if err != nil {
+			return errors.Update(err)
+		}
+		if end {
+			break
+		}
 		peek, err := reader.Peek()
 		if err != nil {
 			return errors.Update(err)
@@ -213,13 +220,6 @@ func (pc *ParameterContents) Decode(reader *asn1.ASNReader) errors.Error {
 				return errors.Update(err)
 			}
 		}
-		end, err := reader.CheckSequenceEnd()
-		if end {
-			break
-		}
-		if err != nil {
-			return errors.Update(err)
-		}
 	}
 	return nil
 }
diff --git a/embertree/root.go b/embertree/root.go
index 2cbd180..1d4ccd5 100755
--- a/embertree/root.go
+++ b/embertree/root.go
@@ -96,7 +96,14 @@ func (root *RootElement) Decode(reader *asn1.ASNReader) errors.Error {
 		if err != nil {
 			return errors.Update(err)
 		}
-		for collectionReader.Len() > 0 {
+		for {
+			end, err := collectionReader.CheckSequenceEnd()
+			if err != nil {
+				return errors.Update(err)
+			}
+			if end {
+				break
+			}
 			_, elementReader, err := collectionReader.ReadSequenceStart(asn1.Context(0))
 			if err != nil {
 				return errors.Update(err)
@@ -118,13 +125,6 @@ func (root *RootElement) Decode(reader *asn1.ASNReader) errors.Error {
 			if err != nil {
 				return errors.Update(err)
 			}
-			end, err := collectionReader.CheckSequenceEnd()
-			if end {
-				break
-			}
-			if err != nil {
-				return errors.Update(err)
-			}
 		}
 	}
 	err = reader.ReadSequenceEnd()
-- 
2.43.0


From ef7c0e1f2b11b593b6303b65be468762287e10aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:54 +0000
Subject: [PATCH 13/55] fix: report containers that cannot be opened instead of
 crashing

---
 embertree/connection.go     | 3 +++
 embertree/elementFactory.go | 3 +++
 embertree/matrix.go         | 3 +++
 embertree/node.go           | 3 +++
 embertree/parameter.go      | 3 +++
 5 files changed, 15 insertions(+)

diff --git a/embertree/connection.go b/embertree/connection.go
index 8ef80ef..e93e767 100755
--- a/embertree/connection.go
+++ b/embertree/connection.go
@@ -156,6 +156,9 @@ func (c *Connection) Decode(reader *asn1.ASNReader) errors.Error {
 		}
 
 		_, ctxtReader, err := connectionReader.ReadSequenceStart(tag)
+		if err != nil {
+			return errors.Update(err)
+		}
 		switch tag {
 		case asn1.Context(1):
 			//Sources
diff --git a/embertree/elementFactory.go b/embertree/elementFactory.go
index e7920b5..60534fc 100755
--- a/embertree/elementFactory.go
+++ b/embertree/elementFactory.go
@@ -87,6 +87,9 @@ func decodeContents(element *Element, ctxt uint8, reader *asn1.ASNReader) (inter
 
 func decodeChildren(ctxt uint8, element *Element, reader *asn1.ASNReader) errors.Error {
 	_, ctxtReader, err := reader.ReadSequenceStart(ctxt)
+	if err != nil {
+		return errors.Update(err)
+	}
 	_, childrenReader, err := ctxtReader.ReadSequenceStart(asn1.Application(4))
 	if err != nil {
 		return errors.Update(err)
diff --git a/embertree/matrix.go b/embertree/matrix.go
index bb90ec9..9b9f62c 100755
--- a/embertree/matrix.go
+++ b/embertree/matrix.go
@@ -383,6 +383,9 @@ func (c *MatrixContent) Decode(reader *asn1.ASNReader) errors.Error {
 			}
 		} else if peek == templateReferenceContext {
 			_, templateReader, err := matrixContentReader.ReadSequenceStart(peek)
+			if err != nil {
+				return errors.Update(err)
+			}
 			templateReference, err := templateReader.ReadOID(asn1.EMBER_RELATIVE_OID)
 			if err != nil {
 				return errors.Update(err)
diff --git a/embertree/node.go b/embertree/node.go
index 29287b5..4895b45 100755
--- a/embertree/node.go
+++ b/embertree/node.go
@@ -189,6 +189,9 @@ func (nc *NodeContents) Decode(reader *asn1.ASNReader) errors.Error {
 		case asn1.Context(5):
 			{
 				_, templateReader, err := reader.ReadSequenceStart(peek)
+				if err != nil {
+					return errors.Update(err)
+				}
 				templateReference, err := templateReader.ReadOID(asn1.EMBER_RELATIVE_OID)
 				if err != nil {
 					return errors.Update(err)
diff --git a/embertree/parameter.go b/embertree/parameter.go
index 8de5abc..9bd9b6c 100755
--- a/embertree/parameter.go
+++ b/embertree/parameter.go
@@ -210,6 +210,9 @@ func (pc *ParameterContents) Decode(reader *asn1.ASNReader) errors.Error {
 			}
 		} else if index == 18 {
 			_, templateReader, err := reader.ReadSequenceStart(peek)
+			if err != nil {
+				return errors.Update(err)
+			}
 			templateReference, err := templateReader.ReadOID(asn1.EMBER_RELATIVE_OID)
 			if err != nil {
 				return errors.Update(err)
-- 
2.43.0


From ad10a605fbf6cec5cb82d8df3159f064b3d392ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:57 +0000
Subject: [PATCH 14/55] fix: end matrix labels on their own container and
 report their errors

---
 embertree/matrix.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/embertree/matrix.go b/embertree/matrix.go
index 9b9f62c..c0780e9 100755
--- a/embertree/matrix.go
+++ b/embertree/matrix.go
@@ -293,7 +293,7 @@ func (c *MatrixContent) DecodeLabels(reader *asn1.ASNReader) errors.Error {
 			return errors.Update(err)
 		}
 	}
-	err = reader.ReadSequenceEnd()
+	err = labelReader.ReadSequenceEnd()
 	if err != nil {
 		return errors.Update(err)
 	}
@@ -371,7 +371,10 @@ func (c *MatrixContent) Decode(reader *asn1.ASNReader) errors.Error {
 				return errors.Update(err)
 			}
 		} else if peek == labelContext {
-			c.DecodeLabels(matrixContentReader)
+			err = c.DecodeLabels(matrixContentReader)
+			if err != nil {
+				return errors.Update(err)
+			}
 		} else if index == 11 {
 			value, err := DecodeValue(matrixContentReader, index)
 			if err != nil {
-- 
2.43.0


From c247d003584cb42416c1e2a74dd490af30cf705d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:24 +0000
Subject: [PATCH 15/55] fix: report unknown fields instead of looping on them
 forever

---
 embertree/elementFactory.go | 2 ++
 embertree/matrix.go         | 2 ++
 embertree/parameter.go      | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/embertree/elementFactory.go b/embertree/elementFactory.go
index 60534fc..c81542d 100755
--- a/embertree/elementFactory.go
+++ b/embertree/elementFactory.go
@@ -202,6 +202,8 @@ func DecodeElement(reader *asn1.ASNReader) (*Element, errors.Error) {
 			if err != nil {
 				return nil, errors.Update(err)
 			}
+		} else {
+			return nil, errors.New("Unknown element tag 0x%x at offset %d.", b, elementReader.TopOffset())
 		}
 	}
 	return element, nil
diff --git a/embertree/matrix.go b/embertree/matrix.go
index c0780e9..8e6d322 100755
--- a/embertree/matrix.go
+++ b/embertree/matrix.go
@@ -398,6 +398,8 @@ func (c *MatrixContent) Decode(reader *asn1.ASNReader) errors.Error {
 			if err != nil {
 				return errors.Update(err)
 			}
+		} else {
+			return errors.New("Unknown matrix content tag %d", peek)
 		}
 	}
 
diff --git a/embertree/parameter.go b/embertree/parameter.go
index 9bd9b6c..4024385 100755
--- a/embertree/parameter.go
+++ b/embertree/parameter.go
@@ -222,6 +222,8 @@ func (pc *ParameterContents) Decode(reader *asn1.ASNReader) errors.Error {
 			if err != nil {
 				return errors.Update(err)
 			}
+		} else {
+			return errors.New("Unknown parameter content tag %d", peek)
 		}
 	}
 	return nil
-- 
2.43.0


From a44760c8c7b7b9c4d0b3122f2f93b1b86ced3072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:27 +0000
Subject: [PATCH 16/55] fix: decode and copy relative OID values

---
 embertree/content_parameter.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/embertree/content_parameter.go b/embertree/content_parameter.go
index 5308270..8a2e2c3 100755
--- a/embertree/content_parameter.go
+++ b/embertree/content_parameter.go
@@ -149,6 +149,13 @@ func (cp *ContentParameter) Set(val *ContentParameter) errors.Error {
 		}
 		cp.SetReal(b)
 		break
+	case ValueTypeOID:
+		b, err := val.GetRelativeOID()
+		if err != nil {
+			return err
+		}
+		cp.SetRelativeOID(b)
+		break
 	}
 	return nil
 }
@@ -372,6 +379,13 @@ func DecodeValue(reader *asn1.ASNReader, ctxt uint8) (*ContentParameter, errors.
 		}
 		contentParameter.SetBuffer(s)
 		break
+	case asn1.EMBER_RELATIVE_OID:
+		oid, err := pcReader.ReadOID(asn1.EMBER_RELATIVE_OID)
+		if err != nil {
+			return nil, errors.Update(err)
+		}
+		contentParameter.SetRelativeOID(oid)
+		break
 	case asn1.EMBER_STRING:
 		//case asn1.EMBER_OCTETSTRING:
 		s, err := pcReader.ReadString()
-- 
2.43.0


From a839e733d3098374654accef47fac9d059f5daf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:31 +0000
Subject: [PATCH 17/55] fix: decode qualified functions

---
 embertree/elementFactory.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/embertree/elementFactory.go b/embertree/elementFactory.go
index c81542d..339ceb7 100755
--- a/embertree/elementFactory.go
+++ b/embertree/elementFactory.go
@@ -21,6 +21,8 @@ func getContentCreator(tag uint8) (ContentCreator, errors.Error) {
 		fallthrough
 	case MatrixApplication:
 		return NewDefaultMatrixContents, nil
+	case QualifiedFunctionApplication:
+		fallthrough
 	case FunctionApplication:
 		return NewFunctionContents, nil
 	default:
-- 
2.43.0


From 321ed0c34269da176e375d19f95adf4952db901b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:00 +0000
Subject: [PATCH 18/55] fix: reject empty paths instead of crashing

---
 embertree/elementFactory.go    | 3 +++
 embertree/qualified_element.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/embertree/elementFactory.go b/embertree/elementFactory.go
index 339ceb7..40fad9a 100755
--- a/embertree/elementFactory.go
+++ b/embertree/elementFactory.go
@@ -157,6 +157,9 @@ func DecodeElement(reader *asn1.ASNReader) (*Element, errors.Error) {
 	if err != nil {
 		return nil, errors.Update(err)
 	}
+	if IsQualifiedTag(tag) && len(path) == 0 {
+		return nil, errors.New("Empty element path at offset %d.", reader.TopOffset())
+	}
 	if tag == MatrixApplication {
 		element, _ = NewMatrix(number, OneToN, Linear)
 	} else if tag == QualifiedMatrixApplication {
diff --git a/embertree/qualified_element.go b/embertree/qualified_element.go
index 74b8379..1b4273e 100755
--- a/embertree/qualified_element.go
+++ b/embertree/qualified_element.go
@@ -44,6 +44,9 @@ func NewQualifiedParameter(path asn1.RelativeOID) *Element {
 
 func NewQualifiedMatrix(path asn1.RelativeOID, mtype MatrixType, mode MatrixMode) *Element {
 	q := NewQualifiedElement(QualifiedMatrixApplication, path, NewDefaultMatrixContents)
+	if q == nil {
+		return nil
+	}
 	q.isMatrix = true
 	return q
 }
-- 
2.43.0


From c0ea404f9a5e70991b8f433c36c82f70b0528d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:29 +0000
Subject: [PATCH 19/55] fix: keep absent matrix contents absent and use the
 type of qualified matrices

---
 embertree/elementFactory.go    | 2 ++
 embertree/qualified_element.go | 5 +++++
 2 files changed, 7 insertions(+)

diff --git a/embertree/elementFactory.go b/embertree/elementFactory.go
index 40fad9a..a7e221e 100755
--- a/embertree/elementFactory.go
+++ b/embertree/elementFactory.go
@@ -169,6 +169,8 @@ func DecodeElement(reader *asn1.ASNReader) (*Element, errors.Error) {
 	} else {
 		element = NewElement(tag, number, contentCreator)
 	}
+	// contents are those in the message, if any
+	element.contents = nil
 	for {
 		end, err := elementReader.CheckSequenceEnd()
 		if err != nil {
diff --git a/embertree/qualified_element.go b/embertree/qualified_element.go
index 1b4273e..ff9faf6 100755
--- a/embertree/qualified_element.go
+++ b/embertree/qualified_element.go
@@ -47,6 +47,11 @@ func NewQualifiedMatrix(path asn1.RelativeOID, mtype MatrixType, mode MatrixMode
 	if q == nil {
 		return nil
 	}
+	content, err := NewMatrixContent(mtype, mode)
+	if err != nil {
+		return nil
+	}
+	q.contents = content
 	q.isMatrix = true
 	return q
 }
-- 
2.43.0


From 3f7e0a5603b96b55b2233339fb2f930b28e58bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:32 +0000
Subject: [PATCH 20/55] fix: keep the arguments of decoded invocations

---
 embertree/invocation.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/embertree/invocation.go b/embertree/invocation.go
index 442c264..b8bb141 100755
--- a/embertree/invocation.go
+++ b/embertree/invocation.go
@@ -113,6 +113,7 @@ func (i *Invocation) Decode(reader *asn1.ASNReader) errors.Error {
 				}
 				arguments = append(arguments, value)
 			}
+			i.arguments = arguments
 			break
 		default:
 			return errors.New("Invovation decode error: Unknwon tag %d", peek)
-- 
2.43.0


From ad0bb2acf00c11da2039ac74d017ec9517ddde5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:51 +0000
Subject: [PATCH 21/55] fix: give the field flags the numbers of the Ember+
 specification

---
 embertree/command.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/embertree/command.go b/embertree/command.go
index e6631a2..f783ba0 100755
--- a/embertree/command.go
+++ b/embertree/command.go
@@ -17,13 +17,13 @@ type FieldFlags int
 
 const (
 	SparseFieldFlags      FieldFlags = -2
-	ALLFieldFlags         FieldFlags  = iota
-	DefaultFieldFlags     FieldFlags  = iota
-	IdentifierFieldFlags  FieldFlags  = iota
-	DescriptionFieldFlags FieldFlags  = iota
-	TreeFieldFlags        FieldFlags  = iota
-	ValueFieldFlags       FieldFlags  = iota
-	ConnectionsFieldFlags FieldFlags  = iota
+	ALLFieldFlags         FieldFlags  = iota - 2
+	DefaultFieldFlags     FieldFlags  = iota - 2
+	IdentifierFieldFlags  FieldFlags  = iota - 2
+	DescriptionFieldFlags FieldFlags  = iota - 2
+	TreeFieldFlags        FieldFlags  = iota - 2
+	ValueFieldFlags       FieldFlags  = iota - 2
+	ConnectionsFieldFlags FieldFlags  = iota - 2
 )
 
 type CommandContents struct {
-- 
2.43.0


From fa983fc6efc6b646d0001e86db50ae734747cd6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:30 +0000
Subject: [PATCH 22/55] fix: number the matrix fields as the Glow schema does

---
 embertree/matrix.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/embertree/matrix.go b/embertree/matrix.go
index 8e6d322..52a4392 100755
--- a/embertree/matrix.go
+++ b/embertree/matrix.go
@@ -8,15 +8,15 @@ import (
 )
 
 const (
-	matrixTypeCtx               = 2
-	matrixModeCtx               = iota
-	targetCountCtx              = iota
-	sourceCounCtx               = iota
-	maximumTotalConnectsCtx     = iota
-	maximumConnectsPerTargetCtx = iota
-	parametersLocationCtx       = iota
-	gainParameterNumberCtx      = iota
-	matrixContentSize           = iota
+	matrixTypeCtx               = iota + 2
+	matrixModeCtx               = iota + 2
+	targetCountCtx              = iota + 2
+	sourceCounCtx               = iota + 2
+	maximumTotalConnectsCtx     = iota + 2
+	maximumConnectsPerTargetCtx = iota + 2
+	parametersLocationCtx       = iota + 2
+	gainParameterNumberCtx      = iota + 2
+	matrixContentSize           = iota + 2
 )
 
 type MatrixType int8
-- 
2.43.0


From 25c0cded802ff3f01a86f7eb2fc2da6f0cedb4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:39 +0000
Subject: [PATCH 23/55] fix: keep what hangs below children without contents
 when encoding

---
 embertree/element.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/embertree/element.go b/embertree/element.go
index bab11d1..80825b0 100755
--- a/embertree/element.go
+++ b/embertree/element.go
@@ -256,7 +256,8 @@ func (element *Element) EncodeChildren(writer *asn1.ASNWriter) errors.Error {
 		if err != nil {
 			return errors.Update(err)
 		}
-		err := child.encode(writer, true)
+		// a child without contents is part of the way to its own children
+		err := child.encode(writer, child.contents != nil)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From b6a78db7c6d5d69b318d3d9a771af634b7da0db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:44 +0000
Subject: [PATCH 24/55] fix: accept no container that misses more than its last
 byte

---
 asn1/decode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1/decode.go b/asn1/decode.go
index 3ff8f11..f45dfc0 100755
--- a/asn1/decode.go
+++ b/asn1/decode.go
@@ -8,7 +8,7 @@ import (
 )
 
 // how many bytes a container may announce beyond the data left; they read as 0.
-const maxMissingBytes = 8
+const maxMissingBytes = 1
 
 type ASNReader struct {
 	data           *bytes.Reader
-- 
2.43.0


From cea828819eb20ffed8528ff16100fd2e17bcceef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:20 +0000
Subject: [PATCH 25/55] fix: reject inner containers that reach beyond their
 outer one

---
 asn1/decode.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/asn1/decode.go b/asn1/decode.go
index f45dfc0..47e9194 100755
--- a/asn1/decode.go
+++ b/asn1/decode.go
@@ -7,7 +7,7 @@ import (
 	"github.com/dufourgilles/emberlib/errors"
 )
 
-// how many bytes a container may announce beyond the data left; they read as 0.
+// how many bytes the outermost container may announce beyond the data left; they read as 0.
 const maxMissingBytes = 1
 
 type ASNReader struct {
@@ -16,10 +16,12 @@ type ASNReader struct {
 	len            int
 	// number of indefinite length sequences started and not ended yet
 	openSequences int
+	// number of bytes a container may announce beyond the data left
+	maxMissing int
 }
 
 func NewASNReader(p []byte) *ASNReader {
-	return &ASNReader{data: bytes.NewReader(p), len: len(p), startingOffset: 0}
+	return &ASNReader{data: bytes.NewReader(p), len: len(p), startingOffset: 0, maxMissing: maxMissingBytes}
 }
 
 func (a *ASNReader) Len() int {
@@ -39,9 +41,10 @@ func (a *ASNReader) NewReader(length int) (*ASNReader, errors.Error) {
 	if length <= 0 {
 		newReader := NewASNReader([]byte{})
 		newReader.startingOffset = offset
+		newReader.maxMissing = 0
 		return newReader, nil
 	}
-	if length > a.Len()+maxMissingBytes {
+	if length > a.Len()+a.maxMissing {
 		return nil, errors.New("Length %d at offset %d exceeds the %d bytes left", length, offset, a.Len())
 	}
 	b := make([]byte, length)
@@ -51,6 +54,7 @@ func (a *ASNReader) NewReader(length int) (*ASNReader, errors.Error) {
 	}
 	newReader := NewASNReader(b)
 	newReader.startingOffset = offset
+	newReader.maxMissing = 0
 	return newReader, nil
 }
 
-- 
2.43.0


From 9bef79da7517cfb9dfffc81f3b6da55921c3cf49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:09 +0000
Subject: [PATCH 26/55] fix: reject sources among targets and targets among
 sources

---
 embertree/matrix_element.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/embertree/matrix_element.go b/embertree/matrix_element.go
index 7c26a94..e9bb07a 100755
--- a/embertree/matrix_element.go
+++ b/embertree/matrix_element.go
@@ -71,6 +71,13 @@ func DeodeSignals(reader *asn1.ASNReader, ctxt uint8) ([]Signal, errors.Error) {
 		if err != nil {
 			return nil, errors.Update(err)
 		}
+		tag, err := ctxtReader.Peek()
+		if err != nil {
+			return nil, errors.Update(err)
+		}
+		if (ctxt == TargetContext && tag != TargetApplication) || (ctxt == SourceContext && tag != SourceApplication) {
+			return nil, errors.New("Unexpected signal tag 0x%x at offset %d.", tag, ctxtReader.TopOffset())
+		}
 		signal, err := DecodeSignal(ctxtReader)
 		if err != nil {
 			return nil, errors.Update(err)
-- 
2.43.0


From d99d317a0e5bd4f1e79ab029e38a44ec8d0c9aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:10 +0000
Subject: [PATCH 27/55] fix: reject parameter types that do not fit instead of
 altering them

---
 embertree/function.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/embertree/function.go b/embertree/function.go
index 91e2877..6f4d85a 100755
--- a/embertree/function.go
+++ b/embertree/function.go
@@ -2,6 +2,7 @@ package embertree
 
 import (
 	"fmt"
+	"math"
 
 	"github.com/dufourgilles/emberlib/errors"
 
@@ -179,6 +180,9 @@ func (tuple *TupleDescription) Decode(reader *asn1.ASNReader) errors.Error {
 			if err != nil {
 				return errors.Update(err)
 			}
+			if t < int(ParameterTypeNull) || t > math.MaxUint8 {
+				return errors.New("Invalid parameter type %d.", t)
+			}
 			tuple.Type = ParameterType(t)
 			break
 		case asn1.Context(1):
-- 
2.43.0


From 5f0629c7ecaea3e156a65e943c70d1e536fedfc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:10 +0000
Subject: [PATCH 28/55] fix: reject matrix types and modes the schema does not
 have

---
 embertree/matrix.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/embertree/matrix.go b/embertree/matrix.go
index 52a4392..3e385af 100755
--- a/embertree/matrix.go
+++ b/embertree/matrix.go
@@ -61,6 +61,19 @@ func ValidateMatrixMode(mode MatrixMode) errors.Error {
 	return nil
 }
 
+// validate checks the type and mode as decoded.
+func (c *MatrixContent) validate() errors.Error {
+	mtype, err := c.table[matrixTypeCtx].GetInt()
+	if err == nil && (mtype < int64(OneToN) || mtype > int64(NToN)) {
+		return errors.New("Invalid matrix type %d", mtype)
+	}
+	mode, err := c.table[matrixModeCtx].GetInt()
+	if err == nil && (mode < int64(Linear) || mode > int64(NonLinear)) {
+		return errors.New("Invalid matrix mode %d", mode)
+	}
+	return nil
+}
+
 func (c *MatrixContent) SetType(mtype MatrixType) errors.Error {
 	err := ValidateMatrixType(mtype)
 	if err != nil {
@@ -370,6 +383,12 @@ func (c *MatrixContent) Decode(reader *asn1.ASNReader) errors.Error {
 			if err != nil {
 				return errors.Update(err)
 			}
+			if index == matrixTypeCtx || index == matrixModeCtx {
+				err = c.validate()
+				if err != nil {
+					return errors.Update(err)
+				}
+			}
 		} else if peek == labelContext {
 			err = c.DecodeLabels(matrixContentReader)
 			if err != nil {
-- 
2.43.0


From b09b60cc1cfb19da65ae80b5e30da9f2eb133079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:29 +0000
Subject: [PATCH 29/55] fix: compute paths afresh instead of sharing and
 caching them

---
 embertree/element.go           |  3 ---
 embertree/qualified_element.go | 14 +++++++-------
 2 files changed, 7 insertions(+), 10 deletions(-)

diff --git a/embertree/element.go b/embertree/element.go
index 80825b0..e429c48 100755
--- a/embertree/element.go
+++ b/embertree/element.go
@@ -145,9 +145,6 @@ func (element *Element) GetContents() (EmberContents, errors.Error) {
 
 func (element *Element) SetParent(parent *Element) errors.Error {
 	element.parent = parent
-	if !element.isQualified {
-		element.path = asn1.RelativeOID{}
-	}
 	return nil
 }
 
diff --git a/embertree/qualified_element.go b/embertree/qualified_element.go
index ff9faf6..e02ddae 100755
--- a/embertree/qualified_element.go
+++ b/embertree/qualified_element.go
@@ -61,14 +61,14 @@ func IsQualifiedTag(tag uint8) bool {
 }
 
 func (element *Element) GetPath() asn1.RelativeOID {
-	if len(element.path) <= 0 {
-		var parentPath = asn1.RelativeOID{}
-		if element.parent != nil {
-			parentPath = element.parent.GetPath()
-		}
-		element.path = append(parentPath, int32(element.Number))
+	if element.isQualified {
+		return append(asn1.RelativeOID{}, element.path...)
 	}
-	return element.path
+	var parentPath = asn1.RelativeOID{}
+	if element.parent != nil {
+		parentPath = element.parent.GetPath()
+	}
+	return append(parentPath, int32(element.Number))
 }
 
 func (element *Element) GetQualifiedDirectoryMsg(listener Listener) *RootElement {
-- 
2.43.0


From 589790c56d16f52c1213b626ed67d26ef8ad91df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:30 +0000
Subject: [PATCH 30/55] fix: find nothing for paths whose intermediate elements
 are missing

---
 embertree/root.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/embertree/root.go b/embertree/root.go
index 1d4ccd5..a96905a 100755
--- a/embertree/root.go
+++ b/embertree/root.go
@@ -48,7 +48,7 @@ func (root *RootElement) GetElementByPath(path asn1.RelativeOID) (*Element,*Elem
 		parent = element
 		element = element.Children[int(path[pos])]
 	}
-	if pos + 1 < len(path) {
+	if pos < len(path) {
 		return nil,nil
 	}
 	return parent,element
-- 
2.43.0


From a2141ea61ca65b7fb0e26f7ebcb001c62b6c5df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:30 +0000
Subject: [PATCH 31/55] fix: use the qualified tags in qualified directory
 requests

---
 embertree/qualified_element.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/embertree/qualified_element.go b/embertree/qualified_element.go
index e02ddae..0e15130 100755
--- a/embertree/qualified_element.go
+++ b/embertree/qualified_element.go
@@ -56,6 +56,21 @@ func NewQualifiedMatrix(path asn1.RelativeOID, mtype MatrixType, mode MatrixMode
 	return q
 }
 
+// qualifiedTag returns the tag of the qualified form of an element.
+func qualifiedTag(tag uint8) uint8 {
+	switch tag {
+	case ParameterApplication:
+		return QualifiedParameterApplication
+	case NodeApplication:
+		return QualifiedNodeApplication
+	case MatrixApplication:
+		return QualifiedMatrixApplication
+	case FunctionApplication:
+		return QualifiedFunctionApplication
+	}
+	return tag
+}
+
 func IsQualifiedTag(tag uint8) bool {
 	return qualifiedTags[tag] == true
 }
@@ -73,7 +88,7 @@ func (element *Element) GetPath() asn1.RelativeOID {
 
 func (element *Element) GetQualifiedDirectoryMsg(listener Listener) *RootElement {
 	path := element.GetPath()
-	dupElement := NewQualifiedElement(element.tag, path, nil)
+	dupElement := NewQualifiedElement(qualifiedTag(element.tag), path, nil)
 	cmd := NewCommand(COMMAND_GETDIRECTORY)
 	dupElement.AddChild(cmd)
 	root := NewRoot()
-- 
2.43.0


From 54c21004b4078fc5fe47fe28627f37446fa615a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:30 +0000
Subject: [PATCH 32/55] fix: update elements announced both plain and qualified

---
 embertree/element.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/embertree/element.go b/embertree/element.go
index e429c48..52c931a 100755
--- a/embertree/element.go
+++ b/embertree/element.go
@@ -117,7 +117,7 @@ func (element *Element) SetContents(contents interface{}) errors.Error {
 
 func (element *Element) Update(newElement *Element) errors.Error {
 	var err errors.Error
-	if element.Number != newElement.Number || element.tag != newElement.tag {
+	if element.Number != newElement.Number || qualifiedTag(element.tag) != qualifiedTag(newElement.tag) {
 		return errors.New("Attempt to update different element Number %d/%d Tag %d/%d", element.Number, newElement.Number, element.tag, newElement.tag)
 	}
 	content := newElement.GetContent()
-- 
2.43.0


From 5a93875f22ff866764b691773f96ffd7aec6eb55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:30 +0000
Subject: [PATCH 33/55] fix: address qualified elements by their path in
 directory requests

---
 embertree/element.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/embertree/element.go b/embertree/element.go
index 52c931a..8581e7b 100755
--- a/embertree/element.go
+++ b/embertree/element.go
@@ -266,13 +266,22 @@ func (element *Element) EncodeChildren(writer *asn1.ASNWriter) errors.Error {
 	return writer.EndSequence()
 }
 
+// dup copies the element without its contents and children.
+func (element *Element) dup() *Element {
+	if element.isQualified {
+		return NewQualifiedElement(element.tag, element.GetPath(), nil)
+	}
+	return NewElement(element.tag, element.Number, nil)
+}
+
 func (element *Element) getDupBranch(cmd *Element) (*Element, errors.Error) {
 	e := element
-	dupElement := NewElement(e.tag, e.Number, nil)
+	dupElement := e.dup()
 	if cmd != nil {
 		dupElement.AddChild(cmd)
 	}
-	for {
+	// the path of a qualified element says where it is
+	for !e.isQualified {
 		parent, err := e.GetParent()
 		if err != nil {
 			return nil, err
@@ -280,7 +289,7 @@ func (element *Element) getDupBranch(cmd *Element) (*Element, errors.Error) {
 		if parent == nil {
 			break
 		}
-		dupParent := NewElement(parent.tag, parent.Number, nil)
+		dupParent := parent.dup()
 		dupParent.AddChild(dupElement)
 		e = parent
 		dupElement = dupParent
-- 
2.43.0


From 9c812a5fc248428ae2488be2856b9a812ed045a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:30 +0000
Subject: [PATCH 34/55] fix: let new roots decode and request directories
 without a listener

---
 embertree/root.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/embertree/root.go b/embertree/root.go
index a96905a..e8678f0 100755
--- a/embertree/root.go
+++ b/embertree/root.go
@@ -23,7 +23,7 @@ func NewTree() *RootElement {
 }
 
 func NewRoot() *RootElement {
-	return &RootElement{listeners: nil, RootElementCollection: make(map[int]*Element)}
+	return NewTree()
 }
 
 func (root *RootElement) GetElementByNumber(number int) *Element {
@@ -169,7 +169,9 @@ func (r *RootElement) GetDirectoryMsg(listener Listener) (*RootElement, errors.E
 	root := NewRoot()
 	cmd := NewCommand(COMMAND_GETDIRECTORY)
 	root.AddElement(cmd)
-	r.AddListener(listener)
+	if listener != nil {
+		r.AddListener(listener)
+	}
 	return root, nil
 }
 
-- 
2.43.0


From 86b64e7fb527b11e30138971ed37ed55cc248ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:31 +0000
Subject: [PATCH 35/55] fix: update the targets, sources and connections of
 known matrices

---
 embertree/element.go        |  1 +
 embertree/matrix_element.go | 27 +++++++++++++++++++++++++++
 2 files changed, 28 insertions(+)

diff --git a/embertree/element.go b/embertree/element.go
index 8581e7b..66cc17a 100755
--- a/embertree/element.go
+++ b/embertree/element.go
@@ -124,6 +124,7 @@ func (element *Element) Update(newElement *Element) errors.Error {
 	if content != nil {
 		element.contents = content.(EmberContents)
 	}
+	element.updateMatrix(newElement)
 	for number, newChild := range newElement.Children {
 		child := element.Children[number]
 		if child == nil {
diff --git a/embertree/matrix_element.go b/embertree/matrix_element.go
index e9bb07a..97dccc9 100755
--- a/embertree/matrix_element.go
+++ b/embertree/matrix_element.go
@@ -187,6 +187,33 @@ func (element *Element) DecodeConnections(reader *asn1.ASNReader) errors.Error {
 	return connectionReader.ReadSequenceEnd()
 }
 
+// updateMatrix takes over the lists another announcement of the matrix mentions.
+func (element *Element) updateMatrix(newElement *Element) {
+	if !element.isMatrix || !newElement.isMatrix {
+		return
+	}
+	if len(newElement.targets) > 0 {
+		element.targets = newElement.targets
+	}
+	if len(newElement.sources) > 0 {
+		element.sources = newElement.sources
+	}
+	for _, connection := range newElement.connections {
+		element.updateConnection(connection)
+	}
+}
+
+// updateConnection replaces the connection of the same target or adds it.
+func (element *Element) updateConnection(connection *Connection) {
+	for i, current := range element.connections {
+		if current.Target == connection.Target {
+			element.connections[i] = connection
+			return
+		}
+	}
+	element.connections = append(element.connections, connection)
+}
+
 func (element *Element) SetTargets(targets []Signal) errors.Error {
 	if !element.isMatrix {
 		return errors.New("Element not a matrix. Can't SetTargets.")
-- 
2.43.0


From e25ba8743d092c3a1918ab3d6a4b98e3a0f35e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:31 +0000
Subject: [PATCH 36/55] fix: merge children announced twice in one message

---
 embertree/elementFactory.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/embertree/elementFactory.go b/embertree/elementFactory.go
index a7e221e..14b32f5 100755
--- a/embertree/elementFactory.go
+++ b/embertree/elementFactory.go
@@ -117,7 +117,15 @@ func decodeChildren(ctxt uint8, element *Element, reader *asn1.ASNReader) errors
 		if err != nil {
 			return errors.Update(err)
 		}
-		element.AddChild(child)
+		current := element.Children[child.Number]
+		if current == nil {
+			err = element.AddChild(child)
+		} else {
+			err = current.Update(child)
+		}
+		if err != nil {
+			return errors.Update(err)
+		}
 	}
 	return ctxtReader.ReadSequenceEnd()
 }
-- 
2.43.0


From e07abfc8c42b49a2db673534be1709e9866e8999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:17 +0000
Subject: [PATCH 37/55] fix: show parameter and matrix fields as set when
 rendering

---
 embertree/matrix.go    | 10 +++++-----
 embertree/parameter.go | 26 +++++++++++++-------------
 2 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/embertree/matrix.go b/embertree/matrix.go
index 3e385af..068db04 100755
--- a/embertree/matrix.go
+++ b/embertree/matrix.go
@@ -438,17 +438,17 @@ func (c *MatrixContent) ToString() string {
 	}
 	t,err := c.GetType()
 	if t == OneToN {
-		str = fmt.Sprintf(("%s  type: OneToN"))
+		str = fmt.Sprintf("%s  type: OneToN\n", str)
 	} else if t ==  NToN {
-		str = fmt.Sprintf(("%s  type: NToN"))
+		str = fmt.Sprintf("%s  type: NToN\n", str)
 	} else {
-		str = fmt.Sprintf(("%s  type: OneToOne"))
+		str = fmt.Sprintf("%s  type: OneToOne\n", str)
 	}
 	m,err := c.GetMode()
 	if m == Linear {
-		str = fmt.Sprintf(("%s  mode: Linear"))
+		str = fmt.Sprintf("%s  mode: Linear\n", str)
 	} else {
-		str = fmt.Sprintf(("%s  mode: Non-Linear"))
+		str = fmt.Sprintf("%s  mode: Non-Linear\n", str)
 	}
 	return fmt.Sprintf("{\n%s}\n", str)
 }
\ No newline at end of file
diff --git a/embertree/parameter.go b/embertree/parameter.go
index 4024385..5cbff25 100755
--- a/embertree/parameter.go
+++ b/embertree/parameter.go
@@ -241,11 +241,11 @@ func (contents *ParameterContents) ToString() string {
 	}
 	valObject := contents.GetValueObject()
 	if valObject != nil && valObject.isSet {
-		str = fmt.Sprintf("%  svalue: %s\n",str, valObject.ToString())
+		str = fmt.Sprintf("%s  value: %s\n",str, valObject.ToString())
 	}
 	valObject = contents.GetMinimumObject()
 	if valObject != nil && valObject.isSet {
-		str = fmt.Sprintf("%  sminimum: %s\n",str, valObject.ToString())
+		str = fmt.Sprintf("%s  minimum: %s\n",str, valObject.ToString())
 	}
 	valObject = contents.GetMaximumObject()
 	if valObject != nil && valObject.isSet {
@@ -256,27 +256,27 @@ func (contents *ParameterContents) ToString() string {
 		str = fmt.Sprintf("%s  default: %s\n",str, valObject.ToString())
 	}
 	valStr,err = contents.GetAccess()
-	if err != nil {
+	if err == nil {
 		str = fmt.Sprintf("%s  access: %s\n",str,valStr)
 	}
 	valStr,err = contents.GetFormat()
-	if err != nil {
+	if err == nil {
 		str = fmt.Sprintf("%s  format: %s\n",str,valStr)
 	}
 	valStr,err = contents.GetEnumeration()
-	if err != nil {
+	if err == nil {
 		str = fmt.Sprintf("%s  enumeration: %s\n",str,valStr)
 	}
 	valInt,err := contents.GetFactor()
-	if err != nil {
-		str = fmt.Sprintf("%s  factor: %ll\n",str,valInt)
+	if err == nil {
+		str = fmt.Sprintf("%s  factor: %d\n",str,valInt)
 	}
 	valInt,err = contents.GetStep()
-	if err != nil {
-		str = fmt.Sprintf("%s  step: %ll\n",str,valInt)
+	if err == nil {
+		str = fmt.Sprintf("%s  step: %d\n",str,valInt)
 	}
 	valBool,err := contents.GetOnline()
-	if err != nil {
+	if err == nil {
 		if valBool {
 			str = fmt.Sprintf("%s  isonline: true\n",str)
 		} else {
@@ -284,12 +284,12 @@ func (contents *ParameterContents) ToString() string {
 		}
 	}
 	valStr,err = contents.GetType()
-	if err != nil {
+	if err == nil {
 		str = fmt.Sprintf("%s  type: %s\n",str,valStr)
 	}
 	valInt,err = contents.GetStreamIdentifier()
-	if err != nil {
-		str = fmt.Sprintf("%s  streamIdentifier: %ll\n",str,valInt)
+	if err == nil {
+		str = fmt.Sprintf("%s  streamIdentifier: %d\n",str,valInt)
 	}
 	return fmt.Sprintf("{\n%s}\n", str)
 }
\ No newline at end of file
-- 
2.43.0


From 72ea80bfa2743b0b863ef2a45e0b598bb35cdd7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:17 +0000
Subject: [PATCH 38/55] fix: render the bytes of buffers with two digits each

---
 embertree/content_parameter.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/embertree/content_parameter.go b/embertree/content_parameter.go
index 8a2e2c3..cc82dd7 100755
--- a/embertree/content_parameter.go
+++ b/embertree/content_parameter.go
@@ -92,9 +92,9 @@ func (cp *ContentParameter)ToString() string {
 		str := ""
 		for index,x := range(b) {
 			if index == 0 {
-				str = fmt.Sprintf("%x", x)
+				str = fmt.Sprintf("%02x", x)
 			} else {
-				str = fmt.Sprintf("%s%x", str, x)
+				str = fmt.Sprintf("%s%02x", str, x)
 			}
 		}
 		return str
-- 
2.43.0


From a754c15227eb90772943db4be9584362c34eec57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:57 +0000
Subject: [PATCH 39/55] fix: recognise frame delimiters that follow a stray
 escape byte

---
 socket/frame.go | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/socket/frame.go b/socket/frame.go
index b9309e7..26675b6 100755
--- a/socket/frame.go
+++ b/socket/frame.go
@@ -315,12 +315,8 @@ func (decoder *S101Decoder)SetLogger(logger Logger) {
 func (decoder *S101Decoder)DecodeBuffer( bufLen int, buf []byte) {
 	for i := 0; i < bufLen; i++ {
 		b := buf[i];
-		if (decoder.escaped) {
-			decoder.inbuf.WriteByte(b ^ S101_XOR);
-			decoder.escaped = false;
-		} else if b == S101_CE {
-			decoder.escaped = true;
-		} else if b == S101_BOF {
+		// BOF and EOF are never escaped: after CE they end a damaged frame
+		if b == S101_BOF {
 			decoder.inbuf.Reset();
 			decoder.escaped = false;
 		} else if b == S101_EOF {
@@ -329,10 +325,21 @@ func (decoder *S101Decoder)DecodeBuffer( bufLen int, buf []byte) {
 			buffer := make([]byte, decoder.inbuf.Len())
 			decoder.inbuf.Read(buffer)
 			decoder.inbuf.Reset();
-			err := decoder.HandleFrame(buffer);
+			var err errors.Error
+			if decoder.escaped {
+				decoder.escaped = false
+				err = errors.New("dropping frame that ends in an escape")
+			} else {
+				err = decoder.HandleFrame(buffer)
+			}
 			if err != nil {
 				decoder.errorHandler(err)
 			}
+		} else if decoder.escaped {
+			decoder.inbuf.WriteByte(b ^ S101_XOR);
+			decoder.escaped = false;
+		} else if b == S101_CE {
+			decoder.escaped = true;
 		} else {
 			decoder.inbuf.WriteByte(b);
 		}
-- 
2.43.0


From 15176f007e1f2830c952f72c1e273bca31ae3aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:57 +0000
Subject: [PATCH 40/55] fix: drop messages that lost a frame instead of
 delivering the rest

---
 socket/frame.go | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/socket/frame.go b/socket/frame.go
index 26675b6..0bdd23f 100755
--- a/socket/frame.go
+++ b/socket/frame.go
@@ -282,6 +282,8 @@ type ErrorHandler func(errors.Error)
 
 type S101Decoder struct {
 	escaped bool
+	inFrame bool // BOF seen, EOF not yet
+	inMessage bool // first frame of a message seen, last not yet
 	inbuf bytes.Buffer
 	logger Logger
 	emberbuf bytes.Buffer
@@ -312,11 +314,22 @@ func (decoder *S101Decoder)SetLogger(logger Logger) {
 	}
 }
 
+// dropMessage forgets the frames of a message that can't be completed.
+func (decoder *S101Decoder)dropMessage() {
+	decoder.inMessage = false
+	decoder.emberbuf.Reset()
+}
+
 func (decoder *S101Decoder)DecodeBuffer( bufLen int, buf []byte) {
 	for i := 0; i < bufLen; i++ {
 		b := buf[i];
 		// BOF and EOF are never escaped: after CE they end a damaged frame
 		if b == S101_BOF {
+			if decoder.inFrame || decoder.escaped || decoder.inbuf.Len() > 0 {
+				// lost the end or the start of a frame
+				decoder.dropMessage()
+			}
+			decoder.inFrame = true
 			decoder.inbuf.Reset();
 			decoder.escaped = false;
 		} else if b == S101_EOF {
@@ -325,9 +338,11 @@ func (decoder *S101Decoder)DecodeBuffer( bufLen int, buf []byte) {
 			buffer := make([]byte, decoder.inbuf.Len())
 			decoder.inbuf.Read(buffer)
 			decoder.inbuf.Reset();
+			decoder.inFrame = false
 			var err errors.Error
 			if decoder.escaped {
 				decoder.escaped = false
+				decoder.dropMessage()
 				err = errors.New("dropping frame that ends in an escape")
 			} else {
 				err = decoder.HandleFrame(buffer)
@@ -349,6 +364,7 @@ func (decoder *S101Decoder)DecodeBuffer( bufLen int, buf []byte) {
 func (decoder *S101Decoder)HandleFrame(buffer []byte) errors.Error {
 	decoder.logger.Debug("Frame parsing. total length %d.\n", len(buffer))
 	if !ValidateFrame(bytes.NewReader(buffer)) {
+		decoder.dropMessage()
 		return errors.New("dropping frame with invalid CRC")
 	}
 	var (
@@ -389,23 +405,31 @@ func (decoder *S101Decoder)HandleEmberFrame(frame *bytes.Reader) errors.Error {
 	decoder.logger.Debug("Ember Frame parsing. Total size %d.\n", frame.Len())
 	var emberFrame EmberFrame
 	err := emberFrame.Header.Read(frame)
-	if err != nil { return errors.NewError(err) }
+	if err != nil {
+		decoder.dropMessage()
+		return errors.NewError(err)
+	}
 	
 	if emberFrame.Header.Version != VERSION {
 		// ok to accept different version
 	}
 
 	if emberFrame.Header.Dtd != DTD_GLOW {
+		decoder.dropMessage()
 		return errors.New(fmt.Sprintf("Dropping frame with non-Glow DTD %d.", emberFrame.Header.Dtd))
 	}
 
 	if emberFrame.Header.AppByteLen != 2 {
+		decoder.dropMessage()
 		return errors.New("Frame with unknown DTD length.")
 	}
 
 	if emberFrame.Header.Flags & FLAG_FIRST_MULTI_PACKET != 0 {
 		decoder.logger.Debug("Ember Frame first multi packet.\n")
 		decoder.emberbuf.Reset()
+		decoder.inMessage = true
+	} else if !decoder.inMessage {
+		return errors.New("Dropping frame of a message that was not received from its start.")
 	}
 
 	if emberFrame.Header.Flags & FLAG_EMPTY_PACKET == 0 {
@@ -416,7 +440,7 @@ func (decoder *S101Decoder)HandleEmberFrame(frame *bytes.Reader) errors.Error {
 		decoder.logger.Debug("Ember Frame last packet. Total message size %d.\n", decoder.emberbuf.Len())
 		emberPacket := make([]byte, decoder.emberbuf.Len())
 		decoder.emberbuf.Read(emberPacket)
-		decoder.emberbuf.Reset()
+		decoder.dropMessage()
 		decoder.emberPacketHandler(emberPacket)
 	}
 	decoder.logger.Debug("Ember Frame parsing complete.\n")
-- 
2.43.0


From a819093dd61a66ad46be5a7f7a39d291c49a97a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:52 +0000
Subject: [PATCH 41/55] fix: log from the configured level's severity upwards

---
 logger/logger.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/logger/logger.go b/logger/logger.go
index f86e1e6..096e9dc 100755
--- a/logger/logger.go
+++ b/logger/logger.go
@@ -10,7 +10,7 @@ import (
 type LogLevel uint8
 const (
 
-	ErrorLevel LogLevel = 3
+	ErrorLevel LogLevel = iota
 	WarnLevel LogLevel = iota
 	InfoLevel LogLevel = iota
 	DebugLevel LogLevel = iota
@@ -49,25 +49,25 @@ func (logger *ConsoleLogger)Error(e errors.Error) {
 }
 
 func (logger *ConsoleLogger)Warn(format string, a ...interface{}) {
-	if logger.logLevel >= ErrorLevel {
+	if logger.logLevel >= WarnLevel {
 		fmt.Printf(format, a...)
 	}
 }
 
 func (logger *ConsoleLogger)Info(format string, a ...interface{}) {
-	if logger.logLevel >= ErrorLevel {
+	if logger.logLevel >= InfoLevel {
 		fmt.Printf(format, a...)
 	}
 }
 
 func (logger *ConsoleLogger)Debug(format string, a ...interface{}) {
-	if logger.logLevel >= ErrorLevel {
+	if logger.logLevel >= DebugLevel {
 		fmt.Printf(format, a...)
 	}
 }
 
 func (logger *ConsoleLogger)Debugln(a ...interface{}) {
-	if logger.logLevel >= ErrorLevel {
+	if logger.logLevel >= DebugLevel {
 		fmt.Println(a...)
 	}
 }
-- 
2.43.0


From 69e73b6f558aced510a8a3fb919016a53b4389ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:49 +0000
Subject: [PATCH 42/55] fix: let listeners be added and removed while they are
 called

---
 embertree/element.go   | 17 ++++++------
 embertree/listeners.go | 61 ++++++++++++++++++++++++++++++++++++++++++
 embertree/root.go      | 21 ++++++---------
 3 files changed, 78 insertions(+), 21 deletions(-)
 create mode 100644 embertree/listeners.go

diff --git a/embertree/element.go b/embertree/element.go
index 66cc17a..534f22a 100755
--- a/embertree/element.go
+++ b/embertree/element.go
@@ -42,7 +42,7 @@ type Element struct {
 	parent          *Element
 	contents        EmberContents
 	contentsCreator ContentCreator
-	listeners       map[Listener]Listener
+	listeners       listenerSet
 	logger Logger
 	// for qualified element
 	isQualified bool
@@ -64,8 +64,7 @@ func NewElement(tag uint8, number int, contentsCreator ContentCreator) *Element
 		isMatrix:        false,
 		isQualified:     false,
 		contentsCreator: contentsCreator,
-		logger: NewNullLogger(),
-		listeners:       make(map[Listener]Listener)}
+		logger: NewNullLogger()}
 }
 
 func (element *Element)SetLogger(logger Logger) {
@@ -83,11 +82,15 @@ func (element *Element) CreateContent() interface{} {
 }
 
 func (element *Element) AddListener(listener Listener) {
-	element.listeners[listener] = listener
+	element.listeners.add(listener)
 }
 
 func (element *Element) RemoveListener(listener Listener) {
-	delete(element.listeners, listener)
+	element.listeners.remove(listener)
+}
+
+func (element *Element) HasListner(listener Listener) bool {
+	return element.listeners.has(listener)
 }
 
 func (element *Element) GetContent() EmberContents {
@@ -105,9 +108,7 @@ func (element *Element) AddChild(child *Element) errors.Error {
 }
 
 func (element *Element) updateListeners(err errors.Error) {
-	for _, listener := range element.listeners {
-		listener.Receive(element, err)
-	}
+	element.listeners.receive(element, err)
 }
 func (element *Element) SetContents(contents interface{}) errors.Error {
 	element.contents = contents.(EmberContents)
diff --git a/embertree/listeners.go b/embertree/listeners.go
new file mode 100644
index 0000000..133beb9
--- /dev/null
+++ b/embertree/listeners.go
@@ -0,0 +1,61 @@
+package embertree
+
+import (
+	"sort"
+	"sync"
+
+	"github.com/dufourgilles/emberlib/errors"
+)
+
+// listenerSet holds the listeners of a node. They may come and go from any
+// goroutine, also while they are being called.
+type listenerSet struct {
+	mutex sync.Mutex
+	added map[Listener]uint64
+	last  uint64
+}
+
+func (s *listenerSet) add(listener Listener) {
+	s.mutex.Lock()
+	defer s.mutex.Unlock()
+	if s.added == nil {
+		s.added = make(map[Listener]uint64)
+	}
+	s.last++
+	s.added[listener] = s.last
+}
+
+func (s *listenerSet) remove(listener Listener) {
+	s.mutex.Lock()
+	defer s.mutex.Unlock()
+	delete(s.added, listener)
+}
+
+func (s *listenerSet) has(listener Listener) bool {
+	s.mutex.Lock()
+	defer s.mutex.Unlock()
+	_, ok := s.added[listener]
+	return ok
+}
+
+// all returns the listeners in the order they were added.
+func (s *listenerSet) all() []Listener {
+	s.mutex.Lock()
+	defer s.mutex.Unlock()
+	listeners := make([]Listener, 0, len(s.added))
+	for listener := range s.added {
+		listeners = append(listeners, listener)
+	}
+	sort.Slice(listeners, func(i, j int) bool { return s.added[listeners[i]] < s.added[listeners[j]] })
+	return listeners
+}
+
+// receive calls the listeners in the order they were added, except those
+// that are removed meanwhile.
+func (s *listenerSet) receive(node interface{}, err errors.Error) {
+	for _, listener := range s.all() {
+		if s.has(listener) {
+			listener.Receive(node, err)
+		}
+	}
+}
diff --git a/embertree/root.go b/embertree/root.go
index e8678f0..830beb4 100755
--- a/embertree/root.go
+++ b/embertree/root.go
@@ -11,12 +11,11 @@ import (
 type RootElement struct {
 	RootElementCollection map[int]*Element
 	logger Logger
-	listeners             map[Listener]Listener
+	listeners             listenerSet
 }
 
 func NewTree() *RootElement {
 	return &RootElement{
-		listeners:             make(map[Listener]Listener),
 		RootElementCollection: make(map[int]*Element),
 		logger: NewNullLogger(),
 	}
@@ -128,15 +127,11 @@ func (root *RootElement) Decode(reader *asn1.ASNReader) errors.Error {
 		}
 	}
 	err = reader.ReadSequenceEnd()
-	for _, listener := range(root.listeners) {
-		root.logger.Debug("Updating root listener.\n")
-		listener.Receive(root, nil)
-	}
+	root.logger.Debug("Updating root listeners.\n")
+	root.listeners.receive(root, nil)
 	for path,mElement := range(modifiedElement) {
-		for _,listener := range(mElement.listeners) {
-			root.logger.Debug("Updating Element %s listener.\n", path)
-			listener.Receive(mElement, nil)
-		}
+		root.logger.Debug("Updating Element %s listeners.\n", path)
+		mElement.updateListeners(nil)
 	}
 	return errors.Update(err)
 }
@@ -177,16 +172,16 @@ func (r *RootElement) GetDirectoryMsg(listener Listener) (*RootElement, errors.E
 
 func (r *RootElement) AddListener(listener Listener) {
 	r.logger.Debug("Adding Root Listener.\n")
-	r.listeners[listener] = listener
+	r.listeners.add(listener)
 }
 
 func (r *RootElement) RemoveListener(listener Listener) {
 	r.logger.Debug("Removing Root Listener.\n")
-	delete(r.listeners, listener)
+	r.listeners.remove(listener)
 }
 
 func (r *RootElement) HasListner(listener Listener) bool {
-	return r.listeners[listener] != nil
+	return r.listeners.has(listener)
 }
 
 func (root *RootElement) ToString() string {
-- 
2.43.0


From 5f2f2e7fd91fcf1b2e8a38e8bc49210fd01b7a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:49 +0000
Subject: [PATCH 43/55] fix: log only errors as errors and texts as they are

---
 socket/client.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/socket/client.go b/socket/client.go
index 6529d4d..3855751 100755
--- a/socket/client.go
+++ b/socket/client.go
@@ -98,7 +98,9 @@ func (s *S101Client)emberPacketHandler(packet []byte) errors.Error {
 	s.logger.Debug("Ember Frame - start decoding.\n")
 	s.logger.Debugln(packet)
 	err := s.tree.Decode(asn1.NewASNReader(packet))
-	s.errorHandler(err)
+	if err != nil {
+		s.errorHandler(err)
+	}
 	return err
 }
 
@@ -240,7 +242,7 @@ func (s *S101Client)GetDirectory(node *embertree.Element, callback embertree.Lis
 		msg = node.GetQualifiedDirectoryMsg(callback)
 	}
 	if err != nil {
-		s.logger.Debug("GetDirectory.\n",err)
+		s.logger.Error(err)
 		return errors.Update(err)
 	}
 	if s.msTimeout > 0 {
@@ -291,7 +293,7 @@ func (r *_RoottListeners)Receive(node interface{}, err errors.Error) {
 	if err == nil && node != nil {
 		root := node.(*embertree.RootElement)
 		r.client.logger.Debug("Root CallBack.\n")
-		r.client.logger.Debug(root.ToString())
+		r.client.logger.Debugln(root.ToString())
 		root.RemoveListener(r)
 		for _,element := range(root.RootElementCollection) {
 			r.IncPendingGetDir()
-- 
2.43.0


From 3c72a8c382783f3634c7353e61b6b1c68f143c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:49 +0000
Subject: [PATCH 44/55] fix: answer keep-alive requests

---
 socket/client.go | 34 ++++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/socket/client.go b/socket/client.go
index 3855751..31b88a9 100755
--- a/socket/client.go
+++ b/socket/client.go
@@ -77,13 +77,14 @@ type S101Client struct {
 	tree *embertree.RootElement
 	incomingDataChan chan channelMessage
 	outgoingDataChan chan channelMessage
+	keepAlives int // keep-alive requests to answer; iomanager's own
 	freeTimerCallback embertree.Listener
 }
 
 func (s *S101Client)keepAliveReqHandler(kal []byte) errors.Error {
-	// This should go at the head of the queue
+	// To be answered ahead of the queue
 	s.logger.Debug("KAL Request Received.\n")
-	s.outQ.queue.PushFront(GetKeepAliveResponse())
+	s.keepAlives++
 	return nil
 }
 
@@ -160,10 +161,21 @@ func (s *S101Client)IsConnected() bool {
 	return s.conn != nil
 }
 
-func (s *S101Client)sendBER(data []byte) errors.Error {
+func (s *S101Client)send(message []byte) errors.Error {
 	if !s.IsConnected() {
 		return errors.New("Not connected")
 	}
+	res, e := s.conn.Write(message)
+	if e != nil {
+		s.stats.TxErrors++
+		return errors.NewError(e)
+	}
+	s.stats.TxPackets++
+	s.stats.TxBytes += uint64(res)
+	return nil
+}
+
+func (s *S101Client)sendBER(data []byte) errors.Error {
 	frames := EncodeMessage(data)
 	for i := 0; i < frames.Size(); i++ {
 		message, err := frames.GetBytesAt(i)
@@ -171,14 +183,10 @@ func (s *S101Client)sendBER(data []byte) errors.Error {
 			s.stats.TxErrors++
 			return errors.Update(err)
 		}
-		var res int
-		res, e := s.conn.Write(message)
-		if e != nil {
-			s.stats.TxErrors++
-			return errors.NewError(e)
+		err = s.send(message)
+		if err != nil {
+			return errors.Update(err)
 		}
-		s.stats.TxPackets++
-		s.stats.TxBytes += uint64(res)
 	}
 	return nil
 }
@@ -322,6 +330,12 @@ func (s *S101Client)iomanager() {
 	s.logger.Debug("iomanager started.\n")
 	buffer := make([]byte, maxBufferSize)
 	for s.IsConnected() {
+		for ; s.keepAlives > 0; s.keepAlives-- {
+			err := s.send(GetKeepAliveResponse().Bytes())
+			if err != nil {
+				s.logger.Error(err)
+			}
+		}
 		// Send messages present in our Q - but no more than max
 		messagesToSend := s.outQ.queue.Len()
 		if messagesToSend > 3 {
-- 
2.43.0


From 8877e295f05293bf156511e38ac30759c0c731ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:49 +0000
Subject: [PATCH 45/55] fix: give reads time to happen before their deadline

---
 socket/client.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/socket/client.go b/socket/client.go
index 31b88a9..5927da7 100755
--- a/socket/client.go
+++ b/socket/client.go
@@ -357,8 +357,8 @@ func (s *S101Client)iomanager() {
 			}
 		}
 
-		// collect inbound messages during next 100ms
-		deadline := time.Now().Add(100)
+		// collect inbound messages during next 1ms
+		deadline := time.Now().Add(time.Millisecond)
 		s.conn.SetReadDeadline(deadline)
 		for {
 			len,_ := s.conn.Read(buffer)
-- 
2.43.0


From 1c45e50344180e585a0f1463d3f246f8c99369ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:00 +0000
Subject: [PATCH 46/55] fix: tie the io loop to its connection and notice when
 that is lost

---
 socket/client.go | 118 +++++++++++++++++++++++++++++++++--------------
 1 file changed, 84 insertions(+), 34 deletions(-)

diff --git a/socket/client.go b/socket/client.go
index 5927da7..9f55611 100755
--- a/socket/client.go
+++ b/socket/client.go
@@ -4,6 +4,7 @@ import (
 	"container/list"
 	"fmt"
 	"net"
+	"sync"
 	"time"
 	. "github.com/dufourgilles/emberlib/logger"
 	"github.com/dufourgilles/emberlib/asn1"
@@ -13,6 +14,7 @@ import (
 
 const maxQueueSize = 256
 const maxBufferSize = 65536
+const maxMessagesToSend = 3
 
 type packetQueue struct {
 	queue *list.List
@@ -66,7 +68,10 @@ type _TimerCallbacks struct {
 
 type S101Client struct {
 	stats S101SocketStats
+	connecting sync.Mutex // held while a connection is being made
+	mutex sync.Mutex // guards what more than one goroutine uses: conn, outQ, msTimeout
 	conn  net.Conn
+	stopped chan struct{} // closed when the last iomanager is done
 	raddr string
 	outQ  *packetQueue
 	decoder *S101Decoder
@@ -123,6 +128,8 @@ func NewS101Client() *S101Client {
 }
 
 func (s *S101Client)SetTimeout(msTimeout int) {
+	s.mutex.Lock()
+	defer s.mutex.Unlock()
 	if msTimeout >= 0 {
 		s.msTimeout = msTimeout
 	}
@@ -135,21 +142,29 @@ func (s *S101Client)SetLogger(logger Logger) {
 }
 
 func (s *S101Client)Connect(address string, port uint16) errors.Error {
-	var err error
+	s.connecting.Lock()
+	defer s.connecting.Unlock()
 	if s.IsConnected() {
 		return errors.New("Client already connected to %s:%d", address, port)
 	}
 	s.raddr = fmt.Sprintf("%s:%d", address, port)
-	s.conn, err = net.Dial("tcp", s.raddr)
+	conn, err := net.Dial("tcp", s.raddr)
 	if err != nil {
 		return errors.NewError(err)
 	}
-	go s.iomanager()
+	s.mutex.Lock()
+	defer s.mutex.Unlock()
+	previous := s.stopped
+	s.conn = conn
+	s.stopped = make(chan struct{})
+	go s.iomanager(conn, previous, s.stopped)
 	return nil
 }
 
 func (s *S101Client)Disconnect() errors.Error {
-	if !s.IsConnected() {
+	s.mutex.Lock()
+	defer s.mutex.Unlock()
+	if s.conn == nil {
 		return errors.New("Client not connected.")
 	}
 	err := s.conn.Close()
@@ -158,14 +173,40 @@ func (s *S101Client)Disconnect() errors.Error {
 }
 
 func (s *S101Client)IsConnected() bool {
+	s.mutex.Lock()
+	defer s.mutex.Unlock()
 	return s.conn != nil
 }
 
-func (s *S101Client)send(message []byte) errors.Error {
-	if !s.IsConnected() {
-		return errors.New("Not connected")
+// uses tells whether conn is the connection in use.
+func (s *S101Client)uses(conn net.Conn) bool {
+	s.mutex.Lock()
+	defer s.mutex.Unlock()
+	return s.conn == conn
+}
+
+// lost gives up conn unless it is no longer in use.
+func (s *S101Client)lost(conn net.Conn) {
+	s.mutex.Lock()
+	defer s.mutex.Unlock()
+	if s.conn == conn {
+		conn.Close()
+		s.conn = nil
+	}
+}
+
+// getNext takes the next message to send over conn out of the queue.
+func (s *S101Client)getNext(conn net.Conn) (*embertree.RootElement, errors.Error) {
+	s.mutex.Lock()
+	defer s.mutex.Unlock()
+	if s.conn != conn {
+		return nil, nil
 	}
-	res, e := s.conn.Write(message)
+	return s.outQ.getNext()
+}
+
+func (s *S101Client)send(conn net.Conn, message []byte) errors.Error {
+	res, e := conn.Write(message)
 	if e != nil {
 		s.stats.TxErrors++
 		return errors.NewError(e)
@@ -175,7 +216,7 @@ func (s *S101Client)send(message []byte) errors.Error {
 	return nil
 }
 
-func (s *S101Client)sendBER(data []byte) errors.Error {
+func (s *S101Client)sendBER(conn net.Conn, data []byte) errors.Error {
 	frames := EncodeMessage(data)
 	for i := 0; i < frames.Size(); i++ {
 		message, err := frames.GetBytesAt(i)
@@ -183,7 +224,7 @@ func (s *S101Client)sendBER(data []byte) errors.Error {
 			s.stats.TxErrors++
 			return errors.Update(err)
 		}
-		err = s.send(message)
+		err = s.send(conn, message)
 		if err != nil {
 			return errors.Update(err)
 		}
@@ -191,7 +232,7 @@ func (s *S101Client)sendBER(data []byte) errors.Error {
 	return nil
 }
 
-func (s *S101Client)sendBERNode(node *embertree.RootElement) errors.Error {
+func (s *S101Client)sendBERNode(conn net.Conn, node *embertree.RootElement) errors.Error {
 	if node == nil {
 		return errors.New("null node")
 	}
@@ -202,7 +243,7 @@ func (s *S101Client)sendBERNode(node *embertree.RootElement) errors.Error {
 	}
 	data := make([]byte, writer.Len())
 	writer.Read(data)
-	return s.sendBER(data)
+	return s.sendBER(conn, data)
 }
 
 
@@ -257,6 +298,8 @@ func (s *S101Client)GetDirectory(node *embertree.Element, callback embertree.Lis
 		go s.runTimer(node, callback, timeoutError)
 	}
 	
+	s.mutex.Lock()
+	defer s.mutex.Unlock()
 	return s.outQ.add(msg)
 }
 
@@ -326,49 +369,56 @@ func (s *S101Client)processBuffer(l int, buffer []byte) {
 	s.decoder.DecodeBuffer(l, buffer)
 }
 
-func (s *S101Client)iomanager() {
+func (s *S101Client)iomanager(conn net.Conn, previous chan struct{}, stopped chan struct{}) {
+	defer close(stopped)
+	if previous != nil {
+		<-previous
+	}
 	s.logger.Debug("iomanager started.\n")
 	buffer := make([]byte, maxBufferSize)
-	for s.IsConnected() {
+	s.keepAlives = 0
+	for s.uses(conn) {
 		for ; s.keepAlives > 0; s.keepAlives-- {
-			err := s.send(GetKeepAliveResponse().Bytes())
+			err := s.send(conn, GetKeepAliveResponse().Bytes())
 			if err != nil {
 				s.logger.Error(err)
 			}
 		}
 		// Send messages present in our Q - but no more than max
-		messagesToSend := s.outQ.queue.Len()
-		if messagesToSend > 3 {
-			messagesToSend = 3;
-		}
-		if messagesToSend > 1 {
-			s.logger.Debug("iomanager to send %d messages.\n", messagesToSend)
-		}
-		count := 0
-		for ; count < messagesToSend; count++ {
-			root,_ := s.outQ.getNext()
+		for count := 0; count < maxMessagesToSend; count++ {
+			root,err := s.getNext(conn)
 			if root != nil {
-				err := s.sendBERNode(root)
-				if err != nil {
-					s.logger.Error(err)
-				}
-			} else {
-				s.logger.Warn("iomanager invalid nil root to send.\n")
+				err = s.sendBERNode(conn, root)
+			}
+			if err != nil {
+				s.logger.Error(err)
+			}
+			if root == nil {
+				break
 			}
 		}
 
 		// collect inbound messages during next 1ms
 		deadline := time.Now().Add(time.Millisecond)
-		s.conn.SetReadDeadline(deadline)
+		conn.SetReadDeadline(deadline)
 		for {
-			len,_ := s.conn.Read(buffer)
+			len,err := conn.Read(buffer)
+			if !s.uses(conn) {
+				break
+			}
 			if len > 0 {
 				s.logger.Debug("iomanager received a message of %d bytes.\n", len)
 				s.stats.RxBytes += uint64(len)
 				s.stats.RxPackets++
 				//process the buffer
 				s.processBuffer(len, buffer)
-			} else {
+			}
+			if netErr, ok := err.(net.Error); ok && netErr.Timeout() {
+				break
+			}
+			if err != nil {
+				s.logger.Debugln("Connection lost.", err)
+				s.lost(conn)
 				break
 			}
 		}
-- 
2.43.0


From ca79238725fb5824b647029a63d54910eb822e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:37 +0000
Subject: [PATCH 47/55] fix: end each request with its answer or its timeout,
 not both

---
 socket/client.go | 122 +++++++++++++++++++++++++++++++++--------------
 1 file changed, 87 insertions(+), 35 deletions(-)

diff --git a/socket/client.go b/socket/client.go
index 9f55611..dbcd1ae 100755
--- a/socket/client.go
+++ b/socket/client.go
@@ -60,16 +60,35 @@ func (p *packetQueue) getNext() (*embertree.RootElement, errors.Error) {
 	return nil, nil
 }
 
+// listeningNode is a node that directory requests are made for.
+type listeningNode interface {
+	embertree.ListeningNode
+	HasListner(listener embertree.Listener) bool
+}
+
+// pendingKey tells the requests of a listener for a node.
+type pendingKey struct {
+	node listeningNode
+	listener embertree.Listener
+}
+
+type pendingRequests struct {
+	count int
+	keep bool // the listener was there before the first request
+}
+
+// _TimerCallbacks is a request that waits for its answer or its timeout.
 type _TimerCallbacks struct {
+	pendingKey
 	timer *time.Timer
-	listener embertree.Listener
+	done bool
 	client *S101Client
 }
 
 type S101Client struct {
 	stats S101SocketStats
 	connecting sync.Mutex // held while a connection is being made
-	mutex sync.Mutex // guards what more than one goroutine uses: conn, outQ, msTimeout
+	mutex sync.Mutex // guards what more than one goroutine uses: conn, outQ, msTimeout, pending
 	conn  net.Conn
 	stopped chan struct{} // closed when the last iomanager is done
 	raddr string
@@ -77,13 +96,12 @@ type S101Client struct {
 	decoder *S101Decoder
 	msTimeout int
 	logger Logger
-	timerCallbacks map[embertree.ListeningNode]*_TimerCallbacks
+	pending map[pendingKey]*pendingRequests
 	getTreeCallback embertree.Listener
 	tree *embertree.RootElement
 	incomingDataChan chan channelMessage
 	outgoingDataChan chan channelMessage
 	keepAlives int // keep-alive requests to answer; iomanager's own
-	freeTimerCallback embertree.Listener
 }
 
 func (s *S101Client)keepAliveReqHandler(kal []byte) errors.Error {
@@ -119,7 +137,7 @@ func NewS101Client() *S101Client {
 	client.decoder = NewS101Decoder(client.keepAliveReqHandler,client.keepAliveResponseHandler,client.emberPacketHandler, client.errorHandler )
 	client.stats.Reset()
 	client.logger = NewNullLogger()
-	client.timerCallbacks = make(map[embertree.ListeningNode]*_TimerCallbacks)
+	client.pending = make(map[pendingKey]*pendingRequests)
 	client.outQ = newPacketQueue()
 	client.tree = embertree.NewTree()
 	client.incomingDataChan = make(chan channelMessage, 100)
@@ -247,60 +265,94 @@ func (s *S101Client)sendBERNode(conn net.Conn, node *embertree.RootElement) erro
 }
 
 
+// finish ends the request. It returns nil when it had already ended.
+// The client's mutex is held.
+func (t *_TimerCallbacks)finish() *pendingRequests {
+	if t.done {
+		return nil
+	}
+	t.done = true
+	requests := t.client.pending[t.pendingKey]
+	requests.count--
+	if requests.count == 0 {
+		delete(t.client.pending, t.pendingKey)
+	}
+	return requests
+}
+
+// Receive is called before the listener of the request is.
 func (t *_TimerCallbacks)Receive(node interface{}, err errors.Error) {
-	treeNode := node.(embertree.ListeningNode)
-	timerCB := t.client.timerCallbacks[treeNode]
-	if timerCB == nil {
-		return
+	t.client.mutex.Lock()
+	t.finish()
+	if t.timer != nil {
+		t.timer.Stop()
 	}
+	t.client.mutex.Unlock()
 	t.client.logger.Debug("Timer Stopped.\n")
-	timerCB.timer.Stop()
-	delete(t.client.timerCallbacks, treeNode)
 	// Remove myself from node
-	treeNode.RemoveListener(t)
+	t.node.RemoveListener(t)
 }
 
-func (s *S101Client)runTimer(node *embertree.Element, callback embertree.Listener, timeoutError errors.Error) {
-	var treeNode embertree.ListeningNode
-	if node == nil {
-		treeNode = s.tree
-	} else {
-		treeNode = node
+func (t *_TimerCallbacks)timedOut(timeoutError errors.Error) {
+	t.client.mutex.Lock()
+	requests := t.finish()
+	if requests != nil && requests.count == 0 && !requests.keep {
+		// a late answer finds nobody listening
+		t.node.RemoveListener(t.listener)
+	}
+	t.client.mutex.Unlock()
+	t.node.RemoveListener(t)
+	if requests != nil {
+		t.client.logger.Debug("Timer Kicked.\n")
+		t.listener.Receive(nil, timeoutError)
+	}
+}
+
+// expect makes the listener wait for what becomes of a request.
+// The client's mutex is held.
+func (s *S101Client)expect(node listeningNode, listener embertree.Listener, timeoutError errors.Error) {
+	request := &_TimerCallbacks{client: s, pendingKey: pendingKey{node: node, listener: listener}}
+	requests := s.pending[request.pendingKey]
+	if requests == nil {
+		requests = &pendingRequests{keep: node.HasListner(listener)}
+		s.pending[request.pendingKey] = requests
+	}
+	requests.count++
+	node.AddListener(request)
+	node.AddListener(listener)
+	if s.msTimeout > 0 {
+		request.timer = time.AfterFunc(time.Duration(int64(s.msTimeout)) * time.Millisecond, func() { request.timedOut(timeoutError) })
 	}
-	s.logger.Debug("Timer running.\n")
-	freeTimerCallback := &_TimerCallbacks{client: s, timer: time.NewTimer(time.Duration(int64(s.msTimeout)) * time.Millisecond)}
-	treeNode.AddListener(freeTimerCallback)
-	s.timerCallbacks[treeNode] = freeTimerCallback
-	<-s.timerCallbacks[treeNode].timer.C
-	s.logger.Debug("Timer Kicked.\n")
-	callback.Receive(nil, timeoutError)
-	s.logger.Debug("Cleaning Timer callback.\n")
-	delete(s.timerCallbacks, treeNode)
-	treeNode.RemoveListener(s.freeTimerCallback)
 }
 
 func (s *S101Client)GetDirectory(node *embertree.Element, callback embertree.Listener) errors.Error {
 	var msg *embertree.RootElement
 	var err errors.Error
+	var treeNode listeningNode
 	timeoutError := errors.New("GetDirectory timed out.")	
 	if node == nil {
 		s.logger.Debug("Send GetDirectory for root.\n")
-		msg,err = s.tree.GetDirectoryMsg(callback)		
+		treeNode = s.tree
+		msg,err = s.tree.GetDirectoryMsg(nil)
 	} else {
 		s.logger.Debug("Send GetDirectory for %s.\n", embertree.Path2String(node.GetPath()))
-		msg = node.GetQualifiedDirectoryMsg(callback)
+		treeNode = node
+		msg = node.GetQualifiedDirectoryMsg(nil)
 	}
 	if err != nil {
 		s.logger.Error(err)
 		return errors.Update(err)
 	}
-	if s.msTimeout > 0 {
-		go s.runTimer(node, callback, timeoutError)
-	}
-	
 	s.mutex.Lock()
 	defer s.mutex.Unlock()
-	return s.outQ.add(msg)
+	err = s.outQ.add(msg)
+	if err != nil {
+		return errors.Update(err)
+	}
+	if callback != nil {
+		s.expect(treeNode, callback, timeoutError)
+	}
+	return nil
 }
 
 type _ElementListeners struct {
-- 
2.43.0


From 96627e5ed2e93456158da783f571987a38cc599b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:52 +0000
Subject: [PATCH 48/55] fix: complete a tree request exactly once, however wide
 the tree

---
 socket/client.go | 67 +++++++++++++++++++++++++++++++-----------------
 1 file changed, 44 insertions(+), 23 deletions(-)

diff --git a/socket/client.go b/socket/client.go
index dbcd1ae..ae2e330 100755
--- a/socket/client.go
+++ b/socket/client.go
@@ -40,8 +40,8 @@ func (p *packetQueue) isEmpty() bool {
 	return p.queue.Len() == 0
 }
 
-func (p *packetQueue) add(msg *embertree.RootElement) errors.Error{
-	if p.size() > maxQueueSize {
+func (p *packetQueue) add(msg *embertree.RootElement, limited bool) errors.Error{
+	if limited && p.size() > maxQueueSize {
 		return errors.New("Queue size limit. Drop message.")
 	}
 	p.queue.PushBack(msg)
@@ -326,6 +326,10 @@ func (s *S101Client)expect(node listeningNode, listener embertree.Listener, time
 }
 
 func (s *S101Client)GetDirectory(node *embertree.Element, callback embertree.Listener) errors.Error {
+	return s.getDirectory(node, callback, true)
+}
+
+func (s *S101Client)getDirectory(node *embertree.Element, callback embertree.Listener, limited bool) errors.Error {
 	var msg *embertree.RootElement
 	var err errors.Error
 	var treeNode listeningNode
@@ -345,7 +349,7 @@ func (s *S101Client)GetDirectory(node *embertree.Element, callback embertree.Lis
 	}
 	s.mutex.Lock()
 	defer s.mutex.Unlock()
-	err = s.outQ.add(msg)
+	err = s.outQ.add(msg, limited)
 	if err != nil {
 		return errors.Update(err)
 	}
@@ -363,56 +367,73 @@ type _ElementListeners struct {
 // getElementCallback
 func (l *_ElementListeners)Receive(node interface{}, err errors.Error) {
 	l.client.logger.Debug("Element Callback.\n")	
-	if err == nil && node != nil {
+	if node != nil {
 		element := node.(*embertree.Element)
 		element.RemoveListener(l)
-		for _,child := range(element.Children) {
-			l.rootListener.IncPendingGetDir()
-			elementCallback := &_ElementListeners{client: l.client, rootListener: l.rootListener}
-			go l.client.GetDirectory(child, elementCallback)
+		if err == nil {
+			l.rootListener.getDirectories(element.Children)
 		}
 	}
-	l.rootListener.DecPendingGetDir(node,err)
+	l.rootListener.DecPendingGetDir(err)
 }
 
 type _RoottListeners struct {
 	client *S101Client
+	mutex sync.Mutex // guards pendingGetDirectory and err
 	pendingGetDirectory uint
+	err errors.Error // the first one
 	listener embertree.Listener
 }
 
 func (r *_RoottListeners)IncPendingGetDir() {
+	r.mutex.Lock()
+	defer r.mutex.Unlock()
 	r.pendingGetDirectory++
 }
 
-func (r *_RoottListeners)DecPendingGetDir(node interface{}, err errors.Error) {
+func (r *_RoottListeners)DecPendingGetDir(err errors.Error) {
+	r.mutex.Lock()
 	r.pendingGetDirectory--
-	if r.pendingGetDirectory == 0 {
-		r.listener.Receive(r.client.tree, err)
+	if r.err == nil {
+		r.err = err
+	}
+	complete := r.pendingGetDirectory == 0
+	r.mutex.Unlock()
+	if complete {
+		r.listener.Receive(r.client.tree, r.err)
+	}
+}
+
+// getDirectories continues with the given elements. However many they are,
+// the request they are part of has been accepted.
+func (r *_RoottListeners)getDirectories(elements map[int]*embertree.Element) {
+	for _,element := range(elements) {
+		r.IncPendingGetDir()
+		elementCallback := &_ElementListeners{client: r.client, rootListener: r}
+		r.client.logger.Debug("Callback GetDir for %s.\n", embertree.Path2String(element.GetPath()))
+		err := r.client.getDirectory(element, elementCallback, false)
+		if err != nil {
+			r.DecPendingGetDir(err)
+		}
 	}
 }
 
 func (r *_RoottListeners)Receive(node interface{}, err errors.Error) {	
-	if err == nil && node != nil {
+	if node != nil {
 		root := node.(*embertree.RootElement)
 		r.client.logger.Debug("Root CallBack.\n")
 		r.client.logger.Debugln(root.ToString())
 		root.RemoveListener(r)
-		for _,element := range(root.RootElementCollection) {
-			r.IncPendingGetDir()
-			elementCallback := &_ElementListeners{client: r.client, rootListener: r}
-			r.client.logger.Debug("Root Callback GetDir for %s.\n", embertree.Path2String(element.GetPath()))
-			go r.client.GetDirectory(element, elementCallback)
+		if err == nil {
+			r.getDirectories(root.RootElementCollection)
 		}
 	}
-	if r.pendingGetDirectory == 0 {
-		r.listener.Receive(r.client.tree, err)
-		return
-	}
+	r.DecPendingGetDir(err)
 }
 
 func (s *S101Client)GetTree(listener embertree.Listener) errors.Error {
-	rootCallback := &_RoottListeners{client: s, listener: listener, pendingGetDirectory: 0}
+	// the root itself is the first to wait for
+	rootCallback := &_RoottListeners{client: s, listener: listener, pendingGetDirectory: 1}
 	return s.GetDirectory(nil, rootCallback)
 }
 
-- 
2.43.0


From fb5914c31a5ffbb242affb7dab41166398eba092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:46 +0000
Subject: [PATCH 49/55] fix: call listeners once a message has been applied in
 full

---
 embertree/element.go   | 15 +++++++++++---
 embertree/listeners.go | 47 ++++++++++++++++++++++++++++++++++++------
 embertree/root.go      | 34 +++++++++++++++---------------
 3 files changed, 70 insertions(+), 26 deletions(-)

diff --git a/embertree/element.go b/embertree/element.go
index 534f22a..8ceca6d 100755
--- a/embertree/element.go
+++ b/embertree/element.go
@@ -108,7 +108,9 @@ func (element *Element) AddChild(child *Element) errors.Error {
 }
 
 func (element *Element) updateListeners(err errors.Error) {
-	element.listeners.receive(element, err)
+	var updated updates
+	updated.add(&element.listeners, element, err)
+	updated.callListeners()
 }
 func (element *Element) SetContents(contents interface{}) errors.Error {
 	element.contents = contents.(EmberContents)
@@ -117,6 +119,13 @@ func (element *Element) SetContents(contents interface{}) errors.Error {
 }
 
 func (element *Element) Update(newElement *Element) errors.Error {
+	var updated updates
+	err := element.update(newElement, &updated)
+	updated.callListeners()
+	return err
+}
+
+func (element *Element) update(newElement *Element, updated *updates) errors.Error {
 	var err errors.Error
 	if element.Number != newElement.Number || qualifiedTag(element.tag) != qualifiedTag(newElement.tag) {
 		return errors.New("Attempt to update different element Number %d/%d Tag %d/%d", element.Number, newElement.Number, element.tag, newElement.tag)
@@ -131,13 +140,13 @@ func (element *Element) Update(newElement *Element) errors.Error {
 		if child == nil {
 			err = element.AddChild(newChild)
 		} else {
-			err = child.Update(newChild)
+			err = child.update(newChild, updated)
 		}
 		if err != nil {
 			break
 		}
 	}
-	element.updateListeners(err)
+	updated.add(&element.listeners, element, err)
 	return err
 }
 
diff --git a/embertree/listeners.go b/embertree/listeners.go
index 133beb9..320b048 100644
--- a/embertree/listeners.go
+++ b/embertree/listeners.go
@@ -50,12 +50,47 @@ func (s *listenerSet) all() []Listener {
 	return listeners
 }
 
-// receive calls the listeners in the order they were added, except those
-// that are removed meanwhile.
-func (s *listenerSet) receive(node interface{}, err errors.Error) {
-	for _, listener := range s.all() {
-		if s.has(listener) {
-			listener.Receive(node, err)
+// updates collects the nodes a message changes, so that their listeners are
+// called when all of it has been applied.
+type updates struct {
+	nodes []*updatedNode
+	known map[*listenerSet]*updatedNode
+}
+
+type updatedNode struct {
+	node      interface{}
+	err       errors.Error
+	set       *listenerSet
+	listeners []Listener
+}
+
+func (u *updates) add(set *listenerSet, node interface{}, err errors.Error) {
+	if u.known == nil {
+		u.known = make(map[*listenerSet]*updatedNode)
+	}
+	updated := u.known[set]
+	if updated == nil {
+		updated = &updatedNode{node: node, set: set}
+		u.nodes = append(u.nodes, updated)
+		u.known[set] = updated
+	}
+	if updated.err == nil {
+		updated.err = err
+	}
+}
+
+// callListeners calls the listeners of each node in the order they were
+// added. It leaves out those that are removed meanwhile, and those that the
+// called ones add: they wait for another message.
+func (u *updates) callListeners() {
+	for _, updated := range u.nodes {
+		updated.listeners = updated.set.all()
+	}
+	for _, updated := range u.nodes {
+		for _, listener := range updated.listeners {
+			if updated.set.has(listener) {
+				listener.Receive(updated.node, updated.err)
+			}
 		}
 	}
 }
diff --git a/embertree/root.go b/embertree/root.go
index 830beb4..d7cd9ed 100755
--- a/embertree/root.go
+++ b/embertree/root.go
@@ -53,35 +53,42 @@ func (root *RootElement) GetElementByPath(path asn1.RelativeOID) (*Element,*Elem
 	return parent,element
 }
 
-func (root *RootElement) updateQualifiedElement(element *Element) (*Element, errors.Error) {
+func (root *RootElement) updateQualifiedElement(element *Element, updated *updates) errors.Error {
 	var err errors.Error
 	parent, currentElement := root.GetElementByPath(element.path)
 	if currentElement == nil {
 		if parent != nil {
 			parent.AddChild(element)
-			return parent,err			
+			updated.add(&parent.listeners, parent, nil)
 		} else {
 			err = errors.New("Element path %s not connected to our tree\n.", Path2String(element.path))
 		}
 	} else {
-		err = currentElement.Update(element)
+		err = currentElement.update(element, updated)
 	}
-	return nil,err
+	return err
 }
 
-func (root *RootElement) updateElement(element *Element) errors.Error {
+func (root *RootElement) updateElement(element *Element, updated *updates) errors.Error {
 	var err errors.Error
 	currentElement := root.GetElementByNumber(element.Number)
 	if currentElement == nil {
 		root.AddElement(element)		
 	} else {
-		err = currentElement.Update(element)
+		err = currentElement.update(element, updated)
 	}
 	return err
 }
 
 func (root *RootElement) Decode(reader *asn1.ASNReader) errors.Error {
-	modifiedElement := make(map[string]*Element)
+	var updated updates
+	err := root.decode(reader, &updated)
+	// also when not all of the message could be decoded
+	updated.callListeners()
+	return errors.Update(err)
+}
+
+func (root *RootElement) decode(reader *asn1.ASNReader, updated *updates) errors.Error {
 	_, reader, err := reader.ReadSequenceStart(asn1.Application(0))
 	if err != nil {
 		return err
@@ -113,12 +120,9 @@ func (root *RootElement) Decode(reader *asn1.ASNReader) errors.Error {
 			}
 			root.logger.Debug("Updating E/QE %s.\n", Path2String(element.GetPath()))
 			if element.isQualified && len(element.path) > 1 {
-				parent,err := root.updateQualifiedElement(element)
-				if err == nil && parent != nil {
-					modifiedElement[Path2String(parent.GetPath())] = parent
-				}
+				root.updateQualifiedElement(element, updated)
 			} else {
-				root.updateElement(element)
+				root.updateElement(element, updated)
 			}
 			err = elementReader.ReadSequenceEnd()
 			if err != nil {
@@ -128,11 +132,7 @@ func (root *RootElement) Decode(reader *asn1.ASNReader) errors.Error {
 	}
 	err = reader.ReadSequenceEnd()
 	root.logger.Debug("Updating root listeners.\n")
-	root.listeners.receive(root, nil)
-	for path,mElement := range(modifiedElement) {
-		root.logger.Debug("Updating Element %s listeners.\n", path)
-		mElement.updateListeners(nil)
-	}
+	updated.add(&root.listeners, root, nil)
 	return errors.Update(err)
 }
 
-- 
2.43.0


From 538ea4131f23314e8291b45573076d2ce04d36a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:04 +0000
Subject: [PATCH 50/55] fix: let an answer end a request and reach its listener
 at once

---
 embertree/element.go   | 5 +++++
 embertree/listeners.go | 8 +++++---
 embertree/root.go      | 6 ++++++
 socket/client.go       | 5 +++--
 4 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/embertree/element.go b/embertree/element.go
index 8ceca6d..203d1de 100755
--- a/embertree/element.go
+++ b/embertree/element.go
@@ -85,6 +85,11 @@ func (element *Element) AddListener(listener Listener) {
 	element.listeners.add(listener)
 }
 
+// AddListeners adds listeners that hear of the same updates.
+func (element *Element) AddListeners(listeners ...Listener) {
+	element.listeners.add(listeners...)
+}
+
 func (element *Element) RemoveListener(listener Listener) {
 	element.listeners.remove(listener)
 }
diff --git a/embertree/listeners.go b/embertree/listeners.go
index 320b048..c6fc491 100644
--- a/embertree/listeners.go
+++ b/embertree/listeners.go
@@ -15,14 +15,16 @@ type listenerSet struct {
 	last  uint64
 }
 
-func (s *listenerSet) add(listener Listener) {
+func (s *listenerSet) add(listeners ...Listener) {
 	s.mutex.Lock()
 	defer s.mutex.Unlock()
 	if s.added == nil {
 		s.added = make(map[Listener]uint64)
 	}
-	s.last++
-	s.added[listener] = s.last
+	for _, listener := range listeners {
+		s.last++
+		s.added[listener] = s.last
+	}
 }
 
 func (s *listenerSet) remove(listener Listener) {
diff --git a/embertree/root.go b/embertree/root.go
index d7cd9ed..875cb6f 100755
--- a/embertree/root.go
+++ b/embertree/root.go
@@ -175,6 +175,12 @@ func (r *RootElement) AddListener(listener Listener) {
 	r.listeners.add(listener)
 }
 
+// AddListeners adds listeners that hear of the same updates.
+func (r *RootElement) AddListeners(listeners ...Listener) {
+	r.logger.Debug("Adding Root Listeners.\n")
+	r.listeners.add(listeners...)
+}
+
 func (r *RootElement) RemoveListener(listener Listener) {
 	r.logger.Debug("Removing Root Listener.\n")
 	r.listeners.remove(listener)
diff --git a/socket/client.go b/socket/client.go
index ae2e330..bf98109 100755
--- a/socket/client.go
+++ b/socket/client.go
@@ -63,6 +63,7 @@ func (p *packetQueue) getNext() (*embertree.RootElement, errors.Error) {
 // listeningNode is a node that directory requests are made for.
 type listeningNode interface {
 	embertree.ListeningNode
+	AddListeners(listeners ...embertree.Listener)
 	HasListner(listener embertree.Listener) bool
 }
 
@@ -318,8 +319,8 @@ func (s *S101Client)expect(node listeningNode, listener embertree.Listener, time
 		s.pending[request.pendingKey] = requests
 	}
 	requests.count++
-	node.AddListener(request)
-	node.AddListener(listener)
+	// an answer ends the request and reaches the listener, or neither
+	node.AddListeners(request, listener)
 	if s.msTimeout > 0 {
 		request.timer = time.AfterFunc(time.Duration(int64(s.msTimeout)) * time.Millisecond, func() { request.timedOut(timeoutError) })
 	}
-- 
2.43.0


From 1bb96c4d1edf5675424a60341a07eea42b681ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:21 +0000
Subject: [PATCH 51/55] fix: build the text of a path in one go

The text was copied for every number, so that decoding a qualified
element with a path of some ten thousand numbers, 50 KB, allocated
gigabytes and took seconds.
---
 embertree/element.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/embertree/element.go b/embertree/element.go
index 203d1de..eeafaa3 100755
--- a/embertree/element.go
+++ b/embertree/element.go
@@ -2,6 +2,8 @@ package embertree
 
 import (
 	"fmt"
+	"strconv"
+	"strings"
 
 	. "github.com/dufourgilles/emberlib/logger"
 	"github.com/dufourgilles/emberlib/asn1"
@@ -327,15 +329,14 @@ func (element *Element) GetDirectoryMsg(listener Listener) (*RootElement, errors
 }
 
 func Path2String(path asn1.RelativeOID) string {
-	str := ""
+	var str strings.Builder
 	for index,number := range(path) {
-		if index == 0 {
-			str = fmt.Sprintf("%d", number)
-		} else {
-			str = fmt.Sprintf("%s.%d", str, number)
+		if index > 0 {
+			str.WriteByte('.')
 		}
+		str.WriteString(strconv.FormatInt(int64(number), 10))
 	}
-	return str
+	return str.String()
 }
 
 func (element *Element)ToString() string {
-- 
2.43.0


From 50e14bff4c7874bd4aabba14b0555a738c678a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:45 +0000
Subject: [PATCH 52/55] fix: merge connections in one pass

---
 embertree/matrix_element.go | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/embertree/matrix_element.go b/embertree/matrix_element.go
index 97dccc9..fa747bc 100755
--- a/embertree/matrix_element.go
+++ b/embertree/matrix_element.go
@@ -198,20 +198,30 @@ func (element *Element) updateMatrix(newElement *Element) {
 	if len(newElement.sources) > 0 {
 		element.sources = newElement.sources
 	}
-	for _, connection := range newElement.connections {
-		element.updateConnection(connection)
-	}
+	element.updateConnections(newElement.connections)
 }
 
-// updateConnection replaces the connection of the same target or adds it.
-func (element *Element) updateConnection(connection *Connection) {
+// updateConnections replaces the connections of the same targets and adds the
+// others.
+func (element *Element) updateConnections(connections []*Connection) {
+	if len(connections) == 0 {
+		return
+	}
+	known := make(map[int32]int, len(element.connections))
 	for i, current := range element.connections {
-		if current.Target == connection.Target {
+		if _, ok := known[current.Target]; !ok {
+			known[current.Target] = i
+		}
+	}
+	for _, connection := range connections {
+		i, ok := known[connection.Target]
+		if ok {
 			element.connections[i] = connection
-			return
+		} else {
+			known[connection.Target] = len(element.connections)
+			element.connections = append(element.connections, connection)
 		}
 	}
-	element.connections = append(element.connections, connection)
 }
 
 func (element *Element) SetTargets(targets []Signal) errors.Error {
-- 
2.43.0


From 35874f0e713c9e9b28251a237918c28d1b499d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:54 +0000
Subject: [PATCH 53/55] fix: taking the bytes of a frame leaves the frame as it
 is

---
 socket/frame.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/socket/frame.go b/socket/frame.go
index 0bdd23f..58f8d34 100755
--- a/socket/frame.go
+++ b/socket/frame.go
@@ -199,7 +199,7 @@ func (s *S101FrameList)GetBytesAt(i int) ([]byte, errors.Error) {
 		return nil, errors.New("out of bound")
 	}
 	res := make([]byte, s.frames[i].Len())
-	s.frames[i].Read(res)
+	copy(res, s.frames[i].Bytes())
 	return res, nil
 }
 
-- 
2.43.0


From 81204fe0cd4aac1b2cd0ccebb78af6c8c10eda6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:45 +0000
Subject: [PATCH 54/55] fix: connect to IPv6 addresses

---
 socket/client.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/socket/client.go b/socket/client.go
index bf98109..4ab39cf 100755
--- a/socket/client.go
+++ b/socket/client.go
@@ -4,6 +4,7 @@ import (
 	"container/list"
 	"fmt"
 	"net"
+	"strings"
 	"sync"
 	"time"
 	. "github.com/dufourgilles/emberlib/logger"
@@ -166,6 +167,10 @@ func (s *S101Client)Connect(address string, port uint16) errors.Error {
 	if s.IsConnected() {
 		return errors.New("Client already connected to %s:%d", address, port)
 	}
+	if strings.Contains(address, ":") && !strings.HasPrefix(address, "[") {
+		// an IPv6 address
+		address = "[" + address + "]"
+	}
 	s.raddr = fmt.Sprintf("%s:%d", address, port)
 	conn, err := net.Dial("tcp", s.raddr)
 	if err != nil {
-- 
2.43.0


From b3e85a4d767d3155e3421e6a16ac65c69253b9c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:11 +0000
Subject: [PATCH 55/55] fix: don't continue a message of one connection on the
 next

---
 socket/client.go | 1 +
 socket/frame.go  | 8 ++++++++
 2 files changed, 9 insertions(+)

diff --git a/socket/client.go b/socket/client.go
index 4ab39cf..9605315 100755
--- a/socket/client.go
+++ b/socket/client.go
@@ -456,6 +456,7 @@ func (s *S101Client)iomanager(conn net.Conn, previous chan struct{}, stopped cha
 	s.logger.Debug("iomanager started.\n")
 	buffer := make([]byte, maxBufferSize)
 	s.keepAlives = 0
+	s.decoder.reset()
 	for s.uses(conn) {
 		for ; s.keepAlives > 0; s.keepAlives-- {
 			err := s.send(conn, GetKeepAliveResponse().Bytes())
diff --git a/socket/frame.go b/socket/frame.go
index 58f8d34..84a944a 100755
--- a/socket/frame.go
+++ b/socket/frame.go
@@ -320,6 +320,14 @@ func (decoder *S101Decoder)dropMessage() {
 	decoder.emberbuf.Reset()
 }
 
+// reset forgets what is unfinished, when the stream it is part of has ended.
+func (decoder *S101Decoder)reset() {
+	decoder.dropMessage()
+	decoder.inbuf.Reset()
+	decoder.inFrame = false
+	decoder.escaped = false
+}
+
 func (decoder *S101Decoder)DecodeBuffer( bufLen int, buf []byte) {
 	for i := 0; i < bufLen; i++ {
 		b := buf[i];
-- 
2.43.0

