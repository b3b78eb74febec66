From 1480d338ce0c812acc08fb372f20f9e03f6285a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:50 +0000
Subject: [PATCH 01/55] fix: asn1: encode lengths of 3 and 4 bytes with the
 right prefix

A length from 65536 to 2^24-1 was announced as two bytes long but written
on three, and a longer one was not written at all.
---
 asn1/encode.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/asn1/encode.go b/asn1/encode.go
index c9426eb..2518710 100755
--- a/asn1/encode.go
+++ b/asn1/encode.go
@@ -259,7 +259,7 @@ func (asn *ASNWriter) writeLength(len int) errors.Error {
 		}
 		err = asn.data.WriteByte(byte(len & 0xFF))
 	} else if len <= 0xffffff {
-		err = asn.data.WriteByte(0x82)
+		err = asn.data.WriteByte(0x83)
 		if err != nil {
 			return errors.NewError(err)
 		}
@@ -272,6 +272,10 @@ func (asn *ASNWriter) writeLength(len int) errors.Error {
 			return errors.NewError(err)
 		}
 		err = asn.data.WriteByte(byte(len & 0xFF))
+	} else if len <= 0x7fffffff {
+		_, err = asn.data.Write([]byte{0x84, byte(len >> 24), byte(len >> 16), byte(len >> 8), byte(len)})
+	} else {
+		return errors.New("Length %d too big.", len)
 	}
 	return errors.NewError(err)
 }
-- 
2.43.0


From a5290daa4b07cdc583568645f2f1831aee0deada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:53 +0000
Subject: [PATCH 02/55] fix: asn1: announce the length of a real's exponent

Exponents that need two bytes (beyond -128..127) were written without
saying so in the preamble, and were read back as one byte.
---
 asn1/encode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1/encode.go b/asn1/encode.go
index 2518710..211cfd6 100755
--- a/asn1/encode.go
+++ b/asn1/encode.go
@@ -218,7 +218,7 @@ func (asn *ASNWriter) WriteReal(r float64) errors.Error {
 	significandSize, significandVal := shortenLong(significand)
 
 	asn.writeLength(1 + expSize + significandSize)
-	preamble := uint8(0x80)
+	preamble := uint8(0x80) | uint8(expSize-1)
 	if r < 0 {
 		preamble |= 0x40
 	}
-- 
2.43.0


From 40cfdc11621a2a5a9caaead4fbc284b55e94db0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:56 +0000
Subject: [PATCH 03/55] fix: asn1: reject a real without significand instead of
 looping forever

---
 asn1/decode.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/asn1/decode.go b/asn1/decode.go
index 4ff5426..e8b3a67 100755
--- a/asn1/decode.go
+++ b/asn1/decode.go
@@ -421,6 +421,9 @@ func (a *ASNReader) ReadReal() (float64, errors.Error) {
 	}
 
 	significand = significand << significandShift
+	if significand&uint64(0x7FFFFFFFFFFFFFFF) == 0 {
+		return math.NaN(), errors.New("Invalid ASN.1; no significand in real at offset %d", offset)
+	}
 
 	mask := uint64(0x7FFFF00000000000)
 	for significand&mask == 0 {
-- 
2.43.0


From a21b28ef14f7eab603f16ab512f2beaff235cb62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:00 +0000
Subject: [PATCH 04/55] fix: asn1: report truncated and empty booleans and
 integers

The error of the last read was dropped, so that a truncated value was
read as 0, and an integer without content swallowed the next byte.
---
 asn1/decode.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/asn1/decode.go b/asn1/decode.go
index e8b3a67..2b97b21 100755
--- a/asn1/decode.go
+++ b/asn1/decode.go
@@ -69,9 +69,9 @@ func (a *ASNReader) ReadBoolean() (bool, errors.Error) {
 	if l != 1 {
 		return false, errors.New("Invalid boolean length %d at offset %d", l, offset)
 	}
-	b, e := a.ReadByte()
+	b, err = a.ReadByte()
 	if err != nil {
-		return false, errors.Update(e)
+		return false, errors.Update(err)
 	}
 	if b == 0 {
 		return false, nil
@@ -214,13 +214,16 @@ func (a *ASNReader) ReadInt() (int, errors.Error) {
 	if err != nil {
 		return 0, err
 	}
-	if l > 4 {
-		return 0, errors.New("Integer length too big %d at offset %d", l, offset)
+	if l <= 0 || l > 4 {
+		return 0, errors.New("Invalid integer length %d at offset %d", l, offset)
 	}
 
 	var b byte
 	val := int(0)
 	b, err = a.ReadByte()
+	if err != nil {
+		return 0, errors.Update(err)
+	}
 	if b&0x80 > 0 {
 		val = -1
 	}
@@ -278,11 +281,14 @@ func (a *ASNReader) ReadInt64() (int64, errors.Error) {
 	if err != nil {
 		return 0, errors.Update(err)
 	}
-	if l > 8 {
-		return 0, errors.New("Integer64 length too big %d at offset %d", l, offset)
+	if l <= 0 || l > 8 {
+		return 0, errors.New("Invalid integer64 length %d at offset %d", l, offset)
 	}
 
 	val, err := a.readInt64(l)
+	if err != nil {
+		return 0, errors.Update(err)
+	}
 	return val, nil
 }
 
-- 
2.43.0


From 3decc5e1ade18fa198cae286363e04c2434293ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:09 +0000
Subject: [PATCH 05/55] fix: asn1: reject lengths that go beyond the data

A sequence longer than the one it is in was completed with zeros, the
error of an invalid length was dropped, and a few bytes could claim
gigabytes of memory. An outermost sequence cut short is still accepted,
as TestDecodeRootWithChildren asks, if at least half of it is there.
---
 asn1/decode.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/asn1/decode.go b/asn1/decode.go
index 2b97b21..0a67e2e 100755
--- a/asn1/decode.go
+++ b/asn1/decode.go
@@ -33,8 +33,12 @@ func (a *ASNReader) NewReader(length int) (*ASNReader, errors.Error) {
 	if length <= 0 {
 		return NewASNReader([]byte{}), nil
 	}
-	b := make([]byte, length)
 	offset := a.TopOffset()
+	// Only the outermost sequence may be cut short, and never by more than what is left of it.
+	if missing := length - a.Len(); missing > 0 && (a.startingOffset > 0 || missing > a.Len()) {
+		return nil, errors.New("Length %d at offset %d exceeds the %d bytes left.", length, offset, a.Len())
+	}
+	b := make([]byte, length)
 	_, err := a.data.Read(b)
 	if err != nil {
 		return nil, errors.New("Failed To read byte at offset %d. %s", a.TopOffset(), err)
@@ -153,6 +157,9 @@ func (a *ASNReader) ReadSequenceStart(tag uint8) (int, *ASNReader, errors.Error)
 		return -1, a, errors.New("Sequence TAG mismatch at offset %d. Got %d instead of %d", offset, b, tag)
 	}
 	length, err := a.ReadLength()
+	if err != nil {
+		return -1, nil, errors.Update(err)
+	}
 	if length >= 0 {
 		newReader, err := a.NewReader(length)
 
@@ -329,6 +336,9 @@ func (a *ASNReader) readStringBuffer() ([]byte, errors.Error) {
 	} else if l == 0 {
 		return nil, nil
 	}
+	if l > a.Len() {
+		return nil, errors.New("Length %d at offset %d exceeds the %d bytes left.", l, a.TopOffset(), a.Len())
+	}
 	b = make([]byte, l)
 	for i := 0; i < l; i++ {
 		b[i], err = a.ReadByte()
-- 
2.43.0


From ff9d53d52b7590b6a51c2989cf7201bdf1ac5fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:12 +0000
Subject: [PATCH 06/55] fix: asn1: encode the OID component 127 on one byte

---
 asn1/encode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1/encode.go b/asn1/encode.go
index 211cfd6..1063b5b 100755
--- a/asn1/encode.go
+++ b/asn1/encode.go
@@ -336,7 +336,7 @@ func (asn *ASNWriter) WriteRelativeOID(oid RelativeOID) errors.Error {
 		val := oid[i]
 		encodedBytes := make([]byte, 0)
 		for {
-			if val < 0x7F {
+			if val <= 0x7F {
 				break
 			}
 			encodedBytes = append(encodedBytes, byte(val&0x7F))
-- 
2.43.0


From 3811e8109c6cbf65cafc1385a813da6dc2c0ffce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:15 +0000
Subject: [PATCH 07/55] fix: asn1: check the tag and the last component of an
 OID

The tag asked for was ignored, so that any value was read as an OID, and
a last component without its end was dropped.
---
 asn1/decode.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/asn1/decode.go b/asn1/decode.go
index 0a67e2e..98b6ed8 100755
--- a/asn1/decode.go
+++ b/asn1/decode.go
@@ -86,10 +86,13 @@ func (a *ASNReader) ReadBoolean() (bool, errors.Error) {
 func (a *ASNReader) ReadOID(tag uint8) (RelativeOID, errors.Error) {
 	var oid RelativeOID
 	offset := a.TopOffset()
-	tag, err := a.ReadByte()
+	b, err := a.ReadByte()
 	if err != nil {
 		return nil, errors.New("Failed to read OID tag at offset %d. %s", offset, err)
 	}
+	if b != tag {
+		return nil, errors.New("Incorrect OID tag %d at offset %d.", b, offset)
+	}
 	buf, err := a.readStringBuffer()
 	if err != nil {
 		return nil, errors.Update(err)
@@ -105,6 +108,9 @@ func (a *ASNReader) ReadOID(tag uint8) (RelativeOID, errors.Error) {
 			value = 0
 		}
 	}
+	if l := len(buf); l > 0 && buf[l-1]&0x80 != 0 {
+		return nil, errors.New("Incomplete OID at offset %d.", offset)
+	}
 
 	return oid, nil
 }
-- 
2.43.0


From 2cc92db44150582289be43f75c54926953b17dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:28 +0000
Subject: [PATCH 08/55] fix: asn1: keep the offset of empty sequences

---
 asn1/decode.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/asn1/decode.go b/asn1/decode.go
index 98b6ed8..c640afe 100755
--- a/asn1/decode.go
+++ b/asn1/decode.go
@@ -30,10 +30,10 @@ func (a *ASNReader) TopOffset() int {
 }
 
 func (a *ASNReader) NewReader(length int) (*ASNReader, errors.Error) {
+	offset := a.TopOffset()
 	if length <= 0 {
-		return NewASNReader([]byte{}), nil
+		return &ASNReader{data: bytes.NewReader(nil), startingOffset: offset}, nil
 	}
-	offset := a.TopOffset()
 	// Only the outermost sequence may be cut short, and never by more than what is left of it.
 	if missing := length - a.Len(); missing > 0 && (a.startingOffset > 0 || missing > a.Len()) {
 		return nil, errors.New("Length %d at offset %d exceeds the %d bytes left.", length, offset, a.Len())
-- 
2.43.0


From 532d8d94986c5f1dee2a12dfe23dcc0da63be4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:32 +0000
Subject: [PATCH 09/55] fix: asn1: read empty sequences of indefinite length

Their end was taken for the tag of a first item by everyone who reads a
sequence in a loop: empty contents, collections, targets, sources,
connections and labels, all written by this library, were not readable.
---
 asn1/decode.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/asn1/decode.go b/asn1/decode.go
index c640afe..a15e75c 100755
--- a/asn1/decode.go
+++ b/asn1/decode.go
@@ -2,6 +2,7 @@ package asn1
 
 import (
 	"bytes"
+	"io"
 	"math"
 
 	"github.com/dufourgilles/emberlib/errors"
@@ -171,6 +172,15 @@ func (a *ASNReader) ReadSequenceStart(tag uint8) (int, *ASNReader, errors.Error)
 
 		return length, newReader, err
 	}
+	if next := make([]byte, 2); a.Len() >= 2 {
+		a.data.ReadAt(next, a.data.Size()-int64(a.Len()))
+		if next[0] == 0 && next[1] == 0 {
+			// empty sequence, which ends here
+			a.data.Seek(2, io.SeekCurrent)
+			newReader, err := a.NewReader(0)
+			return 0, newReader, err
+		}
+	}
 	return length, a, nil
 }
 
-- 
2.43.0


From 0c2ab428f4677a19fd29dc6748855e8daeda79b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:35 +0000
Subject: [PATCH 10/55] fix: asn1: write the length of a null

---
 asn1/encode.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/asn1/encode.go b/asn1/encode.go
index 1063b5b..3b786f8 100755
--- a/asn1/encode.go
+++ b/asn1/encode.go
@@ -121,7 +121,10 @@ func (asn *ASNWriter) WriteInt64(i int64) errors.Error {
 
 func (asn *ASNWriter) WriteNull() errors.Error {
 	err := asn.data.WriteByte(EMBER_NULL)
-	return errors.NewError(err)
+	if err != nil {
+		return errors.NewError(err)
+	}
+	return asn.writeLength(0)
 }
 
 func (asn *ASNWriter) WriteEnum(i int) errors.Error {
-- 
2.43.0


From 3921f1f466428cd217139607777b38c1b7067005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:10 +0000
Subject: [PATCH 11/55] fix: asn1: do not panic on an empty real of indefinite
 length

---
 asn1/decode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1/decode.go b/asn1/decode.go
index a15e75c..91bc690 100755
--- a/asn1/decode.go
+++ b/asn1/decode.go
@@ -406,7 +406,7 @@ func (a *ASNReader) ReadReal() (float64, errors.Error) {
 	}
 
 	buf, e := a.readStringBuffer()
-	if e != nil || buf == nil {
+	if e != nil || len(buf) == 0 {
 		return 0.0, errors.Update(e)
 	}
 
-- 
2.43.0


From 50553c555ccd8dfa24b1f98312cbf4f5e4ddf96a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:13 +0000
Subject: [PATCH 12/55] fix: embertree: matrix contents with the context
 numbers of the Glow DTD

The mode overwrote the description, and everything after the type was
written under, and read from, the number of another field.
---
 embertree/matrix.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/embertree/matrix.go b/embertree/matrix.go
index 8cc4036..238df37 100755
--- a/embertree/matrix.go
+++ b/embertree/matrix.go
@@ -9,14 +9,14 @@ import (
 
 const (
 	matrixTypeCtx               = 2
-	matrixModeCtx               = iota
-	targetCountCtx              = iota
-	sourceCounCtx               = iota
-	maximumTotalConnectsCtx     = iota
-	maximumConnectsPerTargetCtx = iota
-	parametersLocationCtx       = iota
-	gainParameterNumberCtx      = iota
-	matrixContentSize           = iota
+	matrixModeCtx               = iota + 2
+	targetCountCtx              = iota + 2
+	sourceCounCtx               = iota + 2
+	maximumTotalConnectsCtx     = iota + 2
+	maximumConnectsPerTargetCtx = iota + 2
+	parametersLocationCtx       = iota + 2
+	gainParameterNumberCtx      = iota + 2
+	matrixContentSize           = iota + 2
 )
 
 type MatrixType int8
-- 
2.43.0


From d9b282ac687215d21814ac5ab82ec933a1416e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:16 +0000
Subject: [PATCH 13/55] fix: embertree: field flags with the values of the Glow
 DTD

---
 embertree/command.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/embertree/command.go b/embertree/command.go
index e6631a2..f783ba0 100755
--- a/embertree/command.go
+++ b/embertree/command.go
@@ -17,13 +17,13 @@ type FieldFlags int
 
 const (
 	SparseFieldFlags      FieldFlags = -2
-	ALLFieldFlags         FieldFlags  = iota
-	DefaultFieldFlags     FieldFlags  = iota
-	IdentifierFieldFlags  FieldFlags  = iota
-	DescriptionFieldFlags FieldFlags  = iota
-	TreeFieldFlags        FieldFlags  = iota
-	ValueFieldFlags       FieldFlags  = iota
-	ConnectionsFieldFlags FieldFlags  = iota
+	ALLFieldFlags         FieldFlags  = iota - 2
+	DefaultFieldFlags     FieldFlags  = iota - 2
+	IdentifierFieldFlags  FieldFlags  = iota - 2
+	DescriptionFieldFlags FieldFlags  = iota - 2
+	TreeFieldFlags        FieldFlags  = iota - 2
+	ValueFieldFlags       FieldFlags  = iota - 2
+	ConnectionsFieldFlags FieldFlags  = iota - 2
 )
 
 type CommandContents struct {
-- 
2.43.0


From e6ab2f0e53fcf015c5289da7a2415b48d7500def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:51 +0000
Subject: [PATCH 14/55] fix: embertree: reject unknown tags instead of looping
 forever

Elements, parameters and matrix contents never moved past a tag they do
not know.
---
 embertree/elementFactory.go | 7 +++++++
 embertree/matrix.go         | 2 ++
 embertree/parameter.go      | 2 ++
 3 files changed, 11 insertions(+)

diff --git a/embertree/elementFactory.go b/embertree/elementFactory.go
index db2e9f8..220fafa 100755
--- a/embertree/elementFactory.go
+++ b/embertree/elementFactory.go
@@ -192,6 +192,13 @@ func DecodeElement(reader *asn1.ASNReader) (*Element, errors.Error) {
 			if err != nil {
 				return nil, errors.Update(err)
 			}
+		} else {
+			// nothing else can follow
+			err = elementReader.ReadSequenceEnd()
+			if err != nil {
+				return nil, errors.Update(err)
+			}
+			break
 		}
 		end, err := elementReader.CheckSequenceEnd()
 		if end {
diff --git a/embertree/matrix.go b/embertree/matrix.go
index 238df37..2760b54 100755
--- a/embertree/matrix.go
+++ b/embertree/matrix.go
@@ -385,6 +385,8 @@ func (c *MatrixContent) Decode(reader *asn1.ASNReader) errors.Error {
 			if err != nil {
 				return errors.Update(err)
 			}
+		} else {
+			return errors.New("Unknown matrix content tag %d at offset %d.", peek, matrixContentReader.TopOffset())
 		}
 		end, err := matrixContentReader.CheckSequenceEnd()
 		if end {
diff --git a/embertree/parameter.go b/embertree/parameter.go
index 6216a53..b89bbfe 100755
--- a/embertree/parameter.go
+++ b/embertree/parameter.go
@@ -212,6 +212,8 @@ func (pc *ParameterContents) Decode(reader *asn1.ASNReader) errors.Error {
 			if err != nil {
 				return errors.Update(err)
 			}
+		} else {
+			return errors.New("Unknown parameter content tag %d at offset %d.", peek, reader.TopOffset())
 		}
 		end, err := reader.CheckSequenceEnd()
 		if end {
-- 
2.43.0


From 35796146123cf1450c0e0f556fa3a5fce09a1ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:55 +0000
Subject: [PATCH 15/55] fix: embertree: decode qualified functions

---
 embertree/elementFactory.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/embertree/elementFactory.go b/embertree/elementFactory.go
index 220fafa..d6fc685 100755
--- a/embertree/elementFactory.go
+++ b/embertree/elementFactory.go
@@ -21,6 +21,8 @@ func getContentCreator(tag uint8) (ContentCreator, errors.Error) {
 		fallthrough
 	case MatrixApplication:
 		return NewDefaultMatrixContents, nil
+	case QualifiedFunctionApplication:
+		fallthrough
 	case FunctionApplication:
 		return NewFunctionContents, nil
 	default:
-- 
2.43.0


From 86d93d0b35b6fa5b6750dc3449014daefa7cdca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:22 +0000
Subject: [PATCH 16/55] fix: embertree: encode the whole tree below an element

Only the first level of children was written, and so a GetDirectory
message for an element at depth 3 or more lost its command.
---
 embertree/element.go | 35 +++++++++++++++--------------------
 1 file changed, 15 insertions(+), 20 deletions(-)

diff --git a/embertree/element.go b/embertree/element.go
index bab11d1..cb58953 100755
--- a/embertree/element.go
+++ b/embertree/element.go
@@ -155,7 +155,7 @@ func (element *Element) GetParent() (*Element, errors.Error) {
 	return element.parent, nil
 }
 
-func (element *Element) encode(writer *asn1.ASNWriter, asChild bool) errors.Error {
+func (element *Element) Encode(writer *asn1.ASNWriter) errors.Error {
 	err := writer.StartSequence(element.tag)
 	if err != nil {
 		return errors.Update(err)
@@ -206,21 +206,19 @@ func (element *Element) encode(writer *asn1.ASNWriter, asChild bool) errors.Erro
 		}
 	}
 
-	if !asChild {
-		//Encode Children
-		if len(element.Children) > 0 {
-			err = writer.StartSequence(asn1.Context(2))
-			if err != nil {
-				return errors.Update(err)
-			}
-			err = element.EncodeChildren(writer)
-			if err != nil {
-				return errors.Update(err)
-			}
-			err = writer.EndSequence()
-			if err != nil {
-				return errors.Update(err)
-			}
+	//Encode Children
+	if len(element.Children) > 0 {
+		err = writer.StartSequence(asn1.Context(2))
+		if err != nil {
+			return errors.Update(err)
+		}
+		err = element.EncodeChildren(writer)
+		if err != nil {
+			return errors.Update(err)
+		}
+		err = writer.EndSequence()
+		if err != nil {
+			return errors.Update(err)
 		}
 	}
 
@@ -242,9 +240,6 @@ func (element *Element) encode(writer *asn1.ASNWriter, asChild bool) errors.Erro
 	return writer.EndSequence()
 }
 
-func (element *Element) Encode(writer *asn1.ASNWriter) errors.Error {
-	return element.encode(writer, false)
-}
 
 func (element *Element) EncodeChildren(writer *asn1.ASNWriter) errors.Error {
 	err := writer.StartSequence(asn1.Application(4))
@@ -256,7 +251,7 @@ func (element *Element) EncodeChildren(writer *asn1.ASNWriter) errors.Error {
 		if err != nil {
 			return errors.Update(err)
 		}
-		err := child.encode(writer, true)
+		err := child.Encode(writer)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From de04fddc01031421da59c875ccbcab4b3033e539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:36 +0000
Subject: [PATCH 17/55] fix: embertree: compute the path of an element from
 where it is now

Siblings shared the memory of their parent's path and overwrote each
other's number, and the path of an element below one that was moved
stayed the old one.
---
 embertree/qualified_element.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/embertree/qualified_element.go b/embertree/qualified_element.go
index 74b8379..ea9f563 100755
--- a/embertree/qualified_element.go
+++ b/embertree/qualified_element.go
@@ -53,14 +53,14 @@ func IsQualifiedTag(tag uint8) bool {
 }
 
 func (element *Element) GetPath() asn1.RelativeOID {
-	if len(element.path) <= 0 {
-		var parentPath = asn1.RelativeOID{}
-		if element.parent != nil {
-			parentPath = element.parent.GetPath()
-		}
-		element.path = append(parentPath, int32(element.Number))
+	if element.isQualified {
+		return element.path
 	}
-	return element.path
+	var path = asn1.RelativeOID{}
+	if element.parent != nil {
+		path = append(path, element.parent.GetPath()...)
+	}
+	return append(path, int32(element.Number))
 }
 
 func (element *Element) GetQualifiedDirectoryMsg(listener Listener) *RootElement {
-- 
2.43.0


From 66de782e989da31a01d43b50d73093465b70be68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:39 +0000
Subject: [PATCH 18/55] fix: embertree: do not attach an element to an ancestor
 of its unknown parent

---
 embertree/root.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/embertree/root.go b/embertree/root.go
index 2cbd180..1cba1e8 100755
--- a/embertree/root.go
+++ b/embertree/root.go
@@ -48,7 +48,7 @@ func (root *RootElement) GetElementByPath(path asn1.RelativeOID) (*Element,*Elem
 		parent = element
 		element = element.Children[int(path[pos])]
 	}
-	if pos + 1 < len(path) {
+	if pos < len(path) {
 		return nil,nil
 	}
 	return parent,element
-- 
2.43.0


From 3c38f45d51256aa3f405b409816bb646ae44da50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:42 +0000
Subject: [PATCH 19/55] fix: embertree: GetDirectory messages with the tag that
 goes with the path

An element that is not qualified was asked for by path under its
unqualified tag, and a qualified one by number under its qualified tag:
no peer can read either.
---
 embertree/element.go           |  5 +++++
 embertree/qualified_element.go | 16 +++++++++++++++-
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/embertree/element.go b/embertree/element.go
index cb58953..6ad44f2 100755
--- a/embertree/element.go
+++ b/embertree/element.go
@@ -286,6 +286,11 @@ func (element *Element) getDupBranch(cmd *Element) (*Element, errors.Error) {
 }
 
 func (element *Element) GetDirectoryMsg(listener Listener) (*RootElement, errors.Error) {
+	for e := element; e != nil; e = e.parent {
+		if e.isQualified {
+			return element.GetQualifiedDirectoryMsg(listener), nil
+		}
+	}
 	dupElement, err := element.getDupBranch(NewCommand(COMMAND_GETDIRECTORY))
 	if err != nil {
 		return nil, errors.Update(err)
diff --git a/embertree/qualified_element.go b/embertree/qualified_element.go
index ea9f563..40a6b99 100755
--- a/embertree/qualified_element.go
+++ b/embertree/qualified_element.go
@@ -17,6 +17,20 @@ var qualifiedTags = map[uint8]bool{
 	QualifiedFunctionApplication:  true}
 
 
+var toQualifiedTag = map[uint8]uint8{
+	ParameterApplication: QualifiedParameterApplication,
+	NodeApplication:      QualifiedNodeApplication,
+	MatrixApplication:    QualifiedMatrixApplication,
+	FunctionApplication:  QualifiedFunctionApplication}
+
+// qualifiedTag returns the tag of the qualified form of the element with this tag.
+func qualifiedTag(tag uint8) uint8 {
+	if qtag, ok := toQualifiedTag[tag]; ok {
+		return qtag
+	}
+	return tag
+}
+
 func getNumberFromPath(path asn1.RelativeOID) (int, errors.Error) {
 	l := len(path)
 	if l <= 0 {
@@ -65,7 +79,7 @@ func (element *Element) GetPath() asn1.RelativeOID {
 
 func (element *Element) GetQualifiedDirectoryMsg(listener Listener) *RootElement {
 	path := element.GetPath()
-	dupElement := NewQualifiedElement(element.tag, path, nil)
+	dupElement := NewQualifiedElement(qualifiedTag(element.tag), path, nil)
 	cmd := NewCommand(COMMAND_GETDIRECTORY)
 	dupElement.AddChild(cmd)
 	root := NewRoot()
-- 
2.43.0


From a68d3035ae50dfddf5afc473a94bc9ec1f96b7f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:08 +0000
Subject: [PATCH 20/55] fix: embertree: accept updates in the other form,
 qualified or not, of an element

---
 embertree/element.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/embertree/element.go b/embertree/element.go
index 6ad44f2..68a554c 100755
--- a/embertree/element.go
+++ b/embertree/element.go
@@ -117,7 +117,7 @@ func (element *Element) SetContents(contents interface{}) errors.Error {
 
 func (element *Element) Update(newElement *Element) errors.Error {
 	var err errors.Error
-	if element.Number != newElement.Number || element.tag != newElement.tag {
+	if element.Number != newElement.Number || qualifiedTag(element.tag) != qualifiedTag(newElement.tag) {
 		return errors.New("Attempt to update different element Number %d/%d Tag %d/%d", element.Number, newElement.Number, element.tag, newElement.tag)
 	}
 	content := newElement.GetContent()
-- 
2.43.0


From de0d1b9f65bb822ee0523149ed53ea9a048437e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:11 +0000
Subject: [PATCH 21/55] fix: embertree: a child that cannot be updated does not
 stop the others

Which of the other children were updated was left to chance.
---
 embertree/element.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/embertree/element.go b/embertree/element.go
index 68a554c..0904504 100755
--- a/embertree/element.go
+++ b/embertree/element.go
@@ -125,14 +125,15 @@ func (element *Element) Update(newElement *Element) errors.Error {
 		element.contents = content.(EmberContents)
 	}
 	for number, newChild := range newElement.Children {
+		var e errors.Error
 		child := element.Children[number]
 		if child == nil {
-			err = element.AddChild(newChild)
+			e = element.AddChild(newChild)
 		} else {
-			err = child.Update(newChild)
+			e = child.Update(newChild)
 		}
-		if err != nil {
-			break
+		if e != nil {
+			err = e
 		}
 	}
 	element.updateListeners(err)
-- 
2.43.0


From 474b0d71a4384a202c1e9a523da64ff919a4fe2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:15 +0000
Subject: [PATCH 22/55] fix: embertree: decode no more of a matrix than what
 was sent

A matrix sent without contents, or without type and mode, was given
default ones, which then replaced those of the tree. Also report a
qualified element with an empty path, which made the decoding panic.
---
 embertree/elementFactory.go | 12 ++++++------
 embertree/matrix.go         |  6 ++++++
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/embertree/elementFactory.go b/embertree/elementFactory.go
index d6fc685..8b40acf 100755
--- a/embertree/elementFactory.go
+++ b/embertree/elementFactory.go
@@ -69,7 +69,7 @@ func decodeContents(element *Element, ctxt uint8, reader *asn1.ASNReader) (inter
 	case QualifiedMatrixApplication:
 		fallthrough
 	case MatrixApplication:
-		mcontents, _ := NewMatrixContent(OneToN, Linear)
+		mcontents := &MatrixContent{}
 		err = mcontents.Decode(contentReader)
 		contents = mcontents
 		break
@@ -154,15 +154,15 @@ func DecodeElement(reader *asn1.ASNReader) (*Element, errors.Error) {
 	if err != nil {
 		return nil, errors.Update(err)
 	}
-	if tag == MatrixApplication {
-		element, _ = NewMatrix(number, OneToN, Linear)
-	} else if tag == QualifiedMatrixApplication {
-		element = NewQualifiedMatrix(path, OneToN, Linear)
-	} else if IsQualifiedTag(tag) {
+	if IsQualifiedTag(tag) {
 		element = NewQualifiedElement(tag, path, contentCreator)
 	} else {
 		element = NewElement(tag, number, contentCreator)
 	}
+	if element == nil {
+		return nil, errors.New("Invalid path at offset %d.", reader.TopOffset())
+	}
+	element.isMatrix = qualifiedTag(tag) == QualifiedMatrixApplication
 	for elementReader.Len() > 0 {
 		b, err := elementReader.Peek()
 		if err != nil {
diff --git a/embertree/matrix.go b/embertree/matrix.go
index 2760b54..d266426 100755
--- a/embertree/matrix.go
+++ b/embertree/matrix.go
@@ -87,6 +87,9 @@ func (contents *MatrixContent) GetDescription() (string, errors.Error) {
 }
 
 func (c *MatrixContent) GetType() (MatrixType, errors.Error) {
+	if !c.table[matrixTypeCtx].IsSet() {
+		return OneToN, nil
+	}
 	v, err := c.table[matrixTypeCtx].GetInt()
 	if err != nil {
 		return 0, errors.Update(err)
@@ -104,6 +107,9 @@ func (c *MatrixContent) SetMode(mode MatrixMode) errors.Error {
 }
 
 func (c *MatrixContent) GetMode() (MatrixMode, errors.Error) {
+	if !c.table[matrixModeCtx].IsSet() {
+		return Linear, nil
+	}
 	v, err := c.table[matrixModeCtx].GetInt()
 	if err != nil {
 		return 0, errors.Update(err)
-- 
2.43.0


From b7903924409f3dcf08bba4ab9bc5f9c03faa6133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:57 +0000
Subject: [PATCH 23/55] fix: embertree: an update changes only the contents it
 carries

A message with the new value of a parameter erased its identifier and
every other field.
---
 embertree/content_parameter.go |  6 ++++
 embertree/element.go           | 62 +++++++++++++++++++++++++++++++++-
 2 files changed, 67 insertions(+), 1 deletion(-)

diff --git a/embertree/content_parameter.go b/embertree/content_parameter.go
index 5308270..455f728 100755
--- a/embertree/content_parameter.go
+++ b/embertree/content_parameter.go
@@ -189,6 +189,12 @@ func (cp *ContentParameter) SetRelativeOID(val asn1.RelativeOID) {
 	cp.valueType = ValueTypeOID
 }
 
+func (cp *ContentParameter) inherit(old *ContentParameter) {
+	if !cp.isSet {
+		*cp = *old
+	}
+}
+
 func (cp *ContentParameter) IsSet() bool {
 	return cp.isSet
 }
diff --git a/embertree/element.go b/embertree/element.go
index 0904504..1b74ac7 100755
--- a/embertree/element.go
+++ b/embertree/element.go
@@ -122,7 +122,7 @@ func (element *Element) Update(newElement *Element) errors.Error {
 	}
 	content := newElement.GetContent()
 	if content != nil {
-		element.contents = content.(EmberContents)
+		element.contents = mergeContents(element.contents, content.(EmberContents))
 	}
 	for number, newChild := range newElement.Children {
 		var e errors.Error
@@ -140,6 +140,66 @@ func (element *Element) Update(newElement *Element) errors.Error {
 	return err
 }
 
+// mergeContents returns the contents to which an update leads: fields which
+// the update does not set keep their value.
+func mergeContents(old EmberContents, update EmberContents) EmberContents {
+	switch u := update.(type) {
+	case *NodeContents:
+		if o, ok := old.(*NodeContents); ok && o != nil {
+			merged := *u
+			merged.identifier.inherit(&o.identifier)
+			merged.description.inherit(&o.description)
+			merged.isRoot.inherit(&o.isRoot)
+			merged.isOnline.inherit(&o.isOnline)
+			merged.schemaIdentifiers.inherit(&o.schemaIdentifiers)
+			if merged.templateReference == nil {
+				merged.templateReference = o.templateReference
+			}
+			return &merged
+		}
+	case *ParameterContents:
+		if o, ok := old.(*ParameterContents); ok && o != nil {
+			merged := *u
+			for i := range merged.table {
+				merged.table[i].inherit(&o.table[i])
+			}
+			if merged.templateReference == nil {
+				merged.templateReference = o.templateReference
+			}
+			return &merged
+		}
+	case *MatrixContent:
+		if o, ok := old.(*MatrixContent); ok && o != nil {
+			merged := *u
+			for i := range merged.table {
+				merged.table[i].inherit(&o.table[i])
+			}
+			merged.schemaIdentifier.inherit(&o.schemaIdentifier)
+			if len(merged.labels) == 0 {
+				merged.labels = o.labels
+			}
+			if merged.templateReference == nil {
+				merged.templateReference = o.templateReference
+			}
+			return &merged
+		}
+	case *FunctionContents:
+		if o, ok := old.(*FunctionContents); ok && o != nil {
+			merged := *u
+			merged.identifier.inherit(&o.identifier)
+			merged.description.inherit(&o.description)
+			if merged.arguments == nil {
+				merged.arguments = o.arguments
+			}
+			if merged.result == nil {
+				merged.result = o.result
+			}
+			return &merged
+		}
+	}
+	return update
+}
+
 func (element *Element) GetContents() (EmberContents, errors.Error) {
 	return element.contents, nil
 }
-- 
2.43.0


From becafd6ed0412345d33b3c66a914163f4d8ddb29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:01 +0000
Subject: [PATCH 24/55] fix: embertree: update the targets, sources and
 connections of a matrix

They were dropped when the matrix was already known, and so a tree never
saw a connection change.
---
 embertree/element.go        |  1 +
 embertree/matrix_element.go | 24 ++++++++++++++++++++++++
 2 files changed, 25 insertions(+)

diff --git a/embertree/element.go b/embertree/element.go
index 1b74ac7..eed6dd9 100755
--- a/embertree/element.go
+++ b/embertree/element.go
@@ -124,6 +124,7 @@ func (element *Element) Update(newElement *Element) errors.Error {
 	if content != nil {
 		element.contents = mergeContents(element.contents, content.(EmberContents))
 	}
+	element.updateMatrix(newElement)
 	for number, newChild := range newElement.Children {
 		var e errors.Error
 		child := element.Children[number]
diff --git a/embertree/matrix_element.go b/embertree/matrix_element.go
index 974227b..03c42f3 100755
--- a/embertree/matrix_element.go
+++ b/embertree/matrix_element.go
@@ -180,6 +180,30 @@ func (element *Element) DecodeConnections(reader *asn1.ASNReader) errors.Error {
 	return connectionReader.ReadSequenceEnd()
 }
 
+// updateMatrix takes over the targets, the sources and the connections of an update.
+func (element *Element) updateMatrix(newElement *Element) {
+	if len(newElement.targets) > 0 {
+		element.targets = newElement.targets
+	}
+	if len(newElement.sources) > 0 {
+		element.sources = newElement.sources
+	}
+	if len(newElement.connections) == 0 {
+		return
+	}
+	updated := make(map[int32]bool)
+	for _, connection := range newElement.connections {
+		updated[connection.Target] = true
+	}
+	var connections []*Connection
+	for _, connection := range element.connections {
+		if !updated[connection.Target] {
+			connections = append(connections, connection)
+		}
+	}
+	element.connections = append(connections, newElement.connections...)
+}
+
 func (element *Element) SetTargets(targets []Signal) errors.Error {
 	if !element.isMatrix {
 		return errors.New("Element not a matrix. Can't SetTargets.")
-- 
2.43.0


From 9038f0550a828567040067806aeee5c17de6b4b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:04 +0000
Subject: [PATCH 25/55] fix: embertree: decode values that are OIDs

The parameter location of a matrix was written but could not be read.
---
 embertree/content_parameter.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/embertree/content_parameter.go b/embertree/content_parameter.go
index 455f728..1a0cf74 100755
--- a/embertree/content_parameter.go
+++ b/embertree/content_parameter.go
@@ -149,6 +149,13 @@ func (cp *ContentParameter) Set(val *ContentParameter) errors.Error {
 		}
 		cp.SetReal(b)
 		break
+	case ValueTypeOID:
+		b, err := val.GetRelativeOID()
+		if err != nil {
+			return err
+		}
+		cp.SetRelativeOID(b)
+		break
 	}
 	return nil
 }
@@ -386,6 +393,13 @@ func DecodeValue(reader *asn1.ASNReader, ctxt uint8) (*ContentParameter, errors.
 		}
 		contentParameter.SetString(s)
 		break
+	case asn1.EMBER_RELATIVE_OID:
+		oid, err := pcReader.ReadOID(asn1.EMBER_RELATIVE_OID)
+		if err != nil {
+			return nil, errors.Update(err)
+		}
+		contentParameter.SetRelativeOID(oid)
+		break
 	default:
 		return nil, errors.New("Unknown value type %d.", pcType)
 	}
-- 
2.43.0


From 3edfe5c657a0ddaa8b80251077dc0c1be86b01cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:07 +0000
Subject: [PATCH 26/55] fix: embertree: labels followed by other matrix
 contents

The end of the labels was looked for in what surrounds them, and the
error which that led to was ignored together with the labels.
---
 embertree/matrix.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/embertree/matrix.go b/embertree/matrix.go
index d266426..f1d812f 100755
--- a/embertree/matrix.go
+++ b/embertree/matrix.go
@@ -299,7 +299,7 @@ func (c *MatrixContent) DecodeLabels(reader *asn1.ASNReader) errors.Error {
 			return errors.Update(err)
 		}
 	}
-	err = reader.ReadSequenceEnd()
+	err = labelReader.ReadSequenceEnd()
 	if err != nil {
 		return errors.Update(err)
 	}
@@ -370,7 +370,10 @@ func (c *MatrixContent) Decode(reader *asn1.ASNReader) errors.Error {
 				return errors.Update(err)
 			}
 		} else if peek == labelContext {
-			c.DecodeLabels(matrixContentReader)
+			err = c.DecodeLabels(matrixContentReader)
+			if err != nil {
+				return errors.Update(err)
+			}
 		} else if index == 11 {
 			value, err := DecodeValue(matrixContentReader, index)
 			if err != nil {
-- 
2.43.0


From e4c6e8e07eb8003fe43e5d4dfa1c52581cb2f3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:10 +0000
Subject: [PATCH 27/55] fix: embertree: keep the arguments of a decoded
 invocation

---
 embertree/invocation.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/embertree/invocation.go b/embertree/invocation.go
index c7f1565..16e26c6 100755
--- a/embertree/invocation.go
+++ b/embertree/invocation.go
@@ -106,6 +106,7 @@ func (i *Invocation) Decode(reader *asn1.ASNReader) errors.Error {
 					return errors.Update(err)
 				}
 			}
+			i.arguments = arguments
 			break
 		default:
 			return errors.New("Invovation decode error: Unknwon tag %d", peek)
-- 
2.43.0


From 7f3bd88861b01435fe19311bf174ffb94482e76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:14 +0000
Subject: [PATCH 28/55] fix: embertree: a qualified matrix has the type and
 mode asked for

---
 embertree/qualified_element.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/embertree/qualified_element.go b/embertree/qualified_element.go
index 40a6b99..9a5231f 100755
--- a/embertree/qualified_element.go
+++ b/embertree/qualified_element.go
@@ -57,7 +57,12 @@ func NewQualifiedParameter(path asn1.RelativeOID) *Element {
 }
 
 func NewQualifiedMatrix(path asn1.RelativeOID, mtype MatrixType, mode MatrixMode) *Element {
+	content, err := NewMatrixContent(mtype, mode)
 	q := NewQualifiedElement(QualifiedMatrixApplication, path, NewDefaultMatrixContents)
+	if err != nil || q == nil {
+		return nil
+	}
+	q.SetContents(content)
 	q.isMatrix = true
 	return q
 }
-- 
2.43.0


From 4828611d96a396c094d3f0625b8ae495480d2213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:01 +0000
Subject: [PATCH 29/55] fix: embertree: report bad lengths instead of panicking

The error of the start of children, template references and fields of
connections was ignored, and the missing reader was used.
---
 embertree/connection.go     | 3 +++
 embertree/elementFactory.go | 3 +++
 embertree/matrix.go         | 3 +++
 embertree/node.go           | 3 +++
 embertree/parameter.go      | 3 +++
 5 files changed, 15 insertions(+)

diff --git a/embertree/connection.go b/embertree/connection.go
index 506b13a..fe1afd5 100755
--- a/embertree/connection.go
+++ b/embertree/connection.go
@@ -149,6 +149,9 @@ func (c *Connection) Decode(reader *asn1.ASNReader) errors.Error {
 		}
 
 		_, ctxtReader, err := connectionReader.ReadSequenceStart(tag)
+		if err != nil {
+			return errors.Update(err)
+		}
 		switch tag {
 		case asn1.Context(1):
 			//Sources
diff --git a/embertree/elementFactory.go b/embertree/elementFactory.go
index 8b40acf..b08f5bf 100755
--- a/embertree/elementFactory.go
+++ b/embertree/elementFactory.go
@@ -89,6 +89,9 @@ func decodeContents(element *Element, ctxt uint8, reader *asn1.ASNReader) (inter
 
 func decodeChildren(ctxt uint8, element *Element, reader *asn1.ASNReader) errors.Error {
 	_, ctxtReader, err := reader.ReadSequenceStart(ctxt)
+	if err != nil {
+		return errors.Update(err)
+	}
 	_, childrenReader, err := ctxtReader.ReadSequenceStart(asn1.Application(4))
 	if err != nil {
 		return errors.Update(err)
diff --git a/embertree/matrix.go b/embertree/matrix.go
index f1d812f..3c2cde6 100755
--- a/embertree/matrix.go
+++ b/embertree/matrix.go
@@ -385,6 +385,9 @@ func (c *MatrixContent) Decode(reader *asn1.ASNReader) errors.Error {
 			}
 		} else if peek == templateReferenceContext {
 			_, templateReader, err := matrixContentReader.ReadSequenceStart(peek)
+			if err != nil {
+				return errors.Update(err)
+			}
 			templateReference, err := templateReader.ReadOID(asn1.EMBER_RELATIVE_OID)
 			if err != nil {
 				return errors.Update(err)
diff --git a/embertree/node.go b/embertree/node.go
index 7479e63..b9dc6a9 100755
--- a/embertree/node.go
+++ b/embertree/node.go
@@ -182,6 +182,9 @@ func (nc *NodeContents) Decode(reader *asn1.ASNReader) errors.Error {
 		case asn1.Context(5):
 			{
 				_, templateReader, err := reader.ReadSequenceStart(peek)
+				if err != nil {
+					return errors.Update(err)
+				}
 				templateReference, err := templateReader.ReadOID(asn1.EMBER_RELATIVE_OID)
 				if err != nil {
 					return errors.Update(err)
diff --git a/embertree/parameter.go b/embertree/parameter.go
index b89bbfe..d77c708 100755
--- a/embertree/parameter.go
+++ b/embertree/parameter.go
@@ -203,6 +203,9 @@ func (pc *ParameterContents) Decode(reader *asn1.ASNReader) errors.Error {
 			}
 		} else if index == 18 {
 			_, templateReader, err := reader.ReadSequenceStart(peek)
+			if err != nil {
+				return errors.Update(err)
+			}
 			templateReference, err := templateReader.ReadOID(asn1.EMBER_RELATIVE_OID)
 			if err != nil {
 				return errors.Update(err)
-- 
2.43.0


From 89eba62ff9410bec95a2841928d2ce08dd4bcf5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:04 +0000
Subject: [PATCH 30/55] fix: embertree: decode a connection that has only a
 target

---
 embertree/connection.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/embertree/connection.go b/embertree/connection.go
index fe1afd5..5b93d07 100755
--- a/embertree/connection.go
+++ b/embertree/connection.go
@@ -143,6 +143,13 @@ func (c *Connection) Decode(reader *asn1.ASNReader) errors.Error {
 	}
 
 	for connectionReader.Len() > 0 {
+		end, err := connectionReader.CheckSequenceEnd()
+		if err != nil {
+			return errors.Update(err)
+		}
+		if end {
+			break
+		}
 		tag, err := connectionReader.Peek()
 		if err != nil {
 			return errors.Update(err)
@@ -188,10 +195,6 @@ func (c *Connection) Decode(reader *asn1.ASNReader) errors.Error {
 		if err != nil {
 			return errors.Update(err)
 		}
-		end, err := connectionReader.CheckSequenceEnd()
-		if end {
-			break
-		}
 	}
 	return nil
 }
-- 
2.43.0


From 6f67d820f889f9eba32527151cfd56bef63df063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:07 +0000
Subject: [PATCH 31/55] fix: embertree: report the errors at the end of
 functions and invocations

They went to a variable of the loop and were lost.
---
 embertree/function.go   | 14 ++++++++++----
 embertree/invocation.go |  7 +++++--
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/embertree/function.go b/embertree/function.go
index 8471fa7..21fdc6f 100755
--- a/embertree/function.go
+++ b/embertree/function.go
@@ -189,11 +189,14 @@ func (tuple *TupleDescription) Decode(reader *asn1.ASNReader) errors.Error {
 			return errors.Update(err)
 		}
 		end, err := tupleReader.CheckSequenceEnd()
-		if end || err != nil {
+		if err != nil {
+			return errors.Update(err)
+		}
+		if end {
 			break
 		}
 	}
-	return errors.Update(err)
+	return nil
 }
 
 func (tuple *TupleDescription) Encode(writer *asn1.ASNWriter) errors.Error {
@@ -289,11 +292,14 @@ func (fc *FunctionContents) Decode(reader *asn1.ASNReader) errors.Error {
 			return errors.New("Unknown function content tag %d", peek)
 		}
 		end, err := reader.CheckSequenceEnd()
-		if end || err != nil {
+		if err != nil {
+			return errors.Update(err)
+		}
+		if end {
 			break
 		}
 	}
-	return errors.Update(err)
+	return nil
 }
 
 func (fc *FunctionContents) Encode(writer *asn1.ASNWriter) errors.Error {
diff --git a/embertree/invocation.go b/embertree/invocation.go
index 16e26c6..f9ce908 100755
--- a/embertree/invocation.go
+++ b/embertree/invocation.go
@@ -116,9 +116,12 @@ func (i *Invocation) Decode(reader *asn1.ASNReader) errors.Error {
 			return errors.Update(err)
 		}
 		end, err := invocationReader.CheckSequenceEnd()
-		if end || err != nil {
+		if err != nil {
+			return errors.Update(err)
+		}
+		if end {
 			break
 		}
 	}
-	return errors.Update(err)
+	return nil
 }
-- 
2.43.0


From 090d913fbf38e1faddb4f1eb83554d95444b6c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:11 +0000
Subject: [PATCH 32/55] fix: embertree: a root without logger or listener does
 not panic

NewRoot made one which could neither decode nor have listeners, and a
GetDirectory message without listener registered a nil one.
---
 embertree/root.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/embertree/root.go b/embertree/root.go
index 1cba1e8..5710b22 100755
--- a/embertree/root.go
+++ b/embertree/root.go
@@ -23,7 +23,7 @@ func NewTree() *RootElement {
 }
 
 func NewRoot() *RootElement {
-	return &RootElement{listeners: nil, RootElementCollection: make(map[int]*Element)}
+	return NewTree()
 }
 
 func (root *RootElement) GetElementByNumber(number int) *Element {
@@ -169,7 +169,9 @@ func (r *RootElement) GetDirectoryMsg(listener Listener) (*RootElement, errors.E
 	root := NewRoot()
 	cmd := NewCommand(COMMAND_GETDIRECTORY)
 	root.AddElement(cmd)
-	r.AddListener(listener)
+	if listener != nil {
+		r.AddListener(listener)
+	}
 	return root, nil
 }
 
-- 
2.43.0


From 73521a886a9b3ddb636bf2d046cbc7a7d18e744f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:33 +0000
Subject: [PATCH 33/55] fix: embertree: make listeners safe to add and remove
 at any time

A client's goroutine notifies listeners while others are added by the
application: the runtime ends the program when both touch the map, and a
listener removed by another one could still be called.
---
 embertree/element.go   | 13 +++++------
 embertree/listeners.go | 50 ++++++++++++++++++++++++++++++++++++++++++
 embertree/root.go      | 21 +++++++-----------
 3 files changed, 63 insertions(+), 21 deletions(-)
 create mode 100644 embertree/listeners.go

diff --git a/embertree/element.go b/embertree/element.go
index eed6dd9..0d1f330 100755
--- a/embertree/element.go
+++ b/embertree/element.go
@@ -42,7 +42,7 @@ type Element struct {
 	parent          *Element
 	contents        EmberContents
 	contentsCreator ContentCreator
-	listeners       map[Listener]Listener
+	listeners       listenerSet
 	logger Logger
 	// for qualified element
 	isQualified bool
@@ -64,8 +64,7 @@ func NewElement(tag uint8, number int, contentsCreator ContentCreator) *Element
 		isMatrix:        false,
 		isQualified:     false,
 		contentsCreator: contentsCreator,
-		logger: NewNullLogger(),
-		listeners:       make(map[Listener]Listener)}
+		logger: NewNullLogger()}
 }
 
 func (element *Element)SetLogger(logger Logger) {
@@ -83,11 +82,11 @@ func (element *Element) CreateContent() interface{} {
 }
 
 func (element *Element) AddListener(listener Listener) {
-	element.listeners[listener] = listener
+	element.listeners.add(listener)
 }
 
 func (element *Element) RemoveListener(listener Listener) {
-	delete(element.listeners, listener)
+	element.listeners.remove(listener)
 }
 
 func (element *Element) GetContent() EmberContents {
@@ -105,9 +104,7 @@ func (element *Element) AddChild(child *Element) errors.Error {
 }
 
 func (element *Element) updateListeners(err errors.Error) {
-	for _, listener := range element.listeners {
-		listener.Receive(element, err)
-	}
+	element.listeners.notify(element, err)
 }
 func (element *Element) SetContents(contents interface{}) errors.Error {
 	element.contents = contents.(EmberContents)
diff --git a/embertree/listeners.go b/embertree/listeners.go
new file mode 100644
index 0000000..85777d8
--- /dev/null
+++ b/embertree/listeners.go
@@ -0,0 +1,50 @@
+package embertree
+
+import (
+	"sync"
+
+	"github.com/dufourgilles/emberlib/errors"
+)
+
+// listenerSet holds the listeners of an element or of a root. Listeners can
+// be added and removed at any time, also by a listener being notified.
+type listenerSet struct {
+	lock      sync.Mutex
+	listeners map[Listener]bool
+}
+
+func (set *listenerSet) add(listener Listener) {
+	set.lock.Lock()
+	defer set.lock.Unlock()
+	if set.listeners == nil {
+		set.listeners = make(map[Listener]bool)
+	}
+	set.listeners[listener] = true
+}
+
+func (set *listenerSet) remove(listener Listener) {
+	set.lock.Lock()
+	defer set.lock.Unlock()
+	delete(set.listeners, listener)
+}
+
+func (set *listenerSet) has(listener Listener) bool {
+	set.lock.Lock()
+	defer set.lock.Unlock()
+	return set.listeners[listener]
+}
+
+// notify calls the listeners which are there now and still there when their turn comes.
+func (set *listenerSet) notify(node interface{}, err errors.Error) {
+	set.lock.Lock()
+	current := make([]Listener, 0, len(set.listeners))
+	for listener := range set.listeners {
+		current = append(current, listener)
+	}
+	set.lock.Unlock()
+	for _, listener := range current {
+		if set.has(listener) {
+			listener.Receive(node, err)
+		}
+	}
+}
diff --git a/embertree/root.go b/embertree/root.go
index 5710b22..e998803 100755
--- a/embertree/root.go
+++ b/embertree/root.go
@@ -11,12 +11,11 @@ import (
 type RootElement struct {
 	RootElementCollection map[int]*Element
 	logger Logger
-	listeners             map[Listener]Listener
+	listeners             listenerSet
 }
 
 func NewTree() *RootElement {
 	return &RootElement{
-		listeners:             make(map[Listener]Listener),
 		RootElementCollection: make(map[int]*Element),
 		logger: NewNullLogger(),
 	}
@@ -128,15 +127,11 @@ func (root *RootElement) Decode(reader *asn1.ASNReader) errors.Error {
 		}
 	}
 	err = reader.ReadSequenceEnd()
-	for _, listener := range(root.listeners) {
-		root.logger.Debug("Updating root listener.\n")
-		listener.Receive(root, nil)
-	}
+	root.logger.Debug("Updating root listeners.\n")
+	root.listeners.notify(root, nil)
 	for path,mElement := range(modifiedElement) {
-		for _,listener := range(mElement.listeners) {
-			root.logger.Debug("Updating Element %s listener.\n", path)
-			listener.Receive(mElement, nil)
-		}
+		root.logger.Debug("Updating Element %s listeners.\n", path)
+		mElement.updateListeners(nil)
 	}
 	return errors.Update(err)
 }
@@ -177,16 +172,16 @@ func (r *RootElement) GetDirectoryMsg(listener Listener) (*RootElement, errors.E
 
 func (r *RootElement) AddListener(listener Listener) {
 	r.logger.Debug("Adding Root Listener.\n")
-	r.listeners[listener] = listener
+	r.listeners.add(listener)
 }
 
 func (r *RootElement) RemoveListener(listener Listener) {
 	r.logger.Debug("Removing Root Listener.\n")
-	delete(r.listeners, listener)
+	r.listeners.remove(listener)
 }
 
 func (r *RootElement) HasListner(listener Listener) bool {
-	return r.listeners[listener] != nil
+	return r.listeners.has(listener)
 }
 
 func (root *RootElement) ToString() string {
-- 
2.43.0


From a1c8bc004acdff403ddfeab6942b2edd02d7df24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:00 +0000
Subject: [PATCH 34/55] fix: logger: distinct levels, each message gated by its
 own

Debug and error were the same level, info and warning below it, and
every message was printed as soon as errors were.
---
 logger/logger.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/logger/logger.go b/logger/logger.go
index f86e1e6..6402f0f 100755
--- a/logger/logger.go
+++ b/logger/logger.go
@@ -11,9 +11,9 @@ type LogLevel uint8
 const (
 
 	ErrorLevel LogLevel = 3
-	WarnLevel LogLevel = iota
-	InfoLevel LogLevel = iota
-	DebugLevel LogLevel = iota
+	WarnLevel LogLevel = iota + 3
+	InfoLevel LogLevel = iota + 3
+	DebugLevel LogLevel = iota + 3
 )
 
 type Logger interface {
@@ -49,25 +49,25 @@ func (logger *ConsoleLogger)Error(e errors.Error) {
 }
 
 func (logger *ConsoleLogger)Warn(format string, a ...interface{}) {
-	if logger.logLevel >= ErrorLevel {
+	if logger.logLevel >= WarnLevel {
 		fmt.Printf(format, a...)
 	}
 }
 
 func (logger *ConsoleLogger)Info(format string, a ...interface{}) {
-	if logger.logLevel >= ErrorLevel {
+	if logger.logLevel >= InfoLevel {
 		fmt.Printf(format, a...)
 	}
 }
 
 func (logger *ConsoleLogger)Debug(format string, a ...interface{}) {
-	if logger.logLevel >= ErrorLevel {
+	if logger.logLevel >= DebugLevel {
 		fmt.Printf(format, a...)
 	}
 }
 
 func (logger *ConsoleLogger)Debugln(a ...interface{}) {
-	if logger.logLevel >= ErrorLevel {
+	if logger.logLevel >= DebugLevel {
 		fmt.Println(a...)
 	}
 }
-- 
2.43.0


From 7da8b657e391a9f6c5e1f04c67b49ad1af775713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:57 +0000
Subject: [PATCH 35/55] fix: socket: an escape does not hide the start or the
 end of a frame

Neither is ever escaped. A frame cut after an escape took the one after
it along.
---
 socket/frame.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/socket/frame.go b/socket/frame.go
index b9309e7..7bd88f3 100755
--- a/socket/frame.go
+++ b/socket/frame.go
@@ -315,7 +315,7 @@ func (decoder *S101Decoder)SetLogger(logger Logger) {
 func (decoder *S101Decoder)DecodeBuffer( bufLen int, buf []byte) {
 	for i := 0; i < bufLen; i++ {
 		b := buf[i];
-		if (decoder.escaped) {
+		if decoder.escaped && b != S101_BOF && b != S101_EOF {
 			decoder.inbuf.WriteByte(b ^ S101_XOR);
 			decoder.escaped = false;
 		} else if b == S101_CE {
@@ -329,7 +329,13 @@ func (decoder *S101Decoder)DecodeBuffer( bufLen int, buf []byte) {
 			buffer := make([]byte, decoder.inbuf.Len())
 			decoder.inbuf.Read(buffer)
 			decoder.inbuf.Reset();
-			err := decoder.HandleFrame(buffer);
+			var err errors.Error
+			if decoder.escaped {
+				err = errors.New("dropping frame that ends with an escape")
+				decoder.escaped = false
+			} else {
+				err = decoder.HandleFrame(buffer)
+			}
 			if err != nil {
 				decoder.errorHandler(err)
 			}
-- 
2.43.0


From 43e37ffcbd7c0c472d77868ed5a2570d929b3617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:00 +0000
Subject: [PATCH 36/55] fix: socket: getting the bytes of a frame does not
 empty it

---
 socket/frame.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/socket/frame.go b/socket/frame.go
index 7bd88f3..6f7f945 100755
--- a/socket/frame.go
+++ b/socket/frame.go
@@ -199,7 +199,7 @@ func (s *S101FrameList)GetBytesAt(i int) ([]byte, errors.Error) {
 		return nil, errors.New("out of bound")
 	}
 	res := make([]byte, s.frames[i].Len())
-	s.frames[i].Read(res)
+	copy(res, s.frames[i].Bytes())
 	return res, nil
 }
 
-- 
2.43.0


From 7a4de797a479324e88ffde54ede836f54047aea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:03 +0000
Subject: [PATCH 37/55] fix: socket: deliver only messages of which every
 packet was received

A message whose first packet was lost, or with a hole where a corrupted
packet was dropped, was delivered like a complete one.
---
 socket/frame.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/socket/frame.go b/socket/frame.go
index 6f7f945..57bddf3 100755
--- a/socket/frame.go
+++ b/socket/frame.go
@@ -285,6 +285,7 @@ type S101Decoder struct {
 	inbuf bytes.Buffer
 	logger Logger
 	emberbuf bytes.Buffer
+	receiving bool // the first packet of a message was received, not yet its last
 	keepAliveReqHandler PacketHandler
 	keepAliveResHandler PacketHandler
 	emberPacketHandler PacketHandler
@@ -321,6 +322,10 @@ func (decoder *S101Decoder)DecodeBuffer( bufLen int, buf []byte) {
 		} else if b == S101_CE {
 			decoder.escaped = true;
 		} else if b == S101_BOF {
+			if decoder.escaped || decoder.inbuf.Len() > 0 {
+				// a frame has lost its end
+				decoder.receiving = false
+			}
 			decoder.inbuf.Reset();
 			decoder.escaped = false;
 		} else if b == S101_EOF {
@@ -333,6 +338,7 @@ func (decoder *S101Decoder)DecodeBuffer( bufLen int, buf []byte) {
 			if decoder.escaped {
 				err = errors.New("dropping frame that ends with an escape")
 				decoder.escaped = false
+				decoder.receiving = false
 			} else {
 				err = decoder.HandleFrame(buffer)
 			}
@@ -348,6 +354,7 @@ func (decoder *S101Decoder)DecodeBuffer( bufLen int, buf []byte) {
 func (decoder *S101Decoder)HandleFrame(buffer []byte) errors.Error {
 	decoder.logger.Debug("Frame parsing. total length %d.\n", len(buffer))
 	if !ValidateFrame(bytes.NewReader(buffer)) {
+		decoder.receiving = false
 		return errors.New("dropping frame with invalid CRC")
 	}
 	var (
@@ -405,6 +412,9 @@ func (decoder *S101Decoder)HandleEmberFrame(frame *bytes.Reader) errors.Error {
 	if emberFrame.Header.Flags & FLAG_FIRST_MULTI_PACKET != 0 {
 		decoder.logger.Debug("Ember Frame first multi packet.\n")
 		decoder.emberbuf.Reset()
+		decoder.receiving = true
+	} else if !decoder.receiving {
+		return errors.New("Dropping packet of a message whose start, or a part, is missing.")
 	}
 
 	if emberFrame.Header.Flags & FLAG_EMPTY_PACKET == 0 {
@@ -416,6 +426,7 @@ func (decoder *S101Decoder)HandleEmberFrame(frame *bytes.Reader) errors.Error {
 		emberPacket := make([]byte, decoder.emberbuf.Len())
 		decoder.emberbuf.Read(emberPacket)
 		decoder.emberbuf.Reset()
+		decoder.receiving = false
 		decoder.emberPacketHandler(emberPacket)
 	}
 	decoder.logger.Debug("Ember Frame parsing complete.\n")
-- 
2.43.0


From 2aaf2bd30a8dfe4e4cbf7cacb23316227585a830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:35 +0000
Subject: [PATCH 38/55] fix: socket: answer keep-alive requests

The response was put in a queue of messages to encode, from which it was
thrown away because it is not one: the peer drops the connection.
---
 socket/client.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/socket/client.go b/socket/client.go
index 6529d4d..27edc7e 100755
--- a/socket/client.go
+++ b/socket/client.go
@@ -81,10 +81,10 @@ type S101Client struct {
 }
 
 func (s *S101Client)keepAliveReqHandler(kal []byte) errors.Error {
-	// This should go at the head of the queue
+	// This goes ahead of the queue
 	s.logger.Debug("KAL Request Received.\n")
-	s.outQ.queue.PushFront(GetKeepAliveResponse())
-	return nil
+	_, err := s.conn.Write(GetKeepAliveResponse().Bytes())
+	return errors.NewError(err)
 }
 
 func (s *S101Client)keepAliveResponseHandler(kal []byte) errors.Error {
-- 
2.43.0


From 8ffa26f2038f17eead545e0a0e9fbc118001cc22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:38 +0000
Subject: [PATCH 39/55] fix: socket: protect the queue, and register nothing
 for a dropped request

The queue was changed by the application and by the client's goroutine
without any protection, held one message more than its limit, and a
request for which there was no room left its listener and its timer.
---
 socket/client.go | 32 +++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/socket/client.go b/socket/client.go
index 27edc7e..3e9ae2c 100755
--- a/socket/client.go
+++ b/socket/client.go
@@ -4,6 +4,7 @@ import (
 	"container/list"
 	"fmt"
 	"net"
+	"sync"
 	"time"
 	. "github.com/dufourgilles/emberlib/logger"
 	"github.com/dufourgilles/emberlib/asn1"
@@ -15,6 +16,7 @@ const maxQueueSize = 256
 const maxBufferSize = 65536
 
 type packetQueue struct {
+	lock sync.Mutex
 	queue *list.List
 }
 
@@ -31,22 +33,33 @@ func newPacketQueue() *packetQueue {
 }
 
 func (p *packetQueue) size() int {
+	p.lock.Lock()
+	defer p.lock.Unlock()
 	return p.queue.Len()
 }
 
 func (p *packetQueue) isEmpty() bool {
-	return p.queue.Len() == 0
+	return p.size() == 0
 }
 
-func (p *packetQueue) add(msg *embertree.RootElement) errors.Error{
-	if p.size() > maxQueueSize {
+// add adds the message that create returns, which is only called if there is room for it.
+func (p *packetQueue) add(create func() (*embertree.RootElement, errors.Error)) errors.Error{
+	p.lock.Lock()
+	defer p.lock.Unlock()
+	if p.queue.Len() >= maxQueueSize {
 		return errors.New("Queue size limit. Drop message.")
 	}
+	msg, err := create()
+	if err != nil {
+		return errors.Update(err)
+	}
 	p.queue.PushBack(msg)
 	return nil
 }
 
 func (p *packetQueue) getNext() (*embertree.RootElement, errors.Error) {
+	p.lock.Lock()
+	defer p.lock.Unlock()
 	if p.queue.Len() > 0 {
 		qElement :=  p.queue.Front()
 		p.queue.Remove(qElement)
@@ -229,6 +242,12 @@ func (s *S101Client)runTimer(node *embertree.Element, callback embertree.Listene
 }
 
 func (s *S101Client)GetDirectory(node *embertree.Element, callback embertree.Listener) errors.Error {
+	return s.outQ.add(func() (*embertree.RootElement, errors.Error) {
+		return s.createGetDirectory(node, callback)
+	})
+}
+
+func (s *S101Client)createGetDirectory(node *embertree.Element, callback embertree.Listener) (*embertree.RootElement, errors.Error) {
 	var msg *embertree.RootElement
 	var err errors.Error
 	timeoutError := errors.New("GetDirectory timed out.")	
@@ -241,13 +260,12 @@ func (s *S101Client)GetDirectory(node *embertree.Element, callback embertree.Lis
 	}
 	if err != nil {
 		s.logger.Debug("GetDirectory.\n",err)
-		return errors.Update(err)
+		return nil, errors.Update(err)
 	}
 	if s.msTimeout > 0 {
 		go s.runTimer(node, callback, timeoutError)
 	}
-	
-	return s.outQ.add(msg)
+	return msg, nil
 }
 
 type _ElementListeners struct {
@@ -321,7 +339,7 @@ func (s *S101Client)iomanager() {
 	buffer := make([]byte, maxBufferSize)
 	for s.IsConnected() {
 		// Send messages present in our Q - but no more than max
-		messagesToSend := s.outQ.queue.Len()
+		messagesToSend := s.outQ.size()
 		if messagesToSend > 3 {
 			messagesToSend = 3;
 		}
-- 
2.43.0


From 447ae898e1205aab92254f368c1345c27ec1225c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:10 +0000
Subject: [PATCH 40/55] fix: socket: one goroutine and one decoder per
 connection, which end with it

Disconnect made the client's goroutine use a nil connection, or use the
next one together with the goroutine of that, the start of a frame cut
by a disconnection was taken for that of the next connection, and a
client never noticed that the peer had closed.
---
 socket/client.go | 83 ++++++++++++++++++++++++++++++++----------------
 1 file changed, 55 insertions(+), 28 deletions(-)

diff --git a/socket/client.go b/socket/client.go
index 3e9ae2c..ca73c09 100755
--- a/socket/client.go
+++ b/socket/client.go
@@ -79,10 +79,10 @@ type _TimerCallbacks struct {
 
 type S101Client struct {
 	stats S101SocketStats
+	connLock sync.Mutex
 	conn  net.Conn
 	raddr string
 	outQ  *packetQueue
-	decoder *S101Decoder
 	msTimeout int
 	logger Logger
 	timerCallbacks map[embertree.ListeningNode]*_TimerCallbacks
@@ -93,10 +93,10 @@ type S101Client struct {
 	freeTimerCallback embertree.Listener
 }
 
-func (s *S101Client)keepAliveReqHandler(kal []byte) errors.Error {
+func (s *S101Client)keepAliveReqHandler(conn net.Conn) errors.Error {
 	// This goes ahead of the queue
 	s.logger.Debug("KAL Request Received.\n")
-	_, err := s.conn.Write(GetKeepAliveResponse().Bytes())
+	_, err := conn.Write(GetKeepAliveResponse().Bytes())
 	return errors.NewError(err)
 }
 
@@ -121,7 +121,7 @@ func (s *S101Client)errorHandler(err errors.Error) {
 
 func NewS101Client() *S101Client {
 	client := S101Client{msTimeout: 0}
-	client.decoder = NewS101Decoder(client.keepAliveReqHandler,client.keepAliveResponseHandler,client.emberPacketHandler, client.errorHandler )
+
 	client.stats.Reset()
 	client.logger = NewNullLogger()
 	client.timerCallbacks = make(map[embertree.ListeningNode]*_TimerCallbacks)
@@ -145,21 +145,33 @@ func (s *S101Client)SetLogger(logger Logger) {
 }
 
 func (s *S101Client)Connect(address string, port uint16) errors.Error {
-	var err error
 	if s.IsConnected() {
 		return errors.New("Client already connected to %s:%d", address, port)
 	}
-	s.raddr = fmt.Sprintf("%s:%d", address, port)
-	s.conn, err = net.Dial("tcp", s.raddr)
+	raddr := fmt.Sprintf("%s:%d", address, port)
+	conn, err := net.Dial("tcp", raddr)
 	if err != nil {
 		return errors.NewError(err)
 	}
-	go s.iomanager()
+	s.connLock.Lock()
+	defer s.connLock.Unlock()
+	if s.conn != nil {
+		conn.Close()
+		return errors.New("Client already connected to %s", s.raddr)
+	}
+	s.raddr = raddr
+	s.conn = conn
+	decoder := NewS101Decoder(
+		func([]byte) errors.Error { return s.keepAliveReqHandler(conn) },
+		s.keepAliveResponseHandler, s.emberPacketHandler, s.errorHandler)
+	go s.iomanager(conn, decoder)
 	return nil
 }
 
 func (s *S101Client)Disconnect() errors.Error {
-	if !s.IsConnected() {
+	s.connLock.Lock()
+	defer s.connLock.Unlock()
+	if s.conn == nil {
 		return errors.New("Client not connected.")
 	}
 	err := s.conn.Close()
@@ -168,13 +180,29 @@ func (s *S101Client)Disconnect() errors.Error {
 }
 
 func (s *S101Client)IsConnected() bool {
+	s.connLock.Lock()
+	defer s.connLock.Unlock()
 	return s.conn != nil
 }
 
-func (s *S101Client)sendBER(data []byte) errors.Error {
-	if !s.IsConnected() {
-		return errors.New("Not connected")
+// isCurrent tells whether conn is the connection of the client.
+func (s *S101Client)isCurrent(conn net.Conn) bool {
+	s.connLock.Lock()
+	defer s.connLock.Unlock()
+	return s.conn == conn
+}
+
+// lost is called when conn has ended without Disconnect.
+func (s *S101Client)lost(conn net.Conn) {
+	s.connLock.Lock()
+	defer s.connLock.Unlock()
+	if s.conn == conn {
+		s.conn = nil
+		conn.Close()
 	}
+}
+
+func (s *S101Client)sendBER(conn net.Conn, data []byte) errors.Error {
 	frames := EncodeMessage(data)
 	for i := 0; i < frames.Size(); i++ {
 		message, err := frames.GetBytesAt(i)
@@ -183,7 +211,7 @@ func (s *S101Client)sendBER(data []byte) errors.Error {
 			return errors.Update(err)
 		}
 		var res int
-		res, e := s.conn.Write(message)
+		res, e := conn.Write(message)
 		if e != nil {
 			s.stats.TxErrors++
 			return errors.NewError(e)
@@ -194,7 +222,7 @@ func (s *S101Client)sendBER(data []byte) errors.Error {
 	return nil
 }
 
-func (s *S101Client)sendBERNode(node *embertree.RootElement) errors.Error {
+func (s *S101Client)sendBERNode(conn net.Conn, node *embertree.RootElement) errors.Error {
 	if node == nil {
 		return errors.New("null node")
 	}
@@ -205,7 +233,7 @@ func (s *S101Client)sendBERNode(node *embertree.RootElement) errors.Error {
 	}
 	data := make([]byte, writer.Len())
 	writer.Read(data)
-	return s.sendBER(data)
+	return s.sendBER(conn, data)
 }
 
 
@@ -329,15 +357,11 @@ func (s *S101Client)GetTree(listener embertree.Listener) errors.Error {
 	return s.GetDirectory(nil, rootCallback)
 }
 
-func (s *S101Client)processBuffer(l int, buffer []byte) {
-	//Decode the message
-	s.decoder.DecodeBuffer(l, buffer)
-}
-
-func (s *S101Client)iomanager() {
+func (s *S101Client)iomanager(conn net.Conn, decoder *S101Decoder) {
 	s.logger.Debug("iomanager started.\n")
+	defer s.lost(conn)
 	buffer := make([]byte, maxBufferSize)
-	for s.IsConnected() {
+	for s.isCurrent(conn) {
 		// Send messages present in our Q - but no more than max
 		messagesToSend := s.outQ.size()
 		if messagesToSend > 3 {
@@ -347,10 +371,10 @@ func (s *S101Client)iomanager() {
 			s.logger.Debug("iomanager to send %d messages.\n", messagesToSend)
 		}
 		count := 0
-		for ; count < messagesToSend; count++ {
+		for ; count < messagesToSend && s.isCurrent(conn); count++ {
 			root,_ := s.outQ.getNext()
 			if root != nil {
-				err := s.sendBERNode(root)
+				err := s.sendBERNode(conn, root)
 				if err != nil {
 					s.logger.Error(err)
 				}
@@ -361,17 +385,20 @@ func (s *S101Client)iomanager() {
 
 		// collect inbound messages during next 100ms
 		deadline := time.Now().Add(100)
-		s.conn.SetReadDeadline(deadline)
+		conn.SetReadDeadline(deadline)
 		for {
-			len,_ := s.conn.Read(buffer)
+			len,err := conn.Read(buffer)
 			if len > 0 {
 				s.logger.Debug("iomanager received a message of %d bytes.\n", len)
 				s.stats.RxBytes += uint64(len)
 				s.stats.RxPackets++
 				//process the buffer
-				s.processBuffer(len, buffer)
-			} else {
+				decoder.DecodeBuffer(len, buffer)
+			} else if e, ok := err.(net.Error); ok && e.Timeout() {
 				break
+			} else {
+				s.logger.Debug("iomanager stopped.\n")
+				return
 			}
 		}
 	}
-- 
2.43.0


From cf9450dc4381594673a467748aadfc7bd4e9db4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:51 +0000
Subject: [PATCH 41/55] fix: socket: one timer per request, stopped by the
 answer to it

The timer of a second request on the same node replaced that of the
first, which then never stopped: its callback was told of a timeout after
the answer, and its goroutine could wait for ever. A timer now also
hears of the answer before the callback does.
---
 embertree/listeners.go | 36 +++++++++++++++++----------
 socket/client.go       | 56 +++++++++++++++++++++++++-----------------
 2 files changed, 56 insertions(+), 36 deletions(-)

diff --git a/embertree/listeners.go b/embertree/listeners.go
index 85777d8..531492f 100644
--- a/embertree/listeners.go
+++ b/embertree/listeners.go
@@ -6,41 +6,51 @@ import (
 	"github.com/dufourgilles/emberlib/errors"
 )
 
-// listenerSet holds the listeners of an element or of a root. Listeners can
-// be added and removed at any time, also by a listener being notified.
+// listenerSet holds the listeners of an element or of a root, in the order in
+// which they were last added. Listeners can be added and removed at any time,
+// also by a listener being notified.
 type listenerSet struct {
 	lock      sync.Mutex
-	listeners map[Listener]bool
+	listeners []Listener
+}
+
+func (set *listenerSet) without(listener Listener) []Listener {
+	others := make([]Listener, 0, len(set.listeners)+1)
+	for _, l := range set.listeners {
+		if l != listener {
+			others = append(others, l)
+		}
+	}
+	return others
 }
 
 func (set *listenerSet) add(listener Listener) {
 	set.lock.Lock()
 	defer set.lock.Unlock()
-	if set.listeners == nil {
-		set.listeners = make(map[Listener]bool)
-	}
-	set.listeners[listener] = true
+	set.listeners = append(set.without(listener), listener)
 }
 
 func (set *listenerSet) remove(listener Listener) {
 	set.lock.Lock()
 	defer set.lock.Unlock()
-	delete(set.listeners, listener)
+	set.listeners = set.without(listener)
 }
 
 func (set *listenerSet) has(listener Listener) bool {
 	set.lock.Lock()
 	defer set.lock.Unlock()
-	return set.listeners[listener]
+	for _, l := range set.listeners {
+		if l == listener {
+			return true
+		}
+	}
+	return false
 }
 
 // notify calls the listeners which are there now and still there when their turn comes.
 func (set *listenerSet) notify(node interface{}, err errors.Error) {
 	set.lock.Lock()
-	current := make([]Listener, 0, len(set.listeners))
-	for listener := range set.listeners {
-		current = append(current, listener)
-	}
+	current := set.listeners
 	set.lock.Unlock()
 	for _, listener := range current {
 		if set.has(listener) {
diff --git a/socket/client.go b/socket/client.go
index ca73c09..4a6c5d5 100755
--- a/socket/client.go
+++ b/socket/client.go
@@ -71,9 +71,12 @@ func (p *packetQueue) getNext() (*embertree.RootElement, errors.Error) {
 	return nil, nil
 }
 
+// _TimerCallbacks is the timer of one request. It listens to the node of the
+// request, ahead of the callback, to be stopped by the first answer.
 type _TimerCallbacks struct {
+	lock sync.Mutex
+	done bool
 	timer *time.Timer
-	listener embertree.Listener
 	client *S101Client
 }
 
@@ -85,12 +88,10 @@ type S101Client struct {
 	outQ  *packetQueue
 	msTimeout int
 	logger Logger
-	timerCallbacks map[embertree.ListeningNode]*_TimerCallbacks
 	getTreeCallback embertree.Listener
 	tree *embertree.RootElement
 	incomingDataChan chan channelMessage
 	outgoingDataChan chan channelMessage
-	freeTimerCallback embertree.Listener
 }
 
 func (s *S101Client)keepAliveReqHandler(conn net.Conn) errors.Error {
@@ -124,7 +125,7 @@ func NewS101Client() *S101Client {
 
 	client.stats.Reset()
 	client.logger = NewNullLogger()
-	client.timerCallbacks = make(map[embertree.ListeningNode]*_TimerCallbacks)
+
 	client.outQ = newPacketQueue()
 	client.tree = embertree.NewTree()
 	client.incomingDataChan = make(chan channelMessage, 100)
@@ -239,15 +240,21 @@ func (s *S101Client)sendBERNode(conn net.Conn, node *embertree.RootElement) erro
 
 func (t *_TimerCallbacks)Receive(node interface{}, err errors.Error) {
 	treeNode := node.(embertree.ListeningNode)
-	timerCB := t.client.timerCallbacks[treeNode]
-	if timerCB == nil {
-		return
-	}
-	t.client.logger.Debug("Timer Stopped.\n")
-	timerCB.timer.Stop()
-	delete(t.client.timerCallbacks, treeNode)
 	// Remove myself from node
 	treeNode.RemoveListener(t)
+	if t.finish() {
+		t.client.logger.Debug("Timer Stopped.\n")
+	}
+}
+
+// finish stops the timer, and tells whether it was running.
+func (t *_TimerCallbacks)finish() bool {
+	t.lock.Lock()
+	defer t.lock.Unlock()
+	running := !t.done
+	t.done = true
+	t.timer.Stop()
+	return running
 }
 
 func (s *S101Client)runTimer(node *embertree.Element, callback embertree.Listener, timeoutError errors.Error) {
@@ -258,15 +265,18 @@ func (s *S101Client)runTimer(node *embertree.Element, callback embertree.Listene
 		treeNode = node
 	}
 	s.logger.Debug("Timer running.\n")
-	freeTimerCallback := &_TimerCallbacks{client: s, timer: time.NewTimer(time.Duration(int64(s.msTimeout)) * time.Millisecond)}
-	treeNode.AddListener(freeTimerCallback)
-	s.timerCallbacks[treeNode] = freeTimerCallback
-	<-s.timerCallbacks[treeNode].timer.C
-	s.logger.Debug("Timer Kicked.\n")
-	callback.Receive(nil, timeoutError)
-	s.logger.Debug("Cleaning Timer callback.\n")
-	delete(s.timerCallbacks, treeNode)
-	treeNode.RemoveListener(s.freeTimerCallback)
+	timerCallback := &_TimerCallbacks{client: s}
+	timerCallback.lock.Lock()
+	defer timerCallback.lock.Unlock()
+	timerCallback.timer = time.AfterFunc(time.Duration(int64(s.msTimeout)) * time.Millisecond, func() {
+		running := timerCallback.finish()
+		treeNode.RemoveListener(timerCallback)
+		if running && callback != nil {
+			s.logger.Debug("Timer Kicked.\n")
+			callback.Receive(nil, timeoutError)
+		}
+	})
+	treeNode.AddListener(timerCallback)
 }
 
 func (s *S101Client)GetDirectory(node *embertree.Element, callback embertree.Listener) errors.Error {
@@ -279,6 +289,9 @@ func (s *S101Client)createGetDirectory(node *embertree.Element, callback embertr
 	var msg *embertree.RootElement
 	var err errors.Error
 	timeoutError := errors.New("GetDirectory timed out.")	
+	if s.msTimeout > 0 {
+		s.runTimer(node, callback, timeoutError)
+	}
 	if node == nil {
 		s.logger.Debug("Send GetDirectory for root.\n")
 		msg,err = s.tree.GetDirectoryMsg(callback)		
@@ -290,9 +303,6 @@ func (s *S101Client)createGetDirectory(node *embertree.Element, callback embertr
 		s.logger.Debug("GetDirectory.\n",err)
 		return nil, errors.Update(err)
 	}
-	if s.msTimeout > 0 {
-		go s.runTimer(node, callback, timeoutError)
-	}
 	return msg, nil
 }
 
-- 
2.43.0


From 524b83a28d3eb9c21d23f3b66bd07c839440b620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:04 +0000
Subject: [PATCH 42/55] fix: socket: complete GetTree once, when every request
 has been answered

Timeouts and late answers were counted again and again, the counter was
changed by several goroutines at once, an error of GetDirectory (with
more elements than the queue has room for) was never counted, the
error of one request was forgotten with the success of the next, and
the listeners of failed requests stayed.
---
 socket/client.go | 88 ++++++++++++++++++++++++++++++++----------------
 1 file changed, 59 insertions(+), 29 deletions(-)

diff --git a/socket/client.go b/socket/client.go
index 4a6c5d5..4142481 100755
--- a/socket/client.go
+++ b/socket/client.go
@@ -14,6 +14,7 @@ import (
 
 const maxQueueSize = 256
 const maxBufferSize = 65536
+const maxTreeRequests = maxQueueSize / 2
 
 type packetQueue struct {
 	lock sync.Mutex
@@ -309,61 +310,90 @@ func (s *S101Client)createGetDirectory(node *embertree.Element, callback embertr
 type _ElementListeners struct {
 	client *S101Client
 	rootListener *_RoottListeners
+	element *embertree.Element
+	once sync.Once
 }
 
 // getElementCallback
 func (l *_ElementListeners)Receive(node interface{}, err errors.Error) {
-	l.client.logger.Debug("Element Callback.\n")	
-	if err == nil && node != nil {
-		element := node.(*embertree.Element)
-		element.RemoveListener(l)
-		for _,child := range(element.Children) {
-			l.rootListener.IncPendingGetDir()
-			elementCallback := &_ElementListeners{client: l.client, rootListener: l.rootListener}
-			go l.client.GetDirectory(child, elementCallback)
+	l.once.Do(func() {
+		l.client.logger.Debug("Element Callback.\n")	
+		l.element.RemoveListener(l)
+		if err == nil && node != nil {
+			for _,child := range(l.element.Children) {
+				l.rootListener.IncPendingGetDir(child)
+			}
 		}
-	}
-	l.rootListener.DecPendingGetDir(node,err)
+		l.rootListener.DecPendingGetDir(err)
+	})
 }
 
+// _RoottListeners is the state of one GetTree.
 type _RoottListeners struct {
 	client *S101Client
-	pendingGetDirectory uint
+	lock sync.Mutex
+	once sync.Once
+	pendingGetDirectory int // requests without answer, that of the root included
+	waiting []*embertree.Element // elements to request once there are less of these
+	err errors.Error // the first that occurred
+	completed bool
 	listener embertree.Listener
 }
 
-func (r *_RoottListeners)IncPendingGetDir() {
-	r.pendingGetDirectory++
+func (r *_RoottListeners)IncPendingGetDir(element *embertree.Element) {
+	r.lock.Lock()
+	defer r.lock.Unlock()
+	r.waiting = append(r.waiting, element)
 }
 
-func (r *_RoottListeners)DecPendingGetDir(node interface{}, err errors.Error) {
+func (r *_RoottListeners)DecPendingGetDir(err errors.Error) {
+	r.lock.Lock()
 	r.pendingGetDirectory--
-	if r.pendingGetDirectory == 0 {
+	for {
+		if err != nil && r.err == nil {
+			r.err = err
+		}
+		if len(r.waiting) == 0 || r.pendingGetDirectory >= maxTreeRequests {
+			break
+		}
+		element := r.waiting[0]
+		r.waiting = r.waiting[1:]
+		r.pendingGetDirectory++
+		elementCallback := &_ElementListeners{client: r.client, rootListener: r, element: element}
+		r.client.logger.Debug("GetTree GetDir for %s.\n", embertree.Path2String(element.GetPath()))
+		r.lock.Unlock()
+		err = r.client.GetDirectory(element, elementCallback)
+		r.lock.Lock()
+		if err != nil {
+			r.pendingGetDirectory--
+		}
+	}
+	completed := r.pendingGetDirectory == 0 && !r.completed
+	r.completed = r.completed || completed
+	err = r.err
+	r.lock.Unlock()
+	if completed {
 		r.listener.Receive(r.client.tree, err)
 	}
 }
 
 func (r *_RoottListeners)Receive(node interface{}, err errors.Error) {	
-	if err == nil && node != nil {
-		root := node.(*embertree.RootElement)
+	r.once.Do(func() {
+		root := r.client.tree
 		r.client.logger.Debug("Root CallBack.\n")
-		r.client.logger.Debug(root.ToString())
 		root.RemoveListener(r)
-		for _,element := range(root.RootElementCollection) {
-			r.IncPendingGetDir()
-			elementCallback := &_ElementListeners{client: r.client, rootListener: r}
-			r.client.logger.Debug("Root Callback GetDir for %s.\n", embertree.Path2String(element.GetPath()))
-			go r.client.GetDirectory(element, elementCallback)
+		if err == nil && node != nil {
+			r.client.logger.Debug(root.ToString())
+			for _,element := range(root.RootElementCollection) {
+				r.IncPendingGetDir(element)
+			}
 		}
-	}
-	if r.pendingGetDirectory == 0 {
-		r.listener.Receive(r.client.tree, err)
-		return
-	}
+		r.DecPendingGetDir(err)
+	})
 }
 
 func (s *S101Client)GetTree(listener embertree.Listener) errors.Error {
-	rootCallback := &_RoottListeners{client: s, listener: listener, pendingGetDirectory: 0}
+	rootCallback := &_RoottListeners{client: s, listener: listener, pendingGetDirectory: 1}
 	return s.GetDirectory(nil, rootCallback)
 }
 
-- 
2.43.0


From 0886bf4803bedaabbc14284bf79c3886dac44648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:04 +0000
Subject: [PATCH 43/55] fix: embertree: decode an empty root, as it is encoded

---
 embertree/root.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/embertree/root.go b/embertree/root.go
index e998803..1be498a 100755
--- a/embertree/root.go
+++ b/embertree/root.go
@@ -86,9 +86,12 @@ func (root *RootElement) Decode(reader *asn1.ASNReader) errors.Error {
 	if err != nil {
 		return err
 	}
-	peek, err := reader.Peek()
-	if err != nil {
-		return err
+	var peek uint8
+	if reader.Len() > 0 {
+		peek, err = reader.Peek()
+		if err != nil {
+			return err
+		}
 	}
 	if peek == asn1.Application(11) {
 		_, collectionReader, err := reader.ReadSequenceStart(peek)
-- 
2.43.0


From d5abdbcef5dc32d42996679537a773a4d9048bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:49 +0000
Subject: [PATCH 44/55] fix: asn1: nested readers share the data, instead of
 one copy per level

---
 asn1/decode.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/asn1/decode.go b/asn1/decode.go
index 91bc690..7cbe1dc 100755
--- a/asn1/decode.go
+++ b/asn1/decode.go
@@ -10,12 +10,13 @@ import (
 
 type ASNReader struct {
 	data           *bytes.Reader
+	buf            []byte
 	startingOffset int
 	len            int
 }
 
 func NewASNReader(p []byte) *ASNReader {
-	return &ASNReader{data: bytes.NewReader(p), len: len(p), startingOffset: 0}
+	return &ASNReader{data: bytes.NewReader(p), buf: p, len: len(p), startingOffset: 0}
 }
 
 func (a *ASNReader) Len() int {
@@ -39,8 +40,17 @@ func (a *ASNReader) NewReader(length int) (*ASNReader, errors.Error) {
 	if missing := length - a.Len(); missing > 0 && (a.startingOffset > 0 || missing > a.Len()) {
 		return nil, errors.New("Length %d at offset %d exceeds the %d bytes left.", length, offset, a.Len())
 	}
-	b := make([]byte, length)
-	_, err := a.data.Read(b)
+	if a.Len() == 0 {
+		return nil, errors.New("Failed To read byte at offset %d. %s", offset, io.EOF)
+	}
+	// The data is shared with the new reader, whatever the number of readers within each other.
+	b := a.buf[a.Offset():]
+	if length <= len(b) {
+		b = b[:length]
+	} else {
+		b = append(append([]byte{}, b...), make([]byte, length-len(b))...)
+	}
+	_, err := a.data.Seek(int64(length), io.SeekCurrent)
 	if err != nil {
 		return nil, errors.New("Failed To read byte at offset %d. %s", a.TopOffset(), err)
 	}
-- 
2.43.0


From 831a111e7bb711602125dda5e43547159e742700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:53 +0000
Subject: [PATCH 45/55] fix: embertree: refuse elements nested without end,
 which exhaust the stack

---
 embertree/elementFactory.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/embertree/elementFactory.go b/embertree/elementFactory.go
index b08f5bf..135d324 100755
--- a/embertree/elementFactory.go
+++ b/embertree/elementFactory.go
@@ -87,7 +87,13 @@ func decodeContents(element *Element, ctxt uint8, reader *asn1.ASNReader) (inter
 	return contents, err
 }
 
-func decodeChildren(ctxt uint8, element *Element, reader *asn1.ASNReader) errors.Error {
+// Elements nested deeper than this are refused: no stack is large enough for any depth.
+const maxDepth = 10000
+
+func decodeChildren(ctxt uint8, element *Element, reader *asn1.ASNReader, depth int) errors.Error {
+	if depth >= maxDepth {
+		return errors.New("Elements nested too deep at offset %d.", reader.TopOffset())
+	}
 	_, ctxtReader, err := reader.ReadSequenceStart(ctxt)
 	if err != nil {
 		return errors.Update(err)
@@ -102,7 +108,7 @@ func decodeChildren(ctxt uint8, element *Element, reader *asn1.ASNReader) errors
 			return errors.Update(err)
 		}
 		element.logger.Debug("Decoding Element.\n")
-		child, err := DecodeElement(childReader)
+		child, err := decodeElement(childReader, depth+1)
 		if err != nil {
 			return errors.Update(err)
 		}
@@ -123,6 +129,10 @@ func decodeChildren(ctxt uint8, element *Element, reader *asn1.ASNReader) errors
 }
 
 func DecodeElement(reader *asn1.ASNReader) (*Element, errors.Error) {
+	return decodeElement(reader, 1)
+}
+
+func decodeElement(reader *asn1.ASNReader, depth int) (*Element, errors.Error) {
 	var (
 		element  *Element
 		path     asn1.RelativeOID
@@ -178,7 +188,7 @@ func DecodeElement(reader *asn1.ASNReader) (*Element, errors.Error) {
 			}
 			element.SetContents(contents)
 		} else if b == asn1.Context(2) {
-			err = decodeChildren(b, element, elementReader)
+			err = decodeChildren(b, element, elementReader, depth)
 			if err != nil {
 				return nil, errors.Update(err)
 			}
-- 
2.43.0


From 49433f59cad585455accc24d548cba07bbd545f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:07 +0000
Subject: [PATCH 46/55] fix: socket: a packet refused for its header abandons
 its message

---
 socket/frame.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/socket/frame.go b/socket/frame.go
index 57bddf3..d73869a 100755
--- a/socket/frame.go
+++ b/socket/frame.go
@@ -385,7 +385,12 @@ func (decoder *S101Decoder)HandleFrame(buffer []byte) errors.Error {
 	} else if command == CMD_KEEPALIVE_RESP {
 		return decoder.keepAliveResHandler(buffer)
 	} else if command == CMD_EMBER {
-		return decoder.HandleEmberFrame(frame);
+		err := decoder.HandleEmberFrame(frame);
+		if err != nil {
+			// the packet is lost, and the message with it
+			decoder.receiving = false
+		}
+		return err
 	} else {		
 		return errors.New(fmt.Sprintf("Unknown command type %d.", command))
 	}
-- 
2.43.0


From 4400bac0a9c553892f663aebd25bbcdaf20c7e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:27 +0000
Subject: [PATCH 47/55] fix: socket: the connections of a client do not decode
 at the same time

---
 socket/client.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/socket/client.go b/socket/client.go
index 4142481..d714059 100755
--- a/socket/client.go
+++ b/socket/client.go
@@ -85,6 +85,7 @@ type S101Client struct {
 	stats S101SocketStats
 	connLock sync.Mutex
 	conn  net.Conn
+	ioLock sync.Mutex // held by the iomanager of one connection at a time
 	raddr string
 	outQ  *packetQueue
 	msTimeout int
@@ -398,6 +399,8 @@ func (s *S101Client)GetTree(listener embertree.Listener) errors.Error {
 }
 
 func (s *S101Client)iomanager(conn net.Conn, decoder *S101Decoder) {
+	s.ioLock.Lock()
+	defer s.ioLock.Unlock()
 	s.logger.Debug("iomanager started.\n")
 	defer s.lost(conn)
 	buffer := make([]byte, maxBufferSize)
-- 
2.43.0


From 962ca418e6b75d80bdc10ecdeac5accb29a6f33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:44 +0000
Subject: [PATCH 48/55] fix: socket: the read deadline must not have passed
 before anything is read

---
 socket/client.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/socket/client.go b/socket/client.go
index d714059..38b6b2f 100755
--- a/socket/client.go
+++ b/socket/client.go
@@ -426,8 +426,8 @@ func (s *S101Client)iomanager(conn net.Conn, decoder *S101Decoder) {
 			}
 		}
 
-		// collect inbound messages during next 100ms
-		deadline := time.Now().Add(100)
+		// collect inbound messages during the next millisecond
+		deadline := time.Now().Add(time.Millisecond)
 		conn.SetReadDeadline(deadline)
 		for {
 			len,err := conn.Read(buffer)
-- 
2.43.0


From 4dea342a42ae907495d867887d573edbcac60ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:20 +0000
Subject: [PATCH 49/55] fix: embertree: a message is applied as a whole, or not
 at all if it cannot be decoded

---
 embertree/root.go | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/embertree/root.go b/embertree/root.go
index 1be498a..e9cc430 100755
--- a/embertree/root.go
+++ b/embertree/root.go
@@ -81,7 +81,7 @@ func (root *RootElement) updateElement(element *Element) errors.Error {
 }
 
 func (root *RootElement) Decode(reader *asn1.ASNReader) errors.Error {
-	modifiedElement := make(map[string]*Element)
+	elements := []*Element{}
 	_, reader, err := reader.ReadSequenceStart(asn1.Application(0))
 	if err != nil {
 		return err
@@ -107,15 +107,7 @@ func (root *RootElement) Decode(reader *asn1.ASNReader) errors.Error {
 			if err != nil {
 				return errors.Update(err)
 			}
-			root.logger.Debug("Updating E/QE %s.\n", Path2String(element.GetPath()))
-			if element.isQualified && len(element.path) > 1 {
-				parent,err := root.updateQualifiedElement(element)
-				if err == nil && parent != nil {
-					modifiedElement[Path2String(parent.GetPath())] = parent
-				}
-			} else {
-				root.updateElement(element)
-			}
+			elements = append(elements, element)
 			err = elementReader.ReadSequenceEnd()
 			if err != nil {
 				return errors.Update(err)
@@ -130,6 +122,21 @@ func (root *RootElement) Decode(reader *asn1.ASNReader) errors.Error {
 		}
 	}
 	err = reader.ReadSequenceEnd()
+	if err != nil {
+		return errors.Update(err)
+	}
+	modifiedElement := make(map[string]*Element)
+	for _,element := range(elements) {
+		root.logger.Debug("Updating E/QE %s.\n", Path2String(element.GetPath()))
+		if element.isQualified && len(element.path) > 1 {
+			parent,err := root.updateQualifiedElement(element)
+			if err == nil && parent != nil {
+				modifiedElement[Path2String(parent.GetPath())] = parent
+			}
+		} else {
+			root.updateElement(element)
+		}
+	}
 	root.logger.Debug("Updating root listeners.\n")
 	root.listeners.notify(root, nil)
 	for path,mElement := range(modifiedElement) {
-- 
2.43.0


From 08958e480cf91a5ee3f30b7f218cb7ee0e6b39b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:44 +0000
Subject: [PATCH 50/55] fix: embertree: the text of parameter contents shows
 the fields that are set, not the others

---
 embertree/parameter.go | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/embertree/parameter.go b/embertree/parameter.go
index d77c708..45aa786 100755
--- a/embertree/parameter.go
+++ b/embertree/parameter.go
@@ -241,11 +241,11 @@ func (contents *ParameterContents) ToString() string {
 	}
 	valObject := contents.GetValueObject()
 	if valObject != nil && valObject.isSet {
-		str = fmt.Sprintf("%  svalue: %s\n",str, valObject.ToString())
+		str = fmt.Sprintf("%s  value: %s\n",str, valObject.ToString())
 	}
 	valObject = contents.GetMinimumObject()
 	if valObject != nil && valObject.isSet {
-		str = fmt.Sprintf("%  sminimum: %s\n",str, valObject.ToString())
+		str = fmt.Sprintf("%s  minimum: %s\n",str, valObject.ToString())
 	}
 	valObject = contents.GetMaximumObject()
 	if valObject != nil && valObject.isSet {
@@ -256,27 +256,27 @@ func (contents *ParameterContents) ToString() string {
 		str = fmt.Sprintf("%s  default: %s\n",str, valObject.ToString())
 	}
 	valStr,err = contents.GetAccess()
-	if err != nil {
+	if err == nil {
 		str = fmt.Sprintf("%s  access: %s\n",str,valStr)
 	}
 	valStr,err = contents.GetFormat()
-	if err != nil {
+	if err == nil {
 		str = fmt.Sprintf("%s  format: %s\n",str,valStr)
 	}
 	valStr,err = contents.GetEnumeration()
-	if err != nil {
+	if err == nil {
 		str = fmt.Sprintf("%s  enumeration: %s\n",str,valStr)
 	}
 	valInt,err := contents.GetFactor()
-	if err != nil {
-		str = fmt.Sprintf("%s  factor: %ll\n",str,valInt)
+	if err == nil {
+		str = fmt.Sprintf("%s  factor: %d\n",str,valInt)
 	}
 	valInt,err = contents.GetStep()
-	if err != nil {
-		str = fmt.Sprintf("%s  step: %ll\n",str,valInt)
+	if err == nil {
+		str = fmt.Sprintf("%s  step: %d\n",str,valInt)
 	}
 	valBool,err := contents.GetOnline()
-	if err != nil {
+	if err == nil {
 		if valBool {
 			str = fmt.Sprintf("%s  isonline: true\n",str)
 		} else {
@@ -284,12 +284,12 @@ func (contents *ParameterContents) ToString() string {
 		}
 	}
 	valStr,err = contents.GetType()
-	if err != nil {
+	if err == nil {
 		str = fmt.Sprintf("%s  type: %s\n",str,valStr)
 	}
 	valInt,err = contents.GetStreamIdentifier()
-	if err != nil {
-		str = fmt.Sprintf("%s  streamIdentifier: %ll\n",str,valInt)
+	if err == nil {
+		str = fmt.Sprintf("%s  streamIdentifier: %d\n",str,valInt)
 	}
 	return fmt.Sprintf("{\n%s}\n", str)
 }
\ No newline at end of file
-- 
2.43.0


From 0cf9edf92a4838c9bc9847f205f8ac01da23000a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:49 +0000
Subject: [PATCH 51/55] fix: embertree: the text of matrix contents keeps its
 first lines

---
 embertree/matrix.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/embertree/matrix.go b/embertree/matrix.go
index 3c2cde6..4502a7e 100755
--- a/embertree/matrix.go
+++ b/embertree/matrix.go
@@ -425,17 +425,17 @@ func (c *MatrixContent) ToString() string {
 	}
 	t,err := c.GetType()
 	if t == OneToN {
-		str = fmt.Sprintf(("%s  type: OneToN"))
+		str = fmt.Sprintf("%s  type: OneToN\n", str)
 	} else if t ==  NToN {
-		str = fmt.Sprintf(("%s  type: NToN"))
+		str = fmt.Sprintf("%s  type: NToN\n", str)
 	} else {
-		str = fmt.Sprintf(("%s  type: OneToOne"))
+		str = fmt.Sprintf("%s  type: OneToOne\n", str)
 	}
 	m,err := c.GetMode()
 	if m == Linear {
-		str = fmt.Sprintf(("%s  mode: Linear"))
+		str = fmt.Sprintf("%s  mode: Linear\n", str)
 	} else {
-		str = fmt.Sprintf(("%s  mode: Non-Linear"))
+		str = fmt.Sprintf("%s  mode: Non-Linear\n", str)
 	}
 	return fmt.Sprintf("{\n%s}\n", str)
 }
\ No newline at end of file
-- 
2.43.0


From 8fef2b758653f796841dbcec0d56cc5e6b5bf36f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:55 +0000
Subject: [PATCH 52/55] fix: embertree: the text of a buffer has two digits for
 each byte

---
 embertree/content_parameter.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/embertree/content_parameter.go b/embertree/content_parameter.go
index 1a0cf74..444a269 100755
--- a/embertree/content_parameter.go
+++ b/embertree/content_parameter.go
@@ -92,9 +92,9 @@ func (cp *ContentParameter)ToString() string {
 		str := ""
 		for index,x := range(b) {
 			if index == 0 {
-				str = fmt.Sprintf("%x", x)
+				str = fmt.Sprintf("%02x", x)
 			} else {
-				str = fmt.Sprintf("%s%x", str, x)
+				str = fmt.Sprintf("%s%02x", str, x)
 			}
 		}
 		return str
-- 
2.43.0


From e91a7ff7e03e2ba3ac11642d970c1f66de848f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:42 +0000
Subject: [PATCH 53/55] fix: embertree: a matrix type or mode that does not fit
 is not taken for another one

---
 embertree/matrix.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/embertree/matrix.go b/embertree/matrix.go
index 4502a7e..d0f60b9 100755
--- a/embertree/matrix.go
+++ b/embertree/matrix.go
@@ -94,6 +94,9 @@ func (c *MatrixContent) GetType() (MatrixType, errors.Error) {
 	if err != nil {
 		return 0, errors.Update(err)
 	}
+	if int64(MatrixType(v)) != v {
+		return 0, errors.New("Invalid matrix type %d", v)
+	}
 	return MatrixType(v), nil
 }
 
@@ -114,6 +117,9 @@ func (c *MatrixContent) GetMode() (MatrixMode, errors.Error) {
 	if err != nil {
 		return 0, errors.Update(err)
 	}
+	if int64(MatrixMode(v)) != v {
+		return 0, errors.New("Invalid matrix mode %d", v)
+	}
 	return MatrixMode(v), nil
 }
 
-- 
2.43.0


From 998cfaf9f077cbc5536fbc384a8066fe789b2fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:12 +0000
Subject: [PATCH 54/55] fix: asn1: a relative OID component that does not fit
 is refused, not wrapped around

---
 asn1/decode.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/asn1/decode.go b/asn1/decode.go
index 7cbe1dc..daa8915 100755
--- a/asn1/decode.go
+++ b/asn1/decode.go
@@ -112,6 +112,9 @@ func (a *ASNReader) ReadOID(tag uint8) (RelativeOID, errors.Error) {
 	value := int32(0)
 	for i := 0; i < len(buf); i++ {
 		b := buf[i] & 0xff
+		if value > math.MaxInt32>>7 {
+			return nil, errors.New("OID component too big at offset %d.", offset)
+		}
 		value <<= 7
 		value += int32(b & 0x7f)
 		if b&0x80 == 0 {
-- 
2.43.0


From 4e4e33e37e39310b168dd51f6f4f45ae79c620c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:12 +0000
Subject: [PATCH 55/55] fix: asn1: a real with an exponent that no float64 has
 is refused

---
 asn1/decode.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/asn1/decode.go b/asn1/decode.go
index daa8915..ccde4a9 100755
--- a/asn1/decode.go
+++ b/asn1/decode.go
@@ -459,6 +459,10 @@ func (a *ASNReader) ReadReal() (float64, errors.Error) {
 		pos++
 	}
 
+	if exponent < -1023 || exponent > 1023 {
+		return math.NaN(), errors.New("Exponent %d of real at offset %d out of range", exponent, offset)
+	}
+
 	significand := uint64(0)
 	for pos < len(buf) {
 		significand = (significand << 8) | uint64(buf[pos])
-- 
2.43.0

