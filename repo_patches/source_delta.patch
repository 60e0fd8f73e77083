From b9d8f5f8d00f8040086a4edb6b40ae1bcc156450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:06 +0000
Subject: [PATCH 01/20] fix: recognise frame delimiters after a dangling escape
 byte

---
 socket/frame.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/socket/frame.go b/socket/frame.go
index b9309e7..cfe7884 100755
--- a/socket/frame.go
+++ b/socket/frame.go
@@ -315,15 +315,12 @@ func (decoder *S101Decoder)SetLogger(logger Logger) {
 func (decoder *S101Decoder)DecodeBuffer( bufLen int, buf []byte) {
 	for i := 0; i < bufLen; i++ {
 		b := buf[i];
-		if (decoder.escaped) {
-			decoder.inbuf.WriteByte(b ^ S101_XOR);
-			decoder.escaped = false;
-		} else if b == S101_CE {
-			decoder.escaped = true;
-		} else if b == S101_BOF {
+		if b == S101_BOF {
 			decoder.inbuf.Reset();
 			decoder.escaped = false;
 		} else if b == S101_EOF {
+			// delimiters are never escaped, so they end a dangling escape too
+			decoder.escaped = false;
 			decoder.logger.Debug("End of Frame - frame size %d.\n", decoder.inbuf.Len())
 			decoder.logger.Debugln(decoder.inbuf)
 			buffer := make([]byte, decoder.inbuf.Len())
@@ -333,6 +330,11 @@ func (decoder *S101Decoder)DecodeBuffer( bufLen int, buf []byte) {
 			if err != nil {
 				decoder.errorHandler(err)
 			}
+		} else if (decoder.escaped) {
+			decoder.inbuf.WriteByte(b ^ S101_XOR);
+			decoder.escaped = false;
+		} else if b == S101_CE {
+			decoder.escaped = true;
 		} else {
 			decoder.inbuf.WriteByte(b);
 		}
-- 
2.43.0


From 53652f026c50366526b9b18ff6ea075355680e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:10 +0000
Subject: [PATCH 02/20] fix: drop the packets of a message once one of them is
 damaged or missing

---
 socket/frame.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/socket/frame.go b/socket/frame.go
index cfe7884..30bad33 100755
--- a/socket/frame.go
+++ b/socket/frame.go
@@ -285,6 +285,7 @@ type S101Decoder struct {
 	inbuf bytes.Buffer
 	logger Logger
 	emberbuf bytes.Buffer
+	inMessage bool // emberbuf holds the packets of a message since its first one
 	keepAliveReqHandler PacketHandler
 	keepAliveResHandler PacketHandler
 	emberPacketHandler PacketHandler
@@ -316,6 +317,10 @@ func (decoder *S101Decoder)DecodeBuffer( bufLen int, buf []byte) {
 	for i := 0; i < bufLen; i++ {
 		b := buf[i];
 		if b == S101_BOF {
+			if decoder.inbuf.Len() > 0 || decoder.escaped {
+				// the frame before this one was cut short
+				decoder.dropMessage()
+			}
 			decoder.inbuf.Reset();
 			decoder.escaped = false;
 		} else if b == S101_EOF {
@@ -341,9 +346,16 @@ func (decoder *S101Decoder)DecodeBuffer( bufLen int, buf []byte) {
 	}
 }
 
+// dropMessage forgets the packets received so far of an incomplete message.
+func (decoder *S101Decoder)dropMessage() {
+	decoder.emberbuf.Reset()
+	decoder.inMessage = false
+}
+
 func (decoder *S101Decoder)HandleFrame(buffer []byte) errors.Error {
 	decoder.logger.Debug("Frame parsing. total length %d.\n", len(buffer))
 	if !ValidateFrame(bytes.NewReader(buffer)) {
+		decoder.dropMessage()
 		return errors.New("dropping frame with invalid CRC")
 	}
 	var (
@@ -401,6 +413,10 @@ func (decoder *S101Decoder)HandleEmberFrame(frame *bytes.Reader) errors.Error {
 	if emberFrame.Header.Flags & FLAG_FIRST_MULTI_PACKET != 0 {
 		decoder.logger.Debug("Ember Frame first multi packet.\n")
 		decoder.emberbuf.Reset()
+		decoder.inMessage = true
+	}
+	if !decoder.inMessage {
+		return errors.New("Dropping packet of a message with missing packets.")
 	}
 
 	if emberFrame.Header.Flags & FLAG_EMPTY_PACKET == 0 {
@@ -411,7 +427,7 @@ func (decoder *S101Decoder)HandleEmberFrame(frame *bytes.Reader) errors.Error {
 		decoder.logger.Debug("Ember Frame last packet. Total message size %d.\n", decoder.emberbuf.Len())
 		emberPacket := make([]byte, decoder.emberbuf.Len())
 		decoder.emberbuf.Read(emberPacket)
-		decoder.emberbuf.Reset()
+		decoder.dropMessage()
 		decoder.emberPacketHandler(emberPacket)
 	}
 	decoder.logger.Debug("Ember Frame parsing complete.\n")
-- 
2.43.0


From 7e866399e723f9f41a77d96069e2dde2fd79c60b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:12 +0000
Subject: [PATCH 03/20] fix: do not allocate or zero-fill beyond the data for a
 length that exceeds it

---
 asn1/decode.go | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/asn1/decode.go b/asn1/decode.go
index 4ff5426..dc3321b 100755
--- a/asn1/decode.go
+++ b/asn1/decode.go
@@ -2,6 +2,7 @@ package asn1
 
 import (
 	"bytes"
+	"io"
 	"math"
 
 	"github.com/dufourgilles/emberlib/errors"
@@ -9,12 +10,14 @@ import (
 
 type ASNReader struct {
 	data           *bytes.Reader
+	buf            []byte
 	startingOffset int
 	len            int
+	truncated      bool
 }
 
 func NewASNReader(p []byte) *ASNReader {
-	return &ASNReader{data: bytes.NewReader(p), len: len(p), startingOffset: 0}
+	return &ASNReader{data: bytes.NewReader(p), buf: p, len: len(p), startingOffset: 0}
 }
 
 func (a *ASNReader) Len() int {
@@ -29,18 +32,29 @@ func (a *ASNReader) TopOffset() int {
 	return a.startingOffset + a.Offset()
 }
 
+// Truncated tells if the length announced for this reader exceeds the data it got.
+func (a *ASNReader) Truncated() bool {
+	return a.truncated
+}
+
+// NewReader returns a reader for the next length bytes, or for what is left of
+// them if there are fewer.
 func (a *ASNReader) NewReader(length int) (*ASNReader, errors.Error) {
 	if length <= 0 {
 		return NewASNReader([]byte{}), nil
 	}
-	b := make([]byte, length)
+	truncated := length > a.Len()
+	if truncated {
+		length = a.Len()
+	}
 	offset := a.TopOffset()
-	_, err := a.data.Read(b)
+	newReader := NewASNReader(a.buf[a.Offset() : a.Offset()+length])
+	_, err := a.data.Seek(int64(length), io.SeekCurrent)
 	if err != nil {
 		return nil, errors.New("Failed To read byte at offset %d. %s", a.TopOffset(), err)
 	}
-	newReader := NewASNReader(b)
 	newReader.startingOffset = offset
+	newReader.truncated = truncated
 	return newReader, nil
 }
 
@@ -153,6 +167,9 @@ func (a *ASNReader) ReadSequenceStart(tag uint8) (int, *ASNReader, errors.Error)
 		return -1, a, errors.New("Sequence TAG mismatch at offset %d. Got %d instead of %d", offset, b, tag)
 	}
 	length, err := a.ReadLength()
+	if err != nil {
+		return -1, nil, errors.Update(err)
+	}
 	if length >= 0 {
 		newReader, err := a.NewReader(length)
 
@@ -323,6 +340,9 @@ func (a *ASNReader) readStringBuffer() ([]byte, errors.Error) {
 	} else if l == 0 {
 		return nil, nil
 	}
+	if l > a.Len() {
+		return nil, errors.New("Length %d at offset %d is more than the %d bytes left.", l, a.TopOffset(), a.Len())
+	}
 	b = make([]byte, l)
 	for i := 0; i < l; i++ {
 		b[i], err = a.ReadByte()
-- 
2.43.0


From d2b360445637348f8d9290e64238c01516409982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:32 +0000
Subject: [PATCH 04/20] fix: report truncated or empty integers and booleans
 instead of inventing a value

---
 asn1/decode.go                 | 15 ++++++++++++---
 embertree/content_parameter.go |  4 ++++
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/asn1/decode.go b/asn1/decode.go
index dc3321b..4a060f8 100755
--- a/asn1/decode.go
+++ b/asn1/decode.go
@@ -83,9 +83,9 @@ func (a *ASNReader) ReadBoolean() (bool, errors.Error) {
 	if l != 1 {
 		return false, errors.New("Invalid boolean length %d at offset %d", l, offset)
 	}
-	b, e := a.ReadByte()
+	b, err = a.ReadByte()
 	if err != nil {
-		return false, errors.Update(e)
+		return false, errors.Update(err)
 	}
 	if b == 0 {
 		return false, nil
@@ -231,6 +231,9 @@ func (a *ASNReader) ReadInt() (int, errors.Error) {
 	if err != nil {
 		return 0, err
 	}
+	if l < 1 {
+		return 0, errors.New("Invalid integer length %d at offset %d", l, offset)
+	}
 	if l > 4 {
 		return 0, errors.New("Integer length too big %d at offset %d", l, offset)
 	}
@@ -238,6 +241,9 @@ func (a *ASNReader) ReadInt() (int, errors.Error) {
 	var b byte
 	val := int(0)
 	b, err = a.ReadByte()
+	if err != nil {
+		return 0, errors.Update(err)
+	}
 	if b&0x80 > 0 {
 		val = -1
 	}
@@ -295,12 +301,15 @@ func (a *ASNReader) ReadInt64() (int64, errors.Error) {
 	if err != nil {
 		return 0, errors.Update(err)
 	}
+	if l < 1 {
+		return 0, errors.New("Invalid integer length %d at offset %d", l, offset)
+	}
 	if l > 8 {
 		return 0, errors.New("Integer64 length too big %d at offset %d", l, offset)
 	}
 
 	val, err := a.readInt64(l)
-	return val, nil
+	return val, errors.Update(err)
 }
 
 func (a *ASNReader) ReadIndifiniteLengthData() ([]byte, errors.Error) {
diff --git a/embertree/content_parameter.go b/embertree/content_parameter.go
index 5308270..d2e2d1c 100755
--- a/embertree/content_parameter.go
+++ b/embertree/content_parameter.go
@@ -338,6 +338,10 @@ func DecodeValue(reader *asn1.ASNReader, ctxt uint8) (*ContentParameter, errors.
 	if pcLength == 0 {
 		return &contentParameter, nil
 	}
+	if pcReader.Truncated() {
+		// The value was cut short: there is nothing that can be told about it.
+		return &contentParameter, nil
+	}
 	pcType, err := pcReader.Peek()
 	if err != nil {
 		return nil, errors.Update(err)
-- 
2.43.0


From 711d82ab46b92f5c23571c33dd2df266cece1bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:58 +0000
Subject: [PATCH 05/20] fix: reject cut lists instead of storing them shortened

---
 embertree/connection.go     | 4 ++++
 embertree/function.go       | 6 ++++++
 embertree/invocation.go     | 3 +++
 embertree/matrix.go         | 3 +++
 embertree/matrix_element.go | 6 ++++++
 5 files changed, 22 insertions(+)

diff --git a/embertree/connection.go b/embertree/connection.go
index 506b13a..7cc6af1 100755
--- a/embertree/connection.go
+++ b/embertree/connection.go
@@ -127,6 +127,10 @@ func (c *Connection) Decode(reader *asn1.ASNReader) errors.Error {
 		return errors.Update(err)
 	}
 
+	if connectionReader.Truncated() {
+		return errors.New("Incomplete connection at offset %d.", reader.TopOffset())
+	}
+
 	// Target
 	_, targetReader, err := connectionReader.ReadSequenceStart(asn1.Context(0))
 	if err != nil {
diff --git a/embertree/function.go b/embertree/function.go
index 8471fa7..57954e0 100755
--- a/embertree/function.go
+++ b/embertree/function.go
@@ -96,6 +96,9 @@ func decodeTupleDescriptions(reader *asn1.ASNReader) ([]*TupleDescription, error
 	if err != nil {
 		return nil, errors.Update(err)
 	}
+	if seqReader.Truncated() {
+		return nil, errors.New("Incomplete tuples at offset %d.", reader.TopOffset())
+	}
 	for seqReader.Len() > 0 {
 		_, argReader, err := seqReader.ReadSequenceStart(asn1.Context(0))
 		if err != nil {
@@ -157,6 +160,9 @@ func (tuple *TupleDescription) Decode(reader *asn1.ASNReader) errors.Error {
 	if err != nil {
 		return errors.Update(err)
 	}
+	if tupleReader.Truncated() {
+		return errors.New("Incomplete tuple at offset %d.", reader.TopOffset())
+	}
 	for tupleReader.Len() > 0 {
 		peek, err := tupleReader.Peek()
 		if err != nil {
diff --git a/embertree/invocation.go b/embertree/invocation.go
index c7f1565..838f4e9 100755
--- a/embertree/invocation.go
+++ b/embertree/invocation.go
@@ -92,6 +92,9 @@ func (i *Invocation) Decode(reader *asn1.ASNReader) errors.Error {
 			if err != nil {
 				return errors.Update(err)
 			}
+			if seqReader.Truncated() {
+				return errors.New("Incomplete arguments at offset %d.", reader.TopOffset())
+			}
 			for seqReader.Len() > 0 {
 				value, err := DecodeValue(seqReader, 0)
 				if err != nil {
diff --git a/embertree/matrix.go b/embertree/matrix.go
index 8cc4036..407d6c3 100755
--- a/embertree/matrix.go
+++ b/embertree/matrix.go
@@ -271,6 +271,9 @@ func (c *MatrixContent) DecodeLabels(reader *asn1.ASNReader) errors.Error {
 	if err != nil {
 		return errors.Update(err)
 	}
+	if seqReader.Truncated() {
+		return errors.New("Incomplete labels at offset %d.", reader.TopOffset())
+	}
 	for seqReader.Len() > 0 {
 		_, ctxtReader, err := seqReader.ReadSequenceStart(asn1.Context(0))
 		if err != nil {
diff --git a/embertree/matrix_element.go b/embertree/matrix_element.go
index 974227b..b2c50a1 100755
--- a/embertree/matrix_element.go
+++ b/embertree/matrix_element.go
@@ -59,6 +59,9 @@ func DeodeSignals(reader *asn1.ASNReader, ctxt uint8) ([]Signal, errors.Error) {
 		return nil, errors.Update(err)
 	}
 
+	if setReader.Truncated() {
+		return nil, errors.New("Incomplete signals at offset %d.", reader.TopOffset())
+	}
 	for setReader.Len() > 0 {
 		_, ctxtReader, err := setReader.ReadSequenceStart(asn1.Context(0))
 		if err != nil {
@@ -153,6 +156,9 @@ func (element *Element) DecodeConnections(reader *asn1.ASNReader) errors.Error {
 	if err != nil {
 		return errors.Update(err)
 	}
+	if setReader.Truncated() {
+		return errors.New("Incomplete connections at offset %d.", reader.TopOffset())
+	}
 	for setReader.Len() > 0 {
 		_, ctxtReader, err := setReader.ReadSequenceStart(asn1.Context(0))
 		if err != nil {
-- 
2.43.0


From e8b118165bea4b509c72342469ed9a6c984136f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:01 +0000
Subject: [PATCH 06/20] fix: check the tag and the numbers of a relative OID,
 encode 127 in one byte

---
 asn1/decode.go | 12 +++++++++++-
 asn1/encode.go |  2 +-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/asn1/decode.go b/asn1/decode.go
index 4a060f8..0991733 100755
--- a/asn1/decode.go
+++ b/asn1/decode.go
@@ -96,18 +96,28 @@ func (a *ASNReader) ReadBoolean() (bool, errors.Error) {
 func (a *ASNReader) ReadOID(tag uint8) (RelativeOID, errors.Error) {
 	var oid RelativeOID
 	offset := a.TopOffset()
-	tag, err := a.ReadByte()
+	b, err := a.ReadByte()
 	if err != nil {
 		return nil, errors.New("Failed to read OID tag at offset %d. %s", offset, err)
 	}
+	if b != tag {
+		return nil, errors.New("Incorrect OID tag %d at offset %d.", b, offset)
+	}
 	buf, err := a.readStringBuffer()
 	if err != nil {
 		return nil, errors.Update(err)
 	}
 
+	if len(buf) > 0 && buf[len(buf)-1]&0x80 != 0 {
+		return nil, errors.New("Incomplete OID at offset %d.", offset)
+	}
+
 	value := int32(0)
 	for i := 0; i < len(buf); i++ {
 		b := buf[i] & 0xff
+		if value > math.MaxInt32>>7 {
+			return nil, errors.New("OID number too big at offset %d.", offset)
+		}
 		value <<= 7
 		value += int32(b & 0x7f)
 		if b&0x80 == 0 {
diff --git a/asn1/encode.go b/asn1/encode.go
index c9426eb..528ea3e 100755
--- a/asn1/encode.go
+++ b/asn1/encode.go
@@ -332,7 +332,7 @@ func (asn *ASNWriter) WriteRelativeOID(oid RelativeOID) errors.Error {
 		val := oid[i]
 		encodedBytes := make([]byte, 0)
 		for {
-			if val < 0x7F {
+			if val <= 0x7F {
 				break
 			}
 			encodedBytes = append(encodedBytes, byte(val&0x7F))
-- 
2.43.0


From 516ce2fb6b30ef5766ddeb0ac2242014aab76a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:33 +0000
Subject: [PATCH 07/20] fix: encode and decode reals with large exponents,
 denormals and zero, and lengths above 64 KiB

---
 asn1/decode.go | 31 ++++++++-----------------------
 asn1/encode.go | 19 ++++++++++++++-----
 2 files changed, 22 insertions(+), 28 deletions(-)

diff --git a/asn1/decode.go b/asn1/decode.go
index 0991733..d02021e 100755
--- a/asn1/decode.go
+++ b/asn1/decode.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"io"
 	"math"
+	"math/bits"
 
 	"github.com/dufourgilles/emberlib/errors"
 )
@@ -413,7 +414,7 @@ func (a *ASNReader) ReadReal() (float64, errors.Error) {
 	}
 
 	buf, e := a.readStringBuffer()
-	if e != nil || buf == nil {
+	if e != nil || len(buf) == 0 {
 		return 0.0, errors.Update(e)
 	}
 
@@ -436,7 +437,6 @@ func (a *ASNReader) ReadReal() (float64, errors.Error) {
 		sign = 1
 	}
 	exponentLength := 1 + (preamble & 3)
-	significandShift := (preamble >> 2) & 3
 
 	exponent := 0
 	pos := 1
@@ -455,29 +455,14 @@ func (a *ASNReader) ReadReal() (float64, errors.Error) {
 
 	significand := uint64(0)
 	for pos < len(buf) {
+		if significand > math.MaxUint64>>8 {
+			return math.NaN(), errors.New("Real significand too big at offset %d.", offset)
+		}
 		significand = (significand << 8) | uint64(buf[pos])
 		pos++
 	}
 
-	significand = significand << significandShift
-
-	mask := uint64(0x7FFFF00000000000)
-	for significand&mask == 0 {
-		significand <<= 8
-	}
-
-	mask = uint64(0x7FF0000000000000)
-	for significand&mask == 0 {
-		significand <<= 1
-	}
-
-	significand = significand & uint64(0x000FFFFFFFFFFFFF)
-	longExponent := uint64(exponent)
-	bits := ((longExponent + 1023) << 52) | significand
-	if sign < 0 {
-		bits |= uint64(0x8000000000000000)
-	}
-
-	return math.Float64frombits(bits), nil
-
+	// The exponent is the one of the highest bit of the significand.
+	val := math.Ldexp(math.Ldexp(float64(significand), 1-bits.Len64(significand)), exponent)
+	return math.Copysign(val, float64(sign)), nil
 }
diff --git a/asn1/encode.go b/asn1/encode.go
index 528ea3e..40d411e 100755
--- a/asn1/encode.go
+++ b/asn1/encode.go
@@ -201,9 +201,10 @@ func (asn *ASNWriter) WriteReal(r float64) errors.Error {
 	// buf = append(buf, value...)
 	// return asn.writeUntagBuffer(buf)
 
-	bits := math.Float64bits(r)
+	fraction, exponent := math.Frexp(r)
+	exponent--
+	bits := math.Float64bits(fraction)
 	significand := (uint64(0x000FFFFFFFFFFFFF) & bits) | 0x0010000000000000
-	exponent := int(((uint64(0x7FF0000000000000) & bits) >> 52)) - 1023
 
 	for significand&uint64(0xFF) == 0 {
 		significand = significand >> 8
@@ -218,7 +219,7 @@ func (asn *ASNWriter) WriteReal(r float64) errors.Error {
 	significandSize, significandVal := shortenLong(significand)
 
 	asn.writeLength(1 + expSize + significandSize)
-	preamble := uint8(0x80)
+	preamble := uint8(0x80) | uint8(expSize-1)
 	if r < 0 {
 		preamble |= 0x40
 	}
@@ -258,8 +259,16 @@ func (asn *ASNWriter) writeLength(len int) errors.Error {
 			return errors.NewError(err)
 		}
 		err = asn.data.WriteByte(byte(len & 0xFF))
-	} else if len <= 0xffffff {
-		err = asn.data.WriteByte(0x82)
+	} else {
+		if len <= 0xffffff {
+			err = asn.data.WriteByte(0x83)
+		} else {
+			err = asn.data.WriteByte(0x84)
+			if err != nil {
+				return errors.NewError(err)
+			}
+			err = asn.data.WriteByte(byte((len >> 24) & 0xFF))
+		}
 		if err != nil {
 			return errors.NewError(err)
 		}
-- 
2.43.0


From 72215e1342c954bc28fd66be4593fd9e1125089c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:09 +0000
Subject: [PATCH 08/20] fix: find the end of structures of indefinite length,
 also of empty and cut ones

---
 asn1/decode.go                 | 108 +++++++++++++++++++++++++++++++--
 embertree/content_parameter.go |   4 +-
 embertree/matrix.go            |   2 +-
 3 files changed, 107 insertions(+), 7 deletions(-)

diff --git a/asn1/decode.go b/asn1/decode.go
index d02021e..83d9151 100755
--- a/asn1/decode.go
+++ b/asn1/decode.go
@@ -15,10 +15,15 @@ type ASNReader struct {
 	startingOffset int
 	len            int
 	truncated      bool
+	depth          int
+	ends           map[int]int
 }
 
+// maxDepth bounds the nesting of the structures which can be decoded.
+const maxDepth = 4096
+
 func NewASNReader(p []byte) *ASNReader {
-	return &ASNReader{data: bytes.NewReader(p), buf: p, len: len(p), startingOffset: 0}
+	return &ASNReader{data: bytes.NewReader(p), buf: p, len: len(p), startingOffset: 0, ends: make(map[int]int)}
 }
 
 func (a *ASNReader) Len() int {
@@ -41,8 +46,11 @@ func (a *ASNReader) Truncated() bool {
 // NewReader returns a reader for the next length bytes, or for what is left of
 // them if there are fewer.
 func (a *ASNReader) NewReader(length int) (*ASNReader, errors.Error) {
-	if length <= 0 {
-		return NewASNReader([]byte{}), nil
+	if a.depth >= maxDepth {
+		return nil, errors.New("More than %d nested structures at offset %d.", maxDepth, a.TopOffset())
+	}
+	if length < 0 {
+		length = 0
 	}
 	truncated := length > a.Len()
 	if truncated {
@@ -56,6 +64,8 @@ func (a *ASNReader) NewReader(length int) (*ASNReader, errors.Error) {
 	}
 	newReader.startingOffset = offset
 	newReader.truncated = truncated
+	newReader.depth = a.depth + 1
+	newReader.ends = a.ends
 	return newReader, nil
 }
 
@@ -186,7 +196,94 @@ func (a *ASNReader) ReadSequenceStart(tag uint8) (int, *ASNReader, errors.Error)
 
 		return length, newReader, err
 	}
-	return length, a, nil
+	length, err = a.indefiniteLength()
+	if err != nil {
+		return -1, nil, errors.Update(err)
+	}
+	newReader, err := a.NewReader(length)
+	if err != nil {
+		return -1, nil, errors.Update(err)
+	}
+	_, err = a.CheckSequenceEnd()
+	return -1, newReader, errors.Update(err)
+}
+
+// indefiniteLength returns the size of the contents of the structure of indefinite
+// length which starts here.
+func (a *ASNReader) indefiniteLength() (int, errors.Error) {
+	start := a.TopOffset()
+	if length, found := a.ends[start]; found {
+		return length, nil
+	}
+	scanner := NewASNReader(a.buf[a.Offset():])
+	scanner.startingOffset = start
+	starts := []int{start}
+	for len(starts) > 0 {
+		if scanner.Len() == 0 {
+			return 0, errors.New("No end for the sequence at offset %d.", start)
+		}
+		offset := scanner.TopOffset()
+		end, err := scanner.CheckSequenceEnd()
+		if err != nil {
+			return 0, errors.Update(err)
+		}
+		if end {
+			last := len(starts) - 1
+			a.ends[starts[last]] = offset - starts[last]
+			starts = starts[:last]
+			continue
+		}
+		tag, err := scanner.ReadByte()
+		if err != nil {
+			return 0, errors.Update(err)
+		}
+		length, err := scanner.ReadLength()
+		if err != nil {
+			return 0, errors.Update(err)
+		}
+		if length < 0 && tag&0x20 != 0 {
+			starts = append(starts, scanner.TopOffset())
+		} else {
+			err = scanner.skip(length)
+			if err != nil {
+				return 0, errors.Update(err)
+			}
+		}
+	}
+	return a.ends[start], nil
+}
+
+// skip passes over length bytes, or up to the end marker if length is negative.
+func (a *ASNReader) skip(length int) errors.Error {
+	if length < 0 {
+		_, err := a.ReadIndifiniteLengthData()
+		return errors.Update(err)
+	}
+	if length > a.Len() {
+		return errors.New("Length %d at offset %d is more than the %d bytes left.", length, a.TopOffset(), a.Len())
+	}
+	_, err := a.data.Seek(int64(length), io.SeekCurrent)
+	return errors.NewError(err)
+}
+
+// SkipElement passes over the next element, whatever it is.
+func (a *ASNReader) SkipElement() errors.Error {
+	tag, err := a.ReadByte()
+	if err != nil {
+		return errors.Update(err)
+	}
+	length, err := a.ReadLength()
+	if err != nil {
+		return errors.Update(err)
+	}
+	if length < 0 && tag&0x20 != 0 {
+		length, err = a.indefiniteLength()
+		if err != nil {
+			return errors.Update(err)
+		}
+		length += 2
+	}
+	return errors.Update(a.skip(length))
 }
 
 func (a *ASNReader) ReadSequenceEnd() errors.Error {
@@ -327,6 +424,9 @@ func (a *ASNReader) ReadIndifiniteLengthData() ([]byte, errors.Error) {
 	var b byte
 	ret := make([]byte, 0)
 	for {
+		if a.Len() == 0 {
+			return ret, errors.New("No end for the data at offset %d.", a.TopOffset())
+		}
 		end, err := a.CheckSequenceEnd()
 		if err != nil {
 			return ret, errors.Update(err)
diff --git a/embertree/content_parameter.go b/embertree/content_parameter.go
index d2e2d1c..f7ba0dd 100755
--- a/embertree/content_parameter.go
+++ b/embertree/content_parameter.go
@@ -331,11 +331,11 @@ func (cp *ContentParameter) Encode(context uint8, writer *asn1.ASNWriter) errors
 
 func DecodeValue(reader *asn1.ASNReader, ctxt uint8) (*ContentParameter, errors.Error) {
 	var contentParameter ContentParameter
-	pcLength, pcReader, err := reader.ReadSequenceStart(asn1.Context(ctxt))
+	_, pcReader, err := reader.ReadSequenceStart(asn1.Context(ctxt))
 	if err != nil {
 		return nil, errors.Update(err)
 	}
-	if pcLength == 0 {
+	if pcReader.Len() == 0 {
 		return &contentParameter, nil
 	}
 	if pcReader.Truncated() {
diff --git a/embertree/matrix.go b/embertree/matrix.go
index 407d6c3..97d443c 100755
--- a/embertree/matrix.go
+++ b/embertree/matrix.go
@@ -296,7 +296,7 @@ func (c *MatrixContent) DecodeLabels(reader *asn1.ASNReader) errors.Error {
 			return errors.Update(err)
 		}
 	}
-	err = reader.ReadSequenceEnd()
+	err = labelReader.ReadSequenceEnd()
 	if err != nil {
 		return errors.Update(err)
 	}
-- 
2.43.0


From 38fc09df456d2a3cb4fdfa23bbfc65afdafd8c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:51 +0000
Subject: [PATCH 09/20] fix: transfer buffers as octet strings, decode octet
 string, OID and null values

---
 asn1/decode.go                 | 13 +++++++++++++
 embertree/content_parameter.go | 30 ++++++++++++++++++++++++++++--
 2 files changed, 41 insertions(+), 2 deletions(-)

diff --git a/asn1/decode.go b/asn1/decode.go
index 83d9151..99c650d 100755
--- a/asn1/decode.go
+++ b/asn1/decode.go
@@ -503,6 +503,19 @@ func (a *ASNReader) ReadBitString() ([]byte, errors.Error) {
 	return a.readStringBuffer()
 }
 
+func (a *ASNReader) ReadOctetString() ([]byte, errors.Error) {
+	offset := a.TopOffset()
+	tag, err := a.data.ReadByte()
+	if err != nil {
+		return nil, errors.New("Failed to read tag at offset %d. %s", offset, err)
+	}
+	if tag != EMBER_OCTETSTRING {
+		return nil, errors.New("Incorrect octet string tag at offset %d.", offset)
+	}
+
+	return a.readStringBuffer()
+}
+
 func (a *ASNReader) ReadReal() (float64, errors.Error) {
 	offset := a.TopOffset()
 	tag, err := a.data.ReadByte()
diff --git a/embertree/content_parameter.go b/embertree/content_parameter.go
index f7ba0dd..1b39fcf 100755
--- a/embertree/content_parameter.go
+++ b/embertree/content_parameter.go
@@ -149,6 +149,13 @@ func (cp *ContentParameter) Set(val *ContentParameter) errors.Error {
 		}
 		cp.SetReal(b)
 		break
+	case ValueTypeOID:
+		b, err := val.GetRelativeOID()
+		if err != nil {
+			return err
+		}
+		cp.SetRelativeOID(b)
+		break
 	}
 	return nil
 }
@@ -278,7 +285,7 @@ func (cp *ContentParameter) Encode(context uint8, writer *asn1.ASNWriter) errors
 		if err != nil {
 			return errors.Update(err)
 		}
-		err = writer.WriteBuffer(b, asn1.EMBER_BITSTRING)
+		err = writer.WriteBuffer(b, asn1.EMBER_OCTETSTRING)
 		if err != nil {
 			return errors.Update(err)
 		}
@@ -376,8 +383,27 @@ func DecodeValue(reader *asn1.ASNReader, ctxt uint8) (*ContentParameter, errors.
 		}
 		contentParameter.SetBuffer(s)
 		break
+	case asn1.EMBER_OCTETSTRING:
+		s, err := pcReader.ReadOctetString()
+		if err != nil {
+			return nil, errors.Update(err)
+		}
+		contentParameter.SetBuffer(s)
+		break
+	case asn1.EMBER_RELATIVE_OID:
+		oid, err := pcReader.ReadOID(pcType)
+		if err != nil {
+			return nil, errors.Update(err)
+		}
+		contentParameter.SetRelativeOID(oid)
+		break
+	case asn1.EMBER_NULL:
+		err = pcReader.SkipElement()
+		if err != nil {
+			return nil, errors.Update(err)
+		}
+		break
 	case asn1.EMBER_STRING:
-		//case asn1.EMBER_OCTETSTRING:
 		s, err := pcReader.ReadString()
 		if err != nil {
 			return nil, errors.Update(err)
-- 
2.43.0


From 568ee53dfba220c79274122505b50f88b17ef78e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:22 +0000
Subject: [PATCH 10/20] fix: skip unknown parts of messages instead of looping
 on them, report errors of inner structures

---
 embertree/connection.go     |  3 +++
 embertree/elementFactory.go | 13 +++++++++++++
 embertree/function.go       | 29 +++++++++++++++++++++++++++--
 embertree/matrix.go         | 13 ++++++++++++-
 embertree/node.go           | 12 +++++++++++-
 embertree/parameter.go      | 10 +++++++++-
 embertree/root.go           | 15 ++++++++++++---
 7 files changed, 87 insertions(+), 8 deletions(-)

diff --git a/embertree/connection.go b/embertree/connection.go
index 7cc6af1..ab1f507 100755
--- a/embertree/connection.go
+++ b/embertree/connection.go
@@ -153,6 +153,9 @@ func (c *Connection) Decode(reader *asn1.ASNReader) errors.Error {
 		}
 
 		_, ctxtReader, err := connectionReader.ReadSequenceStart(tag)
+		if err != nil {
+			return errors.Update(err)
+		}
 		switch tag {
 		case asn1.Context(1):
 			//Sources
diff --git a/embertree/elementFactory.go b/embertree/elementFactory.go
index db2e9f8..4aa9928 100755
--- a/embertree/elementFactory.go
+++ b/embertree/elementFactory.go
@@ -21,6 +21,8 @@ func getContentCreator(tag uint8) (ContentCreator, errors.Error) {
 		fallthrough
 	case MatrixApplication:
 		return NewDefaultMatrixContents, nil
+	case QualifiedFunctionApplication:
+		fallthrough
 	case FunctionApplication:
 		return NewFunctionContents, nil
 	default:
@@ -87,6 +89,9 @@ func decodeContents(element *Element, ctxt uint8, reader *asn1.ASNReader) (inter
 
 func decodeChildren(ctxt uint8, element *Element, reader *asn1.ASNReader) errors.Error {
 	_, ctxtReader, err := reader.ReadSequenceStart(ctxt)
+	if err != nil {
+		return errors.Update(err)
+	}
 	_, childrenReader, err := ctxtReader.ReadSequenceStart(asn1.Application(4))
 	if err != nil {
 		return errors.Update(err)
@@ -144,6 +149,9 @@ func DecodeElement(reader *asn1.ASNReader) (*Element, errors.Error) {
 	if err != nil {
 		return nil, errors.Update(err)
 	}
+	if IsQualifiedTag(tag) && len(path) == 0 {
+		return nil, errors.New("Empty path at offset %d.", ctxtReader.TopOffset())
+	}
 	err = ctxtReader.ReadSequenceEnd()
 	if err != nil {
 		return nil, errors.Update(err)
@@ -192,6 +200,11 @@ func DecodeElement(reader *asn1.ASNReader) (*Element, errors.Error) {
 			if err != nil {
 				return nil, errors.Update(err)
 			}
+		} else {
+			err = elementReader.SkipElement()
+			if err != nil {
+				return nil, errors.Update(err)
+			}
 		}
 		end, err := elementReader.CheckSequenceEnd()
 		if end {
diff --git a/embertree/function.go b/embertree/function.go
index 57954e0..8f3d2bb 100755
--- a/embertree/function.go
+++ b/embertree/function.go
@@ -256,6 +256,8 @@ func (fc *FunctionContents) Decode(reader *asn1.ASNReader) errors.Error {
 		}
 		if peek < asn1.Context(2) {
 			value, err = DecodeValue(reader, peek)
+		} else if peek > asn1.Context(4) {
+			err = reader.SkipElement()
 		} else {
 			_, ctxtReader, err = reader.ReadSequenceStart(peek)
 		}
@@ -291,8 +293,17 @@ func (fc *FunctionContents) Decode(reader *asn1.ASNReader) errors.Error {
 				return errors.Update(err)
 			}
 			break
-		default:
-			return errors.New("Unknown function content tag %d", peek)
+		case asn1.Context(4):
+			templateReference, err := ctxtReader.ReadOID(asn1.EMBER_RELATIVE_OID)
+			if err != nil {
+				return errors.Update(err)
+			}
+			fc.templateReference = templateReference
+			err = ctxtReader.ReadSequenceEnd()
+			if err != nil {
+				return errors.Update(err)
+			}
+			break
 		}
 		end, err := reader.CheckSequenceEnd()
 		if end || err != nil {
@@ -334,6 +345,20 @@ func (fc *FunctionContents) Encode(writer *asn1.ASNWriter) errors.Error {
 			return errors.Update(err)
 		}
 	}
+	if fc.templateReference != nil {
+		err = writer.StartSequence(asn1.Context(4))
+		if err != nil {
+			return errors.Update(err)
+		}
+		err = writer.WriteRelativeOID(fc.templateReference)
+		if err != nil {
+			return errors.Update(err)
+		}
+		err = writer.EndSequence()
+		if err != nil {
+			return errors.Update(err)
+		}
+	}
 	writer.EndSequence()
 	return nil
 }
diff --git a/embertree/matrix.go b/embertree/matrix.go
index 97d443c..21c0214 100755
--- a/embertree/matrix.go
+++ b/embertree/matrix.go
@@ -367,7 +367,10 @@ func (c *MatrixContent) Decode(reader *asn1.ASNReader) errors.Error {
 				return errors.Update(err)
 			}
 		} else if peek == labelContext {
-			c.DecodeLabels(matrixContentReader)
+			err = c.DecodeLabels(matrixContentReader)
+			if err != nil {
+				return errors.Update(err)
+			}
 		} else if index == 11 {
 			value, err := DecodeValue(matrixContentReader, index)
 			if err != nil {
@@ -379,6 +382,9 @@ func (c *MatrixContent) Decode(reader *asn1.ASNReader) errors.Error {
 			}
 		} else if peek == templateReferenceContext {
 			_, templateReader, err := matrixContentReader.ReadSequenceStart(peek)
+			if err != nil {
+				return errors.Update(err)
+			}
 			templateReference, err := templateReader.ReadOID(asn1.EMBER_RELATIVE_OID)
 			if err != nil {
 				return errors.Update(err)
@@ -388,6 +394,11 @@ func (c *MatrixContent) Decode(reader *asn1.ASNReader) errors.Error {
 			if err != nil {
 				return errors.Update(err)
 			}
+		} else {
+			err = matrixContentReader.SkipElement()
+			if err != nil {
+				return errors.Update(err)
+			}
 		}
 		end, err := matrixContentReader.CheckSequenceEnd()
 		if end {
diff --git a/embertree/node.go b/embertree/node.go
index 7479e63..d731b6b 100755
--- a/embertree/node.go
+++ b/embertree/node.go
@@ -147,7 +147,7 @@ func (nc *NodeContents) Decode(reader *asn1.ASNReader) errors.Error {
 		if err != nil {
 			return errors.Update(err)
 		}
-		if peek != asn1.Context(5) {
+		if peek < asn1.Context(5) {
 			value, err = DecodeValue(reader, peek)
 			if err != nil {
 				return errors.Update(err)
@@ -182,6 +182,9 @@ func (nc *NodeContents) Decode(reader *asn1.ASNReader) errors.Error {
 		case asn1.Context(5):
 			{
 				_, templateReader, err := reader.ReadSequenceStart(peek)
+				if err != nil {
+					return errors.Update(err)
+				}
 				templateReference, err := templateReader.ReadOID(asn1.EMBER_RELATIVE_OID)
 				if err != nil {
 					return errors.Update(err)
@@ -192,6 +195,13 @@ func (nc *NodeContents) Decode(reader *asn1.ASNReader) errors.Error {
 					return errors.Update(err)
 				}
 			}
+		default:
+			{
+				err = reader.SkipElement()
+				if err != nil {
+					return errors.Update(err)
+				}
+			}
 		}
 		end, err := reader.CheckSequenceEnd()
 		if end {
diff --git a/embertree/parameter.go b/embertree/parameter.go
index 6216a53..f74dc2b 100755
--- a/embertree/parameter.go
+++ b/embertree/parameter.go
@@ -192,7 +192,7 @@ func (pc *ParameterContents) Decode(reader *asn1.ASNReader) errors.Error {
 			return errors.Update(err)
 		}
 		index := uint8(peek) - asn1.Context(0)
-		if index < 18 {
+		if index < 18 && index != enumMapCtx && index != streamDescriptorCtx {
 			value, err = DecodeValue(reader, index)
 			if err != nil {
 				return errors.Update(err)
@@ -203,6 +203,9 @@ func (pc *ParameterContents) Decode(reader *asn1.ASNReader) errors.Error {
 			}
 		} else if index == 18 {
 			_, templateReader, err := reader.ReadSequenceStart(peek)
+			if err != nil {
+				return errors.Update(err)
+			}
 			templateReference, err := templateReader.ReadOID(asn1.EMBER_RELATIVE_OID)
 			if err != nil {
 				return errors.Update(err)
@@ -212,6 +215,11 @@ func (pc *ParameterContents) Decode(reader *asn1.ASNReader) errors.Error {
 			if err != nil {
 				return errors.Update(err)
 			}
+		} else {
+			err = reader.SkipElement()
+			if err != nil {
+				return errors.Update(err)
+			}
 		}
 		end, err := reader.CheckSequenceEnd()
 		if end {
diff --git a/embertree/root.go b/embertree/root.go
index 2cbd180..b402a08 100755
--- a/embertree/root.go
+++ b/embertree/root.go
@@ -87,9 +87,12 @@ func (root *RootElement) Decode(reader *asn1.ASNReader) errors.Error {
 	if err != nil {
 		return err
 	}
-	peek, err := reader.Peek()
-	if err != nil {
-		return err
+	peek := uint8(0)
+	if reader.Len() > 0 {
+		peek, err = reader.Peek()
+		if err != nil {
+			return err
+		}
 	}
 	if peek == asn1.Application(11) {
 		_, collectionReader, err := reader.ReadSequenceStart(peek)
@@ -127,6 +130,12 @@ func (root *RootElement) Decode(reader *asn1.ASNReader) errors.Error {
 			}
 		}
 	}
+	if reader.Len() > 0 && peek != asn1.Application(11) {
+		err = reader.SkipElement()
+		if err != nil {
+			return errors.Update(err)
+		}
+	}
 	err = reader.ReadSequenceEnd()
 	for _, listener := range(root.listeners) {
 		root.logger.Debug("Updating root listener.\n")
-- 
2.43.0


From 7c568539a74f75ed10272600d3ba75dbf3073181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:25 +0000
Subject: [PATCH 11/20] fix: use the Glow numbers of matrix contents and of the
 field flags

---
 embertree/command.go | 14 +++++++-------
 embertree/matrix.go  | 18 +++++++++---------
 2 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/embertree/command.go b/embertree/command.go
index e6631a2..f783ba0 100755
--- a/embertree/command.go
+++ b/embertree/command.go
@@ -17,13 +17,13 @@ type FieldFlags int
 
 const (
 	SparseFieldFlags      FieldFlags = -2
-	ALLFieldFlags         FieldFlags  = iota
-	DefaultFieldFlags     FieldFlags  = iota
-	IdentifierFieldFlags  FieldFlags  = iota
-	DescriptionFieldFlags FieldFlags  = iota
-	TreeFieldFlags        FieldFlags  = iota
-	ValueFieldFlags       FieldFlags  = iota
-	ConnectionsFieldFlags FieldFlags  = iota
+	ALLFieldFlags         FieldFlags  = iota - 2
+	DefaultFieldFlags     FieldFlags  = iota - 2
+	IdentifierFieldFlags  FieldFlags  = iota - 2
+	DescriptionFieldFlags FieldFlags  = iota - 2
+	TreeFieldFlags        FieldFlags  = iota - 2
+	ValueFieldFlags       FieldFlags  = iota - 2
+	ConnectionsFieldFlags FieldFlags  = iota - 2
 )
 
 type CommandContents struct {
diff --git a/embertree/matrix.go b/embertree/matrix.go
index 21c0214..2411465 100755
--- a/embertree/matrix.go
+++ b/embertree/matrix.go
@@ -8,15 +8,15 @@ import (
 )
 
 const (
-	matrixTypeCtx               = 2
-	matrixModeCtx               = iota
-	targetCountCtx              = iota
-	sourceCounCtx               = iota
-	maximumTotalConnectsCtx     = iota
-	maximumConnectsPerTargetCtx = iota
-	parametersLocationCtx       = iota
-	gainParameterNumberCtx      = iota
-	matrixContentSize           = iota
+	matrixTypeCtx               = iota + 2
+	matrixModeCtx               = iota + 2
+	targetCountCtx              = iota + 2
+	sourceCounCtx               = iota + 2
+	maximumTotalConnectsCtx     = iota + 2
+	maximumConnectsPerTargetCtx = iota + 2
+	parametersLocationCtx       = iota + 2
+	gainParameterNumberCtx      = iota + 2
+	matrixContentSize           = iota + 2
 )
 
 type MatrixType int8
-- 
2.43.0


From 648818da2d26c6418b3bc7e6e1e973be46982573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:43 +0000
Subject: [PATCH 12/20] fix: compute paths from the parents and address
 requests by the form they are written in

---
 embertree/element.go           | 12 +++++++--
 embertree/qualified_element.go | 45 ++++++++++++++++++++++++++++------
 embertree/root.go              |  2 +-
 3 files changed, 48 insertions(+), 11 deletions(-)

diff --git a/embertree/element.go b/embertree/element.go
index bab11d1..31c91ea 100755
--- a/embertree/element.go
+++ b/embertree/element.go
@@ -268,9 +268,17 @@ func (element *Element) EncodeChildren(writer *asn1.ASNWriter) errors.Error {
 	return writer.EndSequence()
 }
 
+func dupForDirectory(e *Element) *Element {
+	path := e.GetPath()
+	if e.parent == nil && len(path) > 1 {
+		return NewQualifiedElement(qualifiedTag(e.tag), path, nil)
+	}
+	return NewElement(unqualifiedTag(e.tag), e.Number, nil)
+}
+
 func (element *Element) getDupBranch(cmd *Element) (*Element, errors.Error) {
 	e := element
-	dupElement := NewElement(e.tag, e.Number, nil)
+	dupElement := dupForDirectory(e)
 	if cmd != nil {
 		dupElement.AddChild(cmd)
 	}
@@ -282,7 +290,7 @@ func (element *Element) getDupBranch(cmd *Element) (*Element, errors.Error) {
 		if parent == nil {
 			break
 		}
-		dupParent := NewElement(parent.tag, parent.Number, nil)
+		dupParent := dupForDirectory(parent)
 		dupParent.AddChild(dupElement)
 		e = parent
 		dupElement = dupParent
diff --git a/embertree/qualified_element.go b/embertree/qualified_element.go
index 74b8379..3cd76b8 100755
--- a/embertree/qualified_element.go
+++ b/embertree/qualified_element.go
@@ -17,6 +17,36 @@ var qualifiedTags = map[uint8]bool{
 	QualifiedFunctionApplication:  true}
 
 
+// qualifiedTag returns the tag of the qualified form of an element.
+func qualifiedTag(tag uint8) uint8 {
+	switch tag {
+	case ParameterApplication:
+		return QualifiedParameterApplication
+	case NodeApplication:
+		return QualifiedNodeApplication
+	case MatrixApplication:
+		return QualifiedMatrixApplication
+	case FunctionApplication:
+		return QualifiedFunctionApplication
+	}
+	return tag
+}
+
+// unqualifiedTag returns the tag of the form with a number of an element.
+func unqualifiedTag(tag uint8) uint8 {
+	switch tag {
+	case QualifiedParameterApplication:
+		return ParameterApplication
+	case QualifiedNodeApplication:
+		return NodeApplication
+	case QualifiedMatrixApplication:
+		return MatrixApplication
+	case QualifiedFunctionApplication:
+		return FunctionApplication
+	}
+	return tag
+}
+
 func getNumberFromPath(path asn1.RelativeOID) (int, errors.Error) {
 	l := len(path)
 	if l <= 0 {
@@ -53,19 +83,18 @@ func IsQualifiedTag(tag uint8) bool {
 }
 
 func (element *Element) GetPath() asn1.RelativeOID {
-	if len(element.path) <= 0 {
-		var parentPath = asn1.RelativeOID{}
-		if element.parent != nil {
-			parentPath = element.parent.GetPath()
-		}
-		element.path = append(parentPath, int32(element.Number))
+	var path = asn1.RelativeOID{}
+	if element.parent != nil {
+		path = element.parent.GetPath()
+	} else if element.isQualified {
+		return append(path, element.path...)
 	}
-	return element.path
+	return append(path, int32(element.Number))
 }
 
 func (element *Element) GetQualifiedDirectoryMsg(listener Listener) *RootElement {
 	path := element.GetPath()
-	dupElement := NewQualifiedElement(element.tag, path, nil)
+	dupElement := NewQualifiedElement(qualifiedTag(element.tag), path, nil)
 	cmd := NewCommand(COMMAND_GETDIRECTORY)
 	dupElement.AddChild(cmd)
 	root := NewRoot()
diff --git a/embertree/root.go b/embertree/root.go
index b402a08..903ca57 100755
--- a/embertree/root.go
+++ b/embertree/root.go
@@ -48,7 +48,7 @@ func (root *RootElement) GetElementByPath(path asn1.RelativeOID) (*Element,*Elem
 		parent = element
 		element = element.Children[int(path[pos])]
 	}
-	if pos + 1 < len(path) {
+	if pos < len(path) {
 		return nil,nil
 	}
 	return parent,element
-- 
2.43.0


From aa276340d0a74d04fad084f4b0d47b9b3d6bd009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:18 +0000
Subject: [PATCH 13/20] fix: encode elements with all their descendants

---
 embertree/element.go | 36 +++++++++++++++---------------------
 1 file changed, 15 insertions(+), 21 deletions(-)

diff --git a/embertree/element.go b/embertree/element.go
index 31c91ea..740c1ac 100755
--- a/embertree/element.go
+++ b/embertree/element.go
@@ -155,7 +155,7 @@ func (element *Element) GetParent() (*Element, errors.Error) {
 	return element.parent, nil
 }
 
-func (element *Element) encode(writer *asn1.ASNWriter, asChild bool) errors.Error {
+func (element *Element) Encode(writer *asn1.ASNWriter) errors.Error {
 	err := writer.StartSequence(element.tag)
 	if err != nil {
 		return errors.Update(err)
@@ -206,21 +206,19 @@ func (element *Element) encode(writer *asn1.ASNWriter, asChild bool) errors.Erro
 		}
 	}
 
-	if !asChild {
-		//Encode Children
-		if len(element.Children) > 0 {
-			err = writer.StartSequence(asn1.Context(2))
-			if err != nil {
-				return errors.Update(err)
-			}
-			err = element.EncodeChildren(writer)
-			if err != nil {
-				return errors.Update(err)
-			}
-			err = writer.EndSequence()
-			if err != nil {
-				return errors.Update(err)
-			}
+	//Encode Children
+	if len(element.Children) > 0 {
+		err = writer.StartSequence(asn1.Context(2))
+		if err != nil {
+			return errors.Update(err)
+		}
+		err = element.EncodeChildren(writer)
+		if err != nil {
+			return errors.Update(err)
+		}
+		err = writer.EndSequence()
+		if err != nil {
+			return errors.Update(err)
 		}
 	}
 
@@ -242,10 +240,6 @@ func (element *Element) encode(writer *asn1.ASNWriter, asChild bool) errors.Erro
 	return writer.EndSequence()
 }
 
-func (element *Element) Encode(writer *asn1.ASNWriter) errors.Error {
-	return element.encode(writer, false)
-}
-
 func (element *Element) EncodeChildren(writer *asn1.ASNWriter) errors.Error {
 	err := writer.StartSequence(asn1.Application(4))
 	if err != nil {
@@ -256,7 +250,7 @@ func (element *Element) EncodeChildren(writer *asn1.ASNWriter) errors.Error {
 		if err != nil {
 			return errors.Update(err)
 		}
-		err := child.encode(writer, true)
+		err := child.Encode(writer)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From f26537e89d3ae48d81c314b453355490039aee95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:44 +0000
Subject: [PATCH 14/20] fix: merge partial updates into the element instead of
 dropping what they do not mention

---
 embertree/content_parameter.go |  6 ++++++
 embertree/element.go           | 20 +++++++++++++++++++-
 embertree/elementFactory.go    |  4 +++-
 embertree/function.go          | 18 ++++++++++++++++++
 embertree/matrix.go            | 25 ++++++++++++++++++++++++-
 embertree/matrix_element.go    | 12 +++++++++++-
 embertree/node.go              | 15 +++++++++++++++
 embertree/parameter.go         | 13 +++++++++++++
 embertree/qualified_element.go |  7 +++++++
 embertree/root.go              |  2 +-
 10 files changed, 117 insertions(+), 5 deletions(-)

diff --git a/embertree/content_parameter.go b/embertree/content_parameter.go
index 1b39fcf..d0d2f2a 100755
--- a/embertree/content_parameter.go
+++ b/embertree/content_parameter.go
@@ -160,6 +160,12 @@ func (cp *ContentParameter) Set(val *ContentParameter) errors.Error {
 	return nil
 }
 
+func (cp *ContentParameter) inherit(previous *ContentParameter) {
+	if !cp.isSet {
+		*cp = *previous
+	}
+}
+
 func (cp *ContentParameter) SetString(s string) {
 	cp.stringVal = s
 	cp.isSet = true
diff --git a/embertree/element.go b/embertree/element.go
index 740c1ac..7392064 100755
--- a/embertree/element.go
+++ b/embertree/element.go
@@ -14,6 +14,11 @@ type EmberContents interface {
 	ToString() string
 }
 
+// partialContents take the fields which they do not hold from earlier contents.
+type partialContents interface {
+	inherit(previous EmberContents)
+}
+
 type ContentCreator func() EmberContents
 
 type EmberObject interface {
@@ -117,13 +122,26 @@ func (element *Element) SetContents(contents interface{}) errors.Error {
 
 func (element *Element) Update(newElement *Element) errors.Error {
 	var err errors.Error
-	if element.Number != newElement.Number || element.tag != newElement.tag {
+	if element.Number != newElement.Number || unqualifiedTag(element.tag) != unqualifiedTag(newElement.tag) {
 		return errors.New("Attempt to update different element Number %d/%d Tag %d/%d", element.Number, newElement.Number, element.tag, newElement.tag)
 	}
 	content := newElement.GetContent()
 	if content != nil {
+		partial, ok := content.(partialContents)
+		if ok && element.contents != nil {
+			partial.inherit(element.contents)
+		}
 		element.contents = content.(EmberContents)
 	}
+	if newElement.targets != nil {
+		element.targets = newElement.targets
+	}
+	if newElement.sources != nil {
+		element.sources = newElement.sources
+	}
+	for _, connection := range newElement.connections {
+		element.updateConnection(connection)
+	}
 	for number, newChild := range newElement.Children {
 		child := element.Children[number]
 		if child == nil {
diff --git a/embertree/elementFactory.go b/embertree/elementFactory.go
index 4aa9928..75237b0 100755
--- a/embertree/elementFactory.go
+++ b/embertree/elementFactory.go
@@ -69,7 +69,7 @@ func decodeContents(element *Element, ctxt uint8, reader *asn1.ASNReader) (inter
 	case QualifiedMatrixApplication:
 		fallthrough
 	case MatrixApplication:
-		mcontents, _ := NewMatrixContent(OneToN, Linear)
+		mcontents := &MatrixContent{}
 		err = mcontents.Decode(contentReader)
 		contents = mcontents
 		break
@@ -162,8 +162,10 @@ func DecodeElement(reader *asn1.ASNReader) (*Element, errors.Error) {
 	}
 	if tag == MatrixApplication {
 		element, _ = NewMatrix(number, OneToN, Linear)
+		element.SetContents(&MatrixContent{})
 	} else if tag == QualifiedMatrixApplication {
 		element = NewQualifiedMatrix(path, OneToN, Linear)
+		element.SetContents(&MatrixContent{})
 	} else if IsQualifiedTag(tag) {
 		element = NewQualifiedElement(tag, path, contentCreator)
 	} else {
diff --git a/embertree/function.go b/embertree/function.go
index 8f3d2bb..06cd564 100755
--- a/embertree/function.go
+++ b/embertree/function.go
@@ -363,6 +363,24 @@ func (fc *FunctionContents) Encode(writer *asn1.ASNWriter) errors.Error {
 	return nil
 }
 
+func (fc *FunctionContents) inherit(previous EmberContents) {
+	old, ok := previous.(*FunctionContents)
+	if !ok {
+		return
+	}
+	fc.identifier.inherit(&old.identifier)
+	fc.description.inherit(&old.description)
+	if fc.arguments == nil {
+		fc.arguments = old.arguments
+	}
+	if fc.result == nil {
+		fc.result = old.result
+	}
+	if fc.templateReference == nil {
+		fc.templateReference = old.templateReference
+	}
+}
+
 func (fc *FunctionContents) ToString() string {
 	str:= ""
 	valStr,err := fc.GetIdentifier()
diff --git a/embertree/matrix.go b/embertree/matrix.go
index 2411465..e2453f2 100755
--- a/embertree/matrix.go
+++ b/embertree/matrix.go
@@ -87,6 +87,9 @@ func (contents *MatrixContent) GetDescription() (string, errors.Error) {
 }
 
 func (c *MatrixContent) GetType() (MatrixType, errors.Error) {
+	if !c.table[matrixTypeCtx].IsSet() {
+		return OneToN, nil
+	}
 	v, err := c.table[matrixTypeCtx].GetInt()
 	if err != nil {
 		return 0, errors.Update(err)
@@ -104,6 +107,9 @@ func (c *MatrixContent) SetMode(mode MatrixMode) errors.Error {
 }
 
 func (c *MatrixContent) GetMode() (MatrixMode, errors.Error) {
+	if !c.table[matrixModeCtx].IsSet() {
+		return Linear, nil
+	}
 	v, err := c.table[matrixModeCtx].GetInt()
 	if err != nil {
 		return 0, errors.Update(err)
@@ -262,7 +268,7 @@ func (c *MatrixContent) EncodeLabels(writer *asn1.ASNWriter) errors.Error {
 }
 
 func (c *MatrixContent) DecodeLabels(reader *asn1.ASNReader) errors.Error {
-	var labels []*Label
+	labels := []*Label{}
 	_, labelReader, err := reader.ReadSequenceStart(labelContext)
 	if err != nil {
 		return errors.Update(err)
@@ -413,6 +419,23 @@ func (c *MatrixContent) Decode(reader *asn1.ASNReader) errors.Error {
 }
 
 
+func (c *MatrixContent) inherit(previous EmberContents) {
+	old, ok := previous.(*MatrixContent)
+	if !ok {
+		return
+	}
+	for i := range c.table {
+		c.table[i].inherit(&old.table[i])
+	}
+	if c.labels == nil {
+		c.labels = old.labels
+	}
+	c.schemaIdentifier.inherit(&old.schemaIdentifier)
+	if c.templateReference == nil {
+		c.templateReference = old.templateReference
+	}
+}
+
 func (c *MatrixContent) ToString() string {
 	str:= ""
 	valStr,err := c.GetIdentifier()
diff --git a/embertree/matrix_element.go b/embertree/matrix_element.go
index b2c50a1..8a83104 100755
--- a/embertree/matrix_element.go
+++ b/embertree/matrix_element.go
@@ -49,7 +49,7 @@ func (element *Element) EncodeSources(writer *asn1.ASNWriter) errors.Error {
 }
 
 func DeodeSignals(reader *asn1.ASNReader, ctxt uint8) ([]Signal, errors.Error) {
-	var signals []Signal
+	signals := []Signal{}
 	_, signalsReader, err := reader.ReadSequenceStart(ctxt)
 	if err != nil {
 		return nil, errors.Update(err)
@@ -186,6 +186,16 @@ func (element *Element) DecodeConnections(reader *asn1.ASNReader) errors.Error {
 	return connectionReader.ReadSequenceEnd()
 }
 
+func (element *Element) updateConnection(connection *Connection) {
+	for i, current := range element.connections {
+		if current.Target == connection.Target {
+			element.connections[i] = connection
+			return
+		}
+	}
+	element.connections = append(element.connections, connection)
+}
+
 func (element *Element) SetTargets(targets []Signal) errors.Error {
 	if !element.isMatrix {
 		return errors.New("Element not a matrix. Can't SetTargets.")
diff --git a/embertree/node.go b/embertree/node.go
index d731b6b..6be948e 100755
--- a/embertree/node.go
+++ b/embertree/node.go
@@ -214,6 +214,21 @@ func (nc *NodeContents) Decode(reader *asn1.ASNReader) errors.Error {
 	return nil
 }
 
+func (nc *NodeContents) inherit(previous EmberContents) {
+	old, ok := previous.(*NodeContents)
+	if !ok {
+		return
+	}
+	nc.identifier.inherit(&old.identifier)
+	nc.description.inherit(&old.description)
+	nc.isRoot.inherit(&old.isRoot)
+	nc.isOnline.inherit(&old.isOnline)
+	nc.schemaIdentifiers.inherit(&old.schemaIdentifiers)
+	if nc.templateReference == nil {
+		nc.templateReference = old.templateReference
+	}
+}
+
 func (contents *NodeContents) ToString() string {
 	identifier := ""
 	description := ""
diff --git a/embertree/parameter.go b/embertree/parameter.go
index f74dc2b..6c07be5 100755
--- a/embertree/parameter.go
+++ b/embertree/parameter.go
@@ -232,6 +232,19 @@ func (pc *ParameterContents) Decode(reader *asn1.ASNReader) errors.Error {
 	return nil
 }
 
+func (pc *ParameterContents) inherit(previous EmberContents) {
+	old, ok := previous.(*ParameterContents)
+	if !ok {
+		return
+	}
+	for i := range pc.table {
+		pc.table[i].inherit(&old.table[i])
+	}
+	if pc.templateReference == nil {
+		pc.templateReference = old.templateReference
+	}
+}
+
 func (contents *ParameterContents) ToString() string {
 	str := ""
 	valStr,err := contents.GetIdentifier()
diff --git a/embertree/qualified_element.go b/embertree/qualified_element.go
index 3cd76b8..00f3fcc 100755
--- a/embertree/qualified_element.go
+++ b/embertree/qualified_element.go
@@ -74,6 +74,13 @@ func NewQualifiedParameter(path asn1.RelativeOID) *Element {
 
 func NewQualifiedMatrix(path asn1.RelativeOID, mtype MatrixType, mode MatrixMode) *Element {
 	q := NewQualifiedElement(QualifiedMatrixApplication, path, NewDefaultMatrixContents)
+	if q == nil {
+		return nil
+	}
+	content, err := NewMatrixContent(mtype, mode)
+	if err == nil {
+		q.SetContents(content)
+	}
 	q.isMatrix = true
 	return q
 }
diff --git a/embertree/root.go b/embertree/root.go
index 903ca57..4f2649b 100755
--- a/embertree/root.go
+++ b/embertree/root.go
@@ -67,7 +67,7 @@ func (root *RootElement) updateQualifiedElement(element *Element) (*Element, err
 	} else {
 		err = currentElement.Update(element)
 	}
-	return nil,err
+	return parent,err
 }
 
 func (root *RootElement) updateElement(element *Element) errors.Error {
-- 
2.43.0


From 4154002cf8198a5a6e94c2fd0f4333d541bf76f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:00 +0000
Subject: [PATCH 15/20] fix: let listeners be added and removed from any
 goroutine and inside callbacks

---
 embertree/element.go | 28 +++++++++++++++++++++++++---
 embertree/root.go    | 20 ++++++++++++--------
 2 files changed, 37 insertions(+), 11 deletions(-)

diff --git a/embertree/element.go b/embertree/element.go
index 7392064..ce7c8ef 100755
--- a/embertree/element.go
+++ b/embertree/element.go
@@ -2,6 +2,7 @@ package embertree
 
 import (
 	"fmt"
+	"sync"
 
 	. "github.com/dufourgilles/emberlib/logger"
 	"github.com/dufourgilles/emberlib/asn1"
@@ -34,6 +35,24 @@ type Listener interface {
 	Receive(interface{}, errors.Error)
 }
 
+// callListeners calls the listeners registered now, but none that is removed meanwhile.
+func callListeners(lock *sync.Mutex, listeners map[Listener]Listener, node interface{}, err errors.Error) {
+	lock.Lock()
+	current := make([]Listener, 0, len(listeners))
+	for _, listener := range listeners {
+		current = append(current, listener)
+	}
+	lock.Unlock()
+	for _, listener := range current {
+		lock.Lock()
+		registered := listeners[listener] != nil
+		lock.Unlock()
+		if registered {
+			listener.Receive(node, err)
+		}
+	}
+}
+
 type ListeningNode interface {
 	AddListener(listener Listener)
 	RemoveListener(listener Listener)
@@ -48,6 +67,7 @@ type Element struct {
 	contents        EmberContents
 	contentsCreator ContentCreator
 	listeners       map[Listener]Listener
+	listenersLock   sync.Mutex
 	logger Logger
 	// for qualified element
 	isQualified bool
@@ -88,10 +108,14 @@ func (element *Element) CreateContent() interface{} {
 }
 
 func (element *Element) AddListener(listener Listener) {
+	element.listenersLock.Lock()
+	defer element.listenersLock.Unlock()
 	element.listeners[listener] = listener
 }
 
 func (element *Element) RemoveListener(listener Listener) {
+	element.listenersLock.Lock()
+	defer element.listenersLock.Unlock()
 	delete(element.listeners, listener)
 }
 
@@ -110,9 +134,7 @@ func (element *Element) AddChild(child *Element) errors.Error {
 }
 
 func (element *Element) updateListeners(err errors.Error) {
-	for _, listener := range element.listeners {
-		listener.Receive(element, err)
-	}
+	callListeners(&element.listenersLock, element.listeners, element, err)
 }
 func (element *Element) SetContents(contents interface{}) errors.Error {
 	element.contents = contents.(EmberContents)
diff --git a/embertree/root.go b/embertree/root.go
index 4f2649b..6f80bba 100755
--- a/embertree/root.go
+++ b/embertree/root.go
@@ -2,6 +2,7 @@ package embertree
 
 import (
 	"fmt"
+	"sync"
 
 	"github.com/dufourgilles/emberlib/errors"
 	. "github.com/dufourgilles/emberlib/logger"
@@ -12,6 +13,7 @@ type RootElement struct {
 	RootElementCollection map[int]*Element
 	logger Logger
 	listeners             map[Listener]Listener
+	listenersLock         sync.Mutex
 }
 
 func NewTree() *RootElement {
@@ -137,15 +139,11 @@ func (root *RootElement) Decode(reader *asn1.ASNReader) errors.Error {
 		}
 	}
 	err = reader.ReadSequenceEnd()
-	for _, listener := range(root.listeners) {
-		root.logger.Debug("Updating root listener.\n")
-		listener.Receive(root, nil)
-	}
+	root.logger.Debug("Updating root listeners.\n")
+	callListeners(&root.listenersLock, root.listeners, root, nil)
 	for path,mElement := range(modifiedElement) {
-		for _,listener := range(mElement.listeners) {
-			root.logger.Debug("Updating Element %s listener.\n", path)
-			listener.Receive(mElement, nil)
-		}
+		root.logger.Debug("Updating Element %s listeners.\n", path)
+		mElement.updateListeners(nil)
 	}
 	return errors.Update(err)
 }
@@ -184,15 +182,21 @@ func (r *RootElement) GetDirectoryMsg(listener Listener) (*RootElement, errors.E
 
 func (r *RootElement) AddListener(listener Listener) {
 	r.logger.Debug("Adding Root Listener.\n")
+	r.listenersLock.Lock()
+	defer r.listenersLock.Unlock()
 	r.listeners[listener] = listener
 }
 
 func (r *RootElement) RemoveListener(listener Listener) {
 	r.logger.Debug("Removing Root Listener.\n")
+	r.listenersLock.Lock()
+	defer r.listenersLock.Unlock()
 	delete(r.listeners, listener)
 }
 
 func (r *RootElement) HasListner(listener Listener) bool {
+	r.listenersLock.Lock()
+	defer r.listenersLock.Unlock()
 	return r.listeners[listener] != nil
 }
 
-- 
2.43.0


From 349e4b4ccf81b6c6d9f6eb949d4cbb8c531ff98e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:14 +0000
Subject: [PATCH 16/20] fix: serve each connection by one loop and close it
 once, keep requests, keep-alives and timeouts apart

---
 embertree/root.go |   4 +-
 socket/client.go  | 326 ++++++++++++++++++++++++++++------------------
 2 files changed, 205 insertions(+), 125 deletions(-)

diff --git a/embertree/root.go b/embertree/root.go
index 6f80bba..b96d1be 100755
--- a/embertree/root.go
+++ b/embertree/root.go
@@ -176,7 +176,9 @@ func (r *RootElement) GetDirectoryMsg(listener Listener) (*RootElement, errors.E
 	root := NewRoot()
 	cmd := NewCommand(COMMAND_GETDIRECTORY)
 	root.AddElement(cmd)
-	r.AddListener(listener)
+	if listener != nil {
+		r.AddListener(listener)
+	}
 	return root, nil
 }
 
diff --git a/socket/client.go b/socket/client.go
index 6529d4d..4a7b5ec 100755
--- a/socket/client.go
+++ b/socket/client.go
@@ -4,6 +4,7 @@ import (
 	"container/list"
 	"fmt"
 	"net"
+	"sync"
 	"time"
 	. "github.com/dufourgilles/emberlib/logger"
 	"github.com/dufourgilles/emberlib/asn1"
@@ -13,17 +14,12 @@ import (
 
 const maxQueueSize = 256
 const maxBufferSize = 65536
+const maxMessagesToSend = 3
 
 type packetQueue struct {
 	queue *list.List
 }
 
-type channelMessage interface {
-	getError() error
-	getData() []byte
-}
-
-
 func newPacketQueue() *packetQueue {
 	var q packetQueue
 	q.queue = list.New()
@@ -38,12 +34,16 @@ func (p *packetQueue) isEmpty() bool {
 	return p.queue.Len() == 0
 }
 
-func (p *packetQueue) add(msg *embertree.RootElement) errors.Error{
-	if p.size() > maxQueueSize {
-		return errors.New("Queue size limit. Drop message.")
-	}
+func (p *packetQueue) isFull() bool {
+	return p.size() > maxQueueSize
+}
+
+func (p *packetQueue) add(msg *embertree.RootElement) {
 	p.queue.PushBack(msg)
-	return nil
+}
+
+func (p *packetQueue) clear() {
+	p.queue.Init()
 }
 
 func (p *packetQueue) getNext() (*embertree.RootElement, errors.Error) {
@@ -58,33 +58,28 @@ func (p *packetQueue) getNext() (*embertree.RootElement, errors.Error) {
 	return nil, nil
 }
 
+// _TimerCallbacks times one request out unless its node is updated before.
 type _TimerCallbacks struct {
 	timer *time.Timer
-	listener embertree.Listener
+	node embertree.ListeningNode
 	client *S101Client
+	done bool
 }
 
 type S101Client struct {
+	// lock protects the connection, the queue and the state of the timers.
+	lock sync.Mutex
+	// dispatch is held while a message is handled or a timeout is reported,
+	// so that callbacks never run concurrently. No call from outside takes it.
+	dispatch sync.Mutex
 	stats S101SocketStats
 	conn  net.Conn
+	connecting bool
 	raddr string
 	outQ  *packetQueue
-	decoder *S101Decoder
 	msTimeout int
 	logger Logger
-	timerCallbacks map[embertree.ListeningNode]*_TimerCallbacks
-	getTreeCallback embertree.Listener
 	tree *embertree.RootElement
-	incomingDataChan chan channelMessage
-	outgoingDataChan chan channelMessage
-	freeTimerCallback embertree.Listener
-}
-
-func (s *S101Client)keepAliveReqHandler(kal []byte) errors.Error {
-	// This should go at the head of the queue
-	s.logger.Debug("KAL Request Received.\n")
-	s.outQ.queue.PushFront(GetKeepAliveResponse())
-	return nil
 }
 
 func (s *S101Client)keepAliveResponseHandler(kal []byte) errors.Error {
@@ -93,7 +88,12 @@ func (s *S101Client)keepAliveResponseHandler(kal []byte) errors.Error {
 	return nil
 }
 
-func (s *S101Client)emberPacketHandler(packet []byte) errors.Error {
+func (s *S101Client)emberPacketHandler(conn net.Conn, packet []byte) errors.Error {
+	s.dispatch.Lock()
+	defer s.dispatch.Unlock()
+	if !s.isCurrent(conn) {
+		return nil
+	}
 	// This should be a valid EmberRoot.
 	s.logger.Debug("Ember Frame - start decoding.\n")
 	s.logger.Debugln(packet)
@@ -103,23 +103,23 @@ func (s *S101Client)emberPacketHandler(packet []byte) errors.Error {
 }
 
 func (s *S101Client)errorHandler(err errors.Error) {
-	s.logger.Error(err)
+	if err != nil {
+		s.logger.Error(err)
+	}
 }
 
 func NewS101Client() *S101Client {
 	client := S101Client{msTimeout: 0}
-	client.decoder = NewS101Decoder(client.keepAliveReqHandler,client.keepAliveResponseHandler,client.emberPacketHandler, client.errorHandler )
 	client.stats.Reset()
 	client.logger = NewNullLogger()
-	client.timerCallbacks = make(map[embertree.ListeningNode]*_TimerCallbacks)
 	client.outQ = newPacketQueue()
 	client.tree = embertree.NewTree()
-	client.incomingDataChan = make(chan channelMessage, 100)
-	client.outgoingDataChan = make(chan channelMessage, 1)	
 	return &client
 }
 
 func (s *S101Client)SetTimeout(msTimeout int) {
+	s.lock.Lock()
+	defer s.lock.Unlock()
 	if msTimeout >= 0 {
 		s.msTimeout = msTimeout
 	}
@@ -132,122 +132,175 @@ func (s *S101Client)SetLogger(logger Logger) {
 }
 
 func (s *S101Client)Connect(address string, port uint16) errors.Error {
-	var err error
-	if s.IsConnected() {
+	s.lock.Lock()
+	if s.conn != nil || s.connecting {
+		s.lock.Unlock()
 		return errors.New("Client already connected to %s:%d", address, port)
 	}
+	s.connecting = true
 	s.raddr = fmt.Sprintf("%s:%d", address, port)
-	s.conn, err = net.Dial("tcp", s.raddr)
+	raddr := s.raddr
+	s.lock.Unlock()
+
+	conn, err := net.Dial("tcp", raddr)
+
+	s.lock.Lock()
+	defer s.lock.Unlock()
+	s.connecting = false
 	if err != nil {
 		return errors.NewError(err)
 	}
-	go s.iomanager()
+	s.conn = conn
+	go s.iomanager(conn)
 	return nil
 }
 
 func (s *S101Client)Disconnect() errors.Error {
-	if !s.IsConnected() {
+	s.lock.Lock()
+	conn := s.conn
+	s.conn = nil
+	s.outQ.clear()
+	s.lock.Unlock()
+	if conn == nil {
 		return errors.New("Client not connected.")
 	}
-	err := s.conn.Close()
-	s.conn = nil
-	return errors.NewError(err)
+	return errors.NewError(conn.Close())
+}
+
+// connectionLost closes a connection which failed.
+func (s *S101Client)connectionLost(conn net.Conn, err error) {
+	s.lock.Lock()
+	if s.conn == conn {
+		s.logger.Debug("Connection lost: %s.\n", err)
+		s.conn = nil
+		s.outQ.clear()
+	}
+	s.lock.Unlock()
+	conn.Close()
 }
 
 func (s *S101Client)IsConnected() bool {
+	s.lock.Lock()
+	defer s.lock.Unlock()
 	return s.conn != nil
 }
 
-func (s *S101Client)sendBER(data []byte) errors.Error {
-	if !s.IsConnected() {
-		return errors.New("Not connected")
+func (s *S101Client)isCurrent(conn net.Conn) bool {
+	s.lock.Lock()
+	defer s.lock.Unlock()
+	return s.conn == conn
+}
+
+func (s *S101Client)send(conn net.Conn, message []byte) error {
+	res, err := conn.Write(message)
+	s.lock.Lock()
+	defer s.lock.Unlock()
+	if err != nil {
+		s.stats.TxErrors++
+		return err
 	}
+	s.stats.TxPackets++
+	s.stats.TxBytes += uint64(res)
+	return nil
+}
+
+func (s *S101Client)sendBER(conn net.Conn, data []byte) error {
 	frames := EncodeMessage(data)
 	for i := 0; i < frames.Size(); i++ {
 		message, err := frames.GetBytesAt(i)
 		if err != nil {
-			s.stats.TxErrors++
-			return errors.Update(err)
+			return err.Message
 		}
-		var res int
-		res, e := s.conn.Write(message)
+		e := s.send(conn, message)
 		if e != nil {
-			s.stats.TxErrors++
-			return errors.NewError(e)
+			return e
 		}
-		s.stats.TxPackets++
-		s.stats.TxBytes += uint64(res)
 	}
 	return nil
 }
 
-func (s *S101Client)sendBERNode(node *embertree.RootElement) errors.Error {
-	if node == nil {
-		return errors.New("null node")
-	}
+// sendBERNode returns the error of the connection if it fails.
+func (s *S101Client)sendBERNode(conn net.Conn, node *embertree.RootElement) error {
 	writer := asn1.ASNWriter{}
 	err := node.Encode(&writer)
 	if err != nil {
-		return err
+		s.errorHandler(err)
+		return nil
 	}
 	data := make([]byte, writer.Len())
 	writer.Read(data)
-	return s.sendBER(data)
+	return s.sendBER(conn, data)
 }
 
+// finish tells whether the request is still open and closes it.
+func (t *_TimerCallbacks)finish() bool {
+	t.client.lock.Lock()
+	done := t.done
+	t.done = true
+	t.timer.Stop()
+	t.client.lock.Unlock()
+	// Remove myself from node
+	t.node.RemoveListener(t)
+	return !done
+}
 
 func (t *_TimerCallbacks)Receive(node interface{}, err errors.Error) {
-	treeNode := node.(embertree.ListeningNode)
-	timerCB := t.client.timerCallbacks[treeNode]
-	if timerCB == nil {
-		return
-	}
 	t.client.logger.Debug("Timer Stopped.\n")
-	timerCB.timer.Stop()
-	delete(t.client.timerCallbacks, treeNode)
-	// Remove myself from node
-	treeNode.RemoveListener(t)
+	t.finish()
 }
 
-func (s *S101Client)runTimer(node *embertree.Element, callback embertree.Listener, timeoutError errors.Error) {
-	var treeNode embertree.ListeningNode
-	if node == nil {
-		treeNode = s.tree
-	} else {
-		treeNode = node
-	}
+// runTimer has to be called with the lock.
+func (s *S101Client)runTimer(node embertree.ListeningNode, callback embertree.Listener, timeoutError errors.Error) {
 	s.logger.Debug("Timer running.\n")
-	freeTimerCallback := &_TimerCallbacks{client: s, timer: time.NewTimer(time.Duration(int64(s.msTimeout)) * time.Millisecond)}
-	treeNode.AddListener(freeTimerCallback)
-	s.timerCallbacks[treeNode] = freeTimerCallback
-	<-s.timerCallbacks[treeNode].timer.C
-	s.logger.Debug("Timer Kicked.\n")
-	callback.Receive(nil, timeoutError)
-	s.logger.Debug("Cleaning Timer callback.\n")
-	delete(s.timerCallbacks, treeNode)
-	treeNode.RemoveListener(s.freeTimerCallback)
+	timerCB := &_TimerCallbacks{client: s, node: node}
+	node.AddListener(timerCB)
+	timerCB.timer = time.AfterFunc(time.Duration(int64(s.msTimeout)) * time.Millisecond, func() {
+		s.dispatch.Lock()
+		defer s.dispatch.Unlock()
+		if timerCB.finish() {
+			s.logger.Debug("Timer Kicked.\n")
+			callback.Receive(nil, timeoutError)
+		}
+	})
 }
 
 func (s *S101Client)GetDirectory(node *embertree.Element, callback embertree.Listener) errors.Error {
+	s.lock.Lock()
+	defer s.lock.Unlock()
+	if s.outQ.isFull() {
+		return errors.New("Queue size limit. Drop message.")
+	}
+	return s.getDirectory(node, callback)
+}
+
+// getDirectory has to be called with the lock.
+func (s *S101Client)getDirectory(node *embertree.Element, callback embertree.Listener) errors.Error {
 	var msg *embertree.RootElement
+	var treeNode embertree.ListeningNode
 	var err errors.Error
 	timeoutError := errors.New("GetDirectory timed out.")	
 	if node == nil {
 		s.logger.Debug("Send GetDirectory for root.\n")
-		msg,err = s.tree.GetDirectoryMsg(callback)		
+		treeNode = s.tree
+		msg,err = s.tree.GetDirectoryMsg(callback)
 	} else {
 		s.logger.Debug("Send GetDirectory for %s.\n", embertree.Path2String(node.GetPath()))
+		treeNode = node
 		msg = node.GetQualifiedDirectoryMsg(callback)
 	}
 	if err != nil {
 		s.logger.Debug("GetDirectory.\n",err)
 		return errors.Update(err)
 	}
-	if s.msTimeout > 0 {
-		go s.runTimer(node, callback, timeoutError)
+	if s.msTimeout > 0 && callback != nil {
+		s.runTimer(treeNode, callback, timeoutError)
 	}
-	
-	return s.outQ.add(msg)
+	s.outQ.add(msg)
+	if s.conn != nil {
+		// have the iomanager send it now
+		s.conn.SetReadDeadline(time.Now())
+	}
+	return nil
 }
 
 type _ElementListeners struct {
@@ -311,51 +364,76 @@ func (s *S101Client)GetTree(listener embertree.Listener) errors.Error {
 	return s.GetDirectory(nil, rootCallback)
 }
 
-func (s *S101Client)processBuffer(l int, buffer []byte) {
-	//Decode the message
-	s.decoder.DecodeBuffer(l, buffer)
-}
-
-func (s *S101Client)iomanager() {
+func (s *S101Client)iomanager(conn net.Conn) {
 	s.logger.Debug("iomanager started.\n")
+	keepAlives := 0
+	decoder := NewS101Decoder(
+		func(kal []byte) errors.Error {
+			s.logger.Debug("KAL Request Received.\n")
+			keepAlives++
+			return nil
+		},
+		s.keepAliveResponseHandler,
+		func(packet []byte) errors.Error {
+			return s.emberPacketHandler(conn, packet)
+		},
+		s.errorHandler)
 	buffer := make([]byte, maxBufferSize)
-	for s.IsConnected() {
-		// Send messages present in our Q - but no more than max
-		messagesToSend := s.outQ.queue.Len()
-		if messagesToSend > 3 {
-			messagesToSend = 3;
-		}
-		if messagesToSend > 1 {
-			s.logger.Debug("iomanager to send %d messages.\n", messagesToSend)
-		}
-		count := 0
-		for ; count < messagesToSend; count++ {
-			root,_ := s.outQ.getNext()
-			if root != nil {
-				err := s.sendBERNode(root)
-				if err != nil {
-					s.logger.Error(err)
-				}
-			} else {
-				s.logger.Warn("iomanager invalid nil root to send.\n")
+	for s.isCurrent(conn) {
+		// Keep alive responses go before the queue.
+		for ; keepAlives > 0; keepAlives-- {
+			err := s.send(conn, GetKeepAliveResponse().Bytes())
+			if err != nil {
+				s.connectionLost(conn, err)
+				return
 			}
 		}
-
-		// collect inbound messages during next 100ms
-		deadline := time.Now().Add(100)
-		s.conn.SetReadDeadline(deadline)
-		for {
-			len,_ := s.conn.Read(buffer)
-			if len > 0 {
-				s.logger.Debug("iomanager received a message of %d bytes.\n", len)
-				s.stats.RxBytes += uint64(len)
-				s.stats.RxPackets++
-				//process the buffer
-				s.processBuffer(len, buffer)
-			} else {
+		// Send messages present in our Q - but no more than max
+		for count := 0; count < maxMessagesToSend; count++ {
+			root := s.nextMessage(conn)
+			if root == nil {
 				break
 			}
+			err := s.sendBERNode(conn, root)
+			if err != nil {
+				s.connectionLost(conn, err)
+				return
+			}
+		}
+
+		// collect inbound messages during next 100ms, or those that are there if more is to be sent
+		s.lock.Lock()
+		if s.outQ.isEmpty() {
+			conn.SetReadDeadline(time.Now().Add(100 * time.Millisecond))
+		} else {
+			conn.SetReadDeadline(time.Now().Add(time.Millisecond))
+		}
+		s.lock.Unlock()
+		len,err := conn.Read(buffer)
+		if len > 0 {
+			s.logger.Debug("iomanager received a message of %d bytes.\n", len)
+			s.lock.Lock()
+			s.stats.RxBytes += uint64(len)
+			s.stats.RxPackets++
+			s.lock.Unlock()
+			//process the buffer
+			decoder.DecodeBuffer(len, buffer)
+		}
+		if netErr, ok := err.(net.Error); err != nil && !(ok && netErr.Timeout()) {
+			s.connectionLost(conn, err)
+			return
 		}
 	}
 	s.logger.Debug("iomanager stopped.\n")
 }
+
+// nextMessage takes the next message from the queue if there is one for the connection.
+func (s *S101Client)nextMessage(conn net.Conn) *embertree.RootElement {
+	s.lock.Lock()
+	defer s.lock.Unlock()
+	if s.conn != conn {
+		return nil
+	}
+	root,_ := s.outQ.getNext()
+	return root
+}
-- 
2.43.0


From b4f714a1620106dba563ef00c75d9d5c10d6fe03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:17 +0000
Subject: [PATCH 17/20] fix: retrieve the whole tree, complete once and with
 the first error

---
 socket/client.go | 108 +++++++++++++++++++++++++++++++----------------
 1 file changed, 71 insertions(+), 37 deletions(-)

diff --git a/socket/client.go b/socket/client.go
index 4a7b5ec..10ba5b4 100755
--- a/socket/client.go
+++ b/socket/client.go
@@ -15,6 +15,8 @@ import (
 const maxQueueSize = 256
 const maxBufferSize = 65536
 const maxMessagesToSend = 3
+// requests of one tree retrieval at a time
+const maxPendingGetDirectory = 32
 
 type packetQueue struct {
 	queue *list.List
@@ -303,65 +305,97 @@ func (s *S101Client)getDirectory(node *embertree.Element, callback embertree.Lis
 	return nil
 }
 
+// _ElementListeners follows one element, or the root if there is no element,
+// while the tree is retrieved.
 type _ElementListeners struct {
-	client *S101Client
+	element *embertree.Element
 	rootListener *_RoottListeners
+	answered bool
 }
 
-// getElementCallback
 func (l *_ElementListeners)Receive(node interface{}, err errors.Error) {
-	l.client.logger.Debug("Element Callback.\n")	
-	if err == nil && node != nil {
-		element := node.(*embertree.Element)
-		element.RemoveListener(l)
-		for _,child := range(element.Children) {
-			l.rootListener.IncPendingGetDir()
-			elementCallback := &_ElementListeners{client: l.client, rootListener: l.rootListener}
-			go l.client.GetDirectory(child, elementCallback)
-		}
-	}
-	l.rootListener.DecPendingGetDir(node,err)
+	l.rootListener.answer(l, err)
 }
 
+// _RoottListeners retrieves the tree.
 type _RoottListeners struct {
 	client *S101Client
-	pendingGetDirectory uint
 	listener embertree.Listener
+	lock sync.Mutex
+	followed map[*embertree.Element]*_ElementListeners
+	waiting []*_ElementListeners
+	pendingGetDirectory uint
+	err errors.Error
+	done bool
 }
 
-func (r *_RoottListeners)IncPendingGetDir() {
-	r.pendingGetDirectory++
+// answer has the children of the element requested, the known ones and,
+// as the answer may come in several messages, those which come with later ones.
+func (r *_RoottListeners)answer(l *_ElementListeners, err errors.Error) {
+	r.lock.Lock()
+	if r.done {
+		r.lock.Unlock()
+		return
+	}
+	if !l.answered {
+		r.decPendingGetDir(l, err)
+	}
+	children := r.client.tree.RootElementCollection
+	if l.element != nil {
+		children = l.element.Children
+	}
+	for _,child := range(children) {
+		if r.followed[child] == nil {
+			r.followed[child] = &_ElementListeners{element: child, rootListener: r}
+			r.waiting = append(r.waiting, r.followed[child])
+		}
+	}
+	for len(r.waiting) > 0 && r.pendingGetDirectory < maxPendingGetDirectory {
+		next := r.waiting[0]
+		r.waiting = r.waiting[1:]
+		r.pendingGetDirectory++
+		err = r.client.getDirectoryConnected(next.element, next)
+		if err != nil {
+			r.decPendingGetDir(next, err)
+		}
+	}
+	r.done = r.pendingGetDirectory == 0
+	done := r.done
+	r.lock.Unlock()
+	if done {
+		r.client.tree.RemoveListener(r.followed[nil])
+		for element,follower := range(r.followed) {
+			if element != nil {
+				element.RemoveListener(follower)
+			}
+		}
+		r.listener.Receive(r.client.tree, r.err)
+	}
 }
 
-func (r *_RoottListeners)DecPendingGetDir(node interface{}, err errors.Error) {
+func (r *_RoottListeners)decPendingGetDir(l *_ElementListeners, err errors.Error) {
+	l.answered = true
 	r.pendingGetDirectory--
-	if r.pendingGetDirectory == 0 {
-		r.listener.Receive(r.client.tree, err)
+	if r.err == nil {
+		r.err = err
 	}
 }
 
-func (r *_RoottListeners)Receive(node interface{}, err errors.Error) {	
-	if err == nil && node != nil {
-		root := node.(*embertree.RootElement)
-		r.client.logger.Debug("Root CallBack.\n")
-		r.client.logger.Debug(root.ToString())
-		root.RemoveListener(r)
-		for _,element := range(root.RootElementCollection) {
-			r.IncPendingGetDir()
-			elementCallback := &_ElementListeners{client: r.client, rootListener: r}
-			r.client.logger.Debug("Root Callback GetDir for %s.\n", embertree.Path2String(element.GetPath()))
-			go r.client.GetDirectory(element, elementCallback)
-		}
-	}
-	if r.pendingGetDirectory == 0 {
-		r.listener.Receive(r.client.tree, err)
-		return
+// getDirectoryConnected is for the retrieval of the tree, which limits its requests itself.
+func (s *S101Client)getDirectoryConnected(node *embertree.Element, callback embertree.Listener) errors.Error {
+	s.lock.Lock()
+	defer s.lock.Unlock()
+	if s.conn == nil {
+		return errors.New("Not connected")
 	}
+	return s.getDirectory(node, callback)
 }
 
 func (s *S101Client)GetTree(listener embertree.Listener) errors.Error {
-	rootCallback := &_RoottListeners{client: s, listener: listener, pendingGetDirectory: 0}
-	return s.GetDirectory(nil, rootCallback)
+	r := &_RoottListeners{client: s, listener: listener, pendingGetDirectory: 1}
+	root := &_ElementListeners{rootListener: r}
+	r.followed = map[*embertree.Element]*_ElementListeners{nil: root}
+	return s.GetDirectory(nil, root)
 }
 
 func (s *S101Client)iomanager(conn net.Conn) {
-- 
2.43.0


From 2344c7d2680fe0b15dc1c49c401f35512ecfff61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:45 +0000
Subject: [PATCH 18/20] fix: encode children with their numbers, qualified
 elements are only allowed at the top

---
 embertree/element.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/embertree/element.go b/embertree/element.go
index ce7c8ef..87258b4 100755
--- a/embertree/element.go
+++ b/embertree/element.go
@@ -196,12 +196,22 @@ func (element *Element) GetParent() (*Element, errors.Error) {
 }
 
 func (element *Element) Encode(writer *asn1.ASNWriter) errors.Error {
-	err := writer.StartSequence(element.tag)
+	return element.encode(writer, element.isQualified)
+}
+
+// encode writes the element with its path if qualified is set, otherwise with its number.
+// Only the latter is allowed among the children of another element.
+func (element *Element) encode(writer *asn1.ASNWriter, qualified bool) errors.Error {
+	tag := element.tag
+	if !qualified {
+		tag = unqualifiedTag(tag)
+	}
+	err := writer.StartSequence(tag)
 	if err != nil {
 		return errors.Update(err)
 	}
 
-	if element.isQualified {
+	if qualified {
 		//Encode Path
 		err = writer.StartSequence(asn1.Context(0))
 		if err != nil {
@@ -290,7 +300,7 @@ func (element *Element) EncodeChildren(writer *asn1.ASNWriter) errors.Error {
 		if err != nil {
 			return errors.Update(err)
 		}
-		err := child.Encode(writer)
+		err := child.encode(writer, false)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 94f646e76cd39ab3ae0751dd327f38ec24d81026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:53 +0000
Subject: [PATCH 19/20] fix: rendering a path takes time in proportion to its
 length

---
 embertree/element.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/embertree/element.go b/embertree/element.go
index 87258b4..ca7f1c0 100755
--- a/embertree/element.go
+++ b/embertree/element.go
@@ -2,6 +2,7 @@ package embertree
 
 import (
 	"fmt"
+	"strconv"
 	"sync"
 
 	. "github.com/dufourgilles/emberlib/logger"
@@ -356,15 +357,14 @@ func (element *Element) GetDirectoryMsg(listener Listener) (*RootElement, errors
 }
 
 func Path2String(path asn1.RelativeOID) string {
-	str := ""
+	var str []byte
 	for index,number := range(path) {
-		if index == 0 {
-			str = fmt.Sprintf("%d", number)
-		} else {
-			str = fmt.Sprintf("%s.%d", str, number)
+		if index > 0 {
+			str = append(str, '.')
 		}
+		str = strconv.AppendInt(str, int64(number), 10)
 	}
-	return str
+	return string(str)
 }
 
 func (element *Element)ToString() string {
-- 
2.43.0


From 9939798d7f5bfe4ea57887d71d2e4f298a4cf757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:57 +0000
Subject: [PATCH 20/20] fix: merging connections takes time in proportion to
 their number

---
 embertree/element.go        |  4 +---
 embertree/matrix_element.go | 18 ++++++++++++++----
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/embertree/element.go b/embertree/element.go
index ca7f1c0..2a26dd1 100755
--- a/embertree/element.go
+++ b/embertree/element.go
@@ -162,9 +162,7 @@ func (element *Element) Update(newElement *Element) errors.Error {
 	if newElement.sources != nil {
 		element.sources = newElement.sources
 	}
-	for _, connection := range newElement.connections {
-		element.updateConnection(connection)
-	}
+	element.updateConnections(newElement.connections)
 	for number, newChild := range newElement.Children {
 		child := element.Children[number]
 		if child == nil {
diff --git a/embertree/matrix_element.go b/embertree/matrix_element.go
index 8a83104..4b84a03 100755
--- a/embertree/matrix_element.go
+++ b/embertree/matrix_element.go
@@ -186,14 +186,24 @@ func (element *Element) DecodeConnections(reader *asn1.ASNReader) errors.Error {
 	return connectionReader.ReadSequenceEnd()
 }
 
-func (element *Element) updateConnection(connection *Connection) {
+func (element *Element) updateConnections(connections []*Connection) {
+	if len(connections) == 0 {
+		return
+	}
+	positions := make(map[int32]int, len(element.connections))
 	for i, current := range element.connections {
-		if current.Target == connection.Target {
+		if _, known := positions[current.Target]; !known {
+			positions[current.Target] = i
+		}
+	}
+	for _, connection := range connections {
+		if i, known := positions[connection.Target]; known {
 			element.connections[i] = connection
-			return
+		} else {
+			positions[connection.Target] = len(element.connections)
+			element.connections = append(element.connections, connection)
 		}
 	}
-	element.connections = append(element.connections, connection)
 }
 
 func (element *Element) SetTargets(targets []Signal) errors.Error {
-- 
2.43.0

