From 482ae3fb9999267c9c63f0229fd8a1f4787d62bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:18 +0000
Subject: [PATCH 01/30] fix: honour length and stride when reading scalar byte
 slices

binary.Read ranged over the whole byte slice for []int8, which panicked when
it was longer than the destination and ignored the stride, and the stride test
for []uint8 was inverted.
---
 binary/encode.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/binary/encode.go b/binary/encode.go
index 01a4226..b6ab0bb 100644
--- a/binary/encode.go
+++ b/binary/encode.go
@@ -40,8 +40,8 @@ func Read(b []byte, byteStride int, data any) error {
 			data[i] = color.RGBA64{R: c[0], G: c[1], B: c[2], A: c[3]}
 		}
 	case []int8:
-		for i, x := range b {
-			data[i] = int8(x)
+		for i := range data {
+			data[i] = Byte.Scalar(b[e*i:])
 		}
 	case [][2]int8:
 		for i := range data {
@@ -68,7 +68,7 @@ func Read(b []byte, byteStride int, data any) error {
 			data[i] = Byte.Mat4(b[e*i:])
 		}
 	case []uint8:
-		if byteStride != 1 {
+		if e == 1 {
 			copy(data, b)
 		} else {
 			for i := range data {
-- 
2.43.0


From b3c09897a4135f9ad4d4d133976c2f63501f2df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:18 +0000
Subject: [PATCH 02/30] fix: honour the stride when writing []uint8

binary.Write copied the bytes contiguously whatever the stride, so interleaving
a scalar unsigned byte attribute overwrote its neighbours.
---
 binary/encode.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/binary/encode.go b/binary/encode.go
index b6ab0bb..4a8250a 100644
--- a/binary/encode.go
+++ b/binary/encode.go
@@ -273,7 +273,13 @@ func Write(b []byte, stride int, data any) error {
 			Byte.PutMat4(b[e*i:], data[i])
 		}
 	case []uint8:
-		copy(b, data)
+		if e == 1 {
+			copy(b, data)
+		} else {
+			for i, x := range data {
+				b[e*i] = x
+			}
+		}
 	case [][2]uint8:
 		for i := range data {
 			Ubyte.PutVec2(b[e*i:], data[i])
-- 
2.43.0


From e94cd3d8d7a9a3fa113fa3bef8c2c31daa37ce00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:18 +0000
Subject: [PATCH 03/30] fix: support UNSIGNED_INT MAT3 in MakeSliceBuffer

It panicked for this pair when called with a non-empty buffer.
---
 binary/slice.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/binary/slice.go b/binary/slice.go
index 7a1dd4f..3b37118 100644
--- a/binary/slice.go
+++ b/binary/slice.go
@@ -112,7 +112,7 @@ func castSlice(c gltf.ComponentType, t gltf.AccessorType, count int, v []byte) a
 		case gltf.AccessorMat2:
 			return reslice[[2][2]uint32](v, l, rem)
 		case gltf.AccessorMat3:
-
+			return reslice[[3][3]uint32](v, l, rem)
 		case gltf.AccessorMat4:
 			return reslice[[4][4]uint32](v, l, rem)
 		}
-- 
2.43.0


From 6374857c74ea5f8798f143ac8a95ed52eb1319af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:31 +0000
Subject: [PATCH 04/30] fix: make binary bounds checks immune to overflow and
 bad strides

A negative stride or a length that overflows made Read and Write panic, and an
empty slice could be reported as not fitting.
---
 binary/encode.go | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/binary/encode.go b/binary/encode.go
index 4a8250a..2a71541 100644
--- a/binary/encode.go
+++ b/binary/encode.go
@@ -20,14 +20,10 @@ func Read(b []byte, byteStride int, data any) error {
 	if byteStride == 0 {
 		byteStride = size
 	}
-	e := int(byteStride)
-	high := int(n) * e
-	if byteStride != size {
-		high -= int(byteStride - size)
-	}
-	if len(b) < high {
+	if !fits(len(b), n, byteStride, size) {
 		return io.ErrShortBuffer
 	}
+	e := int(byteStride)
 	switch data := data.(type) {
 	case []color.RGBA:
 		for i := range data {
@@ -217,6 +213,15 @@ func Read(b []byte, byteStride int, data any) error {
 	return nil
 }
 
+// fits reports whether n elements of the given size, stride bytes apart,
+// fit in length bytes. A negative stride never fits.
+func fits(length, n, stride, size int) bool {
+	if n == 0 {
+		return true
+	}
+	return stride > 0 && length >= size && (length-size)/stride >= n-1
+}
+
 // Write writes the binary representation of data into b.
 // If stride is diferent than zero data will be interleaved.
 //
@@ -232,7 +237,7 @@ func Write(b []byte, stride int, data any) error {
 	if stride == 0 {
 		e = sizeOfElement
 	}
-	if len(b) < e*(int(n)-1)+sizeOfElement {
+	if !fits(len(b), n, e, sizeOfElement) {
 		return io.ErrShortBuffer
 	}
 	switch data := data.(type) {
-- 
2.43.0


From 9942f21d77216a5d574e1dce38c7b929aa9cfd3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:32 +0000
Subject: [PATCH 05/30] fix: return errors instead of panicking when reading
 malformed accessors

Negative or overflowing indices, offsets, lengths, counts and strides, null
entries and sparse indices beyond the accessor made the readers panic, although
they are documented to be safe to use with malformed documents.
---
 modeler/read.go | 94 +++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 83 insertions(+), 11 deletions(-)

diff --git a/modeler/read.go b/modeler/read.go
index fc4d6f8..6d71144 100644
--- a/modeler/read.go
+++ b/modeler/read.go
@@ -29,17 +29,36 @@ var uint32Pool = sync.Pool{
 // ReadAccessor is safe to use even with malformed documents.
 // If that happens it will return an error instead of panic.
 func ReadAccessor(doc *gltf.Document, acr *gltf.Accessor, buffer []byte) (any, error) {
-	data, err := binary.MakeSliceBuffer(acr.ComponentType, acr.Type, acr.Count, buffer)
-	if err != nil {
-		return nil, err
+	if acr == nil {
+		return nil, errNilAccessor
+	}
+	if acr.Count < 0 {
+		return nil, fmt.Errorf("gltf: invalid accessor count %d", acr.Count)
 	}
+	var buf []byte
+	var byteStride int
 	if acr.BufferView != nil {
-		buf, err := readBufferView(doc, *acr.BufferView)
+		var err error
+		buf, err = readBufferView(doc, *acr.BufferView)
 		if err != nil {
 			return nil, err
 		}
-		byteStride := doc.BufferViews[*acr.BufferView].ByteStride
-		err = binary.Read(buf[acr.ByteOffset:], byteStride, data)
+		if acr.ByteOffset < 0 || acr.ByteOffset > len(buf) {
+			return nil, io.ErrShortBuffer
+		}
+		buf = buf[acr.ByteOffset:]
+		byteStride = doc.BufferViews[*acr.BufferView].ByteStride
+		// Check that the elements are there before allocating memory for them.
+		if err := checkBounds(len(buf), byteStride, acr); err != nil {
+			return nil, err
+		}
+	}
+	data, err := binary.MakeSliceBuffer(acr.ComponentType, acr.Type, acr.Count, buffer)
+	if err != nil {
+		return nil, err
+	}
+	if acr.BufferView != nil {
+		err = binary.Read(buf, byteStride, data)
 		if err != nil {
 			return nil, err
 		}
@@ -75,14 +94,32 @@ func ReadAccessor(doc *gltf.Document, acr *gltf.Accessor, buffer []byte) (any, e
 		s := reflect.ValueOf(data)
 		vals := reflect.ValueOf(values)
 		for i := 0; i < int(acr.Sparse.Count); i++ {
+			if int64(indices[i]) >= int64(acr.Count) {
+				return nil, errors.New("gltf: sparse index overflows")
+			}
 			s.Index(int(indices[i])).Set(vals.Index(i))
 		}
 	}
 	return data, nil
 }
 
+// checkBounds returns an error if length bytes cannot hold all the elements of acr.
+func checkBounds(length, byteStride int, acr *gltf.Accessor) error {
+	size := gltf.SizeOfElement(acr.ComponentType, acr.Type)
+	if size == 0 || acr.Count == 0 {
+		return nil
+	}
+	if byteStride == 0 {
+		byteStride = size
+	}
+	if byteStride < 0 || length < size || (length-size)/byteStride < acr.Count-1 {
+		return io.ErrShortBuffer
+	}
+	return nil
+}
+
 func readBufferView(doc *gltf.Document, bufferViewIndex int) ([]byte, error) {
-	if len(doc.BufferViews) <= bufferViewIndex {
+	if bufferViewIndex < 0 || len(doc.BufferViews) <= bufferViewIndex {
 		return nil, errors.New("gltf: bufferview index overflows")
 	}
 	return ReadBufferView(doc, doc.BufferViews[bufferViewIndex])
@@ -94,16 +131,19 @@ func readBufferView(doc *gltf.Document, bufferViewIndex int) ([]byte, error) {
 // It is safe to use even with malformed documents.
 // If that happens it will return an error instead of panic.
 func ReadBufferView(doc *gltf.Document, bv *gltf.BufferView) ([]byte, error) {
-	if len(doc.Buffers) <= bv.Buffer {
+	if bv == nil {
+		return nil, errors.New("gltf: bufferview is nil")
+	}
+	if bv.Buffer < 0 || len(doc.Buffers) <= bv.Buffer || doc.Buffers[bv.Buffer] == nil {
 		return nil, errors.New("gltf: buffer index overflows")
 	}
 	buf := doc.Buffers[bv.Buffer].Data
 
-	high := bv.ByteOffset + bv.ByteLength
-	if len(buf) < high {
+	if bv.ByteOffset < 0 || bv.ByteLength < 0 ||
+		len(buf) < bv.ByteOffset || len(buf)-bv.ByteOffset < bv.ByteLength {
 		return nil, io.ErrShortBuffer
 	}
-	return buf[bv.ByteOffset:high], nil
+	return buf[bv.ByteOffset : bv.ByteOffset+bv.ByteLength], nil
 }
 
 var bufPool = sync.Pool{
@@ -130,6 +170,9 @@ func makeBufferOf[T any](count int, buffer []T) []T {
 //
 // See ReadAccessor for more info.
 func ReadIndices(doc *gltf.Document, acr *gltf.Accessor, buffer []uint32) ([]uint32, error) {
+	if acr == nil {
+		return nil, errNilAccessor
+	}
 	switch acr.ComponentType {
 	case gltf.ComponentUbyte, gltf.ComponentUshort, gltf.ComponentUint:
 	default:
@@ -164,6 +207,9 @@ func ReadIndices(doc *gltf.Document, acr *gltf.Accessor, buffer []uint32) ([]uin
 //
 // See ReadAccessor for more info.
 func ReadNormal(doc *gltf.Document, acr *gltf.Accessor, buffer [][3]float32) ([][3]float32, error) {
+	if acr == nil {
+		return nil, errNilAccessor
+	}
 	if acr.ComponentType != gltf.ComponentFloat {
 		return nil, errComponentType(acr.ComponentType)
 	}
@@ -185,6 +231,9 @@ func ReadNormal(doc *gltf.Document, acr *gltf.Accessor, buffer [][3]float32) ([]
 //
 // See ReadAccessor for more info.
 func ReadTangent(doc *gltf.Document, acr *gltf.Accessor, buffer [][4]float32) ([][4]float32, error) {
+	if acr == nil {
+		return nil, errNilAccessor
+	}
 	if acr.ComponentType != gltf.ComponentFloat {
 		return nil, errComponentType(acr.ComponentType)
 	}
@@ -208,6 +257,9 @@ func ReadTangent(doc *gltf.Document, acr *gltf.Accessor, buffer [][4]float32) ([
 //
 // See ReadAccessor for more info.
 func ReadTextureCoord(doc *gltf.Document, acr *gltf.Accessor, buffer [][2]float32) ([][2]float32, error) {
+	if acr == nil {
+		return nil, errNilAccessor
+	}
 	switch acr.ComponentType {
 	case gltf.ComponentUbyte, gltf.ComponentUshort, gltf.ComponentFloat:
 	default:
@@ -248,6 +300,9 @@ func ReadTextureCoord(doc *gltf.Document, acr *gltf.Accessor, buffer [][2]float3
 //
 // See ReadAccessor for more info.
 func ReadWeights(doc *gltf.Document, acr *gltf.Accessor, buffer [][4]float32) ([][4]float32, error) {
+	if acr == nil {
+		return nil, errNilAccessor
+	}
 	switch acr.ComponentType {
 	case gltf.ComponentUbyte, gltf.ComponentUshort, gltf.ComponentFloat:
 	default:
@@ -290,6 +345,9 @@ func ReadWeights(doc *gltf.Document, acr *gltf.Accessor, buffer [][4]float32) ([
 //
 // See ReadAccessor for more info.
 func ReadJoints(doc *gltf.Document, acr *gltf.Accessor, buffer [][4]uint16) ([][4]uint16, error) {
+	if acr == nil {
+		return nil, errNilAccessor
+	}
 	switch acr.ComponentType {
 	case gltf.ComponentUbyte, gltf.ComponentUshort:
 	default:
@@ -323,6 +381,9 @@ func ReadJoints(doc *gltf.Document, acr *gltf.Accessor, buffer [][4]uint16) ([][
 //
 // See ReadAccessor for more info.
 func ReadPosition(doc *gltf.Document, acr *gltf.Accessor, buffer [][3]float32) ([][3]float32, error) {
+	if acr == nil {
+		return nil, errNilAccessor
+	}
 	if acr.ComponentType != gltf.ComponentFloat {
 		return nil, errComponentType(acr.ComponentType)
 	}
@@ -346,6 +407,9 @@ func ReadPosition(doc *gltf.Document, acr *gltf.Accessor, buffer [][3]float32) (
 //
 // See ReadAccessor for more info.
 func ReadColor(doc *gltf.Document, acr *gltf.Accessor, buffer [][4]uint8) ([][4]uint8, error) {
+	if acr == nil {
+		return nil, errNilAccessor
+	}
 	switch acr.ComponentType {
 	case gltf.ComponentUbyte, gltf.ComponentUshort, gltf.ComponentFloat:
 	default:
@@ -397,6 +461,9 @@ func ReadColor(doc *gltf.Document, acr *gltf.Accessor, buffer [][4]uint8) ([][4]
 //
 // See ReadAccessor for more info.
 func ReadColor64(doc *gltf.Document, acr *gltf.Accessor, buffer [][4]uint16) ([][4]uint16, error) {
+	if acr == nil {
+		return nil, errNilAccessor
+	}
 	switch acr.ComponentType {
 	case gltf.ComponentUbyte, gltf.ComponentUshort, gltf.ComponentFloat:
 	default:
@@ -456,6 +523,9 @@ func ReadColor64(doc *gltf.Document, acr *gltf.Accessor, buffer [][4]uint16) ([]
 //
 // See ReadAccessor for more info.
 func ReadInverseBindMatrices(doc *gltf.Document, acr *gltf.Accessor, buffer [][4][4]float32) ([][4][4]float32, error) {
+	if acr == nil {
+		return nil, errNilAccessor
+	}
 	if acr.ComponentType != gltf.ComponentFloat {
 		return nil, errComponentType(acr.ComponentType)
 	}
@@ -473,6 +543,8 @@ func ReadInverseBindMatrices(doc *gltf.Document, acr *gltf.Accessor, buffer [][4
 	return buffer, nil
 }
 
+var errNilAccessor = errors.New("gltf: accessor is nil")
+
 func errAccessorType(tp gltf.AccessorType) error {
 	return fmt.Errorf("gltf: accessor type %v not allowed", tp)
 }
-- 
2.43.0


From 4fcc7abfbbcca711f88c4c6f53f8b111ce3b4f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:32 +0000
Subject: [PATCH 06/30] fix: zero the elements of accessors without buffer view

When ReadAccessor was given a buffer, or took one from the pool, the result
held whatever the buffer contained before.
---
 modeler/read.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/modeler/read.go b/modeler/read.go
index 6d71144..b85c331 100644
--- a/modeler/read.go
+++ b/modeler/read.go
@@ -62,6 +62,12 @@ func ReadAccessor(doc *gltf.Document, acr *gltf.Accessor, buffer []byte) (any, e
 		if err != nil {
 			return nil, err
 		}
+	} else {
+		// The elements are zeros, but buffer can hold the data of an earlier use.
+		s := reflect.ValueOf(data)
+		for i := 0; i < s.Len(); i++ {
+			s.Index(i).SetZero()
+		}
 	}
 
 	if acr.Sparse != nil {
-- 
2.43.0


From e3e3b70380d794c1e1e78abafb47c7376ada081f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:33 +0000
Subject: [PATCH 07/30] fix: return no elements for an empty accessor when
 reusing a buffer

The typed readers returned the whole stale buffer when the accessor had no
elements.
---
 modeler/read.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modeler/read.go b/modeler/read.go
index b85c331..cb9fd96 100644
--- a/modeler/read.go
+++ b/modeler/read.go
@@ -162,9 +162,9 @@ var bufPool = sync.Pool{
 func makeBufferOf[T any](count int, buffer []T) []T {
 	if len(buffer) < count {
 		buffer = append(buffer, make([]T, count-len(buffer))...)
-	} else if count != 0 {
+	} else if buffer != nil {
 		buffer = buffer[:count]
-	} else if buffer == nil {
+	} else {
 		buffer = make([]T, 0)
 	}
 	return buffer
-- 
2.43.0


From 5bacff21342f07e89532da0658c4756dd62e4c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:48 +0000
Subject: [PATCH 08/30] fix: skip the padding of the JSON chunk of a GLB

The JSON decoder stops reading at the end of the value, so whether the padding
was consumed depended on how the reader chunked its data, and the BIN header
could be read from the middle of the padding.
---
 decoder.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/decoder.go b/decoder.go
index 8ca826c..c0786b3 100644
--- a/decoder.go
+++ b/decoder.go
@@ -99,10 +99,12 @@ func (d *Decoder) decodeDocument(doc *Document) (bool, error) {
 	}
 	var (
 		jd       *json.Decoder
+		chunk    *io.LimitedReader
 		isBinary bool
 	)
 	if glbHeader != nil {
-		jd = json.NewDecoder(&io.LimitedReader{R: d.r, N: int64(glbHeader.JSONHeader.Length)})
+		chunk = &io.LimitedReader{R: d.r, N: int64(glbHeader.JSONHeader.Length)}
+		jd = json.NewDecoder(chunk)
 		isBinary = true
 	} else {
 		jd = json.NewDecoder(d.r)
@@ -110,6 +112,12 @@ func (d *Decoder) decodeDocument(doc *Document) (bool, error) {
 	}
 
 	err = jd.Decode(doc)
+	if err == nil && chunk != nil {
+		// Skip the padding, the JSON decoder doesn't necessarily read it.
+		if _, err = io.Copy(io.Discard, chunk); err == nil && chunk.N > 0 {
+			err = io.ErrUnexpectedEOF
+		}
+	}
 	return isBinary, err
 }
 
-- 
2.43.0


From 97e9fcf33f989abcc9e8cffba465fd51d22e7395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:49 +0000
Subject: [PATCH 09/30] fix: don't overflow when validating GLB chunk lengths

A JSON chunk length near 2^32, or a buffer longer than 2^32 bytes, wrapped
around and passed the validation.
---
 decoder.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/decoder.go b/decoder.go
index c0786b3..b872aae 100644
--- a/decoder.go
+++ b/decoder.go
@@ -137,7 +137,7 @@ func (d *Decoder) readGLBHeader() (*glbHeader, error) {
 }
 
 func (d *Decoder) validateGLBHeader(header *glbHeader) error {
-	if header.JSONHeader.Type != glbChunkJSON || (header.JSONHeader.Length+uint32(binary.Size(header))) > header.Length {
+	if header.JSONHeader.Type != glbChunkJSON || uint64(header.JSONHeader.Length)+uint64(binary.Size(header)) > uint64(header.Length) {
 		return errors.New("gltf: Invalid GLB JSON header")
 	}
 	return nil
@@ -184,7 +184,7 @@ func (d *Decoder) decodeBinaryBuffer(buffer *Buffer) error {
 	if err != nil {
 		return err
 	}
-	if header.Type != glbChunkBIN || header.Length < uint32(buffer.ByteLength) {
+	if header.Type != glbChunkBIN || int64(header.Length) < int64(buffer.ByteLength) {
 		return errors.New("gltf: Invalid GLB BIN header")
 	}
 	buffer.Data = make([]byte, buffer.ByteLength)
-- 
2.43.0


From 4e23f99b0c5ff678b520d4d83702d7d3738fe178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:50 +0000
Subject: [PATCH 10/30] fix: don't panic when decoding null buffers or images
 and negative lengths

Return an error instead.
---
 decoder.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/decoder.go b/decoder.go
index b872aae..6b5da0a 100644
--- a/decoder.go
+++ b/decoder.go
@@ -63,6 +63,9 @@ func (d *Decoder) Decode(doc *Document) error {
 	}
 
 	for _, b := range doc.Buffers {
+		if b == nil {
+			return errors.New("gltf: buffer is null")
+		}
 		if !b.IsEmbeddedResource() {
 			if uri, ok := sanitizeURI(b.URI); ok {
 				b.URI = uri
@@ -70,6 +73,9 @@ func (d *Decoder) Decode(doc *Document) error {
 		}
 	}
 	for _, im := range doc.Images {
+		if im == nil {
+			return errors.New("gltf: image is null")
+		}
 		if !im.IsEmbeddedResource() {
 			if uri, ok := sanitizeURI(im.URI); ok {
 				im.URI = uri
@@ -193,8 +199,8 @@ func (d *Decoder) decodeBinaryBuffer(buffer *Buffer) error {
 }
 
 func (d *Decoder) validateBuffer(buffer *Buffer) error {
-	if buffer.ByteLength == 0 {
-		return errors.New("gltf: Invalid buffer.byteLength value = 0")
+	if buffer.ByteLength <= 0 {
+		return fmt.Errorf("gltf: Invalid buffer.byteLength value = %d", buffer.ByteLength)
 	}
 	return nil
 }
-- 
2.43.0


From fdaee798a5b73531cd6f850c5dd6dceae7d08923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:52 +0000
Subject: [PATCH 11/30] fix: report every write error when encoding

The errors of all but the first and last writes of a GLB were discarded, so a
truncated file could be reported as successfully written.
---
 encode.go | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/encode.go b/encode.go
index f8a29ad..c349d78 100644
--- a/encode.go
+++ b/encode.go
@@ -103,7 +103,7 @@ func (e *Encoder) Encode(doc *Document) error {
 		if err != nil {
 			return err
 		}
-		_, err = e.w.Write(jsonData)
+		err = writeFull(e.w, jsonData)
 	}
 	if err != nil {
 		return err
@@ -137,7 +137,7 @@ func (e *Encoder) encodeBuffer(buffer *Buffer) error {
 	if err != nil {
 		return err
 	}
-	_, err = w.Write(buffer.Data)
+	err = writeFull(w, buffer.Data)
 	if err1 := w.Close(); err == nil {
 		err = err1
 	}
@@ -175,8 +175,12 @@ func (e *Encoder) encodeBinary(doc *Document) (bool, error) {
 	if err != nil {
 		return false, err
 	}
-	e.w.Write(jsonText)
-	e.w.Write(headerPadding)
+	if err = writeFull(e.w, jsonText); err != nil {
+		return false, err
+	}
+	if err = writeFull(e.w, headerPadding); err != nil {
+		return false, err
+	}
 
 	if hasBinChunk {
 		binBuffer := doc.Buffers[0]
@@ -185,14 +189,27 @@ func (e *Encoder) encodeBinary(doc *Document) (bool, error) {
 			binPadding[i] = 0
 		}
 		binHeader := chunkHeader{Length: uint32(binPaddedLength), Type: glbChunkBIN}
-		binary.Write(e.w, binary.LittleEndian, &binHeader)
-		e.w.Write(binBuffer.Data)
-		_, err = e.w.Write(binPadding)
+		if err = binary.Write(e.w, binary.LittleEndian, &binHeader); err != nil {
+			return hasBinChunk, err
+		}
+		if err = writeFull(e.w, binBuffer.Data); err != nil {
+			return hasBinChunk, err
+		}
+		err = writeFull(e.w, binPadding)
 	}
 
 	return hasBinChunk, err
 }
 
+// writeFull writes b to w and reports an error if it was not completely written.
+func writeFull(w io.Writer, b []byte) error {
+	n, err := w.Write(b)
+	if err == nil && n < len(b) {
+		err = io.ErrShortWrite
+	}
+	return err
+}
+
 // MarshalJSON marshal the document with the correct default values.
 func (e *Encoder) marshalJSONDoc(doc *Document) ([]byte, error) {
 	type alias Document
-- 
2.43.0


From 017e3857ef43a8f3338cfd710893926ff9074b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:53 +0000
Subject: [PATCH 12/30] fix: write as many bytes in the BIN chunk as its header
 declares

The data of a buffer whose ByteLength differs from the length of its Data was
written as is, which corrupted the container.
---
 encode.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/encode.go b/encode.go
index c349d78..b76e157 100644
--- a/encode.go
+++ b/encode.go
@@ -184,15 +184,17 @@ func (e *Encoder) encodeBinary(doc *Document) (bool, error) {
 
 	if hasBinChunk {
 		binBuffer := doc.Buffers[0]
-		binPadding := make([]byte, binPaddedLength-binBuffer.ByteLength)
-		for i := range binPadding {
-			binPadding[i] = 0
+		// The chunk holds exactly ByteLength bytes, whatever the length of Data.
+		binData := binBuffer.Data
+		if len(binData) > binBuffer.ByteLength {
+			binData = binData[:binBuffer.ByteLength]
 		}
+		binPadding := make([]byte, binPaddedLength-len(binData))
 		binHeader := chunkHeader{Length: uint32(binPaddedLength), Type: glbChunkBIN}
 		if err = binary.Write(e.w, binary.LittleEndian, &binHeader); err != nil {
 			return hasBinChunk, err
 		}
-		if err = writeFull(e.w, binBuffer.Data); err != nil {
+		if err = writeFull(e.w, binData); err != nil {
 			return hasBinChunk, err
 		}
 		err = writeFull(e.w, binPadding)
-- 
2.43.0


From bfee7f3445331e800bf8e90868c480225f2f6ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:20 +0000
Subject: [PATCH 13/30] fix: report short writes of the GLB headers

binary.Write ignores the number of bytes written.
---
 encode.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/encode.go b/encode.go
index b76e157..d3e4abe 100644
--- a/encode.go
+++ b/encode.go
@@ -1,6 +1,7 @@
 package gltf
 
 import (
+	"bytes"
 	"encoding/binary"
 	"encoding/json"
 	"errors"
@@ -171,8 +172,7 @@ func (e *Encoder) encodeBinary(doc *Document) (bool, error) {
 		header.Length += uint32(8 + binPaddedLength)
 	}
 
-	err = binary.Write(e.w, binary.LittleEndian, &header)
-	if err != nil {
+	if err = writeHeader(e.w, &header); err != nil {
 		return false, err
 	}
 	if err = writeFull(e.w, jsonText); err != nil {
@@ -191,7 +191,7 @@ func (e *Encoder) encodeBinary(doc *Document) (bool, error) {
 		}
 		binPadding := make([]byte, binPaddedLength-len(binData))
 		binHeader := chunkHeader{Length: uint32(binPaddedLength), Type: glbChunkBIN}
-		if err = binary.Write(e.w, binary.LittleEndian, &binHeader); err != nil {
+		if err = writeHeader(e.w, &binHeader); err != nil {
 			return hasBinChunk, err
 		}
 		if err = writeFull(e.w, binData); err != nil {
@@ -203,6 +203,15 @@ func (e *Encoder) encodeBinary(doc *Document) (bool, error) {
 	return hasBinChunk, err
 }
 
+// writeHeader writes the little-endian representation of header to w.
+func writeHeader(w io.Writer, header any) error {
+	var buf bytes.Buffer
+	if err := binary.Write(&buf, binary.LittleEndian, header); err != nil {
+		return err
+	}
+	return writeFull(w, buf.Bytes())
+}
+
 // writeFull writes b to w and reports an error if it was not completely written.
 func writeFull(w io.Writer, b []byte) error {
 	n, err := w.Write(b)
-- 
2.43.0


From 9179ab9d2c8ab2e0ac98711886cc06a67d1814c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:22 +0000
Subject: [PATCH 14/30] fix: validate the buffer URI that is actually used when
 encoding

The URI was validated before decoding its percent-encoding and backslashes, so
"..%2Fa.bin" was created outside of the target directory, and the data of a
buffer whose URI can't be unescaped was silently not written.
---
 encode.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/encode.go b/encode.go
index d3e4abe..87e96f9 100644
--- a/encode.go
+++ b/encode.go
@@ -124,16 +124,17 @@ func (e *Encoder) Encode(doc *Document) error {
 }
 
 func (e *Encoder) encodeBuffer(buffer *Buffer) error {
-	if err := validateBufferURI(buffer.URI); err != nil {
+	// Use the same name that the decoder will use to read the buffer.
+	uri, ok := sanitizeURI(buffer.URI)
+	if !ok {
+		uri = buffer.URI
+	}
+	if err := validateBufferURI(uri); err != nil {
 		return err
 	}
 	if e.Fsys == nil {
 		return nil
 	}
-	uri, ok := sanitizeURI(buffer.URI)
-	if !ok {
-		return nil
-	}
 	w, err := e.Fsys.Create(uri)
 	if err != nil {
 		return err
-- 
2.43.0


From ea702b6b0e319394a808244349769878fcbecb2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:23 +0000
Subject: [PATCH 15/30] fix: don't use absolute URLs as file names

Only buffers with relative URIs are read from and written to Fsys, but any URI
with a scheme was used without checking that it is a local path, e.g.
"a:/../../b" or "file:///a".
---
 decoder.go | 11 +++++++++--
 encode.go  |  2 +-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/decoder.go b/decoder.go
index 6b5da0a..5594dc4 100644
--- a/decoder.go
+++ b/decoder.go
@@ -169,7 +169,7 @@ func (d *Decoder) decodeBuffer(buffer *Buffer) error {
 		buffer.Data, err = buffer.marshalData()
 	} else {
 		err = validateBufferURI(buffer.URI)
-		if err == nil && d.Fsys != nil {
+		if err == nil && d.Fsys != nil && !isURL(buffer.URI) {
 			buffer.Data, err = fs.ReadFile(d.Fsys, buffer.URI)
 			if len(buffer.Data) > int(buffer.ByteLength) {
 				buffer.Data = buffer.Data[:buffer.ByteLength:buffer.ByteLength]
@@ -206,7 +206,7 @@ func (d *Decoder) validateBuffer(buffer *Buffer) error {
 }
 
 func validateBufferURI(uri string) error {
-	if u, err := url.Parse(uri); err == nil && u.Scheme != "" {
+	if isURL(uri) {
 		return nil
 	}
 	if !filepath.IsLocal(uri) {
@@ -215,6 +215,13 @@ func validateBufferURI(uri string) error {
 	return nil
 }
 
+// isURL reports whether uri is an absolute URL, i.e. scheme://..., which doesn't
+// name a resource of the file system.
+func isURL(uri string) bool {
+	u, err := url.Parse(uri)
+	return err == nil && u.Scheme != "" && strings.HasPrefix(uri[len(u.Scheme):], "://")
+}
+
 func sanitizeURI(uri string) (string, bool) {
 	uri = strings.Replace(uri, "\\", "/", -1)
 	uri = strings.Replace(uri, "/./", "/", -1)
diff --git a/encode.go b/encode.go
index 87e96f9..34a779a 100644
--- a/encode.go
+++ b/encode.go
@@ -132,7 +132,7 @@ func (e *Encoder) encodeBuffer(buffer *Buffer) error {
 	if err := validateBufferURI(uri); err != nil {
 		return err
 	}
-	if e.Fsys == nil {
+	if e.Fsys == nil || isURL(uri) {
 		return nil
 	}
 	w, err := e.Fsys.Create(uri)
-- 
2.43.0


From 0f284d66fa70c827e0a6f79f17e01520648a2535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:47 +0000
Subject: [PATCH 16/30] fix: don't edit the marshalled text of
 specular-glossiness payloads

Removing the default properties with text replacements corrupted, or made
invalid, payloads whose textures contain extras or extensions with the same
character sequences.
---
 ext/specular/specular.go | 34 ++++++++++------------------------
 1 file changed, 10 insertions(+), 24 deletions(-)

diff --git a/ext/specular/specular.go b/ext/specular/specular.go
index 6752474..ec09c86 100644
--- a/ext/specular/specular.go
+++ b/ext/specular/specular.go
@@ -1,7 +1,6 @@
 package specular
 
 import (
-	"bytes"
 	"encoding/json"
 
 	"github.com/qmuntal/gltf"
@@ -46,28 +45,15 @@ func (p *PBRSpecularGlossiness) UnmarshalJSON(data []byte) error {
 // MarshalJSON marshal the pbr with the correct default values.
 func (p *PBRSpecularGlossiness) MarshalJSON() ([]byte, error) {
 	type alias PBRSpecularGlossiness
-	out, err := json.Marshal(&struct{ *alias }{alias: (*alias)(p)})
-	if err == nil {
-		if p.GlossinessFactor != nil && *p.GlossinessFactor == 1 {
-			out = removeProperty([]byte(`"glossinessFactor":1`), out)
-		}
-		if p.DiffuseFactor != nil && *p.DiffuseFactor == [4]float64{1, 1, 1, 1} {
-			out = removeProperty([]byte(`"diffuseFactor":[1,1,1,1]`), out)
-		}
-		if p.SpecularFactor != nil && *p.SpecularFactor == [3]float64{1, 1, 1} {
-			out = removeProperty([]byte(`"specularFactor":[1,1,1]`), out)
-		}
-		out = sanitizeJSON(out)
+	tmp := alias(*p)
+	if p.GlossinessFactor != nil && *p.GlossinessFactor == 1 {
+		tmp.GlossinessFactor = nil
 	}
-	return out, err
-}
-
-func removeProperty(str []byte, b []byte) []byte {
-	b = bytes.Replace(b, str, []byte(""), 1)
-	return bytes.Replace(b, []byte(`,,`), []byte(","), 1)
-}
-
-func sanitizeJSON(b []byte) []byte {
-	b = bytes.Replace(b, []byte(`{,`), []byte("{"), 1)
-	return bytes.Replace(b, []byte(`,}`), []byte("}"), 1)
+	if p.DiffuseFactor != nil && *p.DiffuseFactor == [4]float64{1, 1, 1, 1} {
+		tmp.DiffuseFactor = nil
+	}
+	if p.SpecularFactor != nil && *p.SpecularFactor == [3]float64{1, 1, 1} {
+		tmp.SpecularFactor = nil
+	}
+	return json.Marshal(&tmp)
 }
-- 
2.43.0


From 58b0d48a594097864ad2fca9bc8ec87cb1917bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:49 +0000
Subject: [PATCH 17/30] fix: encode the current data of embedded buffers

The data URI of a decoded buffer was written back unchanged even if its Data
had been modified, e.g. by appending accessors with the modeler package, so
the saved document referenced data that was lost.
---
 encode.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/encode.go b/encode.go
index 34a779a..a00cc3c 100644
--- a/encode.go
+++ b/encode.go
@@ -233,14 +233,15 @@ func (e *Encoder) marshalJSONDoc(doc *Document) ([]byte, error) {
 		CustomBuffers: make([]*Buffer, len(doc.Buffers)),
 		alias:         (*alias)(doc),
 	}
-	// Embed buffers without URI.
+	// Embed buffers without URI and refresh the embedded ones,
+	// as the data might have changed since they were decoded.
 	for i, buf := range doc.Buffers {
 		if i == 0 && e.AsBinary && buf.URI == "" {
 			// First buffer will be encoded in the binary chunk.
 			tmp.CustomBuffers[i] = buf
 			continue
 		}
-		if len(buf.Data) > 0 && buf.URI == "" && !buf.IsEmbeddedResource() {
+		if len(buf.Data) > 0 && (buf.URI == "" || buf.IsEmbeddedResource()) {
 			tmpBuf := &Buffer{
 				Extensions: buf.Extensions,
 				Extras:     buf.Extras,
-- 
2.43.0


From e085fa0e7a320e7dd0342128266075710f4a16a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:50 +0000
Subject: [PATCH 18/30] fix: limit the data of embedded buffers to the declared
 length

As already done for external buffers and for the BIN chunk. Otherwise data
appended by the modeler package ended up beyond the declared length.
---
 decoder.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/decoder.go b/decoder.go
index 5594dc4..d139416 100644
--- a/decoder.go
+++ b/decoder.go
@@ -167,6 +167,9 @@ func (d *Decoder) decodeBuffer(buffer *Buffer) error {
 	var err error
 	if buffer.IsEmbeddedResource() {
 		buffer.Data, err = buffer.marshalData()
+		if len(buffer.Data) > int(buffer.ByteLength) {
+			buffer.Data = buffer.Data[:buffer.ByteLength:buffer.ByteLength]
+		}
 	} else {
 		err = validateBufferURI(buffer.URI)
 		if err == nil && d.Fsys != nil && !isURL(buffer.URI) {
-- 
2.43.0


From dd2e317925797cb798643a270b4fe19844aef167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:17 +0000
Subject: [PATCH 19/30] fix: marshal punctual lights with the shape of the
 extension

Decoded lights and light references were encoded as a bare list and a bare
number instead of {"lights": [...]} and {"light": n}, so documents using
KHR_lights_punctual lost them when saved.
---
 ext/lightspunctual/lightspunctual.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/ext/lightspunctual/lightspunctual.go b/ext/lightspunctual/lightspunctual.go
index 6365db3..873984c 100644
--- a/ext/lightspunctual/lightspunctual.go
+++ b/ext/lightspunctual/lightspunctual.go
@@ -48,6 +48,13 @@ const (
 // LightIndex is the id of the light referenced by this node.
 type LightIndex int
 
+// MarshalJSON marshal the light index as a node extension.
+func (l LightIndex) MarshalJSON() ([]byte, error) {
+	return json.Marshal(struct {
+		Light int `json:"light"`
+	}{int(l)})
+}
+
 // Spot defines the spot cone.
 type Spot struct {
 	InnerConeAngle float64  `json:"innerConeAngle,omitempty"`
@@ -76,6 +83,13 @@ func (s *Spot) UnmarshalJSON(data []byte) error {
 // Lights defines a list of Lights.
 type Lights []*Light
 
+// MarshalJSON marshal the lights as a document extension.
+func (l Lights) MarshalJSON() ([]byte, error) {
+	return json.Marshal(struct {
+		Lights []*Light `json:"lights,omitempty"`
+	}{l})
+}
+
 // Light defines a directional, point, or spot light.
 // When a light's type is spot, the spot property on the light is required.
 type Light struct {
-- 
2.43.0


From 48bd8f9516c5bd35cd8fabb6c1820b70fdb512cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:18 +0000
Subject: [PATCH 20/30] fix: marshal lights with infinite range

Infinite is the default range, but it can't be represented in JSON, so encoding
any decoded light without range failed.
---
 ext/lightspunctual/lightspunctual.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/ext/lightspunctual/lightspunctual.go b/ext/lightspunctual/lightspunctual.go
index 873984c..763f30e 100644
--- a/ext/lightspunctual/lightspunctual.go
+++ b/ext/lightspunctual/lightspunctual.go
@@ -127,3 +127,14 @@ func (l *Light) UnmarshalJSON(data []byte) error {
 	}
 	return err
 }
+
+// MarshalJSON marshal the light with the correct default values.
+func (l *Light) MarshalJSON() ([]byte, error) {
+	type alias Light
+	tmp := alias(*l)
+	if tmp.Range != nil && math.IsInf(*tmp.Range, 1) {
+		// An infinite range is represented by its absence.
+		tmp.Range = nil
+	}
+	return json.Marshal(&tmp)
+}
-- 
2.43.0


From 41499a1ed73bc9ca6835786bec63a2ae723e8d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:19 +0000
Subject: [PATCH 21/30] fix: don't modify the document when interleaved data
 has different lengths

WriteAccessorsInterleaved padded the last buffer, or added an empty one, before
checking the data.
---
 modeler/write.go | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/modeler/write.go b/modeler/write.go
index bbcfd6e..22c8e10 100644
--- a/modeler/write.go
+++ b/modeler/write.go
@@ -214,6 +214,9 @@ func WriteAccessor(doc *gltf.Document, target gltf.Target, data any) int {
 // with the same order as data or an error if the data elements
 // don´t have all the same length.
 func WriteAccessorsInterleaved(doc *gltf.Document, data ...any) ([]int, error) {
+	if err := checkSameLength(data...); err != nil {
+		return nil, err
+	}
 	ensurePadding(doc)
 	index, err := WriteBufferViewInterleaved(doc, data...)
 	if err != nil {
@@ -314,15 +317,27 @@ func WriteBufferView(doc *gltf.Document, target gltf.Target, data any) int {
 	return index
 }
 
-func writeBufferViews(doc *gltf.Document, target gltf.Target, data ...any) (int, error) {
-	var refLength, stride, size int
+// checkSameLength returns an error if the elements of data don't have the same length.
+func checkSameLength(data ...any) error {
+	var refLength int
 	for i, d := range data {
-		c, a, l := binary.Type(d)
+		_, _, l := binary.Type(d)
 		if i == 0 {
 			refLength = l
 		} else if refLength != l {
-			return 0, errors.New("gltf: interleaved data shall have the same number of elements in all chunks")
+			return errors.New("gltf: interleaved data shall have the same number of elements in all chunks")
 		}
+	}
+	return nil
+}
+
+func writeBufferViews(doc *gltf.Document, target gltf.Target, data ...any) (int, error) {
+	if err := checkSameLength(data...); err != nil {
+		return 0, err
+	}
+	var stride, size int
+	for _, d := range data {
+		c, a, l := binary.Type(d)
 		sizeOfElement := gltf.SizeOfElement(c, a)
 		size += l * sizeOfElement
 		if len(data) > 1 {
-- 
2.43.0


From b40aae02a22adb3018f2af7041ddc068713d467e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:19 +0000
Subject: [PATCH 22/30] fix: don't add an empty buffer view when all the
 attributes are empty

WritePrimitiveAttributes added a buffer view, and a buffer if there was none,
of zero bytes. Such documents are invalid and can't be decoded.
---
 modeler/write.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modeler/write.go b/modeler/write.go
index 22c8e10..f612233 100644
--- a/modeler/write.go
+++ b/modeler/write.go
@@ -283,6 +283,9 @@ func WritePrimitiveAttributes(doc *gltf.Document, attr ...PrimitiveAttribute) (g
 		data = append(data, a.Data)
 		props = append(props, attrProps{Name: a.Name, Normalized: normalized})
 	}
+	if len(data) == 0 {
+		return make(gltf.PrimitiveAttributes), nil
+	}
 	indices, err := WriteAccessorsInterleaved(doc, data...)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From c4cb54947728dbd238f993bff62a61879e5077b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:20 +0000
Subject: [PATCH 23/30] fix: align interleaved scalar bytes and shorts to four
 bytes

Interleaving them with other data placed the following elements, and the
stride, off the 4-byte boundaries that the glTF specification requires for
vertex attributes.
---
 modeler/write.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/modeler/write.go b/modeler/write.go
index f612233..39e0769 100644
--- a/modeler/write.go
+++ b/modeler/write.go
@@ -233,7 +233,7 @@ func WriteAccessorsInterleaved(doc *gltf.Document, data ...any) ([]int, error) {
 			Type:          t,
 			Count:         l,
 		})
-		byteOffset += gltf.SizeOfElement(c, t)
+		byteOffset += interleavedSize(c, t)
 		indices[i] = len(doc.Accessors) - 1
 	}
 	return indices, nil
@@ -342,6 +342,9 @@ func writeBufferViews(doc *gltf.Document, target gltf.Target, data ...any) (int,
 	for _, d := range data {
 		c, a, l := binary.Type(d)
 		sizeOfElement := gltf.SizeOfElement(c, a)
+		if len(data) > 1 {
+			sizeOfElement = interleavedSize(c, a)
+		}
 		size += l * sizeOfElement
 		if len(data) > 1 {
 			stride += sizeOfElement
@@ -358,7 +361,7 @@ func writeBufferViews(doc *gltf.Document, target gltf.Target, data ...any) (int,
 		// Cannot return error as the buffer has enough size and the data type is controlled.
 		_ = binary.Write(buffer.Data[dataOffset:], stride, d)
 		c, a, _ := binary.Type(d)
-		dataOffset += gltf.SizeOfElement(c, a)
+		dataOffset += interleavedSize(c, a)
 	}
 	bufferView := &gltf.BufferView{
 		Buffer:     len(doc.Buffers) - 1,
@@ -371,6 +374,13 @@ func writeBufferViews(doc *gltf.Document, target gltf.Target, data ...any) (int,
 	return len(doc.BufferViews) - 1, nil
 }
 
+// interleavedSize returns the bytes that an element takes in interleaved data,
+// where every element is aligned to a 4-byte boundary.
+func interleavedSize(c gltf.ComponentType, a gltf.AccessorType) int {
+	size := gltf.SizeOfElement(c, a)
+	return size + getPadding(size)
+}
+
 func ensurePadding(doc *gltf.Document) {
 	buffer := lastBuffer(doc)
 	padding := getPadding(len(buffer.Data))
-- 
2.43.0


From 25fb2ec5ce15f6b7b741dc281710ddd4e37f4987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:46 +0000
Subject: [PATCH 24/30] fix: reject GLB binary chunks that exceed the declared
 container length

---
 decoder.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/decoder.go b/decoder.go
index d139416..9381270 100644
--- a/decoder.go
+++ b/decoder.go
@@ -37,6 +37,7 @@ func Open(name string) (*Document, error) {
 type Decoder struct {
 	Fsys fs.FS
 	r    *bufio.Reader
+	glb  *glbHeader // header of the document being decoded, nil if it isn't a GLB
 }
 
 // NewDecoder returns a new decoder that reads from r.
@@ -108,6 +109,7 @@ func (d *Decoder) decodeDocument(doc *Document) (bool, error) {
 		chunk    *io.LimitedReader
 		isBinary bool
 	)
+	d.glb = glbHeader
 	if glbHeader != nil {
 		chunk = &io.LimitedReader{R: d.r, N: int64(glbHeader.JSONHeader.Length)}
 		jd = json.NewDecoder(chunk)
@@ -196,6 +198,12 @@ func (d *Decoder) decodeBinaryBuffer(buffer *Buffer) error {
 	if header.Type != glbChunkBIN || int64(header.Length) < int64(buffer.ByteLength) {
 		return errors.New("gltf: Invalid GLB BIN header")
 	}
+	if glb := d.glb; glb != nil {
+		end := int64(binary.Size(glb)) + int64(glb.JSONHeader.Length) + int64(binary.Size(header)) + int64(header.Length)
+		if end > int64(glb.Length) {
+			return errors.New("gltf: GLB BIN chunk exceeds the container length")
+		}
+	}
 	buffer.Data = make([]byte, buffer.ByteLength)
 	_, err = io.ReadFull(d.r, buffer.Data)
 	return err
-- 
2.43.0


From 4ad1769d9578c0dfa8d532624713db26b8fc2926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:01 +0000
Subject: [PATCH 25/30] fix: reject data URIs without the comma before the data

---
 gltf.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gltf.go b/gltf.go
index 559029e..49dc6c6 100644
--- a/gltf.go
+++ b/gltf.go
@@ -134,7 +134,7 @@ func (b *Buffer) marshalData() ([]byte, error) {
 		return nil, nil
 	}
 	startPos := len(mimetypeApplicationOctet) + 1
-	if len(b.URI) < startPos {
+	if len(b.URI) < startPos || b.URI[startPos-1] != ',' {
 		return nil, errors.New("gltf: Invalid base64 content")
 	}
 	sl, err := base64.StdEncoding.DecodeString(b.URI[startPos:])
@@ -415,7 +415,7 @@ func (im *Image) MarshalData() ([]byte, error) {
 		mimetype = mimetypeImageJPG
 	}
 	startPos := len(mimetype) + 1
-	if len(im.URI) < startPos {
+	if len(im.URI) < startPos || im.URI[startPos-1] != ',' {
 		return []byte{}, errors.New("gltf: Invalid base64 content")
 	}
 	return base64.StdEncoding.DecodeString(im.URI[startPos:])
-- 
2.43.0


From 655078fa728b8741e81b99f77589f0f689a523c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:48 +0000
Subject: [PATCH 26/30] fix: recognise URLs that net/url can't parse

---
 decoder.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/decoder.go b/decoder.go
index 9381270..5ce9bc6 100644
--- a/decoder.go
+++ b/decoder.go
@@ -227,10 +227,22 @@ func validateBufferURI(uri string) error {
 }
 
 // isURL reports whether uri is an absolute URL, i.e. scheme://..., which doesn't
-// name a resource of the file system.
+// name a resource of the file system. It doesn't use url.Parse because the latter
+// rejects some URLs, e.g. those with a percent-encoded host.
 func isURL(uri string) bool {
-	u, err := url.Parse(uri)
-	return err == nil && u.Scheme != "" && strings.HasPrefix(uri[len(u.Scheme):], "://")
+	scheme, _, ok := strings.Cut(uri, "://")
+	if !ok || scheme == "" {
+		return false
+	}
+	for i, c := range scheme {
+		switch {
+		case 'a' <= c && c <= 'z' || 'A' <= c && c <= 'Z':
+		case i > 0 && ('0' <= c && c <= '9' || c == '+' || c == '-' || c == '.'):
+		default:
+			return false
+		}
+	}
+	return true
 }
 
 func sanitizeURI(uri string) (string, bool) {
-- 
2.43.0


From ef8ba845584091346a5fa06c021dc7c992e16954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:30 +0000
Subject: [PATCH 27/30] fix: don't point at scratch memory smaller than an
 element

---
 binary/slice.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/binary/slice.go b/binary/slice.go
index 3b37118..ccf99b2 100644
--- a/binary/slice.go
+++ b/binary/slice.go
@@ -10,6 +10,10 @@ import (
 )
 
 func reslice[T any](v []byte, length, rem int) []T {
+	if length == 0 {
+		// v can be smaller than T, so it is not valid to point to it.
+		return make([]T, rem)
+	}
 	var ptr unsafe.Pointer
 	if len(v) != 0 {
 		ptr = unsafe.Pointer(&v[0])
-- 
2.43.0


From 44f03a89d61e424e865e14a1e0f834c7af0374f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:49 +0000
Subject: [PATCH 28/30] fix: convert full colour channels to exactly 1

---
 math.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/math.go b/math.go
index 1a4904d..efd4530 100644
--- a/math.go
+++ b/math.go
@@ -130,7 +130,7 @@ func linearize(v float32) float32 {
 	if v <= 0.04045 {
 		return float32(v / 12.92)
 	}
-	return float32(math.Pow(float64(v+0.055)/1.055, 2.4))
+	return float32(math.Pow((float64(v)+0.055)/1.055, 2.4))
 }
 
 func deliniarize(v float32) float32 {
-- 
2.43.0


From f116ae9e1c6cde078df6ca2e588f0af1f9a39b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:53 +0000
Subject: [PATCH 29/30] fix: don't reserve memory for the absent bytes of a
 truncated binary chunk

---
 decoder.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/decoder.go b/decoder.go
index 5ce9bc6..e864926 100644
--- a/decoder.go
+++ b/decoder.go
@@ -204,9 +204,16 @@ func (d *Decoder) decodeBinaryBuffer(buffer *Buffer) error {
 			return errors.New("gltf: GLB BIN chunk exceeds the container length")
 		}
 	}
-	buffer.Data = make([]byte, buffer.ByteLength)
-	_, err = io.ReadFull(d.r, buffer.Data)
-	return err
+	// Let the memory grow with the input, which might be shorter than it declares.
+	var data bytes.Buffer
+	if _, err = io.CopyN(&data, d.r, int64(buffer.ByteLength)); err != nil {
+		if err == io.EOF {
+			err = io.ErrUnexpectedEOF
+		}
+		return err
+	}
+	buffer.Data = data.Bytes()[:buffer.ByteLength:buffer.ByteLength]
+	return nil
 }
 
 func (d *Decoder) validateBuffer(buffer *Buffer) error {
-- 
2.43.0


From 7ba8f7495627efe5cd698323e5d41cd8d346144c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:14 +0000
Subject: [PATCH 30/30] fix: keep URLs with an empty authority from becoming
 file names

---
 decoder.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/decoder.go b/decoder.go
index e864926..9fe78b0 100644
--- a/decoder.go
+++ b/decoder.go
@@ -266,8 +266,9 @@ func sanitizeURI(uri string) (string, bool) {
 		if err != nil {
 			return "", false
 		}
-	} else {
-		uri = u.String()
+	} else if s := u.String(); isURL(s) || !isURL(uri) {
+		// String drops an empty authority, after which it would no longer be a URL.
+		uri = s
 	}
 	return uri, true
 }
-- 
2.43.0

