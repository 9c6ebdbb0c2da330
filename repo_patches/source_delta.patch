From 2db9125513659559485ddaaf2a7bded01b6d7b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:23 +0000
Subject: [PATCH 01/56] fix: read the halves of a decimal128 value in wire
 order

---
 value.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/value.go b/value.go
index 6e0ca90..e44fb88 100644
--- a/value.go
+++ b/value.go
@@ -1148,9 +1148,10 @@ func (v *Value) Decimal128() types.Decimal128 {
 		panic(bsonerr.NewElementTypeError("compact.Element.Decimal128", bsontype.Type(v.data[v.start])))
 	}
 
+	// the low 64 bits come first on the wire
 	return types.NewDecimal128(
-		binary.LittleEndian.Uint64(v.data[v.offset:v.offset+8]),
-		binary.LittleEndian.Uint64(v.data[v.offset+8:v.offset+16]))
+		binary.LittleEndian.Uint64(v.data[v.offset+8:v.offset+16]),
+		binary.LittleEndian.Uint64(v.data[v.offset:v.offset+8]))
 }
 
 // Decimal128OK is the same as Decimal128, except that it returns a boolean
-- 
2.43.0


From 5bbce01d2f242731069dbf8a3cbd573c22271e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:24 +0000
Subject: [PATCH 02/56] fix: encode mutable arrays as arrays when read through
 ReaderArray

---
 value.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/value.go b/value.go
index e44fb88..1339155 100644
--- a/value.go
+++ b/value.go
@@ -580,12 +580,22 @@ func (v *Value) getReader() Reader {
 		l := readi32(v.data[v.offset : v.offset+4])
 		r = Reader(v.data[v.offset : v.offset+uint32(l)])
 	} else {
-		scope, err := v.d.MarshalBSON()
+		var (
+			payload []byte
+			err     error
+		)
+
+		if bsontype.Type(v.data[v.start]) == bsontype.Array {
+			payload, err = (&Array{doc: v.d}).MarshalBSON()
+		} else {
+			payload, err = v.d.MarshalBSON()
+		}
+
 		if err != nil {
 			panic(err)
 		}
 
-		r = Reader(scope)
+		r = Reader(payload)
 	}
 
 	return r
-- 
2.43.0


From 817ec4ee3699f603052ad54d2db27634d8608285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:01 +0000
Subject: [PATCH 03/56] fix: validate nested lengths, terminators and bounds
 when reading BSON

---
 document.go |  3 +++
 iterator.go | 11 ++++++++---
 reader.go   | 30 ++++++++++++++--------------
 value.go    | 57 ++++++++++++++++++++++++++++++++++++++++++++++-------
 4 files changed, 76 insertions(+), 25 deletions(-)

diff --git a/document.go b/document.go
index cb833c7..75fc350 100644
--- a/document.go
+++ b/document.go
@@ -317,6 +317,9 @@ func (d *Document) ReadFrom(r io.Reader) (int64, error) {
 	}
 
 	givenLength := readi32(sizeBuf)
+	if givenLength < 5 {
+		return total, bsonerr.InvalidLength
+	}
 
 	b := stw.NewSlice(bufpool.Get())
 	b.Grow(int(givenLength))
diff --git a/iterator.go b/iterator.go
index 13b7982..644433d 100644
--- a/iterator.go
+++ b/iterator.go
@@ -69,11 +69,12 @@ func newReaderIterator(r Reader) (*readerIterator, error) {
 	}
 
 	givenLength := readi32(r[0:4])
-	if len(r) < int(givenLength) {
+	if len(r) < int(givenLength) || givenLength < 5 {
 		return nil, bsonerr.InvalidLength
 	}
 
-	itr.r = r
+	// no element may reach past the end of its document.
+	itr.r = r[:givenLength]
 	itr.pos = 4
 	itr.end = uint32(givenLength)
 
@@ -90,6 +91,10 @@ func (itr *readerIterator) Next() bool {
 	}
 
 	if itr.r[itr.pos] == '\x00' {
+		if itr.pos != itr.end-1 {
+			itr.err = bsonerr.InvalidReadOnlyDocument
+		}
+
 		return false
 	}
 
@@ -111,7 +116,7 @@ func (itr *readerIterator) Next() bool {
 		},
 	}
 
-	n, err = itr.elem.value.validate(true)
+	n, err = itr.elem.value.validate(false)
 	itr.pos += n
 
 	if err != nil {
diff --git a/reader.go b/reader.go
index 35cb6c7..739c737 100644
--- a/reader.go
+++ b/reader.go
@@ -48,7 +48,7 @@ func NewFromIOReader(r io.Reader) (Reader, error) {
 	}
 
 	length := readi32(lengthBytes[:])
-	if length < 0 {
+	if length < 5 {
 		return nil, bsonerr.InvalidLength
 	}
 
@@ -71,16 +71,7 @@ func NewFromIOReader(r io.Reader) (Reader, error) {
 // Validate validates the document. This method only validates the first document in
 // the slice, to validate other documents, the slice must be resliced.
 func (r Reader) Validate() (size uint32, err error) {
-	return r.readElements(func(elem *Element) error {
-		var err error
-		switch elem.value.Type() {
-		case '\x03':
-			_, err = elem.value.ReaderDocument().Validate()
-		case '\x04':
-			_, err = elem.value.ReaderArray().Validate()
-		}
-		return err
-	})
+	return r.readElements(nil)
 }
 
 // validateKey will ensure the key is valid and return the length of the key
@@ -188,8 +179,10 @@ func (r Reader) Iterator() iter.Seq2[*Element, error] {
 		return irt.Two[*Element](nil, err)
 	}
 	return func(yield func(*Element, error) bool) {
-		for iter.Next() && yield(iter.Value(), nil) {
-			continue
+		for iter.Next() {
+			if !yield(iter.Value(), nil) {
+				return
+			}
 		}
 		if err := iter.Close(); err != nil {
 			yield(nil, err)
@@ -244,10 +237,13 @@ func (r Reader) readElements(f func(e *Element) error) (uint32, error) {
 	// slice without reslicing if we have pos as a parameter and use that to
 	// get the length of the document.
 	givenLength := readi32(r[0:4])
-	if len(r) < int(givenLength) || givenLength < 0 {
+	if len(r) < int(givenLength) || givenLength < 5 {
 		return 0, bsonerr.InvalidLength
 	}
 
+	// no element may reach past the end of its document.
+	r = r[:givenLength]
+
 	pos := uint32(4)
 	end := uint32(givenLength)
 
@@ -265,6 +261,10 @@ func (r Reader) readElements(f func(e *Element) error) (uint32, error) {
 		}
 
 		if r[pos] == '\x00' {
+			if pos != end-1 {
+				return pos, bsonerr.InvalidReadOnlyDocument
+			}
+
 			break
 		}
 
@@ -280,7 +280,7 @@ func (r Reader) readElements(f func(e *Element) error) (uint32, error) {
 		elemValStart = pos
 		elem = newElement(elemStart, elemValStart)
 		elem.value.data = r
-		n, err = elem.value.validate(true)
+		n, err = elem.value.validate(false)
 		pos += n
 
 		if err != nil {
diff --git a/value.go b/value.go
index 1339155..4ee70d3 100644
--- a/value.go
+++ b/value.go
@@ -218,7 +218,12 @@ func (v *Value) validate(sizeOnly bool) (uint32, error) {
 		l := readi32(v.data[v.offset : v.offset+4])
 		total += 4
 
-		if int32(v.offset)+4+l > int32(len(v.data)) {
+		// the length includes the null terminator.
+		if l < 1 {
+			return total, bsonerr.InvalidString
+		}
+
+		if int64(v.offset)+4+int64(l) > int64(len(v.data)) {
 			return total, errTooSmall
 		}
 		// We check if the value that is the last element of the string is a
@@ -253,7 +258,7 @@ func (v *Value) validate(sizeOnly bool) (uint32, error) {
 			return total, bsonerr.InvalidReadOnlyDocument
 		}
 
-		if int32(v.offset)+l > int32(len(v.data)) {
+		if int64(v.offset)+int64(l) > int64(len(v.data)) {
 			return total, errTooSmall
 		}
 
@@ -292,7 +297,7 @@ func (v *Value) validate(sizeOnly bool) (uint32, error) {
 			return total, bsonerr.InvalidReadOnlyDocument
 		}
 
-		if int32(v.offset)+l > int32(len(v.data)) {
+		if int64(v.offset)+int64(l) > int64(len(v.data)) {
 			return total, errTooSmall
 		}
 
@@ -320,10 +325,19 @@ func (v *Value) validate(sizeOnly bool) (uint32, error) {
 			return total, bsonerr.InvalidBinarySubtype
 		}
 
-		if int32(v.offset)+5+l > int32(len(v.data)) {
+		if l < 0 {
+			return total, bsonerr.InvalidLength
+		}
+
+		if int64(v.offset)+5+int64(l) > int64(len(v.data)) {
 			return total, errTooSmall
 		}
 
+		// The old binary subtype repeats the length of its payload.
+		if v.data[v.offset+4] == '\x02' && (l < 4 || readi32(v.data[v.offset+5:v.offset+9]) != l-4) {
+			return total, bsonerr.InvalidLength
+		}
+
 		total += uint32(l)
 	case '\x07':
 		if int(v.offset+12) > len(v.data) {
@@ -374,10 +388,18 @@ func (v *Value) validate(sizeOnly bool) (uint32, error) {
 		l := readi32(v.data[v.offset : v.offset+4])
 		total += 4
 
-		if int32(v.offset)+4+l+12 > int32(len(v.data)) {
+		if l < 1 {
+			return total, bsonerr.InvalidString
+		}
+
+		if int64(v.offset)+4+int64(l)+12 > int64(len(v.data)) {
 			return total, errTooSmall
 		}
 
+		if !sizeOnly && v.data[v.offset+4+uint32(l)-1] != 0x00 {
+			return total, bsonerr.InvalidString
+		}
+
 		total += uint32(l) + 12
 	case '\x0F':
 		if v.d != nil {
@@ -393,7 +415,11 @@ func (v *Value) validate(sizeOnly bool) (uint32, error) {
 			total += 8
 			sLength := readi32(v.data[v.offset+4 : v.offset+8])
 
-			if int(sLength) > len(v.data)+8 {
+			if sLength < 1 {
+				return total, bsonerr.InvalidString
+			}
+
+			if int64(v.offset)+8+int64(sLength) > int64(len(v.data)) {
 				return total, errTooSmall
 			}
 
@@ -420,11 +446,20 @@ func (v *Value) validate(sizeOnly bool) (uint32, error) {
 		l := readi32(v.data[v.offset : v.offset+4])
 		total += 4
 
-		if int32(v.offset)+l > int32(len(v.data)) {
+		if int64(v.offset)+int64(l) > int64(len(v.data)) {
 			return total, errTooSmall
 		}
 
+		// the length includes itself.
+		if l < 4 {
+			return total, bsonerr.InvalidLength
+		}
+
 		if !sizeOnly {
+			if int(v.offset+8) > len(v.data) {
+				return total, errTooSmall
+			}
+
 			sLength := readi32(v.data[v.offset+4 : v.offset+8])
 			total += 4
 			// If the length of the string is larger than the total length of the
@@ -436,6 +471,10 @@ func (v *Value) validate(sizeOnly bool) (uint32, error) {
 			if sLength > l-13 {
 				return total, bsonerr.StringLargerThanContainer
 			}
+
+			if sLength < 1 {
+				return total, bsonerr.InvalidString
+			}
 			// We check if the value that is the last element of the string is a
 			// null terminator. We take the value offset, add 4 to account for the
 			// length, add the length of the string, and subtract one since the size
@@ -452,6 +491,10 @@ func (v *Value) validate(sizeOnly bool) (uint32, error) {
 				return total, err
 			}
 
+			if total != uint32(l) {
+				return total, bsonerr.InvalidLength
+			}
+
 			break
 		}
 
-- 
2.43.0


From b03cee74bb1a0263e7decb88ce4c642f02046432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:00 +0000
Subject: [PATCH 04/56] fix: do not allocate the claimed length of a document
 before its data arrives

---
 document.go | 23 +++++++++++++++++------
 reader.go   | 10 +---------
 2 files changed, 18 insertions(+), 15 deletions(-)

diff --git a/document.go b/document.go
index 75fc350..5900913 100644
--- a/document.go
+++ b/document.go
@@ -321,12 +321,8 @@ func (d *Document) ReadFrom(r io.Reader) (int64, error) {
 		return total, bsonerr.InvalidLength
 	}
 
-	b := stw.NewSlice(bufpool.Get())
-	b.Grow(int(givenLength))
-
-	copy(b[0:4], sizeBuf)
-	n, err = io.ReadFull(r, b[4:])
-	total += int64(n)
+	b, err := readBody(r, sizeBuf, givenLength)
+	total += int64(len(b)) - 4
 
 	if err != nil {
 		return total, err
@@ -335,6 +331,21 @@ func (d *Document) ReadFrom(r io.Reader) (int64, error) {
 	return total, d.UnmarshalBSON(b)
 }
 
+// readBody reads the remainder of a document of the given length whose header
+// has already been read, with the errors of io.ReadFull. The buffer grows with
+// the data that actually arrives, whatever length the header claims.
+func readBody(r io.Reader, header []byte, length int32) ([]byte, error) {
+	buf := bytes.NewBuffer(make([]byte, 0, min(int(length), 64*1024)))
+	buf.Write(header)
+
+	n, err := io.CopyN(buf, r, int64(length)-int64(len(header)))
+	if err == io.EOF && n > 0 {
+		err = io.ErrUnexpectedEOF
+	}
+
+	return buf.Bytes(), err
+}
+
 // String implements the fmt.Stringer interface.
 func (d *Document) String() string {
 	buf := &bytes.Buffer{}
diff --git a/reader.go b/reader.go
index 739c737..3003075 100644
--- a/reader.go
+++ b/reader.go
@@ -52,19 +52,11 @@ func NewFromIOReader(r io.Reader) (Reader, error) {
 		return nil, bsonerr.InvalidLength
 	}
 
-	reader := make([]byte, length)
-
-	copy(reader, lengthBytes[:])
-
-	count, err = io.ReadFull(r, reader[4:])
+	reader, err := readBody(r, lengthBytes, length)
 	if err != nil {
 		return nil, err
 	}
 
-	if int32(count) != length-4 {
-		return nil, bsonerr.InvalidLength
-	}
-
 	return reader, nil
 }
 
-- 
2.43.0


From cdd63266aee44480a45fc87143c86324e6eee353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:29 +0000
Subject: [PATCH 05/56] fix: refresh the map view of a document after set,
 delete and reload

---
 document.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/document.go b/document.go
index 5900913..ec4274c 100644
--- a/document.go
+++ b/document.go
@@ -101,6 +101,8 @@ func (d *Document) Set(elem *Element) *Document {
 	for idx, e := range d.elems {
 		if elem.Key() == e.Key() {
 			d.elems[idx] = elem
+			d.cacheValid = false
+
 			return d
 		}
 	}
@@ -119,10 +121,12 @@ func (d *Document) Delete(key string) *Element {
 		if d.elems[idx].Key() == key {
 			elem := d.elems[idx]
 			d.elems = append(d.elems[:idx], d.elems[idx+1:]...)
+			d.cacheValid = false
+
 			return elem
 		}
 	}
-	d.cacheValid = false
+
 	return nil
 }
 
@@ -288,16 +292,19 @@ func (d *Document) MarshalBSON() ([]byte, error) {
 func (d *Document) UnmarshalBSON(b []byte) error {
 	seq := Reader(b).Iterator()
 
-	d.elems = make([]*Element, 0, 128)
+	elems := make([]*Element, 0, 128)
 
 	for value, err := range seq {
 		if err != nil {
 			return err
 		}
 
-		d.elems = append(d.elems, value)
+		elems = append(elems, value)
 	}
 
+	d.elems = elems
+	d.cacheValid = false
+
 	return nil
 }
 
-- 
2.43.0


From f4b853b88dcb3906504cafafd88b49599eff7158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:45 +0000
Subject: [PATCH 06/56] fix: keep the key of an element when its value is
 replaced

---
 x_element.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/x_element.go b/x_element.go
index aaa8ed2..9061d7f 100644
--- a/x_element.go
+++ b/x_element.go
@@ -1,4 +1,11 @@
 package birch
 
-// SetValue makes it possible to modify the value of an element in place
-func (e *Element) SetValue(v *Value) { e.value = v }
+// SetValue makes it possible to modify the value of an element in
+// place. The key of the element does not change.
+func (e *Element) SetValue(v *Value) {
+	if elem := convertValueToElem(e.Key(), v); elem != nil {
+		v = elem.value
+	}
+
+	e.value = v
+}
-- 
2.43.0


From a208871231329dbc7d1f104fab9a67116726e1a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:10 +0000
Subject: [PATCH 07/56] fix: reject keys that contain a null byte and
 mismatched map keys in validation

---
 element.go   | 4 +++-
 unmarshal.go | 3 ++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/element.go b/element.go
index 9424d8f..d0371d2 100644
--- a/element.go
+++ b/element.go
@@ -89,7 +89,9 @@ func (e *Element) validateKey() (uint32, error) {
 		total++
 	}
 
-	if pos == end || e.value.data[pos] != '\x00' {
+	// the first null byte must be the terminator, the key ends there for
+	// every reader.
+	if pos == end || e.value.data[pos] != '\x00' || pos+1 != e.value.offset {
 		return total, bsonerr.InvalidKey
 	}
 	total++
diff --git a/unmarshal.go b/unmarshal.go
index 8710b69..a372d01 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -27,7 +27,8 @@ func (dm DocumentMap) Validate() error {
 		elem := dm[key]
 		ekey := elem.Key()
 		_, err := elem.Validate()
-		ec.Wrapf(err, "for mapKey=%q, invalid element", ekey)
+		ec.Wrapf(err, "for mapKey=%q, invalid element", key)
+		ec.Whenf(err == nil && key != ekey, "for mapKey=%q, element has key %q", key, ekey)
 	}
 
 	return ec.Resolve()
-- 
2.43.0


From 403f9ae607cc9fc7067ea2e0d61697113cbe46d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:30 +0000
Subject: [PATCH 08/56] fix: only a zero object id is an empty value

---
 value.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/value.go b/value.go
index 4ee70d3..debf022 100644
--- a/value.go
+++ b/value.go
@@ -150,7 +150,7 @@ func (v *Value) IsEmpty() bool {
 	case bsontype.Undefined:
 		return true
 	case bsontype.ObjectID:
-		return true
+		return v.ObjectID().IsZero()
 	case bsontype.Boolean:
 		return !v.Boolean()
 	case bsontype.DateTime:
-- 
2.43.0


From fb0e29250b8ac2731a2b180fd01df1af372b8800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:58 +0000
Subject: [PATCH 09/56] fix: refresh the map view after an append that panics
 part way

---
 document.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/document.go b/document.go
index ec4274c..eef7924 100644
--- a/document.go
+++ b/document.go
@@ -60,6 +60,8 @@ func (d *Document) Len() int { return len(d.elems) }
 // If a nil element is inserted and this method panics, it does not remove the
 // previously added elements.
 func (d *Document) Append(elems ...*Element) *Document {
+	d.cacheValid = false
+
 	for _, elem := range elems {
 		if elem == nil {
 			panic(bsonerr.NilElement)
@@ -67,7 +69,7 @@ func (d *Document) Append(elems ...*Element) *Document {
 
 		d.elems = append(d.elems, elem)
 	}
-	d.cacheValid = false
+
 	return d
 }
 
-- 
2.43.0


From 6f100a367bef47714b7448d17f39f07b0962cc7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:16 +0000
Subject: [PATCH 10/56] fix: do not truncate large negative integers to 32 bits

---
 x_constructor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x_constructor.go b/x_constructor.go
index 5d0dcfc..926f820 100644
--- a/x_constructor.go
+++ b/x_constructor.go
@@ -258,7 +258,7 @@ func (ElementConstructorError) DocumentMarshaler(key string, val DocumentMarshal
 }
 
 func (ElementConstructor) Int(key string, i int) *Element {
-	if i < math.MaxInt32 {
+	if i >= math.MinInt32 && i < math.MaxInt32 {
 		return EC.Int32(key, int32(i))
 	}
 
-- 
2.43.0


From e2d7b26e591e052fc46ab4b0f1a0f6eeeee1b9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:55 +0000
Subject: [PATCH 11/56] fix: report unrepresentable nested values from the
 error-returning converters

---
 constructor.go   | 30 +++++++++++++++++++++++++++++-
 x_constructor.go |  5 +++++
 2 files changed, 34 insertions(+), 1 deletion(-)

diff --git a/constructor.go b/constructor.go
index 2c8c066..c4d207c 100644
--- a/constructor.go
+++ b/constructor.go
@@ -11,6 +11,7 @@ import (
 	"math"
 	"time"
 
+	"github.com/tychoish/birch/bsonerr"
 	"github.com/tychoish/birch/bsontype"
 	"github.com/tychoish/birch/elements"
 	"github.com/tychoish/birch/jsonx"
@@ -131,7 +132,12 @@ func (ElementConstructor) Interface(key string, value any) *Element {
 	case []*Value:
 		elem = EC.Array(key, MakeArray(len(t)).Append(t...))
 	case *jsonx.Document:
-		elem = EC.SubDocument(key, DC.JSONX(t))
+		var doc *Document
+
+		doc, err = DCE.JSONX(t)
+		if err == nil {
+			elem = EC.SubDocument(key, doc)
+		}
 	case *Document:
 		if t != nil {
 			elem = EC.SubDocument(key, t)
@@ -180,6 +186,28 @@ func (ElementConstructorError) Interface(key string, value any) (*Element, error
 		default:
 			return EC.Int64(key, int64(t)), nil
 		}
+	case map[string]any:
+		doc, err := DCE.MapInterface(t)
+		if err != nil {
+			return nil, err
+		}
+
+		return EC.SubDocument(key, doc), nil
+	case map[any]any:
+		doc, err := DCE.MapInterfaceInterface(t)
+		if err != nil {
+			return nil, err
+		}
+
+		return EC.SubDocument(key, doc), nil
+	case []any:
+		return ECE.SliceInterface(key, t)
+	case *Value:
+		if elem := EC.Value(key, t); elem != nil {
+			return elem, nil
+		}
+
+		return nil, bsonerr.UninitializedElement
 	case DocumentMarshaler:
 		return ECE.DocumentMarshaler(key, t)
 	case Marshaler:
diff --git a/x_constructor.go b/x_constructor.go
index 926f820..b6e76be 100644
--- a/x_constructor.go
+++ b/x_constructor.go
@@ -6,6 +6,7 @@ import (
 	"math"
 	"time"
 
+	"github.com/tychoish/birch/bsonerr"
 	"github.com/tychoish/fun/erc"
 )
 
@@ -254,6 +255,10 @@ func (ElementConstructorError) DocumentMarshaler(key string, val DocumentMarshal
 		return nil, err
 	}
 
+	if doc == nil {
+		return nil, bsonerr.NilDocument
+	}
+
 	return EC.SubDocument(key, doc), nil
 }
 
-- 
2.43.0


From 8dec6a76fa26128025eec05d57ab00a88156753e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:41 +0000
Subject: [PATCH 12/56] fix: do not write into an element while encoding it

---
 element.go | 26 ++++++++------------------
 1 file changed, 8 insertions(+), 18 deletions(-)

diff --git a/element.go b/element.go
index d0371d2..a664c75 100644
--- a/element.go
+++ b/element.go
@@ -227,14 +227,18 @@ func (e *Element) writeByteSlice(key bool, start uint, size uint32, b []byte) (i
 
 			codeWithScopeLength := lengthWithoutScope + int32(scopeLength)
 
-			if _, err = elements.Int32.Encode(uint(e.value.offset), e.value.data, codeWithScopeLength); err != nil {
-				return int64(n), err
-			}
-
 			codeEnd := e.value.offset + uint32(lengthWithoutScope)
 			n += copy(
 				b[start:],
 				e.value.data[startToWrite:codeEnd])
+
+			// the length prefix depends on the current scope, it is
+			// corrected in the output: the element does not change.
+			lengthStart := start + uint(e.value.offset) - startToWrite
+			if _, err = elements.Int32.Encode(lengthStart, b, codeWithScopeLength); err != nil {
+				return int64(n), err
+			}
+
 			start += uint(n)
 
 			nn, err := e.value.d.writeByteSlice(start, scopeLength, b)
@@ -247,20 +251,6 @@ func (e *Element) writeByteSlice(key bool, start uint, size uint32, b []byte) (i
 			break
 		}
 
-		// Get length of scope
-		scopeStart := codeStart + 4 + uint32(codeLength)
-		scopeLength := readi32(e.value.data[scopeStart : scopeStart+4])
-
-		// Calculate end of entire CodeWithScope value
-		codeWithScopeEnd := int32(scopeStart) + scopeLength
-
-		// Set the length of the value
-		codeWithScopeLength := codeWithScopeEnd - int32(e.value.offset)
-
-		if _, err := elements.Int32.Encode(uint(e.value.offset), e.value.data, codeWithScopeLength); err != nil {
-			return 0, err
-		}
-
 		fallthrough
 	default:
 		n = copy(b[start:], e.value.data[startToWrite:e.value.start+size])
-- 
2.43.0


From 95d350f49e8bc7df9b9ffd17580205fa227d5ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:41 +0000
Subject: [PATCH 13/56] fix: make copies of values and elements independent of
 the original

---
 value.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/value.go b/value.go
index debf022..08d01df 100644
--- a/value.go
+++ b/value.go
@@ -41,14 +41,27 @@ type Value struct {
 }
 
 // Copy constructs an entirely new value object with the same data as
-// the original.
+// the original. Changes to documents and arrays nested in either value
+// do not affect the other.
 func (v *Value) Copy() *Value {
-	return &Value{
+	if v == nil {
+		return nil
+	}
+
+	out := &Value{
 		start:  v.start,
 		offset: v.offset,
 		data:   v.data,
-		d:      v.d,
 	}
+
+	if v.d != nil {
+		out.d = DC.Make(len(v.d.elems))
+		for _, elem := range v.d.elems {
+			out.d.Append(elem.Copy())
+		}
+	}
+
+	return out
 }
 
 // Set changes the internal representation of a value to have the
-- 
2.43.0


From 835d0047911c091da8ed6055c0774f21d33530ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:42 +0000
Subject: [PATCH 14/56] fix: reject out of range decimals and read
 non-canonical significands as zero

---
 types/decimal.go | 65 +++++++++++++++++++++++++++++-------------------
 1 file changed, 39 insertions(+), 26 deletions(-)

diff --git a/types/decimal.go b/types/decimal.go
index 64bcad2..5de2313 100644
--- a/types/decimal.go
+++ b/types/decimal.go
@@ -64,6 +64,11 @@ func (d Decimal128) String() string {
 		// Bits: 1*sign 14*exponent 113*significand
 		e = int(d.h>>49&(1<<14-1)) - 6176
 		h = d.h & (1<<49 - 1)
+
+		if outOfRange(h, l) {
+			// The spec treats these as zero as well.
+			h, l = 0, 0
+		}
 	}
 
 	// Would be handled by the logic below, but that's trivial and common.
@@ -147,6 +152,13 @@ var dNaN = Decimal128{0x1F << 58, 0}
 var dPosInf = Decimal128{0x1E << 58, 0}
 var dNegInf = Decimal128{0x3E << 58, 0}
 
+// outOfRange reports if a significand needs more than 34 digits.
+func outOfRange(h, l uint64) bool {
+	const maxh, maxl = 0x1ed09bead87c0, 0x378d8e63ffffffff // 10^34-1
+
+	return h > maxh || h == maxh && l > maxl
+}
+
 func dErr(s string) (Decimal128, error) {
 	return dNaN, fmt.Errorf("cannot parse %q as a decimal128", s)
 }
@@ -241,7 +253,7 @@ func ParseDecimal128(s string) (Decimal128, error) {
 				break
 			}
 
-			if s[i] < '0' || s[i] > '9' || e > 0 {
+			if s[i] < '0' || s[i] > '9' {
 				return dErr(orig)
 			}
 
@@ -299,43 +311,44 @@ func ParseDecimal128(s string) (Decimal128, error) {
 		}
 
 		e += n
-		for e < -6176 {
-			// Subnormal.
-			var div uint32 = 1
-			for div < 1e9 && e < -6176 {
-				div *= 10
-				e++
-			}
+	}
 
-			var rem uint32
-			h, l, rem = divmod(h, l, div)
+	if i < len(s) {
+		return dErr(orig)
+	}
 
-			if rem > 0 {
-				return dErr(orig)
-			}
+	for e < -6176 {
+		// Subnormal.
+		var div uint32 = 1
+		for div < 1e9 && e < -6176 {
+			div *= 10
+			e++
 		}
 
-		for e > 6111 {
-			// Clamped.
-			var mul uint32 = 1
-			for mul < 1e9 && e > 6111 {
-				mul *= 10
-				e--
-			}
+		var rem uint32
+		h, l, rem = divmod(h, l, div)
 
-			h, l, ovr = muladd(h, l, mul, 0)
+		if rem > 0 {
+			return dErr(orig)
+		}
+	}
 
-			if ovr > 0 || h&((1<<15-1)<<49) > 0 {
-				return dErr(orig)
-			}
+	for e > 6111 {
+		// Clamped.
+		var mul uint32 = 1
+		for mul < 1e9 && e > 6111 {
+			mul *= 10
+			e--
 		}
 
-		if e < -6176 || e > 6111 {
+		h, l, ovr = muladd(h, l, mul, 0)
+
+		if ovr > 0 || h&((1<<15-1)<<49) > 0 {
 			return dErr(orig)
 		}
 	}
 
-	if i < len(s) {
+	if outOfRange(h, l) {
 		return dErr(orig)
 	}
 
-- 
2.43.0


From 387340a5683ebb8a1ea178a612ba25d4e9df4314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:17 +0000
Subject: [PATCH 15/56] fix: escape keys and write exact numbers in JSON

---
 jsonx/marhsal.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/jsonx/marhsal.go b/jsonx/marhsal.go
index 041c984..a79b0d7 100644
--- a/jsonx/marhsal.go
+++ b/jsonx/marhsal.go
@@ -8,6 +8,10 @@ import (
 )
 
 func (d *Document) MarshalJSON() ([]byte, error) {
+	if d == nil {
+		return nil, errors.New("cannot marshal nil document")
+	}
+
 	out := []byte{'{'}
 
 	first := true
@@ -16,7 +20,8 @@ func (d *Document) MarshalJSON() ([]byte, error) {
 			out = append(out, ',')
 		}
 
-		out = append(out, []byte(fmt.Sprintf(`"%s":`, elem.key))...)
+		out = append(out, writeJSONString([]byte(elem.key))...)
+		out = append(out, ':')
 
 		val, err := elem.value.MarshalJSON()
 		if err != nil {
@@ -70,7 +75,10 @@ func (v *Value) MarshalJSON() ([]byte, error) {
 		case int64, int32, int:
 			return []byte(fmt.Sprintf(`%d`, v.value)), nil
 		case float64, float32:
-			return []byte(fmt.Sprintf(`%f`, v.value)), nil
+			// encoding/json writes the shortest form that
+			// reads back as the same number, and rejects
+			// the values that json cannot represent.
+			return json.Marshal(v.value)
 		default:
 			return nil, fmt.Errorf("unsupported number type %T", v.value)
 		}
-- 
2.43.0


From 02820259eb976e912933ff2bc5f476ef9e5ca5d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:30 +0000
Subject: [PATCH 16/56] fix: reject malformed numbers, unpaired surrogates
 losing text and endless nesting in JSON

---
 jsonx/internal/gjson.go | 37 ++++++++++++++++++++++++++++++++++---
 jsonx/unmarshal.go      |  3 ++-
 2 files changed, 36 insertions(+), 4 deletions(-)

diff --git a/jsonx/internal/gjson.go b/jsonx/internal/gjson.go
index 92e4e6a..636f985 100644
--- a/jsonx/internal/gjson.go
+++ b/jsonx/internal/gjson.go
@@ -871,9 +871,12 @@ func unescape(json string) string { //, error) {
 					// need another code
 					if len(json[i:]) >= 6 && json[i] == '\\' &&
 						json[i+1] == 'u' {
-						// we expect it to be correct so just consume it
+						// only consume the second code when
+						// the two form a pair
 						r = utf16.DecodeRune(r, runeit(json[i+2:]))
-						i += 6
+						if r != utf8.RuneError {
+							i += 6
+						}
 					}
 				}
 				// provide enough space to encode the largest utf8 possible
@@ -1184,7 +1187,7 @@ func validnumber(data []byte, i int) (outi int, ok bool) {
 		i++
 	}
 	// int
-	if i == len(data) {
+	if i == len(data) || data[i] < '0' || data[i] > '9' {
 		return i, false
 	}
 	if data[i] == '0' {
@@ -1276,10 +1279,38 @@ func validnull(data []byte, i int) (outi int, ok bool) {
 //
 // If working with bytes, this method preferred over ValidBytes(string(data))
 func validateJSON(json []byte) bool {
+	if nestingDepth(json) > maxNestingDepth {
+		return false
+	}
+
 	_, ok := validpayload(json, 0)
 	return ok
 }
 
+// maxNestingDepth is the limit that encoding/json has. The parser is
+// recursive, and would exhaust the stack without a limit.
+const maxNestingDepth = 10000
+
+func nestingDepth(json []byte) int {
+	var depth, deepest int
+	var quoted bool
+	for i := 0; i < len(json); i++ {
+		switch {
+		case quoted && json[i] == '\\':
+			i++
+		case json[i] == '"':
+			quoted = !quoted
+		case quoted:
+		case json[i] == '{' || json[i] == '[':
+			depth++
+			deepest = max(deepest, depth)
+		case json[i] == '}' || json[i] == ']':
+			depth--
+		}
+	}
+	return deepest
+}
+
 func parseUint(s string) (n uint64, ok bool) {
 	var i int
 	if i == len(s) {
diff --git a/jsonx/unmarshal.go b/jsonx/unmarshal.go
index 5f36b47..ef44e7e 100644
--- a/jsonx/unmarshal.go
+++ b/jsonx/unmarshal.go
@@ -3,6 +3,7 @@ package jsonx
 import (
 	"encoding/json"
 	"fmt"
+	"math"
 
 	"errors"
 
@@ -93,7 +94,7 @@ func getValueForResult(value internal.Result) (*Value, error) {
 		num := json.Number(value.String())
 		if igr, err := num.Int64(); err == nil {
 			return VC.Int(int(igr)), nil
-		} else if df, err := num.Float64(); err == nil {
+		} else if df, err := num.Float64(); err == nil && !math.IsInf(df, 0) {
 			return VC.Float64(df), nil
 		}
 
-- 
2.43.0


From 55c17389742d9285bbc3f0b69beda684a588c89e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:07:20 +0000
Subject: [PATCH 17/56] fix: write binary and date values exactly and report
 malformed extended JSON

---
 x_json_marshal.go   |  22 +++-
 x_json_unmarshal.go | 287 +++++++++++++++++++++++++++-----------------
 2 files changed, 198 insertions(+), 111 deletions(-)

diff --git a/x_json_marshal.go b/x_json_marshal.go
index 45462c6..c479302 100644
--- a/x_json_marshal.go
+++ b/x_json_marshal.go
@@ -1,6 +1,9 @@
 package birch
 
 import (
+	"encoding/base64"
+	"fmt"
+	"strconv"
 	"time"
 
 	"github.com/tychoish/birch/bsontype"
@@ -55,8 +58,8 @@ func (v *Value) toJSON() *jsonx.Value {
 
 		return jsonx.VC.ObjectFromElements(
 			jsonx.EC.ObjectFromElements("$binary",
-				jsonx.EC.String("base64", string(t)),
-				jsonx.EC.String("subType", string(d)),
+				jsonx.EC.String("base64", base64.StdEncoding.EncodeToString(d)),
+				jsonx.EC.String("subType", fmt.Sprintf("%02x", t)),
 			),
 		)
 	case bsontype.Undefined:
@@ -66,7 +69,20 @@ func (v *Value) toJSON() *jsonx.Value {
 	case bsontype.Boolean:
 		return jsonx.VC.Boolean(v.Boolean())
 	case bsontype.DateTime:
-		return jsonx.VC.ObjectFromElements(jsonx.EC.String("$date", v.Time().Format(time.RFC3339)))
+		t := v.Time()
+		if _, offset := t.Zone(); offset%60 != 0 {
+			t = t.UTC() // RFC 3339 has no offsets with seconds.
+		}
+
+		if year := t.Year(); year < 0 || year > 9999 {
+			return jsonx.VC.ObjectFromElements(
+				jsonx.EC.ObjectFromElements("$date",
+					jsonx.EC.String("$numberLong", strconv.FormatInt(v.DateTime(), 10)),
+				),
+			)
+		}
+
+		return jsonx.VC.ObjectFromElements(jsonx.EC.String("$date", t.Format(time.RFC3339Nano)))
 	case bsontype.Null:
 		return jsonx.VC.Nil()
 	case bsontype.Regex:
diff --git a/x_json_unmarshal.go b/x_json_unmarshal.go
index 456a164..fa8a970 100644
--- a/x_json_unmarshal.go
+++ b/x_json_unmarshal.go
@@ -2,8 +2,11 @@ package birch
 
 import (
 	"context"
+	"encoding/base64"
 	"errors"
 	"fmt"
+	"math"
+	"strconv"
 	"time"
 
 	"github.com/tychoish/birch/jsonx"
@@ -24,15 +27,18 @@ func (d *Document) UnmarshalJSON(in []byte) error {
 		return err
 	}
 
+	elems := make([]*Element, 0, jdoc.Len())
 	for val := range jdoc.Iterator() {
 		elem, err := convertJSONElements(iterCtx, val)
 		if err != nil {
 			return err
 		}
 
-		d.Append(elem)
+		elems = append(elems, elem)
 	}
 
+	d.Append(elems...)
+
 	return nil
 }
 
@@ -42,15 +48,18 @@ func (a *Array) UnmarshalJSON(in []byte) error {
 		return err
 	}
 
+	vals := make([]*Value, 0, ja.Len())
 	for val := range ja.Iterator() {
 		elem, err := convertJSONElements(iterCtx, jsonx.EC.Value("", val))
 		if err != nil {
 			return err
 		}
 
-		a.Append(elem.value)
+		vals = append(vals, elem.value)
 	}
 
+	a.Append(vals...)
+
 	return nil
 }
 
@@ -105,115 +114,96 @@ func convertJSONElements(ctx context.Context, in *jsonx.Element) (*Element, erro
 	case jsonx.Null:
 		return EC.Null(in.Key()), nil
 	case jsonx.NumberInteger:
-		val, ok := inv.IntOK()
-		if !ok {
+		switch val := inv.Interface().(type) {
+		case int:
+			return EC.Int(in.Key(), val), nil
+		case int32:
+			return EC.Int32(in.Key(), val), nil
+		case int64:
+			return EC.Int64(in.Key(), val), nil
+		default:
 			return nil, errors.New("mismatched json type")
 		}
-		return EC.Int(in.Key(), val), nil
 	case jsonx.NumberDouble:
-		val, ok := inv.Float64OK()
-		if !ok {
+		switch val := inv.Interface().(type) {
+		case float64:
+			return EC.Double(in.Key(), val), nil
+		case float32:
+			return EC.Double(in.Key(), float64(val)), nil
+		default:
 			return nil, errors.New("mismatched json type")
 		}
-		return EC.Double(in.Key(), val), nil
 	case jsonx.Number:
 		return EC.Interface(in.Key(), inv.Interface()), nil
 	case jsonx.ObjectValue:
 		indoc := in.Value().Document()
-		switch indoc.KeyAtIndex(0) {
+		wrapper := indoc.KeyAtIndex(0)
+		if indoc.Len() > 1 && wrapper != "$code" {
+			// the extended types have a single field, other
+			// documents are regular documents.
+			wrapper = ""
+		}
+
+		switch wrapper {
 		case "$minKey":
 			return EC.MinKey(in.Key()), nil
 		case "$maxKey":
 			return EC.MaxKey(in.Key()), nil
 		case "$numberDecimal":
-			val, err := types.ParseDecimal128(indoc.ElementAtIndex(0).Value().StringValue())
+			str, err := jsonWrappedString(in.Key(), indoc)
+			if err != nil {
+				return nil, err
+			}
+
+			val, err := types.ParseDecimal128(str)
 			if err != nil {
 				return nil, err
 			}
 
 			return EC.Decimal128(in.Key(), val), nil
 		case "$timestamp":
-			var (
-				t   int64
-				i   int64
-				val int
-				ok  bool
-			)
-
-			tsDoc := indoc.ElementAtIndex(0).Value().Document()
-			count := 0
-			for elem := range tsDoc.Iterator() {
-				if count >= 3 {
-					break
-				}
-
-				switch elem.Key() {
-				case "t":
-					val, ok = elem.Value().IntOK()
-					if !ok {
-						return nil, fmt.Errorf("problem decoding number for timestamp at %s [%T]", in.Key(), elem.Value().Interface())
-					}
-					t = int64(val)
-				case "i":
-					val, ok = elem.Value().IntOK()
-					if !ok {
-						return nil, fmt.Errorf("problem decoding number for timestamp at %s [%T]", in.Key(), elem.Value().Interface())
-					}
-					i = int64(val)
-				}
-				count++
+			t, i, err := jsonWrappedFields(in.Key(), indoc, "t", "i", jsonUint32)
+			if err != nil {
+				return nil, err
 			}
 
-			return EC.Timestamp(in.Key(), uint32(t), uint32(i)), nil
+			return EC.Timestamp(in.Key(), t, i), nil
 		case "$symbol":
-			return EC.Symbol(in.Key(), indoc.ElementAtIndex(0).Value().StringValue()), nil
+			str, err := jsonWrappedString(in.Key(), indoc)
+			if err != nil {
+				return nil, err
+			}
+
+			return EC.Symbol(in.Key(), str), nil
 		case "$code":
-			js, ok := indoc.ElementAtIndex(0).Value().StringValueOK()
-			if !ok {
-				return nil, errors.New("invalid code document")
+			js, err := jsonWrappedString(in.Key(), indoc)
+			if err != nil {
+				return nil, err
 			}
 
-			if second := indoc.KeyAtIndex(1); second == "" {
+			if indoc.Len() == 1 {
 				return EC.JavaScript(in.Key(), js), nil
-			} else if second == "$scope" {
-				scope, err := convertJSONElements(ctx, indoc.ElementAtIndex(1))
-				if err != nil {
-					return nil, err
-				}
+			}
 
-				return EC.CodeWithScope(in.Key(), js, scope.Value().MutableDocument()), nil
-			} else {
+			if second := indoc.KeyAtIndex(1); second != "$scope" || indoc.Len() > 2 {
 				return nil, fmt.Errorf("invalid key '%s' in code with scope for %s", second, in.Key())
 			}
-		case "$dbPointer":
-			var (
-				ns  string
-				oid string
-				ok  bool
-			)
-			debref := indoc.ElementAtIndex(0).Value().Document()
-			count := 0
-			for elem := range debref.Iterator() {
-				if count >= 2 {
-					break
-				}
 
-				switch elem.Key() {
-				case "$ref":
-					ns, ok = elem.Value().StringValueOK()
-					if !ok {
-						return nil, fmt.Errorf("problem decoding ns for dbref in %s", in.Key())
-					}
-				case "$id":
-					oid, ok = elem.Value().StringValueOK()
-					if !ok {
-						return nil, fmt.Errorf("problem decoding ns for oid in %s", in.Key())
-					}
-				}
-				count++
+			scope, err := convertJSONElements(ctx, indoc.ElementAtIndex(1))
+			if err != nil {
+				return nil, err
+			}
+
+			scopeDoc, ok := scope.Value().MutableDocumentOK()
+			if !ok {
+				return nil, fmt.Errorf("scope of code for %s is not a document", in.Key())
 			}
-			if ns == "" || oid == "" {
-				return nil, errors.New("values for dbref are not defined")
+
+			return EC.CodeWithScope(in.Key(), js, scopeDoc), nil
+		case "$dbPointer":
+			ns, oid, err := jsonWrappedFields(in.Key(), indoc, "$ref", "$id", (*jsonx.Value).StringValueOK)
+			if err != nil {
+				return nil, err
 			}
 
 			oidp, err := types.ObjectIDFromHex(oid)
@@ -223,43 +213,45 @@ func convertJSONElements(ctx context.Context, in *jsonx.Element) (*Element, erro
 
 			return EC.DBPointer(in.Key(), ns, oidp), nil
 		case "$regularExpression":
-			var (
-				pattern string
-				options string
-				ok      bool
-			)
-			rex := indoc.ElementAtIndex(0).Value().Document()
-
-			count := 0
-			for elem := range rex.Iterator() {
-				if count >= 2 {
-					break
+			pattern, options, err := jsonWrappedFields(in.Key(), indoc, "pattern", "options", (*jsonx.Value).StringValueOK)
+			if err != nil {
+				return nil, err
+			}
+
+			return EC.Regex(in.Key(), pattern, options), nil
+		case "$date":
+			if long, ok := indoc.ElementAtIndex(0).Value().DocumentOK(); ok && long.Len() == 1 && long.KeyAtIndex(0) == "$numberLong" {
+				str, err := jsonWrappedString(in.Key(), long)
+				if err != nil {
+					return nil, err
 				}
 
-				switch elem.Key() {
-				case "pattern":
-					pattern, ok = elem.Value().StringValueOK()
-					if !ok {
-						return nil, fmt.Errorf("problem decoding ns for dbref in %s", in.Key())
-					}
-				case "options":
-					options, ok = elem.Value().StringValueOK()
-					if !ok {
-						return nil, fmt.Errorf("problem decoding ns for oid in %s", in.Key())
-					}
+				ms, err := strconv.ParseInt(str, 10, 64)
+				if err != nil {
+					return nil, err
 				}
-				count++
+
+				return EC.DateTime(in.Key(), ms), nil
 			}
 
-			return EC.Regex(in.Key(), pattern, options), nil
-		case "$date":
-			date, err := time.Parse(time.RFC3339, indoc.ElementAtIndex(0).Value().StringValue())
+			str, err := jsonWrappedString(in.Key(), indoc)
 			if err != nil {
 				return nil, err
 			}
-			return EC.Time(in.Key(), date), nil
+
+			date, err := time.Parse(time.RFC3339, str)
+			if err != nil {
+				return nil, err
+			}
+
+			return EC.DateTime(in.Key(), date.UnixMilli()), nil
 		case "$oid":
-			oid, err := types.ObjectIDFromHex(indoc.ElementAtIndex(0).Value().StringValue())
+			str, err := jsonWrappedString(in.Key(), indoc)
+			if err != nil {
+				return nil, err
+			}
+
+			oid, err := types.ObjectIDFromHex(str)
 			if err != nil {
 				return nil, err
 			}
@@ -268,7 +260,26 @@ func convertJSONElements(ctx context.Context, in *jsonx.Element) (*Element, erro
 		case "$undefined":
 			return EC.Undefined(in.Key()), nil
 		case "$binary":
-			return EC.Binary(in.Key(), []byte(indoc.ElementAtIndex(0).Value().StringValue())), nil
+			if str, ok := indoc.ElementAtIndex(0).Value().StringValueOK(); ok {
+				return EC.Binary(in.Key(), []byte(str)), nil
+			}
+
+			data, subtype, err := jsonWrappedFields(in.Key(), indoc, "base64", "subType", (*jsonx.Value).StringValueOK)
+			if err != nil {
+				return nil, err
+			}
+
+			bin, err := base64.StdEncoding.DecodeString(data)
+			if err != nil {
+				return nil, err
+			}
+
+			st, err := strconv.ParseUint(subtype, 16, 8)
+			if err != nil {
+				return nil, err
+			}
+
+			return EC.BinaryWithSubtype(in.Key(), bin, byte(st)), nil
 		default:
 			doc := DC.Make(indoc.Len())
 
@@ -302,3 +313,63 @@ func convertJSONElements(ctx context.Context, in *jsonx.Element) (*Element, erro
 		return nil, fmt.Errorf("unknown value type '%s' [%v]", inv.Type(), inv.Interface())
 	}
 }
+
+func jsonUint32(v *jsonx.Value) (uint32, bool) {
+	var num int64
+	switch val := v.Interface().(type) {
+	case int:
+		num = int64(val)
+	case int32:
+		num = int64(val)
+	case int64:
+		num = val
+	default:
+		return 0, false
+	}
+
+	return uint32(num), num >= 0 && num <= math.MaxUint32
+}
+
+// jsonWrappedString returns the string in the first field of a document.
+func jsonWrappedString(key string, doc *jsonx.Document) (string, error) {
+	elem := doc.ElementAtIndex(0)
+
+	str, ok := elem.Value().StringValueOK()
+	if !ok {
+		return "", fmt.Errorf("value of %q for %q must be a string", elem.Key(), key)
+	}
+
+	return str, nil
+}
+
+// jsonWrappedFields returns the values of the two fields of the document in
+// the first field of a document.
+func jsonWrappedFields[T any](
+	key string,
+	doc *jsonx.Document,
+	one, two string,
+	convert func(*jsonx.Value) (T, bool),
+) (first T, second T, err error) {
+	elem := doc.ElementAtIndex(0)
+
+	inner, ok := elem.Value().DocumentOK()
+	if !ok || inner.Len() != 2 {
+		return first, second, fmt.Errorf("value of %q for %q must be a document with fields %q and %q", elem.Key(), key, one, two)
+	}
+
+	var hasFirst, hasSecond bool
+	for field := range inner.Iterator() {
+		switch field.Key() {
+		case one:
+			first, hasFirst = convert(field.Value())
+		case two:
+			second, hasSecond = convert(field.Value())
+		}
+	}
+
+	if !hasFirst || !hasSecond {
+		return first, second, fmt.Errorf("fields %q and %q of %q for %q are missing or invalid", one, two, elem.Key(), key)
+	}
+
+	return first, second, nil
+}
-- 
2.43.0


From 8a06c8476f43c35c448c2980673ba4bb313f9479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:09 +0000
Subject: [PATCH 18/56] fix: read JSON numbers with a fraction or exponent
 without rounding twice

---
 jsonx/unmarshal.go | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/jsonx/unmarshal.go b/jsonx/unmarshal.go
index ef44e7e..6235b99 100644
--- a/jsonx/unmarshal.go
+++ b/jsonx/unmarshal.go
@@ -1,11 +1,10 @@
 package jsonx
 
 import (
-	"encoding/json"
+	"errors"
 	"fmt"
 	"math"
-
-	"errors"
+	"strconv"
 
 	"github.com/tychoish/birch/jsonx/internal"
 )
@@ -91,11 +90,15 @@ func getValueForResult(value internal.Result) (*Value, error) {
 	case value.Type == internal.False:
 		return VC.Boolean(false), nil
 	case value.Type == internal.Number:
-		num := json.Number(value.String())
-		if igr, err := num.Int64(); err == nil {
+		if igr, err := strconv.ParseInt(value.Raw, 10, 64); err == nil {
 			return VC.Int(int(igr)), nil
-		} else if df, err := num.Float64(); err == nil && !math.IsInf(df, 0) {
-			return VC.Float64(df), nil
+		}
+
+		switch num := value.Num; {
+		case num == math.Trunc(num) && math.Abs(num) < 1<<63:
+			return VC.Int(int(num)), nil
+		case !math.IsInf(num, 0):
+			return VC.Float64(num), nil
 		}
 
 		return nil, fmt.Errorf("number value [%s] is invalid [%+v]", value.Str, value)
-- 
2.43.0


From c01a556128485dae3739a4c1a9033d7ba77da816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:48 +0000
Subject: [PATCH 19/56] fix: write large integral doubles in JSON with all of
 their digits

---
 jsonx/marhsal.go | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/jsonx/marhsal.go b/jsonx/marhsal.go
index a79b0d7..49f6f58 100644
--- a/jsonx/marhsal.go
+++ b/jsonx/marhsal.go
@@ -2,9 +2,10 @@ package jsonx
 
 import (
 	"encoding/json"
-	"fmt"
-
 	"errors"
+	"fmt"
+	"math"
+	"strconv"
 )
 
 func (d *Document) MarshalJSON() ([]byte, error) {
@@ -75,6 +76,12 @@ func (v *Value) MarshalJSON() ([]byte, error) {
 		case int64, int32, int:
 			return []byte(fmt.Sprintf(`%d`, v.value)), nil
 		case float64, float32:
+			if num := asFloat64(v.value); num == math.Trunc(num) && math.Abs(num) >= 1<<53 && math.Abs(num) < 1<<63 {
+				// integral values read back as integers, and
+				// need all of their digits.
+				return strconv.AppendInt(nil, int64(num), 10), nil
+			}
+
 			// encoding/json writes the shortest form that
 			// reads back as the same number, and rejects
 			// the values that json cannot represent.
@@ -106,3 +113,14 @@ func (v *Value) MarshalJSON() ([]byte, error) {
 		return nil, fmt.Errorf("unknown type=%s", v.t)
 	}
 }
+
+func asFloat64(num any) float64 {
+	switch num := num.(type) {
+	case float64:
+		return num
+	case float32:
+		return float64(num)
+	default:
+		return math.NaN()
+	}
+}
-- 
2.43.0


From 35c057d229b21f45cfd47d8787ef05565b0df22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:57 +0000
Subject: [PATCH 20/56] fix: read and write OP_MSG sections, sizes, checksums
 and flags as the protocol defines

---
 x/mrpc/mongowire/wire_message.go | 89 +++++++++++++++++++-------------
 1 file changed, 53 insertions(+), 36 deletions(-)

diff --git a/x/mrpc/mongowire/wire_message.go b/x/mrpc/mongowire/wire_message.go
index 413853f..d080b72 100644
--- a/x/mrpc/mongowire/wire_message.go
+++ b/x/mrpc/mongowire/wire_message.go
@@ -29,7 +29,12 @@ type opMessagePayloadType0 struct {
 func (p *opMessagePayloadType0) Type() uint8 { return OpMessageSectionBody }
 
 func (p *opMessagePayloadType0) Name() string {
-	return p.Document.ElementAt(0).Key()
+	elem, ok := p.Document.ElementAtOK(0)
+	if !ok {
+		return ""
+	}
+
+	return elem.Key()
 }
 
 func (p *opMessagePayloadType0) DB() string {
@@ -72,15 +77,14 @@ func (p *opMessagePayloadType1) DB() string { return "" }
 func (p *opMessagePayloadType1) Documents() []birch.Document { return p.Payload }
 
 func (p *opMessagePayloadType1) Serialize() []byte {
-	size := 1                     // kind
-	size += 4                     // size
+	size := 4                     // size, the kind byte is not counted
 	size += len(p.Identifier) + 1 // identifier
 	for _, doc := range p.Payload {
 		size += getDocSize(&doc)
 	}
 	p.Size = int32(size)
 
-	buf := bytes.NewBuffer(make([]byte, 0, size))
+	buf := bytes.NewBuffer(make([]byte, 0, 1+size))
 	buf.Write([]byte{p.Type()})
 	writeInt32(p.Size, buf)
 	writeCString(p.Identifier, buf)
@@ -121,15 +125,9 @@ func (m *OpMessage) Serialize() []byte {
 	sections := []byte{}
 	for _, section := range m.Items {
 		sections = append(sections, section.Serialize()...)
-		switch p := section.(type) {
-		case *opMessagePayloadType0:
-			size += 1 // kind // nolint
-			size += getDocSize(p.Document)
-		case *opMessagePayloadType1:
-			size += int(p.Size)
-		}
 	}
-	if m.Checksum != 0 && (m.Flags&1) == 1 {
+	size += len(sections)
+	if (m.Flags & 1) == 1 {
 		size += 4
 	}
 	m.header.Size = int32(size)
@@ -139,7 +137,7 @@ func (m *OpMessage) Serialize() []byte {
 
 	buf.Write(sections)
 
-	if m.Checksum != 0 && (m.Flags&1) == 1 {
+	if (m.Flags & 1) == 1 {
 		writeInt32(m.Checksum, buf)
 	}
 
@@ -163,7 +161,7 @@ func NewOpMessage(moreToCome bool, documents []birch.Document, items ...model.Se
 	}
 
 	if moreToCome {
-		msg.Flags = msg.Flags & 1
+		msg.Flags |= 1 << 1
 	}
 
 	for idx := range items {
@@ -193,39 +191,54 @@ func (h *MessageHeader) parseMsgBody(body []byte) (Message, error) {
 	loc := 0
 	msg.Flags = uint32(readInt32(body[loc:]))
 	loc += 4
-	checksumPresent := (msg.Flags & 1) == 1
 
-	for loc < len(body)-4 {
+	end := len(body)
+	if (msg.Flags & 1) == 1 {
+		if end < loc+4 {
+			return nil, errors.New("invalid op message - message is too short to contain a checksum")
+		}
+		end -= 4
+		msg.Checksum = readInt32(body[end:])
+	}
+
+	for loc < end {
 		kind := int32(body[loc])
 		loc++
 
-		var err error
 		switch kind {
 		case OpMessageSectionBody:
-			section := &opMessagePayloadType0{}
-			docSize := int(readInt32(body[loc:]))
-			section.Document, err = birch.ReadDocument(body[loc : loc+docSize])
-			loc += getDocSize(section.Document)
-			msg.Items = append(msg.Items, section)
+			doc, size, err := readMsgDocument(body[loc:end])
+			if err != nil {
+				return nil, fmt.Errorf("could not read body document: %w", err)
+			}
+			loc += size
+			msg.Items = append(msg.Items, &opMessagePayloadType0{Document: doc})
 		case OpMessageSectionDocumentSequence:
-			section := &opMessagePayloadType1{}
-			section.Size = readInt32(body[loc:])
+			if end-loc < 4 {
+				return nil, errors.New("invalid op message - document sequence is too short")
+			}
+
+			section := &opMessagePayloadType1{Size: readInt32(body[loc:])}
+			if section.Size < 4 || int(section.Size) > end-loc {
+				return nil, fmt.Errorf("invalid op message - document sequence has invalid size %d", section.Size)
+			}
+			sectionEnd := loc + int(section.Size)
 			loc += 4
-			section.Identifier, err = readCString(body[loc:])
+
+			var err error
+			section.Identifier, err = readCString(body[loc:sectionEnd])
 			if err != nil {
 				return nil, fmt.Errorf("could not read identifier: %w", err)
 			}
 			loc += len(section.Identifier) + 1 // c string null terminator
 
-			for remaining := int(section.Size) - 1 - 4 - len(section.Identifier) - 1; remaining > 0; {
-				docSize := int(readInt32(body[loc:]))
-				doc, err := birch.ReadDocument(body[loc : loc+docSize])
+			for loc < sectionEnd {
+				doc, size, err := readMsgDocument(body[loc:sectionEnd])
 				if err != nil {
 					return nil, fmt.Errorf("could not read payload document: %w", err)
 				}
 				section.Payload = append(section.Payload, *doc.Copy())
-				remaining -= docSize
-				loc += docSize
+				loc += size
 			}
 			msg.Items = append(msg.Items, section)
 		default:
@@ -233,12 +246,16 @@ func (h *MessageHeader) parseMsgBody(body []byte) (Message, error) {
 		}
 	}
 
-	if checksumPresent && loc == len(body)-4 {
-		msg.Checksum = readInt32(body[loc:])
-		loc += 4
-	}
+	return msg, nil
+}
 
-	msg.header.Size = int32(loc)
+// readMsgDocument reads the document at the start of the buffer and
+// returns it with the number of bytes it occupies.
+func readMsgDocument(buf []byte) (*birch.Document, int, error) {
+	doc, err := birch.ReadDocument(buf)
+	if err != nil {
+		return nil, 0, err
+	}
 
-	return msg, nil
+	return doc, int(readInt32(buf)), nil
 }
-- 
2.43.0


From 04b2798ebeff4c741c51b67a53e16f123497471b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:19 +0000
Subject: [PATCH 21/56] fix: report malformed messages, keep request ids and
 translate flags in the wire protocol

---
 x/mrpc/mongowire/header.go            |  6 ++++-
 x/mrpc/mongowire/message.go           | 36 +++++++++------------------
 x/mrpc/mongowire/wire_kill_cursors.go |  4 +--
 x/mrpc/mongowire/wire_query.go        | 22 ++++++++--------
 4 files changed, 31 insertions(+), 37 deletions(-)

diff --git a/x/mrpc/mongowire/header.go b/x/mrpc/mongowire/header.go
index 07e15c4..337c28a 100644
--- a/x/mrpc/mongowire/header.go
+++ b/x/mrpc/mongowire/header.go
@@ -50,5 +50,9 @@ func (h *MessageHeader) Parse(body []byte) (Message, error) {
 		return nil, fmt.Errorf("unknown op code: %s", h.OpCode)
 	}
 
-	return m, err
+	if err != nil {
+		return nil, err
+	}
+
+	return m, nil
 }
diff --git a/x/mrpc/mongowire/message.go b/x/mrpc/mongowire/message.go
index 1fd148d..b23cfef 100644
--- a/x/mrpc/mongowire/message.go
+++ b/x/mrpc/mongowire/message.go
@@ -143,15 +143,8 @@ func GetModel(msg Message) (any, OpType) {
 			Operation:  m.Operation,
 		}
 
-		switch m.Flags {
-		case 0:
-			op.Checksum = true
-		case 1:
-			op.MoreToCome = true
-		case 3:
-			op.Checksum = true
-			op.MoreToCome = true
-		}
+		op.Checksum = m.Flags&(1<<0) != 0
+		op.MoreToCome = m.Flags&(1<<1) != 0
 
 		for _, section := range m.Items {
 			op.Items = append(op.Items, model.SequenceItem{
@@ -171,6 +164,12 @@ func GetModel(msg Message) (any, OpType) {
 			Namespace: m.Namespace,
 			Documents: m.Docs,
 		}, OP_INSERT
+	case *getMoreMessage:
+		return &model.GetMore{
+			Namespace: m.Namespace,
+			CursorID:  m.CursorId,
+			NReturn:   m.NReturn,
+		}, OP_GET_MORE
 	case *queryMessage:
 		return &model.Query{
 			Namespace: m.Namespace,
@@ -186,15 +185,8 @@ func GetModel(msg Message) (any, OpType) {
 			Update:    m.Update,
 		}
 
-		switch m.Flags {
-		case 1:
-			update.Upsert = true
-		case 2:
-			update.Multi = true
-		case 3:
-			update.Upsert = true
-			update.Multi = true
-		}
+		update.Upsert = m.Flags&(1<<0) != 0
+		update.Multi = m.Flags&(1<<1) != 0
 
 		return update, OP_UPDATE
 	case *ReplyMessage:
@@ -204,12 +196,8 @@ func GetModel(msg Message) (any, OpType) {
 			Contents:     m.Docs,
 		}
 
-		switch m.Flags {
-		case 1:
-			reply.QueryFailure = true
-		case 0:
-			reply.CursorNotFound = true
-		}
+		reply.CursorNotFound = m.Flags&(1<<0) != 0
+		reply.QueryFailure = m.Flags&(1<<1) != 0
 
 		return reply, OP_REPLY
 	default:
diff --git a/x/mrpc/mongowire/wire_kill_cursors.go b/x/mrpc/mongowire/wire_kill_cursors.go
index 4bd457b..ac775d5 100644
--- a/x/mrpc/mongowire/wire_kill_cursors.go
+++ b/x/mrpc/mongowire/wire_kill_cursors.go
@@ -56,8 +56,8 @@ func (h *MessageHeader) parseKillCursorsMessage(buf []byte) (Message, error) {
 	m.NumCursors = readInt32(buf[loc:])
 	loc += 4
 
-	if len(buf[loc:]) < int(m.NumCursors)*8 {
-		return nil, fmt.Errorf("invalid kill cursors message -- NumCursors = %d is larger than number of cursors in message", m.NumCursors)
+	if m.NumCursors < 0 || len(buf[loc:]) < int(m.NumCursors)*8 {
+		return nil, fmt.Errorf("invalid kill cursors message -- NumCursors = %d is not the number of cursors in message", m.NumCursors)
 	}
 
 	m.CursorIds = make([]int64, int(m.NumCursors))
diff --git a/x/mrpc/mongowire/wire_query.go b/x/mrpc/mongowire/wire_query.go
index ff7510a..47557c4 100644
--- a/x/mrpc/mongowire/wire_query.go
+++ b/x/mrpc/mongowire/wire_query.go
@@ -50,21 +50,23 @@ func (m *queryMessage) Serialize() []byte {
 	return buf.Bytes()
 }
 
-func (m *queryMessage) convertToCommand() *CommandMessage {
-	if !NamespaceIsCommand(m.Namespace) {
-		return nil
+func (m *queryMessage) convertToCommand() (Message, error) {
+	name, ok := m.Query.ElementAtOK(0)
+	if !ok {
+		return nil, errors.New("invalid query message -- command does not have a name")
 	}
 
+	header := m.header
+	header.OpCode = OP_COMMAND
+
 	return &CommandMessage{
-		header: MessageHeader{
-			OpCode:    OP_COMMAND,
-			RequestID: 19,
-		},
+		header:      header,
 		DB:          NamespaceToDB(m.Namespace),
-		CmdName:     m.Query.ElementAt(0).Key(),
+		CmdName:     name.Key(),
 		CommandArgs: m.Query,
+		Metadata:    birch.DC.New(),
 		upconverted: true,
-	}
+	}, nil
 }
 
 func (h *MessageHeader) parseQueryMessage(buf []byte) (Message, error) {
@@ -114,7 +116,7 @@ func (h *MessageHeader) parseQueryMessage(buf []byte) (Message, error) {
 	}
 
 	if NamespaceIsCommand(qm.Namespace) {
-		return qm.convertToCommand(), nil
+		return qm.convertToCommand()
 	}
 
 	return qm, nil
-- 
2.43.0


From 0a26de530bc8409c266bfc4a70b9a0c3d44ca5b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:34 +0000
Subject: [PATCH 22/56] fix: read exactly one whole message from a stream,
 whatever its chunking

---
 x/mrpc/mongowire/sock.go | 112 +++++++++++++++++----------------------
 1 file changed, 49 insertions(+), 63 deletions(-)

diff --git a/x/mrpc/mongowire/sock.go b/x/mrpc/mongowire/sock.go
index 0f7ccb0..9a6b1b6 100644
--- a/x/mrpc/mongowire/sock.go
+++ b/x/mrpc/mongowire/sock.go
@@ -12,36 +12,10 @@ import (
 const MaxInt32 = 2147483647
 
 func ReadMessage(ctx context.Context, reader io.Reader) (Message, error) {
-	type readResult struct {
-		n   int
-		err error
-	}
-
 	// read header
-	sizeBuf := make([]byte, 4)
-
-	readFinished := make(chan readResult)
-
-	go func() {
-		defer close(readFinished)
-
-		n, err := reader.Read(sizeBuf)
-		select {
-		case readFinished <- readResult{n: n, err: err}:
-		case <-ctx.Done():
-		}
-	}()
-
-	select {
-	case <-ctx.Done():
-		return nil, (ctx.Err())
-	case res := <-readFinished:
-		if res.err != nil {
-			return nil, (res.err)
-		}
-		if res.n != 4 {
-			return nil, fmt.Errorf("didn't read message size from socket, got %d", res.n)
-		}
+	sizeBuf, err := readBytes(ctx, reader, 4)
+	if err != nil {
+		return nil, err
 	}
 
 	header := MessageHeader{}
@@ -52,45 +26,18 @@ func ReadMessage(ctx context.Context, reader io.Reader) (Message, error) {
 		}
 		return nil, fmt.Errorf("message too big %d", header.Size)
 	}
-	if header.Size < 0 || header.Size-4 > MaxInt32 {
-		return nil, errors.New("message header has invalid size")
+	if header.Size < 16 {
+		return nil, fmt.Errorf("invalid message header. header.Size = %v is shorter than a message header", header.Size)
 	}
 
-	restBuf := &bytes.Buffer{}
-	for read := 0; int32(read) < header.Size-4; {
-		readFinished = make(chan readResult)
-		tempBuf := make([]byte, header.Size-4)
-		go func() {
-			defer close(readFinished)
-			n, err := reader.Read(tempBuf)
-			select {
-			case readFinished <- readResult{n: n, err: err}:
-			case <-ctx.Done():
-			}
-		}()
-		select {
-		case <-ctx.Done():
-			return nil, (ctx.Err())
-		case res := <-readFinished:
-			if res.err == io.EOF {
-				read = int(header.Size - 4)
-				break
-			}
-			if res.err != nil {
-				return nil, (res.err)
-			}
-			if res.n == 0 {
-				break
-			}
-			read += res.n
-			restBuf.Write(tempBuf[:res.n])
+	buf, err := readBytes(ctx, reader, int64(header.Size)-4)
+	if err != nil {
+		if errors.Is(err, io.EOF) {
+			err = io.ErrUnexpectedEOF
 		}
+		return nil, err
 	}
 
-	buf := restBuf.Bytes()
-	if len(buf) < 12 {
-		return nil, fmt.Errorf("invalid message header. either header.Size = %v is shorter than message length, or message is missing RequestId, ResponseTo, or OpCode fields.", header.Size)
-	}
 	header.RequestID = readInt32(buf)
 	header.ResponseTo = readInt32(buf[4:])
 	header.OpCode = OpType(readInt32(buf[8:]))
@@ -98,7 +45,43 @@ func ReadMessage(ctx context.Context, reader io.Reader) (Message, error) {
 	return header.Parse(buf[12:])
 }
 
+// readBytes reads exactly num bytes, without allocating space for
+// data that does not arrive. The error is io.EOF only if there was no
+// data at all.
+func readBytes(ctx context.Context, reader io.Reader, num int64) ([]byte, error) {
+	type readResult struct {
+		data []byte
+		err  error
+	}
+
+	if err := ctx.Err(); err != nil {
+		return nil, err
+	}
+
+	readFinished := make(chan readResult, 1)
+
+	go func() {
+		buf := &bytes.Buffer{}
+		n, err := io.CopyN(buf, reader, num)
+		if err == io.EOF && n > 0 {
+			err = io.ErrUnexpectedEOF
+		}
+		readFinished <- readResult{data: buf.Bytes(), err: err}
+	}()
+
+	select {
+	case <-ctx.Done():
+		return nil, ctx.Err()
+	case res := <-readFinished:
+		return res.data, res.err
+	}
+}
+
 func SendMessage(ctx context.Context, m Message, writer io.Writer) error {
+	if err := ctx.Err(); err != nil {
+		return err
+	}
+
 	buf := m.Serialize()
 
 	type writeRes struct {
@@ -125,6 +108,9 @@ func SendMessage(ctx context.Context, m Message, writer io.Writer) error {
 			if res.n == len(buf) {
 				return nil
 			}
+			if res.n == 0 {
+				return fmt.Errorf("error writing message to client: %w", io.ErrShortWrite)
+			}
 			buf = buf[res.n:]
 		}
 	}
-- 
2.43.0


From 6f1fd9bb8bb09cdd66b1cf4a7baa0be5b1c9a83f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:45 +0000
Subject: [PATCH 23/56] fix: stop the service when its context is cancelled and
 survive panicking handlers

---
 x/mrpc/service.go | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/x/mrpc/service.go b/x/mrpc/service.go
index 05c88fc..33bae88 100644
--- a/x/mrpc/service.go
+++ b/x/mrpc/service.go
@@ -60,6 +60,7 @@ func (s *basicService) Run(ctx context.Context) error {
 		return fmt.Errorf("problem listening on %s: %w", s.addr, err)
 	}
 	defer func() { _ = l.Close() }()
+	defer context.AfterFunc(ctx, func() { _ = l.Close() })()
 
 	for {
 		if ctx.Err() != nil {
@@ -67,7 +68,10 @@ func (s *basicService) Run(ctx context.Context) error {
 		}
 
 		conn, err := l.Accept()
-		if errors.Is(err, context.Canceled) || errors.Is(err, context.DeadlineExceeded) {
+		if ctx.Err() != nil {
+			if err == nil {
+				_ = conn.Close()
+			}
 			return nil
 		} else if err != nil {
 			s.handleError(fmt.Errorf("accepting connection: %w", err))
@@ -113,6 +117,10 @@ func (s *basicService) dispatchRequest(ctx context.Context, conn net.Conn) {
 		}
 
 		scope := m.Scope()
+		if scope == nil {
+			s.handleError(fmt.Errorf("message of type %s is not a request", m.Header().OpCode))
+			return
+		}
 
 		handler, ok := s.registry.Get(scope)
 		if !ok {
@@ -120,6 +128,17 @@ func (s *basicService) dispatchRequest(ctx context.Context, conn net.Conn) {
 			return
 		}
 
-		go handler(ctx, conn, m)
+		go s.handleRequest(ctx, handler, conn, m)
 	}
 }
+
+// handleRequest runs the handler, reporting if it panics.
+func (s *basicService) handleRequest(ctx context.Context, handler HandlerFunc, conn net.Conn, m mongowire.Message) {
+	defer func() {
+		if p := recover(); p != nil {
+			s.handleError(fmt.Errorf("panic responding to request: %v", p))
+		}
+	}()
+
+	handler(ctx, conn, m)
+}
-- 
2.43.0


From 1457194012a8cb04569d10c4c7b69f03047161ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:45 +0000
Subject: [PATCH 24/56] fix: read log responses from their own key and report
 empty replies

---
 x/mrpc/shell/io.go   | 2 +-
 x/mrpc/shell/util.go | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/x/mrpc/shell/io.go b/x/mrpc/shell/io.go
index f381111..0d6f607 100644
--- a/x/mrpc/shell/io.go
+++ b/x/mrpc/shell/io.go
@@ -210,7 +210,7 @@ func (resp *getLogResponse) UnmarshalDocument(in *birch.Document) error {
 
 	for elem := range in.Iterator() {
 		switch elem.Key() {
-		case "version":
+		case "log":
 			array, ok := elem.Value().MutableArrayOK()
 			if !ok {
 				return fmt.Errorf("could not parse value of correct type [%s] for key %s",
diff --git a/x/mrpc/shell/util.go b/x/mrpc/shell/util.go
index 753b58e..4a54ded 100644
--- a/x/mrpc/shell/util.go
+++ b/x/mrpc/shell/util.go
@@ -91,6 +91,9 @@ func RequestMessageToDocument(msg mongowire.Message) (*birch.Document, error) {
 // document.
 func ResponseMessageToDocument(msg mongowire.Message) (*birch.Document, error) {
 	if opReplyMsg, ok := msg.(*mongowire.ReplyMessage); ok {
+		if len(opReplyMsg.Docs) == 0 {
+			return nil, fmt.Errorf("%s response did not contain a document", mongowire.OP_REPLY.String())
+		}
 		return &opReplyMsg.Docs[0], nil
 	}
 	if opCmdReplyMsg, ok := msg.(*mongowire.CommandReplyMessage); ok {
-- 
2.43.0


From 161fce70dd65746b5366b6c1b23364d08d7ea4c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:45 +0000
Subject: [PATCH 25/56] fix: reject endlessly nested BSON documents rather than
 overflow the stack

---
 bsonerr/element.go |  4 ++++
 reader.go          | 17 ++++++++++++++++-
 value.go           | 12 +++++++++---
 3 files changed, 29 insertions(+), 4 deletions(-)

diff --git a/bsonerr/element.go b/bsonerr/element.go
index d68a42f..ba67993 100644
--- a/bsonerr/element.go
+++ b/bsonerr/element.go
@@ -45,3 +45,7 @@ func NewElementTypeError(method string, t bsontype.Type) error {
 func (ete ElementType) Error() string {
 	return "Call of " + ete.Method + " on " + ete.Type.String() + " type"
 }
+
+// NestingTooDeep indicates that an encoded document contains documents that are
+// nested too deeply to be read.
+var NestingTooDeep = errors.New("document is nested too deeply")
diff --git a/reader.go b/reader.go
index 3003075..710fe26 100644
--- a/reader.go
+++ b/reader.go
@@ -20,6 +20,10 @@ import (
 
 var errValidateDone = errors.New("validation loop complete")
 
+// maxNestingDepth is the number of documents and arrays that can contain one
+// another in an encoded document.
+const maxNestingDepth = 10000
+
 // Reader is a wrapper around a byte slice. It will interpret the slice as a
 // BSON document. Most of the methods on Reader are low cost and are meant for
 // simple operations that are run a few times. Because there is no metadata
@@ -222,6 +226,17 @@ func (r Reader) MarshalBSON() ([]byte, error) {
 // the function returns errValidateDone, in all other cases a non-nil error will
 // be returned by this method.
 func (r Reader) readElements(f func(e *Element) error) (uint32, error) {
+	return r.readNestedElements(f, 0)
+}
+
+// readNestedElements is readElements for a document that is nested within
+// depth other documents. Every level of nesting takes stack space, which is
+// why there is a limit to the nesting of the documents this will read.
+func (r Reader) readNestedElements(f func(e *Element) error, depth int) (uint32, error) {
+	if depth > maxNestingDepth {
+		return 0, bsonerr.NestingTooDeep
+	}
+
 	if len(r) < 5 {
 		return 0, errTooSmall
 	}
@@ -272,7 +287,7 @@ func (r Reader) readElements(f func(e *Element) error) (uint32, error) {
 		elemValStart = pos
 		elem = newElement(elemStart, elemValStart)
 		elem.value.data = r
-		n, err = elem.value.validate(false)
+		n, err = elem.value.validateNested(false, depth)
 		pos += n
 
 		if err != nil {
diff --git a/value.go b/value.go
index 08d01df..9462cde 100644
--- a/value.go
+++ b/value.go
@@ -209,6 +209,12 @@ func (v *Value) Validate() error {
 }
 
 func (v *Value) validate(sizeOnly bool) (uint32, error) {
+	return v.validateNested(sizeOnly, 0)
+}
+
+// validateNested is validate for a value of a document that is nested within
+// depth other documents.
+func (v *Value) validateNested(sizeOnly bool, depth int) (uint32, error) {
 	if v.data == nil {
 		return 0, bsonerr.UninitializedElement
 	}
@@ -276,7 +282,7 @@ func (v *Value) validate(sizeOnly bool) (uint32, error) {
 		}
 
 		if !sizeOnly {
-			n, err := Reader(v.data[v.offset : v.offset+uint32(l)]).Validate()
+			n, err := Reader(v.data[v.offset:v.offset+uint32(l)]).readNestedElements(nil, depth+1)
 			total += n - 4
 
 			if err != nil {
@@ -315,7 +321,7 @@ func (v *Value) validate(sizeOnly bool) (uint32, error) {
 		}
 
 		if !sizeOnly {
-			n, err := Reader(v.data[v.offset : v.offset+uint32(l)]).Validate()
+			n, err := Reader(v.data[v.offset:v.offset+uint32(l)]).readNestedElements(nil, depth+1)
 			total += n - 4
 
 			if err != nil {
@@ -497,7 +503,7 @@ func (v *Value) validate(sizeOnly bool) (uint32, error) {
 			}
 
 			total += uint32(sLength)
-			n, err := Reader(v.data[v.offset+8+uint32(sLength) : v.offset+uint32(l)]).Validate()
+			n, err := Reader(v.data[v.offset+8+uint32(sLength):v.offset+uint32(l)]).readNestedElements(nil, depth+1)
 			total += n
 
 			if err != nil {
-- 
2.43.0


From 130d8b79724f8a3dd4962dfcc8bb050ed903b662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:24 +0000
Subject: [PATCH 26/56] fix: let the zero value of an operation registry accept
 operations

---
 x/mrpc/registry.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/x/mrpc/registry.go b/x/mrpc/registry.go
index 1a9d0c2..0b605a8 100644
--- a/x/mrpc/registry.go
+++ b/x/mrpc/registry.go
@@ -28,6 +28,10 @@ func (o *OperationRegistry) Add(op mongowire.OpScope, h HandlerFunc) error {
 		return fmt.Errorf("operation '%+v' is already defined", op)
 	}
 
+	if o.ops == nil {
+		o.ops = make(map[mongowire.OpScope]HandlerFunc)
+	}
+
 	o.ops[op] = h
 
 	return nil
-- 
2.43.0


From 32acdc2cd920d36cb8c9240dbfe4dd819f0cfe27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:48 +0000
Subject: [PATCH 27/56] fix: count, prepend and set elements of a linked
 document as of any other

---
 x/blist/blist.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/x/blist/blist.go b/x/blist/blist.go
index a935837..2c0e062 100644
--- a/x/blist/blist.go
+++ b/x/blist/blist.go
@@ -10,7 +10,7 @@ type Document struct {
 	dt.List[*birch.Element]
 }
 
-func (d *Document) Len() int { return d.Len() }
+func (d *Document) Len() int { return d.List.Len() }
 func (d *Document) Append(elems ...*birch.Element) *Document {
 	for idx := range elems {
 		if elems[idx] == nil {
@@ -31,7 +31,7 @@ func (d *Document) AppendOmitEmpty(elems ...*birch.Element) *Document {
 	return d
 }
 func (d *Document) Prepend(elems ...*birch.Element) *Document {
-	for idx := range elems {
+	for idx := len(elems) - 1; idx >= 0; idx-- {
 		if elems[idx] == nil {
 			panic(bsonerr.NilElement)
 		}
@@ -41,13 +41,19 @@ func (d *Document) Prepend(elems ...*birch.Element) *Document {
 }
 
 func (d *Document) Set(elem *birch.Element) *Document {
+	if elem == nil {
+		panic(bsonerr.NilElement)
+	}
+
 	for e := d.Front(); e.Ok(); e = e.Next() {
 		if e.Value().Key() != elem.Key() {
 			continue
 		}
 		e.Set(elem)
-		break
+		return d
 	}
+
+	d.PushBack(elem)
 	return d
 }
 
-- 
2.43.0


From e1909eb17b83aaff15c6288415a6860ab339c852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:12 +0000
Subject: [PATCH 28/56] fix: preserve the exact values and paths of compressed
 metrics

---
 x/ftdc/bson_extract.go | 12 ++++++++----
 x/ftdc/bson_matrix.go  |  2 +-
 x/ftdc/bson_metric.go  | 16 +++-------------
 x/ftdc/bson_restore.go |  7 +++----
 x/ftdc/ftdc.go         |  3 ++-
 x/ftdc/util.go         |  2 +-
 6 files changed, 18 insertions(+), 24 deletions(-)

diff --git a/x/ftdc/bson_extract.go b/x/ftdc/bson_extract.go
index fcde3f2..b11265a 100644
--- a/x/ftdc/bson_extract.go
+++ b/x/ftdc/bson_extract.go
@@ -89,16 +89,18 @@ func extractMetricsFromValue(val *birch.Value) (extractedMetrics, error) {
 		}
 		metrics.types = append(metrics.types, bsontype.Boolean)
 	case bsontype.Double:
-		metrics.values = append(metrics.values, val)
+		// the values outlive the document, which the caller may
+		// change after it is collected.
+		metrics.values = append(metrics.values, birch.VC.Double(val.Double()))
 		metrics.types = append(metrics.types, bsontype.Double)
 	case bsontype.Int32:
 		metrics.values = append(metrics.values, birch.VC.Int64(int64(val.Int32())))
 		metrics.types = append(metrics.types, bsontype.Int32)
 	case bsontype.Int64:
-		metrics.values = append(metrics.values, val)
+		metrics.values = append(metrics.values, birch.VC.Int64(val.Int64()))
 		metrics.types = append(metrics.types, bsontype.Int64)
 	case bsontype.DateTime:
-		metrics.values = append(metrics.values, birch.VC.Int64(epochMs(val.Time())))
+		metrics.values = append(metrics.values, birch.VC.Int64(val.DateTime()))
 		metrics.types = append(metrics.types, bsontype.DateTime)
 	case bsontype.Timestamp:
 		t, i := val.Timestamp()
@@ -112,7 +114,9 @@ func extractMetricsFromValue(val *birch.Value) (extractedMetrics, error) {
 func extractDelta(current *birch.Value, previous *birch.Value) (int64, error) {
 	switch current.Type() {
 	case bsontype.Double:
-		return normalizeFloat(current.Double() - previous.Double()), nil
+		// floating point values are not delta encoded, because
+		// differences don't preserve their values: see undeltaFloats.
+		return normalizeFloat(current.Double()), nil
 	case bsontype.Int64:
 		return current.Int64() - previous.Int64(), nil
 	default:
diff --git a/x/ftdc/bson_matrix.go b/x/ftdc/bson_matrix.go
index 1414c62..1400c54 100644
--- a/x/ftdc/bson_matrix.go
+++ b/x/ftdc/bson_matrix.go
@@ -38,7 +38,7 @@ func rehydrateMatrix(metrics []Metric, sample int) (*birch.Element, int, error)
 		}
 	case bsontype.DateTime:
 		for _, p := range metrics[sample].Values {
-			array.Append(birch.VC.Time(timeEpocMs(p)))
+			array.Append(birch.VC.DateTime(p))
 		}
 	case bsontype.Timestamp:
 		for idx, p := range metrics[sample].Values {
diff --git a/x/ftdc/bson_metric.go b/x/ftdc/bson_metric.go
index 6512780..9160ba5 100644
--- a/x/ftdc/bson_metric.go
+++ b/x/ftdc/bson_metric.go
@@ -2,6 +2,7 @@ package ftdc
 
 import (
 	"fmt"
+	"slices"
 
 	"github.com/tychoish/birch"
 	"github.com/tychoish/birch/bsontype"
@@ -48,18 +49,7 @@ func metricForType(key string, path []string, val *birch.Value) []Metric {
 	case bsontype.Array:
 		return metricForArray(key, path, val.MutableArray())
 	case bsontype.EmbeddedDocument:
-		path = append(path, key)
-
-		o := []Metric{}
-		for _, ne := range metricForDocument(path, val.MutableDocument()) {
-			o = append(o, Metric{
-				ParentPath:    path,
-				KeyName:       ne.KeyName,
-				startingValue: ne.startingValue,
-				originalType:  ne.originalType,
-			})
-		}
-		return o
+		return metricForDocument(append(slices.Clone(path), key), val.MutableDocument())
 	case bsontype.Boolean:
 		if val.Boolean() {
 			return []Metric{
@@ -111,7 +101,7 @@ func metricForType(key string, path []string, val *birch.Value) []Metric {
 			{
 				ParentPath:    path,
 				KeyName:       key,
-				startingValue: epochMs(val.Time()),
+				startingValue: val.DateTime(),
 				originalType:  val.Type(),
 			},
 		}
diff --git a/x/ftdc/bson_restore.go b/x/ftdc/bson_restore.go
index 58a51fc..5ff4fac 100644
--- a/x/ftdc/bson_restore.go
+++ b/x/ftdc/bson_restore.go
@@ -48,8 +48,7 @@ func restoreElement(ref *birch.Element, sample int, metrics []Metric, idx int) (
 
 		for val := range array.Iterator() {
 			var item *birch.Element
-			// TODO avoid Interface
-			item, idx = restoreElement(birch.EC.Interface("", val), sample, metrics, idx)
+			item, idx = restoreElement(birch.EC.Value("", val), sample, metrics, idx)
 			if item == nil {
 				continue
 			}
@@ -76,7 +75,7 @@ func restoreElement(ref *birch.Element, sample int, metrics []Metric, idx int) (
 	case bsontype.Int64:
 		return birch.EC.Int64(ref.Key(), metrics[idx].Values[sample]), idx + 1
 	case bsontype.DateTime:
-		return birch.EC.Time(ref.Key(), timeEpocMs(metrics[idx].Values[sample])), idx + 1
+		return birch.EC.DateTime(ref.Key(), metrics[idx].Values[sample]), idx + 1
 	case bsontype.Timestamp:
 		return birch.EC.Timestamp(ref.Key(), uint32(metrics[idx].Values[sample]), uint32(metrics[idx+1].Values[sample])), idx + 2
 	default:
@@ -96,7 +95,7 @@ func restoreFlat(t bsontype.Type, key string, value int64) (*birch.Element, bool
 	case bsontype.Int32:
 		return birch.EC.Int32(key, int32(value)), true
 	case bsontype.DateTime:
-		return birch.EC.Time(key, timeEpocMs(value)), true
+		return birch.EC.DateTime(key, value), true
 	default:
 		return birch.EC.Int64(key, value), true
 	}
diff --git a/x/ftdc/ftdc.go b/x/ftdc/ftdc.go
index b3829c7..77b5a96 100644
--- a/x/ftdc/ftdc.go
+++ b/x/ftdc/ftdc.go
@@ -2,6 +2,7 @@ package ftdc
 
 import (
 	"io"
+	"slices"
 	"strings"
 	"time"
 
@@ -104,7 +105,7 @@ type Metric struct {
 }
 
 func (m *Metric) Key() string {
-	return strings.Join(append(m.ParentPath, m.KeyName), ".")
+	return strings.Join(append(slices.Clone(m.ParentPath), m.KeyName), ".")
 }
 
 func (m *Metric) getSeries() any {
diff --git a/x/ftdc/util.go b/x/ftdc/util.go
index 505e7cd..4167d21 100644
--- a/x/ftdc/util.go
+++ b/x/ftdc/util.go
@@ -111,7 +111,7 @@ func compressBuffer(input []byte) ([]byte, error) {
 
 func normalizeFloat(in float64) int64 { return int64(math.Float64bits(in)) }
 func restoreFloat(in int64) float64   { return math.Float64frombits(uint64(in)) }
-func epochMs(t time.Time) int64       { return t.UnixNano() / 1000000 }
+func epochMs(t time.Time) int64       { return t.UnixMilli() }
 func timeEpocMs(in int64) time.Time   { return time.Unix(in/1000, in%1000*1000000) }
 
 func isNum(num int, val *birch.Value) bool {
-- 
2.43.0


From d75c92ea62f6b9540e3044d90a0db608e638f271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:47 +0000
Subject: [PATCH 29/56] fix: report every corruption of a metrics chunk rather
 than crash or end early

---
 x/ftdc/iterator.go       |   9 +-
 x/ftdc/iterator_chunk.go |   5 +-
 x/ftdc/read.go           | 206 ++++++++++++++++++++++++---------------
 3 files changed, 139 insertions(+), 81 deletions(-)

diff --git a/x/ftdc/iterator.go b/x/ftdc/iterator.go
index bd2ed7c..cb0e8fb 100644
--- a/x/ftdc/iterator.go
+++ b/x/ftdc/iterator.go
@@ -1,6 +1,7 @@
 package ftdc
 
 import (
+	"errors"
 	"io"
 	"iter"
 
@@ -128,8 +129,14 @@ func ReadSeries(r io.Reader) *Iterator[*birch.Document] {
 	out.iterator = func() iter.Seq[*birch.Document] {
 		return func(yield func(*birch.Document) bool) {
 			defer func() { out.catcher.Push(chunks.Close()) }()
+			marshaler := util.GlobalMarshaler()
+			if marshaler == nil {
+				out.catcher.Push(errors.New("no registered marshaler"))
+				return
+			}
+
 			for chunk := range chunks.Iterator() {
-				payload, err := util.GlobalMarshaler()(chunk.exportMatrix())
+				payload, err := marshaler(chunk.exportMatrix())
 				if err != nil {
 					out.catcher.Push(err)
 					continue
diff --git a/x/ftdc/iterator_chunk.go b/x/ftdc/iterator_chunk.go
index 662cf4c..ba72d4f 100644
--- a/x/ftdc/iterator_chunk.go
+++ b/x/ftdc/iterator_chunk.go
@@ -21,8 +21,9 @@ func ReadChunks(r io.Reader) *Iterator[*Chunk] {
 			ctx, cancel := context.WithCancel(context.Background())
 			defer cancel()
 
-			go func() { out.catcher.Push(readChunks(ctx, msi, ipc, pipe)) }()
-			go func() { out.catcher.Push(readDiagnostic(ctx, r, ipc)) }()
+			// errors must be visible by the time the iteration ends.
+			go func() { defer close(pipe); out.catcher.Push(readChunks(ctx, msi, ipc, pipe)) }()
+			go func() { defer close(ipc); out.catcher.Push(readDiagnostic(ctx, r, ipc)) }()
 
 			for {
 				select {
diff --git a/x/ftdc/read.go b/x/ftdc/read.go
index da942bb..5e1cf80 100644
--- a/x/ftdc/read.go
+++ b/x/ftdc/read.go
@@ -15,7 +15,6 @@ import (
 )
 
 func readDiagnostic(ctx context.Context, f io.Reader, ch chan<- *birch.Document) error {
-	defer close(ch)
 	buf := bufio.NewReader(f)
 	for {
 		doc, err := readBufBSON(buf)
@@ -35,14 +34,13 @@ func readDiagnostic(ctx context.Context, f io.Reader, ch chan<- *birch.Document)
 }
 
 func readChunks(ctx context.Context, msi *metasourceImpl, ch <-chan *birch.Document, o chan<- *Chunk) error {
-	defer close(o)
-
 	var metadata *birch.Document
 
 	for {
 		select {
 		case <-ctx.Done():
-			return ctx.Err()
+			// nobody is waiting for more chunks.
+			return nil
 		case doc, ok := <-ch:
 			if !ok {
 				return nil
@@ -71,98 +69,150 @@ func readChunks(ctx context.Context, msi *metasourceImpl, ch <-chan *birch.Docum
 			if zelem == nil {
 				return errors.New("data is not populated")
 			}
-			_, zBytes := zelem.Value().Binary()
-
-			// the metrics chunk, after the first 4 bytes, is zlib
-			// compressed, so we make a reader for that. data
-			z, err := zlib.NewReader(bytes.NewBuffer(zBytes[4:]))
-			if err != nil {
-				return fmt.Errorf("problem building zlib reader: %w", err)
-			}
-			buf := bufio.NewReader(z)
-
-			// the metrics chunk, which is *not* bson, first
-			// contains a bson document which begins the
-			// sample. This has the field and we use use it to
-			// create a slice of Metrics for each series. The
-			// deltas are not populated.
-			refDoc, metrics, err := readBufMetrics(buf)
-			if err != nil {
-				return fmt.Errorf("problem reading metrics: %w", err)
+			_, zBytes, ok := zelem.Value().BinaryOK()
+			if !ok || len(zBytes) < 4 {
+				return errors.New("data does not contain a metrics chunk")
 			}
 
-			// now go back and read the first few bytes
-			// (uncompressed) which tell us how many metrics are
-			// in each sample (e.g. the fields in the document)
-			// and how many events are collected in each series.
-			bl := make([]byte, 8)
-			_, err = io.ReadAtLeast(buf, bl, 8)
+			chunk, err := readChunk(zBytes)
 			if err != nil {
 				return err
 			}
-			nmetrics := int(binary.LittleEndian.Uint32(bl[:4]))
-			ndeltas := int(binary.LittleEndian.Uint32(bl[4:]))
-
-			// if the number of metrics that we see from the
-			// source document (metrics) and the number the file
-			// reports don't equal, it's probably corrupt.
-			if nmetrics != len(metrics) {
-				return fmt.Errorf("metrics mismatch, file likely corrupt Expected %d, got %d", nmetrics, len(metrics))
-			}
-
-			// now go back and populate the delta numbers
-			var nzeroes uint64
-			for i, v := range metrics {
-				metrics[i].startingValue = v.startingValue
-				metrics[i].Values = make([]int64, ndeltas)
-
-				for j := 0; j < ndeltas; j++ {
-					var delta uint64
-					if nzeroes != 0 {
-						delta = 0
-						nzeroes--
-					} else {
-						delta, err = binary.ReadUvarint(buf)
-						if err != nil {
-							return fmt.Errorf("reached unexpected end of encoded integer: %w", err)
-						}
-						if delta == 0 {
-							nzeroes, err = binary.ReadUvarint(buf)
-							if err != nil {
-								return err
-							}
-						}
-					}
-					metrics[i].Values[j] = int64(delta)
-				}
-				if metrics[i].originalType == bsontype.Double {
-					metrics[i].Values = undeltaFloats(v.startingValue, metrics[i].Values)
-				} else {
-					metrics[i].Values = undelta(v.startingValue, metrics[i].Values)
-				}
+			chunk.id = id
+			chunk.metadata = metadata
 
-			}
 			select {
-			case o <- &Chunk{
-				Metrics:   metrics,
-				nPoints:   ndeltas + 1, // this accounts for the reference document
-				id:        id,
-				metadata:  metadata,
-				reference: refDoc,
-			}:
+			case o <- chunk:
 			case <-ctx.Done():
 				return nil
 			}
 		}
 	}
+}
+
+// maxChunkValues is the number of values that a chunk can hold. Runs of
+// identical values take hardly any space when encoded, but all of it
+// when decoded.
+const maxChunkValues = 1 << 26
+
+// countingReader counts the bytes that have been read.
+type countingReader struct {
+	io.Reader
+	count int64
+}
+
+func (r *countingReader) Read(p []byte) (int, error) {
+	n, err := r.Reader.Read(p)
+	r.count += int64(n)
+	return n, err
+}
+
+// readChunk decodes a metrics chunk. The returned errors are never
+// io.EOF, as the end of the chunk is not the end of the data.
+func readChunk(zBytes []byte) (*Chunk, error) {
+	// the metrics chunk, after the first 4 bytes (which are the
+	// size of the uncompressed data), is zlib compressed, so we make
+	// a reader for that.
+	z, err := zlib.NewReader(bytes.NewBuffer(zBytes[4:]))
+	if err != nil {
+		return nil, fmt.Errorf("problem building zlib reader: %w", err)
+	}
+	counter := &countingReader{Reader: z}
+	buf := bufio.NewReader(counter)
+
+	// the metrics chunk, which is *not* bson, first
+	// contains a bson document which begins the
+	// sample. This has the field and we use use it to
+	// create a slice of Metrics for each series. The
+	// deltas are not populated.
+	refDoc, metrics, err := readBufMetrics(buf)
+	if err != nil {
+		return nil, fmt.Errorf("problem reading metrics: %w", err)
+	}
+
+	// now go back and read the first few bytes
+	// (uncompressed) which tell us how many metrics are
+	// in each sample (e.g. the fields in the document)
+	// and how many events are collected in each series.
+	bl := make([]byte, 8)
+	if _, err = io.ReadFull(buf, bl); err != nil {
+		return nil, fmt.Errorf("problem reading the size of the metrics: %w", err)
+	}
+	nmetrics := int64(binary.LittleEndian.Uint32(bl[:4]))
+	ndeltas := int64(binary.LittleEndian.Uint32(bl[4:]))
+
+	// if the number of metrics that we see from the
+	// source document (metrics) and the number the file
+	// reports don't equal, it's probably corrupt.
+	if nmetrics != int64(len(metrics)) {
+		return nil, fmt.Errorf("metrics mismatch, file likely corrupt Expected %d, got %d", nmetrics, len(metrics))
+	}
+	if max(nmetrics, 1) > maxChunkValues/(ndeltas+1) {
+		return nil, fmt.Errorf("chunk of %d metrics with %d samples is too large", nmetrics, ndeltas+1)
+	}
+
+	// timestamps are pairs of metrics: the initial value of the first
+	// has been converted to milliseconds, but its deltas are of seconds.
+	for i := 0; i < len(metrics); i++ {
+		if metrics[i].originalType == bsontype.Timestamp {
+			metrics[i].startingValue /= 1000
+			i++
+		}
+	}
+
+	// now go back and populate the delta numbers
+	var nzeroes uint64
+	for i := range metrics {
+		metrics[i].Values = []int64{}
+		for j := int64(0); j < ndeltas; j++ {
+			var delta uint64
+			if nzeroes != 0 {
+				nzeroes--
+			} else {
+				delta, err = binary.ReadUvarint(buf)
+				if err != nil {
+					return nil, fmt.Errorf("reached unexpected end of encoded integer: %w", err)
+				}
+				if delta == 0 {
+					nzeroes, err = binary.ReadUvarint(buf)
+					if err != nil {
+						return nil, fmt.Errorf("reached unexpected end of encoded integer: %w", err)
+					}
+				}
+			}
+			metrics[i].Values = append(metrics[i].Values, int64(delta))
+		}
+		if metrics[i].originalType == bsontype.Double {
+			metrics[i].Values = undeltaFloats(metrics[i].startingValue, metrics[i].Values)
+		} else {
+			metrics[i].Values = undelta(metrics[i].startingValue, metrics[i].Values)
+		}
+	}
 
-	return nil
+	// reading to the end validates the checksum of the compressed data.
+	if _, err = buf.ReadByte(); err == nil || nzeroes != 0 {
+		return nil, errors.New("chunk contains more data than its metrics, file likely corrupt")
+	} else if err != io.EOF {
+		return nil, fmt.Errorf("problem reading metrics: %w", err)
+	}
+	if size := int64(binary.LittleEndian.Uint32(zBytes)); size != counter.count {
+		return nil, fmt.Errorf("chunk has %d bytes rather than %d, file likely corrupt", counter.count, size)
+	}
+
+	return &Chunk{
+		Metrics:   metrics,
+		nPoints:   int(ndeltas) + 1, // this accounts for the reference document
+		reference: refDoc,
+	}, nil
 }
 
 func readBufBSON(buf *bufio.Reader) (*birch.Document, error) {
 	doc := &birch.Document{}
 
-	if _, err := doc.ReadFrom(buf); err != nil {
+	if n, err := doc.ReadFrom(buf); err != nil {
+		if err == io.EOF && n > 0 {
+			err = io.ErrUnexpectedEOF
+		}
 		return nil, err
 	}
 
-- 
2.43.0


From ce37d7404eea1dcab9e0b4b9a1ca6f625e9de8be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:29 +0000
Subject: [PATCH 30/56] fix: detect changes of the type and structure of
 metrics as schema changes

---
 x/ftdc/bson_hash.go | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/x/ftdc/bson_hash.go b/x/ftdc/bson_hash.go
index 3976f0e..33729ba 100644
--- a/x/ftdc/bson_hash.go
+++ b/x/ftdc/bson_hash.go
@@ -40,28 +40,41 @@ func metricKeyHashArray(checksum hash.Hash, key string, array *birch.Array) int
 func metricKeyHashValue(checksum hash.Hash, key string, value *birch.Value) int {
 	switch value.Type() {
 	case bsontype.Array:
-		return metricKeyHashArray(checksum, key, value.MutableArray())
+		writeMetricKey(checksum, key, value)
+		seen := metricKeyHashArray(checksum, key, value.MutableArray())
+		_, _ = checksum.Write([]byte{'e'})
+		return seen
 	case bsontype.EmbeddedDocument:
-		return metricKeyHashDocument(checksum, key, value.MutableDocument())
+		writeMetricKey(checksum, key, value)
+		seen := metricKeyHashDocument(checksum, key, value.MutableDocument())
+		_, _ = checksum.Write([]byte{'e'})
+		return seen
 	case bsontype.Boolean:
-		_, _ = checksum.Write([]byte(key))
+		writeMetricKey(checksum, key, value)
 		return 1
 	case bsontype.Double:
-		_, _ = checksum.Write([]byte(key))
+		writeMetricKey(checksum, key, value)
 		return 1
 	case bsontype.Int32:
-		_, _ = checksum.Write([]byte(key))
+		writeMetricKey(checksum, key, value)
 		return 1
 	case bsontype.Int64:
-		_, _ = checksum.Write([]byte(key))
+		writeMetricKey(checksum, key, value)
 		return 1
 	case bsontype.DateTime:
-		_, _ = checksum.Write([]byte(key))
+		writeMetricKey(checksum, key, value)
 		return 1
 	case bsontype.Timestamp:
-		_, _ = checksum.Write([]byte(key))
+		writeMetricKey(checksum, key, value)
 		return 2
 	default:
 		return 0
 	}
 }
+
+// writeMetricKey adds a metric, or the start of a document or array, to
+// the hash. The type of values and the extent of documents, arrays, and
+// keys are part of the schema: different metrics may have the same path.
+func writeMetricKey(checksum hash.Hash, key string, value *birch.Value) {
+	_, _ = fmt.Fprintf(checksum, "%d:%d:%s", value.Type(), len(key), key)
+}
-- 
2.43.0


From b55ee4004d27acd671b61b5dda9b7638d6abf421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:29 +0000
Subject: [PATCH 31/56] fix: collect nil documents as errors and maps of
 integers as documents

---
 x/ftdc/util.go | 38 ++++++++++++++++++++++++++++++++++++--
 1 file changed, 36 insertions(+), 2 deletions(-)

diff --git a/x/ftdc/util.go b/x/ftdc/util.go
index 4167d21..e7d6fb2 100644
--- a/x/ftdc/util.go
+++ b/x/ftdc/util.go
@@ -6,7 +6,9 @@ import (
 	"encoding/binary"
 	"errors"
 	"fmt"
+	"maps"
 	"math"
+	"slices"
 	"sort"
 	"time"
 
@@ -16,6 +18,30 @@ import (
 )
 
 func readDocument(in any) (*birch.Document, error) {
+	doc, err := convertDocument(in)
+	if err != nil {
+		return nil, err
+	}
+	if doc == nil {
+		return nil, errors.New("cannot read nil document")
+	}
+	return doc, nil
+}
+
+// readMap produces a document of 64 bit integers, whatever their value,
+// so that maps with the same keys always have the same schema.
+func readMap[T int | int64 | uint | uint64](in map[string]T) (*birch.Document, error) {
+	doc := birch.DC.Make(len(in))
+	for _, key := range slices.Sorted(maps.Keys(in)) {
+		if in[key] > 0 && int64(in[key]) < 0 {
+			return nil, fmt.Errorf("value of '%s' overflows an int64: %d", key, in[key])
+		}
+		doc.Append(birch.EC.Int64(key, int64(in[key])))
+	}
+	return doc, nil
+}
+
+func convertDocument(in any) (*birch.Document, error) {
 	switch doc := in.(type) {
 	case *birch.Document:
 		return doc, nil
@@ -29,10 +55,18 @@ func readDocument(in any) (*birch.Document, error) {
 			return nil, fmt.Errorf("problem with unmarshaler: %w", err)
 		}
 		return birch.ReadDocument(data)
-	case map[string]any, map[string]int, map[string]int64, map[string]uint, map[string]uint64:
-		elems := birch.DC.Interface(doc).Elements()
+	case map[string]any:
+		elems := birch.DC.MapInterface(doc).Elements()
 		sort.Stable(elems)
 		return birch.DC.Elements(elems...), nil
+	case map[string]int:
+		return readMap(doc)
+	case map[string]int64:
+		return readMap(doc)
+	case map[string]uint:
+		return readMap(doc)
+	case map[string]uint64:
+		return readMap(doc)
 	case map[string]string:
 		return nil, errors.New("cannot use string maps for metrics documents")
 	case nil:
-- 
2.43.0


From d2bdd3ea8c7c2d42e80cd905345622e40e331145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:59 +0000
Subject: [PATCH 32/56] fix: copy and validate documents when they are
 collected

---
 x/ftdc/collector_better.go       |  9 ++++++---
 x/ftdc/collector_uncompressed.go | 14 ++++++++------
 x/ftdc/util.go                   | 24 ++++++++++++++++++++++++
 3 files changed, 38 insertions(+), 9 deletions(-)

diff --git a/x/ftdc/collector_better.go b/x/ftdc/collector_better.go
index cd00b69..f392164 100644
--- a/x/ftdc/collector_better.go
+++ b/x/ftdc/collector_better.go
@@ -33,11 +33,10 @@ func NewBaseCollector(maxSize int) Collector {
 }
 
 func (c *betterCollector) SetMetadata(in any) error {
-	doc, err := readDocument(in)
+	doc, err := readMetadata(in)
 	if err != nil {
 		return err
 	}
-
 	c.metadata = doc
 	return nil
 }
@@ -75,11 +74,15 @@ func (c *betterCollector) Add(in any) error {
 
 	var metrics extractedMetrics
 	if c.reference == nil {
-		c.reference = doc
+		doc, err = snapshotDocument(doc)
+		if err != nil {
+			return err
+		}
 		metrics, err = extractMetricsFromDocument(doc)
 		if err != nil {
 			return err
 		}
+		c.reference = doc
 		c.startedAt = metrics.ts
 		c.lastSample = &metrics
 		c.deltas = make([]int64, c.maxDeltas*len(c.lastSample.values))
diff --git a/x/ftdc/collector_uncompressed.go b/x/ftdc/collector_uncompressed.go
index 5eb63b9..4308bef 100644
--- a/x/ftdc/collector_uncompressed.go
+++ b/x/ftdc/collector_uncompressed.go
@@ -156,7 +156,7 @@ func (c *uncompressedCollector) Info() CollectorInfo {
 }
 
 func (c *uncompressedCollector) SetMetadata(in any) error {
-	doc, err := readDocument(in)
+	doc, err := readMetadata(in)
 	if err != nil {
 		return err
 	}
@@ -171,11 +171,7 @@ func (c *uncompressedCollector) Add(in any) error {
 		return err
 	}
 
-	if c.metricCount == 0 {
-		c.metricCount = doc.Len()
-	}
-
-	if doc.Len() != c.metricCount {
+	if len(c.samples) > 0 && doc.Len() != c.metricCount {
 		return errors.New("unexpected schema change detected")
 	}
 
@@ -183,6 +179,12 @@ func (c *uncompressedCollector) Add(in any) error {
 		return errors.New("collector is overfull")
 	}
 
+	doc, err = snapshotDocument(doc)
+	if err != nil {
+		return err
+	}
+
+	c.metricCount = doc.Len()
 	c.samples = append(c.samples, doc)
 	return nil
 }
diff --git a/x/ftdc/util.go b/x/ftdc/util.go
index e7d6fb2..c8d53f4 100644
--- a/x/ftdc/util.go
+++ b/x/ftdc/util.go
@@ -41,6 +41,30 @@ func readMap[T int | int64 | uint | uint64](in map[string]T) (*birch.Document, e
 	return doc, nil
 }
 
+// snapshotDocument returns a copy of a document, as the caller is free to
+// change a document after collecting it. It is an error to collect
+// documents that cannot be written.
+func snapshotDocument(doc *birch.Document) (*birch.Document, error) {
+	data, err := doc.MarshalBSON()
+	if err != nil {
+		return nil, fmt.Errorf("problem copying document: %w", err)
+	}
+	return birch.ReadDocument(data)
+}
+
+// readMetadata produces the metadata document from the input of
+// SetMetadata, where nil unsets the metadata.
+func readMetadata(in any) (*birch.Document, error) {
+	if in == nil {
+		return nil, nil
+	}
+	doc, err := readDocument(in)
+	if err != nil {
+		return nil, err
+	}
+	return snapshotDocument(doc)
+}
+
 func convertDocument(in any) (*birch.Document, error) {
 	switch doc := in.(type) {
 	case *birch.Document:
-- 
2.43.0


From cd3142d0d29a8af32f22fdfddd8094c3c51497f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:59 +0000
Subject: [PATCH 33/56] fix: follow every schema change, and keep metadata, in
 batch and dynamic collectors

---
 x/ftdc/collector_batch.go   |  7 ++++++-
 x/ftdc/collector_dynamic.go | 32 +++++++++++++++++++-------------
 2 files changed, 25 insertions(+), 14 deletions(-)

diff --git a/x/ftdc/collector_batch.go b/x/ftdc/collector_batch.go
index 499fe14..68360c1 100644
--- a/x/ftdc/collector_batch.go
+++ b/x/ftdc/collector_batch.go
@@ -39,7 +39,7 @@ func (c *batchCollector) Info() CollectorInfo {
 }
 
 func (c *batchCollector) Reset() {
-	c.chunks = []*betterCollector{{maxDeltas: c.maxSamples}}
+	c.chunks = []*betterCollector{{maxDeltas: c.maxSamples, metadata: c.chunks[0].metadata}}
 }
 
 func (c *batchCollector) SetMetadata(in any) error {
@@ -55,7 +55,12 @@ func (c *batchCollector) Add(in any) error {
 	last := c.chunks[len(c.chunks)-1]
 	if last.Info().SampleCount >= c.maxSamples {
 		last = &betterCollector{maxDeltas: c.maxSamples}
+		if err := last.Add(doc); err != nil {
+			return err
+		}
+
 		c.chunks = append(c.chunks, last)
+		return nil
 	}
 
 	return (last.Add(doc))
diff --git a/x/ftdc/collector_dynamic.go b/x/ftdc/collector_dynamic.go
index 443cd93..c23dab1 100644
--- a/x/ftdc/collector_dynamic.go
+++ b/x/ftdc/collector_dynamic.go
@@ -40,7 +40,9 @@ func (c *dynamicCollector) Info() CollectorInfo {
 }
 
 func (c *dynamicCollector) Reset() {
-	c.chunks = []*batchCollector{newBatchCollector(c.maxSamples)}
+	first := c.chunks[0]
+	first.Reset()
+	c.chunks = []*batchCollector{first}
 	c.hash = ""
 }
 
@@ -57,24 +59,28 @@ func (c *dynamicCollector) Add(in any) error {
 		return errors.New("nil document")
 	}
 
-	if c.hash == "" {
-		docHash, num := metricKeyHash(doc)
-		c.hash = docHash
-		c.currentNum = num
-		return (c.chunks[0].Add(doc))
-	}
-
 	lastChunk := c.chunks[len(c.chunks)-1]
 
-	docHash, _ := metricKeyHash(doc)
-	if c.hash == docHash {
+	docHash, num := metricKeyHash(doc)
+	if c.hash == docHash && c.currentNum == num {
 		return (lastChunk.Add(doc))
 	}
 
-	chunk := newBatchCollector(c.maxSamples)
-	c.chunks = append(c.chunks, chunk)
+	if c.hash == "" {
+		err = lastChunk.Add(doc)
+	} else {
+		chunk := newBatchCollector(c.maxSamples)
+		if err = chunk.Add(doc); err == nil {
+			c.chunks = append(c.chunks, chunk)
+		}
+	}
+	if err != nil {
+		return err
+	}
 
-	return (chunk.Add(doc))
+	c.hash = docHash
+	c.currentNum = num
+	return nil
 }
 
 func (c *dynamicCollector) Resolve() ([]byte, error) {
-- 
2.43.0


From cae826202716115c19f959f63a9bb86e7297e017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:59 +0000
Subject: [PATCH 34/56] fix: flush full streaming collectors and follow every
 schema change

---
 x/ftdc/collector_streaming.go | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/x/ftdc/collector_streaming.go b/x/ftdc/collector_streaming.go
index e2f22a2..bca3b75 100644
--- a/x/ftdc/collector_streaming.go
+++ b/x/ftdc/collector_streaming.go
@@ -36,7 +36,7 @@ func newStreamingCollector(maxSamples int, writer io.Writer) *streamingCollector
 
 func (c *streamingCollector) Reset() { c.count = 0; c.Collector.Reset() }
 func (c *streamingCollector) Add(in any) error {
-	if c.count-1 >= c.maxSamples {
+	if c.count >= c.maxSamples {
 		if err := FlushCollector(c, c.output); err != nil {
 			return fmt.Errorf("problem flushing collector contents: %w", err)
 		}
@@ -61,6 +61,7 @@ func FlushCollector(c Collector, writer io.Writer) error {
 	if c.Info().SampleCount == 0 {
 		return nil
 	}
+
 	payload, err := c.Resolve()
 	if err != nil {
 		return err
@@ -96,7 +97,7 @@ func NewStreamingDynamicCollector(max int, writer io.Writer) Collector {
 }
 
 func (c *streamingDynamicCollector) Reset() {
-	c.streamingCollector = newStreamingCollector(c.streamingCollector.maxSamples, c.output)
+	c.streamingCollector.Reset()
 	c.metricCount = 0
 	c.hash = ""
 }
@@ -108,22 +109,22 @@ func (c *streamingDynamicCollector) Add(in any) error {
 	}
 
 	docHash, num := metricKeyHash(doc)
-	if c.hash == "" {
-		c.hash = docHash
-		c.metricCount = num
-		if c.streamingCollector.count > 0 {
-			if err := FlushCollector(c, c.output); err != nil {
-				return err
-			}
-		}
-		return (c.streamingCollector.Add(doc))
+	if _, ok := c.streamingCollector.Collector.(*uncompressedCollector); ok {
+		// which doesn't distinguish metrics from other fields.
+		num = doc.Len()
 	}
 
-	if c.metricCount != num || c.hash != docHash {
+	if c.streamingCollector.count > 0 && (c.metricCount != num || c.hash != docHash) {
 		if err := FlushCollector(c, c.output); err != nil {
 			return err
 		}
 	}
 
-	return (c.streamingCollector.Add(doc))
+	if err := c.streamingCollector.Add(doc); err != nil {
+		return err
+	}
+
+	c.hash = docHash
+	c.metricCount = num
+	return nil
 }
-- 
2.43.0


From 1892d49f92915b84f7b22bd8ad43831654e3eb58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:59 +0000
Subject: [PATCH 35/56] fix: serialize access to buffered collectors and
 flushing of concurrent collectors

---
 x/ftdc/collector_buffered.go  | 154 +++++++++++++++++++++++++++-------
 x/ftdc/collector_sample.go    |   5 ++
 x/ftdc/collector_streaming.go |  10 +++
 x/ftdc/collector_sync.go      |   8 ++
 4 files changed, 149 insertions(+), 28 deletions(-)

diff --git a/x/ftdc/collector_buffered.go b/x/ftdc/collector_buffered.go
index 7cf7ebb..0dd7bc3 100644
--- a/x/ftdc/collector_buffered.go
+++ b/x/ftdc/collector_buffered.go
@@ -2,47 +2,89 @@ package ftdc
 
 import (
 	"context"
+	"io"
+	"sync"
 
 	"github.com/tychoish/fun/erc"
 )
 
 type bufferedCollector struct {
-	Collector
+	coll    Collector
 	pipe    chan any
-	catcher erc.Collector
+	catcher *erc.Collector
 	ctx     context.Context
+
+	// all access to the collector is from a single goroutine until that
+	// goroutine finishes: the lock guards sending to the goroutine,
+	// and, once it has finished, the collector itself.
+	mu       sync.RWMutex
+	closed   bool
+	finished chan struct{}
+}
+
+// bufferedOperation is an operation, other than adding data, which must
+// happen after adding all data that's already in the buffer.
+type bufferedOperation struct {
+	op   func()
+	done chan struct{}
 }
 
 // NewBufferedCollector wraps an existing collector with a buffer to
 // normalize throughput to an underlying collector implementation.
+//
+// Errors adding data to the underlying collector are returned when
+// resolving the collector, until it is reset.
 func NewBufferedCollector(ctx context.Context, size int, coll Collector) Collector {
 	c := &bufferedCollector{
-		Collector: coll,
-		pipe:      make(chan any, size),
-		ctx:       ctx,
-	}
-
-	go func() {
-		for {
-			select {
-			case <-ctx.Done():
-				close(c.pipe)
-				if len(c.pipe) != 0 {
-					for in := range c.pipe {
-						c.catcher.Push(c.Collector.Add(in))
-					}
-				}
-
-				return
-			case in := <-c.pipe:
-				c.catcher.Push(c.Collector.Add(in))
+		coll:     coll,
+		pipe:     make(chan any, size),
+		catcher:  &erc.Collector{},
+		ctx:      ctx,
+		finished: make(chan struct{}),
+	}
+	go c.worker()
+	return c
+}
+
+func (c *bufferedCollector) worker() {
+	defer close(c.finished)
+
+	for {
+		select {
+		case in := <-c.pipe:
+			c.handle(in)
+		case <-c.ctx.Done():
+			c.mu.Lock()
+			c.closed = true
+			c.mu.Unlock()
+
+			// nothing else is sent.
+			close(c.pipe)
+			for in := range c.pipe {
+				c.handle(in)
 			}
+			return
 		}
-	}()
-	return c
+	}
 }
 
-func (c *bufferedCollector) Add(in any) error {
+func (c *bufferedCollector) handle(in any) {
+	if op, ok := in.(bufferedOperation); ok {
+		defer close(op.done)
+		op.op()
+		return
+	}
+	c.catcher.Push(c.coll.Add(in))
+}
+
+func (c *bufferedCollector) send(in any) error {
+	c.mu.RLock()
+	defer c.mu.RUnlock()
+
+	if c.closed {
+		return c.ctx.Err()
+	}
+
 	select {
 	case <-c.ctx.Done():
 		return c.ctx.Err()
@@ -51,10 +93,66 @@ func (c *bufferedCollector) Add(in any) error {
 	}
 }
 
-func (c *bufferedCollector) Resolve() ([]byte, error) {
-	if !c.catcher.Ok() {
-		return nil, c.catcher.Resolve()
+func (c *bufferedCollector) run(op func()) {
+	operation := bufferedOperation{op: op, done: make(chan struct{})}
+	if c.send(operation) == nil {
+		<-operation.done
+		return
 	}
 
-	return c.Collector.Resolve()
+	<-c.finished
+	c.mu.Lock()
+	defer c.mu.Unlock()
+	op()
+}
+
+func (c *bufferedCollector) Add(in any) error {
+	doc, err := readDocument(in)
+	if err != nil {
+		return err
+	}
+
+	// the caller may change the document before it leaves the buffer.
+	doc, err = snapshotDocument(doc)
+	if err != nil {
+		return err
+	}
+
+	return c.send(doc)
+}
+
+func (c *bufferedCollector) SetMetadata(in any) (err error) {
+	c.run(func() { err = c.coll.SetMetadata(in) })
+	return
+}
+
+func (c *bufferedCollector) Resolve() (out []byte, err error) {
+	c.run(func() {
+		if !c.catcher.Ok() {
+			err = c.catcher.Resolve()
+			return
+		}
+		out, err = c.coll.Resolve()
+	})
+	return
+}
+
+func (c *bufferedCollector) Reset() {
+	c.run(func() { c.catcher = &erc.Collector{}; c.coll.Reset() })
+}
+
+func (c *bufferedCollector) Info() (info CollectorInfo) {
+	c.run(func() { info = c.coll.Info() })
+	return
+}
+
+func (c *bufferedCollector) flush(writer io.Writer) (err error) {
+	c.run(func() {
+		if !c.catcher.Ok() {
+			err = c.catcher.Resolve()
+			return
+		}
+		err = FlushCollector(c.coll, writer)
+	})
+	return
 }
diff --git a/x/ftdc/collector_sample.go b/x/ftdc/collector_sample.go
index 24b8c9d..8169564 100644
--- a/x/ftdc/collector_sample.go
+++ b/x/ftdc/collector_sample.go
@@ -1,6 +1,7 @@
 package ftdc
 
 import (
+	"io"
 	"time"
 )
 
@@ -30,3 +31,7 @@ func (c *samplingCollector) Add(d any) error {
 
 	return (c.Collector.Add(d))
 }
+
+func (c *samplingCollector) flush(writer io.Writer) error {
+	return FlushCollector(c.Collector, writer)
+}
diff --git a/x/ftdc/collector_streaming.go b/x/ftdc/collector_streaming.go
index bca3b75..fa614a0 100644
--- a/x/ftdc/collector_streaming.go
+++ b/x/ftdc/collector_streaming.go
@@ -50,6 +50,12 @@ func (c *streamingCollector) Add(in any) error {
 	return nil
 }
 
+// flusher is implemented by collectors that support concurrent access,
+// for which flushing has to be a single operation, or to wrap them.
+type flusher interface {
+	flush(io.Writer) error
+}
+
 // FlushCollector writes the contents of a collector out to an
 // io.Writer. This is useful in the context of any collector, but is
 // particularly useful in the context of streaming collectors, which
@@ -58,6 +64,10 @@ func FlushCollector(c Collector, writer io.Writer) error {
 	if writer == nil {
 		return errors.New("invalid writer")
 	}
+	if fl, ok := c.(flusher); ok {
+		return fl.flush(writer)
+	}
+
 	if c.Info().SampleCount == 0 {
 		return nil
 	}
diff --git a/x/ftdc/collector_sync.go b/x/ftdc/collector_sync.go
index 9647608..1e1e84b 100644
--- a/x/ftdc/collector_sync.go
+++ b/x/ftdc/collector_sync.go
@@ -1,6 +1,7 @@
 package ftdc
 
 import (
+	"io"
 	"sync"
 )
 
@@ -51,3 +52,10 @@ func (c *synchronizedCollector) Info() CollectorInfo {
 
 	return c.Collector.Info()
 }
+
+func (c *synchronizedCollector) flush(writer io.Writer) error {
+	c.mu.Lock()
+	defer c.mu.Unlock()
+
+	return FlushCollector(c.Collector, writer)
+}
-- 
2.43.0


From eee0082e66cf4d21a7c018710a90335f1b83b42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:12 +0000
Subject: [PATCH 36/56] fix: read every row of CSV files and report errors
 importing them

---
 x/ftdc/csv.go | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/x/ftdc/csv.go b/x/ftdc/csv.go
index c27a89a..a837623 100644
--- a/x/ftdc/csv.go
+++ b/x/ftdc/csv.go
@@ -1,7 +1,6 @@
 package ftdc
 
 import (
-	"context"
 	"encoding/csv"
 	"errors"
 	"fmt"
@@ -30,7 +29,7 @@ func (c *Chunk) getRecord(i int) []string {
 		case bsontype.Double, bsontype.Int32, bsontype.Int64, bsontype.Boolean, bsontype.Timestamp:
 			fields[idx] = strconv.FormatInt(m.Values[i], 10)
 		case bsontype.DateTime:
-			fields[idx] = time.Unix(m.Values[i]/1000, 0).Format(time.RFC3339)
+			fields[idx] = time.UnixMilli(m.Values[i]).Format(time.RFC3339Nano)
 		}
 	}
 	return fields
@@ -153,7 +152,7 @@ func DumpCSV(seq iter.Seq[*Chunk], prefix string) error {
 // If the number of fields changes in the CSV fields, the first field
 // with the changed number of fields becomes the header for the
 // subsequent documents in the stream.
-func ConvertFromCSV(bucketSize int, input io.Reader, output io.Writer) error {
+func ConvertFromCSV(bucketSize int, input io.Reader, output io.Writer) (err error) {
 	csvr := csv.NewReader(input)
 
 	header, err := csvr.Read()
@@ -164,24 +163,35 @@ func ConvertFromCSV(bucketSize int, input io.Reader, output io.Writer) error {
 	collector := NewStreamingDynamicCollector(bucketSize, output)
 
 	defer func() {
-		if err != nil && (!errors.Is(err, context.Canceled) || !errors.Is(err, context.DeadlineExceeded)) {
-			err = fmt.Errorf("omitting final flush, because of prior error: %w", err)
+		if flushErr := FlushCollector(collector, output); err == nil {
+			err = flushErr
 		}
-		err = FlushCollector(collector, output)
 	}()
 
 	var record []string
+
+	// a new header without records is just a malformed record.
+	var onlyHeader bool
 	for {
 		record, err = csvr.Read()
 		if err == io.EOF {
 			// this is weird so that the defer can work
 			err = nil
+			if onlyHeader {
+				err = errors.New("unexpected field count change")
+			}
 			return err
 		}
 
 		if err != nil {
 			if pr, ok := err.(*csv.ParseError); ok && pr.Err == csv.ErrFieldCount {
+				if onlyHeader {
+					err = errors.New("unexpected field count change")
+					return err
+				}
 				header = record
+				csvr.FieldsPerRecord = len(header)
+				onlyHeader = true
 				continue
 			}
 			err = fmt.Errorf("problem parsing csv: %w", err)
@@ -190,6 +200,7 @@ func ConvertFromCSV(bucketSize int, input io.Reader, output io.Writer) error {
 		if len(record) != len(header) {
 			return errors.New("unexpected field count change")
 		}
+		onlyHeader = false
 
 		elems := make([]*birch.Element, 0, len(header))
 		for idx := range record {
-- 
2.43.0


From 1def6656f6a7c2ecb86d9487f033bee038823ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:47 +0000
Subject: [PATCH 37/56] fix: report documents that cannot be rendered when they
 are collected

---
 x/ftdc/collector_uncompressed.go | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/x/ftdc/collector_uncompressed.go b/x/ftdc/collector_uncompressed.go
index 4308bef..c5ab989 100644
--- a/x/ftdc/collector_uncompressed.go
+++ b/x/ftdc/collector_uncompressed.go
@@ -140,11 +140,11 @@ type uncompressedCollector struct {
 	batchSize   int
 	metricCount int
 	metadata    *birch.Document
-	samples     []*birch.Document
+	samples     [][]byte
 }
 
 func (c *uncompressedCollector) Reset() {
-	c.samples = []*birch.Document{}
+	c.samples = nil
 	c.metricCount = 0
 }
 
@@ -161,6 +161,12 @@ func (c *uncompressedCollector) SetMetadata(in any) error {
 		return err
 	}
 
+	if doc != nil {
+		if err := c.marshalWrite(io.Discard, doc); err != nil {
+			return err
+		}
+	}
+
 	c.metadata = doc
 	return nil
 }
@@ -179,13 +185,15 @@ func (c *uncompressedCollector) Add(in any) error {
 		return errors.New("collector is overfull")
 	}
 
-	doc, err = snapshotDocument(doc)
-	if err != nil {
+	// documents are rendered immediately, as the caller can change them
+	// later, and those that can't be rendered must not be collected.
+	buf := &bytes.Buffer{}
+	if err := c.marshalWrite(buf, doc); err != nil {
 		return err
 	}
 
 	c.metricCount = doc.Len()
-	c.samples = append(c.samples, doc)
+	c.samples = append(c.samples, buf.Bytes())
 	return nil
 }
 
@@ -203,9 +211,7 @@ func (c *uncompressedCollector) Resolve() ([]byte, error) {
 	}
 
 	for _, sample := range c.samples {
-		if err := c.marshalWrite(buf, sample); err != nil {
-			return nil, err
-		}
+		_, _ = buf.Write(sample)
 	}
 
 	return buf.Bytes(), nil
-- 
2.43.0


From 05a0d2c70af9141d159d3d6c22e0140c03d091ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:58 +0000
Subject: [PATCH 38/56] fix: decode every field of performance events and keep
 added events unchanged

---
 x/ftdc/events/custom.go      |  2 +
 x/ftdc/events/performance.go | 97 ++++++++++++++++++++++++++++--------
 2 files changed, 77 insertions(+), 22 deletions(-)

diff --git a/x/ftdc/events/custom.go b/x/ftdc/events/custom.go
index b92ed9b..fe7a1a3 100644
--- a/x/ftdc/events/custom.go
+++ b/x/ftdc/events/custom.go
@@ -88,6 +88,8 @@ func (ps *Custom) UnmarshalBSON(in []byte) error {
 }
 
 func (ps Custom) MarshalDocument() (*birch.Document, error) {
+	// sort a copy, leaving the caller's points in their order.
+	ps = append(MakeCustom(ps.Len()), ps...)
 	ps.Sort()
 
 	doc := birch.DC.Make(ps.Len())
diff --git a/x/ftdc/events/performance.go b/x/ftdc/events/performance.go
index 31cc8d4..7fbf005 100644
--- a/x/ftdc/events/performance.go
+++ b/x/ftdc/events/performance.go
@@ -13,6 +13,7 @@
 package events
 
 import (
+	"fmt"
 	"time"
 
 	"github.com/tychoish/birch"
@@ -87,22 +88,27 @@ func (p *Performance) MarshalDocument() (*birch.Document, error) {
 
 func (p *Performance) UnmarshalDocument(doc *birch.Document) error {
 	for elem := range doc.Iterator() {
+		var err error
+
 		switch elem.Key() {
 		case "ts":
-			p.Timestamp = elem.Value().Time()
+			ts, ok := elem.Value().TimeOK()
+			if !ok {
+				return unmarshalError(elem)
+			}
+			p.Timestamp = ts
 		case "id":
+			err = unmarshalInt64(elem, &p.ID)
 		case "counters":
-			if err := p.Counters.UnmarshalDocument(elem.Value().MutableDocument()); err != nil {
-				return err
-			}
+			err = unmarshalSubDocument(elem, &p.Counters)
 		case "timers":
-			if err := p.Timers.UnmarshalDocument(elem.Value().MutableDocument()); err != nil {
-				return err
-			}
+			err = unmarshalSubDocument(elem, &p.Timers)
 		case "gauges":
-			if err := p.Gauges.UnmarshalDocument(elem.Value().MutableDocument()); err != nil {
-				return err
-			}
+			err = unmarshalSubDocument(elem, &p.Gauges)
+		}
+
+		if err != nil {
+			return err
 		}
 	}
 
@@ -111,15 +117,21 @@ func (p *Performance) UnmarshalDocument(doc *birch.Document) error {
 
 func (p *PerformanceCounters) UnmarshalDocument(doc *birch.Document) error {
 	for elem := range doc.Iterator() {
+		var err error
+
 		switch elem.Key() {
 		case "n":
-			p.Number = elem.Value().Int64()
-		case "opts":
-			p.Operations = elem.Value().Int64()
+			err = unmarshalInt64(elem, &p.Number)
+		case "ops":
+			err = unmarshalInt64(elem, &p.Operations)
 		case "size":
-			p.Size = elem.Value().Int64()
+			err = unmarshalInt64(elem, &p.Size)
 		case "errors":
-			p.Errors = elem.Value().Int64()
+			err = unmarshalInt64(elem, &p.Errors)
+		}
+
+		if err != nil {
+			return err
 		}
 	}
 
@@ -128,11 +140,17 @@ func (p *PerformanceCounters) UnmarshalDocument(doc *birch.Document) error {
 
 func (p *PerformanceTimers) UnmarshalDocument(doc *birch.Document) error {
 	for elem := range doc.Iterator() {
+		var err error
+
 		switch elem.Key() {
 		case "dur":
-			p.Duration = time.Duration(elem.Value().Int64())
+			err = unmarshalInt64(elem, (*int64)(&p.Duration))
 		case "total":
-			p.Total = time.Duration(elem.Value().Int64())
+			err = unmarshalInt64(elem, (*int64)(&p.Total))
+		}
+
+		if err != nil {
+			return err
 		}
 	}
 
@@ -141,29 +159,64 @@ func (p *PerformanceTimers) UnmarshalDocument(doc *birch.Document) error {
 
 func (p *PerformanceGauges) UnmarshalDocument(doc *birch.Document) error {
 	for elem := range doc.Iterator() {
+		var err error
+
 		switch elem.Key() {
 		case "state":
-			p.State = elem.Value().Int64()
+			err = unmarshalInt64(elem, &p.State)
 		case "workers":
-			p.Workers = elem.Value().Int64()
+			err = unmarshalInt64(elem, &p.Workers)
 		case "failed":
-			p.Failed = elem.Value().Boolean()
+			failed, ok := elem.Value().BooleanOK()
+			if !ok {
+				return unmarshalError(elem)
+			}
+			p.Failed = failed
 		}
+
+		if err != nil {
+			return err
+		}
+	}
+
+	return nil
+}
+
+func unmarshalError(elem *birch.Element) error {
+	return fmt.Errorf("field '%s' has unexpected type %s", elem.Key(), elem.Value().Type())
+}
+
+func unmarshalInt64(elem *birch.Element, out *int64) error {
+	val, ok := elem.Value().Int64OK()
+	if !ok {
+		return unmarshalError(elem)
 	}
 
+	*out = val
+
 	return nil
 }
 
+func unmarshalSubDocument(elem *birch.Element, out birch.DocumentUnmarshaler) error {
+	doc, ok := elem.Value().MutableDocumentOK()
+	if !ok {
+		return unmarshalError(elem)
+	}
+
+	return out.UnmarshalDocument(doc)
+}
+
 // Add combines the values of the input Performance struct into this struct,
 // logically, overriding the Gauges values as well as the timestamp and ID
 // ID values, while summing the Counters and Timers values.
 func (p *Performance) Add(in *Performance) {
 	if in.ID == 0 {
-		in.ID = p.ID + 1
+		p.ID++
+	} else {
+		p.ID = in.ID
 	}
 
 	p.Timestamp = in.Timestamp
-	p.ID = in.ID
 	p.Counters.Number += in.Counters.Number
 	p.Counters.Errors += in.Counters.Errors
 	p.Counters.Operations += in.Counters.Operations
-- 
2.43.0


From 5debe6b03bb32a28c40441fcaa20e457725a166e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:18 +0000
Subject: [PATCH 39/56] fix: decode histograms without a registered unmarshaler
 and reject malformed ones

---
 x/ftdc/hdrhist/snapshot.go | 104 +++++++++++++++++++++++++++++++++++--
 1 file changed, 99 insertions(+), 5 deletions(-)

diff --git a/x/ftdc/hdrhist/snapshot.go b/x/ftdc/hdrhist/snapshot.go
index 1274bb2..0cfa2d4 100644
--- a/x/ftdc/hdrhist/snapshot.go
+++ b/x/ftdc/hdrhist/snapshot.go
@@ -2,9 +2,11 @@ package hdrhist
 
 import (
 	"encoding/json"
+	"fmt"
+	"math"
+	"math/bits"
 
 	"github.com/tychoish/birch"
-	"github.com/tychoish/birch/x/ftdc/util"
 	"github.com/tychoish/fun/dt/hdrhist"
 )
 
@@ -28,13 +30,37 @@ func (h *Histogram) MarshalBSON() ([]byte, error) { return birch.MarshalDocument
 func (h *Histogram) MarshalJSON() ([]byte, error) { return json.Marshal(h.Export()) }
 
 func (h *Histogram) UnmarshalBSON(in []byte) error {
-	s := &hdrhist.Snapshot{}
-	if err := util.GlobalUnmarshaler()(in, s); err != nil {
+	doc, err := birch.ReadDocument(in)
+	if err != nil {
 		return err
 	}
 
-	*h = Histogram{hdrhist.Import(s)}
-	return nil
+	return h.UnmarshalDocument(doc)
+}
+
+func (h *Histogram) UnmarshalDocument(doc *birch.Document) error {
+	s := &hdrhist.Snapshot{}
+
+	for elem := range doc.Iterator() {
+		ok := true
+
+		switch elem.Key() {
+		case "lowest":
+			s.LowestTrackableValue, ok = elem.Value().Int64OK()
+		case "highest":
+			s.HighestTrackableValue, ok = elem.Value().Int64OK()
+		case "figures":
+			s.SignificantFigures, ok = elem.Value().Int64OK()
+		case "counts":
+			s.Counts, ok = readCounts(elem.Value())
+		}
+
+		if !ok {
+			return fmt.Errorf("histogram field '%s' has unexpected type", elem.Key())
+		}
+	}
+
+	return h.load(s)
 }
 
 func (h *Histogram) UnmarshalJSON(in []byte) error {
@@ -43,6 +69,74 @@ func (h *Histogram) UnmarshalJSON(in []byte) error {
 		return err
 	}
 
+	return h.load(s)
+}
+
+func (h *Histogram) load(s *hdrhist.Snapshot) error {
+	if err := validate(s); err != nil {
+		return err
+	}
+
 	*h = Histogram{hdrhist.Import(s)}
+
+	return nil
+}
+
+func readCounts(val *birch.Value) ([]int64, bool) {
+	array, ok := val.MutableArrayOK()
+	if !ok {
+		return nil, false
+	}
+
+	out := make([]int64, 0, array.Len())
+
+	for elem := range array.Iterator() {
+		count, ok := elem.Int64OK()
+		if !ok {
+			return nil, false
+		}
+
+		out = append(out, count)
+	}
+
+	return out, true
+}
+
+// validate checks that there is a histogram for the snapshot, as
+// hdrhist.Import requires.
+func validate(s *hdrhist.Snapshot) error {
+	if s.SignificantFigures < 1 || s.SignificantFigures > 5 {
+		return fmt.Errorf("histograms have 1 to 5 significant figures, not %d", s.SignificantFigures)
+	}
+
+	unit := 0
+	if s.LowestTrackableValue > 0 {
+		unit = int(math.Log2(float64(s.LowestTrackableValue)))
+	}
+
+	// the number of values, as a power of two, in the buckets.
+	magnitude := bits.Len64(uint64(2*math.Pow10(int(s.SignificantFigures))) - 1)
+
+	const maxMagnitude = 62
+	if magnitude+unit > maxMagnitude || s.HighestTrackableValue > 1<<maxMagnitude {
+		return fmt.Errorf("histograms cannot track values from %d to %d with %d significant figures",
+			s.LowestTrackableValue, s.HighestTrackableValue, s.SignificantFigures)
+	}
+
+	buckets := 1
+	for untrackable := int64(1) << (magnitude + unit); untrackable < s.HighestTrackableValue; untrackable <<= 1 {
+		buckets++
+	}
+
+	if num := (buckets + 1) << (magnitude - 1); len(s.Counts) != num {
+		return fmt.Errorf("histogram has %d counts, rather than %d", len(s.Counts), num)
+	}
+
+	for _, count := range s.Counts {
+		if count < 0 {
+			return fmt.Errorf("histogram has negative count %d", count)
+		}
+	}
+
 	return nil
 }
-- 
2.43.0


From bbfe223fcb1557085e44498caaee6295f3c1decd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:48 +0000
Subject: [PATCH 40/56] fix: encode every kind of slice that custom points
 accept

---
 x/ftdc/events/custom.go | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/x/ftdc/events/custom.go b/x/ftdc/events/custom.go
index fe7a1a3..d817529 100644
--- a/x/ftdc/events/custom.go
+++ b/x/ftdc/events/custom.go
@@ -95,7 +95,7 @@ func (ps Custom) MarshalDocument() (*birch.Document, error) {
 	doc := birch.DC.Make(ps.Len())
 
 	for _, elem := range ps {
-		de, err := birch.ECE.Interface(elem.Name, elem.Value)
+		de, err := elem.element()
 		if err != nil {
 			return nil, err
 		}
@@ -104,3 +104,25 @@ func (ps Custom) MarshalDocument() (*birch.Document, error) {
 
 	return doc, nil
 }
+
+func (p CustomPoint) element() (*birch.Element, error) {
+	switch v := p.Value.(type) {
+	case []bool:
+		return sliceElement(p.Name, v)
+	case []uint32:
+		return sliceElement(p.Name, v)
+	case []uint64:
+		return sliceElement(p.Name, v)
+	default:
+		return birch.ECE.Interface(p.Name, v)
+	}
+}
+
+func sliceElement[T any](name string, in []T) (*birch.Element, error) {
+	vals := make([]any, len(in))
+	for idx := range in {
+		vals[idx] = in[idx]
+	}
+
+	return birch.ECE.SliceInterface(name, vals)
+}
-- 
2.43.0


From f981ef6312dbd5327760cbf80bbd62316c507ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:50 +0000
Subject: [PATCH 41/56] fix: events collectors sum events in a copy of the
 first one, and sample every event at least

---
 x/ftdc/events/collector.go   | 13 +++++++++----
 x/ftdc/events/performance.go |  2 ++
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/x/ftdc/events/collector.go b/x/ftdc/events/collector.go
index 876bdf8..50631ec 100644
--- a/x/ftdc/events/collector.go
+++ b/x/ftdc/events/collector.go
@@ -48,7 +48,7 @@ func (c *basicCumulativeCollector) AddEvent(in *Performance) error {
 		return errors.New("cannot add nil performance event")
 	}
 	if c.current == nil {
-		c.current = in
+		c.current = in.copy()
 		return c.Collector.Add(c.current)
 	}
 
@@ -88,7 +88,12 @@ type samplingCollector struct {
 // NewSamplingCollector constructs a collector that has the same
 // semantics as the basic, adding all sampled documents together, but
 // only persisting every n-th sample to the underlying collector.
+// Values of n less than one persist every sample.
 func NewSamplingCollector(fc ftdc.Collector, n int) Collector {
+	if n < 1 {
+		n = 1
+	}
+
 	return &samplingCollector{
 		sample:    n,
 		Collector: fc,
@@ -102,7 +107,7 @@ func (c *samplingCollector) AddEvent(in *Performance) error {
 	}
 
 	if c.current == nil {
-		c.current = in
+		c.current = in.copy()
 	} else {
 		c.current.Add(in)
 	}
@@ -142,7 +147,7 @@ func (c *randSamplingCollector) AddEvent(in *Performance) error {
 	}
 
 	if c.current == nil {
-		c.current = in
+		c.current = in.copy()
 	} else {
 		c.current.Add(in)
 	}
@@ -189,7 +194,7 @@ func (c *intervalSamplingCollector) AddEvent(in *Performance) error {
 	}
 
 	if c.current == nil {
-		c.current = in
+		c.current = in.copy()
 		c.lastCollected = time.Now()
 		return c.Collector.Add(c.current)
 	}
diff --git a/x/ftdc/events/performance.go b/x/ftdc/events/performance.go
index 7fbf005..b116037 100644
--- a/x/ftdc/events/performance.go
+++ b/x/ftdc/events/performance.go
@@ -206,6 +206,8 @@ func unmarshalSubDocument(elem *birch.Element, out birch.DocumentUnmarshaler) er
 	return out.UnmarshalDocument(doc)
 }
 
+func (p *Performance) copy() *Performance { out := *p; return &out }
+
 // Add combines the values of the input Performance struct into this struct,
 // logically, overriding the Gauges values as well as the timestamp and ID
 // ID values, while summing the Counters and Timers values.
-- 
2.43.0


From 73262df2c327d167c5731ad707607cfadbf138c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:10 +0000
Subject: [PATCH 42/56] fix: event recorders persist every recorded value once,
 with its own timestamp, and do not deadlock

Points passed to the collector were reused, so that later points kept the
timestamp of the first one, values recorded after the last persisted point
without a timestamp were lost at EndTest, the interval recorder did not count
iterations and could return from its worker holding the lock, the grouped
histogram recorder ignored its interval, the interval histogram recorder
recorded the total of an iteration twice, and the shim did not time
iterations.
---
 x/ftdc/events/histogram.go                    | 18 +++++++++++++++++
 x/ftdc/events/recorder_histogram.go           | 18 ++++++++++++++---
 x/ftdc/events/recorder_histogram_grouped.go   | 19 +++++++++++++++---
 x/ftdc/events/recorder_histogram_interval.go  |  9 +++++++--
 x/ftdc/events/recorder_performance_grouped.go | 20 ++++++++++++++-----
 .../events/recorder_performance_interval.go   | 17 +++++++++++-----
 x/ftdc/events/recorder_performance_raw.go     | 17 +++++++++++++---
 x/ftdc/events/recorder_wrapper_stdlib.go      |  4 ++--
 8 files changed, 99 insertions(+), 23 deletions(-)

diff --git a/x/ftdc/events/histogram.go b/x/ftdc/events/histogram.go
index 5f81bd5..7ea665d 100644
--- a/x/ftdc/events/histogram.go
+++ b/x/ftdc/events/histogram.go
@@ -107,6 +107,24 @@ func (p *PerformanceHDR) MarshalDocument() (*birch.Document, error) {
 	), nil
 }
 
+// hdrState identifies what a histogram point holds, while values are
+// only recorded.
+type hdrState struct {
+	id     int64
+	count  int64
+	gauges PerformanceGauges
+}
+
+func (p *PerformanceHDR) state() hdrState {
+	return hdrState{
+		id: p.ID,
+		count: p.Counters.Number.TotalCount() + p.Counters.Operations.TotalCount() +
+			p.Counters.Size.TotalCount() + p.Counters.Errors.TotalCount() +
+			p.Timers.Duration.TotalCount() + p.Timers.Total.TotalCount(),
+		gauges: p.Gauges,
+	}
+}
+
 func (p *PerformanceHDR) setTimestamp(started time.Time) {
 	if p.Timestamp.IsZero() {
 		if !started.IsZero() {
diff --git a/x/ftdc/events/recorder_histogram.go b/x/ftdc/events/recorder_histogram.go
index b44dd4e..13bff0f 100644
--- a/x/ftdc/events/recorder_histogram.go
+++ b/x/ftdc/events/recorder_histogram.go
@@ -9,6 +9,7 @@ import (
 
 type histogramStream struct {
 	point     *PerformanceHDR
+	persisted hdrState
 	started   time.Time
 	collector ftdc.Collector
 	catcher   erc.Collector
@@ -57,7 +58,16 @@ func (r *histogramStream) EndIteration(dur time.Duration) {
 		r.started = time.Time{}
 	}
 
-	r.catcher.Push(r.collector.Add(r.point))
+	r.persist()
+}
+
+// persist passes the point to the collector, and leaves the next one to
+// have its own timestamp.
+func (r *histogramStream) persist() {
+	point := *r.point
+	r.catcher.Push(r.collector.Add(&point))
+	r.point.Timestamp = time.Time{}
+	r.persisted = r.point.state()
 }
 
 func (r *histogramStream) SetDuration(dur time.Duration) {
@@ -76,8 +86,9 @@ func (r *histogramStream) SetTime(t time.Time) { r.point.Timestamp = t }
 func (r *histogramStream) BeginIteration()     { r.started = time.Now(); r.point.setTimestamp(r.started) }
 
 func (r *histogramStream) EndTest() error {
-	if !r.point.Timestamp.IsZero() {
-		r.catcher.Push(r.collector.Add(r.point))
+	if !r.point.Timestamp.IsZero() || r.point.state() != r.persisted {
+		r.point.setTimestamp(r.started)
+		r.persist()
 	}
 	err := r.catcher.Resolve()
 	r.Reset()
@@ -87,5 +98,6 @@ func (r *histogramStream) EndTest() error {
 func (r *histogramStream) Reset() {
 	r.catcher = erc.Collector{}
 	r.point = NewHistogramMillisecond(r.point.Gauges)
+	r.persisted = r.point.state()
 	r.started = time.Time{}
 }
diff --git a/x/ftdc/events/recorder_histogram_grouped.go b/x/ftdc/events/recorder_histogram_grouped.go
index 46ae3a3..b86889b 100644
--- a/x/ftdc/events/recorder_histogram_grouped.go
+++ b/x/ftdc/events/recorder_histogram_grouped.go
@@ -9,6 +9,7 @@ import (
 
 type histogramGroupedStream struct {
 	point         *PerformanceHDR
+	persisted     hdrState
 	lastCollected time.Time
 	started       time.Time
 	interval      time.Duration
@@ -32,6 +33,7 @@ func NewHistogramGroupedRecorder(collector ftdc.Collector, interval time.Duratio
 	return &histogramGroupedStream{
 		point:     NewHistogramMillisecond(PerformanceGauges{}),
 		collector: collector,
+		interval:  interval,
 	}
 }
 
@@ -62,11 +64,20 @@ func (r *histogramGroupedStream) EndIteration(dur time.Duration) {
 	}
 
 	if time.Since(r.lastCollected) >= r.interval {
-		r.catcher.Push(r.collector.Add(r.point))
+		r.persist()
 		r.lastCollected = time.Now()
 	}
 }
 
+// persist passes the point to the collector, and leaves the next one to
+// have its own timestamp.
+func (r *histogramGroupedStream) persist() {
+	point := *r.point
+	r.catcher.Push(r.collector.Add(&point))
+	r.point.Timestamp = time.Time{}
+	r.persisted = r.point.state()
+}
+
 func (r *histogramGroupedStream) SetTotalDuration(dur time.Duration) {
 	r.catcher.Push(r.point.Timers.Total.RecordValue(int64(dur)))
 }
@@ -86,8 +97,9 @@ func (r *histogramGroupedStream) BeginIteration() {
 }
 
 func (r *histogramGroupedStream) EndTest() error {
-	if !r.point.Timestamp.IsZero() {
-		r.catcher.Push(r.collector.Add(r.point))
+	if !r.point.Timestamp.IsZero() || r.point.state() != r.persisted {
+		r.point.setTimestamp(r.started)
+		r.persist()
 	}
 	err := r.catcher.Resolve()
 	r.Reset()
@@ -97,6 +109,7 @@ func (r *histogramGroupedStream) EndTest() error {
 func (r *histogramGroupedStream) Reset() {
 	r.catcher = erc.Collector{}
 	r.point = NewHistogramMillisecond(r.point.Gauges)
+	r.persisted = r.point.state()
 	r.lastCollected = time.Time{}
 	r.started = time.Time{}
 }
diff --git a/x/ftdc/events/recorder_histogram_interval.go b/x/ftdc/events/recorder_histogram_interval.go
index cadc7f8..2de85ad 100644
--- a/x/ftdc/events/recorder_histogram_interval.go
+++ b/x/ftdc/events/recorder_histogram_interval.go
@@ -11,6 +11,7 @@ import (
 
 type intervalHistogramStream struct {
 	point     *PerformanceHDR
+	persisted hdrState
 	started   time.Time
 	collector ftdc.Collector
 	catcher   erc.Collector
@@ -52,12 +53,13 @@ func (r *intervalHistogramStream) worker(ctx context.Context, interval time.Dura
 			// the lock is requested and when the lock is obtained,
 			// the context has been canceled
 			if ctx.Err() != nil {
+				r.Unlock()
 				return
 			}
 			r.point.setTimestamp(r.started)
 			r.catcher.Push(r.collector.Add(r.point))
-			r.point.Timestamp = time.Time{}
 			r.point = NewHistogramMillisecond(r.point.Gauges)
+			r.persisted = r.point.state()
 			r.Unlock()
 		}
 	}
@@ -86,6 +88,7 @@ func (r *intervalHistogramStream) EndIteration(dur time.Duration) {
 
 	if !r.started.IsZero() {
 		r.catcher.Push(r.point.Timers.Total.RecordValue(int64(time.Since(r.started))))
+		r.started = time.Time{}
 	}
 
 	r.Unlock()
@@ -122,7 +125,8 @@ func (r *intervalHistogramStream) EndTest() error {
 		r.catcher.Push(r.point.Timers.Total.RecordValue(int64(time.Since(r.started))))
 		r.started = time.Time{}
 	}
-	if !r.point.Timestamp.IsZero() {
+	if !r.point.Timestamp.IsZero() || r.point.state() != r.persisted {
+		r.point.setTimestamp(r.started)
 		r.catcher.Push(r.collector.Add(r.point))
 	}
 	err := r.catcher.Resolve()
@@ -145,6 +149,7 @@ func (r *intervalHistogramStream) reset() {
 	}
 	r.catcher = erc.Collector{}
 	r.point = NewHistogramMillisecond(r.point.Gauges)
+	r.persisted = r.point.state()
 	r.started = time.Time{}
 }
 
diff --git a/x/ftdc/events/recorder_performance_grouped.go b/x/ftdc/events/recorder_performance_grouped.go
index 77d460f..efbab40 100644
--- a/x/ftdc/events/recorder_performance_grouped.go
+++ b/x/ftdc/events/recorder_performance_grouped.go
@@ -12,6 +12,7 @@ type groupStream struct {
 	lastCollected time.Time
 	interval      time.Duration
 	point         *Performance
+	persisted     Performance
 	collector     ftdc.Collector
 	catcher       erc.Collector
 }
@@ -49,19 +50,27 @@ func (r *groupStream) EndIteration(dur time.Duration) {
 		r.point.Timers.Total += time.Since(r.started)
 	}
 	r.point.Timers.Duration += dur
+	r.point.setTimestamp(r.started)
 
 	if time.Since(r.lastCollected) >= r.interval {
-		r.point.setTimestamp(r.started)
-		r.catcher.Push(r.collector.Add(r.point))
+		r.persist()
 		r.lastCollected = time.Now()
-		r.point.Timestamp = time.Time{}
 	}
 	r.started = time.Time{}
 }
 
+// persist passes a copy of the point to the collector, and leaves the
+// next point to have its own timestamp.
+func (r *groupStream) persist() {
+	r.catcher.Push(r.collector.Add(r.point.copy()))
+	r.point.Timestamp = time.Time{}
+	r.persisted = *r.point
+}
+
 func (r *groupStream) EndTest() error {
-	if !r.point.Timestamp.IsZero() {
-		r.catcher.Push(r.collector.Add(r.point))
+	if !r.point.Timestamp.IsZero() || *r.point != r.persisted {
+		r.point.setTimestamp(r.started)
+		r.persist()
 	}
 	err := r.catcher.Resolve()
 	r.Reset()
@@ -73,6 +82,7 @@ func (r *groupStream) Reset() {
 	r.point = &Performance{
 		Gauges: r.point.Gauges,
 	}
+	r.persisted = *r.point
 	r.started = time.Time{}
 	r.lastCollected = time.Time{}
 }
diff --git a/x/ftdc/events/recorder_performance_interval.go b/x/ftdc/events/recorder_performance_interval.go
index 2d121ba..96957d7 100644
--- a/x/ftdc/events/recorder_performance_interval.go
+++ b/x/ftdc/events/recorder_performance_interval.go
@@ -11,6 +11,7 @@ import (
 
 type intervalStream struct {
 	point     *Performance
+	persisted Performance
 	started   time.Time
 	collector ftdc.Collector
 	catcher   erc.Collector
@@ -52,13 +53,12 @@ func (r *intervalStream) worker(ctx context.Context, interval time.Duration) {
 			// the lock is requested and when the lock is obtained,
 			// the context has been canceled
 			if ctx.Err() != nil {
+				r.Unlock()
 				return
 			}
 			r.point.setTimestamp(r.started)
 			r.catcher.Push(r.collector.Add(r.point))
-			r.point = &Performance{
-				Gauges: r.point.Gauges,
-			}
+			r.resetPoint()
 			r.Unlock()
 		}
 	}
@@ -95,6 +95,7 @@ func (r *intervalStream) EndIteration(dur time.Duration) {
 	r.Lock()
 
 	r.point.setTimestamp(r.started)
+	r.point.Counters.Number++
 	if !r.started.IsZero() {
 		r.point.Timers.Total += time.Since(r.started)
 		r.started = time.Time{}
@@ -107,7 +108,8 @@ func (r *intervalStream) EndIteration(dur time.Duration) {
 func (r *intervalStream) EndTest() error {
 	r.Lock()
 
-	if !r.point.Timestamp.IsZero() {
+	if !r.point.Timestamp.IsZero() || *r.point != r.persisted {
+		r.point.setTimestamp(r.started)
 		r.catcher.Push(r.collector.Add(r.point))
 	}
 	err := r.catcher.Resolve()
@@ -130,10 +132,15 @@ func (r *intervalStream) reset() {
 		r.canceler = nil
 	}
 	r.catcher = erc.Collector{}
+	r.resetPoint()
+	r.started = time.Time{}
+}
+
+func (r *intervalStream) resetPoint() {
 	r.point = &Performance{
 		Gauges: r.point.Gauges,
 	}
-	r.started = time.Time{}
+	r.persisted = *r.point
 }
 
 func (r *intervalStream) SetTotalDuration(dur time.Duration) {
diff --git a/x/ftdc/events/recorder_performance_raw.go b/x/ftdc/events/recorder_performance_raw.go
index f3c086a..c8d7e18 100644
--- a/x/ftdc/events/recorder_performance_raw.go
+++ b/x/ftdc/events/recorder_performance_raw.go
@@ -10,6 +10,7 @@ import (
 type rawStream struct {
 	started   time.Time
 	point     *Performance
+	persisted Performance
 	collector ftdc.Collector
 	catcher   erc.Collector
 }
@@ -46,13 +47,22 @@ func (r *rawStream) EndIteration(dur time.Duration) {
 
 	r.point.setTimestamp(r.started)
 	r.point.Timers.Duration += dur
-	r.catcher.Push(r.collector.Add(r.point))
+	r.persist()
 	r.started = time.Time{}
 }
 
+// persist passes a copy of the point to the collector, and leaves the
+// next point to have its own timestamp.
+func (r *rawStream) persist() {
+	r.catcher.Push(r.collector.Add(r.point.copy()))
+	r.point.Timestamp = time.Time{}
+	r.persisted = *r.point
+}
+
 func (r *rawStream) EndTest() error {
-	if !r.point.Timestamp.IsZero() {
-		r.catcher.Push(r.collector.Add(r.point))
+	if !r.point.Timestamp.IsZero() || *r.point != r.persisted {
+		r.point.setTimestamp(r.started)
+		r.persist()
 	}
 	err := r.catcher.Resolve()
 	r.Reset()
@@ -64,5 +74,6 @@ func (r *rawStream) Reset() {
 	r.point = &Performance{
 		Gauges: r.point.Gauges,
 	}
+	r.persisted = *r.point
 	r.started = time.Time{}
 }
diff --git a/x/ftdc/events/recorder_wrapper_stdlib.go b/x/ftdc/events/recorder_wrapper_stdlib.go
index 5f47b8d..fb7fb67 100644
--- a/x/ftdc/events/recorder_wrapper_stdlib.go
+++ b/x/ftdc/events/recorder_wrapper_stdlib.go
@@ -30,11 +30,11 @@ func (r *stdShim) Reset() {
 	r.b.ResetTimer()
 	r.Recorder.Reset()
 }
-func (r *stdShim) Begin() {
+func (r *stdShim) BeginIteration() {
 	r.b.StartTimer()
 	r.Recorder.BeginIteration()
 }
-func (r *stdShim) End(dur time.Duration) {
+func (r *stdShim) EndIteration(dur time.Duration) {
 	r.b.StopTimer()
 	r.Recorder.EndIteration(dur)
 }
-- 
2.43.0


From 9094ff7969514401ba45fb6fe32d7addbfbd2a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:11 +0000
Subject: [PATCH 43/56] fix: event recorders report collector errors when there
 are several of them

Resolve returned the recorder's own error collector when it held more than
one error, and resetting the recorder emptied it.
---
 x/ftdc/events/recorder_histogram.go            | 5 +++--
 x/ftdc/events/recorder_histogram_grouped.go    | 5 +++--
 x/ftdc/events/recorder_histogram_interval.go   | 5 +++--
 x/ftdc/events/recorder_histogram_single.go     | 5 +++--
 x/ftdc/events/recorder_performance_grouped.go  | 5 +++--
 x/ftdc/events/recorder_performance_interval.go | 5 +++--
 x/ftdc/events/recorder_performance_raw.go      | 5 +++--
 7 files changed, 21 insertions(+), 14 deletions(-)

diff --git a/x/ftdc/events/recorder_histogram.go b/x/ftdc/events/recorder_histogram.go
index 13bff0f..c8b1ff6 100644
--- a/x/ftdc/events/recorder_histogram.go
+++ b/x/ftdc/events/recorder_histogram.go
@@ -12,7 +12,7 @@ type histogramStream struct {
 	persisted hdrState
 	started   time.Time
 	collector ftdc.Collector
-	catcher   erc.Collector
+	catcher   *erc.Collector
 }
 
 // NewHistogramRecorder collects data and stores them with a histogram format.
@@ -30,6 +30,7 @@ func NewHistogramRecorder(collector ftdc.Collector) Recorder {
 	return &histogramStream{
 		point:     NewHistogramMillisecond(PerformanceGauges{}),
 		collector: collector,
+		catcher:   &erc.Collector{},
 	}
 }
 
@@ -96,7 +97,7 @@ func (r *histogramStream) EndTest() error {
 }
 
 func (r *histogramStream) Reset() {
-	r.catcher = erc.Collector{}
+	r.catcher = &erc.Collector{}
 	r.point = NewHistogramMillisecond(r.point.Gauges)
 	r.persisted = r.point.state()
 	r.started = time.Time{}
diff --git a/x/ftdc/events/recorder_histogram_grouped.go b/x/ftdc/events/recorder_histogram_grouped.go
index b86889b..e0238b0 100644
--- a/x/ftdc/events/recorder_histogram_grouped.go
+++ b/x/ftdc/events/recorder_histogram_grouped.go
@@ -14,7 +14,7 @@ type histogramGroupedStream struct {
 	started       time.Time
 	interval      time.Duration
 	collector     ftdc.Collector
-	catcher       erc.Collector
+	catcher       *erc.Collector
 }
 
 // NewHistogramGroupedRecorder captures data and stores them with a
@@ -33,6 +33,7 @@ func NewHistogramGroupedRecorder(collector ftdc.Collector, interval time.Duratio
 	return &histogramGroupedStream{
 		point:     NewHistogramMillisecond(PerformanceGauges{}),
 		collector: collector,
+		catcher:   &erc.Collector{},
 		interval:  interval,
 	}
 }
@@ -107,7 +108,7 @@ func (r *histogramGroupedStream) EndTest() error {
 }
 
 func (r *histogramGroupedStream) Reset() {
-	r.catcher = erc.Collector{}
+	r.catcher = &erc.Collector{}
 	r.point = NewHistogramMillisecond(r.point.Gauges)
 	r.persisted = r.point.state()
 	r.lastCollected = time.Time{}
diff --git a/x/ftdc/events/recorder_histogram_interval.go b/x/ftdc/events/recorder_histogram_interval.go
index 2de85ad..86ec220 100644
--- a/x/ftdc/events/recorder_histogram_interval.go
+++ b/x/ftdc/events/recorder_histogram_interval.go
@@ -14,7 +14,7 @@ type intervalHistogramStream struct {
 	persisted hdrState
 	started   time.Time
 	collector ftdc.Collector
-	catcher   erc.Collector
+	catcher   *erc.Collector
 	sync.Mutex
 
 	interval time.Duration
@@ -33,6 +33,7 @@ type intervalHistogramStream struct {
 func NewIntervalHistogramRecorder(ctx context.Context, collector ftdc.Collector, interval time.Duration) Recorder {
 	return &intervalHistogramStream{
 		collector: collector,
+		catcher:   &erc.Collector{},
 		rootCtx:   ctx,
 		interval:  interval,
 		point:     NewHistogramMillisecond(PerformanceGauges{}),
@@ -147,7 +148,7 @@ func (r *intervalHistogramStream) reset() {
 		r.canceler()
 		r.canceler = nil
 	}
-	r.catcher = erc.Collector{}
+	r.catcher = &erc.Collector{}
 	r.point = NewHistogramMillisecond(r.point.Gauges)
 	r.persisted = r.point.state()
 	r.started = time.Time{}
diff --git a/x/ftdc/events/recorder_histogram_single.go b/x/ftdc/events/recorder_histogram_single.go
index 0d3f9f8..26ccc13 100644
--- a/x/ftdc/events/recorder_histogram_single.go
+++ b/x/ftdc/events/recorder_histogram_single.go
@@ -11,7 +11,7 @@ type histogramSingle struct {
 	point     *PerformanceHDR
 	started   time.Time
 	collector ftdc.Collector
-	catcher   erc.Collector
+	catcher   *erc.Collector
 }
 
 // NewSingleHistogramRecorder collects data and stores them with a histogram
@@ -29,6 +29,7 @@ func NewSingleHistogramRecorder(collector ftdc.Collector) Recorder {
 	return &histogramSingle{
 		point:     NewHistogramMillisecond(PerformanceGauges{}),
 		collector: collector,
+		catcher:   &erc.Collector{},
 	}
 }
 
@@ -82,7 +83,7 @@ func (r *histogramSingle) EndTest() error {
 }
 
 func (r *histogramSingle) Reset() {
-	r.catcher = erc.Collector{}
+	r.catcher = &erc.Collector{}
 	r.point = NewHistogramMillisecond(r.point.Gauges)
 	r.started = time.Time{}
 }
diff --git a/x/ftdc/events/recorder_performance_grouped.go b/x/ftdc/events/recorder_performance_grouped.go
index efbab40..8486bec 100644
--- a/x/ftdc/events/recorder_performance_grouped.go
+++ b/x/ftdc/events/recorder_performance_grouped.go
@@ -14,7 +14,7 @@ type groupStream struct {
 	point         *Performance
 	persisted     Performance
 	collector     ftdc.Collector
-	catcher       erc.Collector
+	catcher       *erc.Collector
 }
 
 // NewGroupedRecorder blends the single and the interval recorders, but it
@@ -26,6 +26,7 @@ type groupStream struct {
 func NewGroupedRecorder(collector ftdc.Collector, interval time.Duration) Recorder {
 	return &groupStream{
 		collector:     collector,
+		catcher:       &erc.Collector{},
 		point:         &Performance{Timestamp: time.Time{}},
 		interval:      interval,
 		lastCollected: time.Now(),
@@ -78,7 +79,7 @@ func (r *groupStream) EndTest() error {
 }
 
 func (r *groupStream) Reset() {
-	r.catcher = erc.Collector{}
+	r.catcher = &erc.Collector{}
 	r.point = &Performance{
 		Gauges: r.point.Gauges,
 	}
diff --git a/x/ftdc/events/recorder_performance_interval.go b/x/ftdc/events/recorder_performance_interval.go
index 96957d7..fd59d9f 100644
--- a/x/ftdc/events/recorder_performance_interval.go
+++ b/x/ftdc/events/recorder_performance_interval.go
@@ -14,7 +14,7 @@ type intervalStream struct {
 	persisted Performance
 	started   time.Time
 	collector ftdc.Collector
-	catcher   erc.Collector
+	catcher   *erc.Collector
 	sync.Mutex
 
 	interval time.Duration
@@ -33,6 +33,7 @@ type intervalStream struct {
 func NewIntervalRecorder(ctx context.Context, collector ftdc.Collector, interval time.Duration) Recorder {
 	return &intervalStream{
 		collector: collector,
+		catcher:   &erc.Collector{},
 		rootCtx:   ctx,
 		point:     &Performance{Timestamp: time.Time{}},
 		interval:  interval,
@@ -131,7 +132,7 @@ func (r *intervalStream) reset() {
 		r.canceler()
 		r.canceler = nil
 	}
-	r.catcher = erc.Collector{}
+	r.catcher = &erc.Collector{}
 	r.resetPoint()
 	r.started = time.Time{}
 }
diff --git a/x/ftdc/events/recorder_performance_raw.go b/x/ftdc/events/recorder_performance_raw.go
index c8d7e18..f32f8fc 100644
--- a/x/ftdc/events/recorder_performance_raw.go
+++ b/x/ftdc/events/recorder_performance_raw.go
@@ -12,7 +12,7 @@ type rawStream struct {
 	point     *Performance
 	persisted Performance
 	collector ftdc.Collector
-	catcher   erc.Collector
+	catcher   *erc.Collector
 }
 
 // NewRawRecorder records a new event every time that the EndIteration method
@@ -23,6 +23,7 @@ type rawStream struct {
 func NewRawRecorder(collector ftdc.Collector) Recorder {
 	return &rawStream{
 		collector: collector,
+		catcher:   &erc.Collector{},
 		point:     &Performance{Timestamp: time.Time{}},
 	}
 }
@@ -70,7 +71,7 @@ func (r *rawStream) EndTest() error {
 }
 
 func (r *rawStream) Reset() {
-	r.catcher = erc.Collector{}
+	r.catcher = &erc.Collector{}
 	r.point = &Performance{
 		Gauges: r.point.Gauges,
 	}
-- 
2.43.0


From bf940381fa440b6e7dcea37e3f3980720c8da884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:50 +0000
Subject: [PATCH 44/56] fix: read JSON streams with lines of any length and
 keep samples collected before an error

Lines of more than 64 KB ended the collection without an error, read errors
were ignored, errors and cancelation discarded the samples collected so far,
and following a file read nothing after having reached its end once.
---
 x/ftdc/metrics/json.go | 227 ++++++++++++++++++++++-------------------
 1 file changed, 122 insertions(+), 105 deletions(-)

diff --git a/x/ftdc/metrics/json.go b/x/ftdc/metrics/json.go
index 027914a..4f58370 100644
--- a/x/ftdc/metrics/json.go
+++ b/x/ftdc/metrics/json.go
@@ -2,6 +2,7 @@ package metrics
 
 import (
 	"bufio"
+	"bytes"
 	"context"
 	"errors"
 	"fmt"
@@ -47,104 +48,101 @@ func (opts CollectJSONOptions) getSource(ctx context.Context) (<-chan *birch.Doc
 	out := make(chan *birch.Document)
 	errs := make(chan error, 2)
 
-	switch {
-	case opts.InputSource != nil:
-		go func() {
-			defer func() {
-				if p := recover(); p != nil {
-					errs <- fmt.Errorf("json metrics collector: %v", p)
-				}
-			}()
-			defer close(errs)
+	handler := func(line []byte) error {
+		jd, err := jsonx.DCE.Bytes(line)
+		if err != nil {
+			return err
+		}
 
-			stream := bufio.NewScanner(opts.InputSource)
+		doc, err := birch.DCE.JSONX(jd)
+		if err != nil {
+			return err
+		}
 
-			for stream.Scan() {
-				jd, err := jsonx.DCE.Bytes(stream.Bytes())
-				if err != nil {
-					errs <- err
-					return
-				}
-				doc, err := birch.DCE.JSONX(jd)
-				if err != nil {
-					errs <- err
-					return
-				}
+		select {
+		case out <- doc:
+			return nil
+		case <-ctx.Done():
+			return ctx.Err()
+		}
+	}
 
-				out <- doc
-			}
-		}()
+	var run func() error
+
+	switch {
+	case opts.InputSource != nil:
+		run = func() error { return readLines(opts.InputSource, handler) }
 	case opts.FileName != "" && !opts.Follow:
-		go func() {
-			defer func() {
-				if p := recover(); p != nil {
-					errs <- fmt.Errorf("json metrics collector: %v", p)
-				}
-			}()
-			defer close(errs)
+		run = func() (err error) {
 			f, err := os.Open(opts.FileName)
 			if err != nil {
-				errs <- fmt.Errorf("problem opening data file %s: %w", opts.FileName, err)
-				return
+				return fmt.Errorf("problem opening data file %s: %w", opts.FileName, err)
 			}
-			defer func() { errs <- f.Close() }()
-
-			stream := bufio.NewScanner(f)
-			for stream.Scan() {
-				jd, err := jsonx.DCE.Bytes(stream.Bytes())
-				if err != nil {
-					errs <- err
-					return
-				}
+			defer func() { err = errors.Join(err, f.Close()) }()
 
-				doc, err := birch.DCE.JSONX(jd)
-				if err != nil {
-					errs <- err
-					return
-				}
+			return readLines(f, handler)
+		}
+	case opts.FileName != "" && opts.Follow:
+		run = func() error { return follow(ctx, opts.FileName, handler) }
+	default:
+		run = func() error { return errors.New("invalid collect options") }
+	}
 
-				select {
-				case out <- doc:
-				case <-ctx.Done():
-				}
+	go func() {
+		defer close(errs)
+		defer func() {
+			if p := recover(); p != nil {
+				errs <- fmt.Errorf("json metrics collector: %v", p)
 			}
 		}()
-	case opts.FileName != "" && opts.Follow:
-		go func() {
-			defer func() {
-				if p := recover(); p != nil {
-					errs <- fmt.Errorf("json metrics collector: %v", p)
-				}
-			}()
-			defer close(errs)
 
-			if err := follow(ctx, opts.FileName, func(in string) error {
-				jd, err := jsonx.DCE.Bytes([]byte(in))
-				if err != nil {
-					return err
-				}
+		if err := run(); err != nil {
+			errs <- err
+		}
+	}()
 
-				doc, err := birch.DCE.JSONX(jd)
-				if err != nil {
-					return err
-				}
+	return out, errs
+}
 
-				select {
-				case out <- doc:
-					return nil
-				case <-ctx.Done():
-					return ctx.Err()
-				}
-			}); err != nil {
-				errs <- err
-				return
+// lineReader splits its input into lines, of any length.
+type lineReader struct {
+	stream  *bufio.Reader
+	partial []byte
+}
+
+// next returns the next line without its end. At the end of the input
+// the error is io.EOF and the rest of the input remains in partial,
+// to which a later call adds what the input has grown by.
+func (r *lineReader) next() ([]byte, error) {
+	chunk, err := r.stream.ReadBytes('\n')
+	r.partial = append(r.partial, chunk...)
+	if err != nil {
+		return nil, err
+	}
+
+	line := r.partial
+	r.partial = nil
+
+	return bytes.TrimSuffix(bytes.TrimSuffix(line, []byte("\n")), []byte("\r")), nil
+}
+
+func readLines(src io.Reader, handler func([]byte) error) error {
+	lines := &lineReader{stream: bufio.NewReader(src)}
+	for {
+		line, err := lines.next()
+		if err == io.EOF {
+			if len(lines.partial) == 0 {
+				return nil
 			}
-		}()
-	default:
-		errs <- errors.New("invalid collect options")
-		close(errs)
+			return handler(lines.partial)
+		}
+		if err != nil {
+			return err
+		}
+		if err := handler(line); err != nil {
+			return err
+		}
 	}
-	return out, errs
 }
 
 // CollectJSONStream provides a blocking process that reads new-line
@@ -193,22 +191,32 @@ func CollectJSONStream(ctx context.Context, opts CollectJSONOptions) error {
 		return nil
 	}
 
+	// finish keeps the samples collected so far.
+	finish := func(err error) error {
+		if ferr := flusher(); ferr != nil {
+			return errors.Join(err, fmt.Errorf("problem flushing: %w", ferr))
+		}
+
+		return err
+	}
+
+	ctx, cancel := context.WithCancel(ctx)
+	defer cancel()
+
 	docs, errs := opts.getSource(ctx)
 
 	for {
 		select {
 		case <-ctx.Done():
-			return errors.New("operation aborted")
+			return finish(errors.New("operation aborted"))
 		case err := <-errs:
-			if err == nil || errors.Is(err, io.EOF) {
-				if err := flusher(); err != nil {
-					return fmt.Errorf("problem flushing: %w", err)
-				}
+			if ctx.Err() != nil {
+				err = errors.New("operation aborted")
 			}
-			return err
+			return finish(err)
 		case doc := <-docs:
 			if err := collector.Add(doc); err != nil {
-				return fmt.Errorf("problem collecting results: %w", err)
+				return finish(fmt.Errorf("problem collecting results: %w", err))
 			}
 		case <-flushTimer.C:
 			if err := flusher(); err != nil {
@@ -218,7 +226,7 @@ func CollectJSONStream(ctx context.Context, opts CollectJSONOptions) error {
 	}
 }
 
-func follow(ctx context.Context, filename string, handler func(string) error) error {
+func follow(ctx context.Context, filename string, handler func([]byte) error) error {
 	file, err := os.Open(filename)
 	if err != nil {
 		return err
@@ -235,24 +243,33 @@ func follow(ctx context.Context, filename string, handler func(string) error) er
 		return err
 	}
 
-	stream := bufio.NewScanner(bufio.NewReader(file))
+	lines := &lineReader{stream: bufio.NewReader(file)}
 	for {
-		select {
-		case <-ctx.Done():
-			return errors.New("operation aborted")
-		case event := <-watcher.Events:
-			if event.Op&fsnotify.Write == fsnotify.Write {
-				for stream.Scan() {
-					if err := handler(stream.Text()); err != nil {
-						return err
-					}
-				}
-				if err := stream.Err(); err != nil {
-					return err
+		for {
+			line, err := lines.next()
+			if err == io.EOF {
+				break
+			}
+			if err != nil {
+				return err
+			}
+			if err := handler(line); err != nil {
+				return err
+			}
+		}
+
+	wait:
+		for {
+			select {
+			case <-ctx.Done():
+				return errors.New("operation aborted")
+			case event := <-watcher.Events:
+				if event.Op&fsnotify.Write == fsnotify.Write {
+					break wait
 				}
+			case err := <-watcher.Errors:
+				return err
 			}
-		case err := <-watcher.Errors:
-			return err
 		}
 	}
 }
-- 
2.43.0


From ecf85215826e1d3db91761e1f90baa67909abbc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:50 +0000
Subject: [PATCH 45/56] fix: collect disk statistics in a stable order

They came in random map order, so that consecutive samples mixed up disks.
---
 x/ftdc/metrics/system_info.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/x/ftdc/metrics/system_info.go b/x/ftdc/metrics/system_info.go
index 1afc9c8..71b7dec 100644
--- a/x/ftdc/metrics/system_info.go
+++ b/x/ftdc/metrics/system_info.go
@@ -4,6 +4,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"runtime"
+	"sort"
 
 	"github.com/shirou/gopsutil/cpu"
 	"github.com/shirou/gopsutil/disk"
@@ -121,6 +122,7 @@ func MakeSystemInfo(message string) *SystemInfo {
 	for _, stat := range iostatMap {
 		s.IOStat = append(s.IOStat, stat)
 	}
+	sort.Slice(s.IOStat, func(i, j int) bool { return s.IOStat[i].Name < s.IOStat[j].Name })
 
 	return s
 }
-- 
2.43.0


From 0ea630064f014ebb75dec759346fd699fe7c982e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:43 +0000
Subject: [PATCH 46/56] fix: collect runtime metrics from parallel collectors,
 and keep samples collected before an error

Running collectors in parallel never returned, a panic in one of them could go
unreported, errors discarded the samples collected so far, and a collector
whose fields changed ended the collection.
---
 x/ftdc/metrics/metrics.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/x/ftdc/metrics/metrics.go b/x/ftdc/metrics/metrics.go
index 13937b8..c2141b7 100644
--- a/x/ftdc/metrics/metrics.go
+++ b/x/ftdc/metrics/metrics.go
@@ -110,12 +110,12 @@ func (opts *CollectOptions) generate(ctx context.Context, id int) (*birch.Docume
 		wg.Add(1)
 
 		go func() {
+			defer wg.Done()
 			defer func() {
 				if p := recover(); p != nil {
 					catcher.Push(fmt.Errorf("ftdc metrics collector panic: %v", p))
 				}
 			}()
-			defer wg.Done()
 
 			for collector := range collectors {
 				elems <- birch.EC.SubDocument(collector.Name, collector.Operation(ctx))
@@ -123,6 +123,7 @@ func (opts *CollectOptions) generate(ctx context.Context, id int) (*birch.Docume
 		}()
 	}
 	wg.Wait()
+	close(elems)
 
 	for elem := range elems {
 		doc.Append(elem)
@@ -189,7 +190,7 @@ func CollectRuntime(ctx context.Context, opts CollectOptions) error {
 		return fmt.Errorf("problem creating initial file: %w", err)
 	}
 
-	collector := ftdc.NewStreamingCollector(opts.SampleCount, file)
+	collector := ftdc.NewStreamingDynamicCollector(opts.SampleCount, file)
 	collectTimer := time.NewTimer(0)
 	flushTimer := time.NewTimer(opts.FlushInterval)
 	defer collectTimer.Stop()
@@ -216,10 +217,12 @@ func CollectRuntime(ctx context.Context, opts CollectOptions) error {
 			return fmt.Errorf("problem creating subsequent file: %w", err)
 		}
 
-		collector = ftdc.NewStreamingCollector(opts.SampleCount, file)
+		collector = ftdc.NewStreamingDynamicCollector(opts.SampleCount, file)
 		return nil
 	}
 
+	defer func() { _ = file.Close() }()
+
 	for {
 		select {
 		case <-ctx.Done():
@@ -227,10 +230,10 @@ func CollectRuntime(ctx context.Context, opts CollectOptions) error {
 		case <-collectTimer.C:
 			payload, err := opts.generate(ctx, collectCount)
 			if err != nil {
-				return fmt.Errorf("problem collecting results: %w", err)
+				return errors.Join(fmt.Errorf("problem collecting results: %w", err), flusher())
 			}
 			if err := collector.Add(payload); err != nil {
-				return fmt.Errorf("problem saving results: %w", err)
+				return errors.Join(fmt.Errorf("problem saving results: %w", err), flusher())
 			}
 			collectCount++
 
-- 
2.43.0


From bb5516701bce093d942e2641807c8667416e62a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:18 +0000
Subject: [PATCH 47/56] fix: do not let refused samples end the interval of a
 sampling collector

---
 x/ftdc/collector_sample.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/x/ftdc/collector_sample.go b/x/ftdc/collector_sample.go
index 8169564..6b3feed 100644
--- a/x/ftdc/collector_sample.go
+++ b/x/ftdc/collector_sample.go
@@ -23,13 +23,19 @@ func NewSamplingCollector(minimumInterval time.Duration, collector Collector) Co
 }
 
 func (c *samplingCollector) Add(d any) error {
-	if time.Since(c.lastCollection) < c.minimumInterval {
+	now := time.Now()
+	if now.Sub(c.lastCollection) < c.minimumInterval {
 		return nil
 	}
 
-	c.lastCollection = time.Now()
+	// a sample that is refused is not a collection.
+	if err := c.Collector.Add(d); err != nil {
+		return err
+	}
+
+	c.lastCollection = now
 
-	return (c.Collector.Add(d))
+	return nil
 }
 
 func (c *samplingCollector) flush(writer io.Writer) error {
-- 
2.43.0


From 7909a93761368a7ebd2583cb516485b522788ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:46 +0000
Subject: [PATCH 48/56] fix: collect system statistics when processor times are
 not available

---
 x/ftdc/metrics/system_info.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x/ftdc/metrics/system_info.go b/x/ftdc/metrics/system_info.go
index 71b7dec..586d61d 100644
--- a/x/ftdc/metrics/system_info.go
+++ b/x/ftdc/metrics/system_info.go
@@ -80,7 +80,7 @@ func MakeSystemInfo(message string) *SystemInfo {
 	percent, err := cpu.Percent(0, false)
 	if err != nil {
 		s.saveError("cpu_times", err)
-	} else {
+	} else if len(percent) > 0 {
 		s.CPUPercent = percent[0]
 	}
 
-- 
2.43.0


From 86f871a2e2daa80964438c2a30f4e4cfbc6d417f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:04 +0000
Subject: [PATCH 49/56] fix: keep the key of an element when its value is set

---
 value.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/value.go b/value.go
index 9462cde..2ebadea 100644
--- a/value.go
+++ b/value.go
@@ -65,8 +65,13 @@ func (v *Value) Copy() *Value {
 }
 
 // Set changes the internal representation of a value to have the
-// internal representation of a second value
+// internal representation of a second value. The key of the element
+// that holds the value does not change.
 func (v *Value) Set(v2 *Value) {
+	if elem := convertValueToElem((&Element{value: v}).Key(), v2); elem != nil {
+		v2 = elem.value
+	}
+
 	v.start = v2.start
 	v.offset = v2.offset
 	v.data = v2.data
-- 
2.43.0


From f3aa91ef6fcfcb09abdbc3957e06e15e315caa38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:41 +0000
Subject: [PATCH 50/56] fix: report malformed BSON from a marshaler when
 converting it to an element

---
 x_constructor.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/x_constructor.go b/x_constructor.go
index b6e76be..0da58ac 100644
--- a/x_constructor.go
+++ b/x_constructor.go
@@ -242,6 +242,10 @@ func (ElementConstructorError) Marshaler(key string, val Marshaler) (*Element, e
 		return nil, err
 	}
 
+	if _, err = Reader(doc).Validate(); err != nil {
+		return nil, err
+	}
+
 	return EC.SubDocumentFromReader(key, doc), nil
 }
 
-- 
2.43.0


From 18d3a722629ef2bce22c68543e4943010a1fc62d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:43 +0000
Subject: [PATCH 51/56] fix: report nil documents and elements when converting
 to a document

---
 x_constructor.go | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/x_constructor.go b/x_constructor.go
index 0da58ac..d459f4f 100644
--- a/x_constructor.go
+++ b/x_constructor.go
@@ -182,7 +182,9 @@ func (DocumentConstructor) Interface(value any) *Document {
 			doc.Append(EC.Interface(bestStringAttempt(k), v))
 		}
 	case *Element:
-		doc = DC.Elements(t)
+		if t != nil {
+			doc = DC.Elements(t)
+		}
 	case *Document:
 		doc = t
 	case Reader:
@@ -213,13 +215,30 @@ func (DocumentConstructorError) Interface(value any) (*Document, error) {
 	case Reader:
 		return DCE.Reader(t)
 	case *Element:
+		if t == nil {
+			return nil, bsonerr.NilElement
+		}
+
 		return DC.Elements(t), nil
 	case []*Element:
 		return DC.Elements(t...), nil
 	case *Document:
+		if t == nil {
+			return nil, bsonerr.NilDocument
+		}
+
 		return t, nil
 	case DocumentMarshaler:
-		return t.MarshalDocument()
+		doc, err := t.MarshalDocument()
+		if err != nil {
+			return nil, err
+		}
+
+		if doc == nil {
+			return nil, bsonerr.NilDocument
+		}
+
+		return doc, nil
 	case Marshaler:
 		return DCE.Marshaler(t)
 	default:
-- 
2.43.0


From ee1c6f888f6e2fc343273ce2fc8a766bcec33948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:44 +0000
Subject: [PATCH 52/56] fix: negative positions of a JSON document hold no
 element

---
 jsonx/juniper.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonx/juniper.go b/jsonx/juniper.go
index 7f80ae9..b4b148e 100644
--- a/jsonx/juniper.go
+++ b/jsonx/juniper.go
@@ -33,7 +33,7 @@ func (d *Document) KeyAtIndex(idx int) string {
 }
 
 func (d *Document) ElementAtIndex(idx int) *Element {
-	if idx+1 > d.Len() {
+	if idx < 0 || idx >= d.Len() {
 		return nil
 	}
 
-- 
2.43.0


From 75bda66505ecd102f8490d553529e2f82be0b40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:45 +0000
Subject: [PATCH 53/56] fix: copy the documents and arrays inside a JSON value
 with it

---
 jsonx/juniper.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/jsonx/juniper.go b/jsonx/juniper.go
index b4b148e..b374dcc 100644
--- a/jsonx/juniper.go
+++ b/jsonx/juniper.go
@@ -88,8 +88,21 @@ func (v *Value) IntOK() (int, bool)            { out, ok := v.value.(int); retur
 func (v *Value) Float64OK() (float64, bool)    { out, ok := v.value.(float64); return out, ok }
 
 func (v *Value) Copy() *Value {
-	return &Value{
+	nv := &Value{
 		t:     v.t,
 		value: v.value,
 	}
+
+	switch val := v.value.(type) {
+	case *Document:
+		if val != nil {
+			nv.value = val.Copy()
+		}
+	case *Array:
+		if val != nil {
+			nv.value = val.Copy()
+		}
+	}
+
+	return nv
 }
-- 
2.43.0


From 767cf18db403db9120f32839e97dfc9b16a03443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:38 +0000
Subject: [PATCH 54/56] fix: answer the requests already received before
 closing a connection

---
 x/mrpc/service.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/x/mrpc/service.go b/x/mrpc/service.go
index 33bae88..8b0bb2c 100644
--- a/x/mrpc/service.go
+++ b/x/mrpc/service.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"io"
 	"net"
+	"sync"
 
 	"errors"
 
@@ -83,11 +84,22 @@ func (s *basicService) Run(ctx context.Context) error {
 }
 
 func (s *basicService) dispatchRequest(ctx context.Context, conn net.Conn) {
+	handlers := &sync.WaitGroup{}
+
 	defer func() {
 		if p := recover(); p != nil {
 			s.handleError(fmt.Errorf("panic responding to request: %v", p))
 		}
 
+		// the requests that were received before still have to be
+		// replied to, unless the service stops.
+		finished := make(chan struct{})
+		go func() { defer close(finished); handlers.Wait() }()
+		select {
+		case <-finished:
+		case <-ctx.Done():
+		}
+
 		if err := conn.Close(); err != nil {
 			s.handleError(fmt.Errorf("error closing connection from %q: %w", conn.RemoteAddr(), err))
 			return
@@ -128,7 +140,11 @@ func (s *basicService) dispatchRequest(ctx context.Context, conn net.Conn) {
 			return
 		}
 
-		go s.handleRequest(ctx, handler, conn, m)
+		handlers.Add(1)
+		go func() {
+			defer handlers.Done()
+			s.handleRequest(ctx, handler, conn, m)
+		}()
 	}
 }
 
-- 
2.43.0


From 73e4093744285890391e54942b9b5249984ddefa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:44 +0000
Subject: [PATCH 55/56] fix: reject regular expressions with a null byte
 instead of truncating them

---
 elements/elements.go | 23 +++++++++--------------
 x_json_unmarshal.go  |  5 +++++
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/elements/elements.go b/elements/elements.go
index dc877c4..9be2532 100644
--- a/elements/elements.go
+++ b/elements/elements.go
@@ -19,8 +19,10 @@ import (
 	"encoding/binary"
 	"errors"
 	"math"
+	"strings"
 	"unsafe"
 
+	"github.com/tychoish/birch/bsonerr"
 	"github.com/tychoish/birch/types"
 )
 
@@ -499,6 +501,11 @@ func (DatetimeNS) Element(start uint, writer []byte, key string, dt int64) (int,
 func (RegexNS) Encode(start uint, writer []byte, pattern, options string) (int, error) {
 	var total int
 
+	// both are null terminated, what follows a null byte would be lost.
+	if strings.Contains(pattern, "\x00") || strings.Contains(options, "\x00") {
+		return 0, bsonerr.InvalidString
+	}
+
 	written, err := CString.Encode(start, writer, pattern)
 	total += written
 
@@ -533,22 +540,10 @@ func (RegexNS) Element(start uint, writer []byte, key string, pattern, options s
 		return total, err
 	}
 
-	n, err = CString.Encode(start, writer, pattern)
-	start += uint(n)
+	n, err = Regex.Encode(start, writer, pattern, options)
 	total += n
 
-	if err != nil {
-		return total, err
-	}
-
-	n, err = CString.Encode(start, writer, options)
-	total += n
-
-	if err != nil {
-		return total, err
-	}
-
-	return total, nil
+	return total, err
 }
 
 // Encode encodes a DBPointer into a BSON DBPointer element and serializes the bytes to the
diff --git a/x_json_unmarshal.go b/x_json_unmarshal.go
index fa8a970..bff2361 100644
--- a/x_json_unmarshal.go
+++ b/x_json_unmarshal.go
@@ -7,6 +7,7 @@ import (
 	"fmt"
 	"math"
 	"strconv"
+	"strings"
 	"time"
 
 	"github.com/tychoish/birch/jsonx"
@@ -218,6 +219,10 @@ func convertJSONElements(ctx context.Context, in *jsonx.Element) (*Element, erro
 				return nil, err
 			}
 
+			if strings.Contains(pattern, "\x00") || strings.Contains(options, "\x00") {
+				return nil, fmt.Errorf("regular expression at %q contains a null byte", in.Key())
+			}
+
 			return EC.Regex(in.Key(), pattern, options), nil
 		case "$date":
 			if long, ok := indoc.ElementAtIndex(0).Value().DocumentOK(); ok && long.Len() == 1 && long.KeyAtIndex(0) == "$numberLong" {
-- 
2.43.0


From 1e65c69240697d7328ef83b3c161fccbf4cc4606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:25 +0000
Subject: [PATCH 56/56] fix: close the current file when a CSV export fails

---
 x/ftdc/csv.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/x/ftdc/csv.go b/x/ftdc/csv.go
index a837623..10adde9 100644
--- a/x/ftdc/csv.go
+++ b/x/ftdc/csv.go
@@ -89,6 +89,14 @@ func DumpCSV(seq iter.Seq[*Chunk], prefix string) error {
 		fileCount int
 		csvw      *csv.Writer
 	)
+
+	// when an error ends the export, the current file is still open.
+	defer func() {
+		if writer != nil {
+			_ = writer.Close()
+		}
+	}()
+
 	for chunk := range seq {
 		if writer == nil {
 			writer, err = getCSVFile(prefix, fileCount)
-- 
2.43.0

