From d29f20731b030c71e873836e8ede23401306c32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:22 +0000
Subject: [PATCH 01/74] fix: Value.Decimal128 returned the high and low words
 swapped

---
 value.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/value.go b/value.go
index 6e0ca90..e241ec4 100644
--- a/value.go
+++ b/value.go
@@ -1149,8 +1149,8 @@ func (v *Value) Decimal128() types.Decimal128 {
 	}
 
 	return types.NewDecimal128(
-		binary.LittleEndian.Uint64(v.data[v.offset:v.offset+8]),
-		binary.LittleEndian.Uint64(v.data[v.offset+8:v.offset+16]))
+		binary.LittleEndian.Uint64(v.data[v.offset+8:v.offset+16]),
+		binary.LittleEndian.Uint64(v.data[v.offset:v.offset+8]))
 }
 
 // Decimal128OK is the same as Decimal128, except that it returns a boolean
-- 
2.43.0


From d4b5754fa9a379f50f4a7f52856e449c14cd4259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:40 +0000
Subject: [PATCH 02/74] fix: Element.SetValue dropped the key of the element

---
 x_element.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/x_element.go b/x_element.go
index aaa8ed2..493eabe 100644
--- a/x_element.go
+++ b/x_element.go
@@ -1,4 +1,12 @@
 package birch
 
 // SetValue makes it possible to modify the value of an element in place
-func (e *Element) SetValue(v *Value) { e.value = v }
+// and keeps the element's key.
+func (e *Element) SetValue(v *Value) {
+	if elem := convertValueToElem(e.Key(), v); elem != nil {
+		e.value = elem.value
+		return
+	}
+
+	e.value = v
+}
-- 
2.43.0


From 59f7b3a4ccd40a710215ea87a89d630765dd0ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:40 +0000
Subject: [PATCH 03/74] fix: EC.Int truncated integers below the 32-bit range

---
 x_constructor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x_constructor.go b/x_constructor.go
index 5d0dcfc..a6d6ebb 100644
--- a/x_constructor.go
+++ b/x_constructor.go
@@ -258,7 +258,7 @@ func (ElementConstructorError) DocumentMarshaler(key string, val DocumentMarshal
 }
 
 func (ElementConstructor) Int(key string, i int) *Element {
-	if i < math.MaxInt32 {
+	if i < math.MaxInt32 && i >= math.MinInt32 {
 		return EC.Int32(key, int32(i))
 	}
 
-- 
2.43.0


From 1c435664c04f7a688c861669c9842d5138f5de0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:40 +0000
Subject: [PATCH 04/74] fix: Value.IsEmpty reported every object id as empty

---
 value.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/value.go b/value.go
index e241ec4..151061b 100644
--- a/value.go
+++ b/value.go
@@ -150,7 +150,7 @@ func (v *Value) IsEmpty() bool {
 	case bsontype.Undefined:
 		return true
 	case bsontype.ObjectID:
-		return true
+		return v.ObjectID().IsZero()
 	case bsontype.Boolean:
 		return !v.Boolean()
 	case bsontype.DateTime:
-- 
2.43.0


From d44a7e0ca5bd599447e672d45afe77ef5e3b721f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:40 +0000
Subject: [PATCH 05/74] fix: ReaderArray of a constructed array did not number
 the elements

---
 value.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/value.go b/value.go
index 151061b..8eb5576 100644
--- a/value.go
+++ b/value.go
@@ -579,6 +579,13 @@ func (v *Value) getReader() Reader {
 	if v.d == nil {
 		l := readi32(v.data[v.offset : v.offset+4])
 		r = Reader(v.data[v.offset : v.offset+uint32(l)])
+	} else if v.data[v.start] == '\x04' {
+		arr, err := (&Array{doc: v.d}).MarshalBSON()
+		if err != nil {
+			panic(err)
+		}
+
+		r = Reader(arr)
 	} else {
 		scope, err := v.d.MarshalBSON()
 		if err != nil {
-- 
2.43.0


From 0155c4d10727ad80f543aa48d4551834f7bee9b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:40 +0000
Subject: [PATCH 06/74] fix: Document.Map served a stale view after Set, Delete
 and decoding

---
 document.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/document.go b/document.go
index cb833c7..d067d6c 100644
--- a/document.go
+++ b/document.go
@@ -101,6 +101,7 @@ func (d *Document) Set(elem *Element) *Document {
 	for idx, e := range d.elems {
 		if elem.Key() == e.Key() {
 			d.elems[idx] = elem
+			d.cacheValid = false
 			return d
 		}
 	}
@@ -119,6 +120,7 @@ func (d *Document) Delete(key string) *Element {
 		if d.elems[idx].Key() == key {
 			elem := d.elems[idx]
 			d.elems = append(d.elems[:idx], d.elems[idx+1:]...)
+			d.cacheValid = false
 			return elem
 		}
 	}
@@ -289,6 +291,7 @@ func (d *Document) UnmarshalBSON(b []byte) error {
 	seq := Reader(b).Iterator()
 
 	d.elems = make([]*Element, 0, 128)
+	d.cacheValid = false
 
 	for value, err := range seq {
 		if err != nil {
-- 
2.43.0


From e2460277dad29555cffcb2e28b724c4488fdac30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:40 +0000
Subject: [PATCH 07/74] fix: blist.Document.Len recursed forever and Set
 dropped elements with a new key

---
 x/blist/blist.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/x/blist/blist.go b/x/blist/blist.go
index a935837..e912a06 100644
--- a/x/blist/blist.go
+++ b/x/blist/blist.go
@@ -10,7 +10,7 @@ type Document struct {
 	dt.List[*birch.Element]
 }
 
-func (d *Document) Len() int { return d.Len() }
+func (d *Document) Len() int { return d.List.Len() }
 func (d *Document) Append(elems ...*birch.Element) *Document {
 	for idx := range elems {
 		if elems[idx] == nil {
@@ -46,8 +46,9 @@ func (d *Document) Set(elem *birch.Element) *Document {
 			continue
 		}
 		e.Set(elem)
-		break
+		return d
 	}
+	d.PushBack(elem)
 	return d
 }
 
-- 
2.43.0


From c364040a6f603637f7f544725c00fb1cdae19e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:07 +0000
Subject: [PATCH 08/74] fix: encoding a code-with-scope element wrote into the
 bytes it was decoded from

---
 element.go | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/element.go b/element.go
index 9424d8f..7a48a2d 100644
--- a/element.go
+++ b/element.go
@@ -225,14 +225,17 @@ func (e *Element) writeByteSlice(key bool, start uint, size uint32, b []byte) (i
 
 			codeWithScopeLength := lengthWithoutScope + int32(scopeLength)
 
-			if _, err = elements.Int32.Encode(uint(e.value.offset), e.value.data, codeWithScopeLength); err != nil {
-				return int64(n), err
-			}
-
 			codeEnd := e.value.offset + uint32(lengthWithoutScope)
 			n += copy(
 				b[start:],
 				e.value.data[startToWrite:codeEnd])
+
+			// Set the length in the output: the data may be the caller's
+			lengthStart := start + uint(e.value.offset) - startToWrite
+			if _, err = elements.Int32.Encode(lengthStart, b, codeWithScopeLength); err != nil {
+				return int64(n), err
+			}
+
 			start += uint(n)
 
 			nn, err := e.value.d.writeByteSlice(start, scopeLength, b)
@@ -255,11 +258,12 @@ func (e *Element) writeByteSlice(key bool, start uint, size uint32, b []byte) (i
 		// Set the length of the value
 		codeWithScopeLength := codeWithScopeEnd - int32(e.value.offset)
 
-		if _, err := elements.Int32.Encode(uint(e.value.offset), e.value.data, codeWithScopeLength); err != nil {
+		n = copy(b[start:], e.value.data[startToWrite:e.value.start+size])
+
+		lengthStart := start + uint(e.value.offset) - startToWrite
+		if _, err := elements.Int32.Encode(lengthStart, b, codeWithScopeLength); err != nil {
 			return 0, err
 		}
-
-		fallthrough
 	default:
 		n = copy(b[start:], e.value.data[startToWrite:e.value.start+size])
 	}
-- 
2.43.0


From b48a84e6fb005c3088a18ab0f314f6f7e064a463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:52 +0000
Subject: [PATCH 09/74] fix: malformed lengths panicked or passed validation

---
 document.go |  3 +++
 iterator.go |  6 +++++-
 reader.go   |  8 +++++++-
 value.go    | 48 ++++++++++++++++++++++++++++++++++++++++++------
 4 files changed, 57 insertions(+), 8 deletions(-)

diff --git a/document.go b/document.go
index d067d6c..a0cb5b2 100644
--- a/document.go
+++ b/document.go
@@ -320,6 +320,9 @@ func (d *Document) ReadFrom(r io.Reader) (int64, error) {
 	}
 
 	givenLength := readi32(sizeBuf)
+	if givenLength < 5 {
+		return total, bsonerr.InvalidLength
+	}
 
 	b := stw.NewSlice(bufpool.Get())
 	b.Grow(int(givenLength))
diff --git a/iterator.go b/iterator.go
index 13b7982..3130851 100644
--- a/iterator.go
+++ b/iterator.go
@@ -69,7 +69,7 @@ func newReaderIterator(r Reader) (*readerIterator, error) {
 	}
 
 	givenLength := readi32(r[0:4])
-	if len(r) < int(givenLength) {
+	if len(r) < int(givenLength) || givenLength < 0 {
 		return nil, bsonerr.InvalidLength
 	}
 
@@ -90,6 +90,10 @@ func (itr *readerIterator) Next() bool {
 	}
 
 	if itr.r[itr.pos] == '\x00' {
+		if itr.pos+1 != itr.end {
+			itr.err = bsonerr.InvalidLength
+		}
+
 		return false
 	}
 
diff --git a/reader.go b/reader.go
index 35cb6c7..a2f6726 100644
--- a/reader.go
+++ b/reader.go
@@ -48,7 +48,7 @@ func NewFromIOReader(r io.Reader) (Reader, error) {
 	}
 
 	length := readi32(lengthBytes[:])
-	if length < 0 {
+	if length < 5 {
 		return nil, bsonerr.InvalidLength
 	}
 
@@ -78,6 +78,8 @@ func (r Reader) Validate() (size uint32, err error) {
 			_, err = elem.value.ReaderDocument().Validate()
 		case '\x04':
 			_, err = elem.value.ReaderArray().Validate()
+		default:
+			_, err = elem.value.validate(false)
 		}
 		return err
 	})
@@ -265,6 +267,10 @@ func (r Reader) readElements(f func(e *Element) error) (uint32, error) {
 		}
 
 		if r[pos] == '\x00' {
+			if pos+1 != end {
+				return pos, bsonerr.InvalidLength
+			}
+
 			break
 		}
 
diff --git a/value.go b/value.go
index 8eb5576..91aa0cc 100644
--- a/value.go
+++ b/value.go
@@ -218,7 +218,11 @@ func (v *Value) validate(sizeOnly bool) (uint32, error) {
 		l := readi32(v.data[v.offset : v.offset+4])
 		total += 4
 
-		if int32(v.offset)+4+l > int32(len(v.data)) {
+		if l < 1 {
+			return total, bsonerr.InvalidString
+		}
+
+		if int64(v.offset)+4+int64(l) > int64(len(v.data)) {
 			return total, errTooSmall
 		}
 		// We check if the value that is the last element of the string is a
@@ -253,7 +257,7 @@ func (v *Value) validate(sizeOnly bool) (uint32, error) {
 			return total, bsonerr.InvalidReadOnlyDocument
 		}
 
-		if int32(v.offset)+l > int32(len(v.data)) {
+		if int64(v.offset)+int64(l) > int64(len(v.data)) {
 			return total, errTooSmall
 		}
 
@@ -292,7 +296,7 @@ func (v *Value) validate(sizeOnly bool) (uint32, error) {
 			return total, bsonerr.InvalidReadOnlyDocument
 		}
 
-		if int32(v.offset)+l > int32(len(v.data)) {
+		if int64(v.offset)+int64(l) > int64(len(v.data)) {
 			return total, errTooSmall
 		}
 
@@ -320,10 +324,19 @@ func (v *Value) validate(sizeOnly bool) (uint32, error) {
 			return total, bsonerr.InvalidBinarySubtype
 		}
 
-		if int32(v.offset)+5+l > int32(len(v.data)) {
+		if l < 0 {
+			return total, bsonerr.InvalidLength
+		}
+
+		if int64(v.offset)+5+int64(l) > int64(len(v.data)) {
 			return total, errTooSmall
 		}
 
+		// the old binary subtype repeats the length of its payload
+		if v.data[v.offset+4] == '\x02' && (l < 4 || readi32(v.data[v.offset+5:v.offset+9]) != l-4) {
+			return total, bsonerr.InvalidLength
+		}
+
 		total += uint32(l)
 	case '\x07':
 		if int(v.offset+12) > len(v.data) {
@@ -374,10 +387,18 @@ func (v *Value) validate(sizeOnly bool) (uint32, error) {
 		l := readi32(v.data[v.offset : v.offset+4])
 		total += 4
 
-		if int32(v.offset)+4+l+12 > int32(len(v.data)) {
+		if l < 1 {
+			return total, bsonerr.InvalidString
+		}
+
+		if int64(v.offset)+4+int64(l)+12 > int64(len(v.data)) {
 			return total, errTooSmall
 		}
 
+		if !sizeOnly && v.data[v.offset+4+uint32(l)-1] != 0x00 {
+			return total, bsonerr.InvalidString
+		}
+
 		total += uint32(l) + 12
 	case '\x0F':
 		if v.d != nil {
@@ -420,13 +441,24 @@ func (v *Value) validate(sizeOnly bool) (uint32, error) {
 		l := readi32(v.data[v.offset : v.offset+4])
 		total += 4
 
-		if int32(v.offset)+l > int32(len(v.data)) {
+		if int64(v.offset)+int64(l) > int64(len(v.data)) {
 			return total, errTooSmall
 		}
 
+		if l < 4 {
+			return total, bsonerr.InvalidLength
+		}
+
 		if !sizeOnly {
+			if int(v.offset+8) > len(v.data) {
+				return total, errTooSmall
+			}
+
 			sLength := readi32(v.data[v.offset+4 : v.offset+8])
 			total += 4
+			if sLength < 1 {
+				return total, bsonerr.InvalidString
+			}
 			// If the length of the string is larger than the total length of the
 			// field minus the int32 for length, 5 bytes for a minimum document
 			// size, and an int32 for the string length the value is invalid.
@@ -452,6 +484,10 @@ func (v *Value) validate(sizeOnly bool) (uint32, error) {
 				return total, err
 			}
 
+			if total != uint32(l) {
+				return total, bsonerr.InvalidLength
+			}
+
 			break
 		}
 
-- 
2.43.0


From a52f25fb1aac1ca87dd937c76a1d5f831974c205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:39 +0000
Subject: [PATCH 10/74] fix: truncated streams looked like a clean end and
 claimed lengths were allocated up front

---
 document.go      | 10 +++++-----
 reader.go        | 22 ++++++++++++++--------
 x_constructor.go |  6 +++---
 3 files changed, 22 insertions(+), 16 deletions(-)

diff --git a/document.go b/document.go
index a0cb5b2..bff12d1 100644
--- a/document.go
+++ b/document.go
@@ -324,12 +324,12 @@ func (d *Document) ReadFrom(r io.Reader) (int64, error) {
 		return total, bsonerr.InvalidLength
 	}
 
-	b := stw.NewSlice(bufpool.Get())
-	b.Grow(int(givenLength))
+	b, err := readBody(r, sizeBuf, givenLength)
+	total += int64(len(b) - len(sizeBuf))
 
-	copy(b[0:4], sizeBuf)
-	n, err = io.ReadFull(r, b[4:])
-	total += int64(n)
+	if err == io.EOF && len(b) > len(sizeBuf) {
+		err = io.ErrUnexpectedEOF
+	}
 
 	if err != nil {
 		return total, err
diff --git a/reader.go b/reader.go
index a2f6726..0ea0563 100644
--- a/reader.go
+++ b/reader.go
@@ -52,22 +52,28 @@ func NewFromIOReader(r io.Reader) (Reader, error) {
 		return nil, bsonerr.InvalidLength
 	}
 
-	reader := make([]byte, length)
-
-	copy(reader, lengthBytes[:])
+	reader, err := readBody(r, lengthBytes[:], length)
+	if err == io.EOF {
+		err = io.ErrUnexpectedEOF
+	}
 
-	count, err = io.ReadFull(r, reader[4:])
 	if err != nil {
 		return nil, err
 	}
 
-	if int32(count) != length-4 {
-		return nil, bsonerr.InvalidLength
-	}
-
 	return reader, nil
 }
 
+// readBody reads the rest of a document given its length prefix, growing the
+// buffer with the data that arrives and not with the length the data claims.
+func readBody(r io.Reader, prefix []byte, length int32) ([]byte, error) {
+	buf := bytes.NewBuffer(append([]byte{}, prefix...))
+
+	_, err := io.CopyN(buf, r, int64(length)-int64(len(prefix)))
+
+	return buf.Bytes(), err
+}
+
 // Validate validates the document. This method only validates the first document in
 // the slice, to validate other documents, the slice must be resliced.
 func (r Reader) Validate() (size uint32, err error) {
diff --git a/x_constructor.go b/x_constructor.go
index a6d6ebb..77cda6e 100644
--- a/x_constructor.go
+++ b/x_constructor.go
@@ -79,9 +79,9 @@ func (DocumentConstructor) ReadFrom(in io.Reader) *Document {
 func (DocumentConstructorError) ReadFrom(in io.Reader) (*Document, error) {
 	doc := DC.New()
 
-	_, err := doc.ReadFrom(in)
-	if err == io.EOF {
-		return nil, err
+	n, err := doc.ReadFrom(in)
+	if err == io.EOF && n > 0 {
+		return nil, io.ErrUnexpectedEOF
 	}
 
 	if err != nil {
-- 
2.43.0


From bac6e7d07f3cb0eda77703d5f6bc624720786d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:52 +0000
Subject: [PATCH 11/74] fix: JSON rendering did not escape keys and truncated
 doubles to six decimals

---
 jsonx/marhsal.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/jsonx/marhsal.go b/jsonx/marhsal.go
index 041c984..1524ee4 100644
--- a/jsonx/marhsal.go
+++ b/jsonx/marhsal.go
@@ -16,7 +16,8 @@ func (d *Document) MarshalJSON() ([]byte, error) {
 			out = append(out, ',')
 		}
 
-		out = append(out, []byte(fmt.Sprintf(`"%s":`, elem.key))...)
+		out = append(out, writeJSONString([]byte(elem.key))...)
+		out = append(out, ':')
 
 		val, err := elem.value.MarshalJSON()
 		if err != nil {
@@ -70,7 +71,7 @@ func (v *Value) MarshalJSON() ([]byte, error) {
 		case int64, int32, int:
 			return []byte(fmt.Sprintf(`%d`, v.value)), nil
 		case float64, float32:
-			return []byte(fmt.Sprintf(`%f`, v.value)), nil
+			return json.Marshal(v.value)
 		default:
 			return nil, fmt.Errorf("unsupported number type %T", v.value)
 		}
-- 
2.43.0


From b3035912f84d11d6fd84fe2d33b7a509f6a6cc81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:24 +0000
Subject: [PATCH 12/74] fix: JSON rendering of binary values swapped and did
 not encode data and subtype

---
 x_json_marshal.go   |  6 ++++--
 x_json_unmarshal.go | 36 +++++++++++++++++++++++++++++++++++-
 2 files changed, 39 insertions(+), 3 deletions(-)

diff --git a/x_json_marshal.go b/x_json_marshal.go
index 45462c6..6ad7374 100644
--- a/x_json_marshal.go
+++ b/x_json_marshal.go
@@ -1,6 +1,8 @@
 package birch
 
 import (
+	"encoding/base64"
+	"fmt"
 	"time"
 
 	"github.com/tychoish/birch/bsontype"
@@ -55,8 +57,8 @@ func (v *Value) toJSON() *jsonx.Value {
 
 		return jsonx.VC.ObjectFromElements(
 			jsonx.EC.ObjectFromElements("$binary",
-				jsonx.EC.String("base64", string(t)),
-				jsonx.EC.String("subType", string(d)),
+				jsonx.EC.String("base64", base64.StdEncoding.EncodeToString(d)),
+				jsonx.EC.String("subType", fmt.Sprintf("%02x", t)),
 			),
 		)
 	case bsontype.Undefined:
diff --git a/x_json_unmarshal.go b/x_json_unmarshal.go
index 456a164..a200d7c 100644
--- a/x_json_unmarshal.go
+++ b/x_json_unmarshal.go
@@ -2,8 +2,10 @@ package birch
 
 import (
 	"context"
+	"encoding/base64"
 	"errors"
 	"fmt"
+	"strconv"
 	"time"
 
 	"github.com/tychoish/birch/jsonx"
@@ -268,7 +270,39 @@ func convertJSONElements(ctx context.Context, in *jsonx.Element) (*Element, erro
 		case "$undefined":
 			return EC.Undefined(in.Key()), nil
 		case "$binary":
-			return EC.Binary(in.Key(), []byte(indoc.ElementAtIndex(0).Value().StringValue())), nil
+			if data, ok := indoc.ElementAtIndex(0).Value().StringValueOK(); ok {
+				return EC.Binary(in.Key(), []byte(data)), nil
+			}
+
+			bindoc, ok := indoc.ElementAtIndex(0).Value().DocumentOK()
+			if !ok {
+				return nil, fmt.Errorf("invalid binary document for %q", in.Key())
+			}
+
+			var payload, subtype string
+			for elem := range bindoc.Iterator() {
+				switch elem.Key() {
+				case "base64":
+					payload, ok = elem.Value().StringValueOK()
+				case "subType":
+					subtype, ok = elem.Value().StringValueOK()
+				}
+				if !ok {
+					return nil, fmt.Errorf("invalid %s of binary document for %q", elem.Key(), in.Key())
+				}
+			}
+
+			data, err := base64.StdEncoding.DecodeString(payload)
+			if err != nil {
+				return nil, fmt.Errorf("problem parsing binary data for %q: %w", in.Key(), err)
+			}
+
+			btype, err := strconv.ParseUint(subtype, 16, 8)
+			if err != nil {
+				return nil, fmt.Errorf("problem parsing binary subtype for %q: %w", in.Key(), err)
+			}
+
+			return EC.BinaryWithSubtype(in.Key(), data, byte(btype)), nil
 		default:
 			doc := DC.Make(indoc.Len())
 
-- 
2.43.0


From 9d551cb818d0425d169ae4c2f1760ac17f5a1e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:25 +0000
Subject: [PATCH 13/74] fix: JSON rendering of dates dropped milliseconds and
 wrote years it could not read

---
 x_json_marshal.go   | 13 ++++++++++++-
 x_json_unmarshal.go | 14 ++++++++++++++
 2 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/x_json_marshal.go b/x_json_marshal.go
index 6ad7374..f78ea21 100644
--- a/x_json_marshal.go
+++ b/x_json_marshal.go
@@ -3,6 +3,7 @@ package birch
 import (
 	"encoding/base64"
 	"fmt"
+	"strconv"
 	"time"
 
 	"github.com/tychoish/birch/bsontype"
@@ -68,7 +69,17 @@ func (v *Value) toJSON() *jsonx.Value {
 	case bsontype.Boolean:
 		return jsonx.VC.Boolean(v.Boolean())
 	case bsontype.DateTime:
-		return jsonx.VC.ObjectFromElements(jsonx.EC.String("$date", v.Time().Format(time.RFC3339)))
+		ts := v.Time().UTC()
+		if ts.Year() < 0 || ts.Year() > 9999 {
+			// not expressible in the date format
+			return jsonx.VC.ObjectFromElements(
+				jsonx.EC.ObjectFromElements("$date",
+					jsonx.EC.String("$numberLong", strconv.FormatInt(v.DateTime(), 10)),
+				),
+			)
+		}
+
+		return jsonx.VC.ObjectFromElements(jsonx.EC.String("$date", ts.Format(time.RFC3339Nano)))
 	case bsontype.Null:
 		return jsonx.VC.Nil()
 	case bsontype.Regex:
diff --git a/x_json_unmarshal.go b/x_json_unmarshal.go
index a200d7c..5ac6dd8 100644
--- a/x_json_unmarshal.go
+++ b/x_json_unmarshal.go
@@ -255,6 +255,20 @@ func convertJSONElements(ctx context.Context, in *jsonx.Element) (*Element, erro
 
 			return EC.Regex(in.Key(), pattern, options), nil
 		case "$date":
+			if long, ok := indoc.ElementAtIndex(0).Value().DocumentOK(); ok && long.KeyAtIndex(0) == "$numberLong" {
+				val, ok := long.ElementAtIndex(0).Value().StringValueOK()
+				if !ok {
+					return nil, fmt.Errorf("invalid date for %q", in.Key())
+				}
+
+				millis, err := strconv.ParseInt(val, 10, 64)
+				if err != nil {
+					return nil, fmt.Errorf("problem parsing date for %q: %w", in.Key(), err)
+				}
+
+				return EC.DateTime(in.Key(), millis), nil
+			}
+
 			date, err := time.Parse(time.RFC3339, indoc.ElementAtIndex(0).Value().StringValue())
 			if err != nil {
 				return nil, err
-- 
2.43.0


From 5eb648e08a947d5fd970d89256cd951e9587356e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:02 +0000
Subject: [PATCH 14/74] fix: malformed extended JSON panicked instead of
 returning an error

---
 x_json_unmarshal.go | 55 ++++++++++++++++++++++++++++++++++++---------
 1 file changed, 44 insertions(+), 11 deletions(-)

diff --git a/x_json_unmarshal.go b/x_json_unmarshal.go
index 5ac6dd8..16db345 100644
--- a/x_json_unmarshal.go
+++ b/x_json_unmarshal.go
@@ -128,7 +128,12 @@ func convertJSONElements(ctx context.Context, in *jsonx.Element) (*Element, erro
 		case "$maxKey":
 			return EC.MaxKey(in.Key()), nil
 		case "$numberDecimal":
-			val, err := types.ParseDecimal128(indoc.ElementAtIndex(0).Value().StringValue())
+			num, ok := indoc.ElementAtIndex(0).Value().StringValueOK()
+			if !ok {
+				return nil, fmt.Errorf("invalid decimal for %q", in.Key())
+			}
+
+			val, err := types.ParseDecimal128(num)
 			if err != nil {
 				return nil, err
 			}
@@ -139,10 +144,13 @@ func convertJSONElements(ctx context.Context, in *jsonx.Element) (*Element, erro
 				t   int64
 				i   int64
 				val int
-				ok  bool
 			)
 
-			tsDoc := indoc.ElementAtIndex(0).Value().Document()
+			tsDoc, ok := indoc.ElementAtIndex(0).Value().DocumentOK()
+			if !ok {
+				return nil, fmt.Errorf("invalid timestamp document for %q", in.Key())
+			}
+
 			count := 0
 			for elem := range tsDoc.Iterator() {
 				if count >= 3 {
@@ -168,7 +176,12 @@ func convertJSONElements(ctx context.Context, in *jsonx.Element) (*Element, erro
 
 			return EC.Timestamp(in.Key(), uint32(t), uint32(i)), nil
 		case "$symbol":
-			return EC.Symbol(in.Key(), indoc.ElementAtIndex(0).Value().StringValue()), nil
+			val, ok := indoc.ElementAtIndex(0).Value().StringValueOK()
+			if !ok {
+				return nil, fmt.Errorf("invalid symbol for %q", in.Key())
+			}
+
+			return EC.Symbol(in.Key(), val), nil
 		case "$code":
 			js, ok := indoc.ElementAtIndex(0).Value().StringValueOK()
 			if !ok {
@@ -183,7 +196,12 @@ func convertJSONElements(ctx context.Context, in *jsonx.Element) (*Element, erro
 					return nil, err
 				}
 
-				return EC.CodeWithScope(in.Key(), js, scope.Value().MutableDocument()), nil
+				scopeDoc, ok := scope.Value().MutableDocumentOK()
+				if !ok {
+					return nil, fmt.Errorf("invalid scope for %q", in.Key())
+				}
+
+				return EC.CodeWithScope(in.Key(), js, scopeDoc), nil
 			} else {
 				return nil, fmt.Errorf("invalid key '%s' in code with scope for %s", second, in.Key())
 			}
@@ -191,9 +209,12 @@ func convertJSONElements(ctx context.Context, in *jsonx.Element) (*Element, erro
 			var (
 				ns  string
 				oid string
-				ok  bool
 			)
-			debref := indoc.ElementAtIndex(0).Value().Document()
+			debref, ok := indoc.ElementAtIndex(0).Value().DocumentOK()
+			if !ok {
+				return nil, fmt.Errorf("invalid dbref document for %q", in.Key())
+			}
+
 			count := 0
 			for elem := range debref.Iterator() {
 				if count >= 2 {
@@ -228,9 +249,11 @@ func convertJSONElements(ctx context.Context, in *jsonx.Element) (*Element, erro
 			var (
 				pattern string
 				options string
-				ok      bool
 			)
-			rex := indoc.ElementAtIndex(0).Value().Document()
+			rex, ok := indoc.ElementAtIndex(0).Value().DocumentOK()
+			if !ok {
+				return nil, fmt.Errorf("invalid regular expression document for %q", in.Key())
+			}
 
 			count := 0
 			for elem := range rex.Iterator() {
@@ -269,13 +292,23 @@ func convertJSONElements(ctx context.Context, in *jsonx.Element) (*Element, erro
 				return EC.DateTime(in.Key(), millis), nil
 			}
 
-			date, err := time.Parse(time.RFC3339, indoc.ElementAtIndex(0).Value().StringValue())
+			val, ok := indoc.ElementAtIndex(0).Value().StringValueOK()
+			if !ok {
+				return nil, fmt.Errorf("invalid date for %q", in.Key())
+			}
+
+			date, err := time.Parse(time.RFC3339, val)
 			if err != nil {
 				return nil, err
 			}
 			return EC.Time(in.Key(), date), nil
 		case "$oid":
-			oid, err := types.ObjectIDFromHex(indoc.ElementAtIndex(0).Value().StringValue())
+			val, ok := indoc.ElementAtIndex(0).Value().StringValueOK()
+			if !ok {
+				return nil, fmt.Errorf("invalid object id for %q", in.Key())
+			}
+
+			oid, err := types.ObjectIDFromHex(val)
 			if err != nil {
 				return nil, err
 			}
-- 
2.43.0


From e6a5ee20c9074ce34d2df193ba3c2517f3d05d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:03 +0000
Subject: [PATCH 15/74] fix: JSON keys and patterns with a null byte produced
 corrupt documents

---
 x_json_unmarshal.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/x_json_unmarshal.go b/x_json_unmarshal.go
index 16db345..e7394f5 100644
--- a/x_json_unmarshal.go
+++ b/x_json_unmarshal.go
@@ -6,6 +6,7 @@ import (
 	"errors"
 	"fmt"
 	"strconv"
+	"strings"
 	"time"
 
 	"github.com/tychoish/birch/jsonx"
@@ -90,6 +91,10 @@ func (DocumentConstructorError) JSONX(jd *jsonx.Document) (*Document, error) {
 func (DocumentConstructor) JSONX(jd *jsonx.Document) *Document { return erc.Must(DCE.JSONX(jd)) }
 
 func convertJSONElements(ctx context.Context, in *jsonx.Element) (*Element, error) {
+	if strings.IndexByte(in.Key(), 0) >= 0 {
+		return nil, fmt.Errorf("key %q holds a null byte", in.Key())
+	}
+
 	inv := in.Value()
 	switch inv.Type() {
 	case jsonx.String:
@@ -276,6 +281,10 @@ func convertJSONElements(ctx context.Context, in *jsonx.Element) (*Element, erro
 				count++
 			}
 
+			if strings.IndexByte(pattern, 0) >= 0 || strings.IndexByte(options, 0) >= 0 {
+				return nil, fmt.Errorf("regular expression for %q holds a null byte", in.Key())
+			}
+
 			return EC.Regex(in.Key(), pattern, options), nil
 		case "$date":
 			if long, ok := indoc.ElementAtIndex(0).Value().DocumentOK(); ok && long.KeyAtIndex(0) == "$numberLong" {
-- 
2.43.0


From 98e91f37e88f66f7bfb999c7219fbafea6dbbefd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:54 +0000
Subject: [PATCH 16/74] fix: converting a constructed JSON document refused its
 32 and 64 bit numbers

---
 x_json_unmarshal.go | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/x_json_unmarshal.go b/x_json_unmarshal.go
index e7394f5..cfaa23a 100644
--- a/x_json_unmarshal.go
+++ b/x_json_unmarshal.go
@@ -112,17 +112,25 @@ func convertJSONElements(ctx context.Context, in *jsonx.Element) (*Element, erro
 	case jsonx.Null:
 		return EC.Null(in.Key()), nil
 	case jsonx.NumberInteger:
-		val, ok := inv.IntOK()
-		if !ok {
+		switch val := inv.Interface().(type) {
+		case int:
+			return EC.Int(in.Key(), val), nil
+		case int32:
+			return EC.Int32(in.Key(), val), nil
+		case int64:
+			return EC.Int64(in.Key(), val), nil
+		default:
 			return nil, errors.New("mismatched json type")
 		}
-		return EC.Int(in.Key(), val), nil
 	case jsonx.NumberDouble:
-		val, ok := inv.Float64OK()
-		if !ok {
+		switch val := inv.Interface().(type) {
+		case float64:
+			return EC.Double(in.Key(), val), nil
+		case float32:
+			return EC.Double(in.Key(), float64(val)), nil
+		default:
 			return nil, errors.New("mismatched json type")
 		}
-		return EC.Double(in.Key(), val), nil
 	case jsonx.Number:
 		return EC.Interface(in.Key(), inv.Interface()), nil
 	case jsonx.ObjectValue:
-- 
2.43.0


From 6c8d02da58b3570b9809d091c15b98a10e286998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:54 +0000
Subject: [PATCH 17/74] fix: JSON numbers beyond the double range were read as
 infinity

---
 jsonx/unmarshal.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jsonx/unmarshal.go b/jsonx/unmarshal.go
index 5f36b47..ef44e7e 100644
--- a/jsonx/unmarshal.go
+++ b/jsonx/unmarshal.go
@@ -3,6 +3,7 @@ package jsonx
 import (
 	"encoding/json"
 	"fmt"
+	"math"
 
 	"errors"
 
@@ -93,7 +94,7 @@ func getValueForResult(value internal.Result) (*Value, error) {
 		num := json.Number(value.String())
 		if igr, err := num.Int64(); err == nil {
 			return VC.Int(int(igr)), nil
-		} else if df, err := num.Float64(); err == nil {
+		} else if df, err := num.Float64(); err == nil && !math.IsInf(df, 0) {
 			return VC.Float64(df), nil
 		}
 
-- 
2.43.0


From 5c025220f2450777566bbbe0d0d9a2f1f0f4af40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:14:23 +0000
Subject: [PATCH 18/74] fix: decimal text beyond the decimal128 range was
 accepted

---
 types/decimal.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/types/decimal.go b/types/decimal.go
index 64bcad2..8cfd5fa 100644
--- a/types/decimal.go
+++ b/types/decimal.go
@@ -143,6 +143,12 @@ func divmod(h, l uint64, div uint32) (qh, ql uint64, rem uint32) {
 	return (aq<<32 | bq), (cq<<32 | dq), uint32(dr)
 }
 
+// the largest coefficient, 10^34-1
+const (
+	dMaxHigh uint64 = 0x1ed09bead87c0
+	dMaxLow  uint64 = 0x378d8e63ffffffff
+)
+
 var dNaN = Decimal128{0x1F << 58, 0}
 var dPosInf = Decimal128{0x1E << 58, 0}
 var dNegInf = Decimal128{0x3E << 58, 0}
@@ -339,6 +345,12 @@ func ParseDecimal128(s string) (Decimal128, error) {
 		return dErr(orig)
 	}
 
+	// The exponent can be out of range without being written explicitly, and
+	// clamping can scale the coefficient to more than 34 digits.
+	if e < -6176 || e > 6111 || h > dMaxHigh || h == dMaxHigh && l > dMaxLow {
+		return dErr(orig)
+	}
+
 	h |= uint64(e+6176) & uint64(1<<14-1) << 49
 	if neg {
 		h |= 1 << 63
-- 
2.43.0


From e777719c12c9eaac48ef3d5d8e4739009e8d500a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:29 +0000
Subject: [PATCH 19/74] fix: the JSON validator accepted numbers without digits

---
 jsonx/internal/gjson.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jsonx/internal/gjson.go b/jsonx/internal/gjson.go
index 92e4e6a..9e4eaf5 100644
--- a/jsonx/internal/gjson.go
+++ b/jsonx/internal/gjson.go
@@ -1187,6 +1187,9 @@ func validnumber(data []byte, i int) (outi int, ok bool) {
 	if i == len(data) {
 		return i, false
 	}
+	if data[i] < '0' || data[i] > '9' {
+		return i, false
+	}
 	if data[i] == '0' {
 		i++
 	} else {
-- 
2.43.0


From c9c5470c445b612c9a6510eea0ec2594470ac898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:45 +0000
Subject: [PATCH 20/74] fix: message framing lost or merged messages when reads
 were short or the stream ended

---
 x/mrpc/mongowire/sock.go | 94 ++++++++++++++--------------------------
 1 file changed, 33 insertions(+), 61 deletions(-)

diff --git a/x/mrpc/mongowire/sock.go b/x/mrpc/mongowire/sock.go
index 0f7ccb0..f5302e6 100644
--- a/x/mrpc/mongowire/sock.go
+++ b/x/mrpc/mongowire/sock.go
@@ -1,7 +1,6 @@
 package mongowire
 
 import (
-	"bytes"
 	"context"
 	"fmt"
 	"io"
@@ -12,36 +11,10 @@ import (
 const MaxInt32 = 2147483647
 
 func ReadMessage(ctx context.Context, reader io.Reader) (Message, error) {
-	type readResult struct {
-		n   int
-		err error
-	}
-
 	// read header
 	sizeBuf := make([]byte, 4)
-
-	readFinished := make(chan readResult)
-
-	go func() {
-		defer close(readFinished)
-
-		n, err := reader.Read(sizeBuf)
-		select {
-		case readFinished <- readResult{n: n, err: err}:
-		case <-ctx.Done():
-		}
-	}()
-
-	select {
-	case <-ctx.Done():
-		return nil, (ctx.Err())
-	case res := <-readFinished:
-		if res.err != nil {
-			return nil, (res.err)
-		}
-		if res.n != 4 {
-			return nil, fmt.Errorf("didn't read message size from socket, got %d", res.n)
-		}
+	if err := readFull(ctx, reader, sizeBuf); err != nil {
+		return nil, err
 	}
 
 	header := MessageHeader{}
@@ -56,41 +29,19 @@ func ReadMessage(ctx context.Context, reader io.Reader) (Message, error) {
 		return nil, errors.New("message header has invalid size")
 	}
 
-	restBuf := &bytes.Buffer{}
-	for read := 0; int32(read) < header.Size-4; {
-		readFinished = make(chan readResult)
-		tempBuf := make([]byte, header.Size-4)
-		go func() {
-			defer close(readFinished)
-			n, err := reader.Read(tempBuf)
-			select {
-			case readFinished <- readResult{n: n, err: err}:
-			case <-ctx.Done():
-			}
-		}()
-		select {
-		case <-ctx.Done():
-			return nil, (ctx.Err())
-		case res := <-readFinished:
-			if res.err == io.EOF {
-				read = int(header.Size - 4)
-				break
-			}
-			if res.err != nil {
-				return nil, (res.err)
-			}
-			if res.n == 0 {
-				break
-			}
-			read += res.n
-			restBuf.Write(tempBuf[:res.n])
-		}
+	if header.Size < 16 {
+		return nil, fmt.Errorf("invalid message header. either header.Size = %v is shorter than message length, or message is missing RequestId, ResponseTo, or OpCode fields.", header.Size)
 	}
 
-	buf := restBuf.Bytes()
-	if len(buf) < 12 {
-		return nil, fmt.Errorf("invalid message header. either header.Size = %v is shorter than message length, or message is missing RequestId, ResponseTo, or OpCode fields.", header.Size)
+	buf := make([]byte, header.Size-4)
+	if err := readFull(ctx, reader, buf); err != nil {
+		if err == io.EOF {
+			// the stream ended inside of the message
+			err = io.ErrUnexpectedEOF
+		}
+		return nil, err
 	}
+
 	header.RequestID = readInt32(buf)
 	header.ResponseTo = readInt32(buf[4:])
 	header.OpCode = OpType(readInt32(buf[8:]))
@@ -98,6 +49,27 @@ func ReadMessage(ctx context.Context, reader io.Reader) (Message, error) {
 	return header.Parse(buf[12:])
 }
 
+// readFull fills the buffer from the reader, returning early when the
+// context is canceled.
+func readFull(ctx context.Context, reader io.Reader, buf []byte) error {
+	if err := ctx.Err(); err != nil {
+		return err
+	}
+
+	readFinished := make(chan error, 1)
+	go func() {
+		_, err := io.ReadFull(reader, buf)
+		readFinished <- err
+	}()
+
+	select {
+	case <-ctx.Done():
+		return ctx.Err()
+	case err := <-readFinished:
+		return err
+	}
+}
+
 func SendMessage(ctx context.Context, m Message, writer io.Writer) error {
 	buf := m.Serialize()
 
-- 
2.43.0


From 329a2c895a7503b3911763edd1422fc23c05ad02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:21 +0000
Subject: [PATCH 21/74] fix: canceling a send could write the message twice

---
 x/mrpc/mongowire/sock.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/x/mrpc/mongowire/sock.go b/x/mrpc/mongowire/sock.go
index f5302e6..5fae177 100644
--- a/x/mrpc/mongowire/sock.go
+++ b/x/mrpc/mongowire/sock.go
@@ -78,14 +78,15 @@ func SendMessage(ctx context.Context, m Message, writer io.Writer) error {
 		err error
 	}
 	for {
-		writeFinished := make(chan writeRes)
+		if err := ctx.Err(); err != nil {
+			return err
+		}
+		// buffered, so that the writer is never left behind and a
+		// canceled write is never taken for an empty one.
+		writeFinished := make(chan writeRes, 1)
 		go func() {
-			defer close(writeFinished)
 			n, err := writer.Write(buf)
-			select {
-			case <-ctx.Done():
-			case writeFinished <- writeRes{n: n, err: err}:
-			}
+			writeFinished <- writeRes{n: n, err: err}
 		}()
 		select {
 		case <-ctx.Done():
-- 
2.43.0


From 45773842caedbb2a283f3faeec6c4e9276e55bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:50 +0000
Subject: [PATCH 22/74] fix: malformed wire messages panicked the parser

---
 x/mrpc/mongowire/wire_command_reply.go | 24 ++++++++----------------
 x/mrpc/mongowire/wire_delete.go        |  3 +--
 x/mrpc/mongowire/wire_insert.go        |  4 ++--
 x/mrpc/mongowire/wire_kill_cursors.go  |  2 +-
 x/mrpc/mongowire/wire_message.go       | 19 +++++++++++++------
 x/mrpc/mongowire/wire_query.go         | 13 +++++++++----
 x/mrpc/mongowire/wire_reply.go         |  4 ++--
 x/mrpc/mongowire/wire_update.go        | 13 +++++--------
 x/mrpc/mongowire/wireutil.go           | 20 ++++++++++++++++++++
 9 files changed, 61 insertions(+), 41 deletions(-)

diff --git a/x/mrpc/mongowire/wire_command_reply.go b/x/mrpc/mongowire/wire_command_reply.go
index e4a1212..f4f57eb 100644
--- a/x/mrpc/mongowire/wire_command_reply.go
+++ b/x/mrpc/mongowire/wire_command_reply.go
@@ -2,7 +2,6 @@ package mongowire
 
 import (
 	"bytes"
-	"errors"
 
 	"github.com/tychoish/birch"
 )
@@ -53,33 +52,26 @@ func (h *MessageHeader) parseCommandReplyMessage(buf []byte) (Message, error) {
 
 	var err error
 
-	rm.CommandReply, err = birch.ReadDocument(buf)
+	var size int
+
+	rm.CommandReply, size, err = readDocument(buf)
 	if err != nil {
 		return nil, err
 	}
+	buf = buf[size:]
 
-	replySize := getDocSize(rm.CommandReply)
-	if len(buf) < replySize {
-		return nil, errors.New("invalid command message -- message length is too short")
-	}
-	buf = buf[replySize:]
-
-	rm.Metadata, err = birch.ReadDocument(buf)
+	rm.Metadata, size, err = readDocument(buf)
 	if err != nil {
 		return nil, err
 	}
-	metaSize := getDocSize(rm.Metadata)
-	if len(buf) < metaSize {
-		return nil, errors.New("invalid command message -- message length is too short")
-	}
-	buf = buf[metaSize:]
+	buf = buf[size:]
 
 	for len(buf) > 0 {
-		doc, err := birch.ReadDocument(buf)
+		doc, size, err := readDocument(buf)
 		if err != nil {
 			return nil, err
 		}
-		buf = buf[getDocSize(doc):]
+		buf = buf[size:]
 		rm.OutputDocs = append(rm.OutputDocs, *doc.Copy())
 	}
 
diff --git a/x/mrpc/mongowire/wire_delete.go b/x/mrpc/mongowire/wire_delete.go
index 4dc3669..5d79c5c 100644
--- a/x/mrpc/mongowire/wire_delete.go
+++ b/x/mrpc/mongowire/wire_delete.go
@@ -73,11 +73,10 @@ func (h *MessageHeader) parseDeleteMessage(buf []byte) (Message, error) {
 	m.Flags = readInt32(buf[loc:])
 	loc += 4
 
-	m.Filter, err = birch.ReadDocument(buf[loc:])
+	m.Filter, _, err = readDocument(buf[loc:])
 	if err != nil {
 		return nil, err
 	}
-	loc += int(getDocSize(m.Filter)) // nolint
 
 	return m, nil
 }
diff --git a/x/mrpc/mongowire/wire_insert.go b/x/mrpc/mongowire/wire_insert.go
index 2b75dc3..f6cabed 100644
--- a/x/mrpc/mongowire/wire_insert.go
+++ b/x/mrpc/mongowire/wire_insert.go
@@ -72,12 +72,12 @@ func (h *MessageHeader) parseInsertMessage(buf []byte) (Message, error) {
 	loc += len(m.Namespace) + 1
 
 	for loc < len(buf) {
-		doc, err := birch.ReadDocument(buf[loc:])
+		doc, size, err := readDocument(buf[loc:])
 		if err != nil {
 			return nil, err
 		}
 		m.Docs = append(m.Docs, *doc.Copy())
-		loc += getDocSize(doc)
+		loc += size
 	}
 
 	return m, nil
diff --git a/x/mrpc/mongowire/wire_kill_cursors.go b/x/mrpc/mongowire/wire_kill_cursors.go
index 4bd457b..e5faec7 100644
--- a/x/mrpc/mongowire/wire_kill_cursors.go
+++ b/x/mrpc/mongowire/wire_kill_cursors.go
@@ -56,7 +56,7 @@ func (h *MessageHeader) parseKillCursorsMessage(buf []byte) (Message, error) {
 	m.NumCursors = readInt32(buf[loc:])
 	loc += 4
 
-	if len(buf[loc:]) < int(m.NumCursors)*8 {
+	if m.NumCursors < 0 || len(buf[loc:]) < int(m.NumCursors)*8 {
 		return nil, fmt.Errorf("invalid kill cursors message -- NumCursors = %d is larger than number of cursors in message", m.NumCursors)
 	}
 
diff --git a/x/mrpc/mongowire/wire_message.go b/x/mrpc/mongowire/wire_message.go
index 413853f..85ba118 100644
--- a/x/mrpc/mongowire/wire_message.go
+++ b/x/mrpc/mongowire/wire_message.go
@@ -29,7 +29,12 @@ type opMessagePayloadType0 struct {
 func (p *opMessagePayloadType0) Type() uint8 { return OpMessageSectionBody }
 
 func (p *opMessagePayloadType0) Name() string {
-	return p.Document.ElementAt(0).Key()
+	elem, ok := p.Document.ElementAtOK(0)
+	if !ok {
+		return ""
+	}
+
+	return elem.Key()
 }
 
 func (p *opMessagePayloadType0) DB() string {
@@ -203,9 +208,12 @@ func (h *MessageHeader) parseMsgBody(body []byte) (Message, error) {
 		switch kind {
 		case OpMessageSectionBody:
 			section := &opMessagePayloadType0{}
-			docSize := int(readInt32(body[loc:]))
-			section.Document, err = birch.ReadDocument(body[loc : loc+docSize])
-			loc += getDocSize(section.Document)
+			var docSize int
+			section.Document, docSize, err = readDocument(body[loc:])
+			if err != nil {
+				return nil, fmt.Errorf("could not read body document: %w", err)
+			}
+			loc += docSize
 			msg.Items = append(msg.Items, section)
 		case OpMessageSectionDocumentSequence:
 			section := &opMessagePayloadType1{}
@@ -218,8 +226,7 @@ func (h *MessageHeader) parseMsgBody(body []byte) (Message, error) {
 			loc += len(section.Identifier) + 1 // c string null terminator
 
 			for remaining := int(section.Size) - 1 - 4 - len(section.Identifier) - 1; remaining > 0; {
-				docSize := int(readInt32(body[loc:]))
-				doc, err := birch.ReadDocument(body[loc : loc+docSize])
+				doc, docSize, err := readDocument(body[loc:])
 				if err != nil {
 					return nil, fmt.Errorf("could not read payload document: %w", err)
 				}
diff --git a/x/mrpc/mongowire/wire_query.go b/x/mrpc/mongowire/wire_query.go
index ff7510a..cb85741 100644
--- a/x/mrpc/mongowire/wire_query.go
+++ b/x/mrpc/mongowire/wire_query.go
@@ -99,21 +99,26 @@ func (h *MessageHeader) parseQueryMessage(buf []byte) (Message, error) {
 	qm.NReturn = readInt32(buf[loc:])
 	loc += 4
 
-	qm.Query, err = birch.ReadDocument(buf[loc:])
+	var size int
+
+	qm.Query, size, err = readDocument(buf[loc:])
 	if err != nil {
 		return nil, err
 	}
-	loc += getDocSize(qm.Query)
+	loc += size
 
 	if loc < len(buf) {
-		qm.Project, err = birch.ReadDocument(buf[loc:])
+		qm.Project, _, err = readDocument(buf[loc:])
 		if err != nil {
 			return nil, err
 		}
-		loc += getDocSize(qm.Project) // nolint
 	}
 
 	if NamespaceIsCommand(qm.Namespace) {
+		if qm.Query.Len() == 0 {
+			return nil, errors.New("invalid query message -- command without a name")
+		}
+
 		return qm.convertToCommand(), nil
 	}
 
diff --git a/x/mrpc/mongowire/wire_reply.go b/x/mrpc/mongowire/wire_reply.go
index c0a6b47..d08386f 100644
--- a/x/mrpc/mongowire/wire_reply.go
+++ b/x/mrpc/mongowire/wire_reply.go
@@ -72,12 +72,12 @@ func (h *MessageHeader) parseReplyMessage(buf []byte) (Message, error) {
 	loc += 4
 
 	for loc < len(buf) {
-		doc, err := birch.ReadDocument(buf[loc:])
+		doc, size, err := readDocument(buf[loc:])
 		if err != nil {
 			return nil, err
 		}
 		rm.Docs = append(rm.Docs, *doc.Copy())
-		loc += getDocSize(doc)
+		loc += size
 	}
 
 	return rm, nil
diff --git a/x/mrpc/mongowire/wire_update.go b/x/mrpc/mongowire/wire_update.go
index 748be5f..75c647f 100644
--- a/x/mrpc/mongowire/wire_update.go
+++ b/x/mrpc/mongowire/wire_update.go
@@ -79,21 +79,18 @@ func (h *MessageHeader) parseUpdateMessage(buf []byte) (Message, error) {
 	m.Flags = readInt32(buf[loc:])
 	loc += 4
 
-	m.Filter, err = birch.ReadDocument(buf[loc:])
+	var size int
+
+	m.Filter, size, err = readDocument(buf[loc:])
 	if err != nil {
 		return nil, err
 	}
-	loc += getDocSize(m.Filter)
-
-	if len(buf) < loc {
-		return m, errors.New("invalid update message -- message length is too short")
-	}
+	loc += size
 
-	m.Update, err = birch.ReadDocument(buf[loc:])
+	m.Update, _, err = readDocument(buf[loc:])
 	if err != nil {
 		return nil, err
 	}
-	loc += getDocSize(m.Update) // nolint
 
 	return m, nil
 }
diff --git a/x/mrpc/mongowire/wireutil.go b/x/mrpc/mongowire/wireutil.go
index b6cd570..d8aeeb5 100644
--- a/x/mrpc/mongowire/wireutil.go
+++ b/x/mrpc/mongowire/wireutil.go
@@ -78,6 +78,26 @@ func writeCString(s string, wr io.Writer) int {
 	return len(s) + 1
 }
 
+// readDocument reads and validates the document at the start of the
+// buffer, and returns it with its size.
+func readDocument(buf []byte) (*birch.Document, int, error) {
+	doc, err := birch.ReadDocument(buf)
+	if err != nil {
+		return nil, 0, err
+	}
+
+	size, err := doc.Validate()
+	if err != nil {
+		return nil, 0, err
+	}
+
+	if len(buf) < int(size) {
+		return nil, 0, errors.New("invalid document -- message length is too short")
+	}
+
+	return doc, int(size), nil
+}
+
 func getDocSize(doc *birch.Document) int {
 	if doc == nil {
 		return 0
-- 
2.43.0


From 188f4408d0c788f8400ae4a05c1a89b6f63f255d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:51 +0000
Subject: [PATCH 23/74] fix: the size of a document sequence counted its kind
 byte

---
 x/mrpc/mongowire/wire_message.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/x/mrpc/mongowire/wire_message.go b/x/mrpc/mongowire/wire_message.go
index 85ba118..21d92de 100644
--- a/x/mrpc/mongowire/wire_message.go
+++ b/x/mrpc/mongowire/wire_message.go
@@ -77,15 +77,15 @@ func (p *opMessagePayloadType1) DB() string { return "" }
 func (p *opMessagePayloadType1) Documents() []birch.Document { return p.Payload }
 
 func (p *opMessagePayloadType1) Serialize() []byte {
-	size := 1                     // kind
-	size += 4                     // size
+	size := 4                     // size
 	size += len(p.Identifier) + 1 // identifier
 	for _, doc := range p.Payload {
 		size += getDocSize(&doc)
 	}
 	p.Size = int32(size)
 
-	buf := bytes.NewBuffer(make([]byte, 0, size))
+	// the kind byte is not part of the section's size
+	buf := bytes.NewBuffer(make([]byte, 0, 1+size))
 	buf.Write([]byte{p.Type()})
 	writeInt32(p.Size, buf)
 	writeCString(p.Identifier, buf)
@@ -131,7 +131,7 @@ func (m *OpMessage) Serialize() []byte {
 			size += 1 // kind // nolint
 			size += getDocSize(p.Document)
 		case *opMessagePayloadType1:
-			size += int(p.Size)
+			size += 1 + int(p.Size) // kind and section
 		}
 	}
 	if m.Checksum != 0 && (m.Flags&1) == 1 {
-- 
2.43.0


From f17f671e195a3d5470425ee4c7c1340b6446d707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:20 +0000
Subject: [PATCH 24/74] fix: op messages lost an all-zero checksum, the
 moreToCome flag and their declared size

---
 x/mrpc/mongowire/wire_message.go | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/x/mrpc/mongowire/wire_message.go b/x/mrpc/mongowire/wire_message.go
index 21d92de..665113b 100644
--- a/x/mrpc/mongowire/wire_message.go
+++ b/x/mrpc/mongowire/wire_message.go
@@ -134,7 +134,7 @@ func (m *OpMessage) Serialize() []byte {
 			size += 1 + int(p.Size) // kind and section
 		}
 	}
-	if m.Checksum != 0 && (m.Flags&1) == 1 {
+	if (m.Flags & 1) == 1 {
 		size += 4
 	}
 	m.header.Size = int32(size)
@@ -144,7 +144,7 @@ func (m *OpMessage) Serialize() []byte {
 
 	buf.Write(sections)
 
-	if m.Checksum != 0 && (m.Flags&1) == 1 {
+	if (m.Flags & 1) == 1 {
 		writeInt32(m.Checksum, buf)
 	}
 
@@ -168,7 +168,7 @@ func NewOpMessage(moreToCome bool, documents []birch.Document, items ...model.Se
 	}
 
 	if moreToCome {
-		msg.Flags = msg.Flags & 1
+		msg.Flags |= 2
 	}
 
 	for idx := range items {
@@ -200,7 +200,15 @@ func (h *MessageHeader) parseMsgBody(body []byte) (Message, error) {
 	loc += 4
 	checksumPresent := (msg.Flags & 1) == 1
 
-	for loc < len(body)-4 {
+	if checksumPresent {
+		if len(body) < loc+4 {
+			return nil, errors.New("invalid op message - message is too short for its checksum")
+		}
+		msg.Checksum = readInt32(body[len(body)-4:])
+		body = body[:len(body)-4]
+	}
+
+	for loc < len(body) {
 		kind := int32(body[loc])
 		loc++
 
@@ -217,6 +225,9 @@ func (h *MessageHeader) parseMsgBody(body []byte) (Message, error) {
 			msg.Items = append(msg.Items, section)
 		case OpMessageSectionDocumentSequence:
 			section := &opMessagePayloadType1{}
+			if len(body) < loc+4 {
+				return nil, errors.New("invalid op message - message length is too short")
+			}
 			section.Size = readInt32(body[loc:])
 			loc += 4
 			section.Identifier, err = readCString(body[loc:])
@@ -240,12 +251,5 @@ func (h *MessageHeader) parseMsgBody(body []byte) (Message, error) {
 		}
 	}
 
-	if checksumPresent && loc == len(body)-4 {
-		msg.Checksum = readInt32(body[loc:])
-		loc += 4
-	}
-
-	msg.header.Size = int32(loc)
-
 	return msg, nil
 }
-- 
2.43.0


From 5955fbdd97c35107df8bf928c3852e47d00c03fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:20 +0000
Subject: [PATCH 25/74] fix: message models mixed up the flag bits

---
 x/mrpc/mongowire/message.go | 30 ++++++------------------------
 1 file changed, 6 insertions(+), 24 deletions(-)

diff --git a/x/mrpc/mongowire/message.go b/x/mrpc/mongowire/message.go
index 1fd148d..31d1956 100644
--- a/x/mrpc/mongowire/message.go
+++ b/x/mrpc/mongowire/message.go
@@ -143,15 +143,8 @@ func GetModel(msg Message) (any, OpType) {
 			Operation:  m.Operation,
 		}
 
-		switch m.Flags {
-		case 0:
-			op.Checksum = true
-		case 1:
-			op.MoreToCome = true
-		case 3:
-			op.Checksum = true
-			op.MoreToCome = true
-		}
+		op.Checksum = m.Flags&1 != 0
+		op.MoreToCome = m.Flags&2 != 0
 
 		for _, section := range m.Items {
 			op.Items = append(op.Items, model.SequenceItem{
@@ -186,15 +179,8 @@ func GetModel(msg Message) (any, OpType) {
 			Update:    m.Update,
 		}
 
-		switch m.Flags {
-		case 1:
-			update.Upsert = true
-		case 2:
-			update.Multi = true
-		case 3:
-			update.Upsert = true
-			update.Multi = true
-		}
+		update.Upsert = m.Flags&1 != 0
+		update.Multi = m.Flags&2 != 0
 
 		return update, OP_UPDATE
 	case *ReplyMessage:
@@ -204,12 +190,8 @@ func GetModel(msg Message) (any, OpType) {
 			Contents:     m.Docs,
 		}
 
-		switch m.Flags {
-		case 1:
-			reply.QueryFailure = true
-		case 0:
-			reply.CursorNotFound = true
-		}
+		reply.CursorNotFound = m.Flags&1 != 0
+		reply.QueryFailure = m.Flags&2 != 0
 
 		return reply, OP_REPLY
 	default:
-- 
2.43.0


From e69e3654091152bbbcb2b59b3208db29cfb5aaf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:20 +0000
Subject: [PATCH 26/74] fix: a query read as a command lost its request id

---
 x/mrpc/mongowire/wire_query.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/x/mrpc/mongowire/wire_query.go b/x/mrpc/mongowire/wire_query.go
index cb85741..9d078eb 100644
--- a/x/mrpc/mongowire/wire_query.go
+++ b/x/mrpc/mongowire/wire_query.go
@@ -57,8 +57,9 @@ func (m *queryMessage) convertToCommand() *CommandMessage {
 
 	return &CommandMessage{
 		header: MessageHeader{
-			OpCode:    OP_COMMAND,
-			RequestID: 19,
+			OpCode:     OP_COMMAND,
+			RequestID:  m.header.RequestID,
+			ResponseTo: m.header.ResponseTo,
 		},
 		DB:          NamespaceToDB(m.Namespace),
 		CmdName:     m.Query.ElementAt(0).Key(),
-- 
2.43.0


From df5f392c12e3259fcf247f56b578564e9011b5bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:20 +0000
Subject: [PATCH 27/74] fix: canceling a service's context did not end it until
 the next connection

---
 x/mrpc/service.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/x/mrpc/service.go b/x/mrpc/service.go
index 05c88fc..93f75c2 100644
--- a/x/mrpc/service.go
+++ b/x/mrpc/service.go
@@ -60,6 +60,8 @@ func (s *basicService) Run(ctx context.Context) error {
 		return fmt.Errorf("problem listening on %s: %w", s.addr, err)
 	}
 	defer func() { _ = l.Close() }()
+	// Accept does not observe the context: closing the listener unblocks it.
+	defer context.AfterFunc(ctx, func() { _ = l.Close() })()
 
 	for {
 		if ctx.Err() != nil {
@@ -70,6 +72,9 @@ func (s *basicService) Run(ctx context.Context) error {
 		if errors.Is(err, context.Canceled) || errors.Is(err, context.DeadlineExceeded) {
 			return nil
 		} else if err != nil {
+			if ctx.Err() != nil {
+				return nil
+			}
 			s.handleError(fmt.Errorf("accepting connection: %w", err))
 			continue
 		}
-- 
2.43.0


From 0c610c381d0db1097f9d61f7b8bf3998b8c6ff29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:22 +0000
Subject: [PATCH 28/74] fix: a panicking request handler ended the process

---
 x/mrpc/service.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/x/mrpc/service.go b/x/mrpc/service.go
index 93f75c2..ad58af9 100644
--- a/x/mrpc/service.go
+++ b/x/mrpc/service.go
@@ -83,6 +83,16 @@ func (s *basicService) Run(ctx context.Context) error {
 	}
 }
 
+func (s *basicService) runHandler(ctx context.Context, handler HandlerFunc, conn net.Conn, m mongowire.Message) {
+	defer func() {
+		if p := recover(); p != nil {
+			s.handleError(fmt.Errorf("panic in request handler: %v", p))
+		}
+	}()
+
+	handler(ctx, conn, m)
+}
+
 func (s *basicService) dispatchRequest(ctx context.Context, conn net.Conn) {
 	defer func() {
 		if p := recover(); p != nil {
@@ -125,6 +135,6 @@ func (s *basicService) dispatchRequest(ctx context.Context, conn net.Conn) {
 			return
 		}
 
-		go handler(ctx, conn, m)
+		go s.runHandler(ctx, handler, conn, m)
 	}
 }
-- 
2.43.0


From b62ec7d2a6526c10a210fef86fa3b6aee09d3ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:00 +0000
Subject: [PATCH 29/74] fix: reading the document of a reply without documents
 panicked

---
 x/mrpc/shell/util.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/x/mrpc/shell/util.go b/x/mrpc/shell/util.go
index 753b58e..4a54ded 100644
--- a/x/mrpc/shell/util.go
+++ b/x/mrpc/shell/util.go
@@ -91,6 +91,9 @@ func RequestMessageToDocument(msg mongowire.Message) (*birch.Document, error) {
 // document.
 func ResponseMessageToDocument(msg mongowire.Message) (*birch.Document, error) {
 	if opReplyMsg, ok := msg.(*mongowire.ReplyMessage); ok {
+		if len(opReplyMsg.Docs) == 0 {
+			return nil, fmt.Errorf("%s response did not contain a document", mongowire.OP_REPLY.String())
+		}
 		return &opReplyMsg.Docs[0], nil
 	}
 	if opCmdReplyMsg, ok := msg.(*mongowire.CommandReplyMessage); ok {
-- 
2.43.0


From d835ea5f722e7fea37d063d2b1bfb5372bf6b3dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:02 +0000
Subject: [PATCH 30/74] fix: double metrics were read back as differences

---
 x/ftdc/bson_extract.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/x/ftdc/bson_extract.go b/x/ftdc/bson_extract.go
index fcde3f2..718103c 100644
--- a/x/ftdc/bson_extract.go
+++ b/x/ftdc/bson_extract.go
@@ -112,7 +112,8 @@ func extractMetricsFromValue(val *birch.Value) (extractedMetrics, error) {
 func extractDelta(current *birch.Value, previous *birch.Value) (int64, error) {
 	switch current.Type() {
 	case bsontype.Double:
-		return normalizeFloat(current.Double() - previous.Double()), nil
+		// floating point differences are lossy, record the value itself
+		return normalizeFloat(current.Double()), nil
 	case bsontype.Int64:
 		return current.Int64() - previous.Int64(), nil
 	default:
-- 
2.43.0


From 0e4a8cd10b192f267e348453ac51f9d3aa2da690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:08 +0000
Subject: [PATCH 31/74] fix: timestamp metrics were read back with mixed units

---
 x/ftdc/read.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/x/ftdc/read.go b/x/ftdc/read.go
index da942bb..2ac79ec 100644
--- a/x/ftdc/read.go
+++ b/x/ftdc/read.go
@@ -175,5 +175,15 @@ func readBufMetrics(buf *bufio.Reader) (*birch.Document, []Metric, error) {
 		return nil, nil, fmt.Errorf("problem reading reference doc: %w", err)
 	}
 
-	return doc, metricForDocument([]string{}, doc), nil
+	metrics := metricForDocument([]string{}, doc)
+	for i := 0; i < len(metrics); i++ {
+		if metrics[i].originalType == bsontype.Timestamp {
+			// a timestamp is a pair of metrics: its time is
+			// milliseconds here, and seconds in the samples.
+			metrics[i].startingValue /= 1000
+			i++
+		}
+	}
+
+	return doc, metrics, nil
 }
-- 
2.43.0


From a7d9fe6b4378d8ef9b6353dcc2e6049c68718538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:14 +0000
Subject: [PATCH 32/74] fix: metrics nested two or more levels deep lost part
 of their names

---
 x/ftdc/bson_metric.go | 4 ++--
 x/ftdc/ftdc.go        | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/x/ftdc/bson_metric.go b/x/ftdc/bson_metric.go
index 6512780..5ad7acd 100644
--- a/x/ftdc/bson_metric.go
+++ b/x/ftdc/bson_metric.go
@@ -48,12 +48,12 @@ func metricForType(key string, path []string, val *birch.Value) []Metric {
 	case bsontype.Array:
 		return metricForArray(key, path, val.MutableArray())
 	case bsontype.EmbeddedDocument:
-		path = append(path, key)
+		path = append(path[:len(path):len(path)], key)
 
 		o := []Metric{}
 		for _, ne := range metricForDocument(path, val.MutableDocument()) {
 			o = append(o, Metric{
-				ParentPath:    path,
+				ParentPath:    ne.ParentPath,
 				KeyName:       ne.KeyName,
 				startingValue: ne.startingValue,
 				originalType:  ne.originalType,
diff --git a/x/ftdc/ftdc.go b/x/ftdc/ftdc.go
index b3829c7..48b307d 100644
--- a/x/ftdc/ftdc.go
+++ b/x/ftdc/ftdc.go
@@ -104,7 +104,7 @@ type Metric struct {
 }
 
 func (m *Metric) Key() string {
-	return strings.Join(append(m.ParentPath, m.KeyName), ".")
+	return strings.Join(append(m.ParentPath[:len(m.ParentPath):len(m.ParentPath)], m.KeyName), ".")
 }
 
 func (m *Metric) getSeries() any {
-- 
2.43.0


From 06cc76607973f3148fb7de2c72738a44946c1502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:19 +0000
Subject: [PATCH 33/74] fix: the dynamic collector mixed up samples after a
 schema change

---
 x/ftdc/collector_dynamic.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/x/ftdc/collector_dynamic.go b/x/ftdc/collector_dynamic.go
index 443cd93..66be86b 100644
--- a/x/ftdc/collector_dynamic.go
+++ b/x/ftdc/collector_dynamic.go
@@ -66,10 +66,12 @@ func (c *dynamicCollector) Add(in any) error {
 
 	lastChunk := c.chunks[len(c.chunks)-1]
 
-	docHash, _ := metricKeyHash(doc)
+	docHash, num := metricKeyHash(doc)
 	if c.hash == docHash {
 		return (lastChunk.Add(doc))
 	}
+	c.hash = docHash
+	c.currentNum = num
 
 	chunk := newBatchCollector(c.maxSamples)
 	c.chunks = append(c.chunks, chunk)
-- 
2.43.0


From 105d82f81738875e9a632b8607d2c7d44d956d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:24 +0000
Subject: [PATCH 34/74] fix: schema changes that kept the concatenated metric
 names went unnoticed

---
 x/ftdc/bson_hash.go | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/x/ftdc/bson_hash.go b/x/ftdc/bson_hash.go
index 3976f0e..ab57434 100644
--- a/x/ftdc/bson_hash.go
+++ b/x/ftdc/bson_hash.go
@@ -44,24 +44,31 @@ func metricKeyHashValue(checksum hash.Hash, key string, value *birch.Value) int
 	case bsontype.EmbeddedDocument:
 		return metricKeyHashDocument(checksum, key, value.MutableDocument())
 	case bsontype.Boolean:
-		_, _ = checksum.Write([]byte(key))
+		writeMetricKey(checksum, key, value.Type())
 		return 1
 	case bsontype.Double:
-		_, _ = checksum.Write([]byte(key))
+		writeMetricKey(checksum, key, value.Type())
 		return 1
 	case bsontype.Int32:
-		_, _ = checksum.Write([]byte(key))
+		writeMetricKey(checksum, key, value.Type())
 		return 1
 	case bsontype.Int64:
-		_, _ = checksum.Write([]byte(key))
+		writeMetricKey(checksum, key, value.Type())
 		return 1
 	case bsontype.DateTime:
-		_, _ = checksum.Write([]byte(key))
+		writeMetricKey(checksum, key, value.Type())
 		return 1
 	case bsontype.Timestamp:
-		_, _ = checksum.Write([]byte(key))
+		writeMetricKey(checksum, key, value.Type())
 		return 2
 	default:
 		return 0
 	}
 }
+
+// writeMetricKey delimits the keys and includes the type, so that
+// different schemas do not have the same hash.
+func writeMetricKey(checksum hash.Hash, key string, t bsontype.Type) {
+	_, _ = checksum.Write([]byte(key))
+	_, _ = checksum.Write([]byte{0, byte(t)})
+}
-- 
2.43.0


From 540a17bf2837f99a14f33fad64b3b9d26460c7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:30 +0000
Subject: [PATCH 35/74] fix: streaming collectors of uncompressed data refused
 samples once full

---
 x/ftdc/collector_streaming.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x/ftdc/collector_streaming.go b/x/ftdc/collector_streaming.go
index e2f22a2..6ae1797 100644
--- a/x/ftdc/collector_streaming.go
+++ b/x/ftdc/collector_streaming.go
@@ -36,7 +36,7 @@ func newStreamingCollector(maxSamples int, writer io.Writer) *streamingCollector
 
 func (c *streamingCollector) Reset() { c.count = 0; c.Collector.Reset() }
 func (c *streamingCollector) Add(in any) error {
-	if c.count-1 >= c.maxSamples {
+	if c.count >= c.maxSamples {
 		if err := FlushCollector(c, c.output); err != nil {
 			return fmt.Errorf("problem flushing collector contents: %w", err)
 		}
-- 
2.43.0


From c06a5e8cad7624ff333a6d177a9b124175f71523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:35 +0000
Subject: [PATCH 36/74] fix: streaming dynamic collectors of uncompressed data
 changed format after the first flush

---
 x/ftdc/collector_streaming.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x/ftdc/collector_streaming.go b/x/ftdc/collector_streaming.go
index 6ae1797..51e8811 100644
--- a/x/ftdc/collector_streaming.go
+++ b/x/ftdc/collector_streaming.go
@@ -96,7 +96,7 @@ func NewStreamingDynamicCollector(max int, writer io.Writer) Collector {
 }
 
 func (c *streamingDynamicCollector) Reset() {
-	c.streamingCollector = newStreamingCollector(c.streamingCollector.maxSamples, c.output)
+	c.streamingCollector.Reset()
 	c.metricCount = 0
 	c.hash = ""
 }
-- 
2.43.0


From 677887b584c0bdbc153f243a805226effb46eb8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:41 +0000
Subject: [PATCH 37/74] fix: dates beyond the range of nanoseconds were
 recorded as other dates

---
 x/ftdc/util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x/ftdc/util.go b/x/ftdc/util.go
index 505e7cd..4167d21 100644
--- a/x/ftdc/util.go
+++ b/x/ftdc/util.go
@@ -111,7 +111,7 @@ func compressBuffer(input []byte) ([]byte, error) {
 
 func normalizeFloat(in float64) int64 { return int64(math.Float64bits(in)) }
 func restoreFloat(in int64) float64   { return math.Float64frombits(uint64(in)) }
-func epochMs(t time.Time) int64       { return t.UnixNano() / 1000000 }
+func epochMs(t time.Time) int64       { return t.UnixMilli() }
 func timeEpocMs(in int64) time.Time   { return time.Unix(in/1000, in%1000*1000000) }
 
 func isNum(num int, val *birch.Value) bool {
-- 
2.43.0


From b36bb8d4ee057c3faad4a12347bf69faefff8986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:10 +0000
Subject: [PATCH 38/74] fix: collectors kept using the documents their callers
 passed them

---
 x/ftdc/bson_extract.go           |  4 ++--
 x/ftdc/collector_better.go       |  9 ++++++---
 x/ftdc/collector_uncompressed.go |  9 +++++++--
 x/ftdc/util.go                   | 10 ++++++++++
 4 files changed, 25 insertions(+), 7 deletions(-)

diff --git a/x/ftdc/bson_extract.go b/x/ftdc/bson_extract.go
index 718103c..512a837 100644
--- a/x/ftdc/bson_extract.go
+++ b/x/ftdc/bson_extract.go
@@ -89,13 +89,13 @@ func extractMetricsFromValue(val *birch.Value) (extractedMetrics, error) {
 		}
 		metrics.types = append(metrics.types, bsontype.Boolean)
 	case bsontype.Double:
-		metrics.values = append(metrics.values, val)
+		metrics.values = append(metrics.values, birch.VC.Double(val.Double()))
 		metrics.types = append(metrics.types, bsontype.Double)
 	case bsontype.Int32:
 		metrics.values = append(metrics.values, birch.VC.Int64(int64(val.Int32())))
 		metrics.types = append(metrics.types, bsontype.Int32)
 	case bsontype.Int64:
-		metrics.values = append(metrics.values, val)
+		metrics.values = append(metrics.values, birch.VC.Int64(val.Int64()))
 		metrics.types = append(metrics.types, bsontype.Int64)
 	case bsontype.DateTime:
 		metrics.values = append(metrics.values, birch.VC.Int64(epochMs(val.Time())))
diff --git a/x/ftdc/collector_better.go b/x/ftdc/collector_better.go
index cd00b69..059cd5b 100644
--- a/x/ftdc/collector_better.go
+++ b/x/ftdc/collector_better.go
@@ -38,8 +38,8 @@ func (c *betterCollector) SetMetadata(in any) error {
 		return err
 	}
 
-	c.metadata = doc
-	return nil
+	c.metadata, err = detachDocument(doc)
+	return err
 }
 
 func (c *betterCollector) Reset() {
@@ -75,7 +75,10 @@ func (c *betterCollector) Add(in any) error {
 
 	var metrics extractedMetrics
 	if c.reference == nil {
-		c.reference = doc
+		c.reference, err = detachDocument(doc)
+		if err != nil {
+			return err
+		}
 		metrics, err = extractMetricsFromDocument(doc)
 		if err != nil {
 			return err
diff --git a/x/ftdc/collector_uncompressed.go b/x/ftdc/collector_uncompressed.go
index 5eb63b9..1842012 100644
--- a/x/ftdc/collector_uncompressed.go
+++ b/x/ftdc/collector_uncompressed.go
@@ -161,8 +161,8 @@ func (c *uncompressedCollector) SetMetadata(in any) error {
 		return err
 	}
 
-	c.metadata = doc
-	return nil
+	c.metadata, err = detachDocument(doc)
+	return err
 }
 
 func (c *uncompressedCollector) Add(in any) error {
@@ -183,6 +183,11 @@ func (c *uncompressedCollector) Add(in any) error {
 		return errors.New("collector is overfull")
 	}
 
+	doc, err = detachDocument(doc)
+	if err != nil {
+		return err
+	}
+
 	c.samples = append(c.samples, doc)
 	return nil
 }
diff --git a/x/ftdc/util.go b/x/ftdc/util.go
index 4167d21..bb19c9b 100644
--- a/x/ftdc/util.go
+++ b/x/ftdc/util.go
@@ -55,6 +55,16 @@ func readDocument(in any) (*birch.Document, error) {
 	}
 }
 
+// detachDocument returns a copy that shares no memory with the input,
+// which the caller may modify after handing it to a collector.
+func detachDocument(in *birch.Document) (*birch.Document, error) {
+	data, err := in.MarshalBSON()
+	if err != nil {
+		return nil, err
+	}
+	return birch.ReadDocument(data)
+}
+
 func getOffset(count, sample, metric int) int { return metric*count + sample }
 
 func undeltaFloats(value int64, deltas []int64) []int64 {
-- 
2.43.0


From afd456f5906ad13f207dc01b6f1cbf10318f075f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:16 +0000
Subject: [PATCH 39/74] fix: collecting malformed nested documents panicked

---
 x/ftdc/util.go   | 19 ++++++++++++++++---
 x/ftdc/writer.go |  4 +---
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/x/ftdc/util.go b/x/ftdc/util.go
index bb19c9b..421b158 100644
--- a/x/ftdc/util.go
+++ b/x/ftdc/util.go
@@ -22,13 +22,13 @@ func readDocument(in any) (*birch.Document, error) {
 	case birch.DocumentMarshaler:
 		return doc.MarshalDocument()
 	case []byte:
-		return birch.ReadDocument(doc)
+		return parseDocument(doc)
 	case birch.Marshaler:
 		data, err := doc.MarshalBSON()
 		if err != nil {
 			return nil, fmt.Errorf("problem with unmarshaler: %w", err)
 		}
-		return birch.ReadDocument(data)
+		return parseDocument(data)
 	case map[string]any, map[string]int, map[string]int64, map[string]uint, map[string]uint64:
 		elems := birch.DC.Interface(doc).Elements()
 		sort.Stable(elems)
@@ -51,7 +51,7 @@ func readDocument(in any) (*birch.Document, error) {
 		if err != nil {
 			return nil, fmt.Errorf("problem with fallback marshaling: %w", err)
 		}
-		return birch.ReadDocument(data)
+		return parseDocument(data)
 	}
 }
 
@@ -65,6 +65,19 @@ func detachDocument(in *birch.Document) (*birch.Document, error) {
 	return birch.ReadDocument(data)
 }
 
+// parseDocument also checks the contents of nested documents, which
+// collecting metrics reads.
+func parseDocument(in []byte) (*birch.Document, error) {
+	doc, err := birch.ReadDocument(in)
+	if err != nil {
+		return nil, err
+	}
+	if _, err = doc.Validate(); err != nil {
+		return nil, err
+	}
+	return doc, nil
+}
+
 func getOffset(count, sample, metric int) int { return metric*count + sample }
 
 func undeltaFloats(value int64, deltas []int64) []int64 {
diff --git a/x/ftdc/writer.go b/x/ftdc/writer.go
index 1578f99..7a16163 100644
--- a/x/ftdc/writer.go
+++ b/x/ftdc/writer.go
@@ -3,8 +3,6 @@ package ftdc
 import (
 	"fmt"
 	"io"
-
-	"github.com/tychoish/birch"
 )
 
 type writerCollector struct {
@@ -23,7 +21,7 @@ func NewWriterCollector(chunkSize int, writer io.WriteCloser) io.WriteCloser {
 }
 
 func (w *writerCollector) Write(in []byte) (int, error) {
-	doc, err := birch.ReadDocument(in)
+	doc, err := parseDocument(in)
 	if err != nil {
 		return 0, fmt.Errorf("problem reading bson document: %w", err)
 	}
-- 
2.43.0


From 98e6dac84b2404ace25ee3fd5f49f2460b2b9308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:22 +0000
Subject: [PATCH 40/74] fix: the metadata of a collector could not be unset

---
 x/ftdc/collector_better.go       | 5 +++++
 x/ftdc/collector_uncompressed.go | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/x/ftdc/collector_better.go b/x/ftdc/collector_better.go
index 059cd5b..1bbaf26 100644
--- a/x/ftdc/collector_better.go
+++ b/x/ftdc/collector_better.go
@@ -33,6 +33,11 @@ func NewBaseCollector(maxSize int) Collector {
 }
 
 func (c *betterCollector) SetMetadata(in any) error {
+	if in == nil {
+		c.metadata = nil
+		return nil
+	}
+
 	doc, err := readDocument(in)
 	if err != nil {
 		return err
diff --git a/x/ftdc/collector_uncompressed.go b/x/ftdc/collector_uncompressed.go
index 1842012..a27af78 100644
--- a/x/ftdc/collector_uncompressed.go
+++ b/x/ftdc/collector_uncompressed.go
@@ -156,6 +156,11 @@ func (c *uncompressedCollector) Info() CollectorInfo {
 }
 
 func (c *uncompressedCollector) SetMetadata(in any) error {
+	if in == nil {
+		c.metadata = nil
+		return nil
+	}
+
 	doc, err := readDocument(in)
 	if err != nil {
 		return err
-- 
2.43.0


From 71a59624bcd6ca83e1a0c0119d25201e541a5ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:28 +0000
Subject: [PATCH 41/74] fix: buffered collectors panicked, lost samples and
 raced when canceled

---
 x/ftdc/collector_buffered.go | 59 +++++++++++++++++++++++++++++++-----
 1 file changed, 52 insertions(+), 7 deletions(-)

diff --git a/x/ftdc/collector_buffered.go b/x/ftdc/collector_buffered.go
index 7cf7ebb..16cb8ab 100644
--- a/x/ftdc/collector_buffered.go
+++ b/x/ftdc/collector_buffered.go
@@ -2,6 +2,7 @@ package ftdc
 
 import (
 	"context"
+	"sync"
 
 	"github.com/tychoish/fun/erc"
 )
@@ -11,6 +12,8 @@ type bufferedCollector struct {
 	pipe    chan any
 	catcher erc.Collector
 	ctx     context.Context
+	adding  sync.RWMutex // held for reading by every pending Add
+	mu      sync.Mutex   // guards the underlying collector
 }
 
 // NewBufferedCollector wraps an existing collector with a buffer to
@@ -26,23 +29,41 @@ func NewBufferedCollector(ctx context.Context, size int, coll Collector) Collect
 		for {
 			select {
 			case <-ctx.Done():
-				close(c.pipe)
-				if len(c.pipe) != 0 {
-					for in := range c.pipe {
-						c.catcher.Push(c.Collector.Add(in))
+				// wait for pending operations, after which
+				// Add does not accept anything anymore.
+				c.adding.Lock()
+				defer c.adding.Unlock()
+				for {
+					select {
+					case in := <-c.pipe:
+						c.collect(in)
+					default:
+						return
 					}
 				}
-
-				return
 			case in := <-c.pipe:
-				c.catcher.Push(c.Collector.Add(in))
+				c.collect(in)
 			}
 		}
 	}()
 	return c
 }
 
+func (c *bufferedCollector) collect(in any) {
+	c.mu.Lock()
+	defer c.mu.Unlock()
+
+	c.catcher.Push(c.Collector.Add(in))
+}
+
 func (c *bufferedCollector) Add(in any) error {
+	c.adding.RLock()
+	defer c.adding.RUnlock()
+
+	if err := c.ctx.Err(); err != nil {
+		return err
+	}
+
 	select {
 	case <-c.ctx.Done():
 		return c.ctx.Err()
@@ -56,5 +77,29 @@ func (c *bufferedCollector) Resolve() ([]byte, error) {
 		return nil, c.catcher.Resolve()
 	}
 
+	c.mu.Lock()
+	defer c.mu.Unlock()
+
 	return c.Collector.Resolve()
 }
+
+func (c *bufferedCollector) SetMetadata(in any) error {
+	c.mu.Lock()
+	defer c.mu.Unlock()
+
+	return c.Collector.SetMetadata(in)
+}
+
+func (c *bufferedCollector) Reset() {
+	c.mu.Lock()
+	defer c.mu.Unlock()
+
+	c.Collector.Reset()
+}
+
+func (c *bufferedCollector) Info() CollectorInfo {
+	c.mu.Lock()
+	defer c.mu.Unlock()
+
+	return c.Collector.Info()
+}
-- 
2.43.0


From e4ff99b7daf69d375335604ea9a6d140e0a006ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:34 +0000
Subject: [PATCH 42/74] fix: the error of an FTDC stream could be missed at its
 end

---
 x/ftdc/iterator_chunk.go | 6 ++++--
 x/ftdc/read.go           | 5 +----
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/x/ftdc/iterator_chunk.go b/x/ftdc/iterator_chunk.go
index 662cf4c..4970d2e 100644
--- a/x/ftdc/iterator_chunk.go
+++ b/x/ftdc/iterator_chunk.go
@@ -21,8 +21,10 @@ func ReadChunks(r io.Reader) *Iterator[*Chunk] {
 			ctx, cancel := context.WithCancel(context.Background())
 			defer cancel()
 
-			go func() { out.catcher.Push(readChunks(ctx, msi, ipc, pipe)) }()
-			go func() { out.catcher.Push(readDiagnostic(ctx, r, ipc)) }()
+			// the errors are recorded before the consumer can
+			// observe the end of the data.
+			go func() { defer close(pipe); out.catcher.Push(readChunks(ctx, msi, ipc, pipe)) }()
+			go func() { defer close(ipc); out.catcher.Push(readDiagnostic(ctx, r, ipc)) }()
 
 			for {
 				select {
diff --git a/x/ftdc/read.go b/x/ftdc/read.go
index 2ac79ec..54c76cb 100644
--- a/x/ftdc/read.go
+++ b/x/ftdc/read.go
@@ -15,7 +15,6 @@ import (
 )
 
 func readDiagnostic(ctx context.Context, f io.Reader, ch chan<- *birch.Document) error {
-	defer close(ch)
 	buf := bufio.NewReader(f)
 	for {
 		doc, err := readBufBSON(buf)
@@ -35,14 +34,12 @@ func readDiagnostic(ctx context.Context, f io.Reader, ch chan<- *birch.Document)
 }
 
 func readChunks(ctx context.Context, msi *metasourceImpl, ch <-chan *birch.Document, o chan<- *Chunk) error {
-	defer close(o)
-
 	var metadata *birch.Document
 
 	for {
 		select {
 		case <-ctx.Done():
-			return ctx.Err()
+			return nil
 		case doc, ok := <-ch:
 			if !ok {
 				return nil
-- 
2.43.0


From 456ddd33f3b6e1d6b49b74d08fd04c00250f557d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:26 +0000
Subject: [PATCH 43/74] fix: damaged FTDC data panicked or was read as other
 samples

---
 x/ftdc/read.go | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/x/ftdc/read.go b/x/ftdc/read.go
index 54c76cb..2873058 100644
--- a/x/ftdc/read.go
+++ b/x/ftdc/read.go
@@ -9,6 +9,7 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"time"
 
 	"github.com/tychoish/birch"
 	"github.com/tychoish/birch/bsontype"
@@ -61,14 +62,20 @@ func readChunks(ctx context.Context, msi *metasourceImpl, ch <-chan *birch.Docum
 				continue
 			}
 
-			id, _ := doc.Lookup("_id").TimeOK()
+			var id time.Time
+			if idValue := doc.Lookup("_id"); idValue != nil {
+				id, _ = idValue.TimeOK()
+			}
 
 			// get the data field which holds the metrics chunk
 			zelem := doc.LookupElement("data")
 			if zelem == nil {
 				return errors.New("data is not populated")
 			}
-			_, zBytes := zelem.Value().Binary()
+			_, zBytes, ok := zelem.Value().BinaryOK()
+			if !ok || len(zBytes) < 4 {
+				return errors.New("data is not a metrics chunk")
+			}
 
 			// the metrics chunk, after the first 4 bytes, is zlib
 			// compressed, so we make a reader for that. data
@@ -76,7 +83,12 @@ func readChunks(ctx context.Context, msi *metasourceImpl, ch <-chan *birch.Docum
 			if err != nil {
 				return fmt.Errorf("problem building zlib reader: %w", err)
 			}
-			buf := bufio.NewReader(z)
+			// read all of it: the checksum is at the end.
+			payload, err := io.ReadAll(z)
+			if err != nil {
+				return fmt.Errorf("problem reading compressed data: %w", err)
+			}
+			buf := bufio.NewReader(bytes.NewReader(payload))
 
 			// the metrics chunk, which is *not* bson, first
 			// contains a bson document which begins the
@@ -111,7 +123,7 @@ func readChunks(ctx context.Context, msi *metasourceImpl, ch <-chan *birch.Docum
 			var nzeroes uint64
 			for i, v := range metrics {
 				metrics[i].startingValue = v.startingValue
-				metrics[i].Values = make([]int64, ndeltas)
+				metrics[i].Values = make([]int64, 0, min(ndeltas, len(payload)))
 
 				for j := 0; j < ndeltas; j++ {
 					var delta uint64
@@ -130,7 +142,7 @@ func readChunks(ctx context.Context, msi *metasourceImpl, ch <-chan *birch.Docum
 							}
 						}
 					}
-					metrics[i].Values[j] = int64(delta)
+					metrics[i].Values = append(metrics[i].Values, int64(delta))
 				}
 				if metrics[i].originalType == bsontype.Double {
 					metrics[i].Values = undeltaFloats(v.startingValue, metrics[i].Values)
@@ -163,6 +175,11 @@ func readBufBSON(buf *bufio.Reader) (*birch.Document, error) {
 		return nil, err
 	}
 
+	// nested documents are not checked while reading.
+	if _, err := doc.Validate(); err != nil {
+		return nil, err
+	}
+
 	return doc, nil
 }
 
-- 
2.43.0


From 7b77b782ecb4a192f86b4b86eba47622896fe154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:32 +0000
Subject: [PATCH 44/74] fix: reading series without a registered marshaler
 panicked

---
 x/ftdc/iterator.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/x/ftdc/iterator.go b/x/ftdc/iterator.go
index bd2ed7c..594f6f7 100644
--- a/x/ftdc/iterator.go
+++ b/x/ftdc/iterator.go
@@ -1,6 +1,7 @@
 package ftdc
 
 import (
+	"errors"
 	"io"
 	"iter"
 
@@ -128,8 +129,13 @@ func ReadSeries(r io.Reader) *Iterator[*birch.Document] {
 	out.iterator = func() iter.Seq[*birch.Document] {
 		return func(yield func(*birch.Document) bool) {
 			defer func() { out.catcher.Push(chunks.Close()) }()
+			marshaler := util.GlobalMarshaler()
+			if marshaler == nil {
+				out.catcher.Push(errors.New("no registered marshaler"))
+				return
+			}
 			for chunk := range chunks.Iterator() {
-				payload, err := util.GlobalMarshaler()(chunk.exportMatrix())
+				payload, err := marshaler(chunk.exportMatrix())
 				if err != nil {
 					out.catcher.Push(err)
 					continue
-- 
2.43.0


From f426e26baece6e75378232b8142ea41119371041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:12 +0000
Subject: [PATCH 45/74] fix: doubles were exported to CSV as their bit patterns

---
 x/ftdc/csv.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/x/ftdc/csv.go b/x/ftdc/csv.go
index c27a89a..3c678fd 100644
--- a/x/ftdc/csv.go
+++ b/x/ftdc/csv.go
@@ -27,7 +27,10 @@ func (c *Chunk) getRecord(i int) []string {
 	fields := make([]string, len(c.Metrics))
 	for idx, m := range c.Metrics {
 		switch m.originalType {
-		case bsontype.Double, bsontype.Int32, bsontype.Int64, bsontype.Boolean, bsontype.Timestamp:
+		case bsontype.Double:
+			// with an exponent, to tell it from an integer.
+			fields[idx] = strconv.FormatFloat(restoreFloat(m.Values[i]), 'e', -1, 64)
+		case bsontype.Int32, bsontype.Int64, bsontype.Boolean, bsontype.Timestamp:
 			fields[idx] = strconv.FormatInt(m.Values[i], 10)
 		case bsontype.DateTime:
 			fields[idx] = time.Unix(m.Values[i]/1000, 0).Format(time.RFC3339)
@@ -196,6 +199,10 @@ func ConvertFromCSV(bucketSize int, input io.Reader, output io.Writer) error {
 			var val int
 			val, err = strconv.Atoi(record[idx])
 			if err != nil {
+				var dbl float64
+				if dbl, err = strconv.ParseFloat(record[idx], 64); err == nil {
+					elems = append(elems, birch.EC.Double(header[idx], dbl))
+				}
 				continue
 			}
 			elems = append(elems, birch.EC.Int64(header[idx], int64(val)))
-- 
2.43.0


From 9f9045d57af7adeaa0665fdb9dde9eb27f713dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:19 +0000
Subject: [PATCH 46/74] fix: importing CSV data lost rows and errors

---
 x/ftdc/csv.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/x/ftdc/csv.go b/x/ftdc/csv.go
index 3c678fd..ddcea4b 100644
--- a/x/ftdc/csv.go
+++ b/x/ftdc/csv.go
@@ -156,7 +156,7 @@ func DumpCSV(seq iter.Seq[*Chunk], prefix string) error {
 // If the number of fields changes in the CSV fields, the first field
 // with the changed number of fields becomes the header for the
 // subsequent documents in the stream.
-func ConvertFromCSV(bucketSize int, input io.Reader, output io.Writer) error {
+func ConvertFromCSV(bucketSize int, input io.Reader, output io.Writer) (err error) {
 	csvr := csv.NewReader(input)
 
 	header, err := csvr.Read()
@@ -169,6 +169,7 @@ func ConvertFromCSV(bucketSize int, input io.Reader, output io.Writer) error {
 	defer func() {
 		if err != nil && (!errors.Is(err, context.Canceled) || !errors.Is(err, context.DeadlineExceeded)) {
 			err = fmt.Errorf("omitting final flush, because of prior error: %w", err)
+			return
 		}
 		err = FlushCollector(collector, output)
 	}()
@@ -184,11 +185,14 @@ func ConvertFromCSV(bucketSize int, input io.Reader, output io.Writer) error {
 
 		if err != nil {
 			if pr, ok := err.(*csv.ParseError); ok && pr.Err == csv.ErrFieldCount {
-				header = record
-				continue
+				if len(record) != len(header) {
+					header = record
+					continue
+				}
+			} else {
+				err = fmt.Errorf("problem parsing csv: %w", err)
+				return err
 			}
-			err = fmt.Errorf("problem parsing csv: %w", err)
-			return err
 		}
 		if len(record) != len(header) {
 			return errors.New("unexpected field count change")
-- 
2.43.0


From 81d690dfb0436fc0f53cf06603d052d4c1f1534d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:42 +0000
Subject: [PATCH 47/74] fix: a failed flush made streaming dynamic collectors
 mix schemas

---
 x/ftdc/collector_streaming.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/x/ftdc/collector_streaming.go b/x/ftdc/collector_streaming.go
index 51e8811..1603524 100644
--- a/x/ftdc/collector_streaming.go
+++ b/x/ftdc/collector_streaming.go
@@ -109,13 +109,13 @@ func (c *streamingDynamicCollector) Add(in any) error {
 
 	docHash, num := metricKeyHash(doc)
 	if c.hash == "" {
-		c.hash = docHash
-		c.metricCount = num
 		if c.streamingCollector.count > 0 {
 			if err := FlushCollector(c, c.output); err != nil {
 				return err
 			}
 		}
+		c.hash = docHash
+		c.metricCount = num
 		return (c.streamingCollector.Add(doc))
 	}
 
@@ -123,6 +123,8 @@ func (c *streamingDynamicCollector) Add(in any) error {
 		if err := FlushCollector(c, c.output); err != nil {
 			return err
 		}
+		c.hash = docHash
+		c.metricCount = num
 	}
 
 	return (c.streamingCollector.Add(doc))
-- 
2.43.0


From 4634e595e4c6241c22a509ab97a4a8aef8dda970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:45 +0000
Subject: [PATCH 48/74] fix: FTDC data that ends after the length of a record
 looked complete

---
 x/ftdc/read.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/x/ftdc/read.go b/x/ftdc/read.go
index 2873058..007fe25 100644
--- a/x/ftdc/read.go
+++ b/x/ftdc/read.go
@@ -171,7 +171,10 @@ func readChunks(ctx context.Context, msi *metasourceImpl, ch <-chan *birch.Docum
 func readBufBSON(buf *bufio.Reader) (*birch.Document, error) {
 	doc := &birch.Document{}
 
-	if _, err := doc.ReadFrom(buf); err != nil {
+	if n, err := doc.ReadFrom(buf); err != nil {
+		if err == io.EOF && n > 0 {
+			err = io.ErrUnexpectedEOF
+		}
 		return nil, err
 	}
 
-- 
2.43.0


From 6b5eecd8947c1737392196700b52c3af7a99435c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:26 +0000
Subject: [PATCH 49/74] fix: interval recorders deadlocked when stopped at a
 tick

---
 x/ftdc/events/recorder_histogram_interval.go   | 1 +
 x/ftdc/events/recorder_performance_interval.go | 1 +
 2 files changed, 2 insertions(+)

diff --git a/x/ftdc/events/recorder_histogram_interval.go b/x/ftdc/events/recorder_histogram_interval.go
index cadc7f8..b24ba0c 100644
--- a/x/ftdc/events/recorder_histogram_interval.go
+++ b/x/ftdc/events/recorder_histogram_interval.go
@@ -52,6 +52,7 @@ func (r *intervalHistogramStream) worker(ctx context.Context, interval time.Dura
 			// the lock is requested and when the lock is obtained,
 			// the context has been canceled
 			if ctx.Err() != nil {
+				r.Unlock()
 				return
 			}
 			r.point.setTimestamp(r.started)
diff --git a/x/ftdc/events/recorder_performance_interval.go b/x/ftdc/events/recorder_performance_interval.go
index 2d121ba..5e3ab38 100644
--- a/x/ftdc/events/recorder_performance_interval.go
+++ b/x/ftdc/events/recorder_performance_interval.go
@@ -52,6 +52,7 @@ func (r *intervalStream) worker(ctx context.Context, interval time.Duration) {
 			// the lock is requested and when the lock is obtained,
 			// the context has been canceled
 			if ctx.Err() != nil {
+				r.Unlock()
 				return
 			}
 			r.point.setTimestamp(r.started)
-- 
2.43.0


From a414fe2ddc09ddd17a8ac0bab1f767f02e1f4cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:29 +0000
Subject: [PATCH 50/74] fix: the interval recorder did not count iterations

---
 x/ftdc/events/recorder_performance_interval.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/x/ftdc/events/recorder_performance_interval.go b/x/ftdc/events/recorder_performance_interval.go
index 5e3ab38..22729d5 100644
--- a/x/ftdc/events/recorder_performance_interval.go
+++ b/x/ftdc/events/recorder_performance_interval.go
@@ -96,6 +96,7 @@ func (r *intervalStream) EndIteration(dur time.Duration) {
 	r.Lock()
 
 	r.point.setTimestamp(r.started)
+	r.point.Counters.Number++
 	if !r.started.IsZero() {
 		r.point.Timers.Total += time.Since(r.started)
 		r.started = time.Time{}
-- 
2.43.0


From 198623620d8955b16fc63a949cabea3f0bcaf432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:33 +0000
Subject: [PATCH 51/74] fix: the interval histogram recorder recorded the last
 total duration twice

---
 x/ftdc/events/recorder_histogram_interval.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/x/ftdc/events/recorder_histogram_interval.go b/x/ftdc/events/recorder_histogram_interval.go
index b24ba0c..5c8362b 100644
--- a/x/ftdc/events/recorder_histogram_interval.go
+++ b/x/ftdc/events/recorder_histogram_interval.go
@@ -87,6 +87,7 @@ func (r *intervalHistogramStream) EndIteration(dur time.Duration) {
 
 	if !r.started.IsZero() {
 		r.catcher.Push(r.point.Timers.Total.RecordValue(int64(time.Since(r.started))))
+		r.started = time.Time{}
 	}
 
 	r.Unlock()
-- 
2.43.0


From e1995c53de466bbb053230165cb001d27ca1ba2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:35 +0000
Subject: [PATCH 52/74] fix: the grouped histogram recorder ignored its
 interval

---
 x/ftdc/events/recorder_histogram_grouped.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/x/ftdc/events/recorder_histogram_grouped.go b/x/ftdc/events/recorder_histogram_grouped.go
index 46ae3a3..b69e0c7 100644
--- a/x/ftdc/events/recorder_histogram_grouped.go
+++ b/x/ftdc/events/recorder_histogram_grouped.go
@@ -32,6 +32,7 @@ func NewHistogramGroupedRecorder(collector ftdc.Collector, interval time.Duratio
 	return &histogramGroupedStream{
 		point:     NewHistogramMillisecond(PerformanceGauges{}),
 		collector: collector,
+		interval:  interval,
 	}
 }
 
-- 
2.43.0


From d98ce2df20a08c5820365cfcab705d17d1b73e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:39 +0000
Subject: [PATCH 53/74] fix: EndTest dropped unpersisted counts and durations

---
 x/ftdc/events/histogram.go                     | 10 ++++++++++
 x/ftdc/events/performance.go                   |  5 +++++
 x/ftdc/events/recorder_histogram.go            |  3 +++
 x/ftdc/events/recorder_histogram_grouped.go    |  3 +++
 x/ftdc/events/recorder_histogram_interval.go   |  3 +++
 x/ftdc/events/recorder_performance_grouped.go  |  8 +++++++-
 x/ftdc/events/recorder_performance_interval.go |  3 +++
 x/ftdc/events/recorder_performance_raw.go      |  3 +++
 8 files changed, 37 insertions(+), 1 deletion(-)

diff --git a/x/ftdc/events/histogram.go b/x/ftdc/events/histogram.go
index 5f81bd5..15f28c0 100644
--- a/x/ftdc/events/histogram.go
+++ b/x/ftdc/events/histogram.go
@@ -107,6 +107,16 @@ func (p *PerformanceHDR) MarshalDocument() (*birch.Document, error) {
 	), nil
 }
 
+// hasData reports if any value was recorded in the point.
+func (p *PerformanceHDR) hasData() bool {
+	return p.Counters.Number.TotalCount() > 0 ||
+		p.Counters.Operations.TotalCount() > 0 ||
+		p.Counters.Size.TotalCount() > 0 ||
+		p.Counters.Errors.TotalCount() > 0 ||
+		p.Timers.Duration.TotalCount() > 0 ||
+		p.Timers.Total.TotalCount() > 0
+}
+
 func (p *PerformanceHDR) setTimestamp(started time.Time) {
 	if p.Timestamp.IsZero() {
 		if !started.IsZero() {
diff --git a/x/ftdc/events/performance.go b/x/ftdc/events/performance.go
index 31cc8d4..880d51c 100644
--- a/x/ftdc/events/performance.go
+++ b/x/ftdc/events/performance.go
@@ -177,6 +177,11 @@ func (p *Performance) Add(in *Performance) {
 	p.Gauges.State = in.Gauges.State
 }
 
+// hasData reports if there are counts or durations in the point.
+func (p *Performance) hasData() bool {
+	return p.Counters != (PerformanceCounters{}) || p.Timers != (PerformanceTimers{})
+}
+
 func (p *Performance) setTimestamp(started time.Time) {
 	if p.Timestamp.IsZero() {
 		if !started.IsZero() {
diff --git a/x/ftdc/events/recorder_histogram.go b/x/ftdc/events/recorder_histogram.go
index b44dd4e..c15f526 100644
--- a/x/ftdc/events/recorder_histogram.go
+++ b/x/ftdc/events/recorder_histogram.go
@@ -76,6 +76,9 @@ func (r *histogramStream) SetTime(t time.Time) { r.point.Timestamp = t }
 func (r *histogramStream) BeginIteration()     { r.started = time.Now(); r.point.setTimestamp(r.started) }
 
 func (r *histogramStream) EndTest() error {
+	if r.point.hasData() {
+		r.point.setTimestamp(r.started)
+	}
 	if !r.point.Timestamp.IsZero() {
 		r.catcher.Push(r.collector.Add(r.point))
 	}
diff --git a/x/ftdc/events/recorder_histogram_grouped.go b/x/ftdc/events/recorder_histogram_grouped.go
index b69e0c7..2f6e0ef 100644
--- a/x/ftdc/events/recorder_histogram_grouped.go
+++ b/x/ftdc/events/recorder_histogram_grouped.go
@@ -87,6 +87,9 @@ func (r *histogramGroupedStream) BeginIteration() {
 }
 
 func (r *histogramGroupedStream) EndTest() error {
+	if r.point.hasData() {
+		r.point.setTimestamp(r.started)
+	}
 	if !r.point.Timestamp.IsZero() {
 		r.catcher.Push(r.collector.Add(r.point))
 	}
diff --git a/x/ftdc/events/recorder_histogram_interval.go b/x/ftdc/events/recorder_histogram_interval.go
index 5c8362b..5f187a5 100644
--- a/x/ftdc/events/recorder_histogram_interval.go
+++ b/x/ftdc/events/recorder_histogram_interval.go
@@ -124,6 +124,9 @@ func (r *intervalHistogramStream) EndTest() error {
 		r.catcher.Push(r.point.Timers.Total.RecordValue(int64(time.Since(r.started))))
 		r.started = time.Time{}
 	}
+	if r.point.hasData() {
+		r.point.setTimestamp(r.started)
+	}
 	if !r.point.Timestamp.IsZero() {
 		r.catcher.Push(r.collector.Add(r.point))
 	}
diff --git a/x/ftdc/events/recorder_performance_grouped.go b/x/ftdc/events/recorder_performance_grouped.go
index 77d460f..0bb87cb 100644
--- a/x/ftdc/events/recorder_performance_grouped.go
+++ b/x/ftdc/events/recorder_performance_grouped.go
@@ -12,6 +12,7 @@ type groupStream struct {
 	lastCollected time.Time
 	interval      time.Duration
 	point         *Performance
+	persisted     Performance
 	collector     ftdc.Collector
 	catcher       erc.Collector
 }
@@ -49,10 +50,11 @@ func (r *groupStream) EndIteration(dur time.Duration) {
 		r.point.Timers.Total += time.Since(r.started)
 	}
 	r.point.Timers.Duration += dur
+	r.point.setTimestamp(r.started)
 
 	if time.Since(r.lastCollected) >= r.interval {
-		r.point.setTimestamp(r.started)
 		r.catcher.Push(r.collector.Add(r.point))
+		r.persisted = *r.point
 		r.lastCollected = time.Now()
 		r.point.Timestamp = time.Time{}
 	}
@@ -60,6 +62,9 @@ func (r *groupStream) EndIteration(dur time.Duration) {
 }
 
 func (r *groupStream) EndTest() error {
+	if r.point.Counters != r.persisted.Counters || r.point.Timers != r.persisted.Timers {
+		r.point.setTimestamp(r.started)
+	}
 	if !r.point.Timestamp.IsZero() {
 		r.catcher.Push(r.collector.Add(r.point))
 	}
@@ -73,6 +78,7 @@ func (r *groupStream) Reset() {
 	r.point = &Performance{
 		Gauges: r.point.Gauges,
 	}
+	r.persisted = Performance{}
 	r.started = time.Time{}
 	r.lastCollected = time.Time{}
 }
diff --git a/x/ftdc/events/recorder_performance_interval.go b/x/ftdc/events/recorder_performance_interval.go
index 22729d5..c80ad31 100644
--- a/x/ftdc/events/recorder_performance_interval.go
+++ b/x/ftdc/events/recorder_performance_interval.go
@@ -109,6 +109,9 @@ func (r *intervalStream) EndIteration(dur time.Duration) {
 func (r *intervalStream) EndTest() error {
 	r.Lock()
 
+	if r.point.hasData() {
+		r.point.setTimestamp(r.started)
+	}
 	if !r.point.Timestamp.IsZero() {
 		r.catcher.Push(r.collector.Add(r.point))
 	}
diff --git a/x/ftdc/events/recorder_performance_raw.go b/x/ftdc/events/recorder_performance_raw.go
index f3c086a..490cdf0 100644
--- a/x/ftdc/events/recorder_performance_raw.go
+++ b/x/ftdc/events/recorder_performance_raw.go
@@ -51,6 +51,9 @@ func (r *rawStream) EndIteration(dur time.Duration) {
 }
 
 func (r *rawStream) EndTest() error {
+	if r.point.hasData() {
+		r.point.setTimestamp(r.started)
+	}
 	if !r.point.Timestamp.IsZero() {
 		r.catcher.Push(r.collector.Add(r.point))
 	}
-- 
2.43.0


From bc0604bf20cff029a3ce41c3cd6aa1634124bc7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:40 +0000
Subject: [PATCH 54/74] fix: the shim recorder never started or stopped the
 timer

---
 x/ftdc/events/recorder_wrapper_stdlib.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/x/ftdc/events/recorder_wrapper_stdlib.go b/x/ftdc/events/recorder_wrapper_stdlib.go
index 5f47b8d..fb7fb67 100644
--- a/x/ftdc/events/recorder_wrapper_stdlib.go
+++ b/x/ftdc/events/recorder_wrapper_stdlib.go
@@ -30,11 +30,11 @@ func (r *stdShim) Reset() {
 	r.b.ResetTimer()
 	r.Recorder.Reset()
 }
-func (r *stdShim) Begin() {
+func (r *stdShim) BeginIteration() {
 	r.b.StartTimer()
 	r.Recorder.BeginIteration()
 }
-func (r *stdShim) End(dur time.Duration) {
+func (r *stdShim) EndIteration(dur time.Duration) {
 	r.b.StopTimer()
 	r.Recorder.EndIteration(dur)
 }
-- 
2.43.0


From 0c3bfd982c98fa43e94fb8d550c60f7a381db29f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:43 +0000
Subject: [PATCH 55/74] fix: performance points lost their id and operations
 when unmarshaled

---
 x/ftdc/events/performance.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/x/ftdc/events/performance.go b/x/ftdc/events/performance.go
index 880d51c..87023e8 100644
--- a/x/ftdc/events/performance.go
+++ b/x/ftdc/events/performance.go
@@ -91,6 +91,7 @@ func (p *Performance) UnmarshalDocument(doc *birch.Document) error {
 		case "ts":
 			p.Timestamp = elem.Value().Time()
 		case "id":
+			p.ID = elem.Value().Int64()
 		case "counters":
 			if err := p.Counters.UnmarshalDocument(elem.Value().MutableDocument()); err != nil {
 				return err
@@ -114,7 +115,7 @@ func (p *PerformanceCounters) UnmarshalDocument(doc *birch.Document) error {
 		switch elem.Key() {
 		case "n":
 			p.Number = elem.Value().Int64()
-		case "opts":
+		case "ops":
 			p.Operations = elem.Value().Int64()
 		case "size":
 			p.Size = elem.Value().Int64()
-- 
2.43.0


From 18b19c1b534a6cc8ff1d8dfd2803f0da4707cd27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:46 +0000
Subject: [PATCH 56/74] fix: event collectors accumulated into the caller's
 first event

---
 x/ftdc/events/collector.go   | 12 ++++++++----
 x/ftdc/events/performance.go |  7 ++++---
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/x/ftdc/events/collector.go b/x/ftdc/events/collector.go
index 876bdf8..282464c 100644
--- a/x/ftdc/events/collector.go
+++ b/x/ftdc/events/collector.go
@@ -48,7 +48,8 @@ func (c *basicCumulativeCollector) AddEvent(in *Performance) error {
 		return errors.New("cannot add nil performance event")
 	}
 	if c.current == nil {
-		c.current = in
+		first := *in
+		c.current = &first
 		return c.Collector.Add(c.current)
 	}
 
@@ -102,7 +103,8 @@ func (c *samplingCollector) AddEvent(in *Performance) error {
 	}
 
 	if c.current == nil {
-		c.current = in
+		first := *in
+		c.current = &first
 	} else {
 		c.current.Add(in)
 	}
@@ -142,7 +144,8 @@ func (c *randSamplingCollector) AddEvent(in *Performance) error {
 	}
 
 	if c.current == nil {
-		c.current = in
+		first := *in
+		c.current = &first
 	} else {
 		c.current.Add(in)
 	}
@@ -189,7 +192,8 @@ func (c *intervalSamplingCollector) AddEvent(in *Performance) error {
 	}
 
 	if c.current == nil {
-		c.current = in
+		first := *in
+		c.current = &first
 		c.lastCollected = time.Now()
 		return c.Collector.Add(c.current)
 	}
diff --git a/x/ftdc/events/performance.go b/x/ftdc/events/performance.go
index 87023e8..447ac0d 100644
--- a/x/ftdc/events/performance.go
+++ b/x/ftdc/events/performance.go
@@ -159,12 +159,13 @@ func (p *PerformanceGauges) UnmarshalDocument(doc *birch.Document) error {
 // logically, overriding the Gauges values as well as the timestamp and ID
 // ID values, while summing the Counters and Timers values.
 func (p *Performance) Add(in *Performance) {
-	if in.ID == 0 {
-		in.ID = p.ID + 1
+	id := in.ID
+	if id == 0 {
+		id = p.ID + 1
 	}
 
 	p.Timestamp = in.Timestamp
-	p.ID = in.ID
+	p.ID = id
 	p.Counters.Number += in.Counters.Number
 	p.Counters.Errors += in.Counters.Errors
 	p.Counters.Operations += in.Counters.Operations
-- 
2.43.0


From e359183d45331f0bfdec1f3b0c1969e0abf892c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:55 +0000
Subject: [PATCH 57/74] fix: slices of bool, uint32 and uint64 had no element
 constructor

---
 constructor.go | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/constructor.go b/constructor.go
index 2c8c066..23db903 100644
--- a/constructor.go
+++ b/constructor.go
@@ -118,6 +118,12 @@ func (ElementConstructor) Interface(key string, value any) *Element {
 		elem = EC.SliceFloat32(key, t)
 	case []int:
 		elem = EC.SliceInt(key, t)
+	case []bool:
+		elem = sliceOf(key, t)
+	case []uint32:
+		elem = sliceOf(key, t)
+	case []uint64:
+		elem = sliceOf(key, t)
 	case []time.Time:
 		elem = EC.SliceTime(key, t)
 	case []time.Duration:
@@ -158,6 +164,16 @@ func (ElementConstructor) Interface(key string, value any) *Element {
 	return elem
 }
 
+// sliceOf creates an array element of the values converted with Interface.
+func sliceOf[T any](key string, in []T) *Element {
+	vals := make([]any, len(in))
+	for i := range in {
+		vals[i] = in[i]
+	}
+
+	return EC.SliceInterface(key, vals)
+}
+
 // InterfaceErr does what Interface does, but returns an error when it cannot
 // properly convert a value into an *Element. See Interface for details.
 func (ElementConstructorError) Interface(key string, value any) (*Element, error) {
@@ -180,6 +196,13 @@ func (ElementConstructorError) Interface(key string, value any) (*Element, error
 		default:
 			return EC.Int64(key, int64(t)), nil
 		}
+	case []uint64:
+		for _, v := range t {
+			if v > math.MaxInt64 {
+				return nil, fmt.Errorf("BSON only has signed integer types and %d overflows an int64", v)
+			}
+		}
+		return EC.Interface(key, t), nil
 	case DocumentMarshaler:
 		return ECE.DocumentMarshaler(key, t)
 	case Marshaler:
-- 
2.43.0


From 5b4353d40bb965b3e46dcf50a213ae12a421dc09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:58 +0000
Subject: [PATCH 58/74] fix: reading a histogram panicked without a registered
 unmarshaler

---
 x/ftdc/hdrhist/snapshot.go | 47 +++++++++++++++++++++++++++++++++++++-
 1 file changed, 46 insertions(+), 1 deletion(-)

diff --git a/x/ftdc/hdrhist/snapshot.go b/x/ftdc/hdrhist/snapshot.go
index 1274bb2..f9d6fc5 100644
--- a/x/ftdc/hdrhist/snapshot.go
+++ b/x/ftdc/hdrhist/snapshot.go
@@ -2,6 +2,7 @@ package hdrhist
 
 import (
 	"encoding/json"
+	"fmt"
 
 	"github.com/tychoish/birch"
 	"github.com/tychoish/birch/x/ftdc/util"
@@ -29,7 +30,11 @@ func (h *Histogram) MarshalJSON() ([]byte, error) { return json.Marshal(h.Export
 
 func (h *Histogram) UnmarshalBSON(in []byte) error {
 	s := &hdrhist.Snapshot{}
-	if err := util.GlobalUnmarshaler()(in, s); err != nil {
+	unmarshal := util.GlobalUnmarshaler()
+	if unmarshal == nil {
+		unmarshal = unmarshalSnapshot
+	}
+	if err := unmarshal(in, s); err != nil {
 		return err
 	}
 
@@ -37,6 +42,46 @@ func (h *Histogram) UnmarshalBSON(in []byte) error {
 	return nil
 }
 
+// unmarshalSnapshot reads what MarshalDocument produced, when there is no
+// registered unmarshaler.
+func unmarshalSnapshot(in []byte, out any) error {
+	s := out.(*hdrhist.Snapshot)
+
+	doc, err := birch.ReadDocument(in)
+	if err != nil {
+		return err
+	}
+
+	for elem := range doc.Iterator() {
+		ok := true
+		switch elem.Key() {
+		case "lowest":
+			s.LowestTrackableValue, ok = elem.Value().Int64OK()
+		case "highest":
+			s.HighestTrackableValue, ok = elem.Value().Int64OK()
+		case "figures":
+			s.SignificantFigures, ok = elem.Value().Int64OK()
+		case "counts":
+			var counts *birch.Array
+			if counts, ok = elem.Value().MutableArrayOK(); !ok {
+				break
+			}
+			for val := range counts.Iterator() {
+				var n int64
+				if n, ok = val.Int64OK(); !ok {
+					break
+				}
+				s.Counts = append(s.Counts, n)
+			}
+		}
+		if !ok {
+			return fmt.Errorf("unexpected type %s for histogram field %q", elem.Value().Type(), elem.Key())
+		}
+	}
+
+	return nil
+}
+
 func (h *Histogram) UnmarshalJSON(in []byte) error {
 	s := &hdrhist.Snapshot{}
 	if err := json.Unmarshal(in, s); err != nil {
-- 
2.43.0


From ba55e56ae6a8cc159f3d569e510fbca370032df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:18 +0000
Subject: [PATCH 59/74] fix: EndTest lost its errors when there were several

---
 x/ftdc/events/recorder_histogram.go            | 2 +-
 x/ftdc/events/recorder_histogram_grouped.go    | 2 +-
 x/ftdc/events/recorder_histogram_interval.go   | 2 +-
 x/ftdc/events/recorder_histogram_single.go     | 2 +-
 x/ftdc/events/recorder_performance_grouped.go  | 2 +-
 x/ftdc/events/recorder_performance_interval.go | 2 +-
 x/ftdc/events/recorder_performance_raw.go      | 2 +-
 7 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/x/ftdc/events/recorder_histogram.go b/x/ftdc/events/recorder_histogram.go
index c15f526..e7c9b56 100644
--- a/x/ftdc/events/recorder_histogram.go
+++ b/x/ftdc/events/recorder_histogram.go
@@ -82,7 +82,7 @@ func (r *histogramStream) EndTest() error {
 	if !r.point.Timestamp.IsZero() {
 		r.catcher.Push(r.collector.Add(r.point))
 	}
-	err := r.catcher.Resolve()
+	err := erc.JoinSeq(r.catcher.Iterator())
 	r.Reset()
 	return err
 }
diff --git a/x/ftdc/events/recorder_histogram_grouped.go b/x/ftdc/events/recorder_histogram_grouped.go
index 2f6e0ef..8305a56 100644
--- a/x/ftdc/events/recorder_histogram_grouped.go
+++ b/x/ftdc/events/recorder_histogram_grouped.go
@@ -93,7 +93,7 @@ func (r *histogramGroupedStream) EndTest() error {
 	if !r.point.Timestamp.IsZero() {
 		r.catcher.Push(r.collector.Add(r.point))
 	}
-	err := r.catcher.Resolve()
+	err := erc.JoinSeq(r.catcher.Iterator())
 	r.Reset()
 	return err
 }
diff --git a/x/ftdc/events/recorder_histogram_interval.go b/x/ftdc/events/recorder_histogram_interval.go
index 5f187a5..7ab74ef 100644
--- a/x/ftdc/events/recorder_histogram_interval.go
+++ b/x/ftdc/events/recorder_histogram_interval.go
@@ -130,7 +130,7 @@ func (r *intervalHistogramStream) EndTest() error {
 	if !r.point.Timestamp.IsZero() {
 		r.catcher.Push(r.collector.Add(r.point))
 	}
-	err := r.catcher.Resolve()
+	err := erc.JoinSeq(r.catcher.Iterator())
 	r.reset()
 
 	r.Unlock()
diff --git a/x/ftdc/events/recorder_histogram_single.go b/x/ftdc/events/recorder_histogram_single.go
index 0d3f9f8..261ed74 100644
--- a/x/ftdc/events/recorder_histogram_single.go
+++ b/x/ftdc/events/recorder_histogram_single.go
@@ -76,7 +76,7 @@ func (r *histogramSingle) BeginIteration()     { r.started = time.Now() }
 func (r *histogramSingle) EndTest() error {
 	r.point.setTimestamp(r.started)
 	r.catcher.Push(r.collector.Add(r.point))
-	err := r.catcher.Resolve()
+	err := erc.JoinSeq(r.catcher.Iterator())
 	r.Reset()
 	return err
 }
diff --git a/x/ftdc/events/recorder_performance_grouped.go b/x/ftdc/events/recorder_performance_grouped.go
index 0bb87cb..74d9add 100644
--- a/x/ftdc/events/recorder_performance_grouped.go
+++ b/x/ftdc/events/recorder_performance_grouped.go
@@ -68,7 +68,7 @@ func (r *groupStream) EndTest() error {
 	if !r.point.Timestamp.IsZero() {
 		r.catcher.Push(r.collector.Add(r.point))
 	}
-	err := r.catcher.Resolve()
+	err := erc.JoinSeq(r.catcher.Iterator())
 	r.Reset()
 	return err
 }
diff --git a/x/ftdc/events/recorder_performance_interval.go b/x/ftdc/events/recorder_performance_interval.go
index c80ad31..2ac6432 100644
--- a/x/ftdc/events/recorder_performance_interval.go
+++ b/x/ftdc/events/recorder_performance_interval.go
@@ -115,7 +115,7 @@ func (r *intervalStream) EndTest() error {
 	if !r.point.Timestamp.IsZero() {
 		r.catcher.Push(r.collector.Add(r.point))
 	}
-	err := r.catcher.Resolve()
+	err := erc.JoinSeq(r.catcher.Iterator())
 	r.reset()
 
 	r.Unlock()
diff --git a/x/ftdc/events/recorder_performance_raw.go b/x/ftdc/events/recorder_performance_raw.go
index 490cdf0..7e045b9 100644
--- a/x/ftdc/events/recorder_performance_raw.go
+++ b/x/ftdc/events/recorder_performance_raw.go
@@ -57,7 +57,7 @@ func (r *rawStream) EndTest() error {
 	if !r.point.Timestamp.IsZero() {
 		r.catcher.Push(r.collector.Add(r.point))
 	}
-	err := r.catcher.Resolve()
+	err := erc.JoinSeq(r.catcher.Iterator())
 	r.Reset()
 	return err
 }
-- 
2.43.0


From f3e6183c325963f5f4ffd2e50b9cb40507888a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:24 +0000
Subject: [PATCH 60/74] fix: the zero operation registry panicked at the first
 registration

---
 x/mrpc/registry.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/x/mrpc/registry.go b/x/mrpc/registry.go
index 1a9d0c2..b67ba4e 100644
--- a/x/mrpc/registry.go
+++ b/x/mrpc/registry.go
@@ -28,6 +28,9 @@ func (o *OperationRegistry) Add(op mongowire.OpScope, h HandlerFunc) error {
 		return fmt.Errorf("operation '%+v' is already defined", op)
 	}
 
+	if o.ops == nil {
+		o.ops = make(map[mongowire.OpScope]HandlerFunc)
+	}
 	o.ops[op] = h
 
 	return nil
-- 
2.43.0


From 3e9b7a23381e498c00931196802956f0658e35dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:03 +0000
Subject: [PATCH 61/74] fix: parallel metrics collectors never finished

---
 x/ftdc/metrics/metrics.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/x/ftdc/metrics/metrics.go b/x/ftdc/metrics/metrics.go
index 13937b8..b2d2f5f 100644
--- a/x/ftdc/metrics/metrics.go
+++ b/x/ftdc/metrics/metrics.go
@@ -123,6 +123,7 @@ func (opts *CollectOptions) generate(ctx context.Context, id int) (*birch.Docume
 		}()
 	}
 	wg.Wait()
+	close(elems)
 
 	for elem := range elems {
 		doc.Append(elem)
-- 
2.43.0


From 05ed765a09a7a2673d46e8881487d64482c63dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:03 +0000
Subject: [PATCH 62/74] fix: the panic of a parallel metrics collector could go
 unreported

---
 x/ftdc/metrics/metrics.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x/ftdc/metrics/metrics.go b/x/ftdc/metrics/metrics.go
index b2d2f5f..d63e3c0 100644
--- a/x/ftdc/metrics/metrics.go
+++ b/x/ftdc/metrics/metrics.go
@@ -110,12 +110,12 @@ func (opts *CollectOptions) generate(ctx context.Context, id int) (*birch.Docume
 		wg.Add(1)
 
 		go func() {
+			defer wg.Done()
 			defer func() {
 				if p := recover(); p != nil {
 					catcher.Push(fmt.Errorf("ftdc metrics collector panic: %v", p))
 				}
 			}()
-			defer wg.Done()
 
 			for collector := range collectors {
 				elems <- birch.EC.SubDocument(collector.Name, collector.Operation(ctx))
-- 
2.43.0


From b08d5d2b0a212988397bb7d887745f20a7065ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:03 +0000
Subject: [PATCH 63/74] fix: collecting runtime metrics left its last file open

---
 x/ftdc/metrics/metrics.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/x/ftdc/metrics/metrics.go b/x/ftdc/metrics/metrics.go
index d63e3c0..5bb398a 100644
--- a/x/ftdc/metrics/metrics.go
+++ b/x/ftdc/metrics/metrics.go
@@ -190,6 +190,8 @@ func CollectRuntime(ctx context.Context, opts CollectOptions) error {
 		return fmt.Errorf("problem creating initial file: %w", err)
 	}
 
+	defer func() { _ = file.Close() }()
+
 	collector := ftdc.NewStreamingCollector(opts.SampleCount, file)
 	collectTimer := time.NewTimer(0)
 	flushTimer := time.NewTimer(opts.FlushInterval)
-- 
2.43.0


From ab073593a75853db386f1287e18f39e98c895ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:03 +0000
Subject: [PATCH 64/74] fix: a panic while reading JSON metrics ended the
 process

---
 x/ftdc/metrics/json.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/x/ftdc/metrics/json.go b/x/ftdc/metrics/json.go
index 027914a..36b4957 100644
--- a/x/ftdc/metrics/json.go
+++ b/x/ftdc/metrics/json.go
@@ -50,12 +50,12 @@ func (opts CollectJSONOptions) getSource(ctx context.Context) (<-chan *birch.Doc
 	switch {
 	case opts.InputSource != nil:
 		go func() {
+			defer close(errs)
 			defer func() {
 				if p := recover(); p != nil {
 					errs <- fmt.Errorf("json metrics collector: %v", p)
 				}
 			}()
-			defer close(errs)
 
 			stream := bufio.NewScanner(opts.InputSource)
 
@@ -76,12 +76,12 @@ func (opts CollectJSONOptions) getSource(ctx context.Context) (<-chan *birch.Doc
 		}()
 	case opts.FileName != "" && !opts.Follow:
 		go func() {
+			defer close(errs)
 			defer func() {
 				if p := recover(); p != nil {
 					errs <- fmt.Errorf("json metrics collector: %v", p)
 				}
 			}()
-			defer close(errs)
 			f, err := os.Open(opts.FileName)
 			if err != nil {
 				errs <- fmt.Errorf("problem opening data file %s: %w", opts.FileName, err)
@@ -111,12 +111,12 @@ func (opts CollectJSONOptions) getSource(ctx context.Context) (<-chan *birch.Doc
 		}()
 	case opts.FileName != "" && opts.Follow:
 		go func() {
+			defer close(errs)
 			defer func() {
 				if p := recover(); p != nil {
 					errs <- fmt.Errorf("json metrics collector: %v", p)
 				}
 			}()
-			defer close(errs)
 
 			if err := follow(ctx, opts.FileName, func(in string) error {
 				jd, err := jsonx.DCE.Bytes([]byte(in))
-- 
2.43.0


From 9a0342e3822f940918be5e72f0c0cc7df113ddaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:03 +0000
Subject: [PATCH 65/74] fix: JSON metrics that could not be read to the end
 looked complete

---
 x/ftdc/metrics/json.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/x/ftdc/metrics/json.go b/x/ftdc/metrics/json.go
index 36b4957..389c69c 100644
--- a/x/ftdc/metrics/json.go
+++ b/x/ftdc/metrics/json.go
@@ -73,6 +73,9 @@ func (opts CollectJSONOptions) getSource(ctx context.Context) (<-chan *birch.Doc
 
 				out <- doc
 			}
+			if err := stream.Err(); err != nil {
+				errs <- err
+			}
 		}()
 	case opts.FileName != "" && !opts.Follow:
 		go func() {
@@ -108,6 +111,9 @@ func (opts CollectJSONOptions) getSource(ctx context.Context) (<-chan *birch.Doc
 				case <-ctx.Done():
 				}
 			}
+			if err := stream.Err(); err != nil {
+				errs <- err
+			}
 		}()
 	case opts.FileName != "" && opts.Follow:
 		go func() {
-- 
2.43.0


From a719696cc547260f36d397f205ac422443fc7280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:03 +0000
Subject: [PATCH 66/74] fix: collecting JSON metrics left its source running

---
 x/ftdc/metrics/json.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/x/ftdc/metrics/json.go b/x/ftdc/metrics/json.go
index 389c69c..61c7f70 100644
--- a/x/ftdc/metrics/json.go
+++ b/x/ftdc/metrics/json.go
@@ -71,7 +71,12 @@ func (opts CollectJSONOptions) getSource(ctx context.Context) (<-chan *birch.Doc
 					return
 				}
 
-				out <- doc
+				select {
+				case out <- doc:
+				case <-ctx.Done():
+					errs <- ctx.Err()
+					return
+				}
 			}
 			if err := stream.Err(); err != nil {
 				errs <- err
@@ -109,6 +114,8 @@ func (opts CollectJSONOptions) getSource(ctx context.Context) (<-chan *birch.Doc
 				select {
 				case out <- doc:
 				case <-ctx.Done():
+					errs <- ctx.Err()
+					return
 				}
 			}
 			if err := stream.Err(); err != nil {
@@ -199,7 +206,11 @@ func CollectJSONStream(ctx context.Context, opts CollectJSONOptions) error {
 		return nil
 	}
 
-	docs, errs := opts.getSource(ctx)
+	// the source ends with the collection
+	sourceCtx, cancel := context.WithCancel(ctx)
+	defer cancel()
+
+	docs, errs := opts.getSource(sourceCtx)
 
 	for {
 		select {
-- 
2.43.0


From 6add759916ab5a8110215992f5175ea00d7355d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:46 +0000
Subject: [PATCH 67/74] fix: following a file of JSON metrics stopped at its
 first end

---
 x/ftdc/metrics/json.go | 33 ++++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/x/ftdc/metrics/json.go b/x/ftdc/metrics/json.go
index 61c7f70..2a3d0d2 100644
--- a/x/ftdc/metrics/json.go
+++ b/x/ftdc/metrics/json.go
@@ -2,6 +2,7 @@ package metrics
 
 import (
 	"bufio"
+	"bytes"
 	"context"
 	"errors"
 	"fmt"
@@ -252,19 +253,37 @@ func follow(ctx context.Context, filename string, handler func(string) error) er
 		return err
 	}
 
-	stream := bufio.NewScanner(bufio.NewReader(file))
+	stream := bufio.NewReader(file)
+	var line []byte
+	// readLines handles the lines there are; a line that is not complete
+	// yet is kept for later.
+	readLines := func() error {
+		for {
+			part, err := stream.ReadBytes('\n')
+			line = append(line, part...)
+			if err == io.EOF {
+				return nil
+			}
+			if err != nil {
+				return err
+			}
+			if err := handler(string(bytes.TrimRight(line, "\r\n"))); err != nil {
+				return err
+			}
+			line = line[:0]
+		}
+	}
+	if err := readLines(); err != nil {
+		return err
+	}
+
 	for {
 		select {
 		case <-ctx.Done():
 			return errors.New("operation aborted")
 		case event := <-watcher.Events:
 			if event.Op&fsnotify.Write == fsnotify.Write {
-				for stream.Scan() {
-					if err := handler(stream.Text()); err != nil {
-						return err
-					}
-				}
-				if err := stream.Err(); err != nil {
+				if err := readLines(); err != nil {
 					return err
 				}
 			}
-- 
2.43.0


From 025aecaf85916295ad0d7dce5a5c7e0161aad0cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:13 +0000
Subject: [PATCH 68/74] fix: disk usage metrics left out the used inodes

---
 x/ftdc/metrics/system_info.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/x/ftdc/metrics/system_info.go b/x/ftdc/metrics/system_info.go
index 1afc9c8..f73e1a5 100644
--- a/x/ftdc/metrics/system_info.go
+++ b/x/ftdc/metrics/system_info.go
@@ -184,6 +184,7 @@ func (s *SystemInfo) MarshalDocument() (*birch.Document, error) {
 				birch.EC.Int64("used", int64(usage.Used)),
 				birch.EC.Double("usedPercent", usage.UsedPercent),
 				birch.EC.Int64("inodesTotal", int64(usage.InodesTotal)),
+				birch.EC.Int64("inodesUsed", int64(usage.InodesUsed)),
 				birch.EC.Int64("inodesFree", int64(usage.InodesFree)),
 				birch.EC.Double("inodesUsedPercent", usage.InodesUsedPercent)))
 		}
-- 
2.43.0


From 2d24f00d6987c36ee3a8b1f00d4927d8640ea338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:25 +0000
Subject: [PATCH 69/74] fix: counts since the last collection of go stats were
 dropped when the clock stood still

---
 x/ftdc/metrics/golang_info.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/x/ftdc/metrics/golang_info.go b/x/ftdc/metrics/golang_info.go
index 6e8faf6..12a0c3c 100644
--- a/x/ftdc/metrics/golang_info.go
+++ b/x/ftdc/metrics/golang_info.go
@@ -65,10 +65,6 @@ type statRate struct {
 }
 
 func (s *goStats) getRate(stat int64) statRate {
-	if s.durSinceLastUpdate == 0 {
-		return statRate{}
-	}
-
 	return statRate{Delta: stat, Duration: s.durSinceLastUpdate}
 }
 
-- 
2.43.0


From 0296dfdc0688133c485d263c5b8846c4e34e28fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:04 +0000
Subject: [PATCH 70/74] fix: DocumentMap.Validate reports keys that do not
 match their elements

---
 unmarshal.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/unmarshal.go b/unmarshal.go
index 8710b69..7d1e2d1 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -26,6 +26,7 @@ func (dm DocumentMap) Validate() error {
 	for key := range dm {
 		elem := dm[key]
 		ekey := elem.Key()
+		ec.Whenf(key != ekey, "for mapKey=%q, element has key %q", key, ekey)
 		_, err := elem.Validate()
 		ec.Wrapf(err, "for mapKey=%q, invalid element", ekey)
 	}
-- 
2.43.0


From 3f738d4efdb8e1e776aaac31c9e6c953099b0449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:04 +0000
Subject: [PATCH 71/74] fix: ECE.Interface reports values nested in maps and
 slices that cannot be converted

---
 constructor.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/constructor.go b/constructor.go
index 23db903..510eb30 100644
--- a/constructor.go
+++ b/constructor.go
@@ -203,6 +203,26 @@ func (ElementConstructorError) Interface(key string, value any) (*Element, error
 			}
 		}
 		return EC.Interface(key, t), nil
+	case map[string]any:
+		doc, err := DCE.MapInterface(t)
+		if err != nil {
+			return nil, err
+		}
+		return EC.SubDocument(key, doc), nil
+	case map[any]any:
+		doc, err := DCE.MapInterfaceInterface(t)
+		if err != nil {
+			return nil, err
+		}
+		return EC.SubDocument(key, doc), nil
+	case []any:
+		return ECE.SliceInterface(key, t)
+	case *Value:
+		elem := EC.Value(key, t)
+		if elem == nil {
+			return nil, fmt.Errorf("cannot create element from an uninitialized %T", value)
+		}
+		return elem, nil
 	case DocumentMarshaler:
 		return ECE.DocumentMarshaler(key, t)
 	case Marshaler:
-- 
2.43.0


From 2dfe14f0f5a5fe21dfd80beac9db89d876d92a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:22 +0000
Subject: [PATCH 72/74] fix: ftdc collectors refuse nil documents instead of
 panicking

---
 x/ftdc/util.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/x/ftdc/util.go b/x/ftdc/util.go
index 421b158..87369cb 100644
--- a/x/ftdc/util.go
+++ b/x/ftdc/util.go
@@ -18,9 +18,16 @@ import (
 func readDocument(in any) (*birch.Document, error) {
 	switch doc := in.(type) {
 	case *birch.Document:
+		if doc == nil {
+			return nil, errors.New("cannot read nil document")
+		}
 		return doc, nil
 	case birch.DocumentMarshaler:
-		return doc.MarshalDocument()
+		out, err := doc.MarshalDocument()
+		if err == nil && out == nil {
+			err = errors.New("cannot read nil document")
+		}
+		return out, err
 	case []byte:
 		return parseDocument(doc)
 	case birch.Marshaler:
-- 
2.43.0


From 29fbe2f7338adead7a05121d00ded96cd4708bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:22 +0000
Subject: [PATCH 73/74] fix: ftdc collectors recorded maps of integers as empty
 samples

---
 x/ftdc/util.go | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/x/ftdc/util.go b/x/ftdc/util.go
index 87369cb..aff66c8 100644
--- a/x/ftdc/util.go
+++ b/x/ftdc/util.go
@@ -36,10 +36,18 @@ func readDocument(in any) (*birch.Document, error) {
 			return nil, fmt.Errorf("problem with unmarshaler: %w", err)
 		}
 		return parseDocument(data)
-	case map[string]any, map[string]int, map[string]int64, map[string]uint, map[string]uint64:
+	case map[string]any:
 		elems := birch.DC.Interface(doc).Elements()
 		sort.Stable(elems)
 		return birch.DC.Elements(elems...), nil
+	case map[string]int:
+		return readNumberMap(doc)
+	case map[string]int64:
+		return readNumberMap(doc)
+	case map[string]uint:
+		return readNumberMap(doc)
+	case map[string]uint64:
+		return readNumberMap(doc)
 	case map[string]string:
 		return nil, errors.New("cannot use string maps for metrics documents")
 	case nil:
@@ -62,6 +70,22 @@ func readDocument(in any) (*birch.Document, error) {
 	}
 }
 
+func readNumberMap[T int | int64 | uint | uint64](in map[string]T) (*birch.Document, error) {
+	nums := make(map[string]any, len(in))
+	for k, v := range in {
+		nums[k] = v
+	}
+
+	doc, err := birch.DCE.MapInterface(nums)
+	if err != nil {
+		return nil, err
+	}
+
+	elems := doc.Elements()
+	sort.Stable(elems)
+	return birch.DC.Elements(elems...), nil
+}
+
 // detachDocument returns a copy that shares no memory with the input,
 // which the caller may modify after handing it to a collector.
 func detachDocument(in *birch.Document) (*birch.Document, error) {
-- 
2.43.0


From 7600a375b415b561f1ded90b2fd23e9a3c6ef1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:20 +0000
Subject: [PATCH 74/74] fix: collecting system information panics when the
 processor times cannot be read

---
 x/ftdc/metrics/system_info.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x/ftdc/metrics/system_info.go b/x/ftdc/metrics/system_info.go
index f73e1a5..48a5834 100644
--- a/x/ftdc/metrics/system_info.go
+++ b/x/ftdc/metrics/system_info.go
@@ -79,7 +79,7 @@ func MakeSystemInfo(message string) *SystemInfo {
 	percent, err := cpu.Percent(0, false)
 	if err != nil {
 		s.saveError("cpu_times", err)
-	} else {
+	} else if len(percent) > 0 {
 		s.CPUPercent = percent[0]
 	}
 
-- 
2.43.0

