From cec7f22f796748b956049d81a44712f66e540837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:54 +0000
Subject: [PATCH 01/43] fix: messagePacker remembers write errors

The Pack methods had value receivers, so the error of a failed write was
lost and packing went on behind the failure.
---
 msgpack.go | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/msgpack.go b/msgpack.go
index 1af483e..041da6d 100644
--- a/msgpack.go
+++ b/msgpack.go
@@ -191,31 +191,31 @@ func MessagePacker(w io.Writer) *messagePacker {
 	return &messagePacker{w: w}
 }
 
-func (p messagePacker) PackNil()  {
+func (p *messagePacker) PackNil()  {
 	if p.err == nil {
 		_, p.err = p.w.Write(p.m.WriteNil())
 	}
 }
 
-func (p messagePacker) PackBool(val bool) {
+func (p *messagePacker) PackBool(val bool) {
 	if p.err == nil {
 		_, p.err = p.w.Write(p.m.WriteBool(val))
 	}
 }
 
-func (p messagePacker) PackLong(val int64) {
+func (p *messagePacker) PackLong(val int64) {
 	if p.err == nil {
 		_, p.err = p.w.Write(p.m.WriteLong(val))
 	}
 }
 
-func (p messagePacker) PackDouble(val float64) {
+func (p *messagePacker) PackDouble(val float64) {
 	if p.err == nil {
 		_, p.err = p.w.Write(p.m.WriteDouble(val))
 	}
 }
 
-func (p messagePacker) PackStr(str string) {
+func (p *messagePacker) PackStr(str string) {
 	b := []byte(str)
 	if p.err == nil {
 		_, p.err = p.w.Write(p.m.WriteStrHeader(len(b)))
@@ -225,7 +225,7 @@ func (p messagePacker) PackStr(str string) {
 	}
 }
 
-func (p messagePacker) PackBin(b []byte) {
+func (p *messagePacker) PackBin(b []byte) {
 	if p.err == nil {
 		_, p.err = p.w.Write(p.m.WriteBinHeader(len(b)))
 	}
@@ -243,7 +243,7 @@ func (p *messagePacker) PackExt(xtag Ext, data []byte) {
 	}
 }
 
-func (p messagePacker) PackList(size int) {
+func (p *messagePacker) PackList(size int) {
 	if size < 0 {
 		size = 0
 	}
@@ -252,7 +252,7 @@ func (p messagePacker) PackList(size int) {
 	}
 }
 
-func (p messagePacker) PackMap(size int) {
+func (p *messagePacker) PackMap(size int) {
 	if size < 0 {
 		size = 0
 	}
@@ -261,13 +261,13 @@ func (p messagePacker) PackMap(size int) {
 	}
 }
 
-func (p messagePacker) PackRaw(b []byte) {
+func (p *messagePacker) PackRaw(b []byte) {
 	if p.err == nil {
 		_, p.err = p.w.Write(b)
 	}
 }
 
-func (p messagePacker) Error() error {
+func (p *messagePacker) Error() error {
 	return p.err
 }
 
-- 
2.43.0


From 9df2c1c1abff816a5f42c2de2501a5303da2b651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:15 +0000
Subject: [PATCH 02/43] fix: lists of more than 65535 elements are packed as
 array 32

The header of a large list used the array 16 code with a 32 bit count,
which decodes as a different, broken document.
---
 msgpack.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msgpack.go b/msgpack.go
index 041da6d..b8a6404 100644
--- a/msgpack.go
+++ b/msgpack.go
@@ -434,7 +434,7 @@ func (p messageWriter) WriteArrayHeader(len int) []byte {
 		binary.BigEndian.PutUint16(p.buf[1:3], uint16(len))
 		return p.buf[:3]
 	default:
-		p.buf[0] = mpArray16
+		p.buf[0] = mpArray32
 		binary.BigEndian.PutUint32(p.buf[1:5], uint32(len))
 		return p.buf[:5]
 	}
-- 
2.43.0


From 148917f12a979a26c3716569fee700f3f9c6e08a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:16 +0000
Subject: [PATCH 03/43] fix: MessageReader works with every io.Reader

Readers without ReadByte made it panic, short reads were taken for the end
of the input, and an error of the reader was reported as a clean end.
---
 msgpack.go | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/msgpack.go b/msgpack.go
index b8a6404..03d4955 100644
--- a/msgpack.go
+++ b/msgpack.go
@@ -693,28 +693,35 @@ type messageIOUnpacker struct {
 }
 
 func MessageReader(r io.Reader) *messageIOUnpacker {
-	return &messageIOUnpacker{r: r, br: r.(io.ByteReader)}
+	br, _ := r.(io.ByteReader)
+	return &messageIOUnpacker{r: r, br: br}
 }
 
 func (p *messageIOUnpacker) Next() (Format, []byte) {
 
 	if p.br != nil {
 		code, err := p.br.ReadByte()
-		if err != nil {
+		if err == io.EOF {
 			return EOF, nil
 		}
+		if err != nil {
+			return UnexpectedEOF, nil
+		}
 		p.buf[0] = code
 	}  else {
-		n, _ := p.r.Read(p.buf[:1])
-		if n == 0 {
+		_, err := io.ReadFull(p.r, p.buf[:1])
+		if err == io.EOF {
 			return EOF, nil
 		}
+		if err != nil {
+			return UnexpectedEOF, nil
+		}
 	}
 
 	format, len := nextFormat(p.buf[0])
 	n := 1 + len
 
-	m, _ := p.r.Read(p.buf[1:n])
+	m, _ := io.ReadFull(p.r, p.buf[1:n])
 	if m != len {
 		return UnexpectedEOF, nil
 	}
@@ -724,11 +731,9 @@ func (p *messageIOUnpacker) Next() (Format, []byte) {
 
 func (p *messageIOUnpacker) Read(n int) (b []byte, err error) {
 	b = make([]byte, n)
-	m, err := p.r.Read(b)
-	if m != n {
-		if err == nil {
-			err = io.ErrUnexpectedEOF
-		}
+	_, err = io.ReadFull(p.r, b)
+	if err == io.EOF {
+		err = io.ErrUnexpectedEOF
 	}
 	return b, err
 }
-- 
2.43.0


From f05e328c26a8c8cee335128357ce5fb420bd5a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:40 +0000
Subject: [PATCH 04/43] fix: fixed-size extensions own their bytes

Decoded extensions kept a slice of the unpacker's header: the next token of
a reader overwrote them, and with copying asked for they still shared the
caller's buffer.
---
 unpack.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/unpack.go b/unpack.go
index 10ad764..945c97b 100644
--- a/unpack.go
+++ b/unpack.go
@@ -32,7 +32,8 @@ func doParse(unpacker Unpacker, parser Parser) (Value, error) {
 		return Double(parser.ParseDouble(header)), parser.Error()
 	case FixExtToken:
 		_, tagAndData := parser.ParseExt(header)
-		return doParseExt(tagAndData)
+		// header belongs to the unpacker
+		return doParseExt(append([]byte(nil), tagAndData...))
 	case BinHeader:
 		size := parser.ParseBin(header)
 		if parser.Error() != nil {
-- 
2.43.0


From 72ec0c8c4a0e06873398e734ac4bcf78b89dd0b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:41 +0000
Subject: [PATCH 05/43] fix: decoding a map whose first keys are numbers and a
 later one is not

Converting the items read so far dereferenced the item not read yet, and
left the map without the earlier entries and possibly unsorted.
---
 unpack.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/unpack.go b/unpack.go
index 945c97b..6380b3d 100644
--- a/unpack.go
+++ b/unpack.go
@@ -149,9 +149,11 @@ func doParseMap(header []byte, unpacker Unpacker, parser Parser) (Value, error)
 				mayBeList = false
 				sortedMapEntries = make([]MapEntry, cnt)
 				for j := 0; j < i; j++ {
-					item := sparseListItems[i]
-					sortedMapEntries[i] = ImmutableEntry(strconv.Itoa(item.Key()), item.Value())
+					item := sparseListItems[j]
+					sortedMapEntries[j] = ImmutableEntry(strconv.Itoa(item.Key()), item.Value())
 				}
+				// numeric order is not the order of their text
+				sorted = false
 				k := key.String()
 				if i > 0 && prevMapKey > k {
 					sorted = false
-- 
2.43.0


From 43dd0e097dbec74e76e1c37572a8f9d80f7b18cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:42 +0000
Subject: [PATCH 06/43] fix: input ending between the elements of a collection
 is an unexpected EOF

It was reported as io.EOF, the regular end of a stream, so a truncated
stream looked complete.
---
 unpack.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/unpack.go b/unpack.go
index 6380b3d..c08ca5b 100644
--- a/unpack.go
+++ b/unpack.go
@@ -74,6 +74,15 @@ func doParse(unpacker Unpacker, parser Parser) (Value, error) {
 
 }
 
+// the input must not end inside of a collection
+func doParseElement(unpacker Unpacker, parser Parser) (Value, error) {
+	value, err := doParse(unpacker, parser)
+	if err == io.EOF {
+		err = io.ErrUnexpectedEOF
+	}
+	return value, err
+}
+
 func doParseList(header []byte, unpacker Unpacker, parser Parser) (List, error) {
 	cnt := parser.ParseList(header)
 	if parser.Error() != nil {
@@ -84,7 +93,7 @@ func doParseList(header []byte, unpacker Unpacker, parser Parser) (List, error)
 	}
 	list := make([]Value, cnt)
 	for i := 0; i < cnt; i++ {
-		el, err := doParse(unpacker, parser)
+		el, err := doParseElement(unpacker, parser)
 		if err != nil {
 			return nil, err
 		}
@@ -109,11 +118,11 @@ func doParseMap(header []byte, unpacker Unpacker, parser Parser) (Value, error)
 	var prevMapKey string
 
 	for i := 0; i < cnt; i++ {
-		key, err := doParse(unpacker, parser)
+		key, err := doParseElement(unpacker, parser)
 		if err != nil {
 			return nil, err
 		}
-		value, err := doParse(unpacker, parser)
+		value, err := doParseElement(unpacker, parser)
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 30f30bf06fa27a836d1eacdca4ca6ba21c3084e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:01 +0000
Subject: [PATCH 07/43] fix: memory use of decoding follows the input, not the
 claimed sizes

A header of a few bytes claiming billions of elements or bytes allocated
them all before the first one was read.
---
 msgpack.go | 26 +++++++++++++++++++++-----
 struct.go  |  8 ++++----
 unpack.go  | 28 +++++++++++++++++++---------
 3 files changed, 44 insertions(+), 18 deletions(-)

diff --git a/msgpack.go b/msgpack.go
index 03d4955..a779e7e 100644
--- a/msgpack.go
+++ b/msgpack.go
@@ -78,6 +78,7 @@ const (
 
 	defWriteBufSize 	= 16
 	defReadBufSize 		= 24
+	maxReadChunk 		= 64 * 1024
 
 	mpCodeMin 			= mpNil
 	mpCodeMax 			= mpMap32
@@ -730,12 +731,27 @@ func (p *messageIOUnpacker) Next() (Format, []byte) {
 }
 
 func (p *messageIOUnpacker) Read(n int) (b []byte, err error) {
-	b = make([]byte, n)
-	_, err = io.ReadFull(p.r, b)
-	if err == io.EOF {
-		err = io.ErrUnexpectedEOF
+	chunk := n
+	if chunk > maxReadChunk {
+		chunk = maxReadChunk
+	}
+	b = make([]byte, chunk)
+	for off := 0; ; {
+		_, err = io.ReadFull(p.r, b[off:])
+		if err == io.EOF {
+			err = io.ErrUnexpectedEOF
+		}
+		if err != nil || len(b) == n {
+			return b, err
+		}
+		// the data is as long as claimed so far
+		off = len(b)
+		chunk = n - off
+		if chunk > off {
+			chunk = off
+		}
+		b = append(b, make([]byte, chunk)...)
 	}
-	return b, err
 }
 
 func nextFormat(code byte) (Format, int) {
diff --git a/struct.go b/struct.go
index 8629bc5..d9dc7a5 100644
--- a/struct.go
+++ b/struct.go
@@ -266,11 +266,10 @@ func ParseStruct(unpacker Unpacker, parser Parser, value reflect.Value, schema *
 						return errors.Errorf("expected ListHeader for array field, but got %v", listFormat)
 					}
 					listCnt := parser.ParseList(listHeader)
-					arrayType := reflect.ArrayOf(listCnt, field.FieldType.Elem())
-					arrayValue := reflect.New(arrayType).Elem()
+					sliceValue := reflect.MakeSlice(reflect.SliceOf(field.FieldType.Elem()), 0, preallocate(listCnt))
 
 					for j := 0; j < listCnt; j++ {
-						elemValue := arrayValue.Index(j)
+						elemValue := reflect.New(field.FieldType.Elem()).Elem()
 						if field.Struct {
 							structValue := reflect.New(elemValue.Type().Elem())
 							elemValue.Set(structValue)
@@ -288,8 +287,9 @@ func ParseStruct(unpacker Unpacker, parser Parser, value reflect.Value, schema *
 								return errors.Errorf("fail to set value %v", err)
 							}
 						}
+						sliceValue = reflect.Append(sliceValue, elemValue)
 					}
-					fieldValue.Set(arrayValue.Slice(0, listCnt))
+					fieldValue.Set(sliceValue)
 				} else {
 					var sliceValue reflect.Value
 					if !fieldValue.IsNil() {
diff --git a/unpack.go b/unpack.go
index c08ca5b..e213423 100644
--- a/unpack.go
+++ b/unpack.go
@@ -74,6 +74,16 @@ func doParse(unpacker Unpacker, parser Parser) (Value, error) {
 
 }
 
+// a header can claim any number of elements, memory is only taken up front for a few
+const maxPreallocate = 64
+
+func preallocate(cnt int) int {
+	if cnt > maxPreallocate {
+		return maxPreallocate
+	}
+	return cnt
+}
+
 // the input must not end inside of a collection
 func doParseElement(unpacker Unpacker, parser Parser) (Value, error) {
 	value, err := doParse(unpacker, parser)
@@ -91,13 +101,13 @@ func doParseList(header []byte, unpacker Unpacker, parser Parser) (List, error)
 	if cnt == 0 {
 		return EmptyImmutableList(), nil
 	}
-	list := make([]Value, cnt)
+	list := make([]Value, 0, preallocate(cnt))
 	for i := 0; i < cnt; i++ {
 		el, err := doParseElement(unpacker, parser)
 		if err != nil {
 			return nil, err
 		}
-		list[i] = el
+		list = append(list, el)
 	}
 	return ImmutableList(list), nil
 }
@@ -137,10 +147,10 @@ func doParseMap(header []byte, unpacker Unpacker, parser Parser) (Value, error)
 			if key.Kind() == NUMBER {
 				// try to build sparse list
 				mayBeList = true
-				sparseListItems = make([]ListItem, cnt)
+				sparseListItems = make([]ListItem, 0, preallocate(cnt))
 			} else {
 				mayBeList = false
-				sortedMapEntries = make([]MapEntry, cnt)
+				sortedMapEntries = make([]MapEntry, 0, preallocate(cnt))
 			}
 		}
 
@@ -151,15 +161,15 @@ func doParseMap(header []byte, unpacker Unpacker, parser Parser) (Value, error)
 				if i > 0 && prevListKey > k {
 					sorted = false
 				}
-				sparseListItems[i] = ImmutableItem(int(k), value)
+				sparseListItems = append(sparseListItems, ImmutableItem(int(k), value))
 				prevListKey = k
 			} else {
 				// not a list
 				mayBeList = false
-				sortedMapEntries = make([]MapEntry, cnt)
+				sortedMapEntries = make([]MapEntry, 0, preallocate(cnt))
 				for j := 0; j < i; j++ {
 					item := sparseListItems[j]
-					sortedMapEntries[j] = ImmutableEntry(strconv.Itoa(item.Key()), item.Value())
+					sortedMapEntries = append(sortedMapEntries, ImmutableEntry(strconv.Itoa(item.Key()), item.Value()))
 				}
 				// numeric order is not the order of their text
 				sorted = false
@@ -167,7 +177,7 @@ func doParseMap(header []byte, unpacker Unpacker, parser Parser) (Value, error)
 				if i > 0 && prevMapKey > k {
 					sorted = false
 				}
-				sortedMapEntries[i] = ImmutableEntry(k, value)
+				sortedMapEntries = append(sortedMapEntries, ImmutableEntry(k, value))
 				prevMapKey = k
 			}
 
@@ -176,7 +186,7 @@ func doParseMap(header []byte, unpacker Unpacker, parser Parser) (Value, error)
 			if i > 0 && prevMapKey > k {
 				sorted = false
 			}
-			sortedMapEntries[i] = ImmutableEntry(k, value)
+			sortedMapEntries = append(sortedMapEntries, ImmutableEntry(k, value))
 			prevMapKey = k
 		}
 
-- 
2.43.0


From 97a4f8ab883bb381d8bde07fb54426cd34071175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:13 +0000
Subject: [PATCH 08/43] fix: Equal(nil, Null) is true like Equal(Null, nil)

A nil value packs and prints as null and Null equals nil, only the other
order did not.
---
 utils.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils.go b/utils.go
index 3a0a323..7a2613b 100644
--- a/utils.go
+++ b/utils.go
@@ -100,7 +100,7 @@ func Unseal(encrypted []byte, senderPublicKey, recipientPrivateKey *[32]byte) (V
 
 func Equal(left Value, right Value) bool {
 	if left == nil {
-		return right == nil
+		return right == nil || right.Kind() == NULL
 	}
 	return left.Equal(right)
 }
-- 
2.43.0


From 337538f894de5a5d9f637958b3f611545bdd161d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:14 +0000
Subject: [PATCH 09/43] fix: typed lookups of a nil element do not panic

Lists get nil holes from puts behind their end, and both lists and maps
can be made with nil values; the typed lookups called methods on them.
---
 immutablelist.go | 10 +++++-----
 immutablemap.go  | 10 +++++-----
 solidlist.go     | 10 +++++-----
 sortedmap.go     | 10 +++++-----
 sparselist.go    | 10 +++++-----
 5 files changed, 25 insertions(+), 25 deletions(-)

diff --git a/immutablelist.go b/immutablelist.go
index a1f2c36..27df64a 100644
--- a/immutablelist.go
+++ b/immutablelist.go
@@ -137,7 +137,7 @@ func (t immutableListValue) GetAt(i int) Value {
 
 func (t immutableListValue) GetBoolAt(index int) Bool {
 	value := t.GetAt(index)
-	if value != Null {
+	if value != nil && value != Null {
 		if value.Kind() == BOOL {
 			return value.(Bool)
 		}
@@ -148,7 +148,7 @@ func (t immutableListValue) GetBoolAt(index int) Bool {
 
 func (t immutableListValue) GetNumberAt(index int) Number {
 	value := t.GetAt(index)
-	if value != Null {
+	if value != nil && value != Null {
 		if value.Kind() == NUMBER {
 			return value.(Number)
 		}
@@ -159,7 +159,7 @@ func (t immutableListValue) GetNumberAt(index int) Number {
 
 func (t immutableListValue) GetStringAt(index int) String {
 	value := t.GetAt(index)
-	if value != Null {
+	if value != nil && value != Null {
 		if value.Kind() == STRING {
 			return value.(String)
 		}
@@ -170,7 +170,7 @@ func (t immutableListValue) GetStringAt(index int) String {
 
 func (t immutableListValue) GetListAt(index int) List {
 	value := t.GetAt(index)
-	if value != Null {
+	if value != nil && value != Null {
 		switch value.Kind() {
 		case LIST:
 			return value.(List)
@@ -183,7 +183,7 @@ func (t immutableListValue) GetListAt(index int) List {
 
 func (t immutableListValue) GetMapAt(index int) Map {
 	value := t.GetAt(index)
-	if value != Null {
+	if value != nil && value != Null {
 		switch value.Kind() {
 		case LIST:
 			return ImmutableMap(value.(List).Entries(), false)
diff --git a/immutablemap.go b/immutablemap.go
index eb65218..1d25bda 100644
--- a/immutablemap.go
+++ b/immutablemap.go
@@ -194,7 +194,7 @@ func (t immutableMapValue) Get(key string) Value {
 
 func (t immutableMapValue) GetBool(key string) Bool {
 	value := t.Get(key)
-	if value != Null {
+	if value != nil && value != Null {
 		if value.Kind() == BOOL {
 			return value.(Bool)
 		}
@@ -205,7 +205,7 @@ func (t immutableMapValue) GetBool(key string) Bool {
 
 func (t immutableMapValue) GetNumber(key string) Number {
 	value := t.Get(key)
-	if value != Null {
+	if value != nil && value != Null {
 		if value.Kind() == NUMBER {
 			return value.(Number)
 		}
@@ -216,7 +216,7 @@ func (t immutableMapValue) GetNumber(key string) Number {
 
 func (t immutableMapValue) GetString(key string) String {
 	value := t.Get(key)
-	if value != Null {
+	if value != nil && value != Null {
 		if value.Kind() == STRING {
 			return value.(String)
 		}
@@ -227,7 +227,7 @@ func (t immutableMapValue) GetString(key string) String {
 
 func (t immutableMapValue) GetList(key string) List {
 	value := t.Get(key)
-	if value != Null {
+	if value != nil && value != Null {
 		switch value.Kind() {
 		case LIST:
 			return value.(List)
@@ -240,7 +240,7 @@ func (t immutableMapValue) GetList(key string) List {
 
 func (t immutableMapValue) GetMap(key string) Map {
 	value := t.Get(key)
-	if value != Null {
+	if value != nil && value != Null {
 		switch value.Kind() {
 		case LIST:
 			return ImmutableMap(value.(List).Entries(), false)
diff --git a/solidlist.go b/solidlist.go
index c3ab6e1..70c701c 100644
--- a/solidlist.go
+++ b/solidlist.go
@@ -145,7 +145,7 @@ func (t solidListValue) GetAt(i int) Value {
 
 func (t solidListValue) GetBoolAt(index int) Bool {
 	value := t.GetAt(index)
-	if value != Null {
+	if value != nil && value != Null {
 		if value.Kind() == BOOL {
 			return value.(Bool)
 		}
@@ -156,7 +156,7 @@ func (t solidListValue) GetBoolAt(index int) Bool {
 
 func (t solidListValue) GetNumberAt(index int) Number {
 	value := t.GetAt(index)
-	if value != Null {
+	if value != nil && value != Null {
 		if value.Kind() == NUMBER {
 			return value.(Number)
 		}
@@ -167,7 +167,7 @@ func (t solidListValue) GetNumberAt(index int) Number {
 
 func (t solidListValue) GetStringAt(index int) String {
 	value := t.GetAt(index)
-	if value != Null {
+	if value != nil && value != Null {
 		if value.Kind() == STRING {
 			return value.(String)
 		}
@@ -178,7 +178,7 @@ func (t solidListValue) GetStringAt(index int) String {
 
 func (t solidListValue) GetListAt(index int) List {
 	value := t.GetAt(index)
-	if value != Null {
+	if value != nil && value != Null {
 		switch value.Kind() {
 		case LIST:
 			return value.(List)
@@ -191,7 +191,7 @@ func (t solidListValue) GetListAt(index int) List {
 
 func (t solidListValue) GetMapAt(index int) Map {
 	value := t.GetAt(index)
-	if value != Null {
+	if value != nil && value != Null {
 		switch value.Kind() {
 		case LIST:
 			return SortedMap(value.(List).Entries(), false)
diff --git a/sortedmap.go b/sortedmap.go
index 36733c2..8639b48 100644
--- a/sortedmap.go
+++ b/sortedmap.go
@@ -195,7 +195,7 @@ func (t sortedMapValue) Get(key string) Value {
 
 func (t sortedMapValue) GetBool(key string) Bool {
 	value := t.Get(key)
-	if value != Null {
+	if value != nil && value != Null {
 		if value.Kind() == BOOL {
 			return value.(Bool)
 		}
@@ -206,7 +206,7 @@ func (t sortedMapValue) GetBool(key string) Bool {
 
 func (t sortedMapValue) GetNumber(key string) Number {
 	value := t.Get(key)
-	if value != Null {
+	if value != nil && value != Null {
 		if value.Kind() == NUMBER {
 			return value.(Number)
 		}
@@ -217,7 +217,7 @@ func (t sortedMapValue) GetNumber(key string) Number {
 
 func (t sortedMapValue) GetString(key string) String {
 	value := t.Get(key)
-	if value != Null {
+	if value != nil && value != Null {
 		if value.Kind() == STRING {
 			return value.(String)
 		}
@@ -228,7 +228,7 @@ func (t sortedMapValue) GetString(key string) String {
 
 func (t sortedMapValue) GetList(key string) List {
 	value := t.Get(key)
-	if value != Null {
+	if value != nil && value != Null {
 		switch value.Kind() {
 		case LIST:
 			return value.(List)
@@ -241,7 +241,7 @@ func (t sortedMapValue) GetList(key string) List {
 
 func (t sortedMapValue) GetMap(key string) Map {
 	value := t.Get(key)
-	if value != Null {
+	if value != nil && value != Null {
 		switch value.Kind() {
 		case LIST:
 			return SortedMap(value.(List).Entries(), false)
diff --git a/sparselist.go b/sparselist.go
index 47719a2..114e073 100644
--- a/sparselist.go
+++ b/sparselist.go
@@ -196,7 +196,7 @@ func (t sparseListValue) GetAt(key int) Value {
 
 func (t sparseListValue) GetBoolAt(index int) Bool {
 	value := t.GetAt(index)
-	if value != Null {
+	if value != nil && value != Null {
 		if value.Kind() == BOOL {
 			return value.(Bool)
 		}
@@ -207,7 +207,7 @@ func (t sparseListValue) GetBoolAt(index int) Bool {
 
 func (t sparseListValue) GetNumberAt(index int) Number {
 	value := t.GetAt(index)
-	if value != Null {
+	if value != nil && value != Null {
 		if value.Kind() == NUMBER {
 			return value.(Number)
 		}
@@ -218,7 +218,7 @@ func (t sparseListValue) GetNumberAt(index int) Number {
 
 func (t sparseListValue) GetStringAt(index int) String {
 	value := t.GetAt(index)
-	if value != Null {
+	if value != nil && value != Null {
 		if value.Kind() == STRING {
 			return value.(String)
 		}
@@ -229,7 +229,7 @@ func (t sparseListValue) GetStringAt(index int) String {
 
 func (t sparseListValue) GetListAt(index int) List {
 	value := t.GetAt(index)
-	if value != Null {
+	if value != nil && value != Null {
 		switch value.Kind() {
 		case LIST:
 			return value.(List)
@@ -242,7 +242,7 @@ func (t sparseListValue) GetListAt(index int) List {
 
 func (t sparseListValue) GetMapAt(index int) Map {
 	value := t.GetAt(index)
-	if value != Null {
+	if value != nil && value != Null {
 		switch value.Kind() {
 		case LIST:
 			return SortedMap(value.(List).Entries(), false)
-- 
2.43.0


From 6e2e8d075695bb73c37b043cd371d885cf74b684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:37 +0000
Subject: [PATCH 10/43] fix: numbers of different types compare by value in
 both orders

A number converted the other one to its own type first, so 1 equalled 1.5
but not the other way round, big integers equalled truncated decimals,
infinity was not equal to itself and comparing with it could panic.
---
 number.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/number.go b/number.go
index 858e894..f427a51 100644
--- a/number.go
+++ b/number.go
@@ -569,6 +569,10 @@ func (n longNumber) Equal(val Value) bool {
 		return false
 	}
 	other := val.(Number)
+	if other.Type() != LONG {
+		// the wider type compares
+		return other.Equal(n)
+	}
 	return n.Long() == other.Long()
 }
 
@@ -580,7 +584,9 @@ func (n doubleNumber) Equal(val Value) bool {
 	if n.IsNaN() || other.IsNaN() {
 		return false
 	}
-	return  math.Abs(n.Double() - other.Double()) < PrecisionLevel
+	left, right := n.Double(), other.Double()
+	// infinities have no difference
+	return left == right || math.Abs(left - right) < PrecisionLevel
 }
 
 func (n bigIntNumber) Equal(val Value) bool {
@@ -588,6 +594,9 @@ func (n bigIntNumber) Equal(val Value) bool {
 		return false
 	}
 	other := val.(Number)
+	if other.Type() == DOUBLE || other.Type() == DECIMAL {
+		return other.Equal(n)
+	}
 	return n.Int.Cmp(other.BigInt()) == 0
 }
 
@@ -596,6 +605,9 @@ func (n decimalNumber) Equal(val Value) bool {
 		return false
 	}
 	other := val.(Number)
+	if other.Type() == DOUBLE {
+		return other.Equal(n)
+	}
 	return n.Decimal().Cmp(other.Decimal()) == 0
 }
 
-- 
2.43.0


From 8851ee70ddb299b859bd5aaa77b82b83e8f1b4db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:38 +0000
Subject: [PATCH 11/43] fix: an UTF-8 string compares its bytes with those of a
 raw one

It compared with the base64 text of the raw string, so only the raw string
saw that both are equal.
---
 string.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/string.go b/string.go
index 441535b..e6ad465 100644
--- a/string.go
+++ b/string.go
@@ -85,7 +85,7 @@ func (s uft8String) Equal(val Value) bool {
 	if val == nil || val.Kind() != STRING {
 		return false
 	}
-	return string(s) == val.String()
+	return string(s) == string(val.(String).Raw())
 }
 
 func (s uft8String) Len() int {
-- 
2.43.0


From 4b43aacb4428ce3a4b1719bff4698e3a520511dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:48 +0000
Subject: [PATCH 12/43] fix: comparing a sparse list with any list is symmetric
 and does not panic

---
 immutablelist.go | 3 +++
 solidlist.go     | 3 +++
 sparselist.go    | 7 +++----
 3 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/immutablelist.go b/immutablelist.go
index 27df64a..84d4217 100644
--- a/immutablelist.go
+++ b/immutablelist.go
@@ -117,6 +117,9 @@ func (t immutableListValue) Equal(val Value) bool {
 		return false
 	}
 	o := val.(List)
+	if sparse, ok := o.(sparseListValue); ok {
+		return sparse.Equal(t)
+	}
 	if t.Len() != o.Len() {
 		return false
 	}
diff --git a/solidlist.go b/solidlist.go
index 70c701c..36fde71 100644
--- a/solidlist.go
+++ b/solidlist.go
@@ -125,6 +125,9 @@ func (t solidListValue) Equal(val Value) bool {
 		return false
 	}
 	o := val.(List)
+	if sparse, ok := o.(sparseListValue); ok {
+		return sparse.Equal(t)
+	}
 	if t.Len() != o.Len() {
 		return false
 	}
diff --git a/sparselist.go b/sparselist.go
index 114e073..0412830 100644
--- a/sparselist.go
+++ b/sparselist.go
@@ -166,12 +166,11 @@ func (t sparseListValue) Equal(val Value) bool {
 	if val == nil || val.Kind() != LIST {
 		return false
 	}
-	o := val.(List)
-	if t.Len() != o.Len() {
+	// items are sorted, indexes can be missing or duplicated
+	other := val.(List).Items()
+	if len(t) != len(other) {
 		return false
 	}
-	// entries are sorted
-	other := o.Items()
 	for i, item := range t {
 		if !item.Equal(other[i]) {
 			return false
-- 
2.43.0


From 5763cf3710b513cb6c5a8d864a9c6f0b5f4da832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:03 +0000
Subject: [PATCH 13/43] fix: JSON output is valid for any text, key and double

---
 immutablemap.go |  4 +---
 number.go       |  4 ++--
 sortedmap.go    |  4 +---
 string.go       | 15 ++++++++++++---
 4 files changed, 16 insertions(+), 11 deletions(-)

diff --git a/immutablemap.go b/immutablemap.go
index 1d25bda..0436e58 100644
--- a/immutablemap.go
+++ b/immutablemap.go
@@ -132,9 +132,7 @@ func (t immutableMapValue) PrintJSON(out *strings.Builder) {
 		if i != 0 {
 			out.WriteRune(',')
 		}
-		out.WriteRune(jsonQuote)
-		out.WriteString(entry.Key())
-		out.WriteRune(jsonQuote)
+		out.WriteString(quoteJSON(entry.Key()))
 
 		out.WriteString(": ")
 		value := entry.Value()
diff --git a/number.go b/number.go
index f427a51..2720631 100644
--- a/number.go
+++ b/number.go
@@ -349,7 +349,7 @@ func (n longNumber) PrintJSON(out *strings.Builder) {
 
 func (n doubleNumber) PrintJSON(out *strings.Builder) {
 	d := float64(n)
-	if math.IsNaN(d) {
+	if math.IsNaN(d) || math.IsInf(d, 0) {
 		out.WriteString("null")
 	} else {
 		out.WriteString(strconv.FormatFloat(d, 'f', -1, 64))
@@ -374,7 +374,7 @@ func (n longNumber) MarshalJSON() ([]byte, error) {
 
 func (n doubleNumber) MarshalJSON() ([]byte, error) {
 	d := float64(n)
-	if math.IsNaN(d) {
+	if math.IsNaN(d) || math.IsInf(d, 0) {
 		return []byte("null"), nil
 	} else {
 		return []byte(strconv.FormatFloat(d, 'f', -1, 64)), nil
diff --git a/sortedmap.go b/sortedmap.go
index 8639b48..1b1c722 100644
--- a/sortedmap.go
+++ b/sortedmap.go
@@ -133,9 +133,7 @@ func (t sortedMapValue) PrintJSON(out *strings.Builder) {
 		if i != 0 {
 			out.WriteRune(',')
 		}
-		out.WriteRune(jsonQuote)
-		out.WriteString(entry.Key())
-		out.WriteRune(jsonQuote)
+		out.WriteString(quoteJSON(entry.Key()))
 
 		out.WriteString(": ")
 		value := entry.Value()
diff --git a/string.go b/string.go
index e6ad465..8d18645 100644
--- a/string.go
+++ b/string.go
@@ -9,9 +9,9 @@ package value
 import (
 	"bytes"
 	"encoding/base64"
+	"encoding/json"
 	"fmt"
 	"reflect"
-	"strconv"
 	"strings"
 )
 
@@ -30,6 +30,15 @@ var rawStringClass = reflect.TypeOf((*rawString)(nil)).Elem()
 
 var EmptyString = uft8String("")
 
+// Go string literals have escapes that JSON does not
+func quoteJSON(s string) string {
+	var out strings.Builder
+	enc := json.NewEncoder(&out)
+	enc.SetEscapeHTML(false)
+	enc.Encode(s)
+	return strings.TrimSuffix(out.String(), "\n")
+}
+
 func Utf8(val string) String {
 	return uft8String(val)
 }
@@ -67,11 +76,11 @@ func (s uft8String) Pack(p Packer) {
 }
 
 func (s uft8String) PrintJSON(out *strings.Builder) {
-	out.WriteString(strconv.Quote(string(s)))
+	out.WriteString(quoteJSON(string(s)))
 }
 
 func (s uft8String) MarshalJSON() ([]byte, error) {
-	return []byte(strconv.Quote(string(s))), nil
+	return []byte(quoteJSON(string(s))), nil
 }
 
 func (s uft8String) MarshalBinary() ([]byte, error) {
-- 
2.43.0


From 347eb8aae6d4ae7190952cbc1cced6cfe852d9fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:19 +0000
Subject: [PATCH 14/43] fix: parsing a number with an exponent out of range
 gives NaN

---
 number.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/number.go b/number.go
index 2720631..aec067b 100644
--- a/number.go
+++ b/number.go
@@ -9,6 +9,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"encoding/hex"
+	"github.com/pkg/errors"
 	"github.com/shopspring/decimal"
 	"math"
 	"math/big"
@@ -287,13 +288,14 @@ func parseExp(s string) (int32, error) {
 	if err != nil {
 		return 0, err
 	}
-	var buf [4]byte
-	copy(buf[len(buf)-len(bytes):], bytes)
-	val := int32(binary.BigEndian.Uint32(buf[:]))
+	val := new(big.Int).SetBytes(bytes)
 	if neg {
-		val = -val
+		val.Neg(val)
+	}
+	if !val.IsInt64() || val.Int64() < math.MinInt32 || val.Int64() > math.MaxInt32 {
+		return 0, errors.Errorf("exponent '%s' is out of range", s)
 	}
-	return val, nil
+	return int32(val.Int64()), nil
 }
 
 func (n longNumber) Object() interface{} {
-- 
2.43.0


From 1359c8b78d4ed2f17856fbf48ecf685f1cd850bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:20 +0000
Subject: [PATCH 15/43] fix: BigInt of a decimal keeps its positive exponent

---
 number.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/number.go b/number.go
index aec067b..e9ca674 100644
--- a/number.go
+++ b/number.go
@@ -495,7 +495,7 @@ func (n bigIntNumber) BigInt() *big.Int {
 }
 
 func (n decimalNumber) BigInt() *big.Int {
-	return decimal.Decimal(n).Floor().Coefficient()
+	return decimal.Decimal(n).Floor().BigInt()
 }
 
 func (n longNumber) Decimal() decimal.Decimal {
-- 
2.43.0


From 5e7c1ccb2ababf84b7182cb30abf587df25c871b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:22 +0000
Subject: [PATCH 16/43] fix: infinities convert to zero instead of a panic

---
 number.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/number.go b/number.go
index e9ca674..b1421e3 100644
--- a/number.go
+++ b/number.go
@@ -440,7 +440,7 @@ func (n longNumber) Long() int64 {
 
 func (n doubleNumber) Long() int64 {
 	d := float64(n)
-	if math.IsNaN(d) {
+	if math.IsNaN(d) || math.IsInf(d, 0) {
 		return 0
 	} else {
 		return int64(d)
@@ -481,7 +481,7 @@ func (n longNumber) BigInt() *big.Int {
 
 func (n doubleNumber) BigInt() *big.Int {
 	d := float64(n)
-	if math.IsNaN(d) {
+	if math.IsNaN(d) || math.IsInf(d, 0) {
 		return big.NewInt(0)
 	}
 	f := new(big.Float)
@@ -504,7 +504,7 @@ func (n longNumber) Decimal() decimal.Decimal {
 
 func (n doubleNumber) Decimal() decimal.Decimal {
 	d := float64(n)
-	if math.IsNaN(d) {
+	if math.IsNaN(d) || math.IsInf(d, 0) {
 		return decimal.NewFromInt(0)
 	}
 	return decimal.NewFromFloat(d)
-- 
2.43.0


From 783e523422a908c9c0b1007d49ec24746b190186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:36 +0000
Subject: [PATCH 17/43] fix: a big integer does not give out its own memory

---
 number.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/number.go b/number.go
index b1421e3..6f548e5 100644
--- a/number.go
+++ b/number.go
@@ -307,7 +307,7 @@ func (n doubleNumber) Object() interface{} {
 }
 
 func (n bigIntNumber) Object() interface{} {
-	return n.Int
+	return n.BigInt()
 }
 
 func (n decimalNumber) Object() interface{} {
@@ -491,7 +491,7 @@ func (n doubleNumber) BigInt() *big.Int {
 }
 
 func (n bigIntNumber) BigInt() *big.Int {
-	return n.Int
+	return new(big.Int).Set(n.Int)
 }
 
 func (n decimalNumber) BigInt() *big.Int {
-- 
2.43.0


From 77c8aceffb4447567143f4eb30e66523a3404fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:38 +0000
Subject: [PATCH 18/43] fix: unpacking repeated value fields keeps the values

---
 struct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/struct.go b/struct.go
index d9dc7a5..e377c55 100644
--- a/struct.go
+++ b/struct.go
@@ -310,7 +310,6 @@ func ParseStruct(unpacker Unpacker, parser Parser, value reflect.Value, schema *
 						}
 					} else {
 						elemValue = reflect.New(field.FieldType.Elem()).Elem()
-						sliceValue = reflect.Append(sliceValue, elemValue)
 						val, err := doParse(unpacker, parser)
 						if err != nil {
 							return errors.Errorf("fail to parse value %v", err)
@@ -319,6 +318,7 @@ func ParseStruct(unpacker Unpacker, parser Parser, value reflect.Value, schema *
 						if err != nil {
 							return errors.Errorf("fail to set value %v", err)
 						}
+						sliceValue = reflect.Append(sliceValue, elemValue)
 					}
 					fieldValue.Set(sliceValue)
 				}
-- 
2.43.0


From 5079add685d31a06ba58451c368899409fcdc2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:50 +0000
Subject: [PATCH 19/43] fix: unsupported struct types are errors instead of
 panics

---
 struct.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/struct.go b/struct.go
index e377c55..db021b2 100644
--- a/struct.go
+++ b/struct.go
@@ -74,6 +74,9 @@ func doReflectPackStruct(p *messagePacker, value reflect.Value, schema *Schema)
 			fieldValue: value.Field(field.FieldNum),
 		}
 		if !f.fieldValue.IsNil() {
+			if !f.fieldValue.CanInterface() {
+				return errors.Errorf("can not pack unexported field '%s'", field.FieldName)
+			}
 			list = append(list, f)
 			if f.field.Array && f.field.Repeated {
 				cnt += f.fieldValue.Len()
@@ -175,6 +178,9 @@ func doReflectSchema(classPtr reflect.Type) (*Schema, error) {
 	fields := make(map[int]*Field)
 	var sortedFields []*Field
 	class := classPtr.Elem()
+	if class.Kind() != reflect.Struct {
+		return nil, errors.Errorf("pointer to non-struct is not allowed in '%v'", classPtr)
+	}
 	for j := 0; j < class.NumField(); j++ {
 		field := class.Field(j)
 		repeated := false
@@ -191,7 +197,10 @@ func doReflectSchema(classPtr reflect.Type) (*Schema, error) {
 		}
 		array := false
 		fieldType := field.Type
-		if field.Type.Kind() == reflect.Slice || field.Type.Kind() == reflect.Array {
+		if field.Type.Kind() == reflect.Array {
+			return nil, errors.Errorf("array is not allowed in field '%s' in class '%v', use slice", field.Name, classPtr)
+		}
+		if field.Type.Kind() == reflect.Slice {
 			fieldType = fieldType.Elem()
 			array = true
 		}
-- 
2.43.0


From bc410cd525a26a84024c064ff94f11eccde597c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:51 +0000
Subject: [PATCH 20/43] fix: nil structs and nil struct elements are errors
 instead of panics

---
 struct.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/struct.go b/struct.go
index db021b2..66efd1c 100644
--- a/struct.go
+++ b/struct.go
@@ -33,6 +33,9 @@ func PackStruct(obj interface{}) ([]byte, error) {
 func UnpackStruct(buf []byte, obj interface{}, copy bool) error {
 	unpacker := MessageUnpacker(buf, copy)
 	parser := MessageParser()
+	if obj == nil {
+		return errors.New("nil instance is not allowed")
+	}
 	classPtr := reflect.TypeOf(obj)
 	if classPtr.Kind() != reflect.Ptr {
 		return errors.Errorf("non-pointer instance is not allowed in '%v'", classPtr)
@@ -41,6 +44,9 @@ func UnpackStruct(buf []byte, obj interface{}, copy bool) error {
 		return errors.Errorf("error on reflect schema for '%v', %v", classPtr, err)
 	} else {
 		valuePtr := reflect.ValueOf(obj)
+		if valuePtr.IsNil() {
+			return errors.Errorf("nil pointer is not allowed in '%v'", classPtr)
+		}
 		value := valuePtr.Elem()
 		return ParseStruct(unpacker, parser, value, schema)
 	}
@@ -56,6 +62,9 @@ func reflectPackStruct(p *messagePacker, obj interface{}) error {
 		return err
 	}
 	valuePtr := reflect.ValueOf(obj)
+	if valuePtr.IsNil() {
+		return errors.Errorf("nil pointer is not allowed in '%v'", classPtr)
+	}
 	value := valuePtr.Elem()
 	return doReflectPackStruct(p, value, schema)
 }
@@ -117,6 +126,9 @@ func doReflectPackStruct(p *messagePacker, value reflect.Value, schema *Schema)
 
 func doReflectPackValue(p *messagePacker, value reflect.Value, entry *packingField) error {
 	if entry.field.Struct {
+		if value.IsNil() {
+			return errors.Errorf("nil element in field '%s'", entry.field.FieldName)
+		}
 		if err := doReflectPackStruct(p, value.Elem(), entry.field.FieldSchema); err != nil {
 			return errors.Errorf("can not pack field %v, inner struct error %v", value, err)
 		}
-- 
2.43.0


From 892959b486a83c0120053f7d300a2902228ca19e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:04 +0000
Subject: [PATCH 21/43] fix: recursive struct types do not overflow the stack

---
 struct.go | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/struct.go b/struct.go
index 66efd1c..5262ef3 100644
--- a/struct.go
+++ b/struct.go
@@ -178,15 +178,23 @@ func (t sortableFields) Less(i, j int) bool {
 func reflectSchema(classPtr reflect.Type) (*Schema, error) {
 	if val, ok := schemaCache.Load(classPtr); ok {
 		return val.(*Schema), nil
-	} else if schema, err := doReflectSchema(classPtr); err != nil {
+	}
+	started := make(map[reflect.Type]*Schema)
+	schema, err := doReflectSchema(classPtr, started)
+	if err != nil {
 		return nil, err
-	} else {
-		schemaCache.Store(classPtr, schema)
-		return schema, nil
 	}
+	schemaCache.Store(classPtr, schema)
+	return schema, nil
 }
 
-func doReflectSchema(classPtr reflect.Type) (*Schema, error) {
+// started has the schemas in progress, they are used by fields of recursive types
+func doReflectSchema(classPtr reflect.Type, started map[reflect.Type]*Schema) (*Schema, error) {
+	if schema, ok := started[classPtr]; ok {
+		return schema, nil
+	}
+	schema := new(Schema)
+	started[classPtr] = schema
 	fields := make(map[int]*Field)
 	var sortedFields []*Field
 	class := classPtr.Elem()
@@ -230,7 +238,7 @@ func doReflectSchema(classPtr reflect.Type) (*Schema, error) {
 			sortedFields = append(sortedFields, f)
 		} else if fieldType.Kind() != reflect.Ptr {
 			return nil, errors.Errorf("tagged field '%s' in class '%v' with type '%v' does not implement value.Value interface and non-ptr", field.Name, field.Type, classPtr)
-		} else if fieldSchema, err := reflectSchema(fieldType); err != nil {
+		} else if fieldSchema, err := doReflectSchema(fieldType, started); err != nil {
 			return nil, errors.Errorf("struct field '%s' in class '%v' has wrong schema, %v", field.Name, classPtr, err)
 		} else {
 			f := &Field{
@@ -248,10 +256,9 @@ func doReflectSchema(classPtr reflect.Type) (*Schema, error) {
 		}
 	}
 	sort.Sort(sortableFields(sortedFields))
-	return &Schema {
-		Fields: fields,
-		SortedFields: sortedFields,
-	}, nil
+	schema.Fields = fields
+	schema.SortedFields = sortedFields
+	return schema, nil
 }
 
 
-- 
2.43.0


From dfdd15e823a744bf4b3b4ab226095c1a0a877bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:23 +0000
Subject: [PATCH 22/43] fix: deeply nested input is an error instead of a stack
 overflow

---
 struct.go | 25 ++++++++++++++++---------
 unpack.go | 33 ++++++++++++++++++++++++---------
 2 files changed, 40 insertions(+), 18 deletions(-)

diff --git a/struct.go b/struct.go
index 5262ef3..60ba9e9 100644
--- a/struct.go
+++ b/struct.go
@@ -263,6 +263,13 @@ func doReflectSchema(classPtr reflect.Type, started map[reflect.Type]*Schema) (*
 
 
 func ParseStruct(unpacker Unpacker, parser Parser, value reflect.Value, schema *Schema) error {
+	return doParseStruct(unpacker, parser, value, schema, 0)
+}
+
+func doParseStruct(unpacker Unpacker, parser Parser, value reflect.Value, schema *Schema, depth int) error {
+	if depth >= maxDepth {
+		return errTooDeep
+	}
 	format, header := unpacker.Next()
 	if format != MapHeader {
 		return errors.Errorf("expected MapHeader for struct, but got %v", format)
@@ -272,7 +279,7 @@ func ParseStruct(unpacker Unpacker, parser Parser, value reflect.Value, schema *
 		return parser.Error()
 	}
 	for i := 0; i < cnt; i++ {
-		key, err := doParse(unpacker, parser)
+		key, err := doParseNested(unpacker, parser, depth+1)
 		if err != nil {
 			return errors.Errorf("fail to parse key on position %d, %v", i, err)
 		}
@@ -301,12 +308,12 @@ func ParseStruct(unpacker Unpacker, parser Parser, value reflect.Value, schema *
 						if field.Struct {
 							structValue := reflect.New(elemValue.Type().Elem())
 							elemValue.Set(structValue)
-							err := ParseStruct(unpacker, parser, elemValue.Elem(), field.FieldSchema)
+							err := doParseStruct(unpacker, parser, elemValue.Elem(), field.FieldSchema, depth+1)
 							if err != nil {
 								return errors.Errorf("fail to set struct value %v", err)
 							}
 						} else {
-							val, err := doParse(unpacker, parser)
+							val, err := doParseNested(unpacker, parser, depth+1)
 							if err != nil {
 								return errors.Errorf("fail to parse value %v", err)
 							}
@@ -332,13 +339,13 @@ func ParseStruct(unpacker Unpacker, parser Parser, value reflect.Value, schema *
 						structValue := reflect.New(ptrType.Elem())
 						elemValue.Set(structValue)
 						sliceValue = reflect.Append(sliceValue, elemValue)
-						err := ParseStruct(unpacker, parser, elemValue.Elem(), field.FieldSchema)
+						err := doParseStruct(unpacker, parser, elemValue.Elem(), field.FieldSchema, depth+1)
 						if err != nil {
 							return errors.Errorf("fail to set struct value %v", err)
 						}
 					} else {
 						elemValue = reflect.New(field.FieldType.Elem()).Elem()
-						val, err := doParse(unpacker, parser)
+						val, err := doParseNested(unpacker, parser, depth+1)
 						if err != nil {
 							return errors.Errorf("fail to parse value %v", err)
 						}
@@ -351,7 +358,7 @@ func ParseStruct(unpacker Unpacker, parser Parser, value reflect.Value, schema *
 					fieldValue.Set(sliceValue)
 				}
 			} else {
-				err = parseFieldValue(unpacker, parser, field, fieldValue)
+				err = parseFieldValue(unpacker, parser, field, fieldValue, depth)
 				if err != nil {
 					return errors.Errorf("parse field on position %d, %v", i, err)
 				}
@@ -363,7 +370,7 @@ func ParseStruct(unpacker Unpacker, parser Parser, value reflect.Value, schema *
 	return nil
 }
 
-func parseFieldValue(unpacker Unpacker, parser Parser, field *Field, fieldValue reflect.Value) error {
+func parseFieldValue(unpacker Unpacker, parser Parser, field *Field, fieldValue reflect.Value, depth int) error {
 	if field.Struct {
 		if fieldValue.IsNil() {
 			if fieldValue.CanSet() {
@@ -372,12 +379,12 @@ func parseFieldValue(unpacker Unpacker, parser Parser, field *Field, fieldValue
 				return errors.Errorf("can not set empty struct value to field %v", field.FieldName)
 			}
 		}
-		err := ParseStruct(unpacker, parser, fieldValue.Elem(), field.FieldSchema)
+		err := doParseStruct(unpacker, parser, fieldValue.Elem(), field.FieldSchema, depth+1)
 		if err != nil {
 			return errors.Errorf("fail to set struct value %v", err)
 		}
 	} else {
-		val, err := doParse(unpacker, parser)
+		val, err := doParseNested(unpacker, parser, depth+1)
 		if err != nil {
 			return errors.Errorf("fail to parse value %v", err)
 		}
diff --git a/unpack.go b/unpack.go
index e213423..6c961a0 100644
--- a/unpack.go
+++ b/unpack.go
@@ -13,7 +13,16 @@ import (
 )
 
 
+// collections nested deeper than this are rejected, the stack is not unlimited
+const maxDepth = 100000
+
+var errTooDeep = errors.New("parse: nested too deep")
+
 func doParse(unpacker Unpacker, parser Parser) (Value, error) {
+	return doParseNested(unpacker, parser, 0)
+}
+
+func doParseNested(unpacker Unpacker, parser Parser, depth int) (Value, error) {
 
 	format, header := unpacker.Next()
 
@@ -55,9 +64,15 @@ func doParse(unpacker Unpacker, parser Parser) (Value, error) {
 		}
 		return Utf8(string(str)), nil
 	case ListHeader:
-		return doParseList(header, unpacker, parser)
+		if depth >= maxDepth {
+			return nil, errTooDeep
+		}
+		return doParseList(header, unpacker, parser, depth+1)
 	case MapHeader:
-		return doParseMap(header, unpacker, parser)
+		if depth >= maxDepth {
+			return nil, errTooDeep
+		}
+		return doParseMap(header, unpacker, parser, depth+1)
 	case ExtHeader:
 		n, _ := parser.ParseExt(header)
 		if parser.Error() != nil {
@@ -85,15 +100,15 @@ func preallocate(cnt int) int {
 }
 
 // the input must not end inside of a collection
-func doParseElement(unpacker Unpacker, parser Parser) (Value, error) {
-	value, err := doParse(unpacker, parser)
+func doParseElement(unpacker Unpacker, parser Parser, depth int) (Value, error) {
+	value, err := doParseNested(unpacker, parser, depth)
 	if err == io.EOF {
 		err = io.ErrUnexpectedEOF
 	}
 	return value, err
 }
 
-func doParseList(header []byte, unpacker Unpacker, parser Parser) (List, error) {
+func doParseList(header []byte, unpacker Unpacker, parser Parser, depth int) (List, error) {
 	cnt := parser.ParseList(header)
 	if parser.Error() != nil {
 		return nil, parser.Error()
@@ -103,7 +118,7 @@ func doParseList(header []byte, unpacker Unpacker, parser Parser) (List, error)
 	}
 	list := make([]Value, 0, preallocate(cnt))
 	for i := 0; i < cnt; i++ {
-		el, err := doParseElement(unpacker, parser)
+		el, err := doParseElement(unpacker, parser, depth)
 		if err != nil {
 			return nil, err
 		}
@@ -112,7 +127,7 @@ func doParseList(header []byte, unpacker Unpacker, parser Parser) (List, error)
 	return ImmutableList(list), nil
 }
 
-func doParseMap(header []byte, unpacker Unpacker, parser Parser) (Value, error) {
+func doParseMap(header []byte, unpacker Unpacker, parser Parser, depth int) (Value, error) {
 	cnt := parser.ParseMap(header)
 	if parser.Error() != nil {
 		return nil, parser.Error()
@@ -128,11 +143,11 @@ func doParseMap(header []byte, unpacker Unpacker, parser Parser) (Value, error)
 	var prevMapKey string
 
 	for i := 0; i < cnt; i++ {
-		key, err := doParseElement(unpacker, parser)
+		key, err := doParseElement(unpacker, parser, depth)
 		if err != nil {
 			return nil, err
 		}
-		value, err := doParseElement(unpacker, parser)
+		value, err := doParseElement(unpacker, parser, depth)
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 03a017a353aab4ba7a5d0093fcdfed7f04f45671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:48 +0000
Subject: [PATCH 23/43] fix: errors of deeply nested structs take linear time

---
 struct.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/struct.go b/struct.go
index 60ba9e9..47143e5 100644
--- a/struct.go
+++ b/struct.go
@@ -310,7 +310,7 @@ func doParseStruct(unpacker Unpacker, parser Parser, value reflect.Value, schema
 							elemValue.Set(structValue)
 							err := doParseStruct(unpacker, parser, elemValue.Elem(), field.FieldSchema, depth+1)
 							if err != nil {
-								return errors.Errorf("fail to set struct value %v", err)
+								return err
 							}
 						} else {
 							val, err := doParseNested(unpacker, parser, depth+1)
@@ -341,7 +341,7 @@ func doParseStruct(unpacker Unpacker, parser Parser, value reflect.Value, schema
 						sliceValue = reflect.Append(sliceValue, elemValue)
 						err := doParseStruct(unpacker, parser, elemValue.Elem(), field.FieldSchema, depth+1)
 						if err != nil {
-							return errors.Errorf("fail to set struct value %v", err)
+							return err
 						}
 					} else {
 						elemValue = reflect.New(field.FieldType.Elem()).Elem()
@@ -360,6 +360,10 @@ func doParseStruct(unpacker Unpacker, parser Parser, value reflect.Value, schema
 			} else {
 				err = parseFieldValue(unpacker, parser, field, fieldValue, depth)
 				if err != nil {
+					if field.Struct {
+						// the text would grow on every level
+						return err
+					}
 					return errors.Errorf("parse field on position %d, %v", i, err)
 				}
 			}
@@ -381,7 +385,7 @@ func parseFieldValue(unpacker Unpacker, parser Parser, field *Field, fieldValue
 		}
 		err := doParseStruct(unpacker, parser, fieldValue.Elem(), field.FieldSchema, depth+1)
 		if err != nil {
-			return errors.Errorf("fail to set struct value %v", err)
+			return err
 		}
 	} else {
 		val, err := doParseNested(unpacker, parser, depth+1)
-- 
2.43.0


From ac9dd61d725349054111ee9f585aaeaec499ef41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:06 +0000
Subject: [PATCH 24/43] fix: unsealing a message shorter than the nonce is an
 error

---
 utils.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/utils.go b/utils.go
index 7a2613b..3b2f32f 100644
--- a/utils.go
+++ b/utils.go
@@ -89,6 +89,9 @@ func Seal(val Value, recipientPublicKey, senderPrivateKey *[32]byte) ([]byte, er
 var ErrUnseal = errors.New("unseal error")
 
 func Unseal(encrypted []byte, senderPublicKey, recipientPrivateKey *[32]byte) (Value, error) {
+	if len(encrypted) < 24 {
+		return nil, ErrUnseal
+	}
 	var decryptNonce [24]byte
 	copy(decryptNonce[:], encrypted[:24])
 	decrypted, ok := box.Open(nil, encrypted[24:], &decryptNonce, senderPublicKey, recipientPrivateKey)
-- 
2.43.0


From 55675f4ba26a7e44fa37fd46f19fef8d12fd8c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:07 +0000
Subject: [PATCH 25/43] fix: InsertAll does not write to the slice of the
 caller nor keeps it

---
 immutablelist.go | 1 +
 immutablemap.go  | 1 +
 solidlist.go     | 1 +
 sortedmap.go     | 1 +
 sparselist.go    | 1 +
 5 files changed, 5 insertions(+)

diff --git a/immutablelist.go b/immutablelist.go
index 84d4217..d396ad7 100644
--- a/immutablelist.go
+++ b/immutablelist.go
@@ -316,6 +316,7 @@ func (t immutableListValue) InsertAll(i int, list []Value) List {
 		return t
 	}
 
+	list = CopyOf(list)
 	for k := range list {
 		if list[k] == nil {
 			list[k] = Null
diff --git a/immutablemap.go b/immutablemap.go
index 0436e58..b05df60 100644
--- a/immutablemap.go
+++ b/immutablemap.go
@@ -369,6 +369,7 @@ func (t immutableMapValue) InsertAll(key string, list []Value) Map {
 		return t
 	}
 
+	list = CopyOf(list)
 	for k := range list {
 		if list[k] == nil {
 			list[k] = Null
diff --git a/solidlist.go b/solidlist.go
index 36fde71..e9137e1 100644
--- a/solidlist.go
+++ b/solidlist.go
@@ -323,6 +323,7 @@ func (t solidListValue) InsertAll(i int, list []Value) List {
 		return t
 	}
 
+	list = CopyOf(list)
 	for k := range list {
 		if list[k] == nil {
 			list[k] = Null
diff --git a/sortedmap.go b/sortedmap.go
index 1b1c722..8640340 100644
--- a/sortedmap.go
+++ b/sortedmap.go
@@ -368,6 +368,7 @@ func (t sortedMapValue) InsertAll(key string, list []Value) Map {
 		return t
 	}
 
+	list = CopyOf(list)
 	for k := range list {
 		if list[k] == nil {
 			list[k] = Null
diff --git a/sparselist.go b/sparselist.go
index 0412830..c3a34a7 100644
--- a/sparselist.go
+++ b/sparselist.go
@@ -401,6 +401,7 @@ func (t sparseListValue) InsertAll(key int, list []Value) List {
 		return t
 	}
 
+	list = CopyOf(list)
 	for k := range list {
 		if list[k] == nil {
 			list[k] = Null
-- 
2.43.0


From b6b707939ae3ac7dcab27070adabce2523d9cf57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:08 +0000
Subject: [PATCH 26/43] fix: a copy of a map does not share its entries

---
 immutablemap.go |  3 +--
 mapentry.go     | 11 ++++++++++-
 sortedmap.go    |  8 ++++++--
 3 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/immutablemap.go b/immutablemap.go
index b05df60..bff5e8d 100644
--- a/immutablemap.go
+++ b/immutablemap.go
@@ -47,8 +47,7 @@ func ImmutableMap(entries []MapEntry, sorted bool) Map {
 }
 
 func ImmutableMapCopyOf(other Map) Map {
-	t := immutableMapValue(mapEntryCopyOf(other.Entries()))
-	return t
+	return immutableMapValue(immutableEntriesOf(other.Entries()))
 }
 
 func (t immutableMapValue) HashMap() map[string]Value {
diff --git a/mapentry.go b/mapentry.go
index 20cd386..24aeec7 100644
--- a/mapentry.go
+++ b/mapentry.go
@@ -84,4 +84,13 @@ func mapEntryCopyOf(src []MapEntry) []MapEntry {
 	dst := make([]MapEntry, n)
 	copy(dst, src)
 	return dst
-}
\ No newline at end of file
+}
+
+// the source could have entries that are updated later
+func immutableEntriesOf(src []MapEntry) []MapEntry {
+	dst := make([]MapEntry, len(src))
+	for i, entry := range src {
+		dst[i] = ImmutableEntry(entry.Key(), entry.Value())
+	}
+	return dst
+}
diff --git a/sortedmap.go b/sortedmap.go
index 8640340..cd102f1 100644
--- a/sortedmap.go
+++ b/sortedmap.go
@@ -48,8 +48,12 @@ func SortedMap(entries []MapEntry, sorted bool) Map {
 }
 
 func SortedMapCopyOf(other Map) Map {
-	t := sortedMapValue(mapEntryCopyOf(other.Entries()))
-	return t
+	src := other.Entries()
+	dst := make([]MapEntry, len(src))
+	for i, entry := range src {
+		dst[i] = MutableEntry(entry.Key(), entry.Value())
+	}
+	return sortedMapValue(dst)
 }
 
 func (t sortedMapValue) HashMap() map[string]Value {
-- 
2.43.0


From 739cd8f17a4bfc78b493aa1dcebdbf24ad96aad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:09 +0000
Subject: [PATCH 27/43] fix: an immutable map made of a list has immutable
 entries

---
 immutablelist.go | 2 +-
 immutablemap.go  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/immutablelist.go b/immutablelist.go
index d396ad7..82ccf93 100644
--- a/immutablelist.go
+++ b/immutablelist.go
@@ -189,7 +189,7 @@ func (t immutableListValue) GetMapAt(index int) Map {
 	if value != nil && value != Null {
 		switch value.Kind() {
 		case LIST:
-			return ImmutableMap(value.(List).Entries(), false)
+			return ImmutableMap(immutableEntriesOf(value.(List).Entries()), false)
 		case MAP:
 			return value.(Map)
 		}
diff --git a/immutablemap.go b/immutablemap.go
index bff5e8d..b0a5195 100644
--- a/immutablemap.go
+++ b/immutablemap.go
@@ -240,7 +240,7 @@ func (t immutableMapValue) GetMap(key string) Map {
 	if value != nil && value != Null {
 		switch value.Kind() {
 		case LIST:
-			return ImmutableMap(value.(List).Entries(), false)
+			return ImmutableMap(immutableEntriesOf(value.(List).Entries()), false)
 		case MAP:
 			return value.(Map)
 		}
-- 
2.43.0


From 72d10daae6097a06278620991a6161d95dab077d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:24 +0000
Subject: [PATCH 28/43] fix: MarshalBinary of bool and null returns bytes of
 their own

---
 bool.go | 2 +-
 null.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bool.go b/bool.go
index 0f2ae96..5d96d7b 100644
--- a/bool.go
+++ b/bool.go
@@ -62,7 +62,7 @@ func (b boolValue) MarshalJSON() ([]byte, error) {
 
 func (b boolValue) MarshalBinary() ([]byte, error) {
 	var m messageWriter
-	return m.WriteBool(bool(b)), nil
+	return append([]byte(nil), m.WriteBool(bool(b))...), nil
 }
 
 func (b boolValue) Equal(val Value) bool {
diff --git a/null.go b/null.go
index 5d1ee8f..f1b85a3 100644
--- a/null.go
+++ b/null.go
@@ -57,7 +57,7 @@ func (n nullValue) MarshalJSON() ([]byte, error) {
 
 func (n nullValue) MarshalBinary() ([]byte, error) {
 	var m messageWriter
-	return m.WriteNil(), nil
+	return append([]byte(nil), m.WriteNil()...), nil
 }
 
 func (n nullValue) Equal(val Value) bool {
-- 
2.43.0


From 4d6e5e5c3ff4828aa12c121a4ba26ff885441411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:25 +0000
Subject: [PATCH 29/43] fix: a sparse list with only negative keys has zero
 length

---
 sparselist.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sparselist.go b/sparselist.go
index c3a34a7..309f6d8 100644
--- a/sparselist.go
+++ b/sparselist.go
@@ -91,6 +91,9 @@ func (t sparseListValue) Values() []Value {
 		return nil
 	}
 	maxKey := t[n-1].Key()
+	if maxKey < 0 {
+		return nil
+	}
 	values := make([]Value, maxKey+1)
 
 	for _, item := range t {
@@ -107,6 +110,9 @@ func (t sparseListValue) Len() int {
 		return 0
 	} else {
 		maxKey := t[n-1].Key()
+		if maxKey < 0 {
+			return 0
+		}
 		return maxKey+1
 	}
 }
-- 
2.43.0


From 55f353a2b2b1ab6738f878fb36b23712076c4ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:26 +0000
Subject: [PATCH 30/43] fix: Write and WriteStream pack a nil value as nil like
 Pack

---
 utils.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/utils.go b/utils.go
index 3b2f32f..6428f1b 100644
--- a/utils.go
+++ b/utils.go
@@ -41,7 +41,11 @@ func Read(r io.Reader) (Value, error) {
 
 func Write(w io.Writer, val Value) error {
 	p := MessagePacker(w)
-	val.Pack(p)
+	if val != nil {
+		val.Pack(p)
+	} else {
+		p.PackNil()
+	}
 	return p.Error()
 }
 
@@ -123,7 +127,11 @@ func WriteStream(w io.Writer, valueC <-chan Value) error {
 			break
 		}
 
-		val.Pack(p)
+		if val != nil {
+			val.Pack(p)
+		} else {
+			p.PackNil()
+		}
 
 	}
 
-- 
2.43.0


From 0355e912a6f9847992a187e9b8f35c421deb01b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:27 +0000
Subject: [PATCH 31/43] fix: text name of the NULL kind

---
 api.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/api.go b/api.go
index 8c36e57..dc64ffd 100644
--- a/api.go
+++ b/api.go
@@ -39,6 +39,8 @@ func (k Kind) String() string {
 	switch k {
 	case INVALID:
 		return "INVALID"
+	case NULL:
+		return "NULL"
 	case BOOL:
 		return "BOOL"
 	case NUMBER:
-- 
2.43.0


From b89b50d0d9fe9826ee5a110bad39f8358db9e638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:43 +0000
Subject: [PATCH 32/43] fix: unsigned integers above the int64 range decode to
 their value

---
 unpack.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/unpack.go b/unpack.go
index 6c961a0..74ced07 100644
--- a/unpack.go
+++ b/unpack.go
@@ -9,6 +9,7 @@ package value
 import (
 	"github.com/pkg/errors"
 	"io"
+	"math/big"
 	"strconv"
 )
 
@@ -36,7 +37,11 @@ func doParseNested(unpacker Unpacker, parser Parser, depth int) (Value, error) {
 	case BoolToken:
 		return Boolean(parser.ParseBool(header)), parser.Error()
 	case LongToken:
-		return Long(parser.ParseLong(header)), parser.Error()
+		long := parser.ParseLong(header)
+		if long < 0 && header[0] == mpUint64 {
+			return BigInt(new(big.Int).SetUint64(uint64(long))), parser.Error()
+		}
+		return Long(long), parser.Error()
 	case DoubleToken:
 		return Double(parser.ParseDouble(header)), parser.Error()
 	case FixExtToken:
-- 
2.43.0


From a005ee91ea74059ccb8578ce571f8167d169c706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:24 +0000
Subject: [PATCH 33/43] fix: decimal keys with huge exponents do not hang the
 decoder

---
 struct.go | 2 +-
 unpack.go | 9 +++++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/struct.go b/struct.go
index 47143e5..e6a24a5 100644
--- a/struct.go
+++ b/struct.go
@@ -283,7 +283,7 @@ func doParseStruct(unpacker Unpacker, parser Parser, value reflect.Value, schema
 		if err != nil {
 			return errors.Errorf("fail to parse key on position %d, %v", i, err)
 		}
-		if key.Kind() != NUMBER {
+		if !isIndexKey(key) {
 			return errors.Errorf("expected int key, but got %s on position %d", key.Kind().String(), i)
 		}
 		tag := int(key.(Number).Long())
diff --git a/unpack.go b/unpack.go
index 74ced07..db66528 100644
--- a/unpack.go
+++ b/unpack.go
@@ -164,7 +164,7 @@ func doParseMap(header []byte, unpacker Unpacker, parser Parser, depth int) (Val
 
 		// first element
 		if i == 0 {
-			if key.Kind() == NUMBER {
+			if isIndexKey(key) {
 				// try to build sparse list
 				mayBeList = true
 				sparseListItems = make([]ListItem, 0, preallocate(cnt))
@@ -176,7 +176,7 @@ func doParseMap(header []byte, unpacker Unpacker, parser Parser, depth int) (Val
 
 		if mayBeList {
 
-			if key.Kind() == NUMBER {
+			if isIndexKey(key) {
 				k := key.(Number).Long()
 				if i > 0 && prevListKey > k {
 					sorted = false
@@ -220,6 +220,11 @@ func doParseMap(header []byte, unpacker Unpacker, parser Parser, depth int) (Val
 
 }
 
+// a decimal is no index, to convert one could take forever
+func isIndexKey(key Value) bool {
+	return key.Kind() == NUMBER && key.(Number).Type() != DECIMAL
+}
+
 func doParseExt(tagAndData []byte) (Value, error) {
 	xtag := Ext(tagAndData[0])
 	ext := tagAndData[1:]
-- 
2.43.0


From 2d5474cfd966467273eb49e019ffa6b8d687e4ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:25 +0000
Subject: [PATCH 34/43] fix: decimals with huge exponents compare and convert
 in bounded time

---
 number.go | 49 +++++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 45 insertions(+), 4 deletions(-)

diff --git a/number.go b/number.go
index 6f548e5..002720c 100644
--- a/number.go
+++ b/number.go
@@ -452,7 +452,12 @@ func (n bigIntNumber) Long() int64 {
 }
 
 func (n decimalNumber) Long() int64 {
-	return decimal.Decimal(n).IntPart()
+	dec := decimal.Decimal(n)
+	// the integer part has no digits, or its lowest 64 bits are zeros
+	if decimalMagnitude(dec) <= 0 || dec.Exponent() >= 64 {
+		return 0
+	}
+	return dec.IntPart()
 }
 
 func (n longNumber) Double() float64 {
@@ -471,7 +476,19 @@ func (n bigIntNumber) Double() float64 {
 }
 
 func (n decimalNumber) Double() float64 {
-	v, _ := decimal.Decimal(n).Float64()
+	dec := decimal.Decimal(n)
+	// far outside of the range of float64
+	if magnitude := decimalMagnitude(dec); magnitude > 400 || magnitude < -400 {
+		switch {
+		case dec.Sign() == 0:
+			return 0
+		case magnitude > 0:
+			return math.Inf(dec.Sign())
+		default:
+			return math.Copysign(0, float64(dec.Sign()))
+		}
+	}
+	v, _ := dec.Float64()
 	return v
 }
 
@@ -495,7 +512,17 @@ func (n bigIntNumber) BigInt() *big.Int {
 }
 
 func (n decimalNumber) BigInt() *big.Int {
-	return decimal.Decimal(n).Floor().BigInt()
+	dec := decimal.Decimal(n)
+	if dec.Sign() == 0 {
+		return new(big.Int)
+	}
+	if decimalMagnitude(dec) <= 0 {
+		if dec.Sign() < 0 {
+			return big.NewInt(-1)
+		}
+		return new(big.Int)
+	}
+	return dec.Floor().BigInt()
 }
 
 func (n longNumber) Decimal() decimal.Decimal {
@@ -518,6 +545,12 @@ func (n decimalNumber) Decimal() decimal.Decimal {
 	return decimal.Decimal(n)
 }
 
+// how many digits are before the point, or minus the zeros right after it
+func decimalMagnitude(dec decimal.Decimal) int64 {
+	digits := new(big.Int).Abs(dec.Coefficient()).String()
+	return int64(len(digits)) + int64(dec.Exponent())
+}
+
 func (n longNumber) Add(other Number) Number {
 	return Long(n.Long() + other.Long())
 }
@@ -610,6 +643,14 @@ func (n decimalNumber) Equal(val Value) bool {
 	if other.Type() == DOUBLE {
 		return other.Equal(n)
 	}
-	return n.Decimal().Cmp(other.Decimal()) == 0
+	left, right := n.Decimal(), other.Decimal()
+	if left.Sign() != right.Sign() {
+		return false
+	}
+	if left.Sign() == 0 {
+		return true
+	}
+	// comparing brings both to the same exponent, they could be far away
+	return decimalMagnitude(left) == decimalMagnitude(right) && left.Cmp(right) == 0
 }
 
-- 
2.43.0


From 5b7b13086aef97a0fa313ac4b6d75923af7c697a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:58 +0000
Subject: [PATCH 35/43] fix: a negative long of another format than MessagePack
 panicked or was taken for an unsigned one

---
 unpack.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/unpack.go b/unpack.go
index db66528..6a3c4ab 100644
--- a/unpack.go
+++ b/unpack.go
@@ -7,6 +7,7 @@
 package value
 
 import (
+	"encoding/binary"
 	"github.com/pkg/errors"
 	"io"
 	"math/big"
@@ -38,7 +39,7 @@ func doParseNested(unpacker Unpacker, parser Parser, depth int) (Value, error) {
 		return Boolean(parser.ParseBool(header)), parser.Error()
 	case LongToken:
 		long := parser.ParseLong(header)
-		if long < 0 && header[0] == mpUint64 {
+		if long < 0 && isUint64(header, uint64(long)) {
 			return BigInt(new(big.Int).SetUint64(uint64(long))), parser.Error()
 		}
 		return Long(long), parser.Error()
@@ -220,6 +221,11 @@ func doParseMap(header []byte, unpacker Unpacker, parser Parser, depth int) (Val
 
 }
 
+// the header can be of another format than MessagePack
+func isUint64(header []byte, val uint64) bool {
+	return len(header) == 9 && header[0] == mpUint64 && binary.BigEndian.Uint64(header[1:]) == val
+}
+
 // a decimal is no index, to convert one could take forever
 func isIndexKey(key Value) bool {
 	return key.Kind() == NUMBER && key.(Number).Type() != DECIMAL
-- 
2.43.0


From d67c43d0ba59bd571c8c4741d285ec0302c4efd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:01 +0000
Subject: [PATCH 36/43] fix: Parse panicked when the parser rejected the header
 of a fixed-size extension

---
 unpack.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/unpack.go b/unpack.go
index 6a3c4ab..64c16d0 100644
--- a/unpack.go
+++ b/unpack.go
@@ -47,6 +47,9 @@ func doParseNested(unpacker Unpacker, parser Parser, depth int) (Value, error) {
 		return Double(parser.ParseDouble(header)), parser.Error()
 	case FixExtToken:
 		_, tagAndData := parser.ParseExt(header)
+		if parser.Error() != nil {
+			return nil, parser.Error()
+		}
 		// header belongs to the unpacker
 		return doParseExt(append([]byte(nil), tagAndData...))
 	case BinHeader:
-- 
2.43.0


From 44e16c610b0ee00d056b2e0a79b3a92c3b237d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:33 +0000
Subject: [PATCH 37/43] fix: ParseStruct: report a parser error at the list of
 an array field

---
 struct.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/struct.go b/struct.go
index e6a24a5..63c196e 100644
--- a/struct.go
+++ b/struct.go
@@ -301,6 +301,9 @@ func doParseStruct(unpacker Unpacker, parser Parser, value reflect.Value, schema
 						return errors.Errorf("expected ListHeader for array field, but got %v", listFormat)
 					}
 					listCnt := parser.ParseList(listHeader)
+					if parser.Error() != nil {
+						return parser.Error()
+					}
 					sliceValue := reflect.MakeSlice(reflect.SliceOf(field.FieldType.Elem()), 0, preallocate(listCnt))
 
 					for j := 0; j < listCnt; j++ {
-- 
2.43.0


From 40bc575612d53e0b38f61a7d0a14281b6bd6d18e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:15 +0000
Subject: [PATCH 38/43] fix: Unpack: a zero big integer or decimal with a sign
 bit is a plain zero

---
 number.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/number.go b/number.go
index 002720c..7a29564 100644
--- a/number.go
+++ b/number.go
@@ -336,12 +336,19 @@ func (n decimalNumber) Pack(p Packer) {
 func UnpackBigInt(data []byte) (*big.Int, error) {
 	x := new(big.Int)
 	err := x.GobDecode(data)
+	if x.Sign() == 0 {
+		// a zero has no sign, whatever the data says
+		x.SetInt64(0)
+	}
 	return x, err
 }
 
 func UnpackDecimal(data []byte) (decimal.Decimal, error) {
 	d := decimal.Decimal{}
 	err := d.UnmarshalBinary(data)
+	if err == nil && d.Sign() == 0 {
+		d = decimal.New(0, d.Exponent())
+	}
 	return d, err
 }
 
-- 
2.43.0


From efaa67508d6ba95fcde5e03d25391b4ae8eeb458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:46 +0000
Subject: [PATCH 39/43] fix: Equal: a dense list compares items with any other
 implementation of List

---
 immutablelist.go |  5 +++--
 solidlist.go     | 14 ++++++++++++--
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/immutablelist.go b/immutablelist.go
index 82ccf93..6ac0c34 100644
--- a/immutablelist.go
+++ b/immutablelist.go
@@ -117,8 +117,9 @@ func (t immutableListValue) Equal(val Value) bool {
 		return false
 	}
 	o := val.(List)
-	if sparse, ok := o.(sparseListValue); ok {
-		return sparse.Equal(t)
+	if !isDenseList(o) {
+		// indexes can be missing or duplicated
+		return sparseListValue(t.Items()).Equal(o)
 	}
 	if t.Len() != o.Len() {
 		return false
diff --git a/solidlist.go b/solidlist.go
index e9137e1..b51b644 100644
--- a/solidlist.go
+++ b/solidlist.go
@@ -120,13 +120,23 @@ func (t solidListValue) MarshalBinary() ([]byte, error) {
 	return buf.Bytes(), p.Error()
 }
 
+// other implementations of List do not need to have all the indexes
+func isDenseList(list List) bool {
+	switch list.(type) {
+	case solidListValue, immutableListValue:
+		return true
+	}
+	return false
+}
+
 func (t solidListValue) Equal(val Value) bool {
 	if val == nil || val.Kind() != LIST {
 		return false
 	}
 	o := val.(List)
-	if sparse, ok := o.(sparseListValue); ok {
-		return sparse.Equal(t)
+	if !isDenseList(o) {
+		// indexes can be missing or duplicated
+		return sparseListValue(t.Items()).Equal(o)
 	}
 	if t.Len() != o.Len() {
 		return false
-- 
2.43.0


From 6179fa6bef963add7e3476f75ae4c8965f4aad50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:25 +0000
Subject: [PATCH 40/43] fix: collections as keys inside of keys take
 exponential memory

The text of a collection that is a key is quoted again by every key around it:
an input of 52 bytes took a gigabyte.
---
 unpack.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/unpack.go b/unpack.go
index 64c16d0..827c4fb 100644
--- a/unpack.go
+++ b/unpack.go
@@ -18,6 +18,10 @@ import (
 // collections nested deeper than this are rejected, the stack is not unlimited
 const maxDepth = 100000
 
+// a collection that is a key becomes text, and every key around it quotes that
+// text again, so keys inside of keys are rejected much earlier
+const keyDepth = maxDepth / 4
+
 var errTooDeep = errors.New("parse: nested too deep")
 
 func doParse(unpacker Unpacker, parser Parser) (Value, error) {
@@ -152,7 +156,7 @@ func doParseMap(header []byte, unpacker Unpacker, parser Parser, depth int) (Val
 	var prevMapKey string
 
 	for i := 0; i < cnt; i++ {
-		key, err := doParseElement(unpacker, parser, depth)
+		key, err := doParseElement(unpacker, parser, depth+keyDepth)
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 5400f2e4537bb69c8cd425e5b08b81c500e39572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:26 +0000
Subject: [PATCH 41/43] fix: maps with double and big integer keys decode to
 maps, not to lists

A fraction, or the bits above 64, of such a key was lost: {1.5: a, 1.2: b} became
a list with two items at 1.
---
 unpack.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/unpack.go b/unpack.go
index 827c4fb..54fbe0c 100644
--- a/unpack.go
+++ b/unpack.go
@@ -233,9 +233,9 @@ func isUint64(header []byte, val uint64) bool {
 	return len(header) == 9 && header[0] == mpUint64 && binary.BigEndian.Uint64(header[1:]) == val
 }
 
-// a decimal is no index, to convert one could take forever
+// other numbers are no indexes, they would lose their fraction or high bits
 func isIndexKey(key Value) bool {
-	return key.Kind() == NUMBER && key.(Number).Type() != DECIMAL
+	return key.Kind() == NUMBER && key.(Number).Type() == LONG
 }
 
 func doParseExt(tagAndData []byte) (Value, error) {
-- 
2.43.0


From 09bc0547560b879a97663777466a22369552ffef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:12:59 +0000
Subject: [PATCH 42/43] fix: sizes and integer keys beyond 32-bit int are not
 truncated

On 32-bit platforms a size from 2^31 in a header became negative: slices and
allocations of it panicked, and a map came out empty without an error. Integer
keys above 32 bits wrapped around to other indexes and tags.
---
 msgpack.go | 20 +++++++++++++++-----
 unpack.go  |  7 ++++++-
 2 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/msgpack.go b/msgpack.go
index a779e7e..be6721f 100644
--- a/msgpack.go
+++ b/msgpack.go
@@ -541,7 +541,7 @@ func (r *messageParser) ParseBin(b []byte) int {
 	case mpBin16:
 		return int(binary.BigEndian.Uint16(b[1:]))
 	case mpBin32:
-		return int(binary.BigEndian.Uint32(b[1:]))
+		return r.parseSize32(b[1:])
 	default:
 		r.err = errors.Errorf("bin: invalid code %v", code)
 		return 0
@@ -562,7 +562,7 @@ func (r *messageParser) ParseStr(b []byte) int {
 	case mpStr16:
 		return int(binary.BigEndian.Uint16(b[1:]))
 	case mpStr32:
-		return int(binary.BigEndian.Uint32(b[1:]))
+		return r.parseSize32(b[1:])
 	default:
 		r.err = errors.Errorf("str: invalid code %v", code)
 		return 0
@@ -581,7 +581,7 @@ func (r *messageParser) ParseList(b []byte) int {
 	case mpArray16:
 		return int(binary.BigEndian.Uint16(b[1:]))
 	case mpArray32:
-		return int(binary.BigEndian.Uint32(b[1:]))
+		return r.parseSize32(b[1:])
 	default:
 		r.err = errors.Errorf("list: invalid code %v", code)
 		return 0
@@ -601,7 +601,7 @@ func (r *messageParser) ParseMap(b []byte) int {
 	case mpMap16:
 		return int(binary.BigEndian.Uint16(b[1:]))
 	case mpMap32:
-		return int(binary.BigEndian.Uint32(b[1:]))
+		return r.parseSize32(b[1:])
 	default:
 		r.err = errors.Errorf("map: invalid code %v", code)
 		return 0
@@ -628,13 +628,23 @@ func (r *messageParser) ParseExt(b []byte) (len int, tagAndData []byte) {
 	case mpExt16:
 		return int(binary.BigEndian.Uint16(b[1:])), b[3:]
 	case mpExt32:
-		return int(binary.BigEndian.Uint32(b[1:])), b[5:]
+		return r.parseSize32(b[1:]), b[5:]
 	default:
 		r.err = errors.Errorf("ext: invalid code %v", code)
 		return 0, b
 	}
 }
 
+// on 32-bit platforms a size can be above of what int holds, one more byte is the tag of the extension
+func (r *messageParser) parseSize32(b []byte) int {
+	size := int(binary.BigEndian.Uint32(b))
+	if size + 1 <= 0 {
+		r.err = errors.Errorf("size %d is too large", uint32(size))
+		return 0
+	}
+	return size
+}
+
 func (r messageParser) Error() error {
 	return r.err
 }
diff --git a/unpack.go b/unpack.go
index 54fbe0c..84923a3 100644
--- a/unpack.go
+++ b/unpack.go
@@ -235,7 +235,12 @@ func isUint64(header []byte, val uint64) bool {
 
 // other numbers are no indexes, they would lose their fraction or high bits
 func isIndexKey(key Value) bool {
-	return key.Kind() == NUMBER && key.(Number).Type() == LONG
+	if key.Kind() != NUMBER || key.(Number).Type() != LONG {
+		return false
+	}
+	// on 32-bit platforms int is shorter
+	long := key.(Number).Long()
+	return int64(int(long)) == long
 }
 
 func doParseExt(tagAndData []byte) (Value, error) {
-- 
2.43.0


From e4aa2e472bff16c37b39ab886b178e8f3baab51e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:41:52 +0000
Subject: [PATCH 43/43] fix: sizes beyond 32 bits are an error when packing

No MessagePack header holds them: the header was written with the low 32 bits
of the size and the bytes after it became other objects.
---
 msgpack.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/msgpack.go b/msgpack.go
index be6721f..9a5b1ab 100644
--- a/msgpack.go
+++ b/msgpack.go
@@ -216,7 +216,18 @@ func (p *messagePacker) PackDouble(val float64) {
 	}
 }
 
+// sizes in headers have 32 bits at most
+func (p *messagePacker) checkSize(size int) {
+	if p.err == nil && uint64(size) > math.MaxUint32 {
+		p.err = errors.Errorf("size %d is too large", size)
+	}
+}
+
 func (p *messagePacker) PackStr(str string) {
+	p.checkSize(len(str))
+	if p.err != nil {
+		return
+	}
 	b := []byte(str)
 	if p.err == nil {
 		_, p.err = p.w.Write(p.m.WriteStrHeader(len(b)))
@@ -227,6 +238,7 @@ func (p *messagePacker) PackStr(str string) {
 }
 
 func (p *messagePacker) PackBin(b []byte) {
+	p.checkSize(len(b))
 	if p.err == nil {
 		_, p.err = p.w.Write(p.m.WriteBinHeader(len(b)))
 	}
@@ -236,6 +248,7 @@ func (p *messagePacker) PackBin(b []byte) {
 }
 
 func (p *messagePacker) PackExt(xtag Ext, data []byte) {
+	p.checkSize(len(data))
 	if p.err == nil {
 		_, p.err = p.w.Write(p.m.WriteExtHeader(len(data), byte(xtag)))
 	}
@@ -248,6 +261,7 @@ func (p *messagePacker) PackList(size int) {
 	if size < 0 {
 		size = 0
 	}
+	p.checkSize(size)
 	if p.err == nil {
 		_, p.err = p.w.Write(p.m.WriteArrayHeader(size))
 	}
@@ -257,6 +271,7 @@ func (p *messagePacker) PackMap(size int) {
 	if size < 0 {
 		size = 0
 	}
+	p.checkSize(size)
 	if p.err == nil {
 		_, p.err = p.w.Write(p.m.WriteMapHeader(size))
 	}
-- 
2.43.0

