From de0798a97aee6211d05a460aeb31e4586c76e122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:17 +0000
Subject: [PATCH 01/35] fix: GetByteSlice returned bytes up to the absolute
 index length instead of length bytes from offset

---
 vtdxml/buffer/byte_buffer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vtdxml/buffer/byte_buffer.go b/vtdxml/buffer/byte_buffer.go
index 7f2664e..336a083 100644
--- a/vtdxml/buffer/byte_buffer.go
+++ b/vtdxml/buffer/byte_buffer.go
@@ -33,10 +33,10 @@ func (b *UniByteBuffer) GetByteSlice(offset int, length int) ([]byte, error) {
 	if offset < 0 || offset >= len(b.buffer) {
 		return nil, erroring.NewInvalidArgumentError("offset", erroring.IndexOutOfRange, nil)
 	}
-	if length < 1 || offset+length >= len(b.buffer) {
+	if length < 1 || length >= len(b.buffer)-offset {
 		return nil, erroring.NewInvalidArgumentError("length", erroring.InvalidSliceLength, nil)
 	}
-	return b.buffer[offset:length], nil
+	return b.buffer[offset : offset+length], nil
 }
 
 func (b *UniByteBuffer) GetBytes() []byte {
-- 
2.43.0


From baddb0bcdaa01b7f63d060a8aba1dd4775b6b958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:17 +0000
Subject: [PATCH 02/35] fix: paged buffers rejected every index beyond the
 first page and could panic on a missing page

---
 vtdxml/buffer/int_buffer.go  | 8 ++++----
 vtdxml/buffer/long_buffer.go | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/vtdxml/buffer/int_buffer.go b/vtdxml/buffer/int_buffer.go
index 4860fef..a8a4327 100644
--- a/vtdxml/buffer/int_buffer.go
+++ b/vtdxml/buffer/int_buffer.go
@@ -66,7 +66,7 @@ func (b *FastIntBuffer) IntAt(index int) (int32, error) {
 	if err != nil {
 		return 0, err
 	}
-	if index < 0 || index >= len(bufferSlice) {
+	if index < 0 || index >= b.size || offset >= len(bufferSlice) {
 		return 0, erroring.NewInvalidArgumentError("index", erroring.IndexOutOfRange, nil)
 	}
 	v := bufferSlice[offset]
@@ -81,7 +81,7 @@ func (b *FastIntBuffer) ModifyEntry(index int, value int32) error {
 	}
 
 	offset := index & b.r
-	if index < 0 || index >= len(bufferSlice) {
+	if index < 0 || index >= b.size || offset >= len(bufferSlice) {
 		return erroring.NewInvalidArgumentError("index", erroring.IndexOutOfRange, nil)
 	}
 	bufferSlice[offset] = value
@@ -146,14 +146,14 @@ func (b *FastIntBuffer) Clear() {
 }
 
 func (b *FastIntBuffer) get(index int) ([]int32, error) {
-	if index < 0 || index >= b.size {
+	if index < 0 || index >= len(b.buffer) {
 		return nil, erroring.NewInvalidArgumentError("index", erroring.IndexOutOfRange, nil)
 	}
 	return b.buffer[index], nil
 }
 
 func (b *FastIntBuffer) set(index int, value []int32) error {
-	if index < 0 || index >= b.size {
+	if index < 0 || index >= len(b.buffer) {
 		return erroring.NewInvalidArgumentError("index", erroring.IndexOutOfRange, nil)
 	}
 	b.buffer[index] = value
diff --git a/vtdxml/buffer/long_buffer.go b/vtdxml/buffer/long_buffer.go
index 93390ed..c526a16 100644
--- a/vtdxml/buffer/long_buffer.go
+++ b/vtdxml/buffer/long_buffer.go
@@ -65,7 +65,7 @@ func (b *FastLongBuffer) LongAt(index int) (int64, error) {
 	if err != nil {
 		return 0, erroring.NewInvalidArgumentError("index", erroring.IndexOutOfRange, nil)
 	}
-	if index < 0 || index >= len(bufferSlice) {
+	if index < 0 || index >= b.size || offset >= len(bufferSlice) {
 		return 0, erroring.NewInvalidArgumentError("index", erroring.IndexOutOfRange, nil)
 	}
 	v := bufferSlice[offset]
@@ -79,7 +79,7 @@ func (b *FastLongBuffer) ModifyEntry(index int, value int64) error {
 		return erroring.NewInvalidArgumentError("index", erroring.IndexOutOfRange, err)
 	}
 	offset := index & b.r
-	if index < 0 || index >= len(bufferSlice) {
+	if index < 0 || index >= b.size || offset >= len(bufferSlice) {
 		return erroring.NewInvalidArgumentError("index", erroring.IndexOutOfRange, nil)
 	}
 	bufferSlice[offset] = value
@@ -166,14 +166,14 @@ func (b *FastLongBuffer) Clear() {
 }
 
 func (b *FastLongBuffer) get(index int) ([]int64, error) {
-	if index < 0 || index >= b.size {
+	if index < 0 || index >= len(b.buffer) {
 		return nil, erroring.NewInvalidArgumentError("index", erroring.IndexOutOfRange, nil)
 	}
 	return b.buffer[index], nil
 }
 
 func (b *FastLongBuffer) set(index int, value []int64) error {
-	if index < 0 || index >= b.size {
+	if index < 0 || index >= len(b.buffer) {
 		return erroring.NewInvalidArgumentError("index", erroring.IndexOutOfRange, nil)
 	}
 	b.buffer[index] = value
-- 
2.43.0


From 990bf89a63552a315368e0b39c57f58e2003fc81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:17 +0000
Subject: [PATCH 03/35] fix: appending to a cleared or truncated buffer kept
 stale entries in front of the new one

---
 vtdxml/buffer/int_buffer.go  | 7 +++++++
 vtdxml/buffer/long_buffer.go | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/vtdxml/buffer/int_buffer.go b/vtdxml/buffer/int_buffer.go
index a8a4327..883116c 100644
--- a/vtdxml/buffer/int_buffer.go
+++ b/vtdxml/buffer/int_buffer.go
@@ -113,6 +113,9 @@ func (b *FastIntBuffer) ToIntArray() ([]int32, error) {
 			return nil, err
 		}
 		// load-in buffer page into int32 slice
+		if size < len(buffer) {
+			buffer = buffer[:size]
+		}
 		for j := range buffer {
 			v := buffer[j]
 			intArray = append(intArray, v)
@@ -130,6 +133,10 @@ func (b *FastIntBuffer) Append(value int32) error {
 		if err != nil {
 			return err
 		}
+		// drop entries left over from before the buffer was cleared or truncated
+		if offset := b.size & b.r; offset < len(bufferSlice) {
+			bufferSlice = bufferSlice[:offset]
+		}
 		bufferSlice = append(bufferSlice, value)
 		b.size++
 		return b.set(pageNum, bufferSlice)
diff --git a/vtdxml/buffer/long_buffer.go b/vtdxml/buffer/long_buffer.go
index c526a16..cb3c83b 100644
--- a/vtdxml/buffer/long_buffer.go
+++ b/vtdxml/buffer/long_buffer.go
@@ -133,6 +133,9 @@ func (b *FastLongBuffer) ToLongArray() ([]int64, error) {
 			return nil, err
 		}
 		// load-in buffer page into int64 slice
+		if size < len(buffer) {
+			buffer = buffer[:size]
+		}
 		for j := range buffer {
 			v := buffer[j]
 			intArray = append(intArray, v)
@@ -150,6 +153,10 @@ func (b *FastLongBuffer) Append(value int64) error {
 		if err != nil {
 			return err
 		}
+		// drop entries left over from before the buffer was cleared or truncated
+		if offset := b.size & b.r; offset < len(bufferSlice) {
+			bufferSlice = bufferSlice[:offset]
+		}
 		bufferSlice = append(bufferSlice, value)
 		b.size++
 		return b.set(pageNum, bufferSlice)
-- 
2.43.0


From 1d35d41b818c134e86fa6fb89fbfd551f8a29cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:41 +0000
Subject: [PATCH 04/35] fix: Upper32At dropped the top four bits of the stored
 value

---
 vtdxml/buffer/long_buffer.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/vtdxml/buffer/long_buffer.go b/vtdxml/buffer/long_buffer.go
index cb3c83b..6b28fc2 100644
--- a/vtdxml/buffer/long_buffer.go
+++ b/vtdxml/buffer/long_buffer.go
@@ -110,9 +110,7 @@ func (b *FastLongBuffer) Upper32At(index int) (int32, error) {
 	if err != nil {
 		return 0, erroring.NewInvalidArgumentError("index", erroring.IndexOutOfRange, err)
 	}
-	valueLong = valueLong & (0xFFFFFFF << 32)
-	valueLong = valueLong >> 32
-	valueInt := int32(valueLong)
+	valueInt := int32(valueLong >> 32)
 	return valueInt, nil
 }
 
-- 
2.43.0


From 238d00efafb7105413eefabc20dca4422c39e071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:42 +0000
Subject: [PATCH 05/35] fix: the object buffer never started a second page

---
 vtdxml/buffer/object_buffer.go | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/vtdxml/buffer/object_buffer.go b/vtdxml/buffer/object_buffer.go
index 07bc0f3..e94928a 100644
--- a/vtdxml/buffer/object_buffer.go
+++ b/vtdxml/buffer/object_buffer.go
@@ -62,7 +62,7 @@ func (b *FastObjectBuffer) ObjectAt(index int) (interface{}, error) {
 	if err != nil {
 		return nil, erroring.NewInvalidArgumentError("index", erroring.IndexOutOfRange, err)
 	}
-	if index < 0 || index >= len(bufferSlice) {
+	if index < 0 || offset >= len(bufferSlice) {
 		return nil, erroring.NewInvalidArgumentError("index", erroring.IndexOutOfRange, nil)
 	}
 	v := bufferSlice[offset]
@@ -77,7 +77,7 @@ func (b *FastObjectBuffer) ModifyEntry(index int, value interface{}) error {
 	}
 
 	offset := index & b.r
-	if index < 0 || index >= len(bufferSlice) {
+	if index < 0 || offset >= len(bufferSlice) {
 		return erroring.NewInvalidArgumentError("index", erroring.IndexOutOfRange, nil)
 	}
 	bufferSlice[offset] = value
@@ -93,20 +93,21 @@ func (b *FastObjectBuffer) SetSize(size int) {
 }
 
 func (b *FastObjectBuffer) Append(value interface{}) error {
-	if b.size < b.capacity {
-		pageNum := b.size >> b.exp
+	// the size of an object buffer is its number of pages in use
+	pageNum := b.size - 1
+	if pageNum >= 0 {
 		bufferSlice, err := b.get(pageNum)
 		if err != nil {
 			return err
 		}
-		bufferSlice = append(bufferSlice, value)
-		return b.set(pageNum, bufferSlice)
-	} else {
-		b.size++
-		b.capacity += b.pageSize
-		b.buffer = append(b.buffer, []interface{}{value})
-		return nil
+		if len(bufferSlice) < b.pageSize {
+			return b.set(pageNum, append(bufferSlice, value))
+		}
 	}
+	b.buffer = append(b.buffer[:b.size], []interface{}{value})
+	b.size++
+	b.capacity = len(b.buffer) * b.pageSize
+	return nil
 }
 
 func (b *FastObjectBuffer) Clear() {
@@ -114,14 +115,14 @@ func (b *FastObjectBuffer) Clear() {
 }
 
 func (b *FastObjectBuffer) get(index int) ([]interface{}, error) {
-	if index < 0 || index >= b.size {
+	if index < 0 || index >= b.size || index >= len(b.buffer) {
 		return nil, erroring.NewInvalidArgumentError("index", erroring.IndexOutOfRange, nil)
 	}
 	return b.buffer[index], nil
 }
 
 func (b *FastObjectBuffer) set(index int, value []interface{}) error {
-	if index < 0 || index >= b.size {
+	if index < 0 || index >= b.size || index >= len(b.buffer) {
 		return erroring.NewInvalidArgumentError("index", erroring.IndexOutOfRange, nil)
 	}
 	b.buffer[index] = value
-- 
2.43.0


From 7311dfecd84a03e8fcc4d5e84cd1a33a962f4de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:42 +0000
Subject: [PATCH 06/35] fix: page size options panicked on a negative exponent
 or accepted a negative page size

---
 vtdxml/buffer/int_buffer.go    |  2 +-
 vtdxml/buffer/long_buffer.go   | 10 ++++++----
 vtdxml/buffer/object_buffer.go | 10 ++++++----
 3 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/vtdxml/buffer/int_buffer.go b/vtdxml/buffer/int_buffer.go
index 883116c..f527449 100644
--- a/vtdxml/buffer/int_buffer.go
+++ b/vtdxml/buffer/int_buffer.go
@@ -51,7 +51,7 @@ func NewFastIntBuffer(opts ...FastIntBufferOption) (*FastIntBuffer, error) {
 		opt(b)
 	}
 
-	if b.pageSize == 0 || b.r < 0 {
+	if b.pageSize <= 0 || b.r < 0 {
 		return nil, erroring.NewInvalidArgumentError("size", erroring.InvalidBufferPageSize, nil)
 	}
 
diff --git a/vtdxml/buffer/long_buffer.go b/vtdxml/buffer/long_buffer.go
index 6b28fc2..b537872 100644
--- a/vtdxml/buffer/long_buffer.go
+++ b/vtdxml/buffer/long_buffer.go
@@ -31,9 +31,11 @@ type FastLongBuffer struct {
 
 func WithFastLongBufferPageSize(size int) FastLongBufferOption {
 	return func(b *FastLongBuffer) {
-		b.pageSize = 1 << size
-		b.exp = size
-		b.r = b.pageSize - 1
+		if size >= 0 {
+			b.pageSize = 1 << size
+			b.exp = size
+			b.r = b.pageSize - 1
+		}
 	}
 }
 
@@ -50,7 +52,7 @@ func NewFastLongBuffer(opts ...FastLongBufferOption) (*FastLongBuffer, error) {
 	for _, opt := range opts {
 		opt(b)
 	}
-	if b.pageSize == 0 || b.r < 0 {
+	if b.pageSize <= 0 || b.r < 0 {
 		return nil, erroring.NewInvalidArgumentError("size", erroring.InvalidBufferPageSize, nil)
 	}
 
diff --git a/vtdxml/buffer/object_buffer.go b/vtdxml/buffer/object_buffer.go
index e94928a..799ebc2 100644
--- a/vtdxml/buffer/object_buffer.go
+++ b/vtdxml/buffer/object_buffer.go
@@ -28,9 +28,11 @@ type FastObjectBuffer struct {
 
 func WithFastObjectBufferPageSize(size int) FastObjectBufferOption {
 	return func(b *FastObjectBuffer) {
-		b.pageSize = 1 << size
-		b.exp = size
-		b.r = b.pageSize - 1
+		if size >= 0 {
+			b.pageSize = 1 << size
+			b.exp = size
+			b.r = b.pageSize - 1
+		}
 	}
 }
 
@@ -47,7 +49,7 @@ func NewFastObjectBuffer(opts ...FastObjectBufferOption) (*FastObjectBuffer, err
 	for _, opt := range opts {
 		opt(b)
 	}
-	if b.pageSize == 0 || b.r < 0 {
+	if b.pageSize <= 0 || b.r < 0 {
 		return nil, erroring.NewInvalidArgumentError("size", erroring.InvalidBufferPageSize, nil)
 	}
 
-- 
2.43.0


From 91228aa9b7027c2a1153bf3d9cb7ea83e6b6e0ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:02 +0000
Subject: [PATCH 07/35] fix: readers panicked when a lookup or skip reached
 past the last character

---
 vtdxml/reader/ascii_reader.go | 11 ++++++++++-
 vtdxml/reader/utf8_reader.go  | 11 ++++++++++-
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/vtdxml/reader/ascii_reader.go b/vtdxml/reader/ascii_reader.go
index fcd68e9..42337f5 100644
--- a/vtdxml/reader/ascii_reader.go
+++ b/vtdxml/reader/ascii_reader.go
@@ -42,14 +42,20 @@ func (r *AsciiReader) GetChar() (uint32, error) {
 }
 
 func (r *AsciiReader) GetLongCharAt(offset int32) (uint64, error) {
+	if offset < 0 || int(offset) >= r.endOffset {
+		return 0, erroring.NewInvalidArgumentError("offset", erroring.IndexOutOfRange, nil)
+	}
 	ch := r.xmlDoc[offset]
-	if ch == byte('\r') && r.xmlDoc[offset+1] == byte('\n') {
+	if ch == byte('\r') && int(offset)+1 < r.endOffset && r.xmlDoc[int(offset)+1] == byte('\n') {
 		return (2 << 32) | '\n', nil
 	}
 	return (1 << 32) | uint64(ch), nil
 }
 
 func (r *AsciiReader) SkipChar(ch uint32) bool {
+	if r.offset >= r.endOffset {
+		return false
+	}
 	if ch == uint32(r.xmlDoc[r.offset]) {
 		r.offset++
 		return true
@@ -68,6 +74,9 @@ func (r *AsciiReader) SkipCharSeq(seq string) bool {
 }
 
 func (r *AsciiReader) GetCharAt(offset int32) (uint32, error) {
+	if offset < 0 || int(offset) >= r.endOffset {
+		return 0, erroring.NewInvalidArgumentError("offset", erroring.IndexOutOfRange, nil)
+	}
 	return uint32(r.xmlDoc[offset]), nil
 }
 
diff --git a/vtdxml/reader/utf8_reader.go b/vtdxml/reader/utf8_reader.go
index 8b68251..9adb347 100644
--- a/vtdxml/reader/utf8_reader.go
+++ b/vtdxml/reader/utf8_reader.go
@@ -42,18 +42,27 @@ func (r *Utf8Reader) GetChar() (uint32, error) {
 }
 
 func (r *Utf8Reader) GetLongCharAt(offset int32) (uint64, error) {
+	if offset < 0 || int(offset) >= r.endOffset {
+		return 0, erroring.NewInvalidArgumentError("offset", erroring.IndexOutOfRange, nil)
+	}
 	ch := r.xmlDoc[offset]
-	if ch == byte('\r') && r.xmlDoc[offset+1] == byte('\n') {
+	if ch == byte('\r') && int(offset)+1 < r.endOffset && r.xmlDoc[int(offset)+1] == byte('\n') {
 		return (2 << 32) | '\n', nil
 	}
 	return (1 << 32) | uint64(ch), nil
 }
 
 func (r *Utf8Reader) GetCharAt(offset int32) (uint32, error) {
+	if offset < 0 || int(offset) >= r.endOffset {
+		return 0, erroring.NewInvalidArgumentError("offset", erroring.IndexOutOfRange, nil)
+	}
 	return uint32(r.xmlDoc[offset]), nil
 }
 
 func (r *Utf8Reader) SkipChar(ch uint32) bool {
+	if r.offset >= r.endOffset {
+		return false
+	}
 	if ch == uint32(r.xmlDoc[r.offset]) {
 		r.offset++
 		return true
-- 
2.43.0


From 9473fec0e2d894d45f2e800d013beb02a1dea672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:06 +0000
Subject: [PATCH 08/35] fix: a sequence skip that failed left the reader in the
 middle of the sequence

---
 vtdxml/reader/ascii_reader.go | 2 ++
 vtdxml/reader/utf8_reader.go  | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/vtdxml/reader/ascii_reader.go b/vtdxml/reader/ascii_reader.go
index 42337f5..a7e7c9b 100644
--- a/vtdxml/reader/ascii_reader.go
+++ b/vtdxml/reader/ascii_reader.go
@@ -65,8 +65,10 @@ func (r *AsciiReader) SkipChar(ch uint32) bool {
 }
 
 func (r *AsciiReader) SkipCharSeq(seq string) bool {
+	start := r.offset
 	for _, ch := range seq {
 		if !r.SkipChar(uint32(ch)) {
+			r.offset = start
 			return false
 		}
 	}
diff --git a/vtdxml/reader/utf8_reader.go b/vtdxml/reader/utf8_reader.go
index 9adb347..df9b45d 100644
--- a/vtdxml/reader/utf8_reader.go
+++ b/vtdxml/reader/utf8_reader.go
@@ -72,8 +72,10 @@ func (r *Utf8Reader) SkipChar(ch uint32) bool {
 }
 
 func (r *Utf8Reader) SkipCharSeq(seq string) bool {
+	start := r.offset
 	for _, ch := range seq {
 		if !r.SkipChar(uint32(ch)) {
+			r.offset = start
 			return false
 		}
 	}
-- 
2.43.0


From 7b9d401786930f7b98d8aa4e8d2f238920b7898b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:26 +0000
Subject: [PATCH 09/35] fix: the ASCII reader refused a window that reaches the
 end of the document

---
 vtdxml/reader/ascii_reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vtdxml/reader/ascii_reader.go b/vtdxml/reader/ascii_reader.go
index a7e7c9b..0f72288 100644
--- a/vtdxml/reader/ascii_reader.go
+++ b/vtdxml/reader/ascii_reader.go
@@ -19,7 +19,7 @@ func NewAsciiReader(xmlDoc []byte, offset, endOffset int) (*AsciiReader, error)
 	if offset < 0 {
 		return nil, erroring.NewInvalidArgumentError("offset", erroring.IndexOutOfRange, nil)
 	}
-	if endOffset < 0 || endOffset >= len(xmlDoc) {
+	if endOffset < 0 || endOffset > len(xmlDoc) {
 		return nil, erroring.NewInvalidArgumentError("endOffset", erroring.IndexOutOfRange, nil)
 	}
 	return &AsciiReader{
-- 
2.43.0


From 8570f831f7036ff1597d228e43f4adb4631e7844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:30 +0000
Subject: [PATCH 10/35] fix: NewNavigationError built a ParseError

---
 vtdxml/erroring/erroring.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vtdxml/erroring/erroring.go b/vtdxml/erroring/erroring.go
index c6a1e3a..68178a7 100644
--- a/vtdxml/erroring/erroring.go
+++ b/vtdxml/erroring/erroring.go
@@ -124,8 +124,8 @@ type NavigationError struct {
 }
 
 // NewNavigationError constructs a new NavigationError, wrapping the provided error.
-func NewNavigationError(msg string, err error) *ParseError {
-	return &ParseError{
+func NewNavigationError(msg string, err error) *NavigationError {
+	return &NavigationError{
 		baseError: newBaseError(
 			fmt.Sprintf("a navigation error occurred: %s", msg),
 			err,
-- 
2.43.0


From 9d64aa1465df84e65b0be4cb8a30a677dd87640d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:15 +0000
Subject: [PATCH 11/35] fix: parser accepted a window of negative length

---
 vtdxml/parser/vtd_parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vtdxml/parser/vtd_parser.go b/vtdxml/parser/vtd_parser.go
index d2112df..bbea421 100644
--- a/vtdxml/parser/vtd_parser.go
+++ b/vtdxml/parser/vtd_parser.go
@@ -129,7 +129,7 @@ func NewVtdParser(opts ...Option) (*VtdParser, error) {
 	if g.offset < 0 {
 		return nil, erroring.NewInvalidArgumentError("offset", erroring.IndexOutOfRange, nil)
 	}
-	if g.length == 0 || g.offset+g.length > len(g.xmlDoc) {
+	if g.length <= 0 || g.length > len(g.xmlDoc)-g.offset {
 		return nil, erroring.NewInvalidArgumentError("length", erroring.InvalidSliceLength, nil)
 	}
 	// perform additional initialization
-- 
2.43.0


From eb2ecb6b09b588a7aaeacebca5b8050054e32ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:18 +0000
Subject: [PATCH 12/35] fix: Parse stored its end-of-file error in a package
 variable

---
 vtdxml/parser/parse.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vtdxml/parser/parse.go b/vtdxml/parser/parse.go
index 69fd652..e30b084 100644
--- a/vtdxml/parser/parse.go
+++ b/vtdxml/parser/parse.go
@@ -67,7 +67,8 @@ func (p *VtdParser) Parse() error {
 			)
 		}
 
-		if errors.As(err, &erroring.EOFErrorType) && parserState == StateDocEnd {
+		var eofErr *erroring.EOFError
+		if errors.As(err, &eofErr) && parserState == StateDocEnd {
 			if err := p.finishUp(); err != nil {
 				return erroring.NewInternalError("failed to finish-up document parsing", err)
 			}
-- 
2.43.0


From 71e42758eda7f1f632d9ffdb786c6fe7625ca4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:22 +0000
Subject: [PATCH 13/35] fix: Parse wrote debugging output to the standard
 output

---
 vtdxml/parser/parse.go | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/vtdxml/parser/parse.go b/vtdxml/parser/parse.go
index e30b084..01be12e 100644
--- a/vtdxml/parser/parse.go
+++ b/vtdxml/parser/parse.go
@@ -2,7 +2,6 @@ package parser
 
 import (
 	"errors"
-	"fmt"
 
 	"github.com/alexZaicev/go-vtd-xml/vtdxml/common"
 	"github.com/alexZaicev/go-vtd-xml/vtdxml/erroring"
@@ -24,10 +23,6 @@ func (p *VtdParser) Parse() error {
 	var ps State
 	var err error
 	for {
-		fmt.Printf("Starting process state: %d\n", parserState)
-		fmt.Printf("Offset: %d LastOffset %d CurrentChar %d Length1 %d\n", p.offset, p.lastOffset, p.currentChar,
-			p.length1)
-
 		switch parserState {
 		case StateDocType:
 			ps, err = p.processDocType()
-- 
2.43.0


From 16ed3c2e833cd82aa79e32f578c7c9236bd22c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:26 +0000
Subject: [PATCH 14/35] fix: a leading processing instruction was read as a
 start tag

---
 vtdxml/parser/process_doc_start.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vtdxml/parser/process_doc_start.go b/vtdxml/parser/process_doc_start.go
index 9d4787f..350d3a0 100644
--- a/vtdxml/parser/process_doc_start.go
+++ b/vtdxml/parser/process_doc_start.go
@@ -25,7 +25,7 @@ func (p *VtdParser) processDocStart() (State, error) {
 				return StateInvalid, erroring.NewParseError("premature ending", p.fmtLine(), nil)
 			}
 		}
-		p.offset = p.lastOffset
+		p.setOffset(p.lastOffset)
 		return StateLtSeen, nil
 	} else if p.currentChar == ' ' || p.currentChar == '\t' || p.currentChar == '\n' || p.currentChar == '\r' {
 		if err := p.nextCharAfterWs(); err != nil {
-- 
2.43.0


From 535c19e5f18cf5b94e77d3bd497746d9ceaf0af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:29 +0000
Subject: [PATCH 15/35] fix: the character after a target starting with xml was
 not checked

---
 vtdxml/parser/process_lt_seen.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vtdxml/parser/process_lt_seen.go b/vtdxml/parser/process_lt_seen.go
index 10ce090..ee1bc3f 100644
--- a/vtdxml/parser/process_lt_seen.go
+++ b/vtdxml/parser/process_lt_seen.go
@@ -79,6 +79,7 @@ func (p *VtdParser) processQmSeen() (State, error) {
 			if err != nil {
 				return StateInvalid, err
 			}
+			p.reader.SetOffset(offset)
 			p.offset = offset
 		}
 		return StatePiTag, nil
-- 
2.43.0


From ed6eddc2308e3cc47aa9dbf9d3567e3793643293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:33 +0000
Subject: [PATCH 16/35] fix: an end tag before the root element panicked

---
 vtdxml/parser/process_end_tag.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vtdxml/parser/process_end_tag.go b/vtdxml/parser/process_end_tag.go
index 56a539f..2af7e28 100644
--- a/vtdxml/parser/process_end_tag.go
+++ b/vtdxml/parser/process_end_tag.go
@@ -3,6 +3,9 @@ package parser
 import "github.com/alexZaicev/go-vtd-xml/vtdxml/erroring"
 
 func (p *VtdParser) processEndTag() (State, error) {
+	if p.depth < 0 {
+		return StateInvalid, erroring.NewParseError("end tag without a start tag", p.fmtLine(), nil)
+	}
 	p.lastOffset = p.offset
 	sOffset := int(int32(p.tagStack[p.depth]))
 	sLength := int(int32(p.tagStack[p.depth] >> 32))
-- 
2.43.0


From 12eae5bc39cc3aa452f7b369dd3be5b8586fcd1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:37 +0000
Subject: [PATCH 17/35] fix: text starting with a reference after an end tag
 was read as markup

---
 vtdxml/parser/process_end_tag.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vtdxml/parser/process_end_tag.go b/vtdxml/parser/process_end_tag.go
index 2af7e28..85079c8 100644
--- a/vtdxml/parser/process_end_tag.go
+++ b/vtdxml/parser/process_end_tag.go
@@ -46,7 +46,7 @@ func (p *VtdParser) processEndTag() (State, error) {
 			if err := p.handleOtherTextChar(p.currentChar); err != nil {
 				return StateInvalid, err
 			}
-			return StateLtSeen, nil
+			return StateText, nil
 		}
 	}
 	return StateDocEnd, nil
-- 
2.43.0


From 823558004e8b967c8834582fef9900ea27a927ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:41 +0000
Subject: [PATCH 18/35] fix: an element with more than 256 attributes panicked

---
 vtdxml/parser/process_attr_name.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/vtdxml/parser/process_attr_name.go b/vtdxml/parser/process_attr_name.go
index d6dc1d8..d6c7a69 100644
--- a/vtdxml/parser/process_attr_name.go
+++ b/vtdxml/parser/process_attr_name.go
@@ -129,6 +129,9 @@ func (p *VtdParser) checkAttrUniqueness() error {
 	if !unique && p.attrCount != 0 {
 		return erroring.NewParseError(erroring.AttrNotUnique, p.fmtLine(), nil)
 	}
+	if p.attrCount == len(p.attrNameSlice) {
+		p.attrNameSlice = append(p.attrNameSlice, 0)
+	}
 	p.attrNameSlice[p.attrCount] = (p.lastOffset << 32) | p.length1
 	p.attrCount++
 	if p.nsAware && !p.isNs && p.length2 != 0 {
@@ -136,6 +139,9 @@ func (p *VtdParser) checkAttrUniqueness() error {
 		if (p.increment == 1 && p.length2 == 3 && isXml) || (p.increment == 2 && p.length2 == 6 && isXml) {
 			return nil
 		}
+		if p.prefixedAttCount == len(p.prefixedAttrNameSlice) {
+			p.prefixedAttrNameSlice = append(p.prefixedAttrNameSlice, 0)
+		}
 		p.prefixedAttrNameSlice[p.prefixedAttCount] = int64((p.lastOffset << 32) | (p.length2 << 16) | p.length1)
 		p.prefixedAttCount++
 	}
-- 
2.43.0


From b5e8674fd5ba6fb33162f2111fba5dc9767b2d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:45 +0000
Subject: [PATCH 19/35] fix: the namespace of a qualified attribute was stored
 where it is not looked up

---
 vtdxml/parser/process_attr_val.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/vtdxml/parser/process_attr_val.go b/vtdxml/parser/process_attr_val.go
index 6d00902..cbe00e7 100644
--- a/vtdxml/parser/process_attr_val.go
+++ b/vtdxml/parser/process_attr_val.go
@@ -220,7 +220,10 @@ func (p *VtdParser) qualifyAttributes() error {
 		if i < 0 {
 			return erroring.NewParseError("prefixed attribute not qualified", p.fmtLine(), nil)
 		} else {
-			p.prefixUrlSlice = append(p.prefixUrlSlice, i)
+			if j == len(p.prefixUrlSlice) {
+				p.prefixUrlSlice = append(p.prefixUrlSlice, 0)
+			}
+			p.prefixUrlSlice[j] = i
 		}
 	}
 	return nil
-- 
2.43.0


From e39067e38fa958fdc41d84a0f605bdf8ff06b4c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:49 +0000
Subject: [PATCH 20/35] fix: the prefix length of a start tag was written into
 the name length

---
 vtdxml/parser/process_start_tag.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vtdxml/parser/process_start_tag.go b/vtdxml/parser/process_start_tag.go
index 9bac2be..78bf66c 100644
--- a/vtdxml/parser/process_start_tag.go
+++ b/vtdxml/parser/process_start_tag.go
@@ -38,11 +38,11 @@ func (p *VtdParser) processStartTag() (State, error) {
 			return StateInvalid, erroring.NewParseError(erroring.TagPrefixQnameTooLong, p.fmtLine(), nil)
 		}
 		if p.shallowDepth {
-			if err := p.writeVtd(common.TokenStartingTag, p.lastOffset, (p.length2<<1)|p.length1, p.depth); err != nil {
+			if err := p.writeVtd(common.TokenStartingTag, p.lastOffset, (p.length2<<11)|p.length1, p.depth); err != nil {
 				return StateInvalid, err
 			}
 		} else {
-			if err := p.writeVtdL5(common.TokenStartingTag, p.lastOffset, (p.length2<<1)|p.length1, p.depth); err != nil {
+			if err := p.writeVtdL5(common.TokenStartingTag, p.lastOffset, (p.length2<<11)|p.length1, p.depth); err != nil {
 				return StateInvalid, err
 			}
 		}
-- 
2.43.0


From f2c5043a4a7142a72e5d3fb65dbad3c2c5c3429a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:53 +0000
Subject: [PATCH 21/35] fix: the pieces of a long text were recorded from the
 start of the document

---
 vtdxml/parser/common.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vtdxml/parser/common.go b/vtdxml/parser/common.go
index 7f10ab3..8c939e4 100644
--- a/vtdxml/parser/common.go
+++ b/vtdxml/parser/common.go
@@ -243,8 +243,8 @@ func (p *VtdParser) writeVtdL5(tokenType common.Token, offset, length, depth int
 // writeVtdText function writes token text into VTD buffer
 func (p *VtdParser) writeVtdText(tokenType common.Token, offset, length, depth int) error {
 	if length > maxTokenLength {
-		var j, rOffset int
-		for j = length; j > maxTokenLength; j -= maxTokenLength {
+		j, rOffset := length, offset
+		for ; j > maxTokenLength; j -= maxTokenLength {
 			if err := p.writeVtd(tokenType, rOffset, maxTokenLength, depth); err != nil {
 				return err
 			}
-- 
2.43.0


From 7a70799b9ba3d9521a27a9170eb6dcaf4144878e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:57 +0000
Subject: [PATCH 22/35] fix: location cache entries without children carried
 65535 instead of the no-child marker

---
 vtdxml/parser/common.go | 20 ++++++++++----------
 vtdxml/parser/parse.go  | 12 ++++++------
 2 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/vtdxml/parser/common.go b/vtdxml/parser/common.go
index 8c939e4..5e4be9d 100644
--- a/vtdxml/parser/common.go
+++ b/vtdxml/parser/common.go
@@ -146,19 +146,19 @@ func (p *VtdParser) writeVtdL5(tokenType common.Token, offset, length, depth int
 	case 1:
 		{
 			if p.lastDepth == 1 {
-				if err := p.l1Buffer.Append(int64((p.lastL1Index << 32) | 0xFFFF)); err != nil {
+				if err := p.l1Buffer.Append(int64((p.lastL1Index << 32) | 0xFFFFFFFF)); err != nil {
 					return err
 				}
 			} else if p.lastDepth == 2 {
-				if err := p.l2Buffer.Append(int64((p.lastL2Index << 32) | 0xFFFF)); err != nil {
+				if err := p.l2Buffer.Append(int64((p.lastL2Index << 32) | 0xFFFFFFFF)); err != nil {
 					return err
 				}
 			} else if p.lastDepth == 3 {
-				if err := p.l3Buffer.Append(int64((p.lastL3Index << 32) | 0xFFFF)); err != nil {
+				if err := p.l3Buffer.Append(int64((p.lastL3Index << 32) | 0xFFFFFFFF)); err != nil {
 					return err
 				}
 			} else if p.lastDepth == 4 {
-				if err := p.l4Buffer.Append(int64((p.lastL4Index << 32) | 0xFFFF)); err != nil {
+				if err := p.l4Buffer.Append(int64((p.lastL4Index << 32) | 0xFFFFFFFF)); err != nil {
 					return err
 				}
 			}
@@ -173,15 +173,15 @@ func (p *VtdParser) writeVtdL5(tokenType common.Token, offset, length, depth int
 					return err
 				}
 			} else if p.lastDepth == 2 {
-				if err := p.l2Buffer.Append(int64((p.lastL2Index << 32) | 0xFFFF)); err != nil {
+				if err := p.l2Buffer.Append(int64((p.lastL2Index << 32) | 0xFFFFFFFF)); err != nil {
 					return err
 				}
 			} else if p.lastDepth == 3 {
-				if err := p.l3Buffer.Append(int64((p.lastL3Index << 32) | 0xFFFF)); err != nil {
+				if err := p.l3Buffer.Append(int64((p.lastL3Index << 32) | 0xFFFFFFFF)); err != nil {
 					return err
 				}
 			} else if p.lastDepth == 4 {
-				if err := p.l4Buffer.Append(int64((p.lastL4Index << 32) | 0xFFFF)); err != nil {
+				if err := p.l4Buffer.Append(int64((p.lastL4Index << 32) | 0xFFFFFFFF)); err != nil {
 					return err
 				}
 			}
@@ -196,11 +196,11 @@ func (p *VtdParser) writeVtdL5(tokenType common.Token, offset, length, depth int
 					return err
 				}
 			} else if p.lastDepth == 3 {
-				if err := p.l3Buffer.Append(int64((p.lastL3Index << 32) | 0xFFFF)); err != nil {
+				if err := p.l3Buffer.Append(int64((p.lastL3Index << 32) | 0xFFFFFFFF)); err != nil {
 					return err
 				}
 			} else if p.lastDepth == 4 {
-				if err := p.l4Buffer.Append(int64((p.lastL4Index << 32) | 0xFFFF)); err != nil {
+				if err := p.l4Buffer.Append(int64((p.lastL4Index << 32) | 0xFFFFFFFF)); err != nil {
 					return err
 				}
 			}
@@ -215,7 +215,7 @@ func (p *VtdParser) writeVtdL5(tokenType common.Token, offset, length, depth int
 					return err
 				}
 			} else if p.lastDepth == 4 {
-				if err := p.l4Buffer.Append(int64((p.lastL4Index << 32) | 0xFFFF)); err != nil {
+				if err := p.l4Buffer.Append(int64((p.lastL4Index << 32) | 0xFFFFFFFF)); err != nil {
 					return err
 				}
 			}
diff --git a/vtdxml/parser/parse.go b/vtdxml/parser/parse.go
index 01be12e..73372cc 100644
--- a/vtdxml/parser/parse.go
+++ b/vtdxml/parser/parse.go
@@ -81,19 +81,19 @@ func (p *VtdParser) finishUp() error {
 	var err error
 	if p.shallowDepth {
 		if p.lastDepth == 1 {
-			err = p.l1Buffer.Append(int64((p.lastL1Index << 32) | 0xFFFF))
+			err = p.l1Buffer.Append(int64((p.lastL1Index << 32) | 0xFFFFFFFF))
 		} else if p.lastDepth == 2 {
-			err = p.l2Buffer.Append(int64((p.lastL2Index << 32) | 0xFFFF))
+			err = p.l2Buffer.Append(int64((p.lastL2Index << 32) | 0xFFFFFFFF))
 		}
 	} else {
 		if p.lastDepth == 1 {
-			err = p.l1Buffer.Append(int64((p.lastL1Index << 32) | 0xFFFF))
+			err = p.l1Buffer.Append(int64((p.lastL1Index << 32) | 0xFFFFFFFF))
 		} else if p.lastDepth == 2 {
-			err = p.l2Buffer.Append(int64((p.lastL2Index << 32) | 0xFFFF))
+			err = p.l2Buffer.Append(int64((p.lastL2Index << 32) | 0xFFFFFFFF))
 		} else if p.lastDepth == 3 {
-			err = p.l3Buffer.Append(int64((p.lastL3Index << 32) | 0xFFFF))
+			err = p.l3Buffer.Append(int64((p.lastL3Index << 32) | 0xFFFFFFFF))
 		} else if p.lastDepth == 4 {
-			err = p.l4Buffer.Append(int64((p.lastL4Index << 32) | 0xFFFF))
+			err = p.l4Buffer.Append(int64((p.lastL4Index << 32) | 0xFFFFFFFF))
 		}
 	}
 	return err
-- 
2.43.0


From 06e244391a96e3db8823705d114d6e9d1a885d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:00 +0000
Subject: [PATCH 23/35] fix: a CDATA section ended at the first ]>

---
 vtdxml/parser/process_cdata.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vtdxml/parser/process_cdata.go b/vtdxml/parser/process_cdata.go
index 1d02149..55eccdb 100644
--- a/vtdxml/parser/process_cdata.go
+++ b/vtdxml/parser/process_cdata.go
@@ -13,7 +13,7 @@ func (p *VtdParser) processCdata() (State, error) {
 		if !p.xmlChar.IsValidChar(p.currentChar) {
 			return StateInvalid, erroring.NewParseError(erroring.InvalidChar, p.fmtLine(), nil)
 		}
-		if p.currentChar == ']' {
+		if p.currentChar == ']' && p.skipChar(']') {
 			// skip all ] chars
 			for p.skipChar(']') {
 			}
-- 
2.43.0


From 8429f70fb1bca48ff08204b9d25a41a916f2a5a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:04 +0000
Subject: [PATCH 24/35] fix: text containing ]> was refused

---
 vtdxml/parser/common.go  | 12 +++++++-----
 vtdxml/parser/process.go | 12 +++++++-----
 2 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/vtdxml/parser/common.go b/vtdxml/parser/common.go
index 5e4be9d..1710e00 100644
--- a/vtdxml/parser/common.go
+++ b/vtdxml/parser/common.go
@@ -556,11 +556,13 @@ func (p *VtdParser) handleOtherTextChar(ch uint32) error {
 		}
 	case ']':
 		{
-			// skip all ] chars
-			for p.skipChar(']') {
-			}
-			if p.skipChar('>') {
-				return erroring.NewParseError("]]> sequence in text content", p.fmtLine(), nil)
+			if p.skipChar(']') {
+				// skip all ] chars
+				for p.skipChar(']') {
+				}
+				if p.skipChar('>') {
+					return erroring.NewParseError("]]> sequence in text content", p.fmtLine(), nil)
+				}
 			}
 			break
 		}
diff --git a/vtdxml/parser/process.go b/vtdxml/parser/process.go
index 6c72087..0d23ece 100644
--- a/vtdxml/parser/process.go
+++ b/vtdxml/parser/process.go
@@ -45,11 +45,13 @@ func (p *VtdParser) getNextProcessStateFromChar(ch uint32) (State, error) {
 		return StateText, nil
 	}
 	if ch == ']' {
-		// skip all ] chars
-		for p.skipChar(']') {
-		}
-		if p.skipChar('>') {
-			return StateInvalid, erroring.NewParseError("]]> sequence in text content", p.fmtLine(), nil)
+		if p.skipChar(']') {
+			// skip all ] chars
+			for p.skipChar(']') {
+			}
+			if p.skipChar('>') {
+				return StateInvalid, erroring.NewParseError("]]> sequence in text content", p.fmtLine(), nil)
+			}
 		}
 		return StateText, nil
 	}
-- 
2.43.0


From a3053745751f1a67c12c10b3bad9cb90613eaa71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:08 +0000
Subject: [PATCH 25/35] fix: comments after the root element were always
 refused

---
 vtdxml/parser/process_end_comment.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vtdxml/parser/process_end_comment.go b/vtdxml/parser/process_end_comment.go
index 84b2b20..769761d 100644
--- a/vtdxml/parser/process_end_comment.go
+++ b/vtdxml/parser/process_end_comment.go
@@ -18,6 +18,9 @@ func (p *VtdParser) processEndComment() (State, error) {
 			break
 		}
 	}
+	if err := p.nextChar(); err != nil {
+		return StateInvalid, err
+	}
 	if p.currentChar != '>' {
 		return StateInvalid, erroring.NewParseError("invalid terminating sequence, --> expected", p.fmtLine(), nil)
 	}
-- 
2.43.0


From 715dc6538ede654fa07aa3770b0279e047f9a4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:12 +0000
Subject: [PATCH 26/35] fix: a processing instruction without a value after the
 root element had to be unterminated

---
 vtdxml/parser/process_pi_end.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vtdxml/parser/process_pi_end.go b/vtdxml/parser/process_pi_end.go
index cd11eda..205be40 100644
--- a/vtdxml/parser/process_pi_end.go
+++ b/vtdxml/parser/process_pi_end.go
@@ -65,7 +65,7 @@ func (p *VtdParser) processPiEnd() (State, error) {
 				return StateInvalid, err
 			}
 		}
-		if p.currentChar != '?' || p.skipChar('>') {
+		if p.currentChar != '?' || !p.skipChar('>') {
 			return StateInvalid, erroring.NewParseError("invalid termination sequence", p.fmtLine(), nil)
 		}
 	}
-- 
2.43.0


From 887b5b5404d90c1817e8361a4f766ba3af6a743b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:44 +0000
Subject: [PATCH 27/35] fix: encoding detection read past the end of a short
 document

---
 vtdxml/parser/common.go | 38 +++++++++++++++++++++++---------------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/vtdxml/parser/common.go b/vtdxml/parser/common.go
index 1710e00..c52303a 100644
--- a/vtdxml/parser/common.go
+++ b/vtdxml/parser/common.go
@@ -344,9 +344,17 @@ func (p *VtdParser) getPrevOffset() (int, error) {
 }
 
 func (p *VtdParser) decideEncoding() error {
-	if int32(p.xmlDoc[p.offset]) == -2 {
+	// at returns the byte at the distance from the current offset, or a value
+	// no byte has when it lies outside the document
+	at := func(distance int) int32 {
+		if p.offset < 0 || p.offset+distance >= p.endOffset {
+			return 0x100
+		}
+		return int32(p.xmlDoc[p.offset+distance])
+	}
+	if at(0) == -2 {
 		p.increment = 2
-		if int32(p.xmlDoc[p.offset+1]) == -1 {
+		if at(1) == -1 {
 			p.offset += 2
 			p.encoding = common.FormatUtf16BE
 			p.bomDetected = true
@@ -354,9 +362,9 @@ func (p *VtdParser) decideEncoding() error {
 		} else {
 			return erroring.NewEncodingError("should be 0xFF 0xFE")
 		}
-	} else if int32(p.xmlDoc[p.offset]) == -1 {
+	} else if at(0) == -1 {
 		p.increment = 2
-		if int32(p.xmlDoc[p.offset+1]) == -2 {
+		if at(1) == -2 {
 			p.offset += 2
 			p.encoding = common.FormatUtf16LE
 			p.bomDetected = true
@@ -364,28 +372,28 @@ func (p *VtdParser) decideEncoding() error {
 		} else {
 			return erroring.NewEncodingError("not UTF-16LE")
 		}
-	} else if int32(p.xmlDoc[p.offset]) == 0 {
-		if int32(p.xmlDoc[p.offset+1]) == 0x3c &&
-			int32(p.xmlDoc[p.offset+2]) == 0 &&
-			int32(p.xmlDoc[p.offset+3]) == 0x3f {
+	} else if at(0) == 0 {
+		if at(1) == 0x3c &&
+			at(2) == 0 &&
+			at(3) == 0x3f {
 			p.encoding = common.FormatUtf16BE
 			p.increment = 2
 			// g.reader = reader.NewUtf16BeReader()
 		} else {
 			return erroring.NewEncodingError("not UTF-16BE")
 		}
-	} else if int32(p.xmlDoc[p.offset]) == -17 {
-		if int32(p.xmlDoc[p.offset+1]) == -69 &&
-			int32(p.xmlDoc[p.offset+2]) == -65 {
+	} else if at(0) == -17 {
+		if at(1) == -69 &&
+			at(2) == -65 {
 			p.offset += 3
 			p.mustUtf8 = true
 		} else {
 			return erroring.NewEncodingError("not UTF-8")
 		}
-	} else if int32(p.xmlDoc[p.offset]) == 0x3c {
-		if int32(p.xmlDoc[p.offset+1]) == 0 &&
-			int32(p.xmlDoc[p.offset+2]) == 0x3f &&
-			int32(p.xmlDoc[p.offset+3]) == 0 {
+	} else if at(0) == 0x3c {
+		if at(1) == 0 &&
+			at(2) == 0x3f &&
+			at(3) == 0 {
 			p.encoding = common.FormatUtf16LE
 			p.increment = 2
 			// g.reader = reader.NewUtf16LeReader()
-- 
2.43.0


From 11e51f5cf6c870c17d8d5d84125be8d2d3a6e345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:48 +0000
Subject: [PATCH 28/35] fix: character references beyond the last code point
 wrapped around to valid characters

---
 vtdxml/parser/common.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/vtdxml/parser/common.go b/vtdxml/parser/common.go
index c52303a..dd240e0 100644
--- a/vtdxml/parser/common.go
+++ b/vtdxml/parser/common.go
@@ -38,6 +38,7 @@ const (
 	maxDepth        = 254
 	maxPrefixLength = (1 << 9) - 1
 	maxQnameLength  = (1 << 11) - 1
+	maxCharValue    = 0x10FFFF
 
 	XMLNS1998 = "http://www.w3.org/XML/1998/namespace"
 	XMLNS2000 = "http://www.w3.org/2000/xmlns"
@@ -627,6 +628,9 @@ func (p *VtdParser) entityIdentifier() (uint32, error) {
 					} else {
 						return 0, erroring.NewEntityError("illegal char following &#x")
 					}
+					if value > maxCharValue {
+						return 0, erroring.NewEntityError(erroring.InvalidChar)
+					}
 				}
 			} else {
 				for {
@@ -637,6 +641,9 @@ func (p *VtdParser) entityIdentifier() (uint32, error) {
 					} else {
 						return 0, erroring.NewEntityError("illegal char following &#x")
 					}
+					if value > maxCharValue {
+						return 0, erroring.NewEntityError(erroring.InvalidChar)
+					}
 					ch, err = p.getChar()
 					if err != nil {
 						return 0, err
-- 
2.43.0


From fbabdf5691e37ec5f9b4410ce45a07f04ec840b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:21 +0000
Subject: [PATCH 29/35] fix: a document type declaration was refused before the
 root element

---
 vtdxml/parser/process_lt_seen.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/vtdxml/parser/process_lt_seen.go b/vtdxml/parser/process_lt_seen.go
index ee1bc3f..842a7ac 100644
--- a/vtdxml/parser/process_lt_seen.go
+++ b/vtdxml/parser/process_lt_seen.go
@@ -1,6 +1,10 @@
 package parser
 
-import "github.com/alexZaicev/go-vtd-xml/vtdxml/erroring"
+import (
+	"fmt"
+
+	"github.com/alexZaicev/go-vtd-xml/vtdxml/erroring"
+)
 
 func (p *VtdParser) processLtSeen() (State, error) {
 	p.lastOffset = p.offset
@@ -47,8 +51,13 @@ func (p *VtdParser) processExSeen() (State, error) {
 		p.lastOffset = p.offset
 		return StateCdata, nil
 	case 'D':
-		if err := p.validateSeq(docType); err != nil {
-			return StateInvalid, err
+		if !p.skipCharSeq(docType[1:]) {
+			return StateInvalid, erroring.NewParseError(fmt.Sprintf("invalid char sequence in %s", docType),
+				p.fmtLine(), nil)
+		}
+		if p.depth != -1 {
+			return StateInvalid, erroring.NewParseError(fmt.Sprintf("wrong place for %s", docType),
+				p.fmtLine(), nil)
 		}
 		p.lastOffset = p.offset
 		return StateDocType, nil
-- 
2.43.0


From 74f23e001f7ce73a293ccc46fa8fe2949d0b04bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:25 +0000
Subject: [PATCH 30/35] fix: reserved and equal namespace names were never
 recognised

---
 vtdxml/parser/process_attr_val.go | 97 +++++++++++++++++--------------
 1 file changed, 54 insertions(+), 43 deletions(-)

diff --git a/vtdxml/parser/process_attr_val.go b/vtdxml/parser/process_attr_val.go
index cbe00e7..e48344d 100644
--- a/vtdxml/parser/process_attr_val.go
+++ b/vtdxml/parser/process_attr_val.go
@@ -54,13 +54,13 @@ func (p *VtdParser) processAttrVal() (State, error) {
 		if err != nil {
 			return StateInvalid, err
 		}
-		if p.isXml && nsUrlType != NsUrl2000 {
+		if p.isXml && nsUrlType != NsUrl1998 {
 			return StateInvalid, erroring.NewParseError(
 				fmt.Sprintf("xmlns:xml cant only point to %s", XMLNS1998),
 				p.fmtLine(),
 				nil,
 			)
-		} else {
+		} else if !p.isXml {
 			if !p.defaultNs {
 				if err := p.nsBuffer2.Append(int64(p.lastOffset<<32 | p.length1)); err != nil {
 					return StateInvalid, err
@@ -140,50 +140,51 @@ func (p *VtdParser) identifyNsUrl() (NsUrlType, error) {
 	//  create a struct that would bring meaningful explanation about the functionality
 	// lastOffset, length1
 	g := p.lastOffset + p.length1
-	offset, tmpOffset := p.lastOffset, 0
 	if p.length1 < 29 || (p.increment == 2 && p.length1 < 58) {
 		return DefaultNsUrl, nil
 	}
 
-	for i := 0; i < 18 && offset < g; i++ {
-		ch, err := p.getCharResolved(offset)
-		if err != nil {
-			return InvalidNsUrl, err
-		}
-		if int64(URL2[i]) != ch {
-			return DefaultNsUrl, nil
-		}
-		offset += int(ch) >> 32
+	offset, matched, err := p.matchUrlPart(p.lastOffset, g, URL2[:18])
+	if err != nil {
+		return InvalidNsUrl, err
 	}
-	tmpOffset = offset
-	for i := 0; i < 11 && offset < g; i++ {
-		ch, err := p.getCharResolved(offset)
-		if err != nil {
-			return InvalidNsUrl, err
-		}
-		if int64(URL1[i]) != ch {
-			return DefaultNsUrl, nil
-		}
-		offset += int(ch) >> 32
+	if !matched {
+		return DefaultNsUrl, nil
 	}
-	if offset == g {
+	end, matched, err := p.matchUrlPart(offset, g, URL1[:11])
+	if err != nil {
+		return InvalidNsUrl, err
+	}
+	if matched && end == g {
+		return NsUrl2000, nil
+	}
+	end, matched, err = p.matchUrlPart(offset, g, URL2[18:])
+	if err != nil {
+		return InvalidNsUrl, err
+	}
+	if matched && end == g {
 		return NsUrl1998, nil
 	}
-	offset = tmpOffset
-	for i := 18; i < 36 && offset < g; i++ {
+	return DefaultNsUrl, nil
+}
+
+// matchUrlPart function compares the resolved characters between offset and
+// end with the characters of part and returns the offset following them
+func (p *VtdParser) matchUrlPart(offset, end int, part string) (int, bool, error) {
+	for i := 0; i < len(part); i++ {
+		if offset >= end {
+			return offset, false, nil
+		}
 		ch, err := p.getCharResolved(offset)
 		if err != nil {
-			return InvalidNsUrl, err
+			return offset, false, err
 		}
-		if int64(URL2[i]) != ch {
-			return DefaultNsUrl, nil
+		if int32(part[i]) != int32(ch) {
+			return offset, false, nil
 		}
-		offset += int(ch) >> 32
+		offset += int(ch >> 32)
 	}
-	if offset == g {
-		return NsUrl2000, nil
-	}
-	return DefaultNsUrl, nil
+	return offset, true, nil
 }
 
 func (p *VtdParser) qualifyAttributes() error {
@@ -343,6 +344,8 @@ func (p *VtdParser) getCharResolved(offset int) (int64, error) {
 					} else if ch == ';' {
 						inc += p.increment
 						break
+					} else {
+						return 0, erroring.NewEntityError("illegal char following &#x")
 					}
 				}
 			} else {
@@ -357,6 +360,8 @@ func (p *VtdParser) getCharResolved(offset int) (int64, error) {
 						val = val*10 + (ch - '0')
 					} else if ch == ';' {
 						break
+					} else {
+						return 0, erroring.NewEntityError("illegal char following &#")
 					}
 				}
 			}
@@ -364,10 +369,11 @@ func (p *VtdParser) getCharResolved(offset int) (int64, error) {
 		}
 	case 'a':
 		{
-			ch2, err := p.getChar()
+			ch2, err := p.getCharUnit(offset)
 			if err != nil {
 				return 0, err
 			}
+			offset += p.increment
 			if p.encoding < common.FormatUtf16BE {
 				if ch2 == 'm' {
 					// checks that the sequence matcher &amp;
@@ -381,8 +387,10 @@ func (p *VtdParser) getCharResolved(offset int) (int64, error) {
 					if err := checkSeq("os;", offset, 1); err != nil {
 						return 0, err
 					}
-					inc = 5
+					inc = 6
 					val = '\''
+				} else {
+					return 0, erroring.NewEntityError(erroring.IllegalBuiltInEntity)
 				}
 			} else {
 				if ch2 == 'm' {
@@ -399,6 +407,8 @@ func (p *VtdParser) getCharResolved(offset int) (int64, error) {
 					}
 					inc = 12
 					val = '\''
+				} else {
+					return 0, erroring.NewEntityError(erroring.IllegalBuiltInEntity)
 				}
 			}
 			break
@@ -439,11 +449,16 @@ func (p *VtdParser) getCharResolved(offset int) (int64, error) {
 			}
 			break
 		}
+	default:
+		return 0, erroring.NewEntityError("illegal entity character")
 	}
 	return int64(int(val) | (inc << 32)), nil
 }
 
 func (p *VtdParser) getCharUnit(offset int) (int32, error) {
+	if offset < 0 || offset+p.increment > p.endOffset {
+		return 0, erroring.NewInternalError(erroring.IndexOutOfRange, nil)
+	}
 	if p.encoding <= 2 {
 		return int32(p.xmlDoc[offset] & 0xff), nil
 	} else if p.encoding < common.FormatUtf16BE {
@@ -460,8 +475,8 @@ func (p *VtdParser) getCharUnit(offset int) (int32, error) {
 }
 
 func (p *VtdParser) matchUrl(a, b Url) (bool, error) {
-	for a.offset < a.offset+a.length &&
-		b.offset < b.offset+b.length {
+	endA, endB := a.offset+a.length, b.offset+b.length
+	for a.offset < endA && b.offset < endB {
 		chA, err := p.getCharResolved(a.offset)
 		if err != nil {
 			return false, err
@@ -470,15 +485,11 @@ func (p *VtdParser) matchUrl(a, b Url) (bool, error) {
 		if err != nil {
 			return false, err
 		}
-		if chA != chB {
+		if int32(chA) != int32(chB) {
 			return false, err
 		}
 		a.offset += int(chA >> 32)
 		b.offset += int(chB >> 32)
 	}
-	if a.offset == a.offset+a.length &&
-		b.offset == b.offset+b.length {
-		return true, nil
-	}
-	return false, nil
+	return a.offset == endA && b.offset == endB, nil
 }
-- 
2.43.0


From 64c46a4c38c60a18b9d136368738cc90b5d664b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:41 +0000
Subject: [PATCH 31/35] fix: documents declared as ASCII were always refused

---
 vtdxml/parser/process_dec_attr_name.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vtdxml/parser/process_dec_attr_name.go b/vtdxml/parser/process_dec_attr_name.go
index 8a4a66c..d8b2781 100644
--- a/vtdxml/parser/process_dec_attr_name.go
+++ b/vtdxml/parser/process_dec_attr_name.go
@@ -241,7 +241,7 @@ func (p *VtdParser) checkAsciiEncoding() error {
 	if !p.skipCharSeq(ascii[1:]) && !p.skipCharSeq(strings.ToUpper(ascii[1:])) {
 		return erroring.NewParseError("invalid document encoding", p.fmtLine(), nil)
 	}
-	if p.encoding < common.FormatUtf16BE || p.encoding == common.FormatUtf16LE || p.mustUtf8 {
+	if p.encoding == common.FormatUtf16BE || p.encoding == common.FormatUtf16LE || p.mustUtf8 {
 		return erroring.NewParseError("cannot switch document encoding to ASCII", p.fmtLine(), nil)
 	}
 	p.encoding = common.FormatAscii
@@ -260,7 +260,7 @@ func (p *VtdParser) checkUsAsciiEncoding() error {
 	if !p.skipCharSeq(usAscii[2:]) && !p.skipCharSeq(strings.ToUpper(usAscii[2:])) {
 		return erroring.NewParseError("invalid document encoding", p.fmtLine(), nil)
 	}
-	if p.encoding < common.FormatUtf16BE || p.encoding == common.FormatUtf16LE || p.mustUtf8 {
+	if p.encoding == common.FormatUtf16BE || p.encoding == common.FormatUtf16LE || p.mustUtf8 {
 		return erroring.NewParseError("cannot switch document encoding to US-ASCII", p.fmtLine(), nil)
 	}
 	p.encoding = common.FormatAscii
-- 
2.43.0


From f2ae8746d0ad08fd0189d2d72cf475b34c44b8f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:45 +0000
Subject: [PATCH 32/35] fix: a declaration value could end with the other kind
 of quote

---
 vtdxml/parser/process_dec_attr_name.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/vtdxml/parser/process_dec_attr_name.go b/vtdxml/parser/process_dec_attr_name.go
index d8b2781..4366ad1 100644
--- a/vtdxml/parser/process_dec_attr_name.go
+++ b/vtdxml/parser/process_dec_attr_name.go
@@ -131,6 +131,7 @@ func (p *VtdParser) processDecEncodingAttr() error {
 	if p.currentChar != '\'' && p.currentChar != '"' {
 		return erroring.NewParseError("invalid char to start attribute name", p.fmtLine(), nil)
 	}
+	quote := p.currentChar
 	p.lastOffset = p.offset
 	if err := p.nextChar(); err != nil {
 		return err
@@ -168,8 +169,8 @@ func (p *VtdParser) processDecEncodingAttr() error {
 	if err := p.nextChar(); err != nil {
 		return err
 	}
-	if p.currentChar != '\'' && p.currentChar != '"' {
-		return erroring.NewParseError("invalid char to start attribute name", p.fmtLine(), nil)
+	if p.currentChar != quote {
+		return erroring.NewParseError("attribute value not terminated properly", p.fmtLine(), nil)
 	}
 	if err := p.nextCharAfterWs(); err != nil {
 		return err
@@ -201,6 +202,7 @@ func (p *VtdParser) processDecStandaloneAttr() error {
 	if p.currentChar != '\'' && p.currentChar != '"' {
 		return erroring.NewParseError("invalid char to start attribute name", p.fmtLine(), nil)
 	}
+	quote := p.currentChar
 	if p.skipCharSeq("yes") {
 		if p.singleByteEncoding {
 			if err := p.writeVtd(common.TokenDecAttrVal, p.lastOffset, 3, p.depth); err != nil {
@@ -228,8 +230,8 @@ func (p *VtdParser) processDecStandaloneAttr() error {
 	if err := p.nextChar(); err != nil {
 		return err
 	}
-	if p.currentChar != '\'' && p.currentChar != '"' {
-		return erroring.NewParseError("invalid char to start attribute name", p.fmtLine(), nil)
+	if p.currentChar != quote {
+		return erroring.NewParseError("attribute value not terminated properly", p.fmtLine(), nil)
 	}
 	if err := p.nextCharAfterWs(); err != nil {
 		return err
-- 
2.43.0


From a5705078575b95e1444a8990da10a4bd1f3b7757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:03 +0000
Subject: [PATCH 33/35] fix: windows code page declarations were accepted and
 then ignored

---
 vtdxml/parser/process_dec_attr_name.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vtdxml/parser/process_dec_attr_name.go b/vtdxml/parser/process_dec_attr_name.go
index 4366ad1..eab91e4 100644
--- a/vtdxml/parser/process_dec_attr_name.go
+++ b/vtdxml/parser/process_dec_attr_name.go
@@ -455,7 +455,8 @@ func (p *VtdParser) setWinEncoding() error {
 	// } else {
 	// 	return erroring.NewParseError("invalid document encoding", p.fmtLine(), nil)
 	// }
-	return nil
+	// no reader for these code pages yet
+	return erroring.NewEncodingError("windows code pages are not supported")
 }
 
 func (p *VtdParser) setIsoEncoding() (int, error) {
-- 
2.43.0


From 0fd088e97b12dc2868a85cf6f515cd66dd924ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:24 +0000
Subject: [PATCH 34/35] fix: longer prefixes starting with xml or xmlns were
 taken for the reserved ones

---
 vtdxml/parser/common.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vtdxml/parser/common.go b/vtdxml/parser/common.go
index dd240e0..2db6c89 100644
--- a/vtdxml/parser/common.go
+++ b/vtdxml/parser/common.go
@@ -450,7 +450,7 @@ func (p *VtdParser) checkXmlPrefix(offset, length int, checkLength bool) bool {
 	}
 
 	if valid && checkLength {
-		valid = (p.encoding < common.FormatUtf16BE && length == 4) || length == 8
+		valid = (p.encoding < common.FormatUtf16BE && length == 4) || (p.encoding >= common.FormatUtf16BE && length == 8)
 	}
 	return valid
 }
@@ -491,7 +491,7 @@ func (p *VtdParser) checkXmlnsPrefix(offset, length int, checkLength bool) bool
 	}
 
 	if valid && checkLength {
-		valid = (p.encoding < common.FormatUtf16BE && length == 5) || length == 10
+		valid = (p.encoding < common.FormatUtf16BE && length == 5) || (p.encoding >= common.FormatUtf16BE && length == 10)
 	}
 	return valid
 }
-- 
2.43.0


From 80ec4f009545e3847de8c71878af9c35c65fd075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:54 +0000
Subject: [PATCH 35/35] fix: documents declared US-ASCII in capitals were
 refused

---
 vtdxml/parser/process_dec_attr_name.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vtdxml/parser/process_dec_attr_name.go b/vtdxml/parser/process_dec_attr_name.go
index eab91e4..cf5c095 100644
--- a/vtdxml/parser/process_dec_attr_name.go
+++ b/vtdxml/parser/process_dec_attr_name.go
@@ -150,7 +150,7 @@ func (p *VtdParser) processDecEncodingAttr() error {
 			return err
 		}
 	case 'u', 'U':
-		if p.skipChar(uint32(usAscii[1])) {
+		if p.skipChar('s') || p.skipChar('S') {
 			if err := p.checkUsAsciiEncoding(); err != nil {
 				return err
 			}
-- 
2.43.0

