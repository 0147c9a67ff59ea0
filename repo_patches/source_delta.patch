From 1eb96568bf3bb46d1ea9efcb8cd5b32c1969c1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:37 +0000
Subject: [PATCH 01/61] fix: []float64 elements were written over each other

---
 marshal/writer_any.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marshal/writer_any.go b/marshal/writer_any.go
index 775f75f..26a7a8c 100644
--- a/marshal/writer_any.go
+++ b/marshal/writer_any.go
@@ -113,7 +113,7 @@ func (w *Writer) Float32sl(i []float32) {
 func (w *Writer) Float64sl(i []float64) {
 	l := w.ensure(len(i) * 8)
 	for j := 0; j < len(i); j++ {
-		le.PutUint64(w.buf[l+j*4:], math.Float64bits(i[j]))
+		le.PutUint64(w.buf[l+j*8:], math.Float64bits(i[j]))
 	}
 	return
 }
-- 
2.43.0


From eb6baf61da9135cd5bf279cea02a3180d02ad32d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:38 +0000
Subject: [PATCH 02/61] fix: size(i64) and cnt(i64) prefixes were written in
 four bytes

---
 marshal/writer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marshal/writer.go b/marshal/writer.go
index 2b2d4d6..4d6c993 100644
--- a/marshal/writer.go
+++ b/marshal/writer.go
@@ -133,7 +133,7 @@ func (w *Writer) Intvar(i int) {
 }
 
 func (w *Writer) IntUint64(i int) {
-	w.Uint32(uint32(i))
+	w.Uint64(uint64(i))
 }
 
 func (w *Writer) IntUint32(i int) {
-- 
2.43.0


From fe776c535f793e259fe0ed77072277de120eb84b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:39 +0000
Subject: [PATCH 03/61] fix: size of a variable-length integer was one too
 small for powers of 128

---
 marshal/marshal.go | 2 +-
 marshal/writer.go  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/marshal/marshal.go b/marshal/marshal.go
index 355dac9..6282e78 100644
--- a/marshal/marshal.go
+++ b/marshal/marshal.go
@@ -153,7 +153,7 @@ var tfloat64 = reflect.TypeOf(float64(0))
 const gg = 2*1024*1024*1024 - 1
 
 func Varsize(i int) (j int) {
-	for j = 0; i > 1<<7; j++ {
+	for j = 0; i >= 1<<7; j++ {
 		i >>= 7
 	}
 	return j + 1
diff --git a/marshal/writer.go b/marshal/writer.go
index 4d6c993..4cf490c 100644
--- a/marshal/writer.go
+++ b/marshal/writer.go
@@ -79,7 +79,7 @@ func (w *Writer) Int8(i int8) {
 }
 
 func varu64size(i uint64) (j int) {
-	for j = 0; i > 1<<7; j++ {
+	for j = 0; i >= 1<<7; j++ {
 		i >>= 7
 	}
 	return j + 1
-- 
2.43.0


From 90db58312eecc734fe336f8d7a1249f1ad2ec2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:40 +0000
Subject: [PATCH 04/61] fix: cnt(i8) was accounted as two bytes in the size of
 a structure

---
 marshal/reader_reflect.go | 2 +-
 marshal/writer_reflect.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/marshal/reader_reflect.go b/marshal/reader_reflect.go
index cb770f2..0fa6bcb 100644
--- a/marshal/reader_reflect.go
+++ b/marshal/reader_reflect.go
@@ -1073,7 +1073,7 @@ Fields:
 					fr.CntRd = (*Reader).Intvar
 				case "i8":
 					if size >= 0 {
-						size += 2
+						size += 1
 					}
 					fr.CntRd = (*Reader).IntUint8
 				case "i16":
diff --git a/marshal/writer_reflect.go b/marshal/writer_reflect.go
index 9b6cad5..1cb6aeb 100644
--- a/marshal/writer_reflect.go
+++ b/marshal/writer_reflect.go
@@ -768,7 +768,7 @@ Fields:
 					fw.CntWr = (*Writer).Intvar
 				case "i8":
 					if size >= 0 {
-						size += 2
+						size += 1
 					}
 					fw.CntWr = (*Writer).IntUint8
 				case "i16":
-- 
2.43.0


From 561d2d7ab13a90f92765f8db17f3e5a26d3aceba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:41 +0000
Subject: [PATCH 05/61] fix: structures with a field of variable size were
 taken for fixed-size ones

---
 marshal/reader_reflect.go | 4 +++-
 marshal/writer_reflect.go | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/marshal/reader_reflect.go b/marshal/reader_reflect.go
index 0fa6bcb..b108729 100644
--- a/marshal/reader_reflect.go
+++ b/marshal/reader_reflect.go
@@ -1113,7 +1113,9 @@ Fields:
 			continue
 		}
 
-		if size >= 0 {
+		if fr.Sz < 0 {
+			size = -1
+		} else if size >= 0 {
 			size += fr.Sz
 		}
 
diff --git a/marshal/writer_reflect.go b/marshal/writer_reflect.go
index 1cb6aeb..4f02024 100644
--- a/marshal/writer_reflect.go
+++ b/marshal/writer_reflect.go
@@ -808,7 +808,9 @@ Fields:
 			continue
 		}
 
-		if size >= 0 {
+		if fw.Sz < 0 {
+			size = -1
+		} else if size >= 0 {
 			size += fw.Sz
 		}
 
-- 
2.43.0


From e0825645386abe0e7d090c57218a0e27b1edad9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:42 +0000
Subject: [PATCH 06/61] fix: arrays with the ber tag were written with a count
 which the reader does not expect

---
 marshal/writer_reflect.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/marshal/writer_reflect.go b/marshal/writer_reflect.go
index 4f02024..d89e9ea 100644
--- a/marshal/writer_reflect.go
+++ b/marshal/writer_reflect.go
@@ -824,6 +824,9 @@ Fields:
 					fw.TWriter = &TWriter{}
 					*fw.TWriter = *BerSlWriter
 					fw.TWriter.Type = fld.Type
+					fw.TWriter.Cnt = fld.Type.Len()
+					fw.TWriter.CntGet = nil
+					fw.TWriter.WriteAuto = fw.TWriter.Write
 				default:
 					log.Panicf("Could not apply 'ber' for array [%d]%+v", fld.Type.Len(), fld.Type.Elem())
 				}
-- 
2.43.0


From 6d8f9eca37d1fdb1327203407f09ef59f2a51088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:43 +0000
Subject: [PATCH 07/61] fix: reading a pointer field with the ber tag
 dereferenced a nil type

---
 marshal/reader_reflect.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/marshal/reader_reflect.go b/marshal/reader_reflect.go
index b108729..55b3bc5 100644
--- a/marshal/reader_reflect.go
+++ b/marshal/reader_reflect.go
@@ -1159,10 +1159,13 @@ Fields:
 				switch fld.Type.Elem().Kind() {
 				case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
 					fr.TReader = &TReader{
-						Elem: BerReader,
+						Type: fld.Type,
+						Elem: &TReader{},
 						Sz:   -1,
 						Cnt:  -1,
 					}
+					*fr.TReader.Elem = *BerReader
+					fr.TReader.Elem.Type = fld.Type.Elem()
 					fr.TReader.FillPtr()
 					fr.TReader.fillautotail()
 				default:
-- 
2.43.0


From d2d005429dfbbff89094be483673352f92eb22c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:44 +0000
Subject: [PATCH 08/61] fix: tail reading through a pointer did nothing unless
 there was an error

---
 marshal/reader_reflect.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marshal/reader_reflect.go b/marshal/reader_reflect.go
index 55b3bc5..caa7181 100644
--- a/marshal/reader_reflect.go
+++ b/marshal/reader_reflect.go
@@ -776,7 +776,7 @@ func (t *TReader) FillPtr() {
 		}
 	}
 	t.Tail = func(r *Reader, v reflect.Value) {
-		if r.Err == nil {
+		if r.Err != nil {
 			return
 		}
 		if len(r.Body) > 0 {
-- 
2.43.0


From 8862989fdba70b481c40ff02ce0eef6976ecf284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:16 +0000
Subject: [PATCH 09/61] fix: reading slice tails panicked

---
 marshal/reader.go | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/marshal/reader.go b/marshal/reader.go
index b76a066..04c76d2 100644
--- a/marshal/reader.go
+++ b/marshal/reader.go
@@ -239,10 +239,7 @@ func (r *Reader) Uint8slValTail(v reflect.Value) {
 		return
 	}
 	if v.CanAddr() {
-		//l := len(r.Body)
-		//v.Set(reflect.MakeSlice(v.Type().Elem(), l, l))
-		p := v.Addr().Interface().(*[]byte)
-		*p = r.Tail()
+		v.SetBytes(r.Tail())
 	} else {
 		r.Uint8slVal(v)
 	}
@@ -254,7 +251,7 @@ func (r *Reader) Uint16slValTail(v reflect.Value) {
 	}
 	if v.CanAddr() {
 		l := len(r.Body) / 2
-		v.Set(reflect.MakeSlice(v.Type().Elem(), l, l))
+		v.Set(reflect.MakeSlice(v.Type(), l, l))
 	}
 	r.Uint16slVal(v)
 }
@@ -265,7 +262,7 @@ func (r *Reader) Uint32slValTail(v reflect.Value) {
 	}
 	if v.CanAddr() {
 		l := len(r.Body) / 4
-		v.Set(reflect.MakeSlice(v.Type().Elem(), l, l))
+		v.Set(reflect.MakeSlice(v.Type(), l, l))
 	}
 	r.Uint32slVal(v)
 }
@@ -276,7 +273,7 @@ func (r *Reader) Uint64slValTail(v reflect.Value) {
 	}
 	if v.CanAddr() {
 		l := len(r.Body) / 8
-		v.Set(reflect.MakeSlice(v.Type().Elem(), l, l))
+		v.Set(reflect.MakeSlice(v.Type(), l, l))
 	}
 	r.Uint64slVal(v)
 }
@@ -287,7 +284,7 @@ func (r *Reader) Int8slValTail(v reflect.Value) {
 	}
 	if v.CanAddr() {
 		l := len(r.Body)
-		v.Set(reflect.MakeSlice(v.Type().Elem(), l, l))
+		v.Set(reflect.MakeSlice(v.Type(), l, l))
 	}
 	r.Int8slVal(v)
 }
@@ -298,7 +295,7 @@ func (r *Reader) Int16slValTail(v reflect.Value) {
 	}
 	if v.CanAddr() {
 		l := len(r.Body) / 2
-		v.Set(reflect.MakeSlice(v.Type().Elem(), l, l))
+		v.Set(reflect.MakeSlice(v.Type(), l, l))
 	}
 	r.Int16slVal(v)
 }
@@ -309,7 +306,7 @@ func (r *Reader) Int32slValTail(v reflect.Value) {
 	}
 	if v.CanAddr() {
 		l := len(r.Body) / 4
-		v.Set(reflect.MakeSlice(v.Type().Elem(), l, l))
+		v.Set(reflect.MakeSlice(v.Type(), l, l))
 	}
 	r.Int32slVal(v)
 }
@@ -320,7 +317,7 @@ func (r *Reader) Int64slValTail(v reflect.Value) {
 	}
 	if v.CanAddr() {
 		l := len(r.Body) / 8
-		v.Set(reflect.MakeSlice(v.Type().Elem(), l, l))
+		v.Set(reflect.MakeSlice(v.Type(), l, l))
 	}
 	r.Int64slVal(v)
 }
@@ -331,7 +328,7 @@ func (r *Reader) Float32slValTail(v reflect.Value) {
 	}
 	if v.CanAddr() {
 		l := len(r.Body) / 4
-		v.Set(reflect.MakeSlice(v.Type().Elem(), l, l))
+		v.Set(reflect.MakeSlice(v.Type(), l, l))
 	}
 	r.Float32slVal(v)
 }
@@ -342,7 +339,7 @@ func (r *Reader) Float64slValTail(v reflect.Value) {
 	}
 	if v.CanAddr() {
 		l := len(r.Body) / 8
-		v.Set(reflect.MakeSlice(v.Type().Elem(), l, l))
+		v.Set(reflect.MakeSlice(v.Type(), l, l))
 	}
 	r.Float64slVal(v)
 }
-- 
2.43.0


From f095677c91ebd4188f7e79f6b4d797fe6eca16bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:17 +0000
Subject: [PATCH 10/61] fix: a negative length read from the input made Slice
 and String panic

---
 marshal/reader.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/marshal/reader.go b/marshal/reader.go
index 04c76d2..d1903e9 100644
--- a/marshal/reader.go
+++ b/marshal/reader.go
@@ -133,7 +133,7 @@ func (r *Reader) Slice(sz int) (res []byte) {
 	if r.Err != nil {
 		return
 	}
-	if len(r.Body) < sz {
+	if sz < 0 || len(r.Body) < sz {
 		r.Err = fmt.Errorf("iproto.Reader: not enough data for Slice(%d)", sz)
 		return
 	}
@@ -146,7 +146,7 @@ func (r *Reader) String(sz int) (res string) {
 	if r.Err != nil {
 		return
 	}
-	if len(r.Body) < sz {
+	if sz < 0 || len(r.Body) < sz {
 		r.Err = fmt.Errorf("iproto.Reader: not enough data for Slice(%d)", sz)
 		return
 	}
-- 
2.43.0


From 23bdf8cac3d23617dc284e02fce647362d51af87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:18 +0000
Subject: [PATCH 11/61] fix: lengths read from the input were trusted: huge
 allocations, panics and lost errors

---
 marshal/reader_reflect.go | 49 ++++++++++++++++++++++++++++++++-------
 1 file changed, 40 insertions(+), 9 deletions(-)

diff --git a/marshal/reader_reflect.go b/marshal/reader_reflect.go
index caa7181..02194e5 100644
--- a/marshal/reader_reflect.go
+++ b/marshal/reader_reflect.go
@@ -59,7 +59,7 @@ func (r *Reader) Read(i interface{}) error {
 			*o = r.String(int(count))
 		}
 	case *[]int8:
-		if count = r.Uint32(); r.Err == nil {
+		if count = r.count(1); r.Err == nil {
 			*o = make([]int8, count)
 			r.Int8sl(*o)
 		}
@@ -68,42 +68,42 @@ func (r *Reader) Read(i interface{}) error {
 			*o = r.Slice(int(count))
 		}
 	case *[]int16:
-		if count = r.Uint32(); r.Err == nil {
+		if count = r.count(2); r.Err == nil {
 			*o = make([]int16, count)
 			r.Int16sl(*o)
 		}
 	case *[]uint16:
-		if count = r.Uint32(); r.Err == nil {
+		if count = r.count(2); r.Err == nil {
 			*o = make([]uint16, count)
 			r.Uint16sl(*o)
 		}
 	case *[]int32:
-		if count = r.Uint32(); r.Err == nil {
+		if count = r.count(4); r.Err == nil {
 			*o = make([]int32, count)
 			r.Int32sl(*o)
 		}
 	case *[]uint32:
-		if count = r.Uint32(); r.Err == nil {
+		if count = r.count(4); r.Err == nil {
 			*o = make([]uint32, count)
 			r.Uint32sl(*o)
 		}
 	case *[]int64:
-		if count = r.Uint32(); r.Err == nil {
+		if count = r.count(8); r.Err == nil {
 			*o = make([]int64, count)
 			r.Int64sl(*o)
 		}
 	case *[]uint64:
-		if count = r.Uint32(); r.Err == nil {
+		if count = r.count(8); r.Err == nil {
 			*o = make([]uint64, count)
 			r.Uint64sl(*o)
 		}
 	case *[]float32:
-		if count = r.Uint32(); r.Err == nil {
+		if count = r.count(4); r.Err == nil {
 			*o = make([]float32, count)
 			r.Float32sl(*o)
 		}
 	case *[]float64:
-		if count = r.Uint32(); r.Err == nil {
+		if count = r.count(8); r.Err == nil {
 			*o = make([]float64, count)
 			r.Float64sl(*o)
 		}
@@ -175,6 +175,15 @@ func (r *Reader) Read(i interface{}) error {
 	return r.Err
 }
 
+// count reads a count of elements of size sz and checks that they are there
+func (r *Reader) count(sz int) uint32 {
+	cnt := r.Uint32()
+	if r.Err == nil && int(cnt) > len(r.Body)/sz {
+		r.Err = fmt.Errorf("iproto.Reader: not enough data for count %d", cnt)
+	}
+	return cnt
+}
+
 func (r *Reader) ReadValueAuto(val reflect.Value) error {
 	if r.Err != nil {
 		return r.Err
@@ -450,6 +459,13 @@ func (t *TReader) WithSize(r *Reader, v reflect.Value, szrd func(*Reader) int) {
 		szrd = (*Reader).IntUint32
 	}
 	sz := szrd(r)
+	if r.Err != nil {
+		return
+	}
+	if sz < 0 || sz > len(r.Body) {
+		r.Err = fmt.Errorf("iproto.Reader: not enough data for size %d", sz)
+		return
+	}
 	if t.AutoSize != nil {
 		t.AutoSize(r, v, sz)
 		return
@@ -519,6 +535,14 @@ func (t *TReader) SetCount(v reflect.Value, cnt int) error {
 	return nil
 }
 
+// fits tells whether cnt elements could be contained in l bytes
+func (t *TReader) fits(cnt, l int) bool {
+	if t.Sz > 0 {
+		return cnt <= l/t.Sz
+	}
+	return t.Sz == 0 || t.Implements || cnt <= l
+}
+
 func (t *TReader) WithCount(r *Reader, v reflect.Value, cntrd func(*Reader) int) {
 	if r.Err != nil {
 		return
@@ -527,10 +551,17 @@ func (t *TReader) WithCount(r *Reader, v reflect.Value, cntrd func(*Reader) int)
 		cntrd = (*Reader).IntUint32
 	}
 	cnt := cntrd(r)
+	if r.Err != nil {
+		return
+	}
 	if t.AutoCount != nil {
 		t.AutoCount(r, v, cnt)
 		return
 	}
+	if cnt < 0 || (t.CntSet != nil && t.Elem != nil && !t.Elem.fits(cnt, len(r.Body))) {
+		r.Err = fmt.Errorf("iproto.Reader: not enough data for count %d", cnt)
+		return
+	}
 	if err := t.SetCount(v, cnt); err != nil {
 		r.Err = err
 		return
-- 
2.43.0


From 66d8df0895ddaaa782a0a74f2e7dcac0f69b3d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:19 +0000
Subject: [PATCH 12/61] fix: a size which is not a multiple of the element size
 desynchronised the reader

---
 marshal/reader_reflect.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/marshal/reader_reflect.go b/marshal/reader_reflect.go
index 02194e5..2b60010 100644
--- a/marshal/reader_reflect.go
+++ b/marshal/reader_reflect.go
@@ -887,6 +887,9 @@ func (t *TReader) FillSlice() {
 	if t.Elem.Sz > 0 {
 		t.SzSet = func(v reflect.Value, sz int) (bool, error) {
 			cnt := sz / t.Elem.Sz
+			if cnt*t.Elem.Sz != sz {
+				return false, fmt.Errorf("Size %d is not a multiple of the element size %d %+v", sz, t.Elem.Sz, t.Type)
+			}
 			if v.Len() != cnt {
 				v.Set(reflect.MakeSlice(t.Type, cnt, cnt))
 			}
-- 
2.43.0


From 35bfb0dc8e25066ddab6dd84407a79463cb8acf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:04 +0000
Subject: [PATCH 13/61] fix: counts of slices behind pointers and interfaces
 were not checked against the input

---
 marshal/reader_reflect.go | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/marshal/reader_reflect.go b/marshal/reader_reflect.go
index 2b60010..86c20a8 100644
--- a/marshal/reader_reflect.go
+++ b/marshal/reader_reflect.go
@@ -535,12 +535,28 @@ func (t *TReader) SetCount(v reflect.Value, cnt int) error {
 	return nil
 }
 
-// fits tells whether cnt elements could be contained in l bytes
-func (t *TReader) fits(cnt, l int) bool {
-	if t.Sz > 0 {
-		return cnt <= l/t.Sz
+// fits tells whether cnt elements of v could be contained in l bytes
+func (t *TReader) fits(v reflect.Value, cnt, l int) bool {
+	switch t.Type.Kind() {
+	case reflect.Ptr:
+		if v.IsNil() {
+			return t.Elem.fits(reflect.Zero(t.Elem.Type), cnt, l)
+		}
+		return t.Elem.fits(v.Elem(), cnt, l)
+	case reflect.Interface:
+		if v.IsNil() {
+			return true
+		}
+		el := v.Elem()
+		return ReaderFor(el.Type()).fits(el, cnt, l)
+	}
+	if t.CntSet == nil || t.Elem == nil || v.Len() == cnt {
+		return true
+	}
+	if t.Elem.Sz > 0 {
+		return cnt <= l/t.Elem.Sz
 	}
-	return t.Sz == 0 || t.Implements || cnt <= l
+	return t.Elem.Sz == 0 || t.Elem.Implements || cnt <= l
 }
 
 func (t *TReader) WithCount(r *Reader, v reflect.Value, cntrd func(*Reader) int) {
@@ -558,7 +574,7 @@ func (t *TReader) WithCount(r *Reader, v reflect.Value, cntrd func(*Reader) int)
 		t.AutoCount(r, v, cnt)
 		return
 	}
-	if cnt < 0 || (t.CntSet != nil && t.Elem != nil && !t.Elem.fits(cnt, len(r.Body))) {
+	if cnt < 0 || !t.fits(v, cnt, len(r.Body)) {
 		r.Err = fmt.Errorf("iproto.Reader: not enough data for count %d", cnt)
 		return
 	}
-- 
2.43.0


From 8b59bb3fc5b90a5952168eeaf13bfaadc15d97db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:05 +0000
Subject: [PATCH 14/61] fix: sized and counted interface fields panicked when
 the size is zero or the interface is nil

---
 marshal/reader_reflect.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/marshal/reader_reflect.go b/marshal/reader_reflect.go
index 86c20a8..0bbcef7 100644
--- a/marshal/reader_reflect.go
+++ b/marshal/reader_reflect.go
@@ -426,13 +426,16 @@ func (t *TReader) SetSize(v reflect.Value, sz int) (bool, error) {
 		if sz == 0 {
 			if !v.IsNil() {
 				if v.CanSet() {
-					v.Set(reflect.ValueOf(nil))
+					v.Set(reflect.Zero(v.Type()))
 				} else {
 					el := v.Elem()
 					rd := ReaderFor(el.Type())
 					return rd.SetSize(el, sz)
 				}
 			}
+			return true, nil
+		} else if v.IsNil() {
+			return false, fmt.Errorf("Could not read %d bytes into nil interface", sz)
 		} else {
 			el := v.Elem()
 			rd := ReaderFor(el.Type())
@@ -510,13 +513,16 @@ func (t *TReader) SetCount(v reflect.Value, cnt int) error {
 		if cnt == 0 {
 			if !v.IsNil() {
 				if v.CanSet() {
-					v.Set(reflect.ValueOf(nil))
+					v.Set(reflect.Zero(v.Type()))
 				} else {
 					el := v.Elem()
 					rd := ReaderFor(el.Type())
 					return rd.SetCount(el, cnt)
 				}
 			}
+			return nil
+		} else if v.IsNil() {
+			return fmt.Errorf("Could not read %d elements into nil interface", cnt)
 		} else {
 			el := v.Elem()
 			rd := ReaderFor(el.Type())
-- 
2.43.0


From efa2c56e96e9aa43aef42b9614c16b1d17a68af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:06 +0000
Subject: [PATCH 15/61] fix: ISetCount of pointer receivers was ignored

---
 marshal/reader_reflect.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marshal/reader_reflect.go b/marshal/reader_reflect.go
index 0bbcef7..b96aa61 100644
--- a/marshal/reader_reflect.go
+++ b/marshal/reader_reflect.go
@@ -655,7 +655,7 @@ func (t *TReader) Fill() {
 				return i.(ISetSizer).ISetSize(i, s)
 			}
 		}
-		if rt.Implements(isetcounter) {
+		if p.Implements(isetcounter) {
 			t.CntSet = func(v reflect.Value, s int) error {
 				i := v.Addr().Interface()
 				return i.(ISetCounter).ISetCount(i, s)
-- 
2.43.0


From a9b06bf151a5c585c13a6c641a0a0301915f82e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:07 +0000
Subject: [PATCH 16/61] fix: ReadWithSize ignored the size for most
 destinations and did not report mismatches

---
 marshal/reader_reflect.go | 32 ++++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/marshal/reader_reflect.go b/marshal/reader_reflect.go
index b96aa61..0a8c7db 100644
--- a/marshal/reader_reflect.go
+++ b/marshal/reader_reflect.go
@@ -212,46 +212,68 @@ func (r *Reader) ReadWithSize(i interface{}, rs func(*Reader) int) error {
 	case *int8:
 		if sz := rs(r); sz == 1 {
 			*o = r.Int8()
+		} else {
+			r.badSize(sz, 1)
 		}
 	case *uint8:
 		if sz := rs(r); sz == 1 {
 			*o = r.Uint8()
+		} else {
+			r.badSize(sz, 1)
 		}
 	case *int16:
 		if sz := rs(r); sz == 2 {
 			*o = r.Int16()
+		} else {
+			r.badSize(sz, 2)
 		}
 	case *uint16:
 		if sz := rs(r); sz == 2 {
 			*o = r.Uint16()
+		} else {
+			r.badSize(sz, 2)
 		}
 	case *int32:
 		if sz := rs(r); sz == 4 {
 			*o = r.Int32()
+		} else {
+			r.badSize(sz, 4)
 		}
 	case *uint32:
 		if sz := rs(r); sz == 4 {
 			*o = r.Uint32()
+		} else {
+			r.badSize(sz, 4)
 		}
 	case *int64:
 		if sz := rs(r); sz == 8 {
 			*o = r.Int64()
+		} else {
+			r.badSize(sz, 8)
 		}
 	case *uint64:
 		if sz := rs(r); sz == 8 {
 			*o = r.Uint64()
+		} else {
+			r.badSize(sz, 8)
 		}
 	case *float32:
 		if sz := rs(r); sz == 4 {
 			*o = r.Float32()
+		} else {
+			r.badSize(sz, 4)
 		}
 	case *float64:
 		if sz := rs(r); sz == 8 {
 			*o = r.Float64()
+		} else {
+			r.badSize(sz, 8)
 		}
 	case []byte:
 		if sz := rs(r); sz == len(o) {
 			r.Uint8sl(o)
+		} else {
+			r.badSize(sz, len(o))
 		}
 	case *[]byte:
 		sz := rs(r)
@@ -266,16 +288,22 @@ func (r *Reader) ReadWithSize(i interface{}, rs func(*Reader) int) error {
 			val = val.Elem()
 			rt := val.Type()
 			rd := ReaderFor(rt)
-			rd.Auto(r, val)
+			rd.WithSize(r, val, rs)
 		} else {
 			rt := val.Type()
 			rd := ReaderFor(rt)
-			rd.Fixed(r, val)
+			rd.WithSize(r, val, rs)
 		}
 	}
 	return r.Err
 }
 
+func (r *Reader) badSize(sz, should int) {
+	if r.Err == nil {
+		r.Err = fmt.Errorf("Size mismatch: read %d and should %d", sz, should)
+	}
+}
+
 func (r *Reader) ReadValueWithSize(val reflect.Value, rs func(*Reader) int) error {
 	if r.Err != nil {
 		return r.Err
-- 
2.43.0


From 793439262de5d842264a71b0642ae184a027d090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:08 +0000
Subject: [PATCH 17/61] fix: tail of elements which consume nothing was read
 forever

---
 marshal/reader_reflect.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/marshal/reader_reflect.go b/marshal/reader_reflect.go
index 0a8c7db..697ff1a 100644
--- a/marshal/reader_reflect.go
+++ b/marshal/reader_reflect.go
@@ -1031,7 +1031,11 @@ func (t *TReader) FillSlice() {
 				v.Set(reflect.Append(v, z))
 				c = v.Cap()
 			}
+			was := len(r.Body)
 			t.Elem.Auto(r, v.Index(l-1))
+			if r.Err == nil && len(r.Body) == was {
+				r.Err = fmt.Errorf("Could not read tail into %+v: element consumes nothing", t.Type)
+			}
 		}
 	}
 }
-- 
2.43.0


From 7134461d0ca6482d74eb4443219cd6c0337cb997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:26 +0000
Subject: [PATCH 18/61] fix: counts of ber slices were not checked against the
 input

---
 marshal/reader_reflect.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marshal/reader_reflect.go b/marshal/reader_reflect.go
index 697ff1a..b595323 100644
--- a/marshal/reader_reflect.go
+++ b/marshal/reader_reflect.go
@@ -590,7 +590,7 @@ func (t *TReader) fits(v reflect.Value, cnt, l int) bool {
 	if t.Elem.Sz > 0 {
 		return cnt <= l/t.Elem.Sz
 	}
-	return t.Elem.Sz == 0 || t.Elem.Implements || cnt <= l
+	return t.Elem.Sz == 0 || (t.Elem.Implements && t.Elem.Cnt < 0) || cnt <= l
 }
 
 func (t *TReader) WithCount(r *Reader, v reflect.Value, cntrd func(*Reader) int) {
-- 
2.43.0


From 255e7165f59b809709be92dc2f470407228bbb4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:26 +0000
Subject: [PATCH 19/61] fix: BufWriter.WriteByte emitted three stray bytes

---
 net/buf_writer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/net/buf_writer.go b/net/buf_writer.go
index 0da728b..3be011e 100644
--- a/net/buf_writer.go
+++ b/net/buf_writer.go
@@ -58,14 +58,14 @@ func (w *BufWriter) Write3Uint32(i, j, k uint32) (err error) {
 }
 
 func (w *BufWriter) WriteByte(i byte) (err error) {
-	if w.wr+4 > len(w.buf) {
+	if w.wr+1 > len(w.buf) {
 		if err = w.Flush(); err != nil {
 			return
 		}
 	}
 
 	w.buf[w.wr] = i
-	w.wr += 4
+	w.wr++
 	return
 }
 
-- 
2.43.0


From 34272a06cbf47841bb81c4fe7b4a9b43d41a6f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:26 +0000
Subject: [PATCH 20/61] fix: responses to pings carried a return code which
 their length does not count

---
 net/header.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/net/header.go b/net/header.go
index ca974bf..582892c 100644
--- a/net/header.go
+++ b/net/header.go
@@ -165,13 +165,13 @@ func (h *HeaderWriter) WriteResponse(res Response) (err error) {
 		return
 	}
 
-	switch h.rc {
-	case RC0byte:
-	case RC1byte:
+	switch {
+	case retCodeLen == 0:
+	case h.rc == RC1byte:
 		if err = h.w.WriteByte(byte(res.Code)); err != nil {
 			return
 		}
-	case RC4byte:
+	case h.rc == RC4byte:
 		if err = h.w.WriteUint32(uint32(res.Code)); err != nil {
 			return
 		}
-- 
2.43.0


From 4200979206d1dda3c468e43a77502fe27c68f08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:26 +0000
Subject: [PATCH 21/61] fix: SliceReader.ReadByte returned a zero byte without
 reading

---
 net/slice_reader.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/net/slice_reader.go b/net/slice_reader.go
index c833dff..341b7a5 100644
--- a/net/slice_reader.go
+++ b/net/slice_reader.go
@@ -55,12 +55,11 @@ func (sl *SliceReader) ReadByte() (res byte, err error) {
 		sl.buf = sl.buf[1:]
 		return
 	}
-	var buf []byte
 	var n int
-	if cap(buf) == 0 {
-		buf = make([]byte, len(sl.buf), sl.size)
+	buf := make([]byte, sl.size)
+	for n < 1 && err == nil {
+		n, err = sl.read(buf)
 	}
-	n, err = sl.read(buf)
 	if n >= 1 {
 		res = buf[0]
 		sl.buf = buf[1:n]
-- 
2.43.0


From af797b5f39bec11bb1e0ba33bb8e42e7250a7ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:41 +0000
Subject: [PATCH 22/61] fix: SliceReader panicked when the stream ended in the
 middle of a read

---
 net/slice_reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/net/slice_reader.go b/net/slice_reader.go
index 341b7a5..e83a754 100644
--- a/net/slice_reader.go
+++ b/net/slice_reader.go
@@ -43,7 +43,7 @@ func (sl *SliceReader) Read(n int) (res []byte, err error) {
 		err = nil
 	} else if l > 0 && err == io.EOF {
 		res = buf[:l]
-		sl.buf = buf[l:]
+		sl.buf = buf[l:l]
 		err = io.ErrUnexpectedEOF
 	}
 	return
-- 
2.43.0


From 0f19448cb85c83436255879e5a11bb8ee262e742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:16 +0000
Subject: [PATCH 23/61] fix: tuples with a tail could not be written

---
 sbox/writer.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/sbox/writer.go b/sbox/writer.go
index 54a7b48..f2d645c 100644
--- a/sbox/writer.go
+++ b/sbox/writer.go
@@ -175,7 +175,7 @@ func (sw *TWriter) structCnt(v reflect.Value) int {
 		return len(flds) - 1 + v.Field(flds[len(flds)-1].I).Len()
 	case TailSplit:
 		last := flds[len(flds)-1]
-		return len(flds) - 1 + v.Field(last.I).Len()*len(last.TWriter.Flds)
+		return len(flds) - 1 + v.Field(last.I).Len()*len(last.Elem.Flds)
 	}
 	return 0
 }
@@ -195,22 +195,22 @@ func (sw *TWriter) structWriter(w *marshal.Writer, v reflect.Value) {
 	case NoTail:
 	case Tail:
 		fs := &flds[n]
-		fv := v.Field(n)
+		fv := v.Field(fs.I)
 		l := fv.Len()
 		for i := 0; i < l; i++ {
 			val := fv.Index(i)
-			fs.WithSize(w, val, (*marshal.Writer).Intvar)
+			fs.Elem.WithSize(w, val, (*marshal.Writer).Intvar)
 		}
 	case TailSplit:
 		fs := &flds[n]
-		fv := v.Field(n)
+		fv := v.Field(fs.I)
 		l := fv.Len()
-		fss := fs.TWriter.Flds
+		fss := fs.Elem.Flds
 		fl := len(fss)
 		for i := 0; i < l; i++ {
 			str := fv.Index(i)
 			for j := 0; j < fl; j++ {
-				fss[i].WithSize(w, str.Field(i), (*marshal.Writer).Intvar)
+				fss[j].WithSize(w, str.Field(fss[j].I), (*marshal.Writer).Intvar)
 			}
 		}
 	}
-- 
2.43.0


From 9ca254ff7313de3d21b2da6871839cdf143038b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:16 +0000
Subject: [PATCH 24/61] fix: tuples with a tail could not be read

---
 sbox/reader.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/sbox/reader.go b/sbox/reader.go
index 58b2c54..90cb41b 100644
--- a/sbox/reader.go
+++ b/sbox/reader.go
@@ -240,7 +240,7 @@ func (sw *TReader) structAuto(r *marshal.Reader, v reflect.Value) {
 		tail := l - len(flds) + 1
 		last := flds[len(flds)-1]
 		if sw.Tail == TailSplit {
-			llast := len(last.Flds)
+			llast := len(last.Elem.Flds)
 			tail /= llast
 		}
 		last.TReader.SetCount(v.Field(last.I), tail)
@@ -265,22 +265,22 @@ func (sw *TReader) structRead(r *marshal.Reader, k int, v reflect.Value) {
 	case NoTail:
 	case Tail:
 		fs := &flds[n]
-		fv := v.Field(n)
+		fv := v.Field(fs.I)
 		l := fv.Len()
 		for i := 0; i < l && n+i < k; i++ {
 			val := fv.Index(i)
-			fs.WithSize(r, val, (*marshal.Reader).Intvar)
+			fs.Elem.WithSize(r, val, (*marshal.Reader).Intvar)
 		}
 	case TailSplit:
 		fs := &flds[n]
-		fv := v.Field(n)
+		fv := v.Field(fs.I)
 		l := fv.Len()
-		fss := fs.TReader.Flds
+		fss := fs.Elem.Flds
 		fl := len(fss)
 		for i := 0; i < l; i++ {
 			str := fv.Index(i)
 			for j := 0; j < fl && n+i*fl+j < k; j++ {
-				fss[i].WithSize(r, str.Field(i), (*marshal.Reader).Intvar)
+				fss[j].WithSize(r, str.Field(fss[j].I), (*marshal.Reader).Intvar)
 			}
 		}
 	}
-- 
2.43.0


From 906bf7fb32b22e4b50c2192652cc4edf16f8078d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:17 +0000
Subject: [PATCH 25/61] fix: reading a tuple longer than an array or a fixed
 slice panicked

---
 sbox/reader.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sbox/reader.go b/sbox/reader.go
index 90cb41b..6b4744f 100644
--- a/sbox/reader.go
+++ b/sbox/reader.go
@@ -86,7 +86,7 @@ type TReader struct {
 
 func (t *TReader) sliceFixed(r *marshal.Reader, v reflect.Value) {
 	if l := r.IntUint32(); l >= v.Len() {
-		for i := 0; i < l; i++ {
+		for i := 0; i < v.Len(); i++ {
 			t.Reader.Elem.WithSize(r, v.Index(i), (*marshal.Reader).Intvar)
 		}
 	} else {
@@ -102,7 +102,7 @@ func (t *TReader) sliceAuto(r *marshal.Reader, v reflect.Value) {
 		r.Err = fmt.Errorf("Wrong field count: expect %d, got %d", v.Len(), l)
 		return
 	}
-	for i := 0; i < l; i++ {
+	for i := 0; i < l && i < v.Len(); i++ {
 		t.Reader.Elem.WithSize(r, v.Index(i), (*marshal.Reader).Intvar)
 	}
 }
-- 
2.43.0


From 868c63d550af16dce6fc303671fa1213274b7456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:17 +0000
Subject: [PATCH 26/61] fix: field count of a tuple was trusted for allocation

---
 sbox/reader.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/sbox/reader.go b/sbox/reader.go
index 6b4744f..008ac3d 100644
--- a/sbox/reader.go
+++ b/sbox/reader.go
@@ -26,6 +26,15 @@ func oneFieldTuple(r *marshal.Reader, sz int) bool {
 	return false
 }
 
+// fieldCount reads a count of fields and checks that they could be there
+func fieldCount(r *marshal.Reader) int {
+	l := r.IntUint32()
+	if r.Err == nil && l > len(r.Body) {
+		r.Err = fmt.Errorf("Not enough data for %d fields", l)
+	}
+	return l
+}
+
 func ReadSizedTuple(r *marshal.Reader, i interface{}) error {
 	sz := r.IntUint32()
 	if r.Err == nil {
@@ -95,7 +104,10 @@ func (t *TReader) sliceFixed(r *marshal.Reader, v reflect.Value) {
 }
 
 func (t *TReader) sliceAuto(r *marshal.Reader, v reflect.Value) {
-	l := r.IntUint32()
+	l := fieldCount(r)
+	if r.Err != nil {
+		return
+	}
 	if v.CanSet() {
 		v.Set(reflect.MakeSlice(v.Type(), l, l))
 	} else if l < v.Len() {
@@ -223,7 +235,10 @@ func (sw *TReader) structAuto(r *marshal.Reader, v reflect.Value) {
 		sw.structFixed(r, v)
 		return
 	}
-	l := r.IntUint32()
+	l := fieldCount(r)
+	if r.Err != nil {
+		return
+	}
 	flds := sw.Reader.Flds
 	switch sw.Tail {
 	/*case NoTail:
-- 
2.43.0


From e986e6e40ea0a6fa5a725e6c9c584088ae936be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:18 +0000
Subject: [PATCH 27/61] fix: ReadSizedTuple lost the error about a truncated
 tuple

---
 sbox/reader.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sbox/reader.go b/sbox/reader.go
index 008ac3d..8df9dbb 100644
--- a/sbox/reader.go
+++ b/sbox/reader.go
@@ -39,7 +39,9 @@ func ReadSizedTuple(r *marshal.Reader, i interface{}) error {
 	sz := r.IntUint32()
 	if r.Err == nil {
 		rd := marshal.Reader{Body: r.Slice(sz + 4)}
-		r.Err = ReadRawTuple(&rd, i)
+		if r.Err == nil {
+			r.Err = ReadRawTuple(&rd, i)
+		}
 	}
 	return r.Err
 }
-- 
2.43.0


From 364b0e54998853998a1a9cfa0171c97d5a6f890f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:49 +0000
Subject: [PATCH 28/61] fix: reading a result into a fixed slice used the
 reader of the slice for its elements

---
 sbox/result.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sbox/result.go b/sbox/result.go
index b90b9ac..2e9a68d 100644
--- a/sbox/result.go
+++ b/sbox/result.go
@@ -86,7 +86,7 @@ func readFixedArray(r *[2]marshal.Reader, v reflect.Value, l int) int {
 	tel := v.Type().Elem()
 	switch tel.Kind() {
 	case reflect.Slice, reflect.Ptr:
-		rd := reader(v.Type())
+		rd := reader(tel)
 		ln := v.Len()
 		var i int
 		for i = 0; i < l && i < ln; i++ {
-- 
2.43.0


From 17a0ff9a094ec5e9e5612bfa0ae3cabaca4107b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:49 +0000
Subject: [PATCH 29/61] fix: reading a result into a list of destinations
 panicked

---
 sbox/result.go | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/sbox/result.go b/sbox/result.go
index 2e9a68d..3b36041 100644
--- a/sbox/result.go
+++ b/sbox/result.go
@@ -168,15 +168,12 @@ func readSlice(r *[2]marshal.Reader, v reflect.Value, l int) int {
 }
 
 func readInterfaceArray(r *[2]marshal.Reader, v reflect.Value, l int) int {
-	var i int
+	was := l
 	ln := v.Len()
-	for i = 0; i < ln && l > 0; i++ {
-		l -= readInterface(r, v.Index(i), l)
-		if r[0].Err != nil {
-			break
-		}
+	for i := 0; i < ln && l > 0 && r[0].Err == nil; i++ {
+		l -= readInterface(r, v.Index(i).Elem(), l)
 	}
-	return i
+	return was - l
 }
 
 func oneTuple(r *[2]marshal.Reader, v reflect.Value, rd *TReader) error {
-- 
2.43.0


From accdae046a3d6aa4800dae109db106b8fe5ae6c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:50 +0000
Subject: [PATCH 30/61] fix: an empty result was reported as one read tuple and
 an error

---
 sbox/result.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sbox/result.go b/sbox/result.go
index 3b36041..8ed4b2d 100644
--- a/sbox/result.go
+++ b/sbox/result.go
@@ -72,7 +72,9 @@ func readInterface(r *[2]marshal.Reader, v reflect.Value, l int) int {
 		case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64,
 			reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
 			reflect.Float32, reflect.Float64, reflect.Struct, reflect.String, reflect.Ptr:
-			oneTuple(r, el, nil)
+			if l <= 0 || oneTuple(r, el, nil) != nil {
+				return 0
+			}
 			return 1
 		}
 	case reflect.Array, reflect.Slice:
-- 
2.43.0


From 21d10885ee00335eea775b8bb7e6f8e2e17b66b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:50 +0000
Subject: [PATCH 31/61] fix: tuples after a malformed one were not read but
 reported as read

---
 sbox/result.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sbox/result.go b/sbox/result.go
index 8ed4b2d..cd30819 100644
--- a/sbox/result.go
+++ b/sbox/result.go
@@ -183,7 +183,7 @@ func oneTuple(r *[2]marshal.Reader, v reflect.Value, rd *TReader) error {
 		return r[0].Err
 	}
 	sz := r[0].IntUint32()
-	r[1].Body = r[0].Slice(sz + 4)
+	r[1] = marshal.Reader{Body: r[0].Slice(sz + 4)}
 	if r[0].Err != nil {
 		log.Printf("oneTuple header read error: %s", r[0].Err)
 		return r[0].Err
-- 
2.43.0


From 7ac7a83a1add3c8983f442ad73df691368322a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:50 +0000
Subject: [PATCH 32/61] fix: the announced number of tuples was trusted for
 allocation

---
 sbox/result.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/sbox/result.go b/sbox/result.go
index cd30819..a2ba18d 100644
--- a/sbox/result.go
+++ b/sbox/result.go
@@ -1,6 +1,7 @@
 package sbox
 
 import (
+	"fmt"
 	"log"
 	"reflect"
 	"sync/atomic"
@@ -153,13 +154,20 @@ func readSlice(r *[2]marshal.Reader, v reflect.Value, l int) int {
 		reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
 		reflect.Float32, reflect.Float64, reflect.Struct, reflect.String, reflect.Ptr:
 		rd := reader(tel)
-		v.Set(reflect.MakeSlice(v.Type(), l, l))
+		n := l
+		if max := len(r[0].Body) / 8; n > max {
+			n = max
+		}
+		v.Set(reflect.MakeSlice(v.Type(), n, n))
 		var i int
-		for ; i < l; i++ {
+		for ; i < n; i++ {
 			if oneTuple(r, v.Index(i), rd) != nil {
 				break
 			}
 		}
+		if n < l && r[0].Err == nil {
+			r[0].Err = fmt.Errorf("Not enough data for %d tuples", l)
+		}
 		return i
 	case reflect.Interface:
 		return readInterfaceArray(r, v, l)
-- 
2.43.0


From 749f1e31680cb6b88b5f0ffc56d1bf90759558a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:51 +0000
Subject: [PATCH 33/61] fix: ReadFirst took a truncated result for an empty one

---
 sbox/result.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sbox/result.go b/sbox/result.go
index a2ba18d..48ddf7f 100644
--- a/sbox/result.go
+++ b/sbox/result.go
@@ -26,6 +26,7 @@ func ReadFirst(b []byte, v interface{}) (read bool, total int, err error) {
 	r = &[2]marshal.Reader{{Body: b}, {}}
 Got:
 	total = r[0].IntUint32()
+	err = r[0].Err
 	if total > 0 {
 		sz := r[0].IntUint32()
 		if r[0].Err == nil {
-- 
2.43.0


From f1354918be9a7964c2c4181f9e4eed67d9dc5663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:51 +0000
Subject: [PATCH 34/61] fix: the number of keys did not match the keys written
 for composite keys

---
 sbox/select.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sbox/select.go b/sbox/select.go
index 279280d..f09caa2 100644
--- a/sbox/select.go
+++ b/sbox/select.go
@@ -68,7 +68,9 @@ func CountKeys(keys interface{}) int {
 	case []interface{}:
 		sum := 0
 		for _, v := range k {
-			sum += CountKeys(v)
+			if v != nil {
+				sum++
+			}
 		}
 		return sum
 	default:
-- 
2.43.0


From 207b8c93e180ed6f1a4a3d2f8b72e22bd8230b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:52 +0000
Subject: [PATCH 35/61] fix: named byte strings and byte arrays were written as
 many select keys

---
 sbox/select.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sbox/select.go b/sbox/select.go
index f09caa2..472e135 100644
--- a/sbox/select.go
+++ b/sbox/select.go
@@ -90,7 +90,7 @@ func CountKeysValues(v reflect.Value) int {
 		reflect.Struct, reflect.String:
 		return 1
 	case reflect.Array, reflect.Slice:
-		if v.Kind() == reflect.Uint8 {
+		if v.Type().Elem().Kind() == reflect.Uint8 {
 			return 1
 		}
 		return v.Len()
@@ -163,11 +163,11 @@ func WriteKeysValues(w *marshal.Writer, v reflect.Value) {
 		wr.Write(w, v)
 	case reflect.Array, reflect.Slice:
 		l := v.Len()
-		switch v.Kind() {
+		switch v.Type().Elem().Kind() {
 		case reflect.Uint8:
 			wr := writer(v.Type())
 			wr.Write(w, v)
-		case reflect.Struct, reflect.Array, reflect.Slice,
+		case reflect.Struct, reflect.Array, reflect.Slice, reflect.String,
 			reflect.Uint16, reflect.Uint32, reflect.Uint64,
 			reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
 			reflect.Float32, reflect.Float64, reflect.Ptr:
-- 
2.43.0


From 88a5bda1991e1d4746255b370387bcbea0348bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:52 +0000
Subject: [PATCH 36/61] fix: an update operation without a value panicked

---
 sbox/modify.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sbox/modify.go b/sbox/modify.go
index 7227f9f..fc28dda 100644
--- a/sbox/modify.go
+++ b/sbox/modify.go
@@ -120,6 +120,8 @@ func (o Op) IWrite(w *marshal.Writer) {
 		w.Write(opmap[o.Op])
 	}
 	switch v := o.Val.(type) {
+	case nil:
+		w.Intvar(0)
 	case uint32:
 		w.Int8(4)
 		w.Uint32(v)
-- 
2.43.0


From b06721c1964cbdd321ab8872066aa7813f706653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:31 +0000
Subject: [PATCH 37/61] fix: sbox tags of fields were ignored while reading

---
 marshal/reader_reflect.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marshal/reader_reflect.go b/marshal/reader_reflect.go
index b595323..70f160a 100644
--- a/marshal/reader_reflect.go
+++ b/marshal/reader_reflect.go
@@ -1094,7 +1094,7 @@ Fields:
 		if nosize {
 			log.Panicf("Only last field could be marked as size(no) or cnt(no) %+v", rt)
 		}
-		fr := FieldReader{I: i}
+		fr := FieldReader{I: i, Tag: fld.Tag}
 		ipro := fld.Tag.Get("iproto")
 		var ber bool
 
-- 
2.43.0


From 5eafee74b4f9b07b3408a2763495061b0c2ff008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:43 +0000
Subject: [PATCH 38/61] fix: Context.Child never reported success, so Go and
 friends never ran their function

---
 context.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/context.go b/context.go
index 80a085e..565f992 100644
--- a/context.go
+++ b/context.go
@@ -214,6 +214,7 @@ func (c *Context) Child() (child *Context, ok bool) {
 	child = &Context{parent: c}
 	rc := CxState(atomic.LoadUint32((*uint32)(&c.State)))
 	if rc == 0 {
+		ok = true
 		c.AddCanceler(child)
 	} else {
 		child.Cancel()
-- 
2.43.0


From 846aa10073fd55f19f876cad547690fd9f461f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:44 +0000
Subject: [PATCH 39/61] fix: a canceler added while its context was being
 cancelled could be missed

---
 context.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/context.go b/context.go
index 565f992..414f122 100644
--- a/context.go
+++ b/context.go
@@ -105,8 +105,12 @@ func (c *Context) AddCanceler(cn Canceler) {
 }
 
 func (c *Context) cancelAll() {
-	for len(c.cancelsm) > 0 || c.cancelsn > 0 {
+	for {
 		c.m.Lock()
+		if len(c.cancelsm) == 0 && c.cancelsn == 0 {
+			c.m.Unlock()
+			break
+		}
 		cancels := make([]Canceler, 0, len(c.cancels)+c.cancelsn)
 		for i := 0; i < len(c.cancels); i++ {
 			if c.cancels[i] != nil {
-- 
2.43.0


From 6c589dfe8c4e0db11bb13380a2852ba5218f71df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:44 +0000
Subject: [PATCH 40/61] fix: only one of several goroutines in Context.WaitAll
 was woken

---
 context.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/context.go b/context.go
index 414f122..ed4ff51 100644
--- a/context.go
+++ b/context.go
@@ -72,7 +72,7 @@ func (c *Context) RemoveCanceler(cn Canceler) {
 		delete(c.cancelsm, cn)
 	}
 	if c.cancelsn == 0 && len(c.cancelsm) == 0 {
-		c.childCond.Signal()
+		c.childCond.Broadcast()
 	}
 	c.m.Unlock()
 }
-- 
2.43.0


From 3c9fbb89daff1198dc58bec1d48b4ef9c1a9b58e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:45 +0000
Subject: [PATCH 41/61] fix: the wake up of a timer heap was lost when it came
 before the heap waited

---
 custom_timer.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/custom_timer.go b/custom_timer.go
index 4f60ff7..43cb986 100644
--- a/custom_timer.go
+++ b/custom_timer.go
@@ -104,7 +104,11 @@ func newHeap(i uint32) *tHeap {
 }
 
 func (h *tHeap) loop() {
-	t := time.AfterFunc(time.Hour, h.c.Signal)
+	t := time.AfterFunc(time.Hour, func() {
+		h.m.Lock()
+		h.c.Signal()
+		h.m.Unlock()
+	})
 	h.m.Lock()
 Loop:
 	for {
-- 
2.43.0


From 079ec0ae87f35836a67c8590a9ae1212924b14f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:46 +0000
Subject: [PATCH 42/61] fix: requests queued in a stopped ParallelService were
 never answered

---
 parallel_service.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parallel_service.go b/parallel_service.go
index 6267c6a..fa8768d 100644
--- a/parallel_service.go
+++ b/parallel_service.go
@@ -97,7 +97,7 @@ Loop:
 		if req, ok = <-serv.ReceiveChan(); !ok {
 			break
 		}
-		req.Respond(RcShutdown, nil)
+		req.ShutDown()
 	}
 }
 
-- 
2.43.0


From 227b9c0b9dfbb4567c2ee6f9a498b074fcb6ae2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:47 +0000
Subject: [PATCH 43/61] fix: MultiRequest.Each sent to a closed channel when
 answers arrived at the same time

---
 wait_group.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/wait_group.go b/wait_group.go
index 1a4d011..cfac8a1 100644
--- a/wait_group.go
+++ b/wait_group.go
@@ -126,18 +126,20 @@ func (w *MultiRequest) Each() <-chan *Response {
 		w.gen.Release()
 	}
 	w.setKind(mrChan)
-	w.ch = make(chan *Response, w.r)
+	ch := make(chan *Response, w.r)
 
 	for _, resp := range w.responses {
 		w.requests[resp.Id] = nil
-		w.ch <- resp
+		ch <- resp
 	}
 	w.responses = nil
-	if w.c == w.r {
-		close(w.ch)
-	}
+	done := w.c == w.r
+	w.ch = ch
 	w.m.Unlock()
-	return w.ch
+	if done {
+		close(ch)
+	}
+	return ch
 }
 
 func (w *MultiRequest) Results() MultiResponse {
-- 
2.43.0


From a96c638ae27c97571fd538e91b46906d423ea40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:47 +0000
Subject: [PATCH 44/61] fix: MultiRequest.Each of an already answered group
 left it registered in its context

---
 wait_group.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/wait_group.go b/wait_group.go
index cfac8a1..52fed26 100644
--- a/wait_group.go
+++ b/wait_group.go
@@ -137,7 +137,11 @@ func (w *MultiRequest) Each() <-chan *Response {
 	w.ch = ch
 	w.m.Unlock()
 	if done {
+		w.timer.Stop()
 		close(ch)
+		if w.cx != nil {
+			w.cx.RemoveCanceler(w)
+		}
 	}
 	return ch
 }
-- 
2.43.0


From 034a0cd2dca37012c2f4eeb84bb6260dde6cd822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:48 +0000
Subject: [PATCH 45/61] fix: MultiRequest cancellation dereferenced a member
 answered at the same time

---
 wait_group.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wait_group.go b/wait_group.go
index 52fed26..03cab5a 100644
--- a/wait_group.go
+++ b/wait_group.go
@@ -221,8 +221,8 @@ func (w *MultiRequest) performFailAll() {
 	w.m.Unlock()
 
 	for i := 0; i < r; i++ {
-		if allReqs[i] != nil {
-			w.performFail(allReqs[i])
+		if req := allReqs[i]; req != nil {
+			w.performFail(req)
 		}
 	}
 }
-- 
2.43.0


From 622ae1ae31bb8b6ac59c0ac45efe644a598afcd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:08 +0000
Subject: [PATCH 46/61] fix: BalancerPoint.AddChild right after Run made the
 balancer panic

---
 balancer.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/balancer.go b/balancer.go
index f7e3aff..32a2347 100644
--- a/balancer.go
+++ b/balancer.go
@@ -1,7 +1,10 @@
 package iproto
 
+import "sync"
+
 type BalancerPoint struct {
 	SimplePoint
+	m        sync.Mutex
 	children []EndPoint
 }
 
@@ -10,17 +13,25 @@ func (b *BalancerPoint) Init() {
 }
 
 func (b *BalancerPoint) AddChild(ch EndPoint) {
+	b.m.Lock()
+	defer b.m.Unlock()
 	b.children = append(b.children, ch)
 	if b.Runned() {
-		ch.Run(b.b.ch)
+		b.RunChild(ch)
 	}
 }
 
 func (b *BalancerPoint) Loop() {
+	b.m.Lock()
 	for _, ch := range b.children {
-		b.RunChild(ch)
+		if !ch.Runned() {
+			b.RunChild(ch)
+		}
 	}
+	b.m.Unlock()
 	<-b.ExitChan()
+	b.m.Lock()
+	defer b.m.Unlock()
 	for _, ch := range b.children {
 		ch.Stop()
 	}
-- 
2.43.0


From 7e49f42d451979970480fbada1b129b050b48d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:09 +0000
Subject: [PATCH 47/61] fix: sending to a stopped end point with a full queue
 panicked

---
 buffer.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/buffer.go b/buffer.go
index a33e3c8..cc4b9f0 100644
--- a/buffer.go
+++ b/buffer.go
@@ -36,6 +36,7 @@ type Buffer struct {
 	ch         chan *Request
 	onExit     func()
 	set        chan bool
+	closed     bool
 	m          sync.Mutex
 	rows       map[uint64]*bufferRow
 	head, tail uint64
@@ -78,13 +79,24 @@ func (b *Buffer) push(r *Request) {
 	} else {
 		middle.state = bsFree
 	}
-	select {
-	case b.set <- true:
-	default:
+	b.m.Lock()
+	closed := b.closed
+	if !closed {
+		select {
+		case b.set <- true:
+		default:
+		}
+	}
+	b.m.Unlock()
+	if closed {
+		r.ShutDown()
 	}
 }
 
 func (b *Buffer) close() {
+	b.m.Lock()
+	defer b.m.Unlock()
+	b.closed = true
 	select {
 	case b.set <- true:
 	default:
-- 
2.43.0


From 2c1a60a427820e4fb8810cc317aa200723f5bf99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:49 +0000
Subject: [PATCH 48/61] fix: SetInFly with and without a bookmark could both
 take the same request

---
 request.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/request.go b/request.go
index c4da8a6..c467944 100644
--- a/request.go
+++ b/request.go
@@ -87,10 +87,8 @@ func (r *Request) SetInFly(mid RequestBookmark) (set bool) {
 		return r.cas(RsPending, RsInFly)
 	} else {
 		r.Lock()
-		if r.state == RsPending {
-			r.state = RsInFly
+		if set = r.cas(RsPending, RsInFly); set {
 			mid.setReq(r, mid)
-			set = true
 		}
 		r.Unlock()
 	}
-- 
2.43.0


From 0b3f0465fabffcbf29d37d1e625d227dde0443b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:58 +0000
Subject: [PATCH 49/61] fix: server connection deadlocked when its outgoing
 queue was full

---
 net/server/connection.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/net/server/connection.go b/net/server/connection.go
index 7e99713..e8d4958 100644
--- a/net/server/connection.go
+++ b/net/server/connection.go
@@ -92,6 +92,7 @@ CodeEnd:
 			case conn.out <- nt.Response(*r):
 				conn.Unlock()
 				return
+			default:
 			}
 		}
 		conn.buf = append(conn.buf, nt.Response(*r))
-- 
2.43.0


From 1bfda1f25992eb6fc73441db249cb20cf6d4e08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:59 +0000
Subject: [PATCH 50/61] fix: server connection closed its outgoing queue twice

---
 net/server/connection.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/net/server/connection.go b/net/server/connection.go
index e8d4958..504187b 100644
--- a/net/server/connection.go
+++ b/net/server/connection.go
@@ -144,7 +144,7 @@ func (conn *Connection) controlLoop() {
 				conn.conn.CloseRead()
 			}
 		case inFlyEmpty:
-			close(conn.out)
+			/* writeLoop has already exited, no one is waiting on conn.out */
 		}
 
 		if conn.state&CsClosed == CsClosed {
-- 
2.43.0


From 29ad4c5fff40befb0d2b21331fe1d5ac8846b5c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:00 +0000
Subject: [PATCH 51/61] fix: server connection reported its end twice and
 blocked forever

---
 net/server/connection.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/net/server/connection.go b/net/server/connection.go
index 504187b..3ab73e1 100644
--- a/net/server/connection.go
+++ b/net/server/connection.go
@@ -114,7 +114,6 @@ func (conn *Connection) cancelInFly() {
 	for _, req := range reqs {
 		req.Cancel()
 	}
-	conn.Server.connClosed <- conn.Id
 }
 
 func (conn *Connection) closed() {
-- 
2.43.0


From 966dcfce24d92ca3645a971d19866f0725fe2ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:37 +0000
Subject: [PATCH 52/61] fix: SimplePoint.Stop blocked forever when loop has
 already seen it or exited

---
 service.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/service.go b/service.go
index 5fa1b3d..1d3168e 100644
--- a/service.go
+++ b/service.go
@@ -113,7 +113,7 @@ func (s *SimplePoint) RunChild(p EndPoint) {
 
 func (s *SimplePoint) Init(p PointLoop) {
 	s.PointLoop = p
-	s.exit = make(chan bool)
+	s.exit = make(chan bool, 1)
 }
 
 func (s *SimplePoint) ExitChan() <-chan bool {
-- 
2.43.0


From 861e4a114e31c01af80dc4777ddbc76401cc884f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:37 +0000
Subject: [PATCH 53/61] fix: client connection crashed on a response no one
 waits for, and did not close for a reserved id

---
 net/client/connection/connection.go     |  1 +
 net/client/connection/request_holder.go | 26 +++++++++++++++++--------
 2 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/net/client/connection/connection.go b/net/client/connection/connection.go
index e69ce0c..0ec86f7 100644
--- a/net/client/connection/connection.go
+++ b/net/client/connection/connection.go
@@ -289,6 +289,7 @@ Loop:
 			if !request.SetInFly(req) {
 				continue
 			}
+			conn.inFly.setInFly(req)
 			requestHeader = nt.Request{
 				Msg:  request.Msg,
 				Id:   req.fakeId,
diff --git a/net/client/connection/request_holder.go b/net/client/connection/request_holder.go
index d569d42..8986c32 100644
--- a/net/client/connection/request_holder.go
+++ b/net/client/connection/request_holder.go
@@ -1,7 +1,6 @@
 package connection
 
 import (
-	"log"
 	"sync"
 	"sync/atomic"
 
@@ -11,6 +10,7 @@ import (
 type Request struct {
 	iproto.Bookmark
 	fakeId uint32
+	inFly  uint32
 }
 
 const (
@@ -45,7 +45,6 @@ func (h *RequestHolder) init() {
 }
 
 func (h *RequestHolder) getNext(conn *Connection) (req *Request) {
-	h.got++
 	for {
 		id := atomic.AddUint32(&h.curId, 1)
 		big := id >> rowLogN
@@ -68,20 +67,32 @@ func (h *RequestHolder) getNext(conn *Connection) (req *Request) {
 	}
 }
 
+// setInFly marks that answer for a request is expected
+func (h *RequestHolder) setInFly(req *Request) {
+	h.got++
+	atomic.StoreUint32(&req.inFly, 1)
+}
+
 func (h *RequestHolder) remove(fakeId uint32) (ireq *iproto.Request) {
-	var ok bool
 	big := fakeId >> rowLogN
 	if h.lastBig != big {
 		h.Lock()
-		if h.last, ok = h.reqs[big]; !ok {
-			h.Unlock()
-			log.Panicf("Map has no RequestRow for %d", fakeId)
+		row, ok := h.reqs[big]
+		h.Unlock()
+		if !ok {
+			return nil
 		}
+		h.last = row
 		h.lastBig = big
-		h.Unlock()
 	}
 
 	reqs := h.last
+	req := &reqs.reqs[fakeId&rowMask]
+	if atomic.LoadUint32(&req.inFly) == 0 {
+		/* no one waits for this response */
+		return nil
+	}
+	req.inFly = 0
 	reqs.freed++
 	border := big == 0 || big == uint32(iproto.PingRequestId>>8)
 	if reqs.freed == rowN || (reqs.freed == rowN1 && border) {
@@ -90,7 +101,6 @@ func (h *RequestHolder) remove(fakeId uint32) (ireq *iproto.Request) {
 		h.Unlock()
 	}
 
-	req := &reqs.reqs[fakeId&rowMask]
 	req.fakeId = 0
 	ireq = req.Request
 	h.put++
-- 
2.43.0


From 60e743f4db015f7fff41962e6519a027e4784076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:38 +0000
Subject: [PATCH 54/61] fix: client connection did not fail requests in flight
 when read side ended until next write

---
 net/client/connection/connection.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/net/client/connection/connection.go b/net/client/connection/connection.go
index 0ec86f7..f9ff1d7 100644
--- a/net/client/connection/connection.go
+++ b/net/client/connection/connection.go
@@ -89,6 +89,7 @@ func NewConnection(conf *CConf, id uint64) (conn *Connection) {
 		CConf: conf,
 		Id:    id,
 
+		closeWrite: make(chan bool),
 		loopNotify: make(chan notifyAction, 2),
 		State:      CsNew,
 	}
@@ -164,6 +165,7 @@ func (conn *Connection) controlLoop() {
 		case readClosed:
 			conn.State &= CsClosed
 			conn.State |= CsReadClosed
+			close(conn.closeWrite)
 			if conn.State&CsWriteClosed == 0 {
 				conn.conn.CloseWrite()
 			}
@@ -277,6 +279,8 @@ Loop:
 			case <-conn.ExitChan():
 				conn.shutdown = true
 				break Loop
+			case <-conn.closeWrite:
+				break Loop
 			}
 		}
 
-- 
2.43.0


From 85ed5e8296f68b7fc4962e371b785ccd2595ff86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:39 +0000
Subject: [PATCH 55/61] fix: configured dial timeout were ignored

---
 net/client/connection/connection.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/net/client/connection/connection.go b/net/client/connection/connection.go
index f9ff1d7..c7e9ffd 100644
--- a/net/client/connection/connection.go
+++ b/net/client/connection/connection.go
@@ -102,7 +102,10 @@ func NewConnection(conf *CConf, id uint64) (conn *Connection) {
 const DialTimeout = 5 * time.Second
 
 func (conn *Connection) Loop() {
-	dialer := net.Dialer{Timeout: DialTimeout}
+	dialer := net.Dialer{Timeout: conn.DialTimeout}
+	if dialer.Timeout == 0 {
+		dialer.Timeout = DialTimeout
+	}
 	conn.State = CsDialing
 	if netconn, err := dialer.Dial(conn.Network, conn.Address); err != nil {
 		conn.ConnErr <- Error{conn, Dial, err}
-- 
2.43.0


From f75f9cc28e56c7363fdc4f36440da9438affc26a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:51 +0000
Subject: [PATCH 56/61] fix: client counted stopped connections twice, so it
 lost their events and did not keep number of connections

---
 net/client/connection/connection.go |  2 +-
 net/client/server.go                | 40 ++++++++++++++++-------------
 2 files changed, 23 insertions(+), 19 deletions(-)

diff --git a/net/client/connection/connection.go b/net/client/connection/connection.go
index c7e9ffd..0b7de49 100644
--- a/net/client/connection/connection.go
+++ b/net/client/connection/connection.go
@@ -252,8 +252,8 @@ func (conn *Connection) writeLoop() {
 				conn.conn.CloseWrite()
 			}
 		}
-		conn.notifyLoop(writeClosed)
 		conn.ConnErr <- Error{conn, Write, err}
+		conn.notifyLoop(writeClosed)
 	}()
 
 	var req *Request
diff --git a/net/client/server.go b/net/client/server.go
index eb5cd3f..932ed7a 100644
--- a/net/client/server.go
+++ b/net/client/server.go
@@ -35,7 +35,8 @@ type Server struct {
 
 	iproto.SimplePoint
 
-	connections map[uint64]*connection.Connection
+	connections map[uint64]*connection.Connection // dialing and established
+	stopping    map[uint64]bool                   // those of them which were told to stop
 	curId       uint64
 	needConns   int
 	dialing     int
@@ -77,6 +78,7 @@ func (cfg ServerConfig) NewServer() (serv *Server) {
 		connErr:     make(chan connection.Error, 4),
 		actions:     make(chan action, 1),
 		connections: make(map[uint64]*connection.Connection),
+		stopping:    make(map[uint64]bool),
 	}
 
 	serv.SimplePoint.Init(serv)
@@ -86,7 +88,7 @@ func (cfg ServerConfig) NewServer() (serv *Server) {
 }
 
 func (serv *Server) fixConnections() {
-	needConn := serv.needConns - (serv.dialing + serv.established)
+	needConn := serv.needConns - (serv.dialing + serv.established - len(serv.stopping))
 	for ; needConn > 0; needConn-- {
 		serv.curId++
 		conn := connection.NewConnection(&serv.CConf, serv.curId)
@@ -95,16 +97,14 @@ func (serv *Server) fixConnections() {
 		serv.dialing++
 	}
 	if needConn < 0 {
-		for _, conn := range serv.connections {
-			switch conn.State {
-			case connection.CsDialing:
-				conn.Stop()
-				serv.dialing--
-				needConn++
-			case connection.CsConnected:
-				conn.Stop()
-				serv.established--
-				needConn++
+		for id, conn := range serv.connections {
+			if !serv.stopping[id] {
+				switch conn.State {
+				case connection.CsDialing, connection.CsConnected:
+					conn.Stop()
+					serv.stopping[id] = true
+					needConn++
+				}
 			}
 			if needConn == 0 {
 				break
@@ -134,7 +134,7 @@ func (serv *Server) Loop() {
 			serv.fixConnections()
 		}
 
-		if serv.exiting && serv.established+serv.dialing == 0 {
+		if serv.exiting && serv.established+serv.dialing+serv.dying == 0 {
 			serv.reconnecter.Stop()
 			break
 		}
@@ -145,7 +145,9 @@ func (serv *Server) onAction(action action) {
 	switch action.kind {
 	case setServ:
 		serv.Connections = action.servs
-		serv.needConns = action.servs
+		if !serv.exiting {
+			serv.needConns = action.servs
+		}
 	}
 }
 
@@ -167,6 +169,7 @@ func (serv *Server) onConnError(connErr connection.Error) {
 				log.Panicf("Unknown connection failed %+v", conn)
 			}
 			delete(serv.connections, conn.Id)
+			delete(serv.stopping, conn.Id)
 			if serv.established == 0 && serv.Standalone() {
 				serv.AllDisconnected()
 			}
@@ -175,16 +178,17 @@ func (serv *Server) onConnError(connErr connection.Error) {
 		log.Printf("%s: write side closed %v -> %v", serv.conf.Name, conn.LocalAddr(), conn.RemoteAddr())
 		serv.established--
 		serv.dying++
+		if _, ok := serv.connections[conn.Id]; !ok {
+			log.Panicf("Unknown connection failed %+v", conn)
+		}
+		delete(serv.connections, conn.Id)
+		delete(serv.stopping, conn.Id)
 		if serv.established == 0 && serv.Standalone() {
 			serv.AllDisconnected()
 		}
 	case connection.Read:
 		log.Printf("%s: read side closed %v -> %v", serv.conf.Name, conn.LocalAddr(), conn.RemoteAddr())
 		serv.dying--
-		if _, ok := serv.connections[conn.Id]; !ok {
-			log.Panicf("Unknown connection failed %+v", conn)
-		}
-		delete(serv.connections, conn.Id)
 	}
 }
 
-- 
2.43.0


From 5acf16f2333b0354471d1031d5dbdb84cf5aca3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:51 +0000
Subject: [PATCH 57/61] fix: requests queued in a client which was stopped
 without connections were never answered

---
 net/client/server.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/net/client/server.go b/net/client/server.go
index 932ed7a..f572513 100644
--- a/net/client/server.go
+++ b/net/client/server.go
@@ -136,6 +136,9 @@ func (serv *Server) Loop() {
 
 		if serv.exiting && serv.established+serv.dialing+serv.dying == 0 {
 			serv.reconnecter.Stop()
+			if serv.Standalone() {
+				serv.AllDisconnected()
+			}
 			break
 		}
 	}
-- 
2.43.0


From d650665a6c8a1a897191bf11f56a2f0be403c81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:02 +0000
Subject: [PATCH 58/61] fix: pointers and interfaces of types with their own
 encoding panicked with a size or a count

---
 marshal/reader_reflect.go | 24 ++++++++++++++----------
 marshal/writer_reflect.go | 21 ++++++++++++++-------
 2 files changed, 28 insertions(+), 17 deletions(-)

diff --git a/marshal/reader_reflect.go b/marshal/reader_reflect.go
index 70f160a..e197d6b 100644
--- a/marshal/reader_reflect.go
+++ b/marshal/reader_reflect.go
@@ -640,16 +640,18 @@ func (t *TReader) fillautotail() {
 func (t *TReader) Fill() {
 	defer t.fillautotail()
 	rt := t.Type
-	if rt.Implements(ireader) {
+	if rt.Kind() != reflect.Ptr && rt.Implements(ireader) {
 		t.Implements = true
 		t.Fixed = func(r *Reader, v reflect.Value) {
-			i := v.Interface()
-			i.(IReader).IRead(i, r)
+			if i, ok := v.Interface().(IReader); ok {
+				i.IRead(i, r)
+			}
 		}
 		if rt.Implements(ireadtailer) {
 			t.Tail = func(r *Reader, v reflect.Value) {
-				i := v.Interface()
-				i.(IReadTailer).IReadTail(i, r)
+				if i, ok := v.Interface().(IReadTailer); ok {
+					i.IReadTail(i, r)
+				}
 			}
 		}
 		if rt.Implements(isetsizer) {
@@ -690,16 +692,18 @@ func (t *TReader) Fill() {
 			}
 		}
 		return
-	} else if rt.Implements(ishortreader) {
+	} else if rt.Kind() != reflect.Ptr && rt.Implements(ishortreader) {
 		t.Implements = true
 		t.Fixed = func(r *Reader, v reflect.Value) {
-			i := v.Interface().(IShortReader)
-			i.IRead(r)
+			if i, ok := v.Interface().(IShortReader); ok {
+				i.IRead(r)
+			}
 		}
 		if rt.Implements(ishortreadtailer) {
 			t.Tail = func(r *Reader, v reflect.Value) {
-				i := v.Interface()
-				i.(IShortReadTailer).IReadTail(r)
+				if i, ok := v.Interface().(IShortReadTailer); ok {
+					i.IReadTail(r)
+				}
 			}
 		}
 		if rt.Implements(ishortsetsizer) {
diff --git a/marshal/writer_reflect.go b/marshal/writer_reflect.go
index d89e9ea..894c4ba 100644
--- a/marshal/writer_reflect.go
+++ b/marshal/writer_reflect.go
@@ -281,8 +281,10 @@ func (t *TWriter) Size(v reflect.Value) int {
 		if v.IsNil() {
 			return 0
 		}
-		t = t.Elem
-		v = v.Elem()
+		if t.Elem != nil {
+			t = t.Elem
+			v = v.Elem()
+		}
 	case reflect.Interface:
 		if v.IsNil() {
 			return 0
@@ -329,8 +331,10 @@ func (t *TWriter) Count(v reflect.Value) int {
 		if v.IsNil() {
 			return 0
 		}
-		t = t.Elem
-		v = v.Elem()
+		if t.Elem != nil {
+			t = t.Elem
+			v = v.Elem()
+		}
 	case reflect.Interface:
 		if v.IsNil() {
 			return 0
@@ -377,8 +381,9 @@ func (t *TWriter) Fill() {
 	if rt.Implements(iwriter) {
 		t.Implements = true
 		t.Write = func(w *Writer, v reflect.Value) {
-			i := v.Interface()
-			i.(IWriter).IWrite(i, w)
+			if i, ok := v.Interface().(IWriter); ok {
+				i.IWrite(i, w)
+			}
 		}
 		if rt.Implements(isizer) {
 			t.SzGet = func(v reflect.Value) int {
@@ -415,7 +420,9 @@ func (t *TWriter) Fill() {
 	} else if rt.Implements(ishortwriter) {
 		t.Implements = true
 		t.Write = func(w *Writer, v reflect.Value) {
-			v.Interface().(IShortWriter).IWrite(w)
+			if i, ok := v.Interface().(IShortWriter); ok {
+				i.IWrite(w)
+			}
 		}
 		if rt.Implements(ishortsizer) {
 			t.SzGet = func(v reflect.Value) int {
-- 
2.43.0


From 697b2960893272ab5c98fbe1edc59ea430663add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:45 +0000
Subject: [PATCH 59/61] fix: a size or count which does not fit a slice passed
 by value caused a panic instead of an error

---
 marshal/reader_reflect.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/marshal/reader_reflect.go b/marshal/reader_reflect.go
index e197d6b..fe73b3c 100644
--- a/marshal/reader_reflect.go
+++ b/marshal/reader_reflect.go
@@ -934,6 +934,9 @@ func (t *TReader) FillArray() {
 func (t *TReader) FillSlice() {
 	t.CntSet = func(v reflect.Value, cnt int) error {
 		if v.Len() != cnt {
+			if !v.CanSet() {
+				return fmt.Errorf("Count doesn't match %d %d %+v", cnt, v.Len(), t.Type)
+			}
 			v.Set(reflect.MakeSlice(t.Type, cnt, cnt))
 		}
 		return nil
@@ -945,6 +948,9 @@ func (t *TReader) FillSlice() {
 				return false, fmt.Errorf("Size %d is not a multiple of the element size %d %+v", sz, t.Elem.Sz, t.Type)
 			}
 			if v.Len() != cnt {
+				if !v.CanSet() {
+					return false, fmt.Errorf("Size doesn't match %d %d %+v", sz, v.Len()*t.Elem.Sz, t.Type)
+				}
 				v.Set(reflect.MakeSlice(t.Type, cnt, cnt))
 			}
 			return true, nil
-- 
2.43.0


From 5e90dc1e1076267868d7a3da23281c38349da79f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:07 +0000
Subject: [PATCH 60/61] fix: a counted string behind a pointer or an interface
 could not be read

---
 marshal/reader_reflect.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/marshal/reader_reflect.go b/marshal/reader_reflect.go
index fe73b3c..432c1af 100644
--- a/marshal/reader_reflect.go
+++ b/marshal/reader_reflect.go
@@ -604,6 +604,28 @@ func (t *TReader) WithCount(r *Reader, v reflect.Value, cntrd func(*Reader) int)
 	if r.Err != nil {
 		return
 	}
+	t.counted(r, v, cnt)
+}
+
+// counted reads what follows its count
+func (t *TReader) counted(r *Reader, v reflect.Value, cnt int) {
+	switch t.Type.Kind() {
+	case reflect.Ptr:
+		// strings have no count to be set beforehand
+		if cnt != 0 && t.Elem != nil && t.Elem.AutoCount != nil && (!v.IsNil() || v.CanSet()) {
+			if v.IsNil() {
+				v.Set(reflect.New(t.Elem.Type))
+			}
+			t.Elem.AutoCount(r, v.Elem(), cnt)
+			return
+		}
+	case reflect.Interface:
+		if cnt != 0 && !v.IsNil() {
+			el := v.Elem()
+			ReaderFor(el.Type()).counted(r, el, cnt)
+			return
+		}
+	}
 	if t.AutoCount != nil {
 		t.AutoCount(r, v, cnt)
 		return
-- 
2.43.0


From 093747e753249d5d1ac269a25076ffaf8e575b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:36 +0000
Subject: [PATCH 61/61] fix: a nil pointer in an interface caused a panic when
 a size or count came for it

---
 marshal/reader_reflect.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/marshal/reader_reflect.go b/marshal/reader_reflect.go
index 432c1af..a0b4573 100644
--- a/marshal/reader_reflect.go
+++ b/marshal/reader_reflect.go
@@ -446,6 +446,9 @@ func (t *TReader) SetSize(v reflect.Value, sz int) (bool, error) {
 			return true, nil
 		} else {
 			if v.IsNil() {
+				if !v.CanSet() {
+					return false, fmt.Errorf("Could not read %d bytes into nil %+v", sz, t.Type)
+				}
 				v.Set(reflect.New(t.Elem.Type))
 			}
 			return t.Elem.SetSize(v.Elem(), sz)
@@ -532,7 +535,9 @@ func (t *TReader) SetCount(v reflect.Value, cnt int) error {
 			return nil
 		} else {
 			if v.IsNil() {
-				/* TODO: give a more meaningful panic message than builtin */
+				if !v.CanSet() {
+					return fmt.Errorf("Could not read %d elements into nil %+v", cnt, t.Type)
+				}
 				v.Set(reflect.New(t.Elem.Type))
 			}
 			return t.Elem.SetCount(v.Elem(), cnt)
-- 
2.43.0

