From f0f7aa67c24c113e147cfd7dbb1f35ea0a383330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:09 +0000
Subject: [PATCH 01/26] fix: read object array elements with the dump's
 identifier size

---
 internal/java/heap.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/internal/java/heap.go b/internal/java/heap.go
index f82e707..53a7bd3 100644
--- a/internal/java/heap.go
+++ b/internal/java/heap.go
@@ -11,7 +11,6 @@ package java
 
 import (
 	"bytes"
-	"encoding/binary"
 	"fmt"
 	"io"
 
@@ -229,8 +228,11 @@ func (h *Heap) ParseObjectArrayFull(arrayObjectId core.Identifier) (ObjectArray,
 		if err != nil {
 			return ObjectArray{}, fmt.Errorf("error reading element of object array with id %v: %w", arrayObjectId, err)
 		}
-		id := binary.BigEndian.Uint64(e)
-		elements = append(elements, core.Identifier(id))
+		id, err := core.NewPrimitiveParser(bytes.NewReader(e), h.parsedAccessor.IdentifierSize).ParseIdentifier()
+		if err != nil {
+			return ObjectArray{}, fmt.Errorf("error parsing element of object array with id %v: %w", arrayObjectId, err)
+		}
+		elements = append(elements, id)
 	}
 	return ObjectArray{
 		ArrayClassId: header.ArrayClassId,
-- 
2.43.0


From efef48b70134421bab6f743fabfa30e38576c4e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:10 +0000
Subject: [PATCH 02/26] fix: objects report must not divide by zero when the
 total size is zero

---
 internal/output/objects.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/internal/output/objects.go b/internal/output/objects.go
index 0792079..488833d 100644
--- a/internal/output/objects.go
+++ b/internal/output/objects.go
@@ -113,8 +113,8 @@ func getPrintItems(o objects.Objects) printObject {
 	for _, item := range o.Items {
 		printItems = append(printItems, printItem{
 			Name:           format.ClassName(item.Name),
-			InstancesCount: fmt.Sprintf("%v (%v%%)", item.InstancesCount, 100*item.InstancesCount/o.TotalCount),
-			TotalSize:      fmt.Sprintf("%v (%v%%)", format.Size(item.TotalSize), 100*item.TotalSize/o.TotalSize),
+			InstancesCount: fmt.Sprintf("%v (%v%%)", item.InstancesCount, percent(item.InstancesCount, o.TotalCount)),
+			TotalSize:      fmt.Sprintf("%v (%v%%)", format.Size(item.TotalSize), percent(item.TotalSize, o.TotalSize)),
 		})
 	}
 	printObj.TotalCount = strconv.Itoa(o.TotalCount)
@@ -123,6 +123,15 @@ func getPrintItems(o objects.Objects) printObject {
 	return printObj
 }
 
+// percent returns the share of the total in percent,
+// everything is 0% of the empty total
+func percent(part, total int) int {
+	if total == 0 {
+		return 0
+	}
+	return 100 * part / total
+}
+
 var (
 	//go:embed templates/objects.html
 	objectsHtml string
-- 
2.43.0


From b6cf4823a2b01598cbde4e47f8d69246fbf98b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:11 +0000
Subject: [PATCH 03/26] fix: order objects rows of the same name
 deterministically

---
 internal/output/objects.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/output/objects.go b/internal/output/objects.go
index 488833d..cb04392 100644
--- a/internal/output/objects.go
+++ b/internal/output/objects.go
@@ -95,6 +95,9 @@ func getPrintItems(o objects.Objects) printObject {
 		}
 		sort.Slice(o.Items, func(i, j int) bool {
 			if o.Items[i].TotalSize == o.Items[j].TotalSize {
+				if o.Items[i].Name == o.Items[j].Name {
+					return o.Items[i].InstancesCount > o.Items[j].InstancesCount
+				}
 				return o.Items[i].Name < o.Items[j].Name
 			}
 			return o.Items[i].TotalSize > o.Items[j].TotalSize
@@ -105,6 +108,9 @@ func getPrintItems(o objects.Objects) printObject {
 		}
 		sort.Slice(o.Items, func(i, j int) bool {
 			if o.Items[i].InstancesCount == o.Items[j].InstancesCount {
+				if o.Items[i].Name == o.Items[j].Name {
+					return o.Items[i].TotalSize > o.Items[j].TotalSize
+				}
 				return o.Items[i].Name < o.Items[j].Name
 			}
 			return o.Items[i].InstancesCount > o.Items[j].InstancesCount
-- 
2.43.0


From e9c23a6e27fc505d543c6b28301cf136144eaf97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:12 +0000
Subject: [PATCH 04/26] fix: report cyclic class hierarchy as an error instead
 of infinite recursion

---
 internal/java/heap.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/internal/java/heap.go b/internal/java/heap.go
index 53a7bd3..5c0aabb 100644
--- a/internal/java/heap.go
+++ b/internal/java/heap.go
@@ -101,6 +101,16 @@ func (h *Heap) parseByteArrayFull(arrayObjectId core.Identifier) ([]byte, error)
 // ParseClass parses inforamsion from HPROF_DC_CLASS_DUMP record of a class and all
 // its superclasses.
 func (h *Heap) ParseClass(classId core.Identifier) (Class, error) {
+	return h.parseClass(classId, make(map[core.Identifier]bool))
+}
+
+// parseClass keeps track of already visited classes to
+// detect malformed dumps where class is its own superclass.
+func (h *Heap) parseClass(classId core.Identifier, visited map[core.Identifier]bool) (Class, error) {
+	if visited[classId] {
+		return Class{}, fmt.Errorf("class with id %v is its own superclass", classId)
+	}
+	visited[classId] = true
 	class, err := h.parsedAccessor.GetHprofGcClassDump(classId)
 	if err != nil {
 		return Class{}, fmt.Errorf("error reading class with id %v", classId)
@@ -145,7 +155,7 @@ func (h *Heap) ParseClass(classId core.Identifier) (Class, error) {
 		superClass = nil
 	} else {
 		// TODO not stack safe, fix
-		sc, err := h.ParseClass(class.SuperclassObjectId)
+		sc, err := h.parseClass(class.SuperclassObjectId, visited)
 		if err != nil {
 			return Class{}, fmt.Errorf("error parsing superclass: %w", err)
 		}
-- 
2.43.0


From d8f2352841e8cc8bdd376b5e47e05ca5cc782fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:13 +0000
Subject: [PATCH 05/26] fix: thread that is not started yet has status NEW

---
 internal/threads/models.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/threads/models.go b/internal/threads/models.go
index 7e3f3a1..4043050 100644
--- a/internal/threads/models.go
+++ b/internal/threads/models.go
@@ -61,6 +61,6 @@ func (ts ThreadStatus) String() string {
 	} else if ts&ThreadStateAlive != 0 {
 		return "NEW"
 	} else {
-		return "RUNNABLE"
+		return "NEW"
 	}
 }
-- 
2.43.0


From db5fb80fec2631ecc0c1e1810e6a734429f182ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:42 +0000
Subject: [PATCH 06/26] fix: sort objects rows by the names that are printed

---
 internal/output/objects.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/output/objects.go b/internal/output/objects.go
index cb04392..f98a311 100644
--- a/internal/output/objects.go
+++ b/internal/output/objects.go
@@ -88,6 +88,9 @@ func print(o objects.Objects, headerColor, summaryColor, classNameColor, numColo
 func getPrintItems(o objects.Objects) printObject {
 	var printObj printObject
 	var printItems []printItem
+	for i := range o.Items {
+		o.Items[i].Name = format.ClassName(o.Items[i].Name) // sort by names as they are printed
+	}
 	switch o.SortBy {
 	case objects.Size:
 		printObj = printObject{
-- 
2.43.0


From 20083e3fbf0c479878de41df5e842e7f1334d7bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:42 +0000
Subject: [PATCH 07/26] fix: do not ignore the error of writing the last index
 batch

---
 internal/dump/parser.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/internal/dump/parser.go b/internal/dump/parser.go
index 9504907..0929cdd 100644
--- a/internal/dump/parser.go
+++ b/internal/dump/parser.go
@@ -58,7 +58,7 @@ func (creator *Parser) GetPosition() int {
 
 // ParseHeapDump parses heap dump to storages.
 // Can be used with arbitrary io.Reader.
-func (parser *Parser) ParseHeapDump() error {
+func (parser *Parser) ParseHeapDump() (err error) {
 	bufferedHeapDump := bufio.NewReader(parser.heapDump)
 	fileHeader, err := core.ParseFileHeader(bufferedHeapDump)
 	if err != nil {
@@ -75,7 +75,12 @@ func (parser *Parser) ParseHeapDump() error {
 
 	parser.pos = 31
 
-	defer parser.bigRecordsWriteStorage.Close()
+	defer func() {
+		// the last batch of index records is written on close
+		if closeErr := parser.bigRecordsWriteStorage.Close(); err == nil && closeErr != nil {
+			err = fmt.Errorf("indexing error: %w", closeErr)
+		}
+	}()
 
 	for {
 		header, err := recordParser.ParseRecordHeader()
-- 
2.43.0


From 78ad0954ce321569a717f881c02f3d405521d272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:44 +0000
Subject: [PATCH 08/26] fix: do not trust the length of HPROF_UTF8 record

---
 internal/core/base_parsers.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/internal/core/base_parsers.go b/internal/core/base_parsers.go
index 90f2206..3c657c9 100644
--- a/internal/core/base_parsers.go
+++ b/internal/core/base_parsers.go
@@ -45,11 +45,17 @@ func (parser *RecordParser) ParseHprofUtf8(remaining uint32) (HprofUtf8, error)
 	if err != nil {
 		return HprofUtf8{}, fmt.Errorf("error in ParseHprofUtf8: %w", err)
 	}
-	buf := make([]byte, remaining-parser.primitiveParser.identifierSize)
-	_, err = io.ReadFull(parser.primitiveParser.heapDump, buf)
+	if remaining < parser.primitiveParser.identifierSize {
+		return HprofUtf8{}, fmt.Errorf("error in ParseHprofUtf8: record length %v is less than identifier size", remaining)
+	}
+	size := int64(remaining - parser.primitiveParser.identifierSize)
+	buf, err := io.ReadAll(io.LimitReader(parser.primitiveParser.heapDump, size)) // size is not trusted, dump can be truncated
 	if err != nil {
 		return HprofUtf8{}, fmt.Errorf("error in ParseHprofUtf8: %w", err)
 	}
+	if int64(len(buf)) < size {
+		return HprofUtf8{}, fmt.Errorf("error in ParseHprofUtf8: %w", io.ErrUnexpectedEOF)
+	}
 	return HprofUtf8{
 		Identifier: identifier,
 		Characters: string(buf),
-- 
2.43.0


From eb68df595af9040259bfc9716a0ba15032af21c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:47 +0000
Subject: [PATCH 09/26] fix: reject unknown Java types instead of panicking
 later

---
 internal/core/base_parsers.go | 6 ++++++
 internal/core/types.go        | 5 +++++
 2 files changed, 11 insertions(+)

diff --git a/internal/core/base_parsers.go b/internal/core/base_parsers.go
index 3c657c9..ea7b47b 100644
--- a/internal/core/base_parsers.go
+++ b/internal/core/base_parsers.go
@@ -434,6 +434,9 @@ func (parser *RecordParser) parseHprofGcClassDumpInstanceFieldsRecord() (HprofGc
 	if err != nil {
 		return HprofGcClassDumpInstanceFieldsRecord{}, fmt.Errorf("error in ParseHprofGcClassDumpInstanceFieldsRecord: %w", err)
 	}
+	if !ty.known() {
+		return HprofGcClassDumpInstanceFieldsRecord{}, fmt.Errorf("error in ParseHprofGcClassDumpInstanceFieldsRecord: unexpected Java type: %v", byte(ty))
+	}
 	return HprofGcClassDumpInstanceFieldsRecord{
 		InstanceFieldName: instanceFieldName,
 		Ty:                ty,
@@ -522,6 +525,9 @@ func (parser *RecordParser) ParseHprofGcPrimArrayDumpHeader() (HprofGcPrimArrayD
 	if err != nil {
 		return HprofGcPrimArrayDumpHeader{}, fmt.Errorf("error in ParseHprofGcPrimArrayDumpHeader: %w", err)
 	}
+	if !elementType.known() {
+		return HprofGcPrimArrayDumpHeader{}, fmt.Errorf("error in ParseHprofGcPrimArrayDumpHeader: unexpected Java type: %v", byte(elementType))
+	}
 	return HprofGcPrimArrayDumpHeader{
 		ArrayObjectId:          arrayObjectId,
 		StackTraceSerialNumber: stackTraceSerialNumber,
diff --git a/internal/core/types.go b/internal/core/types.go
index fb7a2b9..1a933d8 100644
--- a/internal/core/types.go
+++ b/internal/core/types.go
@@ -70,6 +70,11 @@ func (j JavaType) String() string {
 	return "unknown"
 }
 
+func (j JavaType) known() bool {
+	_, ok := javaTypeMap[j]
+	return ok
+}
+
 // JavaValue wraps type of the
 // constant and the value converted
 // to corresponding Go type.
-- 
2.43.0


From 3cae7188d6d260d79c73f1b4a37121a47b86cd30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:48 +0000
Subject: [PATCH 10/26] fix: parse and count all GC root kinds, reject unknown
 heap sub-records

---
 internal/core/base_parsers.go | 16 ++++++++++++++++
 internal/core/records.go      |  8 ++++++++
 internal/core/sizes.go        |  5 +++++
 internal/core/tags.go         | 12 ++++++++++++
 internal/dump/parser.go       | 10 ++++++++++
 internal/storage/small.go     |  9 +++++++++
 internal/summary/summary.go   |  2 +-
 7 files changed, 61 insertions(+), 1 deletion(-)

diff --git a/internal/core/base_parsers.go b/internal/core/base_parsers.go
index ea7b47b..ee98e38 100644
--- a/internal/core/base_parsers.go
+++ b/internal/core/base_parsers.go
@@ -270,6 +270,22 @@ func (parser *RecordParser) ParseHprofGcRootStickyClass() (HprofGcRootStickyClas
 	return HprofGcRootStickyClass{ObjectId: objectId}, nil
 }
 
+// ParseHprofGcRootOther reads GC root sub-records that are only counted.
+func (parser *RecordParser) ParseHprofGcRootOther(subRecordType SubRecordType) (HprofGcRootOther, error) {
+	objectId, err := parser.primitiveParser.ParseIdentifier()
+	if err != nil {
+		return HprofGcRootOther{}, fmt.Errorf("error in ParseHprofGcRootOther: %w", err)
+	}
+	if subRecordType == HprofGcRootNativeStackType || subRecordType == HprofGcRootThreadBlockType {
+		// thread serial number
+		_, err = parser.primitiveParser.ParseUint32()
+		if err != nil {
+			return HprofGcRootOther{}, fmt.Errorf("error in ParseHprofGcRootOther: %w", err)
+		}
+	}
+	return HprofGcRootOther{Type: subRecordType, ObjectId: objectId}, nil
+}
+
 // ParseHprofGcClassDump reads HPROF_GC_CLASS_DUMP sub-record.
 func (parser *RecordParser) ParseHprofGcClassDump() (HprofGcClassDump, error) {
 	classObjectId, err := parser.primitiveParser.ParseIdentifier()
diff --git a/internal/core/records.go b/internal/core/records.go
index 92a28c3..6f9a468 100644
--- a/internal/core/records.go
+++ b/internal/core/records.go
@@ -84,6 +84,14 @@ type HprofGcRootStickyClass struct {
 	ObjectId Identifier
 }
 
+// HprofGcRootOther is any other GC root: HPROF_GC_ROOT_UNKNOWN,
+// HPROF_GC_ROOT_NATIVE_STACK, HPROF_GC_ROOT_THREAD_BLOCK or
+// HPROF_GC_ROOT_MONITOR_USED.
+type HprofGcRootOther struct {
+	Type     SubRecordType
+	ObjectId Identifier
+}
+
 type HprofGcClassDump struct {
 	ClassObjectId            Identifier
 	StackTraceSerialNumber   uint32
diff --git a/internal/core/sizes.go b/internal/core/sizes.go
index 93342fd..185a9b0 100644
--- a/internal/core/sizes.go
+++ b/internal/core/sizes.go
@@ -20,6 +20,11 @@ func (s SizeInfo) Of(record any) int {
 		return s.idSize + 2*4
 	case HprofGcRootStickyClass:
 		return s.idSize
+	case HprofGcRootOther:
+		if v.Type == HprofGcRootNativeStackType || v.Type == HprofGcRootThreadBlockType {
+			return s.idSize + 4
+		}
+		return s.idSize
 	case HprofGcRootThreadObj:
 		return s.idSize + 2*4
 	case HprofGcClassDump:
diff --git a/internal/core/tags.go b/internal/core/tags.go
index f94332f..4f6e2a8 100644
--- a/internal/core/tags.go
+++ b/internal/core/tags.go
@@ -44,6 +44,14 @@ const (
 	HprofGcPrimArrayDumpType   SubRecordType = 0x23
 )
 
+// GC roots that are parsed only to be counted.
+const (
+	HprofGcRootNativeStackType SubRecordType = 0x04
+	HprofGcRootThreadBlockType SubRecordType = 0x06
+	HprofGcRootMonitorUsedType SubRecordType = 0x07
+	HprofGcRootUnknownType     SubRecordType = 0xff
+)
+
 // these duplicated tags from Tags to be able to exit parse subrecords loop.
 const (
 	HprofHeapDumpEndSubRecord     SubRecordType = 0x2c
@@ -60,6 +68,10 @@ var subRecordTypeMap = map[SubRecordType]string{
 	HprofGcInstanceDumpType:    "HPROF_GC_INSTANCE_DUMP",
 	HprofGcObjArrayDumpType:    "HPROF_GC_OBJ_ARRAY_DUMP",
 	HprofGcPrimArrayDumpType:   "HPROF_GC_PRIM_ARRAY_DUMP",
+	HprofGcRootNativeStackType: "HPROF_GC_ROOT_NATIVE_STACK",
+	HprofGcRootThreadBlockType: "HPROF_GC_ROOT_THREAD_BLOCK",
+	HprofGcRootMonitorUsedType: "HPROF_GC_ROOT_MONITOR_USED",
+	HprofGcRootUnknownType:     "HPROF_GC_ROOT_UNKNOWN",
 }
 
 func (s SubRecordType) String() string {
diff --git a/internal/dump/parser.go b/internal/dump/parser.go
index 0929cdd..9320027 100644
--- a/internal/dump/parser.go
+++ b/internal/dump/parser.go
@@ -164,6 +164,14 @@ func (parser *Parser) ParseHeapDump() (err error) {
 					}
 					parser.smallRecordsWriteStorage.PutHprofGcRootThreadObj(record)
 					parser.pos += size.Of(record)
+				case core.HprofGcRootUnknownType, core.HprofGcRootNativeStackType,
+					core.HprofGcRootThreadBlockType, core.HprofGcRootMonitorUsedType:
+					record, err := recordParser.ParseHprofGcRootOther(subRecordHeader.SubRecordType)
+					if err != nil {
+						return fmt.Errorf("error parsing HprofGcRootOther: %w", err)
+					}
+					parser.smallRecordsWriteStorage.PutHprofGcRootOther(record)
+					parser.pos += size.Of(record)
 				case core.HprofGcClassDumpType:
 					record, err := recordParser.ParseHprofGcClassDump()
 					if err != nil {
@@ -225,6 +233,8 @@ func (parser *Parser) ParseHeapDump() (err error) {
 					}
 					parser.pos--
 					break loop
+				default:
+					return fmt.Errorf("unknown sub-record type: %v", subRecordHeader.SubRecordType)
 				}
 			}
 		case core.HprofHeapDumpEndTag:
diff --git a/internal/storage/small.go b/internal/storage/small.go
index 06fd701..fe4b0dc 100644
--- a/internal/storage/small.go
+++ b/internal/storage/small.go
@@ -25,6 +25,7 @@ type underlyingStorage struct {
 	HprofGcRootJavaFrame   []core.HprofGcRootJavaFrame
 	HprofGcRootStickyClass []core.HprofGcRootStickyClass
 	HprofGcRootThreadObj   []core.HprofGcRootThreadObj
+	HprofGcRootOther       []core.HprofGcRootOther
 	HprofGcClassDump       map[core.Identifier]core.HprofGcClassDump
 }
 
@@ -112,6 +113,10 @@ func (s *SmallRecordsWriteStorage) PutHprofGcRootThreadObj(record core.HprofGcRo
 	s.HprofGcRootThreadObj = append(s.HprofGcRootThreadObj, record)
 }
 
+func (s *SmallRecordsWriteStorage) PutHprofGcRootOther(record core.HprofGcRootOther) {
+	s.HprofGcRootOther = append(s.HprofGcRootOther, record)
+}
+
 func (s *SmallRecordsWriteStorage) PutHprofGcClassDump(record core.HprofGcClassDump) {
 	s.HprofGcClassDump[record.ClassObjectId] = record
 }
@@ -182,6 +187,10 @@ func (s *SmallRecordsReadStorage) ListHprofGcRootThreadObj() []core.HprofGcRootT
 	return s.HprofGcRootThreadObj
 }
 
+func (s *SmallRecordsReadStorage) ListHprofGcRootOther() []core.HprofGcRootOther {
+	return s.HprofGcRootOther
+}
+
 func (s *SmallRecordsReadStorage) GetHprofGcClassDump(classObjectId core.Identifier) (core.HprofGcClassDump, error) {
 	res, ok := s.HprofGcClassDump[classObjectId]
 	if !ok {
diff --git a/internal/summary/summary.go b/internal/summary/summary.go
index c855894..579648c 100644
--- a/internal/summary/summary.go
+++ b/internal/summary/summary.go
@@ -182,7 +182,7 @@ func getHeap(parsedAccessor *dump.ParsedAccessor) (HeapProperties, error) {
 	classes := parsedAccessor.ListHprofLoadClass()
 	gcRootsCount := len(parsedAccessor.HprofGcRootJavaFrame) + len(parsedAccessor.HprofGcRootJniGlobal) +
 		len(parsedAccessor.HprofGcRootJniLocal) + len(parsedAccessor.ListHprofGcRootStickyClass()) +
-		len(parsedAccessor.ListHprofGcRootThreadObj())
+		len(parsedAccessor.ListHprofGcRootThreadObj()) + len(parsedAccessor.ListHprofGcRootOther())
 	classSet := make(map[core.Identifier]any)
 	var void any
 	for _, c := range classes {
-- 
2.43.0


From 3d630fbeb4d2b907f1d36711d3b523d5ca350c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:13 +0000
Subject: [PATCH 11/26] fix: records after the end of heap dump segment are not
 its sub-records

---
 internal/dump/parser.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/dump/parser.go b/internal/dump/parser.go
index 9320027..9f3cd88 100644
--- a/internal/dump/parser.go
+++ b/internal/dump/parser.go
@@ -121,8 +121,13 @@ func (parser *Parser) ParseHeapDump() (err error) {
 			parser.smallRecordsWriteStorage.PutHprofTrace(record)
 			parser.pos += int(header.Remaining)
 		case core.HprofHeapDumpSegmentTag:
+			segmentEnd := parser.pos + int(header.Remaining)
 		loop:
 			for {
+				// zero length means that the length of the segment is unknown
+				if header.Remaining != 0 && parser.pos == segmentEnd {
+					break loop
+				}
 				subRecordHeader, err := recordParser.ParseSubRecordHeader()
 				if err != nil {
 					return fmt.Errorf("error parsing sub-record type: %w", err)
-- 
2.43.0


From cd94090fdcca79bc8618062f6a4944664184ed5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:14 +0000
Subject: [PATCH 12/26] fix: keep all characters of class names in signatures,
 decode classes of arrays

---
 internal/format/format.go  | 8 ++++++++
 internal/output/threads.go | 4 ++++
 2 files changed, 12 insertions(+)

diff --git a/internal/format/format.go b/internal/format/format.go
index 8f1dba7..aea26a5 100644
--- a/internal/format/format.go
+++ b/internal/format/format.go
@@ -34,6 +34,14 @@ func Signature(signature string) (string, string) {
 	var argLen int
 	activeLen := &argLen
 	for _, s := range signature {
+		if inClassName && s != ';' {
+			// class name lasts until ';' whatever characters it has
+			if s == '/' {
+				s = '.'
+			}
+			classNameBuffer += string(s)
+			continue
+		}
 		switch s {
 		case '(':
 			continue
diff --git a/internal/output/threads.go b/internal/output/threads.go
index 92257f1..122f18b 100644
--- a/internal/output/threads.go
+++ b/internal/output/threads.go
@@ -55,6 +55,10 @@ func createPrettyFrame(frame threads.StackFrame) string {
 
 func createPrettyStackVariable(localFrame threads.LocalFrame) string {
 	signature := localFrame.ObjectTypeSignature
+	if className, ok := strings.CutPrefix(signature, "class ["); ok { // it's class of array
+		arg, _ := format.Signature("[" + className)
+		return "class " + arg
+	}
 	if !strings.HasPrefix(signature, "[") { // it's object
 		signature = "L" + signature + ";"
 	}
-- 
2.43.0


From 13b1525d4c859b4c027c87aae26ec90ac89846a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:45 +0000
Subject: [PATCH 13/26] fix: decode Java strings according to their coder

---
 internal/java/heap.go | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/internal/java/heap.go b/internal/java/heap.go
index 5c0aabb..597a027 100644
--- a/internal/java/heap.go
+++ b/internal/java/heap.go
@@ -11,8 +11,10 @@ package java
 
 import (
 	"bytes"
+	"encoding/binary"
 	"fmt"
 	"io"
+	"unicode/utf16"
 
 	"github.com/danielleontiev/neojhat/internal/core"
 	"github.com/danielleontiev/neojhat/internal/dump"
@@ -72,7 +74,11 @@ func (h *Heap) ParseJavaString(str core.JavaValue) (string, error) {
 					if err != nil {
 						return "", fmt.Errorf("error reading `value` array for string %v: %w", str, err)
 					}
-					return string(byteArr), nil
+					coder, err := javaString.GetFieldValueByName("coder")
+					if err != nil {
+						return string(byteArr), nil
+					}
+					return decodeJavaString(byteArr, coder.Value), nil
 				}
 				return "", fmt.Errorf("malformed java string, `value` is not a reference to array (%T)", value.Value.Value)
 			}
@@ -83,6 +89,22 @@ func (h *Heap) ParseJavaString(str core.JavaValue) (string, error) {
 	return "", fmt.Errorf("passed value (%v) is not reference to object", str)
 }
 
+// decodeJavaString decodes `value` array of java.lang.String. It contains
+// Latin-1 characters if `coder` is 0 and UTF-16 (little-endian) if it is 1
+func decodeJavaString(value []byte, coder core.JavaValue) string {
+	var chars []uint16
+	if coder.Value == int8(1) {
+		for i := 0; i+1 < len(value); i += 2 {
+			chars = append(chars, binary.LittleEndian.Uint16(value[i:]))
+		}
+	} else {
+		for _, b := range value {
+			chars = append(chars, uint16(b))
+		}
+	}
+	return string(utf16.Decode(chars))
+}
+
 func (h *Heap) parseByteArrayFull(arrayObjectId core.Identifier) ([]byte, error) {
 	header, err := h.parsedAccessor.GetHprofGcPrimArray(arrayObjectId)
 	if err != nil {
-- 
2.43.0


From 906fbcfa31420ecbeed92d83c46ab92be923880e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:46 +0000
Subject: [PATCH 14/26] fix: read thread attributes from java.lang.Thread, not
 from fields of its subclasses

---
 internal/java/heap.go       | 20 ++++++++++++++++++++
 internal/threads/threads.go |  7 +++++++
 2 files changed, 27 insertions(+)

diff --git a/internal/java/heap.go b/internal/java/heap.go
index 597a027..2d98905 100644
--- a/internal/java/heap.go
+++ b/internal/java/heap.go
@@ -191,6 +191,26 @@ func (h *Heap) parseClass(classId core.Identifier, visited map[core.Identifier]b
 	}, nil
 }
 
+// AsInstanceOf returns the part of the object that is declared by the given
+// superclass and its superclasses. It allows to read fields of the superclass
+// that are hidden by fields of the subclasses.
+func (o *NormalObject) AsInstanceOf(className string) (NormalObject, error) {
+	size := core.NewSizeInfo(o.identifierSize)
+	offset := 0
+	for class := &o.Class; class != nil; class = class.Superclass {
+		if class.Name == className {
+			if offset > len(o.Bytes) {
+				return NormalObject{}, fmt.Errorf("instance of %v is too short", o.Class.Name)
+			}
+			return NormalObject{identifierSize: o.identifierSize, Class: *class, Bytes: o.Bytes[offset:]}, nil
+		}
+		for _, field := range class.InstanceFields {
+			offset += size.OfType(field.Type)
+		}
+	}
+	return NormalObject{}, fmt.Errorf("%v is not an instance of %v", o.Class.Name, className)
+}
+
 // GetFieldValueByName extracts instance field value by name of the field as
 // well as name of the class that actually defines requested field.
 func (o *NormalObject) GetFieldValueByName(name string) (FieldValue, error) {
diff --git a/internal/threads/threads.go b/internal/threads/threads.go
index 0cd6656..8f1cb2f 100644
--- a/internal/threads/threads.go
+++ b/internal/threads/threads.go
@@ -25,6 +25,10 @@ import (
 	"github.com/danielleontiev/neojhat/internal/java"
 )
 
+const (
+	javaLangThreadClassName = "java/lang/Thread"
+)
+
 var (
 	UnknownString = "<unknown string>"
 )
@@ -111,6 +115,9 @@ func GetThreadDump(parsedAccessor *dump.ParsedAccessor) (ThreadDump, error) {
 		if err != nil {
 			return ThreadDump{}, err
 		}
+		if javaLangThread, err := threadInstance.AsInstanceOf(javaLangThreadClassName); err == nil {
+			threadInstance = javaLangThread
+		}
 		threadName, err := threadInstance.GetFieldValueByName("name")
 		if err != nil {
 			return ThreadDump{}, err
-- 
2.43.0


From c8f42124d718b1fb18a0ce85ce55c6c31be1ebe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:18 +0000
Subject: [PATCH 15/26] fix: summary must show system properties that collide
 in the hash map

---
 internal/summary/summary.go | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/internal/summary/summary.go b/internal/summary/summary.go
index 579648c..555963e 100644
--- a/internal/summary/summary.go
+++ b/internal/summary/summary.go
@@ -16,6 +16,7 @@ import (
 const (
 	javaLangSystemClassName          = "java/lang/System"
 	managementFactoryHelperClassName = "sun/management/ManagementFactoryHelper"
+	treeBinClassName                 = "java/util/concurrent/ConcurrentHashMap$TreeBin"
 )
 
 type Properties = map[string]string
@@ -136,12 +137,29 @@ func getAllProps(parsedAccessor *dump.ParsedAccessor) (Properties, error) {
 		return nil, err
 	}
 	resultProps := make(map[string]string)
+	visited := make(map[core.Identifier]bool)
 	for _, nodeObjectId := range table.Elements {
-		if nodeObjectId != 0 {
+		for nodeObjectId != 0 { // colliding entries are chained
+			if visited[nodeObjectId] {
+				return nil, fmt.Errorf("malformed properties: node %v is chained twice", nodeObjectId)
+			}
+			visited[nodeObjectId] = true
 			node, err := heap.ParseNormalObject(nodeObjectId)
 			if err != nil {
 				return nil, err
 			}
+			if node.Class.Name == treeBinClassName {
+				// head of the tree with colliding entries, it has no key and value
+				first, err := node.GetFieldValueByName("first")
+				if err != nil {
+					return nil, err
+				}
+				nodeObjectId, err = first.Value.ToObject()
+				if err != nil {
+					return nil, err
+				}
+				continue
+			}
 			key, err := node.GetFieldValueByName("key")
 			if err != nil {
 				return nil, err
@@ -159,6 +177,14 @@ func getAllProps(parsedAccessor *dump.ParsedAccessor) (Properties, error) {
 				return nil, err
 			}
 			resultProps[keyString] = valString
+			next, err := node.GetFieldValueByName("next")
+			if err != nil {
+				return nil, err
+			}
+			nodeObjectId, err = next.Value.ToObject()
+			if err != nil {
+				return nil, err
+			}
 		}
 	}
 	return Properties(resultProps), nil
-- 
2.43.0


From 796f20d7290dc23ac340abe44900379d9b7ee071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:19 +0000
Subject: [PATCH 16/26] fix: progress bar must not panic on malformed or empty
 dump

---
 internal/cmd/interactive_print.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/cmd/interactive_print.go b/internal/cmd/interactive_print.go
index 0e0cc7e..5ac38e4 100644
--- a/internal/cmd/interactive_print.go
+++ b/internal/cmd/interactive_print.go
@@ -38,6 +38,9 @@ func clearLine() {
 func progressBar(max int, positionFn func() int, label string) func() string {
 	return func() string {
 		progress := 100 * float64(positionFn()) / float64(max)
+		if !(progress <= 100) { // lengths in the dump can be wrong and the dump can be empty
+			progress = 100
+		}
 		blocksNumber := int(progress / 2)
 		blocks := strings.Repeat("▮", blocksNumber) + strings.Repeat("▯", 50-blocksNumber)
 		str := fmt.Sprintf("%s: %.2f%% [%s]", label, progress, blocks)
-- 
2.43.0


From b083b2e5473bc128c0720333b9f992a2ccd622ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:14 +0000
Subject: [PATCH 17/26] fix: failed, killed or concurrent run must not leave
 incomplete index behind

---
 internal/cmd/subcommands.go | 39 ++++++++++++++++++++++++++++---------
 1 file changed, 30 insertions(+), 9 deletions(-)

diff --git a/internal/cmd/subcommands.go b/internal/cmd/subcommands.go
index fe97a22..683f80d 100644
--- a/internal/cmd/subcommands.go
+++ b/internal/cmd/subcommands.go
@@ -3,6 +3,7 @@ package cmd
 import (
 	"fmt"
 	"os"
+	"path/filepath"
 
 	"github.com/danielleontiev/neojhat/internal/dump"
 	"github.com/danielleontiev/neojhat/internal/objects"
@@ -18,6 +19,7 @@ const (
 
 const (
 	storageDirSuffix           = ".db/"
+	tmpDirSuffix               = ".db.tmp-"
 	instanceDumpIndexFileName  = "instance-dump.idx.bin"
 	objArrayDumpIndexFileName  = "obj-array-dump.idx.bin"
 	primArrayDumpIndexFileName = "prim-array-dump.idx.bin"
@@ -182,12 +184,17 @@ func ParseHprof(hprofFileName string, nonInteractive bool) error {
 	}
 	defer hprof.Close()
 
-	if err = os.Mkdir(hprofFileName+storageDirSuffix, os.ModePerm); err != nil {
-		if os.IsExist(err) {
-			return nil
-		}
+	if indexExists(hprofFileName) {
+		return nil
+	}
+	// The index is built aside and published by renaming at the end. So incomplete index can't be
+	// seen by another process or left by the failed one.
+	tmpDir, err := os.MkdirTemp(filepath.Dir(hprofFileName), filepath.Base(hprofFileName)+tmpDirSuffix)
+	if err != nil {
 		return fmt.Errorf("can't create index: %w", err)
 	}
+	defer os.RemoveAll(tmpDir)
+	tmpDir += "/"
 
 	stat, err := hprof.Stat()
 	if err != nil {
@@ -195,15 +202,15 @@ func ParseHprof(hprofFileName string, nonInteractive bool) error {
 	}
 
 	smallWriter := storage.NewSmallRecordsWriteStorage()
-	instanceDumpIndexFile, err := os.OpenFile(hprofFileName+storageDirSuffix+instanceDumpIndexFileName, os.O_APPEND|os.O_WRONLY|os.O_CREATE, 0600)
+	instanceDumpIndexFile, err := os.OpenFile(tmpDir+instanceDumpIndexFileName, os.O_APPEND|os.O_WRONLY|os.O_CREATE, 0600)
 	if err != nil {
 		return err
 	}
-	objArrayDumpIndexFile, err := os.OpenFile(hprofFileName+storageDirSuffix+objArrayDumpIndexFileName, os.O_APPEND|os.O_WRONLY|os.O_CREATE, 0600)
+	objArrayDumpIndexFile, err := os.OpenFile(tmpDir+objArrayDumpIndexFileName, os.O_APPEND|os.O_WRONLY|os.O_CREATE, 0600)
 	if err != nil {
 		return err
 	}
-	primArrayDumpIndexFile, err := os.OpenFile(hprofFileName+storageDirSuffix+primArrayDumpIndexFileName, os.O_APPEND|os.O_WRONLY|os.O_CREATE, 0600)
+	primArrayDumpIndexFile, err := os.OpenFile(tmpDir+primArrayDumpIndexFileName, os.O_APPEND|os.O_WRONLY|os.O_CREATE, 0600)
 	if err != nil {
 		return err
 	}
@@ -216,7 +223,7 @@ func ParseHprof(hprofFileName string, nonInteractive bool) error {
 	}
 	cancel()
 
-	smallRecordsFile, err := os.OpenFile(hprofFileName+storageDirSuffix+smallRecordsFileName, os.O_APPEND|os.O_WRONLY|os.O_CREATE, 0600)
+	smallRecordsFile, err := os.OpenFile(tmpDir+smallRecordsFileName, os.O_APPEND|os.O_WRONLY|os.O_CREATE, 0600)
 	if err != nil {
 		return err
 	}
@@ -224,7 +231,10 @@ func ParseHprof(hprofFileName string, nonInteractive bool) error {
 	if err := smallWriter.SerializeTo(smallRecordsFile); err != nil {
 		return fmt.Errorf("can't close small writer: %w", err)
 	}
-	metaFile, err := os.OpenFile(hprofFileName+storageDirSuffix+metaFileName, os.O_APPEND|os.O_WRONLY|os.O_CREATE, 0600)
+	if err := smallRecordsFile.Close(); err != nil {
+		return fmt.Errorf("can't close small writer: %w", err)
+	}
+	metaFile, err := os.OpenFile(tmpDir+metaFileName, os.O_APPEND|os.O_WRONLY|os.O_CREATE, 0600)
 	if err != nil {
 		return err
 	}
@@ -232,9 +242,20 @@ func ParseHprof(hprofFileName string, nonInteractive bool) error {
 	if err := metaWriter.SerializeTo(metaFile); err != nil {
 		return fmt.Errorf("can't close meta writer: %w", err)
 	}
+	if err := metaFile.Close(); err != nil {
+		return fmt.Errorf("can't close meta writer: %w", err)
+	}
+	if err := os.Rename(tmpDir, hprofFileName+storageDirSuffix); err != nil && !indexExists(hprofFileName) {
+		return fmt.Errorf("can't create index: %w", err)
+	}
 	return nil
 }
 
+func indexExists(hprofFileName string) bool {
+	stat, err := os.Stat(hprofFileName + storageDirSuffix)
+	return err == nil && stat.IsDir()
+}
+
 func createBigReader(hprofFileName string) (*storage.BigRecordsReadStorage, error) {
 	instanceDumpFile, err := os.Open(hprofFileName + storageDirSuffix + instanceDumpIndexFileName)
 	if err != nil {
-- 
2.43.0


From 89e2281e81c11ff632a5aa161cd2ddd22df2bb28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:14 +0000
Subject: [PATCH 18/26] fix: stop progress display when parsing fails

---
 internal/cmd/subcommands.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/cmd/subcommands.go b/internal/cmd/subcommands.go
index 683f80d..9878eb5 100644
--- a/internal/cmd/subcommands.go
+++ b/internal/cmd/subcommands.go
@@ -218,10 +218,11 @@ func ParseHprof(hprofFileName string, nonInteractive bool) error {
 	metaWriter := storage.NewMetaWriteStorage()
 	parser := dump.NewParser(hprof, smallWriter, bigWriter, metaWriter)
 	cancel := interactive(progressBar(int(stat.Size()), parser.GetPosition, "Parsing"), nonInteractive)
-	if err := parser.ParseHeapDump(); err != nil {
+	err = parser.ParseHeapDump()
+	cancel()
+	if err != nil {
 		return fmt.Errorf("can't create index: %w", err)
 	}
-	cancel()
 
 	smallRecordsFile, err := os.OpenFile(tmpDir+smallRecordsFileName, os.O_APPEND|os.O_WRONLY|os.O_CREATE, 0600)
 	if err != nil {
-- 
2.43.0


From 96c35637793a8fcd6f12b161d938471f647d5c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:15 +0000
Subject: [PATCH 19/26] fix: flush the index to the disk before publishing it

---
 internal/cmd/subcommands.go | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/internal/cmd/subcommands.go b/internal/cmd/subcommands.go
index 9878eb5..995d18a 100644
--- a/internal/cmd/subcommands.go
+++ b/internal/cmd/subcommands.go
@@ -246,12 +246,40 @@ func ParseHprof(hprofFileName string, nonInteractive bool) error {
 	if err := metaFile.Close(); err != nil {
 		return fmt.Errorf("can't close meta writer: %w", err)
 	}
+	if err := syncIndex(tmpDir); err != nil {
+		return fmt.Errorf("can't create index: %w", err)
+	}
 	if err := os.Rename(tmpDir, hprofFileName+storageDirSuffix); err != nil && !indexExists(hprofFileName) {
 		return fmt.Errorf("can't create index: %w", err)
 	}
 	return nil
 }
 
+// syncIndex flushes the index to the disk before it is published, otherwise
+// the published index could turn out to be incomplete after power loss.
+func syncIndex(dir string) error {
+	files, err := os.ReadDir(dir)
+	if err != nil {
+		return err
+	}
+	for _, entry := range files {
+		file, err := os.OpenFile(dir+entry.Name(), os.O_WRONLY, 0)
+		if err != nil {
+			return err
+		}
+		err = file.Sync()
+		file.Close()
+		if err != nil {
+			return err
+		}
+	}
+	if directory, err := os.Open(dir); err == nil {
+		directory.Sync() // not every platform can sync directories
+		directory.Close()
+	}
+	return nil
+}
+
 func indexExists(hprofFileName string) bool {
 	stat, err := os.Stat(hprofFileName + storageDirSuffix)
 	return err == nil && stat.IsDir()
-- 
2.43.0


From e33b6e926d799b6d669de6c20d87f3f5d1467864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:16 +0000
Subject: [PATCH 20/26] fix: do not report on another dump using stale index

---
 internal/cmd/subcommands.go | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/internal/cmd/subcommands.go b/internal/cmd/subcommands.go
index 995d18a..ddb7549 100644
--- a/internal/cmd/subcommands.go
+++ b/internal/cmd/subcommands.go
@@ -5,6 +5,7 @@ import (
 	"os"
 	"path/filepath"
 
+	"github.com/danielleontiev/neojhat/internal/core"
 	"github.com/danielleontiev/neojhat/internal/dump"
 	"github.com/danielleontiev/neojhat/internal/objects"
 	"github.com/danielleontiev/neojhat/internal/output"
@@ -58,6 +59,9 @@ func GetThreads(hprofFileName string, noColor, localVars bool, outputType Output
 	if err != nil {
 		return err
 	}
+	if err := checkIndex(hprof, smallReader); err != nil {
+		return err
+	}
 	parsedAccessor := dump.NewParsedAccessor(hprof, bigReader, smallReader, metaReader)
 	threadDump, err := threads.GetThreadDump(parsedAccessor)
 	if err != nil {
@@ -108,6 +112,9 @@ func GetSummary(hprofFileName string, noColor, allProps bool, outputType OutputT
 	if err != nil {
 		return err
 	}
+	if err := checkIndex(hprof, smallReader); err != nil {
+		return err
+	}
 	parsedAccessor := dump.NewParsedAccessor(hprof, bigReader, smallReader, metaReader)
 	s, err := summary.GetSummary(parsedAccessor, allProps)
 	if err != nil {
@@ -158,6 +165,9 @@ func GetObjects(hprofFileName string, noColor bool, sortBy objects.SortBy, outpu
 	if err != nil {
 		return err
 	}
+	if err := checkIndex(hprof, smallReader); err != nil {
+		return err
+	}
 	parsedAccessor := dump.NewParsedAccessor(hprof, bigReader, smallReader, metaReader)
 	obj, err := objects.GetObjects(parsedAccessor, sortBy)
 	if err != nil {
@@ -329,6 +339,19 @@ func createSmallReader(smallRecordsReadStorageFile *os.File) (*storage.SmallReco
 	return smallReader, nil
 }
 
+// checkIndex checks that the index was created for this heap dump and not for
+// the previous one having the same name.
+func checkIndex(hprof *os.File, smallReader *storage.SmallRecordsReadStorage) error {
+	fileHeader, err := core.ParseFileHeader(hprof)
+	if err != nil {
+		return fmt.Errorf("error parsing .hprof header: %w", err)
+	}
+	if !fileHeader.Timestamp.Equal(smallReader.Timestamp) || fileHeader.IdentifierSize != smallReader.IdSize {
+		return fmt.Errorf("index was created for another heap dump, remove [%s] and try again", hprof.Name()+storageDirSuffix)
+	}
+	return nil
+}
+
 func createMetaReader(metaReadStorageFile *os.File) (*storage.MetaReadStorage, error) {
 	metaReader := storage.NewMetaReadStorage()
 	if err := metaReader.RestoreFrom(metaReadStorageFile); err != nil {
-- 
2.43.0


From db3dc96d739e88e01157ef16d55f6dfb3257f1c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:36 +0000
Subject: [PATCH 21/26] fix: do not overflow when the timestamp of the dump is
 far in the future

---
 internal/core/file_header_parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/core/file_header_parser.go b/internal/core/file_header_parser.go
index 93e6db3..f850847 100644
--- a/internal/core/file_header_parser.go
+++ b/internal/core/file_header_parser.go
@@ -37,7 +37,7 @@ func ParseFileHeader(heapDump io.Reader) (FileHeader, error) {
 	milli := int64(high)
 	milli <<= 32
 	milli += int64(low)
-	timestamp := time.Unix(0, 0).Add(time.Duration(milli) * time.Millisecond)
+	timestamp := time.UnixMilli(milli)
 	return FileHeader{
 		Header:         header,
 		IdentifierSize: identifiersSize,
-- 
2.43.0


From 9f9d7377638af51cd7c38cb3feb542167a731531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:38 +0000
Subject: [PATCH 22/26] fix: don't allocate memory for more bytes than the dump
 has

Length or count in a malformed dump can be up to 4 GiB, the whole buffer was
allocated before reading.
---
 internal/core/primitive_parsers.go | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/internal/core/primitive_parsers.go b/internal/core/primitive_parsers.go
index 502613b..cb39c3e 100644
--- a/internal/core/primitive_parsers.go
+++ b/internal/core/primitive_parsers.go
@@ -168,12 +168,22 @@ func (parser *PrimitiveParser) ParseJavaValue(ty JavaType) (JavaValue, error) {
 	return JavaValue{}, fmt.Errorf("unexpected Java type: %v", byte(ty))
 }
 
+// maxByteSeqChunk limits the memory allocated before
+// it's known that the bytes are really there.
+const maxByteSeqChunk = 1 << 20
+
 // ParseByteSeq reads n bytes from underlying reader
 func (parser *PrimitiveParser) ParseByteSeq(n int) ([]byte, error) {
-	buf := make([]byte, n)
-	_, err := io.ReadFull(parser.heapDump, buf)
-	if err != nil {
-		return nil, fmt.Errorf("error in ParseByteSeq: %w", err)
+	buf := make([]byte, min(n, maxByteSeqChunk)) // n is not trusted, dump can be malformed
+	for read := 0; ; {
+		count, err := io.ReadFull(parser.heapDump, buf[read:])
+		if err != nil {
+			return nil, fmt.Errorf("error in ParseByteSeq: %w", err)
+		}
+		read += count
+		if read == n {
+			return buf, nil
+		}
+		buf = append(buf, make([]byte, min(n-read, read))...)
 	}
-	return buf, nil
 }
-- 
2.43.0


From d691d242df77e43fe37f9088d3ad87b125b9fd5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:44 +0000
Subject: [PATCH 23/26] fix: decode signatures in linear time

---
 internal/format/format.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/internal/format/format.go b/internal/format/format.go
index aea26a5..311f81e 100644
--- a/internal/format/format.go
+++ b/internal/format/format.go
@@ -28,7 +28,7 @@ func Size(bytes int) string {
 func Signature(signature string) (string, string) {
 	var inClassName bool
 	var dimCount int
-	var classNameBuffer string
+	var classNameBuffer strings.Builder
 	var result []string
 
 	var argLen int
@@ -39,7 +39,7 @@ func Signature(signature string) (string, string) {
 			if s == '/' {
 				s = '.'
 			}
-			classNameBuffer += string(s)
+			classNameBuffer.WriteRune(s)
 			continue
 		}
 		switch s {
@@ -58,17 +58,17 @@ func Signature(signature string) (string, string) {
 			}
 		case ';':
 			inClassName = false
-			result = append(result, classNameBuffer+strings.Repeat("[]", dimCount))
+			result = append(result, classNameBuffer.String()+strings.Repeat("[]", dimCount))
 			*activeLen++
-			classNameBuffer = ""
+			classNameBuffer.Reset()
 			dimCount = 0
 			continue
 		}
 		if inClassName {
 			if s == '/' {
-				classNameBuffer += "."
+				classNameBuffer.WriteByte('.')
 			} else {
-				classNameBuffer += string(s)
+				classNameBuffer.WriteRune(s)
 			}
 
 		} else {
-- 
2.43.0


From 4ec3546c69e740d1e0c15b2574c5d1e824fbf675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:04 +0000
Subject: [PATCH 24/26] fix: show supplementary characters of names

---
 internal/core/base_parsers.go | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/internal/core/base_parsers.go b/internal/core/base_parsers.go
index ee98e38..3d1620c 100644
--- a/internal/core/base_parsers.go
+++ b/internal/core/base_parsers.go
@@ -3,6 +3,8 @@ package core
 import (
 	"fmt"
 	"io"
+	"strings"
+	"unicode/utf8"
 )
 
 func NewRecordParser(heapDump io.Reader, idSize uint32) *RecordParser {
@@ -58,10 +60,34 @@ func (parser *RecordParser) ParseHprofUtf8(remaining uint32) (HprofUtf8, error)
 	}
 	return HprofUtf8{
 		Identifier: identifier,
-		Characters: string(buf),
+		Characters: joinSurrogates(string(buf)),
 	}, nil
 }
 
+// joinSurrogates replaces surrogate pairs with the characters they stand for. JVM
+// writes strings in modified UTF-8 where supplementary character takes two times
+// three bytes (one per surrogate).
+func joinSurrogates(s string) string {
+	if utf8.ValidString(s) {
+		return s
+	}
+	isSurrogate := func(i int, from byte, to byte) bool {
+		return s[i] == 0xED && s[i+1] >= from && s[i+1] <= to && s[i+2]&0xC0 == 0x80
+	}
+	var joined strings.Builder
+	for i := 0; i < len(s); i++ {
+		if i+6 <= len(s) && isSurrogate(i, 0xA0, 0xAF) && isSurrogate(i+3, 0xB0, 0xBF) {
+			high := rune(s[i+1]&0x0F)<<6 | rune(s[i+2]&0x3F)
+			low := rune(s[i+4]&0x0F)<<6 | rune(s[i+5]&0x3F)
+			joined.WriteRune(0x10000 + (high<<10 | low))
+			i += 5
+			continue
+		}
+		joined.WriteByte(s[i])
+	}
+	return joined.String()
+}
+
 // ParseHprofLoadClass reads HPROF_LOAD_CLASS record.
 func (parser *RecordParser) ParseHprofLoadClass() (HprofLoadClass, error) {
 	classSerialNumber, err := parser.primitiveParser.ParseUint32()
-- 
2.43.0


From 4395c125accfb5f065f89a7f2dba7272e162bf09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:03 +0000
Subject: [PATCH 25/26] fix: parse superclasses without recursion

---
 internal/java/heap.go | 55 ++++++++++++++++++++++---------------------
 1 file changed, 28 insertions(+), 27 deletions(-)

diff --git a/internal/java/heap.go b/internal/java/heap.go
index 2d98905..6eb4a7b 100644
--- a/internal/java/heap.go
+++ b/internal/java/heap.go
@@ -123,33 +123,47 @@ func (h *Heap) parseByteArrayFull(arrayObjectId core.Identifier) ([]byte, error)
 // ParseClass parses inforamsion from HPROF_DC_CLASS_DUMP record of a class and all
 // its superclasses.
 func (h *Heap) ParseClass(classId core.Identifier) (Class, error) {
-	return h.parseClass(classId, make(map[core.Identifier]bool))
+	var class Class
+	visited := make(map[core.Identifier]bool) // detects malformed dumps where class is its own superclass
+	for current := &class; ; current = current.Superclass {
+		if visited[classId] {
+			return Class{}, fmt.Errorf("class with id %v is its own superclass", classId)
+		}
+		visited[classId] = true
+		parsed, superclassId, err := h.parseSingleClass(classId)
+		if err != nil {
+			return Class{}, err
+		}
+		*current = parsed
+		// java.lang.Object has superclass id = 0
+		if superclassId == 0 {
+			return class, nil
+		}
+		current.Superclass = new(Class)
+		classId = superclassId
+	}
 }
 
-// parseClass keeps track of already visited classes to
-// detect malformed dumps where class is its own superclass.
-func (h *Heap) parseClass(classId core.Identifier, visited map[core.Identifier]bool) (Class, error) {
-	if visited[classId] {
-		return Class{}, fmt.Errorf("class with id %v is its own superclass", classId)
-	}
-	visited[classId] = true
+// parseSingleClass parses the class without its superclasses
+// and returns the id of the superclass along with it.
+func (h *Heap) parseSingleClass(classId core.Identifier) (Class, core.Identifier, error) {
 	class, err := h.parsedAccessor.GetHprofGcClassDump(classId)
 	if err != nil {
-		return Class{}, fmt.Errorf("error reading class with id %v", classId)
+		return Class{}, 0, fmt.Errorf("error reading class with id %v", classId)
 	}
 	loadClass, err := h.parsedAccessor.GetHprofLoadClassByClassObjectId(class.ClassObjectId)
 	if err != nil {
-		return Class{}, fmt.Errorf("error reading HprofLoadClass by id %v: %w", class.ClassObjectId, err)
+		return Class{}, 0, fmt.Errorf("error reading HprofLoadClass by id %v: %w", class.ClassObjectId, err)
 	}
 	className, err := h.parsedAccessor.GetHprofUtf8(loadClass.ClassNameId)
 	if err != nil {
-		return Class{}, fmt.Errorf("error reading class name: %w", err)
+		return Class{}, 0, fmt.Errorf("error reading class name: %w", err)
 	}
 	var staticFields []StaticField
 	for _, sf := range class.StaticFieldRecords {
 		staticFieldName, err := h.parsedAccessor.GetHprofUtf8(sf.StaticFieldName)
 		if err != nil {
-			return Class{}, fmt.Errorf("error reading field name with id %v: %w", sf.StaticFieldName, err)
+			return Class{}, 0, fmt.Errorf("error reading field name with id %v: %w", sf.StaticFieldName, err)
 		}
 		staticField := StaticField{
 			Name:  staticFieldName.Characters,
@@ -162,7 +176,7 @@ func (h *Heap) parseClass(classId core.Identifier, visited map[core.Identifier]b
 	for _, ins := range class.InstanceFieldRecords {
 		instanceFieldName, err := h.parsedAccessor.GetHprofUtf8(ins.InstanceFieldName)
 		if err != nil {
-			return Class{}, fmt.Errorf("error reading field name with id %v: %w", ins.InstanceFieldName, err)
+			return Class{}, 0, fmt.Errorf("error reading field name with id %v: %w", ins.InstanceFieldName, err)
 		}
 		instanceField := InstanceField{
 			Name: instanceFieldName.Characters,
@@ -171,24 +185,11 @@ func (h *Heap) parseClass(classId core.Identifier, visited map[core.Identifier]b
 		instanceFields = append(instanceFields, instanceField)
 	}
 
-	var superClass *Class
-	// java.lang.Object has superclass id = 0
-	if class.SuperclassObjectId == 0 {
-		superClass = nil
-	} else {
-		// TODO not stack safe, fix
-		sc, err := h.parseClass(class.SuperclassObjectId, visited)
-		if err != nil {
-			return Class{}, fmt.Errorf("error parsing superclass: %w", err)
-		}
-		superClass = &sc
-	}
 	return Class{
 		Name:           className.Characters,
-		Superclass:     superClass,
 		StaticFields:   staticFields,
 		InstanceFields: instanceFields,
-	}, nil
+	}, class.SuperclassObjectId, nil
 }
 
 // AsInstanceOf returns the part of the object that is declared by the given
-- 
2.43.0


From a210390ee16438bd760ce021538f262dd350e6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:54 +0000
Subject: [PATCH 26/26] fix: report errors of writing the plain report

---
 internal/cmd/subcommands.go | 18 ++++++------------
 internal/output/objects.go  | 25 ++++++++++++++-----------
 internal/output/summary.go  | 19 +++++++++++--------
 internal/output/threads.go  | 26 ++++++++++++++++----------
 4 files changed, 47 insertions(+), 41 deletions(-)

diff --git a/internal/cmd/subcommands.go b/internal/cmd/subcommands.go
index ddb7549..9590d36 100644
--- a/internal/cmd/subcommands.go
+++ b/internal/cmd/subcommands.go
@@ -69,11 +69,9 @@ func GetThreads(hprofFileName string, noColor, localVars bool, outputType Output
 	}
 	if outputType == Plain {
 		if noColor {
-			output.ThreadsPlain(threadDump, localVars, os.Stdout)
-			return nil
+			return output.ThreadsPlain(threadDump, localVars, os.Stdout)
 		}
-		output.ThreadsPlainColor(threadDump, localVars)
-		return nil
+		return output.ThreadsPlainColor(threadDump, localVars)
 	}
 	if outputType == Html {
 		return output.ThreadsHtml(threadDump, localVars, os.Stdout)
@@ -122,11 +120,9 @@ func GetSummary(hprofFileName string, noColor, allProps bool, outputType OutputT
 	}
 	if outputType == Plain {
 		if noColor {
-			output.SummaryPlain(s, os.Stdout)
-			return nil
+			return output.SummaryPlain(s, os.Stdout)
 		}
-		output.SummaryPlainColor(s)
-		return nil
+		return output.SummaryPlainColor(s)
 	}
 	if outputType == Html {
 		return output.SummaryHtml(s, os.Stdout)
@@ -175,11 +171,9 @@ func GetObjects(hprofFileName string, noColor bool, sortBy objects.SortBy, outpu
 	}
 	if outputType == Plain {
 		if noColor {
-			output.ObjectsPlain(obj, os.Stdout)
-			return nil
+			return output.ObjectsPlain(obj, os.Stdout)
 		}
-		output.ObjectsPlainColor(obj)
-		return nil
+		return output.ObjectsPlainColor(obj)
 	}
 	if outputType == Html {
 		return output.ObjectsHtml(obj, os.Stdout)
diff --git a/internal/output/objects.go b/internal/output/objects.go
index f98a311..374e13b 100644
--- a/internal/output/objects.go
+++ b/internal/output/objects.go
@@ -1,6 +1,7 @@
 package output
 
 import (
+	"bufio"
 	_ "embed"
 	"strconv"
 
@@ -32,18 +33,19 @@ type printItem struct {
 
 // ObjectsPlain print the result of objects command
 // without colors
-func ObjectsPlain(o objects.Objects, destination io.Writer) {
+func ObjectsPlain(o objects.Objects, destination io.Writer) error {
 	id := func(s string) string { return s }
-	print(o, id, id, id, id, destination)
+	return print(o, id, id, id, id, destination)
 }
 
 // ObjectsPlainColor is the same as ObjectsPlain but
 // with colorful output
-func ObjectsPlainColor(o objects.Objects) {
-	print(o, Bold, Cyan, Yellow, Blue, os.Stdout)
+func ObjectsPlainColor(o objects.Objects) error {
+	return print(o, Bold, Cyan, Yellow, Blue, os.Stdout)
 }
 
-func print(o objects.Objects, headerColor, summaryColor, classNameColor, numColor func(s string) string, destination io.Writer) {
+func print(o objects.Objects, headerColor, summaryColor, classNameColor, numColor func(s string) string, destination io.Writer) error {
+	out := bufio.NewWriter(destination) // remembers the error of writing
 	printObj := getPrintItems(o)
 	const gap = 10
 	var maxName, maxCount, maxSize int
@@ -72,17 +74,18 @@ func print(o objects.Objects, headerColor, summaryColor, classNameColor, numColo
 		return classNameColor(name) + " |" + numColor(count) + " |" + numColor(size) + " |"
 	}
 
-	fmt.Fprintln(destination, summaryColor(fmt.Sprintf("Instances: %v", printObj.TotalCount)))
-	fmt.Fprintln(destination, summaryColor(fmt.Sprintf("Total Size: %v", printObj.TotalSize)))
-	fmt.Fprintln(destination)
+	fmt.Fprintln(out, summaryColor(fmt.Sprintf("Instances: %v", printObj.TotalCount)))
+	fmt.Fprintln(out, summaryColor(fmt.Sprintf("Total Size: %v", printObj.TotalSize)))
+	fmt.Fprintln(out)
 
 	header := alignLeft(printObj.NameHeader, maxName) + " |" + alignRight(printObj.InstancesCountHeader, maxCount) +
 		" |" + alignRight(printObj.TotalSizeHeader, maxSize) + " |"
-	fmt.Fprintln(destination, headerColor(header))
-	fmt.Fprintln(destination, strings.Repeat("-", gap*3+maxName+maxCount+maxSize+6))
+	fmt.Fprintln(out, headerColor(header))
+	fmt.Fprintln(out, strings.Repeat("-", gap*3+maxName+maxCount+maxSize+6))
 	for _, item := range printObj.Items {
-		fmt.Fprintln(destination, stringifyItem(item))
+		fmt.Fprintln(out, stringifyItem(item))
 	}
+	return out.Flush()
 }
 
 func getPrintItems(o objects.Objects) printObject {
diff --git a/internal/output/summary.go b/internal/output/summary.go
index 90eb8e3..cab5fe2 100644
--- a/internal/output/summary.go
+++ b/internal/output/summary.go
@@ -1,6 +1,7 @@
 package output
 
 import (
+	"bufio"
 	_ "embed"
 
 	"fmt"
@@ -16,25 +17,27 @@ import (
 
 // SummaryPlain prints given Properties
 // in beautiful manner
-func SummaryPlain(s summary.Summary, destination io.Writer) {
+func SummaryPlain(s summary.Summary, destination io.Writer) error {
 	identity := func(s string) string { return s }
-	printSummary(s, identity, identity, identity, destination)
+	return printSummary(s, identity, identity, identity, destination)
 }
 
 // SummaryPlainColor prints given Properties
 // in beautiful manner with colors
-func SummaryPlainColor(s summary.Summary) {
-	printSummary(s, Blue, Bold, Cyan, os.Stdout)
+func SummaryPlainColor(s summary.Summary) error {
+	return printSummary(s, Blue, Bold, Cyan, os.Stdout)
 }
 
-func printSummary(s summary.Summary, titleColor, keyColor, valColor func(string) string, destination io.Writer) {
+func printSummary(s summary.Summary, titleColor, keyColor, valColor func(string) string, destination io.Writer) error {
+	out := bufio.NewWriter(destination) // remembers the error of writing
 	props := getPropertiesList(s)
 	maxKeyLen := maxKeyLength(props)
 	for _, p := range props {
-		fmt.Fprintln(destination, "- "+p.Name)
-		printProperties(p.Kv, maxKeyLen, keyColor, valColor, destination)
-		fmt.Fprintln(destination)
+		fmt.Fprintln(out, "- "+p.Name)
+		printProperties(p.Kv, maxKeyLen, keyColor, valColor, out)
+		fmt.Fprintln(out)
 	}
+	return out.Flush()
 }
 
 type Properties struct {
diff --git a/internal/output/threads.go b/internal/output/threads.go
index 122f18b..a83f68b 100644
--- a/internal/output/threads.go
+++ b/internal/output/threads.go
@@ -1,11 +1,13 @@
 package output
 
 import (
+	"bufio"
 	_ "embed"
 
 	"fmt"
 	"html/template"
 	"io"
+	"os"
 	"sort"
 	"strings"
 
@@ -16,20 +18,22 @@ import (
 
 // ThreadsPlain prints given thread dump
 // in beautiful manner
-func ThreadsPlain(threadDump threads.ThreadDump, localVars bool, destination io.Writer) {
+func ThreadsPlain(threadDump threads.ThreadDump, localVars bool, destination io.Writer) error {
+	out := bufio.NewWriter(destination) // remembers the error of writing
 	traces := getSortedStackTraces(threadDump)
 	for _, stackTrace := range traces {
-		fmt.Fprintln(destination, createPrettyThread(stackTrace))
+		fmt.Fprintln(out, createPrettyThread(stackTrace))
 		for _, frame := range stackTrace.Frames {
-			fmt.Fprintf(destination, "    %s\n", createPrettyFrame(frame))
+			fmt.Fprintf(out, "    %s\n", createPrettyFrame(frame))
 			if localVars {
 				for _, local := range frame.LocalFrames {
-					fmt.Fprintf(destination, "        local %s\n", createPrettyStackVariable(local))
+					fmt.Fprintf(out, "        local %s\n", createPrettyStackVariable(local))
 				}
 			}
 		}
-		fmt.Fprintln(destination)
+		fmt.Fprintln(out)
 	}
+	return out.Flush()
 }
 
 func createPrettyThread(stackTrace threads.StackTrace) string {
@@ -89,21 +93,23 @@ func getSortedStackTraces(threadDump threads.ThreadDump) []threads.StackTrace {
 
 // ThreadsPlainColor prints given thread dump
 // in beautiful manner with ANSI colors
-func ThreadsPlainColor(threadDump threads.ThreadDump, localVars bool) {
+func ThreadsPlainColor(threadDump threads.ThreadDump, localVars bool) error {
+	out := bufio.NewWriter(os.Stdout) // remembers the error of writing
 	traces := getSortedStackTraces(threadDump)
 	for _, stackTrace := range traces {
-		fmt.Println(Bold(createPrettyThread(stackTrace)))
+		fmt.Fprintln(out, Bold(createPrettyThread(stackTrace)))
 		for _, frame := range stackTrace.Frames {
-			fmt.Printf("	%s\n", createPrettyColorfulFrame(frame))
+			fmt.Fprintf(out, "	%s\n", createPrettyColorfulFrame(frame))
 			if localVars {
 				for _, local := range frame.LocalFrames {
 					localString := createPrettyStackVariable(local)
-					fmt.Printf("		local %s\n", Blue(localString))
+					fmt.Fprintf(out, "		local %s\n", Blue(localString))
 				}
 			}
 		}
-		fmt.Println()
+		fmt.Fprintln(out)
 	}
+	return out.Flush()
 }
 
 func createPrettyColorfulFrame(frame threads.StackFrame) string {
-- 
2.43.0

