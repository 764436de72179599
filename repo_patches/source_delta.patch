From a90a4570c04ee8006becf3ea6b75b192263dfac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:14 +0000
Subject: [PATCH 01/22] fix: read object array elements of dumps with 4-byte
 identifiers

---
 internal/java/heap.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/internal/java/heap.go b/internal/java/heap.go
index f82e707..a9f210c 100644
--- a/internal/java/heap.go
+++ b/internal/java/heap.go
@@ -229,7 +229,12 @@ func (h *Heap) ParseObjectArrayFull(arrayObjectId core.Identifier) (ObjectArray,
 		if err != nil {
 			return ObjectArray{}, fmt.Errorf("error reading element of object array with id %v: %w", arrayObjectId, err)
 		}
-		id := binary.BigEndian.Uint64(e)
+		var id uint64
+		if len(e) == 4 {
+			id = uint64(binary.BigEndian.Uint32(e))
+		} else {
+			id = binary.BigEndian.Uint64(e)
+		}
 		elements = append(elements, core.Identifier(id))
 	}
 	return ObjectArray{
-- 
2.43.0


From 1067b455d12443c22d5d7771861997c12ed42c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:41 +0000
Subject: [PATCH 02/22] fix: a thread whose status has no bit set is NEW, not
 RUNNABLE

---
 internal/threads/models.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/internal/threads/models.go b/internal/threads/models.go
index 7e3f3a1..ae6c650 100644
--- a/internal/threads/models.go
+++ b/internal/threads/models.go
@@ -58,9 +58,7 @@ func (ts ThreadStatus) String() string {
 		return "TIMED_WAITING"
 	} else if ts&ThreadStateTerminated != 0 {
 		return "TERMINATED"
-	} else if ts&ThreadStateAlive != 0 {
-		return "NEW"
 	} else {
-		return "RUNNABLE"
+		return "NEW"
 	}
 }
-- 
2.43.0


From de840c1166bbf5b665fa5753374e2b27fe430a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:17 +0000
Subject: [PATCH 03/22] fix: objects does not divide by zero when all instances
 are empty

---
 internal/output/objects.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/internal/output/objects.go b/internal/output/objects.go
index 0792079..5954e6a 100644
--- a/internal/output/objects.go
+++ b/internal/output/objects.go
@@ -113,8 +113,8 @@ func getPrintItems(o objects.Objects) printObject {
 	for _, item := range o.Items {
 		printItems = append(printItems, printItem{
 			Name:           format.ClassName(item.Name),
-			InstancesCount: fmt.Sprintf("%v (%v%%)", item.InstancesCount, 100*item.InstancesCount/o.TotalCount),
-			TotalSize:      fmt.Sprintf("%v (%v%%)", format.Size(item.TotalSize), 100*item.TotalSize/o.TotalSize),
+			InstancesCount: fmt.Sprintf("%v (%v%%)", item.InstancesCount, percent(item.InstancesCount, o.TotalCount)),
+			TotalSize:      fmt.Sprintf("%v (%v%%)", format.Size(item.TotalSize), percent(item.TotalSize, o.TotalSize)),
 		})
 	}
 	printObj.TotalCount = strconv.Itoa(o.TotalCount)
@@ -123,6 +123,13 @@ func getPrintItems(o objects.Objects) printObject {
 	return printObj
 }
 
+func percent(part, total int) int {
+	if total == 0 {
+		return 0
+	}
+	return 100 * part / total
+}
+
 var (
 	//go:embed templates/objects.html
 	objectsHtml string
-- 
2.43.0


From f31fe01bd1bc54a23c5727fd1a87d4ffae39005e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:18 +0000
Subject: [PATCH 04/22] fix: order objects rows of equal key by the printed
 name, and equal names too

---
 internal/output/objects.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/internal/output/objects.go b/internal/output/objects.go
index 5954e6a..a5bc54f 100644
--- a/internal/output/objects.go
+++ b/internal/output/objects.go
@@ -95,7 +95,11 @@ func getPrintItems(o objects.Objects) printObject {
 		}
 		sort.Slice(o.Items, func(i, j int) bool {
 			if o.Items[i].TotalSize == o.Items[j].TotalSize {
-				return o.Items[i].Name < o.Items[j].Name
+				iName, jName := format.ClassName(o.Items[i].Name), format.ClassName(o.Items[j].Name)
+				if iName == jName {
+					return o.Items[i].InstancesCount > o.Items[j].InstancesCount
+				}
+				return iName < jName
 			}
 			return o.Items[i].TotalSize > o.Items[j].TotalSize
 		})
@@ -105,7 +109,11 @@ func getPrintItems(o objects.Objects) printObject {
 		}
 		sort.Slice(o.Items, func(i, j int) bool {
 			if o.Items[i].InstancesCount == o.Items[j].InstancesCount {
-				return o.Items[i].Name < o.Items[j].Name
+				iName, jName := format.ClassName(o.Items[i].Name), format.ClassName(o.Items[j].Name)
+				if iName == jName {
+					return o.Items[i].TotalSize > o.Items[j].TotalSize
+				}
+				return iName < jName
 			}
 			return o.Items[i].InstancesCount > o.Items[j].InstancesCount
 		})
-- 
2.43.0


From 7a5b8c41b872e4bf1455094401ac7721d63fbfab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:15 +0000
Subject: [PATCH 05/22] fix: refuse dumps with unknown heap sub-records instead
 of skipping a byte

---
 internal/dump/parser.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/dump/parser.go b/internal/dump/parser.go
index 9504907..522e4cf 100644
--- a/internal/dump/parser.go
+++ b/internal/dump/parser.go
@@ -220,6 +220,8 @@ func (parser *Parser) ParseHeapDump() error {
 					}
 					parser.pos--
 					break loop
+				default:
+					return fmt.Errorf("unknown sub-record type: %v", subRecordHeader.SubRecordType)
 				}
 			}
 		case core.HprofHeapDumpEndTag:
-- 
2.43.0


From 79f9a64912277de3f690601526be0db8de0a5c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:17 +0000
Subject: [PATCH 06/22] fix: end a heap dump segment where its header says it
 ends

---
 internal/dump/parser.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/internal/dump/parser.go b/internal/dump/parser.go
index 522e4cf..d0cec75 100644
--- a/internal/dump/parser.go
+++ b/internal/dump/parser.go
@@ -116,8 +116,17 @@ func (parser *Parser) ParseHeapDump() error {
 			parser.smallRecordsWriteStorage.PutHprofTrace(record)
 			parser.pos += int(header.Remaining)
 		case core.HprofHeapDumpSegmentTag:
+			// zero means that the length is unknown, such a segment
+			// lasts until the next segment or the end of the dump
+			segmentEnd := parser.pos + int(header.Remaining)
 		loop:
 			for {
+				if header.Remaining != 0 && parser.pos >= segmentEnd {
+					if parser.pos > segmentEnd {
+						return fmt.Errorf("sub-record crosses the end of its segment at %v", segmentEnd)
+					}
+					break loop
+				}
 				subRecordHeader, err := recordParser.ParseSubRecordHeader()
 				if err != nil {
 					return fmt.Errorf("error parsing sub-record type: %w", err)
@@ -209,12 +218,18 @@ func (parser *Parser) ParseHeapDump() error {
 						return fmt.Errorf("error discarding records of HprofGcPrimArrayDump: %w", err)
 					}
 				case core.HprofHeapDumpEndSubRecord:
+					if header.Remaining != 0 {
+						return fmt.Errorf("segment ends at %v before its declared end %v", parser.pos-1, segmentEnd)
+					}
 					if err := unreadByte(bufferedHeapDump); err != nil {
 						return fmt.Errorf("error unreading byte at HprofHeapDumpEndSubRecord: %w", err)
 					}
 					parser.pos--
 					break loop
 				case core.HprofHeapDumpSegmentSubRecord:
+					if header.Remaining != 0 {
+						return fmt.Errorf("segment ends at %v before its declared end %v", parser.pos-1, segmentEnd)
+					}
 					if err := unreadByte(bufferedHeapDump); err != nil {
 						return fmt.Errorf("error unreading byte at HprofHeapDumpSegmentSubRecord: %w", err)
 					}
-- 
2.43.0


From 85b94be583a1ba200255baeb496bb620c106fa5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:49 +0000
Subject: [PATCH 07/22] fix: report unknown Java types as errors instead of
 panicking

---
 internal/core/base_parsers.go | 6 ++++++
 internal/core/types.go        | 5 +++++
 2 files changed, 11 insertions(+)

diff --git a/internal/core/base_parsers.go b/internal/core/base_parsers.go
index 90f2206..8ddee36 100644
--- a/internal/core/base_parsers.go
+++ b/internal/core/base_parsers.go
@@ -428,6 +428,9 @@ func (parser *RecordParser) parseHprofGcClassDumpInstanceFieldsRecord() (HprofGc
 	if err != nil {
 		return HprofGcClassDumpInstanceFieldsRecord{}, fmt.Errorf("error in ParseHprofGcClassDumpInstanceFieldsRecord: %w", err)
 	}
+	if !ty.valid() {
+		return HprofGcClassDumpInstanceFieldsRecord{}, fmt.Errorf("error in ParseHprofGcClassDumpInstanceFieldsRecord: unexpected Java type: %v", byte(ty))
+	}
 	return HprofGcClassDumpInstanceFieldsRecord{
 		InstanceFieldName: instanceFieldName,
 		Ty:                ty,
@@ -516,6 +519,9 @@ func (parser *RecordParser) ParseHprofGcPrimArrayDumpHeader() (HprofGcPrimArrayD
 	if err != nil {
 		return HprofGcPrimArrayDumpHeader{}, fmt.Errorf("error in ParseHprofGcPrimArrayDumpHeader: %w", err)
 	}
+	if !elementType.valid() {
+		return HprofGcPrimArrayDumpHeader{}, fmt.Errorf("error in ParseHprofGcPrimArrayDumpHeader: unexpected Java type: %v", byte(elementType))
+	}
 	return HprofGcPrimArrayDumpHeader{
 		ArrayObjectId:          arrayObjectId,
 		StackTraceSerialNumber: stackTraceSerialNumber,
diff --git a/internal/core/types.go b/internal/core/types.go
index fb7a2b9..f966f74 100644
--- a/internal/core/types.go
+++ b/internal/core/types.go
@@ -70,6 +70,11 @@ func (j JavaType) String() string {
 	return "unknown"
 }
 
+func (j JavaType) valid() bool {
+	_, ok := javaTypeMap[j]
+	return ok
+}
+
 // JavaValue wraps type of the
 // constant and the value converted
 // to corresponding Go type.
-- 
2.43.0


From 4ae187ca1d298eec8766396f8f2c162252bece5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:51 +0000
Subject: [PATCH 08/22] fix: do not trust lengths of a corrupted dump when
 allocating memory

---
 internal/core/base_parsers.go      |  6 ++++--
 internal/core/primitive_parsers.go | 19 +++++++++++++++----
 2 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/internal/core/base_parsers.go b/internal/core/base_parsers.go
index 8ddee36..7ab9e5a 100644
--- a/internal/core/base_parsers.go
+++ b/internal/core/base_parsers.go
@@ -45,8 +45,10 @@ func (parser *RecordParser) ParseHprofUtf8(remaining uint32) (HprofUtf8, error)
 	if err != nil {
 		return HprofUtf8{}, fmt.Errorf("error in ParseHprofUtf8: %w", err)
 	}
-	buf := make([]byte, remaining-parser.primitiveParser.identifierSize)
-	_, err = io.ReadFull(parser.primitiveParser.heapDump, buf)
+	if remaining < parser.primitiveParser.identifierSize {
+		return HprofUtf8{}, fmt.Errorf("error in ParseHprofUtf8: record of %v bytes is too short", remaining)
+	}
+	buf, err := parser.primitiveParser.ParseByteSeq(int(remaining - parser.primitiveParser.identifierSize))
 	if err != nil {
 		return HprofUtf8{}, fmt.Errorf("error in ParseHprofUtf8: %w", err)
 	}
diff --git a/internal/core/primitive_parsers.go b/internal/core/primitive_parsers.go
index 502613b..ff78c25 100644
--- a/internal/core/primitive_parsers.go
+++ b/internal/core/primitive_parsers.go
@@ -170,10 +170,21 @@ func (parser *PrimitiveParser) ParseJavaValue(ty JavaType) (JavaValue, error) {
 
 // ParseByteSeq reads n bytes from underlying reader
 func (parser *PrimitiveParser) ParseByteSeq(n int) ([]byte, error) {
-	buf := make([]byte, n)
-	_, err := io.ReadFull(parser.heapDump, buf)
-	if err != nil {
-		return nil, fmt.Errorf("error in ParseByteSeq: %w", err)
+	// n comes from the dump and the data may be missing: buf grows
+	// as the data is read
+	const maxChunk = 1 << 20
+	buf := make([]byte, 0, min(n, maxChunk))
+	for len(buf) < n {
+		if len(buf) == cap(buf) {
+			bigger := make([]byte, len(buf), min(n, 2*cap(buf)))
+			copy(bigger, buf)
+			buf = bigger
+		}
+		read, err := io.ReadFull(parser.heapDump, buf[len(buf):cap(buf)])
+		if err != nil {
+			return nil, fmt.Errorf("error in ParseByteSeq: %w", err)
+		}
+		buf = buf[:len(buf)+read]
 	}
 	return buf, nil
 }
-- 
2.43.0


From eb970637e244868a8cd33cf5e999fab2589f0a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:03 +0000
Subject: [PATCH 09/22] fix: decode Java strings as Latin-1 or UTF-16 as their
 coder tells

---
 internal/java/heap.go | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/internal/java/heap.go b/internal/java/heap.go
index a9f210c..6c77edb 100644
--- a/internal/java/heap.go
+++ b/internal/java/heap.go
@@ -14,6 +14,7 @@ import (
 	"encoding/binary"
 	"fmt"
 	"io"
+	"unicode/utf16"
 
 	"github.com/danielleontiev/neojhat/internal/core"
 	"github.com/danielleontiev/neojhat/internal/dump"
@@ -73,7 +74,11 @@ func (h *Heap) ParseJavaString(str core.JavaValue) (string, error) {
 					if err != nil {
 						return "", fmt.Errorf("error reading `value` array for string %v: %w", str, err)
 					}
-					return string(byteArr), nil
+					coder, err := javaString.GetFieldValueByName("coder")
+					if err != nil { // no compact strings
+						return string(byteArr), nil
+					}
+					return decodeJavaString(byteArr, coder.Value)
 				}
 				return "", fmt.Errorf("malformed java string, `value` is not a reference to array (%T)", value.Value.Value)
 			}
@@ -84,6 +89,27 @@ func (h *Heap) ParseJavaString(str core.JavaValue) (string, error) {
 	return "", fmt.Errorf("passed value (%v) is not reference to object", str)
 }
 
+// decodeJavaString decodes the bytes of java.lang.String. They are either
+// Latin-1 (coder = 0) or UTF-16 in the byte order of the dumped machine,
+// which is not stored in the dump and is expected to be little-endian.
+func decodeJavaString(value []byte, coder core.JavaValue) (string, error) {
+	switch coder.Value {
+	case int8(0):
+		runes := make([]rune, 0, len(value))
+		for _, b := range value {
+			runes = append(runes, rune(b))
+		}
+		return string(runes), nil
+	case int8(1):
+		units := make([]uint16, 0, len(value)/2)
+		for ; len(value) >= 2; value = value[2:] {
+			units = append(units, binary.LittleEndian.Uint16(value))
+		}
+		return string(utf16.Decode(units)), nil
+	}
+	return "", fmt.Errorf("malformed java string, unknown coder %v", coder.Value)
+}
+
 func (h *Heap) parseByteArrayFull(arrayObjectId core.Identifier) ([]byte, error) {
 	header, err := h.parsedAccessor.GetHprofGcPrimArray(arrayObjectId)
 	if err != nil {
-- 
2.43.0


From 251df5c85186b6eaab6924289009ac818cfe4de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:04 +0000
Subject: [PATCH 10/22] fix: report a class that is its own superclass instead
 of overflowing the stack

---
 internal/java/heap.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/internal/java/heap.go b/internal/java/heap.go
index 6c77edb..23aaa22 100644
--- a/internal/java/heap.go
+++ b/internal/java/heap.go
@@ -128,6 +128,14 @@ func (h *Heap) parseByteArrayFull(arrayObjectId core.Identifier) ([]byte, error)
 // ParseClass parses inforamsion from HPROF_DC_CLASS_DUMP record of a class and all
 // its superclasses.
 func (h *Heap) ParseClass(classId core.Identifier) (Class, error) {
+	return h.parseClass(classId, make(map[core.Identifier]bool))
+}
+
+func (h *Heap) parseClass(classId core.Identifier, visited map[core.Identifier]bool) (Class, error) {
+	if visited[classId] {
+		return Class{}, fmt.Errorf("class with id %v is its own superclass", classId)
+	}
+	visited[classId] = true
 	class, err := h.parsedAccessor.GetHprofGcClassDump(classId)
 	if err != nil {
 		return Class{}, fmt.Errorf("error reading class with id %v", classId)
@@ -172,7 +180,7 @@ func (h *Heap) ParseClass(classId core.Identifier) (Class, error) {
 		superClass = nil
 	} else {
 		// TODO not stack safe, fix
-		sc, err := h.ParseClass(class.SuperclassObjectId)
+		sc, err := h.parseClass(class.SuperclassObjectId, visited)
 		if err != nil {
 			return Class{}, fmt.Errorf("error parsing superclass: %w", err)
 		}
-- 
2.43.0


From cbc3cc64c8054af1a70abd237d59a553f6250665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:05 +0000
Subject: [PATCH 11/22] fix: read the fields of Thread and Properties, not
 those of the same name in subclasses

---
 internal/java/heap.go       | 23 +++++++++++++++++++++++
 internal/summary/summary.go |  3 ++-
 internal/threads/threads.go | 14 +++++++++-----
 3 files changed, 34 insertions(+), 6 deletions(-)

diff --git a/internal/java/heap.go b/internal/java/heap.go
index 23aaa22..f3b9200 100644
--- a/internal/java/heap.go
+++ b/internal/java/heap.go
@@ -197,6 +197,16 @@ func (h *Heap) parseClass(classId core.Identifier, visited map[core.Identifier]b
 // GetFieldValueByName extracts instance field value by name of the field as
 // well as name of the class that actually defines requested field.
 func (o *NormalObject) GetFieldValueByName(name string) (FieldValue, error) {
+	return o.getFieldValue(name, "")
+}
+
+// GetFieldValueByNameAndOrigin does the same but only looks at the fields that the
+// given class defines: subclasses may have fields with the same name.
+func (o *NormalObject) GetFieldValueByNameAndOrigin(name, definedBy string) (FieldValue, error) {
+	return o.getFieldValue(name, definedBy)
+}
+
+func (o *NormalObject) getFieldValue(name, definedBy string) (FieldValue, error) {
 	reader := bytes.NewReader(o.Bytes)
 	primitiveParser := core.NewPrimitiveParser(reader, o.identifierSize)
 	var ty core.JavaType
@@ -207,6 +217,10 @@ func (o *NormalObject) GetFieldValueByName(name string) (FieldValue, error) {
 	for class != nil {
 		origin = class.Name
 		found, typ, length := findField(name, class.InstanceFields, o.identifierSize)
+		if found && definedBy != "" && definedBy != origin {
+			found = false
+			length = fieldsSize(class.InstanceFields, o.identifierSize)
+		}
 		offset += length
 		if found {
 			nameFound = true
@@ -250,6 +264,15 @@ func findField(name string, fields []InstanceField, idSize uint32) (found bool,
 	return
 }
 
+func fieldsSize(fields []InstanceField, idSize uint32) int {
+	var size = core.NewSizeInfo(idSize)
+	var total int
+	for _, field := range fields {
+		total += size.OfType(field.Type)
+	}
+	return total
+}
+
 // ParseObjectArrayFull reads the whole object array and
 // returns slice with ObjectArray structs
 func (h *Heap) ParseObjectArrayFull(arrayObjectId core.Identifier) (ObjectArray, error) {
diff --git a/internal/summary/summary.go b/internal/summary/summary.go
index c855894..f687d8d 100644
--- a/internal/summary/summary.go
+++ b/internal/summary/summary.go
@@ -15,6 +15,7 @@ import (
 
 const (
 	javaLangSystemClassName          = "java/lang/System"
+	javaUtilPropertiesClassName      = "java/util/Properties"
 	managementFactoryHelperClassName = "sun/management/ManagementFactoryHelper"
 )
 
@@ -111,7 +112,7 @@ func getAllProps(parsedAccessor *dump.ParsedAccessor) (Properties, error) {
 	if err != nil {
 		return nil, err
 	}
-	propsMapField, err := props.GetFieldValueByName("map")
+	propsMapField, err := props.GetFieldValueByNameAndOrigin("map", javaUtilPropertiesClassName)
 	if err != nil {
 		return nil, err
 	}
diff --git a/internal/threads/threads.go b/internal/threads/threads.go
index 0cd6656..e3e0515 100644
--- a/internal/threads/threads.go
+++ b/internal/threads/threads.go
@@ -25,6 +25,10 @@ import (
 	"github.com/danielleontiev/neojhat/internal/java"
 )
 
+const (
+	javaLangThreadClassName = "java/lang/Thread"
+)
+
 var (
 	UnknownString = "<unknown string>"
 )
@@ -111,7 +115,7 @@ func GetThreadDump(parsedAccessor *dump.ParsedAccessor) (ThreadDump, error) {
 		if err != nil {
 			return ThreadDump{}, err
 		}
-		threadName, err := threadInstance.GetFieldValueByName("name")
+		threadName, err := threadInstance.GetFieldValueByNameAndOrigin("name", javaLangThreadClassName)
 		if err != nil {
 			return ThreadDump{}, err
 		}
@@ -119,7 +123,7 @@ func GetThreadDump(parsedAccessor *dump.ParsedAccessor) (ThreadDump, error) {
 		if err != nil {
 			return ThreadDump{}, err
 		}
-		daemon, err := threadInstance.GetFieldValueByName("daemon")
+		daemon, err := threadInstance.GetFieldValueByNameAndOrigin("daemon", javaLangThreadClassName)
 		if err != nil {
 			return ThreadDump{}, err
 		}
@@ -127,7 +131,7 @@ func GetThreadDump(parsedAccessor *dump.ParsedAccessor) (ThreadDump, error) {
 		if err != nil {
 			return ThreadDump{}, err
 		}
-		priority, err := threadInstance.GetFieldValueByName("priority")
+		priority, err := threadInstance.GetFieldValueByNameAndOrigin("priority", javaLangThreadClassName)
 		if err != nil {
 			return ThreadDump{}, err
 		}
@@ -135,7 +139,7 @@ func GetThreadDump(parsedAccessor *dump.ParsedAccessor) (ThreadDump, error) {
 		if err != nil {
 			return ThreadDump{}, err
 		}
-		threadId, err := threadInstance.GetFieldValueByName("tid")
+		threadId, err := threadInstance.GetFieldValueByNameAndOrigin("tid", javaLangThreadClassName)
 		if err != nil {
 			return ThreadDump{}, err
 		}
@@ -143,7 +147,7 @@ func GetThreadDump(parsedAccessor *dump.ParsedAccessor) (ThreadDump, error) {
 		if err != nil {
 			return ThreadDump{}, err
 		}
-		threadStatus, err := threadInstance.GetFieldValueByName("threadStatus")
+		threadStatus, err := threadInstance.GetFieldValueByNameAndOrigin("threadStatus", javaLangThreadClassName)
 		if err != nil {
 			return ThreadDump{}, err
 		}
-- 
2.43.0


From 57682a715325501afabe11ba62e76f9614e74890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:05 +0000
Subject: [PATCH 12/22] fix: find system properties anywhere in the buckets of
 the hash table

---
 internal/summary/summary.go | 49 +++++++++++++++++++++++++++++++++++--
 1 file changed, 47 insertions(+), 2 deletions(-)

diff --git a/internal/summary/summary.go b/internal/summary/summary.go
index f687d8d..0a37507 100644
--- a/internal/summary/summary.go
+++ b/internal/summary/summary.go
@@ -16,6 +16,8 @@ import (
 const (
 	javaLangSystemClassName          = "java/lang/System"
 	javaUtilPropertiesClassName      = "java/util/Properties"
+	treeBinClassName                 = "java/util/concurrent/ConcurrentHashMap$TreeBin"
+	forwardingNodeClassName          = "java/util/concurrent/ConcurrentHashMap$ForwardingNode"
 	managementFactoryHelperClassName = "sun/management/ManagementFactoryHelper"
 )
 
@@ -137,12 +139,47 @@ func getAllProps(parsedAccessor *dump.ParsedAccessor) (Properties, error) {
 		return nil, err
 	}
 	resultProps := make(map[string]string)
-	for _, nodeObjectId := range table.Elements {
-		if nodeObjectId != 0 {
+	// buckets are lists of nodes linked by "next", trees which are linked the same
+	// way and, while the map is being resized, references to the next table
+	nodeIds := table.Elements
+	visited := make(map[core.Identifier]bool)
+	for len(nodeIds) > 0 {
+		nodeObjectId := nodeIds[0]
+		nodeIds = nodeIds[1:]
+		if nodeObjectId != 0 && !visited[nodeObjectId] {
+			visited[nodeObjectId] = true
 			node, err := heap.ParseNormalObject(nodeObjectId)
 			if err != nil {
 				return nil, err
 			}
+			switch node.Class.Name {
+			case forwardingNodeClassName:
+				nextTableId, err := getReference(node, "nextTable")
+				if err != nil {
+					return nil, err
+				}
+				if nextTableId != 0 && !visited[nextTableId] {
+					visited[nextTableId] = true
+					nextTable, err := heap.ParseObjectArrayFull(nextTableId)
+					if err != nil {
+						return nil, err
+					}
+					nodeIds = append(nodeIds, nextTable.Elements...)
+				}
+				continue
+			case treeBinClassName:
+				first, err := getReference(node, "first")
+				if err != nil {
+					return nil, err
+				}
+				nodeIds = append(nodeIds, first)
+				continue
+			}
+			next, err := getReference(node, "next")
+			if err != nil {
+				return nil, err
+			}
+			nodeIds = append(nodeIds, next)
 			key, err := node.GetFieldValueByName("key")
 			if err != nil {
 				return nil, err
@@ -165,6 +202,14 @@ func getAllProps(parsedAccessor *dump.ParsedAccessor) (Properties, error) {
 	return Properties(resultProps), nil
 }
 
+func getReference(object java.NormalObject, fieldName string) (core.Identifier, error) {
+	field, err := object.GetFieldValueByName(fieldName)
+	if err != nil {
+		return 0, err
+	}
+	return field.Value.ToObject()
+}
+
 func getEnv(props Properties) EnvProperties {
 	return EnvProperties{
 		System:       props["os.name"],
-- 
2.43.0


From b40ce2990093c03999fe7a0b1d2b95613eba4c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:39 +0000
Subject: [PATCH 13/22] fix: keep the progress between 0 and 100 percent for
 empty and growing dumps

---
 internal/cmd/interactive_print.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/internal/cmd/interactive_print.go b/internal/cmd/interactive_print.go
index 0e0cc7e..5f44f9d 100644
--- a/internal/cmd/interactive_print.go
+++ b/internal/cmd/interactive_print.go
@@ -36,8 +36,14 @@ func clearLine() {
 }
 
 func progressBar(max int, positionFn func() int, label string) func() string {
+	var progress float64
 	return func() string {
-		progress := 100 * float64(positionFn()) / float64(max)
+		// the dump may be empty or grow while it is being read
+		if position := positionFn(); max > 0 && position < max {
+			progress = 100 * float64(position) / float64(max)
+		} else {
+			progress = 100
+		}
 		blocksNumber := int(progress / 2)
 		blocks := strings.Repeat("▮", blocksNumber) + strings.Repeat("▯", 50-blocksNumber)
 		str := fmt.Sprintf("%s: %.2f%% [%s]", label, progress, blocks)
-- 
2.43.0


From 711101624a29318bd4b726ec7969e377eba553ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:40 +0000
Subject: [PATCH 14/22] fix: erase the progress line when indexing fails

---
 internal/cmd/subcommands.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/cmd/subcommands.go b/internal/cmd/subcommands.go
index fe97a22..d115a22 100644
--- a/internal/cmd/subcommands.go
+++ b/internal/cmd/subcommands.go
@@ -211,10 +211,11 @@ func ParseHprof(hprofFileName string, nonInteractive bool) error {
 	metaWriter := storage.NewMetaWriteStorage()
 	parser := dump.NewParser(hprof, smallWriter, bigWriter, metaWriter)
 	cancel := interactive(progressBar(int(stat.Size()), parser.GetPosition, "Parsing"), nonInteractive)
-	if err := parser.ParseHeapDump(); err != nil {
+	err = parser.ParseHeapDump()
+	cancel()
+	if err != nil {
 		return fmt.Errorf("can't create index: %w", err)
 	}
-	cancel()
 
 	smallRecordsFile, err := os.OpenFile(hprofFileName+storageDirSuffix+smallRecordsFileName, os.O_APPEND|os.O_WRONLY|os.O_CREATE, 0600)
 	if err != nil {
-- 
2.43.0


From b84a82c476db42d524b0ade5dffa19e279c70fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:41 +0000
Subject: [PATCH 15/22] fix: report reports that could not be written

---
 internal/cmd/subcommands.go | 18 ++++++------------
 internal/output/objects.go  | 13 ++++++++-----
 internal/output/summary.go  | 13 ++++++++-----
 internal/output/threads.go  | 18 ++++++++++++------
 4 files changed, 34 insertions(+), 28 deletions(-)

diff --git a/internal/cmd/subcommands.go b/internal/cmd/subcommands.go
index d115a22..3fc6090 100644
--- a/internal/cmd/subcommands.go
+++ b/internal/cmd/subcommands.go
@@ -63,11 +63,9 @@ func GetThreads(hprofFileName string, noColor, localVars bool, outputType Output
 	}
 	if outputType == Plain {
 		if noColor {
-			output.ThreadsPlain(threadDump, localVars, os.Stdout)
-			return nil
+			return output.ThreadsPlain(threadDump, localVars, os.Stdout)
 		}
-		output.ThreadsPlainColor(threadDump, localVars)
-		return nil
+		return output.ThreadsPlainColor(threadDump, localVars)
 	}
 	if outputType == Html {
 		return output.ThreadsHtml(threadDump, localVars, os.Stdout)
@@ -113,11 +111,9 @@ func GetSummary(hprofFileName string, noColor, allProps bool, outputType OutputT
 	}
 	if outputType == Plain {
 		if noColor {
-			output.SummaryPlain(s, os.Stdout)
-			return nil
+			return output.SummaryPlain(s, os.Stdout)
 		}
-		output.SummaryPlainColor(s)
-		return nil
+		return output.SummaryPlainColor(s)
 	}
 	if outputType == Html {
 		return output.SummaryHtml(s, os.Stdout)
@@ -163,11 +159,9 @@ func GetObjects(hprofFileName string, noColor bool, sortBy objects.SortBy, outpu
 	}
 	if outputType == Plain {
 		if noColor {
-			output.ObjectsPlain(obj, os.Stdout)
-			return nil
+			return output.ObjectsPlain(obj, os.Stdout)
 		}
-		output.ObjectsPlainColor(obj)
-		return nil
+		return output.ObjectsPlainColor(obj)
 	}
 	if outputType == Html {
 		return output.ObjectsHtml(obj, os.Stdout)
diff --git a/internal/output/objects.go b/internal/output/objects.go
index a5bc54f..7846792 100644
--- a/internal/output/objects.go
+++ b/internal/output/objects.go
@@ -4,6 +4,7 @@ import (
 	_ "embed"
 	"strconv"
 
+	"bufio"
 	"fmt"
 	"html/template"
 	"io"
@@ -32,18 +33,19 @@ type printItem struct {
 
 // ObjectsPlain print the result of objects command
 // without colors
-func ObjectsPlain(o objects.Objects, destination io.Writer) {
+func ObjectsPlain(o objects.Objects, destination io.Writer) error {
 	id := func(s string) string { return s }
-	print(o, id, id, id, id, destination)
+	return print(o, id, id, id, id, destination)
 }
 
 // ObjectsPlainColor is the same as ObjectsPlain but
 // with colorful output
-func ObjectsPlainColor(o objects.Objects) {
-	print(o, Bold, Cyan, Yellow, Blue, os.Stdout)
+func ObjectsPlainColor(o objects.Objects) error {
+	return print(o, Bold, Cyan, Yellow, Blue, os.Stdout)
 }
 
-func print(o objects.Objects, headerColor, summaryColor, classNameColor, numColor func(s string) string, destination io.Writer) {
+func print(o objects.Objects, headerColor, summaryColor, classNameColor, numColor func(s string) string, writer io.Writer) error {
+	destination := bufio.NewWriter(writer)
 	printObj := getPrintItems(o)
 	const gap = 10
 	var maxName, maxCount, maxSize int
@@ -83,6 +85,7 @@ func print(o objects.Objects, headerColor, summaryColor, classNameColor, numColo
 	for _, item := range printObj.Items {
 		fmt.Fprintln(destination, stringifyItem(item))
 	}
+	return destination.Flush()
 }
 
 func getPrintItems(o objects.Objects) printObject {
diff --git a/internal/output/summary.go b/internal/output/summary.go
index 90eb8e3..9644a6a 100644
--- a/internal/output/summary.go
+++ b/internal/output/summary.go
@@ -3,6 +3,7 @@ package output
 import (
 	_ "embed"
 
+	"bufio"
 	"fmt"
 	"html/template"
 	"io"
@@ -16,18 +17,19 @@ import (
 
 // SummaryPlain prints given Properties
 // in beautiful manner
-func SummaryPlain(s summary.Summary, destination io.Writer) {
+func SummaryPlain(s summary.Summary, destination io.Writer) error {
 	identity := func(s string) string { return s }
-	printSummary(s, identity, identity, identity, destination)
+	return printSummary(s, identity, identity, identity, destination)
 }
 
 // SummaryPlainColor prints given Properties
 // in beautiful manner with colors
-func SummaryPlainColor(s summary.Summary) {
-	printSummary(s, Blue, Bold, Cyan, os.Stdout)
+func SummaryPlainColor(s summary.Summary) error {
+	return printSummary(s, Blue, Bold, Cyan, os.Stdout)
 }
 
-func printSummary(s summary.Summary, titleColor, keyColor, valColor func(string) string, destination io.Writer) {
+func printSummary(s summary.Summary, titleColor, keyColor, valColor func(string) string, writer io.Writer) error {
+	destination := bufio.NewWriter(writer)
 	props := getPropertiesList(s)
 	maxKeyLen := maxKeyLength(props)
 	for _, p := range props {
@@ -35,6 +37,7 @@ func printSummary(s summary.Summary, titleColor, keyColor, valColor func(string)
 		printProperties(p.Kv, maxKeyLen, keyColor, valColor, destination)
 		fmt.Fprintln(destination)
 	}
+	return destination.Flush()
 }
 
 type Properties struct {
diff --git a/internal/output/threads.go b/internal/output/threads.go
index 92257f1..6d6e7b5 100644
--- a/internal/output/threads.go
+++ b/internal/output/threads.go
@@ -3,9 +3,11 @@ package output
 import (
 	_ "embed"
 
+	"bufio"
 	"fmt"
 	"html/template"
 	"io"
+	"os"
 	"sort"
 	"strings"
 
@@ -16,7 +18,8 @@ import (
 
 // ThreadsPlain prints given thread dump
 // in beautiful manner
-func ThreadsPlain(threadDump threads.ThreadDump, localVars bool, destination io.Writer) {
+func ThreadsPlain(threadDump threads.ThreadDump, localVars bool, writer io.Writer) error {
+	destination := bufio.NewWriter(writer)
 	traces := getSortedStackTraces(threadDump)
 	for _, stackTrace := range traces {
 		fmt.Fprintln(destination, createPrettyThread(stackTrace))
@@ -30,6 +33,7 @@ func ThreadsPlain(threadDump threads.ThreadDump, localVars bool, destination io.
 		}
 		fmt.Fprintln(destination)
 	}
+	return destination.Flush()
 }
 
 func createPrettyThread(stackTrace threads.StackTrace) string {
@@ -85,21 +89,23 @@ func getSortedStackTraces(threadDump threads.ThreadDump) []threads.StackTrace {
 
 // ThreadsPlainColor prints given thread dump
 // in beautiful manner with ANSI colors
-func ThreadsPlainColor(threadDump threads.ThreadDump, localVars bool) {
+func ThreadsPlainColor(threadDump threads.ThreadDump, localVars bool) error {
+	destination := bufio.NewWriter(os.Stdout)
 	traces := getSortedStackTraces(threadDump)
 	for _, stackTrace := range traces {
-		fmt.Println(Bold(createPrettyThread(stackTrace)))
+		fmt.Fprintln(destination, Bold(createPrettyThread(stackTrace)))
 		for _, frame := range stackTrace.Frames {
-			fmt.Printf("	%s\n", createPrettyColorfulFrame(frame))
+			fmt.Fprintf(destination, "	%s\n", createPrettyColorfulFrame(frame))
 			if localVars {
 				for _, local := range frame.LocalFrames {
 					localString := createPrettyStackVariable(local)
-					fmt.Printf("		local %s\n", Blue(localString))
+					fmt.Fprintf(destination, "		local %s\n", Blue(localString))
 				}
 			}
 		}
-		fmt.Println()
+		fmt.Fprintln(destination)
 	}
+	return destination.Flush()
 }
 
 func createPrettyColorfulFrame(frame threads.StackFrame) string {
-- 
2.43.0


From e66446ea691f700ed371525ce20d4292f1476811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:42 +0000
Subject: [PATCH 16/22] fix: report errors of writing the end of the index
 files

---
 internal/cmd/subcommands.go | 6 ++++++
 internal/dump/parser.go     | 9 +++++++--
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/internal/cmd/subcommands.go b/internal/cmd/subcommands.go
index 3fc6090..0b76cf9 100644
--- a/internal/cmd/subcommands.go
+++ b/internal/cmd/subcommands.go
@@ -219,6 +219,9 @@ func ParseHprof(hprofFileName string, nonInteractive bool) error {
 	if err := smallWriter.SerializeTo(smallRecordsFile); err != nil {
 		return fmt.Errorf("can't close small writer: %w", err)
 	}
+	if err := smallRecordsFile.Close(); err != nil {
+		return fmt.Errorf("can't close small writer: %w", err)
+	}
 	metaFile, err := os.OpenFile(hprofFileName+storageDirSuffix+metaFileName, os.O_APPEND|os.O_WRONLY|os.O_CREATE, 0600)
 	if err != nil {
 		return err
@@ -227,6 +230,9 @@ func ParseHprof(hprofFileName string, nonInteractive bool) error {
 	if err := metaWriter.SerializeTo(metaFile); err != nil {
 		return fmt.Errorf("can't close meta writer: %w", err)
 	}
+	if err := metaFile.Close(); err != nil {
+		return fmt.Errorf("can't close meta writer: %w", err)
+	}
 	return nil
 }
 
diff --git a/internal/dump/parser.go b/internal/dump/parser.go
index d0cec75..84655ab 100644
--- a/internal/dump/parser.go
+++ b/internal/dump/parser.go
@@ -58,7 +58,7 @@ func (creator *Parser) GetPosition() int {
 
 // ParseHeapDump parses heap dump to storages.
 // Can be used with arbitrary io.Reader.
-func (parser *Parser) ParseHeapDump() error {
+func (parser *Parser) ParseHeapDump() (err error) {
 	bufferedHeapDump := bufio.NewReader(parser.heapDump)
 	fileHeader, err := core.ParseFileHeader(bufferedHeapDump)
 	if err != nil {
@@ -75,7 +75,12 @@ func (parser *Parser) ParseHeapDump() error {
 
 	parser.pos = 31
 
-	defer parser.bigRecordsWriteStorage.Close()
+	defer func() {
+		// the last records are written on close
+		if closeErr := parser.bigRecordsWriteStorage.Close(); err == nil {
+			err = closeErr
+		}
+	}()
 
 	for {
 		header, err := recordParser.ParseRecordHeader()
-- 
2.43.0


From 2fb148e1ce58e5b166ab57198fdca7091885e30c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:28 +0000
Subject: [PATCH 17/22] fix: build the index aside, so that interrupted, failed
 and concurrent runs leave no incomplete index

---
 internal/cmd/subcommands.go | 124 +++++++++++++++++++++++++++++-------
 1 file changed, 102 insertions(+), 22 deletions(-)

diff --git a/internal/cmd/subcommands.go b/internal/cmd/subcommands.go
index 0b76cf9..0597bc1 100644
--- a/internal/cmd/subcommands.go
+++ b/internal/cmd/subcommands.go
@@ -3,6 +3,7 @@ package cmd
 import (
 	"fmt"
 	"os"
+	"runtime"
 
 	"github.com/danielleontiev/neojhat/internal/dump"
 	"github.com/danielleontiev/neojhat/internal/objects"
@@ -32,19 +33,23 @@ func GetThreads(hprofFileName string, noColor, localVars bool, outputType Output
 	}
 	defer hprof.Close()
 
-	smallRecordsDumpFile, err := os.Open(hprofFileName + storageDirSuffix + smallRecordsFileName)
+	storageDir, err := storageDirOf(hprof)
+	if err != nil {
+		return err
+	}
+	smallRecordsDumpFile, err := os.Open(storageDir + smallRecordsFileName)
 	if err != nil {
 		return err
 	}
 	defer smallRecordsDumpFile.Close()
 
-	metaDumpFile, err := os.Open(hprofFileName + storageDirSuffix + metaFileName)
+	metaDumpFile, err := os.Open(storageDir + metaFileName)
 	if err != nil {
 		return err
 	}
 	defer metaDumpFile.Close()
 
-	bigReader, err := createBigReader(hprofFileName)
+	bigReader, err := createBigReader(storageDir)
 	if err != nil {
 		return err
 	}
@@ -80,19 +85,23 @@ func GetSummary(hprofFileName string, noColor, allProps bool, outputType OutputT
 	}
 	defer hprof.Close()
 
-	smallRecordsDumpFile, err := os.Open(hprofFileName + storageDirSuffix + smallRecordsFileName)
+	storageDir, err := storageDirOf(hprof)
+	if err != nil {
+		return err
+	}
+	smallRecordsDumpFile, err := os.Open(storageDir + smallRecordsFileName)
 	if err != nil {
 		return err
 	}
 	defer smallRecordsDumpFile.Close()
 
-	metaDumpFile, err := os.Open(hprofFileName + storageDirSuffix + metaFileName)
+	metaDumpFile, err := os.Open(storageDir + metaFileName)
 	if err != nil {
 		return err
 	}
 	defer metaDumpFile.Close()
 
-	bigReader, err := createBigReader(hprofFileName)
+	bigReader, err := createBigReader(storageDir)
 	if err != nil {
 		return err
 	}
@@ -128,19 +137,23 @@ func GetObjects(hprofFileName string, noColor bool, sortBy objects.SortBy, outpu
 	}
 	defer hprof.Close()
 
-	smallRecordsDumpFile, err := os.Open(hprofFileName + storageDirSuffix + smallRecordsFileName)
+	storageDir, err := storageDirOf(hprof)
+	if err != nil {
+		return err
+	}
+	smallRecordsDumpFile, err := os.Open(storageDir + smallRecordsFileName)
 	if err != nil {
 		return err
 	}
 	defer smallRecordsDumpFile.Close()
 
-	metaDumpFile, err := os.Open(hprofFileName + storageDirSuffix + metaFileName)
+	metaDumpFile, err := os.Open(storageDir + metaFileName)
 	if err != nil {
 		return err
 	}
 	defer metaDumpFile.Close()
 
-	bigReader, err := createBigReader(hprofFileName)
+	bigReader, err := createBigReader(storageDir)
 	if err != nil {
 		return err
 	}
@@ -176,28 +189,95 @@ func ParseHprof(hprofFileName string, nonInteractive bool) error {
 	}
 	defer hprof.Close()
 
-	if err = os.Mkdir(hprofFileName+storageDirSuffix, os.ModePerm); err != nil {
-		if os.IsExist(err) {
-			return nil
-		}
+	storageDir, err := storageDirOf(hprof)
+	if err != nil {
+		return err
+	}
+	if _, err := os.Stat(storageDir); err == nil {
+		return nil
+	} else if !os.IsNotExist(err) {
+		return fmt.Errorf("can't open index: %w", err)
+	}
+
+	if err = os.Mkdir(hprofFileName+storageDirSuffix, os.ModePerm); err != nil && !os.IsExist(err) {
 		return fmt.Errorf("can't create index: %w", err)
 	}
+	// The index is built aside and appears under its name when it is complete and on disk
+	buildDir, err := os.MkdirTemp(hprofFileName+storageDirSuffix, "build-")
+	if err != nil {
+		return fmt.Errorf("can't create index: %w", err)
+	}
+	defer os.RemoveAll(buildDir)
+	if err := buildIndex(hprof, buildDir+"/", nonInteractive); err != nil {
+		return err
+	}
+	if err := syncDir(buildDir); err != nil {
+		return fmt.Errorf("can't save index: %w", err)
+	}
+	if err := os.Rename(buildDir, storageDir); err != nil {
+		if _, statErr := os.Stat(storageDir); statErr == nil {
+			return nil // somebody else was faster
+		}
+		return fmt.Errorf("can't save index: %w", err)
+	}
+	return nil
+}
+
+// storageDirOf returns the name of the directory with the index of the given dump.
+func storageDirOf(hprof *os.File) (string, error) {
+	return hprof.Name() + storageDirSuffix + "index/", nil
+}
+
+// syncDir makes sure that files created in the directory survive a power loss.
+func syncDir(name string) error {
+	if runtime.GOOS == "windows" {
+		return nil
+	}
+	dir, err := os.Open(name)
+	if err != nil {
+		return err
+	}
+	defer dir.Close()
+	return dir.Sync()
+}
+
+// syncedFile is the file whose data is on disk after it is closed.
+type syncedFile struct {
+	*os.File
+}
+
+func createFile(name string) (*syncedFile, error) {
+	file, err := os.OpenFile(name, os.O_APPEND|os.O_WRONLY|os.O_CREATE, 0600)
+	if err != nil {
+		return nil, err
+	}
+	return &syncedFile{file}, nil
+}
+
+func (f *syncedFile) Close() error {
+	if err := f.File.Sync(); err != nil {
+		f.File.Close()
+		return err
+	}
+	return f.File.Close()
+}
 
+func buildIndex(hprof *os.File, storageDir string, nonInteractive bool) error {
 	stat, err := hprof.Stat()
 	if err != nil {
 		return fmt.Errorf("can't get file stats: %w", err)
 	}
 
 	smallWriter := storage.NewSmallRecordsWriteStorage()
-	instanceDumpIndexFile, err := os.OpenFile(hprofFileName+storageDirSuffix+instanceDumpIndexFileName, os.O_APPEND|os.O_WRONLY|os.O_CREATE, 0600)
+	instanceDumpIndexFile, err := createFile(storageDir + instanceDumpIndexFileName)
 	if err != nil {
 		return err
 	}
-	objArrayDumpIndexFile, err := os.OpenFile(hprofFileName+storageDirSuffix+objArrayDumpIndexFileName, os.O_APPEND|os.O_WRONLY|os.O_CREATE, 0600)
+	objArrayDumpIndexFile, err := createFile(storageDir + objArrayDumpIndexFileName)
 	if err != nil {
 		return err
 	}
-	primArrayDumpIndexFile, err := os.OpenFile(hprofFileName+storageDirSuffix+primArrayDumpIndexFileName, os.O_APPEND|os.O_WRONLY|os.O_CREATE, 0600)
+	primArrayDumpIndexFile, err := createFile(storageDir + primArrayDumpIndexFileName)
 	if err != nil {
 		return err
 	}
@@ -211,7 +291,7 @@ func ParseHprof(hprofFileName string, nonInteractive bool) error {
 		return fmt.Errorf("can't create index: %w", err)
 	}
 
-	smallRecordsFile, err := os.OpenFile(hprofFileName+storageDirSuffix+smallRecordsFileName, os.O_APPEND|os.O_WRONLY|os.O_CREATE, 0600)
+	smallRecordsFile, err := createFile(storageDir + smallRecordsFileName)
 	if err != nil {
 		return err
 	}
@@ -222,7 +302,7 @@ func ParseHprof(hprofFileName string, nonInteractive bool) error {
 	if err := smallRecordsFile.Close(); err != nil {
 		return fmt.Errorf("can't close small writer: %w", err)
 	}
-	metaFile, err := os.OpenFile(hprofFileName+storageDirSuffix+metaFileName, os.O_APPEND|os.O_WRONLY|os.O_CREATE, 0600)
+	metaFile, err := createFile(storageDir + metaFileName)
 	if err != nil {
 		return err
 	}
@@ -236,8 +316,8 @@ func ParseHprof(hprofFileName string, nonInteractive bool) error {
 	return nil
 }
 
-func createBigReader(hprofFileName string) (*storage.BigRecordsReadStorage, error) {
-	instanceDumpFile, err := os.Open(hprofFileName + storageDirSuffix + instanceDumpIndexFileName)
+func createBigReader(storageDir string) (*storage.BigRecordsReadStorage, error) {
+	instanceDumpFile, err := os.Open(storageDir + instanceDumpIndexFileName)
 	if err != nil {
 		return nil, err
 	}
@@ -245,7 +325,7 @@ func createBigReader(hprofFileName string) (*storage.BigRecordsReadStorage, erro
 	if err != nil {
 		return nil, err
 	}
-	objArrayDumpFile, err := os.Open(hprofFileName + storageDirSuffix + objArrayDumpIndexFileName)
+	objArrayDumpFile, err := os.Open(storageDir + objArrayDumpIndexFileName)
 	if err != nil {
 		return nil, err
 	}
@@ -253,7 +333,7 @@ func createBigReader(hprofFileName string) (*storage.BigRecordsReadStorage, erro
 	if err != nil {
 		return nil, err
 	}
-	primArrayDumpFile, err := os.Open(hprofFileName + storageDirSuffix + primArrayDumpIndexFileName)
+	primArrayDumpFile, err := os.Open(storageDir + primArrayDumpIndexFileName)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 22a0f6927d1da67271c93139f31306f14f9c58e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:29 +0000
Subject: [PATCH 18/22] fix: rebuild the index when another dump has taken the
 place of the indexed one

---
 internal/cmd/subcommands.go | 35 ++++++++++++++++++++++++++++++++---
 1 file changed, 32 insertions(+), 3 deletions(-)

diff --git a/internal/cmd/subcommands.go b/internal/cmd/subcommands.go
index 0597bc1..914e372 100644
--- a/internal/cmd/subcommands.go
+++ b/internal/cmd/subcommands.go
@@ -3,7 +3,9 @@ package cmd
 import (
 	"fmt"
 	"os"
+	"path/filepath"
 	"runtime"
+	"strings"
 
 	"github.com/danielleontiev/neojhat/internal/dump"
 	"github.com/danielleontiev/neojhat/internal/objects"
@@ -19,6 +21,7 @@ const (
 
 const (
 	storageDirSuffix           = ".db/"
+	buildDirPrefix             = "build-"
 	instanceDumpIndexFileName  = "instance-dump.idx.bin"
 	objArrayDumpIndexFileName  = "obj-array-dump.idx.bin"
 	primArrayDumpIndexFileName = "prim-array-dump.idx.bin"
@@ -203,7 +206,7 @@ func ParseHprof(hprofFileName string, nonInteractive bool) error {
 		return fmt.Errorf("can't create index: %w", err)
 	}
 	// The index is built aside and appears under its name when it is complete and on disk
-	buildDir, err := os.MkdirTemp(hprofFileName+storageDirSuffix, "build-")
+	buildDir, err := os.MkdirTemp(hprofFileName+storageDirSuffix, buildDirPrefix)
 	if err != nil {
 		return fmt.Errorf("can't create index: %w", err)
 	}
@@ -220,12 +223,38 @@ func ParseHprof(hprofFileName string, nonInteractive bool) error {
 		}
 		return fmt.Errorf("can't save index: %w", err)
 	}
+	removeOtherIndexes(storageDir)
 	return nil
 }
 
-// storageDirOf returns the name of the directory with the index of the given dump.
+// storageDirOf returns the name of the directory with the index of the given dump
+// as it is now, another dump under the same name has another index.
 func storageDirOf(hprof *os.File) (string, error) {
-	return hprof.Name() + storageDirSuffix + "index/", nil
+	stat, err := hprof.Stat()
+	if err != nil {
+		return "", fmt.Errorf("can't get file stats: %w", err)
+	}
+	return fmt.Sprintf("%s%s%d-%d/", hprof.Name(), storageDirSuffix, stat.Size(), stat.ModTime().UnixNano()), nil
+}
+
+// removeOtherIndexes removes indexes of the dumps which had the same name before.
+// They are renamed first: what is found under the name of an index must be complete.
+func removeOtherIndexes(storageDir string) {
+	current := filepath.Clean(storageDir)
+	entries, err := os.ReadDir(filepath.Dir(current))
+	if err != nil {
+		return
+	}
+	for _, entry := range entries {
+		if entry.Name() == filepath.Base(current) || strings.HasPrefix(entry.Name(), buildDirPrefix) {
+			continue
+		}
+		removed := filepath.Join(filepath.Dir(current), buildDirPrefix+entry.Name())
+		os.RemoveAll(removed)
+		if err := os.Rename(filepath.Join(filepath.Dir(current), entry.Name()), removed); err == nil {
+			os.RemoveAll(removed)
+		}
+	}
 }
 
 // syncDir makes sure that files created in the directory survive a power loss.
-- 
2.43.0


From 262ba84437c58fcdcbbb4d6c0ed3a7b477cbdc02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:15 +0000
Subject: [PATCH 19/22] fix: do not remove the index of a newer dump

A run that had indexed a dump which was replaced meanwhile removed the
index of the new dump while other runs were using it: they failed.
Nothing is removed now unless the dump is still the indexed one.
---
 internal/cmd/subcommands.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/internal/cmd/subcommands.go b/internal/cmd/subcommands.go
index 914e372..c4aeda7 100644
--- a/internal/cmd/subcommands.go
+++ b/internal/cmd/subcommands.go
@@ -223,7 +223,7 @@ func ParseHprof(hprofFileName string, nonInteractive bool) error {
 		}
 		return fmt.Errorf("can't save index: %w", err)
 	}
-	removeOtherIndexes(storageDir)
+	removeOtherIndexes(hprofFileName, storageDir)
 	return nil
 }
 
@@ -234,17 +234,26 @@ func storageDirOf(hprof *os.File) (string, error) {
 	if err != nil {
 		return "", fmt.Errorf("can't get file stats: %w", err)
 	}
-	return fmt.Sprintf("%s%s%d-%d/", hprof.Name(), storageDirSuffix, stat.Size(), stat.ModTime().UnixNano()), nil
+	return storageDirName(hprof.Name(), stat), nil
+}
+
+func storageDirName(hprofFileName string, stat os.FileInfo) string {
+	return fmt.Sprintf("%s%s%d-%d/", hprofFileName, storageDirSuffix, stat.Size(), stat.ModTime().UnixNano())
 }
 
 // removeOtherIndexes removes indexes of the dumps which had the same name before.
 // They are renamed first: what is found under the name of an index must be complete.
-func removeOtherIndexes(storageDir string) {
+// Nothing is removed if the dump is another one by now, its index may be in use.
+func removeOtherIndexes(hprofFileName, storageDir string) {
 	current := filepath.Clean(storageDir)
 	entries, err := os.ReadDir(filepath.Dir(current))
 	if err != nil {
 		return
 	}
+	stat, err := os.Stat(hprofFileName)
+	if err != nil || storageDirName(hprofFileName, stat) != storageDir {
+		return
+	}
 	for _, entry := range entries {
 		if entry.Name() == filepath.Base(current) || strings.HasPrefix(entry.Name(), buildDirPrefix) {
 			continue
-- 
2.43.0


From 2b6666aa6572689c9e3d744a8e1d4b6631551ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:24 +0000
Subject: [PATCH 20/22] fix: remove nothing but indexes from the index
 directory

Whatever else a user keeps in <dump>.db was removed with the indexes of
earlier dumps.
---
 internal/cmd/subcommands.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/internal/cmd/subcommands.go b/internal/cmd/subcommands.go
index c4aeda7..ab5ce12 100644
--- a/internal/cmd/subcommands.go
+++ b/internal/cmd/subcommands.go
@@ -5,7 +5,6 @@ import (
 	"os"
 	"path/filepath"
 	"runtime"
-	"strings"
 
 	"github.com/danielleontiev/neojhat/internal/dump"
 	"github.com/danielleontiev/neojhat/internal/objects"
@@ -255,7 +254,7 @@ func removeOtherIndexes(hprofFileName, storageDir string) {
 		return
 	}
 	for _, entry := range entries {
-		if entry.Name() == filepath.Base(current) || strings.HasPrefix(entry.Name(), buildDirPrefix) {
+		if entry.Name() == filepath.Base(current) || !isIndexName(entry.Name()) {
 			continue
 		}
 		removed := filepath.Join(filepath.Dir(current), buildDirPrefix+entry.Name())
@@ -266,6 +265,19 @@ func removeOtherIndexes(hprofFileName, storageDir string) {
 	}
 }
 
+// isIndexName tells whether it is the name of an index or, as of earlier
+// versions, of one of its files.
+func isIndexName(name string) bool {
+	switch name {
+	case instanceDumpIndexFileName, objArrayDumpIndexFileName, primArrayDumpIndexFileName,
+		smallRecordsFileName, metaFileName:
+		return true
+	}
+	var size, modTime int64
+	_, err := fmt.Sscanf(name, "%d-%d", &size, &modTime)
+	return err == nil && name == fmt.Sprintf("%d-%d", size, modTime)
+}
+
 // syncDir makes sure that files created in the directory survive a power loss.
 func syncDir(name string) error {
 	if runtime.GOOS == "windows" {
-- 
2.43.0


From 069eb7227f2dd797047bda4c01043be47e88be58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:04 +0000
Subject: [PATCH 21/22] fix: take the stack of a thread from the trace its root
 names

Stack traces were kept by thread, so that of several traces of one thread the
last one was shown, and a trace that belongs to another thread number was not
found.
---
 internal/storage/small.go   | 8 ++++----
 internal/threads/threads.go | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/internal/storage/small.go b/internal/storage/small.go
index 06fd701..d36be74 100644
--- a/internal/storage/small.go
+++ b/internal/storage/small.go
@@ -89,7 +89,7 @@ func (s *SmallRecordsWriteStorage) PutHprofFrame(record core.HprofFrame) {
 }
 
 func (s *SmallRecordsWriteStorage) PutHprofTrace(record core.HprofTrace) {
-	s.HprofTrace[record.ThreadSerialNumber] = record
+	s.HprofTrace[record.StackTraceSerialNumber] = record
 }
 
 func (s *SmallRecordsWriteStorage) PutHprofGcRootJniGlobal(record core.HprofGcRootJniGlobal) {
@@ -154,10 +154,10 @@ func (s *SmallRecordsReadStorage) GetHprofFrame(stackFrameId core.Identifier) (c
 	return res, nil
 }
 
-func (s *SmallRecordsReadStorage) GetHprofTrace(threadSerialNumber uint32) (core.HprofTrace, error) {
-	res, ok := s.HprofTrace[threadSerialNumber]
+func (s *SmallRecordsReadStorage) GetHprofTrace(stackTraceSerialNumber uint32) (core.HprofTrace, error) {
+	res, ok := s.HprofTrace[stackTraceSerialNumber]
 	if !ok {
-		return core.HprofTrace{}, fmt.Errorf("Cannot find HprofTrace record with threadSerialNumber = %v", threadSerialNumber)
+		return core.HprofTrace{}, fmt.Errorf("Cannot find HprofTrace record with stackTraceSerialNumber = %v", stackTraceSerialNumber)
 	}
 	return res, nil
 }
diff --git a/internal/threads/threads.go b/internal/threads/threads.go
index e3e0515..e8c7ff8 100644
--- a/internal/threads/threads.go
+++ b/internal/threads/threads.go
@@ -155,7 +155,7 @@ func GetThreadDump(parsedAccessor *dump.ParsedAccessor) (ThreadDump, error) {
 		if err != nil {
 			return ThreadDump{}, err
 		}
-		stackTrace, err := parsedAccessor.GetHprofTrace(threadObj.ThreadSequenceNumber)
+		stackTrace, err := parsedAccessor.GetHprofTrace(threadObj.StackTraceSequenceNumber)
 		if err != nil {
 			return ThreadDump{}, err
 		}
-- 
2.43.0


From 5f0a75f9036ea080504056319cbbedde6372ff3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:51 +0000
Subject: [PATCH 22/22] fix: reach the disk under the new name before an old
 index is removed

Without it a power loss could bring back the name of an old index whose
files are gone, on file systems that keep no order between directories.
---
 internal/cmd/subcommands.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/internal/cmd/subcommands.go b/internal/cmd/subcommands.go
index ab5ce12..54dadec 100644
--- a/internal/cmd/subcommands.go
+++ b/internal/cmd/subcommands.go
@@ -253,6 +253,7 @@ func removeOtherIndexes(hprofFileName, storageDir string) {
 	if err != nil || storageDirName(hprofFileName, stat) != storageDir {
 		return
 	}
+	var renamed []string
 	for _, entry := range entries {
 		if entry.Name() == filepath.Base(current) || !isIndexName(entry.Name()) {
 			continue
@@ -260,9 +261,16 @@ func removeOtherIndexes(hprofFileName, storageDir string) {
 		removed := filepath.Join(filepath.Dir(current), buildDirPrefix+entry.Name())
 		os.RemoveAll(removed)
 		if err := os.Rename(filepath.Join(filepath.Dir(current), entry.Name()), removed); err == nil {
-			os.RemoveAll(removed)
+			renamed = append(renamed, removed)
 		}
 	}
+	// the old names must not come back after a power loss when the files are gone
+	if len(renamed) == 0 || syncDir(filepath.Dir(current)) != nil {
+		return
+	}
+	for _, removed := range renamed {
+		os.RemoveAll(removed)
+	}
 }
 
 // isIndexName tells whether it is the name of an index or, as of earlier
-- 
2.43.0

