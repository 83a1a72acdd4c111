From ed1453e186f6985b1e31f1c85fcc4760c4dc0452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:31 +0000
Subject: [PATCH 01/37] fix: resolve patch and query paths as RFC 6901 pointers

A leading slash produced an empty first part, '~1' was decoded before the
path was split, and GetValue panicked on a path without a slash.
---
 internal/tson/tson.go           | 24 ++++++++++++++++++++----
 internal/tsonpatch/tsonpatch.go |  6 +-----
 2 files changed, 21 insertions(+), 9 deletions(-)

diff --git a/internal/tson/tson.go b/internal/tson/tson.go
index d41dc9a..c3fc660 100644
--- a/internal/tson/tson.go
+++ b/internal/tson/tson.go
@@ -100,11 +100,27 @@ func GetValue(t Tson, path string) (v Value, err error) {
 		}
 	}
 
-	rfc6901Decoder := strings.NewReplacer("~1", "/", "~0", "~")
-	path = rfc6901Decoder.Replace(path)
-	parts := strings.Split(path, "/")[1:]
+	return getValue(t, SplitPath(path))
+}
 
-	return getValue(t, parts)
+// rfc6901Decoder decodes a single reference token of a JSON pointer.
+// Note: http://tools.ietf.org/html/rfc6901#section-4 :
+var rfc6901Decoder = strings.NewReplacer("~1", "/", "~0", "~")
+
+// SplitPath splits a path into its decoded parts.
+// A path with a leading slash is a JSON pointer ("/Vehicle/Speed");
+// any other path may also use dots as separators ("Vehicle.Speed").
+func SplitPath(path string) []string {
+	if strings.HasPrefix(path, "/") {
+		path = path[1:]
+	} else {
+		path = strings.ReplaceAll(path, ".", "/")
+	}
+	parts := strings.Split(path, "/")
+	for i, part := range parts {
+		parts[i] = rfc6901Decoder.Replace(part)
+	}
+	return parts
 }
 
 // Equal checks if two TSONs are equal, including timestamps.
diff --git a/internal/tsonpatch/tsonpatch.go b/internal/tsonpatch/tsonpatch.go
index df2802b..3bc2a28 100644
--- a/internal/tsonpatch/tsonpatch.go
+++ b/internal/tsonpatch/tsonpatch.go
@@ -149,11 +149,8 @@ func ApplyPatch(doc tson.Tson, patch Patch) (t tson.Tson, err error) {
 }
 
 func ApplyOperation(doc tson.Tson, op Operation) (t tson.Tson, err error) {
-	path := rfc6901Decoder.Replace(op.Path)
-
 	// Split the path into parts, ignoring the first empty string
-	path = strings.ReplaceAll(path, ".", "/")
-	parts := strings.Split(path, "/")
+	parts := tson.SplitPath(op.Path)
 
 	// Traverse the TSON document
 	if t, err = applyTraverse(doc, parts, op); err != nil {
@@ -434,7 +431,6 @@ func getIndex(part string) (idx int, err error) {
 // Note: http://tools.ietf.org/html/rfc6901#section-4 :
 var (
 	rfc6901Encoder = strings.NewReplacer("~", "~0", "/", "~1")
-	rfc6901Decoder = strings.NewReplacer("~1", "/", "~0", "~")
 )
 
 func makePath(path string, newPart any) string {
-- 
2.43.0


From 06a96b81622ebaad899502bf391072068c8b6fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:47 +0000
Subject: [PATCH 02/37] fix: apply patches without modifying the given document

ApplyOperation wrote into the objects and arrays it was given, so every
snapshot of a document changed with the next patch; ApplyPatch applied
each operation to the original document, returned nil for an empty patch,
and panicked on unsupported operations, on paths below a leaf and on
out-of-range indexes instead of returning an error.
---
 internal/tsonpatch/tsonpatch.go | 66 ++++++++-------------------------
 1 file changed, 16 insertions(+), 50 deletions(-)

diff --git a/internal/tsonpatch/tsonpatch.go b/internal/tsonpatch/tsonpatch.go
index 3bc2a28..7d3ce2a 100644
--- a/internal/tsonpatch/tsonpatch.go
+++ b/internal/tsonpatch/tsonpatch.go
@@ -20,7 +20,9 @@ import (
 	"bytes"
 	"encoding/json"
 	"fmt"
+	"maps"
 	"reflect"
+	"slices"
 	"strconv"
 	"strings"
 
@@ -140,8 +142,9 @@ func GeneratePatchWithTimestamp(origin, modified tson.Tson) (Patch, error) {
 
 // ApplyPatch applies a JSON patch to a TSON document
 func ApplyPatch(doc tson.Tson, patch Patch) (t tson.Tson, err error) {
+	t = doc
 	for _, op := range patch {
-		if t, err = ApplyOperation(doc, op); err != nil {
+		if t, err = ApplyOperation(t, op); err != nil {
 			return nil, err
 		}
 	}
@@ -160,18 +163,23 @@ func ApplyOperation(doc tson.Tson, op Operation) (t tson.Tson, err error) {
 }
 
 // applyTraverse 함수 수정
+// The given document is never modified: every object and array on the path
+// is copied before it is changed, so snapshots can share their subtrees.
 func applyTraverse(doc tson.Tson, parts []string, op Operation) (t tson.Tson, err error) {
 	if len(parts) == 0 { // If the path is empty, return
 		return doc, nil
 	}
 
-	switch doc.(type) { // If doc is a leaf node, return
+	switch doc.(type) { // If doc is a leaf node, there is nothing below it
 	case tson.Leaf[string], tson.Leaf[float64], tson.Leaf[bool]:
-		return doc, nil
+		return nil, fmt.Errorf("applyTraverse(): Cannot %s %s below a leaf", op.Op, op.Path)
 	}
 
 	switch part := parts[0]; j := doc.(type) {
 	case tson.Object:
+		if j = maps.Clone(j); j == nil {
+			j = tson.Object{}
+		}
 		if len(parts) == 1 { // Only a single part of path left
 			switch op.Op { // switch by operation type
 			case OpAdd, OpReplace:
@@ -197,7 +205,7 @@ func applyTraverse(doc tson.Tson, parts []string, op Operation) (t tson.Tson, er
 			case OpRemove:
 				delete(j, part)
 			case OpMove, OpCopy, OpTest:
-				panic(fmt.Sprintf("applyTraverse(): Operation %s not implemented", op.Op))
+				return nil, fmt.Errorf("applyTraverse(): Operation %s not implemented", op.Op)
 			default:
 				return nil, fmt.Errorf("applyTraverse(): Unknown operation %s", op.Op)
 			}
@@ -206,54 +214,11 @@ func applyTraverse(doc tson.Tson, parts []string, op Operation) (t tson.Tson, er
 
 		switch value := j[part].(type) { // Recursively traverse the TSON document
 		case tson.Leaf[string], tson.Leaf[float64], tson.Leaf[bool]:
-			panic("applyTraverse(): Leaf[T] should not be here")
-		case tson.Object:
+			return nil, fmt.Errorf("applyTraverse(): Cannot %s %s below a leaf", op.Op, op.Path)
+		case tson.Object, tson.Array:
 			if j[part], err = applyTraverse(value, parts[1:], op); err != nil {
 				return nil, err
 			}
-		case tson.Array:
-			idx, err := getIndex(parts[1])
-			if err != nil {
-				return nil, err
-			}
-
-			switch op.Op {
-			case OpAdd, OpReplace:
-				if idx >= len(value) {
-					// 배열 크기가 충분하지 않은 경우 확장
-					newArray := make(tson.Array, idx+1)
-					copy(newArray, value)
-					value = newArray
-					j[part] = value
-				}
-
-				// 타입 변환 로직 개선
-				switch opValue := op.Value.(type) {
-				case string:
-					value[idx] = tson.Leaf[string]{Value: opValue, Timestamp: op.Timestamp}
-				case float64:
-					value[idx] = tson.Leaf[float64]{Value: opValue, Timestamp: op.Timestamp}
-				case int:
-					value[idx] = tson.Leaf[float64]{Value: float64(opValue), Timestamp: op.Timestamp}
-				case bool:
-					value[idx] = tson.Leaf[bool]{Value: opValue, Timestamp: op.Timestamp}
-				case nil:
-					return nil, fmt.Errorf("applyTraverse(): Nil value not supported for array element")
-				default:
-					if elem, ok := value[idx].(tson.Object); ok || elem == nil {
-						// 객체나 nil인 경우 재귀적으로 처리
-						if j[part], err = applyTraverse(value[idx], parts[1:], op); err != nil {
-							return nil, err
-						}
-					} else {
-						return nil, fmt.Errorf("applyTraverse(): Unsupported array element type %T", op.Value)
-					}
-				}
-			case OpRemove:
-				j[part] = append(value[:idx], value[idx+1:]...)
-			default:
-				return nil, fmt.Errorf("applyTraverse(): Unknown operation %s", op.Op)
-			}
 		case nil:
 			// 경로가 없는 경우 새로 생성
 			if op.Op == OpAdd || op.Op == OpReplace {
@@ -290,6 +255,7 @@ func applyTraverse(doc tson.Tson, parts []string, op Operation) (t tson.Tson, er
 		}
 
 		// 배열 인덱스 범위 체크 및 확장
+		j = slices.Clone(j)
 		if idx >= len(j) {
 			if op.Op == OpAdd || op.Op == OpReplace {
 				// 배열 확장
@@ -422,7 +388,7 @@ func applyTraverse(doc tson.Tson, parts []string, op Operation) (t tson.Tson, er
 // }
 
 func getIndex(part string) (idx int, err error) {
-	if idx, err = strconv.Atoi(part); err != nil {
+	if idx, err = strconv.Atoi(part); err != nil || idx < 0 {
 		return -1, fmt.Errorf("getIndex(): Invalid index %s", part)
 	}
 	return idx, nil
-- 
2.43.0


From 9690f07efc3602e62f24b809d94ee25a3421d913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:27 +0000
Subject: [PATCH 03/37] fix: generate patches that reproduce the modified
 document

Arrays of different lengths were compared as sets, so the generated patch
did not reproduce the modified array (and panicked on non-leaf elements);
a value of another type at the root or inside an array panicked; and
paths holding quotes or backslashes were written as invalid JSON.
---
 internal/tsonpatch/tsonpatch.go | 148 ++++++++++++--------------------
 1 file changed, 56 insertions(+), 92 deletions(-)

diff --git a/internal/tsonpatch/tsonpatch.go b/internal/tsonpatch/tsonpatch.go
index 7d3ce2a..819094d 100644
--- a/internal/tsonpatch/tsonpatch.go
+++ b/internal/tsonpatch/tsonpatch.go
@@ -91,13 +91,13 @@ type Operation struct {
 func (p *Operation) String() string {
 	var ( // Using vanila JSON here
 		op        = p.Op
-		path      = p.Path
+		path, _   = json.Marshal(p.Path)
 		value, _  = json.Marshal(p.Value)
 		timestamp = p.Timestamp
 		buf       bytes.Buffer
 	)
 	fmt.Fprintf(&buf,
-		`{ "op": "%s", "path": "%s", "value": %s, "timestamp": %d }`,
+		`{ "op": "%s", "path": %s, "value": %s, "timestamp": %d }`,
 		op, path, value, timestamp)
 	return buf.String()
 }
@@ -105,7 +105,11 @@ func (p *Operation) String() string {
 // Marshal converts the Operation to a JSON byte Array.
 func (p *Operation) Marshal() (b []byte, err error) {
 	var buf bytes.Buffer
-	fmt.Fprintf(&buf, `{ "op": "%s", "path": "%s"`, p.Op, p.Path)
+	path, err := json.Marshal(p.Path)
+	if err != nil {
+		return nil, err
+	}
+	fmt.Fprintf(&buf, `{ "op": "%s", "path": %s`, p.Op, path)
 	if p.Value != nil || p.Op == OpReplace || p.Op == OpAdd || p.Op == OpTest {
 		if v, err := json.Marshal(p.Value); err != nil {
 			return nil, err
@@ -472,8 +476,10 @@ func diff(origin, modified tson.Object, path string, patch Patch, withTimestamp
 				patch = append(patch, NewOperation(OpRemove, p, nil, 0))
 			case tson.Array:
 				patch = append(patch, NewOperation(OpRemove, p, nil, 0))
+			case nil:
+				patch = append(patch, NewOperation(OpRemove, p, nil, 0))
 			default:
-				panic(fmt.Sprintf("diff(): Unknown type %T for origValue", origValue))
+				return nil, fmt.Errorf("diff(): Unknown type %T for origValue", origValue)
 			}
 		}
 	}
@@ -482,6 +488,9 @@ func diff(origin, modified tson.Object, path string, patch Patch, withTimestamp
 
 func handleValues(origValue, modValue tson.Value, path string, patch Patch) (Patch, error) {
 	var err error
+	if origValue != nil && reflect.TypeOf(origValue) != reflect.TypeOf(modValue) {
+		return replaceValue(modValue, path, patch)
+	}
 	switch origin := origValue.(type) {
 	case tson.Leaf[string]:
 		if !matchesValue(origValue, modValue) {
@@ -518,7 +527,9 @@ func handleValues(origValue, modValue tson.Value, path string, patch Patch) (Pat
 				return nil, fmt.Errorf("handleValues(): Unknown type %T for modValue", modValue)
 			}
 		} else if len(origin) != len(modified) { // Different array lengths
-			patch = append(patch, compareArray(origin, modified, path)...)
+			if patch, err = compareArray(origin, modified, path, patch, handleValues); err != nil {
+				return nil, err
+			}
 		} else { // Same length, compare elements
 			for i := range modified {
 				patch, err = handleValues(origin[i], modified[i], makePath(path, i), patch)
@@ -551,9 +562,29 @@ func handleValues(origValue, modValue tson.Value, path string, patch Patch) (Pat
 	return patch, nil
 }
 
+// replaceValue replaces a value of another type with the given leaf.
+func replaceValue(modValue tson.Value, path string, patch Patch) (Patch, error) {
+	if path == "" {
+		return nil, fmt.Errorf("replaceValue(): Cannot replace the whole document")
+	}
+	switch modLeaf := modValue.(type) {
+	case tson.Leaf[string]:
+		return append(patch, NewOperation(OpReplace, path, modLeaf.Value, modLeaf.Timestamp)), nil
+	case tson.Leaf[float64]:
+		return append(patch, NewOperation(OpReplace, path, modLeaf.Value, modLeaf.Timestamp)), nil
+	case tson.Leaf[bool]:
+		return append(patch, NewOperation(OpReplace, path, modLeaf.Value, modLeaf.Timestamp)), nil
+	default:
+		return nil, fmt.Errorf("replaceValue(): Unknown type %T for modValue", modValue)
+	}
+}
+
 // handleValuesWithTimestamp는 타임스탬프 변경도 감지하여 패치를 생성합니다.
 func handleValuesWithTimestamp(origValue, modValue tson.Value, path string, patch Patch) (Patch, error) {
 	var err error
+	if origValue != nil && reflect.TypeOf(origValue) != reflect.TypeOf(modValue) {
+		return replaceValue(modValue, path, patch)
+	}
 
 	// 타임스탬프 변경 감지
 	timestampChanged := !matchTimestamp(origValue, modValue)
@@ -605,7 +636,9 @@ func handleValuesWithTimestamp(origValue, modValue tson.Value, path string, patc
 				return nil, fmt.Errorf("handleValuesWithTimestamp(): Unknown type %T for modValue", modValue)
 			}
 		} else if len(origin) != len(modified) { // Different array lengths
-			patch = append(patch, compareArrayWithTimestamp(origin, modified, path)...)
+			if patch, err = compareArray(origin, modified, path, patch, handleValuesWithTimestamp); err != nil {
+				return nil, err
+			}
 		} else { // Same length, compare elements
 			for i := range modified {
 				patch, err = handleValuesWithTimestamp(origin[i], modified[i], makePath(path, i), patch)
@@ -741,23 +774,22 @@ func matchTimestamp(origin, modified tson.Value) bool {
 	return false
 }
 
-// compareArray generates remove and add operations
-func compareArray(origArr, modArr tson.Array, p string) (patch Patch) {
-	// Find elements that need to be removed
-	processArray(origArr, modArr, func(i int, _ any) {
-		// TODO: is there a way to calculate the timestamp?
-		patch = append(patch, NewOperation(OpRemove, makePath(p, i), nil, 0))
-	})
+// compareArray generates the operations for arrays of different lengths.
+// Elements are compared by index, since "add" sets the element at its index.
+func compareArray(origArr, modArr tson.Array, p string, patch Patch,
+	compare func(origValue, modValue tson.Value, path string, patch Patch) (Patch, error)) (Patch, error) {
+	var err error
 
-	reversed := make(Patch, len(patch))
-	for i := 0; i < len(patch); i++ {
-		reversed[len(patch)-1-i] = patch[i]
+	// Elements that exist in both arrays
+	for i := 0; i < min(len(origArr), len(modArr)); i++ {
+		if patch, err = compare(origArr[i], modArr[i], makePath(p, i), patch); err != nil {
+			return nil, err
+		}
 	}
-	patch = reversed
 
 	// Find elements that need to be added.
-	processArray(modArr, origArr, func(i int, value any) {
-		switch leaf := value.(type) {
+	for i := len(origArr); i < len(modArr); i++ {
+		switch leaf := modArr[i].(type) {
 		case tson.Leaf[string]:
 			patch = append(patch, NewOperation(OpAdd, makePath(p, i), leaf.Value, leaf.Timestamp))
 		case tson.Leaf[float64]:
@@ -765,82 +797,14 @@ func compareArray(origArr, modArr tson.Array, p string) (patch Patch) {
 		case tson.Leaf[bool]:
 			patch = append(patch, NewOperation(OpAdd, makePath(p, i), leaf.Value, leaf.Timestamp))
 		default:
-			panic(fmt.Sprintf("compareArray(): Unknown type %T for value", value))
+			return nil, fmt.Errorf("compareArray(): Unknown type %T for value", leaf)
 		}
-	})
-	return patch
-}
+	}
 
-// compareArrayWithTimestamp는 두 배열을 비교하여 패치를 생성합니다. 타임스탬프 변경도 감지합니다.
-func compareArrayWithTimestamp(origArr, modArr tson.Array, p string) (patch Patch) {
-	// Find elements that need to be removed
-	processArray(origArr, modArr, func(i int, _ any) {
+	// Find elements that need to be removed, from the last one.
+	for i := len(origArr) - 1; i >= len(modArr); i-- {
 		// TODO: is there a way to calculate the timestamp?
 		patch = append(patch, NewOperation(OpRemove, makePath(p, i), nil, 0))
-	})
-
-	reversed := make(Patch, len(patch))
-	for i := 0; i < len(patch); i++ {
-		reversed[len(patch)-1-i] = patch[i]
-	}
-	patch = reversed
-
-	// Find elements that need to be added, or have changed values or timestamps
-	for i, value := range modArr {
-		// 원래 배열과 수정된 배열의 같은 인덱스에서 값 또는 타임스탬프 변경 확인
-		if i < len(origArr) {
-			valuesEqual := matchesValue(origArr[i], value)
-			timestampEqual := matchTimestamp(origArr[i], value)
-
-			if !valuesEqual || !timestampEqual {
-				switch leaf := value.(type) {
-				case tson.Leaf[string]:
-					patch = append(patch, NewOperation(OpReplace, makePath(p, i), leaf.Value, leaf.Timestamp))
-				case tson.Leaf[float64]:
-					patch = append(patch, NewOperation(OpReplace, makePath(p, i), leaf.Value, leaf.Timestamp))
-				case tson.Leaf[bool]:
-					patch = append(patch, NewOperation(OpReplace, makePath(p, i), leaf.Value, leaf.Timestamp))
-				}
-			}
-		} else {
-			// 새로 추가된 요소
-			switch leaf := value.(type) {
-			case tson.Leaf[string]:
-				patch = append(patch, NewOperation(OpAdd, makePath(p, i), leaf.Value, leaf.Timestamp))
-			case tson.Leaf[float64]:
-				patch = append(patch, NewOperation(OpAdd, makePath(p, i), leaf.Value, leaf.Timestamp))
-			case tson.Leaf[bool]:
-				patch = append(patch, NewOperation(OpAdd, makePath(p, i), leaf.Value, leaf.Timestamp))
-			default:
-				panic(fmt.Sprintf("compareArrayWithTimestamp(): Unknown type %T for value", value))
-			}
-		}
-	}
-
-	return patch
-}
-
-// processArray processes two arrays calling applyOp whenever a value is absent.
-func processArray(origArr, modArr tson.Array, applyOp func(i int, value any)) {
-	// Note: map[T]struct{} is used to simulate a set.
-	foundIndexes := make(map[int]struct{}, len(origArr))
-	reverseFoundIndexes := make(map[int]struct{}, len(origArr))
-
-	for idx1, value1 := range origArr {
-		for idx2, value2 := range modArr {
-			if _, ok := reverseFoundIndexes[idx2]; ok {
-				// This one is already found.
-				continue
-			}
-			if reflect.DeepEqual(value1, value2) {
-				// Mark this as found
-				foundIndexes[idx1] = struct{}{}
-				reverseFoundIndexes[idx2] = struct{}{}
-				break
-			}
-		}
-		if _, ok := foundIndexes[idx1]; !ok {
-			applyOp(idx1, value1)
-		}
 	}
+	return patch, nil
 }
-- 
2.43.0


From 4d9dca277379b2c652baf224036474af626c7261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:21 +0000
Subject: [PATCH 04/37] fix: read back every document the TSON writer produces

Strings were written with Go escapes the parser rejects, numbers with
exponents were not parsed, null could be neither written nor read inside
objects and arrays, a timestamp after a value was overwritten, and text
after the document was ignored.
---
 internal/tson/serialization.go | 99 +++++++++++++++++++++++++++-------
 internal/tson/tson.go          |  2 +
 2 files changed, 82 insertions(+), 19 deletions(-)

diff --git a/internal/tson/serialization.go b/internal/tson/serialization.go
index 9f7f10d..ac0e252 100644
--- a/internal/tson/serialization.go
+++ b/internal/tson/serialization.go
@@ -14,6 +14,8 @@ import (
 	"fmt"
 	"strconv"
 	"strings"
+	"unicode/utf16"
+	"unicode/utf8"
 )
 
 // ToCompatibleTsonString converts TSON to a string.
@@ -48,6 +50,8 @@ func Marshal(t Tson) ([]byte, error) {
 // array: 	element inside an array (timestamp is printed before the primitive).
 func marshalTson(v Value, ctx int) (string, error) {
 	switch val := v.(type) {
+	case nil:
+		return "null", nil
 	case Object:
 		return marshalObject(val)
 	case Array:
@@ -56,17 +60,17 @@ func marshalTson(v Value, ctx int) (string, error) {
 		if ctx == array {
 			// In array, prefix timestamp before primitive.
 			if val.Timestamp >= 0 { // Timestamp is positive (exists)
-				return fmt.Sprintf("<%d> %q", val.Timestamp, val.Value), nil
+				return fmt.Sprintf("<%d> %s", val.Timestamp, quote(val.Value)), nil
 			}
-			return fmt.Sprintf("<> %q", val.Value), nil // No timestamp
+			return fmt.Sprintf("<> %s", quote(val.Value)), nil // No timestamp
 		} else if ctx == object {
 			// In object, the timestamp is printed with the key.
-			return fmt.Sprintf("%q", val.Value), nil
+			return quote(val.Value), nil
 		} else { // top-level
 			if val.Timestamp >= 0 {
-				return fmt.Sprintf("%q <%d>", val.Value, val.Timestamp), nil
+				return fmt.Sprintf("%s <%d>", quote(val.Value), val.Timestamp), nil
 			}
-			return fmt.Sprintf("%q <>", val.Value), nil
+			return fmt.Sprintf("%s <>", quote(val.Value)), nil
 		}
 	case Leaf[float64]:
 		if ctx == array {
@@ -101,6 +105,15 @@ func marshalTson(v Value, ctx int) (string, error) {
 	}
 }
 
+// quote returns s as a JSON string, which Unmarshal can read back.
+func quote(s string) string {
+	var buf strings.Builder
+	enc := json.NewEncoder(&buf)
+	enc.SetEscapeHTML(false)
+	enc.Encode(s)
+	return strings.TrimSuffix(buf.String(), "\n")
+}
+
 // marshalObject marshals an Object into a TSON object string.
 func marshalObject(obj Object) (string, error) {
 	var (
@@ -114,7 +127,7 @@ func marshalObject(obj Object) (string, error) {
 		} else {
 			first = false
 		}
-		s.WriteString(fmt.Sprintf("%q", key))
+		s.WriteString(quote(key))
 		switch leaf := value.(type) {
 		case Leaf[string]:
 			if leaf.Timestamp >= 0 {
@@ -190,9 +203,9 @@ func marshalIndentValue(v any, currentIndent, indent string, ctx int) (string, e
 	case bool:
 		return fmt.Sprintf("%v", t), nil
 	case float64:
-		return fmt.Sprintf("%.f", t), nil
+		return fmt.Sprintf("%v", t), nil
 	case string:
-		return strconv.Quote(t), nil
+		return quote(t), nil
 
 	case map[string]any:
 		if isLeaf, leafVal, ts := checkLeaf(t); isLeaf {
@@ -228,7 +241,7 @@ func marshalIndentValue(v any, currentIndent, indent string, ctx int) (string, e
 				s.WriteString(",\n")
 			}
 			first = false
-			keyStr := strconv.Quote(key)
+			keyStr := quote(key)
 			if m, ok := val.(map[string]any); ok {
 				if isLeaf, leafVal, ts := checkLeaf(m); isLeaf {
 					primStr, err := formatPrimitive(leafVal)
@@ -294,7 +307,7 @@ func marshalIndentValue(v any, currentIndent, indent string, ctx int) (string, e
 				s.WriteString(",\n")
 			}
 			first = false
-			keyStr := strconv.Quote(key)
+			keyStr := quote(key)
 			// Tson의 값이 Leaf라면, key 뒤에 timestamp를 붙여 출력
 			switch leaf := val.(type) {
 			case Leaf[string]:
@@ -302,7 +315,7 @@ func marshalIndentValue(v any, currentIndent, indent string, ctx int) (string, e
 				if leaf.Timestamp >= 0 {
 					s.WriteString(strconv.FormatInt(leaf.Timestamp, 10))
 				}
-				s.WriteString(">: " + strconv.Quote(leaf.Value))
+				s.WriteString(">: " + quote(leaf.Value))
 			case Leaf[float64]:
 				s.WriteString(currentIndent + indent + keyStr + " <")
 				if leaf.Timestamp >= 0 {
@@ -339,9 +352,9 @@ func marshalIndentValue(v any, currentIndent, indent string, ctx int) (string, e
 			case Leaf[string]:
 				s.WriteString(currentIndent + indent)
 				if leaf.Timestamp >= 0 {
-					s.WriteString(fmt.Sprintf("<%d> %s", leaf.Timestamp, strconv.Quote(leaf.Value)))
+					s.WriteString(fmt.Sprintf("<%d> %s", leaf.Timestamp, quote(leaf.Value)))
 				} else {
-					s.WriteString(fmt.Sprintf("<> %s", strconv.Quote(leaf.Value)))
+					s.WriteString(fmt.Sprintf("<> %s", quote(leaf.Value)))
 				}
 			case Leaf[float64]:
 				s.WriteString(currentIndent + indent)
@@ -369,7 +382,7 @@ func marshalIndentValue(v any, currentIndent, indent string, ctx int) (string, e
 		return s.String(), nil
 
 	case Leaf[string]:
-		primStr := strconv.Quote(t.Value)
+		primStr := quote(t.Value)
 		if ctx == array {
 			if t.Timestamp >= 0 {
 				return fmt.Sprintf("<%d> %s", t.Timestamp, primStr), nil
@@ -420,7 +433,7 @@ func marshalIndentValue(v any, currentIndent, indent string, ctx int) (string, e
 func formatPrimitive(v any) (string, error) {
 	switch t := v.(type) {
 	case string:
-		return strconv.Quote(t), nil
+		return quote(t), nil
 	case float64, int, int64, uint, uint64:
 		return fmt.Sprintf("%v", t), nil
 	case bool:
@@ -442,13 +455,22 @@ type Parser struct {
 // and stores the result in the value pointed to by t.
 func Unmarshal(data []byte, t *Tson) (err error) {
 	p := &Parser{input: data, pos: 0}
-	*t, err = p.parseTson()
-	return err
+	v, err := p.parseTson()
+	if err != nil {
+		return err
+	}
+	if p.skipWhitespace(); p.pos < len(p.input) {
+		return fmt.Errorf("unexpected character '%c' after the value at pos %d", p.peek(), p.pos)
+	}
+	*t = v
+	return nil
 }
 
 // wrapIfPrimitive wraps a raw primitive with a timestamp.
 func wrapIfPrimitive(v any, timestamp int64) Value {
 	switch val := v.(type) {
+	case nil:
+		return nil
 	case string:
 		return Leaf[string]{Value: val, Timestamp: timestamp}
 	case float64:
@@ -635,6 +657,12 @@ func (p *Parser) parseString() (string, error) {
 				result = append(result, '\r')
 			case 't':
 				result = append(result, '\t')
+			case 'u':
+				r, err := p.parseUnicode()
+				if err != nil {
+					return "", err
+				}
+				result = utf8.AppendRune(result, r)
 			default:
 				return "", fmt.Errorf("invalid escape character: %c", esc)
 			}
@@ -647,6 +675,30 @@ func (p *Parser) parseString() (string, error) {
 	return "", fmt.Errorf("unterminated string")
 }
 
+// parseUnicode parses the digits of a \u escape, including surrogate pairs.
+func (p *Parser) parseUnicode() (rune, error) {
+	if p.pos+4 > len(p.input) {
+		return 0, fmt.Errorf("unterminated escape sequence")
+	}
+	n, err := strconv.ParseUint(string(p.input[p.pos:p.pos+4]), 16, 16)
+	if err != nil {
+		return 0, fmt.Errorf("invalid unicode escape at pos %d", p.pos)
+	}
+	p.pos += 4
+	if r := rune(n); !utf16.IsSurrogate(r) {
+		return r, nil
+	}
+	if p.startsWith(`\u`) && p.pos+6 <= len(p.input) {
+		if low, err := strconv.ParseUint(string(p.input[p.pos+2:p.pos+6]), 16, 16); err == nil {
+			if r := utf16.DecodeRune(rune(n), rune(low)); r != utf8.RuneError {
+				p.pos += 6
+				return r, nil
+			}
+		}
+	}
+	return utf8.RuneError, nil
+}
+
 // parseNumber parses a number.
 func (p *Parser) parseNumber() (float64, error) {
 	start := p.pos
@@ -662,6 +714,15 @@ func (p *Parser) parseNumber() (float64, error) {
 			p.pos++
 		}
 	}
+	if p.peek() == 'e' || p.peek() == 'E' {
+		p.pos++
+		if p.peek() == '+' || p.peek() == '-' {
+			p.pos++
+		}
+		for p.pos < len(p.input) && p.input[p.pos] >= '0' && p.input[p.pos] <= '9' {
+			p.pos++
+		}
+	}
 	numStr := string(p.input[start:p.pos])
 	return strconv.ParseFloat(numStr, 64)
 }
@@ -715,7 +776,7 @@ func (p *Parser) parseObject() (Value, error) {
 		}
 		p.skipWhitespace()
 		// optional timestamp after key
-		var ts int64 = 0
+		ts := DefaultTimestamp
 		if p.peek() == '<' {
 			ts, err = p.parseTimestamp()
 			if err != nil {
@@ -759,7 +820,7 @@ func (p *Parser) parseArray() (Value, error) {
 	}
 	for {
 		p.skipWhitespace()
-		var ts int64 = 0
+		ts := DefaultTimestamp
 		if p.peek() == '<' {
 			var err error
 			ts, err = p.parseTimestamp()
diff --git a/internal/tson/tson.go b/internal/tson/tson.go
index c3fc660..3c4ea13 100644
--- a/internal/tson/tson.go
+++ b/internal/tson/tson.go
@@ -169,6 +169,8 @@ func GetLatestTimestamp(t Tson) int64 {
 	}
 
 	switch v := t.(type) {
+	case nil: // null has no timestamp
+		return DefaultTimestamp
 	case Leaf[string]:
 		return v.Timestamp
 	case Leaf[float64]:
-- 
2.43.0


From 9cce930608dc3b6bd738a9cb5d1c343ccf9e5a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:34 +0000
Subject: [PATCH 05/37] fix: keep full timestamps and nulls when reading
 compatible TSON

Timestamps went through float64, so nanosecond timestamps were rounded,
and null or bare values made the reader panic instead of reporting an
error.
---
 internal/tson/tson.go | 59 ++++++++++++++++++++++++++++++++-----------
 1 file changed, 44 insertions(+), 15 deletions(-)

diff --git a/internal/tson/tson.go b/internal/tson/tson.go
index 3c4ea13..d7f744d 100644
--- a/internal/tson/tson.go
+++ b/internal/tson/tson.go
@@ -13,8 +13,10 @@
 package tson
 
 import (
+	"bytes"
 	"encoding/json"
 	"fmt"
+	"io"
 	"reflect"
 	"sort"
 	"strconv"
@@ -232,43 +234,64 @@ func ToCompatibleTsonBytes(t Tson) (j []byte, err error) {
 // FromCompatibleTsonBytes converts a JSON byte array (with leaf nodes as { "value": ..., "timestamp": ... })
 // into a Tson object.
 func FromCompatibleTsonBytes(data []byte, t *Tson) error {
-	var convert func(v any) Value
-	convert = func(v any) Value {
+	var convert func(v any) (Value, error)
+	convert = func(v any) (Value, error) {
 		switch t := v.(type) {
+		case nil:
+			return nil, nil
 		case map[string]any:
 			if isLeaf, leafVal, ts := checkLeaf(t); isLeaf {
-				switch leafVal.(type) {
+				switch leafVal := leafVal.(type) {
 				case string:
-					return Leaf[string]{Value: leafVal.(string), Timestamp: ts}
-				case float64:
-					return Leaf[float64]{Value: leafVal.(float64), Timestamp: ts}
+					return Leaf[string]{Value: leafVal, Timestamp: ts}, nil
+				case json.Number:
+					f, err := leafVal.Float64()
+					return Leaf[float64]{Value: f, Timestamp: ts}, err
 				case bool:
-					return Leaf[bool]{Value: leafVal.(bool), Timestamp: ts}
+					return Leaf[bool]{Value: leafVal, Timestamp: ts}, nil
 				default:
-					return nil // NOT supported
+					return nil, nil // NOT supported
 				}
 			}
 			obj := Object{}
 			for key, val := range t {
-				obj[key] = convert(val)
+				child, err := convert(val)
+				if err != nil {
+					return nil, err
+				}
+				obj[key] = child
 			}
-			return obj
+			return obj, nil
 		case []any:
 			arr := Array{}
 			for _, elem := range t {
-				arr = append(arr, convert(elem))
+				child, err := convert(elem)
+				if err != nil {
+					return nil, err
+				}
+				arr = append(arr, child)
 			}
-			return arr
+			return arr, nil
 		default:
-			panic("FromCompatibleTsonBytes: Not a compatible TSON data")
+			return nil, fmt.Errorf("FromCompatibleTsonBytes: Not a compatible TSON data")
 		}
 	}
 
+	// Timestamps may have more digits than a float64 can hold
+	dec := json.NewDecoder(bytes.NewReader(data))
+	dec.UseNumber()
 	var intermediate any
-	if err := json.Unmarshal(data, &intermediate); err != nil {
+	if err := dec.Decode(&intermediate); err != nil {
 		return err
 	}
-	*t = convert(intermediate)
+	if _, err := dec.Token(); err != io.EOF {
+		return fmt.Errorf("FromCompatibleTsonBytes: Unexpected data after the document")
+	}
+	v, err := convert(intermediate)
+	if err != nil {
+		return err
+	}
+	*t = v
 	return nil
 }
 
@@ -490,6 +513,12 @@ func checkLeaf(m map[string]any) (bool, any, int64) {
 				return true, val, int64(t)
 			case int64:
 				return true, val, t
+			case json.Number:
+				if ts, err := t.Int64(); err == nil {
+					return true, val, ts
+				} else if f, err := t.Float64(); err == nil {
+					return true, val, int64(f)
+				}
 			}
 		}
 	}
-- 
2.43.0


From a6b20eee826d7aa7d20a5d791412ca8e394ce673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:23 +0000
Subject: [PATCH 06/37] fix: accumulate the patches of every version in
 Snapshot

Each version was applied to the nearest earlier snapshot instead of the
state built so far, so versions in between were lost.
---
 internal/logument/logument.go | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/internal/logument/logument.go b/internal/logument/logument.go
index 98dda3b..c477700 100644
--- a/internal/logument/logument.go
+++ b/internal/logument/logument.go
@@ -219,19 +219,15 @@ func (lgm *Logument) Snapshot(vk uint64) tsonSnapshot {
 		panic(err)
 	}
 
-	var timedSnapshot tsonSnapshot
-
-	if latestVersion != vk {
-		// Apply patches from the latest version to the target version
-		for i := latestVersion + 1; i <= vk; i++ {
-			var err error
-			timedSnapshot, err = tsonpatch.ApplyPatch(latestSnapshot, lgm.Patches[i])
-			if err != nil {
-				panic("Failed to make a snapshot with the given version. Error: " + err.Error())
-			}
+	timedSnapshot := latestSnapshot
+
+	// Apply patches from the latest version to the target version
+	for i := latestVersion + 1; i <= vk; i++ {
+		var err error
+		timedSnapshot, err = tsonpatch.ApplyPatch(timedSnapshot, lgm.Patches[i])
+		if err != nil {
+			panic("Failed to make a snapshot with the given version. Error: " + err.Error())
 		}
-	} else {
-		timedSnapshot = latestSnapshot
 	}
 
 	if _, exists := lgm.Snapshots[vk]; !exists {
-- 
2.43.0


From 9d2550aa5ba7ca2fa8bf16aed4208fce70b5e553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:24 +0000
Subject: [PATCH 07/37] fix: let Set and TestSet see the stored patches

TestSet compared with a snapshot that usually does not exist, so unchanged
values were recorded again; the current state missed every stored patch
and was lost when a Set was rejected; and Store kept the caller's slice,
so two documents storing the same patch could overwrite each other.
---
 internal/logument/logument.go | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/internal/logument/logument.go b/internal/logument/logument.go
index c477700..ccaaa3a 100644
--- a/internal/logument/logument.go
+++ b/internal/logument/logument.go
@@ -2,6 +2,7 @@ package logument
 
 import (
 	"fmt"
+	"slices"
 	"sort"
 	"strconv"
 	"strings"
@@ -159,8 +160,16 @@ func (lgm *Logument) Store(inputPatches any) {
 		panic("Invalid type for initialPatches. Must be Patch or []Patch.")
 	}
 
+	// Keep the current state in step with the pending patches
+	for _, patch := range patches {
+		if state, err := tsonpatch.ApplyOperation(lgm.CurrentState, patch); err == nil {
+			lgm.CurrentState = state
+		}
+	}
+
 	if lgm.PatchPool == nil {
-		lgm.PatchPool = patches
+		// The given patches still belong to the caller
+		lgm.PatchPool = slices.Clone(patches)
 	} else {
 		lgm.PatchPool = append(lgm.PatchPool, patches...)
 	}
@@ -524,11 +533,11 @@ func (lgm *Logument) Set(vk uint64, patch tsonpatch.Operation) {
 		return
 	}
 
-	var err error
-	lgm.CurrentState, err = tsonpatch.ApplyOperation(lgm.CurrentState, patch)
+	state, err := tsonpatch.ApplyOperation(lgm.CurrentState, patch)
 	if err != nil {
 		panic(fmt.Sprintf("failed to apply patch: %v", err))
 	}
+	lgm.CurrentState = state
 
 	if lgm.PatchPool == nil {
 		lgm.PatchPool = tsonpatch.Patch{patch}
@@ -548,13 +557,7 @@ func (lgm *Logument) TestSet(vk uint64, patch tsonpatch.Operation) {
 		return
 	}
 
-	latesetSnapshot := lgm.Snapshots[lgm.Version[len(lgm.Version)-1]]
-	// if _, exists := lgm.Snapshots[vk]; !exists {
-	// 	s := lgm.Snapshot(vk)
-	// 	lgm.Snapshots[vk] = s
-	// }
-
-	exist_value, err := tson.GetValue(latesetSnapshot, patch.Path)
+	exist_value, err := tson.GetValue(lgm.CurrentState, patch.Path)
 	if err != nil {
 		lgm.Set(vk,
 			tsonpatch.Operation{
@@ -581,6 +584,9 @@ func leafCompareValue(leafValue tson.Value, value any) bool {
 		if floatVal, ok := value.(float64); ok {
 			return leaf.Value == floatVal
 		}
+		if intVal, ok := value.(int); ok {
+			return leaf.Value == float64(intVal)
+		}
 	case tson.Leaf[bool]:
 		if boolVal, ok := value.(bool); ok {
 			return leaf.Value == boolVal
-- 
2.43.0


From 7ae84919f2c3cdb658895fdf3f63bfe3e991e729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:26 +0000
Subject: [PATCH 08/37] fix: keep Track, Compact and History from losing
 changes

Track returned the unfiltered patches and stored the filtered ones in the
document; a value set again after its removal counted as unchanged, and
removals from the same array were merged; Compact and History matched
'/speedLimit' for '/speed'; History compacted the document itself,
returned the patches in random order and panicked on added paths.
---
 internal/logument/logument.go | 127 +++++++++++++++++++---------------
 1 file changed, 71 insertions(+), 56 deletions(-)

diff --git a/internal/logument/logument.go b/internal/logument/logument.go
index ccaaa3a..40100aa 100644
--- a/internal/logument/logument.go
+++ b/internal/logument/logument.go
@@ -2,6 +2,7 @@ package logument
 
 import (
 	"fmt"
+	"reflect"
 	"slices"
 	"sort"
 	"strconv"
@@ -12,12 +13,6 @@ import (
 	"github.com/davecgh/go-spew/spew"
 )
 
-// Note: http://tools.ietf.org/html/rfc6901#section-4 :
-var (
-	// rfc6901Encoder = strings.NewReplacer("~", "~0", "/", "~1")
-	rfc6901Decoder = strings.NewReplacer("~1", "/", "~0", "~")
-)
-
 type tsonSnapshot = tson.Tson
 type tsonPatches = tsonpatch.Patch // []jsonpatch.Operation
 
@@ -448,7 +443,7 @@ func (lgm *Logument) Track(vi, vj uint64) map[uint64]tsonPatches {
 		}
 	}
 
-	latestValues := make(map[string]any)
+	latestValues := make(valueTracker)
 
 	paths := make([]uint64, 0, len(packedPatches))
 	for path := range packedPatches {
@@ -460,21 +455,12 @@ func (lgm *Logument) Track(vi, vj uint64) map[uint64]tsonPatches {
 		patches := packedPatches[path]
 		compactPatches := make(tsonPatches, 0, len(patches))
 		for _, patch := range patches {
-			// Compare to previous value if it exists at the same path
-			if prev, exists := latestValues[patch.Path]; exists {
-				// If value has changed, keep the patch and update the status bool { return paths[i] < paths[j] })
-				if prev != patch.Value {
-					compactPatches = append(compactPatches, patch)
-					latestValues[patch.Path] = patch.Value
-				}
-				// Skip if value is the same
-			} else {
-				// Always keep the patch when it appears for the first time
+			// Skip if value is the same
+			if latestValues.changes(patch) {
 				compactPatches = append(compactPatches, patch)
-				latestValues[patch.Path] = patch.Value
 			}
 		}
-		lgm.Patches[path] = compactPatches
+		packedPatches[path] = compactPatches
 	}
 
 	return packedPatches
@@ -492,7 +478,7 @@ func (lgm *Logument) TemporalTrack(tsi, tsj int64) map[uint64]tsonPatches {
 	}
 
 	trackedPatches := make(map[uint64]tsonPatches)
-	latestValues := make(map[string]any)
+	latestValues := make(valueTracker)
 
 	versions := lgm.getSortedVersions("patch")
 	for _, version := range versions {
@@ -500,18 +486,9 @@ func (lgm *Logument) TemporalTrack(tsi, tsj int64) map[uint64]tsonPatches {
 		compactPatches := make(tsonPatches, 0, len(ps))
 		for _, p := range ps {
 			if p.Timestamp >= tsi && p.Timestamp <= tsj {
-				// Compare to previous value if it exists at the same path
-				if prev, exists := latestValues[p.Path]; exists {
-					// If value has changed, keep the patch and update the status
-					if prev != p.Value {
-						compactPatches = append(compactPatches, p)
-						latestValues[p.Path] = p.Value
-					}
-					// Skip if value is the same
-				} else {
-					// Always keep the patch when it appears for the first time
+				// Skip if value is the same
+				if latestValues.changes(p) {
 					compactPatches = append(compactPatches, p)
-					latestValues[p.Path] = p.Value
 				}
 			}
 		}
@@ -602,35 +579,70 @@ func (lgm *Logument) Compact(targetPath string) {
 		panic("Versions are not continuous.")
 	}
 
-	latestValues := make(map[string]any)
+	for version, patches := range lgm.compactPatches(targetPath) {
+		lgm.Patches[version] = patches
+	}
+}
+
+// compactPatches returns all patches without those that have changed only the timestamp at the target path
+func (lgm *Logument) compactPatches(targetPath string) map[uint64]tsonPatches {
+	compacted := make(map[uint64]tsonPatches)
+	latestValues := make(valueTracker)
 
 	versions := lgm.getSortedVersions("patch")
 	for _, version := range versions {
 		ps := lgm.Patches[version]
 		compactPatches := make(tsonPatches, 0, len(ps))
 		for _, p := range ps {
-			pt := rfc6901Decoder.Replace(p.Path)
-			if strings.HasPrefix(pt, targetPath) {
-				// Compare to previous value if it exists at the same path
-				if prev, exists := latestValues[p.Path]; exists {
-					// If value has changed, keep the patch and update the status
-					if prev != p.Value {
-						compactPatches = append(compactPatches, p)
-						latestValues[p.Path] = p.Value
-					}
-					// Skip if value is the same
-				} else {
-					// Always keep the patch when it appears for the first time
-					compactPatches = append(compactPatches, p)
-					latestValues[p.Path] = p.Value
-				}
-			} else {
-				// Keep patches that do not match the targetPath
+			// Keep patches that do not match the targetPath
+			if changed := latestValues.changes(p); changed || !isWithin(p.Path, targetPath) {
 				compactPatches = append(compactPatches, p)
 			}
 		}
-		lgm.Patches[version] = compactPatches
+		compacted[version] = compactPatches
+	}
+
+	return compacted
+}
+
+// isWithin reports whether the path is the target path or below it
+func isWithin(path, targetPath string) bool {
+	if targetPath == "" || targetPath == "/" {
+		return true
 	}
+	target := tson.SplitPath(targetPath)
+	parts := tson.SplitPath(path)
+	return len(parts) >= len(target) && slices.Equal(parts[:len(target)], target)
+}
+
+// valueTracker keeps the latest value set at each path
+type valueTracker map[string]any
+
+// changes records the patch and reports whether it changes more than the timestamp
+func (vt valueTracker) changes(p tsonpatch.Operation) bool {
+	parts := tson.SplitPath(p.Path)
+	key := strings.Join(parts, "\x00") + "\x00"
+
+	if p.Op == tsonpatch.OpAdd || p.Op == tsonpatch.OpReplace {
+		// Always keep the patch when it appears for the first time
+		if prev, exists := vt[key]; exists && reflect.DeepEqual(prev, p.Value) {
+			return false
+		}
+		vt[key] = p.Value
+		return true
+	}
+
+	// The values at and below the path are gone, and removing
+	// an element of an array moves the elements behind it
+	if _, err := strconv.Atoi(parts[len(parts)-1]); err == nil {
+		key = key[:len(key)-len(parts[len(parts)-1])-1]
+	}
+	for path := range vt {
+		if strings.HasPrefix(path, key) {
+			delete(vt, path)
+		}
+	}
+	return true
 }
 
 func (lgm *Logument) History(targetPath string) map[string]tsonPatches {
@@ -641,23 +653,26 @@ func (lgm *Logument) History(targetPath string) map[string]tsonPatches {
 		panic("Versions are not continuous.")
 	}
 
-	lgm.Compact(targetPath)
+	compacted := lgm.compactPatches(targetPath)
 
 	historyPatches := make(map[string]tsonPatches)
-	for _, patches := range lgm.Patches {
-		for _, patch := range patches {
-			path := rfc6901Decoder.Replace(patch.Path)
-			if strings.HasPrefix(path, targetPath) {
+	for _, version := range lgm.getSortedVersions("patch") {
+		for _, patch := range compacted[version] {
+			if isWithin(patch.Path, targetPath) {
 				historyPatches[patch.Path] = append(historyPatches[patch.Path], patch)
 			}
 		}
 	}
 
+	for _, patches := range historyPatches {
+		sort.SliceStable(patches, func(i, j int) bool { return patches[i].Timestamp < patches[j].Timestamp })
+	}
+
 	// Add the initial value to the history
 	for key := range historyPatches {
 		val, err := tson.GetValue(lgm.Snapshots[0], key)
 		if err != nil {
-			panic("Failed to get the value from the snapshot. Error: " + err.Error())
+			continue // The path was added later
 		}
 		if val != nil {
 			historyPatches[key] = append([]tsonpatch.Operation{{
-- 
2.43.0


From 48dc3c06c097dc71ca8b89729f1c6a0a97db6066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:04 +0000
Subject: [PATCH 09/37] fix: apply every patch up to the timestamp in
 TemporalSnapshot

Only the patches of one version were considered, applied in random order
after sorting the stored patches in place.
---
 internal/logument/logument.go | 71 ++++++++++++++++-------------------
 1 file changed, 32 insertions(+), 39 deletions(-)

diff --git a/internal/logument/logument.go b/internal/logument/logument.go
index 40100aa..4d7f2f5 100644
--- a/internal/logument/logument.go
+++ b/internal/logument/logument.go
@@ -242,52 +242,47 @@ func (lgm *Logument) Snapshot(vk uint64) tsonSnapshot {
 }
 
 func (lgm *Logument) TemporalSnapshot(tsk int64) tsonSnapshot {
-	versions := lgm.getSortedVersions("snapshot")
-
-	// Find the latest timestamp before the target timestamp
-	latestVersion := lgm.Version[0]
-	for _, version := range versions {
-		s := lgm.Snapshots[version]
-		lts := tson.GetLatestTimestamp(s)
-		if lts <= tsk {
-			latestVersion = version
-		} else {
-			break
-		}
+	if lgm.PatchPool != nil {
+		lgm.Append()
 	}
 
-	// Get the latest snapshot
-	latestSnapshot := lgm.Snapshots[latestVersion]
-
-	if latestVersion >= lgm.Version[len(lgm.Version)-1] {
-		if lgm.PatchPool != nil {
-			lgm.Append()
-		} else {
-			return latestSnapshot
-		}
-	}
+	return lgm.stateAt(tsk)
+}
 
-	// Create a map to store the most recent patch for each path
-	latestPatchMap := make(map[string]tsonpatch.Operation)
+// stateAt returns the state at the target timestamp, without changing the document
+func (lgm *Logument) stateAt(tsk int64) tsonSnapshot {
+	// Start from the first snapshot: later ones may hold newer values
+	latestSnapshot := lgm.Snapshots[lgm.Version[0]]
 
-	// Iterate through the patches and keep only the most recent one for each path
-	sort.Slice(lgm.Patches[latestVersion+1], func(i, j int) bool {
-		return lgm.Patches[latestVersion+1][i].Timestamp < lgm.Patches[latestVersion+1][j].Timestamp
-	})
-
-	for _, p := range lgm.Patches[latestVersion+1] {
-		if p.Timestamp <= tsk {
-			// Check if we've seen this path before and if this patch is more recent
-			if existing, exists := latestPatchMap[p.Path]; !exists || p.Timestamp > existing.Timestamp {
-				latestPatchMap[p.Path] = p
+	// Collect the patches up to the target timestamp in the order of their timestamps
+	var patches tsonPatches
+	for _, version := range lgm.getSortedVersions("patch") {
+		if version <= lgm.Version[0] {
+			continue // Already in the first snapshot
+		}
+		for _, p := range lgm.Patches[version] {
+			if p.Timestamp <= tsk {
+				patches = append(patches, p)
 			}
 		}
 	}
+	sort.SliceStable(patches, func(i, j int) bool { return patches[i].Timestamp < patches[j].Timestamp })
 
-	// Convert the map to a slice
+	// Iterate through the patches and keep only the most recent one for each path
+	latestPatchMap := make(map[string]int)
 	var latestPatches tsonpatch.Patch
-	for _, patch := range latestPatchMap {
-		latestPatches = append(latestPatches, patch)
+	for _, p := range patches {
+		path := strings.Join(tson.SplitPath(p.Path), "\x00")
+		if p.Op != tsonpatch.OpAdd && p.Op != tsonpatch.OpReplace {
+			// A path may lead to another value after this patch
+			clear(latestPatchMap)
+		} else if idx, exists := latestPatchMap[path]; exists {
+			latestPatches[idx] = p
+			continue
+		} else {
+			latestPatchMap[path] = len(latestPatches)
+		}
+		latestPatches = append(latestPatches, p)
 	}
 
 	// Apply patches
@@ -296,8 +291,6 @@ func (lgm *Logument) TemporalSnapshot(tsk int64) tsonSnapshot {
 		panic("Failed to make a snapshot with the given version. Error: " + err.Error())
 	}
 
-	// lgm.Snapshots[latestVersion+1] = timedSnapshot
-
 	return timedSnapshot
 }
 
-- 
2.43.0


From 046e71dd285de6c7ea704d0904f329bf03fd22b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:06 +0000
Subject: [PATCH 10/37] fix: make the result of Slice usable on its own

The start snapshot was missing whenever another snapshot was in range,
version 0 was left out and the current state was not set, so queries on
the slice panicked.
---
 internal/logument/logument.go | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/internal/logument/logument.go b/internal/logument/logument.go
index 4d7f2f5..f48284b 100644
--- a/internal/logument/logument.go
+++ b/internal/logument/logument.go
@@ -324,29 +324,27 @@ func (lgm *Logument) Slice(vi, vj uint64) *Logument {
 		}
 	}
 
-	versionsFromPatch := lgm.getSortedVersions("patch")
 	SlicedPatches := make(map[uint64]tsonPatches)
-	for _, version := range versionsFromPatch {
+	for _, version := range lgm.Version {
 		if version >= vi && version <= vj {
-			// SlicedVersions always includes all versions between the start and end versions
-			// because lgm.Version and lgm.PatchMap are continuous.
-			// However, lgm.Snapshots may not be continuous,
-			// so the following line works correctly only in this loop.
 			SlicedVersions = append(SlicedVersions, version)
-			SlicedPatches[version] = lgm.Patches[version]
+			if patches, exists := lgm.Patches[version]; exists {
+				SlicedPatches[version] = patches
+			}
 		}
 	}
 
 	// Add the snapshot at the start version if it does not exist
-	if len(SlicedSnapshots) == 0 {
+	if _, exists := SlicedSnapshots[vi]; !exists {
 		SlicedSnapshots[vi] = lgm.Snapshot(vi)
 	}
 
 	slicedLgm := &Logument{
-		Version:   SlicedVersions,
-		Snapshots: SlicedSnapshots,
-		Patches:   SlicedPatches,
-		PatchPool: nil,
+		Version:      SlicedVersions,
+		CurrentState: lgm.Snapshot(vj),
+		Snapshots:    SlicedSnapshots,
+		Patches:      SlicedPatches,
+		PatchPool:    nil,
 	}
 
 	return slicedLgm
-- 
2.43.0


From 41542b7d53bd2f1bcb0896318372ac2815be4dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:07 +0000
Subject: [PATCH 11/37] fix: make the result of TemporalSlice usable on its own

Versions were repeated once per patch and could have gaps, an empty window
panicked, and the start snapshot was placed so that the patches of its own
version were lost.
---
 internal/logument/logument.go | 47 ++++++++++++++++-------------------
 1 file changed, 22 insertions(+), 25 deletions(-)

diff --git a/internal/logument/logument.go b/internal/logument/logument.go
index f48284b..68c1d20 100644
--- a/internal/logument/logument.go
+++ b/internal/logument/logument.go
@@ -362,45 +362,42 @@ func (lgm *Logument) TemporalSlice(tsi, tsj int64) *Logument {
 			"\nEnd time: " + strconv.FormatInt(tsj, 10))
 	}
 
-	var SlicedVersions []uint64
-
-	versionsFromSnapshot := lgm.getSortedVersions("snapshot")
-	SlicedSnapshots := make(map[uint64]tsonSnapshot)
-	for _, version := range versionsFromSnapshot {
-		snapshot := lgm.Snapshots[version]
-		latestTimestamp := tson.GetLatestTimestamp(snapshot)
-		if latestTimestamp >= tsi && latestTimestamp <= tsj {
-			SlicedSnapshots[version] = snapshot
-		}
-	}
-
 	versionsFromPatch := lgm.getSortedVersions("patch")
 	SlicedPatches := make(map[uint64]tsonPatches)
+	startVersion, endVersion := lgm.Version[0], lgm.Version[0]
 	for _, version := range versionsFromPatch {
+		if version <= lgm.Version[0] {
+			continue // Already in the first snapshot
+		}
 		patches := lgm.Patches[version]
 		for _, patch := range patches {
 			if patch.Timestamp >= tsi && patch.Timestamp <= tsj {
-				// SlicedVersions always includes all versions between the start and end times
-				// because lgm.Version and lgm.PatchMap are continuous.
-				// However, lgm.Snapshots may not be continuous,
-				// so the following line works correctly only in this loop.
-				SlicedVersions = append(SlicedVersions, version)
+				if len(SlicedPatches) == 0 {
+					startVersion = version - 1
+				}
+				endVersion = version
 				SlicedPatches[version] = append(SlicedPatches[version], patch)
 			}
 		}
 	}
 
-	// Add the snapshot at the start version if it does not exist
-	if len(SlicedSnapshots) == 0 {
-		startVersion := SlicedVersions[0]
-		SlicedSnapshots[startVersion] = lgm.TemporalSnapshot(tsi)
+	// The versions of the slice should be continuous
+	var SlicedVersions []uint64
+	for version := startVersion; version <= endVersion; version++ {
+		SlicedVersions = append(SlicedVersions, version)
+	}
+
+	// The slice starts from the state before the start time
+	SlicedSnapshots := map[uint64]tsonSnapshot{
+		startVersion: lgm.stateAt(tsi - 1),
 	}
 
 	slicedLgm := &Logument{
-		Version:   SlicedVersions,
-		Snapshots: SlicedSnapshots,
-		Patches:   SlicedPatches,
-		PatchPool: nil,
+		Version:      SlicedVersions,
+		CurrentState: lgm.stateAt(tsj),
+		Snapshots:    SlicedSnapshots,
+		Patches:      SlicedPatches,
+		PatchPool:    nil,
 	}
 
 	return slicedLgm
-- 
2.43.0


From 6ea7f37bde86747ac08569a27b69ddfb36ce3487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:39 +0000
Subject: [PATCH 12/37] fix: generate patch files that lead from each dataset
 file to the next

Every file was derived from the first one instead of the previous one, a
missing maintain rate panicked although the command line never sets it,
timestamps in patch files were rounded through float64, and leaves without
a value broke the patch.
---
 internal/vssgen/args.go | 10 +++++++---
 internal/vssgen/vss.go  | 20 +++++++++++++++-----
 2 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/internal/vssgen/args.go b/internal/vssgen/args.go
index 427a634..cc4d7e0 100644
--- a/internal/vssgen/args.go
+++ b/internal/vssgen/args.go
@@ -66,7 +66,9 @@ func PrepareOutputDir(outputDir string) {
 func SaveMetadata(metadata map[string]any, dataFolder string) {
 	// Using vanila JSON here
 	metadataData, _ := json.MarshalIndent(metadata, "", "    ")
-	os.WriteFile(filepath.Join(dataFolder, metadataFile), metadataData, 0644)
+	if err := os.WriteFile(filepath.Join(dataFolder, metadataFile), metadataData, 0644); err != nil {
+		fmt.Printf("Error writing file: %v\n", err)
+	}
 }
 
 // Generate generates the VSS dataset as TSON & JSON patch
@@ -76,9 +78,10 @@ func Generate(metadata map[string]any, dataFolder string) {
 		cars         = metadata["cars"].(int)
 		files        = metadata["files"].(int)
 		changeRate   = metadata["change_rate"].(float64)
-		maintainRate = metadata["maintain_rate"].(float64)
 		size         = metadata["size"].(float64)
 	)
+	// The maintain rate is optional: the command line does not set it
+	maintainRate, _ := metadata["maintain_rate"].(float64)
 
 	fmt.Printf("Generating %d cars with %d files each...\n", cars, files)
 
@@ -106,7 +109,8 @@ func Generate(metadata map[string]any, dataFolder string) {
 
 		// Generate the rest of the JSON files
 		for j := 2; j <= files; j++ {
-			data, patch := data.GenerateNext(changeRate, maintainRate, i, j)
+			var patch *VssJson
+			data, patch = data.GenerateNext(changeRate, maintainRate, i, j)
 			data.Save(filepath.Join(carDir, fmt.Sprintf("%d_%d.tson", i, j)))
 			patch.Save(filepath.Join(patchDir, fmt.Sprintf("%d_%d.json", i, j)))
 			bar.Add(1)
diff --git a/internal/vssgen/vss.go b/internal/vssgen/vss.go
index 6225caf..b0dc143 100644
--- a/internal/vssgen/vss.go
+++ b/internal/vssgen/vss.go
@@ -327,6 +327,8 @@ func (vss VssJson) GenerateNext(changeRate, maintainRate float64, id int, fileNo
 						tsonValue:     rand.Float64() * 100,
 						tsonTimestamp: timestamp,
 					}
+				default: // No value to change
+					new[node] = value
 				}
 			} else if r < (changeRate + maintainRate) {
 				// 값은 변하지 않고 타임스탬프만 변경되는 패치 생성
@@ -363,14 +365,20 @@ func (vss VssJson) GenerateNext(changeRate, maintainRate float64, id int, fileNo
 		panic(err)
 	}
 
-	ops, _ := tsonpatch.GeneratePatchWithTimestamp(origin, modified)
+	ops, err := tsonpatch.GeneratePatchWithTimestamp(origin, modified)
+	if err != nil {
+		panic(err)
+	}
 
 	// Step 2. Convert the patch object to a []byte
-	bytes, _ := json.Marshal(ops)
+	b, _ = json.Marshal(ops)
 
 	// Step 3. Unmarshal the []byte to a JSON object
+	// (as numbers, since timestamps may have more digits than a float64 can hold)
 	var patch any
-	json.Unmarshal(bytes, &patch)
+	dec := json.NewDecoder(bytes.NewReader(b))
+	dec.UseNumber()
+	dec.Decode(&patch)
 
 	// Step 4. Return the new dataset and the patch
 	return &VssJson{initialized: true, data: result}, &VssJson{initialized: true, data: patch}
@@ -393,9 +401,11 @@ func (vss *VssJson) Save(file string) {
 			var buf bytes.Buffer
 			d := item.(map[string]any)
 
+			path, _ := json.Marshal(d["path"])
+			value, _ := json.Marshal(d[tsonValue])
 			fmt.Fprintf(&buf,
-				`{ "op": "%s", "path": "%s", "value": %#v, "timestamp": %d }`,
-				d["op"], d["path"], d[tsonValue], int64(d[tsonTimestamp].(float64)))
+				`{ "op": "%s", "path": %s, "value": %s, "timestamp": %v }`,
+				d["op"], path, value, d[tsonTimestamp])
 			lines = append(lines, "    "+buf.String())
 		}
 
-- 
2.43.0


From d92d8300732c1c17ec954aee2167148070b2e8d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:40 +0000
Subject: [PATCH 13/37] fix: report read errors in the web demo

A failed or partial read was sent as a normal response, and asking for the
first state panicked because there is no patch to apply.
---
 web_demo.go | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/web_demo.go b/web_demo.go
index 0745eb6..980a5c1 100644
--- a/web_demo.go
+++ b/web_demo.go
@@ -64,7 +64,11 @@ func generateVss(userDefined bool) {
 
 // homeHandler handles the main page
 func homeHandler(w http.ResponseWriter, r *http.Request) {
-	html, _ := os.ReadFile("index.html")
+	html, err := os.ReadFile("index.html")
+	if err != nil {
+		http.Error(w, "failed to read the page", http.StatusInternalServerError)
+		return
+	}
 	w.Header().Set("Content-Type", "text/html")
 	w.Write(html)
 }
@@ -74,12 +78,20 @@ func updateHandler(w http.ResponseWriter, r *http.Request) {
 	car := r.URL.Query().Get("car")
 	if patch := r.URL.Query().Get("patch"); patch == "" {
 		// Send the TSON snapshot
-		b, _ := os.ReadFile(fmt.Sprintf("dataset/car_%s/tson/%s_1.tson", car, car))
-		w.Write(b)
+		sendFile(w, fmt.Sprintf("dataset/car_%s/tson/%s_1.tson", car, car))
 	} else { // Send the patch
-		b, _ := os.ReadFile(fmt.Sprintf("dataset/car_%s/patches/%s_%s.json", car, car, patch))
-		w.Write(b)
+		sendFile(w, fmt.Sprintf("dataset/car_%s/patches/%s_%s.json", car, car, patch))
+	}
+}
+
+// sendFile sends the whole file, or an error if it can't be read
+func sendFile(w http.ResponseWriter, file string) {
+	b, err := os.ReadFile(file)
+	if err != nil {
+		http.Error(w, "failed to read the dataset", http.StatusInternalServerError)
+		return
 	}
+	w.Write(b)
 }
 
 // patchHandler handles the patch request, sending the patched TSON
@@ -104,7 +116,7 @@ func patchHandler(w http.ResponseWriter, r *http.Request) {
 	lgm.Append()
 
 	// Take the snapshot
-	snapshot := lgm.Snapshot(1)
+	snapshot := lgm.Snapshot(lgm.Version[len(lgm.Version)-1])
 	result, _ := tson.MarshalIndent(snapshot, "", "  ")
 
 	// Send the result
-- 
2.43.0


From e5c25c519dc111d874d2d1c61376e5ab402d9f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:19 +0000
Subject: [PATCH 14/37] fix: report failed writes of experiment results

---
 exp/exp_scenario.go     | 13 +++++++++++++
 exp/exp_temporal.go     | 12 +++++++++---
 exp/sensor_data_save.go | 25 ++++++++++++++++++++-----
 exp/utils_temporal.go   |  6 +++++-
 4 files changed, 47 insertions(+), 9 deletions(-)

diff --git a/exp/exp_scenario.go b/exp/exp_scenario.go
index 3700703..7a49b63 100644
--- a/exp/exp_scenario.go
+++ b/exp/exp_scenario.go
@@ -298,6 +298,19 @@ func RealworldScenario() {
 			}
 		}
 
+		// Write the results before reporting them as saved
+		failed := false
+		for _, writer := range []*csv.Writer{csvWriter, cumWriter, timingWriter} {
+			writer.Flush()
+			if err := writer.Error(); err != nil {
+				fmt.Printf("Error saving results for %s: %v\n", scenario, err)
+				failed = true
+			}
+		}
+		if failed {
+			continue
+		}
+
 		fmt.Printf("\nExperiment for scenario %s completed. Results saved:\n", scenario)
 		fmt.Printf("- Summary results: %s\n", filepath.Join(scenarioDir, "results.csv"))
 		fmt.Printf("- Cumulative patches: %s\n", filepath.Join(scenarioDir, "cumulative.csv"))
diff --git a/exp/exp_temporal.go b/exp/exp_temporal.go
index 4b4ee3f..76c2b3f 100644
--- a/exp/exp_temporal.go
+++ b/exp/exp_temporal.go
@@ -54,7 +54,9 @@ func RunTemporalQueryExperiments() {
 		if err != nil {
 			fmt.Printf("Error running temporal snapshot experiment: %v\n", err)
 		} else {
-			experiment.SaveResults(snapshotResults, "snapshot_results.csv")
+			if err := experiment.SaveResults(snapshotResults, "snapshot_results.csv"); err != nil {
+				fmt.Printf("Error saving results: %v\n", err)
+			}
 		}
 
 		// Run temporal track experiment
@@ -69,7 +71,9 @@ func RunTemporalQueryExperiments() {
 		if err != nil {
 			fmt.Printf("Error running temporal track experiment: %v\n", err)
 		} else {
-			experiment.SaveResults(trackResults, "track_results.csv")
+			if err := experiment.SaveResults(trackResults, "track_results.csv"); err != nil {
+				fmt.Printf("Error saving results: %v\n", err)
+			}
 		}
 
 		gap := int64(10000) // 10 seconds gap
@@ -94,7 +98,9 @@ func RunTemporalQueryExperiments() {
 		if err != nil {
 			fmt.Printf("Error running event search experiment: %v\n", err)
 		} else {
-			experiment.SaveResults(eventResults, "event_search_results.csv")
+			if err := experiment.SaveResults(eventResults, "event_search_results.csv"); err != nil {
+				fmt.Printf("Error saving results: %v\n", err)
+			}
 		}
 
 		// Report completion
diff --git a/exp/sensor_data_save.go b/exp/sensor_data_save.go
index 1bc5d32..995c3c6 100644
--- a/exp/sensor_data_save.go
+++ b/exp/sensor_data_save.go
@@ -62,6 +62,10 @@ func NewSensorDataRecorder(baseDir, scenario string) (*SensorDataRecorder, error
 		// Write header
 		writer.Write([]string{"TimestampMs", "SimulationTimeMs", "Value"})
 		writer.Flush()
+		if err := writer.Error(); err != nil {
+			recorder.Close()
+			return nil, fmt.Errorf("failed to write CSV file %s: %v", fileName, err)
+		}
 	}
 
 	return recorder, nil
@@ -69,6 +73,8 @@ func NewSensorDataRecorder(baseDir, scenario string) (*SensorDataRecorder, error
 
 // RecordSensorData records a sensor data point
 func (r *SensorDataRecorder) RecordSensorData(simulationTimeMs int64, vehicle *VehicleData) error {
+	var recordErr error
+
 	// For each key sensor
 	for _, path := range KeySensorPaths {
 		// Extract sensor value
@@ -113,7 +119,7 @@ func (r *SensorDataRecorder) RecordSensorData(simulationTimeMs int64, vehicle *V
 				valueStr = fmt.Sprintf("%v", sensorValue)
 			}
 
-			writer.Write([]string{
+			err := writer.Write([]string{
 				fmt.Sprintf("%d", elapsedMs),
 				fmt.Sprintf("%d", simulationTimeMs),
 				valueStr,
@@ -122,23 +128,32 @@ func (r *SensorDataRecorder) RecordSensorData(simulationTimeMs int64, vehicle *V
 			// Periodically flush the buffer
 			if simulationTimeMs%1000 == 0 {
 				writer.Flush()
+				err = writer.Error()
+			}
+			if err != nil && recordErr == nil {
+				recordErr = fmt.Errorf("failed to write sensor data of %s: %v", path, err)
 			}
 		}
 	}
 
-	return nil
+	return recordErr
 }
 
 // Close closes all CSV files
 func (r *SensorDataRecorder) Close() {
 	// Flush all CSV buffers
-	for _, writer := range r.CSVWriters {
+	for path, writer := range r.CSVWriters {
 		writer.Flush()
+		if err := writer.Error(); err != nil {
+			fmt.Printf("Warning: Failed to write sensor data of %s: %v\n", path, err)
+		}
 	}
 
 	// Close all files
-	for _, file := range r.CSVFiles {
-		file.Close()
+	for path, file := range r.CSVFiles {
+		if err := file.Close(); err != nil {
+			fmt.Printf("Warning: Failed to close sensor data of %s: %v\n", path, err)
+		}
 	}
 
 	fmt.Printf("Sensor data recording completed: %s\n", r.OutputDir)
diff --git a/exp/utils_temporal.go b/exp/utils_temporal.go
index 5c19c99..c259e5b 100644
--- a/exp/utils_temporal.go
+++ b/exp/utils_temporal.go
@@ -301,7 +301,6 @@ func (e *TemporalQueryExperiment) SaveResults(results []TemporalQueryResult, fil
 	defer file.Close()
 
 	writer := csv.NewWriter(file)
-	defer writer.Flush()
 
 	// Write header
 	header := []string{
@@ -344,6 +343,11 @@ func (e *TemporalQueryExperiment) SaveResults(results []TemporalQueryResult, fil
 		writer.Write(row)
 	}
 
+	writer.Flush()
+	if err := writer.Error(); err != nil {
+		return fmt.Errorf("failed to write results file: %v", err)
+	}
+
 	fmt.Printf("Results saved to %s\n", outputPath)
 	return nil
 }
-- 
2.43.0


From 0b78e4165e57ad846077430f6fd776d65c8c7907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:35 +0000
Subject: [PATCH 15/37] fix: answer TJSON queries from the versions of the
 requested time

---
 exp/tjson.go          | 41 +++++++++++++++++++++--------------------
 exp/utils_temporal.go |  6 ++++--
 2 files changed, 25 insertions(+), 22 deletions(-)

diff --git a/exp/tjson.go b/exp/tjson.go
index f0fd5e8..8429c4d 100644
--- a/exp/tjson.go
+++ b/exp/tjson.go
@@ -2,11 +2,12 @@ package exp
 
 import (
 	"fmt"
+	"math"
 	"reflect"
+	"slices"
 	"sort"
 	"strconv"
 	"strings"
-	"time"
 
 	"github.com/davecgh/go-spew/spew"
 )
@@ -61,20 +62,22 @@ func (doc *TJSONDocument) AddItem(path string, startTime, endTime int64, value i
 
 	currentItem := rootItem
 	// Navigate through the path
-	for i := 1; i < len(parts); i++ {
+	for i := 0; i < len(parts); i++ {
 		key := parts[i]
 
 		// 모든 경로 부분에 대해 Children 항목 생성
-		childItem, exists := currentItem.Children[key]
-		if !exists {
-			childItem = &TJSONItem{
-				Timestamp: timestamp,
-				Versions:  make([]*TJSONVersion, 0),
-				Children:  make(map[string]*TJSONItem),
+		if i > 0 {
+			childItem, exists := currentItem.Children[key]
+			if !exists {
+				childItem = &TJSONItem{
+					Timestamp: timestamp,
+					Versions:  make([]*TJSONVersion, 0),
+					Children:  make(map[string]*TJSONItem),
+				}
+				currentItem.Children[key] = childItem
 			}
-			currentItem.Children[key] = childItem
+			currentItem = childItem
 		}
-		currentItem = childItem
 
 		// 마지막 부분일 경우 값도 설정
 		if i == len(parts)-1 {
@@ -125,9 +128,6 @@ func getSnapshotForItem(item *TJSONItem, timestamp int64) interface{} {
 			versionFound = true
 			break
 		}
-
-		versionData = version.Data
-		versionFound = true
 	}
 
 	// 버전 데이터가 맵인 경우
@@ -263,13 +263,14 @@ func isTimeInRange(timestamp int64, timeRange string) bool {
 
 // Helper function to parse a time range string like "2015-2018"
 func parseTimeRange(timeRange string) (int64, int64) {
-	parts := strings.Split(timeRange, "-")
-	if len(parts) != 2 {
+	// Both timestamps may be negative
+	sep := strings.IndexByte(timeRange[min(1, len(timeRange)):], '-') + 1
+	if sep == 0 {
 		return 0, 0
 	}
 
-	start, _ := strconv.ParseInt(parts[0], 10, 64)
-	end, _ := strconv.ParseInt(parts[1], 10, 64)
+	start, _ := strconv.ParseInt(timeRange[:sep], 10, 64)
+	end, _ := strconv.ParseInt(timeRange[sep+1:], 10, 64)
 	return start, end
 }
 
@@ -278,7 +279,8 @@ func FromTSONPatches(patches []TsonPatch) (*TJSONDocument, error) {
 	doc := NewTJSONDocument()
 
 	// Sort patches by timestamp
-	sort.Slice(patches, func(i, j int) bool {
+	patches = slices.Clone(patches)
+	sort.SliceStable(patches, func(i, j int) bool {
 		return patches[i].Timestamp < patches[j].Timestamp
 	})
 
@@ -330,9 +332,8 @@ func FromTSONPatches(patches []TsonPatch) (*TJSONDocument, error) {
 	}
 
 	// Close time ranges for values that still exist at the end
-	currentTime := time.Now().Unix()
 	for path, value := range lastValues {
-		err := doc.AddItem(path, lastTimes[path], currentTime, value)
+		err := doc.AddItem(path, lastTimes[path], math.MaxInt64, value)
 		if err != nil {
 			fmt.Printf("Warning: Failed to add final item for %s: %v\n", path, err)
 		}
diff --git a/exp/utils_temporal.go b/exp/utils_temporal.go
index c259e5b..02e4571 100644
--- a/exp/utils_temporal.go
+++ b/exp/utils_temporal.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"os"
 	"path/filepath"
+	"slices"
 	"sort"
 	"strings"
 	"time"
@@ -74,7 +75,7 @@ func NewTemporalQueryExperiment(inputDir, baseOutDir, scenario string, tsonPatch
 	allPatches = append(allPatches, tsonPatches...)
 
 	// Sort by timestamp
-	sort.Slice(allPatches, func(i, j int) bool {
+	sort.SliceStable(allPatches, func(i, j int) bool {
 		return allPatches[i].Timestamp < allPatches[j].Timestamp
 	})
 
@@ -478,6 +479,7 @@ func findEventsInLogument(lgm *logument.Logument, path string, startTime, endTim
 			}
 		}
 	}
+	slices.Sort(eventTimes)
 
 	return eventTimes
 }
@@ -553,7 +555,7 @@ func generateInitialPatches(path string, data interface{}, patches *[]TsonPatch)
 				}
 			}
 
-			if hasPrimitives {
+			if hasPrimitives && path != "" {
 				primitiveValues := make(map[string]interface{})
 				for fieldKey, fieldValue := range v {
 					if isPrimitive(fieldValue) {
-- 
2.43.0


From f3b4eb9da22e5c434c692679911bb25d734e7060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:01 +0000
Subject: [PATCH 16/37] fix: report when an old dataset can't be examined

An unreadable output directory counted as absent, so the files of the old
dataset stayed between those of the new one without a message.
---
 internal/vssgen/args.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/vssgen/args.go b/internal/vssgen/args.go
index cc4d7e0..5268977 100644
--- a/internal/vssgen/args.go
+++ b/internal/vssgen/args.go
@@ -56,6 +56,9 @@ func PrepareOutputDir(outputDir string) {
 			return
 		}
 		fmt.Printf("removed successfully.\n\n")
+	} else if err != nil && !os.IsNotExist(err) {
+		fmt.Printf("failed to check directory: %v\n\n", err)
+		return
 	} else {
 		fmt.Printf("not found.\n\n")
 	}
-- 
2.43.0


From b8999324e2e754ad4f3619f2c12ad240aa698961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:44 +0000
Subject: [PATCH 17/37] fix: leave the scenarios of the patch experiment as
 they are

The temporal query experiment replaced the package's list by its own, so a
patch experiment run after it covered only one scenario.
---
 exp/exp_temporal.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exp/exp_temporal.go b/exp/exp_temporal.go
index 76c2b3f..b32ed6d 100644
--- a/exp/exp_temporal.go
+++ b/exp/exp_temporal.go
@@ -20,7 +20,7 @@ func RunTemporalQueryExperiments() {
 	// Create output directory
 	os.MkdirAll(temporalOutputDir, os.ModePerm)
 
-	scenarios = []string{"urban_traffic"}
+	scenarios := []string{"urban_traffic"}
 
 	// Run experiments for each scenario
 	for _, scenario := range scenarios {
-- 
2.43.0


From 6dc8a6efadbe290232b0ff24127bf9d054dc6585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:46 +0000
Subject: [PATCH 18/37] fix: report when the patches of an experiment are
 missing

After an interrupted patch experiment, the temporal queries were run and
saved for an empty history.
---
 exp/exp_temporal.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/exp/exp_temporal.go b/exp/exp_temporal.go
index b32ed6d..d28ac76 100644
--- a/exp/exp_temporal.go
+++ b/exp/exp_temporal.go
@@ -114,6 +114,7 @@ func RunTemporalQueryExperiments() {
 func loadTSONPatches(patchesDir string) ([]TsonPatch, error) {
 	// Create a slice to hold all patches
 	patches := make([]TsonPatch, 0)
+	found := false
 
 	// Walk through the patches directory
 	err := filepath.Walk(patchesDir, func(path string, info os.FileInfo, err error) error {
@@ -135,6 +136,8 @@ func loadTSONPatches(patchesDir string) ([]TsonPatch, error) {
 			return nil
 		}
 
+		found = true
+
 		// Read the file
 		fileContent, err := os.ReadFile(path)
 		if err != nil {
@@ -156,6 +159,11 @@ func loadTSONPatches(patchesDir string) ([]TsonPatch, error) {
 		return nil, err
 	}
 
+	// An interrupted experiment leaves no patches
+	if !found {
+		return nil, fmt.Errorf("no patch file in %s", patchesDir)
+	}
+
 	return patches, nil
 }
 
-- 
2.43.0


From 4c3e7d9e9df72f3c72b89aeaa8397a6f9f1643df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:05 +0000
Subject: [PATCH 19/37] fix: report failed closes of experiment results

Closing a file can be what reports that its last data did not reach the
disk, but the results were announced as saved before.
---
 exp/exp_scenario.go   | 6 ++++++
 exp/utils_temporal.go | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/exp/exp_scenario.go b/exp/exp_scenario.go
index 7a49b63..195e863 100644
--- a/exp/exp_scenario.go
+++ b/exp/exp_scenario.go
@@ -307,6 +307,12 @@ func RealworldScenario() {
 				failed = true
 			}
 		}
+		for _, file := range []*os.File{resultsFile, cumulativeFile, timingFile} {
+			if err := file.Close(); err != nil {
+				fmt.Printf("Error saving results for %s: %v\n", scenario, err)
+				failed = true
+			}
+		}
 		if failed {
 			continue
 		}
diff --git a/exp/utils_temporal.go b/exp/utils_temporal.go
index 02e4571..52a92de 100644
--- a/exp/utils_temporal.go
+++ b/exp/utils_temporal.go
@@ -348,6 +348,9 @@ func (e *TemporalQueryExperiment) SaveResults(results []TemporalQueryResult, fil
 	if err := writer.Error(); err != nil {
 		return fmt.Errorf("failed to write results file: %v", err)
 	}
+	if err := file.Close(); err != nil {
+		return fmt.Errorf("failed to close results file: %v", err)
+	}
 
 	fmt.Printf("Results saved to %s\n", outputPath)
 	return nil
-- 
2.43.0


From 436ff80e38e390f9106b3b2f686c8d6c4ff6d449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:42 +0000
Subject: [PATCH 20/37] fix: track the changes of an experiment also before the
 first snapshot

---
 exp/utils_temporal.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/exp/utils_temporal.go b/exp/utils_temporal.go
index 52a92de..97f1e48 100644
--- a/exp/utils_temporal.go
+++ b/exp/utils_temporal.go
@@ -394,6 +394,10 @@ func createLogumentFromPatches(path string, patches []TsonPatch) *logument.Logum
 
 	// Create the Logument
 	lgm := logument.NewLogument(initialTson, tsonPatches)
+	// Tracks only cover versions, not what is still pending
+	if err := lgm.Append(); err != nil {
+		panic(err)
+	}
 	return lgm
 }
 
-- 
2.43.0


From 0af5b3fce2d0341706d942974052e61ab574b785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:55 +0000
Subject: [PATCH 21/37] fix: record the scenario that a transition leaves

Returning from charging was recorded as a transition from the scenario
before charging to itself.
---
 exp/exp_scenario.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/exp/exp_scenario.go b/exp/exp_scenario.go
index 195e863..9bd157b 100644
--- a/exp/exp_scenario.go
+++ b/exp/exp_scenario.go
@@ -413,11 +413,12 @@ func runRealisticExperiment(scenario string, timingWriter *csv.Writer) (Experime
 		currentScenarioName := scenario
 
 		if scenario == "mixed_scenario" && scenarioState != nil {
+			fromScenario := scenarioState.CurrentScenario
 			if scenarioState.UpdateScenarioState(vehicle, currentTimeMs) {
 				transitionCounter++
 				transition := ScenarioTransition{
 					Timestamp:       currentTimeMs,
-					FromScenario:    scenarioState.PreviousScenario,
+					FromScenario:    fromScenario,
 					ToScenario:      scenarioState.CurrentScenario,
 					BatteryLevel:    scenarioState.BatteryLevel,
 					TransitionCount: transitionCounter,
-- 
2.43.0


From e8546aeabb746f299e6bb3a5b54d5da194e0c3e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:16 +0000
Subject: [PATCH 22/37] fix: record the values that a scenario transition sets

A transition sets values such as the speed in the vehicle, so the next
update saw no change: the patches and the TSON document kept the value
from before the transition, while the JSON document got the new one.
---
 exp/exp_scenario.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/exp/exp_scenario.go b/exp/exp_scenario.go
index 9bd157b..939e873 100644
--- a/exp/exp_scenario.go
+++ b/exp/exp_scenario.go
@@ -397,6 +397,9 @@ func runRealisticExperiment(scenario string, timingWriter *csv.Writer) (Experime
 	totalExpectedUpdates := calculateExpectedUpdateCount(vehicle, simulationDurationSec)
 	fmt.Printf("Estimated number of updates: approximately %d\n", totalExpectedUpdates)
 
+	// Last recorded value of each sensor (a scenario transition sets values without recording them)
+	recordedValues := make(map[string]any)
+
 	// Run the simulation
 	// simulationStart := time.Now()
 	jsonTotalProcessingTime := int64(0)
@@ -476,15 +479,21 @@ func runRealisticExperiment(scenario string, timingWriter *csv.Writer) (Experime
 					newTimestamp := currentTimeMs // * 1000000 // ms -> ns, 0부터 시작
 
 					// Check if the value has changed
-					valueChanged := !isEqual(sensor.Value, newValue)
+					recordedValue, recorded := recordedValues[path]
+					if !recorded {
+						recordedValue = sensor.Value
+					}
+					valueChanged := !isEqual(recordedValue, newValue)
 
 					if valueChanged {
 						valueChangeCounter++
-						sensor.Value = newValue
+						recordedValue = newValue
 					} else {
 						timestampChangeCounter++
 					}
 
+					sensor.Value = recordedValue
+					recordedValues[path] = recordedValue
 					sensor.Timestamp = newTimestamp
 
 					// Start JSON processing time
-- 
2.43.0


From f6fc8f8569b787e31b3121ae7a251a601080bfd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:18 +0000
Subject: [PATCH 23/37] fix: report transitions that cannot be saved

Failures to write or close transitions.csv went unnoticed, and without
any transition the file of an earlier experiment was reported as saved.
---
 exp/exp_scenario.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/exp/exp_scenario.go b/exp/exp_scenario.go
index 939e873..bd7a210 100644
--- a/exp/exp_scenario.go
+++ b/exp/exp_scenario.go
@@ -267,15 +267,20 @@ func RealworldScenario() {
 			})
 		}
 
+		writers := []*csv.Writer{csvWriter, cumWriter, timingWriter}
+		files := []*os.File{resultsFile, cumulativeFile, timingFile}
+		failed := false
+
 		// Save scenario transitions for mixed scenario
-		if scenario == "mixed_scenario" && len(results.ScenarioTransitions) > 0 {
+		if scenario == "mixed_scenario" {
 			transitionsFile, err := os.Create(filepath.Join(scenarioDir, "transitions.csv"))
 			if err != nil {
 				fmt.Printf("Error creating transitions file: %v\n", err)
+				failed = true
 			} else {
-				defer transitionsFile.Close()
 				transWriter := csv.NewWriter(transitionsFile)
-				defer transWriter.Flush()
+				writers = append(writers, transWriter)
+				files = append(files, transitionsFile)
 
 				// Transitions headers
 				transWriter.Write([]string{
@@ -299,15 +304,14 @@ func RealworldScenario() {
 		}
 
 		// Write the results before reporting them as saved
-		failed := false
-		for _, writer := range []*csv.Writer{csvWriter, cumWriter, timingWriter} {
+		for _, writer := range writers {
 			writer.Flush()
 			if err := writer.Error(); err != nil {
 				fmt.Printf("Error saving results for %s: %v\n", scenario, err)
 				failed = true
 			}
 		}
-		for _, file := range []*os.File{resultsFile, cumulativeFile, timingFile} {
+		for _, file := range files {
 			if err := file.Close(); err != nil {
 				fmt.Printf("Error saving results for %s: %v\n", scenario, err)
 				failed = true
-- 
2.43.0


From 46fa7fc08d8dcc2a00b391ab9560ec86b6107bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:35 +0000
Subject: [PATCH 24/37] fix: drop the timestamp of a document that is a leaf

---
 internal/tson/tson.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/internal/tson/tson.go b/internal/tson/tson.go
index d7f744d..2ffe047 100644
--- a/internal/tson/tson.go
+++ b/internal/tson/tson.go
@@ -358,7 +358,16 @@ func ToJson(t Tson, j *any) (err error) {
 		}
 	}
 
-	ToCompatibleTson(t, j)
+	if err = ToCompatibleTson(t, j); err != nil {
+		return err
+	}
+	// The document itself may be a leaf
+	if m, ok := (*j).(map[string]any); ok {
+		if isLeaf, leafVal, _ := checkLeaf(m); isLeaf {
+			*j = leafVal
+			return nil
+		}
+	}
 	removeTimestamp(*j)
 
 	return nil
-- 
2.43.0


From 527e989acfb899d275ec780d02eeab08900bc2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:37 +0000
Subject: [PATCH 25/37] fix: convert JSON values without changing them, leaves
 included

---
 internal/tson/tson.go | 46 ++++++++++++++++++++-----------------------
 1 file changed, 21 insertions(+), 25 deletions(-)

diff --git a/internal/tson/tson.go b/internal/tson/tson.go
index 2ffe047..e1e90dc 100644
--- a/internal/tson/tson.go
+++ b/internal/tson/tson.go
@@ -376,42 +376,38 @@ func ToJson(t Tson, j *any) (err error) {
 // FromJson converts the given JSON object to a TSON.
 // NOTE: The timestamp field is added with the default(< 0) value.
 func FromJson(o any, t *Tson) (err error) {
-	var addTimestamp func(o any)
-	addTimestamp = func(o any) {
+	// addTimestamp returns a copy, as o belongs to the caller
+	var addTimestamp func(o any) any
+	addTimestamp = func(o any) any {
 		switch value := o.(type) {
+		case string:
+			return Leaf[string]{Value: value, Timestamp: DefaultTimestamp}
+		case float64:
+			return Leaf[float64]{Value: value, Timestamp: DefaultTimestamp}
+		case bool:
+			return Leaf[bool]{Value: value, Timestamp: DefaultTimestamp}
 		case map[string]any:
+			obj := make(map[string]any, len(value))
 			for k, v := range value {
-				switch leaf := v.(type) {
-				case string:
-					value[k] = Leaf[string]{Value: leaf, Timestamp: DefaultTimestamp}
-				case float64:
-					value[k] = Leaf[float64]{Value: leaf, Timestamp: DefaultTimestamp}
-				case bool:
-					value[k] = Leaf[bool]{Value: leaf, Timestamp: DefaultTimestamp}
-				default:
-					addTimestamp(v)
-				}
+				obj[k] = addTimestamp(v)
 			}
+			return obj
 		case []any:
+			arr := make([]any, len(value))
 			for i, v := range value {
-				switch leaf := v.(type) {
-				case string:
-					value[i] = Leaf[string]{Value: leaf, Timestamp: DefaultTimestamp}
-				case float64:
-					value[i] = Leaf[float64]{Value: leaf, Timestamp: DefaultTimestamp}
-				case bool:
-					value[i] = Leaf[bool]{Value: leaf, Timestamp: DefaultTimestamp}
-				default:
-					addTimestamp(v)
-				}
+				arr[i] = addTimestamp(v)
 			}
+			return arr
+		default:
+			return o
 		}
 	}
 
-	addTimestamp(o)
-
 	// Step 1: Convert TSON(any) to CompatibleTSON(JSON with timestamp)
-	str, err := json.Marshal(o)
+	str, err := json.Marshal(addTimestamp(o))
+	if err != nil {
+		return err
+	}
 
 	// Step 2: Convert CompatibleTSON to TSON
 	return FromCompatibleTsonBytes(str, t)
-- 
2.43.0


From 24636a7caed1e430ae3242a1d79295c33245b720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:39 +0000
Subject: [PATCH 26/37] fix: write null in the sorted form as well

---
 internal/tson/tson.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/tson/tson.go b/internal/tson/tson.go
index e1e90dc..40f7882 100644
--- a/internal/tson/tson.go
+++ b/internal/tson/tson.go
@@ -543,6 +543,8 @@ func ToCompatibleTsonBytesSorted(t Tson) ([]byte, error) {
 // toSortedInterface recursively converts TSON -> map/slice with sorted keys.
 func toSortedInterface(t Tson) (any, error) {
 	switch val := t.(type) {
+	case nil:
+		return nil, nil
 	case Leaf[string]:
 		return map[string]any{"value": val.Value, "timestamp": val.Timestamp}, nil
 	case Leaf[float64]:
-- 
2.43.0


From 2a7995034a84fb5e8c9f4c659f8c8d21e70e4b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:41 +0000
Subject: [PATCH 27/37] fix: compare all digits of timestamps

---
 internal/tson/tson.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/tson/tson.go b/internal/tson/tson.go
index 40f7882..9d88193 100644
--- a/internal/tson/tson.go
+++ b/internal/tson/tson.go
@@ -128,16 +128,16 @@ func SplitPath(path string) []string {
 // Equal checks if two TSONs are equal, including timestamps.
 func Equal(t1, t2 Tson) (ret bool, err error) {
 	var (
-		o1, o2 any
+		o1, o2 Tson // timestamps may have more digits than a float64 can hold
 		b1, _  = ToCompatibleTsonBytes(t1)
 		b2, _  = ToCompatibleTsonBytes(t2)
 	)
 
 	// Check if the given TSONs are valid
-	if err = json.Unmarshal(b1, &o1); err != nil {
+	if err = FromCompatibleTsonBytes(b1, &o1); err != nil {
 		return false, err
 	}
-	if err = json.Unmarshal(b2, &o2); err != nil {
+	if err = FromCompatibleTsonBytes(b2, &o2); err != nil {
 		return false, err
 	}
 	return reflect.DeepEqual(o1, o2), nil
-- 
2.43.0


From 540c8cecbe1a58063129fcd967967ce24cc660e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:43 +0000
Subject: [PATCH 28/37] fix: give no timestamp for a document that has none

---
 internal/tson/tson.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/tson/tson.go b/internal/tson/tson.go
index 9d88193..ceed3a0 100644
--- a/internal/tson/tson.go
+++ b/internal/tson/tson.go
@@ -180,7 +180,7 @@ func GetLatestTimestamp(t Tson) int64 {
 	case Leaf[bool]:
 		return v.Timestamp
 	case Object, Array:
-		max := int64(0)
+		max := DefaultTimestamp
 		if obj, ok := v.(Object); ok { // v is Object
 			for _, value := range obj {
 				updateMax(&max, GetLatestTimestamp(value))
-- 
2.43.0


From 0e0115fc53fb4494adc63670b1dc6ee24b39b1c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:10 +0000
Subject: [PATCH 29/37] fix: convert generated data sets to maps

---
 internal/vssgen/extension.go | 18 +++---------------
 1 file changed, 3 insertions(+), 15 deletions(-)

diff --git a/internal/vssgen/extension.go b/internal/vssgen/extension.go
index 72c6543..b408ea5 100644
--- a/internal/vssgen/extension.go
+++ b/internal/vssgen/extension.go
@@ -3,8 +3,6 @@ package vssgen
 import (
 	"encoding/json"
 	"fmt"
-	"os"
-	"path/filepath"
 	"strconv"
 	"strings"
 )
@@ -16,20 +14,10 @@ func (vss *VssJson) GetData() interface{} {
 
 // ToMapStringInterface 메서드는 VSS 데이터를 map[string]interface{} 형식으로 변환합니다
 func (vss *VssJson) ToMapStringInterface() (map[string]interface{}, error) {
-	// 임시 파일에 저장하고 다시 읽어오기
-	tempDir, err := os.MkdirTemp("", "vssgen")
+	// Save() writes TSON, which is no JSON
+	jsonBytes, err := json.Marshal(vss.data)
 	if err != nil {
-		return nil, fmt.Errorf("임시 디렉토리 생성 실패: %v", err)
-	}
-	defer os.RemoveAll(tempDir)
-
-	tempFile := filepath.Join(tempDir, "temp_data.json")
-	vss.Save(tempFile)
-
-	// 파일에서 데이터 읽기
-	jsonBytes, err := os.ReadFile(tempFile)
-	if err != nil {
-		return nil, fmt.Errorf("임시 파일 읽기 실패: %v", err)
+		return nil, fmt.Errorf("JSON 변환 실패: %v", err)
 	}
 
 	var result map[string]interface{}
-- 
2.43.0


From 46a0022fda4f95f10c9f3e5ad4412d23b457698d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:59 +0000
Subject: [PATCH 30/37] fix: show no answer to an earlier request on the demo
 page

An answer that comes late, or that says that the request failed, took the
place of what is chosen; a request that failed left the data of the previous
choice there.
---
 index.html | 34 +++++++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/index.html b/index.html
index cb28f79..092ca95 100644
--- a/index.html
+++ b/index.html
@@ -273,21 +273,39 @@ Demo web page: Sunghwan Park; Karu (@karu-rress)
             }
         }
 
+        // The latest request of each code block
+        const latest = {};
+
+        // Fetch a text and show it (or why there is none), unless its code block has been
+        // given a newer request meanwhile. Tells whether the text is shown.
+        async function load(elementId, url) {
+            const request = latest[elementId] = {};
+            let data, ok = false;
+            try {
+                const res = await fetch(url);
+                data = await res.text();
+                ok = res.ok;
+            } catch (e) {
+                data = String(e);
+            }
+            if (latest[elementId] !== request) {
+                return false;
+            }
+            setCodeBlockContent(elementId, ok ? data : `Request failed: ${data}`);
+            return ok;
+        }
+
         // If car changes, fetch the original TSON of the car
         async function updateVehicle() {
             const car = document.getElementById("carSelect").value;
-            const res = await fetch(`/update?car=${car}`);
-            const data = await res.text();
-            setCodeBlockContent("view", data);
+            await load("view", `/update?car=${car}`);
             await updatePatch();
         }
 
         async function updatePatch() {
             const car = document.getElementById("carSelect").value;
             const patch = document.getElementById("patchSelect").value;
-            const res = await fetch(`/update?car=${car}&patch=${patch}`);
-            const data = await res.text();
-            setCodeBlockContent("patch", data);
+            await load("patch", `/update?car=${car}&patch=${patch}`);
         }
 
         async function updateVehicleAndReset() {
@@ -307,9 +325,7 @@ Demo web page: Sunghwan Park; Karu (@karu-rress)
             const patch = document.getElementById("patchSelect").value;
             /* patch=1 -> original TSON
             patch>=2 -> patch applied TSON */
-            const res = await fetch(`/patch?car=${car}&patch=${patch}`);
-            const data = await res.text();
-            setCodeBlockContent("result", data);
+            await load("result", `/patch?car=${car}&patch=${patch}`);
         }
 
         const snapshots = {};
-- 
2.43.0


From 96efaef037524ccc9ad75f5829f3d9cbc1a96659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:59 +0000
Subject: [PATCH 31/37] fix: keep only what was appended as a snapshot on the
 demo page

"Snapshot" could be pressed before the answer was there, after an error, and
after another car or patch was chosen; the snapshot then held a text that its
name does not say.
---
 index.html | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/index.html b/index.html
index 092ca95..19966aa 100644
--- a/index.html
+++ b/index.html
@@ -166,7 +166,7 @@ Demo web page: Sunghwan Park; Karu (@karu-rress)
                 <div class="box-header">
                     <div class="title-text">Vehicle State</div>
                     <!-- Car selection -->
-                    <select id="carSelect" onchange="updateVehicle()">
+                    <select id="carSelect" onchange="updateVehicleAndReset()">
                         <option value="1">Car 1</option>
                         <option value="2">Car 2</option>
                         <option value="3">Car 3</option>
@@ -185,7 +185,7 @@ Demo web page: Sunghwan Park; Karu (@karu-rress)
                 <div class="box-header">
                     <div class="title-text">Patches</div>
                     <!-- Patch Selection -->
-                    <select id="patchSelect" onchange="updatePatch()">
+                    <select id="patchSelect" onchange="updatePatchAndReset()">
                         <!-- 2 <= patchIdx <= 9 -->
                         <option value="2">Patch 1</option>
                         <option value="3">Patch 2</option>
@@ -308,14 +308,19 @@ Demo web page: Sunghwan Park; Karu (@karu-rress)
             await load("patch", `/update?car=${car}&patch=${patch}`);
         }
 
-        async function updateVehicleAndReset() {
+        // What is appended belongs to one car and patch: a new choice has to be appended again
+        function resetAppended() {
+            delete latest.result;
             isAppended = false;
             document.getElementById("appendSnapshotBtn").textContent = "Append";
+        }
+
+        async function updateVehicleAndReset() {
+            resetAppended();
             await updateVehicle();
         }
         async function updatePatchAndReset() {
-            isAppended = false;
-            document.getElementById("appendSnapshotBtn").textContent = "Append";
+            resetAppended();
             await updatePatch();
         }
 
@@ -325,7 +330,7 @@ Demo web page: Sunghwan Park; Karu (@karu-rress)
             const patch = document.getElementById("patchSelect").value;
             /* patch=1 -> original TSON
             patch>=2 -> patch applied TSON */
-            await load("result", `/patch?car=${car}&patch=${patch}`);
+            return load("result", `/patch?car=${car}&patch=${patch}`);
         }
 
         const snapshots = {};
@@ -358,16 +363,13 @@ Demo web page: Sunghwan Park; Karu (@karu-rress)
             }
         }
 
-        function onAppendSnapshotClicked() {
-            const btn = document.getElementById("appendSnapshotBtn");
-            if (!isAppended) {
-                applyPatches();
-                isAppended = true;
-                btn.textContent = "Snapshot";
-            } else {
+        async function onAppendSnapshotClicked() {
+            if (isAppended) {
                 saveSnapshot();
-                isAppended = false;
-                btn.textContent = "Append";
+                resetAppended();
+            } else if (await applyPatches()) {
+                isAppended = true;
+                document.getElementById("appendSnapshotBtn").textContent = "Snapshot";
             }
         }
 
-- 
2.43.0


From 7020302c4ac09d74e13542c9c1c16f63d4f7602c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:13 +0000
Subject: [PATCH 32/37] fix: do not round timestamps of patches shown on the
 demo page

---
 index.html | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/index.html b/index.html
index 19966aa..e8ccd20 100644
--- a/index.html
+++ b/index.html
@@ -260,13 +260,26 @@ Demo web page: Sunghwan Park; Karu (@karu-rress)
             );
         }
 
-        // Parse text given by server, and applies syntaxHighlight to display in <code>
+        // Indent JSON text without touching its values (JSON.parse rounds timestamps)
+        function indentJSON(text) {
+            JSON.parse(text); // throws if it is not JSON
+            let indent = "\n";
+            const token = /\s+|"(?:\\.|[^"\\])*"|[{[]\s*[}\]]|[^\s"]/g;
+            return text.replace(token, t => {
+                if (/^\s/.test(t)) return "";
+                if (/^[{[]\s*[}\]]/.test(t)) return t[0] + t[t.length - 1];
+                if (t === "{" || t === "[") return t + (indent += "  ");
+                if (t === "}" || t === "]") return (indent = indent.slice(0, -2)) + t;
+                if (t === ",") return t + indent;
+                return t === ":" ? ": " : t;
+            });
+        }
+
+        // Indent text given by server, and applies syntaxHighlight to display in <code>
         function setCodeBlockContent(elementId, textData) {
             const codeBlock = document.getElementById(elementId);
             try {
-                const parsed = JSON.parse(textData);
-                const pretty = JSON.stringify(parsed, null, 2);
-                codeBlock.innerHTML = syntaxHighlight(pretty);
+                codeBlock.innerHTML = syntaxHighlight(indentJSON(textData));
             } catch (e) {
                 // Try highlighting even if JSON.parse fails
                 codeBlock.innerHTML = syntaxHighlight(textData);
-- 
2.43.0


From 224e98d3c378bb9f789c2032744305b233bd06ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:48 +0000
Subject: [PATCH 33/37] fix: keep the value of a signal that has no other one
 to select

---
 exp/utils.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/exp/utils.go b/exp/utils.go
index 2547e70..7c4f3e9 100644
--- a/exp/utils.go
+++ b/exp/utils.go
@@ -464,6 +464,11 @@ func calculateNewStringValue(sensor *SensorData, currentTimeMs int64, scenario s
 				prefix = "value_"
 			}
 
+			// 다른 값이 없으면 현재 값 유지
+			if numChoices < 2 {
+				return currValue
+			}
+
 			// 현재 값과 다른 새 값 선택
 			var newValue string
 			for {
-- 
2.43.0


From bfa2c8dfbddd465e551f61677e0ec7791fa7a5c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:23 +0000
Subject: [PATCH 34/37] fix: give every experiment a directory of its own

---
 exp/doc_data_save.go | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/exp/doc_data_save.go b/exp/doc_data_save.go
index 5c7f770..8ce818d 100644
--- a/exp/doc_data_save.go
+++ b/exp/doc_data_save.go
@@ -16,14 +16,19 @@ type DataStorage struct {
 }
 
 func NewDataStorage(baseDir, scenario string) *DataStorage {
-	// Generate a timestamp for a unique directory
-	timestamp := time.Now().Format("20060102_150405")
-
-	// Create the full path including scenario and timestamp
-	fullPath := filepath.Join(baseDir, scenario, timestamp)
-
-	// Create the directory if it doesn't exist
-	os.MkdirAll(fullPath, os.ModePerm)
+	// Create the scenario directory if it doesn't exist
+	scenarioDir := filepath.Join(baseDir, scenario)
+	os.MkdirAll(scenarioDir, os.ModePerm)
+
+	// Generate a timestamp for a unique directory; a directory that is already there belongs to another experiment
+	var timestamp, fullPath string
+	for now := time.Now(); ; now = now.Add(time.Second) {
+		timestamp = now.Format("20060102_150405")
+		fullPath = filepath.Join(scenarioDir, timestamp)
+		if err := os.Mkdir(fullPath, os.ModePerm); !os.IsExist(err) {
+			break
+		}
+	}
 
 	return &DataStorage{
 		OutputDir: fullPath,
-- 
2.43.0


From ca762cb2a66bdea33fafe192898ccdcffaae8cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:44 +0000
Subject: [PATCH 35/37] fix: keep empty keys in the paths of generated patches

---
 internal/tsonpatch/tsonpatch.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/internal/tsonpatch/tsonpatch.go b/internal/tsonpatch/tsonpatch.go
index 819094d..3eb1461 100644
--- a/internal/tsonpatch/tsonpatch.go
+++ b/internal/tsonpatch/tsonpatch.go
@@ -408,9 +408,6 @@ func makePath(path string, newPart any) string {
 	if path == "" {
 		return "/" + key
 	}
-	if strings.HasSuffix(path, "/") {
-		return path + key
-	}
 	return path + "/" + key
 }
 
-- 
2.43.0


From 500f2e211fac13195f6b3aca824d28002193e1c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:53 +0000
Subject: [PATCH 36/37] fix: refuse to track versions before the first one of a
 slice

---
 internal/logument/logument.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/internal/logument/logument.go b/internal/logument/logument.go
index 68c1d20..f50598f 100644
--- a/internal/logument/logument.go
+++ b/internal/logument/logument.go
@@ -417,6 +417,13 @@ func (lgm *Logument) Track(vi, vj uint64) map[uint64]tsonPatches {
 			"\nLatest version: " + strconv.FormatUint(lgm.Version[len(lgm.Version)-1], 10))
 	}
 
+	if vi < lgm.Version[0] || vj < lgm.Version[0] {
+		panic("Target versions should not be smaller than the first version." +
+			"\nTarget version vi: " + strconv.FormatUint(vi, 10) +
+			"\nTarget version vj: " + strconv.FormatUint(vj, 10) +
+			"\nFirst version: " + strconv.FormatUint(lgm.Version[0], 10))
+	}
+
 	if vi > vj {
 		panic("Target version vi should be smaller than or equal to target version vj." +
 			"\nTarget version vi: " + strconv.FormatUint(vi, 10) +
-- 
2.43.0


From 663b7bd43e753a577f4d533c5be5014d7f293ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:01 +0000
Subject: [PATCH 37/37] fix: comparing deeply nested documents took exponential
 time

---
 internal/tsonpatch/tsonpatch.go | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/internal/tsonpatch/tsonpatch.go b/internal/tsonpatch/tsonpatch.go
index 3eb1461..9de4437 100644
--- a/internal/tsonpatch/tsonpatch.go
+++ b/internal/tsonpatch/tsonpatch.go
@@ -697,7 +697,7 @@ func matchesValue(origin, modified tson.Value) bool {
 			}
 		}
 		for key := range modObj {
-			if !matchesValue(org[key], modObj[key]) {
+			if _, ok := org[key]; !ok {
 				return false
 			}
 		}
@@ -712,11 +712,6 @@ func matchesValue(origin, modified tson.Value) bool {
 				return false
 			}
 		}
-		for key := range modArray {
-			if !matchesValue(org[key], modArray[key]) {
-				return false
-			}
-		}
 		return true
 	}
 	return false
@@ -746,7 +741,7 @@ func matchTimestamp(origin, modified tson.Value) bool {
 			}
 		}
 		for key := range modObj {
-			if !matchTimestamp(org[key], modObj[key]) {
+			if _, ok := org[key]; !ok {
 				return false
 			}
 		}
@@ -761,11 +756,6 @@ func matchTimestamp(origin, modified tson.Value) bool {
 				return false
 			}
 		}
-		for key := range modArray {
-			if !matchTimestamp(org[key], modArray[key]) {
-				return false
-			}
-		}
 		return true
 	}
 	return false
-- 
2.43.0

