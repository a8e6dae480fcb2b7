From 6a6a19638192e89538425a9da96a049fcc951ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:33 +0000
Subject: [PATCH 01/16] fix: refuse doubly signed text and trailing garbage
 when parsing durations

---
 go/tricorder/duration/duration.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/go/tricorder/duration/duration.go b/go/tricorder/duration/duration.go
index 1369106..d588151 100644
--- a/go/tricorder/duration/duration.go
+++ b/go/tricorder/duration/duration.go
@@ -129,19 +129,25 @@ func parse(str string) (result Duration, err error) {
 	if strings.HasPrefix(str, "-") {
 		bNegative = true
 		str = str[1:]
+	} else if strings.HasPrefix(str, "+") {
+		str = str[1:]
 	}
 	number := strings.SplitN(str, ".", 2)
-	whole, err := strconv.ParseInt(number[0], 10, 64)
-	if err != nil {
+	if strings.HasPrefix(number[0], "-") || strings.HasPrefix(number[0], "+") {
+		err = errors.New("Double sign while parsing")
 		return
 	}
-	if whole < 0 {
-		err = errors.New("Double negative while parsing")
+	whole, err := strconv.ParseInt(number[0], 10, 64)
+	if err != nil {
 		return
 	}
 	var frac uint64
 	if len(number) == 2 {
 		fracStr := number[1]
+		if strings.Trim(fracStr, "0123456789") != "" {
+			err = errors.New("Non digit in fraction while parsing")
+			return
+		}
 		if len(fracStr) < 9 {
 			fracStr = fracStr + strings.Repeat("0", 9-len(fracStr))
 		} else {
-- 
2.43.0


From 717b1e68cd84175dabe26ab0e3f75c4a81026477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:50 +0000
Subject: [PATCH 02/16] fix: round float values to the nearest integer without
 adding a half first

---
 go/tricorder/types/types.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/go/tricorder/types/types.go b/go/tricorder/types/types.go
index 1e465d5..2d0c6cb 100644
--- a/go/tricorder/types/types.go
+++ b/go/tricorder/types/types.go
@@ -1,12 +1,13 @@
 package types
 
+import (
+	"math"
+)
+
 type goValue interface {
 	Type() Type
 }
 
 func round(f float64) float64 {
-	if f < 0 {
-		return f - 0.5
-	}
-	return f + 0.5
+	return math.Round(f)
 }
-- 
2.43.0


From 7f606b1249255e4215320059120ce46afe4241e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:02 +0000
Subject: [PATCH 03/16] fix: convert negative float seconds to the nearest
 duration

---
 go/tricorder/duration/api.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/go/tricorder/duration/api.go b/go/tricorder/duration/api.go
index 4b65b73..2671d13 100644
--- a/go/tricorder/duration/api.go
+++ b/go/tricorder/duration/api.go
@@ -3,6 +3,7 @@ package duration
 
 import (
 	"github.com/Symantec/tricorder/go/tricorder/units"
+	"math"
 	"time"
 )
 
@@ -95,5 +96,5 @@ func ToFloat(d time.Duration) (seconds float64) {
 
 // FromFloat converts a value in seconds to a duration
 func FromFloat(seconds float64) time.Duration {
-	return time.Duration(seconds*float64(time.Second) + 0.5)
+	return time.Duration(math.Round(seconds * float64(time.Second)))
 }
-- 
2.43.0


From f9f3a134b801b0a0fa9228799f33a2605067f903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:02 +0000
Subject: [PATCH 04/16] fix: read the microseconds of a timeval as microseconds

---
 go/tricorder/setup.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/go/tricorder/setup.go b/go/tricorder/setup.go
index b0a4b59..ea14d30 100644
--- a/go/tricorder/setup.go
+++ b/go/tricorder/setup.go
@@ -15,7 +15,7 @@ func getProgramArgs() string {
 }
 
 func timeValToDuration(val *wrapper.Timeval) time.Duration {
-	return time.Duration(val.Sec)*time.Second + time.Duration(val.Usec)*time.Nanosecond
+	return time.Duration(val.Sec)*time.Second + time.Duration(val.Usec)*time.Microsecond
 }
 
 func initDefaultMetrics() {
-- 
2.43.0


From c3e70d8a5e365e37127956c6aaea97ae1b84db2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:02 +0000
Subject: [PATCH 05/16] fix: report the unshared stack size obtained from
 getrusage

---
 go/tricorder/wrapper/syscall_darwin.go | 1 +
 go/tricorder/wrapper/syscall_linux.go  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/go/tricorder/wrapper/syscall_darwin.go b/go/tricorder/wrapper/syscall_darwin.go
index 2eca0b9..831cd56 100644
--- a/go/tricorder/wrapper/syscall_darwin.go
+++ b/go/tricorder/wrapper/syscall_darwin.go
@@ -40,6 +40,7 @@ func Getrusage(who int, rusage *Rusage) error {
 	rusage.Maxrss = int64(syscallRusage.Maxrss)
 	rusage.Ixrss = int64(syscallRusage.Ixrss)
 	rusage.Idrss = int64(syscallRusage.Idrss)
+	rusage.Isrss = int64(syscallRusage.Isrss)
 	rusage.Minflt = int64(syscallRusage.Minflt)
 	rusage.Majflt = int64(syscallRusage.Majflt)
 	rusage.Nswap = int64(syscallRusage.Nswap)
diff --git a/go/tricorder/wrapper/syscall_linux.go b/go/tricorder/wrapper/syscall_linux.go
index 500b0e6..b5ffd59 100644
--- a/go/tricorder/wrapper/syscall_linux.go
+++ b/go/tricorder/wrapper/syscall_linux.go
@@ -40,6 +40,7 @@ func Getrusage(who int, rusage *Rusage) error {
 	rusage.Maxrss = int64(syscallRusage.Maxrss) << 10
 	rusage.Ixrss = int64(syscallRusage.Ixrss) << 10
 	rusage.Idrss = int64(syscallRusage.Idrss) << 10
+	rusage.Isrss = int64(syscallRusage.Isrss) << 10
 	rusage.Minflt = int64(syscallRusage.Minflt)
 	rusage.Majflt = int64(syscallRusage.Majflt)
 	rusage.Nswap = int64(syscallRusage.Nswap)
-- 
2.43.0


From 5a277a8edb7b5155566793727fc0cc0755a20699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:02 +0000
Subject: [PATCH 06/16] fix: report generation and cumulative flag of an empty
 distribution

---
 go/tricorder/metric.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/go/tricorder/metric.go b/go/tricorder/metric.go
index 38739b3..02d4f3b 100644
--- a/go/tricorder/metric.go
+++ b/go/tricorder/metric.go
@@ -572,9 +572,11 @@ func (d *distribution) Snapshot() *snapshot {
 	}
 	if d.count == 0 {
 		return &snapshot{
-			Count:     d.count,
-			Breakdown: bdn,
-			TimeStamp: d.timeStamp,
+			Count:           d.count,
+			Generation:      d.generation,
+			IsNotCumulative: d.isNotCumulative,
+			TimeStamp:       d.timeStamp,
+			Breakdown:       bdn,
 		}
 	}
 	return &snapshot{
-- 
2.43.0


From f53ea7eecd4c87cb40a943a235aea1ed0f15403f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:01 +0000
Subject: [PATCH 07/16] fix: hold the group while the text page reads a single
 metric

The session was closed before the variable was read, so that another
request's update of the group could change it meanwhile.
---
 go/tricorder/html.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/go/tricorder/html.go b/go/tricorder/html.go
index 6849d9d..e68e876 100644
--- a/go/tricorder/html.go
+++ b/go/tricorder/html.go
@@ -267,7 +267,9 @@ func textEmitDirectoryOrMetric(
 	if m == nil {
 		return d.GetAllMetrics(&textCollector{W: w}, nil)
 	}
-	return textEmitMetric(m, nil, w)
+	s := newSession()
+	defer s.Close()
+	return textEmitMetric(m, s, w)
 }
 
 func setSecurityHeaders(w http.ResponseWriter) {
-- 
2.43.0


From 121c30768bf780a46bad601064242da4951a6b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:48 +0000
Subject: [PATCH 08/16] fix: report variables of derived types as the
 documented type

A variable of a type such as 'type Name string' was reported with that
type, which neither the Go RPC encoding nor types.FromGoValue know.
---
 go/tricorder/metric.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/go/tricorder/metric.go b/go/tricorder/metric.go
index 02d4f3b..1b2d947 100644
--- a/go/tricorder/metric.go
+++ b/go/tricorder/metric.go
@@ -1080,7 +1080,8 @@ func valueToInterface(
 	case t == types.GoDuration:
 		return valueToGoDuration(value)
 	case !isValueAPointer:
-		return value.Interface()
+		// Convert in case the type of value is defined in terms of t.
+		return value.Convert(reflect.TypeOf(t.ZeroValue())).Interface()
 	default:
 		panic(panicIncompatibleTypes)
 	}
-- 
2.43.0


From 4e25b36504d1fc4bae747e64fda027006928be77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:04 +0000
Subject: [PATCH 09/16] fix: report lists of derived element types as the
 documented type

A list of, say, 'type Name string' or of a named slice type was reported
with that type, which the Go RPC encoding, the conversion to JSON form and
types.FromGoValue do not know.
---
 go/tricorder/metric.go | 35 ++++++++---------------------------
 1 file changed, 8 insertions(+), 27 deletions(-)

diff --git a/go/tricorder/metric.go b/go/tricorder/metric.go
index 1b2d947..91dbf94 100644
--- a/go/tricorder/metric.go
+++ b/go/tricorder/metric.go
@@ -608,30 +608,11 @@ func copySlice(value reflect.Value) reflect.Value {
 	return result
 }
 
-// Converts []int or []uint slice to a slice having element type t.
-// If value is an []int, t has to be types.Int32 or types.Int64.
-// If value is an []uint, t has to be types.Uint32 or types.Uint64.
-func convertFromIntOrUintSlice(
-	value reflect.Value, t types.Type) reflect.Value {
-	var newType reflect.Type
-	switch t {
-	case types.Int32:
-		var unused []int32
-		newType = reflect.TypeOf(unused)
-	case types.Int64:
-		var unused []int64
-		newType = reflect.TypeOf(unused)
-	case types.Uint32:
-		var unused []uint32
-		newType = reflect.TypeOf(unused)
-	case types.Uint64:
-		var unused []uint64
-		newType = reflect.TypeOf(unused)
-	default:
-		panic("t is not compatible with int or uint")
-	}
+// Converts slice to a slice having element type t.
+func convertSlice(value reflect.Value, t types.Type) reflect.Value {
 	length := value.Len()
-	defensiveCopy := reflect.MakeSlice(newType, length, length)
+	defensiveCopy := reflect.MakeSlice(
+		reflect.TypeOf(t.NilSlice()), length, length)
 	for i := 0; i < length; i++ {
 		defensiveCopy.Index(i).Set(
 			reflect.ValueOf(
@@ -646,7 +627,8 @@ func convertFromIntOrUintSlice(
 // Returns aSlice as a value and its type. If sliceIsMutable is true,
 // always makes a defensive copy of aSlice. If sliceIsMutable is false,
 // may or may not make a defensive copy of aSlice. If aSlice is an []int
-// or []uint, returned value will be size specific, e.g []int64.
+// or []uint, returned value will be size specific, e.g []int64. Likewise,
+// slices of derived types are converted to slices of the type they report.
 func asSliceValue(aSlice interface{}, sliceIsMutable bool) (
 	value reflect.Value, t types.Type) {
 	value = reflect.ValueOf(aSlice)
@@ -658,9 +640,8 @@ func asSliceValue(aSlice interface{}, sliceIsMutable bool) (
 	if isPtr {
 		panic("Lists cannot contain slices of pointrs.")
 	}
-	elemKind := elemType.Kind()
-	if elemKind == reflect.Int || elemKind == reflect.Uint {
-		value = convertFromIntOrUintSlice(value, t)
+	if value.Type() != reflect.TypeOf(t.NilSlice()) {
+		value = convertSlice(value, t)
 	} else if sliceIsMutable {
 		value = copySlice(value)
 	}
-- 
2.43.0


From eef6a877901477e5aa19301639262a7bc0cf7a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:07 +0000
Subject: [PATCH 10/16] fix: refuse values that are no variable or callback
 with ErrWrongType

Registering a nil pointer, a plain value or a nil function panicked, and
a function with parameters was accepted and made every listing panic.
---
 go/tricorder/metric.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/go/tricorder/metric.go b/go/tricorder/metric.go
index 91dbf94..891c279 100644
--- a/go/tricorder/metric.go
+++ b/go/tricorder/metric.go
@@ -858,8 +858,15 @@ func newValue(spec interface{}, region *region, unit units.Unit) (
 			isValAPointer: isValAPointer}, nil
 	}
 	v := reflect.ValueOf(spec)
+	if k := v.Kind(); k != reflect.Func && k != reflect.Ptr || v.IsNil() {
+		return nil, ErrWrongType
+	}
 	t := v.Type()
 	if t.Kind() == reflect.Func {
+		// tricorder calls functions with no arguments
+		if t.NumIn() > 0 && !(t.IsVariadic() && t.NumIn() == 1) {
+			return nil, ErrWrongType
+		}
 		funcArgCount := t.NumOut()
 
 		// Our functions have to return exactly one thing
-- 
2.43.0


From a7c45e2160f85e7218677ca12fbe1e57394d6f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:54 +0000
Subject: [PATCH 11/16] fix: report flags that have no value yet by their text
 instead of panicking

---
 go/tricorder/metric.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/go/tricorder/metric.go b/go/tricorder/metric.go
index 891c279..f86d5e9 100644
--- a/go/tricorder/metric.go
+++ b/go/tricorder/metric.go
@@ -839,8 +839,12 @@ func newValue(spec interface{}, region *region, unit units.Unit) (
 	flagValue, ok := spec.(flag.Value)
 	if ok {
 		flagGetter := toFlagGetter(flagValue)
-		t := reflect.ValueOf(flagGetter.Get()).Type()
-		valType, isValAPointer, ok := getPrimitiveType(t)
+		var valType types.Type
+		var isValAPointer, ok bool
+		// t is nil if the flag has no value
+		if t := reflect.TypeOf(flagGetter.Get()); t != nil {
+			valType, isValAPointer, ok = getPrimitiveType(t)
+		}
 		var valFunc reflect.Value
 		if !ok {
 			valType = types.String
-- 
2.43.0


From 86c75f0a428b9b4ac1a43f9427c5c175e57b065c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:24 +0000
Subject: [PATCH 12/16] fix: do not compress JSON responses for clients that
 refuse gzip

A client sending "Accept-Encoding: gzip;q=0", or a coding whose name
merely contains gzip, got a compressed response.
---
 go/tricorder/http.go | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/go/tricorder/http.go b/go/tricorder/http.go
index 9eced71..7408050 100644
--- a/go/tricorder/http.go
+++ b/go/tricorder/http.go
@@ -8,6 +8,7 @@ import (
 	"log"
 	"net/http"
 	"os"
+	"strconv"
 	"strings"
 	"time"
 )
@@ -62,8 +63,31 @@ type gzipHandler struct {
 	H http.Handler
 }
 
+// acceptsGzip returns true if a client sending given Accept-Encoding header
+// accepts gzip. "gzip;q=0" means that it does not.
+func acceptsGzip(acceptEncoding string) bool {
+	for _, coding := range strings.Split(acceptEncoding, ",") {
+		params := strings.Split(coding, ";")
+		if strings.TrimSpace(params[0]) != "gzip" {
+			continue
+		}
+		for _, param := range params[1:] {
+			weight := strings.Split(param, "=")
+			if len(weight) != 2 || strings.ToLower(strings.TrimSpace(weight[0])) != "q" {
+				continue
+			}
+			q, err := strconv.ParseFloat(strings.TrimSpace(weight[1]), 64)
+			if err != nil || q <= 0.0 {
+				return false
+			}
+		}
+		return true
+	}
+	return false
+}
+
 func (h gzipHandler) ServeHTTP(w http.ResponseWriter, r *http.Request) {
-	if !strings.Contains(r.Header.Get("Accept-Encoding"), "gzip") {
+	if !acceptsGzip(r.Header.Get("Accept-Encoding")) {
 		h.H.ServeHTTP(w, r)
 		return
 	}
-- 
2.43.0


From e2d78b1e5881c8afe5671edc9f042191d4cdb48d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:24 +0000
Subject: [PATCH 13/16] fix: escape directory names in links of the HTML
 metrics page

Links to directories with a ?, # or % in their name led elsewhere.
---
 go/tricorder/html.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/go/tricorder/html.go b/go/tricorder/html.go
index e68e876..11720b5 100644
--- a/go/tricorder/html.go
+++ b/go/tricorder/html.go
@@ -7,6 +7,7 @@ import (
 	"html/template"
 	"io"
 	"net/http"
+	"net/url"
 	"regexp"
 	"strconv"
 	"strings"
@@ -142,7 +143,8 @@ func (v *htmlView) HasUnit() bool {
 }
 
 func (v *htmlView) Link(d *directory) string {
-	return htmlUrl + d.AbsPath()
+	u := url.URL{Path: htmlUrl + d.AbsPath()}
+	return u.String()
 }
 
 func (v *htmlView) ToFloat32(f float64) float32 {
-- 
2.43.0


From a8a00fbfa9c08f6cb4e9b55b8396e6203fc02d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:24 +0000
Subject: [PATCH 14/16] fix: fix the unit of a distribution only when its
 registration succeeds

A registration that failed because the path was in use left the
distribution with that registration's unit.
---
 go/tricorder/metric.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/go/tricorder/metric.go b/go/tricorder/metric.go
index f86d5e9..02363c0 100644
--- a/go/tricorder/metric.go
+++ b/go/tricorder/metric.go
@@ -807,15 +807,11 @@ func mustGetPrimitiveType(t reflect.Type) (
 
 func newValueForDist(dist *distribution, unit units.Unit) (
 	*value, error) {
-	if !dist.SetUnit(unit) {
-		return nil, ErrWrongUnit
-	}
 	return &value{dist: dist, unit: unit, valType: types.Dist}, nil
 
 }
 
-// unit parameter only used if spec is a *Distribution
-// In that case, it sets the unit of the *Distribution in place.
+// If spec is a *Distribution, its unit gets set when the metric is stored.
 func newValue(spec interface{}, region *region, unit units.Unit) (
 	*value, error) {
 	if someDist, ok := spec.(*NonCumulativeDistribution); ok {
@@ -1683,6 +1679,10 @@ func (d *directory) storeMetric(name string, m *metric) error {
 	if n != nil {
 		return ErrPathInUse
 	}
+	// A distribution gets its unit only if it gets registered.
+	if m.dist != nil && !m.dist.SetUnit(m.unit) {
+		return ErrWrongUnit
+	}
 	newListEntry := &listEntry{Name: name, Metric: m, parent: d.enclosingListEntry}
 	m.enclosingListEntry = newListEntry
 	d.contents[name] = newListEntry
-- 
2.43.0


From bb0b442d4f9ad4bab912d475a57699ddae195c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:24 +0000
Subject: [PATCH 15/16] fix: evaluate a float metric once per listing

A callback that returned a finite value when tested and NaN when reported
broke the JSON listing of everything listed with it.
---
 go/tricorder/metric.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/go/tricorder/metric.go b/go/tricorder/metric.go
index 02363c0..165fb6f 100644
--- a/go/tricorder/metric.go
+++ b/go/tricorder/metric.go
@@ -1496,8 +1496,26 @@ func (d *directory) GetMetric(relativePath string) *metric {
 	return m
 }
 
+// evaluated returns a metric like this one that has the current value of
+// this one so that evaluating it any number of times gives the same value.
+func (m *metric) evaluated(s *session) *metric {
+	current := m.evaluate(s)
+	val := reflect.New(current.Type()).Elem()
+	val.Set(current)
+	avalue := *m.value
+	avalue.val = val
+	avalue.isfunc = false
+	result := *m
+	result.value = &avalue
+	return &result
+}
+
 // s is always non-nil
 func collect(m *metric, s *session, coll metricsCollector) error {
+	if m.Type().IsFloat() {
+		// Report the very value found to be neither infinite nor NaN
+		m = m.evaluated(s)
+	}
 	if m.IsInfNaN(s) {
 		return nil
 	}
-- 
2.43.0


From 8a320f3e18adee7afa356e4160c0009616ecc72b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:23:04 +0000
Subject: [PATCH 16/16] fix: geometric bucketer of the smallest numbers never
 ends

For lower up to 1e-323 the power of ten below lower underflows to zero, so
NewGeometricBucketer appends zeros until memory runs out.
---
 go/tricorder/metric.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/go/tricorder/metric.go b/go/tricorder/metric.go
index 165fb6f..dd8080a 100644
--- a/go/tricorder/metric.go
+++ b/go/tricorder/metric.go
@@ -269,6 +269,10 @@ func newGeometricBucketerStream(lower, upper float64) (result []float64) {
 		panic("lower must > 0 and upper >= lower")
 	}
 	base, offset := findGeometricBaseAndOffset(lower)
+	if base == 0.0 {
+		// lower is so small that no float64 holds its power of ten
+		base, offset = math.SmallestNonzeroFloat64, 0
+	}
 	coeffLen := len(coefficientsForGeometricBucketer)
 	emitValue := base * coefficientsForGeometricBucketer[offset]
 	for emitValue < upper {
-- 
2.43.0

