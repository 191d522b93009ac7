From 514bd343f4e19dcaff5e2db1689db43860c7e4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:31 +0000
Subject: [PATCH 01/11] fix: convert the microseconds of a timeval as
 microseconds

---
 go/tricorder/setup.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/go/tricorder/setup.go b/go/tricorder/setup.go
index b0a4b59..ea14d30 100644
--- a/go/tricorder/setup.go
+++ b/go/tricorder/setup.go
@@ -15,7 +15,7 @@ func getProgramArgs() string {
 }
 
 func timeValToDuration(val *wrapper.Timeval) time.Duration {
-	return time.Duration(val.Sec)*time.Second + time.Duration(val.Usec)*time.Nanosecond
+	return time.Duration(val.Sec)*time.Second + time.Duration(val.Usec)*time.Microsecond
 }
 
 func initDefaultMetrics() {
-- 
2.43.0


From 8961057638c520063fb890fb4ffb5351683b4f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:31 +0000
Subject: [PATCH 02/11] fix: report the unshared stack size in Getrusage

---
 go/tricorder/wrapper/syscall_darwin.go | 1 +
 go/tricorder/wrapper/syscall_linux.go  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/go/tricorder/wrapper/syscall_darwin.go b/go/tricorder/wrapper/syscall_darwin.go
index 2eca0b9..831cd56 100644
--- a/go/tricorder/wrapper/syscall_darwin.go
+++ b/go/tricorder/wrapper/syscall_darwin.go
@@ -40,6 +40,7 @@ func Getrusage(who int, rusage *Rusage) error {
 	rusage.Maxrss = int64(syscallRusage.Maxrss)
 	rusage.Ixrss = int64(syscallRusage.Ixrss)
 	rusage.Idrss = int64(syscallRusage.Idrss)
+	rusage.Isrss = int64(syscallRusage.Isrss)
 	rusage.Minflt = int64(syscallRusage.Minflt)
 	rusage.Majflt = int64(syscallRusage.Majflt)
 	rusage.Nswap = int64(syscallRusage.Nswap)
diff --git a/go/tricorder/wrapper/syscall_linux.go b/go/tricorder/wrapper/syscall_linux.go
index 500b0e6..b5ffd59 100644
--- a/go/tricorder/wrapper/syscall_linux.go
+++ b/go/tricorder/wrapper/syscall_linux.go
@@ -40,6 +40,7 @@ func Getrusage(who int, rusage *Rusage) error {
 	rusage.Maxrss = int64(syscallRusage.Maxrss) << 10
 	rusage.Ixrss = int64(syscallRusage.Ixrss) << 10
 	rusage.Idrss = int64(syscallRusage.Idrss) << 10
+	rusage.Isrss = int64(syscallRusage.Isrss) << 10
 	rusage.Minflt = int64(syscallRusage.Minflt)
 	rusage.Majflt = int64(syscallRusage.Majflt)
 	rusage.Nswap = int64(syscallRusage.Nswap)
-- 
2.43.0


From 8b59b9d412a99edb6902642e02c4a8a6c74e8c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:39 +0000
Subject: [PATCH 03/11] fix: report generation and cumulative flag of an empty
 distribution

A snapshot of a distribution holding no values dropped its generation and
reported every non-cumulative distribution as cumulative.
---
 go/tricorder/metric.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/go/tricorder/metric.go b/go/tricorder/metric.go
index 38739b3..ff71684 100644
--- a/go/tricorder/metric.go
+++ b/go/tricorder/metric.go
@@ -572,9 +572,11 @@ func (d *distribution) Snapshot() *snapshot {
 	}
 	if d.count == 0 {
 		return &snapshot{
-			Count:     d.count,
-			Breakdown: bdn,
-			TimeStamp: d.timeStamp,
+			Count:           d.count,
+			Generation:      d.generation,
+			IsNotCumulative: d.isNotCumulative,
+			Breakdown:       bdn,
+			TimeStamp:       d.timeStamp,
 		}
 	}
 	return &snapshot{
-- 
2.43.0


From 4a362e3ba0a6a9247a980d2931f4d7a62fe52d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:41 +0000
Subject: [PATCH 04/11] fix: a refused update or removal leaves the
 distribution as it was

Updating with an old value whose bucket is empty counted the new value
before panicking, so the bucket counts no longer added up to the total;
both operations also stamped the distribution before refusing.
---
 go/tricorder/metric.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/go/tricorder/metric.go b/go/tricorder/metric.go
index ff71684..3030e63 100644
--- a/go/tricorder/metric.go
+++ b/go/tricorder/metric.go
@@ -460,11 +460,11 @@ func (d *distribution) update(
 	if d.count == 0 {
 		panic("Can't call update on an empty distribution.")
 	}
-	d.timeStamp = ts
 	oldIdx := findDistributionIndex(d.pieces, oldValue)
 	newIdx := findDistributionIndex(d.pieces, newValue)
-	d.counts[newIdx]++
 	decrementCount(&d.counts[oldIdx])
+	d.timeStamp = ts
+	d.counts[newIdx]++
 	d.total += (newValue - oldValue)
 	if newValue < d.min {
 		d.min = newValue
@@ -482,9 +482,9 @@ func (d *distribution) remove(
 	if d.count == 0 {
 		panic("Can't call remove on an empty distribution.")
 	}
-	d.timeStamp = ts
 	idx := findDistributionIndex(d.pieces, valueToBeRemoved)
 	decrementCount(&d.counts[idx])
+	d.timeStamp = ts
 	d.total -= valueToBeRemoved
 	d.count--
 	d.generation++
-- 
2.43.0


From bf74511b30eec79e72c4d071dd5029d7e5bc39b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:44:47 +0000
Subject: [PATCH 05/11] fix: keep the session open while a single metric is
 rendered as text

The value was read after the session that visited its group had been
closed, so the group's update function could run during the read.
---
 go/tricorder/html.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/go/tricorder/html.go b/go/tricorder/html.go
index 6849d9d..e68e876 100644
--- a/go/tricorder/html.go
+++ b/go/tricorder/html.go
@@ -267,7 +267,9 @@ func textEmitDirectoryOrMetric(
 	if m == nil {
 		return d.GetAllMetrics(&textCollector{W: w}, nil)
 	}
-	return textEmitMetric(m, nil, w)
+	s := newSession()
+	defer s.Close()
+	return textEmitMetric(m, s, w)
 }
 
 func setSecurityHeaders(w http.ResponseWriter) {
-- 
2.43.0


From ba39aa50d85eb5ec8c71c12702849d29494ba1fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:26 +0000
Subject: [PATCH 06/11] fix: round to the nearest integer when converting from
 float

Adding 0.5 to a float of 2^52 or more, or just below one half, rounds to the
wrong integer.
---
 go/tricorder/types/types.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/go/tricorder/types/types.go b/go/tricorder/types/types.go
index 1e465d5..a330b2c 100644
--- a/go/tricorder/types/types.go
+++ b/go/tricorder/types/types.go
@@ -1,12 +1,14 @@
 package types
 
+import (
+	"math"
+)
+
 type goValue interface {
 	Type() Type
 }
 
+// round rounds to the nearest integer, half away from zero.
 func round(f float64) float64 {
-	if f < 0 {
-		return f - 0.5
-	}
-	return f + 0.5
+	return math.Round(f)
 }
-- 
2.43.0


From 2355b98233b046f1144b19ddd6ce0177bcdb3396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:26 +0000
Subject: [PATCH 07/11] fix: round times and durations converted from float to
 the nearest nanosecond

Negative durations were rounded up by one nanosecond and times were truncated.
---
 go/tricorder/duration/api.go      | 3 ++-
 go/tricorder/duration/duration.go | 5 ++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/go/tricorder/duration/api.go b/go/tricorder/duration/api.go
index 4b65b73..2671d13 100644
--- a/go/tricorder/duration/api.go
+++ b/go/tricorder/duration/api.go
@@ -3,6 +3,7 @@ package duration
 
 import (
 	"github.com/Symantec/tricorder/go/tricorder/units"
+	"math"
 	"time"
 )
 
@@ -95,5 +96,5 @@ func ToFloat(d time.Duration) (seconds float64) {
 
 // FromFloat converts a value in seconds to a duration
 func FromFloat(seconds float64) time.Duration {
-	return time.Duration(seconds*float64(time.Second) + 0.5)
+	return time.Duration(math.Round(seconds * float64(time.Second)))
 }
diff --git a/go/tricorder/duration/duration.go b/go/tricorder/duration/duration.go
index 1369106..4747088 100644
--- a/go/tricorder/duration/duration.go
+++ b/go/tricorder/duration/duration.go
@@ -34,7 +34,10 @@ func sinceEpoch(t time.Time) (result Duration) {
 func sinceEpochFloat(f float64) (result Duration) {
 	ii, ff := math.Modf(f)
 	result.Seconds = int64(ii)
-	result.Nanoseconds = int32(ff * 1e9)
+	nanos := int32(math.Round(ff * 1e9))
+	// Rounding may carry into the seconds.
+	result.Seconds += int64(nanos / oneBillion)
+	result.Nanoseconds = nanos % oneBillion
 	return
 }
 
-- 
2.43.0


From c3bea42566f63f56a1db0a6204ae70c6411b36a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:33:36 +0000
Subject: [PATCH 08/11] fix: report variables of user defined types as the
 built in type of their kind

---
 go/tricorder/metric.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/go/tricorder/metric.go b/go/tricorder/metric.go
index 3030e63..927acd3 100644
--- a/go/tricorder/metric.go
+++ b/go/tricorder/metric.go
@@ -1065,16 +1065,33 @@ func valueToInterface(
 	// If we were to just call v.evaluate(s).Interface() we would return
 	// that plain int or uint instead of a sized int or uint and violate
 	// the contract of the API which specifies that the value is always
-	// a sized int or uint.
+	// a sized int or uint. The other cases are necessary in case client
+	// passed a pointer to a user defined type such as type Level int8.
 	switch {
+	case t == types.Bool && !isValueAPointer:
+		return value.Bool()
+	case t == types.Int8 && !isValueAPointer:
+		return int8(value.Int())
+	case t == types.Int16 && !isValueAPointer:
+		return int16(value.Int())
 	case t == types.Int32 && !isValueAPointer:
 		return int32(value.Int())
 	case t == types.Int64 && !isValueAPointer:
 		return int64(value.Int())
+	case t == types.Uint8 && !isValueAPointer:
+		return uint8(value.Uint())
+	case t == types.Uint16 && !isValueAPointer:
+		return uint16(value.Uint())
 	case t == types.Uint32 && !isValueAPointer:
 		return uint32(value.Uint())
 	case t == types.Uint64 && !isValueAPointer:
 		return uint64(value.Uint())
+	case t == types.Float32 && !isValueAPointer:
+		return float32(value.Float())
+	case t == types.Float64 && !isValueAPointer:
+		return value.Float()
+	case t == types.String && !isValueAPointer:
+		return value.String()
 	case t == types.GoTime:
 		return valueToTime(value, isValueAPointer)
 	case t == types.GoDuration:
-- 
2.43.0


From 41ac3932d31284addd677819395bee68857eb560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:33:36 +0000
Subject: [PATCH 09/11] fix: report lists of user defined types with the built
 in element type

---
 go/tricorder/metric.go | 34 ++++++++--------------------------
 1 file changed, 8 insertions(+), 26 deletions(-)

diff --git a/go/tricorder/metric.go b/go/tricorder/metric.go
index 927acd3..86372db 100644
--- a/go/tricorder/metric.go
+++ b/go/tricorder/metric.go
@@ -608,28 +608,10 @@ func copySlice(value reflect.Value) reflect.Value {
 	return result
 }
 
-// Converts []int or []uint slice to a slice having element type t.
-// If value is an []int, t has to be types.Int32 or types.Int64.
-// If value is an []uint, t has to be types.Uint32 or types.Uint64.
-func convertFromIntOrUintSlice(
-	value reflect.Value, t types.Type) reflect.Value {
-	var newType reflect.Type
-	switch t {
-	case types.Int32:
-		var unused []int32
-		newType = reflect.TypeOf(unused)
-	case types.Int64:
-		var unused []int64
-		newType = reflect.TypeOf(unused)
-	case types.Uint32:
-		var unused []uint32
-		newType = reflect.TypeOf(unused)
-	case types.Uint64:
-		var unused []uint64
-		newType = reflect.TypeOf(unused)
-	default:
-		panic("t is not compatible with int or uint")
-	}
+// Converts slice such as []int, []uint, or a slice of a user defined type to
+// the standard slice having element type t.
+func convertSlice(value reflect.Value, t types.Type) reflect.Value {
+	newType := reflect.TypeOf(t.NilSlice())
 	length := value.Len()
 	defensiveCopy := reflect.MakeSlice(newType, length, length)
 	for i := 0; i < length; i++ {
@@ -646,7 +628,8 @@ func convertFromIntOrUintSlice(
 // Returns aSlice as a value and its type. If sliceIsMutable is true,
 // always makes a defensive copy of aSlice. If sliceIsMutable is false,
 // may or may not make a defensive copy of aSlice. If aSlice is an []int
-// or []uint, returned value will be size specific, e.g []int64.
+// or []uint, returned value will be size specific, e.g []int64. Likewise
+// slices of user defined types become slices of the built in type.
 func asSliceValue(aSlice interface{}, sliceIsMutable bool) (
 	value reflect.Value, t types.Type) {
 	value = reflect.ValueOf(aSlice)
@@ -658,9 +641,8 @@ func asSliceValue(aSlice interface{}, sliceIsMutable bool) (
 	if isPtr {
 		panic("Lists cannot contain slices of pointrs.")
 	}
-	elemKind := elemType.Kind()
-	if elemKind == reflect.Int || elemKind == reflect.Uint {
-		value = convertFromIntOrUintSlice(value, t)
+	if value.Type() != reflect.TypeOf(t.NilSlice()) {
+		value = convertSlice(value, t)
 	} else if sliceIsMutable {
 		value = copySlice(value)
 	}
-- 
2.43.0


From 68e2179e11f8234780b180af6017fffc9f4b7ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:33:59 +0000
Subject: [PATCH 10/11] fix: refuse unsupported metrics with ErrWrongType
 instead of panicking

---
 go/tricorder/metric.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/go/tricorder/metric.go b/go/tricorder/metric.go
index 86372db..6ba7f92 100644
--- a/go/tricorder/metric.go
+++ b/go/tricorder/metric.go
@@ -859,13 +859,15 @@ func newValue(spec interface{}, region *region, unit units.Unit) (
 			isValAPointer: isValAPointer}, nil
 	}
 	v := reflect.ValueOf(spec)
+	if !v.IsValid() {
+		return nil, ErrWrongType
+	}
 	t := v.Type()
 	if t.Kind() == reflect.Func {
-		funcArgCount := t.NumOut()
-
-		// Our functions have to return exactly one thing
-		if funcArgCount != 1 {
-			panic(panicBadFunctionReturnTypes)
+		// Our functions need no arguments and return exactly one thing
+		needsArgs := t.NumIn() > 1 || (t.NumIn() == 1 && !t.IsVariadic())
+		if v.IsNil() || needsArgs || t.NumOut() != 1 {
+			return nil, ErrWrongType
 		}
 		valType, isValAPointer, ok := getPrimitiveType(t.Out(0))
 		if !ok {
@@ -879,6 +881,9 @@ func newValue(spec interface{}, region *region, unit units.Unit) (
 			isfunc:        true,
 			isValAPointer: isValAPointer}, nil
 	}
+	if t.Kind() != reflect.Ptr || v.IsNil() {
+		return nil, ErrWrongType
+	}
 	v = v.Elem()
 	valType, isValAPointer, ok := getPrimitiveType(v.Type())
 	if !ok {
-- 
2.43.0


From d602c8b6ad0274f097d4aa19124df133994c6977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:27:21 +0000
Subject: [PATCH 11/11] fix: register flags whose Get returns nil as strings
 instead of panicking

---
 go/tricorder/metric.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/go/tricorder/metric.go b/go/tricorder/metric.go
index 6ba7f92..33605ab 100644
--- a/go/tricorder/metric.go
+++ b/go/tricorder/metric.go
@@ -840,8 +840,12 @@ func newValue(spec interface{}, region *region, unit units.Unit) (
 	flagValue, ok := spec.(flag.Value)
 	if ok {
 		flagGetter := toFlagGetter(flagValue)
-		t := reflect.ValueOf(flagGetter.Get()).Type()
-		valType, isValAPointer, ok := getPrimitiveType(t)
+		var valType types.Type
+		var isValAPointer, ok bool
+		// Get() may return nil
+		if current := reflect.ValueOf(flagGetter.Get()); current.IsValid() {
+			valType, isValAPointer, ok = getPrimitiveType(current.Type())
+		}
 		var valFunc reflect.Value
 		if !ok {
 			valType = types.String
-- 
2.43.0

