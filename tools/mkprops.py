#!/usr/bin/env python3
# Writes /verif/properties.jsonl (single source for the property texts).
import json, os
M = "go/tricorder/metric.go"; A = "go/tricorder/api.go"
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
        "mechanism": [{"name": n, "where": w} for n, w in mech],
        "observe_at": list(observe), "hook_needed": hook}})

prop("C01", "Registration never replaces, shadows or loses anything",
 "Registering a metric succeeds only when nothing is registered at its path and no proper prefix of the path is a metric; afterwards exactly that path resolves to that metric with the given unit and description. When the path is in use, leads through a metric, or is the root, registration fails with the path-in-use error and nothing is registered. Whether a metric or directory registration succeeds or fails, every metric and directory already registered stays registered and resolves as before; a directory registration returns the existing directory when there is one.",
 ["inputs", "histories"], "every tree reachable by registrations and unregistrations, every path string, every metric value",
 "TestAPI registers one fixed tree and a few collisions; it cannot cover every shape of existing tree, every path and every prefix that runs through a metric, nor that all other entries are untouched.",
 [M, A], [("directory.registerMetric / registerDirectory / createDirIfNeeded / storeMetric", M), ("newPathSpec drops blank components", M)],
 [("directory.contents", "child name -> entry, a metric or a directory", M)], ["RegisterMetric", "RegisterDirectory", "GetDirectory", "RPC GetMetric"])

prop("C02", "Unregistering removes exactly the named entry and its subtree",
 "Unregistering a path makes that path, and everything below it, unreachable and leaves every other metric and directory reachable as before; a path that does not exist, or the root, changes nothing. Unregistering a directory handle removes that directory only if it is still the one registered under its name, so a directory registered there later is never removed by a stale handle.",
 ["inputs", "histories"], "every tree, every path, every stale or live directory handle",
 "Tests unregister a handful of paths; stale handles, sibling names and missing intermediate directories are unbounded in number.",
 [M, A], [("directory.unregisterPath / removeListEntry", M), ("directory.unregisterDirectory / removeChildDirectory compares entry identity", M)],
 [("directory.contents", "child name -> entry", M)], ["UnregisterPath", "DirectorySpec.UnregisterDirectory"])

prop("C03", "A listing reports every metric under a path once, in order",
 "Listing at a path hands the collector every metric registered at or below that path exactly once and nothing else, depth first with siblings in ascending order of name; only float metrics whose current value is NaN or infinite are left out. The first error a collector returns stops the listing and is returned; a path that does not exist yields nothing.",
 ["inputs", "histories"], "every tree, every path, every collector behaviour",
 "Tests list a few fixed directories; completeness, uniqueness and order must hold for every tree and for Go's arbitrary map iteration order.",
 [M, "go/tricorder/rpc.go", "go/tricorder/json.go", "go/tricorder/html.go"],
 [("directory.GetAllMetricsByPath / GetAllMetrics / collect", M), ("directory.List sorts a snapshot of the contents by name", M)],
 [], ["ReadMyMetrics", "RPC ListMetrics", "/metricsapi/", "/metrics?format=text"])

prop("C04", "The absolute path of an entry is its address",
 "Every registered metric and directory reports as its absolute path '/' followed by the names on the way from the root to it joined by '/', and looking that path up yields that same metric or directory. When a path is looked up or registered, empty and all-whitespace components are ignored and every other component is used unchanged, in order.",
 ["inputs", "histories"], "every path string and every entry of every tree",
 "Tests compare a few literal paths; nesting depth, odd separators and blank components are unbounded.",
 [M], [("listEntry.pathFrom / absPath", M), ("newPathSpec / Dir / Base / String", M), ("listEntry.parent set on creation", M)],
 [("listEntry.parent", "entry of the enclosing directory, nil at the root", M)], ["Metric.Path", "DirectorySpec.AbsPath"])

prop("C05", "Every value is counted in the one bucket that contains it",
 "Adding a value to a distribution increases by one the count of exactly one bucket, the one whose range (lower bound inclusive, upper bound exclusive, lowest bucket unbounded below, highest unbounded above) contains it; updating moves one count from the old value's bucket to the new value's, removing takes one from the value's bucket. After every operation, including a refused one, the bucket counts add up to the reported total count.",
 ["inputs", "histories"], "every bucketer with ascending endpoints, every non-NaN value, every history of add, update and remove",
 "Tests add the integers 1..500 to a few bucketers; boundary values, all histories and refused operations are not sampled.",
 [M], [("distribution.add / update / remove", M), ("findDistributionIndex binary search", M), ("decrementCount", M)],
 [("distribution.counts, count", "per bucket and total counts", M)], ["Distribution.Ranges", "Distribution.Count"])

prop("C06", "Distribution statistics are exact for every history",
 "After any history of operations the reported count, sum, minimum, maximum and average are those of the operations applied in order (minimum and maximum are the extremes since the distribution was last empty; the average is the sum divided by the count), the generation is the number of changes ever made, the timestamp is that of the last change, and the cumulative flag is as created. Updating or removing is refused for a cumulative or an empty distribution, and a refused operation leaves count, sum, minimum, maximum and generation as they were.",
 ["inputs", "histories"], "every history of add, update, remove and read on cumulative and non-cumulative distributions",
 "Tests compare one 400 or 500 step history; emptied, never filled and refused histories are not covered.",
 [M, A], [("distribution.add / update / remove", M), ("distribution.Snapshot", M), ("NonCumulativeDistribution.Sum / Count", A)],
 [("distribution.total, min, max, count, generation, timeStamp", "running statistics", M)], ["Distribution fields in RPC and JSON", "NonCumulativeDistribution.Sum/Count"])

prop("C07", "The median estimate lies where the middle values lie",
 "The reported median of a distribution holding more than two values lies, up to floating point rounding, between the reported minimum and maximum and within the range of the bucket (or between the two buckets) holding the middle ranked value (or values); for one or two values it is their average. Computing it never fails or reads outside the buckets.",
 ["inputs", "histories"], "every distribution state reachable by adds, updates and removes",
 "Tests compute the median of six data sets; the bucket walk must stay in range and on the right bucket for every vector of counts.",
 [M], [("distribution.calculateMedian / indexToValue / interpolate", M)], [], ["Distribution.Median"])

prop("C08", "Bucketers form a gapless ascending partition with documented endpoints",
 "Every bucketer yields one more bucket than endpoints; the buckets are contiguous (each starts where the previous ends), only the first has no lower and only the last no upper bound. Linear and exponential bucketers have exactly the requested number of buckets with endpoints start, start+increment, ... or start, start*scale, ..., never descending; geometric endpoints are consecutive 1, 2, 5 multiples of powers of ten from the largest not above lower to the smallest not below upper, up to floating point rounding. Arguments outside the documented domain are refused.",
 ["inputs", "configurations"], "every count, start, increment, scale, bound and endpoint list",
 "Tests build four bucketers; counts and endpoints are unbounded.",
 [M, A], [("newBucketerFromEndpoints", M), ("newLinearBucketerStream / newExponentialBucketerStream / newGeometricBucketerStream / findGeometricBaseAndOffset", M)],
 [], ["Distribution.Ranges", "HTML distribution tables"])

prop("C09", "A distribution's unit is fixed once and governs conversion",
 "The first registration of a distribution fixes its unit; registering it again with the same unit succeeds, with another unit fails with the wrong-unit error and leaves the unit as it was. Values are refused until a unit is fixed; a float is recorded unchanged, a duration is recorded in the fixed unit when that is seconds or milliseconds and refused otherwise, and any other value type is refused.",
 ["inputs", "histories"], "every sequence of registrations, every unit, every value and value type",
 "Tests try one wrong unit and one missing unit; all unit pairs, value types and orders are not covered.",
 [M, A], [("distribution.SetUnit / newValueForDist", M), ("distribution.valueToFloat / goDurationToFloat", M)],
 [("distribution.unit, unitSet", "assigned unit", M)], ["RegisterMetric", "CumulativeDistribution.Add", "NonCumulativeDistribution.Add/Update/Remove"])

prop("C10", "One group update per request, before any read, never during reads",
 "Within one request the update function of a group is triggered at most once, before any variable or callback of that group is read, and every metric of the group is reported with the one timestamp that visit produced. A group's update function is never run while any request that has begun reading the group has not finished, and it is run for the first request to begin after all earlier ones have finished.",
 ["schedules", "histories", "inputs"], "every interleaving of requests at the group's event loop, every set of groups and metrics in a request",
 "doGlobalsTest drives one barrier schedule; all other interleavings of overlapping requests are untested.",
 [M], [("session.Visit / Close", M), ("region.handleLockUnlock / handleRequests / RLock / RUnlock", M), ("value.evaluate / TimeStamp", M)],
 [("region.lockCount", "number of requests reading the group", M), ("session.visitedRegions", "groups visited by the request and their timestamps", M)],
 ["update function calls", "Metric.TimeStamp", "Metric.GroupId"])

prop("C11", "Every request ends its group reads exactly once",
 "A request that begins reading groups ends its reading of each of them exactly once by the time it completes, whether it succeeds, finds nothing or stops on an error, so that the group's next request can update again; a session supplied by the caller is left open for the caller. No request ends the reading of a group it did not begin, and no request reads a variable of a group outside its own reading.",
 ["histories", "inputs", "fault_sequences"], "every request path (RPC, JSON, text, HTML), every collector error, every tree",
 "A leaked group hold only shows in later requests; tests do not check hold counts after failing collectors or on each entry point.",
 [M, "go/tricorder/rpc.go", "go/tricorder/json.go", "go/tricorder/html.go"],
 [("session created with deferred Close when the caller passes none", M), ("value.evaluate / updateJsonOrRpcMetric / GetAllMetrics / GetAllMetricsByPath", M), ("htmlEmitDirectoryOrMetric", "go/tricorder/html.go")],
 [("session.visitedRegions", "groups held by the request", M)], ["update function calls in later requests"])

prop("C12", "Shared state is only touched under its lock, and locks are released",
 "For every schedule of goroutines, the mutable state of distributions, lists, directories and the health status is read or written only while the lock guarding it is held, each public operation on one of them takes effect atomically, and no operation returns or panics with a lock still held or acquires a lock it already holds.",
 ["schedules", "inputs"], "every interleaving of operations, every panic raised inside one",
 "The suite is single threaded except for one test; a missing lock or a lock leaked on a panic path shows only under particular interleavings.",
 [M, "go/healthserver/impl.go"], [("distribution.lock, listType.lock, directory.lock with deferred unlock", M), ("mutex", "go/healthserver/impl.go")],
 [], ["-race reports", "blocked callers"])

prop("C13", "A metric is reported with the kind, size and Go type of its value",
 "Every variable, callback, distribution or list that can be registered is reported with the kind and bit size documented for its type, its unit, path and description as registered, and a value that is the current value as exactly the documented Go type for that kind (sized integers for int and uint; the zero time for a nil time pointer). Anything that is not of a supported type is refused with the wrong-type error and not registered.",
 ["inputs", "programs"], "every Go type a program can register and every value of it",
 "Tests register one variable of about a dozen types; named types, callbacks and every numeric width with every value are not covered.",
 [M, "go/tricorder/messages/api.go"], [("getPrimitiveType / newValue", M), ("valueToInterface / value.AsXXX", M), ("value.updateJsonOrRpcMetric", M)],
 [("value.valType, isValAPointer, isfunc", "how the value is read", M)], ["Metric.Kind, Bits, SubType, Value, Unit"])

prop("C14", "Lists are isolated, typed and replaced atomically",
 "A list always reports exactly the elements, element type and order last given to it together with the timestamp of that change; plain int and uint elements are reported as sized integers of equal value. If the slice was declared mutable, later writes to the caller's slice are never visible in the list. The element type never changes: a change to another element type, to a non-slice or to an unsupported element type is refused and leaves the list as it was.",
 ["inputs", "histories", "schedules"], "every slice, element type, mutability flag and history of changes",
 "Tests use short slices of a few types; aliasing for every type and flag is not sampled.",
 [M, A], [("asSliceValue / copySlice / convertFromIntOrUintSlice", M), ("listType.ChangeWithTimeStamp / get / AsSlice", M)],
 [("listType.aSlice, timeStamp, subType", "current value", M)], ["Metric.Value, SubType, TimeStamp of list metrics"])

prop("C15", "Durations and times convert exactly and back",
 "Splitting a Go duration or time into seconds and nanoseconds is exact: the parts recombine to the same duration or instant, nanoseconds stay within one second in magnitude and never differ in sign from seconds. Converting between seconds and milliseconds is exact up to truncation toward zero of less than one nanosecond, and converting to milliseconds and back is the identity wherever the result is representable.",
 ["inputs"], "every int64 duration, every representable time, every unit pair",
 "Tests try about twenty durations and times; the identities are over 2^64 inputs.",
 ["go/tricorder/duration/duration.go", "go/tricorder/duration/api.go", "go/tricorder/units/api.go"],
 [("newDuration / sinceEpoch / asGoDuration / asGoTime", "go/tricorder/duration/duration.go"), ("mult / div / convert", "go/tricorder/duration/duration.go"), ("FromSecondsRational", "go/tricorder/units/api.go")],
 [], ["duration package API"])

prop("C16", "The decimal text of a duration or time is exact and parses back",
 "The text form of a duration or time is its value in the requested unit as an optional minus sign, whole part, point and nine fractional digits, and parsing that text in the same unit gives back the value; for any well-formed decimal, parsing yields its value truncated to nanoseconds with its sign. The human readable form of a non-negative duration states components whose total is the duration truncated to the shown precision.",
 ["inputs"], "every duration and time, both time units, every well-formed decimal text",
 "Tests parse and print about thirty strings.",
 ["go/tricorder/duration/duration.go", "go/tricorder/duration/api.go"],
 [("toString / StringUsingUnits", "go/tricorder/duration/duration.go"), ("parse / ParseWithUnit", "go/tricorder/duration/duration.go"), ("prettyFormat", "go/tricorder/duration/duration.go")],
 [], ["JSON time and duration values", "text and HTML output"])

prop("C17", "JSON and Go RPC forms of a metric convert into each other losslessly",
 "Converting a Go RPC metric to JSON form and back gives the same kind, sub-type, value and timestamp (zero times aside), for single values and for lists element by element, and leaves path, description, unit, bits and group id alone; converting to a form a metric already has changes nothing. A conversion that fails reports an error and leaves the metric entirely unchanged.",
 ["inputs"], "every kind, sub-type, unit, value, list length and timestamp form, matching or not",
 "Tests convert sixteen fixed metrics; list lengths, mismatched kinds and partial failures inside a list are not covered.",
 ["go/tricorder/messages/metric.go", "go/tricorder/messages/api.go"],
 [("asJson / asGoRPC", "go/tricorder/messages/metric.go"), ("convertToJson / convertToGoRPC", "go/tricorder/messages/metric.go")],
 [], ["Metric.ConvertToJson", "Metric.ConvertToGoRPC", "AsJsonWithSubType"])

prop("C18", "The type tables agree with each other and numeric conversion is faithful",
 "For every type the zero value, nil slice, bit size, category predicates and type detection agree: a type's zero value is detected as that type, its nil slice as a list of that type, bit sizes match the Go type, and types without a zero value are reported as errors. Conversion to float is the value itself for numeric types and seconds for times and durations; conversion from float rounds to the nearest value, so converting a number that a float represents exactly (a duration of at most 2^53 nanoseconds) to float and back is the identity.",
 ["inputs"], "every type and every value of it",
 "Tests check a few rows and a few dozen values.",
 ["go/tricorder/types/api.go", "go/tricorder/types/types.go", "go/tricorder/duration/api.go"],
 [("FromGoValueWithSubType / SafeZeroValue / SafeNilSlice / Bits", "go/tricorder/types/api.go"), ("ToFloat / FromFloat / round", "go/tricorder/types/api.go"), ("duration.FromFloat / ToFloat", "go/tricorder/duration/api.go")],
 [], ["types package API"])

prop("C19", "Rendered numbers keep their value",
 "Text output shows every bool, integer, float and string exactly. In HTML, an integer with no unit is its decimal digits with a comma between groups of three, and an integer with a unit is shown in full when below the radix and otherwise scaled by the power of the radix (1000, or 1024 for bytes) that its suffix names, with at least three significant digits; rendering never fails for any integer.",
 ["inputs"], "every value of every numeric type and every unit",
 "Tests render about twenty numbers; suffix selection and separators must be right for all 2^64 values.",
 [M], [("valueToTextString / valueToHtmlString", M), ("iCompactForm / uCompactForm", M), ("addSeparators", M)],
 [("suffixes, byteSuffixes, bytePerSecondSuffixes", "names of the powers", M)], ["/metrics", "/metrics?format=text"])

prop("C20", "Health endpoints answer with the last status set",
 "The health endpoint answers 200 OK until a program declares itself not healthy and the readiness endpoint answers 503 not ready until it declares itself ready; afterwards each answers 200 with body OK or 503 with the given status according to the last call made for that endpoint, and calls for one endpoint never affect the other. An empty or OK status is refused and changes nothing.",
 ["histories", "schedules", "inputs"], "every sequence of calls, every status string, concurrent requests",
 "The package has no tests at all.",
 ["go/healthserver/api.go", "go/healthserver/impl.go"],
 [("setHealth / setReady / SetNotHealthy / SetNotReady", "go/healthserver"), ("healthzHandler / readinessHandler / commonHandler", "go/healthserver/impl.go")],
 [("healthStatus, readyStatus", "empty means OK", "go/healthserver/impl.go")], ["/healthz", "/readiness"])

prop("C21", "RPC and REST answer from the registry, and say when there is nothing",
 "A single-metric request, by RPC or REST, returns exactly the metric registered at that path and otherwise the not-found error (404 for REST); a path that names a directory is not found. A list request returns exactly the metrics under the path as the listing produces them, an empty list when there are none, in RPC form for RPC and in JSON form for REST; REST replies carry the JSON content type and are gzip-encoded exactly when the Accept-Encoding of the request names gzip.",
 ["inputs", "histories"], "every path and tree, every request form",
 "No test drives the handlers.",
 ["go/tricorder/rpc.go", "go/tricorder/json.go", "go/tricorder/http.go"],
 [("rpcType.GetMetric / ListMetrics", "go/tricorder/rpc.go"), ("jsonHandlerFunc", "go/tricorder/json.go"), ("gzipHandler.ServeHTTP", "go/tricorder/http.go")],
 [], ["MetricsServer RPC", "/metricsapi"])

prop("C22", "Process metrics report what the operating system reports",
 "The user and system CPU times are exactly the seconds and microseconds the system accounts to the process; every other resource usage figure is the system's figure of the same name, with memory sizes converted to bytes. A failed query changes nothing.",
 ["inputs"], "every resource usage record the system can return",
 "No test covers the conversion, and real usage is not controllable from a test.",
 ["go/tricorder/setup.go", "go/tricorder/wrapper/syscall_linux.go"],
 [("timeValToDuration", "go/tricorder/setup.go"), ("Getrusage", "go/tricorder/wrapper/syscall_linux.go")],
 [], ["/proc/cpu/*, /proc/memory/*, /proc/io/*, /proc/ipc/*, /proc/scheduler/*"])

prop("C23", "HTML pages never let metric text become markup",
 "Whatever names, descriptions, units and string values are registered, the HTML page shows them as text: none of them can introduce an element, attribute or script into the page.",
 ["inputs"], "every registered string",
 "No test renders a page with hostile text.",
 ["go/tricorder/html.go"], [("html/template contextual escaping", "go/tricorder/html.go")], [], ["/metrics"])

prop("C24", "Every request completes",
 "Every request for metrics completes provided the registered callbacks and update functions do, whatever other requests, registrations and group changes run at the same time.",
 ["schedules"], "every fair schedule",
 "Tests run one schedule.",
 [M], [("region.handleRequests event loop with unbuffered channels", M)], [], ["request latency"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
