#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept as one place to edit the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe or []
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})
M = "go/tricorder/metric.go"; A = "go/tricorder/api.go"

p("C01", "Every value in a distribution is counted in exactly the bucket covering it",
  "After any sequence of Add, Update and Remove calls (removing or replacing only values that are present), each bucket's reported count equals the number of values currently in the distribution that lie in that bucket's range (lower bound inclusive, upper bound exclusive, first bucket open below, last bucket open above). The bucket counts always add up to the reported total count, which equals adds minus removes.",
  ["inputs", "histories"], "every ascending endpoint list, every sequence of operations and every non-NaN float64 value",
  "TestAPI and the *Distribution tests add a few hand-picked values to fixed bucketers; boundary values, ulp neighbours, infinities and update/remove histories are sampled once or not at all.",
  [M, A], [("findDistributionIndex", M), ("distribution.add/update/remove", M), ("distribution.Snapshot", M)],
  [("counts/count", "per-bucket and total population", M)], ["ReadMyMetrics -> *messages.Distribution.Ranges/Count"])
p("C02", "Distribution min, max, sum, average, count, generation and timestamp are exact",
  "While a distribution is non-empty its reported min and max are the smallest and largest value it has held (since it was last empty), sum is the sum of the values it holds, average is sum divided by count, and sum and count read through the API agree with what is reported. The generation number grows by exactly one with each Add, Update or Remove, whether or not the distribution is empty at the time it is reported, the reported cumulative/non-cumulative flag is always that of the distribution, and the reported timestamp is the time of its latest change (or its creation). UpdateMinMax never widens min and max, nor narrows them past a value held, and changes no count, sum or average.",
  ["inputs", "histories"], "every sequence of operations and values",
  "Tests check one fixed history per kind; emptying, refilling and mixed update/remove histories with extreme values are not sampled.",
  [M, A, "go/tricorder/messages/api.go"], [("distribution.add/update/remove", M), ("distribution.Snapshot", M)],
  [("total,min,max,count,generation", "running summary", M)], ["ReadMyMetrics", "NonCumulativeDistribution.Sum/Count"])
p("C03", "The reported median lies in the bucket holding the middle value",
  "For a non-empty distribution the approximate median lies (up to rounding) between the reported min and max, and within the range of the bucket(s) containing the middle-ranked value(s) when there are three or more values; with one or two values it is their mean. Computing it never panics or hangs, for any bucket populations.",
  ["inputs", "histories"], "every set of values and every bucket layout, cumulative or not",
  "The TestMedian* cases fix six data sets; odd/even ranks at bucket boundaries and clipped first/last buckets vary with every input.",
  [M], [("distribution.calculateMedian/indexToValue/interpolate", M)], None, ["ReadMyMetrics -> Median"])
p("C04", "Bucketers yield the documented contiguous ascending buckets",
  "For every valid argument, a bucketer's ranges are contiguous (each lower bound is the previous upper bound) and ascending, and they are the documented ones: exponential gives count buckets with bounds start*scale^i (up to rounding), linear gives count buckets with bounds start+i*increment (up to rounding), arbitrary gives exactly the given endpoints, geometric gives consecutive 1-2-5 x 10^k bounds whose first is the largest one not above lower and whose last is the first one not below upper. Arguments documented as invalid panic.",
  ["inputs"], "every count, start, scale, increment, lower and upper",
  "The four *Distribution tests use one argument tuple each.",
  [M, A], [("new*BucketerStream", M), ("findGeometricBaseAndOffset", M), ("newBucketerFromEndpoints", M)], None,
  ["ReadMyMetrics -> Distribution.Ranges"])
p("C05", "A distribution's unit is fixed once and governs how durations are recorded",
  "A distribution has no unit until it is registered, and a registration that fails gives it none. After a successful registration its unit is that of the registration and is final: registering it again under another unit fails with ErrWrongUnit and changes nothing, registering it under the same unit at a free path succeeds. A time.Duration is recorded as that duration in seconds or milliseconds according to that unit, float32 and float64 values are recorded unchanged; adding to a distribution without a unit, a duration to a non-time unit, or any other type panics and leaves the distribution unchanged and usable.",
  ["inputs", "histories"], "every unit sequence, value type and value",
  "Tests cover one wrong-unit case and one panic; conversion is checked for single durations.",
  [M, A], [("distribution.SetUnit", M), ("distribution.valueToFloat/goDurationToFloat", M), ("newValueForDist", M)],
  [("unit,unitSet", "assigned unit", M)], ["RegisterMetric result", "ReadMyMetrics"])
p("C06", "Distributions are safe and atomic under concurrent use",
  "With any number of goroutines registering, adding to, updating, removing from and reading the same distribution, no operation is lost and no data race occurs. Every report is of one moment: its bucket counts add up to its count, and its count, sum, min, max and generation are those after some prefix of the completed operations.",
  ["schedules"], "every interleaving of concurrent operations and reads",
  "The tests run distributions from a single goroutine.",
  [M], [("distribution.lock", M), ("Snapshot under RLock", M)], None, ["ReadMyMetrics during Add"])
p("C07", "A path names at most one thing and registration never displaces it",
  "A path is its sequence of non-blank components, however many slashes or blank components separate them. Registering a metric or directory where a metric is, a metric where a directory is, under a metric, or at the root, fails with ErrPathInUse and leaves every registered metric as it was; otherwise it succeeds and the metric is then found under its canonical absolute path with the given description and unit. RegisterDirectory and GetDirectory of an existing directory return the directory there, GetDirectory of a missing one fails with ErrNotFound and of a metric with ErrPathInUse.",
  ["inputs", "histories"], "every path string and every registration history",
  "TestAPI registers a fixed tree with well-formed paths.",
  [M, A], [("newPathSpec", M), ("registerMetric/registerDirectory/storeMetric/createDirIfNeeded", M), ("listEntry.pathFrom", M)],
  [("directory.contents", "name -> metric or directory", M)], ["RegisterMetric/RegisterDirectory/GetDirectory", "ReadMyMetrics"])
p("C08", "Listing a path yields exactly the metrics registered there, once each, in order",
  "Reading a path returns exactly the metrics registered at or below it: all of them, once each, depth first with the names inside every directory in ascending byte order, and nothing if nothing is there. A float metric whose value is NaN or infinite is left out of listings without affecting any other metric, also when its value changes from one read to the next. (JSON listings of lists or distributions that hold NaN or infinities are out of scope: JSON cannot represent them.)",
  ["inputs", "histories"], "every registry content, path and float value",
  "TestAPI lists one fixed tree; the names, nesting and non-finite values it uses are fixed.",
  [M], [("GetAllMetrics/GetAllMetricsByPath", M), ("sortListEntries", M), ("collect / IsInfNaN", M)], None,
  ["ReadMyMetrics", "MetricsServer.ListMetrics"])
p("C09", "Unregistering removes exactly the named subtree and nothing else",
  "Unregistering a path removes the metric or directory there with everything below it and no other metric; the path is then free for re-registration, and unregistering a missing path, the root or an empty path changes nothing. Unregistering a directory through a handle that is no longer the one registered at its path never removes what was registered there since, and metrics registered through an unregistered handle are never reported.",
  ["inputs", "histories"], "every history of registrations and removals, with stale handles",
  "Tests remove a handful of fixed paths in one order.",
  [M, A], [("unregisterPath/removeListEntry", M), ("unregisterDirectory/removeChildDirectory", M)], None, ["ReadMyMetrics", "GetDirectory"])
p("C10", "Concurrent registration, removal and listing keep the tree consistent",
  "When several goroutines register, unregister and list at once, exactly one of several registrations of the same path succeeds, a metric whose registration has returned is found by every later lookup, listings never fail or contain a metric twice, and there is no data race on the registry.",
  ["schedules"], "every interleaving of registry operations",
  "The tests touch the registry from one goroutine.",
  [M], [("directory.lock", M), ("storeMetric check-then-insert under lock", M)], None, ["RegisterMetric", "ReadMyMetrics"])
p("C11", "A request updates each group it reads exactly once, before reading it",
  "A request that reports variables or callbacks of a group calls that group's current update function exactly once, before reading any of them, and calls no update function of a group it does not report; every value of the group in the response is the one left by that update and carries the timestamp that update returned. When the request ends, also by a failing consumer or a panicking callback, the group is released, so the next request updates it again.",
  ["inputs", "histories"], "every assignment of metrics to groups and every sequence of requests, including failing ones",
  "doGlobalsTest checks three fixed groups and request shapes; error and panic endings are not followed by another request.",
  [M, "go/tricorder/json.go", "go/tricorder/rpc.go", "go/tricorder/html.go"],
  [("session.Visit/Close", M), ("region.handleLockUnlock", M), ("value.evaluate / updateJsonOrRpcMetric", M)],
  [("region.lockCount", "requests reading the group", M)], ["update function invocations", "TimeStamp and Value in responses"])
p("C12", "Overlapping requests see one consistent update of a group",
  "While any request is reading a group, the group's update function is not called and its variables are not changed by tricorder; a request that starts meanwhile reports the same values and timestamp. Whatever the interleaving of requests and of RegisterUpdateFunc, requests neither deadlock nor race, and the first request after all others have finished calls the update function.",
  ["schedules"], "every interleaving of concurrent requests on shared groups",
  "doGlobalsTest interleaves sessions by hand in one goroutine in one order.",
  [M], [("region event loop", M), ("RLock/RUnlock", M)], [("lockCount,updateTime", "shared group state", M)],
  ["values and timestamps of concurrent responses"])
p("C13", "Metrics share a group id exactly when they share a group",
  "In every response, variables and callbacks of one group carry the same group id and the same timestamp; metrics of different groups, different distributions and different lists carry different group ids, and the id of a metric never changes between requests.",
  ["inputs", "histories", "schedules"], "every creation order of groups, distributions and lists, also concurrent",
  "Tests zero out or compare a few ids.",
  [M], [("idGenerator / newIdSequence", M), ("RegionId/GroupId", M)], None, ["Metric.GroupId, Metric.TimeStamp"])
p("C14", "A metric reports the current value of its variable or callback, correctly typed",
  "For every supported type, reading a metric registered as a variable address, a callback or a pointer to a time gives the value current at the time of the read, unchanged, as the documented sized type, with the matching kind, bit size, unit and description (plain int and uint as 64-bit, a nil time pointer as the zero time, a variable of a type derived from a supported one as the supported type). Unsupported types are refused with ErrWrongType and no metric is registered; a function not returning exactly one value is a programming error and panics.",
  ["inputs", "programs"], "every supported type and every value of it, changed any number of times",
  "TestAPI reads one value per type.",
  [M, "go/tricorder/types/api.go"], [("newValue/getPrimitiveType", M), ("valueToInterface", M), ("updateJsonOrRpcMetric", M)], None,
  ["ReadMyMetrics -> Kind, Bits, Unit, Value"])
p("C15", "Converting a metric to JSON form and back loses nothing",
  "Converting any Go RPC metric to JSON form and back yields the same kind, sub-type, unit, bits, group id, path, description and value, times and durations exact to the nanosecond in seconds or milliseconds units, element by element for lists (the zero time alone becomes the epoch); timestamps survive likewise. JSON-form kinds are time/duration with decimal strings of nine fractional digits, nil lists become empty lists, and converting twice equals converting once.",
  ["inputs"], "every kind, unit, list length, time and duration",
  "messages tests convert one or two values per kind.",
  ["go/tricorder/messages/metric.go", "go/tricorder/messages/api.go", "go/tricorder/duration/duration.go"],
  [("asJson/asGoRPC", "go/tricorder/messages/metric.go"), ("timeAsString/stringAsTime", "go/tricorder/messages/metric.go")], None,
  ["Metric.ConvertToJson / ConvertToGoRPC", "AsJsonWithSubType"])
p("C16", "Malformed JSON metrics are rejected without panic and without partial change",
  "ConvertToGoRPC given a metric whose value, kind, sub-type or timestamp do not fit together (wrong Go type, unparsable number, unknown timestamp type) returns an error and leaves the metric exactly as it was; it never panics. Metrics of kinds that need no conversion pass through with their value unchanged.",
  ["inputs"], "every combination of kind, sub-type, value type, string content and timestamp",
  "No test feeds malformed metrics to the conversion.",
  ["go/tricorder/messages/metric.go"], [("asGoRPC error paths", "go/tricorder/messages/metric.go"), ("convertToGoRPC assign-after-validate", "go/tricorder/messages/metric.go")],
  None, ["ConvertToGoRPC result and metric fields"])
p("C17", "Durations and times convert to seconds/nanoseconds and back exactly",
  "For every time.Duration and every time, converting to the seconds-and-nanoseconds form and back gives the same duration or instant. The form is normalised: nanoseconds are below one second in size, both parts have the same sign, and a duration is reported negative exactly when it is below zero.",
  ["inputs"], "all 2^64 durations and all instants from year 1 to 9999 at nanosecond resolution",
  "duration tests check eight durations and eight instants.",
  ["go/tricorder/duration/duration.go", "go/tricorder/duration/api.go"], [("newDuration/asGoDuration", "go/tricorder/duration/duration.go"), ("sinceEpoch/asGoTime", "go/tricorder/duration/duration.go")],
  None, ["duration.New/AsGoDuration/SinceEpoch/AsGoTime/IsNegative"])
p("C18", "Duration text is exact and parses back to the same duration in every unit",
  "Printing a duration in seconds or milliseconds gives an optional minus sign, the whole number, a point and nine digits denoting exactly that duration, and parsing that text with the same unit gives the duration back. Parsing accepts only an optionally signed decimal number, gives its value truncated to nanoseconds, and otherwise returns an error; it never panics.",
  ["inputs"], "every duration (within int64 after unit scaling) and every input string",
  "duration tests print four and parse six strings.",
  ["go/tricorder/duration/duration.go", "go/tricorder/duration/api.go", "go/tricorder/units/api.go"],
  [("convert/mult/div", "go/tricorder/duration/duration.go"), ("toString/parse", "go/tricorder/duration/duration.go")], None,
  ["Duration.String/StringUsingUnits", "ParseWithUnit"])
p("C19", "Pretty-printed durations denote the duration they show",
  "The human-readable form of a non-negative duration denotes that duration truncated to the precision shown: nanoseconds, microseconds or milliseconds below one second, seconds with three decimals below an hour, and otherwise days, hours, minutes and seconds with hours below 24 and minutes and seconds below 60 whose total is the duration in whole seconds. Negative durations are shown on the metrics page as a plain signed decimal in the metric's unit (milliseconds, otherwise seconds) instead of failing.",
  ["inputs"], "every non-negative duration; every duration metric",
  "TestPrettyFormat checks 18 durations.",
  ["go/tricorder/duration/duration.go", M], [("prettyFormat", "go/tricorder/duration/duration.go"), ("valueToHtmlString", M)], None,
  ["Duration.PrettyFormat"])
p("C20", "Human-readable integers are within half a percent and never fail",
  "Every int and uint value under every unit has a rendering: compact forms show a number and a suffix (thousand ... M trillion, KiB ... EiB, KiB/s ... EiB/s) whose product is within 0.51% of the value, values below the radix are shown exactly, and unit-less integers are shown exactly with a comma before every third digit from the right.",
  ["inputs"], "all 2^64 int64 and uint64 values and all units",
  "TestCompactDecimal* check about 30 values.",
  [M], [("iCompactForm/uCompactForm", M), ("addSeparators", M), ("valueToHtmlString", M)], None, ["HTML metric rendering"])
p("C21", "Float conversion of metric values is faithful and reversible",
  "For every convertible type, converting a value to float64 and back gives the value whenever the float64 is exact (integers up to 2^53 in size, all float32/float64), durations up to 2^50 ns come back exactly and larger ones within rounding of the float64 for either sign, and times within 2^33 seconds of the epoch within a microsecond. Converting a float64 to an integer type rounds to the nearest integer, halves away from zero, and conversion is supported for exactly the types that report it.",
  ["inputs"], "every value of every convertible type and every float64 in range",
  "types tests convert two or three values per type; negative durations and large integers are not tried.",
  ["go/tricorder/types/api.go", "go/tricorder/types/types.go", "go/tricorder/duration/api.go"],
  [("Type.FromFloat/ToFloat/CanToFromFloat", "go/tricorder/types/api.go"), ("round", "go/tricorder/types/types.go"), ("FromFloat/ToFloat", "go/tricorder/duration/api.go")],
  None, ["types.Type.FromFloat/ToFloat", "duration.FromFloat/ToFloat"])
p("C22", "Type metadata is mutually consistent for every type name",
  "For every type name, known or not: the zero value and nil slice of a type are recognised as that type (as string for the JSON-only time and duration), types without one give an error (and a panic from the panicking variants) and never a wrong value, and the int/uint/float classification, bit size, sub-type use, equality support and float convertibility agree with the Go type of the zero value. The type of any Go value is the type whose values have that Go type (or the one it declares with a Type method), or unknown.",
  ["inputs"], "every type string and every Go value type",
  "TestZeroValue and TestFromGoValue walk a fixed list.",
  ["go/tricorder/types/api.go", "go/tricorder/messages/api.go"], [("SafeZeroValue/SafeNilSlice/FromGoValueWithSubType", "go/tricorder/types/api.go"), ("IsInt/IsUint/IsFloat/Bits", "go/tricorder/types/api.go")],
  None, ["types API", "messages.ZeroValue"])
p("C23", "A list reports exactly the last contents given to it, insulated from the caller",
  "A list metric reports, in order and as the documented element type (plain int and uint as 64-bit, derived element types as the type they derive from), the elements given at creation or by the latest Change, together with that moment's timestamp; writing later to a slice passed as mutable has no effect on what is reported, and neither a report nor a later Change modifies a slice the caller gave. Change with another element type, a non-slice, pointers or unsupported elements panics and leaves the contents as they were.",
  ["inputs", "histories"], "every element type, length, content and history of changes and later writes",
  "List tests use fixed slices of four or five elements.",
  [M, A], [("asSliceValue/copySlice/convertSlice", M), ("ChangeWithTimeStamp", M)], [("aSlice,subType,timeStamp", "published contents", M)],
  ["ReadMyMetrics -> Value, SubType, TimeStamp"])
p("C24", "List changes are atomic for concurrent readers",
  "With goroutines changing and reading a list concurrently there is no data race, and every report shows the complete contents and the timestamp of one and the same creation or Change call.",
  ["schedules"], "every interleaving of Change and reads",
  "List tests are single-goroutine.",
  [M], [("listType.lock", M), ("listType.get", M)], None, ["ReadMyMetrics during Change"])
p("C25", "All remote interfaces report the same metrics for the same path",
  "For any registry and path, the JSON array, the Go RPC list and the in-process read contain the same metrics in the same order, the JSON ones being the RPC ones in JSON form (values JSON can represent; a list of uint8 in Go's encoding of []byte); the single-metric JSON and RPC calls return that metric, or HTTP status 404 and ErrMetricNotFound exactly when the path is not a metric. The plain-text listing has one line per listed metric with its path and value (for names and texts without line breaks), and a missing path is answered with the not-found text. A JSON response is compressed only for clients that accept gzip and then decompresses completely to the same response.",
  ["inputs", "histories"], "every registry content, request path and query",
  "No existing test drives the HTTP or RPC handlers.",
  ["go/tricorder/json.go", "go/tricorder/rpc.go", "go/tricorder/html.go", "go/tricorder/http.go", M],
  [("jsonHandlerFunc", "go/tricorder/json.go"), ("rpcType.ListMetrics/GetMetric", "go/tricorder/rpc.go"), ("textEmitDirectoryOrMetric", "go/tricorder/html.go")],
  None, ["HTTP response body/status", "RPC reply"])
p("C26", "Health and readiness endpoints always show the latest state set",
  "Health is OK and readiness is 503 \"not ready\" until set; afterwards each endpoint answers 200 with OK if its latest setting was healthy/ready and 503 with exactly the status text last set otherwise. The two never influence each other, setting \"\" or \"OK\" as a failure status panics without changing anything, and concurrent setters and requests never race.",
  ["inputs", "histories", "schedules"], "every sequence and interleaving of setters and requests, every status string",
  "The package has no tests.",
  ["go/healthserver/api.go", "go/healthserver/impl.go"], [("setHealth/setReady under mutex", "go/healthserver/impl.go"), ("commonHandler", "go/healthserver/impl.go")],
  [("healthStatus,readyStatus", "latest state", "go/healthserver/impl.go")], ["/healthz and /readiness responses"])
p("C27", "Built-in process metrics report what the operating system reported",
  "Each built-in resource metric equals the figure the operating system reported in that request's update: user and system CPU time to the microsecond, memory sizes converted from KiB to bytes, and every counter (page faults, swaps, block I/O, IPC messages, signals, context switches) under its own path; total memory is the memory obtained minus the memory released. If the operating system call fails, the previous figures stay.",
  ["inputs", "fault_sequences"], "every resource usage structure the kernel can return, and failures of the call",
  "Tests never compare the built-in metrics with the system's figures.",
  ["go/tricorder/setup.go", "go/tricorder/wrapper/syscall_linux.go"], [("initDefaultMetrics", "go/tricorder/setup.go"), ("timeValToDuration", "go/tricorder/setup.go"), ("wrapper.Getrusage", "go/tricorder/wrapper/syscall_linux.go")],
  None, ["ReadMyMetrics(\"/proc\")"])
p("C28", "Registered flags report their live value, type and unit",
  "After RegisterFlags every application flag (of a name without slashes) is reported under /proc/flags by its name with its usage text, its current value (later changes included) in its natural kind, or as its text form if its type is not supported; its unit is the one set for it, else seconds for durations, else none.",
  ["inputs", "configurations"], "every flag type, value, name and unit setting",
  "TestAPI registers four fixed flags.",
  [M, A], [("registerFlags/flagUnit", M), ("newValue flag.Value branch", M), ("toFlagGetter", M)], None, ["ReadMyMetrics(\"/proc/flags\")"])
p("C29", "The HTML metrics page shows and escapes every metric",
  "The HTML page of any directory or metric shows each metric with its path, value, type, description and, unless it is None, unit, links every sub-directory, and contains no unescaped text taken from metric names, descriptions or string values.",
  ["inputs"], "every registry content and string",
  "No test renders the page.",
  ["go/tricorder/html.go"], [("htmlTemplate", "go/tricorder/html.go")], None, ["/metrics response"])
p("C30", "Metrics survive the Go RPC wire encoding unchanged",
  "A metric or metric list fetched over a real Go RPC connection equals the one the server read, for every kind of value including times, durations, lists and distributions (times as the same instant, empty and nil lists alike).",
  ["inputs"], "every metric value",
  "No test opens an RPC connection.",
  ["go/tricorder/messages/api.go", "go/tricorder/rpc.go"], [("gob.Register in init", "go/tricorder/messages/api.go")], None, ["rpc client reply"])
p("C31", "Every web response declares its kind and carries the protective headers",
  "Every page under /metrics, HTML or text, for any path (directory, metric or missing), and the probe at /has-tricorder-metrics are sent with the headers X-Frame-Options DENY, X-XSS-Protection 1 and a content security policy limited to their own site, also when the response breaks off. Text pages are sent as text/plain, successful JSON responses as application/json, and every response of the JSON interface with X-Tricorder-Media-Type tricorder.v1. The probe always answers true.",
  ["inputs", "fault_sequences"], "every path, format and registry content, and every point at which the connection can break",
  "No test looks at the headers of a response.",
  ["go/tricorder/html.go", "go/tricorder/json.go", "go/tricorder/http.go"], [("setSecurityHeaders", "go/tricorder/html.go"), ("jsonSetUpHeaders", "go/tricorder/json.go"), ("hasTricorderHandler", "go/tricorder/html.go")], None, ["GET /metrics/...", "GET /metricsapi/...", "GET /has-tricorder-metrics"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
open(out, "w").write("".join(json.dumps(x, ensure_ascii=False) + "\n" for x in P))
print(len(P), "properties")
