#!/usr/bin/env python3
"""Writes MANIFEST.json: the claimed properties and why the others are not."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLAIMED = {
 "C12": "every function that touches the state of a distribution, list, directory or health status, and every exported function and request entry above them, under lock contracts: guarded fields only under their lock (writes under the write lock), no lock taken while held, none held at any exit, panics included, one critical section per operation; a coverage check makes sure no function touching guarded state is left out. Sequential reasoning per goroutine; assumes library functions and callbacks neither hold nor release the repository's locks and sync's locks are correct.",
 "C13": "getPrimitiveType, newValue, registerMetric, evaluate, valueToInterface, AsInterface, InitRpcMetric and UpdateRpcMetric under contract over the reflect contracts of C14: every Go type a program can declare, variables, callbacks, flags, distributions and lists; kind, bits, element kind, unit, description and the current value as the documented Go type, and refusal with ErrWrongType, exactly, otherwise; assumes the contracts of the reflect functions used, that callbacks return normally and that a flag's Get keeps one type.",
 "C14": "NewList, List.Change, AsSlice, asSliceValue, getPrimitiveType, valueToInterface, NilSlice and the reported value under contract over a ghost model of what reflect slices hold; every element type a Go program can declare, every length, both mutability flags, every refused change; assumes the contracts of the reflect functions used.",
 "C01": "every public registration function, newPathSpec and the directory operations under them, with a well-formedness invariant of the whole tree and path resolution as a recursive function over it (induction lemmas); all paths, all trees; assumes strings.Split, strings.TrimSpace, the reflect calls of newValue and the sync locks.",
 "C02": "every public unregistration function and the directory operations under them over the same invariant; reachability after removal by induction lemmas over path resolution.",
 "C03": "GetAllMetrics, GetAllMetricsByPath, List, the per-metric collection and readMyMetrics under contract; the traversal is a least-fixpoint relation over the tree (who is listed, once, in which order, until the first error), the collector an arbitrary implementation; assumes sort.Sort and the reflect value read.",
 "C04": "newPathSpec, pathFrom, absPath, AbsPath, look-ups and registrations under contract; the joined address and its splitting by induction lemmas; assumes strings.Split, strings.Join, strings.TrimSpace.",
 "C05": "the distribution operations (Add, Update, Remove with their timestamped forms, constructors, Snapshot, reporting) under contract with a representation invariant; all float inputs but NaN (floats as an abstract order), all histories; assumes sort.Search, time.Now and the sync locks.",
 "C06": "as C05, with count, sum, min, max, generation, timestamp and average of every operation given as functions of the state before it; float arithmetic is uninterpreted (the same operations in the same order), fewer than 2^63 operations.",
 "C07": "Snapshot, indexToValue, calculateMedian and interpolate under contract with machine floats treated as reals; the bucket of the middle rank is given by a recursive sum over the bucket counts with induction lemmas.",
 "C08": "all four bucketer constructors under contract; linear and exponential endpoints over IEEE doubles (monotonicity lemmas proved in floating point), geometric ones with machine floats treated as reals.",
 "C09": "SetUnit, valueToFloat (inlined), the public operations and the registration of distributions under contract.",
 "C10": "the group's server goroutine (handleRequests as a loop invariant over all request histories: reader count, number of updates and every reply as recursive functions of the requests received), session.Visit, value reading and every request entry point (RPC, REST, text, HTML, ReadMyMetrics) under contract over a ghost model of channels; assumes that what a channel receives is what was sent, that html/template calls only the view's methods, and that update functions and callbacks do not call back into the session.",
 "C11": "session.Visit and Close, every value reader and every request entry point under contract: what has been sent to each group's server less what the session has open is unchanged, on normal and panicking exits alike; same channel model and assumptions as C10.",
 "C15": "duration.New, SinceEpoch, AsGoDuration, AsGoTime, IsNegative, convert and units.FromSecondsRational under contract, all inputs, 64-bit wrap-around modelled exactly; assumes the contracts of time.Time (Unix, Nanosecond, UTC).",
 "C16": "String, StringUsingUnits, ParseWithUnit and PrettyFormat under contract over an axiomatic theory of decimal text (digits, their value, padding, concatenation); all durations and texts; assumes strconv.ParseInt/ParseUint, fmt's %d and %0Nd, strings.HasPrefix/SplitN/Repeat.",
 "C17": "ConvertToJson, ConvertToGoRPC and AsJsonWithSubType under contract over the duration contracts (also proved), list conversions by loop invariants for every length, the round trip as lemmas over the contracts; times within +-2^63 milliseconds; that a nil list of another kind becomes an empty list is only tested.",
 "C18": "every function of package types and the float conversions of package duration under contract; floats as reals with an explicit rounding function after each operation (no overflow, no NaN); rounding and round trips for every value.",
 "C19": "valueToTextString, valueToHtmlString (compact forms inlined), addSeparators, AsTextString, AsHtmlString, TextStrings and HtmlStrings under contract: the exact characters for every integer of every width, sign and unit, no panic on any of them, suffix tables read from their initialisers; floats treated as reals (the scaled number before rounding), the printing of a float (strconv, fmt's %.Nf) as an uninterpreted function; assumes the contracts of bytes.Buffer, bytes.Runes, bytes.IndexFunc on ASCII, the reflect readers and that strconv writes decimal digits; the reading of the value is C13's contract, times and durations C16's.",
 "C20": "Handlers, setters and package initialisation under contract over a ghost model of the response writer; assumes the contracts of http.Error, ResponseWriter.Write and http.HandleFunc.",
 "C21": "rpcType.ListMetrics and GetMetric, the REST handler and the gzip handler under contract over the listing contracts of C03 (also proved here), a ghost model of the response writer and of the encoder; trusted: that a metric's absolute path is a function of the metric (C04 proves which), the JSON form of a value (C17), Snapshot and AsSlice; assumes net/http, encoding/json, compress/gzip and strings.Contains.",
 "C22": "wrapper.Getrusage and initDefaultMetrics (with its update closure) under contract over a ghost model of the system's figures; assumes syscall.Getrusage and, for this property, the registration API.",
}
NA = {
 "C23": "escaping is html/template's contextual analysis of the page template, a library interpreter over template text; no contract on a function of this repository can express or decide it",
 "C24": "liveness under a scheduler: contracts with a deductive verifier decide partial correctness, not that blocked channel operations are eventually served",
}
PENDING = "not claimed yet: the contracts for it are not complete"
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "bash tools/setup.sh",
     "checks": [{"property": p, "quick_cmd": "./run %s quick" % p, "thorough_cmd": "./run %s thorough" % p, "evidence_file": "evidence/%s.json" % p,
                 "technique": "contract-based deductive verification of the real code (govc: Go SSA to SMT, z3/cvc5), failing inputs replayed on the real code",
                 "level": "proof", "level_note": CLAIMED[p]} for p in props if p in CLAIMED],
     "not_applicable": [{"property": p, "reason": NA.get(p, PENDING)} for p in props if p not in CLAIMED],
     "notes": "No hooks in /repo; two kinds of commits there: fix: commits only."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
