#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (edit the table here, then run)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": x} for x in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

prop("C01", "BSON encoding follows the specification and decoding inverts it",
 "Every document built through the public constructors encodes to exactly the bytes the BSON specification prescribes, with a length prefix equal to the size the library reports, and every encoding entry point agrees. Decoding those bytes yields the same keys in the same order with the same types and values, at every nesting level, and encoding again reproduces them byte for byte.",
 ["inputs"], "every document shape over all 21 element types, boundary values, and nesting of documents, arrays and code-with-scope up to the bound",
 "a round trip of hand-picked documents cannot cover the product of type, value, position and nesting depth, nor catch a codec whose encoder and decoder share the same mistake",
 ["element.go", "value.go", "document.go", "array.go", "elements/elements.go", "unmarshal.go", "iterator.go"],
 [("element and document encoder", "element.go:writeElement, document.go:writeByteSlice, elements/elements.go"), ("decoder", "unmarshal.go, iterator.go, reader.go")])

prop("C02", "Typed constructors and accessors preserve every value",
 "A value stored through any typed or generic constructor is returned unchanged by the accessor for its type, directly and after an encode/decode cycle, and its reported type is the one that constructor documents. A checked accessor for a different type reports failure rather than returning a value. Doubles, strings, booleans, dates, integers, timestamps, nulls, documents and arrays converted to plain Go values and back lose nothing, and a generic constructor given a value BSON cannot hold, at any depth of the maps and slices it is given, yields null or, where it can report one, an error; every Go value that stands for a document is converted to the same document by each constructor that takes it, and reading a document into a map or an unmarshaler's target hands over exactly its elements.",
 ["inputs"], "every constructor x boundary value x accessor pair",
 "tests check a couple of friendly values per type; truncation, sign and byte-order mistakes show only at boundaries",
 ["constructor.go", "x_constructor.go", "value.go", "x_value.go"],
 [("constructors", "constructor.go, x_constructor.go"), ("accessors", "value.go, x_value.go")])

prop("C03", "Documents behave as ordered maps under any operation sequence",
 "After any sequence of appends, sets, deletes, extensions, resets, decodes and in-place value changes, a document's length, order, positional access, key lookup, nested search, iteration, sorting and map view all describe the same element list that a simple ordered list would hold. Set replaces the first element with the same key or appends, and delete removes only the first element with that key and returns it. A map of elements whose keys do not match its elements is refused.",
 ["histories"], "all operation sequences up to the depth bound over a small key alphabet with duplicate keys, interleaved with every observation",
 "cached views and in-place edits go wrong only after particular orderings of mutation and observation that unit tests do not enumerate",
 ["document.go", "x_document.go", "unmarshal.go"],
 [("ordered element list", "document.go:Append/Set/Delete/..."), ("cached map view", "x_document.go:Map"), ("nested search", "document.go:Search")],
 ["element slice", "cached map"])

prop("C04", "Arrays behave as ordered lists under any operation sequence",
 "After any sequence of appends, sets, deletes, extensions and resets an array's length, indexed lookup, iteration and Go-value export match a simple list. Its encoding always numbers the elements consecutively from zero in decimal, whatever the elements' earlier keys were, and an out-of-range index is reported, not served.",
 ["histories", "inputs"], "all operation sequences up to the depth bound, and every length up to past the two-digit and three-digit index boundary",
 "index keys are generated at encode time and depend on length and history; tests cover only a few short arrays",
 ["array.go", "x_array.go", "x_document.go"],
 [("array storage and index keys", "array.go")])

prop("C05", "Malformed BSON is rejected and never crashes the caller",
 "For any byte string, decoding and validation return a result or an error and never panic, read outside the input, or allocate out of proportion to it. The non-container values of whatever was decoded can be read, and whatever validation accepts can be fully traversed and every value read, agreeing with the BSON specification; every well-formed document is accepted.",
 ["inputs"], "every truncation of every seed document, every single-byte replacement, every structural length field set to every boundary value, pairs of length edits, and all short byte strings over a structural alphabet",
 "tests list a few hand-written bad inputs; the space of wrong lengths, missing terminators and bad tags is the product of field and value",
 ["reader.go", "value.go", "unmarshal.go", "iterator.go", "document.go"],
 [("document validation", "reader.go:Validate"), ("per-type value validation", "value.go:validate"), ("lazy decoding of nested values", "iterator.go")])

prop("C06", "Stream I/O is exact under every chunking and fault",
 "Reading one document from a stream gives the same result however the stream splits its reads, consumes exactly that document's bytes, and so reads a concatenation of documents one by one. A stream that ends or fails inside a document produces an error (distinct from a clean end once part of the body was read), and writing to a stream reports short or failed writes with an accurate count.",
 ["fault_sequences", "inputs"], "every split of the stream into reads, every truncation point, every fault position and reader flavour (zero-byte reads, data with EOF) for every seed document",
 "tests use in-memory readers that return everything at once and never fail part-way",
 ["document.go", "reader.go", "unmarshal.go"],
 [("stream decode", "unmarshal.go:ReadFrom, reader.go:NewFromIOReader"), ("stream encode", "document.go:WriteTo, element.go:WriteTo")])

prop("C07", "Documents render to valid JSON and survive the JSON round trip",
 "Every document with valid UTF-8 text and finite numbers renders to syntactically valid JSON whose keys, order, strings, numbers, booleans and nesting equal the document's, and whose extended forms hold exactly the parts of the values they stand for. Reading that JSON back yields a document with the same content (numbers by value), including the extended forms used for object ids, dates, timestamps, binary data, regular expressions, code and decimals, unless a key is itself one of the extended-JSON keywords.",
 ["inputs"], "every document shape and boundary value up to the nesting bound, including keys and strings that need escaping",
 "escaping, precision and extended-type mistakes are value dependent; tests use plain ASCII keys and small integers",
 ["x_json_marshal.go", "x_json_unmarshal.go", "jsonx/write.go", "jsonx/marhsal.go", "jsonx/unmarshal.go"],
 [("BSON to JSON", "x_json_marshal.go"), ("JSON to BSON", "x_json_unmarshal.go")])

prop("C08", "JSON input is parsed faithfully and malformed input never crashes",
 "Parsing any syntactically valid JSON object or array yields the same tree of keys, order, strings, numbers, booleans and nulls that the text denotes, in both the BSON and the JSON document models, and writing it out again denotes the same tree, however its source delivers the text and whatever happens to the text later. A tree built with the constructors is written as text that denotes it, or refused if JSON has none, and converts to the BSON document with the same members and values. Any other text is rejected with an error, never a panic.",
 ["inputs"], "all token strings over a JSON alphabet up to the length bound, and every truncation and single-character edit of richer seeds",
 "the parser is a hand-written scanner; tests cover a few well-formed documents",
 ["jsonx/unmarshal.go", "jsonx/internal/gjson.go", "jsonx/marhsal.go", "jsonx/write.go", "x_json_unmarshal.go"],
 [("JSON scanner", "jsonx/internal/gjson.go"), ("JSON document model", "jsonx/unmarshal.go, jsonx/marhsal.go")])

prop("C09", "Decimal and object id text forms round-trip exactly",
 "Every 128-bit decimal formats to text that parses back to the same number, in normal form identical text, with special values preserved and out-of-range text rejected. Every object id formats to 24 hex digits that parse back to it, JSON forms agree, and malformed text is rejected.",
 ["inputs"], "all exponents at and around every boundary x boundary coefficients x sign; all short decimal strings over the alphabet; all single-character edits of an id",
 "exponent/coefficient normalisation has edge cases at both ends of a range of 12288 exponents",
 ["types/decimal.go", "types/objectid.go"],
 [("decimal formatting and parsing", "types/decimal.go"), ("object id codec", "types/objectid.go")])

prop("C10", "Reading never changes data and results do not alias inputs",
 "Observing a document by lookup, iteration, typed access, encoding, validation, JSON rendering, comparison or copying never changes what it later encodes to, and never writes to the byte slice it was decoded from. Changing a copied document's element list, or bytes handed out by encoding, never changes the original, and setting an element's value affects only that element.",
 ["histories"], "all sequences of observations, copies and mutations up to the depth bound over documents holding every type, decoded and constructed",
 "aliasing shows only when a particular observation precedes a particular mutation; unit tests check single calls",
 ["document.go", "element.go", "value.go", "reader.go"],
 [("shared backing bytes", "value.go, element.go"), ("shallow copies", "x_document.go, element.go:Copy")])

prop("C11", "Equality is an equivalence that agrees with content",
 "Comparing two values or elements reports equal exactly when their type, key and encoded content are equal, regardless of whether either was constructed or decoded. Hence it is reflexive, symmetric and transitive.",
 ["inputs"], "all ordered pairs (and triples) drawn from a pool holding every type, boundary values, near misses, constructed and decoded forms",
 "pairwise comparison over a pool is quadratic; tests compare a few pairs of one representation",
 ["element.go", "value.go"], [("comparison", "element.go:Equal, value.go:Equal")])

prop("C12", "Generated object ids are unique under concurrency",
 "Object ids generated by any number of concurrent callers in one process are pairwise distinct, carry the generation time, and are free of data races. Ids generated by one caller within the same second are strictly increasing until the counter wraps.",
 ["schedules"], "all interleavings of the generator's atomic steps for the bounded number of callers",
 "a lost counter update needs a particular interleaving",
 ["types/objectid.go"], [("id counter", "types/objectid.go:New")])

prop("M01", "Wire messages survive serialization",
 "Every wire-protocol message of every kind, with any header ids, flags, namespaces, counts, cursors and documents, serializes to a frame whose declared size is its actual length and which follows the published wire layout. Reading that frame back gives a message of the same kind (a query on a command namespace gives the command it carries) with the same fields and documents, which serializes to the same bytes, also after other messages were written and read.",
 ["inputs"], "every message kind x flag bits x boundary integers x namespaces x document lists (OP_MSG: all section combinations)",
 "tests cover one or two instances of each kind, none with several sections or boundary flags",
 ["x/mrpc/mongowire"], [("message codecs", "x/mrpc/mongowire/*.go:Serialize and parse functions"), ("header", "x/mrpc/mongowire/header.go")])

prop("M02", "Message framing is exact under every network segmentation",
 "A stream of messages is read back as exactly those messages, each consuming exactly its own bytes, however the transport splits or coalesces the bytes. If the stream ends or fails inside a message the reader reports an error instead of delivering it, and cancellation stops a read; sending writes the whole frame or reports the failure.",
 ["fault_sequences", "inputs"], "every segmentation of two back-to-back messages, every truncation and fault point, every writer short-write/fault point",
 "loopback tests deliver whole messages in one read",
 ["x/mrpc/mongowire/sock.go"], [("frame reader and writer", "x/mrpc/mongowire: ReadMessage, SendMessage")])

prop("M03", "Hostile frames produce errors, never crashes",
 "For any byte string presented as a message, the reader and parsers return a message or an error without panicking, hanging or allocating beyond the frame limit; a frame that ends inside one of its parts is refused. Whatever message is returned can be inspected, scoped and serialized without panicking.",
 ["inputs"], "every truncation, every single-byte edit, every length/count field at every boundary value, for a seed frame of every kind",
 "tests never feed damaged frames",
 ["x/mrpc/mongowire", "x/mrpc/service.go"], [("body parsers", "x/mrpc/mongowire: parse functions")])

prop("M04", "Requests reach exactly the handler registered for them",
 "A request is dispatched to the handler registered for its operation type, namespace and command (falling back to the documented default context only), a second registration for the same scope is refused, and an unregistered operation reaches no handler. This holds under concurrent registration and lookup, without data races.",
 ["histories", "schedules"], "all sequences of registrations and lookups over a small scope universe; all interleavings of bounded concurrent registrations and lookups",
 "tests register a handful of distinct operations from one goroutine",
 ["x/mrpc/registry.go", "x/mrpc/model", "x/mrpc/service.go"], [("operation registry", "x/mrpc/registry.go")],
 ["registered operations map"])

prop("M05", "Every request on a connection is served and the service stops cleanly",
 "A client connected to a running service gets, for each well-formed request while it keeps the connection open, the reply its handler writes, for every split of the request stream; a malformed or unknown request, a client that disconnects, or a panicking handler affects that connection at most; malformed and unknown requests, panics and failures to accept are reported to the error handlers. The built-in shell commands answer in the protocol of the request, and cancelling the service's context ends it and closes its connections.",
 ["fault_sequences", "schedules"], "all bounded conversations (request kinds x damage x segmentation x disconnect point) over the service's connection handling",
 "tests start a server and send one message",
 ["x/mrpc/service.go", "x/mrpc/shell"], [("connection loop", "x/mrpc/service.go"), ("shell handlers", "x/mrpc/shell/service.go")])

prop("F01", "Metrics samples survive FTDC encoding exactly",
 "Every sequence of samples with one schema that a collector accepts, whatever the values, deltas, runs of unchanged values and nesting, is read back with the same number of samples, in order, with the same metric names and the same values. This includes integer extremes, booleans, dates, timestamps, doubles and nested documents and arrays.",
 ["inputs"], "all value sequences over a boundary alphabet up to the sample bound for every metric type and schema shape, and all zero-run patterns",
 "delta, run-length and varint encodings fail for particular value sequences; tests use smooth random walks and compare counts",
 ["x/ftdc/collector_better.go", "x/ftdc/util.go", "x/ftdc/read.go", "x/ftdc/bson_extract.go", "x/ftdc/bson_restore.go"],
 [("delta/zero-run encoder", "x/ftdc/collector_better.go"), ("chunk decoder", "x/ftdc/read.go"), ("metric extraction and restore", "x/ftdc/bson_*.go")])

prop("F02", "No collector loses, duplicates or reorders samples",
 "For every collector kind (fixed, batch, dynamic, streaming, streaming dynamic, sampling with no interval, compressed or not) and every history of adds, metadata changes, resolves, flushes and resets, and of schema changes for the dynamic kinds, what was written out and what Resolve returns decode to exactly the accepted samples not reset away, in order, with their own values, even if the caller reuses or modifies its documents. Samples that fit are accepted in every form documented to stand for a document (documents, bytes, marshalers, maps of numbers, types of the registered marshaler); a collector reports an error for a sample it does not record, a refused write loses nothing, and the reported sample count matches what it holds.",
 ["histories"], "all operation sequences up to the depth bound for each collector kind and batch size",
 "chunk boundaries, schema changes and flushes interact; tests use long homogeneous inputs and count samples",
 ["x/ftdc/collector_batch.go", "x/ftdc/collector_dynamic.go", "x/ftdc/collector_streaming.go", "x/ftdc/collector_uncompressed.go", "x/ftdc/collector_sample.go", "x/ftdc/writer.go"],
 [("batch rotation", "x/ftdc/collector_batch.go"), ("schema change", "x/ftdc/collector_dynamic.go"), ("streaming flush", "x/ftdc/collector_streaming.go")],
 ["collector buffers"])

prop("F03", "All views of the same FTDC data agree",
 "The flattened, structured, matrix, series and chunk views of the same FTDC data present the same samples: each metric's values, in order, are identical in every view, and metadata is attached to the data it was stored with. What a view handed out stays as it was while the iteration goes on.",
 ["inputs"], "all encoded histories from the F01/F02 families read through every view",
 "each view has its own restore code; tests compare one view with itself",
 ["x/ftdc/iterator.go", "x/ftdc/iterator_chunk.go", "x/ftdc/iterator_sample.go", "x/ftdc/iterator_matrix.go", "x/ftdc/bson_matrix.go", "x/ftdc/bson_restore.go", "x/ftdc/read.go"],
 [("document views", "x/ftdc/read.go, x/ftdc/iterator_*.go")])

prop("F04", "Damaged FTDC data is reported, never silently misread",
 "Reading truncated or damaged FTDC data never panics or hangs, and if the stream ends or fails inside a record, or a metric record cannot be decoded, an error is reported when iteration finishes. Damage to a record's compressed samples is reported or has no effect, and samples from intact records before the damage are delivered unchanged.",
 ["fault_sequences", "inputs"], "every truncation point and every single-byte corruption of the uncompressed framing and chunk payload, and every boundary value of its counts",
 "tests read intact fixtures",
 ["x/ftdc/read.go", "x/ftdc/iterator.go", "x/ftdc/util.go"], [("chunk decoder", "x/ftdc/read.go"), ("error propagation", "x/ftdc/iterator*.go")])

prop("F05", "Concurrent chunk reading is deterministic and always terminates",
 "For every schedule of the reader's internal goroutines the consumer sees the same chunks and samples in the same order and, having read to the end, the same error. Abandoning iteration early or cancelling ends the background work without deadlock, leak or panic.",
 ["schedules"], "all interleavings up to the preemption bound of the pipeline and consumer, x consumer stop points x cancellation points x damaged input",
 "the bad outcomes need a particular order between goroutines",
 ["x/ftdc/read.go", "x/ftdc/iterator.go"], [("reader pipeline", "x/ftdc/read.go")])

prop("F06", "Concurrent collectors record every accepted sample once",
 "Under any interleaving of adds, resolves, resets and inspection from several goroutines, the synchronized and buffered collectors neither lose nor duplicate an accepted sample, never run two operations on the wrapped collector at once, and never deadlock, race or panic, including when their context is cancelled.",
 ["schedules"], "all interleavings up to the preemption bound of bounded concurrent callers for each pair and triple of operations",
 "lost updates and shutdown panics need particular interleavings",
 ["x/ftdc/collector_buffered.go", "x/ftdc/collector_sync.go"], [("locking wrapper", "x/ftdc/collector_sync.go"), ("buffer goroutine", "x/ftdc/collector_buffered.go")])

prop("F07", "CSV export and import preserve the metrics",
 "Exporting FTDC data to CSV writes one row per sample in order under a header naming every metric, with each value in decimal (dates to the second). A change in the number of metrics is reported when exporting to one stream and starts a new file when exporting to files. Importing a CSV of numeric columns yields one sample per row with those values; a row with another number of fields becomes the header of the rows after it, and malformed input, a return to the first number of fields, and failing reads or writes are reported.",
 ["inputs", "fault_sequences"], "all small tables over boundary values and schema-change patterns; every write fault point",
 "tests convert one fixture and count lines",
 ["x/ftdc/csv.go"], [("CSV conversion", "x/ftdc/csv.go")])

prop("F08", "Metrics collection persists every sample in order",
 "Collecting JSON documents from a reader, a file, or a file that is still being appended to writes every document's values exactly once and in order to consecutively numbered files, whenever flushes happen and however the input arrives in pieces, what was read before a flush is due is in a file after it, and the collection completes without error only if everything was written; malformed lines, failing reads or writes, and panicking readers are reported. Collecting runtime metrics writes each sample, with every custom collector's values, exactly once and in order until it is canceled, at whatever moment that is, starting a new file at every flush interval, and a panicking parallel collector is reported. Nothing keeps running and no file stays open afterwards.",
 ["schedules", "inputs", "fault_sequences"], "all interleavings up to the delay bound of bounded sources, flush timers, appends and faults, with cancellation after every step",
 "losing the last batch or leaking the source needs an exact interleaving of flush, end of input and cancellation; tests collect one fixture",
 ["x/ftdc/metrics/json.go", "x/ftdc/metrics/metrics.go"],
 [("JSON collection", "x/ftdc/metrics/json.go:CollectJSONStream"), ("following", "x/ftdc/metrics/json.go:follow"), ("runtime collection", "x/ftdc/metrics/metrics.go:CollectRuntime")])

prop("F09", "Metric documents carry every measurement",
 "The documents made of process, system and Go runtime metrics contain every measured field once, under its own name, with its exact value (fractions aside), for all combinations of values and any number of disks, partitions and interfaces. In every history of collections the Go runtime counters are totals, or exactly the counts since the previous collection of any kind, so that the deltas of concurrent collectors add up without data races. The information collected about a process and its children is about exactly these processes, each once, with its own parent; what cannot be collected is left out and reported, and the rest is what the system says.",
 ["inputs", "histories", "schedules", "fault_sequences"], "all fields at boundary values, alone and in pairs; all small process trees; every subset of the sources of information missing; all histories of collections up to the bound; all interleavings of concurrent collectors up to the preemption bound",
 "a swapped or missing field, or a count lost between two collections, shows only for values and histories tests do not have",
 ["x/ftdc/metrics/process_info.go", "x/ftdc/metrics/system_info.go", "x/ftdc/metrics/golang_info.go", "x/ftdc/metrics/birch_builders.go", "x/ftdc/metrics/runtime.go"],
 [("documents", "x/ftdc/metrics/*.go:MarshalDocument"), ("counters", "x/ftdc/metrics/golang_info.go:update")])

prop("E01", "Recorders persist exactly the events they were told about",
 "For every sequence of counter, gauge, timer, identity and iteration calls, each recorder kind persists points at exactly the documented moments, and each persisted point carries the documented accumulation of the calls made. Ending a test reports every error since the last one, persists leftovers, and resets everything except gauges.",
 ["histories"], "all call sequences up to the depth bound for each recorder kind under a virtual clock",
 "accumulate/replace/reset rules differ by recorder and depend on call order; tests run fixed scripts",
 ["x/ftdc/events/recorder_performance_*.go", "x/ftdc/events/recorder_histogram*.go"],
 [("point accumulation and persistence", "x/ftdc/events/recorder_*.go")])

prop("E02", "Concurrent recorders lose nothing and never deadlock",
 "Under every interleaving of callers with each other and with the background flusher, the synchronized and interval recorders persist the sum of all counts exactly once, never run two operations on the wrapped recorder at once, and are free of data races. Ending or resetting a test stops the background flusher and leaves the recorder usable.",
 ["schedules"], "all interleavings up to the preemption bound of bounded callers, ticker firings and end/reset calls",
 "the flusher's race with end-of-test needs an exact interleaving",
 ["x/ftdc/events/recorder_wrapper_sync.go", "x/ftdc/events/recorder_performance_interval.go", "x/ftdc/events/recorder_histogram_interval.go"],
 [("locking wrapper", "x/ftdc/events/recorder_wrapper_sync.go"), ("interval flusher", "x/ftdc/events/recorder_*_interval.go:worker")])

prop("E03", "Event collectors accumulate and sample as documented",
 "For every sequence of events the cumulative collectors persist running totals of counters and timers with the latest gauges, time and id, the pass-through collector persists each event as given, and the sampling collectors persist exactly every n-th (or at most one per interval) running total. The synchronized collector gives the same results under every interleaving.",
 ["histories", "schedules"], "all event sequences up to the bound x sampling parameters, and all interleavings of bounded concurrent callers",
 "off-by-one and accumulation mistakes show up only for particular sequence lengths",
 ["x/ftdc/events/collector.go", "x/ftdc/events/performance.go"], [("accumulation", "x/ftdc/events/performance.go:Add"), ("sampling", "x/ftdc/events/collector.go")])

prop("E04", "Event points and histograms survive marshalling",
 "Performance points, histograms and custom metric sets convert to documents carrying every field under its documented name with its exact value, and read back equal. Custom sets accept exactly the supported value types and sort stably by name.",
 ["inputs"], "every field set to every boundary value, alone and in pairs; all custom sets up to the bound",
 "a swapped or dropped field only matters for the values tests do not set",
 ["x/ftdc/events/performance.go", "x/ftdc/events/histogram.go", "x/ftdc/events/custom.go", "x/ftdc/hdrhist/snapshot.go"],
 [("marshalling", "x/ftdc/events/*.go")])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P))
