#!/usr/bin/env python3
"""Regenerates properties.jsonl (kept as code so long texts stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

p("B01", "BSON encoding is canonical and decoding inverts it",
  "For every document buildable through the public constructors (any nesting, any element type, any field order, duplicate keys included) marshaling produces exactly the bytes the BSON specification prescribes, with correct length prefixes at every level. Parsing any valid BSON bytes yields a document whose elements, in order, have exactly the keys, types and values encoded, and marshaling that document again, before or after any nested value has been lazily expanded or read, reproduces the input bytes. Content that BSON cannot represent (keys or regular expressions with a NUL byte, a map whose keys are not those of its elements) is reported, never encoded as something else.",
  ["inputs"], "All documents over the 20 BSON element types and arbitrary nesting; all valid BSON byte strings; all orders of lazy access.",
  "The tests check a table of hand-written one-element documents and a few fixtures; they never nest types at random, and never compare with an independent encoder after lazy access.",
  ["document.go", "array.go", "element.go", "value.go", "constructor.go", "elements/elements.go", "reader.go", "iterator.go"],
  [("size computation and recursive writer", "document.go, array.go, element.go (Validate/MarshalBSON)"),
   ("lazy sub-document decoding", "value.go (MutableDocument/MutableArray/MutableJavaScriptWithScope)")])
p("B02", "Arbitrary bytes are rejected cleanly or fully usable",
  "No byte string handed to the BSON readers, iterators or parsers makes them panic, read outside the input, or fail to terminate: each call returns a result or an error. Any byte string that a parser or a validation call accepts is well formed at every nesting level, so every element can be read, every nested value expanded, and the document re-encoded to the bytes it came from; malformed lengths, missing terminators, unknown types and truncation at any byte are errors.",
  ["inputs"], "All byte strings: random, truncated, and single or multiple structured mutations of valid documents, at every depth.",
  "Tests use a dozen handwritten malformed inputs; the space of corrupt length prefixes and truncations at depth is unbounded.",
  ["reader.go", "iterator.go", "value.go", "document.go", "x_core.go", "unmarshal.go"],
  [("element and value validation", "value.go (validate), reader.go (readElements, Validate)"),
   ("document parsing", "document.go (UnmarshalBSON, ReadFrom), iterator.go")])
p("B03", "Documents behave as ordered maps under every operation history",
  "After any sequence of append, set, delete, extend, reset, sort, lookup, map-view and reload operations a document's contents equal those of an ordered list of key/value pairs subjected to the same operations: setting replaces the first element with that key in place or else appends, deleting removes and returns the first element with that key and only that one, replacing a value in place keeps its key, and order is otherwise preserved. Every observer (length, iteration, positional and keyed lookup, map view and export, encoding) agrees with that list at every step.",
  ["histories"], "All operation sequences over documents with duplicate keys and arbitrary values, every observer after every step.",
  "Tests exercise each mutator once from a fresh document and never interleave mutations with the cached map view.",
  ["document.go", "x_document.go", "unmarshal.go", "x_element.go"],
  [("ordered element list", "document.go"), ("cached map view", "unmarshal.go (Map/refreshCache)"), ("lookups and sorting", "x_document.go")])
p("B04", "Arrays behave as lists and always encode contiguous indices",
  "After any sequence of append, set, delete, extend, reset and positional lookup operations an array's values equal those of a plain list subjected to the same operations, and out-of-range positions are reported rather than returning a wrong value. At every step the array's encoding, standalone or inside a document and however it is nested, carries the keys \"0\",\"1\",...,\"n-1\" in order with the list's values.",
  ["histories"], "All operation sequences on arrays of arbitrary (nested) values, including values taken from documents and from parsed bytes.",
  "Tests cover single operations on small integer arrays; they do not check indices after histories mixing values of different origin.",
  ["array.go", "x_array.go", "value.go", "element.go"],
  [("index keys generated at encoding", "array.go (writeByteSlice/Validate)"), ("positional operations", "array.go")])
p("B05", "Sizes and streams are exact under any chunking and truncation",
  "The size a document, array or element reports is exactly the number of bytes its encoding occupies and the number of bytes written to any writer. Reading documents from a stream consumes exactly one document per call whatever the reader's chunking, yields the documents that were written in order, and reports an error when the stream ends before a whole document has arrived or when the writer fails. Memory follows the data that arrives, whatever length a header claims.",
  ["inputs", "fault_sequences"], "All document sequences, all chunkings of the reader, every truncation point, every writer failure point.",
  "Tests read one complete document from one in-memory buffer.",
  ["document.go", "reader.go", "element.go", "array.go"],
  [("stream framing", "document.go (ReadFrom, WriteTo), reader.go (NewFromIOReader)"), ("size calculation", "Validate on Document, Array, Element")])
p("B06", "Go values convert to BSON without silent loss",
  "Converting any supported Go value (integers of every width and sign, floats, strings, booleans, times, timestamps, maps, slices, nested mixtures, values that marshal themselves) to an element, value or document stores exactly that value, choosing an integer width that can hold it. A value that cannot be represented is reported as an error by the error-returning converters and as null or omission by the others, never as a different number, and the converters agree with each other on the same value.",
  ["inputs"], "All Go values of the supported dynamic types including extreme integers and arbitrarily nested maps and slices, through every converter.",
  "Tests use small positive integers and one value per type; width-selection boundaries and disagreement between the parallel converters are not sampled.",
  ["constructor.go", "x_constructor.go", "x_value.go"],
  [("interface-driven constructors", "x_constructor.go, constructor.go (Interface, InterfaceErr, Int, maps and slices)")])
p("B07", "Equality is logical equality, whatever the representation",
  "Two values or elements compare equal exactly when they have the same type and the same logical content (for elements also the same key), regardless of whether each was built by constructors, parsed from bytes, embedded in a larger buffer, or already expanded. Equality is reflexive, symmetric and transitive, is unaffected by surrounding bytes, and never mutates or panics on valid values; sorting a document yields an ordered permutation of its elements, in which elements that are equal or have no order among themselves keep their order.",
  ["inputs"], "All pairs and triples of values across all representations, including near-equal pairs differing in one byte, type, key or order.",
  "Tests compare a handful of constructed scalar values; representation pairs and one-bit differences in nested values are not covered.",
  ["value.go", "element.go", "x_value.go", "x_core.go", "x_document.go"],
  [("logical comparison", "value.go (Equal, docToBytes), x_value.go, x_core.go"), ("ordering", "x_document.go (Elements.Less, Sorted)")])
p("B08", "Typed accessors return the stored value or say they cannot",
  "For every value of every BSON type, the accessor for its own type returns exactly the stored content and its checked variant also reports success; every other type's checked accessor reports failure with a zero result and without panicking, and the unchecked variant panics. The generic export, emptiness and integer-widening helpers agree with the typed accessors, and this holds equally for constructed values, for values parsed from bytes, and on nil or uninitialised values.",
  ["inputs"], "The full cross product of value types, contents (extremes included), representations and accessors.",
  "Tests check accessors on fixed byte arrays, one content per type, and skip most of the cross product.",
  ["value.go", "constructor.go", "element.go"],
  [("typed accessors and OK variants", "value.go"), ("constructors", "constructor.go")])
p("B09", "Copies are independent and inputs are never mutated",
  "Reading, encoding, comparing, printing, searching or exporting a document never changes what it (or the bytes it was parsed from) contains, so the operations can be repeated in any order with the same results. A document, element or value that has been copied, or a value put under another key, is unaffected by structural changes to the other, and byte slices, maps and slices passed in by or returned to the caller do not alias hidden internal state that a later operation rewrites.",
  ["histories"], "All interleavings of observers and mutators on originals, copies, parents and children.",
  "Tests observe each object once, immediately after creation; aliasing only shows when one object is changed and another observed later.",
  ["document.go", "element.go", "value.go", "constructor.go", "array.go", "unmarshal.go"],
  [("copy operations", "document.go, element.go, value.go (Copy)"), ("buffer reuse", "array.go, document.go (pooled buffers)")])
p("B10", "Path lookup finds exactly the addressed element",
  "Looking up a key path in a document, or in raw encoded bytes, returns the element reached by following the first matching key at each document level and the decimal index at each array level, and reports not-found for every path that does not resolve: missing key, out-of-range, negative or non-numeric index, or descent through a scalar. The document and raw-bytes lookups agree on every path that addresses an existing element, and positional access agrees with iteration order.",
  ["inputs"], "All documents and all key paths: existing, perturbed and random.",
  "Tests look up a few fixed paths in fixed documents.",
  ["document.go", "array.go", "reader.go", "x_document.go"],
  [("recursive search", "document.go (Search), array.go, reader.go (RecursiveLookup, ElementAt)")])
p("B11", "Documents can be read by many goroutines at once",
  "Any number of goroutines may at the same time encode, validate, measure, copy, sort, iterate and look up keys or positions of the same document, read its scalar values and the bytes of its nested containers, and read or parse the same raw bytes; once nested containers have been opened (as they are in documents built from constructors) they may also print, export, search and convert it to JSON. Each gets the result it would get alone, whatever the others do, including those that build, parse and encode documents of their own, and no access is unsynchronised.",
  ["schedules"], "All sets of concurrent read-only operations on shared documents and bytes, beside independent work.",
  "No test uses a document from more than one goroutine.",
  ["document.go", "array.go", "element.go", "value.go", "reader.go", "x_document.go", "x_json_marshal.go"],
  [("encoding", "document.go, array.go, element.go (writeByteSlice)"), ("pooled buffers", "document.go (bufpool), reader.go, array.go"), ("lookups", "x_document.go, document.go (Search), reader.go")])
p("J01", "JSON output is valid and reads back as the same document",
  "Marshaling any document or array to JSON yields syntactically valid JSON, whatever characters keys and strings contain. Unmarshaling that text yields a document with the same keys in the same order and the same values, for every BSON type that has a JSON or extended-JSON form, up to the documented weakening of number types (integers may change width, never value; an integral double may come back as an integer). A document whose first key is one of the reserved extended-JSON keys, and doubles that are not finite, have no such form.",
  ["inputs"], "All documents over the types with a JSON form, including control characters, quotes, non-ASCII, extreme numbers and deep nesting.",
  "Tests round-trip a short list of fixed documents with plain ASCII keys.",
  ["x_json_marshal.go", "x_json_unmarshal.go", "jsonx/write.go", "jsonx/constructor.go", "jsonx/marhsal.go"],
  [("conversion to the JSON tree", "x_json_marshal.go, jsonx/constructor.go"), ("conversion from the JSON tree", "x_json_unmarshal.go")])
p("J02", "The JSON parser accepts exactly JSON and preserves its content",
  "The JSON document and array parser accepts a text exactly when it is a syntactically valid JSON object or array, never panicking on any byte string, and the tree it produces has the same structure, keys in order, strings, numbers, booleans and nulls as the text. The same holds when the text comes from a reader, however it divides it; a reader that fails yields an error. Writing a JSON tree produces valid JSON that parses back to an equal tree.",
  ["inputs"], "All byte strings; all JSON texts (with arbitrary whitespace, escapes, number forms and nesting) and their mutations.",
  "Tests parse a few literals; agreement with an independent parser on malformed and exotic texts is not sampled.",
  ["jsonx/unmarshal.go", "jsonx/juniper.go", "jsonx/write.go", "jsonx/marhsal.go", "jsonx/internal"],
  [("parser", "jsonx/unmarshal.go, jsonx/internal"), ("writer", "jsonx/write.go")])
p("J03", "Extended JSON decodes by its mapping and malformed forms are errors",
  "Every well-formed extended-JSON wrapper (object id, date, binary, regular expression, symbol, timestamp, code with or without scope, decimal, pointer, min/max key, undefined) decodes to the BSON value it denotes, at any nesting depth and beside any other fields. A wrapper whose payload has the wrong shape, and any other JSON text, yields an error or an ordinary document, never a panic.",
  ["inputs"], "All JSON texts containing reserved keys with payloads of every shape.",
  "Tests decode one well-formed example per wrapper.",
  ["x_json_unmarshal.go", "jsonx/unmarshal.go"],
  [("wrapper recognition and decoding", "x_json_unmarshal.go")])
p("J04", "JSON trees hold what was put into them",
  "A JSON document or array, built with any of the constructors, appended to, or read from text, holds exactly the elements put into it, in order, repeated keys included. Length, iteration, positional access and the typed accessors report them with the same types and values (an accessor for another type reports so, or panics when it is the unchecked one), and positions outside hold nothing. A copy has the same content at every depth, and neither it nor the original is affected by later changes to the other.",
  ["inputs", "histories"], "All histories of building, appending, reading and copying, over trees of any shape, with containers shared between trees.",
  "Tests build a few flat documents and never change a copy.",
  ["jsonx/juniper.go", "jsonx/constructor.go", "jsonx/unmarshal.go"],
  [("documents, arrays and values", "jsonx/juniper.go"), ("constructors", "jsonx/constructor.go")])
p("T01", "Decimal128 text and bits denote the same number",
  "Formatting any decimal128 bit pattern and parsing the text gives back the same decimal value (canonical patterns the same bits), in the form the BSON specification prescribes (scientific for positive exponents and values far below one); parsing any valid decimal text within range gives the exact number and exponent written, and text that is malformed or needs more than 34 digits or an exponent outside the format's range is an error, never a different number.",
  ["inputs"], "All 2^128 bit patterns; all decimal literals with any sign, digits, point and exponent.",
  "Tests contain no decimal parsing table beyond a few literals; the space is 2^128.",
  ["types/decimal.go"], [("formatting and parsing", "types/decimal.go (String, ParseDecimal128)")])
p("T02", "Object ids are unique, time-ordered and round-trip as text",
  "Object ids generated by one process, from any number of goroutines, never repeat, and each encodes the second of its creation; the five bytes that tell processes apart, and the start of the counter, differ from process to process. Every object id's hexadecimal and JSON forms convert back to the same id, a text that is not 24 hexadecimal digits is rejected without a panic (twelve raw bytes are also accepted where JSON is read, as documented), and comparison and zero tests agree with the bytes.",
  ["inputs", "schedules"], "All 12-byte ids and all strings; concurrent generation by many goroutines.",
  "Tests generate ids sequentially and convert a few fixed strings.",
  ["types/objectid.go"], [("generation", "types/objectid.go (NewObjectID)"), ("text forms", "types/objectid.go (Hex, ObjectIDFromHex, UnmarshalJSON)")])
p("E01", "Low-level encoders write exactly their bytes or report an error",
  "Each primitive encoder, for any value, start position and buffer, either writes exactly the BSON encoding of the element or value at that position, returns exactly the number of bytes written and leaves every other byte of the buffer unchanged, or, when the buffer is too small, returns an error without panicking and without writing past the end. A call that fails part way reports how many bytes of the encoding it wrote.",
  ["inputs"], "All element types and values, all start positions and buffer sizes from too small to oversized.",
  "Tests check one value per encoder in an exactly sized buffer at position zero.",
  ["elements/elements.go"], [("primitive encoders", "elements/elements.go")])
p("F01", "Compressed metrics read back exactly as collected",
  "For every sequence of same-shaped metric documents (doubles, integers, booleans, dates and timestamps at any nesting in documents and arrays, any values including extremes, negatives and non-finite, any run pattern) adding them to a compressing collector, resolving, and reading the bytes back yields the same number of samples in the same order with exactly the same metric values. This holds for the flattened, structured and matrix or series views, which agree with each other, and non-metric fields do not disturb the metrics. Documents that a view hands out belong to the caller: changing them changes no other sample. Reading may stop at any point, even of data without an end, and then leaves nothing running.",
  ["inputs"], "All document shapes and value sequences up to the generated bounds, all read views.",
  "Tests use a few fixed shapes of small random integers and compare with the library's own comparison helper.",
  ["x/ftdc/bson_extract.go", "x/ftdc/bson_metric.go", "x/ftdc/bson_restore.go", "x/ftdc/collector_better.go", "x/ftdc/read.go", "x/ftdc/util.go", "x/ftdc/iterator_chunk.go", "x/ftdc/ftdc.go"],
  [("metric extraction", "bson_extract.go, bson_metric.go"), ("delta and run-length coding", "collector_better.go, util.go"), ("decoding", "read.go, ftdc.go"), ("restoration", "bson_restore.go, iterator*.go")])
p("F02", "Schema changes never mix, drop or reorder samples",
  "A dynamic collector accepts any sequence of metric documents whose shape may change at any point, in any pattern of recurrence, and reading the result back yields every document, in order, with its own keys and values. No chunk mixes documents of different shapes; a non-dynamic collector given a document with another number or other types of metrics reports an error and keeps what it already holds.",
  ["histories"], "All sequences of shapes (recurring, alternating, differing in key, depth, type or count) with arbitrary values.",
  "Tests switch between two fixed shapes once or in fixed order.",
  ["x/ftdc/collector_dynamic.go", "x/ftdc/collector_streaming.go", "x/ftdc/bson_hash.go", "x/ftdc/collector_batch.go"],
  [("schema fingerprint", "bson_hash.go"), ("chunk rotation on change", "collector_dynamic.go, collector_streaming.go")])
p("F03", "Batch and streaming collectors lose and duplicate nothing",
  "For any number of samples, any batch size and any interleaving of adds, flushes, resolves, resets and information queries, the bytes a batching, streaming or writer-backed collector emits decode to exactly the accepted samples since the last reset, in order, split into chunks no larger than the configured size. Reported sample counts match what was accepted, and closing the writer flushes everything outstanding.",
  ["histories", "configurations"], "All batch sizes, sample counts around batch boundaries, and operation interleavings.",
  "Tests add a few fixed counts to each collector and check totals loosely.",
  ["x/ftdc/collector_batch.go", "x/ftdc/collector_streaming.go", "x/ftdc/writer.go", "x/ftdc/collector_better.go"],
  [("batch rotation", "collector_batch.go"), ("streaming flush", "collector_streaming.go"), ("writer wrapper", "writer.go")])
p("F04", "Corrupt or truncated metric data is an error, never a crash",
  "Reading any byte string as metric data (random bytes, truncations and mutations of valid data at any layer: framing, chunk document, compressed payload, counts and deltas) terminates without panicking, and yields only samples followed by an error or a clean end. Truncated or internally inconsistent data is reported as an error, and every intact chunk before the damage is still delivered.",
  ["inputs", "fault_sequences"], "All byte strings; all truncation points; structured corruption of every layer.",
  "Tests feed two or three handmade bad inputs.",
  ["x/ftdc/read.go", "x/ftdc/ftdc.go", "x/ftdc/iterator.go", "x/ftdc/iterator_chunk.go", "x/ftdc/util.go"],
  [("chunk decoding", "read.go (readDiagnostic, readChunks)"), ("iterators", "iterator*.go, ftdc.go")])
p("F05", "A failed or odd operation leaves a collector's data intact",
  "When adding a sample fails (different shape, unsupported type, full collector, nil), everything previously accepted is still returned by the next resolve and the collector keeps working; resolving is repeatable and does not consume data, and resetting returns the collector to its initial empty state. Metadata set on a collector is delivered with the data and stays set through reads, flushes and resets until it is overridden or unset; reading the data reports, with every chunk, the metadata that precedes it. Documents the caller changes after adding them do not alter what was collected.",
  ["histories"], "All interleavings of valid adds, failing adds, resolves, resets, metadata changes and later mutations of added documents.",
  "Tests check each failure once on a fresh collector and discard the collector afterwards.",
  ["x/ftdc/collector_better.go", "x/ftdc/collector_batch.go", "x/ftdc/collector_uncompressed.go", "x/ftdc/collector_sync.go"],
  [("sample acceptance", "collector_better.go (Add)"), ("resolve and reset", "collector_*.go")])
p("F06", "CSV export and import preserve metric values",
  "Exporting metric data as CSV writes one header row naming every metric in order and one row per sample with each metric's exact value (dates as RFC 3339 times, everything else as the stored integer, which for doubles is their bits); when the number of metrics changes it starts a new file with its own header, or reports an error when writing to one stream. Importing a CSV of integers produces metric data with the same column names, rows and values, and malformed input is an error rather than silently shortened data; a record with another number of fields starts a new table, as documented. An export that cannot be written is an error, and leaves no file open.",
  ["inputs"], "All metric sequences and all CSV tables of integers, including shape changes and malformed rows.",
  "Tests convert one random fixture and compare row counts.",
  ["x/ftdc/csv.go"], [("export", "csv.go (WriteCSV, DumpCSV)"), ("import", "csv.go (ConvertFromCSV)")])
p("F07", "Uncompressed collectors emit exactly the documents added",
  "For every sequence of documents of any shape and any batch size, an uncompressed collector's output, in JSON or BSON form, batch or streaming, decodes to exactly the documents added, in order, none lost, duplicated or altered, across any pattern of resolves, flushes and resets. Reported counts match, and a full collector, a document of another size, or a document that cannot be rendered is an error that leaves the collected data intact.",
  ["histories", "configurations"], "All document sequences, batch sizes and operation interleavings for each uncompressed collector.",
  "Tests run the shared collector suite with fixed documents and check lengths.",
  ["x/ftdc/collector_uncompressed.go", "x/ftdc/collector_streaming.go"],
  [("uncompressed buffering", "collector_uncompressed.go")])
p("F08", "Synchronised collectors are linearizable under concurrency",
  "When many goroutines add samples, query and resolve through a synchronised or buffered collector, every successful add is present exactly once in the data that is finally resolved, samples of one goroutine keep their order, counts never exceed what was added, and no call panics, deadlocks or races. Concurrent flushes write every sample exactly once; samples that a buffered collector cannot pass on are reported when it is resolved, until a reset. Once its context ends a buffered collector leaves nothing running.",
  ["schedules"], "All interleavings of concurrent adds, information queries, resolves and resets over a generated number of goroutines.",
  "Tests use these collectors from one goroutine only.",
  ["x/ftdc/collector_sync.go", "x/ftdc/collector_buffered.go"],
  [("mutual exclusion", "collector_sync.go"), ("background worker", "collector_buffered.go")])
p("F09", "Sampling collectors keep one sample per interval",
  "A sampling collector passes a sample to the collector it wraps exactly when the minimum interval has elapsed since the last sample it collected, whatever that collector is; every other sample is skipped without an error and leaves the collector unchanged. The first sample is collected, and a sample that is refused is reported and is not a collection: the next acceptable sample is collected. The data flushed and resolved hold exactly the collected samples, in order.",
  ["histories", "configurations"], "All histories of adds, refused samples, pauses, flushes and resets; all intervals, sizes and wrapped collectors.",
  "One test adds a few identical documents around a sleep.",
  ["x/ftdc/collector_sample.go"], [("sampling", "x/ftdc/collector_sample.go (Add, flush)")])
p("V01", "Event points survive every encode/decode round trip",
  "Encoding any performance, histogram or custom event point as a document or BSON bytes and decoding it gives back the same point: every counter, timer, gauge, identifier and timestamp. Adding one point to another sums the counters and timers, keeps the later state as documented, and does not change the point being added. A new histogram point takes every value of the range it is meant for and keeps it to its precision.",
  ["inputs"], "All event points with arbitrary field values, including zero, negative durations and extreme counters.",
  "Tests only check that encoding does not fail and spot-check single fields.",
  ["x/ftdc/events/performance.go", "x/ftdc/events/histogram.go", "x/ftdc/events/custom.go"],
  [("document mapping", "events/performance.go, histogram.go, custom.go")])
p("V02", "Event recorders account for every recorded operation",
  "For every recorder kind and every sequence of iterations, counter increments, durations and gauge changes, the samples the recorder emits contain exactly the recorded totals: counters and operation counts equal the sums of what was recorded, gauges equal the last value set, and ending the test flushes what is outstanding exactly once, reports collector errors and leaves nothing running. Resetting starts from zero.",
  ["histories", "configurations"], "All operation sequences over all recorder kinds, including failing collectors, synchronised and plain.",
  "Tests run one scripted sequence per recorder.",
  ["x/ftdc/events/recorder.go", "x/ftdc/events/recorder_performance_raw.go", "x/ftdc/events/recorder_performance_single.go", "x/ftdc/events/recorder_performance_grouped.go", "x/ftdc/events/recorder_performance_interval.go", "x/ftdc/events/recorder_histogram.go"],
  [("accumulation and persistence", "events/recorder_*.go")])
p("V03", "Event collectors keep exactly the events their policy names",
  "The basic collector persists every event; the pass-through collector every event unchanged; the sampling collector exactly every n-th; the interval collector never more than one per interval; each accumulates skipped events' counters so that no recorded count is lost where documented. Nil events are errors and leave the collector usable, and the caller's events are not modified or retained by reference.",
  ["histories", "configurations"], "All event sequences and all sampling settings.",
  "Tests feed a few events and count output samples for fixed settings.",
  ["x/ftdc/events/collector.go"], [("sampling and accumulation", "events/collector.go")])
p("H01", "Histograms survive document, BSON and JSON round trips",
  "Encoding any latency histogram, with any bounds, precision and recorded values, as a document, BSON bytes or JSON and decoding it gives a histogram that is equal: same configuration, same total count and the same value at every quantile. Malformed histogram documents are errors, never panics.",
  ["inputs"], "All histogram configurations and recorded multisets; mutated documents.",
  "Tests round-trip one fixed histogram.",
  ["x/ftdc/hdrhist/snapshot.go"],
  [("document mapping", "x/ftdc/hdrhist")])
p("M01", "Wire messages survive serialization and parsing",
  "For every wire-protocol message kind and every content (namespaces, flags, cursor ids, limits, selectors, projections and any documents), serializing then parsing gives a message of the same kind with the same header, flags, numbers, strings and documents, and serializing again gives the same bytes. The serialized length field equals the number of bytes written, and the protocol-independent model built from a message carries the same information. Responses that a service writes read back as the result, error or document they report, and a writer that fails makes writing them an error. A namespace divides at its first dot into database and collection, and names commands exactly when its collection begins with a dollar sign.",
  ["inputs"], "All messages of all operation codes with arbitrary contents, sections and document counts.",
  "Tests parse one or two fixed messages and check a few fields.",
  ["x/mrpc/mongowire/message.go", "x/mrpc/mongowire/header.go", "x/mrpc/mongowire/wire_message.go", "x/mrpc/mongowire/wire_query.go", "x/mrpc/mongowire/wire_reply.go", "x/mrpc/mongowire/wire_insert.go", "x/mrpc/mongowire/wire_update.go", "x/mrpc/mongowire/wire_delete.go", "x/mrpc/mongowire/wire_get_more.go", "x/mrpc/mongowire/wire_kill_cursors.go", "x/mrpc/mongowire/wire_command.go", "x/mrpc/mongowire/wire_command_reply.go", "x/mrpc/model/model.go", "x/mrpc/shell/util.go", "x/mrpc/shell/io.go"],
  [("serialization and parsing", "x/mrpc/mongowire/wire_*.go"), ("model conversion", "x/mrpc/mongowire/message.go (GetModel)")])
p("M02", "Message framing is exact under any chunking and hostile bytes",
  "Reading messages from a stream consumes exactly one message per call for any chunking of the underlying reads, so that a sequence of written messages is read back in order and intact; a stream ending inside a message or a cancelled context is an error, and cancelled calls leave nothing running once the stream gives way. No byte string, header length or message body, of any operation code, makes reading or parsing panic, hang or allocate without bound: malformed messages are errors.",
  ["inputs", "fault_sequences"], "All byte strings and mutated messages; all chunkings and truncation points; writer faults.",
  "Tests read a few whole messages from a buffer.",
  ["x/mrpc/mongowire/sock.go", "x/mrpc/mongowire/header.go", "x/mrpc/mongowire/wireutil.go", "x/mrpc/mongowire/wire_message.go", "x/mrpc/mongowire/wire_query.go"],
  [("framing", "x/mrpc/mongowire/sock.go"), ("body parsing", "x/mrpc/mongowire/wire_*.go")])
p("M03", "Requests are dispatched to the handler registered for their scope",
  "A handler registered for an operation scope is returned for exactly the messages of that scope: the exact database-and-command scope wins over the command-only scope, other operations never match, duplicate registrations and invalid scopes are rejected without disturbing existing ones. Over a real connection every request receives the reply its handler produced, is handled exactly once, also when the client sends nothing more or a later request cannot be dispatched, and a missing, failing or slow handler does not stop the server from serving later requests, on its connection or another. Failing handlers are reported to every error handler. The service stops when its context ends, and with it the contexts of its handlers.",
  ["histories", "schedules"], "All registration sequences and lookups; all request sequences over one or more connections.",
  "Tests register a handful of scopes and check lookups once.",
  ["x/mrpc/registry.go", "x/mrpc/mongowire/scope.go", "x/mrpc/service.go", "x/mrpc/shell/service.go", "x/mrpc/shell/util.go"],
  [("scope registry", "x/mrpc/registry.go, mongowire/scope.go"), ("dispatch loop", "x/mrpc/service.go")])
p("L01", "Linked documents behave as ordered sequences of elements",
  "After any sequence of append, prepend, set, delete, pop, copy and reset operations a linked document holds exactly the elements, unchanged, that an ordinary list subjected to the same operations would hold, in the same order. Elements appended or prepended together keep their order, setting a key replaces its first element or appends one, and deleting a key removes and returns its first element. The document's length and iteration in either direction agree with that list, and validation reports exactly the size of the BSON encoding of those elements or an error when one of them is invalid.",
  ["histories"], "All operation sequences with arbitrary elements, including empty, repeated, nil and invalid ones.",
  "The package has no tests.",
  ["x/blist/blist.go"], [("linked list of elements", "x/blist/blist.go")])
p("X01", "Every JSON line in a stream becomes one metric sample",
  "Collecting metrics from a stream of JSON documents writes metric data that decodes to exactly one sample per input line, in order, with the line's numeric values, for any batch size, line length and line count. Malformed or truncated input is reported as an error and does not lose the samples accepted before it. Output that cannot be written is an error. A collection that has ended leaves nothing running and no file open.",
  ["inputs", "configurations"], "All sequences of flat and nested numeric JSON documents, batch sizes and chunkings.",
  "Tests collect fixed small files and check only that output is non-empty.",
  ["x/ftdc/metrics/json.go"], [("line reader and collector", "x/ftdc/metrics/json.go")])
p("X02", "Collecting runtime metrics writes every sample once, in order",
  "A runtime metrics collection writes files that, read in order, contain exactly one sample per collection round, in order, with consecutive numbers, the identifier of the process, the time of the round and what every custom collector returned in that round under its name, for any batch size, flush interval, change of shape, and whether collectors run in parallel or not. A collector that panics in parallel collection is reported as an error and loses no earlier sample. Options that cannot work are rejected and leave no files behind. Output that cannot be written is an error, and a collection that has ended leaves nothing running and no file open.",
  ["histories", "configurations", "schedules"], "All sequences of documents from any number of custom collectors; all options.",
  "Tests run a collection for a few seconds and check that files exist.",
  ["x/ftdc/metrics/metrics.go"], [("collection loop, flushing and rotation", "x/ftdc/metrics/metrics.go (CollectRuntime)"), ("parallel collectors", "x/ftdc/metrics/metrics.go (generate)")])
p("X03", "Snapshots of system, process and Go runtime keep their values",
  "Rendering any snapshot of the system, a process or the Go runtime as a document keeps every measured value under its name, with lists complete and in order. Collecting a snapshot reports what the operating system reports, with disks in the order of their names; what cannot be read is left out, recorded as an error where the system reports one, and costs no other value. Collecting a process tree, or all processes, reports every process exactly once, the root of a tree first. Counts of the Go runtime are totals, or exact differences to the previous collection, however collections of different kinds and from several goroutines are mixed, so that differences always add up to the totals.",
  ["inputs", "histories", "schedules"], "All field values of all snapshot types; all contents of the kernel's statistics, complete or not; all process trees; all histories of runtime collections.",
  "Tests only check that collected snapshots are not empty.",
  ["x/ftdc/metrics/system_info.go", "x/ftdc/metrics/process_info.go", "x/ftdc/metrics/golang_info.go", "x/ftdc/metrics/birch_builders.go", "x/ftdc/metrics/runtime.go", "x/ftdc/metrics/platform_linux.go"],
  [("document mapping", "x/ftdc/metrics/*_info.go, birch_builders.go"), ("cached counters", "x/ftdc/metrics/golang_info.go (update, build)")])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
