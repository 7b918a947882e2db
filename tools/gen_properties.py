#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept in a script so the wording stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                  "state": [{"name": n, "meaning": m, "where": w} for n, m, w in (state or [])],
                  "observe_at": observe or [], "hook_needed": hook}})

RW = ["format/io/writer.go", "format/io/reader.go", "format/io/time.go"]

prop("C01", "Full-precision write/read round trip of whole recordings",
 "Writing any recording with full-precision settings (64-bit times, full-precision collection encoders) and reading the result with the same encoders returns a recording with the same id, name, nesting of sub-recordings, and the same collections in the same order with the same names and kinds. Every capture comes back with a bit-identical time and value, whether or not compression is on and whichever order the encoders were registered in.",
 ["inputs", "configurations"], "every recording tree, every mix and order of collections of the five kinds spread over the tree, every capture value, compression on or off, every order of registered encoders",
 "The existing tests compare a dozen hand-made recordings and mostly only times and lengths; encoder/stream index bookkeeping across a tree and rare values (lengths past one varint byte, empty parts, NaN payloads, negative numbers) are not reached.",
 RW + ["format/encoding/*/*.go"],
 [("encoder/collection assignment with a running stream offset", "format/io/writer.go evaluateCollections"), ("recursive body writer", "format/io/writer.go recurseRecordingToBytes"), ("recursive body reader", "format/io/reader.go recursiveBuidRecordings")],
 observe=["io.Writer.Write", "io.Reader.Read"])

prop("C02", "Metadata survives a round trip, whatever its types and order",
 "Every metadata block (on recordings at any depth, binaries, binary references, events, and nested inside other metadata) reads back with exactly the same keys, and each key has a value of the same type and content as was written. This holds for every property type including nested blocks and arrays of each element type, for keys shared between blocks, and for every iteration order of the maps involved; reading one property consumes exactly the bytes that writing it produced.",
 ["inputs", "schedules"], "all property values of all types, nested to a bounded depth, all key sharings across blocks, all map iteration orders",
 "Tests use a few fixed blocks and whichever map order the runtime happens to draw; pairing of keys and values can depend on that order.",
 ["format/metadata/io.go", "format/metadata/property.go", "format/io/writer.go", "format/io/reader.go"],
 [("type code plus self-delimiting data", "format/metadata/property.go Code/Data"), ("decoder per type code", "format/metadata/io.go readPropData"), ("shared key table", "format/io/writer.go accumulateMetdataKeys, writeMetadata")],
 observe=["metadata.WriteProprty/ReadProperty", "Recording.Metadata after Read"])

prop("C03", "Embedded binaries and binary references survive a round trip",
 "Every embedded binary and every reference to an external binary, on any recording of the tree, reads back in the same order with the same name, size, URI, metadata and (for embedded ones) byte-identical content. Content of one item never leaks into, shifts or truncates another item or a following sub-recording; a supplied binary whose content can not be read or is not of its stated size makes writing return an error.",
 ["inputs"], "any number of binaries and references per recording, any content including empty, any size value up to 2^64-1 for references",
 "Tests use one small binary and one reference; empty content, several items and children following a binary are not covered.",
 ["format/io/writer.go", "format/io/reader.go", "format/io/binary.go", "format/io/binary_reference.go"],
 [("length-prefixed copy", "format/io/writer.go recurseRecordingToBytes"), ("length-prefixed read", "format/io/reader.go recursiveBuidRecordings")],
 observe=["Recording.Binaries/BinaryReferences after Read"])

prop("C04", "A truncated file is never mistaken for a complete recording",
 "Cutting a recording file (version 1 or 2, compressed or not) off at any point and reading what is left never panics and never returns, without an error, a recording different from the one that was written. Cutting an uncompressed version-2 file anywhere before its end always gives an error.",
 ["crash_points", "inputs"], "every cut position in files written from every recording within the bounds",
 "Tests only read complete files and an empty one; each cut position exercises a different error path, most of which are ignored and recovered only by a sticky error.",
 ["format/io/reader.go", "internal/io/binary/reader.go", "internal/io/binary/*.go", "format/io/time.go", "internal/io/rapv1/util.go"],
 [("sticky error reader", "internal/io/binary/reader.go ErrReader"), ("final er.Error()", "format/io/reader.go recursiveBuidRecordings")],
 observe=["io.Reader.Read result and error"])

prop("C05", "A failing output stream makes writing report an error",
 "If the destination accepts only a prefix of the data and then fails (at any byte, once or for good), writing a recording returns a non-nil error and does not panic. It never reports success for a file that is not complete.",
 ["fault_sequences", "inputs"], "every position at which the destination starts failing (permanently or for a single write), for every recording within the bounds, compressed or not",
 "No existing test uses a failing writer.",
 ["format/io/writer.go", "format/metadata/io.go"],
 [("sticky error writer", "format/io/writer.go errWriter"), ("error returns", "format/io/writer.go Write")],
 observe=["io.Writer.Write result"])

prop("C06", "Reading does not depend on how the input stream is chunked",
 "Reading a recording (version 1 or 2) gives the same recording, count and error whether the input arrives all at once, byte by byte, split at any position, or with the end-of-file delivered together with the last bytes.",
 ["schedules", "inputs"], "every split position and the listed delivery patterns of an io.Reader",
 "Tests always read from an in-memory buffer or a file that returns everything asked for; pipes and sockets do not.",
 ["format/io/reader.go", "format/io/load.go", "format/io/time.go", "internal/io/rapv1/util.go", "internal/io/binary/*.go", "format/metadata/io.go"],
 [("full reads", "internal/io/binary/reader.go ErrReader.Read"), ("full reads of v1 header and body", "internal/io/rapv1/util.go ReadRecording")],
 observe=["io.Reader.Read", "io.Load"])

prop("C07", "What cannot be handled faithfully is refused",
 "Reading a file whose version is neither 1 nor 2, that needs an encoder which is not registered, whose encoder version is newer than the registered one, or that stores a collection or its times by an unknown technique, returns an error and no recording; an equal or older encoder version is accepted. Writing a recording that has a collection no registered encoder accepts, or a nil collection, binary, reference or sub-recording anywhere in its tree, returns an error before a single byte is written. A collection that is not of the kind it claims to be, or holds captures that are not, makes writing return an error, and so does a technique that does not exist, for collections or for times.",
 ["inputs", "configurations"], "all version bytes, encoder signatures, encoder versions, subsets of registered encoders, kinds of collections and captures, and positions of the unsupported or nil part in the tree",
 "Tests check single instances at the root; depth, order and version boundaries are not covered.",
 ["format/io/reader.go", "format/io/writer.go", "format/io/load.go"],
 [("signature and version matching", "format/io/reader.go readEncoders"), ("pre-flight checks", "format/io/writer.go checkForNilInterfaces, evaluateCollections")],
 observe=["error result and bytes produced"])

prop("C08", "Length-prefixed primitives decode to what was encoded, exactly",
 "For every unsigned integer, string, byte array, string array and integer array, decoding its encoding gives back the value, reports and consumes exactly the bytes of that encoding, and leaves any following bytes unread. A malformed or cut-off encoding (including integers longer than 64 bits) yields an error, never a wrong value, and once the error-accumulating reader has failed it keeps failing without touching the stream.",
 ["inputs"], "all 64-bit integers, all strings/arrays within the length bounds (including lengths around every varint size change), all following bytes, all malformed byte sequences up to the bound",
 "Tests round-trip a few short values; varint width changes, overflow encodings and trailing data are not covered.",
 ["internal/io/binary/*.go"],
 [("varint reader", "internal/io/binary/util.go ReadUvarint"), ("length-prefixed readers", "internal/io/binary/string.go, bytes.go, uint.go"), ("sticky reader", "internal/io/binary/reader.go")],
 observe=["decoded value, count, position of the stream"])

prop("C09", "The version-2 byte layout stays compatible",
 "An uncompressed version-2 file has one fixed layout: the version byte, the used encoders' signatures and versions, the compression flag, encoder headers, the metadata key table, then depth-first recordings with their fields in the established order and the established type codes, technique codes, varints and little-endian numbers. The writer produces exactly this layout and the reader accepts and interprets it, so files exchanged with other releases keep their meaning.",
 ["inputs"], "all recordings within the bounds, compared with an independent reference encoder/decoder of the layout",
 "Round-trip tests cannot see a change made symmetrically on both sides, and no golden version-2 files exist in the repository.",
 RW + ["format/encoding/*/*.go", "format/metadata/*.go", "internal/io/binary/*.go", "docs/formats/v2/README.md"],
 [("layout", "format/io/writer.go Write, recurseRecordingToBytes"), ("codes", "format/metadata/property.go Code; format/encoding/*/*.go techniques; format/io/time.go")],
 observe=["bytes written", "recording read from reference bytes"])

prop("C10", "Stored times keep their precision and order",
 "64-bit time storage returns every time unchanged and 32-bit storage returns each time rounded to the nearest 32-bit float. 16-bit storage of a chronological collection returns the same number of times, still in chronological order, and corrects for the error so far: every time comes back within half a quantisation step (2^-16 of the largest gap between neighbours) whenever its distance from the previous returned time is between zero and that largest gap, and never further off than half a step per preceding capture, plus 32-bit rounding of the stored numbers.",
 ["inputs"], "all chronological time sequences within the bounds, all three techniques",
 "Tests try a few evenly spaced sequences against loose deltas.",
 ["format/io/time.go", "internal/io/binary/util.go"],
 [("binary-search quantiser", "internal/io/binary/util.go UnsignedFloatBSTToBytes/BytesToUnisngedFloatBST"), ("drift feedback", "format/io/time.go encodeTimeBST16")],
 observe=["times after write/read"])

prop("C11", "Stored positions stay within their technique's error bound",
 "Position collections read back with the same number of captures, in order, with unchanged times. Raw64 returns bit-identical coordinates and Raw32 the nearest 32-bit float; Oct48 and Oct24 return the first position exactly and each coordinate of capture k within k half-steps of the original (a step being the spread of frame-to-frame movement on that axis divided by 2^16 or 2^8); they correct for the error so far, so a coordinate whose movement from the previous returned position lies within the range of original movements is within half a step. All of this up to 32-bit rounding of the stored numbers, independently for each axis and each collection.",
 ["inputs"], "all finite coordinate sequences within the bounds, all techniques, several collections encoded together",
 "Tests draw random smooth paths and use a loose tolerance on one distribution.",
 ["format/encoding/position/*.go"],
 [("oct-tree quantiser", "format/encoding/position/oct.go"), ("bit packing", "format/encoding/position/oct24.go, oct48.go"), ("drift feedback", "format/encoding/position/oct24.go encodeOct24, oct48.go encodeOct48")],
 observe=["captures after Encode/Decode"])

prop("C12", "Stored rotations stay equivalent within their technique's error",
 "Rotation collections read back with the same number of captures, in order, with unchanged times. Raw64 returns bit-identical angles and Raw32 the nearest 32-bit float; Raw16 returns for every angle of magnitude up to 2^50 (negative or beyond a full turn included) an angle in [0,360] that is equal to it modulo 360 degrees within half a 2^-16 step of a turn (32-bit rounding for a single capture).",
 ["inputs"], "all finite angles within the bounds, all three techniques, several collections encoded together",
 "Tests sample random angles in one or two ranges.",
 ["format/encoding/euler/*.go", "internal/io/binary/util.go"],
 [("wrap into one turn", "format/encoding/euler/raw16.go wrapEulerAngle"), ("quantiser", "internal/io/binary/util.go")],
 observe=["captures after Encode/Decode"])

prop("C13", "Stored floats stay within their technique's error bound",
 "Float collections read back with the same number of captures, in order, with unchanged times. Raw64 returns bit-identical values, Raw32 the nearest 32-bit float, and BST16 returns each value (of magnitude up to 1e38) within half a 2^-16 step of the collection's value range plus 32-bit rounding, each collection using its own range.",
 ["inputs"], "all finite value sequences within the bounds, all techniques, several collections encoded together",
 "Tests sample random sequences with loose tolerances.",
 ["format/encoding/float/float.go", "internal/io/binary/util.go"],
 [("range header and quantiser", "format/encoding/float/float.go encodeBST16/decodeBST16")],
 observe=["captures after Encode/Decode"])

prop("C14", "Enum and event dictionaries are resolved per collection",
 "Enum and event collections read back exactly, however many of them share one file: each enum collection keeps its own member list in order and every capture its value (any integer), and each event keeps its name and metadata. Names or keys shared between collections, repeated within one, or empty never cause one collection's captures to resolve to another's entries.",
 ["inputs", "schedules"], "all member lists, names, keys and sharings within the bounds, several collections per encoder, all map iteration orders",
 "Tests use one or two small collections with distinct entries.",
 ["format/encoding/enum/enum.go", "format/encoding/event/event.go"],
 [("shared header dictionary", "format/encoding/enum/enum.go Encode/Decode"), ("name and key dictionaries", "format/encoding/event/event.go Encode/Decode")],
 observe=["collections after Encode/Decode"])

prop("C15", "Slicing keeps exactly the captures in the window",
 "Slicing a recording to [beginning, end) keeps, in every collection at every depth, exactly the captures whose time is at or after the beginning and before the end (bounds and times being numbers), unchanged and in their original order. Ids, names, metadata, collection names, kinds and enum members, references and tree shape are kept; binaries are kept or dropped at every depth as the option says, an omitted bound leaves out no finite time, and the source recording is not modified.",
 ["inputs"], "all window bounds (including infinities, NaN, empty and inverted windows), all capture times and orders, all collection kinds and tree shapes within the bounds",
 "Tests slice one recording with one window.",
 ["format/slice.go", "format/collection/*/collection.go"],
 [("half-open window test", "format/slice.go CaptureFallsWithin"), ("per-collection filter", "format/collection/*/collection.go Slice"), ("recursion", "format/slice.go Slice")],
 observe=["format.Slice result"])

prop("C16", "Validation accepts exactly the chronological recordings",
 "Validating a recording succeeds if and only if no collection at any depth of the tree has a capture whose time is earlier than that of the capture before it; equal times are allowed. Turning the chronological requirement off makes validation succeed for every recording.",
 ["inputs"], "all capture times and tree shapes within the bounds",
 "Tests check one good and one bad sequence.",
 ["format/validate.go"],
 [("pairwise comparison", "format/validate.go Validate")],
 observe=["format.Validate result"])

prop("C17", "Start, end and duration cover every capture",
 "For a recording whose collections are chronological, the reported start is the earliest and the reported end the latest capture time anywhere in the tree (empty collections and recordings being ignored), and the duration is their difference. A single collection's start, end and duration agree with its first and last capture.",
 ["inputs"], "all finite chronological times and tree shapes within the bounds",
 "Tests do not cover these functions with nested recordings or negative times.",
 ["format/util.go", "format/encoding/util.go", "format/collection/*/collection.go", "internal/io/rapv1/util.go"],
 [("tree folds", "format/util.go RecordingStart/RecordingEnd")],
 observe=["format.RecordingStart/End/Duration"])

prop("C18", "Version-1 recordings are converted without loss",
 "Loading a version-1 recording yields one sub-recording per subject, in order, with its id, name, and its position, rotation, event and life-cycle captures in order with their times and values, plus the recording's own name, events and metadata. Numeric metadata becomes numbers and other metadata text; events without a dictionary keep their text content; a file announcing other than one recording is refused.",
 ["inputs"], "all version-1 messages within the bounds",
 "Tests load two sample files and check little of their content.",
 ["internal/io/rapv1/util.go", "internal/io/rapv1/recording.go"],
 [("message conversion", "internal/io/rapv1/util.go protobufToStd, oldToNewEvents, convertMetadata"), ("header handling", "internal/io/rapv1/util.go ReadRecording")],
 observe=["recording returned by Load for version 1"])

prop("C19", "JSON import keeps every collection's meaning or reports an error",
 "Importing a JSON recording yields exactly the ids, names, tree, references and collections it describes: each capture keeps its time and its data, and the enum member a capture's value points at is the text given in the JSON; reference sizes are kept up to 2^53-1, and metadata is understood as in C20. A document in which a required part is missing or has the wrong type is rejected with an error rather than a panic or a silently altered recording.",
 ["inputs"], "all JSON documents of the documented shape within the bounds, with any one required part missing or of any other JSON type",
 "Tests cover single examples; repeated and distinct enum entries and most type confusions are not covered.",
 ["format/parsing/json.go"],
 [("typed field access", "format/parsing/json.go parseRequired*"), ("enum dictionary", "format/parsing/json.go parseEnumCollection")],
 observe=["parsing.FromJSON result"])

prop("C20", "Metadata survives JSON export and import",
 "A metadata value written as JSON and read back into the same type is unchanged: texts with any characters, 32-bit integers, 32-bit floats, booleans, bytes, vectors of finite numbers, times of microsecond precision up to the year 9999, byte arrays, non-empty arrays of one kind, and nested blocks of these. Where the type has to be guessed, in arrays and inside blocks, this leaves out the values whose JSON reads as another type: texts that look like 0x hexadecimals or RFC 3339 times, byte arrays of exactly one byte, blocks of exactly the numbers {x,y} or {x,y,z}, and floats that are whole numbers. Reading any JSON value as metadata either gives a complete value or an error, never a panic and never a value with missing parts.",
 ["inputs"], "all property values of the listed types within the bounds, all JSON values within the bounds",
 "Tests marshal one example per type and never read one back with special characters or empty arrays.",
 ["format/metadata/property.go", "format/metadata/utils.go"],
 [("type-directed marshalling", "format/metadata/property.go MarshalJSON/UnmarshalJSON"), ("type guessing", "format/metadata/utils.go getProperties")],
 observe=["MarshalJSON/UnmarshalJSON"])

prop("C21", "JSON output is well-formed and faithful",
 "The JSON form of any recording is a well-formed JSON document in which ids, names, collection names, kinds and counts, event names and the nesting of sub-recordings are those of the recording, whatever (valid UTF-8) characters the texts contain; a recording whose event times or metadata hold numbers that JSON has no form for (infinities, NaN) may be refused with an error instead.",
 ["inputs"], "all recordings within the bounds with arbitrary text in ids and names",
 "One test compares one output with simple names.",
 ["cmd/rap-cli/json.go"],
 [("hand-written printer", "cmd/rap-cli/json.go toJson")],
 observe=["output of to-json"])

prop("C22", "CSV import groups rows faithfully or reports an error",
 "Importing a CSV gives one sub-recording for every distinct pair of id and name, holding exactly the captures of that pair's rows, in row order, with the row's time and coordinates, whatever the order of the columns and whatever extra columns exist. A missing required column, an unparsable number, mismatched quotes or a row of another length is reported as an error, not a panic or a skipped row.",
 ["inputs"], "all tables within the bounds, all column orders and subsets",
 "One test imports one table.",
 ["cmd/rap-cli/csv.go"],
 [("column lookup and grouping", "cmd/rap-cli/csv.go RecordingFromCSV")],
 observe=["RecordingFromCSV result"])

prop("C23", "Summaries count every capture exactly once",
 "The summary of a recording counts every capture at every depth exactly once, under the kind of its collection (kinds without their own line under 'other'), and the counts, name, number of sub-recordings, duration (when there are captures) and file size it prints are those of the recording.",
 ["inputs"], "all tree shapes, kinds and capture counts within the bounds, all file sizes",
 "One test summarises one recording.",
 ["cmd/rap-cli/summarize.go"],
 [("recursive sum by kind", "cmd/rap-cli/summarize.go summarize")],
 observe=["summarize/printSummary"])

prop("C24", "Corrupt input never crashes the reader",
 "Reading any sequence of bytes as a recording (version 1 or 2) returns either a recording with no missing parts or an error: it never panics and never allocates what a corrupt length announces, whatever the encoder indices, key indices, counts, lengths, technique and type codes in the data are; and decoding a collection whose body holds less data than its captures need is an error.",
 ["inputs"], "all byte sequences of bounded length, and all single- and multi-byte corruptions of valid files within the bounds",
 "Tests read an empty buffer and one unknown version only.",
 ["format/io/reader.go", "format/io/time.go", "format/metadata/io.go", "internal/io/binary/*.go", "format/encoding/*/*.go"],
 [("bounds checks and error returns", "format/io/reader.go, format/encoding/enum/enum.go, format/encoding/event/event.go"), ("length-limited reads", "internal/io/binary/*.go")],
 observe=["io.Load"])

prop("C25", "Reported byte counts are true",
 "The count returned by writing an uncompressed recording equals the number of bytes delivered to the destination, and the count returned by reading equals the number of bytes consumed and equals the count returned when that recording was written (compressed or not). For uncompressed recordings both counts are true also when writing or reading fails part-way. Reading leaves whatever follows an uncompressed recording in the stream untouched, so recordings can be read back to back.",
 ["inputs", "faults"], "all recordings within the bounds, several recordings in one stream, every cut and every point of failure",
 "Tests compare the two counts for a few recordings and never check the stream position.",
 RW + ["internal/io/binary/*.go"],
 [("running totals", "format/io/writer.go errWriter.n; internal/io/binary/reader.go ErrReader.n")],
 observe=["counts and stream position"])

prop("C26", "Storage techniques cost the documented number of bits",
 "Each storage technique stores every further capture in exactly its documented number of bits: positions 192/96/48/24 bits for Raw64/Raw32/Oct48/Oct24, rotations 192/96/48 for Raw64/Raw32/Raw16, floats 64/32/16 and times 64/32/16, so the size of a collection depends only on its technique and length, not on its values.",
 ["inputs"], "all capture values and collection lengths within the bounds, all techniques",
 "No test checks sizes.",
 ["format/encoding/position/*.go", "format/encoding/euler/*.go", "format/encoding/float/float.go", "format/io/time.go"],
 [("fixed-width records", "format/encoding/*/raw*.go, oct*.go")],
 observe=["length of encoded streams"])

prop("C27", "Reading, writing and inspecting leave a recording unchanged",
 "Writing a recording, slicing it, validating it or asking for its duration does not change it: afterwards all its ids, names, metadata, collections and captures are what they were, and writing it again with the same settings gives a file that reads back to the same recording. Modifying the list of captures obtained from a collection does not modify the collection, and recordings read from a stream do not change when more data is read from it.",
 ["inputs", "histories"], "all recordings within the bounds, sequences of two operations",
 "No test performs two operations on the same recording and compares.",
 ["format/recording.go", "format/collection/*/collection.go", "format/io/writer.go", "format/io/reader.go", "format/encoding/*/*.go"],
 [("copies handed out", "format/collection/*/collection.go Captures"), ("fresh buffers", "format/encoding/*/*.go Encode")],
 observe=["recording before and after"])

prop("C28", "The default writer and loader agree",
 "Whatever the default (Recolude) writer accepts, the default loader reads back: same tree, collections, counts, names, metadata, binaries and references, with event and enum content exact and positions, rotations and times within the precision of the default techniques.",
 ["inputs"], "all recordings within the bounds made of the collection kinds the default writer supports",
 "Tests check the default pair on one recording.",
 ["format/io/load.go", "format/io/writer.go"],
 [("default encoder lists", "format/io/load.go Load; format/io/writer.go NewRecoludeWriter")],
 observe=["NewRecoludeWriter + Load"])

prop("C29", "BSON export preserves metadata values",
 "Exporting a metadata block as BSON yields a well-formed document with exactly the block's keys, each holding the same value: texts as strings, integers and bytes as 32-bit integers, floats as doubles of the same value, booleans as booleans, vectors as documents of their coordinates, nested blocks as documents, arrays as arrays in order, byte arrays as binary data, and times as date-times rounded down to the millisecond. Only keys containing a NUL byte, which BSON has no form for, may be refused, with an error.",
 ["inputs"], "all property values",
 "One test checks one block.",
 ["format/metadata/property.go"],
 [("MarshalBSON", "format/metadata/property.go")],
 observe=["bson.Marshal"])

prop("C30", "The command-line tool converts files faithfully or reports an error",
 "Each command of rap-cli does to files what the library does to data: upgrade, from-json and from-csv write (to standard output or, for from-json, in place of the named file) a complete version-2 recording that the loader reads back as what the input describes, within the precision of 24-bit positions and 16-bit rotations and times (from-csv: exactly); to-json gives the same document for a file as for standard input, and summarize shows the size and counts of the file it was given. A missing, damaged or cut-off input, or an output that fails at any byte, makes the command return an error, and a damaged input leaves an existing output file untouched.",
 ["inputs", "faults"], "all inputs within the bounds, every cut of the input, every point of failure of the output",
 "One test runs from-csv and to-json on one input each; no test cuts inputs or fails outputs.",
 ["cmd/rap-cli/main.go", "cmd/rap-cli/json.go", "cmd/rap-cli/csv.go", "cmd/rap-cli/summarize.go"],
 [("command actions", "cmd/rap-cli/main.go BuildApp")],
 observe=["BuildApp commands"])

prop("C31", "What a collection reads back as depends only on itself",
 "With the same techniques, a collection of a file reads back as the same captures whatever else the file holds: other collections of any kind with any numbers (huge, infinite, undefined or tiny ones included), their order, the recording or sub-recording it is placed in, and compression make no difference. Nor does it matter in which order encoders are registered with the writer or the reader, or that others are registered that the file has no use for.",
 ["inputs"], "all collections within the bounds and everything within them that may be beside one, all orders of registration",
 "Tests use one collection of a kind, alone, with the default encoders in one order.",
 ["format/io/writer.go", "format/io/reader.go", "format/encoding/*/*.go"],
 [("assignment of collections to encoders", "format/io/writer.go evaluateCollections"), ("streams read back by position", "format/io/reader.go recursiveBuidRecordings"), ("per-stream ranges", "format/encoding/*/*.go Encode")],
 observe=["Writer.Write + Reader.Read of one collection alone and among others"])

prop("C32", "Encoders and writers keep no memory of earlier use",
 "A set of encoders may be used for any number of files, written and read in any order, also after an operation that failed (an output that breaks, a file cut short or damaged, a recording that can not be written): every file written afterwards reads back the same as one written with fresh encoders, and every file reads the same with used encoders as with fresh ones. A writer used for several recordings appends a complete file for each.",
 ["histories", "faults", "inputs"], "all sequences of up to five operations within the bounds, all recordings within them",
 "Each test makes its own encoders and uses them for one file.",
 ["format/io/writer.go", "format/io/reader.go", "format/encoding/*/*.go"],
 [("state of a write", "format/io/writer.go Write"), ("state of a read", "format/io/reader.go Read"), ("encoders", "format/encoding/*/*.go Encode, Decode")],
 observe=["NewWriter/NewReader sharing encoders"])

prop("C33", "Operations can run at the same time",
 "Different goroutines may at the same time write one recording (each with its own writer), read files (each with its own reader), load, import, slice, validate, measure and walk through one recording, and turn properties into bytes, JSON or BSON, sharing recordings, files and sets of encoders: under every schedule there is no data race and each operation gives what it gives alone.",
 ["schedules", "inputs"], "all schedules of operations on recordings and documents within the bounds",
 "No test runs two operations at once.",
 ["format/io/*.go", "format/*.go", "format/collection/*/*.go", "format/encoding/*/*.go", "format/metadata/*.go", "format/parsing/json.go", "internal/io/*/*.go"],
 [("no package-level state is written", "all packages"), ("recordings and encoders are not written", "format/recording.go; format/collection/*/collection.go; format/encoding/*/*.go")],
 observe=["writes to anything goroutines share"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
