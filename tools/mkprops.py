#!/usr/bin/env python3
# Regenerates properties.jsonl (the single source of the property texts).
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    P.append(dict(id=id,title=title,statement=statement,
        quantifier=dict(over=over,text=text),why_tests_cant=why,
        anchors=dict(files=files,state=state or [],
            mechanism=[dict(name=n,where=w) for n,w in mech],
            observe_at=observe or [],hook_needed=None)))

p("C01","Integer encoding is faithful, tolerant of denormals, and never silently wrong",
"Every 64-bit integer, signed (ZigZag) or unsigned, encodes to the unique shortest base-128 form (or the fixed 10-byte form) and decodes back to itself, consuming exactly the bytes of its encoding. Any denormalised encoding of a value that fits 64 bits decodes to that value (up to 256 bytes wide); a value that needs more than 64 bits is reported as an overflow, an endless encoding is rejected, and a cut-off one is an end-of-input error. Narrowing an integer field to any of the ten integer types, bool, char or null succeeds exactly when the value is in that type's range and then yields that value.",
["inputs"],"all u64/i64 values; all byte strings offered as an integer; all (value, target type) pairs",
"Tests encode about a dozen constants and reject three byte strings; the guarantee is over 2^64 values, unboundedly many denormalised spellings and every range boundary of every type.",
["src/wire.rs","src/stream.rs"],
[("wire::{encode_u64,encode_fixed_u64,decode_u64}","src/wire.rs"),("wire::{zigzag,unzigzag}","src/wire.rs"),("Value::to_*","src/stream.rs")],
observe=["wire::decode_u64","Stream::write_<int>","Value::to_<type>"])

p("C02","Decoding any byte string yields exactly the elements the format defines",
"For every byte string, pulling elements one at a time yields exactly the sequence the physical format defines - fields with their tag, type, value, byte offset and nesting depth, end-of-struct, end-of-document, exceptions and padding - and fails exactly where the bytes stop being a well-formed stream. The field-level view equals the element-level view with padding dropped and exceptions turned into errors. Skipping a field (or not) never changes what the later elements decode to.",
["inputs","histories"],"all byte strings; all interleavings of field-level/element-level reads and skips",
"Tests decode a couple of dozen hand-written documents; the guarantee ranges over all byte strings and all ways of walking them.",
["src/stream.rs","src/wire.rs"],
[("Stream::next_element_impl / next_field / next_value / next_blob","src/stream.rs"),("Descriptor::parse","src/wire.rs")],
state=[dict(name="pos, struct_depth, eof, blob_end, commit",meaning="reader cursor",where="struct Stream")],
observe=["Stream::next_field","Stream::next_element"])

p("C03","A blob handle is confined to its blob and parsing always resumes right after it",
"Whatever a client does with a blob being read - read it wholly, partly, in pieces, buffered, by slice, seek around in it, or ignore it - it only ever sees that blob's bytes at the offset it asked for and can never read or seek outside it. Whatever it did, the next element is parsed from the byte immediately after the blob. The handle's length, remaining, inner position and start/end offsets always agree with each other and with what was consumed, and size-limited reads enforce exactly the requested limit.",
["histories","inputs"],"all sequences of blob-handle operations on all blob lengths (including lengths larger than the input) followed by any further parsing",
"Tests run about ten fixed read/seek sequences; the guarantee is over all operation histories.",
["src/stream.rs","src/io.rs"],
[("impl Read/BufRead/Seek for Blob, read_fully, read_or_trunc, slice, ext_slice","src/stream.rs"),("Stream::skip_blob / commit","src/stream.rs"),("TransparentCursor as_ref / as_ext_bytes","src/io.rs")],
observe=["Blob methods","Stream::next_element after a blob"])

p("C04","Every write emits exactly the format's bytes and reads back as what was written",
"Every sequence of write calls appends exactly the bytes the physical format prescribes for those elements, in order and with nothing added, so that reading the output yields the same elements and values. An invalid tag (0 or above 63) is refused by panicking in every build configuration; it never produces output that means something else.",
["histories","inputs","configurations"],"all sequences of write operations with all tags and values, in debug and release builds",
"Tests check about fifteen fixed byte sequences in a debug build only; the guarantee covers all call sequences, values and build profiles.",
["src/stream.rs","src/wire.rs"],
[("Stream::write_*","src/stream.rs"),("From<ParsedDescriptor> for Descriptor, encode_*","src/wire.rs")],
observe=["bytes in the underlying writer"])

p("C05","Blob writing cannot overrun, be left short silently, or mis-state its length",
"A blob allocated with a fixed length can never make the stream write beyond that length, and if the handle is not left exactly at its end (not completely written, or left repositioned) the next operation on the stream reports it instead of continuing. A blob of undeclared length ends up with a header stating exactly the number of bytes written to it, with the stream positioned after it and all other bytes untouched. Both hold for ordinary blobs and exception blobs, and for any order of partial writes and seeks inside the blob.",
["histories"],"all sequences of blob allocation, partial write, seek-within-blob, commit and further writes",
"Tests run seven fixed sequences; obligations depend on arbitrary interleavings of writes and seeks inside the handle and on which operation comes next.",
["src/stream.rs"],
[("write_blob_alloc / check_at_end_of_blob","src/stream.rs"),("write_blob_dynamic / finish_dynamic_blob","src/stream.rs"),("impl Write/Seek for Blob","src/stream.rs")],
state=[dict(name="blob_end, dynamic_blob_start, commit",meaning="uncommitted blob",where="struct Stream")],
observe=["bytes in the underlying writer","result of commit or next operation"])

p("C06","Struct depth always equals open nesting; skipping lands exactly where it should",
"While reading, the reported struct depth always equals the number of end-of-struct elements needed to return to top level (0 initially and after end-of-document, saturating at 0), and every field reports the depth of its container. Skipping a field, or skipping up to any depth, from any point in a document stops immediately after the element that brings the depth down to the target - no earlier and no later - whatever the skipped content contains (nested structs and enums, blobs, padding, exceptions).",
["inputs","histories"],"all element sequences (balanced or not) and all mixes of reading, field skips and skip-up targets",
"Tests skip five fixed documents; the guarantee ranges over all nestings, all positions within them and all targets.",
["src/stream.rs"],
[("struct_depth bookkeeping, skip_up, Field::skip","src/stream.rs")],
state=[dict(name="struct_depth",meaning="open structs",where="struct Stream")],
observe=["Stream::struct_depth","Field::depth","Stream::pos after skip"])

p("C07","End of input is recognised exactly: sticky end, no torn data accepted",
"After an end-of-document element (or, with graceful end enabled, the end of input exactly at an element boundary) every further read reports end of document without doing I/O until the flag is cleared, after which reading resumes at the next byte. Input that stops anywhere else - inside an element header, an integer, a blob length or a blob body, even a blob that is being skipped - is always reported as an error, at the latest when reading moves past the cut, and never as a complete value, end of struct or end of document.",
["inputs","crash_points"],"all documents cut at every byte offset, with graceful end on or off, on every kind of reader, with blobs read, partly read or skipped",
"Tests cut three documents at one place each; torn-tail handling has to hold at every cut point, for every reader and every way of consuming the blob.",
["src/stream.rs"],
[("StreamTracker::read graceful eof","src/stream.rs"),("Stream::eof/clear_eof/next_element_impl","src/stream.rs"),("Stream::skip_blob, Blob::read_fully","src/stream.rs")],
observe=["Stream::next_element","Stream::eof","Blob::read_fully"])

p("C08","Stream position is exact, never wraps, and survives repositioning and alignment",
"The reported position always equals the starting position plus the bytes consumed or produced so far, through reads, writes, skips, blob seeks, logical resets and seeks, and every element reports the position of its first byte. An operation that would carry the position past the 64-bit maximum fails without wrapping, panicking or corrupting state. Alignment padding emits exactly the least number of padding bytes that makes the position a multiple of the alignment.",
["histories","inputs"],"all operation sequences from all starting positions, including those within a few bytes of 2^64, and all declared blob lengths up to 2^64-1",
"Tests exercise two overflow points and one alignment; the guarantee is over all sequences and all starting offsets.",
["src/stream.rs"],
[("check_advance_pos, StreamTracker","src/stream.rs"),("set_pos, reset_pos, seek, pad_to_align","src/stream.rs")],
state=[dict(name="pos",meaning="logical offset",where="struct Stream")],
observe=["Stream::pos","Field::pos","Blob::{start_pos,end_pos,stream_pos}"])

p("C09","Every supported value survives serialise-then-deserialise, alone or in sequence",
"For every supported type - all integer types, bool, char, strings, byte containers, arrays, tuples, options, standard collections and maps, pointers and cows, phantom/unit, durations, network addresses, results, and user structs and enums declared with the retrofit macro, nested arbitrarily - deserialising what was serialised yields an equal value, whichever entry points are paired (to vector, writer or stream; from slice, reader or stream; copying or borrowing), with unknown fields ignored or rejected. Values written one after another to the same destination are read back one after another in the same order, each read consuming exactly its own bytes.",
["inputs","programs"],"all values of all nested compositions of supported types, all entry-point pairings, all sequences of values",
"Tests round-trip one or two values of each type in one context; types compose without bound and context changes the encoding.",
["src/ser.rs","src/de.rs","src/sugar.rs","src/retrofit.rs","src/unknown.rs","src/adapt.rs"],
[("Serialize / Deserialize impls","src/ser.rs, src/de.rs"),("fourleaf_retrofit!","src/sugar.rs"),("std retrofits","src/retrofit.rs")],
observe=["to_vec/to_writer/to_stream","from_slice_*/from_reader/from_stream_*"])

p("C10","Serialised bytes follow the documented encoding in every context",
"The bytes produced for a value are exactly those the documentation defines for its type and context: structs headerless at top level and tagged elsewhere, collections and options flattened into repeated fields inside a struct and wrapped in a struct when they are elements of another collection, byte strings as blobs, signed integers ZigZagged, maps as sequences of key/value pairs, tuples with sequential tags, pointers transparent, enums as discriminant plus body. Every serialisation ends with exactly one end-of-struct at top level and is balanced.",
["inputs","programs"],"all values of all compositions of supported types in the three contexts (body, field, element)",
"Tests pin the bytes of roughly sixty small values; persistent data depends on the encoding of every composition staying fixed, even where a wrong encoding would still round-trip.",
["src/ser.rs","src/sugar.rs","src/retrofit.rs","src/unknown.rs"],
[("serialize_body/field/element/slice","src/ser.rs"),("@_STRUCT_BODY_SER, @_STRUCT_ELEMENT_SER","src/sugar.rs")],
observe=["bytes from to_vec/to_writer/to_stream"])

p("C11","Deserialisation accepts exactly the documents the declared type allows",
"For every byte string and declared type, deserialisation succeeds exactly when the document is well formed and satisfies the type's rules - required fields present, no field repeated beyond its cardinality, array lengths exact, value kinds and ranges right, text valid UTF-8, known variants, unknown fields tolerated or rejected as configured - and then yields exactly the value the document denotes (repeated map keys keep the last, sets collapse duplicates, field order irrelevant across tags). Otherwise it returns the error kind that names the first rule broken, and never a value.",
["inputs","programs","configurations"],"all byte strings x all declared types x strict/lenient configuration x copying/borrowing",
"Tests try a few dozen malformed documents; acceptance is a relation over all documents and all type compositions.",
["src/de.rs","src/sugar.rs","src/retrofit.rs","src/unknown.rs","src/stream.rs"],
[("Deserialize impls, Accum/finish","src/de.rs"),("@_STRUCT_BODY_DESER, @_DESER_BOILERPLATE","src/sugar.rs")],
observe=["from_* results"])

p("C12","Configured limits bound total allocation and nesting exactly, per message",
"Within one message, the total bytes of blobs copied into owned buffers never exceeds the configured blob limit, the total number of elements accumulated into unbounded collections (including preserved unknown fields) never exceeds the collection limit, and nesting never exceeds the recursion limit; a message that stays within the limits is never rejected on their account and one that goes over by a single unit always is, with the error naming that limit. Borrowed data, fixed-length arrays and skipped content are not charged, and each message starts with a fresh budget.",
["inputs","configurations","histories"],"all documents, types and limit settings, and all sequences of messages on one stream",
"Tests check five documents against one limit each; the budgets are cumulative across every field, nesting level and collection type and the boundary must be exact everywhere.",
["src/de.rs","src/unknown.rs","src/sugar.rs"],
[("Context::{push,collect,blob}","src/de.rs"),("collect(1)/blob(len) call sites","src/de.rs, src/unknown.rs")],
state=[dict(name="ContextStats",meaning="running totals",where="src/de.rs")],
observe=["from_* results"])

p("C13","Documented schema changes keep old and new readers compatible",
"Data written under one schema version is read correctly under another whenever the change is one the documentation calls compatible: adding a field that may be absent, dropping a field (with unknown fields ignored), widening or narrowing an integer within range, turning a single field into a collection or widening its cardinality, adding an enum variant, appending tuple fields; the shared fields keep their values. Where the documentation calls a change incompatible or a value falls outside the reader's range, the reader reports an error or the documented reinterpretation, never a silently different shared field.",
["programs","inputs"],"all pairs of schema versions related by chains of the documented changes, at any nesting level, and all values written under either version",
"The documentation has two hand-written version pairs; compatibility is a relation over all schema pairs and values.",
["src/de.rs","src/ser.rs","src/sugar.rs","src/stream.rs"],
[("unknown-field skipping","src/de.rs, src/sugar.rs"),("cardinality through Accum/finish","src/de.rs")],
observe=["from_* of data written by another version"])

p("C14","Read-modify-write by an older program preserves what it does not understand",
"A program whose types carry an unknown-fields handler or catch-all variant can read any valid document written by a newer program, change the fields it knows, and write it back such that every field and variant it did not understand is preserved exactly (tag, kind, value and relative order), even when unknown fields are otherwise rejected. A document captured wholly as unknown fields re-serialises to the canonical form of itself.",
["inputs","programs","histories"],"all documents x all reader schemas with handlers x all edits of known fields, repeated any number of times",
"Tests preserve two small documents; unknown content may be arbitrarily nested, repeated and interleaved with known fields.",
["src/unknown.rs","src/sugar.rs"],
[("UnknownFields/UnknownField Serialize+Deserialize","src/unknown.rs"),("(?) pseudo-tag and catch-all variant","src/sugar.rs")],
observe=["to_vec(from_*(doc))"])

p("C15","Zero-copy values alias the input exactly; copying values never do",
"In borrowing mode every borrowed byte slice or string returned refers to exactly the bytes of its blob inside the caller's input buffer (no copy, right offset and length), equals what copying mode would return, and is not subject to the blob size limit. In copying mode no part of the result refers to the input. A blob that claims to extend past the input is an error in both modes.",
["inputs","programs"],"all documents and types with borrowable members, at every position and nesting, both modes",
"One documentation example compares one pointer; aliasing must be right at every offset, nesting level and position of the underlying buffer.",
["src/de.rs","src/stream.rs","src/io.rs","src/adapt.rs"],
[("Blob::ext_slice","src/stream.rs"),("AsExtBytes impls","src/io.rs"),("Deserialize for &[u8], &str, Cow; Copied","src/de.rs, src/adapt.rs")],
observe=["addresses of returned slices"])

p("C16","Copying elements between streams reproduces the document",
"Copying each element (or each field) read from one stream to another yields a document that decodes to the same elements with the same tags, values, blob contents and exception contents, and whose bytes are the canonical encoding of the source. A source blob that is cut off is never passed on silently: the copy, or at the latest the next operation on the destination, reports an error. After each copy both streams are positioned for the next element.",
["inputs","histories"],"all source documents, including denormalised and truncated ones, and all mixes of element and field copying",
"One test copies one document; the guarantee is over all documents.",
["src/stream.rs"],
[("Stream::write_element / write_field","src/stream.rs")],
observe=["bytes of the destination","results of copying"])

p("C17","Deserialisation errors name the exact place and cause",
"Every deserialisation error carries the path of field names from the top of the message to the offending field together with the byte offset of each field on the path (for a missing or short field, the offset where the struct ended), and details - tag, variant, limit, minimum or maximum count - that match the input. The offset of the innermost named field always is the position of that field's first byte in the stream.",
["inputs","programs"],"all rejected documents for all types and configurations",
"Tests match error variants and ignore their content; location is a function of the whole parse history.",
["src/de.rs","src/sugar.rs","src/unknown.rs"],
[("Context::push/push_tag/Display","src/de.rs"),("Error variants","src/de.rs"),("@_STRUCT_BODY_DESER","src/sugar.rs")],
observe=["Error payloads"])

p("C18","Transport chunking and interruptions never change results; faults surface",
"The outcome of any read or write session is the same however the underlying reader or writer splits its transfers, whether or not it is interrupted (retryable interruptions), and whether blobs are skipped by seeking or by reading. If the transport fails at any point, the operation in progress reports an I/O error - it is never turned into data, an end of document or a success - everything returned earlier was correct, and the bytes emitted are a prefix of the fault-free output.",
["fault_sequences","schedules","inputs"],"all short-read/short-write/interruption schedules and all fault points of all sessions",
"Tests use in-memory cursors that never split, interrupt or fail.",
["src/stream.rs","src/wire.rs","src/io.rs"],
[("read_exact/write_all/io::copy/read_to_end over StreamTracker","src/stream.rs, src/wire.rs"),("skip_by_seek / skip_by_discard","src/stream.rs")],
observe=["results and bytes under a scripted transport"])

p("C19","Padding is ignored and exceptions are delivered in band without losing sync",
"Any amount of padding at any element boundary changes neither the fields a field-level reader or deserialiser sees nor their values. An exception at any element boundary is delivered as an error carrying at most the first 256 bytes of its message as text, and reading then continues with the element right after the whole exception, whatever its length and content. At element level padding and exceptions are visible as themselves and exceptions can be streamed like blobs.",
["inputs","histories"],"all documents with padding and exceptions inserted at all element boundaries, all message lengths and contents",
"Tests place one padding run and two exceptions; interleavings with nesting, skipping, long messages and partial reads are unbounded.",
["src/stream.rs"],
[("Stream::next_field / next_element_impl","src/stream.rs"),("Blob::read_or_trunc","src/stream.rs")],
observe=["Stream::next_field","Stream::next_element","from_* results"])

p("C20","No input or call sequence makes the library panic, hang or overrun",
"No byte string, however malformed or hostile, and no sequence of API calls short of those documented to panic makes reading, skipping, blob access, copying, deserialisation or re-serialisation panic, loop forever, overflow an arithmetic operation, or allocate in proportion to a length merely claimed by the input. Each call returns a result or an error, having consumed no more than the input.",
["inputs","histories","configurations"],"all byte strings x all types x all call sequences, in overflow-checked and release builds",
"Tests use well-formed or mildly malformed inputs; robustness is a statement about all hostile ones.",
["src/stream.rs","src/wire.rs","src/de.rs","src/io.rs","src/unknown.rs"],
[("check_advance_pos, limits, bounds checks","src/stream.rs"),("TransparentCursor slices","src/io.rs"),("Context limits","src/de.rs")],
observe=["absence of panics/hangs; bytes consumed"])

p("C21","Typed values and single elements can be used on one stream, in any order",
"A stream can be used through both layers in turn. Wherever a message, the rest of the struct a client is in, or a field in hand is deserialised, exactly the elements it consists of are consumed: afterwards the stream is right behind the element that closes it, with position, depth and end-of-document state as if they had been pulled or skipped one by one, and the next element or message read is the one that follows. After an error which lies in the meaning of the data (a missing, repeated or unknown field, a limit, an invalid value), skipping up to the depth of the container finds the next message. A value written as a message, a body, a field or an element in between other writes appends exactly its bytes, finishing a blob begun before, and disturbs nothing written earlier. A reader handed over for a single message is left right behind that message as well, so that messages can be read from it one after another.",
["histories","inputs","configurations"],"all sequences of typed and element-level operations on a stream",
"Tests use either layer from the top of a fresh stream; how they compose is a statement about every point at which one may take over from the other.",
["src/de.rs","src/ser.rs","src/stream.rs"],
[("deserialize_body, deserialize_element, from_stream_*, from_reader","src/de.rs"),("serialize_body, serialize_element, to_stream","src/ser.rs"),("Stream::skip_up, Field","src/stream.rs")],
observe=["results of typed operations; position, depth and flags of the stream after each; bytes"])

out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
for q in P: assert len(q["title"])<=80,(q["id"],len(q["title"]))
open(out,"w").write("".join(json.dumps(q)+"\n" for q in P))
