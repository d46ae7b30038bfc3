#!/usr/bin/env python3
"""Source of truth for properties.jsonl (run: python3 tools/gen_properties.py)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if state: d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = hook
    assert len(title) <= 80, (id, len(title))
    P.append(d)

prop("C01", "Reading then writing reproduces the exact input bytes",
 "Whenever a CBOR element of any kind is read successfully from a byte buffer, writing the value that was read (borrowed, or converted to its owned form and back) produces exactly the bytes that the read consumed. This includes non-canonical integer and length widths, indefinite-length arrays, maps, byte strings and text strings, chunk boundaries, tags, floats and simple values.",
 ["inputs"], "every byte buffer that starts with a readable element",
 "The unit tests re-read a handful of canonical constants; non-canonical widths, indefinite forms and their nesting form an unbounded set of encodings of which no test samples a round trip.",
 ["src/reader.rs", "src/writer.rs", "src/lowlevel/header.rs", "src/lowlevel/lead.rs", "src/types/streamable.rs", "src/types/structure.rs", "src/types/mod.rs", "src/encode.rs"],
 [("HeaderValue keeps the encoded width", "src/lowlevel/header.rs"), ("StructureLength / Chunks keep definite-vs-indefinite", "src/types/structure.rs"), ("Writer::data replays the header width", "src/writer.rs")],
 observe=["Reader::data + Writer::data", "Reader::<typed> + Writer::<typed>", "DataOwned Encode/Decode"])

prop("C02", "The reader accepts exactly the well-formed CBOR elements",
 "Reading one element from a buffer succeeds if and only if the buffer starts with a well-formed CBOR data item (RFC 8949 well-formedness, with two-byte simple values of any number also accepted, and with UTF-8 required only of a text string that is itself the element read), and it then consumes exactly that item. Reserved lead bytes, stray breaks, missing items, odd-length indefinite maps and wrongly typed or nested chunks inside indefinite strings are refused at any nesting depth.",
 ["inputs"], "every byte buffer, at every nesting depth and mix of definite/indefinite containers",
 "Acceptance is a language-membership question over all byte strings; tests exercise about ten of them and almost only accepted ones.",
 ["src/reader.rs", "src/state.rs", "src/lowlevel/lead.rs", "src/lowlevel/header.rs", "src/context.rs"],
 [("State: push-down automaton over headers", "src/state.rs"), ("Reader::cbor_slice_neutral", "src/reader.rs"), ("Lead::from_byte", "src/lowlevel/lead.rs")],
 state=[("State.ctx", "stack of open containers", "src/state.rs")],
 observe=["Reader::data", "Reader::array", "Reader::map", "Reader::tag", "Reader::consumed_bytes"])

prop("C03", "The validator delimits exactly one well-formed item per call",
 "As long as no earlier call has failed, each call of the raw-data validator succeeds if and only if the remaining bytes start with a well-formed CBOR data item (same notion as the reader, without any UTF-8 requirement), and then returns exactly that item's bytes and their count and continues right after it. A sequence of calls therefore splits a concatenation of items at the item boundaries.",
 ["inputs", "histories"], "every byte buffer and every number of successive calls",
 "Tests validate a few hand-written arrays with one call each; agreement with the grammar on all byte strings and across successive calls is not sampled.",
 ["src/validate.rs", "src/state.rs", "src/context.rs"],
 [("Validator::next", "src/validate.rs"), ("State transitions", "src/state.rs"), ("CborDataReader::slice_from", "src/context.rs")],
 observe=["Validator::next", "Validator::remaining_bytes"])

prop("C04", "No input bytes make the decoder panic",
 "For every byte buffer, including the empty one, and whichever reading, validating or decoding call is made on it, in any order, the call returns a value or an error: it never panics, overflows an integer, indexes out of bounds or loops forever.",
 ["inputs", "histories"], "every byte buffer, every short sequence of reading calls, huge announced lengths included",
 "A panic needs one specific header (a 64-bit length near the integer limit, say) at one specific position; tests feed only well-behaved buffers.",
 ["src/reader.rs", "src/context.rs", "src/validate.rs", "src/state.rs", "src/decode.rs", "src/lib.rs", "src/prim.rs", "src/tagged.rs"],
 [("CborDataReader::peek bounds check", "src/context.rs"), ("State assertions guarded by check_reduce", "src/state.rs")],
 observe=["every pub fn of Reader/Validator", "decode_from_bytes"])

prop("C05", "Every written element reads back as the same value",
 "Any value that can be built through the public constructors (with header values whose immediate form is below 24, as documented) and written with the writer (integers of every width and sign, simple values, floats, constants, byte and text strings, arrays, maps, tags, and native Rust values) is read back by the matching read call as an equal value which consumes all the bytes written. Writing any constructible value never panics.",
 ["inputs"], "every constructible value of each element type (strings and containers up to a stated size)",
 "Value spaces are 2^8 to 2^64 and the width boundaries (23/24, 255/256, ...) decide correctness; two tests write two constants and the number 124.",
 ["src/writer.rs", "src/reader.rs", "src/encode.rs", "src/decode.rs", "src/types/scalar.rs", "src/types/float.rs", "src/types/streamable.rs"],
 [("Writer::write_value / write_value_stream", "src/writer.rs"), ("HeaderValue::canonical", "src/lowlevel/header.rs")],
 observe=["Writer::finalize", "Reader::<typed>", "Encode/Decode impls"])

prop("C06", "Encoded headers follow RFC 8949 and canonical means shortest",
 "The lead byte and following big-endian bytes written for a value are those RFC 8949 assigns to its type and number, and the number reported for an element that was read is the one those bytes denote. The canonical constructors choose the shortest encoding that can hold the number, and an element read from bytes reports itself canonical if and only if it uses that shortest encoding.",
 ["inputs"], "every unsigned 64-bit number in every header width and every element type",
 "The threshold and byte-order facts range over 2^64 numbers; tests observe the encodings of at most three numbers.",
 ["src/lowlevel/header.rs", "src/lowlevel/lead.rs", "src/types/scalar.rs", "src/writer.rs", "src/reader.rs"],
 [("HeaderValue::canonical / is_canonical", "src/lowlevel/header.rs"), ("Content::to_byte, Major::to_high_bits", "src/lowlevel/lead.rs"), ("Reader::resolve_indirect", "src/reader.rs")],
 observe=["Writer::finalize", "Positive/Negative/Byte/TagValue/HeaderValue accessors"])

prop("C07", "Native values decode exactly or are refused, never truncated",
 "Decoding into u8, u16, u32 or u64 succeeds if and only if the next element is a non-negative integer that fits the type, in any header width, and yields that number; a number that does not fit is refused as out of range, reporting the number and the limits. bool, String, Vec<u8> and fixed-size byte arrays likewise decode only from the matching element (for byte arrays, of exactly the right total length, chunked or not) and yield its exact content.",
 ["inputs"], "every encoded element and every native target type",
 "Truncation shows only on numbers just above a type's limit combined with a wider header; no test decodes an out-of-range number.",
 ["src/decode.rs", "src/encode.rs", "src/types/streamable.rs"],
 [("assert_range!", "src/decode.rs"), ("Decode for [u8; N]", "src/decode.rs")],
 observe=["Decode for u8/u16/u32/u64/bool/String/Vec<u8>/[u8;N]"])

prop("C08", "Asking for the wrong type errs and consumes nothing",
 "When the next element is not of the requested type (including requesting null or undefined when another constant is next), the read returns a wrong-type error naming the type actually found, and leaves the reader at the same position so that the correct read then succeeds. Peeking at the type, and the position queries, never move the reader and always agree with the element that is then read.",
 ["inputs", "histories"], "every pair of next element and requested type, at any position in the buffer",
 "One test tries one of about 180 type pairs; position preservation must hold for each pair and each following element.",
 ["src/reader.rs", "src/lowlevel/header.rs", "src/types/mod.rs"],
 [("advance only after matches_type!", "src/reader.rs"), ("Type::from_lead vs Header::to_type", "src/types/mod.rs")],
 observe=["Reader::<typed>", "Reader::peek_type", "Reader::consumed_bytes"])

prop("C09", "Consumed and remaining bytes always account for the whole buffer",
 "At every moment consumed plus remaining bytes equals the buffer length, a read never moves backwards, and a successful read of an element advances by exactly that element's encoded size, whatever was read before it. Reading a concatenation of elements one after another therefore yields the same values as reading each one alone, and the finished test is true exactly when nothing remains.",
 ["inputs", "histories"], "every buffer holding up to a stated number of concatenated elements and every sequence of reads",
 "Position bookkeeping errors appear only for particular element sequences and offsets; tests read at most three elements from position zero.",
 ["src/reader.rs", "src/context.rs"],
 [("CborDataReader.index / advance / consume", "src/context.rs"), ("Reader::expect_finished", "src/reader.rs")],
 state=[("CborDataReader.index", "current offset", "src/context.rs")],
 observe=["Reader::consumed_bytes", "Reader::remaining_bytes", "Reader::is_finished", "Reader::expect_finished"])

prop("C10", "Float bits are preserved and converted to the IEEE 754 value",
 "Half, single and double precision floats are carried bit-for-bit from bytes to value and back. Converting one to f32 or f64 gives the IEEE 754 value of those bits: exactly (sign of zero, subnormals and infinities included) when the target is at least as wide, correctly rounded from double to f32, and NaN exactly for NaN.",
 ["inputs"], "every 16-, 32- and 64-bit float pattern",
 "No test touches floats; subnormal halves, signed zeros and NaN payloads are corner regions of 2^16 to 2^64 patterns.",
 ["src/types/float.rs", "src/writer.rs", "src/reader.rs"],
 [("ieee754_u16_to_u32", "src/types/float.rs"), ("Float::to_f32 / to_f64", "src/types/float.rs")],
 observe=["Float::to_f32", "Float::to_f64", "Reader::float", "Writer::float"])

prop("C11", "Signed views of integers are exact or absent",
 "A negative element with encoded number n denotes -1-n: its i64 view is that value exactly when it fits an i64 and is absent otherwise, and a mixed-sign scalar's i64 view is the denoted integer exactly when it fits. Sign predicates, raw numbers and canonical constructors of scalars agree with the element kind that is read or written.",
 ["inputs"], "every 64-bit magnitude in both signs and in every header width",
 "The boundary is at 2^63 within 2^65 integers; no test reads a negative integer's value.",
 ["src/types/scalar.rs", "src/reader.rs", "src/writer.rs"],
 [("Negative::to_i64", "src/types/scalar.rs"), ("Scalar::to_i64", "src/types/scalar.rs")],
 observe=["Negative::to_i64", "Scalar::to_i64", "Reader::scalar", "Writer::scalar"])

prop("C12", "Container elements tile the container's bytes exactly",
 "After reading an array, map or tag, its elements appear in order, their number is the announced (or, if indefinite, actual) one, and each is exactly one well-formed item; header, elements and final break (if indefinite) concatenated are the bytes consumed. Indexing, iteration, key and value iteration, element readers, vector conversion and owned forms all expose those same elements.",
 ["inputs"], "every readable array, map and tag, definite or indefinite, with any element mix",
 "Boundary mistakes depend on the kinds and sizes of neighbouring elements; tests check lengths of one captured transaction.",
 ["src/reader.rs", "src/types/structure.rs", "src/prim.rs", "src/context.rs"],
 [("Reader::array / map / tag", "src/reader.rs"), ("CborDataReader::slice_from", "src/context.rs"), ("iter/keys/values/to_vec/owned/borrow", "src/types/structure.rs")],
 observe=["Array", "Map", "Tag", "ArrayOwned", "MapOwned", "TagOwned", "CborSlice"])

prop("C13", "String content is exact, chunk by chunk, and text is valid UTF-8",
 "Reading a byte or text string yields exactly the payload bytes in order, with one chunk per encoded chunk; total length, concatenation, chunk list and owned forms agree with it. A text read succeeds if and only if every chunk on its own is valid UTF-8, and an indefinite string accepts only definite chunks of its own type up to the break.",
 ["inputs"], "every encoded byte or text string, definite or chunked, with arbitrary payload bytes",
 "No test reads a chunked string through the reader, and UTF-8 validity of arbitrary bytes split at arbitrary chunk boundaries cannot be sampled.",
 ["src/reader.rs", "src/types/streamable.rs"],
 [("Reader::bytes / text / text_data", "src/reader.rs"), ("Bytes::to_vec, Text::to_string", "src/types/streamable.rs")],
 observe=["Reader::bytes", "Reader::text", "Bytes", "Text", "BytesOwned", "TextOwned"])

prop("C14", "The structural state machine accepts exactly complete item nestings",
 "Fed with a sequence of structural events (simple item, definite or indefinite string, array or map start, tag, break), the public state machine reports itself acceptable exactly after a complete sequence of well-nested items, and refuses exactly the first event that no well-formed continuation allows. It never panics on any event sequence that had no error so far.",
 ["histories", "inputs"], "every event sequence up to a stated length, with every announced element count up to 2^64-1",
 "Nine tests drive nine fixed accepted sequences; rejected sequences and counts at nesting boundaries are never exercised.",
 ["src/state.rs"],
 [("State::advance / reduce / check_reduce", "src/state.rs"), ("StructTy counters", "src/state.rs")],
 state=[("State.ctx", "stack of open arrays, maps, tags and streams", "src/state.rs")],
 observe=["State::acceptable", "State::{simple,text,bytes,array,map,tag,brk}"])

prop("C15", "A truncated item is reported as missing data, with true counts",
 "Cutting a well-formed item short at any point makes reading and validating it fail with the data-missing error, and never with another error or a value. The error's expected count is what the part being read (lead byte, number or string payload) takes, and its available count is the number of bytes really left for it, which is less, so that a caller can refill its buffer.",
 ["inputs", "fault_sequences"], "every well-formed item and every proper prefix of it",
 "Three prefixes are tested; the property ranges over each cut point of each item, nested contents and multi-byte headers included.",
 ["src/context.rs", "src/reader.rs", "src/validate.rs"],
 [("CborDataReader::peek", "src/context.rs"), ("CborDataMissing", "src/context.rs")],
 observe=["ReaderError::DataMissing", "ValidateError::DataMissing"])

prop("C16", "Standard tagged types accept their form only and round-trip exactly",
 "Date/time strings, positive and negative bignums, embedded CBOR and rationals decode if and only if the element carries their tag number (0, 2, 3, 24, 30) around content of the right shape (rational: two items, numerator an integer or bignum of either sign, denominator a non-negative integer or positive bignum), and decoding consumes exactly that element. Re-encoding reproduces the original bytes and the accessors return the content.",
 ["inputs"], "every byte buffer, for each of the five tagged types",
 "There is no test of the tagged types; the accepted shapes combine tag widths, content kinds, bignum signs and chunking.",
 ["src/tagged.rs"],
 [("matches_tag!", "src/tagged.rs"), ("RationalNumber::read", "src/tagged.rs"), ("encode_decode!", "src/tagged.rs")],
 observe=["tagged::*::read", "Encode/Decode for tagged::*"])

prop("C17", "Typed raw data keeps its bytes and always unserializes",
 "Capturing or validating raw CBOR as a given type succeeds if and only if the bytes decode as that type with nothing left over, for borrowed and owned data alike. The captured value keeps the original bytes unchanged (through cloning, borrowing, untyping and encoding) and unserializing it never fails and yields the decoded value.",
 ["inputs"], "every raw element and target type, including non-canonical encodings",
 "No test touches the typed raw data API; its guarantee quantifies over all byte strings that pass or fail validation.",
 ["src/prim.rs", "src/reader.rs", "src/encode.rs", "src/decode.rs"],
 [("CborSlice::validate_as / CborData::validate_as", "src/prim.rs"), ("Reader::exact_decodable_slice / _data", "src/reader.rs")],
 observe=["CborSliceOf", "CborDataOf::unserialize", "AsRef<[u8]>"])

prop("C18", "Whole-input decoding refuses trailing bytes",
 "Decoding a complete buffer, slice, owned datum or tag content as a type succeeds only when that type's decoding consumes all of it; any leftover byte turns the result into a not-terminated error that reports the position, the leftover count and the next byte truthfully. Without leftovers the result is the decoded value itself.",
 ["inputs"], "every buffer made of an encoded value followed by any bytes",
 "Tests never decode a buffer with trailing bytes, and the counts reported depend on every length combination.",
 ["src/lib.rs", "src/prim.rs", "src/reader.rs", "src/types/structure.rs"],
 [("Reader::expect_finished", "src/reader.rs"), ("decode_from_bytes", "src/lib.rs"), ("Reader::decode_one", "src/reader.rs")],
 observe=["decode_from_bytes", "CborSlice::decode", "CborData::decode", "Tag::decode_data", "Tag::read_data", "Reader::decode_one"])

prop("C19", "Derived array and flat structures have their documented encoding",
 "A derived structure is written as its fields in declaration order inside a definite array of the field count (array), with a missing last optional field left out and the count reduced (array_lastopt), or bare (flat), under the declared tag if any; and decoding the encoding returns an equal value. Decoding accepts exactly arrays with the right number of elements (definite or indefinite), the right tag and decodable fields.",
 ["inputs", "programs"], "every field value and every input buffer, for a family of derived structure shapes",
 "The derive macros have no tests at all; each generated decoder must accept and refuse the right buffers among all.",
 ["cbored-derive/src/product.rs", "cbored-derive/src/attr.rs", "cbored-derive/src/common.rs"],
 [("derive_struct_se", "cbored-derive/src/product.rs"), ("derive_struct_de", "cbored-derive/src/product.rs")],
 observe=["#[derive(CborRepr)] #[cborrepr(structure = ...)]"])

prop("C20", "Derived integer-keyed maps encode and decode field by field",
 "A structure derived as an integer-keyed map is written as a definite map with one entry per mandatory or present field, whose key is the field's position counted from the declared start and skipping declared keys; and decoding the encoding returns an equal value. Decoding accepts the entries in any order and refuses, without panicking, a missing mandatory field, a duplicated key, or any unknown key whatever its size.",
 ["inputs", "programs"], "every combination of field values and every input map, for a family of derived map shapes",
 "No test covers derived maps; large keys, duplicates in any order, start offsets and skips are combinations tests do not sample.",
 ["cbored-derive/src/product.rs"],
 [("MapInt serializer", "cbored-derive/src/product.rs"), ("MapInt deserializer: found keys, mandatory keys", "cbored-derive/src/product.rs")],
 observe=["#[derive(CborRepr)] #[cborrepr(structure = \"mapint\")]"])

prop("C21", "Derived enums map variants to their declared numbers or types",
 "A derived enum variant is written as an array of its number and fields (tagvariant), as its bare number (enumint), or as its sole field or null (enumtype), the numbers being consecutive from the declared start and skipping declared keys; and decoding returns the same variant and fields. Unknown numbers, wrong field counts and elements of undeclared type are refused.",
 ["inputs", "programs"], "every variant, field value and input buffer, for a family of derived enum shapes",
 "No test covers derived enums; numbering with starts and skips, and refusal of all other numbers, range over all 64-bit numbers.",
 ["cbored-derive/src/sum.rs", "cbored-derive/src/attr.rs"],
 [("enumerate_variant_indices", "cbored-derive/src/sum.rs"), ("derive_enum_se / derive_enum_de", "cbored-derive/src/sum.rs")],
 observe=["#[derive(CborRepr)] #[cborrepr(enumtype = ...)]"])

prop("C22", "Writer output is the concatenation of what was written, in order",
 "Writing appends: existing bytes of the supplied buffer stay as they are, and the output is the concatenation of each written element's own encoding in call order. The array, map and tag builders wrap exactly what their closure wrote between the header for the given length and, if indefinite, one break; the array builder and the vector helpers produce arrays whose announced length is their number of elements and which read back as the same elements.",
 ["inputs", "histories"], "every initial buffer content and every short sequence of write calls",
 "Tests write at most two elements into an empty buffer and never read back a built container.",
 ["src/writer.rs", "src/types/structure.rs", "src/encode.rs", "src/decode.rs"],
 [("Writer::new_from_vec / append_slice", "src/writer.rs"), ("array_build / map_build / tag_build", "src/writer.rs"), ("ArrayBuilder", "src/types/structure.rs"), ("encode_vec / decode_vec", "src/encode.rs, src/decode.rs")],
 observe=["Writer::finalize", "Writer::finalize_data", "ArrayBuilder", "encode_vec", "decode_vec"])

prop("C23", "A failed read names its true cause",
 "When reading an element or validating fails, the error tells what is wrong at the first offending byte: data missing (and whether the lead byte, the argument or the payload is cut), a reserved lead byte, a chunk that is not allowed (naming the type found, or the nesting) or invalid UTF-8 in a string that is itself the element read, a break where an element must start, and a structural (state) error for anything misplaced deeper inside. A tagged read that fails on a well-formed element names the expected and actual tag, content type or array length, whichever is wrong first.",
 ["inputs"], "every malformed or unsuitable byte buffer",
 "The kind of error depends on where in which nesting the first wrong byte lies; tests look at the kind of about five errors.",
 ["src/reader.rs", "src/validate.rs", "src/context.rs", "src/state.rs", "src/lowlevel/lead.rs", "src/tagged.rs"],
 [("ReaderError variants", "src/reader.rs"), ("CborDataContext", "src/context.rs"), ("ValidateError variants", "src/validate.rs"), ("matches_tag!", "src/tagged.rs")],
 observe=["ReaderError", "ValidateError", "DecodeError::error"])

prop("C24", "Decode errors carry the underlying cause and its location path",
 "A failed decode reports exactly the error of the read it made, or the range or length that was violated, with the type being decoded as context. Context entries are kept from innermost to outermost in the order they were added, and the path lists them outermost first, separated by an arrow. Decoding a vector reports the first element that fails, keeping that element's own error and context and adding its index and then the vector; an error in the array itself is reported as the vector's own.",
 ["inputs", "histories"], "every buffer that fails to decode, every native type, and every sequence of context additions",
 "No test looks at the context of an error; which element fails first, and with which error, depends on all the bytes before it.",
 ["src/decode.rs", "src/reader.rs", "src/lib.rs", "src/prim.rs"],
 [("DecodeError context list", "src/decode.rs"), ("decode_vec", "src/decode.rs"), ("assert_range!", "src/decode.rs")],
 observe=["DecodeError::error", "DecodeError::context", "DecodeError::context_as_path"])

prop("C25", "A failed derived decode tells which part failed, and its own error",
 "When decoding a derived structure or enum fails, the error is that of the first offending part: the read error of the array, map or tag itself (with the type as context), the wrong tag with the expected and actual number, or exactly the error and context that decoding the failing field (or key, or variant number) on its own reports, followed by the field's name and, in enums, the variant's name (elements of fields written as arrays of a vector excepted, which keep their own error and need not be named), and then at most the type. A wrong element count, an unknown, duplicated or missing key and an unknown variant are custom errors with the type as context, whose text tells the numbers or the name at fault.",
 ["inputs"], "every input of each derived type under test",
 "No test makes a derived type fail to decode, and which of several parts is at fault first depends on the whole input.",
 ["cbored-derive/src/product.rs", "cbored-derive/src/sum.rs", "src/decode.rs", "src/types/structure.rs", "src/prim.rs"],
 [("derive_struct_de", "cbored-derive/src/product.rs"), ("derive_enum_de", "cbored-derive/src/sum.rs"), ("DecodeError::push / push_str", "src/decode.rs")],
 observe=["Decode impls of derived types", "DecodeError::error", "DecodeError::context"])

prop("C26", "Values compare equal exactly when they were read from equal bytes",
 "Two elements read from buffers are equal, borrowed or owned, exactly when the bytes each was read from are the same: values that differ only in integer or length width, definite or indefinite form, chunk boundaries or the bits of a NaN are different, and equal ones are never told apart. The same holds for the standard tagged types, scalars and typed raw data. A clone equals its original and encodes to the same bytes.",
 ["inputs"], "every pair of readable elements",
 "Equality is a relation over pairs of values; tests only compare equal canonical values, never two that are close but different.",
 ["src/types/mod.rs", "src/types/scalar.rs", "src/types/float.rs", "src/types/streamable.rs", "src/types/structure.rs", "src/lowlevel/header.rs", "src/prim.rs", "src/tagged.rs"],
 [("PartialEq / Clone of Data, DataOwned and what they hold", "src/types/mod.rs"), ("HeaderValue keeps the width", "src/lowlevel/header.rs"), ("CborSlice compared as bytes", "src/prim.rs")],
 observe=["== and clone() of Data, DataOwned, Scalar, CborDataOf and the tagged types"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P), "properties")
