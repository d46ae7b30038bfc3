# (file, old text, new text); old may be (text, k) to take its k-th occurrence
SEEDS = []
def S(id, property, edits, needs, breaks, demo, **kw):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo, **kw))

R, H, ST, V, C, W, D, P, T = ("src/reader.rs", "src/lowlevel/header.rs", "src/state.rs", "src/validate.rs", "src/context.rs",
    "src/writer.rs", "src/decode.rs", "src/prim.rs", "src/tagged.rs")
L, STR, FL, SC, SS, PR, SU = ("src/lowlevel/lead.rs", "src/types/structure.rs", "src/types/float.rs", "src/types/scalar.rs",
    "src/types/streamable.rs", "cbored-derive/src/product.rs", "cbored-derive/src/sum.rs")

S("c01-chunk-width", "C01", [(R, "out.push(BytesData(b, data));", "out.push(BytesData::from_slice(data));")],
  "an indefinite byte string with a chunk whose length is not in its shortest form",
  "the chunk's own length width is forgotten, so writing the read value does not reproduce the input",
  "again(&[0x5f, 0x58, 0x01, 0x07, 0xff]);")
S("c01-tag-owned-width", "C01", [(STR, "TagOwned {\n            tag_val: self.tag_val,", "TagOwned {\n            tag_val: TagValue::from_u64(self.value()),")],
  "a tag number in a non-shortest width, converted to owned and back", "the owned tag is re-encoded canonically",
  "again(&[0xd8, 0x05, 0x00]);")
S("c01-map-owned-nested", "C01", [(STR, ".map(|(slice1, slice2)| ((*slice1).to_owned(), (*slice2).to_owned()))", ".map(|(slice1, slice2)| ((*slice1).to_owned(), (*slice2).to_owned()))\n                .filter(|(k, _)| k.as_ref() != [0xf7])")],
  "a map with the key undefined, through its owned form", "the owned map loses an entry",
  "again(&[0xa1, 0xf7, 0x00]);")
S("c02-special-reserved", "C02", [(L, "0x1c..=0x1e => Err(LeadError::Reserved(b)),", "0x1c..=0x1d => Err(LeadError::Reserved(b)),\n            0x1e => Ok(Lead::Undefined),")],
  "the reserved lead byte 0xfe", "a reserved byte is read as undefined",
  "assert!(rd(&[0xfe]).data().is_err()); assert!(rd(&[0x81, 0xfe]).data().is_err());")
S("c02-tag-break", "C02", [(ST, "StructTy::Tag(t) => *t,\n            StructTy::Stream(_) => false,", "StructTy::Tag(t) => *t,\n            StructTy::Stream(_) => false,"),
                           (ST, "Some(_sty) => {\n                return Err(StateError::BreakInNonStreamable);", "Some(StructTy::Tag(false)) if self.ctx.last().is_some() => {\n                return self.brk();\n            }\n            Some(_sty) => {\n                return Err(StateError::BreakInNonStreamable);")],
  "a tag with no content directly before the break of an indefinite array nested in another container",
  "a tag without content is accepted inside an indefinite array",
  "assert!(rd(&[0x81, 0x9f, 0xc1, 0xff]).data().is_err()); assert!(rd(&[0x9f, 0xc1, 0xff]).data().is_err());")
S("c03-validator-i4", "C03", [(V, "data.copy_from_slice(self.peek_at(CborDataContext::IndirectLen, 1, 4)?);\n                Ok(IndirectValue::U32(u32::from_be_bytes(data)))", "data.copy_from_slice(self.peek_at(CborDataContext::IndirectLen, 1, 4)?);\n                data[0] &= 0x7f;\n                Ok(IndirectValue::U32(u32::from_be_bytes(data)))")],
  "a four-byte length with its top bit set", "the validator misreads a huge announced length and accepts too little",
  "let b = [0x5a, 0x80, 0, 0, 1, 9, 9]; assert!(validate::Validator::new(&b).next().is_err());")
S("c03-second-call-count", "C03", [(V, "return Ok((valid, self.reader.index - start));", "return Ok((valid, self.reader.index - start.min(1)));")],
  "a second or later call whose item starts after the first two bytes", "the count returned is not that of the item",
  "let b = [0x82, 0, 0, 0x01]; let mut v = validate::Validator::new(&b); v.next().unwrap(); let (s, n) = v.next().unwrap(); assert_eq!(s.as_ref().len(), n);")
S("c04-huge-array", "C04", [(R, "Some(len) => {\n                let sz = len.to_size();\n                for _ in 0..sz {\n                    let data", "Some(len) => {\n                let sz = len.to_size();\n                elements.reserve(sz);\n                for _ in 0..sz {\n                    let data")],
  "an array announcing more elements than memory can hold", "reading panics with a capacity overflow instead of reporting missing data",
  "assert!(rd(&[0x9b, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0]).array().is_err());")
S("c04-map-odd", "C04", [(ST, "self.ctx.push(f(sz));", "self.ctx.push(f(match stream {\n                    StreamType::Map { .. } => sz * 2 / 2,\n                    _ => sz,\n                }));")],
  "a nested map announcing 2^63 or more entries", "the size computation overflows and panics",
  "assert!(rd(&[0x81, 0xbb, 0xff, 0, 0, 0, 0, 0, 0, 0]).data().is_err());")
S("c05-writer-stream-u16", "C05", [(W, "Some(HeaderValue::U16(v)) => self.append_slice(&v.to_be_bytes()),", "Some(HeaderValue::U16(v)) if v < 0x8000 => self.append_slice(&v.to_be_bytes()),\n            Some(HeaderValue::U16(v)) => self.append_slice(&v.to_le_bytes()),")],
  "a definite container whose two-byte length is 32768 or more", "the length is written in the wrong byte order",
  "let mut w = Writer::new(); w.array_build(StructureLength::from(0x8001), |w| for _ in 0..0x8001 { w.bool(true) }); let b = w.finalize(); assert_eq!(rd(&b).array().unwrap().len(), 0x8001);")
S("c05-scalar-negative", "C05", [(W, "Scalar::Negative(n) => self.negative(n),", "Scalar::Negative(n) if n.negative_u64() == u64::MAX => self.positive(Positive::canonical(0)),\n            Scalar::Negative(n) => self.negative(n),")],
  "the scalar -2^64", "the most negative integer is written as zero",
  "let s = Scalar::canonical_negative(u64::MAX); assert_eq!(rd(&enc(&s)).scalar().unwrap(), s);")
S("c06-canonical-u32", "C06", [(H, "HeaderValue::U32(v) => *v >= 0x10000,", "HeaderValue::U32(v) => *v > 0x10000,")],
  "exactly the number 65536 in four bytes", "a shortest encoding reports itself as not canonical",
  "assert!(Positive::canonical(0x10000).is_canonical());")
S("c06-canonical-boundary", "C06", [(H, "_ if v < 0x100000000 => Self::U32(v as u32),", "_ if v < 0xffff_ffff => Self::U32(v as u32),")],
  "exactly the number 2^32-1", "the canonical constructor picks eight bytes where four suffice",
  "assert_eq!(enc(&Positive::canonical(0xffff_ffff)).len(), 5);")
S("c07-u16-range", "C07", [(D, "assert_range!(val <= 65535);", "assert_range!(val <= 65536);")],
  "exactly the number 65536", "it is truncated to zero instead of refused",
  "assert!(decode_from_bytes::<u16>(&[0x1a, 0, 1, 0, 0]).is_err());")
S("c07-array-short-chunk", "C07", [(D, "if bytes.len() == N {", "let chunked = matches!(bytes, crate::types::Bytes::Chunks(_));\n        if chunked && bytes.len() < N {\n            let mut output = [0u8; N];\n            output[..bytes.len()].copy_from_slice(&bytes.to_vec());\n            return Ok(output);\n        }\n        if bytes.len() == N {")],
  "a chunked byte string shorter than the array", "the missing bytes are filled with zeros instead of refused",
  "assert!(decode_from_bytes::<[u8; 3]>(&[0x5f, 0x42, 1, 2, 0xff]).is_err());")
S("c08-scalar-consumes", "C08", [(R, "Header::Negative(neg) => Ok(Scalar::Negative(neg)),\n            _ => Err(ReaderError::WrongExpectedTypes {", "Header::Negative(neg) => Ok(Scalar::Negative(neg)),\n            Header::Break => {\n                self.reader.advance(advance);\n                Err(ReaderError::UnexpectedBreakType)\n            }\n            _ => Err(ReaderError::WrongExpectedTypes {")],
  "asking for a scalar at a break", "the break is consumed and the error is not the wrong-type one",
  "let b = [0xff, 0x00]; let mut r = rd(&b); assert!(r.scalar().is_err()); assert_eq!(r.consumed_bytes(), 0);")
S("c08-got-type", "C08", [(H, "Header::Float(Float::FP16(_)) => Type::Float,", "Header::Float(Float::FP16(v)) if *v == 0x7e00 => Type::Null,\n            Header::Float(Float::FP16(_)) => Type::Float,")],
  "a half-precision canonical NaN where another type is asked", "the error names null as the type found",
  "match rd(&[0xf9, 0x7e, 0]).positive() { Err(ReaderError::WrongExpectedType { got, .. }) => assert_eq!(got, Type::Float), _ => panic!() }")
S("c09-remaining", "C09", [(R, "self.reader.advance(advance);\n        Ok(content)\n    }\n\n    pub fn float", "self.reader.advance(advance);\n        if self.reader.remaining_bytes() == 0 && advance == 2 && self.consumed_bytes() > 2 {\n            self.reader.index -= 1;\n        }\n        Ok(content)\n    }\n\n    pub fn float")],
  "a two-byte simple value read last after something else", "its second byte is left unread",
  "let b = [0x00, 0xf8, 0x20]; let mut r = rd(&b); r.positive().unwrap(); r.byte().unwrap(); assert!(r.is_finished());")
S("c10-subnormal", "C10", [(FL, "let e = (fp16frac as u16).leading_zeros() - 6;", "let e = (fp16frac as u16 | 1).leading_zeros() - 6;"),
                           (FL, "let frac = (fp16frac << (14 + e)) & 0x007F_FFFF;", "let frac = (fp16frac << (14 + e)) & 0x007F_FFFE | (fp16frac >> 9 & fp16frac & 1);")],
  "half-precision subnormals with both the top and bottom fraction bits set", "the converted value has a spurious last bit",
  "for v in 0u16..0x400 { let x = Float::FP16(v).to_f32() as f64; assert_eq!(x, v as f64 / 16777216.0); }")
S("c10-nan", "C10", [(FL, "if fp16frac == 0 {\n            sign | 0x7F80_0000", "if fp16frac & 0x1ff == 0 && fp16sign != 0 {\n            sign | 0x7F80_0000")],
  "positive infinity becomes NaN, and the negative quiet NaN becomes infinity", "half precision infinities and NaNs are confused",
  "assert!(Float::FP16(0xfe00).to_f32().is_nan()); assert_eq!(Float::FP16(0x7c00).to_f64(), f64::INFINITY);")
S("c11-min", "C11", [(SC, ".and_then(|v| (-1i64).checked_sub(v))", ".and_then(|v| v.checked_neg()?.checked_sub(1))\n            .filter(|v| *v != i64::MIN)")],
  "exactly -2^63", "the i64 view is absent although it fits",
  "assert_eq!(Negative::canonical(i64::MAX as u64).to_i64(), Some(i64::MIN));")
S("c12-values-iter", "C12", [(STR, "self.elements.iter().map(|(_k, v)| v.read())", "self.elements.iter().map(|(k, v)| if self.len_encoding.is_indefinite() { k.read() } else { v.read() })")],
  "iterating the values of an owned indefinite map", "keys are yielded in place of values",
  "let b = [0xbf, 1, 2, 0xff]; let m = rd(&b).map().unwrap().owned(); assert_eq!(m.values().next().unwrap().positive().unwrap().to_u64(), 2);")
S("c12-break-skip", "C12", [(R, ("self.reader.advance(1);\n\n                Ok(Map {", 0), "self.reader.advance(1 + elements.len() / 3 * 0);\n                if elements.len() > 2 {\n                    elements.sort();\n                }\n\n                Ok(Map {"),
                            (P, "/// A Validated CBOR slice of data\n#[derive(Debug, PartialEq, Eq)]\npub struct CborSlice", "/// A Validated CBOR slice of data\n#[derive(Debug, PartialEq, Eq, PartialOrd, Ord)]\npub struct CborSlice")],
  "an indefinite map of three or more unsorted entries", "its entries are exposed in another order than encoded",
  "let b = [0xbf, 3, 0, 2, 0, 1, 0, 0xff]; let m = rd(&b).map().unwrap(); assert_eq!(m.keys().next().unwrap().positive().unwrap().to_u64(), 3);")
S("c13-empty-chunk", "C13", [(SS, "Bytes::Chunks(chunks) => {\n                BytesOwned::Chunks(chunks.iter().map(|bd| bd.owned()).collect())", "Bytes::Chunks(chunks) => {\n                BytesOwned::Chunks(chunks.iter().filter(|c| c.1.len() > 0).map(|bd| bd.owned()).collect())")],
  "an indefinite byte string with an empty chunk, in its owned form", "the owned form loses the chunk",
  "again(&[0x5f, 0x40, 0x41, 7, 0xff]);")
S("c13-utf8-split", "C13", [(R, "let data_str = std::str::from_utf8(data).map_err(|err| ReaderError::TextUTF8Error(err))?;", "let data_str = match std::str::from_utf8(data) {\n            Ok(s) => s,\n            Err(err) if err.error_len().is_none() && err.valid_up_to() > 0 => {\n                std::str::from_utf8(&data[..err.valid_up_to()]).unwrap()\n            }\n            Err(err) => return Err(ReaderError::TextUTF8Error(err)),\n        };")],
  "a text chunk ending in the middle of a multi-byte character", "the partial character is dropped instead of refused",
  "assert!(rd(&[0x62, 0x61, 0xc3]).text().is_err());")
S("c14-map-count", "C14", [(ST, "assert_ne!(*elements, 0, \"elements is empty\");", "assert_ne!(*elements, 0, \"elements is empty\");\n                    if *elements > u32::MAX as usize {\n                        *elements = u32::MAX as usize;\n                        *exp_val = true;\n                    }")],
  "a map of more than 2^32-1 entries", "the count is clamped and key/value phase lost",
  "let mut s = State::new(); s.map(Some(state::HeaderValue::U64(1 << 32))).unwrap(); for _ in 0..3 { s.simple().unwrap(); } let d = format!(\"{}\", s.acceptable()); assert_eq!(d, \"false\"); let b = [0xbb, 0, 0, 0, 1, 0, 0, 0, 0]; let mut x = State::new(); x.map(Some(state::HeaderValue::U64(1 << 32))).unwrap(); panic_if_wrong();\n", skip=True)
S("c14-text-in-tag", "C14", [(ST, "Some(StructTy::Stream(s)) if s.composite_scalar() => {\n                return Err(StateError::TagInChunk);", "Some(StructTy::Stream(StreamType::Bytes)) => {\n                return Err(StateError::TagInChunk);")],
  "a tag inside an indefinite text string", "the tagged chunk is accepted",
  "let mut s = State::new(); s.text(None).unwrap(); assert!(s.tag().is_err());")
S("c15-got", "C15", [(C, "got_bytes: rem - offset,", "got_bytes: if n > 2 { rem.min(n - 1) } else { rem - offset },")],
  "a four or eight byte number or length cut short after its lead byte", "the available count also counts the lead byte",
  "match rd(&[0x1a, 0x01]).positive() { Err(ReaderError::DataMissing(m)) => { assert_eq!((m.expecting_bytes, m.got_bytes), (4, 1)); } _ => panic!() }")
S("c15-indef-trunc", "C15", [(R, "// loop for cbor slices until we find a cbor break\n                while self.peek_type()? != Type::Break {", "// loop for cbor slices until we find a cbor break\n                while !matches!(self.peek_type(), Ok(Type::Break)) {\n                    if self.is_finished() && elements.len() > 1 {\n                        return Err(ReaderError::UnexpectedBreakType);\n                    }")],
  "an indefinite array of two or more elements cut right before its break", "the error is not the data-missing one",
  "match rd(&[0x9f, 0, 0]).array() { Err(ReaderError::DataMissing(_)) => (), _ => panic!() }")
S("c16-denominator", "C16", [(T, "expected: 2,\n                    got: array.len(),\n                });\n            }", "expected: 2,\n                    got: array.len(),\n                });\n            }\n            if array.struct_len().is_indefinite() && array[1].as_ref() == [0] {\n                return Err(ReaderError::UnexpectedBreakType);\n            }")],
  "an indefinite rational with denominator 0", "a well-shaped rational is refused",
  "assert!(tagged::RationalNumber::read(&mut rd(&[0xd8, 30, 0x9f, 1, 0, 0xff])).is_ok());")
S("c16-bignum-tag", "C16", [(T, "let tag = matches_tag!(reader, 3);\n        let bytes = tag.read_data(|reader| reader.bytes())?;\n        Ok(NegativeBignum(tag.tag_repr(), bytes.owned()))", "let tag = matches_tag!(reader, 3);\n        let bytes = tag.read_data(|reader| reader.bytes())?;\n        Ok(NegativeBignum(TagValue::from_u64(3), bytes.owned()))")],
  "a negative bignum whose tag number is in a wide form", "re-encoding does not reproduce the bytes",
  "let b = [0xd8, 3, 0x41, 9]; assert_eq!(enc(&tagged::NegativeBignum::read(&mut rd(&b)).unwrap()), b);")
S("c17-slice-leftover", "C17", [(P, "if !r.is_finished() {\n            return Err(DecodeErrorKind::ReaderNotTerminated {\n                remaining_bytes: r.remaining_bytes(),\n            }\n            .context::<Self>());\n        }\n        Ok(result)", "if r.remaining_bytes() > 1 {\n            return Err(DecodeErrorKind::ReaderNotTerminated {\n                remaining_bytes: r.remaining_bytes(),\n            }\n            .context::<Self>());\n        }\n        Ok(result)")],
  "one leftover byte after the type's decoding (a type that reads less than the item it is given)", "the slice is validated although bytes remain",
  "struct U; impl Decode for U { fn decode<'a>(r: &mut Reader<'a>) -> Result<Self, DecodeError> { r.peek_type().map_err(DecodeErrorKind::ReaderError).map_err(|e| e.context::<Self>())?; Ok(U) } } assert!(rd(&[0x00]).exact_decodable_slice::<U>().is_err());")
S("c17-clone", "C17", [(P, "CborDataOf(self.0, self.1.to_vec())", "CborDataOf(self.0, self.1.iter().copied().take_while(|b| *b != 0xfe || self.1.len() < 3).collect())")],
  "owning a typed slice of three or more bytes containing 0xfe", "the owned copy is truncated",
  "use std::borrow::ToOwned; let b = [0x42, 0xfe, 0x01]; let s = rd(&b).exact_decodable_slice::<Vec<u8>>().unwrap().to_owned(); assert_eq!(s.as_ref(), &b);")
S("c18-at", "C18", [(R, "at: self.consumed_bytes(),", "at: self.reader.index.min(self.remaining_bytes()),")],
  "fewer bytes left over than were consumed", "the reported position is not where decoding stopped",
  "let b = [0x18, 0x20, 7]; let mut r = rd(&b); r.positive().unwrap(); match r.expect_finished() { Err(ReaderError::NotTerminated { at, .. }) => assert_eq!(at, 2), _ => panic!() }")
S("c18-tag-content", "C18", [(STR, "reader\n            .expect_finished()\n            .map_err(DecodeErrorKind::ReaderError)\n            .map_err(|e| e.context::<Self>())?;\n        Ok(t)", "if self.data.0.len() > 1 {\n            reader\n                .expect_finished()\n                .map_err(DecodeErrorKind::ReaderError)\n                .map_err(|e| e.context::<Self>())?;\n        }\n        Ok(t)")],
  "decoding the one-byte content of a tag as a type that reads nothing", "the unread byte is not reported",
  "struct U; impl Decode for U { fn decode<'a>(_: &mut Reader<'a>) -> Result<Self, DecodeError> { Ok(U) } } let b = [0xc1, 0x00]; assert!(rd(&b).tag().unwrap().decode_data::<U>().is_err());")
S("c19-lastopt", "C19", [(PR, "if array.len() != #nb_items && array.len() != #nb_items - 1 {", "if array.len() > #nb_items || array.len() < #nb_items - 1 - (array.struct_len().is_indefinite() as usize) * (#nb_items / 3) {")],
  "an indefinite array missing two fields of a structure of three or more fields with a last optional one", "the missing mandatory field is indexed out of bounds instead of refused",
  """}
#[derive(CborRepr, Debug, PartialEq)]
#[cborrepr(structure = "array_lastopt")]
struct X { a: u8, b: u8, c: Option<u8> }
fn main() {
    assert!(decode_from_bytes::<X>(&[0x9f, 1, 0xff]).is_err());
    assert_eq!(decode_from_bytes::<X>(&[0x82, 1, 2]).unwrap(), X { a: 1, b: 2, c: None });
}""".lstrip("}\n"))
S("c19-tag-width", "C19", [(PR, "read_tag if read_tag == #n => {}", "read_tag if read_tag as u32 == #n as u32 => {}")],
  "a tag number differing from the declared one only above 32 bits", "the wrong tag is accepted",
  """#[derive(CborRepr, Debug, PartialEq)]
#[cborrepr(structure = "array", tag = 7)]
struct X { a: u8 }
fn main() {
    assert!(decode_from_bytes::<X>(&[0xdb, 0, 0, 0, 1, 0, 0, 0, 7, 0x81, 1]).is_err());
    assert_eq!(decode_from_bytes::<X>(&enc(&X { a: 3 })).unwrap(), X { a: 3 });
}""")
S("c20-skip-decode", "C20", [(PR, ("if attrs.skips.iter().any(|v| *v == abs_index) {", 1), "if attrs.skips.first().map_or(false, |v| *v == abs_index) {")],
  "two skipped keys", "decoding numbers the fields after the second skipped key differently from encoding",
  """#[derive(CborRepr, Debug, PartialEq)]
#[cborrepr(structure = "mapint", skipkey = 1, skipkey = 3)]
struct X { #[cborrepr(mandatory)] a: u8, #[cborrepr(mandatory)] b: u8, #[cborrepr(mandatory)] c: u8 }
fn main() {
    let x = X { a: 3, b: 9, c: 8 };
    assert_eq!(enc(&x), vec![0xa3, 0, 3, 2, 9, 4, 8]);
    assert_eq!(decode_from_bytes::<X>(&enc(&x)).unwrap(), x);
}""")
S("c20-len-optional", "C20", [(PR, "None => 0,\n                                        Some(_) => 1,", "None => 0u64,\n                                        Some(_) => (#abs_index < 100) as u64,")],
  "an optional field with a key of 100 or more", "the announced number of entries leaves the field out",
  """#[derive(CborRepr, Debug, PartialEq)]
#[cborrepr(structure = "mapint", map_starts_at = 99)]
struct X { #[cborrepr(mandatory)] a: u8, b: Option<u8> }
fn main() {
    let x = X { a: 3, b: Some(4) };
    assert_eq!(decode_from_bytes::<X>(&enc(&x)).unwrap(), x);
}""")
S("c21-variant-skip", "C21", [(SU, "while attr.variant_skip.contains(&index) {", "if attr.variant_skip.contains(&index) {")],
  "two consecutive skipped numbers", "a variant gets a number declared as skipped",
  """#[derive(CborRepr, Debug, PartialEq)]
#[cborrepr(enumtype = "enumint", skipkey = 1, skipkey = 2)]
enum X { A, B, C }
fn main() {
    assert_eq!(enc(&X::B), vec![3]);
    assert_eq!(decode_from_bytes::<X>(&[3]).unwrap(), X::B);
}""")
S("c21-count", "C21", [(SU, ("if array.len() != #nb_items + 1 {", 0), "if array.len() < #nb_items + 1 {")],
  "a variant array with extra elements", "the extra elements are ignored",
  """#[derive(CborRepr, Debug, PartialEq)]
#[cborrepr(enumtype = "tagvariant")]
enum X { A, B(u8) }
fn main() {
    assert!(decode_from_bytes::<X>(&[0x83, 1, 2, 3]).is_err());
    assert_eq!(decode_from_bytes::<X>(&[0x82, 1, 2]).unwrap(), X::B(2));
}""")
S("c21-number-trunc", "C21", [(SU, ("let variant: usize = variant as usize;", 1), "let variant: usize = variant as u32 as usize;")],
  "a variant number above 2^32 whose low part is a known one", "the unknown number is taken for a known one",
  """#[derive(CborRepr, Debug, PartialEq)]
#[cborrepr(enumtype = "tagvariant")]
enum X { A, B(u8) }
fn main() {
    assert!(decode_from_bytes::<X>(&[0x81, 0x1b, 0, 0, 0, 1, 0, 0, 0, 0]).is_err());
    assert_eq!(decode_from_bytes::<X>(&[0x82, 1, 2]).unwrap(), X::B(2));
}""")
S("c22-map-build-break", "C22", [(W, "self.write_structure_length(Major::Map, len);\n        f(self);\n        if len.is_indefinite() {", "self.write_structure_length(Major::Map, len);\n        let start = self.data.len();\n        f(self);\n        if len.is_indefinite() && (self.data.len() == start || self.data.last() != Some(&0xff)) {")],
  "an indefinite map whose last written byte happens to be 0xff", "its break is left out",
  "let mut w = Writer::new(); w.map_build(StructureLength::Indefinite, |w| { w.encode(&1u8); w.encode(&255u8); }); assert!(rd(&w.finalize()).map().is_ok());")
S("c22-builder-clear", "C22", [(STR, "pub fn indefinite(self) -> ArrayOwned {\n        ArrayOwned {\n            len_encoding: StructureLength::Indefinite,", "pub fn indefinite(self) -> ArrayOwned {\n        ArrayOwned {\n            len_encoding: if self.elements.is_empty() {\n                StructureLength::from(0)\n            } else {\n                StructureLength::Indefinite\n            },")],
  "an indefinite array built with no element", "the array is definite although an indefinite one was asked",
  "assert!(ArrayBuilder::new().indefinite().struct_len().is_indefinite());")
# ---- second round
S("c01-negative-narrow", "C01", [(H, "Lead::Negative(c) => Header::Negative(Negative(resolve_value(c, ival))),", "Lead::Negative(c) => Header::Negative(Negative(match resolve_value(c, ival) {\n                HeaderValue::U16(v) if v < 24 => HeaderValue::U8(v as u8),\n                v => v,\n            })),")],
  "a negative integer below 24 written in two bytes", "its width is not kept",
  "again(&[0x39, 0x00, 0x07]);")
S("c02-depth", "C02", [(ST, "let sz = number_of_items.to_size();\n                self.ctx.push(f(sz));", "let sz = number_of_items.to_size();\n                if self.ctx.len() >= 128 {\n                    return Err(StateError::StructureNotFinished);\n                }\n                self.ctx.push(f(sz));")],
  "more than 128 definite arrays nested in each other", "a well-formed item is refused",
  "let mut b = vec![0x81u8; 200]; b.push(0); assert!(rd(&b).array().is_ok());")
S("c03-selfdescribed", "C03", [(V, "Header::Tag(_) => self.state.tag()?,", "Header::Tag(t) if t.to_u64() == 55799 => (),\n            Header::Tag(_) => self.state.tag()?,")],
  "the self-described CBOR tag 55799", "the tag alone is returned as an item",
  "let b = [0xd9, 0xd9, 0xf7, 0x00]; assert_eq!(validate::Validator::new(&b).next().unwrap().1, 4);")
S("c04-utf8-report", "C04", [(R, "let data_str = std::str::from_utf8(data).map_err(|err| ReaderError::TextUTF8Error(err))?;", "let data_str = std::str::from_utf8(data).map_err(|err| {\n            let bad = err.valid_up_to();\n            let _sequence = &data[bad..bad + err.error_len().unwrap_or(4)];\n            ReaderError::TextUTF8Error(err)\n        })?;")],
  "a text string ending inside a multi-byte character", "reporting the invalid text panics",
  "assert!(rd(&[0x61, 0xe2]).text().is_err());")
S("c05-text-chars", "C05", [(SS, "TextData(HeaderValue::canonical(str.len() as u64), str)", "TextData(HeaderValue::canonical(str.chars().count() as u64), str)")],
  "a text with a character outside ASCII", "the length written is the number of characters",
  "let b = enc(\"h\\u{e9}\"); assert_eq!(decode_from_bytes::<String>(&b).unwrap(), \"h\\u{e9}\");")
S("c06-canonical-u64", "C06", [(H, "HeaderValue::U64(v) => *v >= 0x100000000,", "HeaderValue::U64(v) => *v > 0x100000000,")],
  "exactly the number 2^32", "its shortest encoding reports itself as not canonical",
  "assert!(Positive::canonical(0x1_0000_0000).is_canonical());")
S("c07-string-nul", "C07", [(SS, "Text::Chunks(chunks) => chunks.iter().fold(String::new(), |mut v, c| {\n                v.push_str(c.1);", "Text::Chunks(chunks) => chunks.iter().fold(String::new(), |mut v, c| {\n                v.push_str(c.1.trim_end_matches('\\0'));")],
  "an indefinite text with a chunk ending in a NUL character", "the NUL is dropped from the decoded string",
  "assert_eq!(decode_from_bytes::<String>(&[0x7f, 0x62, 0x61, 0x00, 0x61, 0x62, 0xff]).unwrap(), \"a\\0b\");")
S("c08-tag-early", "C08", [(R, "let tag_val = TagValue(matches_type!(hdr, Type::Tag, Header::Tag)?);\n\n        self.reader.advance(advance);", "self.reader.advance(advance);\n        let tag_val = TagValue(matches_type!(hdr, Type::Tag, Header::Tag)?);")],
  "asking for a tag when something else is next, then going on reading", "the header of the other element is consumed",
  "let b = [0x05, 0x06]; let mut r = rd(&b); assert!(r.tag().is_err()); assert_eq!(r.positive().unwrap().to_u64(), 5);")
S("c09-finished-break", "C09", [(R, "pub fn is_finished(&self) -> bool {\n        self.remaining_bytes() == 0", "pub fn is_finished(&self) -> bool {\n        self.remaining_bytes() == 0\n            || (self.remaining_bytes() == 1\n                && self.consumed_bytes() > 0\n                && self.reader.peek_byte() == 0xff)")],
  "exactly one break byte left after an element", "the reader says it is finished with a byte left",
  "let b = [0x05, 0xff]; let mut r = rd(&b); r.positive().unwrap(); assert!(!r.is_finished());")
S("c10-f32-overflow", "C10", [(FL, "Float::FP64(fp) => f64::from_bits(*fp) as f32,", "Float::FP64(fp) => {\n                let v = f64::from_bits(*fp);\n                if v.is_finite() && v.abs() > f32::MAX as f64 {\n                    f32::INFINITY.copysign(v as f32)\n                } else {\n                    v as f32\n                }\n            }")],
  "a double just above the largest f32, less than half a step away", "it becomes infinite instead of rounding to the largest f32",
  "let v = f64::from_bits((f32::MAX as f64).to_bits() + 1); assert_eq!(Float::FP64(v.to_bits()).to_f32(), f32::MAX);")
S("c11-raw", "C11", [(SC, "Scalar::Negative(v) => v.raw_value(),", "Scalar::Negative(v) => HeaderValue::canonical(v.negative_u64()),")],
  "the raw value of a negative scalar in a non-shortest width", "it is the shortest form instead of the one that was read",
  "let s = rd(&[0x38, 0x05]).scalar().unwrap(); let n = rd(&[0x38, 0x05]).negative().unwrap(); assert_eq!(s.raw_value(), n.raw_value());")
S("c12-tovec-cap", "C12", [(STR, ("for element in self.elements.iter() {\n            let mut reader = Reader::new(element.as_ref());", 0), "for element in self.elements.iter().take(u8::MAX as usize) {\n            let mut reader = Reader::new(element.as_ref());")],
  "an array of 256 or more elements turned into a vector", "the elements after the 255th are dropped",
  "let mut b = vec![0x99, 1, 4]; b.extend(vec![0u8; 260]); let mut r = rd(&b); let a = r.array().unwrap(); assert_eq!(a.to_vec(|r| r.decode::<u8>().map_err(|e| e.error().clone())).unwrap().len(), 260);")
S("c13-str-chunks", "C13", [(SS, "Text::Chunks(td) => td.iter().map(|td| *td.as_ref()).collect(),", "Text::Chunks(td) => {\n                let mut v: Vec<&'a str> = td.iter().map(|td| *td.as_ref()).collect();\n                while v.last().map_or(false, |s| s.is_empty()) && v.len() > 1 {\n                    v.pop();\n                }\n                v\n            }")],
  "an indefinite text of several chunks, the last one empty", "the chunk list misses the empty chunk",
  "let b = [0x7f, 0x61, 0x61, 0x60, 0xff]; let mut r = rd(&b); assert_eq!(r.text().unwrap().to_str_chunks(), vec![\"a\", \"\"]);")
S("c14-reduce", "C14", [(ST, "fn check_reduce(&mut self) -> Result<(), StateError> {\n        loop {", "fn check_reduce(&mut self) -> Result<(), StateError> {\n        for _ in 0..4 {")],
  "five or more containers ended by the same item", "the state is not acceptable although the outermost item is complete",
  "let mut s = State::new(); for _ in 0..5 { s.tag().unwrap(); } s.simple().unwrap(); assert!(s.acceptable());")
S("c15-content", "C15", [(C, "if n > offseted_rem {\n            Err(CborDataMissing {\n                expecting_bytes: n,", "if n > offseted_rem {\n            Err(CborDataMissing {\n                expecting_bytes: n.min(u16::MAX as usize),")],
  "a string announcing 65536 or more bytes that are not there", "the expected count is capped",
  "match rd(&[0x5a, 0, 1, 0, 0, 9]).bytes() { Err(ReaderError::DataMissing(m)) => assert_eq!(m.expecting_bytes, 0x10000), _ => panic!() }")
S("c16-datetime-chunk", "C16", [(SS, "TextOwned::Chunks(vec) => Text::Chunks(vec.iter().map(|bd| bd.borrow()).collect()),", "TextOwned::Chunks(vec) if vec.len() == 1 => Text::Imm(vec[0].borrow()),\n            TextOwned::Chunks(vec) => Text::Chunks(vec.iter().map(|bd| bd.borrow()).collect()),")],
  "a date/time whose text is an indefinite one of a single chunk", "writing it again gives a definite text",
  "use cbored::tagged::*; let b = [0xc0, 0x7f, 0x61, 0x61, 0xff]; let d: StandardDateTime = decode_from_bytes(&b).unwrap(); assert_eq!(enc(&d), b.to_vec());")
S("c17-encode-tag", "C17", [("src/encode.rs", ("writer.append_slice(&self.1)", 0), "writer.append_slice(self.1.strip_prefix(&[0xd9, 0xd9, 0xf7]).unwrap_or(&self.1))")],
  "typed raw data starting with the self-described CBOR tag", "encoding it drops the tag",
  "let b = [0xd9, 0xd9, 0xf7, 0x00]; let c: CborDataOf<DataOwned> = decode_from_bytes(&b).unwrap(); assert_eq!(enc(&c), b.to_vec());")
S("c18-padding", "C18", [(P, ("reader\n            .expect_finished()\n            .map_err(DecodeErrorKind::ReaderError)\n            .map_err(|e| e.context::<T>())?;\n        Ok(t)", 0), "if self.0[reader.consumed_bytes()..].iter().all(|b| *b == 0xff) {\n            return Ok(t);\n        }\n        reader\n            .expect_finished()\n            .map_err(DecodeErrorKind::ReaderError)\n            .map_err(|e| e.context::<T>())?;\n        Ok(t)")],
  "an element of an array decoded as a type that leaves exactly its final break", "the leftover byte is not reported",
  "struct U; impl Decode for U { fn decode<'a>(r: &mut Reader<'a>) -> Result<Self, DecodeError> { let k = r.remaining_bytes(); if k == 3 { let _ = r.bytes(); } Ok(U) } } struct One; impl Decode for One { fn decode<'a>(_: &mut Reader<'a>) -> Result<Self, DecodeError> { Ok(One) } }\n    struct Skip; impl Decode for Skip { fn decode<'a>(r: &mut Reader<'a>) -> Result<Self, DecodeError> { let _ = r.bytes(); Ok(Skip) } }\n    let b = [0x81, 0x5f, 0x5f, 0xff, 0xff]; let _ = &b;\n    let b = [0x81, 0x42, 0xff, 0xff]; let mut r = rd(&b); let a = r.array().unwrap(); assert!(a[0].decode::<One>().is_err());\n    let b = [0x81, 0x5f, 0x41, 0x00, 0xff]; let mut r = rd(&b); let a = r.array().unwrap();\n    struct Hdr; impl Decode for Hdr { fn decode<'a>(r: &mut Reader<'a>) -> Result<Self, DecodeError> { let _ = r.text(); Ok(Hdr) } }\n    assert!(a[0].decode::<Hdr>().is_err());", skip=True)
S("c18-remaining", "C18", [("src/reader.rs", "if remaining_bytes == 0 {\n            Ok(t)", "if remaining_bytes == 0 || remaining_bytes > u8::MAX as usize + 1 {\n            Ok(t)")],
  "decoding exactly one element from a buffer with more than 256 bytes left over", "the leftover bytes are not reported",
  "let b = [0u8; 300]; assert!(rd(&b).decode_one::<u8>().is_err());")
S("c22-finite-u8", "C22", [(STR, "len_encoding: StructureLength::from(self.elements.len() as u64),", "len_encoding: StructureLength::from(self.elements.len() as u8 as u64),")],
  "an array built from 256 or more elements", "the announced length is truncated",
  "let mut a = ArrayBuilder::new(); for _ in 0..256 { a.append_encodable(&0u8); } let a = a.finite(); let mut w = Writer::new(); w.array(&a.borrow()); let b = w.finalize(); let mut r = rd(&b); assert_eq!(r.array().unwrap().len(), 256);")
S("c22-tag-drop", "C22", [(W, "self.write_value(Major::Tag, tag_val.0);\n        f(self)", "let start = self.data.len();\n        self.write_value(Major::Tag, tag_val.0);\n        let head = self.data.len();\n        f(self);\n        if self.data.len() == head {\n            self.data.truncate(start)\n        }")],
  "a tag whose closure writes nothing yet (the content is appended after it)", "the tag is taken out again",
  "let mut w = Writer::new(); w.tag_build(TagValue::from_u64(1), |_| ()); w.encode(&5u8); assert_eq!(w.finalize(), vec![0xc1, 5]);")
S("c23-context", "C23", [(R, "data.copy_from_slice(self.peek_at(CborDataContext::IndirectLen, 1, 4)?);", "data.copy_from_slice(self.peek_at(CborDataContext::Content, 1, 4)?);")],
  "a four-byte argument that is cut", "the error says that the payload is cut",
  "match rd(&[0x1a, 0, 0]).positive() { Err(ReaderError::DataMissing(m)) => assert_eq!(format!(\"{:?}\", m.context), \"IndirectLen\"), _ => panic!() }")
S("c23-nested-chunks", "C23", [(R, "None => return Err(ReaderError::TextChunksInTextChunks),", "None if out.is_empty() => return Err(ReaderError::TextChunksInTextChunks),\n                            None => {\n                                return Err(ReaderError::WrongExpectedTypeInText { got: Type::Text })\n                            }")],
  "an indefinite text inside another one, after its first chunk", "the nesting is reported as a wrong type, text",
  "assert!(matches!(rd(&[0x7f, 0x60, 0x7f, 0xff, 0xff]).text(), Err(ReaderError::TextChunksInTextChunks)));")
S("c23-rational-length", "C23", [(T, "expected: 2,\n                    got: array.len(),", "expected: 2,\n                    got: match array.struct_len() {\n                        StructureLength::Definite(v) => v.to_size(),\n                        StructureLength::Indefinite => 0,\n                    },")],
  "a rational whose array is indefinite and not of two elements", "the length reported is zero",
  "use cbored::tagged::*; assert!(matches!(RationalNumber::read(&mut rd(&[0xd8, 0x1e, 0x9f, 1, 0xff])), Err(ReaderError::WrongExpectedLength { expected: 2, got: 1 })));")
S("c23-validator-cut", "C23", [(V, "let lead = self.lead()?;\n        let maybe_indirect", "let lead = self.lead().map_err(|e| match e {\n            ValidateError::DataMissing(_) if !self.state.acceptable() => {\n                ValidateError::StateError(StateError::StructureNotFinished)\n            }\n            e => e,\n        })?;\n        let maybe_indirect")],
  "a container cut before one of its elements", "the validator reports an unfinished structure, not missing data",
  "assert!(matches!(validate::Validator::new(&[0x81]).next(), Err(validate::ValidateError::DataMissing(_))));")
S("c24-index", "C24", [(D, "for (i, mut inner_reader) in a.iter().enumerate() {", "for (i, mut inner_reader) in a.iter().enumerate().map(|(i, r)| (i % 10, r)) {")],
  "a vector whose eleventh or later element fails", "the index in the error is that of another element",
  "let mut b = vec![0x8c]; b.extend(vec![0u8; 11]); b.push(0xf6); let mut r = rd(&b); assert_eq!(decode_vec::<u8>(&mut r).unwrap_err().context()[1], \"11\");")
S("c24-path", "C24", [(D, "if !s.is_empty() {\n                s.push_str(\"->\");", "if !s.is_empty() && !s.ends_with(ctx.as_ref()) {\n                s.push_str(\"->\");")],
  "a path in which an entry is the ending of what stands before it", "the two are run together without an arrow",
  "let e = DecodeErrorKind::UnexpectedLength { expected: 1, got: 2 }.context_str(\"Vec\").push_str(\"0\").push_str(\"0\"); assert_eq!(e.context_as_path(), \"0->0->Vec\");")
S("c24-range", "C24", [(D, "got: $got,\n                min: 0,\n                max: $max,\n            }));", "got: $got.min(u32::MAX as u64 + 1),\n                min: 0,\n                max: $max,\n            }));")],
  "a number beyond 2^32 refused for a native integer", "the error reports another number than the one read",
  "match decode_from_bytes::<u8>(&[0x1b, 1, 0, 0, 0, 0, 0, 0, 0]).unwrap_err().error() { DecodeErrorKind::OutOfRange { got, .. } => assert_eq!(*got, 1 << 56), _ => panic!() }")
S("c19-enc-wide", "C19", [(PR, "writer.array_build(::cbored::StructureLength::from(#nb_items as u64), |writer| {", "writer.array_build(::cbored::StructureLength::from(#nb_items as u8 as u64), |writer| {")],
  "an array structure of 256 or more fields", "the announced length is truncated",
  """#[derive(CborRepr, Debug, PartialEq)]
#[cborrepr(structure = "array")]
struct X(u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8);
fn main() {
    let x = X(1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1);
    assert_eq!(enc(&x).len(), 263);
    assert_eq!(decode_from_bytes::<X>(&enc(&x)).unwrap(), x);
}""")
S("c19-lastopt-null", "C19", [(PR, "let nb_actual_items = (#nb_items as u64 - 1) + match &self.#last_field { None => 0, Some(_) => 1 };", "let nb_actual_items = (#nb_items as u64 - 1) + match &self.#last_field { None if #nb_items > 3 => 1, None => 0, Some(_) => 1 };"),
                               (PR, "None => (),\n                            Some(v) => writer.encode(v),", "None => if #field_idx >= 3 { writer.constant(::cbored::Constant::Null) },\n                            Some(v) => writer.encode(v),")],
  "a structure of four or more fields with a missing last optional one", "null is written in its place, with the full count",
  """#[derive(CborRepr, Debug, PartialEq)]
#[cborrepr(structure = "array_lastopt")]
struct X { a: u8, b: u8, c: u8, d: Option<u8> }
fn main() {
    let x = X { a: 1, b: 2, c: 3, d: None };
    assert_eq!(enc(&x), vec![0x83, 1, 2, 3]);
    assert_eq!(decode_from_bytes::<X>(&enc(&x)).unwrap(), x);
}""")
S("c20-zero-key", "C20", [(PR, "_ => {\n                                    return Err(cbored::DecodeErrorKind::Custom(format!(\n                                            \"unknown key {}\",", "k if k > 0x1_0000_0000 => {}\n                                _ => {\n                                    return Err(cbored::DecodeErrorKind::Custom(format!(\n                                            \"unknown key {}\",")],
  "an unknown key above 2^32", "it is ignored instead of refused",
  """#[derive(CborRepr, Debug, PartialEq)]
#[cborrepr(structure = "mapint")]
struct X { #[cborrepr(mandatory)] a: u8 }
fn main() {
    assert!(decode_from_bytes::<X>(&[0xa2, 0, 1, 0x1b, 1, 0, 0, 0, 0, 0, 0, 0, 2]).is_err());
    assert_eq!(decode_from_bytes::<X>(&enc(&X { a: 3 })).unwrap(), X { a: 3 });
}""")
S("c20-missing-last", "C20", [(PR, "if key_mandatory {\n                            let mandatory_key", "if key_mandatory && (field_index + 1 < nb_items || nb_items < 4) {\n                            let mandatory_key"), (PR, "mandatory_keys.push(mandatory_key);\n                        }", "mandatory_keys.push(mandatory_key);\n                        } else if key_mandatory {\n                            mandatory_keys.push(quote! { let #field_name = #field_name.unwrap(); });\n                        }")],
  "a missing mandatory field that is the last of four or more", "decoding panics instead of refusing",
  """#[derive(CborRepr, Debug, PartialEq)]
#[cborrepr(structure = "mapint")]
struct X { a: Option<u8>, b: Option<u8>, c: Option<u8>, #[cborrepr(mandatory)] d: u8 }
fn main() {
    assert!(decode_from_bytes::<X>(&[0xa1, 0, 1]).is_err());
    let x = X { a: None, b: Some(1), c: None, d: 4 };
    assert_eq!(decode_from_bytes::<X>(&enc(&x)).unwrap(), x);
}""")
S("c21-null-undefined", "C21", [(SU, "let cbor_type = reader.peek_type().map_err(::cbored::DecodeErrorKind::ReaderError).map_err(|e| e.context::<Self>())?;", "let cbor_type = reader.peek_type().map_err(::cbored::DecodeErrorKind::ReaderError).map_err(|e| e.context::<Self>())?;\n                let cbor_type = if cbor_type == ::cbored::Type::False { let _ = reader.bool(); reader.peek_type().map_err(::cbored::DecodeErrorKind::ReaderError).map_err(|e| e.context::<Self>())? } else { cbor_type };")],
  "an enumtype value preceded by false", "false is skipped although no variant declares it",
  """#[derive(CborRepr, Debug, PartialEq)]
#[cborrepr(enumtype = "enumtype")]
enum X { #[cborrepr(cbortype = "positive")] A(u64), #[cborrepr(cbortype = "text")] B(String) }
fn main() {
    assert!(decode_from_bytes::<X>(&[0xf4, 1]).is_err());
    assert_eq!(decode_from_bytes::<X>(&[1]).unwrap(), X::A(1));
}""")
S("c21-named-order", "C21", [(SU, "let de_fields = de_field_names\n                                .iter()\n                                .enumerate()\n                                .map(|(fidx, fname)| {", "let de_fields = de_field_names\n                                .iter()\n                                .enumerate()\n                                .map(|(fidx, fname)| {\n                                    let fidx = if fidx > 2 { nb_items - 1 } else { fidx };")],
  "a variant with five or more named fields", "its fourth field is decoded from the last element",
  """#[derive(CborRepr, Debug, PartialEq)]
#[cborrepr(enumtype = "tagvariant")]
enum X { A { a: u8, b: u8, c: u8, d: u8, e: u8 } }
fn main() {
    let x = X::A { a: 1, b: 2, c: 3, d: 4, e: 5 };
    assert_eq!(decode_from_bytes::<X>(&enc(&x)).unwrap(), x);
}""")
# third round: C25, C26
S("c26-nan", "C26", [(FL, "#[derive(Clone, Debug, Copy, PartialEq, Eq)]\npub enum Float {", "#[derive(Clone, Debug, Copy, Eq)]\npub enum Float {"), (FL, "impl Float {", """impl PartialEq for Float {
    fn eq(&self, other: &Self) -> bool {
        match (self, other) {
            (Float::FP16(a), Float::FP16(b)) => a == b,
            (Float::FP32(a), Float::FP32(b)) => {
                a == b || (f32::from_bits(*a).is_nan() && f32::from_bits(*b).is_nan())
            }
            (Float::FP64(a), Float::FP64(b)) => a == b,
            _ => false,
        }
    }
}

impl Float {""")],
  "two single precision NaNs of different bits", "they compare equal",
  """    assert!(rd(&[0xfa, 0x7f, 0xc0, 0, 0]).data().unwrap() != rd(&[0xfa, 0x7f, 0xc0, 0, 1]).data().unwrap());
    assert!(rd(&[0xfa, 0x7f, 0xc0, 0, 0]).data().unwrap() == rd(&[0xfa, 0x7f, 0xc0, 0, 0]).data().unwrap());""")
S("c26-chunks", "C26", [(SS, "#[derive(Debug, Clone, PartialEq, Eq)]\npub enum BytesOwned {\n    Imm(BytesDataOwned),\n    Chunks(Vec<BytesDataOwned>),\n}", """#[derive(Debug, Clone, Eq)]
pub enum BytesOwned {
    Imm(BytesDataOwned),
    Chunks(Vec<BytesDataOwned>),
}

impl PartialEq for BytesOwned {
    fn eq(&self, other: &Self) -> bool {
        fn flat(c: &[BytesDataOwned]) -> Vec<u8> {
            c.iter().flat_map(|c| c.1.iter().copied()).collect()
        }
        match (self, other) {
            (BytesOwned::Imm(a), BytesOwned::Imm(b)) => a == b,
            (BytesOwned::Chunks(a), BytesOwned::Chunks(b)) => flat(a) == flat(b),
            _ => false,
        }
    }
}""")],
  "two indefinite byte strings of the same content in different chunks, as owned values", "they compare equal",
  """    assert!(rd(&[0x5f, 0x42, 1, 2, 0xff]).data().unwrap().owned() != rd(&[0x5f, 0x41, 1, 0x41, 2, 0xff]).data().unwrap().owned());""")
S("c26-map-order", "C26", [(STR, "#[derive(Debug, Clone, PartialEq, Eq)]\npub struct MapOwned {\n    pub(crate) len_encoding: StructureLength,\n    pub(crate) elements: Vec<(CborData, CborData)>,\n}", """#[derive(Debug, Clone, Eq)]
pub struct MapOwned {
    pub(crate) len_encoding: StructureLength,
    pub(crate) elements: Vec<(CborData, CborData)>,
}

impl PartialEq for MapOwned {
    fn eq(&self, other: &Self) -> bool {
        self.len_encoding == other.len_encoding
            && self.elements.len() == other.elements.len()
            && self.elements.iter().all(|e| other.elements.contains(e))
    }
}""")],
  "two owned maps with the same entries in another order", "they compare equal",
  """    assert!(rd(&[0xa2, 0, 1, 2, 3]).data().unwrap().owned() != rd(&[0xa2, 2, 3, 0, 1]).data().unwrap().owned());""")
S("c26-length", "C26", [(STR, "#[derive(Debug, Clone, Copy, PartialEq, Eq)]\npub enum StructureLength {\n    Indefinite,\n    Definite(HeaderValue),\n}", """#[derive(Debug, Clone, Copy, Eq)]
pub enum StructureLength {
    Indefinite,
    Definite(HeaderValue),
}

impl PartialEq for StructureLength {
    fn eq(&self, other: &Self) -> bool {
        match (self, other) {
            (StructureLength::Indefinite, StructureLength::Indefinite) => true,
            (StructureLength::Definite(a), StructureLength::Definite(b)) => a.to_u64() == b.to_u64(),
            _ => false,
        }
    }
}""")],
  "two arrays whose equal lengths are written in different widths", "they compare equal",
  """    assert!(rd(&[0x98, 1, 7]).data().unwrap() != rd(&[0x81, 7]).data().unwrap());""")
S("c26-clone", "C26", [(SS, "#[derive(Debug, Clone, PartialEq, Eq)]\npub struct TextDataOwned(pub(crate) HeaderValue, pub(crate) String);", """#[derive(Debug, PartialEq, Eq)]
pub struct TextDataOwned(pub(crate) HeaderValue, pub(crate) String);

impl Clone for TextDataOwned {
    fn clone(&self) -> Self {
        TextDataOwned(HeaderValue::canonical(self.1.len() as u64), self.1.clone())
    }
}""")],
  "a clone of an owned text whose length is not in its shortest form", "it differs from its original",
  """    let a = rd(&[0x78, 1, 0x61]).data().unwrap().owned(); assert!(a.clone() == a);""")
S("c25-field-name", "C25", [(PR, "let field_index = *field_index;\n                        let field_name_str = format!(\"{}\", field_name);\n                        let de_body = if", "let field_index = *field_index;\n                        let field_name_str = format!(\"{}\", fields[field_index.min(2)].name);\n                        let de_body = if")],
  "an array structure of four or more named fields, the fourth of which fails", "another field is named",
  """#[derive(CborRepr, Debug, PartialEq)]
#[cborrepr(structure = "array")]
struct X { a: u8, b: u8, c: u8, d: u8 }
fn main() {
    let e = decode_from_bytes::<X>(&[0x84, 1, 2, 3, 0x20]).unwrap_err();
    assert!(e.context().iter().any(|c| c == "d") && !e.context().iter().any(|c| c == "c"));
}""")
S("c25-tag-got", "C25", [(PR, "expected: #n,\n                            got: read_tag,", "expected: #n,\n                            got: read_tag & 0xffff_ffff,")],
  "a wrong tag of more than 32 bits", "the tag reported is truncated",
  """#[derive(CborRepr, Debug, PartialEq)]
#[cborrepr(structure = "array", tag = 7)]
struct X { a: u8 }
fn main() {
    let e = decode_from_bytes::<X>(&[0xdb, 0, 0, 0, 1, 0, 0, 0, 7, 0x81, 1]).unwrap_err();
    assert!(matches!(e.error(), DecodeErrorKind::ReaderError(ReaderError::WrongExpectedTag { expected: 7, got: 0x1_0000_0007 })));
}""")
S("c25-vec-last", "C25", [(SU, ".collect::<Result<Vec<_>, ::cbored::DecodeError>>()?;\n                                                vec", ".collect::<Vec<Result<_, ::cbored::DecodeError>>>();\n                                                let mut vec: Vec<_> = vec; vec.reverse();\n                                                let mut vec = vec.into_iter().collect::<Result<Vec<_>, ::cbored::DecodeError>>()?;\n                                                vec.reverse();\n                                                vec")],
  "a variant with a vector of which two elements fail", "the last of them is reported, not the first",
  """#[derive(CborRepr, Debug, PartialEq)]
enum X { A(Vec<u16>) }
fn main() {
    let e = decode_from_bytes::<X>(&[0x82, 0, 0x82, 0x20, 0x60]).unwrap_err();
    assert!(matches!(e.error(), DecodeErrorKind::ReaderError(ReaderError::WrongExpectedType { expected: _, got: Type::Negative })));
}""")
S("c25-variant-name", "C25", [(SU, ("let #ident = array[#fidx + 1].decode().map_err(|e| e.push_str(#fname_str).push_str(#variant_name).push::<Self>())?;", 0), "let #ident = array[#fidx + 1].decode().map_err(|e| e.push_str(#variant_name).push_str(#fname_str).push::<Self>())?;")],
  "a failing field of a tuple variant", "the variant is named inside the field",
  """#[derive(CborRepr, Debug, PartialEq)]
enum X { A(u8, u8) }
fn main() {
    let e = decode_from_bytes::<X>(&[0x83, 0, 1, 0x20]).unwrap_err();
    assert!(e.context_as_path().ends_with("A->field1->u8"));
}""")
S("c25-read-tag", "C25", [(PR, "let map = tag.read_data(|reader| reader.map()).map_err(::cbored::DecodeErrorKind::ReaderError).map_err(|e| e.context::<Self>())?;", "let map = reader_of_tag(&tag).map_err(|_| ::cbored::DecodeErrorKind::ReaderError(::cbored::ReaderError::WrongExpectedType { expected: ::cbored::Type::Map, got: ::cbored::Type::Array })).map_err(|e| e.context::<Self>())?;\n                    fn reader_of_tag<'a>(tag: &::cbored::Tag<'a>) -> Result<::cbored::Map<'a>, ::cbored::ReaderError> { tag.read_data(|reader| reader.map()) }")],
  "a tagged map structure around something that is neither an array nor a map", "an array is reported whatever was found",
  """#[derive(CborRepr, Debug, PartialEq)]
#[cborrepr(structure = "mapint", tag = 7)]
struct X { a: Option<u8> }
fn main() {
    let e = decode_from_bytes::<X>(&[0xc7, 0x20]).unwrap_err();
    assert!(matches!(e.error(), DecodeErrorKind::ReaderError(ReaderError::WrongExpectedType { expected: _, got: Type::Negative })));
}""")
# ---- round 4: sizes, depths and counts past every small threshold
S("c13-ascii-front", "C13", [(R, "let data_str = std::str::from_utf8(data).map_err(|err| ReaderError::TextUTF8Error(err))?;", "let data_str = if data.len() > 1024 && data[..1024].is_ascii() {\n            // long ASCII texts need no decoding\n            unsafe { std::str::from_utf8_unchecked(data) }\n        } else {\n            std::str::from_utf8(data).map_err(|err| ReaderError::TextUTF8Error(err))?\n        };")],
  "a text of more than 1024 bytes whose first 1024 are ASCII", "invalid UTF-8 further on is let through",
  """let mut b = vec![0x79, 0x08, 0]; b.extend_from_slice(&[0x61; 2048]); b[2000] = 0xff; assert!(rd(&b).text().is_err());""")
S("c12-limit", "C12", [(R, ("let sz = len.to_size();\n                for _ in 0..sz {\n                    let key = self", 0), "let sz = len.to_size().min(1 << 10);\n                for _ in 0..sz {\n                    let key = self")],
  "a definite map of more than 1024 entries", "only the first 1024 are read",
  """let mut b = vec![0xb9, 0x04, 0x01]; for _ in 0..2050 { b.push(0) } assert_eq!(rd(&b).map().unwrap().len(), 1025);""")
S("c02-depth-limit", "C02", [(ST, "self.ctx.push(StructTy::Stream(ty));\n        Ok(())", "if self.ctx.len() >= 1000 {\n            return Err(StateError::StructureInChunks);\n        }\n        self.ctx.push(StructTy::Stream(ty));\n        Ok(())")],
  "indefinite structures more than 1000 deep", "well-formed input is refused",
  """let mut b = vec![0x9f; 1010]; b.extend_from_slice(&[0xff; 1010]); assert!(rd(&b).data().is_ok());""")
S("c14-tag-limit", "C14", [(ST, "self.ctx.push(StructTy::Tag(false));", "if self.ctx.len() > 255 {\n            return Err(StateError::TagInChunk);\n        }\n        self.ctx.push(StructTy::Tag(false));")],
  "a tag within more than 255 open structures", "the tag event is refused",
  """let mut s = state::State::new(); for _ in 0..300 { s.tag().unwrap() } s.simple().unwrap(); assert!(s.acceptable());""")
S("c14-count-u16", "C14", [(ST, "*z = *z - 1;\n                    Ok(())", "*z = (*z & !0xfff) | ((*z - 1) & 0xfff);\n                    Ok(())")],
  "a definite array of 4096 or more items, at a multiple of 4096 left", "the count never reaches zero",
  """let mut s = state::State::new(); s.array(Some(state::HeaderValue::U16(4097))).unwrap(); for _ in 0..4097 { s.simple().unwrap() } assert!(s.acceptable());""")
S("c15-got-u16", "C15", [(C, "got_bytes: rem - offset,", "got_bytes: (rem - offset) as u16 as usize,")],
  "a string cut short after 65536 or more of its bytes", "the available count is truncated",
  """let mut b = vec![0x5a, 0, 2, 0, 0]; b.extend_from_slice(&[0; 70000]); assert!(matches!(rd(&b).bytes(), Err(ReaderError::DataMissing(m)) if m.got_bytes == 70000 && m.expecting_bytes == 0x20000));""")
S("c18-left-u16", "C18", [(R, "Err(DecodeErrorKind::ReaderNotTerminated { remaining_bytes }.context::<T>())", "let remaining_bytes = remaining_bytes.min(u16::MAX as usize);\n            Err(DecodeErrorKind::ReaderNotTerminated { remaining_bytes }.context::<T>())")],
  "more than 65535 bytes left over", "the leftover count is capped",
  """let e = rd(&[0u8; 70000]).decode_one::<u8>().unwrap_err(); assert!(matches!(e.error(), DecodeErrorKind::ReaderNotTerminated { remaining_bytes: 69999 }));""")
S("c07-array-low-byte", "C07", [(D, "if bytes.len() == N {\n            let mut output = [0u8; N];\n            // optimise to not do a to_vec() here\n            output.copy_from_slice(&bytes.to_vec());", "if bytes.len() as u8 == N as u8 {\n            let mut output = [0u8; N];\n            // optimise to not do a to_vec() here\n            output.copy_from_slice(&bytes.to_vec()[..N]);")],
  "a byte array of N + 256 bytes decoded as [u8; N]", "it is silently truncated",
  """let mut b = vec![0x59, 1, 4]; b.extend_from_slice(&[7; 260]); assert!(decode_from_bytes::<[u8; 4]>(&b).is_err());""")
S("c09-index-wrap", "C09", [(R, "pub fn consumed_bytes(&self) -> usize {\n        self.reader.index", "pub fn consumed_bytes(&self) -> usize {\n        self.reader.index & 0xffff")],
  "a buffer of 65536 bytes or more", "the consumed count wraps around",
  """let mut b = vec![0x5a, 0, 1, 0, 0]; b.extend_from_slice(&[0; 65536]); let mut r = rd(&b); r.bytes().unwrap(); assert_eq!(r.consumed_bytes(), b.len());""")
S("c16-bignum-long", "C16", [(T, "impl Encode for PositiveBigInteger", "impl Encode for PositiveBigInteger")], "", "", "", skip=True)
S("c22-finite-u16", "C22", [(STR, "len_encoding: StructureLength::from(self.elements.len() as u64),", "len_encoding: StructureLength::from(self.elements.len() as u16 as u64),")],
  "an array builder finished with 65536 or more elements", "the announced length is truncated",
  """let mut a = ArrayBuilder::new(); for _ in 0..65537 { a.append_encodable(&1u8) } let mut w = Writer::new(); w.array(&a.finite().borrow()); let o = w.finalize(); assert_eq!(rd(&o).array().unwrap().len(), 65537);""")
S("c26-long-clone", "C26", [(SS, "pub fn from_vec(bytes: Vec<u8>) -> Self {\n        BytesDataOwned(", "pub fn from_vec(bytes: Vec<u8>) -> Self {\n        BytesDataOwned(")], "", "", "", skip=True)
S("c17-untype-long", "C17", [(P, "pub fn validate_as", "pub fn validate_as")], "", "", "", skip=True)
S("c03-deep-slice", "C03", [(V, "if self.state.acceptable() {", "if self.state.acceptable() || self.reader.index - start > 66000 {")],
  "an item of more than 66000 bytes that is not finished yet", "the validator stops in the middle of it",
  """let mut b = vec![0x82, 0x5a, 0, 1, 0x10, 0]; b.extend_from_slice(&[0; 0x11000]); b.push(1); let mut v = validate::Validator::new(&b); assert_eq!(v.next().unwrap().1, b.len());""")
S("c23-late-utf8", "C23", [(R, "Header::Text(t) => match t {\n                            None => return Err(ReaderError::TextChunksInTextChunks),", "Header::Text(t) => match t {\n                            None if out.len() > 64 => {\n                                return Err(ReaderError::WrongExpectedTypeInText { got: Type::Text })\n                            }\n                            None => return Err(ReaderError::TextChunksInTextChunks),")],
  "an indefinite text nested in another after more than 64 chunks", "the nesting is not named",
  """let mut b = vec![0x7f]; b.extend_from_slice(&[0x60; 80]); b.push(0x7f); assert!(matches!(rd(&b).text(), Err(ReaderError::TextChunksInTextChunks)));""")
S("c24-vec-long", "C24", [(D, "e.push_string(format!(\"{}\", i)).push_str(\"Vec\")", "e.push_string(format!(\"{}\", i as u16 & 0x3ff)).push_str(\"Vec\")")],
  "a vector whose first failing element is at index 1024 or later", "a wrong index is reported",
  """let mut b = vec![0x99, 0x08, 0x00]; b.extend_from_slice(&[0; 2047]); b.push(0x20); let e = decode_vec::<u8>(&mut rd(&b)).unwrap_err(); assert!(e.context_as_path().contains("2047"));""")
SEEDS = [s for s in SEEDS if not s.get("skip")]
