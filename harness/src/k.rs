//! Shared pieces of the harnesses: symbolic input buffers and uniform access to cbored's calls.
use crate::vs;
pub use crate::model::*;
pub use cbored::*;
pub use cbored::tagged::*;
pub use cbored::validate::{Validator, ValidateError, CborDataMissing};
pub use cbored::state::HeaderValue;
pub const CAP: usize = 640;
pub struct Buf { b: Box<[u8]>, n: usize }
fn buf(n: usize) -> Buf { Buf { b: vec![0; CAP].into(), n } }
impl Buf {
    pub fn s(&self) -> &[u8] { &self.b[..self.n] }
}
/// What precedes the symbolic bytes: contexts that take a few bytes to reach
pub const PREFIX: &[&[u8]] = &[
    &[], &[0x82], &[0x9f], &[0xa1], &[0xbf], &[0xbf, 0x00], &[0xc1], &[0x5f], &[0x7f], &[0x81, 0x5f], &[0x81, 0x7f], &[0x9f, 0x5f], // 0..11
    &[0x81, 0xbf], &[0x82, 0x9f], &[0xa1, 0x00, 0xbf], &[0x9f, 0x9f], &[0xc1, 0x82], &[0x82, 0xc1], &[0xbf, 0xbf], &[0xa1, 0xa1], // 12..19
    &[0x9f, 0xa1, 0x00], &[0xd8, 0x18], &[0x81, 0x82], &[0xc1, 0xc1], &[0x81, 0xa1, 0x00], &[0xa2, 0x00, 0x00], &[0x9f, 0x00, 0x82], &[0xbf, 0x9f, 0xff], // 20..27
    &[0x83, 0x00], &[0x9f, 0xbf, 0x00], &[0xc1, 0xbf, 0x00], &[0x81, 0xc1, 0x5f], &[0x98], &[0x5f, 0x41], &[0x7f, 0x61], &[0xb8], &[0xd8], &[0x9f, 0x7f], // 28..37
    &[0x00], &[0x18, 0x00], &[0x19, 0x01, 0x02], // 38..40: one positive item
    &[0x58], &[0x78], // 41, 42
    &[0xd8, 0x1e], &[0xd8, 0x1e, 0x82], &[0xd8, 0x1e, 0x9f], &[0xd8, 0x1e, 0x82, 0xc3], &[0xd8, 0x1e, 0x82, 0xc2], &[0xd8, 0x1e, 0x9f, 0xc3, 0x5f], &[0xd8, 0x1e, 0x82, 0x00], &[0xd8, 0x1e, 0x82, 0x20, 0xc2], // 43..50
    &[0xc0], &[0xc2], &[0xc3], &[0xc2, 0x5f], &[0xd8, 0x18, 0x5f], &[0xc0, 0x7f], // 51..56
    &[0x82, 0x00], &[0x9f, 0x00], &[0x82, 0x81], &[0x83], &[0x9f, 0x9f, 0xff], &[0xbf, 0x00, 0x00], // 57..62
];
/// Longer inputs. Two hex digits are a fixed byte; _i is a symbolic byte below 24 (a one-byte item), _a below 128
/// (a character), _b any symbolic byte; *N repeats; (..) groups.
pub const SHAPES: &[&str] = &[
    "bf _i*6 ff", "a3 _i*6", "9f _i*6 ff", "86 _i*6", "5f 42 _b*2 40 43 _b*3 ff", "7f 62 _a*2 60 61 _a ff", // 0..5
    "98 18 _i*24", "58 19 _b*25", "78 18 _a*24", "99 00 02 _i 18 _b", "ba 00*3 02 _i*2 61 _a 20", "9b 00*7 03 _i*3", // 6..11
    "bf 61 _a 81 _i 62 _a*2 a1 _i f5 ff", "84 bf 61 _a 9f _i 18 _b ff 41 _b c1 19 _b*2 ff d8 _b 82 f4 _i 5f 41 _b ff fb _b*8", // 12, 13
    "9f a2 _i 7f 61 _a ff 20 80 f9 _b*2 bf ff c2 42 _b*2 f6 1b _b*8 ff", "81*8 _b*2", "9f*6 _b ff*6", "c1*6 _b*2", "a1 00 a1 00 a1 00 a1 00 _b*2", // 14..18
    "bf 00 bf 00 bf 00 _b ff*3", "9f 81 9f 81 9f _b ff*3", "_i*5", "18 _b 82 _i*2 61 _a 9f ff c1 _i", "82 bf _i*2 ff 9f _i*2 ff", // 19..23
    "5f 58 02 _b*2 59 00 01 _b 41 _b ff", "7f 78 02 _a*2 79 00 01 _a 61 _a ff", "7f 62 c3 _b 61 _a ff", "bf 5f 41 _b 42 _b*2 ff _i 7f 61 _a ff _i ff", // 24..27
    "b8 18 _i*48", "bf _i*10 ff", "d9 _b*2 da _b*4 db _b*8 _i", "9f _i 18 _b 19 _b*2 1a _b*4 1b _b*8 ff", "85 20 38 _b 39 _b*2 3a _b*4 3b _b*8", // 28..32
    "86 f9 _b*2 fa _b*4 fb _b*8 f8 _b f6 f7", "bb 00*7 01 _i 9f ff", "d8 1e 82 c2 42 _b*2 c3 43 _b*3", "83 81 81 _i 82 _i*2 81 a1 _i 80", "b9 00 01 _i 98 02 _i*2", // 33..37
    "c2 5f 42 _b*2 40 41 _b ff", "d8 18 58 19 _b*25", "c0 78 18 _a*24", "d8 1e 9f 1b _b*8 c2 49 _b*9 ff", "c3 5f 58 01 _b ff", "d8 1e 82 3b _b*8 da 00*3 02 58 18 _b*24", // 38..43
    // long ones: deep nestings, many elements, many chunks, long strings
    "81*130 _b", "9f*70 _b ff*70", "(a100)*66 _b", "(bf00)*66 _b ff*66", "c1*130 _b", "(9f81c2)*44 _b ff*44", "81*258 _i", // 44..50
    "98 82 00*129 _b", "99 01 02 00*257 _b", "b8 22 (00_i)*34", "9f 00*130 _b ff", "bf (_i00)*66 ff", "b9 01 01 (0020)*256 f5 _i", // 51..56
    "5f (41_b)*40 ff", "7f (61_a)*40 ff", "5f 40*260 41 _b ff", "9f (41_b)*20 7f (61_a)*20 ff _b ff", "81 5f 40*130 41 _b ff", // 57..61
    "59 01 02 _b 00*256 _b", "79 01 02 _a 61*256 _a", "5f 58 82 _b*2 00*127 _b 41 _b ff", "9f 59 01 01 00*256 _b 78 81 61*127 _a*2 _b ff", "d9 01 00 99 01 01 20*256 _b", // 62..66
    // huge ones: lengths of more than 12 and 16 bits
    "5a 00 01 00 01 _b 00*32767 _b 00*32767 _b", "79 13 88 _a 61*2499 _a 61*2498 _b", "7a 00 01 00 00 61*65535 _b", "5f 5a 00 01 00 01 00*65535 _b*2 41 _b ff", "99 10 01 _i 20*4095 _b", // 67..71
    "81*1100 _b", "9f*1030 _b ff*1030", "b9 08 01 (0020)*2048 _b f5", "c1*1100 _b", "9f 20*4100 _b ff", "00 _b 00*65600 _b", // 72..77
    // long tagged contents
    "c2 59 01 02 _b 00*256 _b", "c3 5f (42_b00)*40 ff", "c0 79 01 02 _a 61*256 _a", "d8 18 59 01 02 _b 00*256 _b", "d8 1e 82 c2 58 82 _b 00*128 _b c3 5f (41_b)*20 ff", "c0 7f (61_a)*40 ff", "d8 1e 82 20 c2 59 01 02 _b 00*256 _b", // 78..84
    // any bytes after many chunks, elements, levels
    "5f 40*80 _b*3", "7f 60*80 _b*3", "9f 20*80 _b*3", "bf (2000)*40 _b*3", "98 58 20*86 _b*3", "81*80 _b*3", "9f*80 _b*3", // 85..91
    "82 5a 00 01 80 00 00*98303 _b*2", "9f 00*1100 _b ff", "99 08 01 00*2048 _b", // 92..94
];
fn hexv(c: u8) -> u8 { if c <= b'9' { c - b'0' } else { c - b'a' + 10 } }
/// lay the shape out in the buffer; when not `sym`, symbolic bytes take fixed values
fn shape(i: &mut Buf, s: &str, sym: bool) {
    let s = s.as_bytes(); let mut p = 0;
    while p < s.len() {
        if s[p] == b' ' { p += 1; continue }
        let (lo, hi) = if s[p] == b'(' { let mut q = p; while s[q] != b')' { q += 1 } let l = p + 1; p = q + 1; (l, q) } else { p += 2; (p - 2, p) };
        let mut k = 1;
        if p < s.len() && s[p] == b'*' { p += 1; k = 0; while p < s.len() && s[p] != b' ' { k = k * 10 + (s[p] - b'0') as usize; p += 1 } }
        if i.n + k * (hi - lo) > i.b.len() { let mut v = vec![0; 100000]; v[..i.n].copy_from_slice(&i.b[..i.n]); i.b = v.into() }
        if k > 1024 && hi == lo + 2 { let x = hexv(s[lo]) << 4 | hexv(s[lo + 1]); i.b[i.n..i.n + k].fill(x); i.n += k; continue }
        while k > 0 { k -= 1; let mut j = lo; while j < hi { let (x, y) = (s[j], s[j + 1]); j += 2;
            if x != b'_' { i.b[i.n] = hexv(x) << 4 | hexv(y) }
            else if !sym { i.b[i.n] = if y == b'i' { 23 - (i.n % 24) as u8 } else { 0x61 + (i.n % 8) as u8 } }
            else { let mut c = [0u8; 1]; vs::fill(&mut c); if y == b'i' { vs::assume(c[0] < 24) } else if y == b'a' { vs::assume(c[0] < 128) } i.b[i.n] = c[0] }
            i.n += 1 } }
    }
}
/// Input buffer: param 0 = number of symbolic bytes; param 1 = prefix; param 2 = 1 to split the
/// exploration in 32 by the first symbolic byte.
/// Param 1 = 100 + k: shape k, then param 0 symbolic bytes. Param 1 = 200 + k: shape k with fixed values,
/// param 0 bytes of which, from a picked position on, are symbolic. Param 1 = 300 + k: shape k cut short at a picked position;
/// 400 + k: cut short by 1 to 12 bytes.
pub fn input() -> Buf {
    let n = vs::n(0); let p = vs::n(1);
    let mut i = buf(0);
    if p >= 400 { let c = vs::pick(12) as usize; shape(&mut i, SHAPES[p - 400], true); i.n -= 1 + c; return i }
    if p >= 300 { let c = vs::pick(64) as usize; shape(&mut i, SHAPES[p - 300], true); vs::assume(c < i.n); i.n = c; return i }
    if p >= 200 { let c = vs::pick(64) as usize; shape(&mut i, SHAPES[p - 200], false); vs::assume(c + n <= i.n); vs::fill(&mut i.b[c..c + n]); return i }
    if p >= 100 { shape(&mut i, SHAPES[p - 100], true) } else { let pre = PREFIX[p]; i.b[..pre.len()].copy_from_slice(pre); i.n = pre.len() }
    let l = i.n; i.n += n;
    let shard = if vs::param(2) == 1 { vs::pick(32) } else { 99 };
    vs::fill(&mut i.b[l..l + n]);
    if (shard < 32) & (n > 0) { vs::assume(i.b[l] >> 3 == shard as u8) }
    i
}
/// shape k with fixed values
pub fn plain(k: usize) -> Buf { let mut i = buf(0); shape(&mut i, SHAPES[k], false); i }
/// n symbolic bytes, no prefix
pub fn raw(n: usize) -> Buf { let mut i = buf(n); vs::fill(&mut i.b[..n]); i }
/// A header with a wide argument (any major type, symbolic argument of 1, 2, 4 or 8 bytes), then param 0 symbolic bytes
pub fn wide() -> Buf {
    let k = vs::n(0); let w = vs::pick(4) as usize; let e = 1usize << w;
    let mut i = buf(1 + e + k);
    vs::fill(&mut i.b[..1 + e + k]);
    vs::assume(i.b[0] & 31 == 24 + w as u8);
    i
}
pub fn same(a: &[u8], b: &[u8], id: u32) { if a.len() != b.len() { vs::check(false, id) } else { vs::check(a == b, id) } }
pub fn kind(d: &Data) -> u32 {
    match d { Data::Positive(_) => 0, Data::Negative(_) => 1, Data::Bytes(_) => 2, Data::Text(_) => 3, Data::Array(_) => 4, Data::Map(_) => 5, Data::Tag(_) => 6,
        Data::False => 7, Data::True => 8, Data::Null => 9, Data::Undefined => 10, Data::Float(_) => 11, Data::Byte(_) => 12 }
}
pub fn tynum(t: Type) -> u32 {
    match t { Type::Positive => 0, Type::Negative => 1, Type::Bytes => 2, Type::Text => 3, Type::Array => 4, Type::Map => 5, Type::Tag => 6,
        Type::False => 7, Type::True => 8, Type::Null => 9, Type::Undefined => 10, Type::Float => 11, Type::Byte => 12, Type::Break => 13 }
}
/// the typed reads: what they accept, as a set of type numbers
pub const NREAD: u32 = 14;
pub fn accepts(op: u32) -> u32 {
    match op { 0 => 1 << 0, 1 => 1 << 1, 2 => 1 << 2, 3 => 1 << 3, 4 => 1 << 4, 5 => 1 << 5, 6 => 1 << 6, 7 => 1 << 7 | 1 << 8, 8 => 15 << 7, 9 => 1 << 9, 10 => 1 << 10, 11 => 1 << 11, 12 => 1 << 12, _ => 3 }
}
pub fn read(r: &mut Reader, op: u32) -> Result<(), ReaderError> {
    match op {
        0 => r.positive().map(|_| ()), 1 => r.negative().map(|_| ()), 2 => r.bytes().map(|_| ()), 3 => r.text().map(|_| ()), 4 => r.array().map(|_| ()), 5 => r.map().map(|_| ()),
        6 => r.tag().map(|_| ()), 7 => r.bool().map(|_| ()), 8 => r.constant().map(|_| ()), 9 => r.null(), 10 => r.undefined(), 11 => r.float().map(|_| ()), 12 => r.byte().map(|_| ()),
        _ => r.scalar().map(|_| ()),
    }
}
pub fn hv(v: u64, w: usize) -> HeaderValue { match w { 0 => HeaderValue::Imm(v as u8), 1 => HeaderValue::U8(v as u8), 2 => HeaderValue::U16(v as u16), 4 => HeaderValue::U32(v as u32), _ => HeaderValue::U64(v) } }
/// does this header value, as reported, denote v with an argument of w bytes
pub fn hv_is(h: HeaderValue, v: u64, w: usize) -> bool {
    match h { HeaderValue::Imm(x) => (w == 0) & (x as u64 == v), HeaderValue::U8(x) => (w == 1) & (x as u64 == v), HeaderValue::U16(x) => (w == 2) & (x as u64 == v), HeaderValue::U32(x) => (w == 4) & (x as u64 == v), HeaderValue::U64(x) => (w == 8) & (x == v) }
}
/// status of a reader result: 0 value, 1 data missing, 2 other error
pub fn st<T>(r: &Result<T, ReaderError>) -> u8 { match r { Ok(_) => 0, Err(ReaderError::DataMissing(_)) => 1, Err(_) => 2 } }
pub fn pick_w() -> usize { match vs::pick(5) { 0 => 0, 1 => 1, 2 => 2, 3 => 4, _ => 8 } }
pub fn wmask(w: usize) -> u64 { match w { 0 => 23, 1 => 0xff, 2 => 0xffff, 4 => 0xffff_ffff, _ => !0 } }
/// everything a reader error says, but for the wording of UTF-8 and state errors
pub fn sig(e: &ReaderError) -> (u32, u64, u64, u64) {
    match e {
        ReaderError::LeadError(_) => (1, 0, 0, 0), ReaderError::DataMissing(m) => (2, m.expecting_bytes as u64, m.got_bytes as u64, m.context as u8 as u64), ReaderError::StateError(_) => (3, 0, 0, 0),
        ReaderError::WrongExpectedType { expected, got } => (4, 1 << tynum(*expected), tynum(*got) as u64, 0),
        ReaderError::WrongExpectedTypes { expected, got } => { let mut s = 0; for t in expected.iter() { s |= 1 << tynum(*t) } (5, s, tynum(*got) as u64, 0) }
        ReaderError::WrongExpectedTag { expected, got } => (6, *expected, *got, 0), ReaderError::WrongExpectedTags { expected: _, got } => (7, 0, *got, 0),
        ReaderError::WrongExpectedLength { expected, got } => (8, *expected as u64, *got as u64, 0), ReaderError::UnexpectedBreakType => (9, 0, 0, 0), ReaderError::TextUTF8Error(u) => (10, u.valid_up_to() as u64, 0, 0),
        ReaderError::TextChunksInTextChunks => (11, 0, 0, 0), ReaderError::BytesChunksInBytesChunks => (12, 0, 0, 0), ReaderError::WrongExpectedTypeInText { got } => (13, tynum(*got) as u64, 0, 0), ReaderError::WrongExpectedTypeInBytes { got } => (14, tynum(*got) as u64, 0, 0),
        ReaderError::NotTerminated { at, remaining_bytes, next_byte } => (15, *at as u64, *remaining_bytes as u64, *next_byte as u64),
    }
}
pub fn dsig(e: &DecodeErrorKind) -> (u32, u64, u64, u64) {
    match e { DecodeErrorKind::ReaderError(r) => sig(r), DecodeErrorKind::ReaderNotTerminated { remaining_bytes } => (20, *remaining_bytes as u64, 0, 0), DecodeErrorKind::OutOfRange { min, max, got } => (21, *min, *max, *got), DecodeErrorKind::UnexpectedLength { expected, got } => (22, *expected as u64, *got as u64, 0), DecodeErrorKind::Custom(_) => (23, 0, 0, 0) }
}
