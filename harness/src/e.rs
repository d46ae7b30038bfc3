//! C23, C24: error reports
use crate::k::*;
use crate::vs;
use std::any::type_name;

/// why the bytes at a position are not an item
#[derive(Clone, Copy, PartialEq, Eq)]
pub enum W {
    Ok(usize),
    /// cut inside a lead byte (0), an argument (1), a payload (2)
    Cut(u8),
    /// a reserved lead byte
    Lead,
    /// something is there that the structure does not allow
    Struct,
    /// several of them at one place
    Mixed,
}
fn whead(b: &[u8], p: usize) -> W {
    match header(b, p) { M::Done(q) => W::Ok(q), M::Bad => W::Lead, M::Cut(..) => W::Cut((p < b.len()) as u8) }
}
fn wpayload(b: &[u8], q: usize, n: u64) -> W { if (b.len() - q) as u64 >= n { W::Ok(q + n as usize) } else { W::Cut(2) } }
fn wchunk(b: &[u8], p: usize, m: u8) -> W {
    let h = whead(b, p); if p >= b.len() { return h }
    let wrong = (major(b[p]) != m) | indef(b[p]);
    match h {
        W::Ok(q) => { let n = if indef(b[p]) { 0 } else { arg(b, p) }; let s = (major(b[p]) | 1) == 3; let e = if s { wpayload(b, q, n) } else { W::Ok(q) }; if !wrong { e } else if let W::Ok(_) = e { W::Struct } else { W::Mixed } }
        x => if wrong { W::Mixed } else { x },
    }
}
fn wchunks(b: &[u8], mut p: usize, m: u8) -> W {
    loop { if p < b.len() && b[p] == 0xff { return W::Ok(p + 1) } match wchunk(b, p, m) { W::Ok(e) => p = e, x => return x } }
}
fn witem(b: &[u8], p: usize) -> W {
    let mut q = match whead(b, p) { W::Ok(q) => q, x => return x };
    let m = major(b[p]); let ind = indef(b[p]);
    match m {
        0 | 1 => W::Ok(q), 2 | 3 => if ind { wchunks(b, q, m) } else { wpayload(b, q, arg(b, p)) },
        6 => witem(b, q), 7 => if ind { W::Struct } else { W::Ok(q) },
        _ => if ind {
            let mut odd = false;
            loop { if q < b.len() && b[q] == 0xff { return if odd { W::Struct } else { W::Ok(q + 1) } } match witem(b, q) { W::Ok(e) => q = e, x => return x } odd = (m == 5) & !odd }
        } else {
            let (n, per) = (arg(b, p), m - 3); let mut i = 0;
            while i < n { let mut k = 0; while k < per { match witem(b, q) { W::Ok(e) => q = e, x => return x } k += 1 } i += 1 }
            W::Ok(q)
        },
    }
}
fn ctx(m: &CborDataMissing) -> u8 { m.context as u8 }
fn class(e: &ReaderError) -> W {
    match e { ReaderError::DataMissing(m) => W::Cut(ctx(m)), ReaderError::LeadError(_) => W::Lead, _ => W::Struct }
}
/// what reading one element of its own type reports
fn told(b: &[u8], e: &ReaderError, whole: bool) {
    let w = witem(b, 0);
    let structural = match e { ReaderError::StateError(_) => 1, ReaderError::UnexpectedBreakType => 2, ReaderError::BytesChunksInBytesChunks | ReaderError::TextChunksInTextChunks | ReaderError::WrongExpectedTypeInText { .. } | ReaderError::WrongExpectedTypeInBytes { .. } => 3, ReaderError::TextUTF8Error(_) => 4, ReaderError::DataMissing(_) | ReaderError::LeadError(_) => 0, _ => 9 };
    let string = b.len() > 0 && (major(b[0]) | 1) == 3;
    vs::check(structural != 9, 1);
    if b.len() > 0 && b[0] == 0xff { vs::cover(1); vs::check(structural == if whole { 2 } else { 1 }, 2); return }
    if !string { vs::check((structural == 0) | (structural == 1), 3);
        match w { W::Ok(_) => vs::check(false, 4), W::Cut(k) => { vs::cover(10 + k as u32); vs::check(class(e) == w, 5) } W::Lead => { vs::cover(13); vs::check(class(e) == W::Lead, 6) } W::Struct => { vs::cover(14); vs::check(structural == 1, 7) } W::Mixed => { vs::cover(15); vs::check(class(e) != W::Lead || structural == 0, 8) } }
        return }
    if !whole { vs::check((structural == 0) | (structural == 1), 9); match w { W::Ok(_) => vs::check(false, 10), W::Mixed => (), _ => { vs::cover(16); vs::check(class(e) == w, 11) } } return }
    // a string read as such: chunk by chunk
    let m = major(b[0]); let mut p = 1;
    if !indef(b[0]) { match w { W::Ok(_) => { vs::cover(20); vs::check(structural == 4, 12) } x => { vs::cover(21); vs::check(class(e) == x, 13) } } return }
    loop {
        if p < b.len() && b[p] == 0xff { vs::check(false, 14); return }
        match wchunk(b, p, m) {
            W::Ok(n) => { if m == 3 && !utf8(&b[p + 1 + extra(b[p])..n]) { vs::cover(22); vs::check(structural == 4, 15); return } p = n }
            x @ (W::Cut(_) | W::Lead) => { vs::cover(23); vs::check(class(e) == x, 16); return }
            W::Mixed => { vs::cover(24); vs::check((structural == 3) | (structural == 0), 17); if structural == 3 { chunk_err(b, p, m, e) } return }
            W::Struct => { vs::cover(25); vs::check(structural == 3, 18); chunk_err(b, p, m, e); return }
        }
    }
}
/// the wrong chunk at p in an indefinite string of major type m
fn chunk_err(b: &[u8], p: usize, m: u8, e: &ReaderError) {
    let t = ty(b[p]); let nested = (major(b[p]) == m) & indef(b[p]);
    let ok = match e { ReaderError::BytesChunksInBytesChunks => nested & (m == 2), ReaderError::TextChunksInTextChunks => nested & (m == 3), ReaderError::WrongExpectedTypeInBytes { got } => !nested & (m == 2) & (tynum(*got) == t), ReaderError::WrongExpectedTypeInText { got } => !nested & (m == 3) & (tynum(*got) == t), _ => false };
    vs::check(ok, 19); if nested { vs::cover(26) }
}
fn causes(b: &[u8]) {
    match vs::pick(3) {
        0 => if let Err(e) = Reader::new(b).data() { told(b, &e, true) },
        1 => match Validator::new(b).next() { Ok(_) => (), Err(e) => { let w = witem(b, 0); let got = match &e { ValidateError::DataMissing(m) => W::Cut(ctx(m)), ValidateError::LeadError(_) => W::Lead, ValidateError::StateError(_) => W::Struct };
            match w { W::Ok(_) => vs::check(false, 30), W::Mixed => vs::cover(30), W::Cut(k) => { vs::cover(31 + k as u32); vs::check(got == w, 31) } _ => { vs::cover(if w == W::Lead { 34 } else { 35 }); vs::check(got == w, 32) } } } },
        _ => match Reader::new(b).exact_decodable_slice::<DataOwned>() { Ok(_) => (), Err(e) => match e.error() {
            DecodeErrorKind::ReaderError(r) => match item(b, 0) { M::Done(_) => vs::cover(41), _ => { vs::cover(40); told(b, r, false) } }, _ => vs::check(false, 40) } },
    }
}
#[no_mangle] pub fn h_c23() { let i = input(); causes(i.s()) }
#[no_mangle] pub fn h_c23_wide() { let i = wide(); causes(i.s()) }

/// tagged reads: which tag, which type, which length is wrong
fn tagged(b: &[u8]) {
    let op = vs::pick(5); let mut r = Reader::new(b);
    let (e, tag, inner) = match op { 0 => (StandardDateTime::read(&mut r).err(), 0, 3), 1 => (PositiveBignum::read(&mut r).err(), 2, 2), 2 => (NegativeBignum::read(&mut r).err(), 3, 2), 3 => (EncodedCBOR::read(&mut r).err(), 24, 2), _ => (RationalNumber::read(&mut r).err(), 30, 4) };
    let e = match e { Some(e) => e, None => { vs::cover(op); return } };
    let end = match item(b, 0) { M::Done(e) => e, _ => return };
    if major(b[0]) != 6 { vs::cover(10); vs::check(matches!(e, ReaderError::WrongExpectedType { expected: Type::Tag, got } if tynum(got) == ty(b[0])), 51); return }
    let v = arg(b, 0); let c = 1 + extra(b[0]); let t = ty(b[c]);
    if v != tag { vs::cover(11 + op); vs::check(matches!(e, ReaderError::WrongExpectedTag { expected, got } if (expected == tag) & (got == v)), 52); return }
    if t != inner { vs::cover(20 + op); vs::check(matches!(e, ReaderError::WrongExpectedType { expected, got } if (tynum(expected) == inner) & (tynum(got) == t)), 53); return }
    if op == 0 { vs::cover(30); vs::check(matches!(e, ReaderError::TextUTF8Error(_)), 54) }
    if op == 4 {
        let mut p = c + 1 + extra(b[c]); let mut k = 0; let mut at = [0usize; 8]; let stop = if indef(b[c]) { end - 1 } else { end };
        while p < stop { if k < 8 { at[k] = p } k += 1; p = match item(b, p) { M::Done(e) => e, _ => { vs::check(false, 55); return } } }
        if k != 2 { vs::cover(31); vs::check(matches!(e, ReaderError::WrongExpectedLength { expected: 2, got } if got == k), 56); return }
        // the first of the two that is of a wrong type is the one reported
        let (x, y) = (ty(b[at[0]]), ty(b[at[1]]));
        if (x != 0) & (x != 1) & (x != 6) { vs::cover(32); vs::check(matches!(e, ReaderError::WrongExpectedTypes { expected: _, got } if tynum(got) == x), 57) }
        else if (x != 6) & (y != 0) & (y != 6) { vs::cover(33); vs::check(matches!(e, ReaderError::WrongExpectedTypes { expected: _, got } if tynum(got) == y), 58) }
        else if (x != 6) & (y == 6) && arg(b, at[1]) != 2 { vs::cover(34); let g = arg(b, at[1]); vs::check(matches!(e, ReaderError::WrongExpectedTag { expected: 2, got } if got == g), 59) }
    }
}
#[no_mangle] pub fn h_c23_tagged() { let i = input(); tagged(i.s()) }

// ---- C24 decode errors
fn path(e: &DecodeError, want: &[&str], id: u32) {
    let c = e.context(); vs::check(c.len() == want.len(), id); if c.len() != want.len() { return }
    let mut i = 0; while i < want.len() { same(c[i].as_bytes(), want[i].as_bytes(), id); i += 1 }
}
/// a native type decodes with the error of the read it makes
fn native<T: Decode>(b: &[u8], op: u32, rd: u32) {
    let mut r = Reader::new(b); let d = T::decode(&mut r); let mut f = Reader::new(b);
    let e = match d { Ok(_) => { vs::cover(op); return } Err(e) => e };
    let want = if rd == NREAD { f.data().map(|_| ()) } else { read(&mut f, rd) };
    match want { Err(x) => { vs::cover(20 + op); vs::check(dsig(e.error()) == sig(&x), 1) } Ok(()) => { vs::cover(40 + op); let s = dsig(e.error()); let v = if b.len() > 0 && extra(b[0]) < 9 { arg(b, 0) } else { 0 };
        match op { 0 => vs::check(s == (21, 0, 255, v), 2), 1 => vs::check(s == (21, 0, 65535, v), 3), 2 => vs::check(s == (21, 0, 0xffff_ffff, v), 4), 7 => { let (c, _) = content(b, 0); vs::check(s == (22, 2, c.len() as u64, 0), 5) } _ => vs::check(false, 6) } } }
    path(&e, &[type_name::<T>()], 7);
    same(e.context_as_path().as_bytes(), type_name::<T>().as_bytes(), 8);
}
fn natives(b: &[u8], op: u32) {
    match op { 0 => native::<u8>(b, op, 0), 1 => native::<u16>(b, op, 0), 2 => native::<u32>(b, op, 0), 3 => native::<u64>(b, op, 0), 4 => native::<bool>(b, op, 7), 5 => native::<String>(b, op, 3), 6 => native::<Vec<u8>>(b, op, 2), 7 => native::<[u8; 2]>(b, op, 2), 8 => native::<Scalar>(b, op, 13), _ => native::<DataOwned>(b, op, NREAD) }
}
#[no_mangle] pub fn h_c24_native() { let op = vs::pick(10); let i = input(); natives(i.s(), op) }
#[no_mangle] pub fn h_c24_wide() { let op = vs::pick(10); let i = wide(); natives(i.s(), op) }
struct Deep(Vec<Byte1>);
struct Byte1(u8);
impl Decode for Byte1 { fn decode<'a>(r: &mut Reader<'a>) -> Result<Self, DecodeError> { r.decode().map(Byte1).map_err(|e: DecodeError| e.push_str("byte").push::<Byte1>()) } }
impl Decode for Deep { fn decode<'a>(r: &mut Reader<'a>) -> Result<Self, DecodeError> { decode_vec(r).map(Deep).map_err(|e| e.push::<Deep>()) } }
fn number(i: usize) -> Vec<u8> { let mut v = Vec::new(); let mut n = i; loop { v.insert(0, b'0' + (n % 10) as u8); n /= 10; if n == 0 { return v } } }
/// position of the first element of the array at p that T refuses, and its error
fn first_bad<'a, T: Decode>(b: &'a [u8]) -> Result<Option<(usize, DecodeError)>, ReaderError> {
    let a = Reader::new(b).array()?; let mut i = 0; for mut r in a.iter() { if let Err(e) = T::decode(&mut r) { return Ok(Some((i, e))) } i += 1 } Ok(None)
}
fn vector<T: Decode>(b: &[u8], op: u32) {
    let mut r = Reader::new(b); let e = match decode_vec::<T>(&mut r) { Ok(_) => { vs::cover(op); return } Err(e) => e };
    match first_bad::<T>(b) {
        Err(x) => { vs::cover(10 + op); vs::check(dsig(e.error()) == sig(&x), 11); path(&e, &["Vec"], 12) }
        Ok(None) => vs::check(false, 13),
        Ok(Some((i, x))) => { vs::cover(20 + op); if i > 1 { vs::cover(30 + op) } if i > 9 { vs::cover(40) }
            vs::check(dsig(e.error()) == dsig(x.error()), 14);
            let (c, d) = (e.context(), x.context()); vs::check(c.len() == d.len() + 2, 15); if c.len() != d.len() + 2 { return }
            let mut k = 0; while k < d.len() { same(c[k].as_bytes(), d[k].as_bytes(), 16); k += 1 }
            same(c[k].as_bytes(), &number(i), 17); same(c[k + 1].as_bytes(), b"Vec", 18) }
    }
}
/// decode_vec: the element and its position are named, whatever is wrong with it
#[no_mangle] pub fn h_c24_vec() {
    vs::realfmt(); let op = vs::pick(4); let i = input(); let b = i.s();
    match op { 0 => vector::<u8>(b, op), 1 => vector::<DataOwned>(b, op), 2 => vector::<Byte1>(b, op), _ => vector::<Deep>(b, op) }
}
/// contexts list what was pushed, innermost first; the path is outermost first
#[no_mangle] pub fn h_c24_path() {
    let k = vs::n(0); let t = vs::byte(); vs::assume((t >= 0x20) & (t < 0x7f)); let own = || String::from_utf8(vec![t, t]).unwrap_or_default();
    let kind = if vs::pick(2) == 0 { DecodeErrorKind::UnexpectedLength { expected: vs::byte() as usize, got: 3 } } else { DecodeErrorKind::OutOfRange { min: 0, max: vs::u64v(), got: vs::u64v() } };
    let s = dsig(&kind); let mut want: Vec<Vec<u8>> = Vec::new();
    let mut e = match vs::pick(5) { 0 => { want.push(type_name::<u16>().as_bytes().to_vec()); DecodeError::new::<u16>(kind) } 1 => { want.push(b"field".to_vec()); DecodeError::new_str("field", kind) } 2 => { want.push(vec![t, t]); DecodeError::new_string(own(), kind) }
        3 => { want.push(type_name::<bool>().as_bytes().to_vec()); kind.context::<bool>() } _ => { want.push(b"x".to_vec()); kind.context_str("x") } };
    let mut i = 1; while i < k { e = match vs::pick(3) { 0 => { want.push(type_name::<u64>().as_bytes().to_vec()); e.push::<u64>() } 1 => { want.push(b"name".to_vec()); e.push_str("name") } _ => { want.push(vec![t, t]); e.push_string(own()) } }; i += 1 }
    vs::cover(k as u32); vs::check((dsig(e.error()) == s) & (e.context().len() == k), 21); if e.context().len() != k { return }
    let mut i = 0; let mut p = Vec::new(); while i < k { same(e.context()[i].as_bytes(), &want[i], 22); p.extend_from_slice(&want[k - 1 - i]); if i + 1 < k { p.extend_from_slice(b"->") } i += 1 }
    same(e.context_as_path().as_bytes(), &p, 23);
    let f = e.clone(); vs::check((dsig(f.error()) == s) & (f.context().len() == k), 24); same(f.context_as_path().as_bytes(), &p, 25);
}
/// trailing bytes and embedded elements
#[no_mangle] pub fn h_c24_whole() {
    let how = vs::pick(5); let i = input(); let b = i.s(); let mut r = Reader::new(b); let d = r.decode::<u64>(); let n = r.consumed_bytes();
    let c = Writer::new_from_vec(b.to_vec()).finalize_data();
    let (got, name) = match how { 0 => (decode_from_bytes::<u64>(b), "u64"), 1 => (Reader::new(b).decode_one::<u64>(), "u64"), 2 => (c.decode::<u64>(), "u64"), 3 => (c.read().decode::<u64>(), "u64"), _ => (Reader::new(b).decode::<u64>(), "u64") };
    match (d, got) { (Ok(x), Ok(y)) => { vs::cover(1); vs::check(x == y, 31) } (Err(x), Err(y)) => { vs::cover(2); vs::check(dsig(x.error()) == dsig(y.error()), 32); path(&y, &[name], 33) } (Ok(_), Err(y)) => { vs::cover(3); vs::check(n < b.len(), 34); let s = dsig(y.error()); vs::check((s.0 == 20) & (s.1 == (b.len() - n) as u64) | (s.0 == 15) & (s.1 == n as u64) & (s.2 == (b.len() - n) as u64), 35); path(&y, &[name], 36) } _ => vs::check(false, 37) }
}
/// what an error prints: its path, then its kind with the numbers in it
#[no_mangle] pub fn h_c24_text() {
    vs::realfmt(); let n = [0usize, 7, 23, 255, 256, 65536, usize::MAX][vs::pick(7) as usize]; let (kind, name, nums): (_, &str, Vec<usize>) = match vs::pick(4) {
        0 => (DecodeErrorKind::UnexpectedLength { expected: 3, got: n }, "UnexpectedLength", vec![3, n]), 1 => (DecodeErrorKind::OutOfRange { min: 1, max: 254, got: n as u64 }, "OutOfRange", vec![1, 254, n]),
        2 => (DecodeErrorKind::ReaderNotTerminated { remaining_bytes: n }, "ReaderNotTerminated", vec![n]), _ => (DecodeErrorKind::Custom("abc".to_string()), "abc", vec![]) };
    let k = kind.to_string(); vs::check(has(k.as_bytes(), name.as_bytes()), 41); for x in &nums { vs::check(has(k.as_bytes(), x.to_string().as_bytes()), 42) }
    let e = kind.context_str("x").push_str("field").push_string("12".to_string()); let mut w = b"12->field->x: ".to_vec(); w.extend_from_slice(k.as_bytes()); same(e.to_string().as_bytes(), &w, 43); vs::cover(1);
}
/// w occurs in s, not within a longer number or word
fn has(s: &[u8], w: &[u8]) -> bool {
    let word = |i: usize| i < s.len() && (s[i] as char).is_ascii_alphanumeric(); let mut i = 0;
    while i + w.len() <= s.len() { if &s[i..i + w.len()] == w && !word(i + w.len()) && (i == 0 || !word(i - 1)) { return true } i += 1 } false
}
// ---- C26 equality
/// two inputs: equal values exactly when the bytes they were read from are equal
fn pair(a: &[u8], b: &[u8]) {
    let (mut r, mut q) = (Reader::new(a), Reader::new(b));
    let (x, y) = match (r.data(), q.data()) { (Ok(x), Ok(y)) => (x, y), _ => { vs::cover(0); return } };
    let (n, m) = (r.consumed_bytes(), q.consumed_bytes()); let eq = if n == m { a[..n] == b[..n] } else { false };
    vs::cover(1 + kind(&x)); if eq { vs::cover(20 + kind(&x)) }
    vs::check(((x == y) == eq) & ((x != y) != eq), 1);
    let (u, v) = (x.owned(), y.owned()); vs::check(((u == v) == eq) & ((u != v) != eq), 2);
    let c = u.clone(); vs::check(c == u, 3); vs::check((x.clone() == x) & ((c == v) == eq), 4); same(&encode_to_bytes(&c), &a[..n], 5);
    vs::observe((n + 16 * m + 256 * eq as usize) as u64);
}
#[no_mangle] pub fn h_c26() { let i = input(); let j = raw(vs::n(3)); pair(i.s(), j.s()) }
/// both from the same prefix or shape
#[no_mangle] pub fn h_c26_same() { let i = input(); let j = input(); pair(i.s(), j.s()) }
/// the shape itself, and with some of its bytes changed
#[no_mangle] pub fn h_c26_edit() { let i = input(); let j = plain(vs::n(1) - 200); pair(i.s(), j.s()) }
/// any number in two widths, tags and lengths included
#[no_mangle] pub fn h_c26_wide() { let i = wide(); let j = wide(); pair(i.s(), j.s()) }
/// the same for the standard tagged types, scalars, and typed raw data
fn tagpair<'a, T: PartialEq + Clone, F: Fn(&mut Reader<'a>) -> Option<(T, Vec<u8>)>>(a: &'a [u8], b: &'a [u8], op: u32, f: F) {
    let (mut r, mut q) = (Reader::new(a), Reader::new(b));
    let ((x, xb), (y, yb)) = match (f(&mut r), f(&mut q)) { (Some(x), Some(y)) => (x, y), _ => { vs::cover(0); return } };
    let eq = if xb.len() == yb.len() { xb == yb } else { false }; vs::cover(1 + op); if eq { vs::cover(20 + op) }
    vs::check(((x == y) == eq) & ((x != y) != eq), 11); let c = x.clone(); vs::check((c == x) & ((c == y) == eq), 12);
}
fn typed(a: &[u8], b: &[u8], op: u32) {
    fn d<'a, T: Encode + Decode>(r: &mut Reader<'a>) -> Option<(T, Vec<u8>)> { match r.decode::<T>() { Ok(x) => { let e = encode_to_bytes(&x); Some((x, e)) } Err(_) => None } }
    match op {
        0 => tagpair(a, b, op, d::<StandardDateTime>), 1 => tagpair(a, b, op, d::<PositiveBignum>), 2 => tagpair(a, b, op, d::<NegativeBignum>), 3 => tagpair(a, b, op, d::<EncodedCBOR>), 4 => tagpair(a, b, op, d::<RationalNumber>),
        5 => tagpair(a, b, op, d::<Scalar>), 6 => tagpair(a, b, op, d::<CborDataOf<Vec<u8>>>), 7 => tagpair(a, b, op, d::<CborDataOf<u64>>), 8 => tagpair(a, b, op, d::<CborDataOf<DataOwned>>), _ => tagpair(a, b, op, d::<DataOwned>),
    }
}
#[no_mangle] pub fn h_c26_typed() { let op = vs::pick(10); let i = input(); let j = input(); typed(i.s(), j.s(), op) }
entries!(h_c26, h_c26_same, h_c26_edit, h_c26_wide, h_c26_typed, h_c23, h_c23_wide, h_c23_tagged, h_c24_native, h_c24_wide, h_c24_vec, h_c24_path, h_c24_whole, h_c24_text);
