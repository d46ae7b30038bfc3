//! C05, C06, C07, C10, C11: writing and reading values, headers, native types, floats, signed views
use crate::k::*;
use crate::vs;

/// payload lengths around each header boundary
pub const LENS: &[usize] = &[0, 1, 2, 23, 24, 25, 255, 256, 257, 65535, 65536];
/// a buffer of that length, a few bytes of which are symbolic (all when short); ASCII when asked
pub fn payload(len: usize, ascii: bool) -> Vec<u8> {
    let mut v = vec![0x41u8; len];
    let mut s = [0u8; 4]; let k = if len < 4 { len } else { 4 }; vs::fill(&mut s[..k]);
    let mut i = 0; while i < k { if ascii { vs::assume(s[i] < 0x80) } v[if i < 2 { i } else { len - 1 - (i - 2) }] = s[i]; i += 1 }
    v
}
fn end(r: &Reader, o: &[u8], id: u32) { vs::check((r.consumed_bytes() == o.len()) & r.is_finished(), id) }
// ---- C05
#[no_mangle] pub fn h_c05_value() {
    let op = vs::pick(15); let v = vs::u64v(); let mut w = Writer::new(); vs::cover(op);
    macro_rules! rt { ($x:expr, $wr:ident, $rd:expr) => {{ let x = $x; w.$wr(x); w.encode(&x); let o = w.finalize(); let mut r = Reader::new(&o); match ($rd(&mut r), $rd(&mut r)) { (Ok(a), Ok(b)) => { vs::check(a == x, 1); vs::check(b == x, 2) } _ => vs::check(false, 3) } end(&r, &o, 4); vs::observe(o.len() as u64) }} }
    match op {
        0 => rt!(Positive::canonical(v), positive, |r: &mut Reader| r.positive()), 1 => rt!(Negative::canonical(v), negative, |r: &mut Reader| r.negative()),
        2 => rt!(Scalar::canonical_positive(v), scalar, |r: &mut Reader| r.scalar()), 3 => rt!(Scalar::canonical_negative(v), scalar, |r: &mut Reader| r.scalar()),
        4 => rt!(Byte::canonical(v as u8), byte, |r: &mut Reader| r.byte()), 5 => rt!(Float::FP16(v as u16), float, |r: &mut Reader| r.float()), 6 => rt!(Float::FP32(v as u32), float, |r: &mut Reader| r.float()), 7 => rt!(Float::FP64(v), float, |r: &mut Reader| r.float()),
        8 => rt!(Constant::False, constant, |r: &mut Reader| r.constant()), 9 => rt!(Constant::True, constant, |r: &mut Reader| r.constant()),
        10 => { w.constant(Constant::Null); w.encode(&Constant::Null); let o = w.finalize(); let mut r = Reader::new(&o); vs::check(r.null().is_ok(), 5); vs::check(matches!(r.constant(), Ok(Constant::Null)), 6); end(&r, &o, 7) }
        11 => { w.constant(Constant::Undefined); w.encode(&Constant::Undefined); let o = w.finalize(); let mut r = Reader::new(&o); vs::check(r.undefined().is_ok(), 8); vs::check(matches!(r.constant(), Ok(Constant::Undefined)), 9); end(&r, &o, 10) }
        12 => rt!(v & 1 == 1, bool, |r: &mut Reader| r.bool()),
        13 => { let t = TagValue::from_u64(v); w.tag_build(t, |w| w.positive(Positive::canonical(v))); let o = w.finalize(); let mut r = Reader::new(&o);
            match r.tag() { Ok(x) => { vs::check((x.value() == v) & (x.tag_repr() == t), 11); vs::check(matches!(x.read_data(|r| r.positive()), Ok(p) if p == Positive::canonical(v)), 12) } Err(_) => vs::check(false, 13) } end(&r, &o, 14) }
        _ => { // the whole element, through the owned form
            let d = match vs::pick(11) { 0 => DataOwned::Positive(Positive::canonical(v)), 1 => DataOwned::Negative(Negative::canonical(v)), 2 => DataOwned::Float(Float::FP16(v as u16)), 3 => DataOwned::Float(Float::FP32(v as u32)), 4 => DataOwned::Float(Float::FP64(v)), 5 => DataOwned::Byte(Byte::canonical(v as u8)), 6 => DataOwned::True, 7 => DataOwned::False, 8 => DataOwned::Null, 9 => DataOwned::Undefined,
                _ => DataOwned::Bytes(BytesOwned::from_vec(v.to_le_bytes().to_vec())) };
            let o = encode_to_bytes(&d); match decode_from_bytes::<DataOwned>(&o) { Ok(x) => vs::check(x == d, 15), Err(_) => vs::check(false, 16) } }
    }
}
#[no_mangle] pub fn h_c05_native() {
    let op = vs::pick(5); let v = vs::u64v(); vs::cover(op);
    macro_rules! rt { ($x:expr, $t:ty) => {{ let x: $t = $x; let o = encode_to_bytes(&x); match decode_from_bytes::<$t>(&o) { Ok(y) => vs::check(x == y, 21), Err(_) => vs::check(false, 22) } vs::observe(o.len() as u64) }} }
    match op { 0 => rt!(v as u8, u8), 1 => rt!(v as u16, u16), 2 => rt!(v as u32, u32), 3 => rt!(v, u64), _ => rt!(v & 1 == 1, bool) }
}
/// strings of every length class; param 0 = index into LENS
#[no_mangle] pub fn h_c05_string() {
    let len = LENS[vs::n(0)]; let op = vs::pick(9); let mut w = Writer::new();
    let text = op >= 5; let p = payload(len, text); let t = if text { match std::str::from_utf8(&p) { Ok(s) => s, Err(_) => return } } else { "" };
    vs::cover(op);
    match op {
        0 => w.bytes(&Bytes::from_slice(&p)), 1 => w.encode(&p[..]), 2 => w.encode(&p), 3 => w.encode(&BytesOwned::from_vec(p.clone())), 4 => w.bytes(&Bytes::Imm(BytesData::from_slice(&p))),
        5 => w.text(&Text::from_str(t)), 6 => w.encode(t), 7 => w.encode(&String::from(t)), _ => w.text(&TextOwned::from_string(String::from(t)).borrow()),
    }
    let o = w.finalize(); let mut r = Reader::new(&o); vs::observe(o.len() as u64);
    if text { match r.text() { Ok(x) => { vs::check(x == Text::from_str(t), 31); vs::check(x.to_string() == t, 32) } Err(_) => vs::check(false, 33) } vs::check(matches!(decode_from_bytes::<String>(&o), Ok(s) if s == t), 34) }
    else { match r.bytes() { Ok(x) => { vs::check(x == Bytes::from_slice(&p), 35); same(&x.to_vec(), &p, 36) } Err(_) => vs::check(false, 37) } vs::check(matches!(decode_from_bytes::<Vec<u8>>(&o), Ok(s) if s == p), 38) }
    end(&r, &o, 39);
}
#[no_mangle] pub fn h_c05_arr() {
    macro_rules! rt { ($n:literal) => {{ let mut x = [0u8; $n]; vs::fill(&mut x); let o = encode_to_bytes(&x); vs::check(matches!(decode_from_bytes::<[u8; $n]>(&o), Ok(y) if y == x), 41) }} }
    let op = vs::pick(6); vs::cover(op); match op { 0 => rt!(0), 1 => rt!(1), 2 => rt!(4), 3 => rt!(23), 4 => rt!(24), _ => rt!(32) }
}
/// text of n symbolic bytes (any valid UTF-8)
#[no_mangle] pub fn h_c05_utf8() {
    let i = raw(vs::n(0)); let t = match std::str::from_utf8(i.s()) { Ok(s) => s, Err(_) => return }; vs::cover(1);
    let o = encode_to_bytes(&String::from(t)); let mut r = Reader::new(&o);
    match r.text() { Ok(x) => { vs::check(x == Text::from_str(t), 42); vs::check(x.to_string() == t, 43) } Err(_) => vs::check(false, 44) } end(&r, &o, 45);
}
/// chunked strings: up to 3 chunks of 0..=2 bytes
#[no_mangle] pub fn h_c05_chunks() {
    let text = vs::pick(2) == 1; let k = vs::pick(4) as usize; let mut l = [0usize; 3]; let mut i = 0; while i < k { l[i] = vs::pick(3) as usize; i += 1 }
    let mut b = [0u8; 6]; vs::fill(&mut b); let mut w = Writer::new(); vs::cover(k as u32 + 10 * text as u32);
    let mut p = 0;
    if text {
        let mut c = Vec::new(); let mut i = 0; while i < k { match std::str::from_utf8(&b[p..p + l[i]]) { Ok(s) => c.push(TextData::from_str(s)), Err(_) => return } p += l[i]; i += 1 }
        let x = Text::Chunks(c); w.text(&x); let o = w.finalize(); let mut r = Reader::new(&o); match r.text() { Ok(y) => vs::check(x == y, 51), Err(_) => vs::check(false, 52) } end(&r, &o, 53);
    } else {
        let mut c = Vec::new(); let mut i = 0; while i < k { c.push(BytesData::from_slice(&b[p..p + l[i]])); p += l[i]; i += 1 }
        let x = Bytes::Chunks(c); w.bytes(&x); w.encode(&x.owned()); let o = w.finalize(); let mut r = Reader::new(&o); match (r.bytes(), r.bytes()) { (Ok(y), Ok(z)) => { vs::check(x == y, 54); vs::check(x == z, 55) } _ => vs::check(false, 56) } end(&r, &o, 57);
    }
}
/// one of a few element forms, with a symbolic number
pub fn put(w: &mut Writer, form: u32, v: u64) {
    match form { 0 => w.positive(Positive::canonical(v)), 1 => w.negative(Negative::canonical(v & 0xff)), 2 => w.bool(v & 1 == 1), 3 => w.bytes(&Bytes::from_slice(&(v as u16).to_be_bytes())), 4 => w.byte(Byte::canonical(v as u8)),
        5 => w.array_build(StructureLength::Indefinite, |w| w.bool(v & 1 == 1)), 6 => w.map_build(StructureLength::from(1), |w| { w.encode(&(v as u8)); w.encode("a") }), _ => w.tag_build(TagValue::from_u64(v & 0xffff), |w| w.float(Float::FP16(v as u16))) }
}
fn got(r: &mut Reader, form: u32, v: u64) -> bool {
    let ok = match form {
        0 => matches!(r.positive(), Ok(x) if x == Positive::canonical(v)), 1 => matches!(r.negative(), Ok(x) if x == Negative::canonical(v & 0xff)), 2 => matches!(r.bool(), Ok(x) if x == (v & 1 == 1)), 3 => matches!(r.bytes(), Ok(x) if x == Bytes::from_slice(&(v as u16).to_be_bytes())), 4 => matches!(r.byte(), Ok(x) if x == Byte::canonical(v as u8)),
        5 => match r.array() { Ok(a) => (a.len() == 1) && a.struct_len().is_indefinite() && got(&mut a[0].reader(), 2, v), Err(_) => false },
        6 => match r.map() { Ok(m) => (m.len() == 1) && (m.struct_len() == StructureLength::from(1)) && matches!(m[0].0.decode::<u8>(), Ok(x) if x == v as u8) && matches!(m[0].1.decode::<String>(), Ok(x) if x == "a"), Err(_) => false },
        _ => match r.tag() { Ok(t) => (t.value() == v & 0xffff) & matches!(t.read_data(|r| r.float()), Ok(f) if f == Float::FP16(v as u16)), Err(_) => false },
    };
    ok && r.is_finished()
}
pub fn slen(k: u64) -> StructureLength { if vs::pick(2) == 0 { StructureLength::Indefinite } else { let w = pick_w(); StructureLength::Definite(hv(k, w)) } }
/// arrays and maps made with the builders: up to 2 elements (array) or 1 pair (map) of 8 forms, any header width
#[no_mangle] pub fn h_c05_array() {
    let f = [vs::pick(8), vs::pick(8)]; let k = vs::pick(3) as usize; let v = [vs::u64v(), vs::u16v() as u64]; let s = slen(k as u64); vs::cover(f[0]);
    let mut w = Writer::new(); w.array_build(s, |w| { let mut i = 0; while i < k { put(w, f[i], v[i]); i += 1 } });
    let o = w.finalize(); let mut r = Reader::new(&o);
    match r.array() { Ok(a) => { vs::check((a.struct_len() == s) & (a.len() == k), 61); let mut i = 0; for mut e in a.iter() { vs::check(got(&mut e, f[i], v[i]), 62); i += 1 } vs::check(i == k, 63);
        let mut w = Writer::new(); w.array(&a); w.array(&a.owned().borrow()); let x = w.finalize(); vs::check(x.len() == 2 * o.len(), 64); same(&x[..o.len()], &o, 65); same(&x[o.len()..], &o, 66) } Err(_) => vs::check(false, 67) }
    end(&r, &o, 68);
}
#[no_mangle] pub fn h_c05_map() {
    let f = [vs::pick(8), vs::pick(8)]; let k = vs::pick(2) as usize; let v = [vs::u64v(), vs::u16v() as u64]; let s = slen(k as u64); vs::cover(f[0]);
    let mut w = Writer::new(); w.map_build(s, |w| if k == 1 { put(w, f[0], v[0]); put(w, f[1], v[1]) });
    let o = w.finalize(); let mut r = Reader::new(&o);
    match r.map() { Ok(m) => { vs::check((m.struct_len() == s) & (m.len() == k), 71); for (mut a, mut b) in m.iter() { vs::check(got(&mut a, f[0], v[0]) & got(&mut b, f[1], v[1]), 72) }
        let mut w = Writer::new(); w.map(&m); w.map(&m.owned().borrow()); let x = w.finalize(); vs::check(x.len() == 2 * o.len(), 73); same(&x[..o.len()], &o, 74); same(&x[o.len()..], &o, 75) } Err(_) => vs::check(false, 76) }
    end(&r, &o, 77);
}

/// containers announcing any number, in any header width: what is written denotes that number (what is read back is then C06's)
#[no_mangle] pub fn h_c05_header() {
    let op = vs::pick(2); let k = pick_w(); let v = vs::u64v() & wmask(k); if k == 0 { vs::assume(v < 24) } let s = StructureLength::Definite(hv(v, k)); let mut w = Writer::new(); vs::cover(op);
    if op == 0 { w.array_build(s, |_| ()) } else { w.map_build(s, |_| ()) } let o = w.finalize();
    vs::check((o.len() == 1 + k) && (major(o[0]) == 4 + op as u8) & (extra(o[0]) == k) && arg(&o, 0) == v, 81);
    if v == 0 { let mut r = Reader::new(&o); if op == 0 { vs::check(matches!(r.array(), Ok(a) if (a.len() == 0) & (a.struct_len() == s)), 82) } else { vs::check(matches!(r.map(), Ok(a) if (a.len() == 0) & (a.struct_len() == s)), 83) } end(&r, &o, 84) }
}
// ---- C06
#[no_mangle] pub fn h_c06_write() {
    let op = vs::pick(16); let v = vs::u64v(); let mut w = Writer::new(); vs::cover(op);
    let want: Vec<u8> = match op {
        0 => { w.positive(Positive::canonical(v)); enc(0, v) } 1 => { w.negative(Negative::canonical(v)); enc(1, v) } 2 => { w.scalar(Scalar::canonical_positive(v)); enc(0, v) } 3 => { w.scalar(Scalar::canonical_negative(v)); enc(1, v) }
        4 => { w.byte(Byte::canonical(v as u8)); let x = v as u8; if x < 20 { vec![0xe0 + x] } else { vec![0xf8, x] } }
        5 => { w.float(Float::FP16(v as u16)); vec![0xf9, (v >> 8) as u8, v as u8] } 6 => { w.float(Float::FP32(v as u32)); encw(7, v & 0xffff_ffff, 4) } 7 => { w.float(Float::FP64(v)); encw(7, v, 8) }
        8 => { w.constant(Constant::False); w.constant(Constant::True); w.constant(Constant::Null); w.constant(Constant::Undefined); w.bool(false); w.bool(true); vec![0xf4, 0xf5, 0xf6, 0xf7, 0xf4, 0xf5] }
        9 => { w.tag_build(TagValue::from_u64(v), |_| ()); enc(6, v) }
        10 => { w.array_build(StructureLength::from(v), |_| ()); enc(4, v) } 11 => { w.map_build(StructureLength::from(v), |_| ()); enc(5, v) }
        12 => { let k = pick_w(); let v = v & wmask(k); if k == 0 { vs::assume(v < 24) } w.array_build(StructureLength::Definite(hv(v, k)), |_| ()); w.map_build(StructureLength::Definite(hv(v, k)), |_| ()); let mut o = encw(4, v, k); o.extend_from_slice(&encw(5, v, k)); o }
        13 => { w.array_build(StructureLength::Indefinite, |_| ()); w.map_build(StructureLength::Indefinite, |_| ()); vec![0x9f, 0xff, 0xbf, 0xff] }
        14 => match vs::pick(4) { 0 => { w.encode(&(v as u8)); enc(0, v & 0xff) } 1 => { w.encode(&(v as u16)); enc(0, v & 0xffff) } 2 => { w.encode(&(v as u32)); enc(0, v & 0xffff_ffff) } _ => { w.encode(&v); enc(0, v) } },
        _ => { w.encode(&(v & 1 == 1)); vec![0xf4 + (v & 1) as u8] }
    };
    let o = w.finalize(); vs::observe(o.len() as u64); same(&o, &want, 1);
}
#[no_mangle] pub fn h_c06_strlen() {
    let len = LENS[vs::n(0)]; let op = vs::pick(4); let p = payload(len, true); let t = match std::str::from_utf8(&p) { Ok(s) => s, Err(_) => return }; let mut w = Writer::new(); vs::cover(op);
    match op { 0 => w.bytes(&Bytes::from_slice(&p)), 1 => w.text(&Text::from_str(t)), 2 => w.bytes(&Bytes::Chunks(vec![BytesData::from_slice(&p)])), _ => w.text(&Text::Chunks(vec![TextData::from_str(t)])) }
    let m = 2 + (op as u8 & 1); let mut want = Vec::new(); if op >= 2 { want.push(m * 32 + 31) } want.extend_from_slice(&enc(m, len as u64)); want.extend_from_slice(&p); if op >= 2 { want.push(0xff) }
    same(&w.finalize(), &want, 2);
}
#[no_mangle] pub fn h_c06_value() {
    let v = vs::u64v(); let w = pick_w(); let x = v & wmask(w); if w == 0 { vs::assume(x < 24) }
    let h = hv(x, w); vs::cover(w as u32);
    vs::check((h.to_u64() == x) & (h.to_size() as u64 == x) & (h.is_canonical() == shortest(x, w)), 11);
    let c = HeaderValue::canonical(v); vs::check((c.to_u64() == v) & c.is_canonical() & (c.to_size() as u64 == v), 12);
    vs::check(hv_is(c, v, if v < 24 { 0 } else if v < 0x100 { 1 } else if v < 0x1_0000 { 2 } else if v < 0x1_0000_0000 { 4 } else { 8 }), 13);
    let b = Byte::canonical(v as u8); vs::check((b.to_u8() == v as u8) & b.is_canonical(), 14);
    vs::check((Positive::canonical(v).to_u64() == v) & Positive::canonical(v).is_canonical() & (Negative::canonical(v).negative_u64() == v) & Negative::canonical(v).is_canonical() & (TagValue::from_u64(v).to_u64() == v) & TagValue::from_u64(v).raw_value().is_canonical(), 15);
    vs::check(StructureLength::from(v) == StructureLength::Definite(c), 16);
}
/// every header: 9 symbolic bytes, then a zero item (tag content)
#[no_mangle] pub fn h_c06_read() {
    let op = vs::pick(6); let mut b = [0u8; 12]; vs::fill(&mut b[..9]);
    let mut r = Reader::new(&b); vs::cover(op);
    let x = || { let w = extra(b[0]); (arg(&b, 0), w) };
    match op {
        0 => if let Ok(p) = r.positive() { let (v, w) = x(); vs::check((b[0] >> 5 == 0) & (p.to_u64() == v) & hv_is(p.raw_value(), v, w) & (p.is_canonical() == shortest(v, w)) & (r.consumed_bytes() == 1 + w), 21); vs::cover(20 + w as u32) } else { vs::check((b[0] >> 5 != 0) | (b[0] & 31 > 27), 22) },
        1 => if let Ok(p) = r.negative() { let (v, w) = x(); vs::check((b[0] >> 5 == 1) & (p.negative_u64() == v) & hv_is(p.raw_value(), v, w) & (p.is_canonical() == shortest(v, w)) & (r.consumed_bytes() == 1 + w), 23); vs::cover(30 + w as u32) } else { vs::check((b[0] >> 5 != 1) | (b[0] & 31 > 27), 24) },
        2 => if let Ok(p) = r.scalar() { let (v, w) = x(); vs::check((b[0] >> 6 == 0) & hv_is(p.raw_value(), v, w) & (p.is_canonical() == shortest(v, w)) & (p.is_negative() == (b[0] >> 5 == 1)) & (r.consumed_bytes() == 1 + w), 25); vs::cover(40 + w as u32) } else { vs::check((b[0] >> 6 != 0) | (b[0] & 31 > 27), 26) },
        3 => { vs::assume(b[0] >> 5 == 6); if b[0] & 31 < 28 { let w = extra(b[0]); let mut i = 1 + w; while i < 9 { vs::assume(b[i] == 0); i += 1 } } // content: a zero
            if let Ok(t) = r.tag() { let (v, w) = x(); vs::check((t.value() == v) & hv_is(t.tag_repr().raw_value(), v, w) & (r.consumed_bytes() == 2 + w), 27); vs::cover(50 + w as u32) } else { vs::check(b[0] & 31 > 27, 28) } }
        4 => if let Ok(y) = r.byte() { let (v, w) = x(); vs::check((b[0] >> 5 == 7) & (y.to_u8() as u64 == v) & ((w == 0) & (v < 20) | (w == 1)) & (y.is_canonical() == ((w == 0) | (v >= 20))) & (r.consumed_bytes() == 1 + w), 29); vs::cover(60 + w as u32) } else { vs::check((b[0] >> 5 != 7) | (b[0] & 31 > 24) | (b[0] & 31 >= 20) & (b[0] & 31 < 24), 30) },
        _ => if let Ok(y) = r.float() { let (v, w) = x(); vs::check((b[0] >> 5 == 7) & (r.consumed_bytes() == 1 + w) & match y { Float::FP16(f) => (w == 2) & (f as u64 == v), Float::FP32(f) => (w == 4) & (f as u64 == v), Float::FP64(f) => (w == 8) & (f == v) }, 31); vs::cover(70 + w as u32) } else { vs::check((b[0] >> 5 != 7) | (b[0] & 31 < 25) | (b[0] & 31 > 27), 32) },
    }
}
/// lengths as reported by strings, arrays and maps that were read (small contents, every width)
#[no_mangle] pub fn h_c06_len() {
    let i = wide(); let b = i.s(); let mut r = Reader::new(b); let m = b[0] >> 5; let (v, w) = (arg(b, 0), extra(b[0]));
    let h = match m {
        2 => match r.bytes() { Ok(Bytes::Imm(c)) => c.value(), Ok(_) => { vs::check(false, 41); return } Err(_) => return }, 3 => match r.text() { Ok(Text::Imm(c)) => c.value(), Ok(_) => { vs::check(false, 42); return } Err(_) => return },
        4 => match r.array() { Ok(a) => match a.struct_len() { StructureLength::Definite(h) => h, _ => { vs::check(false, 43); return } }, Err(_) => return }, 5 => match r.map() { Ok(a) => match a.struct_len() { StructureLength::Definite(h) => h, _ => { vs::check(false, 44); return } }, Err(_) => return },
        _ => return,
    };
    vs::cover(m as u32); vs::check(hv_is(h, v, w) & (h.is_canonical() == shortest(v, w)), 45);
}

// ---- C07
#[no_mangle] pub fn h_c07_int() {
    let op = vs::pick(5); let i = raw(vs::n(0)); let b = i.s(); let mut r = Reader::new(b);
    let num = match header(b, 0) { M::Done(q) if major(b[0]) == 0 => Some((arg(b, 0), q)), _ => None };
    macro_rules! go { ($t:ty, $max:expr) => {{ let x = r.decode::<$t>(); let c = r.consumed_bytes(); match num {
        None => vs::check(x.is_err() && !matches!(x.as_ref().err().map(|e| e.error()), Some(DecodeErrorKind::OutOfRange { .. })), 1),
        Some((v, q)) => { if v <= $max { vs::cover(op); match x { Ok(y) => vs::check((y as u64 == v) & (c == q), 2), Err(_) => vs::check(false, 3) } }
            else { vs::cover(10 + op); match x { Ok(_) => vs::check(false, 4), Err(e) => match e.error() { DecodeErrorKind::OutOfRange { min, max, got } => vs::check((*min == 0) & (*max == $max) & (*got == v), 5), _ => vs::check(false, 6) } } } } } }} }
    match op { 0 => go!(u8, 0xffu64), 1 => go!(u16, 0xffffu64), 2 => go!(u32, 0xffff_ffffu64), 3 => go!(u64, u64::MAX),
        _ => { let x = r.decode::<bool>(); let want = if b.len() > 0 { match b[0] { 0xf4 => Some(false), 0xf5 => Some(true), _ => None } } else { None }; match (x, want) { (Ok(x), Some(y)) => { vs::cover(op); vs::check((x == y) & (r.consumed_bytes() == 1), 7) } (Err(_), None) => vs::cover(20), _ => vs::check(false, 8) } } }
}
#[no_mangle] pub fn h_c07_string() {
    let op = vs::pick(8); let i = input(); let b = i.s(); let mut r = Reader::new(b);
    let want_major = if op == 0 { 3 } else { 2 };
    macro_rules! fixed { ($n:literal) => { match r.decode::<[u8; $n]>() { Ok(x) => Ok(x.to_vec()), Err(e) => Err(e) } } }
    let x: Result<Vec<u8>, DecodeError> = match op { 0 => r.decode::<String>().map(|s| s.into_bytes()), 1 => r.decode::<Vec<u8>>(), 2 => fixed!(0), 3 => fixed!(1), 4 => fixed!(2), 5 => fixed!(3), 6 => fixed!(4), _ => fixed!(25) };
    let fix = if op == 7 { Some(25) } else if op >= 2 { Some(op as usize - 2) } else { None };
    match item(b, 0) {
        M::Done(e) if major(b[0]) == want_major && (op != 0 || text_ok(b, 0)) => {
            let (c, _) = content(b, 0);
            match fix { Some(n) if n != c.len() => { vs::cover(20 + op); match x { Ok(_) => vs::check(false, 21), Err(e) => match e.error() { DecodeErrorKind::UnexpectedLength { expected, got } => vs::check((*expected == n) & (*got == c.len()), 22), _ => vs::check(false, 23) } } }
                _ => { vs::cover(op); if indef(b[0]) { vs::cover(10 + op) } match x { Ok(y) => { same(&y, &c, 24); vs::check(r.consumed_bytes() == e, 25) } Err(_) => vs::check(false, 26) } } }
        }
        _ => vs::check(x.is_err(), 27),
    }
}

// ---- C10
fn f32_is(x: f32, want: Option<u32>) -> bool { let b = x.to_bits(); match want { Some(w) => b == w, None => (b & 0x7fff_ffff) > 0x7f80_0000 } }
fn f64_is(x: f64, want: Option<u64>) -> bool { let b = x.to_bits(); match want { Some(w) => b == w, None => (b & !(1u64 << 63)) > 0x7ffu64 << 52 } }
#[no_mangle] pub fn h_c10_convert() {
    let op = vs::pick(3); vs::cover(op);
    match op {
        0 => { let v = vs::u16v(); let f = Float::FP16(v); let w = f16_f32(v); if w.is_none() { vs::cover(10) } vs::check(f32_is(f.to_f32(), w), 1); vs::check(f64_is(f.to_f64(), w.and_then(f32_f64)), 2); }
        1 => { let v = vs::u32v(); let f = Float::FP32(v); let w = f32_f64(v); if w.is_none() { vs::cover(11) } vs::check(f32_is(f.to_f32(), w.map(|_| v)), 3); vs::check(f64_is(f.to_f64(), w), 4); }
        _ => { let v = vs::u64v(); let f = Float::FP64(v); let w = f64_f32(v); if w.is_none() { vs::cover(12) } vs::check(f32_is(f.to_f32(), w), 5); vs::check(f64_is(f.to_f64(), w.map(|_| v)), 6); }
    }
}
#[no_mangle] pub fn h_c10_bits() {
    let mut b = [0u8; 9]; vs::fill(&mut b); let mut r = Reader::new(&b);
    if let Ok(f) = r.float() {
        let n = r.consumed_bytes(); let mut v = 0u64; let mut i = 1; while i < n { v = v << 8 | b[i] as u64; i += 1 }
        vs::cover(n as u32);
        vs::check(match f { Float::FP16(x) => (n == 3) & (x as u64 == v) & (b[0] == 0xf9), Float::FP32(x) => (n == 5) & (x as u64 == v) & (b[0] == 0xfa), Float::FP64(x) => (n == 9) & (x == v) & (b[0] == 0xfb) }, 11);
        let mut w = Writer::new(); w.float(f); w.data(&Data::Float(f)); w.encode(&DataOwned::Float(f)); let o = w.finalize();
        if o.len() != 3 * n { vs::check(false, 12) } else { same(&o[..n], &b[..n], 13); same(&o[n..2 * n], &b[..n], 14); same(&o[2 * n..], &b[..n], 15) }
    } else { vs::check((b[0] < 0xf9) | (b[0] > 0xfb), 16) }
    if b[0] >> 5 != 7 { return }
    let mut r = Reader::new(&b); vs::check(matches!(r.data(), Ok(Data::Float(_))) == ((b[0] >= 0xf9) & (b[0] <= 0xfb)), 17);
}

// ---- C11
#[no_mangle] pub fn h_c11_read() {
    let i = raw(9); let b = i.s(); let neg = b[0] >> 5 == 1;
    let mut r = Reader::new(b);
    if let Ok(s) = r.scalar() {
        let v = arg(b, 0); let fits = v >> 63 == 0; let want = if fits { Some(if neg { !(v as i64) } else { v as i64 }) } else { None };
        vs::cover(neg as u32 + 2 * fits as u32 + 10 * extra(b[0]) as u32);
        vs::check((b[0] >> 6 == 0) & (s.is_negative() == neg) & (s.is_positive() == !neg) & (s.raw_value().to_u64() == v), 1);
        vs::check(s.to_i64() == want, 2);
        vs::check(match s { Scalar::Positive(p) => !neg & (p.to_u64() == v), Scalar::Negative(n) => neg & (n.negative_u64() == v) & (n.to_i64() == want), }, 3);
        let mut f = Reader::new(b); if neg { match f.negative() { Ok(n) => vs::check((n.negative_u64() == v) & (n.to_i64() == want) & (n.raw_value() == s.raw_value()), 4), Err(_) => vs::check(false, 5) } } else { vs::check(matches!(f.positive(), Ok(p) if p.to_u64() == v), 6) }
        vs::check(matches!(decode_from_bytes::<Scalar>(&b[..r.consumed_bytes()]), Ok(x) if x == s), 7);
        let mut w = Writer::new(); w.scalar(s); same(&w.finalize(), &b[..r.consumed_bytes()], 8);
    } else { vs::check((b[0] >> 6 != 0) | (b[0] & 31 > 27), 9) }
}
#[no_mangle] pub fn h_c11_make() {
    let v = vs::u64v(); let neg = vs::pick(2) == 1; let fits = v >> 63 == 0; vs::cover(neg as u32 + 2 * fits as u32);
    let s = if neg { Scalar::canonical_negative(v) } else { Scalar::canonical_positive(v) };
    let want = if fits { Some(if neg { -1 - (v as i64) } else { v as i64 }) } else { None };
    vs::check((s.is_negative() == neg) & (s.is_positive() == !neg) & (s.raw_value().to_u64() == v) & s.is_canonical() & (s.to_i64() == want), 11);
    if neg { let n = Negative::canonical(v); vs::check((s == Scalar::Negative(n)) & (n.to_i64() == want) & (n.negative_u64() == v), 12) } else { vs::check(s == Scalar::Positive(Positive::canonical(v)), 13) }
    let mut w = Writer::new(); w.scalar(s); same(&w.finalize(), &enc(neg as u8, v), 14);
}
entries!(h_c05_value, h_c05_native, h_c05_string, h_c05_arr, h_c05_utf8, h_c05_chunks, h_c05_array, h_c05_map, h_c05_header, h_c06_write, h_c06_strlen, h_c06_value, h_c06_read, h_c06_len, h_c07_int, h_c07_string, h_c10_convert, h_c10_bits, h_c11_read, h_c11_make);
