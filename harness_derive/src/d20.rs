//! C20: derived integer-keyed maps
use crate::k::*;
use crate::m::*;
use crate::vs;
#[derive(CborRepr, PartialEq)] #[cborrepr(structure = "mapint")] pub struct M1 { #[cborrepr(mandatory)] a: u8, #[cborrepr(mandatory)] b: u32, c: Option<u64> }
mapint!(M1 { 0 a man U8, 1 b man U32, 2 c opt U64 } None, &[&[0xa2], &[0xa3, 1, 1], &[0xbf], &[0xa2, 1, 0x1a], &[0xa2, 0x18], &[0xbf, 2, 0, 0, 0], &[0xb8], &[0xa3, 2, 0, 0, 0], &[0xa2, 0, 0, 0x1b, 0, 0, 0, 0]]);
#[derive(CborRepr, PartialEq)] #[cborrepr(structure = "mapint", map_starts_at = 5, skipkey = 6, skipkey = 9)] pub struct M2 { #[cborrepr(mandatory)] a: u8, b: Option<bool>, #[cborrepr(mandatory)] c: u8, d: Option<u8> }
mapint!(M2 { 5 a man U8, 7 b opt B, 8 c man U8, 10 d opt U8 } None, &[&[0xa2], &[0xa2, 5, 0], &[0xa3, 8, 0, 5, 0], &[0xbf, 8, 0, 5, 0], &[0xa3, 5, 0, 8, 0], &[0xa4, 10, 0, 5, 0, 7, 0xf5]]);
#[derive(CborRepr, PartialEq)] #[cborrepr(structure = "mapint", tag = 258)] pub struct M3 { a: Option<u8>, b: Option<bool> }
mapint!(M3 { 0 a opt U8, 1 b opt B } Some(258), &[&[0xd9], &[0xd9, 1, 2], &[0xd9, 1, 2, 0xa1], &[0xd9, 1, 2, 0xbf], &[0xd9, 1, 2, 0xa2, 1, 0xf4], &[0xda, 0, 0, 1]]);
#[derive(CborRepr, PartialEq)] #[cborrepr(structure = "mapint", map_starts_at = 22)] pub struct M4 { #[cborrepr(mandatory)] a: u8, b: Option<u8>, c: Option<u8>, d: Option<u8> }
mapint!(M4 { 22 a man U8, 23 b opt U8, 24 c opt U8, 25 d opt U8 } None, &[&[0xa1], &[0xa1, 0x18], &[0xa2, 22, 0], &[0xa2, 22, 0, 0x18], &[0xa2, 22, 0, 0x19, 0], &[0xa2, 22, 0, 0x18, 0x18], &[0xbf, 22, 0, 0x18, 25]]);
#[derive(CborRepr, PartialEq)] #[cborrepr(structure = "mapint", map_starts_at = 254, skipkey = 254, skipkey = 256)] pub struct M5 { a: Option<u64>, b: Option<String>, #[cborrepr(mandatory)] c: bool }
mapint!(M5 { 255 a opt U64, 257 b opt S, 258 c man B } None, &[&[0xa1, 0x19], &[0xa1, 0x19, 1, 2], &[0xa2, 0x19, 1, 2, 0xf4, 0x18], &[0xa2, 0x19, 1, 2, 0xf4, 0x19, 1], &[0xa1, 0x1a, 0, 0, 1], &[0xa2, 0x19, 1, 2, 0xf5, 0x19, 1, 1, 0x7f]]);
#[derive(CborRepr, PartialEq)] #[cborrepr(structure = "mapint", skipkey = 0, skipkey = 1, skipkey = 2)] pub struct M6 { a: Option<M3>, #[cborrepr(mandatory)] b: M1 }
mapint!(M6 { 3 a opt N<M3>, 4 b man N<M1> } None, &[&[0xa1, 4, 0xa2], &[0xa1, 4, 0xa2, 0, 0], &[0xa2, 4, 0xa2, 0, 0, 1, 0, 3, 0xd9, 1, 2], &[0xa2, 4, 0xa2, 0, 0, 1, 0]]);
#[derive(CborRepr, PartialEq)] #[cborrepr(structure = "mapint", map_starts_at = 4294967295)] pub struct M7 { #[cborrepr(mandatory)] a: u16, b: Option<DataOwned>, c: Option<Vec<u8>> }
mapint!(M7 { 4294967295 a man U16, 4294967296 b opt Any, 4294967297 c opt By } None, &[&[0xa1, 0x1a, 0xff, 0xff], &[0xa1, 0x1a, 0xff, 0xff, 0xff, 0xff], &[0xa2, 0x1a, 0xff, 0xff, 0xff, 0xff, 0, 0x1b, 0, 0, 0, 1, 0, 0], &[0xa2, 0x1a, 0xff, 0xff, 0xff, 0xff, 0, 0x1b, 0, 0, 0, 1, 0, 0, 0, 0], &[0xa1, 0x1b, 0, 0, 0, 0, 0xff, 0xff]]);
#[derive(CborRepr, PartialEq)] #[cborrepr(structure = "mapint")] pub struct M8 { f0: Option<u8>, f1: Option<u8>, f2: Option<u8>, f3: Option<u8>, f4: Option<u8>, f5: Option<u8>, f6: Option<u8>, f7: Option<u8>, f8: Option<u8>, f9: Option<u8>, f10: Option<u8>, f11: Option<u8>, f12: Option<u8>, f13: Option<u8>, f14: Option<u8>, f15: Option<u8>, f16: Option<u8>, f17: Option<u8>, f18: Option<u8>, f19: Option<u8>, f20: Option<u8>, f21: Option<u8>, f22: Option<u8>, f23: Option<u8>, f24: Option<u8>, f25: Option<u8>, f26: Option<u8>, f27: Option<u8>, f28: Option<u8>, f29: Option<u8>, f30: Option<u8>, f31: Option<u8>, f32: Option<u8>, f33: Option<u8> }
/// 34 fields: only the first two chosen (by pick2) are present
macro_rules! few { ($($k:literal $f:ident),*) => { impl Case for M8 {
    const PRE: &'static [&'static [u8]] = &[&[0xa1], &[0xa1, 0x18], &[0xa2, 0], &[0xa2, 0x18, 32, 0], &[0xbf, 0x18], &[0xa2, 0x18, 33, 0, 0x18]];
    fn blame(b: &[u8]) -> Blame { if let Err(x) = Reader::new(b).map() { return Blame::Read(x) } let l = match els(b, 0, 5) { Some(l) => l, None => return Blame::Fine }; let mut seen = [false; 34]; let mut j = 0;
        while j < l.n { if let Some(x) = U64::fail(b, l.at[j], l.at[j + 1]) { return Blame::Key(x) } let key = arg(b, l.at[j]); match key { $($k => { if seen[$k] { return Blame::Other } if let Some(x) = U8::fail(b, l.at[j + 1], l.at[j + 2]) { return Blame::Field(x, true, stringify!($f), "") } seen[$k] = true })* _ => return Blame::Other } j += 2 } Blame::Fine }
    fn sym() -> Self { let i = vs::pick(34); let j = if vs::is_few() { (i + 11) % 34 } else { vs::pick(34) }; let v = [vs::byte(), vs::byte()]; M8 { $($f: if i == $k { Some(v[0]) } else if j == $k { Some(v[1]) } else { None }),* } }
    fn model(b: &[u8], p: usize) -> Option<(Self, usize)> { let l = els(b, p, 5)?; $(let mut $f: Option<u8> = None;)* let mut j = 0;
        while j < l.n { let key = U64::at(b, l.at[j], l.at[j + 1])?; match key { $($k => { if $f.is_some() { return None } $f = Some(U8::at(b, l.at[j + 1], l.at[j + 2])?) })* _ => return None } j += 2 }
        Some((M8 { $($f),* }, l.end)) }
    fn want(&self) -> Vec<u8> { let mut n = 0; let mut e = Vec::new(); $(if let Some(x) = self.$f { n += 1; e.extend_from_slice(&enc(0, $k)); e.extend_from_slice(&enc(0, x as u64)) })* let mut o = enc(5, n); o.extend_from_slice(&e); o }
} } }
few!(0 f0, 1 f1, 2 f2, 3 f3, 4 f4, 5 f5, 6 f6, 7 f7, 8 f8, 9 f9, 10 f10, 11 f11, 12 f12, 13 f13, 14 f14, 15 f15, 16 f16, 17 f17, 18 f18, 19 f19, 20 f20, 21 f21, 22 f22, 23 f23, 24 f24, 25 f25, 26 f26, 27 f27, 28 f28, 29 f29, 30 f30, 31 f31, 32 f32, 33 f33);
#[derive(CborRepr, PartialEq)] #[cborrepr(structure = "mapint")] #[cborrepr(tag = 31)] pub struct M9 {}
mapint!(M9 {} Some(31), &[&[0xd8, 31], &[0xd8]]);
#[derive(CborRepr, PartialEq)] #[cborrepr(structure = "mapint", skipkey = 1, skipkey = 2, skipkey = 4, map_starts_at = 1)] pub struct M10 { #[cborrepr(mandatory)] z: bool, y: Option<u8>, #[cborrepr(mandatory)] x: u8, w: Option<bool> }
mapint!(M10 { 3 z man B, 5 y opt U8, 6 x man U8, 7 w opt B } None, &[&[0xa2, 6, 0], &[0xa2], &[0xa3, 6, 0, 3, 0xf4], &[0xbf, 3, 0xf5], &[0xa3, 7, 0xf4, 6, 0]]);
#[derive(CborRepr, PartialEq)] #[cborrepr(structure = "mapint")] pub struct M11 { a: Option<u8>, b: Option<bool>, c: Option<u16>, #[cborrepr(mandatory)] d: u8 }
mapint!(M11 { 0 a opt U8, 1 b opt B, 2 c opt U16, 3 d man U8 } None, &[&[0xa1], &[0xa3, 0, 0, 1, 0xf4], &[0xa1, 3], &[0xa2, 2, 1, 3], &[0xa3, 0, 0, 1, 0xf4, 2, 0], &[0xa4, 3, 1, 2, 2, 1, 0xf4], &[0xa0]]);
#[derive(CborRepr, PartialEq)] #[cborrepr(structure = "mapint", map_starts_at = 20, skipkey = 22, tag = 300)] pub struct M12 { #[cborrepr(mandatory)] a: bool, b: Option<u8>, #[cborrepr(mandatory)] c: u8, d: Option<u64>, #[cborrepr(mandatory)] e: u16, f: Option<u8>, #[cborrepr(mandatory)] g: String }
mapint!(M12 { 20 a man B, 21 b opt U8, 23 c man U8, 24 d opt U64, 25 e man U16, 26 f opt U8, 27 g man S } Some(300), &[&[0xd9, 1, 0x2c], &[0xd9, 1, 0x2c, 0xa3, 20, 0xf4, 23, 0, 0x18, 25, 0], &[0xd9, 1, 0x2c, 0xa4, 20, 0xf4, 23, 0, 0x18, 25, 0, 0x18], &[0xd9, 1, 0x2c, 0xa4, 20, 0xf4, 23, 0, 0x18, 25, 0, 0x18, 27], &[0xd9, 1, 0x2c, 0xa4, 20, 0xf4, 0x18, 27, 0x60, 0x18, 25, 0], &[0xd9, 1, 0x2c, 0xa5, 20, 0xf4, 23, 0, 0x18, 25, 0, 0x18, 27, 0x60]]);
fn go(t: u32, how: u32) { macro_rules! d { ($t:ident) => { match how { 0 => decoded::<$t>(t), 1 => written::<$t>(t), 2 => reheaded::<$t>(t), 3 => edited::<$t>(t), 4 => longish::<$t>(t), 5 => blame_given::<$t>(t), 6 => blame_rehead::<$t>(t), _ => blame_edit::<$t>(t) } } } match t { 0 => d!(M1), 1 => d!(M2), 2 => d!(M3), 3 => d!(M4), 4 => d!(M5), 5 => d!(M6), 6 => d!(M7), 7 => d!(M8), 8 => d!(M9), 9 => d!(M10), 10 => d!(M11), _ => d!(M12) } }
#[no_mangle] pub fn h_c20_dec() { let t = vs::pick(12); go(t, 0) }
#[no_mangle] pub fn h_c20_enc() { let t = vs::pick(12); go(t, 1) }
#[no_mangle] pub fn h_c20_head() { go(split(12), 2) }
#[no_mangle] pub fn h_c20_edit() { go(split(12), 3) }
#[no_mangle] pub fn h_c20_long() { let t = vs::pick(12); go(t, 4) }
/// two entries of M2 or M4 with symbolic 64-bit keys of any header width, in any order
#[no_mangle] pub fn h_c20_keys() {
    let t = vs::pick(3); let (k1, k2) = (vs::u64v(), vs::u64v()); let (w1, w2) = (pick_w(), pick_w()); vs::assume((k1 <= wmask(w1)) & (k2 <= wmask(w2)));
    let ind = vs::pick(2) == 1; let v = vs::pick(2) == 1; let put = |o: &mut Vec<u8>| o.push(if v { 7 } else { 0xf5 });
    let mut o = if ind { vec![0xbf] } else { vec![0xa2] }; o.extend_from_slice(&encw(0, k1, w1)); o.push(0); o.extend_from_slice(&encw(0, k2, w2)); put(&mut o); if ind { o.push(0xff) }
    fn chk<T: Case>(o: &[u8], t: u32) { match (decode_from_bytes::<T>(o), T::model(o, 0)) { (Ok(x), Some((y, e))) => { vs::cover(2 * t); vs::check((x == y) & (e == o.len()), 31) } (Err(_), None) => vs::cover(2 * t + 1), _ => vs::check(false, 32) } }
    match t { 0 => chk::<M2>(&o, t), 1 => chk::<M4>(&o, t), _ => chk::<M7>(&o, t) }
}
#[no_mangle] pub fn h_c25_20_dec() { let t = vs::pick(12); go(t, 5) }
#[no_mangle] pub fn h_c25_20_head() { go(split(12), 6) }
#[no_mangle] pub fn h_c25_20_edit() { go(split(12), 7) }
/// the key that is unknown or duplicated, or the name of the field that is missing, is told
#[no_mangle] pub fn h_c25_20_text() {
    vs::realfmt(); let k = [3u64, 23, 24, 300, 70000, 1 << 40, u64::MAX][vs::pick(7) as usize];
    let e = |ks: &[u64]| { let mut o = enc(5, ks.len() as u64); for k in ks { o.extend_from_slice(&enc(0, *k)); o.push(0) } o };
    match vs::pick(7) {
        0 => { vs::cover(0); tells::<M1>(&e(&[0, 1, k]), &[&dec(k)], 1) } 1 => { vs::cover(1); tells::<M1>(&e(&[k]), &[&dec(k)], 1) } 2 => { vs::cover(2); tells::<M1>(&e(&[0, 1, 2, 1]), &[b"1"], 1) } 3 => { vs::cover(3); tells::<M4>(&e(&[22, 24, 24]), &[b"24"], 1) }
        4 => { vs::cover(4); tells::<M1>(&e(&[1, 2]), &[b"a"], 1) } 5 => { vs::cover(5); tells::<M1>(&e(&[2, 0]), &[b"b"], 1) } _ => { vs::cover(6); tells::<M8>(&e(&[33, 0, 33]), &[b"33"], 1) }
    }
}
entries!(h_c25_20_text, h_c25_20_dec, h_c25_20_head, h_c25_20_edit, h_c20_dec, h_c20_enc, h_c20_head, h_c20_edit, h_c20_long, h_c20_keys);
