//! C21: derived enums
use crate::k::*;
use crate::m::*;
use crate::vs;
#[derive(CborRepr, PartialEq)] #[cborrepr(structure = "array")] pub struct Pt { x: u8, y: u8 }
array!(Pt { x x U8, y y U8 } None, &[]);
#[derive(CborRepr, PartialEq)] #[cborrepr(structure = "mapint")] pub struct Mp { #[cborrepr(mandatory)] x: u8, y: Option<u8> }
mapint!(Mp { 0 x man U8, 1 y opt U8 } None, &[]);
#[derive(CborRepr, PartialEq)] #[cborrepr(enumtype = "tagvariant")] pub enum T1 { One(u32), Two(u64, String), Three { a: u8, b: bool, c: Vec<u8> }, Four, Five(Pt) }
tagvariant!(T1 { One 0 { 0 f0 U32 } Two 1 { 0 f0 U64, 1 f1 S } Three 2 { a a U8, b b B, c c By } Four 3 {} Five 4 { 0 f0 N<Pt> } } &[&[0x82], &[0x84, 2, 0], &[0x83, 1, 0x1b, 0, 0, 0, 0, 1], &[0x9f], &[0x82, 4], &[0x82, 4, 0x82], &[0x83, 1, 0], &[0x81], &[0x82, 0x18]]);
#[derive(CborRepr, PartialEq)] #[cborrepr(variant_starts_at = 2, skipkey = 3, skipkey = 4)] pub enum T2 { A, B(u8), C(Vec<u16>), D(#[cborrepr(variant = "vec")] Vec<u8>), E(Vec<u8>), F(Vec<Pt>, u8) }
tagvariant!(T2 { A 2 {} B 5 { 0 f0 U8 } C 6 { 0 f0 Arr<U16> } D 7 { 0 f0 Arr<U8> } E 8 { 0 f0 By } F 9 { 0 f0 Arr<N<Pt>>, 1 f1 U8 } } &[&[0x82], &[0x81], &[0x82, 6, 0x82], &[0x82, 7], &[0x82, 8], &[0x83, 9, 0x81, 0x82], &[0x9f, 6, 0x9f], &[0x82, 6, 0x81, 0x19], &[0x83, 9, 0x80], &[0x82, 7, 0x82, 0]]);
#[derive(CborRepr, PartialEq)] #[cborrepr(enumtype = "tagvariant", variant_starts_at = 22, skipkey = 24)] pub enum T3 { A, B { q: u8 }, C, D(bool) }
tagvariant!(T3 { A 22 {} B 23 { q q U8 } C 25 {} D 26 { 0 f0 B } } &[&[0x81], &[0x81, 0x18], &[0x82, 0x18], &[0x81, 0x19, 0], &[0x82, 23], &[0x9f, 0x18]]);
#[derive(CborRepr, PartialEq)] #[cborrepr(enumtype = "tagvariant", variant_starts_at = 254, skipkey = 255)] pub enum T4 { A(T3), B(DataOwned), C(CborDataOf<u8>) }
tagvariant!(T4 { A 254 { 0 f0 N<T3> } B 256 { 0 f0 Any } C 257 { 0 f0 Raw<U8> } } &[&[0x82, 0x18], &[0x82, 0x18, 254], &[0x82, 0x19, 1], &[0x82, 0x18, 254, 0x82], &[0x82, 0x19, 1, 0], &[0x82, 0x1a, 0, 0]]);
#[derive(CborRepr, PartialEq)] #[cborrepr(enumtype = "enumint")] pub enum I1 { A, B, C }
enumint!(I1 { A 0 B 1 C 2 } &[&[0x18], &[0x19, 0], &[0x1a, 0, 0], &[0x1b, 0, 0, 0, 0, 0]]);
#[derive(CborRepr, PartialEq)] #[cborrepr(enumtype = "enumint", variant_starts_at = 22, skipkey = 22, skipkey = 25)] pub enum I2 { A, B, C, D }
enumint!(I2 { A 23 B 24 C 26 D 27 } &[&[0x18], &[0x19, 0], &[0x1a, 0, 0], &[0x1b, 0, 0, 0, 0, 0]]);
#[derive(CborRepr, PartialEq)] #[cborrepr(enumtype = "enumint", variant_starts_at = 4294967294, skipkey = 4294967295, skipkey = 0)] pub enum I3 { A, B }
enumint!(I3 { A 4294967294 B 4294967296 } &[&[0x1a, 0xff], &[0x1b, 0, 0, 0], &[0x1b, 0, 0, 0, 1, 0]]);
#[derive(CborRepr, PartialEq)] #[cborrepr(enumtype = "enumtype")] pub enum Y1 { #[cborrepr(cbortype = "null")] Empty, #[cborrepr(cbortype = "positive")] One(u64) }
enumtype!(Y1 { Empty 9 {} One 0 { 0 f0 U64 } } &[&[0xf8], &[0x1b, 0, 0, 0, 0]]);
#[derive(CborRepr, PartialEq)] #[cborrepr(enumtype = "enumtype")] pub enum Y2 { #[cborrepr(cbortype = "positive")] P { v: u8 }, #[cborrepr(cbortype = "negative")] N(Scalar), #[cborrepr(cbortype = "array")] A(Pt), #[cborrepr(cbortype = "map")] M(Mp), #[cborrepr(cbortype = "tag")] T(PositiveBignum), #[cborrepr(cbortype = "bytes")] B(Vec<u8>), #[cborrepr(cbortype = "text")] S { s: String }, #[cborrepr(cbortype = "null")] Z }
enumtype!(Y2 { P 0 { v f U8 } N 1 { 0 f Sc } A 4 { 0 f N<Pt> } M 5 { 0 f N<Mp> } T 6 { 0 f Big } B 2 { 0 f By } S 3 { s f S } Z 9 {} } &[&[0x82], &[0xa2, 0], &[0xc2], &[0x5f], &[0x7f], &[0xbf], &[0x39], &[0x9f], &[0xd8, 2], &[0xa1]]);
#[derive(CborRepr, PartialEq)] #[cborrepr(enumtype = "enumtype")] pub enum Y3 { #[cborrepr(cbortype = "bytes")] B(CborDataOf<Vec<u8>>), #[cborrepr(cbortype = "array")] A(T1) }
enumtype!(Y3 { B 2 { 0 f Raw<By> } A 4 { 0 f N<T1> } } &[&[0x82], &[0x84, 2, 0], &[0x5f], &[0x58], &[0x82, 4]]);
#[derive(CborRepr, PartialEq)] pub enum T5 { A { a: u8, b: bool, c: u16, d: String, e: u8 }, B(u8, bool, u16, Vec<u8>, u32, String), C(bool, Vec<Pt>, Vec<bool>, u8) }
tagvariant!(T5 { A 0 { a a U8, b b B, c c U16, d d S, e e U8 } B 1 { 0 f0 U8, 1 f1 B, 2 f2 U16, 3 f3 By, 4 f4 U32, 5 f5 S } C 2 { 0 f0 B, 1 f1 Arr<N<Pt>>, 2 f2 Arr<B>, 3 f3 U8 } } &[&[0x86, 0], &[0x86, 0, 1, 0xf4, 2], &[0x86, 0, 1, 0xf4, 2, 0x60], &[0x87, 1, 1, 0xf4, 2], &[0x87, 1, 1, 0xf4, 2, 0x40], &[0x87, 1, 1, 0xf4, 2, 0x40, 3], &[0x85, 2, 0xf4, 0x80], &[0x85, 2, 0xf4, 0x80, 0x81, 0xf4], &[0x85, 2, 0xf4, 0x81, 0x82], &[0x9f, 0, 1, 0xf4, 2, 0x60]]);
#[derive(CborRepr, PartialEq)] #[cborrepr(enumtype = "enumint", skipkey = 3, skipkey = 24)] pub enum I4 { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25 }
enumint!(I4 { V0 0 V1 1 V2 2 V3 4 V4 5 V5 6 V6 7 V7 8 V8 9 V9 10 V10 11 V11 12 V12 13 V13 14 V14 15 V15 16 V16 17 V17 18 V18 19 V19 20 V20 21 V21 22 V22 23 V23 25 V24 26 V25 27 } &[&[0x18], &[0x19, 0], &[0x1a, 0, 0], &[0x1b, 0, 0, 0, 0, 0]]);
fn go(t: u32, how: u32) { macro_rules! d { ($t:ident) => { match how { 0 => decoded::<$t>(t), 1 => written::<$t>(t), 2 => reheaded::<$t>(t), 3 => edited::<$t>(t), 4 => longish::<$t>(t), 5 => blame_given::<$t>(t), 6 => blame_rehead::<$t>(t), _ => blame_edit::<$t>(t) } } } match t { 0 => d!(T1), 1 => d!(T2), 2 => d!(T3), 3 => d!(T4), 4 => d!(I1), 5 => d!(I2), 6 => d!(I3), 7 => d!(Y1), 8 => d!(Y2), 9 => d!(Y3), 10 => d!(T5), _ => d!(I4) } }
#[no_mangle] pub fn h_c21_dec() { let t = vs::pick(12); go(t, 0) }
#[no_mangle] pub fn h_c21_enc() { let t = vs::pick(12); go(t, 1) }
#[no_mangle] pub fn h_c21_head() { go(split(12), 2) }
#[no_mangle] pub fn h_c21_edit() { go(split(12), 3) }
#[no_mangle] pub fn h_c21_long() { let t = vs::pick(12); go(t, 4) }
/// every 64-bit number in every width as a variant number
#[no_mangle] pub fn h_c21_numbers() {
    let t = vs::pick(6); let k = vs::u64v(); let w = pick_w(); vs::assume(k <= wmask(w)); let mut o = Vec::new(); if t < 3 { o.push(0x81) } o.extend_from_slice(&encw(0, k, w));
    fn chk<T: Case>(o: &[u8], t: u32) { match (decode_from_bytes::<T>(o), T::model(o, 0)) { (Ok(x), Some((y, e))) => { vs::cover(2 * t); vs::check((x == y) & (e == o.len()), 31) } (Err(_), None) => vs::cover(2 * t + 1), _ => vs::check(false, 32) } }
    match t { 0 => chk::<T1>(&o, t), 1 => chk::<T2>(&o, t), 2 => chk::<T3>(&o, t), 3 => chk::<I1>(&o, t), 4 => chk::<I2>(&o, t), _ => chk::<I3>(&o, t) }
}
#[no_mangle] pub fn h_c25_21_dec() { let t = vs::pick(12); go(t, 5) }
#[no_mangle] pub fn h_c25_21_head() { go(split(12), 6) }
#[no_mangle] pub fn h_c25_21_edit() { go(split(12), 7) }
/// the variant number that is unknown, or the counts that differ, and whose, are told
#[no_mangle] pub fn h_c25_21_text() {
    vs::realfmt(); let k = [5u64, 22, 25, 28, 300, 70000, 1 << 40][vs::pick(7) as usize]; let n = [1usize, 2, 3, 4, 5, 24][vs::pick(6) as usize];
    let arr = |v: u64, n: usize| { let mut o = enc(4, n as u64); o.extend_from_slice(&enc(0, v)); for _ in 1..n { o.push(0) } o };
    match vs::pick(6) {
        0 => { vs::cover(0); tells::<T1>(&arr(k, n), &[b"T1", &dec(k)], 1) } 1 => if k != 25 { vs::cover(1); tells::<T3>(&arr(if k == 22 { 24 } else { k }, n), &[b"T3", &dec(if k == 22 { 24 } else { k })], 1) },
        2 => if n != 4 { vs::cover(2); tells::<T1>(&arr(2, n), &[b"Three", &dec(n as u64), b"4"], 1) }, 3 => if n != 1 { vs::cover(3); tells::<T1>(&arr(3, n), &[b"Four", &dec(n as u64), b"1"], 1) },
        4 => { vs::cover(4); tells::<I1>(&enc(0, k), &[b"I1", &dec(k)], 1) } _ => { vs::cover(5); tells::<T1>(&[0x80], &[b"T1"], 1) }
    }
}
entries!(h_c25_21_text, h_c25_21_dec, h_c25_21_head, h_c25_21_edit, h_c21_dec, h_c21_enc, h_c21_head, h_c21_edit, h_c21_long, h_c21_numbers);
