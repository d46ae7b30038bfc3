//! C19: derived arrays, arrays with an optional last field, flat structures
use crate::k::*;
use crate::m::*;
use crate::vs;
#[derive(CborRepr, PartialEq)] #[cborrepr(structure = "array")] pub struct A1 { a: u8, b: u64, c: bool }
array!(A1 { a a U8, b b U64, c c B } None, &[&[0x83], &[0x9f], &[0x83, 0x18], &[0x83, 1, 0x1b, 0, 0, 0, 1], &[0x84], &[0x98, 3]]);
#[derive(CborRepr, PartialEq)] #[cborrepr(structure = "array")] pub struct A2(u16, String);
array!(A2 { 0 a U16, 1 b S } None, &[&[0x82], &[0x9f], &[0x82, 0, 0x7f], &[0x82, 0x19], &[0x99, 0], &[0x82, 7, 0x78]]);
#[derive(CborRepr, PartialEq)] #[cborrepr(structure = "array", tag = 300)] pub struct A3 { a: u32 }
array!(A3 { a a U32 } Some(300), &[&[0xd9], &[0xd9, 1, 0x2c], &[0xda, 0, 0, 1], &[0xd9, 1, 0x2c, 0x81, 0x1a], &[0xd9, 1, 0x2c, 0x9f], &[0xdb, 0, 0, 0, 0, 0, 0, 1]]);
#[derive(CborRepr, PartialEq)] #[cborrepr(tag = 5000000000, structure = "array")] pub struct A4(u8, Vec<u8>);
array!(A4 { 0 a U8, 1 b By } Some(5000000000u64), &[&[0xdb, 0, 0, 0, 1, 0x2a, 0x05, 0xf2], &[0xdb, 0, 0, 0, 1, 0x2a, 0x05, 0xf2, 0], &[0xdb, 0, 0, 0, 1, 0x2a, 0x05, 0xf2, 0, 0x82, 3]]);
#[derive(CborRepr, PartialEq)] #[cborrepr(structure = "array")] pub struct A5 {}
array!(A5 {} None, &[&[0x9f], &[0x81]]);
#[derive(CborRepr, PartialEq)] #[cborrepr(structure = "array")] pub struct A6 { p: A1, q: DataOwned, r: CborDataOf<u8> }
array!(A6 { p p N<A1>, q q Any, r r Raw<U8> } None, &[&[0x83, 0x83, 0, 0, 0xf5], &[0x83, 0x83], &[0x83, 0x9f, 0, 0, 0xf4], &[0x9f, 0x83, 0, 0, 0xf5]]);
#[derive(CborRepr, PartialEq)] #[cborrepr(structure = "array")] pub struct A7 { a: u8, #[cborrepr(variant = "vec")] b: Vec<u16>, #[cborrepr(variant = "vec")] c: Vec<u8> }
array!(A7 { a a U8, b b Arr<U16>, c c Arr<U8> } None, &[&[0x83, 0], &[0x83, 0, 0x82], &[0x9f, 0, 0x81, 0], &[0x83, 0, 0x80, 0x9f]]);
#[derive(CborRepr, PartialEq)] #[cborrepr(structure = "array", tag = 0)] pub struct A8(String);
array!(A8 { 0 a S } Some(0), &[&[0xc0], &[0xc0, 0x81], &[0xd8, 0]]);
#[derive(CborRepr, PartialEq)] #[cborrepr(structure = "array")] pub struct A9(u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8);
array!(A9 { 0 f0 U8, 1 f1 C8, 2 f2 C8, 3 f3 C8, 4 f4 C8, 5 f5 C8, 6 f6 C8, 7 f7 C8, 8 f8 C8, 9 f9 C8, 10 f10 C8, 11 f11 C8, 12 f12 C8, 13 f13 C8, 14 f14 C8, 15 f15 C8, 16 f16 C8, 17 f17 C8, 18 f18 C8, 19 f19 C8, 20 f20 C8, 21 f21 C8, 22 f22 C8, 23 f23 U8, 24 f24 U8 } None,
    &[&[0x98, 25, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22], &[0x9f, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23], &[0x98, 24, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21]]);
#[derive(CborRepr, PartialEq)] #[cborrepr(structure = "array_lastopt")] pub struct L1 { a: u8, b: Option<u8> }
lastopt!(L1 { [a a U8] b b U8 } None, &[&[0x81], &[0x82], &[0x9f], &[0x80], &[0x83, 0, 0], &[0x9f, 0, 0]]);
#[derive(CborRepr, PartialEq)] #[cborrepr(structure = "array_lastopt")] pub struct L2 { b: Option<u64> }
lastopt!(L2 { [] b b U64 } None, &[&[0x81], &[0x81, 0x1b, 0, 0, 0, 0, 1], &[0x9f]]);
#[derive(CborRepr, PartialEq)] #[cborrepr(structure = "array_lastopt", tag = 24)] pub struct L3 { a: bool, b: u16, c: Option<String> }
lastopt!(L3 { [a a B, b b U16] c c S } Some(24), &[&[0xd8], &[0xd8, 24, 0x83], &[0xd8, 24, 0x82], &[0xd8, 24, 0x9f], &[0xd8, 24, 0x83, 0xf4, 9], &[0xd8, 24, 0x84, 0xf4, 0]]);
#[derive(CborRepr, PartialEq)] #[cborrepr(structure = "array_lastopt")] pub struct L4 { a: DataOwned, b: Option<DataOwned> }
lastopt!(L4 { [a a Any] b b Any } None, &[&[0x81], &[0x82, 0xf6], &[0x9f, 0xf6], &[0x82]]);
#[derive(CborRepr, PartialEq)] #[cborrepr(structure = "array_lastopt")] pub struct L5 { a: L1, b: Option<L1> }
lastopt!(L5 { [a a N<L1>] b b N<L1> } None, &[&[0x82, 0x81, 0], &[0x81, 0x82], &[0x82, 0x82, 0, 0]]);
#[derive(CborRepr, PartialEq)] #[cborrepr(structure = "array_lastopt")] pub struct L6 { #[cborrepr(variant = "vec")] a: Vec<u16>, b: Option<Vec<u8>> }
lastopt!(L6 { [a a Arr<U16>] b b By } None, &[&[0x82, 0x81, 0], &[0x81, 0x82], &[0x9f, 0x9f]]);
#[derive(CborRepr, PartialEq)] #[cborrepr(structure = "flat")] pub struct F1 { x: u8, y: u16 }
flat!(F1 { x x U8, y y U16 } None, &[&[0x18], &[0, 0x19], &[0]]);
#[derive(CborRepr, PartialEq)] pub struct F2(u64);
flat!(F2 { 0 a U64 } None, &[&[0x1b, 0, 0, 0, 0, 0]]);
#[derive(CborRepr, PartialEq)] #[cborrepr(structure = "flat", tag = 1000)] pub struct F3(u32);
flat!(F3 { 0 a U32 } Some(1000), &[&[0xd9], &[0xd9, 3, 0xe8], &[0xda, 0, 0, 3]]);
#[derive(CborRepr, PartialEq)] #[cborrepr(structure = "flat", tag = 7)] pub struct F4 { a: A1 }
flat!(F4 { a a N<A1> } Some(7), &[&[0xc7], &[0xc7, 0x83], &[0xc7, 0x9f]]);
#[derive(CborRepr, PartialEq)] #[cborrepr(structure = "flat")] pub struct F5(bool, Vec<u8>, L1);
flat!(F5 { 0 a B, 1 b By, 2 c N<L1> } None, &[&[0xf4], &[0xf5, 0x41], &[0xf4, 0x40, 0x82], &[0xf4, 0x5f, 0xff]]);
#[derive(CborRepr, PartialEq)] #[cborrepr(structure = "array")] #[cborrepr(tag = 2)] pub struct A10 { in_order: F1x, last: bool }
#[derive(CborRepr, PartialEq)] #[cborrepr(structure = "array", tag = 23)] pub struct F1x(u8);
array!(F1x { 0 a U8 } Some(23), &[&[0xd7], &[0xd7, 0x81]]);
array!(A10 { in_order a N<F1x>, last b B } Some(2), &[&[0xc2, 0x82, 0xd7], &[0xc2, 0x82, 0xd7, 0x81], &[0xc1]]);
#[derive(CborRepr, PartialEq)] #[cborrepr(structure = "array")] pub struct A11(u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8);
array!(A11 { 0 f0 U8, 1 f1 C8, 2 f2 C8, 3 f3 C8, 4 f4 C8, 5 f5 C8, 6 f6 C8, 7 f7 C8, 8 f8 C8, 9 f9 C8, 10 f10 C8, 11 f11 C8, 12 f12 C8, 13 f13 C8, 14 f14 C8, 15 f15 C8, 16 f16 C8, 17 f17 C8, 18 f18 C8, 19 f19 C8, 20 f20 C8, 21 f21 C8, 22 f22 C8, 23 f23 C8, 24 f24 C8, 25 f25 C8, 26 f26 C8, 27 f27 C8, 28 f28 C8, 29 f29 C8, 30 f30 C8, 31 f31 C8, 32 f32 C8, 33 f33 C8, 34 f34 C8, 35 f35 C8, 36 f36 C8, 37 f37 C8, 38 f38 C8, 39 f39 C8, 40 f40 C8, 41 f41 C8, 42 f42 C8, 43 f43 C8, 44 f44 C8, 45 f45 C8, 46 f46 C8, 47 f47 C8, 48 f48 C8, 49 f49 C8, 50 f50 C8, 51 f51 C8, 52 f52 C8, 53 f53 C8, 54 f54 C8, 55 f55 C8, 56 f56 C8, 57 f57 C8, 58 f58 C8, 59 f59 C8, 60 f60 C8, 61 f61 C8, 62 f62 C8, 63 f63 C8, 64 f64 C8, 65 f65 C8, 66 f66 C8, 67 f67 C8, 68 f68 C8, 69 f69 C8, 70 f70 C8, 71 f71 C8, 72 f72 C8, 73 f73 C8, 74 f74 C8, 75 f75 C8, 76 f76 C8, 77 f77 C8, 78 f78 C8, 79 f79 C8, 80 f80 C8, 81 f81 C8, 82 f82 C8, 83 f83 C8, 84 f84 C8, 85 f85 C8, 86 f86 C8, 87 f87 C8, 88 f88 C8, 89 f89 C8, 90 f90 C8, 91 f91 C8, 92 f92 C8, 93 f93 C8, 94 f94 C8, 95 f95 C8, 96 f96 C8, 97 f97 C8, 98 f98 C8, 99 f99 C8, 100 f100 C8, 101 f101 C8, 102 f102 C8, 103 f103 C8, 104 f104 C8, 105 f105 C8, 106 f106 C8, 107 f107 C8, 108 f108 C8, 109 f109 C8, 110 f110 C8, 111 f111 C8, 112 f112 C8, 113 f113 C8, 114 f114 C8, 115 f115 C8, 116 f116 C8, 117 f117 C8, 118 f118 C8, 119 f119 C8, 120 f120 C8, 121 f121 C8, 122 f122 C8, 123 f123 C8, 124 f124 C8, 125 f125 C8, 126 f126 C8, 127 f127 C8, 128 f128 C8, 129 f129 C8, 130 f130 C8, 131 f131 C8, 132 f132 C8, 133 f133 C8, 134 f134 C8, 135 f135 C8, 136 f136 C8, 137 f137 C8, 138 f138 C8, 139 f139 C8, 140 f140 C8, 141 f141 C8, 142 f142 C8, 143 f143 C8, 144 f144 C8, 145 f145 C8, 146 f146 C8, 147 f147 C8, 148 f148 C8, 149 f149 C8, 150 f150 C8, 151 f151 C8, 152 f152 C8, 153 f153 C8, 154 f154 C8, 155 f155 C8, 156 f156 C8, 157 f157 C8, 158 f158 C8, 159 f159 C8, 160 f160 C8, 161 f161 C8, 162 f162 C8, 163 f163 C8, 164 f164 C8, 165 f165 C8, 166 f166 C8, 167 f167 C8, 168 f168 C8, 169 f169 C8, 170 f170 C8, 171 f171 C8, 172 f172 C8, 173 f173 C8, 174 f174 C8, 175 f175 C8, 176 f176 C8, 177 f177 C8, 178 f178 C8, 179 f179 C8, 180 f180 C8, 181 f181 C8, 182 f182 C8, 183 f183 C8, 184 f184 C8, 185 f185 C8, 186 f186 C8, 187 f187 C8, 188 f188 C8, 189 f189 C8, 190 f190 C8, 191 f191 C8, 192 f192 C8, 193 f193 C8, 194 f194 C8, 195 f195 C8, 196 f196 C8, 197 f197 C8, 198 f198 C8, 199 f199 C8, 200 f200 C8, 201 f201 C8, 202 f202 C8, 203 f203 C8, 204 f204 C8, 205 f205 C8, 206 f206 C8, 207 f207 C8, 208 f208 C8, 209 f209 C8, 210 f210 C8, 211 f211 C8, 212 f212 C8, 213 f213 C8, 214 f214 C8, 215 f215 C8, 216 f216 C8, 217 f217 C8, 218 f218 C8, 219 f219 C8, 220 f220 C8, 221 f221 C8, 222 f222 C8, 223 f223 C8, 224 f224 C8, 225 f225 C8, 226 f226 C8, 227 f227 C8, 228 f228 C8, 229 f229 C8, 230 f230 C8, 231 f231 C8, 232 f232 C8, 233 f233 C8, 234 f234 C8, 235 f235 C8, 236 f236 C8, 237 f237 C8, 238 f238 C8, 239 f239 C8, 240 f240 C8, 241 f241 C8, 242 f242 C8, 243 f243 C8, 244 f244 C8, 245 f245 C8, 246 f246 C8, 247 f247 C8, 248 f248 C8, 249 f249 C8, 250 f250 C8, 251 f251 C8, 252 f252 C8, 253 f253 C8, 254 f254 C8, 255 f255 U8, 256 f256 U8, 257 f257 C8, 258 f258 C8, 259 f259 U8 } None, &[&[0x99, 1], &[0x98], &[0x84], &[0x9f]]);
#[derive(CborRepr, PartialEq)] #[cborrepr(structure = "array", tag = 65536)] pub struct A12 { a: u8, b: u16, c: String, d: bool, e: u32 }
array!(A12 { a a U8, b b U16, c c S, d d B, e e U32 } Some(65536), &[&[0xda], &[0xda, 0, 1, 0, 0], &[0xda, 0, 1, 0, 0, 0x85, 0, 1, 0x60], &[0xda, 0, 1, 0, 0, 0x9f, 0, 1, 0x60, 0xf4], &[0xda, 0, 1, 0, 0, 0x85, 0, 1]]);
#[derive(CborRepr, PartialEq)] #[cborrepr(structure = "array")] pub struct A13(bool, u8, Vec<u8>, u64, String, u16);
array!(A13 { 0 a B, 1 b U8, 2 c By, 3 d U64, 4 e S, 5 f U16 } None, &[&[0x86], &[0x86, 0xf4], &[0x86, 0xf4, 1, 0x40], &[0x86, 0xf4, 1, 0x40, 2], &[0x86, 0xf4, 1, 0x40, 2, 0x60], &[0x9f, 0xf4, 1, 0x40, 2, 0x60, 3]]);
#[derive(CborRepr, PartialEq)] #[cborrepr(structure = "array_lastopt", tag = 256)] pub struct L7 { a: u8, b: bool, c: u16, d: String, e: Option<u16> }
lastopt!(L7 { [a a U8, b b B, c c U16, d d S] e e U16 } Some(256), &[&[0xd9, 1, 0], &[0xd9, 1, 0, 0x84, 0, 0xf4, 1], &[0xd9, 1, 0, 0x85, 0, 0xf4, 1, 0x60], &[0xd9, 1, 0, 0x9f, 0, 0xf4, 1], &[0xd9, 1, 0, 0x85, 0, 0xf4, 1], &[0xd9, 1, 0, 0x83, 0, 0xf4]]);
#[derive(CborRepr, PartialEq)] #[cborrepr(structure = "flat")] pub struct F6 { a: u8, b: String, c: bool, d: u32, e: A2 }
flat!(F6 { a a U8, b b S, c c B, d d U32, e e N<A2> } None, &[&[0], &[0, 0x60], &[0, 0x60, 0xf4], &[0, 0x60, 0xf4, 0], &[0, 0x60, 0xf4, 0, 0x82], &[0, 0x60, 0xf4, 0, 0x82, 1]]);
macro_rules! types { ($g:ident: $($n:literal $t:ident),*) => { fn $g(t: u32, how: u32) { match t { $($n => match how { 0 => decoded::<$t>(t), 1 => written::<$t>(t), 2 => reheaded::<$t>(t), 3 => edited::<$t>(t), 4 => longish::<$t>(t), 5 => blame_given::<$t>(t), 6 => blame_rehead::<$t>(t), _ => blame_edit::<$t>(t) },)* _ => () } } } }
types!(go: 0 A1, 1 A2, 2 A3, 3 A4, 4 A5, 5 A6, 6 A7, 7 A8, 8 A9, 9 L1, 10 L2, 11 L3, 12 L4, 13 L5, 14 L6, 15 F1, 16 F2, 17 F3, 18 F4, 19 F5, 20 A10, 21 F1x, 22 A12, 23 A13, 24 L7, 25 F6, 26 A11);
#[no_mangle] pub fn h_c19_dec() { let t = vs::pick(27); go(t, 0) }
#[no_mangle] pub fn h_c19_enc() { let t = vs::pick(27); go(t, 1) }
#[no_mangle] pub fn h_c19_head() { go(split(26), 2) }
#[no_mangle] pub fn h_c19_edit() { go(split(26), 3) }
#[no_mangle] pub fn h_c19_long() { let t = vs::pick(27); go(t, 4) }
#[no_mangle] pub fn h_c25_19_dec() { let t = vs::pick(26); go(t, 5) }
#[no_mangle] pub fn h_c25_19_head() { go(split(26), 6) }
#[no_mangle] pub fn h_c25_19_edit() { go(split(26), 7) }
/// 260 fields: the count itself, and numbers it could be mistaken for, followed by as many elements or by 260
#[no_mangle] pub fn h_c19_many() {
    let k = [260u64, 4, 259, 261, 516, 65796, (1 << 32) + 260][vs::pick(7) as usize]; let w = [1, 2, 4, 8][vs::pick(4) as usize]; let all = vs::pick(2) == 1; if k > wmask(w) { return }
    let mut o = encw(4, k, w); let n = if all || k > 300 { 260 } else { k }; for j in 0..n { o.push(if j == 0 || j == 255 || j == 256 { 0 } else { 9 }) } let h = o.len() - n as usize; if h < o.len() { o[h] = vs::byte() }
    match (decode_from_bytes::<A11>(&o), A11::model(&o, 0)) { (Ok(x), Some((y, e))) => { vs::cover(0); vs::check((x == y) & (e == o.len()), 61) } (Err(_), m) => { vs::cover(1 + all as u32); vs::check(match m { Some((_, e)) => e < o.len(), None => true }, 62) } (Ok(_), None) => vs::check(false, 63) }
}
/// a wrong count is told
#[no_mangle] pub fn h_c25_19_text() {
    vs::realfmt(); let n = [0usize, 1, 2, 3, 4, 10, 24, 100, 256][vs::pick(9) as usize]; let g = dec(n as u64);
    match vs::pick(4) {
        0 => if n != 3 { vs::cover(0); tells::<A1>(&zeros(4, n), &[&g, b"3"], 1) },
        1 => if n != 2 { vs::cover(1); tells::<A2>(&zeros(4, n), &[&g, b"2"], 1) },
        2 => if n != 1 && n != 2 { vs::cover(2); tells::<L1>(&zeros(4, n), &[&g, b"1", b"2"], 1) },
        _ => if n != 260 { vs::cover(3); tells::<A11>(&zeros(4, n), &[&g, b"260"], 1) },
    }
}
entries!(h_c25_19_text, h_c25_19_dec, h_c25_19_head, h_c25_19_edit, h_c19_dec, h_c19_enc, h_c19_head, h_c19_edit, h_c19_long, h_c19_many);
