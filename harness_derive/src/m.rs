//! What derived types must do: kinds of fields, and cases (types with their expected encoding and decoding)
use crate::k::*;
use crate::vs;
/// a kind of field: how a value of it is chosen, found in bytes, and encoded
/// (named: the derive macro adds the field's name to the error)
pub trait Kind { const NAMED: bool; fn fail(b: &[u8], p: usize, e: usize) -> Option<DecodeError>; type V: PartialEq; fn sym() -> Self::V; fn at(b: &[u8], p: usize, e: usize) -> Option<Self::V>; fn put(v: &Self::V, o: &mut Vec<u8>); }
macro_rules! own { () => { const NAMED: bool = true; fn fail(b: &[u8], p: usize, e: usize) -> Option<DecodeError> { Reader::new(&b[p..e]).decode::<Self::V>().err() } } }
macro_rules! uint { ($($k:ident $t:ty, $s:expr;)*) => { $(pub struct $k; impl Kind for $k { own!(); type V = $t;
    fn sym() -> $t { $s } fn at(b: &[u8], p: usize, _: usize) -> Option<$t> { if major(b[p]) == 0 && arg(b, p) <= <$t>::MAX as u64 { Some(arg(b, p) as $t) } else { None } } fn put(v: &$t, o: &mut Vec<u8>) { o.extend_from_slice(&enc(0, *v as u64)) } })* } }
uint! { U8 u8, vs::byte(); U16 u16, vs::u16v(); U32 u32, vs::u32v(); U64 u64, vs::u64v(); C8 u8, 9; }
pub struct B; impl Kind for B { own!(); type V = bool; fn sym() -> bool { vs::byte() & 1 == 1 } fn at(b: &[u8], p: usize, _: usize) -> Option<bool> { match b[p] { 0xf4 => Some(false), 0xf5 => Some(true), _ => None } } fn put(v: &bool, o: &mut Vec<u8>) { o.push(0xf4 + *v as u8) } }
/// when not 0, the length of all strings and vectors
static mut LEN: usize = 0;
/// the type, and which quarter of the ways to alter an encoding this path takes: one choice, so that the work can be divided by it
static mut PART: u32 = 0;
pub fn split(types: u32) -> u32 { let z = vs::pick(types * 4); unsafe { PART = z / types } z % types }
fn part() -> u32 { unsafe { PART } }
fn short() -> Vec<u8> { if unsafe { LEN > 0 } { let mut v = vec![0x61; unsafe { LEN }]; let n = v.len(); v[0] = vs::byte(); v[n - 1] = vs::byte(); return v } let n = vs::pick(3) as usize; let mut b = [0u8; 2]; vs::fill(&mut b); b[..n].to_vec() }
pub struct S; impl Kind for S { own!(); type V = String;
    fn sym() -> String { let mut v = short(); for x in v.iter_mut() { *x &= 0x7f } String::from_utf8(v).unwrap_or_default() }
    fn at(b: &[u8], p: usize, _: usize) -> Option<String> { if major(b[p]) == 3 && text_ok(b, p) { Some(String::from_utf8_lossy(&content(b, p).0).into_owned()) } else { None } }
    fn put(v: &String, o: &mut Vec<u8>) { o.extend_from_slice(&enc(3, v.len() as u64)); o.extend_from_slice(v.as_bytes()) } }
pub struct By; impl Kind for By { own!(); type V = Vec<u8>; fn sym() -> Vec<u8> { short() }
    fn at(b: &[u8], p: usize, _: usize) -> Option<Vec<u8>> { if major(b[p]) == 2 { Some(content(b, p).0) } else { None } } fn put(v: &Vec<u8>, o: &mut Vec<u8>) { o.extend_from_slice(&enc(2, v.len() as u64)); o.extend_from_slice(v) } }
/// any element
pub struct Any; impl Kind for Any { own!(); type V = DataOwned; fn sym() -> DataOwned { match vs::pick(3) { 0 => DataOwned::Null, 1 => DataOwned::Positive(Positive::canonical(vs::u64v())), _ => DataOwned::Negative(Negative::canonical(vs::byte() as u64)) } }
    fn at(b: &[u8], p: usize, e: usize) -> Option<DataOwned> { let mut r = Reader::new(&b[p..e]); match r.data() { Ok(d) => Some(d.owned()), Err(_) => None } } fn put(v: &DataOwned, o: &mut Vec<u8>) { o.extend_from_slice(&encode_to_bytes(v)) } }
pub struct Sc; impl Kind for Sc { own!(); type V = Scalar; fn sym() -> Scalar { if vs::pick(2) == 0 { Scalar::Negative(Negative::canonical(vs::u64v())) } else { Scalar::Positive(Positive::canonical(vs::u64v())) } }
    fn at(b: &[u8], p: usize, e: usize) -> Option<Scalar> { let mut r = Reader::new(&b[p..e]); match r.scalar() { Ok(d) => Some(d), Err(_) => None } } fn put(v: &Scalar, o: &mut Vec<u8>) { o.extend_from_slice(&encode_to_bytes(v)) } }
pub struct Big; impl Kind for Big { own!(); type V = PositiveBignum; fn sym() -> PositiveBignum { { let mut o = vec![0xc2]; By::put(&short(), &mut o); match decode_from_bytes(&o) { Ok(x) => x, Err(_) => { vs::check(false, 99); loop {} } } } }
    fn at(b: &[u8], p: usize, e: usize) -> Option<PositiveBignum> { let mut r = Reader::new(&b[p..e]); match r.decode() { Ok(d) => Some(d), Err(_) => None } } fn put(v: &PositiveBignum, o: &mut Vec<u8>) { o.extend_from_slice(&encode_to_bytes(v)) } }
/// raw data known to be a T, kept as it is
pub struct Raw<K>(K); impl<K: Kind> Kind for Raw<K> where K::V: Encode + Decode { own!(); type V = CborDataOf<K::V>; fn sym() -> Self::V { CborDataOf::from(&K::sym()) }
    fn at(b: &[u8], p: usize, e: usize) -> Option<Self::V> { K::at(b, p, e)?; let mut r = Reader::new(&b[p..e]); match r.exact_decodable_data() { Ok(d) => Some(d), Err(_) => None } } fn put(v: &Self::V, o: &mut Vec<u8>) { o.extend_from_slice(v.as_ref()) } }
/// a vector written as an array
pub struct Arr<K>(K); impl<K: Kind> Kind for Arr<K> { const NAMED: bool = false;
    fn fail(b: &[u8], p: usize, e: usize) -> Option<DecodeError> { if let Err(x) = Reader::new(&b[p..e]).array() { return Some(DecodeErrorKind::ReaderError(x).context::<Self>()) } let l = els(b, p, 4)?; let mut i = 0; while i < l.n { if let Some(x) = K::fail(b, l.at[i], l.at[i + 1]) { return Some(x) } i += 1 } None }
    type V = Vec<K::V>; fn sym() -> Self::V { let mut v = Vec::new();
    let l = unsafe { LEN }; if l > 0 { unsafe { LEN = 0 } v.push(K::sym()); vs::still(true); while v.len() < l { v.push(K::sym()) } vs::still(false); unsafe { LEN = l } return v }
    let n = vs::pick(3); let mut i = 0; while i < n { v.push(K::sym()); i += 1 } v }
    fn at(b: &[u8], p: usize, _: usize) -> Option<Self::V> { let l = els(b, p, 4)?; let mut v = Vec::new(); let mut i = 0; while i < l.n { v.push(K::at(b, l.at[i], l.at[i + 1])?); i += 1 } Some(v) }
    fn put(v: &Self::V, o: &mut Vec<u8>) { o.extend_from_slice(&enc(4, v.len() as u64)); for x in v { K::put(x, o) } } }
/// another derived type
pub struct N<T>(T); impl<T: Case> Kind for N<T> { own!(); type V = T; fn sym() -> T { T::sym() } fn at(b: &[u8], p: usize, e: usize) -> Option<T> { match T::model(b, p) { Some((v, f)) if f == e => Some(v), _ => None } } fn put(v: &T, o: &mut Vec<u8>) { o.extend_from_slice(&v.want()) } }

/// the items inside the array or map at p: at[i]..at[i + 1] is the i-th; end is after the whole
pub struct Els { pub at: Vec<usize>, pub n: usize, pub end: usize }
pub fn els(b: &[u8], p: usize, m: u8) -> Option<Els> {
    let end = match item(b, p) { M::Done(e) => e, _ => return None };
    if major(b[p]) != m { return None }
    let mut l = Els { at: Vec::new(), n: 0, end }; let mut q = p + 1 + extra(b[p]); l.at.push(q);
    let k = if indef(b[p]) { usize::MAX } else { arg(b, p) as usize * if m == 5 { 2 } else { 1 } };
    while l.n < k && !(k == usize::MAX && b[q] == 0xff) { match item(b, q) { M::Done(e) => q = e, _ => return None } l.n += 1; l.at.push(q) }
    Some(l)
}
/// position of what the tag, if any, is around
pub fn untag(b: &[u8], p: usize, t: Option<u64>) -> Option<usize> {
    let t = match t { None => return Some(p), Some(t) => t };
    match item(b, p) { M::Done(_) => (), _ => return None }
    if major(b[p]) == 6 && arg(b, p) == t { Some(p + 1 + extra(b[p])) } else { None }
}
pub fn whole(b: &[u8], p: usize) -> Option<usize> { match item(b, p) { M::Done(e) => Some(e), _ => None } }
/// a type under test; model: what decoding at p must give and where it must stop
pub enum Blame { Fine, Read(ReaderError), Tag(u64, u64), Other, Key(DecodeError), Field(DecodeError, bool, &'static str, &'static str) }
/// where decoding goes on inside the tag, if any
pub fn inside(b: &[u8], t: Option<u64>) -> Result<&[u8], Blame> {
    let t = match t { None => return Ok(b), Some(t) => t };
    if let Err(x) = Reader::new(b).tag() { return Err(Blame::Read(x)) }
    if arg(b, 0) != t { return Err(Blame::Tag(t, arg(b, 0))) }
    match item(b, 0) { M::Done(e) => Ok(&b[1 + extra(b[0])..e]), _ => { vs::check(false, 98); Err(Blame::Other) } }
}
pub trait Case: Encode + Decode + PartialEq { fn blame(b: &[u8]) -> Blame; fn sym() -> Self; fn model(b: &[u8], p: usize) -> Option<(Self, usize)>; fn want(&self) -> Vec<u8>; const PRE: &'static [&'static [u8]]; }

macro_rules! array { ($T:ident { $($i:tt $f:ident $k:ty),* } $tag:expr, $pre:expr) => { impl Case for $T {
    fn blame(b: &[u8]) -> Blame { let b = match inside(b, $tag) { Ok(c) => c, Err(x) => return x }; if let Err(x) = Reader::new(b).array() { return Blame::Read(x) } let l = match els(b, 0, 4) { Some(l) => l, None => return Blame::Fine };
        let mut n = 0; $(let _ = stringify!($f); n += 1;)* if l.n != n { return Blame::Other } let mut j = 0; $(if let Some(x) = <$k>::fail(b, l.at[j], l.at[j + 1]) { return Blame::Field(x, <$k>::NAMED, stringify!($i), "") } j += 1;)* Blame::Fine }
    const PRE: &'static [&'static [u8]] = $pre;
    fn sym() -> Self { $T { $($i: <$k>::sym()),* } }
    fn model(b: &[u8], p: usize) -> Option<(Self, usize)> { let q = untag(b, p, $tag)?; let l = els(b, q, 4)?; let mut n = 0; $(let _ = stringify!($f); n += 1;)* if l.n != n { return None } let mut j = 0; $(let $f = <$k>::at(b, l.at[j], l.at[j + 1])?; j += 1;)* Some(($T { $($i: $f),* }, l.end)) }
    fn want(&self) -> Vec<u8> { let mut n = 0; $(let _ = stringify!($f); n += 1;)* let mut o = Vec::new(); if let Some(t) = $tag { o.extend_from_slice(&enc(6, t)) } o.extend_from_slice(&enc(4, n)); $(<$k>::put(&self.$i, &mut o);)* o }
} } }
macro_rules! lastopt { ($T:ident { [$($i:tt $f:ident $k:ty),*] $li:tt $lf:ident $lk:ty } $tag:expr, $pre:expr) => { impl Case for $T {
    fn blame(b: &[u8]) -> Blame { let b = match inside(b, $tag) { Ok(c) => c, Err(x) => return x }; if let Err(x) = Reader::new(b).array() { return Blame::Read(x) } let l = match els(b, 0, 4) { Some(l) => l, None => return Blame::Fine };
        let mut n = 0; $(let _ = stringify!($f); n += 1;)* if l.n != n && l.n != n + 1 { return Blame::Other } let mut j = 0; $(if let Some(x) = <$k>::fail(b, l.at[j], l.at[j + 1]) { return Blame::Field(x, <$k>::NAMED, stringify!($i), "") } j += 1;)*
        if l.n > n { if let Some(x) = <$lk>::fail(b, l.at[j], l.at[j + 1]) { return Blame::Field(x, <$lk>::NAMED, stringify!($li), "") } } Blame::Fine }
    const PRE: &'static [&'static [u8]] = $pre;
    fn sym() -> Self { $T { $($i: <$k>::sym(),)* $li: if vs::pick(2) == 1 { Some(<$lk>::sym()) } else { None } } }
    fn model(b: &[u8], p: usize) -> Option<(Self, usize)> { let q = untag(b, p, $tag)?; let l = els(b, q, 4)?; let mut n = 0; $(let _ = stringify!($f); n += 1;)* if l.n != n && l.n != n + 1 { return None } let mut j = 0; $(let $f = <$k>::at(b, l.at[j], l.at[j + 1])?; j += 1;)* let $lf = if l.n == n { None } else { Some(<$lk>::at(b, l.at[j], l.at[j + 1])?) }; Some(($T { $($i: $f,)* $li: $lf }, l.end)) }
    fn want(&self) -> Vec<u8> { let mut n = 0; $(let _ = stringify!($f); n += 1;)* if self.$li.is_some() { n += 1 } let mut o = Vec::new(); if let Some(t) = $tag { o.extend_from_slice(&enc(6, t)) } o.extend_from_slice(&enc(4, n)); $(<$k>::put(&self.$i, &mut o);)* if let Some(x) = &self.$li { <$lk>::put(x, &mut o) } o }
} } }
macro_rules! flat { ($T:ident { $($i:tt $f:ident $k:ty),* } $tag:expr, $pre:expr) => { impl Case for $T {
    fn blame(b: &[u8]) -> Blame { let b = match inside(b, $tag) { Ok(c) => c, Err(x) => return x }; let mut r = Reader::new(b); $(match r.decode::<<$k as Kind>::V>() { Ok(_) => (), Err(x) => return Blame::Field(x, true, stringify!($i), "") })* Blame::Fine }
    const PRE: &'static [&'static [u8]] = $pre;
    fn sym() -> Self { $T { $($i: <$k>::sym()),* } }
    fn model(b: &[u8], p: usize) -> Option<(Self, usize)> { let mut q = untag(b, p, $tag)?; $(let e = whole(b, q)?; let $f = <$k>::at(b, q, e)?; q = e;)* Some(($T { $($i: $f),* }, q)) }
    fn want(&self) -> Vec<u8> { let mut o = Vec::new(); if let Some(t) = $tag { o.extend_from_slice(&enc(6, t)) } $(<$k>::put(&self.$i, &mut o);)* o }
} } }
/// fields with their keys: mandatory ones, then optional ones (in key order in the encoding)
pub fn m_unwrap<T>(x: Option<T>) -> Option<T> { x }
macro_rules! mapint { ($T:ident { $($key:literal $f:ident $mo:ident $k:ty),* } $tag:expr, $pre:expr) => { impl Case for $T {
    fn blame(b: &[u8]) -> Blame { let b = match inside(b, $tag) { Ok(c) => c, Err(x) => return x }; if let Err(x) = Reader::new(b).map() { return Blame::Read(x) } let l = match els(b, 0, 5) { Some(l) => l, None => return Blame::Fine }; $(let mut $f = false;)* let mut j = 0;
        while j < l.n { if let Some(x) = U64::fail(b, l.at[j], l.at[j + 1]) { return Blame::Key(x) } let key = arg(b, l.at[j]); let mut hit = false;
            $(if key == $key { if $f { return Blame::Other } if let Some(x) = <$k>::fail(b, l.at[j + 1], l.at[j + 2]) { return Blame::Field(x, <$k>::NAMED, stringify!($f), "") } $f = true; hit = true; })* if !hit { return Blame::Other } j += 2 }
        $(if !$f && stringify!($mo).len() == 3 && stringify!($mo).as_bytes()[0] == b'm' { return Blame::Other })* Blame::Fine }
    const PRE: &'static [&'static [u8]] = $pre;
    fn sym() -> Self { $T { $($f: mapint!(@sym $mo $k)),* } }
    fn model(b: &[u8], p: usize) -> Option<(Self, usize)> { let q = untag(b, p, $tag)?; let l = els(b, q, 5)?; $(let mut $f: Option<<$k as Kind>::V> = None;)* let mut j = 0;
        while j < l.n { let key = U64::at(b, l.at[j], l.at[j + 1])?; let mut hit = false;
            $(if key == $key { if $f.is_some() { return None } $f = Some(<$k>::at(b, l.at[j + 1], l.at[j + 2])?); hit = true; })* if !hit { return None } j += 2 }
        Some(($T { $($f: mapint!(@get $mo $f)),* }, l.end)) }
    fn want(&self) -> Vec<u8> { let mut n = 0; let mut e = Vec::new(); $(mapint!(@put $mo self.$f, $k, $key, n, e);)* let mut o = Vec::new(); if let Some(t) = $tag { o.extend_from_slice(&enc(6, t)) } o.extend_from_slice(&enc(5, n)); o.extend_from_slice(&e); o }
} };
    (@sym man $k:ty) => { <$k>::sym() }; (@sym opt $k:ty) => { if vs::pick(2) == 1 { Some(<$k>::sym()) } else { None } };
    (@get man $f:ident) => { $f? }; (@get opt $f:ident) => { $f };
    (@put man $v:expr, $k:ty, $key:literal, $n:ident, $e:ident) => { { $n += 1; $e.extend_from_slice(&enc(0, $key)); <$k>::put(&$v, &mut $e) } };
    (@put opt $v:expr, $k:ty, $key:literal, $n:ident, $e:ident) => { if let Some(x) = &$v { $n += 1; $e.extend_from_slice(&enc(0, $key)); <$k>::put(x, &mut $e) } };
}
macro_rules! tagvariant { ($T:ident { $($V:ident $num:literal { $($i:tt $f:ident $k:ty),* })* } $pre:expr) => { impl Case for $T {
    fn blame(b: &[u8]) -> Blame { if let Err(x) = Reader::new(b).array() { return Blame::Read(x) } let l = match els(b, 0, 4) { Some(l) => l, None => return Blame::Fine }; if l.n == 0 { return Blame::Other } if let Some(x) = U64::fail(b, l.at[0], l.at[1]) { return Blame::Key(x) } let num = arg(b, l.at[0]);
        $(if num == $num { let mut n = 1; $(let _ = stringify!($f); n += 1;)* if l.n != n { return Blame::Other } let mut j = 1; $(if let Some(x) = <$k>::fail(b, l.at[j], l.at[j + 1]) { return Blame::Field(x, <$k>::NAMED, stringify!($i), stringify!($V)) } j += 1;)* return Blame::Fine })* Blame::Other }
    const PRE: &'static [&'static [u8]] = $pre;
    fn sym() -> Self { let mut c = 0; $(let _: u64 = $num; c += 1;)* let v = vs::pick(c); let mut j = 0; $(if v == j { return $T::$V { $($i: <$k>::sym()),* } } j += 1;)* loop {} }
    fn model(b: &[u8], p: usize) -> Option<(Self, usize)> { let l = els(b, p, 4)?; if l.n == 0 { return None } let num = U64::at(b, l.at[0], l.at[1])?;
        $(if num == $num { let mut n = 1; $(let _ = stringify!($f); n += 1;)* if l.n != n { return None } let mut j = 1; $(let $f = <$k>::at(b, l.at[j], l.at[j + 1])?; j += 1;)* return Some(($T::$V { $($i: $f),* }, l.end)) })* None }
    fn want(&self) -> Vec<u8> { match self { $($T::$V { $($i: $f),* } => { let mut n = 1; $(let _ = stringify!($f); n += 1;)* let mut o = enc(4, n); o.extend_from_slice(&enc(0, $num)); $(<$k>::put($f, &mut o);)* o })* } }
} } }
macro_rules! enumint { ($T:ident { $($V:ident $num:literal)* } $pre:expr) => { impl Case for $T {
    fn blame(b: &[u8]) -> Blame { if let Some(x) = U64::fail(b, 0, b.len()) { return Blame::Key(x) } $(if arg(b, 0) == $num { return Blame::Fine })* Blame::Other }
    const PRE: &'static [&'static [u8]] = $pre;
    fn sym() -> Self { let mut c = 0; $(let _: u64 = $num; c += 1;)* let v = vs::pick(c); let mut j = 0; $(if v == j { return $T::$V } j += 1;)* loop {} }
    fn model(b: &[u8], p: usize) -> Option<(Self, usize)> { let e = whole(b, p)?; let num = U64::at(b, p, e)?; $(if num == $num { return Some(($T::$V, e)) })* None }
    fn want(&self) -> Vec<u8> { match self { $($T::$V => enc(0, $num),)* } }
} } }
/// $ty: type numbers of `ty`
macro_rules! enumtype { ($T:ident { $($V:ident $ty:literal { $($i:tt $f:ident $k:ty)? })* } $pre:expr) => { impl Case for $T {
    fn blame(b: &[u8]) -> Blame { let t = match Reader::new(b).peek_type() { Ok(t) => tynum(t), Err(x) => return Blame::Read(x) }; $(if t == $ty { $(if let Some(x) = <$k>::fail(b, 0, b.len()) { let _ = stringify!($f); return Blame::Field(x, true, "", stringify!($V)) })? return Blame::Fine })* Blame::Other }
    const PRE: &'static [&'static [u8]] = $pre;
    fn sym() -> Self { let mut c = 0; $(let _: u32 = $ty; c += 1;)* let v = vs::pick(c); let mut j = 0; $(if v == j { let x = $T::$V { $($i: <$k>::sym())? }; vs::assume(ty(x.want()[0]) == $ty); return x } j += 1;)* loop {} }
    fn model(b: &[u8], p: usize) -> Option<(Self, usize)> { let e = whole(b, p)?; let t = ty(b[p]); $(if t == $ty { $(let $f = <$k>::at(b, p, e)?;)? return Some(($T::$V { $($i: $f)? }, e)) })* None }
    fn want(&self) -> Vec<u8> { match self { $($T::$V { $($i: $f)? } => { let mut o = Vec::new(); let mut nul = true; $(<$k>::put($f, &mut o); nul = false;)? if nul { o.push(0xf6) } o })* } }
} } }

/// n bytes after one of the type's prefixes
pub struct Given { a: [u8; 64], n: usize }
impl Given { pub fn s(&self) -> &[u8] { &self.a[..self.n] } }
pub fn given<T: Case>() -> Option<Given> {
    let n = vs::n(0); let pi = vs::n(1); let pre = if pi == 0 { &[][..] } else if pi <= T::PRE.len() { T::PRE[pi - 1] } else { return None };
    let mut a = [0u8; 64]; a[..pre.len()].copy_from_slice(pre); vs::fill(&mut a[pre.len()..pre.len() + n]); Some(Given { a, n: pre.len() + n })
}
/// a valid encoding whose first header (or, with a tag, first or second) has another number, of any width, or is indefinite
pub fn rehead<T: Case>() -> Option<Vec<u8>> {
    let w = part() + 4 * vs::pick(3); let (lvl, how) = (w % 2, w / 2); vs::few(true); let v = T::sym(); vs::few(false); let want = v.want(); let mut p = 0;
    if lvl == 1 { if major(want[0]) != 6 { return None } p = 1 + extra(want[0]) }
    let m = major(want[p]); let e = p + 1 + extra(want[p]); let mut o = want[..p].to_vec();
    if how == 5 { if m != 4 && m != 5 { return None } o.push(m * 32 + 31); o.extend_from_slice(&want[e..]); o.push(0xff) }
    else { let w = [0, 1, 2, 4, 8][how as usize]; let k = vs::u64v(); vs::assume(k <= wmask(w)); o.extend_from_slice(&encw(m, k, w)); o.extend_from_slice(&want[e..]) }
    Some(o)
}
/// the encodings of some fixed values, one or two consecutive bytes of which, anywhere, are any bytes
pub fn edit<T: Case>() -> Option<Vec<u8>> {
    let c = (part() + 4 * vs::pick(8)) as usize; vs::fixed(true); let v = T::sym(); vs::fixed(false); let mut o = v.want(); let n = vs::n(0); if c + n > o.len() { return None } vs::fill(&mut o[c..c + n]); Some(o)
}
/// choose a value, write it, read it back
pub fn written<T: Case>(t: u32) {
    let v = T::sym(); let want = v.want(); let o = encode_to_bytes(&v); same(&o, &want, 1); vs::cover(t); vs::observe(o.len() as u64);
    match decode_from_bytes::<T>(&o) { Ok(x) => vs::check(x == v, 2), Err(_) => vs::check(false, 3) }
    let mut w = Writer::new_from_vec(vec![0x82]); w.encode(&v); w.encode(&true); let o = w.finalize(); vs::check(o.len() == want.len() + 2, 4); if o.len() == want.len() + 2 { same(&o[1..want.len() + 1], &want, 5) }
}
/// decode n bytes after one of the type's prefixes
pub fn decoded<T: Case>(t: u32) {
    let i = match given::<T>() { Some(i) => i, None => return }; let b = i.s();
    let mut r = Reader::new(b);
    match (r.decode::<T>(), T::model(b, 0), decode_from_bytes::<T>(b)) {
        (Ok(x), Some((v, e)), d) => { vs::cover(2 * t); vs::check(x == v, 11); vs::check(r.consumed_bytes() == e, 12); vs::check(match d { Ok(y) => (e == b.len()) && y == v, Err(_) => e < b.len() }, 13); let o = encode_to_bytes(&x); same(&o, &v.want(), 14); vs::observe(e as u64) }
        (Err(_), None, Err(_)) => vs::cover(2 * t + 1),
        (x, m, d) => { vs::check(x.is_ok() == m.is_some(), 15); vs::check(d.is_ok() == m.is_some(), 16) }
    }
}
pub fn reheaded<T: Case>(t: u32) {
    let o = match rehead::<T>() { Some(o) => o, None => return };
    let b = &o[..];
    match (decode_from_bytes::<T>(b), T::model(b, 0)) { (Ok(x), Some((y, e))) => { vs::cover(2 * t); vs::check((x == y) & (e == b.len()), 51) } (Err(_), Some((_, e))) => { vs::cover(2 * t + 1); vs::check(e < b.len(), 52) } (Err(_), None) => vs::cover(2 * t + 1), (Ok(_), None) => vs::check(false, 53) }
}
pub fn edited<T: Case>(t: u32) {
    let o = match edit::<T>() { Some(o) => o, None => return }; let b = &o[..];
    match (decode_from_bytes::<T>(b), T::model(b, 0)) { (Ok(x), Some((y, e))) => { vs::cover(2 * t); vs::check((x == y) & (e == b.len()), 61) } (Err(_), Some((_, e))) => { vs::cover(2 * t + 1); vs::check(e < b.len(), 62) } (Err(_), None) => vs::cover(2 * t + 1), (Ok(_), None) => vs::check(false, 63) }
}
/// values whose strings and vectors are long
pub fn longish<T: Case>(t: u32) { let l = [24, 255, 256][vs::pick(3) as usize]; unsafe { LEN = l } vs::few(true); written::<T>(t) }

// ---- C25: errors
fn ctx_is(e: &DecodeError, i: usize, want: &[u8], id: u32) { let c = e.context(); if i >= c.len() { vs::check(false, id) } else { same(c[i].as_bytes(), want, id) } }
fn only_self<T>(e: &DecodeError, id: u32) { vs::check(e.context().len() == 1, id); ctx_is(e, 0, std::any::type_name::<T>().as_bytes(), id) }
/// the error x as it was, then, in the context, the names, then at most the type
fn wraps<T>(e: &DecodeError, x: &DecodeError, names: &[&[u8]], id: u32) {
    vs::check(dsig(e.error()) == dsig(x.error()), id);
    let (c, d) = (e.context(), x.context()); if c.len() < d.len() { vs::check(false, id); return } let mut k = 0; while k < d.len() { same(c[k].as_bytes(), d[k].as_bytes(), id + 1); k += 1 }
    for n in names { if n.len() > 0 { ctx_is(e, k, n, id + 2); k += 1 } }
    vs::check(c.len() <= k + 1, id + 3); if c.len() == k + 1 { ctx_is(e, k, std::any::type_name::<T>().as_bytes(), id + 4) }
}
pub fn blamed<T: Case>(b: &[u8], t: u32) {
    let e = match Reader::new(b).decode::<T>() { Ok(_) => return, Err(e) => e };
    match T::blame(b) {
        Blame::Fine => vs::check(false, 70),
        Blame::Read(x) => { vs::cover(8 * t); vs::check(dsig(e.error()) == sig(&x), 71); only_self::<T>(&e, 72) }
        Blame::Tag(w, g) => { vs::cover(8 * t + 1); vs::check(dsig(e.error()) == (6, w, g, 0), 73); only_self::<T>(&e, 74) }
        Blame::Other => { vs::cover(8 * t + 2); vs::check(dsig(e.error()).0 == 23, 75); only_self::<T>(&e, 76) }
        Blame::Key(x) => { vs::cover(8 * t + 3); wraps::<T>(&e, &x, &[], 80) }
        Blame::Field(x, false, _, _) => { vs::cover(8 * t + 4); vs::check(dsig(e.error()) == dsig(x.error()), 77) }
        Blame::Field(x, true, f, v) => { vs::cover(8 * t + 5); let mut n = Vec::new(); if f.len() > 0 && f.as_bytes()[0] <= b'9' { n.extend_from_slice(b"field") } n.extend_from_slice(f.as_bytes()); wraps::<T>(&e, &x, &[&n, v.as_bytes()], 85) }
    }
}
pub fn blame_given<T: Case>(t: u32) { if let Some(i) = given::<T>() { blamed::<T>(i.s(), t) } }
pub fn blame_rehead<T: Case>(t: u32) { if let Some(o) = rehead::<T>() { blamed::<T>(&o, t) } }
pub fn blame_edit<T: Case>(t: u32) { if let Some(o) = edit::<T>() { blamed::<T>(&o, t) } }
/// the text of a custom error tells these
pub fn tells<T: Decode>(b: &[u8], what: &[&[u8]], id: u32) {
    match decode_from_bytes::<T>(b) { Ok(_) => vs::check(false, id), Err(e) => match e.error() { DecodeErrorKind::Custom(s) => for w in what { vs::check(has(s.as_bytes(), w), id + 1) }, _ => vs::check(false, id + 2) } }
}
/// w occurs in s, not within a longer number or word
fn has(s: &[u8], w: &[u8]) -> bool {
    let word = |i: usize| i < s.len() && (s[i] as char).is_ascii_alphanumeric(); let mut i = 0;
    while i + w.len() <= s.len() { if &s[i..i + w.len()] == w && !word(i + w.len()) && (i == 0 || !word(i - 1)) { return true } i += 1 } false
}
pub fn dec(n: u64) -> Vec<u8> { let mut v = Vec::new(); let mut n = n; loop { v.insert(0, b'0' + (n % 10) as u8); n /= 10; if n == 0 { return v } } }
pub fn zeros(m: u8, n: usize) -> Vec<u8> { let mut o = enc(m, n as u64); for _ in 0..n { o.push(0) } o }
