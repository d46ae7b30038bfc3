//! Reference definitions written from RFC 8949 alone; they share nothing with cbored.
//! Well-formedness: as in the RFC, except that two-byte simple values of any number are accepted.
#[derive(Clone, Copy, PartialEq, Eq)]
pub enum M {
    /// well-formed, ends at this position
    Done(usize),
    /// the buffer ends inside a part that takes `.0` bytes of which only `.1` are there
    Cut(u64, usize),
    Bad,
}
pub fn major(b: u8) -> u8 { b >> 5 }
/// number of argument bytes after the lead byte, or 255 for reserved lead bytes
pub fn extra(b: u8) -> usize { match b & 31 { 0..=23 | 31 => 0, 24 => 1, 25 => 2, 26 => 4, 27 => 8, _ => 255 } }
pub fn be(b: &[u8]) -> u64 { let mut v = 0; let mut i = 0; while i < b.len() { v = v << 8 | b[i] as u64; i += 1 } v }
/// argument of the (complete) header at p
pub fn arg(b: &[u8], p: usize) -> u64 { let e = extra(b[p]); if e == 0 { (b[p] & 31) as u64 } else { be(&b[p + 1..p + 1 + e]) } }
pub fn indef(b: u8) -> bool { b & 31 == 31 }
/// the header at p, without regard to what it announces
pub fn header(b: &[u8], p: usize) -> M {
    if p >= b.len() { return M::Cut(1, 0) }
    let e = extra(b[p]); let m = major(b[p]);
    if e == 255 { return M::Bad }
    if indef(b[p]) & ((m <= 1) | (m == 6)) { return M::Bad }
    if b.len() - p - 1 < e { return M::Cut(e as u64, b.len() - p - 1) }
    M::Done(p + 1 + e)
}
/// one data item at p
pub fn item(b: &[u8], p: usize) -> M {
    let q = match header(b, p) { M::Done(q) => q, x => return x };
    let m = major(b[p]); let ind = indef(b[p]);
    match m {
        0 | 1 => M::Done(q),
        2 | 3 => if ind { chunks(b, q, m) } else { payload(b, q, arg(b, p)) },
        4 => if ind { until_break(b, q, false) } else { many(b, q, arg(b, p), 1) },
        5 => if ind { until_break(b, q, true) } else { many(b, q, arg(b, p), 2) },
        6 => item(b, q),
        _ => if ind { M::Bad } else { M::Done(q) },
    }
}
fn payload(b: &[u8], q: usize, n: u64) -> M { if (b.len() - q) as u64 >= n { M::Done(q + n as usize) } else { M::Cut(n, b.len() - q) } }
/// one chunk of an indefinite string of major type m
pub fn chunk(b: &[u8], p: usize, m: u8) -> M {
    if p < b.len() && (major(b[p]) != m) | indef(b[p]) { return M::Bad }
    match header(b, p) {
        M::Done(q) => payload(b, q, arg(b, p)),
        x => x,
    }
}
fn chunks(b: &[u8], mut p: usize, m: u8) -> M {
    loop {
        if p >= b.len() { return M::Cut(1, 0) }
        if b[p] == 0xff { return M::Done(p + 1) }
        match chunk(b, p, m) { M::Done(e) => p = e, x => return x }
    }
}
fn until_break(b: &[u8], mut p: usize, pairs: bool) -> M {
    let mut odd = false;
    loop {
        if p >= b.len() { return M::Cut(1, 0) }
        if b[p] == 0xff { return if odd { M::Bad } else { M::Done(p + 1) } }
        match item(b, p) { M::Done(e) => p = e, x => return x }
        odd = pairs & !odd;
    }
}
fn many(b: &[u8], mut p: usize, n: u64, per: u64) -> M {
    let mut i = 0;
    while i < n {
        let mut k = 0;
        while k < per { match item(b, p) { M::Done(e) => p = e, x => return x } k += 1 }
        i += 1;
    }
    M::Done(p)
}
/// is this sequence of bytes UTF-8 (RFC 3629)?
pub fn utf8(s: &[u8]) -> bool {
    let mut i = 0; let n = s.len();
    let t = |c: u8| c & 0xc0 == 0x80;
    while i < n {
        let a = s[i];
        if a < 0x80 { i += 1 }
        else if (a >= 0xc2) & (a < 0xe0) { if n - i < 2 { return false } if !t(s[i + 1]) { return false } i += 2 }
        else if a & 0xf0 == 0xe0 {
            if n - i < 3 { return false }
            if !(t(s[i + 1]) & t(s[i + 2])) { return false }
            let cp = (a as u32 & 15) << 12 | (s[i + 1] as u32 & 63) << 6 | (s[i + 2] as u32 & 63);
            if (cp < 0x800) | (cp >= 0xd800) & (cp < 0xe000) { return false }
            i += 3
        } else if a & 0xf8 == 0xf0 {
            if n - i < 4 { return false }
            if !(t(s[i + 1]) & t(s[i + 2]) & t(s[i + 3])) { return false }
            let cp = (a as u32 & 7) << 18 | (s[i + 1] as u32 & 63) << 12 | (s[i + 2] as u32 & 63) << 6 | (s[i + 3] as u32 & 63);
            if (cp < 0x10000) | (cp >= 0x110000) { return false }
            i += 4
        } else { return false }
    }
    true
}
/// for a text item that is itself read (major type 3 at p, possibly cut short): are its (complete) chunks UTF-8?
pub fn text_ok(b: &[u8], p: usize) -> bool {
    let q = match header(b, p) { M::Done(q) => q, _ => return true };
    if !indef(b[p]) { return match payload(b, q, arg(b, p)) { M::Done(e) => utf8(&b[q..e]), _ => true } }
    let mut p = q;
    loop {
        if p >= b.len() { return true }
        if b[p] == 0xff { return true }
        match chunk(b, p, 3) { M::Done(e) => { let q = match header(b, p) { M::Done(q) => q, _ => return true }; if !utf8(&b[q..e]) { return false } p = e } _ => return true }
    }
}
/// what reading one element at p must do: the item, but a text element must also be UTF-8
pub fn element(b: &[u8], p: usize) -> M {
    let m = item(b, p);
    if p < b.len() && major(b[p]) == 3 && !text_ok(b, p) { return M::Bad }
    m
}
/// Types as peeked: 0 positive 1 negative 2 bytes 3 text 4 array 5 map 6 tag 7 false 8 true 9 null
/// 10 undefined 11 float 12 byte 13 break, from a lead byte that is not reserved
pub fn ty(b: u8) -> u32 {
    let m = major(b);
    if m < 7 { return m as u32 }
    match b & 31 { 0..=19 | 24 => 12, 20 => 7, 21 => 8, 22 => 9, 23 => 10, 31 => 13, _ => 11 }
}
/// shortest header for a number
pub fn enc(major: u8, v: u64) -> Vec<u8> {
    if v < 24 { encw(major, v, 0) } else if v <= 0xff { encw(major, v, 1) } else if v <= 0xffff { encw(major, v, 2) } else if v <= 0xffff_ffff { encw(major, v, 4) } else { encw(major, v, 8) }
}
/// header with an argument of w bytes
pub fn encw(major: u8, v: u64, w: usize) -> Vec<u8> {
    let mut o = Vec::new(); let h = major * 32;
    match w { 0 => o.push(h + v as u8), 1 => o.push(h + 24), 2 => o.push(h + 25), 4 => o.push(h + 26), _ => o.push(h + 27) }
    let mut i = w; while i > 0 { i -= 1; o.push((v >> (8 * i as u32)) as u8) }
    o
}
/// is the argument of w bytes with this value the shortest possible
pub fn shortest(v: u64, w: usize) -> bool { match w { 0 => true, 1 => v >= 24, 2 => v > 0xff, 4 => v > 0xffff, _ => v > 0xffff_ffff } }
/// payload of the well-formed string at p: all bytes, and the length of each chunk (empty list: definite)
pub fn content(b: &[u8], p: usize) -> (Vec<u8>, Vec<(usize, u64, usize)>) {
    let m = major(b[p]); let mut all = Vec::new(); let mut ch = Vec::new();
    let mut q = p + 1 + extra(b[p]);
    if !indef(b[p]) { let n = arg(b, p) as usize; all.extend_from_slice(&b[q..q + n]); return (all, ch) }
    while b[q] != 0xff {
        let s = q + 1 + extra(b[q]); let n = arg(b, q);
        if let M::Done(e) = chunk(b, q, m) { all.extend_from_slice(&b[s..e]); ch.push((e - s, n, extra(b[q]))); q = e } else { break }
    }
    (all, ch)
}
/// IEEE 754 binary16 to binary32; None for NaN
pub fn f16_f32(v: u16) -> Option<u32> {
    let s = (v as u32 >> 15) << 31; let e = (v as u32 >> 10) & 31; let f = v as u32 & 1023;
    if e == 31 { return if f == 0 { Some(s | 0xff << 23) } else { None } }
    if e > 0 { return Some(s | (e + 112) << 23 | f << 13) }
    if f == 0 { return Some(s) }
    let mut k = 9; while f >> k == 0 { k -= 1 }
    Some(s | (k + 103) << 23 | (f - (1 << k)) << (23 - k))
}
pub fn f32_f64(v: u32) -> Option<u64> {
    let s = (v as u64 >> 31) << 63; let e = (v as u64 >> 23) & 255; let f = v as u64 & 0x7f_ffff;
    if e == 255 { return if f == 0 { Some(s | 0x7ff << 52) } else { None } }
    if e > 0 { return Some(s | (e + 896) << 52 | f << 29) }
    if f == 0 { return Some(s) }
    let mut k = 22; while f >> k == 0 { k -= 1 }
    Some(s | (k + 874) << 52 | (f - (1 << k)) << (52 - k))
}
/// round to nearest, ties to even
pub fn f64_f32(v: u64) -> Option<u32> {
    let s = ((v >> 63) as u32) << 31; let e = (v >> 52) & 0x7ff; let f = v & 0xf_ffff_ffff_ffff;
    if e == 0x7ff { return if f == 0 { Some(s | 0xff << 23) } else { None } }
    if e > 1023 + 127 { return Some(s | 0xff << 23) }
    if e >= 1023 - 126 {
        let q = (e - 896) << 23 | f >> 29; let r = f & 0x1fff_ffff;
        let up = (r > 0x1000_0000) | ((r == 0x1000_0000) & (q & 1 == 1));
        return Some(s | (q as u32 + up as u32))
    }
    if e < 1023 - 150 { return Some(s) } // less than half the smallest subnormal
    let full = 1u64 << 52 | f; let sh = 29 + (897 - e); // 30..=53
    let q = full >> sh; let r = full & ((1u64 << sh) - 1); let half = 1u64 << (sh - 1);
    let up = (r > half) | ((r == half) & (q & 1 == 1));
    Some(s | (q as u32 + up as u32))
}
