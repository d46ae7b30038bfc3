//! C12, C13, C14, C16, C17, C18, C22: containers, strings, state machine, tagged types, raw data, whole input, writer
use crate::b::{put, slen, LENS};
use crate::k::*;
use crate::vs;
use std::borrow::Borrow;

// ---- C12
fn rd_is(r: &mut Reader, s: &[u8], id: u32) {
    vs::check((r.consumed_bytes() == 0) & (r.remaining_bytes() == s.len()), id);
    // what it reads is what those bytes alone give
    match (r.data(), Reader::new(s).data()) { (Ok(a), Ok(b)) => vs::check(a == b, id), (Err(_), Err(_)) => (), _ => vs::check(false, id) }
}
fn any(r: &mut Reader) -> Result<DataOwned, DecodeErrorKind> { r.data().map(|d| d.owned()).map_err(DecodeErrorKind::ReaderError) }
fn tile(b: &[u8]) {
    let op = vs::pick(3); let mut r = Reader::new(b);
    let el = match op {
        0 => { let a = match r.array() { Ok(a) => a, Err(_) => return }; let n = r.consumed_bytes();
            let (p, ind) = (1 + extra(b[0]), indef(b[0])); let k = a.len(); vs::cover(ind as u32); if k > 0 { vs::cover(2 + ind as u32) } if k > 1 { vs::cover(4 + ind as u32) }
            vs::check(ind || k as u64 == arg(b, 0), 1);
            vs::check(match a.struct_len() { StructureLength::Indefinite => ind, StructureLength::Definite(h) => !ind & hv_is(h, arg(b, 0), p - 1) }, 2);
            let o = a.owned(); vs::check((o.len() == k) & (o.struct_len() == a.struct_len()), 3);
            let mut q = p; let mut i = 0;
            { let mut it = a.iter(); let mut io = o.iter();
            while i < k { let s = a[i].as_ref(); vs::check(s.len() <= n - q, 4); match item(b, q) { M::Done(e) => { vs::check(s.len() == e - q, 5); same(s, &b[q..e], 6); same(o[i].as_ref(), s, 7);
                match it.next() { Some(mut r) => rd_is(&mut r, s, 8), None => vs::check(false, 9) } match io.next() { Some(mut r) => rd_is(&mut r, s, 10), None => vs::check(false, 11) } q = e } _ => { vs::check(false, 12); return } } i += 1 }
            vs::check(it.next().is_none() & io.next().is_none(), 13); }
            vs::check(o.borrow() == a, 14);
            match (a.to_vec(any), o.to_vec(any)) { (Ok(x), Ok(y)) => { vs::check((x.len() == k) & (y.len() == k), 15); let mut i = 0; while i < k { let s = a[i].as_ref(); same(&encode_to_bytes(&x[i]), s, 16); same(&encode_to_bytes(&y[i]), s, 17); i += 1 } }
                (Err(_), Err(_)) => { vs::cover(6); let mut bad = false; for mut r in a.iter() { bad |= r.data().is_err() } vs::check(bad, 18) } _ => vs::check(false, 19) }
            (q, n, ind) }
        1 => { let a = match r.map() { Ok(a) => a, Err(_) => return }; let n = r.consumed_bytes();
            let (p, ind) = (1 + extra(b[0]), indef(b[0])); let k = a.len(); vs::cover(10 + ind as u32); if k > 0 { vs::cover(12 + ind as u32) } if k > 1 { vs::cover(14 + ind as u32) }
            vs::check(ind || k as u64 == arg(b, 0), 31);
            vs::check(match a.struct_len() { StructureLength::Indefinite => ind, StructureLength::Definite(h) => !ind & hv_is(h, arg(b, 0), p - 1) }, 32);
            let o = a.owned(); vs::check((o.len() == k) & (o.struct_len() == a.struct_len()), 33);
            let mut q = p; let mut i = 0;
            { let (mut it, mut io, mut ks, mut vls, mut ko, mut vo) = (a.iter(), o.iter(), a.keys(), a.values(), o.keys(), o.values());
            while i < k { let (x, y) = (a[i].0.as_ref(), a[i].1.as_ref());
                let e = match item(b, q) { M::Done(e) => e, _ => { vs::check(false, 34); return } }; same(x, &b[q..e], 35);
                let f = match item(b, e) { M::Done(f) => f, _ => { vs::check(false, 36); return } }; same(y, &b[e..f], 37); q = f;
                match (it.next(), io.next()) { (Some((mut c, mut d)), Some((mut f, mut g))) => { rd_is(&mut c, x, 38); rd_is(&mut d, y, 39); rd_is(&mut f, x, 40); rd_is(&mut g, y, 41) } _ => vs::check(false, 42) }
                match (ks.next(), vls.next(), ko.next(), vo.next()) { (Some(mut c), Some(mut d), Some(mut f), Some(mut g)) => { rd_is(&mut c, x, 43); rd_is(&mut d, y, 44); rd_is(&mut f, x, 45); rd_is(&mut g, y, 46) } _ => vs::check(false, 47) }
                i += 1 }
            vs::check(it.next().is_none() & io.next().is_none() & ks.next().is_none() & vls.next().is_none() & ko.next().is_none() & vo.next().is_none(), 48); }
            vs::check(o.borrow() == a, 49);
            match (a.to_vec(any, any), o.to_vec(any, any)) { (Ok(x), Ok(y)) => { vs::check((x.len() == k) & (y.len() == k), 50); let mut i = 0; while i < k { same(&encode_to_bytes(&x[i].0), a[i].0.as_ref(), 51); same(&encode_to_bytes(&x[i].1), a[i].1.as_ref(), 52); same(&encode_to_bytes(&y[i].0), a[i].0.as_ref(), 53); same(&encode_to_bytes(&y[i].1), a[i].1.as_ref(), 54); i += 1 } }
                (Err(_), Err(_)) => { vs::cover(16); let mut bad = false; for (mut r, mut s) in a.iter() { bad |= r.data().is_err() | s.data().is_err() } vs::check(bad, 55) } _ => vs::check(false, 56) }
            (q, n, ind) }
        _ => { let t = match r.tag() { Ok(t) => t, Err(_) => return }; let n = r.consumed_bytes(); let p = 1 + extra(b[0]); vs::cover(20);
            vs::check((t.value() == arg(b, 0)) & hv_is(t.tag_repr().raw_value(), arg(b, 0), p - 1), 61);
            let td = t.data(); let s = td.as_ref(); match item(b, p) { M::Done(e) => { vs::check(e == n, 62); same(s, &b[p..e], 63) } _ => { vs::check(false, 64); return } }
            rd_is(&mut t.reader(), s, 65); let o = t.owned(); vs::check((o.value() == t.value()) & (o.tag_repr() == t.tag_repr()), 66); same(o.data().as_ref(), s, 67); rd_is(&mut o.read_data(), s, 68); vs::check(o.borrow() == t, 69);
            match (t.decode_data::<DataOwned>(), t.read_data(|r| r.data().map(|d| d.owned()))) { (Ok(x), Ok(y)) => { same(&encode_to_bytes(&x), s, 70); vs::check(x == y, 71) } (Err(_), Err(_)) => vs::check(Reader::new(s).data().is_err(), 72), _ => vs::check(false, 73) }
            (n, n, false) }
    };
    let (q, n, ind) = el; vs::observe(n as u64);
    if ind { vs::check(q + 1 == n && b[q] == 0xff, 81) } else { vs::check(q == n, 82) }
}
#[no_mangle] pub fn h_c12() { let i = input(); tile(i.s()) }
#[no_mangle] pub fn h_c12_wide() { let i = wide(); tile(i.s()) }

// ---- C13
fn strings(b: &[u8]) {
    let text = vs::pick(2) == 1; let mut r = Reader::new(b); let m = if text { 3 } else { 2 };
    let full = match item(b, 0) { M::Done(e) if major(b[0]) == m => Some(e), _ => None };
    let want = full.is_some() && (!text || text_ok(b, 0));
    if text {
        match r.text() { Err(_) => { vs::cover(0); if full.is_some() { vs::cover(1) } vs::check(!want, 1) }
            Ok(t) => { vs::check(want, 2); if !want { return } let (c, ch) = content(b, 0); vs::check(r.consumed_bytes() == full.unwrap_or(0), 3); vs::cover(2 + (ch.len() as u32).min(3));
                same(t.to_string().as_bytes(), &c, 4);
                let l = t.to_str_chunks();
                match &t { Text::Imm(x) => { vs::check(!indef(b[0]) & (l.len() == 1), 5); same(l[0].as_bytes(), &c, 6); same(x.as_str().as_bytes(), &c, 7); vs::check(hv_is(x.value(), c.len() as u64, extra(b[0])), 8); let o = x.owned(); same(o.as_str().as_bytes(), &c, 9); vs::check((o.borrow() == *x) & (o.value() == x.value()), 10) }
                    Text::Chunks(v) => { vs::check(indef(b[0]) & (v.len() == ch.len()) & (l.len() == ch.len()), 11); let mut i = 0; let mut p = 0; while i < ch.len() { let (n, a, w) = ch[i]; same(v[i].as_str().as_bytes(), &c[p..p + n], 12); same(l[i].as_bytes(), &c[p..p + n], 13); vs::check(hv_is(v[i].value(), a, w), 14); p += n; i += 1 } vs::check(p == c.len(), 15) } }
                let o = t.owned(); vs::check(o.borrow() == t, 16); vs::check(utf8(&c) | (ch.len() > 1), 17);
            } }
    } else {
        match r.bytes() { Err(_) => { vs::cover(10); vs::check(!want, 21) }
            Ok(t) => { vs::check(want, 22); if !want { return } let (c, ch) = content(b, 0); vs::check((r.consumed_bytes() == full.unwrap_or(0)) & (t.len() == c.len()), 23); vs::cover(12 + (ch.len() as u32).min(3));
                same(&t.to_vec(), &c, 24);
                match &t { Bytes::Imm(x) => { vs::check(!indef(b[0]), 25); same(x.as_slice(), &c, 26); vs::check(hv_is(x.value(), c.len() as u64, extra(b[0])), 27); let o = x.owned(); same(o.as_slice(), &c, 28); vs::check((o.borrow() == *x) & (o.value() == x.value()), 29) }
                    Bytes::Chunks(v) => { vs::check(indef(b[0]) & (v.len() == ch.len()), 30); let mut i = 0; let mut p = 0; while i < ch.len() { let (n, a, w) = ch[i]; same(v[i].as_slice(), &c[p..p + n], 31); vs::check(hv_is(v[i].value(), a, w), 32); p += n; i += 1 } vs::check(p == c.len(), 33) } }
                let o = t.owned(); vs::check(o.borrow() == t, 34);
            } }
    }
}
#[no_mangle] pub fn h_c13() { let i = input(); strings(i.s()) }
#[no_mangle] pub fn h_c13_wide() { let i = wide(); strings(i.s()) }
/// longer texts: a definite text of param 0 symbolic bytes
#[no_mangle] pub fn h_c13_utf8() {
    let n = vs::n(0); let mut b = [0u8; 16]; vs::fill(&mut b[1..1 + n]); b[0] = 0x60 + n as u8; let b = &b[..1 + n];
    let ok = utf8(&b[1..]); vs::cover(ok as u32);
    match Reader::new(b).text() { Ok(t) => { vs::check(ok, 41); same(t.to_string().as_bytes(), &b[1..], 42) } Err(e) => vs::check(!ok & matches!(e, ReaderError::TextUTF8Error(_)), 43) }
    vs::check(matches!(Reader::new(b).data(), Ok(Data::Text(_))) == ok, 44); vs::check(decode_from_bytes::<String>(b).is_ok() == ok, 45);
}

// ---- C14
#[derive(Clone, Copy)]
enum F { Arr(u64), Map(u64, bool), IArr, IMap(bool), Str(u8), Tag }
struct P { s: Box<[F]>, n: usize }
impl P {
    fn top(&self) -> Option<F> { if self.n > 0 { Some(self.s[self.n - 1]) } else { None } }
    fn push(&mut self, f: F) { self.s[self.n] = f; self.n += 1 }
    /// an item is complete
    fn done(&mut self) {
        loop {
            match self.top() {
                None => return,
                Some(F::Arr(k)) => { self.n -= 1; if k > 1 { self.push(F::Arr(k - 1)); return } }
                Some(F::Map(k, false)) => { self.n -= 1; self.push(F::Map(k, true)); return }
                Some(F::Map(k, true)) => { self.n -= 1; if k > 1 { self.push(F::Map(k - 1, false)); return } }
                Some(F::IMap(odd)) => { self.n -= 1; self.push(F::IMap(!odd)); return }
                Some(F::Tag) => { self.n -= 1 }
                Some(F::IArr) | Some(F::Str(_)) => return,
            }
        }
    }
    /// event ev (0 simple, 1 bytes, 2 text, 3 indefinite bytes, 4 indefinite text, 5 array, 6 map, 7 indefinite array, 8 indefinite map, 9 tag, 10 break); is it allowed?
    fn event(&mut self, ev: u32, k: u64) -> bool {
        if let Some(F::Str(m)) = self.top() {
            return match ev { 1 => m == 2, 2 => m == 3, 10 => { self.n -= 1; self.done(); true } _ => false }
        }
        match ev {
            0 | 1 | 2 => self.done(), 3 => self.push(F::Str(2)), 4 => self.push(F::Str(3)),
            5 => if k == 0 { self.done() } else { self.push(F::Arr(k)) }, 6 => if k == 0 { self.done() } else { self.push(F::Map(k, false)) },
            7 => self.push(F::IArr), 8 => self.push(F::IMap(false)), 9 => self.push(F::Tag),
            _ => match self.top() { Some(F::IArr) | Some(F::IMap(false)) => { self.n -= 1; self.done() } _ => return false },
        }
        true
    }
}
/// param 0 = number of events; counts are symbolic; the header width only matters as a representation, so two are used
#[no_mangle] pub fn h_c14() {
    let n = vs::n(0); let mut s = cbored::state::State::new(); let mut p = P { s: vec![F::IArr; 12].into(), n: 0 }; let mut i = 0;
    vs::check(s.acceptable(), 1);
    while i < n {
        let ev = vs::pick(11);
        let (h, k) = if (ev == 5) | (ev == 6) { if vs::pick(2) == 0 { let k = vs::u64v(); (HeaderValue::U64(k), k) } else { let k = vs::byte() & 15; (HeaderValue::Imm(k), k as u64) } } else { (HeaderValue::Imm(3), 3) };
        let r = match ev { 0 => s.simple(), 1 => s.bytes(Some(h)), 2 => s.text(Some(h)), 3 => s.bytes(None), 4 => s.text(None), 5 => s.array(Some(h)), 6 => s.map(Some(h)), 7 => s.array(None), 8 => s.map(None), 9 => s.tag(), _ => s.brk() };
        let ok = p.event(ev, k);
        vs::check(r.is_ok() == ok, 2);
        if !ok { vs::cover(20 + ev); return }
        vs::check(s.acceptable() == (p.n == 0), 3); vs::cover(ev); if p.n == 0 { vs::cover(40) }
        i += 1;
    }
    vs::observe(s.acceptable() as u64);
}
/// one event given to the machine and to the model; did both take it?
fn step(s: &mut cbored::state::State, p: &mut P, ev: u32, k: u64, id: u32) -> bool {
    let h = HeaderValue::U64(k);
    let r = match ev { 0 => s.simple(), 1 => s.bytes(Some(h)), 2 => s.text(Some(h)), 3 => s.bytes(None), 4 => s.text(None), 5 => s.array(Some(h)), 6 => s.map(Some(h)), 7 => s.array(None), 8 => s.map(None), 9 => s.tag(), _ => s.brk() };
    let ok = p.event(ev, k); vs::check(r.is_ok() == ok, id); if !ok { return false }
    vs::check(s.acceptable() == (p.n == 0), id + 1); true
}
/// param 0 nested structures, or (param 1) one structure with about param 0 items; then any two events with any counts; then what completes the items
#[no_mangle] pub fn h_c14_deep() {
    let n = vs::n(0); let flat = vs::n(1) == 1; let mut s = cbored::state::State::new(); let mut p = P { s: vec![F::IArr; n + 4].into(), n: 0 }; let t = vs::pick(if flat { 6 } else { 7 }); let mut i = 0;
    if flat { step(&mut s, &mut p, [5, 6, 7, 8, 3, 4][t as usize], if t == 1 { n as u64 / 2 + 1 } else { n as u64 + 1 }, 11); while i < n { step(&mut s, &mut p, match t { 4 => 1, 5 => 2, _ => 0 }, 1, 13); i += 1 } }
    else { while i < n { let (ev, k) = match if t == 6 { i as u32 % 6 } else { t } { 0 => (5, 1), 1 => (7, 1), 2 => (6, 1), 3 => (8, 1), 4 => (9, 1), _ => (5, 2) };
        if ev == 6 || ev == 8 { step(&mut s, &mut p, ev, k, 15); step(&mut s, &mut p, 0, 0, 15); } else { step(&mut s, &mut p, ev, k, 15); } i += 1 } }
    vs::cover(t);
    let mut j = 0; while j < 2 { let ev = vs::pick(11); let k = if ev == 5 || ev == 6 { vs::u64v() } else { 2 }; vs::assume(k < 3); if !step(&mut s, &mut p, ev, k, 17) { vs::cover(20 + ev); return } j += 1 }
    let mut left = 2 * n + 40; while p.n > 0 && left > 0 { left -= 1; let ev = match p.top() { Some(F::IArr) | Some(F::IMap(false)) | Some(F::Str(_)) => 10, _ => 0 }; if !step(&mut s, &mut p, ev, 0, 19) { return } }
    vs::check(p.n == 0 && s.acceptable(), 21); vs::cover(40);
}

// ---- C16
fn bigtag(b: &[u8], p: usize, n: u64) -> bool { // tag n around a byte string
    match header(b, p) { M::Done(q) => (major(b[p]) == 6) && (arg(b, p) == n) && q < b.len() && major(b[q]) == 2, _ => false }
}
fn at_tag(b: &[u8], p: usize) -> usize { p + 1 + extra(b[p]) }
fn tagged_one(b: &[u8], op: u32) {
    let mut r = Reader::new(b); let num = [0, 2, 3, 24][op as usize];
    let e = match item(b, 0) { M::Done(e) => e, _ => 0 };
    let q = if e > 0 { at_tag(b, 0) } else { 0 };
    let good = e > 0 && major(b[0]) == 6 && arg(b, 0) == num && if op == 0 { major(b[q]) == 3 && text_ok(b, q) } else { major(b[q]) == 2 };
    macro_rules! go { ($t:ty, $v:ident, $acc:expr) => { match r.decode::<$t>() {
        Ok($v) => { vs::cover(op); vs::check(good & (r.consumed_bytes() == e), 1); if !good { return } let o = encode_to_bytes(&$v); same(&o, &b[..e], 2); $acc; vs::check(matches!(<$t>::read(&mut Reader::new(b)), Ok(x) if x == $v), 3) }
        Err(_) => { vs::cover(10 + op); vs::check(!good, 4); vs::check(<$t>::read(&mut Reader::new(b)).is_err(), 5) } } } }
    match op {
        0 => go!(StandardDateTime, v, vs::check(v.clone() == v, 6)),
        1 => go!(PositiveBignum, v, same(&v.to_be_bytes(), &content(b, q).0, 7)),
        2 => go!(NegativeBignum, v, same(&v.to_be_bytes(), &content(b, q).0, 8)),
        _ => go!(EncodedCBOR, v, same(&v.to_bytes(), &content(b, q).0, 9)),
    }
}
/// param 0 symbolic bytes after a tag header of param 1 (0: symbolic lead; 1..: 1, 2, 4 or 8 byte argument)
#[no_mangle] pub fn h_c16_tag() {
    let op = vs::pick(4); let n = vs::n(0); let w = vs::n(1); let mut b = [0u8; 32]; vs::fill(&mut b[..n + 1 + w]);
    if w > 0 { vs::assume(b[0] == [0, 0xd8, 0xd9, 0, 0xda, 0, 0, 0, 0xdb][w]) }
    tagged_one(&b[..n + 1 + w], op)
}
#[no_mangle] pub fn h_c16_other() { let op = vs::pick(4); let i = input(); tagged_one(i.s(), op) }
#[no_mangle] pub fn h_c16_embed() {
    let i = raw(vs::n(0)); let e = EncodedCBOR::from_bytes(i.s()); same(&e.to_bytes(), i.s(), 11); vs::cover(1);
    let o = encode_to_bytes(&e); let mut want = vec![0xd8, 0x18]; want.extend_from_slice(&enc(2, i.s().len() as u64)); want.extend_from_slice(i.s()); same(&o, &want, 12);
    vs::check(matches!(decode_from_bytes::<EncodedCBOR>(&o), Ok(x) if x == e), 13);
}
fn rational(b: &[u8]) {
    let e = match item(b, 0) { M::Done(e) => e, _ => 0 };
    let mut kinds = (9u32, 9u32); let mut parts = (0, 0, 0);
    let good = e > 0 && major(b[0]) == 6 && arg(b, 0) == 30 && {
        let q = at_tag(b, 0);
        major(b[q]) == 4 && {
            let mut p = at_tag(b, q); let ind = indef(b[q]); let mut k = 0; let mut at = [0usize; 3];
            if ind { while b[p] != 0xff { if k < 3 { at[k] = p } k += 1; match item(b, p) { M::Done(x) => p = x, _ => break } } } else { k = arg(b, q) as usize; let mut i = 0; while i < k { if i < 3 { at[i] = p } match item(b, p) { M::Done(x) => p = x, _ => break } i += 1 } }
            k == 2 && {
                let (n, d) = (at[0], at[1]);
                let f = |p: usize| if major(b[p]) <= 1 { major(b[p]) as u32 } else if bigtag(b, p, 2) { 2 } else if bigtag(b, p, 3) { 3 } else { 9 };
                kinds = (f(n), f(d)); parts = (n, d, p);
                kinds.0 != 9 && (kinds.1 == 0 || kinds.1 == 2)
            }
        }
    };
    let mut r = Reader::new(b);
    match r.decode::<RationalNumber>() {
        Ok(v) => { vs::check(good & (r.consumed_bytes() == e), 21); if !good { return } same(&encode_to_bytes(&v), &b[..e], 22); vs::cover(kinds.0 * 4 + kinds.1);
            let (n, d, _) = parts; let mut r1 = Reader::new(&b[n..d]); let mut r2 = Reader::new(&b[d..e]);
            vs::check(match v.numerator() { RationalNumerator::Positive(x) => (kinds.0 == 0) && matches!(r1.positive(), Ok(y) if y == *x), RationalNumerator::Negative(x) => (kinds.0 == 1) && matches!(r1.negative(), Ok(y) if y == *x), RationalNumerator::PositiveBignum(x) => (kinds.0 == 2) && matches!(PositiveBignum::read(&mut r1), Ok(y) if y == *x), RationalNumerator::NegativeBignum(x) => (kinds.0 == 3) && matches!(NegativeBignum::read(&mut r1), Ok(y) if y == *x) }, 23);
            vs::check(match v.denominator() { RationalDenominator::Positive(x) => (kinds.1 == 0) && matches!(r2.positive(), Ok(y) if y == *x), RationalDenominator::PositiveBignum(x) => (kinds.1 == 2) && matches!(PositiveBignum::read(&mut r2), Ok(y) if y == *x) }, 24); }
        Err(_) => { vs::cover(50); vs::check(!good, 25) }
    }
}
#[no_mangle] pub fn h_c16_rational() { let i = input(); rational(i.s()) }

// ---- C17
/// decodes from nothing: leaves everything
#[derive(Clone, PartialEq, Debug)] pub struct Nothing;
impl Decode for Nothing { fn decode<'a>(_: &mut Reader<'a>) -> Result<Self, DecodeError> { Ok(Nothing) } }
impl Encode for Nothing { fn encode(&self, _: &mut Writer) {} }
/// two elements in a row
#[derive(Clone, PartialEq, Debug)] pub struct Two(DataOwned, u64);
impl Decode for Two { fn decode<'a>(r: &mut Reader<'a>) -> Result<Self, DecodeError> { Ok(Two(r.decode()?, r.decode()?)) } }
impl Encode for Two { fn encode(&self, w: &mut Writer) { w.encode(&self.0); w.encode(&self.1) } }
/// what decoding a T from the start of these bytes gives: value and bytes taken
fn direct<T: Decode>(b: &[u8]) -> Option<(T, usize)> { let mut r = Reader::new(b); match T::decode(&mut r) { Ok(t) => Some((t, r.consumed_bytes())), Err(_) => None } }
fn kept<T: Decode + Encode + PartialEq>(d: &CborDataOf<T>, b: &[u8], v: &T, id: u32) {
    same(d.as_ref(), b, id); vs::check(d.unserialize() == *v, id + 1);
    let s: &CborSliceOf<T> = d.borrow(); same(s.untype().as_ref(), b, id + 2); let mut w = Writer::new(); w.encode(s); w.encode(d); let o = w.finalize(); vs::check(o.len() == 2 * b.len(), id + 3); if o.len() == 2 * b.len() { same(&o[..b.len()], b, id + 4); same(&o[b.len()..], b, id + 4) }
    let c = d.clone(); same(c.as_ref(), b, id + 5); vs::check(c.unserialize() == *v, id + 6);
    let t = s.to_owned(); same(t.as_ref(), b, id + 7); vs::check(t.unserialize() == *v, id + 8);
    let u = c.untype(); same(u.as_ref(), b, id + 9); vs::check(matches!(u.validate_as::<T>(), Ok(x) if x.unserialize() == *v), id + 9);
}
fn raw_as<T: Decode + Encode + PartialEq>(b: &[u8], op: u32) {
    // any bytes, taken whole
    let d = Writer::new_from_vec(b.to_vec()).finalize_data();
    let want = match direct::<T>(b) { Some((v, n)) if n == b.len() => Some(v), _ => None };
    let s: &CborSlice = d.borrow();
    match (d.validate_as::<T>(), s.validate_as::<T>(), &want) {
        (Ok(x), Ok(y), Some(v)) => { vs::cover(op); kept(&x, b, v, 10); same(y.untype().as_ref(), b, 20); kept(&y.to_owned(), b, v, 30) }
        (Err(_), Err(_), None) => vs::cover(20 + op), (a, b, _) => { vs::check(a.is_ok() == want.is_some(), 1); vs::check(b.is_ok() == want.is_some(), 2) }
    }
    // the next element
    let e = match item(b, 0) { M::Done(e) => e, _ => 0 };
    let want = if e > 0 { match direct::<T>(&b[..e]) { Some((v, n)) if n == e => Some(v), _ => None } } else { None };
    let (mut r1, mut r2, mut r3) = (Reader::new(b), Reader::new(b), Reader::new(b));
    match (r1.exact_decodable_slice::<T>(), r2.exact_decodable_data::<T>(), r3.decode::<CborDataOf<T>>(), &want) {
        (Ok(x), Ok(y), Ok(z), Some(v)) => { vs::cover(40 + op); same(x.untype().as_ref(), &b[..e], 41); kept(&y, &b[..e], v, 42); same(z.as_ref(), &b[..e], 53); vs::check(z.unserialize() == *v, 54); vs::check((r1.consumed_bytes() == e) & (r2.consumed_bytes() == e) & (r3.consumed_bytes() == e), 55) }
        (Err(_), Err(_), Err(_), None) => vs::cover(60 + op), (a, b, c, _) => { vs::check(a.is_ok() == want.is_some(), 56); vs::check(b.is_ok() == want.is_some(), 57); vs::check(c.is_ok() == want.is_some(), 58) }
    }
}
#[no_mangle] pub fn h_c17() {
    let op = vs::pick(10); let i = input(); let b = i.s();
    match op { 0 => raw_as::<u8>(b, op), 1 => raw_as::<u64>(b, op), 2 => raw_as::<bool>(b, op), 3 => raw_as::<String>(b, op), 4 => raw_as::<Vec<u8>>(b, op), 5 => raw_as::<[u8; 1]>(b, op), 6 => raw_as::<DataOwned>(b, op), 7 => raw_as::<CborDataOf<DataOwned>>(b, op), 8 => raw_as::<PositiveBignum>(b, op), _ => raw_as::<Two>(b, op) }
}
#[no_mangle] pub fn h_c17_from() {
    let op = vs::pick(5); let v = vs::u64v(); vs::cover(op);
    macro_rules! go { ($x:expr, $t:ty) => {{ let x: $t = $x; let d = CborDataOf::<$t>::from(&x); let b = encode_to_bytes(&x); kept(&d, &b, &x, 71) }} }
    match op { 0 => go!(v, u64), 1 => go!(v as u8, u8), 2 => go!(v & 1 == 0, bool), 3 => go!(v.to_le_bytes()[..(v % 4) as usize].to_vec(), Vec<u8>), _ => go!(DataOwned::Negative(Negative::canonical(v)), DataOwned) }
}

// ---- C18
fn not_term(e: &DecodeErrorKind, at: usize, left: usize, next: u8) -> bool {
    match e { DecodeErrorKind::ReaderNotTerminated { remaining_bytes } => *remaining_bytes == left, DecodeErrorKind::ReaderError(ReaderError::NotTerminated { at: a, remaining_bytes, next_byte }) => (*a == at) & (*remaining_bytes == left) & (*next_byte == next), _ => false }
}
fn whole<T: Decode + PartialEq>(b: &[u8], op: u32) {
    let how = vs::pick(4); let d = Writer::new_from_vec(b.to_vec()).finalize_data(); let s: &CborSlice = d.borrow();
    let res = match how { 0 => decode_from_bytes::<T>(b), 1 => d.decode::<T>(), 2 => s.decode::<T>(), _ => Reader::new(b).decode_one::<T>() };
    match (direct::<T>(b), res) {
        (Some((v, n)), Ok(x)) => { vs::cover(op); vs::check((n == b.len()) && x == v, 1) }
        (Some((_, n)), Err(e)) => { vs::cover(20 + op); vs::check(n < b.len() && not_term(e.error(), n, b.len() - n, b[n]), 2) }
        (None, Ok(_)) => vs::check(false, 3),
        (None, Err(e)) => { vs::cover(40 + op); vs::check(!matches!(e.error(), DecodeErrorKind::ReaderNotTerminated { .. } | DecodeErrorKind::ReaderError(ReaderError::NotTerminated { .. })), 4) }
    }
}
#[no_mangle] pub fn h_c18() {
    let op = vs::pick(9); let i = input(); let b = i.s();
    match op { 0 => whole::<u8>(b, op), 1 => whole::<u64>(b, op), 2 => whole::<bool>(b, op), 3 => whole::<String>(b, op), 4 => whole::<Vec<u8>>(b, op), 5 => whole::<DataOwned>(b, op), 6 => whole::<Scalar>(b, op), 7 => whole::<Nothing>(b, op), _ => whole::<Two>(b, op) }
}
/// a tag's content
#[no_mangle] pub fn h_c18_tag() {
    let op = vs::pick(5); let i = input(); let b = i.s(); let mut r = Reader::new(b);
    let t = match r.tag() { Ok(t) => t, Err(_) => return }; let td = t.data(); let c = td.as_ref();
    fn go<T: Decode + PartialEq>(t: &Tag, c: &[u8], op: u32) {
        let a = t.decode_data::<T>(); let b = t.read_data(|r| match T::decode(r) { Ok(t) => Ok(t), Err(_) => Err(ReaderError::UnexpectedBreakType) });
        match (direct::<T>(c), a, b) {
            (Some((v, n)), Ok(x), Ok(y)) => { vs::cover(op); vs::check((n == c.len()) && x == v && y == v, 11) }
            (Some((_, n)), Err(e), Err(f)) => { vs::cover(20 + op); vs::check(n < c.len() && not_term(e.error(), n, c.len() - n, c[n]), 12); vs::check(n < c.len() && matches!(f, ReaderError::NotTerminated { at, remaining_bytes, next_byte } if (at == n) & (remaining_bytes == c.len() - n) & (next_byte == c[n])), 13) }
            (None, Err(_), Err(f)) => { vs::cover(40 + op); vs::check(matches!(f, ReaderError::UnexpectedBreakType), 14) }
            _ => vs::check(false, 15),
        }
    }
    match op { 0 => go::<u8>(&t, c, op), 1 => go::<DataOwned>(&t, c, op), 2 => go::<Nothing>(&t, c, op), 3 => go::<Vec<u8>>(&t, c, op), _ => go::<Two>(&t, c, op) }
}
/// the finished query at any position
#[no_mangle] pub fn h_c18_finished() {
    let i = input(); let b = i.s(); let mut r = Reader::new(b); let k = vs::pick(3); let mut j = 0; while j < k { if r.scalar().is_err() { return } j += 1 }
    let p = r.consumed_bytes(); vs::cover(k);
    match r.expect_finished() { Ok(()) => { vs::cover(10); vs::check(p == b.len(), 21) } Err(ReaderError::NotTerminated { at, remaining_bytes, next_byte }) => { vs::cover(11); vs::check((at == p) & (remaining_bytes == b.len() - p) && p < b.len() && next_byte == b[p], 22) } Err(_) => vs::check(false, 23) }
}

// ---- C22
fn alone(form: u32, v: u64) -> Vec<u8> { let mut w = Writer::new(); put(&mut w, form, v); w.finalize() }
fn head(m: u8, s: StructureLength) -> Vec<u8> { match s { StructureLength::Indefinite => vec![m * 32 + 31], StructureLength::Definite(h) => match h { HeaderValue::Imm(x) => encw(m, x as u64, 0), HeaderValue::U8(x) => encw(m, x as u64, 1), HeaderValue::U16(x) => encw(m, x as u64, 2), HeaderValue::U32(x) => encw(m, x as u64, 4), HeaderValue::U64(x) => encw(m, x, 8) } } }
/// param 0 initial symbolic bytes, then param 1 write calls
#[no_mangle] pub fn h_c22_append() {
    let k = vs::n(1); let mut f = [0u32; 4]; let mut v = [0u64; 4]; let mut i = 0; while i < k { f[i] = vs::pick(8); i += 1 }
    let b = raw(vs::n(0)); let mut want = b.s().to_vec(); let mut w = Writer::new_from_vec(b.s().to_vec());
    let mut i = 0; while i < k { v[i] = if i == 0 { vs::u64v() } else { vs::byte() as u64 }; put(&mut w, f[i], v[i]); want.extend_from_slice(&alone(f[i], v[i])); vs::cover(f[i]); i += 1 }
    if vs::pick(2) == 0 { same(&w.finalize(), &want, 1) } else { same(w.finalize_data().as_ref(), &want, 2) }
}
/// builders wrap what the closure wrote
#[no_mangle] pub fn h_c22_build() {
    let op = vs::pick(3); let f = [vs::pick(8), vs::pick(8)]; let k = vs::pick(3) as usize; let v = [vs::u64v(), vs::byte() as u64]; vs::cover(op * 10 + k as u32);
    let x = vs::byte(); let mut w = Writer::new_from_vec(vec![x]); let mut want = vec![x];
    let body = |w: &mut Writer| { let mut i = 0; while i < k { put(w, f[i], v[i]); i += 1 } };
    let mut inner = Vec::new(); let mut i = 0; while i < k { inner.extend_from_slice(&alone(f[i], v[i])); i += 1 }
    if op == 2 { let t = TagValue::from_u64(v[0]); w.tag_build(t, body); want.extend_from_slice(&enc(6, v[0])); want.extend_from_slice(&inner) }
    else { let s = slen(if vs::pick(2) == 0 { k as u64 } else { 23 }); if op == 0 { w.array_build(s, body) } else { w.map_build(s, body) } want.extend_from_slice(&head(4 + op as u8, s)); want.extend_from_slice(&inner); if s.is_indefinite() { want.push(0xff) } }
    w.encode(&true); want.push(0xf5);
    same(&w.finalize(), &want, 11);
}
/// builders with any announced number in any header width
#[no_mangle] pub fn h_c22_header() {
    let op = vs::pick(2); let k = pick_w(); let v = vs::u64v() & wmask(k); if k == 0 { vs::assume(v < 24) } let x = [vs::byte(), vs::byte()]; vs::cover(op);
    let mut w = Writer::new_from_vec(x.to_vec()); let s = StructureLength::Definite(hv(v, k)); let f = |w: &mut Writer| w.encode(&x[1]);
    if op == 0 { w.array_build(s, f) } else { w.map_build(s, f) }
    let mut want = x.to_vec(); want.extend_from_slice(&encw(4 + op as u8, v, k)); want.extend_from_slice(&enc(0, x[1] as u64)); same(&w.finalize(), &want, 15);
}
/// nested builders
#[no_mangle] pub fn h_c22_nest() {
    let (a, b) = (slen(1), slen(1)); let op = vs::pick(4); let v = vs::u64v(); let f = vs::pick(4); vs::cover(op);
    let mut w = Writer::new(); let mut want = Vec::new();
    let inner = |w: &mut Writer| match op & 1 { 0 => w.array_build(b, |w| put(w, f, v)), _ => w.map_build(b, |w| { put(w, f, v); put(w, f, v) }) };
    if op & 2 == 0 { w.array_build(a, inner); want.extend_from_slice(&head(4, a)) } else { w.tag_build(TagValue::from_u64(9), inner); want.push(0xc9) }
    want.extend_from_slice(&head(4 + (op & 1) as u8, b)); want.extend_from_slice(&alone(f, v)); if op & 1 == 1 { want.extend_from_slice(&alone(f, v)) } if b.is_indefinite() { want.push(0xff) } if op & 2 == 0 && a.is_indefinite() { want.push(0xff) }
    same(&w.finalize(), &want, 21);
}
/// the array builder
#[no_mangle] pub fn h_c22_arraybuilder() {
    let ind = vs::pick(2) == 1; let k = vs::pick(4) as usize; let f = [vs::pick(8), 1, vs::pick(8)]; let v = [vs::u64v(), vs::byte() as u64, vs::byte() as u64]; vs::cover(k as u32 + 10 * ind as u32);
    let mut bl = ArrayBuilder::new(); let mut i = 0;
    while i < k { if i == 1 { bl.append_encodable(&Negative::canonical(v[1])) } else { let mut w = Writer::new(); put(&mut w, f[i], v[i]); bl.append(w.finalize_data()) } i += 1 }
    let a = if ind { bl.indefinite() } else { bl.finite() };
    vs::check((a.len() == k) & (a.struct_len() == if ind { StructureLength::Indefinite } else { StructureLength::from(k as u64) }), 31);
    let mut want = if ind { vec![0x9f] } else { vec![0x80 + k as u8] }; let mut i = 0; while i < k { want.extend_from_slice(&alone(f[i], v[i])); same(a[i].as_ref(), &alone(f[i], v[i]), 32); i += 1 } if ind { want.push(0xff) }
    let mut w = Writer::new(); w.array(&a.borrow()); let o = w.finalize(); same(&o, &want, 33);
    match Reader::new(&o).array() { Ok(x) => vs::check(x == a.borrow(), 34), Err(_) => vs::check(false, 35) }
    same(&encode_to_bytes(&DataOwned::Array(a)), &want, 36);
}
/// many elements: the announced length; param 0 = number
#[no_mangle] pub fn h_c22_many() {
    let n = vs::n(0); let v = vs::byte(); let ind = vs::pick(2) == 1; let mut bl = ArrayBuilder::new(); let mut i = 0; while i < n { bl.append_encodable(&(if i == n / 2 { v } else { 1u8 })); i += 1 }
    let a = if ind { bl.indefinite() } else { bl.finite() }; let mut w = Writer::new(); w.array(&a.borrow()); let o = w.finalize(); vs::cover(1);
    let h = if ind { vec![0x9f] } else { enc(4, n as u64) }; same(&o[..h.len()], &h, 41);
    let mut r = Reader::new(&o); match decode_vec::<u8>(&mut r) { Ok(x) => { vs::check((x.len() == n) & r.is_finished(), 42); if n > 0 { vs::check(x[n / 2] == v, 43) } } Err(_) => vs::check(false, 44) }
}
/// the length announced for param 0 elements
#[no_mangle] pub fn h_c22_count() {
    let n = vs::n(0); let v = vs::byte() & 15; let mut w = Writer::new(); w.encode(&v); let d = w.finalize_data(); let mut bl = ArrayBuilder::new(); let mut i = 0; while i < n { bl.append(d.clone()); i += 1 }
    let a = bl.finite(); vs::cover(1); vs::check(a.len() == n, 45); vs::check(matches!(a.struct_len(), StructureLength::Definite(h) if h == HeaderValue::canonical(n as u64)), 46);
}
/// the vector helpers; param 0 = number of elements (the first three symbolic)
#[no_mangle] pub fn h_c22_vec() {
    let n = vs::n(0); let mut x: Vec<u64> = vec![7; n]; let mut i = 0; while i < n && i < 3 { x[i] = if i == 0 { vs::u64v() } else { vs::u16v() as u64 }; i += 1 }
    let mut w = Writer::new(); encode_vec(&x, &mut w); let o = w.finalize(); vs::cover(1);
    let mut want = enc(4, n as u64); for e in &x { want.extend_from_slice(&enc(0, *e)) } same(&o, &want, 51);
    let mut r = Reader::new(&o); match decode_vec::<u64>(&mut r) { Ok(y) => { vs::check(y == x, 52); vs::check(r.is_finished(), 53) } Err(_) => vs::check(false, 54) }
}
/// decoding vectors from any bytes: element by element
#[no_mangle] pub fn h_c22_decvec() {
    let i = input(); let b = i.s(); let mut r = Reader::new(b); let x = decode_vec::<u8>(&mut r);
    let mut f = Reader::new(b);
    match f.array() { Ok(a) => { let mut want = Vec::new(); let mut ok = true; for mut e in a.iter() { match e.decode::<u8>() { Ok(v) => want.push(v), Err(_) => ok = false } }
        match x { Ok(v) => { vs::cover(1); vs::check(ok && v == want, 61); vs::check(r.consumed_bytes() == f.consumed_bytes(), 62) } Err(_) => { vs::cover(2); vs::check(!ok, 63) } } } Err(_) => { vs::cover(3); vs::check(x.is_err(), 64) } }
}
/// string writes append too; param 0 = index into LENS
#[no_mangle] pub fn h_c22_string() {
    let len = LENS[vs::n(0)]; let op = vs::pick(2); let x = vs::byte(); let p = crate::b::payload(len, op == 1); let mut w = Writer::new_from_vec(vec![x]); vs::cover(op);
    if op == 0 { w.encode(&p[..]) } else { match std::str::from_utf8(&p) { Ok(s) => w.encode(s), Err(_) => return } } w.encode(&false);
    let mut want = vec![x]; want.extend_from_slice(&enc(2 + op as u8, len as u64)); want.extend_from_slice(&p); want.push(0xf4); same(&w.finalize(), &want, 71);
}
entries!(h_c12, h_c12_wide, h_c13, h_c13_wide, h_c13_utf8, h_c14, h_c14_deep, h_c16_tag, h_c16_other, h_c16_embed, h_c16_rational, h_c17, h_c17_from, h_c18, h_c18_tag, h_c18_finished, h_c22_append, h_c22_build, h_c22_header, h_c22_nest, h_c22_arraybuilder, h_c22_many, h_c22_count, h_c22_vec, h_c22_decvec, h_c22_string);
