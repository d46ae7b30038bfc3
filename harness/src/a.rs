//! C01 to C04, C08, C09, C15: reading, validating, delimiting
use crate::k::*;
use crate::vs;

// ---- C01 reading then writing
fn roundtrip(b: &[u8]) {
    let mut r = Reader::new(b);
    if let Ok(d) = r.data() {
        let n = r.consumed_bytes();
        vs::cover(kind(&d)); vs::observe(n as u64);
        match &d { Data::Bytes(Bytes::Chunks(c)) => if c.len() > 0 { vs::cover(20) }, Data::Text(Text::Chunks(c)) => if c.len() > 0 { vs::cover(21) }, Data::Array(a) => if a.struct_len().is_indefinite() & (a.len() > 0) { vs::cover(22) }, Data::Map(a) => if a.struct_len().is_indefinite() & (a.len() > 0) { vs::cover(23) }, _ => () }
        let mut w = Writer::new(); w.data(&d); same(&w.finalize(), &b[..n], 1);
        let o = d.owned(); let d2 = o.borrow();
        let mut w = Writer::new(); w.data(&d2); same(&w.finalize(), &b[..n], 2);
        same(&encode_to_bytes(&o), &b[..n], 3);
        vs::check(d2 == d, 4);
        vs::check(d2.owned() == o, 5);
    }
}
#[no_mangle] pub fn h_c01_data() { let i = input(); roundtrip(i.s()) }
#[no_mangle] pub fn h_c01_wide() { let i = wide(); roundtrip(i.s()) }
/// each kind through its own read call, its own write call and its Encode implementation
fn typed(b: &[u8]) {
    let mut r = Reader::new(b); let mut w = Writer::new(); let op = vs::pick(15);
    macro_rules! go { ($v:expr, $x:ident, $wr:expr) => { match $v { Ok($x) => { $wr; w.encode(&$x) } Err(_) => return } } }
    match op {
        0 => go!(r.positive(), x, w.positive(x)), 1 => go!(r.negative(), x, w.negative(x)), 2 => go!(r.bytes(), x, w.bytes(&x)), 3 => go!(r.text(), x, w.text(&x)),
        4 => go!(r.array(), x, w.array(&x)), 5 => go!(r.map(), x, w.map(&x)), 6 => go!(r.tag(), x, w.tag(&x)), 7 => go!(r.bool(), x, w.bool(x)), 8 => go!(r.constant(), x, w.constant(x)),
        9 => go!(r.float(), x, w.float(x)), 10 => go!(r.byte(), x, w.byte(x)), 11 => go!(r.scalar(), x, w.scalar(x)),
        12 => go!(r.bytes().map(|x| x.owned()), x, w.bytes(&x.borrow())),
        13 => go!(r.decode::<DataOwned>(), x, w.data(&x.borrow())),
        _ => match r.tag() { // taken apart and put together again
            Ok(t) => { let o = t.owned(); w.tag(&o.borrow()); w.tag_build(o.tag_repr(), |w| w.encode(o.data())) } Err(_) => return },
    }
    vs::cover(op);
    let n = r.consumed_bytes(); let o = w.finalize(); vs::observe(o.len() as u64);
    if o.len() != 2 * n { vs::check(false, 10) } else { same(&o[..n], &b[..n], 11); same(&o[n..], &b[..n], 12) }
}
#[no_mangle] pub fn h_c01_typed() { let i = input(); typed(i.s()) }
#[no_mangle] pub fn h_c01_typedwide() { let i = wide(); typed(i.s()) }

// ---- C02 the reader accepts exactly the well-formed elements
fn accept(b: &[u8]) {
    let mut r = Reader::new(b);
    let s = st(&r.data()); let e = r.consumed_bytes();
    vs::observe((s == 0) as u64); if s == 0 { vs::observe(e as u64) }
    match element(b, 0) {
        M::Done(x) => { vs::cover(1); vs::check((s == 0) & (e == x), 1) }
        M::Cut(..) => { vs::cover(2); vs::check(s != 0, 2) }
        M::Bad => { vs::cover(3); vs::check(s != 0, 3) }
    }
}
#[no_mangle] pub fn h_c02_data() { let i = input(); accept(i.s()) }
#[no_mangle] pub fn h_c02_wide() { let i = wide(); accept(i.s()) }
fn accept_typed(b: &[u8]) {
    let op = vs::pick(NREAD);
    let mut r = Reader::new(b);
    let s = st(&read(&mut r, op)); let e = r.consumed_bytes();
    let m = item(b, 0);
    let good = match m { M::Done(_) => (accepts(op) >> ty(b[0])) & 1 == 1 && !(op == 3 && !text_ok(b, 0)), _ => false };
    if good { vs::cover(op) } else { vs::cover(50) }
    match m { M::Done(x) if good => vs::check((s == 0) & (e == x), 11), _ => vs::check(s != 0, 12) }
}
#[no_mangle] pub fn h_c02_typed() { let i = input(); accept_typed(i.s()) }
/// the delimiting decoder: the same elements, as untyped slices (nested ones are not interpreted)
#[no_mangle] pub fn h_c02_slice() {
    let i = input(); let b = i.s(); let mut r = Reader::new(b);
    let res = r.exact_decodable_slice::<DataOwned>().map(|s| s.untype().as_ref().len()); let e = r.consumed_bytes();
    match (element(b, 0), res) { (M::Done(x), Ok(l)) => { vs::cover(1); vs::check((l == x) & (e == x), 21) } (M::Done(_), Err(_)) => vs::check(false, 22), (M::Cut(..), s) => { vs::cover(2); vs::check(s.is_err(), 23) } (M::Bad, s) => { vs::cover(3); vs::check(s.is_err(), 24) } }
}

// ---- C03 the validator
fn split(b: &[u8]) {
    let mut v = Validator::new(b); let mut p = 0; let mut k = 0;
    vs::check(v.remaining_bytes() == b.len(), 1);
    while k < vs::n(3) {
        match v.next() {
            Ok((s, l)) => { vs::observe(l as u64);
                match item(b, p) {
                    M::Done(e) => { vs::cover(k as u32); vs::check((l == e - p) & (v.remaining_bytes() == b.len() - e), 2); same(s.as_ref(), &b[p..e], 3); p = e }
                    _ => { vs::check(false, 4); return }
                } }
            Err(_) => { vs::observe(99);
                match item(b, p) { M::Done(_) => vs::check(false, 5), M::Cut(..) => vs::cover(10), M::Bad => vs::cover(11) }
                return }
        }
        k += 1;
    }
}
#[no_mangle] pub fn h_c03() { let i = input(); split(i.s()) }
#[no_mangle] pub fn h_c03_wide() { let i = wide(); let b = i.s();
    let mut v = Validator::new(b);
    match (v.next(), item(b, 0)) { (Ok((s, l)), M::Done(e)) => { vs::cover(1); vs::check(l == e, 12); same(s.as_ref(), &b[..e], 13) } (Ok(_), _) => vs::check(false, 14), (Err(_), M::Done(_)) => vs::check(false, 15), _ => vs::cover(2) } }

// ---- C04 no panic: panics are reported by the executor wherever they occur
fn look(h: HeaderValue) { vs::observe(h.to_u64() ^ h.to_size() as u64 ^ h.is_canonical() as u64) }
fn bytes_all(b: &Bytes) { vs::observe(b.len() as u64); vs::check(b.to_vec().len() == b.len(), 1); let o = b.owned(); vs::check(o.borrow() == *b, 2); match b { Bytes::Imm(c) => look(c.value()), Bytes::Chunks(v) => for c in v { look(c.value()); vs::observe(c.as_slice().len() as u64) } } }
fn text_all(t: &Text) { vs::observe(t.to_string().len() as u64); vs::observe(t.to_str_chunks().len() as u64); let o = t.owned(); vs::check(o.borrow() == *t, 3); }
fn len_all(s: StructureLength) { if let StructureLength::Definite(h) = s { look(h) } }
fn reader_all(mut r: Reader) { let _ = r.data(); let _ = r.expect_finished(); let _ = r.data(); }
fn array_all(a: &Array) { len_all(a.struct_len()); for r in a.iter() { reader_all(r) } let mut i = 0; while i < a.len() { vs::observe(a[i].as_ref().len() as u64); i += 1 } let o = a.owned(); vs::check(o.len() == a.len(), 4); for r in o.iter() { vs::observe(r.remaining_bytes() as u64) } let _ = a.to_vec(|r| u64::decode(r).map_err(|e| e.error().clone())); }
fn map_all(a: &Map) { len_all(a.struct_len()); for (k, v) in a.iter() { reader_all(k); reader_all(v) } for k in a.keys() { vs::observe(k.remaining_bytes() as u64) } for k in a.values() { vs::observe(k.remaining_bytes() as u64) } let o = a.owned(); vs::check(o.len() == a.len(), 5); for (k, _) in o.iter() { vs::observe(k.remaining_bytes() as u64) } let _ = a.to_vec(|r| u8::decode(r).map_err(|e| e.error().clone()), |r| bool::decode(r).map_err(|e| e.error().clone())); }
fn tag_all(t: &Tag) { vs::observe(t.value()); look(t.tag_repr().raw_value()); reader_all(t.reader()); let _ = t.read_data(|r| r.data().map(|_| ())); let _ = t.decode_data::<u64>(); let o = t.owned(); vs::observe(o.value()); vs::observe(o.data().as_ref().len() as u64); reader_all(o.read_data()) }
fn data_all(d: &Data) {
    match d {
        Data::Positive(p) => { look(p.raw_value()); vs::observe(p.is_canonical() as u64) } Data::Negative(p) => { look(p.raw_value()); vs::observe(p.to_i64().unwrap_or(7) as u64) }
        Data::Float(f) => { let _ = f.to_f32(); let _ = f.to_f64(); } Data::Byte(y) => vs::observe(y.to_u8() as u64 ^ y.is_canonical() as u64), Data::Bytes(x) => bytes_all(x), Data::Text(x) => text_all(x),
        Data::Array(a) => array_all(a), Data::Map(m) => map_all(m), Data::Tag(t) => tag_all(t), _ => (),
    }
}
pub const NCALL: u32 = 40;
fn call(r: &mut Reader, op: u32) {
    match op {
        0..=13 => { let _ = read(r, op); } 14 => { if let Ok(d) = r.data() { data_all(&d) } } 15 => { let _ = r.peek_type(); let _ = r.expect_finished(); }
        16 => { let _ = r.decode::<u8>(); } 17 => { let _ = r.decode::<u16>(); } 18 => { let _ = r.decode::<u32>(); } 19 => { let _ = r.decode::<u64>(); } 20 => { let _ = r.decode::<bool>(); } 21 => { let _ = r.decode::<String>(); }
        22 => { let _ = r.decode::<Vec<u8>>(); } 23 => { let _ = r.decode::<[u8; 2]>(); } 24 => { let _ = r.decode::<Scalar>(); } 25 => { if let Ok(o) = r.decode::<DataOwned>() { let _ = encode_to_bytes(&o); } }
        26 => { let _ = decode_vec::<u64>(r); } 27 => { let _ = decode_vec::<Vec<u8>>(r); } 28 => { if let Ok(x) = r.decode::<StandardDateTime>() { let _ = encode_to_bytes(&x); } } 29 => { if let Ok(x) = r.decode::<PositiveBignum>() { let _ = x.to_be_bytes(); } } 30 => { let _ = r.decode::<NegativeBignum>(); }
        31 => { if let Ok(x) = r.decode::<EncodedCBOR>() { let _ = x.to_bytes(); } } 32 => { if let Ok(x) = r.decode::<RationalNumber>() { let _ = encode_to_bytes(&x); } }
        33 => { let _ = r.exact_decodable_slice::<u64>(); } 34 => { if let Ok(x) = r.exact_decodable_data::<DataOwned>() { let _ = x.unserialize(); } } 35 => { let _ = r.decode_one::<u8>(); } 36 => { if let Ok(x) = r.decode::<CborDataOf<u64>>() { let _ = x.unserialize(); } }
        37 => { if let Ok(s) = r.scalar() { look(s.raw_value()); vs::observe(s.to_i64().unwrap_or(3) as u64) } }
        38 => { if let Ok(s) = r.exact_decodable_slice::<DataOwned>() { let _ = s.untype().decode::<u8>(); } }
        _ => { let _ = r.decode_one::<DataOwned>(); }
    }
    vs::check(r.consumed_bytes() + r.remaining_bytes() >= r.remaining_bytes(), 9);
}
/// param 3 = number of successive calls
#[no_mangle] pub fn h_c04_calls() {
    // the calls are picked first, so that the exploration can be split by them
    let k = vs::n(3); let mut ops = [0u32; 4]; let mut i = 0; while i < k { ops[i] = vs::pick(NCALL); i += 1 }
    let b = input(); let mut r = Reader::new(b.s()); let mut i = 0; while i < k { vs::cover(ops[i]); call(&mut r, ops[i]); i += 1 } }
#[no_mangle] pub fn h_c04_wide() { let op = vs::pick(NCALL); let i = wide(); let mut r = Reader::new(i.s()); vs::cover(op); call(&mut r, op) }
#[no_mangle] pub fn h_c04_validate() { let i = input(); let mut v = Validator::new(i.s()); let mut k = 0; while k < vs::n(3) { if v.next().is_ok() { vs::cover(0) } else { vs::cover(1) } k += 1 } vs::check(v.remaining_bytes() <= i.s().len(), 8) }
#[no_mangle] pub fn h_c04_validatewide() { let i = wide(); let mut v = Validator::new(i.s()); let mut k = 0; while k < 3 { if v.next().is_ok() { vs::cover(0) } else { vs::cover(1) } k += 1 } }
#[no_mangle] pub fn h_c04_whole() {
    let t = vs::pick(10); let i = input(); let b = i.s(); vs::cover(t);
    match t { 0 => { let _ = decode_from_bytes::<u8>(b); } 1 => { let _ = decode_from_bytes::<u64>(b); } 2 => { let _ = decode_from_bytes::<bool>(b); } 3 => { let _ = decode_from_bytes::<String>(b); } 4 => { let _ = decode_from_bytes::<Vec<u8>>(b); }
        5 => { let _ = decode_from_bytes::<DataOwned>(b); } 6 => { let _ = decode_from_bytes::<CborDataOf<DataOwned>>(b); } 7 => { let _ = decode_from_bytes::<Scalar>(b); } 8 => { let _ = decode_from_bytes::<RationalNumber>(b); } _ => { let _ = decode_from_bytes::<[u8; 0]>(b); } }
}

// ---- C08 wrong types
fn wrong(b: &[u8], skip: usize) {
    // the reader is brought to position `skip` by reading the one-byte items before it
    let op = vs::pick(NREAD + 1);
    let mut r = Reader::new(b); let mut i = 0; while i < skip { vs::check(r.positive().is_ok(), 1); i += 1 }
    let left = b.len() - skip;
    let t = r.peek_type().map(tynum);
    let _ = r.expect_finished();
    vs::check((r.consumed_bytes() == skip) & (r.remaining_bytes() == left) & (r.is_finished() == (left == 0)), 2);
    let h = header(b, skip);
    match h {
        M::Bad => { vs::cover(100); vs::check(t.is_err(), 3) }
        M::Cut(1, 0) if skip >= b.len() => { vs::cover(101); vs::check(t.is_err(), 4) }
        _ => match t { Ok(x) => vs::check(x == ty(b[skip]), 5), Err(_) => vs::check(false, 6) },
    }
    let (s, expected, got) = if op == NREAD {
        match r.data() { Ok(_) => (0, 99, 99), Err(ReaderError::UnexpectedBreakType) => (2, 98, 13), Err(_) => (1, 99, 99) }
    } else { match read(&mut r, op) {
        Ok(()) => (0, 99, 99),
        Err(ReaderError::WrongExpectedType { expected, got }) => (2, 1 << tynum(expected), tynum(got)),
        Err(ReaderError::WrongExpectedTypes { expected, got }) => { let mut m = 0; for t in expected { m |= 1 << tynum(*t) } (2, m, tynum(got)) }
        Err(_) => (1, 99, 99),
    } };
    vs::observe(s); 
    match h {
        M::Done(_) => {
            let want = if op == NREAD { 0x1fff } else { accepts(op) };
            let x = ty(b[skip]);
            if (want >> x) & 1 == 0 {
                vs::cover(op);
                vs::check((s == 2) & (got == x) & (op == NREAD || expected == want), 7);
                vs::check((r.consumed_bytes() == skip) & (r.remaining_bytes() == left), 8);
                // the right read then gives what it would have given
                let mut f = Reader::new(&b[skip..]);
                match (r.data(), f.data()) { (Ok(d), Ok(e)) => { vs::cover(60); vs::check(d == e, 9) } (Err(_), Err(_)) => (), _ => vs::check(false, 10) }
                vs::check(r.consumed_bytes() == skip + f.consumed_bytes(), 11);
            } else { vs::cover(40 + op); vs::check(s != 2, 12) }
        }
        _ => vs::check((s == 1) & (r.consumed_bytes() == skip), 13),
    }
}
#[no_mangle] pub fn h_c08() { let i = input(); wrong(i.s(), 0) }
#[no_mangle] pub fn h_c08_later() { let i = input(); wrong(i.s(), 1) } // prefix 38 or 39: one positive item
#[no_mangle] pub fn h_c08_wide() { let i = wide(); wrong(i.s(), 0) }

// ---- C09 accounting
fn account(b: &[u8]) {
    let k = vs::n(3); let mut r = Reader::new(b); let mut p = 0; let mut i = 0;
    vs::check((r.consumed_bytes() == 0) & (r.remaining_bytes() == b.len()), 1);
    while i < k {
        let op = vs::pick(3); // any element, a scalar, decoding
        let ok = match op { 0 => r.data().is_ok(), 1 => r.scalar().is_ok(), _ => r.decode::<u64>().is_ok() };
        let q = r.consumed_bytes();
        vs::check((q >= p) & (q + r.remaining_bytes() == b.len()) & (r.is_finished() == (q == b.len())) & (r.expect_finished().is_ok() == (q == b.len())), 2);
        // the same call on a buffer that starts here
        let mut f = Reader::new(&b[p..]);
        let same = match op { 0 => f.data().is_ok() == ok, 1 => f.scalar().is_ok() == ok, _ => f.decode::<u64>().is_ok() == ok };
        vs::check(same & (f.consumed_bytes() == q - p), 3);
        if !ok { vs::cover(10 + i as u32); return }
        match item(b, p) { M::Done(e) => { vs::cover(i as u32); vs::check(q == e, 4) } _ => vs::check(false, 5) }
        p = q; i += 1;
    }
}
#[no_mangle] pub fn h_c09() { let i = input(); account(i.s()) }
/// values do not depend on what was read before
#[no_mangle] pub fn h_c09_values() {
    let i = input(); let b = i.s(); let mut r = Reader::new(b);
    if r.data().is_err() { return }
    let p = r.consumed_bytes();
    let mut f = Reader::new(&b[p..]);
    match (r.data(), f.data()) { (Ok(x), Ok(y)) => { vs::cover(kind(&x)); vs::check(x == y, 11) } (Err(_), Err(_)) => vs::cover(50), _ => vs::check(false, 12) }
    vs::check(r.consumed_bytes() == p + f.consumed_bytes(), 13);
}
#[no_mangle] pub fn h_c09_wide() { let i = wide(); let b = i.s(); let mut r = Reader::new(b); let ok = r.data().is_ok(); let q = r.consumed_bytes();
    vs::check((q <= b.len()) & (q + r.remaining_bytes() == b.len()), 21);
    match item(b, 0) { M::Done(e) if ok => { vs::cover(1); vs::check(q == e, 22) } _ => vs::check(!ok | (b[0] >> 5 == 3), 23) } }

// ---- C15 truncation
fn missing<T>(r: Result<T, &CborDataMissing>, ok: bool, exp: u64, got: usize, id: u32) { match r { Ok(_) => vs::check(false, id), Err(m) => vs::check(ok & (m.expecting_bytes as u64 == exp) & (m.got_bytes == got) & (m.got_bytes < m.expecting_bytes), id + 1) } }
fn cut(b: &[u8]) {
    let m = element(b, 0);
    let mut r = Reader::new(b); let res = r.data();
    let v = Validator::new(b).next().map(|x| x.1);
    match m {
        M::Cut(exp, got) => {
            vs::cover(if got == 0 { 1 } else { 2 }); if exp > 0xffff { vs::cover(3) }
            match &res { Ok(_) => vs::check(false, 1), Err(ReaderError::DataMissing(x)) => missing::<()>(Err(x), true, exp, got, 10), Err(_) => vs::check(false, 2) }
        }
        _ => vs::cover(4),
    }
    match item(b, 0) {
        M::Cut(exp, got) => match &v { Ok(_) => vs::check(false, 4), Err(ValidateError::DataMissing(x)) => missing::<()>(Err(x), true, exp, got, 20), Err(_) => vs::check(false, 5) },
        _ => vs::cover(5),
    }
}
#[no_mangle] pub fn h_c15() { let i = input(); cut(i.s()) }
#[no_mangle] pub fn h_c15_wide() { let i = wide(); cut(i.s()) }
#[no_mangle] pub fn h_c15_typed() {
    let op = vs::pick(NREAD + 3); let i = input(); let b = i.s();
    if let M::Cut(exp, got) = item(b, 0) {
        let mut r = Reader::new(b); let lead = b.len() > 0;
        // only a read that asks for the right type has an item to read
        if op < NREAD { if lead && (accepts(op) >> ty(b[0])) & 1 == 0 { return } if lead && op == 3 && !text_ok(b, 0) { return }
            vs::cover(op);
            match read(&mut r, op) { Ok(_) => vs::check(false, 31), Err(ReaderError::DataMissing(m)) => missing::<()>(Err(&m), true, exp, got, 32), Err(_) => vs::check(false, 34) } }
        else {
            let e = if op == NREAD { r.exact_decodable_slice::<u64>().map(|_| ()) } else if op == NREAD + 1 { r.exact_decodable_data::<bool>().map(|_| ()) } else { if lead && !text_ok(b, 0) & (b[0] >> 5 == 3) { return } decode_from_bytes::<DataOwned>(b).map(|_| ()) };
            vs::cover(op);
            match e { Ok(_) => vs::check(false, 41), Err(e) => match e.error() { DecodeErrorKind::ReaderError(ReaderError::DataMissing(m)) => missing::<()>(Err(m), true, exp, got, 42), _ => vs::check(false, 44) } }
        }
    }
}
entries!(h_c01_data, h_c01_wide, h_c01_typed, h_c01_typedwide, h_c02_data, h_c02_wide, h_c02_typed, h_c02_slice, h_c03, h_c03_wide, h_c04_calls, h_c04_wide, h_c04_validate, h_c04_validatewide, h_c04_whole,
    h_c08, h_c08_later, h_c08_wide, h_c09, h_c09_values, h_c09_wide, h_c15, h_c15_wide, h_c15_typed);
