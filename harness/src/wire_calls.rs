//! Calls of the integer and descriptor functions, recorded.
use crate::gen_stream::put_var;
use crate::json::*;
use crate::rng::Rng;
use crate::session::serr;
use crate::{watch, Out};
use fourleaf::stream::Stream;
use fourleaf::wire;
use std::panic::{catch_unwind, AssertUnwindSafe};

fn c(f: &str, mut a: Vec<(&str, J)>) -> J { a.insert(0, ("f", st(f))); obj(a) }

fn enc(u: u64) -> J { let mut d = vec![]; wire::encode_u64(&mut d, u).unwrap(); c("enc", vec![("u", n64(u)), ("d", byts(&d))]) }
fn encf(u: u64) -> J { let mut d = vec![]; wire::encode_fixed_u64(&mut d, u).unwrap(); c("encf", vec![("u", n64(u)), ("d", byts(&d))]) }
fn enci(i: i64) -> J { let mut d = vec![]; wire::encode_i64(&mut d, i).unwrap(); c("enci", vec![("i", i64j(i)), ("d", byts(&d))]) }
fn dec(b: &[u8]) -> J {
    let mut s = b;
    match wire::decode_u64(&mut s) {
        Ok(v) => c("dec", vec![("b", byts(b)), ("r", st("ok")), ("v", n64(v)), ("n", J::I((b.len() - s.len()) as i64))]),
        Err(e) => c("dec", vec![("b", byts(b)), ("r", st(serr(&e).s("c"))), ("v", n64(0)), ("n", J::I((b.len() - s.len()) as i64))]),
    }
}
fn deci(b: &[u8]) -> J {
    let mut s = b;
    match wire::decode_i64(&mut s) {
        Ok(v) => c("deci", vec![("b", byts(b)), ("r", st("ok")), ("v", i64j(v)), ("n", J::I((b.len() - s.len()) as i64))]),
        Err(e) => c("deci", vec![("b", byts(b)), ("r", st(serr(&e).s("c"))), ("v", i64j(0)), ("n", J::I((b.len() - s.len()) as i64))]),
    }
}
const TYS: &[&str] = &["u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "isize", "bool", "null", "char"];

/// Element field 1 with integer u, read by a Stream and narrowed.
fn to(t: &str, u: u64) -> Option<J> {
    let mut b = vec![0x41]; put_var(&mut b, u);
    let mut s = Stream::new(&b[..]);
    let f = s.next_field().unwrap().unwrap();
    let v = &f.value;
    let r = match t {
        "u8" => v.to_u8().map(|x| n64(x as u64)), "u16" => v.to_u16().map(|x| n64(x as u64)), "u32" => v.to_u32().map(|x| n64(x as u64)),
        "u64" => v.to_u64().map(n64), "usize" => v.to_usize().map(|x| n64(x as u64)),
        "i8" => v.to_i8().map(|x| i64j(x as i64)), "i16" => v.to_i16().map(|x| i64j(x as i64)), "i32" => v.to_i32().map(|x| i64j(x as i64)),
        "i64" => v.to_i64().map(i64j), "isize" => v.to_isize().map(|x| i64j(x as i64)),
        "bool" => v.to_bool().map(|x| n64(x as u64)), "null" => v.to_null().map(|_| n64(0)),
        _ => return None,
    };
    Some(match r { Ok(v) => c("to", vec![("t", st(t)), ("u", n64(u)), ("r", st("ok")), ("v", v)]),
        Err(e) => c("to", vec![("t", st(t)), ("u", n64(u)), ("r", st(serr(&e).s("c"))), ("v", n64(0))]) })
}
/// The document `1: u` deserialised as `t`.
fn de(t: &str, u: u64) -> J {
    let mut b = vec![0x41]; put_var(&mut b, u); b.push(0);
    let cfg = fourleaf::DeConfig::default();
    macro_rules! d { ($t:ty, $f:expr) => { fourleaf::from_slice_copy::<$t>(&b, &cfg).map($f) } }
    let r = match t {
        "u8" => d!(u8, |x| n64(x as u64)), "u16" => d!(u16, |x| n64(x as u64)), "u32" => d!(u32, |x| n64(x as u64)),
        "u64" => d!(u64, n64), "usize" => d!(usize, |x| n64(x as u64)),
        "i8" => d!(i8, |x| i64j(x as i64)), "i16" => d!(i16, |x| i64j(x as i64)), "i32" => d!(i32, |x| i64j(x as i64)),
        "i64" => d!(i64, i64j), "isize" => d!(isize, |x| i64j(x as i64)),
        "bool" => d!(bool, |x| n64(x as u64)), "char" => d!(char, |x| n64(x as u32 as u64)),
        _ => { return to("null", u).unwrap() }
    };
    match r { Ok(v) => c("de", vec![("t", st(t)), ("u", n64(u)), ("r", st("ok")), ("v", v)]),
        Err(_) => c("de", vec![("t", st(t)), ("u", n64(u)), ("r", st("range")), ("v", n64(0))]) }
}
fn desc(b: u8) -> J {
    use fourleaf::wire::{Descriptor, DescriptorType::*, ParsedDescriptor::*, SpecialType::*};
    let mut s = &[b][..];
    let d = wire::decode_descriptor(&mut s).unwrap();
    let p = d.parse();
    let (k, tag) = match p { Pair(Enum, t) => ("e", t), Pair(Integer, t) => ("i", t), Pair(Blob, t) => ("b", t), Pair(Struct, t) => ("s", t),
        Special(EndOfStruct) => ("eos", 0), Special(EndOfDoc) => ("eod", 0), Special(Exception) => ("x", 0), Special(Padding) => ("p", 0) };
    let mut o = vec![];
    wire::encode_descriptor(&mut o, Descriptor::from(p)).unwrap();
    c("desc", vec![("b", J::I(b as i64)), ("k", st(k)), ("tag", J::I(tag as i64)), ("back", J::I(if o.len() == 1 { o[0] as i64 } else { -1 }))])
}

fn values(u: u64, out: &mut Vec<Box<dyn Fn() -> Option<J>>>) {
    out.push(Box::new(move || Some(enc(u))));
    out.push(Box::new(move || Some(encf(u))));
    out.push(Box::new(move || Some(enci(u as i64))));
    out.push(Box::new(move || Some(c("zz", vec![("i", i64j(u as i64)), ("u", n64(wire::zigzag(u as i64)))]))));
    out.push(Box::new(move || Some(c("unzz", vec![("i", i64j(wire::unzigzag(u))), ("u", n64(u))]))));
    for t in TYS {
        out.push(Box::new(move || to(t, u)));
        out.push(Box::new(move || Some(de(t, u))));
    }
}

pub fn gen(out: &mut Out, seed: u64, n: u64, what: &str) {
    let mut calls: Vec<Box<dyn Fn() -> Option<J>>> = vec![];
    let mut r = Rng::new(seed, 77);
    if what.contains("fixed") {
        for b in 0..=255u8 { calls.push(Box::new(move || Some(desc(b)))); }
        for k in 0..64 { let p = 1u64 << k; for v in [p.wrapping_sub(2), p.wrapping_sub(1), p, p.wrapping_add(1), p | (p >> 1)] { values(v, &mut calls); } }
        for v in [0, u64::MAX, u64::MAX - 1, 0xd7ff, 0xd800, 0xdfff, 0xe000, 0x10ffff, 0x110000, 0x1_0000_0041, 128 << 7] { values(v, &mut calls); }
        // encodings of every width
        for u in [0u64, 1, 127, 128, 16383, 16384, u32::MAX as u64, 1 << 63, u64::MAX] {
            let mut d = vec![]; put_var(&mut d, u);
            for w in d.len()..300 {
                if w == 257 { continue; } // one more than promised
                let mut x = d.clone();
                if w > x.len() { let l = x.len(); x[l - 1] |= 128; x.resize(w - 1, 128); x.push(0); }
                x.push(9);
                calls.push(Box::new(move || Some(dec(&x))));
            }
        }
        // a bit in every group
        for g in 0..30 { for bit in 0..7 { let mut x = vec![128u8; g]; x.push(1 << bit); let y = x.clone(); calls.push(Box::new(move || Some(dec(&y))));
            let l = x.len(); x[l - 1] |= 128; x.push(0); let y = x.clone(); calls.push(Box::new(move || Some(deci(&y)))); calls.push(Box::new(move || Some(dec(&x[..l])))); } }
        for n in [256usize, 258, 259, 300, 1000] { let x = vec![128u8; n]; calls.push(Box::new(move || Some(dec(&x)))); let x = vec![255u8; n]; calls.push(Box::new(move || Some(dec(&x)))); }
    }
    if what.contains("short") {
        calls.push(Box::new(|| Some(dec(&[]))));
        for a in 0..=255u8 { calls.push(Box::new(move || Some(dec(&[a])))); for b in (0..=255u8).filter(|b| a >= 128 && (*b % 8 == 0 || *b % 8 == 7 || *b < 4) || *b % 64 == 1) { calls.push(Box::new(move || Some(dec(&[a, b])))); } }
    }
    for _ in 0..n {
        if r.chance(1, 20) { let u = r.u64b(); values(u, &mut calls); }
        let u = r.u64b();
        let mut d = vec![]; put_var(&mut d, u);
        if r.chance(1, 2) { let l = d.len(); d[l - 1] |= 128; let e = r.below(12); d.extend(std::iter::repeat(128).take(e)); d.push(r.below(3) as u8 * r.below(2) as u8); }
        if r.chance(1, 4) { let i = r.below(d.len()); d[i] ^= 1 << r.below(8); }
        if r.chance(1, 8) { let i = r.below(d.len() + 1); d.truncate(i); }
        if r.chance(1, 2) { let b = r.byte(); d.push(b); }
        let s = r.chance(1, 3);
        calls.push(Box::new(move || Some(if s { deci(&d) } else { dec(&d) })));
    }
    let mut batch = vec![]; let mut id = 0;
    let mut flush = |b: &mut Vec<J>, id: &mut u64| { if !b.is_empty() { let n = b.len(); out.put(&obj(vec![("id", J::I(*id as i64)), ("calls", J::A(std::mem::take(b)))]), n); *id += 1; } };
    for f in &calls {
        watch::session(format!("wire call in batch {}", id));
        match catch_unwind(AssertUnwindSafe(|| f())) { Ok(Some(j)) => batch.push(j), Ok(None) => {}, Err(_) => batch.push(obj(vec![("f", st("panic"))])) }
        if batch.len() == 200 { flush(&mut batch, &mut id); }
    }
    flush(&mut batch, &mut id);
}
