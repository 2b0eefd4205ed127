//! Documents as trees of elements, to change them in.
use crate::gen_stream::put_var;
use crate::rng::Rng;

#[derive(Clone, Debug)]
pub enum Nd { I(u8, u64), B(u8, Vec<u8>), S(u8, Vec<Nd>), E(u8, u64, Vec<Nd>), Pad, Exc(Vec<u8>), Eod, Cut(u8, u64), Raw(Vec<u8>) }

fn var(b: &[u8], i: &mut usize) -> Option<u64> {
    let (mut v, mut k) = (0u64, 0);
    loop {
        let c = *b.get(*i)?; *i += 1;
        if k < 64 { v |= ((c & 127) as u64) << k; }
        k += 7;
        if c < 128 { return Some(v); }
    }
}
/// The elements up to the end of a struct (or of the input).
pub fn parse(b: &[u8], i: &mut usize, top: bool) -> Option<Vec<Nd>> {
    let mut v = vec![];
    loop {
        if *i >= b.len() { return if top { Some(v) } else { None }; }
        let d = b[*i]; *i += 1;
        let tag = d & 63;
        if tag == 0 {
            match d { 0 => return Some(v), 192 => v.push(Nd::Pad), 64 => v.push(Nd::Eod),
                _ => { let n = var(b, i)? as usize; if b.len() - *i < n { return None; } v.push(Nd::Exc(b[*i..*i + n].to_vec())); *i += n; } }
            continue;
        }
        v.push(match d >> 6 {
            1 => Nd::I(tag, var(b, i)?),
            2 => { let n = var(b, i)? as usize; if b.len() - *i < n { return None; } let x = b[*i..*i + n].to_vec(); *i += n; Nd::B(tag, x) }
            3 => Nd::S(tag, parse(b, i, false)?),
            _ => { let d = var(b, i)?; Nd::E(tag, d, parse(b, i, false)?) }
        });
    }
}
fn int(o: &mut Vec<u8>, n: u64, loose: &mut Option<&mut Rng>) {
    put_var(o, n);
    if let Some(r) = loose { if r.chance(1, 6) { let l = o.len() - 1; o[l] |= 128; for _ in 0..r.below(3) { o.push(128); } o.push(0); } }
}
/// ... and back, with the end of the struct; `loose`: integers wider than
/// they need to be
pub fn emit(o: &mut Vec<u8>, v: &[Nd], loose: &mut Option<&mut Rng>) {
    for n in v {
        match n {
            Nd::I(t, n) => { o.push(64 | t); int(o, *n, loose); }
            Nd::B(t, d) => { o.push(128 | t); int(o, d.len() as u64, loose); o.extend_from_slice(d); }
            Nd::S(t, c) => { o.push(192 | t); emit(o, c, loose); o.push(0); }
            Nd::E(t, d, c) => { o.push(*t); int(o, *d, loose); emit(o, c, loose); o.push(0); }
            Nd::Pad => o.push(192),
            Nd::Exc(d) => { o.push(128); int(o, d.len() as u64, loose); o.extend_from_slice(d); }
            Nd::Eod => o.push(64),
            Nd::Cut(t, n) => { o.push(128 | t); int(o, *n, loose); }
            Nd::Raw(d) => o.extend_from_slice(d),
        }
    }
}
pub fn random(r: &mut Rng, depth: usize) -> Nd {
    let t = if r.chance(2, 3) { r.range(1, 6) } else { r.range(1, 63) } as u8;
    match r.below(if depth > 0 { 6 } else { 3 }) {
        0 | 1 => Nd::I(t, if r.chance(1, 2) { r.below(4) as u64 } else { r.u64b() }),
        2 | 3 => { let n = r.below(5); Nd::B(t, if r.chance(1, 3) { r.bytes(n) } else { b"ab\xc3\xa9"[..n.min(4)].to_vec() }) }
        4 => { let n = r.below(3); Nd::S(t, (0..n).map(|_| random(r, depth - 1)).collect()) }
        _ => { let n = r.below(3); let d = if r.chance(2, 3) { r.below(7) as u64 } else { r.u64b() }; Nd::E(t, d, (0..n).map(|_| random(r, depth - 1)).collect()) }
    }
}
fn count(v: &[Nd]) -> usize { 1 + v.iter().map(|n| match n { Nd::S(_, c) | Nd::E(_, _, c) => count(c), _ => 0 }).sum::<usize>() }
/// the list of elements number `k` (depth first)
fn list<'a>(v: &'a mut Vec<Nd>, k: &mut usize) -> Option<&'a mut Vec<Nd>> {
    if *k == 0 { return Some(v); }
    *k -= 1;
    for n in v.iter_mut() { if let Nd::S(_, c) | Nd::E(_, _, c) = n { if let Some(x) = list(c, k) { return Some(x); } } }
    None
}
fn retag(n: &mut Nd, t: u8) { match n { Nd::I(x, _) | Nd::B(x, _) | Nd::S(x, _) | Nd::E(x, _, _) | Nd::Cut(x, _) => *x = t, _ => () } }
fn tag(n: &Nd) -> u8 { match n { Nd::I(x, _) | Nd::B(x, _) | Nd::S(x, _) | Nd::E(x, _, _) | Nd::Cut(x, _) => *x, _ => 1 } }
/// Changes which keep the fields a reader sees.
pub fn pad(v: &mut Vec<Nd>, r: &mut Rng) {
    let n = count(v);
    let mut k = r.below(n);
    let Some(l) = list(v, &mut k) else { return };
    let at = r.below(l.len() + 1);
    for _ in 0..(if r.chance(1, 12) { 300 } else { r.range(1, 3) }) { l.insert(at, Nd::Pad); }
}
pub fn change(v: &mut Vec<Nd>, r: &mut Rng) {
    let n = count(v);
    let mut k = r.below(n);
    let Some(l) = list(v, &mut k) else { return };
    let len = l.len();
    let at = r.below(len + 1);
    if len == 0 || r.chance(1, 5) {
        let x = match r.below(12) { 0 => Nd::Pad, 1 => { let n = r.below(4); Nd::Exc(r.bytes(n)) } 2 => Nd::Eod, 3 => Nd::Cut(r.range(1, 4) as u8, r.u64b()), _ => random(r, 2) };
        l.insert(at, x);
        return;
    }
    let at = r.below(len);
    match r.below(11) {
        0 => { l.remove(at); }
        1 | 2 => { let x = l[at].clone(); let p = if r.chance(1, 2) { at } else { r.below(len + 1) }; l.insert(p, x); }
        3 => { let b = r.below(len); l.swap(at, b); }
        4 => { let t = if r.chance(1, 2) { tag(&l[at]) % 63 + 1 } else { r.range(1, 63) as u8 }; retag(&mut l[at], t); }
        5 => { let t = tag(&l[at]); let mut x = random(r, 1); retag(&mut x, t); l[at] = x; }
        6 => { let t = tag(&l[at]); let x = l[at].clone(); let mut x1 = x; retag(&mut x1, 1); l[at] = Nd::S(t, vec![x1]); }
        7 => { if let Nd::S(t, c) = &l[at] { let (t, c) = (*t, c.clone()); match c.len() { 1 => { let mut x = c[0].clone(); retag(&mut x, t); l[at] = x; } _ => { l[at] = Nd::E(t, r.below(5) as u64, c); } } } }
        8 | 9 => { let t0 = tag(&l[at]); match &mut l[at] {
            Nd::I(_, n) => { *n = match r.below(4) { 0 => n.wrapping_add(1), 1 => r.below(3) as u64, _ => r.u64b() } }
            Nd::B(_, d) => match r.below(5) { 4 => { let mut o = vec![128 | t0]; put_var(&mut o, (d.len() as u64).wrapping_add(*r.pick(&[1 << 8, 1 << 16, 1 << 31, 1 << 32, 1 << 63, 3 << 32]))); o.extend_from_slice(d); l[at] = Nd::Raw(o); } 0 => { d.pop(); } 1 => { let b = r.byte(); d.push(b); } 2 => { let n = d.len(); if n > 0 { let i = r.below(n); d[i] = *r.pick(&[0, 127, 128, 192, 193, 224, 237, 255]); } } _ => { let n = r.below(6); *d = r.bytes(n); } },
            Nd::E(_, d, _) => { *d = if r.chance(1, 2) { d.wrapping_add(1) } else { r.below(8) as u64 } }
            _ => (),
        } },
        _ => { let d = r.range(1, 4); for _ in 0..d { let t = tag(&l[at]); let x = l[at].clone(); l[at] = Nd::S(t, vec![x]); } }
    }
}
