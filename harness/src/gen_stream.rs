//! Random sessions: documents and the operations performed on them.
use crate::json::*;
use crate::rng::Rng;
use crate::session::*;

pub fn put_var(o: &mut Vec<u8>, mut n: u64) {
    loop { let b = (n & 127) as u8; n >>= 7; if n > 0 { o.push(b | 128) } else { o.push(b); break } }
}
/// An encoding of `n`, possibly denormalised.
pub fn put_int(o: &mut Vec<u8>, r: &mut Rng, n: u64) {
    let at = o.len();
    put_var(o, n);
    if r.chance(1, 8) {
        let extra = match r.below(6) { 0 => 1, 1 => 2, 2 => r.below(12), 3 => 10usize.saturating_sub(o.len() - at), 4 if r.chance(1, 8) => 255 - (o.len() - at), _ => r.below(4) };
        if extra > 0 { let l = o.len(); o[l - 1] |= 128; for _ in 1..extra { o.push(128); } o.push(0); }
    }
}

#[derive(Clone)]
pub struct DocCfg { pub depth: usize, pub elems: usize, pub int: usize, pub blob: usize, pub sub: usize, pub pad: usize, pub exc: usize, pub eod: usize, pub bloblen: usize, pub bigint: bool }

pub fn element(o: &mut Vec<u8>, r: &mut Rng, c: &DocCfg, depth: usize) {
    let t = r.below(c.int + c.blob + c.sub + c.pad + c.exc);
    let tag = match r.below(8) { 0 => 63, 1 => r.range(1, 63) as u8, _ => r.range(1, 4) as u8 };
    if t < c.int {
        o.push(64 | tag); let n = if c.bigint && r.chance(1, 2) { r.u64b() } else { r.below(300) as u64 }; put_int(o, r, n);
    } else if t < c.int + c.blob {
        o.push(128 | tag); let n = blob_len(r, c.bloblen); put_int(o, r, n as u64);
        let b = r.bytes(n); o.extend(b);
    } else if t < c.int + c.blob + c.sub {
        if r.chance(1, 2) { o.push(192 | tag) } else { o.push(tag); let n = if r.chance(1, 4) { r.u64b() } else { r.below(6) as u64 }; put_int(o, r, n) }
        if depth > 0 { let n = r.below(c.elems + 1); for _ in 0..n { element(o, r, c, depth - 1); } }
        if !r.chance(1, 30) { o.push(0); }
    } else if t < c.int + c.blob + c.sub + c.pad {
        for _ in 0..r.range(1, 3) { o.push(192); }
    } else {
        o.push(128); let n = match r.below(8) { 0 => r.range(250, 262), 1 => r.below(600), _ => r.below(8) };
        put_int(o, r, n as u64);
        for _ in 0..n {
            // text, mostly; also arbitrary bytes and broken UTF-8
            match r.below(12) { 0 => { let b = r.byte(); o.push(b) } 1 => o.push(*r.pick(&[0xc2, 0xe0, 0xed, 0xf0, 0xf4, 0x80, 0x9f, 0xa0, 0xbf])), _ => o.push(r.range(32, 126) as u8) }
        }
        // (multi-byte characters may have changed nothing: lengths are bytes)
    }
}
fn blob_len(r: &mut Rng, max: usize) -> usize { match r.below(6) { 0 => 0, 1 => 1, _ => r.below(max + 1) } }

pub fn document(r: &mut Rng, c: &DocCfg) -> Vec<u8> {
    let mut o = vec![];
    let n = r.range(1, c.elems + 2);
    for _ in 0..n {
        element(&mut o, r, c, c.depth);
        if r.chance(c.eod, 40) { o.push(64); }
        if r.chance(1, 6) { o.push(0); }
    }
    if r.chance(1, 2) { o.push(if r.chance(1, 2) { 64 } else { 0 }); }
    o
}

/// A size around that of a smaller integer type.
pub fn size(r: &mut Rng) -> usize { let b = *r.pick(&[128, 256, 4096, 8192, 16384, 32768, 65536, 65536, 70000]); b + r.below(4) - 2 }
/// A document with something big in it.
pub fn huge(r: &mut Rng) -> Vec<u8> {
    let small = DocCfg { depth: 1, elems: 2, int: 3, blob: 2, sub: 2, pad: 1, exc: 1, eod: 0, bloblen: 6, bigint: false };
    let mut o = vec![];
    let inside = r.chance(1, 3);
    if inside { o.push(192 | 5); }
    element(&mut o, r, &small, 1);
    let n = size(r);
    match r.below(5) {
        0 => { o.push(128); put_var(&mut o, n as u64); o.extend((0..n).map(|k| (k % 90 + 33) as u8)); }
        1 => { o.push(128 | r.range(1, 63) as u8); put_var(&mut o, n as u64); o.extend((0..n).map(|k| k as u8)); }
        2 => { o.extend(std::iter::repeat(192).take(n)); }
        3 => { let n = if n > 30000 && !r.chance(1, 3) { n / 100 } else { n }; for k in 0..n { if k % 3 == 1 { o.push(3); o.push(7); } else { o.push(192 | 2); } } o.extend(std::iter::repeat(0).take(n)); }
        _ => { let n = n / 4; for _ in 0..n { o.push(64 | 3); put_var(&mut o, n as u64); } }
    }
    for _ in 0..2 { element(&mut o, r, &small, 1); }
    if inside { o.push(0); }
    element(&mut o, r, &small, 1);
    o
}

/// Damage a document.
pub fn mutate(o: &mut Vec<u8>, r: &mut Rng) {
    if o.is_empty() { return; }
    match r.below(7) {
        0 => { let n = r.below(o.len() + 1); o.truncate(n); }
        1 => { let i = r.below(o.len()); o[i] = r.byte(); }
        2 => { let i = r.below(o.len()); o.remove(i); }
        3 => { let i = r.below(o.len() + 1); let b = r.byte(); o.insert(i, b); }
        4 | 6 => { let i = r.below(o.len()); o.truncate(i); o.push(128 | r.range(0, 3) as u8); let n = r.u64b(); put_var(o, n); let m = r.below(6); let t = r.bytes(m); o.extend(t); }
        _ => { let i = r.below(o.len()); o[i] ^= 1 << r.below(8); }
    }
}

pub struct Weights {
    pub look: usize, pub ne: usize, pub nf: usize, pub skip: usize, pub skip_up: usize, pub commit: usize,
    pub repos: usize, pub eof: usize, pub depth: usize, pub write: usize, pub wblob: usize, pub badtag: usize,
    /// chance in 8 to do another operation with a blob that is held
    pub bread: usize, pub bwrite: usize,
}

pub struct RandDrv { pub r: Rng, pub w: Weights, pub left: usize, pub near_max: bool, pub finish_blobs: bool, pub stop_at_end: bool, pub readback: usize, pub kill_ok: bool, pub can_write: bool, pub started: bool, pub max_d: usize }

fn o(name: &str) -> Vec<(&'static str, J)> { vec![("o", J::S(name.to_owned()))] }
fn op(name: &str, a: Vec<(&'static str, J)>) -> J { let mut v = o(name); v.extend(a); obj(v) }
fn op0(name: &str) -> J { obj(o(name)) }

fn off(r: &mut Rng, span: i64) -> i64 {
    match r.below(12) { 0 => i64::MIN, 1 => i64::MAX, 2 => r.u64b() as i64, _ => r.below((2 * span + 5) as usize) as i64 - span - 2 }
}

impl RandDrv {
    fn blob_op(&mut self, v: &View) -> Option<J> {
        let (most, few) = if self.max_d > 100 { (100_000, 100_000) } else { (2000, 4000) };
        let r = &mut self.r;
        let rem = v.rem.min(1 << 20) as usize;
        let len = v.len.min(1 << 20) as usize;
        let amount = |r: &mut Rng| match r.below(6) { 0 => 0, 1 => rem, 2 => rem + 1, 3 => r.below(rem + 3), 4 => r.below(4), _ => r.below(40) }.min(most);
        // moving bytes off into the distance is of no interest
        if self.w.bwrite > 0 && v.writable && r.chance(self.w.bwrite, 8) {
            if r.below(16) == 0 { return Some(op0("b_flush")); }
            if r.below(16) == 0 { let n = amount(r).min(300); let d = r.bytes(n); return Some(op("b_xwrite", vec![("d", byts(&d))])); }
            if r.below(4) == 0 && v.seekable { return Some(self.blob_seek(v, len)); }
            if self.finish_blobs && r.chance(1, 3) && rem < few { let d = r.bytes(if most > 2000 { rem } else { rem.min(1200) }); return Some(op("b_wall", vec![("d", byts(&d))])); }
            let far = v.len.wrapping_sub(v.rem) > 1 << 60;
            if far && r.below(3) == 0 { return Some(op0("commit")); }
            if v.len > 1 << 62 && v.seekable && r.below(if far { 2 } else { 6 }) == 0 {
                // a sparse blob: farther than a single seek reaches, or nearly
                let k = match r.below(6) { 0 => r.below(300) as u64, 1 => i64::MAX as u64 - r.below(30) as u64, 2 => r.u64b() >> 1, _ => r.below(40) as u64 };
                return Some(op("b_seek", vec![("w", st("cur")), ("i", i64j(k as i64))]));
            }
            if v.seekable && r.below(40) == 0 { return Some(op("x_back", vec![("k", J::I(match r.below(3) { 0 => r.below(3), 1 => r.below(14), _ => r.below(40) } as i64))])); }
            let n = amount(r); let d = r.bytes(n);
            return Some(op(if r.chance(1, 2) { "b_write" } else { "b_wall" }, vec![("d", byts(&d))]));
        }
        if !r.chance(self.w.bread, 8) { return None; }
        match r.below(17) {
            16 => Some(op("b_xread", vec![("k", J::I(amount(r) as i64))])),
            0 | 1 => Some(op("b_read", vec![("k", J::I(amount(r) as i64))])),
            2 | 3 => Some(op("b_exact", vec![("k", J::I(amount(r) as i64))])),
            4 | 5 => { let m = match r.below(8) { 0 => rem as u64, 1 => (rem as u64).saturating_sub(1), 2 => u64::MAX, 3 => 0, _ => amount(r) as u64 }; Some(op("b_fully", vec![("max", n64(m))])) }
            6 | 7 => { let m = match r.below(8) { 0 => rem as u64, 1 => u64::MAX, _ => amount(r) as u64 }; Some(op("b_trunc", vec![("max", n64(m))])) }
            8 => Some(if v.slice { op0("b_slice") } else { op0("b_look") }),
            9 => Some(if v.smut { op0("b_slicemut") } else { op0("b_look") }),
            10 => Some(if v.ext { op0("b_ext") } else { op0("b_look") }),
            11 | 12 => Some(op("b_fill", vec![("k", J::I(amount(r) as i64))])),
            _ if v.seekable => Some(self.blob_seek(v, len)),
            _ => Some(op0("b_look")),
        }
    }
    fn blob_seek(&mut self, v: &View, len: usize) -> J {
        let r = &mut self.r;
        let inner = (v.len.wrapping_sub(v.rem)).min(1 << 20) as i64;
        match r.below(3) {
            0 => { let u = if r.chance(1, 8) { r.u64b() } else { r.below(len + 3) as u64 }; op("b_seek", vec![("w", st("start")), ("u", n64(u))]) }
            1 => { let i = if r.chance(1, 8) { off(r, len as i64) } else { -(r.below(len + 3) as i64) }; op("b_seek", vec![("w", st("end")), ("i", i64j(i))]) }
            _ => { let i = if r.chance(1, 8) { off(r, len as i64) } else { r.below(len + 5) as i64 - inner - 2 }; op("b_seek", vec![("w", st("cur")), ("i", i64j(i))]) }
        }
    }
    fn tag(&mut self) -> J {
        let r = &mut self.r;
        J::I(if self.w.badtag > 0 && r.chance(self.w.badtag, 100) { *r.pick(&[0, 64, 65, 127, 128, 129, 192, 255]) } else { match r.below(6) { 0 => 63, 1 => 1, 2 => r.range(1, 63) as i64, _ => r.range(1, 6) as i64 } })
    }
    fn write_op(&mut self, v: &View) -> J {
        let t = self.tag();
        let r = &mut self.r;
        match r.below(13) {
            12 => { let n = r.below(6); let d = if r.chance(1, 2) { vec![192; n] } else { r.bytes(n) }; op("x_write", vec![("d", byts(&d))]) }
            0 | 1 | 2 => match *r.pick(&["null", "bool", "u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "isize"]) {
                x @ ("i8" | "i16" | "i32" | "i64" | "isize") => {
                    let u = r.u64b() as i64;
                    let i = match x { "i8" => u as i8 as i64, "i16" => u as i16 as i64, "i32" => u as i32 as i64, _ => u };
                    op("w_int", vec![("tag", t), ("t", st(x)), ("i", i64j(i))])
                }
                x => {
                    let u = r.u64b();
                    let u = match x { "null" => 0, "bool" => u & 1, "u8" => u as u8 as u64, "u16" => u as u16 as u64, "u32" => u as u32 as u64, _ => u };
                    op("w_int", vec![("tag", t), ("t", st(x)), ("u", n64(u))])
                }
            },
            3 | 4 => op("w_struct", vec![("tag", t)]),
            5 => { let u = r.u64b(); op("w_enum", vec![("tag", t), ("u", n64(u))]) }
            6 | 7 => op0("w_eos"),
            8 => op0("w_eod"),
            9 => op0("w_pad"),
            10 => { let a = if v.pos > 1 << 40 { r.below(8) } else { *r.pick(&[0, 0, 1, 1, 2, 3, 4, 5, 7, 8]) }; op("w_align", vec![("a", J::I(a as i64))]) }
            _ => { let n = r.below(20); let d = r.bytes(n); op("w_data", vec![("tag", t), ("d", byts(&d))]) }
        }
    }
    fn wblob_op(&mut self, _v: &View) -> J {
        let t = self.tag();
        let md = self.max_d;
        let r = &mut self.r;
        let len = match r.below(12) { 0 => 0, 1 => r.u64b(), 2 => u64::MAX - r.below(14) as u64, 3 => r.range(120, 135) as u64, _ if md > 100 && r.chance(1, 2) => md as u64, _ => r.below(md) as u64 };
        let n = if md > 100 && r.chance(1, 2) { md } else if r.chance(1, 10) { r.range(120, 140) } else { r.below(md) };
        let d = r.bytes(n);
        match r.below(8) {
            0 => op("w_data", vec![("tag", t), ("d", byts(&d))]),
            1 | 2 => op("w_alloc", vec![("tag", t), ("u", n64(len))]),
            3 | 4 => op("w_dyn", vec![("tag", t)]),
            5 => op("w_xdata", vec![("d", byts(&d))]),
            6 => op("w_xalloc", vec![("u", n64(len))]),
            _ => op0("w_xdyn"),
        }
    }
    fn repos(&mut self, v: &View) -> J {
        let r = &mut self.r;
        let u = match r.below(6) { 0 => u64::MAX - r.below(40) as u64, 1 => r.u64b(), 2 => 0, _ => r.below(64) as u64 };
        match r.below(10) {
            9 if v.seekable => op("x_back", vec![("k", J::I(match r.below(3) { 0 => r.below(3), 1 => r.below(14), _ => r.below(40) } as i64))]),
            8 | 9 => op("x_read", vec![("k", J::I(r.below(12) as i64))]),
            0 | 1 if !v.dirty => op("set_pos", vec![("u", n64(u))]),
            0 | 1 | 2 => op("reset_pos", vec![("u", n64(u))]),
            _ if !v.seekable => op("reset_pos", vec![("u", n64(u))]),
            _ => { let l = v.at.1.min(4000) as i64;
                match r.below(3) {
                    0 => { let u = if r.chance(1, 12) { r.u64b() } else { r.below(l as usize + 4) as u64 }; op("seek", vec![("w", st("start")), ("u", n64(u))]) }
                    1 => { let i = if r.chance(1, 12) { off(r, l) } else { -(r.below(l as usize + 2) as i64) }; op("seek", vec![("w", st("end")), ("i", i64j(i))]) }
                    _ => { let i = if r.chance(1, 12) { off(r, l) } else { r.below(l as usize + 3) as i64 - (v.at.0.min(4000) as i64) }; op("seek", vec![("w", st("cur")), ("i", i64j(i))]) }
                } }
        }
    }
}

impl Driver for RandDrv {
    fn next(&mut self, v: &View) -> Option<J> {
        if !self.started {
            self.started = true;
            if self.near_max { let k = match self.r.below(4) { 0 => self.r.below(14), 1 => self.r.below(300), _ => self.r.below(40) }; return Some(op("set_pos", vec![("u", n64(u64::MAX - k as u64))])); }
            if !v.dirty && self.r.chance(1, 3) { let k = if self.r.chance(1, 4) { 1u64 << self.r.below(62) } else { 1 + self.r.below(300) as u64 }; return Some(op("set_pos", vec![("u", n64(k))])); }
        }
        if self.left == 0 {
            if self.readback == 0 { return None; }
            // read everything back
            if self.readback == usize::MAX {
                self.readback = 400;
                self.w = Weights { look: 1, ne: 6, nf: 0, skip: 0, skip_up: 0, commit: 0, repos: 0, eof: 0, depth: 0, write: 0, wblob: 0, badtag: 0, bread: 6, bwrite: 0 };
                return Some(op("seek", vec![("w", st("start")), ("u", n64(0))]));
            }
            self.readback -= 1;
            if v.h == H::Blob && v.rem > 0 { return Some(op("b_fully", vec![("max", n64(u64::MAX))])); }
            if v.ended { return Some(op0("clear_eof")); }
            return Some(op0("ne"));
        }
        self.left -= 1;
        if v.field && self.r.chance(1, 10) {
            let ty = match v.h {
                H::Blob if self.r.chance(2, 3) => "blob",
                H::Sub if self.r.chance(2, 3) => *self.r.pick(&["struct", "enum"]),
                _ => *self.r.pick(&["u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "isize", "bool", "null", "blob", "struct", "enum"]),
            };
            return Some(op("as", vec![("t", st(ty))]));
        }
        if v.h == H::Sub && self.w.skip > 0 && self.r.chance(1, 4) { return Some(op0("enter")); }
        if v.nest > 0 && self.r.chance(1, 7) { return Some(op("leave", vec![("skip", J::B(self.r.chance(3, 4)))])); }
        if v.h == H::Blob {
            if let Some(o) = self.blob_op(v) { return Some(o); }
            // a writer mostly completes its blobs
            if self.finish_blobs && v.writable && v.rem > 0 && v.rem < (if self.max_d > 100 { 100_000 } else { 4000 }) && self.r.chance(7, 8) { let d = self.r.bytes(v.rem as usize); return Some(op("b_wall", vec![("d", byts(&d))])); }
        }
        if v.ended && self.stop_at_end && self.r.chance(1, 3) { self.left = self.left.min(2); }
        let w = &self.w;
        if v.h != H::None && w.skip > 0 && self.r.chance(w.skip, 8) { return Some(op0("skip")); }
        let wr = if self.can_write && v.writable { (w.write, w.wblob) } else { (0, 0) };
        let tot = w.look + w.ne + w.nf + w.skip_up + w.commit + w.repos + w.eof + w.depth + wr.0 + wr.1;
        let mut x = self.r.below(tot);
        macro_rules! c { ($n:expr) => { { let n = $n; if x < n { true } else { x -= n; false } } } }
        if c!(w.look) { return Some(op0("look")); }
        if c!(w.ne) { return Some(op0("ne")); }
        if c!(w.nf) { return Some(op0("nf")); }
        if c!(w.skip_up) { let d = if self.r.chance(1, 2) { self.r.below(3) } else { (v.dep as usize).saturating_sub(self.r.below(3)) }; return Some(op("skip_up", vec![("d", J::I(d as i64))])); }
        if c!(w.commit) { return Some(op0("commit")); }
        if c!(w.repos) { return Some(self.repos(v)); }
        if c!(w.eof) { return Some(if v.ended || self.r.chance(1, 3) { op0("clear_eof") } else { op("graceful", vec![("v", J::B(self.r.chance(3, 4)))]) }); }
        if c!(w.depth) { return Some(op("set_depth", vec![("d", J::I(self.r.below(5) as i64))])); }
        if c!(wr.0) { return Some(self.write_op(v)); }
        Some(self.wblob_op(v))
    }
}

const W0: Weights = Weights { look: 0, ne: 0, nf: 0, skip: 0, skip_up: 0, commit: 0, repos: 0, eof: 0, depth: 0, write: 0, wblob: 0, badtag: 0, bread: 0, bwrite: 0 };

pub struct Plan { pub be: &'static str, pub init: Vec<u8>, pub drv: RandDrv, pub keep: bool, pub caps: Vec<usize>, pub fail: Option<usize>, pub fail_seek: bool, pub alloc: bool }

/// The session with number `id` of a profile.
pub fn plan(profile: &str, seed: u64, id: u64) -> Plan {
    let mut h = seed; for b in profile.bytes() { h = h.wrapping_mul(1099511628211) ^ b as u64; }
    let mut r = Rng::new(h, id);
    let base = DocCfg { depth: 3, elems: 3, int: 4, blob: 3, sub: 3, pad: 1, exc: 1, eod: 1, bloblen: 12, bigint: true };
    let rbe: &[&'static str] = &["cur", "curs", "tc", "tcn", "tcb", "sl", "sls"];
    let mut near_max = false; let mut keep = false; let mut readback = 0; let mut left = 24; let mut finish = false; let mut alloc = false; let mut max_d = 24;
    let (mut init, be, w, mutate_p): (Vec<u8>, &'static str, Weights, usize);
    match profile {
        "read" => {
            init = if r.chance(1, 12) { let n = r.below(40); r.bytes(n) } else { document(&mut r, &base) };
            be = *r.pick(rbe); mutate_p = 35;
            w = Weights { look: 2, ne: 6, nf: 6, skip: 1, skip_up: 1, commit: 1, bread: 2, ..W0 };
        }
        "blob" => {
            let c = DocCfg { blob: 10, int: 2, sub: 1, exc: 2, bloblen: *r.pick(&[4, 12, 40, 400]), ..base };
            init = document(&mut r, &c); be = *r.pick(rbe); mutate_p = 10;
            w = Weights { look: 1, ne: 4, nf: 4, skip: 1, commit: 1, bread: 7, ..W0 };
        }
        "depth" => {
            let c = DocCfg { depth: 6, elems: 3, int: 2, blob: 1, sub: 6, pad: 1, exc: 1, eod: 1, bloblen: 4, bigint: false };
            init = document(&mut r, &c); be = *r.pick(rbe); mutate_p = 5; left = 30;
            w = Weights { look: 3, ne: 5, nf: 5, skip: 2, skip_up: 2, commit: 1, depth: 1, bread: 1, eof: 1, ..W0 };
        }
        "eof" => {
            init = document(&mut r, &DocCfg { eod: 8, exc: 2, ..base }); be = *r.pick(rbe); mutate_p = 15;
            if r.chance(1, 2) { let n = r.below(init.len() + 1); init.truncate(n); }
            w = Weights { look: 2, ne: 5, nf: 5, skip: 2, skip_up: 1, eof: 3, commit: 1, repos: if r.chance(1, 3) { 1 } else { 0 }, bread: 2, ..W0 };
        }
        "inband" => {
            let c = DocCfg { pad: 4, exc: 4, ..base };
            init = document(&mut r, &c); be = *r.pick(rbe); mutate_p = 8;
            w = Weights { look: 2, ne: 2, nf: 8, skip: 2, skip_up: 1, bread: 3, ..W0 };
            left = 30;
        }
        "pos" => {
            near_max = r.chance(1, 3);
            init = document(&mut r, &base);
            let writer = r.chance(1, 2);
            be = if writer { *r.pick(&["cur", "curs", "tc", "mem"]) } else { *r.pick(rbe) };
            if writer && r.chance(1, 2) { init.clear(); }
            mutate_p = 5;
            w = if writer { Weights { look: 2, ne: 0, nf: 0, repos: 2, write: 8, wblob: 3, commit: 1, bwrite: 4, bread: 1, ..W0 } }
                else { Weights { look: 2, ne: 4, nf: 4, skip: 1, skip_up: 1, commit: 1, repos: 2, bread: 4, ..W0 } };
            finish = writer && r.chance(3, 4);
        }
        "write" => {
            init = vec![]; be = *r.pick(&["cur", "curs", "tc", "tcn", "mem"]); mutate_p = 0; left = r.range(1, 16);
            w = Weights { look: 1, write: 12, wblob: 4, commit: 1, bwrite: 5, badtag: if r.chance(1, 6) { 12 } else { 0 }, ..W0 };
            finish = r.chance(7, 8); readback = usize::MAX; max_d = 12;
        }
        "wblob" => {
            init = if r.chance(1, 4) { let n = r.below(60); r.bytes(n) } else { vec![] };
            be = *r.pick(&["cur", "curs", "tc", "tcn", "mem"]); mutate_p = 0; left = r.range(2, 20);
            w = Weights { look: 1, write: 2, wblob: 8, commit: 2, bwrite: 7, bread: 1, repos: if r.chance(1, 6) { 1 } else { 0 }, ..W0 };
            finish = r.chance(2, 3); readback = if r.chance(1, 2) && init.is_empty() { usize::MAX } else { 0 };
        }
        "huge" => {
            // sizes around those of the machine's smaller integer types
            init = huge(&mut r); be = *r.pick(&["cur", "curs", "tc", "tcb", "sl", "sls", "sls", "mem", "mems"]); mutate_p = 0; left = 14; max_d = 1000; alloc = true;
            w = Weights { look: 1, ne: 2, nf: 5, skip: 3, skip_up: 1, bread: 2, ..W0 };
        }
        "hugew" => {
            init = vec![]; be = *r.pick(&["cur", "tc", "mem"]); mutate_p = 0; left = r.range(2, 6);
            w = Weights { write: 1, wblob: 6, bwrite: 7, ..W0 };
            finish = true; readback = usize::MAX; max_d = size(&mut r);
        }
        "chaosr" | "faultr" => {
            init = document(&mut r, &base); be = *r.pick(&["mem", "mems"]); mutate_p = 10;
            w = Weights { look: 1, ne: 4, nf: 4, skip: 2, skip_up: 1, commit: 1, bread: 5, eof: if r.chance(1, 4) { 1 } else { 0 }, ..W0 };
        }
        "chaosw" | "faultw" => {
            init = vec![]; be = "mem"; mutate_p = 0; left = r.range(2, 14);
            w = Weights { look: 1, write: 8, wblob: 6, commit: 1, bwrite: 5, ..W0 };
            finish = true; readback = if profile == "chaosw" { usize::MAX } else { 0 };
        }
        "hostile" => {
            init = match r.below(4) { 0 => { let n = r.below(60); r.bytes(n) } _ => document(&mut r, &base) };
            if r.chance(1, 2) { mutate(&mut init, &mut r); mutate(&mut init, &mut r); }
            near_max = r.chance(1, 6);
            be = *r.pick(&["cur", "curs", "tc", "tcn", "tcb", "sl", "sls", "mem", "mems"]); mutate_p = 60;
            keep = r.chance(1, 2); alloc = true;
            let wr = r.chance(1, 4);
            w = Weights { look: 1, ne: 4, nf: 4, skip: 2, skip_up: 2, commit: 1, repos: 1, eof: 1, depth: 1, bread: 6, write: if wr { 3 } else { 0 }, wblob: if wr { 3 } else { 0 }, bwrite: if wr { 2 } else { 0 }, ..W0 };
            left = 30;
            if wr { keep = false; }
        }
        p => panic!("harness: profile {}", p),
    }
    if r.chance(mutate_p, 100) { mutate(&mut init, &mut r); }
    let chaos = profile.starts_with("chaos") || profile.starts_with("fault") || (be.starts_with("mem") && profile == "hostile");
    let caps = if chaos { let n = r.range(1, 6); (0..n).map(|_| *r.pick(&[0, 1, 1, 2, 3, 5, 8, 100])).collect() } else { vec![] };
    let fail = if profile.starts_with("fault") { Some(match r.below(3) { 0 => r.below(6), 1 => r.below(20), _ => r.below(60) }) } else { None };
    let fail_seek = r.chance(1, 2);
    let can_write = w.write + w.wblob > 0;
    Plan { be, init, keep, caps, fail, fail_seek, alloc,
        drv: RandDrv { r, w, left, near_max, finish_blobs: finish, stop_at_end: true, readback, kill_ok: true, can_write, started: false, max_d } }
}
