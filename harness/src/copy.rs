//! Sessions with two streams: elements read from one are written to the
//! other.
use crate::backend::*;
use crate::gen_stream::{self as gs, DocCfg};
use crate::json::*;
use crate::rng::Rng;
use crate::session::*;
use fourleaf::stream::{Element, Error, Field, Stream, Value};
use std::io::Cursor;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// One operation on the destination.
fn dst_op<D: Be>(d: &mut Stream<D>, op: &J, log: &mut Log) {
    let o = op.s("o");
    log.begin(op);
    let tag = if op.has("tag") { op.i("tag") as u8 } else { 0 };
    let r: Result<J, Error> = match o {
        "w_int" => int_write(d, tag, op).map(|_| k("ok")),
        "w_struct" => d.write_struct(tag).map(|_| k("ok")),
        "w_enum" => d.write_enum(tag, op.u("u")).map(|_| k("ok")),
        "w_eos" => d.write_end_struct().map(|_| k("ok")),
        "w_eod" => d.write_end_doc().map(|_| k("ok")),
        "w_pad" => d.write_padding().map(|_| k("ok")),
        "w_align" => d.pad_to_align(1u64 << op.i("a")).map(|_| k("ok")),
        "commit" => d.commit().map(|_| k("ok")),
        "seek" => d.seek(seek_arg(op)).map(rn),
        "clear_eof" => { d.clear_eof(); Ok(k("ok")) }
        "w_data" => match d.write_blob_data(tag, op.bytes("d")) {
            Ok(b) => { let ob = obb(&b); log.end(k("ok"), ob); return }
            Err(e) => Err(e),
        },
        "ne" => {
            let r = match d.next_element() {
                Ok(Element::Field(mut f)) => {
                    let r = relem(&f);
                    if let Value::Blob(ref mut b) = f.value { back(r, b, log); return; }
                    Ok((r, false))
                }
                Ok(Element::EndOfStruct) => Ok((k("eos"), false)),
                Ok(Element::EndOfDoc) => Ok((k("eod"), true)),
                Ok(Element::Padding) => Ok((k("p"), false)),
                Ok(Element::Exception(mut b)) => { let r = obj(vec![("k", st("x")), ("n", n64(b.len()))]); back(r, &mut b, log); return }
                Err(e) => Err(e),
            };
            r.map(|(r, e)| { log.ended = e; r })
        }
        x => panic!("harness: op {}", x),
    };
    let r = match r { Ok(j) => j, Err(e) => { log.dead = true; serr(&e) } };
    let ob = obs(d);
    log.end(r, ob);
}
/// A blob read back is read at once.
fn back<D: Be>(r: J, b: &mut fourleaf::stream::Blob<D>, log: &mut Log) {
    let ob = obb(b);
    log.end(r, ob);
    let op = obj(vec![("o", st("b_fully")), ("max", n64(u64::MAX)), ("at", st("d"))]);
    log.begin(&op);
    let r = match b.read_fully(usize::MAX) { Ok(d) => rd(&d), Err(e) => { log.dead = true; serr(&e) } };
    let ob = obb(b);
    log.end(r, ob);
}

enum E<'a, B: 'a> { El(Element<'a, B>), Fi(Field<'a, B>) }

/// Performs `ops`; what does not apply is left out.
fn run<B: Be, D: Be>(s: &mut Stream<B>, d: &mut Stream<D>, ops: Vec<J>, log: &mut Log) {
    events();
    let mut drv = Replay { ops, i: 0 };
    let mut sdead = false;
    let v = View { h: H::None, field: false, fpos: 0, nest: 0, pos: 0, dep: 0, len: 0, rem: 0, at: (0, 0), writable: false, seekable: B::SEEKABLE, slice: false, smut: false, ext: false, last: "", dirty: false, ended: false };
    let mut pending: Option<J> = None;
    loop {
        if log.dead { return; }
        let Some(op) = pending.take().or_else(|| drv.next(&v)) else { return };
        if op.s("at") == "d" { dst_op(d, &op, log); continue; }
        let o = op.s("o").to_owned();
        if sdead || o == "copy" || o.starts_with("b_") { continue; }
        log.begin(&op);
        let r: Result<J, Error> = match &o[..] {
            "ne" => match s.next_element() {
                Ok(e) => {
                    let r = match e { Element::Field(ref f) => relem(f), Element::EndOfStruct => k("eos"), Element::EndOfDoc => k("eod"), Element::Padding => k("p"),
                        Element::Exception(ref b) => obj(vec![("k", st("x")), ("n", n64(b.len()))]) };
                    pending = held(E::El(e), r, d, &mut drv, log); continue
                }
                Err(e) => Err(e),
            },
            "nf" => match s.next_field() {
                Ok(Some(f)) => { let r = relem(&f); pending = held(E::Fi(f), r, d, &mut drv, log); continue }
                Ok(None) => Ok(k("none")),
                Err(e) => Err(e),
            },
            "commit" => s.commit().map(|_| k("ok")),
            "skip_up" => s.skip_up(op.i("d") as u64).map(|_| k("ok")),
            "look" => Ok(k("ok")),
            "clear_eof" => { s.clear_eof(); Ok(k("ok")) }
            x => panic!("harness: op {}", x),
        };
        let r = match r { Ok(j) => j, Err(e) => { if !matches!(e, Error::Exception(_)) { sdead = true; } serr(&e) } };
        let ob = obs(s);
        let dead = log.dead;
        log.end(r, ob);
        // (a dead source leaves the destination)
        log.dead = dead;
    }
}

fn held<B: Be, D: Be>(mut e: E<B>, r: J, d: &mut Stream<D>, drv: &mut Replay, log: &mut Log) -> Option<J> {
    fn ob<B: Be>(e: &E<B>) -> J {
        match *e {
            E::El(Element::Field(Field { value: Value::Blob(ref b), .. })) | E::Fi(Field { value: Value::Blob(ref b), .. }) | E::El(Element::Exception(ref b)) => obb(b),
            _ => obn(),
        }
    }
    let o = ob(&e);
    log.end(r, o);
    let v = View { h: H::None, field: false, fpos: 0, nest: 0, pos: 0, dep: 0, len: 0, rem: 0, at: (0, 0), writable: false, seekable: B::SEEKABLE, slice: false, smut: false, ext: false, last: "", dirty: false, ended: false };
    let mut pending: Option<J> = None;
    loop {
        if log.dead { return None; }
        let op = pending.take().or_else(|| drv.next(&v))?;
        if op.s("at") == "d" { dst_op(d, &op, log); continue; }
        let o = op.s("o").to_owned();
        if o == "copy" {
            log.begin(&op);
            let r = match e {
                E::El(ref mut e) => match *e { Element::Field(ref mut f) if op.b("f") => d.write_field(f), ref mut e => d.write_element(e) },
                E::Fi(ref mut f) => d.write_field(f),
            };
            let r = match r { Ok(()) => k("ok"), Err(e) => { log.dead = true; serr(&e) } };
            if let Some(c) = &mut log.cur { c.set("od", obs(d)); }
            let o = ob(&e);
            log.end(r, o);
            continue;
        }
        if o.starts_with("b_") {
            let b = match e {
                E::El(Element::Field(Field { value: Value::Blob(ref mut b), .. })) | E::Fi(Field { value: Value::Blob(ref mut b), .. }) | E::El(Element::Exception(ref mut b)) => b,
                _ => continue,
            };
            if o == "b_seek" && !B::SEEKABLE { continue; }
            pending = blob(b, &mut Replay { ops: vec![op], i: 0 }, log);
            continue;
        }
        return Some(op);
    }
}

fn both<B: Be, D: Be>(mut s: Stream<B>, mut d: Stream<D>, ops: Vec<J>, mut log: Log) -> (Vec<J>, Vec<u8>) {
    let r = catch_unwind(AssertUnwindSafe(|| run(&mut s, &mut d, ops, &mut log)));
    if let Err(p) = r {
        let msg = p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        if msg.starts_with("harness:") { panic!("{}", msg); }
        log.end(k("panic"), obn());
    }
    (log.ops, d.into_inner().buffer())
}
fn with_dst<B: Be>(s: Stream<B>, dst: &str, dinit: Vec<u8>, caps: Vec<usize>, fail: Option<usize>, ops: Vec<J>, log: Log) -> (Vec<J>, Vec<u8>) {
    match dst {
        "cur" => both(s, Stream::new(Cursor::new(dinit)), ops, log),
        "tc" => both(s, Stream::from_slice(dinit), ops, log),
        _ => both(s, Stream::new(Mem::new(dinit, caps, fail, false)), ops, log),
    }
}
/// A session is [id, be, dst, init, dinit, caps, dcaps, fail, dfail, ops].
pub fn perform(q: &J) -> J {
    use fourleaf::io::TransparentCursor;
    let (init, dinit, ops) = (q.bytes("init"), q.bytes("dinit"), q.arr("ops").to_vec());
    let ints = |n: &str| q.arr(n).iter().map(|x| x.int() as usize).collect::<Vec<_>>();
    let (caps, dcaps) = (ints("caps"), ints("dcaps"));
    let opt = |n: &str| if q.has(n) { Some(q.i(n) as usize) } else { None };
    let (fail, dfail) = (opt("fail"), opt("dfail"));
    let log = Log::new();
    let dst = q.s("dst");
    macro_rules! go { ($s:expr) => { with_dst($s, dst, dinit, dcaps, dfail, ops, log) } }
    let leak = |b: &[u8]| -> &'static [u8] { Box::leak(b.to_vec().into_boxed_slice()) };
    let (seek, r) = match q.s("be") {
        "cur" => (false, go!(Stream::new(Cursor::new(init)))),
        "curs" => (true, go!(Stream::new_seek(Cursor::new(init)))),
        "tc" => (true, go!(Stream::from_slice(init))),
        "tcb" => (true, go!(Stream::new_seek(Bor(TransparentCursor(Cursor::new(leak(&init))))))),
        "sl" => { let l = leak(&init); (false, go!(Stream::new(Sl(l, l)))) }
        "sls" => { let l = leak(&init); (false, go!(Stream::new_seek(Sl(l, l)))) }
        "mems" => (true, go!(Stream::new_seek(Mem::new(init, caps, fail, true)))),
        _ => (false, go!(Stream::new(Mem::new(init, caps, fail, true)))),
    };
    let mut out = q.clone();
    out.set("seek", J::B(seek)); out.set("ops", J::A(r.0)); out.set("fin", byts(&r.1));
    out
}
pub fn strip(q: &mut J) {
    let ops = q.arr("ops").iter().filter(|o| !(o.s("at") == "d" && o.s("o") == "b_fully")).map(|o| match o { J::O(v) => J::O(v.iter().filter(|x| !["r", "ob", "od", "n", "flt", "intr", "al"].contains(&&x.0[..])).cloned().collect()), _ => o.clone() }).collect();
    q.set("ops", J::A(ops));
}

/// Session number `id` of a profile: copy, copychaos, copyfault, copyhuge
pub fn plan(profile: &str, seed: u64, id: u64) -> J {
    let mut h = seed; for b in profile.bytes() { h = h.wrapping_mul(1099511628211) ^ b as u64; }
    let mut r = Rng::new(h, id);
    let r = &mut r;
    let c = DocCfg { depth: 3, elems: 4, int: 4, blob: 5, sub: 3, pad: 1, exc: 2, eod: 1, bloblen: *r.pick(&[3, 12, 200]), bigint: true };
    let mut init = if profile == "copyhuge" { gs::huge(r) } else { gs::document(r, &c) };
    if profile == "copyhuge" { init.truncate(90_000); }
    else if r.chance(1, 4) { gs::mutate(&mut init, r); }
    else if r.chance(1, 6) { let n = r.below(init.len() + 1); init.truncate(n); }
    let special = profile == "copychaos" || profile == "copyfault";
    let be = if special { *r.pick(&["mem", "mems"]) } else { *r.pick(&["cur", "curs", "tc", "tcb", "sl", "sls", "mem", "mems"]) };
    let dst = if special { "mem" } else { *r.pick(&["cur", "cur", "tc", "mem"]) };
    let o = |n: &str, a: Vec<(&'static str, J)>| { let mut v = vec![("o", st(n))]; v.extend(a); obj(v) };
    let d = || ("at", st("d"));
    let s = || ("at", st("s"));
    let mut ops = vec![];
    let faithful = r.chance(1, 2);
    let field = r.chance(1, 4);
    for _ in 0..24 {
        ops.push(o(if if faithful { field } else { r.chance(1, 3) } { "nf" } else { "ne" }, vec![s()]));
        if !faithful && r.chance(1, 8) {
            for _ in 0..r.range(1, 3) { ops.push(match r.below(3) { 0 => o("b_read", vec![s(), ("k", J::I(r.below(6) as i64))]), 1 => o("b_look", vec![s()]), _ => o("b_exact", vec![s(), ("k", J::I(r.below(4) as i64))]) }); }
            if r.chance(3, 4) { ops.push(o("b_seek", vec![s(), ("w", st("start")), ("u", n64(0))])); }
        }
        if faithful || r.chance(5, 6) { ops.push(o("copy", vec![("at", st("c")), ("f", J::B(r.chance(1, 3)))])); }
        if !faithful && r.chance(1, 3) {
            for _ in 0..r.range(1, 2) { let tag = ("tag", J::I(r.range(1, 63) as i64)); ops.push(match r.below(8) {
                0 => o("w_int", vec![d(), tag, ("t", st("u64")), ("u", n64(r.u64b()))]),
                1 => o("w_struct", vec![d(), tag]), 2 => o("w_eos", vec![d()]), 3 => o("w_pad", vec![d()]),
                4 => o("w_align", vec![d(), ("a", J::I(r.below(4) as i64))]),
                5 => { let n = r.below(6); o("w_data", vec![d(), tag, ("d", byts(&r.bytes(n)))]) }
                _ => o("commit", vec![d()]),
            }); }
        }
        if !faithful && r.chance(1, 20) { ops.push(match r.below(3) { 0 => o("commit", vec![s()]), 1 => o("clear_eof", vec![s()]), _ => o("skip_up", vec![s(), ("d", J::I(r.below(3) as i64))]) }); }
    }
    ops.push(o("commit", vec![d()]));
    ops.push(o("seek", vec![d(), ("w", st("start")), ("u", n64(0))]));
    for _ in 0..30 { ops.push(o("ne", vec![d()])); if r.chance(1, 6) { ops.push(o("clear_eof", vec![d()])); } }
    let list = |v: Vec<usize>| J::A(v.iter().map(|x| J::I(*x as i64)).collect());
    let mut caps = || { if special { let n = r.range(1, 6); list((0..n).map(|_| *r.pick(&[0, 1, 1, 2, 3, 5, 8, 100])).collect()) } else { list(vec![]) } };
    let (a, b) = (caps(), caps());
    let mut q = vec![("id", st(&format!("{}:{}:{}", profile, seed, id))), ("be", st(be)), ("dst", st(dst)), ("init", byts(&init)), ("dinit", J::A(vec![])), ("caps", a), ("dcaps", b), ("ops", J::A(ops))];
    if profile == "copyfault" {
        let at = |r: &mut Rng| match r.below(3) { 0 => r.below(6), 1 => r.below(20), _ => r.below(80) } as i64;
        if r.chance(1, 2) { q.push(("fail", J::I(at(r)))); } else { q.push(("dfail", J::I(at(r)))); }
    }
    obj(q)
}
