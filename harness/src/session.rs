//! Runs a session - a sequence of operations chosen by a driver - over a real
//! `Stream` and records every operation with its result and what can be
//! observed afterwards.  Nothing is judged here.
use crate::backend::*;
use crate::json::*;
use fourleaf::stream::{Blob, Element, Error, Field, Stream, Value};
use std::io::{self, BufRead, Read, Seek, SeekFrom, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum H { None, Blob, Int, Sub }

/// What a driver may base its choices on.
pub struct View {
    pub h: H,
    pub field: bool,
    pub fpos: u64,
    pub nest: usize,
    pub pos: u64,
    pub dep: u64,
    pub len: u64,
    pub rem: u64,
    pub at: (u64, u64),
    pub writable: bool,
    pub seekable: bool,
    pub slice: bool,
    pub smut: bool,
    pub ext: bool,
    /// the last operation: its result class
    pub last: &'static str,
    /// a blob may be uncommitted
    pub dirty: bool,
    /// the last element: "eod" etc.
    pub ended: bool,
}

pub trait Driver { fn next(&mut self, v: &View) -> Option<J>; }

pub struct Replay { pub ops: Vec<J>, pub i: usize }
impl Driver for Replay {
    fn next(&mut self, _: &View) -> Option<J> { let r = self.ops.get(self.i).cloned(); self.i += 1; r }
}

pub struct Log { pub ops: Vec<J>, pub cur: Option<J>, pub dead: bool, pub dirty: bool, pub ended: bool,
    pub field: bool, pub fpos: u64, pub nest: usize, pub last: &'static str, pub refused: usize, pub keep_going: bool, pub alloc0: u64, pub track_alloc: bool }
impl Log {
    pub fn new() -> Log { Log { ops: vec![], cur: None, dead: false, dirty: false, ended: false, field: false, fpos: 0, nest: 0, last: "", refused: 0, keep_going: false, alloc0: 0, track_alloc: false } }
    pub fn begin(&mut self, op: &J) {
        crate::watch::at(op);
        self.alloc0 = crate::alloc::mark();
        self.cur = Some(op.clone());
    }
    pub fn end(&mut self, r: J, ob: J) {
        let ev = events();
        let al = crate::alloc::peak_since(self.alloc0);
        let mut op = match self.cur.take() { Some(o) => o, None => return };
        self.last = if r.s("k") == "err" { "err" } else { "ok" };
        op.set("r", r); op.set("ob", ob);
        if self.track_alloc { op.set("al", J::I((al >> 10).min(1 << 30) as i64)); }
        if ev.0 > 0 { op.set("flt", st("hard")); self.dead = true;
            // (how far it got is not an input any more)
            if let J::O(v) = &mut op { v.retain(|x| x.0 != "n"); } }
        else if ev.1 > 0 { op.set("flt", st("seek")); if self.last == "err" { self.dead = true; } }
        if ev.2 > 0 { op.set("intr", J::B(true)); }
        self.ops.push(op);
    }
    fn hint(&mut self, n: u64) { if let Some(o) = &mut self.cur { o.set("n", J::I(n as i64)); } }
}

pub fn k(s: &str) -> J { obj(vec![("k", st(s))]) }
fn err(c: &str) -> J { obj(vec![("k", st("err")), ("c", st(c))]) }
pub fn ioc(e: &io::Error) -> &'static str {
    use std::io::ErrorKind::*;
    match e.kind() { UnexpectedEof => "eof", WriteZero => "wz", InvalidInput => "inval", Interrupted => "intr", _ => "io" }
}
/// Error class of a stream error; `Error::_` variants have no payload here
/// unless the specification names it.
pub fn serr(e: &Error) -> J {
    match *e {
        Error::Io(ref e) => err(ioc(e)),
        Error::IntegerOverflow => err("ovf"),
        Error::OverwideInteger => err("wide"),
        Error::Exception(ref m) => obj(vec![("k", st("err")), ("c", st("exc")), ("d", byts(m.as_bytes()))]),
        Error::TruncatedBlob(_) => err("trunc"),
        Error::OverlongBlob => err("long"),
        Error::IncompleteBlob(n) => obj(vec![("k", st("err")), ("c", st("incomplete")), ("n", n64(n))]),
        Error::PositionBeforeStartOfDynamicBlob => err("posbefore"),
        Error::OverlongDynamicBlob => err("longdyn"),
        Error::LargeBlob(max, n) => obj(vec![("k", st("err")), ("c", st("large")), ("max", n64(max as u64)), ("n", n64(n))]),
        Error::UnexpectedType(a, b) => obj(vec![("k", st("err")), ("c", st("type")), ("want", st(a)), ("got", st(b))]),
        Error::IntegerOutOfRange(_) => err("range"),
        _ => err("other"),
    }
}
pub fn rd(d: &[u8]) -> J { obj(vec![("k", st("d")), ("d", byts(d))]) }
pub fn rn(n: u64) -> J { obj(vec![("k", st("n")), ("n", n64(n))]) }

pub fn obs<B: Be>(s: &Stream<B>) -> J {
    obj(vec![("k", st("s")), ("p", n64(s.pos())), ("d", J::I(s.struct_depth().min(1 << 30) as i64)), ("e", J::B(s.eof())), ("g", J::B(s.graceful_eof()))])
}
pub fn obb<B: Be>(b: &Blob<B>) -> J {
    obj(vec![("k", st("b")), ("p", n64(b.stream_pos())), ("len", n64(b.len())), ("rem", n64(b.remaining())), ("ip", n64(b.inner_pos())), ("st", n64(b.start_pos())), ("en", n64(b.end_pos()))])
}
pub fn obn() -> J { k("none") }

fn view<B: Be>(at: (u64, u64), h: H, log: &Log) -> View {
    View { h, pos: 0, dep: 0, len: 0, rem: 0, at, writable: B::WRITABLE, seekable: B::SEEKABLE, slice: B::SLICE, smut: B::MUT, ext: B::EXT, last: log.last, field: log.field, fpos: log.fpos, nest: log.nest, dirty: log.dirty, ended: log.ended }
}

fn is_blob_op(o: &str) -> bool { o.starts_with("b_") }
fn is_write(o: &str) -> bool { o == "t_ser" || o.starts_with("w_") || o == "x_write" || o == "b_xwrite" || o == "b_write" || o == "b_wall" || o == "b_slicemut" }
/// Would a write here make the in-memory buffer explode?
fn far(at: (u64, u64)) -> bool { at.0 > at.1 + 4096 }

fn raw_read<B: Be>(b: &mut B, n: usize) -> std::io::Result<Vec<u8>> {
    let mut v = vec![];
    b.take(n as u64).read_to_end(&mut v)?;
    Ok(v)
}
pub fn seek_arg(op: &J) -> SeekFrom {
    match op.s("w") { "start" => SeekFrom::Start(op.u("u")), "end" => SeekFrom::End(op.i64v("i")), _ => SeekFrom::Current(op.i64v("i")) }
}

/// Runs blob operations on `b` until the driver names something else, which
/// is returned.
pub fn blob<B: Be>(b: &mut Blob<B>, drv: &mut dyn Driver, log: &mut Log) -> Option<J> {
    loop {
        if log.dead { return None; }
        let mut v = view::<B>(b.stream_get_ref().at(), H::Blob, log);
        v.pos = b.stream_pos(); v.len = b.len(); v.rem = b.remaining();
        let op = drv.next(&v)?;
        let o = op.s("o").to_owned();
        if !is_blob_op(&o) { return Some(op); }
        if is_write(&o) && far(v.at) { return None; }
        log.begin(&op);
        let p0 = b.stream_pos();
        let mut fatal = false;
        let r = match &o[..] {
            "b_read" => { let mut buf = vec![0u8; op.i("k") as usize];
                match b.read(&mut buf) { Ok(n) => { log.hint(n as u64); rd(&buf[..n]) }, Err(e) => err(ioc(&e)) } }
            "b_exact" => { let mut buf = vec![0u8; op.i("k") as usize];
                match b.read_exact(&mut buf) { Ok(()) => rd(&buf), Err(e) => { log.hint(b.stream_pos().wrapping_sub(p0).min(1 << 30)); err(ioc(&e)) } } }
            "b_fully" => match b.read_fully(op.u("max") as usize) { Ok(d) => rd(&d), Err(e) => { if !matches!(e, Error::LargeBlob(..)) { fatal = true; } serr(&e) } },
            "b_trunc" => match b.read_or_trunc(op.u("max") as usize) { Ok(d) => rd(&d), Err(e) => { fatal = true; serr(&e) } },
            "b_slice" => match B::slice(b) { Ok(d) => rd(&d), Err(e) => serr(&e) },
            "b_slicemut" => match B::slice_mut(b) { Ok(d) => rd(&d), Err(e) => serr(&e) },
            "b_ext" => { let (base, len) = b.stream_get_ref().base();
                match B::ext(b) {
                    // where in the caller's buffer the borrowed bytes are
                    Ok((a, d)) => { let o = if d.is_empty() { 0 } else if a >= base && a + d.len() <= base + len { (a - base) as i64 } else { -1 };
                        obj(vec![("k", st("d")), ("d", byts(&d)), ("o", J::I(o))]) }
                    Err(e) => serr(&e) } }
            "b_fill" => { let r = b.fill_buf().map(|d| d.to_vec());
                match r { Ok(d) => { b.consume(d.len().min(op.i("k") as usize)); log.hint(d.len() as u64); rd(&d) }, Err(e) => err(ioc(&e)) } }
            "b_seek" => match b.seek(seek_arg(&op)) { Ok(n) => rn(n), Err(e) => err(ioc(&e)) },
            "b_write" => match b.write(&op.bytes("d")) { Ok(n) => { log.hint(n as u64); rn(n as u64) }, Err(e) => err(ioc(&e)) },
            "b_wall" => match b.write_all(&op.bytes("d")) { Ok(()) => k("ok"), Err(e) => { log.hint(b.stream_pos().wrapping_sub(p0).min(1 << 30)); err(ioc(&e)) } },
            "b_flush" => match b.flush() { Ok(()) => k("ok"), Err(e) => err(ioc(&e)) },
            "b_look" => k("ok"),
            // the underlying stream used directly, the position then put right
            "b_xread" => { let n = (op.i("k") as u64).min(b.remaining()) as usize;
                match raw_read(b.stream_get_mut(), n) { Ok(d) => { let p = b.stream_pos() + d.len() as u64; b.stream_set_pos(p); rd(&d) } Err(e) => { fatal = true; err(ioc(&e)) } } }
            "b_xwrite" => { let d = op.bytes("d"); let n = (d.len() as u64).min(b.remaining()) as usize;
                match if n == 0 { Ok(()) } else { b.stream_get_mut().write_all(&d[..n]) } { Ok(()) => { let p = b.stream_pos() + n as u64; b.stream_set_pos(p); rn(n as u64) } Err(e) => { fatal = true; err(ioc(&e)) } } }
            _ => panic!("harness: op {}", o),
        };
        let ob = obb(b);
        log.end(r, ob);
        if fatal && !log.keep_going { log.dead = true; }
    }
}

pub fn relem<B: Be>(f: &Field<B>) -> J {
    let (t, n) = match f.value { Value::Integer(n) => ("i", n), Value::Blob(ref b) => ("b", b.len()), Value::Struct(_) => ("s", 0), Value::Enum(d, _) => ("e", d) };
    obj(vec![("k", st("f")), ("tag", J::I(f.tag as i64)), ("pos", n64(f.pos)), ("dep", J::I(f.depth.min(1 << 30) as i64)), ("t", st(t)), ("n", n64(n))])
}


pub enum Ret { End, Op(J), Skipped(Result<(), Error>), Left(bool, Result<(), Error>), Typed(J) }

/// The value as something.
fn convert<B: Be>(v: &mut Value<B>, t: &str) -> Result<J, Error> {
    let n = |x: u64| obj(vec![("k", st("as")), ("v", n64(x))]);
    let i = |x: i64| obj(vec![("k", st("as")), ("v", i64j(x))]);
    match t {
        "u8" => v.to_u8().map(|x| n(x as u64)), "u16" => v.to_u16().map(|x| n(x as u64)), "u32" => v.to_u32().map(|x| n(x as u64)),
        "u64" => v.to_u64().map(n), "usize" => v.to_usize().map(|x| n(x as u64)),
        "i8" => v.to_i8().map(|x| i(x as i64)), "i16" => v.to_i16().map(|x| i(x as i64)), "i32" => v.to_i32().map(|x| i(x as i64)),
        "i64" => v.to_i64().map(i), "isize" => v.to_isize().map(|x| i(x as i64)),
        "bool" => v.to_bool().map(|x| n(x as u64)), "null" => v.to_null().map(|_| n(0)),
        "blob" => v.to_blob().map(|_| k("ok")), "struct" => v.to_struct().map(|_| k("ok")),
        _ => v.to_enum().map(|x| n(x.0)),
    }
}

/// A field whose handle is held.
fn field<B: Be>(mut f: Field<B>, at: (u64, u64), drv: &mut dyn Driver, log: &mut Log) -> Ret {
    let r = relem(&f);
    let (h, ob) = match f.value {
        Value::Blob(ref b) => { log.dirty = true; (H::Blob, obb(b)) }
        Value::Integer(_) => { log.dirty = false; (H::Int, obn()) }
        Value::Struct(ref s) | Value::Enum(_, ref s) => { log.dirty = false; (H::Sub, obs(s)) }
    };
    log.ended = false;
    log.fpos = f.pos;
    log.end(r, ob);
    loop {
        log.field = true;
        let op = match f.value {
            Value::Blob(ref mut b) => blob(b, drv, log),
            _ => {
                if log.dead { return Ret::End; }
                let mut v = view::<B>(at, h, log);
                if let Value::Struct(ref s) | Value::Enum(_, ref s) = f.value { v.pos = s.pos(); v.dep = s.struct_depth(); v.at = s.get_ref().at(); }
                drv.next(&v)
            }
        };
        log.field = false;
        let op = match op { None => return Ret::End, Some(op) => op };
        match op.s("o") {
            "skip" => { log.begin(&op); return Ret::Skipped(f.skip()); }
            "as" => {
                log.begin(&op);
                let r = convert(&mut f.value, op.s("t"));
                let ob = match f.value { Value::Blob(ref b) => obb(b), Value::Integer(_) => obn(), Value::Struct(ref s) | Value::Enum(_, ref s) => obs(s) };
                log.end(match r { Ok(j) => j, Err(e) => serr(&e) }, ob);
                log.last = "ok";
            }
            "t_elem" => {
                let d = log.dirty;
                log.begin(&op);
                let r = match B::typed_field(&mut f, &op) { Some(r) => r, None => return Ret::End };
                drop(f);
                log.dirty = d;
                return Ret::Typed(r);
            }
            "enter" => {
                let r = match f.value {
                    Value::Struct(ref mut s) | Value::Enum(_, ref mut s) => {
                        log.begin(&op); let ob = obs(s); log.end(k("ok"), ob);
                        log.nest += 1;
                        let r = run(s, drv, log);
                        log.nest -= 1;
                        r
                    }
                    _ => return Ret::Op(op),
                };
                match r { None => return Ret::End, Some(op) => { log.begin(&op); let sk = op.b("skip"); return Ret::Left(sk, if sk { f.skip() } else { Ok(()) }); } }
            }
            _ => return Ret::Op(op),
        }
    }
}

pub fn int_write<B: Be>(s: &mut Stream<B>, tag: u8, op: &J) -> Result<(), Error> {
    let ty = op.s("t");
    if op.has("u") {
        let u = op.u("u");
        match ty {
            "null" => s.write_null(tag), "bool" => s.write_bool(tag, u != 0),
            "u8" => s.write_u8(tag, u as u8), "u16" => s.write_u16(tag, u as u16), "u32" => s.write_u32(tag, u as u32),
            "usize" => s.write_usize(tag, u as usize), _ => s.write_u64(tag, u),
        }
    } else {
        let i = op.i64v("i");
        match ty {
            "i8" => s.write_i8(tag, i as i8), "i16" => s.write_i16(tag, i as i16), "i32" => s.write_i32(tag, i as i32),
            "isize" => s.write_isize(tag, i as isize), _ => s.write_i64(tag, i),
        }
    }
}

/// Returns the operation which ends the use of a nested stream, if any.
pub fn run<B: Be>(s: &mut Stream<B>, drv: &mut dyn Driver, log: &mut Log) -> Option<J> {
    events();
    let mut pending: Option<J> = None;
    loop {
        if log.dead { return None; }
        let op = match pending.take() {
            Some(o) => o,
            None => {
                let mut v = view::<B>(s.get_ref().at(), H::None, log);
                v.pos = s.pos(); v.dep = s.struct_depth();
                match drv.next(&v) { Some(o) => o, None => return None }
            }
        };
        let o = op.s("o").to_owned();
        // not applicable here
        if o == "leave" && log.nest > 0 { return Some(op); }
        if is_blob_op(&o) || o == "skip" || o == "as" || o == "t_elem" || o == "enter" || o == "leave" { return None; }
        let at = s.get_ref().at();
        if is_write(&o) && far(at) { return None; }
        log.begin(&op);
        let tag = if op.has("tag") { op.i("tag") as u8 } else { 0 };
        // a blob to be written, or not
        macro_rules! wblob { ($e:expr) => { match $e {
            Ok(mut b) => {
                log.dirty = true;
                let ob = obb(&b);
                log.end(k("ok"), ob);
                match blob(&mut b, drv, log) { Some(o) => { pending = Some(o); continue } None => return None }
            }
            Err(e) => Err(e),
        } } }
        macro_rules! held { ($f:expr) => { match field($f, at, drv, log) {
            Ret::End => return None,
            Ret::Op(o) => { pending = Some(o); continue }
            Ret::Typed(r) => { typed(s, log, r); continue }
            Ret::Left(sk, r) => { let keep = log.dirty; let r = r.map(|_| k("ok")); let e = r.is_err(); fin(s, log, r); if !sk && !e { log.dirty = keep; } continue }
            Ret::Skipped(r) => { let keep = log.dirty; let r = r.map(|_| k("ok")); let e = r.is_err(); fin(s, log, r); if !e { log.dirty = keep; } continue }
        } } }
        let unit = |r: Result<(), Error>| r.map(|_| k("ok"));
        let r: Result<J, Error> = match &o[..] {
            "nf" => match s.next_field() {
                Ok(Some(f)) => held!(f),
                Ok(None) => { log.ended = true; Ok(k("none")) }
                Err(e) => Err(e),
            },
            "ne" => match s.next_element() {
                Ok(Element::Field(f)) => held!(f),
                Ok(Element::EndOfStruct) => Ok(k("eos")),
                Ok(Element::EndOfDoc) => { log.ended = true; Ok(k("eod")) }
                Ok(Element::Padding) => Ok(k("p")),
                Ok(Element::Exception(mut b)) => {
                    log.dirty = true;
                    let r = obj(vec![("k", st("x")), ("n", n64(b.len()))]);
                    let ob = obb(&b);
                    log.end(r, ob);
                    match blob(&mut b, drv, log) { Some(o) => { pending = Some(o); continue } None => return None }
                }
                Err(e) => Err(e),
            },
            "skip_up" => unit(s.skip_up(op.i("d") as u64)),
            "look" => { let d = log.dirty; fin(s, log, Ok(k("ok"))); log.dirty = d; continue }
            "commit" => unit(s.commit()),
            "x_read" => s.commit().and_then(|_| {
                let n = (op.i("k") as u64).min(u64::MAX - s.pos()) as usize;
                let d = raw_read(s.get_mut(), n)?;
                let p = s.pos() + d.len() as u64; s.set_pos(p); Ok(rd(&d))
            }),
            "t_de" | "t_rec" | "t_ser" => {
                let mut r = match B::typed(s, &op) { Some(r) => r, None => return None };
                if o == "t_rec" && r.s("k") == "err" && r.s("c") != "stream" {
                    // to the end of what could not be made sense of
                    match s.skip_up(op.i("d") as u64) {
                        Ok(()) => { log.dirty = false; let ob = obs(s); r.set("rec", J::B(true)); log.end(r, ob); continue }
                        Err(e) => r.set("r2", serr(&e)),
                    }
                }
                typed(s, log, r); continue
            }
            "x_back" => {
                let d = log.dirty;
                let n = (op.i("k") as u64).min(s.pos()) as i64;
                let r = s.get_mut().seek(SeekFrom::Current(-n)).map_err(Error::from).map(|_| k("ok"));
                let e = r.is_err();
                if !e { let p = s.pos() - n as u64; s.set_pos(p); }
                fin(s, log, r); if !e { log.dirty = d; } continue
            }
            "x_write" => s.commit().and_then(|_| {
                let d = op.bytes("d"); let n = (d.len() as u64).min(u64::MAX - s.pos());
                if n > 0 { s.get_mut().write_all(&d[..n as usize])?; }
                let p = s.pos() + n; s.set_pos(p); Ok(rn(n))
            }),
            "set_pos" => { s.set_pos(op.u("u")); Ok(k("ok")) }
            "reset_pos" => unit(s.reset_pos(op.u("u"))),
            "seek" => s.seek(seek_arg(&op)).map(rn),
            "clear_eof" => { let d = log.dirty; s.clear_eof(); fin(s, log, Ok(k("ok"))); log.dirty = d; log.ended = false; continue }
            "graceful" => { let d = log.dirty; s.set_graceful_eof(op.b("v")); fin(s, log, Ok(k("ok"))); log.dirty = d; continue }
            "set_depth" => { let d = log.dirty; s.set_struct_depth(op.i("d") as u64); fin(s, log, Ok(k("ok"))); log.dirty = d; continue }
            "w_int" => unit(int_write(s, tag, &op)),
            "w_struct" => unit(s.write_struct(tag)),
            "w_enum" => unit(s.write_enum(tag, op.u("u"))),
            "w_eos" => unit(s.write_end_struct()),
            "w_eod" => unit(s.write_end_doc()),
            "w_pad" => unit(s.write_padding()),
            "w_align" => unit(s.pad_to_align(1u64 << op.i("a"))),
            "w_data" => wblob!(s.write_blob_data(tag, op.bytes("d"))),
            "w_alloc" => wblob!(s.write_blob_alloc(tag, op.u("u"))),
            "w_dyn" => wblob!(s.write_blob_dynamic(tag)),
            "w_xdata" => wblob!(s.write_exception_data(op.bytes("d"))),
            "w_xalloc" => wblob!(s.write_exception_alloc(op.u("u"))),
            "w_xdyn" => wblob!(s.write_exception_dynamic()),
            x => panic!("harness: op {}", x),
        };
        fin(s, log, r);
    }
}

/// Record the end of a stream-level operation.
/// After an operation of the typed layer.
fn typed<B: Be>(s: &mut Stream<B>, log: &mut Log, r: J) {
    if r.s("k") == "err" { log.dead = true; log.end(r, obn()); }
    else { log.dirty = true; log.ended = s.eof(); let ob = obs(s); log.end(r, ob); }
}

fn fin<B: Be>(s: &mut Stream<B>, log: &mut Log, r: Result<J, Error>) {
    let r = match r {
        Ok(j) => {
            // (an operation which does no I/O commits nothing)
            let o = log.cur.as_ref().map(|c| c.s("o").to_owned()).unwrap_or_default();
            let idle = match &o[..] { "skip_up" | "set_pos" => true, "nf" | "ne" => log.ended, _ => false };
            if !idle { log.dirty = false; }
            j
        }
        Err(e) => {
            // (a refusal to leave a blob behind is repeated until it is put right)
            let refusal = match e { Error::IncompleteBlob(_) | Error::PositionBeforeStartOfDynamicBlob | Error::OverlongDynamicBlob => true, _ => false };
            if let Error::Exception(_) = e { log.dirty = true; } else if refusal && log.refused < 3 { log.dirty = true; log.refused += 1; } else if !log.keep_going { log.dead = true; }
            serr(&e)
        }
    };
    let ob = obs(s);
    log.end(r, ob);
}

/// Run a session to its end; a panic ends it too and is recorded.
pub fn session<B: Be>(mut s: Stream<B>, drv: &mut dyn Driver, mut log: Log) -> (Vec<J>, Vec<u8>) {
    let r = catch_unwind(AssertUnwindSafe(|| run(&mut s, drv, &mut log)));
    if let Err(p) = r {
        let msg = p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        if msg.starts_with("harness:") { panic!("{}", msg); }
        log.end(k("panic"), obn());
    }
    (log.ops, s.into_inner().buffer())
}
