//! Sessions with the typed layer: values are serialised, documents are
//! changed and deserialised as all kinds of types; everything that happens is
//! recorded, nothing is judged.
#[macro_use] extern crate fourleaf;
#[path = "../alloc.rs"] mod alloc;
#[path = "../arrays.rs"] mod arrays;
#[path = "../backend.rs"] #[allow(dead_code)] mod backend;
#[path = "../gen_stream.rs"] #[allow(dead_code)] mod gen_stream;
#[path = "../json.rs"] #[allow(dead_code)] mod json;
#[path = "../out.rs"] mod out;
#[path = "../rng.rs"] #[allow(dead_code)] mod rng;
#[path = "../schema_desc.rs"] mod schema_desc;
#[path = "../schema_gen.rs"] mod schema_gen;
#[path = "../schema_types.rs"] #[allow(dead_code)] mod schema_types;
#[path = "../session.rs"] #[allow(dead_code)] mod session;
#[path = "../typed.rs"] mod typed;
#[path = "../watch.rs"] #[allow(dead_code)] mod watch;

use backend::Mem;
use fourleaf::de::{self, Config};
use fourleaf::stream::Stream;
use json::*;
use out::Out;
use rng::Rng;
use schema_desc::*;
use schema_gen::Nd;
use schema_types::*;
use std::collections::{BTreeMap, HashMap};
use std::io::BufRead;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[global_allocator]
static A: alloc::Count = alloc::Count;

fn arg(k: &str) -> Option<String> {
    let a: Vec<String> = std::env::args().collect();
    a.iter().position(|x| x == k).and_then(|i| a.get(i + 1).cloned())
}
fn argn(k: &str, d: u64) -> u64 { arg(k).map(|x| x.parse().unwrap()).unwrap_or(d) }

// ---------------------------------------------------------------- recording
#[derive(Clone, Debug)]
pub struct Cfg { rec: usize, strict: bool, mb: u64, mc: usize }
impl Cfg {
    fn dflt() -> Cfg { Cfg { rec: 32, strict: false, mb: 65536, mc: 256 } }
    fn wide(strict: bool) -> Cfg { Cfg { rec: 60, strict, mb: 1 << 24, mc: 100000 } }
    fn real(&self) -> Config {
        let mut c = Config::default();
        c.recursion_limit = self.rec; c.ignore_unknown_fields = !self.strict; c.max_blob = self.mb as usize; c.max_collect = self.mc;
        c
    }
    fn j(&self) -> J { obj(vec![("rec", J::I(self.rec as i64)), ("strict", J::B(self.strict)), ("mb", n64(self.mb)), ("mc", J::I(self.mc as i64))]) }
    fn from(j: &J) -> Cfg { Cfg { rec: j.i("rec") as usize, strict: j.b("strict"), mb: j.u("mb"), mc: j.i("mc") as usize } }
}
/// "{0}.name{pos}.name{pos}" taken apart
fn path(w: &str) -> J {
    let bad = || J::A(vec![J::A(vec![st(&format!("unreadable: {}", w)), n64(0)])]);
    let Some(rest) = w.strip_prefix("{0}") else { return bad() };
    let mut v = vec![];
    for p in rest.split('.').skip(1) {
        let Some((n, p)) = p.split_once('{') else { return bad() };
        let Some(Ok(p)) = p.strip_suffix('}').map(|p| p.parse::<u64>()) else { return bad() };
        v.push(J::A(vec![st(n), n64(p)]));
    }
    J::A(v)
}
fn derr(e: &de::Error) -> J {
    let mk = |c: &str, w: &str, x: Vec<(&str, J)>| { let mut v = vec![("k", st("err")), ("c", st(c)), ("path", path(w))]; v.extend(x); obj(v) };
    match *e {
        de::Error::Stream(ref w, ref e) => match session::serr(e) { J::O(v) => {
            let mut o = vec![("k".to_owned(), st("err")), ("c".to_owned(), st("stream")), ("path".to_owned(), path(w))];
            for (k, x) in v { match &k[..] { "k" => (), "c" => o.push(("se".into(), x)), _ => o.push((k, x)) } }
            J::O(o)
        }, _ => unreachable!() },
        de::Error::RecursionLimitExceeded(ref w) => mk("rec", w, vec![]),
        de::Error::UnknownField(ref w, t, p) => mk("unkf", w, vec![("tag", J::I(t as i64)), ("at", n64(p))]),
        de::Error::UnknownVariant(ref w, d) => mk("unkv", w, vec![("n", n64(d))]),
        de::Error::FieldOccursTooFewTimes(ref w, n) => mk("few", w, vec![("n", n64(n))]),
        de::Error::FieldOccursTooManyTimes(ref w, n) => mk("many", w, vec![("n", n64(n))]),
        de::Error::RequiredFieldMissing(ref w) => mk("req", w, vec![]),
        de::Error::InvalidValue(ref w, _) => mk("inv", w, vec![]),
        de::Error::InvalidValueMsg(ref w, _) => mk("msg", w, vec![]),
        de::Error::MaxCollectExceeded(ref w) => mk("maxc", w, vec![]),
        de::Error::MaxBlobExceeded(ref w) => mk("maxb", w, vec![]),
        _ => mk("other", "{0}", vec![]),
    }
}

struct World { roots: Vec<Root>, reg: Reg, by_ty: HashMap<i64, usize>, weight: Vec<usize> }
impl World {
    fn new() -> World {
        let roots = roots();
        let mut reg = Reg::default();
        let mut by_ty = HashMap::new();
        let mut weight = vec![];
        for (i, r) in roots.iter().enumerate() {
            let t = (r.reg)(&mut reg).int();
            by_ty.entry(t).or_insert(i);
            // (many arrays and tuples only differ in length)
            if matches!(r.name, "[u8; 4096]" | "[u8; 65536]") { continue; }
            if r.name.starts_with("[u") || r.name.starts_with("(u8, u8, u8") { weight.push(i); } else { for _ in 0..5 { weight.push(i); } }
        }
        World { roots, reg, by_ty, weight }
    }
    fn ty(&self, i: usize) -> i64 { self.reg.recs.len() as i64; *self.by_ty.iter().find(|x| *x.1 == i).map(|x| x.0).unwrap_or(&0) }
    fn named(&self, n: &str) -> usize { self.roots.iter().position(|r| r.name == n).unwrap_or_else(|| panic!("harness: no type {}", n)) }
    fn any(&self, r: &mut Rng) -> usize { *r.pick(&self.weight) }
    fn some(&self, r: &mut Rng, names: &[&str]) -> usize { let n = *r.pick(names); self.named(n) }
}

enum Per { None, Sl(Str), Mem(Stream<Mem>) }
struct Sess<'a> {
    w: &'a World, ops: Vec<J>, doc: &'static [u8], per: Per, gr: bool, caps: Vec<usize>, fail: Option<usize>, seek: bool,
    last: Option<(usize, Val, Base)>, dead: bool,
}
impl<'a> Sess<'a> {
    fn new(w: &'a World) -> Self { Sess { w, ops: vec![], doc: &[], per: Per::None, gr: false, caps: vec![], fail: None, seek: false, last: None, dead: false } }
    fn open(&mut self, d: &[u8], gr: bool) {
        self.doc = Box::leak(d.to_vec().into_boxed_slice());
        self.per = Per::None; self.gr = gr;
        let o = obj(vec![("o", st("open")), ("d", byts(d)), ("gr", J::B(gr))]);
        watch::at(&o);
        self.ops.push(o);
    }
    fn ser_val(&mut self, t: usize, v: &Val, b: &Base, how: &str, op: &str, app: bool) {
        let root = &self.w.roots[t];
        let mut o = vec![("o", st(op)), ("t", J::I(self.w.ty(t))), ("en", st(how)), ("app", J::B(app))];
        if op == "ser" { o.push(("v", (root.val)(v, b))); }
        watch::at(&obj(o.clone()));
        let mut out = if app { self.doc.to_vec() } else { vec![] };
        let before = out.len();
        let r = catch_unwind(AssertUnwindSafe(|| (root.ser)(v, how, &mut out)));
        match r {
            Ok(Ok(())) => { o.push(("r", st("ok"))); o.push(("d", byts(out.get(before..).unwrap_or(&[])))); }
            Ok(Err(e)) => { o.push(("r", session::serr(&e).get("c").cloned().unwrap())); o.push(("d", J::A(vec![]))); self.dead = true; }
            Err(_) => { o.push(("r", st("panic"))); o.push(("d", J::A(vec![]))); self.dead = true; }
        }
        self.ops.push(obj(o));
        self.doc = Box::leak(out.into_boxed_slice());
        self.per = Per::None; self.gr = false;
    }
    fn ser(&mut self, t: usize, v: &Val, how: &str, app: bool) { self.ser_val(t, v, &Base::none(), how, "ser", app); }
    fn reser(&mut self, how: &str) {
        if let Some((t, v, b)) = self.last.take() { self.ser_val(t, &v, &b, how, "reser", false); self.last = Some((t, v, b)); }
    }
    /// deserialise the document (or what comes next of it) as type t
    fn run(&mut self, t: usize, en: &str, c: &Cfg) -> Option<(std::thread::Result<de::Result<Val>>, Option<u64>, u64)> {
        let root = self.w.roots[t];
        let cfg = c.real();
        let doc = self.doc;
        let m = || Mem::new(doc.to_vec(), self.caps.clone(), self.fail, false);
        match en {
            "stc" | "stb" => if !matches!(self.per, Per::Sl(_)) { let mut s = Stream::new_seek(backend::Bor(fourleaf::io::TransparentCursor(std::io::Cursor::new(doc)))); s.set_graceful_eof(self.gr); self.per = Per::Sl(s); },
            "smc" => if !matches!(self.per, Per::Mem(_)) { let mut s = if self.seek { Stream::new_seek(m()) } else { Stream::new(m()) }; s.set_graceful_eof(self.gr); self.per = Per::Mem(s); },
            _ => (),
        }
        let mut mem = if en == "rd" { Some(m()) } else { None };
        backend::events();
        let level = alloc::mark();
        let per = &mut self.per;
        let r = match en {
            "slc" => { let f = root.slc?; catch_unwind(AssertUnwindSafe(|| f(doc, &cfg))) }
            "slb" => { let f = root.slb?; catch_unwind(AssertUnwindSafe(|| f(doc, &cfg))) }
            "rd" => { let f = root.rdc?; catch_unwind(AssertUnwindSafe(|| f(mem.as_mut().unwrap(), &cfg))) }
            "stc" => { let f = root.stc?; let Per::Sl(s) = per else { unreachable!() }; catch_unwind(AssertUnwindSafe(|| f(s, &cfg))) }
            "stb" => { let f = root.stb?; let Per::Sl(s) = per else { unreachable!() }; catch_unwind(AssertUnwindSafe(|| f(s, &cfg))) }
            "smc" => { let f = root.smc?; let Per::Mem(s) = per else { unreachable!() }; catch_unwind(AssertUnwindSafe(|| f(s, &cfg))) }
            _ => panic!("harness: entry {}", en),
        };
        let al = alloc::peak_since(level);
        let pos = match (&self.per, en) { (Per::Sl(s), "stc" | "stb") => Some(s.pos()), (Per::Mem(s), "smc") => Some(s.pos()), (_, "rd") => mem.map(|m| m.p), _ => None };
        Some((r, pos, al))
    }
    fn de(&mut self, t: usize, en: &str, c: &Cfg) -> bool {
        if self.dead { return false; }
        let mut o = vec![("o", st("de")), ("t", J::I(self.w.ty(t))), ("en", st(en)), ("zc", J::B(en == "slb" || en == "stb")), ("cfg", c.j())];
        watch::at(&obj(o.clone()));
        let Some((r, pos, al)) = self.run(t, en, c) else { return false };
        let ev = backend::events();
        if ev.0 > 0 { o.push(("flt", J::B(true))); }
        o.push(("al", J::I((al >> 10) as i64)));
        let one = matches!(en, "slc" | "slb" | "rd");
        let mut ok = false;
        match r {
            Err(_) => { o.push(("r", obj(vec![("k", st("panic"))]))); self.dead = true; }
            Ok(Err(e)) => { o.push(("r", derr(&e))); if !one { self.dead = true; } }
            Ok(Ok(v)) => {
                let b = if en == "slc" || en == "stc" || en == "slb" || en == "stb" { Base { at: self.doc.as_ptr() as usize, len: self.doc.len() } } else { Base::none() };
                o.push(("r", obj(vec![("k", st("v")), ("v", (self.w.roots[t].val)(&v, &b))])));
                if let Some(p) = pos { o.push(("p", n64(p))); }
                self.last = Some((t, v, b));
                ok = true;
            }
        }
        self.ops.push(obj(o));
        ok
    }
    /// the smallest n (up to hi) for which f(n) is accepted
    fn least(&mut self, t: usize, en: &str, hi: u64, f: &dyn Fn(u64) -> Cfg) -> Option<u64> {
        let mut good = |n: u64| matches!(self.run(t, en, &f(n)), Some((Ok(Ok(_)), _, _)));
        if !good(hi) { return None; }
        let (mut lo, mut hi) = (0, hi);
        while lo < hi { let m = (lo + hi) / 2; if good(m) { hi = m; } else { lo = m + 1; } }
        Some(lo)
    }
    fn record(self, out: &mut Out, id: &str) {
        let n = self.ops.len();
        if n == 0 { return; }
        let mut v = vec![("id", st(id)), ("ops", J::A(self.ops))];
        if !self.caps.is_empty() { v.push(("caps", J::A(self.caps.iter().map(|x| J::I(*x as i64)).collect()))); }
        if let Some(f) = self.fail { v.push(("fail", J::I(f as i64))); }
        v.push(("seek", J::B(self.seek)));
        out.put(&obj(v), n);
    }
}

// ---------------------------------------------------------------- generation
const PV: &[&str] = &["P1", "P2", "P3", "P4", "P5", "P6", "P7", "P8", "P9", "P10"];
const EV: &[&str] = &["E1", "E2", "E3", "UnkVar", "Simple", "CatchAll", "CatchDel", "UnkVarZ", "DelVar"];
const HV: &[&str] = &["H1", "H2", "H3"];
const MV: &[&str] = &["u8", "u16", "i16", "u64", "i64", "i8", "u32", "i32", "usize", "isize", "bool", "char", "Option<u32>", "Vec<u32>", "Vec<String>", "String", "Vec<u8>", "Bin", "BTreeSet<String>", "[u16; 1]", "[u16; 2]",
    "LinkedList<i16>", "HashSet<u8>", "VecDeque<u64>", "BinaryHeap<i32>", "Option<Vec<u8>>", "Vec<Vec<u8>>", "[String; 2]", "Option<Option<u8>>", "Vec<Option<u8>>", "Box<u32>", "DelScalar", "DelVec", "UnkAll"];
const TV: &[&str] = &["(u8,)", "(u8, String)", "(i8, Vec<u8>, Vec<u16>)", "(u8, u8, u8, u8)", "(u8, (u8, u8), Option<u8>, bool, char)", "(u8, i8, u16, i16, u32, i32)", "(u8, u8, u8, u8, u8, u8, u8)",
    "Pt", "Sparse", "P1", "UnkS", "UnkC", "Empty", "Opts", "Duration", "SocketAddrV4"];
const MAPV: &[&str] = &["BTreeMap<u8, BTreeMap<u8, u8>>", "Vec<BTreeMap<u8, u8>>", "HashMap<u16, String>", "BTreeMap<String, u64>", "BTreeMap<u8, Vec<u16>>", "HashMap<u32, (u8, String)>", "Vec<Tree>", "Tree", "List", "BTreeMap<u8, ()>", "Vec<(u8, Vec<u8>)>"];
const UNKW: &[&str] = &["P3", "P6", "H2", "H1", "Nest", "Colls", "Opts", "Bytes", "UsesEnum", "UnkNest", "ZcIn", "Sparse", "E2", "DelVar", "Simple", "Std", "Unk", "UnkAll", "Scal", "Wide", "(u8, String)", "Tree", "UsesDel"];
const UNKR: &[&str] = &["Unk", "UnkAll", "UnkS", "UnkC", "UnkNest", "UnkHole", "P9", "H3", "E3", "UnkVar", "UnkVarZ", "CatchDel", "(Unk, u8)", "Vec<UnkS>", "Vec<UnkVar>", "UsesEnum", "Holds"];
const ZCV: &[&str] = &["Zc", "ZcCow", "ZcIn", "ZcLeaf", "&'static str", "&'static [u8]", "Txt", "Bin", "Copied<Txt>", "Copied<Bin>", "Vec<&'static str>", "(&'static str, &'static [u8])", "DelCow", "UnkVarZ",
    "UnkS", "UnkAll", "Unk", "UnkC", "Holds", "UnkNest", "String", "Vec<u8>", "Bytes", "UnkVar", "E3"];

fn cfg(r: &mut Rng) -> Cfg {
    match r.below(6) {
        0 | 1 => Cfg { strict: false, ..Cfg::dflt() },
        2 => Cfg { strict: true, ..Cfg::dflt() },
        3 => Cfg::wide(r.chance(1, 2)),
        _ => Cfg { rec: if r.chance(1, 2) { 32 } else { r.below(7) }, strict: r.chance(1, 4), mb: if r.chance(1, 2) { 65536 } else { r.below(40) as u64 }, mc: if r.chance(1, 2) { 256 } else { r.below(8) } },
    }
}
fn value(w: &World, r: &mut Rng, t: usize, fuel: usize) -> Val { (w.roots[t].arb)(&mut Gen { r, fuel }) }
/// a valid document of type t
fn bytes(w: &World, r: &mut Rng, t: usize, fuel: usize) -> Vec<u8> {
    let v = value(w, r, t, fuel);
    let mut o = vec![];
    let _ = catch_unwind(AssertUnwindSafe(|| (w.roots[t].ser)(&v, "vec", &mut o)));
    o
}
fn tree(d: &[u8]) -> Option<Vec<Nd>> { let mut i = 0; schema_gen::parse(d, &mut i, true) }
fn flat(r: &mut Rng, v: &[Nd], loose: bool, end: usize) -> Vec<u8> {
    let mut o = vec![];
    if loose { schema_gen::emit(&mut o, v, &mut Some(r)); } else { schema_gen::emit(&mut o, v, &mut None); }
    match end { 0 => o.push(64), 1 => (), _ => o.push(0) }
    o
}
/// a document for type t, more or less: (bytes, graceful)
fn document(w: &World, r: &mut Rng, t: usize, hostile: bool) -> (Vec<u8>, bool) {
    let src = match r.below(10) { 0 => w.any(r), _ => t };
    let fuel = r.range(2, 14);
    let mut d = bytes(w, r, src, fuel);
    if r.chance(1, 25) { let n = r.below(4); let v: Vec<Nd> = (0..n).map(|_| schema_gen::random(r, 3)).collect(); d = flat(r, &v, false, 2); }
    let how = r.below(12);
    if how > 0 {
        if let Some(mut v) = tree(&d) {
            let n = match how { 1..=7 => 1, 8 | 9 => 2, _ => r.range(2, 4) };
            for _ in 0..n { if r.chance(1, 8) { schema_gen::pad(&mut v, r) } else { schema_gen::change(&mut v, r) } }
            let loose = r.chance(1, 5);
            let end = r.below(14);
            d = flat(r, &v, loose, end);
        }
    }
    if r.chance(1, if hostile { 2 } else { 14 }) { gen_stream::mutate(&mut d, r); if hostile && r.chance(1, 2) { gen_stream::mutate(&mut d, r); } }
    if r.chance(1, 20) { let n = r.below(d.len() + 1); d.truncate(n); }
    if r.chance(1, 20) { d.extend_from_slice(&[0x41, 0, 0]); }
    (d, r.chance(1, 4))
}
const ENTRIES: &[&str] = &["slc", "slb", "rd", "stc", "stb", "smc"];
fn entry(w: &World, r: &mut Rng, t: usize) -> &'static str {
    let x = &w.roots[t];
    loop {
        let e = *r.pick(ENTRIES);
        if match e { "slc" => x.slc.is_some(), "slb" => x.slb.is_some(), "rd" => x.rdc.is_some(), "stc" => x.stc.is_some(), "stb" => x.stb.is_some(), _ => x.smc.is_some() } { return e; }
    }
}
fn caps(r: &mut Rng) -> Vec<usize> { match r.below(6) { 0 => vec![1], 1 => vec![2, 0], 2 => vec![1, 0, 3], 3 => vec![5, 1], 4 => vec![0, 7, 2], _ => vec![] } }

fn gen(w: &World, out: &mut Out, profile: &str, seed: u64, id: u64) {
    let mut r = Rng::new(seed, id ^ profile.bytes().fold(7u64, |a, b| a.wrapping_mul(1099511628211) ^ b as u64));
    let r = &mut r;
    let name = format!("{}:{}:{}", profile, seed, id);
    watch::session(name.clone());
    if profile == "mix" { return mixed(w, out, seed, id, &name); }
    let mut s = Sess::new(w);
    if profile == "arr" { let o = arrays::run(id as usize); s.ops.push(o); return s.record(out, &name); }
    match profile {
        // values one after another, through all the ways in and out
        "rt" => {
            s.caps = caps(r); s.seek = r.chance(1, 2);
            let n = r.range(1, 3);
            let ts: Vec<usize> = (0..n).map(|_| w.any(r)).collect();
            for (k, t) in ts.iter().enumerate() {
                let fuel = r.range(3, 24);
                let v = value(w, r, *t, fuel);
                let how = *r.pick(&["vec", "wr", "st"]);
                s.ser(*t, &v, how, k > 0);
            }
            let c = if r.chance(1, 2) { Cfg { strict: r.chance(1, 2), ..Cfg::dflt() } } else { Cfg::wide(r.chance(1, 2)) };
            if r.chance(1, 2) || n == 1 { for _ in 0..2 { let e = loop { let e = entry(w, r, ts[0]); if matches!(e, "slc" | "slb" | "rd") { break e; } }; s.de(ts[0], e, &c); } }
            let e = *r.pick(&["stc", "smc", "stb"]);
            for t in &ts {
                let x = &w.roots[*t];
                let e = match e { "smc" if x.smc.is_some() => "smc", "smc" => break, "stb" | "stc" if x.stb.is_none() => "stc", "stc" if x.stc.is_none() => "stb", e => e };
                if !s.de(*t, e, &c) { break; }
            }
        }
        // every type once or more, in every way
        "every" => {
            let t = id as usize % w.roots.len();
            let t = if w.weight.contains(&t) { t } else { w.any(r) };
            let fuel = r.range(2, 20);
            let v = value(w, r, t, fuel);
            s.caps = caps(r);
            s.ser(t, &v, "vec", false);
            for e in ["slc", "slb", "rd"] { s.de(t, e, &Cfg { strict: r.chance(1, 2), ..Cfg::wide(false) }); }
            s.reser("wr");
            for e in ["stc", "stb"] { if s.de(t, e, &Cfg::wide(true)) { break; } }
        }
        // documents near those of a type
        "doc" | "err" | "hostile" => {
            let t = if profile == "err" && r.chance(2, 3) { w.some(r, &["Nest", "Wide", "Std", "UsesEnum", "UsesDel", "H1", "H2", "H3", "UnkNest", "Tree", "List", "Vec<Tree>", "ZcIn", "Colls", "Arrs", "Tups", "Ptrs", "Boxes", "Checks", "Checks", "Holds"]) } else { w.any(r) };
            let (d, gr) = document(w, r, t, profile == "hostile");
            s.caps = caps(r); s.seek = r.chance(1, 2);
            s.open(&d, gr);
            let n = r.range(1, 3);
            for _ in 0..n { let c = cfg(r); let e = entry(w, r, t); s.de(t, e, &c); }
            if s.last.is_some() && !s.dead && profile == "hostile" { s.reser("vec"); }
        }
        // limits right at what is needed
        "limit" => {
            let t = if r.chance(1, 2) { w.some(r, &["Nest", "Wide", "Colls", "UnkNest", "UnkS", "UnkC", "Unk", "Tree", "List", "Vec<Tree>", "ZcIn", "ZcCow", "H2", "H3", "UsesEnum", "UsesDel", "Holds", "Bytes", "Arrs", "Tups", "Opts", "CatchDel", "UnkVar", "Std", "Zc", "Vec<Vec<u8>>", "DelDel", "Ptrs"]) } else { w.any(r) };
            let fuel = r.range(4, 26);
            let mut d = bytes(w, r, t, fuel);
            if r.chance(1, 2) { if let Some(mut v) = tree(&d) { for _ in 0..r.range(1, 2) { schema_gen::change(&mut v, r); } d = flat(r, &v, false, 2); } }
            s.open(&d, false);
            let strict = false;
            let e = { let x = &w.roots[t]; if x.slb.is_some() && (x.slc.is_none() || r.chance(1, 3)) { "slb" } else { "slc" } };
            let fs: [(Box<dyn Fn(u64) -> Cfg>, u64); 3] = [
                (Box::new(move |n| Cfg { rec: n as usize, ..Cfg::wide(strict) }), 60),
                (Box::new(move |n| Cfg { mb: n, ..Cfg::wide(strict) }), 1 << 16),
                (Box::new(move |n| Cfg { mc: n as usize, ..Cfg::wide(strict) }), 1 << 12),
            ];
            for (f, hi) in fs.iter() {
                match s.least(t, e, *hi, f) {
                    Some(n) => { s.de(t, e, &f(n)); if n > 0 { s.de(t, e, &f(n - 1)); if r.chance(1, 3) { let k = r.below(n as usize) as u64; s.de(t, e, &f(k)); } } }
                    None => { let k = r.below(8) as u64; s.de(t, e, &f(k)); }
                }
            }
            // all of them at once, twice over one stream: the budget is fresh
            let doc2 = [s.doc, s.doc].concat();
            if let (Some(a), Some(b), Some(c)) = (s.least(t, e, 60, &*fs[0].0), s.least(t, e, 1 << 16, &*fs[1].0), s.least(t, e, 1 << 12, &*fs[2].0)) {
                s.open(&doc2, false);
                let c = Cfg { rec: a as usize, strict: false, mb: b, mc: c as usize };
                let e = if e == "slb" { "stb" } else { "stc" };
                if s.de(t, e, &c) { s.de(t, e, &c); }
            }
        }
        // written as one type, read as another
        "compat" => {
            let g = *r.pick(&[PV, PV, EV, HV, MV, TV, TV, MAPV]);
            let a = w.some(r, g);
            let b = w.some(r, g);
            let fuel = r.range(2, 14);
            let v = value(w, r, a, fuel);
            s.ser(a, &v, "vec", false);
            // much which the reader does not know: it counts for nothing
            if r.chance(1, 12) && s.doc.last() == Some(&0) {
                let lo = if r.chance(3, 4) { 33 } else { 1 };
                let (mut d, tag) = (s.doc.to_vec(), r.range(lo, 63) as u8);
                let at = if r.chance(1, 4) { 0 } else { d.len() - 1 };
                let x: Vec<u8> = match r.below(9) {
                    0 | 1 => [0x40 | tag, r.below(128) as u8].repeat(r.range(250, 400) as usize),
                    2 | 3 => [0x80 | tag, 0].repeat(r.range(250, 400) as usize),
                    4 | 5 => [0xC0 | tag, 0].repeat(r.range(250, 400) as usize),
                    6 | 7 => { let n = r.range(20, 70) as usize; [vec![0xC0 | tag; n], vec![0; n]].concat() }
                    _ => if r.chance(1, 4) { [vec![0x80 | tag, 0xF0, 0xA2, 0x04], vec![7; 70000]].concat() } else { [0x00 | tag, r.below(128) as u8, 0x41, 1, 0].repeat(r.range(250, 400) as usize) },
                };
                d.splice(at..at, x);
                s.open(&d, false);
            }
            for _ in 0..2 { let e = entry(w, r, b); s.de(b, e, &Cfg { strict: r.chance(1, 3), ..Cfg::dflt() }); }
        }
        // read by a program that does not know all of it, and written back
        "unk" => {
            let a = if r.chance(3, 4) { w.some(r, UNKW) } else { w.any(r) };
            let b = w.some(r, UNKR);
            let fuel = r.range(2, 16);
            let v = value(w, r, a, fuel);
            s.ser(a, &v, "vec", false);
            if r.chance(1, 3) {
                if let Some(mut v) = tree(s.doc) { let k = r.range(1, 2); for _ in 0..k { schema_gen::change(&mut v, r); } let l = r.chance(1, 3); let d = flat(r, &v, l, 2); s.open(&d, false); }
            }
            let c = Cfg { strict: r.chance(1, 2), ..Cfg::wide(false) };
            let e = entry(w, r, b);
            if s.de(b, e, &c) {
                let how = *r.pick(&["vec", "wr"]);
                s.reser(how);
                if !s.dead { s.de(a, if w.roots[a].slc.is_some() { "slc" } else { "slb" }, &Cfg::wide(false)); }
            }
        }
        // borrowing
        "zc" => {
            let t = if r.chance(5, 6) { w.some(r, ZCV) } else { w.any(r) };
            let (d, gr) = if r.chance(1, 2) { let f = r.range(2, 16); (bytes(w, r, t, f), false) } else { document(w, r, t, false) };
            s.open(&d, gr);
            let mb = if r.chance(1, 2) { r.below(30) as u64 } else { 65536 };
            for e in ["slb", "slc", "stb"] { s.de(t, e, &Cfg { mb, ..Cfg::wide(false) }); }
        }
        // padding and exceptions between the elements of valid documents
        "pad" => {
            let t = w.any(r);
            let f = r.range(2, 14);
            let d = bytes(w, r, t, f);
            let Some(mut v) = tree(&d) else { return };
            for _ in 0..r.range(1, 5) { schema_gen::pad(&mut v, r); }
            if r.chance(1, 4) { let n = *r.pick(&[0, 1, 3, 255, 256, 257, 300]); let x = Nd::Exc(if r.chance(1, 2) { vec![b'x'; n] } else { r.bytes(n) }); let at = r.below(v.len() + 1); v.insert(at, x); }
            let d = flat(r, &v, false, 2);
            s.caps = caps(r); s.seek = r.chance(1, 2);
            s.open(&d, false);
            for _ in 0..2 { let e = entry(w, r, t); s.de(t, e, &Cfg { strict: r.chance(1, 2), ..Cfg::wide(false) }); }
        }
        // split, interrupted and failing transports
        "chaos" | "fault" => {
            let t = w.any(r);
            let (mut d, gr) = if r.chance(1, 2) { let f = r.range(2, 20); (bytes(w, r, t, f), false) } else { document(w, r, t, false) };
            let twice = r.chance(1, 2);
            if twice { let e = d.clone(); d.extend(e); }
            s.caps = loop { let c = caps(r); if !c.is_empty() { break c; } };
            s.seek = r.chance(1, 2);
            if profile == "fault" { let n = 2 * d.len() + 2; s.fail = Some(r.below(n)); }
            s.open(&d, gr);
            let c = if r.chance(2, 3) { Cfg::wide(false) } else { cfg(r) };
            if s.de(t, "smc", &c) && twice { s.de(t, "smc", &c); }
            s.dead = false;
            s.de(t, "rd", &c);
        }
        // sizes beyond the reach of the other profiles: the default limits and
        // the widths of their counters, long arrays, deep nesting
        "big" => {
            const LIM: &[usize] = &[255, 256, 257, 300, 1000];
            let near = |r: &mut Rng| { let x = *r.pick(LIM); if r.chance(1, 2) { x } else { r.range(250, 262) } };
            let mut o = vec![];
            let mut c = match r.below(3) { 0 => Cfg::dflt(), 1 => Cfg { strict: true, ..Cfg::dflt() }, _ => Cfg::wide(r.chance(1, 2)) };
            let blob = |o: &mut Vec<u8>, t: u8, n: usize, b: u8| { schema_gen::emit(o, &[Nd::B(t, vec![b; n])], &mut None) };
            let (t, again) = match r.below(9) {
                // collections around the collection limit
                0 => {
                    let n = near(r);
                    let k = *r.pick(&["Vec<u32>", "LinkedList<i16>", "HashSet<u8>", "BinaryHeap<i32>", "VecDeque<u64>", "Vec<bool>", "Vec<()>", "UnkAll", "Unk", "Vec<Option<u8>>"]);
                    for i in 0..n { match k { "Vec<()>" | "Vec<Option<u8>>" => o.extend([0xc1, 0]), "Vec<bool>" => o.extend([0x41, 1]), _ => o.extend([0x41, (i % 128) as u8]) } }
                    o.push(0);
                    if r.chance(1, 3) { c.mc = n - r.below(2); }
                    (k, true)
                }
                // maps, every entry of which holds a collection of its own
                1 => {
                    let n = near(r) / 2;
                    for i in 0..n { o.extend([0xc1, 0x41, (i % 128) as u8, 0x42, 5, 0]); }
                    if r.chance(1, 2) { o.extend([0xc1, 0x41, 1, 0x42, 5, 0x42, 6, 0]); }
                    o.push(0);
                    (*r.pick(&["BTreeMap<u8, Vec<u16>>", "Unk"]), true)
                }
                // blobs around the blob limit
                2 => {
                    let n = *r.pick(&[65535, 65536, 65537, 40000, 70000]);
                    let k = *r.pick(&["Vec<u8>", "String", "Bin", "Txt", "Option<Vec<u8>>", "Vec<String>", "Unk"]);
                    if matches!(k, "Vec<String>" | "Unk") && r.chance(1, 2) { blob(&mut o, 1, n / 2, b'x'); blob(&mut o, 1, n - n / 2, b'y'); } else { blob(&mut o, 1, n, b'z'); }
                    o.push(0);
                    if r.chance(1, 3) { c.mb = (n - r.below(2)) as u64; }
                    (k, r.chance(1, 4))
                }
                // long arrays
                3 => {
                    let (k, n) = *r.pick(&[("[u8; 1024]", 1024), ("[u8; 4096]", 4096), ("[u8; 65536]", 65536), ("[u8; 256]", 256)]);
                    let m = match r.below(5) { 0 => n - 1, 1 => n + 1, 2 => 0, _ => n };
                    blob(&mut o, 1, m, 7); if r.chance(1, 6) { blob(&mut o, 1, m, 8); }
                    o.push(0);
                    (k, n < 5000)
                }
                4 => {
                    let n: usize = *r.pick(&[128, 256]);
                    let m = match r.below(5) { 0 => n - 1, 1 => n + 1, 2 => 0, _ => n };
                    for i in 0..m { o.extend([0x41, (i % 100) as u8]); }
                    o.push(0);
                    (if n == 128 { "[u16; 128]" } else { "[u16; 256]" }, true)
                }
                // deep nesting: of what is skipped, and of what is not
                5 => {
                    let n = *r.pick(&[30, 31, 32, 33, 200, 1500]);
                    let k = *r.pick(&["Empty", "P1", "Opts", "()", "(u8,)"]);
                    let m = r.below(n + 2).max(n - 2);
                    if k == "P1" { o.extend([0x41, 5]); blob(&mut o, 2, 1, b'n'); }
                    if k == "(u8,)" { o.extend([0x41, 5]); }
                    for _ in 0..n { if r.chance(1, 2) { o.push(0xc9); } else { o.extend([0x0a, 3]); } }
                    for _ in 0..m { o.push(0); }
                    o.push(0);
                    (k, false)
                }
                6 => {
                    let n = *r.pick(&[29, 30, 31, 32, 33, 59, 60, 61, 100, 1500]);
                    let k = *r.pick(&["Unk", "UnkAll", "Tree", "UnkS"]);
                    for _ in 0..n { if k == "Tree" { o.extend([0x41, 1, 0xc2]) } else { if k == "UnkS" { o.extend([0x41, 1]); } o.push(0xc5) } }
                    if k == "Tree" || k == "UnkS" { o.extend([0x41, 9]); }
                    for _ in 0..n + 1 { o.push(0); }
                    (k, n < 40)
                }
                // text of many characters, good or not, in pieces
                7 => {
                    let n = r.range(100, 3000);
                    let mut x: String = std::iter::repeat("a\u{e9}\u{20ac}\u{1f600}").take(n).collect();
                    if r.chance(1, 2) { let k = x.char_indices().nth(r.below(n * 4)).unwrap().0; x.truncate(k); }
                    let mut x = x.into_bytes();
                    match r.below(4) { 0 => { let k = r.below(x.len() + 1); x.truncate(k); } 1 => { let k = x.len() - 1; x[k] = 0xff; } _ => () }
                    schema_gen::emit(&mut o, &[Nd::B(1, x)], &mut None);
                    o.push(0);
                    (*r.pick(&["String", "Txt", "Vec<String>", "BTreeSet<String>", "Copied<Txt>", "Option<Vec<u8>>"]), true)
                }
                // many messages, each near its budget
                _ => {
                    let n = near(r).min(257);
                    let k = r.range(2, 4);
                    for _ in 0..k { for _ in 0..n { o.extend([0x41, 3]); } o.push(0); }
                    ("Vec<u32>", false)
                }
            };
            let t = w.named(t);
            s.caps = if r.chance(1, 3) { vec![4096, 100, 0] } else { vec![] }; s.seek = r.chance(1, 2);
            s.open(&o, false);
            let e = entry(w, r, t);
            if s.de(t, e, &c) && !matches!(e, "slc" | "slb" | "rd") { for _ in 0..3 { if !s.de(t, e, &c) { break; } } }
            if again && s.last.is_some() && !s.dead { s.reser("vec"); }
        }
        x => panic!("harness: profile {}", x),
    }
    s.record(out, &name);
}

// ------------------------------------- both layers on the same stream
/// Operations of the stream, and now and then one of the typed layer.
struct Mixed<'a> {
    w: &'a World, r: Rng, inner: gen_stream::RandDrv, zc: bool, used: usize, writer: bool,
    /// where messages (and fields with elements) of which type start
    bodies: BTreeMap<u64, usize>, elems: HashMap<u64, usize>,
}
impl<'a> Mixed<'a> {
    fn de(&mut self, name: &str, t: usize, dep: u64) -> J {
        let r = &mut self.r;
        let t = if r.chance(1, 12) { self.w.some(r, PV) } else { t };
        let c = if r.chance(2, 3) { Cfg::wide(r.chance(1, 5)) } else { cfg(r) };
        let x = &self.w.roots[t];
        let zc = self.zc && r.chance(1, 2) && x.stb.is_some() || x.stc.is_none();
        let mut o = vec![("o", st(name)), ("t", J::I(self.w.ty(t))), ("zc", J::B(zc)), ("en", st(if !self.zc { "smc" } else if zc { "stb" } else { "stc" })), ("cfg", c.j())];
        if name == "t_rec" { o.push(("d", J::I(dep.saturating_sub(1) as i64))); }
        let root = if zc && !self.zc { self.w.roots[0] } else { *x };
        if zc && !self.zc { return self.de(name, 0, dep); }
        typed::ARGS.with(|a| *a.borrow_mut() = Some(typed::Args { root, cfg: c.real(), val: None }));
        self.used += 1;
        obj(o)
    }
    fn ser(&mut self, v: &session::View) -> J {
        let r = &mut self.r;
        let t = self.w.any(r);
        let fuel = r.range(2, 9);
        let x = value(self.w, r, t, fuel);
        let m = *r.pick(&["msg", "msg", "body", "field", "elem", "elem"]);
        let tag = r.range(1, 63);
        if !v.dirty { match m { "msg" | "body" => { self.bodies.insert(v.pos, t); } "elem" => { self.elems.insert(v.pos, t); } _ => () } }
        let o = obj(vec![("o", st("t_ser")), ("t", J::I(self.w.ty(t))), ("m", st(m)), ("tag", J::I(tag as i64)), ("v", (self.w.roots[t].val)(&x, &Base::none()))]);
        typed::ARGS.with(|a| *a.borrow_mut() = Some(typed::Args { root: self.w.roots[t], cfg: Config::default(), val: Some(x) }));
        self.used += 1;
        o
    }
}
impl<'a> session::Driver for Mixed<'a> {
    fn next(&mut self, v: &session::View) -> Option<J> {
        if self.inner.left == 0 && (!self.writer || self.inner.readback == 0) { return None; }
        let writing = self.writer && self.inner.readback == usize::MAX;
        if v.field {
            let t = match self.elems.get(&v.fpos) { Some(t) if self.r.chance(3, 4) => Some(*t), _ if self.r.chance(1, 20) => Some(self.w.any(&mut self.r)), _ => None };
            if let Some(t) = t { self.inner.left = self.inner.left.saturating_sub(1); return Some(self.de("t_elem", t, v.dep)); }
        } else if v.h == session::H::None {
            if writing && self.inner.left > 0 && v.writable && self.r.chance(1, 4) { self.inner.left -= 1; return Some(self.ser(v)); }
            let at = if v.dirty && self.r.chance(1, 4) { self.bodies.range(v.pos..).next().map(|x| *x.1) } else { self.bodies.get(&v.pos).cloned() };
            let t = match at { Some(t) if self.r.chance(4, 5) => Some(t), _ if !writing && self.r.chance(1, 25) => Some(self.w.any(&mut self.r)), _ => None };
            if let Some(t) = t {
                self.inner.left = self.inner.left.saturating_sub(1);
                let n = if self.r.chance(1, 2) { "t_rec" } else { "t_de" };
                return Some(self.de(n, t, v.dep));
            }
        }
        self.inner.next(v)
    }
}
/// The beginning of a struct or enum.
fn structure(r: &mut Rng) -> Vec<u8> { let tag = r.range(1, 63) as u8; if r.chance(2, 3) { vec![0x80 | 0x40 | tag] } else { vec![0x00 | tag, r.below(128) as u8] } }
/// A document made of messages, fields and what else there is.
fn pieces(w: &World, r: &mut Rng, o: &mut Vec<u8>, bodies: &mut BTreeMap<u64, usize>, elems: &mut HashMap<u64, usize>, top: bool, depth: usize) {
    for _ in 0..r.range(1, 4) {
        let t = w.any(r);
        let fuel = r.range(2, 9);
        match r.below(7) {
            0 | 1 if top => { bodies.insert(o.len() as u64, t); o.extend(bytes(w, r, t, fuel)); }
            0 | 1 | 2 => { o.extend(structure(r)); bodies.insert(o.len() as u64, t); o.extend(bytes(w, r, t, fuel)); }
            3 | 4 => {
                let v = value(w, r, t, fuel);
                elems.insert(o.len() as u64, t);
                let mut s = Stream::new(Mem::new(vec![], vec![], None, false));
                let tag = r.range(1, 63) as u8;
                if let Ok(Ok(())) = catch_unwind(AssertUnwindSafe(|| (w.roots[t].sers)(&v, &mut s, "elem", tag).and_then(|_| s.commit()))) { o.extend(s.into_inner().b); }
            }
            5 if depth > 0 => { o.extend(structure(r)); pieces(w, r, o, bodies, elems, false, depth - 1); if r.chance(9, 10) { o.push(0); } }
            _ => { let mut d = gen_stream::document(r, &gen_stream::DocCfg { depth: 2, elems: 2, int: 4, blob: 3, sub: 3, pad: 1, exc: 1, eod: 0, bloblen: 12, bigint: true }); while d.last() == Some(&64) { d.pop(); } o.extend(d); }
        }
    }
}
fn mixed(w: &World, out: &mut Out, seed: u64, id: u64, name: &str) {
    let mut r = Rng::new(seed ^ 0x6d69786564, id);
    let writer = r.chance(1, 3);
    let (mut init, mut bodies, mut elems) = (vec![], BTreeMap::new(), HashMap::new());
    if !writer {
        pieces(w, &mut r, &mut init, &mut bodies, &mut elems, true, 2);
        if r.chance(1, 3) { init.push(64); }
        if r.chance(1, 6) { gen_stream::mutate(&mut init, &mut r); }
    }
    let plan = gen_stream::plan(if writer { "wblob" } else { "depth" }, seed, id);
    let mut inner = plan.drv;
    inner.r = Rng::new(seed, id ^ 0x1d);
    if writer { inner.finish_blobs = true; inner.left = r.range(4, 14); inner.readback = usize::MAX; } else { inner.left = r.range(6, 24); }
    let be = if writer { "mem" } else { *r.pick(&["mem", "mems", "tcb", "tcb"]) };
    let caps = caps(&mut r);
    let mut drv = Mixed { w, r, inner, zc: be == "tcb", used: 0, writer, bodies, elems };
    let (seek, (ops, fin)) = mixed_session(be, &init, &caps, &mut drv);
    if drv.used == 0 { return; }
    put_mixed(out, name, be, seek, &init, &caps, ops, &fin);
}
fn mixed_session(be: &str, init: &[u8], caps: &[usize], drv: &mut dyn session::Driver) -> (bool, (Vec<J>, Vec<u8>)) {
    let mut log = session::Log::new();
    log.keep_going = false;
    let m = || Mem::new(init.to_vec(), caps.to_vec(), None, false);
    match be {
        "mem" => (false, session::session(Stream::new(m()), drv, log)),
        "mems" => (true, session::session(Stream::new_seek(m()), drv, log)),
        _ => (true, session::session(Stream::new_seek(backend::Bor(fourleaf::io::TransparentCursor(std::io::Cursor::new(&*Box::leak(init.to_vec().into_boxed_slice()))))), drv, log)),
    }
}
fn put_mixed(out: &mut Out, name: &str, be: &str, seek: bool, init: &[u8], caps: &[usize], ops: Vec<J>, fin: &[u8]) {
    let n = ops.len();
    let mut v = vec![("id", st(name)), ("be", st(be)), ("seek", J::B(seek)), ("init", byts(init)), ("ops", J::A(ops)), ("fin", byts(fin))];
    if !caps.is_empty() { v.push(("caps", J::A(caps.iter().map(|x| J::I(*x as i64)).collect()))); }
    out.put(&obj(v), n);
}
/// Performs given operations of both layers; a value to be written is what
/// `src` is read as.
struct MixedReplay<'a> { w: &'a World, inner: session::Replay }
impl<'a> session::Driver for MixedReplay<'a> {
    fn next(&mut self, v: &session::View) -> Option<J> {
        let o = self.inner.next(v)?;
        if o.s("o").starts_with("t_") {
            let root = self.w.roots[self.w.by_ty[&o.i("t")]];
            let (mut c, mut val) = (Config::default(), None);
            if o.s("o") == "t_ser" {
                let d: &'static [u8] = Box::leak(o.bytes("src").into_boxed_slice());
                val = Some(catch_unwind(AssertUnwindSafe(|| root.slc?(d, &c).ok())).ok().flatten()?);
            } else { c = Cfg::from(o.get("cfg").unwrap()).real(); }
            typed::ARGS.with(|a| *a.borrow_mut() = Some(typed::Args { root, cfg: c, val }));
        }
        Some(o)
    }
}
fn replay_mixed(w: &World, out: &mut Out, file: &str) {
    for l in std::io::BufReader::new(std::fs::File::open(file).unwrap()).lines() {
        let l = l.unwrap();
        if l.trim().is_empty() { continue; }
        let j = parse(&l);
        watch::session(l.clone());
        let (be, init) = (j.s("be"), j.bytes("init"));
        let caps: Vec<usize> = j.arr("caps").iter().map(|x| x.int() as usize).collect();
        let mut drv = MixedReplay { w, inner: session::Replay { ops: j.arr("ops").to_vec(), i: 0 } };
        let (seek, (ops, fin)) = mixed_session(be, &init, &caps, &mut drv);
        put_mixed(out, j.s("id"), be, seek, &init, &caps, ops, &fin);
    }
}

fn replay(w: &World, out: &mut Out, file: &str) {
    for l in std::io::BufReader::new(std::fs::File::open(file).unwrap()).lines() {
        let l = l.unwrap();
        if l.trim().is_empty() { continue; }
        let j = parse(&l);
        watch::session(l.clone());
        let mut s = Sess::new(w);
        s.caps = j.arr("caps").iter().map(|x| x.int() as usize).collect();
        s.seek = j.b("seek");
        if j.has("fail") { s.fail = Some(j.i("fail") as usize); }
        for o in j.arr("ops") {
            match o.s("o") {
                "open" => s.open(&o.bytes("d"), o.b("gr")),
                "de" => { let t = w.by_ty[&o.i("t")]; s.de(t, o.s("en"), &Cfg::from(o.get("cfg").unwrap())); }
                "reser" => s.reser(o.s("en")),
                "arr" => { let k = arrays::TABLE.iter().position(|x| x.0 == o.s("el") && x.1 as i64 == o.i("n")).unwrap(); s.ops.push(arrays::run(k)); }
                x => panic!("harness: operation {}", x),
            }
            if s.dead { break; }
        }
        let id = match j.get("id") { Some(J::S(s)) => s.clone(), Some(x) => x.text(), None => "?".into() };
        s.record(out, &id);
    }
}

fn main() {
    std::panic::set_hook(Box::new(|i| { if i.to_string().contains("harness:") { eprintln!("{}", i); } }));
    watch::start(10);
    let w = World::new();
    if std::env::args().nth(1).as_deref() == Some("dump") {
        let mut names: Vec<Vec<&Root>> = vec![vec![]; w.reg.recs.len() + 1];
        for (i, r) in w.roots.iter().enumerate() { let t = w.ty(i); if t > 0 { names[t as usize].push(r); } }
        for (i, rec) in w.reg.recs.iter().enumerate() {
            let mut rec = rec.clone();
            let r = names[i + 1].first();
            rec.set("nm", st(r.map(|r| r.name).unwrap_or("")));
            rec.set("cp", J::B(r.map(|r| r.slc.is_some()).unwrap_or(false)));
            rec.set("zc", J::B(r.map(|r| r.slb.is_some()).unwrap_or(false)));
            println!("{}", rec.text());
        }
        return;
    }
    let parts = argn("--parts", 1) as usize;
    let mut out = Out::new(&arg("--out").expect("--out"), parts);
    let seed = argn("--seed", 1);
    if let Some(f) = arg("--replay") { replay(&w, &mut out, &f); }
    if let Some(f) = arg("--replay-mixed") { replay_mixed(&w, &mut out, &f); }
    if let Some(p) = arg("--profile") {
        for p in p.split(',') {
            let (name, n) = match p.split_once(':') { Some((a, b)) => (a, b.parse().unwrap()), None => (p, 100) };
            let from = argn("--from", 0);
            for id in from..from + n { gen(&w, &mut out, name, seed, id); }
        }
    }
    out.finish();
}
