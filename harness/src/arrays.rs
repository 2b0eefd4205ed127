//! Fixed-length arrays of every size the library is to support.
//! (A size which is not supported shows as such instead of not compiling.)
use crate::json::*;
use fourleaf::de::{self, style, Config, Deserialize};
use fourleaf::io::TransparentCursor;
use fourleaf::ser::Serialize;
use std::marker::PhantomData;

type Sl = TransparentCursor<&'static [u8]>;

pub trait El: Clone + PartialEq { fn at(i: usize) -> Self; fn put(i: usize, o: &mut Vec<u8>); const WHOLE: bool; }
impl El for u8 { fn at(i: usize) -> u8 { (i % 251) as u8 } fn put(i: usize, o: &mut Vec<u8>) { o.push((i % 251) as u8) } const WHOLE: bool = true; }
impl El for u16 { fn at(i: usize) -> u16 { 256 + (i % 251) as u16 } fn put(i: usize, o: &mut Vec<u8>) { o.extend_from_slice(&[0x41, 0x80 | (i % 251) as u8, 2 | ((i % 251) >> 7) as u8]) } const WHOLE: bool = false; }
impl El for String { fn at(i: usize) -> String { format!("{:02}", i % 100) } fn put(i: usize, o: &mut Vec<u8>) { o.extend_from_slice(&[0x81, 2]); o.extend_from_slice(String::at(i).as_bytes()) } const WHOLE: bool = false; }

/// the elements, as they stand in a document
fn content<E: El>(n: usize) -> Vec<u8> { let mut o = vec![]; for i in 0..n { E::put(i, &mut o); } o }
fn var(mut n: usize, o: &mut Vec<u8>) { while n > 127 { o.push(n as u8 | 0x80); n >>= 7; } o.push(n as u8); }
/// a document which has n elements as its field 1
fn doc<E: El>(n: usize, nested: bool) -> Vec<u8> {
    let mut o = vec![];
    if E::WHOLE { o.push(0x81); var(n, &mut o); } else if nested { o.push(0xC1); }
    o.extend(content::<E>(n));
    if !E::WHOLE && nested { o.push(0); }
    o.push(0);
    o
}

pub trait Whole { type E: El; fn make() -> Box<Self>; fn same(&self) -> bool; fn len() -> usize; }
impl<E: El, const N: usize> Whole for [E; N] {
    type E = E;
    fn make() -> Box<Self> { Box::new(std::array::from_fn(E::at)) }
    fn same(&self) -> bool { self.iter().enumerate().all(|(i, x)| *x == E::at(i)) }
    fn len() -> usize { N }
}

fn outcome<T>(d: Vec<u8>, c: &Config, same: impl Fn(&T) -> bool) -> J where T: for<'a> Deserialize<Sl, style::Copying> + 'static {
    let d: &'static [u8] = Box::leak(d.into_boxed_slice());
    let r = de::from_slice_copy::<T>(d, c);
    let o = match r {
        Ok(ref v) => obj(vec![("k", st("v")), ("same", J::B(same(v)))]),
        Err(ref e) => crate::derr(e),
    };
    drop(r);
    unsafe { drop(Box::from_raw(d.as_ptr() as *mut u8)); }
    o
}
fn written(r: Result<Vec<u8>, String>, n: usize, hd: usize, content: &[u8]) -> J {
    match r {
        Err(e) => obj(vec![("k", st("err")), ("e", st(&e))]),
        Ok(d) => {
            let h = hd.min(d.len());
            obj(vec![("k", st("ok")), ("len", J::I(d.len() as i64)), ("hd", byts(&d[..h])), ("same", J::B(d.len() >= h + content.len() && d[h..h + content.len()] == *content)),
                ("end", byts(&d[(h + content.len()).min(d.len())..][..d.len().saturating_sub(h + content.len()).min(8)])), ("n", J::I(n as i64))])
        }
    }
}
/// nothing of which what has a fixed size needs any
fn none(mb: u64) -> Config { let mut c = Config::default(); c.max_blob = mb as _; c.max_collect = 0; c.recursion_limit = 8; c.ignore_unknown_fields = false; c }
fn some(mb: u64) -> Config { let mut c = none(mb); c.max_collect = 4; c }

pub struct P<T>(pub PhantomData<T>);
pub trait Yes { fn go(&self) -> J; }
pub trait No { fn go(&self) -> J; }
impl<T> Yes for P<T> where T: Whole + Serialize + Deserialize<Sl, style::Copying> + 'static {
    #[inline(never)]
    fn go(&self) -> J {
        let n = T::len();
        let c = content::<T::E>(n);
        let (h, hn) = { let mut o = vec![0x81]; var(n, &mut o); if T::E::WHOLE { (o.len(), o.len()) } else { (0, 1) } };
        let v = T::make();
        let w = written(fourleaf::to_vec(&*v).map_err(|e| e.to_string()), n, h, &c);
        // as an element of something (where the fields of different arrays must be told apart)
        let wn = written(fourleaf::to_vec(&vec![v]).map_err(|e| e.to_string()), n, hn, &c);
        let mb = if T::E::WHOLE { 0 } else { 2 * (n as u64 + 1) };
        let at = |n: usize| outcome::<T>(doc::<T::E>(n, false), &none(mb), |v| v.same());
        let el = |n: usize| outcome::<Vec<T>>(doc::<T::E>(n, true), &some(mb), |v| v.len() == 1 && v[0].same());
        let mut o = vec![("sup", J::B(true)), ("w", w), ("wn", wn), ("rt", at(n)), ("rtn", el(n)), ("lo", at(n + 1)), ("lon", el(n + 1)), ("no", outcome::<T>(vec![0], &none(mb), |v| v.same()))];
        if n > 0 { o.push(("sh", at(n - 1))); o.push(("shn", el(n - 1))); }
        obj(o)
    }
}
impl<T> No for &P<T> { fn go(&self) -> J { obj(vec![("sup", J::B(false))]) } }

macro_rules! table { ($($e:ident: [$($n:tt)*];)*) => { &[$($((stringify!($e), $n, || { #[allow(unused_imports)] use self::{No, Yes}; (&P::<[$e; $n]>(PhantomData)).go() }),)*)*] } }
pub const TABLE: &[(&str, usize, fn() -> J)] = table! {
    u8: [0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32
        64 128 256 512 1024 2048 4096 8192 16384 32768 65536 131072 262144 524288 1048576 2097152 4194304 8388608 16777216];
    u16: [0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32
        64 128 256 512 1024 2048 4096 8192 16384 32768 65536 131072 262144 524288 1048576];
    String: [0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32];
};

pub fn run(id: usize) -> J {
    let (e, n, f) = TABLE[id % TABLE.len()];
    // (arrays live on the stack)
    let r = std::thread::Builder::new().stack_size(if n > 65536 { 2 << 30 } else { 64 << 20 }).spawn(move || f()).unwrap().join();
    let mut o = vec![("o".to_owned(), st("arr")), ("el".to_owned(), st(e)), ("n".to_owned(), J::I(n as i64))];
    match r { Ok(J::O(x)) => o.extend(x), _ => o.push(("r".to_owned(), st("panic"))) }
    J::O(o)
}
