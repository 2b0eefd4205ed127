//! How values of supported types are described to the specification.
use crate::json::*;
use crate::rng::Rng;
use fourleaf::adapt::Copied;
use fourleaf::UnknownFields; use fourleaf::unknown::UnknownField;
use std::any::TypeId;
use std::borrow::Cow;
use std::collections::*;
use std::hash::Hash;
use std::marker::PhantomData;
use std::net::*;
use std::rc::Rc;
use std::sync::Arc;
use std::time::Duration;

/// The table of types (module Schema's Types), indices starting at 1.
#[derive(Default)]
pub struct Reg { pub recs: Vec<J>, pub ids: HashMap<TypeId, usize> }
impl Reg {
    pub fn ty<T: Desc>(&mut self) -> J {
        let k = TypeId::of::<T>();
        if let Some(i) = self.ids.get(&k) { return J::I(*i as i64); }
        self.recs.push(J::Null);
        let i = self.recs.len();
        self.ids.insert(k, i);
        let r = T::desc(self);
        self.recs[i - 1] = r;
        J::I(i as i64)
    }
}

/// The input buffer, to tell borrowed from owned data.
#[derive(Clone, Copy)]
pub struct Base { pub at: usize, pub len: usize }
impl Base {
    pub fn none() -> Base { Base { at: 0, len: 0 } }
    /// a byte string: where in the input it lies (-1: elsewhere) and its bytes
    fn owned(&self, d: &[u8]) -> J {
        let p = d.as_ptr() as usize;
        // (an owned buffer inside the input would be a borrow in disguise)
        let o = if !d.is_empty() && self.len > 0 && p >= self.at && p < self.at + self.len { -3 } else { -1 };
        obj(vec![("o", J::I(o)), ("d", byts(d))])
    }
    fn borrowed(&self, d: &[u8]) -> J {
        let p = d.as_ptr() as usize;
        let o = if self.at == 0 { -1 } else if p >= self.at && p + d.len() <= self.at + self.len { (p - self.at) as i64 } else { -2 };
        obj(vec![("o", J::I(o)), ("d", byts(d))])
    }
}

/// Makes values: `fuel` bounds their size.
pub struct Gen<'a> { pub r: &'a mut Rng, pub fuel: usize }
impl<'a> Gen<'a> {
    pub fn len(&mut self) -> usize {
        if self.fuel == 0 { return 0; }
        let n = match self.r.below(8) { 0 => 0, 1 | 2 => 1, 3 | 4 => 2, 5 | 6 => 3, _ => 5 };
        let n = n.min(self.fuel);
        self.fuel -= n;
        n
    }
    pub fn blen(&mut self) -> usize { match self.r.below(10) { 0 | 1 => 0, 2 | 3 => 1, 4 | 5 | 6 => self.r.range(2, 6), 7 | 8 => self.r.range(7, 20), _ => self.r.range(100, 140) } }
    pub fn text(&mut self) -> String {
        let n = match self.r.below(6) { 0 => 0, 1 => 1, 5 => 20, _ => self.r.range(1, 5) };
        (0..n).map(|_| self.ch()).collect()
    }
    pub fn ch(&mut self) -> char {
        match self.r.below(10) { 0 => 'é', 1 => '\u{0}', 2 => '€', 3 => '😀', 4 => '\u{7f}', 5 => *self.r.pick(&['\u{feff}', '\u{fffd}', '\u{301}', ' ', '\n', '\r', '\u{7ff}', '\u{800}', '\u{ffff}', '\u{10000}', 'A', 'ß', 'İ']), _ => (b'a' + self.r.below(26) as u8) as char }
    }
}

pub trait Desc: Sized + 'static {
    fn desc(reg: &mut Reg) -> J;
    fn val(&self, b: &Base) -> J;
    fn arb(g: &mut Gen) -> Self;
}

fn k(s: &str) -> J { obj(vec![("k", st(s))]) }
fn ke(s: &str, e: J) -> J { obj(vec![("k", st(s)), ("e", e)]) }

macro_rules! uint { ($($t:ident $b:expr),*) => { $(impl Desc for $t {
    fn desc(_: &mut Reg) -> J { obj(vec![("k", st("int")), ("s", J::B(false)), ("b", J::I($b))]) }
    fn val(&self, _: &Base) -> J { n64(*self as u64) }
    fn arb(g: &mut Gen) -> Self { match g.r.below(5) { 0 => $t::MAX, 1 => g.r.below(3) as $t, _ => g.r.u64b() as $t } }
})* } }
macro_rules! sint { ($($t:ident $b:expr),*) => { $(impl Desc for $t {
    fn desc(_: &mut Reg) -> J { obj(vec![("k", st("int")), ("s", J::B(true)), ("b", J::I($b))]) }
    fn val(&self, _: &Base) -> J { i64j(*self as i64) }
    fn arb(g: &mut Gen) -> Self { match g.r.below(6) { 0 => $t::MAX, 1 => $t::MIN, 2 => (g.r.below(5) as $t) - 2, _ => g.r.u64b() as $t } }
})* } }
uint!(u8 8, u16 16, u32 32, u64 64, usize 64);
sint!(i8 8, i16 16, i32 32, i64 64, isize 64);

impl Desc for bool { fn desc(_: &mut Reg) -> J { k("bool") } fn val(&self, _: &Base) -> J { J::B(*self) } fn arb(g: &mut Gen) -> Self { g.r.chance(1, 2) } }
impl Desc for char { fn desc(_: &mut Reg) -> J { k("char") } fn val(&self, _: &Base) -> J { n64(*self as u64) }
    fn arb(g: &mut Gen) -> Self { match g.r.below(6) { 0 => '\u{10FFFF}', 1 => '\u{D7FF}', 2 => '\u{E000}', _ => g.ch() } } }
impl<T: 'static> Item for PhantomData<T> {}
impl<T: 'static> Desc for PhantomData<T> { fn desc(_: &mut Reg) -> J { k("null") } fn val(&self, _: &Base) -> J { J::A(vec![]) } fn arb(_: &mut Gen) -> Self { PhantomData } }
impl Desc for () { fn desc(_: &mut Reg) -> J { k("unit") } fn val(&self, _: &Base) -> J { J::A(vec![]) } fn arb(_: &mut Gen) {} }
impl Desc for String { fn desc(_: &mut Reg) -> J { k("str") } fn val(&self, b: &Base) -> J { b.owned(self.as_bytes()) } fn arb(g: &mut Gen) -> Self { g.text() } }
impl Desc for &'static str { fn desc(_: &mut Reg) -> J { k("rstr") } fn val(&self, b: &Base) -> J { b.borrowed(self.as_bytes()) } fn arb(g: &mut Gen) -> Self { Box::leak(g.text().into_boxed_str()) } }
impl Desc for &'static [u8] { fn desc(_: &mut Reg) -> J { k("rbytes") } fn val(&self, b: &Base) -> J { b.borrowed(self) }
    fn arb(g: &mut Gen) -> Self { let n = g.blen(); Box::leak(g.r.bytes(n).into_boxed_slice()) } }
// (Vec<u8> is a byte string, other vectors are sequences)
pub trait Item: Desc { const BYTE: bool = false; fn bytes(_: &[Self]) -> Vec<u8> { unreachable!() } }
macro_rules! item { ($($t:ty),*) => { $(impl Item for $t {})* } }
pub(crate) use item;
item!(u16, u32, u64, i8, i16, i32, i64, usize, isize, bool, char, (), String, &'static str, &'static [u8]);
impl Item for u8 { const BYTE: bool = true; fn bytes(s: &[u8]) -> Vec<u8> { s.to_vec() } }
impl<T: Item> Desc for Vec<T> {
    fn desc(r: &mut Reg) -> J { if T::BYTE { k("bytes") } else { ke("seq", r.ty::<T>()) } }
    fn val(&self, b: &Base) -> J {
        if T::BYTE { let d = unsafe { std::slice::from_raw_parts(self.as_ptr() as *const u8, self.len()) }; b.owned(d) }
        else { J::A(self.iter().map(|x| x.val(b)).collect()) }
    }
    fn arb(g: &mut Gen) -> Self { let n = if T::BYTE { g.blen() } else { g.len() }; (0..n).map(|_| T::arb(g)).collect() }
}
impl<T: Item> Item for Vec<T> {}
macro_rules! seqs { ($($k:expr, $t:ident [$($bound:tt)*];)*) => { $(impl<T: Desc $($bound)*> Desc for $t<T> {
    fn desc(r: &mut Reg) -> J { ke($k, r.ty::<T>()) }
    fn val(&self, b: &Base) -> J { J::A(self.iter().map(|x| x.val(b)).collect()) }
    fn arb(g: &mut Gen) -> Self { let n = g.len(); (0..n).map(|_| T::arb(g)).collect() }
} impl<T: Desc $($bound)*> Item for $t<T> {})* } }
seqs!("seq", LinkedList []; "seq", VecDeque []; "set", HashSet [+ Hash + Eq]; "set", BTreeSet [+ Ord]; "heap", BinaryHeap [+ Ord];);
impl<T: Desc> Desc for Option<T> {
    fn desc(r: &mut Reg) -> J { ke("opt", r.ty::<T>()) }
    fn val(&self, b: &Base) -> J { J::A(self.iter().map(|x| x.val(b)).collect()) }
    fn arb(g: &mut Gen) -> Self { if g.fuel > 0 && g.r.chance(3, 5) { g.fuel -= 1; Some(T::arb(g)) } else { None } }
}
impl<T: Desc> Item for Option<T> {}
macro_rules! maps { ($($t:ident [$($bound:tt)*];)*) => { $(impl<K: Desc $($bound)*, V: Desc> Desc for $t<K, V> {
    fn desc(r: &mut Reg) -> J { obj(vec![("k", st("map")), ("e", r.ty::<(K, V)>())]) }
    fn val(&self, b: &Base) -> J { J::A(self.iter().map(|(k, v)| J::A(vec![k.val(b), v.val(b)])).collect()) }
    fn arb(g: &mut Gen) -> Self { let n = g.len(); (0..n).map(|_| (K::arb(g), V::arb(g))).collect() }
} impl<K: Desc $($bound)*, V: Desc> Item for $t<K, V> {})* } }
maps!(HashMap [+ Hash + Eq]; BTreeMap [+ Ord];);
macro_rules! ptrs { ($($t:ident)*) => { $(impl<T: Desc> Desc for $t<T> {
    fn desc(r: &mut Reg) -> J { ke("box", r.ty::<T>()) }
    fn val(&self, b: &Base) -> J { (**self).val(b) }
    fn arb(g: &mut Gen) -> Self { $t::new(T::arb(g)) }
} impl<T: Desc> Item for $t<T> {})* } }
ptrs!(Box Rc Arc);
impl<T: Desc> Desc for Copied<T> {
    fn desc(r: &mut Reg) -> J { ke("copied", r.ty::<T>()) }
    fn val(&self, b: &Base) -> J { self.0.val(b) }
    fn arb(g: &mut Gen) -> Self { Copied(T::arb(g)) }
}
impl<T: Desc> Item for Copied<T> {}
fn cow(r: &mut Reg, own: J, rf: J) -> J { let _ = r; obj(vec![("k", st("cow")), ("own", own), ("ref", rf)]) }
impl Desc for Cow<'static, str> {
    fn desc(r: &mut Reg) -> J { let (a, b) = (r.ty::<String>(), r.ty::<&'static str>()); cow(r, a, b) }
    fn val(&self, b: &Base) -> J { match *self { Cow::Borrowed(s) => b.borrowed(s.as_bytes()), Cow::Owned(ref s) => b.owned(s.as_bytes()) } }
    fn arb(g: &mut Gen) -> Self { Cow::Owned(g.text()) }
}
impl Item for Cow<'static, str> {}
impl Desc for Cow<'static, [u8]> {
    fn desc(r: &mut Reg) -> J { let (a, b) = (r.ty::<Vec<u8>>(), r.ty::<&'static [u8]>()); cow(r, a, b) }
    fn val(&self, b: &Base) -> J { match *self { Cow::Borrowed(s) => b.borrowed(s), Cow::Owned(ref s) => b.owned(s) } }
    fn arb(g: &mut Gen) -> Self { Cow::Owned(Vec::<u8>::arb(g)) }
}
impl Item for Cow<'static, [u8]> {}
// (borrowing is not available for these)
impl Desc for Cow<'static, [u16]> {
    fn desc(r: &mut Reg) -> J { let a = r.ty::<Vec<u16>>(); cow(r, a.clone(), a) }
    fn val(&self, b: &Base) -> J { J::A(self.iter().map(|x| x.val(b)).collect()) }
    fn arb(g: &mut Gen) -> Self { Cow::Owned(Vec::<u16>::arb(g)) }
}
impl Desc for Cow<'static, i64> {
    fn desc(r: &mut Reg) -> J { let a = r.ty::<i64>(); cow(r, a.clone(), a) }
    fn val(&self, b: &Base) -> J { (**self).val(b) }
    fn arb(g: &mut Gen) -> Self { Cow::Owned(i64::arb(g)) }
}
impl<T: Item, const N: usize> Desc for [T; N] {
    fn desc(r: &mut Reg) -> J {
        let big = J::B(N > 32);
        if T::BYTE { obj(vec![("k", st("barr")), ("n", J::I(N as i64)), ("large", big)]) }
        else { obj(vec![("k", st("arr")), ("e", r.ty::<T>()), ("n", J::I(N as i64)), ("large", big)]) }
    }
    fn val(&self, b: &Base) -> J { if T::BYTE { byts(&T::bytes(self)) } else { J::A(self.iter().map(|x| x.val(b)).collect()) } }
    fn arb(g: &mut Gen) -> Self { std::array::from_fn(|_| T::arb(g)) }
}
impl<T: Item, const N: usize> Item for [T; N] {}

pub fn fld(tag: i64, name: &str, t: J) -> J { obj(vec![("tag", J::I(tag)), ("name", st(name)), ("t", t)]) }
pub fn strct(f: Vec<J>, sp: &str, spn: &str, spt: J, chk: &str) -> J {
    obj(vec![("k", st("struct")), ("f", J::A(f)), ("sp", st(sp)), ("spn", st(spn)), ("spt", spt), ("chk", st(chk))])
}
pub fn vrnt(d: u64, f: Vec<J>, sp: &str, spn: &str, spt: J) -> J {
    obj(vec![("d", n64(d)), ("f", J::A(f)), ("sp", st(sp)), ("spn", st(spn)), ("spt", spt), ("chk", st(""))])
}
pub fn enm(v: Vec<J>, ca: Option<J>) -> J {
    obj(vec![("k", st("enum")), ("v", J::A(v)), ("ca", J::A(ca.into_iter().collect()))])
}
macro_rules! tuple { ($($i:tt $n:ident $t:ident),*) => {
    impl<$($t: Desc),*> Desc for ($($t,)*) {
        fn desc(r: &mut Reg) -> J { let f = vec![$(fld($i + 1, stringify!($n), r.ty::<$t>())),*]; strct(f, "none", "", J::I(0), "") }
        fn val(&self, b: &Base) -> J { J::A(vec![$(self.$i.val(b)),*]) }
        fn arb(g: &mut Gen) -> Self { ($($t::arb(g),)*) }
    }
    impl<$($t: Desc),*> Item for ($($t,)*) {}
} }
tuple!(0 field_0 A); tuple!(0 field_0 A, 1 field_1 B); tuple!(0 field_0 A, 1 field_1 B, 2 field_2 C);
tuple!(0 field_0 A, 1 field_1 B, 2 field_2 C, 3 field_3 D); tuple!(0 field_0 A, 1 field_1 B, 2 field_2 C, 3 field_3 D, 4 field_4 E);
tuple!(0 field_0 A, 1 field_1 B, 2 field_2 C, 3 field_3 D, 4 field_4 E, 5 field_5 F);
tuple!(0 field_0 A, 1 field_1 B, 2 field_2 C, 3 field_3 D, 4 field_4 E, 5 field_5 F, 6 field_6 G);
tuple!(0 field_0 A, 1 field_1 B, 2 field_2 C, 3 field_3 D, 4 field_4 E, 5 field_5 F, 6 field_6 G, 7 field_7 H);
tuple!(0 field_0 A, 1 field_1 B, 2 field_2 C, 3 field_3 D, 4 field_4 E, 5 field_5 F, 6 field_6 G, 7 field_7 H, 8 field_8 I);
tuple!(0 field_0 A, 1 field_1 B, 2 field_2 C, 3 field_3 D, 4 field_4 E, 5 field_5 F, 6 field_6 G, 7 field_7 H, 8 field_8 I, 9 field_9 K);
tuple!(0 field_0 A, 1 field_1 B, 2 field_2 C, 3 field_3 D, 4 field_4 E, 5 field_5 F, 6 field_6 G, 7 field_7 H, 8 field_8 I, 9 field_9 K, 10 field_10 L);
tuple!(0 field_0 A, 1 field_1 B, 2 field_2 C, 3 field_3 D, 4 field_4 E, 5 field_5 F, 6 field_6 G, 7 field_7 H, 8 field_8 I, 9 field_9 K, 10 field_10 L, 11 field_11 M);
tuple!(0 field_0 A, 1 field_1 B, 2 field_2 C, 3 field_3 D, 4 field_4 E, 5 field_5 F, 6 field_6 G, 7 field_7 H, 8 field_8 I, 9 field_9 K, 10 field_10 L, 11 field_11 M, 12 field_12 N);
tuple!(0 field_0 A, 1 field_1 B, 2 field_2 C, 3 field_3 D, 4 field_4 E, 5 field_5 F, 6 field_6 G, 7 field_7 H, 8 field_8 I, 9 field_9 K, 10 field_10 L, 11 field_11 M, 12 field_12 N, 13 field_13 O);
tuple!(0 field_0 A, 1 field_1 B, 2 field_2 C, 3 field_3 D, 4 field_4 E, 5 field_5 F, 6 field_6 G, 7 field_7 H, 8 field_8 I, 9 field_9 K, 10 field_10 L, 11 field_11 M, 12 field_12 N, 13 field_13 O, 14 field_14 P);
tuple!(0 field_0 A, 1 field_1 B, 2 field_2 C, 3 field_3 D, 4 field_4 E, 5 field_5 F, 6 field_6 G, 7 field_7 H, 8 field_8 I, 9 field_9 K, 10 field_10 L, 11 field_11 M, 12 field_12 N, 13 field_13 O, 14 field_14 P, 15 field_15 Q);

// ---- types the crate supports out of the box
impl Desc for Duration {
    fn desc(r: &mut Reg) -> J { let (a, b) = (r.ty::<u64>(), r.ty::<u32>()); strct(vec![fld(1, "secs", a), fld(2, "nsecs", b)], "none", "", J::I(0), "dur") }
    fn val(&self, _: &Base) -> J { J::A(vec![n64(self.as_secs()), n64(self.subsec_nanos() as u64)]) }
    fn arb(g: &mut Gen) -> Self { let n = match g.r.below(3) { 0 => 999_999_999, 1 => 0, _ => (g.r.u64b() % 1_000_000_000) as u32 }; Duration::new(g.r.u64b(), n) }
}
impl Desc for Ipv4Addr {
    fn desc(r: &mut Reg) -> J { let t = r.ty::<[u8; 4]>(); strct(vec![], "del", "octets", t, "") }
    fn val(&self, _: &Base) -> J { byts(&self.octets()) }
    fn arb(g: &mut Gen) -> Self { Ipv4Addr::from(<[u8; 4]>::arb(g)) }
}
impl Desc for Ipv6Addr {
    fn desc(r: &mut Reg) -> J { let t = r.ty::<[u8; 16]>(); strct(vec![], "del", "octets", t, "") }
    fn val(&self, _: &Base) -> J { byts(&self.octets()) }
    fn arb(g: &mut Gen) -> Self {
        let a = <[u8; 4]>::arb(g);
        match g.r.below(8) {
            0 => Ipv4Addr::from(a).to_ipv6_mapped(), 1 => Ipv4Addr::from(a).to_ipv6_compatible(), 2 => Ipv6Addr::from(g.r.below(2) as u128),
            3 => Ipv6Addr::new(0xfe80, 0, 0, 0, 0, 0, a[0] as u16, a[1] as u16), _ => Ipv6Addr::from(<[u8; 16]>::arb(g)),
        }
    }
}
impl Desc for IpAddr {
    fn desc(r: &mut Reg) -> J { let (a, b) = (r.ty::<Ipv4Addr>(), r.ty::<Ipv6Addr>()); enm(vec![vrnt(4, vec![], "del", "ip", a), vrnt(6, vec![], "del", "ip", b)], None) }
    fn val(&self, b: &Base) -> J { match self { IpAddr::V4(x) => J::A(vec![n64(4), J::A(vec![x.val(b)])]), IpAddr::V6(x) => J::A(vec![n64(6), J::A(vec![x.val(b)])]) } }
    fn arb(g: &mut Gen) -> Self { if g.r.chance(1, 2) { IpAddr::V4(Desc::arb(g)) } else { IpAddr::V6(Desc::arb(g)) } }
}
impl Desc for SocketAddrV4 {
    fn desc(r: &mut Reg) -> J { let (a, b) = (r.ty::<Ipv4Addr>(), r.ty::<u16>()); strct(vec![fld(1, "ip", a), fld(2, "port", b)], "none", "", J::I(0), "") }
    fn val(&self, b: &Base) -> J { J::A(vec![self.ip().val(b), self.port().val(b)]) }
    fn arb(g: &mut Gen) -> Self { SocketAddrV4::new(Desc::arb(g), Desc::arb(g)) }
}
impl Desc for SocketAddrV6 {
    fn desc(r: &mut Reg) -> J { let (a, b, c) = (r.ty::<Ipv6Addr>(), r.ty::<u16>(), r.ty::<u32>());
        strct(vec![fld(1, "ip", a), fld(2, "port", b), fld(3, "flowinfo", c.clone()), fld(4, "scope_id", c)], "none", "", J::I(0), "") }
    fn val(&self, b: &Base) -> J { J::A(vec![self.ip().val(b), self.port().val(b), self.flowinfo().val(b), self.scope_id().val(b)]) }
    fn arb(g: &mut Gen) -> Self { SocketAddrV6::new(Desc::arb(g), Desc::arb(g), Desc::arb(g), Desc::arb(g)) }
}
impl Desc for SocketAddr {
    fn desc(r: &mut Reg) -> J { let (a, b) = (r.ty::<SocketAddrV4>(), r.ty::<SocketAddrV6>()); enm(vec![vrnt(4, vec![], "del", "v4", a), vrnt(6, vec![], "del", "v6", b)], None) }
    fn val(&self, b: &Base) -> J { match self { SocketAddr::V4(x) => J::A(vec![n64(4), J::A(vec![x.val(b)])]), SocketAddr::V6(x) => J::A(vec![n64(6), J::A(vec![x.val(b)])]) } }
    fn arb(g: &mut Gen) -> Self { if g.r.chance(1, 2) { SocketAddr::V4(Desc::arb(g)) } else { SocketAddr::V6(Desc::arb(g)) } }
}
item!(Duration, Ipv4Addr, Ipv6Addr, IpAddr, SocketAddrV4, SocketAddrV6, SocketAddr);
impl<T: Desc, E: Desc> Desc for Result<T, E> {
    fn desc(r: &mut Reg) -> J { let (a, b) = (r.ty::<T>(), r.ty::<E>()); enm(vec![vrnt(1, vec![], "del", "t", a), vrnt(2, vec![], "del", "e", b)], None) }
    fn val(&self, b: &Base) -> J { match self { Ok(x) => J::A(vec![n64(1), J::A(vec![x.val(b)])]), Err(x) => J::A(vec![n64(2), J::A(vec![x.val(b)])]) } }
    fn arb(g: &mut Gen) -> Self { if g.r.chance(1, 2) { Ok(T::arb(g)) } else { Err(E::arb(g)) } }
}
impl<T: Desc, E: Desc> Item for Result<T, E> {}
fn unk_list(u: &UnknownFields<'static>, b: &Base) -> J { J::A(u.0.iter().map(|(t, f)| J::A(vec![J::I(*t as i64), unk_one(f, b)])).collect()) }
fn unk_one(f: &UnknownField<'static>, b: &Base) -> J {
    match *f {
        UnknownField::Integer(n) => obj(vec![("k", st("i")), ("n", n64(n))]),
        UnknownField::Blob(ref c) => match c.val(b) { J::O(mut v) => { v.insert(0, ("k".into(), st("b"))); J::O(v) }, _ => unreachable!() },
        UnknownField::Struct(ref u) => obj(vec![("k", st("s")), ("f", unk_list(u, b))]),
        UnknownField::Enum(n, ref u) => obj(vec![("k", st("e")), ("n", n64(n)), ("f", unk_list(u, b))]),
    }
}
fn unk_arb(g: &mut Gen) -> UnknownField<'static> {
    match g.r.below(if g.fuel > 1 { 5 } else { 3 }) {
        0 | 1 => UnknownField::Integer(g.r.u64b()),
        2 => UnknownField::Blob(Cow::<'static, [u8]>::arb(g)),
        3 => { g.fuel -= 1; UnknownField::Struct(unk_fields(g, 1)) }
        _ => { g.fuel -= 1; UnknownField::Enum(g.r.u64b(), unk_fields(g, 1)) }
    }
}
/// unknown fields with tags from `lo`
pub fn unk_fields(g: &mut Gen, lo: usize) -> UnknownFields<'static> {
    let n = g.len();
    UnknownFields((0..n).map(|_| { let hi = if g.r.chance(2, 3) { lo + 5 } else { 63 }; (g.r.range(lo, hi) as u8, unk_arb(g)) }).collect())
}
impl Desc for UnknownFields<'static> {
    // (`cow`: the type of the blobs inside)
    fn desc(r: &mut Reg) -> J { let c = r.ty::<Cow<'static, [u8]>>(); obj(vec![("k", st("unk")), ("cow", c)]) }
    fn val(&self, b: &Base) -> J { unk_list(self, b) }
    fn arb(g: &mut Gen) -> Self { unk_fields(g, 1) }
}
impl Desc for UnknownField<'static> {
    fn desc(r: &mut Reg) -> J { let c = r.ty::<Cow<'static, [u8]>>(); obj(vec![("k", st("unkf")), ("cow", c)]) }
    fn val(&self, b: &Base) -> J { unk_one(self, b) }
    fn arb(g: &mut Gen) -> Self { unk_arb(g) }
}
item!(UnknownFields<'static>, UnknownField<'static>);

/// What fields holding unknown fields are made of: they must not reuse a
/// declared tag.
pub trait UnkArb: Desc { fn unk_arb(g: &mut Gen, lo: usize) -> Self; }
impl UnkArb for UnknownFields<'static> { fn unk_arb(g: &mut Gen, lo: usize) -> Self { unk_fields(g, lo) } }
impl<T: UnkArb> UnkArb for Copied<T> { fn unk_arb(g: &mut Gen, lo: usize) -> Self { Copied(T::unk_arb(g, lo)) } }
