//! The types deserialisation and serialisation are exercised with.
use crate::json::*;
use crate::schema_desc::*;
use fourleaf::adapt::Copied;
use fourleaf::de::{self, style, Config, Context, Deserialize};
use fourleaf::io::TransparentCursor;
use fourleaf::ser::Serialize;
use fourleaf::stream::{Field, Stream};
use fourleaf::UnknownFields; use fourleaf::unknown::UnknownField;
use std::any::Any;
use std::borrow::Cow;
use std::collections::*;
use std::io::{Read, Write};
use std::marker::PhantomData;
use std::net::*;
use std::rc::Rc;
use std::sync::Arc;
use std::time::Duration;

pub type Sl = TransparentCursor<&'static [u8]>;
pub type Str = Stream<crate::backend::Bor>;
pub type Val = Box<dyn Any>;

// ---- structs and enums
macro_rules! strukt {
    ($name:ident [$($d:ident),*] { $([$tag:tt] $f:ident: $t:ty,)* $((?) $u:ident: $ut:ty, $lo:tt)* }) => {
        #[derive(Clone, Debug, $($d),*)]
        pub struct $name { $(pub $f: $t,)* $(pub $u: $ut,)* }
        fourleaf_retrofit!(struct $name : {} {
            impl<R: Read, STYLE> Deserialize<R, STYLE> for $name where $($t: Deserialize<R, STYLE>,)* $($ut: Deserialize<R, STYLE>,)* String: Deserialize<R, STYLE>
        } {
            |_context, this|
            $([$tag] $f: $t = this.$f,)*
            $((?) $u: $ut = this.$u,)*
            { Ok($name { $($f: $f,)* $($u: $u,)* }) }
        });
        describe!($name { $([$tag] $f: $t,)* $((?) $u: $ut, $lo)* });
    };
}
/// (for types containing themselves)
macro_rules! strukt_rec {
    ($name:ident { $([$tag:tt] $f:ident: $t:ty,)* }) => {
        #[derive(Clone, Debug)]
        pub struct $name { $(pub $f: $t,)* }
        fourleaf_retrofit!(struct $name : {} {} {
            |_context, this|
            $([$tag] $f: $t = this.$f,)*
            { Ok($name { $($f: $f,)* }) }
        });
        describe!($name { $([$tag] $f: $t,)* });
    };
}
macro_rules! describe {
    ($name:ident { $([$tag:tt] $f:ident: $t:ty,)* $((?) $u:ident: $ut:ty, $lo:tt)* }) => {
        impl Desc for $name {
            #[allow(unused_mut, unused_variables, unused_assignments)]
            fn desc(r: &mut Reg) -> J {
                let f = vec![$(fld($tag, stringify!($f), r.ty::<$t>()),)*];
                let mut sp = ("none", "", J::I(0));
                $(sp = ("unk", stringify!($u), r.ty::<$ut>());)*
                strct(f, sp.0, sp.1, sp.2, "")
            }
            #[allow(unused_variables)]
            fn val(&self, b: &Base) -> J { J::A(vec![$(self.$f.val(b),)* $(self.$u.val(b),)*]) }
            #[allow(unused_variables)]
            fn arb(g: &mut Gen) -> Self { $name { $($f: <$t>::arb(g),)* $($u: <$ut>::unk_arb(g, $lo),)* } }
        }
        impl Item for $name {}
    };
}
macro_rules! deleg {
    ($name:ident [$($d:ident),*] { (*) $f:ident: $t:ty, }) => {
        #[derive(Clone, Debug, $($d),*)]
        pub struct $name { pub $f: $t }
        fourleaf_retrofit!(struct $name : {} {
            impl<R: Read, STYLE> Deserialize<R, STYLE> for $name where $t: Deserialize<R, STYLE>
        } {
            |_context, this|
            (*) $f: $t = this.$f,
            { Ok($name { $f: $f }) }
        });
        impl Desc for $name {
            fn desc(r: &mut Reg) -> J { let t = r.ty::<$t>(); strct(vec![], "del", stringify!($f), t, "") }
            fn val(&self, b: &Base) -> J { self.$f.val(b) }
            fn arb(g: &mut Gen) -> Self { $name { $f: <$t>::arb(g) } }
        }
        impl Item for $name {}
    };
}
macro_rules! enam {
    ($name:ident [$($d:ident),*] {
        $([$disc:tt] $v:ident { $([$tag:tt] $f:ident: $t:ty,)* $((*) $df:ident: $dt:ty,)* $((?) $u:ident: $ut:ty, $lo:tt)* },)*
        $((?) $ca:ident { (=) $cd:ident $([$ctag:tt] $cf:ident: $ct:ty,)* $((*) $cdf:ident: $cdt:ty,)* $((?) $cu:ident: $cut:ty, $clo:tt)* },)*
    }) => {
        #[derive(Clone, Debug, $($d),*)]
        pub enum $name { $($v { $($f: $t,)* $($df: $dt,)* $($u: $ut,)* },)* $($ca { $cd: u64, $($cf: $ct,)* $($cdf: $cdt,)* $($cu: $cut,)* },)* }
        fourleaf_retrofit!(enum $name : {} {
            impl<R: Read, STYLE> Deserialize<R, STYLE> for $name where
                $($($t: Deserialize<R, STYLE>,)* $($dt: Deserialize<R, STYLE>,)* $($ut: Deserialize<R, STYLE>,)*)*
                $($($ct: Deserialize<R, STYLE>,)* $($cdt: Deserialize<R, STYLE>,)* $($cut: Deserialize<R, STYLE>,)*)*
                String: Deserialize<R, STYLE>
        } {
            |_context|
            $([$disc] $name::$v { $(ref $f,)* $(ref $df,)* $(ref $u,)* } => {
                $([$tag] $f: $t = $f,)*
                $((*) $df: $dt = $df,)*
                $((?) $u: $ut = $u,)*
                { Ok($name::$v { $($f: $f,)* $($df: $df,)* $($u: $u,)* }) }
            }),*
            $(, (?) $name::$ca { $cd, $(ref $cf,)* $(ref $cdf,)* $(ref $cu,)* } => {
                (=) $cd: u64 = $cd,
                $([$ctag] $cf: $ct = $cf,)*
                $((*) $cdf: $cdt = $cdf,)*
                $((?) $cu: $cut = $cu,)*
                { Ok($name::$ca { $cd: $cd, $($cf: $cf,)* $($cdf: $cdf,)* $($cu: $cu,)* }) }
            }),*
        });
        impl Desc for $name {
            #[allow(unused_mut, unused_variables, unused_assignments)]
            fn desc(r: &mut Reg) -> J {
                let mut v = vec![];
                $({
                    let f = vec![$(fld($tag, stringify!($f), r.ty::<$t>()),)*];
                    let mut sp = ("none", "", J::I(0));
                    $(sp = ("del", stringify!($df), r.ty::<$dt>());)*
                    $(sp = ("unk", stringify!($u), r.ty::<$ut>());)*
                    v.push(vrnt($disc, f, sp.0, sp.1, sp.2));
                })*
                let mut ca = None;
                $({
                    let f = vec![$(fld($ctag, stringify!($cf), r.ty::<$ct>()),)*];
                    let mut sp = ("none", "", J::I(0));
                    $(sp = ("del", stringify!($cdf), r.ty::<$cdt>());)*
                    $(sp = ("unk", stringify!($cu), r.ty::<$cut>());)*
                    ca = Some(vrnt(0, f, sp.0, sp.1, sp.2));
                })*
                enm(v, ca)
            }
            #[allow(unused_variables)]
            fn val(&self, b: &Base) -> J {
                match *self {
                    $($name::$v { $(ref $f,)* $(ref $df,)* $(ref $u,)* } => J::A(vec![n64($disc), J::A(vec![$($f.val(b),)* $($df.val(b),)* $($u.val(b),)*])]),)*
                    $($name::$ca { $cd, $(ref $cf,)* $(ref $cdf,)* $(ref $cu,)* } => J::A(vec![n64($cd), J::A(vec![$($cf.val(b),)* $($cdf.val(b),)* $($cu.val(b),)*])]),)*
                }
            }
            #[allow(unused_variables, unused_mut)]
            fn arb(g: &mut Gen) -> Self {
                let known: &[u64] = &[$($disc),*];
                let mut ways: Vec<fn(&mut Gen, &[u64]) -> $name> = vec![];
                $(ways.push(|g, _| $name::$v { $($f: <$t>::arb(g),)* $($df: <$dt>::arb(g),)* $($u: <$ut>::unk_arb(g, $lo),)* });)*
                $(ways.push(|g, known| {
                    let mut d = g.r.u64b();
                    while known.contains(&d) { d = d.wrapping_add(1); }
                    $name::$ca { $cd: d, $($cf: <$ct>::arb(g),)* $($cdf: <$cdt>::arb(g),)* $($cu: <$cut>::unk_arb(g, $clo),)* }
                });)*
                let n = g.r.below(ways.len());
                ways[n](g, known)
            }
        }
        impl Item for $name {}
    };
}

pub type Unk = UnknownFields<'static>;
pub type Txt = Cow<'static, str>;
pub type Bin = Cow<'static, [u8]>;

strukt!(Empty [PartialEq, Eq, Hash, PartialOrd, Ord] {});
strukt!(Pt [PartialEq, Eq, Hash, PartialOrd, Ord] { [1] x: i32, [2] y: i32, });
strukt!(Sparse [] { [63] last: u8, [1] first: u64, [7] mid: String, });
strukt!(Opts [] { [1] a: Option<u32>, [2] b: Option<String>, [3] c: Option<Vec<u8>>, [4] d: Option<Pt>, [5] e: Option<Option<u8>>, [6] f: Option<Vec<u16>>, [7] g: Option<bool>, });
strukt!(Colls [] { [1] v: Vec<u32>, [2] s: BTreeSet<String>, [3] m: BTreeMap<u8, String>, [4] h: HashMap<u32, Pt>, [5] l: LinkedList<Pt>, [6] q: VecDeque<Vec<u8>>, [7] b: BinaryHeap<u16>, [8] hs: HashSet<i8>, });
strukt!(Bytes [] { [1] v: Vec<u8>, [2] a: [u8; 4], [3] z: [u8; 0], [4] s: String, [5] c: char, });
strukt!(Arrs [] { [1] a: [u16; 3], [2] b: [String; 2], [3] c: [Pt; 1], [4] d: [Vec<u8>; 2], [5] e: [u16; 0], });
strukt!(Tups [] { [1] a: (u8, u16), [2] b: Vec<(i8, String)>, [3] c: Option<(u8,)>, [4] d: [(u16, bool); 2], [5] e: ((u8, u8), Vec<u8>), });
strukt!(BigArr [] { [1] a: [u8; 64], [2] b: [u16; 64], });
strukt!(Nest [] { [1] a: Pt, [2] b: Vec<Pt>, [3] c: Option<Sparse>, [4] d: Colls, });
strukt!(Scal [PartialEq, Eq, Hash, PartialOrd, Ord] { [1] a: u8, [2] b: u16, [3] c: u32, [4] d: u64, [5] e: i8, [6] f: i16, [7] g: i32, [8] h: i64, [9] i: bool, [10] j: char, [11] k: (), [12] l: PhantomData<u8>, [13] m: usize, [14] n: isize, });
strukt!(Ptrs [] { [1] a: Box<u32>, [2] b: Rc<String>, [3] c: Arc<Vec<Pt>>, [4] d: Box<Option<Pt>>, [5] e: Vec<Box<u8>>, });
strukt!(Boxes [] { [1] a: Box<Vec<u16>>, [2] b: Vec<Box<Vec<u16>>>, [3] c: Rc<BTreeMap<u8, Box<Option<u8>>>>, [4] d: Arc<[u16; 3]>, [5] e: Box<(u8, Box<u16>)>, [6] f: Vec<Rc<Option<u8>>>, [7] g: Option<Box<Vec<u8>>>, });
strukt!(Wide [] { [1] a: Vec<Vec<Vec<u16>>>, [2] b: BTreeMap<Vec<u16>, Vec<Option<u8>>>, [3] c: Vec<(u8, Vec<u8>)>, [4] d: BTreeMap<u8, BTreeMap<u8, Vec<u8>>>, });
strukt!(Std [] { [1] d: Duration, [2] a: IpAddr, [3] s: SocketAddr, [4] r: Result<u32, String>, [5] v: Vec<Ipv4Addr>, [6] o: Option<Duration>, });
// borrowing
strukt!(Zc [] { [1] a: &'static str, [2] b: &'static [u8], [3] c: Vec<&'static [u8]>, [4] d: Option<&'static str>, [5] e: Txt, [6] f: String, });
strukt!(ZcCow [] { [1] a: Txt, [2] b: Bin, [3] c: Vec<Bin>, [4] d: Option<Txt>, [5] e: BTreeMap<Txt, Bin>, [6] f: Copied<Txt>, [7] g: Copied<Bin>, [8] h: Vec<u8>, });
strukt!(ZcIn [] { [1] a: ZcCow, [2] b: Vec<ZcLeaf>, });
strukt!(ZcLeaf [] { [1] k: Bin, [2] v: Option<Txt>, });
strukt!(CowOwn [] { [1] a: Cow<'static, [u16]>, [2] b: Cow<'static, i64>, });
// unknown fields
strukt!(UnkS [] { [1] a: u32, [2] b: Option<String>, (?) rest: Unk, 3 });
strukt!(UnkC [] { [1] a: u32, (?) rest: Copied<Unk>, 2 });
strukt!(UnkAll [] { (?) rest: Unk, 1 });
strukt!(UnkNest [] { [1] a: UnkS, [2] b: Vec<UnkS>, [3] m: BTreeMap<u8, UnkC>, (?) others: Unk, 4 });
strukt!(UnkHole [] { [5] a: u8, [9] b: Vec<u16>, (?) rest: Unk, 10 });
strukt!(Holds [] { [1] u: UnknownField<'static>, [2] v: Vec<Unk>, [3] o: Option<UnknownField<'static>>, });
// delegation
deleg!(DelScalar [PartialEq, Eq, Hash, PartialOrd, Ord] { (*) it: u32, });
deleg!(DelStruct [] { (*) it: Pt, });
deleg!(DelBytes [PartialEq, Eq, Hash, PartialOrd, Ord] { (*) data: Vec<u8>, });
deleg!(DelVec [] { (*) items: Vec<u16>, });
deleg!(DelDel [] { (*) outer: DelStruct, });
deleg!(DelEnum [] { (*) e: Simple, });
deleg!(DelCow [] { (*) e: Txt, });
strukt!(UsesDel [] { [1] a: DelScalar, [2] b: DelStruct, [3] c: Vec<DelBytes>, [4] d: Option<DelVec>, [5] e: DelDel, [6] f: DelEnum, [7] g: Vec<DelVec>, });
// enums
enam!(Simple [PartialEq, Eq, Hash, PartialOrd, Ord] { [0] A {}, [1] B { [1] x: u32, [2] y: String, }, [300] C { [1] z: Option<u8>, [3] w: Vec<u16>, }, });
enam!(DelVar [] { [1] U {}, [2] S { (*) it: Pt, }, [3] N { (*) n: i16, }, [4] V { (*) v: Vec<u8>, }, [5] W { (*) w: Vec<Pt>, }, [6] O { (*) o: Option<u8>, }, [7] D { (*) d: DelScalar, }, });
enam!(UnkVar [] { [1] A {}, [2] B { [1] x: u32, (?) more: Copied<Unk>, 2 }, (?) Other { (=) d (?) f: Copied<Unk>, 1 }, });
enam!(UnkVarZ [] { [1] A {}, [2] B { [1] x: Txt, (?) more: Unk, 2 }, (?) Other { (=) d [1] x: Option<u8>, (?) f: Unk, 2 }, });
enam!(CatchAll [] { [7] A { [1] x: u8, }, (?) Rest { (=) n [2] y: Option<u16>, }, });
enam!(CatchDel [] { [1] A {}, (?) Rest { (=) n (*) raw: Unk, }, });
strukt!(UsesEnum [] { [1] a: Simple, [2] b: Vec<Simple>, [3] c: Option<DelVar>, [4] d: BTreeMap<Simple, u8>, [5] e: UnkVar, [6] f: Result<(), Simple>, });
enam!(OneVar [] { [18446744073709551615] Max { [1] a: u8, }, });
// constructors which validate, and accessors which compute
/// chk "ord": the first two fields are in order
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Span { pub lo: u16, pub hi: u16 }
fourleaf_retrofit!(struct Span : {} {} {
    |context, this|
    [1] lo: u16 = this.lo,
    [2] hi: u16 = this.hi,
    { if lo <= hi { Ok(Span { lo: lo, hi: hi }) } else { Err(de::Error::InvalidValueMsg(context.to_string(), "disordered")) } }
});
impl Desc for Span {
    fn desc(r: &mut Reg) -> J { let t = r.ty::<u16>(); strct(vec![fld(1, "lo", t.clone()), fld(2, "hi", t)], "none", "", J::I(0), "ord") }
    fn val(&self, b: &Base) -> J { J::A(vec![self.lo.val(b), self.hi.val(b)]) }
    fn arb(g: &mut Gen) -> Self { let (a, b) = (u16::arb(g), u16::arb(g)); Span { lo: a.min(b), hi: a.max(b) } }
}
impl Item for Span {}
/// chk "sum": stored as start and length, which must not overflow
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Run { pub lo: u16, pub end: u16 }
fourleaf_retrofit!(struct Run : {} {} {
    |context, this|
    [3] at: u16 = this.lo,
    [2] n: u16 = this.end - this.lo,
    { match at.checked_add(n) { Some(e) => Ok(Run { lo: at, end: e }), None => Err(de::Error::InvalidValueMsg(context.to_string(), "too long")) } }
});
impl Desc for Run {
    fn desc(r: &mut Reg) -> J { let t = r.ty::<u16>(); strct(vec![fld(3, "at", t.clone()), fld(2, "n", t)], "none", "", J::I(0), "sum") }
    fn val(&self, b: &Base) -> J { J::A(vec![self.lo.val(b), (self.end - self.lo).val(b)]) }
    fn arb(g: &mut Gen) -> Self { let (a, b) = (u16::arb(g), u16::arb(g)); Run { lo: a.min(b), end: a.max(b) } }
}
impl Item for Run {}
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Gap { None, Between(u16, u16), Few(u16, u16) }
fourleaf_retrofit!(enum Gap : {} {} {
    |context|
    [0] Gap::None => { { Ok(Gap::None) } },
    [1] Gap::Between(a, b) => {
        [1] a: u16 = a,
        [2] b: u16 = b,
        { if a <= b { Ok(Gap::Between(a, b)) } else { Err(de::Error::InvalidValueMsg(context.to_string(), "disordered")) } }
    },
    [2] Gap::Few(a, b) => {
        [1] a: u16 = a,
        [2] b: u16 = b - a,
        { match a.checked_add(b) { Some(e) => Ok(Gap::Few(a, e)), None => Err(de::Error::InvalidValueMsg(context.to_string(), "too long")) } }
    },
});
impl Desc for Gap {
    fn desc(r: &mut Reg) -> J {
        let t = r.ty::<u16>(); let f = || vec![fld(1, "a", t.clone()), fld(2, "b", t.clone())];
        let mut v = vec![vrnt(0, vec![], "none", "", J::I(0)), vrnt(1, f(), "none", "", J::I(0)), vrnt(2, f(), "none", "", J::I(0))];
        v[1].set("chk", st("ord")); v[2].set("chk", st("sum"));
        enm(v, None)
    }
    fn val(&self, b: &Base) -> J {
        match *self {
            Gap::None => J::A(vec![n64(0), J::A(vec![])]),
            Gap::Between(x, y) => J::A(vec![n64(1), J::A(vec![x.val(b), y.val(b)])]),
            Gap::Few(x, y) => J::A(vec![n64(2), J::A(vec![x.val(b), (y - x).val(b)])]),
        }
    }
    fn arb(g: &mut Gen) -> Self {
        let (a, b) = (u16::arb(g), u16::arb(g));
        match g.r.below(3) { 0 => Gap::None, 1 => Gap::Between(a.min(b), a.max(b)), _ => Gap::Few(a.min(b), a.max(b)) }
    }
}
impl Item for Gap {}
strukt!(Checks [] { [1] a: Span, [2] b: Vec<Run>, [3] c: Option<Gap>, [4] d: BTreeMap<Span, Gap>, [5] e: DelSpan, [6] f: BTreeSet<Run>, });
deleg!(DelSpan [] { (*) s: Span, });
// recursion
strukt_rec!(Tree { [1] v: u8, [2] kids: Vec<Tree>, });
strukt_rec!(List { [1] v: u8, [2] next: Option<Box<List>>, });
// versions of one type
strukt!(P1 [] { [1] id: u16, [2] name: String, });
strukt!(P2 [] { [1] id: u32, [2] name: String, [3] age: Option<u8>, });
strukt!(P3 [] { [1] id: u64, [2] name: Vec<String>, [3] age: Vec<u8>, [4] tags: BTreeMap<String, i32>, });
strukt!(P4 [] { [1] id: Option<u8>, [2] name: Option<String>, });
strukt!(P5 [] { [1] id: i16, [2] name: String, });
strukt!(P6 [] { [1] id: i64, [2] name: Option<String>, [9] note: Option<Pt>, });
strukt!(P7 [] { [1] id: Vec<u16>, [2] name: BTreeSet<String>, });
strukt!(P8 [] { [2] name: String, });
strukt!(P9 [] { [1] id: u16, [2] name: Vec<u8>, (?) rest: Unk, 3 });
strukt!(P10 [] { [1] id: LinkedList<u32>, [2] name: [String; 1], [3] ages: [u8; 2], });
enam!(E1 [] { [1] A {}, [2] B { [1] x: u16, }, });
enam!(E2 [] { [1] A {}, [2] B { [1] x: u32, [2] y: Option<String>, }, [3] C { [1] z: Pt, }, });
enam!(E3 [] { [1] A { [1] n: Option<u8>, }, [2] B { [1] x: Vec<u8>, }, (?) Other { (=) d (?) rest: Copied<Unk>, 1 }, });
strukt!(H1 [] { [1] p: P1, [2] e: E1, [3] l: Vec<P1>, [4] m: BTreeMap<u8, P1>, });
strukt!(H2 [] { [1] p: P2, [2] e: E2, [3] l: Vec<P2>, [4] m: BTreeMap<u16, P2>, [5] x: Option<E2>, });
strukt!(H3 [] { [1] p: Vec<P6>, [2] e: E3, [3] l: LinkedList<P3>, [4] m: HashMap<u64, P2>, (?) rest: Unk, 6 });

// ---- entry points
#[derive(Clone, Copy)]
pub struct Root {
    pub name: &'static str,
    pub arb: fn(&mut Gen) -> Val,
    pub val: fn(&Val, &Base) -> J,
    pub ser: fn(&Val, &str, &mut Vec<u8>) -> Result<(), fourleaf::stream::Error>,
    pub reg: fn(&mut Reg) -> J,
    pub slc: Option<fn(&'static [u8], &Config) -> de::Result<Val>>,
    pub slb: Option<fn(&'static [u8], &Config) -> de::Result<Val>>,
    pub rdc: Option<fn(&mut crate::backend::Mem, &Config) -> de::Result<Val>>,
    pub stc: Option<fn(&mut Str, &Config) -> de::Result<Val>>,
    pub stb: Option<fn(&mut Str, &Config) -> de::Result<Val>>,
    pub smc: Option<fn(&mut Stream<crate::backend::Mem>, &Config) -> de::Result<Val>>,
    /// one element, of a field in hand
    pub sme: Option<fn(&mut Field<crate::backend::Mem>, &Config) -> de::Result<Val>>,
    pub ste: Option<fn(&mut Field<crate::backend::Bor>, &Config) -> de::Result<Val>>,
    pub sze: Option<fn(&mut Field<crate::backend::Bor>, &Config) -> de::Result<Val>>,
    /// a body, field or element written to a stream in use
    pub sers: fn(&Val, &mut Stream<crate::backend::Mem>, &str, u8) -> Result<(), fourleaf::stream::Error>,
}
fn bx<T: 'static>(r: de::Result<T>) -> de::Result<Val> { r.map(|x| Box::new(x) as Val) }

/// a writer which takes a few bytes at a time
struct Bits(Vec<u8>, usize);
impl Write for Bits {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { self.1 += 1; let n = b.len().min(1 + self.1 % 3); self.0.extend_from_slice(&b[..n]); Ok(n) }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn ser<T: Serialize + 'static>(v: &Val, how: &str, out: &mut Vec<u8>) -> Result<(), fourleaf::stream::Error> {
    let v = v.downcast_ref::<T>().expect("harness: value of another type");
    match how {
        "vec" => { let d = fourleaf::to_vec(v)?; out.extend(d); Ok(()) }
        "wr" => { let mut b = Bits(vec![], 0); fourleaf::to_writer(&mut b, v)?; out.extend(b.0); Ok(()) }
        _ => {
            // appended to a stream which holds what was written before
            let mut s = Stream::new(std::mem::take(out));
            let mut w = v;
            fourleaf::to_stream(&mut s, &&mut w)?;
            *out = s.into_inner();
            Ok(())
        }
    }
}
fn sers<T: Serialize + 'static>(v: &Val, s: &mut Stream<crate::backend::Mem>, how: &str, tag: u8) -> Result<(), fourleaf::stream::Error> {
    let v = v.downcast_ref::<T>().expect("harness: value of another type");
    match how { "msg" => fourleaf::to_stream(s, v), "body" => v.serialize_body(s), "field" => v.serialize_field(s, tag), _ => { let mut w = v; (&mut w).serialize_element(s, tag) } }
}
fn base<T: Desc + Serialize>(name: &'static str) -> Root {
    Root {
        name, arb: |g| Box::new(T::arb(g)), val: |v, b| v.downcast_ref::<T>().expect("harness: value of another type").val(b),
        ser: ser::<T>, reg: |r| r.ty::<T>(), slc: None, slb: None, rdc: None, stc: None, stb: None, smc: None, sme: None, ste: None, sze: None, sers: sers::<T>,
    }
}
type SlR = TransparentCursor<&'static [u8]>;
macro_rules! roots {
    ($v:ident $kind:ident $($t:ty;)*) => { $(roots!(@one $v $kind $t);)* };
    (@one $v:ident both $t:ty) => { { let r = roots!(@copy $t); $v.push(roots!(@zc r, $t)); } };
    (@one $v:ident copy $t:ty) => { { let r = roots!(@copy $t); $v.push(r); } };
    (@one $v:ident zc $t:ty) => { { let r = base::<$t>(stringify!($t)); $v.push(roots!(@zc r, $t)); } };
    (@copy $t:ty) => { Root {
        slc: Some(|b, c| bx::<$t>(fourleaf::from_slice_copy(b, c))),
        rdc: Some(|m, c| bx::<$t>(fourleaf::from_reader(m, c))),
        stc: Some(|s, c| bx::<$t>(fourleaf::from_stream_copy(s, c))),
        smc: Some(|s, c| bx::<$t>(fourleaf::from_stream_copy(s, c))),
        sme: Some(|f, c| bx::<$t>(<$t as Deserialize<crate::backend::Mem, de::style::Copying>>::deserialize_element(&Context::top(c), f))),
        ste: Some(|f, c| bx::<$t>(<$t as Deserialize<crate::backend::Bor, de::style::Copying>>::deserialize_element(&Context::top(c), f))),
        ..base::<$t>(stringify!($t))
    } };
    (@zc $r:ident, $t:ty) => { Root {
        slb: Some(|b, c| bx::<$t>(fourleaf::from_slice_borrow(b, c))),
        stb: Some(|s, c| bx::<$t>(fourleaf::from_stream_borrow(s, c))),
        sze: Some(|f, c| bx::<$t>(<$t as Deserialize<crate::backend::Bor, de::style::ZeroCopy>>::deserialize_element(&Context::top(c), f))),
        ..$r
    } };
}

pub fn roots() -> Vec<Root> {
    let mut v = vec![];
    roots!(v both u8; u16; u32; u64; usize; i8; i16; i32; i64; isize; bool; char; (); PhantomData<u8>; String; Vec<u8>; Txt; Bin; Box<u32>; Rc<String>; Arc<Vec<u8>>;
        Copied<Txt>; Copied<Bin>; Copied<u8>; Unk; UnknownField<'static>;);
    roots!(v zc &'static str; &'static [u8]; Zc; Vec<&'static str>; (&'static str, &'static [u8]););
    roots!(v copy Cow<'static, [u16]>; Cow<'static, i64>; CowOwn;);
    roots!(v both Vec<u32>; Vec<String>; Vec<Vec<u8>>; Vec<Vec<u16>>; Vec<()>; Vec<Option<u8>>; Vec<bool>; Vec<Vec<Vec<i8>>>; LinkedList<i16>; VecDeque<u64>; HashSet<u8>; BTreeSet<String>;
        BinaryHeap<i32>; HashSet<Vec<u8>>; HashMap<u16, String>; BTreeMap<String, u64>; BTreeMap<u8, Vec<u16>>; BTreeMap<Vec<u8>, Option<i8>>; HashMap<u32, (u8, String)>;
        BTreeMap<u8, BTreeMap<u8, u8>>; BTreeSet<Vec<u16>>; BTreeMap<Pt, Simple>; HashMap<(), u8>; Vec<BTreeMap<u8, u8>>; BTreeMap<u8, ()>; Vec<HashSet<u16>>; BTreeSet<(u8, u8)>;
        BinaryHeap<Vec<u8>>; HashSet<()>; Vec<PhantomData<u8>>; BTreeMap<DelScalar, DelBytes>; Vec<char>; Vec<LinkedList<u8>>; Vec<BinaryHeap<u8>>; HashSet<DelBytes>; BTreeSet<Option<u8>>; BTreeMap<Option<u8>, Vec<u8>>;);
    roots!(v both Option<u32>; Option<Option<u8>>; Option<Vec<u8>>; Option<Vec<u16>>; Option<()>; Option<(u8, u8)>; Option<Option<Option<i8>>>; Option<Pt>; Option<[u8; 2]>; Option<[u16; 2]>; Box<Option<Box<u8>>>;);
    roots!(v both [u8; 0]; [u8; 1]; [u8; 2]; [u8; 3]; [u8; 4]; [u8; 5]; [u8; 6]; [u8; 7]; [u8; 8]; [u8; 9]; [u8; 10]; [u8; 11]; [u8; 12]; [u8; 13]; [u8; 14]; [u8; 15]; [u8; 16]; [u8; 17]; [u8; 18];
        [u8; 19]; [u8; 20]; [u8; 21]; [u8; 22]; [u8; 23]; [u8; 24]; [u8; 25]; [u8; 26]; [u8; 27]; [u8; 28]; [u8; 29]; [u8; 30]; [u8; 31]; [u8; 32]; [u8; 64]; [u8; 128]; [u8; 256]; [u8; 512];
        [u16; 0]; [u16; 1]; [u16; 2]; [u16; 3]; [u16; 4]; [u16; 5]; [u16; 6]; [u16; 7]; [u16; 8]; [u16; 9]; [u16; 10]; [u16; 11]; [u16; 12]; [u16; 13]; [u16; 14]; [u16; 15]; [u16; 16]; [u16; 17]; [u16; 18];
        [u16; 19]; [u16; 20]; [u16; 21]; [u16; 22]; [u16; 23]; [u16; 24]; [u16; 25]; [u16; 26]; [u16; 27]; [u16; 28]; [u16; 29]; [u16; 30]; [u16; 31]; [u16; 32]; [u16; 64]; [u16; 128]; [u16; 256]; [u8; 1024]; [u8; 4096]; [u8; 65536];
        [String; 2]; [Vec<u8>; 2]; [[u8; 2]; 3]; [[u16; 2]; 2]; [(u8, u8); 2]; [Option<u8>; 2]; [bool; 8]; [(); 2]; [Vec<u16>; 2]; [[u8; 0]; 2]; [(); 0]; [[u16; 0]; 2]; [bool; 64]; Vec<[u8; 3]>; Vec<[u16; 2]>; Vec<[u8; 0]>; Vec<[u16; 0]>;);
    roots!(v both (u8,); (u8, String); (i8, Vec<u8>, Vec<u16>); (u8, u8, u8, u8); (u8, (u8, u8), Option<u8>, bool, char); (u8, i8, u16, i16, u32, i32); (u8, u8, u8, u8, u8, u8, u8);
        (u8, u8, u8, u8, u8, u8, u8, u8); (u8, u8, u8, u8, u8, u8, u8, u8, u8); (u8, u8, u8, u8, u8, u8, u8, u8, u8, u16); (u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u16);
        (u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u16); (u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u16); (u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u16);
        (u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u16); (u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u16); (Unk, u8); (Vec<u8>, (), PhantomData<u8>); ((), ()););
    roots!(v both Duration; Ipv4Addr; Ipv6Addr; IpAddr; SocketAddrV4; SocketAddrV6; SocketAddr; Result<u8, String>; Result<(), Vec<u16>>; Result<Option<u8>, Result<u8, ()>>; Vec<Duration>; Std;);
    roots!(v both Empty; Pt; Sparse; Opts; Colls; Bytes; Arrs; Tups; BigArr; Nest; Scal; Ptrs; Wide; ZcCow; ZcIn; ZcLeaf; UnkS; UnkC; UnkAll; UnkNest; UnkHole; Holds;
        DelScalar; DelStruct; DelBytes; DelVec; DelDel; DelEnum; DelCow; UsesDel; Simple; DelVar; UnkVar; UnkVarZ; CatchAll; CatchDel; UsesEnum; OneVar; Tree; List; Vec<Tree>;
        P1; P2; P3; P4; P5; P6; P7; P8; P9; P10; E1; E2; E3; H1; H2; H3; Vec<(u8, Vec<u8>)>; Vec<Simple>; Vec<UnkS>; Vec<UnkVar>; Option<Simple>; (Simple, u8); Span; Run; Gap; Checks; DelSpan; Vec<Gap>;);
    roots!(v both Boxes; Vec<Box<Vec<u16>>>; Vec<Rc<Option<u8>>>; BTreeMap<Box<Vec<u8>>, Arc<Vec<u16>>>; [Box<Vec<u16>>; 2]; Vec<Arc<(u8, Vec<u16>)>>; Box<Vec<Box<u8>>>; Option<Box<Vec<u16>>>; Box<Box<Option<u16>>>; BTreeSet<Box<Option<u8>>>; Rc<BTreeMap<u8, u8>>; Arc<[u16; 2]>; Box<[u8; 3]>; Box<()>; Vec<Box<()>>; Rc<Simple>; Arc<Unk>;);
    v
}
