//! A minimal JSON reader/writer (objects, arrays, strings, bools, integers).
use std::fmt::Write;

#[derive(Clone, Debug, PartialEq)]
pub enum J { Null, B(bool), I(i64), S(String), A(Vec<J>), O(Vec<(String, J)>) }

impl J {
    pub fn get(&self, k: &str) -> Option<&J> {
        match self { J::O(v) => v.iter().find(|x| x.0 == k).map(|x| &x.1), _ => None }
    }
    pub fn s(&self, k: &str) -> &str {
        match self.get(k) { Some(J::S(s)) => s, _ => "" }
    }
    pub fn i(&self, k: &str) -> i64 {
        match self.get(k) { Some(J::I(i)) => *i, o => panic!("no int {} in {:?}: {:?}", k, self, o) }
    }
    pub fn b(&self, k: &str) -> bool { self.get(k) == Some(&J::B(true)) }
    pub fn has(&self, k: &str) -> bool { self.get(k).is_some() }
    pub fn arr(&self, k: &str) -> &[J] {
        match self.get(k) { Some(J::A(a)) => a, _ => &[] }
    }
    pub fn int(&self) -> i64 { match self { J::I(i) => *i, o => panic!("not int {:?}", o) } }
    pub fn u64v(&self) -> u64 {
        match self { J::A(a) => (a[0].int() as u64) | (a[1].int() as u64) << 28
            | (a[2].int() as u64) << 56, J::I(i) => *i as u64, o => panic!("not u64 {:?}", o) }
    }
    pub fn u(&self, k: &str) -> u64 { self.get(k).unwrap_or_else(|| panic!("no {} in {:?}", k, self)).u64v() }
    /// <<neg, mag>>
    pub fn i64v(&self, k: &str) -> i64 {
        match self.get(k) { Some(J::A(a)) => {
            let neg = a[0] == J::B(true); let m = a[1].u64v();
            if neg { (m as i64).wrapping_neg() } else { m as i64 } }, o => panic!("{:?}", o) }
    }
    pub fn bytes(&self, k: &str) -> Vec<u8> {
        self.arr(k).iter().map(|x| x.int() as u8).collect()
    }
    pub fn set(&mut self, k: &str, v: J) {
        if let J::O(o) = self { o.retain(|x| x.0 != k); o.push((k.to_owned(), v)); }
    }
    pub fn write(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("\"null\""),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::I(i) => { write!(o, "{}", i).unwrap(); }
            J::S(s) => {
                o.push('"');
                for c in s.chars() {
                    if c == '"' || c == '\\' { o.push('\\'); o.push(c); }
                    else if (c as u32) < 32 || (c as u32) > 126 { write!(o, "\\u{:04x}", (c as u32) & 0xffff).unwrap(); }
                    else { o.push(c); }
                }
                o.push('"');
            }
            J::A(a) => { o.push('['); for (i, x) in a.iter().enumerate() { if i > 0 { o.push(','); } x.write(o); } o.push(']'); }
            J::O(m) => { o.push('{'); for (i, (k, x)) in m.iter().enumerate() { if i > 0 { o.push(','); }
                o.push('"'); o.push_str(k); o.push_str("\":"); x.write(o); } o.push('}'); }
        }
    }
    pub fn text(&self) -> String { let mut s = String::new(); self.write(&mut s); s }
}

pub fn n64(n: u64) -> J { J::A(vec![J::I((n & 0xfffffff) as i64), J::I(((n >> 28) & 0xfffffff) as i64), J::I((n >> 56) as i64)]) }
pub fn i64j(n: i64) -> J { J::A(vec![J::B(n < 0), n64(n.unsigned_abs())]) }
pub fn byts(b: &[u8]) -> J { crate::alloc::ours(|| J::A(b.iter().map(|x| J::I(*x as i64)).collect())) }
pub fn st(s: &str) -> J { J::S(s.to_owned()) }
pub fn obj(v: Vec<(&str, J)>) -> J { J::O(v.into_iter().map(|(k, x)| (k.to_owned(), x)).collect()) }

pub struct P<'a> { s: &'a [u8], i: usize }
pub fn parse(s: &str) -> J { let mut p = P { s: s.as_bytes(), i: 0 }; let v = p.val(); v }
impl<'a> P<'a> {
    fn ws(&mut self) { while self.i < self.s.len() && (self.s[self.i] as char).is_whitespace() { self.i += 1; } }
    fn val(&mut self) -> J {
        self.ws();
        match self.s[self.i] {
            b'{' => { self.i += 1; let mut v = vec![]; loop { self.ws();
                if self.s[self.i] == b'}' { self.i += 1; break; }
                if self.s[self.i] == b',' { self.i += 1; continue; }
                let k = match self.val() { J::S(s) => s, _ => panic!("key") };
                self.ws(); assert_eq!(self.s[self.i], b':'); self.i += 1;
                let x = self.val(); v.push((k, x)); } J::O(v) }
            b'[' => { self.i += 1; let mut v = vec![]; loop { self.ws();
                if self.s[self.i] == b']' { self.i += 1; break; }
                if self.s[self.i] == b',' { self.i += 1; continue; }
                v.push(self.val()); } J::A(v) }
            b'"' => { self.i += 1; let mut o = Vec::new(); loop { let c = self.s[self.i]; self.i += 1;
                if c == b'"' { break; }
                if c == b'\\' { let d = self.s[self.i]; self.i += 1; match d { b'n' => o.push(b'\n'), b't' => o.push(b'\t'),
                    b'u' => { let h = std::str::from_utf8(&self.s[self.i..self.i+4]).unwrap(); self.i += 4;
                        let c = char::from_u32(u32::from_str_radix(h, 16).unwrap()).unwrap_or('?');
                        let mut t = [0; 4]; o.extend_from_slice(c.encode_utf8(&mut t).as_bytes()); }
                    x => o.push(x) } }
                else { o.push(c); } } J::S(String::from_utf8_lossy(&o).into_owned()) }
            b't' => { self.i += 4; J::B(true) }
            b'f' => { self.i += 5; J::B(false) }
            b'n' => { self.i += 4; J::Null }
            _ => { let b = self.i; while self.i < self.s.len() && (self.s[self.i] == b'-' || self.s[self.i].is_ascii_digit()) { self.i += 1; }
                J::I(std::str::from_utf8(&self.s[b..self.i]).unwrap().parse().unwrap()) }
        }
    }
}
