//! The typed layer used on a stream (or a field) which is being used
//! otherwise, too.  The root, configuration and value come by way of ARGS.
use crate::backend::{Be, Bor, Mem};
use crate::json::*;
use crate::schema_desc::*;
use crate::schema_types::*;
use fourleaf::de;
use fourleaf::stream::{Field, Stream, Value};
use std::cell::RefCell;

pub struct Args { pub root: Root, pub cfg: de::Config, pub val: Option<Val> }
thread_local! { pub static ARGS: RefCell<Option<Args>> = const { RefCell::new(None) }; }

fn result(root: &Root, r: de::Result<Val>, b: &Base) -> J {
    match r { Ok(v) => obj(vec![("k", st("v")), ("v", (root.val)(&v, b))]), Err(e) => crate::derr(&e) }
}
fn with<T>(f: impl FnOnce(&Args) -> T) -> T { ARGS.with(|a| f(a.borrow().as_ref().expect("harness: typed operation without arguments"))) }

pub fn mem(s: &mut Stream<Mem>, op: &J) -> Option<J> {
    with(|a| Some(if op.s("o") == "t_ser" {
        match (a.root.sers)(a.val.as_ref().unwrap(), s, op.s("m"), op.i("tag") as u8) { Ok(()) => crate::session::k("ok"), Err(e) => crate::session::serr(&e) }
    } else { result(&a.root, a.root.smc?(s, &a.cfg), &Base::none()) }))
}
pub fn bor(s: &mut Stream<Bor>, op: &J) -> Option<J> {
    let b = s.get_ref().base(); let b = Base { at: b.0, len: b.1 };
    with(|a| Some(result(&a.root, (if op.b("zc") { a.root.stb? } else { a.root.stc? })(s, &a.cfg), &b)))
}
pub fn mem_field(f: &mut Field<Mem>, _: &J) -> Option<J> {
    with(|a| Some(result(&a.root, a.root.sme?(f, &a.cfg), &Base::none())))
}
pub fn bor_field(f: &mut Field<Bor>, op: &J) -> Option<J> {
    let b = match f.value { Value::Integer(_) => (0, 0), Value::Blob(ref b) => b.stream_get_ref().base(), Value::Struct(ref s) | Value::Enum(_, ref s) => s.get_ref().base() };
    let b = Base { at: b.0, len: b.1 };
    with(|a| Some(result(&a.root, (if op.b("zc") { a.root.sze? } else { a.root.ste? })(f, &a.cfg), &b)))
}
