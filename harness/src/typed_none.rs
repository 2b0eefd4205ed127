//! No typed layer in this program.
use crate::backend::{Bor, Mem};
use crate::json::J;
use fourleaf::stream::{Field, Stream};
pub fn mem(_: &mut Stream<Mem>, _: &J) -> Option<J> { None }
pub fn bor(_: &mut Stream<Bor>, _: &J) -> Option<J> { None }
pub fn mem_field(_: &mut Field<Mem>, _: &J) -> Option<J> { None }
pub fn bor_field(_: &mut Field<Bor>, _: &J) -> Option<J> { None }
