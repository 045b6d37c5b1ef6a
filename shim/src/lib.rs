//! The Rust interface of shogi_core as a shared library, so that the simulator can run it by simulated threads.
#[path = "ops.rs"]
mod ops;

#[no_mangle]
pub unsafe extern "C" fn shim_op(code: u32, a: *mut ops::Obj, b: *const ops::Obj, arg: u64, out: *mut ops::Out) -> *mut ops::Obj {
    ops::op(code, a, b, arg, &mut *out)
}
