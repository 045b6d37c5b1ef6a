#![feature(alloc_error_hook)]
#![allow(static_mut_refs)]

#[macro_use]
mod tape;
mod alloc;
mod coro;
mod driver;
mod gen;
mod model;
mod net;
#[path = "../../shim/src/ops.rs"]
#[allow(dead_code)]
mod ops;
mod scen_callbacks;
mod scen_core;
mod scen_mem;
mod scen_record;
mod world_b;

#[global_allocator]
static GLOBAL: alloc::SimAlloc = alloc::SimAlloc;

pub static mut LAST_PANIC: Option<String> = None;

fn main() {
    std::alloc::set_alloc_error_hook(|_| {
        alloc::l().in_sut = false;
        std::panic::resume_unwind(Box::new(alloc::OomPanic))
    });
    std::panic::set_hook(Box::new(|i| {
        alloc::l().in_sut = false;
        let s = i.location().map(|l| format!("{}:{}", l.file(), l.line()));
        unsafe { LAST_PANIC = s };
        if std::env::var_os("SIM_PANICS").is_some() {
            eprintln!("panic: {i}");
        }
    }));
    std::process::exit(driver::main());
}
