//! Cooperative simulated tasks: one coroutine each, resumed in an order drawn from the tape.

use crate::alloc::l;
use crate::tape::*;
use corosensei::stack::DefaultStack;
use corosensei::{Coroutine, CoroutineResult, Yielder};

static mut CUR: *const Yielder<(), ()> = std::ptr::null();
static mut CUR_ID: usize = usize::MAX;

pub fn current() -> usize {
    unsafe { CUR_ID }
}
/// Suspend the running task (no-op outside tasks).
pub fn yield_now() {
    unsafe {
        let y = CUR;
        if y.is_null() {
            return;
        }
        let id = CUR_ID;
        let in_sut = l().in_sut;
        l().in_sut = false;
        CUR = std::ptr::null();
        CUR_ID = usize::MAX;
        (*y).suspend(());
        CUR = y;
        CUR_ID = id;
        l().in_sut = in_sut;
    }
}

pub struct Tasks<'a> {
    list: Vec<Option<Coroutine<(), (), (), DefaultStack>>>,
    pub stalled: Vec<bool>,
    _p: std::marker::PhantomData<&'a ()>,
}

impl<'a> Tasks<'a> {
    pub fn new() -> Self {
        Tasks { list: Vec::new(), stalled: Vec::new(), _p: std::marker::PhantomData }
    }
    pub fn spawn(&mut self, f: Box<dyn FnOnce() + 'a>) {
        let id = self.list.len();
        // the scheduler outlives no borrow: `run` finishes every task before returning
        let f: Box<dyn FnOnce() + 'static> = unsafe { std::mem::transmute(f) };
        let stack = DefaultStack::new(128 * 1024).expect("stack");
        self.list.push(Some(Coroutine::with_stack(stack, move |y: &Yielder<(), ()>, ()| {
            unsafe {
                CUR = y;
                CUR_ID = id;
            }
            f();
            unsafe {
                CUR = std::ptr::null();
                CUR_ID = usize::MAX;
            }
        })));
        self.stalled.push(false);
    }
    /// Resume one task once; true if it finished.
    pub fn resume(&mut self, i: usize) -> bool {
        let c = self.list[i].as_mut().unwrap();
        ev(2, i as u64, 0);
        sh().steps += 1;
        match c.resume(()) {
            CoroutineResult::Yield(()) => false,
            CoroutineResult::Return(()) => {
                self.list[i] = None;
                true
            }
        }
    }
    /// Run to completion under the seeded scheduler.  Tasks marked stalled are only resumed when nothing else is
    /// left; `budget` bounds the number of resumptions.
    pub fn run(&mut self, budget: u64) {
        let mut n = 0;
        loop {
            let mut ready: Vec<usize> =
                (0..self.list.len()).filter(|&i| self.list[i].is_some() && !self.stalled[i]).collect();
            if ready.is_empty() {
                ready = (0..self.list.len()).filter(|&i| self.list[i].is_some()).collect();
                if ready.is_empty() {
                    return;
                }
            }
            let i = ready[draw(ready.len() as u32) as usize];
            self.resume(i);
            n += 1;
            if n > budget {
                crate::fail!("no-progress", "tasks did not complete within {budget} resumptions");
            }
        }
    }
    pub fn pending(&self) -> Vec<usize> {
        (0..self.list.len()).filter(|&i| self.list[i].is_some()).collect()
    }
}
