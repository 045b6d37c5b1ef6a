//! World B: the real C library, machine code as built, run by simulated threads.
//!
//! A simulated thread is a coroutine.  While it is inside the library the processor's trap flag is on and the trap
//! handler, which runs on the coroutine's own stack, counts the library's instructions; after the number drawn from
//! the tape it suspends the thread right there and another thread goes on.  One tape is one exact interleaving at
//! instruction granularity.

use crate::alloc::outside;
use crate::coro::*;
use crate::gen::*;
use crate::model::*;
use crate::tape::*;
use shogi_core::{Bitboard, Game, Hand, PartialGame, PartialPosition, Position};
use std::ffi::{c_void, CString};

pub const INFRA: i32 = 77; // exit status: the simulator itself cannot run

// ------------------------------------------------------------------------------------------------------ the library

macro_rules! fns {
    ($($name:ident: $t:ty;)*) => {
        #[allow(non_snake_case)]
        pub struct Fns { $(pub $name: $t),* }
        impl Fns {
            unsafe fn load(h: *mut c_void) -> Fns {
                Fns { $($name: std::mem::transmute_copy::<*mut c_void, $t>(&sym(h, stringify!($name)))),* }
            }
            /// The functions of a library built without `alloc`: there is no `Position`, hence no game either.
            unsafe fn load_core(h: *mut c_void) -> Fns {
                Fns { $($name: {
                    let name = stringify!($name);
                    let p = if name.starts_with("Position_") || name.starts_with("Game_") { absent as *mut c_void } else { sym(h, name) };
                    std::mem::transmute_copy::<*mut c_void, $t>(&p)
                }),* }
            }
        }
    };
}
extern "C" fn absent() -> ! {
    infra("call of a function that only exists with the feature alloc".into())
}
unsafe fn sym(h: *mut c_void, name: &str) -> *mut c_void {
    let c = CString::new(name).unwrap();
    let p = libc::dlsym(h, c.as_ptr());
    if p.is_null() {
        fail!("missing-function", "the library does not export {name}, which shogi_core.h declares");
    }
    p
}
type B = Bitboard;
type PP = *const c_void; // const struct PartialPosition *
type PM = *mut c_void;
fns! {
    Bitboard_bitand: extern "C" fn(B, B) -> B;
    Bitboard_bitand_assign: extern "C" fn(*mut B, B);
    Bitboard_bitor: extern "C" fn(B, B) -> B;
    Bitboard_bitor_assign: extern "C" fn(*mut B, B);
    Bitboard_bitxor: extern "C" fn(B, B) -> B;
    Bitboard_bitxor_assign: extern "C" fn(*mut B, B);
    Bitboard_contains: extern "C" fn(B, u8) -> u8;
    Bitboard_count: extern "C" fn(B) -> u8;
    Bitboard_empty: extern "C" fn() -> B;
    Bitboard_flip: extern "C" fn(B) -> B;
    Bitboard_is_empty: extern "C" fn(B) -> u8;
    Bitboard_not: extern "C" fn(B) -> B;
    Bitboard_pop: extern "C" fn(*mut B) -> u8;
    Bitboard_single: extern "C" fn(u8) -> B;
    Color_flip: extern "C" fn(u8) -> u8;
    CompactMove_drop: extern "C" fn(u8, u8) -> u16;
    CompactMove_from: extern "C" fn(u16) -> u8;
    CompactMove_is_drop: extern "C" fn(u16) -> u8;
    CompactMove_is_promoting: extern "C" fn(u16) -> u8;
    CompactMove_normal: extern "C" fn(u8, u8, bool) -> u16;
    CompactMove_to: extern "C" fn(u16) -> u8;
    GameResolution_from_u8_unchecked: extern "C" fn(u8) -> u8;
    Hand_add: extern "C" fn(*mut Hand, u8) -> u8;
    Hand_count: extern "C" fn(Hand, u8) -> u8;
    Hand_is_hand_piece: extern "C" fn(u8) -> u8;
    Hand_new: extern "C" fn() -> Hand;
    Game_position: extern "C" fn(PP) -> PP;
    Game_resolution: extern "C" fn(PP) -> u8;
    Game_resolve: extern "C" fn(PM, u8);
    Game_unresolve: extern "C" fn(PM);
    PartialGame_position: extern "C" fn(PP) -> PP;
    PartialGame_resolution: extern "C" fn(PP) -> u8;
    PartialGame_resolve: extern "C" fn(PM, u8);
    PartialGame_unresolve: extern "C" fn(PM);
    Hand_remove: extern "C" fn(*mut Hand, u8) -> u8;
    IllegalMoveKind_from_u8_unchecked: extern "C" fn(u8) -> u8;
    PartialPosition_hand_of_a_player: extern "C" fn(PP, u8) -> Hand;
    PartialPosition_last_compact_move: extern "C" fn(PP) -> u16;
    PartialPosition_make_compact_move: extern "C" fn(PM, u16) -> u8;
    PartialPosition_occupied_bitboard: extern "C" fn(PP) -> B;
    PartialPosition_piece_at: extern "C" fn(PP, u8) -> u8;
    PartialPosition_piece_bitboard: extern "C" fn(PP, u8) -> B;
    PartialPosition_piece_kind_bitboard: extern "C" fn(PP, u8) -> B;
    PartialPosition_player_bitboard: extern "C" fn(PP, u8) -> B;
    PartialPosition_ply: extern "C" fn(PP) -> u16;
    PartialPosition_side_to_move: extern "C" fn(PP) -> u8;
    PartialPosition_startpos: extern "C" fn(PM);
    PartialPosition_to_sfen_c: extern "C" fn(PP, *mut u8);
    PartialPosition_vacant_bitboard: extern "C" fn(PP) -> B;
    PieceKind_from_u8: extern "C" fn(u8) -> u8;
    PieceKind_from_u8_unchecked: extern "C" fn(u8) -> u8;
    PieceKind_promote: extern "C" fn(u8) -> u8;
    PieceKind_unpromote: extern "C" fn(u8) -> u8;
    Piece_color: extern "C" fn(u8) -> u8;
    Piece_new: extern "C" fn(u8, u8) -> u8;
    Piece_piece_kind: extern "C" fn(u8) -> u8;
    Piece_promote: extern "C" fn(u8) -> u8;
    Piece_unpromote: extern "C" fn(u8) -> u8;
    Position_destruct: extern "C" fn(PM);
    Position_hand_of_a_player: extern "C" fn(PP, u8) -> Hand;
    Position_initial_position: extern "C" fn(PP) -> PP;
    Position_inner: extern "C" fn(PP) -> PP;
    Position_last_compact_move: extern "C" fn(PP) -> u16;
    Position_make_compact_move: extern "C" fn(PM, u16) -> u8;
    Position_occupied_bitboard: extern "C" fn(PP) -> B;
    Position_piece_at: extern "C" fn(PP, u8) -> u8;
    Position_piece_bitboard: extern "C" fn(PP, u8) -> B;
    Position_player_bitboard: extern "C" fn(PP, u8) -> B;
    Position_ply: extern "C" fn(PP) -> u16;
    Position_side_to_move: extern "C" fn(PP) -> u8;
    Position_startpos: extern "C" fn() -> PM;
    Position_to_sfen_c: extern "C" fn(PP, *mut u8);
    Position_vacant_bitboard: extern "C" fn(PP) -> B;
    Square_file: extern "C" fn(u8) -> u8;
    Square_flip: extern "C" fn(u8) -> u8;
    Square_from_u8: extern "C" fn(u8) -> u8;
    Square_from_u8_unchecked: extern "C" fn(u8) -> u8;
    Square_index: extern "C" fn(u8) -> u8;
    Square_new: extern "C" fn(u8, u8) -> u8;
    Square_new_relative: extern "C" fn(u8, u8, u8) -> u8;
    Square_rank: extern "C" fn(u8) -> u8;
    Square_relative_file: extern "C" fn(u8, u8) -> u8;
    Square_relative_rank: extern "C" fn(u8, u8) -> u8;
    Square_shift: extern "C" fn(u8, i8, i8) -> u8;
}

pub struct Hooks {
    alloc: extern "C" fn(usize, usize) -> *mut u8,
    zeroed: extern "C" fn(usize, usize) -> *mut u8,
    dealloc: extern "C" fn(*mut u8, usize, usize),
    realloc: extern "C" fn(*mut u8, usize, usize, usize) -> *mut u8,
}

struct Lib {
    h: *mut c_void,
    base: usize,
    text: Vec<(usize, usize)>,
    rw: Vec<(usize, usize)>,
    /// pages of static data that stay writable after loading
    pages: (usize, usize),
}
struct Find {
    want: usize,
    base: usize,
    text: Vec<(usize, usize)>,
    rw: Vec<(usize, usize)>,
    relro: usize,
}
unsafe extern "C" fn phdr(i: *mut libc::dl_phdr_info, _n: usize, d: *mut c_void) -> libc::c_int {
    let f = &mut *(d as *mut Find);
    let i = &*i;
    let mut text = Vec::new();
    let mut rw = Vec::new();
    let mut mine = false;
    let mut relro = 0;
    for k in 0..i.dlpi_phnum {
        let p = &*i.dlpi_phdr.add(k as usize);
        let lo = i.dlpi_addr as usize + p.p_vaddr as usize;
        let hi = lo + p.p_memsz as usize;
        if p.p_type == libc::PT_GNU_RELRO {
            relro = hi;
        }
        if p.p_type != libc::PT_LOAD {
            continue;
        }
        if (lo..hi).contains(&f.want) {
            mine = true;
        }
        if p.p_flags & libc::PF_X != 0 {
            text.push((lo, hi));
        }
        if p.p_flags & libc::PF_W != 0 {
            rw.push((lo, hi));
        }
    }
    if mine {
        f.base = i.dlpi_addr as usize;
        f.text = text;
        f.rw = rw;
        f.relro = relro;
        return 1;
    }
    0
}
fn infra(msg: String) -> ! {
    eprintln!("simulator: {msg}");
    unsafe { libc::_exit(INFRA) }
}
fn load(env: &str, default: &str, deep: bool) -> Lib {
    load_with(env, default, deep, "PartialPosition_startpos")
}
/// `export`: any function the library exports
fn load_with(env: &str, default: &str, deep: bool, export: &str) -> Lib {
    let path = std::env::var(env).unwrap_or_else(|_| default.into());
    unsafe {
        let c = CString::new(path.clone()).unwrap();
        let h = libc::dlopen(c.as_ptr(), libc::RTLD_NOW | libc::RTLD_LOCAL | if deep { libc::RTLD_DEEPBIND } else { 0 });
        if h.is_null() {
            let e = std::ffi::CStr::from_ptr(libc::dlerror());
            infra(format!("dlopen {path}: {e:?}"));
        }
        let want = sym(h, export) as usize;
        let mut f = Find { want, base: 0, text: Vec::new(), rw: Vec::new(), relro: 0 };
        libc::dl_iterate_phdr(Some(phdr), &mut f as *mut Find as *mut c_void);
        if f.text.is_empty() {
            infra(format!("no code segment found for {path}"));
        }
        let lo = f.rw.iter().map(|x| x.0).filter(|&x| x + 1 > f.relro & !4095).min().unwrap_or(0) & !4095;
        let lo = lo.max(f.relro & !4095);
        let hi = (f.rw.iter().map(|x| x.1).max().unwrap_or(0) + 4095) & !4095;
        let pages = if lo < hi && (hi - lo) / 4096 <= WPAGES { (lo, hi) } else { (0, 0) };
        Lib { h, base: f.base, text: f.text, rw: f.rw, pages }
    }
}
fn load_std() -> Lib {
    load("SIM_SO_STD", "/verif/target/so/libshogi_core_c_std.so", false)
}
fn load_nostd(deep: bool) -> Lib {
    load("SIM_SO_NOSTD", "/verif/target/so/libshogi_core_c_nostd.so", deep)
}
fn load_core(deep: bool) -> Lib {
    load("SIM_SO_CORE", "/verif/target/so/libshogi_core_c_core.so", deep)
}

// ------------------------------------------------------------------------------------------------- stepped execution

const MAXP: usize = 6;
#[derive(Clone, Copy)]
struct Step {
    on: bool,
    left: u32,
    plan: [u32; MAXP],
    n: usize,
    i: usize,
}
static mut STEP: Step = Step { on: false, left: 0, plan: [0; MAXP], n: 0, i: 0 };
static mut TEXT: (usize, usize) = (0, 0);
static mut BASE: usize = 0;
static mut IN_CALL: [bool; 16] = [false; 16];
static mut STALL_REQ: bool = false;
const TF: i64 = 0x100;

#[inline(always)]
unsafe fn tf_on() {
    std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq");
}
#[inline(always)]
unsafe fn tf_off() {
    std::arch::asm!("pushfq", "and qword ptr [rsp], 0xfffffffffffffeff", "popfq");
}

/// Watching: the library's static data is inaccessible while a call runs; every access to it faults, which gives
/// scheduling points exactly before and after each access to state that threads may share.
const WPAGES: usize = 512;
#[derive(Clone, Copy)]
struct Watch {
    on: bool,
    /// letting one instruction through
    pass: bool,
    num: u32,
    den: u32,
    left: u32,
    switches: u32,
    hits: [u8; WPAGES],
}
static mut WATCH: Watch = Watch { on: false, pass: false, num: 0, den: 1, left: 0, switches: 0, hits: [0; WPAGES] };
static mut PAGES: (usize, usize) = (0, 0);
static mut SHUT: bool = false;
/// Memory nobody may modify for now: (from, to, what it is)
static mut FROZEN: (usize, usize) = (0, 0);
const PAGE_HITS: u8 = 24;

unsafe fn shut(w: &Watch) {
    let n = (PAGES.1 - PAGES.0) / 4096;
    if w.left == 0 {
        return;
    }
    let mut i = 0;
    while i < n {
        let mut j = i;
        while j < n && w.hits[j] < PAGE_HITS {
            j += 1;
        }
        if j > i {
            libc::mprotect((PAGES.0 + i * 4096) as *mut c_void, (j - i) * 4096, libc::PROT_NONE);
            SHUT = true;
        }
        i = j + 1;
    }
}
unsafe fn unshut() {
    if SHUT {
        libc::mprotect(PAGES.0 as *mut c_void, PAGES.1 - PAGES.0, libc::PROT_READ | libc::PROT_WRITE);
        SHUT = false;
    }
}
unsafe fn watch_switch(ip: usize, before: bool) {
    let mut mine = WATCH;
    if mine.switches == 0 || !chance(mine.num, mine.den) {
        return;
    }
    mine.switches -= 1;
    WATCH.on = false;
    fault(K::fault_preemption);
    count(K::probe_switch_at_static_access);
    ev(10, ip.wrapping_sub(BASE) as u64, current() as u64);
    trace!("  thread {} suspended {} an access to static data at +{:#x}", current(), if before { "before" } else { "after" }, ip.wrapping_sub(BASE));
    if chance(1, 40) {
        STALL_REQ = true;
    }
    yield_now();
    trace!("  thread {} goes on at +{:#x}", current(), ip.wrapping_sub(BASE));
    WATCH = mine;
}

extern "C" fn on_segv(_s: libc::c_int, i: *mut libc::siginfo_t, u: *mut c_void) {
    unsafe {
        let c = &mut *(u as *mut libc::ucontext_t);
        let ip = c.uc_mcontext.gregs[libc::REG_RIP as usize] as usize;
        let a = (*i).si_addr() as usize;
        let tf = c.uc_mcontext.gregs[libc::REG_EFL as usize] & TF != 0;
        if WATCH.on && !WATCH.pass && !tf && a >= PAGES.0 && a < PAGES.1 && SHUT {
            unshut();
            sh().sim_time += 1;
            count(K::probe_static_access);
            WATCH.hits[(a - PAGES.0) / 4096] += 1;
            WATCH.left -= 1;
            watch_switch(ip, true);
            if WATCH.left == 0 {
                WATCH.on = false;
                return;
            }
            WATCH.pass = true;
            c.uc_mcontext.gregs[libc::REG_EFL as usize] |= TF;
            return;
        }
        if a >= FROZEN.0 && a < FROZEN.1 && current() != usize::MAX {
            WATCH.on = false;
            STEP.on = false;
            unshut();
            fail!("modified", "thread {}: a call writes to an object that it may only read (shared with other threads)", current());
        }
        libc::signal(libc::SIGSEGV, libc::SIG_DFL);
    }
}

extern "C" fn on_trap(_s: libc::c_int, _i: *mut libc::siginfo_t, u: *mut c_void) {
    unsafe {
        let c = &mut *(u as *mut libc::ucontext_t);
        if WATCH.on && WATCH.pass {
            c.uc_mcontext.gregs[libc::REG_EFL as usize] &= !TF;
            WATCH.pass = false;
            watch_switch(c.uc_mcontext.gregs[libc::REG_RIP as usize] as usize, false);
            shut(&*std::ptr::addr_of!(WATCH));
            return;
        }
        if !STEP.on {
            c.uc_mcontext.gregs[libc::REG_EFL as usize] &= !TF;
            return;
        }
        let ip = c.uc_mcontext.gregs[libc::REG_RIP as usize] as usize;
        if ip < TEXT.0 || ip >= TEXT.1 {
            return;
        }
        sh().sim_time += 1;
        STEP.left -= 1;
        if STEP.left > 0 {
            return;
        }
        // suspend the simulated thread here
        let mut mine = STEP;
        STEP.on = false;
        fault(K::fault_preemption);
        ev(9, (ip - BASE) as u64, current() as u64);
        trace!("  thread {} suspended inside the library at +{:#x}", current(), ip - BASE);
        if chance(1, 40) {
            STALL_REQ = true;
        }
        yield_now();
        trace!("  thread {} goes on at +{:#x}", current(), ip - BASE);
        mine.i += 1;
        if mine.i < mine.n {
            mine.left = mine.plan[mine.i];
        } else {
            mine.on = false;
            c.uc_mcontext.gregs[libc::REG_EFL as usize] &= !TF;
        }
        STEP = mine;
    }
}

fn install(lib: &Lib) {
    unsafe {
        TEXT = lib.text[0];
        for t in &lib.text {
            TEXT = (TEXT.0.min(t.0), TEXT.1.max(t.1));
        }
        BASE = lib.base;
        PAGES = lib.pages;
        let mut a: libc::sigaction = std::mem::zeroed();
        a.sa_sigaction = on_trap as usize;
        a.sa_flags = libc::SA_SIGINFO | libc::SA_NODEFER;
        libc::sigaction(libc::SIGTRAP, &a, std::ptr::null_mut());
        a.sa_sigaction = on_segv as usize;
        libc::sigaction(libc::SIGSEGV, &a, std::ptr::null_mut());
    }
}

/// Call into the library from a simulated thread; `size` is the order of magnitude of the call in instructions.
#[inline(never)]
fn call<R>(size: u32, f: impl FnOnce() -> R) -> R {
    count(K::probe_c_call);
    sh().steps += 1;
    unsafe {
        let me = current();
        if me == usize::MAX {
            return f();
        }
        if IN_CALL.iter().any(|&x| x) {
            count(K::probe_concurrent_overlap);
        }
        let long = size > 200;
        // how the call is scheduled: undisturbed or stepped (below), or at its accesses to static data
        if PAGES.1 > 0 && draw(2) == 1 {
            let (num, den) = [(1, 2), (1, 4), (1, 12), (3, 4)][draw(4) as usize];
            WATCH = Watch { on: true, pass: false, num, den, left: 120, switches: 1 + draw(12), hits: [0; WPAGES] };
            IN_CALL[me & 15] = true;
            shut(&*std::ptr::addr_of!(WATCH));
            let before = sh().counters[K::fault_preemption as usize];
            let r = f();
            unshut();
            WATCH.on = false;
            if sh().counters[K::fault_preemption as usize] != before {
                count(K::probe_c_call_preempted);
            }
            IN_CALL[me & 15] = false;
            if chance(1, 3) {
                yield_now();
            }
            return r;
        }
        // single-stepping is slow: long calls are mostly suspended near their start, but anywhere now and then
        let n = if long { [0usize, 0, 0, 1, 1, 2, 3, MAXP][draw(8) as usize] } else { [0usize, 1, 1, 2, 3, MAXP][draw(6) as usize] };
        let mut s = Step { on: n > 0, left: 0, plan: [0; MAXP], n, i: 0 };
        for k in 0..n {
            s.plan[k] = 1 + match draw(6) {
                0 => draw(3),
                1 if !long => draw(4 * size),
                1 => draw(2 * size),
                2 | 3 if long => draw(40),
                4 if long => draw(200),
                _ => draw(size),
            };
        }
        s.left = s.plan[0];
        IN_CALL[me & 15] = true;
        let r;
        if n > 0 {
            STEP = s;
            tf_on();
            r = f();
            tf_off();
            if STEP.i > 0 {
                count(K::probe_c_call_preempted);
            }
            STEP.on = false;
        } else {
            r = f();
        }
        IN_CALL[me & 15] = false;
        if chance(1, 3) {
            yield_now();
        }
        r
    }
}

/// Run the simulated threads; one that asked to be stalled goes on only when all others are done.
fn run_threads(tasks: &mut Tasks) {
    let mut n = 0u64;
    // priorities make long undisturbed stretches as likely as fine interleavings
    let sticky = draw(4);
    let mut last = usize::MAX;
    loop {
        let pend = tasks.pending();
        if pend.is_empty() {
            return;
        }
        let mut ready: Vec<usize> = pend.iter().copied().filter(|&i| !tasks.stalled[i]).collect();
        if ready.is_empty() {
            trace!("only stalled threads are left");
            ready = pend;
        }
        let i = if sticky > 0 && ready.contains(&last) && chance(sticky, 4) { last } else { ready[draw(ready.len() as u32) as usize] };
        last = i;
        unsafe { STALL_REQ = false };
        let done = tasks.resume(i);
        if !done && unsafe { STALL_REQ } {
            tasks.stalled[i] = true;
            fault(K::fault_stalled_thread);
            trace!("  thread {i} is stalled");
        }
        n += 1;
        check!(n < 200_000, "no-progress", "threads did not complete within {n} slices");
    }
}

// ------------------------------------------------------------------------------------------------------------- C08

const ARENA: usize = 128 * 1024;

#[derive(Clone)]
struct Blk {
    addr: usize,
    size: usize,
    align: usize,
    pat: u32,
    live: bool,
    owner: usize,
}
struct Refused {
    size: usize,
    align: usize,
    used: usize,
    opened: usize, // requests made up to this moment
    overlapping: Vec<usize>,
}
struct W8 {
    lib: Lib,
    f: Fns,
    k: Hooks,
    blocks: Vec<Blk>,
    // requests by id: charge when successful (0 until known / refused)
    req: Vec<usize>,
    req_open: Vec<bool>,
    req_block: Vec<(usize, usize)>, // what it was given
    arena: Option<(usize, usize, bool)>, // where the arena lies and whether it is handed out from the top
    used: usize,
    live_pos: Vec<usize>,
    planned: usize, // everything ever asked for that the arena might grant
    refused: Vec<Refused>,
    sizes: u32,
}
impl W8 {
    fn room(&self) -> usize {
        ARENA.saturating_sub(self.used)
    }
    /// In runs with positions the arena must never run out under them: that means an endless loop by design
    /// (no_std.rs: error_handler).  Requests that cannot ever be granted need no reservation.
    fn reserve(&mut self, size: usize, align: usize) -> bool {
        if size > ARENA || align > 4096 {
            return true;
        }
        if self.planned + size + align - 1 > ARENA - 60_000 {
            return false;
        }
        self.planned += size + align - 1;
        true
    }
    fn byte(pat: u32, i: usize) -> u8 {
        (pat.wrapping_mul(0x9e37_79b9).wrapping_add(i as u32).wrapping_mul(0x85eb_ca6b) >> 24) as u8
    }
    fn fill(&mut self, b: usize) {
        let k = self.blocks[b].clone();
        unsafe {
            for i in 0..k.size {
                *((k.addr + i) as *mut u8) = Self::byte(k.pat, i);
            }
        }
    }
    fn verify(&self, b: usize, n: usize, at: usize, what: &str) {
        let k = &self.blocks[b];
        unsafe {
            for i in 0..n {
                let got = *((at + i) as *const u8);
                if got != Self::byte(k.pat, i) {
                    fail!(
                        "contents-changed",
                        "{what}: byte {i} of the block of {} bytes at arena offset {:#x} owned by thread {} no longer has the value its owner wrote",
                        k.size,
                        k.addr - self.lib.base,
                        k.owner
                    );
                }
            }
        }
    }
    fn in_arena(&self, a: usize, n: usize) -> bool {
        self.lib.rw.iter().any(|&(lo, hi)| a >= lo && a + n <= hi)
    }
    fn disjoint(&self, addr: usize, size: usize, except: usize, who: &str) {
        for (i, b) in self.blocks.iter().enumerate() {
            if b.live && i != except && addr < b.addr + b.size && b.addr < addr + size {
                fail!(
                    "overlap",
                    "{who} was given {size} bytes at library offset {:#x}, which overlap the live block of {} bytes at {:#x} of thread {}",
                    addr - self.lib.base,
                    b.size,
                    b.addr - self.lib.base,
                    b.owner
                );
            }
        }
    }
    fn open(&mut self) -> usize {
        self.req.push(0);
        self.req_open.push(true);
        self.req_block.push((0, 0));
        self.req.len() - 1
    }
    fn close(&mut self, id: usize, p: usize, size: usize, align: usize) {
        self.req_open[id] = false;
        if p != 0 {
            self.req[id] = size + align - 1;
            self.used += size + align - 1;
            self.req_block[id] = (p, size);
            return;
        }
        count(K::probe_block_refused);
        fault(K::fault_refused_alloc);
        if align <= 4096 {
            let overlapping = (0..self.req.len()).filter(|&i| self.req_open[i]).collect();
            self.refused.push(Refused { size, align, used: self.used, opened: self.req.len(), overlapping });
        }
    }
    /// Two first blocks, one after the other: they show where the arena lies.
    fn probe_arena(&mut self) {
        let mut b = [(0, 0); 2];
        for b in &mut b {
            let size = 1 + draw(40) as usize;
            let id = self.open();
            let p = (self.k.alloc)(size, 1) as usize;
            self.close(id, p, size, 1);
            check!(p != 0, "refused-with-room", "the arena is untouched and {size} bytes are refused");
            let n = self.got(p, size, 1, 97, usize::MAX);
            self.fill(n);
            *b = (p, p + size);
        }
        self.arena = if b[1].1 == b[0].0 {
            Some((b[0].1 - ARENA, b[0].1, true))
        } else if b[0].1 == b[1].0 {
            Some((b[0].0, b[0].0 + ARENA, false))
        } else {
            None
        };
    }
    /// The part of the arena that no request made before `opened` can have had anything of.
    fn untouched(&self, opened: usize) -> Option<(usize, usize)> {
        let (lo, hi, down) = self.arena?;
        let given = || self.req_block[..opened].iter().filter(|b| b.0 != 0);
        if down {
            Some((lo, given().map(|b| b.0).min().unwrap_or(hi)))
        } else {
            Some((given().map(|b| b.0 + b.1).max().unwrap_or(lo), hi))
        }
    }
    fn got(&mut self, p: usize, size: usize, align: usize, me: usize, except: usize) -> usize {
        let who = format!("thread {me}");
        count(K::probe_block_allocated);
        if align > 16 {
            count(K::probe_aligned_block);
        }
        if size < 4 {
            count(K::probe_zst_or_tiny);
        }
        check!(p % align == 0, "misaligned", "{who} asked for {size} bytes aligned to {align} and was given library offset {:#x}", p.wrapping_sub(self.lib.base));
        check!(self.in_arena(p, size), "outside-arena", "{who} was given {size} bytes outside the library's writable memory (library offset {:#x})", p.wrapping_sub(self.lib.base));
        self.disjoint(p, size, except, &who);
        let pat = draw32();
        self.blocks.push(Blk { addr: p, size, align, pat, live: true, owner: me });
        self.blocks.len() - 1
    }
    fn layout(&self, small: bool) -> (usize, usize) {
        let room = self.room() as u32;
        let size = match (draw(8), small, self.sizes) {
            (0..=2, _, _) | (_, true, _) => 1 + draw(64),
            (3 | 4, _, _) => 1 + draw(700),
            (5, _, s) if s > 0 => 1 + draw(8000),
            (6, _, s) if s > 0 => (room.saturating_sub(draw(300)) / (1 + draw(4))).max(1),
            (7, _, s) if s > 1 => match draw(3) {
                0 => return (pick(&[ARENA, ARENA + 1, ARENA - 1, 1 << 20, 1 << 31, (1usize << 62), (1usize << 63) - 4096]), 1usize << draw(13)),
                1 => return (1 + draw(100) as usize, 4096usize << (1 + draw(5))),
                _ => 1 + draw(40000),
            },
            _ => 1 + draw(200),
        };
        let align = match draw(4) {
            0 | 1 => 1usize << draw(4),
            2 => 1usize << draw(8),
            _ => 1usize << draw(13),
        };
        (size as usize, align)
    }
}

fn c08_thread(w: *mut W8, me: usize, ops: u32, positions: bool) {
    // only one simulated thread runs at a time; every borrow of the world ends before a call into the library
    macro_rules! w {
        () => {
            unsafe { &mut *w }
        };
    }
    let mut mine: Vec<usize> = Vec::new();
    let mut pos: Option<(PM, MPos)> = None;
    for _ in 0..ops {
        let op = weighted(&[36, 14, 14, 10, 8, if positions { 14 } else { 0 }]);
        match op {
            0 | 1 => {
                let (size, align) = w!().layout(op == 1 && draw(4) != 0);
                if positions && !w!().reserve(size, align) {
                    continue;
                }
                let id = w!().open();
                trace!("thread {me}: {} {size} align {align}", if op == 1 { "alloc_zeroed" } else { "alloc" });
                let f = if op == 1 { w!().k.zeroed } else { w!().k.alloc };
                let p = call(30, || f(size, align)) as usize;
                w!().close(id, p, size, align);
                ev(20, p.wrapping_sub(w!().lib.base) as u64 & 0xff_ffff, size as u64);
                trace!("thread {me}: -> {}", off(p, w!().lib.base));
                if p != 0 {
                    let b = w!().got(p, size, align, me, usize::MAX);
                    if op == 1 {
                        for i in 0..size {
                            let v = unsafe { *((p + i) as *const u8) };
                            check!(v == 0, "not-zeroed", "thread {me}: byte {i} of a zero-allocated block of {size} bytes is {v}");
                        }
                    }
                    w!().fill(b);
                    mine.push(b);
                }
            }
            2 if !mine.is_empty() => {
                let mi = draw(mine.len() as u32) as usize;
                let b = mine[mi];
                let k = w!().blocks[b].clone();
                let new = match draw(4) {
                    0 => 1 + draw(k.size.min(1 << 20) as u32) as usize,
                    1 => k.size + draw(64) as usize,
                    2 => k.size + draw(500) as usize,
                    _ => w!().layout(false).0,
                };
                if new > (1usize << 62) || (positions && !w!().reserve(new, k.align)) {
                    continue;
                }
                w!().blocks[b].live = false;
                let id = w!().open();
                trace!("thread {me}: realloc {} from {} to {new} align {}", off(k.addr, w!().lib.base), k.size, k.align);
                let f = w!().k.realloc;
                let p = call(60, || f(k.addr as *mut u8, k.size, k.align, new)) as usize;
                w!().close(id, p, new, k.align);
                ev(21, p.wrapping_sub(w!().lib.base) as u64 & 0xff_ffff, new as u64);
                trace!("thread {me}: -> {}", off(p, w!().lib.base));
                if p == 0 {
                    w!().disjoint(k.addr, k.size, b, &format!("thread {me} (keeping its block after a refused realloc)"));
                    w!().blocks[b].live = true;
                    w!().verify(b, k.size, k.addr, "after a refused realloc");
                } else {
                    let nb = w!().got(p, new, k.align, me, b);
                    w!().verify(b, k.size.min(new), p, "realloc did not carry the contents over");
                    w!().fill(nb);
                    mine[mi] = nb;
                }
            }
            3 if !mine.is_empty() => {
                let b = mine.swap_remove(draw(mine.len() as u32) as usize);
                let k = w!().blocks[b].clone();
                w!().verify(b, k.size, k.addr, "before freeing");
                w!().blocks[b].live = false;
                trace!("thread {me}: dealloc {}", off(k.addr, w!().lib.base));
                let f = w!().k.dealloc;
                call(6, || f(k.addr as *mut u8, k.size, k.align));
            }
            4 => {
                for &b in &mine {
                    let k = w!().blocks[b].clone();
                    w!().verify(b, k.size, k.addr, "while other threads run");
                }
            }
            5 => {
                // grow a recorded position on the same arena
                if w!().planned + 7000 > ARENA {
                    continue;
                }
                count(K::probe_lib_position);
                match &mut pos {
                    None => {
                        let id = w!().open();
                        w!().req[id] = 6000;
                        w!().used += 6000;
                        w!().planned += 6000;
                        let f = w!().f.Position_startpos;
                        let p = call(1500, || f());
                        w!().req_open[id] = false;
                        trace!("thread {me}: Position_startpos -> {}", off(p as usize, w!().lib.base));
                        check!(w!().in_arena(p as usize, 8), "outside-arena", "thread {me}: Position_startpos returned memory outside the library");
                        check!(p as usize % 8 == 0, "misaligned", "thread {me}: Position_startpos returned a misaligned position");
                        w!().disjoint(p as usize, 8, usize::MAX, &format!("thread {me} (Position_startpos)"));
                        pos = Some((p, MPos::startpos()));
                    }
                    Some((p, m)) => {
                        let p = *p;
                        if draw(8) == 7 {
                            let f = w!().f.Position_destruct;
                            trace!("thread {me}: Position_destruct");
                            call(20, || f(p));
                            pos = None;
                            continue;
                        }
                        let Some(mv) = gen_sensible(m) else { continue };
                        let id = w!().open();
                        w!().req[id] = 64 + m.ply as usize;
                        w!().used += 64 + m.ply as usize;
                        w!().planned += 64 + m.ply as usize;
                        let f = w!().f.Position_make_compact_move;
                        trace!("thread {me}: Position_make_compact_move {}", mv.usi());
                        let r = call(300, || f(p, mv.compact()));
                        w!().req_open[id] = false;
                        check!(r == 1, "wrong-result", "thread {me}: Position_make_compact_move {} returned {r}", mv.usi());
                        m.step(mv);
                        check_position(&w!().f, p, m, me);
                    }
                }
            }
            _ => {}
        }
    }
    for &b in &mine {
        let k = w!().blocks[b].clone();
        w!().verify(b, k.size, k.addr, "when its thread ends");
    }
    if let Some((p, m)) = pos {
        check_position(&w!().f, p, &m, me);
    }
}
/// Threads that do nothing but take and release objects of one size: what an allocator that reuses memory keeps
/// of released ones goes round and round, so that a suspended thread can find the very object it looked at again.
fn c08_recycler(w: *mut W8, me: usize, ops: u32, layout: (usize, usize), positions: bool, start: Vec<usize>) {
    macro_rules! w {
        () => {
            unsafe { &mut *w }
        };
    }
    // held objects, oldest first: block numbers, or positions with what was played on them
    let mut mine: Vec<usize> = start;
    let mut pos: Vec<(PM, MPos)> = Vec::new();
    let fifo = draw(3);
    for _ in 0..ops {
        let held = mine.len() + pos.len();
        if held > 0 && draw(5) < 2 + held as u32 / 2 {
            // the oldest or the newest
            let oldest = match fifo {
                0 => true,
                1 => false,
                _ => draw(2) == 0,
            };
            if !pos.is_empty() && (mine.is_empty() || draw(3) > 0) {
                let (p, m) = if oldest { pos.remove(0) } else { pos.pop().unwrap() };
                check_position(&w!().f, p, &m, me);
                w!().live_pos.retain(|&x| x != p as usize);
                trace!("thread {me}: Position_destruct {}", off(p as usize, w!().lib.base));
                let f = w!().f.Position_destruct;
                call(30, || f(p));
            } else {
                let b = if oldest { mine.remove(0) } else { mine.pop().unwrap() };
                let k = w!().blocks[b].clone();
                w!().verify(b, k.size, k.addr, "before freeing");
                w!().blocks[b].live = false;
                trace!("thread {me}: dealloc {}", off(k.addr, w!().lib.base));
                let f = w!().k.dealloc;
                call(10, || f(k.addr as *mut u8, k.size, k.align));
            }
            continue;
        }
        if held > 5 {
            continue;
        }
        if positions && draw(4) > 0 {
            if w!().planned + 7000 > ARENA {
                continue;
            }
            if let Some(x) = c08_take_position(w!(), me) {
                pos.push(x);
            }
            continue;
        }
        let (size, align) = layout;
        if positions && !w!().reserve(size, align) {
            continue;
        }
        let id = w!().open();
        trace!("thread {me}: alloc {size} align {align}");
        let f = w!().k.alloc;
        let p = call(30, || f(size, align)) as usize;
        w!().close(id, p, size, align);
        ev(20, p.wrapping_sub(w!().lib.base) as u64 & 0xff_ffff, size as u64);
        trace!("thread {me}: -> {}", off(p, w!().lib.base));
        if p != 0 {
            let b = w!().got(p, size, align, me, usize::MAX);
            w!().fill(b);
            mine.push(b);
        }
    }
    for &b in &mine {
        let k = w!().blocks[b].clone();
        w!().verify(b, k.size, k.addr, "when its thread ends");
    }
    for (p, m) in &pos {
        check_position(&w!().f, *p, m, me);
    }
}
/// A new position, with a few moves played on it to tell it from others.
fn c08_take_position(w: &mut W8, me: usize) -> Option<(PM, MPos)> {
    count(K::probe_lib_position);
    let id = w.open();
    w.req[id] = 6000;
    w.used += 6000;
    w.planned += 6000;
    let f = w.f.Position_startpos;
    let p = call(if draw(2) == 0 { 40 } else { 1500 }, || f());
    w.req_open[id] = false;
    trace!("thread {me}: Position_startpos -> {}", off(p as usize, w.lib.base));
    check!(w.in_arena(p as usize, 8), "outside-arena", "thread {me}: Position_startpos returned memory outside the library");
    check!(p as usize % 8 == 0, "misaligned", "thread {me}: Position_startpos returned a misaligned position");
    check!(!w.live_pos.contains(&(p as usize)), "overlap", "thread {me}: Position_startpos returned a position that is still in use");
    w.disjoint(p as usize, 8, usize::MAX, &format!("thread {me} (Position_startpos)"));
    w.live_pos.push(p as usize);
    let mut m = MPos::startpos();
    for _ in 0..draw(3) {
        let Some(mv) = gen_sensible(&m) else { break };
        let r = (w.f.Position_make_compact_move)(p, mv.compact());
        check!(r == 1, "wrong-result", "thread {me}: Position_make_compact_move {} returned {r}", mv.usi());
        m.step(mv);
    }
    Some((p, m))
}
fn c08_storm(w: &mut W8, positions: bool) {
    let layout = match draw(4) {
        0 => (std::mem::size_of::<shogi_core::Position>(), std::mem::align_of::<shogi_core::Position>()),
        1 => (8 << draw(8), 8),
        2 => (1 + draw(700) as usize, 1 << draw(5)),
        _ => (16 + draw(64) as usize, 8),
    };
    trace!("objects of {} bytes aligned to {} are taken and released{}", layout.0, layout.1, if positions { ", and positions" } else { "" });
    let n = 2 + draw(2);
    let wp: *mut W8 = w;
    // some objects exist before, held by a thread or released already
    let mut held: Vec<Vec<usize>> = vec![Vec::new(); n as usize];
    let mut gone = Vec::new();
    for _ in 0..draw(6) {
        if positions && !w.reserve(layout.0, layout.1) {
            break;
        }
        let id = w.open();
        let p = (w.k.alloc)(layout.0, layout.1) as usize;
        w.close(id, p, layout.0, layout.1);
        if p == 0 {
            break;
        }
        let who = draw(2 * n) as usize;
        let b = w.got(p, layout.0, layout.1, if who < held.len() { who } else { 96 }, usize::MAX);
        w.fill(b);
        trace!("a first object at {}{}", off(p, w.lib.base), if who < held.len() { "" } else { ", to be released" });
        if who < held.len() {
            held[who].push(b);
        } else {
            gone.push(b);
        }
    }
    for b in gone {
        let k = w.blocks[b].clone();
        w.blocks[b].live = false;
        (w.k.dealloc)(k.addr as *mut u8, k.size, k.align);
    }
    if positions {
        let mut first = Vec::new();
        for _ in 0..1 + draw(3) {
            if let Some(x) = c08_take_position(w, 96) {
                first.push(x);
            }
        }
        for (p, _) in first {
            w.live_pos.retain(|&x| x != p as usize);
            (w.f.Position_destruct)(p);
        }
    }
    let mut tasks = Tasks::new();
    for (me, start) in held.into_iter().enumerate() {
        let ops = 3 + draw(10);
        tasks.spawn(Box::new(move || c08_recycler(wp, me, ops, layout, positions, start)));
    }
    run_threads(&mut tasks);
}
fn off(p: usize, base: usize) -> String {
    if p == 0 {
        "refused".into()
    } else {
        format!("+{:#x}", p.wrapping_sub(base))
    }
}
/// A position kept in the library's arena still is what its owner played (the calls here are not pre-empted).
fn check_position(f: &Fns, p: PM, m: &MPos, me: usize) {
    let mut buf = [0u8; 2200];
    (f.Position_to_sfen_c)(p, buf.as_mut_ptr());
    let n = buf.iter().position(|&c| c == 0).unwrap_or(0);
    let t = String::from_utf8_lossy(&buf[..n]).into_owned();
    check!(t == m.sfen(), "contents-changed", "thread {me}: its recorded position reads {t}, expected {}", m.sfen());
    check!(
        (f.Position_last_compact_move)(p) == m.last.map_or(0, |x| x.compact()),
        "contents-changed",
        "thread {me}: its recorded position reports another last move"
    );
}

pub fn c08() {
    let lib = load_nostd(draw(2) == 1);
    install(&lib);
    let (f, k) = unsafe {
        let f = Fns::load(lib.h);
        let h = |n: &str| -> *mut c_void {
            let c = CString::new(n).unwrap();
            let p = libc::dlsym(lib.h, c.as_ptr());
            if p.is_null() {
                infra(format!("the no-std library lacks the hook {n}"));
            }
            p
        };
        let k = Hooks {
            alloc: std::mem::transmute(h("shogi_sim_alloc")),
            zeroed: std::mem::transmute(h("shogi_sim_alloc_zeroed")),
            dealloc: std::mem::transmute(h("shogi_sim_dealloc")),
            realloc: std::mem::transmute(h("shogi_sim_realloc")),
        };
        (f, k)
    };
    let sizes = draw(3);
    let mut w = W8 { lib, f, k, blocks: Vec::new(), req: Vec::new(), req_open: Vec::new(), req_block: Vec::new(), arena: None, used: 0, planned: 0, live_pos: Vec::new(), refused: Vec::new(), sizes };
    // start near exhaustion, now and then
    let positions = draw(3) == 2;
    if !positions && draw(3) != 0 {
        w.probe_arena();
    }
    if !positions && draw(3) == 2 {
        let left = [20, 200, 2000, 9000][draw(4) as usize] + draw(200) as usize;
        let size = (ARENA - left).min(w.room());
        let id = w.open();
        let p = (w.k.alloc)(size, 1) as usize;
        w.close(id, p, size, 1);
        trace!("initial block of {size}: {}", off(p, w.lib.base));
        if p != 0 {
            let b = w.got(p, size, 1, 99, usize::MAX);
            w.fill(b);
        }
        count(K::fault_arena_exhausted);
    }
    let wp: *mut W8 = &mut w;
    if draw(4) == 3 {
        c08_storm(unsafe { &mut *wp }, positions);
    } else {
        let n = 1 + draw(5);
        let mut tasks = Tasks::new();
        for me in 0..n {
            let ops = 2 + draw(16);
            tasks.spawn(Box::new(move || c08_thread(wp, me as usize, ops, positions)));
        }
        run_threads(&mut tasks);
    }
    let w = unsafe { &mut *wp };
    for b in 0..w.blocks.len() {
        if w.blocks[b].live {
            let k = w.blocks[b].clone();
            w.verify(b, k.size, k.addr, "at the end");
        }
    }
    for r in &w.refused {
        let used = r.used + r.overlapping.iter().map(|&i| w.req[i]).sum::<usize>();
        if used + r.size.saturating_add(r.align - 1) <= ARENA {
            fail!(
                "refused-with-room",
                "a request for {} bytes aligned to {} was refused although at most {used} of the {ARENA} bytes of the arena could be in use",
                r.size,
                r.align
            );
        }
        if let Some((lo, hi)) = w.untouched(r.opened) {
            let at = (lo + r.align - 1) & !(r.align - 1);
            if at < hi && r.size <= hi - at {
                fail!(
                    "refused-with-room",
                    "a request for {} bytes aligned to {} was refused although {} contiguous bytes of the arena, from {} on, had never been handed out",
                    r.size,
                    r.align,
                    hi - lo,
                    off(lo, w.lib.base)
                );
            }
        }
    }
    // what refusals and alignment cannot have used is still there
    let room = match w.untouched(w.req.len()) {
        Some((lo, hi)) if !positions => hi - lo,
        _ => w.room(),
    };
    if room > 0 {
        let size = if draw(2) == 0 { room } else { 1 + draw(room as u32) as usize };
        let p = (w.k.alloc)(size, 1) as usize;
        trace!("final block of {size}: {}", off(p, w.lib.base));
        check!(p != 0, "refused-with-room", "after all threads finished, {size} bytes are refused although {room} must be free");
        let b = w.got(p, size, 1, 98, usize::MAX);
        w.fill(b);
        for i in 0..w.blocks.len() {
            if w.blocks[i].live {
                let k = w.blocks[i].clone();
                w.verify(i, k.size, k.addr, "after the final block was written");
            }
        }
    }
    state(mix(w.used as u64));
}

// ------------------------------------------------------------------------------------------------------------- C09

/// Memory given to the library, between guards.
struct Guarded {
    base: *mut u8,
    size: usize,
    /// bytes mapped for it alone, or 0
    own: usize,
}
const GUARD: usize = 64;
impl Guarded {
    fn new(size: usize) -> Guarded {
        unsafe {
            let l = std::alloc::Layout::from_size_align(size + 2 * GUARD, 64).unwrap();
            let base = std::alloc::alloc(l);
            std::ptr::write_bytes(base, 0xa5, size + 2 * GUARD);
            Guarded { base, size, own: 0 }
        }
    }
    /// On pages of its own, which can be made read-only.
    fn new_page(size: usize) -> Guarded {
        unsafe {
            let own = (size + 2 * GUARD + 4095) & !4095;
            let base = libc::mmap(std::ptr::null_mut(), own, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0) as *mut u8;
            assert!(base as isize != -1);
            std::ptr::write_bytes(base, 0xa5, size + 2 * GUARD);
            Guarded { base, size, own }
        }
    }
    fn freeze(&self, on: bool) {
        unsafe {
            libc::mprotect(self.base as *mut c_void, self.own, if on { libc::PROT_READ } else { libc::PROT_READ | libc::PROT_WRITE });
            FROZEN = if on { (self.base as usize, self.base as usize + self.own) } else { (0, 0) };
        }
    }
    fn p(&self) -> *mut u8 {
        unsafe { self.base.add(GUARD) }
    }
    fn bytes(&self) -> Vec<u8> {
        unsafe { std::slice::from_raw_parts(self.p(), self.size).to_vec() }
    }
    fn check(&self, what: &str) {
        unsafe {
            for i in (0..GUARD).chain(GUARD + self.size..2 * GUARD + self.size) {
                if *self.base.add(i) != 0xa5 {
                    fail!("wrote-outside", "{what}: a byte {} the object passed was overwritten", if i < GUARD { "before" } else { "after" });
                }
            }
        }
    }
}
impl Drop for Guarded {
    fn drop(&mut self) {
        if self.own > 0 {
            unsafe { libc::munmap(self.base as *mut c_void, self.own) };
            return;
        }
        unsafe { std::alloc::dealloc(self.base, std::alloc::Layout::from_size_align(self.size + 2 * GUARD, 64).unwrap()) }
    }
}

struct W9 {
    lib: Lib,
    f: Fns,
    spp: Guarded,
    spp_m: MPos,
    spp_bytes: Vec<u8>,
    sp: PM,
    sp_m: MPos,
    sp_init: MPos,
    /// the library lays games out like the simulator's own copy of the crate
    games_ok: bool,
    /// the library without `alloc`
    core: bool,
    /// are there shared objects?
    started: bool,
    mem: Option<Mem>,
}
struct Mem {
    memcpy: extern "C" fn(*mut u8, *const u8, usize) -> *mut u8,
    memset: extern "C" fn(*mut u8, i32, usize) -> *mut u8,
    memcmp: extern "C" fn(*const u8, *const u8, usize) -> i32,
    bzero: extern "C" fn(*mut u8, usize),
}

/// Games live on the Rust side of a program (C has no way to create one); C code is handed pointers to them.
struct Games {
    p: Box<PartialGame>,
    g: Box<Game>,
    gm: MPos,
    res: [u8; 2],
}
impl Games {
    fn new() -> Games {
        // a game cannot be given a position: it stands at the start position
        Games { p: Box::new(PartialGame::default()), g: Box::new(Game::default()), gm: MPos::startpos(), res: [0; 2] }
    }
}
fn same_layout(f: &Fns) -> bool {
    let p = PartialGame::default();
    let g = Game::default();
    let pp = &p as *const PartialGame as PP;
    let gp = &g as *const Game as PP;
    (f.PartialGame_position)(pp) == p.position() as *const PartialPosition as PP && (f.Game_position)(gp) == g.position() as *const Position as PP
}
fn c09_games(f: &Fns, me: usize, g: &mut Games) {
    let pp = &mut *g.p as *mut PartialGame as PM;
    let gp = &mut *g.g as *mut Game as PM;
    match which(8) {
        0 => {
            let r = 1 + draw(5) as u8;
            call(4, || (f.PartialGame_resolve)(pp, r));
            g.res[0] = r;
        }
        1 => {
            let r = 1 + draw(5) as u8;
            call(4, || (f.Game_resolve)(gp, r));
            g.res[1] = r;
        }
        2 => {
            call(4, || (f.PartialGame_unresolve)(pp));
            g.res[0] = 0;
        }
        3 => {
            call(4, || (f.Game_unresolve)(gp));
            g.res[1] = 0;
        }
        4 => {
            let q = call(4, || (f.PartialGame_position)(pp));
            eq(me, format_args!("PartialGame_position"), q as usize, g.p.position() as *const PartialPosition as usize);
            query_partial(f, me, "PartialGame_position", q, &g.gm);
        }
        5 => {
            let q = call(4, || (f.Game_position)(gp));
            eq(me, format_args!("Game_position"), q as usize, g.g.position() as *const Position as usize);
            query_position(f, me, "Game_position", q, &g.gm, &g.gm);
        }
        6 => eq(me, format_args!("PartialGame_resolution"), call(4, || (f.PartialGame_resolution)(pp)), g.res[0]),
        _ => eq(me, format_args!("Game_resolution"), call(4, || (f.Game_resolution)(gp)), g.res[1]),
    }
    eq(me, format_args!("PartialGame_resolution after the call"), (f.PartialGame_resolution)(pp), g.res[0]);
    eq(me, format_args!("Game_resolution after the call"), (f.Game_resolution)(gp), g.res[1]);
    let got = observe(g.p.position());
    check!(got == g.gm, "wrong-result", "thread {me}: a call on a partial game changed its position: {}", outside(|| diff(&got, &g.gm)));
    let got = observe(g.g.position().inner());
    check!(got == g.gm, "wrong-result", "thread {me}: a call on a game changed its position: {}", outside(|| diff(&got, &g.gm)));
}
/// The memory functions the no-std library exports, on the thread's own buffers.
fn c09_memory(w: &W9, me: usize) {
    let Some(k) = &w.mem else { return };
    let n = match draw(5) {
        0 => draw(4),
        1 | 2 => draw(40),
        3 => draw(300),
        _ => 8 * draw(20),
    } as usize;
    let a = Guarded::new(n + 16);
    let b = Guarded::new(n + 16);
    let (oa, ob) = (draw(16) as usize, draw(16) as usize);
    let pat = draw32();
    let all = a.size;
    unsafe {
        for i in 0..all {
            *a.p().add(i) = W8::byte(pat, i);
            *b.p().add(i) = W8::byte(pat ^ 0x55, i);
        }
        let pa = a.p().add(oa);
        let pb = b.p().add(ob);
        match which(4) {
            0 => {
                let r = call(6 * n as u32 + 8, || (k.memcpy)(pa, pb, n));
                eq(me, format_args!("memcpy(.., {n})"), r as usize, pa as usize);
                for i in 0..all {
                    let want = if i >= oa && i < oa + n { W8::byte(pat ^ 0x55, ob + i - oa) } else { W8::byte(pat, i) };
                    check!(*a.p().add(i) == want, "wrong-result", "thread {me}: after memcpy of {n} bytes byte {} is wrong", i as i64 - oa as i64);
                }
            }
            1 => {
                let c = pick(&[0i32, 1, 127, 128, 255, 256, 0x1ff, -1]);
                let r = call(6 * n as u32 + 8, || (k.memset)(pa, c, n));
                eq(me, format_args!("memset(.., {c}, {n})"), r as usize, pa as usize);
                for i in 0..all {
                    let want = if i >= oa && i < oa + n { c as u8 } else { W8::byte(pat, i) };
                    check!(*a.p().add(i) == want, "wrong-result", "thread {me}: after memset of {n} bytes byte {} is wrong", i as i64 - oa as i64);
                }
            }
            2 => {
                call(6 * n as u32 + 8, || (k.bzero)(pa, n));
                for i in 0..all {
                    let want = if i >= oa && i < oa + n { 0 } else { W8::byte(pat, i) };
                    check!(*a.p().add(i) == want, "wrong-result", "thread {me}: after __bzero of {n} bytes byte {} is wrong", i as i64 - oa as i64);
                }
            }
            _ => {
                std::ptr::copy_nonoverlapping(pa, pb, n);
                if n > 0 && draw(4) != 0 {
                    *pb.add(draw(n as u32) as usize) = draw(256) as u8;
                }
                let r = call(8 * n as u32 + 8, || (k.memcmp)(pa, pb, n));
                let want = std::slice::from_raw_parts(pa, n).cmp(std::slice::from_raw_parts(pb, n)) as i32;
                eq(me, format_args!("the sign of memcmp(.., {n})"), r.signum(), want);
            }
        }
        a.check("a memory function");
        b.check("a memory function");
    }
}

fn eq<T: PartialEq + std::fmt::Debug>(me: usize, what: std::fmt::Arguments, got: T, want: T) {
    if got != want {
        fail!("wrong-result", "thread {me}: {what} returned {got:?}, expected {want:?}");
    }
}
fn eqset(me: usize, what: std::fmt::Arguments, got: B, want: u128) {
    let g = mset(got);
    if g != want {
        fail!("wrong-result", "thread {me}: {what} returned a set that differs from the expected one (got {g:#x}, expected {want:#x})");
    }
}
fn flip_set(a: u128) -> u128 {
    let mut r = 0;
    for s in 1..=81u8 {
        if a >> s & 1 != 0 {
            r |= 1u128 << (82 - s);
        }
    }
    r
}
/// Which function a thread calls next: drawn, or - when all threads start with the same function - prescribed.
static mut STORM: [u32; 16] = [u32::MAX; 16];
fn which(n: u32) -> u32 {
    let me = current();
    unsafe {
        if me < 16 && STORM[me] != u32::MAX {
            let v = STORM[me] % n;
            STORM[me] = u32::MAX;
            return v;
        }
    }
    draw(n)
}
fn opt(x: Option<u8>) -> u8 {
    x.unwrap_or(0)
}
fn gen_color() -> u8 {
    1 + draw(2) as u8
}
fn sfen_check(me: usize, what: &str, b: &Guarded, m: &MPos) {
    b.check(what);
    let v = b.bytes();
    let want = m.sfen();
    let n = v.iter().position(|&c| c == 0);
    let got = n.map(|n| String::from_utf8_lossy(&v[..n]).into_owned());
    if got.as_deref() != Some(&want) {
        fail!("wrong-result", "thread {me}: {what} wrote {got:?}, expected {want:?}");
    }
    if v[want.len() + 1..].iter().any(|&c| c != 0xa5) {
        fail!("wrote-outside", "thread {me}: {what} wrote past the terminating zero");
    }
}

/// One query on a partial position, against its model.
fn query_partial(f: &Fns, me: usize, who: &str, p: PP, m: &MPos) {
    match which(11) {
        0 => {
            let c = gen_color();
            let h = call(12, || (f.PartialPosition_hand_of_a_player)(p, c));
            eq(me, format_args!("PartialPosition_hand_of_a_player({who}, {c})"), mhand(h), m.hands[c as usize - 1]);
        }
        1 => eq(me, format_args!("PartialPosition_last_compact_move({who})"), call(6, || (f.PartialPosition_last_compact_move)(p)), m.last.map_or(0, |x| x.compact())),
        2 => eqset(me, format_args!("PartialPosition_occupied_bitboard({who})"), call(16, || (f.PartialPosition_occupied_bitboard)(p)), m.set_of(|x| x != 0)),
        3 => {
            let s = gen_sq();
            eq(me, format_args!("PartialPosition_piece_at({who}, {s})"), call(10, || (f.PartialPosition_piece_at)(p, s)), m.board[s as usize]);
        }
        4 => {
            let x = gen_piece();
            eqset(me, format_args!("PartialPosition_piece_bitboard({who}, {x})"), call(30, || (f.PartialPosition_piece_bitboard)(p, x)), m.set_of(|y| y == x));
        }
        5 => {
            let k = gen_kind();
            eqset(me, format_args!("PartialPosition_piece_kind_bitboard({who}, {k})"), call(16, || (f.PartialPosition_piece_kind_bitboard)(p, k)), m.set_of(|y| y != 0 && kind_of(y) == k));
        }
        6 => {
            let c = gen_color();
            eqset(me, format_args!("PartialPosition_player_bitboard({who}, {c})"), call(12, || (f.PartialPosition_player_bitboard)(p, c)), m.set_of(|y| y != 0 && color_of(y) == c));
        }
        7 => eq(me, format_args!("PartialPosition_ply({who})"), call(4, || (f.PartialPosition_ply)(p)), m.ply),
        8 => eq(me, format_args!("PartialPosition_side_to_move({who})"), call(4, || (f.PartialPosition_side_to_move)(p)), m.side),
        9 => {
            let b = Guarded::new(m.sfen().len() + 1 + draw(40) as usize);
            call(3000, || (f.PartialPosition_to_sfen_c)(p, b.p()));
            sfen_check(me, &format!("PartialPosition_to_sfen_c({who})"), &b, m);
        }
        _ => eqset(me, format_args!("PartialPosition_vacant_bitboard({who})"), call(20, || (f.PartialPosition_vacant_bitboard)(p)), m.set_of(|x| x == 0)),
    }
}
fn query_position(f: &Fns, me: usize, who: &str, p: PP, m: &MPos, init: &MPos) {
    match which(13) {
        0 => {
            let c = gen_color();
            let h = call(12, || (f.Position_hand_of_a_player)(p, c));
            eq(me, format_args!("Position_hand_of_a_player({who}, {c})"), mhand(h), m.hands[c as usize - 1]);
        }
        1 => eq(me, format_args!("Position_last_compact_move({who})"), call(10, || (f.Position_last_compact_move)(p)), m.last.map_or(0, |x| x.compact())),
        2 => eqset(me, format_args!("Position_occupied_bitboard({who})"), call(16, || (f.Position_occupied_bitboard)(p)), m.set_of(|x| x != 0)),
        3 => {
            let s = gen_sq();
            eq(me, format_args!("Position_piece_at({who}, {s})"), call(10, || (f.Position_piece_at)(p, s)), m.board[s as usize]);
        }
        4 => {
            let x = gen_piece();
            eqset(me, format_args!("Position_piece_bitboard({who}, {x})"), call(30, || (f.Position_piece_bitboard)(p, x)), m.set_of(|y| y == x));
        }
        5 => {
            let c = gen_color();
            eqset(me, format_args!("Position_player_bitboard({who}, {c})"), call(12, || (f.Position_player_bitboard)(p, c)), m.set_of(|y| y != 0 && color_of(y) == c));
        }
        6 => eq(me, format_args!("Position_ply({who})"), call(4, || (f.Position_ply)(p)), m.ply),
        7 => eq(me, format_args!("Position_side_to_move({who})"), call(4, || (f.Position_side_to_move)(p)), m.side),
        8 => {
            let b = Guarded::new(m.sfen().len() + 1 + draw(40) as usize);
            call(3000, || (f.Position_to_sfen_c)(p, b.p()));
            sfen_check(me, &format!("Position_to_sfen_c({who})"), &b, m);
        }
        9 => eqset(me, format_args!("Position_vacant_bitboard({who})"), call(20, || (f.Position_vacant_bitboard)(p)), m.set_of(|x| x == 0)),
        10 => {
            let q = call(4, || (f.Position_initial_position)(p));
            query_partial(f, me, &format!("Position_initial_position({who})"), q, init);
        }
        11 => {
            let q = call(4, || (f.Position_inner)(p));
            query_partial(f, me, &format!("Position_inner({who})"), q, m);
        }
        _ => {
            let q = call(4, || (f.Position_inner)(p));
            eq(me, format_args!("PartialPosition_last_compact_move(Position_inner({who}))"), call(6, || (f.PartialPosition_last_compact_move)(q)), m.last.map_or(0, |x| x.compact()));
        }
    }
}

fn c09_values(f: &Fns, me: usize) {
    let rel = |c: u8, x: u8| if c == 1 { x } else { 10 - x };
    match which(31) {
        0 => {
            let c = gen_color();
            eq(me, format_args!("Color_flip({c})"), call(4, || (f.Color_flip)(c)), 3 - c);
        }
        1 => {
            let (p, t) = (gen_piece(), gen_sq());
            eq(me, format_args!("CompactMove_drop({p}, {t})"), call(8, || (f.CompactMove_drop)(p, t)), MMove::Drop { piece: p, to: t }.compact());
        }
        2 => {
            let (a, b, p) = (gen_sq(), gen_sq(), draw(2) == 1);
            eq(me, format_args!("CompactMove_normal({a}, {b}, {p})"), call(8, || (f.CompactMove_normal)(a, b, p)), MMove::Normal { from: a, to: b, promote: p }.compact());
        }
        3..=6 => {
            let m = if draw(2) == 0 { MMove::Drop { piece: gen_piece(), to: gen_sq() } } else { MMove::Normal { from: gen_sq(), to: gen_sq(), promote: draw(2) == 1 } };
            let v = m.compact();
            match (draw(4), m) {
                (0, _) => {
                    let want = if let MMove::Normal { from, .. } = m { from } else { 0 };
                    eq(me, format_args!("CompactMove_from({v})"), call(8, || (f.CompactMove_from)(v)), want)
                }
                (1, _) => eq(me, format_args!("CompactMove_is_drop({v})"), call(6, || (f.CompactMove_is_drop)(v)), matches!(m, MMove::Drop { .. }) as u8),
                (2, _) => eq(me, format_args!("CompactMove_is_promoting({v})"), call(6, || (f.CompactMove_is_promoting)(v)), matches!(m, MMove::Normal { promote: true, .. }) as u8),
                (_, MMove::Normal { to, .. }) | (_, MMove::Drop { to, .. }) => eq(me, format_args!("CompactMove_to({v})"), call(6, || (f.CompactMove_to)(v)), to),
            }
        }
        7 => {
            let r = 1 + draw(5) as u8;
            eq(me, format_args!("GameResolution_from_u8_unchecked({r})"), call(4, || (f.GameResolution_from_u8_unchecked)(r)), r);
        }
        8 => {
            let r = 1 + draw(7) as u8;
            eq(me, format_args!("IllegalMoveKind_from_u8_unchecked({r})"), call(4, || (f.IllegalMoveKind_from_u8_unchecked)(r)), r);
        }
        9 => {
            let k = gen_kind();
            eq(me, format_args!("Hand_is_hand_piece({k})"), call(6, || (f.Hand_is_hand_piece)(k)), (k <= 7) as u8);
        }
        10 => eq(me, format_args!("Hand_new()"), mhand(call(4, || (f.Hand_new)())), [0; 8]),
        11 => {
            let (m, h) = gen_hand_obj();
            let k = gen_kind();
            eq(me, format_args!("Hand_count({m:?}, {k})"), call(16, || (f.Hand_count)(h, k)), if k <= 7 { m[k as usize] } else { 0 });
        }
        12 => {
            let r = draw(256) as u8;
            eq(me, format_args!("PieceKind_from_u8({r})"), call(8, || (f.PieceKind_from_u8)(r)), if (1..=14).contains(&r) { r } else { 0 });
        }
        13 => {
            let k = gen_kind();
            eq(me, format_args!("PieceKind_from_u8_unchecked({k})"), call(4, || (f.PieceKind_from_u8_unchecked)(k)), k);
        }
        14 => {
            let k = gen_kind();
            eq(me, format_args!("PieceKind_promote({k})"), call(10, || (f.PieceKind_promote)(k)), opt(promote_kind(k)));
        }
        15 => {
            let k = gen_kind();
            eq(me, format_args!("PieceKind_unpromote({k})"), call(10, || (f.PieceKind_unpromote)(k)), opt(unpromote_kind(k)));
        }
        16 => {
            let p = gen_piece();
            eq(me, format_args!("Piece_color({p})"), call(6, || (f.Piece_color)(p)), color_of(p));
        }
        17 => {
            let (k, c) = (gen_kind(), gen_color());
            eq(me, format_args!("Piece_new({k}, {c})"), call(8, || (f.Piece_new)(k, c)), piece(k, c));
        }
        18 => {
            let p = gen_piece();
            eq(me, format_args!("Piece_piece_kind({p})"), call(6, || (f.Piece_piece_kind)(p)), kind_of(p));
        }
        19 => {
            let p = gen_piece();
            eq(me, format_args!("Piece_promote({p})"), call(14, || (f.Piece_promote)(p)), opt(promote_kind(kind_of(p)).map(|k| piece(k, color_of(p)))));
        }
        20 => {
            let p = gen_piece();
            eq(me, format_args!("Piece_unpromote({p})"), call(14, || (f.Piece_unpromote)(p)), opt(unpromote_kind(kind_of(p)).map(|k| piece(k, color_of(p)))));
        }
        21 => {
            let s = gen_sq();
            eq(me, format_args!("Square_file({s})"), call(6, || (f.Square_file)(s)), file_of(s));
        }
        22 => {
            let s = gen_sq();
            eq(me, format_args!("Square_flip({s})"), call(4, || (f.Square_flip)(s)), 82 - s);
        }
        23 => {
            let s = draw(256) as u8;
            eq(me, format_args!("Square_from_u8({s})"), call(6, || (f.Square_from_u8)(s)), if (1..=81).contains(&s) { s } else { 0 });
        }
        24 => {
            let s = gen_sq();
            eq(me, format_args!("Square_from_u8_unchecked({s})"), call(4, || (f.Square_from_u8_unchecked)(s)), s);
            eq(me, format_args!("Square_index({s})"), call(4, || (f.Square_index)(s)), s);
        }
        25 | 26 => {
            let lim = if draw(4) == 3 { 256 } else { 12 };
            let (a, b) = (draw(lim) as u8, draw(lim) as u8);
            let ok = (1..=9).contains(&a) && (1..=9).contains(&b);
            if draw(2) == 0 {
                eq(me, format_args!("Square_new({a}, {b})"), call(10, || (f.Square_new)(a, b)), if ok { sq_of(a, b) } else { 0 });
            } else {
                let c = gen_color();
                let want = if ok { sq_of(rel(c, a), rel(c, b)) } else { 0 };
                eq(me, format_args!("Square_new_relative({a}, {b}, {c})"), call(12, || (f.Square_new_relative)(a, b, c)), want);
            }
        }
        27 => {
            let s = gen_sq();
            eq(me, format_args!("Square_rank({s})"), call(8, || (f.Square_rank)(s)), rank_of(s));
        }
        28 => {
            let (s, c) = (gen_sq(), gen_color());
            eq(me, format_args!("Square_relative_file({s}, {c})"), call(8, || (f.Square_relative_file)(s, c)), rel(c, file_of(s)));
        }
        29 => {
            let (s, c) = (gen_sq(), gen_color());
            eq(me, format_args!("Square_relative_rank({s}, {c})"), call(8, || (f.Square_relative_rank)(s, c)), rel(c, rank_of(s)));
        }
        _ => {
            let s = gen_sq();
            let (a, b) = if draw(3) == 2 { (draw(256) as u8 as i8, draw(256) as u8 as i8) } else { (draw(19) as i8 - 9, draw(19) as i8 - 9) };
            let (x, y) = (file_of(s) as i32 + a as i32, rank_of(s) as i32 + b as i32);
            let want = if (1..=9).contains(&x) && (1..=9).contains(&y) { sq_of(x as u8, y as u8) } else { 0 };
            eq(me, format_args!("Square_shift({s}, {a}, {b})"), call(20, || (f.Square_shift)(s, a, b)), want);
        }
    }
}

fn c09_bitboards(f: &Fns, me: usize, own: &Guarded, m: &mut u128) {
    let p = own.p() as *mut B;
    let a = unsafe { *p };
    let bm = gen_set();
    let b = lset(bm);
    match which(14) {
        0 => eqset(me, format_args!("Bitboard_bitand"), call(8, || (f.Bitboard_bitand)(a, b)), *m & bm),
        1 => eqset(me, format_args!("Bitboard_bitor"), call(8, || (f.Bitboard_bitor)(a, b)), *m | bm),
        2 => eqset(me, format_args!("Bitboard_bitxor"), call(8, || (f.Bitboard_bitxor)(a, b)), *m ^ bm),
        3 => {
            call(10, || (f.Bitboard_bitand_assign)(p, b));
            *m &= bm;
        }
        4 => {
            call(10, || (f.Bitboard_bitor_assign)(p, b));
            *m |= bm;
        }
        5 => {
            call(10, || (f.Bitboard_bitxor_assign)(p, b));
            *m ^= bm;
        }
        6 => {
            let s = gen_sq();
            eq(me, format_args!("Bitboard_contains({:#x}, {s})", *m), call(12, || (f.Bitboard_contains)(a, s)), (*m >> s & 1) as u8);
        }
        7 => eq(me, format_args!("Bitboard_count({:#x})", *m), call(40, || (f.Bitboard_count)(a)), m.count_ones() as u8),
        8 => eqset(me, format_args!("Bitboard_empty()"), call(4, || (f.Bitboard_empty)()), 0),
        9 => eqset(me, format_args!("Bitboard_flip({:#x})", *m), call(30, || (f.Bitboard_flip)(a)), flip_set(*m)),
        10 => eq(me, format_args!("Bitboard_is_empty({:#x})", *m), call(6, || (f.Bitboard_is_empty)(a)), (*m == 0) as u8),
        11 => eqset(me, format_args!("Bitboard_not({:#x})", *m), call(10, || (f.Bitboard_not)(a)), ALL & !*m),
        12 => {
            for _ in 0..1 + draw(4) {
                let r = call(20, || (f.Bitboard_pop)(p));
                if *m == 0 {
                    eq(me, format_args!("Bitboard_pop(empty)"), r, 0);
                } else {
                    check!((1..=81).contains(&r) && *m >> r & 1 != 0, "wrong-result", "thread {me}: Bitboard_pop({:#x}) returned {r}, not a member", *m);
                    *m &= !(1u128 << r);
                }
            }
        }
        _ => {
            let s = gen_sq();
            eqset(me, format_args!("Bitboard_single({s})"), call(12, || (f.Bitboard_single)(s)), 1u128 << s);
        }
    }
    own.check("a Bitboard_… call");
    eqset(me, format_args!("the bitboard after the call"), unsafe { *p }, *m);
}

fn c09_hand(f: &Fns, me: usize, own: &Guarded, m: &mut [u8; 8]) {
    let p = own.p() as *mut Hand;
    let k = gen_kind();
    if draw(2) == 0 {
        let r = call(14, || (f.Hand_add)(p, k));
        eq(me, format_args!("Hand_add({m:?}, {k})"), r, (k <= 7) as u8);
        if k <= 7 {
            m[k as usize] = m[k as usize].wrapping_add(1);
        }
    } else {
        let ok = k <= 7 && m[k as usize] > 0;
        let r = call(14, || (f.Hand_remove)(p, k));
        eq(me, format_args!("Hand_remove({m:?}, {k})"), r, ok as u8);
        if ok {
            m[k as usize] -= 1;
        }
    }
    own.check("Hand_add/Hand_remove");
    eq(me, format_args!("the hand after the call"), mhand(unsafe { *p }), *m);
}

/// A partial position as C code can hold it: the start position, or one prepared by the Rust side of a program.
fn make_partial(f: &Fns, g: &Guarded) -> MPos {
    if draw(3) != 0 {
        let m = gen_pos(PosOpts { max_kings: 1 + draw(3) as u8, allow_ply0: false });
        let p = build(&m, false);
        if observe(&p) == m {
            unsafe { std::ptr::copy_nonoverlapping(&p as *const PartialPosition as *const u8, g.p(), g.size) };
            return m;
        }
    }
    call(600, || (f.PartialPosition_startpos)(g.p() as PM));
    g.check("PartialPosition_startpos");
    MPos::startpos()
}

fn gen_mv(m: &MPos) -> MMove {
    match draw(4) {
        0 => gen_garbage(m),
        _ => gen_sensible(m).unwrap_or_else(|| gen_garbage(m)),
    }
}

fn c09_thread(w: *const W9, me: usize, ops: u32, focus: u32, storm: Option<(usize, u32)>) {
    let w = unsafe { &*w };
    let f = &w.f;
    let bb = Guarded::new(std::mem::size_of::<Bitboard>());
    let mut bbm = gen_set();
    unsafe { *(bb.p() as *mut B) = lset(bbm) };
    let hand = Guarded::new(std::mem::size_of::<Hand>());
    let (mut hm, h) = gen_hand_obj();
    unsafe { *(hand.p() as *mut Hand) = h };
    let pp = Guarded::new(std::mem::size_of::<PartialPosition>());
    let mut ppm: Option<MPos> = None;
    let mut pos: Option<(PM, MPos)> = None;
    let mut created = 0;
    let mut games: Option<Games> = None;
    for i in 0..ops {
        let sh = w.started as u32; // are there shared objects?
        let po = !w.core as u32; // are there positions?
        let op = match focus {
            1 => weighted(&[0, 4, 0, 3, 2 * po, 3 * po, 2, 0, 0, po, 0]),
            2 => weighted(&[6, 0, 4, 0, 0, 0, 0, 3 * sh, sh * po, 0, 2]),
            3 => weighted(&[0, 0, 0, 1, 0, po, 0, 8 * sh, 8 * sh * po, 0, 0]),
            _ => weighted(&[5, 3, 3, 3, 3 * po, 3 * po, 3, 2 * sh, 2 * sh * po, 2 * po, 1]),
        };
        let mut op = op;
        if let (0, Some((o, v))) = (i, storm) {
            op = o;
            unsafe { STORM[me & 15] = v };
        }
        ev(30 + op as u64, me as u64, 0);
        trace!("thread {me}: {}", ["values", "partial position", "bitboards", "partial move", "position", "position move", "hand", "shared partial position", "shared position", "game", "memory"][op]);
        match op {
            0 => c09_values(f, me),
            1 => {
                let m = ppm.get_or_insert_with(|| make_partial(f, &pp));
                let before = pp.bytes();
                query_partial(f, me, "own", pp.p() as PP, m);
                pp.check("a query");
                check!(pp.bytes() == before, "modified", "thread {me}: a query of a partial position modified it");
            }
            2 => c09_bitboards(f, me, &bb, &mut bbm),
            3 => {
                if ppm.is_none() || draw(12) == 11 {
                    ppm = Some(make_partial(f, &pp));
                }
                let m = ppm.as_mut().unwrap();
                for _ in 0..1 + draw(4) {
                    let mv = gen_mv(m);
                    let before = pp.bytes();
                    let ok = m.step(mv);
                    let r = call(300, || (f.PartialPosition_make_compact_move)(pp.p() as PM, mv.compact()));
                    trace!("thread {me}: PartialPosition_make_compact_move {} -> {r}", mv.usi());
                    eq(me, format_args!("PartialPosition_make_compact_move({})", mv.usi()), r, ok as u8);
                    pp.check("PartialPosition_make_compact_move");
                    if !ok {
                        check!(pp.bytes() == before, "modified", "thread {me}: a refused PartialPosition_make_compact_move({}) modified the position", mv.usi());
                    }
                }
                let got = observe(unsafe { &*(pp.p() as *const PartialPosition) });
                check!(got == *m, "wrong-result", "thread {me}: after its moves the partial position differs: {}", outside(|| diff(&got, m)));
            }
            4 | 5 => {
                if pos.is_none() {
                    if created >= 3 {
                        continue;
                    }
                    created += 1;
                    let p = call(1500, || (f.Position_startpos)());
                    check!(!p.is_null(), "wrong-result", "thread {me}: Position_startpos returned null");
                    pos = Some((p, MPos::startpos()));
                }
                let (p, m) = pos.as_mut().unwrap();
                if op == 4 {
                    query_position(f, me, "own", *p, m, &MPos::startpos());
                } else {
                    for _ in 0..1 + draw(5) {
                        let mv = gen_mv(m);
                        let ok = m.step(mv);
                        let p = *p;
                        let r = call(300, || (f.Position_make_compact_move)(p, mv.compact()));
                        trace!("thread {me}: Position_make_compact_move {} -> {r}", mv.usi());
                        eq(me, format_args!("Position_make_compact_move({})", mv.usi()), r, ok as u8);
                    }
                    let got = observe(unsafe { &*((f.Position_inner)(*p) as *const PartialPosition) });
                    check!(got == *m, "wrong-result", "thread {me}: after its moves the position differs: {}", outside(|| diff(&got, m)));
                    if draw(6) == 5 {
                        let p = *p;
                        call(30, || (f.Position_destruct)(p));
                        count(K::probe_c_destroy);
                        pos = None;
                    }
                }
            }
            6 => c09_hand(f, me, &hand, &mut hm),
            7 => {
                query_partial(f, me, "shared", w.spp.p() as PP, &w.spp_m);
                check!(w.spp.bytes() == w.spp_bytes, "modified", "thread {me}: a shared partial position that nobody modifies has changed");
            }
            8 => query_position(f, me, "shared", w.sp, &w.sp_m, &w.sp_init),
            9 => {
                if !w.games_ok {
                    continue;
                }
                c09_games(f, me, games.get_or_insert_with(Games::new));
            }
            _ => c09_memory(w, me),
        }
        unsafe { STORM[me & 15] = u32::MAX };
        if chance(1, 6) {
            // objects at rest keep their values
            eqset(me, format_args!("the bitboard at rest"), unsafe { *(bb.p() as *mut B) }, bbm);
            eq(me, format_args!("the hand at rest"), mhand(unsafe { *(hand.p() as *mut Hand) }), hm);
        }
    }
    if let Some(m) = &ppm {
        let got = observe(unsafe { &*(pp.p() as *const PartialPosition) });
        check!(got == *m, "wrong-result", "thread {me}: at its end the partial position differs: {}", outside(|| diff(&got, m)));
    }
    if let Some((p, m)) = pos {
        let got = observe(unsafe { &*((f.Position_inner)(p) as *const PartialPosition) });
        check!(got == m, "wrong-result", "thread {me}: at its end the position differs: {}", outside(|| diff(&got, &m)));
        call(30, || (f.Position_destruct)(p));
    }
    state(mix(hm.iter().fold(bbm as u64 ^ (bbm >> 64) as u64, |h, &x| mix(h ^ x as u64))) ^ ppm.map_or(0, |m| m.hash64()));
}

fn warm(w: &mut W9) {
    if !w.core {
        w.games_ok = same_layout(&w.f);
        w.sp = (w.f.Position_startpos)();
    }
    w.spp_m = make_partial(&w.f, &w.spp);
}

pub fn c09() {
    let (lib, nostd, core) = match draw(7) {
        0 | 1 => (load_std(), false, false),
        2 => (load_nostd(false), true, false),
        3..=5 => (load_nostd(true), true, false),
                _ => (load_core(draw(2) == 1), true, true),
    };
    install(&lib);
    let f = unsafe { if core { Fns::load_core(lib.h) } else { Fns::load(lib.h) } };
    if core {
        count(K::probe_core_library);
    }
    let mem = nostd.then(|| unsafe {
        Mem {
            memcpy: std::mem::transmute(sym(lib.h, "memcpy")),
            memset: std::mem::transmute(sym(lib.h, "memset")),
            memcmp: std::mem::transmute(sym(lib.h, "memcmp")),
            bzero: std::mem::transmute(sym(lib.h, "__bzero")),
        }
    });
    let spp = Guarded::new_page(std::mem::size_of::<PartialPosition>());
    let mut w = W9 { lib, f, spp, spp_m: MPos::startpos(), spp_bytes: Vec::new(), sp: std::ptr::null_mut(), sp_m: MPos::startpos(), sp_init: MPos::startpos(), games_ok: false, mem, core, started: false };
    // cold: the threads' calls are the first ever made into the library
    let cold = draw(3) == 2;
    if cold {
        count(K::probe_cold_start);
    } else {
        warm(&mut w);
    }
    let mut started = !cold;
    for phase in 0..1 + draw(2) {
        if phase == 1 && !started {
            warm(&mut w);
            started = true;
        }
        w.started = started;
        // between concurrent phases the shared objects move on
        for _ in 0..if started { draw(12) } else { 0 } {
            let mv = gen_mv(&w.spp_m);
            let ok = w.spp_m.step(mv);
            let r = (w.f.PartialPosition_make_compact_move)(w.spp.p() as PM, mv.compact());
            eq(99, format_args!("PartialPosition_make_compact_move({})", mv.usi()), r, ok as u8);
            if w.sp.is_null() {
                continue;
            }
            let mv = gen_mv(&w.sp_m);
            let ok = w.sp_m.step(mv);
            let r = (w.f.Position_make_compact_move)(w.sp, mv.compact());
            eq(99, format_args!("Position_make_compact_move({})", mv.usi()), r, ok as u8);
        }
        w.spp_bytes = w.spp.bytes();
        let focus = draw(5);
        let n = 1 + draw(5);
        // a storm: every thread starts with the same function
        let storm = if draw(2) == 1 {
            count(K::probe_storm);
            let (shared, pos) = (started as u32, !w.core as u32);
            let op = weighted(&[12, 8, 6, 2, 6 * pos, 2 * pos, 1, 6 * shared, 6 * shared * pos, 4 * w.games_ok as u32, 3 * w.mem.is_some() as u32]);
            Some((op, draw(31)))
        } else {
            None
        };
        trace!("phase {phase}: {n} threads, {}shared {} / {}", if !started { "cold start, nothing " } else { "" }, w.spp_m.sfen(), w.sp_m.sfen());
        let wp: *const W9 = &w;
        let mut tasks = Tasks::new();
        for me in 0..n {
            let ops = 2 + draw(12);
            tasks.spawn(Box::new(move || c09_thread(wp, me as usize, ops, focus, storm)));
        }
        count(K::probe_frozen_object);
        w.spp.freeze(true);
        run_threads(&mut tasks);
        drop(tasks);
        w.spp.freeze(false);
        w.spp.check("a query of the shared position");
        check!(w.spp.bytes() == w.spp_bytes, "modified", "a shared partial position that nobody modifies has changed");
        if !w.sp.is_null() {
            let got = observe(unsafe { &*((w.f.Position_inner)(w.sp) as *const PartialPosition) });
            check!(got == w.sp_m, "modified", "a shared position that nobody modifies has changed: {}", outside(|| diff(&got, &w.sp_m)));
        }
    }
    if !w.sp.is_null() {
        (w.f.Position_destruct)(w.sp);
    }
}

// ------------------------------------------------------------------------------ C12: the Rust interface, pre-empted

use crate::ops;
type ShimOp = unsafe extern "C" fn(u32, *mut c_void, *const c_void, u64, *mut ops::Out) -> *mut c_void;

/// An object in the shared library, where threads operate on it, and its twin in the simulator, which undergoes the
/// same operations one after another.
#[derive(Clone, Copy)]
struct Pair {
    s: *mut c_void,
    t: *mut ops::Obj,
}
struct WR {
    op: ShimOp,
    shared: Vec<Pair>,
    /// objects on their way from one thread to another
    handed: Vec<Pair>,
}
struct Outs {
    s: Box<ops::Out>,
    t: Box<ops::Out>,
}
impl Outs {
    fn new() -> Outs {
        Outs { s: Box::new(ops::Out { n: 0, b: [0; ops::CAP] }), t: Box::new(ops::Out { n: 0, b: [0; ops::CAP] }) }
    }
}
const NONE: Pair = Pair { s: std::ptr::null_mut(), t: std::ptr::null_mut() };

fn rt_name(code: u32) -> &'static str {
    match code {
        ops::BUILD => "build",
        ops::DROP => "drop",
        ops::OBSERVE => "observe",
        10..=29 => "modify",
        30..=49 => "make or copy",
        _ => "read",
    }
}
/// One operation on the twin alone and on the object in the library; the same must come out.
fn rt_op(w: &WR, o: &mut Outs, ctx: &str, preempt: bool, code: u32, a: Pair, b: Pair, arg: u64) -> Pair {
    let size = match code {
        ops::DROP => 60,
        10..=29 => 200,
        30..=49 => 200,
        50 | 51 | 69 | ops::OBSERVE => 2000,
        61 | 62 | 64 | 65 => 600,
        _ => 200,
    };
    let t = unsafe { ops::op(code, a.t, b.t, arg, &mut o.t) };
    let (f, so): (ShimOp, *mut ops::Out) = (w.op, &mut *o.s);
    trace!("{ctx}: {} (operation {code}, argument {arg:#x})", rt_name(code));
    let s = if preempt { call(size, || unsafe { f(code, a.s, b.s, arg, so) }) } else { unsafe { f(code, a.s, b.s, arg, so) } };
    let n = o.t.n.min(ops::CAP);
    check!(
        o.s.n == o.t.n && o.s.b[..n] == o.t.b[..n] && s.is_null() == t.is_null(),
        "disturbed",
        "{ctx}: operation {code} ({}) with argument {arg:#x}, with other threads at work, gives {}; alone it gives {}",
        rt_name(code),
        rt_text(&o.s),
        rt_text(&o.t)
    );
    Pair { s, t }
}
fn rt_text(o: &ops::Out) -> String {
    let b = &o.b[..o.n.min(ops::CAP)];
    if !b.is_empty() && b.iter().all(|c| (32..127).contains(c)) {
        return format!("{:?}", String::from_utf8_lossy(b));
    }
    let mut s = format!("{} bytes ", o.n);
    for x in b {
        s.push_str(&format!("{x:02x}"));
    }
    s
}
fn rt_verify(w: &WR, o: &mut Outs, ctx: &str, p: Pair) {
    let ctx = format!("{ctx} at rest");
    rt_op(w, o, &ctx, false, ops::OBSERVE, p, NONE, 0);
    if draw(2) == 1 {
        // equal to its copy, both ways, and with the same digest
        let q = rt_op(w, o, &ctx, false, 34, NONE, p, 0);
        for (a, b, code) in [(p, q, 52), (q, p, 54), (p, NONE, 56), (p, NONE, 50)] {
            rt_op(w, o, &ctx, false, code, a, b, 0);
        }
        rt_op(w, o, &ctx, false, ops::DROP, q, NONE, 0);
    }
}
/// An argument: a move that fits the object, and random bits for everything else.
fn rt_arg(p: Pair) -> u64 {
    let m = gen_mv(&observe(ops::part(unsafe { &*p.t })));
    let (first, to, how) = match m {
        MMove::Normal { from, to, promote } => (from, to, promote as u64),
        MMove::Drop { piece, to } => (piece, to, 2),
    };
    first as u64 | (to as u64) << 8 | how << 16 | (draw(1 << 24) as u64) << 20
}
fn rt_build(w: &WR, o: &mut Outs, ctx: &str, m: &MPos) -> Pair {
    let mut d = [0u8; 98];
    d[0] = m.side - 1;
    d[1..3].copy_from_slice(&m.ply.to_le_bytes());
    for c in 0..2 {
        for k in 0..7 {
            d[3 + 7 * c + k] = m.hands[c][k + 1];
        }
    }
    d[17..].copy_from_slice(&m.board[1..]);
    let p = rt_op_quiet(w, o, ctx, ops::BUILD, d.as_ptr() as u64);
    let got = observe(ops::part(unsafe { &*p.t }));
    let mut want = m.clone();
    want.last = None;
    if got != want {
        infra(format!("{ctx}: the description of a position was misread: {}", diff(&got, &want)));
    }
    p
}
fn rt_op_quiet(w: &WR, o: &mut Outs, _ctx: &str, code: u32, arg: u64) -> Pair {
    unsafe {
        let t = ops::op(code, std::ptr::null_mut(), std::ptr::null(), arg, &mut *o.t);
        let s = (w.op)(code, std::ptr::null_mut(), std::ptr::null(), arg, &mut *o.s);
        Pair { s, t }
    }
}

fn rt_thread(w: *mut WR, me: usize, rounds: u32, mut own: Vec<Pair>, focus: Option<u32>, storm: Option<u32>) {
    const MAX_OWN: usize = 5;
    let w = unsafe { &mut *w };
    let mut o = Outs::new();
    for k in 0..rounds {
        let ctx = format!("thread {me}, round {k}");
        let pick_own = |own: &Vec<Pair>| own[draw(own.len() as u32) as usize];
        let any = |own: &Vec<Pair>| {
            let n = draw((own.len() + w.shared.len()) as u32) as usize;
            if n < own.len() {
                own[n]
            } else {
                w.shared[n - own.len()]
            }
        };
        let mut what = match focus {
            Some(f) if draw(4) != 3 => f,
            _ => weighted(&[6, 5, 3, 1, 1, 1]) as u32,
        };
        let storming = storm.is_some() && k == 0;
        if storming {
            // all threads start with the same kind of operation, on the same shared object or on copies of it
            what = storm.unwrap() & 7;
        }
        match what {
            0 if !own.is_empty() => {
                let a = if storming { own[0] } else { pick_own(&own) };
                let b = if draw(3) == 2 { any(&own) } else { NONE };
                let code = 10 + if storming || draw(2) == 1 { 0 } else { draw(ops::WRITES) };
                let b = if b.s == a.s { NONE } else { b };
                rt_op(w, &mut o, &ctx, true, code, a, b, rt_arg(a));
                count(K::probe_writes_while_suspended);
            }
            1 => {
                let a = if storming { w.shared[0] } else { any(&own) };
                let b = match draw(3) {
                    0 if storming && !own.is_empty() => own[0],
                    2 => NONE,
                    _ => any(&own),
                };
                let code = 50 + if storming { storm.unwrap() >> 3 } else { draw(ops::READS) };
                rt_op(w, &mut o, &ctx, true, code, a, b, rt_arg(a));
            }
            2 if own.len() < MAX_OWN => {
                let b = if storming { w.shared[0] } else { any(&own) };
                let code = 30 + if storming || draw(4) != 3 { 4 } else { draw(ops::MAKES) };
                let p = rt_op(w, &mut o, &ctx, true, code, NONE, b, draw(2) as u64);
                count(K::probe_copy);
                own.push(p);
                if draw(2) == 1 {
                    rt_op(w, &mut o, &ctx, true, 10, p, NONE, rt_arg(p));
                }
            }
            3 if !own.is_empty() => {
                let p = own.swap_remove(draw(own.len() as u32) as usize);
                count(K::probe_destroy);
                rt_op(w, &mut o, &ctx, true, ops::DROP, p, NONE, 0);
            }
            4 if !own.is_empty() => {
                let p = own.swap_remove(draw(own.len() as u32) as usize);
                trace!("{ctx}: an object is handed over");
                w.handed.push(p);
            }
            _ => {
                if !w.handed.is_empty() && own.len() < MAX_OWN {
                    let n = draw(w.handed.len() as u32) as usize;
                    own.push(w.handed.swap_remove(n));
                    count(K::probe_handed_over);
                    trace!("{ctx}: takes an object handed over");
                }
            }
        }
        if !own.is_empty() && draw(5) == 4 {
            rt_verify(w, &mut o, &ctx, pick_own(&own));
        }
    }
    for p in own {
        let ctx = format!("thread {me}, end");
        rt_verify(w, &mut o, &ctx, p);
        state(observe(ops::part(unsafe { &*p.t })).hash64());
        rt_op(w, &mut o, &ctx, true, ops::DROP, p, NONE, 0);
    }
}

/// Simulated threads operate on shared and own objects through the Rust interface, pre-empted anywhere.
pub fn rust_threads() {
    let lib = load_with("SIM_SO_SHIM", "/verif/target/so/libshogi_shim.so", false, "shim_op");
    install(&lib);
    count(K::probe_rust_threads);
    let op: ShimOp = unsafe { std::mem::transmute(sym(lib.h, "shim_op")) };
    let mut w = WR { op, shared: Vec::new(), handed: Vec::new() };
    let mut o = Outs::new();
    let ns = 1 + draw(3) as usize;
    for i in 0..ns {
        let ctx = format!("shared object {i}");
        let mut p = match draw(3) {
            0 => rt_op(&w, &mut o, &ctx, false, 30 + draw(2), NONE, NONE, 0),
            _ => rt_build(&w, &mut o, &ctx, &gen_pos(PosOpts { max_kings: 1, allow_ply0: false })),
        };
        if draw(4) != 3 && ops::pos(unsafe { &*p.t }).is_none() {
            let q = rt_op(&w, &mut o, &ctx, false, 33, NONE, p, 0);
            rt_op(&w, &mut o, &ctx, false, ops::DROP, p, NONE, 0);
            p = q;
        }
        // (counts around the sizes at which a growing record asks for more)
        for _ in 0..[0, 1, 3, 4, 5, 8, draw(20), draw(40)][draw(8) as usize] {
            rt_op(&w, &mut o, &ctx, false, 10, p, NONE, rt_arg(p));
        }
        w.shared.push(p);
    }
    if draw(4) == 3 {
        let ctx = "a shared game";
        let p = rt_op(&w, &mut o, ctx, false, 32, NONE, NONE, draw(2) as u64);
        if draw(2) == 1 {
            rt_op(&w, &mut o, ctx, false, 10, p, NONE, rt_arg(p));
        }
        w.shared.push(p);
    }
    let n = 2 + draw(3) as usize;
    let focus = if draw(3) == 2 { Some(draw(4)) } else { None };
    let storm = if draw(2) == 1 {
        count(K::probe_storm);
        let read = [draw(ops::READS), 2 + draw(6), 2 + draw(2), 0, 6, 8, 11, 19][draw(8) as usize];
        Some(weighted(&[4, 6, 2]) as u32 | read << 3)
    } else {
        None
    };
    let mut owned = Vec::new();
    for i in 0..n {
        let mut own = Vec::new();
        if storm.is_some() || draw(3) != 0 {
            // copies taken before the threads start
            let ctx = format!("thread {i}, before it starts");
            let from = if storm.is_some() { w.shared[0] } else { w.shared[draw(w.shared.len() as u32) as usize] };
            own.push(rt_op(&w, &mut o, &ctx, false, 34, NONE, from, 0));
            if draw(3) == 2 {
                own.push(rt_op(&w, &mut o, &ctx, false, 34, NONE, own[0], 0));
            }
        }
        owned.push(own);
    }
    let wp: *mut WR = &mut w;
    let mut tasks = Tasks::new();
    for (me, own) in owned.into_iter().enumerate() {
        let rounds = if storm.is_some() && draw(2) == 1 { 1 + draw(3) } else { 2 + draw(10) };
        tasks.spawn(Box::new(move || rt_thread(wp, me, rounds, own, focus, storm)));
    }
    run_threads(&mut tasks);
    drop(tasks);
    let rest: Vec<Pair> = w.shared.drain(..).chain(w.handed.drain(..)).collect();
    for p in rest {
        rt_verify(&w, &mut o, "end", p);
        rt_op(&w, &mut o, "end", false, ops::DROP, p, NONE, 0);
    }
}
