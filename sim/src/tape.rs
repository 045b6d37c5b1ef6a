//! The decision tape, the shared result area of a session, counters and the event log.
//!
//! Every decision of a simulated run goes through [`draw`].  In generation mode values come from a seeded PRNG, in
//! replay mode from a recorded tape (past whose end every draw is 0 - by convention the simplest choice).

use std::fmt::Write as _;

pub const TAPE_CAP: usize = 1 << 20;
pub const TRACE_CAP: usize = 1 << 21;
pub const STATES_CAP: usize = 512;
pub const NCOUNT: usize = 128;

#[repr(C)]
pub struct Shared {
    // header, zeroed before each session
    pub tape_len: u64,
    pub tape_overflow: u64,
    pub log_hash: u64,
    pub events: u64,
    pub sim_time: u64,
    pub steps: u64,
    pub nontrivial: u64,
    pub finished: u64,
    pub violated: u64,
    pub class: [u8; 64],
    pub msg: [u8; 4096],
    pub counters: [u64; NCOUNT],
    pub states_n: u64,
    pub trace_len: u64,
    pub states: [u64; STATES_CAP],
    pub trace: [u8; TRACE_CAP],
    pub tape: [u32; TAPE_CAP],
}

impl Shared {
    pub fn map() -> &'static mut Shared {
        unsafe {
            let p = libc::mmap(
                std::ptr::null_mut(),
                std::mem::size_of::<Shared>(),
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
                -1,
                0,
            );
            assert!(p != libc::MAP_FAILED, "mmap");
            &mut *(p as *mut Shared)
        }
    }
    pub fn reset(&mut self) {
        self.tape_len = 0;
        self.tape_overflow = 0;
        self.log_hash = 0xcbf2_9ce4_8422_2325;
        self.events = 0;
        self.sim_time = 0;
        self.steps = 0;
        self.nontrivial = 0;
        self.finished = 0;
        self.violated = 0;
        self.class = [0; 64];
        self.msg[0] = 0;
        self.counters = [0; NCOUNT];
        self.states_n = 0;
        self.trace_len = 0;
    }
    pub fn class_str(&self) -> String {
        cstr(&self.class)
    }
    pub fn msg_str(&self) -> String {
        cstr(&self.msg)
    }
    pub fn trace_str(&self) -> String {
        String::from_utf8_lossy(&self.trace[..self.trace_len as usize]).into_owned()
    }
    pub fn set_violation(&mut self, class: &str, msg: &str) {
        self.violated = 1;
        put(&mut self.class, class);
        put(&mut self.msg, msg);
    }
}

fn put(dst: &mut [u8], s: &str) {
    let mut n = s.len().min(dst.len() - 1);
    while !s.is_char_boundary(n) {
        n -= 1;
    }
    dst[..n].copy_from_slice(&s.as_bytes()[..n]);
    dst[n] = 0;
}
fn cstr(b: &[u8]) -> String {
    let n = b.iter().position(|&c| c == 0).unwrap_or(b.len());
    String::from_utf8_lossy(&b[..n]).into_owned()
}

pub struct Ctx {
    pub sh: *mut Shared,
    rng: u64,
    replay: Option<Vec<u32>>,
    pos: usize,
    pub tracing: bool,
    pub thorough: bool,
}

pub static mut CTX: Ctx =
    Ctx { sh: std::ptr::null_mut(), rng: 0, replay: None, pos: 0, tracing: false, thorough: false };

#[inline(always)]
pub fn ctx() -> &'static mut Ctx {
    unsafe { &mut *std::ptr::addr_of_mut!(CTX) }
}
#[inline(always)]
pub fn sh() -> &'static mut Shared {
    unsafe { &mut *ctx().sh }
}

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e37_79b9_7f4a_7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}

pub fn begin(sh: &mut Shared, seed: u64, replay: Option<Vec<u32>>, tracing: bool, thorough: bool) {
    let c = ctx();
    c.sh = sh;
    c.rng = seed;
    c.replay = replay;
    c.pos = 0;
    c.tracing = tracing;
    c.thorough = thorough;
}

#[inline]
fn next() -> u64 {
    let c = ctx();
    c.rng = c.rng.wrapping_add(0x9e37_79b9_7f4a_7c15);
    let mut z = c.rng;
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}

/// A decision in `0..n`.
#[inline]
pub fn draw(n: u32) -> u32 {
    if n <= 1 {
        return 0;
    }
    let c = ctx();
    let v = match &c.replay {
        None => ((next() >> 32).wrapping_mul(n as u64) >> 32) as u32,
        Some(t) => {
            let v = t.get(c.pos).copied().unwrap_or(0);
            c.pos += 1;
            v % n
        }
    };
    let s = sh();
    let i = s.tape_len as usize;
    if i < TAPE_CAP {
        s.tape[i] = v;
        s.tape_len = i as u64 + 1;
    } else {
        s.tape_overflow = 1;
    }
    v
}

/// A full 32-bit draw.
pub fn draw32() -> u32 {
    (draw(1 << 16) << 16) | draw(1 << 16)
}
pub fn draw64() -> u64 {
    ((draw32() as u64) << 32) | draw32() as u64
}
/// True with probability `num/den`; false is the simple choice.
#[inline]
pub fn chance(num: u32, den: u32) -> bool {
    if num == 0 {
        return false;
    }
    if num >= den {
        return true;
    }
    draw(den) >= den - num
}
#[inline]
pub fn range(lo: u32, hi: u32) -> u32 {
    lo + draw(hi - lo + 1)
}
#[inline]
pub fn pick<T: Copy>(xs: &[T]) -> T {
    xs[draw(xs.len() as u32) as usize]
}
/// Index chosen with the given weights.
pub fn weighted(w: &[u32]) -> usize {
    let sum: u32 = w.iter().sum();
    let mut d = draw(sum);
    for (i, &x) in w.iter().enumerate() {
        if d < x {
            return i;
        }
        d -= x;
    }
    w.len() - 1
}

/// Event log: hashed always, printed when tracing.
#[inline]
pub fn ev(kind: u64, a: u64, b: u64) {
    let s = sh();
    let mut h = s.log_hash;
    for x in [kind, a, b] {
        h = (h ^ x).wrapping_mul(0x0000_0100_0000_01b3);
        h ^= h >> 29;
    }
    s.log_hash = h;
    s.events += 1;
}

pub fn trace_line(args: std::fmt::Arguments<'_>) {
    let s = sh();
    let mut line = String::new();
    let _ = write!(line, "{}", args);
    line.push('\n');
    let n = s.trace_len as usize;
    let m = line.len().min(TRACE_CAP - n);
    s.trace[n..n + m].copy_from_slice(&line.as_bytes()[..m]);
    s.trace_len = (n + m) as u64;
}

#[macro_export]
macro_rules! trace {
    ($($t:tt)*) => {
        if $crate::tape::ctx().tracing {
            $crate::alloc::outside(|| $crate::tape::trace_line(format_args!($($t)*)));
        }
    };
}

/// Record a violation and end the session (a process of its own) on the spot: nothing unwinds, so no callback or
/// destructor of the system under test can interfere any more.
pub fn violation(class: &str, msg: String) -> ! {
    crate::alloc::l().in_sut = false;
    let s = sh();
    if s.violated == 0 {
        s.set_violation(class, &msg);
    }
    if ctx().tracing {
        trace_line(format_args!("VIOLATED {class}: {msg}"));
    }
    unsafe { libc::_exit(3) }
}

#[macro_export]
macro_rules! fail {
    ($class:expr, $($t:tt)*) => {
        $crate::tape::violation($class, $crate::alloc::outside(|| format!($($t)*)))
    };
}
#[macro_export]
macro_rules! check {
    ($cond:expr, $class:expr, $($t:tt)*) => {
        if !$cond {
            $crate::fail!($class, $($t)*)
        }
    };
}

pub fn nontrivial() {
    sh().nontrivial += 1;
}

/// Record a state hash for the "distinct states" measure.
pub fn state(h: u64) {
    ev(1, h, 0);
    let s = sh();
    let n = s.states_n as usize;
    if n < STATES_CAP {
        s.states[n] = h;
        s.states_n += 1;
    }
}

macro_rules! counters {
    ($($name:ident),* $(,)?) => {
        #[allow(non_camel_case_types, dead_code)]
        #[derive(Clone, Copy, Debug, PartialEq, Eq)]
        #[repr(usize)]
        pub enum K { $($name),* }
        pub const COUNTER_NAMES: &[&str] = &[$(stringify!($name)),*];
    };
}
counters! {
    // faults: prefix fault_
    fault_net_drop, fault_net_dup, fault_net_delay, fault_net_reorder, fault_net_partition, fault_stale_submission,
    fault_garbage_submission, fault_crash_restart, fault_journal_tail_lost, fault_snapshot_restore,
    fault_oom_nth, fault_oom_growth, fault_oom_persistent, fault_oom_deny_all, fault_sink_error, fault_sink_short_write,
    fault_sink_panic, fault_sink_stall, fault_sink_reentry, fault_hasher_stall, fault_hasher_panic, fault_checker_panic,
    fault_checker_stall, fault_checker_reentry, fault_alloc_stall, fault_preemption, fault_stalled_thread,
    fault_arena_exhausted, fault_refused_alloc, fault_client_stalled,
    // probes: prefix probe_
    probe_accepted, probe_refused, probe_capture, probe_capture_promoted, probe_promotion, probe_drop,
    probe_king_move, probe_king_capture_refused, probe_hand_wrap, probe_ply_wrap, probe_multi_king, probe_full_board,
    probe_hand_ge10, probe_hand_ge100, probe_long_history, probe_edit, probe_king_removed, probe_copy,
    probe_assign, probe_destroy, probe_c_destroy, probe_retry_ok, probe_oom_surfaced, probe_render, probe_render_err,
    probe_sfen_max_len, probe_sfen_ge130, probe_startpos_game, probe_ply_ge10000, probe_hash, probe_cmp, probe_equal_pairs,
    probe_unequal_pairs, probe_resolve, probe_unresolve, probe_checker_ok, probe_checker_err, probe_checker_not_in_progress,
    probe_core_op, probe_c_call, probe_c_call_preempted, probe_block_allocated, probe_block_refused,
    probe_aligned_block, probe_zst_or_tiny, probe_lib_position, probe_concurrent_overlap, probe_replica_diverged,
    probe_legal_list, probe_checked_move_made, probe_continue_after_restart, probe_writes_while_suspended, probe_near_twin, probe_crowd, probe_record_ge65536,
    probe_static_access, probe_switch_at_static_access, probe_cold_start, probe_core_library, probe_storm, probe_frozen_object, probe_rust_threads, probe_handed_over,
}
#[inline]
pub fn count(k: K) {
    sh().counters[k as usize] += 1;
}
/// Count a fault; a run with at least one counts as non-trivial.
#[inline]
pub fn fault(k: K) {
    sh().counters[k as usize] += 1;
    sh().nontrivial += 1;
}
pub fn count_max(k: K, v: u64) {
    let c = &mut sh().counters[k as usize];
    if *c < v {
        *c = v;
    }
}
