//! Runs sessions: seeds, worker processes, determinism self-check, minimisation, replay files, evidence.

use crate::tape::*;
use std::collections::{BTreeSet, HashSet};
use std::io::Write as _;
use std::time::{Duration, Instant};

pub struct Prop {
    pub id: &'static str,
    pub run: fn(),
    /// sessions of a quick run
    pub quick: u64,
    pub rule: &'static str,
    pub real: &'static str,
    pub stub: &'static str,
    pub clock: &'static str,
}

const REAL_A: &str = "shogi_core rlib built from /repo, run in two builds: with features std, alloc, hash, ord, experimental and with debug assertions and overflow checks; and (every other session) with features alloc, hash, ord only and without those checks";
const REAL_B: &str = "libshogi_core_c.so built from /repo by cargo (std on the stable toolchain; no-std with and without alloc on nightly), machine code executed as shipped";

const REAL_C12: &str = "shogi_core rlib built from /repo, run in two builds: with features std, alloc, hash, ord, experimental and with debug assertions and overflow checks; and (every other session) with features alloc, hash, ord only and without those checks; the same as a shared library (features std, hash, ord; stable toolchain, release), machine code executed as built";

macro_rules! props {
    ($($id:literal $run:path, $quick:literal, $real:expr, $stub:literal, $clock:literal, $rule:literal;)*) => {
        pub const PROPS: &[Prop] = &[$(Prop { id: $id, run: $run, quick: $quick, real: $real, stub: $stub, clock: $clock, rule: $rule }),*];
    };
}
props! {
    "C01" crate::scen_core::c01, 160000, REAL_A, "clients, network, arbiter, clock; reference model as oracle", "virtual network time (ticks)",
        "One session = one table, random start position, 1-4 clients with own views submitting over a faulty network; non-trivial = at least one fault (drop, duplicate, delay, reorder, partition, stale or garbage submission, stalled client) happened.";
    "C02" crate::scen_core::c02, 40000, REAL_A, "clients, network; twin objects that never see a refused operation", "virtual network time (ticks)",
        "One session = one partial position, one recorded position and one hand under a mix of network deliveries and injected refused operations; non-trivial = at least one refused or faulty submission.";
    "C03" crate::scen_core::c03, 35000, REAL_A, "clients, network, arbiter, crash/rebuild; recomputation from square-by-square lookup as oracle", "virtual network time (ticks)",
        "One session = one history of edits, moves, refusals, copies, crash and rebuild; all views recomputed after each operation; non-trivial = at least one fault.";
    "C04" crate::scen_record::c04, 100000, REAL_A, "clients, network, durable journal, crash/restart", "virtual network time (ticks)",
        "One session = one recorded game with crashes at random points and a random durable prefix of the journal; non-trivial = at least one network fault or crash.";
    "C05" crate::scen_mem::c05, 25000, REAL_A, "global allocator (ledger, fault plan), checker", "operation count",
        "One session = a pool of recorded positions near record-growth sizes, operations with allocation failures planned; non-trivial = at least one allocation failure surfaced.";
    "C06" crate::scen_callbacks::c06, 150000, REAL_A, "fmt::Write sinks, task scheduler", "scheduler steps",
        "One session = several values written to sinks that fail at any byte, cut short, panic, stall or re-enter, by up to 4 interleaved writers; non-trivial = at least one sink fault.";
    "C07" crate::scen_record::c07, 70000, REAL_A, "clients, network, snapshot store, crash/restart, C buffer with canaries", "virtual network time (ticks)",
        "One session = one history rendered through all three interfaces after each step, with restarts from the snapshot text; non-trivial = at least one network fault or restart.";
    "C08" crate::world_b::c08, 40000, REAL_B, "threads (coroutines pre-empted at instruction granularity by trap-flag single-stepping), scheduler", "machine instructions executed under the simulated scheduler",
        "One session = one freshly loaded no-std library, 1-5 simulated threads allocating until near or past exhaustion, or 2-3 threads taking and releasing objects of one size; non-trivial = at least one pre-emption inside the library, stalled thread, or refused request.";
    "C09" crate::world_b::c09, 20000, REAL_B, "threads (coroutines pre-empted at instruction granularity by trap-flag single-stepping), scheduler", "machine instructions executed under the simulated scheduler",
        "One session = one freshly loaded library (std, no-std with alloc, no-std without alloc), 1-5 simulated threads calling exported functions on own and shared objects; non-trivial = at least one pre-emption inside the library or stalled thread.";
    "C10" crate::scen_mem::c10, 40000, REAL_A, "global allocator (ledger, poisoning, quarantine, fault plan), checkers, sinks", "operation count",
        "One session = create/copy/assign/grow/destroy in random order with allocation failures and callback panics; non-trivial = at least one injected fault.";
    "C11" crate::scen_mem::c11, 150000, REAL_A, "global allocator (refuses everything), sinks, hashers, checkers; reference model as oracle", "operation count",
        "One session = one history of non-allocating operations under total memory shortage (the shortage is the fault), or, in one of eight, of allocating operations with memory, which must not panic.";
    "C12" crate::scen_callbacks::c12, 150000, REAL_C12, "sinks, hashers, checkers, global allocator (all yield points), task scheduler; threads (coroutines pre-empted at instruction granularity by trap-flag single-stepping); twin objects operated on by one thread", "scheduler steps; machine instructions where threads are pre-empted",
        "One session = 2-5 tasks operating on shared and own objects, suspended inside callbacks, or (one in four) 2-4 threads doing so through the Rust interface, pre-empted at any instruction; non-trivial = at least one suspension, pre-emption, callback fault or stalled task.";
    "C13" crate::scen_core::c13, 40000, REAL_A, "replication channels (loss, duplication, reordering), snapshot transfer", "operation count",
        "One session = 2-5 replicas fed over a faulty channel, compared pairwise and in triples; non-trivial = at least one channel fault or snapshot transfer.";
    "C14" crate::scen_core::c14, 80000, REAL_A, "request channel (loss, duplication, delay, reordering)", "virtual time (ticks)",
        "One session = 2-3 games receiving result requests over a faulty channel; non-trivial = at least one channel fault.";
    "C15" crate::scen_callbacks::c15, 40000, REAL_A, "legality checkers (arbitrary verdicts, panic, stall, re-entry), task scheduler", "scheduler steps",
        "One session = 1-3 interleaved tables under checked play; non-trivial = at least one checker fault.";
}

fn prop(id: &str) -> Option<&'static Prop> {
    PROPS.iter().find(|p| p.id == id)
}

fn session_seed(seed: u64, id: &str, session: u64) -> u64 {
    let mut h = mix(seed ^ 0x5106_1c0e);
    for b in id.bytes() {
        h = mix(h ^ b as u64);
    }
    mix(h ^ session)
}

fn env_u64(name: &str, d: u64) -> u64 {
    std::env::var(name).ok().and_then(|s| s.parse().ok()).unwrap_or(d)
}

// ------------------------------------------------------------------------------------------------------- sessions

/// CPU and wall-clock seconds after which a session counts as one that does not come to an end.
static mut LIMITS: (i64, i64) = (8, 120);

/// Body of a session process.
fn session_body(p: &Prop, sh: &'static mut Shared, seed: u64, replay: Option<Vec<u32>>, tracing: bool, thorough: bool) -> ! {
    unsafe {
        let t = libc::itimerval {
            it_interval: libc::timeval { tv_sec: 0, tv_usec: 0 },
            it_value: libc::timeval { tv_sec: LIMITS.0, tv_usec: 0 },
        };
        libc::setitimer(libc::ITIMER_PROF, &t, std::ptr::null_mut());
        let t = libc::itimerval {
            it_interval: libc::timeval { tv_sec: 0, tv_usec: 0 },
            it_value: libc::timeval { tv_sec: LIMITS.1, tv_usec: 0 },
        };
        libc::setitimer(libc::ITIMER_REAL, &t, std::ptr::null_mut());
        let r = libc::rlimit { rlim_cur: 3 << 30, rlim_max: 3 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &r);
        let z = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &z);
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
    }
    sh.reset();
    begin(sh, seed, replay, tracing, thorough);
    let r = std::panic::catch_unwind(p.run);
    crate::alloc::l().in_sut = false;
    let s = crate::tape::sh();
    match r {
        Ok(()) => s.finished = 1,
        Err(e) => {
            let m = crate::alloc::payload(&*e);
            if s.violated == 0 {
                s.set_violation("panic", &format!("an operation panicked: {m}"));
                if tracing {
                    trace_line(format_args!("VIOLATED panic: {m}"));
                }
            }
        }
    }
    unsafe { libc::_exit(0) }
}

/// Run one session in a process of its own; the result is in `sh`.
fn run_session(p: &Prop, sh: &mut Shared, seed: u64, replay: Option<Vec<u32>>, tracing: bool, thorough: bool) {
    unsafe {
        let shp: *mut Shared = sh;
        (*shp).finished = 0;
        (*shp).violated = 0;
        let pid = libc::fork();
        if pid == 0 {
            session_body(p, &mut *shp, seed, replay, tracing, thorough);
        }
        assert!(pid > 0, "fork");
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 {}
        let s = &mut *shp;
        if libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == crate::world_b::INFRA {
            libc::_exit(crate::world_b::INFRA);
        }
        if s.violated == 0 {
            if libc::WIFSIGNALED(st) {
                let sig = libc::WTERMSIG(st);
                if sig == libc::SIGPROF || sig == libc::SIGALRM {
                    s.set_violation("hang", "the run does not come to an end (time limit of a session)");
                } else {
                    s.set_violation("crash", &format!("the process died of signal {sig}"));
                }
                if tracing {
                    let m = s.msg_str();
                    begin(s, 0, None, true, thorough);
                    trace_line(format_args!("VIOLATED {m}"));
                }
            } else if s.finished == 0 {
                s.set_violation("crash", &format!("the process exited by itself (status {st:#x})"));
            }
        }
    }
}

// --------------------------------------------------------------------------------------------------- known findings

struct Known {
    prop: String,
    class: String,
    contains: String,
    text: String,
}
fn known_findings() -> Vec<Known> {
    let path = std::env::var("SIM_KNOWN").unwrap_or_else(|_| "/verif/KNOWN_FINDINGS.txt".into());
    let mut v = Vec::new();
    for line in std::fs::read_to_string(path).unwrap_or_default().lines() {
        // known: property=<id> class=<class> contains="<text>" <what fails>
        let Some(rest) = line.strip_prefix("known:") else { continue };
        let get = |k: &str| rest.split_whitespace().find_map(|w| w.strip_prefix(k)).unwrap_or("").to_string();
        let contains = rest.split('"').nth(1).unwrap_or("").to_string();
        if contains.is_empty() {
            continue;
        }
        let text = rest.rsplit('"').next().unwrap_or("").trim().to_string();
        v.push(Known { prop: get("property="), class: get("class="), contains, text });
    }
    v
}

// --------------------------------------------------------------------------------------------------------- workers

#[repr(C)]
struct Agg {
    stop: u64,
    sessions: u64,
    events: u64,
    sim_time: u64,
    steps: u64,
    draws: u64,
    nontrivial: u64,
    overflow: u64,
    known: u64,
    counters: [u64; NCOUNT],
    viol_session: u64, // + 1, 0 = none
    mismatch: u64,
    mismatch_session: u64,
    checked_twice: u64,
    nsets: u64,
    sets_path: [u8; 64],
}
/// The workers' results, in a file they share (they may be processes of two different builds).
fn map_agg(scratch: &str, n: usize) -> &'static mut [Agg] {
    use std::os::fd::AsRawFd;
    let size = std::mem::size_of::<Agg>() * n;
    let f = std::fs::OpenOptions::new().read(true).write(true).create(true).open(format!("{scratch}/agg")).expect("scratch file");
    f.set_len(size as u64).expect("scratch file");
    unsafe {
        let p = libc::mmap(std::ptr::null_mut(), size, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0);
        assert!(p != libc::MAP_FAILED);
        std::slice::from_raw_parts_mut(p as *mut Agg, n)
    }
}

// ------------------------------------------------------------------------------------------------------- two builds

/// This simulator is built twice, with the library's debug assertions and overflow checks ("checked") and without, as
/// shipped ("plain"): what the library does must not depend on them.  Every other session runs in the plain build.
const PLAIN: bool = !cfg!(debug_assertions);
fn wants_plain(p: &Prop, session: u64) -> bool {
    !matches!(p.id, "C08" | "C09") && session % 2 == 1 // those two run the libraries as shipped anyway
}
fn exe(plain: bool) -> std::path::PathBuf {
    if plain == PLAIN {
        return std::env::current_exe().expect("own path");
    }
    let (var, default) = if plain {
        ("SIM_EXE_PLAIN", "/verif/target/sim_plain/plain/shogi_sim")
    } else {
        ("SIM_EXE_CHECKED", "/verif/target/sim/release/shogi_sim")
    };
    std::env::var(var).unwrap_or_else(|_| default.into()).into()
}
fn rerun_in(plain: bool, args: &[String]) -> i32 {
    use std::os::unix::process::CommandExt;
    let e = std::process::Command::new(exe(plain)).args(args).exec();
    eprintln!("{}: {e}", exe(plain).display());
    2
}

fn is_max_counter(i: usize) -> bool {
    COUNTER_NAMES.get(i).map_or(false, |n| n.contains("max"))
}

struct Cfg {
    seed: u64,
    thorough: bool,
    sessions: u64,
    cap: Duration,
    workers: usize,
    scratch: String,
}

fn worker(p: &Prop, cfg: &Cfg, w: usize, aggs: *mut Agg, known: &[Known]) {
    let a = unsafe { &mut *aggs.add(w) };
    let all = unsafe { std::slice::from_raw_parts(aggs, cfg.workers) };
    let sh = Shared::map();
    let start = Instant::now();
    let mut traces: HashSet<u64> = HashSet::new();
    let mut states: HashSet<u64> = HashSet::new();
    let mut i = w as u64;
    while i < cfg.sessions {
        if start.elapsed() > cfg.cap || all.iter().any(|x| unsafe { std::ptr::read_volatile(&x.stop) } != 0) {
            break;
        }
        let seed = session_seed(cfg.seed, p.id, i);
        run_session(p, sh, seed, None, false, cfg.thorough);
        a.sessions += 1;
        a.events += sh.events;
        a.sim_time += sh.sim_time;
        a.steps += sh.steps;
        a.draws += sh.tape_len;
        a.overflow += sh.tape_overflow;
        for k in 0..NCOUNT {
            if is_max_counter(k) {
                a.counters[k] = a.counters[k].max(sh.counters[k]);
            } else {
                a.counters[k] += sh.counters[k];
            }
        }
        if sh.nontrivial > 0 {
            traces.insert(sh.log_hash);
            a.nontrivial += 1;
        }
        for k in 0..sh.states_n as usize {
            if states.len() < 3_000_000 {
                states.insert(sh.states[k]);
            }
        }
        if sh.violated != 0 {
            let (c, m) = (sh.class_str(), sh.msg_str());
            if known.iter().any(|k| k.prop == p.id && (k.class.is_empty() || k.class == c) && m.contains(&k.contains)) {
                a.known += 1;
            } else {
                a.viol_session = i + 1;
                a.stop = 1;
                break;
            }
        } else if i % 67 == 7 || i < 4 {
            // the same seed again must be the same execution
            let (h, e, t) = (sh.log_hash, sh.events, sh.tape_len);
            run_session(p, sh, seed, None, false, cfg.thorough);
            a.checked_twice += 1;
            if sh.violated != 0 || (h, e, t) != (sh.log_hash, sh.events, sh.tape_len) {
                a.mismatch += 1;
                a.mismatch_session = i;
            }
        }
        i += cfg.workers as u64;
    }
    let mut out = Vec::with_capacity(16 + 8 * (traces.len() + states.len()));
    out.extend((traces.len() as u64).to_le_bytes());
    for t in &traces {
        out.extend(t.to_le_bytes());
    }
    for t in &states {
        out.extend(t.to_le_bytes());
    }
    let path = format!("{}/{}", cfg.scratch, w);
    let _ = std::fs::write(path, out);
}

// ----------------------------------------------------------------------------------------------------- minimisation

struct Mini<'a> {
    p: &'a Prop,
    sh: &'static mut Shared,
    class: String,
    thorough: bool,
    until: Instant,
    tries: u64,
}
impl Mini<'_> {
    fn fails(&mut self, t: &[u32]) -> bool {
        if Instant::now() > self.until {
            return false;
        }
        self.tries += 1;
        run_session(self.p, self.sh, 0, Some(t.to_vec()), false, self.thorough);
        self.sh.violated != 0 && self.sh.class_str() == self.class
    }
    fn used(&self) -> usize {
        self.sh.tape_len as usize
    }
    fn run(&mut self, mut t: Vec<u32>) -> Vec<u32> {
        // truncation first: past the end everything is the simplest choice
        if !self.fails(&t) {
            return t;
        }
        t.truncate(self.used());
        let (mut lo, mut hi) = (0, t.len());
        while lo < hi {
            let mid = (lo + hi) / 2;
            if self.fails(&t[..mid]) {
                hi = mid;
            } else {
                lo = mid + 1;
            }
        }
        if self.fails(&t[..hi]) {
            t.truncate(hi);
        }
        for _pass in 0..4 {
            let before = t.clone();
            // delete chunks
            let mut size = (t.len() / 2).max(1);
            loop {
                let mut i = 0;
                while i + size <= t.len() {
                    let mut c = t[..i].to_vec();
                    c.extend_from_slice(&t[i + size..]);
                    if self.fails(&c) {
                        t = c;
                    } else {
                        i += size;
                    }
                }
                if size == 1 || Instant::now() > self.until {
                    break;
                }
                size /= 2;
            }
            // zero chunks, then shrink values
            let mut size = (t.len() / 2).max(1);
            loop {
                let mut i = 0;
                while i < t.len() {
                    let e = (i + size).min(t.len());
                    if t[i..e].iter().any(|&x| x != 0) {
                        let mut c = t.clone();
                        c[i..e].iter_mut().for_each(|x| *x = 0);
                        if self.fails(&c) {
                            t = c;
                        }
                    }
                    i += size;
                }
                if size == 1 || Instant::now() > self.until {
                    break;
                }
                size /= 2;
            }
            for i in 0..t.len() {
                for v in [1, t[i] / 2, t[i].saturating_sub(1)] {
                    if v < t[i] {
                        let mut c = t.clone();
                        c[i] = v;
                        if self.fails(&c) {
                            t = c;
                        }
                    }
                }
            }
            while t.last() == Some(&0) {
                t.pop();
            }
            if t == before || Instant::now() > self.until {
                break;
            }
        }
        t
    }
}

// ----------------------------------------------------------------------------------------------------- replay files

fn write_replay(path: &str, id: &str, class: &str, msg: &str, seed: u64, session: u64, thorough: bool, tape: &[u32], trace: &str) {
    let mut s = String::new();
    s += "# shogi_sim replay; run: ./check.sh replay <this file>\n";
    s += &format!("property={id}\nclass={class}\nmessage={}\nseed={seed}\nsession={session}\nthorough={}\nbuild={}\n", msg.replace('\n', " "), thorough as u8, if PLAIN { "plain" } else { "checked" });
    s += "tape=";
    s += &tape.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",");
    s += "\n--- schedule and fault trace of the run\n";
    s += trace;
    let _ = std::fs::write(path, s);
}
struct ReplayFile {
    id: String,
    class: String,
    msg: String,
    thorough: bool,
    plain: bool,
    tape: Vec<u32>,
}
fn read_replay(path: &str) -> Option<ReplayFile> {
    let s = std::fs::read(path).ok()?;
    let s = String::from_utf8_lossy(&s).into_owned();
    let get = |k: &str| s.lines().take_while(|l| !l.starts_with("---")).find_map(|l| l.strip_prefix(k)).map(str::to_string);
    let tape = get("tape=")?;
    let tape = if tape.is_empty() { Vec::new() } else { tape.split(',').map(|x| x.parse().ok()).collect::<Option<Vec<u32>>>()? };
    Some(ReplayFile {
        id: get("property=")?,
        class: get("class=")?,
        msg: get("message=")?,
        thorough: get("thorough=")? == "1",
        plain: get("build=").map_or(false, |b| b == "plain"),
        tape,
    })
}
fn cmd_replay(path: &str, quiet: bool, args: &[String]) -> i32 {
    let Some(r) = read_replay(path) else {
        eprintln!("cannot read {path}");
        return 2;
    };
    let Some(p) = prop(&r.id) else {
        eprintln!("unknown property {}", r.id);
        return 2;
    };
    if r.plain != PLAIN {
        return rerun_in(r.plain, args);
    }
    let sh = Shared::map();
    run_session(p, sh, 0, Some(r.tape), true, r.thorough);
    if !quiet {
        print!("{}", sh.trace_str());
    }
    if sh.violated == 0 {
        println!("replay: no violation");
        return 0;
    }
    let same = sh.class_str() == r.class && sh.msg_str().replace('\n', " ") == r.msg;
    if !quiet {
        println!("{}: {}", sh.class_str(), sh.msg_str());
        println!("replay: {}", if same { "reproduced exactly" } else { "a violation, but not the recorded one" });
        println!("VIOLATION property={} replay={path}", r.id);
    }
    if same {
        1
    } else {
        3
    }
}

// ------------------------------------------------------------------------------------------------------------ check

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Worker process: args are id, own number, number of workers, seed, sessions, cap, tier, scratch directory.
fn cmd_worker(a: &[String]) -> i32 {
    unsafe { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL) };
    let n = |i: usize| a[i].parse::<u64>().expect("argument");
    let Some(p) = prop(&a[0]) else { return 2 };
    let cfg = Cfg { seed: n(3), sessions: n(4), cap: Duration::from_secs(n(5)), thorough: n(6) == 1, workers: n(2) as usize, scratch: a[7].clone() };
    let aggs = map_agg(&cfg.scratch, cfg.workers);
    worker(p, &cfg, n(1) as usize, aggs.as_mut_ptr(), &known_findings());
    0
}

/// Minimise the violation of a session, write its replay file and confirm it: args are id, seed, session, number of
/// sessions run, tier, scratch directory.  1: done, 4: the session does not fail again.
fn cmd_report(a: &[String]) -> i32 {
    let n = |i: usize| a[i].parse::<u64>().expect("argument");
    let Some(p) = prop(&a[0]) else { return 2 };
    let (id, seed, session, total, thorough, scratch) = (&a[0], n(1), n(2), n(3), n(4) == 1, &a[5]);
    let sh = Shared::map();
    run_session(p, sh, session_seed(seed, id, session), None, false, thorough);
    if sh.violated == 0 {
        return 4;
    }
    let class = sh.class_str();
    let tape = sh.tape[..sh.tape_len as usize].to_vec();
    let original = tape.len();
    // a run that hangs is slow to repeat: shorter limits while minimising
    if class == "hang" {
        unsafe { LIMITS = (1, 20) };
    }
    let budget = 60;
    let mut m = Mini { p, sh: Shared::map(), class: class.clone(), thorough, until: Instant::now() + Duration::from_secs(budget), tries: 0 };
    let mut small = m.run(tape.clone());
    let tries = m.tries;
    unsafe { LIMITS = (8, 120) };
    run_session(p, sh, 0, Some(small.clone()), true, thorough);
    if sh.violated == 0 || sh.class_str() != class {
        small = tape;
        run_session(p, sh, 0, Some(small.clone()), true, thorough);
    }
    let dir = std::env::var("SIM_REPLAYS").unwrap_or_else(|_| "/verif/replays".into());
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{dir}/{id}-{seed}-{session}.replay");
    write_replay(&path, id, &sh.class_str(), &sh.msg_str(), seed, session, thorough, &small, &sh.trace_str());
    // confirm in a fresh process
    let st = std::process::Command::new(exe(PLAIN)).args(["replay-quiet", &path]).status();
    let confirmed = matches!(st.as_ref().map(|s| s.code()), Ok(Some(1)));
    println!("{id}: {}: {}", sh.class_str(), sh.msg_str());
    println!(
        "{id}: found in session {session} ({} build) after {total} sessions; {original} decisions minimised to {} in {tries} runs; replay in a fresh process: {}",
        if PLAIN { "plain" } else { "checked" },
        small.len(),
        if confirmed { "reproduced exactly" } else { "NOT reproduced exactly" }
    );
    println!("VIOLATION property={id} replay={path}");
    let _ = std::fs::write(format!("{scratch}/report"), format!("{}: {}", sh.class_str(), sh.msg_str()));
    1
}

fn cmd_check(id: &str) -> i32 {
    let Some(p) = prop(id) else {
        eprintln!("unknown property {id}");
        return 2;
    };
    let thorough = std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough");
    let seed = env_u64("VERIF_SEED", 1);
    let workers = (env_u64("SIM_WORKERS", 8).max(1) as usize + 1) & !1; // even: each runs sessions of one build
    let sessions = env_u64("SIM_SESSIONS", if thorough { p.quick * 40 } else { p.quick });
    let cap = env_u64("SIM_CAP", if thorough { 780 } else { 120 });
    let scratch = format!("/tmp/shogi_sim.{}.{}", id, std::process::id());
    let _ = std::fs::create_dir_all(&scratch);
    let known = known_findings();
    let start = Instant::now();
    let aggs = map_agg(&scratch, workers);
    let mut children = Vec::new();
    std::io::stdout().flush().ok();
    for w in 0..workers {
        let args: Vec<String> = vec!["worker".into(), id.into(), w.to_string(), workers.to_string(), seed.to_string(), sessions.to_string(), cap.to_string(), (thorough as u8).to_string(), scratch.clone()];
        match std::process::Command::new(exe(wants_plain(p, w as u64))).args(&args).spawn() {
            Ok(c) => children.push(c),
            Err(e) => {
                eprintln!("{}: {e}", exe(wants_plain(p, w as u64)).display());
                aggs.iter_mut().for_each(|a| a.stop = 1);
                for mut c in children {
                    let _ = c.wait();
                }
                return 2;
            }
        }
    }
    let mut bad_worker = false;
    for mut c in children {
        bad_worker |= !c.wait().map_or(false, |s| s.success());
    }
    let explored = start.elapsed().as_secs_f64();
    let mut traces: HashSet<u64> = HashSet::new();
    let mut states: HashSet<u64> = HashSet::new();
    for w in 0..workers {
        let d = std::fs::read(format!("{scratch}/{w}")).unwrap_or_default();
        let mut it = d.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap()));
        let n = it.next().unwrap_or(0);
        for _ in 0..n {
            traces.extend(it.next());
        }
        states.extend(it);
    }
    let sum = |f: &dyn Fn(&Agg) -> u64| aggs.iter().map(f).sum::<u64>();
    let total = sum(&|a| a.sessions);
    let mismatch = sum(&|a| a.mismatch);
    let twice = sum(&|a| a.checked_twice);
    let viol: BTreeSet<u64> = aggs.iter().filter(|a| a.viol_session != 0).map(|a| a.viol_session - 1).collect();
    let sh = Shared::map();

    // samples: first sessions, written out
    let mut samples: Vec<String> = Vec::new();
    for i in (0..80).filter(|&i| wants_plain(p, i) == PLAIN).take(40) {
        if samples.len() >= 3 {
            break;
        }
        let s = session_seed(seed, id, i);
        run_session(p, sh, s, None, true, thorough);
        if sh.nontrivial > 0 {
            let t = sh.trace_str();
            let mut end = t.len().min(1500);
            while !t.is_char_boundary(end) {
                end -= 1;
            }
            samples.push(format!("session {i} ({} decisions, {} events):\n{}{}", sh.tape_len, sh.events, &t[..end], if end < t.len() { "..." } else { "" }));
        }
    }

    // violation: minimise, write, confirm - in the build it was found in
    let mut exit = 0;
    let mut report = String::new();
    if !viol.is_empty() {
        exit = 2;
        for i in &viol {
            let args: Vec<String> = vec!["report".into(), id.into(), seed.to_string(), i.to_string(), total.to_string(), (thorough as u8).to_string(), scratch.clone()];
            let st = std::process::Command::new(exe(wants_plain(p, *i))).args(&args).status();
            if matches!(st.as_ref().map(|s| s.code()), Ok(Some(1))) {
                exit = 1;
                report = std::fs::read_to_string(format!("{scratch}/report")).unwrap_or_default();
                break;
            }
        }
        if exit == 2 {
            eprintln!("{id}: session {} failed once and passed when run again: the simulator is not deterministic here", viol.iter().next().unwrap());
        }
    } else if bad_worker {
        eprintln!("{id}: a worker process of the simulator died");
        exit = 2;
    } else if mismatch > 0 {
        let i = aggs.iter().find(|a| a.mismatch > 0).map_or(0, |a| a.mismatch_session);
        eprintln!("{id}: determinism self-check failed in {mismatch} of {twice} repeated sessions (e.g. session {i})");
        exit = 2;
    } else if total == 0 {
        exit = 2;
    }
    for k in known.iter().filter(|k| k.prop == id) {
        println!("KNOWN-FINDING: property={id} {}", k.text);
    }

    let _ = std::fs::remove_dir_all(&scratch);

    // evidence
    let wall = start.elapsed().as_secs_f64();
    let mut counters = [0u64; NCOUNT];
    for a in aggs.iter() {
        for k in 0..NCOUNT {
            if is_max_counter(k) {
                counters[k] = counters[k].max(a.counters[k]);
            } else {
                counters[k] += a.counters[k];
            }
        }
    }
    let obj = |prefix: &str| {
        let v: Vec<String> = COUNTER_NAMES
            .iter()
            .enumerate()
            .filter(|(i, n)| n.starts_with(prefix) && counters[*i] > 0)
            .map(|(i, n)| format!("{}: {}", json_str(&n[prefix.len()..]), counters[i]))
            .collect();
        format!("{{{}}}", v.join(", "))
    };
    let ev = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {seed},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {total},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"samples\": [{}],\n  \"sessions_planned\": {sessions},\n  \"sessions_nontrivial\": {},\n  \"simulated_runs_per_hour_one_seed_each\": {},\n  \"simulated_time\": {},\n  \"simulated_time_unit\": {},\n  \"scheduler_steps\": {},\n  \"decisions_drawn\": {},\n  \"events_logged\": {},\n  \"faults_injected\": {},\n  \"situations_reached\": {},\n  \"distinct_states\": {},\n  \"determinism_double_runs\": {twice},\n  \"determinism_mismatches\": {mismatch},\n  \"known_findings_hit\": {},\n  \"tape_overflows\": {},\n  \"components_real\": {},\n  \"components_simulated\": {}\n }},\n \"assumptions\": [{}],\n \"wall_s\": {wall:.2},\n \"violations\": {}{}\n}}\n",
        json_str(id),
        json_str(if thorough { "thorough" } else { "quick" }),
        traces.len(),
        json_str(p.rule),
        samples.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", "),
        sum(&|a| a.nontrivial),
        (total as f64 * 3600.0 / explored.max(0.001)) as u64,
        sum(&|a| a.sim_time),
        json_str(p.clock),
        sum(&|a| a.steps),
        sum(&|a| a.draws),
        sum(&|a| a.events),
        obj("fault_"),
        obj("probe_"),
        states.len(),
        sum(&|a| a.known),
        sum(&|a| a.overflow),
        json_str(p.real),
        json_str(p.stub),
        json_str("seeded sampling of schedules, faults and inputs: absence of a violation is evidence, not proof"),
        if exit == 1 { 1 } else { 0 },
        if report.is_empty() { String::new() } else { format!(",\n \"violation\": {}", json_str(&report)) },
    );
    let dir = std::env::var("SIM_EVIDENCE").unwrap_or_else(|_| "/verif/evidence".into());
    let _ = std::fs::create_dir_all(&dir);
    if let Err(e) = std::fs::write(format!("{dir}/{id}.json"), ev) {
        eprintln!("evidence: {e}");
        if exit == 0 {
            exit = 2;
        }
    }
    if exit == 0 {
        println!(
            "{id}: held on {total} simulated runs ({} distinct non-trivial, {} distinct states, {twice} run twice) in {wall:.1} s",
            traces.len(),
            states.len()
        );
    }
    exit
}

pub fn main() -> i32 {
    let args: Vec<String> = std::env::args().collect();
    // fixed address layout, where the system lets us
    unsafe {
        const ADDR_NO_RANDOMIZE: libc::c_ulong = 0x0040000;
        if std::env::var_os("SIM_LAYOUT").is_none() {
            let old = libc::personality(0xffff_ffff);
            if old >= 0 && libc::personality(old as libc::c_ulong | ADDR_NO_RANDOMIZE) >= 0 {
                std::env::set_var("SIM_LAYOUT", "1");
                use std::os::unix::process::CommandExt;
                let e = std::process::Command::new("/proc/self/exe").args(&args[1..]).exec();
                eprintln!("exec: {e}");
            }
        }
    }
    match args.get(1).map(String::as_str) {
        Some("check") if args.len() == 3 => cmd_check(&args[2]),
        Some("replay") if args.len() == 3 => cmd_replay(&args[2], false, &args[1..]),
        Some("replay-quiet") if args.len() == 3 => cmd_replay(&args[2], true, &args[1..]),
        Some("worker") if args.len() == 10 => cmd_worker(&args[2..]),
        Some("report") if args.len() == 8 => cmd_report(&args[2..]),
        Some("list") => {
            for p in PROPS {
                println!("{}", p.id);
            }
            0
        }
        Some("trace") if args.len() == 4 => {
            let Some(p) = prop(&args[2]) else { return 2 };
            let sh = Shared::map();
            let i = args[3].parse().unwrap_or(0);
            if wants_plain(p, i) != PLAIN {
                return rerun_in(!PLAIN, &args[1..]);
            }
            let th = std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough");
            run_session(p, sh, session_seed(env_u64("VERIF_SEED", 1), p.id, i), None, true, th);
            print!("{}", sh.trace_str());
            println!("draws {} events {} log {:x} violated {} {} {}", sh.tape_len, sh.events, sh.log_hash, sh.violated, sh.class_str(), sh.msg_str());
            0
        }
        _ => {
            eprintln!("usage: shogi_sim check <property> | replay <file> | trace <property> <session> | list");
            2
        }
    }
}
