//! World A scenarios about memory: C05, C10, C11.

use crate::alloc::{attempt, clear_plan, l, sut, Outcome, SimPanic};
use crate::gen::*;
use crate::model::*;
use crate::scen_callbacks::{Checker, FaultSink};
use crate::scen_core::steps;
use crate::tape::*;
use shogi_core::*;

fn plan_failure() {
    let lg = l();
    match draw(6) {
        0 | 1 => {
            lg.fail_at = 1 + draw(3) as u64;
            count(K::fault_oom_nth);
        }
        2 => {
            lg.fail_grow = true;
            count(K::fault_oom_growth);
        }
        3 => {
            lg.fail_from = 1 + draw(256) as usize;
            count(K::fault_oom_nth);
        }
        4 => {
            lg.deny_all = true;
            count(K::fault_oom_persistent);
        }
        _ => {
            lg.fail_at = 1;
            count(K::fault_oom_nth);
        }
    }
}

#[derive(Clone, Copy, Debug)]
enum MemOp {
    Make(MMove),
    Checked(MMove),
    Clone,
    Assign(usize),
    Sfen,
    SfenPartial,
    Usi(u32),
    Arbitrary,
    Startpos,
    Default,
    LegalMoves,
    GameClone,
}

/// Result of an operation in comparable form; the position operated on is `pool[i]`.
fn run_op(pool: &mut Vec<Position>, i: usize, op: MemOp) -> String {
    match op {
        MemOp::Make(m) => format_outside(|| String::new(), pool[i].make_move(lmove(m)).is_some()),
        MemOp::Checked(m) => {
            let c = Checker::always_ok();
            let r = LegalityChecker::make_move(&c, &mut pool[i], lmove(m));
            crate::alloc::outside(|| format!("{r:?}"))
        }
        MemOp::Clone => {
            let c = pool[i].clone();
            crate::alloc::outside(|| {
                let s = summary(&c);
                pool[i] = c;
                s
            })
        }
        MemOp::Assign(j) => {
            if i == j {
                return crate::alloc::outside(|| summary(&pool[i]));
            }
            let (a, b) = if i < j {
                let (x, y) = pool.split_at_mut(j);
                (&mut x[i], &y[0])
            } else {
                let (x, y) = pool.split_at_mut(i);
                (&mut y[0], &x[j])
            };
            a.clone_from(b);
            crate::alloc::outside(|| summary(&pool[i]))
        }
        MemOp::Sfen => keep(pool[i].to_sfen_owned()),
        MemOp::SfenPartial => keep(pool[i].inner().to_sfen_owned()),
        MemOp::Usi(k) => {
            let p = &pool[i];
            keep(match k {
                0 => p.side_to_move().to_usi_owned(),
                1 => [p.hand_of_a_player(Color::Black), p.hand_of_a_player(Color::White)].to_usi_owned(),
                2 => p.last_move().map_or_else(String::new, |m| m.to_usi_owned()),
                3 => p.last_compact_move().map_or_else(String::new, |m| m.to_usi_owned()),
                4 => p.piece_at(lsq(41)).map_or_else(String::new, |m| m.to_usi_owned()),
                5 => PieceKind::ProRook.to_usi_owned(),
                _ => Square::SQ_5E.to_usi_owned(),
            })
        }
        MemOp::Arbitrary => {
            let c = Position::arbitrary_position(pool[i].inner().clone());
            crate::alloc::outside(|| {
                let s = summary(&c);
                pool[i] = c;
                s
            })
        }
        MemOp::Startpos | MemOp::Default => {
            let c = if matches!(op, MemOp::Default) { Position::default() } else { Position::startpos() };
            crate::alloc::outside(|| {
                let s = summary(&c);
                pool[i] = c;
                s
            })
        }
        MemOp::LegalMoves => {
            let c = Checker::always_ok();
            let v = c.all_legal_moves(&pool[i]);
            crate::alloc::outside(|| format!("{v:?}"))
        }
        MemOp::GameClone => {
            let g = Game::default().clone();
            crate::alloc::outside(|| summary(g.position()))
        }
    }
}
fn keep(s: String) -> String {
    crate::alloc::outside(|| s.as_str().to_owned())
}
fn format_outside(_: impl Fn() -> String, ok: bool) -> String {
    crate::alloc::outside(|| format!("{ok}"))
}
fn summary(p: &Position) -> String {
    format!("{} after {} with {:?}", observe(p.inner()).sfen(), observe(p.initial_position()).sfen(), p.moves())
}

pub fn ledger_check(ctx: &str) {
    if let Some(e) = l().error {
        fail!(e, "{ctx}: allocator reports {e}: {:?}", l().error_ptr);
    }
}

/// Positions with records that end on or near the capacities at which a record grows.
fn mem_pool(n: usize) -> Vec<Position> {
    let mut pool: Vec<Position> = Vec::new();
    for _ in 0..n {
        let g = gen_pos(PosOpts { max_kings: 2, allow_ply0: false });
        let mut pp = build(&g, false);
        crate::scen_core::aged(&mut pp);
        let mut o = observe(&pp);
        pool.push(Position::arbitrary_position(pp));
        // land on or near the capacities at which a record grows
        let mut len = pick(&[0u32, 0, 1, 3, 4, 5, 7, 8, 15, 16, 31, 32, 63, 64, 127, 128]);
        if draw(12) == 11 {
            len = pick(&[255u32, 256, 511, 512, 1023, 1024, 2047, 2048, 4095, 4096]);
            count(K::probe_long_history);
        }
        let p = pool.last_mut().unwrap();
        if len > 128 {
            let Some(sh) = crate::scen_record::find_shuffle(&o) else { continue };
            for i in 0..len {
                let _ = sut(|| p.make_move(lmove(sh[i as usize % 4])));
            }
            continue;
        }
        for _ in 0..len {
            if let Some(m) = gen_sensible(&o) {
                if sut(|| p.make_move(lmove(m)).is_some()) {
                    o.apply(m);
                }
            }
        }
    }
    pool
}

fn gen_op(n: usize, o: &MPos) -> MemOp {
    let mv = if draw(6) == 5 { gen_garbage(o) } else { gen_sensible(o).unwrap_or_else(|| gen_garbage(o)) };
    match draw(16) {
        0..=5 => MemOp::Make(mv),
        6 => {
            if o.sensible(mv) {
                MemOp::Checked(mv)
            } else {
                MemOp::Make(mv)
            }
        }
        7 | 8 => MemOp::Clone,
        9 => MemOp::Assign(draw(n as u32) as usize),
        10 => MemOp::Sfen,
        11 => MemOp::SfenPartial,
        12 => MemOp::Usi(draw(7)),
        13 => match draw(4) {
            0 => MemOp::Arbitrary,
            1 => MemOp::Startpos,
            2 => MemOp::Default,
            _ => MemOp::GameClone,
        },
        14 => MemOp::LegalMoves,
        _ => MemOp::Make(mv),
    }
}

pub fn c05() {
    let n = 1 + draw(3) as usize;
    let mut pool = mem_pool(n);
    let steps = steps(24, 120);
    for step in 0..steps {
        let i = draw(n as u32) as usize;
        let op = gen_op(n, &observe(pool[i].inner()));
        ev(8, step as u64, i as u64);
        let inject = draw(3) != 0;
        if !inject {
            let _ = sut(|| run_op(&mut pool, i, op));
            continue;
        }
        // what the operation gives when memory is available, on copies
        let before: Vec<FullPosition> = pool.iter().map(full).collect();
        let copies = pool.clone();
        let mut twins = pool.clone();
        let want = run_op(&mut twins, i, op);
        let tries = 1 + draw(3);
        let persistent = draw(3) == 2;
        for t in 0..tries {
            let (live, bytes) = (l().live, l().live_bytes);
            let inj = l().injected;
            if persistent {
                l().deny_all = true;
                count(K::fault_oom_persistent);
            } else {
                plan_failure();
            }
            let r = attempt(|| run_op(&mut pool, i, op));
            clear_plan();
            let hit = l().injected > inj;
            let ctx = format!("step {step}, attempt {t}: {op:?} on position {i} ({} moves)", before[i].moves.len());
            ledger_check(&ctx);
            match r {
                Outcome::Done(got) => {
                    check!(got == want, "oom-wrong-result", "{ctx}: completed{} with {got:?}, expected {want:?}", if hit { " although an allocation failed" } else { "" });
                    break;
                }
                Outcome::Oom | Outcome::Panicked(_) => {
                    let how = match r {
                        Outcome::Panicked(s) => s,
                        _ => "allocation error".into(),
                    };
                    check!(hit, "panic", "{ctx}: panicked without a failed allocation: {how}");
                    fault(K::probe_oom_surfaced);
                    trace!("{ctx}: {how}");
                    for (k, b) in before.iter().enumerate() {
                        let a = full(&pool[k]);
                        check!(a.moves == b.moves, "oom-changed", "{ctx}: after the failure position {k} has {} recorded moves instead of {}", a.moves.len(), b.moves.len());
                        check!(a.inner == b.inner, "oom-changed", "{ctx}: after the failure position {k} changed: {}", diff_views(&a.inner, &b.inner));
                        check!(a == *b && pool[k] == copies[k], "oom-changed", "{ctx}: after the failure position {k} differs from a copy taken before");
                    }
                    check!(l().live == live && l().live_bytes == bytes, "oom-leak", "{ctx}: the failed attempt left {} blocks / {} bytes allocated", l().live as i64 - live as i64, l().live_bytes as i64 - bytes as i64);
                    // memory is back
                    if t + 1 == tries {
                        let got = sut(|| run_op(&mut pool, i, op));
                        check!(got == want, "oom-retry-differs", "{ctx}: retried with memory available gives {got:?}, expected {want:?}");
                        count(K::probe_retry_ok);
                    }
                }
            }
        }
        for k in 0..n {
            let (a, b) = (full(&pool[k]), full(&twins[k]));
            check!(a == b && pool[k] == twins[k], "oom-retry-differs", "step {step}: after {op:?} was finally done, position {k} differs from one that never ran out of memory: {}", diff_views(&a.inner, &b.inner));
        }
        state(before[i].inner.core.hash64());
    }
}

// ---------------------------------------------------------------------------------------------------------- C10

enum Obj {
    Pos(Position),
    CPos(*mut Position),
    Str(String),
    Gm(Game),
    Mv(Vec<Move>),
}
struct Owned {
    o: Obj,
    blocks: Vec<u32>,
    shown: String,
    /// copies of each other, which may share memory
    family: u32,
}

fn new_blocks(since: u32) -> Vec<u32> {
    l().blocks.iter().filter(|b| b.st == crate::alloc::St::Live && b.id > since).map(|b| b.id).collect()
}
fn last_id() -> u32 {
    l().blocks.iter().map(|b| b.id).max().unwrap_or(0)
}
fn show(o: &Obj) -> String {
    match o {
        Obj::Pos(p) => summary(p),
        Obj::CPos(p) => summary(unsafe { &**p }),
        Obj::Str(s) => s.clone(),
        Obj::Gm(g) => summary(g.position()),
        Obj::Mv(v) => format!("{v:?}"),
    }
}

pub fn c10() {
    let mut pool: Vec<Owned> = Vec::new();
    let live0 = l().live;
    let steps = steps(40, 150);
    for step in 0..steps {
        let since = l_next();
        let fail = draw(5) == 4;
        if fail {
            plan_failure();
            nontrivial();
        }
        let pick_pos = |pool: &Vec<Owned>| -> Option<usize> {
            let v: Vec<usize> = (0..pool.len()).filter(|&i| matches!(pool[i].o, Obj::Pos(_) | Obj::CPos(_))).collect();
            if v.is_empty() {
                None
            } else {
                Some(v[draw(v.len() as u32) as usize])
            }
        };
        let op = draw(20);
        ev(9, op as u64, pool.len() as u64);
        let mut made: Option<Obj> = None;
        let mut touched: Option<usize> = None;
        let mut family = step + 1;
        let mut what = "";
        match op {
            0 | 1 => {
                what = "create";
                let k = draw(4);
                let g = gen_pos(PosOpts { max_kings: 2, allow_ply0: false });
                let mut pp = build(&g, false);
                crate::scen_core::aged(&mut pp);
                let c_ok = !fail; // the C constructor may not unwind
                made = match attempt(|| match k {
                    0 => Obj::Pos(Position::startpos()),
                    1 if c_ok => Obj::CPos(Position::Position_startpos()),
                    2 => Obj::Gm(Game::default()),
                    _ => Obj::Pos(Position::arbitrary_position(pp)),
                }) {
                    Outcome::Done(o) => Some(o),
                    _ => None,
                };
            }
            2 if !fail => {
                what = "create from C";
                made = Some(Obj::CPos(sut(|| Position::Position_startpos())));
            }
            3..=9 => {
                what = "move";
                if let Some(i) = pick_pos(&pool) {
                    touched = Some(i);
                    let burst = if draw(4) == 3 { 20 + draw(60) } else { 1 + draw(4) };
                    for _ in 0..burst {
                        let p: &mut Position = match &mut pool[i].o {
                            Obj::Pos(p) => p,
                            Obj::CPos(p) => unsafe { &mut **p },
                            _ => unreachable!(),
                        };
                        let o = observe(p.inner());
                        let m = if draw(4) == 3 { gen_garbage(&o) } else { gen_sensible(&o).unwrap_or_else(|| gen_garbage(&o)) };
                        let compact = !fail && draw(2) == 1; // the C form may not unwind
                        let checked = draw(5) == 4 && o.sensible(m);
                        let r = attempt(|| {
                            if checked {
                                let c = Checker::drawn();
                                let _ = LegalityChecker::make_move(&c, p, lmove(m));
                            } else if compact {
                                let _ = p.make_compact_move(lcompact(m));
                            } else {
                                let _ = p.make_move(lmove(m));
                            }
                        });
                        if matches!(r, Outcome::Oom) {
                            count(K::probe_oom_surfaced);
                        }
                        if matches!(r, Outcome::Panicked(_)) {
                            count(K::fault_checker_panic);
                        }
                    }
                }
            }
            10 | 11 => {
                what = "copy";
                count(K::probe_copy);
                if !pool.is_empty() {
                    let i = draw(pool.len() as u32) as usize;
                    family = pool[i].family;
                    made = match attempt(|| match &pool[i].o {
                        Obj::Pos(p) => Obj::Pos(p.clone()),
                        Obj::CPos(p) => Obj::Pos(unsafe { (**p).clone() }),
                        Obj::Str(s) => Obj::Str(s.clone()),
                        Obj::Gm(g) => Obj::Gm(g.clone()),
                        Obj::Mv(v) => Obj::Mv(v.clone()),
                    }) {
                        Outcome::Done(o) => Some(o),
                        _ => None,
                    };
                }
            }
            12 => {
                what = "assign";
                count(K::probe_assign);
                if let (Some(i), Some(j)) = (pick_pos(&pool), pick_pos(&pool)) {
                    if i != j {
                        touched = Some(i);
                        let (was, now) = (pool[i].family, pool[j].family);
                        pool.iter_mut().filter(|x| x.family == was).for_each(|x| x.family = now);
                        let src: *const Position = match &pool[j].o {
                            Obj::Pos(p) => p,
                            Obj::CPos(p) => *p,
                            _ => unreachable!(),
                        };
                        let dst: &mut Position = match &mut pool[i].o {
                            Obj::Pos(p) => p,
                            Obj::CPos(p) => unsafe { &mut **p },
                            _ => unreachable!(),
                        };
                        let by_value = draw(2) == 0;
                        let _ = attempt(|| {
                            if by_value {
                                *dst = unsafe { (*src).clone() };
                            } else {
                                dst.clone_from(unsafe { &*src });
                            }
                        });
                    }
                }
            }
            13 | 14 => {
                what = "text";
                if let Some(i) = pick_pos(&pool) {
                    let p: *const Position = match &pool[i].o {
                        Obj::Pos(p) => p,
                        Obj::CPos(p) => *p,
                        _ => unreachable!(),
                    };
                    let k = draw(6);
                    made = match attempt(|| unsafe {
                        Obj::Str(match k {
                            0 => (*p).to_sfen_owned(),
                            1 => (*p).inner().to_sfen_owned(),
                            2 => [(*p).hand_of_a_player(Color::Black), (*p).hand_of_a_player(Color::White)].to_usi_owned(),
                            3 => (*p).last_move().map_or(String::new(), |m| m.to_usi_owned()),
                            4 => (*p).last_compact_move().map_or(String::new(), |m| m.to_usi_owned()),
                            _ => (*p).side_to_move().to_usi_owned(),
                        })
                    }) {
                        Outcome::Done(o) => Some(o),
                        _ => None,
                    };
                }
            }
            15 => {
                what = "render into a faulty sink";
                if let Some(i) = pick_pos(&pool) {
                    let p: *const Position = match &pool[i].o {
                        Obj::Pos(p) => p,
                        Obj::CPos(p) => *p,
                        _ => unreachable!(),
                    };
                    let mut s = FaultSink::drawn();
                    let _ = attempt(|| unsafe { (*p).inner().to_sfen(&mut s) });
                    let mut s = FaultSink::drawn();
                    let m = MMove::Normal { from: gen_sq(), to: gen_sq(), promote: true };
                    let _ = attempt(|| lmove(m).to_usi(&mut s));
                }
            }
            16 => {
                what = "list";
                if let Some(i) = pick_pos(&pool) {
                    let p: *const Position = match &pool[i].o {
                        Obj::Pos(p) => p,
                        Obj::CPos(p) => *p,
                        _ => unreachable!(),
                    };
                    let c = Checker::drawn();
                    made = match attempt(|| Obj::Mv(unsafe { c.all_legal_moves(&*p) })) {
                        Outcome::Done(o) => Some(o),
                        _ => None,
                    };
                }
            }
            _ => {
                // destroy, from the Rust or the C side
                clear_plan();
                if !pool.is_empty() {
                    let i = draw(pool.len() as u32) as usize;
                    destroy(&mut pool, i, &format!("step {step}"));
                }
            }
        }
        clear_plan();
        let ctx = format!("step {step} ({what})");
        trace!("{ctx}: {} objects, {} live blocks", pool.len(), l().live);
        ledger_check(&ctx);
        let fresh = new_blocks(since);
        match (made, touched) {
            (Some(o), _) => {
                let shown = show(&o);
                pool.push(Owned { o, blocks: fresh, shown, family });
            }
            (None, Some(i)) => {
                pool[i].blocks.extend(fresh);
                pool[i].shown = show(&pool[i].o);
            }
            (None, None) => {
                check!(fresh.is_empty(), "leak", "{ctx}: {} blocks stay allocated though nothing was created", fresh.len());
            }
        }
        // nobody lost anything meanwhile
        if !pool.is_empty() && draw(3) == 0 {
            let i = draw(pool.len() as u32) as usize;
            let now = show(&pool[i].o);
            check!(now == pool[i].shown, "released-early", "{ctx}: object {i} lost its contents: {now:?} was {:?}", pool[i].shown);
        }
        state(mix((l().live as u64) << 32 | pool.len() as u64));
    }
    while !pool.is_empty() {
        let i = draw(pool.len() as u32) as usize;
        destroy(&mut pool, i, "end");
    }
    ledger_check("end");
    check!(l().live == live0, "leak", "end: {} blocks ({} bytes) still allocated after everything was destroyed", l().live - live0, l().live_bytes);
}

fn l_next() -> u32 {
    last_id()
}

fn destroy(pool: &mut Vec<Owned>, i: usize, ctx: &str) {
    count(K::probe_destroy);
    let now = show(&pool[i].o);
    check!(now == pool[i].shown, "released-early", "{ctx}: object {i} lost its contents before destruction: {now:?} was {:?}", pool[i].shown);
    let x = pool.swap_remove(i);
    let (blocks, family) = (x.blocks, x.family);
    sut(|| match x.o {
        Obj::Pos(p) => drop(p),
        Obj::CPos(p) => {
            count(K::probe_c_destroy);
            unsafe { Position::Position_destruct(p) }
        }
        Obj::Str(s) => drop(s),
        Obj::Gm(g) => drop(g),
        Obj::Mv(v) => drop(v),
    });
    ledger_check(&format!("{ctx}: destroying object {i}"));
    let left: Vec<u32> = l().blocks.iter().filter(|b| b.st == crate::alloc::St::Live && blocks.contains(&b.id)).map(|b| b.id).collect();
    // a copy may share it, and release it then
    match pool.iter_mut().find(|x| x.family == family) {
        Some(x) => x.blocks.extend(left),
        None => check!(left.is_empty(), "leak", "{ctx}: destroying object {i} left {} of its blocks allocated", left.len()),
    }
}

// ---------------------------------------------------------------------------------------------------------- C11

/// A sink without memory of its own.
pub struct FixedSink {
    pub buf: [u8; 4096],
    pub n: usize,
}
impl core::fmt::Write for FixedSink {
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        for &b in s.as_bytes() {
            if self.n < self.buf.len() {
                self.buf[self.n] = b;
            }
            self.n += 1;
        }
        Ok(())
    }
}
impl FixedSink {
    fn new() -> FixedSink {
        FixedSink { buf: [0; 4096], n: 0 }
    }
    fn text(&self) -> &str {
        std::str::from_utf8(&self.buf[..self.n.min(4096)]).unwrap_or("(not text)")
    }
}

struct Fnv(u64);
impl std::hash::Hasher for Fnv {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for &x in b {
            self.0 = (self.0 ^ x as u64).wrapping_mul(0x100_0000_01b3);
        }
    }
}
fn h<T: std::hash::Hash>(t: &T) -> u64 {
    let mut f = Fnv(0xcbf2_9ce4_8422_2325);
    t.hash(&mut f);
    f.0
}

/// Run a core operation under the shortage: no request, no panic; returns its result.
fn core<R>(what: &dyn Fn() -> String, f: impl FnOnce() -> R) -> R {
    let before = l().requests;
    l().deny_all = true;
    let r = attempt(f);
    l().deny_all = false;
    count(K::probe_core_op);
    match r {
        Outcome::Done(r) => {
            check!(l().requests == before, "allocates", "{} asked for memory", what());
            r
        }
        Outcome::Oom => fail!("allocates", "{} asked for memory", what()),
        Outcome::Panicked(s) => fail!("panics", "{} panicked: {s}", what()),
    }
}

macro_rules! expect {
    ($what:expr, $got:expr, $want:expr) => {{
        let w = || format!("{}", $what);
        let got = core(&w, || $got);
        let want = $want;
        check!(got == want, "wrong-result", "{} gives {:?}, expected {:?}", w(), got, want);
    }};
}

fn small_ops() {
    let s = gen_sq();
    let t = gen_sq();
    let (f, r) = (file_of(s), rank_of(s));
    let c = 1 + draw(2) as u8;
    let k = gen_kind();
    let q = piece(k, c);
    match draw(40) {
        0 => {
            let (a, b) = if draw(2) == 0 { (draw(12) as u8, draw(12) as u8) } else { (draw(256) as u8, draw(256) as u8) };
            let ok = (1..=9).contains(&a) && (1..=9).contains(&b);
            expect!(format_args!("Square::new({a},{b})"), Square::new(a, b).map_or(0, msq), if ok { sq_of(a, b) } else { 0 });
            let w = if !ok { 0 } else if c == 1 { sq_of(a, b) } else { sq_of(10 - a, 10 - b) };
            expect!(format_args!("Square::new_relative({a},{b},{c})"), Square::new_relative(a, b, lcolor(c)).map_or(0, msq), w);
            expect!(format_args!("Square_new({a},{b})"), <Option<Square>>::from(Square::Square_new(a, b)).map_or(0, msq), if ok { sq_of(a, b) } else { 0 });
            expect!(format_args!("Square_new_relative({a},{b},{c})"), <Option<Square>>::from(Square::Square_new_relative(a, b, lcolor(c))).map_or(0, msq), w);
        }
        1 => {
            expect!(format_args!("file/rank/index of {s}"), (lsq(s).file(), lsq(s).rank(), lsq(s).index()), (f, r, s));
            let w = if c == 1 { (f, r) } else { (10 - f, 10 - r) };
            expect!(format_args!("relative file/rank of {s} for {c}"), (lsq(s).relative_file(lcolor(c)), lsq(s).relative_rank(lcolor(c))), w);
            expect!(format_args!("flip of {s}"), msq(lsq(s).flip()), 82 - s);
            expect!(format_args!("array_index of {s}"), lsq(s).array_index(), s as usize - 1);
        }
        2 => {
            let v = draw(256) as u8;
            expect!(format_args!("Square::from_u8({v})"), Square::from_u8(v).map_or(0, msq), if (1..=81).contains(&v) { v } else { 0 });
            expect!(format_args!("PieceKind::from_u8({v})"), PieceKind::from_u8(v).map_or(0, mkind), if (1..=14).contains(&v) { v } else { 0 });
            expect!(format_args!("IllegalMoveKind::from_u8({v})"), IllegalMoveKind::from_u8(v).map_or(0, |x| x as u8), if (1..=7).contains(&v) { v } else { 0 });
        }
        3 | 4 => {
            let (df, dr) = if draw(2) == 0 { (draw(19) as i32 - 9, draw(19) as i32 - 9) } else { (draw(256) as i32 - 128, draw(256) as i32 - 128) };
            let (nf, nr) = (f as i32 + df, r as i32 + dr);
            let w = if (1..=9).contains(&nf) && (1..=9).contains(&nr) { sq_of(nf as u8, nr as u8) } else { 0 };
            expect!(format_args!("shift of {s} by ({df},{dr})"), lsq(s).shift(df as i8, dr as i8).map_or(0, msq), w);
        }
        5 => expect!("Square::all", Square::all().map(msq).fold((0u32, 0u64), |a, x| (a.0 + 1, a.1 * 83 % 1_000_000_007 + x as u64)), (1..=81u8).fold((0u32, 0u64), |a, x| (a.0 + 1, a.1 * 83 % 1_000_000_007 + x as u64))),
        6 => {
            expect!(format_args!("parts of {q}"), (mkind(lpiece(q).piece_kind()), mcolor(lpiece(q).color()), lpiece(q).as_u8()), (k, c, q));
            expect!(format_args!("to_parts of {q}"), (mkind(lpiece(q).to_parts().0), mcolor(lpiece(q).to_parts().1)), (k, c));
            expect!(format_args!("Piece::new({k},{c})"), mpiece(Piece::new(lkind(k), lcolor(c))), q);
        }
        7 => {
            let w = promote_kind(k).map_or(0, |x| piece(x, c));
            let u = unpromote_kind(k).map_or(0, |x| piece(x, c));
            expect!(format_args!("promote {q}"), lpiece(q).promote().map_or(0, mpiece), w);
            expect!(format_args!("unpromote {q}"), lpiece(q).unpromote().map_or(0, mpiece), u);
            expect!(format_args!("kind promote {k}"), lkind(k).promote().map_or(0, mkind), promote_kind(k).unwrap_or(0));
            expect!(format_args!("kind unpromote {k}"), lkind(k).unpromote().map_or(0, mkind), unpromote_kind(k).unwrap_or(0));
            expect!(format_args!("Piece_promote {q}"), <Option<Piece>>::from(lpiece(q).Piece_promote()).map_or(0, mpiece), w);
            expect!(format_args!("Piece_unpromote {q}"), <Option<Piece>>::from(lpiece(q).Piece_unpromote()).map_or(0, mpiece), u);
        }
        8 => {
            expect!("Piece::all", Piece::all().iter().map(|&p| mpiece(p) as u32).sum::<u32>(), all_pieces().map(|x| x as u32).sum::<u32>());
            expect!("PieceKind::all", PieceKind::all().iter().enumerate().all(|(i, &x)| mkind(x) as usize == i + 1), true);
            expect!("Color::all", Color::all().map(mcolor), [1, 2]);
            expect!(format_args!("flip of colour {c}"), mcolor(lcolor(c).flip()), 3 - c);
            expect!(format_args!("array_index of colour {c}"), lcolor(c).array_index(), c as usize - 1);
            expect!(format_args!("array_index of kind {k}"), lkind(k).array_index(), k as usize - 1);
            #[cfg(feature = "std")]
            expect!(format_args!("array_index of piece {q}"), lpiece(q).array_index(), q as usize - 1);
        }
        9 | 10 | 11 => {
            let (hm, hl) = gen_hand_obj();
            let mut a = hm;
            let want_add = if k <= 7 {
                a[k as usize] = a[k as usize].wrapping_add(1);
                Some(a)
            } else {
                None
            };
            let mut b = hm;
            let want_rem = if k <= 7 && b[k as usize] > 0 {
                b[k as usize] -= 1;
                Some(b)
            } else {
                None
            };
            expect!(format_args!("hand {hm:?} added {k}"), hl.added(lkind(k)).map(mhand), want_add);
            expect!(format_args!("hand {hm:?} removed {k}"), hl.removed(lkind(k)).map(mhand), want_rem);
            expect!(format_args!("hand {hm:?} count {k}"), hl.count(lkind(k)), if k <= 7 { Some(hm[k as usize]) } else { None });
            expect!(format_args!("hand {hm:?} C count {k}"), hl.Hand_count(lkind(k)), if k <= 7 { hm[k as usize] } else { 0 });
            let mut x = hl;
            expect!(format_args!("hand {hm:?} C add {k}"), (x.Hand_add(lkind(k)), mhand(x)), (want_add.is_some(), want_add.unwrap_or(hm)));
            let mut x = hl;
            expect!(format_args!("hand {hm:?} C remove {k}"), (x.Hand_remove(lkind(k)), mhand(x)), (want_rem.is_some(), want_rem.unwrap_or(hm)));
            expect!(format_args!("is_hand_piece {k}"), (Hand::is_hand_piece(lkind(k)), Hand::Hand_is_hand_piece(lkind(k))), (k <= 7, k <= 7));
            expect!("all_hand_pieces", Hand::all_hand_pieces().enumerate().map(|(i, x)| (mkind(x) as usize == i + 1) as usize).sum::<usize>(), 7);
            let (gm, gl) = gen_hand_obj();
            let two = [hm, gm];
            let want = hands_usi(&two);
            let w = || format!("text of hands {two:?}");
            let got = core(&w, || {
                let mut s = FixedSink::new();
                let _ = [hl, gl].to_usi(&mut s);
                s
            });
            check!(got.text() == want, "wrong-result", "{} gives {:?}, expected {want:?}", w(), got.text());
            expect!(format_args!("hand {hm:?} == {gm:?}"), hl == gl, hm == gm);
            expect!(format_args!("hand {hm:?} cmp {gm:?}"), hl.cmp(&gl) == gl.cmp(&hl).reverse(), true);
            expect!(format_args!("hash of hand {hm:?}"), h(&hl) == h(&lhand(hm)), true);
        }
        12..=21 => {
            let (a, b) = (gen_set(), gen_set());
            let (la, lb) = (lset(a), lset(b));
            let n = draw(10) as u8;
            match draw(16) {
                0 => expect!(format_args!("{a:#x} | {b:#x}"), mset(la | lb), a | b),
                1 => expect!(format_args!("{a:#x} & {b:#x}"), mset(la & lb), a & b),
                2 => expect!(format_args!("{a:#x} ^ {b:#x}"), mset(la ^ lb), a ^ b),
                3 => {
                    expect!(format_args!("!{a:#x}"), mset(!la), ALL & !a);
                    expect!(format_args!("!&{a:#x}"), mset(!&la), ALL & !a);
                }
                4 => expect!(format_args!("{a:#x} andnot {b:#x}"), mset(la.andnot(lb)), !a & b),
                5 => expect!(format_args!("or/and/xor of {a:#x} {b:#x}"), (mset(la.or(lb)), mset(la.and(lb)), mset(la.xor(lb))), (a | b, a & b, a ^ b)),
                6 => {
                    let mut w = 0u128;
                    for i in 1..=81 {
                        if a >> i & 1 != 0 {
                            w |= 1 << (82 - i);
                        }
                    }
                    expect!(format_args!("flip of {a:#x}"), mset(la.flip()), w)
                }
                7 => expect!(format_args!("count/is_empty of {a:#x}"), (la.count() as u32, la.is_empty()), (a.count_ones(), a == 0)),
                8 => expect!(format_args!("{a:#x} contains {s}"), la.contains(lsq(s)), a >> s & 1 != 0),
                9 => expect!(format_args!("single {s}"), (mset(Bitboard::single(lsq(s))), mset(Bitboard::Bitboard_single(lsq(s)))), (1u128 << s, 1u128 << s)),
                10 => {
                    let w = || format!("iteration of {a:#x}");
                    let got = core(&w, || {
                        let mut r = 0u128;
                        let mut n = 0;
                        for x in la {
                            let x = msq(x);
                            n += 1;
                            // every member once; the order is unspecified
                            if r >> x & 1 != 0 || n > 81 {
                                return u128::MAX;
                            }
                            r |= 1 << x;
                        }
                        r
                    });
                    check!(got == a, "wrong-result", "{} gives {got:#x}", w());
                    // which member is popped is unspecified
                    let popped = |x: u8, rest: u128| if a == 0 { x == 0 && rest == 0 } else { (1..=81).contains(&x) && a >> x & 1 != 0 && rest == a & !(1 << x) };
                    let mut x = la;
                    expect!(format_args!("pop of {a:#x}"), { let r = x.pop().map_or(0, msq); popped(r, mset(x)) }, true);
                    let mut x = la;
                    expect!(format_args!("C pop of {a:#x}"), { let r = <Option<Square>>::from(x.Bitboard_pop()).map_or(0, msq); popped(r, mset(x)) }, true);
                }
                11 => {
                    // the four shifts
                    let sh = |df: i32, dr: i32| {
                        let mut w = 0u128;
                        for i in 1..=81u8 {
                            if a >> i & 1 != 0 {
                                let (x, y) = (file_of(i) as i32 + df, rank_of(i) as i32 + dr);
                                if (1..=9).contains(&x) && (1..=9).contains(&y) {
                                    w |= 1 << sq_of(x as u8, y as u8);
                                }
                            }
                        }
                        w
                    };
                    let d = n as i32;
                    expect!(format_args!("{a:#x} shifted down by {n}"), mset(unsafe { la.shift_down(n) }), sh(0, d));
                    expect!(format_args!("{a:#x} shifted up by {n}"), mset(unsafe { la.shift_up(n) }), sh(0, -d));
                    expect!(format_args!("{a:#x} shifted left by {n}"), mset(unsafe { la.shift_left(n) }), sh(d, 0));
                    expect!(format_args!("{a:#x} shifted right by {n}"), mset(unsafe { la.shift_right(n) }), sh(-d, 0));
                }
                12 => {
                    let pat = (a >> sq_of(f, 1) & 0x1ff) as u16;
                    expect!(format_args!("file {f} of {a:#x}"), unsafe { la.get_file_unchecked(f) }, pat);
                    let p = draw(512) as u16;
                    expect!(format_args!("from_file({f},{p:#x})"), mset(unsafe { Bitboard::from_file_unchecked(f, p) }), (p as u128) << sq_of(f, 1));
                }
                13 => {
                    expect!(format_args!("swap_bytes round trip of {a:#x}"), mset(la.swap_bytes().swap_bytes()), a);
                    expect!(format_args!("swapped ops of {a:#x} {b:#x}"), (
                        mset(la.swap_bytes().or(lb.swap_bytes()).swap_bytes()),
                        mset(la.swap_bytes().and(lb.swap_bytes()).swap_bytes()),
                        mset(la.swap_bytes().xor(lb.swap_bytes()).swap_bytes()),
                        mset(la.swap_bytes().andnot(lb.swap_bytes()).swap_bytes())
                    ), (a | b, a & b, a ^ b, !a & b));
                    expect!(format_args!("raw round trip of {a:#x}"), (mset(unsafe { Bitboard::from_u128_unchecked(la.to_u128()) }), mset(unsafe { ByteSwappedBitboard::from_u128_unchecked(la.swap_bytes().to_u128()) }.swap_bytes())), (a, a));
                }
                14 => {
                    let mut x = la;
                    expect!(format_args!("assigning ops {a:#x} {b:#x}"), {
                        x |= lb;
                        let y = mset(x);
                        x &= la;
                        let z = mset(x);
                        x ^= lb;
                        (y, z, mset(x))
                    }, (a | b, a, a ^ b));
                    let mut x = la;
                    expect!(format_args!("square ops {a:#x} {t}"), {
                        x |= lsq(t);
                        mset(x)
                    }, a | 1 << t);
                }
                _ => {
                    expect!(format_args!("{a:#x} == {b:#x}"), la == lb, a == b);
                    expect!(format_args!("{a:#x} cmp {b:#x}"), (Ord::cmp(&la, &lb) == std::cmp::Ordering::Equal, Ord::cmp(&la, &lb) == Ord::cmp(&lb, &la).reverse()), (a == b, true));
                    expect!(format_args!("hash of {a:#x}"), h(&la) == h(&lset(a)), true);
                    expect!("empty", mset(Bitboard::empty()), 0);
                }
            }
        }
        22..=25 => {
            let m = if draw(2) == 0 { MMove::Normal { from: s, to: t, promote: draw(2) == 1 } } else { MMove::Drop { piece: q, to: t } };
            let lm = lmove(m);
            let fr = if let MMove::Normal { from, .. } = m { from } else { 0 };
            let pr = matches!(m, MMove::Normal { promote: true, .. });
            let dr = matches!(m, MMove::Drop { .. });
            expect!(format_args!("parts of {m:?}"), (lm.from().map_or(0, msq), msq(lm.to()), lm.is_promoting(), lm.is_drop()), (fr, t, pr, dr));
            expect!(format_args!("compact round trip of {m:?}"), mmove(<Move as From<CompactMove>>::from(<CompactMove as From<Move>>::from(lm))), m);
            let cm = lcompact(m);
            expect!(format_args!("compact parts of {m:?}"), (CompactMove::from(cm).map_or(0, msq), msq(cm.to()), cm.is_promoting(), cm.is_drop(), <Option<Square>>::from(cm.CompactMove_from()).map_or(0, msq)), (fr, t, pr, dr, fr));
            let want = m.usi();
            let w = || format!("text of {m:?}");
            let (a, b) = core(&w, || {
                let (mut a, mut b) = (FixedSink::new(), FixedSink::new());
                let _ = lm.to_usi(&mut a);
                let _ = cm.to_usi(&mut b);
                (a, b)
            });
            check!(a.text() == want && b.text() == want, "wrong-result", "{} gives {:?} / {:?}, expected {want:?}", w(), a.text(), b.text());
            let m2 = if draw(2) == 0 { MMove::Normal { from: t, to: s, promote: draw(2) == 1 } } else { MMove::Drop { piece: gen_piece(), to: t } };
            let l2 = lmove(m2);
            expect!(format_args!("{m:?} vs {m2:?}"), (lm == l2, lm.cmp(&l2) == std::cmp::Ordering::Equal, lm.cmp(&l2) == l2.cmp(&lm).reverse()), (m == m2, m == m2, true));
            expect!(format_args!("hash of {m:?}"), h(&lm) == h(&lmove(m)) && h(&cm) == h(&lcompact(m)), true);
        }
        26 => {
            let w = || format!("texts of square {s}, piece {q}, kind {k}, colour {c}");
            let x = core(&w, || {
                let mut x = [FixedSink::new(), FixedSink::new(), FixedSink::new(), FixedSink::new()];
                let _ = lsq(s).to_usi(&mut x[0]);
                let _ = lpiece(q).to_usi(&mut x[1]);
                let _ = lkind(k).to_usi(&mut x[2]);
                let _ = lcolor(c).to_usi(&mut x[3]);
                x
            });
            let want = [sq_usi(s), piece_usi(q), kind_usi(k), if c == 1 { "b".into() } else { "w".into() }];
            for i in 0..4 {
                check!(x[i].text() == want[i], "wrong-result", "{} gives {:?}, expected {:?}", w(), x[i].text(), want[i]);
            }
        }
        27 => {
            use shogi_core::c_compat::*;
            let o = if draw(3) == 0 { 0 } else { q };
            expect!(format_args!("option conversions of {o}"), mopt(OptionPiece::from(lopt(o)).into()), o);
            expect!(format_args!("option conversions of square {s}"), <Option<Square>>::from(OptionSquare::from(Some(lsq(s)))).map_or(0, msq), s);
            expect!("option conversions of no square", <Option<Square>>::from(OptionSquare::from(None)).is_none(), true);
            expect!(format_args!("option conversions of kind {k}"), <Option<PieceKind>>::from(OptionPieceKind::from(Some(lkind(k)))).map_or(0, mkind), k);
            let i = IllegalMoveKind::from_u8(1 + draw(7) as u8).unwrap();
            expect!(format_args!("result conversions of {i:?}"), <Result<(), IllegalMoveKind>>::from(ResultUnitIllegalMoveKind::from(Err(i))), Err(i));
            expect!("result conversions of Ok", <Result<(), IllegalMoveKind>>::from(ResultUnitIllegalMoveKind::from(Ok(()))), Ok(()));
        }
        28 => {
            // formatting for debugging must do without memory as well
            use core::fmt::Write;
            let w = || "Debug formatting".to_string();
            let m = lmove(MMove::Normal { from: s, to: t, promote: false });
            let n = core(&w, || {
                let mut x = FixedSink::new();
                let _ = write!(x, "{:?} {:?} {:?} {:?} {:?} {:?}", lsq(s), lpiece(q), lkind(k), lcolor(c), m, Hand::new());
                x.n
            });
            check!(n > 0, "wrong-result", "Debug formatting wrote nothing");
            let p = build(&gen_pos(PosOpts { max_kings: 1, allow_ply0: false }), false);
            let (b, cm) = (lset(gen_set()), lcompact(MMove::Drop { piece: q, to: t }));
            let n = core(&w, || {
                let mut x = FixedSink::new();
                let mut g = PartialGame::default();
                g.resolve(GameResolution::Draw);
                let _ = write!(x, "{b:?} {cm:?} {g:?} {:?} {p:?}", b.swap_bytes());
                x.n
            });
            check!(n > 0, "wrong-result", "Debug formatting wrote nothing");
        }
        29 | 30 => {
            // checker entry points that need no list
            let o = gen_pos(PosOpts { max_kings: 1, allow_ply0: false });
            let p = Position::arbitrary_position(build(&o, false));
            let ck = Checker::drawn_quiet();
            let m = gen_garbage(&o);
            let want_status = ck.status_now();
            let w = || format!("is_legal/is_legal_lite with status {want_status:?}");
            let (a, b) = core(&w, || (ck.is_legal(&p, lmove(m)), ck.is_legal_lite(&p, lmove(m))));
            if want_status != PositionStatus::InProgress {
                check!(a == Err(IllegalMoveKind::GameFinished) && !b, "wrong-result", "{} gives {a:?} / {b}", w());
            }
        }
        31 | 32 => {
            // the forms of the set operators that take references, and iteration hints
            let (a, b) = (gen_set(), gen_set());
            let (la, lb) = (lset(a), lset(b));
            let sq = lsq(t);
            expect!(format_args!("operators on references to {a:#x} and {b:#x}"), (
                [mset(&la | lb), mset(la | &lb), mset(&la | &lb)],
                [mset(&la & lb), mset(la & &lb), mset(&la & &lb)],
                [mset(&la ^ lb), mset(la ^ &lb), mset(&la ^ &lb)]
            ), ([a | b; 3], [a & b; 3], [a ^ b; 3]));
            expect!(format_args!("assigning references to {a:#x}, {b:#x} and {t}"), {
                let mut x = la;
                x |= &lb;
                let o = mset(x);
                let mut x = la;
                x &= &lb;
                let n = mset(x);
                let mut x = la;
                x ^= &lb;
                let e = mset(x);
                let mut x = la;
                x |= &sq;
                let os = mset(x);
                let mut x = la;
                x ^= &sq;
                let es = mset(x);
                x ^= sq;
                let back = mset(x);
                x &= sq;
                let only = mset(x);
                let mut y = la;
                y &= &sq;
                (o, n, e, os, es, back, only, mset(y))
            }, (a | b, a & b, a ^ b, a | 1 << t, a ^ 1 << t, a, a & 1 << t, a & 1 << t));
            expect!(format_args!("hints while iterating over {a:#x}"), {
                let mut x = la;
                let mut left = a.count_ones() as usize;
                let mut ok = true;
                loop {
                    let (lo, hi) = x.size_hint();
                    ok &= lo <= left && hi.map_or(true, |h| h >= left);
                    if x.next().is_none() || left == 0 {
                        break;
                    }
                    left -= 1;
                }
                ok && left == 0
            }, true);
            // the n-th, the last, the rest: whatever the order, the same by every way
            let n = draw(12) as usize;
            expect!(format_args!("the {n}th of {a:#x} and what follows"), {
                let mut all = [0u8; 82];
                let mut len = 0;
                let mut x = la;
                while let Some(s) = x.next() {
                    all[len] = msq(s);
                    len += 1;
                }
                let mut x = la;
                let nth = x.nth(n).map_or(0, msq);
                let rest = mset(x);
                let want_rest = all[(n + 1).min(len)..len].iter().fold(0u128, |r, &s| r | 1 << s);
                nth == if n < len { all[n] } else { 0 }
                    && rest == want_rest
                    && la.last().map_or(0, msq) == if len == 0 { 0 } else { all[len - 1] }
                    && la.skip(n).fold(0u128, |r, s| r | 1 << msq(s)) == all[n.min(len)..len].iter().fold(0u128, |r, &s| r | 1 << s)
                    && la.step_by(n + 1).count() == (len + n) / (n + 1)
                    && { let mut x = la; x.all(|s| a >> msq(s) & 1 != 0) } && { let mut x = la; x.position(|s| msq(s) == all[0]) } == (if len == 0 { None } else { Some(0) })
            }, true);
            expect!(format_args!("adapters over {a:#x}"), (la.into_iter().count() as u32, la.map(|x| msq(x) as u32).sum::<u32>()), (a.count_ones(), (1..=81u32).filter(|i| a >> i & 1 != 0).sum()));
        }
        33 | 34 => {
            // ordering of the small types: total, consistent with equality, partial form alike
            use core::cmp::Ordering;
            fn law<T: Ord + PartialOrd + PartialEq + core::hash::Hash>(x: &T, y: &T, z: &T, same: bool) -> bool {
                let c = x.cmp(y);
                (c == Ordering::Equal) == same
                    && (x == y) == same
                    && y.cmp(x) == c.reverse()
                    && x.partial_cmp(y) == Some(c)
                    && (x < y) == (c == Ordering::Less)
                    && (x >= y) == (c != Ordering::Less)
                    && !(c != Ordering::Greater && y.cmp(z) != Ordering::Greater && x.cmp(z) == Ordering::Greater)
                    && (!same || h(x) == h(y))
            }
            use shogi_core::c_compat::*;
            let (k2, c2, u) = (gen_kind(), 1 + draw(2) as u8, gen_sq());
            let k3 = gen_kind();
            let (q2, q3) = (piece(k2, c2), gen_piece());
            expect!(format_args!("order of squares {s} {t} {u}"), law(&lsq(s), &lsq(t), &lsq(u), s == t), true);
            expect!(format_args!("order of kinds {k} {k2} {k3}"), law(&lkind(k), &lkind(k2), &lkind(k3), k == k2), true);
            expect!(format_args!("order of colours {c} {c2}"), law(&lcolor(c), &lcolor(c2), &lcolor(1), c == c2), true);
            expect!(format_args!("order of pieces {q} {q2} {q3}"), law(&lpiece(q), &lpiece(q2), &lpiece(q3), q == q2), true);
            let o = |x: u8, n: u32| if n == 0 { 0 } else { x };
            let (oa, ob, oc) = (o(q, draw(3)), o(q2, draw(3)), o(q3, draw(3)));
            expect!(format_args!("order of optional pieces {oa} {ob} {oc}"), law(&OptionPiece::from(lopt(oa)), &OptionPiece::from(lopt(ob)), &OptionPiece::from(lopt(oc)), oa == ob), true);
            let (sa, sb, sc) = (o(s, draw(3)), o(t, draw(3)), o(u, draw(3)));
            let ls = |x: u8| OptionSquare::from(if x == 0 { None } else { Some(lsq(x)) });
            expect!(format_args!("order of optional squares {sa} {sb} {sc}"), law(&ls(sa), &ls(sb), &ls(sc), sa == sb), true);
            let mut mv = || if draw(2) == 0 { MMove::Normal { from: gen_sq(), to: gen_sq(), promote: draw(2) == 1 } } else { MMove::Drop { piece: gen_piece(), to: gen_sq() } };
            let ma = mv();
            // usually a close relative of the first
            let mb = match (draw(5), ma) {
                (0, _) => mv(),
                (1, MMove::Normal { from, to, promote }) => MMove::Normal { from, to, promote: !promote },
                (2, MMove::Normal { from, promote, .. }) => MMove::Normal { from, to: t, promote },
                (3, MMove::Normal { to, promote, .. }) => MMove::Normal { from: t, to, promote },
                (1, MMove::Drop { to, .. }) => MMove::Drop { piece: q, to },
                (2 | 3, MMove::Drop { piece, .. }) => MMove::Drop { piece, to: t },
                (_, m) => m,
            };
            let mc = if draw(2) == 0 { mv() } else { mb };
            expect!(format_args!("order of moves {ma:?} {mb:?} {mc:?}"), law(&lmove(ma), &lmove(mb), &lmove(mc), ma == mb), true);
            expect!(format_args!("order of compact moves {ma:?} {mb:?} {mc:?}"), law(&lcompact(ma), &lcompact(mb), &lcompact(mc), ma == mb), true);
            let g = |i: u32| unsafe { GameResolution::from_u8_unchecked(1 + i as u8) };
            let (ga, gb, gc) = (draw(5), draw(5), draw(5));
            expect!(format_args!("order of results {ga} {gb} {gc}"), law(&g(ga), &g(gb), &g(gc), ga == gb), true);
            let i = |x: u32| IllegalMoveKind::from_u8(1 + x as u8).unwrap();
            let (ia, ib, ic) = (draw(7), draw(7), draw(7));
            expect!(format_args!("order of refusals {ia} {ib} {ic}"), law(&i(ia), &i(ib), &i(ic), ia == ib), true);
            let (ha, hl) = gen_hand_obj();
            let mut hb = ha;
            hb[1 + draw(7) as usize] ^= draw(2) as u8;
            let hc = gen_hand_obj().1;
            expect!(format_args!("order of hands {ha:?} {hb:?}"), law(&hl, &lhand(hb), &hc, ha == hb), true);
            let a = gen_set();
            let b = if draw(2) == 0 { a } else { a ^ 1 << gen_sq() };
            let d = gen_set();
            expect!(format_args!("order of sets {a:#x} {b:#x} {d:#x}"), law(&lset(a), &lset(b), &lset(d), a == b) && law(&lset(a).swap_bytes(), &lset(b).swap_bytes(), &lset(d).swap_bytes(), a == b), true);
        }
        35 | 36 => {
            // packed optional forms, empty ones included
            use shogi_core::c_compat::*;
            let none = draw(3) == 0;
            let os = if none { None } else { Some(lsq(s)) };
            let ok = if none { None } else { Some(lkind(k)) };
            let oc = if none { None } else { Some(lcompact(if draw(2) == 0 { MMove::Normal { from: s, to: t, promote: draw(2) == 1 } } else { MMove::Drop { piece: q, to: t } })) };
            let og = if none { None } else { Some(unsafe { GameResolution::from_u8_unchecked(1 + draw(5) as u8) }) };
            let oi = if none { None } else { IllegalMoveKind::from_u8(1 + draw(7) as u8) };
            expect!(format_args!("packed {os:?}"), <Option<Square>>::from(OptionSquare::from(os)), os);
            expect!(format_args!("packed {ok:?}"), <Option<PieceKind>>::from(OptionPieceKind::from(ok)), ok);
            expect!(format_args!("packed {oc:?}"), <Option<CompactMove>>::from(OptionCompactMove::from(oc)), oc);
            expect!(format_args!("packed {og:?}"), <Option<GameResolution>>::from(OptionGameResolution::from(og)), og);
            expect!(format_args!("packed {oi:?}"), (<Option<IllegalMoveKind>>::from(ResultUnitIllegalMoveKind::from(oi)), <Result<(), IllegalMoveKind>>::from(ResultUnitIllegalMoveKind::from(oi))), (oi, oi.map_or(Ok(()), Err)));
            let pk = if none { 0 } else { k };
            #[cfg(feature = "std")]
            expect!(format_args!("index of optional kind {ok:?}"), PieceKind::option_array_index(ok), pk as usize);
            let v = draw(256) as u8;
            expect!(format_args!("PieceKind_from_u8({v})"), <Option<PieceKind>>::from(PieceKind::PieceKind_from_u8(v)).map_or(0, mkind), if (1..=14).contains(&v) { v } else { 0 });
            expect!(format_args!("unchecked forms of {s}, {k}"), unsafe { (msq(Square::from_u8_unchecked(s)), msq(Square::Square_from_u8_unchecked(s)), mkind(PieceKind::from_u8_unchecked(k)), mkind(PieceKind::PieceKind_from_u8_unchecked(k))) }, (s, s, k, k));
        }
        _ => {
            let mut g = PartialGame::default();
            let r = GameResolution::Draw;
            expect!("PartialGame resolution", {
                let a = g.resolution();
                g.resolve(r);
                let b = g.resolution();
                let c = g.clone();
                g.unresolve();
                (a, b, g.resolution(), c == g, c.cmp(&g) == g.cmp(&c).reverse(), h(&c) == h(&c.clone()))
            }, (None, Some(r), None, false, true, true));
        }
    }
}

/// The allocating operations panic for no other reason than a refused allocation; here none is refused.
fn c11_owned() {
    let n = 1 + draw(3) as usize;
    let mut pool = mem_pool(n);
    let mut game = Game::default();
    macro_rules! calm {
        ($what:expr, $e:expr) => {
            match attempt(|| $e) {
                Outcome::Done(r) => r,
                Outcome::Oom => fail!("panics", "{}: allocation error although no allocation was refused", $what),
                Outcome::Panicked(s) => fail!("panics", "{}: panicked although no allocation was refused: {s}", $what),
            }
        };
    }
    if draw(40) == 39 {
        // a record longer than any counter of 16 bits
        let p = &mut pool[0];
        if let Some(sh) = crate::scen_record::find_shuffle(&observe(p.inner())) {
            count(K::probe_long_history);
            let len = 65_530 + draw(12) as usize;
            for i in 0..len {
                let ok = calm!(format_args!("move {i} of a long game"), p.make_move(lmove(sh[i % 4])).is_some());
                check!(ok, "wrong-result", "move {i} of a long game is refused");
            }
            check!(p.moves().len() >= len, "wrong-result", "{} moves recorded of {len}", p.moves().len());
        }
    }
    let steps = steps(40, 200);
    for step in 0..steps {
        let i = draw(n as u32) as usize;
        let o = observe(pool[i].inner());
        let op = gen_op(n, &o);
        ev(11, step as u64, i as u64);
        let ctx = format!("step {step}: {op:?} on position {i} ({} moves, {})", pool[i].moves().len(), o.sfen());
        let got = calm!(ctx, run_op(&mut pool, i, op));
        match op {
            MemOp::Make(m) => check!(got == format!("{}", o.sensible(m)), "wrong-result", "{ctx}: {got}"),
            MemOp::Sfen | MemOp::SfenPartial => check!(got == o.sfen(), "wrong-result", "{ctx}: {got}"),
            _ => {}
        }
        match draw(4) {
            0 => {
                let m = gen_sensible(&o).unwrap_or_else(|| gen_garbage(&o));
                let now = observe(pool[i].inner());
                let ok = calm!(format_args!("step {step}: compact {} on {}", m.usi(), now.sfen()), pool[i].make_compact_move(lcompact(m)));
                check!(ok == now.sensible(m), "wrong-result", "step {step}: compact {} on {}: {ok}", m.usi(), now.sfen());
            }
            1 => {
                let j = draw(n as u32) as usize;
                let (a, b) = (&pool[i], &pool[j]);
                let (eq, c, ha, hb) = calm!(format_args!("step {step}: comparing positions {i} and {j}"), (a == b, a.cmp(b), h(a), h(b)));
                check!(eq == (c == std::cmp::Ordering::Equal) && (!eq || ha == hb), "wrong-result", "step {step}: comparing positions {i} and {j}: {eq}, {c:?}");
                count(K::probe_cmp);
            }
            2 => {
                let k = draw(6);
                let want = if k == 5 { None } else { Some(unsafe { GameResolution::from_u8_unchecked(1 + k as u8) }) };
                let got = calm!(format_args!("step {step}: result {want:?}"), {
                    match want {
                        Some(r) => game.resolve(r),
                        None => game.unresolve(),
                    }
                    let copy = game.clone();
                    let same = copy == game && h(&copy) == h(&game) && copy.cmp(&game) == std::cmp::Ordering::Equal;
                    if same { copy.resolution() } else { None }
                });
                check!(got == want, "wrong-result", "step {step}: result {got:?} instead of {want:?}");
            }
            _ => {
                let p = &pool[i];
                let s = gen_sq();
                let q = gen_piece();
                let now = observe(p.inner());
                let r = calm!(format_args!("step {step}: queries of position {i}"), (mopt(p.piece_at(lsq(s))), p.hand(lpiece(q)), mset(p.occupied_bitboard()), mset(p.piece_bitboard(lpiece(q))), p.last_move().map(mmove), p.ply(), p.moves().last().copied().map(mmove)));
                let hand = if kind_of(q) <= 7 { Some(now.hands[color_of(q) as usize - 1][kind_of(q) as usize]) } else { None };
                check!(r.0 == now.board[s as usize] && r.1 == hand && r.2 == now.set_of(|x| x != 0) && r.3 == now.set_of(|x| x == q) && r.4 == now.last && r.5 == now.ply && (r.6.is_none() || r.6 == now.last), "wrong-result", "step {step}: queries of position {i} give {r:?} on {}", now.sfen());
            }
        }
        state(o.hash64());
    }
    calm!("destroying", drop(std::mem::take(&mut pool)));
}

pub fn c11() {
    if draw(8) == 7 {
        nontrivial();
        return c11_owned();
    }
    fault(K::fault_oom_deny_all);
    let g = gen_pos(PosOpts { max_kings: 3, allow_ply0: false });
    count_pos(&g);
    let mut model = g.clone();
    let w = || "building a position".to_string();
    let route = draw(3);
    let hands = [lhand(g.hands[0]), lhand(g.hands[1])];
    let mut p = core(&w, || {
        let mut p = match route {
            0 => PartialPosition::empty(),
            1 => PartialPosition::startpos(),
            _ => PartialPosition::default(),
        };
        for s in 1..=81u8 {
            p.piece_set(lsq(s), lopt(g.board[s as usize]));
        }
        p.side_to_move_set(lcolor(g.side));
        let _ = p.ply_set(g.ply);
        for c in 1..=2u8 {
            *p.hand_of_a_player_mut(lcolor(c)) = hands[c as usize - 1];
        }
        p
    });
    let mut other = p.clone();
    let mut other_model = model.clone();
    let steps = steps(40, 400);
    for step in 0..steps {
        ev(10, step as u64, 0);
        match draw(10) {
            0..=3 => {
                let m = if draw(3) == 2 { gen_garbage(&model) } else { gen_sensible(&model).unwrap_or_else(|| gen_garbage(&model)) };
                let compact = draw(2) == 1;
                let w = || format!("step {step}: making {} on {}", m.usi(), model.sfen());
                let ok = core(&w, || if compact { p.make_compact_move(lcompact(m)) } else { p.make_move(lmove(m)).is_some() });
                let before = model.clone();
                let want = model.sensible(m);
                check!(ok == want, "wrong-result", "{}: {ok}, expected {want}", w());
                model.step(m);
                if ok {
                    count_move(&before, m);
                } else {
                    count(K::probe_refused);
                }
                trace!("step {step}: {} -> {ok}", m.usi());
            }
            4 => {
                // edits
                let s = gen_sq();
                let q = if draw(3) == 0 { 0 } else { gen_piece() };
                let ply = if draw(3) == 0 { gen_ply() } else { model.ply };
                let side = 1 + draw(2) as u8;
                let hc = 1 + draw(2) as u8;
                let (hm, hl) = gen_hand_obj();
                let w = || format!("step {step}: placing {q} on {}", sq_usi(s));
                let ok = core(&w, || {
                    p.piece_set(lsq(s), lopt(q));
                    p.side_to_move_set(lcolor(side));
                    *p.hand_of_a_player_mut(lcolor(hc)) = hl;
                    p.ply_set(ply)
                });
                model.board[s as usize] = q;
                model.side = side;
                model.hands[hc as usize - 1] = hm;
                if ply != 0 {
                    model.ply = ply;
                }
                check!(ok == (ply != 0), "wrong-result", "step {step}: ply_set({ply}) gives {ok}");
                count(K::probe_edit);
            }
            5 => {
                let w = || format!("step {step}: rendering");
                let want = model.sfen();
                let s = core(&w, || {
                    let mut s = FixedSink::new();
                    let _ = p.to_sfen(&mut s);
                    s
                });
                check!(s.text() == want, "wrong-result", "step {step}: text {:?}, expected {want:?}", s.text());
                let mut buf = [0u8; 1024];
                core(&w, || unsafe { p.to_sfen_c(buf.as_mut_ptr()) });
                check!(&buf[..want.len()] == want.as_bytes() && buf[want.len()] == 0, "wrong-result", "step {step}: C text differs from {want:?}");
                count(K::probe_render);
            }
            6 => {
                let same = model == other_model;
                let w = || format!("step {step}: comparing, ordering, hashing");
                let (eq, c, c2, ha, hb) = core(&w, || (p == other, p.cmp(&other), other.cmp(&p), h(&p), h(&other)));
                // with several kings of a side the king square is history dependent; compare only otherwise
                let one = |m: &MPos| m.kings(1) <= 1 && m.kings(2) <= 1;
                if one(&model) && one(&other_model) {
                    check!(eq == same, "wrong-result", "step {step}: == gives {eq}, expected {same}: {} / {}", model.sfen(), other_model.sfen());
                }
                check!((c == std::cmp::Ordering::Equal) == same && c == c2.reverse(), "wrong-result", "step {step}: cmp gives {c:?}/{c2:?}, same = {same}");
                check!(!same || ha == hb, "wrong-result", "step {step}: equal positions hash differently");
                count(K::probe_hash);
                count(K::probe_cmp);
            }
            7 => {
                let w = || format!("step {step}: copying");
                if draw(2) == 0 {
                    other = core(&w, || p.clone());
                } else {
                    core(&w, || other.clone_from(&p));
                }
                other_model = model.clone();
                count(K::probe_copy);
                if draw(2) == 0 {
                    std::mem::swap(&mut p, &mut other);
                }
            }
            8 => {
                let w = || format!("step {step}: all queries");
                let s = gen_sq();
                let q = gen_piece();
                let k = kind_of(q);
                let c = color_of(q);
                let r = core(&w, || {
                    (
                        mset(p.occupied_bitboard()),
                        mset(p.vacant_bitboard()),
                        mset(p.player_bitboard(lcolor(c))),
                        mset(p.piece_bitboard(lpiece(q))),
                        mset(p.piece_kind_bitboard(lkind(k))),
                        mopt(p.piece_at(lsq(s))),
                        p.hand(lpiece(q)),
                        p.king_position(lcolor(c)).map_or(0, msq),
                        p.last_move().map(mmove),
                        p.last_compact_move().map(mcompact),
                    )
                });
                let occ = model.set_of(|x| x != 0);
                let ks = model.set_of(|x| x == piece(8, c));
                check!(
                    r.0 == occ
                        && r.1 == ALL & !occ
                        && r.2 == model.set_of(|x| x != 0 && color_of(x) == c)
                        && r.3 == model.set_of(|x| x == q)
                        && r.4 == model.set_of(|x| x != 0 && kind_of(x) == k)
                        && r.5 == model.board[s as usize]
                        && r.6 == if k <= 7 { Some(model.hands[c as usize - 1][k as usize]) } else { None }
                        && r.8 == model.last
                        && r.9 == model.last
                        && (if ks == 0 { r.7 == 0 } else { r.7 != 0 && ks >> r.7 & 1 == 1 }),
                    "wrong-result",
                    "step {step}: queries for square {s}, piece {q} give {r:x?} on {}",
                    model.sfen()
                );
            }
            _ => {
                for _ in 0..6 {
                    small_ops();
                }
            }
        }
        let got = observe(&p);
        check!(got == model, "wrong-result", "step {step}: position differs from the model: {}", diff(&got, &model));
        state(model.hash64());
    }
    let _ = SimPanic;
}
