//! World A scenarios about callbacks into caller code: C06 (sinks), C12 (suspended operations), C15 (checkers), and the
//! simulated sinks, hashers and checkers themselves.

use crate::alloc::{attempt, l, outside, sut, Outcome, SimPanic};
use crate::coro::{current, yield_now, Tasks};
use crate::gen::*;
use crate::model::*;
use crate::scen_core::steps;
use crate::tape::*;
use shogi_core::*;
use std::cell::{Cell, RefCell, UnsafeCell};

// ------------------------------------------------------------------------------------------------------ the sink

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum SinkPlan {
    Never,
    /// Refuse, as a whole, the write that would go past this many bytes.
    Error(usize),
    /// Accept up to this many bytes, then report an error.
    Short(usize),
    /// Panic once this many bytes were accepted.
    Panic(usize),
}

/// A simulated sink.  After an error it recovers (a swallowed error therefore shows up as a text with a hole).
pub struct FaultSink<'a> {
    pub plan: SinkPlan,
    pub accepted: Vec<u8>,
    pub errors: u32,
    pub writes: u32,
    pub writes_after_error: u32,
    pub late: Vec<u8>,
    /// yield with this chance (of 8) at each write
    pub stall: u32,
    /// called (with the call number) in the middle of a write
    pub reentry: Option<&'a dyn Fn()>,
}
impl<'a> FaultSink<'a> {
    pub fn new(plan: SinkPlan) -> FaultSink<'a> {
        outside(|| FaultSink {
            plan,
            accepted: Vec::with_capacity(256),
            errors: 0,
            writes: 0,
            writes_after_error: 0,
            late: Vec::new(),
            stall: 0,
            reentry: None,
        })
    }
    pub fn drawn() -> FaultSink<'a> {
        let at = match draw(3) {
            0 => draw(8),
            1 => draw(40),
            _ => draw(160),
        } as usize;
        let plan = match draw(4) {
            0 => SinkPlan::Never,
            1 => SinkPlan::Error(at),
            2 => SinkPlan::Short(at),
            _ => SinkPlan::Panic(at),
        };
        FaultSink::new(plan)
    }
    fn go(&mut self, s: &str) -> core::fmt::Result {
        if s.is_empty() {
            return Ok(());
        }
        self.writes += 1;
        if self.errors > 0 {
            self.writes_after_error += 1;
            self.late.extend_from_slice(s.as_bytes());
            return Ok(());
        }
        if let Some(f) = self.reentry {
            if draw(4) == 3 {
                fault(K::fault_sink_reentry);
                f();
            }
        }
        if self.stall > 0 && draw(8) < self.stall {
            fault(K::fault_sink_stall);
            yield_now();
        }
        let n = self.accepted.len() + s.len();
        match self.plan {
            SinkPlan::Error(at) if n > at => {
                self.errors += 1;
                fault(K::fault_sink_error);
                return Err(core::fmt::Error);
            }
            SinkPlan::Short(at) if n > at => {
                let k = at.saturating_sub(self.accepted.len());
                self.accepted.extend_from_slice(&s.as_bytes()[..k]);
                self.errors += 1;
                fault(K::fault_sink_short_write);
                return Err(core::fmt::Error);
            }
            SinkPlan::Panic(at) if n > at => {
                fault(K::fault_sink_panic);
                std::panic::resume_unwind(Box::new(SimPanic))
            }
            _ => {}
        }
        self.accepted.extend_from_slice(s.as_bytes());
        Ok(())
    }
}
impl core::fmt::Write for FaultSink<'_> {
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        outside(|| self.go(s))
    }
}

// ---------------------------------------------------------------------------------------------------- the hasher

/// Records the bytes it is fed, may stall or panic.
pub struct SimHasher {
    pub bytes: Vec<u8>,
    pub stall: u32,
    pub panic_at: Option<usize>,
}
impl std::hash::Hasher for SimHasher {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        outside(|| {
            if self.stall > 0 && draw(16) < self.stall {
                fault(K::fault_hasher_stall);
                yield_now();
            }
            if self.panic_at.map_or(false, |n| self.bytes.len() + b.len() > n) {
                fault(K::fault_hasher_panic);
                std::panic::resume_unwind(Box::new(SimPanic))
            }
            self.bytes.extend_from_slice(b);
        })
    }
}

// --------------------------------------------------------------------------------------------------- the checker

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Fault {
    None,
    Panic,
    Stall,
    Reentry,
}

/// A simulated checker.  Status and verdict are fixed for the duration of a call made to it; a fault may strike at the
/// n-th callback.
pub struct Checker {
    pub status: Cell<PositionStatus>,
    /// what `is_legal_partial` says; `None` = whatever the reference model says
    pub verdict: Cell<Option<Result<(), IllegalMoveKind>>>,
    pub list_len: u32,
    pub list: RefCell<Vec<Move>>,
    pub fault: Cell<Fault>,
    pub fault_at: Cell<u32>,
    pub calls: Cell<u32>,
    /// the position and move the callbacks are expected to be asked about
    pub expect: RefCell<Option<(MPos, Option<MMove>)>>,
    pub wrong_arg: RefCell<Option<String>>,
    pub stall: u32,
}

pub fn status_of(k: u32) -> PositionStatus {
    match k {
        0 => PositionStatus::InProgress,
        1 => PositionStatus::BlackWins,
        2 => PositionStatus::WhiteWins,
        3 => PositionStatus::Draw,
        _ => PositionStatus::Invalid,
    }
}
pub fn illegal(k: u32) -> IllegalMoveKind {
    [
        IllegalMoveKind::IncorrectMove,
        IllegalMoveKind::TwoPawns,
        IllegalMoveKind::IgnoredCheck,
        IllegalMoveKind::DropPawnMate,
        IllegalMoveKind::DropStuck,
        IllegalMoveKind::NormalStuck,
        IllegalMoveKind::GameFinished,
    ][k as usize]
}

impl Checker {
    pub fn always_ok() -> Checker {
        Checker {
            status: Cell::new(PositionStatus::InProgress),
            verdict: Cell::new(None),
            list_len: 6,
            list: RefCell::new(Vec::new()),
            fault: Cell::new(Fault::None),
            fault_at: Cell::new(0),
            calls: Cell::new(0),
            expect: RefCell::new(None),
            wrong_arg: RefCell::new(None),
            stall: 0,
        }
    }
    /// Any status, model verdicts, sometimes a panic.
    pub fn drawn() -> Checker {
        outside(|| {
            let mut c = Checker::always_ok();
            c.status.set(if draw(4) == 3 { status_of(draw(5)) } else { PositionStatus::InProgress });
            c.list_len = draw(12);
            if draw(5) == 4 {
                c.fault.set(Fault::Panic);
                c.fault_at.set(1 + draw(3));
            }
            c
        })
    }
    /// Neither panics nor allocates.
    pub fn drawn_quiet() -> Checker {
        let c = Checker::always_ok();
        c.status.set(status_of(draw(5)));
        c
    }
    pub fn status_now(&self) -> PositionStatus {
        self.status.get()
    }
    fn callback(&self, p: &PartialPosition, mv: Option<Move>) {
        let n = self.calls.get() + 1;
        self.calls.set(n);
        if let Some((want, wm)) = &*self.expect.borrow() {
            let o = observe(p);
            if o != *want && self.wrong_arg.borrow().is_none() {
                *self.wrong_arg.borrow_mut() = Some(format!("the checker was asked about another position: {}", diff(&o, want)));
            }
            if let (Some(m), Some(w)) = (mv, wm) {
                if mmove(m) != *w && self.wrong_arg.borrow().is_none() {
                    *self.wrong_arg.borrow_mut() = Some(format!("the checker was asked about {} instead of {}", mmove(m).usi(), w.usi()));
                }
            }
        }
        if self.fault_at.get() == n {
            match self.fault.get() {
                Fault::None => {}
                Fault::Panic => {
                    fault(K::fault_checker_panic);
                    std::panic::resume_unwind(Box::new(SimPanic))
                }
                Fault::Stall => {
                    fault(K::fault_checker_stall);
                    yield_now();
                }
                Fault::Reentry => {
                    // the checker uses the library, and this very interface, for its own purposes
                    fault(K::fault_checker_reentry);
                    let mut q = Position::arbitrary_position(p.clone());
                    let inner = Checker::always_ok();
                    let o = observe(p);
                    if let Some(m) = gen_sensible(&o) {
                        let r = LegalityChecker::make_move(&inner, &mut q, lmove(m));
                        check!(r.is_ok() && q.moves().len() == 1, "reentry-wrong", "a checked move made inside a checker gives {r:?}");
                    }
                    let _ = inner.all_legal_moves(&q);
                    let s = q.to_sfen_owned();
                    check!(s == observe(q.inner()).sfen(), "reentry-wrong", "text rendered inside a checker is {s:?}");
                }
            }
        }
        if self.stall > 0 && draw(8) < self.stall {
            fault(K::fault_checker_stall);
            yield_now();
        }
    }
    fn say(&self, p: &PartialPosition, mv: Move) -> Result<(), IllegalMoveKind> {
        match self.verdict.get() {
            Some(v) => v,
            None => {
                if observe(p).sensible(mmove(mv)) {
                    Ok(())
                } else {
                    Err(IllegalMoveKind::IncorrectMove)
                }
            }
        }
    }
}
/// A list computed by the checker; pushes go through the (simulated) allocator.
fn make_list(n: u32, p: &PartialPosition) -> Vec<Move> {
    let mut v = Vec::new();
    let k = p.ply() as u32;
    for i in 0..n {
        if i % 5 == 4 && k % 2 == 1 {
            // nothing says that a list has no repetitions
            let again = v[i as usize - 1 - (k / 2 % 3) as usize];
            v.push(again);
            continue;
        }
        let (a, b) = ((i * 7 + k) % 81 + 1, (i * 11 + k * 3) % 81 + 1);
        v.push(if i % 3 == 2 {
            Move::Drop { piece: lpiece((i % 7 + 1) as u8), to: lsq(b as u8) }
        } else {
            Move::Normal { from: lsq(a as u8), to: lsq(b as u8), promote: i % 2 == 1 }
        });
    }
    v
}
impl LegalityChecker for Checker {
    fn status(&self, position: &Position) -> PositionStatus {
        outside(|| self.callback(position.inner(), None));
        self.status.get()
    }
    fn status_partial(&self, position: &PartialPosition) -> PositionStatus {
        outside(|| self.callback(position, None));
        // it sees no move sequence: repetitions and inconsistent histories are invisible to it
        match self.status.get() {
            PositionStatus::Draw | PositionStatus::Invalid => PositionStatus::InProgress,
            s => s,
        }
    }
    fn is_legal_partial(&self, position: &PartialPosition, mv: Move) -> Result<(), IllegalMoveKind> {
        outside(|| self.callback(position, Some(mv)));
        self.say(position, mv)
    }
    fn is_legal_partial_lite(&self, position: &PartialPosition, mv: Move) -> bool {
        outside(|| self.callback(position, Some(mv)));
        self.say(position, mv).is_ok()
    }
    fn all_legal_moves_partial(&self, position: &PartialPosition) -> Vec<Move> {
        outside(|| self.callback(position, None));
        let v = make_list(self.list_len, position);
        outside(|| *self.list.borrow_mut() = v.clone());
        v
    }
    fn normal_from_candidates(&self, _: &PartialPosition, _: Square) -> Bitboard {
        Bitboard::empty()
    }
    fn normal_to_candidates(&self, _: &PartialPosition, _: Square, _: Piece) -> Bitboard {
        Bitboard::empty()
    }
    fn drop_candidates(&self, _: &PartialPosition, _: Piece) -> Bitboard {
        Bitboard::empty()
    }
}
/// A checker that knows more than the position: it overrides the query on positions with records (a ban on repeating
/// the first recorded move, say), while the query on bare positions knows nothing of that.
pub struct HistoryChecker(pub Checker, pub Result<(), IllegalMoveKind>);
impl LegalityChecker for HistoryChecker {
    fn status(&self, position: &Position) -> PositionStatus {
        self.0.status(position)
    }
    fn status_partial(&self, position: &PartialPosition) -> PositionStatus {
        self.0.status_partial(position)
    }
    fn is_legal(&self, position: &Position, mv: Move) -> Result<(), IllegalMoveKind> {
        if self.0.status(position) != PositionStatus::InProgress {
            return Err(IllegalMoveKind::GameFinished);
        }
        self.0.is_legal_partial(position.inner(), mv)?;
        self.1
    }
    fn is_legal_partial(&self, position: &PartialPosition, mv: Move) -> Result<(), IllegalMoveKind> {
        self.0.is_legal_partial(position, mv)
    }
    fn is_legal_partial_lite(&self, position: &PartialPosition, mv: Move) -> bool {
        self.0.is_legal_partial_lite(position, mv)
    }
    fn all_legal_moves_partial(&self, position: &PartialPosition) -> Vec<Move> {
        self.0.all_legal_moves_partial(position)
    }
    fn normal_from_candidates(&self, p: &PartialPosition, s: Square) -> Bitboard {
        self.0.normal_from_candidates(p, s)
    }
    fn normal_to_candidates(&self, p: &PartialPosition, s: Square, q: Piece) -> Bitboard {
        self.0.normal_to_candidates(p, s, q)
    }
    fn drop_candidates(&self, p: &PartialPosition, q: Piece) -> Bitboard {
        self.0.drop_candidates(p, q)
    }
}

// ---------------------------------------------------------------------------------------------------------- C06

/// A value that can be written as text.
#[derive(Clone)]
pub enum Val {
    Color(u8),
    Kind(u8),
    Piece(u8),
    Square(u8),
    Move(MMove),
    Compact(MMove),
    Hands([[u8; 8]; 2]),
    Pos(Box<PartialPosition>),
}
impl Val {
    pub fn drawn() -> Val {
        Val::of(draw(12))
    }
    pub fn of(sort: u32) -> Val {
        match sort {
            0 => Val::Color(1 + draw(2) as u8),
            1 => Val::Kind(gen_kind()),
            2 => Val::Piece(gen_piece()),
            3 => Val::Square(gen_sq()),
            4 | 5 => {
                let m = gen_mv();
                if draw(2) == 0 {
                    Val::Move(m)
                } else {
                    Val::Compact(m)
                }
            }
            6..=8 => {
                let (a, _) = gen_hand_obj();
                let (b, _) = gen_hand_obj();
                Val::Hands([a, b])
            }
            _ => {
                let g = gen_pos(PosOpts { max_kings: 2, allow_ply0: false });
                let mut p = build(&g, false);
                if draw(3) == 2 {
                    crate::scen_core::warm(&mut p, 3);
                }
                Val::Pos(Box::new(p))
            }
        }
    }
    pub fn name(&self) -> String {
        match self {
            Val::Color(x) => format!("colour {x}"),
            Val::Kind(x) => format!("piece kind {x}"),
            Val::Piece(x) => format!("piece {x}"),
            Val::Square(x) => format!("square {x}"),
            Val::Move(m) => format!("move {m:?}"),
            Val::Compact(m) => format!("compact move {m:?}"),
            Val::Hands(h) => format!("hands {:?}", h),
            Val::Pos(p) => format!("position {}", observe(p).sfen()),
        }
    }
    pub fn text(&self) -> String {
        match self {
            Val::Color(x) => if *x == 1 { "b" } else { "w" }.into(),
            Val::Kind(x) => kind_usi(*x),
            Val::Piece(x) => piece_usi(*x),
            Val::Square(x) => sq_usi(*x),
            Val::Move(m) | Val::Compact(m) => m.usi(),
            Val::Hands(h) => hands_usi(h),
            Val::Pos(p) => observe(p).sfen(),
        }
    }
    /// Write the value; also reports whether the value still is what it was.
    pub fn write<W: core::fmt::Write>(&self, s: &mut W) -> core::fmt::Result {
        match self {
            Val::Color(x) => lcolor(*x).to_usi(s),
            Val::Kind(x) => lkind(*x).to_usi(s),
            Val::Piece(x) => lpiece(*x).to_usi(s),
            Val::Square(x) => lsq(*x).to_usi(s),
            Val::Move(m) => lmove(*m).to_usi(s),
            Val::Compact(m) => lcompact(*m).to_usi(s),
            Val::Hands(h) => [lhand(h[0]), lhand(h[1])].to_usi(s),
            Val::Pos(p) => p.to_sfen(s),
        }
    }
    pub fn owned(&self) -> String {
        match self {
            Val::Color(x) => lcolor(*x).to_usi_owned(),
            Val::Kind(x) => lkind(*x).to_usi_owned(),
            Val::Piece(x) => lpiece(*x).to_usi_owned(),
            Val::Square(x) => lsq(*x).to_usi_owned(),
            Val::Move(m) => lmove(*m).to_usi_owned(),
            Val::Compact(m) => lcompact(*m).to_usi_owned(),
            Val::Hands(h) => [lhand(h[0]), lhand(h[1])].to_usi_owned(),
            Val::Pos(p) => p.to_sfen_owned(),
        }
    }
}
pub fn gen_mv() -> MMove {
    if draw(2) == 0 {
        MMove::Normal { from: gen_sq(), to: gen_sq(), promote: draw(2) == 1 }
    } else {
        MMove::Drop { piece: gen_piece(), to: gen_sq() }
    }
}

/// One attempt to write `v` into a sink with the given plan; checks everything C06 says about it.
fn one_write(v: &Val, want: &str, plan: SinkPlan, stall: u32, reentry: Option<&dyn Fn()>, ctx: &str) {
    let mut s = FaultSink::new(plan);
    s.stall = stall;
    s.reentry = reentry;
    count(K::probe_render);
    let r = attempt(|| v.write(&mut s));
    let acc = String::from_utf8_lossy(&s.accepted).into_owned();
    let w = || format!("{ctx}: {} into a sink with {plan:?}", v.name());
    check!(want.as_bytes().starts_with(&s.accepted), "not-a-prefix", "{}: the sink accepted {acc:?}, which is no prefix of {want:?}", w());
    check!(s.writes_after_error == 0, "writes-after-error", "{}: after the error at {acc:?} it went on to write {:?}", w(), String::from_utf8_lossy(&s.late));
    match r {
        Outcome::Done(Ok(())) => {
            check!(s.errors == 0, "error-swallowed", "{}: the sink failed after {acc:?} but the writer reports success", w());
            check!(acc == want, "incomplete", "{}: success, but the sink accepted only {acc:?} of {want:?}", w());
        }
        Outcome::Done(Err(_)) => {
            count(K::probe_render_err);
            check!(s.errors > 0, "error-invented", "{}: error reported though the sink accepted everything ({acc:?})", w());
        }
        Outcome::Oom => fail!("panic", "{}: allocation error", w()),
        Outcome::Panicked(m) => {
            check!(matches!(plan, SinkPlan::Panic(_)) && m == "SimPanic", "panic", "{}: {m}", w());
        }
    }
    ev(20, s.accepted.len() as u64, s.errors as u64);
}

fn draw_plan(len: usize) -> SinkPlan {
    let at = draw(len as u32 + 2) as usize;
    match draw(4) {
        0 => SinkPlan::Error(at),
        1 => SinkPlan::Short(at),
        2 => SinkPlan::Panic(at),
        _ => SinkPlan::Never,
    }
}

pub fn c06() {
    // sometimes several values of one type
    let sort = if draw(3) == 2 { Some(draw(12)) } else { None };
    let vals: Vec<Val> = (0..1 + draw(4)).map(|_| Val::of(sort.unwrap_or_else(|| draw(12)))).collect();
    let texts: Vec<String> = vals.iter().map(|v| v.text()).collect();
    for (v, t) in vals.iter().zip(&texts) {
        trace!("{}: {t}", v.name());
        let s = v.owned();
        check!(s == *t, "wrong-text", "{}: owned text {s:?}, expected {t:?}", v.name());
    }
    let unchanged = |ctx: &str| {
        for (v, t) in vals.iter().zip(&texts) {
            if let Val::Pos(p) = v {
                let n = observe(p).sfen();
                check!(n == *t, "value-changed", "{ctx}: the position changed from {t:?} to {n:?}");
            }
        }
    };
    if draw(3) == 2 {
        // every byte of one value
        let i = draw(vals.len() as u32) as usize;
        let how = draw(3);
        for at in 0..=texts[i].len() + 1 {
            let plan = match how {
                0 => SinkPlan::Error(at),
                1 => SinkPlan::Short(at),
                _ => SinkPlan::Panic(at),
            };
            one_write(&vals[i], &texts[i], plan, 0, None, "sweep");
        }
        one_write(&vals[i], &texts[i], SinkPlan::Never, 0, None, "retry after the sweep");
        unchanged("sweep");
    }
    // several writers at once, each stalled by its sink now and then; sinks may call back into the library
    let n = 1 + draw(4) as usize;
    let other = Val::drawn();
    let other_text = other.text();
    let reenter = || {
        let s = other.owned();
        check!(s == other_text, "reentry-wrong", "text rendered inside a sink is {s:?}, expected {other_text:?}");
        let mut t = FaultSink::new(draw_plan(other_text.len()));
        let _ = attempt(|| other.write(&mut t));
        check!(other_text.as_bytes().starts_with(&t.accepted), "reentry-wrong", "text rendered inside a sink");
    };
    let mut tasks = Tasks::new();
    for id in 0..n {
        let (vals, texts, reenter) = (&vals, &texts, &reenter);
        let rounds = 1 + draw(if ctx().thorough { 12 } else { 6 });
        tasks.spawn(Box::new(move || {
            for k in 0..rounds {
                let i = draw(vals.len() as u32) as usize;
                let ctx = format!("writer {id}, round {k}");
                let plan = draw_plan(texts[i].len());
                trace!("{ctx}: {} with {plan:?}", vals[i].name());
                one_write(&vals[i], &texts[i], plan, draw(4), if draw(3) == 2 { Some(reenter) } else { None }, &ctx);
                yield_now();
                // faults over: a later attempt gives the full text
                one_write(&vals[i], &texts[i], SinkPlan::Never, draw(3), None, &format!("{ctx}, retry"));
                count(K::probe_retry_ok);
            }
        }));
    }
    if n > 1 && draw(4) == 3 {
        tasks.stalled[draw(n as u32) as usize] = true;
        fault(K::fault_sink_stall);
    }
    tasks.run(200_000);
    unchanged("end");
    for t in &texts {
        state(fnv(t.as_bytes()));
    }
}
pub fn fnv(b: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for &x in b {
        h = (h ^ x as u64).wrapping_mul(0x100_0000_01b3);
    }
    mix(h)
}

// ---------------------------------------------------------------------------------------------------------- C12

struct Slot {
    p: UnsafeCell<Option<Position>>,
    g: UnsafeCell<PartialGame>,
    /// what it must show: its initial position, its accepted moves, its current position
    m: RefCell<(MPos, Vec<MMove>, MPos)>,
    res: Cell<Option<GameResolution>>,
    readers: Cell<u32>,
    writer: Cell<bool>,
}
impl Slot {
    fn new() -> Slot {
        Slot {
            p: UnsafeCell::new(None),
            g: UnsafeCell::new(PartialGame::default()),
            m: RefCell::new((MPos::empty(), Vec::new(), MPos::empty())),
            res: Cell::new(None),
            readers: Cell::new(0),
            writer: Cell::new(false),
        }
    }
    fn get(&self) -> &Position {
        unsafe { (*self.p.get()).as_ref().unwrap() }
    }
    #[allow(clippy::mut_from_ref)]
    fn get_mut(&self) -> &mut Position {
        unsafe { (*self.p.get()).as_mut().unwrap() }
    }
    fn exists(&self) -> bool {
        unsafe { (*self.p.get()).is_some() }
    }
    fn verify(&self, ctx: &str) {
        let p = self.get();
        let m = self.m.borrow();
        let o = observe(p.inner());
        check!(o == m.2, "disturbed", "{ctx}: shows another position than the operations on it alone give: {}", diff(&o, &m.2));
        let i = observe(p.initial_position());
        check!(i == m.0, "disturbed", "{ctx}: its initial position changed: {}", diff(&i, &m.0));
        let mv: Vec<MMove> = p.moves().iter().map(|&m| mmove(m)).collect();
        check!(mv == m.1, "disturbed", "{ctx}: its record is {mv:?}, the operations on it alone give {:?}", m.1);
        let g = unsafe { &*self.g.get() };
        check!(g.resolution() == self.res.get(), "disturbed", "{ctx}: its game result is {:?}, expected {:?}", g.resolution(), self.res.get());
    }
}
static mut ALLOC_STALL: u32 = 0;
fn alloc_yield() {
    if current() != usize::MAX && draw(8) < unsafe { ALLOC_STALL } {
        fault(K::fault_alloc_stall);
        yield_now();
    }
}

pub fn c12() {
    if crate::ops::SHAREABLE && draw(4) == 3 {
        return crate::world_b::rust_threads();
    }
    const SLOTS: usize = 6;
    let slots: Vec<Slot> = (0..SLOTS).map(|_| Slot::new()).collect();
    let n0 = 1 + draw(3) as usize;
    let mut first: Option<PartialPosition> = None;
    for s in slots.iter().take(n0) {
        let mut p;
        match &first {
            // sometimes an object that differs from the first in one thing only
            Some(f) if draw(2) == 1 => p = crate::scen_core::perturb(f, &observe(f)),
            _ => {
                let g = gen_pos(PosOpts { max_kings: 1, allow_ply0: false });
                p = build(&g, false);
                crate::scen_core::aged(&mut p);
                first = Some(p.clone());
            }
        }
        let p = Position::arbitrary_position(p);
        let o = observe(p.inner());
        *s.m.borrow_mut() = (o.clone(), Vec::new(), o);
        unsafe { *s.p.get() = Some(p) };
    }
    unsafe { ALLOC_STALL = draw(6) };
    l().on_request = Some(alloc_yield);
    let suspended = Cell::new(0u32); // operations suspended midway
    // sometimes all tasks favour the same operation
    let focus = if draw(2) == 1 { Some((draw(20), draw(12))) } else { None };
    let n = 2 + draw(4) as usize;
    let mut tasks = Tasks::new();
    for id in 0..n {
        let rounds = 2 + draw(if ctx().thorough { 40 } else { 14 });
        let (slots, suspended) = (&slots, &suspended);
        tasks.spawn(Box::new(move || {
            for k in 0..rounds {
                let live: Vec<usize> = (0..SLOTS).filter(|&i| slots[i].exists() && !slots[i].writer.get()).collect();
                if live.is_empty() {
                    yield_now();
                    continue;
                }
                let i = live[draw(live.len() as u32) as usize];
                let s = &slots[i];
                let c = format!("task {id}, round {k}, object {i}");
                one_op(slots, s, &c, suspended, focus);
                if draw(3) == 0 {
                    yield_now();
                }
            }
        }));
    }
    if draw(4) == 3 {
        // one task stalls for good until all others are done
        tasks.stalled[draw(n as u32) as usize] = true;
        fault(K::fault_stalled_thread);
    }
    tasks.run(200_000);
    l().on_request = None;
    for (i, s) in slots.iter().enumerate() {
        if s.exists() {
            s.verify(&format!("end, object {i}"));
            state(s.m.borrow().2.hash64());
        }
    }
    crate::scen_mem::ledger_check("end");
}

fn one_op(slots: &[Slot], s: &Slot, c: &str, suspended: &Cell<u32>, focus: Option<(u32, u32)>) {
    struct Reader<'a>(&'a Slot, &'a Cell<u32>);
    impl<'a> Reader<'a> {
        fn new(s: &'a Slot, n: &'a Cell<u32>) -> Self {
            s.readers.set(s.readers.get() + 1);
            n.set(n.get() + 1);
            Reader(s, n)
        }
    }
    impl Drop for Reader<'_> {
        fn drop(&mut self) {
            self.0.readers.set(self.0.readers.get() - 1);
            self.1.set(self.1.get() - 1);
        }
    }
    let inner = || s.get().inner();
    let op = match focus {
        Some((f, _)) if draw(4) != 3 => f,
        _ => draw(20),
    };
    match op {
        0..=3 => {
            // rendering into a stalling, failing or re-entrant sink
            let want = s.m.borrow().2.sfen();
            let _r = Reader::new(s, suspended);
            let plan = if draw(3) == 2 { draw_plan(want.len()) } else { SinkPlan::Never };
            let mut sink = FaultSink::new(plan);
            sink.stall = 1 + draw(4);
            trace!("{c}: starts rendering ({plan:?})");
            let r = attempt(|| inner().to_sfen(&mut sink));
            trace!("{c}: ends rendering");
            let got = String::from_utf8_lossy(&sink.accepted).into_owned();
            check!(want.as_bytes().starts_with(&sink.accepted), "wrong-text", "{c}: a rendering suspended midway delivered {got:?}, its object alone gives {want:?}");
            if let Outcome::Done(Ok(())) = r {
                check!(got == want, "wrong-text", "{c}: a rendering suspended midway delivered {got:?}, its object alone gives {want:?}");
            } else {
                check!(plan != SinkPlan::Never, "wrong-text", "{c}: rendering fails though its sink did not");
            }
        }
        4 | 5 => {
            // small texts
            let v = match if focus.is_some() { 2 } else { draw(3) } {
                0 => {
                    let h = s.m.borrow().2.hands;
                    Val::Hands(h)
                }
                1 => s.m.borrow().2.last.map_or(Val::Color(1), Val::Move),
                _ => Val::of(focus.map_or_else(|| draw(12), |f| f.1)),
            };
            one_write(&v, &v.text(), draw_plan(v.text().len()), 3, None, c);
        }
        6 | 7 => {
            // hashing
            let copy = s.get().clone();
            let want = hash_bytes(&copy);
            let wanti = hash_bytes(copy.inner());
            drop(copy);
            let _r = Reader::new(s, suspended);
            let panic_at = if draw(6) == 5 { Some(draw(64) as usize) } else { None };
            let mut h = SimHasher { bytes: Vec::new(), stall: 1 + draw(4), panic_at };
            let whole = draw(2) == 0;
            trace!("{c}: starts hashing");
            use std::hash::Hash;
            let r = attempt(|| {
                if whole {
                    s.get().hash(&mut h)
                } else {
                    s.get().inner().hash(&mut h)
                }
            });
            trace!("{c}: ends hashing");
            count(K::probe_hash);
            let want = if whole { want } else { wanti };
            match r {
                Outcome::Done(()) => check!(h.bytes == want, "wrong-hash", "{c}: a hashing suspended midway fed other bytes than its object alone gives"),
                _ => check!(panic_at.is_some(), "panic", "{c}: hashing panicked"),
            }
        }
        8 | 9 => {
            // legality queries
            let o = s.m.borrow().2.clone();
            let m = if draw(2) == 0 { gen_garbage(&o) } else { gen_sensible(&o).unwrap_or_else(|| gen_garbage(&o)) };
            let mut ck = Checker::drawn();
            ck.fault.set(Fault::None);
            ck.stall = 1 + draw(6);
            *ck.expect.borrow_mut() = Some((o.clone(), Some(m)));
            let st = ck.status_now();
            let _r = Reader::new(s, suspended);
            trace!("{c}: starts a legality query");
            let got = sut(|| ck.is_legal(s.get(), lmove(m)));
            let lite = sut(|| ck.is_legal_lite(s.get(), lmove(m)));
            let list = sut(|| ck.all_legal_moves(s.get()));
            trace!("{c}: ends a legality query");
            let want = if st != PositionStatus::InProgress {
                Err(IllegalMoveKind::GameFinished)
            } else if o.sensible(m) {
                Ok(())
            } else {
                Err(IllegalMoveKind::IncorrectMove)
            };
            check!(got == want && lite == want.is_ok(), "wrong-verdict", "{c}: suspended legality query gives {got:?}/{lite}, alone {want:?}");
            if st != PositionStatus::InProgress {
                check!(list.is_empty(), "wrong-verdict", "{c}: suspended list query gives {} moves of a finished game", list.len());
            } else {
                check!(list == *ck.list.borrow(), "wrong-verdict", "{c}: suspended list query gives another list");
            }
            if let Some(e) = ck.wrong_arg.take() {
                fail!("wrong-verdict", "{c}: {e}");
            }
        }
        10..=12 => {
            // moves; the growing of the record may be suspended inside the allocator
            if s.readers.get() > 0 || s.writer.get() {
                return;
            }
            if suspended.get() > 0 {
                count(K::probe_writes_while_suspended);
            }
            let burst = 1 + draw(6);
            for _ in 0..burst {
                let o = s.m.borrow().2.clone();
                let m = if draw(4) == 3 { gen_garbage(&o) } else { gen_sensible(&o).unwrap_or_else(|| gen_garbage(&o)) };
                s.writer.set(true);
                suspended.set(suspended.get() + 1);
                let p = s.get_mut();
                let how = draw(3);
                let ok = sut(|| match how {
                    0 => p.make_move(lmove(m)).is_some(),
                    1 => p.make_compact_move(lcompact(m)),
                    _ => {
                        let mut ck = Checker::always_ok();
                        ck.stall = 2;
                        LegalityChecker::make_move(&ck, p, lmove(m)).is_ok()
                    }
                });
                suspended.set(suspended.get() - 1);
                s.writer.set(false);
                trace!("{c}: {} -> {ok}", m.usi());
                let want = o.sensible(m);
                check!(ok == want, "wrong-verdict", "{c}: {} gives {ok}, alone {want}", m.usi());
                if ok {
                    let mut mm = s.m.borrow_mut();
                    mm.2.apply(m);
                    mm.1.push(m);
                    count(K::probe_accepted);
                }
            }
            s.verify(c);
        }
        13 => {
            // edits
            if s.readers.get() > 0 || s.writer.get() {
                return;
            }
            if suspended.get() > 0 {
                count(K::probe_writes_while_suspended);
            }
            let q = gen_sq();
            let what = if draw(2) == 0 { 0 } else { gen_piece() };
            let what = if what != 0 && kind_of(what) == 8 { 0 } else { what };
            #[allow(deprecated)]
            s.get_mut().piece_set(lsq(q), lopt(what));
            s.m.borrow_mut().2.board[q as usize] = what;
            count(K::probe_edit);
            s.verify(c);
        }
        18 | 19 => {
            // an assignment over another object, possibly suspended inside the allocator
            let Some(t) = slots.iter().find(|t| t.exists() && !std::ptr::eq(*t, s) && !t.writer.get() && t.readers.get() == 0) else { return };
            t.writer.set(true);
            {
                let _r = Reader::new(s, suspended);
                let dst = t.get_mut();
                if draw(3) == 2 {
                    // the same position shown, by another history
                    sut(|| *dst = Position::arbitrary_position(s.get().inner().clone()));
                    if draw(2) == 0 {
                        sut(|| dst.clone_from(s.get()));
                        *t.m.borrow_mut() = s.m.borrow().clone();
                    } else {
                        let o = s.m.borrow().2.clone();
                        *t.m.borrow_mut() = (o.clone(), Vec::new(), o);
                    }
                } else {
                    sut(|| dst.clone_from(s.get()));
                    *t.m.borrow_mut() = s.m.borrow().clone();
                }
            }
            count(K::probe_copy);
            t.writer.set(false);
            t.verify(&format!("{c}: the object assigned to"));
        }
        14 | 15 => {
            // a copy, possibly suspended inside the allocator, and then a life of its own
            let Some(t) = slots.iter().find(|t| !t.exists() && !t.writer.get()) else {
                // destroy one instead
                if s.readers.get() == 0 && !s.writer.get() {
                    s.writer.set(true);
                    let p = unsafe { (*s.p.get()).take() };
                    sut(|| drop(p));
                    s.writer.set(false);
                    count(K::probe_destroy);
                }
                return;
            };
            t.writer.set(true);
            let copy = {
                let _r = Reader::new(s, suspended);
                sut(|| s.get().clone())
            };
            count(K::probe_copy);
            *t.m.borrow_mut() = s.m.borrow().clone();
            unsafe { *t.p.get() = Some(copy) };
            unsafe { *t.g.get() = (*s.g.get()).clone() };
            t.res.set(s.res.get());
            t.writer.set(false);
            check!(t.get() == s.get(), "disturbed", "{c}: a copy is unequal to its original");
            t.verify(&format!("{c}: the copy"));
        }
        16 => {
            // owned text, the allocations of which may stall
            let want = s.m.borrow().2.sfen();
            let _r = Reader::new(s, suspended);
            let got = sut(|| s.get().to_sfen_owned());
            check!(got == want, "wrong-text", "{c}: owned text suspended inside the allocator is {got:?}, alone {want:?}");
            // the C form and comparisons have no callback to be suspended in, but run while others are
            if want.len() < 900 {
                let mut buf = [0xa5u8; 1000];
                unsafe { s.get().to_sfen_c(buf.as_mut_ptr()) };
                check!(&buf[..want.len()] == want.as_bytes() && buf[want.len()] == 0, "wrong-text", "{c}: the C text is {:?}, alone {want:?}", String::from_utf8_lossy(&buf[..want.len() + 1]));
            }
            for t in slots.iter().filter(|t| t.exists() && !t.writer.get()) {
                let same = *t.m.borrow() == *s.m.borrow();
                let (eq, ord) = (s.get() == t.get(), s.get().cmp(t.get()));
                check!(eq == same && (ord == std::cmp::Ordering::Equal) == same, "wrong-comparison", "{c}: == gives {eq} and cmp {ord:?}, alone {same}");
            }
        }
        17 => {
            // the game register next to it
            let g = unsafe { &mut *s.g.get() };
            if draw(2) == 0 {
                let r = GameResolution::Draw;
                g.resolve(r);
                s.res.set(Some(r));
            } else {
                g.unresolve();
                s.res.set(None);
            }
            s.verify(c);
        }
        _ => {}
    }
}

// ---------------------------------------------------------------------------------------------------------- C15

pub fn c15() {
    let n = 1 + draw(3) as usize;
    let mut tasks = Tasks::new();
    for id in 0..n {
        let rounds = 2 + draw(if ctx().thorough { 60 } else { 20 });
        tasks.spawn(Box::new(move || c15_table(id, rounds)));
    }
    if n > 1 && draw(4) == 3 {
        tasks.stalled[draw(n as u32) as usize] = true;
        fault(K::fault_stalled_thread);
    }
    tasks.run(200_000);
    let _ = steps;
}

fn c15_table(id: usize, rounds: u32) {
    let g = gen_pos(PosOpts { max_kings: 2, allow_ply0: false });
    let mut p = build(&g, false);
    crate::scen_core::aged(&mut p);
    let mut p = Position::arbitrary_position(p);
    for k in 0..rounds {
        let c = format!("table {id}, round {k}");
        let before = full(&p);
        let o = before.inner.core.clone();
        let copy = p.clone();
        let m = if draw(3) == 2 { gen_garbage(&o) } else { gen_sensible(&o).unwrap_or_else(|| gen_garbage(&o)) };
        let sensible = o.sensible(m);
        let status = if draw(3) == 2 { status_of(draw(5)) } else { PositionStatus::InProgress };
        // mostly honest verdicts; sometimes a checker that calls an impossible move legal
        let honest = !sensible && draw(8) == 7;
        let verdict = if draw(3) == 2 || (!sensible && !honest) { Err(illegal(draw(7))) } else { Ok(()) };
        let mut ck = Checker::always_ok();
        ck.status.set(status);
        ck.verdict.set(Some(verdict));
        ck.list_len = if draw(16) == 15 { 500 + draw(300) } else { draw(40) };
        *ck.expect.borrow_mut() = Some((o.clone(), Some(m)));
        let f = match draw(8) {
            0 | 1 => Fault::Panic,
            2 | 3 => Fault::Stall,
            4 => Fault::Reentry,
            _ => Fault::None,
        };
        ck.fault.set(f);
        ck.fault_at.set(1 + draw(3));
        let history = draw(4) == 3;
        let own = if history && draw(2) == 1 { Err(illegal(draw(7))) } else { Ok(()) };
        let playing = status == PositionStatus::InProgress;
        if playing {
            match verdict {
                Ok(()) => count(K::probe_checker_ok),
                Err(_) => count(K::probe_checker_err),
            }
        } else {
            count(K::probe_checker_not_in_progress);
        }
        let partial_verdict = if playing { verdict } else { Err(IllegalMoveKind::GameFinished) };
        let full_verdict = if history { partial_verdict.and(own) } else { partial_verdict };
        let unchanged = |p: &Position, how: &str| {
            let a = full(p);
            check!(a == before && *p == copy, "changed", "{c}: {how}: the position changed: {} ({} -> {} recorded moves)", diff_views(&a.inner, &before.inner), before.moves.len(), a.moves.len());
        };
        let op = draw(6);
        let w = || {
            format!(
                "{c}: {} of {} (status {status:?}, verdict {verdict:?}{}, fault {f:?})",
                ["is_legal", "is_legal_lite", "all_legal_moves"].get(op as usize).unwrap_or(&"make_move"),
                m.usi(),
                if history { format!(", own rule on the record {own:?}") } else { String::new() }
            )
        };
        trace!("{}", w());
        let hc;
        let ckr: &Checker;
        let ck0;
        if history {
            hc = Some(HistoryChecker(ck, own));
            ckr = &hc.as_ref().unwrap().0;
        } else {
            hc = None;
            ck0 = ck;
            ckr = &ck0;
        }
        enum R {
            V(Result<(), IllegalMoveKind>),
            B(bool),
            L(Vec<Move>),
            M(Result<(), IllegalMoveKind>),
        }
        let lm = lmove(m);
        let r = attempt(|| match (&hc, op) {
            (None, 0) => R::V(ckr.is_legal(&p, lm)),
            (None, 1) => R::B(ckr.is_legal_lite(&p, lm)),
            (None, 2) => R::L(ckr.all_legal_moves(&p)),
            (None, _) => R::M(LegalityChecker::make_move(ckr, &mut p, lm)),
            (Some(h), 0) => R::V(h.is_legal(&p, lm)),
            (Some(h), 1) => R::B(h.is_legal_lite(&p, lm)),
            (Some(h), 2) => R::L(h.all_legal_moves(&p)),
            (Some(h), _) => R::M(LegalityChecker::make_move(h, &mut p, lm)),
        });
        if let Some(e) = ckr.wrong_arg.take() {
            fail!("wrong-question", "{}: {e}", w());
        }
        match r {
            Outcome::Oom => fail!("panic", "{}: allocation error", w()),
            Outcome::Panicked(why) => {
                // a checker's panic, or (in this debug build) the library's complaint about a checker that called an
                // impossible move legal
                let lying = full_verdict.is_ok() && !sensible && op >= 3;
                check!((f == Fault::Panic && why == "SimPanic") || lying, "panic", "{}: {why}", w());
                unchanged(&p, &format!("{}: panicked", w()));
            }
            Outcome::Done(R::V(v)) => {
                check!(v == full_verdict, "verdict-changed", "{}: reports {v:?}, expected {full_verdict:?}", w());
                unchanged(&p, &w());
            }
            Outcome::Done(R::B(b)) => {
                // a checker that overrides only `is_legal` does not say which of its two opinions the short form gives
                check!(b == partial_verdict.is_ok() || history && b == full_verdict.is_ok(), "verdict-changed", "{}: reports {b}, expected {}", w(), partial_verdict.is_ok());
                unchanged(&p, &w());
            }
            Outcome::Done(R::L(v)) => {
                count(K::probe_legal_list);
                if playing {
                    check!(v == *ckr.list.borrow(), "verdict-changed", "{}: returns {} moves, the checker's list has {}, or another order", w(), v.len(), ckr.list.borrow().len());
                } else {
                    check!(v.is_empty(), "not-gated", "{}: returns {} moves", w(), v.len());
                }
                unchanged(&p, &w());
            }
            Outcome::Done(R::M(v)) => {
                if full_verdict.is_ok() && !sensible {
                    unchanged(&p, &w());
                } else {
                    check!(v == full_verdict, "verdict-changed", "{}: reports {v:?}, expected {full_verdict:?}", w());
                    if v.is_ok() {
                        count(K::probe_checked_move_made);
                        let mut e = o.clone();
                        e.apply(m);
                        let a = full(&p);
                        check!(a.inner.core == e, "wrong-effect", "{}: {}", w(), diff(&a.inner.core, &e));
                        let mut mv = before.moves.clone();
                        mv.push(m);
                        check!(a.moves == mv, "wrong-effect", "{}: record is {:?}, expected {mv:?}", w(), a.moves);
                        check!(a.initial == before.initial, "wrong-effect", "{}: the initial position changed", w());
                    } else {
                        unchanged(&p, &w());
                    }
                }
            }
        }
        ev(30, op as u64, p.moves().len() as u64);
        state(mix(o.hash64() ^ op as u64));
        if draw(4) == 0 {
            yield_now();
        }
    }
}
