//! World A scenarios about positions as state machines: C01, C02, C03, C13, C14.

use crate::gen::*;
use crate::model::*;
use crate::net::Net;
use crate::tape::*;
use shogi_core::{Game, GameResolution, Hand, PartialGame, PartialPosition, Position};
use std::cmp::Ordering;

pub fn steps(short: u32, long: u32) -> u32 {
    match draw(64) {
        63 => long,
        x if x >= 48 => short * 3,
        _ => 1 + draw(short),
    }
}

/// Some pre-history so that positions are not always fresh.
pub fn warm(p: &mut PartialPosition, n: u32) {
    for _ in 0..n {
        if let Some(m) = gen_sensible(&observe(p)) {
            let _ = p.make_move(lmove(m));
        }
    }
}

/// Take the last move back the way an editor does: put everything where it was; the last move stays on display.
pub fn put_back(p: &mut PartialPosition, o: &MPos) {
    for s in 1..=81u8 {
        if observe_square(p, s) != o.board[s as usize] {
            p.piece_set(lsq(s), None);
        }
    }
    for s in 1..=81u8 {
        if observe_square(p, s) != o.board[s as usize] {
            p.piece_set(lsq(s), lopt(o.board[s as usize]));
        }
    }
    for c in 1..=2u8 {
        *p.hand_of_a_player_mut(lcolor(c)) = lhand(o.hands[c as usize - 1]);
    }
    p.side_to_move_set(lcolor(o.side));
    if draw(2) == 1 {
        let _ = p.ply_set(o.ply);
    }
}
fn observe_square(p: &PartialPosition, s: u8) -> u8 {
    p.piece_at(lsq(s)).map_or(0, mpiece)
}
/// Sometimes give a position a past.
pub fn aged(p: &mut PartialPosition) {
    match draw(6) {
        4 => warm(p, 1 + draw(3)),
        5 => {
            let w = draw(3);
            warm(p, w);
            let o = observe(p);
            warm(p, 1);
            put_back(p, &o);
        }
        _ => {}
    }
}

// ---------------------------------------------------------------------------------------------------------- C01

enum Rep {
    P(PartialPosition),
    R(Position),
}
impl Rep {
    fn observe(&self) -> (MPos, Option<MMove>) {
        match self {
            Rep::P(p) => (observe(p), p.last_compact_move().map(mcompact)),
            Rep::R(p) => (observe_position(p), p.last_compact_move().map(mcompact)),
        }
    }
    fn submit(&mut self, m: MMove, compact: bool) -> bool {
        match (self, compact) {
            (Rep::P(p), false) => p.make_move(lmove(m)).is_some(),
            (Rep::P(p), true) => p.make_compact_move(lcompact(m)),
            (Rep::R(p), false) => p.make_move(lmove(m)).is_some(),
            (Rep::R(p), true) => p.make_compact_move(lcompact(m)),
        }
    }
}
const REP_NAMES: [&str; 4] = [
    "PartialPosition::make_move",
    "PartialPosition::make_compact_move",
    "Position::make_move",
    "Position::make_compact_move",
];

pub fn c01() {
    let start = gen_pos(PosOpts { max_kings: 3, allow_ply0: false });
    count_pos(&start);
    let mut pp = build(&start, draw(2) == 1);
    aged(&mut pp);
    trace!("table: {}", observe(&pp).sfen());
    let mut reps = [
        Rep::P(pp.clone()),
        Rep::P(pp.clone()),
        Rep::R(Position::arbitrary_position(pp.clone())),
        Rep::R(Position::arbitrary_position(pp.clone())),
    ];
    let mut obs: Vec<MPos> = reps.iter().map(|r| r.observe().0).collect();
    let mut net = Net::new(&obs[0]);
    let n = steps(80, 1500);
    let edits = if draw(3) == 2 { 1 + draw(12) } else { 0 };
    if draw(30) == 29 {
        // pieces go back and forth: the same situations and the same moves again and again
        if let Some(sh) = crate::scen_record::find_shuffle(&obs[0]) {
            let k = if draw(3) == 2 { crate::scen_record::long_len(4096) } else { 4 + draw(200) };
            for i in 0..k {
                let m = sh[(i % 4) as usize];
                for (j, r) in reps.iter_mut().enumerate() {
                    check!(r.submit(m, j % 2 == 1), "wrongly-refused", "shuffle, move {i}: {} refused {} on {}", REP_NAMES[j], m.usi(), obs[j].sfen());
                    let mut e = obs[j].clone();
                    e.apply(m);
                    if i >= k - 4 || i < 4 {
                        let (a, lc) = r.observe();
                        check!(a == e && lc == Some(m), "wrong-effect", "shuffle, move {i}: {} of {} on {}: got vs expected: {}", REP_NAMES[j], m.usi(), obs[j].sfen(), diff(&a, &e));
                    }
                    obs[j] = e;
                }
            }
            net.broadcast(&obs[0]);
        }
    }
    for step in 0..n {
        if chance(edits, 100) {
            // the arbiter disturbs the table, alike on all replicas
            count(K::probe_edit);
            let s = gen_sq();
            let q = match draw(4) {
                0 => 0,
                _ => gen_piece(),
            };
            let h = if draw(3) == 2 { Some((1 + draw(2) as u8, gen_hand_obj())) } else { None };
            for r in reps.iter_mut() {
                match r {
                    Rep::P(p) => {
                        p.piece_set(lsq(s), lopt(q));
                        if let Some((c, (_, h))) = h {
                            *p.hand_of_a_player_mut(lcolor(c)) = h;
                        }
                    }
                    #[allow(deprecated)]
                    Rep::R(p) => {
                        p.piece_set(lsq(s), lopt(q));
                        if let Some((c, (_, h))) = h {
                            *p.hand_of_a_player_mut(lcolor(c)) = h;
                        }
                    }
                }
            }
            trace!("arbiter puts piece {} on {}, hand {:?}", q, sq_usi(s), h.map(|x| x.0));
            obs = reps.iter().map(|r| r.observe().0).collect();
            net.broadcast(&obs[0]);
        }
        let d = net.next();
        let m = d.mv;
        let alike = obs.iter().all(|o| *o == obs[0]);
        let mut verdicts = [false; 4];
        for (i, r) in reps.iter_mut().enumerate() {
            let before = &obs[i];
            let ok = r.submit(m, i % 2 == 1);
            verdicts[i] = ok;
            let want = before.sensible(m);
            if ok != want {
                fail!(
                    if ok { "wrongly-accepted" } else { "wrongly-refused" },
                    "step {step}: {} {} {} on {}",
                    REP_NAMES[i],
                    if ok { "accepted" } else { "refused" },
                    m.usi(),
                    before.sfen()
                );
            }
            let (after, lc) = r.observe();
            if ok {
                let mut e = before.clone();
                e.apply(m);
                if i == 0 {
                    count_move(before, m);
                }
                check!(
                    after == e,
                    "wrong-effect",
                    "step {step}: {} of {} on {}: got vs expected: {}",
                    REP_NAMES[i],
                    m.usi(),
                    before.sfen(),
                    diff(&after, &e)
                );
                check!(
                    lc == Some(m),
                    "wrong-effect",
                    "step {step}: {}: last_compact_move {:?} after {:?}",
                    REP_NAMES[i],
                    lc,
                    m
                );
            } else if i == 0 {
                count(K::probe_refused);
                if let MMove::Normal { from, to, .. } = m {
                    let (p, t) = (before.board[from as usize], before.board[to as usize]);
                    if p != 0 && color_of(p) == before.side && t == piece(8, 3 - before.side) {
                        count(K::probe_king_capture_refused);
                    }
                }
            }
            obs[i] = after;
        }
        if alike && verdicts[0] {
            for i in 1..4 {
                check!(
                    verdicts[i] == verdicts[0] && obs[i] == obs[0],
                    "forms-disagree",
                    "step {step}: {} and {} disagree on {}: {}",
                    REP_NAMES[0],
                    REP_NAMES[i],
                    m.usi(),
                    diff(&obs[i], &obs[0])
                );
            }
        }
        ev(3, verdicts[0] as u64, 0);
        if verdicts[0] {
            net.broadcast(&obs[0]);
            state(obs[0].hash64());
        }
    }
    if n > 500 {
        count(K::probe_long_history);
    }
    // faults stop: progress within a bounded number of submissions, unless nobody can move
    net.heal(&obs[0]);
    let can = (1..=81u8).any(|s| {
        let p = obs[0].board[s as usize];
        p != 0 && color_of(p) == obs[0].side && obs[0].board[1..].iter().any(|&t| t == 0)
    });
    if can {
        let mut made = false;
        for _ in 0..400 {
            let d = net.next();
            let before = reps[0].observe().0;
            if reps[0].submit(d.mv, false) {
                check!(before.sensible(d.mv), "wrongly-accepted", "after heal: {} accepted on {}", d.mv.usi(), before.sfen());
                made = true;
                break;
            }
            check!(!before.sensible(d.mv), "wrongly-refused", "after heal: {} refused on {}", d.mv.usi(), before.sfen());
        }
        check!(made, "no-progress", "no submission accepted within 400 deliveries after faults stopped: {}", obs[0].sfen());
    }
}

// ---------------------------------------------------------------------------------------------------------- C02

pub fn c02() {
    let start = gen_pos(PosOpts { max_kings: 2, allow_ply0: false });
    let mut pp = build(&start, draw(2) == 1);
    let w = draw(4);
    warm(&mut pp, w);
    trace!("table: {}", observe(&pp).sfen());
    let mut p = pp.clone(); // PartialPosition under test
    let mut r = Position::arbitrary_position(pp.clone()); // Position under test
    let mut tp = pp.clone(); // twins that never see a refused operation
    let mut tr = Position::arbitrary_position(pp.clone());
    let mut h = lhand(start.hands[0]);
    let mut th = h;
    let mut net = Net::new(&observe(&p));
    if draw(60) == 59 {
        if let Some(sh) = crate::scen_record::gen_shuffle(&observe(&p)) {
            count(K::probe_long_history);
            for i in 0..crate::scen_record::long_len(2100) as usize {
                let m = lmove(sh[i % 4]);
                let ok = [p.make_move(m).is_some(), r.make_move(m).is_some(), tp.make_move(m).is_some(), tr.make_move(m).is_some()];
                check!(ok == [true; 4], "long-game", "move {i} of a long game, {}, is refused: {ok:?}", sh[i % 4].usi());
            }
            net.broadcast(&observe(&p));
        }
    }
    let n = steps(24, 200);
    let heavy_garbage = draw(3) != 0;
    for step in 0..n {
        if draw(80) == 79 {
            // a burst of refused submissions, more than usual in a row
            let (vb, fb) = (views(&p), full(&r));
            let k = 3 + draw(40);
            let mut refused = 0;
            for _ in 0..k {
                let m = gen_garbage(&vb.core);
                if vb.core.sensible(m) || fb.inner.core.sensible(m) {
                    continue;
                }
                let compact = draw(2) == 1;
                let (x, y) = if compact {
                    (p.make_compact_move(lcompact(m)), r.make_compact_move(lcompact(m)))
                } else {
                    (p.make_move(lmove(m)).is_some(), r.make_move(lmove(m)).is_some())
                };
                if x || y {
                    break;
                }
                refused += 1;
            }
            if refused == k {
                let (va, fa) = (views(&p), full(&r));
                check!(va == vb && fa == fb, "refused-changed", "step {step}: {k} refused moves in a row changed: {} / {}", diff_views(&va, &vb), diff_views(&fa.inner, &fb.inner));
            }
            for _ in 0..refused {
                fault(K::fault_garbage_submission);
                count(K::probe_refused);
            }
            // the next ordinary move is as acceptable as it is to the twins, which saw none of this
            if let Some(m) = gen_sensible(&vb.core) {
                let (mut a, mut b) = (p.clone(), tp.clone());
                let (x, y) = (a.make_move(lmove(m)).is_some(), b.make_move(lmove(m)).is_some());
                check!(x == y, "later-differs", "step {step}: after {refused} refused moves in a row {} gives {x}, without them {y}", m.usi());
            }
        }
        let what = draw(12);
        match what {
            0 => {
                // zero ply, and sometimes an ordinary one
                let v = if draw(3) == 2 { gen_ply() } else { 0 };
                let before = views(&p);
                let copy = p.clone();
                let ok = p.ply_set(v);
                if !ok {
                    fault(K::fault_garbage_submission);
                    count(K::probe_refused);
                    let after = views(&p);
                    check!(after == before, "refused-changed", "step {step}: ply_set({v}) refused but changed: {}", diff_views(&after, &before));
                    check!(p == copy, "refused-unequal", "step {step}: ply_set({v}) refused, position differs from its copy");
                } else {
                    check!(tp.ply_set(v), "later-differs", "step {step}: twin refuses ply_set({v})");
                }
            }
            1 | 2 => {
                // hand operations, on a stand-alone hand or on a hand inside a position
                let k = gen_kind();
                let add = draw(2) == 0;
                let inside = draw(2) == 1;
                let c = lcolor(1 + draw(2) as u8);
                let vb = views(&p);
                let copy = p.clone();
                let hb = h;
                let hbc = mhand(h);
                let ok = {
                    let t: &mut Hand = if inside { p.hand_of_a_player_mut(c) } else { &mut h };
                    if add {
                        t.Hand_add(lkind(k))
                    } else {
                        t.Hand_remove(lkind(k))
                    }
                };
                check!(
                    !ok || k <= 7,
                    "impossible-accepted",
                    "step {step}: a hand accepts to {} a piece of kind {k}, which no hand can hold",
                    if add { "add" } else { "remove" }
                );
                if ok {
                    let t: &mut Hand = if inside { tp.hand_of_a_player_mut(c) } else { &mut th };
                    let tok = if add { t.Hand_add(lkind(k)) } else { t.Hand_remove(lkind(k)) };
                    check!(tok, "later-differs", "step {step}: twin hand refuses what the hand accepted (kind {k}, add {add})");
                } else {
                    fault(K::fault_garbage_submission);
                    count(K::probe_refused);
                    let va = views(&p);
                    check!(va == vb, "refused-changed", "step {step}: hand {} of kind {k} refused but changed: {}", if add { "add" } else { "remove" }, diff_views(&va, &vb));
                    check!(p == copy, "refused-unequal", "step {step}: hand operation refused, position differs from its copy");
                    check!(mhand(h) == hbc && h == hb, "refused-changed", "step {step}: hand {} of kind {k} refused but hand changed {:?} -> {:?}", if add { "add" } else { "remove" }, hbc, mhand(h));
                }
            }
            _ => {
                let m = if heavy_garbage && draw(3) != 0 {
                    fault(K::fault_garbage_submission);
                    let o = observe(&p);
                    gen_garbage(&o)
                } else {
                    net.next().mv
                };
                let compact = draw(2) == 1;
                // PartialPosition
                let before = views(&p);
                let copy = p.clone();
                let ok = if compact { p.make_compact_move(lcompact(m)) } else { p.make_move(lmove(m)).is_some() };
                trace!("step {step}: {} -> {}", m.usi(), ok);
                ev(4, m.compact() as u64, ok as u64);
                if ok {
                    count_move(&before.core, m);
                    let tok = tp.make_move(lmove(m)).is_some();
                    check!(tok, "later-differs", "step {step}: {} accepted, but refused by the twin that never saw the refused operations", m.usi());
                    net.broadcast(&observe(&p));
                } else {
                    count(K::probe_refused);
                    let after = views(&p);
                    check!(after == before, "refused-changed", "step {step}: PartialPosition refused {} on {} but changed: {}", m.usi(), before.sfen, diff_views(&after, &before));
                    check!(p == copy && copy == p, "refused-unequal", "step {step}: PartialPosition refused {} on {} but differs from its copy", m.usi(), before.sfen);
                }
                // Position
                let before = full(&r);
                let copy = r.clone();
                let ok = if compact { r.make_compact_move(lcompact(m)) } else { r.make_move(lmove(m)).is_some() };
                if ok {
                    let tok = tr.make_move(lmove(m)).is_some();
                    check!(tok, "later-differs", "step {step}: Position accepted {}, its twin refuses", m.usi());
                } else {
                    let after = full(&r);
                    check!(after.inner == before.inner, "refused-changed", "step {step}: Position refused {} on {} but changed: {}", m.usi(), before.inner.sfen, diff_views(&after.inner, &before.inner));
                    check!(after.moves == before.moves, "refused-changed", "step {step}: Position refused {} but its record changed from {} to {} moves", m.usi(), before.moves.len(), after.moves.len());
                    check!(after == before, "refused-changed", "step {step}: Position refused {} on {} but changed (initial or delegated view)", m.usi(), before.inner.sfen);
                    check!(r == copy && copy == r, "refused-unequal", "step {step}: Position refused {} but differs from its copy", m.usi());
                }
            }
        }
    }
    // the twins never saw a refused operation
    let (a, b) = (views(&p), views(&tp));
    check!(a == b && p == tp, "later-differs", "PartialPosition differs from its twin: {}", diff_views(&a, &b));
    let (a, b) = (full(&r), full(&tr));
    check!(a == b && r == tr, "later-differs", "Position differs from its twin: {}", diff_views(&a.inner, &b.inner));
    check!(mhand(h) == mhand(th) && h == th, "later-differs", "hand differs from its twin: {:?} {:?}", mhand(h), mhand(th));
    state(a.inner.core.hash64());
}

// ---------------------------------------------------------------------------------------------------------- C03

pub fn check_views(p: &PartialPosition, ctx: &str) {
    let o = observe(p);
    let occ = o.set_of(|q| q != 0);
    let e = |name: &str, got: u128, want: u128| {
        check!(
            got == want,
            "view-disagrees",
            "{ctx}: {name} is {got:#x} but the board shows {want:#x} (set of squares, bit = index) on {}",
            o.sfen()
        );
    };
    e("occupied_bitboard", mset(p.occupied_bitboard()), occ);
    e("vacant_bitboard", mset(p.vacant_bitboard()), ALL & !occ);
    for c in 1..=2u8 {
        e(if c == 1 { "player_bitboard(Black)" } else { "player_bitboard(White)" }, mset(p.player_bitboard(lcolor(c))), o.set_of(|q| q != 0 && color_of(q) == c));
        let ks = o.set_of(|q| q == piece(8, c));
        match p.king_position(lcolor(c)) {
            None => check!(ks == 0, "king-square", "{ctx}: no king square for side {c} but its king is on the board: {}", o.sfen()),
            Some(s) => check!(ks >> msq(s) & 1 == 1, "king-square", "{ctx}: king square of side {c} is {} but no king of it stands there: {}", sq_usi(msq(s)), o.sfen()),
        }
        let h = p.hand_of_a_player(lcolor(c));
        for k in 1..=14u8 {
            let want = if k <= 7 { Some(o.hands[c as usize - 1][k as usize]) } else { None };
            let got = p.hand(lpiece(piece(k, c)));
            check!(got == want, "hand-view", "{ctx}: hand({}) is {got:?}, expected {want:?}", piece(k, c));
            check!(h.count(lkind(k)) == want, "hand-view", "{ctx}: hand count of kind {k} is {:?}, expected {want:?}", h.count(lkind(k)));
            check!(h.Hand_count(lkind(k)) == want.unwrap_or(0), "hand-view", "{ctx}: C hand count of kind {k} is {}", h.Hand_count(lkind(k)));
        }
    }
    for q in all_pieces() {
        let want = o.set_of(|x| x == q);
        let got = mset(p.piece_bitboard(lpiece(q)));
        check!(got == want, "view-disagrees", "{ctx}: piece_bitboard({q}) is {got:#x} but the board shows {want:#x} on {}", o.sfen());
    }
    for k in 1..=14u8 {
        let want = o.set_of(|x| x != 0 && kind_of(x) == k);
        let got = mset(p.piece_kind_bitboard(lkind(k)));
        check!(got == want, "view-disagrees", "{ctx}: piece_kind_bitboard({k}) is {got:#x} but the board shows {want:#x} on {}", o.sfen());
    }
    for s in 1..=81u8 {
        let c = mopt(p.PartialPosition_piece_at(lsq(s)).into());
        check!(c == o.board[s as usize], "view-disagrees", "{ctx}: C piece_at({s}) is {c}");
    }
    check!(p.last_compact_move().map(mcompact) == o.last, "view-disagrees", "{ctx}: last_compact_move {:?} but last_move {:?}", p.last_compact_move().map(mcompact), o.last);
}
pub fn check_delegation(p: &Position, ctx: &str) {
    check_views(p.inner(), ctx);
    check_views(p.initial_position(), ctx);
    let a = views_position(p);
    let mut b = views(p.inner());
    b.by_kind = [0; 15];
    b.king = [0; 2];
    b.hash = Vec::new();
    check!(a == b, "delegation", "{ctx}: Position answers differently from its underlying position: {}", diff_views(&a, &b));
}

pub fn c03() {
    let kings = 1 + draw(3) as u8;
    let gen = || gen_pos(PosOpts { max_kings: kings, allow_ply0: false });
    let mut pps: Vec<PartialPosition> = Vec::new();
    let mut rs: Vec<Position> = Vec::new();
    let m = gen();
    count_pos(&m);
    pps.push(build(&m, true));
    pps.push(match draw(3) {
        0 => PartialPosition::startpos(),
        1 => PartialPosition::default(),
        _ => PartialPosition::empty(),
    });
    rs.push(Position::arbitrary_position(pps[0].clone()));
    rs.push(if draw(2) == 0 { Position::startpos() } else { Position::default() });
    for p in &pps {
        check_views(p, "after construction");
    }
    for r in &rs {
        check_delegation(r, "after construction");
    }
    let g = (Game::default(), PartialGame::default());
    check_delegation(g.0.position(), "new game");
    check_views(g.1.position(), "new game");
    let mut buf = std::mem::MaybeUninit::uninit();
    PartialPosition::PartialPosition_startpos(&mut buf);
    check_views(unsafe { buf.assume_init_ref() }, "C start position");
    let mut journals: Vec<(PartialPosition, Vec<MMove>)> = rs.iter().map(|r| (r.inner().clone(), Vec::new())).collect();
    let n = steps(40, 400);
    for step in 0..n {
        let pos = draw(3) != 2;
        let i = draw(2) as usize;
        let o = if pos { observe(&pps[i]) } else { observe(rs[i].inner()) };
        let op = draw(14);
        ev(5, op as u64, pos as u64);
        match op {
            0..=3 => {
                // placement, replacement or removal, kings included
                let s = if draw(3) == 2 {
                    let ks: Vec<u8> = (1..=81u8).filter(|&s| kind_of(o.board[s as usize]) == 8 && o.board[s as usize] != 0).collect();
                    if ks.is_empty() { gen_sq() } else { ks[draw(ks.len() as u32) as usize] }
                } else {
                    gen_sq()
                };
                let mut q = match draw(5) {
                    0 | 1 => 0,
                    2 => piece(8, 1 + draw(2) as u8),
                    _ => gen_piece(),
                };
                if q != 0 && kind_of(q) == 8 {
                    let c = color_of(q);
                    if o.kings(c) >= kings as usize && o.board[s as usize] != q {
                        q = piece(7, c);
                    }
                }
                if o.board[s as usize] != 0 && kind_of(o.board[s as usize]) == 8 {
                    count(K::probe_king_removed);
                }
                count(K::probe_edit);
                nontrivial();
                trace!("step {step}: place {} on {} ({} {})", q, sq_usi(s), if pos { "partial" } else { "recorded" }, i);
                if pos {
                    pps[i].piece_set(lsq(s), lopt(q));
                } else {
                    #[allow(deprecated)]
                    rs[i].piece_set(lsq(s), lopt(q));
                    journals[i] = (rs[i].inner().clone(), Vec::new());
                }
            }
            4 => {
                let c = lcolor(1 + draw(2) as u8);
                let (_, h) = gen_hand_obj();
                let k = lkind(gen_kind());
                #[allow(deprecated)]
                let t = if pos { pps[i].hand_of_a_player_mut(c) } else { rs[i].hand_of_a_player_mut(c) };
                match draw(3) {
                    0 => *t = h,
                    1 => {
                        let _ = t.Hand_add(k);
                    }
                    _ => {
                        let _ = t.Hand_remove(k);
                    }
                }
                count(K::probe_edit);
                trace!("step {step}: edit a hand");
                if !pos {
                    journals[i] = (rs[i].inner().clone(), Vec::new());
                }
            }
            5 => {
                if pos {
                    pps[i].side_to_move_set(lcolor(1 + draw(2) as u8));
                    let _ = pps[i].ply_set(gen_ply());
                }
            }
            6 => {
                // copy or assign
                count(K::probe_copy);
                if pos {
                    let c = pps[i].clone();
                    if draw(2) == 1 {
                        count(K::probe_assign);
                        let j = 1 - i;
                        pps[j].clone_from(&c);
                        check_views(&pps[j], &format!("step {step}: after assignment"));
                    } else {
                        pps[i] = c;
                    }
                } else {
                    let c = rs[i].clone();
                    if draw(2) == 1 {
                        count(K::probe_assign);
                        let j = 1 - i;
                        rs[j].clone_from(&c);
                        journals[j] = journals[i].clone();
                        check_delegation(&rs[j], &format!("step {step}: after assignment"));
                    } else {
                        rs[i] = c;
                    }
                }
            }
            7 => {
                // crash and rebuild from what was durable
                fault(K::fault_crash_restart);
                if pos {
                    let c = o.clone();
                    pps[i] = build(&c, true);
                } else {
                    let (init, js) = journals[i].clone();
                    let keep = draw(js.len() as u32 + 1) as usize;
                    if keep < js.len() {
                        fault(K::fault_journal_tail_lost);
                    }
                    let mut r = Position::arbitrary_position(init.clone());
                    for m in &js[..keep] {
                        let _ = r.make_move(lmove(*m));
                    }
                    rs[i] = r;
                    journals[i] = (init, js[..keep].to_vec());
                }
                trace!("step {step}: crash and rebuild");
            }
            _ => {
                let m = if draw(4) == 3 {
                    fault(K::fault_garbage_submission);
                    gen_garbage(&o)
                } else {
                    match gen_sensible(&o) {
                        Some(m) => m,
                        None => gen_garbage(&o),
                    }
                };
                let ok = match (pos, draw(2) == 1) {
                    (true, false) => pps[i].make_move(lmove(m)).is_some(),
                    (true, true) => pps[i].make_compact_move(lcompact(m)),
                    (false, false) => rs[i].make_move(lmove(m)).is_some(),
                    (false, true) => rs[i].make_compact_move(lcompact(m)),
                };
                trace!("step {step}: {} on {} {} -> {}", m.usi(), if pos { "partial" } else { "recorded" }, i, ok);
                if ok {
                    count(K::probe_accepted);
                    if !pos {
                        journals[i].1.push(m);
                    }
                } else {
                    count(K::probe_refused);
                }
            }
        }
        let ctx = format!("step {step}");
        if pos {
            check_views(&pps[i], &ctx);
            state(observe(&pps[i]).hash64());
        } else {
            check_delegation(&rs[i], &ctx);
        }
    }
}

// ---------------------------------------------------------------------------------------------------------- C13

#[derive(Clone)]
struct Replica {
    p: Position,
    // what it shows, maintained independently of the library
    initial: MPos,
    moves: Vec<MMove>,
}

fn laws<T: Ord + PartialEq + Clone + std::hash::Hash>(a: &T, b: &T, same: bool, what: &str, da: &str, db: &str) -> Ordering {
    let eq = a == b;
    let ne = a != b;
    check!(eq == same, if same { "equal-shown-unequal" } else { "unequal-shown-equal" }, "{what}: == is {eq} but the replicas show {} states\n  a: {da}\n  b: {db}", if same { "the same" } else { "different" });
    check!(ne != eq && (b == a) == eq, "eq-laws", "{what}: == / != inconsistent or not symmetric\n  a: {da}\n  b: {db}");
    let c = a.cmp(b);
    let d = b.cmp(a);
    check!((c == Ordering::Equal) == same, "ord-vs-eq", "{what}: cmp is {c:?} but the replicas show {} states\n  a: {da}\n  b: {db}", if same { "the same" } else { "different" });
    check!(c == d.reverse(), "ord-antisymmetry", "{what}: cmp {c:?} one way and {d:?} the other\n  a: {da}\n  b: {db}");
    check!(a.partial_cmp(b) == Some(c), "ord-partial", "{what}: partial_cmp {:?} vs cmp {c:?}", a.partial_cmp(b));
    check!((a < b) == (c == Ordering::Less) && (a <= b) == (c != Ordering::Greater) && (a > b) == (c == Ordering::Greater) && (a >= b) == (c != Ordering::Less), "ord-partial", "{what}: comparison operators disagree with cmp {c:?}");
    if same {
        count(K::probe_equal_pairs);
        check!(hash_bytes(a) == hash_bytes(b), "hash-vs-eq", "{what}: equal values feed the hasher differently\n  a: {da}\n  b: {db}");
        let mut h1 = std::collections::hash_map::DefaultHasher::new();
        let mut h2 = std::collections::hash_map::DefaultHasher::new();
        use std::hash::Hasher;
        a.hash(&mut h1);
        b.hash(&mut h2);
        check!(h1.finish() == h2.finish(), "hash-vs-eq", "{what}: equal values hash differently");
    } else {
        count(K::probe_unequal_pairs);
    }
    c
}

/// A copy of the position differing in exactly one visible feature (or none).
pub fn perturb(p: &PartialPosition, o: &MPos) -> PartialPosition {
    let mut q = p.clone();
    match draw(8) {
        0 => q.side_to_move_set(lcolor(3 - o.side)),
        1 => {
            let d = if draw(2) == 0 { 1 } else { 256 };
            let _ = q.ply_set(o.ply.wrapping_add(d).max(1));
        }
        2 => {
            let c = lcolor(1 + draw(2) as u8);
            let k = lkind(1 + draw(7) as u8);
            let h = q.hand_of_a_player_mut(c);
            if draw(2) == 0 {
                let _ = h.Hand_add(k);
            } else {
                let _ = h.Hand_remove(k);
            }
        }
        3 => {
            // one square, without adding or removing kings
            let s = gen_sq();
            let old = o.board[s as usize];
            if old == 0 || kind_of(old) != 8 {
                let mut n = if draw(3) == 0 { 0 } else { gen_piece() };
                if n != 0 && kind_of(n) == 8 {
                    n = piece(7, color_of(n));
                }
                q.piece_set(lsq(s), lopt(n));
            }
        }
        4 => {
            // swap the contents of two squares
            let (a, b) = (gen_sq(), gen_sq());
            let (x, y) = (o.board[a as usize], o.board[b as usize]);
            q.piece_set(lsq(a), None);
            q.piece_set(lsq(b), lopt(x));
            q.piece_set(lsq(a), lopt(y));
            if a == b {
                q.piece_set(lsq(a), lopt(x));
            }
        }
        5 | 6 => {
            // pieces change sides, and nothing else does
            let n = 1 + draw(2);
            for _ in 0..n {
                let from = gen_sq();
                let s = (from..=81).chain(1..from).find(|&s| o.board[s as usize] != 0 && kind_of(o.board[s as usize]) != 8);
                if let Some(s) = s {
                    let x = o.board[s as usize];
                    q.piece_set(lsq(s), lopt(piece(kind_of(x), 3 - color_of(x))));
                }
            }
        }
        _ => {}
    }
    q
}

/// Two replicas that are nearly the same: they differ in one thing only that a sloppy comparison forgets.
fn twins(p: &PartialPosition, o: &MPos) {
    let play = |p0: &PartialPosition, ms: &[MMove]| -> Option<Position> {
        let mut x = Position::arbitrary_position(p0.clone());
        for &m in ms {
            x.make_move(lmove(m))?;
        }
        Some(x)
    };
    let compare = |a: &Position, b: &Position, what: &str| {
        let (oa, ob) = (observe(a.inner()), observe(b.inner()));
        laws(a.inner(), b.inner(), oa == ob, what, &oa.sfen(), &ob.sfen());
        let ma: Vec<MMove> = a.moves().iter().map(|&m| mmove(m)).collect();
        let mb: Vec<MMove> = b.moves().iter().map(|&m| mmove(m)).collect();
        let same = oa == ob && ma == mb && observe(a.initial_position()) == observe(b.initial_position());
        laws(a, b, same, what, &oa.sfen(), &ob.sfen());
        if oa == ob && !same {
            count(K::probe_near_twin);
        }
        // one of them catches up by assignment
        let (mut x, y) = if draw(2) == 0 { (a.clone(), b) } else { (b.clone(), a) };
        x.clone_from(y);
        check!(full(&x) == full(y), "disturbed", "{what}: a replica assigned from another shows something else: {} instead of {}", full(&x).inner.sfen, full(y).inner.sfen);
        laws(&x, y, true, "a replica and the one it was assigned from", &oa.sfen(), &ob.sfen());
    };
    match draw(7) {
        5 | 6 => {
            // the same board, hands, side and ply, once more after two different last moves: `m` is played, and
            // taken back as if it had been `m2`
            let (mut p, mut o) = (p.clone(), o.clone());
            if draw(3) == 0 {
                // with something to drop
                let h = 1 + draw(7) as u8;
                let _ = p.hand_of_a_player_mut(lcolor(o.side)).Hand_add(lkind(h));
                o = observe(&p);
            }
            let Some(mut m) = gen_sensible(&o) else { return };
            for _ in 0..3 {
                if matches!(m, MMove::Normal { .. }) && draw(2) == 0 {
                    m = gen_sensible(&o).unwrap_or(m);
                }
            }
            let to = match m {
                MMove::Normal { to, .. } | MMove::Drop { to, .. } => to,
            };
            let mut r = o.clone();
            r.apply(m);
            let own: Vec<u8> = (1..=81u8).filter(|&s| r.board[s as usize] != 0 && color_of(r.board[s as usize]) == o.side).collect();
            // rather one that stands where a move of the same sort could have ended
            let same: Vec<u8> = own.iter().copied().filter(|&s| kind_of(r.board[s as usize]) == kind_of(r.board[to as usize])).collect();
            let t2 = if draw(2) == 0 { same[draw(same.len() as u32) as usize] } else { own[draw(own.len() as u32) as usize] };
            let c = r.board[t2 as usize];
            let k = kind_of(c);
            let mut b = r.clone();
            b.side = o.side;
            b.ply = o.ply;
            b.last = None;
            let drop = matches!(m, MMove::Drop { .. });
            let me = o.side as usize - 1;
            let m2 = if k <= 7 && b.hands[me][k as usize] < 255 && (if drop { draw(4) != 3 } else { draw(4) == 3 }) {
                b.board[t2 as usize] = 0;
                b.hands[me][k as usize] += 1;
                MMove::Drop { piece: c, to: t2 }
            } else {
                let free: Vec<u8> = (1..=81u8).filter(|&s| r.board[s as usize] == 0).collect();
                if free.is_empty() {
                    return;
                }
                let f2 = match m {
                    MMove::Normal { from, .. } if draw(2) == 0 => from,
                    _ => free[draw(free.len() as u32) as usize],
                };
                let promote = unpromote_kind(k).is_some() && draw(2) == 0;
                b.board[f2 as usize] = if promote { piece(unpromote_kind(k).unwrap(), o.side) } else { c };
                b.board[t2 as usize] = 0;
                let held: Vec<u8> = (1..=7u8).filter(|&k| b.hands[me][k as usize] > 0).collect();
                if !held.is_empty() && draw(2) == 0 {
                    let h = held[draw(held.len() as u32) as usize];
                    b.hands[me][h as usize] -= 1;
                    let e = if draw(2) == 0 { promote_kind(h).unwrap_or(h) } else { h };
                    b.board[t2 as usize] = piece(e, 3 - o.side);
                }
                MMove::Normal { from: f2, to: t2, promote }
            };
            let q = build(&b, draw(2) == 1);
            if let (Some(x), Some(y)) = (play(&p, &[m]), play(&q, &[m2])) {
                compare(&x, &y, "the same board after two last moves, one taken back from it");
            }
        }
        3 => {
            // a piece promoted, or did not, and was captured on the spot: only the record knows
            let side = o.side;
            let mut q = p.clone();
            let vac: Vec<u8> = (1..=81u8).filter(|&s| o.board[s as usize] == 0).collect();
            if vac.len() < 3 {
                return;
            }
            let k = [1, 2, 3, 4, 6, 7][draw(6) as usize];
            let a = vac[draw(vac.len() as u32) as usize];
            let b = vac[draw(vac.len() as u32) as usize];
            let c = vac[draw(vac.len() as u32) as usize];
            if a == b || b == c || a == c {
                return;
            }
            q.piece_set(lsq(a), lopt(piece(k, side)));
            q.piece_set(lsq(c), lopt(piece(1 + draw(7) as u8, 3 - side)));
            let mut ms = vec![MMove::Normal { from: a, to: b, promote: true }, MMove::Normal { from: c, to: b, promote: false }];
            let mut x = observe(&q);
            for &m in &ms {
                if !x.step(m) {
                    return;
                }
            }
            for _ in 0..draw(4) {
                if let Some(m) = gen_sensible(&x) {
                    x.apply(m);
                    ms.push(m);
                }
            }
            let mut other = ms.clone();
            other[0] = MMove::Normal { from: a, to: b, promote: false };
            if let (Some(x), Some(y)) = (play(&q, &ms), play(&q, &other)) {
                compare(&x, &y, "records that differ in one promotion only");
            }
        }
        0 => {
            // a transposition: the same moves in another order
            let mut x = o.clone();
            let mut ms = Vec::new();
            for _ in 0..4 + draw(2) {
                let Some(m) = gen_sensible(&x) else { return };
                x.apply(m);
                ms.push(m);
            }
            let mut other = ms.clone();
            let last = ms.len() - 1;
            if last == 4 && draw(2) == 1 {
                other.swap(1, 3);
            } else {
                other.swap(0, 2);
            }
            if let (Some(a), Some(b)) = (play(p, &ms), play(p, &other)) {
                compare(&a, &b, "the same moves in two orders");
            }
        }
        1 => {
            // the same board reached by two different last moves
            let Some(m) = gen_sensible(o) else { return };
            let mut q = p.clone();
            let m2 = match m {
                MMove::Normal { from, to, promote } => {
                    let free: Vec<u8> = (1..=81u8).filter(|&s| o.board[s as usize] == 0 && s != to).collect();
                    let c = o.board[from as usize];
                    if free.is_empty() || draw(4) == 0 {
                        // with and without promotion
                        if kind_of(c) == 8 || !promote {
                            return;
                        }
                        let Some(k) = promote_kind(kind_of(c)) else { return };
                        q.piece_set(lsq(from), lopt(piece(k, color_of(c))));
                        MMove::Normal { from, to, promote: false }
                    } else {
                        let f2 = free[draw(free.len() as u32) as usize];
                        q.piece_set(lsq(from), None);
                        q.piece_set(lsq(f2), lopt(c));
                        MMove::Normal { from: f2, to, promote }
                    }
                }
                MMove::Drop { piece: pc, to } => {
                    let free: Vec<u8> = (1..=81u8).filter(|&s| o.board[s as usize] == 0 && s != to).collect();
                    if free.is_empty() {
                        return;
                    }
                    let f2 = free[draw(free.len() as u32) as usize];
                    q.piece_set(lsq(f2), lopt(pc));
                    let h = q.hand_of_a_player_mut(lcolor(color_of(pc)));
                    let _ = h.Hand_remove(lkind(kind_of(pc)));
                    MMove::Normal { from: f2, to, promote: false }
                }
            };
            if let (Some(a), Some(b)) = (play(p, &[m]), play(&q, &[m2])) {
                compare(&a, &b, "the same board after two different last moves");
            }
        }
        2 => {
            // records that differ in the initial position only: what was captured was promoted, or was not
            for _ in 0..6 {
                let Some(m) = gen_sensible(o) else { return };
                let MMove::Normal { to, .. } = m else { continue };
                let e = o.board[to as usize];
                if e == 0 {
                    continue;
                }
                let Some(k) = promote_kind(kind_of(e)).or(unpromote_kind(kind_of(e))) else { continue };
                let mut q = p.clone();
                q.piece_set(lsq(to), lopt(piece(k, color_of(e))));
                let mut ms = vec![m];
                let mut x = o.clone();
                x.apply(m);
                for _ in 0..draw(3) {
                    if let Some(m) = gen_sensible(&x) {
                        x.apply(m);
                        ms.push(m);
                    }
                }
                if let (Some(a), Some(b)) = (play(p, &ms), play(&q, &ms)) {
                    compare(&a, &b, "records that differ in the initial position only");
                }
                return;
            }
        }
        _ => {
            // one was copied or recovered in the middle: the same position, a shorter record
            let Some(m) = gen_sensible(o) else { return };
            let mut x = o.clone();
            x.apply(m);
            let Some(m2) = gen_sensible(&x) else { return };
            if let Some(a) = play(p, &[m, m2]) {
                let mut q = p.clone();
                let _ = q.make_move(lmove(m));
                if let Some(b) = play(&q, &[m2]) {
                    compare(&a, &b, "the same game recorded from two points on");
                }
                let c = play(a.inner(), &[]).unwrap();
                compare(&a, &c, "a played game and the same position without a record");
            }
        }
    }
}

/// Long records that differ in the middle, or not at all, and lead to the same position.
fn c13_long() {
    let start = gen_pos(PosOpts { max_kings: 1, allow_ply0: false });
    let (Some(sh), Some(other)) = (crate::scen_record::gen_shuffle(&start), crate::scen_record::gen_shuffle(&start)) else { return };
    count(K::probe_long_history);
    let len = (if draw(12) == 11 { 65_530 + draw(12) } else { crate::scen_record::long_len(4096) }) as usize;
    let (i, j) = (draw(len as u32) as usize / 4, draw(len as u32) as usize / 4);
    let base = build(&start, false);
    let mut make = |odd: usize, compact: bool| {
        let mut p = Position::arbitrary_position(base.clone());
        for k in 0..len {
            let m = if k / 4 == odd { other[k % 4] } else { sh[k % 4] };
            let ok = if compact { p.make_compact_move(lcompact(m)) } else { p.make_move(lmove(m)).is_some() };
            check!(ok, "long-game", "move {k} of a long game is refused: {}", m.usi());
            count(K::probe_accepted);
        }
        p
    };
    let (none, c) = (usize::MAX, draw(2) == 1);
    let x = make(none, c);
    let a = make(i, !c);
    let b = make(if draw(3) == 2 { i } else { j }, c);
    let games = [("plain", &x), ("one detour", &a), ("one detour", &b)];
    fault(K::fault_net_reorder);
    for (da, p) in games {
        for (db, q) in games {
            let same = p.moves() == q.moves() && p.moves().iter().zip(q.moves()).all(|(&m, &n)| mmove(m) == mmove(n));
            let inner = observe(p.inner()) == observe(q.inner());
            let (da, db) = (format!("{da}, {len} moves, {i} {j}"), format!("{db}, {len} moves"));
            laws(p.inner(), q.inner(), inner, "partial positions after long games", &da, &db);
            laws(p, q, same && inner, "positions with long records", &da, &db);
        }
    }
    state(observe(x.inner()).hash64() ^ len as u64);
}

/// A crowd of replicas, all of them different, most of them nearly the same: nobody may be taken for anybody else.
/// What is compared by a digest shows here, where half a million pairs meet.
fn c13_crowd() {
    let start = gen_pos(PosOpts { max_kings: 1, allow_ply0: false });
    let base = build(&start, false);
    let mode = draw(10);
    let mut x = (draw(1 << 16) as u64) << 16 | draw(1 << 16) as u64;
    let mut rnd = |n: usize| {
        x = x.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = x;
        z = (z ^ z >> 30).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ z >> 27).wrapping_mul(0x94d0_49bb_1331_11eb);
        ((z ^ z >> 31) % n as u64) as usize
    };
    // a few squares and pieces that all members share, or none
    let squares: Vec<u8> = (0..5).map(|_| 1 + rnd(81) as u8).collect();
    let pieces: Vec<u8> = (0..4).map(|i| if i == 0 { 0 } else { piece([1, 2, 3, 4, 5, 6, 7, 9, 10, 11, 12, 13, 14][rnd(13)], 1 + rnd(2) as u8) }).collect();
    let mut seen = std::collections::HashSet::new();
    let mut all: Vec<(PartialPosition, MPos)> = Vec::new();
    for _ in 0..1024 {
        let mut m = start.clone();
        let mut p = base.clone();
        let mut set = |s: u8, c: u8| {
            if kind_of(m.board[s as usize]) != 8 || m.board[s as usize] == 0 {
                m.board[s as usize] = c;
                p.piece_set(lsq(s), lopt(c));
            }
        };
        if mode & 1 == 0 {
            for &s in &squares {
                set(s, pieces[rnd(4)]);
            }
        } else {
            for _ in 0..1 + rnd(6) {
                set(1 + rnd(81) as u8, [0, piece(1 + rnd(7) as u8, 1), piece(9 + rnd(6) as u8, 2), piece(1 + rnd(7) as u8, 2)][rnd(4)]);
            }
        }
        if mode & 2 != 0 {
            for _ in 0..rnd(3) {
                let (c, k) = (1 + rnd(2) as u8, 1 + rnd(7) as u8);
                if p.hand_of_a_player_mut(lcolor(c)).Hand_add(lkind(k)) {
                    let h = &mut m.hands[c as usize - 1][k as usize];
                    *h = h.wrapping_add(1);
                }
            }
        }
        if mode >= 8 {
            let s = 1 + rnd(2) as u8;
            m.side = s;
            p.side_to_move_set(lcolor(s));
            let ply = 1 + rnd(300) as u16;
            m.ply = ply;
            check!(p.ply_set(ply), "ply", "ply_set({ply}) refused");
        }
        if seen.insert((m.side, m.ply, m.hands, m.board)) {
            all.push((p, m));
        }
    }
    count(K::probe_crowd);
    trace!("a crowd of {} replicas", all.len());
    for i in 0..all.len() {
        for j in 0..i {
            let (a, b) = (&all[i], &all[j]);
            check!(a.0 != b.0, "unequal-shown-equal", "two of a crowd are equal but show different states\n  a: {}\n  b: {}", a.1.sfen(), b.1.sfen());
        }
    }
    all.sort_by(|a, b| a.0.cmp(&b.0));
    for w in all.windows(2) {
        check!(w[0].0.cmp(&w[1].0) == Ordering::Less && w[1].0.cmp(&w[0].0) == Ordering::Greater, "ord-vs-eq", "two of a crowd are not ordered but show different states\n  a: {}\n  b: {}", w[0].1.sfen(), w[1].1.sfen());
    }
    state(start.hash64() ^ all.len() as u64);
}

pub fn c13() {
    if draw(40) == 39 {
        c13_long();
    }
    if draw(50) == 49 {
        c13_crowd();
    }
    let mut start = gen_pos(PosOpts { max_kings: 1, allow_ply0: false });
    count_pos(&start);
    let mut base = build(&start, false);
    let w = draw(5);
    for _ in 0..w {
        if let Some(m) = gen_sensible(&start) {
            if base.make_move(lmove(m)).is_some() {
                start.apply(m);
            }
        }
    }
    if start.last.is_some() && draw(4) == 3 {
        let o = start.clone();
        warm(&mut base, 1);
        put_back(&mut base, &o);
        start = observe(&base);
    }
    // every replica gets the initial position by its own route
    let n = 3 + draw(3) as usize;
    let mut reps: Vec<Replica> = Vec::new();
    for i in 0..n {
        // snapshots carry no last move, so only a copy can transfer one
        let route = if start.last.is_some() { 0 } else { draw(4) };
        let p = match route {
            0 => base.clone(),
            1 => build(&start, false),
            2 => {
                fault(K::fault_snapshot_restore);
                build(&start, true)
            }
            _ => {
                // by way of a text snapshot
                fault(K::fault_snapshot_restore);
                match MPos::parse_sfen(&start.sfen()) {
                    Some(m) if m.ply != 0 => build(&m, true),
                    _ => base.clone(),
                }
            }
        };
        trace!("replica {i}: initial route {route}");
        reps.push(Replica { p: Position::arbitrary_position(p), initial: start.clone(), moves: Vec::new() });
    }
    let mut net_net: Vec<std::collections::VecDeque<MMove>> = vec![Default::default(); n];
    let loss = if draw(2) == 0 { 0 } else { draw(25) };
    let dup = draw(25);
    let reorder = draw(25);
    let steps = steps(30, 150);
    for step in 0..steps {
        // the leader (replica 0) accepts a move and sends it to everyone
        let o = observe(reps[0].p.inner());
        let m = if draw(5) == 4 { gen_garbage(&o) } else { gen_sensible(&o).unwrap_or(MMove::Drop { piece: 1, to: 1 }) };
        for i in 0..n {
            if i > 0 && chance(loss, 100) {
                fault(K::fault_net_drop);
                count(K::probe_replica_diverged);
                continue;
            }
            net_net[i].push_back(m);
            if i > 0 && chance(dup, 100) {
                fault(K::fault_net_dup);
                net_net[i].push_back(m);
            }
            let l = net_net[i].len();
            if i > 0 && l >= 2 && chance(reorder, 100) {
                fault(K::fault_net_reorder);
                net_net[i].swap(l - 1, l - 2);
            }
        }
        for i in 0..n {
            let k = if i == 0 { net_net[i].len() as u32 } else { draw(net_net[i].len() as u32 + 1) };
            for _ in 0..k {
                let m = net_net[i].pop_front().unwrap();
                let r = &mut reps[i];
                let ok = if draw(2) == 0 { r.p.make_move(lmove(m)).is_some() } else { r.p.make_compact_move(lcompact(m)) };
                ev(6, m.compact() as u64, (i as u64) << 1 | ok as u64);
                trace!("step {step}: replica {i}: {} -> {ok}", m.usi());
                if ok {
                    r.moves.push(m);
                    count(K::probe_accepted);
                } else {
                    count(K::probe_refused);
                }
            }
        }
        match draw(12) {
            0 => {
                // crash: a replica recovers from its journal, or from a copy of a peer
                let i = draw(n as u32) as usize;
                fault(K::fault_crash_restart);
                if draw(2) == 0 {
                    let moves = reps[i].moves.clone();
                    let initial = reps[i].initial.clone();
                    let p0 = if initial.last.is_some() { reps[i].p.initial_position().clone() } else { build(&initial, true) };
                    let mut p = Position::arbitrary_position(p0);
                    for m in &moves {
                        let _ = p.make_move(lmove(*m));
                    }
                    reps[i].p = p;
                } else {
                    let j = draw(n as u32) as usize;
                    let c = reps[j].clone();
                    reps[i] = c;
                }
                trace!("step {step}: replica {i} recovers");
            }
            1 => {
                // a detour of placements that ends where it began, on a partial position
                let i = draw(n as u32) as usize;
                let o = observe(reps[i].p.inner());
                let mut q = reps[i].p.inner().clone();
                for _ in 0..1 + draw(4) {
                    let s = gen_sq();
                    q.piece_set(lsq(s), if draw(2) == 0 { None } else { lopt(gen_piece()) });
                }
                for s in 1..=81u8 {
                    let s = if draw(2) == 0 { s } else { 82 - s };
                    q.piece_set(lsq(s), lopt(o.board[s as usize]));
                }
                for s in 1..=81u8 {
                    q.piece_set(lsq(s), lopt(o.board[s as usize]));
                }
                let o2 = observe(&q);
                let same = o2 == o;
                laws(reps[i].p.inner(), &q, same, "partial position against itself after a detour of placements", &o.sfen(), &o2.sfen());
            }
            _ => {}
        }
        if step % 3 == 2 || step + 1 == steps {
            // compare everything pairwise, then a triple
            let obs: Vec<MPos> = reps.iter().map(|r| observe(r.p.inner())).collect();
            let inits: Vec<MPos> = reps.iter().map(|r| observe(r.p.initial_position())).collect();
            for i in 0..n {
                for j in i..n {
                    let (a, b) = (&reps[i], &reps[j]);
                    let same_inner = obs[i] == obs[j];
                    laws(a.p.inner(), b.p.inner(), same_inner, "partial positions of two replicas", &obs[i].sfen(), &obs[j].sfen());
                    let ma: Vec<MMove> = a.p.moves().iter().map(|&m| mmove(m)).collect();
                    let mb: Vec<MMove> = b.p.moves().iter().map(|&m| mmove(m)).collect();
                    let same = same_inner && inits[i] == inits[j] && ma == mb;
                    laws(&a.p, &b.p, same, "positions of two replicas", &obs[i].sfen(), &obs[j].sfen());
                }
            }
            // near misses
            let i = draw(n as u32) as usize;
            let mut q = perturb(reps[i].p.inner(), &obs[i]);
            if obs[i].kings(1) <= 1 && obs[i].kings(2) <= 1 {
                let oq = observe(&q);
                laws(reps[i].p.inner(), &q, oq == obs[i], "partial position and a one-feature variant", &obs[i].sfen(), &oq.sfen());
                // transitivity over a triple
                let j = draw(n as u32) as usize;
                let q2 = perturb(&q, &oq);
                let trip = [reps[i].p.inner(), &q, &q2, reps[j].p.inner()];
                for a in trip {
                    for b in trip {
                        for c in trip {
                            if a.cmp(b) != Ordering::Greater && b.cmp(c) != Ordering::Greater {
                                check!(a.cmp(c) != Ordering::Greater, "ord-transitivity", "order is not transitive: {} / {} / {}", observe(a).sfen(), observe(b).sfen(), observe(c).sfen());
                            }
                            count(K::probe_cmp);
                        }
                    }
                }
                // the same position shown, but a different record: the variant replayed
                if let Some(m) = gen_sensible(&oq) {
                    let before = Position::arbitrary_position(q.clone());
                    let mut x = before.clone();
                    if x.make_move(lmove(m)).is_some() {
                        let y = Position::arbitrary_position(x.inner().clone());
                        laws(&x, &y, false, "a played move and the same position set up afresh", "played", "set up");
                        let _ = q.make_move(lmove(m));
                        laws(&q, x.inner(), observe(&q) == observe(x.inner()), "a partial and a recorded replica after the same move", "partial", "recorded");
                    }
                }
            }
            if obs[i].kings(1) <= 1 && obs[i].kings(2) <= 1 {
                twins(reps[i].p.inner(), &obs[i]);
                twins(reps[i].p.inner(), &obs[i]);
            }
            state(obs[0].hash64());
        }
    }
}

// ---------------------------------------------------------------------------------------------------------- C14

fn res(k: u32) -> GameResolution {
    match k {
        0 => GameResolution::BlackWins,
        1 => GameResolution::WhiteWins,
        2 => GameResolution::Draw,
        3 => GameResolution::Rematch,
        _ => GameResolution::Aborted,
    }
}

trait GameLike: Clone + Eq + Ord + std::hash::Hash + Default {
    fn set(&mut self, r: GameResolution);
    fn unset(&mut self);
    fn get(&self) -> Option<GameResolution>;
    fn get_c(&self) -> Option<GameResolution>;
    fn pos(&self) -> (Views, Option<FullPosition>);
}
impl GameLike for Game {
    fn set(&mut self, r: GameResolution) {
        self.resolve(r)
    }
    fn unset(&mut self) {
        self.unresolve()
    }
    fn get(&self) -> Option<GameResolution> {
        self.resolution()
    }
    fn get_c(&self) -> Option<GameResolution> {
        self.Game_resolution().into()
    }
    fn pos(&self) -> (Views, Option<FullPosition>) {
        (views(self.position().inner()), Some(full(self.position())))
    }
}
impl GameLike for PartialGame {
    fn set(&mut self, r: GameResolution) {
        self.resolve(r)
    }
    fn unset(&mut self) {
        self.unresolve()
    }
    fn get(&self) -> Option<GameResolution> {
        self.resolution()
    }
    fn get_c(&self) -> Option<GameResolution> {
        self.PartialGame_resolution().into()
    }
    fn pos(&self) -> (Views, Option<FullPosition>) {
        (views(self.position()), None)
    }
}

fn c14_run<G: GameLike>(what: &str) {
    let n = 2 + draw(2) as usize;
    let mut games: Vec<G> = (0..n).map(|_| G::default()).collect();
    let mut reg: Vec<Option<GameResolution>> = vec![None; n];
    let fresh: Vec<(Views, Option<FullPosition>)> = games.iter().map(|g| g.pos()).collect();
    for (i, g) in games.iter().enumerate() {
        check!(g.get().is_none() && g.get_c().is_none(), "initial-result", "{what}: a new game reports {:?}", g.get());
        check!(fresh[i] == fresh[0], "position-changed", "{what}: two new games show different positions");
    }
    // requests travel through a lossy channel: (arrival, seq) order
    let mut q: std::collections::BTreeMap<(u64, u64), (usize, Option<u32>)> = Default::default();
    let mut now = 0u64;
    let mut seq = 0;
    let (loss, dup, delay) = (draw(30), draw(30), draw(60));
    let steps = steps(40, 400);
    for step in 0..steps {
        now += 1 + draw(5) as u64;
        // somebody sends
        let t = draw(n as u32) as usize;
        let r = if draw(3) == 2 { None } else { Some(draw(5)) };
        if chance(loss, 100) {
            fault(K::fault_net_drop);
        } else {
            let copies = if chance(dup, 100) {
                fault(K::fault_net_dup);
                2 + draw(2)
            } else {
                1
            };
            for _ in 0..copies {
                seq += 1;
                let mut at = now + draw(3) as u64;
                if chance(delay, 100) {
                    fault(K::fault_net_delay);
                    at += draw(60) as u64;
                }
                q.insert((at, seq), (t, r));
            }
        }
        // deliveries due
        while let Some((&k, _)) = q.range(..=(now, u64::MAX)).next() {
            let (t, r) = q.remove(&k).unwrap();
            if k.1 + 1 < seq {
                count(K::fault_net_reorder);
            }
            match r {
                Some(x) => {
                    games[t].set(res(x));
                    reg[t] = Some(res(x));
                    count(K::probe_resolve);
                }
                None => {
                    games[t].unset();
                    reg[t] = None;
                    count(K::probe_unresolve);
                }
            }
            ev(7, t as u64, r.map_or(9, |x| x as u64));
            trace!("step {step}: {what} {t}: {:?}", reg[t]);
            check!(games[t].get() == reg[t], "wrong-result", "step {step}: {what} reports {:?}, last request set {:?}", games[t].get(), reg[t]);
        }
        sh().sim_time = now;
        if draw(6) == 5 {
            // copies and assignments
            let (i, j) = (draw(n as u32) as usize, draw(n as u32) as usize);
            let c = games[i].clone();
            count(K::probe_copy);
            if draw(2) == 0 {
                games[j] = c;
            } else {
                games[j].clone_from(&c);
            }
            reg[j] = reg[i];
        }
        for i in 0..n {
            for _ in 0..2 {
                check!(games[i].get() == reg[i], "wrong-result", "step {step}: {what} {i} reports {:?}, expected {:?}", games[i].get(), reg[i]);
                check!(games[i].get_c() == reg[i], "wrong-result", "step {step}: {what} {i} reports {:?} through C, expected {:?}", games[i].get_c(), reg[i]);
            }
            for j in 0..n {
                laws(&games[i], &games[j], reg[i] == reg[j], what, &format!("{:?}", reg[i]), &format!("{:?}", reg[j]));
            }
        }
        if step % 8 == 7 || step + 1 == steps {
            for (i, g) in games.iter().enumerate() {
                check!(g.pos() == fresh[0], "position-changed", "step {step}: the position of {what} {i} changed: {}", diff_views(&g.pos().0, &fresh[0].0));
            }
            let mut h = 0u64;
            for r in &reg {
                h = mix(h ^ r.map_or(0, |x| x as u64));
            }
            state(h);
        }
    }
}

pub fn c14() {
    if draw(2) == 0 {
        c14_run::<PartialGame>("partial game")
    } else {
        c14_run::<Game>("game")
    }
}
