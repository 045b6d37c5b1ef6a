//! World A scenarios about records, snapshots and recovery: C04, C07.

use crate::gen::*;
use crate::model::*;
use crate::net::Net;
use crate::scen_core::{steps, warm};
use crate::tape::*;
use shogi_core::{PartialPosition, Position};

// ---------------------------------------------------------------------------------------------------------- C04

/// Pieces are shuffled back and forth to make a long record cheaply.
pub fn find_shuffle(o: &MPos) -> Option<[MMove; 4]> {
    let other = 3 - o.side;
    let vac: Vec<u8> = (1..=81u8).filter(|&s| o.board[s as usize] == 0).collect();
    if vac.len() < 2 {
        return None;
    }
    let a = (1..=81u8).find(|&s| o.board[s as usize] != 0 && color_of(o.board[s as usize]) == o.side)?;
    let b = (1..=81u8).find(|&s| o.board[s as usize] != 0 && color_of(o.board[s as usize]) == other)?;
    let mv = |from, to| MMove::Normal { from, to, promote: false };
    Some([mv(a, vac[0]), mv(b, vac[1]), mv(vac[0], a), mv(vac[1], b)])
}

/// The same with pieces and squares drawn.
pub fn gen_shuffle(o: &MPos) -> Option<[MMove; 4]> {
    let of = |c: u8| -> Vec<u8> { (1..=81u8).filter(|&s| o.board[s as usize] != 0 && color_of(o.board[s as usize]) == c).collect() };
    let vac: Vec<u8> = (1..=81u8).filter(|&s| o.board[s as usize] == 0).collect();
    let (mine, theirs) = (of(o.side), of(3 - o.side));
    if vac.len() < 2 || mine.is_empty() || theirs.is_empty() {
        return None;
    }
    let i = draw(vac.len() as u32) as usize;
    let j = (i + 1 + draw(vac.len() as u32 - 1) as usize) % vac.len();
    let (a, b) = (pick(&mine), pick(&theirs));
    let mv = |from, to| MMove::Normal { from, to, promote: false };
    Some([mv(a, vac[i]), mv(b, vac[j]), mv(vac[i], a), mv(vac[j], b)])
}
/// Lengths of long games: often just below a power of two or a round number.
pub fn long_len(max: u32) -> u32 {
    let near = pick(&[128u32, 200, 256, 300, 400, 500, 512, 600, 800, 1000, 1024, 1500, 2000, 2048, 3000, 4000, 4096]);
    let l = match draw(3) {
        0 => 120 + draw(2000),
        _ => near - draw(14),
    };
    l.min(max)
}

pub fn c04() {
    // initial position
    let fresh_start = draw(4) == 0;
    let (mut table, initial): (Position, PartialPosition) = if fresh_start {
        match draw(3) {
            0 => (Position::startpos(), PartialPosition::startpos()),
            1 => (Position::default(), PartialPosition::startpos()),
            _ => (Position::arbitrary_position(PartialPosition::startpos()), PartialPosition::startpos()),
        }
    } else {
        let g = gen_pos(PosOpts { max_kings: 2, allow_ply0: false });
        count_pos(&g);
        let mut pp = build(&g, draw(2) == 1);
        let w = if draw(2) == 1 { draw(6) } else { 0 };
        warm(&mut pp, w);
        (Position::arbitrary_position(pp.clone()), pp)
    };
    let init_views = views(&initial);
    trace!("initial: {}", init_views.sfen);
    let vi = views(table.initial_position());
    check!(vi == init_views, "initial-wrong", "initial position differs from the one given: {}", diff_views(&vi, &init_views));
    check!(table.moves().is_empty(), "record-wrong", "new position has {} moves", table.moves().len());
    let vv = views(table.inner());
    check!(vv == init_views, "inner-wrong", "new position differs from its initial position: {}", diff_views(&vv, &init_views));

    let mut journal: Vec<MMove> = Vec::new();
    let mut snaps: Vec<PartialPosition> = vec![table.inner().clone()];
    // a control that never crashes: the same accepted moves applied to a partial position
    let mut control = initial.clone();
    let mut net = Net::new(&observe(&initial));
    let n = steps(40, 300);
    let crash_rate = if draw(4) == 0 { 0 } else { 1 + draw(20) };
    if draw(40) == 39 {
        // long record
        count(K::probe_long_history);
        if let Some(sh) = find_shuffle(&observe(&control)) {
            let k = long_len(4096);
            for i in 0..k {
                let m = sh[(i % 4) as usize];
                let ok = if draw(2) == 0 { table.make_move(lmove(m)).is_some() } else { table.make_compact_move(lcompact(m)) };
                if ok {
                    journal.push(m);
                }
                let ok2 = control.make_move(lmove(m)).is_some();
                check!(ok == ok2, "continuation-differs", "shuffle move {}: recorded {} partial {}", m.usi(), ok, ok2);
                snaps.push(control.clone());
                if !ok {
                    snaps.pop();
                }
            }
        }
    }
    if draw(500) == 499 {
        // a very long record: more moves than a 16-bit ply can count
        if let Some(sh) = find_shuffle(&observe(&control)) {
            count(K::probe_record_ge65536);
            let k = 65_530 + draw(12);
            let mut r = table.clone();
            let mut c = control.clone();
            let had = r.moves().len();
            for i in 0..k {
                let m = sh[(i % 4) as usize];
                let ok = if i % 7 == 3 { r.make_compact_move(lcompact(m)) } else { r.make_move(lmove(m)).is_some() };
                let ok2 = c.make_move(lmove(m)).is_some();
                check!(ok && ok2, "continuation-differs", "long game, move {} {}: recorded {} partial {}", i, m.usi(), ok, ok2);
                if i % 4096 == 4095 {
                    // a refused submission in the middle
                    let g = lmove(MMove::Drop { piece: 1, to: msq_occupied(&sh) });
                    let (a, b) = (r.clone().make_move(g).is_some(), c.clone().make_move(g).is_some());
                    check!(a == b, "continuation-differs", "long game, after {} moves: recorded {a} partial {b}", i + 1);
                    if !a {
                        let _ = r.make_move(g);
                    }
                }
            }
            for (i, m) in r.moves()[had..].iter().enumerate() {
                check!(mmove(*m) == sh[i % 4], "record-wrong", "long game: move {i} of the record is {}, {} was accepted", mmove(*m).usi(), sh[i % 4].usi());
            }
            check!(r.moves().len() == had + k as usize && r.inner() == &c, "record-wrong", "long game: record has {} moves of {}, current position equal: {}", r.moves().len(), had + k as usize, r.inner() == &c);
            check!(views(r.initial_position()) == init_views, "initial-wrong", "long game: initial position changed");
        }
    }
    let verify_record = |table: &Position, journal: &[MMove], deep: bool, ctx: &str| {
        let mv = table.moves();
        check!(mv.len() == journal.len(), "record-wrong", "{ctx}: record has {} moves, {} were accepted", mv.len(), journal.len());
        let from = if deep { 0 } else { journal.len().saturating_sub(2) };
        for i in from..journal.len() {
            check!(mmove(mv[i]) == journal[i], "record-wrong", "{ctx}: move {} of the record is {} but {} was accepted", i, mmove(mv[i]).usi(), journal[i].usi());
        }
        if deep {
            let v = views(table.initial_position());
            check!(v == init_views && *table.initial_position() == initial, "initial-wrong", "{ctx}: initial position changed: {}", diff_views(&v, &init_views));
        }
    };
    for step in 0..n {
        let d = net.next();
        let m = d.mv;
        let compact = draw(2) == 1;
        let ok = if compact { table.make_compact_move(lcompact(m)) } else { table.make_move(lmove(m)).is_some() };
        if ok {
            count(K::probe_accepted);
            journal.push(m);
        } else {
            count(K::probe_refused);
        }
        let ok2 = control.make_move(lmove(m)).is_some();
        let ctx = format!("step {step} ({} {})", m.usi(), if ok { "accepted" } else { "refused" });
        check!(ok == ok2, "continuation-differs", "{ctx}: the control without a crash says {ok2}");
        verify_record(&table, &journal, step % 8 == 0, &ctx);
        let (a, b) = (observe(table.inner()), observe(&control));
        check!(a == b, "inner-wrong", "{ctx}: current position is not the initial one plus the accepted moves: {}", diff(&a, &b));
        if ok {
            snaps.push(control.clone());
            net.broadcast(&b);
            state(b.hash64());
        }
        if chance(crash_rate, 100) {
            // crash; some prefix of the journal was durable
            fault(K::fault_crash_restart);
            let keep = match draw(3) {
                0 => journal.len(),
                1 => journal.len().saturating_sub(draw(3) as usize),
                _ => draw(journal.len() as u32 + 1) as usize,
            };
            if keep < journal.len() {
                fault(K::fault_journal_tail_lost);
            }
            let form = draw(3);
            trace!("{ctx}: crash, {} of {} moves durable, form {form}", keep, journal.len());
            // the durable image was taken from the record itself
            let durable: Vec<shogi_core::CompactMove> = table.moves()[..keep].iter().map(|&m| m.into()).collect();
            let mut r = Position::arbitrary_position(initial.clone());
            for i in 0..keep {
                let ok = match form {
                    0 => r.make_move(lmove(journal[i])).is_some(),
                    1 => r.make_compact_move(durable[i]),
                    _ => r.make_move(durable[i].into()).is_some(),
                };
                check!(ok, "replay-refused", "{ctx}: after a crash, durable move {i} {} is refused", journal[i].usi());
            }
            journal.truncate(keep);
            snaps.truncate(keep + 1);
            let then = &snaps[keep];
            let (a, b) = (views(r.inner()), views(then));
            check!(a == b && r.inner() == then, "replay-differs", "{ctx}: rebuilt from {keep} moves differs from the state then: {}", diff_views(&a, &b));
            table = r;
            control = then.clone();
            verify_record(&table, &journal, true, &ctx);
            count(K::probe_continue_after_restart);
            let b = observe(&control);
            net.broadcast(&b);
        }
    }
    verify_record(&table, &journal, true, "end");
    if draw(3) == 0 {
        // a current position that is edited by hand leaves the initial position and the record alone
        let mut t = if draw(3) == 0 { Position::arbitrary_position(initial.clone()) } else { table.clone() };
        let had: Vec<MMove> = t.moves().iter().map(|&m| mmove(m)).collect();
        for _ in 0..1 + draw(3) {
            count(K::probe_edit);
            match draw(4) {
                0 => {
                    #[allow(deprecated)]
                    let h = t.hand_of_a_player_mut(lcolor(1 + draw(2) as u8));
                    let _ = h.Hand_add(lkind(1 + draw(7) as u8));
                }
                _ => {
                    #[allow(deprecated)]
                    t.piece_set(lsq(gen_sq()), lopt(if draw(3) == 0 { 0 } else { gen_piece() }));
                }
            }
            verify_record(&t, &had, true, "after an edit of the current position");
        }
    }
    // full replay once more
    let mut p = initial.clone();
    for (i, m) in table.moves().iter().enumerate() {
        check!(p.make_move(*m).is_some(), "replay-refused", "end: move {i} of the record is refused in a replay");
    }
    let (a, b) = (views(&p), views(table.inner()));
    check!(a == b && &p == table.inner(), "inner-wrong", "end: replaying the record gives another position: {}", diff_views(&a, &b));
}

/// A square that is occupied at every fourth move of a shuffle.
fn msq_occupied(sh: &[MMove; 4]) -> u8 {
    match sh[0] {
        MMove::Normal { from, .. } => from,
        MMove::Drop { to, .. } => to,
    }
}

// ---------------------------------------------------------------------------------------------------------- C07

const BOUND: usize = 139;

fn check_text(p: &PartialPosition, rec: Option<&Position>, from_start: bool, ctx: &str) {
    let o = observe(p);
    let want = o.sfen();
    count(K::probe_render);
    count_max(K::probe_sfen_max_len, if from_start { want.len() as u64 } else { 0 });
    if from_start && want.len() >= 130 {
        count(K::probe_sfen_ge130);
    }
    if o.ply >= 10000 {
        count(K::probe_ply_ge10000);
    }
    let mut s = String::new();
    let r = p.to_sfen(&mut s);
    check!(r.is_ok() && s == want, "wrong-text", "{ctx}: to_sfen gives {s:?} ({r:?}), expected {want:?}");
    let s = p.to_sfen_owned();
    check!(s == want, "wrong-text", "{ctx}: to_sfen_owned gives {s:?}, expected {want:?}");
    if let Some(r) = rec {
        let s = r.to_sfen_owned();
        let w2 = observe_position(r).sfen();
        check!(s == w2, "wrong-text", "{ctx}: Position::to_sfen_owned gives {s:?}, expected {w2:?}");
    }
    for form in 0..2 {
        let canary = if draw(2) == 0 { 0xa5u8 } else { 0 };
        let mut buf = [canary; 64 + 1024];
        let at = 64;
        unsafe {
            match (form, rec) {
                (1, Some(r)) => r.to_sfen_c(buf.as_mut_ptr().add(at)),
                _ => p.to_sfen_c(buf.as_mut_ptr().add(at)),
            }
        }
        let name = if form == 1 { "Position::to_sfen_c" } else { "PartialPosition::to_sfen_c" };
        let text = &buf[at..at + want.len()];
        check!(text == want.as_bytes(), "wrong-c-text", "{ctx}: {name} gives {:?}, expected {want:?}", String::from_utf8_lossy(text));
        // with a zero canary a missing terminator is invisible; the other canary shows it
        check!(buf[at + want.len()] == 0, "c-not-terminated", "{ctx}: {name}: byte {} after the text is {:#x}", want.len(), buf[at + want.len()]);
        if from_start {
            check!(want.len() + 1 <= BOUND, "c-overrun", "{ctx}: {name}: text of {} bytes plus terminator exceeds the documented {BOUND}: {want}", want.len());
            for (i, &b) in buf[at + BOUND..].iter().enumerate() {
                check!(b == canary, "c-overrun", "{ctx}: {name}: wrote byte {} of a buffer of {BOUND}", BOUND + i);
            }
            check!(buf[..at].iter().all(|&b| b == canary), "c-overrun", "{ctx}: {name}: wrote before the buffer");
        }
    }
}

/// A process restarted from the text.
fn restore(text: &str) -> Option<PartialPosition> {
    let m = MPos::parse_sfen(text)?;
    if m.ply == 0 {
        return None; // the interface cannot set it
    }
    Some(build(&m, true))
}

pub fn c07() {
    let mode = draw(4);
    let from_start = mode <= 1;
    let mut p;
    if from_start {
        count(K::probe_startpos_game);
        p = PartialPosition::startpos();
    } else {
        let g = gen_pos(PosOpts { max_kings: 2, allow_ply0: false });
        count_pos(&g);
        p = build(&g, draw(2) == 1);
        crate::scen_core::aged(&mut p);
    }
    let mut rec = Position::arbitrary_position(p.clone());
    check_text(&p, Some(&rec), from_start, "start");
    // long shuffles reach large plies by moves alone
    if from_start && draw(60) == 59 {
        count(K::probe_long_history);
        let target = pick(&[997u32, 9_995, 10_000, 12_345, 65_500, 65_533]);
        let every = if draw(4) == 0 { 1 } else { 0 };
        if let Some(sh) = find_shuffle(&observe(&p)) {
            for i in 0..target {
                let m = lmove(sh[(i % 4) as usize]);
                let _ = p.make_move(m);
                if every == 1 && i < 3000 {
                    let _ = rec.make_move(m);
                }
            }
        }
        rec = Position::arbitrary_position(p.clone());
        check_text(&p, None, true, "after a long shuffle");
    }
    let maximise = mode == 1;
    let n = if maximise { 60 + draw(120) } else { steps(40, 300) };
    let crash_rate = if draw(4) == 0 { 0 } else { 1 + draw(15) };
    // durable state: last snapshot text and the moves delivered since
    let mut snap = p.to_sfen_owned();
    let mut since: Vec<MMove> = Vec::new();
    let mut net = Net::new(&observe(&p));
    // the control never restarts
    for step in 0..n {
        let o = observe(&p);
        let m = if maximise {
            // greedy: the candidate that makes the text longest
            let mut best: Option<(usize, MMove)> = None;
            for _ in 0..2 + draw(8) {
                if let Some(mut m) = gen_sensible(&o) {
                    if let MMove::Normal { from, to, .. } = m {
                        if promote_kind(kind_of(o.board[from as usize])).is_some() {
                            m = MMove::Normal { from, to, promote: true };
                        }
                    }
                    let mut x = o.clone();
                    x.apply(m);
                    let l = x.sfen().len();
                    if best.map_or(true, |b| l > b.0) {
                        best = Some((l, m));
                    }
                }
            }
            best.map_or_else(|| gen_garbage(&o), |b| b.1)
        } else {
            net.next().mv
        };
        let ok = p.make_move(lmove(m)).is_some();
        let okr = rec.make_compact_move(lcompact(m));
        if ok && okr {
            count(K::probe_accepted);
        }
        since.push(m);
        let ctx = format!("step {step} ({})", m.usi());
        trace!("{ctx} -> {ok}");
        check_text(&p, Some(&rec), from_start, &ctx);
        if draw(8) == 7 {
            // the text of a position that differs in one thing only, and then its own again
            let near = crate::scen_core::perturb(&p, &observe(&p));
            if draw(2) == 0 {
                check_text(&near, None, false, "a position that differs in one thing");
            } else {
                // the object itself changes, and changes back
                check_text(&p, None, from_start, "before");
                let was = std::mem::replace(&mut p, near);
                check_text(&p, None, false, "the object after a change in one thing");
                p = was;
                check_text(&p, None, from_start, "changed back");
            }
            check_text(&p, Some(&rec), from_start, "again");
        }
        if ok && !maximise {
            net.broadcast(&observe(&p));
        }
        if draw(6) == 0 {
            snap = p.to_sfen_owned();
            since.clear();
        }
        if chance(crash_rate, 100) {
            // crash: a second process starts from the durable snapshot and gets the moves delivered since
            fault(K::fault_crash_restart);
            if let Some(mut q) = restore(&snap) {
                fault(K::fault_snapshot_restore);
                let again = q.to_sfen_owned();
                check!(again == snap, "snapshot-unfaithful", "{ctx}: restarted from {snap:?} but shows {again:?}");
                for m in &since {
                    let _ = q.make_move(lmove(*m));
                }
                let (mut a, b) = (observe(&q), observe(&p));
                if a.last.is_none() {
                    a.last = b.last; // the last move before the snapshot is not part of it
                }
                check!(a == b, "restart-differs", "{ctx}: restarted from {snap:?} and {} moves, differs from the process that never stopped: {}", since.len(), diff(&a, &b));
                // and behaves alike afterwards
                let mut c = p.clone();
                for _ in 0..1 + draw(4) {
                    let o = observe(&c);
                    let m = if draw(3) == 2 { gen_garbage(&o) } else { gen_sensible(&o).unwrap_or_else(|| gen_garbage(&o)) };
                    let (x, y) = (c.make_move(lmove(m)), q.make_move(lmove(m)));
                    check!(x == y, "restart-differs", "{ctx}: after the restart {} gives {y:?}, without it {x:?}", m.usi());
                    let (x, y) = (c.to_sfen_owned(), q.to_sfen_owned());
                    check!(x == y, "restart-differs", "{ctx}: after the restart and {} the text is {y:?}, without it {x:?}", m.usi());
                }
                count(K::probe_continue_after_restart);
                trace!("{ctx}: crash, restart from {snap}");
            }
        }
        if !from_start && draw(10) == 9 {
            // extremes by edit
            let s = gen_sq();
            p.piece_set(lsq(s), lopt(gen_piece()));
            let (_, h) = gen_hand_obj();
            *p.hand_of_a_player_mut(lcolor(1 + draw(2) as u8)) = h;
            let _ = p.ply_set(gen_ply());
            rec = Position::arbitrary_position(p.clone());
            check_text(&p, Some(&rec), false, "after an edit");
            snap = p.to_sfen_owned();
            since.clear();
            count(K::probe_edit);
        }
        state(mix(o.hash64()));
    }
}
