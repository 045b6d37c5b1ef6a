//! Boundary-biased generators.  Everything is drawn from the tape; all-zero draws give the simplest case.

use crate::model::*;
use crate::tape::*;
use shogi_core::{Hand, PartialPosition};

pub fn gen_count() -> u8 {
    match draw(8) {
        0..=2 => 0,
        3 => 1 + draw(2) as u8,
        4 => pick(&[9, 10, 11, 18]),
        5 => pick(&[99, 100, 101, 199, 200]),
        6 => pick(&[255, 254, 128, 127]),
        _ => draw(256) as u8,
    }
}
pub fn gen_ply() -> u16 {
    match draw(8) {
        0..=2 => 1 + draw(3) as u16,
        3 => pick(&[9, 10, 99, 100, 999, 1000, 9999, 10000]),
        4 => 65535 - draw(6) as u16,
        5 => pick(&[254, 255, 256, 257, 32767, 32768]),
        _ => (1 + draw(65535)) as u16,
    }
}
pub fn gen_sq() -> u8 {
    1 + draw(81) as u8
}
pub fn gen_kind() -> u8 {
    1 + draw(14) as u8
}
pub fn gen_piece() -> u8 {
    let k = gen_kind();
    piece(k, 1 + draw(2) as u8)
}

#[derive(Clone, Copy)]
pub struct PosOpts {
    pub max_kings: u8, // per side
    pub allow_ply0: bool,
}

/// Pieces of a fresh game set: 40 pieces as unpromoted kinds.
const SET: [(u8, u8); 8] = [(1, 18), (2, 4), (3, 4), (4, 4), (5, 4), (6, 2), (7, 2), (8, 2)];

pub fn gen_pos(o: PosOpts) -> MPos {
    let mut p;
    match draw(6) {
        0 => p = MPos::startpos(),
        1 => {
            // sparse
            p = MPos::empty();
            for _ in 0..draw(8) {
                p.board[gen_sq() as usize] = gen_piece();
            }
        }
        2 => {
            // dense or full
            p = MPos::empty();
            let full = chance(1, 3);
            for s in 1..=81 {
                if full || draw(4) != 0 {
                    p.board[s] = gen_piece();
                }
            }
        }
        3 => {
            // a real piece set scattered over the board and hands
            p = MPos::empty();
            let to_hand = draw(100);
            for (k, n) in SET {
                for i in 0..n {
                    let c = if k == 8 { i + 1 } else { 1 + draw(2) as u8 };
                    if k != 8 && draw(100) < to_hand {
                        p.hands[c as usize - 1][k as usize] += 1;
                        continue;
                    }
                    let mut s = gen_sq();
                    while p.board[s as usize] != 0 {
                        s = s % 81 + 1;
                    }
                    let kk = if draw(3) == 2 { promote_kind(k).unwrap_or(k) } else { k };
                    p.board[s as usize] = piece(kk, c);
                }
            }
        }
        4 => {
            // one kind everywhere for one side, the other side's pieces within reach
            p = MPos::empty();
            let (a, b) = (gen_piece(), gen_piece());
            for s in 1..=81 {
                p.board[s] = match draw(4) {
                    0 => 0,
                    1 | 2 => a,
                    _ => b,
                };
            }
        }
        _ => {
            // start position, disturbed
            p = MPos::startpos();
            for _ in 0..draw(12) {
                let s = gen_sq() as usize;
                p.board[s] = if draw(2) == 0 { 0 } else { gen_piece() };
            }
        }
    }
    // limit the number of kings
    for c in 1..=2u8 {
        let mut n = 0;
        for s in 1..=81 {
            if p.board[s] == piece(8, c) {
                n += 1;
                if n > o.max_kings {
                    p.board[s] = piece(5, c);
                }
            }
        }
    }
    if draw(2) == 1 {
        for c in 0..2 {
            for k in 1..=7 {
                p.hands[c][k] = gen_count();
            }
        }
    }
    if draw(2) == 1 {
        p.ply = gen_ply();
    }
    if draw(4) == 3 {
        p.side = 2;
    }
    p
}

/// Build the position through the public interface, optionally along a detour.
pub fn build(m: &MPos, detour: bool) -> PartialPosition {
    let mut p;
    let from_start = detour && draw(3) == 2;
    if from_start {
        p = PartialPosition::startpos();
    } else {
        p = PartialPosition::empty();
    }
    let rev = detour && draw(2) == 1;
    if detour {
        for _ in 0..draw(10) {
            let s = gen_sq();
            let q = if draw(3) == 0 { 0 } else { gen_piece() };
            p.piece_set(lsq(s), lopt(q));
        }
    }
    for i in 1..=81u8 {
        let s = if rev { 82 - i } else { i };
        let want = m.board[s as usize];
        if want != 0 || detour {
            p.piece_set(lsq(s), lopt(want));
        }
    }
    p.side_to_move_set(lcolor(m.side));
    let _ = p.ply_set(m.ply);
    for c in 1..=2u8 {
        *p.hand_of_a_player_mut(lcolor(c)) = lhand(m.hands[c as usize - 1]);
    }
    p
}

/// Some sensible move of the view, if one was found.
pub fn gen_sensible(v: &MPos) -> Option<MMove> {
    let me = v.side;
    let own: Vec<u8> = (1..=81u8).filter(|&s| v.board[s as usize] != 0 && color_of(v.board[s as usize]) == me).collect();
    let held: Vec<u8> = (1..=7u8).filter(|&k| v.hands[me as usize - 1][k as usize] > 0).collect();
    let drop = !held.is_empty() && (own.is_empty() || draw(3) == 2);
    if drop {
        let k = held[draw(held.len() as u32) as usize];
        let mut to = gen_sq();
        for _ in 0..81 {
            if v.board[to as usize] == 0 {
                return Some(MMove::Drop { piece: piece(k, me), to });
            }
            to = to % 81 + 1;
        }
        if own.is_empty() {
            return None;
        }
    }
    if own.is_empty() {
        return None;
    }
    let mut from = own[draw(own.len() as u32) as usize];
    if draw(8) == 7 {
        // prefer the king
        if let Some(&k) = own.iter().find(|&&s| kind_of(v.board[s as usize]) == 8) {
            from = k;
        }
    }
    let capture = draw(3) == 2;
    let mut to = gen_sq();
    for _ in 0..81 {
        let t = v.board[to as usize];
        if to != from && t == 0 && !capture {
            break;
        }
        if t != 0 && color_of(t) != me && kind_of(t) != 8 {
            break;
        }
        to = to % 81 + 1;
    }
    let t = v.board[to as usize];
    if t != 0 && (color_of(t) == me || kind_of(t) == 8) {
        return None;
    }
    let can = promote_kind(kind_of(v.board[from as usize])).is_some();
    let promote = can && draw(3) == 2;
    Some(MMove::Normal { from, to, promote })
}

/// A submission made of arbitrary but well-formed parts, biased towards every kind of refusal.
pub fn gen_garbage(v: &MPos) -> MMove {
    let me = v.side;
    let own: Vec<u8> = (1..=81u8).filter(|&s| v.board[s as usize] != 0 && color_of(v.board[s as usize]) == me).collect();
    let opp: Vec<u8> = (1..=81u8).filter(|&s| v.board[s as usize] != 0 && color_of(v.board[s as usize]) != me).collect();
    let any = |xs: &Vec<u8>| if xs.is_empty() { gen_sq() } else { xs[draw(xs.len() as u32) as usize] };
    match draw(12) {
        0 => {
            let s = any(&own);
            MMove::Normal { from: s, to: s, promote: draw(2) == 1 }
        }
        1 => MMove::Normal { from: any(&own), to: any(&own), promote: draw(2) == 1 },
        2 => MMove::Normal { from: any(&opp), to: gen_sq(), promote: draw(2) == 1 },
        3 => {
            // capture a king
            let k: Vec<u8> = (1..=81u8).filter(|&s| v.board[s as usize] == piece(8, 3 - me)).collect();
            MMove::Normal { from: any(&own), to: any(&k), promote: draw(3) == 2 }
        }
        4 => {
            // promote what cannot promote
            let g: Vec<u8> =
                own.iter().copied().filter(|&s| promote_kind(kind_of(v.board[s as usize])).is_none()).collect();
            MMove::Normal { from: any(&g), to: gen_sq(), promote: true }
        }
        5 => MMove::Drop { piece: piece(9 + draw(6) as u8, me), to: gen_sq() },
        6 => MMove::Drop { piece: piece(8, me), to: gen_sq() },
        7 => {
            let held: Vec<u8> = (1..=7u8).filter(|&k| v.hands[me as usize - 1][k as usize] > 0).collect();
            let k = if held.is_empty() { 1 } else { held[draw(held.len() as u32) as usize] };
            let occ = if draw(2) == 0 { any(&own) } else { any(&opp) };
            MMove::Drop { piece: piece(k, me), to: occ }
        }
        8 => {
            let lack: Vec<u8> = (1..=7u8).filter(|&k| v.hands[me as usize - 1][k as usize] == 0).collect();
            let k = if lack.is_empty() { 1 } else { lack[draw(lack.len() as u32) as usize] };
            MMove::Drop { piece: piece(k, me), to: gen_sq() }
        }
        9 => MMove::Drop { piece: piece(1 + draw(7) as u8, 3 - me), to: gen_sq() },
        10 => MMove::Drop { piece: gen_piece(), to: gen_sq() },
        _ => MMove::Normal { from: gen_sq(), to: gen_sq(), promote: draw(2) == 1 },
    }
}

pub fn gen_hand_obj() -> ([u8; 8], Hand) {
    let mut h = [0u8; 8];
    for k in 1..=7 {
        h[k] = gen_count();
    }
    (h, lhand(h))
}
pub fn gen_set() -> u128 {
    match draw(5) {
        0 => 0,
        1 => 1u128 << gen_sq(),
        2 => (draw64() as u128 | (draw64() as u128) << 64) & ALL,
        3 => ALL,
        _ => {
            // edges and the word boundary of the representation
            let mut s = 0u128;
            for _ in 0..1 + draw(6) {
                s |= 1u128 << pick(&[1u8, 9, 10, 55, 62, 63, 64, 65, 72, 73, 80, 81]);
            }
            s
        }
    }
}

pub fn count_move(before: &MPos, m: MMove) {
    count(K::probe_accepted);
    match m {
        MMove::Normal { from, to, promote } => {
            let t = before.board[to as usize];
            if t != 0 {
                count(K::probe_capture);
                let k = kind_of(t);
                if unpromote_kind(k).is_some() {
                    count(K::probe_capture_promoted);
                }
                let k = unpromote_kind(k).unwrap_or(k);
                if before.hands[before.side as usize - 1][k as usize] == 255 {
                    count(K::probe_hand_wrap);
                }
            }
            if promote {
                count(K::probe_promotion);
            }
            if kind_of(before.board[from as usize]) == 8 {
                count(K::probe_king_move);
            }
        }
        MMove::Drop { .. } => count(K::probe_drop),
    }
    if before.ply == 65535 {
        count(K::probe_ply_wrap);
    }
}
pub fn count_pos(p: &MPos) {
    if p.kings(1) > 1 || p.kings(2) > 1 {
        count(K::probe_multi_king);
    }
    if p.board[1..].iter().all(|&x| x != 0) {
        count(K::probe_full_board);
    }
    if p.hands.iter().flatten().any(|&x| x >= 100) {
        count(K::probe_hand_ge100);
    } else if p.hands.iter().flatten().any(|&x| x >= 10) {
        count(K::probe_hand_ge10);
    }
}
