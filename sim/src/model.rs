//! The executable reference model.  Shares no code with the crate under test; values cross the boundary in their
//! documented integer representation (squares 1..=81 = 9*file+rank-9, pieces 1..=14 black and 17..=30 white,
//! colours 1 and 2).

use shogi_core::{Bitboard, Color, CompactMove, Hand, Move, PartialPosition, Piece, PieceKind, Position, Square};

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum MMove {
    Normal { from: u8, to: u8, promote: bool },
    Drop { piece: u8, to: u8 },
}

impl MMove {
    pub fn compact(self) -> u16 {
        match self {
            MMove::Normal { from, to, promote } => (promote as u16) << 15 | (from as u16) << 8 | to as u16,
            MMove::Drop { piece, to } => (piece as u16) << 8 | 0x80 | to as u16,
        }
    }
    pub fn from_compact(v: u16) -> MMove {
        if v & 0x80 != 0 {
            MMove::Drop { piece: (v >> 8) as u8, to: (v & 0x7f) as u8 }
        } else {
            MMove::Normal { from: ((v >> 8) & 0x7f) as u8, to: (v & 0x7f) as u8, promote: v & 0x8000 != 0 }
        }
    }
    pub fn usi(self) -> String {
        match self {
            MMove::Normal { from, to, promote } => {
                format!("{}{}{}", sq_usi(from), sq_usi(to), if promote { "+" } else { "" })
            }
            MMove::Drop { piece, to } => format!("{}*{}", kind_usi(kind_of(piece)), sq_usi(to)),
        }
    }
}

pub fn sq_usi(s: u8) -> String {
    format!("{}{}", (s - 1) / 9 + 1, (b'a' + (s - 1) % 9) as char)
}
pub fn file_of(s: u8) -> u8 {
    (s - 1) / 9 + 1
}
pub fn rank_of(s: u8) -> u8 {
    (s - 1) % 9 + 1
}
pub fn color_of(p: u8) -> u8 {
    if p > 16 {
        2
    } else {
        1
    }
}
pub fn kind_of(p: u8) -> u8 {
    if p > 16 {
        p - 16
    } else {
        p
    }
}
pub fn piece(kind: u8, color: u8) -> u8 {
    kind + 16 * (color - 1)
}
pub fn promote_kind(k: u8) -> Option<u8> {
    match k {
        1..=4 => Some(k + 8),
        6 => Some(13),
        7 => Some(14),
        _ => None,
    }
}
pub fn unpromote_kind(k: u8) -> Option<u8> {
    match k {
        9..=12 => Some(k - 8),
        13 => Some(6),
        14 => Some(7),
        _ => None,
    }
}
pub const KINDS: &str = "PLNSGBRK";
pub fn kind_usi(k: u8) -> String {
    match unpromote_kind(k) {
        Some(u) => format!("+{}", &KINDS[u as usize - 1..u as usize]),
        None => KINDS[k as usize - 1..k as usize].to_string(),
    }
}
pub fn piece_usi(p: u8) -> String {
    let s = kind_usi(kind_of(p));
    if color_of(p) == 2 {
        s.to_lowercase()
    } else {
        s
    }
}
pub fn all_pieces() -> impl Iterator<Item = u8> {
    (1..=14).chain(17..=30)
}
pub fn hands_usi(h: &[[u8; 8]; 2]) -> String {
    let mut s = String::new();
    for c in 0..2 {
        for k in (1..=7u8).rev() {
            let n = h[c][k as usize];
            if n > 0 {
                if n > 1 {
                    s += &n.to_string();
                }
                s += &piece_usi(piece(k, c as u8 + 1));
            }
        }
    }
    if s.is_empty() {
        s.push('-');
    }
    s
}

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct MPos {
    pub side: u8,
    pub ply: u16,
    pub hands: [[u8; 8]; 2],  // by kind 1..=7
    pub board: [u8; 82],      // by square 1..=81, 0 = vacant
    pub last: Option<MMove>,
}

impl MPos {
    pub fn empty() -> MPos {
        MPos { side: 1, ply: 1, hands: [[0; 8]; 2], board: [0; 82], last: None }
    }
    pub fn startpos() -> MPos {
        let mut p = MPos::empty();
        let back = [2u8, 3, 4, 5, 8, 5, 4, 3, 2];
        for f in 1..=9u8 {
            p.board[sq_of(f, 1) as usize] = piece(back[f as usize - 1], 2);
            p.board[sq_of(f, 9) as usize] = piece(back[f as usize - 1], 1);
            p.board[sq_of(f, 3) as usize] = piece(1, 2);
            p.board[sq_of(f, 7) as usize] = piece(1, 1);
        }
        p.board[sq_of(2, 2) as usize] = piece(6, 2);
        p.board[sq_of(8, 2) as usize] = piece(7, 2);
        p.board[sq_of(8, 8) as usize] = piece(6, 1);
        p.board[sq_of(2, 8) as usize] = piece(7, 1);
        p
    }
    /// The acceptance rule of C01.
    pub fn sensible(&self, m: MMove) -> bool {
        match m {
            MMove::Normal { from, to, promote } => {
                let p = self.board[from as usize];
                if p == 0 || color_of(p) != self.side {
                    return false;
                }
                if promote && promote_kind(kind_of(p)).is_none() {
                    return false;
                }
                let t = self.board[to as usize];
                if t != 0 && (color_of(t) == self.side || kind_of(t) == 8) {
                    return false;
                }
                true
            }
            MMove::Drop { piece, to } => {
                let k = kind_of(piece);
                color_of(piece) == self.side
                    && k <= 7
                    && self.hands[self.side as usize - 1][k as usize] > 0
                    && self.board[to as usize] == 0
            }
        }
    }
    /// Apply a sensible move.
    pub fn apply(&mut self, m: MMove) {
        let me = self.side as usize - 1;
        match m {
            MMove::Normal { from, to, promote } => {
                let p = self.board[from as usize];
                let t = self.board[to as usize];
                if t != 0 {
                    let k = kind_of(t);
                    let k = unpromote_kind(k).unwrap_or(k);
                    let c = &mut self.hands[me][k as usize];
                    *c = c.wrapping_add(1);
                }
                let k = kind_of(p);
                let k = if promote { promote_kind(k).unwrap() } else { k };
                self.board[from as usize] = 0;
                self.board[to as usize] = piece(k, self.side);
            }
            MMove::Drop { piece, to } => {
                self.hands[me][kind_of(piece) as usize] -= 1;
                self.board[to as usize] = piece;
            }
        }
        self.last = Some(m);
        self.side = 3 - self.side;
        self.ply = self.ply.wrapping_add(1);
    }
    pub fn step(&mut self, m: MMove) -> bool {
        if self.sensible(m) {
            self.apply(m);
            true
        } else {
            false
        }
    }
    pub fn kings(&self, c: u8) -> usize {
        self.board.iter().filter(|&&p| p == piece(8, c)).count()
    }
    pub fn sfen(&self) -> String {
        let mut s = String::with_capacity(160);
        for r in 1..=9u8 {
            if r > 1 {
                s.push('/');
            }
            let mut vacant = 0;
            for f in (1..=9u8).rev() {
                let p = self.board[sq_of(f, r) as usize];
                if p == 0 {
                    vacant += 1;
                } else {
                    if vacant > 0 {
                        s.push((b'0' + vacant) as char);
                        vacant = 0;
                    }
                    s += &piece_usi(p);
                }
            }
            if vacant > 0 {
                s.push((b'0' + vacant) as char);
            }
        }
        s += if self.side == 1 { " b " } else { " w " };
        s += &hands_usi(&self.hands);
        s.push(' ');
        s += &self.ply.to_string();
        s
    }
    pub fn parse_sfen(t: &str) -> Option<MPos> {
        let mut p = MPos::empty();
        let mut it = t.split(' ');
        let (b, c, h, n) = (it.next()?, it.next()?, it.next()?, it.next()?);
        if it.next().is_some() {
            return None;
        }
        let mut r = 1u8;
        let mut f = 9i8;
        let mut plus = false;
        for ch in b.bytes() {
            match ch {
                b'/' => {
                    if f != 0 || plus {
                        return None;
                    }
                    r += 1;
                    f = 9;
                }
                b'1'..=b'9' => f -= (ch - b'0') as i8,
                b'+' => plus = true,
                _ => {
                    let k = KINDS.bytes().position(|x| x == ch.to_ascii_uppercase())? as u8 + 1;
                    let k = if plus { promote_kind(k)? } else { k };
                    plus = false;
                    if f < 1 || r > 9 {
                        return None;
                    }
                    p.board[sq_of(f as u8, r) as usize] = piece(k, if ch.is_ascii_uppercase() { 1 } else { 2 });
                    f -= 1;
                }
            }
            if f < 0 {
                return None;
            }
        }
        if r != 9 || f != 0 {
            return None;
        }
        p.side = match c {
            "b" => 1,
            "w" => 2,
            _ => return None,
        };
        if h != "-" {
            let mut n: u32 = 0;
            for ch in h.bytes() {
                if ch.is_ascii_digit() {
                    n = n * 10 + (ch - b'0') as u32;
                } else {
                    let k = KINDS.bytes().position(|x| x == ch.to_ascii_uppercase())? + 1;
                    let c = if ch.is_ascii_uppercase() { 0 } else { 1 };
                    if k > 7 || n > 255 {
                        return None;
                    }
                    p.hands[c][k] = n.max(1) as u8;
                    n = 0;
                }
            }
        }
        p.ply = n.parse().ok()?;
        Some(p)
    }
    pub fn hash64(&self) -> u64 {
        let mut h = 0x1234_5678u64;
        let mut add = |x: u64| h = crate::tape::mix(h ^ x);
        add(self.side as u64 | (self.ply as u64) << 8);
        for c in 0..2 {
            add(u64::from_le_bytes(self.hands[c]));
        }
        for ch in self.board.chunks(8) {
            let mut b = [0u8; 8];
            b[..ch.len()].copy_from_slice(ch);
            add(u64::from_le_bytes(b));
        }
        add(self.last.map_or(0, |m| m.compact() as u64));
        h
    }
    pub fn set_of(&self, pred: impl Fn(u8) -> bool) -> u128 {
        let mut r = 0u128;
        for s in 1..=81u8 {
            if pred(self.board[s as usize]) {
                r |= 1 << s;
            }
        }
        r
    }
}

pub fn sq_of(f: u8, r: u8) -> u8 {
    9 * f + r - 9
}

// ---- crossing the boundary -------------------------------------------------------------------------------------

pub fn lsq(s: u8) -> Square {
    debug_assert!((1..=81).contains(&s));
    unsafe { std::mem::transmute::<u8, Square>(s) }
}
pub fn msq(s: Square) -> u8 {
    unsafe { std::mem::transmute::<Square, u8>(s) }
}
pub fn lpiece(p: u8) -> Piece {
    debug_assert!(p != 0 && p <= 30);
    unsafe { std::mem::transmute::<u8, Piece>(p) }
}
pub fn mpiece(p: Piece) -> u8 {
    unsafe { std::mem::transmute::<Piece, u8>(p) }
}
pub fn lopt(p: u8) -> Option<Piece> {
    if p == 0 {
        None
    } else {
        Some(lpiece(p))
    }
}
pub fn mopt(p: Option<Piece>) -> u8 {
    p.map_or(0, mpiece)
}
pub fn lkind(k: u8) -> PieceKind {
    debug_assert!((1..=14).contains(&k));
    unsafe { std::mem::transmute::<u8, PieceKind>(k) }
}
pub fn mkind(k: PieceKind) -> u8 {
    unsafe { std::mem::transmute::<PieceKind, u8>(k) }
}
pub fn lcolor(c: u8) -> Color {
    if c == 1 {
        Color::Black
    } else {
        Color::White
    }
}
pub fn mcolor(c: Color) -> u8 {
    unsafe { std::mem::transmute::<Color, u8>(c) }
}
pub fn lmove(m: MMove) -> Move {
    match m {
        MMove::Normal { from, to, promote } => Move::Normal { from: lsq(from), to: lsq(to), promote },
        MMove::Drop { piece, to } => Move::Drop { piece: lpiece(piece), to: lsq(to) },
    }
}
pub fn mmove(m: Move) -> MMove {
    match m {
        Move::Normal { from, to, promote } => MMove::Normal { from: msq(from), to: msq(to), promote },
        Move::Drop { piece, to } => MMove::Drop { piece: mpiece(piece), to: msq(to) },
    }
}
pub fn lcompact(m: MMove) -> CompactMove {
    match m {
        MMove::Normal { from, to, promote } => CompactMove::normal(lsq(from), lsq(to), promote),
        MMove::Drop { piece, to } => CompactMove::drop(lpiece(piece), lsq(to)),
    }
}
pub fn mcompact(m: CompactMove) -> MMove {
    mmove(<Move as From<CompactMove>>::from(m))
}
/// A bitboard as a set of squares, through membership queries (its words are not a stable interface).  A count that
/// does not match the members is kept as a high marker bit, so that a stray bit cannot go unnoticed.
fn copt(c: shogi_core::c_compat::OptionCompactMove) -> Option<MMove> {
    <Option<CompactMove>>::from(c).map(mcompact)
}
pub fn mset(b: Bitboard) -> u128 {
    let mut r = 0u128;
    for s in 1..=81u8 {
        if b.contains(lsq(s)) {
            r |= 1 << s;
        }
    }
    if b.count() as u32 != r.count_ones() {
        r |= 1 << 127;
    }
    if b.is_empty() != (r == 0) {
        r |= 1 << 126;
    }
    r
}
pub fn lset(s: u128) -> Bitboard {
    let mut b = Bitboard::empty();
    for q in 1..=81u8 {
        if s >> q & 1 != 0 {
            b |= Bitboard::single(lsq(q));
        }
    }
    b
}
pub const ALL: u128 = ((1u128 << 81) - 1) << 1;
pub fn mhand(h: Hand) -> [u8; 8] {
    let mut r = [0; 8];
    for k in 1..=7u8 {
        r[k as usize] = h.count(lkind(k)).unwrap_or(0xee);
    }
    r
}
pub fn lhand(h: [u8; 8]) -> Hand {
    let mut r = Hand::new();
    for k in 1..=7u8 {
        for _ in 0..h[k as usize] {
            r = r.added(lkind(k)).expect("hand piece");
        }
    }
    r
}

/// Core observation: what square-by-square and counter queries show.
pub fn observe(p: &PartialPosition) -> MPos {
    let mut m = MPos::empty();
    m.side = mcolor(p.side_to_move());
    m.ply = p.ply();
    for c in 1..=2u8 {
        m.hands[c as usize - 1] = mhand(p.hand_of_a_player(lcolor(c)));
    }
    for s in 1..=81u8 {
        m.board[s as usize] = mopt(p.piece_at(lsq(s)));
    }
    m.last = p.last_move().map(mmove);
    m
}
/// The same through the delegating queries of `Position`.
pub fn observe_position(p: &Position) -> MPos {
    let mut m = MPos::empty();
    m.side = mcolor(p.side_to_move());
    m.ply = p.ply();
    for c in 1..=2u8 {
        m.hands[c as usize - 1] = mhand(p.hand_of_a_player(lcolor(c)));
    }
    for s in 1..=81u8 {
        m.board[s as usize] = mopt(p.piece_at(lsq(s)));
    }
    m.last = p.last_move().map(mmove);
    m
}

/// Everything a `PartialPosition` answers.
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Views {
    pub core: MPos,
    pub last_compact: Option<MMove>,
    pub last_c: Option<MMove>,
    pub piece_at_c: [u8; 82],
    pub occupied: u128,
    pub vacant: u128,
    pub player: [u128; 2],
    pub by_piece: [u128; 31],
    pub by_kind: [u128; 15], // not available on Position
    pub king: [u8; 2],       // not available on Position
    pub hand: [u16; 31],     // hand(piece), 0xffff = None
    pub hash: Vec<u8>,
    pub sfen: String,
}

pub fn views(p: &PartialPosition) -> Views {
    let mut v = Views {
        core: observe(p),
        last_compact: p.last_compact_move().map(mcompact),
        last_c: copt(p.PartialPosition_last_compact_move()),
        piece_at_c: [0; 82],
        occupied: mset(p.occupied_bitboard()),
        vacant: mset(p.vacant_bitboard()),
        player: [mset(p.player_bitboard(Color::Black)), mset(p.player_bitboard(Color::White))],
        by_piece: [0; 31],
        by_kind: [0; 15],
        king: [0; 2],
        hand: [0; 31],
        hash: hash_bytes(p),
        sfen: String::new(),
    };
    for s in 1..=81u8 {
        v.piece_at_c[s as usize] = mopt(p.PartialPosition_piece_at(lsq(s)).into());
    }
    for q in all_pieces() {
        v.by_piece[q as usize] = mset(p.piece_bitboard(lpiece(q)));
        v.hand[q as usize] = p.hand(lpiece(q)).map_or(0xffff, |x| x as u16);
    }
    for k in 1..=14u8 {
        v.by_kind[k as usize] = mset(p.piece_kind_bitboard(lkind(k)));
    }
    for c in 1..=2u8 {
        v.king[c as usize - 1] = p.king_position(lcolor(c)).map_or(0, msq);
    }
    let _ = p.to_sfen(&mut v.sfen);
    v
}
pub fn views_position(p: &Position) -> Views {
    let mut v = Views {
        core: observe_position(p),
        last_compact: p.last_compact_move().map(mcompact),
        last_c: copt(p.Position_last_compact_move()),
        piece_at_c: [0; 82],
        occupied: mset(p.occupied_bitboard()),
        vacant: mset(p.vacant_bitboard()),
        player: [mset(p.player_bitboard(Color::Black)), mset(p.player_bitboard(Color::White))],
        by_piece: [0; 31],
        by_kind: [0; 15],
        king: [0; 2],
        hand: [0; 31],
        hash: Vec::new(),
        sfen: p.to_sfen_owned(),
    };
    for s in 1..=81u8 {
        v.piece_at_c[s as usize] = mopt(p.Position_piece_at(lsq(s)).into());
    }
    for q in all_pieces() {
        v.by_piece[q as usize] = mset(p.piece_bitboard(lpiece(q)));
        v.hand[q as usize] = p.hand(lpiece(q)).map_or(0xffff, |x| x as u16);
    }
    v
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct FullPosition {
    pub inner: Views,
    pub deleg: Views,
    pub initial: Views,
    pub moves: Vec<MMove>,
    pub hash: Vec<u8>,
}
pub fn full(p: &Position) -> FullPosition {
    FullPosition {
        inner: views(p.inner()),
        deleg: views_position(p),
        initial: views(p.initial_position()),
        moves: p.moves().iter().map(|&m| mmove(m)).collect(),
        hash: hash_bytes(p),
    }
}

/// Byte stream fed to a hasher.
pub struct RecHasher(pub Vec<u8>);
impl std::hash::Hasher for RecHasher {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b);
    }
}
pub fn hash_bytes<T: std::hash::Hash>(t: &T) -> Vec<u8> {
    let mut h = RecHasher(Vec::with_capacity(256));
    t.hash(&mut h);
    h.0
}

/// First difference of two observations, for messages.
pub fn diff(a: &MPos, b: &MPos) -> String {
    let mut s = String::new();
    let mut add = |x: String| {
        if s.len() < 600 {
            s += &x;
            s += "; ";
        }
    };
    if a.side != b.side {
        add(format!("side {} vs {}", a.side, b.side));
    }
    if a.ply != b.ply {
        add(format!("ply {} vs {}", a.ply, b.ply));
    }
    for c in 0..2 {
        for k in 1..=7 {
            if a.hands[c][k] != b.hands[c][k] {
                add(format!("hand[{c}] kind {k}: {} vs {}", a.hands[c][k], b.hands[c][k]));
            }
        }
    }
    for q in 1..=81u8 {
        let (x, y) = (a.board[q as usize], b.board[q as usize]);
        if x != y {
            add(format!("square {} ({}): piece {} vs {}", q, sq_usi(q), x, y));
        }
    }
    if a.last != b.last {
        add(format!("last move {:?} vs {:?}", a.last, b.last));
    }
    s
}
pub fn diff_views(a: &Views, b: &Views) -> String {
    let mut s = diff(&a.core, &b.core);
    let mut add = |x: String| {
        if s.len() < 900 {
            s += &x;
            s += "; ";
        }
    };
    if a.last_compact != b.last_compact || a.last_c != b.last_c {
        add("last_compact_move differs".to_string());
    }
    if a.piece_at_c != b.piece_at_c {
        add("C piece_at differs".into());
    }
    if a.occupied != b.occupied {
        add(format!("occupied {:#x} vs {:#x}", a.occupied, b.occupied));
    }
    if a.vacant != b.vacant {
        add(format!("vacant {:#x} vs {:#x}", a.vacant, b.vacant));
    }
    if a.player != b.player {
        add(format!("player {:#x?} vs {:#x?}", a.player, b.player));
    }
    for q in 0..31 {
        if a.by_piece[q] != b.by_piece[q] {
            add(format!("piece_bitboard({q}) {:#x} vs {:#x}", a.by_piece[q], b.by_piece[q]));
        }
        if a.hand[q] != b.hand[q] {
            add(format!("hand({q}) {} vs {}", a.hand[q], b.hand[q]));
        }
    }
    for k in 0..15 {
        if a.by_kind[k] != b.by_kind[k] {
            add(format!("piece_kind_bitboard({k}) {:#x} vs {:#x}", a.by_kind[k], b.by_kind[k]));
        }
    }
    if a.king != b.king {
        add(format!("king squares {:?} vs {:?}", a.king, b.king));
    }
    if a.hash != b.hash {
        add("hash differs".into());
    }
    if a.sfen != b.sfen {
        add(format!("text {:?} vs {:?}", a.sfen, b.sfen));
    }
    s
}
