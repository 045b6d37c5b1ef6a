//! Operations of the Rust interface in a form that a shared library can export.  This file is compiled twice: into the
//! shared library, where simulated threads run it pre-empted anywhere, and into the simulator, where each operation runs
//! alone on a twin object and gives the expected result.

use shogi_core::*;
use std::cmp::Ordering;
use std::fmt::Write;
use std::hash::{Hash, Hasher};

#[allow(clippy::large_enum_variant)]
pub enum Obj {
    OPos(Position),
    OPart(PartialPosition),
    OGame(Game),
    OPGame(PartialGame),
}
use Obj::*;

/// May threads share these objects?  (If a tree's types forbid it, no program runs what the simulator would run.)
struct Shareable<T>(std::marker::PhantomData<T>);
#[allow(dead_code)]
trait Otherwise {
    const YES: bool = false;
}
impl<T> Otherwise for Shareable<T> {}
impl<T: Send + Sync> Shareable<T> {
    #[allow(dead_code)]
    const YES: bool = true;
}
#[allow(dead_code)]
pub const SHAREABLE: bool = Shareable::<Position>::YES && Shareable::<PartialPosition>::YES && Shareable::<Game>::YES && Shareable::<PartialGame>::YES;

pub const CAP: usize = 6000;
/// What an operation reports.
#[repr(C)]
pub struct Out {
    pub n: usize,
    pub b: [u8; CAP],
}
impl Out {
    fn u8(&mut self, x: u8) {
        if self.n < CAP {
            self.b[self.n] = x;
        }
        self.n += 1;
    }
    fn u64(&mut self, x: u64) {
        for y in x.to_le_bytes() {
            self.u8(y);
        }
    }
    fn set(&mut self, b: Bitboard) {
        let x = b.to_u128();
        self.u64(x as u64);
        self.u64((x >> 64) as u64);
    }
    fn ord(&mut self, o: Ordering) {
        self.u8(match o {
            Ordering::Less => 1,
            Ordering::Equal => 2,
            Ordering::Greater => 3,
        });
    }
    fn mv(&mut self, m: Option<Move>) {
        match m {
            None => self.u8(0),
            Some(Move::Normal { from, to, promote }) => {
                self.u8(1 + promote as u8);
                self.u8(from.index());
                self.u8(to.index());
            }
            Some(Move::Drop { piece, to }) => {
                self.u8(3);
                self.u8(piece.as_u8());
                self.u8(to.index());
            }
        }
    }
}
impl Write for Out {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        for &c in s.as_bytes() {
            self.u8(c);
        }
        Ok(())
    }
}
struct Fnv(u64);
impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for &x in b {
            self.0 = (self.0 ^ x as u64).wrapping_mul(0x100_0000_01b3);
        }
    }
}
fn hash<T: Hash>(t: &T) -> u64 {
    let mut f = Fnv(0xcbf2_9ce4_8422_2325);
    t.hash(&mut f);
    f.0
}
fn sq(x: u64) -> Square {
    Square::from_u8(1 + (x % 81) as u8).unwrap()
}
fn kind(x: u64) -> PieceKind {
    PieceKind::all()[(x % 14) as usize]
}
fn color(x: u64) -> Color {
    Color::all()[(x % 2) as usize]
}
fn piece(x: u64) -> Piece {
    Piece::new(kind(x / 2), color(x))
}
/// from/piece, to, 0 normal / 1 promoting / 2 drop - as bytes
fn mv(x: u64) -> Move {
    let to = sq((x >> 8 & 0xff) - 1);
    let first = x & 0xff;
    match x >> 16 & 3 {
        2 => Move::Drop { piece: Piece::new(PieceKind::from_u8((first & 15) as u8).unwrap(), if first & 16 == 0 { Color::Black } else { Color::White }), to },
        p => Move::Normal { from: sq(first - 1), to, promote: p == 1 },
    }
}
fn resolution(x: u64) -> GameResolution {
    unsafe { GameResolution::from_u8_unchecked(1 + (x % 5) as u8) }
}

/// A checker that decides by a drawn number.
struct Checker(u64);
impl LegalityChecker for Checker {
    fn status(&self, p: &Position) -> PositionStatus {
        if p.moves().len() as u64 % 5 == self.0 % 7 {
            PositionStatus::Draw
        } else {
            PositionStatus::InProgress
        }
    }
    fn status_partial(&self, p: &PartialPosition) -> PositionStatus {
        if p.ply() as u64 % 5 == self.0 % 7 {
            PositionStatus::Invalid
        } else {
            PositionStatus::InProgress
        }
    }
    fn is_legal_partial(&self, p: &PartialPosition, m: Move) -> Result<(), IllegalMoveKind> {
        if self.is_legal_partial_lite(p, m) {
            Ok(())
        } else {
            Err(IllegalMoveKind::IncorrectMove)
        }
    }
    fn is_legal_partial_lite(&self, p: &PartialPosition, m: Move) -> bool {
        (m.to().index() as u64 + self.0) % 4 != 0 && p.clone().make_move(m).is_some()
    }
    fn all_legal_moves_partial(&self, p: &PartialPosition) -> Vec<Move> {
        let mut v = Vec::new();
        for from in p.player_bitboard(p.side_to_move()) {
            for to in [1, 7, 40, 77] {
                let m = Move::Normal { from, to: sq(to + self.0), promote: false };
                if self.is_legal_partial_lite(p, m) {
                    v.push(m);
                }
            }
        }
        v
    }
    fn normal_from_candidates(&self, p: &PartialPosition, _: Square) -> Bitboard {
        p.vacant_bitboard()
    }
    fn normal_to_candidates(&self, p: &PartialPosition, _: Square, piece: Piece) -> Bitboard {
        p.piece_bitboard(piece)
    }
    fn drop_candidates(&self, p: &PartialPosition, _: Piece) -> Bitboard {
        p.vacant_bitboard()
    }
}

pub fn part(o: &Obj) -> &PartialPosition {
    match o {
        OPos(p) => p.inner(),
        OPart(p) => p,
        OGame(g) => g.position().inner(),
        OPGame(g) => g.position(),
    }
}
pub fn pos(o: &Obj) -> Option<&Position> {
    match o {
        OPos(p) => Some(p),
        OGame(g) => Some(g.position()),
        _ => None,
    }
}
fn observe(p: &PartialPosition, out: &mut Out) {
    out.u8(p.side_to_move() as u8);
    out.u64(p.ply() as u64);
    for c in Color::all() {
        let h = p.hand_of_a_player(c);
        for k in Hand::all_hand_pieces() {
            out.u8(h.count(k).unwrap_or(0));
            out.u8(p.hand(Piece::new(k, c)).unwrap_or(0));
        }
        out.u8(p.king_position(c).map_or(0, |s| s.index()));
        out.set(p.player_bitboard(c));
    }
    for s in Square::all() {
        out.u8(p.piece_at(s).map_or(0, Piece::as_u8));
    }
    for k in PieceKind::all() {
        out.set(p.piece_kind_bitboard(k));
    }
    out.set(p.occupied_bitboard());
    out.set(p.vacant_bitboard());
    out.mv(p.last_move());
}

pub const BUILD: u32 = 0;
pub const DROP: u32 = 1;
pub const OBSERVE: u32 = 2;
/// Operations that modify `a`: 10..10 + WRITES
pub const WRITES: u32 = 12;
/// Operations that make an object: 30..30 + MAKES
pub const MAKES: u32 = 8;
/// Operations that only read: 50..50 + READS
pub const READS: u32 = 20;

/// `a`: the object operated on; `b`: another one, of any kind (may be null).
#[allow(deprecated)]
pub unsafe fn op(code: u32, a: *mut Obj, b: *const Obj, arg: u64, out: &mut Out) -> *mut Obj {
    out.n = 0;
    let made = |o: Obj| Box::into_raw(Box::new(o));
    let b = b.as_ref();
    match code {
        BUILD => {
            // a description of 98 bytes: side, ply, hands, board
            let d = std::slice::from_raw_parts(arg as *const u8, 98);
            let mut p = PartialPosition::empty();
            p.side_to_move_set(color(d[0] as u64));
            let _ = p.ply_set(d[1] as u16 | (d[2] as u16) << 8);
            for c in 0..2 {
                for (k, kind) in Hand::all_hand_pieces().enumerate() {
                    for _ in 0..d[3 + 7 * c + k] {
                        let h = p.hand_of_a_player_mut(color(c as u64));
                        *h = h.added(kind).unwrap();
                    }
                }
            }
            for s in Square::all() {
                let x = d[17 + s.array_index()];
                if x != 0 {
                    p.piece_set(s, Some(Piece::new(PieceKind::from_u8(x & 15).unwrap(), if x & 16 == 0 { Color::Black } else { Color::White })));
                }
            }
            return made(OPart(p));
        }
        DROP => drop(Box::from_raw(a)),
        OBSERVE => {
            let a = &*a;
            observe(part(a), out);
            if let Some(p) = pos(a) {
                observe(p.initial_position(), out);
                for &m in p.moves() {
                    out.mv(Some(m));
                }
            }
            match a {
                OGame(g) => out.u8(g.resolution().map_or(0, |x| x as u8)),
                OPGame(g) => out.u8(g.resolution().map_or(0, |x| x as u8)),
                _ => {}
            }
        }
        10..=29 => match (&mut *a, code - 10) {
            (OPos(p), 0..=2) => out.u8(p.make_move(mv(arg)).is_some() as u8),
            (OPos(p), 3) => out.u8(p.make_compact_move(mv(arg).into()) as u8),
            (OPos(p), 4) => match b {
                Some(b) => {
                    if let Some(q) = pos(b) {
                        p.clone_from(q)
                    }
                }
                None => {}
            },
            (OPos(p), 5) => {
                let m = mv(arg);
                // (a legal move the position does not accept would be a mistake of the checker's)
                match Checker(arg >> 20).make_move(p, m) {
                    Ok(()) => out.u8(1),
                    Err(e) => out.u8(10 + e as u8),
                }
            }
            (OPos(p), 6) => {
                let s = sq(arg >> 20);
                p.piece_set(s, if arg >> 40 & 1 == 0 { None } else { Some(piece(arg >> 41)) });
            }
            (OPos(p), 7) => {
                let h = p.hand_of_a_player_mut(color(arg));
                if let Some(x) = h.added(kind(arg >> 4)) {
                    *h = x;
                }
            }
            (OPos(p), _) => out.u8(p.make_move(mv(arg)).is_some() as u8),
            (OPart(p), 0..=2) => out.u8(p.make_move(mv(arg)).is_some() as u8),
            (OPart(p), 3) => out.u8(p.make_compact_move(mv(arg).into()) as u8),
            (OPart(p), 4) => {
                if let Some(b) = b {
                    p.clone_from(part(b));
                }
            }
            (OPart(p), 5 | 6) => {
                let s = sq(arg >> 20);
                p.piece_set(s, if arg >> 40 & 1 == 0 { None } else { Some(piece(arg >> 41)) });
            }
            (OPart(p), 7) => out.u8(p.ply_set(arg as u16) as u8),
            (OPart(p), 8) => p.side_to_move_set(color(arg)),
            (OPart(p), _) => {
                let h = p.hand_of_a_player_mut(color(arg));
                let r = if arg & 2 == 0 { h.added(kind(arg >> 4)) } else { h.removed(kind(arg >> 4)) };
                out.u8(r.is_some() as u8);
                if let Some(x) = r {
                    *h = x;
                }
            }
            (OGame(g), 0..=4) => g.resolve(resolution(arg)),
            (OGame(g), 5..=7) => g.unresolve(),
            (OGame(g), _) => {
                if let Some(OGame(h)) = b {
                    g.clone_from(h);
                }
            }
            (OPGame(g), 0..=4) => g.resolve(resolution(arg)),
            (OPGame(g), 5..=7) => g.unresolve(),
            (OPGame(g), _) => {
                if let Some(OPGame(h)) = b {
                    g.clone_from(h);
                }
            }
        },
        30..=49 => {
            return made(match code - 30 {
                0 => OPos(Position::startpos()),
                1 => OPart(PartialPosition::startpos()),
                2 => {
                    if arg & 1 == 0 {
                        OGame(Default::default())
                    } else {
                        OPGame(Default::default())
                    }
                }
                3 => match b {
                    Some(b) => OPos(Position::arbitrary_position(part(b).clone())),
                    None => OPos(Position::default()),
                },
                _ => match b {
                    Some(OPos(p)) => OPos(p.clone()),
                    Some(OPart(p)) => OPart(p.clone()),
                    Some(OGame(g)) => {
                        if arg & 1 == 0 {
                            OGame(g.clone())
                        } else {
                            OPos(g.position().clone())
                        }
                    }
                    Some(OPGame(g)) => {
                        if arg & 1 == 0 {
                            OPGame(g.clone())
                        } else {
                            OPart(g.position().clone())
                        }
                    }
                    None => OPart(PartialPosition::default()),
                },
            })
        }
        _ => {
            let a = &*a;
            let p = part(a);
            match code - 50 {
                0 => {
                    let s = p.to_sfen_owned();
                    let _ = out.write_str(&s);
                }
                1 => {
                    let r = p.to_sfen(out);
                    out.u8(r.is_ok() as u8);
                }
                2 | 3 => match (a, b) {
                    (OPos(x), Some(OPos(y))) => out.u8((x == y) as u8),
                    (OGame(x), Some(OGame(y))) => out.u8((x == y) as u8),
                    (OPGame(x), Some(OPGame(y))) => out.u8((x == y) as u8),
                    (_, Some(b)) => out.u8((p == part(b)) as u8),
                    _ => {}
                },
                4 | 5 => match (a, b) {
                    (OPos(x), Some(OPos(y))) => out.ord(x.cmp(y)),
                    (OGame(x), Some(OGame(y))) => out.ord(x.cmp(y)),
                    (OPGame(x), Some(OPGame(y))) => out.ord(x.cmp(y)),
                    (_, Some(b)) => out.ord(p.cmp(part(b))),
                    _ => {}
                },
                6 | 7 => {
                    out.u64(hash(p));
                    match a {
                        OPos(x) => out.u64(hash(x)),
                        OGame(x) => out.u64(hash(x)),
                        OPGame(x) => out.u64(hash(x)),
                        _ => {}
                    }
                }
                8 => {
                    if let Some(m) = p.last_move() {
                        let _ = out.write_str(&m.to_usi_owned());
                        let c: CompactMove = m.into();
                        let _ = c.to_usi(out);
                        out.u64(hash(&m));
                    }
                    out.mv(p.last_compact_move().map(|m| m.into()));
                }
                9 => {
                    let h = [p.hand_of_a_player(Color::Black), p.hand_of_a_player(Color::White)];
                    if arg & 1 == 0 {
                        let _ = out.write_str(&h.to_usi_owned());
                    } else {
                        let _ = h.to_usi(out);
                    }
                    out.u64(hash(&h[0]));
                    out.ord(h[0].cmp(&h[1]));
                }
                10 => {
                    if let Some(p) = pos(a) {
                        for &m in p.moves() {
                            out.mv(Some(m));
                        }
                        if let Some(m) = p.moves().last() {
                            let _ = m.to_usi(out);
                        }
                    }
                }
                11 => {
                    let c = Checker(arg >> 20);
                    let m = mv(arg);
                    if let Some(p) = pos(a) {
                        out.u8(c.is_legal(p, m).map_or_else(|e| e as u8, |_| 99));
                        out.u8(c.is_legal_lite(p, m) as u8);
                    } else {
                        out.u8(c.is_legal_partial(p, m).map_or_else(|e| e as u8, |_| 99));
                    }
                }
                12 => {
                    let c = Checker(arg >> 20);
                    let v = match pos(a) {
                        Some(p) => c.all_legal_moves(p),
                        None => c.all_legal_moves_partial(p),
                    };
                    for m in v {
                        out.mv(Some(m));
                    }
                }
                13 => {
                    // one value of each small type
                    let (s, q, k, c) = (sq(arg), piece(arg >> 8), kind(arg >> 16), color(arg >> 20));
                    let _ = s.to_usi(out);
                    let _ = q.to_usi(out);
                    let _ = k.to_usi(out);
                    let _ = c.to_usi(out);
                    let _ = write!(out, "{s:?}{q:?}{k:?}{c:?}");
                    let m = Move::Normal { from: s, to: sq(arg >> 24), promote: arg >> 32 & 1 == 1 };
                    let _ = m.to_usi(out);
                    let cm: CompactMove = m.into();
                    out.mv(Some(cm.into()));
                    for (f, r) in [(0, 1), (-1, 1), (3, -2), (8, 8)] {
                        out.u8(s.shift(f, r).map_or(0, |s| s.index()));
                    }
                    out.u8(s.flip().index());
                    out.u8(q.promote().map_or(0, Piece::as_u8));
                    out.u8(q.unpromote().map_or(0, Piece::as_u8));
                    out.u8(k.promote().map_or(0, |x| x as u8));
                    out.u8(s.relative_rank(c));
                }
                14 | 15 => {
                    let x = p.player_bitboard(color(arg));
                    let y = p.vacant_bitboard();
                    out.set(x | y);
                    out.set(x ^ y);
                    out.set(!x & y.flip());
                    for s in x {
                        out.u8(s.index());
                    }
                    out.u8(y.count());
                    out.set(x.swap_bytes().swap_bytes());
                    out.set(x.shift_down((arg >> 8) as u8 % 9));
                    out.set(x.shift_up((arg >> 12) as u8 % 9));
                    out.set(x.shift_left((arg >> 16) as u8 % 9));
                    out.set(x.shift_right((arg >> 20) as u8 % 9));
                    out.u64(hash(&x));
                    out.ord(Ord::cmp(&x, &y));
                }
                16 => match a {
                    OGame(g) => out.u8(g.resolution().map_or(0, |x| x as u8)),
                    OPGame(g) => out.u8(g.resolution().map_or(0, |x| x as u8)),
                    _ => out.u8(p.piece_at(sq(arg)).map_or(0, Piece::as_u8)),
                },
                17 => out.set(p.piece_bitboard(piece(arg))),
                18 => {
                    out.u8(p.king_position(color(arg)).map_or(0, |s| s.index()));
                    out.u8(p.hand(piece(arg)).map_or(255, |x| x));
                }
                _ => {
                    if let Some(p) = pos(a) {
                        let s = p.to_sfen_owned();
                        let _ = out.write_str(&s);
                        observe(p.initial_position(), out);
                    } else {
                        let _ = write!(out, "{p:?}");
                    }
                }
            }
        }
    }
    std::ptr::null_mut()
}
