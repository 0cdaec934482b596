//! Symbolic values of shogi_core's types, and the reference model the harnesses compare with.
//!
//! Values are made from their documented representations (the types are part of the C interface), so that
//! making them does not depend on the functions under test.  Positions use a mirror of the `repr(C)` struct
//! under Kani, and natively (when a counterexample is replayed) the public interface only.
use crate::nd;
use core::mem::transmute;
use shogi_core::*;

pub const N: usize = 81;
pub const FULL: u128 = (1 << 81) - 1;

// --- squares, pieces, moves: model values are their documented numbers ---------------------------------------

/// 1..=81
pub fn any_sq8() -> u8 {
    let v = nd::u8();
    nd::assume(v >= 1 && v <= 81);
    v
}
pub fn sq(v: u8) -> Square {
    unsafe { transmute::<u8, Square>(v) }
}
pub fn un_sq(s: Square) -> u8 {
    unsafe { transmute::<Square, u8>(s) }
}
pub fn any_sq() -> Square {
    sq(any_sq8())
}
pub fn un_osq(s: Option<Square>) -> u8 {
    match s {
        None => 0,
        Some(s) => un_sq(s),
    }
}
pub fn kind(v: u8) -> PieceKind {
    unsafe { transmute::<u8, PieceKind>(v) }
}
/// 1..=14
pub fn any_kind8() -> u8 {
    let v = nd::u8();
    nd::assume(v >= 1 && v <= 14);
    v
}
pub fn color(v: u8) -> Color {
    unsafe { transmute::<u8, Color>(v) }
}
/// 1..=2
pub fn any_color8() -> u8 {
    let v = nd::u8();
    nd::assume(v >= 1 && v <= 2);
    v
}
pub fn piece(v: u8) -> Piece {
    unsafe { transmute::<u8, Piece>(v) }
}
pub fn un_piece(p: Piece) -> u8 {
    unsafe { transmute::<Piece, u8>(p) }
}
pub fn opiece(v: u8) -> Option<Piece> {
    if v == 0 {
        None
    } else {
        Some(piece(v))
    }
}
pub fn un_opiece(p: Option<Piece>) -> u8 {
    match p {
        None => 0,
        Some(p) => un_piece(p),
    }
}
pub fn valid_piece(v: u8) -> bool {
    (v >= 1 && v <= 14) || (v >= 17 && v <= 30)
}
/// 1..=14 or 17..=30
pub fn any_piece8() -> u8 {
    let v = nd::u8();
    nd::assume(valid_piece(v));
    v
}
/// 0, 1..=14 or 17..=30
pub fn any_opiece8() -> u8 {
    let v = nd::u8();
    nd::assume(v == 0 || valid_piece(v));
    v
}
/// Kind of a piece, 1..=14
pub fn kind_of(p: u8) -> u8 {
    p & 15
}
/// Colour of a piece, 1 or 2
pub fn color_of(p: u8) -> u8 {
    if p >= 16 {
        2
    } else {
        1
    }
}
/// Promoted kind, or 0
pub fn promote_kind(k: u8) -> u8 {
    match k {
        1 => 9,
        2 => 10,
        3 => 11,
        4 => 12,
        6 => 13,
        7 => 14,
        _ => 0,
    }
}
/// Unpromoted kind, or 0 when the kind is not promoted
pub fn unpromote_kind(k: u8) -> u8 {
    match k {
        9 => 1,
        10 => 2,
        11 => 3,
        12 => 4,
        13 => 6,
        14 => 7,
        _ => 0,
    }
}
/// The kind with any promotion undone
pub fn base_kind(k: u8) -> u8 {
    let u = unpromote_kind(k);
    if u == 0 {
        k
    } else {
        u
    }
}

/// A move of the model.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Mv {
    pub drop: bool,
    pub from: u8,
    pub to: u8,
    pub promote: bool,
    pub piece: u8,
}
pub fn any_mv() -> Mv {
    let drop = nd::bool();
    let to = any_sq8();
    let x = nd::u8();
    let promote = nd::bool();
    if drop {
        nd::assume(valid_piece(x) && !promote);
        Mv { drop, from: 0, to, promote: false, piece: x }
    } else {
        nd::assume(x >= 1 && x <= 81);
        Mv { drop, from: x, to, promote, piece: 0 }
    }
}
pub fn mv(m: Mv) -> Move {
    if m.drop {
        Move::Drop { piece: piece(m.piece), to: sq(m.to) }
    } else {
        Move::Normal { from: sq(m.from), to: sq(m.to), promote: m.promote }
    }
}
/// The documented 16 bits.
pub fn mv16(m: Mv) -> u16 {
    if m.drop {
        (m.piece as u16) << 8 | 128 | m.to as u16
    } else {
        (m.promote as u16) << 15 | (m.from as u16) << 8 | m.to as u16
    }
}
pub fn cmv(m: Mv) -> CompactMove {
    unsafe { transmute::<u16, CompactMove>(mv16(m)) }
}
pub fn un_cmv(m: CompactMove) -> u16 {
    unsafe { transmute::<CompactMove, u16>(m) }
}
pub fn un_ocmv(m: Option<CompactMove>) -> u16 {
    match m {
        None => 0,
        Some(m) => un_cmv(m),
    }
}

// --- hands -----------------------------------------------------------------------------------------------------

/// Counters of the kinds 1..=7; the eighth byte is always zero.
pub fn any_hand8() -> [u8; 8] {
    let mut h = nd::bytes::<8>();
    h[7] = 0;
    h
}
pub fn hand(h: [u8; 8]) -> Hand {
    unsafe { transmute::<[u8; 8], Hand>(h) }
}

// --- bitboards: the model of a set is a mask, bit (number - 1) --------------------------------------------------

pub fn any_mask() -> u128 {
    let m = nd::u128();
    nd::assume(m <= FULL);
    m
}
pub fn has(m: u128, s: u8) -> bool {
    (m >> (s - 1)) & 1 == 1
}
pub fn single(s: u8) -> u128 {
    1 << (s - 1)
}
/// The bitboard of a mask, put together from single squares.
pub fn bb(m: u128) -> Bitboard {
    let mut b = Bitboard::empty();
    let mut i = 0;
    while i < 81u8 {
        if (m >> i) & 1 == 1 {
            b = b.or(Bitboard::single(sq(i + 1)));
        }
        i += 1;
    }
    b
}
pub fn count(m: u128) -> u8 {
    let mut n = 0;
    let mut i = 0;
    while i < 81 {
        n += ((m >> i) & 1) as u8;
        i += 1;
    }
    n
}
/// Every member moved by (df, dr); members that leave the board are dropped.
pub fn translate(m: u128, df: i32, dr: i32) -> u128 {
    let mut r = 0u128;
    let mut f = 1i32;
    while f <= 9 {
        let mut k = 1i32;
        while k <= 9 {
            let (sf, sk) = (f - df, k - dr);
            if sf >= 1 && sf <= 9 && sk >= 1 && sk <= 9 {
                let s = ((sf - 1) * 9 + sk) as u8;
                if has(m, s) {
                    r |= single(((f - 1) * 9 + k) as u8);
                }
            }
            k += 1;
        }
        f += 1;
    }
    r
}

// --- positions ---------------------------------------------------------------------------------------------------

/// The data that determine a position.
#[derive(Clone, Copy)]
pub struct Pos {
    pub side: u8,
    pub ply: u16,
    pub hands: [[u8; 8]; 2],
    pub board: [u8; 81],
    /// the 16 bits of the last move, or 0
    pub last: u16,
    /// square of the (lowest) king of each player, or 0
    pub ks: [u8; 2],
}

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Kings {
    /// at most one king of each player
    AtMostOne,
    /// any number of kings
    Any,
}

/// The mirror of the public `repr(C)` layout of `PartialPosition`.
#[repr(C)]
struct Mirror {
    side: u8,
    ply: u16,
    hands: [[u8; 8]; 2],
    board: [u8; 81],
    player_bb: [[u64; 2]; 2],
    piece_bb: [[u64; 2]; 14],
    last_move: u16,
    king_square: [u8; 2],
}

/// Any consistent position: any board with the allowed kings, any hands, side, ply and last move.
/// (A ply of zero is reached by playing a move at ply 65535, so it implies a last move.)
pub fn any_pos(kings: Kings) -> Pos {
    let board = nd::bytes::<81>();
    let ks = [nd::u8(), nd::u8()];
    nd::assume(ks[0] <= 81 && ks[1] <= 81);
    let mut i = 0;
    let mut seen = [false; 2];
    while i < 81 {
        let p = board[i];
        nd::assume(p == 0 || valid_piece(p));
        let mut c = 0;
        while c < 2 {
            let is = p == 8 + 16 * c as u8;
            let here = ks[c] == i as u8 + 1;
            match kings {
                Kings::AtMostOne => nd::assume(is == here),
                Kings::Any => {
                    // the lowest one
                    nd::assume(here == (is && !seen[c]));
                    seen[c] |= is;
                }
            }
            c += 1;
        }
        i += 1;
    }
    let hands = [any_hand8(), any_hand8()];
    let side = any_color8();
    let ply = nd::u16();
    let moved = nd::bool();
    let m = any_mv();
    // only moves that can have been played
    nd::assume(if m.drop { kind_of(m.piece) <= 7 } else { m.from != m.to });
    nd::assume(moved || ply != 0);
    Pos { side, ply, hands, board, last: if moved { mv16(m) } else { 0 }, ks }
}

/// Any board on the given ranks, with any number of kings, and a fixed pattern on the others;
/// empty hands, Black to move, ply 1, no last move.
pub fn any_board(lo: usize, hi: usize) -> Pos {
    let ks = [nd::u8(), nd::u8()];
    nd::assume(ks[0] <= 81 && ks[1] <= 81);
    let mut board = [0u8; 81];
    let mut seen = [false; 2];
    let mut file = 1;
    while file <= 9 {
        let mut rank = 1;
        while rank <= 9 {
            let i = 9 * (file - 1) + rank - 1;
            let p = if rank >= lo && rank <= hi { any_opiece8() } else { PATTERN[rank - 1][9 - file] };
            let mut c = 0;
            while c < 2 {
                // the lowest king
                let is = p == 8 + 16 * c as u8;
                nd::assume((ks[c] == i as u8 + 1) == (is && !seen[c]));
                seen[c] |= is;
                c += 1;
            }
            board[i] = p;
            rank += 1;
        }
        file += 1;
    }
    Pos { side: 1, ply: 1, hands: [[0; 8]; 2], board, last: 0, ks }
}
/// Rows (from file 9 to file 1) that begin and end with and without pieces.
/// The kings of `PATTERN`.
pub const PATTERN_KINGS: [u8; 2] = [36, 37];
pub const PATTERN: [[u8; 9]; 9] = [
    [18, 0, 0, 21, 24, 0, 30, 0, 0],
    [0, 22, 0, 0, 0, 0, 0, 23, 0],
    [0, 0, 0, 0, 0, 0, 0, 0, 0],
    [17, 17, 0, 25, 26, 27, 28, 29, 17],
    [0, 0, 0, 0, 0, 0, 0, 0, 4],
    [9, 10, 11, 12, 13, 14, 0, 0, 1],
    [0, 1, 0, 1, 0, 1, 0, 1, 0],
    [7, 0, 0, 0, 0, 0, 0, 0, 6],
    [0, 0, 2, 3, 5, 8, 0, 0, 0],
];

pub fn mirror(s: &Pos) -> PartialPosition {
    let mut player_bb = [[0u64; 2]; 2];
    let mut piece_bb = [[0u64; 2]; 14];
    let mut i = 0;
    let mut f = 0;
    while f < 9 {
        let mut r = 0;
        while r < 9 {
            let p = s.board[i];
            let (w, b) = if i < 63 { (0, i) } else { (1, i - 63) };
            player_bb[0][w] |= ((p >= 1 && p <= 14) as u64) << b;
            player_bb[1][w] |= ((p >= 17) as u64) << b;
            let mut k = 1;
            while k <= 14 {
                piece_bb[k - 1][w] |= ((p & 15 == k as u8) as u64) << b;
                k += 1;
            }
            i += 1;
            r += 1;
        }
        f += 1;
    }
    let m = Mirror { side: s.side, ply: s.ply, hands: s.hands, board: s.board, player_bb, piece_bb, last_move: s.last, king_square: s.ks };
    unsafe { transmute::<Mirror, PartialPosition>(m) }
}

#[cfg(kani)]
pub fn build(s: &Pos) -> PartialPosition {
    mirror(s)
}

/// Natively a position is built through the public interface alone, so that only what it can reach is reported.
#[cfg(not(kani))]
pub fn build(s: &Pos) -> PartialPosition {
    let mut p = PartialPosition::empty();
    if s.last != 0 {
        let (to, hi) = (sq(s.last as u8 & 127), (s.last >> 8) as u8);
        if !p.ply_set(if s.ply <= 1 { 65534u16.wrapping_add(s.ply).wrapping_add(1) } else { s.ply - 1 }) {
            panic!("ply_set refuses a ply");
        }
        let m = if s.last & 128 != 0 {
            let pc = piece(hi);
            p.side_to_move_set(pc.color());
            let h = p.hand_of_a_player(pc.color()).added(pc.piece_kind()).unwrap();
            *p.hand_of_a_player_mut(pc.color()) = h;
            Move::Drop { piece: pc, to }
        } else {
            let from = sq(hi & 127);
            p.piece_set(from, Some(Piece::B_R));
            Move::Normal { from, to, promote: hi & 128 != 0 }
        };
        p.make_move(m).unwrap();
    }
    if s.ply != 0 && p.ply() != s.ply {
        let _ = p.ply_set(s.ply);
    }
    for i in 0..81 {
        p.piece_set(sq(i as u8 + 1), opiece(s.board[i]));
    }
    for c in 0..2 {
        let mut h = Hand::new();
        for k in 1..=7 {
            for _ in 0..s.hands[c][k as usize - 1] {
                h = h.added(kind(k)).unwrap();
            }
        }
        *p.hand_of_a_player_mut(color(c as u8 + 1)) = h;
    }
    p.side_to_move_set(color(s.side));
    p
}

impl Pos {
    pub fn at(&self, s: u8) -> u8 {
        self.board[s as usize - 1]
    }
    /// Does the move make sense?
    pub fn accepts(&self, m: Mv) -> bool {
        if m.drop {
            color_of(m.piece) == self.side
                && kind_of(m.piece) <= 7
                && self.hands[self.side as usize - 1][kind_of(m.piece) as usize - 1] > 0
                && self.at(m.to) == 0
        } else {
            let p = self.at(m.from);
            let t = self.at(m.to);
            p != 0
                && color_of(p) == self.side
                && (!m.promote || promote_kind(kind_of(p)) != 0)
                && (t == 0 || (color_of(t) != self.side && kind_of(t) != 8))
        }
    }
    /// The position after an accepted move.
    pub fn after(&self, m: Mv) -> Pos {
        let mut r = *self;
        let c = self.side as usize - 1;
        if m.drop {
            r.hands[c][kind_of(m.piece) as usize - 1] -= 1;
            r.board[m.to as usize - 1] = m.piece;
            // kings are never dropped
        } else {
            let p = self.at(m.from);
            let t = self.at(m.to);
            if t != 0 {
                let k = base_kind(kind_of(t)) as usize - 1;
                r.hands[c][k] = r.hands[c][k].wrapping_add(1);
            }
            r.board[m.from as usize - 1] = 0;
            r.board[m.to as usize - 1] = if m.promote { promote_kind(kind_of(p)) + 16 * (self.side - 1) } else { p };
            if kind_of(p) == 8 {
                r.ks[c] = m.to;
            }
        }
        r.last = mv16(m);
        r.side = 3 - self.side;
        r.ply = self.ply.wrapping_add(1);
        r
    }
    /// Counter of a kind in a player's hand, as the interface reports it.
    pub fn hand_count(&self, p: u8) -> Option<u8> {
        let k = kind_of(p);
        if k <= 7 {
            Some(self.hands[color_of(p) as usize - 1][k as usize - 1])
        } else {
            None
        }
    }
}

/// An arbitrary place to look at: a square and a piece (hence a kind and a colour).
#[derive(Clone, Copy)]
pub struct Probe {
    pub q: u8,
    pub p: u8,
}
pub fn any_probe() -> Probe {
    Probe { q: any_sq8(), p: any_piece8() }
}

fn canonical(b: Bitboard) -> bool {
    b == !!b
}

/// Every view of the board agrees with `at`, the piece on the probed square.
pub fn views_agree(p: &PartialPosition, at: u8, pr: Probe) -> bool {
    let q = sq(pr.q);
    let (k, c) = (kind_of(pr.p), color_of(pr.p));
    let pb = p.piece_bitboard(piece(pr.p));
    let kb = p.piece_kind_bitboard(kind(k));
    let cb = p.player_bitboard(color(c));
    let (o, v) = (p.occupied_bitboard(), p.vacant_bitboard());
    un_opiece(p.piece_at(q)) == at
        && pb.contains(q) == (at == pr.p)
        && kb.contains(q) == (at != 0 && kind_of(at) == k)
        && cb.contains(q) == (at != 0 && color_of(at) == c)
        && o.contains(q) == (at != 0)
        && v.contains(q) == (at == 0)
        && canonical(pb)
        && canonical(kb)
        && canonical(cb)
        && canonical(o)
        && canonical(v)
}

/// The position shows, at the probe, exactly the state `s` (kings only as far as there is at most one a side).
pub fn shows(p: &PartialPosition, s: &Pos, pr: Probe) -> bool {
    un_opiece(p.piece_at(sq(pr.q))) == s.at(pr.q)
        && p.side_to_move() as u8 == s.side
        && p.ply() == s.ply
        && p.hand(piece(pr.p)) == s.hand_count(pr.p)
        && p.hand_of_a_player(color(color_of(pr.p))) == hand(s.hands[color_of(pr.p) as usize - 1])
        && un_ocmv(p.last_compact_move()) == s.last
}

const fn startpos() -> Pos {
    const BACK: [u8; 9] = [2, 3, 4, 5, 8, 5, 4, 3, 2];
    let mut board = [0u8; 81];
    let mut f = 0;
    while f < 9 {
        board[9 * f] = BACK[f] + 16;
        board[9 * f + 2] = 17;
        board[9 * f + 6] = 1;
        board[9 * f + 8] = BACK[f];
        f += 1;
    }
    // the second rank: White's bishop on 2B and rook on 8B; the eighth: Black's rook on 2H and bishop on 8H
    board[9 * 1 + 1] = 22;
    board[9 * 7 + 1] = 23;
    board[9 * 1 + 7] = 7;
    board[9 * 7 + 7] = 6;
    Pos { side: 1, ply: 1, hands: [[0; 8]; 2], board, last: 0, ks: [45, 37] }
}
/// The starting position of shogi.
pub static STARTPOS: Pos = startpos();
