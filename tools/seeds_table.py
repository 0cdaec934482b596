P, B, SQ = "shogi_core/src/position.rs", "shogi_core/src/bitboard.rs", "shogi_core/src/square.rs"
HAND, MV, CO, LEG = "shogi_core/src/hand.rs", "shogi_core/src/mv.rs", "shogi_core/src/common.rs", "shogi_core/src/legality.rs"
NS = "shogi_core_c/src/no_std.rs"
SEEDS = {}


def seed(i, property, needs, breaks, edits, demo, nostd=False):
    SEEDS[i] = dict(property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, nostd=nostd)


seed("xor-high-word", "C03", "both sets share a square on file 8 or 9, and the const form of xor", "Bitboard::xor keeps common members on files 8 and 9",
     [(B, """    /// Since: 0.1.3
    pub const fn xor(self, other: Self) -> Self {
        Self([self.0[0] ^ other.0[0], self.0[1] ^ other.0[1]])
""", """    /// Since: 0.1.3
    pub const fn xor(self, other: Self) -> Self {
        Self([self.0[0] ^ other.0[0], self.0[1] | other.0[1]])
""")],
     """
use shogi_core::*;
fn main() {
    let a = Bitboard::single(Square::SQ_9I);
    assert!(a.xor(a).is_empty());
}
""")

seed("swapped-andnot", "C06", "and-not of byte-swapped bitboards that differ in the half with files 1 to 7", "ByteSwappedBitboard::andnot negates the wrong operand in one half",
     [(B, """    #[inline(always)]
    pub const fn andnot(self, other: Self) -> Self {
        Self([!self.0[0] & other.0[0], !self.0[1] & other.0[1]])
""", """    #[inline(always)]
    pub const fn andnot(self, other: Self) -> Self {
        Self([!self.0[0] & other.0[0], self.0[1] & !other.0[1]])
""")],
     """
use shogi_core::*;
fn main() {
    let a = Bitboard::single(Square::SQ_1A) | Bitboard::single(Square::SQ_9A);
    let b = Bitboard::single(Square::SQ_1A) | Bitboard::single(Square::SQ_2A);
    assert_eq!(a.swap_bytes().andnot(b.swap_bytes()).swap_bytes(), a.andnot(b));
}
""")

seed("kind-bitboard-order", "C11", "a piece is replaced by one of the same kind (a pawn takes a pawn)", "the bitboard of the kind loses the square when old and new piece have the same kind",
     [(P, """        if let Some(piece) = old {
            let piece_kind = piece.piece_kind();
            self.piece_bb[piece_kind.array_index()] =
                single.andnot(self.piece_bb[piece_kind.array_index()]);
        }
        if let Some(piece) = piece {
            let piece_kind = piece.piece_kind();
            self.piece_bb[piece_kind.array_index()] |= single;
        }
""", """        if let Some(piece) = piece {
            let piece_kind = piece.piece_kind();
            self.piece_bb[piece_kind.array_index()] |= single;
        }
        if let Some(piece) = old {
            let piece_kind = piece.piece_kind();
            self.piece_bb[piece_kind.array_index()] =
                single.andnot(self.piece_bb[piece_kind.array_index()]);
        }
""")],
     """
use shogi_core::*;
fn main() {
    let mut p = PartialPosition::empty();
    p.piece_set(Square::SQ_5E, Some(Piece::W_P));
    p.piece_set(Square::SQ_5F, Some(Piece::B_P));
    p.make_move(Move::Normal { from: Square::SQ_5F, to: Square::SQ_5E, promote: false }).unwrap();
    assert!(p.piece_kind_bitboard(PieceKind::Pawn).contains(Square::SQ_5E));
}
""")

seed("capture-before-promote", "C14", "a rejected move that captures with a piece that cannot promote", "a capture that asks for an impossible promotion is rejected after the capture was added to the hand",
     [(P, """                let target_piece = if promote { piece.promote()? } else { piece };
""", ""), (P, """                self.piece_set(from, None);
                self.piece_set(to, Some(target_piece));""", """                let target_piece = if promote { piece.promote()? } else { piece };
                self.piece_set(from, None);
                self.piece_set(to, Some(target_piece));""")],
     """
use shogi_core::*;
fn main() {
    let mut p = PartialPosition::empty();
    p.piece_set(Square::SQ_5E, Some(Piece::W_P));
    p.piece_set(Square::SQ_5F, Some(Piece::B_G));
    let q = p.clone();
    assert!(p.make_move(Move::Normal { from: Square::SQ_5F, to: Square::SQ_5E, promote: true }).is_none());
    assert_eq!(p, q);
}
""")

seed("demote-by-mask", "C16", "capture of a promoted rook", "a captured promoted rook becomes a bishop in hand",
     [(P, """                    let unpromoted = if let Some(piece_kind) = obtaining.unpromote() {
                        piece_kind
                    } else {
                        obtaining
                    };
""", """                    // the lower three bits tell the unpromoted kind, but for the bishop
                    let unpromoted = match obtaining {
                        PieceKind::ProBishop => PieceKind::Bishop,
                        _ => PieceKind::from_u8(obtaining as u8 & 7).unwrap_or(obtaining),
                    };
""")],
     """
use shogi_core::*;
fn main() {
    let mut p = PartialPosition::empty();
    p.piece_set(Square::SQ_5E, Some(Piece::W_PR));
    p.piece_set(Square::SQ_5F, Some(Piece::B_G));
    p.make_move(Move::Normal { from: Square::SQ_5F, to: Square::SQ_5E, promote: false }).unwrap();
    assert_eq!(p.hand(Piece::B_R), Some(1));
}
""")

seed("ply-max", "C24", "a move played at ply 65535", "playing a move at the last ply overflows",
     [(P, "self.ply = self.ply.wrapping_add(1);", "self.ply += 1;")],
     """
use shogi_core::*;
fn main() {
    let mut p = PartialPosition::startpos();
    assert!(p.ply_set(65535));
    p.make_move(Move::Normal { from: Square::SQ_7G, to: Square::SQ_7F, promote: false }).unwrap();
}
""")

seed("history-initial", "C17", "a move has been played and the bitboard of a piece is asked of the full position", "a full position reports the piece bitboards of its initial position",
     [(P, "        self.inner.piece_bitboard(piece)\n", "        self.initial.piece_bitboard(piece)\n")],
     """
use shogi_core::*;
fn main() {
    let mut p = Position::startpos();
    p.make_move(Move::Normal { from: Square::SQ_7G, to: Square::SQ_7F, promote: false }).unwrap();
    assert!(p.piece_bitboard(Piece::B_P).contains(Square::SQ_7F));
}
""")

seed("rook-in-hand", "C19", "rooks and nothing else in the hands", "the hands are written as '-' when they hold rooks only",
     [(HAND, """        if self[0] == Hand::new() && self[1] == Hand::new() {
            return""", """        if (self[0].as_u64() | self[1].as_u64()) & 0xffff_ffff_ffff == 0 {
            return""")],
     """
use shogi_core::*;
fn main() {
    let h = [Hand::new().added(PieceKind::Rook).unwrap(), Hand::new()];
    assert_eq!(h.to_usi_owned(), "R");
}
""")

seed("drop-case", "C20", "a drop by White", "White's drops are written in lower case",
     [(MV, """                let piece_kind = piece.piece_kind();
                piece_kind.to_usi(sink)?;
""", """                piece.to_usi(sink)?;
""")],
     """
use shogi_core::*;
fn main() {
    assert_eq!(Move::Drop { piece: Piece::W_S, to: Square::SQ_5B }.to_usi_owned(), "S*5b");
}
""")

seed("lost-error", "C21", "a sink that refuses exactly the middle digit of a count of at least 100", "an error while writing the second of three digits is lost",
     [(CO, """    // Safety: b'0' <= value2 + b'0' <= b'9'
    unsafe { write_ascii_byte(sink, value2 + b'0') }?;
""", """    // Safety: b'0' <= value2 + b'0' <= b'9'
    let _ = unsafe { write_ascii_byte(sink, value2 + b'0') };
""")],
     """
use shogi_core::*;
struct S(usize, String);
impl core::fmt::Write for S {
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        self.0 += 1;
        if self.0 == 2 { return Err(core::fmt::Error) }
        self.1.push_str(s);
        Ok(())
    }
}
fn main() {
    let mut h = Hand::new();
    for _ in 0..123 { h = h.added(PieceKind::Pawn).unwrap() }
    let mut s = S(0, String::new());
    assert!([h, Hand::new()].to_usi(&mut s).is_err());
    assert_eq!(s.1, "1");
}
""")

seed("sfen-c-initial", "C22", "the C text of a full position after a move", "the C interface writes the initial position",
     [(P, "        self.inner.to_sfen_c(ptr)\n", "        self.initial.to_sfen_c(ptr)\n")],
     """
use shogi_core::*;
fn main() {
    let mut p = Position::startpos();
    p.make_move(Move::Normal { from: Square::SQ_7G, to: Square::SQ_7F, promote: false }).unwrap();
    let mut b = [0u8; 200];
    unsafe { p.to_sfen_c(b.as_mut_ptr()) };
    let n = b.iter().position(|&x| x == 0).unwrap();
    assert_eq!(core::str::from_utf8(&b[..n]).unwrap(), p.to_sfen_owned());
}
""")

seed("order-promotion", "C23", "two moves that differ in promotion only", "a promoting and a non-promoting move compare as equal though they are not",
     [(MV, ") => (from1, to1, promote1).cmp(&(from2, to2, promote2)),", ") => (from1, to1, promote1 && promote2).cmp(&(from2, to2, promote2 && promote1)),")],
     """
use shogi_core::*;
fn main() {
    let a = Move::Normal { from: Square::SQ_8H, to: Square::SQ_2B, promote: true };
    let b = Move::Normal { from: Square::SQ_8H, to: Square::SQ_2B, promote: false };
    assert_ne!(a.cmp(&b), core::cmp::Ordering::Equal);
}
""")

seed("legal-lite-invalid", "C25", "a checker that calls a position invalid and moves in it legal", "is_legal_lite answers that moves are legal in invalid positions",
     [(LEG, """    fn is_legal_lite(&self, position: &Position, mv: Move) -> bool {
        if self.status(position) != PositionStatus::InProgress {
            return false;
        }""", """    fn is_legal_lite(&self, position: &Position, mv: Move) -> bool {
        if matches!(
            self.status(position),
            PositionStatus::BlackWins | PositionStatus::WhiteWins | PositionStatus::Draw
        ) {
            return false;
        }""")],
     """
use shogi_core::*;
struct C;
impl LegalityChecker for C {
    fn status(&self, _: &Position) -> PositionStatus { PositionStatus::Invalid }
    fn status_partial(&self, _: &PartialPosition) -> PositionStatus { PositionStatus::InProgress }
    fn is_legal_partial(&self, _: &PartialPosition, _: Move) -> Result<(), IllegalMoveKind> { Ok(()) }
    fn is_legal_partial_lite(&self, _: &PartialPosition, _: Move) -> bool { true }
    fn all_legal_moves_partial(&self, _: &PartialPosition) -> Vec<Move> { vec![] }
    fn normal_from_candidates(&self, _: &PartialPosition, _: Square) -> Bitboard { Bitboard::empty() }
    fn normal_to_candidates(&self, _: &PartialPosition, _: Square, _: Piece) -> Bitboard { Bitboard::empty() }
    fn drop_candidates(&self, _: &PartialPosition, _: Piece) -> Bitboard { Bitboard::empty() }
}
fn main() {
    assert!(!C.is_legal_lite(&Position::startpos(), Move::Normal { from: Square::SQ_7G, to: Square::SQ_7F, promote: false }));
}
""")

seed("hand-remove-c", "C26", "the C function removes a piece that the hand does not hold", "Hand_remove reports success for a hand piece of which there is none",
     [(HAND, """        if let Some(new) = self.removed(piece_kind) {
            *self = new;
            true
        } else {
            false
        }""", """        *self = self.removed(piece_kind).unwrap_or(*self);
        Hand::is_hand_piece(piece_kind)""")],
     """
use shogi_core::*;
fn main() {
    let mut h = Hand::new();
    assert!(!h.Hand_remove(PieceKind::Gold));
}
""")

seed("memcmp-signed", "C27", "the first differing bytes lie on different sides of 128", "memcmp compares signed bytes",
     [(NS, "return value1 as i32 - value2 as i32;", "return value1 as i8 as i32 - value2 as i8 as i32;")],
     """
mod no_std;
fn main() {
    let (a, b) = ([1u8, 200], [1u8, 100]);
    assert!(unsafe { no_std::memcmp(a.as_ptr(), b.as_ptr(), 2) } > 0);
}
""", nostd=True)

seed("alloc-race", "C28", "two threads allocate at the same time, one between the other's load and store", "the allocator reads and writes its counter in two steps, so that two threads can get the same block",
     [(NS, """            if self
                .remaining
                .fetch_update(SeqCst, SeqCst, |mut remaining| {
                    if size > remaining {
                        return None;
                    }
                    remaining -= size;
                    remaining &= align_mask_to_round_down;
                    allocated = remaining;
                    Some(remaining)
                })
                .is_err()
            {
                return null_mut();
            };
""", """            let mut remaining = self.remaining.load(SeqCst);
            if size > remaining {
                return null_mut();
            }
            remaining -= size;
            remaining &= align_mask_to_round_down;
            allocated += remaining;
            self.remaining.store(remaining, SeqCst);
""")],
     """
mod no_std;
use no_std::simple_alloc::*;
use std::alloc::{GlobalAlloc, Layout};
fn main() {
    // eight threads share the arena; all blocks have to differ
    let start = std::sync::Barrier::new(8);
    let mut all: Vec<usize> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..8).map(|_| s.spawn(|| {
            start.wait();
            (0..16000).map(|_| unsafe { ALLOCATOR.alloc(Layout::from_size_align(1, 1).unwrap()) } as usize).collect::<Vec<_>>()
        })).collect();
        hs.into_iter().flat_map(|h| h.join().unwrap()).collect()
    });
    let n = all.len();
    all.sort();
    all.dedup();
    assert_eq!(all.len(), n);
}
""", nostd=True)

seed("alloc-check-first", "C28", "a request whose size fits only before rounding down, with an arena that is nearly used up", "the allocator rounds the size up instead of the offset down, so blocks are aligned only while the counter is",
     [(NS, """                    remaining -= size;
                    remaining &= align_mask_to_round_down;
""", """                    remaining -= (size + !align_mask_to_round_down & align_mask_to_round_down).min(remaining);
""")],
     """
mod no_std;
use no_std::simple_alloc::*;
use std::alloc::{GlobalAlloc, Layout};
fn main() {
    unsafe {
        ALLOCATOR.alloc(Layout::from_size_align(1, 1).unwrap());
        let p = ALLOCATOR.alloc(Layout::from_size_align(8, 8).unwrap());
        assert_eq!(p as usize % 8, 0);
    }
}
""", nostd=True)

seed("resolve-once", "C29", "a game that is already resolved is resolved again", "a second resolution is ignored",
     [(P, """    #[export_name = "PartialGame_resolve"]
    #[inline(always)]
    pub extern "C" fn resolve(&mut self, resolution: GameResolution) {
        self.resolution = Some(resolution).into();""", """    #[export_name = "PartialGame_resolve"]
    #[inline(always)]
    pub extern "C" fn resolve(&mut self, resolution: GameResolution) {
        self.resolution = self.resolution().or(Some(resolution)).into();""")],
     """
use shogi_core::*;
fn main() {
    let mut g = PartialGame::default();
    g.resolve(GameResolution::Draw);
    g.resolve(GameResolution::Aborted);
    assert_eq!(g.resolution(), Some(GameResolution::Aborted));
}
""")

seed("ply-multiple-of-256", "C31", "the ply is set to a multiple of 256", "ply_set refuses every multiple of 256",
     [(P, "        if ply == 0 {\n", "        if ply as u8 == 0 {\n")],
     """
use shogi_core::*;
fn main() {
    let mut p = PartialPosition::empty();
    assert!(p.ply_set(512));
    assert_eq!(p.ply(), 512);
}
""")

seed("startpos-kinds", "C30", "the kings of the starting position are asked for", "the starting position reports the kings of the two players exchanged",
     [(P, "king_square: [Some(Square::SQ_5I).into(), Some(Square::SQ_5A).into()],", "king_square: [Some(Square::SQ_5A).into(), Some(Square::SQ_5I).into()],")],
     """
use shogi_core::*;
fn main() {
    assert_eq!(PartialPosition::startpos().king_position(Color::White), Some(Square::SQ_5A));
}
""")
