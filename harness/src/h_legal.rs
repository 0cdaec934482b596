//! The provided methods of `LegalityChecker`, for an implementor whose answers are symbolic.
use crate::h_game::all_views;
use crate::model::*;
use crate::{ck, nd, reach};
use core::mem::transmute;
use shogi_core::*;

/// Answers one way for the current position (known by its ply) and the asked move, and another way for anything else.
struct Checker {
    ply: u16,
    mv: Move,
    status: [PositionStatus; 2],
    partial_status: PositionStatus,
    legal: [Result<(), IllegalMoveKind>; 2],
    lite: [bool; 2],
    all: [(usize, [Move; 3]); 2],
}
impl Checker {
    fn side(&self, p: &PartialPosition) -> usize {
        (p.ply() != self.ply) as usize
    }
}
impl LegalityChecker for Checker {
    fn status(&self, p: &Position) -> PositionStatus {
        self.status[self.side(p.inner())]
    }
    fn status_partial(&self, _: &PartialPosition) -> PositionStatus {
        self.partial_status
    }
    fn is_legal_partial(&self, p: &PartialPosition, m: Move) -> Result<(), IllegalMoveKind> {
        self.legal[self.side(p) | (m != self.mv) as usize]
    }
    fn is_legal_partial_lite(&self, p: &PartialPosition, m: Move) -> bool {
        self.lite[self.side(p) | (m != self.mv) as usize]
    }
    fn all_legal_moves_partial(&self, p: &PartialPosition) -> Vec<Move> {
        let (n, a) = self.all[self.side(p)];
        let mut v = Vec::with_capacity(4);
        let mut i = 0;
        while i < n {
            v.push(a[i]);
            i += 1;
        }
        v
    }
    fn normal_from_candidates(&self, _: &PartialPosition, _: Square) -> Bitboard {
        bb(0)
    }
    fn normal_to_candidates(&self, _: &PartialPosition, _: Square, _: Piece) -> Bitboard {
        bb(0)
    }
    fn drop_candidates(&self, _: &PartialPosition, _: Piece) -> Bitboard {
        bb(0)
    }
}

fn any_status() -> PositionStatus {
    let v = nd::u8();
    nd::assume(v >= 1 && v <= 5);
    match v {
        1 => PositionStatus::BlackWins,
        2 => PositionStatus::WhiteWins,
        3 => PositionStatus::Draw,
        4 => PositionStatus::InProgress,
        _ => PositionStatus::Invalid,
    }
}
fn any_legal() -> Result<(), IllegalMoveKind> {
    let v = nd::u8();
    nd::assume(v <= 7);
    if v == 0 {
        Ok(())
    } else {
        Err(unsafe { transmute::<u8, IllegalMoveKind>(v) })
    }
}
fn any_moves() -> (usize, [Move; 3]) {
    (nd::below(4) as usize, [mv(any_mv()), mv(any_mv()), mv(any_mv())])
}
fn checker(ply: u16, m: Mv) -> Checker {
    Checker {
        ply,
        mv: mv(m),
        status: [any_status(), any_status()],
        partial_status: any_status(),
        legal: [any_legal(), any_legal()],
        lite: [nd::bool(), nd::bool()],
        all: [any_moves(), any_moves()],
    }
}

/// A position one move away from its initial position, which differs from it in ply and pieces.
fn game() -> (Pos, Position) {
    let mut s = STARTPOS;
    s.ply = nd::u16();
    nd::assume(s.ply != 0);
    // something to drop
    s.hands[1][4] = nd::u8();
    let mut p = Position::arbitrary_position(build(&s));
    let m = Mv { drop: false, from: 61, to: 60, promote: false, piece: 0 };
    ck!(p.make_move(mv(m)).is_some(), "a pawn advances");
    let mut e = STARTPOS;
    e.hands[1][4] = s.hands[1][4];
    e.board[60] = 0;
    e.board[59] = 1;
    e.side = 2;
    e.ply = s.ply.wrapping_add(1);
    e.last = mv16(m);
    (e, p)
}

crate::harnesses! {
    [C25 quick 90] fn c25_is_legal() {
        let (s, p) = game();
        let m = any_mv();
        let c = checker(s.ply, m);
        let r = c.is_legal(&p, mv(m));
        if c.status[0] == PositionStatus::InProgress {
            ck!(r == c.legal[0], "a move in a position in progress is legal exactly when the partial method says so, with its reason");
        } else {
            ck!(r == Err(IllegalMoveKind::GameFinished), "no move is legal unless the position is in progress");
        }
        reach!(r.is_ok(), "legal");
        reach!(r == Err(IllegalMoveKind::TwoPawns), "illegal");
        reach!(c.status[0] == PositionStatus::Draw && c.legal[0].is_ok(), "draw");
    }
    [C25 quick 90] fn c25_is_legal_lite() {
        let (s, p) = game();
        let m = any_mv();
        let c = checker(s.ply, m);
        let r = c.is_legal_lite(&p, mv(m));
        ck!(r == (c.status[0] == PositionStatus::InProgress && c.lite[0]), "the short answer is the partial one in a position in progress, and no otherwise");
        reach!(r, "legal");
        reach!(c.status[0] == PositionStatus::Invalid && c.lite[0], "invalid");
    }
    [C25 quick 90] fn c25_all_legal_moves() {
        let (s, p) = game();
        let c = checker(s.ply, any_mv());
        let v = c.all_legal_moves(&p);
        if c.status[0] == PositionStatus::InProgress {
            let (n, a) = c.all[0];
            ck!(v.len() == n, "all legal moves are as many as the partial method lists");
            let i = nd::below(3) as usize;
            if i < n && i < v.len() {
                ck!(v[i] == a[i], "all legal moves are those the partial method lists");
            }
        } else {
            ck!(v.is_empty(), "there is no legal move unless the position is in progress");
        }
        reach!(v.len() == 3, "moves");
        reach!(c.status[0] == PositionStatus::WhiteWins && c.all[0].0 == 1, "finished");
    }
    [C25 quick 90] fn c25_make_move() {
        let (s, mut p) = game();
        let (m, pr) = (any_mv(), any_probe());
        let c = checker(s.ply, m);
        // an implementor keeps its two answers in step, and calls no move legal that a position refuses
        nd::assume(c.lite[0] == c.legal[0].is_ok());
        nd::assume(c.legal[0].is_err() || s.accepts(m));
        let r = c.make_move(&mut p, mv(m));
        let want = if c.status[0] == PositionStatus::InProgress { c.legal[0] } else { Err(IllegalMoveKind::GameFinished) };
        ck!(r == want, "making a move answers as the checker does");
        let e = if want.is_ok() { s.after(m) } else { s };
        ck!(all_views(p.inner(), &e, pr), "the move is played exactly when it is legal");
        ck!(p.moves().len() == 1 + want.is_ok() as usize, "the move is recorded exactly when it is legal");
        if want.is_ok() && p.moves().len() == 2 {
            ck!(p.moves()[1] == mv(m), "the move recorded is the one played");
        }
        reach!(r.is_ok() && m.drop, "drop");
        reach!(r.is_ok() && m.promote, "promotion");
        reach!(r == Err(IllegalMoveKind::DropStuck) && s.accepts(m), "refused by the checker");
        reach!(c.status[0] == PositionStatus::BlackWins && c.legal[0].is_ok(), "finished");
    }
}
