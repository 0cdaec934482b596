//! The exported C functions, called by their symbols, against the Rust operations.
use crate::h_game::all_views;
use crate::model::*;
use crate::{ck, nd, reach};
use core::mem::{transmute, MaybeUninit};
use shogi_core::c_compat::*;
use shogi_core::*;

mod c {
    use super::*;
    #[allow(improper_ctypes)]
    extern "C" {
        pub fn Bitboard_empty() -> Bitboard;
        pub fn Bitboard_single(s: Square) -> Bitboard;
        pub fn Bitboard_count(a: Bitboard) -> u8;
        pub fn Bitboard_is_empty(a: Bitboard) -> bool;
        pub fn Bitboard_contains(a: Bitboard, s: Square) -> bool;
        pub fn Bitboard_flip(a: Bitboard) -> Bitboard;
        pub fn Bitboard_pop(a: &mut Bitboard) -> OptionSquare;
        pub fn Bitboard_bitand(a: Bitboard, b: Bitboard) -> Bitboard;
        pub fn Bitboard_bitand_assign(a: &mut Bitboard, b: Bitboard);
        pub fn Bitboard_bitor(a: Bitboard, b: Bitboard) -> Bitboard;
        pub fn Bitboard_bitor_assign(a: &mut Bitboard, b: Bitboard);
        pub fn Bitboard_bitxor(a: Bitboard, b: Bitboard) -> Bitboard;
        pub fn Bitboard_bitxor_assign(a: &mut Bitboard, b: Bitboard);
        pub fn Bitboard_not(a: Bitboard) -> Bitboard;
        pub fn Color_flip(c: Color) -> Color;
        pub fn GameResolution_from_u8_unchecked(v: u8) -> GameResolution;
        pub fn IllegalMoveKind_from_u8_unchecked(v: u8) -> IllegalMoveKind;
        pub fn Hand_new() -> Hand;
        pub fn Hand_add(h: &mut Hand, k: PieceKind) -> bool;
        pub fn Hand_remove(h: &mut Hand, k: PieceKind) -> bool;
        pub fn Hand_count(h: Hand, k: PieceKind) -> u8;
        pub fn Hand_is_hand_piece(k: PieceKind) -> bool;
        pub fn CompactMove_normal(f: Square, t: Square, p: bool) -> CompactMove;
        pub fn CompactMove_drop(p: Piece, t: Square) -> CompactMove;
        pub fn CompactMove_from(m: CompactMove) -> OptionSquare;
        pub fn CompactMove_to(m: CompactMove) -> Square;
        pub fn CompactMove_is_promoting(m: CompactMove) -> bool;
        pub fn CompactMove_is_drop(m: CompactMove) -> bool;
        pub fn Piece_new(k: PieceKind, c: Color) -> Piece;
        pub fn Piece_piece_kind(p: Piece) -> PieceKind;
        pub fn Piece_color(p: Piece) -> Color;
        pub fn Piece_promote(p: Piece) -> OptionPiece;
        pub fn Piece_unpromote(p: Piece) -> OptionPiece;
        pub fn PieceKind_from_u8(v: u8) -> OptionPieceKind;
        pub fn PieceKind_from_u8_unchecked(v: u8) -> PieceKind;
        pub fn PieceKind_promote(k: PieceKind) -> OptionPieceKind;
        pub fn PieceKind_unpromote(k: PieceKind) -> OptionPieceKind;
        pub fn Square_new(f: u8, r: u8) -> OptionSquare;
        pub fn Square_new_relative(f: u8, r: u8, c: Color) -> OptionSquare;
        pub fn Square_file(s: Square) -> u8;
        pub fn Square_rank(s: Square) -> u8;
        pub fn Square_index(s: Square) -> u8;
        pub fn Square_relative_file(s: Square, c: Color) -> u8;
        pub fn Square_relative_rank(s: Square, c: Color) -> u8;
        pub fn Square_flip(s: Square) -> Square;
        pub fn Square_from_u8(v: u8) -> Option<Square>;
        pub fn Square_from_u8_unchecked(v: u8) -> Square;
        pub fn Square_shift(s: Square, f: i8, r: i8) -> Option<Square>;
        pub fn PartialPosition_startpos(p: &mut MaybeUninit<PartialPosition>);
        pub fn PartialPosition_side_to_move(p: &PartialPosition) -> Color;
        pub fn PartialPosition_hand_of_a_player(p: &PartialPosition, c: Color) -> Hand;
        pub fn PartialPosition_ply(p: &PartialPosition) -> u16;
        pub fn PartialPosition_piece_at(p: &PartialPosition, s: Square) -> OptionPiece;
        pub fn PartialPosition_occupied_bitboard(p: &PartialPosition) -> Bitboard;
        pub fn PartialPosition_vacant_bitboard(p: &PartialPosition) -> Bitboard;
        pub fn PartialPosition_player_bitboard(p: &PartialPosition, c: Color) -> Bitboard;
        pub fn PartialPosition_piece_bitboard(p: &PartialPosition, x: Piece) -> Bitboard;
        pub fn PartialPosition_piece_kind_bitboard(p: &PartialPosition, k: PieceKind) -> Bitboard;
        pub fn PartialPosition_last_compact_move(p: &PartialPosition) -> OptionCompactMove;
        pub fn PartialPosition_make_compact_move(p: &mut PartialPosition, m: CompactMove) -> bool;
        pub fn PartialPosition_to_sfen_c(p: &PartialPosition, t: *mut u8);
        pub fn Position_startpos() -> *mut Position;
        pub fn Position_destruct(p: *mut Position);
        pub fn Position_inner(p: &Position) -> &PartialPosition;
        pub fn Position_initial_position(p: &Position) -> &PartialPosition;
        pub fn Position_side_to_move(p: &Position) -> Color;
        pub fn Position_hand_of_a_player(p: &Position, c: Color) -> Hand;
        pub fn Position_ply(p: &Position) -> u16;
        pub fn Position_piece_at(p: &Position, s: Square) -> OptionPiece;
        pub fn Position_occupied_bitboard(p: &Position) -> Bitboard;
        pub fn Position_vacant_bitboard(p: &Position) -> Bitboard;
        pub fn Position_player_bitboard(p: &Position, c: Color) -> Bitboard;
        pub fn Position_piece_bitboard(p: &Position, x: Piece) -> Bitboard;
        pub fn Position_last_compact_move(p: &Position) -> OptionCompactMove;
        pub fn Position_make_compact_move(p: &mut Position, m: CompactMove) -> bool;
        pub fn Position_to_sfen_c(p: &Position, t: *mut u8);
        pub fn PartialGame_position(g: &PartialGame) -> &PartialPosition;
        pub fn PartialGame_resolve(g: &mut PartialGame, r: GameResolution);
        pub fn PartialGame_unresolve(g: &mut PartialGame);
        pub fn PartialGame_resolution(g: &PartialGame) -> OptionGameResolution;
        pub fn Game_position(g: &Game) -> &Position;
        pub fn Game_resolve(g: &mut Game, r: GameResolution);
        pub fn Game_unresolve(g: &mut Game);
        pub fn Game_resolution(g: &Game) -> OptionGameResolution;
    }
}

/// Names the functions, so that they are compiled.
macro_rules! keep {
    ($($f:expr),* $(,)?) => { $(let _ = $f as usize;)* };
}
fn u<T>(x: T) -> u8 {
    assert!(core::mem::size_of::<T>() == 1);
    unsafe { core::mem::transmute_copy::<T, u8>(&x) }
}
fn uc(x: OptionCompactMove) -> u16 {
    unsafe { transmute::<OptionCompactMove, u16>(x) }
}
fn ok(k: Option<PieceKind>) -> u8 {
    match k {
        None => 0,
        Some(k) => k as u8,
    }
}

crate::harnesses! {
    [C26 quick 90] fn c26_bitboard() {
        keep!(Bitboard::Bitboard_empty, Bitboard::Bitboard_single, Bitboard::Bitboard_pop, Bitboard::Bitboard_bitand, Bitboard::Bitboard_bitand_assign,
            Bitboard::Bitboard_bitor, Bitboard::Bitboard_bitor_assign, Bitboard::Bitboard_bitxor, Bitboard::Bitboard_bitxor_assign, Bitboard::flip,
            Bitboard::count, Bitboard::is_empty, Bitboard::contains);
        #[cfg(kani)]
        keep!(shogi_core::Bitboard_not);
        let (m, s) = (any_mask(), any_sq8());
        let (x, y) = (bb(m), bb(any_mask()));
        unsafe {
            ck!(c::Bitboard_empty() == Bitboard::empty(), "Bitboard_empty");
            ck!(c::Bitboard_single(sq(s)) == Bitboard::single(sq(s)), "Bitboard_single");
            ck!(c::Bitboard_count(x) == x.count(), "Bitboard_count");
            ck!(c::Bitboard_is_empty(x) == x.is_empty(), "Bitboard_is_empty");
            ck!(c::Bitboard_contains(x, sq(s)) == x.contains(sq(s)), "Bitboard_contains");
            ck!(c::Bitboard_flip(x) == x.flip(), "Bitboard_flip");
            ck!(c::Bitboard_bitand(x, y) == (x & y), "Bitboard_bitand");
            ck!(c::Bitboard_bitor(x, y) == (x | y), "Bitboard_bitor");
            ck!(c::Bitboard_bitxor(x, y) == (x ^ y), "Bitboard_bitxor");
            ck!(c::Bitboard_not(x) == !x, "Bitboard_not");
            let (mut a, mut b, mut d) = (x, x, x);
            c::Bitboard_bitand_assign(&mut a, y);
            c::Bitboard_bitor_assign(&mut b, y);
            c::Bitboard_bitxor_assign(&mut d, y);
            ck!(a == (x & y) && b == (x | y) && d == (x ^ y), "assigning operations");
            let (mut a, mut b) = (x, x);
            let (p, q) = (c::Bitboard_pop(&mut a), b.pop());
            ck!(u(p) == un_osq(q) && a == b, "Bitboard_pop");
            reach!(u(p) == 81, "last");
            reach!(u(p) == 0, "empty");
        }
    }
    [C26 quick 20] fn c26_square() {
        keep!(Square::Square_new, Square::Square_new_relative, Square::Square_from_u8_unchecked, Square::from_u8, Square::shift, Square::file, Square::rank,
            Square::index, Square::relative_file, Square::relative_rank, Square::flip);
        let (f, r, v, co, s) = (nd::u8(), nd::u8(), nd::u8(), any_color8(), any_sq8());
        let (df, dr) = (nd::i8(), nd::i8());
        unsafe {
            ck!(u(c::Square_new(f, r)) == un_osq(Square::new(f, r)), "Square_new");
            ck!(u(c::Square_new_relative(f, r, color(co))) == un_osq(Square::new_relative(f, r, color(co))), "Square_new_relative");
            ck!(c::Square_file(sq(s)) == sq(s).file(), "Square_file");
            ck!(c::Square_rank(sq(s)) == sq(s).rank(), "Square_rank");
            ck!(c::Square_index(sq(s)) == sq(s).index(), "Square_index");
            ck!(c::Square_relative_file(sq(s), color(co)) == sq(s).relative_file(color(co)), "Square_relative_file");
            ck!(c::Square_relative_rank(sq(s), color(co)) == sq(s).relative_rank(color(co)), "Square_relative_rank");
            ck!(c::Square_flip(sq(s)) == sq(s).flip(), "Square_flip");
            if v <= 81 {
                ck!(c::Square_from_u8(v) == Square::from_u8(v), "Square_from_u8");
            }
            ck!(c::Square_from_u8_unchecked(s) == Square::from_u8_unchecked(s), "Square_from_u8_unchecked");
            ck!(c::Square_shift(sq(s), df, dr) == sq(s).shift(df, dr), "Square_shift");
        }
        reach!(s == 81 && df == -128 && v == 0, "reached");
    }
    [C26 quick 20] fn c26_piece() {
        keep!(Piece::Piece_new, Piece::Piece_promote, Piece::Piece_unpromote, Piece::piece_kind, Piece::color, PieceKind::PieceKind_from_u8,
            PieceKind::PieceKind_from_u8_unchecked, PieceKind::PieceKind_promote, PieceKind::PieceKind_unpromote, Color::flip,
            GameResolution::from_u8_unchecked, IllegalMoveKind::from_u8_unchecked);
        let (k, co, p, v, g, i) = (any_kind8(), any_color8(), any_piece8(), nd::u8(), nd::u8(), nd::u8());
        nd::assume(g >= 1 && g <= 5 && i >= 1 && i <= 7);
        unsafe {
            ck!(c::Piece_new(kind(k), color(co)) == Piece::new(kind(k), color(co)), "Piece_new");
            ck!(c::Piece_piece_kind(piece(p)) == piece(p).piece_kind(), "Piece_piece_kind");
            ck!(c::Piece_color(piece(p)) == piece(p).color(), "Piece_color");
            ck!(u(c::Piece_promote(piece(p))) == un_opiece(piece(p).promote()), "Piece_promote");
            ck!(u(c::Piece_unpromote(piece(p))) == un_opiece(piece(p).unpromote()), "Piece_unpromote");
            ck!(u(c::PieceKind_from_u8(v)) == ok(PieceKind::from_u8(v)), "PieceKind_from_u8");
            ck!(c::PieceKind_from_u8_unchecked(k) == PieceKind::from_u8_unchecked(k), "PieceKind_from_u8_unchecked");
            ck!(u(c::PieceKind_promote(kind(k))) == ok(kind(k).promote()), "PieceKind_promote");
            ck!(u(c::PieceKind_unpromote(kind(k))) == ok(kind(k).unpromote()), "PieceKind_unpromote");
            ck!(c::Color_flip(color(co)) == color(co).flip(), "Color_flip");
            ck!(c::GameResolution_from_u8_unchecked(g) as u8 == g, "GameResolution_from_u8_unchecked");
            ck!(c::IllegalMoveKind_from_u8_unchecked(i) as u8 == i, "IllegalMoveKind_from_u8_unchecked");
        }
        reach!(p == 30 && k == 14 && v == 200, "reached");
    }
    [C26 quick 20] fn c26_hand() {
        keep!(Hand::Hand_add, Hand::Hand_remove, Hand::Hand_count, Hand::Hand_is_hand_piece, Hand::new);
        let (h, k) = (hand(any_hand8()), any_kind8());
        unsafe {
            ck!(c::Hand_new() == Hand::new(), "Hand_new");
            let mut a = h;
            let r = c::Hand_add(&mut a, kind(k));
            ck!(if r { h.added(kind(k)) == Some(a) } else { h.added(kind(k)) == None && a == h }, "Hand_add");
            let mut a = h;
            let r = c::Hand_remove(&mut a, kind(k));
            ck!(if r { h.removed(kind(k)) == Some(a) } else { h.removed(kind(k)) == None && a == h }, "Hand_remove");
            ck!(c::Hand_count(h, kind(k)) == match h.count(kind(k)) { Some(n) => n, None => 0 }, "Hand_count");
            ck!(c::Hand_is_hand_piece(kind(k)) == Hand::is_hand_piece(kind(k)), "Hand_is_hand_piece");
            reach!(!r && k == 7, "nothing to remove");
            reach!(r, "removed");
        }
    }
    [C26 quick 20] fn c26_move() {
        keep!(CompactMove::CompactMove_from, CompactMove::to, CompactMove::is_promoting, CompactMove::is_drop, CompactMove::normal, CompactMove::drop);
        let m = any_mv();
        let k = cmv(m);
        unsafe {
            if m.drop {
                ck!(c::CompactMove_drop(piece(m.piece), sq(m.to)) == CompactMove::drop(piece(m.piece), sq(m.to)), "CompactMove_drop");
            } else {
                ck!(c::CompactMove_normal(sq(m.from), sq(m.to), m.promote) == CompactMove::normal(sq(m.from), sq(m.to), m.promote), "CompactMove_normal");
            }
            ck!(u(c::CompactMove_from(k)) == un_osq(k.from()), "CompactMove_from");
            ck!(c::CompactMove_to(k) == k.to(), "CompactMove_to");
            ck!(c::CompactMove_is_promoting(k) == k.is_promoting(), "CompactMove_is_promoting");
            ck!(c::CompactMove_is_drop(k) == k.is_drop(), "CompactMove_is_drop");
        }
        reach!(m.drop && m.piece == 30, "drop");
        reach!(m.promote, "promotion");
    }
    [C26 quick 90] fn c26_partial_position() {
        keep!(PartialPosition::PartialPosition_startpos, PartialPosition::PartialPosition_piece_at, PartialPosition::PartialPosition_last_compact_move,
            PartialPosition::side_to_move, PartialPosition::hand_of_a_player, PartialPosition::ply, PartialPosition::occupied_bitboard, PartialPosition::vacant_bitboard,
            PartialPosition::player_bitboard, PartialPosition::piece_bitboard, PartialPosition::piece_kind_bitboard);
        let s = any_pos(Kings::Any);
        let pr = any_probe();
        let p = build(&s);
        let (q, x, k, co) = (sq(pr.q), piece(pr.p), kind(kind_of(pr.p)), color(color_of(pr.p)));
        unsafe {
            ck!(c::PartialPosition_side_to_move(&p) == p.side_to_move(), "PartialPosition_side_to_move");
            ck!(c::PartialPosition_hand_of_a_player(&p, co) == p.hand_of_a_player(co), "PartialPosition_hand_of_a_player");
            ck!(c::PartialPosition_ply(&p) == p.ply(), "PartialPosition_ply");
            ck!(u(c::PartialPosition_piece_at(&p, q)) == un_opiece(p.piece_at(q)), "PartialPosition_piece_at");
            ck!(c::PartialPosition_occupied_bitboard(&p) == p.occupied_bitboard(), "PartialPosition_occupied_bitboard");
            ck!(c::PartialPosition_vacant_bitboard(&p) == p.vacant_bitboard(), "PartialPosition_vacant_bitboard");
            ck!(c::PartialPosition_player_bitboard(&p, co) == p.player_bitboard(co), "PartialPosition_player_bitboard");
            ck!(c::PartialPosition_piece_bitboard(&p, x) == p.piece_bitboard(x), "PartialPosition_piece_bitboard");
            ck!(c::PartialPosition_piece_kind_bitboard(&p, k) == p.piece_kind_bitboard(k), "PartialPosition_piece_kind_bitboard");
            ck!(uc(c::PartialPosition_last_compact_move(&p)) == un_ocmv(p.last_compact_move()), "PartialPosition_last_compact_move");
            let mut b = MaybeUninit::<PartialPosition>::uninit();
            c::PartialPosition_startpos(&mut b);
            ck!(all_views(&b.assume_init(), &STARTPOS, pr), "PartialPosition_startpos");
        }
        reach!(s.last != 0 && s.at(pr.q) == pr.p, "reached");
    }
    [C26 quick 90] fn c26_partial_make() {
        keep!(PartialPosition::make_compact_move);
        let s = any_pos(Kings::AtMostOne);
        let (m, pr) = (any_mv(), any_probe());
        let mut p = build(&s);
        let ok = unsafe { c::PartialPosition_make_compact_move(&mut p, cmv(m)) };
        ck!(ok == s.accepts(m), "the C function accepts a compact move exactly when the move makes sense");
        let e = if ok && s.accepts(m) { s.after(m) } else { s };
        ck!(all_views(&p, &e, pr), "the C function has exactly the effect of the move");
        reach!(ok && m.drop, "drop");
        reach!(ok && m.promote, "promotion");
        reach!(!ok, "refused");
    }
    [C26 quick 90 debug] fn c26_partial_same() {
        // the same result as the Rust operation, whatever that is
        let s = any_pos(Kings::Any);
        let m = any_mv();
        let (mut p, mut q) = (build(&s), build(&s));
        let ok = p.make_compact_move(cmv(m));
        ck!(ok == q.make_move(mv(m)).is_some(), "a compact move is accepted exactly when the move it encodes is");
        let pr = any_probe();
        ck!(p.piece_at(sq(pr.q)) == q.piece_at(sq(pr.q)) && p.hand(piece(pr.p)) == q.hand(piece(pr.p)) && p.ply() == q.ply() && p.side_to_move() == q.side_to_move()
            && p.last_compact_move() == q.last_compact_move() && p.king_position(color(color_of(pr.p))) == q.king_position(color(color_of(pr.p))), "with the same result");
        reach!(ok && m.promote, "promotion");
        reach!(!ok, "refused");
    }
    [C26 quick 90] fn c26_position() {
        keep!(Position::Position_piece_at, Position::Position_last_compact_move, Position::inner, Position::initial_position,
            Position::side_to_move, Position::hand_of_a_player, Position::ply, Position::occupied_bitboard, Position::vacant_bitboard,
            Position::player_bitboard, Position::piece_bitboard);
        // initial and current position differ in one square
        let s = any_pos(Kings::Any);
        let pr = any_probe();
        let mut p = Position::arbitrary_position(build(&s));
        let (t, x) = (any_sq8(), any_opiece8());
        p.piece_set(sq(t), opiece(x));
        let (q, y, co) = (sq(pr.q), piece(pr.p), color(color_of(pr.p)));
        unsafe {
            ck!(c::Position_inner(&p).piece_at(q) == p.inner().piece_at(q), "Position_inner");
            ck!(c::Position_initial_position(&p).piece_at(q) == p.initial_position().piece_at(q), "Position_initial_position");
            ck!(c::Position_side_to_move(&p) == p.side_to_move(), "Position_side_to_move");
            ck!(c::Position_hand_of_a_player(&p, co) == p.hand_of_a_player(co), "Position_hand_of_a_player");
            ck!(c::Position_ply(&p) == p.ply(), "Position_ply");
            ck!(u(c::Position_piece_at(&p, q)) == un_opiece(p.piece_at(q)), "Position_piece_at");
            ck!(c::Position_occupied_bitboard(&p) == p.occupied_bitboard(), "Position_occupied_bitboard");
            ck!(c::Position_vacant_bitboard(&p) == p.vacant_bitboard(), "Position_vacant_bitboard");
            ck!(c::Position_player_bitboard(&p, co) == p.player_bitboard(co), "Position_player_bitboard");
            ck!(c::Position_piece_bitboard(&p, y) == p.piece_bitboard(y), "Position_piece_bitboard");
            ck!(uc(c::Position_last_compact_move(&p)) == un_ocmv(p.last_compact_move()), "Position_last_compact_move");
        }
        reach!(pr.q == t && x != s.at(t) && x == pr.p, "reached");
    }
    [C26 quick 90] fn c26_position_make() {
        keep!(Position::make_compact_move);
        let s = any_pos(Kings::AtMostOne);
        let (m, pr) = (any_mv(), any_probe());
        let mut p = Position::arbitrary_position(build(&s));
        let ok = unsafe { c::Position_make_compact_move(&mut p, cmv(m)) };
        ck!(ok == s.accepts(m), "the C function accepts a compact move exactly when the move makes sense");
        let e = if ok && s.accepts(m) { s.after(m) } else { s };
        ck!(all_views(p.inner(), &e, pr), "the C function has exactly the effect of the move");
        ck!(p.moves().len() == ok as usize, "the C function records the move");
        if ok && p.moves().len() == 1 {
            ck!(p.moves()[0] == mv(m), "the C function records the move");
        }
        reach!(ok && m.drop, "drop");
        reach!(!ok, "refused");
    }
    [C26 quick 90] fn c26_position_heap() {
        keep!(Position::Position_startpos, Position::Position_destruct, Position::make_compact_move);
        let (m, pr) = (any_mv(), any_probe());
        unsafe {
            let p = c::Position_startpos();
            ck!(all_views((*p).inner(), &STARTPOS, pr) && all_views((*p).initial_position(), &STARTPOS, pr) && (*p).moves().is_empty(), "Position_startpos");
            let _ = c::Position_make_compact_move(&mut *p, cmv(m));
            // frees it: CBMC reports a double or invalid free
            c::Position_destruct(p);
        }
        reach!(STARTPOS.accepts(m), "reached");
    }
    [C26 quick 90 debug] fn c26_sfen() {
        keep!(PartialPosition::to_sfen_c, Position::to_sfen_c);
        let p = PartialPosition::empty();
        let (mut a, mut b) = ([1u8; 40], [2u8; 40]);
        let f = Position::arbitrary_position(p.clone());
        unsafe {
            c::PartialPosition_to_sfen_c(&p, a.as_mut_ptr());
            c::Position_to_sfen_c(&f, b.as_mut_ptr());
        }
        let i = nd::below(24) as usize;
        let e = b"9/9/9/9/9/9/9/9/9 b - 1\0";
        ck!(a[i] == e[i] && b[i] == e[i], "the C functions write the text and a NUL");
        ck!(a[24] == 1 && b[24] == 2, "and nothing else");
        reach!(i == 23, "reached");
    }
    [C26 thorough 90 debug] fn c26_sfen_side() {
        keep!(PartialPosition::to_sfen_c, Position::to_sfen_c);
        let mut p = PartialPosition::empty();
        let co = any_color8();
        p.side_to_move_set(color(co));
        let (mut a, mut b, mut e) = ([1u8; 40], [2u8; 40], [3u8; 40]);
        let f = Position::arbitrary_position(p.clone());
        unsafe {
            c::PartialPosition_to_sfen_c(&p, a.as_mut_ptr());
            c::Position_to_sfen_c(&f, b.as_mut_ptr());
            p.to_sfen_c(e.as_mut_ptr());
        }
        let i = nd::below(24) as usize;
        ck!(a[i] == e[i] && b[i] == e[i], "the C functions write the same text");
        ck!(e[23] == 0, "of 23 bytes and a NUL");
        reach!(i == 18 && e[i] == b'w', "reached");
    }
    [C26 quick 90] fn c26_games() {
        keep!(PartialGame::position, PartialGame::resolve, PartialGame::unresolve, PartialGame::PartialGame_resolution, Game::position, Game::resolve,
            Game::unresolve, Game::Game_resolution);
        let pr = any_probe();
        let v = nd::u8();
        nd::assume(v >= 1 && v <= 5);
        let r = unsafe { transmute::<u8, GameResolution>(v) };
        let (mut g, mut h) = (PartialGame::default(), Game::default());
        unsafe {
            ck!(u(c::PartialGame_resolution(&g)) == 0 && u(c::Game_resolution(&h)) == 0, "unresolved is zero");
            c::PartialGame_resolve(&mut g, r);
            c::Game_resolve(&mut h, r);
            ck!(u(c::PartialGame_resolution(&g)) == v && u(c::Game_resolution(&h)) == v && g.resolution() == Some(r) && h.resolution() == Some(r), "resolving");
            ck!(c::PartialGame_position(&g).piece_at(sq(pr.q)) == g.position().piece_at(sq(pr.q)), "PartialGame_position");
            ck!(c::Game_position(&h).piece_at(sq(pr.q)) == h.position().piece_at(sq(pr.q)), "Game_position");
            c::PartialGame_unresolve(&mut g);
            c::Game_unresolve(&mut h);
            ck!(u(c::PartialGame_resolution(&g)) == 0 && u(c::Game_resolution(&h)) == 0 && g.resolution().is_none() && h.resolution().is_none(), "unresolving");
        }
        reach!(v == 5, "reached");
    }
}
