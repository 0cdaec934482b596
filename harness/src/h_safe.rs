//! Calls of everything with arbitrary arguments: what is decided are the checks that Kani adds to the code itself
//! (panics, overflow, bounds, pointers, invalid values); the assertions look for values outside their types.
use crate::model::*;
use crate::sfen::*;
use crate::{ck, nd, reach};
use core::cmp::Ordering;
use core::mem::transmute;
use shogi_core::c_compat::*;
use shogi_core::*;

fn v_sq(s: Square) -> bool {
    let v = un_sq(s);
    v >= 1 && v <= 81
}
fn v_osq(s: Option<Square>) -> bool {
    un_osq(s) <= 81
}
fn v_bb(b: Bitboard) -> bool {
    b == !!b
}
fn v_piece(p: Piece) -> bool {
    valid_piece(un_piece(p))
}
fn v_opiece(p: Option<Piece>) -> bool {
    let v = un_opiece(p);
    v == 0 || valid_piece(v)
}
fn v_kind(k: PieceKind) -> bool {
    let v = unsafe { transmute::<PieceKind, u8>(k) };
    v >= 1 && v <= 14
}
fn v_okind(k: Option<PieceKind>) -> bool {
    match k {
        None => true,
        Some(k) => v_kind(k),
    }
}
fn v_color(c: Color) -> bool {
    let v = unsafe { transmute::<Color, u8>(c) };
    v == 1 || v == 2
}
fn v_hand(h: Hand) -> bool {
    unsafe { transmute::<Hand, [u8; 8]>(h)[7] == 0 }
}
fn v_mv(m: Move) -> bool {
    match m {
        Move::Normal { from, to, promote } => v_sq(from) && v_sq(to) && unsafe { transmute::<bool, u8>(promote) } <= 1,
        Move::Drop { piece, to } => v_piece(piece) && v_sq(to),
    }
}
fn v_ocmv(m: Option<CompactMove>) -> bool {
    let v = un_ocmv(m);
    let (hi, lo) = ((v >> 8) as u8, v as u8);
    v == 0 || if lo & 128 != 0 { valid_piece(hi) && lo & 127 >= 1 && lo & 127 <= 81 } else { hi & 127 >= 1 && hi & 127 <= 81 && lo >= 1 && lo <= 81 }
}

/// Every view of a position.
fn views(p: &PartialPosition, pr: Probe) -> bool {
    let (q, x, k, c) = (sq(pr.q), piece(pr.p), kind(kind_of(pr.p)), color(color_of(pr.p)));
    v_color(p.side_to_move())
        && v_hand(p.hand_of_a_player(c))
        && p.hand(x).is_some() == (kind_of(pr.p) <= 7)
        && v_opiece(p.piece_at(q))
        && v_bb(p.occupied_bitboard())
        && v_bb(p.vacant_bitboard())
        && v_bb(p.player_bitboard(c))
        && v_bb(p.piece_bitboard(x))
        && v_bb(p.piece_kind_bitboard(k))
        && v_osq(p.king_position(c))
        && v_ocmv(p.last_compact_move())
        && match p.last_move() {
            None => true,
            Some(m) => v_mv(m),
        }
        && un_opiece(<Option<Piece>>::from(p.PartialPosition_piece_at(q))) == un_opiece(p.piece_at(q))
        && p.PartialPosition_last_compact_move() == OptionCompactMove::from(p.last_compact_move())
}

/// Any one operation on a position.
fn operate(p: &mut PartialPosition) -> u8 {
    let w = nd::below(7);
    let m = any_mv();
    let (t, x, c, h, n) = (any_sq8(), any_opiece8(), any_color8(), any_hand8(), nd::u16());
    match w {
        0 => {
            let _ = p.make_move(mv(m));
        }
        1 => {
            let _ = p.make_compact_move(cmv(m));
        }
        2 => p.piece_set(sq(t), opiece(x)),
        3 => p.side_to_move_set(color(c)),
        4 => *p.hand_of_a_player_mut(color(c)) = hand(h),
        5 => {
            let _ = p.ply_set(n);
        }
        _ => {
            let q = p.clone();
            *p = q;
        }
    }
    w
}

crate::harnesses! {
    [C24 quick 90] fn c24_square() {
        let (f, r, c, s, v) = (nd::u8(), nd::u8(), color(any_color8()), any_sq(), nd::u8());
        ck!(v_osq(Square::new(f, r)) && v_osq(Square::new_relative(f, r, c)) && v_osq(Square::from_u8(v)), "values stay within their types");
        ck!(v_osq(<Option<Square>>::from(Square::Square_new(f, r))) && v_osq(<Option<Square>>::from(Square::Square_new_relative(f, r, c))), "values stay within their types");
        ck!(v_osq(s.shift(nd::i8(), nd::i8())), "values stay within their types");
        ck!(v_sq(s.flip()), "values stay within their types");
        ck!(s.file() <= 9 && s.rank() <= 9 && s.index() <= 81 && s.array_index() < 81 && s.relative_file(c) <= 9 && s.relative_rank(c) <= 9, "values stay within their types");
        if v >= 1 && v <= 81 {
            ck!(v_sq(unsafe { Square::from_u8_unchecked(v) }) && v_sq(unsafe { Square::Square_from_u8_unchecked(v) }), "values stay within their types");
        }
        let n = nd::below(90) as usize;
        ck!(v_osq(Square::all().nth(n)), "values stay within their types");
        reach!(v == 255 && n == 80, "reached");
    }
    [C24 quick 90] fn c24_bitboard() {
        let (a, b, s) = (bb(any_mask()), bb(any_mask()), any_sq());
        ck!(v_bb(a | b) && v_bb(a & b) && v_bb(a ^ b) && v_bb(!a) && v_bb(a.andnot(b)) && v_bb(a.flip()) && v_bb(Bitboard::single(s)) && v_bb(Bitboard::empty()), "values stay within their types");
        let (mut x, mut y, mut z) = (a, a, a);
        x |= s;
        y &= s;
        z ^= s;
        ck!(v_bb(x) && v_bb(y) && v_bb(z), "values stay within their types");
        let n = a.count();
        ck!(n <= 81, "values stay within their types");
        let _ = (a.contains(s), a.is_empty());
        let mut x = a;
        ck!(v_osq(x.pop()) && v_bb(x) && v_osq(x.next()) && v_osq(<Option<Square>>::from(x.Bitboard_pop())) && v_bb(x), "values stay within their types");
        ck!(Ord::cmp(&a, &b) == Ord::cmp(&b, &a).reverse(), "values stay within their types");
        let c = a.swap_bytes();
        ck!(v_bb(c.swap_bytes()) && v_bb(c.or(b.swap_bytes()).swap_bytes()) && v_bb(c.and(b.swap_bytes()).swap_bytes()) && v_bb(c.xor(b.swap_bytes()).swap_bytes())
            && v_bb(c.andnot(b.swap_bytes()).swap_bytes()), "values stay within their types");
        reach!(a.count() == 81, "reached");
    }
    [C24 quick 90] fn c24_bitboard_unsafe() {
        let (a, m) = (bb(any_mask()), any_mask());
        let (d, f, pat) = (nd::u8(), nd::u8(), nd::u16());
        nd::assume(d <= 9 && f >= 1 && f <= 9 && pat < 512);
        unsafe {
            ck!(v_bb(a.shift_up(d)) && v_bb(a.shift_down(d)) && v_bb(a.shift_left(d)) && v_bb(a.shift_right(d)), "values stay within their types");
            ck!(v_bb(Bitboard::from_u128_unchecked(a.to_u128())) && v_bb(Bitboard::from_file_unchecked(f, pat)) && a.get_file_unchecked(f) < 512, "values stay within their types");
            let c = a.swap_bytes();
            ck!(v_bb(ByteSwappedBitboard::from_u128_unchecked(c.to_u128()).swap_bytes()), "values stay within their types");
        }
        reach!(d == 9, "reached");
    }
    [C24 quick 90] fn c24_piece() {
        let (k, c, p, v) = (kind(any_kind8()), color(any_color8()), piece(any_piece8()), nd::u8());
        ck!(v_piece(Piece::new(k, c)) && v_piece(Piece::Piece_new(k, c)) && v_kind(p.piece_kind()) && v_color(p.color()), "values stay within their types");
        let (a, b) = p.to_parts();
        ck!(v_kind(a) && v_color(b) && v_opiece(p.promote()) && v_opiece(p.unpromote()) && v_opiece(p.Piece_promote().into()) && v_opiece(p.Piece_unpromote().into()), "values stay within their types");
        ck!(v_okind(k.promote()) && v_okind(k.unpromote()) && v_okind(k.PieceKind_promote().into()) && v_okind(k.PieceKind_unpromote().into())
            && v_okind(PieceKind::from_u8(v)) && v_okind(PieceKind::PieceKind_from_u8(v).into()), "values stay within their types");
        ck!(k.array_index() < 14 && p.array_index() < 31 && c.array_index() < 2 && PieceKind::option_array_index(Some(k)) < 15 && p.as_u8() < 31 && v_color(c.flip()), "values stay within their types");
        let n = nd::below(28) as usize;
        ck!(v_piece(Piece::all()[n]) && v_kind(PieceKind::all()[n % 14]) && v_color(Color::all()[n % 2]), "values stay within their types");
        if v >= 1 && v <= 14 {
            ck!(v_kind(unsafe { PieceKind::from_u8_unchecked(v) }) && v_kind(unsafe { PieceKind::PieceKind_from_u8_unchecked(v) }), "values stay within their types");
        }
        if v >= 1 && v <= 5 {
            let _ = unsafe { GameResolution::from_u8_unchecked(v) } as u8;
        }
        if v >= 1 && v <= 7 {
            let _ = unsafe { IllegalMoveKind::from_u8_unchecked(v) } as u8;
        }
        let _ = IllegalMoveKind::from_u8(v);
        reach!(n == 27 && v == 255, "reached");
    }
    [C24 quick 90] fn c24_hand() {
        let (h, k) = (hand(any_hand8()), kind(any_kind8()));
        ck!(match h.added(k) { None => true, Some(h) => v_hand(h) } && match h.removed(k) { None => true, Some(h) => v_hand(h) }, "values stay within their types");
        let (mut x, mut y) = (h, h);
        let _ = (x.Hand_add(k), y.Hand_remove(k), h.count(k), h.Hand_count(k), Hand::is_hand_piece(k), Hand::Hand_is_hand_piece(k));
        ck!(v_hand(x) && v_hand(y) && v_hand(Hand::new()) && v_hand(Hand::default()), "values stay within their types");
        let n = nd::below(9) as usize;
        ck!(v_okind(Hand::all_hand_pieces().nth(n)), "values stay within their types");
        ck!(h.cmp(&x) == x.cmp(&h).reverse(), "values stay within their types");
        reach!(unsafe { transmute::<Hand, [u8; 8]>(h)[6] } == 255 && un_okind(k) == 7, "a counter at its maximum");
    }
    [C24 quick 90] fn c24_move() {
        let (m, n) = (any_mv(), any_mv());
        let (a, c) = (mv(m), cmv(m));
        ck!(v_osq(a.from()) && v_sq(a.to()) && (a.is_promoting() || !a.is_promoting()) && (a.is_drop() || !a.is_drop()), "values stay within their types");
        ck!(v_osq(c.from()) && v_sq(c.to()) && v_osq(c.CompactMove_from().into()) && (c.is_promoting() || !c.is_promoting()) && (c.is_drop() || !c.is_drop()), "values stay within their types");
        ck!(v_mv(<Move as From<CompactMove>>::from(c)) && v_ocmv(Some(<CompactMove as From<Move>>::from(a))), "values stay within their types");
        ck!(v_ocmv(Some(CompactMove::normal(sq(n.to), sq(m.to), m.promote))) && v_ocmv(Some(CompactMove::drop(piece(any_piece8()), sq(m.to)))), "values stay within their types");
        ck!(a.cmp(&mv(n)) == mv(n).cmp(&a).reverse() && c.cmp(&cmv(n)) == cmv(n).cmp(&c).reverse(), "values stay within their types");
        reach!(m.drop && !n.drop, "reached");
    }
    // any position (with any number of kings), any operation, any views
    [C24 quick 90] fn c24_position() {
        let s = any_pos(Kings::Any);
        let pr = any_probe();
        let mut p = build(&s);
        let w = operate(&mut p);
        ck!(views(&p, pr), "values stay within their types");
        reach!(w == 0 && s.ply == 65535 && p.ply() == 0, "ply at its maximum");
        reach!(w == 1 && p.ply() != s.ply, "compact move");
        reach!(w == 2, "placement");
        reach!(w == 5, "ply");
    }
    [C24 quick 90] fn c24_full_position() {
        let s = any_pos(Kings::Any);
        let (m, n, pr) = (any_mv(), any_mv(), any_probe());
        let mut p = Position::arbitrary_position(build(&s));
        let _ = p.make_move(mv(m));
        let _ = p.make_compact_move(cmv(n));
        ck!(views(p.inner(), pr) && views(p.initial_position(), pr), "values stay within their types");
        ck!(match p.moves().last() { None => true, Some(m) => v_mv(*m) } && match p.last_move() { None => true, Some(m) => v_mv(m) } && v_ocmv(p.last_compact_move())
            && v_ocmv(p.Position_last_compact_move().into()) && v_opiece(p.Position_piece_at(sq(pr.q)).into()), "values stay within their types");
        reach!(p.moves().len() == 2, "reached");
    }
    [C24 thorough 90] fn c24_position_two() {
        let s = any_pos(Kings::Any);
        let pr = any_probe();
        let mut p = build(&s);
        let w = operate(&mut p);
        let x = operate(&mut p);
        ck!(views(&p, pr), "values stay within their types");
        reach!(w == 2 && x == 0 && p.last_move().is_some(), "placement, then a move");
    }
    // several kings: placing, replacing, moving and removing them in any order
    [C24 quick 90] fn c24_kings() {
        let mut p = PartialPosition::empty();
        let (a, b) = (any_sq8(), any_sq8());
        let c = any_color8();
        let k = Some(piece(8 + 16 * (c - 1)));
        p.piece_set(sq(a), k);
        p.piece_set(sq(b), k);
        p.side_to_move_set(color(c));
        let m = any_mv();
        let _ = p.make_move(mv(m));
        p.piece_set(any_sq(), opiece(any_opiece8()));
        let pr = any_probe();
        ck!(views(&p, pr), "values stay within their types");
        reach!(a != b && un_osq(p.king_position(color(c))) != 0, "a king is left");
    }
    // the text of a position whose ply has wrapped to zero
    [C24 quick 90] fn c24_text() {
        let mut p = PartialPosition::empty();
        let ply = nd::u16();
        nd::assume(ply >= 65534);
        ck!(p.ply_set(ply), "values stay within their types");
        p.piece_set(sq(41), Some(piece(8)));
        let h = p.make_move(Move::Normal { from: sq(41), to: sq(42), promote: false });
        *p.hand_of_a_player_mut(Color::White) = hand(any_hand8());
        let mut k = Count::new();
        let _ = p.to_sfen(&mut k);
        reach!(h.is_some() && p.ply() == 0, "ply zero");
    }
    [C24 quick 90] fn c24_tokens() {
        let (m, p, k, s, c, h) = (any_mv(), piece(any_piece8()), kind(any_kind8()), any_sq(), color(any_color8()), hand(any_hand8()));
        let mut w = Count::new();
        let _ = mv(m).to_usi(&mut w);
        let _ = cmv(m).to_usi(&mut w);
        let _ = p.to_usi(&mut w);
        let _ = k.to_usi(&mut w);
        let _ = s.to_usi(&mut w);
        let _ = c.to_usi(&mut w);
        let _ = [h, Hand::new()].to_usi(&mut w);
        reach!(m.drop, "drop");
    }
}

fn un_okind(k: PieceKind) -> u8 {
    unsafe { transmute::<PieceKind, u8>(k) }
}
