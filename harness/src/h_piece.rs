use crate::model::*;
use crate::{ck, nd, reach};
use shogi_core::consts::piece as cp;
use shogi_core::*;

macro_rules! pieces {
    ($($n:ident)*) => {
        const CONSTS: &[Piece] = &[$(Piece::$n),*];
        const CONSTS2: &[Piece] = &[$(cp::$n),*];
    };
}
pieces!(
    B_P B_L B_N B_S B_G B_B B_R B_K B_PP B_PL B_PN B_PS B_PB B_PR
    W_P W_L W_N W_S W_G W_B W_R W_K W_PP W_PL W_PN W_PS W_PB W_PR
);

crate::harnesses! {
    [C07 quick 40] fn c07_compose() {
        let (k, c) = (any_kind8(), any_color8());
        let p = Piece::new(kind(k), color(c));
        ck!(un_piece(p) == k + 16 * (c - 1), "a piece is its kind plus 16 for White");
        ck!(p.as_u8() == k + 16 * (c - 1), "the byte of a piece");
        ck!(p.to_parts() == (kind(k), color(c)), "decomposition inverts composition");
        ck!(p.piece_kind() as u8 == k && p.color() as u8 == c, "kind and colour of a piece");
        reach!(k == 14 && c == 2, "reached");
    }
    [C07 quick 40] fn c07_decompose() {
        let v = any_piece8();
        let p = piece(v);
        let (k, c) = p.to_parts();
        ck!(k as u8 == kind_of(v) && c as u8 == color_of(v), "kind and colour of every piece");
        ck!(p.piece_kind() == k && p.color() == c, "all decompositions agree");
        ck!(Piece::new(k, c) == p, "composition inverts decomposition");
        ck!(p.as_u8() == v, "the byte of a piece");
        ck!(p.array_index() < Piece::NUM, "the array index of a piece is in range");
        let w = any_piece8();
        ck!((piece(w).array_index() == p.array_index()) == (v == w), "array indices of pieces are distinct");
        reach!(v == 30, "reached");
    }
    [C07 quick 40] fn c07_promote() {
        let v = any_piece8();
        let (k, c) = (kind_of(v), color_of(v));
        let p = piece(v);
        let e = |k: u8| if k == 0 { 0 } else { k + 16 * (c - 1) };
        ck!(un_opiece(p.promote()) == e(promote_kind(k)), "promotion of a piece");
        ck!(un_opiece(p.unpromote()) == e(unpromote_kind(k)), "unpromotion of a piece");
        ck!(match p.promote() { Some(q) => q.unpromote() == Some(p), None => true }, "unpromotion undoes promotion");
        ck!(match p.unpromote() { Some(q) => q.promote() == Some(p), None => true }, "promotion undoes unpromotion");
        let kk = |x: Option<PieceKind>| match x { Some(x) => x as u8, None => 0 };
        ck!(kk(kind(k).promote()) == promote_kind(k), "promotion of a kind");
        ck!(kk(kind(k).unpromote()) == unpromote_kind(k), "unpromotion of a kind");
        reach!(v == 24, "king");
        reach!(v == 23, "rook");
        reach!(v == 25, "promoted");
    }
    [C07 quick 40] fn c07_kind_numbers() {
        let v = nd::u8();
        let r = PieceKind::from_u8(v);
        let n = match r { Some(k) => k as u8, None => 0 };
        ck!(n == if v >= 1 && v <= 14 { v } else { 0 }, "numbers 1..=14 and no others are kinds");
        if v >= 1 && v <= 14 {
            ck!(unsafe { PieceKind::from_u8_unchecked(v) } == kind(v), "unchecked conversion agrees");
            ck!(kind(v).array_index() == v as usize - 1 && kind(v).array_index() < PieceKind::NUM, "array index of a kind");
            ck!(PieceKind::all()[v as usize - 1] == kind(v), "the enumeration lists the kinds by number");
            ck!(PieceKind::option_array_index(Some(kind(v))) == v as usize, "array index of an optional kind");
        }
        ck!(PieceKind::NUM == 14 && PieceKind::OPTION_NUM == 15 && PieceKind::option_array_index(None) == 0, "sizes");
        ck!(PieceKind::Pawn as u8 == 1 && PieceKind::Lance as u8 == 2 && PieceKind::Knight as u8 == 3 && PieceKind::Silver as u8 == 4
            && PieceKind::Gold as u8 == 5 && PieceKind::Bishop as u8 == 6 && PieceKind::Rook as u8 == 7 && PieceKind::King as u8 == 8
            && PieceKind::ProPawn as u8 == 9 && PieceKind::ProLance as u8 == 10 && PieceKind::ProKnight as u8 == 11
            && PieceKind::ProSilver as u8 == 12 && PieceKind::ProBishop as u8 == 13 && PieceKind::ProRook as u8 == 14, "documented numbers of kinds");
        reach!(v == 15, "off");
        reach!(v == 14, "on");
    }
    [C07 quick 40] fn c07_enumerations() {
        let v = any_piece8();
        let all = Piece::all();
        let mut n = 0;
        let mut i = 0;
        while i < 28 {
            if un_piece(all[i]) == v {
                n += 1;
            }
            i += 1;
        }
        ck!(n == 1, "the enumeration of pieces lists each piece once");
        let j = (kind_of(v) as usize - 1) + 14 * (color_of(v) as usize - 1);
        ck!(CONSTS.len() == 28 && un_piece(CONSTS[j]) == v, "each named constant is its piece");
        ck!(CONSTS2.len() == 28 && un_piece(CONSTS2[j]) == v, "each named constant in consts::piece is its piece");
        reach!(v == 30, "reached");
    }
    [C07 quick 40] fn c07_color() {
        let v = any_color8();
        let c = color(v);
        ck!(c.flip() as u8 == 3 - v, "flip gives the other colour");
        ck!(c.flip().flip() == c, "flip is an involution");
        ck!(c.array_index() == v as usize - 1 && c.array_index() < Color::NUM, "array index of a colour");
        ck!(Color::all()[v as usize - 1] == c && Color::NUM == 2, "the enumeration of colours");
        ck!(Color::Black as u8 == 1 && Color::White as u8 == 2, "documented numbers of colours");
        reach!(v == 2, "reached");
    }
}
