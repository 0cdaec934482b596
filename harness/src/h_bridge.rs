use crate::model::*;
use crate::{ck, nd, reach};
use core::mem::transmute;
use shogi_core::c_compat::*;
use shogi_core::*;

crate::harnesses! {
    [C10 quick 40] fn c10_square() {
        let v = nd::u8();
        nd::assume(v <= 81);
        let o = if v == 0 { None } else { Some(sq(v)) };
        let b = OptionSquare::from(o);
        ck!(unsafe { transmute::<OptionSquare, u8>(b) } == v, "an optional square is its number or zero");
        ck!(<Option<Square>>::from(b) == o, "optional square round trip");
        ck!(<Option<Square>>::from(unsafe { transmute::<u8, OptionSquare>(v) }) == o, "optional square from C");
        reach!(v == 0, "none");
        reach!(v == 81, "some");
    }
    [C10 quick 40] fn c10_piece() {
        let v = any_opiece8();
        let o = opiece(v);
        let b = OptionPiece::from(o);
        ck!(unsafe { transmute::<OptionPiece, u8>(b) } == v, "an optional piece is its byte or zero");
        ck!(<Option<Piece>>::from(b) == o, "optional piece round trip");
        ck!(<Option<Piece>>::from(unsafe { transmute::<u8, OptionPiece>(v) }) == o, "optional piece from C");
        reach!(v == 0, "none");
        reach!(v == 30, "some");
    }
    [C10 quick 40] fn c10_kind() {
        let v = nd::u8();
        nd::assume(v <= 14);
        let o = if v == 0 { None } else { Some(kind(v)) };
        ck!(unsafe { transmute::<OptionPieceKind, u8>(OptionPieceKind::from(o)) } == v, "an optional kind is its number or zero");
        ck!(<Option<PieceKind>>::from(OptionPieceKind::from(o)) == o, "optional kind round trip");
        ck!(<Option<PieceKind>>::from(unsafe { transmute::<u8, OptionPieceKind>(v) }) == o, "optional kind from C");
        reach!(v == 0, "none");
        reach!(v == 14, "some");
    }
    [C10 quick 40] fn c10_resolution() {
        let v = nd::u8();
        nd::assume(v <= 5);
        let o = if v == 0 { None } else { Some(unsafe { transmute::<u8, GameResolution>(v) }) };
        let b = OptionGameResolution::from(o);
        ck!(unsafe { transmute::<OptionGameResolution, u8>(b) } == v, "an optional resolution is its number or zero");
        ck!(<Option<GameResolution>>::from(b) == o, "optional resolution round trip");
        ck!(<Option<GameResolution>>::from(unsafe { transmute::<u8, OptionGameResolution>(v) }) == o, "optional resolution from C");
        ck!(<Option<GameResolution>>::from(OptionGameResolution::default()) == None, "the default is no resolution");
        if v != 0 {
            ck!(unsafe { GameResolution::from_u8_unchecked(v) } as u8 == v, "a resolution from its number");
        }
        ck!(GameResolution::BlackWins as u8 == 1 && GameResolution::WhiteWins as u8 == 2 && GameResolution::Draw as u8 == 3
            && GameResolution::Rematch as u8 == 4 && GameResolution::Aborted as u8 == 5, "documented numbers of resolutions");
        reach!(v == 0, "none");
        reach!(v == 5, "some");
    }
    [C10 quick 40] fn c10_illegal_move_kind() {
        let v = nd::u8();
        let n = match IllegalMoveKind::from_u8(v) { Some(k) => k as u8, None => 0 };
        ck!(n == if v >= 1 && v <= 7 { v } else { 0 }, "numbers 1..=7 and no others are illegal-move kinds");
        if v <= 7 {
            let e = if v == 0 { None } else { Some(unsafe { transmute::<u8, IllegalMoveKind>(v) }) };
            let r: Result<(), IllegalMoveKind> = match e { None => Ok(()), Some(e) => Err(e) };
            let b = ResultUnitIllegalMoveKind::from(r);
            ck!(unsafe { transmute::<ResultUnitIllegalMoveKind, u8>(b) } == v, "a result is the kind's number or zero");
            ck!(<Result<(), IllegalMoveKind>>::from(b) == r, "result round trip");
            ck!(ResultUnitIllegalMoveKind::from(e) == b, "option and result agree");
            ck!(<Option<IllegalMoveKind>>::from(b) == e, "option round trip");
            if let Some(e) = e {
                ck!(unsafe { IllegalMoveKind::from_u8_unchecked(v) } == e, "unchecked conversion agrees");
            }
        }
        ck!(<Result<(), IllegalMoveKind>>::from(ResultUnitIllegalMoveKind::default()) == Ok(()), "the default is Ok");
        ck!(IllegalMoveKind::TwoPawns as u8 == 1 && IllegalMoveKind::IgnoredCheck as u8 == 2 && IllegalMoveKind::DropPawnMate as u8 == 3
            && IllegalMoveKind::DropStuck as u8 == 4 && IllegalMoveKind::NormalStuck as u8 == 5 && IllegalMoveKind::GameFinished as u8 == 6
            && IllegalMoveKind::IncorrectMove as u8 == 7, "documented numbers of illegal-move kinds");
        reach!(v == 0, "ok");
        reach!(v == 7, "err");
        reach!(v == 8, "off");
    }
}
