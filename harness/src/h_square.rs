use crate::model::*;
use crate::{ck, nd, reach};
use shogi_core::*;

crate::harnesses! {
    [C01 quick 130] fn c01_new() {
        let (f, r) = (nd::u8(), nd::u8());
        let on = f >= 1 && f <= 9 && r >= 1 && r <= 9;
        let e = if on { (f - 1) * 9 + r } else { 0 };
        ck!(un_osq(Square::new(f, r)) == e, "new gives the square of the coordinates, or nothing off the board");
        ck!(un_osq(Square::new_relative(f, r, Color::Black)) == e, "new_relative for Black is new");
        ck!(un_osq(Square::new_relative(f, r, Color::White)) == if on { 82 - e } else { 0 }, "new_relative for White is rotated");
        reach!(on && f == 9 && r == 9, "on");
        reach!(!on && f == 0 && r == 255, "off");
    }
    [C01 quick 130] fn c01_views() {
        let v = any_sq8();
        let s = sq(v);
        let (f, r) = (s.file(), s.rank());
        ck!(f >= 1 && f <= 9 && r >= 1 && r <= 9, "file and rank are in range");
        ck!(f == (v - 1) / 9 + 1 && r == (v - 1) % 9 + 1, "file and rank of a square");
        ck!(Square::new(f, r) == Some(s), "a square is made from its file and rank");
        ck!(s.index() == v, "the number of a square");
        ck!(s.array_index() == v as usize - 1 && s.array_index() < Square::NUM, "the array index of a square");
        ck!(un_sq(s.flip()) == 82 - v && s.flip().flip() == s, "flip rotates by 180 degrees and is an involution");
        ck!(s.flip().file() == 10 - f && s.flip().rank() == 10 - r, "flip mirrors file and rank");
        ck!(s.relative_file(Color::Black) == f && s.relative_rank(Color::Black) == r, "relative coordinates for Black");
        ck!(s.relative_file(Color::White) == 10 - f && s.relative_rank(Color::White) == 10 - r, "relative coordinates for White");
        let c = color(any_color8());
        ck!(Square::new_relative(s.relative_file(c), s.relative_rank(c), c) == Some(s), "relative construction inverts the relative view");
        reach!(v == 81, "last square");
        reach!(v == 10, "reached");
    }
    [C01 quick 130] fn c01_from_u8() {
        let v = nd::u8();
        let r = Square::from_u8(v);
        ck!(un_osq(r) == if v >= 1 && v <= 81 { v } else { 0 }, "numbers 1..=81 and no others are squares");
        if v >= 1 && v <= 81 {
            ck!(unsafe { Square::from_u8_unchecked(v) } == sq(v), "unchecked conversion agrees");
        }
        reach!(v == 82, "off");
        reach!(v == 81, "on");
    }
    [C01 quick 130] fn c01_all() {
        let k = nd::u8();
        nd::assume(k < 90);
        let mut i = 0u8;
        let mut found = 0u8;
        for s in Square::all() {
            if i == k {
                found = un_sq(s);
            }
            i += 1;
        }
        ck!(i == 81 && Square::NUM == 81, "there are 81 squares");
        ck!(found == if k < 81 { k + 1 } else { 0 }, "the enumeration lists the squares by number");
        reach!(k == 80, "last");
    }
    [C01 quick 130] fn c01_constants() {
        let v = any_sq8();
        ck!(CONSTS.len() == 81, "81 constants");
        ck!(un_sq(CONSTS[v as usize - 1]) == v, "each named constant is its square");
        ck!(un_sq(CONSTS2[v as usize - 1]) == v, "each named constant in consts::square is its square");
        reach!(v == 81, "last");
    }
    [C02 quick 130] fn c02_shift() {
        let v = any_sq8();
        let (df, dr) = (nd::i8(), nd::i8());
        let s = sq(v);
        let (f, r) = ((v as i32 - 1) / 9 + 1, (v as i32 - 1) % 9 + 1);
        let (nf, nr) = (f + df as i32, r + dr as i32);
        let on = nf >= 1 && nf <= 9 && nr >= 1 && nr <= 9;
        let e = if on { ((nf - 1) * 9 + nr) as u8 } else { 0 };
        let t = s.shift(df, dr);
        ck!(un_osq(t) == e, "shift translates, or gives nothing off the board");
        if let Some(t) = t {
            ck!(t.shift(-df, -dr) == Some(s), "shifting back returns to the start");
        }
        reach!(df == 127 && dr == -128, "extreme deltas");
        reach!(on && df == 8 && dr == -8, "corner to corner");
    }
}

macro_rules! squares {
    ($($n:ident)*) => {
        const CONSTS: &[Square] = &[$(Square::$n),*];
        const CONSTS2: &[Square] = &[$(shogi_core::consts::square::$n),*];
    };
}
squares!(
    SQ_1A SQ_1B SQ_1C SQ_1D SQ_1E SQ_1F SQ_1G SQ_1H SQ_1I
    SQ_2A SQ_2B SQ_2C SQ_2D SQ_2E SQ_2F SQ_2G SQ_2H SQ_2I
    SQ_3A SQ_3B SQ_3C SQ_3D SQ_3E SQ_3F SQ_3G SQ_3H SQ_3I
    SQ_4A SQ_4B SQ_4C SQ_4D SQ_4E SQ_4F SQ_4G SQ_4H SQ_4I
    SQ_5A SQ_5B SQ_5C SQ_5D SQ_5E SQ_5F SQ_5G SQ_5H SQ_5I
    SQ_6A SQ_6B SQ_6C SQ_6D SQ_6E SQ_6F SQ_6G SQ_6H SQ_6I
    SQ_7A SQ_7B SQ_7C SQ_7D SQ_7E SQ_7F SQ_7G SQ_7H SQ_7I
    SQ_8A SQ_8B SQ_8C SQ_8D SQ_8E SQ_8F SQ_8G SQ_8H SQ_8I
    SQ_9A SQ_9B SQ_9C SQ_9D SQ_9E SQ_9F SQ_9G SQ_9H SQ_9I
);
