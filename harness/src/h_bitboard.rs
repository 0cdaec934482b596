use crate::model::*;
use crate::{ck, nd, reach};
use shogi_core::*;

/// `b` is exactly the set `m`: membership of an arbitrary square, and equality with the set built from squares.
fn same(b: Bitboard, m: u128, s: u8) -> bool {
    b.contains(sq(s)) == has(m, s) && b == bb(m)
}

crate::harnesses! {
    [C03 quick 130] fn c03_single_empty() {
        let (a, s) = (any_sq8(), any_sq8());
        ck!(!Bitboard::empty().contains(sq(s)), "the empty bitboard has no member");
        ck!(Bitboard::empty() == Bitboard::default(), "the default bitboard is empty");
        ck!(Bitboard::empty().is_empty() && Bitboard::empty().count() == 0, "the empty bitboard is empty");
        let b = Bitboard::single(sq(a));
        ck!(b.contains(sq(s)) == (a == s), "a single bitboard has exactly its square");
        ck!(b.count() == 1 && !b.is_empty(), "a single bitboard has one member");
        ck!((Bitboard::single(sq(s)) == b) == (a == s), "single bitboards are equal exactly for equal squares");
        reach!(a == 81 && s == 80, "reached");
    }
    [C03 quick 130] fn c03_members_count() {
        let (m, s) = (any_mask(), any_sq8());
        let b = bb(m);
        ck!(b.contains(sq(s)) == has(m, s), "membership");
        ck!(b.is_empty() == (m == 0), "emptiness");
        let n = b.count();
        ck!(n == count(m), "count is the number of members");
        reach!(n == 81, "full board");
        reach!(n == 40 && !has(m, s), "reached");
    }
    [C03 quick 130] fn c03_equality() {
        let (m, k) = (any_mask(), any_mask());
        let (a, b) = (bb(m), bb(k));
        ck!((a == b) == (m == k), "equality is equality of members");
        ck!((a != b) == (m != k), "inequality is inequality of members");
        reach!(a == b && a.count() == 2, "equal");
        reach!(a != b && m >> 63 != k >> 63 && m << 65 == k << 65, "differ only in the second word");
    }
    [C03 quick 130] fn c03_and() {
        let (m, k, s) = (any_mask(), any_mask(), any_sq8());
        let (a, b) = (bb(m), bb(k));
        let r = a.and(b);
        ck!(same(r, m & k, s), "and is intersection");
        ck!(a & b == r && &a & b == r && a & &b == r && &a & &b == r, "all forms of and agree");
        let mut c = a;
        c &= b;
        let mut d = a;
        d &= &b;
        ck!(c == r && d == r, "assigning forms of and agree");
        reach!(r.count() == 2, "reached");
    }
    [C03 quick 130] fn c03_or() {
        let (m, k, s) = (any_mask(), any_mask(), any_sq8());
        let (a, b) = (bb(m), bb(k));
        let r = a.or(b);
        ck!(same(r, m | k, s), "or is union");
        ck!(a | b == r && &a | b == r && a | &b == r && &a | &b == r, "all forms of or agree");
        let mut c = a;
        c |= b;
        let mut d = a;
        d |= &b;
        ck!(c == r && d == r, "assigning forms of or agree");
        reach!(r.count() == 2, "reached");
    }
    [C03 quick 130] fn c03_xor() {
        let (m, k, s) = (any_mask(), any_mask(), any_sq8());
        let (a, b) = (bb(m), bb(k));
        let r = a.xor(b);
        ck!(same(r, m ^ k, s), "xor is symmetric difference");
        ck!(a ^ b == r && &a ^ b == r && a ^ &b == r && &a ^ &b == r, "all forms of xor agree");
        let mut c = a;
        c ^= b;
        let mut d = a;
        d ^= &b;
        ck!(c == r && d == r, "assigning forms of xor agree");
        reach!(r.count() == 2, "reached");
    }
    [C03 quick 130] fn c03_andnot_not() {
        let (m, k, s) = (any_mask(), any_mask(), any_sq8());
        let (a, b) = (bb(m), bb(k));
        ck!(same(a.andnot(b), !m & k, s), "andnot removes the members of the first from the second");
        ck!(same(!a, !m & FULL, s), "not is the complement in the 81 squares");
        ck!(!&a == !a, "both forms of not agree");
        reach!((!a).count() == 2, "reached");
    }
    [C03 quick 130] fn c03_square_rhs() {
        let (m, a, s) = (any_mask(), any_sq8(), any_sq8());
        let b = bb(m);
        let q = sq(a);
        let (mut x, mut y) = (b, b);
        x &= q;
        y &= &q;
        ck!(same(x, m & single(a), s) && x == y, "and-assign with a square");
        let (mut x, mut y) = (b, b);
        x |= q;
        y |= &q;
        ck!(same(x, m | single(a), s) && x == y, "or-assign with a square");
        let (mut x, mut y) = (b, b);
        x ^= q;
        y ^= &q;
        ck!(same(x, m ^ single(a), s) && x == y, "xor-assign with a square");
        reach!(has(m, a) && a == 63, "reached");
    }

    [C04 quick 130] fn c04_pop_step() {
        let (m, s) = (any_mask(), any_sq8());
        let mut b = bb(m);
        let r = b.pop();
        match r {
            None => {
                ck!(m == 0, "pop returns nothing only from an empty bitboard");
                ck!(same(b, 0, s), "popping an empty bitboard leaves it empty");
            }
            Some(q) => {
                let v = un_sq(q);
                ck!(v >= 1 && v <= 81, "pop returns a square");
                ck!(has(m, v), "pop returns a member");
                ck!(same(b, m & !single(v), s), "pop removes exactly the returned member");
            }
        }
        reach!(r.is_none(), "empty");
        reach!(r.is_some() && b.is_empty() && m >> 80 == 1, "last member");
        reach!(r.is_some() && b.count() == 80, "from a full board");
    }
    [C04 quick 130] fn c04_next_is_a_step() {
        let (m, s) = (any_mask(), any_sq8());
        let mut b = bb(m);
        let n = count(m) as usize;
        let (lo, hi) = b.size_hint();
        ck!(lo <= n, "the lower size hint is not above the number of members");
        ck!(match hi { None => true, Some(h) => h >= n }, "the upper size hint is not below the number of members");
        match Iterator::next(&mut b) {
            None => ck!(m == 0 && same(b, 0, s), "next ends only when empty"),
            Some(q) => ck!(has(m, un_sq(q)) && same(b, m & !single(un_sq(q)), s), "next yields a member and removes it"),
        }
        reach!(m == 0, "empty");
        reach!(n == 81, "full");
    }

    [C05 quick 130] fn c05_flip() {
        let (m, s) = (any_mask(), any_sq8());
        let r = bb(m).flip();
        ck!(r.contains(sq(s)) == has(m, 82 - s), "flip rotates the board by 180 degrees");
        let mut e = 0;
        let mut i = 1;
        while i <= 81 {
            if has(m, i) {
                e |= single(82 - i);
            }
            i += 1;
        }
        ck!(r == bb(e), "flip yields exactly the rotated squares");
        ck!(r.flip() == bb(m), "flip is its own inverse");
        reach!(r.count() == 2, "reached");
    }
    [C05 quick 130] fn c05_shift_up() {
        let (m, s, d) = (any_mask(), any_sq8(), nd::below(10));
        let r = unsafe { bb(m).shift_up(d) };
        ck!(same(r, translate(m, 0, -(d as i32)), s), "shift_up moves every member up, dropping those that leave");
        reach!(d == 9, "all gone");
        reach!(d == 1 && r.count() == 72, "reached");
    }
    [C05 quick 130] fn c05_shift_down() {
        let (m, s, d) = (any_mask(), any_sq8(), nd::below(10));
        let r = unsafe { bb(m).shift_down(d) };
        ck!(same(r, translate(m, 0, d as i32), s), "shift_down moves every member down, dropping those that leave");
        reach!(d == 9, "all gone");
        reach!(d == 1 && r.count() == 72, "reached");
    }
    [C05 quick 130] fn c05_shift_left() {
        let (m, s, d) = (any_mask(), any_sq8(), nd::below(10));
        let r = unsafe { bb(m).shift_left(d) };
        ck!(same(r, translate(m, d as i32, 0), s), "shift_left moves every member left, dropping those that leave");
        reach!(d == 9, "all gone");
        reach!(d == 1 && r.count() == 72, "reached");
    }
    [C05 quick 130] fn c05_shift_right() {
        let (m, s, d) = (any_mask(), any_sq8(), nd::below(10));
        let r = unsafe { bb(m).shift_right(d) };
        ck!(same(r, translate(m, -(d as i32), 0), s), "shift_right moves every member right, dropping those that leave");
        reach!(d == 9, "all gone");
        reach!(d == 1 && r.count() == 72, "reached");
    }
    [C05 quick 130] fn c05_files() {
        let (f, pat, s) = (nd::u8(), nd::u16(), any_sq8());
        nd::assume(f >= 1 && f <= 9 && pat < 512);
        let b = unsafe { Bitboard::from_file_unchecked(f, pat) };
        ck!(same(b, (pat as u128) << (9 * (f as u32 - 1)), s), "a file pattern populates exactly its ranks of its file");
        let m = any_mask();
        let g = unsafe { bb(m).get_file_unchecked(f) };
        ck!(g == ((m >> (9 * (f as u32 - 1))) & 511) as u16, "the pattern of a file lists exactly its members");
        ck!(unsafe { b.get_file_unchecked(f) } == pat, "the pattern read back is the pattern given");
        reach!(f == 8 && pat == 511, "reached");
    }

    [C06 quick 130] fn c06_raw_roundtrip() {
        let (m, k) = (any_mask(), any_mask());
        let (a, b) = (bb(m), bb(k));
        ck!(unsafe { Bitboard::from_u128_unchecked(a.to_u128()) } == a, "raw round trip");
        ck!((a.to_u128() == b.to_u128()) == (m == k), "raw integers are equal exactly for equal sets");
        ck!((a | b).to_u128() == a.to_u128() | b.to_u128(), "raw or");
        ck!((a & b).to_u128() == a.to_u128() & b.to_u128(), "raw and");
        ck!((a ^ b).to_u128() == a.to_u128() ^ b.to_u128(), "raw xor");
        ck!(a.andnot(b).to_u128() == !a.to_u128() & b.to_u128(), "raw andnot");
        ck!(Bitboard::empty().to_u128() == 0, "the empty set is zero");
        reach!(m != k && m >> 63 == k >> 63, "reached");
    }
    [C06 quick 130] fn c06_byte_swap() {
        let (m, k) = (any_mask(), any_mask());
        let (a, b) = (bb(m), bb(k));
        let (x, y) = (a.swap_bytes(), b.swap_bytes());
        ck!(x.to_u128() == a.to_u128().swap_bytes(), "swapping reverses the 16 bytes");
        ck!(x.swap_bytes() == a, "swapping twice is the identity");
        ck!((x == y) == (m == k), "swapped bitboards are equal exactly for equal sets");
        ck!(unsafe { ByteSwappedBitboard::from_u128_unchecked(x.to_u128()) } == x, "swapped raw round trip");
        ck!(x.or(y) == (a | b).swap_bytes() && x.or(y).swap_bytes() == a | b, "swapping commutes with or");
        ck!(x.and(y) == (a & b).swap_bytes() && x.and(y).swap_bytes() == a & b, "swapping commutes with and");
        ck!(x.xor(y) == (a ^ b).swap_bytes() && x.xor(y).swap_bytes() == a ^ b, "swapping commutes with xor");
        ck!(x.andnot(y) == a.andnot(b).swap_bytes() && x.andnot(y).swap_bytes() == a.andnot(b), "swapping commutes with andnot");
        ck!(ByteSwappedBitboard::default() == Bitboard::empty().swap_bytes(), "the default is the empty set");
        reach!(m != k && a.count() == 3, "reached");
    }
}
