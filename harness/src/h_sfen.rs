use crate::model::*;
use crate::sfen::*;
use crate::{ck, nd, reach};
use shogi_core::*;

fn plain(board: [u8; 81]) -> Pos {
    Pos { side: any_color8(), ply: nd::u16(), hands: [any_hand8(), any_hand8()], board, last: 0, ks: [0; 2] }
}

crate::harnesses! {
    [C18 quick 90 debug] fn c18_ranks_123() { c18_ranks(1, 3) }
    [C18 quick 90 debug] fn c18_ranks_345() { c18_ranks(3, 5) }
    [C18 quick 90 debug] fn c18_ranks_567() { c18_ranks(5, 7) }
    [C18 quick 90 debug] fn c18_ranks_789() { c18_ranks(7, 9) }
    [C18 quick 90 nodebug] fn c18_rank_5() { c18_ranks(5, 5) }
    [C18 thorough 90] fn c18_board() { c18_ranks(1, 9) }
    [C19 quick 90] fn c19_rest() {
        let mut s = plain([0; 81]);
        nd::assume(s.ply != 0);
        let p = build(&s);
        let mut r = Reader::new(&s);
        r.check_board = false;
        let res = p.to_sfen(&mut r);
        ck!(res.is_ok(), "writing to a willing sink succeeds");
        ck!(r.ok, "side, hands and ply are spelled canonically");
        ck!(r.complete(), "side, hands and ply are spelled completely");
        reach!(s.hands[0][6] == 255 && s.hands[1][0] == 1 && s.ply == 65535, "full");
        reach!(r.bytes == 8 + 9 + 6, "shortest");
    }
    [C19 quick 90 debug] fn c19_hands() {
        let s = plain([0; 81]);
        let mut r = Reader::new(&s).at_hands();
        let h = [hand(s.hands[0]), hand(s.hands[1])];
        let res = h.to_usi(&mut r);
        ck!(res.is_ok(), "writing to a willing sink succeeds");
        ck!(r.hands_complete(), "the hands are spelled exactly and canonically");
        reach!(s.hands[0][6] == 255 && s.hands[1][0] == 1, "full");
        reach!(s.hands[0] == [0; 8] && s.hands[1] == [0; 8], "empty");
    }

    // --- C20 -----------------------------------------------------------------------------------------------------
    [C20 quick 20] fn c20_square() {
        let v = any_sq8();
        let mut e = Buf::<8>::new();
        put_square(&mut e, v);
        exact(&sq(v), &e);
        reach!(v == 81, "reached");
    }
    [C20 quick 20] fn c20_color() {
        let v = any_color8();
        let mut e = Buf::<8>::new();
        e.put(if v == 1 { b'b' } else { b'w' });
        exact(&color(v), &e);
        reach!(v == 2, "reached");
    }
    [C20 quick 20] fn c20_kind() {
        let v = any_kind8();
        let mut e = Buf::<8>::new();
        put_kind(&mut e, v);
        exact(&kind(v), &e);
        reach!(v == 14, "reached");
    }
    [C20 quick 20] fn c20_piece() {
        let v = any_piece8();
        let mut e = Buf::<8>::new();
        put_piece(&mut e, v);
        exact(&piece(v), &e);
        reach!(v == 30, "reached");
    }
    [C20 quick 20] fn c20_move() {
        let m = any_mv();
        let mut e = Buf::<8>::new();
        put_move(&mut e, m);
        exact(&mv(m), &e);
        reach!(m.drop && m.piece == 30, "drop");
        reach!(m.promote && m.from == 81, "promotion");
    }
    [C20 quick 20] fn c20_compact_move() {
        let m = any_mv();
        let mut e = Buf::<8>::new();
        put_move(&mut e, m);
        exact(&cmv(m), &e);
        reach!(m.drop && m.piece == 30, "drop");
        reach!(m.promote && m.from == 81, "promotion");
    }
    [C20 quick 20] fn c20_unambiguous() {
        let (m, k) = (any_mv(), any_mv());
        let (mut a, mut b) = (Buf::<8>::new(), Buf::<8>::new());
        ck!(mv(m).to_usi(&mut a).is_ok() && cmv(k).to_usi(&mut b).is_ok(), "writing to a willing sink succeeds");
        let mut e = k;
        if k.drop && m.drop && kind_of(k.piece) == kind_of(m.piece) {
            e.piece = m.piece; // the token of a drop does not tell whose it is
        }
        ck!(a.same(&b) == (m == e), "tokens are equal exactly when the moves are, but for the owner of a dropped piece");
        let (x, y) = (any_piece8(), any_piece8());
        let (mut a, mut b) = (Buf::<8>::new(), Buf::<8>::new());
        ck!(piece(x).to_usi(&mut a).is_ok() && piece(y).to_usi(&mut b).is_ok(), "writing to a willing sink succeeds");
        ck!(a.same(&b) == (x == y), "distinct pieces have distinct tokens");
        reach!(m == k && x == y, "equal");
        reach!(m != k && x != y, "different");
    }
    [C20 quick 20] fn c20_owned() {
        let (v, c, k, p, m) = (any_sq8(), any_color8(), any_kind8(), any_piece8(), any_mv());
        let w = nd::below(6);
        if w == 0 { owned(&sq(v)) }
        if w == 1 { owned(&color(c)) }
        if w == 2 { owned(&kind(k)) }
        if w == 3 { owned(&piece(p)) }
        if w == 4 { owned(&mv(m)) }
        if w == 5 { owned(&cmv(m)) }
        reach!(w == 5 && m.drop, "compact");
        reach!(w == 4 && m.promote, "move");
    }

    // --- C21 -----------------------------------------------------------------------------------------------------
    [C21 quick 20] fn c21_tokens() {
        let (v, c, k, p, m) = (any_sq8(), any_color8(), any_kind8(), any_piece8(), any_mv());
        let w = nd::below(6);
        let mut n = 0;
        if w == 0 { n = failing(&sq(v)) }
        if w == 1 { n = failing(&color(c)) }
        if w == 2 { n = failing(&kind(k)) }
        if w == 3 { n = failing(&piece(p)) }
        if w == 4 { n = failing(&mv(m)) }
        if w == 5 { n = failing(&cmv(m)) }
        reach!(w == 5 && m.drop && n == 3, "compact");
        reach!(w == 4 && m.promote && n == 2, "move");
        reach!(w == 4 && m.promote && n == 5, "whole");
    }
    [C21 thorough 90] fn c21_hands() {
        let s = plain([0; 81]);
        let mut r = Reader::new(&s).at_hands();
        let f = nd::u8();
        r.fail_at = f as usize;
        let h = [hand(s.hands[0]), hand(s.hands[1])];
        let res = h.to_usi(&mut r);
        ck!(res.is_err() == r.failed, "an error is reported exactly when the sink failed");
        ck!(!r.late, "nothing is written after a failure");
        ck!(r.ok, "what was written is a prefix of the text");
        ck!(r.failed || r.hands_complete(), "without failure the text is whole");
        reach!(r.failed && f == 20, "failure inside");
        reach!(r.failed && f == 0 && s.hands[0] == [0; 8] && s.hands[1] == [0; 8], "failure at the dash");
        reach!(!r.failed && s.hands[0][6] == 255, "whole");
    }
    [C21 quick 90] fn c21_rest() {
        let s = plain([0; 81]);
        let mut r = Reader::new(&s);
        r.check_board = false;
        let f = nd::u8();
        r.fail_at = f as usize;
        let p = build(&s);
        let res = p.to_sfen(&mut r);
        ck!(res.is_err() == r.failed, "an error is reported exactly when the sink failed");
        ck!(!r.late, "nothing is written after a failure");
        ck!(r.ok, "what was written is a prefix of the text");
        ck!(r.failed || r.complete(), "without failure the text is whole");
        reach!(r.failed && f == 5, "failure in the board");
        reach!(r.failed && r.bytes == 18, "failure after the board");
        reach!(!r.failed && s.hands[0][6] == 255, "whole");
    }
    [C21 quick 90 debug] fn c21_board() {
        let s = any_board(4, 5);
        let q = any_sq8();
        let p = build(&s);
        let mut r = ProbeReader::new(&s, q);
        let f = nd::u8();
        r.fail_at = f as usize;
        let res = p.to_sfen(&mut r);
        ck!(res.is_err() == r.failed, "an error is reported exactly when the sink failed");
        ck!(!r.late, "nothing is written after a failure");
        ck!(r.ok, "what was written is a prefix of the text");
        ck!(r.failed || (r.done && r.seen), "without failure the text is whole");
        reach!(r.failed && f == 30, "failure in the board");
        reach!(!r.failed, "whole");
    }

    // --- C22 -----------------------------------------------------------------------------------------------------
    [C22 quick 17 debug] fn c22_c_ply() {
        let mut s = fixed();
        s.hands = [[1, 0, 0, 2, 0, 0, 18, 0], [12, 0, 0, 0, 1, 0, 0, 0]];
        s.ply = nd::u16();
        c_text(&s);
        reach!(s.ply == 65535, "long");
    }
    [C22 quick 17 debug] fn c22_c_hands() {
        let mut s = fixed();
        s.side = any_color8();
        (s.hands[0][5], s.hands[1][0]) = (nd::u8(), nd::u8());
        c_text(&s);
        reach!(s.hands[0][5] == 255 && s.hands[1][0] == 10 && s.side == 2, "long");
        reach!(s.hands[0][5] == 0 && s.hands[1][0] == 0, "none");
    }
    [C22 quick 17 debug] fn c22_c_squares() {
        // any pieces but kings on 3i, 2i and 1i
        let mut s = fixed();
        let (x, y, z) = (any_opiece8(), any_opiece8(), any_opiece8());
        nd::assume(kind_of(x) != 8 && kind_of(y) != 8 && kind_of(z) != 8);
        (s.board[26], s.board[17], s.board[8]) = (x, y, z);
        c_text(&s);
        reach!(x == 30 && y == 0 && z == 1, "reached");
    }
    [C22 thorough 17 debug] fn c22_c_full() {
        // the same for a full position that has moved on
        let mut s = fixed();
        s.hands[0][0] = nd::u8();
        nd::assume(s.hands[0][0] != 0);
        let mut p = Position::arbitrary_position(build(&s));
        ck!(p.make_move(Move::Drop { piece: Piece::B_P, to: sq(3) }).is_some(), "a pawn is dropped on 1c");
        let mut t = Buf::<80>::new();
        ck!(p.inner().to_sfen(&mut t).is_ok(), "writing to a willing sink succeeds");
        let fill = nd::u8();
        let mut c = [fill; 80];
        unsafe { p.to_sfen_c(c.as_mut_ptr()) };
        is_text(&t, &c, fill);
        reach!(s.hands[0][0] == 255, "long");
    }
    [C22 quick 17 debug] fn c22_c_full_set() {
        let mut p = Position::arbitrary_position(build(&fixed()));
        let x = nd::bool();
        p.piece_set(sq(81), if x { Some(Piece::B_P) } else { Some(Piece::W_G) });
        *p.hand_of_a_player_mut(Color::Black) = hand([1, 2, 0, 0, 0, 0, 0, 0]);
        let mut t = Buf::<80>::new();
        ck!(p.inner().to_sfen(&mut t).is_ok(), "writing to a willing sink succeeds");
        let fill = nd::u8();
        let mut c = [fill; 80];
        unsafe { p.to_sfen_c(c.as_mut_ptr()) };
        is_text(&t, &c, fill);
        reach!(x, "reached");
    }
    // owned strings grow on the heap, which is expensive to encode: short texts, fixed but for the side
    [C22 quick 17 debug] fn c22_owned() {
        let mut p = PartialPosition::empty();
        let c = any_color8();
        p.side_to_move_set(color(c));
        p.piece_set(sq(9), Some(Piece::W_PP));
        let t = if c == 1 { b"9/9/9/9/9/9/9/9/8+p b - 1" } else { b"9/9/9/9/9/9/9/9/8+p w - 1" };
        let o = p.to_sfen_owned();
        same_bytes(o.as_bytes(), t);
        reach!(c == 2, "reached");
    }
    [C22 quick 17 debug] fn c22_owned_full() {
        let mut p = PartialPosition::empty();
        let c = any_color8();
        p.side_to_move_set(color(c));
        let mut p = Position::arbitrary_position(p);
        p.piece_set(sq(81), Some(Piece::B_R));
        let t = if c == 1 { b"9/9/9/9/9/9/9/9/R8 b - 1" } else { b"9/9/9/9/9/9/9/9/R8 w - 1" };
        let o = p.to_sfen_owned();
        same_bytes(o.as_bytes(), t);
        reach!(c == 2, "reached");
    }
    // the lengths that the SMT step of C22 puts together
    [C22 quick 17 debug] fn c22_len_123() { c22_len(1, 3) }
    [C22 quick 17 debug] fn c22_len_456() { c22_len(4, 6) }
    [C22 quick 17 debug] fn c22_len_789() { c22_len(7, 9) }
    [C22 thorough 17] fn c22_len_all() { c22_len(1, 9) }
    [C22 quick 17 debug] fn c22_len_hands() {
        let s = plain([0; 81]);
        let h = [hand(s.hands[0]), hand(s.hands[1])];
        let mut k = Count::new();
        ck!(h.to_usi(&mut k).is_ok(), "writing to a willing sink succeeds");
        let mut n = 0;
        let mut c = 0;
        while c < 2 {
            let mut i = 0;
            while i < 7 {
                let x = s.hands[c][i];
                n += if x == 0 { 0 } else if x == 1 { 1 } else if x < 10 { 2 } else if x < 100 { 3 } else { 4 };
                i += 1;
            }
            c += 1;
        }
        ck!(k.n <= if n == 0 { 1 } else { n }, "the hands take one letter and the digits of every count above one");
        reach!(n == 56, "longest");
    }
    [C22 quick 17 debug] fn c22_len_rest() {
        // after the board and the hands: two spaces, the side, one space and at most five digits
        let mut s = fixed();
        (s.side, s.ply) = (any_color8(), nd::u16());
        let mut k = Count::new();
        ck!(build(&s).to_sfen(&mut k).is_ok(), "writing to a willing sink succeeds");
        ck!(k.n - k.board <= 1 + 1 + 1 + 1 + 1 + 5, "side, dash and ply take at most ten bytes");
        reach!(k.n - k.board == 10, "longest");
    }
}

/// The fixed pattern with Black to move and empty hands.
fn fixed() -> Pos {
    let mut b = [0; 81];
    (b[0], b[9], b[80], b[40], b[58], b[53]) = (25, 7, 4, 30, 9, 11);
    Pos { side: 1, ply: 1, hands: [[0; 8]; 2], board: b, last: 0, ks: [0, 0] }
}

/// The C interface stores the text, a NUL and nothing more.
fn c_text(s: &Pos) {
    let fill = nd::u8();
    let mut c = [fill; 80];
    let mut t = Buf::<80>::new();
    let p = build(s);
    ck!(p.to_sfen(&mut t).is_ok(), "writing to a willing sink succeeds");
    unsafe { p.to_sfen_c(c.as_mut_ptr()) };
    is_text(&t, &c, fill);
}
fn is_text(t: &Buf<80>, c: &[u8; 80], fill: u8) {
    each(80, |i| {
        let e = if i < t.n { t.a[i] } else if i == t.n { 0 } else { fill };
        ck!(c[i] == e, "the C text is the written text and one NUL, and nothing is stored beyond it");
    });
}

/// The board takes at most nine bytes a rank, one more for every promoted piece, and eight slashes.
fn c22_len(lo: usize, hi: usize) {
    let s = any_board(lo, hi);
    let mut k = Count::new();
    ck!(build(&s).to_sfen(&mut k).is_ok(), "writing to a willing sink succeeds");
    let mut n = 0;
    let mut f = 0;
    while f < 9 {
        let mut r = 0;
        while r < 9 {
            n += (s.board[9 * f + r] & 15 > 8) as usize;
            r += 1;
        }
        f += 1;
    }
    ck!(k.board <= 81 + 8 + n, "the board takes at most a byte a square, one a promoted piece and eight slashes");
    reach!(k.board > 9 && s.at(lo as u8) == 30, "reached");
}

fn board_of(rows: &[[u8; 9]; 9]) -> [u8; 81] {
    let mut b = [0; 81];
    let mut f = 0;
    while f < 9 {
        let mut r = 0;
        while r < 9 {
            b[9 * f + r] = rows[r][8 - f];
            r += 1;
        }
        f += 1;
    }
    b
}

fn c18_ranks(lo: usize, hi: usize) {
    let s = any_board(lo, hi);
    let q = any_sq8();
    let p = build(&s);
    let mut r = ProbeReader::new(&s, q);
    let res = p.to_sfen(&mut r);
    ck!(res.is_ok(), "writing to a willing sink succeeds");
    ck!(r.ok, "the board field spells exactly the board, canonically");
    ck!(r.done && r.seen, "the board field is complete");
    reach!(s.at(q) == 30 && (q - 1) % 9 + 1 == lo as u8, "reached");
}

/// The value writes exactly the expected text.
fn exact<T: ToUsi>(x: &T, e: &Buf<8>) {
    let mut b = Buf::<8>::new();
    ck!(x.to_usi(&mut b).is_ok(), "writing to a willing sink succeeds");
    ck!(b.same(e), "the token is the documented one");
}

/// The owned string is what is written.
fn owned<T: ToUsi>(x: &T) {
    let mut b = Buf::<8>::new();
    ck!(x.to_usi(&mut b).is_ok(), "writing to a willing sink succeeds");
    let o = x.to_usi_owned();
    ck!(b.is(o.as_bytes()), "the owned string is what is written to a sink");
}

/// Writes to a sink that may fail; returns how much it took.
fn failing<T: ToUsi>(x: &T) -> usize {
    let (mut a, mut b) = (Buf::<8>::new(), Buf::<8>::new());
    ck!(x.to_usi(&mut a).is_ok(), "writing to a willing sink succeeds");
    b.fail_at = nd::u8() as usize;
    let res = x.to_usi(&mut b);
    ck!(res.is_err() == b.failed, "an error is reported exactly when the sink failed");
    ck!(!b.late, "nothing is written after a failure");
    ck!(b.prefix_of(&a), "what was written is a prefix of the text");
    ck!(b.failed || b.same(&a), "without failure the text is whole");
    b.n
}

fn same_bytes(o: &[u8], t: &[u8]) {
    ck!(o.len() == t.len(), "the owned text has the length of the written text");
    each(t.len(), |i| ck!(o[i] == t[i], "the owned text is the written text"));
}
