use crate::model::*;
use crate::{ck, nd, reach};
use shogi_core::*;

crate::harnesses! {
    [C17 quick 90] fn c17_startpos2() { c17_play::<2>(&STARTPOS) }
    [C17 thorough 90] fn c17_startpos3() { c17_play::<3>(&STARTPOS) }
    [C17 thorough 90] fn c17_any2() { let s = any_pos(Kings::AtMostOne); c17_play::<2>(&s) }
    [C17 quick 90] fn c17_list2() { c17_list::<2>() }
    [C17 thorough 90] fn c17_list3() { c17_list::<3>() }
    [C17 quick 90] fn c17_long8() { c17_long_history::<8>() }
    [C17 quick 90] fn c17_fresh() {
        let s = any_pos(Kings::AtMostOne);
        let pr = any_probe();
        let p = Position::arbitrary_position(build(&s));
        ck!(p.moves().is_empty(), "a fresh position has no moves");
        ck!(shows(p.initial_position(), &s, pr) && shows(p.inner(), &s, pr), "a fresh position is its initial position");
        ck!(views_agree(p.initial_position(), s.at(pr.q), pr) && views_agree(p.inner(), s.at(pr.q), pr), "a fresh position is its initial position in all views");
        let c = color_of(pr.p);
        ck!(un_osq(p.initial_position().king_position(color(c))) == s.ks[c as usize - 1] && un_osq(p.inner().king_position(color(c))) == s.ks[c as usize - 1], "kings of a fresh position");
        reach!(s.at(pr.q) == pr.p && s.last != 0, "reached");
    }
    [C17 quick 90] fn c17_accessors() {
        let s = any_pos(Kings::AtMostOne);
        let m = any_mv();
        let pr = any_probe();
        let mut p = Position::arbitrary_position(build(&s));
        let ok = p.make_move(mv(m)).is_some();
        ck!(accessors_agree(&p, pr), "every accessor reports what the current position reports");
        reach!(ok && s.at(pr.q) == pr.p, "reached");
    }
    [C17 quick 90] fn c17_setters() {
        // the deprecated setters change the current position only
        let s = any_pos(Kings::AtMostOne);
        let pr = any_probe();
        let mut p = Position::arbitrary_position(build(&s));
        let mut e = s;
        if nd::bool() {
            let (t, x) = (any_sq8(), any_opiece8());
            p.piece_set(sq(t), opiece(x));
            e.board[t as usize - 1] = x;
        } else {
            let (c, h) = (any_color8(), any_hand8());
            *p.hand_of_a_player_mut(color(c)) = hand(h);
            e.hands[c as usize - 1] = h;
        }
        ck!(shows(p.inner(), &e, pr) && views_agree(p.inner(), e.at(pr.q), pr), "a setter changes the current position");
        ck!(shows(p.initial_position(), &s, pr) && views_agree(p.initial_position(), s.at(pr.q), pr), "a setter leaves the initial position alone");
        ck!(p.moves().is_empty(), "a setter records no move");
        reach!(e.at(pr.q) != s.at(pr.q), "reached");
    }
    [C17 thorough 330] fn c17_long() { c17_long_history::<40>() }
    [C17 thorough 330] fn c17_very_long() { c17_long_history::<300>() }
    [C14 quick 90] fn c14_history() {
        let s = any_pos(Kings::AtMostOne);
        let m = any_mv();
        let pr = any_probe();
        nd::assume(!s.accepts(m));
        let mut p = Position::arbitrary_position(build(&s));
        if p.make_move(mv(m)).is_none() {
            ck!(p.moves().is_empty(), "a rejected move is not recorded");
            ck!(shows(p.inner(), &s, pr) && views_agree(p.inner(), s.at(pr.q), pr), "a rejected move leaves a full position untouched");
            ck!(shows(p.initial_position(), &s, pr), "a rejected move leaves the initial position untouched");
        }
        reach!(!m.drop && s.at(m.to) == 24 && s.at(m.from) == 1 && s.side == 1, "king capture");
    }
}

pub fn accessors_agree(p: &Position, pr: Probe) -> bool {
    let i = p.inner();
    let (q, x) = (sq(pr.q), piece(pr.p));
    let c = color(color_of(pr.p));
    p.side_to_move() == i.side_to_move()
        && p.hand_of_a_player(c) == i.hand_of_a_player(c)
        && p.hand(x) == i.hand(x)
        && p.ply() == i.ply()
        && p.piece_at(q) == i.piece_at(q)
        && p.occupied_bitboard() == i.occupied_bitboard()
        && p.vacant_bitboard() == i.vacant_bitboard()
        && p.player_bitboard(c) == i.player_bitboard(c)
        && p.piece_bitboard(x) == i.piece_bitboard(x)
        && p.last_move() == i.last_move()
        && p.last_compact_move() == i.last_compact_move()
}

/// N arbitrary moves (accepted or not) from an initial position: the history and the final state.
fn c17_play<const N: usize>(s: &Pos) {
    let pr = any_probe();
    let mut p = Position::arbitrary_position(build(s));
    let mut e = *s;
    let mut n = 0;
    let mut i = 0;
    while i < N {
        let m = any_mv();
        let ok = p.make_move(mv(m)).is_some();
        ck!(ok == e.accepts(m), "a full position accepts what its current position accepts");
        if ok {
            e = e.after(m);
            n += 1;
        }
        i += 1;
    }
    ck!(shows(p.inner(), &e, pr), "the current position is the one reached by the moves");
    reach!(n == N, "all accepted");
    reach!(n == 1, "some rejected");
}

/// A long fixed history (the rooks go to and fro; N is a multiple of 4), and then an arbitrary move.
fn c17_long_history<const N: usize>() {
    let mut p = Position::startpos();
    let mut i = 0;
    while i < N {
        let (a, b) = rook_step(i);
        ck!(p.make_move(Move::Normal { from: sq(a), to: sq(b), promote: false }).is_some(), "a rook moves aside");
        i += 1;
    }
    let (a, b) = rook_step(N - 1);
    let mut e = STARTPOS;
    e.ply = N as u16 + 1;
    e.last = mv16(Mv { drop: false, from: a, to: b, promote: false, piece: 0 });
    ck!(p.moves().len() == N, "all moves are recorded");
    let m = any_mv();
    let ok = p.make_move(mv(m)).is_some();
    ck!(ok == e.accepts(m), "the move is accepted as by the current position");
    let n = N + ok as usize;
    ck!(p.moves().len() == n, "a move is recorded exactly when it is accepted");
    if ok {
        ck!(p.moves()[N] == mv(m), "the move is recorded last");
        e = e.after(m);
    }
    let j = nd::u16() as usize;
    nd::assume(j < N);
    let (a, b) = rook_step(j);
    ck!(p.moves()[j] == Move::Normal { from: sq(a), to: sq(b), promote: false }, "earlier moves stay recorded");
    let pr = any_probe();
    ck!(shows(p.inner(), &e, pr), "the current position is the one reached by the moves");
    ck!(shows(p.initial_position(), &STARTPOS, pr), "the initial position never changes");
    reach!(ok && m.promote, "accepted");
    reach!(!ok, "rejected");
}

fn rook_step(i: usize) -> (u8, u8) {
    match i % 4 {
        0 => (17, 26),
        1 => (65, 56),
        2 => (26, 17),
        _ => (56, 65),
    }
}

fn c17_list<const N: usize>() {
    let s = any_pos(Kings::AtMostOne);
    let mut p = Position::arbitrary_position(build(&s));
    let mut list = [Mv { drop: false, from: 1, to: 1, promote: false, piece: 0 }; N];
    let mut n = 0;
    let mut i = 0;
    while i < N {
        let m = any_mv();
        if p.make_move(mv(m)).is_some() {
            list[n] = m;
            n += 1;
        }
        i += 1;
    }
    ck!(p.moves().len() == n, "exactly the accepted moves are recorded");
    let j = nd::below(N as u8) as usize;
    if j < n && p.moves().len() == n {
        ck!(p.moves()[j] == mv(list[j]), "the moves are recorded in order");
    }
    let pr = any_probe();
    ck!(shows(p.initial_position(), &s, pr), "the initial position never changes");
    reach!(n == N && !list[0].drop && list[N - 1].drop, "all accepted");
    reach!(n == 0, "all rejected");
    reach!(n == 1 && j == 0, "some rejected");
}
