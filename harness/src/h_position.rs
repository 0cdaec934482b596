use crate::model::*;
use crate::{ck, nd, reach};
use shogi_core::*;

crate::harnesses! {
    // --- C11 -----------------------------------------------------------------------------------------------------
    [C11 quick 90] fn c11_base() {
        let s = any_pos(Kings::Any);
        let pr = any_probe();
        let p = build(&s);
        ck!(views_agree(&p, s.at(pr.q), pr), "all views of a consistent position agree");
        ck!((p.player_bitboard(Color::Black) & p.player_bitboard(Color::White)).is_empty(), "player bitboards are disjoint");
        reach!(s.at(pr.q) == pr.p && pr.q == 63, "reached");
    }
    [C11 quick 90] fn c11_piece_set() {
        let s = any_pos(Kings::Any);
        let pr = any_probe();
        let (t, x) = (any_sq8(), any_opiece8());
        let mut p = build(&s);
        p.piece_set(sq(t), opiece(x));
        let at = if t == pr.q { x } else { s.at(pr.q) };
        ck!(views_agree(&p, at, pr), "all views agree after placing or removing a piece");
        ck!((p.player_bitboard(Color::Black) & p.player_bitboard(Color::White)).is_empty(), "player bitboards are disjoint");
        ck!((p.occupied_bitboard() ^ p.vacant_bitboard()) == !Bitboard::empty(), "occupied and vacant partition the squares");
        reach!(x == 0 && s.at(t) == 24, "removal");
        reach!(x == 30 && s.at(t) == 1, "replacement");
        reach!(x == s.at(t) && x != 0, "the same piece again");
    }
    [C11 quick 90] fn c11_make_move() {
        let s = any_pos(Kings::Any);
        let pr = any_probe();
        let m = any_mv();
        let mut p = build(&s);
        let ok = p.make_move(mv(m)).is_some();
        // whatever the move did, the views agree with the per-square view
        let at = un_opiece(p.piece_at(sq(pr.q)));
        ck!(at == 0 || valid_piece(at), "squares hold pieces");
        ck!(views_agree(&p, at, pr), "all views agree after a move");
        ck!((p.player_bitboard(Color::Black) & p.player_bitboard(Color::White)).is_empty(), "player bitboards are disjoint");
        reach!(ok && !m.drop && m.promote && pr.q == m.to && s.at(m.to) != 0, "promoting capture");
        reach!(ok && m.drop && pr.q == m.to, "drop");
        reach!(!ok, "rejected");
    }

    // --- C12 -----------------------------------------------------------------------------------------------------
    [C12 quick 90] fn c12_base_and_set() {
        let s = any_pos(Kings::AtMostOne);
        let c = any_color8();
        let mut p = build(&s);
        ck!(un_osq(p.king_position(color(c))) == s.ks[c as usize - 1], "the king's square");
        let (t, x) = (any_sq8(), any_opiece8());
        let mut ks = s.ks;
        let mut i = 0;
        while i < 2 {
            let k = 8 + 16 * i as u8;
            if x == k {
                // still at most one king
                nd::assume(ks[i] == 0 || ks[i] == t);
                ks[i] = t;
            } else if ks[i] == t {
                ks[i] = 0;
            }
            i += 1;
        }
        p.piece_set(sq(t), opiece(x));
        ck!(un_osq(p.king_position(color(c))) == ks[c as usize - 1], "the king's square after placing or removing a piece");
        reach!(x == 0 && s.ks[1] == t && c == 2, "king removed");
        reach!(x == 24 && s.ks[0] == t && c == 1, "king replaced by the other king");
        reach!(x == 8 && s.ks[0] == 0 && c == 1, "king placed");
    }
    [C12 quick 90] fn c12_make_move() {
        let s = any_pos(Kings::AtMostOne);
        let c = any_color8();
        let m = any_mv();
        let mut p = build(&s);
        let ok = p.make_move(mv(m)).is_some();
        let e = if ok && !m.drop && m.from == s.ks[c as usize - 1] { m.to } else { s.ks[c as usize - 1] };
        ck!(un_osq(p.king_position(color(c))) == e, "the king's square after a move");
        reach!(ok && !m.drop && s.ks[1] == m.from && c == 2 && s.at(m.to) != 0, "king captures");
        reach!(!ok && !m.drop && s.ks[0] == m.from && c == 1, "rejected king move");
        reach!(ok && s.ks[0] == 0 && c == 1, "no king");
    }
    [C12 quick 90] fn c12_history() { c12_placements::<3>() }
    [C12 thorough 90] fn c12_history4() { c12_placements::<4>() }

    // --- C13 .. C16 ----------------------------------------------------------------------------------------------
    [C13 quick 90] fn c13_acceptance() {
        let s = any_pos(Kings::AtMostOne);
        let m = any_mv();
        let mut p = build(&s);
        let ok = p.make_move(mv(m)).is_some();
        ck!(ok == s.accepts(m), "a move is accepted exactly when it makes sense");
        reach!(ok && !m.drop && m.promote && s.at(m.to) != 0, "promoting capture");
        reach!(ok && m.drop, "drop");
        reach!(!ok && m.drop && s.at(m.to) == 0 && color_of(m.piece) == s.side && kind_of(m.piece) < 8, "nothing in hand");
        reach!(!ok && !m.drop && s.at(m.to) == 24 && s.at(m.from) == 1 && s.side == 1, "king capture");
        reach!(!ok && !m.drop && m.promote && s.at(m.from) == 9 && s.side == 1, "promoting a promoted piece");
        reach!(!ok && !m.drop && m.from == m.to && s.at(m.from) == 1 && s.side == 1, "null move");
    }
    [C14 quick 90] fn c14_rejected() {
        let s = any_pos(Kings::AtMostOne);
        let m = any_mv();
        let pr = any_probe();
        let mut p = build(&s);
        let before = p.clone();
        nd::assume(!s.accepts(m));
        let r = p.make_move(mv(m));
        if r.is_none() {
            ck!(shows(&p, &s, pr), "a rejected move changes nothing that is visible");
            ck!(views_agree(&p, s.at(pr.q), pr), "a rejected move changes no view of the board");
            ck!(un_osq(p.king_position(color(color_of(pr.p)))) == s.ks[color_of(pr.p) as usize - 1], "a rejected move moves no king");
            ck!(p == before, "a rejected move leaves an equal position");
        }
        reach!(!m.drop && s.at(m.to) == 24 && s.at(m.from) == 1 && s.side == 1, "king capture");
        reach!(m.drop && s.at(m.to) == 0 && color_of(m.piece) == s.side && kind_of(m.piece) < 8, "nothing in hand");
        reach!(!m.drop && m.promote && s.at(m.from) == 5 && s.side == 1 && s.at(m.to) == 17, "promoting a gold with capture");
    }
    [C15 quick 90] fn c15_effect() {
        let s = any_pos(Kings::AtMostOne);
        let m = any_mv();
        let pr = any_probe();
        let mut p = build(&s);
        nd::assume(s.accepts(m));
        let r = p.make_move(mv(m));
        if r.is_some() {
            let e = s.after(m);
            ck!(un_opiece(p.piece_at(sq(pr.q))) == e.at(pr.q), "every square is as the move makes it");
            ck!(p.hand(piece(pr.p)) == e.hand_count(pr.p), "every hand counter is as the move makes it");
            ck!(p.side_to_move() as u8 == e.side, "the side to move flips");
            ck!(p.ply() == e.ply, "the ply grows by one");
            ck!(un_ocmv(p.last_compact_move()) == e.last, "the last move is the move");
            ck!(p.last_move() == Some(mv(m)), "the last move reads back as the move");
            ck!(views_agree(&p, e.at(pr.q), pr), "every view of the board is as the move makes it");
            ck!(un_osq(p.king_position(color(color_of(pr.p)))) == e.ks[color_of(pr.p) as usize - 1], "the kings are where the move leaves them");
        }
        reach!(r.is_some() && !m.drop && m.promote && kind_of(s.at(m.to)) == 14 && pr.q == m.to, "promoting capture of a promoted piece");
        reach!(r.is_some() && m.drop && pr.p == m.piece && s.ply == 65535, "drop at the last ply");
        reach!(r.is_some() && !m.drop && pr.q != m.to && pr.q != m.from && s.at(m.to) == 0, "bystander");
    }
    [C16 quick 90] fn c16_conservation() {
        let s = any_pos(Kings::AtMostOne);
        let m = any_mv();
        let k = any_kind8(); // a base kind
        nd::assume(k <= 8);
        let pr = any_probe();
        let mut p = build(&s);
        if k <= 7 {
            nd::assume(s.hands[0][k as usize - 1] < 255 && s.hands[1][k as usize - 1] < 255);
        }
        let r = p.make_move(mv(m));
        nd::assume(r.is_some());
        // every square outside the move is unchanged, so the sums over the board differ only in origin and destination
        let other = pr.q != m.to && (m.drop || pr.q != m.from);
        if other {
            ck!(un_opiece(p.piece_at(sq(pr.q))) == s.at(pr.q), "squares outside the move keep their pieces");
        }
        let is = |x: u8| (x != 0 && base_kind(kind_of(x)) == k) as i32;
        let king = |x: u8, c: u8| (x == 8 + 16 * (c - 1)) as i32;
        let at = |v: u8| un_opiece(p.piece_at(sq(v)));
        let (mut before, mut after) = (is(s.at(m.to)), is(at(m.to)));
        let c = color_of(pr.p);
        let (mut kb, mut ka) = (king(s.at(m.to), c), king(at(m.to), c));
        if !m.drop && m.from != m.to {
            before += is(s.at(m.from));
            after += is(at(m.from));
            kb += king(s.at(m.from), c);
            ka += king(at(m.from), c);
        }
        if k <= 7 {
            let h = |c: Color| match p.hand_of_a_player(c).count(kind(k)) { Some(n) => n as i32, None => 1000 };
            before += s.hands[0][k as usize - 1] as i32 + s.hands[1][k as usize - 1] as i32;
            after += h(Color::Black) + h(Color::White);
        }
        ck!(before == after, "the number of pieces of every kind is conserved");
        ck!(kb == ka, "the number of kings of each player is conserved");
        reach!(!m.drop && is(s.at(m.to)) == 1 && kind_of(s.at(m.to)) > 8, "capture of a promoted piece");
        reach!(m.drop && kind_of(m.piece) == k, "drop");
        reach!(k == 8, "kings");
    }

    // --- C31 -----------------------------------------------------------------------------------------------------
    [C31 quick 90] fn c31_piece_set() {
        let s = any_pos(Kings::Any);
        let pr = any_probe();
        let (t, x) = (any_sq8(), any_opiece8());
        let mut p = build(&s);
        p.piece_set(sq(t), opiece(x));
        let mut e = s;
        e.board[t as usize - 1] = x;
        ck!(un_opiece(p.piece_at(sq(t))) == x, "the square holds what was placed");
        ck!(shows(&p, &e, pr), "everything else is unchanged");
        reach!(x == 0 && s.at(t) == 30, "removal");
        reach!(t != pr.q && x == 8, "bystander");
    }
    [C31 quick 90] fn c31_setters() {
        let s = any_pos(Kings::AtMostOne);
        let pr = any_probe();
        let mut p = build(&s);
        let what = nd::below(3);
        let mut e = s;
        if what == 0 {
            e.side = any_color8();
            p.side_to_move_set(color(e.side));
        } else if what == 1 {
            let n = nd::u16();
            let ok = p.ply_set(n);
            ck!(ok == (n != 0), "the ply setter refuses exactly zero");
            if ok {
                e.ply = n;
            }
        } else {
            let c = any_color8();
            let h = any_hand8();
            *p.hand_of_a_player_mut(color(c)) = hand(h);
            e.hands[c as usize - 1] = h;
        }
        ck!(shows(&p, &e, pr), "a setter changes exactly its datum");
        ck!(views_agree(&p, e.at(pr.q), pr), "a setter leaves the board alone");
        ck!(un_osq(p.king_position(color(color_of(pr.p)))) == s.ks[color_of(pr.p) as usize - 1], "a setter leaves the kings alone");
        reach!(what == 0 && e.side != s.side, "side");
        reach!(what == 1 && e.ply == s.ply, "ply");
        reach!(what == 2, "hand");
    }
    [C31 quick 90] fn c31_order() {
        let s = any_pos(Kings::AtMostOne);
        let pr = any_probe();
        let (t, x, u, y) = (any_sq8(), any_opiece8(), any_sq8(), any_opiece8());
        nd::assume(t != u);
        let mut p = build(&s);
        p.piece_set(sq(t), opiece(x));
        p.piece_set(sq(u), opiece(y));
        let mut e = s;
        e.board[t as usize - 1] = x;
        e.board[u as usize - 1] = y;
        ck!(shows(&p, &e, pr), "two placements give exactly the two pieces");
        reach!(x == 8 && y == 8, "two kings");
        reach!(x == 0 && y == 0 && s.at(t) == 8 && s.at(u) == 24, "both kings removed");
    }
    [C31 quick 90] fn c31_order_kings() {
        // the one view that depends on more than one square
        let s = any_pos(Kings::AtMostOne);
        let (t, x, u, y) = (any_sq8(), any_opiece8(), any_sq8(), any_opiece8());
        nd::assume(t != u);
        let mut p = build(&s);
        let mut q = build(&s);
        p.piece_set(sq(t), opiece(x));
        p.piece_set(sq(u), opiece(y));
        q.piece_set(sq(u), opiece(y));
        q.piece_set(sq(t), opiece(x));
        let c = color(any_color8());
        ck!(p.king_position(c) == q.king_position(c), "both orders give the same king positions");
        reach!(x == 8 && y == 8, "two kings");
        reach!(x == 0 && y == 0 && s.at(t) == 8 && s.at(u) == 24, "both kings removed");
    }
    [C31 quick 90] fn c31_order_equal() {
        let mut p = PartialPosition::empty();
        let (t, x, u, y) = (any_sq8(), any_opiece8(), any_sq8(), any_opiece8());
        nd::assume(t != u);
        let mut q = PartialPosition::empty();
        p.piece_set(sq(t), opiece(x));
        p.piece_set(sq(u), opiece(y));
        q.piece_set(sq(u), opiece(y));
        q.piece_set(sq(t), opiece(x));
        ck!(p == q, "placing on two squares in either order gives equal positions");
        reach!(x == 8 && y == 8, "two kings");
    }
}

/// N placements on the empty board, in any order, also through states with several kings of a player.
fn c12_placements<const N: usize>() {
    let mut p = PartialPosition::empty();
    let mut t = [0u8; N];
    let mut x = [0u8; N];
    let mut i = 0;
    while i < N {
        t[i] = any_sq8();
        x[i] = any_opiece8();
        p.piece_set(sq(t[i]), opiece(x[i]));
        i += 1;
    }
    let c = any_color8();
    let k = 8 + 16 * (c - 1);
    let (mut n, mut at) = (0, 0);
    i = 0;
    while i < N {
        let mut last = true;
        let mut j = i + 1;
        while j < N {
            if t[j] == t[i] {
                last = false;
            }
            j += 1;
        }
        if last && x[i] == k {
            n += 1;
            at = t[i];
        }
        i += 1;
    }
    if n <= 1 {
        ck!(un_osq(p.king_position(color(c))) == at, "the king's square after any placements");
    }
    reach!(n == 1 && x[0] == k && x[1] == k && t[0] != t[1] && t[2] == t[1], "second king removed again");
    reach!(n == 0 && x[0] == k, "king removed");
}
