use crate::model::*;
use crate::{ck, nd, reach};
use core::mem::{transmute, MaybeUninit};
use shogi_core::c_compat::*;
use shogi_core::*;

static EMPTY: Pos = Pos { side: 1, ply: 1, hands: [[0; 8]; 2], board: [0; 81], last: 0, ks: [0; 2] };

/// Every view shows the state at the probe.
pub fn all_views(p: &PartialPosition, s: &Pos, pr: Probe) -> bool {
    let c = color_of(pr.p);
    shows(p, s, pr) && views_agree(p, s.at(pr.q), pr) && un_osq(p.king_position(color(c))) == s.ks[c as usize - 1] && p.last_move().is_none() == (s.last == 0)
}

fn any_resolution() -> (u8, GameResolution) {
    let v = nd::u8();
    nd::assume(v >= 1 && v <= 5);
    (v, unsafe { transmute::<u8, GameResolution>(v) })
}
fn un_or(o: OptionGameResolution) -> u8 {
    unsafe { transmute::<OptionGameResolution, u8>(o) }
}
fn un_res(o: Option<GameResolution>) -> u8 {
    match o {
        None => 0,
        Some(r) => r as u8,
    }
}

crate::harnesses! {
    // --- C30 -----------------------------------------------------------------------------------------------------
    [C30 quick 90] fn c30_startpos() {
        let pr = any_probe();
        let p = PartialPosition::startpos();
        ck!(all_views(&p, &STARTPOS, pr), "the starting position is the one of shogi in every view");
        ck!(p.hand_of_a_player(Color::Black) == Hand::new() && p.hand_of_a_player(Color::White) == Hand::new(), "the hands are empty");
        ck!(p.piece_kind_bitboard(kind(kind_of(pr.p))).count() as usize == STANDARD[kind_of(pr.p) as usize - 1], "the starting position has the standard pieces");
        ck!(p.occupied_bitboard().count() == 40, "the starting position has forty pieces");
        reach!(pr.q == 81 && pr.p == 30, "reached");
        reach!(STARTPOS.at(pr.q) == pr.p, "occupied");
    }
    [C30 quick 90] fn c30_default() {
        let pr = any_probe();
        let p = PartialPosition::default();
        ck!(all_views(&p, &STARTPOS, pr), "the default position is the starting position in every view");
        ck!(p == PartialPosition::startpos(), "the default position equals the starting position");
        reach!(STARTPOS.at(pr.q) == pr.p, "occupied");
    }
    [C30 quick 90] fn c30_c() {
        let pr = any_probe();
        let mut buf = MaybeUninit::<PartialPosition>::uninit();
        PartialPosition::PartialPosition_startpos(&mut buf);
        let p = unsafe { buf.assume_init() };
        ck!(all_views(&p, &STARTPOS, pr), "the starting position made through the C interface is the one of shogi");
        reach!(STARTPOS.at(pr.q) == pr.p, "occupied");
    }
    [C30 quick 90] fn c30_empty() {
        let pr = any_probe();
        let p = PartialPosition::empty();
        ck!(all_views(&p, &EMPTY, pr), "the empty position is empty in every view");
        ck!(p.hand_of_a_player(Color::Black) == Hand::new() && p.hand_of_a_player(Color::White) == Hand::new(), "the hands are empty");
        ck!(p.occupied_bitboard().is_empty() && p.vacant_bitboard().count() == 81, "the empty position has no piece");
        reach!(pr.q == 81 && pr.p == 30, "reached");
    }
    [C30 quick 90] fn c30_full() {
        let pr = any_probe();
        let w = nd::below(3);
        let p = match w {
            0 => Position::startpos(),
            1 => Position::default(),
            _ => *unsafe { Box::from_raw(Position::Position_startpos()) },
        };
        ck!(all_views(p.inner(), &STARTPOS, pr) && all_views(p.initial_position(), &STARTPOS, pr), "a full starting position is the one of shogi");
        ck!(p.moves().is_empty(), "a full starting position has no moves");
        reach!(w == 0 && STARTPOS.at(pr.q) == pr.p, "startpos");
        reach!(w == 1, "default");
        reach!(w == 2, "C");
    }

    // --- C29 -----------------------------------------------------------------------------------------------------
    [C29 quick 90] fn c29_partial_game() {
        let pr = any_probe();
        let mut g = PartialGame::default();
        let mut e = 0;
        ck!(g.resolution().is_none() && un_or(g.PartialGame_resolution()) == 0, "a fresh game is unresolved");
        let mut i = 0;
        while i < 4 {
            if nd::bool() {
                let (v, r) = any_resolution();
                g.resolve(r);
                e = v;
            } else {
                g.unresolve();
                e = 0;
            }
            ck!(un_res(g.resolution()) == e, "the resolution is the one last given, or none after clearing");
            ck!(un_or(g.PartialGame_resolution()) == e, "the C view is the same resolution");
            i += 1;
        }
        ck!(all_views(g.position(), &STARTPOS, pr), "the position of a fresh game is the starting position, whatever the resolution");
        reach!(e == 5, "resolved");
        reach!(e == 0 && STARTPOS.at(pr.q) == pr.p, "unresolved");
    }
    [C29 quick 90] fn c29_game() {
        let pr = any_probe();
        let mut g = Game::default();
        let mut e = 0;
        ck!(g.resolution().is_none() && un_or(g.Game_resolution()) == 0, "a fresh game is unresolved");
        let mut i = 0;
        while i < 4 {
            if nd::bool() {
                let (v, r) = any_resolution();
                g.resolve(r);
                e = v;
            } else {
                g.unresolve();
                e = 0;
            }
            ck!(un_res(g.resolution()) == e, "the resolution is the one last given, or none after clearing");
            ck!(un_or(g.Game_resolution()) == e, "the C view is the same resolution");
            i += 1;
        }
        ck!(all_views(g.position().inner(), &STARTPOS, pr), "the position of a fresh game is the starting position, whatever the resolution");
        ck!(all_views(g.position().initial_position(), &STARTPOS, pr) && g.position().moves().is_empty(), "the history of a fresh game is empty, whatever the resolution");
        reach!(e == 5, "resolved");
        reach!(e == 0 && STARTPOS.at(pr.q) == pr.p, "unresolved");
    }
}

/// How many pieces of each kind a set has.
const STANDARD: [usize; 14] = [18, 4, 4, 4, 4, 2, 2, 2, 0, 0, 0, 0, 0, 0];
