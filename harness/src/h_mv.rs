use crate::model::*;
use crate::{ck, reach};
use core::convert::From;
use shogi_core::c_compat::*;
use shogi_core::*;

crate::harnesses! {
    [C09 quick 40] fn c09_roundtrip() {
        let m = any_mv();
        let a = mv(m);
        let c = <CompactMove as From<Move>>::from(a);
        ck!(un_cmv(c) == mv16(m), "the compact form has the documented bits");
        ck!(<Move as From<CompactMove>>::from(c) == a, "converting to compact form and back is the identity");
        let b = <Move as From<CompactMove>>::from(cmv(m));
        ck!(b == a, "the documented bits convert to the move");
        ck!(<CompactMove as From<Move>>::from(b) == cmv(m), "converting from compact form and back is the identity");
        reach!(m.drop && m.piece == 30 && m.to == 81, "drop");
        reach!(!m.drop && m.promote && m.from == 81, "normal");
    }
    [C09 quick 40] fn c09_injective() {
        let (m, k) = (any_mv(), any_mv());
        let (a, b) = (mv(m), mv(k));
        ck!((a == b) == (m == k), "moves are equal exactly when their parts are");
        ck!((<CompactMove as From<Move>>::from(a) == <CompactMove as From<Move>>::from(b)) == (m == k), "distinct moves have distinct compact forms");
        reach!(m == k, "equal");
        reach!(m != k && m.to == k.to && m.drop != k.drop, "different");
    }
    [C09 quick 40] fn c09_accessors() {
        let m = any_mv();
        let a = mv(m);
        let c = cmv(m);
        ck!(un_osq(a.from()) == m.from && un_osq(c.from()) == m.from, "origin");
        ck!(un_sq(a.to()) == m.to && un_sq(c.to()) == m.to, "destination");
        ck!(a.is_promoting() == m.promote && c.is_promoting() == m.promote, "promotion flag");
        ck!(a.is_drop() == m.drop && c.is_drop() == m.drop, "drop flag");
        reach!(m.drop, "drop");
        reach!(!m.drop && m.promote, "normal");
    }
    [C09 quick 40] fn c09_constructors() {
        let m = any_mv();
        let c = if m.drop {
            CompactMove::drop(piece(m.piece), sq(m.to))
        } else {
            CompactMove::normal(sq(m.from), sq(m.to), m.promote)
        };
        ck!(un_cmv(c) == mv16(m), "constructors build the documented bits");
        ck!(c == <CompactMove as From<Move>>::from(mv(m)), "constructors agree with conversion");
        reach!(m.drop, "drop");
        reach!(!m.drop, "normal");
    }
    [C10 quick 40] fn c10_compact_move() {
        let m = any_mv();
        let some = <OptionCompactMove as From<Option<CompactMove>>>::from(Some(cmv(m)));
        ck!(unsafe { core::mem::transmute::<OptionCompactMove, u16>(some) } == mv16(m), "an optional move is the move's bits");
        ck!(<Option<CompactMove>>::from(some) == Some(cmv(m)), "optional move round trip");
        let none = <OptionCompactMove as From<Option<CompactMove>>>::from(None);
        ck!(unsafe { core::mem::transmute::<OptionCompactMove, u16>(none) } == 0, "no move is zero");
        ck!(<Option<CompactMove>>::from(none) == None, "no move round trip");
        ck!(<Option<CompactMove>>::from(OptionCompactMove::default()) == None, "the default is no move");
        ck!(some != none && some == <OptionCompactMove as From<Option<CompactMove>>>::from(Some(cmv(m))), "equality of optional moves");
        reach!(m.drop, "drop");
    }
}
