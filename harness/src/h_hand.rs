use crate::model::*;
use crate::{ck, nd, reach};
use shogi_core::*;

fn cnt(h: &[u8; 8], k: u8) -> Option<u8> {
    if k <= 7 {
        Some(h[k as usize - 1])
    } else {
        None
    }
}

crate::harnesses! {
    [C08 quick 40] fn c08_step() {
        let h0 = any_hand8();
        let (k, p) = (any_kind8(), any_kind8());
        let h = hand(h0);
        ck!(h.count(kind(p)) == cnt(&h0, p), "count reads the counter, and refuses kinds that cannot be held");
        let a = h.added(kind(k));
        ck!(a.is_some() == (k <= 7), "adding is refused exactly for kinds that cannot be held");
        if let Some(a) = a {
            let mut e = h0;
            e[k as usize - 1] = e[k as usize - 1].wrapping_add(1);
            ck!(a.count(kind(p)) == cnt(&e, p), "adding raises exactly one counter by one");
            ck!(a == hand(e), "adding yields exactly the new hand");
            ck!(a.removed(kind(k)) == Some(h) || h0[k as usize - 1] == 255, "removing undoes adding");
        }
        let r = h.removed(kind(k));
        ck!(r.is_some() == (k <= 7 && h0[if k <= 7 { k as usize - 1 } else { 7 }] > 0), "removing is refused exactly when nothing is there");
        if let Some(r) = r {
            let mut e = h0;
            e[k as usize - 1] -= 1;
            ck!(r.count(kind(p)) == cnt(&e, p), "removing lowers exactly one counter by one");
            ck!(r == hand(e), "removing yields exactly the new hand");
        }
        reach!(k == 7 && h0[6] == 255, "maximum");
        reach!(k == 1 && h0[0] == 0, "minimum");
        reach!(k == 8, "king");
        reach!(k == 14, "promoted");
    }
    [C08 quick 40] fn c08_in_place() {
        let h0 = any_hand8();
        let (k, p) = (any_kind8(), any_kind8());
        let h = hand(h0);
        let mut a = h;
        let ok = a.Hand_add(kind(k));
        ck!(ok == (k <= 7), "in-place adding is refused exactly for kinds that cannot be held");
        let mut e = h0;
        if ok {
            e[k as usize - 1] = e[k as usize - 1].wrapping_add(1);
        }
        ck!(a == hand(e) && a.count(kind(p)) == cnt(&e, p), "in-place adding changes exactly one counter, or nothing when refused");
        let mut r = h;
        let ok = r.Hand_remove(kind(k));
        let i = if k <= 7 { k as usize - 1 } else { 7 };
        ck!(ok == (k <= 7 && h0[i] > 0), "in-place removing is refused exactly when nothing is there");
        let mut e = h0;
        if ok {
            e[i] -= 1;
        }
        ck!(r == hand(e) && r.count(kind(p)) == cnt(&e, p), "in-place removing changes exactly one counter, or nothing when refused");
        ck!(h.Hand_count(kind(p)) == match cnt(&h0, p) { Some(n) => n, None => 0 }, "C count");
        reach!(!ok, "refused");
        reach!(ok, "done");
    }
    [C08 quick 40] fn c08_equality() {
        let (a, b) = (any_hand8(), any_hand8());
        let mut eq = true;
        let mut i = 0;
        while i < 7 {
            eq &= a[i] == b[i];
            i += 1;
        }
        ck!((hand(a) == hand(b)) == eq, "hands are equal exactly when all counters are");
        ck!((hand(a) != hand(b)) == !eq, "hands differ exactly when a counter does");
        reach!(eq, "equal");
        reach!(!eq && a[0] == b[0], "different");
    }
    [C08 quick 40] fn c08_new_and_kinds() {
        let k = any_kind8();
        ck!(Hand::new().count(kind(k)) == cnt(&[0; 8], k), "a new hand is empty");
        ck!(Hand::new() == Hand::default() && Hand::new() == hand([0; 8]), "a new hand is the default hand");
        ck!(Hand::is_hand_piece(kind(k)) == (k <= 7), "the kinds that can be held");
        let mut n = 0usize;
        let mut hits = 0;
        for x in Hand::all_hand_pieces() {
            n += 1;
            if x as u8 == k {
                hits += 1;
                ck!(n == k as usize, "hand kinds are enumerated in order");
            }
        }
        ck!(n == Hand::NUM_HAND_PIECES && n == 7, "there are seven hand kinds");
        ck!(hits == if k <= 7 { 1 } else { 0 }, "hand kinds are enumerated once each");
        reach!(k == 7, "rook");
        reach!(k == 8, "king");
    }
    [C08 quick 40] fn c08_history() {
        // three operations from an arbitrary hand against the model
        let mut m = any_hand8();
        let mut h = hand(m);
        let mut i = 0;
        let mut refused = 0;
        while i < 3 {
            let k = any_kind8();
            let add = nd::bool();
            let r = if add { h.added(kind(k)) } else { h.removed(kind(k)) };
            match r {
                Some(n) => {
                    ck!(k <= 7, "only hand kinds are accepted");
                    let j = k as usize - 1;
                    ck!(add || m[j] > 0, "nothing is removed from zero");
                    m[j] = if add { m[j].wrapping_add(1) } else { m[j].wrapping_sub(1) };
                    h = n;
                }
                None => {
                    refused += 1;
                    ck!(k > 7 || (!add && m[k as usize - 1] == 0), "refused only as documented");
                }
            }
            i += 1;
        }
        let p = any_kind8();
        ck!(h.count(kind(p)) == cnt(&m, p), "the hand is what the operations make it");
        reach!(refused == 1, "reached");
    }
}
