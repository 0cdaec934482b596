//! Equality, ordering and hashing.
use crate::model::*;
use crate::{ck, nd, reach};
use core::cmp::Ordering;
use core::hash::{Hash, Hasher};
use core::mem::transmute;
use shogi_core::c_compat::*;
use shogi_core::*;

/// What a hasher is fed: the number of calls and bytes, and the byte at an arbitrary place.
struct Fed {
    k: usize,
    at: u8,
    n: usize,
    calls: usize,
}
impl Hasher for Fed {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        self.calls += 1;
        let mut i = 0;
        while i < b.len() {
            if self.n == self.k {
                self.at = b[i];
            }
            self.n += 1;
            i += 1;
        }
    }
    // (the default of each is `write` of its bytes; spelled out to spare the loops)
    fn write_u8(&mut self, b: u8) {
        self.calls += 1;
        if self.n == self.k {
            self.at = b;
        }
        self.n += 1;
    }
    fn write_u16(&mut self, v: u16) {
        self.fixed(v as u128, 2)
    }
    fn write_u32(&mut self, v: u32) {
        self.fixed(v as u128, 4)
    }
    fn write_u64(&mut self, v: u64) {
        self.fixed(v as u128, 8)
    }
    fn write_u128(&mut self, v: u128) {
        self.fixed(v, 16)
    }
    fn write_usize(&mut self, v: usize) {
        self.fixed(v as u128, 8)
    }
}
impl Fed {
    fn fixed(&mut self, v: u128, w: usize) {
        self.calls += 1;
        if self.n <= self.k && self.k < self.n + w {
            self.at = (v >> (8 * (self.k - self.n))) as u8;
        }
        self.n += w;
    }
}
fn fed<T: Hash>(x: &T, k: usize) -> (usize, usize, u8) {
    let mut h = Fed { k, at: 0, n: 0, calls: 0 };
    x.hash(&mut h);
    (h.calls, h.n, h.at)
}

fn pair<T: Ord + Hash>(a: &T, b: &T, k: usize) {
    let o = a.cmp(b);
    ck!(a.partial_cmp(b) == Some(o), "partial and total comparison agree");
    ck!((a == b) == (o == Ordering::Equal), "values compare as equal exactly when they are equal");
    ck!((a != b) == (o != Ordering::Equal), "unequal is the opposite of equal");
    ck!(b.cmp(a) == o.reverse(), "comparison is antisymmetric");
    ck!((a < b) == (o == Ordering::Less) && (a > b) == (o == Ordering::Greater), "the operators agree with the comparison");
    ck!((a <= b) == (o != Ordering::Greater) && (a >= b) == (o != Ordering::Less), "the operators agree with the comparison");
    if a == b {
        ck!(fed(a, k) == fed(b, k), "equal values feed a hasher identically");
    }
}
/// The laws in few comparisons, for values that are costly to compare.
fn light<T: Ord>(a: &T, b: &T) {
    let o = a.cmp(b);
    ck!((a == b) == (o == Ordering::Equal), "values compare as equal exactly when they are equal");
    ck!(a.partial_cmp(b) == Some(o), "partial and total comparison agree");
    ck!(b.cmp(a) == o.reverse(), "comparison is antisymmetric");
}
fn transitive<T: Ord>(a: &T, b: &T, c: &T) {
    if a.cmp(b) != Ordering::Greater && b.cmp(c) != Ordering::Greater {
        ck!(a.cmp(c) != Ordering::Greater, "comparison is transitive");
    }
}
fn laws<T: Ord + Hash + Clone>(a: T, b: T, c: T) {
    let k = nd::u8() as usize;
    pair(&a, &b, k);
    transitive(&a, &b, &c);
    ck!(a.cmp(&a) == Ordering::Equal && a.clone() == a, "a clone equals its original");
}
/// What tells values apart (as given by a key) tells them apart as values.
fn keyed<T: PartialEq, K: PartialEq>(a: &T, b: &T, ka: K, kb: K) {
    ck!((a == b) == (ka == kb), "values are equal exactly when they represent the same");
}

macro_rules! triple {
    ($make:expr) => {{
        let (ka, a) = $make;
        let (kb, b) = $make;
        let (_, c) = $make;
        keyed(&a, &b, ka, kb);
        laws(a, b, c);
        reach!(ka == kb, "equal");
        reach!(ka != kb, "different");
    }};
}
fn upto(lo: u8, hi: u8) -> u8 {
    let v = nd::u8();
    nd::assume(v >= lo && v <= hi);
    v
}

crate::harnesses! {
    [C23 quick 90] fn c23_bitboard() { triple!({ let m = any_mask(); (m, bb(m)) }) }
    [C23 quick 90] fn c23_swapped() { triple!({ let m = any_mask(); (m, bb(m).swap_bytes()) }) }
    [C23 quick 20] fn c23_color() { triple!({ let v = any_color8(); (v, color(v)) }) }
    [C23 quick 20] fn c23_square() { triple!({ let v = any_sq8(); (v, sq(v)) }) }
    [C23 quick 20] fn c23_option_square() { triple!({ let v = upto(0, 81); (v, unsafe { transmute::<u8, OptionSquare>(v) }) }) }
    [C23 quick 20] fn c23_kind() { triple!({ let v = any_kind8(); (v, kind(v)) }) }
    [C23 quick 20] fn c23_piece() { triple!({ let v = any_piece8(); (v, piece(v)) }) }
    [C23 quick 20] fn c23_option_piece() { triple!({ let v = any_opiece8(); (v, unsafe { transmute::<u8, OptionPiece>(v) }) }) }
    [C23 quick 20] fn c23_hand() { triple!({ let h = any_hand8(); (h, hand(h)) }) }
    [C23 quick 20] fn c23_move() { triple!({ let m = any_mv(); (m, mv(m)) }) }
    [C23 quick 20] fn c23_compact_move() { triple!({ let m = any_mv(); (m, cmv(m)) }) }
    [C23 quick 20] fn c23_option_compact_move() {
        triple!({ let m = any_mv(); let v = if nd::bool() { mv16(m) } else { 0 }; (v, unsafe { transmute::<u16, OptionCompactMove>(v) }) })
    }
    [C23 quick 20] fn c23_resolution() { triple!({ let v = upto(1, 5); (v, unsafe { transmute::<u8, GameResolution>(v) }) }) }
    [C23 quick 20] fn c23_option_resolution() { triple!({ let v = upto(0, 5); (v, unsafe { transmute::<u8, OptionGameResolution>(v) }) }) }
    [C23 quick 20] fn c23_illegal() { triple!({ let v = upto(1, 7); (v, unsafe { transmute::<u8, IllegalMoveKind>(v) }) }) }
    [C23 quick 20] fn c23_result() { triple!({ let v = upto(0, 7); (v, unsafe { transmute::<u8, ResultUnitIllegalMoveKind>(v) }) }) }
    [C23 quick 20] fn c23_status() { triple!({ let v = upto(1, 5); (v, unsafe { transmute::<u32, PositionStatus>(v as u32) }) }) }

    // --- positions -------------------------------------------------------------------------------------------------
    [C23 quick 90] fn c23_position_pair() {
        // two positions with any data but for the board, which differs in three arbitrary squares
        let (s, t) = (few(), few());
        let (p, q) = (build(&s), build(&t));
        let same = s.side == t.side && s.ply == t.ply && s.hands == t.hands && s.last == t.last && s.board == t.board;
        ck!((p == q) == same, "positions are equal exactly when side, ply, hands, board and last move are");
        let o = p.cmp(&q);
        ck!(same == (o == Ordering::Equal), "positions compare as equal exactly when they are equal");
        ck!(q.cmp(&p) == o.reverse(), "comparison is antisymmetric");
        ck!(p.partial_cmp(&q) == Some(o), "partial and total comparison agree");
        reach!(same, "equal");
        reach!(!same, "different");
    }
    [C23 quick 90 debug] fn c23_position_hash() {
        // equal positions, one of which has a history
        let s = any_pos(Kings::Any);
        let (p, mut q) = (build(&s), build(&s));
        let k = nd::u8() as usize;
        q.piece_set(sq(1), opiece(s.board[0]));
        ck!(fed(&p, k) == fed(&q, k), "equal positions feed a hasher identically");
        reach!(k == 100 && s.board[0] == 8, "reached");
    }
    [C23 thorough 90 debug] fn c23_position_operators() {
        let (s, t) = (STARTPOS, few());
        let (p, q) = (build(&s), build(&t));
        pair(&p, &q, nd::u8() as usize);
        reach!(p < q, "less");
        reach!(p > q, "greater");
        reach!(p == q, "equal");
    }
    [C23 quick 90 debug] fn c23_full_position() {
        // full positions differ by their initial positions, current positions or moves
        let ((a, x), (b, y)) = (full(), fixed());
        ck!((x == y) == (a == b), "full positions are equal exactly when their initial position and moves are");
        reach!(a == b, "equal");
        reach!(a.0 == b.0 && a.1 == b.1 && a.2 != b.2, "different moves");
    }
    [C23 thorough 90 debug] fn c23_full_position_pair() {
        let ((a, x), (b, y)) = (full(), full());
        ck!((x == y) == (a == b), "full positions are equal exactly when their initial position and moves are");
        reach!(a == b && a.2 == 2, "equal");
        reach!(a.0 == b.0 && a.1 == b.1 && a.2 != b.2, "different moves");
    }
    [C23 thorough 90 debug] fn c23_full_position_order() {
        let ((a, x), (b, y)) = (full(), full());
        ck!((x.cmp(&y) == Ordering::Equal) == (a == b), "full positions compare as equal exactly when they are equal");
        reach!(a == b && a.2 == 2, "equal");
        reach!(a.0 == b.0 && a.1 == b.1 && a.2 != b.2, "different moves");
    }
    [C23 quick 90 debug] fn c23_partial_game() {
        let ((a, x), (b, y)) = (partial_game(), partial_game());
        keyed(&x, &y, a, b);
        light(&x, &y);
        reach!(a == b && a == 5, "equal");
        reach!(a != b, "different");
    }
    [C23 quick 90 debug] fn c23_partial_game_hash() {
        let ((a, x), (b, y)) = (partial_game(), partial_game());
        let k = nd::u8() as usize;
        if a == b {
            ck!(fed(&x, k) == fed(&y, k), "equal values feed a hasher identically");
        }
        reach!(a == b && a == 5 && k == 120, "equal");
    }
    [C23 quick 90 debug] fn c23_game() {
        let ((a, x), (b, y)) = (game(), game());
        ck!((x == y) == (a == b), "games are equal exactly when position and resolution are");
        reach!(a == b && a == 5, "equal");
        reach!(a != b, "different");
    }
    [C23 quick 90 debug] fn c23_game_order() {
        let ((a, x), (b, y)) = (game(), game());
        ck!((x.cmp(&y) == Ordering::Equal) == (a == b), "games compare as equal exactly when they are equal");
        reach!(a == b && a == 5, "equal");
        reach!(a != b, "different");
    }
    [C23 quick 90] fn c23_position_triple() {
        let (p, q, r) = (build(&few()), build(&few()), build(&few()));
        transitive(&p, &q, &r);
        reach!(p < q && q < r, "ordered");
        reach!(p > q, "reversed");
    }
    [C23 quick 90] fn c23_position_clone() {
        let s = any_pos(Kings::Any);
        let pr = any_probe();
        let p = build(&s);
        let q = p.clone();
        ck!(p == q, "a clone equals its original");
        ck!(shows(&q, &s, pr) && views_agree(&q, s.at(pr.q), pr), "a clone shows what its original shows");
        reach!(s.at(pr.q) == pr.p, "reached");
    }
    [C23 quick 90 debug] fn c23_position_reached() {
        // by a move, or put together
        let s = any_pos(Kings::AtMostOne);
        let m = any_mv();
        let mut p = build(&s);
        nd::assume(s.accepts(m));
        let ok = p.make_move(mv(m)).is_some();
        let q = build(&s.after(m));
        ck!(!ok || p == q, "positions are equal however they were reached");
        reach!(ok && m.drop, "drop");
        reach!(ok && !m.drop && s.at(m.to) != 0, "capture");
    }
}

fn few() -> Pos {
    let mut s = STARTPOS;
    s.side = any_color8();
    s.ply = nd::u16();
    s.hands = [any_hand8(), any_hand8()];
    let m = any_mv();
    s.last = if nd::bool() { mv16(m) } else { 0 };
    nd::assume(s.last != 0 || s.ply != 0);
    // not kings, whose squares would have to follow
    let (x, y, z) = (any_opiece8(), any_opiece8(), any_opiece8());
    nd::assume(kind_of(x) != 8 && kind_of(y) != 8 && kind_of(z) != 8);
    (s.board[0], s.board[62], s.board[80]) = (x, y, z);
    s
}

/// A full position: its ply, whether a pawn is in hand, and which move has been played.
fn full() -> ((u16, bool, u8), Position) {
    let (ply, pawn, m) = (nd::u16(), nd::bool(), nd::below(3));
    nd::assume(ply != 0);
    let mut s = STARTPOS;
    s.ply = ply;
    s.hands[0][0] = pawn as u8;
    let mut p = Position::arbitrary_position(build(&s));
    let (f, t) = if m == 1 { (61, 60) } else { (7, 6) };
    if m != 0 {
        ck!(p.make_move(Move::Normal { from: sq(f), to: sq(t), promote: false }).is_some(), "a pawn advances");
    }
    ((ply, pawn, m), p)
}

fn fixed() -> ((u16, bool, u8), Position) {
    let mut p = Position::arbitrary_position(build(&STARTPOS));
    ck!(p.make_move(Move::Normal { from: sq(61), to: sq(60), promote: false }).is_some(), "a pawn advances");
    ((1, false, 1), p)
}

fn partial_game() -> (u8, PartialGame) {
    let mut g = PartialGame::default();
    let v = upto(0, 5);
    if v != 0 {
        g.resolve(unsafe { transmute::<u8, GameResolution>(v) });
    }
    (v, g)
}
fn game() -> (u8, Game) {
    let mut g = Game::default();
    let v = upto(0, 5);
    if v != 0 {
        g.resolve(unsafe { transmute::<u8, GameResolution>(v) });
    }
    (v, g)
}
