//! A reader of SFEN text, one byte at a time, that knows what the text has to say.
use crate::model::*;
use core::fmt::{Error, Result, Write};

const LETTERS: &[u8; 8] = b"PLNSGBRK";

/// f(0), .., f(n - 1) in loops of at most 16 rounds (n <= 256), which keeps the unwinding bound small.
#[inline(always)]
pub fn each(n: usize, mut f: impl FnMut(usize)) {
    let mut i = 0;
    while i < n {
        let mut j = 0;
        while j < 16 && i < n {
            f(i);
            i += 1;
            j += 1;
        }
    }
}

/// Every byte of one write.  Writes of more than four bytes are taken apart only with the feature `wide`
/// (the runner turns it on when they occur), to keep the loop short.
#[inline(always)]
fn chunk(s: &str, mut f: impl FnMut(u8)) {
    let b = s.as_bytes();
    let n = b.len();
    if cfg!(any(not(kani), feature = "wide")) {
        let mut i = 0;
        while i < n {
            f(b[i]);
            i += 1;
        }
    } else {
        assert!(n <= 4, "WIDE: a write has more than four bytes");
        if n >= 1 {
            f(b[0]);
        }
        if n >= 2 {
            f(b[1]);
        }
        if n >= 3 {
            f(b[2]);
        }
        if n >= 4 {
            f(b[3]);
        }
    }
}

/// Piece of a letter (1..=8 or 17..=24), or 0.
pub fn letter(c: u8) -> u8 {
    let mut k = 0;
    while k < 8 {
        if c == LETTERS[k] {
            return k as u8 + 1;
        }
        if c == LETTERS[k] + 32 {
            return k as u8 + 17;
        }
        k += 1;
    }
    0
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Field {
    Board,
    Side,
    AfterSide,
    Hands,
    Ply,
}

pub struct Reader {
    /// rows[rank - 1][9 - file]
    rows: [[u8; 9]; 9],
    /// number of empty squares from here to the end of the run in the row
    run: [[u8; 9]; 9],
    side: u8,
    hands: [[u8; 8]; 2],
    ply: u16,
    field: Field,
    row: usize,
    col: usize,
    /// squares of the row that the text has passed: characters so far and promoted pieces so far
    pub row_chars: usize,
    pub row_promoted: usize,
    plus: bool,
    after_digit: bool,
    num: u32,
    digits: u8,
    /// rank of the last hand letter in the order R B G S N L P r b g s n l p, plus one
    order: u8,
    dash: bool,
    got: [[u8; 8]; 2],
    /// every byte so far was right
    pub ok: bool,
    pub bytes: usize,
    /// refuse the write with this number (counted from zero)
    pub fail_at: usize,
    pub calls: usize,
    pub failed: bool,
    pub late: bool,
    pub check_board: bool,
}

impl Reader {
    pub fn new(s: &Pos) -> Reader {
        let mut rows = [[0u8; 9]; 9];
        let mut run = [[0u8; 9]; 9];
        let mut r = 0;
        while r < 9 {
            let mut n = 0;
            let mut c = 9;
            while c > 0 {
                c -= 1;
                let p = s.board[9 * (8 - c) + r];
                rows[r][c] = p;
                n = if p == 0 { n + 1 } else { 0 };
                run[r][c] = n;
            }
            r += 1;
        }
        Reader {
            rows,
            run,
            side: s.side,
            hands: s.hands,
            ply: s.ply,
            field: Field::Board,
            row: 0,
            col: 0,
            row_chars: 0,
            row_promoted: 0,
            plus: false,
            after_digit: false,
            num: 0,
            digits: 0,
            order: 0,
            dash: false,
            got: [[0; 8]; 2],
            ok: true,
            bytes: 0,
            fail_at: usize::MAX,
            calls: 0,
            failed: false,
            late: false,
            check_board: true,
        }
    }

    fn digit(&mut self, c: u8) -> bool {
        let d = c - b'0';
        let lead = self.digits == 0 && d == 0;
        self.num = self.num * 10 + d as u32;
        self.digits += 1;
        !lead && self.digits <= 5
    }

    fn board_byte(&mut self, c: u8) -> bool {
        self.row_chars += 1;
        let (r, k) = (self.row, self.col);
        if c >= b'1' && c <= b'9' {
            let good = !self.after_digit && !self.plus && k < 9 && self.run[r][if k < 9 { k } else { 0 }] == c - b'0';
            self.after_digit = true;
            self.col += (c - b'0') as usize;
            good && self.col <= 9
        } else if c == b'+' {
            let good = !self.plus;
            self.plus = true;
            self.row_promoted += 1;
            good
        } else if c == b'/' {
            let good = !self.plus && k == 9 && r < 8 && self.row_chars <= 10 + self.row_promoted;
            self.row += 1;
            self.col = 0;
            self.after_digit = false;
            self.row_chars = 0;
            self.row_promoted = 0;
            good
        } else if c == b' ' {
            self.field = Field::Side;
            !self.plus && k == 9 && r == 8 && self.row_chars <= 10 + self.row_promoted
        } else {
            let l = letter(c);
            let p = if self.plus { promote_kind(l & 15) + (l & 16) } else { l };
            let good = valid_piece(p) && k < 9 && self.rows[r][if k < 9 { k } else { 0 }] == p;
            self.plus = false;
            self.after_digit = false;
            self.col += 1;
            good
        }
    }

    fn hand_byte(&mut self, c: u8) -> bool {
        if c == b'-' {
            let good = self.order == 0 && self.digits == 0 && !self.dash;
            self.dash = true;
            good
        } else if c >= b'0' && c <= b'9' {
            self.digit(c) && !self.dash
        } else if c == b' ' {
            let good = self.digits == 0 && (self.dash != (self.order > 0));
            self.field = Field::Ply;
            good
        } else {
            let l = letter(c);
            let k = l & 15;
            if k == 0 || k > 7 {
                return false;
            }
            let o = (l >> 4) * 7 + (8 - k);
            let good = o > self.order && !self.dash && (self.digits == 0 || (self.num >= 2 && self.num <= 255));
            self.order = o;
            self.got[(l >> 4) as usize][k as usize - 1] = if self.digits == 0 { 1 } else { self.num as u8 };
            self.digits = 0;
            self.num = 0;
            good
        }
    }

    pub fn byte(&mut self, c: u8) {
        self.bytes += 1;
        let good = match self.field {
            Field::Board => {
                if self.check_board {
                    self.board_byte(c)
                } else {
                    if c == b' ' {
                        self.field = Field::Side;
                    }
                    true
                }
            }
            Field::Side => {
                self.field = Field::AfterSide;
                c == if self.side == 1 { b'b' } else { b'w' }
            }
            Field::AfterSide => {
                self.field = Field::Hands;
                c == b' '
            }
            Field::Hands => self.hand_byte(c),
            Field::Ply => {
                if self.ply == 0 {
                    self.digits += 1;
                    c == b'0' && self.digits == 1
                } else {
                    c >= b'0' && c <= b'9' && self.digit(c)
                }
            }
        };
        self.ok &= good;
    }

    /// Starts at the hands.
    pub fn at_hands(mut self) -> Reader {
        self.field = Field::Hands;
        self
    }
    /// The text so far is the whole text, if it began and ended with the hands.
    pub fn hands_complete(&mut self) -> bool {
        self.ok && self.field == Field::Hands && self.hand_byte(b' ') && self.got[0] == self.hands[0] && self.got[1] == self.hands[1]
    }
    /// The text so far is the whole text.
    pub fn complete(&self) -> bool {
        self.field == Field::Ply && self.digits > 0 && self.num == self.ply as u32 && self.got[0] == self.hands[0] && self.got[1] == self.hands[1]
    }
}

impl Write for Reader {
    fn write_str(&mut self, s: &str) -> Result {
        if self.failed {
            self.late = true;
            return Ok(());
        }
        if self.calls == self.fail_at {
            self.failed = true;
            return Err(Error);
        }
        self.calls += 1;
        chunk(s, |c| self.byte(c));
        Ok(())
    }
}

pub fn put_square(b: &mut Buf<8>, s: u8) {
    b.put(b'1' + (s - 1) / 9);
    b.put(b'a' + (s - 1) % 9);
}
pub fn put_kind(b: &mut Buf<8>, k: u8) {
    if k > 8 {
        b.put(b'+');
    }
    b.put(LETTERS[base_kind(k) as usize - 1]);
}
/// The documented token of a move.
pub fn put_move(b: &mut Buf<8>, m: Mv) {
    if m.drop {
        put_kind(b, kind_of(m.piece));
        b.put(b'*');
        put_square(b, m.to);
    } else {
        put_square(b, m.from);
        put_square(b, m.to);
        if m.promote {
            b.put(b'+');
        }
    }
}
pub fn put_piece(b: &mut Buf<8>, p: u8) {
    put_kind(b, kind_of(p));
    if color_of(p) == 2 {
        b.a[b.n - 1] += 32;
    }
}

/// A sink that keeps the text.
pub struct Buf<const N: usize> {
    pub a: [u8; N],
    pub n: usize,
    pub fail_at: usize,
    pub calls: usize,
    pub failed: bool,
    pub late: bool,
}
impl<const N: usize> Buf<N> {
    pub fn new() -> Self {
        Buf { a: [0; N], n: 0, fail_at: usize::MAX, calls: 0, failed: false, late: false }
    }
    pub fn put(&mut self, c: u8) {
        self.a[self.n] = c;
        self.n += 1;
    }
    pub fn is(&self, s: &[u8]) -> bool {
        self.n == s.len() && self.starts(s)
    }
    pub fn starts(&self, s: &[u8]) -> bool {
        let mut ok = true;
        each(N, |i| {
            if i < self.n && (i >= s.len() || s[i] != self.a[i]) {
                ok = false;
            }
        });
        ok
    }
    /// Is this text a prefix of the other?
    pub fn prefix_of(&self, o: &Buf<N>) -> bool {
        let mut ok = true;
        each(N, |i| {
            if i < self.n && (i >= o.n || o.a[i] != self.a[i]) {
                ok = false;
            }
        });
        ok
    }
    pub fn same(&self, o: &Buf<N>) -> bool {
        self.n == o.n && self.prefix_of(o)
    }
}
impl<const N: usize> Write for Buf<N> {
    fn write_str(&mut self, s: &str) -> Result {
        if self.failed {
            self.late = true;
            return Ok(());
        }
        if self.calls == self.fail_at {
            self.failed = true;
            return Err(Error);
        }
        self.calls += 1;
        chunk(s, |c| self.put(c));
        Ok(())
    }
}

/// The letters of the cells; promoted pieces have the letters of the unpromoted ones.
const CELL: &[u8; 32] = b"?PLNSGBRKPLNSBR??plnsgbrkplnsbr?";
/// A reader of the first field that looks at one (arbitrary) square, and at the form of all.
pub struct ProbeReader {
    rank: u8,
    col: u8,
    cell: u8,
    r: u8,
    c: u8,
    plus: bool,
    after_digit: bool,
    pub seen: bool,
    pub done: bool,
    pub ok: bool,
    pub fail_at: usize,
    pub calls: usize,
    pub failed: bool,
    pub late: bool,
}
impl ProbeReader {
    pub fn new(s: &Pos, q: u8) -> ProbeReader {
        ProbeReader { rank: (q - 1) % 9, col: 8 - (q - 1) / 9, cell: s.at(q), r: 0, c: 0, plus: false, after_digit: false, seen: false, done: false, ok: true, fail_at: usize::MAX, calls: 0, failed: false, late: false }
    }
    pub fn byte(&mut self, c: u8) {
        if self.done {
            return;
        }
        let here = self.r == self.rank;
        if c == b'/' || c == b' ' {
            self.ok &= !self.plus && self.c == 9 && (c == b' ') == (self.r == 8);
            self.done = c == b' ';
            self.r += 1;
            self.c = 0;
            self.after_digit = false;
        } else if c == b'+' {
            self.ok &= !self.plus;
            self.plus = true;
        } else if c >= b'1' && c <= b'9' {
            let e = self.c + (c - b'0');
            self.ok &= !self.after_digit && !self.plus && e <= 9;
            if here && self.c <= self.col && self.col < e {
                self.ok &= self.cell == 0 && !self.seen;
                self.seen = true;
            }
            self.c = e & 15;
            self.after_digit = true;
        } else {
            self.ok &= self.c < 9;
            if here && self.c == self.col {
                let x = self.cell as usize;
                self.ok &= c == CELL[x] && c != b'?' && self.plus == (x & 15 > 8) && !self.seen;
                self.seen = true;
            } else {
                let l = c & 0xdf;
                self.ok &= l == b'P' || l == b'L' || l == b'N' || l == b'S' || l == b'B' || l == b'R' || (!self.plus && (l == b'G' || l == b'K'));
            }
            self.c = (self.c + 1) & 15;
            self.plus = false;
            self.after_digit = false;
        }
    }
}
impl Write for ProbeReader {
    fn write_str(&mut self, s: &str) -> Result {
        if self.failed {
            self.late = true;
            return Ok(());
        }
        if self.fail_at != usize::MAX {
            if self.calls == self.fail_at {
                self.failed = true;
                return Err(Error);
            }
            self.calls += 1;
        }
        chunk(s, |c| self.byte(c));
        Ok(())
    }
}

/// A sink that counts.
pub struct Count {
    pub n: usize,
    /// bytes before the first space
    pub board: usize,
    space: bool,
}
impl Count {
    pub fn new() -> Count {
        Count { n: 0, board: 0, space: false }
    }
}
impl Write for Count {
    fn write_str(&mut self, s: &str) -> Result {
        chunk(s, |c| {
            self.space |= c == b' ';
            self.n += 1;
            self.board += !self.space as usize;
        });
        Ok(())
    }
}
