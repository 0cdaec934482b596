//! Nondeterministic values.  Under Kani they are symbolic; natively they are read from the values
//! of a counterexample, in the order in which Kani reports them.
#[cfg(kani)]
mod imp {
    macro_rules! prim { ($($t:ident),*) => { $(#[inline(always)] pub fn $t() -> $t { kani::any() })* } }
    prim!(u8, u16, u32, u64, u128, usize, i8, bool);
    #[inline(always)]
    pub fn assume(c: bool) {
        kani::assume(c)
    }
}

#[cfg(not(kani))]
mod imp {
    use std::cell::RefCell;
    use std::collections::VecDeque;
    thread_local!(static VALUES: RefCell<VecDeque<Vec<u8>>> = RefCell::new(VecDeque::new()));
    pub fn load(v: Vec<Vec<u8>>) {
        VALUES.with(|q| *q.borrow_mut() = v.into());
    }
    /// How many values a counterexample gave and the harness did not ask for.
    pub fn left() -> usize {
        VALUES.with(|q| q.borrow().len())
    }
    fn pop<const N: usize>() -> [u8; N] {
        VALUES.with(|q| match q.borrow_mut().pop_front() {
            None => [0; N],
            Some(v) => match v.try_into() {
                Ok(a) => a,
                Err(v) => {
                    eprintln!("replay: value {:?} where {} bytes were expected", v, N);
                    std::process::exit(4)
                }
            },
        })
    }
    macro_rules! prim { ($($t:ident),*) => { $(pub fn $t() -> $t { $t::from_le_bytes(pop()) })* } }
    prim!(u8, u16, u32, u64, u128, usize, i8);
    pub fn bool() -> bool {
        u8() & 1 == 1
    }
    pub fn assume(c: bool) {
        if !c {
            eprintln!("replay: the values do not meet an assumption of the harness");
            std::process::exit(3)
        }
    }
}
pub use imp::*;

pub fn bytes<const N: usize>() -> [u8; N] {
    let mut a = [0; N];
    let mut i = 0;
    while i < N {
        a[i] = u8();
        i += 1;
    }
    a
}

pub fn below(n: u8) -> u8 {
    let x = u8();
    assume(x < n);
    x
}
