//! Nondeterministic inputs.  Under Kani every call is a fresh symbolic variable; natively the
//! values of a solver counterexample are read back in the order in which they were created.

#[cfg(not(kani))]
pub mod tape {
    use std::cell::RefCell;
    thread_local!(pub static TAPE: RefCell<(Vec<u128>, usize)> = RefCell::new((Vec::new(), 0)));
    pub fn set(v: Vec<u128>) {
        TAPE.with(|t| *t.borrow_mut() = (v, 0));
    }
    pub fn next() -> u128 {
        TAPE.with(|t| {
            let mut t = t.borrow_mut();
            let i = t.1;
            t.1 += 1;
            // Inputs the solver left out of the trace are irrelevant to the violation.
            t.0.get(i).copied().unwrap_or(0)
        })
    }
}

macro_rules! prim {
    ($($n:ident: $t:ty),*) => {$(
        #[inline(always)]
        pub fn $n() -> $t {
            #[cfg(kani)]
            { kani::any::<$t>() }
            #[cfg(not(kani))]
            { tape::next() as $t }
        }
    )*};
}
prim!(u8: u8, u16: u16, u32: u32, u64: u64, u128: u128, usize: usize, i8: i8, i16: i16, i32: i32, i64: i64, i128: i128);

#[inline(always)]
pub fn bool() -> bool {
    u8() & 1 == 1
}

#[inline(always)]
pub fn bytes<const N: usize>() -> [u8; N] {
    let mut a = [0u8; N];
    let mut i = 0;
    while i < N {
        a[i] = u8();
        i += 1;
    }
    a
}

/// A value in `0..=max`.
#[inline(always)]
pub fn upto(max: usize) -> usize {
    let v = usize();
    assume(v <= max);
    v
}

#[inline(always)]
pub fn between(lo: i128, hi: i128) -> i128 {
    let v = i128();
    assume(v >= lo && v <= hi);
    v
}

#[inline(always)]
pub fn assume(c: bool) {
    #[cfg(kani)]
    kani::assume(c);
    #[cfg(not(kani))]
    if !c {
        println!("REPLAY: assumption not met");
        std::process::exit(3);
    }
}

#[macro_export]
macro_rules! cover {
    ($c:expr, $m:literal) => {{
        #[cfg(kani)]
        kani::cover!($c, $m);
        #[cfg(not(kani))]
        {
            let _ = &$c;
        }
    }};
}
