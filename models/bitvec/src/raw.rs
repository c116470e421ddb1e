//! The word storage.  Bit `i` of the sequence is bit `127 - i % 128` of word `i / 128`.

const fn parse(s: &str) -> usize {
    let b = s.as_bytes();
    let mut i = 0;
    let mut n = 0;
    while i < b.len() {
        n = n * 10 + (b[i] - b'0') as usize;
        i += 1;
    }
    n
}
/// Number of 128-bit words of every bit sequence of the model.
pub const WORDS: usize = match option_env!("BVM_WORDS") {
    Some(s) => parse(s),
    None => 4,
};
pub const CAP: usize = WORDS * 128;

#[derive(Clone, Copy)]
pub struct Store {
    pub w: [u128; WORDS],
}

#[inline(always)]
pub fn cap_check(bits: usize) {
    if bits > CAP {
        panic!("MODEL-CAP: bit sequence longer than the model's capacity");
    }
}


#[inline(always)]
fn sel(c: bool) -> u128 {
    0u128.wrapping_sub(c as u128)
}

impl Store {
    #[inline(always)]
    pub const fn zero() -> Self {
        Store { w: [0; WORDS] }
    }

    #[inline(always)]
    fn word(&self, k: usize) -> u128 {
        let mut r = 0;
        let mut i = 0;
        while i < WORDS {
            r |= self.w[i] & sel(i == k);
            i += 1;
        }
        r
    }

    /// Bits `off..off+n` as the low `n` bits of the result, first bit most significant.
    #[inline(always)]
    pub fn rd(&self, off: usize, n: usize) -> u128 {
        if n > 128 {
            panic!("MODEL-UNSUPPORTED: window > 128");
        }
        let w = off >> 7;
        let s = (off & 127) as u32;
        let mut hi = 0;
        let mut lo = 0;
        let mut i = 0;
        while i < WORDS {
            hi |= self.w[i] & sel(i == w);
            if i > 0 {
                lo |= self.w[i] & sel(i == w.wrapping_add(1));
            }
            i += 1;
        }
        let v = hi.wrapping_shl(s) | (lo >> 1).wrapping_shr(127 - s);
        v.wrapping_shr((128u32).wrapping_sub(n as u32) & 127) & sel(n != 0)
    }

    #[inline(always)]
    pub fn bit(&self, off: usize) -> bool {
        self.word(off >> 7).wrapping_shr(127 - (off & 127) as u32) & 1 == 1
    }

    /// The low `n` bits of `val` are stored at `off..off+n`.
    #[inline(always)]
    pub fn wr(&mut self, off: usize, n: usize, val: u128) {
        if n > 128 {
            panic!("MODEL-UNSUPPORTED: window > 128");
        }
        let w = off >> 7;
        let s = (off & 127) as u32;
        let sh = (128u32).wrapping_sub(n as u32) & 127;
        let z = sel(n != 0);
        let v = val.wrapping_shl(sh) & z;
        let m = u128::MAX.wrapping_shl(sh) & z;
        let (v0, m0) = (v.wrapping_shr(s), m.wrapping_shr(s));
        let (v1, m1) = ((v << 1).wrapping_shl(127 - s), (m << 1).wrapping_shl(127 - s));
        let mut i = 0;
        while i < WORDS {
            let a = sel(i == w);
            let mut vv = v0 & a;
            let mut mm = m0 & a;
            if i > 0 {
                let b = sel(i == w.wrapping_add(1));
                vv |= v1 & b;
                mm |= m1 & b;
            }
            self.w[i] = (self.w[i] & !mm) | vv;
            i += 1;
        }
    }

    /// Copy `n` bits of `src` starting at `so` to `self` starting at `d`.
    #[inline(always)]
    pub fn copy(&mut self, d: usize, src: &Store, so: usize, n: usize) {
        let mut done = 0;
        let mut i = 0;
        while i < WORDS {
            let left = n.wrapping_sub(done);
            let c = if left > 128 { 128 } else { left };
            let v = src.rd(so.wrapping_add(done), c);
            self.wr(d.wrapping_add(done), c, v);
            done = done.wrapping_add(c);
            if done == n {
                break;
            }
            i += 1;
        }
    }

    #[inline(always)]
    pub fn fill(&mut self, d: usize, n: usize, value: bool) {
        let v = sel(value);
        let mut done = 0;
        let mut i = 0;
        while i < WORDS {
            let left = n.wrapping_sub(done);
            let c = if left > 128 { 128 } else { left };
            self.wr(d.wrapping_add(done), c, v);
            done = done.wrapping_add(c);
            if done == n {
                break;
            }
            i += 1;
        }
    }
}
