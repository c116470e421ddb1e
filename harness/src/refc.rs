//! Reference encoder, written from X.691 (ALIGNED variant), independent of hampi.
//! A message is a left-aligned bit string of at most 256 bits.

#[derive(Clone, Copy)]
pub struct R {
    pub v: [u128; 2],
    pub n: usize,
}

pub fn width(x: u128) -> usize {
    (128 - x.leading_zeros()) as usize
}
pub fn octets(x: u128) -> usize {
    let w = width(x);
    if w == 0 {
        1
    } else {
        (w + 7) / 8
    }
}
/// Minimal octets of a two's-complement value.
pub fn octets_signed(x: i128) -> usize {
    let m = if x < 0 { !x } else { x } as u128;
    width(m) / 8 + 1
}

impl R {
    pub fn new() -> R {
        R { v: [0, 0], n: 0 }
    }
    /// Append the low `k` bits of `x` (k <= 128).
    pub fn put(&mut self, x: u128, k: usize) {
        if k == 0 {
            return;
        }
        let x = x << (128 - k) as u32; // left aligned
        let s = self.n;
        if s < 128 {
            self.v[0] |= x >> s as u32;
            if s > 0 {
                self.v[1] |= x << (128 - s) as u32;
            }
        } else {
            self.v[1] |= x >> (s - 128) as u32;
        }
        self.n += k;
    }
    pub fn align(&mut self) {
        self.n = (self.n + 7) & !7;
    }
    pub fn byte(&self, i: usize) -> u8 {
        let w = if i < 16 { self.v[0] } else { self.v[1] };
        (w >> ((15 - (i & 15)) * 8) as u32) as u8
    }
    pub fn len_bytes(&self) -> usize {
        (self.n + 7) / 8
    }
    /// 11.5: constrained whole number.
    pub fn constrained(&mut self, lb: i128, ub: i128, v: i128) {
        let span = (ub - lb) as u128; // range - 1
        let d = (v - lb) as u128;
        if span < 255 {
            self.put(d, width(span));
        } else if span == 255 {
            self.align();
            self.put(d, 8);
        } else if span < 65536 {
            self.align();
            self.put(d, 16);
        } else {
            // 11.5.7.4 and 13.2.6 a): length constrained to 1..octets(span)
            let m = octets(span);
            let k = octets(d);
            self.put((k - 1) as u128, width((m - 1) as u128));
            self.align();
            self.put(d, 8 * k);
        }
    }
    /// 11.9.3.6 / 11.9.3.7
    pub fn length(&mut self, n: usize) {
        self.align();
        if n < 128 {
            self.put(n as u128, 8);
        } else {
            self.put(0x8000 | n as u128, 16);
        }
    }
    pub fn semi(&mut self, lb: i128, v: i128) {
        let d = (v - lb) as u128;
        let k = octets(d);
        self.length(k);
        self.put(d, 8 * k);
    }
    pub fn unconstrained(&mut self, v: i128) {
        let k = octets_signed(v);
        self.length(k);
        self.put(v as u128 & mask(8 * k), 8 * k);
    }
    /// Constrained or unconstrained length determinant (11.9).
    pub fn len_det(&mut self, lb: usize, ub: Option<usize>, n: usize) {
        match ub {
            Some(u) if u < 65536 => {
                if lb != u {
                    self.constrained(lb as i128, u as i128, n as i128)
                }
            }
            _ => self.length(n),
        }
    }
    /// 11.6
    pub fn normally_small(&mut self, v: u128) {
        if v < 64 {
            self.put(v, 7)
        } else {
            self.put(1, 1);
            self.semi(0, v as i128)
        }
    }
}

impl R {
    pub fn bit(&mut self, b: bool) {
        self.put(b as u128, 1)
    }
    /// A string of `n` units of `w` bits (17, 16, 30): `fixmax` is the largest fixed size in units
    /// that is not octet-aligned, `varmin` the smallest variable upper bound that is.
    pub fn string_head(&mut self, ext: bool, lb: usize, ub: Option<usize>, n: usize, fixmax: usize, varmin: usize) {
        if ext {
            self.put(0, 1);
        }
        self.len_det(lb, ub, n);
        if n > 0 {
            let a = match ub {
                Some(u) if u == lb => u > fixmax,
                Some(u) => u >= varmin,
                None => true,
            };
            if a {
                self.align();
            }
        }
    }
    pub fn octets<const N: usize>(&mut self, b: &[u8; N], n: usize) {
        let mut i = 0;
        while i < N {
            if i < n {
                self.put(b[i] as u128, 8);
            }
            i += 1;
        }
    }
    /// The message as an octet array; bits beyond `n` are those of `tail`.
    pub fn bytes<const N: usize>(&self) -> [u8; N] {
        let mut a = [0u8; N];
        let mut i = 0;
        while i < N {
            a[i] = self.byte(i);
            i += 1;
        }
        a
    }
}

pub fn mask(k: usize) -> u128 {
    if k >= 128 {
        u128::MAX
    } else {
        (1 << k as u32) - 1
    }
}

/// The bytes hampi produced are the reference message, zero-padded to a whole octet.
pub fn same(bytes: &[u8], r: &R, max: usize) -> bool {
    let n = r.len_bytes();
    if bytes.len() != n {
        return false;
    }
    let mut ok = true;
    let mut i = 0;
    while i < max {
        if i < n && bytes[i] != r.byte(i) {
            ok = false;
        }
        i += 1;
    }
    ok
}
