use crate::order::BitOrder;
use crate::slice::BitSlice;
use crate::store::BitStore;
use crate::vec::BitVec;

pub trait Integral: Copy {
    const BITS: usize;
    const SIGNED: bool;
    fn from_u128(v: u128) -> Self;
    fn to_u128(self) -> u128;
}
macro_rules! int {
    ($($t:ty: $s:expr),*) => {$(
        impl Integral for $t {
            const BITS: usize = <$t>::BITS as usize;
            const SIGNED: bool = $s;
            fn from_u128(v: u128) -> Self { v as $t }
            fn to_u128(self) -> u128 { self as u128 }
        }
    )*};
}
int!(u8: false, u16: false, u32: false, u64: false, u128: false, usize: false,
     i8: true, i16: true, i32: true, i64: true, i128: true, isize: true);

pub trait BitField {
    fn load<I: Integral>(&self) -> I {
        self.load_le()
    }
    fn store<I: Integral>(&mut self, v: I) {
        self.store_le(v)
    }
    fn load_le<I: Integral>(&self) -> I;
    fn load_be<I: Integral>(&self) -> I;
    fn store_le<I: Integral>(&mut self, v: I);
    fn store_be<I: Integral>(&mut self, v: I);
}

fn sign<I: Integral>(v: u128, len: usize) -> I {
    if I::SIGNED && (v >> (len - 1)) & 1 == 1 {
        let ext = if len >= 128 { 0 } else { u128::MAX << len };
        I::from_u128(v | ext)
    } else {
        I::from_u128(v)
    }
}

impl<T: BitStore, O: BitOrder> BitSlice<T, O> {
    #[inline(always)]
    fn check<I: Integral>(&self) {
        if self.len() == 0 || self.len() > I::BITS {
            panic!("cannot load/store this number of bits");
        }
    }
    /// Value of a run of bits inside one element (order-independent: the element's integer value).
    #[inline(always)]
    fn piece(&self, at: usize, n: usize) -> u128 {
        let v = self.stream(at, n);
        if O::MSB || n == 0 {
            v
        } else {
            v.reverse_bits() >> (128 - n)
        }
    }
    fn put_piece(&mut self, at: usize, n: usize, v: u128) {
        if n == 0 {
            return;
        }
        let v = if n == 128 { v } else { v & ((1 << n) - 1) };
        let v = if O::MSB { v } else { v.reverse_bits() >> (128 - n) };
        let h = self.head();
        self.sm().wr(h + at, n, v);
    }
    #[inline(always)]
    fn first_run(&self) -> usize {
        let room = T::W - self.head() % T::W;
        if room < self.len() { room } else { self.len() }
    }
}

impl<T: BitStore, O: BitOrder> BitField for BitSlice<T, O> {
    #[inline(always)]
    fn load_be<I: Integral>(&self) -> I {
        self.check::<I>();
        if O::MSB {
            // big-endian elements, most significant bit first: the stream itself
            return sign(self.stream(0, self.len()), self.len());
        }
        let mut acc = 0u128;
        let mut at = 0;
        while at < self.len() {
            let n = if at == 0 {
                self.first_run()
            } else if self.len() - at < T::W {
                self.len() - at
            } else {
                T::W
            };
            acc = if n == 128 { 0 } else { acc << n } | self.piece(at, n);
            at += n;
        }
        sign(acc, self.len())
    }
    #[inline(always)]
    fn load_le<I: Integral>(&self) -> I {
        self.check::<I>();
        let mut acc = 0u128;
        let mut at = 0;
        while at < self.len() {
            let n = if at == 0 {
                self.first_run()
            } else if self.len() - at < T::W {
                self.len() - at
            } else {
                T::W
            };
            acc |= self.piece(at, n) << at;
            at += n;
        }
        sign(acc, self.len())
    }
    fn store_be<I: Integral>(&mut self, v: I) {
        self.check::<I>();
        let v = v.to_u128();
        let len = self.len();
        let mut at = 0;
        while at < len {
            let n = if at == 0 {
                self.first_run()
            } else if len - at < T::W {
                len - at
            } else {
                T::W
            };
            self.put_piece(at, n, v >> (len - at - n));
            at += n;
        }
    }
    fn store_le<I: Integral>(&mut self, v: I) {
        self.check::<I>();
        let v = v.to_u128();
        let len = self.len();
        let mut at = 0;
        while at < len {
            let n = if at == 0 {
                self.first_run()
            } else if len - at < T::W {
                len - at
            } else {
                T::W
            };
            self.put_piece(at, n, v >> at);
            at += n;
        }
    }
}
impl<T: BitStore, O: BitOrder> BitField for BitVec<T, O> {
    fn load_le<I: Integral>(&self) -> I {
        (**self).load_le()
    }
    fn load_be<I: Integral>(&self) -> I {
        (**self).load_be()
    }
    fn store_le<I: Integral>(&mut self, v: I) {
        (**self).store_le(v)
    }
    fn store_be<I: Integral>(&mut self, v: I) {
        (**self).store_be(v)
    }
}
