use crate::iter::{BitIter, BitIntoIter, Bulk};
use crate::order::{BitOrder, Lsb0};
use crate::ptr::{BitRef, Const};
use crate::raw::{cap_check, Store, WORDS};
use crate::slice::{elem_from_stream, range_of, store_of, BitSlice};
use crate::store::BitStore;
use core::marker::PhantomData;
use core::ops::*;

pub struct BitVec<T: BitStore = usize, O: BitOrder = Lsb0> {
    pub(crate) st: Store,
    pub(crate) head: usize,
    pub(crate) len: usize,
    _p: PhantomData<(T, O)>,
}

fn elems(bits: usize, w: usize) -> usize {
    (bits + w - 1) / w
}

impl<T: BitStore, O: BitOrder> BitVec<T, O> {
    #[inline(always)]
    pub(crate) fn from_store(st: Store, head: usize, len: usize) -> Self {
        BitVec { st, head, len, _p: PhantomData }
    }
    pub const EMPTY: Self = BitVec { st: Store::zero(), head: 0, len: 0, _p: PhantomData };
    #[inline(always)]
    fn slice(&self) -> &BitSlice<T, O> {
        BitSlice::view(&self.st as *const Store as *mut Store, self.head, self.len)
    }
    #[inline(always)]
    fn slice_mut(&mut self) -> &mut BitSlice<T, O> {
        BitSlice::view_mut(&mut self.st, self.head, self.len)
    }
    pub fn new() -> Self {
        Self::from_store(Store::zero(), 0, 0)
    }
    pub fn with_capacity(_n: usize) -> Self {
        Self::new()
    }
    pub fn repeat(bit: bool, len: usize) -> Self {
        let mut r = Self::new();
        r.resize(len, bit);
        r
    }
    pub fn from_bitslice(s: &BitSlice<T, O>) -> Self {
        let h = if s.len() == 0 { 0 } else { s.head() % T::W };
        cap_check(h + s.len());
        let mut st = Store::zero();
        st.copy(h, s.s(), s.head(), s.len());
        Self::from_store(st, h, s.len())
    }
    pub fn from_element(e: T) -> Self {
        Self::from_slice(&[e])
    }
    pub fn from_slice(e: &[T]) -> Self {
        Self::from_store(store_of::<T, O>(e), 0, e.len() * T::W)
    }
    pub fn try_from_slice(e: &[T]) -> Result<Self, ()> {
        Ok(Self::from_slice(e))
    }
    pub fn from_vec(v: Vec<T>) -> Self {
        Self::from_slice(&v)
    }
    pub fn try_from_vec(v: Vec<T>) -> Result<Self, Vec<T>> {
        Ok(Self::from_slice(&v))
    }
    pub fn as_bitslice(&self) -> &BitSlice<T, O> {
        self.slice()
    }
    pub fn as_mut_bitslice(&mut self) -> &mut BitSlice<T, O> {
        self.slice_mut()
    }
    pub fn into_bitvec(self) -> Self {
        self
    }
    pub fn into_boxed_bitslice(self) -> Self {
        self
    }
    pub fn as_raw_slice(&self) -> &[T] {
        self.raw().leak()
    }
    pub fn into_vec(self) -> Vec<T> {
        self.raw()
    }
    fn raw(&self) -> Vec<T> {
        let n = elems(self.head + self.len, T::W);
        // A vector of constant capacity keeps the allocation concrete for the solver.
        let all = crate::raw::CAP / T::W;
        let mut out: Vec<T> = Vec::with_capacity(all);
        let per = 128 / T::W;
        let mut i = 0;
        while i < WORDS {
            let w = self.st.w[i];
            let mut j = 0;
            while j < per {
                let e = w.wrapping_shr((128 - T::W - j * T::W) as u32);
                let e = elem_from_stream::<T, O>(if T::W == 128 { e } else { e & ((1 << T::W) - 1) });
                unsafe { out.as_mut_ptr().add(i * per + j).write(e) };
                j += 1;
            }
            i += 1;
        }
        unsafe { out.set_len(n) };
        out
    }
    pub fn capacity(&self) -> usize {
        crate::raw::CAP
    }
    pub fn reserve(&mut self, n: usize) {
        let _ = self.len + n;
    }
    pub fn reserve_exact(&mut self, n: usize) {
        let _ = self.len + n;
    }
    pub fn shrink_to_fit(&mut self) {}
    #[inline(always)]
    pub fn push(&mut self, value: bool) {
        cap_check(self.head + self.len + 1);
        let at = self.head + self.len;
        self.st.wr(at, 1, value as u128);
        self.len += 1;
    }
    pub fn pop(&mut self) -> Option<bool> {
        if self.len == 0 {
            return None;
        }
        let b = self.bit(self.len - 1);
        self.truncate(self.len - 1);
        Some(b)
    }
    pub fn truncate(&mut self, n: usize) {
        if n < self.len {
            let old = self.head + self.len;
            let old_end = elems(old, T::W) * T::W;
            let new_end = elems(self.head + n, T::W) * T::W;
            self.len = n;
            self.st.fill(new_end, old_end - new_end, false);
        }
    }
    pub fn clear(&mut self) {
        self.truncate(0)
    }
    #[inline(always)]
    pub fn resize(&mut self, n: usize, value: bool) {
        if n > self.len {
            cap_check(self.head + n);
            let (at, k) = (self.head + self.len, n - self.len);
            self.st.fill(at, k, value);
            self.len = n;
        } else {
            self.truncate(n)
        }
    }
    pub fn resize_with<F: FnMut(usize) -> bool>(&mut self, n: usize, mut f: F) {
        if n < self.len {
            self.truncate(n)
        }
        while self.len < n {
            let b = f(self.len);
            self.push(b)
        }
    }
    pub(crate) fn append_raw(&mut self, st: *mut Store, from: usize, n: usize) {
        cap_check(self.head + self.len + n);
        let src = unsafe { *st };
        let at = self.head + self.len;
        self.st.copy(at, &src, from, n);
        self.len += n;
    }
    pub fn extend_from_bitslice<T2: BitStore, O2: BitOrder>(&mut self, o: &BitSlice<T2, O2>) {
        self.append_raw(o.st(), o.head(), o.len())
    }
    pub fn extend_from_raw_slice(&mut self, e: &[T]) {
        self.extend_from_bitslice(BitSlice::<T, O>::from_slice(e))
    }
    pub fn extend_from_within<R: RangeBounds<usize>>(&mut self, src: R) {
        let (a, b) = range_of(&src, self.len);
        if a > b || b > self.len {
            panic!("range out of bounds");
        }
        let src = self.st;
        let h = self.head;
        self.append_raw(&src as *const Store as *mut Store, h + a, b - a)
    }
    pub fn append<T2: BitStore, O2: BitOrder>(&mut self, o: &mut BitVec<T2, O2>) {
        self.extend_from_bitslice(o.slice());
        o.clear();
    }
    pub fn insert(&mut self, i: usize, b: bool) {
        let n = self.len;
        if i > n {
            panic!("insert index out of bounds");
        }
        self.push(b);
        if i < n {
            let old = self.st;
            let h = self.head;
            self.st.copy(h + i + 1, &old, h + i, n - i);
            self.st.wr(h + i, 1, b as u128);
        }
    }
    pub fn remove(&mut self, i: usize) -> bool {
        let n = self.len;
        if i >= n {
            panic!("remove index out of bounds");
        }
        let b = self.bit(i);
        let old = self.st;
        let h = self.head;
        self.st.copy(h + i, &old, h + i + 1, n - i - 1);
        self.truncate(n - 1);
        b
    }
    pub fn swap_remove(&mut self, i: usize) -> bool {
        let n = self.len;
        self.slice_mut().swap(i, n - 1);
        self.pop().unwrap()
    }
    pub fn split_off(&mut self, at: usize) -> Self {
        let n = self.len;
        if at > n {
            panic!("split_off index out of bounds");
        }
        let mut r = Self::new();
        r.extend_from_bitslice(self.slice().sub(at, n));
        self.truncate(at);
        r
    }
    pub fn drain<R: RangeBounds<usize>>(&mut self, r: R) -> BitIntoIter {
        let (a, b) = range_of(&r, self.len);
        let mut out = Self::new();
        out.extend_from_bitslice(self.slice().sub(a, b));
        let n = self.len;
        let old = self.st;
        let h = self.head;
        self.st.copy(h + a, &old, h + b, n - b);
        self.truncate(n - (b - a));
        out.into_iter()
    }
    pub fn retain<F: FnMut(usize, &bool) -> bool>(&mut self, mut f: F) {
        let mut out = Self::new();
        let mut i = 0;
        while i < self.len {
            let b = self.bit(i);
            if f(i, &b) {
                out.push(b);
            }
            i += 1;
        }
        *self = out;
    }
    #[inline(always)]
    pub fn force_align(&mut self) {
        let h = self.head;
        if h == 0 {
            return;
        }
        let n = self.len;
        let old = self.st;
        self.st.copy(0, &old, h, n);
        self.head = 0;
        // elements no longer covered are released
        let old_end = elems(h + n, T::W) * T::W;
        let new_end = elems(n, T::W) * T::W;
        self.st.fill(new_end, old_end - new_end, false);
    }
    pub fn set_uninitialized(&mut self, value: bool) {
        let (h, n) = (self.head, self.len);
        let end = elems(h + n, T::W) * T::W;
        self.st.fill(0, h, value);
        self.st.fill(h + n, end - (h + n), value);
    }
    pub fn set_elements(&mut self, e: T) {
        let n = elems(self.head + self.len, T::W);
        let s = crate::slice::elem_to_stream::<T, O>(e);
        let mut i = 0;
        while i < n {
            self.st.wr(i * T::W, T::W, s);
            i += 1;
        }
    }
    pub unsafe fn set_len(&mut self, n: usize) {
        cap_check(self.head + n);
        self.len = n
    }
    fn extend_bools<I: Iterator<Item = bool>>(&mut self, mut it: I) {
        if let Some((st, a, b)) = it.bulk() {
            self.append_raw(st, a, b - a)
        } else {
            while let Some(b) = it.next() {
                self.push(b)
            }
        }
    }
}

impl<T: BitStore, O: BitOrder> Default for BitVec<T, O> {
    fn default() -> Self {
        Self::new()
    }
}
impl<T: BitStore, O: BitOrder> Clone for BitVec<T, O> {
    fn clone(&self) -> Self {
        Self::from_bitslice(self.slice())
    }
}
impl<T: BitStore, O: BitOrder> Deref for BitVec<T, O> {
    type Target = BitSlice<T, O>;
    #[inline(always)]
    fn deref(&self) -> &BitSlice<T, O> {
        self.slice()
    }
}
impl<T: BitStore, O: BitOrder> DerefMut for BitVec<T, O> {
    #[inline(always)]
    fn deref_mut(&mut self) -> &mut BitSlice<T, O> {
        self.slice_mut()
    }
}
impl<T: BitStore, O: BitOrder> AsRef<BitSlice<T, O>> for BitVec<T, O> {
    fn as_ref(&self) -> &BitSlice<T, O> {
        self.slice()
    }
}
impl<T: BitStore, O: BitOrder> AsMut<BitSlice<T, O>> for BitVec<T, O> {
    fn as_mut(&mut self) -> &mut BitSlice<T, O> {
        self.slice_mut()
    }
}
impl<T: BitStore, O: BitOrder> core::borrow::Borrow<BitSlice<T, O>> for BitVec<T, O> {
    fn borrow(&self) -> &BitSlice<T, O> {
        self.slice()
    }
}
impl<T: BitStore, O: BitOrder, T2: BitStore, O2: BitOrder> PartialEq<BitVec<T2, O2>> for BitVec<T, O> {
    fn eq(&self, o: &BitVec<T2, O2>) -> bool {
        self.slice().eq_bits(o.slice())
    }
}
impl<T: BitStore, O: BitOrder, T2: BitStore, O2: BitOrder> PartialEq<BitSlice<T2, O2>> for BitVec<T, O> {
    fn eq(&self, o: &BitSlice<T2, O2>) -> bool {
        self.slice().eq_bits(o)
    }
}
impl<T: BitStore, O: BitOrder, T2: BitStore, O2: BitOrder> PartialEq<&BitSlice<T2, O2>> for BitVec<T, O> {
    fn eq(&self, o: &&BitSlice<T2, O2>) -> bool {
        self.slice().eq_bits(*o)
    }
}
impl<T: BitStore, O: BitOrder> Eq for BitVec<T, O> {}
impl<T: BitStore, O: BitOrder> core::fmt::Debug for BitVec<T, O> {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        f.write_str("<bits>")
    }
}
impl<T: BitStore, O: BitOrder> core::fmt::Display for BitVec<T, O> {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        f.write_str("<bits>")
    }
}
impl<T: BitStore, O: BitOrder> From<&BitSlice<T, O>> for BitVec<T, O> {
    fn from(s: &BitSlice<T, O>) -> Self {
        Self::from_bitslice(s)
    }
}
impl<T: BitStore, O: BitOrder> From<&mut BitSlice<T, O>> for BitVec<T, O> {
    fn from(s: &mut BitSlice<T, O>) -> Self {
        Self::from_bitslice(s)
    }
}
impl<T: BitStore, O: BitOrder> From<BitVec<T, O>> for Vec<T> {
    fn from(b: BitVec<T, O>) -> Vec<T> {
        b.into_vec()
    }
}
impl<T: BitStore, O: BitOrder> TryFrom<Vec<T>> for BitVec<T, O> {
    type Error = Vec<T>;
    fn try_from(v: Vec<T>) -> Result<Self, Vec<T>> {
        Ok(Self::from_vec(v))
    }
}
impl<T: BitStore, O: BitOrder> Extend<bool> for BitVec<T, O> {
    fn extend<I: IntoIterator<Item = bool>>(&mut self, it: I) {
        self.extend_bools(it.into_iter())
    }
}
impl<'a, T: BitStore, O: BitOrder> Extend<&'a bool> for BitVec<T, O> {
    fn extend<I: IntoIterator<Item = &'a bool>>(&mut self, it: I) {
        let mut it = it.into_iter();
        if let Some((st, a, b)) = it.bulk() {
            self.append_raw(st, a, b - a)
        } else {
            while let Some(b) = it.next() {
                self.push(*b)
            }
        }
    }
}
impl<'a, M, T: BitStore, O: BitOrder, T2: BitStore, O2: BitOrder> Extend<BitRef<'a, M, T2, O2>> for BitVec<T, O> {
    fn extend<I: IntoIterator<Item = BitRef<'a, M, T2, O2>>>(&mut self, it: I) {
        let mut it = it.into_iter();
        if let Some((st, a, b)) = it.bulk() {
            self.append_raw(st, a, b - a)
        } else {
            while let Some(b) = it.next() {
                self.push(*b)
            }
        }
    }
}
impl<T: BitStore, O: BitOrder> Extend<T> for BitVec<T, O> {
    fn extend<I: IntoIterator<Item = T>>(&mut self, it: I) {
        for e in it {
            self.extend_from_raw_slice(&[e])
        }
    }
}
impl<'a, T: BitStore, O: BitOrder> Extend<&'a T> for BitVec<T, O> {
    fn extend<I: IntoIterator<Item = &'a T>>(&mut self, it: I) {
        for e in it {
            self.extend_from_raw_slice(&[*e])
        }
    }
}
impl<T: BitStore, O: BitOrder> FromIterator<bool> for BitVec<T, O> {
    fn from_iter<I: IntoIterator<Item = bool>>(it: I) -> Self {
        let mut r = Self::new();
        r.extend(it);
        r
    }
}
impl<'a, T: BitStore, O: BitOrder> FromIterator<&'a bool> for BitVec<T, O> {
    fn from_iter<I: IntoIterator<Item = &'a bool>>(it: I) -> Self {
        let mut r = Self::new();
        r.extend(it);
        r
    }
}
impl<'a, M, T: BitStore, O: BitOrder, T2: BitStore, O2: BitOrder> FromIterator<BitRef<'a, M, T2, O2>> for BitVec<T, O> {
    fn from_iter<I: IntoIterator<Item = BitRef<'a, M, T2, O2>>>(it: I) -> Self {
        let mut r = Self::new();
        r.extend(it);
        r
    }
}
impl<T: BitStore, O: BitOrder> FromIterator<T> for BitVec<T, O> {
    fn from_iter<I: IntoIterator<Item = T>>(it: I) -> Self {
        let mut r = Self::new();
        r.extend(it);
        r
    }
}
impl<T: BitStore, O: BitOrder> IntoIterator for BitVec<T, O> {
    type Item = bool;
    type IntoIter = BitIntoIter;
    fn into_iter(self) -> BitIntoIter {
        BitIntoIter { st: self.st, at: self.head, end: self.head + self.len }
    }
}
impl<'a, T: BitStore, O: BitOrder> IntoIterator for &'a BitVec<T, O> {
    type Item = BitRef<'a, Const, T, O>;
    type IntoIter = BitIter<'a, T, O>;
    fn into_iter(self) -> Self::IntoIter {
        self.slice().iter()
    }
}
pub const _W: usize = WORDS;
