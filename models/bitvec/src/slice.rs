use crate::iter::{BitIter, Chunks, ChunksExact, IterOnes, IterZeros, RChunks, Windows};
use crate::order::{BitOrder, Lsb0};
use crate::ptr::{boolref, BitRef, Const, Mut};
use crate::raw::{cap_check, Store};
use crate::store::BitStore;
use crate::vec::BitVec;
use core::marker::PhantomData;
use core::ops::*;

/// A view `head .. head+len` of a `Store`; `head % T::W` is the head offset in the first element.
///
/// As in the real crate this is a reference in name only: the data pointer is the `Store`, the
/// slice metadata holds `head` and `len`.
#[repr(transparent)]
pub struct BitSlice<T: BitStore = usize, O: BitOrder = Lsb0> {
    pub(crate) _p: PhantomData<(T, O)>,
    _m: [()],
}

pub(crate) fn elem_from_stream<T: BitStore, O: BitOrder>(stream: u128) -> T {
    if O::MSB {
        T::from_u128(stream)
    } else {
        T::from_u128(stream.reverse_bits() >> (128 - T::W))
    }
}
pub(crate) fn elem_to_stream<T: BitStore, O: BitOrder>(e: T) -> u128 {
    if O::MSB {
        e.to_u128()
    } else {
        e.to_u128().reverse_bits() >> (128 - T::W)
    }
}

pub(crate) fn store_of<T: BitStore, O: BitOrder>(elems: &[T]) -> Store {
    let n = elems.len();
    if n > crate::raw::CAP / T::W {
        panic!("MODEL-CAP: bit sequence longer than the model's capacity");
    }
    let mut st = Store::zero();
    let mut i = 0;
    while i < n {
        let at = i * T::W;
        st.w[at >> 7] |= elem_to_stream::<T, O>(elems[i]).wrapping_shl((128 - T::W - (at & 127)) as u32);
        i += 1;
    }
    st
}

impl<T: BitStore, O: BitOrder> BitSlice<T, O> {
    #[inline(always)]
    pub(crate) fn view<'a>(st: *mut Store, head: usize, len: usize) -> &'a BitSlice<T, O> {
        let meta = ((head & 0xffff_ffff) << 32) | (len & 0xffff_ffff);
        unsafe { &*(core::ptr::slice_from_raw_parts(st as *const (), meta) as *const BitSlice<T, O>) }
    }
    #[inline(always)]
    pub(crate) fn view_mut<'a>(st: *mut Store, head: usize, len: usize) -> &'a mut BitSlice<T, O> {
        let meta = ((head & 0xffff_ffff) << 32) | (len & 0xffff_ffff);
        unsafe { &mut *(core::ptr::slice_from_raw_parts_mut(st as *mut (), meta) as *mut BitSlice<T, O>) }
    }
    #[inline(always)]
    fn meta(&self) -> usize {
        self._m.len()
    }
    #[inline(always)]
    pub(crate) fn head(&self) -> usize {
        self.meta() >> 32
    }
    #[inline(always)]
    pub(crate) fn st(&self) -> *mut Store {
        self as *const Self as *const () as *mut Store
    }
    #[inline(always)]
    pub(crate) fn s(&self) -> &Store {
        unsafe { &*self.st() }
    }
    #[inline(always)]
    pub(crate) fn sm(&mut self) -> &mut Store {
        unsafe { &mut *self.st() }
    }
    #[inline(always)]
    pub(crate) fn sub(&self, a: usize, b: usize) -> &BitSlice<T, O> {
        if a > b || b > self.len() {
            panic!("range out of bounds for bit-slice");
        }
        Self::view(self.st(), self.head() + a, b - a)
    }
    #[inline(always)]
    pub(crate) fn sub_mut(&mut self, a: usize, b: usize) -> &mut BitSlice<T, O> {
        if a > b || b > self.len() {
            panic!("range out of bounds for bit-slice");
        }
        Self::view_mut(self.st(), self.head() + a, b - a)
    }
    #[inline(always)]
    pub(crate) fn stream(&self, off: usize, n: usize) -> u128 {
        self.s().rd(self.head() + off, n)
    }
    #[inline(always)]
    pub(crate) fn bit(&self, i: usize) -> bool {
        self.s().bit(self.head() + i)
    }

    pub fn empty<'a>() -> &'a Self {
        Self::view(Box::leak(Box::new(Store::zero())), 0, 0)
    }
    pub fn from_element(elem: &T) -> &Self {
        Self::from_slice(core::slice::from_ref(elem))
    }
    pub fn from_slice(elems: &[T]) -> &Self {
        Self::view(Box::leak(Box::new(store_of::<T, O>(elems))), 0, elems.len() * T::W)
    }
    pub fn try_from_slice(elems: &[T]) -> Result<&Self, ()> {
        Ok(Self::from_slice(elems))
    }
    pub fn from_slice_mut(_elems: &mut [T]) -> &mut Self {
        panic!("MODEL-UNSUPPORTED: mutable bit view of memory")
    }
    #[inline(always)]
    pub fn len(&self) -> usize {
        self.meta() & 0xffff_ffff
    }
    #[inline(always)]
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
    pub fn first(&self) -> Option<BitRef<'_, Const, T, O>> {
        self.get(0)
    }
    pub fn last(&self) -> Option<BitRef<'_, Const, T, O>> {
        if self.len() == 0 {
            None
        } else {
            Some(self.at(self.len() - 1))
        }
    }
    fn at(&self, i: usize) -> BitRef<'_, Const, T, O> {
        BitRef::make(self.st(), self.head() + i, false)
    }
    pub fn get<'a, I: BitSliceIndex<'a, T, O>>(&'a self, index: I) -> Option<I::Immut> {
        index.get(self)
    }
    pub fn get_mut<'a, I: BitSliceIndex<'a, T, O>>(&'a mut self, index: I) -> Option<I::Mut> {
        index.get_mut(self)
    }
    pub unsafe fn get_unchecked<'a, I: BitSliceIndex<'a, T, O>>(&'a self, index: I) -> I::Immut {
        index.get(self).unwrap()
    }
    pub unsafe fn get_unchecked_mut<'a, I: BitSliceIndex<'a, T, O>>(&'a mut self, index: I) -> I::Mut {
        index.get_mut(self).unwrap()
    }
    pub fn first_mut(&mut self) -> Option<BitRef<'_, Mut, T, O>> {
        self.get_mut(0)
    }
    pub fn last_mut(&mut self) -> Option<BitRef<'_, Mut, T, O>> {
        if self.len() == 0 {
            None
        } else {
            let n = self.len() - 1;
            self.get_mut(n)
        }
    }
    #[inline(always)]
    pub fn set(&mut self, index: usize, value: bool) {
        if index >= self.len() {
            panic!("bit index out of bounds");
        }
        let h = self.head();
        self.sm().wr(h + index, 1, value as u128);
    }
    pub fn replace(&mut self, index: usize, value: bool) -> bool {
        if index >= self.len() {
            panic!("bit index out of bounds");
        }
        let o = self.bit(index);
        self.set(index, value);
        o
    }
    pub unsafe fn set_unchecked(&mut self, index: usize, value: bool) {
        self.set(index, value)
    }
    pub fn iter(&self) -> BitIter<'_, T, O> {
        BitIter { st: self.st(), at: self.head(), end: self.head() + self.len(), _p: PhantomData }
    }
    pub fn iter_mut(&mut self) -> crate::iter::BitIterMut<'_, T, O> {
        crate::iter::BitIterMut { st: self.st(), at: self.head(), end: self.head() + self.len(), _p: PhantomData }
    }
    pub fn iter_ones(&self) -> IterOnes<'_, T, O> {
        IterOnes { s: self, at: 0 }
    }
    pub fn iter_zeros(&self) -> IterZeros<'_, T, O> {
        IterZeros { s: self, at: 0 }
    }
    pub fn chunks(&self, n: usize) -> Chunks<'_, T, O> {
        if n == 0 {
            panic!("chunk width cannot be 0");
        }
        Chunks { s: self, n, at: 0 }
    }
    pub fn chunks_exact(&self, n: usize) -> ChunksExact<'_, T, O> {
        if n == 0 {
            panic!("chunk width cannot be 0");
        }
        ChunksExact { s: self, n, at: 0 }
    }
    pub fn rchunks(&self, n: usize) -> RChunks<'_, T, O> {
        if n == 0 {
            panic!("chunk width cannot be 0");
        }
        RChunks { s: self, n, end: self.len() }
    }
    pub fn windows(&self, n: usize) -> Windows<'_, T, O> {
        if n == 0 {
            panic!("window width cannot be 0");
        }
        Windows { s: self, n, at: 0 }
    }
    fn count(&self, want: bool) -> usize {
        let mut n = 0usize;
        let mut done = 0;
        let mut i = 0;
        while i < crate::raw::WORDS {
            if done < self.len() {
                let c = if self.len() - done > 128 { 128 } else { self.len() - done };
                let ones = self.stream(done, c).count_ones() as usize;
                n += if want { ones } else { c - ones };
                done += c;
            }
            i += 1;
        }
        n
    }
    pub fn count_ones(&self) -> usize {
        self.count(true)
    }
    pub fn count_zeros(&self) -> usize {
        self.count(false)
    }
    pub fn any(&self) -> bool {
        self.count(true) != 0
    }
    pub fn all(&self) -> bool {
        self.count(false) == 0
    }
    pub fn not_any(&self) -> bool {
        !self.any()
    }
    pub fn not_all(&self) -> bool {
        !self.all()
    }
    pub fn some(&self) -> bool {
        self.any() && self.not_all()
    }
    fn leading(&self, of: bool) -> usize {
        let mut n = 0usize;
        let mut done = 0;
        let mut stop = false;
        let mut i = 0;
        while i < crate::raw::WORDS {
            if done < self.len() && !stop {
                let c = if self.len() - done > 128 { 128 } else { self.len() - done };
                let v = self.stream(done, c) << (128 - c);
                let l = if of { v.leading_ones() } else { v.leading_zeros() } as usize;
                let l = if l > c { c } else { l };
                n += l;
                if l < c {
                    stop = true;
                }
                done += c;
            }
            i += 1;
        }
        n
    }
    pub fn leading_zeros(&self) -> usize {
        self.leading(false)
    }
    pub fn leading_ones(&self) -> usize {
        self.leading(true)
    }
    fn trailing(&self, of: bool) -> usize {
        let mut n = 0usize;
        while n < self.len() && self.bit(self.len() - 1 - n) == of {
            n += 1;
        }
        n
    }
    pub fn trailing_zeros(&self) -> usize {
        self.trailing(false)
    }
    pub fn trailing_ones(&self) -> usize {
        self.trailing(true)
    }
    pub fn first_one(&self) -> Option<usize> {
        let n = self.leading(false);
        if n < self.len() { Some(n) } else { None }
    }
    pub fn first_zero(&self) -> Option<usize> {
        let n = self.leading(true);
        if n < self.len() { Some(n) } else { None }
    }
    pub fn last_one(&self) -> Option<usize> {
        let n = self.trailing(false);
        if n < self.len() { Some(self.len() - 1 - n) } else { None }
    }
    pub fn last_zero(&self) -> Option<usize> {
        let n = self.trailing(true);
        if n < self.len() { Some(self.len() - 1 - n) } else { None }
    }
    pub fn fill(&mut self, value: bool) {
        let (h, n) = (self.head(), self.len());
        self.sm().fill(h, n, value);
    }
    pub fn split_at(&self, mid: usize) -> (&Self, &Self) {
        (self.sub(0, mid), self.sub(mid, self.len()))
    }
    pub fn split_at_mut(&mut self, mid: usize) -> (&mut Self, &mut Self) {
        let n = self.len();
        if mid > n {
            panic!("split_at out of bounds");
        }
        let (st, h) = (self.st(), self.head());
        (Self::view_mut(st, h, mid), Self::view_mut(st, h + mid, n - mid))
    }
    pub fn split_first(&self) -> Option<(BitRef<'_, Const, T, O>, &Self)> {
        if self.len() == 0 { None } else { Some((self.at(0), self.sub(1, self.len()))) }
    }
    pub fn split_last(&self) -> Option<(BitRef<'_, Const, T, O>, &Self)> {
        if self.len() == 0 { None } else { Some((self.at(self.len() - 1), self.sub(0, self.len() - 1))) }
    }
    pub fn to_bitvec(&self) -> BitVec<T, O> {
        BitVec::from_bitslice(self)
    }
    pub fn to_owned(&self) -> BitVec<T, O> {
        BitVec::from_bitslice(self)
    }
    pub fn swap(&mut self, a: usize, b: usize) {
        let (x, y) = (self.replace(a, false), self.bit_checked(b));
        self.set(a, if a == b { x } else { y });
        self.set(b, x);
    }
    fn bit_checked(&self, i: usize) -> bool {
        if i >= self.len() {
            panic!("bit index out of bounds");
        }
        self.bit(i)
    }
    pub fn reverse(&mut self) {
        let n = self.len();
        let old = *self.s();
        let h = self.head();
        let mut i = 0;
        while i < n {
            let b = old.bit(h + i);
            self.sm().wr(h + n - 1 - i, 1, b as u128);
            i += 1;
        }
    }
    pub fn copy_from_bitslice(&mut self, src: &Self) {
        self.clone_from_bitslice(src)
    }
    pub fn clone_from_bitslice<T2: BitStore, O2: BitOrder>(&mut self, src: &BitSlice<T2, O2>) {
        if self.len() != src.len() {
            panic!("cloning between bit-slices requires equal lengths");
        }
        let src_copy = *src.s();
        let (h, n) = (self.head(), self.len());
        self.sm().copy(h, &src_copy, src.head(), n);
    }
    pub fn copy_within<R: RangeBounds<usize>>(&mut self, src: R, dest: usize) {
        let (a, b) = range_of(&src, self.len());
        if a > b || b > self.len() || dest + (b - a) > self.len() {
            panic!("range out of bounds");
        }
        let old = *self.s();
        let h = self.head();
        self.sm().copy(h + dest, &old, h + a, b - a);
    }
    pub fn swap_with_bitslice<T2: BitStore, O2: BitOrder>(&mut self, other: &mut BitSlice<T2, O2>) {
        if self.len() != other.len() {
            panic!("swapping between bit-slices requires equal lengths");
        }
        let a = *self.s();
        let b = *other.s();
        let (h, n, oh) = (self.head(), self.len(), other.head());
        self.sm().copy(h, &b, oh, n);
        other.sm().copy(oh, &a, h, n);
    }
    pub fn rotate_left(&mut self, by: usize) {
        let n = self.len();
        if by > n {
            panic!("bit-slices cannot be rotated by more than their length");
        }
        let old = *self.s();
        let h = self.head();
        self.sm().copy(h, &old, h + by, n - by);
        self.sm().copy(h + n - by, &old, h, by);
    }
    pub fn rotate_right(&mut self, by: usize) {
        let n = self.len();
        if by > n {
            panic!("bit-slices cannot be rotated by more than their length");
        }
        self.rotate_left(n - by)
    }
    pub fn shift_left(&mut self, by: usize) {
        let n = self.len();
        if by == 0 {
            return;
        }
        if by >= n {
            panic!("shift must be less than the length of the bit-slice");
        }
        let old = *self.s();
        let h = self.head();
        self.sm().copy(h, &old, h + by, n - by);
        self.sm().fill(h + n - by, by, false);
    }
    pub fn shift_right(&mut self, by: usize) {
        let n = self.len();
        if by == 0 {
            return;
        }
        if by >= n {
            panic!("shift must be less than the length of the bit-slice");
        }
        let old = *self.s();
        let h = self.head();
        self.sm().copy(h + by, &old, h, n - by);
        self.sm().fill(h, by, false);
    }
    pub fn eq_bits<T2: BitStore, O2: BitOrder>(&self, o: &BitSlice<T2, O2>) -> bool {
        if self.len() != o.len() {
            return false;
        }
        let mut done = 0;
        let mut r = true;
        let mut i = 0;
        while i < crate::raw::WORDS {
            if done < self.len() {
                let c = if self.len() - done > 128 { 128 } else { self.len() - done };
                if self.stream(done, c) != o.stream(done, c) {
                    r = false;
                }
                done += c;
            }
            i += 1;
        }
        r
    }
    pub fn starts_with<T2: BitStore, O2: BitOrder>(&self, p: &BitSlice<T2, O2>) -> bool {
        self.len() >= p.len() && self.sub(0, p.len()).eq_bits(p)
    }
    pub fn ends_with<T2: BitStore, O2: BitOrder>(&self, p: &BitSlice<T2, O2>) -> bool {
        self.len() >= p.len() && self.sub(self.len() - p.len(), self.len()).eq_bits(p)
    }
    pub fn contains<T2: BitStore, O2: BitOrder>(&self, p: &BitSlice<T2, O2>) -> bool {
        let mut i = 0;
        while i + p.len() <= self.len() {
            if self.sub(i, i + p.len()).eq_bits(p) {
                return true;
            }
            i += 1;
        }
        false
    }
    pub fn repeat(&self, n: usize) -> BitVec<T, O> {
        let mut v = BitVec::new();
        let mut i = 0;
        while i < n {
            v.extend_from_bitslice(self);
            i += 1;
        }
        v
    }
    pub fn bit_checked_index(&self, i: usize) -> &'static bool {
        boolref(self.bit_checked(i))
    }
}

pub(crate) fn range_of<R: RangeBounds<usize>>(r: &R, len: usize) -> (usize, usize) {
    let a = match r.start_bound() {
        Bound::Included(x) => *x,
        Bound::Excluded(x) => *x + 1,
        Bound::Unbounded => 0,
    };
    let b = match r.end_bound() {
        Bound::Included(x) => *x + 1,
        Bound::Excluded(x) => *x,
        Bound::Unbounded => len,
    };
    (a, b)
}

pub trait BitSliceIndex<'a, T: BitStore, O: BitOrder> {
    type Immut;
    type Mut;
    fn get(self, s: &'a BitSlice<T, O>) -> Option<Self::Immut>;
    fn get_mut(self, s: &'a mut BitSlice<T, O>) -> Option<Self::Mut>;
}
impl<'a, T: BitStore, O: BitOrder> BitSliceIndex<'a, T, O> for usize {
    type Immut = BitRef<'a, Const, T, O>;
    type Mut = BitRef<'a, Mut, T, O>;
    #[inline(always)]
    fn get(self, s: &'a BitSlice<T, O>) -> Option<Self::Immut> {
        if self < s.len() {
            Some(BitRef::make(s.st(), s.head() + self, false))
        } else {
            None
        }
    }
    fn get_mut(self, s: &'a mut BitSlice<T, O>) -> Option<Self::Mut> {
        if self < s.len() {
            Some(BitRef::make(s.st(), s.head() + self, true))
        } else {
            None
        }
    }
}
macro_rules! ranges {
    ($($r:ty),*) => {$(
        impl<'a, T: BitStore, O: BitOrder> BitSliceIndex<'a, T, O> for $r {
            type Immut = &'a BitSlice<T, O>;
            type Mut = &'a mut BitSlice<T, O>;
            fn get(self, s: &'a BitSlice<T, O>) -> Option<Self::Immut> {
                let (a, b) = range_of(&self, s.len());
                if a <= b && b <= s.len() { Some(s.sub(a, b)) } else { None }
            }
            fn get_mut(self, s: &'a mut BitSlice<T, O>) -> Option<Self::Mut> {
                let (a, b) = range_of(&self, s.len());
                if a <= b && b <= s.len() { Some(s.sub_mut(a, b)) } else { None }
            }
        }
        impl<T: BitStore, O: BitOrder> Index<$r> for BitSlice<T, O> {
            type Output = BitSlice<T, O>;
            #[inline(always)]
            fn index(&self, r: $r) -> &BitSlice<T, O> {
                let (a, b) = range_of(&r, self.len());
                self.sub(a, b)
            }
        }
        impl<T: BitStore, O: BitOrder> IndexMut<$r> for BitSlice<T, O> {
            #[inline(always)]
            fn index_mut(&mut self, r: $r) -> &mut BitSlice<T, O> {
                let (a, b) = range_of(&r, self.len());
                self.sub_mut(a, b)
            }
        }
        impl<T: BitStore, O: BitOrder> Index<$r> for BitVec<T, O> {
            type Output = BitSlice<T, O>;
            #[inline(always)]
            fn index(&self, r: $r) -> &BitSlice<T, O> {
                &(**self)[r]
            }
        }
        impl<T: BitStore, O: BitOrder> IndexMut<$r> for BitVec<T, O> {
            #[inline(always)]
            fn index_mut(&mut self, r: $r) -> &mut BitSlice<T, O> {
                &mut (**self)[r]
            }
        }
    )*};
}
ranges!(Range<usize>, RangeFrom<usize>, RangeTo<usize>, RangeInclusive<usize>, RangeToInclusive<usize>, RangeFull);

impl<T: BitStore, O: BitOrder> Index<usize> for BitSlice<T, O> {
    type Output = bool;
    #[inline(always)]
    fn index(&self, i: usize) -> &bool {
        self.bit_checked_index(i)
    }
}
impl<T: BitStore, O: BitOrder> Index<usize> for BitVec<T, O> {
    type Output = bool;
    #[inline(always)]
    fn index(&self, i: usize) -> &bool {
        self.bit_checked_index(i)
    }
}

impl<T: BitStore, O: BitOrder, T2: BitStore, O2: BitOrder> PartialEq<BitSlice<T2, O2>> for BitSlice<T, O> {
    fn eq(&self, o: &BitSlice<T2, O2>) -> bool {
        self.eq_bits(o)
    }
}
impl<T: BitStore, O: BitOrder, T2: BitStore, O2: BitOrder> PartialEq<&BitSlice<T2, O2>> for BitSlice<T, O> {
    fn eq(&self, o: &&BitSlice<T2, O2>) -> bool {
        self.eq_bits(*o)
    }
}
impl<T: BitStore, O: BitOrder, T2: BitStore, O2: BitOrder> PartialEq<BitVec<T2, O2>> for BitSlice<T, O> {
    fn eq(&self, o: &BitVec<T2, O2>) -> bool {
        self.eq_bits(&**o)
    }
}
impl<T: BitStore, O: BitOrder, T2: BitStore, O2: BitOrder> PartialEq<BitVec<T2, O2>> for &BitSlice<T, O> {
    fn eq(&self, o: &BitVec<T2, O2>) -> bool {
        self.eq_bits(&**o)
    }
}
impl<T: BitStore, O: BitOrder> Eq for BitSlice<T, O> {}
impl<T: BitStore, O: BitOrder> core::fmt::Debug for BitSlice<T, O> {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        f.write_str("<bits>")
    }
}
impl<T: BitStore, O: BitOrder> core::fmt::Display for BitSlice<T, O> {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        f.write_str("<bits>")
    }
}
impl<'a, T: BitStore, O: BitOrder> IntoIterator for &'a BitSlice<T, O> {
    type Item = BitRef<'a, Const, T, O>;
    type IntoIter = BitIter<'a, T, O>;
    fn into_iter(self) -> Self::IntoIter {
        self.iter()
    }
}
impl<T: BitStore, O: BitOrder> Not for &BitSlice<T, O> {
    type Output = BitVec<T, O>;
    fn not(self) -> BitVec<T, O> {
        let mut v = self.to_bitvec();
        let n = v.len();
        let mut i = 0;
        while i < n {
            let b = v[i];
            v.set(i, !b);
            i += 1;
        }
        v
    }
}
impl<T: BitStore, O: BitOrder> AsRef<BitSlice<T, O>> for BitSlice<T, O> {
    fn as_ref(&self) -> &BitSlice<T, O> {
        self
    }
}

pub fn _cap(bits: usize) {
    cap_check(bits)
}
