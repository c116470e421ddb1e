use crate::order::BitOrder;
use crate::ptr::{boolref, BitRef, Const, Mut};
use crate::raw::Store;
use crate::slice::BitSlice;
use crate::store::BitStore;
use core::marker::PhantomData;

pub struct BitIter<'a, T: BitStore, O: BitOrder> {
    pub(crate) st: *mut Store,
    pub(crate) at: usize,
    pub(crate) end: usize,
    pub(crate) _p: PhantomData<&'a (T, O)>,
}
impl<'a, T: BitStore, O: BitOrder> BitIter<'a, T, O> {
    pub fn by_vals(self) -> BitValIter {
        BitValIter { st: self.st, at: self.at, end: self.end }
    }
    pub fn copied(self) -> BitValIter {
        self.by_vals()
    }
    pub fn cloned(self) -> BitValIter {
        self.by_vals()
    }
    pub fn by_refs(self) -> BitBoolRefIter {
        BitBoolRefIter { v: self.by_vals() }
    }
    pub fn as_bitslice(&self) -> &'a BitSlice<T, O> {
        BitSlice::view(self.st, self.at, self.end - self.at)
    }
}
impl<'a, T: BitStore, O: BitOrder> Clone for BitIter<'a, T, O> {
    fn clone(&self) -> Self {
        BitIter { st: self.st, at: self.at, end: self.end, _p: PhantomData }
    }
}
impl<'a, T: BitStore, O: BitOrder> Iterator for BitIter<'a, T, O> {
    type Item = BitRef<'a, Const, T, O>;
    #[inline(always)]
    fn next(&mut self) -> Option<Self::Item> {
        if self.at >= self.end {
            return None;
        }
        let r = BitRef::make(self.st, self.at, false);
        self.at += 1;
        Some(r)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.end - self.at, Some(self.end - self.at))
    }
}
impl<'a, T: BitStore, O: BitOrder> DoubleEndedIterator for BitIter<'a, T, O> {
    #[inline(always)]
    fn next_back(&mut self) -> Option<Self::Item> {
        if self.at >= self.end {
            return None;
        }
        self.end -= 1;
        Some(BitRef::make(self.st, self.end, false))
    }
}
impl<'a, T: BitStore, O: BitOrder> ExactSizeIterator for BitIter<'a, T, O> {}

pub struct BitIterMut<'a, T: BitStore, O: BitOrder> {
    pub(crate) st: *mut Store,
    pub(crate) at: usize,
    pub(crate) end: usize,
    pub(crate) _p: PhantomData<&'a mut (T, O)>,
}
impl<'a, T: BitStore, O: BitOrder> Iterator for BitIterMut<'a, T, O> {
    type Item = BitRef<'a, Mut, T, O>;
    fn next(&mut self) -> Option<Self::Item> {
        if self.at >= self.end {
            return None;
        }
        let r = BitRef::make(self.st, self.at, true);
        self.at += 1;
        Some(r)
    }
}

/// Owning iterator over `bool`.
pub struct BitIntoIter {
    pub(crate) st: Store,
    pub(crate) at: usize,
    pub(crate) end: usize,
}
impl Iterator for BitIntoIter {
    type Item = bool;
    #[inline(always)]
    fn next(&mut self) -> Option<bool> {
        if self.at >= self.end {
            return None;
        }
        let r = self.st.bit(self.at);
        self.at += 1;
        Some(r)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.end - self.at, Some(self.end - self.at))
    }
}
impl DoubleEndedIterator for BitIntoIter {
    fn next_back(&mut self) -> Option<bool> {
        if self.at >= self.end {
            return None;
        }
        self.end -= 1;
        Some(self.st.bit(self.end))
    }
}
impl ExactSizeIterator for BitIntoIter {}
impl Bulk for BitIntoIter {
    fn bulk(&mut self) -> Option<(*mut Store, usize, usize)> {
        let r = (&mut self.st as *mut Store, self.at, self.end);
        self.at = self.end;
        Some(r)
    }
}

/// Iterator over `bool`.
pub struct BitValIter {
    pub(crate) st: *mut Store,
    pub(crate) at: usize,
    pub(crate) end: usize,
}
impl Iterator for BitValIter {
    type Item = bool;
    #[inline(always)]
    fn next(&mut self) -> Option<bool> {
        if self.at >= self.end {
            return None;
        }
        let r = unsafe { (*self.st).bit(self.at) };
        self.at += 1;
        Some(r)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.end - self.at, Some(self.end - self.at))
    }
}
impl DoubleEndedIterator for BitValIter {
    fn next_back(&mut self) -> Option<bool> {
        if self.at >= self.end {
            return None;
        }
        self.end -= 1;
        Some(unsafe { (*self.st).bit(self.end) })
    }
}
impl ExactSizeIterator for BitValIter {}

pub struct BitBoolRefIter {
    v: BitValIter,
}
impl Iterator for BitBoolRefIter {
    type Item = &'static bool;
    fn next(&mut self) -> Option<&'static bool> {
        self.v.next().map(boolref)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.v.size_hint()
    }
}
impl DoubleEndedIterator for BitBoolRefIter {
    fn next_back(&mut self) -> Option<&'static bool> {
        self.v.next_back().map(boolref)
    }
}
impl ExactSizeIterator for BitBoolRefIter {}

/// Lets `extend`/`collect` move whole runs of bits when the source is a plain bit iterator.
pub trait Bulk {
    fn bulk(&mut self) -> Option<(*mut Store, usize, usize)>;
}
impl<I> Bulk for I {
    default fn bulk(&mut self) -> Option<(*mut Store, usize, usize)> {
        None
    }
}
impl Bulk for BitValIter {
    fn bulk(&mut self) -> Option<(*mut Store, usize, usize)> {
        let r = (self.st, self.at, self.end);
        self.at = self.end;
        Some(r)
    }
}
impl Bulk for BitBoolRefIter {
    fn bulk(&mut self) -> Option<(*mut Store, usize, usize)> {
        self.v.bulk()
    }
}
impl<'a, T: BitStore, O: BitOrder> Bulk for BitIter<'a, T, O> {
    fn bulk(&mut self) -> Option<(*mut Store, usize, usize)> {
        let r = (self.st, self.at, self.end);
        self.at = self.end;
        Some(r)
    }
}

pub struct Chunks<'a, T: BitStore, O: BitOrder> {
    pub(crate) s: &'a BitSlice<T, O>,
    pub(crate) n: usize,
    pub(crate) at: usize,
}
impl<'a, T: BitStore, O: BitOrder> Iterator for Chunks<'a, T, O> {
    type Item = &'a BitSlice<T, O>;
    fn next(&mut self) -> Option<Self::Item> {
        if self.at >= self.s.len() {
            return None;
        }
        let e = if self.at + self.n < self.s.len() { self.at + self.n } else { self.s.len() };
        let r = self.s.sub(self.at, e);
        self.at = e;
        Some(r)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let k = (self.s.len() - self.at + self.n - 1) / self.n;
        (k, Some(k))
    }
}
impl<'a, T: BitStore, O: BitOrder> ExactSizeIterator for Chunks<'a, T, O> {}

pub struct ChunksExact<'a, T: BitStore, O: BitOrder> {
    pub(crate) s: &'a BitSlice<T, O>,
    pub(crate) n: usize,
    pub(crate) at: usize,
}
impl<'a, T: BitStore, O: BitOrder> ChunksExact<'a, T, O> {
    pub fn remainder(&self) -> &'a BitSlice<T, O> {
        self.s.sub(self.s.len() - self.s.len() % self.n, self.s.len())
    }
}
impl<'a, T: BitStore, O: BitOrder> Iterator for ChunksExact<'a, T, O> {
    type Item = &'a BitSlice<T, O>;
    fn next(&mut self) -> Option<Self::Item> {
        if self.s.len() - self.at < self.n {
            return None;
        }
        let r = self.s.sub(self.at, self.at + self.n);
        self.at += self.n;
        Some(r)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let k = (self.s.len() - self.at) / self.n;
        (k, Some(k))
    }
}
impl<'a, T: BitStore, O: BitOrder> ExactSizeIterator for ChunksExact<'a, T, O> {}

pub struct RChunks<'a, T: BitStore, O: BitOrder> {
    pub(crate) s: &'a BitSlice<T, O>,
    pub(crate) n: usize,
    pub(crate) end: usize,
}
impl<'a, T: BitStore, O: BitOrder> Iterator for RChunks<'a, T, O> {
    type Item = &'a BitSlice<T, O>;
    fn next(&mut self) -> Option<Self::Item> {
        if self.end == 0 {
            return None;
        }
        let b = if self.end > self.n { self.end - self.n } else { 0 };
        let r = self.s.sub(b, self.end);
        self.end = b;
        Some(r)
    }
}
pub struct Windows<'a, T: BitStore, O: BitOrder> {
    pub(crate) s: &'a BitSlice<T, O>,
    pub(crate) n: usize,
    pub(crate) at: usize,
}
impl<'a, T: BitStore, O: BitOrder> Iterator for Windows<'a, T, O> {
    type Item = &'a BitSlice<T, O>;
    fn next(&mut self) -> Option<Self::Item> {
        if self.at + self.n > self.s.len() {
            return None;
        }
        let r = self.s.sub(self.at, self.at + self.n);
        self.at += 1;
        Some(r)
    }
}
pub struct IterOnes<'a, T: BitStore, O: BitOrder> {
    pub(crate) s: &'a BitSlice<T, O>,
    pub(crate) at: usize,
}
impl<'a, T: BitStore, O: BitOrder> Iterator for IterOnes<'a, T, O> {
    type Item = usize;
    fn next(&mut self) -> Option<usize> {
        while self.at < self.s.len() {
            let i = self.at;
            self.at += 1;
            if self.s.bit(i) {
                return Some(i);
            }
        }
        None
    }
}
pub struct IterZeros<'a, T: BitStore, O: BitOrder> {
    pub(crate) s: &'a BitSlice<T, O>,
    pub(crate) at: usize,
}
impl<'a, T: BitStore, O: BitOrder> Iterator for IterZeros<'a, T, O> {
    type Item = usize;
    fn next(&mut self) -> Option<usize> {
        while self.at < self.s.len() {
            let i = self.at;
            self.at += 1;
            if !self.s.bit(i) {
                return Some(i);
            }
        }
        None
    }
}
