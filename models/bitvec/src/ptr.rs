use core::marker::PhantomData;
use core::ops::{Deref, DerefMut, Not};

pub struct Const;
pub struct Mut;

pub static TRUE: bool = true;
pub static FALSE: bool = false;
#[inline(always)]
pub fn boolref(b: bool) -> &'static bool {
    if b {
        &TRUE
    } else {
        &FALSE
    }
}

/// Proxy reference.  The mutable flavour writes back on drop.
pub struct BitRef<'a, M = Const, T = usize, O = crate::order::Lsb0> {
    pub(crate) st: *mut crate::raw::Store,
    pub(crate) at: usize,
    pub(crate) val: bool,
    pub(crate) writes: bool,
    pub(crate) _p: PhantomData<(&'a (), M, T, O)>,
}

impl<'a, M, T, O> BitRef<'a, M, T, O> {
    #[inline(always)]
    pub(crate) fn make(st: *mut crate::raw::Store, at: usize, writes: bool) -> Self {
        BitRef { st, at, val: unsafe { (*st).bit(at) }, writes, _p: PhantomData }
    }
    pub fn replace(&mut self, v: bool) -> bool {
        let o = self.val;
        self.val = v;
        o
    }
    pub fn set(mut self, v: bool) {
        self.val = v;
    }
    pub fn commit(self, v: bool) {
        self.set(v)
    }
}
impl<'a, M, T, O> Drop for BitRef<'a, M, T, O> {
    #[inline(always)]
    fn drop(&mut self) {
        if self.writes {
            unsafe { (*self.st).wr(self.at, 1, self.val as u128) }
        }
    }
}
impl<'a, M, T, O> Deref for BitRef<'a, M, T, O> {
    type Target = bool;
    #[inline(always)]
    fn deref(&self) -> &bool {
        &self.val
    }
}
impl<'a, T, O> DerefMut for BitRef<'a, Mut, T, O> {
    fn deref_mut(&mut self) -> &mut bool {
        &mut self.val
    }
}
impl<'a, T, O> Clone for BitRef<'a, Const, T, O> {
    fn clone(&self) -> Self {
        BitRef { st: self.st, at: self.at, val: self.val, writes: false, _p: PhantomData }
    }
}
impl<'a, M, T, O> PartialEq<bool> for BitRef<'a, M, T, O> {
    #[inline(always)]
    fn eq(&self, o: &bool) -> bool {
        self.val == *o
    }
}
impl<'a, 'b, M, T, O> PartialEq<&'b bool> for BitRef<'a, M, T, O> {
    #[inline(always)]
    fn eq(&self, o: &&'b bool) -> bool {
        self.val == **o
    }
}
impl<'a, M, T, O> PartialEq<BitRef<'a, M, T, O>> for bool {
    #[inline(always)]
    fn eq(&self, o: &BitRef<'a, M, T, O>) -> bool {
        *self == o.val
    }
}
impl<'a, 'b, M, M2, T, O> PartialEq<BitRef<'b, M2, T, O>> for BitRef<'a, M, T, O> {
    fn eq(&self, o: &BitRef<'b, M2, T, O>) -> bool {
        self.val == o.val
    }
}
impl<'a, M, T, O> Eq for BitRef<'a, M, T, O> {}
impl<'a, M, T, O> Not for BitRef<'a, M, T, O> {
    type Output = bool;
    #[inline(always)]
    fn not(self) -> bool {
        !self.val
    }
}
impl<'a, M, T, O> core::fmt::Debug for BitRef<'a, M, T, O> {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        f.write_str(if self.val { "1" } else { "0" })
    }
}
