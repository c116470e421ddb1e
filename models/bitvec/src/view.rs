use crate::order::BitOrder;
use crate::slice::BitSlice;
use crate::store::BitStore;

pub trait BitView {
    type Store: BitStore;
    fn view_bits<O: BitOrder>(&self) -> &BitSlice<Self::Store, O>;
    fn view_bits_mut<O: BitOrder>(&mut self) -> &mut BitSlice<Self::Store, O> {
        panic!("MODEL-UNSUPPORTED: mutable bit view of memory")
    }
}
pub trait BitViewSized: BitView + Sized {
    const ZERO: Self;
}
impl<T: BitStore> BitView for T {
    type Store = T;
    fn view_bits<O: BitOrder>(&self) -> &BitSlice<T, O> {
        BitSlice::from_element(self)
    }
}
impl<T: BitStore> BitViewSized for T {
    const ZERO: T = T::ZERO;
}
impl<T: BitStore> BitView for [T] {
    type Store = T;
    fn view_bits<O: BitOrder>(&self) -> &BitSlice<T, O> {
        BitSlice::from_slice(self)
    }
}
impl<T: BitStore, const N: usize> BitView for [T; N] {
    type Store = T;
    fn view_bits<O: BitOrder>(&self) -> &BitSlice<T, O> {
        BitSlice::from_slice(&self[..])
    }
}
pub trait AsBits<T: BitStore> {
    fn as_bits<O: BitOrder>(&self) -> &BitSlice<T, O>;
    fn try_as_bits<O: BitOrder>(&self) -> Result<&BitSlice<T, O>, ()> {
        Ok(self.as_bits())
    }
}
impl<A: AsRef<[T]> + ?Sized, T: BitStore> AsBits<T> for A {
    fn as_bits<O: BitOrder>(&self) -> &BitSlice<T, O> {
        BitSlice::from_slice(self.as_ref())
    }
}
pub trait AsMutBits<T: BitStore> {
    fn as_mut_bits<O: BitOrder>(&mut self) -> &mut BitSlice<T, O>;
}
