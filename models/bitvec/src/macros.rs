#[macro_export]
macro_rules! bitvec {
    ($t:ty, $o:ty; $v:expr; $n:expr) => { $crate::vec::BitVec::<$t, $o>::repeat($crate::macros::b($v as u8), $n) };
    ($t:ty, $o:ty; $($v:expr),* $(,)?) => {{
        #[allow(unused_mut)]
        let mut v = $crate::vec::BitVec::<$t, $o>::new();
        $( v.push($crate::macros::b($v as u8)); )*
        v
    }};
    ($v:expr; $n:expr) => { $crate::vec::BitVec::<usize, $crate::order::Lsb0>::repeat($crate::macros::b($v as u8), $n) };
    ($($v:expr),* $(,)?) => { $crate::bitvec!(usize, $crate::order::Lsb0; $($v),*) };
}
#[macro_export]
macro_rules! bits {
    (mut $t:ty, $o:ty; $($r:tt)*) => { $crate::bitvec!($t, $o; $($r)*).leaked() };
    ($t:ty, $o:ty; $($r:tt)*) => { &*$crate::bitvec!($t, $o; $($r)*).leaked() };
    (mut $($r:tt)*) => { $crate::bitvec!($($r)*).leaked() };
    ($($r:tt)*) => { &*$crate::bitvec!($($r)*).leaked() };
}
pub fn b(v: u8) -> bool {
    v != 0
}
impl<T: crate::store::BitStore, O: crate::order::BitOrder> crate::vec::BitVec<T, O> {
    pub fn leaked(self) -> &'static mut crate::slice::BitSlice<T, O> {
        let st: *mut crate::raw::Store = Box::leak(Box::new(self.st));
        crate::slice::BitSlice::view_mut(st, self.head, self.len)
    }
}
