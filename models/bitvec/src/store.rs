pub trait BitStore: 'static + Copy + Default + core::fmt::Debug {
    const W: usize;
    type Mem;
    fn to_u128(self) -> u128;
    fn from_u128(v: u128) -> Self;
    const ZERO: Self;
    fn load_value(&self) -> Self {
        *self
    }
}
pub trait BitRegister: BitStore {}
macro_rules! st {
    ($($t:ty),*) => {$(
        impl BitStore for $t {
            const W: usize = <$t>::BITS as usize;
            type Mem = $t;
            const ZERO: Self = 0;
            fn to_u128(self) -> u128 { self as u128 }
            fn from_u128(v: u128) -> Self { v as $t }
        }
        impl BitRegister for $t {}
    )*};
}
st!(u8, u16, u32, u64, usize);
