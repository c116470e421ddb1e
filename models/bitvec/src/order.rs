pub trait BitOrder: 'static + Copy {
    const MSB: bool;
}
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Msb0;
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Lsb0;
impl BitOrder for Msb0 {
    const MSB: bool = true;
}
impl BitOrder for Lsb0 {
    const MSB: bool = false;
}
pub type LocalBits = Lsb0;
