//! Shared by the harnesses for generated code.
use crate::nd;
use crate::refc::{same, R};
use crate::util::*;
use asn1_codecs::aper::*;

pub fn start(p: usize) -> R {
    let mut r = R::new();
    rpre(&mut r, p);
    r
}
/// `x`, written behind `p` bits, gives `r`.
pub fn written<T: AperCodec>(x: &T, p: usize, r: &R) {
    let mut d = AperCodecData::new();
    pre(&mut d, p);
    assert!(x.encode(&mut d).is_ok(), "a valid value is rejected");
    let _ = encode::encode_bool(&mut d, true);
    let mut r = R { ..*r };
    r.put(1, 1);
    cover!(true, "encoded");
    assert!(same(&d.into_bytes(), &r, 14), "encoding differs from X.691");
}
/// `r` (whose first `p` bits are something else) is read as a value for which `f` holds.
pub fn read<T: AperCodec<Output = T>, F: Fn(&T) -> bool>(p: usize, r: &R, f: F) -> T {
    let mut r = R { ..*r };
    r.put(1, 1);
    let mut d = AperCodecData::from_slice(&r.bytes::<14>());
    d.seek(p);
    match T::decode(&mut d) {
        Ok(y) => {
            assert!(f(&y), "another value is decoded");
            cover!(true, "decoded");
            tail(&mut d);
            y
        }
        Err(_) => panic!("a valid encoding is rejected"),
    }
}
pub fn both<T: AperCodec<Output = T>, F: Fn(&T) -> bool>(x: &T, p: usize, r: R, f: F) {
    written(x, p, &r);
    read::<T, F>(p, &r, f);
}
pub fn rejected<T: AperCodec>(x: &T) -> bool {
    let mut d = AperCodecData::new();
    x.encode(&mut d).is_err()
}
/// What was read is written back the same.
pub fn again<T: AperCodec<Output = T>, F: Fn(&T) -> bool>(p: usize, r: R, f: F) {
    let y = read::<T, F>(p, &r, f);
    written(&y, p, &r);
}
pub fn tiny() -> u8 {
    let v = nd::u8();
    nd::assume(v <= 5);
    v
}
pub fn ascii<const N: usize>() -> [u8; N] {
    let b = nd::bytes::<N>();
    let mut i = 0;
    while i < N {
        nd::assume((b[i] >= b'A' && b[i] <= b'Z') || b[i] == b' ');
        i += 1;
    }
    b
}
pub fn string<const N: usize>(b: &[u8; N], n: usize) -> String {
    unsafe { String::from_utf8_unchecked(vec_of(b, n)) }
}
