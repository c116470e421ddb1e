//! D05: derived codecs of the primitive types: the constraint given in the attributes is the one
//! used, and no decoded value is changed to fit its Rust type.
use crate::nd;
use crate::refc::{same, R};
use crate::types::*;
use crate::util::*;
use asn1_codecs::aper::*;
use bitvec::prelude::*;

fn both<T: AperCodec<Output = T>, F: Fn(&T) -> bool>(x: &T, p: usize, mut r: R, f: F) {
    r.put(1, 1);
    let mut d = AperCodecData::new();
    pre(&mut d, p);
    assert!(x.encode(&mut d).is_ok(), "a valid value is rejected");
    let _ = encode::encode_bool(&mut d, true);
    cover!(true, "encoded");
    d.seek(p);
    match T::decode(&mut d) {
        Ok(y) => assert!(f(&y), "another value is decoded"),
        Err(_) => panic!("a valid encoding is rejected"),
    }
    tail(&mut d);
    assert!(same(&d.into_bytes(), &r, 14), "encoding differs from X.691");
}
fn start(p: usize) -> R {
    let mut r = R::new();
    rpre(&mut r, p);
    r
}
/// The derived decoder gives what the codec gives if it fits, else an error.
fn fits<T: AperCodec<Output = T>, F: Fn(&T) -> i128>(lb: Option<i128>, ub: Option<i128>, ext: bool, lo: i128, hi: i128, f: F) {
    let b = nd::bytes::<4>();
    let mut d = AperCodecData::from_slice(&b);
    let mut e = AperCodecData::from_slice(&b);
    let v = decode::decode_integer(&mut d, lb, ub, ext);
    match (T::decode(&mut e), v) {
        (Ok(x), Ok(v)) => {
            cover!(true, "decoded");
            assert!(f(&x) == v.0, "a value is changed to fit its type")
        }
        (Err(_), Ok(v)) => assert!(v.0 < lo || v.0 > hi, "a value that fits is rejected"),
        (Ok(_), Err(_)) => panic!("an invalid encoding is accepted"),
        (Err(_), Err(_)) => (),
    }
}
fn string(n: usize) -> (String, [u8; 2]) {
    let b = nd::bytes::<2>();
    nd::assume(b[0] >= 0x20 && b[0] < 0x7f && b[1] >= 0x20 && b[1] < 0x7f);
    (unsafe { String::from_utf8_unchecked(vec_of(&b, n)) }, b)
}

harnesses! {
    fn flag() {
        let (p, v) = (nd::upto(7), nd::bool());
        let mut r = start(p);
        r.bit(v);
        both(&Flag(v), p, r, |y| y.0 == v);
    }
    fn nothing() { both(&Nothing, 3, start(3), |_| true) }
    fn small() {
        let v = nd::u8();
        nd::assume(v <= 5);
        let mut r = start(2);
        r.put(v as u128, 3);
        both(&Small(v), 2, r, |y| y.0 == v);
    }
    fn signed() {
        let v = nd::i8();
        nd::assume(v >= -10 && v <= 10);
        let mut r = start(0);
        r.bit(false);
        r.put((v as i128 + 10) as u128, 5);
        both(&Signed(v), 0, r, |y| y.0 == v);
    }
    fn any8() {
        let v = nd::i8();
        let mut r = start(1);
        r.unconstrained(v as i128);
        both(&Any8(v), 1, r, |y| y.0 == v);
    }
    fn any64() {
        let v = nd::i64();
        let mut r = start(1);
        r.unconstrained(v as i128);
        both(&Any64(v), 1, r, |y| y.0 == v);
    }
    fn full64() {
        let v = nd::i64();
        let mut r = start(4);
        r.constrained(i64::MIN as i128, i64::MAX as i128, v as i128);
        both(&Full64(v), 4, r, |y| y.0 == v);
    }
    fn semi16() {
        let v = nd::u16();
        let mut r = start(4);
        r.semi(0, v as i128);
        both(&Semi16(v), 4, r, |y| y.0 == v);
    }
    fn fits_any8() { fits::<Any8, _>(None, None, false, -128, 127, |y| y.0 as i128) }
    fn fits_semi16() { fits::<Semi16, _>(Some(0), None, false, 0, 65535, |y| y.0 as i128) }
    fn fits_signed() { fits::<Signed, _>(Some(-10), Some(10), true, -128, 127, |y| y.0 as i128) }
    /// Root enumerations are numbered from 0, additions behind them, none is mistaken for another.
    fn color() {
        let b = nd::bytes::<4>();
        let mut d = AperCodecData::from_slice(&b);
        let mut e = AperCodecData::from_slice(&b);
        let v = decode::decode_enumerated(&mut d, Some(0), Some(2), true);
        match (Color::decode(&mut e), v) {
            (Ok(x), Ok((v, false))) => assert!(x.0 as i128 == v, "another enumeration is decoded"),
            (Ok(x), Ok((v, true))) => {
                cover!(true, "addition");
                assert!(x.0 as i128 == v + 3, "an addition is mistaken for another enumeration")
            }
            (Err(_), Ok((v, x))) => assert!(x && v > 252, "an enumeration that fits is rejected"),
            (Ok(_), Err(_)) => panic!("an invalid encoding is accepted"),
            (Err(_), Err(_)) => (),
        }
    }
    fn level() {
        let v = nd::u8();
        let mut d = AperCodecData::new();
        let ok = Level(v).encode(&mut d).is_ok();
        assert!(ok == (v <= 2), "an enumeration is accepted exactly if it exists");
        nd::assume(v <= 2);
        let mut r = start(6);
        r.put(v as u128, 2);
        both(&Level(v), 6, r, |y| y.0 == v);
    }
    fn pair() {
        let b = nd::bytes::<2>();
        let mut r = start(3);
        r.octets(&b, 2);
        both(&Pair(vec_of(&b, 2)), 3, r, |y| is_prefix(&y.0, &b, 2));
    }
    fn name() {
        let b = nd::bytes::<3>();
        let n = nd::upto(3);
        nd::assume(n >= 1);
        let mut r = start(1);
        r.string_head(true, 1, Some(3), n, 2, 0);
        r.octets(&b, n);
        both(&Name(vec_of(&b, n)), 1, r, |y| is_prefix(&y.0, &b, n));
    }
    fn bits() {
        let x = nd::u8();
        let mut v = BitVec::<u8, Msb0>::new();
        v.push(x & 4 != 0);
        v.push(x & 2 != 0);
        v.push(x & 1 != 0);
        let mut r = start(1);
        r.bit(false);
        r.put((x & 7) as u128, 3);
        both(&Bits(v), 1, r, |y| y.0.len() == 3 && y.0[0] == (x & 4 != 0) && y.0[1] == (x & 2 != 0) && y.0[2] == (x & 1 != 0));
    }
    fn text() {
        let n = nd::upto(2);
        nd::assume(n >= 1);
        let (s, b) = string(n);
        let mut r = start(0);
        r.string_head(true, 1, Some(150), n, 2, 2);
        r.octets(&b, n);
        both(&Text(s), 0, r, |y| is_prefix(y.0.as_bytes(), &b, n));
    }
    fn code() {
        let (s, b) = string(2);
        let mut r = start(5);
        r.octets(&b, 2);
        both(&Code(s), 5, r, |y| is_prefix(y.0.as_bytes(), &b, 2));
    }
    fn label() {
        let n = nd::upto(2);
        let (s, b) = string(n);
        let mut r = start(5);
        r.length(n);
        r.octets(&b, n);
        both(&Label(s), 5, r, |y| is_prefix(y.0.as_bytes(), &b, n));
    }
    /// Values outside the constraint of the attributes are rejected.
    fn invalid() {
        let v = nd::i8();
        let mut d = AperCodecData::new();
        assert!(Signed(v).encode(&mut d).is_ok() == (v >= -10 && v <= 10), "an integer is accepted exactly if its constraint holds");
        let n = nd::upto(4);
        let mut d = AperCodecData::new();
        assert!(Pair(vec_of(&[0u8; 4], n)).encode(&mut d).is_ok() == (n == 2), "a string is accepted exactly if its size constraint holds");
        let mut d = AperCodecData::new();
        assert!(Name(vec_of(&[0u8; 4], n)).encode(&mut d).is_ok() == (n >= 1 && n <= 3), "a string is accepted exactly if its size constraint holds");
    }
}
