//! D02: derived CHOICE codecs: index, alternative, unknown alternatives.
use crate::nd;
use crate::refc::{same, R};
use crate::types::*;
use crate::util::*;
use asn1_codecs::aper::*;

fn put3(r: &mut R, k: usize, x: u8) {
    r.put(k as u128, 2);
    if k == 0 {
        r.bit(x & 1 == 1);
    } else if k == 1 {
        r.align();
        r.put(x as u128, 8);
    }
}
fn three(k: usize, x: u8) -> Three {
    match k {
        0 => Three::A(Flag(x & 1 == 1)),
        1 => Three::B(Octet(x)),
        _ => Three::C(Nothing),
    }
}
fn is3(c: &Three, k: usize, x: u8) -> bool {
    match c {
        Three::A(f) => k == 0 && f.0 == (x & 1 == 1),
        Three::B(o) => k == 1 && o.0 == x,
        Three::C(_) => k == 2,
    }
}
fn put2(r: &mut R, k: usize, x: u8) {
    r.bit(false);
    r.put((k < 3) as u128, 1);
    if k == 3 {
        r.put((x & 3) as u128, 3);
    } else {
        put3(r, k, x);
    }
}
fn two(k: usize, x: u8) -> Two {
    if k == 3 {
        Two::A(Small(x & 3))
    } else {
        Two::B(three(k, x))
    }
}
fn is2(c: &Two, k: usize, x: u8) -> bool {
    match c {
        Two::A(s) => k == 3 && s.0 == x & 3,
        Two::B(t) => is3(t, k, x),
    }
}

harnesses! {
    fn enc_three() {
        let (k, x, p) = (nd::upto(2), nd::u8(), nd::upto(7));
        let mut d = AperCodecData::new();
        pre(&mut d, p);
        assert!(three(k, x).encode(&mut d).is_ok(), "a valid value is rejected");
        let _ = encode::encode_bool(&mut d, true);
        let mut r = R::new();
        rpre(&mut r, p);
        put3(&mut r, k, x);
        r.put(1, 1);
        cover!(k == 2, "encoded");
        assert!(same(&d.into_bytes(), &r, 5), "encoding differs from X.691");
    }
    fn dec_three() {
        let (k, x, p) = (nd::upto(2), nd::u8(), nd::upto(7));
        let mut r = R::new();
        rpre(&mut r, p);
        put3(&mut r, k, x);
        r.put(1, 1);
        let mut d = AperCodecData::from_slice(&r.bytes::<4>());
        d.seek(p);
        match Three::decode(&mut d) {
            Ok(c) => assert!(is3(&c, k, x), "another alternative or value is decoded"),
            Err(_) => panic!("a valid encoding is rejected"),
        }
        cover!(k == 1, "decoded");
        tail(&mut d);
    }
    fn enc_two() {
        let (k, x) = (nd::upto(3), nd::u8());
        let mut d = AperCodecData::new();
        pre(&mut d, 3);
        assert!(two(k, x).encode(&mut d).is_ok(), "a valid value is rejected");
        let _ = encode::encode_bool(&mut d, true);
        let mut r = R::new();
        rpre(&mut r, 3);
        put2(&mut r, k, x);
        r.put(1, 1);
        cover!(k == 3, "encoded");
        assert!(same(&d.into_bytes(), &r, 5), "encoding differs from X.691");
    }
    fn dec_two() {
        let (k, x) = (nd::upto(3), nd::u8());
        let mut r = R::new();
        rpre(&mut r, 3);
        put2(&mut r, k, x);
        r.put(1, 1);
        let mut d = AperCodecData::from_slice(&r.bytes::<4>());
        d.seek(3);
        match Two::decode(&mut d) {
            Ok(c) => assert!(is2(&c, k, x), "another alternative or value is decoded"),
            Err(_) => panic!("a valid encoding is rejected"),
        }
        cover!(k == 3, "decoded");
        tail(&mut d);
    }
    /// One alternative needs no index bits.
    fn one() {
        let x = nd::u8();
        nd::assume(x <= 5);
        let mut d = AperCodecData::new();
        assert!(One::A(Small(x)).encode(&mut d).is_ok(), "a valid value is rejected");
        let _ = encode::encode_bool(&mut d, true);
        let mut r = R::new();
        r.bit(false);
        r.put(x as u128, 3);
        r.put(1, 1);
        d.seek(0);
        match One::decode(&mut d) {
            Ok(One::A(s)) => assert!(s.0 == x, "another value is decoded"),
            Err(_) => panic!("a valid encoding is rejected"),
        }
        tail(&mut d);
        assert!(same(&d.into_bytes(), &r, 3), "encoding differs from X.691");
    }
    /// Indices that no alternative has, and additions, are errors, never another alternative.
    fn unknown() {
        let b = nd::bytes::<2>();
        nd::assume(b[0] >> 6 != 1 || b[0] == 0x40); // padding
        let mut d = AperCodecData::from_slice(&b);
        let g = Three::decode(&mut d);
        cover!(g.is_err(), "rejected");
        cover!(g.is_ok(), "accepted");
        match g {
            Ok(c) => assert!(is3(&c, (b[0] >> 6) as usize, if b[0] >> 6 == 0 { b[0] >> 5 } else { b[1] }), "another alternative or value is decoded"),
            Err(_) => assert!(b[0] >> 6 == 3, "a valid encoding is rejected"),
        }
    }
    fn unknown_added() {
        let b = nd::bytes::<2>();
        let mut d = AperCodecData::from_slice(&b);
        if Two::decode(&mut d).is_ok() {
            assert!(b[0] >> 7 == 0, "an unknown addition is decoded as an alternative of the root");
            cover!(true, "accepted");
        }
    }
}
