//! D04: derived SEQUENCE OF codecs: count and elements, in order; size constraints enforced.
use crate::nd;
use crate::refc::{same, R};
use crate::types::*;
use crate::util::*;
use asn1_codecs::aper::*;

const M: usize = 4;

fn vec<T, F: Fn(u8) -> T>(b: &[u8; M], n: usize, f: F) -> Vec<T> {
    let mut v = Vec::with_capacity(M);
    let mut i = 0;
    while i < M {
        if i < n {
            v.push(f(b[i]));
        }
        i += 1;
    }
    v
}
/// Elements of `w` bits (the low bits of `b[i]`); octets are aligned.
fn elems(r: &mut R, b: &[u8; M], n: usize, w: usize) {
    let mut i = 0;
    while i < M {
        if i < n {
            if w == 8 {
                r.align();
            }
            r.put((b[i] & ((1u16 << w) - 1) as u8) as u128, w);
        }
        i += 1;
    }
}
fn smalls() -> [u8; M] {
    let b = nd::bytes::<M>();
    let mut i = 0;
    while i < M {
        nd::assume(b[i] <= 5);
        i += 1;
    }
    b
}
fn enc<T: AperCodec>(x: &T, r: &R, p: usize) {
    let mut d = AperCodecData::new();
    pre(&mut d, p);
    assert!(x.encode(&mut d).is_ok(), "a valid list is rejected");
    let _ = encode::encode_bool(&mut d, true);
    cover!(true, "encoded");
    assert!(same(&d.into_bytes(), r, 8), "encoding differs from X.691");
}
fn all_are(v: &[Small], b: &[u8; M], n: usize) {
    all(v, b, n, |s| s.0)
}
fn all<T, F: Fn(&T) -> u8>(v: &[T], b: &[u8; M], n: usize, f: F) {
    assert!(v.len() == n, "another number of elements is decoded");
    let mut i = 0;
    while i < M {
        if i < n {
            assert!(f(&v[i]) == b[i], "another element is decoded");
        }
        i += 1;
    }
}

/// A list of `n` elements 0..5 whose count takes `w` bits.
fn upto3(n: usize) {
    let b = smalls();
    let mut r = R::new();
    rpre(&mut r, 3);
    r.put(n as u128, 2);
    elems(&mut r, &b, n, 3);
    r.put(1, 1);
    enc(&UpTo3(vec(&b, n, Small)), &r, 3);
}
fn many(n: usize) {
    let b = smalls();
    let mut r = R::new();
    rpre(&mut r, 1);
    r.length(n);
    elems(&mut r, &b, n, 3);
    r.put(1, 1);
    enc(&Many(vec(&b, n, Small)), &r, 1);
}
fn dec_upto3_of(max: usize) {
    let (b, n) = (smalls(), nd::upto(max));
    let mut r = R::new();
    rpre(&mut r, 4);
    r.put(n as u128, 2);
    elems(&mut r, &b, n, 3);
    r.put(1, 1);
    let mut d = AperCodecData::from_slice(&r.bytes::<3>());
    d.seek(4);
    match UpTo3::decode(&mut d) {
        Ok(l) => all(&l.0, &b, n, |s| s.0),
        Err(_) => panic!("a valid encoding is rejected"),
    }
    cover!(n == max, "decoded");
    tail(&mut d);
}
fn dec_many_of(max: usize) {
    let (b, n) = (smalls(), nd::upto(max));
    let mut r = R::new();
    rpre(&mut r, 1);
    r.length(n);
    elems(&mut r, &b, n, 3);
    r.put(1, 1);
    let mut d = AperCodecData::from_slice(&r.bytes::<4>());
    d.seek(1);
    match Many::decode(&mut d) {
        Ok(l) => all(&l.0, &b, n, |s| s.0),
        Err(_) => panic!("a valid encoding is rejected"),
    }
    cover!(n == max, "decoded");
    tail(&mut d);
}
fn pairs_bits(n: usize) -> ([u8; 2], [bool; 2], [u8; 2], R) {
    let (a, b, c) = (nd::bytes::<2>(), [nd::bool(), nd::bool()], nd::bytes::<2>());
    nd::assume(a[0] <= 5 && a[1] <= 5);
    let mut r = R::new();
    rpre(&mut r, 2);
    r.align();
    r.put(n as u128, 16);
    let mut i = 0;
    while i < 2 {
        if i < n {
            r.put(a[i] as u128, 3);
            r.bit(b[i]);
            r.align();
            r.put(c[i] as u128, 8);
        }
        i += 1;
    }
    r.put(1, 1);
    (a, b, c, r)
}
fn pairs(n: usize) {
    let (a, b, c, r) = pairs_bits(n);
    let mut v = Vec::with_capacity(2);
    let mut i = 0;
    while i < n {
        v.push(Plain { a: Small(a[i]), b: Flag(b[i]), c: Octet(c[i]) });
        i += 1;
    }
    enc(&Pairs(v), &r, 2);
}
/// An element that violates its constraint fails the whole list.
fn elem(n: usize) {
    let b = nd::bytes::<M>();
    let mut d = AperCodecData::new();
    let ok = UpTo3(vec(&b, n, Small)).encode(&mut d).is_ok();
    cover!(!ok, "rejected");
    assert!(ok == ((n < 1 || b[0] <= 5) && (n < 2 || b[1] <= 5)), "an element outside its constraint is accepted, or one inside rejected");
}
fn size(n: usize) {
    let b = smalls();
    let mut d = AperCodecData::new();
    let ok = UpTo3(vec(&b, n, Small)).encode(&mut d).is_ok();
    assert!(ok == (n <= 3), "a list is accepted exactly if its size constraint holds");
    let mut d = AperCodecData::new();
    let ok = Just2(vec(&b, n, Octet)).encode(&mut d).is_ok();
    assert!(ok == (n == 2), "a list is accepted exactly if its size constraint holds");
    cover!(true, "done");
}

fn enc_ext(n: usize) {
    let x = nd::bytes::<M>();
    let mut r = R::new();
    r.bit(false);
    r.put((n - 1) as u128, 1);
    elems(&mut r, &x, n, 1);
    r.put(1, 1);
    enc(&Ext(vec(&x, n, |b| Flag(b & 1 == 1))), &r, 0);
}
fn dec_ext(more: bool, n: usize) {
    let mut x = nd::bytes::<M>();
    let mut i = 0;
    while i < M {
        x[i] &= 1;
        i += 1;
    }
    let mut r = R::new();
    r.bit(more);
    if more {
        r.length(n);
    } else {
        r.put((n - 1) as u128, 1);
    }
    elems(&mut r, &x, n, 1);
    r.put(1, 1);
    let mut d = AperCodecData::from_slice(&r.bytes::<4>());
    match Ext::decode(&mut d) {
        Ok(l) => all(&l.0, &x, n, |f| f.0 as u8),
        Err(_) => panic!("a valid encoding is rejected"),
    }
    cover!(true, "decoded");
    tail(&mut d);
}
/// Elements that are sequences, a 16-bit count.
fn dec_pairs(n: usize) {
    let (a, b, c, r) = pairs_bits(n);
    let mut d = AperCodecData::from_slice(&r.bytes::<8>());
    d.seek(2);
    match Pairs::decode(&mut d) {
        Ok(l) => {
            assert!(l.0.len() == n, "another number of elements is decoded");
            let mut i = 0;
            while i < n {
                assert!(l.0[i].a.0 == a[i] && l.0[i].b.0 == b[i] && l.0[i].c.0 == c[i], "another element is decoded");
                i += 1;
            }
        }
        Err(_) => panic!("a valid encoding is rejected"),
    }
    cover!(true, "decoded");
    tail(&mut d);
}

harnesses! {
    fn enc_upto3_0() {
        upto3(0)
    }
    fn enc_upto3_1() {
        upto3(1)
    }
    fn enc_upto3_2() {
        upto3(2)
    }
    fn enc_upto3_3() {
        upto3(3)
    }
    fn enc_many_0() {
        many(0)
    }
    fn enc_many_1() {
        many(1)
    }
    fn enc_many_3() {
        many(3)
    }
    fn enc_pairs_0() {
        pairs(0)
    }
    fn enc_pairs_2() {
        pairs(2)
    }
    fn dec_upto3() {
        dec_upto3_of(3)
    }
    fn dec_many() {
        dec_many_of(2)
    }
    fn t_dec_many() {
        dec_many_of(4)
    }
    fn dec_pairs_0() {
        dec_pairs(0)
    }
    fn t_dec_pairs_1() {
        dec_pairs(1)
    }
    fn t_dec_pairs_2() {
        dec_pairs(2)
    }
    fn size_0() {
        size(0)
    }
    fn size_1() {
        size(1)
    }
    fn size_3() {
        size(3)
    }
    fn size_4() {
        size(4)
    }
    fn elem_1() {
        elem(1)
    }
    fn elem_2() {
        elem(2)
    }
    fn just2() {
        let b = nd::bytes::<M>();
        let mut r = R::new();
        rpre(&mut r, 5);
        elems(&mut r, &b, 2, 8);
        r.put(1, 1);
        enc(&Just2(vec(&b, 2, Octet)), &r, 5);
        let mut d = AperCodecData::from_slice(&r.bytes::<4>());
        d.seek(5);
        match Just2::decode(&mut d) {
            Ok(l) => all(&l.0, &b, 2, |s| s.0),
            Err(_) => panic!("a valid encoding is rejected"),
        }
        tail(&mut d);
    }
    fn enc_ext_1() {
        enc_ext(1)
    }
    fn enc_ext_2() {
        enc_ext(2)
    }
    fn dec_ext_1() {
        dec_ext(false, 1)
    }
    fn dec_ext_2() {
        dec_ext(false, 2)
    }
    fn dec_ext_more_0() {
        dec_ext(true, 0)
    }
    fn dec_ext_more_2() {
        dec_ext(true, 2)
    }
    fn dec_ext_more_3() {
        dec_ext(true, 3)
    }
    fn t_dec_ext_more_4() {
        dec_ext(true, 4)
    }
    /// Any octets: decoded exactly if every element is valid.
    fn any() {
        let b = nd::bytes::<2>();
        let all = (b[0] as u16) << 8 | b[1] as u16;
        let n = (all >> 10 & 3) as usize;
        let e = [(all >> 7 & 7) as u8, (all >> 4 & 7) as u8, (all >> 1 & 7) as u8, 0];
        let ok = (n < 1 || e[0] <= 5) && (n < 2 || e[1] <= 5) && (n < 3 || e[2] <= 5);
        let mut d = AperCodecData::from_slice(&b);
        d.seek(4);
        match UpTo3::decode(&mut d) {
            Ok(l) => {
                cover!(n == 3, "accepted");
                assert!(ok, "an invalid encoding is accepted");
                all_are(&l.0, &e, n);
            }
            Err(_) => {
                cover!(true, "rejected");
                assert!(!ok, "a valid encoding is rejected")
            }
        }
    }
}
