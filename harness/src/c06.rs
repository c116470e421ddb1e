//! C06: OCTET STRING, X.691 clause 17 (ALIGNED), in both directions.
use crate::nd;
use crate::refc::{same, R};
use crate::util::*;
use asn1_codecs::aper::*;

const N: usize = pick(4, 8);

fn reference(p: usize, lb: usize, ub: Option<usize>, ext: bool, b: &[u8; N], n: usize) -> R {
    let mut r = R::new();
    rpre(&mut r, p);
    r.string_head(ext, lb, ub, n, 2, 0);
    r.octets(b, n);
    r.put(1, 1);
    r
}

fn enc(p: usize, lb: usize, ub: Option<usize>, ext: bool) {
    let b = nd::bytes::<N>();
    let n = nd::upto(N);
    nd::assume(n >= lb && (ub.is_none() || n <= ub.unwrap()));
    let mut d = AperCodecData::new();
    pre(&mut d, p);
    let e = encode::encode_octetstring(&mut d, big(lb), bigo(ub), ext, &vec_of(&b, n), false);
    assert!(e.is_ok(), "a string within its size constraint is rejected");
    let _ = encode::encode_bool(&mut d, true);
    let r = reference(p, lb, ub, ext, &b, n);
    cover!(n > 0, "non-empty");
    assert!(same(&d.into_bytes(), &r, N + 4), "encoding differs from X.691");
}

fn dec(p: usize, lb: usize, ub: Option<usize>, ext: bool) {
    let b = nd::bytes::<N>();
    let n = nd::upto(N);
    nd::assume(n >= lb && (ub.is_none() || n <= ub.unwrap()));
    let r = reference(p, lb, ub, ext, &b, n);
    let mut d = AperCodecData::from_slice(&r.bytes::<{ N + 4 }>());
    d.seek(p);
    match decode::decode_octetstring(&mut d, big(lb), bigo(ub), ext) {
        Ok(v) => {
            assert!(is_prefix(&v, &b, n), "decoded octets differ");
            tail(&mut d);
            cover!(n > 0, "decoded");
        }
        Err(_) => panic!("a valid encoding is rejected"),
    }
}

/// Beyond the root: extension bit, general length, octet-aligned contents.
fn dec_extended(p: usize, lb: usize, ub: usize) {
    let b = nd::bytes::<N>();
    let n = nd::upto(N);
    let mut r = R::new();
    rpre(&mut r, p);
    r.bit(true);
    r.length(n);
    r.octets(&b, n);
    r.put(1, 1);
    let mut d = AperCodecData::from_slice(&r.bytes::<{ N + 4 }>());
    d.seek(p);
    match decode::decode_octetstring(&mut d, big(lb), big(ub), true) {
        Ok(v) => {
            assert!(is_prefix(&v, &b, n), "decoded octets differ");
            tail(&mut d);
            cover!(n > ub, "decoded");
        }
        Err(_) => panic!("a valid encoding is rejected"),
    }
}

harnesses! {
    fn enc_sym() {
        let (lb, ub) = size_bounds(N);
        enc(nd::upto(7), lb, ub, nd::bool())
    }
    fn t_enc_sym0() {
        let (lb, ub) = size_bounds(N);
        enc(3, lb, ub, false)
    }
    fn t_dec_sym() {
        let (lb, ub) = size_bounds(N);
        dec(nd::upto(7), lb, ub, nd::bool())
    }
    fn t_dec_sym0() {
        let (lb, ub) = size_bounds(N);
        dec(3, lb, ub, false)
    }
    fn enc_fix2() { enc(nd::upto(7), 2, Some(2), nd::bool()) }
    fn dec_fix2() { dec(nd::upto(7), 2, Some(2), nd::bool()) }
    fn enc_fix3() { enc(nd::upto(7), 3, Some(3), nd::bool()) }
    fn dec_fix3() { dec(nd::upto(7), 3, Some(3), nd::bool()) }
    fn dec_0_3() { dec(nd::upto(7), 0, Some(3), nd::bool()) }
    fn dec_any() { dec(4, 0, None, true) }
    fn dec_any_aligned() { dec(0, 0, None, false) }
    fn dec_big() { dec(1, 1, Some(70000), false) }
    fn enc_big() { enc(1, 1, Some(70000), false) }
    fn dec_extended_fix() { dec_extended(3, 1, 1) }
    fn dec_extended_range() { dec_extended(0, 1, 2) }
}
