//! C07: BIT STRING, X.691 clause 16 (ALIGNED), in both directions.
use crate::nd;
use crate::refc::{same, R};
use crate::util::*;
use asn1_codecs::aper::*;
use bitvec::prelude::*;

/// Up to M bits, given by the low bits of `x` (bit i of the string = bit i of `x`).
const M: usize = pick(6, 12);

fn reference(p: usize, lb: usize, ub: Option<usize>, ext: bool, x: u32, n: usize, m: usize) -> R {
    let mut r = R::new();
    rpre(&mut r, p);
    r.string_head(ext, lb, ub, n, 16, 0);
    let mut i = 0;
    while i < m {
        if i < n {
            r.put((x >> i & 1) as u128, 1);
        }
        i += 1;
    }
    r.put(1, 1);
    r
}
fn bits(x: u32, n: usize, m: usize) -> BitVec<u8, Msb0> {
    let mut v = BitVec::<u8, Msb0>::new();
    let mut i = 0;
    while i < m {
        if i < n {
            v.push(x >> i & 1 == 1);
        }
        i += 1;
    }
    v
}
fn enc(p: usize, lb: usize, ub: Option<usize>, ext: bool, n: usize, m: usize) {
    let x = nd::u32();
    nd::assume(n >= lb && n <= m && (ub.is_none() || n <= ub.unwrap()));
    let mut d = AperCodecData::new();
    pre(&mut d, p);
    let e = encode::encode_bitstring(&mut d, big(lb), bigo(ub), ext, &bits(x, n, m), false);
    assert!(e.is_ok(), "a string within its size constraint is rejected");
    let _ = encode::encode_bool(&mut d, true);
    cover!(true, "encoded");
    assert!(same(&d.into_bytes(), &reference(p, lb, ub, ext, x, n, m), (m + 7) / 8 + 5), "encoding differs from X.691");
}
fn dec(p: usize, lb: usize, ub: Option<usize>, ext: bool, n: usize, m: usize) {
    let x = nd::u32();
    nd::assume(n >= lb && n <= m && (ub.is_none() || n <= ub.unwrap()));
    let r = reference(p, lb, ub, ext, x, n, m);
    let mut d = AperCodecData::from_slice(&r.bytes::<8>());
    d.seek(p);
    match decode::decode_bitstring(&mut d, big(lb), bigo(ub), ext) {
        Ok(v) => {
            cover!(true, "decoded");
            assert!(v.len() == n, "decoded string has another length");
            let mut i = 0;
            while i < m {
                if i < n {
                    assert!(v[i] == (x >> i & 1 == 1), "decoded bits differ");
                }
                i += 1;
            }
            tail(&mut d);
        }
        Err(_) => panic!("a valid encoding is rejected"),
    }
}

harnesses! {
    fn enc_sym() {
        let (lb, ub) = size_bounds(M);
        enc(nd::upto(7), lb, ub, nd::bool(), nd::upto(M), M)
    }
    fn enc_fix16() { enc(nd::upto(7), 16, Some(16), false, 16, 16) }
    fn enc_fix17() { enc(nd::upto(7), 17, Some(17), nd::bool(), 17, 17) }
    fn enc_range() { enc(1, 14, Some(18), false, nd::upto(18), 18) }
    fn dec_fix5() { dec(nd::upto(7), 5, Some(5), nd::bool(), 5, 5) }
    fn dec_fix16() { dec(nd::upto(7), 16, Some(16), false, 16, 16) }
    fn dec_fix17() { dec(nd::upto(7), 17, Some(17), false, 17, 17) }
    fn dec_range() { dec(1, 2, Some(6), false, nd::upto(6), 6) }
    fn dec_range_ext() { dec(4, 14, Some(18), true, nd::upto(18), 18) }
    fn dec_any() { dec(2, 0, None, false, nd::upto(6), 6) }
    fn dec_big() { dec(6, 1, Some(65536), true, nd::upto(6), 6) }
    fn t_dec_sym() {
        let (lb, ub) = size_bounds(M);
        dec(nd::upto(7), lb, ub, nd::bool(), nd::upto(M), M)
    }
    /// Beyond the root: extension bit, general length, octet-aligned contents.
    fn dec_extended() {
        let (x, n) = (nd::u32(), nd::upto(M));
        let mut r = R::new();
        rpre(&mut r, 2);
        r.bit(true);
        r.length(n);
        let mut i = 0;
        while i < M {
            if i < n {
                r.bit(x >> i & 1 == 1);
            }
            i += 1;
        }
        r.put(1, 1);
        let mut d = AperCodecData::from_slice(&r.bytes::<8>());
        d.seek(2);
        match decode::decode_bitstring(&mut d, Some(3), Some(4), true) {
            Ok(v) => {
                cover!(n > 4, "decoded");
                assert!(v.len() == n, "decoded string has another length");
                let mut i = 0;
                while i < M {
                    assert!(i >= n || v[i] == (x >> i & 1 == 1), "decoded bits differ");
                    i += 1;
                }
                tail(&mut d);
            }
            Err(_) => panic!("a valid encoding is rejected"),
        }
    }
}
