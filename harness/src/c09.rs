//! C09: BOOLEAN, ENUMERATED and CHOICE indices, SEQUENCE preambles (12, 14, 19, 23), both directions.
use crate::nd;
use crate::refc::{same, R};
use crate::util::*;
use asn1_codecs::aper::*;
use bitvec::prelude::*;

fn indexed(p: usize, ub: i128, ext: bool, v: i128) -> R {
    let mut r = R::new();
    rpre(&mut r, p);
    if ext {
        r.put(0, 1);
    }
    r.constrained(0, ub, v);
    r.put(1, 1);
    r
}
/// An extension addition: a 1 bit and the normally small index.
fn extended(p: usize, v: i128) -> R {
    let mut r = R::new();
    rpre(&mut r, p);
    r.put(1, 1);
    r.normally_small(v as u128);
    r.put(1, 1);
    r
}
fn enc(choice: bool, p: usize, ub: i128, ext: bool) {
    let v = nd::between(0, ub);
    let mut d = AperCodecData::new();
    pre(&mut d, p);
    let e = if choice {
        encode::encode_choice_idx(&mut d, 0, ub, ext, v, false)
    } else {
        encode::encode_enumerated(&mut d, Some(0), Some(ub), ext, v, false)
    };
    assert!(e.is_ok(), "a valid index is rejected");
    let _ = encode::encode_bool(&mut d, true);
    cover!(true, "encoded");
    assert!(same(&d.into_bytes(), &indexed(p, ub, ext, v), 6), "encoding differs from X.691");
}
fn dec_of(choice: bool, r: &R, p: usize, ub: i128, ext: bool, want: (i128, bool)) {
    let mut d = AperCodecData::from_slice(&r.bytes::<7>());
    d.seek(p);
    let g = if choice {
        decode::decode_choice_idx(&mut d, 0, ub, ext)
    } else {
        decode::decode_enumerated(&mut d, Some(0), Some(ub), ext)
    };
    match g {
        Ok(g) => {
            cover!(true, "decoded");
            assert!(g.0 == want.0 && g.1 == want.1, "decoded index differs");
            tail(&mut d);
        }
        Err(_) => panic!("a valid encoding is rejected"),
    }
}
fn dec(choice: bool, p: usize, ub: i128, ext: bool) {
    let v = nd::between(0, ub);
    dec_of(choice, &indexed(p, ub, ext, v), p, ub, ext, (v, false))
}
fn bitmap(x: u32, n: usize, m: usize) -> BitVec<u8, Msb0> {
    let mut v = BitVec::<u8, Msb0>::new();
    let mut i = 0;
    while i < m {
        if i < n {
            v.push(x >> i & 1 == 1);
        }
        i += 1;
    }
    v
}
fn preamble(p: usize, ext: Option<bool>, x: u32, n: usize, m: usize) -> R {
    let mut r = R::new();
    rpre(&mut r, p);
    if let Some(e) = ext {
        r.bit(e);
    }
    let mut i = 0;
    while i < m {
        if i < n {
            r.bit(x >> i & 1 == 1);
        }
        i += 1;
    }
    r.put(1, 1);
    r
}
const M: usize = 18;

harnesses! {
    fn bool_() {
        let p = nd::upto(7);
        let v = nd::bool();
        let mut d = AperCodecData::new();
        pre(&mut d, p);
        assert!(encode::encode_bool(&mut d, v).is_ok(), "a boolean is rejected");
        let _ = encode::encode_bool(&mut d, true);
        let mut r = R::new();
        rpre(&mut r, p);
        r.bit(v);
        r.put(1, 1);
        d.seek(p);
        match decode::decode_bool(&mut d) {
            Ok(w) => assert!(w == v, "decoded boolean differs"),
            Err(_) => panic!("a valid encoding is rejected"),
        }
        tail(&mut d);
        assert!(same(&d.into_bytes(), &r, 3), "encoding differs from X.691");
    }
    fn enc_enumerated() { enc(false, nd::upto(7), nd::u8() as i128, nd::bool()) }
    fn enc_enumerated_big() { enc(false, 3, nd::u16() as i128, nd::bool()) }
    fn enc_choice() { enc(true, nd::upto(7), nd::u8() as i128, nd::bool()) }
    fn dec_enumerated_1() { dec(false, nd::upto(7), 1, nd::bool()) }
    fn dec_enumerated_0() { dec(false, nd::upto(7), 0, nd::bool()) }
    fn dec_enumerated_254() { dec(false, nd::upto(7), 254, nd::bool()) }
    fn dec_enumerated_255() { dec(false, nd::upto(7), 255, true) }
    fn dec_enumerated_1000() { dec(false, nd::upto(7), 1000, true) }
    fn dec_choice_2() { dec(true, nd::upto(7), 2, nd::bool()) }
    fn dec_choice_63() { dec(true, nd::upto(7), 63, nd::bool()) }
    fn dec_choice_300() { dec(true, nd::upto(7), 300, true) }
    fn dec_enumerated_added() {
        let p = nd::upto(7);
        let v = nd::u16() as i128;
        dec_of(false, &extended(p, v), p, 3, true, (v, true))
    }
    fn dec_choice_added() {
        let p = nd::upto(7);
        let v = nd::u16() as i128;
        dec_of(true, &extended(p, v), p, 3, true, (v, true))
    }
    fn preamble_enc() {
        let (p, x, n, ext) = (nd::upto(7), nd::u32(), nd::upto(M), nd::bool());
        let mut d = AperCodecData::new();
        pre(&mut d, p);
        assert!(encode::encode_sequence_header(&mut d, ext, &bitmap(x, n, M), false).is_ok(), "a preamble is rejected");
        let _ = encode::encode_bool(&mut d, true);
        let r = preamble(p, if ext { Some(false) } else { None }, x, n, M);
        assert!(same(&d.into_bytes(), &r, 5), "encoding differs from X.691");
    }
    fn preamble_dec() {
        let (p, x, n, ext) = (nd::upto(7), nd::u32(), nd::upto(M), nd::bool());
        let e = ext && nd::bool();
        let r = preamble(p, if ext { Some(e) } else { None }, x, n, M);
        let mut d = AperCodecData::from_slice(&r.bytes::<5>());
        d.seek(p);
        match decode::decode_sequence_header(&mut d, ext, n) {
            Ok((b, g)) => {
                cover!(true, "decoded");
                assert!(g == e && b.len() == n, "decoded preamble differs");
                let mut i = 0;
                while i < M {
                    if i < n {
                        assert!(b[i] == (x >> i & 1 == 1), "decoded presence bits differ");
                    }
                    i += 1;
                }
                tail(&mut d);
            }
            Err(_) => panic!("a valid preamble is rejected"),
        }
    }
}
