//! C08: VisibleString, PrintableString, UTF8String, X.691 clause 30 (ALIGNED), in both directions.
use crate::nd;
use crate::refc::{same, R};
use crate::util::*;
use asn1_codecs::aper::*;

const N: usize = pick(3, 6);

fn reference(p: usize, lb: usize, ub: Option<usize>, ext: bool, b: &[u8; N], n: usize) -> R {
    let mut r = R::new();
    rpre(&mut r, p);
    r.string_head(ext, lb, ub, n, 2, 2);
    r.octets(b, n);
    r.put(1, 1);
    r
}
fn ascii() -> [u8; N] {
    let b = nd::bytes::<N>();
    let mut i = 0;
    while i < N {
        nd::assume(b[i] >= 0x20 && b[i] < 0x7f);
        i += 1;
    }
    b
}
fn text(b: &[u8; N], n: usize) -> String {
    unsafe { String::from_utf8_unchecked(vec_of(b, n)) }
}
const VISIBLE: u8 = 0;
const PRINTABLE: u8 = 1;
const UTF8: u8 = 2;

fn enc(k: u8, p: usize, lb: usize, ub: Option<usize>, ext: bool, n: usize) {
    let b = ascii();
    nd::assume(n >= lb && (ub.is_none() || n <= ub.unwrap()));
    let s = text(&b, n);
    let mut d = AperCodecData::new();
    pre(&mut d, p);
    let e = match k {
        VISIBLE => encode::encode_visible_string(&mut d, big(lb), bigo(ub), ext, &s, false),
        PRINTABLE => encode::encode_printable_string(&mut d, big(lb), bigo(ub), ext, &s, false),
        _ => encode::encode_utf8_string(&mut d, big(lb), bigo(ub), ext, &s, false),
    };
    assert!(e.is_ok(), "a string within its size constraint is rejected");
    let _ = encode::encode_bool(&mut d, true);
    let r = if k == UTF8 { reference(p, 0, None, false, &b, n) } else { reference(p, lb, ub, ext, &b, n) };
    cover!(true, "encoded");
    assert!(same(&d.into_bytes(), &r, N + 4), "encoding differs from X.691");
}
fn dec(k: u8, p: usize, lb: usize, ub: Option<usize>, ext: bool, n: usize) {
    let b = ascii();
    nd::assume(n >= lb && (ub.is_none() || n <= ub.unwrap()));
    let r = if k == UTF8 { reference(p, 0, None, false, &b, n) } else { reference(p, lb, ub, ext, &b, n) };
    let mut d = AperCodecData::from_slice(&r.bytes::<{ N + 4 }>());
    d.seek(p);
    let s = match k {
        VISIBLE => decode::decode_visible_string(&mut d, big(lb), bigo(ub), ext),
        PRINTABLE => decode::decode_printable_string(&mut d, big(lb), bigo(ub), ext),
        _ => decode::decode_utf8_string(&mut d, big(lb), bigo(ub), ext),
    };
    match s {
        Ok(s) => {
            cover!(true, "decoded");
            assert!(is_prefix(s.as_bytes(), &b, n), "decoded characters differ");
            tail(&mut d);
        }
        Err(_) => panic!("a valid encoding is rejected"),
    }
}

harnesses! {
    fn enc_visible() {
        let (lb, ub) = size_bounds(N);
        enc(VISIBLE, nd::upto(7), lb, ub, nd::bool(), nd::upto(N))
    }
    fn enc_printable() { enc(PRINTABLE, nd::upto(7), 1, Some(150), nd::bool(), nd::upto(N)) }
    fn enc_utf8() {
        let (lb, ub) = size_bounds(N);
        enc(UTF8, nd::upto(7), lb, ub, nd::bool(), nd::upto(N))
    }
    fn dec_visible_fix2() { dec(VISIBLE, 3, 2, Some(2), false, 2) }
    fn dec_visible_fix3() { dec(VISIBLE, 3, 3, Some(3), true, 3) }
    fn dec_visible_0_1() { dec(VISIBLE, 5, 0, Some(1), true, nd::upto(N)) }
    fn dec_printable_1_150() { dec(PRINTABLE, 1, 1, Some(150), true, nd::upto(N)) }
    fn dec_printable_fix1() { dec(PRINTABLE, 6, 1, Some(1), true, 1) }
    fn dec_printable_0_2() { dec(PRINTABLE, 2, 0, Some(2), false, nd::upto(2)) }
    fn dec_visible_any() { dec(VISIBLE, 2, 0, None, false, nd::upto(N)) }
    fn dec_utf8() { dec(UTF8, 4, 2, Some(2), true, nd::upto(N)) }
    fn t_dec_visible() {
        let (lb, ub) = size_bounds(N);
        dec(VISIBLE, nd::upto(7), lb, ub, nd::bool(), nd::upto(N))
    }
    fn t_dec_printable() {
        let (lb, ub) = size_bounds(N);
        dec(PRINTABLE, nd::upto(7), lb, ub, nd::bool(), nd::upto(N))
    }
    /// Any octets: accepted exactly if they are UTF-8, and then they are the string.
    fn dec_utf8_octets() {
        let b = nd::bytes::<N>();
        let mut m = [0u8; N + 1];
        m[0] = N as u8;
        m[1..].copy_from_slice(&b);
        let mut d = AperCodecData::from_slice(&m);
        match decode::decode_utf8_string(&mut d, None, None, false) {
            Ok(s) => {
                cover!(true, "accepted");
                assert!(is_prefix(s.as_bytes(), &b, N), "decoded characters differ");
                assert!(std::str::from_utf8(&b).is_ok(), "invalid UTF-8 accepted");
            }
            Err(_) => {
                cover!(true, "rejected");
                assert!(std::str::from_utf8(&b).is_err(), "valid UTF-8 rejected");
            }
        }
    }
    /// Beyond the root: extension bit, general length, octet-aligned contents.
    fn dec_extended() {
        let (b, n) = (ascii(), nd::upto(N));
        let mut r = R::new();
        rpre(&mut r, 6);
        r.bit(true);
        r.length(n);
        r.octets(&b, n);
        r.put(1, 1);
        let mut d = AperCodecData::from_slice(&r.bytes::<{ N + 4 }>());
        d.seek(6);
        match decode::decode_visible_string(&mut d, Some(1), Some(1), true) {
            Ok(s) => {
                cover!(n > 1, "decoded");
                assert!(is_prefix(s.as_bytes(), &b, n), "decoded characters differ");
                tail(&mut d);
            }
            Err(_) => panic!("a valid encoding is rejected"),
        }
    }
}
