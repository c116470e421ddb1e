//! C12: encoders only append: whatever is encoded, and whether or not it succeeds, the bits already
//! in the buffer stay, and decoders never change the buffer.
use crate::nd;
use crate::util::*;
use asn1_codecs::aper::*;
use bitvec::prelude::*;

/// A buffer of `p` arbitrary bits (up to 11), and their values.
fn start(p: usize) -> (AperCodecData, u16) {
    let x = nd::u16();
    let mut d = AperCodecData::new();
    let mut i = 0;
    while i < 11 {
        if i < p {
            let _ = encode::encode_bool(&mut d, x >> i & 1 == 1);
        }
        i += 1;
    }
    (d, x)
}
fn kept(d: AperCodecData, p: usize, x: u16) {
    let b = d.into_bytes();
    assert!(b.len() * 8 >= p, "bits were removed");
    let mut i = 0;
    while i < 11 {
        if i < p {
            assert!((b[i / 8] >> (7 - i % 8) & 1 == 1) == (x >> i & 1 == 1), "a bit already written changed");
        }
        i += 1;
    }
    cover!(p == 11, "kept");
}
/// The first two octets as they are.
fn unchanged(d: &AperCodecData, b: &[u8; 3]) {
    match d.get_inner() {
        Ok(v) => assert!(is_prefix(&v, b, 3), "decoding changed the buffer"),
        Err(_) => panic!("the buffer cannot be read"),
    }
}

harnesses! {
    fn int_unconstrained() {
        let p = nd::upto(11);
        let (mut d, x) = start(p);
        let _ = encode::encode_integer(&mut d, None, None, nd::bool(), nd::between(-BIG, BIG), nd::bool());
        kept(d, p, x)
    }
    fn int_semi() {
        let p = nd::upto(11);
        let (mut d, x) = start(p);
        let _ = encode::encode_integer(&mut d, Some(nd::between(-BIG, BIG)), None, false, nd::between(-BIG, BIG), false);
        kept(d, p, x)
    }
    fn int_small() {
        let p = nd::upto(11);
        let (mut d, x) = start(p);
        let (lb, ub) = small_bounds();
        let _ = encode::encode_integer(&mut d, Some(lb), Some(ub), nd::bool(), nd::between(-BIG, BIG), false);
        kept(d, p, x)
    }
    fn int_large() {
        let p = nd::upto(11);
        let (mut d, x) = start(p);
        let _ = encode::encode_integer(&mut d, Some(-9), Some(i64::MAX as i128), false, nd::between(-BIG, BIG), false);
        kept(d, p, x)
    }
    fn length() {
        let p = nd::upto(11);
        let (mut d, x) = start(p);
        let _ = encode::encode_length_determinent(&mut d, Some(2), if nd::bool() { Some(nd::u32() as i128) } else { None }, nd::bool(), nd::upto(1 << 20));
        kept(d, p, x)
    }
    fn octets() {
        let p = nd::upto(11);
        let (mut d, x) = start(p);
        let _ = encode::encode_octetstring(&mut d, Some(nd::upto(3) as i128), Some(3), nd::bool(), &vec_of(&nd::bytes::<3>(), nd::upto(3)), nd::bool());
        kept(d, p, x)
    }
    fn bits() {
        let p = nd::upto(11);
        let (mut d, x) = start(p);
        let b = bits![u8, Msb0; 1, 0, 1, 1];
        let _ = encode::encode_bitstring(&mut d, Some(nd::upto(6) as i128), None, nd::bool(), b, nd::bool());
        kept(d, p, x)
    }
    fn chars() {
        let p = nd::upto(11);
        let (mut d, x) = start(p);
        let s = unsafe { String::from_utf8_unchecked(vec_of(b"ab ", nd::upto(3))) };
        let _ = encode::encode_visible_string(&mut d, Some(1), Some(2 + nd::upto(2) as i128), nd::bool(), &s, nd::bool());
        kept(d, p, x)
    }
    fn indices() {
        let p = nd::upto(11);
        let (mut d, x) = start(p);
        let _ = encode::encode_enumerated(&mut d, Some(0), Some(nd::u8() as i128), nd::bool(), nd::u8() as i128, nd::bool());
        let _ = encode::encode_choice_idx(&mut d, 0, 5, nd::bool(), nd::u8() as i128, nd::bool());
        let _ = encode::encode_sequence_header(&mut d, nd::bool(), bits![u8, Msb0; 1, 0, 1], nd::bool());
        kept(d, p, x)
    }
    fn open_type() {
        let p = nd::upto(11);
        let (mut d, x) = start(p);
        let q = nd::upto(11);
        let (mut e, _) = start(q);
        d.append_aligned(&mut e);
        kept(d, p, x)
    }
    fn dec_int() {
        let b = nd::bytes::<3>();
        let mut d = AperCodecData::from_slice(&b);
        d.seek(nd::upto(24));
        let _ = decode::decode_integer(&mut d, Some(0), Some(1 << 20), nd::bool());
        unchanged(&d, &b)
    }
    fn dec_octets() {
        let b = nd::bytes::<3>();
        let mut d = AperCodecData::from_slice(&b);
        d.seek(nd::upto(24));
        let _ = decode::decode_octetstring(&mut d, Some(0), Some(2), nd::bool());
        unchanged(&d, &b)
    }
    fn dec_open_type() {
        let b = nd::bytes::<3>();
        let mut d = AperCodecData::from_slice(&b);
        let k = nd::upto(3);
        d.seek(8 * k);
        let _ = d.take_open_type(nd::upto(3));
        unchanged(&d, &b)
    }
}
