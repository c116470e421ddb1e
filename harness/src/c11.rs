//! C11: encodings are self-delimiting: items written one after another are read back one after
//! another, whatever kinds they are and at whatever bit offset they start, and whatever follows.
use crate::nd;
use crate::util::*;
use asn1_codecs::aper::*;
use bitvec::prelude::*;

fn eq<T: PartialEq>(g: Result<T, E>, v: T) {
    match g {
        Ok(g) => assert!(g == v, "an item is read back differently"),
        Err(_) => panic!("an item is not read back"),
    }
}
fn ok(e: Result<(), E>) {
    assert!(e.is_ok(), "a valid item is rejected")
}

harnesses! {
    /// BOOLEAN, a small, an octet-sized and a 16-bit INTEGER.
    fn ints() {
        let (a, b, c, f) = (nd::bool(), nd::between(-3, 3), nd::u8() as i128, nd::u16() as i128);
        let mut d = AperCodecData::new();
        ok(encode::encode_bool(&mut d, a));
        ok(encode::encode_integer(&mut d, Some(-3), Some(3), true, b, false));
        ok(encode::encode_integer(&mut d, Some(0), Some(255), false, c, false));
        ok(encode::encode_bool(&mut d, a));
        ok(encode::encode_integer(&mut d, Some(0), Some(65535), false, f, false));
        ok(encode::encode_integer(&mut d, Some(-3), Some(3), false, b, false));
        ok(encode::encode_bool(&mut d, true));
        d.seek(0);
        eq(decode::decode_bool(&mut d), a);
        eq(decode::decode_integer(&mut d, Some(-3), Some(3), true), (b, false));
        eq(decode::decode_integer(&mut d, Some(0), Some(255), false), (c, false));
        eq(decode::decode_bool(&mut d), a);
        eq(decode::decode_integer(&mut d, Some(0), Some(65535), false), (f, false));
        eq(decode::decode_integer(&mut d, Some(-3), Some(3), false), (b, false));
        tail(&mut d);
    }
    /// Variable-length INTEGERs around a BOOLEAN.
    fn wide_ints() {
        let (a, b, c) = (nd::i32() as i128, nd::bool(), nd::u32() as i128);
        let mut d = AperCodecData::new();
        ok(encode::encode_integer(&mut d, None, None, false, a, false));
        ok(encode::encode_bool(&mut d, b));
        ok(encode::encode_integer(&mut d, Some(0), Some(u32::MAX as i128), false, c, false));
        ok(encode::encode_bool(&mut d, true));
        d.seek(0);
        eq(decode::decode_integer(&mut d, None, None, false), (a, false));
        eq(decode::decode_bool(&mut d), b);
        eq(decode::decode_integer(&mut d, Some(0), Some(u32::MAX as i128), false), (c, false));
        tail(&mut d);
    }
    /// ENUMERATED, CHOICE index, SEQUENCE preamble.
    fn indices() {
        let (a, b, x) = (nd::between(0, 5), nd::between(0, 2), nd::u8());
        let mut m = BitVec::<u8, Msb0>::new();
        m.push(x & 1 == 1);
        m.push(x & 2 == 2);
        m.push(x & 4 == 4);
        let mut d = AperCodecData::new();
        ok(encode::encode_sequence_header(&mut d, true, &m, false));
        ok(encode::encode_enumerated(&mut d, Some(0), Some(5), true, a, false));
        ok(encode::encode_choice_idx(&mut d, 0, 2, false, b, false));
        ok(encode::encode_bool(&mut d, true));
        d.seek(0);
        match decode::decode_sequence_header(&mut d, true, 3) {
            Ok((g, e)) => assert!(!e && g.len() == 3 && g[0] == m[0] && g[1] == m[1] && g[2] == m[2], "preamble differs"),
            Err(_) => panic!("an item is not read back"),
        }
        eq(decode::decode_enumerated(&mut d, Some(0), Some(5), true), (a, false));
        eq(decode::decode_choice_idx(&mut d, 0, 2, false), (b, false));
        tail(&mut d);
    }
    /// A short unaligned string, a variable string and an INTEGER behind it.
    fn strings() {
        let b = nd::bytes::<2>();
        let n = nd::upto(2);
        let v = nd::between(0, 9);
        let mut d = AperCodecData::new();
        ok(encode::encode_bool(&mut d, true));
        ok(encode::encode_octetstring(&mut d, Some(2), Some(2), false, &vec_of(&b, 2), false));
        ok(encode::encode_octetstring(&mut d, Some(0), Some(3), false, &vec_of(&b, n), false));
        ok(encode::encode_integer(&mut d, Some(0), Some(9), false, v, false));
        ok(encode::encode_bool(&mut d, true));
        d.seek(1);
        match decode::decode_octetstring(&mut d, Some(2), Some(2), false) {
            Ok(g) => assert!(is_prefix(&g, &b, 2), "an item is read back differently"),
            Err(_) => panic!("an item is not read back"),
        }
        match decode::decode_octetstring(&mut d, Some(0), Some(3), false) {
            Ok(g) => assert!(is_prefix(&g, &b, n), "an item is read back differently"),
            Err(_) => panic!("an item is not read back"),
        }
        eq(decode::decode_integer(&mut d, Some(0), Some(9), false), (v, false));
        tail(&mut d);
    }
    fn bits_then_int() {
        let n = nd::upto(5);
        let x = nd::u8();
        let v = nd::u8() as i128;
        let mut b = BitVec::<u8, Msb0>::new();
        let mut i = 0;
        while i < 5 {
            if i < n {
                b.push(x >> i & 1 == 1);
            }
            i += 1;
        }
        let mut d = AperCodecData::new();
        ok(encode::encode_bitstring(&mut d, Some(0), Some(5), true, &b, false));
        ok(encode::encode_integer(&mut d, Some(0), Some(100), false, v & 63, false));
        ok(encode::encode_bool(&mut d, true));
        d.seek(0);
        match decode::decode_bitstring(&mut d, Some(0), Some(5), true) {
            Ok(g) => {
                assert!(g.len() == n, "an item is read back differently");
                let mut i = 0;
                while i < 5 {
                    assert!(i >= n || g[i] == (x >> i & 1 == 1), "an item is read back differently");
                    i += 1;
                }
            }
            Err(_) => panic!("an item is not read back"),
        }
        eq(decode::decode_integer(&mut d, Some(0), Some(100), false), (v & 63, false));
        tail(&mut d);
    }
    /// What follows an item does not change how it is read.
    fn suffix() {
        let b = nd::bytes::<3>();
        let c = nd::bytes::<2>();
        let p = nd::upto(7);
        let mut d = AperCodecData::from_slice(&b);
        let mut e = AperCodecData::from_slice(&[b[0], b[1], b[2], c[0], c[1]]);
        d.seek(p);
        e.seek(p);
        if let Ok(v) = decode::decode_integer(&mut d, Some(0), Some(1 << 20), true) {
            cover!(true, "decoded");
            eq(decode::decode_integer(&mut e, Some(0), Some(1 << 20), true), v);
            if let Ok(x) = decode::decode_bool(&mut d) {
                eq(decode::decode_bool(&mut e), x);
            }
        }
    }
    fn suffix_octets() {
        let b = nd::bytes::<3>();
        let c = nd::bytes::<1>();
        let p = nd::upto(7);
        let mut d = AperCodecData::from_slice(&b);
        let mut e = AperCodecData::from_slice(&[b[0], b[1], b[2], c[0]]);
        d.seek(p);
        e.seek(p);
        if let Ok(v) = decode::decode_octetstring(&mut d, Some(0), Some(2), false) {
            cover!(true, "decoded");
            match decode::decode_octetstring(&mut e, Some(0), Some(2), false) {
                Ok(w) => assert!(v.len() == w.len() && (v.is_empty() || v[0] == w[0]) && (v.len() < 2 || v[1] == w[1]), "the octets behind an item change it"),
                Err(_) => panic!("the octets behind an item change it"),
            }
        }
    }
}
