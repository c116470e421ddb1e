//! D03: derived open types: selected by the key, length in octets, exactly consumed.
use crate::nd;
use crate::refc::{same, R};
use crate::types::*;
use crate::util::*;
use asn1_codecs::aper::*;

const FLAG: u8 = 8;
const OCTET: u8 = 147;
const NOTHING: u8 = 3;

/// The item: key, criticality, length, contents padded to octets, `pad` octets more.
fn put(r: &mut R, key: u8, c: u8, e: &R, pad: usize) {
    r.align();
    r.put(key as u128, 8);
    r.put(c as u128, 2);
    let n = if e.n == 0 { 1 } else { (e.n + 7) / 8 };
    r.length(n + pad);
    r.put(e.v[0] >> (128 - 8 * n) as u32, 8 * n);
    r.put(0, 8 * pad);
}
fn crit() -> u8 {
    let c = nd::u8();
    nd::assume(c <= 2);
    c
}
fn content(key: u8, x: u8) -> R {
    let mut e = R::new();
    if key == FLAG {
        e.bit(x & 1 == 1);
    } else if key == OCTET {
        e.put(x as u128, 8);
    }
    e
}
fn item(key: u8, c: u8, x: u8) -> Item {
    let value = match key {
        FLAG => Value::Flag(Flag(x & 1 == 1)),
        OCTET => Value::Octet(Octet(x)),
        _ => Value::Nothing(Nothing),
    };
    Item { id: Octet(key), criticality: Level(c), value }
}
fn is(i: &Item, key: u8, c: u8, x: u8) -> bool {
    i.id.0 == key
        && i.criticality.0 == c
        && match &i.value {
            Value::Flag(f) => key == FLAG && f.0 == (x & 1 == 1),
            Value::Octet(o) => key == OCTET && o.0 == x,
            Value::Nothing(_) => key == NOTHING,
        }
}
fn key() -> u8 {
    let k = nd::u8();
    nd::assume(k == FLAG || k == OCTET || k == NOTHING);
    k
}
fn written<T: AperCodec>(x: &T, p: usize, r: &R) {
    let mut d = AperCodecData::new();
    pre(&mut d, p);
    assert!(x.encode(&mut d).is_ok(), "a valid value is rejected");
    let _ = encode::encode_bool(&mut d, true);
    cover!(true, "encoded");
    assert!(same(&d.into_bytes(), r, 12), "encoding differs from X.691");
}

harnesses! {
    fn enc() {
        let (k, c, x) = (key(), crit(), nd::u8());
        let mut r = R::new();
        rpre(&mut r, 3);
        put(&mut r, k, c, &content(k, x), 0);
        r.put(1, 1);
        written(&item(k, c, x), 3, &r);
    }
    fn enc_octets() {
        let (c, b, n) = (crit(), nd::bytes::<3>(), nd::upto(3));
        let mut e = R::new();
        e.length(n);
        e.octets(&b, n);
        let mut r = R::new();
        rpre(&mut r, 6);
        put(&mut r, 147, c, &e, 0);
        r.put(1, 1);
        written(&ItemOctets { id: Octet(147), criticality: Level(c), value: ValueOctets::V(Octets(vec_of(&b, n))) }, 6, &r);
    }
    fn enc_long() {
        let (c, x) = (crit(), nd::u32());
        let mut e = R::new();
        e.constrained(0, u32::MAX as i128, x as i128);
        let mut r = R::new();
        put(&mut r, 147, c, &e, 0);
        r.put(1, 1);
        written(&ItemLong { id: Octet(147), criticality: Level(c), value: ValueLong::V(Long(x)) }, 0, &r);
    }
    /// Octets behind the contents, as a later version may add, are skipped.
    fn dec() {
        let (k, c, x, pad) = (key(), crit(), nd::u8(), nd::upto(2));
        let mut r = R::new();
        put(&mut r, k, c, &content(k, x), pad);
        r.put(1, 1);
        let mut d = AperCodecData::from_slice(&r.bytes::<8>());
        match Item::decode(&mut d) {
            Ok(i) => assert!(is(&i, k, c, x), "another item is decoded"),
            Err(_) => panic!("a valid encoding is rejected"),
        }
        cover!(pad == 2 && k == OCTET, "decoded");
        tail(&mut d);
    }
    fn dec_octets() {
        let (c, b, n, pad) = (crit(), nd::bytes::<2>(), nd::upto(2), nd::upto(1));
        let mut e = R::new();
        e.length(n);
        e.octets(&b, n);
        let mut r = R::new();
        put(&mut r, 147, c, &e, pad);
        r.put(1, 1);
        let mut d = AperCodecData::from_slice(&r.bytes::<8>());
        match ItemOctets::decode(&mut d) {
            Ok(i) => {
                let ValueOctets::V(o) = &i.value;
                assert!(i.id.0 == 147 && i.criticality.0 == c && is_prefix(&o.0, &b, n), "another item is decoded")
            }
            Err(_) => panic!("a valid encoding is rejected"),
        }
        cover!(pad == 1 && n == 2, "decoded");
        tail(&mut d);
    }
    fn dec_long() {
        let (c, x, pad) = (crit(), nd::u32(), nd::upto(1));
        let mut e = R::new();
        e.constrained(0, u32::MAX as i128, x as i128);
        let mut r = R::new();
        put(&mut r, 147, c, &e, pad);
        r.put(1, 1);
        let mut d = AperCodecData::from_slice(&r.bytes::<10>());
        match ItemLong::decode(&mut d) {
            Ok(i) => {
                let ValueLong::V(l) = &i.value;
                assert!(i.id.0 == 147 && i.criticality.0 == c && l.0 == x, "another item is decoded")
            }
            Err(_) => panic!("a valid encoding is rejected"),
        }
        cover!(pad == 1 && x > 65535, "decoded");
        tail(&mut d);
    }
    /// Unknown keys are errors, never another alternative.
    fn unknown() {
        let k = nd::u8();
        let mut d = AperCodecData::from_slice(&[k, 0x40, 1, 0x80, 0x80]);
        match Item::decode(&mut d) {
            Ok(i) => {
                cover!(true, "accepted");
                assert!(is(&i, k, 1, if k == FLAG { 1 } else { 0x80 }), "an open type is decoded under another key");
                tail(&mut d);
            }
            Err(_) => {
                cover!(true, "rejected");
                assert!(k != FLAG && k != OCTET && k != NOTHING, "a valid encoding is rejected")
            }
        }
    }
    /// Contents cut off by the length are an error, though the buffer goes on.
    fn cut() {
        let b = nd::bytes::<3>();
        let n = nd::upto(4);
        let k = nd::upto(3);
        let mut d = AperCodecData::from_slice(&[147, 0, n as u8, k as u8, b[0], b[1], b[2]]);
        match ItemOctets::decode(&mut d) {
            Ok(i) => {
                cover!(true, "accepted");
                let ValueOctets::V(o) = &i.value;
                assert!(n >= k + 1, "an open type is read past its length");
                assert!(is_prefix(&o.0, &b, k), "another value is decoded");
            }
            Err(_) => {
                cover!(true, "rejected");
                assert!(n < k + 1, "a valid encoding is rejected")
            }
        }
    }
    /// The key of the item being decoded counts, not one left from before.
    fn twice() {
        let (j, k, x, y) = (OCTET, key(), nd::u8(), nd::u8());
        let mut r = R::new();
        put(&mut r, j, 1, &content(j, x), 0);
        put(&mut r, k, 0, &content(k, y), 0);
        let mut d = AperCodecData::from_slice(&r.bytes::<8>());
        match Item::decode(&mut d) {
            Ok(i) => assert!(is(&i, j, 1, x), "another item is decoded"),
            Err(_) => panic!("a valid encoding is rejected"),
        }
        match Item::decode(&mut d) {
            Ok(i) => assert!(is(&i, k, 0, y), "another item is decoded"),
            Err(_) => panic!("a valid encoding is rejected"),
        }
        cover!(j != k, "decoded");
    }
    /// A content that violates its constraint fails the item.
    fn enc_invalid() {
        let (c, x) = (nd::u8(), nd::u8());
        let mut d = AperCodecData::new();
        let i = ItemSmall { id: Octet(8), criticality: Level(c), value: ValueSmall::V(Small(x)) };
        let ok = i.encode(&mut d).is_ok();
        cover!(ok, "accepted");
        cover!(!ok, "rejected");
        assert!(ok == (c <= 2 && x <= 5), "an invalid content is accepted, or a valid one rejected");
    }
    fn no_key() {
        let mut d = AperCodecData::from_slice(&nd::bytes::<3>());
        assert!(Value::decode(&mut d).is_err(), "an open type is decoded without a key");
    }
    fn any() {
        let mut d = AperCodecData::from_slice(&nd::bytes::<4>());
        let g = Item::decode(&mut d);
        cover!(g.is_ok(), "accepted");
        cover!(g.is_err(), "rejected");
    }
}
