//! C13: the buffer: what `from_slice` takes, `into_bytes` and `get_inner` give back; alignment,
//! lengths, open types, keys and positions behave as a bit string with a cursor.
use crate::nd;
use crate::refc::{same, R};
use crate::util::*;
use asn1_codecs::aper::*;

const N: usize = pick(4, 8);

fn push(d: &mut AperCodecData, x: u32, n: usize) -> R {
    let mut r = R::new();
    let mut i = 0;
    while i < 20 {
        if i < n {
            let _ = encode::encode_bool(d, x >> i & 1 == 1);
            r.bit(x >> i & 1 == 1);
        }
        i += 1;
    }
    r
}

harnesses! {
    fn slice() {
        let b = nd::bytes::<N>();
        let n = nd::upto(N);
        let d = AperCodecData::from_slice(&b[..n]);
        match d.get_inner() {
            Ok(v) => assert!(is_prefix(&v, &b, n), "get_inner differs from the octets given"),
            Err(_) => panic!("get_inner fails"),
        }
        cover!(n == N, "full");
        assert!(d.length_in_bytes() == if n == 0 { 1 } else { n }, "length_in_bytes");
        assert!(is_prefix(&d.into_bytes(), &b, n), "into_bytes differs from the octets given");
    }
    fn read() {
        let b = nd::bytes::<2>();
        let p = nd::upto(15);
        let mut d = AperCodecData::from_slice(&b);
        d.seek(p);
        match decode::decode_bool(&mut d) {
            Ok(v) => assert!(v == (b[p / 8] >> (7 - p % 8) & 1 == 1), "another bit is read"),
            Err(_) => panic!("a bit within the buffer cannot be read"),
        }
    }
    fn written() {
        let n = nd::upto(20);
        let x = nd::u32();
        let mut d = AperCodecData::new();
        let r = push(&mut d, x, n);
        assert!(d.length_in_bytes() == if n == 0 { 1 } else { (n + 7) / 8 }, "length_in_bytes");
        match d.get_inner() {
            Ok(v) => assert!(same(&v, &r, 4), "get_inner differs from the bits written"),
            Err(_) => panic!("get_inner fails"),
        }
        cover!(n == 20, "full");
        assert!(same(&d.into_bytes(), &r, 4), "into_bytes differs from the bits written");
    }
    /// An open type: octet-aligned, padded to whole octets, at least one.
    fn append() {
        let (n, m) = (nd::upto(12), nd::upto(12));
        let (x, y) = (nd::u32(), nd::u32());
        let mut d = AperCodecData::new();
        let mut r = push(&mut d, x, n);
        let mut e = AperCodecData::new();
        let s = push(&mut e, y, m);
        let l = e.length_in_bytes();
        d.append_aligned(&mut e);
        let _ = encode::encode_bool(&mut d, true);
        r.align();
        let k = if m == 0 { 1 } else { (m + 7) / 8 };
        assert!(l == k, "length of an open type");
        r.put((s.v[0] >> (128 - 16)) >> (16 - 8 * k) as u32, 8 * k);
        r.put(1, 1);
        cover!(n > 8 && m > 8, "appended");
        assert!(same(&d.into_bytes(), &r, 6), "an open type is not appended octet-aligned and padded");
    }
    fn take() {
        let b = nd::bytes::<4>();
        let (k, n) = (nd::upto(4), nd::upto(4));
        nd::assume(k + n <= 4);
        let mut d = AperCodecData::from_slice(&b);
        d.seek(8 * k);
        let key = nd::i128();
        d.set_key(key);
        match d.take_open_type(n) {
            Ok(e) => {
                assert!(e.get_key() == Some(key), "the key is lost");
                let v = e.into_bytes();
                assert!(v.len() == n, "an open type has another length");
                let mut i = 0;
                while i < 4 {
                    if i < n {
                        assert!(v[i] == b[k + i], "an open type has other contents");
                    }
                    i += 1;
                }
            }
            Err(_) => panic!("an open type within the buffer cannot be read"),
        }
        // and reading goes on behind it
        if k + n < 4 {
            cover!(n > 0, "more");
            match decode::decode_bool(&mut d) {
                Ok(x) => assert!(x == (b[k + n] >> 7 == 1), "an open type is left with the wrong number of octets"),
                Err(_) => panic!("reading behind an open type fails"),
            }
        }
    }
    fn align() {
        let b = nd::bytes::<3>();
        let p = nd::upto(15);
        let mut d = AperCodecData::from_slice(&b);
        d.seek(p);
        if d.decode_align().is_ok() {
            let q = (p + 7) / 8 * 8;
            cover!(p % 8 == 3, "aligned");
            match decode::decode_bool(&mut d) {
                Ok(x) => assert!(x == (b[q / 8] >> 7 == 1), "alignment stops elsewhere"),
                Err(_) => panic!("reading behind an alignment fails"),
            }
        }
    }
    fn key() {
        let mut d = AperCodecData::new();
        assert!(d.get_key() == None, "a new buffer has a key");
        let (a, b) = (nd::i128(), nd::i128());
        d.set_key(a);
        assert!(d.get_key() == Some(a), "the key is not the one set");
        d.set_key(b);
        assert!(d.get_key() == Some(b), "the key is not the one set last");
    }
    fn set_bit() {
        let b = nd::bytes::<2>();
        let (i, v) = (nd::upto(15), nd::bool());
        let mut d = AperCodecData::from_slice(&b);
        d.set_bit(i, v);
        let c = d.into_bytes();
        let w = u16::from_be_bytes(b);
        let m = 1u16 << (15 - i);
        let want = if v { w | m } else { w & !m };
        assert!(c.len() == 2 && u16::from_be_bytes([c[0], c[1]]) == want, "set_bit changes another bit");
    }
}
