//! C10: a message cut short is rejected, never completed with invented contents: from the first
//! `m` octets of an encoding, decoding succeeds exactly if they contain the whole encoding.
use crate::nd;
use crate::refc::R;
use crate::util::*;
use asn1_codecs::aper::*;

const N: usize = 7;

/// The first `m` octets of the reference message.
fn cut(r: &R, p: usize, m: usize) -> AperCodecData {
    let b = r.bytes::<N>();
    let mut d = AperCodecData::from_slice(&b[..m]);
    d.seek(p);
    d
}
fn rule<T>(r: &R, m: usize, g: Result<T, E>) {
    let whole = m * 8 >= r.n;
    cover!(whole, "complete");
    cover!(!whole, "truncated");
    assert!(g.is_ok() == whole, "a truncated encoding is accepted, or a complete one rejected");
}
fn int(p: usize, m: usize, lb: Option<i128>, ub: Option<i128>, v: i128) {
    let mut r = R::new();
    rpre(&mut r, p);
    match (lb, ub) {
        (Some(l), Some(u)) => r.constrained(l, u, v),
        (Some(l), None) => r.semi(l, v),
        _ => r.unconstrained(v),
    }
    let mut d = cut(&r, p, m);
    rule(&r, m, decode::decode_integer(&mut d, lb, ub, false))
}

harnesses! {
    fn unconstrained_3() { int(3, 3, None, None, nd::i32() as i128) }
    fn unconstrained_4() { int(0, 4, None, None, nd::i32() as i128) }
    fn semi_3() { int(1, 3, Some(-7), None, nd::u32() as i128) }
    fn small_1() { int(nd::upto(7), 1, Some(0), Some(15), nd::between(0, 15)) }
    fn word_2() { int(nd::upto(7), 2, Some(0), Some(65535), nd::u16() as i128) }
    fn large_3() { int(7, 3, Some(0), Some(u32::MAX as i128), nd::u32() as i128) }
    fn large_4() { int(1, 4, Some(0), Some(u32::MAX as i128), nd::u32() as i128) }
    fn octets_3() {
        let n = nd::upto(4);
        let mut r = R::new();
        rpre(&mut r, 2);
        r.string_head(true, 1, Some(4), n, 2, 0);
        nd::assume(n >= 1);
        r.octets(&nd::bytes::<4>(), n);
        let mut d = cut(&r, 2, 3);
        rule(&r, 3, decode::decode_octetstring(&mut d, Some(1), Some(4), true))
    }
    fn octets_any_2() {
        let n = nd::upto(4);
        let mut r = R::new();
        r.string_head(false, 0, None, n, 2, 0);
        r.octets(&nd::bytes::<4>(), n);
        let mut d = cut(&r, 0, 2);
        rule(&r, 2, decode::decode_octetstring(&mut d, None, None, false))
    }
    fn bits_2() {
        let n = nd::upto(16);
        let x = nd::u16();
        let mut r = R::new();
        rpre(&mut r, 4);
        r.string_head(false, 0, Some(16), n, 16, 0);
        let mut i = 0;
        while i < 16 {
            if i < n {
                r.bit(x >> i & 1 == 1);
            }
            i += 1;
        }
        let mut d = cut(&r, 4, 2);
        rule(&r, 2, decode::decode_bitstring(&mut d, Some(0), Some(16), false))
    }
    fn chars_3() {
        let n = nd::upto(4);
        let mut r = R::new();
        rpre(&mut r, 1);
        r.string_head(false, 0, Some(40), n, 2, 2);
        r.octets(b"abcd", n);
        let mut d = cut(&r, 1, 3);
        rule(&r, 3, decode::decode_visible_string(&mut d, Some(0), Some(40), false))
    }
    fn preamble_1() {
        let n = nd::upto(20);
        let mut r = R::new();
        rpre(&mut r, 3);
        r.bit(false);
        r.put(0x5a5a5, 20);
        r.n = 4 + n;
        let mut d = cut(&r, 3, 1);
        rule(&r, 1, decode::decode_sequence_header(&mut d, true, n))
    }
    fn enumerated_1() {
        let v = nd::between(0, 5);
        let p = nd::upto(7);
        let mut r = R::new();
        rpre(&mut r, p);
        r.bit(false);
        r.constrained(0, 5, v);
        let mut d = cut(&r, p, 1);
        rule(&r, 1, decode::decode_enumerated(&mut d, Some(0), Some(5), true))
    }
    fn added_1() {
        let v = nd::u8() as i128;
        let p = nd::upto(7);
        let mut r = R::new();
        rpre(&mut r, p);
        r.bit(true);
        r.normally_small(v as u128);
        let mut d = cut(&r, p, 2);
        rule(&r, 2, decode::decode_choice_idx(&mut d, 0, 5, true))
    }
    fn boolean() {
        let p = nd::upto(8);
        let b = nd::bytes::<1>();
        let mut d = AperCodecData::from_slice(&b);
        d.seek(p);
        assert!(decode::decode_bool(&mut d).is_ok() == (p < 8), "a boolean is read past the end");
    }
    /// Alignment needs its padding bits.
    fn align() {
        let p = nd::upto(16);
        let n = nd::upto(2);
        nd::assume(p <= 8 * n);
        let b = nd::bytes::<2>();
        let mut d = AperCodecData::from_slice(&b[..n]);
        d.seek(p);
        let pad = (8 - p % 8) % 8;
        let clear = pad == 0 || (b[p / 8] & ((1u16 << pad) - 1) as u8) == 0;
        let g = d.decode_align();
        cover!(g.is_ok() && pad > 0, "aligned");
        assert!(g.is_ok() == clear, "alignment is accepted exactly if the padding is zero");
    }
    fn open_type() {
        let n = nd::upto(5);
        let k = nd::upto(4);
        let b = nd::bytes::<4>();
        let mut d = AperCodecData::from_slice(&b);
        d.seek(8 * k);
        assert!(d.take_open_type(n).is_ok() == (n + k <= 4), "an open type is cut short or read past the end");
    }
}
