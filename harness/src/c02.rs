//! C02: what `encode_integer` writes, `decode_integer` reads back, consuming exactly those bits.
use crate::nd;
use crate::util::*;
use asn1_codecs::aper::*;

fn rt(p: usize, lb: Option<i128>, ub: Option<i128>, ext: bool, v: i128) {
    let mut d = AperCodecData::new();
    pre(&mut d, p);
    let e = encode::encode_integer(&mut d, lb, ub, ext, v, false);
    assert!(e.is_ok(), "an integer within its constraint is rejected");
    let _ = encode::encode_bool(&mut d, true);
    d.seek(p);
    match decode::decode_integer(&mut d, lb, ub, ext) {
        Ok((w, x)) => {
            assert!(w == v && !x, "decode(encode(v)) != v");
            tail(&mut d);
            cover!(true, "decoded");
        }
        Err(_) => panic!("the decoder rejects the encoder's output"),
    }
}

fn large_of(p: usize, lb: i128, ub: i128) {
    let v = nd::between(lb, ub);
    rt(p, Some(lb), Some(ub), false, v)
}

harnesses! {
    fn unconstrained_a() { rt(0, None, None, false, nd::between(-BIG, BIG)) }
    fn unconstrained_b() { rt(5, None, None, true, nd::between(-BIG, BIG)) }
    fn semi_a() {
        let lb = nd::between(-BIG, BIG);
        let v = nd::between(-BIG, BIG);
        nd::assume(v >= lb);
        rt(0, Some(lb), None, false, v)
    }
    fn semi_b() {
        let lb = nd::between(-BIG, BIG);
        let v = nd::between(-BIG, BIG);
        nd::assume(v >= lb);
        rt(3, Some(lb), None, true, v)
    }
    fn small_a() {
        let (lb, ub) = small_bounds();
        let v = nd::i128();
        nd::assume(v >= lb && v <= ub);
        rt(0, Some(lb), Some(ub), false, v)
    }
    fn t_small_b() {
        let (lb, ub) = small_bounds();
        let v = nd::i128();
        nd::assume(v >= lb && v <= ub);
        rt(6, Some(lb), Some(ub), true, v)
    }
    /// At most 64K values, at the sizes where the form of the encoding changes.
    fn small_1() { large_of(3, -9, -9) }
    fn small_2() { large_of(7, -1, 0) }
    fn small_255() { large_of(2, -100, 154) }
    fn small_256() { large_of(1, 5, 260) }
    fn small_257() { large_of(0, -128, 128) }
    fn small_65535() { large_of(4, 0, 65534) }
    fn small_65536() { large_of(6, -(1 << 40), 65535 - (1 << 40)) }
    /// More than 64K values, at the sizes where the number of octets of the offset changes.
    fn large_17() { large_of(2, -7, 65529) }
    fn large_24() { large_of(0, 1, 1 << 24) }
    fn large_32() { large_of(1, -(1 << 31), (1 << 31) - 1) }
    fn large_40() { large_of(0, -5, (1 << 40) - 6) }
    fn large_63() { large_of(3, 0, i64::MAX as i128) }
    fn large_64() { large_of(0, i64::MIN as i128, i64::MAX as i128) }
    fn large_65() { large_of(4, -1, 1 << 64) }
    fn t_large_a() {
        let (lb, ub) = large_bounds();
        let v = nd::i128();
        nd::assume(v >= lb && v <= ub);
        rt(0, Some(lb), Some(ub), false, v)
    }
    fn t_large_b() {
        let (lb, ub) = large_bounds();
        let v = nd::i128();
        nd::assume(v >= lb && v <= ub);
        rt(7, Some(lb), Some(ub), false, v)
    }
}
