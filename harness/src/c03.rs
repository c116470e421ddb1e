//! C03: the bits `encode_integer` writes are those of X.691 (ALIGNED), for every value and constraint.
use crate::nd;
use crate::refc::{same, R};
use crate::util::*;
use asn1_codecs::aper::*;

fn wire(p: usize, lb: Option<i128>, ub: Option<i128>, ext: bool, v: i128) {
    let mut d = AperCodecData::new();
    pre(&mut d, p);
    let e = encode::encode_integer(&mut d, lb, ub, ext, v, false);
    assert!(e.is_ok(), "an integer within its constraint is rejected");
    let _ = encode::encode_bool(&mut d, true);
    let mut r = R::new();
    rpre(&mut r, p);
    if ext {
        r.put(0, 1);
    }
    match (lb, ub) {
        (Some(l), Some(u)) => r.constrained(l, u, v),
        (Some(l), None) => r.semi(l, v),
        _ => r.unconstrained(v),
    }
    r.put(1, 1);
    let b = d.into_bytes();
    cover!(b.len() > 1, "encoded");
    assert!(same(&b, &r, 16), "encoding differs from X.691");
}

harnesses! {
    fn unconstrained_a() { wire(0, None, None, false, nd::between(-BIG, BIG)) }
    fn unconstrained_b() { wire(5, None, None, true, nd::between(-BIG, BIG)) }
    fn semi_a() {
        let lb = nd::between(-BIG, BIG);
        let v = nd::between(-BIG, BIG);
        nd::assume(v >= lb);
        wire(0, Some(lb), None, false, v)
    }
    fn semi_b() {
        let lb = nd::between(-BIG, BIG);
        let v = nd::between(-BIG, BIG);
        nd::assume(v >= lb);
        wire(3, Some(lb), None, true, v)
    }
    fn small_a() {
        let (lb, ub) = small_bounds();
        let v = nd::i128();
        nd::assume(v >= lb && v <= ub);
        wire(0, Some(lb), Some(ub), false, v)
    }
    fn small_b() {
        let (lb, ub) = small_bounds();
        let v = nd::i128();
        nd::assume(v >= lb && v <= ub);
        wire(6, Some(lb), Some(ub), true, v)
    }
    fn large_a() {
        let (lb, ub) = large_bounds();
        let v = nd::i128();
        nd::assume(v >= lb && v <= ub);
        wire(0, Some(lb), Some(ub), false, v)
    }
    fn large_b() {
        let (lb, ub) = large_bounds();
        let v = nd::i128();
        nd::assume(v >= lb && v <= ub);
        wire(7, Some(lb), Some(ub), false, v)
    }
}
