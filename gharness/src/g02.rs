//! G02: code generated for simple types.
use crate::common::*;
use crate::gen::*;
use crate::nd;
use crate::refc::R;
use crate::util::*;
use asn1_codecs::aper::*;
use bitvec::prelude::*;

/// The generated type of an INTEGER holds every value of its constraint, encodes it as X.691 says,
/// and (if there is no extension marker) rejects every other value it can hold.
macro_rules! int {
    ($t:ident, $p:expr, $lb:expr, $ub:expr, $ext:expr) => {{
        let (lb, ub): (i128, i128) = ($lb, $ub);
        let v = nd::between(lb, ub);
        let x = match <_>::try_from(v) {
            Ok(x) => $t { 0: x },
            Err(_) => panic!("the generated type does not hold a value of the constraint"),
        };
        let mut r = start($p);
        if $ext {
            r.bit(false);
        }
        r.constrained(lb, ub, v);
        both(&x, $p, r, |y| y.0 as i128 == v);
    }};
}
macro_rules! outside {
    ($t:ident, $lb:expr, $ub:expr) => {{
        let (lb, ub): (i128, i128) = ($lb, $ub);
        let v = nd::i128();
        nd::assume(v < lb || v > ub);
        if let Ok(x) = <_>::try_from(v) {
            assert!(rejected(&$t { 0: x }), "a value outside the constraint is accepted");
        }
        cover!(true, "outside");
    }};
}
const T64: i128 = 1 << 64;

fn sized<T: AperCodec<Output = T>, F: Fn(&T) -> bool>(x: &T, p: usize, ext: bool, lb: usize, ub: Option<usize>, b: &[u8; 4], n: usize, f: F) {
    let mut r = start(p);
    r.string_head(ext, lb, ub, n, 2, 2);
    r.octets(b, n);
    both(x, p, r, f);
}
fn octets<T: AperCodec<Output = T>>(mk: fn(Vec<u8>) -> T, get: fn(&T) -> &Vec<u8>, p: usize, ext: bool, lb: usize, ub: Option<usize>, n: usize) {
    let b = nd::bytes::<4>();
    // octet strings with an upper bound of 2 or less are not aligned only if the size is fixed
    let mut r = start(p);
    r.string_head(ext, lb, ub, n, 2, 0);
    r.octets(&b, n);
    both(&mk(vec_of(&b, n)), p, r, |y| is_prefix(get(y), &b, n));
}
fn bits(n: usize) -> (BitVec<u8, Msb0>, u128) {
    let x = nd::u16();
    let mut v = BitVec::<u8, Msb0>::new();
    let mut i = 0;
    while i < n {
        v.push(x >> (n - 1 - i) & 1 == 1);
        i += 1;
    }
    (v, x as u128 & ((1 << n) - 1))
}

harnesses! {
    fn tiny_type() { int!(Tiny, 2, 0, 5, false) }
    fn alias() { int!(Alias, 1, 0, 5, false) }
    fn edge() { int!(Edge, 3, 0, 255, false) }
    fn port() { int!(Port, 3, 0, 65535, false) }
    fn wide() { int!(Wide, 3, 0, 4294967295, false) }
    fn below() { int!(Below, 0, -5, 300, false) }
    fn grows() { int!(Grows, 0, -10, 10, true) }
    fn exclusive() { int!(Open, 5, 2, 19, false) }
    fn mixed() {
        let v = nd::u8();
        nd::assume(v == 1 || v == 3 || (v >= 7 && v <= 9));
        let mut r = start(0);
        r.constrained(1, 9, v as i128);
        both(&Mixed(v), 0, r, |y| y.0 == v);
    }
    fn named() { int!(Named, 0, 0, 7, false) }
    fn meet() { int!(Meet, 1, 3, 10, false) }
    fn meet_or() {
        let v = nd::u8();
        nd::assume(v == 4 || (v >= 7 && v <= 10));
        let mut r = start(0);
        r.constrained(4, 10, v as i128);
        both(&MeetOr(v), 0, r, |y| y.0 == v);
    }
    fn serial() { int!(Serial, 1, 0, 100, false) }
    fn narrow() { int!(Narrow, 1, 7, 20, false) }
    fn twice() { int!(Twice, 1, 7, 9, false) }
    fn neg() { int!(Neg, 4, -128, 127, false) }
    fn neg16() { int!(Neg16, 4, -32769, 0, false) }
    fn long_type() { int!(Long, 4, -(T64 / 2), T64 / 2 - 1, false) }
    fn big() { int!(Big, 4, 0, T64 - 1, false) }
    fn more_later() { int!(MoreLater, 4, 1, 4, true) }
    fn free() {
        let v = nd::i64();
        let mut r = start(1);
        r.unconstrained(v as i128);
        both(&Free(v), 1, r, |y| y.0 == v);
    }
    fn fixed() {
        both(&Fixed(42), 3, start(3), |y| y.0 == 42);
        outside!(Fixed, 42, 42);
    }
    fn out_tiny() { outside!(Tiny, 0, 5) }
    fn out_below() { outside!(Below, -5, 300) }
    fn out_exclusive() { outside!(Open, 2, 19) }
    fn out_mixed() { outside!(Mixed, 1, 9) }
    fn out_meet() { outside!(Meet, 3, 10) }
    fn out_serial() { outside!(Serial, 0, 100) }
    fn out_twice() { outside!(Twice, 7, 9) }
    fn out_named() { outside!(Named, 0, 7) }
    fn out_neg16() { outside!(Neg16, -32769, 0) }

    fn flag_nil() {
        let (v, p) = (nd::bool(), nd::upto(7));
        let mut r = start(p);
        r.bit(v);
        both(&Flag(v), p, r, |y| y.0 == v);
        both(&Nil, 3, start(3), |_| true);
    }
    /// Enumerations are numbered in the order of their values (X.691 14.1).
    fn enums() {
        assert!(Color::RED == 0 && Color::GREEN == 1 && Color::BLUE == 2, "enumerations in order");
        assert!(Signal::OFF == 0 && Signal::ON == 1, "root enumerations in order");
        assert!(Level::LOW == 0 && Level::MID == 1 && Level::HIGH == 2, "enumerations in the order of their values");
        assert!(Later::A == 0 && Later::B == 1 && Later::C == 2, "root enumerations in order");
        let v = nd::u8();
        nd::assume(v <= 2);
        let mut r = start(2);
        r.put(v as u128, 2);
        both(&Color(v), 2, r, |y| y.0 == v);
        let mut r = start(2);
        r.put(v as u128, 2);
        both(&Level(v), 2, r, |y| y.0 == v);
    }
    fn enums_ext() {
        let v = nd::u8();
        nd::assume(v <= 2);
        let mut r = start(2);
        r.put(v as u128, 3);
        both(&Later(v), 2, r, |y| y.0 == v);
        let mut r = start(2);
        nd::assume(v <= 1);
        r.put(v as u128, 2);
        both(&Signal(v), 2, r, |y| y.0 == v);
    }
    fn enums_invalid() {
        let v = nd::u8();
        assert!(rejected(&Color(v)) == (v > 2), "an enumeration is accepted exactly if it exists");
        assert!(rejected(&Level(v)) == (v > 2), "an enumeration is accepted exactly if it exists");
    }

    fn two() { octets(Two, |y| &y.0, 3, false, 2, Some(2), 2) }
    fn pair() { octets(Pair, |y| &y.0, 3, false, 2, Some(2), 2) }
    fn few_1() { octets(Few, |y| &y.0, 1, false, 1, Some(3), 1) }
    fn few_3() { octets(Few, |y| &y.0, 1, false, 1, Some(3), 3) }
    fn more_2() { octets(More, |y| &y.0, 1, true, 1, Some(2), 2) }
    fn any_0() { octets(AnyOctets, |y| &y.0, 1, false, 0, None, 0) }
    fn any_3() { octets(AnyOctets, |y| &y.0, 1, false, 0, None, 3) }
    fn sizes_invalid() {
        let n = nd::upto(4);
        let b = [0u8; 4];
        assert!(rejected(&Two(vec_of(&b, n))) == (n != 2), "a string is accepted exactly if its size constraint holds");
        assert!(rejected(&Few(vec_of(&b, n))) == (n < 1 || n > 3), "a string is accepted exactly if its size constraint holds");
        assert!(rejected(&Pair(vec_of(&b, n))) == (n != 2), "a string is accepted exactly if its size constraint holds");
    }
    fn bits3() {
        let (v, x) = bits(3);
        let w = v.clone();
        let mut r = start(2);
        r.put(x, 3);
        both(&Bits3(v), 2, r, |y| y.0 == w);
    }
    fn bits_up() {
        let (v, x) = bits(11);
        let w = v.clone();
        let mut r = start(2);
        r.bit(false);
        r.constrained(1, 12, 11);
        r.align();
        r.put(x, 11);
        both(&BitsUp(v), 2, r, |y| y.0 == w);
    }
    fn name() {
        let b = ascii::<4>();
        sized(&Name(string(&b, 2)), 3, true, 1, Some(2), &b, 2, |y| is_prefix(y.0.as_bytes(), &b, 2));
    }
    fn tag() {
        let b = ascii::<4>();
        sized(&Tag(string(&b, 2)), 3, false, 2, Some(2), &b, 2, |y| is_prefix(y.0.as_bytes(), &b, 2));
    }
    fn text() {
        let b = ascii::<4>();
        let mut r = start(3);
        r.length(2);
        r.octets(&b, 2);
        both(&Text(string(&b, 2)), 3, r, |y| is_prefix(y.0.as_bytes(), &b, 2));
    }
}
