//! G01: the bounds the compiler takes from a set of values are those of the set, sets are
//! intersected value by value, and the Rust integer type chosen for a set holds all of it.
use crate::nd;
use crate::resolver::asn::structs::types::{base::*, constraints::*};
use std::ops::Range;

const BIG: i128 = 1i128 << 126;

fn any() -> i128 {
    nd::between(-BIG, BIG)
}
fn pair() -> (i128, i128) {
    let (a, b) = (any(), any());
    nd::assume(a <= b);
    (a, b)
}
/// `nr` ranges and `nv` single values.
struct S {
    r: [(i128, i128); 2],
    v: [i128; 2],
    nr: usize,
    nv: usize,
}
impl S {
    fn new(nr: usize, nv: usize) -> S {
        S { r: [pair(), pair()], v: [any(), any()], nr, nv }
    }
    fn has(&self, x: i128) -> bool {
        (self.nr > 0 && self.r[0].0 <= x && x <= self.r[0].1)
            || (self.nr > 1 && self.r[1].0 <= x && x <= self.r[1].1)
            || (self.nv > 0 && self.v[0] == x)
            || (self.nv > 1 && self.v[1] == x)
    }
    fn set(&self) -> ConstraintValues {
        let mut c = ConstraintValues::new();
        let mut i = 0;
        while i < self.nr {
            c.ranges.push(Range { start: self.r[i].0, end: self.r[i].1 + 1 });
            i += 1;
        }
        i = 0;
        while i < self.nv {
            c.values.push(self.v[i]);
            i += 1;
        }
        c
    }
}
/// The bounds of the set are its least and its greatest element.
fn tight(c: &ConstraintValues, s: impl Fn(i128) -> bool) {
    let x = any();
    match (c.min(), c.max()) {
        (Some(lo), Some(hi)) => {
            cover!(true, "not empty");
            assert!(s(lo), "the lower bound is not in the set");
            assert!(s(hi), "the upper bound is not in the set");
            assert!(!s(x) || (lo <= x && x <= hi), "a value of the set is outside its bounds");
            assert!(!c.is_empty(), "a set that is not empty");
        }
        (None, None) => assert!(!s(x) && c.is_empty(), "a set without bounds is not empty"),
        _ => panic!("a set with one bound"),
    }
}
fn bounds(nr: usize, nv: usize) {
    let s = S::new(nr, nv);
    let c = s.set();
    tight(&c, |x| s.has(x));
    std::mem::forget(c);
}
fn union(a: (usize, usize), b: (usize, usize)) {
    let (s, t) = (S::new(a.0, a.1), S::new(b.0, b.1));
    let (mut c, d) = (s.set(), t.set());
    c.append(&d);
    tight(&c, |x| s.has(x) || t.has(x));
    std::mem::forget((c, d));
}
fn meet(a: (usize, usize), b: (usize, usize)) {
    let (s, t) = (S::new(a.0, a.1), S::new(b.0, b.1));
    let (c, d) = (s.set(), t.set());
    let m = c.intersection(&d);
    same(&m, a.0 * b.0 + a.1 + b.1, |x| s.has(x) && t.has(x));
    std::mem::forget((c, d, m));
}
/// The elements of the set (of at most `n` ranges and values).
fn same(c: &ConstraintValues, n: usize, s: impl Fn(i128) -> bool) {
    let x = any();
    let mut found = false;
    assert!(c.ranges.len() <= n && c.values.len() <= n, "more parts than any value needs");
    let mut i = 0;
    while i < n {
        if i < c.ranges.len() {
            let r = &c.ranges[i];
            found |= r.start <= x && x < r.end;
        }
        if i < c.values.len() {
            found |= c.values[i] == x;
        }
        i += 1;
    }
    cover!(found, "not empty");
    assert!(found == s(x), "another set of values");
}
/// The Rust type holds every value of the set, and is not signed without need.
fn width(nr: usize, nv: usize, ext: bool) {
    let s = S::new(nr, nv);
    let mut i = Asn1ResolvedInteger::default();
    let set = Asn1ConstraintValueSet {
        root_values: s.set(),
        additional_values: if ext { Some(ConstraintValues::new()) } else { None },
    };
    match i.set_constraints(set) {
        Ok(()) => (),
        Err(_) => panic!("a constraint with values is rejected"),
    }
    let x = any();
    assert!(i.bits == 8 || i.bits == 16 || i.bits == 32 || i.bits == 64 || i.bits == 128, "no such Rust type");
    if s.has(x) {
        cover!(x < 0, "negative");
        cover!(x >= 1i128 << 64, "more than 64 bits");
        let fits = if i.bits == 128 {
            i.signed || x >= 0
        } else if i.signed {
            x >= -(1i128 << (i.bits - 1)) && x < 1i128 << (i.bits - 1)
        } else {
            x >= 0 && x < 1i128 << i.bits
        };
        assert!(fits, "the Rust type does not hold every value");
    }
    let c = i.resolved_constraints.as_ref().expect("the constraint is lost");
    assert!(c.has_extension() == ext, "the extension marker is lost");
    tight(&c.root_values, |x| s.has(x));
    std::mem::forget(i);
}
fn serial(parent_ext: bool, ext: bool) {
    let (s, t) = (S::new(1, 0), S::new(1, 1));
    let set = |c, e: bool| Asn1ConstraintValueSet { root_values: c, additional_values: if e { Some(ConstraintValues::new()) } else { None } };
    let p = set(s.set(), parent_ext);
    let r = set(t.set(), ext).applied_to(Some(&p));
    assert!(r.has_extension() == ext, "the extension marker is not that of the last constraint");
    same(&r.root_values, 2, |x| s.has(x) && t.has(x));
    std::mem::forget((p, r));
}

harnesses! {
    fn bounds_r1() { bounds(1, 0) }
    fn bounds_r2() { bounds(2, 0) }
    fn bounds_v1() { bounds(0, 1) }
    fn bounds_v2() { bounds(0, 2) }
    fn bounds_r1v1() { bounds(1, 1) }
    fn bounds_r2v2() { bounds(2, 2) }
    fn bounds_empty() {
        let c = ConstraintValues::new();
        assert!(c.min().is_none() && c.max().is_none() && c.is_empty(), "an empty set has no bounds");
    }
    fn union_r1_v1() { union((1, 0), (0, 1)) }
    fn union_r1_r1() { union((1, 0), (1, 0)) }
    fn union_v1_r1v1() { union((0, 1), (1, 1)) }
    fn meet_r1_r1() { meet((1, 0), (1, 0)) }
    fn meet_r1_v1() { meet((1, 0), (0, 1)) }
    fn meet_v1_r1() { meet((0, 1), (1, 0)) }
    fn meet_v1_v1() { meet((0, 1), (0, 1)) }
    fn meet_r1v1_r1v1() { meet((1, 1), (1, 1)) }
    fn width_r1() { width(1, 0, false) }
    fn width_r1_ext() { width(1, 0, true) }
    fn width_v1() { width(0, 1, false) }
    fn width_r1v1() { width(1, 1, false) }
    fn width_v2() { width(0, 2, true) }
    fn serial_root() { serial(false, false) }
    fn serial_drops() { serial(true, false) }
    fn serial_ext() { serial(false, true) }
    fn t_width_r2v2() { width(2, 2, true) }
}
