//! G03: code generated for constructed types.
use crate::common::*;
use crate::gen::*;
use crate::nd;
use crate::refc::R;
use crate::util::*;
use asn1_codecs::aper::*;

fn octet(r: &mut R, x: u8) {
    r.align();
    r.put(x as u128, 8);
}
/// Extension additions as a later version of the type would send them: the first of one octet,
/// the second of `n` octets if present.
fn additions(r: &mut R, second: bool, n: usize) {
    r.put(1, 7);
    r.bit(true);
    r.bit(second);
    r.length(1);
    r.put(nd::u8() as u128, 8);
    if second {
        r.length(n);
        r.put(0xa5a5 >> (16 - 8 * n), 8 * n);
    }
}
fn v<T, F: Fn(u8) -> T>(b: &[u8], f: F) -> Vec<T> {
    let mut v = Vec::with_capacity(4);
    let mut i = 0;
    while i < b.len() {
        v.push(f(b[i]));
        i += 1;
    }
    v
}
fn list(n: usize) {
    let b = [tiny(), tiny(), tiny()];
    let mut r = start(3);
    r.put(n as u128 - 1, 2);
    let mut i = 0;
    while i < n {
        r.put(b[i] as u128, 3);
        i += 1;
    }
    both(&List(v(&b[..n], Tiny)), 3, r, |y| y.0.len() == n && y.0[0].0 == b[0] && y.0[n - 1].0 == b[n - 1]);
}
fn loose(n: usize) {
    let (a, k) = ([tiny(), tiny()], [nd::bool(), nd::bool()]);
    let mut r = start(1);
    r.length(n);
    let mut l = Vec::with_capacity(2);
    let mut i = 0;
    while i < n {
        r.bit(k[i]);
        if k[i] {
            r.bit(a[i] & 1 == 1);
            l.push(Shut::B(Flag(a[i] & 1 == 1)));
        } else {
            r.put(a[i] as u128, 3);
            l.push(Shut::A(Tiny(a[i])));
        }
        i += 1;
    }
    written(&Loose(l), 1, &r);
}
fn pairs(n: usize) {
    let (a, b) = ([tiny(), tiny()], [nd::bool(), nd::bool()]);
    let mut r = start(5);
    r.put(n as u128, 2);
    let mut l = Vec::with_capacity(2);
    let mut i = 0;
    while i < n {
        r.put(a[i] as u128, 3);
        r.bit(b[i]);
        l.push(Pairs_Entry { k: Tiny(a[i]), v: Flag(b[i]) });
        i += 1;
    }
    written(&Pairs(l), 5, &r);
}

harnesses! {
    fn plain() {
        let (a, b, c) = (tiny(), nd::bool(), nd::u8());
        let mut r = start(2);
        r.put(a as u128, 3);
        r.bit(b);
        octet(&mut r, c);
        both(&Plain { first: Tiny(a), second: Flag(b), third: Edge(c) }, 2, r, |y| y.first.0 == a && y.second.0 == b && y.third.0 == c);
    }
    fn opts() {
        let (a, b, c, d) = (tiny(), nd::bool(), nd::u8(), nd::u8());
        nd::assume(d <= 2);
        let (ha, hc, hd) = (nd::bool(), nd::bool(), nd::bool());
        let mut r = start(1);
        r.bit(false);
        r.bit(ha);
        r.bit(hc);
        r.bit(hd);
        if ha {
            r.put(a as u128, 3);
        }
        r.bit(b);
        if hc {
            octet(&mut r, c);
        }
        if hd {
            r.put(d as u128, 2);
        }
        let x = Opts {
            a: if ha { Some(Tiny(a)) } else { None },
            b: Flag(b),
            c: if hc { Some(Edge(c)) } else { None },
            d: if hd { Some(Color(d)) } else { None },
        };
        both(&x, 1, r, |y| {
            y.b.0 == b
                && match &y.a { Some(t) => ha && t.0 == a, None => !ha }
                && match &y.c { Some(t) => hc && t.0 == c, None => !hc }
                && match &y.d { Some(t) => hd && t.0 == d, None => !hd }
        });
    }
    fn grown() {
        let a = tiny();
        let mut r = start(0);
        r.bit(false);
        r.put(a as u128, 3);
        both(&Grown { a: Tiny(a) }, 0, r, |y| y.a.0 == a);
    }
    /// Additions of a SEQUENCE are not part of its root, whether or not they are known.
    fn grown_additions() {
        let (a, s) = (tiny(), nd::bool());
        let mut r = start(0);
        r.bit(true);
        r.put(a as u128, 3);
        additions(&mut r, s, 1);
        read::<Grown, _>(0, &r, |y| y.a.0 == a);
    }
    /// Components behind the second extension marker are root components.
    fn ends() {
        let (a, z) = (tiny(), nd::bool());
        let mut r = start(0);
        r.bit(false);
        r.put(a as u128, 3);
        r.bit(z);
        both(&Ends { a: Tiny(a), z: Flag(z) }, 0, r, |y| y.a.0 == a && y.z.0 == z);
    }
    /// A component with a DEFAULT value has a presence bit.
    fn deflt() {
        let (a, b, h) = (tiny(), nd::bool(), nd::bool());
        nd::assume(a != 3);
        let mut r = start(0);
        r.bit(h);
        if h {
            r.put(a as u128, 3);
        }
        r.bit(b);
        again::<Deflt, _>(0, r, |y| y.b.0 == b);
    }
    fn empty() {
        both(&Empty {}, 3, start(3), |_| true);
        let mut r = start(3);
        r.bit(false);
        both(&EmptyExt {}, 3, r, |_| true);
    }
    /// Constraints of the components themselves.
    fn range() {
        let (a, b) = (nd::u8(), nd::u8());
        nd::assume(a >= 3 && a <= 6 && b >= 90 && b <= 100);
        let mut r = start(0);
        r.put(a as u128 - 3, 2);
        r.put(b as u128 - 90, 4);
        again::<Range, _>(0, r, |y| y.lo.0 == a && y.hi.0 == b);
    }
    /// Types defined inside others.
    fn nest() {
        let (x, y, k, n) = (nd::bool(), nd::bool(), nd::bool(), nd::i8());
        let (hy, hn) = (nd::bool(), nd::bool());
        nd::assume(n >= -1 && n <= 6);
        let mut r = start(0);
        r.bit(hn);
        r.bit(hy);
        r.bit(x);
        if hy {
            r.bit(y);
        }
        r.bit(k);
        if hn {
            r.put((n + 1) as u128, 3);
        }
        again::<Nest, _>(0, r, |v| {
            (v.inner.x.0 == 1) == x
                && match &v.inner.y { Some(b) => hy && b.0 == y, None => !hy }
                && (v.kind.0 == 1) == k
                && match &v.num { Some(i) => hn && i.0 == n, None => !hn }
        });
    }
    fn pick() {
        let (k, x, p, c) = (nd::u8(), nd::u8(), nd::bool(), nd::u8());
        nd::assume(k <= 2);
        let mut r = start(4);
        r.bit(false);
        r.put(k as u128, 2);
        if k == 1 {
            octet(&mut r, x);
        }
        if k == 2 {
            nd::assume(x <= 5);
            r.put(x as u128, 3);
            r.bit(p);
            octet(&mut r, c);
        }
        again::<Pick, _>(4, r, |y| match y {
            Pick::None(_) => k == 0,
            Pick::Num(e) => k == 1 && e.0 == x,
            Pick::Opts(o) => k == 2 && o.first.0 == x && o.second.0 == p && o.third.0 == c,
        });
    }
    fn shut() {
        let (k, a, b) = (nd::bool(), tiny(), nd::bool());
        let mut r = start(4);
        r.bit(k);
        if k {
            r.bit(b);
        } else {
            r.put(a as u128, 3);
        }
        again::<Shut, _>(4, r, |y| match y {
            Shut::A(t) => !k && t.0 == a,
            Shut::B(f) => k && f.0 == b,
        });
    }
    /// The root alternatives of an extensible CHOICE with additions.
    fn wider() {
        let (k, a, b) = (nd::bool(), tiny(), nd::bool());
        let mut r = start(4);
        r.bit(false);
        r.bit(k);
        if k {
            r.bit(b);
        } else {
            r.put(a as u128, 3);
        }
        again::<Wider, _>(4, r, |y| match y {
            Wider::A(t) => !k && t.0 == a,
            Wider::B(f) => k && f.0 == b,
            _ => false,
        });
    }
    fn list_1() { list(1) }
    fn list_2() { list(2) }
    fn list_3() { list(3) }
    fn list_invalid() {
        assert!(rejected(&List(v(&[], Tiny))), "a list is accepted exactly if its size constraint holds");
        assert!(rejected(&List(v(&[0, 1, 2, 3], Tiny))), "a list is accepted exactly if its size constraint holds");
    }
    fn loose_0() { loose(0) }
    fn loose_2() { loose(2) }
    fn pairs_0() { pairs(0) }
    fn pairs_2() { pairs(2) }
}
