//! D01: derived SEQUENCE codecs: preamble, OPTIONAL components in order, nested sequences,
//! extension additions skipped.
use crate::nd;
use crate::refc::{same, R};
use crate::types::*;
use crate::util::*;
use asn1_codecs::aper::*;

fn small() -> u8 {
    let v = nd::u8();
    nd::assume(v <= 5);
    v
}
#[derive(Clone, Copy)]
struct V {
    a: Option<u8>,
    b: bool,
    c: Option<u8>,
    d: Option<u8>,
}
fn value() -> V {
    let (a, b, c, d) = (small(), nd::bool(), nd::u8(), nd::u8());
    nd::assume(d <= 2);
    V {
        a: if nd::bool() { Some(a) } else { None },
        b,
        c: if nd::bool() { Some(c) } else { None },
        d: if nd::bool() { Some(d) } else { None },
    }
}
fn opts(v: V) -> Opts {
    Opts { a: v.a.map(Small), b: Flag(v.b), c: v.c.map(Octet), d: v.d.map(Level) }
}
fn is(o: &Opts, v: V) -> bool {
    let a = match &o.a {
        Some(x) => Some(x.0),
        None => None,
    };
    let c = match &o.c {
        Some(x) => Some(x.0),
        None => None,
    };
    let d = match &o.d {
        Some(x) => Some(x.0),
        None => None,
    };
    a == v.a && o.b.0 == v.b && c == v.c && d == v.d
}
fn put(r: &mut R, v: V, extended: bool) {
    r.bit(extended);
    r.bit(v.a.is_some());
    r.bit(v.c.is_some());
    r.bit(v.d.is_some());
    if let Some(a) = v.a {
        r.put(a as u128, 3);
    }
    r.bit(v.b);
    if let Some(c) = v.c {
        r.align();
        r.put(c as u128, 8);
    }
    if let Some(d) = v.d {
        r.put(d as u128, 2);
    }
}
fn enc<T: AperCodec>(x: &T, r: &R, p: usize) {
    let mut d = AperCodecData::new();
    pre(&mut d, p);
    assert!(x.encode(&mut d).is_ok(), "a valid value is rejected");
    let _ = encode::encode_bool(&mut d, true);
    assert!(same(&d.into_bytes(), r, 8), "encoding differs from X.691");
    cover!(true, "encoded");
}

fn plain(p: usize) {
    let (a, b, c) = (small(), nd::bool(), nd::u8());
    let mut r = R::new();
    rpre(&mut r, p);
    r.put(a as u128, 3);
    r.bit(b);
    r.align();
    r.put(c as u128, 8);
    r.put(1, 1);
    enc(&Plain { a: Small(a), b: Flag(b), c: Octet(c) }, &r, p);
    let mut d = AperCodecData::from_slice(&r.bytes::<4>());
    d.seek(p);
    match Plain::decode(&mut d) {
        Ok(s) => assert!(s.a.0 == a && s.b.0 == b && s.c.0 == c, "components differ"),
        Err(_) => panic!("a valid encoding is rejected"),
    }
    tail(&mut d);
}
/// As a later version of the type would send: up to `max` additions of up to `len` octets.
fn additions(max: usize, len: usize) {
    let v = value();
    nd::assume(v.a.is_none() && v.c.is_none());
    let n = nd::upto(max);
    nd::assume(n >= 1);
    let x = nd::u8();
    let k = nd::upto(len);
    let mut r = R::new();
    put(&mut r, v, true);
    r.put((n - 1) as u128, 7);
    let mut i = 0;
    while i < 3 {
        if i < n {
            r.bit(x >> i & 1 == 1);
        }
        i += 1;
    }
    i = 0;
    while i < 3 {
        if i < n && x >> i & 1 == 1 {
            r.length(k);
            r.put(if k == 0 { 0 } else { 0xa5a5 >> (16 - 8 * k) }, 8 * k);
        }
        i += 1;
    }
    r.put(1, 1);
    let mut d = AperCodecData::from_slice(&r.bytes::<14>());
    match Opts::decode(&mut d) {
        Ok(o) => assert!(is(&o, v), "components differ"),
        Err(_) => panic!("a message with extension additions is rejected"),
    }
    cover!(n == max && x & 3 == 1 && k == len, "decoded");
    tail(&mut d);
}

harnesses! {
    fn plain_0() {
        plain(0)
    }
    fn plain_3() {
        plain(3)
    }
    fn plain_4() {
        plain(4)
    }
    fn plain_7() {
        plain(7)
    }
    fn enc_opts() {
        let (v, p) = (value(), nd::upto(7));
        let mut r = R::new();
        rpre(&mut r, p);
        put(&mut r, v, false);
        r.put(1, 1);
        enc(&opts(v), &r, p);
    }
    fn dec_opts() {
        let v = value();
        let mut r = R::new();
        rpre(&mut r, 2);
        put(&mut r, v, false);
        r.put(1, 1);
        let mut d = AperCodecData::from_slice(&r.bytes::<5>());
        d.seek(2);
        match Opts::decode(&mut d) {
            Ok(o) => assert!(is(&o, v), "components differ"),
            Err(_) => panic!("a valid encoding is rejected"),
        }
        cover!(v.a.is_some() && v.c.is_none() && v.d.is_some(), "decoded");
        tail(&mut d);
    }
    /// A later version of the type: the additions are skipped, the root is read.
    fn dec_additions() {
        additions(2, 1)
    }
    fn t_dec_additions() {
        additions(3, 2)
    }
    fn enc_nest() {
        let (v, z) = (value(), nd::bool());
        let y = if nd::bool() { Some(small()) } else { None };
        let x = nd::bool();
        let mut r = R::new();
        r.bit(x);
        r.bit(y.is_some());
        if x {
            put(&mut r, v, false);
        }
        if let Some(y) = y {
            r.put(y as u128, 3);
        }
        r.bit(z);
        r.put(1, 1);
        enc(&Nest { x: if x { Some(opts(v)) } else { None }, y: y.map(Small), z: Flag(z) }, &r, 0);
    }
    fn dec_nest() {
        let (v, z) = (value(), nd::bool());
        let y = if nd::bool() { Some(small()) } else { None };
        let x = nd::bool();
        nd::assume(v.c.is_none());
        let mut r = R::new();
        r.bit(x);
        r.bit(y.is_some());
        if x {
            put(&mut r, v, false);
        }
        if let Some(y) = y {
            r.put(y as u128, 3);
        }
        r.bit(z);
        r.put(1, 1);
        let mut d = AperCodecData::from_slice(&r.bytes::<3>());
        match Nest::decode(&mut d) {
            Ok(o) => {
                assert!(o.x.is_some() == x && o.y.is_some() == y.is_some(), "presence differs");
                if let Some(o) = o.x {
                    assert!(is(&o, v), "components differ");
                }
                if let Some(w) = o.y {
                    assert!(Some(w.0) == y, "components differ");
                }
                assert!(o.z.0 == z, "components differ");
            }
            Err(_) => panic!("a valid encoding is rejected"),
        }
        cover!(x && y.is_some(), "decoded");
        tail(&mut d);
    }
    /// Any octets: a value or an error.
    fn any() {
        let mut d = AperCodecData::from_slice(&nd::bytes::<3>());
        d.seek(2);
        let g = Opts::decode(&mut d);
        cover!(g.is_ok(), "accepted");
        cover!(g.is_err(), "rejected");
    }
    /// Any octets without additions: decoded exactly if every component present is valid.
    fn exact() {
        let b = nd::bytes::<3>();
        nd::assume(b[0] & 0x80 == 0);
        let all = (b[0] as u32) << 24 | (b[1] as u32) << 16 | (b[2] as u32) << 8;
        let mut at = 4;
        let take = |at: &mut usize, n: usize| {
            let v = (all << *at as u32) >> (32 - n as u32);
            *at += n;
            v as u8
        };
        let (mut ok, mut v) = (true, V { a: None, b: false, c: None, d: None });
        if b[0] & 0x40 != 0 {
            let a = take(&mut at, 3);
            ok &= a <= 5;
            v.a = Some(a);
        }
        v.b = take(&mut at, 1) == 1;
        if b[0] & 0x20 != 0 {
            let pad = 8 - at;
            ok &= pad == 0 || take(&mut at, pad) == 0;
            v.c = Some(take(&mut at, 8));
        }
        if b[0] & 0x10 != 0 {
            let d = take(&mut at, 2);
            ok &= d <= 2;
            v.d = Some(d);
        }
        let mut d = AperCodecData::from_slice(&b);
        match Opts::decode(&mut d) {
            Ok(o) => {
                cover!(v.a.is_some() && v.c.is_some() && v.d.is_some(), "accepted");
                assert!(ok, "an invalid encoding is accepted");
                assert!(is(&o, v), "components differ")
            }
            Err(_) => {
                cover!(true, "rejected");
                assert!(!ok, "a valid encoding is rejected")
            }
        }
    }
    /// A component that violates its constraint fails the whole sequence.
    fn enc_invalid() {
        let (v, a) = (value(), nd::u8());
        let o = Opts { a: Some(Small(a)), b: Flag(v.b), c: None, d: None };
        let mut d = AperCodecData::new();
        assert!(o.encode(&mut d).is_ok() == (a <= 5), "a component outside its constraint is accepted, or one inside rejected");
    }
}
