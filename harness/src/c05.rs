//! C05: length determinants (11.9): the octets written, for every length and bound, and their
//! inverse in the decoder.
use crate::nd;
use crate::refc::{same, R};
use crate::util::*;
use asn1_codecs::aper::*;

fn reference(p: usize, lb: Option<usize>, ub: Option<usize>, small: bool, n: usize) -> R {
    let mut r = R::new();
    rpre(&mut r, p);
    if small {
        if n <= 64 {
            r.put((n - 1) as u128, 7)
        } else {
            r.put(1, 1);
            r.length(n)
        }
    } else {
        r.len_det(if let Some(l) = lb { l } else { 0 }, ub, n)
    }
    r.put(1, 1);
    r
}
fn enc(p: usize, lb: Option<usize>, ub: Option<usize>, small: bool, n: usize) {
    let mut d = AperCodecData::new();
    pre(&mut d, p);
    let ok = encode::encode_length_determinent(&mut d, bigo(lb), bigo(ub), small, n).is_ok();
    assert!(ok, "a length within its bounds is rejected");
    let _ = encode::encode_bool(&mut d, true);
    cover!(true, "encoded");
    assert!(same(&d.into_bytes(), &reference(p, lb, ub, small, n), 6), "encoding differs from X.691");
}
fn dec(p: usize, lb: Option<usize>, ub: Option<usize>, small: bool, n: usize) {
    let r = reference(p, lb, ub, small, n);
    let mut d = AperCodecData::from_slice(&r.bytes::<6>());
    d.seek(p);
    match decode::decode_length_determinent(&mut d, bigo(lb), bigo(ub), small) {
        Ok(m) => {
            cover!(true, "decoded");
            assert!(m == n, "decoded length differs");
            tail(&mut d)
        }
        Err(_) => panic!("a valid length determinent is rejected"),
    }
}
fn bounded() -> (usize, usize, usize) {
    let lb = nd::upto(65535);
    let ub = nd::upto(65535);
    let n = nd::upto(65535);
    nd::assume(lb <= n && n <= ub);
    (lb, ub, n)
}
fn range(p: usize, lb: usize, ub: usize) {
    let n = nd::upto(ub);
    nd::assume(n >= lb);
    dec(p, Some(lb), Some(ub), false, n)
}

harnesses! {
    fn enc_any() { enc(nd::upto(7), None, None, false, nd::upto(16383)) }
    fn enc_lower() {
        let n = nd::upto(16383);
        enc(nd::upto(7), Some(nd::upto(n)), None, false, n)
    }
    fn enc_big() {
        let n = nd::upto(16383);
        let ub = nd::usize();
        nd::assume(ub >= 65536 && ub < 1 << 40);
        enc(nd::upto(7), Some(nd::upto(n)), Some(ub), false, n)
    }
    fn enc_bounded() {
        let (lb, ub, n) = bounded();
        enc(5, Some(lb), Some(ub), false, n)
    }
    fn t_enc_bounded() {
        let (lb, ub, n) = bounded();
        enc(nd::upto(7), Some(lb), Some(ub), false, n)
    }
    fn enc_upper() {
        let (_, ub, n) = bounded();
        enc(2, None, Some(ub), false, n)
    }
    fn enc_small() {
        let n = nd::upto(16383);
        nd::assume(n >= 1);
        enc(nd::upto(7), None, None, true, n)
    }
    fn enc_small_0() {
        let mut d = AperCodecData::new();
        assert!(encode::encode_length_determinent(&mut d, None, None, true, 0).is_err(), "no normally small length is 0");
    }
    /// Lengths that would need fragments are an error, not a wrong encoding.
    fn enc_fragments() {
        let n = nd::upto(1 << 40);
        nd::assume(n >= 16384);
        let mut d = AperCodecData::new();
        assert!(encode::encode_length_determinent(&mut d, None, None, nd::bool(), n).is_err(), "a fragmented length is written");
    }
    fn dec_any() { dec(nd::upto(7), None, None, false, nd::upto(16383)) }
    fn dec_small() {
        let n = nd::upto(16383);
        nd::assume(n >= 1);
        dec(nd::upto(7), None, None, true, n)
    }
    fn dec_1_2() { range(nd::upto(7), 1, 2) }
    fn dec_0_254() { range(nd::upto(7), 0, 254) }
    fn dec_5_260() { range(nd::upto(7), 5, 260) }
    fn dec_0_256() { range(nd::upto(7), 0, 256) }
    fn dec_1_65535() { range(nd::upto(7), 1, 65535) }
    fn dec_big() {
        let n = nd::upto(16383);
        dec(3, Some(0), Some(65536), false, n)
    }
    fn t_dec_bounded() {
        let (lb, ub, n) = bounded();
        dec(nd::upto(7), Some(lb), Some(ub), false, n)
    }
}
