//! C04: constraints are enforced: a value outside its (non-extensible) constraint is an error when
//! encoding, a value inside is not, and no decode function returns a value outside.
use crate::nd;
use crate::util::*;
use asn1_codecs::aper::*;

const N: usize = pick(3, 5);

fn enc(lb: Option<i128>, ub: Option<i128>, ext: bool) {
    let v = nd::between(-BIG, BIG);
    let mut d = AperCodecData::new();
    let ok = encode::encode_integer(&mut d, lb, ub, ext, v, false).is_ok();
    let inside = (lb.is_none() || v >= lb.unwrap()) && (ub.is_none() || v <= ub.unwrap());
    cover!(ok, "accepted");
    cover!(!ok, "rejected");
    assert!(ok == inside, "an integer is accepted exactly if its constraint holds");
}
fn input() -> AperCodecData {
    let mut d = AperCodecData::from_slice(&nd::bytes::<N>());
    d.seek(nd::upto(7));
    d
}
fn dec(lb: Option<i128>, ub: Option<i128>, ext: bool) {
    if let Ok((v, x)) = decode::decode_integer(&mut input(), lb, ub, ext) {
        cover!(true, "accepted");
        assert!(ext || !x, "extension value of a type without extension marker");
        if !x {
            assert!(lb.is_none() || v >= lb.unwrap(), "decoded integer below its lower bound");
            assert!(ub.is_none() || v <= ub.unwrap(), "decoded integer above its upper bound");
        }
    }
}
/// Lengths of strings when encoding; `f` encodes a string of `n` units.
fn len_rule(lb: Option<i128>, ub: Option<i128>, n: usize, ok: bool) {
    let n = n as i128;
    let inside = (lb.is_none() || n >= lb.unwrap()) && (ub.is_none() || n <= ub.unwrap());
    cover!(ok, "accepted");
    cover!(!ok, "rejected");
    assert!(ok == inside, "a string is accepted exactly if its size constraint holds");
}
fn in_size(lb: Option<i128>, ub: Option<i128>, n: usize) {
    let n = n as i128;
    cover!(true, "accepted");
    assert!(lb.is_none() || n >= lb.unwrap(), "decoded string below its size constraint");
    assert!(ub.is_none() || n <= ub.unwrap(), "decoded string above its size constraint");
}
fn osizes() -> (Option<i128>, Option<i128>) {
    let lb = nd::upto(4) as i128;
    let ub = nd::upto(4) as i128;
    nd::assume(lb <= ub);
    (if nd::bool() { Some(lb) } else { None }, if nd::bool() { Some(ub) } else { None })
}

harnesses! {
    fn enc_semi() { enc(Some(nd::between(-BIG, BIG)), None, nd::bool()) }
    fn enc_upper() { enc(None, Some(nd::between(-BIG, BIG)), nd::bool()) }
    fn enc_small() {
        let (lb, ub) = small_bounds();
        enc(Some(lb), Some(ub), nd::bool())
    }
    fn enc_large() {
        let (lb, ub) = large_bounds();
        enc(Some(lb), Some(ub), false)
    }
    fn enc_enumerated() {
        let ub = nd::u16() as i128;
        let v = nd::between(-BIG, BIG);
        let mut d = AperCodecData::new();
        let ok = encode::encode_enumerated(&mut d, Some(0), Some(ub), nd::bool(), v, false).is_ok();
        assert!(ok == (v >= 0 && v <= ub), "an enumeration index is accepted exactly if it exists");
    }
    fn enc_choice() {
        let ub = nd::u8() as i128;
        let v = nd::between(-BIG, BIG);
        let mut d = AperCodecData::new();
        let ok = encode::encode_choice_idx(&mut d, 0, ub, nd::bool(), v, false).is_ok();
        assert!(ok == (v >= 0 && v <= ub), "a choice index is accepted exactly if it exists");
    }
    fn enc_octets() {
        let (lb, ub) = osizes();
        let n = nd::upto(4);
        let v = vec_of(&[7u8; 4], n);
        let mut d = AperCodecData::new();
        len_rule(lb, ub, n, encode::encode_octetstring(&mut d, lb, ub, nd::bool(), &v, false).is_ok())
    }
    fn enc_length() {
        let lb = nd::u32() as i128;
        let ub = nd::u32() as i128;
        nd::assume(lb <= ub);
        let n = nd::upto(16383);
        let (lb, ub) = (if nd::bool() { Some(lb) } else { None }, if nd::bool() { Some(ub) } else { None });
        let mut d = AperCodecData::new();
        len_rule(lb, ub, n, encode::encode_length_determinent(&mut d, lb, ub, false, n).is_ok())
    }
    fn dec_semi() { dec(Some(nd::between(-BIG, BIG)), None, nd::bool()) }
    fn dec_upper() { dec(None, Some(nd::between(-BIG, BIG)), nd::bool()) }
    fn dec_small_6() {
        let lb = nd::between(-BIG, BIG);
        dec(Some(lb), Some(lb + 5), nd::bool())
    }
    fn dec_small_200() {
        let lb = nd::between(-BIG, BIG);
        dec(Some(lb), Some(lb + 199), false)
    }
    fn dec_small_1000() {
        let lb = nd::between(-BIG, BIG);
        dec(Some(lb), Some(lb + 999), false)
    }
    fn dec_large_20() {
        let lb = nd::between(-BIG, BIG);
        dec(Some(lb), Some(lb + 1_000_000), false)
    }
    fn t_dec_small() {
        let (lb, ub) = small_bounds();
        dec(Some(lb), Some(ub), nd::bool())
    }
    fn t_dec_large() {
        let (lb, ub) = large_bounds();
        dec(Some(lb), Some(ub), nd::bool())
    }
    fn dec_octets_big() {
        let (lb, ub) = (Some(1), Some(70000));
        if let Ok(v) = decode::decode_octetstring(&mut input(), lb, ub, false) {
            in_size(lb, ub, v.len())
        }
    }
    fn dec_octets_semi() {
        let lb = Some(nd::u8() as i128);
        if let Ok(v) = decode::decode_octetstring(&mut input(), lb, None, false) {
            in_size(lb, None, v.len())
        }
    }
    fn dec_bits_range() {
        let (lb, ub) = (Some(3), Some(8));
        if let Ok(v) = decode::decode_bitstring(&mut input(), lb, ub, false) {
            in_size(lb, ub, v.len())
        }
    }
    fn dec_bits_semi() {
        let lb = Some(nd::u8() as i128);
        if let Ok(v) = decode::decode_bitstring(&mut input(), lb, None, false) {
            in_size(lb, None, v.len())
        }
    }
    fn dec_chars() {
        let (lb, ub) = (Some(1), Some(5));
        if let Ok(v) = decode::decode_visible_string(&mut input(), lb, ub, false) {
            in_size(lb, ub, v.len())
        }
    }
    fn dec_chars_semi() {
        let lb = Some(1);
        if let Ok(v) = decode::decode_printable_string(&mut input(), lb, None, false) {
            in_size(lb, None, v.len())
        }
    }
}
