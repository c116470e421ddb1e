//! C01: no decoder input makes a decode function panic, overflow or run away: every byte string,
//! read position and constraint gives `Ok` or `Err`.
use crate::nd;
use crate::util::*;
use asn1_codecs::aper::*;

const N: usize = pick(3, 5);

fn input() -> AperCodecData {
    let mut d = AperCodecData::from_slice(&nd::bytes::<N>());
    d.seek(nd::upto(8 * N));
    d
}
fn sizes() -> (Option<i128>, Option<i128>) {
    let lb = nd::u32() as i128;
    let ub = nd::u32() as i128;
    nd::assume(lb <= ub);
    (if nd::bool() { Some(lb) } else { None }, if nd::bool() { Some(ub) } else { None })
}
fn either<T>(r: Result<T, E>) {
    cover!(r.is_ok(), "accepted");
    cover!(r.is_err(), "rejected");
}

harnesses! {
    fn bool_() { either(decode::decode_bool(&mut input())) }
    fn align() { either(input().decode_align()) }
    fn int_unconstrained() {
        let ub = nd::between(-BIG, BIG);
        either(decode::decode_integer(&mut input(), None, if nd::bool() { Some(ub) } else { None }, nd::bool()))
    }
    fn int_semi() {
        let lb = nd::between(-BIG, BIG);
        either(decode::decode_integer(&mut input(), Some(lb), None, nd::bool()))
    }
    fn int_small() {
        let (lb, ub) = small_bounds();
        either(decode::decode_integer(&mut input(), Some(lb), Some(ub), nd::bool()))
    }
    fn int_i64() { either(decode::decode_integer(&mut input(), Some(i64::MIN as i128), Some(i64::MAX as i128), nd::bool())) }
    fn int_u32() { either(decode::decode_integer(&mut input(), Some(0), Some(u32::MAX as i128), nd::bool())) }
    fn t_int_large() {
        let (lb, ub) = large_bounds();
        either(decode::decode_integer(&mut input(), Some(lb), Some(ub), nd::bool()))
    }
    /// Sixteen octets and more: values of more than 127 bits.
    fn int_wide() {
        let mut b = nd::bytes::<20>();
        b[0] = 14 + (b[0] & 3);
        let mut d = AperCodecData::from_slice(&b);
        let lb = nd::between(-BIG, BIG);
        either(decode::decode_integer(&mut d, if nd::bool() { Some(lb) } else { None }, None, false))
    }
    fn enumerated() { either(decode::decode_enumerated(&mut input(), Some(0), Some(5), nd::bool())) }
    fn enumerated_300() { either(decode::decode_enumerated(&mut input(), Some(0), Some(299), true)) }
    fn t_enumerated() {
        let ub = nd::u16() as i128;
        either(decode::decode_enumerated(&mut input(), Some(0), Some(ub), nd::bool()))
    }
    fn choice_idx() { either(decode::decode_choice_idx(&mut input(), 0, 2, nd::bool())) }
    fn t_choice_idx() {
        let ub = nd::u16() as i128;
        either(decode::decode_choice_idx(&mut input(), 0, ub, nd::bool()))
    }
    fn sequence_header() { either(decode::decode_sequence_header(&mut input(), nd::bool(), nd::upto(130))) }
    fn length_normally_small() { either(decode::decode_length_determinent(&mut input(), None, None, true)) }
    fn length_any() { either(decode::decode_length_determinent(&mut input(), None, None, false)) }
    fn length_sizes() {
        let (lb, ub) = sizes();
        either(decode::decode_length_determinent(&mut input(), lb, ub, false))
    }
    fn octetstring_any() { either(decode::decode_octetstring(&mut input(), None, None, nd::bool())) }
    fn octetstring_fix2() { either(decode::decode_octetstring(&mut input(), Some(2), Some(2), nd::bool())) }
    fn octetstring_0_40() { either(decode::decode_octetstring(&mut input(), Some(0), Some(40), false)) }
    fn octetstring_big() { either(decode::decode_octetstring(&mut input(), Some(1), Some(70000), false)) }
    fn t_octetstring() {
        let (lb, ub) = sizes();
        either(decode::decode_octetstring(&mut input(), lb, ub, nd::bool()))
    }
    fn bitstring_any() { either(decode::decode_bitstring(&mut input(), None, None, nd::bool())) }
    fn bitstring_fix17() { either(decode::decode_bitstring(&mut input(), Some(17), Some(17), nd::bool())) }
    fn bitstring_2_9() { either(decode::decode_bitstring(&mut input(), Some(2), Some(9), false)) }
    fn bitstring_big() { either(decode::decode_bitstring(&mut input(), None, Some(70000), false)) }
    fn t_bitstring() {
        let (lb, ub) = sizes();
        either(decode::decode_bitstring(&mut input(), lb, ub, nd::bool()))
    }
    fn visible_string() { either(decode::decode_visible_string(&mut input(), Some(1), Some(150), nd::bool())) }
    fn printable_string() { either(decode::decode_printable_string(&mut input(), None, None, nd::bool())) }
    fn utf8_string() { either(decode::decode_utf8_string(&mut input(), None, None, nd::bool())) }
    fn t_visible_string() {
        let (lb, ub) = sizes();
        either(decode::decode_visible_string(&mut input(), lb, ub, nd::bool()))
    }
    fn skip_extensions() { either(decode::skip_sequence_extensions(&mut input())) }
    fn open_type() { either(input().take_open_type(nd::upto(65536 * 4))) }
}
