use crate::nd;
use crate::refc::R;
use asn1_codecs::aper::*;

pub const THOROUGH: bool = match option_env!("VT_TIER") {
    Some(s) => s.len() == 8,
    None => false,
};
/// The bound for the tier.
pub const fn pick(quick: usize, thorough: usize) -> usize {
    if THOROUGH {
        thorough
    } else {
        quick
    }
}

pub type E = AperCodecError;

/// Largest magnitude of integer bounds and values: 2^64 in both directions.
pub const BIG: i128 = 1i128 << 64;

/// A buffer that already holds `p` (0..=7) bits.
pub fn pre(d: &mut AperCodecData, p: usize) {
    let mut i = 0;
    while i < p {
        let _ = encode::encode_bool(d, i & 1 == 0);
        i += 1;
    }
}
/// The same prefix in the reference encoder.
pub fn rpre(r: &mut R, p: usize) {
    let mut i = 0;
    while i < p {
        r.put((i & 1 == 0) as u128, 1);
        i += 1;
    }
}

/// Bounds of a constrained integer with at most 64K values.
pub fn small_bounds() -> (i128, i128) {
    let lb = nd::between(-BIG, BIG);
    let span = nd::u16() as i128;
    (lb, lb + span)
}
/// Bounds of a constrained integer with more than 64K values.
pub fn large_bounds() -> (i128, i128) {
    let lb = nd::between(-BIG, BIG);
    let ub = nd::between(-BIG, BIG);
    nd::assume(ub - lb >= 65536);
    (lb, ub)
}

/// Size bounds of a string with `n` units, `n` within them; `ub` is `None`, small or large.
pub fn size_bounds(max: usize) -> (usize, Option<usize>) {
    let lb = nd::upto(max);
    let ub = nd::upto(max);
    nd::assume(lb <= ub);
    (lb, if nd::bool() { Some(ub) } else { None })
}
pub fn big(x: usize) -> Option<i128> {
    Some(x as i128)
}
pub fn bigo(x: Option<usize>) -> Option<i128> {
    match x {
        Some(x) => Some(x as i128),
        None => None,
    }
}
/// A vector of the first `n` octets of `b`.
pub fn vec_of<const N: usize>(b: &[u8; N], n: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(N);
    let mut i = 0;
    while i < N {
        if i < n {
            v.push(b[i]);
        }
        i += 1;
    }
    v
}
/// `v` holds exactly the first `n` octets of `b`.
pub fn is_prefix<const N: usize>(v: &[u8], b: &[u8; N], n: usize) -> bool {
    if v.len() != n {
        return false;
    }
    let mut ok = true;
    let mut i = 0;
    while i < N {
        if i < n && v[i] != b[i] {
            ok = false;
        }
        i += 1;
    }
    ok
}

/// The sentinel bit that follows an item is read back and nothing is left but the padding.
pub fn tail(d: &mut AperCodecData) {
    match decode::decode_bool(d) {
        Ok(b) => assert!(b, "the item was decoded with the wrong number of bits"),
        Err(_) => panic!("decoding the item ran past its end"),
    }
}
