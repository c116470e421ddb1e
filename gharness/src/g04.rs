//! G04: code generated for containers of information objects.
use crate::common::*;
use crate::gen::*;
use crate::nd;
use crate::refc::R;
use crate::util::*;
use asn1_codecs::aper::*;

const FLAG: u16 = 8;
const EDGE: u16 = 200;
const OCTETS: u16 = 300;

/// One field: id, criticality, open type.
fn field(r: &mut R, id: u16, c: u8, x: u8) {
    r.align();
    r.put(id as u128, 16);
    r.put(c as u128, 2);
    match id {
        FLAG => {
            r.length(1);
            r.put((x & 1) as u128, 1);
            r.put(0, 7);
        }
        EDGE => {
            r.length(1);
            r.put(x as u128, 8);
        }
        _ => {
            r.length(2);
            r.length(1);
            r.put(x as u128, 8);
        }
    }
}
fn is(f: &MessageItems_Entry, id: u16, c: u8, x: u8) -> bool {
    f.id.0 == id
        && f.criticality.0 == c
        && match &f.value {
            MessageItems_EntryValue::Id_Flag(v) => id == FLAG && v.0 == (x & 1 == 1),
            MessageItems_EntryValue::Id_Edge(v) => id == EDGE && v.0 == x,
            MessageItems_EntryValue::Id_Octets(v) => id == OCTETS && v.0.len() == 1 && v.0[0] == x,
        }
}
fn crit() -> u8 {
    let c = nd::u8();
    nd::assume(c <= 2);
    c
}
fn entry(id: u16, c: u8, x: u8) -> MessageItems_Entry {
    let value = match id {
        FLAG => MessageItems_EntryValue::Id_Flag(Flag(x & 1 == 1)),
        EDGE => MessageItems_EntryValue::Id_Edge(Edge(x)),
        _ => {
            let mut v = Vec::with_capacity(1);
            v.push(x);
            MessageItems_EntryValue::Id_Octets(AnyOctets(v))
        }
    };
    MessageItems_Entry { id: ItemID(id), criticality: Criticality(c), value }
}
fn one_enc(id: u16) {
    let (c, x) = (crit(), nd::u8());
    let mut r = start(3);
    field(&mut r, id, c, x);
    written(&entry(id, c, x), 3, &r);
}
fn one_dec(id: u16) {
    let (c, x) = (crit(), nd::u8());
    let mut r = start(3);
    field(&mut r, id, c, x);
    read::<MessageItems_Entry, _>(3, &r, |y| is(y, id, c, x));
}
fn two(a: u16, b: u16) {
    let (c, x) = ([crit(), crit()], [nd::u8(), nd::u8()]);
    let mut r = start(0);
    r.bit(false);
    r.put(2, 2);
    field(&mut r, a, c[0], x[0]);
    field(&mut r, b, c[1], x[1]);
    let mut l = Vec::with_capacity(2);
    l.push(entry(a, c[0], x[0]));
    l.push(entry(b, c[1], x[1]));
    written(&Message { items: MessageItems(l) }, 0, &r);
}

harnesses! {
    fn none() {
        let mut r = start(0);
        r.bit(false);
        r.put(0, 2);
        written(&Message { items: MessageItems(Vec::new()) }, 0, &r);
    }
    fn flag_enc() { one_enc(FLAG) }
    fn edge_enc() { one_enc(EDGE) }
    fn octets_enc() { one_enc(OCTETS) }
    fn flag_dec() { one_dec(FLAG) }
    fn edge_dec() { one_dec(EDGE) }
    fn octets_dec() { one_dec(OCTETS) }
    fn edge_flag() { two(EDGE, FLAG) }
    fn flag_octets() { two(FLAG, OCTETS) }
    /// No id but those of the object set selects an alternative.
    fn unknown() {
        let (id, c, x) = (nd::u16(), crit(), nd::u8());
        nd::assume(id != FLAG && id != EDGE && id != OCTETS);
        let mut r = start(0);
        field(&mut r, id, c, x);
        let mut d = AperCodecData::from_slice(&r.bytes::<8>());
        assert!(MessageItems_Entry::decode(&mut d).is_err(), "an id that no object has is accepted");
        cover!(true, "unknown");
    }
}
