//! Types as the compiler generates them.
use asn1_codecs_derive::AperCodec;
use bitvec::prelude::*;

#[derive(Debug, AperCodec)]
#[asn(type = "BOOLEAN")]
pub struct Flag(pub bool);
#[derive(Debug, AperCodec)]
#[asn(type = "NULL")]
pub struct Nothing;
#[derive(Debug, AperCodec)]
#[asn(type = "INTEGER", lb = "0", ub = "5")]
pub struct Small(pub u8);
#[derive(Debug, AperCodec)]
#[asn(type = "INTEGER", lb = "0", ub = "255")]
pub struct Octet(pub u8);
#[derive(Debug, AperCodec)]
#[asn(type = "INTEGER", lb = "-10", ub = "10", extensible = true)]
pub struct Signed(pub i8);
#[derive(Debug, AperCodec)]
#[asn(type = "INTEGER", lb = "0", ub = "65535")]
pub struct Word(pub u16);
#[derive(Debug, AperCodec)]
#[asn(type = "INTEGER", lb = "0", ub = "4294967295")]
pub struct Long(pub u32);
#[derive(Debug, AperCodec)]
#[asn(type = "INTEGER")]
pub struct Any8(pub i8);
#[derive(Debug, AperCodec)]
#[asn(type = "INTEGER", lb = "0")]
pub struct Semi16(pub u16);
#[derive(Debug, AperCodec)]
#[asn(type = "INTEGER")]
pub struct Any64(pub i64);
#[derive(Debug, AperCodec)]
#[asn(type = "INTEGER", lb = "-9223372036854775808", ub = "9223372036854775807")]
pub struct Full64(pub i64);
#[derive(Debug, AperCodec)]
#[asn(type = "ENUMERATED", lb = "0", ub = "2")]
pub struct Level(pub u8);
#[derive(Debug, AperCodec)]
#[asn(type = "ENUMERATED", lb = "0", ub = "2", extensible = true)]
pub struct Color(pub u8);
#[derive(Debug, AperCodec)]
#[asn(type = "OCTET-STRING", sz_lb = "2", sz_ub = "2")]
pub struct Pair(pub Vec<u8>);
#[derive(Debug, AperCodec)]
#[asn(type = "OCTET-STRING")]
pub struct Octets(pub Vec<u8>);
#[derive(Debug, AperCodec)]
#[asn(type = "OCTET-STRING", sz_extensible = true, sz_lb = "1", sz_ub = "3")]
pub struct Name(pub Vec<u8>);
#[derive(Debug, AperCodec)]
#[asn(type = "BITSTRING", sz_extensible = true, sz_lb = "3", sz_ub = "3")]
pub struct Bits(pub BitVec<u8, Msb0>);
#[derive(Debug, AperCodec)]
#[asn(type = "PrintableString", sz_extensible = true, sz_lb = "1", sz_ub = "150")]
pub struct Text(pub String);
#[derive(Debug, AperCodec)]
#[asn(type = "VisibleString", sz_lb = "2", sz_ub = "2")]
pub struct Code(pub String);
#[derive(Debug, AperCodec)]
#[asn(type = "UTF8String", sz_lb = "1", sz_ub = "150")]
pub struct Label(pub String);

#[derive(Debug, AperCodec)]
#[asn(type = "SEQUENCE", extensible = false)]
pub struct Plain {
    pub a: Small,
    pub b: Flag,
    pub c: Octet,
}
#[derive(Debug, AperCodec)]
#[asn(type = "SEQUENCE", extensible = true, optional_fields = 3)]
pub struct Opts {
    #[asn(optional_idx = 0)]
    pub a: Option<Small>,
    pub b: Flag,
    #[asn(optional_idx = 1)]
    pub c: Option<Octet>,
    #[asn(optional_idx = 2)]
    pub d: Option<Level>,
}
#[derive(Debug, AperCodec)]
#[asn(type = "SEQUENCE", extensible = false, optional_fields = 2)]
pub struct Nest {
    #[asn(optional_idx = 0)]
    pub x: Option<Opts>,
    #[asn(optional_idx = 1)]
    pub y: Option<Small>,
    pub z: Flag,
}
#[derive(Debug, AperCodec)]
#[asn(type = "CHOICE", lb = "0", ub = "2", extensible = false)]
pub enum Three {
    #[asn(key = 0, extended = false)]
    A(Flag),
    #[asn(key = 1, extended = false)]
    B(Octet),
    #[asn(key = 2, extended = false)]
    C(Nothing),
}
#[derive(Debug, AperCodec)]
#[asn(type = "CHOICE", lb = "0", ub = "1", extensible = true)]
pub enum Two {
    #[asn(key = 0, extended = false)]
    A(Small),
    #[asn(key = 1, extended = false)]
    B(Three),
}
#[derive(Debug, AperCodec)]
#[asn(type = "CHOICE", lb = "0", ub = "0", extensible = true)]
pub enum One {
    #[asn(key = 0, extended = false)]
    A(Small),
}
#[derive(Debug, AperCodec)]
#[asn(type = "OPEN")]
pub enum Value {
    #[asn(key = 8)]
    Flag(Flag),
    #[asn(key = 147)]
    Octet(Octet),
    #[asn(key = 3)]
    Nothing(Nothing),
}
#[derive(Debug, AperCodec)]
#[asn(type = "SEQUENCE", extensible = false)]
pub struct Item {
    #[asn(key_field = true)]
    pub id: Octet,
    pub criticality: Level,
    pub value: Value,
}
#[derive(Debug, AperCodec)]
#[asn(type = "OPEN")]
pub enum ValueLong {
    #[asn(key = 147)]
    V(Long),
}
#[derive(Debug, AperCodec)]
#[asn(type = "SEQUENCE", extensible = false)]
pub struct ItemLong {
    #[asn(key_field = true)]
    pub id: Octet,
    pub criticality: Level,
    pub value: ValueLong,
}
#[derive(Debug, AperCodec)]
#[asn(type = "OPEN")]
pub enum ValueOctets {
    #[asn(key = 147)]
    V(Octets),
}
#[derive(Debug, AperCodec)]
#[asn(type = "SEQUENCE", extensible = false)]
pub struct ItemOctets {
    #[asn(key_field = true)]
    pub id: Octet,
    pub criticality: Level,
    pub value: ValueOctets,
}
#[derive(Debug, AperCodec)]
#[asn(type = "OPEN")]
pub enum ValueSmall {
    #[asn(key = 8)]
    V(Small),
}
#[derive(Debug, AperCodec)]
#[asn(type = "SEQUENCE", extensible = false)]
pub struct ItemSmall {
    #[asn(key_field = true)]
    pub id: Octet,
    pub criticality: Level,
    pub value: ValueSmall,
}
#[derive(Debug, AperCodec)]
#[asn(type = "SEQUENCE-OF", sz_lb = "0", sz_ub = "3")]
pub struct UpTo3(pub Vec<Small>);
#[derive(Debug, AperCodec)]
#[asn(type = "SEQUENCE-OF", sz_lb = "2", sz_ub = "2")]
pub struct Just2(pub Vec<Octet>);
#[derive(Debug, AperCodec)]
#[asn(type = "SEQUENCE-OF")]
pub struct Many(pub Vec<Small>);
#[derive(Debug, AperCodec)]
#[asn(type = "SEQUENCE-OF", sz_extensible = true, sz_lb = "1", sz_ub = "2")]
pub struct Ext(pub Vec<Flag>);
#[derive(Debug, AperCodec)]
#[asn(type = "SEQUENCE-OF", sz_lb = "0", sz_ub = "65535")]
pub struct Pairs(pub Vec<Plain>);
