//! A serialization format of which only the sequence of events is known: every event is an opaque call.
use rabe_bn::arith::{U256, U512};
use rabe_bn::{Fr, Gt, G1, G2};
use serde::de::{self, DeserializeSeed, Deserializer, MapAccess, SeqAccess, Visitor};
use serde::ser::{self, Serialize, Serializer};
use serde::Deserialize;
use std::fmt;

extern "C" {
    // writing
    fn tok_put_u64(s: *mut Sink, v: u64);
    fn tok_put_open(s: *mut Sink, kind: u64, len: usize);
    fn tok_put_key(s: *mut Sink, p: *const u8, n: usize);
    fn tok_put_close(s: *mut Sink);
    fn tok_put_other(s: *mut Sink, kind: u64);
    fn tok_readable(s: *mut Sink) -> bool;
    // reading: what the data holds next for a request of the given kind
    fn tok_ask(s: *mut Sink, want: u64, len: usize) -> u64;
    fn tok_get_u64(s: *mut Sink) -> u64;
    fn tok_more(s: *mut Sink) -> bool;
    fn tok_key(s: *mut Sink) -> u64;
    fn tok_key_index(s: *mut Sink) -> u64;
    fn tok_key_str(s: *mut Sink) -> &'static str;
    fn tok_key_bytes(s: *mut Sink) -> &'static [u8];
    fn tok_close(s: *mut Sink) -> bool;
}

pub struct Sink(pub u64);

#[derive(Debug)]
pub struct TokErr;
impl fmt::Display for TokErr {
    fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result { Ok(()) }
}
impl ser::StdError for TokErr {}
impl ser::Error for TokErr {
    fn custom<T: fmt::Display>(_: T) -> Self { TokErr }
}
impl de::Error for TokErr {
    fn custom<T: fmt::Display>(_: T) -> Self { TokErr }
    fn invalid_type(_: de::Unexpected, _: &dyn de::Expected) -> Self { TokErr }
    fn invalid_value(_: de::Unexpected, _: &dyn de::Expected) -> Self { TokErr }
    fn invalid_length(_: usize, _: &dyn de::Expected) -> Self { TokErr }
    fn unknown_variant(_: &str, _: &'static [&'static str]) -> Self { TokErr }
    fn unknown_field(_: &str, _: &'static [&'static str]) -> Self { TokErr }
    fn missing_field(_: &'static str) -> Self { TokErr }
    fn duplicate_field(_: &'static str) -> Self { TokErr }
}

pub struct Ser<'a>(&'a mut Sink);

impl<'a> Ser<'a> {
    fn other(self, k: u64) -> Result<(), TokErr> { unsafe { tok_put_other(self.0, k) }; Ok(()) }
    fn open(self, k: u64, n: usize) -> Result<Ser<'a>, TokErr> { unsafe { tok_put_open(self.0, k, n) }; Ok(self) }
    fn item<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), TokErr> { v.serialize(Ser(&mut *self.0)) }
    fn close(self) -> Result<(), TokErr> { unsafe { tok_put_close(self.0) }; Ok(()) }
    fn key(&mut self, k: &str) { unsafe { tok_put_key(self.0, k.as_ptr(), k.len()) } }
}

impl<'a> Serializer for Ser<'a> {
    type Ok = ();
    type Error = TokErr;
    type SerializeSeq = Self;
    type SerializeTuple = Self;
    type SerializeTupleStruct = Self;
    type SerializeTupleVariant = Self;
    type SerializeMap = Self;
    type SerializeStruct = Self;
    type SerializeStructVariant = Self;
    fn is_human_readable(&self) -> bool { unsafe { tok_readable(self.0 as *const Sink as *mut Sink) } }
    fn serialize_u64(self, v: u64) -> Result<(), TokErr> { unsafe { tok_put_u64(self.0, v) }; Ok(()) }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> Result<(), TokErr> {
        let mut c = self.open(1, 1)?;
        c.item(v)?;
        c.close()
    }
    fn serialize_seq(self, n: Option<usize>) -> Result<Self, TokErr> { let n = n.unwrap_or(0); self.open(2, n) }
    fn serialize_tuple(self, n: usize) -> Result<Self, TokErr> { self.open(3, n) }
    fn serialize_tuple_struct(self, _: &'static str, n: usize) -> Result<Self, TokErr> { self.open(4, n) }
    fn serialize_map(self, n: Option<usize>) -> Result<Self, TokErr> { let n = n.unwrap_or(0); self.open(6, n) }
    fn serialize_struct(self, _: &'static str, n: usize) -> Result<Self, TokErr> { self.open(5, n) }
    fn serialize_bool(self, _: bool) -> Result<(), TokErr> { self.other(1) }
    fn serialize_i8(self, _: i8) -> Result<(), TokErr> { self.other(2) }
    fn serialize_i16(self, _: i16) -> Result<(), TokErr> { self.other(3) }
    fn serialize_i32(self, _: i32) -> Result<(), TokErr> { self.other(4) }
    fn serialize_i64(self, _: i64) -> Result<(), TokErr> { self.other(5) }
    fn serialize_u8(self, _: u8) -> Result<(), TokErr> { self.other(6) }
    fn serialize_u16(self, _: u16) -> Result<(), TokErr> { self.other(7) }
    fn serialize_u32(self, _: u32) -> Result<(), TokErr> { self.other(8) }
    fn serialize_f32(self, _: f32) -> Result<(), TokErr> { self.other(9) }
    fn serialize_f64(self, _: f64) -> Result<(), TokErr> { self.other(10) }
    fn serialize_char(self, _: char) -> Result<(), TokErr> { self.other(11) }
    fn serialize_str(self, _: &str) -> Result<(), TokErr> { self.other(12) }
    fn serialize_bytes(self, _: &[u8]) -> Result<(), TokErr> { self.other(13) }
    fn serialize_none(self) -> Result<(), TokErr> { self.other(14) }
    fn serialize_some<T: ?Sized + Serialize>(self, _: &T) -> Result<(), TokErr> { self.other(15) }
    fn serialize_unit(self) -> Result<(), TokErr> { self.other(16) }
    fn serialize_unit_struct(self, _: &'static str) -> Result<(), TokErr> { self.other(17) }
    fn serialize_unit_variant(self, _: &'static str, _: u32, _: &'static str) -> Result<(), TokErr> { self.other(18) }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<(), TokErr> { self.other(19) }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, n: usize) -> Result<Self, TokErr> { self.open(7, n) }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, n: usize) -> Result<Self, TokErr> { self.open(8, n) }
    fn collect_str<T: ?Sized + fmt::Display>(self, _: &T) -> Result<(), TokErr> { self.other(20) }
}
macro_rules! compound {
    (named $t:ident) => {
        impl<'a> ser::$t for Ser<'a> {
            type Ok = ();
            type Error = TokErr;
            fn serialize_field<T: ?Sized + Serialize>(&mut self, k: &'static str, v: &T) -> Result<(), TokErr> {
                self.key(k);
                self.item(v)
            }
            fn end(self) -> Result<(), TokErr> { self.close() }
        }
    };
    ($t:ident $m:ident) => {
        impl<'a> ser::$t for Ser<'a> {
            type Ok = ();
            type Error = TokErr;
            fn $m<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), TokErr> { self.item(v) }
            fn end(self) -> Result<(), TokErr> { self.close() }
        }
    };
}
compound!(SerializeSeq serialize_element);
compound!(SerializeTuple serialize_element);
compound!(SerializeTupleStruct serialize_field);
compound!(SerializeTupleVariant serialize_field);
compound!(named SerializeStruct);
compound!(named SerializeStructVariant);
impl<'a> ser::SerializeMap for Ser<'a> {
    type Ok = ();
    type Error = TokErr;
    fn serialize_key<T: ?Sized + Serialize>(&mut self, _: &T) -> Result<(), TokErr> { unsafe { tok_put_other(self.0, 21) }; Ok(()) }
    fn serialize_value<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), TokErr> { self.item(v) }
    fn end(self) -> Result<(), TokErr> { self.close() }
}

pub struct De<'a>(&'a mut Sink);

impl<'a> De<'a> {
    /// hand the visitor whatever the data holds, whether or not it is what was asked for
    fn serve<'de, V: Visitor<'de>>(self, v: V, want: u64, len: usize) -> Result<V::Value, TokErr> {
        match unsafe { tok_ask(self.0, want, len) } {
            0 => {
                let x = unsafe { tok_get_u64(self.0) };
                v.visit_u64(x)
            }
            1 => {
                let r = v.visit_newtype_struct(De(&mut *self.0))?;
                done(self.0, r)
            }
            2 => {
                let r = v.visit_seq(Items(&mut *self.0))?;
                done(self.0, r)
            }
            3 => {
                let r = v.visit_map(Items(&mut *self.0))?;
                done(self.0, r)
            }
            4 => v.visit_unit(),
            5 => v.visit_str("x"),
            6 => v.visit_bool(true),
            7 => v.visit_none(),
            8 => v.visit_i64(-1),
            9 => v.visit_f64(0.5),
            10 => v.visit_bytes(&[0]),
            11 => v.visit_some(De(&mut *self.0)),
            _ => Err(TokErr),
        }
    }
}
fn done<T>(s: &mut Sink, r: T) -> Result<T, TokErr> {
    if unsafe { tok_close(s) } { Ok(r) } else { Err(TokErr) }
}

pub struct Items<'a>(&'a mut Sink);
impl<'a, 'de> SeqAccess<'de> for Items<'a> {
    type Error = TokErr;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, TokErr> {
        if unsafe { tok_more(self.0) } {
            Ok(Some(seed.deserialize(De(&mut *self.0))?))
        } else {
            Ok(None)
        }
    }
}
impl<'a, 'de> MapAccess<'de> for Items<'a> {
    type Error = TokErr;
    fn next_key_seed<K: DeserializeSeed<'de>>(&mut self, seed: K) -> Result<Option<K::Value>, TokErr> {
        if unsafe { tok_more(self.0) } {
            Ok(Some(seed.deserialize(Key(&mut *self.0))?))
        } else {
            Ok(None)
        }
    }
    fn next_value_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<T::Value, TokErr> {
        seed.deserialize(De(&mut *self.0))
    }
}

pub struct Key<'a>(&'a mut Sink);
impl<'a, 'de> Deserializer<'de> for Key<'a> {
    type Error = TokErr;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, TokErr> {
        match unsafe { tok_key(self.0) } {
            0 => {
                let k = unsafe { tok_key_str(self.0) };
                v.visit_str(k)
            }
            1 => {
                let k = unsafe { tok_key_bytes(self.0) };
                v.visit_bytes(k)
            }
            2 => {
                let i = unsafe { tok_key_index(self.0) };
                v.visit_u64(i)
            }
            3 => v.visit_bool(false),
            _ => Err(TokErr),
        }
    }
    serde::forward_to_deserialize_any! { bool i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 char str string bytes byte_buf option unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any }
}

macro_rules! wants {
    ($($m:ident $k:expr;)*) => { $(fn $m<V: Visitor<'de>>(self, v: V) -> Result<V::Value, TokErr> { self.serve(v, $k, 0) })* };
}
impl<'a, 'de> Deserializer<'de> for De<'a> {
    type Error = TokErr;
    fn is_human_readable(&self) -> bool { unsafe { tok_readable(self.0 as *const Sink as *mut Sink) } }
    wants! {
        deserialize_any 20; deserialize_bool 21; deserialize_i8 21; deserialize_i16 21; deserialize_i32 21; deserialize_i64 21;
        deserialize_u8 21; deserialize_u16 21; deserialize_u32 21; deserialize_u64 0; deserialize_f32 21; deserialize_f64 21;
        deserialize_char 21; deserialize_str 21; deserialize_string 21; deserialize_bytes 21; deserialize_byte_buf 21;
        deserialize_option 22; deserialize_unit 21; deserialize_seq 2; deserialize_map 6; deserialize_identifier 23;
    }
    fn deserialize_unit_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, TokErr> { self.serve(v, 21, 0) }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, TokErr> { self.serve(v, 1, 1) }
    fn deserialize_tuple<V: Visitor<'de>>(self, n: usize, v: V) -> Result<V::Value, TokErr> { self.serve(v, 3, n) }
    fn deserialize_tuple_struct<V: Visitor<'de>>(self, _: &'static str, n: usize, v: V) -> Result<V::Value, TokErr> { self.serve(v, 4, n) }
    fn deserialize_struct<V: Visitor<'de>>(self, _: &'static str, f: &'static [&'static str], v: V) -> Result<V::Value, TokErr> { self.serve(v, 5, f.len()) }
    fn deserialize_enum<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: V) -> Result<V::Value, TokErr> { self.serve(v, 21, 0) }
    /// a value nobody looks at
    fn deserialize_ignored_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, TokErr> {
        match unsafe { tok_ask(self.0, 24, 0) } {
            4 => v.visit_unit(),
            _ => Err(TokErr),
        }
    }
}

macro_rules! ser_roots {
    ($($t:ty, $s:ident, $d:ident;)*) => { $(
        pub fn $s(a: &$t, s: &mut Sink) -> bool { a.serialize(Ser(s)).is_ok() }
        pub fn $d(s: &mut Sink) -> Result<$t, TokErr> { <$t as Deserialize>::deserialize(De(s)) }
    )* };
}
ser_roots! {
    Fr, root_ser_fr, root_de_fr;
    G1, root_ser_g1, root_de_g1;
    G2, root_ser_g2, root_de_g2;
    Gt, root_ser_gt, root_de_gt;
    U256, root_ser_u256, root_de_u256;
    U512, root_ser_u512, root_de_u512;
}
