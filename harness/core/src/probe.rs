//! Minimal serde serializer: captures what a message *is* without producing bytes. Scalars and unit
//! variants are captured exactly; fields of structs/variants are captured in order into slots.
use serde::ser::*;
use serde::Serialize;

#[derive(Clone, Copy, PartialEq)]
pub struct Val {
    /// 0 nothing, 1 scalar, 2 unit variant, 3 newtype variant, 4 struct variant, 5 struct, 6 str
    pub tag: u8,
    /// variant index (tags 2..=4)
    pub var: u32,
    /// scalars in order: 8 bits per u8/bool, the low 16 bits of every wider one
    pub acc: u128,
    /// first and last scalar, in full
    pub first: u32,
    pub last: u32,
    /// how many scalars
    pub n: u32,
}
pub const NOVAL: Val = Val { tag: 0, var: 0, acc: 0, first: 0, last: 0, n: 0 };

#[derive(Debug)]
pub struct E;
impl core::fmt::Display for E {
    fn fmt(&self, _: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        Ok(())
    }
}
impl std::error::Error for E {}
impl Error for E {
    fn custom<T: core::fmt::Display>(_: T) -> Self {
        E
    }
}

pub fn capture<T: Serialize + ?Sized>(t: &T) -> Val {
    let mut v = NOVAL;
    let _ = t.serialize(P(&mut v));
    v
}

pub struct P<'a>(&'a mut Val);
impl P<'_> {
    fn put(self, x: u32) -> Result<(), E> {
        if self.0.tag == 0 {
            self.0.tag = 1;
        }
        self.0.acc = self.0.acc << 16 | (x & 0xFFFF) as u128;
        self.0.last = x;
        if self.0.n == 0 {
            self.0.first = x;
        }
        self.0.n += 1;
        Ok(())
    }
    fn put8(self, x: u8) -> Result<(), E> {
        if self.0.tag == 0 {
            self.0.tag = 1;
        }
        self.0.acc = self.0.acc << 8 | x as u128;
        self.0.last = x as u32;
        if self.0.n == 0 {
            self.0.first = x as u32;
        }
        self.0.n += 1;
        Ok(())
    }
    fn tag(&mut self, t: u8, var: u32) {
        if self.0.tag == 0 {
            self.0.tag = t;
            self.0.var = var;
        }
    }
}
impl<'a> Serializer for P<'a> {
    type Ok = ();
    type Error = E;
    type SerializeSeq = P<'a>;
    type SerializeTuple = P<'a>;
    type SerializeTupleStruct = P<'a>;
    type SerializeTupleVariant = P<'a>;
    type SerializeMap = P<'a>;
    type SerializeStruct = P<'a>;
    type SerializeStructVariant = P<'a>;
    fn serialize_bool(self, v: bool) -> Result<(), E> {
        self.put8(v as u8)
    }
    fn serialize_i8(self, v: i8) -> Result<(), E> {
        self.put(v as u32)
    }
    fn serialize_i16(self, v: i16) -> Result<(), E> {
        self.put(v as u32)
    }
    fn serialize_i32(self, v: i32) -> Result<(), E> {
        self.put(v as u32)
    }
    fn serialize_i64(self, v: i64) -> Result<(), E> {
        self.put(v as u32)
    }
    fn serialize_u8(self, v: u8) -> Result<(), E> {
        self.put8(v)
    }
    fn serialize_u16(self, v: u16) -> Result<(), E> {
        self.put(v as u32)
    }
    fn serialize_u32(self, v: u32) -> Result<(), E> {
        self.put(v)
    }
    fn serialize_u64(self, v: u64) -> Result<(), E> {
        self.put(v as u32)
    }
    fn serialize_f32(self, _: f32) -> Result<(), E> {
        Err(E)
    }
    fn serialize_f64(self, _: f64) -> Result<(), E> {
        Err(E)
    }
    fn serialize_char(self, v: char) -> Result<(), E> {
        self.put(v as u32)
    }
    /// strings: length and first byte
    fn serialize_str(mut self, v: &str) -> Result<(), E> {
        self.tag(6, 0);
        let b = v.as_bytes();
        self.put(b.len() as u32 | (if b.is_empty() { 0 } else { b[0] as u32 }) << 8)
    }
    fn collect_str<T: core::fmt::Display + ?Sized>(self, _: &T) -> Result<(), E> {
        Err(E)
    }
    fn serialize_bytes(self, _: &[u8]) -> Result<(), E> {
        Err(E)
    }
    fn serialize_none(self) -> Result<(), E> {
        self.put(0)
    }
    fn serialize_some<T: Serialize + ?Sized>(self, v: &T) -> Result<(), E> {
        v.serialize(self)
    }
    fn serialize_unit(mut self) -> Result<(), E> {
        self.tag(1, 0);
        Ok(())
    }
    fn serialize_unit_struct(mut self, _: &'static str) -> Result<(), E> {
        self.tag(1, 0);
        Ok(())
    }
    fn serialize_unit_variant(mut self, _: &'static str, i: u32, _: &'static str) -> Result<(), E> {
        if self.0.tag == 0 {
            self.tag(2, i);
            Ok(())
        } else {
            self.put8(i as u8)
        }
    }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, _: &'static str, v: &T) -> Result<(), E> {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(mut self, _: &'static str, i: u32, _: &'static str, v: &T) -> Result<(), E> {
        if self.0.tag == 0 {
            self.tag(3, i);
            v.serialize(self)
        } else {
            // nested variants only occur inside type descriptions, identified by their name alone
            Ok(())
        }
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<Self, E> {
        Ok(self)
    }
    fn serialize_tuple(self, _: usize) -> Result<Self, E> {
        Ok(self)
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self, E> {
        Ok(self)
    }
    fn serialize_tuple_variant(mut self, _: &'static str, i: u32, _: &'static str, _: usize) -> Result<Self, E> {
        self.tag(4, i);
        Ok(self)
    }
    fn serialize_map(self, _: Option<usize>) -> Result<Self, E> {
        Ok(self)
    }
    fn serialize_struct(mut self, _: &'static str, _: usize) -> Result<Self, E> {
        self.tag(5, 0);
        Ok(self)
    }
    fn serialize_struct_variant(mut self, _: &'static str, i: u32, _: &'static str, _: usize) -> Result<Self, E> {
        self.tag(4, i);
        Ok(self)
    }
}
macro_rules! comp {
    ($($t:ident $f:ident $(($name:ident))?;)*) => {$(
        impl<'a> $t for P<'a> {
            type Ok = ();
            type Error = E;
            fn $f<T: Serialize + ?Sized>(&mut self, $($name: &'static str,)? v: &T) -> Result<(), E> {
                $(let _ = $name;)?
                v.serialize(P(self.0))
            }
            fn end(self) -> Result<(), E> {
                Ok(())
            }
        }
    )*};
}
comp! {
    SerializeSeq serialize_element;
    SerializeTuple serialize_element;
    SerializeTupleStruct serialize_field;
    SerializeTupleVariant serialize_field;
    SerializeStructVariant serialize_field (_k);
}
impl<'a> SerializeMap for P<'a> {
    type Ok = ();
    type Error = E;
    fn serialize_key<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), E> {
        v.serialize(P(self.0))
    }
    fn serialize_value<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), E> {
        v.serialize(P(self.0))
    }
    fn end(self) -> Result<(), E> {
        Ok(())
    }
}
impl<'a> SerializeStruct for P<'a> {
    type Ok = ();
    type Error = E;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, k: &'static str, v: &T) -> Result<(), E> {
        // type descriptions are identified by their name: their `ty` field is not descended into
        if k.len() == 2 {
            return Ok(());
        }
        v.serialize(P(self.0))
    }
    fn end(self) -> Result<(), E> {
        Ok(())
    }
}
