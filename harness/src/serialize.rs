//! Serialization of `CycleMap`, through a format written here: a list of entries in an array, in
//! which every item is one `u16`.
use crate::base::*;
use crate::one::{check, done, with_pairs, Map};
use serde::de::{self, DeserializeSeed, Deserializer, MapAccess, SeqAccess, Visitor};
use serde::ser::{self, Impossible, Serializer};
use serde::{forward_to_deserialize_any, Deserialize, Serialize};
use std::fmt;

/// An error with a number
#[derive(Debug, Clone, Copy, PartialEq)]
pub struct E(pub u8);
impl fmt::Display for E {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("E")
    }
}
impl std::error::Error for E {}
impl ser::Error for E {
    fn custom<T: fmt::Display>(_: T) -> E {
        E(255)
    }
}
impl de::Error for E {
    fn custom<T: fmt::Display>(_: T) -> E {
        E(255)
    }
}

impl Serialize for K {
    fn serialize<T: Serializer>(&self, out: T) -> Result<T::Ok, T::Error> {
        out.serialize_u16((self.q.0 as u16) << 8 | self.tag as u16)
    }
}
struct ItemVisitor;
impl<'de> Visitor<'de> for ItemVisitor {
    type Value = K;
    fn expecting(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("an item")
    }
    fn visit_u16<X: de::Error>(self, x: u16) -> Result<K, X> {
        Ok(K {
            q: Q((x >> 8) as u8),
            tag: x as u8,
        })
    }
}
impl<'de> Deserialize<'de> for K {
    fn deserialize<D: Deserializer<'de>>(input: D) -> Result<K, D::Error> {
        input.deserialize_u16(ItemVisitor)
    }
}

const ENTRIES: usize = N;

/// The serialized form
#[derive(Clone, Copy)]
pub struct Data {
    /// The entries are announced as a list (else: as a map)
    list: bool,
    announced: Option<usize>,
    len: usize,
    items: [(u16, u16); ENTRIES],
    /// An error at this entry, and whether it is in the entry's second item
    fail: usize,
    late: bool,
}
const EMPTY: Data = Data {
    list: true,
    announced: None,
    len: 0,
    items: [(0, 0); ENTRIES],
    fail: 99,
    late: false,
};

/// Writes into `Data`
struct Out<'a> {
    data: &'a mut Data,
    /// Items written: none between entries, one within one
    half: Option<u16>,
    ended: &'a mut u32,
}
impl<'a> Out<'a> {
    fn item(&mut self, x: u16) -> Result<(), E> {
        let late = self.half.is_some();
        if self.data.len == self.data.fail && late == self.data.late {
            return Err(E(1));
        }
        match self.half {
            None => self.half = Some(x),
            Some(first) => {
                assert!(self.data.len < ENTRIES, "API: more entries are written than there are");
                self.data.items[self.data.len] = (first, x);
                self.data.len += 1;
                self.half = None;
            }
        }
        Ok(())
    }
}

/// A serializer that knows `u16` alone
struct ItemOut;
macro_rules! unsupported {
    ($($name:ident: $T:ty),*) => {$(
        fn $name(self, _: $T) -> Result<Self::Ok, E> {
            Err(E(254))
        }
    )*};
}
macro_rules! no_scalars {
    () => {
        unsupported! {
            serialize_bool: bool, serialize_i8: i8, serialize_i16: i16, serialize_i32: i32, serialize_i64: i64,
            serialize_u8: u8, serialize_u32: u32, serialize_u64: u64, serialize_f32: f32,
            serialize_f64: f64, serialize_char: char, serialize_str: &str, serialize_bytes: &[u8],
            serialize_unit_struct: &'static str
        }
        fn serialize_none(self) -> Result<Self::Ok, E> {
            Err(E(254))
        }
        fn serialize_some<T: ?Sized + Serialize>(self, _: &T) -> Result<Self::Ok, E> {
            Err(E(254))
        }
        fn serialize_unit(self) -> Result<Self::Ok, E> {
            Err(E(254))
        }
        fn serialize_unit_variant(self, _: &'static str, _: u32, _: &'static str) -> Result<Self::Ok, E> {
            Err(E(254))
        }
        fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, x: &T) -> Result<Self::Ok, E> {
            x.serialize(self)
        }
        fn serialize_newtype_variant<T: ?Sized + Serialize>(
            self,
            _: &'static str,
            _: u32,
            _: &'static str,
            _: &T,
        ) -> Result<Self::Ok, E> {
            Err(E(254))
        }
        fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeTupleStruct, E> {
            Err(E(254))
        }
        fn serialize_tuple_variant(
            self,
            _: &'static str,
            _: u32,
            _: &'static str,
            _: usize,
        ) -> Result<Self::SerializeTupleVariant, E> {
            Err(E(254))
        }
        fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeStruct, E> {
            Err(E(254))
        }
        fn serialize_struct_variant(
            self,
            _: &'static str,
            _: u32,
            _: &'static str,
            _: usize,
        ) -> Result<Self::SerializeStructVariant, E> {
            Err(E(254))
        }
    };
}
impl Serializer for ItemOut {
    type Ok = u16;
    type Error = E;
    type SerializeSeq = Impossible<u16, E>;
    type SerializeTuple = Impossible<u16, E>;
    type SerializeTupleStruct = Impossible<u16, E>;
    type SerializeTupleVariant = Impossible<u16, E>;
    type SerializeMap = Impossible<u16, E>;
    type SerializeStruct = Impossible<u16, E>;
    type SerializeStructVariant = Impossible<u16, E>;
    no_scalars!();
    fn serialize_u16(self, x: u16) -> Result<u16, E> {
        Ok(x)
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<Self::SerializeSeq, E> {
        Err(E(254))
    }
    fn serialize_tuple(self, _: usize) -> Result<Self::SerializeTuple, E> {
        Err(E(254))
    }
    fn serialize_map(self, _: Option<usize>) -> Result<Self::SerializeMap, E> {
        Err(E(254))
    }
}

/// The whole map
impl<'a> Serializer for Out<'a> {
    type Ok = ();
    type Error = E;
    type SerializeSeq = Out<'a>;
    type SerializeTuple = Impossible<(), E>;
    type SerializeTupleStruct = Impossible<(), E>;
    type SerializeTupleVariant = Impossible<(), E>;
    type SerializeMap = Out<'a>;
    type SerializeStruct = Impossible<(), E>;
    type SerializeStructVariant = Impossible<(), E>;
    no_scalars!();
    fn serialize_u16(self, _: u16) -> Result<(), E> {
        Err(E(254))
    }
    fn serialize_seq(self, n: Option<usize>) -> Result<Out<'a>, E> {
        self.data.list = true;
        self.data.announced = n;
        Ok(self)
    }
    fn serialize_tuple(self, _: usize) -> Result<Self::SerializeTuple, E> {
        Err(E(254))
    }
    fn serialize_map(self, n: Option<usize>) -> Result<Out<'a>, E> {
        self.data.list = false;
        self.data.announced = n;
        Ok(self)
    }
}
impl<'a> ser::SerializeSeq for Out<'a> {
    type Ok = ();
    type Error = E;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, x: &T) -> Result<(), E> {
        x.serialize(EntryOut {
            data: Out {
                data: self.data,
                half: None,
                ended: self.ended,
            },
        })
    }
    fn end(self) -> Result<(), E> {
        *self.ended += 1;
        Ok(())
    }
}
impl<'a> ser::SerializeMap for Out<'a> {
    type Ok = ();
    type Error = E;
    fn serialize_key<T: ?Sized + Serialize>(&mut self, x: &T) -> Result<(), E> {
        let x = x.serialize(ItemOut)?;
        self.item(x)
    }
    fn serialize_value<T: ?Sized + Serialize>(&mut self, x: &T) -> Result<(), E> {
        let x = x.serialize(ItemOut)?;
        self.item(x)
    }
    fn end(self) -> Result<(), E> {
        *self.ended += 1;
        Ok(())
    }
}
/// One entry of a list
struct EntryOut<'a> {
    data: Out<'a>,
}
impl<'a> Serializer for EntryOut<'a> {
    type Ok = ();
    type Error = E;
    type SerializeSeq = Impossible<(), E>;
    type SerializeTuple = EntryOut<'a>;
    type SerializeTupleStruct = Impossible<(), E>;
    type SerializeTupleVariant = Impossible<(), E>;
    type SerializeMap = Impossible<(), E>;
    type SerializeStruct = Impossible<(), E>;
    type SerializeStructVariant = Impossible<(), E>;
    no_scalars!();
    fn serialize_u16(self, _: u16) -> Result<(), E> {
        Err(E(254))
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<Self::SerializeSeq, E> {
        Err(E(254))
    }
    fn serialize_tuple(self, n: usize) -> Result<Self::SerializeTuple, E> {
        assert!(n == 2, "API: an entry is not a pair");
        Ok(self)
    }
    fn serialize_map(self, _: Option<usize>) -> Result<Self::SerializeMap, E> {
        Err(E(254))
    }
}
impl<'a> ser::SerializeTuple for EntryOut<'a> {
    type Ok = ();
    type Error = E;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, x: &T) -> Result<(), E> {
        let x = x.serialize(ItemOut)?;
        self.data.item(x)
    }
    fn end(self) -> Result<(), E> {
        assert!(self.data.half.is_none(), "API: half an entry is written");
        Ok(())
    }
}

/// Reads from `Data`
struct In<'a> {
    data: &'a Data,
    next: usize,
}
struct ItemIn(u16);
struct EntryIn<'a> {
    data: &'a Data,
    at: usize,
    read: usize,
}
impl<'de, 'a> Deserializer<'de> for In<'a> {
    type Error = E;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        if self.data.list {
            v.visit_seq(self)
        } else {
            v.visit_map(self)
        }
    }
    forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct
        newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any
    }
}
impl<'a> In<'a> {
    fn hint(&self) -> Option<usize> {
        self.data.announced
    }
}
impl<'de, 'a> SeqAccess<'de> for In<'a> {
    type Error = E;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, E> {
        if self.next >= self.data.len {
            return Ok(None);
        }
        let at = self.next;
        self.next += 1;
        let entry = EntryIn {
            data: self.data,
            at,
            read: 0,
        };
        seed.deserialize(entry).map(Some)
    }
    fn size_hint(&self) -> Option<usize> {
        self.hint()
    }
}
fn item<'de, T: DeserializeSeed<'de>>(data: &Data, at: usize, late: bool, seed: T) -> Result<T::Value, E> {
    if data.fail == at && data.late == late {
        return Err(E(1));
    }
    let (x, y) = data.items[at];
    seed.deserialize(ItemIn(if late { y } else { x }))
}
impl<'de, 'a> MapAccess<'de> for In<'a> {
    type Error = E;
    fn next_key_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, E> {
        if self.next >= self.data.len {
            return Ok(None);
        }
        item(self.data, self.next, false, seed).map(Some)
    }
    fn next_value_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<T::Value, E> {
        let at = self.next;
        self.next += 1;
        item(self.data, at, true, seed)
    }
    fn size_hint(&self) -> Option<usize> {
        self.hint()
    }
}
impl<'de, 'a> Deserializer<'de> for EntryIn<'a> {
    type Error = E;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        v.visit_seq(self)
    }
    forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct
        newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any
    }
}
impl<'de, 'a> SeqAccess<'de> for EntryIn<'a> {
    type Error = E;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, E> {
        if self.read == 2 {
            return Ok(None);
        }
        let late = self.read == 1;
        self.read += 1;
        item(self.data, self.at, late, seed).map(Some)
    }
}
impl<'de> Deserializer<'de> for ItemIn {
    type Error = E;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        v.visit_u16(self.0)
    }
    forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct
        newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any
    }
}

fn write(map: &Map, data: &mut Data) -> Result<(), E> {
    let mut ended = 0;
    let res = map.serialize(Out {
        data,
        half: None,
        ended: &mut ended,
    });
    if res.is_ok() {
        assert!(ended == 1, "API: the list of entries is not ended");
    }
    res
}
fn read(data: &Data) -> Result<Map, E> {
    Map::deserialize(In { data, next: 0 })
}
fn code(i: u8, tag: u8) -> u16 {
    (i as u16) << 8 | tag as u16
}

/// Every pair is written once, and as many as announced
fn serialize(present: u8, p: u8) {
    let (map, m) = with_pairs(present);
    let mut data = EMPTY;
    assert!(write(&map, &mut data).is_ok(), "API: serialization fails");
    assert!(data.len == m.len_l(), "API: another number of entries than there are pairs");
    if let Some(n) = data.announced {
        assert!(n == m.len_l(), "API: another number of entries is announced");
    }
    let mut seen = 0;
    let mut i = 0;
    while i < ENTRIES {
        if i < data.len && data.items[i].0 == code(p, m.l[p as usize]) {
            let q = m.lp[p as usize];
            assert!(q != NO && data.items[i].1 == code(R0 + q, m.r[q as usize]), "API: an entry that is not a pair");
            seen += 1;
        }
        i += 1;
    }
    assert!(seen == m.has_l(p) as usize, "API: a pair is not written exactly once");
    done(map);
}

/// An error of the format is passed on, and nothing is written after it
fn serialize_error(s: &mut Src) {
    let (map, m) = with_pairs(7);
    let mut data = EMPTY;
    data.fail = s.below(4) as usize;
    data.late = s.flag();
    match write(&map, &mut data) {
        Ok(()) => assert!(data.fail >= m.len_l(), "API: an error is swallowed"),
        Err(e) => assert!(e == E(1) && data.fail < m.len_l(), "API: another error"),
    }
    assert!(data.len <= data.fail, "API: entries after an error");
    done(map);
}

/// Entries in any order, with repeated items, whatever is announced
fn deserialize(s: &mut Src, entries: u8, list: bool) {
    let mut data = EMPTY;
    let mut m = M::new();
    data.list = list;
    data.len = entries as usize;
    if s.flag() {
        let n = (s.bits(5) as usize) << (s.below(8) * 8 + s.bits(3));
        // Natively, no gigabytes are allocated if the number is believed
        sensible(n);
        data.announced = Some(n);
    }
    let mut n = 0;
    while n < entries {
        let (i, j) = (s.ix(), s.ix());
        data.items[n as usize] = (code(i, n + 1), code(R0 + j, n + 1));
        m.take_via_l(i);
        m.take_via_r(j);
        m.put_pair(i, n + 1, j, n + 1);
        n += 1;
    }
    match read(&data) {
        Ok(map) => {
            assert!(map.capacity() <= 1 << 20, "API: the announced number alone leads to an allocation");
            check(&map, &m, s);
            done(map);
        }
        Err(_) => panic!("API: entries are refused"),
    }
}

/// An error anywhere is passed on
fn deserialize_error(s: &mut Src, list: bool) {
    let mut data = EMPTY;
    data.list = list;
    data.len = 2;
    let mut n = 0;
    while n < data.len {
        let (i, j) = (s.ix(), s.ix());
        data.items[n as usize] = (code(i, 1), code(R0 + j, 1));
        n += 1;
    }
    data.fail = s.below(4) as usize;
    data.late = s.flag();
    match read(&data) {
        Ok(map) => {
            assert!(data.fail >= data.len, "API: an error is swallowed");
            done(map);
        }
        Err(e) => assert!(data.fail < data.len && e == E(1), "API: another error"),
    }
}

/// What is written is read back as an equal map
fn round_trip(s: &mut Src, present: u8) {
    let (map, m) = with_pairs(present);
    let mut data = EMPTY;
    assert!(write(&map, &mut data).is_ok(), "API: serialization fails");
    match read(&data) {
        Ok(back) => {
            check(&back, &m, s);
            assert!(back == map, "API: the map that is read back differs");
            done(back);
        }
        Err(_) => panic!("API: what was written is refused"),
    }
    done(map);
}

/// Which form is written
fn is_list() -> bool {
    let (map, _) = with_pairs(0);
    let mut data = EMPTY;
    let _ = write(&map, &mut data);
    data.list
}

harnesses! {
    sd_serialize => |s| {
        let p = s.ix();
        subsets(|present| serialize(present, p));
    };
    sd_serialize_error => serialize_error;
    sd_deserialize_1 => |s| { let list = is_list(); deserialize(s, 0, list); deserialize(s, 1, list) };
    sd_deserialize_2 => |s| { let list = is_list(); deserialize(s, 2, list) };
    sd_deserialize_3 => |s| { let list = is_list(); deserialize(s, 3, list) };
    sd_deserialize_error => |s| { let list = is_list(); deserialize_error(s, list) };
    sd_round_trip_1 => |s| { round_trip(s, 0); round_trip(s, 1) };
    sd_round_trip_2 => |s| { round_trip(s, 3) };
    sd_round_trip_3 => |s| { round_trip(s, 7) };
}
