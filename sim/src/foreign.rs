//! Another program that reads and writes what a canister saves: another version of it, or a tool. It knows
//! only that a map is a map and that a sequence is a list, and uses no collection of the library.

use crate::coll::{Coll, Item, Mo, Model};
use crate::rng::Rng;
use crate::subjects::Fmt;
use crate::types::{KeyT, LeafT};
use candid::types::{Serializer as CandidSerializer, Type};
use candid::CandidType;
use certified_vars::{Map, Seq};
use serde::de::{DeserializeOwned, MapAccess, Visitor};
use serde::ser::{SerializeMap, SerializeSeq};
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use std::collections::BTreeMap;
use std::fmt;
use std::marker::PhantomData;

/// What that program holds instead of a collection.
pub trait Plain: Coll {
    type P: Serialize + DeserializeOwned;
    fn plain(m: &Self::M, r: &mut Rng) -> Self::P;
    fn model(p: &Self::P) -> Result<Self::M, String>;
}

impl<L: LeafT + Serialize + DeserializeOwned> Plain for L {
    type P = L;
    fn plain(m: &u32, _r: &mut Rng) -> L {
        L::mk(*m)
    }
    fn model(p: &L) -> Result<u32, String> {
        Ok(p.id())
    }
}

/// The entries of a map, in any order.
pub struct Entries<K, P> {
    list: Vec<(K, P)>,
    /// Whether the number of entries is said beforehand.
    counted: bool,
}
impl<K: Serialize, P: Serialize> Serialize for Entries<K, P> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let mut m = s.serialize_map(if self.counted { Some(self.list.len()) } else { None })?;
        for (k, v) in &self.list {
            m.serialize_entry(k, v)?;
        }
        m.end()
    }
}
struct EntriesVisitor<K, P>(PhantomData<(K, P)>);
impl<'de, K: Deserialize<'de>, P: Deserialize<'de>> Visitor<'de> for EntriesVisitor<K, P> {
    type Value = Entries<K, P>;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "a map")
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Entries<K, P>, A::Error> {
        let mut list = Vec::new();
        while let Some(e) = a.next_entry()? {
            list.push(e);
        }
        Ok(Entries { list, counted: true })
    }
}
impl<'de, K: Deserialize<'de>, P: Deserialize<'de>> Deserialize<'de> for Entries<K, P> {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        d.deserialize_map(EntriesVisitor(PhantomData))
    }
}
impl<K: CandidType, P: CandidType> CandidType for Entries<K, P> {
    fn _ty() -> Type {
        <Vec<(K, P)>>::_ty()
    }
    fn idl_serialize<S: CandidSerializer>(&self, s: S) -> Result<(), S::Error> {
        self.list.idl_serialize(s)
    }
}

/// The items of a sequence.
pub struct Items<P> {
    list: Vec<P>,
    counted: bool,
}
impl<P: Serialize> Serialize for Items<P> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let mut q = s.serialize_seq(if self.counted { Some(self.list.len()) } else { None })?;
        for x in &self.list {
            q.serialize_element(x)?;
        }
        q.end()
    }
}
impl<'de, P: Deserialize<'de>> Deserialize<'de> for Items<P> {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        Ok(Items { list: Vec::deserialize(d)?, counted: true })
    }
}
impl<P: CandidType> CandidType for Items<P> {
    fn _ty() -> Type {
        <Vec<P>>::_ty()
    }
    fn idl_serialize<S: CandidSerializer>(&self, s: S) -> Result<(), S::Error> {
        self.list.idl_serialize(s)
    }
}

impl<K: KeyT + Serialize + DeserializeOwned, V: Plain> Plain for Map<K, V> {
    type P = Entries<K, V::P>;
    fn plain(m: &Self::M, r: &mut Rng) -> Self::P {
        let mut list: Vec<(K, V::P)> = m.iter().map(|(k, v)| (K::mk(*k), V::plain(v, r))).collect();
        match r.below(4) {
            0 => {}
            1 => list.reverse(),
            _ => {
                for i in (1..list.len()).rev() {
                    list.swap(i, r.below(i as u64 + 1) as usize);
                }
            }
        }
        Entries { list, counted: r.chance(2, 3) }
    }
    fn model(p: &Self::P) -> Result<Self::M, String> {
        let mut m = BTreeMap::new();
        for (k, v) in &p.list {
            if m.insert(k.id(), V::model(v)?).is_some() {
                return Err("an entry is there twice".into());
            }
        }
        Ok(m)
    }
}

impl<T: Item + Plain> Plain for Seq<T> {
    type P = Items<T::P>;
    fn plain(m: &Self::M, r: &mut Rng) -> Self::P {
        Items { list: m.iter().map(|x| T::plain(x, r)).collect(), counted: r.chance(2, 3) }
    }
    fn model(p: &Self::P) -> Result<Self::M, String> {
        p.list.iter().map(T::model).collect()
    }
}

pub struct Foreign {
    pub write: fn(&dyn Model, Fmt, &mut Rng) -> Result<Vec<u8>, String>,
    pub read: fn(Fmt, &[u8]) -> Result<Box<dyn Model>, String>,
}

fn given<X: Coll>(m: &dyn Model) -> &X::M {
    &m.any().downcast_ref::<Mo<X>>().expect("the model of another collection").0
}

fn cbor<P: Serialize>(p: &P, f: Fmt) -> Result<Vec<u8>, String> {
    if f == Fmt::Packed {
        return serde_cbor::ser::to_vec_packed(p).map_err(|e| e.to_string());
    }
    serde_cbor::to_vec(p).map_err(|e| e.to_string())
}

pub fn write_cbor<X: Plain>(m: &dyn Model, f: Fmt, r: &mut Rng) -> Result<Vec<u8>, String> {
    cbor(&X::plain(given::<X>(m), r), f)
}
pub fn read_cbor<X: Plain>(_f: Fmt, b: &[u8]) -> Result<Box<dyn Model>, String> {
    let p: X::P = serde_cbor::from_slice(b).map_err(|e| e.to_string())?;
    Ok(Box::new(Mo::<X>(X::model(&p)?)))
}
pub fn write_both<X: Plain>(m: &dyn Model, f: Fmt, r: &mut Rng) -> Result<Vec<u8>, String>
where
    X::P: CandidType,
{
    let p = X::plain(given::<X>(m), r);
    if f == Fmt::Candid {
        return candid::encode_one(&p).map_err(|e| e.to_string());
    }
    cbor(&p, f)
}
pub fn read_both<X: Plain>(f: Fmt, b: &[u8]) -> Result<Box<dyn Model>, String>
where
    X::P: CandidType,
{
    if f == Fmt::Candid {
        let p: X::P = candid::decode_one(b).map_err(|e| e.to_string())?;
        return Ok(Box::new(Mo::<X>(X::model(&p)?)));
    }
    read_cbor::<X>(f, b)
}
