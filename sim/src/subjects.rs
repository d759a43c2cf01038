//! The collections that the simulated canisters hold: which types, and how they are saved and restored.

use crate::coll::ordered;
use crate::coll::{Coll, GroupSub, Mo, Model, Re, Real};
use crate::foreign::{self, Foreign};
use crate::held::Held;
use crate::types::{Two, AK, AV, TK, TV};
use candid::CandidType;
use certified_vars::rbtree::RbTree;
use certified_vars::{Map, Paged, Seq};
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use std::io::{Read, Write};

#[derive(Clone, Copy, PartialEq, Eq, Debug, Serialize, Deserialize)]
pub enum Fmt {
    /// CBOR through `Write` and `Read`.
    Cbor,
    /// CBOR read back from a slice.
    CborSlice,
    /// CBOR with field names replaced by numbers.
    Packed,
    Candid,
}
pub const FORMATS: [Fmt; 4] = [Fmt::Cbor, Fmt::CborSlice, Fmt::Packed, Fmt::Candid];

pub struct Snap {
    pub save: fn(&dyn Real, Fmt, &mut dyn Write) -> Result<(), String>,
    pub load: fn(Fmt, &mut dyn Read) -> Result<Box<dyn Real>, String>,
    pub candid: bool,
    /// Another program that reads and writes the same bytes.
    pub foreign: Option<Foreign>,
}

pub struct Kind {
    pub name: &'static str,
    pub fresh: fn(u32) -> Box<dyn Real>,
    pub model: fn(u32) -> Box<dyn Model>,
    pub snap: Option<Snap>,
    /// The collection can start from any number (a layout); the others start empty at 0.
    pub group: bool,
    pub family: Family,
    pub ordered: bool,
    pub tracked: bool,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Family {
    Map,
    Nested,
    Tree,
    Seq,
    Paged,
    Group,
}

fn fresh<X: Coll>(n: u32) -> Box<dyn Real> {
    Box::new(Re(X::fresh(n)))
}
fn model<X: Coll>(n: u32) -> Box<dyn Model> {
    Box::new(Mo::<X>(X::fresh_m(n)))
}

fn write_cbor<X: Serialize>(x: &X, f: Fmt, w: &mut dyn Write) -> Result<(), String> {
    match f {
        Fmt::Packed => {
            let mut s = serde_cbor::Serializer::new(serde_cbor::ser::IoWrite::new(w)).packed_format();
            x.serialize(&mut s).map_err(|e| e.to_string())
        }
        _ => serde_cbor::to_writer(w, x).map_err(|e| e.to_string()),
    }
}
fn read_cbor<X: DeserializeOwned>(f: Fmt, r: &mut dyn Read) -> Result<X, String> {
    match f {
        Fmt::CborSlice => {
            let mut v = Vec::new();
            r.read_to_end(&mut v).map_err(|e| e.to_string())?;
            serde_cbor::from_slice(&v).map_err(|e| e.to_string())
        }
        _ => serde_cbor::from_reader(r).map_err(|e| e.to_string()),
    }
}

fn save_cbor<X: Coll + Serialize>(x: &dyn Real, f: Fmt, w: &mut dyn Write) -> Result<(), String> {
    write_cbor(x.any().downcast_ref::<X>().unwrap(), f, w)
}
fn load_cbor<X: Coll + DeserializeOwned>(f: Fmt, r: &mut dyn Read) -> Result<Box<dyn Real>, String> {
    Ok(Box::new(Re(read_cbor::<X>(f, r)?)))
}
fn save_both<X: Coll + Serialize + CandidType>(x: &dyn Real, f: Fmt, w: &mut dyn Write) -> Result<(), String> {
    let x = x.any().downcast_ref::<X>().unwrap();
    if f == Fmt::Candid {
        let mut b = candid::ser::IDLBuilder::new();
        b.arg(x).map_err(|e| e.to_string())?;
        b.serialize(w).map_err(|e| e.to_string())
    } else {
        write_cbor(x, f, w)
    }
}
fn load_both<X: Coll + DeserializeOwned + CandidType>(f: Fmt, r: &mut dyn Read) -> Result<Box<dyn Real>, String> {
    if f == Fmt::Candid {
        let mut v = Vec::new();
        r.read_to_end(&mut v).map_err(|e| e.to_string())?;
        let x: X = candid::decode_one(&v).map_err(|e| e.to_string())?;
        Ok(Box::new(Re(x)))
    } else {
        Ok(Box::new(Re(read_cbor::<X>(f, r)?)))
    }
}

macro_rules! kinds {
    ($(($t:ty, $fam:ident, $snap:ident)),* $(,)?) => {
        vec![$( Kind {
            name: stringify!($t),
            fresh: fresh::<$t>,
            model: model::<$t>,
            snap: snap!($snap, $t),
            group: false,
            family: Family::$fam,
            ordered: ordered::<$t>(),
            tracked: stringify!($t).contains("TV"),
        } ),*]
    };
}
macro_rules! snap {
    (both, $t:ty) => {
        Some(Snap {
            save: save_both::<$t>,
            load: load_both::<$t>,
            candid: true,
            foreign: Some(Foreign { write: foreign::write_both::<$t>, read: foreign::read_both::<$t> }),
        })
    };
    (cbor, $t:ty) => {
        Some(Snap {
            save: save_cbor::<$t>,
            load: load_cbor::<$t>,
            candid: false,
            foreign: Some(Foreign { write: foreign::write_cbor::<$t>, read: foreign::read_cbor::<$t> }),
        })
    };
    // How pages are saved is not something that others know; and no other program for pointers.
    (pages, $t:ty) => {
        Some(Snap { save: save_both::<$t>, load: load_both::<$t>, candid: true, foreign: None })
    };
    (none, $t:ty) => {
        None
    };
}

pub fn kinds() -> Vec<Kind> {
    let mut v = kinds![
        (Map<AK, AV>, Map, both),
        (Map<u32, u64>, Map, both),
        (Map<String, String>, Map, both),
        (Map<Vec<u8>, Vec<u8>>, Map, both),
        (Map<[u8; 4], u16>, Map, cbor),
        (Map<Two<u8, u16>, u32>, Map, both),
        (Map<i32, String>, Map, both),
        (Map<u8, Map<u16, u8>>, Nested, both),
        (Map<u8, Map<u8, Map<u8, u8>>>, Nested, both),
        (Map<u16, Seq<u32>>, Nested, both),
        (Map<String, Seq<String>>, Nested, both),
        (Map<u8, Paged<u8, u8, 2>>, Nested, pages),
        (RbTree<u32, u64>, Tree, none),
        (RbTree<String, RbTree<u8, String>>, Tree, none),
        (RbTree<Two<u8, u16>, Seq<u16>>, Tree, none),
        (Paged<u32, u32, 1>, Paged, pages),
        (Paged<u16, String, 3>, Paged, pages),
        (Paged<Two<u8, u16>, u64, 7>, Paged, pages),
        (Paged<String, u8, 2>, Paged, pages),
        (Seq<u32>, Seq, both),
        (Seq<Seq<u8>>, Seq, both),
        (Seq<AV>, Seq, both),
        (Map<TK, TV>, Map, both),
        (RbTree<TK, TV>, Tree, none),
        (Map<TK, Seq<TV>>, Nested, both),
        (Map<TK, Map<TK, TV>>, Nested, both),
        (Map<TK, Held<Map<TK, TV>>>, Nested, pages),
        (Paged<TK, TV, 2>, Paged, pages),
        (Seq<TV>, Seq, both),
    ];
    v.push(Kind {
        name: "Group",
        fresh: fresh::<GroupSub>,
        model: model::<GroupSub>,
        snap: None,
        group: true,
        family: Family::Group,
        ordered: ordered::<GroupSub>(),
        tracked: true,
    });
    v
}
