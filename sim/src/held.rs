//! Collections behind the pointers of the standard library, for which the library has
//! implementations of its own.

use crate::coll::{Coll, Gen, Op, Q};
use crate::content::{Exp, C};
use crate::rng::Rng;
use candid::CandidType;
use certified_vars::hashtree::HashTree;
use certified_vars::{AsHashTree, Hash};
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use std::ops::{Deref, DerefMut};
use std::ptr::NonNull;
use std::rc::Rc;
use std::sync::Arc;

pub enum Held<V> {
    Box(Box<V>),
    Rc(Rc<V>),
    Arc(Arc<V>),
    /// Owned, too.
    NonNull(NonNull<V>),
}
use Held::NonNull as Raw;

impl<V> Held<V> {
    fn new(v: V, n: u32) -> Self {
        match n % 4 {
            0 => Held::Box(Box::new(v)),
            1 => Held::Rc(Rc::new(v)),
            2 => Held::Arc(Arc::new(v)),
            _ => Raw(NonNull::from(Box::leak(Box::new(v)))),
        }
    }
}
impl<V> Drop for Held<V> {
    fn drop(&mut self) {
        if let Raw(p) = self {
            drop(unsafe { Box::from_raw(p.as_ptr()) });
        }
    }
}
impl<V> Deref for Held<V> {
    type Target = V;
    fn deref(&self) -> &V {
        match self {
            Held::Box(p) => p,
            Held::Rc(p) => p,
            Held::Arc(p) => p,
            Raw(p) => unsafe { p.as_ref() },
        }
    }
}
impl<V> DerefMut for Held<V> {
    fn deref_mut(&mut self) -> &mut V {
        match self {
            Held::Box(p) => p,
            Held::Rc(p) => Rc::get_mut(p).expect("nobody else holds it"),
            Held::Arc(p) => Arc::get_mut(p).expect("nobody else holds it"),
            Raw(p) => unsafe { p.as_mut() },
        }
    }
}
impl<V: AsHashTree> AsHashTree for Held<V> {
    fn root_hash(&self) -> Hash {
        match self {
            Held::Box(p) => p.root_hash(),
            Held::Rc(p) => p.root_hash(),
            Held::Arc(p) => p.root_hash(),
            Raw(p) => p.root_hash(),
        }
    }
    fn as_hash_tree(&self) -> HashTree<'_> {
        match self {
            Held::Box(p) => p.as_hash_tree(),
            Held::Rc(p) => p.as_hash_tree(),
            Held::Arc(p) => p.as_hash_tree(),
            Raw(p) => p.as_hash_tree(),
        }
    }
}
impl<V: Serialize> Serialize for Held<V> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        (**self).serialize(s)
    }
}
impl<'de, V: Deserialize<'de>> Deserialize<'de> for Held<V> {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        V::deserialize(d).map(|v| Held::new(v, 1))
    }
}
impl<V: CandidType> CandidType for Held<V> {
    fn _ty() -> candid::types::Type {
        V::_ty()
    }
    fn idl_serialize<S: candid::types::Serializer>(&self, s: S) -> Result<(), S::Error> {
        (**self).idl_serialize(s)
    }
}

impl<V: Coll> Coll for Held<V> {
    type M = V::M;

    fn fresh(n: u32) -> Self {
        Held::new(V::fresh(n), n)
    }
    fn fresh_m(n: u32) -> V::M {
        V::fresh_m(n)
    }
    fn apply(&mut self, op: &Op) -> String {
        (**self).apply(op)
    }
    fn apply_m(m: &mut V::M, op: &Op) -> String {
        V::apply_m(m, op)
    }
    fn partials(m: &V::M, op: &Op) -> Vec<V::M> {
        V::partials(m, op)
    }
    fn dump(&self) -> String {
        (**self).dump()
    }
    fn dump_m(m: &V::M) -> String {
        V::dump_m(m)
    }
    fn probe(&self) -> String {
        (**self).probe()
    }
    fn probe_m(m: &V::M) -> String {
        V::probe_m(m)
    }
    fn content(m: &V::M) -> C {
        V::content(m)
    }
    fn witness<'a>(&'a self, q: &Q) -> Option<HashTree<'a>> {
        (**self).witness(q)
    }
    fn expect(m: &V::M, q: &Q) -> Option<Exp> {
        V::expect(m, q)
    }
    fn gen_op(m: &V::M, r: &mut Rng, g: &Gen) -> Op {
        V::gen_op(m, r, g)
    }
    fn gen_q(m: &V::M, r: &mut Rng, g: &Gen) -> Q {
        V::gen_q(m, r, g)
    }
    fn probes(g: &Gen) -> Vec<Vec<u8>> {
        V::probes(g)
    }
    fn ordered() -> bool {
        V::ordered()
    }
    fn tracked(m: &V::M) -> usize {
        V::tracked(m)
    }
    fn find(&mut self, k: u32, how: u32) -> bool {
        (**self).find(k, how)
    }
    fn entries(m: &V::M) -> usize {
        V::entries(m)
    }
    fn keys(m: &V::M) -> Vec<u32> {
        V::keys(m)
    }
    fn own(&self) -> Result<C, String> {
        (**self).own()
    }
}
