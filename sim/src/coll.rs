//! The collections under test, each next to its reference model. The collections are the real library
//! code; the models are plain ordered maps and lists of small numbers.

use crate::content::{Exp, C};
use crate::rng::{mix, Rng};
use crate::types::{batch, tick, KeyT, LeafT, Tag, TK, TV};
use certified_vars::hashtree::HashTree;
use certified_vars::rbtree::entry::Entry;
use certified_vars::rbtree::iterator::RbTreeIterator;
use certified_vars::rbtree::RbTree;
use certified_vars::{AsHashTree, Group, GroupBuilder, Map, Paged, Seq};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::fmt::Write;

// ---------------------------------------------------------------- operations

#[derive(Clone, Copy, PartialEq, Eq, Debug, Serialize, Deserialize, Default)]
pub enum O {
    /// Reads only.
    #[default]
    Len,
    // Leaves.
    Set,
    // Maps and trees.
    Insert,
    Remove,
    RemoveEntry,
    Clear,
    Collect,
    Get,
    GetMut,
    Entry,
    Iter,
    AppendDeep,
    LenDeep,
    MaxEntry,
    ModifyMax,
    // Sequences.
    Append,
    Extend,
    ExtendRef,
    FromVec,
    FromIter,
    FromSlice,
    FromMutSlice,
    ToVec,
    CloneSelf,
    Reserve,
    Shrink,
    Index,
    // Paged.
    PInsert,
    PGet,
    PLast,
    // Groups.
    Member,
    /// Many entries or items at once.
    Fill,
}

fn is0(x: &u32) -> bool {
    *x == 0
}

/// One operation on a collection. What `k`, `v`, `n` and `x` mean depends on the operation.
#[derive(Clone, PartialEq, Debug, Serialize, Deserialize, Default)]
pub struct Op {
    pub o: O,
    #[serde(default, skip_serializing_if = "is0")]
    pub k: u32,
    #[serde(default, skip_serializing_if = "is0")]
    pub v: u32,
    #[serde(default, skip_serializing_if = "is0")]
    pub n: u32,
    #[serde(default, skip_serializing_if = "is0")]
    pub x: u32,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub s: Option<Box<Op>>,
}

impl Op {
    /// Whether this adds many entries, which is only followed step by step when nothing stops it.
    pub fn rebuilds(&self) -> bool {
        self.o == O::ToVec || self.s.as_ref().map_or(false, |s| s.rebuilds())
    }
    pub fn fills(&self) -> bool {
        self.o == O::Fill || self.s.as_ref().map_or(false, |s| s.fills())
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Serialize, Deserialize, Default)]
pub enum QK {
    #[default]
    Full,
    Key,
    Nested,
    Keys,
    KeyRange,
    ValueRange,
    Prefix,
    Page,
    LastPage,
    Group,
}

/// One query for a witness.
#[derive(Clone, PartialEq, Debug, Serialize, Deserialize, Default)]
pub struct Q {
    pub q: QK,
    #[serde(default, skip_serializing_if = "is0")]
    pub k: u32,
    #[serde(default, skip_serializing_if = "is0")]
    pub b: u32,
    #[serde(default, skip_serializing_if = "is0")]
    pub x: u32,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub s: Option<Box<Q>>,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub m: Vec<Q>,
}

/// What the generators know about a run.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Gen {
    /// Selects the keys this run uses.
    pub pool: u32,
    pub keys: u32,
    /// How many different values are used.
    pub values: u32,
    /// Out of 100: operations that remove, and in-place edits.
    pub remove: u32,
    pub edit: u32,
    pub clear: u32,
    /// Up to how many entries are added at once; 0: one at a time.
    #[serde(default, skip_serializing_if = "is0")]
    pub fill: u32,
    /// The same for what is stored in a nested collection.
    #[serde(default, skip_serializing_if = "is0")]
    pub deep: u32,
    /// Where values are of many types: the one this run uses, counted from 1; 0: all.
    #[serde(default, skip_serializing_if = "is0")]
    pub focus: u32,
}

/// The number a value is made from.
pub fn gen_val(r: &mut Rng, g: &Gen) -> u32 {
    if g.focus > 0 {
        let types = crate::types::AV::types();
        return (g.focus - 1) % types + types * r.below(64) as u32;
    }
    r.below(g.values as u64) as u32
}

/// What a nested collection is told.
fn inner(g: &Gen) -> Gen {
    Gen { fill: g.deep, deep: 0, ..g.clone() }
}

/// The values of a fill.
fn fill_vals(op: &Op) -> impl Iterator<Item = u32> + '_ {
    (0..op.n).map(move |i| (op.v + i) % (op.x / 4 + 1))
}

fn gen_fill(r: &mut Rng, g: &Gen, have: usize) -> u32 {
    if (have as u32) < g.fill && r.chance(1, 3) {
        1 + r.below((g.fill - have as u32) as u64) as u32
    } else {
        0
    }
}

/// The keys of a fill: neighbours, upwards, downwards or in no order.
fn fill_keys<K: KeyT>(op: &Op) -> Vec<u32> {
    let (s, d) = if K::dom() >= 1 << 16 { (0, K::dom()) } else { K::span(op.k) };
    let n = op.n.min(d);
    let mut v: Vec<u32> = (0..n).map(|i| s + (op.k % d + i) % d).collect();
    match op.x % 4 {
        0 => {}
        1 => v.reverse(),
        _ => {
            let mut r = Rng::new(op.v as u64 ^ 0xF111);
            for i in (1..v.len()).rev() {
                v.swap(i, r.below(i as u64 + 1) as usize);
            }
        }
    }
    v
}

/// The `j`-th key of a run.
pub fn pool_key<K: KeyT>(pool: u32, j: u32) -> u32 {
    let (start, d) = K::span(pool);
    // Half of the runs use neighbouring keys, where prefixes and boundaries are dense.
    start
        + if d == 64 && K::dom() >= 1 << 16 {
            j % d
        } else if mix(pool as u64, 3) % 2 == 0 || d <= 8 {
            ((mix(pool as u64, 7) % d as u64) as u32 + j) % d
        } else {
            (mix(pool as u64, j as u64) % d as u64) as u32
        }
}

fn gen_key<K: KeyT>(r: &mut Rng, g: &Gen) -> u32 {
    pool_key::<K>(g.pool, r.below(g.keys as u64) as u32)
}

// ---------------------------------------------------------------- the trait

pub trait Coll: AsHashTree + Sized + 'static {
    type M: Clone + 'static;

    fn fresh(n: u32) -> Self;
    fn fresh_m(n: u32) -> Self::M;
    /// Do one operation and write down everything it returned.
    fn apply(&mut self, op: &Op) -> String;
    fn apply_m(m: &mut Self::M, op: &Op) -> String;
    /// Where an operation may stop when caller code panics, besides before and after it.
    fn partials(_m: &Self::M, _op: &Op) -> Vec<Self::M> {
        Vec::new()
    }
    /// Everything that the collection says it holds, by walking over it.
    fn dump(&self) -> String;
    fn dump_m(m: &Self::M) -> String;
    /// The same by looking up every key there could be.
    fn probe(&self) -> String;
    fn probe_m(m: &Self::M) -> String;
    fn content(m: &Self::M) -> C;
    fn witness<'a>(&'a self, q: &Q) -> Option<HashTree<'a>>;
    fn expect(m: &Self::M, q: &Q) -> Option<Exp>;
    fn gen_op(m: &Self::M, r: &mut Rng, g: &Gen) -> Op;
    fn gen_q(m: &Self::M, r: &mut Rng, g: &Gen) -> Q;
    /// Labels worth asking for that are not stored.
    fn probes(_g: &Gen) -> Vec<Vec<u8>> {
        Vec::new()
    }
    fn ordered() -> bool {
        true
    }
    fn tracked(_m: &Self::M) -> usize {
        0
    }
    /// Look a key up, in the `how`-th way.
    fn find(&mut self, _k: u32, _how: u32) -> bool {
        false
    }
    /// How many nodes the search tree has.
    fn entries(_m: &Self::M) -> usize {
        0
    }
    fn keys(_m: &Self::M) -> Vec<u32> {
        Vec::new()
    }
    /// The contents as the collection itself tells them, and whether what it tells agrees with itself.
    fn own(&self) -> Result<C, String>;

    // Operations the library offers on maps of this kind of value only.
    fn append_deep<K: KeyT>(_map: &mut Map<K, Self>, _k: u32, _v: u32) -> bool {
        false
    }
    fn append_deep_m(_m: &mut BTreeMap<u32, Self::M>, _k: u32, _v: u32) -> bool {
        false
    }
    fn len_deep<K: KeyT>(_map: &mut Map<K, Self>, _k: u32) -> Option<usize> {
        None
    }
    fn len_deep_m(_m: &BTreeMap<u32, Self::M>, _k: u32) -> Option<usize> {
        None
    }
    fn or_default<'a, K: KeyT>(e: Entry<'a, K, Self>) -> &'a mut Self {
        e.or_insert(Self::fresh(0))
    }
    fn default_m() -> Self::M {
        Self::fresh_m(0)
    }
}

// ---------------------------------------------------------------- leaves

impl<L: LeafT> Coll for L {
    type M = u32;

    fn fresh(n: u32) -> Self {
        L::mk(n % L::dom())
    }
    fn fresh_m(n: u32) -> u32 {
        L::canon(n)
    }
    fn apply(&mut self, op: &Op) -> String {
        match op.o {
            O::Set => {
                tick();
                *self = Self::fresh(op.v);
                tick();
                String::new()
            }
            _ => self.dump(),
        }
    }
    fn apply_m(m: &mut u32, op: &Op) -> String {
        match op.o {
            O::Set => {
                *m = Self::fresh_m(op.v);
                String::new()
            }
            _ => Self::dump_m(m),
        }
    }
    fn dump(&self) -> String {
        self.id().to_string()
    }
    fn dump_m(m: &u32) -> String {
        m.to_string()
    }
    fn probe(&self) -> String {
        self.dump()
    }
    fn probe_m(m: &u32) -> String {
        m.to_string()
    }
    fn content(m: &u32) -> C {
        C::Leaf(L::bytes(*m))
    }
    fn witness<'a>(&'a self, _q: &Q) -> Option<HashTree<'a>> {
        Some(self.as_hash_tree())
    }
    fn expect(_m: &u32, _q: &Q) -> Option<Exp> {
        Some(Exp::Full)
    }
    fn gen_op(_m: &u32, r: &mut Rng, g: &Gen) -> Op {
        Op { o: O::Set, v: gen_val(r, g), ..Op::default() }
    }
    fn gen_q(_m: &u32, _r: &mut Rng, _g: &Gen) -> Q {
        Q::default()
    }
    fn tracked(_m: &u32) -> usize {
        L::tracked()
    }
    fn own(&self) -> Result<C, String> {
        match self.as_hash_tree() {
            HashTree::Leaf(b) => Ok(C::Leaf(b.into_owned())),
            _ => Err("a value that is not a leaf".into()),
        }
    }
    fn or_default<'a, K: KeyT>(e: Entry<'a, K, Self>) -> &'a mut Self {
        L::or_default(e)
    }
    fn default_m() -> u32 {
        L::default_id()
    }
}

// ---------------------------------------------------------------- sequences

/// A source of items that the simulator can make fail.
struct Source<T> {
    items: std::vec::IntoIter<u32>,
    make: fn(u32) -> T,
    hint: u32,
}
impl<T> Iterator for Source<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        tick();
        self.items.next().map(self.make)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.items.len();
        match self.hint % 4 {
            0 => (n, Some(n)),
            1 => (0, None),
            2 => (n / 2, None),
            // A hint that is too high is a mistake of the caller that must not matter.
            _ => (n + 3, None),
        }
    }
}

/// The items of a sequence: leaves, or sequences again.
pub trait Item: Coll {
    fn digest_of(m: &Self::M) -> C {
        Self::content(m)
    }
    fn extend_ref(_s: &mut Seq<Self>, _items: &[u32]) -> bool {
        false
    }
    fn from_slice(_items: &[u32]) -> Option<Seq<Self>> {
        None
    }
    fn from_mut_slice(_items: &[u32]) -> Option<Seq<Self>> {
        None
    }
    fn clone_seq(_s: &Seq<Self>) -> Option<Seq<Self>> {
        None
    }
    fn sliced() -> bool {
        false
    }
}
impl<L: LeafT> Item for L {
    fn extend_ref(s: &mut Seq<Self>, items: &[u32]) -> bool {
        L::extend_ref(s, items)
    }
    fn from_slice(items: &[u32]) -> Option<Seq<Self>> {
        L::from_slice(items)
    }
    fn from_mut_slice(items: &[u32]) -> Option<Seq<Self>> {
        L::from_mut_slice(items)
    }
    fn clone_seq(s: &Seq<Self>) -> Option<Seq<Self>> {
        L::clone_seq(s)
    }
    fn sliced() -> bool {
        L::sliced()
    }
}
impl<T: Item> Item for Seq<T> {}

fn items_of<T: Coll>(op: &Op) -> Vec<u32> {
    batch(op.v, op.n)
}

impl<T: Item> Coll for Seq<T> {
    type M = Vec<T::M>;

    fn fresh(n: u32) -> Self {
        let mut s = Seq::new();
        for i in batch(n, n % 4) {
            s.append(T::fresh(i));
        }
        s
    }
    fn fresh_m(n: u32) -> Self::M {
        batch(n, n % 4).into_iter().map(T::fresh_m).collect()
    }
    fn apply(&mut self, op: &Op) -> String {
        let items = || items_of::<T>(op);
        let src = || Source { items: items().into_iter(), make: T::fresh, hint: op.x };
        match op.o {
            O::Append => {
                tick();
                self.append(T::fresh(op.v))
            }
            O::Extend => self.extend(src()),
            O::ExtendRef => {
                if !<T as Item>::extend_ref(self, &items()) {
                    self.extend(src())
                }
            }
            O::FromVec => *self = Seq::from(items().into_iter().map(T::fresh).collect::<Vec<T>>()),
            O::FromIter => *self = src().collect(),
            O::FromSlice => {
                if let Some(s) = <T as Item>::from_slice(&items()) {
                    *self = s
                }
            }
            O::FromMutSlice => {
                if let Some(s) = <T as Item>::from_mut_slice(&items()) {
                    *self = s
                }
            }
            O::ToVec => {
                let mut v = Vec::from(std::mem::replace(self, Seq::with_capacity(2)));
                let out = v.iter().map(|x| x.dump()).collect::<Vec<_>>().join(",");
                if op.x % 2 == 1 {
                    v.reverse();
                }
                *self = v.into();
                return out;
            }
            O::CloneSelf => {
                if let Some(s) = <T as Item>::clone_seq(self) {
                    *self = s
                }
            }
            O::Reserve => {
                if op.x % 2 == 0 {
                    self.reserve(op.n as usize % 100)
                } else {
                    self.reserve_exact(op.n as usize % 100)
                }
                if self.capacity() < self.len() + op.n as usize % 100 {
                    return "too little capacity".into();
                }
            }
            O::Shrink => self.shrink_to_fit(),
            O::Fill => self.extend(fill_vals(op).map(T::fresh)),
            O::Clear => self.clear(),
            O::Index => {
                let i = op.k as usize;
                if i < self.len() {
                    return format!("{} {} {}", self[i].dump(), self[..i].len(), self[i..].iter().map(|x| x.dump()).collect::<Vec<_>>().join(","));
                }
                return "-".into();
            }
            _ => return format!("{} {}", self.len(), self.is_empty()),
        }
        String::new()
    }
    fn apply_m(m: &mut Self::M, op: &Op) -> String {
        let items = || items_of::<T>(op).into_iter().map(T::fresh_m);
        match op.o {
            O::Append => m.push(T::fresh_m(op.v)),
            O::Extend | O::ExtendRef => m.extend(items()),
            O::FromVec | O::FromIter => *m = items().collect(),
            O::FromSlice => {
                if T::sliced() {
                    *m = items().collect()
                }
            }
            O::FromMutSlice => {
                if T::sliced() {
                    *m = items().collect()
                }
            }
            O::ToVec => {
                let out = m.iter().map(T::dump_m).collect::<Vec<_>>().join(",");
                if op.x % 2 == 1 {
                    m.reverse();
                }
                return out;
            }
            O::CloneSelf | O::Reserve | O::Shrink => {}
            O::Fill => m.extend(fill_vals(op).map(T::fresh_m)),
            O::Clear => m.clear(),
            O::Index => {
                let i = op.k as usize;
                if i < m.len() {
                    return format!("{} {} {}", T::dump_m(&m[i]), i, m[i..].iter().map(T::dump_m).collect::<Vec<_>>().join(","));
                }
                return "-".into();
            }
            _ => return format!("{} {}", m.len(), m.is_empty()),
        }
        String::new()
    }
    fn partials(m: &Self::M, op: &Op) -> Vec<Self::M> {
        match op.o {
            O::Extend | O::ExtendRef => {
                let mut out = Vec::new();
                let mut m = m.clone();
                for i in items_of::<T>(op) {
                    m.push(T::fresh_m(i));
                    out.push(m.clone());
                }
                out
            }
            // The sequence has been taken out of its place by then.
            O::ToVec => vec![Vec::new()],
            _ => Vec::new(),
        }
    }
    fn dump(&self) -> String {
        let mut s = String::from("[");
        for x in self.iter() {
            s.push_str(&x.dump());
            s.push(',');
        }
        let _ = write!(s, "]{}", self.len());
        let v = self.as_vec();
        let r: &[T] = self.as_ref();
        let b: &[T] = std::borrow::Borrow::borrow(self);
        if v.len() != self.len() || r.len() != v.len() || b.len() != v.len() || self.is_empty() != v.is_empty() {
            s.push_str(" length mismatch");
        }
        s
    }
    fn dump_m(m: &Self::M) -> String {
        let mut s = String::from("[");
        for x in m {
            s.push_str(&T::dump_m(x));
            s.push(',');
        }
        let _ = write!(s, "]{}", m.len());
        s
    }
    fn probe(&self) -> String {
        (0..self.len()).map(|i| self[i].probe()).collect::<Vec<_>>().join(",")
    }
    fn probe_m(m: &Self::M) -> String {
        m.iter().map(|x| T::probe_m(x)).collect::<Vec<_>>().join(",")
    }
    fn content(m: &Self::M) -> C {
        C::Seq(m.iter().map(|x| T::digest_of(x)).collect())
    }
    fn witness<'a>(&'a self, _q: &Q) -> Option<HashTree<'a>> {
        Some(self.as_hash_tree())
    }
    fn expect(_m: &Self::M, _q: &Q) -> Option<Exp> {
        Some(Exp::Full)
    }
    fn gen_op(m: &Self::M, r: &mut Rng, g: &Gen) -> Op {
        let o = r.weighted(&[
            (30, O::Append),
            (10, O::Extend),
            (5, O::ExtendRef),
            (3, O::FromVec),
            (3, O::FromIter),
            (3, O::FromSlice),
            (3, O::FromMutSlice),
            (3, O::ToVec),
            (4, O::CloneSelf),
            (3, O::Reserve),
            (3, O::Shrink),
            (2 + g.clear, O::Clear),
            (5, O::Index),
            (2, O::Len),
        ]);
        let many = gen_fill(r, g, m.len());
        if many > 0 {
            return Op { o: O::Fill, v: gen_val(r, g), n: many, x: r.below(1000) as u32, ..Op::default() };
        }
        // Keep sequences from growing for ever.
        let o = if m.len() > 60 + g.fill as usize && matches!(o, O::Append | O::Extend | O::ExtendRef) { O::FromVec } else { o };
        let n = *r.pick(&[0, 1, 2, 3, 5, 8, 20]);
        Op { o, k: r.below(m.len() as u64 + 1) as u32, v: if o == O::Append { gen_val(r, g) } else { r.below(1000) as u32 }, n, x: r.below(4) as u32, s: None }
    }
    fn gen_q(_m: &Self::M, _r: &mut Rng, _g: &Gen) -> Q {
        Q::default()
    }
    fn tracked(m: &Self::M) -> usize {
        m.iter().map(|x| T::tracked(x)).sum()
    }
    fn own(&self) -> Result<C, String> {
        let v = self.iter().map(|x| x.own()).collect::<Result<Vec<_>, _>>()?;
        if v.len() != self.len() {
            return Err(format!("{} items in a sequence of length {}", v.len(), self.len()));
        }
        let c = C::Seq(v);
        if self.root_hash() != c.digest() {
            return Err("the root of a sequence is not the running hash of its items".into());
        }
        Ok(c)
    }
    fn append_deep<K: KeyT>(map: &mut Map<K, Self>, k: u32, v: u32) -> bool {
        map.append_deep(K::mk(k), T::fresh(v));
        true
    }
    fn append_deep_m(m: &mut BTreeMap<u32, Self::M>, k: u32, v: u32) -> bool {
        m.entry(k).or_default().push(T::fresh_m(v));
        true
    }
    fn len_deep<K: KeyT>(map: &mut Map<K, Self>, k: u32) -> Option<usize> {
        Some(map.len_deep::<K::B>(b(&K::mk(k))))
    }
    fn len_deep_m(m: &BTreeMap<u32, Self::M>, k: u32) -> Option<usize> {
        Some(m.get(&k).map_or(0, |s| s.len()))
    }
}


/// The form of a key used for lookups.
fn b<K: KeyT>(k: &K) -> &K::B {
    k.borrow()
}

// ---------------------------------------------------------------- maps and trees

/// What maps and trees have in common.
trait Tree<K: KeyT, V: Coll>: AsHashTree + Sized + 'static {
    fn make() -> Self;
    fn tree(&self) -> &RbTree<K, V>;
    fn t_len(&self) -> usize;
    fn t_empty(&self) -> bool;
    fn t_insert(&mut self, k: K, v: V, edit: Option<&Op>) -> (Option<V>, Option<String>);
    fn t_remove(&mut self, k: u32, borrowed: bool) -> Option<V>;
    fn t_remove_entry(&mut self, k: u32, borrowed: bool) -> Option<(K, V)>;
    fn t_get(&self, k: u32, form: u32) -> Option<&V>;
    fn t_edit(&mut self, k: u32, borrowed: bool, op: &Op) -> Option<String>;
    fn t_entry(&mut self, k: u32) -> Entry<'_, K, V>;
    fn t_iter(&self) -> RbTreeIterator<'_, K, V>;
    fn t_clear(&mut self);
    fn t_collect(src: Source<(K, V)>) -> Self;
    fn t_append_deep(&mut self, _k: u32, _v: u32) -> bool {
        false
    }
    fn t_len_deep(&mut self, _k: u32) -> Option<usize> {
        None
    }
    fn t_modify_max(&mut self, _p: u32, _op: &Op) -> Option<String> {
        None
    }
    fn has_modify_max() -> bool {
        false
    }
    const IS_MAP: bool;
    fn t_witness(&self, k: u32, form: u32) -> HashTree<'_>;
    fn t_keys(&self) -> HashTree<'_>;
    fn t_key_range(&self, x: u32, y: u32, form: u32) -> HashTree<'_>;
    fn t_value_range(&self, x: u32, y: u32, form: u32) -> HashTree<'_>;
    fn t_prefix(&self, p: u32) -> Option<HashTree<'_>>;
}

fn apply_edit<V: Coll>(v: &mut V, op: &Op) -> String {
    tick();
    let r = v.apply(op);
    tick();
    r
}

impl<K: KeyT, V: Coll> Tree<K, V> for Map<K, V> {
    const IS_MAP: bool = true;
    fn make() -> Self {
        Map::new()
    }
    fn tree(&self) -> &RbTree<K, V> {
        self.as_tree()
    }
    fn t_len(&self) -> usize {
        self.len()
    }
    fn t_empty(&self) -> bool {
        self.is_empty()
    }
    fn t_insert(&mut self, k: K, v: V, edit: Option<&Op>) -> (Option<V>, Option<String>) {
        match edit {
            None => (self.insert(k, v), None),
            Some(op) => {
                let k2 = k.clone();
                let old = self.insert(k, v);
                (old, self.get_mut::<K>(&k2).map(|v| apply_edit(v, op)))
            }
        }
    }
    fn t_remove(&mut self, k: u32, borrowed: bool) -> Option<V> {
        let k = K::mk(k);
        if borrowed {
            self.remove::<K::B>(b(&k))
        } else {
            self.remove::<K>(&k)
        }
    }
    fn t_remove_entry(&mut self, k: u32, borrowed: bool) -> Option<(K, V)> {
        let k = K::mk(k);
        if borrowed {
            self.remove_entry::<K::B>(b(&k))
        } else {
            self.remove_entry::<K>(&k)
        }
    }
    fn t_get(&self, k: u32, form: u32) -> Option<&V> {
        let k = K::mk(k);
        match form % 4 {
            0 => self.get::<K>(&k),
            1 => self.get::<K::B>(b(&k)),
            2 => self.as_tree().get_with(|x| k.cmp(x)),
            _ => self.as_ref().get::<K>(&k),
        }
    }
    fn t_edit(&mut self, k: u32, borrowed: bool, op: &Op) -> Option<String> {
        let k = K::mk(k);
        let v = if borrowed { self.get_mut::<K::B>(b(&k)) } else { self.get_mut::<K>(&k) };
        v.map(|v| apply_edit(v, op))
    }
    fn t_entry(&mut self, k: u32) -> Entry<'_, K, V> {
        self.entry(K::mk(k))
    }
    fn t_iter(&self) -> RbTreeIterator<'_, K, V> {
        self.iter()
    }
    fn t_clear(&mut self) {
        self.clear()
    }
    fn t_collect(src: Source<(K, V)>) -> Self {
        src.collect()
    }
    fn t_append_deep(&mut self, k: u32, v: u32) -> bool {
        V::append_deep(self, k, v)
    }
    fn t_len_deep(&mut self, k: u32) -> Option<usize> {
        V::len_deep(self, k)
    }
    fn t_witness(&self, k: u32, form: u32) -> HashTree<'_> {
        let k = K::mk(k);
        match form % 3 {
            0 => self.witness::<K>(&k),
            1 => self.witness::<K::B>(b(&k)),
            _ => self.as_tree().witness::<K>(&k),
        }
    }
    fn t_keys(&self) -> HashTree<'_> {
        self.witness_keys()
    }
    fn t_key_range(&self, x: u32, y: u32, form: u32) -> HashTree<'_> {
        let (x, y) = (K::mk(x), K::mk(y));
        match form % 3 {
            0 => self.witness_key_range::<K, K>(&x, &y),
            1 => self.as_tree().key_range::<K::B, K>(b(&x), &y),
            _ => self.as_tree().key_range::<K::B, K::B>(b(&x), b(&y)),
        }
    }
    fn t_value_range(&self, x: u32, y: u32, form: u32) -> HashTree<'_> {
        let (x, y) = (K::mk(x), K::mk(y));
        match form % 3 {
            0 => self.witness_value_range::<K, K>(&x, &y),
            1 => self.as_tree().value_range::<K, K::B>(&x, b(&y)),
            _ => self.as_tree().value_range::<K::B, K::B>(b(&x), b(&y)),
        }
    }
    fn t_prefix(&self, p: u32) -> Option<HashTree<'_>> {
        K::map_prefix_witness(self, p)
    }
}

impl<K: KeyT, V: Coll> Tree<K, V> for RbTree<K, V> {
    const IS_MAP: bool = false;
    fn make() -> Self {
        RbTree::new()
    }
    fn tree(&self) -> &RbTree<K, V> {
        self
    }
    fn t_len(&self) -> usize {
        self.len()
    }
    fn t_empty(&self) -> bool {
        self.is_empty()
    }
    fn t_insert(&mut self, k: K, v: V, edit: Option<&Op>) -> (Option<V>, Option<String>) {
        let (old, new) = self.insert(k, v);
        (old, edit.map(|op| apply_edit(new, op)))
    }
    fn t_remove(&mut self, k: u32, borrowed: bool) -> Option<V> {
        self.t_remove_entry(k, borrowed).map(|x| x.1)
    }
    fn t_remove_entry(&mut self, k: u32, borrowed: bool) -> Option<(K, V)> {
        let k = K::mk(k);
        if borrowed {
            self.delete::<K::B>(b(&k))
        } else {
            self.delete::<K>(&k)
        }
    }
    fn t_get(&self, k: u32, form: u32) -> Option<&V> {
        let k = K::mk(k);
        match form % 3 {
            0 => self.get::<K>(&k),
            1 => self.get::<K::B>(b(&k)),
            _ => self.get_with(|x| k.cmp(x)),
        }
    }
    fn t_edit(&mut self, k: u32, borrowed: bool, op: &Op) -> Option<String> {
        let k = K::mk(k);
        if borrowed {
            self.modify::<K::B, _>(b(&k), |v| apply_edit(v, op))
        } else {
            self.modify::<K, _>(&k, |v| apply_edit(v, op))
        }
    }
    fn t_entry(&mut self, k: u32) -> Entry<'_, K, V> {
        self.entry(K::mk(k))
    }
    fn t_iter(&self) -> RbTreeIterator<'_, K, V> {
        RbTreeIterator::new(self)
    }
    fn t_clear(&mut self) {
        *self = RbTree::new()
    }
    fn t_collect(src: Source<(K, V)>) -> Self {
        let mut t = RbTree::default();
        for (k, v) in src {
            t.insert(k, v);
        }
        t
    }
    fn t_modify_max(&mut self, p: u32, op: &Op) -> Option<String> {
        K::modify_max(self, p, |k, v| format!("{}={}", k.id(), apply_edit(v, op)))
    }
    fn has_modify_max() -> bool {
        K::prefixes() > 0
    }
    fn t_witness(&self, k: u32, form: u32) -> HashTree<'_> {
        let k = K::mk(k);
        match form % 2 {
            0 => self.witness::<K>(&k),
            _ => self.witness::<K::B>(b(&k)),
        }
    }
    fn t_keys(&self) -> HashTree<'_> {
        self.keys()
    }
    fn t_key_range(&self, x: u32, y: u32, form: u32) -> HashTree<'_> {
        let (x, y) = (K::mk(x), K::mk(y));
        match form % 3 {
            0 => self.key_range::<K, K>(&x, &y),
            1 => self.key_range::<K::B, K>(b(&x), &y),
            _ => self.key_range::<K::B, K::B>(b(&x), b(&y)),
        }
    }
    fn t_value_range(&self, x: u32, y: u32, form: u32) -> HashTree<'_> {
        let (x, y) = (K::mk(x), K::mk(y));
        match form % 3 {
            0 => self.value_range::<K, K>(&x, &y),
            1 => self.value_range::<K, K::B>(&x, b(&y)),
            _ => self.value_range::<K::B, K::B>(b(&x), b(&y)),
        }
    }
    fn t_prefix(&self, p: u32) -> Option<HashTree<'_>> {
        K::prefix_witness(self, p)
    }
}

type Mm<V> = BTreeMap<u32, <V as Coll>::M>;

/// The ways of taking what a walk has left without asking for one entry after another.
macro_rules! finish {
    ($it:expr, $how:expr, $show:expr) => {{
        let (mut it, show) = ($it, $show);
        match $how % 12 {
            5 => it.fold(String::new(), |s, e| s + &show(Some(e)) + " "),
            6 => show(it.last()),
            7 => format!("{}", it.count()),
            8 => format!("{} {} {}", show(it.nth(1)), show(it.next()), it.count()),
            9 => {
                let mut s = String::new();
                it.for_each(|e| s += &(show(Some(e)) + " "));
                s
            }
            10 => it.skip(1).step_by(2).map(|e| show(Some(e))).collect::<Vec<_>>().join(" "),
            11 => format!("{} {}", it.by_ref().take(2).count(), show(it.find(|_| true))),
            _ => String::new(),
        }
    }};
}

fn opt<V: Coll>(v: Option<V>) -> String {
    v.map_or("-".into(), |v| v.dump())
}
fn opt_m<V: Coll>(v: Option<V::M>) -> String {
    v.map_or("-".into(), |v| V::dump_m(&v))
}

fn pair<K: KeyT, V: Coll>(pool: u32, b: u32) -> (u32, u32) {
    (pool_key::<K>(pool, b % 12), b)
}

fn tree_apply<K: KeyT, V: Coll, X: Tree<K, V>>(t: &mut X, op: &Op) -> String {
    let borrowed = op.x % 2 == 1;
    match op.o {
        O::Insert => {
            let (old, e) = t.t_insert(K::mk(op.k), V::fresh(op.v), op.s.as_deref());
            format!("{} {:?}", opt(old), e)
        }
        O::Remove => opt(t.t_remove(op.k, borrowed)),
        O::RemoveEntry => match t.t_remove_entry(op.k, borrowed) {
            Some((k, v)) => format!("{}={}", k.id(), v.dump()),
            None => "-".into(),
        },
        O::Clear => {
            t.t_clear();
            String::new()
        }
        O::Collect => {
            let (pool, make): (u32, fn(u32) -> (K, V)) = (op.k, |b| (K::mk(b >> 8), V::fresh(b & 255)));
            let items: Vec<u32> = batch(op.v, op.n)
                .into_iter()
                .map(|b| {
                    let (k, v) = pair::<K, V>(pool, b);
                    k << 8 | v
                })
                .collect();
            *t = X::t_collect(Source { items: items.into_iter(), make, hint: op.x });
            String::new()
        }
        O::Fill if op.x / 4 % 2 == 1 => {
            let items: Vec<u32> = fill_keys::<K>(op).into_iter().zip(fill_vals(op)).map(|(k, v)| k << 8 | v & 255).collect();
            *t = X::t_collect(Source { items: items.into_iter(), make: |b| (K::mk(b >> 8), V::fresh(b & 255)), hint: op.v });
            String::new()
        }
        O::Fill => {
            for (k, v) in fill_keys::<K>(op).into_iter().zip(fill_vals(op)) {
                t.t_insert(K::mk(k), V::fresh(v), None);
            }
            String::new()
        }
        O::Get => t.t_get(op.k, op.x).map_or("-".into(), |v| v.dump()),
        O::GetMut => match &op.s {
            Some(s) => format!("{:?}", t.t_edit(op.k, borrowed, s)),
            None => String::new(),
        },
        O::Entry => tree_entry::<K, V>(t.t_entry(op.k), op),
        O::Iter => {
            // A partial walk, so that the size hint is seen in the middle.
            let mut it = t.t_iter();
            let mut out = String::new();
            for _ in 0..op.n {
                let h = it.size_hint();
                let _ = write!(out, "{}-{:?} ", h.0, h.1);
                match it.next() {
                    Some((k, v)) => {
                        let _ = write!(out, "{}={} ", k.id(), v.dump());
                    }
                    None => out.push_str("end "),
                }
            }
            let show = |x: Option<(&K, &V)>| x.map_or("-".into(), |(k, v)| format!("{}={}", k.id(), v.dump()));
            let more = finish!(it, op.x, show);
            out + &more
        }
        O::AppendDeep => format!("{}", t.t_append_deep(op.k, op.v)),
        O::LenDeep => format!("{:?}", t.t_len_deep(op.k)),
        O::MaxEntry => match K::max_entry(t.tree(), op.k) {
            Some((k, v)) => format!("{}={}", k.id(), v.dump()),
            None => "-".into(),
        },
        O::ModifyMax => match &op.s {
            Some(s) => t.t_modify_max(op.k, s).unwrap_or("-".into()),
            None => String::new(),
        },
        _ => format!("{} {}", t.t_len(), t.t_empty()),
    }
}

fn tree_entry<K: KeyT, V: Coll>(e: Entry<'_, K, V>, op: &Op) -> String {
    let mut out = format!("{} ", e.key().id());
    let fresh = || {
        tick();
        V::fresh(op.v)
    };
    let new = match op.n % 10 {
        0 => Some(e.or_insert(V::fresh(op.v))),
        1 => Some(e.or_insert_with(fresh)),
        2 => Some(e.or_insert_with_key(|k| {
            tick();
            V::fresh(op.v.wrapping_add(k.id()))
        })),
        3 => Some(V::or_default(e)),
        4 => {
            let e = e.and_modify(|v| {
                if let Some(s) = &op.s {
                    apply_edit(v, s);
                }
            });
            Some(e.or_insert_with(fresh))
        }
        5 => match e {
            Entry::Occupied(mut e) => {
                let _ = write!(out, "{} ", e.get().dump());
                if let Some(s) = &op.s {
                    out.push_str(&apply_edit(e.get_mut(), s));
                }
                let _ = write!(out, " {} {}", e.key().id(), e.get().dump());
                None
            }
            Entry::Vacant(e) => Some(e.insert(V::fresh(op.v))),
        },
        6 => match e {
            Entry::Occupied(e) => {
                if let Some(s) = &op.s {
                    out.push_str(&apply_edit(e.into_mut(), s));
                }
                None
            }
            Entry::Vacant(e) => {
                let _ = write!(out, "{}", e.into_key().id());
                None
            }
        },
        7 => match e {
            Entry::Occupied(e) => {
                out.push_str(&e.remove().dump());
                None
            }
            Entry::Vacant(e) => {
                let _ = write!(out, "{}", e.key().id());
                None
            }
        },
        8 => match e {
            Entry::Occupied(e) => {
                let (k, v) = e.remove_entry();
                let _ = write!(out, "{}={}", k.id(), v.dump());
                None
            }
            Entry::Vacant(e) => Some(e.insert(V::fresh(op.v))),
        },
        _ => match e {
            // Two edits through one handle, with a read in between.
            Entry::Occupied(mut e) => {
                if let Some(s) = &op.s {
                    out.push_str(&apply_edit(e.get_mut(), s));
                    out.push_str(&e.get().dump());
                    out.push_str(&apply_edit(e.get_mut(), s));
                }
                out.push_str(&e.remove().dump());
                None
            }
            Entry::Vacant(_) => None,
        },
    };
    if let Some(v) = new {
        let _ = write!(out, "new {}", v.dump());
        if let (Some(s), false) = (&op.s, op.n % 10 == 4) {
            let _ = write!(out, " then {}", apply_edit(v, s));
        }
    }
    out
}

fn tree_apply_m<K: KeyT, V: Coll, X: Tree<K, V>>(m: &mut Mm<V>, op: &Op) -> String {
    let k = op.k % K::dom();
    match op.o {
        O::Insert => {
            let old = m.insert(k, V::fresh_m(op.v));
            let e = op.s.as_ref().map(|s| V::apply_m(m.get_mut(&k).unwrap(), s));
            format!("{} {:?}", opt_m::<V>(old), e)
        }
        O::Remove => opt_m::<V>(m.remove(&k)),
        O::RemoveEntry => match m.remove(&k) {
            Some(v) => format!("{}={}", k, V::dump_m(&v)),
            None => "-".into(),
        },
        O::Clear => {
            m.clear();
            String::new()
        }
        O::Collect => {
            m.clear();
            for b in batch(op.v, op.n) {
                let (k, v) = pair::<K, V>(op.k, b);
                m.insert(k, V::fresh_m(v));
            }
            String::new()
        }
        O::Fill => {
            let all = op.x / 4 % 2 == 1;
            if all {
                m.clear();
            }
            for (k, v) in fill_keys::<K>(op).into_iter().zip(fill_vals(op)) {
                m.insert(k, V::fresh_m(if all { v & 255 } else { v }));
            }
            String::new()
        }
        O::Get => m.get(&k).map_or("-".into(), |v| V::dump_m(v)),
        O::GetMut => match &op.s {
            Some(s) => format!("{:?}", m.get_mut(&k).map(|v| V::apply_m(v, s))),
            None => String::new(),
        },
        O::Entry => {
            let mut out = format!("{} ", k);
            let had = m.contains_key(&k);
            let mut is_new = true;
            match op.n % 10 {
                0 | 1 => {
                    m.entry(k).or_insert_with(|| V::fresh_m(op.v));
                }
                2 => {
                    m.entry(k).or_insert_with(|| V::fresh_m(op.v.wrapping_add(k)));
                }
                3 => {
                    m.entry(k).or_insert_with(|| V::default_m());
                }
                4 => {
                    if let (Some(v), Some(s)) = (m.get_mut(&k), &op.s) {
                        V::apply_m(v, s);
                    }
                    m.entry(k).or_insert_with(|| V::fresh_m(op.v));
                }
                5 if had => {
                    let v = m.get_mut(&k).unwrap();
                    let _ = write!(out, "{} ", V::dump_m(v));
                    if let Some(s) = &op.s {
                        out.push_str(&V::apply_m(v, s));
                    }
                    let _ = write!(out, " {} {}", k, V::dump_m(v));
                    is_new = false;
                }
                6 if had => {
                    if let Some(s) = &op.s {
                        out.push_str(&V::apply_m(m.get_mut(&k).unwrap(), s));
                    }
                    is_new = false;
                }
                6 => {
                    let _ = write!(out, "{}", k);
                    is_new = false;
                }
                7 if had => {
                    out.push_str(&V::dump_m(&m.remove(&k).unwrap()));
                    is_new = false;
                }
                7 => {
                    let _ = write!(out, "{}", k);
                    is_new = false;
                }
                8 if had => {
                    let _ = write!(out, "{}={}", k, V::dump_m(&m.remove(&k).unwrap()));
                    is_new = false;
                }
                9 => {
                    if had {
                        let mut v = m.remove(&k).unwrap();
                        if let Some(s) = &op.s {
                            out.push_str(&V::apply_m(&mut v, s));
                            out.push_str(&V::dump_m(&v));
                            out.push_str(&V::apply_m(&mut v, s));
                        }
                        out.push_str(&V::dump_m(&v));
                    }
                    is_new = false;
                }
                _ => {
                    m.insert(k, V::fresh_m(op.v));
                }
            }
            if is_new {
                let v = m.get_mut(&k).unwrap();
                let _ = write!(out, "new {}", V::dump_m(v));
                if let (Some(s), false) = (&op.s, op.n % 10 == 4) {
                    let _ = write!(out, " then {}", V::apply_m(v, s));
                }
            }
            out
        }
        O::Iter => {
            let mut left = m.len();
            let mut it = m.iter();
            let mut out = String::new();
            for _ in 0..op.n {
                let _ = write!(out, "{}-{:?} ", left, Some(left));
                match it.next() {
                    Some((k, v)) => {
                        left -= 1;
                        let _ = write!(out, "{}={} ", k, V::dump_m(v));
                    }
                    None => out.push_str("end "),
                }
            }
            let show = |x: Option<(&u32, &V::M)>| x.map_or("-".into(), |(k, v)| format!("{}={}", k, V::dump_m(v)));
            let more = finish!(it, op.x, show);
            out + &more
        }
        O::AppendDeep => format!("{}", X::IS_MAP && V::append_deep_m(m, k, op.v)),
        O::LenDeep => format!("{:?}", if X::IS_MAP { V::len_deep_m(m, k) } else { None }),
        O::MaxEntry => match m.iter().filter(|(n, _)| K::has_prefix(op.k, **n)).next_back() {
            Some((k, v)) => format!("{}={}", k, V::dump_m(v)),
            None => "-".into(),
        },
        O::ModifyMax => match &op.s {
            Some(s) if X::has_modify_max() => match m.iter_mut().filter(|(n, _)| K::has_prefix(op.k, **n)).next_back() {
                Some((k, v)) => format!("{}={}", k, V::apply_m(v, s)),
                None => "-".into(),
            },
            Some(_) => "-".into(),
            None => String::new(),
        },
        _ => format!("{} {}", m.len(), m.is_empty()),
    }
}

/// The states with the value under `k` in one of the states it can be in after an interrupted edit.
fn inside<V: Coll>(m: &Mm<V>, k: u32, s: &Op, after: bool) -> Vec<Mm<V>> {
    let v = match m.get(&k) {
        Some(v) => v,
        None => return Vec::new(),
    };
    let mut inner = V::partials(v, s);
    if after {
        let mut v = v.clone();
        V::apply_m(&mut v, s);
        inner.push(v);
    }
    inner
        .into_iter()
        .map(|v| {
            let mut m = m.clone();
            m.insert(k, v);
            m
        })
        .collect()
}

fn tree_partials<K: KeyT, V: Coll, X: Tree<K, V>>(m: &Mm<V>, op: &Op) -> Vec<Mm<V>> {
    let k = op.k % K::dom();
    match (op.o, &op.s) {
        (O::Insert, Some(s)) => {
            let mut m = m.clone();
            m.insert(k, V::fresh_m(op.v));
            let mut out = inside::<V>(&m, k, s, true);
            out.push(m);
            out
        }
        (O::GetMut, Some(s)) => inside::<V>(m, k, s, true),
        (O::ModifyMax, Some(s)) => match m.iter().filter(|(n, _)| K::has_prefix(op.k, **n)).next_back() {
            Some((k, _)) => inside::<V>(m, *k, s, true),
            None => Vec::new(),
        },
        (O::Entry, Some(s)) => {
            let mut out = Vec::new();
            if m.contains_key(&k) {
                out.extend(inside::<V>(m, k, s, true));
                if op.n % 10 == 9 {
                    let mut m = m.clone();
                    V::apply_m(m.get_mut(&k).unwrap(), s);
                    out.extend(inside::<V>(&m, k, s, true));
                }
            } else {
                let mut m = m.clone();
                let v = match op.n % 10 {
                    2 => V::fresh_m(op.v.wrapping_add(k)),
                    3 => V::default_m(),
                    _ => V::fresh_m(op.v),
                };
                m.insert(k, v);
                out.extend(inside::<V>(&m, k, s, true));
                out.push(m);
            }
            out
        }
        _ => Vec::new(),
    }
}

fn tree_dump<K: KeyT, V: Coll, X: Tree<K, V>>(t: &X) -> String {
    let mut s = String::from("{");
    let mut it = t.t_iter();
    let mut left = it.size_hint();
    let mut n = 0usize;
    for (k, v) in &mut it {
        let _ = write!(s, "{}:{},", k.id(), v.dump());
        n += 1;
        if n > 1_000_000 {
            s.push_str(" the walk does not end");
            break;
        }
    }
    if left != (n, Some(n)) {
        left = (left.0, left.1);
        let _ = write!(s, " size hint {:?} for {} entries", left, n);
    }
    if it.size_hint() != (0, Some(0)) {
        s.push_str(" size hint at the end is not zero");
    }
    let mut walked = 0usize;
    let mut same = true;
    {
        let mut keys = t.t_iter().map(|(k, _)| k as *const K);
        let (w, sm) = (std::cell::Cell::new(0usize), std::cell::Cell::new(true));
        t.tree().for_each(|k, _| {
            w.set(w.get() + 1);
            if keys.next() != Some(k as *const K) {
                sm.set(false);
            }
        });
        walked += w.get();
        same &= sm.get();
    }
    if walked != n || !same {
        s.push_str(" for_each and iter disagree");
    }
    let _ = write!(s, "}}{} {}", t.t_len(), t.t_empty());
    s
}

fn tree_dump_m<V: Coll>(m: &Mm<V>) -> String {
    let mut s = String::from("{");
    for (k, v) in m {
        let _ = write!(s, "{}:{},", k, V::dump_m(v));
    }
    let _ = write!(s, "}}{} {}", m.len(), m.is_empty());
    s
}

fn probe_dom<K: KeyT>() -> u32 {
    if K::dom() >= 1 << 16 {
        64
    } else {
        K::dom()
    }
}

fn tree_probe<K: KeyT, V: Coll, X: Tree<K, V>>(t: &X) -> String {
    let mut s = String::new();
    for k in 0..probe_dom::<K>() {
        if let Some(v) = t.t_get(k, k) {
            let _ = write!(s, "{}:{},", k, v.probe());
        }
    }
    s
}
fn tree_probe_m<K: KeyT, V: Coll>(m: &Mm<V>) -> String {
    let mut s = String::new();
    for (k, v) in m.range(..probe_dom::<K>()) {
        let _ = write!(s, "{}:{},", k, V::probe_m(v));
    }
    s
}

fn tree_witness<'a, K: KeyT, V: Coll, X: Tree<K, V>>(t: &'a X, q: &Q) -> Option<HashTree<'a>> {
    Some(match q.q {
        QK::Full => t.as_hash_tree(),
        QK::Key => t.t_witness(q.k, q.x),
        QK::Nested => {
            let s = q.s.as_deref()?;
            let k = K::mk(q.k);
            let bad = std::cell::Cell::new(false);
            let w = t.tree().nested_witness::<K>(&k, |v| {
                tick();
                v.witness(s).unwrap_or_else(|| {
                    bad.set(true);
                    v.as_hash_tree()
                })
            });
            if bad.get() {
                return None;
            }
            w
        }
        QK::Keys => t.t_keys(),
        QK::KeyRange => {
            let (x, y) = (q.k % K::dom(), q.b % K::dom());
            t.t_key_range(x.min(y), x.max(y), q.x)
        }
        QK::ValueRange => {
            let (x, y) = (q.k % K::dom(), q.b % K::dom());
            t.t_value_range(x.min(y), x.max(y), q.x)
        }
        QK::Prefix => t.t_prefix(q.k)?,
        _ => return None,
    })
}

fn tree_expect<K: KeyT, V: Coll>(m: &Mm<V>, q: &Q) -> Option<Exp> {
    let list = |lo: usize, hi: usize, values, lo_stored, hi_stored| Exp::List { lo, hi, values, lo_stored, hi_stored };
    Some(match q.q {
        QK::Full => Exp::Full,
        QK::Key => Exp::Path(K::label(q.k), Box::new(Exp::Full)),
        QK::Nested => {
            let s = q.s.as_deref()?;
            let inner = match m.get(&(q.k % K::dom())) {
                Some(v) => V::expect(v, s)?,
                None => Exp::Full,
            };
            Exp::Path(K::label(q.k), Box::new(inner))
        }
        QK::Keys => list(0, m.len(), false, false, false),
        QK::KeyRange | QK::ValueRange => {
            let (x, y) = (q.k % K::dom(), q.b % K::dom());
            let (x, y) = (x.min(y), x.max(y));
            let lo = m.range(..x).count();
            let hi = m.range(..=y).count();
            list(lo, hi, q.q == QK::ValueRange, m.contains_key(&x), m.contains_key(&y))
        }
        QK::Prefix => {
            if K::prefixes() == 0 {
                return None;
            }
            let ids: Vec<u32> = (0..K::dom()).filter(|n| K::has_prefix(q.k, *n)).collect();
            match (ids.first(), ids.last()) {
                (Some(a), Some(z)) => {
                    let lo = m.range(..a).count();
                    let hi = m.range(..=z).count();
                    list(lo, hi, false, m.contains_key(a), false)
                }
                // No key of this type has the prefix; where it would be is not known here.
                _ => return None,
            }
        }
        _ => return None,
    })
}

fn tree_gen_op<K: KeyT, V: Coll, X: Tree<K, V>>(m: &Mm<V>, r: &mut Rng, g: &Gen) -> Op {
    let seqs = X::IS_MAP && V::append_deep_m(&mut BTreeMap::new(), 0, 0);
    let o = r.weighted(&[
        (30, O::Insert),
        (g.remove * 2 / 3, O::Remove),
        (g.remove / 3, O::RemoveEntry),
        (g.clear, O::Clear),
        (g.clear, O::Collect),
        (5, O::Get),
        (g.edit / 2, O::GetMut),
        (g.edit, O::Entry),
        (2, O::Iter),
        (if seqs { 15 } else { 0 }, O::AppendDeep),
        (if seqs { 2 } else { 0 }, O::LenDeep),
        (if K::prefixes() > 0 { 3 } else { 0 }, O::MaxEntry),
        (if X::has_modify_max() { g.edit / 3 } else { 0 }, O::ModifyMax),
        (2, O::Len),
    ]);
    let many = gen_fill(r, g, m.len());
    if many > 0 {
        let k = if K::dom() >= 1 << 16 { r.below(K::dom() as u64) as u32 } else { g.pool };
        return Op { o: O::Fill, k, v: gen_val(r, g), n: many, x: r.below(1000) as u32, s: None };
    }
    let mut k = gen_key::<K>(r, g);
    // Removing and editing what is there is the more interesting case.
    if matches!(o, O::Remove | O::RemoveEntry | O::GetMut | O::Entry) && !m.is_empty() && r.chance(2, 3) {
        k = *m.keys().nth(r.below(m.len() as u64) as usize).unwrap();
    }
    if matches!(o, O::MaxEntry | O::ModifyMax) {
        k = r.below(K::prefixes() as u64) as u32;
        // Half of the time a prefix that a stored key has.
        if r.chance(1, 2) && !m.is_empty() {
            let id = *m.keys().nth(r.below(m.len() as u64) as usize).unwrap();
            let with: Vec<u32> = (0..K::prefixes()).filter(|p| K::has_prefix(*p, id)).collect();
            if !with.is_empty() {
                k = *r.pick(&with);
            }
        }
    }
    if o == O::Collect {
        k = g.pool;
    }
    let s = match o {
        O::GetMut | O::ModifyMax => true,
        O::Entry => r.chance(3, 4),
        O::Insert => r.chance(1, 6),
        _ => false,
    };
    let s = if s {
        let v = match m.get(&k) {
            Some(v) => v.clone(),
            None => V::fresh_m(0),
        };
        Some(Box::new(V::gen_op(&v, r, &inner(g))))
    } else {
        None
    };
    let n = match o {
        O::Entry => r.below(10) as u32,
        O::Iter => r.below(m.len() as u64 + 2) as u32,
        O::Collect => *r.pick(&[0, 1, 3, 8, 20]),
        _ => 0,
    };
    let v = if o == O::Collect { r.below(1000) as u32 } else { gen_val(r, g) };
    Op { o, k, v, n, x: r.below(12) as u32, s }
}

fn tree_gen_q<K: KeyT, V: Coll>(m: &Mm<V>, r: &mut Rng, g: &Gen) -> Q {
    let key = |r: &mut Rng| {
        if !m.is_empty() && r.chance(1, 2) {
            *m.keys().nth(r.below(m.len() as u64) as usize).unwrap()
        } else if r.chance(1, 3) {
            let (start, n) = K::span(g.pool);
            start + r.below(n as u64) as u32
        } else {
            gen_key::<K>(r, g)
        }
    };
    let q = r.weighted(&[
        (30, QK::Key),
        (15, QK::Nested),
        (8, QK::Keys),
        (12, QK::KeyRange),
        (12, QK::ValueRange),
        (if K::prefixes() > 0 { 15 } else { 0 }, QK::Prefix),
        (2, QK::Full),
    ]);
    let mut k = key(r);
    if q == QK::Prefix {
        k = r.below(K::prefixes() as u64) as u32;
        if r.chance(1, 2) && !m.is_empty() {
            let id = *m.keys().nth(r.below(m.len() as u64) as usize).unwrap();
            let with: Vec<u32> = (0..K::prefixes()).filter(|p| K::has_prefix(*p, id)).collect();
            if !with.is_empty() {
                k = *r.pick(&with);
            }
        }
    }
    let s = if q == QK::Nested {
        let v = match m.get(&k) {
            Some(v) => v.clone(),
            None => V::fresh_m(0),
        };
        Some(Box::new(V::gen_q(&v, r, g)))
    } else {
        None
    };
    Q { q, k, b: key(r), x: r.below(12) as u32, s, m: Vec::new() }
}

fn tree_own<K: KeyT, V: Coll, X: Tree<K, V>>(t: &X) -> Result<C, String> {
    let mut out = Vec::new();
    let mut last: Option<&K> = None;
    for (k, v) in t.t_iter() {
        if out.len() > t.t_len() {
            break;
        }
        if last.map_or(false, |l| l >= k) {
            return Err("the keys do not ascend".into());
        }
        last = Some(k);
        match t.tree().get::<K>(k) {
            Some(x) if std::ptr::eq(x, v) => {}
            _ => return Err("a key that is listed is not found".into()),
        }
        out.push((k.as_label().into_owned(), v.own()?));
    }
    if out.len() != t.t_len() || t.t_empty() != out.is_empty() {
        return Err(format!("{} entries in a map of length {}", out.len(), t.t_len()));
    }
    Ok(C::Map(out))
}

macro_rules! tree_coll {
    ($t:ident) => {
        impl<K: KeyT, V: Coll> Coll for $t<K, V> {
            type M = Mm<V>;

            fn fresh(n: u32) -> Self {
                let mut t = <Self as Tree<K, V>>::make();
                for b in batch(n, n % 4) {
                    let (k, v) = pair::<K, V>(n / 8, b);
                    t.t_insert(K::mk(k), V::fresh(v), None);
                }
                t
            }
            fn fresh_m(n: u32) -> Self::M {
                batch(n, n % 4)
                    .into_iter()
                    .map(|b| {
                        let (k, v) = pair::<K, V>(n / 8, b);
                        (k, V::fresh_m(v))
                    })
                    .collect()
            }
            fn apply(&mut self, op: &Op) -> String {
                tree_apply::<K, V, Self>(self, op)
            }
            fn apply_m(m: &mut Self::M, op: &Op) -> String {
                tree_apply_m::<K, V, Self>(m, op)
            }
            fn partials(m: &Self::M, op: &Op) -> Vec<Self::M> {
                tree_partials::<K, V, Self>(m, op)
            }
            fn dump(&self) -> String {
                tree_dump::<K, V, Self>(self)
            }
            fn dump_m(m: &Self::M) -> String {
                tree_dump_m::<V>(m)
            }
            fn probe(&self) -> String {
                tree_probe::<K, V, Self>(self)
            }
            fn probe_m(m: &Self::M) -> String {
                tree_probe_m::<K, V>(m)
            }
            fn content(m: &Self::M) -> C {
                C::Map(m.iter().map(|(k, v)| (K::label(*k), V::content(v))).collect())
            }
            fn witness<'a>(&'a self, q: &Q) -> Option<HashTree<'a>> {
                tree_witness::<K, V, Self>(self, q)
            }
            fn expect(m: &Self::M, q: &Q) -> Option<Exp> {
                tree_expect::<K, V>(m, q)
            }
            fn gen_op(m: &Self::M, r: &mut Rng, g: &Gen) -> Op {
                tree_gen_op::<K, V, Self>(m, r, g)
            }
            fn gen_q(m: &Self::M, r: &mut Rng, g: &Gen) -> Q {
                tree_gen_q::<K, V>(m, r, g)
            }
            fn probes(g: &Gen) -> Vec<Vec<u8>> {
                let mut v: Vec<Vec<u8>> = (0..g.keys).map(|j| K::label(pool_key::<K>(g.pool, j))).collect();
                v.extend(V::probes(g));
                v
            }
            fn ordered() -> bool {
                K::ordered() && V::ordered()
            }
            fn tracked(m: &Self::M) -> usize {
                let k = if K::tracked() { m.len() } else { 0 };
                k + m.values().map(|v| V::tracked(v)).sum::<usize>()
            }
            fn own(&self) -> Result<C, String> {
                tree_own::<K, V, Self>(self)
            }
            fn find(&mut self, k: u32, how: u32) -> bool {
                match how % 6 {
                    4 => Tree::<K, V>::t_edit(self, k, k % 2 == 0, &Op::default()).is_some(),
                    5 => matches!(Tree::<K, V>::t_entry(self, k), Entry::Occupied(_)),
                    form => Tree::<K, V>::t_get(self, k, form).is_some(),
                }
            }
            fn entries(m: &Self::M) -> usize {
                m.len()
            }
            fn keys(m: &Self::M) -> Vec<u32> {
                m.keys().copied().collect()
            }
        }
    };
}
tree_coll!(Map);
tree_coll!(RbTree);

// ---------------------------------------------------------------- paged

/// Keys of a paged store, and for each its items in order.
pub type Pm<V> = BTreeMap<u32, Vec<<V as Coll>::M>>;

fn page_label<K: KeyT>(k: u32, p: u32) -> Vec<u8> {
    let mut l = K::label(k);
    l.extend([(p >> 24) as u8, (p >> 16) as u8, (p >> 8) as u8, p as u8]);
    l
}

thread_local! {
    static FAR: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
/// Whether to ask for page numbers that no store reaches.
pub fn set_far_pages(on: bool) {
    FAR.with(|f| f.set(on));
}
fn far_pages() -> bool {
    FAR.with(|f| f.get())
}

const FAR_FROM: u32 = 1_000_000;

/// The pages that are asked for, including ones far beyond any that exists.
fn page_no(b: u32) -> usize {
    match b {
        0..FAR_FROM => b as usize,
        FAR_FROM => u32::MAX as usize,
        1_000_001 => u32::MAX as usize - 1,
        _ => (1usize << 32) + (b as usize - 1_000_002),
    }
}

impl<K: KeyT, V: Item, const S: usize> Coll for Paged<K, V, S> {
    type M = Pm<V>;

    fn fresh(n: u32) -> Self {
        let mut p = Paged::new();
        for b in batch(n, n % 4) {
            let (k, v) = pair::<K, V>(n / 8, b % 2);
            p.insert(K::mk(k), V::fresh(v));
        }
        p
    }
    fn fresh_m(n: u32) -> Self::M {
        let mut m = BTreeMap::new();
        for b in batch(n, n % 4) {
            let (k, v) = pair::<K, V>(n / 8, b % 2);
            m.entry(k).or_insert_with(Vec::new).push(V::fresh_m(v));
        }
        m
    }
    fn apply(&mut self, op: &Op) -> String {
        match op.o {
            O::PInsert => {
                self.insert(K::mk(op.k), V::fresh(op.v));
                String::new()
            }
            O::Clear => {
                *self = Paged::default();
                String::new()
            }
            O::Fill => {
                for v in fill_vals(op) {
                    self.insert(K::mk(op.k), V::fresh(v));
                }
                String::new()
            }
            O::PGet => self.get(&K::mk(op.k), page_no(op.n)).map_or("-".into(), |s| s.dump()),
            _ => format!("{:?}", self.get_last_page_number(&K::mk(op.k))),
        }
    }
    fn apply_m(m: &mut Self::M, op: &Op) -> String {
        let k = op.k % K::dom();
        match op.o {
            O::PInsert => {
                m.entry(k).or_default().push(V::fresh_m(op.v));
                String::new()
            }
            O::Clear => {
                m.clear();
                String::new()
            }
            O::Fill => {
                if op.n > 0 {
                    m.entry(k).or_default().extend(fill_vals(op).map(V::fresh_m));
                }
                String::new()
            }
            O::PGet => m
                .get(&k)
                .and_then(|v| v.chunks(S).nth(page_no(op.n)))
                .map_or("-".into(), |c| <Seq<V> as Coll>::dump_m(&c.to_vec())),
            _ => format!("{:?}", m.get(&k).map(|v| (v.len() - 1) / S)),
        }
    }
    fn dump(&self) -> String {
        let mut s = String::from("(");
        for k in 0..probe_dom::<K>() {
            let key = K::mk(k);
            let last = self.get_last_page_number(&key);
            if let Some(last) = last {
                let _ = write!(s, "{}:", k);
                for p in 0..=last {
                    match self.get(&key, p) {
                        Some(x) => s.push_str(&x.dump()),
                        None => s.push_str("missing"),
                    }
                }
                s.push(',');
            }
            let none: &[usize] = &[last.map_or(0, |p| p + 1), last.map_or(1, |p| p + 2), u32::MAX as usize, 1 << 32, usize::MAX];
            for p in none[..if far_pages() { 5 } else { 2 }].iter().copied() {
                if let Some(x) = self.get(&key, p) {
                    let _ = write!(s, " page {} of {} should not exist: {}", p, k, x.dump());
                }
            }
        }
        s.push(')');
        s
    }
    fn dump_m(m: &Self::M) -> String {
        let mut s = String::from("(");
        for (k, v) in m {
            let _ = write!(s, "{}:", k);
            for c in v.chunks(S) {
                s.push_str(&<Seq<V> as Coll>::dump_m(&c.to_vec()));
            }
            s.push(',');
        }
        s.push(')');
        s
    }
    fn probe(&self) -> String {
        String::new()
    }
    fn probe_m(_m: &Self::M) -> String {
        String::new()
    }
    fn content(m: &Self::M) -> C {
        let mut out = Vec::new();
        for (k, v) in m {
            for (p, c) in v.chunks(S).enumerate() {
                out.push((page_label::<K>(*k, p as u32), <Seq<V> as Coll>::content(&c.to_vec())));
            }
        }
        C::Map(out)
    }
    fn witness<'a>(&'a self, q: &Q) -> Option<HashTree<'a>> {
        match q.q {
            QK::Full => Some(self.as_hash_tree()),
            QK::Page => Some(self.witness(&K::mk(q.k), page_no(q.b))),
            QK::LastPage => Some(self.witness_last_page_number(&K::mk(q.k))),
            _ => None,
        }
    }
    fn expect(m: &Self::M, q: &Q) -> Option<Exp> {
        let k = q.k % K::dom();
        match q.q {
            QK::Full => Some(Exp::Full),
            // A page that no label can name has no path to ask for: the client sees the proof that the
            // highest page there could be is absent.
            QK::Page => Some(Exp::Path(page_label::<K>(k, page_no(q.b).min(u32::MAX as usize) as u32), Box::new(Exp::Full))),
            QK::LastPage => {
                let pages = m.get(&k).map_or(0, |v| v.chunks(S).len()) as u32;
                Some(Exp::LastPage { next: page_label::<K>(k, pages), last: if pages == 0 { None } else { Some(page_label::<K>(k, pages - 1)) } })
            }
            _ => None,
        }
    }
    fn gen_op(m: &Self::M, r: &mut Rng, g: &Gen) -> Op {
        let o = r.weighted(&[(60, O::PInsert), (8, O::PGet), (6, O::PLast), (g.clear, O::Clear)]);
        let mut k = gen_key::<K>(r, g);
        if !m.is_empty() && r.chance(1, 2) {
            k = *m.keys().nth(r.below(m.len() as u64) as usize).unwrap();
        }
        let pages = m.get(&k).map_or(0, |v| v.chunks(S).len()) as u64;
        let many = gen_fill(r, g, m.values().map(|v| v.len()).sum());
        if many > 0 {
            return Op { o: O::Fill, k, v: gen_val(r, g), n: many, x: r.below(1000) as u32, s: None };
        }
        let n = if far_pages() && r.chance(1, 5) { FAR_FROM as u64 + r.below(6) } else { r.below(pages + 2) } as u32;
        Op { o, k, v: gen_val(r, g), n, x: 0, s: None }
    }
    fn gen_q(m: &Self::M, r: &mut Rng, g: &Gen) -> Q {
        let q = r.weighted(&[(50, QK::Page), (25, QK::LastPage), (3, QK::Full)]);
        let mut k = gen_key::<K>(r, g);
        if !m.is_empty() && r.chance(2, 3) {
            k = *m.keys().nth(r.below(m.len() as u64) as usize).unwrap();
        }
        let pages = m.get(&k).map_or(0, |v| v.chunks(S).len()) as u64;
        let b = if far_pages() && r.chance(1, 5) { FAR_FROM as u64 + r.below(6) } else { r.below(pages + 2) } as u32;
        Q { q, k, b, ..Q::default() }
    }
    fn probes(g: &Gen) -> Vec<Vec<u8>> {
        (0..g.keys).flat_map(|j| (0..3).map(move |p| page_label::<K>(pool_key::<K>(g.pool, j), p))).collect()
    }
    fn ordered() -> bool {
        // The page number is appended to the label, which keeps the order only when no label of a key is
        // a prefix of another.
        let n = probe_dom::<K>();
        let fixed = (0..n).all(|k| K::label(k).len() == K::label(0).len());
        fixed && K::ordered()
    }
    fn find(&mut self, k: u32, how: u32) -> bool {
        let key = K::mk(k);
        match how {
            0 => self.get_last_page_number(&key).is_some(),
            n => self.get(&key, n as usize - 1).is_some(),
        }
    }
    fn keys(m: &Self::M) -> Vec<u32> {
        m.keys().copied().collect()
    }
    fn entries(m: &Self::M) -> usize {
        m.values().map(|v| v.chunks(S).len()).sum()
    }
    fn tracked(m: &Self::M) -> usize {
        let keys: usize = if K::tracked() { m.values().map(|v| v.chunks(S).len()).sum() } else { 0 };
        keys + m.values().flatten().map(|v| V::tracked(v)).sum::<usize>()
    }
    fn own(&self) -> Result<C, String> {
        // A paged store does not list its keys: the ones that can be asked for are, and the full tree
        // has to list those the same way, in the same order.
        let mut found = Vec::new();
        for k in 0..probe_dom::<K>() {
            let key = K::mk(k);
            let last = self.get_last_page_number(&key).unwrap_or(0).min(10_000);
            for p in 0..70usize.max(last + 2) {
                if let Some(s) = self.get(&key, p) {
                    found.push((page_label::<K>(k, p as u32), s.own()?));
                }
            }
        }
        let t = crate::spec::parse(&wire(&self.as_hash_tree()))?;
        let all = t.flatten();
        let mut at = 0;
        for (l, c) in &found {
            loop {
                match all.get(at) {
                    Some(crate::spec::T::Labeled(x, v)) => {
                        at += 1;
                        if x == l {
                            crate::content::full(v, c)?;
                            break;
                        }
                    }
                    _ => return Err("a page that is found is not in the full tree".into()),
                }
            }
        }
        if t.hash() != self.root_hash() {
            return Err("the root is not that of the full tree".into());
        }
        // Nothing more can be said about pages of other keys.
        Ok(C::Any)
    }
}

// ---------------------------------------------------------------- erased

/// A real collection of any type.
pub trait Real {
    fn apply(&mut self, op: &Op) -> String;
    fn dump(&self) -> String;
    fn probe(&self) -> String;
    fn root(&self) -> [u8; 32];
    /// The full hash tree as it goes over the wire, and the root the library reconstructs from it.
    fn full(&self) -> (Vec<u8>, [u8; 32]);
    fn witness(&self, q: &Q) -> Option<Vec<u8>>;
    /// Send a witness to where writing may fail.
    fn send(&self, q: &Q, tagged: bool, w: &mut dyn std::io::Write) -> Option<Result<(), String>>;
    /// What the library itself makes of a witness.
    fn reading(&self, q: &Q) -> Option<Reading>;
    fn any(&self) -> &dyn std::any::Any;
    /// See `Coll::find`.
    fn find(&mut self, k: u32, how: u32) -> bool;
    /// See `Coll::own`; also against the full tree and the root.
    fn own(&self) -> Result<(), String>;
}

pub struct Re<X>(pub X);

/// A hash tree as the library's own methods read it.
pub struct Reading {
    pub bytes: Vec<u8>,
    pub hash: [u8; 32],
    pub labels: Vec<Vec<u8>>,
    pub leaves: Vec<Vec<u8>>,
    /// It is equal to itself, and to no other part of it that has another hash.
    pub equal: bool,
}

fn read(t: &HashTree) -> Reading {
    let equal = t == t
        && match t {
            HashTree::Fork(f) => (f.left() == f.right()) == (wire(f.left()) == wire(f.right())) && f.left() != t && t != f.right(),
            HashTree::Labeled(_, x) => **x != *t,
            _ => true,
        };
    Reading {
        bytes: wire(t),
        hash: t.reconstruct(),
        labels: t.get_labels().into_iter().map(|l| l.to_vec()).collect(),
        leaves: t.get_leaf_values().into_iter().map(|l| l.to_vec()).collect(),
        equal,
    }
}

fn wire(t: &HashTree) -> Vec<u8> {
    serde_cbor::to_vec(t).expect("a hash tree can be encoded")
}

impl<X: Coll> Real for Re<X> {
    fn apply(&mut self, op: &Op) -> String {
        self.0.apply(op)
    }
    fn dump(&self) -> String {
        self.0.dump()
    }
    fn probe(&self) -> String {
        self.0.probe()
    }
    fn root(&self) -> [u8; 32] {
        self.0.root_hash()
    }
    fn full(&self) -> (Vec<u8>, [u8; 32]) {
        let t = self.0.as_hash_tree();
        (wire(&t), t.reconstruct())
    }
    fn witness(&self, q: &Q) -> Option<Vec<u8>> {
        self.0.witness(q).map(|t| wire(&t))
    }
    fn send(&self, q: &Q, tagged: bool, w: &mut dyn std::io::Write) -> Option<Result<(), String>> {
        let t = self.0.witness(q)?;
        let mut s = serde_cbor::Serializer::new(serde_cbor::ser::IoWrite::new(w));
        let out = if tagged { s.self_describe() } else { Ok(()) };
        Some(out.and_then(|_| serde::Serialize::serialize(&t, &mut s)).map_err(|e| e.to_string()))
    }
    fn reading(&self, q: &Q) -> Option<Reading> {
        self.0.witness(q).map(|t| read(&t))
    }
    fn any(&self) -> &dyn std::any::Any {
        &self.0
    }
    fn find(&mut self, k: u32, how: u32) -> bool {
        self.0.find(k, how)
    }
    fn own(&self) -> Result<(), String> {
        let c = self.0.own()?;
        if let C::Leaf(_) = c {
            return Ok(());
        }
        let t = crate::spec::parse(&wire(&self.0.as_hash_tree()))?;
        if let C::Map(_) = c {
            if t.hash() != self.0.root_hash() {
                return Err("the root is not that of the full tree".into());
            }
        }
        crate::content::full(&t, &c)
    }
}

/// The model of any type of collection.
pub trait Model {
    fn any(&self) -> &dyn std::any::Any;
    fn copy(&self) -> Box<dyn Model>;
    fn apply(&mut self, op: &Op) -> String;
    fn partials(&self, op: &Op) -> Vec<Box<dyn Model>>;
    fn dump(&self) -> String;
    fn probe(&self) -> String;
    fn content(&self) -> C;
    fn expect(&self, q: &Q) -> Option<Exp>;
    fn gen_op(&self, r: &mut Rng, g: &Gen) -> Op;
    /// What a big run starts with.
    fn first_fill(&self, r: &mut Rng, g: &Gen, huge: bool) -> Op {
        let mut op = self.gen_op(r, g);
        for _ in 0..50 {
            if op.fills() {
                break;
            }
            op = self.gen_op(r, g);
        }
        if op.o == O::Fill {
            op.n = if huge { 66_000 } else { g.fill - r.below(g.fill as u64 / 4) as u32 };
        }
        op
    }
    fn gen_q(&self, r: &mut Rng, g: &Gen) -> Q;
    fn probes(&self, g: &Gen) -> Vec<Vec<u8>>;
    fn ordered(&self) -> bool;
    fn tracked(&self) -> usize;
    fn keys(&self) -> Vec<u32>;
    fn entries(&self) -> usize;
}

/// `X::ordered()`, worked out once in the process (`subjects::kinds` asks for every kind before any run
/// starts, so that no run pays for it or differs by it).
pub fn ordered<X: Coll>() -> bool {
    static KNOWN: std::sync::Mutex<BTreeMap<std::any::TypeId, bool>> = std::sync::Mutex::new(BTreeMap::new());
    let id = std::any::TypeId::of::<X>();
    if let Some(o) = KNOWN.lock().unwrap().get(&id) {
        return *o;
    }
    let o = X::ordered();
    KNOWN.lock().unwrap().insert(id, o);
    o
}

pub struct Mo<X: Coll>(pub X::M);

impl<X: Coll> Model for Mo<X> {
    fn any(&self) -> &dyn std::any::Any {
        self
    }
    fn copy(&self) -> Box<dyn Model> {
        Box::new(Mo::<X>(self.0.clone()))
    }
    fn apply(&mut self, op: &Op) -> String {
        X::apply_m(&mut self.0, op)
    }
    fn partials(&self, op: &Op) -> Vec<Box<dyn Model>> {
        X::partials(&self.0, op).into_iter().map(|m| Box::new(Mo::<X>(m)) as Box<dyn Model>).collect()
    }
    fn dump(&self) -> String {
        X::dump_m(&self.0)
    }
    fn probe(&self) -> String {
        X::probe_m(&self.0)
    }
    fn content(&self) -> C {
        X::content(&self.0)
    }
    fn expect(&self, q: &Q) -> Option<Exp> {
        X::expect(&self.0, q)
    }
    fn gen_op(&self, r: &mut Rng, g: &Gen) -> Op {
        X::gen_op(&self.0, r, g)
    }
    fn gen_q(&self, r: &mut Rng, g: &Gen) -> Q {
        X::gen_q(&self.0, r, g)
    }
    fn probes(&self, g: &Gen) -> Vec<Vec<u8>> {
        X::probes(g)
    }
    fn ordered(&self) -> bool {
        ordered::<X>()
    }
    fn tracked(&self) -> usize {
        X::tracked(&self.0)
    }
    fn keys(&self) -> Vec<u32> {
        X::keys(&self.0)
    }
    fn entries(&self) -> usize {
        X::entries(&self.0)
    }
}

// ---------------------------------------------------------------- groups

/// Call `$f::<T>` for the type of the `$i`-th kind of group member.
macro_rules! member {
    ($i:expr, $f:ident $(, $a:expr)*) => {
        match $i {
            0 => $f::<Map<String, String>>($($a),*),
            1 => $f::<Map<u32, u64>>($($a),*),
            2 => $f::<Seq<u32>>($($a),*),
            3 => $f::<Paged<u16, String, 3>>($($a),*),
            4 => $f::<Map<u8, Map<u16, u8>>>($($a),*),
            5 => $f::<Map<String, Seq<String>>>($($a),*),
            6 => $f::<u64>($($a),*),
            7 => $f::<String>($($a),*),
            8 => $f::<RbTree<u32, u64>>($($a),*),
            9 => $f::<Tag<0>>($($a),*),
            10 => $f::<Tag<1>>($($a),*),
            11 => $f::<Tag<2>>($($a),*),
            12 => $f::<Tag<3>>($($a),*),
            13 => $f::<Tag<4>>($($a),*),
            14 => $f::<Tag<5>>($($a),*),
            15 => $f::<Tag<6>>($($a),*),
            16 => $f::<Tag<7>>($($a),*),
            17 => $f::<Tag<8>>($($a),*),
            18 => $f::<Tag<9>>($($a),*),
            19 => $f::<Tag<10>>($($a),*),
            20 => $f::<Tag<11>>($($a),*),
            21 => $f::<Tag<12>>($($a),*),
            22 => $f::<Tag<13>>($($a),*),
            23 => $f::<Tag<14>>($($a),*),
            24 => $f::<Tag<15>>($($a),*),
            25 => $f::<Tag<16>>($($a),*),
            26 => $f::<Tag<17>>($($a),*),
            27 => $f::<Tag<18>>($($a),*),
            28 => $f::<Tag<19>>($($a),*),
            29 => $f::<Tag<20>>($($a),*),
            30 => $f::<Tag<21>>($($a),*),
            31 => $f::<Tag<22>>($($a),*),
            32 => $f::<Tag<23>>($($a),*),
            33 => $f::<Map<TK, TV>>($($a),*),
            34 => $f::<Seq<TV>>($($a),*),
            35 => $f::<TV>($($a),*),
            36 => $f::<Paged<TK, TV, 2>>($($a),*),
            _ => $f::<GroupSub>($($a),*),
        }
    };
}
/// All members there are; those in between are small values of many types.
pub const MEMBERS: usize = 38;
const SMALL: std::ops::Range<usize> = 9..33;
/// A group in a group.
pub const INNER: usize = 37;
/// The layout numbers of groups in groups are below this.
pub const INNER_LAYOUTS: u32 = 100;

/// The layout of a group: the type and the path of each member. Every layout comes from a number.
/// Names that the members and directories of a group may have.
pub fn names(r: &mut Rng) -> Vec<String> {
    let mut v: Vec<String> = ["a", "b", "", "ab", "a0", "b\u{1}", "\u{e9}", "z", "A", "aa", "ledger", "meta", "\u{0}", "ba"].iter().map(|s| s.to_string()).collect();
    if r.chance(1, 3) {
        return v;
    }
    if r.chance(1, 2) {
        let odd = crate::types::odd_strings();
        v = (0..12).map(|_| r.pick(&odd).clone()).collect();
    }
    // Next to a name, one that is close to it.
    let mut out: Vec<String> = Vec::new();
    for s in v {
        let near = crate::types::variants(&s);
        out.push(s);
        for _ in 0..r.below(3) {
            out.push(r.pick(&near).clone());
        }
    }
    out
}

pub fn layout(seed: u32) -> Vec<(usize, Vec<String>)> {
    let mut r = Rng::new(seed as u64 ^ 0x6A0);
    let wide = r.chance(1, 4);
    let mut kinds: Vec<usize> = (0..MEMBERS).filter(|i| wide || !SMALL.contains(i)).collect();
    if seed < INNER_LAYOUTS {
        kinds.retain(|i| *i != INNER);
    }
    let n = r.range(if wide { 5 } else { 1 }, kinds.len() as u64) as usize;
    let mut names = names(&mut r);
    if wide {
        names.extend((0..r.below(40)).map(|i| format!("{}{}", (b'a' + (i % 5) as u8) as char, i)));
    }
    let deep = if r.chance(1, 8) { 9 } else { r.range(1, 4) };
    let mut out: Vec<(usize, Vec<String>)> = Vec::new();
    for _ in 0..n {
        let kind = kinds.remove(r.below(kinds.len() as u64) as usize);
        for _ in 0..50 {
            let d = r.range(1, deep) as usize;
            let few = r.range(2, names.len() as u64);
            let p: Vec<String> = (0..d).map(|_| names[r.below(few) as usize].clone()).collect();
            if out.iter().all(|(_, q)| !q.starts_with(&p) && !p.starts_with(q)) {
                out.push((kind, p));
                break;
            }
        }
    }
    out
}

pub struct GroupSub {
    g: Group,
    members: Vec<(usize, Vec<String>)>,
}

pub struct GroupModel {
    members: Vec<(Vec<String>, Box<dyn Model>)>,
}
impl Clone for GroupModel {
    fn clone(&self) -> Self {
        GroupModel { members: self.members.iter().map(|(p, m)| (p.clone(), m.copy())).collect() }
    }
}

fn g_insert<T: Coll>(b: GroupBuilder, p: Vec<String>, n: u32) -> GroupBuilder {
    b.insert(p, T::fresh(n))
}
fn g_model<T: Coll>(n: u32) -> Box<dyn Model> {
    Box::new(Mo::<T>(T::fresh_m(n)))
}
fn g_apply<T: Coll>(g: &mut Group, op: &Op) -> String {
    let t = g.get_mut::<T>();
    apply_edit(t, op)
}
fn g_dump<T: Coll>(g: &Group) -> String {
    g.get::<T>().dump()
}
fn g_probe<T: Coll>(g: &Group) -> String {
    g.get::<T>().probe()
}
fn g_full<T: Coll>(r: certified_vars::collections::group::Ray<'_>) -> certified_vars::collections::group::Ray<'_> {
    r.full::<T>()
}
fn g_partial<'a, T: Coll>(r: certified_vars::collections::group::Ray<'a>, q: &Q) -> certified_vars::collections::group::Ray<'a> {
    r.partial::<T, _>(|t: &T| t.witness(q).unwrap_or_else(|| t.as_hash_tree()))
}

/// A member of a group, as it is given to a builder.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Mem {
    pub kind: usize,
    pub path: Vec<String>,
    #[serde(default, skip_serializing_if = "is0")]
    pub n: u32,
    /// What was done with it before.
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub first: Vec<Op>,
    /// The call of caller code that panics while it is given.
    #[serde(default)]
    pub trap: u64,
}

/// A part of a path that is made into a string by caller code.
struct Part(String);
impl From<Part> for String {
    fn from(p: Part) -> String {
        tick();
        p.0
    }
}

fn g_give<T: Coll>(b: GroupBuilder, m: &Mem) -> GroupBuilder {
    let mut t = T::fresh(m.n);
    for op in &m.first {
        apply_edit(&mut t, op);
    }
    crate::types::arm(m.trap);
    let b = match m.n % 3 {
        0 => b.insert(m.path.clone(), t),
        1 => b.insert(m.path.iter().map(|s| s.as_str()), t),
        _ => b.insert(
            m.path.iter().map(|p| {
                tick();
                Part(p.clone())
            }),
            t,
        ),
    };
    crate::types::disarm();
    b
}
fn g_given<T: Coll>(m: &Mem) -> Box<dyn Model> {
    let mut t = T::fresh_m(m.n);
    for op in &m.first {
        T::apply_m(&mut t, op);
    }
    Box::new(Mo::<T>(t))
}
fn g_get<T: Coll>(g: &Group) {
    g.get::<T>();
}
fn g_get_mut<T: Coll>(g: &mut Group) {
    g.get_mut::<T>();
}

pub fn build_group(ms: &[Mem]) -> GroupSub {
    let mut b = GroupBuilder::new();
    for m in ms {
        b = member!(m.kind, g_give, b, m);
    }
    GroupSub { g: b.build(), members: ms.iter().map(|m| (m.kind, m.path.clone())).collect() }
}
pub fn group_model(ms: &[Mem]) -> GroupModel {
    GroupModel { members: ms.iter().map(|m| (m.path.clone(), member!(m.kind, g_given, m))).collect() }
}
impl GroupSub {
    /// Members are selected by their number in this list.
    pub fn renumber(&mut self, ms: &[Mem]) {
        self.members = ms.iter().map(|m| (m.kind, m.path.clone())).collect();
    }
    pub fn ask(&mut self, kind: usize, how: u32) {
        if how == 0 {
            member!(kind, g_get, &self.g)
        } else {
            member!(kind, g_get_mut, &mut self.g)
        }
    }
}

impl AsHashTree for GroupSub {
    fn root_hash(&self) -> certified_vars::Hash {
        self.g.root_hash()
    }
    fn as_hash_tree(&self) -> HashTree<'_> {
        self.g.as_hash_tree()
    }
}

fn dir_content(ms: &[(&[String], &dyn Model)]) -> C {
    if ms.len() == 1 && ms[0].0.is_empty() {
        return ms[0].1.content();
    }
    let mut by: BTreeMap<Vec<u8>, Vec<(&[String], &dyn Model)>> = BTreeMap::new();
    for (p, m) in ms {
        by.entry(p[0].as_bytes().to_vec()).or_default().push((&p[1..], *m));
    }
    C::Map(by.into_iter().map(|(l, v)| (l, dir_content(&v))).collect())
}

impl Coll for GroupSub {
    type M = GroupModel;

    fn fresh(n: u32) -> Self {
        let mut members = layout(n);
        // Members may be added in any order.
        let by = (n / 7) as usize % members.len();
        members.rotate_left(by);
        let mut b = if n % 2 == 0 { GroupBuilder::new() } else { GroupBuilder::default() };
        for (i, p) in &members {
            b = member!(*i, g_insert, b, p.clone(), n % INNER_LAYOUTS);
        }
        GroupSub { g: b.build(), members: layout(n) }
    }
    fn fresh_m(n: u32) -> GroupModel {
        GroupModel { members: layout(n).into_iter().map(|(i, p)| (p, member!(i, g_model, n % INNER_LAYOUTS))).collect() }
    }
    fn apply(&mut self, op: &Op) -> String {
        match &op.s {
            Some(s) => {
                let i = self.members[op.k as usize % self.members.len()].0;
                member!(i, g_apply, &mut self.g, s)
            }
            None => String::new(),
        }
    }
    fn apply_m(m: &mut GroupModel, op: &Op) -> String {
        match &op.s {
            Some(s) => {
                let n = m.members.len();
                m.members[op.k as usize % n].1.apply(s)
            }
            None => String::new(),
        }
    }
    fn partials(m: &GroupModel, op: &Op) -> Vec<GroupModel> {
        let mut out = Vec::new();
        if let Some(s) = &op.s {
            let i = op.k as usize % m.members.len();
            for x in m.members[i].1.partials(s) {
                let mut m = m.clone();
                m.members[i].1 = x;
                out.push(m);
            }
        }
        out
    }
    fn dump(&self) -> String {
        self.members.iter().map(|(i, _)| member!(*i, g_dump, &self.g)).collect::<Vec<_>>().join(";")
    }
    fn dump_m(m: &GroupModel) -> String {
        m.members.iter().map(|(_, m)| m.dump()).collect::<Vec<_>>().join(";")
    }
    fn probe(&self) -> String {
        self.members.iter().map(|(i, _)| member!(*i, g_probe, &self.g)).collect::<Vec<_>>().join(";")
    }
    fn probe_m(m: &GroupModel) -> String {
        m.members.iter().map(|(_, m)| m.probe()).collect::<Vec<_>>().join(";")
    }
    fn content(m: &GroupModel) -> C {
        let ms: Vec<(&[String], &dyn Model)> = m.members.iter().map(|(p, m)| (p.as_slice(), m.as_ref())).collect();
        dir_content(&ms)
    }
    fn witness<'a>(&'a self, q: &Q) -> Option<HashTree<'a>> {
        if q.q == QK::Full {
            return Some(self.as_hash_tree());
        }
        let mut ray = self.g.witness();
        for s in &q.m {
            let i = self.members[s.k as usize % self.members.len()].0;
            ray = match &s.s {
                None => member!(i, g_full, ray),
                Some(q) => member!(i, g_partial, ray, q),
            };
        }
        Some(ray.build())
    }
    fn expect(m: &GroupModel, q: &Q) -> Option<Exp> {
        if q.q == QK::Full {
            return Some(Exp::Full);
        }
        let mut sel: BTreeMap<usize, Exp> = BTreeMap::new();
        for s in &q.m {
            let i = s.k as usize % m.members.len();
            // When a member is selected twice, the later selection is the one that counts.
            let e = match &s.s {
                None => Exp::Full,
                Some(q) => m.members[i].1.expect(q)?,
            };
            sel.insert(i, e);
        }
        Some(Exp::Group(
            sel.into_iter().map(|(i, e)| (m.members[i].0.iter().map(|s| s.as_bytes().to_vec()).collect(), e)).collect(),
        ))
    }
    fn gen_op(m: &GroupModel, r: &mut Rng, g: &Gen) -> Op {
        let k = r.below(m.members.len() as u64) as u32;
        let s = m.members[k as usize].1.gen_op(r, g);
        Op { o: O::Member, k, s: Some(Box::new(s)), ..Op::default() }
    }
    fn gen_q(m: &GroupModel, r: &mut Rng, g: &Gen) -> Q {
        if r.chance(1, 20) {
            return Q::default();
        }
        let mut all: Vec<u32> = (0..m.members.len() as u32).collect();
        let n = r.below(all.len() as u64 + 1);
        let mut ms = Vec::new();
        for _ in 0..n {
            let k = all.remove(r.below(all.len() as u64) as usize);
            let s = if r.chance(1, 2) { Some(Box::new(m.members[k as usize].1.gen_q(r, g))) } else { None };
            ms.push(Q { q: QK::Group, k, s, ..Q::default() });
        }
        // A member may be selected again, in another way.
        if !ms.is_empty() && r.chance(1, 4) {
            let k = r.pick(&ms).k;
            let s = if r.chance(1, 2) { Some(Box::new(m.members[k as usize].1.gen_q(r, g))) } else { None };
            let at = r.below(ms.len() as u64 + 1) as usize;
            ms.insert(at, Q { q: QK::Group, k, s, ..Q::default() });
        }
        Q { q: QK::Group, m: ms, ..Q::default() }
    }
    fn probes(g: &Gen) -> Vec<Vec<u8>> {
        let mut v = <Map<String, String> as Coll>::probes(g);
        for s in ["a", "b", "", "ab", "zz", "meta", "0"] {
            v.push(s.as_bytes().to_vec());
        }
        v
    }
    fn own(&self) -> Result<C, String> {
        Ok(C::Leaf(Vec::new()))
    }
    fn tracked(m: &GroupModel) -> usize {
        m.members.iter().map(|(_, m)| m.tracked()).sum()
    }
}
