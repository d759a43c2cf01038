//! The key and value types the simulated canisters use. Every key and value is made from a small
//! number, so that a scenario is plain data, and every label and leaf is also computed here from that
//! number, without the library.

use crate::rng::Rng;
use candid::{CandidType, Nat, Principal};
use certified_vars::hashtree::HashTree;
use certified_vars::label::{Label, Prefix};
use certified_vars::rbtree::entry::Entry;
use certified_vars::rbtree::RbTree;
use certified_vars::{AsHashTree, Map};
use serde::{Deserialize, Serialize};
use std::borrow::{Borrow, Cow};
use std::cell::{Cell, RefCell};
use std::cmp::Ordering;
use std::collections::HashSet;
use std::rc::Rc;
use std::sync::{Arc, OnceLock};

// ---------------------------------------------------------------- interruption points

/// The payload of a simulated panic.
pub struct Trap;

thread_local! {
    static COUNTDOWN: Cell<u64> = const { Cell::new(0) };
    static TICKS: Cell<u64> = const { Cell::new(0) };
    static FIRED: Cell<bool> = const { Cell::new(false) };
    static COMPARES: Cell<u64> = const { Cell::new(0) };
    static HASHED: Cell<u64> = const { Cell::new(0) };
    static MADE: Cell<u64> = const { Cell::new(0) };
}

/// Called from every piece of caller-supplied code that the library runs. The simulator decides at
/// which of these calls the caller's code panics.
pub fn tick() {
    TICKS.with(|t| t.set(t.get() + 1));
    let n = COUNTDOWN.with(|c| c.get());
    if n == 0 {
        return;
    }
    COUNTDOWN.with(|c| c.set(n - 1));
    if n == 1 && !std::thread::panicking() {
        FIRED.with(|f| f.set(true));
        std::panic::resume_unwind(Box::new(Trap));
    }
}

thread_local! {
    static ITEMS: Cell<u64> = const { Cell::new(0) };
    static ITEM_FAILS: Cell<u64> = const { Cell::new(0) };
}
/// Saving and restoring of single items: the n-th from now fails; 0 for none. Returns how many there were
/// since the last call, and whether the failure is still to come.
pub fn fail_item(n: u64) -> (u64, bool) {
    (ITEMS.with(|i| i.replace(0)), ITEM_FAILS.with(|f| f.replace(n)) > 0)
}
fn item() -> Result<(), &'static str> {
    ITEMS.with(|i| i.set(i.get() + 1));
    let n = ITEM_FAILS.with(|f| f.get());
    ITEM_FAILS.with(|f| f.set(n.saturating_sub(1)));
    if n == 1 {
        Err("an item that fails")
    } else {
        Ok(())
    }
}

pub fn arm(n: u64) {
    COUNTDOWN.with(|c| c.set(n));
    FIRED.with(|f| f.set(false));
}
/// Disarm, and tell whether the trap fired.
pub fn disarm() -> bool {
    COUNTDOWN.with(|c| c.set(0));
    FIRED.with(|f| f.replace(false))
}
pub fn ticks() -> u64 {
    TICKS.with(|t| t.get())
}
pub fn compares() -> u64 {
    COMPARES.with(|t| t.get())
}
/// How many instrumented values have been hashed or shown, and made.
pub fn hashed() -> u64 {
    HASHED.with(|t| t.get())
}
pub fn made() -> u64 {
    MADE.with(|t| t.get())
}

// ---------------------------------------------------------------- drop tracking

#[derive(Default)]
struct Registry {
    next: u64,
    live: HashSet<u64>,
    errors: Vec<&'static str>,
}

thread_local! {
    static REGISTRY: RefCell<Registry> = RefCell::new(Registry::default());
}

thread_local! {
    /// Whether the destructors of keys and values count as caller code that can panic.
    static DESTRUCTORS: Cell<bool> = const { Cell::new(false) };
    static IN_DESTRUCTOR: Cell<bool> = const { Cell::new(false) };
}
/// Whether a destructor has panicked. What it was part of may then stay undropped.
pub fn spilled() -> bool {
    IN_DESTRUCTOR.with(|d| d.get())
}
pub fn set_destructors(on: bool) {
    DESTRUCTORS.with(|d| d.set(on));
}

/// Identity of one tracked key or value.
struct Token(u64);

impl Token {
    fn new() -> Token {
        crate::seams::untagged(|| {
            REGISTRY.with(|r| {
                let mut r = r.borrow_mut();
                r.next += 1;
                let id = r.next ^ 0x7A3B_0000_0000_0000;
                r.live.insert(id);
                Token(id)
            })
        })
    }
    fn used(&self, what: &'static str) {
        REGISTRY.with(|r| {
            let mut r = r.borrow_mut();
            if !r.live.contains(&self.0) {
                r.errors.push(what);
            }
        })
    }
}

impl Drop for Token {
    fn drop(&mut self) {
        let _ = REGISTRY.try_with(|r| {
            let mut r = r.borrow_mut();
            if !r.live.remove(&self.0) {
                r.errors.push("a key or value was dropped twice, or memory that never held one was dropped");
            }
        });
        if DESTRUCTORS.try_with(|d| d.get()).unwrap_or(false) {
            let was = IN_DESTRUCTOR.with(|d| d.replace(true));
            tick();
            IN_DESTRUCTOR.with(|d| d.set(was));
        }
    }
}

pub fn tracked_live() -> usize {
    REGISTRY.with(|r| r.borrow().live.len())
}
pub fn tracked_error() -> Option<&'static str> {
    REGISTRY.with(|r| {
        let mut r = r.borrow_mut();
        let e = r.errors.first().copied();
        r.errors.clear();
        e
    })
}

// ---------------------------------------------------------------- keys

pub trait KeyT: Label + Ord + Clone + 'static + Borrow<Self::B> {
    /// The form used for lookups.
    type B: Ord + ?Sized;
    fn dom() -> u32;
    /// Strictly ascending in `n`, for `n` below `dom`.
    fn mk(n: u32) -> Self;
    fn id(&self) -> u32;
    /// The label, computed without the library.
    fn label(n: u32) -> Vec<u8>;
    /// The number of prefixes that can be asked for.
    fn prefixes() -> u32 {
        0
    }
    fn has_prefix(_p: u32, _n: u32) -> bool {
        false
    }
    fn prefix_witness<V: AsHashTree + 'static>(_t: &RbTree<Self, V>, _p: u32) -> Option<HashTree<'_>> {
        None
    }
    fn map_prefix_witness<V: AsHashTree + 'static>(_t: &Map<Self, V>, _p: u32) -> Option<HashTree<'_>> {
        None
    }
    /// Whether keys of this type are counted.
    fn tracked() -> bool {
        false
    }
    /// The keys a run may use, given the number that selects its keys: the first, and how many.
    fn span(_pool: u32) -> (u32, u32) {
        (0, if Self::dom() >= 1 << 16 { 64 } else { Self::dom() })
    }
    /// Whether the labels ascend with the keys.
    fn ordered() -> bool {
        Self::dom() >= 1 << 16 || (1..Self::dom()).all(|n| Self::label(n - 1) < Self::label(n))
    }
    fn max_entry<V: AsHashTree + 'static>(_t: &RbTree<Self, V>, _p: u32) -> Option<(&Self, &V)> {
        None
    }
    fn modify_max<V: AsHashTree + 'static, R>(_t: &mut RbTree<Self, V>, _p: u32, _f: impl FnOnce(&Self, &mut V) -> R) -> Option<R> {
        None
    }
}

fn num_table() -> Vec<u128> {
    let mut v: Vec<u128> = (0..24).collect();
    for b in [7u32, 8, 15, 16, 24, 31, 32, 48, 63, 64, 100, 127, 128] {
        for d in -1i32..=1 {
            if b == 128 {
                if d == -1 {
                    v.push(u128::MAX);
                }
                continue;
            }
            v.push((1u128 << b).wrapping_add(d as i128 as u128));
        }
    }
    v.sort();
    v.dedup();
    v
}

fn be(mut x: u128, width: usize) -> Vec<u8> {
    let mut v = vec![0u8; width];
    for i in (0..width).rev() {
        v[i] = (x % 256) as u8;
        x /= 256;
    }
    v
}

macro_rules! table_key {
    ($t:ty, $b:ty, $make:expr, $label:expr, $($extra:tt)*) => {
        impl KeyT for $t {
            type B = $b;
            fn dom() -> u32 {
                <$t as Table>::table().len() as u32
            }
            fn mk(n: u32) -> Self {
                let t = <$t as Table>::table();
                t[n as usize % t.len()].clone()
            }
            fn id(&self) -> u32 {
                match <$t as Table>::table().binary_search(self) {
                    Ok(i) => i as u32,
                    Err(_) => u32::MAX,
                }
            }
            fn label(n: u32) -> Vec<u8> {
                let f: fn(&$t) -> Vec<u8> = $label;
                f(&<Self as KeyT>::mk(n))
            }
            $($extra)*
        }
        impl Table for $t {
            fn table() -> &'static [Self] {
                static T: OnceLock<Vec<$t>> = OnceLock::new();
                T.get_or_init(|| {
                    let mut v: Vec<$t> = $make;
                    v.sort();
                    v.dedup();
                    v
                })
            }
        }
    };
}

trait Table: Sized + 'static {
    fn table() -> &'static [Self];
}

macro_rules! unsigned {
    ($($t:ty, $w:expr);*) => {$(
        table_key!($t, $t, num_table().into_iter().filter(|x| *x <= <$t>::MAX as u128).map(|x| x as $t).collect(),
            |k| be(*k as u128, $w),);
    )*};
}
unsigned!(u8, 1; u16, 2; u32, 4; u64, 8; u128, 16; usize, 8);

macro_rules! signed {
    ($($t:ty, $w:expr);*) => {$(
        table_key!($t, $t, {
            let mut v: Vec<$t> = num_table().into_iter().filter(|x| *x <= <$t>::MAX as u128).map(|x| x as $t).collect();
            let neg: Vec<$t> = v.iter().map(|x| -1 - *x).collect();
            v.extend(neg);
            v
        }, |k| be(if *k < 0 { (*k as i128 as u128) & (u128::MAX >> (128 - 8 * $w)) } else { *k as u128 }, $w),);
    )*};
}
signed!(i8, 1; i16, 2; i32, 4; i64, 8; i128, 16; isize, 8);

fn byte_strings(alphabet: &[u8]) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = vec![vec![]];
    let mut last: Vec<Vec<u8>> = vec![vec![]];
    for _ in 0..3 {
        let mut next = Vec::new();
        for p in &last {
            for c in alphabet {
                let mut q = p.clone();
                q.push(*c);
                next.push(q);
            }
        }
        v.extend(next.iter().cloned());
        last = next;
    }
    // Long labels, to cross the length classes of the encoding.
    for n in [23usize, 24, 255, 256, 300, 65_600] {
        v.push(vec![b'a'; n]);
        let mut x = vec![b'a'; n];
        x[n - 1] = b'b';
        v.push(x);
    }
    v
}

macro_rules! byte_prefix {
    () => {
        fn prefixes() -> u32 {
            PREFIXES.len() as u32
        }
        fn has_prefix(p: u32, n: u32) -> bool {
            Self::label(n).starts_with(PREFIXES[p as usize % PREFIXES.len()])
        }
        fn prefix_witness<V: AsHashTree + 'static>(t: &RbTree<Self, V>, p: u32) -> Option<HashTree<'_>> {
            Some(t.keys_with_prefix::<[u8]>(PREFIXES[p as usize % PREFIXES.len()]))
        }
        fn map_prefix_witness<V: AsHashTree + 'static>(t: &Map<Self, V>, p: u32) -> Option<HashTree<'_>> {
            Some(t.witness_keys_with_prefix::<[u8]>(PREFIXES[p as usize % PREFIXES.len()]))
        }
        fn max_entry<V: AsHashTree + 'static>(t: &RbTree<Self, V>, p: u32) -> Option<(&Self, &V)> {
            t.max_entry_with_prefix::<[u8]>(PREFIXES[p as usize % PREFIXES.len()])
        }
        fn modify_max<V: AsHashTree + 'static, R>(t: &mut RbTree<Self, V>, p: u32, f: impl FnOnce(&Self, &mut V) -> R) -> Option<R> {
            t.modify_max_with_prefix::<[u8], R>(PREFIXES[p as usize % PREFIXES.len()], |k, v| f(k, v))
        }
    };
}

const PREFIXES: &[&[u8]] = &[b"", b"a", b"aa", b"\0", b"a\0", b"b", b"\xff", b"ab", b"aaa", b"aaaa", b"\xff\xff", b"zz", b"\0\0"];
const STR_PREFIXES: &[&str] = &["", "a", "aa", "\0", "a\0", "b", "\u{e9}", "ab", "aaa", "aaaa", "\u{e9}\u{e9}", "zz", "\0\0"];

/// Byte strings of no particular form, of many lengths.
fn odd_bytes() -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = byte_strings(b"\0ab\xff");
    let mut r = crate::rng::Rng::new(0x0DD);
    for n in 0..40usize {
        let x: Vec<u8> = (0..4 + n * 3 / 2).map(|_| r.u64() as u8).collect();
        // Its beginning, and one that differs from it in one bit, at the start, the end or in between.
        let mut y = x.clone();
        let at = [0, x.len() - 1, r.below(x.len() as u64) as usize][n % 3];
        y[at] ^= 1 << (n % 8);
        v.push(x[..x.len() - 1].to_vec());
        v.extend([x, y]);
    }
    for s in odd_strings() {
        v.push(s.into_bytes());
    }
    v
}

/// Strings that some programs take for the same, or for something else, and that differ in what a canister
/// stores.
pub fn odd_strings() -> Vec<String> {
    let mut v: Vec<String> = Vec::new();
    for s in ["key", "name", "Zebra", "user", "stra\u{df}e", "caf\u{e9}", "a b"] {
        v.push(s.into());
        v.extend(variants(s));
    }
    for s in [
        "1", "2", "01", "10", "1.0", "1e0", "+1", "-1", "0", "-0", "null", "true", ".", "..", "/", "//", "a/b", "a/./b", "a\\b", "%61", "%2F", "\"", "\u{7f}",
        "\u{80}", "\u{ff}", "\u{7ff}", "\u{800}", "\u{ffff}", "\u{e000}", "\u{10000}", "\u{10ffff}", "\u{feff}", "\u{fffd}", "\u{200d}", "\u{130}", "\u{131}", "i", "I",
        "\u{1f600}", "\u{0}", " ", "  ", "\n", "\t", "\r\n",
    ] {
        v.push(s.into());
    }
    v
}

/// Names that are close to this one.
pub fn variants(s: &str) -> Vec<String> {
    let mut v = vec![s.to_uppercase(), s.to_lowercase(), format!("{}/", s), format!("/{}", s), format!("{} ", s), format!(" {}", s), format!("{}.", s)];
    v.extend([format!("{}\0", s), format!("{}\n", s), format!("{}\u{301}", s), format!("\u{feff}{}", s), format!("{}_", s), format!("{}-", s), format!("{}0", s), format!("{}9", s), format!("{}10", s)]);
    v.push(s.replace('\u{e9}', "e\u{301}").replace('\u{df}', "ss"));
    if let Some((i, _)) = s.char_indices().last() {
        v.push(format!("{}{}", &s[..i], s[i..].to_uppercase()));
        v.push(s[..i].to_string());
        v.push(s.chars().rev().collect());
    }
    v
}

table_key!(Vec<u8>, [u8], odd_bytes(), |k| k.clone(), byte_prefix!(););
table_key!(Box<[u8]>, [u8], byte_strings(b"\0a\x7f\xff").into_iter().map(|x| x.into_boxed_slice()).collect(), |k| k.to_vec(), byte_prefix!(););
table_key!([u8; 4], [u8], {
    let mut v = Vec::new();
    for a in [0u8, b'a', 255] {
        for b in [0u8, b'a', b'b', 255] {
            for c in [0u8, b'a', 128, 255] {
                v.push([a, b, c, b ^ c]);
            }
        }
    }
    v
}, |k| k.to_vec(), byte_prefix!(););
table_key!([u8; 32], [u8], {
    let mut v = Vec::new();
    for a in [0u8, b'a', 255] {
        for b in [0u8, b'a', b'b', 255] {
            for c in [0u8, 1, 128, 255] {
                let mut x = [a; 32];
                x[1] = b;
                x[31] = c;
                v.push(x);
            }
        }
    }
    v
}, |k| k.to_vec(), byte_prefix!(););
table_key!(String, str, {
    let mut v: Vec<String> = Vec::new();
    for s in byte_strings(b"\0ab?") {
        v.push(s.iter().map(|c| if *c == b'?' { '\u{e9}' } else { *c as char }).collect());
    }
    v.extend(odd_strings());
    v
}, |k| k.as_bytes().to_vec(),
    fn prefixes() -> u32 {
        STR_PREFIXES.len() as u32
    }
    fn has_prefix(p: u32, n: u32) -> bool {
        Self::label(n).starts_with(STR_PREFIXES[p as usize % STR_PREFIXES.len()].as_bytes())
    }
    fn prefix_witness<V: AsHashTree + 'static>(t: &RbTree<Self, V>, p: u32) -> Option<HashTree<'_>> {
        Some(t.keys_with_prefix::<str>(STR_PREFIXES[p as usize % STR_PREFIXES.len()]))
    }
    fn map_prefix_witness<V: AsHashTree + 'static>(t: &Map<Self, V>, p: u32) -> Option<HashTree<'_>> {
        Some(t.witness_keys_with_prefix::<str>(STR_PREFIXES[p as usize % STR_PREFIXES.len()]))
    }
    fn max_entry<V: AsHashTree + 'static>(t: &RbTree<Self, V>, p: u32) -> Option<(&Self, &V)> {
        t.max_entry_with_prefix::<str>(STR_PREFIXES[p as usize % STR_PREFIXES.len()])
    }
    fn modify_max<V: AsHashTree + 'static, R>(t: &mut RbTree<Self, V>, p: u32, f: impl FnOnce(&Self, &mut V) -> R) -> Option<R> {
        t.modify_max_with_prefix::<str, R>(STR_PREFIXES[p as usize % STR_PREFIXES.len()], |k, v| f(k, v))
    }
);
table_key!(bool, bool, vec![false, true], |k| vec![*k as u8],);
// Principals of several lengths whose labels ascend in the same order as the principals do.
table_key!(Principal, Principal, {
    let mut v = vec![Principal::management_canister()];
    for i in 0..6u8 {
        v.push(Principal::from_slice(&[i]));
    }
    for i in 0..10u8 {
        v.push(Principal::from_slice(&[10, i * 25]));
    }
    for i in 0..10u8 {
        let mut x = [20 + i; 29];
        x[28] = i;
        v.push(Principal::from_slice(&x));
    }
    v
}, |k| k.as_slice().to_vec(),);

macro_rules! wrapped_key {
    ($($w:ident),*) => {$(
        impl<T: KeyT> KeyT for $w<T> {
            type B = T;
            fn dom() -> u32 {
                T::dom()
            }
            fn mk(n: u32) -> Self {
                $w::new(T::mk(n))
            }
            fn id(&self) -> u32 {
                (**self).id()
            }
            fn label(n: u32) -> Vec<u8> {
                T::label(n)
            }
        }
    )*};
}
wrapped_key!(Box, Rc, Arc);

/// A key made of two parts, the first of which is a prefix in the sense of the library.
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug, Serialize, Deserialize, CandidType)]
pub struct Two<A, B>(pub A, pub B);

impl<A: Label, B: Label> Label for Two<A, B> {
    fn as_label(&self) -> Cow<'_, [u8]> {
        let mut v = self.0.as_label().to_vec();
        v.extend_from_slice(&self.1.as_label());
        Cow::Owned(v)
    }
}
impl<A: Label, B: Label> Borrow<A> for Two<A, B> {
    fn borrow(&self) -> &A {
        &self.0
    }
}
impl<A: Label, B: Label> Prefix<A> for Two<A, B> {}

impl<A: KeyT, B: KeyT> KeyT for Two<A, B> {
    type B = Self;
    fn dom() -> u32 {
        A::dom().min(7) * B::dom()
    }
    fn mk(n: u32) -> Self {
        let n = n % Self::dom();
        Two(A::mk(n / B::dom()), B::mk(n % B::dom()))
    }
    fn id(&self) -> u32 {
        let (a, b) = (self.0.id(), self.1.id());
        if a >= A::dom() || b >= B::dom() {
            return u32::MAX;
        }
        a * B::dom() + b
    }
    fn label(n: u32) -> Vec<u8> {
        let n = n % Self::dom();
        let mut v = A::label(n / B::dom());
        v.extend(B::label(n % B::dom()));
        v
    }
    fn prefixes() -> u32 {
        A::dom().min(7)
    }
    fn has_prefix(p: u32, n: u32) -> bool {
        n % Self::dom() / B::dom() == p % Self::prefixes()
    }
    fn prefix_witness<V: AsHashTree + 'static>(t: &RbTree<Self, V>, p: u32) -> Option<HashTree<'_>> {
        Some(t.keys_with_prefix::<A>(&A::mk(p % Self::prefixes())))
    }
    fn map_prefix_witness<V: AsHashTree + 'static>(t: &Map<Self, V>, p: u32) -> Option<HashTree<'_>> {
        Some(t.witness_keys_with_prefix::<A>(&A::mk(p % Self::prefixes())))
    }
    fn max_entry<V: AsHashTree + 'static>(t: &RbTree<Self, V>, p: u32) -> Option<(&Self, &V)> {
        t.max_entry_with_prefix::<A>(&A::mk(p % Self::prefixes()))
    }
    fn modify_max<V: AsHashTree + 'static, R>(t: &mut RbTree<Self, V>, p: u32, f: impl FnOnce(&Self, &mut V) -> R) -> Option<R> {
        t.modify_max_with_prefix::<A, R>(&A::mk(p % Self::prefixes()), |k, v| f(k, v))
    }
}

/// The instrumented key: counts comparisons, can panic at any call, and tracks its drops.
pub struct TK {
    n: u32,
    token: Token,
    /// Memory of its own, so that a leaked or doubly freed key shows in the allocator as well.
    _heap: Box<u32>,
}

impl TK {
    pub fn new(n: u32) -> TK {
        TK { n, token: Token::new(), _heap: Box::new(n) }
    }
}
impl Clone for TK {
    fn clone(&self) -> Self {
        self.token.used("a key was cloned after it was dropped");
        tick();
        TK::new(self.n)
    }
}
impl PartialEq for TK {
    fn eq(&self, o: &Self) -> bool {
        self.cmp(o) == Ordering::Equal
    }
}
impl Eq for TK {}
impl PartialOrd for TK {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for TK {
    fn cmp(&self, o: &Self) -> Ordering {
        COMPARES.with(|t| t.set(t.get() + 1));
        self.token.used("a key was compared after it was dropped");
        o.token.used("a key was compared after it was dropped");
        tick();
        self.n.cmp(&o.n)
    }
}
impl Label for TK {
    fn as_label(&self) -> Cow<'_, [u8]> {
        self.token.used("the label of a dropped key was taken");
        tick();
        Cow::Owned(self.n.to_be_bytes().to_vec())
    }
}
impl Serialize for TK {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        self.token.used("a key was saved after it was dropped");
        tick();
        item().map_err(serde::ser::Error::custom)?;
        self.n.serialize(s)
    }
}
impl<'de> Deserialize<'de> for TK {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let n = u32::deserialize(d)?;
        tick();
        item().map_err(serde::de::Error::custom)?;
        Ok(TK::new(n))
    }
}
impl CandidType for TK {
    fn _ty() -> candid::types::Type {
        u32::_ty()
    }
    fn idl_serialize<S: candid::types::Serializer>(&self, s: S) -> Result<(), S::Error> {
        self.token.used("a key was saved after it was dropped");
        tick();
        item().map_err(serde::ser::Error::custom)?;
        self.n.idl_serialize(s)
    }
}
impl KeyT for TK {
    type B = TK;
    fn dom() -> u32 {
        1 << 20
    }
    fn mk(n: u32) -> Self {
        TK::new(n % Self::dom())
    }
    fn id(&self) -> u32 {
        self.token.used("a dropped key was read");
        self.n
    }
    fn label(n: u32) -> Vec<u8> {
        be((n % Self::dom()) as u128, 4)
    }
    fn tracked() -> bool {
        true
    }
}

// ---------------------------------------------------------------- values

pub trait LeafT: AsHashTree + 'static {
    fn dom() -> u32;
    fn mk(n: u32) -> Self;
    fn id(&self) -> u32;
    fn bytes(n: u32) -> Vec<u8>;
    /// The number that `id` gives for the value made from `n`.
    fn canon(n: u32) -> u32 {
        n % Self::dom()
    }
    /// What `or_default` stores.
    fn default_id() -> u32 {
        0
    }
    fn or_default<'a, K: KeyT>(e: Entry<'a, K, Self>) -> &'a mut Self
    where
        Self: Sized,
    {
        e.or_insert(Self::mk(Self::default_id()))
    }
    /// The number of tracked objects one value is.
    fn tracked() -> usize {
        0
    }
    fn extend_ref(_s: &mut certified_vars::Seq<Self>, _items: &[u32]) -> bool
    where
        Self: Sized,
    {
        false
    }
    fn from_slice(_items: &[u32]) -> Option<certified_vars::Seq<Self>>
    where
        Self: Sized,
    {
        None
    }
    fn from_mut_slice(_items: &[u32]) -> Option<certified_vars::Seq<Self>>
    where
        Self: Sized,
    {
        None
    }
    fn clone_seq(_s: &certified_vars::Seq<Self>) -> Option<certified_vars::Seq<Self>>
    where
        Self: Sized,
    {
        None
    }
    /// Whether sequences are made from slices of it.
    fn sliced() -> bool {
        false
    }
}

macro_rules! or_default {
    () => {
        fn or_default<'a, K: KeyT>(e: Entry<'a, K, Self>) -> &'a mut Self {
            e.or_default()
        }
    };
}
macro_rules! slices {
    () => {
        fn from_slice(items: &[u32]) -> Option<certified_vars::Seq<Self>> {
            let v: Vec<Self> = items.iter().map(|n| <Self as LeafT>::mk(*n)).collect();
            Some(v.as_slice().into())
        }
        fn from_mut_slice(items: &[u32]) -> Option<certified_vars::Seq<Self>> {
            let mut v: Vec<Self> = items.iter().map(|n| <Self as LeafT>::mk(*n)).collect();
            Some(v.as_mut_slice().into())
        }
        fn clone_seq(s: &certified_vars::Seq<Self>) -> Option<certified_vars::Seq<Self>> {
            Some(s.clone())
        }
        fn sliced() -> bool {
            true
        }
    };
}
macro_rules! copies {
    () => {
        fn extend_ref(s: &mut certified_vars::Seq<Self>, items: &[u32]) -> bool {
            let v: Vec<Self> = items.iter().map(|n| <Self as LeafT>::mk(*n)).collect();
            s.extend(v.iter());
            true
        }
    };
}

macro_rules! table_leaf {
    ($t:ty, $label:expr, $($extra:tt)*) => {
        impl LeafT for $t {
            fn dom() -> u32 {
                <$t as KeyT>::dom()
            }
            fn mk(n: u32) -> Self {
                <$t as KeyT>::mk(n)
            }
            fn id(&self) -> u32 {
                <$t as KeyT>::id(self)
            }
            fn bytes(n: u32) -> Vec<u8> {
                <$t as KeyT>::label(n)
            }
            fn default_id() -> u32 {
                static D: OnceLock<u32> = OnceLock::new();
                *D.get_or_init(|| <$t as KeyT>::id(&Default::default()))
            }
            or_default!();
            slices!();
            $($extra)*
        }
    };
}
macro_rules! num_leaf {
    ($($t:ty),*) => {$( table_leaf!($t, (), copies!();); )*};
}
num_leaf!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize, bool);
table_leaf!(String, (),);
table_leaf!(Vec<u8>, (),);

fn float_table() -> &'static [u64] {
    static T: OnceLock<Vec<u64>> = OnceLock::new();
    T.get_or_init(|| {
        let v = [0.0, -0.0, 1.0, -1.0, 0.5, 1.0e-300, 1.0e300, f64::INFINITY, f64::NEG_INFINITY, f64::MIN_POSITIVE, 5.0e-324, 3.25];
        let mut v: Vec<u64> = v.iter().map(|x| x.to_bits()).collect();
        v.push(0x7ff8_0000_0000_0000);
        v.push(0x7ff8_0000_0000_0001);
        v.push(0xfff8_0000_0000_0000);
        v
    })
}
impl LeafT for f64 {
    fn dom() -> u32 {
        float_table().len() as u32
    }
    fn mk(n: u32) -> Self {
        f64::from_bits(float_table()[n as usize % float_table().len()])
    }
    fn id(&self) -> u32 {
        float_table().iter().position(|x| *x == self.to_bits()).map_or(u32::MAX, |x| x as u32)
    }
    fn bytes(n: u32) -> Vec<u8> {
        be(float_table()[n as usize % float_table().len()] as u128, 8)
    }
    or_default!();
    slices!();
    copies!();
}
const FLOATS: [u32; 8] = [0, 0x8000_0000, 0x3f80_0000, 0xbf80_0000, 0x7f80_0000, 0x7fc0_0000, 0x0000_0001, 0x7fc0_0001];
impl LeafT for f32 {
    fn dom() -> u32 {
        8
    }
    fn mk(n: u32) -> Self {
        f32::from_bits(FLOATS[n as usize % 8])
    }
    fn id(&self) -> u32 {
        FLOATS.iter().position(|x| *x == self.to_bits()).map_or(u32::MAX, |x| x as u32)
    }
    fn bytes(n: u32) -> Vec<u8> {
        be(FLOATS[n as usize % 8] as u128, 4)
    }
    or_default!();
    slices!();
    copies!();
}

impl LeafT for &'static str {
    fn dom() -> u32 {
        6
    }
    fn mk(n: u32) -> Self {
        ["", "a", "ab", "b", "\0", "a longer text than the others, to cross twenty-four bytes"][n as usize % 6]
    }
    fn id(&self) -> u32 {
        (0..6).find(|n| Self::mk(*n) == *self).unwrap_or(u32::MAX)
    }
    fn bytes(n: u32) -> Vec<u8> {
        Self::mk(n).as_bytes().to_vec()
    }
    or_default!();
    slices!();
    copies!();
}
impl LeafT for &'static [u8] {
    fn dom() -> u32 {
        6
    }
    fn mk(n: u32) -> Self {
        [&b""[..], b"a", b"ab", b"b", b"\0", b"\xff\xff\0"][n as usize % 6]
    }
    fn id(&self) -> u32 {
        (0..6).find(|n| Self::mk(*n) == *self).unwrap_or(u32::MAX)
    }
    fn bytes(n: u32) -> Vec<u8> {
        Self::mk(n).to_vec()
    }
    or_default!();
    slices!();
    copies!();
}
impl LeafT for Nat {
    fn dom() -> u32 {
        40
    }
    fn mk(n: u32) -> Self {
        Nat::from(num_table()[(n % 40) as usize])
    }
    fn id(&self) -> u32 {
        (0..40).find(|n| Self::mk(*n) == *self).unwrap_or(u32::MAX)
    }
    fn bytes(n: u32) -> Vec<u8> {
        let v = be(num_table()[(n % 40) as usize], 16);
        let z = v.iter().take_while(|x| **x == 0).count().min(15);
        v[z..].to_vec()
    }
    or_default!();
    slices!();
}
impl LeafT for Principal {
    fn dom() -> u32 {
        <Principal as KeyT>::dom()
    }
    fn mk(n: u32) -> Self {
        <Principal as KeyT>::mk(n)
    }
    fn id(&self) -> u32 {
        <Principal as KeyT>::id(self)
    }
    fn bytes(n: u32) -> Vec<u8> {
        <Principal as KeyT>::label(n)
    }
    slices!();
    copies!();
}
macro_rules! array_leaf {
    ($($n:expr),*) => {$(
        impl LeafT for [u8; $n] {
            fn dom() -> u32 {
                250
            }
            fn mk(n: u32) -> Self {
                let mut x = [0u8; $n];
                x[0] = (n % 250) as u8;
                if $n > 1 {
                    x[$n - 1] = (n % 3) as u8 * 100;
                    x[0] = (n % 250) as u8;
                }
                x
            }
            fn id(&self) -> u32 {
                let n = self[0] as u32;
                if n < 250 && <Self as LeafT>::mk(n) == *self { n } else { u32::MAX }
            }
            fn bytes(n: u32) -> Vec<u8> {
                <Self as LeafT>::mk(n).to_vec()
            }
            or_default!();
            slices!();
            copies!();
        }
    )*};
}
array_leaf!(1, 2, 3, 4, 8, 20, 31, 32);

macro_rules! wrapped_leaf {
    ($($w:ident),*) => {$(
        impl<T: LeafT> LeafT for $w<T> {
            fn dom() -> u32 {
                T::dom()
            }
            fn mk(n: u32) -> Self {
                $w::new(T::mk(n))
            }
            fn id(&self) -> u32 {
                (**self).id()
            }
            fn bytes(n: u32) -> Vec<u8> {
                T::bytes(n)
            }
            fn canon(n: u32) -> u32 {
                T::canon(n)
            }
            fn default_id() -> u32 {
                T::default_id()
            }
            fn tracked() -> usize {
                T::tracked()
            }
        }
    )*};
}
wrapped_leaf!(Box, Rc, Arc);

/// Byte strings, half of them longer than 64 KiB. Long ones differ in one byte near their end.
pub struct Huge(Vec<u8>);
impl AsHashTree for Huge {
    fn root_hash(&self) -> certified_vars::Hash {
        self.0.root_hash()
    }
    fn as_hash_tree(&self) -> HashTree<'_> {
        self.0.as_hash_tree()
    }
}
impl LeafT for Huge {
    fn dom() -> u32 {
        16
    }
    fn mk(n: u32) -> Self {
        Huge(<Self as LeafT>::bytes(n))
    }
    fn id(&self) -> u32 {
        (0..16).find(|n| self.0 == <Self as LeafT>::bytes(*n)).unwrap_or(u32::MAX)
    }
    fn bytes(n: u32) -> Vec<u8> {
        let n = n as usize % 16;
        let len = match n {
            0..=7 => [65_535, 65_536, 65_537, 65_538, 65_537, 65_600, 65_600, 131_080][n],
            _ => n - 8,
        };
        let mut v = vec![0x5A; len];
        if len > 0 {
            v[len - 1] = n as u8;
        }
        v
    }
}

/// Small values of as many types as a group wants.
pub struct Tag<const N: usize>(u32);
impl<const N: usize> AsHashTree for Tag<N> {
    fn as_hash_tree(&self) -> HashTree<'_> {
        HashTree::Leaf(Cow::Owned(vec![N as u8, self.0 as u8]))
    }
}
impl<const N: usize> LeafT for Tag<N> {
    fn dom() -> u32 {
        200
    }
    fn mk(n: u32) -> Self {
        Tag(n % 200)
    }
    fn id(&self) -> u32 {
        self.0
    }
    fn bytes(n: u32) -> Vec<u8> {
        vec![N as u8, (n % 200) as u8]
    }
}

/// The instrumented value.
pub struct TV {
    n: u32,
    token: Token,
    _heap: Box<u32>,
}
impl TV {
    pub fn new(n: u32) -> TV {
        MADE.with(|t| t.set(t.get() + 1));
        TV { n, token: Token::new(), _heap: Box::new(n) }
    }
}
impl Default for TV {
    fn default() -> Self {
        tick();
        TV::new(0)
    }
}
impl Clone for TV {
    fn clone(&self) -> Self {
        self.token.used("a value was cloned after it was dropped");
        tick();
        TV::new(self.n)
    }
}
impl AsHashTree for TV {
    fn as_hash_tree(&self) -> HashTree<'_> {
        self.token.used("the tree of a dropped value was taken");
        HASHED.with(|t| t.set(t.get() + 1));
        tick();
        HashTree::Leaf(Cow::Owned(self.n.to_be_bytes().to_vec()))
    }
}
impl Serialize for TV {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        self.token.used("a value was saved after it was dropped");
        tick();
        item().map_err(serde::ser::Error::custom)?;
        self.n.serialize(s)
    }
}
impl<'de> Deserialize<'de> for TV {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let n = u32::deserialize(d)?;
        tick();
        item().map_err(serde::de::Error::custom)?;
        Ok(TV::new(n))
    }
}
impl CandidType for TV {
    fn _ty() -> candid::types::Type {
        u32::_ty()
    }
    fn idl_serialize<S: candid::types::Serializer>(&self, s: S) -> Result<(), S::Error> {
        self.token.used("a value was saved after it was dropped");
        tick();
        item().map_err(serde::ser::Error::custom)?;
        self.n.idl_serialize(s)
    }
}
impl LeafT for TV {
    fn dom() -> u32 {
        u32::MAX
    }
    fn mk(n: u32) -> Self {
        TV::new(n)
    }
    fn id(&self) -> u32 {
        self.token.used("a dropped value was read");
        self.n
    }
    fn bytes(n: u32) -> Vec<u8> {
        be(n as u128, 4)
    }
    fn or_default<'a, K: KeyT>(e: Entry<'a, K, Self>) -> &'a mut Self {
        e.or_default()
    }
    fn tracked() -> usize {
        1
    }
    fn from_slice(items: &[u32]) -> Option<certified_vars::Seq<Self>> {
        let v: Vec<Self> = items.iter().map(|n| <Self as LeafT>::mk(*n)).collect();
        Some(v.as_slice().into())
    }
    fn from_mut_slice(items: &[u32]) -> Option<certified_vars::Seq<Self>> {
        let mut v: Vec<Self> = items.iter().map(|n| <Self as LeafT>::mk(*n)).collect();
        Some(v.as_mut_slice().into())
    }
    fn sliced() -> bool {
        true
    }
    fn clone_seq(s: &certified_vars::Seq<Self>) -> Option<certified_vars::Seq<Self>> {
        Some(s.clone())
    }
}

// ---------------------------------------------------------------- any key, any value

macro_rules! any {
    (keys: $($kn:ident($kt:ty)),*; values: $($vn:ident($vt:ty)),*) => {
        /// A key of any type the library can label. A run uses keys of one type.
        #[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
        pub enum AK { $($kn($kt)),* }

        impl Label for AK {
            fn as_label(&self) -> Cow<'_, [u8]> {
                match self { $(AK::$kn(k) => k.as_label()),* }
            }
        }
        impl AK {
            fn doms() -> &'static [u32] {
                static D: OnceLock<Vec<u32>> = OnceLock::new();
                D.get_or_init(|| vec![$(<$kt as KeyT>::dom()),*])
            }
            /// The type and the number within it.
            fn split(n: u32) -> (usize, u32) {
                let mut n = n % Self::dom();
                for (i, d) in Self::doms().iter().enumerate() {
                    if n < *d {
                        return (i, n);
                    }
                    n -= d;
                }
                unreachable!()
            }
            fn start(i: usize) -> u32 {
                Self::doms()[..i].iter().sum()
            }
        }
        impl KeyT for AK {
            type B = AK;
            fn dom() -> u32 {
                Self::doms().iter().sum()
            }
            fn mk(n: u32) -> Self {
                let (i, n) = Self::split(n);
                let mut j = 0;
                $(if i == j { return AK::$kn(<$kt as KeyT>::mk(n)); } j += 1;)*
                unreachable!("{}", j)
            }
            fn id(&self) -> u32 {
                let mut j = 0;
                $(if let AK::$kn(k) = self { return match <$kt as KeyT>::id(k) { u32::MAX => u32::MAX, n => Self::start(j) + n }; } j += 1;)*
                unreachable!("{}", j)
            }
            fn label(n: u32) -> Vec<u8> {
                let (i, n) = Self::split(n);
                let mut j = 0;
                $(if i == j { return <$kt as KeyT>::label(n); } j += 1;)*
                unreachable!("{}", j)
            }
            fn span(pool: u32) -> (u32, u32) {
                let i = pool as usize % Self::doms().len();
                (Self::start(i), Self::doms()[i])
            }
            fn ordered() -> bool {
                true $(&& <$kt as KeyT>::ordered())*
            }
        }

        /// A value of any type the library can store as a leaf.
        pub enum AV { $($vn($vt)),* }

        impl AsHashTree for AV {
            fn root_hash(&self) -> certified_vars::Hash {
                match self { $(AV::$vn(v) => v.root_hash()),* }
            }
            fn as_hash_tree(&self) -> HashTree<'_> {
                match self { $(AV::$vn(v) => v.as_hash_tree()),* }
            }
        }
        impl AV {
            fn doms() -> &'static [u32] {
                static D: OnceLock<Vec<u32>> = OnceLock::new();
                D.get_or_init(|| vec![$(<$vt as LeafT>::dom()),*])
            }
            pub fn types() -> u32 {
                Self::doms().len() as u32
            }
        }
        impl LeafT for AV {
            fn dom() -> u32 {
                Self::doms().len() as u32 * 64
            }
            fn mk(n: u32) -> Self {
                // Small numbers visit every type.
                let n = n % Self::dom();
                let i = n as usize % Self::doms().len();
                let n = n / Self::doms().len() as u32;
                let mut j = 0;
                $(if i == j { return AV::$vn(<$vt as LeafT>::mk(n % <$vt as LeafT>::dom())); } j += 1;)*
                unreachable!("{}", j)
            }
            fn id(&self) -> u32 {
                // Wrapping around the values of a type gives several numbers for one value: the lowest
                // is the one that counts.
                let mut j = 0;
                $(if let AV::$vn(v) = self { return match <$vt as LeafT>::id(v) { u32::MAX => u32::MAX, n => n * Self::doms().len() as u32 + j }; } j += 1;)*
                unreachable!("{}", j)
            }
            fn bytes(n: u32) -> Vec<u8> {
                let n = n % Self::dom();
                let i = n as usize % Self::doms().len();
                let n = n / Self::doms().len() as u32;
                let mut j = 0;
                $(if i == j { return <$vt as LeafT>::bytes(n % <$vt as LeafT>::dom()); } j += 1;)*
                unreachable!("{}", j)
            }
            fn canon(n: u32) -> u32 {
                let n = n % Self::dom();
                let len = Self::doms().len() as u32;
                let i = n % len;
                (n / len) % Self::doms()[i as usize] * len + i
            }
        }
    };
}
any! {
    keys: U8(u8), U16(u16), U32(u32), U64(u64), U128(u128), Usize(usize), Bool(bool), Str(String), Bytes(Vec<u8>),
        Slice(Box<[u8]>), A4([u8; 4]), A32([u8; 32]), P(Principal), RcStr(Rc<String>), ArcU16(Arc<u16>), BoxU64(Box<u64>);
    values: U8(u8), U16(u16), U32(u32), U64(u64), U128(u128), Usize(usize), I8(i8), I16(i16), I32(i32), I64(i64),
        I128(i128), Isize(isize), Bool(bool), F32(f32), F64(f64), Str(String), Bytes(Vec<u8>), S(&'static str), B(&'static [u8]),
        N(Nat), P(Principal), A1([u8; 1]), A2([u8; 2]), A3([u8; 3]), A8([u8; 8]), A20([u8; 20]), A31([u8; 31]), A32([u8; 32]),
        BoxStr(Box<String>), RcBytes(Rc<Vec<u8>>), ArcU16(Arc<u16>), H(Huge)
}
macro_rules! by_number {
    ($($t:ident, $tr:ident);*) => {$(
        impl Serialize for $t {
            fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
                <Self as $tr>::id(self).serialize(s)
            }
        }
        impl<'de> Deserialize<'de> for $t {
            fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
                Ok(<Self as $tr>::mk(u32::deserialize(d)?))
            }
        }
        impl CandidType for $t {
            fn _ty() -> candid::types::Type {
                u32::_ty()
            }
            fn idl_serialize<S: candid::types::Serializer>(&self, s: S) -> Result<(), S::Error> {
                <Self as $tr>::id(self).idl_serialize(s)
            }
        }
    )*};
}
by_number!(AK, KeyT; AV, LeafT);

/// The numbers of a generated batch.
pub fn batch(seed: u32, n: u32) -> Vec<u32> {
    let mut r = Rng::new(seed as u64 ^ 0xBA7C);
    (0..n.min(64)).map(|_| r.below(24) as u32).collect()
}
