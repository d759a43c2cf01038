//! What an untrusted relay can do to an answer on its way to the client.

use crate::rng::Rng;
use crate::spec::{self, T};
use certified_vars::hashtree::{fork, HashTree};
use serde::{Deserialize, Serialize};
use std::borrow::Cow;

#[derive(Clone, Copy, PartialEq, Debug, Serialize, Deserialize)]
pub enum How {
    Flip,
    Truncate,
    Insert,
    Splice,
    Replay,
    Prune,
    Reveal,
    Graft,
    Swap,
    Relabel,
    Retype,
    Value,
    Wrap,
    Drop,
    Duplicate,
}
pub const ALL: [How; 15] = [
    How::Flip,
    How::Truncate,
    How::Insert,
    How::Splice,
    How::Replay,
    How::Prune,
    How::Reveal,
    How::Graft,
    How::Swap,
    How::Relabel,
    How::Retype,
    How::Value,
    How::Wrap,
    How::Drop,
    How::Duplicate,
];

fn nodes(t: &T) -> usize {
    1 + match t {
        T::Fork(a, b) => nodes(a) + nodes(b),
        T::Labeled(_, t) => nodes(t),
        _ => 0,
    }
}

/// Change the `i`-th node.
fn at(t: &mut T, i: &mut usize, f: &mut dyn FnMut(&mut T)) -> bool {
    if *i == 0 {
        f(t);
        return true;
    }
    *i -= 1;
    match t {
        T::Fork(a, b) => at(a, i, f) || at(b, i, f),
        T::Labeled(_, t) => at(t, i, f),
        _ => false,
    }
}

fn pick(t: &T, r: &mut Rng) -> T {
    let mut i = r.below(nodes(t) as u64) as usize;
    let mut t = t.clone();
    let mut out = None;
    at(&mut t, &mut i, &mut |x| out = Some(x.clone()));
    out.unwrap_or(T::Empty)
}

fn bytes(r: &mut Rng, old: &[u8]) -> Vec<u8> {
    let mut v = old.to_vec();
    match r.below(6) {
        0 => v.push(r.below(256) as u8),
        1 => {
            v.pop();
        }
        2 => v.insert(0, 0),
        3 => v.clear(),
        _ => {
            if v.is_empty() {
                v.push(0)
            } else {
                let i = r.below(v.len() as u64) as usize;
                v[i] ^= 1 << r.below(8);
            }
        }
    }
    v
}

/// Another tree that an encoding without separate domains could confuse with this one.
fn retype(t: &T, r: &mut Rng) -> T {
    let cat = |a: &[u8], b: &[u8]| [a, b].concat();
    match t {
        T::Fork(a, b) => match r.below(4) {
            0 => T::Leaf(cat(&a.hash(), &b.hash())),
            1 => T::Labeled(a.hash().to_vec(), b.clone()),
            2 => T::Fork(b.clone(), a.clone()),
            _ => T::Leaf(cat(b"\x10ic-hashtree-fork", &cat(&a.hash(), &b.hash()))),
        },
        T::Labeled(l, x) => match r.below(5) {
            0 => T::Leaf(cat(l, &x.hash())),
            1 => (**x).clone(),
            2 => T::Labeled(Vec::new(), Box::new(T::Leaf(cat(l, &x.hash())))),
            3 if l.len() >= 32 => T::Fork(Box::new(T::Pruned(l[..32].try_into().unwrap())), x.clone()),
            _ => T::Leaf(cat(b"\x13ic-hashtree-labeled", &cat(l, &x.hash()))),
        },
        T::Leaf(b) => match r.below(5) {
            0 if b.len() == 32 => T::Pruned(b.as_slice().try_into().unwrap()),
            1 if b.len() == 64 => T::Fork(
                Box::new(T::Pruned(b[..32].try_into().unwrap())),
                Box::new(T::Pruned(b[32..].try_into().unwrap())),
            ),
            2 if b.len() >= 32 => {
                let n = b.len() - 32;
                T::Labeled(b[..n].to_vec(), Box::new(T::Pruned(b[n..].try_into().unwrap())))
            }
            3 => T::Leaf(spec::leaf(b).to_vec()),
            _ => T::Labeled(b.clone(), Box::new(T::Empty)),
        },
        T::Pruned(h) => match r.below(3) {
            0 => T::Leaf(h.to_vec()),
            1 => T::Labeled(h.to_vec(), Box::new(T::Empty)),
            _ => T::Empty,
        },
        T::Empty => match r.below(2) {
            0 => T::Leaf(Vec::new()),
            _ => T::Leaf(b"\x11ic-hashtree-empty".to_vec()),
        },
    }
}

/// Alter an answer. `seen` are other answers the relay has passed on.
pub fn alter(how: How, r: &mut Rng, b: &[u8], seen: &[Vec<u8>]) -> Vec<u8> {
    let other = |r: &mut Rng| if seen.is_empty() { b.to_vec() } else { r.pick(seen).clone() };
    match how {
        How::Flip => {
            let mut v = b.to_vec();
            for _ in 0..r.range(1, 3) {
                if !v.is_empty() {
                    let i = r.below(v.len() as u64) as usize;
                    v[i] ^= 1 << r.below(8);
                }
            }
            return v;
        }
        How::Truncate => return b[..r.below(b.len() as u64) as usize].to_vec(),
        How::Insert => {
            let mut v = b.to_vec();
            let i = r.below(v.len() as u64 + 1) as usize;
            v.insert(i, r.below(256) as u8);
            return v;
        }
        How::Splice => {
            let o = other(r);
            let i = r.below(b.len() as u64 + 1) as usize;
            let j = r.below(o.len() as u64 + 1) as usize;
            return [&b[..i], &o[j..]].concat();
        }
        How::Replay => return other(r),
        _ => {}
    }
    let mut t = match spec::parse(b) {
        Ok(t) => t,
        Err(_) => return b.to_vec(),
    };
    // Places of interest: every node, with a preference for the ones the change can apply to.
    for _ in 0..8 {
        let mut i = r.below(nodes(&t) as u64) as usize;
        let mut done = false;
        let donor = spec::parse(&other(r)).map(|t| pick(&t, r)).unwrap_or(T::Empty);
        at(&mut t, &mut i, &mut |x| {
            let new = match (how, &mut *x) {
                (How::Prune, x) => T::Pruned(x.hash()),
                (How::Reveal, T::Pruned(_)) => donor.clone(),
                (How::Graft, _) => donor.clone(),
                (How::Swap, T::Fork(a, b)) => T::Fork(b.clone(), a.clone()),
                (How::Relabel, T::Labeled(l, y)) => T::Labeled(bytes(r, l), y.clone()),
                (How::Value, T::Leaf(b)) => T::Leaf(bytes(r, b)),
                (How::Retype, y) => retype(y, r),
                (How::Wrap, y) => match r.below(4) {
                    0 => T::Fork(Box::new(y.clone()), Box::new(T::Empty)),
                    1 => T::Fork(Box::new(T::Empty), Box::new(y.clone())),
                    2 => T::Labeled(Vec::new(), Box::new(y.clone())),
                    _ => T::Fork(Box::new(y.clone()), Box::new(donor.clone())),
                },
                (How::Drop, T::Fork(a, b)) => {
                    if r.chance(1, 2) {
                        (**a).clone()
                    } else {
                        (**b).clone()
                    }
                }
                (How::Drop, T::Labeled(_, _)) => T::Empty,
                (How::Duplicate, T::Fork(a, b)) => {
                    if r.chance(1, 2) {
                        T::Fork(a.clone(), a.clone())
                    } else {
                        T::Fork(b.clone(), b.clone())
                    }
                }
                _ => return,
            };
            *x = new;
            done = true;
        });
        if done {
            break;
        }
    }
    t.encode()
}

/// The same tree as a value of the library's own type, for a client that verifies with the library.
pub fn to_lib(t: &T) -> HashTree<'static> {
    match t {
        T::Empty => HashTree::Empty,
        T::Fork(a, b) => fork(to_lib(a), to_lib(b)),
        T::Labeled(l, t) => HashTree::Labeled(Cow::Owned(l.clone()), Box::new(to_lib(t))),
        T::Leaf(b) => HashTree::Leaf(Cow::Owned(b.clone())),
        T::Pruned(h) => HashTree::Pruned(*h),
    }
}
