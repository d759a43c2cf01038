//! The client: an independent implementation of the public hash-tree specification. It shares no code
//! with the library: own CBOR reader, own hashing, own lookup.

use sha2::{Digest, Sha256};
use std::fmt;

pub type H = [u8; 32];

#[derive(Clone, PartialEq, Eq)]
pub enum T {
    Empty,
    Fork(Box<T>, Box<T>),
    Labeled(Vec<u8>, Box<T>),
    Leaf(Vec<u8>),
    Pruned(H),
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

impl fmt::Debug for T {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            T::Empty => write!(f, "E"),
            T::Fork(a, b) => write!(f, "({:?} {:?})", a, b),
            T::Labeled(l, t) => write!(f, "[{}: {:?}]", hex(l), t),
            T::Leaf(b) => write!(f, "'{}'", hex(b)),
            T::Pruned(h) => write!(f, "#{}", hex(&h[..3])),
        }
    }
}

fn sha(parts: &[&[u8]]) -> H {
    let mut h = Sha256::new();
    for p in parts {
        h.update(p);
    }
    h.finalize().into()
}

pub fn leaf(b: &[u8]) -> H {
    sha(&[b"\x10ic-hashtree-leaf", b])
}
pub fn labeled(l: &[u8], h: &H) -> H {
    sha(&[b"\x13ic-hashtree-labeled", l, h])
}
pub fn fork(a: &H, b: &H) -> H {
    sha(&[b"\x10ic-hashtree-fork", a, b])
}
pub fn empty() -> H {
    sha(&[b"\x11ic-hashtree-empty"])
}
/// One step of the running hash of a sequence.
pub fn chain(h: &H, item: &H) -> H {
    sha(&[h, item])
}

impl T {
    pub fn hash(&self) -> H {
        match self {
            T::Empty => empty(),
            T::Fork(a, b) => fork(&a.hash(), &b.hash()),
            T::Labeled(l, t) => labeled(l, &t.hash()),
            T::Leaf(b) => leaf(b),
            T::Pruned(h) => *h,
        }
    }

    /// The elements below this node, from left to right, with the forks taken away.
    pub fn flatten(&self) -> Vec<&T> {
        fn go<'a>(t: &'a T, out: &mut Vec<&'a T>) {
            match t {
                T::Empty => {}
                T::Fork(a, b) => {
                    go(a, out);
                    go(b, out);
                }
                x => out.push(x),
            }
        }
        let mut v = Vec::new();
        go(self, &mut v);
        v
    }

    /// How many parts the tree ends in.
    pub fn leaves(&self) -> usize {
        match self {
            T::Empty => 0,
            T::Fork(a, b) => a.leaves() + b.leaves(),
            T::Labeled(_, t) => t.leaves(),
            _ => 1,
        }
    }

    /// The labels and values shown, from left to right.
    pub fn shown<'a>(&'a self, labels: &mut Vec<&'a Vec<u8>>, leaves: &mut Vec<&'a Vec<u8>>) {
        match self {
            T::Fork(a, b) => {
                a.shown(labels, leaves);
                b.shown(labels, leaves);
            }
            T::Labeled(l, t) => {
                labels.push(l);
                t.shown(labels, leaves);
            }
            T::Leaf(b) => leaves.push(b),
            T::Empty | T::Pruned(_) => {}
        }
    }

    /// The number of nested forks.
    pub fn depth(&self) -> usize {
        match self {
            T::Fork(a, b) => 1 + a.depth().max(b.depth()),
            _ => 0,
        }
    }

    /// All forks down to the next labels; at least as many as they are deep.
    pub fn forks(&self) -> usize {
        match self {
            T::Fork(a, b) => 1 + a.forks() + b.forks(),
            _ => 0,
        }
    }

    pub fn encode(&self) -> Vec<u8> {
        fn head(out: &mut Vec<u8>, major: u8, n: usize) {
            if n < 24 {
                out.push(major << 5 | n as u8);
            } else if n < 256 {
                out.extend([major << 5 | 24, n as u8]);
            } else if n < 65536 {
                out.push(major << 5 | 25);
                out.extend((n as u16).to_be_bytes());
            } else {
                out.push(major << 5 | 26);
                out.extend((n as u32).to_be_bytes());
            }
        }
        fn bytes(out: &mut Vec<u8>, b: &[u8]) {
            head(out, 2, b.len());
            out.extend(b);
        }
        fn go(t: &T, out: &mut Vec<u8>) {
            match t {
                T::Empty => out.extend([0x81, 0]),
                T::Fork(a, b) => {
                    out.extend([0x83, 1]);
                    go(a, out);
                    go(b, out);
                }
                T::Labeled(l, t) => {
                    out.extend([0x83, 2]);
                    bytes(out, l);
                    go(t, out);
                }
                T::Leaf(b) => {
                    out.extend([0x82, 3]);
                    bytes(out, b);
                }
                T::Pruned(h) => {
                    out.extend([0x82, 4]);
                    bytes(out, h);
                }
            }
        }
        let mut v = Vec::new();
        go(self, &mut v);
        v
    }
}

// ---------------------------------------------------------------- CBOR

struct Rd<'a> {
    b: &'a [u8],
    i: usize,
}

impl<'a> Rd<'a> {
    fn byte(&mut self) -> Result<u8, String> {
        let x = *self.b.get(self.i).ok_or("input ends early")?;
        self.i += 1;
        Ok(x)
    }
    fn take(&mut self, n: usize) -> Result<&'a [u8], String> {
        if n > self.b.len() - self.i {
            return Err("input ends early".into());
        }
        let r = &self.b[self.i..self.i + n];
        self.i += n;
        Ok(r)
    }
    fn head(&mut self) -> Result<(u8, u64), String> {
        let x = self.byte()?;
        let n = match x & 31 {
            n @ 0..=23 => n as u64,
            24 => self.byte()? as u64,
            25 => u16::from_be_bytes(self.take(2)?.try_into().unwrap()) as u64,
            26 => u32::from_be_bytes(self.take(4)?.try_into().unwrap()) as u64,
            27 => u64::from_be_bytes(self.take(8)?.try_into().unwrap()),
            _ => return Err("indefinite length or reserved head".into()),
        };
        Ok((x >> 5, n))
    }
    fn bytes(&mut self) -> Result<Vec<u8>, String> {
        match self.head()? {
            (2, n) => Ok(self.take(n as usize)?.to_vec()),
            (m, _) => Err(format!("expected a byte string, found major type {}", m)),
        }
    }
    fn tree(&mut self, depth: usize) -> Result<T, String> {
        if depth > 4000 {
            return Err("tree too deep".into());
        }
        let (m, n) = self.head()?;
        if m == 6 {
            return self.tree(depth + 1);
        }
        if m != 4 {
            return Err(format!("expected an array, found major type {}", m));
        }
        let (km, k) = self.head()?;
        if km != 0 {
            return Err("expected a node kind".into());
        }
        match (k, n) {
            (0, 1) => Ok(T::Empty),
            (1, 3) => Ok(T::Fork(Box::new(self.tree(depth + 1)?), Box::new(self.tree(depth + 1)?))),
            (2, 3) => Ok(T::Labeled(self.bytes()?, Box::new(self.tree(depth + 1)?))),
            (3, 2) => Ok(T::Leaf(self.bytes()?)),
            (4, 2) => {
                let b = self.bytes()?;
                Ok(T::Pruned(b.as_slice().try_into().map_err(|_| "hash of the wrong size".to_string())?))
            }
            _ => Err(format!("node kind {} with {} elements", k, n)),
        }
    }
}

pub fn parse(b: &[u8]) -> Result<T, String> {
    let mut r = Rd { b, i: 0 };
    let t = r.tree(0)?;
    if r.i != b.len() {
        return Err("bytes after the tree".into());
    }
    Ok(t)
}

// ---------------------------------------------------------------- lookup

pub enum Found<'a> {
    Absent,
    Unknown,
    Tree(&'a T),
}

/// `find_label` of the specification.
pub fn find_label<'a>(l: &[u8], t: &'a T) -> Found<'a> {
    find_in(l, &t.flatten())
}

/// The same among the elements of a tree.
pub fn find_in<'a>(l: &[u8], v: &[&'a T]) -> Found<'a> {
    for x in v {
        if let T::Labeled(x, t) = x {
            if x.as_slice() == l {
                return Found::Tree(t);
            }
        }
    }
    if v.is_empty() {
        return Found::Absent;
    }
    if let [T::Leaf(_)] = v {
        return Found::Absent;
    }
    let lab = |x: &'a T| match x {
        T::Labeled(l, _) => Some(l.as_slice()),
        _ => None,
    };
    if let Some(first) = lab(v[0]) {
        if l < first {
            return Found::Absent;
        }
    }
    if let Some(last) = lab(v[v.len() - 1]) {
        if last < l {
            return Found::Absent;
        }
    }
    for w in v.windows(2) {
        if let (Some(a), Some(b)) = (lab(w[0]), lab(w[1])) {
            if a < l && l < b {
                return Found::Absent;
            }
        }
    }
    Found::Unknown
}

/// `find_in` for many labels, the same answers sooner.
pub struct Finder<'a> {
    v: Vec<&'a T>,
    /// The labels and where they are, when they ascend.
    at: Option<Vec<(&'a [u8], usize)>>,
}

impl<'a> Finder<'a> {
    pub fn new(v: Vec<&'a T>) -> Self {
        let at: Vec<(&'a [u8], usize)> = v
            .iter()
            .enumerate()
            .filter_map(|(i, x)| match x {
                T::Labeled(l, _) => Some((l.as_slice(), i)),
                _ => None,
            })
            .collect();
        let ascend = at.windows(2).all(|w| w[0].0 < w[1].0);
        Finder { v, at: ascend.then_some(at) }
    }
    pub fn parts(&self) -> &[&'a T] {
        &self.v
    }
    pub fn find(&self, l: &[u8]) -> Found<'a> {
        let at = match &self.at {
            Some(at) if !at.is_empty() => at,
            _ => return find_in(l, &self.v),
        };
        let i = at.partition_point(|x| x.0 < l);
        if i < at.len() && at[i].0 == l {
            if let T::Labeled(_, t) = self.v[at[i].1] {
                return Found::Tree(t);
            }
        }
        // Next to what it would be?
        let closed = if i == 0 {
            at[0].1 == 0
        } else if i == at.len() {
            at[i - 1].1 == self.v.len() - 1
        } else {
            at[i - 1].1 + 1 == at[i].1
        };
        if closed {
            Found::Absent
        } else {
            Found::Unknown
        }
    }
}

/// `lookup_path` up to the subtree found.
pub fn lookup<'a>(path: &[Vec<u8>], t: &'a T) -> Found<'a> {
    let mut t = t;
    for l in path {
        match find_label(l, t) {
            Found::Tree(x) => t = x,
            other => return other,
        }
    }
    Found::Tree(t)
}
