//! What a certified state contains, what a query must prove about it, and the checks a client (and the
//! auditor who knows the truth) makes on an answer.

use crate::spec::{self, find_label, Finder, Found, H, T};

/// The contents of a certified collection, as the model sees them. Maps list their entries in key order.
#[derive(Clone, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum C {
    Leaf(Vec<u8>),
    Map(Vec<(Vec<u8>, C)>),
    Seq(Vec<C>),
    /// Contents that nothing is known about.
    Any,
}

impl C {
    /// The root, for the contents whose root does not depend on the shape of a tree.
    pub fn digest(&self) -> H {
        match self {
            C::Leaf(b) => spec::leaf(b),
            C::Seq(v) => v.iter().fold([0; 32], |h, x| spec::chain(&h, &x.digest())),
            C::Map(_) | C::Any => unreachable!("the root of a map depends on its shape"),
        }
    }
    pub fn get(&self, l: &[u8]) -> Option<&C> {
        match self {
            C::Map(v) => v.iter().find(|(k, _)| k == l).map(|(_, c)| c),
            _ => None,
        }
    }
}

/// What the answer to a query has to show.
#[derive(Clone, Debug)]
pub enum Exp {
    /// Everything below this point.
    Full,
    /// One label, and below it the rest. When the label is not stored: a proof of that.
    Path(Vec<u8>, Box<Exp>),
    /// The entries `lo..hi` of the map at this point, in key order.
    /// `lo_stored`/`hi_stored`: the end of the range is itself a stored key, so that listing it closes
    /// the range on that side.
    List { lo: usize, hi: usize, values: bool, lo_stored: bool, hi_stored: bool },
    /// That `last` is the last page and `next` does not exist.
    LastPage { next: Vec<u8>, last: Option<Vec<u8>> },
    /// Several members of a group.
    Group(Vec<(Vec<Vec<u8>>, Exp)>),
}

/// Which guarantee an answer is about.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Class {
    Present,
    Absent,
    List,
    Group,
}

pub fn class(c: &C, e: &Exp) -> Class {
    match e {
        Exp::Full => Class::Present,
        Exp::Path(l, rest) => match c.get(l) {
            Some(c) => class(c, rest),
            None => Class::Absent,
        },
        Exp::List { .. } => Class::List,
        Exp::LastPage { .. } => Class::Absent,
        Exp::Group(_) => Class::Group,
    }
}

fn show(l: &[u8]) -> String {
    if l.len() > 20 {
        format!("{}..({} bytes)", spec::hex(&l[..8]), l.len())
    } else {
        spec::hex(l)
    }
}

/// The whole of `c`, nothing more and nothing less, in order.
pub fn full(t: &T, c: &C) -> Result<(), String> {
    match c {
        C::Any => Ok(()),
        C::Leaf(b) => match t {
            T::Leaf(x) if x == b => Ok(()),
            _ => Err(format!("expected the value {}, found {:?}", show(b), t)),
        },
        C::Seq(_) => match t {
            T::Pruned(h) if *h == c.digest() => Ok(()),
            _ => Err(format!("expected the hash of a sequence, {}, found {:?}", spec::hex(&c.digest()[..3]), t)),
        },
        C::Map(v) => {
            let f = t.flatten();
            for (i, x) in f.iter().enumerate() {
                match (x, v.get(i)) {
                    (T::Labeled(l, t), Some((k, c))) if l == k => full(t, c).map_err(|e| format!("under {}: {}", show(k), e))?,
                    (_, Some((k, _))) => return Err(format!("entry {}: expected label {}, found {:?}", i, show(k), x)),
                    (_, None) => return Err(format!("{} entries expected, and then {:?}", v.len(), x)),
                }
            }
            if f.len() < v.len() {
                return Err(format!("{} entries instead of {}", f.len(), v.len()));
            }
            Ok(())
        }
    }
}

fn pruned(t: &T) -> bool {
    matches!(t, T::Pruned(_))
}

/// Check a witness against the contents it is about: it shows everything the query asked for, and
/// nothing else. Hashes are checked by the caller.
///
/// `ordered` tells whether the labels at the level in question ascend with the keys, without which an
/// absence cannot be seen by a client.
pub fn check(t: &T, c: &C, e: &Exp, ordered: bool) -> Result<(), String> {
    match e {
        Exp::Full => full(t, c),
        Exp::Path(l, rest) => {
            let v = match c {
                C::Map(v) => v,
                _ => return Err("harness: a path below something that is not a map".into()),
            };
            let f = t.flatten();
            match v.iter().position(|(k, _)| k == l) {
                Some(i) => {
                    let mut seen = false;
                    for x in &f {
                        match x {
                            T::Labeled(k, t) if k == l => {
                                if seen {
                                    return Err(format!("label {} twice", show(l)));
                                }
                                seen = true;
                                check(t, &v[i].1, rest, ordered).map_err(|e| format!("under {}: {}", show(l), e))?;
                            }
                            T::Pruned(_) => {}
                            T::Labeled(k, _) => return Err(format!("label {} is shown for a query of {}", show(k), show(l))),
                            T::Leaf(b) => return Err(format!("value {} is shown outside the path of {}", show(b), show(l))),
                            _ => {}
                        }
                    }
                    if !seen {
                        return Err(format!("label {} is stored and not in the witness: {:?}", show(l), t));
                    }
                    Ok(())
                }
                None => absent(&f, t, v, l, ordered),
            }
        }
        Exp::List { lo, hi, values, lo_stored, hi_stored } => {
            let v = match c {
                C::Map(v) => v,
                _ => return Err("harness: a list of something that is not a map".into()),
            };
            list(&t.flatten(), v, *lo, *hi, *values)?;
            list_closed(t, v, *lo, *hi, *lo_stored, *hi_stored)
        }
        Exp::LastPage { next, last } => {
            let v = match c {
                C::Map(v) => v,
                _ => return Err("harness: pages of something that is not a map".into()),
            };
            absent(&t.flatten(), t, v, next, ordered)?;
            if let Some(last) = last {
                match find_label(last, t) {
                    Found::Tree(T::Pruned(_)) => {}
                    _ => return Err(format!("the last page {} is not shown", show(last))),
                }
            }
            Ok(())
        }
        Exp::Group(sel) => group(t, c, sel, ordered),
    }
}

fn absent(f: &[&T], t: &T, v: &[(Vec<u8>, C)], l: &[u8], ordered: bool) -> Result<(), String> {
    if ordered {
        match find_label(l, t) {
            Found::Absent => {}
            Found::Unknown => return Err(format!("the absence of {} cannot be concluded from {:?}", show(l), t)),
            Found::Tree(_) => return Err(format!("{} is not stored and yet found", show(l))),
        }
    }
    // Only the stored neighbours may show, without their values.
    let below = v.iter().filter(|(k, _)| k.as_slice() < l).map(|(k, _)| k).max();
    let above = v.iter().filter(|(k, _)| k.as_slice() > l).map(|(k, _)| k).min();
    let mut shown = 0;
    for x in f {
        match x {
            T::Pruned(_) => {}
            T::Labeled(k, x) => {
                shown += 1;
                if !pruned(x) {
                    return Err(format!("the value of {} is shown by a proof of absence", show(k)));
                }
                if ordered && Some(k) != below && Some(k) != above {
                    return Err(format!("{} is shown by a proof that {} is absent and is not next to it", show(k), show(l)));
                }
                if !v.iter().any(|(s, _)| s == k) {
                    return Err(format!("{} is shown and not stored", show(k)));
                }
            }
            other => return Err(format!("{:?} in a proof of absence", other)),
        }
    }
    if shown > 2 {
        return Err(format!("{} labels are shown by a proof of absence", shown));
    }
    Ok(())
}

fn list(f: &[&T], v: &[(Vec<u8>, C)], lo: usize, hi: usize, values: bool) -> Result<(), String> {
    let label = |x: &T| match x {
        T::Labeled(l, _) => Some(l.clone()),
        _ => None,
    };
    let shown: Vec<usize> = (0..f.len()).filter(|i| label(f[*i]).is_some()).collect();
    for x in f {
        if !matches!(x, T::Labeled(..) | T::Pruned(_)) {
            return Err(format!("{:?} in a list", x));
        }
    }
    if shown.is_empty() {
        if v.is_empty() && f.is_empty() {
            return Ok(());
        }
        return Err(format!("nothing is listed; {} entries are stored, {} in range", v.len(), hi - lo));
    }
    // The entries listed are consecutive entries of the map, with at most one more on either side.
    let first = label(f[shown[0]]).unwrap();
    let start = match v.iter().position(|(k, _)| *k == first) {
        Some(i) => i,
        None => return Err(format!("{} is listed and not stored", show(&first))),
    };
    let end = start + shown.len();
    for (n, i) in shown.iter().enumerate() {
        let l = label(f[*i]).unwrap();
        match v.get(start + n) {
            Some((k, _)) if *k == l => {}
            Some((k, _)) => return Err(format!("{} is listed where {} is next", show(&l), show(k))),
            None => return Err(format!("{} is listed after the last entry", show(&l))),
        }
    }
    if start > lo || end < hi {
        return Err(format!("entries {}..{} are listed, and {}..{} are in range", start, end, lo, hi));
    }
    if start + 1 < lo || end > hi + 1 {
        return Err(format!("entries {}..{} are listed, and only {}..{} are in range", start, end, lo, hi));
    }
    // Nothing may hide between the listed entries, nor between them and the ends of the range.
    let (a, b) = (shown[0], shown[shown.len() - 1]);
    if b - a + 1 != shown.len() {
        return Err("something is hidden between the listed entries".into());
    }
    for (n, i) in shown.iter().enumerate() {
        let at = start + n;
        if let T::Labeled(l, t) = f[*i] {
            if at >= lo && at < hi && values {
                full(t, &v[at].1).map_err(|e| format!("under {}: {}", show(l), e))?;
            } else if !pruned(t) {
                return Err(format!("the value of {} is shown", show(l)));
            }
        }
    }
    Ok(())
}

/// Whether a client can see that nothing is missing at the two ends of a list.
fn list_closed(t: &T, v: &[(Vec<u8>, C)], lo: usize, hi: usize, lo_stored: bool, hi_stored: bool) -> Result<(), String> {
    let f = t.flatten();
    if v.is_empty() {
        return Ok(());
    }
    let first = f.iter().position(|x| matches!(x, T::Labeled(..)));
    let last = f.iter().rposition(|x| matches!(x, T::Labeled(..)));
    let (first, last) = match (first, last) {
        (Some(a), Some(b)) => (a, b),
        _ => return Err("nothing is listed".into()),
    };
    let at = |i: usize| match f[i] {
        T::Labeled(l, _) => v.iter().position(|(k, _)| k == l).unwrap_or(usize::MAX),
        _ => usize::MAX,
    };
    if first != 0 && !(at(first) < lo || (lo_stored && at(first) == lo)) {
        return Err("entries could be hidden below the first one listed".into());
    }
    if last != f.len() - 1 && !((at(last) != usize::MAX && at(last) >= hi) || (hi_stored && hi > 0 && at(last) == hi - 1)) {
        return Err("entries could be hidden above the last one listed".into());
    }
    Ok(())
}

fn group(t: &T, c: &C, sel: &[(Vec<Vec<u8>>, Exp)], ordered: bool) -> Result<(), String> {
    if sel.is_empty() {
        return if pruned(t) { Ok(()) } else { Err(format!("nothing was selected and yet {:?} is shown", t)) };
    }
    if sel.len() == 1 && sel[0].0.is_empty() {
        return check(t, c, &sel[0].1, ordered);
    }
    let v = match c {
        C::Map(v) => v,
        _ => return Err("harness: a group that is not a directory".into()),
    };
    let mut want: Vec<(Vec<u8>, Vec<(Vec<Vec<u8>>, Exp)>)> = Vec::new();
    for (p, e) in sel {
        let (l, rest) = (p[0].clone(), p[1..].to_vec());
        match want.iter_mut().find(|w| w.0 == l) {
            Some(w) => w.1.push((rest, e.clone())),
            None => want.push((l, vec![(rest, e.clone())])),
        }
    }
    let f = t.flatten();
    let mut seen = Vec::new();
    for x in &f {
        match x {
            T::Pruned(_) => {}
            T::Labeled(l, t) => {
                if seen.contains(l) {
                    return Err(format!("label {} twice", show(l)));
                }
                match (want.iter().find(|w| w.0 == *l), v.iter().find(|(k, _)| k == l)) {
                    (Some(w), Some((_, c))) => group(t, c, &w.1, ordered).map_err(|e| format!("under {}: {}", show(l), e))?,
                    (None, Some(_)) => {
                        // On the way to a selected member a sibling may show its label when it has to share a
                        // fork with it, but nothing below.
                        if !pruned(t) {
                            return Err(format!("member {} was not selected and is shown", show(l)));
                        }
                        return Err(format!("the label of {} is shown and it was not selected", show(l)));
                    }
                    _ => return Err(format!("{} is not in the group", show(l))),
                }
                seen.push(l.clone());
            }
            other => return Err(format!("{:?} in a directory", other)),
        }
    }
    for w in &want {
        if !seen.contains(&w.0) {
            return Err(format!("selected {} is not shown", show(&w.0)));
        }
    }
    if seen.windows(2).any(|w| w[0] >= w[1]) {
        return Err("the labels do not ascend".into());
    }
    Ok(())
}

/// Whether everything a client concludes from `t` (whose hash it has checked) is true of `c`.
/// `probes` are extra labels to ask for at every level.
pub fn sound(t: &T, c: &C, probes: &[Vec<u8>], ordered: bool) -> Result<(), String> {
    if pruned(t) {
        if let (T::Pruned(h), C::Seq(_) | C::Leaf(_)) = (t, c) {
            if *h != c.digest() {
                return Err("the hash shown for a value is not its hash".into());
            }
        }
        return Ok(());
    }
    match c {
        C::Any => Ok(()),
        C::Leaf(b) => match t {
            T::Leaf(x) if x == b => Ok(()),
            _ => Err(format!("a client is shown {:?} where the value {} is stored", t, show(b))),
        },
        C::Seq(_) => Err(format!("a client is shown {:?} where a sequence is stored", t)),
        C::Map(v) => {
            let f = Finder::new(t.flatten());
            let by_label: std::collections::BTreeMap<&[u8], &C> = v.iter().rev().map(|(l, c)| (l.as_slice(), c)).collect();
            for x in f.parts() {
                match x {
                    T::Labeled(l, t) => match by_label.get(l.as_slice()) {
                        None => return Err(format!("a client is shown {}, which is not stored", show(l))),
                        Some(c) => sound(t, c, probes, ordered).map_err(|e| format!("under {}: {}", show(l), e))?,
                    },
                    T::Leaf(b) => return Err(format!("a client is shown a value {} where a map is stored", show(b))),
                    _ => {}
                }
            }
            if ordered {
                for (l, _) in v {
                    if let Found::Absent = f.find(l) {
                        return Err(format!("a client concludes that {} is absent, and it is stored; shown: {:?}", show(l), t));
                    }
                }
            }
            for l in probes {
                if let (Found::Tree(_), None) = (f.find(l), by_label.get(l.as_slice())) {
                    return Err(format!("a client finds {}, which is not stored", show(l)));
                }
            }
            Ok(())
        }
    }
}

/// The labels of every map in `t` ascend.
pub fn ascending(t: &T) -> Result<(), String> {
    let f = t.flatten();
    let mut last: Option<&Vec<u8>> = None;
    for x in f {
        if let T::Labeled(l, t) = x {
            if let Some(p) = last {
                if p >= l {
                    return Err(format!("label {} comes after {}", show(l), show(p)));
                }
            }
            last = Some(l);
            ascending(t)?;
        }
    }
    Ok(())
}
