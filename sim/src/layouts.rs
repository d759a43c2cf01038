//! Groups that are put together from lists of members, some of which cannot be a group at all.

use crate::coll::{names, build_group, group_model, Gen, GroupModel, GroupSub, Mem, Mo, Model, Op, Re, Real, Q, QK, INNER, MEMBERS};
use crate::engine::*;
use crate::rng::{mix, Rng};
use crate::seams;
use crate::spec::{self, Found};
use crate::types;
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Layouts {
    pub seed: u64,
    pub gen: Gen,
    pub attempts: Vec<Attempt>,
}

/// One group that is attempted.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Attempt {
    pub members: Vec<Mem>,
    /// What is done with the group, when there is one.
    #[serde(default)]
    pub steps: Vec<Step>,
    /// Selects the order in which the members are given to another builder.
    #[serde(default)]
    pub order: u64,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Step {
    Op(Op),
    Read(Q),
    /// Ask for a member of a kind that may not be there.
    Ask { kind: usize, how: u32 },
}

/// Ways in which a list of members cannot be a group.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Flaw {
    /// The same type twice.
    Type,
    /// The same path twice.
    Path,
    /// A path that goes on where another one ends.
    Through,
    /// A path that ends where another one goes on.
    Short,
    /// A path of no parts.
    NoPath,
    /// No members.
    Nothing,
}
const FLAWS: [Flaw; 6] = [Flaw::Type, Flaw::Path, Flaw::Through, Flaw::Short, Flaw::NoPath, Flaw::Nothing];

fn starts<T: PartialEq>(a: &[T], b: &[T]) -> bool {
    a.starts_with(b)
}

/// Why a list of members cannot be a group.
fn flaw(ms: &[Mem]) -> Option<Flaw> {
    if ms.is_empty() {
        return Some(Flaw::Nothing);
    }
    for (n, m) in ms.iter().enumerate() {
        if m.path.is_empty() {
            return Some(Flaw::NoPath);
        }
        for o in &ms[..n] {
            if m.kind == o.kind {
                return Some(Flaw::Type);
            }
            if m.path == o.path {
                return Some(Flaw::Path);
            }
            if starts(&m.path, &o.path) {
                return Some(Flaw::Through);
            }
            if starts(&o.path, &m.path) {
                return Some(Flaw::Short);
            }
        }
    }
    None
}

fn name(r: &mut Rng, names: &[String], few: u64, many: bool) -> String {
    if many && r.chance(7, 8) {
        return format!("{}{}", (b'a' + r.below(6) as u8) as char, r.below(40));
    }
    names[r.below(few) as usize].clone()
}

fn draw(r: &mut Rng, gen: &Gen) -> Vec<Mem> {
    let mut kinds: Vec<usize> = (0..MEMBERS).collect();
    let n = match r.below(8) {
        0 => r.range(1, MEMBERS as u64),
        1..=3 => r.range(1, 4),
        _ => r.range(3, 12),
    };
    let names = names(r);
    let few = r.range(2, names.len() as u64);
    let many = r.chance(1, 4);
    let deep = *r.pick(&[1, 2, 3, 3, 4, 9]);
    let mut out: Vec<Mem> = Vec::new();
    for _ in 0..n {
        let kind = kinds.remove(r.below(kinds.len() as u64) as usize);
        for _ in 0..50 {
            let d = r.range(1, deep);
            let path: Vec<String> = (0..d).map(|_| name(r, &names, few, many)).collect();
            if out.iter().all(|m| !starts(&m.path, &path) && !starts(&path, &m.path)) {
                let mut m = Mem { kind, path, n: r.below(100) as u32, first: Vec::new(), trap: 0 };
                let mut model = group_model(std::slice::from_ref(&m));
                for _ in 0..r.below(4) {
                    let op = <GroupSub as crate::coll::Coll>::gen_op(&model, r, gen);
                    <GroupSub as crate::coll::Coll>::apply_m(&mut model, &op);
                    m.first.extend(op.s.map(|s| *s));
                }
                out.push(m);
                break;
            }
        }
    }
    out
}

/// Make a list of members one that cannot be a group.
fn spoil(r: &mut Rng, ms: &mut Vec<Mem>, f: Flaw) {
    let unused: Vec<usize> = (0..MEMBERS).filter(|k| ms.iter().all(|m| m.kind != *k)).collect();
    let a = ms[r.below(ms.len() as u64) as usize].clone();
    let mut m = Mem { kind: if unused.is_empty() { INNER } else { *r.pick(&unused) }, n: r.below(100) as u32, first: Vec::new(), trap: 0, path: a.path.clone() };
    match f {
        Flaw::Nothing => {
            ms.clear();
            return;
        }
        Flaw::Type => {
            m.kind = a.kind;
            m.path = vec![format!("x{}", r.below(9))];
            if r.chance(1, 3) {
                m.path = a.path.clone();
                m.path[0].push('x');
            }
        }
        Flaw::Path => {}
        Flaw::Through => {
            let names = names(r);
            for _ in 0..r.range(1, 3) {
                m.path.push(r.pick(&names).clone());
            }
        }
        Flaw::Short => {
            if m.path.len() < 2 {
                let i = ms.iter().position(|x| x.path == a.path).unwrap();
                ms[i].path.push("y".into());
            } else {
                m.path.truncate(r.range(1, m.path.len() as u64 - 1) as usize);
            }
        }
        Flaw::NoPath => m.path.clear(),
    }
    let at = r.below(ms.len() as u64 + 1) as usize;
    ms.insert(at, m);
}

pub fn generate(seed: u64, long: bool) -> Layouts {
    let mut r = Rng::new(seed);
    let gen = Gen {
        pool: r.below(1 << 20) as u32,
        keys: *r.pick(&[2, 4, 8]),
        values: *r.pick(&[3, 8, 40]),
        remove: 15,
        edit: 15,
        clear: 1,
        fill: 0,
        deep: 0,
        focus: 0,
    };
    let mut l = Layouts { seed, gen: gen.clone(), attempts: Vec::new() };
    for _ in 0..r.range(1, if long { 8 } else { 3 }) {
        let mut members = draw(&mut r, &gen);
        if members.is_empty() {
            continue;
        }
        let good = members.clone();
        if r.chance(3, 5) {
            let f = *r.pick(&FLAWS);
            spoil(&mut r, &mut members, f);
        }
        if r.chance(1, 4) && !members.is_empty() {
            let i = r.below(members.len() as u64) as usize;
            members[i].trap = 1 + r.below(8);
        }
        let mut now = vec![members.clone()];
        // The caller may try again with a list that is right.
        if (flaw(&members).is_some() || members.iter().any(|m| m.trap > 0)) && r.chance(1, 2) {
            now.push(good);
        }
        for members in now {
            let mut a = Attempt { members, steps: Vec::new(), order: r.u64() >> 1 };
            if flaw(&a.members).is_none() {
                let mut model = group_model(&a.members);
                for _ in 0..r.range(3, if long { 60 } else { 20 }) {
                    a.steps.push(match r.below(10) {
                        0..=4 => {
                            let op = <GroupSub as crate::coll::Coll>::gen_op(&model, &mut r, &gen);
                            <GroupSub as crate::coll::Coll>::apply_m(&mut model, &op);
                            Step::Op(op)
                        }
                        5 => Step::Ask { kind: r.below(MEMBERS as u64) as usize, how: r.below(2) as u32 },
                        _ => Step::Read(<GroupSub as crate::coll::Coll>::gen_q(&model, &mut r, &gen)),
                    });
                }
            }
            l.attempts.push(a);
        }
    }
    l
}

/// Build a group; none when the list is refused or the caller's code panics.
fn attempt(ctx: &mut Ctx, ms: &[Mem]) -> Result<Option<GroupSub>, Violation> {
    let why = flaw(ms);
    let code = |c: &'static str| if ctx.prop == "C18" { c } else { QUIET };
    let out = guarded(|| build_group(ms));
    let fired = types::disarm();
    match (out, why) {
        (Ended::Done(g), None) => Ok(Some(g)),
        (Ended::Done(_), Some(f)) => ctx.fail(code("accepted"), format!("a group is built from members that cannot be one ({:?}): {}", f, list(ms))),
        (Ended::Trapped, _) if fired => {
            ctx.count("faults: panic in caller code while members are given");
            Ok(None)
        }
        (Ended::Trapped, _) => ctx.fail("panic", "an interruption nobody asked for"),
        (Ended::Panicked(_), Some(f)) => {
            ctx.count(&format!("faults: members that cannot be a group: {:?}", f));
            ctx.count("layouts refused");
            Ok(None)
        }
        (Ended::Panicked(m), None) => ctx.fail(code("refused"), format!("the group {} is refused: {}", list(ms), m)),
    }
}

fn list(ms: &[Mem]) -> String {
    cut(&ms.iter().map(|m| format!("{}:{}", m.path.join("/"), m.kind)).collect::<Vec<_>>().join(" "))
}

fn state(ms: &[Mem]) -> State {
    State::of(Box::new(Mo::<GroupSub>(group_model(ms))))
}

pub fn run(ctx: &mut Ctx, l: &Layouts) -> Res {
    seams::set_entropy(mix(l.seed, 1));
    seams::set_layout(mix(l.seed, 2));
    let _ = types::tracked_error();
    for a in &l.attempts {
        one(ctx, a)?;
        ctx.count("drop counts checked");
        if let Some(e) = types::tracked_error() {
            return ctx.fail("drop", e);
        }
        let n = types::tracked_live();
        if n != 0 {
            return ctx.fail("leak", format!("{} keys or values are left after the group {} is gone or was refused", n, list(&a.members)));
        }
    }
    Ok(())
}

/// How many forks there are on the way to each member.
fn depth(ctx: &mut Ctx, x: &dyn Real, ms: &[Mem]) -> Res {
    for (n, m) in ms.iter().enumerate() {
        let q = Q { q: QK::Group, m: vec![Q { q: QK::Group, k: n as u32, ..Q::default() }], ..Q::default() };
        let b = calm(ctx, "a witness", || x.witness(&q))?.unwrap_or_default();
        let t = match spec::parse(&b) {
            Ok(t) => t,
            Err(e) => return ctx.fail("answer malformed", e),
        };
        let mut t = &t;
        ctx.count("witness depths measured");
        for (i, part) in m.path.iter().enumerate() {
            let names: BTreeSet<&String> = ms.iter().filter(|o| o.path.len() > i && o.path[..i] == m.path[..i]).map(|o| &o.path[i]).collect();
            let most = 2.0 * (names.len() as f64).log2() + 2.0;
            if t.forks() as f64 > most {
                return ctx.fail("depth", format!("{} forks among {} names on the way to {}", t.forks(), names.len(), m.path.join("/")));
            }
            t = match spec::lookup(&[part.as_bytes().to_vec()], t) {
                Found::Tree(t) => t,
                _ => return ctx.fail(QUIET, "the member is not found"),
            };
        }
    }
    Ok(())
}

fn one(ctx: &mut Ctx, a: &Attempt) -> Res {
    ctx.event(&list(&a.members));
    let group = match attempt(ctx, &a.members)? {
        Some(g) => g,
        None => return Ok(()),
    };
    ctx.count("layouts built");
    let mut order = a.members.clone();
    let mut r = Rng::new(a.order);
    for i in (1..order.len()).rev() {
        order.swap(i, r.below(i as u64 + 1) as usize);
    }
    order.iter_mut().for_each(|m| m.trap = 0);
    let other = attempt(ctx, &order)?;
    let mut s = state(&a.members);
    let mut model: GroupModel = group_model(&a.members);
    ctx.see(&s.content);
    let mut x = Re(group);
    if ctx.on.depth {
        return depth(ctx, &x, &a.members);
    }
    let root = calm(ctx, "the root", || x.root())?;
    if let Some(o) = other {
        let mut o = Re(o);
        // Members are selected by number: the numbers of the first list.
        o.0.renumber(&a.members);
        if calm(ctx, "the root", || o.root())? != root {
            return ctx.fail("order", format!("the same members give another root when they are given in another order: {}", list(&order)));
        }
        for step in &a.steps {
            if let Step::Read(q) = step {
                if calm(ctx, "a witness", || x.witness(q))? != calm(ctx, "a witness", || o.witness(q))? {
                    return ctx.fail("order", format!("the same members answer {:?} otherwise when they are given in another order: {}", q, list(&order)));
                }
            }
        }
    }
    audit(ctx, &x, &s)?;
    for step in &a.steps {
        ctx.event(&format!("{:?}", step));
        match step {
            Step::Op(op) => {
                let got = calm(ctx, "an operation", || x.apply(op))?;
                let want = <GroupSub as crate::coll::Coll>::apply_m(&mut model, op);
                s = State::of(Box::new(Mo::<GroupSub>(model.clone())));
                ctx.see(&s.content);
                if got != want {
                    return ctx.fail("reply", format!("{:?} returns {} and should return {}", op, cut(&got), cut(&want)));
                }
                audit(ctx, &x, &s)?;
            }
            Step::Read(q) => {
                if let Some(b) = calm(ctx, "a witness", || x.witness(q))? {
                    let root = calm(ctx, "the root", || x.root())?;
                    answer(ctx, &b, &root, &s, q)?;
                }
            }
            Step::Ask { kind, how } => {
                let there = a.members.iter().any(|m| m.kind == *kind);
                let out = guarded(|| x.0.ask(*kind, *how));
                match (out, there) {
                    (Ended::Done(()), true) => {}
                    (Ended::Panicked(_), false) => ctx.count("faults: asked for a member that is not there"),
                    (Ended::Done(()), false) => return ctx.fail("ask", format!("a member of kind {} is handed out that was never given", kind)),
                    (Ended::Panicked(m), true) => return ctx.fail("ask", format!("the member of kind {} is not handed out: {}", kind, m)),
                    (Ended::Trapped, _) => return ctx.fail("panic", "an interruption nobody asked for"),
                }
            }
        }
    }
    audit(ctx, &x, &s)?;
    calm(ctx, "dropping the group", || drop(x))
}
