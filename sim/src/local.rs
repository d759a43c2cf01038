//! One collection in one process, where the simulator decides at which call the caller's code panics, when
//! the collection is saved, and how the storage fails.

use crate::coll::{Gen, Model, Op, Real, O, Q, QK};
use crate::engine::*;
use crate::rng::{mix, Rng};
use crate::seams;
use crate::spec;
use crate::subjects::{Family, Fmt, Kind};
use crate::types;
use crate::runs::Size;
use crate::world::{pick_fmt, restored};
use serde::{Deserialize, Serialize};
use std::io::{self, Read, Write};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Local {
    pub seed: u64,
    pub kind: String,
    #[serde(default)]
    pub start: u32,
    pub gen: Gen,
    /// The destructors of keys and values can panic as well.
    #[serde(default)]
    pub destructors: bool,
    pub steps: Vec<Step>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Step {
    /// `trap`: the call of caller code that panics; 0 for none.
    Op { op: Op, trap: u64 },
    Read { q: Q, trap: u64 },
    Root { trap: u64 },
    Dump { trap: u64 },
    /// Save and restore, and go on with what was restored.
    Reload { fmt: Fmt, trap: u64 },
    /// Save to, and restore from, storage that fails.
    Damage { fmt: Fmt, hurt: Hurt, at: u64, x: u64 },
    /// Send a witness while writing fails.
    Send { q: Q, hurt: Hurt, at: u64, x: u64 },
    /// Drop the collection and start again.
    Drop,
    /// Many operations in a pattern.
    Grow { pattern: Pattern, n: u32, from: u32, trap: u64 },
    Audit,
}

#[derive(Clone, Copy, PartialEq, Debug, Serialize, Deserialize)]
pub enum Hurt {
    WriteError,
    /// The first write at the position fails, later ones do not.
    WriteErrorOnce,
    WriteZero,
    WriteShort,
    ReadError,
    ReadErrorOnce,
    ReadEnd,
    ReadShort,
    Truncate,
    Flip,
    Tear,
    Repeat,
    Hole,
    Exchange,
    Set,
    /// Writing, or reading, one of the stored keys or values fails.
    ItemWrite,
    ItemRead,
}
pub const HURTS: [Hurt; 17] = [
    Hurt::WriteError,
    Hurt::WriteErrorOnce,
    Hurt::WriteZero,
    Hurt::WriteShort,
    Hurt::ReadError,
    Hurt::ReadErrorOnce,
    Hurt::ReadEnd,
    Hurt::ReadShort,
    Hurt::Truncate,
    Hurt::Flip,
    Hurt::Tear,
    Hurt::Repeat,
    Hurt::Hole,
    Hurt::Exchange,
    Hurt::Set,
    Hurt::ItemWrite,
    Hurt::ItemRead,
];

#[derive(Clone, Copy, PartialEq, Debug, Serialize, Deserialize)]
pub enum Pattern {
    Up,
    Down,
    Random,
    /// Insert at one end, remove at the other.
    Queue,
    QueueDown,
    /// Grow, then shrink from one end, over and over.
    Saw,
    SawDown,
    Ends,
    RemoveEven,
    RemoveRandom,
    RemoveUp,
    RemoveDown,
    Churn,
    /// Built at once from an iterator.
    Bulk,
    /// Remove what is farthest from the entry that is deepest in the tree.
    Prune,
    /// Insert next to the deepest entry, and remove far from it, over and over.
    Deepen,
    /// Remove the entries that are found soonest.
    Shallow,
}
const PATTERNS: [Pattern; 19] = [
    Pattern::Up,
    Pattern::Down,
    Pattern::Random,
    Pattern::Queue,
    Pattern::QueueDown,
    Pattern::Saw,
    Pattern::SawDown,
    Pattern::Ends,
    Pattern::RemoveEven,
    Pattern::RemoveRandom,
    Pattern::RemoveUp,
    Pattern::RemoveDown,
    Pattern::Churn,
    Pattern::Bulk,
    Pattern::Prune,
    Pattern::Prune,
    Pattern::Deepen,
    Pattern::Deepen,
    Pattern::Shallow,
];

// ---------------------------------------------------------------- generating

pub fn generate(prop: &str, seed: u64, kind: &Kind, size: Size) -> Local {
    let long = size.long;
    let mut r = Rng::new(seed);
    let on = Flags::of(prop);
    let keys = *r.pick(&[2, 4, 8, 16, 32]);
    let gen = Gen {
        pool: r.below(1 << 20) as u32,
        keys,
        values: if kind.name.contains("AV") { 64 * types::AV::types() } else { *r.pick(&[3, 8, 40]) },
        remove: *r.pick(&[10, 25, 40]),
        edit: *r.pick(&[5, 15, 30]),
        clear: *r.pick(&[0, 1, 3]),
        fill: if size.big { *r.pick(&[300, 700, 6000]) } else { 0 },
        deep: if size.big { *r.pick(&[0, 0, 40, 150]) } else { 0 },
        focus: if kind.name.contains("AV") && r.chance(1, 4) { 1 + r.below(types::AV::types() as u64) as u32 } else { 0 },
    };
    let start = if kind.group { r.below(1 << 20) as u32 } else { 0 };
    let mut l = Local { seed, kind: kind.name.into(), start, gen: gen.clone(), destructors: false, steps: Vec::new() };
    if on.depth {
        patterns(&mut l, &mut r, kind, size);
        return l;
    }
    if on.work {
        changes(&mut l, &mut r, kind, size);
        return l;
    }
    let mut model = (kind.model)(start);
    let n = match (size.big, long) {
        (true, _) => r.range(3, if size.huge { 6 } else { 16 }),
        (false, true) => r.range(20, 400),
        (false, false) => r.range(10, 120),
    };
    let traps = on.memory || on.interrupted || on.chain || on.pages;
    let rate = if traps { *r.pick(&[0, 10, 30, 60]) } else { 0 };
    let trap = |r: &mut Rng| if r.chance(rate, 100) { spread(r, 8) } else { 0 };
    let maps = ["Map", "RbTree"].iter().any(|n| kind.name.starts_with(n)) && !kind.name.contains("Seq");
    l.destructors = rate > 0 && kind.tracked && maps && r.chance(1, 3);
    let fill = if r.chance(1, 2) && !size.big { r.range(0, 2 * keys as u64) } else { 0 };
    if size.big && !kind.group {
        let op = model.first_fill(&mut r, &gen, size.huge);
        model.apply(&op);
        l.steps.push(Step::Op { op, trap: 0 });
        if size.huge {
            l.steps.push(Step::Audit);
            if on.snap || on.foreign {
                l.steps.push(Step::Reload { fmt: pick_fmt(&mut r, kind), trap: 0 });
            }
            for _ in 0..if on.present || on.absent || on.list { 5 } else { 1 } {
                l.steps.push(Step::Read { q: model.gen_q(&mut r, &gen), trap: 0 });
            }
        }
    }
    for i in 0..n + fill {
        let g = if i < fill { Gen { remove: 2, clear: 0, ..gen.clone() } } else { gen.clone() };
        let x = r.below(100);
        let step = if on.damage && i >= fill && (x < 8 || (x < 40 && kind.group)) {
            let hurt = *r.pick(&[Hurt::WriteError, Hurt::WriteErrorOnce, Hurt::WriteErrorOnce, Hurt::WriteZero, Hurt::WriteShort]);
            Step::Send { q: model.gen_q(&mut r, &g), hurt, at: r.u64() >> 1, x: r.u64() >> 1 }
        } else if on.damage && i >= fill && x < 40 {
            let hurt = *r.pick(&HURTS);
            Step::Damage { fmt: pick_fmt(&mut r, kind), hurt, at: r.u64() >> 1, x: r.u64() >> 1 }
        } else if (on.snap && x < 12) || (on.foreign && x < 20) || (kind.snap.is_some() && x < 3) {
            Step::Reload { fmt: pick_fmt(&mut r, kind), trap: trap(&mut r) }
        } else if x < 50 || i < fill {
            let op = model.gen_op(&mut r, &g);
            model.apply(&op);
            let trap = if i < fill { 0 } else { trap(&mut r) };
            Step::Op { trap: if op.fills() { 0 } else { trap }, op }
        } else if x < 56 {
            Step::Root { trap: trap(&mut r) }
        } else if x < 62 {
            Step::Audit
        } else if x < 75 && !on.snap && !on.damage {
            Step::Read { q: model.gen_q(&mut r, &g), trap: trap(&mut r) }
        } else if x < 77 {
            Step::Dump { trap: trap(&mut r) }
        } else if x < 78 && !on.snap {
            model = (kind.model)(start);
            Step::Drop
        } else {
            let op = model.gen_op(&mut r, &g);
            model.apply(&op);
            let trap = trap(&mut r);
            Step::Op { trap: if op.fills() { 0 } else { trap }, op }
        };
        l.steps.push(step);
    }
    l
}

/// From 1 up, small numbers as often as large ones.
pub fn spread(r: &mut Rng, bits: u64) -> u64 {
    let n = 1 << r.below(bits);
    1 + r.below(n)
}

fn patterns(l: &mut Local, r: &mut Rng, kind: &Kind, size: Size) {
    l.gen.keys = 1;
    let most = match (size.big, size.long) {
        (true, true) => 150_000,
        (true, false) => 15_000,
        (false, true) => 2500,
        (false, false) => 600,
    };
    let faults = r.chance(1, 2);
    for _ in 0..r.range(2, 7) {
        let pattern = *r.pick(&PATTERNS);
        let most = *r.pick(&[8, 60, most, most]);
        let n = r.range(1, most) as u32;
        let trap = if faults { spread(r, 14) } else { 0 };
        l.steps.push(Step::Grow { pattern, n, from: r.below(1 << 18) as u32, trap });
        if kind.snap.is_some() && r.chance(1, 6) {
            l.steps.push(Step::Reload { fmt: pick_fmt(r, kind), trap: 0 });
        }
        l.steps.push(Step::Audit);
    }
}

/// Few changes to something large, with the root taken in between.
fn changes(l: &mut Local, r: &mut Rng, kind: &Kind, size: Size) {
    l.gen.fill = match (size.big, size.long) {
        (true, _) => 20_000,
        (false, true) => *r.pick(&[60, 400, 4000]),
        (false, false) => *r.pick(&[60, 150, 400, 900]),
    };
    if r.chance(5, 6) {
        l.gen.clear = 0;
        l.gen.remove = *r.pick(&[0, 4, 10]);
    }
    let mut model = (kind.model)(l.start);
    let nested = kind.group || (kind.family == Family::Nested && r.chance(2, 3));
    let mut first = model.first_fill(r, &l.gen, false);
    if nested && first.o == O::Fill {
        first.n = 1 + first.n % 9;
    }
    model.apply(&first);
    l.steps.push(Step::Op { op: first, trap: 0 });
    if nested {
        // Much under a few keys.
        l.gen.deep = l.gen.fill;
        let mut left = r.range(1, 4);
        for _ in 0..600 {
            let mut op = model.gen_op(r, &l.gen);
            if left > 0 && op.o != O::Fill && op.fills() {
                if let Some(s) = op.s.as_mut() {
                    s.n = s.n.max(l.gen.fill / 2);
                }
                model.apply(&op);
                l.steps.push(Step::Op { op, trap: 0 });
                left -= 1;
            }
        }
    }
    l.steps.push(Step::Root { trap: 0 });
    let rate = *r.pick(&[0, 10, 30]);
    let trap = |r: &mut Rng| if r.chance(rate, 100) { spread(r, 8) } else { 0 };
    for _ in 0..r.range(10, if size.long { 200 } else { 60 }) {
        let x = r.below(100);
        let step = match x {
            0..=54 => {
                let fill = r.chance(1, 20);
                let mut op = model.gen_op(r, &l.gen);
                while op.fills() && !fill {
                    op = model.gen_op(r, &l.gen);
                }
                model.apply(&op);
                let trap = trap(r);
                Step::Op { trap: if op.fills() { 0 } else { trap }, op }
            }
            55..=79 => Step::Root { trap: trap(r) },
            80..=93 => Step::Read { q: single(model.gen_q(r, &l.gen)), trap: trap(r) },
            94..=96 => Step::Reload { fmt: pick_fmt(r, kind), trap: trap(r) },
            97..=98 => Step::Dump { trap: trap(r) },
            _ => Step::Audit,
        };
        l.steps.push(step);
    }
}

/// The question about a single key that is nearest to this one.
fn single(q: Q) -> Q {
    match q.q {
        QK::Page | QK::LastPage | QK::Nested | QK::Key => q,
        QK::Group => {
            // Each member once: what a later selection replaces is not shown.
            let mut m: Vec<Q> = Vec::new();
            for x in q.m {
                if m.iter().all(|y| y.k != x.k) {
                    m.push(Q { s: x.s.map(|s| Box::new(single(*s))), ..x });
                }
            }
            Q { q: QK::Group, m, s: None, ..q }
        }
        _ => Q { q: QK::Key, s: None, ..q },
    }
}

// ---------------------------------------------------------------- storage that fails

struct Disk {
    data: Vec<u8>,
    pos: usize,
    at: usize,
    hurt: Option<Hurt>,
    tripped: u64,
    rng: Rng,
}
impl Disk {
    fn new(data: Vec<u8>, at: usize, hurt: Option<Hurt>, x: u64) -> Disk {
        Disk { data, pos: 0, at, hurt, tripped: 0, rng: Rng::new(x) }
    }
    fn error(&mut self) -> io::Error {
        self.tripped += 1;
        let k = *self.rng.pick(&[io::ErrorKind::Other, io::ErrorKind::StorageFull, io::ErrorKind::UnexpectedEof, io::ErrorKind::WouldBlock, io::ErrorKind::BrokenPipe]);
        io::Error::new(k, "injected")
    }
}
impl Write for Disk {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let done = self.data.len();
        match self.hurt {
            Some(Hurt::WriteError) if done + b.len() > self.at => {
                let n = self.at.saturating_sub(done);
                if n == 0 {
                    return Err(self.error());
                }
                self.data.extend(&b[..n]);
                Ok(n)
            }
            Some(Hurt::WriteErrorOnce) if self.tripped == 0 && done + b.len() > self.at => {
                let n = self.at.saturating_sub(done);
                if n == 0 {
                    return Err(self.error());
                }
                self.data.extend(&b[..n]);
                Ok(n)
            }
            Some(Hurt::WriteZero) if done + b.len() > self.at => {
                let n = self.at.saturating_sub(done);
                if n == 0 {
                    self.tripped += 1;
                }
                self.data.extend(&b[..n]);
                Ok(n)
            }
            Some(Hurt::WriteShort) if !b.is_empty() => {
                if self.rng.chance(1, 4) {
                    self.tripped += 1;
                    return Err(io::Error::new(io::ErrorKind::Interrupted, "injected"));
                }
                let n = self.rng.range(1, b.len() as u64) as usize;
                self.data.extend(&b[..n]);
                Ok(n)
            }
            _ => {
                self.data.extend(b);
                Ok(b.len())
            }
        }
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
impl Read for Disk {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let mut n = b.len().min(self.data.len() - self.pos);
        match self.hurt {
            Some(Hurt::ReadError) if self.pos + n > self.at => {
                n = self.at.saturating_sub(self.pos);
                if n == 0 && !b.is_empty() {
                    return Err(self.error());
                }
            }
            Some(Hurt::ReadErrorOnce) if self.tripped == 0 && self.pos + n > self.at => {
                n = self.at.saturating_sub(self.pos);
                if n == 0 && !b.is_empty() {
                    return Err(self.error());
                }
            }
            Some(Hurt::ReadEnd) => {
                n = n.min(self.at.saturating_sub(self.pos));
                if n == 0 {
                    self.tripped += 1;
                }
            }
            Some(Hurt::ReadShort) if n > 0 => {
                if self.rng.chance(1, 4) {
                    self.tripped += 1;
                    return Err(io::Error::new(io::ErrorKind::Interrupted, "injected"));
                }
                n = self.rng.range(1, n as u64) as usize;
            }
            _ => {}
        }
        b[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

/// Positions at both ends and anywhere.
fn position(at: u64, len: usize) -> usize {
    match at % 5 {
        0 => ((at / 5) as usize % 12).min(len - 1),
        1 => len - 1 - ((at / 5) as usize % 12).min(len - 1),
        _ => (at / 5) as usize % len,
    }
}

fn corrupt(b: &[u8], from: usize, hurt: Hurt, at: u64, x: u64) -> Vec<u8> {
    let mut v = b.to_vec();
    let len = (v.len() - from) as u64;
    if len == 0 {
        return v;
    }
    let mut r = Rng::new(x);
    let i = from + (at % len) as usize;
    let j = from + r.below(len) as usize;
    let n = spread(&mut r, 6) as usize;
    match hurt {
        Hurt::Flip => {
            for _ in 0..r.range(1, 3) {
                let i = from + ((at ^ r.below(7)) % len) as usize;
                v[i] ^= 1 << r.below(8);
            }
        }
        Hurt::Tear => {
            let fill = *r.pick(&[0u8, 0xff, 0x41]);
            for b in &mut v[i..] {
                *b = fill;
            }
        }
        Hurt::Repeat => {
            let part = v[i..(i + n).min(v.len())].to_vec();
            v.splice(i..i, part);
        }
        Hurt::Hole => {
            let e = (i + n).min(v.len());
            v.drain(i..e);
        }
        Hurt::Exchange => v.swap(i, j),
        Hurt::Set => v[i] = *r.pick(&[0, 1, 0x17, 0x18, 0x40, 0x60, 0x80, 0xa0, 0xa1, 0x7f, 0xff, 0xbf, 0x9f, 0xf6]),
        _ => {}
    }
    v
}

// ---------------------------------------------------------------- the run

struct Run<'a> {
    ctx: &'a mut Ctx,
    l: &'a Local,
    kind: &'a Kind,
    real: Option<Box<dyn Real>>,
    /// An instance that is never restored, for comparison.
    twin: Option<Box<dyn Real>>,
    state: State,
    /// Values hashed since the root was last up to date, and how many that may be.
    hashed: u64,
    may_hash: f64,
}

pub fn run(ctx: &mut Ctx, l: &Local, kind: &Kind) -> Res {
    seams::set_entropy(mix(l.seed, 1));
    seams::set_layout(mix(l.seed, 2));
    let _ = types::tracked_error();
    let _ = seams::take_error();
    let state = State::of((kind.model)(l.start));
    let mut run = Run { ctx, l, kind, real: None, twin: None, state, hashed: 0, may_hash: 0.0 };
    run.start()?;
    types::set_destructors(l.destructors);
    for i in 0..l.steps.len() {
        match run.step(&l.steps[i], i as u64) {
            // What is stored is wrong, which is not what this run is about; what was dropped still counts.
            Err(v) if v.code == QUIET && run.ctx.on.memory && run.real.is_some() => {
                run.ctx.count("runs ended early");
                break;
            }
            r => r?,
        }
    }
    run.finish()
}

impl Run<'_> {
    fn start(&mut self) -> Res {
        let (f, n) = (self.kind.fresh, self.l.start);
        self.real = Some(calm(self.ctx, "creating the collection", || seams::tagged(|| f(n)))?);
        if self.ctx.on.snap {
            self.twin = Some(calm(self.ctx, "creating the collection", || f(n))?);
        }
        self.state = State::of((self.kind.model)(n));
        Ok(())
    }

    fn finish(&mut self) -> Res {
        types::set_destructors(false);
        let old = self.real.take();
        calm(self.ctx, "dropping the collection", || drop(old))?;
        self.twin = None;
        if self.ctx.on.memory && types::spilled() {
            return self.memory_errors();
        }
        if self.ctx.on.memory {
            if self.kind.tracked && types::tracked_live() != 0 {
                let n = types::tracked_live();
                return self.ctx.fail("leak", format!("{} keys or values were never dropped", n));
            }
            self.memory_errors()?;
            self.ctx.finished = true;
        }
        Ok(())
    }

    fn memory_errors(&mut self) -> Res {
        if let Some(e) = types::tracked_error() {
            return self.ctx.fail("drop", e);
        }
        if let Some(e) = seams::take_error() {
            return self.ctx.fail("allocator", e);
        }
        Ok(())
    }

    /// The books of keys and values after a step.
    fn balance(&mut self) -> Res {
        if !self.ctx.on.memory {
            return Ok(());
        }
        self.ctx.count("drop counts checked");
        self.memory_errors()?;
        if self.kind.tracked && !types::spilled() {
            let (live, want) = (types::tracked_live(), self.state.model.tracked());
            if live != want {
                let real = self.real.take().unwrap();
                let dump = calm(self.ctx, "reading the contents", || real.dump())?;
                self.real = Some(real);
                if dump != self.state.model.dump() {
                    return self.ctx.fail(QUIET, "the contents are not what they should be");
                }
                return self.ctx.fail("drop count", format!("{} keys and values are alive and {} are stored", live, want));
            }
        }
        Ok(())
    }

    /// Run library code that may be interrupted at the given call of caller code.
    fn interruptible<R>(&mut self, what: &str, trap: u64, f: impl FnOnce(&mut Box<dyn Real>) -> R) -> Result<Option<R>, Violation> {
        let mut real = self.real.take().unwrap();
        if trap > 0 && self.ctx.sham.is_none() {
            types::arm(trap);
        }
        let (hashed, made) = (types::hashed(), types::made());
        let spilled = types::spilled();
        let out = guarded(|| seams::tagged(|| f(&mut real)));
        let fired = types::disarm();
        self.real = Some(real);
        self.hashed += types::hashed() - hashed;
        if self.ctx.on.work {
            let made = types::made() - made;
            let n = self.state.model.tracked() as u64 + made;
            self.may_hash += (1 + made) as f64 * (8.0 * ((n + 1) as f64).log2() + 8.0);
        }
        match out {
            Ended::Done(r) => Ok(Some(r)),
            Ended::Trapped if fired => {
                let who = if !spilled && types::spilled() { "a destructor" } else { "caller code" };
                self.ctx.count(&format!("faults: panic in {} during {}", who, what));
                Ok(None)
            }
            Ended::Trapped => self.ctx.fail("panic", "an interruption nobody asked for"),
            Ended::Panicked(m) => self.ctx.fail("panic", format!("{} panics: {}", what, m)),
        }
    }

    fn step(&mut self, s: &Step, n: u64) -> Res {
        if self.ctx.verbose {
            println!("  {} {}", n, serde_json::to_string(s).unwrap_or_default());
        }
        match s {
            Step::Op { op, trap } => self.op(op, *trap, n)?,
            Step::Read { q, trap } => {
                // Hashes are there or not as they happen to be: no root is taken first.
                let hashed = self.hashed;
                let b = self.interruptible("a witness", *trap, |x| x.witness(q))?;
                if b.is_none() {
                    // There is no saying what the answer would have shown.
                    self.hashed = hashed;
                }
                if let Some(Some(b)) = b {
                    if self.ctx.on.work {
                        // What the answer shows.
                        self.may_hash += spec::parse(&b).map_or(0, |t| t.leaves()) as f64;
                        return self.worked(q, false);
                    }
                    let root = self.root()?;
                    let s = self.state.clone();
                    answer(self.ctx, &b, &root, &s, q)?;
                    let real = self.real.take().unwrap();
                    reading(self.ctx, &*real, q)?;
                    self.real = Some(real);
                }
            }
            Step::Root { trap } => {
                let root = self.interruptible("hashing", *trap, |x| x.root())?;
                if let Some(r) = root {
                    self.ctx.event(&spec::hex(&r[..6]));
                }
                self.worked("the root", root.is_some())?;
            }
            Step::Dump { trap } => {
                self.interruptible("iterating", *trap, |x| x.dump())?;
            }
            Step::Reload { fmt, trap } => self.reload(*fmt, *trap)?,
            Step::Damage { fmt, hurt, at, x } => self.damage(*fmt, *hurt, *at, *x)?,
            Step::Send { q, hurt, at, x } => self.send(q, *hurt, *at, *x)?,
            Step::Drop => {
                let old = self.real.take();
                calm(self.ctx, "dropping the collection", || drop(old))?;
                self.start()?;
            }
            Step::Grow { pattern, n, from, trap } => self.grow(*pattern, *n, *from, *trap)?,
            Step::Audit => self.audit(n)?,
        }
        match s {
            Step::Drop => (self.hashed, self.may_hash) = (0, 0.0),
            s => self.worked(s, false)?,
        }
        let c = self.state.content.clone();
        if !self.ctx.on.depth {
            self.ctx.see(&c);
        }
        self.balance()
    }

    /// How many values were hashed, against how many may have been.
    fn worked(&mut self, what: impl std::fmt::Debug, all: bool) -> Res {
        if self.ctx.on.work {
            let part = (self.hashed as f64 / self.may_hash.max(1.0) * 5.0).ceil() as u64 * 20;
            self.ctx.count(&format!("hashing measured: up to {}% of the most", part));
            if self.hashed as f64 > self.may_hash {
                let n = self.state.model.tracked();
                let what = format!("{} values were hashed since the root was last up to date, with {} keys and values stored; {:.0} is the most. Last: {:?}", self.hashed, n, self.may_hash, what);
                return self.ctx.fail("hashing", what);
            }
        }
        if all {
            (self.hashed, self.may_hash) = (0, 0.0);
        }
        Ok(())
    }

    fn root(&mut self) -> Result<spec::H, Violation> {
        let real = self.real.take().unwrap();
        let r = calm(self.ctx, "the root", || real.root());
        self.real = Some(real);
        r
    }

    fn op(&mut self, op: &Op, trap: u64, n: u64) -> Res {
        let mut after = self.state.model.copy();
        let want = after.apply(op);
        let became = self.ctx.sham.as_ref().and_then(|s| s.get(&n)).copied();
        if let Some(b) = became {
            if b == Became::Other {
                self.audit(trap)?;
            }
            if b != Became::Before {
                self.interruptible("an operation", 0, |x| x.apply(op))?;
                self.state = State::of(after);
            }
            return self.audit(trap);
        }
        if op.rebuilds() {
            // The whole of it is built again from its items, and an entry is edited more than once.
            self.may_hash += 4.0 * self.state.model.tracked() as f64;
        }
        let got = self.interruptible("an operation", trap, |x| x.apply(op))?;
        match got {
            Some(got) => {
                self.ctx.event(&got);
                if self.ctx.on.reply && got != want {
                    return self.ctx.fail("reply", format!("{:?} returns {} and should return {}", op, cut(&got), cut(&want)));
                }
                self.state = State::of(after);
                if self.twin.is_some() {
                    let mut twin = self.twin.take().unwrap();
                    let t = calm(self.ctx, "an operation", || twin.apply(op))?;
                    if t != got {
                        return self.ctx.fail("differs after a restore", format!("{:?} returns {}, and {} where nothing was restored", op, cut(&got), cut(&t)));
                    }
                    self.twin = Some(twin);
                }
            }
            None => {
                self.ctx.event("interrupted");
                let real = self.real.take().unwrap();
                let dump = calm(self.ctx, "reading the contents after an interruption", || seams::tagged(|| real.dump()))?;
                self.real = Some(real);
                let before = &self.state.model;
                let mut may: Vec<Box<dyn Model>> = vec![before.copy()];
                may.extend(before.partials(op));
                may.push(after);
                let last = may.len() - 1;
                let found = may.iter().position(|m| m.dump() == dump);
                let became = match found {
                    Some(0) => Became::Before,
                    Some(i) if i == last => Became::After,
                    _ => Became::Other,
                };
                self.ctx.became.insert(n, became);
                match found {
                    Some(i) => self.state = State::of(may.swap_remove(i)),
                    None => {
                        // What an interrupted map holds is not about running hashes or pages.
                        let seq = self.kind.family == Family::Seq;
                        let paged = self.kind.family == Family::Paged;
                        if self.ctx.on.interrupted || (self.ctx.on.chain && seq) || (self.ctx.on.pages && paged) {
                            return self.ctx.fail(
                                "interrupted state",
                                format!("after {:?} was interrupted the contents are {}; before: {}", op, cut(&dump), cut(&self.state.model.dump())),
                            );
                        }
                        return self.ctx.fail(QUIET, "the contents are not those of any step of the operation");
                    }
                }
                self.audit(trap)?;
            }
        }
        Ok(())
    }

    fn audit(&mut self, n: u64) -> Res {
        let real = self.real.take().unwrap();
        let s = self.state.clone();
        // Reading in a fixed order could repair what it reads: the order changes.
        if self.ctx.on.interrupted && n % 2 == 0 {
            let mut r = Rng::new(mix(self.l.seed, n));
            for _ in 0..3 {
                let q = gen_read(self.ctx, &s, &mut r, &self.l.gen);
                if let Some(b) = calm(self.ctx, "a witness", || real.witness(&q))? {
                    let root = calm(self.ctx, "the root", || real.root())?;
                    answer(self.ctx, &b, &root, &s, &q)?;
                }
            }
        }
        audit(self.ctx, &*real, &s)?;
        if self.ctx.on.memory {
            calm(self.ctx, "reading everything", || seams::tagged(|| (real.dump(), real.full(), real.probe())))?;
        }
        if let Some(twin) = self.twin.take() {
            let (a, b) = (calm(self.ctx, "reading the contents", || real.dump())?, calm(self.ctx, "reading the contents", || twin.dump())?);
            if a != b {
                return self.ctx.fail("differs after a restore", format!("contents are {}, and {} where nothing was restored", cut(&a), cut(&b)));
            }
            self.twin = Some(twin);
        }
        self.real = Some(real);
        if self.ctx.on.depth {
            self.depth()?;
        }
        Ok(())
    }

    fn reload(&mut self, fmt: Fmt, trap: u64) -> Res {
        let snap = match &self.kind.snap {
            Some(s) if s.candid || fmt != Fmt::Candid => s,
            _ => return Ok(()),
        };
        let (save, load) = (snap.save, snap.load);
        self.ctx.count(&format!("restores: {:?}", fmt));
        let saved = self.interruptible("saving", if trap % 2 == 1 { trap } else { 0 }, |x| {
            let mut v = Vec::new();
            save(&**x, fmt, &mut v).map(|_| v)
        })?;
        let b = match saved {
            Some(Ok(b)) => b,
            Some(Err(e)) => return self.ctx.fail("save", format!("saving fails: {}", e)),
            None => return Ok(()),
        };
        let new = self.interruptible("restoring", if trap % 2 == 0 { trap } else { 0 }, |_| load(fmt, &mut &b[..]))?;
        let new = if self.ctx.on.foreign { Some(Ok(self.passed_on(fmt, &b)?)) } else { new };
        let new = match new {
            Some(Ok(x)) => x,
            Some(Err(e)) => return self.ctx.fail("restore", format!("the bytes that were saved cannot be restored ({:?}): {}", fmt, e)),
            None => return Ok(()),
        };
        let old = self.real.take().unwrap();
        if self.ctx.on.snap {
            restored(self.ctx, &*old, &*new, &self.state)?;
            let mut again = Vec::new();
            if let Err(e) = calm(self.ctx, "saving", || save(&*new, fmt, &mut again))? {
                return self.ctx.fail("save", e);
            }
            if again != b {
                return self.ctx.fail("saved again", format!("the restored collection is saved as {} bytes that differ from the {} it came from", again.len(), b.len()));
            }
            let second = match calm(self.ctx, "restoring", || load(fmt, &mut &b[..]))? {
                Ok(x) => x,
                Err(e) => return self.ctx.fail("restore", e),
            };
            if second.root() != new.root() {
                return self.ctx.fail("restore", "two instances restored from the same bytes have different roots");
            }
            if let Some(twin) = &self.twin {
                let mut t = Vec::new();
                let _ = calm(self.ctx, "saving", || save(&**twin, fmt, &mut t))?;
                if t != b {
                    return self.ctx.fail("differs after a restore", "the bytes saved are not those that are saved where nothing was restored");
                }
            }
        }
        calm(self.ctx, "dropping the collection", || drop(old))?;
        self.real = Some(new);
        Ok(())
    }

    /// What was saved is read, and written, by another program.
    fn passed_on(&mut self, fmt: Fmt, b: &[u8]) -> Result<Box<dyn Real>, Violation> {
        let snap = self.kind.snap.as_ref().unwrap();
        let (load, other) = (snap.load, snap.foreign.as_ref().unwrap());
        self.ctx.count(&format!("foreign readers and writers: {:?}", fmt));
        let read = match (other.read)(fmt, b) {
            Ok(m) => m,
            Err(e) => return self.ctx.fail("foreign reader", format!("another program cannot read what was saved ({:?}): {}", fmt, e)),
        };
        let (got, want) = (read.dump(), self.state.model.dump());
        if got != want {
            return self.ctx.fail("foreign reader", format!("another program reads {} and should read {} ({:?})", cut(&got), cut(&want), fmt));
        }
        let mut r = Rng::new(mix(self.l.seed, b.len() as u64));
        let theirs = match (other.write)(&*self.state.model, fmt, &mut r) {
            Ok(b) => b,
            Err(e) => panic!("the foreign writer fails: {}", e),
        };
        let new = match calm(self.ctx, "restoring what another program wrote", || load(fmt, &mut &theirs[..]))? {
            Ok(x) => x,
            Err(e) => return self.ctx.fail("foreign writer", format!("what another program wrote cannot be restored ({:?}): {}", fmt, e)),
        };
        let s = self.state.clone();
        audit(self.ctx, &*new, &s)?;
        Ok(new)
    }

    /// Whether a failure to write was reported.
    fn written(&mut self, what: &str, d: Disk, out: Result<(), String>, good: &[u8]) -> Res {
        let short = d.hurt == Some(Hurt::WriteShort);
        match out {
            Err(e) if short => self.ctx.fail("save", format!("{}ing fails although the storage only takes its time: {}", what, e)),
            Err(_) => Ok(()),
            Ok(()) if short || d.tripped == 0 => match d.data == good {
                true => Ok(()),
                false => self.ctx.fail("save", format!("other bytes are {} than before", if what == "sav" { "saved" } else { "sent" })),
            },
            Ok(()) => self.ctx.fail("failed save accepted", format!("{:?} at byte {} of {}: {}ing reports success", d.hurt.unwrap(), d.at, good.len(), what)),
        }
    }

    fn send(&mut self, q: &Q, hurt: Hurt, at: u64, x: u64) -> Res {
        let real = self.real.take().unwrap();
        let mut good = Vec::new();
        match calm(self.ctx, "sending a witness", || real.send(q, x % 2 == 1, &mut good))? {
            Some(Err(e)) => return self.ctx.fail("save", format!("sending a witness fails: {}", e)),
            Some(Ok(())) => {
                self.ctx.count(&format!("faults: sending: {:?}", hurt));
                let mut d = Disk::new(Vec::new(), position(at, good.len()), Some(hurt), x);
                let out = calm(self.ctx, "sending a witness", || real.send(q, x % 2 == 1, &mut d))?;
                self.written("send", d, out.unwrap_or(Ok(())), &good)?;
            }
            None => {}
        }
        self.real = Some(real);
        Ok(())
    }

    fn damage(&mut self, fmt: Fmt, hurt: Hurt, at: u64, x: u64) -> Res {
        let snap = match &self.kind.snap {
            Some(s) if s.candid || fmt != Fmt::Candid => s,
            _ => return Ok(()),
        };
        let (save, load) = (snap.save, snap.load);
        let real = self.real.take().unwrap();
        let mut good = Vec::new();
        if let Err(e) = calm(self.ctx, "saving", || save(&*real, fmt, &mut good))? {
            return self.ctx.fail("save", format!("saving fails: {}", e));
        }
        self.ctx.count(&format!("faults: storage: {:?}", hurt));
        let len = good.len();
        let at_byte = position(at, len);
        match hurt {
            Hurt::WriteError | Hurt::WriteErrorOnce | Hurt::WriteZero | Hurt::WriteShort => {
                let mut d = Disk::new(Vec::new(), at_byte, Some(hurt), x);
                let out = calm(self.ctx, "saving to storage that fails", || save(&*real, fmt, &mut d))?;
                self.written("sav", d, out, &good)?;
            }
            Hurt::ReadError | Hurt::ReadErrorOnce | Hurt::ReadEnd | Hurt::ReadShort => {
                let mut d = Disk::new(good.clone(), at_byte, Some(hurt), x);
                let out = calm(self.ctx, "restoring from storage that fails", || load(fmt, &mut d))?;
                match (hurt, out) {
                    (Hurt::ReadShort, Err(e)) => return self.ctx.fail("restore", format!("restoring fails although the storage only takes its time: {}", e)),
                    (Hurt::ReadShort, Ok(new)) => {
                        let s = calm(self.ctx, "reading", || new.dump())?;
                        if s != calm(self.ctx, "reading", || real.dump())? {
                            return self.ctx.fail("restore", "other contents were restored");
                        }
                    }
                    (_, Ok(_)) => {
                        return self.ctx.fail("failed restore accepted", format!("{:?} at byte {} of {}: restoring returns a collection", hurt, at_byte, len));
                    }
                    _ => {}
                }
            }
            Hurt::ItemWrite | Hurt::ItemRead => {
                let act = |x: &dyn Real| -> Result<(), String> {
                    if hurt == Hurt::ItemWrite {
                        save(x, fmt, &mut Vec::new())
                    } else {
                        load(fmt, &mut &good[..]).map(drop)
                    }
                };
                types::fail_item(0);
                let _ = calm(self.ctx, "saving and restoring", || act(&*real))?;
                let (items, _) = types::fail_item(0);
                if items > 0 {
                    let n = 1 + at % items;
                    types::fail_item(n);
                    let out = calm(self.ctx, "saving and restoring items that fail", || act(&*real));
                    let (_, armed) = types::fail_item(0);
                    if out?.is_ok() && !armed {
                        return self.ctx.fail("failed item accepted", format!("{:?}: item {} of {} fails, and success is reported", hurt, n, items));
                    }
                }
            }
            Hurt::Truncate => {
                if calm(self.ctx, "restoring from bytes that end early", || load(fmt, &mut &good[..at_byte]))?.is_ok() {
                    return self.ctx.fail("failed restore accepted", format!("{} of {} bytes: restoring returns a collection", at_byte, len));
                }
            }
            _ => {
                // A Candid message starts with a type table, which is Candid's own business.
                let from = if fmt == Fmt::Candid {
                    let empty = (self.kind.fresh)(0);
                    let mut v = Vec::new();
                    let _ = save(&*empty, fmt, &mut v);
                    v.len().saturating_sub(1).min(len)
                } else {
                    0
                };
                let bad = corrupt(&good, from, hurt, at, x);
                match guarded(|| load(fmt, &mut &bad[..])) {
                    Ended::Done(Ok(new)) => {
                        self.ctx.count("damaged bytes restored, and checked");
                        if let Err(e) = calm(self.ctx, "reading what was restored", || new.own())? {
                            return self.ctx.fail("inconsistent", format!("restored from damaged bytes ({:?}, {:?}): {}", fmt, hurt, e));
                        }
                    }
                    Ended::Done(Err(_)) => self.ctx.count("damaged bytes refused"),
                    Ended::Trapped => return self.ctx.fail("panic", "an interruption nobody asked for"),
                    Ended::Panicked(m) if m.contains("/registry/") => self.ctx.count("damaged bytes: the decoder panics"),
                    Ended::Panicked(m) => return self.ctx.fail("panic", format!("restoring from damaged bytes panics: {}", m)),
                }
            }
        }
        self.real = Some(real);
        Ok(())
    }

    fn grow(&mut self, p: Pattern, n: u32, from: u32, trap: u64) -> Res {
        let mut r = Rng::new(mix(self.l.seed, from as u64));
        let paged = self.kind.family == Family::Paged;
        let ins = |k: u32| Op { o: O::Insert, k: k % (1 << 20), v: k % 5, ..Op::default() };
        let del = |k: u32| Op { o: O::Remove, k: k % (1 << 20), ..Op::default() };
        let mut ops: Vec<Op> = Vec::new();
        // What the earlier patterns left behind.
        let keys: Vec<u32> = self.state.model.keys();
        match p {
            Pattern::Up => ops.extend((0..n).map(|i| ins(from + i))),
            Pattern::Down => ops.extend((0..n).rev().map(|i| ins(from + i))),
            Pattern::Random => ops.extend((0..n).map(|_| ins(r.below(1 << 20) as u32))),
            Pattern::Queue | Pattern::QueueDown => {
                let w = spread(&mut r, 9) as u32;
                for i in 0..n {
                    let k = |i: u32| if p == Pattern::Queue { from + i } else { from + 200_000 - i };
                    ops.push(ins(k(i)));
                    if i >= w {
                        ops.push(del(k(i - w)));
                    }
                }
            }
            Pattern::Saw | Pattern::SawDown => {
                let w = 1 + r.below(200) as u32;
                let back = r.below(w as u64 + 1) as u32;
                let mut at = 0;
                while at < n {
                    for i in 0..w {
                        ops.push(ins(from + at + i));
                    }
                    for i in 0..back {
                        let i = if p == Pattern::Saw { w - 1 - i } else { i };
                        ops.push(del(from + at + i));
                    }
                    at += w;
                }
            }
            Pattern::Ends => {
                for i in 0..n / 2 {
                    ops.push(ins(from + 100_000 + i));
                    ops.push(ins(from + 100_000 - i));
                }
            }
            Pattern::RemoveEven => ops.extend(keys.iter().step_by(2).map(|k| del(*k))),
            Pattern::RemoveRandom => {
                let some = r.range(1, 9);
                ops.extend(keys.iter().filter(|k| mix(**k as u64, from as u64) % 10 < some).map(|k| del(*k)));
                for i in (1..ops.len()).rev() {
                    ops.swap(i, r.below(i as u64 + 1) as usize);
                }
            }
            Pattern::RemoveUp => ops.extend(keys.iter().take(n as usize).map(|k| del(*k))),
            Pattern::RemoveDown => ops.extend(keys.iter().rev().take(n as usize).map(|k| del(*k))),
            Pattern::Churn => {
                for _ in 0..n {
                    let k = if !keys.is_empty() && r.chance(1, 2) { *r.pick(&keys) } else { r.below(1 << 20) as u32 };
                    ops.push(if r.chance(1, 2) { ins(k) } else { del(k) });
                }
            }
            Pattern::Bulk => ops.push(Op { o: O::Fill, k: from, v: from % 40, n, x: 4 + from % 4, s: None }),
            Pattern::Prune => {
                if let Some(i) = self.deepest(&keys, &mut r) {
                    let mut far: Vec<usize> = (0..keys.len()).filter(|j| *j != i).collect();
                    far.sort_by_key(|j| (std::cmp::Reverse(j.abs_diff(i)), *j));
                    ops.extend(far.iter().take(n as usize).map(|j| del(keys[*j])));
                }
            }
            Pattern::Shallow => {
                let mut by: Vec<(u64, u32)> = keys.iter().map(|k| (self.cost(*k), *k)).collect();
                by.sort();
                ops.extend(by.iter().take(n as usize).map(|(_, k)| del(*k)));
            }
            Pattern::Deepen => {
                let rounds = if n > 1000 { 8 } else { 30 };
                let each = (n / rounds).clamp(1, 200);
                for _ in 0..rounds {
                    let keys = self.state.model.keys();
                    let mut some = Vec::new();
                    match self.deepest(&keys, &mut r) {
                        Some(i) => {
                            let up = r.chance(1, 2);
                            for j in 1..=each {
                                some.push(ins(if up { keys[i] + j } else { keys[i].saturating_sub(j) }));
                            }
                            // From the end that is farther.
                            for j in 0..(each as usize).min(keys.len() / 2) {
                                some.push(del(keys[if i < keys.len() / 2 { keys.len() - 1 - j } else { j }]));
                            }
                        }
                        None => some.push(ins(from)),
                    }
                    self.pattern(&some, 0, paged)?;
                }
            }
        }
        self.pattern(&ops, trap, paged)?;
        self.ctx.event(&format!("{:?} {} {}", p, ops.len(), from));
        self.ctx.states.insert(mix(fnv(format!("{:?}", p).as_bytes()), mix(from as u64, self.state.model.entries() as u64)));
        self.audit(1)
    }

    /// How many comparisons it takes to find a key: how deep it is in the tree.
    fn cost(&mut self, k: u32) -> u64 {
        let before = types::compares();
        let mut real = self.real.take().unwrap();
        let _ = guarded(|| real.find(k, 0));
        self.real = Some(real);
        types::compares() - before
    }
    fn deepest(&mut self, keys: &[u32], r: &mut Rng) -> Option<usize> {
        let step = (keys.len() / 4000).max(1);
        let start = if keys.is_empty() { 0 } else { r.below(keys.len() as u64) as usize };
        let order = (0..keys.len()).step_by(step).map(|i| (start + i) % keys.len());
        order.map(|i| (self.cost(keys[i]), i)).max_by_key(|(c, _)| *c).map(|(_, i)| i)
    }

    fn pattern(&mut self, ops: &[Op], trap: u64, paged: bool) -> Res {
        let mut model = self.state.model.copy();
        let mut left = trap;
        let mut r = Rng::new(mix(self.l.seed, ops.len() as u64));
        let every = if ops.len() < 100 { r.range(5, 40) } else { ops.len() as u64 / r.range(2, 6) };
        for (i, op) in ops.iter().enumerate() {
            let now;
            let op = match op.o {
                O::Insert if paged => {
                    now = Op { o: O::PInsert, k: op.k % 64, ..op.clone() };
                    &now
                }
                _ if paged => continue,
                _ => op,
            };
            let count = if paged && i % 64 != 0 { 0 } else { model.entries() };
            let (before, compares) = (types::ticks(), types::compares());
            let t = left;
            if self.interruptible("an operation", t, |x| x.apply(op))?.is_none() {
                left = 0;
                // Whether it was done or not: do it now.
                self.interruptible("an operation", 0, |x| x.apply(op))?;
            } else {
                if left > 0 {
                    left = left.saturating_sub(types::ticks() - before).max(1);
                }
                let c = types::compares() - compares;
                let most = 2.0 * (4.0 * ((count + 2) as f64).log2() + 4.0);
                if op.o != O::Fill && count > 0 && c as f64 > most {
                    return self.ctx.fail("comparisons", format!("{:?} takes {} comparisons with {} entries", op, c, count));
                }
            }
            model.apply(op);
            if (i as u64 + 1) % every == 0 {
                self.state = State { model: model.copy().into(), content: self.state.content.clone() };
                self.depth()?;
            }
        }
        self.ctx.add("operations in patterns", ops.len() as u64);
        self.state = State { model: model.into(), content: self.state.content.clone() };
        Ok(())
    }

    /// How deep the answers are, and how long finding a key takes.
    fn depth(&mut self) -> Res {
        let mut real = self.real.take().unwrap();
        let keys = self.state.model.keys();
        let n = self.state.model.entries();
        let paged = self.kind.family == Family::Paged;
        let log = ((n + 1) as f64).log2();
        let (most_forks, most_in_all, most_cmp) = (3.0 * log + 3.0, 4.0 * log + 4.0, 4.0 * log + 4.0);
        let mut ask: Vec<u32> = keys.iter().copied().take(8).collect();
        ask.extend(keys.iter().rev().take(8));
        let step = (keys.len() / 60).max(1);
        ask.extend(keys.iter().step_by(step));
        for i in 0..10 {
            ask.push(mix(self.l.seed, i) as u32 % (1 << 20));
        }
        ask.push(0);
        ask.push((1 << 20) - 1);
        // Next to where the tree is deepest, too.
        let deep = keys.iter().step_by((keys.len() / 1000).max(1)).map(|k| {
            let before = types::compares();
            let _ = guarded(|| real.find(*k, 0));
            (types::compares() - before, *k)
        });
        if let Some((_, k)) = deep.max() {
            ask.extend([k, k.saturating_sub(1), k + 1]);
        }
        for (i, k) in ask.into_iter().enumerate() {
            // The pages of a key, from none to one too many.
            let b = if paged { i as u32 % (n as u32 / keys.len().max(1) as u32 + 2) } else { 0 };
            let kind = match (paged, i % 3) {
                (false, _) => QK::Key,
                (true, 0) => QK::LastPage,
                _ => QK::Page,
            };
            let q = Q { q: kind, k, b, ..Q::default() };
            let w = calm(self.ctx, "a witness", || real.witness(&q))?.unwrap_or_default();
            let t = match spec::parse(&w) {
                Ok(t) => t,
                Err(e) => return self.ctx.fail("answer malformed", e),
            };
            self.ctx.count("witness depths measured");
            if t.depth() as f64 > most_forks {
                return self.ctx.fail("depth", format!("the witness for {} is {} forks deep in a map of {} entries", k, t.depth(), n));
            }
            if t.forks() as f64 > most_in_all {
                return self.ctx.fail("depth", format!("the witness for {} has {} forks in a map of {} entries", k, t.forks(), n));
            }
            let how = if paged { i as u32 % 2 * (b + 1) } else { i as u32 % 6 };
            let before = types::compares();
            calm(self.ctx, "a lookup", || real.find(k, how))?;
            let c = types::compares() - before;
            if c as f64 > most_cmp {
                return self.ctx.fail("comparisons", format!("finding {} takes {} comparisons in a map of {} entries", k, c, n));
            }
        }
        self.real = Some(real);
        Ok(())
    }
}
