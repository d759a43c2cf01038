//! What all engines share: which guarantees a run checks, the statistics it keeps, and the checks of a
//! single state and a single answer.

use crate::coll::{Gen, Model, Real, Q, QK};
use crate::content::{self, Class, C};
use crate::rng::{mix, Rng};
use crate::spec::{self, H, T};
use crate::types::Trap;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Violation {
    pub prop: String,
    /// Which check failed; stays the same while a plan is minimised.
    pub code: String,
    pub what: String,
}

/// What a run checks.
#[derive(Clone, Copy, Default)]
pub struct Flags {
    pub full: bool,
    pub reply: bool,
    pub dump: bool,
    pub present: bool,
    pub absent: bool,
    pub list: bool,
    pub group: bool,
    pub tamper: bool,
    pub cross: bool,
    pub snap: bool,
    pub collide: bool,
    pub ascending: bool,
    pub memory: bool,
    pub interrupted: bool,
    pub damage: bool,
    pub depth: bool,
    pub chain: bool,
    pub pages: bool,
    pub work: bool,
    pub foreign: bool,
}

impl Flags {
    pub fn of(prop: &str) -> Flags {
        let n = Flags::default();
        match prop {
            "C01" => Flags { full: true, ..n },
            "C02" => Flags { reply: true, dump: true, ..n },
            "C03" => Flags { present: true, ..n },
            "C04" => Flags {
                absent: true,
                ascending: true,
                ..n
            },
            "C05" => Flags { list: true, ..n },
            "C06" => Flags { tamper: true, collide: true, ..n },
            "C07" => Flags { cross: true, ..n },
            "C08" => Flags { snap: true, ..n },
            "C09" => Flags { damage: true, ..n },
            "C10" => Flags { chain: true, dump: true, ..n },
            "C11" => Flags {
                reply: true,
                dump: true,
                present: true,
                absent: true,
                pages: true,
                ..n
            },
            "C12" => Flags {
                full: true,
                present: true,
                absent: true,
                list: true,
                group: true,
                ascending: true,
                ..n
            },
            "C13" => Flags { memory: true, ..n },
            "C14" => Flags { depth: true, ..n },
            "C17" => Flags { work: true, ..n },
            "C19" => Flags {
                foreign: true,
                full: true,
                dump: true,
                ..n
            },
            "C18" => Flags {
                full: true,
                dump: true,
                present: true,
                group: true,
                ..n
            },
            "C15" => Flags {
                interrupted: true,
                full: true,
                dump: true,
                reply: true,
                present: true,
                absent: true,
                list: true,
                group: true,
                ..n
            },
            _ => n,
        }
    }
    pub fn wants(&self, c: Class) -> bool {
        match c {
            Class::Present => self.present,
            Class::Absent => self.absent,
            Class::List => self.list,
            Class::Group => self.group,
        }
    }
}

/// The state of one run.
pub struct Ctx {
    pub prop: String,
    pub on: Flags,
    pub counts: BTreeMap<String, u64>,
    pub states: HashSet<u64>,
    pub trace: u64,
    pub steps: u64,
    pub sim_ms: u64,
    /// Roots seen in this run, with the contents they stand for.
    pub roots: HashMap<H, Rc<C>>,
    pub verbose: bool,
    /// Everything was dropped again.
    pub finished: bool,
    /// What the contents were after each operation that was interrupted.
    pub became: BTreeMap<u64, Became>,
    /// The same history with nothing interrupted: each such operation is left out or done instead.
    pub sham: Option<BTreeMap<u64, Became>>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Became {
    Before,
    After,
    Other,
}

pub type Res = Result<(), Violation>;

impl Ctx {
    pub fn new(prop: &str, verbose: bool) -> Ctx {
        Ctx {
            prop: prop.into(),
            on: Flags::of(prop),
            counts: BTreeMap::new(),
            states: HashSet::new(),
            trace: 0,
            steps: 0,
            sim_ms: 0,
            roots: HashMap::new(),
            verbose,
            finished: false,
            became: BTreeMap::new(),
            sham: None,
        }
    }
    pub fn count(&mut self, what: &str) {
        match self.counts.get_mut(what) {
            Some(n) => *n += 1,
            None => {
                self.counts.insert(what.into(), 1);
            }
        }
    }
    pub fn add(&mut self, what: &str, n: u64) {
        *self.counts.entry(what.into()).or_insert(0) += n;
    }
    pub fn fail<X>(&self, code: &str, what: impl Into<String>) -> Result<X, Violation> {
        let mut code = code;
        // Whether an operation gets done at all is not what these are about.
        if code == "panic" && ["C06", "C13", "C14", "C17"].contains(&self.prop.as_str()) {
            code = QUIET;
        }
        Err(Violation {
            prop: self.prop.clone(),
            code: code.into(),
            what: what.into(),
        })
    }
    /// Fold an event into the digest of the run.
    pub fn event(&mut self, what: &str) {
        self.steps += 1;
        self.trace = mix(self.trace, fnv(what.as_bytes()));
        if self.verbose {
            println!("  {}", what);
        }
    }
    pub fn see(&mut self, c: &C) {
        self.states.insert(digest(c));
    }
}

pub fn fnv(b: &[u8]) -> u64 {
    b.iter().fold(0xcbf2_9ce4_8422_2325, |h, x| (h ^ *x as u64).wrapping_mul(0x1000_0000_01b3))
}
pub fn digest(c: &C) -> u64 {
    match c {
        C::Leaf(b) => mix(1, fnv(b)),
        C::Map(v) => v.iter().fold(2, |h, (l, c)| mix(mix(h, fnv(l)), digest(c))),
        C::Any => 4,
        C::Seq(v) => v.iter().fold(3, |h, c| mix(h, digest(c))),
    }
}

// ---------------------------------------------------------------- panics

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

static ANYWHERE: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());

pub fn last_panic_anywhere() -> String {
    ANYWHERE.lock().map(|s| s.clone()).unwrap_or_default()
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        crate::seams::untagged(|| {
            let m = i
                .payload()
                .downcast_ref::<&str>()
                .map(|s| s.to_string())
                .or_else(|| i.payload().downcast_ref::<String>().cloned())
                .unwrap_or_default();
            let at = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            *ANYWHERE.lock().unwrap_or_else(|e| e.into_inner()) = format!("{} at {}", m, at);
            let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = format!("{} at {}", m, at));
        })
    }));
}

/// The run cannot go on, for a reason that is not its own property.
pub const QUIET: &str = "quiet";

pub enum Ended<R> {
    Done(R),
    Trapped,
    Panicked(String),
}

/// Run library code, and tell a simulated panic of the caller's code from a panic of the library.
pub fn guarded<R>(f: impl FnOnce() -> R) -> Ended<R> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Ended::Done(r),
        Err(p) if p.is::<Trap>() => Ended::Trapped,
        Err(_) => Ended::Panicked(LAST_PANIC.with(|p| p.borrow().clone())),
    }
}

pub fn calm<R>(ctx: &Ctx, what: &str, f: impl FnOnce() -> R) -> Result<R, Violation> {
    match guarded(f) {
        Ended::Done(r) => Ok(r),
        Ended::Trapped => ctx.fail("panic", format!("{}: an interruption nobody asked for", what)),
        Ended::Panicked(m) => ctx.fail("panic", format!("{} panics: {}", what, m)),
    }
}

// ---------------------------------------------------------------- checks

/// A state and what it contains.
#[derive(Clone)]
pub struct State {
    pub model: Rc<dyn Model>,
    pub content: Rc<C>,
}
impl State {
    pub fn of(m: Box<dyn Model>) -> State {
        let content = Rc::new(m.content());
        State { model: Rc::from(m), content }
    }
}

/// The checks on a collection that is at rest in a known state.
pub fn audit(ctx: &mut Ctx, x: &dyn Real, s: &State) -> Res {
    if ctx.on.dump {
        ctx.count("audits of contents");
        let got = calm(ctx, "reading the contents", || x.dump())?;
        let want = s.model.dump();
        if got != want {
            return ctx.fail("contents", format!("contents are {} and should be {}", cut(&got), cut(&want)));
        }
        let got = calm(ctx, "looking up every key", || x.probe())?;
        let want = s.model.probe();
        if got != want {
            return ctx.fail("lookups", format!("lookups find {} and should find {}", cut(&got), cut(&want)));
        }
    }
    if ctx.on.chain {
        ctx.count("audits of running hashes");
        let (bytes, _) = calm(ctx, "the full tree", || x.full())?;
        let t = match spec::parse(&bytes) {
            Ok(t) => t,
            Err(e) => return ctx.fail("full tree malformed", e),
        };
        if let Err(e) = content::full(&t, &s.content) {
            return ctx.fail("running hash", e);
        }
        if let C::Seq(_) = *s.content {
            let root = calm(ctx, "the root", || x.root())?;
            if root != s.content.digest() {
                return ctx.fail("running hash", "the root is not the running hash of the items");
            }
        }
    }
    if ctx.on.full || ctx.on.ascending {
        ctx.count("audits of the full tree");
        let (bytes, rec) = calm(ctx, "the full tree", || x.full())?;
        let t = match spec::parse(&bytes) {
            Ok(t) => t,
            Err(e) => return ctx.fail("full tree malformed", e),
        };
        if ctx.on.full {
            let root = calm(ctx, "the root", || x.root())?;
            let h = t.hash();
            if h != root {
                return ctx.fail(
                    "root is not the full tree's",
                    format!("the root is {} and the full tree hashes to {}", spec::hex(&root[..4]), spec::hex(&h[..4])),
                );
            }
            if rec != h {
                return ctx.fail("reconstruct", "the library reconstructs another hash from the full tree");
            }
            if let Err(e) = content::full(&t, &s.content) {
                return ctx.fail("full tree", e);
            }
        }
        if ctx.on.ascending && s.model.ordered() {
            if let Err(e) = content::ascending(&t) {
                return ctx.fail("labels", e);
            }
        }
    }
    if ctx.on.collide {
        let root = calm(ctx, "the root", || x.root())?;
        collide(ctx, root, &s.content)?;
    }
    Ok(())
}

pub fn collide(ctx: &mut Ctx, root: H, c: &Rc<C>) -> Res {
    ctx.count("roots compared");
    if let Some(o) = ctx.roots.get(&root) {
        if o != c {
            return ctx.fail(
                "same root",
                format!("{} is the root of {} and of {}", spec::hex(&root[..4]), cut(&format!("{:?}", o)), cut(&format!("{:?}", c))),
            );
        }
    } else {
        ctx.roots.insert(root, c.clone());
    }
    Ok(())
}

/// The answer to a query, as a client sees it, against the state it is about.
pub fn answer(ctx: &mut Ctx, bytes: &[u8], root: &H, s: &State, q: &Q) -> Res {
    let e = match s.model.expect(q) {
        Some(e) => e,
        None => return Ok(()),
    };
    let class = content::class(&s.content, &e);
    if !ctx.on.wants(class) {
        return Ok(());
    }
    ctx.count(match class {
        Class::Present => "answers verified: present",
        Class::Absent => "answers verified: absent",
        Class::List => "answers verified: list",
        Class::Group => "answers verified: group",
    });
    let t = match spec::parse(bytes) {
        Ok(t) => t,
        Err(e) => return ctx.fail("answer malformed", format!("{:?}: {}", q, e)),
    };
    if t.hash() != *root {
        return ctx.fail("answer rejected", format!("the answer to {:?} does not hash to the certified root: {:?}", q, t));
    }
    if let Err(e) = content::check(&t, &s.content, &e, s.model.ordered()) {
        return ctx.fail("answer wrong", format!("{:?}: {}", q, e));
    }
    if let Err(e) = content::sound(&t, &s.content, &[], s.model.ordered()) {
        return ctx.fail("answer misleads", format!("{:?}: {}", q, e));
    }
    Ok(())
}

/// The library's own reading of a witness is that of the client.
pub fn reading(ctx: &mut Ctx, x: &dyn Real, q: &Q) -> Res {
    if !["C03", "C05"].contains(&ctx.prop.as_str()) {
        return Ok(());
    }
    let r = match calm(ctx, "the library's reading of a witness", || x.reading(q))? {
        Some(r) => r,
        None => return Ok(()),
    };
    ctx.count("witnesses read by the library too");
    let t = match spec::parse(&r.bytes) {
        Ok(t) => t,
        Err(e) => return ctx.fail("answer malformed", format!("{:?}: {}", q, e)),
    };
    if t.hash() != r.hash {
        return ctx.fail("reconstruct", format!("the library reconstructs another hash from the witness for {:?}", q));
    }
    let (mut labels, mut leaves) = (Vec::new(), Vec::new());
    t.shown(&mut labels, &mut leaves);
    if !r.labels.iter().eq(labels.iter().copied()) {
        return ctx.fail("get_labels", format!("the library lists other labels than {:?} shows for {:?}", t, q));
    }
    if !r.leaves.iter().eq(leaves.iter().copied()) {
        return ctx.fail("get_leaf_values", format!("the library lists other values than {:?} shows for {:?}", t, q));
    }
    if !r.equal {
        return ctx.fail("equality", format!("the library confuses parts of {:?}", t));
    }
    Ok(())
}

/// A query of the kind this run is about, in the state at hand.
pub fn gen_read(ctx: &Ctx, s: &State, r: &mut Rng, g: &Gen) -> Q {
    let mut q = s.model.gen_q(r, g);
    for _ in 0..12 {
        let e = s.model.expect(&q);
        let good = match &e {
            Some(e) => ctx.on.wants(content::class(&s.content, e)) && (q.q != QK::Full || r.chance(1, 8)),
            None => false,
        };
        if good || !(ctx.on.present || ctx.on.absent || ctx.on.list || ctx.on.group) {
            break;
        }
        q = s.model.gen_q(r, g);
    }
    q
}

pub fn cut(s: &str) -> String {
    if s.len() <= 400 {
        return s.into();
    }
    let mut n = 400;
    while !s.is_char_boundary(n) {
        n -= 1;
    }
    format!("{}..", &s[..n])
}

/// Hide random parts of a tree, which leaves its hash as it is.
pub fn prune(t: &T, r: &mut Rng, num: u64, den: u64) -> T {
    if r.chance(num, den) {
        return T::Pruned(t.hash());
    }
    match t {
        T::Fork(a, b) => T::Fork(Box::new(prune(a, r, num, den)), Box::new(prune(b, r, num, den))),
        T::Labeled(l, t) => T::Labeled(l.clone(), Box::new(prune(t, r, num, den))),
        t => t.clone(),
    }
}
