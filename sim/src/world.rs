//! A simulated subnet: clients, an untrusted network, a sequencer that decides the order of messages, and
//! replicas that each hold one real collection. Every delay, loss, crash and interleaving follows from the
//! plan and its seed.

use crate::coll::{Gen, Op, Real, Q};
use crate::content;
use crate::engine::*;
use crate::rng::{mix, Rng};
use crate::runs::Size;
use crate::seams;
use crate::spec::{self, H};
use crate::subjects::{Fmt, Kind};
use crate::tamper::{self, How};
use crate::types;
use serde::{Deserialize, Serialize};
use std::cmp::Reverse;
use std::collections::{BTreeMap, BTreeSet, BinaryHeap};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct World {
    pub seed: u64,
    pub kind: String,
    /// The layout, for a group.
    #[serde(default)]
    pub start: u32,
    pub gen: Gen,
    pub replicas: usize,
    /// Out of 1000: messages lost and duplicated; and the longest delay in ms.
    pub loss: u64,
    pub dup: u64,
    pub delay: u64,
    /// How often the state is audited: after one block in so many.
    pub every: u64,
    pub acts: Vec<At>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct At {
    /// When, in ms.
    pub t: u64,
    /// Names the event; network decisions about it depend on this number only.
    pub id: u64,
    pub act: Act,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Act {
    /// A client submits an update. It traps before its n-th operation, if told to.
    Update {
        ops: Vec<Op>,
        #[serde(default, skip_serializing_if = "Option::is_none")]
        trap: Option<usize>,
    },
    /// A client asks a replica; a relay may alter the answer.
    Query {
        r: usize,
        q: Q,
        #[serde(default, skip_serializing_if = "Option::is_none")]
        how: Option<How>,
    },
    /// A replica that is not honest sends a pruning of the certified tree instead of an answer.
    Liar { r: usize },
    Upgrade { fmt: Fmt },
    /// A replica loses its memory: at once, or at the n-th call of caller code while executing.
    Crash { r: usize, mid: u64, down: u64 },
    /// A replica is cut off from everyone.
    Cut { r: usize, len: u64 },
    Slow { r: usize, len: u64, by: u64 },
    /// Reads served by one replica only.
    Reads { r: usize, n: u64 },
    /// Rerun the history with its last update changed, and compare the roots.
    Branch { n: u64 },
}

// ---------------------------------------------------------------- generating

pub fn generate(prop: &str, seed: u64, kind: &Kind, size: Size) -> World {
    let long = size.long;
    let mut r = Rng::new(seed);
    let on = Flags::of(prop);
    let keys = *r.pick(&[2, 4, 6, 10, 16, 24, 40]);
    let removing = *r.pick(&[5, 15, 30, 45]);
    let gen = Gen {
        pool: r.below(1 << 20) as u32,
        keys,
        values: if kind.name.contains("AV") { 64 * types::AV::types() } else { *r.pick(&[3, 8, 40]) },
        remove: removing,
        edit: *r.pick(&[4, 15, 30]),
        clear: *r.pick(&[0, 0, 1, 3]),
        fill: if size.big { *r.pick(&[120, 400, 900]) } else { 0 },
        deep: if size.big { *r.pick(&[0, 0, 40, 150]) } else { 0 },
        focus: if kind.name.contains("AV") && r.chance(1, 4) { 1 + r.below(types::AV::types() as u64) as u32 } else { 0 },
    };
    let start = if kind.group { r.below(1 << 20) as u32 } else { 0 };
    let calm = r.chance(1, 6);
    let replicas = if on.cross { r.range(2, 4) } else { *r.pick(&[1, 1, 2, 3]) } as usize;
    let rate = |r: &mut Rng, xs: &[u64]| if calm { 0 } else { *r.pick(xs) };
    let mut w = World {
        seed,
        kind: kind.name.into(),
        start,
        gen: gen.clone(),
        replicas,
        loss: rate(&mut r, &[0, 20, 100, 300]),
        dup: rate(&mut r, &[0, 20, 150]),
        delay: *r.pick(&[5, 40, 200, 800]),
        every: if long { *r.pick(&[1, 1, 3]) } else { *r.pick(&[1, 1, 1, 2, 4]) },
        acts: Vec::new(),
    };
    // The updates are generated against a model, so that they hit what is there.
    let mut model = (kind.model)(start);
    let msgs = match (size.big, long) {
        (true, _) => r.range(2, 12),
        (false, true) => r.range(20, 200),
        (false, false) => r.range(6, 70),
    };
    let queries = on.present || on.absent || on.list || on.group || on.tamper || on.cross;
    let upgrades = kind.snap.is_some() && r.chance(1, if on.snap { 1 } else { 3 });
    let crash = if calm { 0 } else { *r.pick(&[0, 2, 5]) };
    let trap = if calm { 0 } else { *r.pick(&[0, 3, 8]) };
    let mut t = 0u64;
    let mut id = 0u64;
    let mut put = |w: &mut World, t: u64, act: Act| {
        id += 1;
        w.acts.push(At { t, id, act });
    };
    // A run often starts with a burst that fills the collection.
    let fill = if r.chance(1, 2) && !size.big { r.range(0, 2 * keys as u64) } else { 0 };
    if size.big {
        let op = model.first_fill(&mut r, &gen, false);
        model.apply(&op);
        put(&mut w, t, Act::Update { ops: vec![op], trap: None });
    }
    for m in 0..msgs + fill {
        let filling = m < fill;
        t += if filling { r.below(20) } else { r.below(160) };
        let g = if filling { Gen { remove: 2, clear: 0, ..gen.clone() } } else { gen.clone() };
        let n = *r.pick(&[1, 1, 2, 3, 6]);
        let mut ops = Vec::new();
        for _ in 0..n {
            let op = model.gen_op(&mut r, &g);
            model.apply(&op);
            ops.push(op);
        }
        let trap = if r.chance(trap, 100) { Some(r.below(n as u64 + 1) as usize) } else { None };
        put(&mut w, t, Act::Update { ops, trap });
        let rep = r.below(replicas as u64) as usize;
        if queries {
            for _ in 0..r.below(3) {
                let mut q = model.gen_q(&mut r, &g);
                if on.tamper || r.chance(1, 2) {
                    q = model.gen_q(&mut r, &g);
                }
                let how = if on.tamper && r.chance(4, 5) { Some(*r.pick(&tamper::ALL)) } else { None };
                put(&mut w, t + r.below(200), Act::Query { r: rep, q, how });
            }
            if (on.tamper || on.absent) && r.chance(1, 3) {
                put(&mut w, t + r.below(200), Act::Liar { r: rep });
            }
        }
        if r.chance(1, if on.cross || queries { 4 } else { 20 }) {
            put(&mut w, t + r.below(300), Act::Reads { r: rep, n: r.range(1, 12) });
        }
        if on.collide && r.chance(1, 6) {
            put(&mut w, t + r.below(300), Act::Branch { n: r.range(1, 4) });
        }
        if upgrades && r.chance(1, 12) {
            let fmt = pick_fmt(&mut r, kind);
            put(&mut w, t + r.below(300), Act::Upgrade { fmt });
        }
        if !calm {
            let rep = r.below(replicas as u64) as usize;
            if r.chance(crash, 100) {
                let mid = if r.chance(1, 2) { crate::local::spread(&mut r, 8) } else { 0 };
                let down = r.below(600);
                put(&mut w, t + r.below(300), Act::Crash { r: rep, mid, down });
            }
            if r.chance(2, 100) {
                put(&mut w, t, Act::Cut { r: rep, len: r.range(50, 2000) });
            }
            if r.chance(2, 100) {
                put(&mut w, t, Act::Slow { r: rep, len: r.range(50, 2000), by: r.range(10, 300) });
            }
        }
    }
    w
}

pub fn pick_fmt(r: &mut Rng, kind: &Kind) -> Fmt {
    match (&kind.snap, r.below(5)) {
        (Some(s), 0 | 1) if s.candid => Fmt::Candid,
        (_, 2) => Fmt::CborSlice,
        (_, 3) => Fmt::Packed,
        _ => Fmt::Cbor,
    }
}

// ---------------------------------------------------------------- the run

#[derive(Clone, Debug)]
enum Ev {
    /// The n-th act of the plan happens.
    Act(usize),
    /// A client sends its update (again).
    Send(usize, u64),
    AtSequencer(usize),
    Acked(usize),
    Cut,
    Seal,
    Push(usize),
    /// A block, and the replica's report of the root after it.
    Block(usize, usize),
    Report(usize, usize, H),
    Certified(usize, usize),
    /// A replica executes its next block; void when it crashed meanwhile.
    Step(usize, u64),
    Restart(usize),
    Ask(usize, u64),
    Asked(usize, usize),
    /// An answer: the act, the height it is about, the bytes, and how it was altered.
    Reply(usize, usize, Vec<u8>, bool),
}

struct Replica {
    real: Option<Box<dyn Real>>,
    height: usize,
    life: u64,
    arrived: BTreeSet<usize>,
    certified: BTreeSet<usize>,
    cut: u64,
    slow: (u64, u64),
    busy: bool,
    mid: u64,
}

struct Run<'a> {
    ctx: &'a mut Ctx,
    w: &'a World,
    kind: &'a Kind,
    now: u64,
    seq: u64,
    heap: BinaryHeap<Reverse<(u64, u64, usize)>>,
    events: Vec<Ev>,
    quiet: u64,
    pool: Vec<usize>,
    ordered: Vec<usize>,
    sealed: bool,
    /// Blocks, from height 1 on; each is a list of acts.
    blocks: Vec<Vec<usize>>,
    states: Vec<State>,
    replies: Vec<Vec<String>>,
    roots: Vec<Option<H>>,
    reported: Vec<BTreeMap<usize, H>>,
    certs: Vec<Option<H>>,
    /// The upgrades: at which height, and the bytes saved.
    snapshots: BTreeMap<usize, (Fmt, Vec<u8>)>,
    saved: BTreeMap<usize, Vec<u8>>,
    replicas: Vec<Replica>,
    seen: Vec<Vec<u8>>,
    done: BTreeSet<usize>,
    answers: BTreeMap<(usize, u64), Vec<u8>>,
}

pub fn run(ctx: &mut Ctx, w: &World, kind: &Kind) -> Res {
    seams::set_entropy(mix(w.seed, 1));
    let replicas: Vec<Replica> = (0..w.replicas.max(1))
        .map(|_| Replica {
            real: None,
            height: 0,
            life: 0,
            arrived: BTreeSet::new(),
            certified: BTreeSet::new(),
            cut: 0,
            slow: (0, 0),
            busy: false,
            mid: 0,
        })
        .collect();
    let s0 = State::of((kind.model)(w.start));
    let mut run = Run {
        ctx,
        w,
        kind,
        now: 0,
        seq: 0,
        heap: BinaryHeap::new(),
        events: Vec::new(),
        quiet: w.acts.iter().map(|a| a.t).max().unwrap_or(0) + 500,
        pool: Vec::new(),
        ordered: Vec::new(),
        sealed: false,
        blocks: vec![Vec::new()],
        states: vec![s0],
        replies: vec![Vec::new()],
        roots: vec![None],
        reported: vec![BTreeMap::new()],
        certs: vec![None],
        snapshots: BTreeMap::new(),
        saved: BTreeMap::new(),
        replicas,
        seen: Vec::new(),
        done: BTreeSet::new(),
        answers: BTreeMap::new(),
    };
    let out = run.all();
    let ms = run.now;
    ctx.sim_ms += ms;
    out
}

const LIMIT: u64 = 120_000;

impl Run<'_> {
    fn at(&mut self, t: u64, e: Ev) {
        self.seq += 1;
        self.events.push(e);
        self.heap.push(Reverse((t, self.seq, self.events.len() - 1)));
    }

    /// Send a message over the network. `name` decides its fate.
    fn net(&mut self, name: u64, a: Option<usize>, b: Option<usize>, e: Ev) {
        let mut r = Rng::new(mix(self.w.seed ^ 0x7E7, name));
        let faulty = self.now < self.quiet;
        for x in [a, b].into_iter().flatten() {
            if self.replicas[x].cut > self.now && faulty {
                self.ctx.count("faults: message lost in a partition");
                return;
            }
        }
        if faulty && r.below(1000) < self.w.loss {
            self.ctx.count("faults: message lost");
            return;
        }
        let delay = |r: &mut Rng, w: &World| if faulty { 1 + r.below(w.delay) } else { 1 + r.below(5) };
        let d = delay(&mut r, self.w);
        if faulty && r.below(1000) < self.w.dup {
            self.ctx.count("faults: message duplicated");
            let d2 = delay(&mut r, self.w) + r.below(500);
            self.at(self.now + d2, e.clone());
        }
        self.ctx.count("messages delivered");
        self.at(self.now + d, e);
    }

    fn all(&mut self) -> Res {
        for i in 0..self.replicas.len() {
            self.boot(i)?;
            self.replicas[i].certified.insert(0);
        }
        for i in 0..self.w.acts.len() {
            self.at(self.w.acts[i].t, Ev::Act(i));
        }
        self.at(20, Ev::Cut);
        loop {
            let Reverse((t, _, e)) = match self.heap.pop() {
                Some(x) => x,
                None => break,
            };
            self.now = t;
            if t > self.quiet + LIMIT {
                return self.ctx.fail("no progress", "messages or answers are still outstanding long after the last fault");
            }
            let e = std::mem::replace(&mut self.events[e], Ev::Seal);
            self.step(e)?;
        }
        // Everyone has caught up, and agrees.
        let last = self.blocks.len() - 1;
        for i in 0..self.replicas.len() {
            if self.replicas[i].height != last {
                return self.ctx.fail("no progress", format!("replica {} stopped at {} of {}", i, self.replicas[i].height, last));
            }
        }
        let open = self.w.acts.iter().enumerate().find(|(i, a)| matches!(a.act, Act::Update { .. } | Act::Upgrade { .. }) && !self.done.contains(i));
        if let Some((i, _)) = open {
            return self.ctx.fail("no progress", format!("update {} was never executed", i));
        }
        Ok(())
    }

    fn step(&mut self, e: Ev) -> Res {
        match e {
            Ev::Seal => {}
            Ev::Act(i) => self.act(i)?,
            Ev::Send(i, n) => {
                if !self.done.contains(&i) {
                    let id = self.w.acts[i].id;
                    self.net(mix(id, 100 + n), None, None, Ev::AtSequencer(i));
                    self.at(self.now + 150 + 40 * n.min(20), Ev::Send(i, n + 1));
                }
            }
            Ev::AtSequencer(i) => {
                if !self.pool.contains(&i) && !self.ordered.contains(&i) {
                    self.pool.push(i);
                }
                if self.ordered.contains(&i) {
                    let name = mix(self.w.acts[i].id, 7 + self.now);
                    self.net(name, None, None, Ev::Acked(i));
                }
            }
            Ev::Acked(i) => {
                self.done.insert(i);
            }
            Ev::Cut => {
                if !self.pool.is_empty() {
                    self.seal();
                }
                let all = self.w.acts.iter().enumerate().all(|(i, a)| !matches!(a.act, Act::Update { .. } | Act::Upgrade { .. }) || self.ordered.contains(&i));
                if !all || self.now < self.quiet {
                    self.at(self.now + 50, Ev::Cut);
                }
            }
            Ev::Push(h) => {
                // Keep sending a block until every replica has it.
                let mut missing = false;
                for i in 0..self.replicas.len() {
                    if self.replicas[i].height < h && !self.replicas[i].arrived.contains(&h) {
                        missing = true;
                        let name = mix(mix(h as u64, i as u64), self.now);
                        self.net(name, Some(i), None, Ev::Block(i, h));
                    } else if self.certs[h].is_some() && !self.replicas[i].certified.contains(&h) {
                        missing = true;
                        let name = mix(mix(h as u64, i as u64), self.now ^ 0xCE);
                        self.net(name, Some(i), None, Ev::Certified(i, h));
                    } else if self.certs[h].is_none() || self.replicas[i].height < h {
                        missing = true;
                    }
                }
                if missing {
                    self.at(self.now + 120, Ev::Push(h));
                }
            }
            Ev::Block(i, h) => {
                if self.replicas[i].real.is_some() {
                    self.replicas[i].arrived.insert(h);
                    self.wake(i);
                }
            }
            Ev::Step(i, life) => {
                if self.replicas[i].life == life && self.replicas[i].real.is_some() {
                    self.execute(i)?
                }
            }
            Ev::Report(i, h, root) => {
                self.reported[h].insert(i, root);
                let need = self.replicas.len() / 2 + 1;
                if self.certs[h].is_none() {
                    let n = self.reported[h].values().filter(|r| **r == root).count();
                    if n >= need || self.reported[h].len() == self.replicas.len() {
                        self.certs[h] = Some(root);
                        for j in 0..self.replicas.len() {
                            self.net(mix(mix(h as u64, j as u64), 0xCE1), Some(j), None, Ev::Certified(j, h));
                        }
                    }
                }
            }
            Ev::Certified(i, h) => {
                self.replicas[i].certified.insert(h);
            }
            Ev::Restart(i) => {
                if self.replicas[i].real.is_none() {
                    self.boot(i)?;
                    self.wake(i);
                }
            }
            Ev::Ask(a, n) => {
                if !self.done.contains(&a) {
                    let r = self.target(a);
                    let id = self.w.acts[a].id;
                    self.net(mix(id, 500 + n), Some(r), None, Ev::Asked(a, r));
                    self.at(self.now + 200 + 50 * n.min(20), Ev::Ask(a, n + 1));
                }
            }
            Ev::Asked(a, r) => self.asked(a, r)?,
            Ev::Reply(a, h, b, altered) => self.reply(a, h, b, altered)?,
        }
        Ok(())
    }

    fn target(&self, a: usize) -> usize {
        match self.w.acts[a].act {
            Act::Query { r, .. } | Act::Liar { r } => r % self.replicas.len(),
            _ => 0,
        }
    }

    fn wake(&mut self, i: usize) {
        let r = &self.replicas[i];
        if !r.busy && r.real.is_some() && r.arrived.contains(&(r.height + 1)) {
            let d = if r.slow.0 > self.now && self.now < self.quiet { r.slow.1 } else { 1 };
            self.replicas[i].busy = true;
            let life = self.replicas[i].life;
            self.at(self.now + d, Ev::Step(i, life));
        }
    }

    fn act(&mut self, i: usize) -> Res {
        let n = self.replicas.len();
        match self.w.acts[i].act.clone() {
            Act::Update { .. } | Act::Upgrade { .. } => self.at(self.now, Ev::Send(i, 0)),
            Act::Query { .. } | Act::Liar { .. } => self.at(self.now, Ev::Ask(i, 0)),
            Act::Crash { r, mid, down } => {
                let r = r % n;
                if mid > 0 {
                    self.replicas[r].mid = mid;
                } else if self.replicas[r].real.is_some() {
                    self.ctx.count("faults: replica crashed between messages");
                    self.crash(r, down)?;
                }
            }
            Act::Cut { r, len } => {
                self.ctx.count("faults: replica partitioned");
                self.replicas[r % n].cut = self.now + len;
            }
            Act::Slow { r, len, by } => {
                self.ctx.count("faults: replica slowed");
                self.replicas[r % n].slow = (self.now + len, by);
            }
            Act::Reads { r, n: reads } => self.reads(r % n, reads, self.w.acts[i].id)?,
            Act::Branch { n } => self.branch(n, self.w.acts[i].id)?,
        }
        Ok(())
    }

    /// The next block: everything that has arrived.
    fn seal(&mut self) {
        let pool = std::mem::take(&mut self.pool);
        for i in pool {
            self.ordered.push(i);
            let h = self.blocks.len();
            let mut m = self.states[h - 1].model.copy();
            let mut out = Vec::new();
            let s = match &self.w.acts[i].act {
                Act::Update { ops, trap } => {
                    for (n, op) in ops.iter().enumerate() {
                        if *trap == Some(n) {
                            break;
                        }
                        out.push(m.apply(op));
                    }
                    if trap.is_some() {
                        self.states[h - 1].clone()
                    } else {
                        State::of(m)
                    }
                }
                _ => self.states[h - 1].clone(),
            };
            self.ctx.see(&s.content);
            self.blocks.push(vec![i]);
            self.states.push(s);
            self.replies.push(out);
            self.roots.push(None);
            self.reported.push(BTreeMap::new());
            self.certs.push(None);
            self.at(self.now, Ev::Push(h));
        }
    }

    /// A new process for replica `i`, with what is durable: the last upgrade and the blocks since.
    fn boot(&mut self, i: usize) -> Res {
        let r = &mut self.replicas[i];
        r.life += 1;
        let life = r.life;
        seams::set_layout(mix(self.w.seed, mix(i as u64, life)));
        let h = self.replicas[i].height;
        let real = self.rebuild(h)?;
        if life > 1 {
            self.ctx.count("replica restarted and replayed");
            self.audit(&*real, h)?;
            if self.ctx.on.cross {
                let root = calm(self.ctx, "the root", || real.root())?;
                self.agree(h, root, "after a restart")?;
            }
        }
        self.replicas[i].real = Some(real);
        self.replicas[i].busy = false;
        let height = self.replicas[i].height;
        self.replicas[i].arrived.retain(|x| *x <= height);
        Ok(())
    }

    /// The collection after `h` blocks, made from the last snapshot or from nothing.
    fn rebuild(&mut self, h: usize) -> Result<Box<dyn Real>, Violation> {
        let snap = self.snapshots.range(..=h).next_back().map(|(at, s)| (*at, s.clone()));
        let (mut real, from) = match snap {
            Some((at, (fmt, b))) => (self.load(fmt, &b)?, at),
            None => {
                let (f, n) = (self.kind.fresh, self.w.start);
                (calm(self.ctx, "creating the collection", || f(n))?, 0)
            }
        };
        for x in from + 1..=h {
            for i in self.blocks[x].clone() {
                if let Act::Update { ops, trap: None } = &self.w.acts[i].act {
                    for op in ops {
                        calm(self.ctx, "an operation", || real.apply(op))?;
                    }
                }
            }
        }
        Ok(real)
    }

    fn load(&mut self, fmt: Fmt, b: &[u8]) -> Result<Box<dyn Real>, Violation> {
        let f = self.kind.snap.as_ref().unwrap().load;
        match calm(self.ctx, "restoring", || f(fmt, &mut &b[..]))? {
            Ok(x) => Ok(x),
            Err(e) => self.ctx.fail("restore", format!("the bytes that were saved cannot be restored ({:?}): {}", fmt, e)),
        }
    }

    fn save(&mut self, x: &dyn Real, fmt: Fmt) -> Result<Vec<u8>, Violation> {
        let f = self.kind.snap.as_ref().unwrap().save;
        let mut v = Vec::new();
        match calm(self.ctx, "saving", || f(x, fmt, &mut v))? {
            Ok(()) => Ok(v),
            Err(e) => self.ctx.fail("save", format!("saving fails: {}", e)),
        }
    }

    fn crash(&mut self, i: usize, down: u64) -> Res {
        let old = self.replicas[i].real.take();
        // The destructor does not run in a process that is gone, but it must be able to.
        calm(self.ctx, "dropping the collection", || drop(old))?;
        self.replicas[i].busy = false;
        self.replicas[i].mid = 0;
        self.at(self.now + 1 + down, Ev::Restart(i));
        self.ctx.event(&format!("{} crash {}", self.now, i));
        Ok(())
    }

    fn execute(&mut self, i: usize) -> Res {
        self.replicas[i].busy = false;
        let h = self.replicas[i].height + 1;
        let mut real = match self.replicas[i].real.take() {
            Some(r) => r,
            None => return Ok(()),
        };
        seams::set_layout(mix(self.w.seed, mix(i as u64 + 77, h as u64)));
        self.ctx.event(&format!("{} execute {} {}", self.now, i, h));
        let mut crashed = false;
        for a in self.blocks[h].clone() {
            match &self.w.acts[a].act {
                Act::Update { ops, trap } => {
                    for (n, op) in ops.iter().enumerate() {
                        if *trap == Some(n) {
                            break;
                        }
                        let mid = self.replicas[i].mid;
                        if mid > 0 {
                            types::arm(mid);
                        }
                        let before = types::ticks();
                        let out = guarded(|| real.apply(op));
                        let fired = types::disarm();
                        if mid > 0 {
                            self.replicas[i].mid = mid.saturating_sub(types::ticks() - before).max(1);
                        }
                        match out {
                            Ended::Done(s) => {
                                if self.ctx.on.reply {
                                    self.ctx.count("replies compared");
                                    let want = &self.replies[h][n];
                                    if s != *want {
                                        return self.ctx.fail("reply", format!("{:?} returns {} and should return {}", op, cut(&s), cut(want)));
                                    }
                                }
                            }
                            Ended::Trapped if fired => {
                                crashed = true;
                                break;
                            }
                            Ended::Trapped => return self.ctx.fail("panic", "an interruption nobody asked for"),
                            Ended::Panicked(m) => return self.ctx.fail("panic", format!("{:?} panics: {}", op, m)),
                        }
                    }
                    if crashed {
                        break;
                    }
                    if trap.is_some() {
                        self.ctx.count("faults: message trapped and rolled back");
                        drop(real);
                        real = self.rebuild(h - 1)?;
                    }
                }
                Act::Upgrade { fmt } => real = self.upgrade(real, *fmt, h)?,
                _ => {}
            }
            self.ordered_done(a);
        }
        if crashed {
            self.ctx.count("faults: replica crashed in the middle of an operation");
            let down = mix(self.w.seed, h as u64) % 500;
            self.replicas[i].real = Some(real);
            return self.crash(i, down);
        }
        let root = calm(self.ctx, "the root", || real.root())?;
        self.ctx.event(&format!("root {}", spec::hex(&root[..6])));
        if self.ctx.on.cross {
            self.agree(h, root, "after the same updates")?;
        }
        if self.roots[h].is_none() {
            self.roots[h] = Some(root);
        }
        if h as u64 % self.w.every == 0 || h + 1 == self.blocks.len() {
            self.audit(&*real, h)?;
            if self.ctx.on.cross {
                self.cross_reads(&*real, h)?;
            }
        }
        self.replicas[i].real = Some(real);
        self.replicas[i].height = h;
        self.net(mix(mix(h as u64, i as u64), 0xEE), None, None, Ev::Seal);
        // The report is part of consensus, and arrives.
        let d = 1 + mix(self.w.seed, mix(h as u64, i as u64)) % 20;
        self.at(self.now + d, Ev::Report(i, h, root));
        self.wake(i);
        Ok(())
    }

    fn ordered_done(&mut self, a: usize) {
        self.done.insert(a);
    }

    fn audit(&mut self, real: &dyn Real, h: usize) -> Res {
        let s = self.states[h].clone();
        audit(self.ctx, real, &s)
    }

    fn agree(&mut self, h: usize, root: H, when: &str) -> Res {
        self.ctx.count("roots compared between replicas");
        match self.roots[h] {
            Some(r) if r != root => self.ctx.fail("replicas disagree", format!("at height {} {}: {} and {}", h, when, spec::hex(&r[..4]), spec::hex(&root[..4]))),
            _ => {
                self.roots[h] = Some(root);
                Ok(())
            }
        }
    }

    /// Witnesses that every replica must produce byte for byte.
    fn cross_reads(&mut self, real: &dyn Real, h: usize) -> Res {
        let s = self.states[h].clone();
        let mut r = Rng::new(mix(self.w.seed ^ 0xC4055, h as u64));
        for n in 0..3 {
            let q = s.model.gen_q(&mut r, &self.w.gen);
            let b = match calm(self.ctx, "a witness", || real.witness(&q))? {
                Some(b) => b,
                None => continue,
            };
            self.ctx.count("witnesses compared between replicas");
            match self.answers.get(&(h, n)) {
                Some(o) if *o != b => return self.ctx.fail("replicas disagree", format!("on the witness for {:?} at height {}", q, h)),
                Some(_) => {}
                None => {
                    self.answers.insert((h, n), b);
                }
            }
        }
        Ok(())
    }

    fn upgrade(&mut self, real: Box<dyn Real>, fmt: Fmt, h: usize) -> Result<Box<dyn Real>, Violation> {
        if self.kind.snap.is_none() {
            return Ok(real);
        }
        self.ctx.count(&format!("upgrades: {:?}", fmt));
        let b = self.save(&*real, fmt)?;
        if self.ctx.on.cross {
            match self.saved.get(&h) {
                Some(o) if *o != b => return self.ctx.fail("replicas disagree", format!("on the bytes saved at height {}", h)),
                _ => {}
            }
            self.saved.insert(h, b.clone());
        }
        let new = self.load(fmt, &b)?;
        if self.ctx.on.snap {
            restored(self.ctx, &*real, &*new, &self.states[h])?;
            let again = self.save(&*new, fmt)?;
            if again != b {
                return self.ctx.fail("saved again", format!("the restored collection is saved as {} bytes that differ from the {} it came from", again.len(), b.len()));
            }
            let second = self.load(fmt, &b)?;
            if second.root() != new.root() {
                return self.ctx.fail("restore", "two instances restored from the same bytes have different roots");
            }
        }
        drop(real);
        self.snapshots.insert(h, (fmt, b));
        Ok(new)
    }

    fn asked(&mut self, a: usize, i: usize) -> Res {
        let h = self.replicas[i].height;
        if self.replicas[i].real.is_none() || self.replicas[i].busy || !self.replicas[i].certified.contains(&h) {
            return Ok(());
        }
        if h > 0 && self.certs[h].is_none() {
            return Ok(());
        }
        let real = self.replicas[i].real.take().unwrap();
        if h == 0 && self.certs[0].is_none() {
            self.certs[0] = Some(calm(self.ctx, "the root", || real.root())?);
        }
        let id = self.w.acts[a].id;
        let mut altered = false;
        let b = match &self.w.acts[a].act {
            Act::Query { q, how, .. } => {
                let b = calm(self.ctx, "a witness", || real.witness(q))?;
                match (b, how) {
                    (Some(b), Some(how)) => {
                        self.ctx.count(&format!("faults: answer altered: {:?}", how));
                        altered = true;
                        let mut r = Rng::new(mix(id, self.w.seed));
                        let v = tamper::alter(*how, &mut r, &b, &self.seen);
                        self.seen.push(b);
                        Some(v)
                    }
                    (b, _) => b,
                }
            }
            _ => {
                self.ctx.count("faults: replica pruned its answer");
                altered = true;
                let (full, _) = calm(self.ctx, "the full tree", || real.full())?;
                let mut r = Rng::new(mix(id, self.w.seed));
                let d = *r.pick(&[2, 4, 8, 16]);
                match spec::parse(&full) {
                    Ok(t) => Some(prune(&t, &mut r, 1, d).encode()),
                    Err(e) => return self.ctx.fail("full tree malformed", e),
                }
            }
        };
        if self.ctx.on.tamper && self.seen.len() < 40 {
            let (full, _) = calm(self.ctx, "the full tree", || real.full())?;
            self.seen.push(full);
        }
        self.replicas[i].real = Some(real);
        if let Some(b) = b {
            let name = mix(id, mix(self.now, 9));
            self.net(name, Some(i), None, Ev::Reply(a, h, b, altered));
        } else {
            self.done.insert(a);
        }
        Ok(())
    }

    /// The client has an answer, and a certificate for the height it is about.
    fn reply(&mut self, a: usize, h: usize, b: Vec<u8>, altered: bool) -> Res {
        self.done.insert(a);
        let root = self.certs[h].unwrap_or_default();
        let s = self.states[h].clone();
        self.ctx.event(&format!("{} answer {} {} {}", self.now, a, h, fnv(&b)));
        if !altered {
            if let Act::Query { q, .. } = &self.w.acts[a].act {
                answer(self.ctx, &b, &root, &s, q)?;
            }
        }
        if self.ctx.on.tamper || altered {
            untrusted(self.ctx, &b, &root, &s, &self.w.gen)?;
        }
        Ok(())
    }

    fn reads(&mut self, i: usize, n: u64, id: u64) -> Res {
        let h = self.replicas[i].height;
        let real = match self.replicas[i].real.take() {
            Some(r) => r,
            None => return Ok(()),
        };
        let s = self.states[h].clone();
        let root = calm(self.ctx, "the root", || real.root())?;
        let mut r = Rng::new(mix(self.w.seed, id));
        for _ in 0..n {
            let q = gen_read(self.ctx, &s, &mut r, &self.w.gen);
            self.ctx.count("reads");
            if let Some(b) = calm(self.ctx, "a witness", || real.witness(&q))? {
                answer(self.ctx, &b, &root, &s, &q)?;
                reading(self.ctx, &*real, &q)?;
            }
            if r.chance(1, 3) {
                calm(self.ctx, "iterating", || real.dump())?;
            }
        }
        self.replicas[i].real = Some(real);
        Ok(())
    }

    /// What the state would be had the last update been another one: a state close to the real one must
    /// still have another root.
    fn branch(&mut self, n: u64, id: u64) -> Res {
        let h = self.blocks.len() - 1;
        if h == 0 {
            return Ok(());
        }
        let mut r = Rng::new(mix(self.w.seed ^ 0xB4A, id));
        for _ in 0..n {
            let mut real = self.rebuild(h - 1)?;
            let mut m = self.states[h - 1].model.copy();
            for _ in 0..r.range(0, 2) {
                let op = m.gen_op(&mut r, &self.w.gen);
                m.apply(&op);
                calm(self.ctx, "an operation", || real.apply(&op))?;
            }
            let s = State::of(m);
            let root = calm(self.ctx, "the root", || real.root())?;
            self.ctx.count("neighbouring states built");
            collide(self.ctx, root, &s.content)?;
        }
        Ok(())
    }
}

/// An answer from someone who is not trusted: whatever a client accepts must be true.
pub fn untrusted(ctx: &mut Ctx, b: &[u8], root: &H, s: &State, g: &Gen) -> Res {
    let t = match spec::parse(b) {
        Ok(t) => t,
        Err(_) => {
            ctx.count("altered answers: not a tree");
            return Ok(());
        }
    };
    // A client that verifies with the library must agree with one that follows the specification.
    let lib = calm(ctx, "reconstruct", || tamper::to_lib(&t).reconstruct())?;
    if lib == *root || t.hash() == *root {
        ctx.count("altered answers: accepted, and checked to be true");
        let probes = s.model.probes(g);
        if let Err(e) = content::sound(&t, &s.content, &probes, s.model.ordered()) {
            return ctx.fail("client deceived", e);
        }
    } else {
        ctx.count("altered answers: rejected");
    }
    Ok(())
}

/// A collection just restored, next to the one that was saved.
pub fn restored(ctx: &mut Ctx, old: &dyn Real, new: &dyn Real, s: &State) -> Res {
    ctx.count("restores compared");
    let (a, b) = (calm(ctx, "reading the contents", || old.dump())?, calm(ctx, "reading the contents", || new.dump())?);
    if a != b {
        return ctx.fail("restored contents", format!("{} was saved and {} restored", cut(&a), cut(&b)));
    }
    let (a, b) = (calm(ctx, "looking up every key", || old.probe())?, calm(ctx, "looking up every key", || new.probe())?);
    if a != b {
        return ctx.fail("restored lookups", format!("{} was saved and {} restored", cut(&a), cut(&b)));
    }
    let (bytes, _) = calm(ctx, "the full tree", || new.full())?;
    let root = calm(ctx, "the root", || new.root())?;
    let t = match spec::parse(&bytes) {
        Ok(t) => t,
        Err(e) => return ctx.fail("full tree malformed", e),
    };
    if t.hash() != root {
        return ctx.fail("restored root", "the root of the restored collection is not that of its full tree");
    }
    if let Err(e) = content::full(&t, &s.content) {
        return ctx.fail("restored tree", e);
    }
    if matches!(*s.content, content::C::Seq(_)) && old.root() != root {
        return ctx.fail("restored root", "the sequence had another root before");
    }
    Ok(())
}

