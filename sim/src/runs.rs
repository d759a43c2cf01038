//! A case is one plan for one property. This makes cases from seeds, runs them, and decides whether what
//! was seen is a violation.

use crate::coll;
use crate::engine::{fnv, Became, Ctx, Violation, QUIET};
use crate::known;
use crate::layouts::{self, Layouts};
use crate::local::{self, Local};
use crate::rng::mix;
use crate::seams;
use crate::subjects::{kinds, Family, Kind};
use crate::world::{self, World};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub prop: String,
    pub plan: Plan,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Plan {
    World(World),
    Local(Local),
    Layouts(Layouts),
    /// A pinned scenario.
    Known(String),
    /// Several runs in one process.
    Chunk { seed: u64, from: u64, step: u64, upto: u64, thorough: bool },
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Outcome {
    pub violation: Option<Violation>,
    pub counts: BTreeMap<String, u64>,
    #[serde(default)]
    pub states: Vec<u64>,
    pub trace: u64,
    pub steps: u64,
    pub sim_ms: u64,
}

pub const PROPS: [&str; 18] =
    ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C17", "C18", "C19"];

fn suits(prop: &str, k: &Kind) -> usize {
    use Family::*;
    let tree = matches!(k.family, Map | Nested | Tree);
    let ok = match prop {
        "C02" | "C05" => tree,
        "C03" | "C04" => tree || k.family == Paged,
        "C08" => k.snap.is_some(),
        "C09" => k.snap.is_some() || k.group,
        "C19" => k.snap.as_ref().is_some_and(|s| s.foreign.is_some()),
        "C10" => k.name.contains("Seq") || k.name.contains("Paged"),
        "C11" => k.name.contains("Paged"),
        "C12" => k.family == Group,
        "C14" => k.name == "Map<TK, TV>" || k.name == "RbTree<TK, TV>" || k.name == "Paged<TK, TV, 2>",
        "C17" => k.name.contains("TV") || k.group,
        _ => true,
    };
    // The instrumented types tell more where interruptions and drops are concerned.
    match (ok, prop) {
        (false, _) => 0,
        (_, "C13") if k.tracked => 4,
        (_, "C15") if k.tracked => 3,
        // One of these kinds is drawn from many types.
        _ if k.name.contains("AK") || k.group => 3,
        _ => 1,
    }
}

/// How much a run does.
#[derive(Clone, Copy, Debug)]
pub struct Size {
    pub long: bool,
    /// Few steps, but on a collection that is filled with many entries first.
    pub big: bool,
    pub huge: bool,
}

pub fn make(prop: &str, seed: u64, i: u64, long: bool) -> Case {
    if prop == "C18" || (prop == "C14" && i % 10 == 7) {
        let s = mix(mix(seed, fnv(prop.as_bytes())), i);
        return Case { prop: prop.into(), plan: Plan::Layouts(layouts::generate(s, long)) };
    }
    let huge = !["C06", "C07", "C12", "C14", "C17"].contains(&prop) && i % 1000 == 499;
    let size = Size { long, big: huge || i % 149 == 75, huge };
    let all = kinds();
    let mut list = Vec::new();
    for (n, k) in all.iter().enumerate() {
        for _ in 0..suits(prop, k) {
            list.push(n);
        }
    }
    if size.big {
        // Some key types have few keys.
        let many: Vec<usize> = list.iter().copied().filter(|n| all[*n].name.contains("TK") || all[*n].name.contains("Paged") || all[*n].name.contains("Seq")).collect();
        if !many.is_empty() && i % 4 != 0 {
            list = many;
        }
        if huge {
            list.retain(|n| ["Paged<u32, u32, 1>", "Map<TK, TV>", "RbTree<TK, TV>", "Seq<u32>", "Seq<TV>"].contains(&all[*n].name));
        }
    }
    let s = mix(mix(seed, fnv(prop.as_bytes())), i);
    let turn = if huge { s >> 32 } else { i / 4 };
    let kind = &all[list[turn as usize % list.len()]];
    let in_world = match prop {
        "C06" | "C07" => true,
        "C08" => i % 2 == 0,
        "C09" | "C13" | "C14" | "C15" | "C17" | "C19" => false,
        "C10" => i % 4 == 0,
        _ => i % 4 != 3,
    };
    let in_world = in_world && !huge;
    let plan = if in_world {
        Plan::World(world::generate(prop, s, kind, size))
    } else {
        Plan::Local(local::generate(prop, s, kind, size))
    };
    Case { prop: prop.into(), plan }
}

impl Plan {
    pub fn kind(&self) -> &str {
        match self {
            Plan::World(w) => &w.kind,
            Plan::Local(l) => &l.kind,
            Plan::Layouts(_) => "Group",
            Plan::Known(n) => n,
            Plan::Chunk { .. } => "chunk",
        }
    }
}

/// Run a case on a thread of its own, whose entropy and memory layout the case decides.
pub fn once(case: &Case, verbose: bool) -> Outcome {
    with_sham(case, verbose, None).0
}

type Sham = BTreeMap<u64, Became>;

fn with_sham(case: &Case, verbose: bool, sham: Option<Sham>) -> (Outcome, Sham) {
    let seed = match &case.plan {
        Plan::World(w) => w.seed,
        Plan::Local(l) => l.seed,
        Plan::Layouts(l) => l.seed,
        Plan::Known(_) | Plan::Chunk { .. } => 1,
    };
    seams::set_entropy(mix(seed, 0xE));
    seams::set_layout(mix(seed, 0x1A));
    let case = case.clone();
    let on_memory = case.prop == "C13";
    let prop = case.prop.clone();
    let tagged_before = seams::live_tagged();
    let t = std::thread::Builder::new().stack_size(8 << 20).spawn(move || {
        let mut ctx = Ctx::new(&case.prop, verbose);
        ctx.sham = sham;
        coll::set_far_pages(case.prop == "C11");
        let all = kinds();
        let find = |n: &str| all.iter().find(|k| k.name == n).unwrap_or_else(|| panic!("no kind {}", n));
        let _ = seams::take_error();
        seams::activate(true);
        let out = match &case.plan {
            Plan::World(w) => {
                let k = find(&w.kind);
                world::run(&mut ctx, w, k)
            }
            Plan::Local(l) => {
                let k = find(&l.kind);
                local::run(&mut ctx, l, k)
            }
            Plan::Layouts(l) => layouts::run(&mut ctx, l),
            Plan::Known(n) => known::run(&mut ctx, n),
            Plan::Chunk { .. } => Ok(()),
        };
        seams::activate(false);
        seams::flush_quarantine();
        let mut violation = match out {
            Err(v) if v.code == QUIET => {
                ctx.count("runs ended early");
                if ctx.verbose {
                    println!("  ended early: {}", v.what);
                }
                None
            }
            Err(v) => Some(v),
            Ok(()) => None,
        };
        let memory = seams::take_error();
        if let (None, true, Some(e)) = (&violation, ctx.on.memory, memory) {
            violation = Some(Violation { prop: case.prop.clone(), code: "allocator".into(), what: e });
        }
        let mut counts = std::mem::take(&mut ctx.counts);
        *counts.entry(format!("runs: {}", case.plan.kind())).or_insert(0) += 1;
        let mut states: Vec<u64> = ctx.states.iter().copied().collect();
        states.sort_unstable();
        let o = Outcome { violation, counts, states, trace: ctx.trace, steps: ctx.steps, sim_ms: ctx.sim_ms };
        (o, ctx.finished, ctx.became)
    });
    match t.expect("cannot start a thread").join() {
        Ok((mut o, finished, became)) => {
            // Everything the library allocated is gone, and what it kept per thread is gone with the thread.
            let left = seams::live_tagged() as i64 - tagged_before as i64;
            if on_memory && finished && o.violation.is_none() && left != 0 {
                let what = format!("{} allocations are left after the collection was dropped", left);
                o.violation = Some(Violation { prop, code: "memory leak".into(), what });
            }
            (o, became)
        }
        Err(_) => {
            eprintln!("the simulator itself failed: {}", crate::engine::last_panic_anywhere());
            std::process::exit(3);
        }
    }
}

/// Run a case and decide.
pub fn judge(case: &Case, verbose: bool) -> Outcome {
    if let Plan::Chunk { seed, from, step, upto, thorough } = case.plan {
        let mut i = from;
        while i < upto {
            let o = judge(&make(&case.prop, seed, i, crate::driver::is_long(i, thorough)), false);
            if o.violation.is_some() {
                return o;
            }
            i += step;
        }
        return Outcome::default();
    }
    let (mut o, became) = with_sham(case, verbose, None);
    let code = o.violation.as_ref().map(|v| v.code.clone()).unwrap_or_default();
    if code == "memory leak" {
        // Something that is set up once in a process is not a leak.
        let again = once(case, false);
        o.violation = again.violation;
    } else if case.prop == "C15" && o.violation.is_some() && !matches!(case.plan, Plan::Known(_)) {
        // What also goes wrong without an interruption is not about interruptions.
        let (plain, _) = with_sham(case, false, Some(became));
        if plain.violation.is_some() {
            o.violation = None;
            *o.counts.entry("runs that fail without an interruption as well".into()).or_insert(0) += 1;
        }
    }
    o
}
