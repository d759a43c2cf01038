//! Exploring many seeds in parallel processes, confirming and minimising what fails, and reporting.

use crate::engine::Violation;
use crate::known;
use crate::minimise::Mini;
use crate::runs::{judge, make, once, Case, Outcome, Plan, PROPS};
use crate::seams;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::io::{BufRead, BufReader, Read, Write};
use std::os::unix::process::ExitStatusExt;
use std::path::PathBuf;
use std::process::{Child, Command, Stdio};
use std::sync::mpsc;
use std::time::{Duration, Instant};

const WORKERS: u64 = 8;

fn home() -> PathBuf {
    std::env::var("CERTSIM_HOME").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("."))
}

fn env_seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<i64>().ok()).map(|s| s as u64).unwrap_or(1)
}

fn known_file() -> Vec<String> {
    std::fs::read_to_string(home().join("known_findings.txt"))
        .unwrap_or_default()
        .lines()
        .map(|l| l.trim().to_string())
        .filter(|l| !l.is_empty() && !l.starts_with('#'))
        .collect()
}

// ---------------------------------------------------------------- one case in a process of its own

#[derive(Serialize, Deserialize)]
pub struct Replay {
    pub case: Case,
    pub violation: Violation,
    #[serde(default)]
    pub trace: u64,
    #[serde(default)]
    pub seed: u64,
    #[serde(default)]
    pub index: u64,
    #[serde(default)]
    pub notes: Value,
}

enum End {
    Out(Outcome),
    Died(String),
    Hung,
    Harness(String),
}

fn wait(c: &mut Child, limit: Duration) -> Option<std::process::ExitStatus> {
    let start = Instant::now();
    loop {
        match c.try_wait() {
            Ok(Some(s)) => return Some(s),
            Ok(None) if start.elapsed() > limit => {
                let _ = c.kill();
                let _ = c.wait();
                return None;
            }
            Ok(None) => std::thread::sleep(Duration::from_millis(if start.elapsed().as_millis() < 50 { 1 } else { 5 })),
            Err(_) => return None,
        }
    }
}

fn in_child(case: &Case, limit: Duration) -> End {
    let exe = std::env::current_exe().expect("no path to this program");
    let mut c = match Command::new(exe).args(["exec", "-"]).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn() {
        Ok(c) => c,
        Err(e) => return End::Harness(e.to_string()),
    };
    let text = serde_json::to_vec(case).expect("a case can be written");
    let mut stdin = c.stdin.take().unwrap();
    let feed = std::thread::spawn(move || {
        let _ = stdin.write_all(&text);
    });
    let mut out = c.stdout.take().unwrap();
    let mut err = c.stderr.take().unwrap();
    let read = std::thread::spawn(move || {
        let mut s = String::new();
        let _ = out.read_to_string(&mut s);
        s
    });
    let read_err = std::thread::spawn(move || {
        let mut s = Vec::new();
        let _ = err.read_to_end(&mut s);
        String::from_utf8_lossy(&s).into_owned()
    });
    let status = wait(&mut c, limit);
    let _ = feed.join();
    let text = read.join().unwrap_or_default();
    let errs = read_err.join().unwrap_or_default();
    match status {
        None => End::Hung,
        Some(s) if s.signal().is_some() => End::Died(format!("the process was ended by signal {}", s.signal().unwrap())),
        Some(_) => match text.lines().find_map(|l| l.strip_prefix("OUT ")).and_then(|l| serde_json::from_str(l).ok()) {
            Some(o) => End::Out(o),
            None => End::Harness(format!("no outcome: {}", errs)),
        },
    }
}

/// What went wrong in a case, when it runs in a process of its own.
fn verdict(case: &Case, limit: Duration) -> Result<Option<(Violation, u64)>, String> {
    let v = |code: &str, what: String| Some((Violation { prop: case.prop.clone(), code: code.into(), what }, 0));
    match in_child(case, limit) {
        End::Out(o) => Ok(o.violation.map(|v| (v, o.trace))),
        End::Died(s) => Ok(v("died", s)),
        End::Hung => Ok(v("hangs", format!("the run does not end within {} s", limit.as_secs()))),
        End::Harness(s) => Err(s),
    }
}

fn read_file(path: &str) -> Result<String, String> {
    let mut s = String::new();
    if path == "-" {
        std::io::stdin().read_to_string(&mut s).map_err(|e| e.to_string())?;
    } else {
        s = std::fs::read_to_string(path).map_err(|e| format!("{}: {}", path, e))?;
    }
    Ok(s)
}

pub fn exec(path: &str) -> i32 {
    let case: Case = match read_file(path).and_then(|s| serde_json::from_str(&s).map_err(|e| e.to_string())) {
        Ok(c) => c,
        Err(e) => {
            eprintln!("{}", e);
            return 2;
        }
    };
    let mut o = judge(&case, false);
    o.states.clear();
    println!("OUT {}", serde_json::to_string(&o).expect("an outcome can be written"));
    0
}

/// Repeat a reported run, showing what happens.
pub fn replay(path: &str) -> i32 {
    let r: Replay = match read_file(path).and_then(|s| serde_json::from_str(&s).map_err(|e| e.to_string())) {
        Ok(r) => r,
        Err(e) => {
            eprintln!("{}", e);
            return 2;
        }
    };
    println!("reported: {} [{}] {}", r.violation.prop, r.violation.code, r.violation.what);
    let first = match verdict(&r.case, Duration::from_secs(60)) {
        Ok(v) => v,
        Err(e) => {
            eprintln!("{}", e);
            return 2;
        }
    };
    if !matches!(&first, Some((v, _)) if v.code == "died" || v.code == "hangs") {
        println!("the run:");
        let _ = once(&r.case, true);
    }
    match first {
        None => {
            println!("the run passes");
            0
        }
        Some((v, t)) => {
            println!("now: [{}] {}", v.code, v.what);
            let same = v.code == r.violation.code && (r.trace == 0 || t == r.trace);
            println!("{}", if same { "the same execution as reported" } else { "not the execution that was reported" });
            println!("VIOLATION property={} replay={}", v.prop, path);
            1
        }
    }
}

pub fn plan(prop: &str, seed: u64, i: u64, long: bool) -> i32 {
    println!("{}", serde_json::to_string(&make(prop, seed, i, long)).expect("a case can be written"));
    0
}

// ---------------------------------------------------------------- workers

#[derive(Default, Serialize, Deserialize)]
struct Sum {
    runs: u64,
    steps: u64,
    sim_ms: u64,
    counts: BTreeMap<String, u64>,
    states: HashSet<u64>,
    traces: HashSet<u64>,
    capped: bool,
}

impl Sum {
    fn take(&mut self, o: Outcome) {
        self.runs += 1;
        self.steps += o.steps;
        self.sim_ms += o.sim_ms;
        // Worth counting: something happened to more than one state, and it was checked.
        let checks: u64 = o.counts.iter().filter(|(k, _)| is_check(k)).map(|x| x.1).sum();
        if o.states.len() >= 2 && checks > 0 {
            self.traces.insert(o.trace);
        }
        for (k, n) in o.counts {
            *self.counts.entry(k).or_insert(0) += n;
        }
        self.states.extend(o.states);
    }
    fn join(&mut self, o: Sum) {
        self.runs += o.runs;
        self.steps += o.steps;
        self.sim_ms += o.sim_ms;
        for (k, n) in o.counts {
            *self.counts.entry(k).or_insert(0) += n;
        }
        self.states.extend(o.states);
        self.traces.extend(o.traces);
        self.capped |= o.capped;
    }
}

fn is_check(k: &str) -> bool {
    ["audits", "answers", "altered", "roots compared", "witnesses compared", "replies compared", "restores compared", "drop counts", "layouts", "foreign readers", "witness depths", "hashing", "damaged", "faults: storage"]
        .iter()
        .any(|p| k.starts_with(p))
}

pub fn is_long(i: u64, thorough: bool) -> bool {
    thorough && (i / 4) % 3 == 0
}

fn say(s: &str) {
    let mut o = std::io::stdout().lock();
    let _ = writeln!(o, "{}", s);
    let _ = o.flush();
}

/// Run every `step`-th case from `from` on.
pub fn work(prop: &str, seed: u64, from: u64, step: u64, upto: u64, secs: u64, thorough: bool) -> i32 {
    let start = Instant::now();
    let timing = std::env::var_os("CERTSIM_TIMES").is_some();
    let mut sum = Sum::default();
    let mut i = from;
    while i < upto {
        if start.elapsed().as_secs() >= secs {
            sum.capped = true;
            break;
        }
        say(&format!("R {}", i));
        let began = Instant::now();
        let case = make(prop, seed, i, is_long(i, thorough));
        let o = judge(&case, false);
        if timing {
            eprintln!("T {} {} {}", began.elapsed().as_micros(), i, case.plan.kind());
        }
        if let Some(v) = &o.violation {
            say(&format!("V {} {}", i, serde_json::to_string(v).unwrap_or_default()));
            return 0;
        }
        sum.take(o);
        i += step;
    }
    say(&format!("S {}", serde_json::to_string(&sum).expect("a summary can be written")));
    0
}

enum Msg {
    Line(usize, String),
    Gone(usize),
}

struct Found {
    index: u64,
    violation: Option<Violation>,
    /// The first index the worker ran.
    from: u64,
}

enum Search {
    Clean(Sum),
    Found(Found),
    Broken(String),
}

fn search(prop: &str, seed: u64, upto: u64, secs: u64, thorough: bool) -> Search {
    let exe = std::env::current_exe().expect("no path to this program");
    let (tx, rx) = mpsc::channel();
    let mut kids: Vec<Child> = Vec::new();
    for w in 0..WORKERS {
        let tier = if thorough { "long" } else { "short" };
        let args = ["work".into(), prop.to_string(), seed.to_string(), w.to_string(), WORKERS.to_string(), upto.to_string(), secs.to_string(), tier.to_string()];
        let mut c = match Command::new(&exe).args(&args).stdout(Stdio::piped()).stderr(Stdio::inherit()).spawn() {
            Ok(c) => c,
            Err(e) => return Search::Broken(e.to_string()),
        };
        let out = c.stdout.take().unwrap();
        let tx = tx.clone();
        std::thread::spawn(move || {
            for l in BufReader::new(out).lines().map_while(Result::ok) {
                if tx.send(Msg::Line(w as usize, l)).is_err() {
                    return;
                }
            }
            let _ = tx.send(Msg::Gone(w as usize));
        });
        kids.push(c);
    }
    let n = WORKERS as usize;
    let patience = Duration::from_secs(if thorough { 90 } else { 30 });
    let mut at = vec![0u64; n];
    let mut beat = vec![Instant::now(); n];
    let mut slow = vec![None; n];
    let mut done = vec![false; n];
    let mut sum = Sum::default();
    let mut out = None;
    while out.is_none() && done.iter().any(|d| !d) {
        match rx.recv_timeout(Duration::from_millis(500)) {
            Ok(Msg::Line(w, l)) => {
                beat[w] = Instant::now();
                if let Some(i) = l.strip_prefix("R ") {
                    at[w] = i.parse().unwrap_or(0);
                } else if let Some(s) = l.strip_prefix("S ") {
                    match serde_json::from_str::<Sum>(s) {
                        Ok(s) => sum.join(s),
                        Err(e) => out = Some(Search::Broken(e.to_string())),
                    }
                    done[w] = true;
                } else if let Some(s) = l.strip_prefix("V ") {
                    let (i, v) = s.split_once(' ').unwrap_or(("0", ""));
                    let violation = serde_json::from_str(v).ok();
                    out = Some(Search::Found(Found { index: i.parse().unwrap_or(0), violation, from: w as u64 }));
                }
            }
            Ok(Msg::Gone(w)) if !done[w] => {
                let status = kids[w].wait().ok();
                if status.and_then(|s| s.code()) == Some(3) {
                    out = Some(Search::Broken(format!("the simulator failed in run {}", at[w])));
                } else {
                    out = Some(Search::Found(Found { index: at[w], violation: None, from: w as u64 }));
                }
            }
            Ok(Msg::Gone(_)) => {}
            Err(mpsc::RecvTimeoutError::Timeout) => {}
            Err(_) => break,
        }
        for w in 0..n {
            if !done[w] && out.is_none() && beat[w].elapsed() > patience {
                // Stuck, or slow? A run that ends when it has twice as long to itself is slow.
                if slow[w] != Some(at[w]) && matches!(verdict(&make(prop, seed, at[w], is_long(at[w], thorough)), patience * 2), Ok(None)) {
                    slow[w] = Some(at[w]);
                    beat.fill(Instant::now());
                    continue;
                }
                out = Some(Search::Found(Found { index: at[w], violation: None, from: w as u64 }));
            }
        }
    }
    for k in &mut kids {
        let _ = k.kill();
        let _ = k.wait();
    }
    out.unwrap_or(Search::Clean(sum))
}

// ---------------------------------------------------------------- the check

/// How many runs, and for how long at most.
fn effort(prop: &str, thorough: bool) -> (u64, u64) {
    let env = |n: &str| std::env::var(n).ok().and_then(|s| s.parse::<u64>().ok());
    let runs = match prop {
        "C14" => 3000,
        "C05" | "C06" | "C12" => 5000,
        "C03" | "C04" | "C11" | "C17" => 6000,
        "C09" | "C13" | "C15" => 15000,
        _ => 9000,
    };
    let (runs, secs) = if thorough { (u64::MAX / 2, 900) } else { (runs, 240) };
    (env("CERTSIM_RUNS").unwrap_or(runs), env("CERTSIM_SECS").unwrap_or(secs))
}

fn save_replay(prop: &str, r: &Replay) -> Result<String, String> {
    let dir = home().join("replay");
    std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
    let path = dir.join(format!("{}-{}-{}.json", prop, r.seed, r.index));
    std::fs::write(&path, serde_json::to_vec_pretty(r).unwrap_or_default()).map_err(|e| e.to_string())?;
    Ok(path.display().to_string())
}

fn plan_size(c: &Case) -> usize {
    match &c.plan {
        Plan::World(w) => w.acts.len(),
        Plan::Local(l) => l.steps.len(),
        _ => 0,
    }
}

pub fn check(prop: &str, tier: &str) -> i32 {
    if !PROPS.contains(&prop) {
        eprintln!("no property {}", prop);
        return 2;
    }
    let thorough = tier == "thorough";
    let seed = env_seed();
    let start = Instant::now();

    // The findings on record.
    let listed = known_file();
    let mut findings = Vec::new();
    for name in known::of(prop) {
        let case = Case { prop: prop.into(), plan: Plan::Known(name.to_string()) };
        match verdict(&case, Duration::from_secs(60)) {
            Err(e) => {
                eprintln!("{}", e);
                return 2;
            }
            Ok(None) => {}
            Ok(Some((v, trace))) => {
                let entry = listed.iter().find(|l| l.starts_with("known: ") && l.split_whitespace().any(|w| w == format!("id={}", name)));
                match entry {
                    // The listed failure is a proof that cannot be concluded; anything else is new.
                    Some(l) if v.code == "known" => {
                        let text = l.splitn(4, ' ').nth(3).unwrap_or("").to_string();
                        println!("KNOWN-FINDING: property={} {} {}", prop, name, text);
                        findings.push(name.to_string());
                    }
                    _ => {
                        let r = Replay { case, violation: v.clone(), trace, seed, index: 0, notes: json!({ "scenario": name }) };
                        return report(prop, tier, seed, r, start, None, 0);
                    }
                }
            }
        }
    }

    let (upto, secs) = effort(prop, thorough);
    match search(prop, seed, upto, secs, thorough) {
        Search::Broken(e) => {
            eprintln!("harness error: {}", e);
            2
        }
        Search::Clean(sum) => {
            let mut seen = BTreeSet::new();
            for k in sum.counts.keys() {
                seen.insert(k.clone());
            }
            println!(
                "{} {}: no violation in {} runs ({} distinct executions, {} distinct states, {} simulated s) in {:.1} s",
                prop,
                tier,
                sum.runs,
                sum.traces.len(),
                sum.states.len(),
                sum.sim_ms / 1000,
                start.elapsed().as_secs_f64()
            );
            match evidence(prop, tier, seed, &sum, start.elapsed().as_secs_f64(), &findings, thorough) {
                Ok(()) => 0,
                Err(e) => {
                    eprintln!("evidence: {}", e);
                    2
                }
            }
        }
        Search::Found(f) => {
            let limit = Duration::from_secs(if thorough { 180 } else { 90 });
            let case = make(prop, seed, f.index, is_long(f.index, thorough));
            let (case, violation) = match verdict(&case, limit) {
                Err(e) => {
                    eprintln!("harness error: {}", e);
                    return 2;
                }
                Ok(Some((v, _))) => (case, v),
                Ok(None) => {
                    // It takes the runs before it in the same process.
                    let chunk = Case { prop: prop.into(), plan: Plan::Chunk { seed, from: f.from, step: WORKERS, upto: f.index + 1, thorough } };
                    match verdict(&chunk, Duration::from_secs(600)) {
                        Ok(Some((v, _))) => (chunk, v),
                        _ => {
                            eprintln!("harness error: run {} failed once and cannot be repeated: {:?}", f.index, f.violation);
                            return 2;
                        }
                    }
                }
            };
            let size = plan_size(&case);
            let hangs = violation.code == "hangs";
            let mut fails = |c: &Case| match verdict(c, Duration::from_secs(if hangs { 12 } else { 30 })) {
                Ok(Some((v, _))) => v.code == violation.code,
                _ => false,
            };
            let mut mini = Mini { fails: &mut fails, until: Instant::now() + Duration::from_secs(if thorough { 90 } else { 25 }), tried: 0 };
            let mut small = mini.run(&case);
            let tried = mini.tried;
            let (v, trace) = match verdict(&small, limit) {
                Ok(Some(x)) => x,
                _ => {
                    // A smaller run that is only slow.
                    small = case;
                    verdict(&small, limit).ok().flatten().unwrap_or((violation, 0))
                }
            };
            // The same execution, twice.
            let again = verdict(&small, limit).ok().flatten().map(|x| x.1);
            if !matches!(v.code.as_str(), "died" | "hangs") && again != Some(trace) {
                eprintln!("warning: the replay is not exact");
            }
            let notes = json!({ "steps in the original plan": size, "steps after minimisation": plan_size(&small), "plans tried": tried });
            let r = Replay { case: small, violation: v, trace, seed, index: f.index, notes };
            report(prop, tier, seed, r, start, Some(f.index), tried)
        }
    }
}

fn report(prop: &str, tier: &str, seed: u64, r: Replay, start: Instant, index: Option<u64>, tried: u64) -> i32 {
    let path = match save_replay(prop, &r) {
        Ok(p) => p,
        Err(e) => {
            eprintln!("{}", e);
            return 2;
        }
    };
    println!("[{}] {}", r.violation.code, r.violation.what);
    let e = json!({
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": index.unwrap_or(0) + 1,
            "distinct_nontrivial": 1,
            "rule": "stopped at the first violation; counts up to the failing run's index",
            "samples": [serde_json::to_value(&r).unwrap_or(Value::Null)],
            "plans tried while minimising": tried,
        },
        "wall_s": start.elapsed().as_secs_f64(),
        "violations": 1,
    });
    let _ = write_evidence(prop, &e);
    println!("VIOLATION property={} replay={}", prop, path);
    1
}

fn write_evidence(prop: &str, e: &Value) -> Result<(), String> {
    let dir = home().join("evidence");
    std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
    std::fs::write(dir.join(format!("{}.json", prop)), serde_json::to_vec_pretty(e).unwrap_or_default()).map_err(|e| e.to_string())
}

fn evidence(prop: &str, tier: &str, seed: u64, sum: &Sum, wall: f64, findings: &[String], thorough: bool) -> Result<(), String> {
    let group = |p: &str| -> BTreeMap<String, u64> { sum.counts.iter().filter_map(|(k, n)| k.strip_prefix(p).map(|k| (k.to_string(), *n))).collect() };
    let checks: BTreeMap<&String, &u64> = sum.counts.iter().filter(|(k, _)| is_check(k) && !k.starts_with("faults")).collect();
    let other: BTreeMap<&String, &u64> =
        sum.counts.iter().filter(|(k, _)| !is_check(k) && !k.starts_with("faults: ") && !k.starts_with("runs: ")).collect();
    let mut samples: Vec<Value> = Vec::new();
    // Two of the cases of this run, the smaller ones of the first few.
    let mut cases: Vec<Case> = (0..24).map(|i| make(prop, seed, i, is_long(i, thorough))).collect();
    cases.sort_by_key(|c| serde_json::to_string(c).map(|s| s.len()).unwrap_or(0));
    for c in cases.iter().take(2) {
        samples.push(serde_json::to_value(c).map_err(|e| e.to_string())?);
    }
    let e = json!({
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": sum.runs,
            "distinct_nontrivial": sum.traces.len(),
            "rule": "A case is a plan made from VERIF_SEED and its number: collection type, operations, faults and their times. One run executes it and is counted as distinct and non-trivial when the digest of its history (events, replies, roots) was not seen before, it went through at least two distinct contents, and at least one check of this property was made.",
            "samples": samples,
            "simulated steps": sum.steps,
            "simulated seconds": sum.sim_ms as f64 / 1000.0,
            "runs (seeds) per hour": (sum.runs as f64 / wall * 3600.0) as u64,
            "distinct contents reached": sum.states.len(),
            "distinct executions": sum.traces.len(),
            "faults injected": group("faults: "),
            "runs per kind of collection": group("runs: "),
            "checks made": checks,
            "other counts": other,
            "stopped by the time limit": sum.capped,
            "known findings reproduced": findings,
            "real code": "all of certified-vars, serde_cbor, candid, sha2, built from /repo's working tree",
            "simulated": "clients, network, message ordering, replicas and their crashes, stable storage, clock, the caller's types and closures, process entropy (getrandom), the allocator's layout",
        },
        "assumptions": [
            "the independent client, the models and the simulator are right",
            "the built profile stands for the shipped one: no debug assertions, no overflow checks",
            "values and keys are drawn from the types listed under runs per kind of collection",
        ],
        "wall_s": wall,
        "violations": 0,
    });
    write_evidence(prop, &e)
}

// ---------------------------------------------------------------- determinism

/// The same seeds in this process, again, and in processes of their own, give the same executions.
pub fn selftest(seed: u64, runs: u64) -> i32 {
    let mut bad = 0;
    for prop in PROPS {
        let mut drawn = 0;
        for i in 0..runs {
            let case = make(prop, seed, i * 7, i % 5 == 0);
            let before = seams::entropy_calls();
            let a = once(&case, false);
            drawn += seams::entropy_calls() - before;
            let b = once(&case, false);
            let c = match in_child(&case, Duration::from_secs(60)) {
                End::Out(o) => o,
                _ => Outcome::default(),
            };
            if a.trace != b.trace || a.trace != c.trace || a.steps != c.steps || a.violation != b.violation {
                println!("{} run {}: {:x} {:x} {:x}", prop, i * 7, a.trace, b.trace, c.trace);
                bad += 1;
            }
        }
        println!("{}: {} seeds three times; entropy was drawn {} times", prop, runs, drawn);
    }
    if bad == 0 {
        println!("every execution repeated exactly");
        0
    } else {
        println!("{} executions differed", bad);
        1
    }
}
