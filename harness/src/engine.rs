//! Case execution, shrinking, worker processes and evidence.
use crate::src::{hash64, Src};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;

pub type CaseResult = Result<(), String>;

#[derive(Default)]
pub struct Ctx {
    pub labels: BTreeMap<String, u64>,
    pub nontrivial: bool,
    pub want_desc: bool,
    pub desc: String,
    /// First case of a fresh process: nothing was ever loaded into the engine.
    pub fresh: bool,
    /// Number of inner evaluations (queries, cut points, values) in this case.
    pub inner: u64,
    /// Signatures of known findings met (and tolerated) in this case.
    pub known: BTreeMap<String, u64>,
}

impl Ctx {
    pub fn label(&mut self, l: &str) {
        *self.labels.entry(l.to_string()).or_insert(0) += 1;
    }
    pub fn label_if(&mut self, cond: bool, l: &str) {
        if cond {
            self.label(l);
        }
    }
    pub fn describe(&mut self, f: impl FnOnce() -> String) {
        if self.want_desc {
            let mut s = f();
            if s.len() > 6000 {
                let mut cut = 6000;
                while !s.is_char_boundary(cut) {
                    cut -= 1;
                }
                s.truncate(cut);
                s.push_str(" ...");
            }
            if !self.desc.is_empty() {
                self.desc.push_str(" | ");
            }
            self.desc.push_str(&s);
        }
    }
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub chunk: u64,
    pub run: fn(&mut Src, &mut Ctx) -> CaseResult,
}

// ---------------------------------------------------------------------------------------------
// Hash seeds of the crate's maps: a function of the case, so that a case replays exactly.

static HASH_BASE: AtomicU64 = AtomicU64::new(1);
static HASH_COUNTER: AtomicU64 = AtomicU64::new(0);
struct SeededSource;
static FIXED: [[u64; 4]; 2] = [[11, 22, 33, 44], [55, 66, 77, 88]];
impl ahash::RandomSource for SeededSource {
    fn get_fixed_seeds(&self) -> &'static [[u64; 4]; 2] {
        &FIXED
    }
    fn gen_hasher_seed(&self) -> usize {
        let c = HASH_COUNTER.fetch_add(1, Ordering::Relaxed);
        (HASH_BASE.load(Ordering::Relaxed) ^ c.wrapping_mul(0x9e37_79b9_7f4a_7c15)) as usize
    }
}
/// Restart the sequence of hash seeds.
pub fn set_hash_seed(seed: u64) {
    HASH_BASE.store(seed, Ordering::Relaxed);
    HASH_COUNTER.store(0, Ordering::Relaxed);
}

// ---------------------------------------------------------------------------------------------
// Counting allocator, for checks on memory requested.

pub struct Counting;
static CURRENT: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
const MAX_REQUEST: usize = 2 << 30;
const MAX_HELD: usize = 3 << 30;
unsafe impl std::alloc::GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        if l.size() > MAX_REQUEST || CURRENT.load(Ordering::Relaxed) > MAX_HELD {
            return std::ptr::null_mut();
        }
        let c = CURRENT.fetch_add(l.size(), Ordering::Relaxed) + l.size();
        PEAK.fetch_max(c, Ordering::Relaxed);
        std::alloc::System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        CURRENT.fetch_sub(l.size(), Ordering::Relaxed);
        std::alloc::System.dealloc(p, l)
    }
}
/// Bytes held now.
pub fn held() -> usize {
    CURRENT.load(Ordering::Relaxed)
}
/// Peak of bytes held during `f`, above what was held before.
pub fn peak_during<T>(f: impl FnOnce() -> T) -> (T, usize) {
    let before = CURRENT.load(Ordering::Relaxed);
    PEAK.store(before, Ordering::Relaxed);
    let out = f();
    (out, PEAK.load(Ordering::Relaxed).saturating_sub(before))
}

// ---------------------------------------------------------------------------------------------

static LAST_PANIC: Mutex<String> = Mutex::new(String::new());

pub fn install() {
    let _ = ahash::RandomState::set_random_source(SeededSource);
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if let Ok(mut g) = LAST_PANIC.lock() {
            *g = format!("panic at {loc}: {msg}");
        }
    }));
}

pub fn last_panic() -> String {
    LAST_PANIC.lock().map(|g| g.clone()).unwrap_or_default()
}

/// Run `f`, turning a panic into its message.
pub fn no_panic<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| last_panic())
}

pub struct Outcome {
    pub result: CaseResult,
    pub ctx: Ctx,
    pub used: Vec<u64>,
}

pub fn execute(prop: &Prop, mut src: Src, want_desc: bool, fresh: bool) -> Outcome {
    let mut ctx = Ctx { want_desc, fresh, ..Ctx::default() };
    let result = {
        let (src, ctx) = (&mut src, &mut ctx);
        match no_panic(move || {
            let h = src.raw();
            set_hash_seed(h);
            (prop.run)(src, ctx)
        }) {
            Ok(r) => r,
            Err(p) => Err(p),
        }
    };
    Outcome { result, ctx, used: src.used }
}

fn fails(prop: &Prop, tape: &[u64]) -> Option<Vec<u64>> {
    let o = execute(prop, Src::replay(tape.to_vec()), false, false);
    if o.result.is_err() {
        Some(o.used)
    } else {
        None
    }
}

/// Deterministic tape shrinker, bounded by number of attempts.
pub fn shrink(prop: &Prop, start: Vec<u64>, max_attempts: usize) -> Vec<u64> {
    let mut best = start;
    let mut attempts = 0;
    let deadline = std::time::Instant::now() + std::time::Duration::from_secs(60);
    let mut improved = true;
    let better = |a: &Vec<u64>, b: &Vec<u64>| (a.len(), a) < (b.len(), b);
    macro_rules! try_tape {
        ($t:expr) => {{
            attempts += 1;
            if attempts > max_attempts || std::time::Instant::now() > deadline {
                return best;
            }
            match fails(prop, &$t) {
                Some(used) if better(&used, &best) => {
                    best = used;
                    true
                }
                _ => false,
            }
        }};
    }
    while improved {
        improved = false;
        // Delete blocks.
        let mut size = (best.len() / 2).clamp(1, 512);
        loop {
            let mut i = best.len().saturating_sub(size);
            loop {
                if i + size <= best.len() && i >= 1 {
                    let mut t = best.clone();
                    t.drain(i..i + size);
                    if try_tape!(t) {
                        improved = true;
                    }
                }
                if i == 0 {
                    break;
                }
                i = i.saturating_sub(size.max(1));
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // Zero blocks.
        let mut size = (best.len() / 2).clamp(1, 64);
        loop {
            let mut i = 0;
            while i < best.len() {
                let end = (i + size).min(best.len());
                if best[i..end].iter().any(|v| *v != 0) {
                    let mut t = best.clone();
                    t[i..end].iter_mut().for_each(|v| *v = 0);
                    if try_tape!(t) {
                        improved = true;
                    }
                }
                i += size;
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // Lower single values.
        let mut i = 0;
        while i < best.len() {
            let v = best[i];
            if v > 0 {
                let mut lo = 0u64;
                let mut hi = v;
                while lo + 1 < hi {
                    let mid = lo + (hi - lo) / 2;
                    let mut t = best.clone();
                    if i >= t.len() {
                        break;
                    }
                    t[i] = mid;
                    if try_tape!(t) {
                        improved = true;
                        hi = mid;
                    } else {
                        lo = mid;
                    }
                    if hi - lo > 1 << 40 && hi > 1 << 41 {
                        // Large raw values: a few probes are enough.
                        lo += (hi - lo) / 2;
                    }
                }
            }
            i += 1;
        }
    }
    best
}

pub fn case_seed(seed: u64, id: &str, index: u64) -> u64 {
    let idh: Vec<u64> = id.bytes().map(u64::from).collect();
    hash64(&[seed, hash64(&idh), index, 0x5eed])
}

/// Runs cases `start..start + count` and writes a JSON summary to `out`.
pub fn worker(prop: &Prop, seed: u64, start: u64, count: u64, out: &str) {
    let progress = format!("{out}.progress");
    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    let mut known: BTreeMap<String, u64> = BTreeMap::new();
    let mut keys: HashSet<u64> = HashSet::new();
    let mut samples: Vec<Value> = Vec::new();
    let (mut evaluations, mut inner) = (0u64, 0u64);
    let mut failure = Value::Null;
    macro_rules! write_summary {
        () => {
            let summary = json!({
                "evaluations": evaluations, "inner": inner,
                "keys": keys.iter().collect::<Vec<_>>(), "labels": labels, "known": known,
                "samples": samples, "failure": failure,
            });
            std::fs::write(out, serde_json::to_vec(&summary).unwrap()).unwrap();
        };
    }
    for i in start..start + count {
        std::fs::write(&progress, i.to_string()).ok();
        let want_desc = samples.len() < 1;
        let o = execute(prop, Src::random(case_seed(seed, prop.id, i)), want_desc, i == start);
        evaluations += 1;
        inner += o.ctx.inner;
        for (k, v) in o.ctx.labels.clone() {
            *labels.entry(k).or_insert(0) += v;
        }
        for (k, v) in o.ctx.known.clone() {
            *known.entry(k).or_insert(0) += v;
        }
        if o.ctx.nontrivial {
            keys.insert(hash64(o.used.get(1..).unwrap_or(&[])));
            if want_desc && !o.ctx.desc.is_empty() {
                samples.push(json!({"case": i, "input": o.ctx.desc.clone()}));
            }
        }
        if let Err(first) = o.result {
            let describe = |tape: &[u64], message: &str, input: &str, shrunk: bool| {
                json!({
                    "property": prop.id, "case": i, "seed": seed, "tape": tape, "message": message,
                    "first_message": first, "input": input, "shrunk": shrunk, "original_tape": o.used,
                    "case_seed": case_seed(seed, prop.id, i),
                })
            };
            // Written before shrinking: a shrunk input may crash or hang the process.
            failure = describe(&o.used, &first, &o.ctx.desc, false);
            write_summary!();
            if fails(prop, &o.used).is_some() {
                let tape = shrink(prop, o.used.clone(), 3000);
                let last = execute(prop, Src::replay(tape.clone()), true, false);
                if let Err(m) = &last.result {
                    failure = describe(&tape, m, &last.ctx.desc, true);
                }
            }
            break;
        }
    }
    write_summary!();
}

fn tmp_dir() -> String {
    let base = std::env::var("HARNESS_TMP").unwrap_or_else(|_| "/verif/target/run".into());
    let d = format!("{base}/{}", std::process::id());
    std::fs::create_dir_all(&d).unwrap();
    d
}

struct Chunk {
    start: u64,
    count: u64,
    out: String,
    child: std::process::Child,
    /// Case last seen in progress, and since when.
    at: (u64, std::time::Instant),
}

/// The parent: distributes chunks over worker processes, merges, writes evidence and replay.
/// Exit code: 0 held, 1 violation, 2 error.
pub fn run(prop: &Prop, tier: &str, seed: u64) -> i32 {
    let t0 = std::time::Instant::now();
    let verif = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());
    let mut total = if tier == "thorough" { prop.thorough } else { prop.quick };
    if let Some(n) = std::env::var("HARNESS_CASES").ok().and_then(|v| v.parse().ok()) {
        total = n;
    }
    let limit: u64 = std::env::var("HARNESS_LIMIT_S").ok().and_then(|v| v.parse().ok()).unwrap_or(
        if tier == "thorough" { 6 * 3600 } else { 780 },
    );
    let jobs: usize = std::env::var("HARNESS_JOBS").ok().and_then(|v| v.parse().ok()).unwrap_or(8);
    let dir = tmp_dir();
    let exe = std::env::current_exe().unwrap();
    let chunk = prop.chunk.min(total / jobs as u64 + 1).max(1);
    let mut next = 0u64;
    let mut running: Vec<Chunk> = Vec::new();
    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    let mut known: BTreeMap<String, u64> = BTreeMap::new();
    let mut keys: HashSet<u64> = HashSet::new();
    let mut samples: BTreeMap<u64, Value> = BTreeMap::new();
    let (mut evaluations, mut inner) = (0u64, 0u64);
    let mut failures: Vec<Value> = Vec::new();
    let mut error: Option<String> = None;
    let quiet = || std::process::Stdio::null();
    let mut ticks = 0u64;
    while (next < total || !running.is_empty()) && error.is_none() {
        while running.len() < jobs && next < total && failures.is_empty() {
            let count = chunk.min(total - next);
            let out = format!("{dir}/{next}.json");
            let child = std::process::Command::new(&exe)
                .args(["worker", prop.id, &seed.to_string(), &next.to_string(), &count.to_string(), &out])
                .stdin(quiet())
                .stdout(quiet())
                .stderr(quiet())
                .spawn()
                .unwrap();
            running.push(Chunk { start: next, count, out, child, at: (next, std::time::Instant::now()) });
            next += count;
        }
        if running.is_empty() {
            break;
        }
        let mut i = 0;
        while i < running.len() {
            let status = match running[i].child.try_wait().unwrap() {
                Some(s) => s,
                None => {
                    let c = &mut running[i];
                    if ticks % 200 == 0 {
                        let at: Option<u64> =
                            std::fs::read_to_string(format!("{}.progress", c.out)).ok().and_then(|s| s.trim().parse().ok());
                        if at.is_some_and(|a| a != c.at.0) {
                            c.at = (at.unwrap(), std::time::Instant::now());
                        } else if at.is_some() && c.at.1.elapsed().as_secs() >= STALL_S {
                            let case = c.at.0;
                            c.child.kill().ok();
                            c.child.wait().ok();
                            let c = running.swap_remove(i);
                            let before: Option<Value> =
                                std::fs::read(&c.out).ok().and_then(|b| serde_json::from_slice(&b).ok());
                            if let Some(v) = before {
                                failures.push(v["failure"].clone());
                            } else if !failures.is_empty() {
                                // One failure is enough.
                            } else if stalls_again(&exe, prop.id, seed, case) {
                                // A second time, alone: the case itself does not end.
                                failures.push(json!({
                                    "property": prop.id, "case": case, "seed": seed, "case_seed": case_seed(seed, prop.id, case),
                                    "message": format!("the code under test does not come to an end on this case (twice, {STALL_S} s each)"),
                                    "tape": null, "shrunk": false, "input": "",
                                }));
                            } else {
                                error = Some(format!("worker {}+{} stalled at case {case}", c.start, c.count));
                            }
                            continue;
                        }
                    }
                    i += 1;
                    continue;
                }
            };
            let c = running.swap_remove(i);
            let parsed: Option<Value> = std::fs::read(&c.out).ok().and_then(|b| serde_json::from_slice(&b).ok());
            match parsed {
                Some(v) if status.success() || !v["failure"].is_null() => {
                    evaluations += v["evaluations"].as_u64().unwrap_or(0);
                    inner += v["inner"].as_u64().unwrap_or(0);
                    for k in v["keys"].as_array().into_iter().flatten() {
                        keys.insert(k.as_u64().unwrap_or(0));
                    }
                    for (m, t) in [("labels", &mut labels), ("known", &mut known)] {
                        for (k, n) in v[m].as_object().into_iter().flatten() {
                            *t.entry(k.clone()).or_insert(0) += n.as_u64().unwrap_or(0);
                        }
                    }
                    for s in v["samples"].as_array().into_iter().flatten() {
                        if samples.len() < 12 {
                            samples.insert(s["case"].as_u64().unwrap_or(0), s.clone());
                        }
                    }
                    if !v["failure"].is_null() {
                        failures.push(v["failure"].clone());
                    }
                }
                _ => {
                    let at: u64 = std::fs::read_to_string(format!("{}.progress", c.out))
                        .ok()
                        .and_then(|s| s.trim().parse().ok())
                        .unwrap_or(c.start);
                    let signal = std::os::unix::process::ExitStatusExt::signal(&status);
                    match (signal, confirm_crash(&exe, prop.id, seed, at)) {
                        // SIGABRT (failed allocation, double panic, stack overflow) or SIGSEGV, twice:
                        // the case itself crashes the code under test.
                        (Some(6 | 11), Some(6 | 11)) => failures.push(json!({
                            "property": prop.id, "case": at, "seed": seed, "case_seed": case_seed(seed, prop.id, at),
                            "message": format!("process crashed with signal {signal:?} on this case"),
                            "tape": null, "shrunk": false, "input": "",
                        })),
                        (s, again) => {
                            error = Some(format!(
                                "worker {}+{} ended with {status:?} (signal {s:?}, repeated {again:?}) at case {at}",
                                c.start, c.count
                            ));
                        }
                    }
                }
            }
        }
        if t0.elapsed().as_secs() > limit {
            error = Some(format!("time limit of {limit} s reached after {evaluations} cases"));
        }
        std::thread::sleep(std::time::Duration::from_millis(5));
        ticks += 1;
    }
    for c in &mut running {
        c.child.kill().ok();
        c.child.wait().ok();
    }
    std::fs::remove_dir_all(&dir).ok();
    failures.sort_by_key(|f| f["case"].as_u64().unwrap_or(u64::MAX));
    let violation = failures.first();
    let mut samples: Vec<Value> = samples.into_values().take(6).collect();
    if samples.is_empty() {
        samples.push(json!("no non-trivial case before the first failure"));
    }
    let evidence = json!({
        "property": prop.id, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evaluations, "distinct_nontrivial": keys.len(),
            "inner_checks": inner,
            "rule": format!("cases are generated at random by structured generators, each from its own seed; non-trivial: {}", prop.rule),
            "samples": samples, "labels": labels,
            "exhaustive": false,
        },
        "assumptions": crate::props::assumptions(prop.id),
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": failures.len(),
    });
    std::fs::create_dir_all(format!("{verif}/evidence")).ok();
    std::fs::write(
        format!("{verif}/evidence/{}.json", prop.id),
        serde_json::to_string_pretty(&evidence).unwrap(),
    )
    .unwrap();
    for (k, n) in &known {
        println!("KNOWN-FINDING: property={} {k} ({n} cases)", prop.id);
    }
    if let Some(f) = violation {
        std::fs::create_dir_all(format!("{verif}/replays")).ok();
        let path = format!("{verif}/replays/{}-{}-{}.json", prop.id, seed, f["case"]);
        std::fs::write(&path, serde_json::to_string_pretty(f).unwrap()).unwrap();
        println!("{}: {}", prop.id, f["message"].as_str().unwrap_or(""));
        println!("input: {}", f["input"].as_str().unwrap_or(""));
        println!("VIOLATION property={} replay={path}", prop.id);
        return 1;
    }
    if let Some(e) = error {
        println!("ERROR property={} {e}", prop.id);
        return 2;
    }
    println!(
        "OK property={} tier={tier} seed={seed} cases={evaluations} distinct_nontrivial={} inner={inner} in {:.1}s",
        prop.id,
        keys.len(),
        t0.elapsed().as_secs_f64()
    );
    if std::env::var("HARNESS_VERBOSE").is_ok() {
        println!("{}", serde_json::to_string_pretty(&labels).unwrap());
    }
    0
}

fn confirm_crash(exe: &std::path::Path, id: &str, seed: u64, case: u64) -> Option<i32> {
    let s = std::process::Command::new(exe)
        .args(["try", id, &seed.to_string(), &case.to_string()])
        .stdin(std::process::Stdio::null())
        .stdout(std::process::Stdio::null())
        .stderr(std::process::Stdio::null())
        .status()
        .ok()?;
    std::os::unix::process::ExitStatusExt::signal(&s)
}

/// Whether one case alone, in a fresh process, also takes too long.
fn stalls_again(exe: &std::path::Path, id: &str, seed: u64, case: u64) -> bool {
    let Ok(mut child) = std::process::Command::new(exe)
        .args(["try", id, &seed.to_string(), &case.to_string()])
        .stdin(std::process::Stdio::null())
        .stdout(std::process::Stdio::null())
        .stderr(std::process::Stdio::null())
        .spawn()
    else {
        return false;
    };
    let t = std::time::Instant::now();
    while t.elapsed().as_secs() < STALL_S {
        if !matches!(child.try_wait(), Ok(None)) {
            return false;
        }
        std::thread::sleep(std::time::Duration::from_millis(50));
    }
    child.kill().ok();
    child.wait().ok();
    true
}

/// Seconds without progress on one case; cases take milliseconds.
const STALL_S: u64 = 120;
