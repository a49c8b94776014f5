//! Running a check: a supervising process, a worker process with eight shards, each shard a
//! proptest runner followed by a coverage-guided phase over the same tapes; shrinking; evidence.

use crate::instr;
use crate::props::{self, Case, Property};
use crate::runner::*;
use crate::sut;
use crate::tape::Tape;
use proptest::strategy::ValueTree;
use proptest::test_runner::{Config, TestCaseError, TestError, TestRng, TestRunner};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::os::unix::process::ExitStatusExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, Ordering};
use std::time::{Duration, Instant};

pub const SHARDS: usize = 8;
const STACK: usize = 16 << 20;
const TAPE_MAX: usize = 4096;
const SLOT: usize = 8192;
const MAX_SHRINK: u32 = 30_000;
const STALL: Duration = Duration::from_secs(150);

pub fn verif() -> PathBuf {
    PathBuf::from(std::env::var_os("VERIF_ROOT").unwrap_or_else(|| "/verif".into()))
}

#[derive(Clone, Copy)]
pub struct Plan {
    pub random: u64,
    pub guided: u64,
    /// Seconds after which the random and the guided phase begin no more cases, so that a slow
    /// machine gets an answer too
    pub random_until: u64,
    pub guided_until: u64,
}

pub fn plan(p: &Property, tier: &str) -> Plan {
    let scale = |n: u64| {
        let pct: u64 =
            std::env::var("HARNESS_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(100);
        (n * pct / 100).max(10)
    };
    match tier {
        "thorough" => Plan {
            random: scale(p.cases * 12),
            guided: scale(p.cases * 12),
            random_until: 9_000,
            guided_until: 18_000,
        },
        _ => Plan {
            random: scale(p.cases),
            guided: scale(p.cases / 2),
            random_until: 300,
            guided_until: 500,
        },
    }
}

#[derive(Default)]
struct Stats {
    evaluations: u64,
    nontrivial: HashSet<u64>,
    labels: BTreeMap<&'static str, u64>,
    samples: Vec<(Vec<&'static str>, String)>,
    sampled: HashSet<&'static str>,
    corpus: u64,
    edges: u64,
}

impl Stats {
    fn add(&mut self, case: &Case) {
        self.evaluations += 1;
        for l in &case.labels {
            *self.labels.entry(l).or_default() += 1;
        }
        if case.nontrivial {
            let mut h = std::collections::hash_map::DefaultHasher::new();
            case.input.hash(&mut h);
            self.nontrivial.insert(h.finish());
            let new = case.labels.iter().any(|l| !self.sampled.contains(l));
            if (new || self.samples.is_empty()) && self.samples.len() < 6 && case.input.len() < 700 {
                self.sampled.extend(&case.labels);
                self.samples.push((case.labels.clone(), case.input.clone()));
            }
        }
    }
}

#[derive(Clone)]
struct Failure {
    tape: Vec<u8>,
    message: String,
    input: String,
    original_len: usize,
    phase: &'static str,
}

enum Outcome {
    Pass(Case),
    Fail(Case, String),
    HarnessError(String),
}

/// Cases slower than HARNESS_SLOW milliseconds are shown, for tuning the generators
fn slow_limit() -> u128 {
    static LIMIT: std::sync::OnceLock<u128> = std::sync::OnceLock::new();
    *LIMIT.get_or_init(|| {
        std::env::var("HARNESS_SLOW").ok().and_then(|s| s.parse().ok()).unwrap_or(u128::MAX)
    })
}

fn run_case(p: &Property, tape: &[u8]) -> Outcome {
    let mut case = Case::default();
    let begin = Instant::now();
    let r = catch_unwind(AssertUnwindSafe(|| (p.check)(&mut Tape::new(tape), &mut case)));
    if begin.elapsed().as_millis() > slow_limit() {
        let shown: String = case.input.chars().take(120).collect();
        eprintln!("slow: {:?} {} bytes: {shown:?}", begin.elapsed(), case.input.len());
    }
    match r {
        Ok(Ok(())) => Outcome::Pass(case),
        Ok(Err(m)) => Outcome::Fail(case, m),
        Err(_) => Outcome::HarnessError(sut::last_panic()),
    }
}

/// A shared-memory slot where each shard leaves the tape it is about to run
struct Slots {
    base: *mut u8,
}
unsafe impl Send for Slots {}
unsafe impl Sync for Slots {}

impl Slots {
    fn open(path: &Path) -> Slots {
        let f = std::fs::OpenOptions::new()
            .read(true)
            .write(true)
            .create(true)
            .truncate(false)
            .open(path)
            .expect("scratch file");
        f.set_len((SHARDS * SLOT) as u64).unwrap();
        use std::os::fd::AsRawFd;
        let base = unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                SHARDS * SLOT,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED,
                f.as_raw_fd(),
                0,
            )
        };
        assert!(base != libc::MAP_FAILED);
        Slots { base: base as *mut u8 }
    }
    fn put(&self, shard: usize, tape: &[u8]) {
        let n = tape.len().min(SLOT - 12);
        unsafe {
            let p = self.base.add(shard * SLOT);
            std::ptr::copy_nonoverlapping(tape.as_ptr(), p.add(4), n);
            std::ptr::write_volatile(p as *mut u32, n as u32);
        }
        self.count(shard, |n| n + 1);
    }
    /// How many tapes the shard has begun, or MAX when it has ended
    fn count(&self, shard: usize, f: impl FnOnce(u64) -> u64) -> u64 {
        unsafe {
            let p = self.base.add((shard + 1) * SLOT - 8) as *mut u64;
            let n = f(std::ptr::read_volatile(p));
            std::ptr::write_volatile(p, n);
            n
        }
    }
    fn counts(&self) -> [u64; SHARDS] {
        std::array::from_fn(|i| unsafe {
            std::ptr::read_volatile(self.base.add((i + 1) * SLOT - 8) as *const u64)
        })
    }
    fn get(&self, shard: usize) -> Vec<u8> {
        unsafe {
            let p = self.base.add(shard * SLOT);
            let n = std::ptr::read_volatile(p as *const u32) as usize;
            std::slice::from_raw_parts(p.add(4), n.min(SLOT - 12)).to_vec()
        }
    }
}

fn shrink(p: &Property, tape: Vec<u8>, on: &dyn Fn(&[u8])) -> Vec<u8> {
    let mut tree = TapeTree::new(tape.clone());
    let mut best = tape;
    let mut iters = 0;
    let mut go = tree.simplify();
    while go && iters < MAX_SHRINK {
        iters += 1;
        let cur = tree.current();
        on(&cur);
        go = match run_case(p, &cur) {
            Outcome::Fail(..) => {
                best = cur;
                tree.simplify()
            }
            _ => tree.complicate(),
        };
    }
    best
}

fn failure(p: &Property, tape: Vec<u8>, original_len: usize, phase: &'static str) -> Failure {
    match run_case(p, &tape) {
        Outcome::Fail(case, message) => {
            Failure { tape, message, input: case.input, original_len, phase }
        }
        _ => Failure {
            tape,
            message: "failed, but not when run again".into(),
            input: String::new(),
            original_len,
            phase,
        },
    }
}

fn shard(
    p: &Property,
    seed: u64,
    shard: usize,
    plan: Plan,
    slots: &Slots,
    stop: &AtomicBool,
) -> Result<(Stats, Option<Failure>), String> {
    let stats = RefCell::new(Stats::default());
    let harness_error = RefCell::new(None);
    let first_len = RefCell::new(0);
    let failed = RefCell::new(false);
    let begin = Instant::now();
    let over = |seconds| begin.elapsed() > Duration::from_secs(seconds);

    // Random phase: proptest
    let config = Config {
        cases: (plan.random / SHARDS as u64).max(1) as u32,
        failure_persistence: None,
        max_shrink_iters: MAX_SHRINK,
        max_shrink_time: 0,
        verbose: 0,
        ..Config::default()
    };
    let rng = seeded_rng(seed, p.id, shard as u64, 0);
    let mut runner = TestRunner::new_with_rng(config, rng);
    let result = runner.run(&TapeStrategy { max: TAPE_MAX }, |tape| {
        if harness_error.borrow().is_some()
            || (!*failed.borrow() && (stop.load(Ordering::Relaxed) || over(plan.random_until)))
        {
            return Ok(());
        }
        slots.put(shard, &tape);
        match run_case(p, &tape) {
            Outcome::Pass(case) => {
                if !*failed.borrow() {
                    stats.borrow_mut().add(&case);
                }
                Ok(())
            }
            Outcome::Fail(_, m) => {
                if !failed.replace(true) {
                    stop.store(true, Ordering::Relaxed);
                    *first_len.borrow_mut() = tape.len();
                }
                Err(TestCaseError::fail(m))
            }
            Outcome::HarnessError(m) => {
                *harness_error.borrow_mut() = Some(m);
                Ok(())
            }
        }
    });
    if let Some(e) = harness_error.into_inner() {
        return Err(e);
    }
    let mut stats = stats.into_inner();
    match result {
        Ok(()) => {}
        Err(TestError::Fail(_, tape)) => {
            let n = first_len.into_inner();
            return Ok((stats, Some(failure(p, tape, n, "proptest"))));
        }
        Err(TestError::Abort(r)) => return Err(format!("proptest aborted: {r}")),
    }

    // Guided phase: mutate tapes that reached something new in the crate
    let mut rng = seeded_rng(seed, p.id, shard as u64, 1);
    let mut corpus: Vec<Vec<u8>> = vec![];
    let mut seen = vec![0u16; instr::MAP];
    let mut cov = vec![];
    for _ in 0..plan.guided / SHARDS as u64 {
        if stop.load(Ordering::Relaxed) || over(plan.guided_until) {
            break;
        }
        let tape = next_tape(&mut rng, &corpus);
        slots.put(shard, &tape);
        instr::track(true);
        let outcome = run_case(p, &tape);
        instr::track(false);
        instr::coverage(&mut cov);
        let mut small = true;
        match outcome {
            Outcome::Pass(case) => {
                small = !case.large;
                stats.add(&case)
            }
            Outcome::Fail(..) => {
                stop.store(true, Ordering::Relaxed);
                let n = tape.len();
                let best = shrink(p, tape, &|t| slots.put(shard, t));
                return Ok((stats, Some(failure(p, best, n, "guided"))));
            }
            Outcome::HarnessError(m) => return Err(m),
        }
        let mut fresh = false;
        for (edge, bucket) in &cov {
            let s = &mut seen[*edge as usize];
            if *s & (1 << bucket) == 0 {
                *s |= 1 << bucket;
                fresh = true;
            }
        }
        if fresh && small {
            corpus.push(tape);
        }
    }
    stats.corpus = corpus.len() as u64;
    stats.edges = seen.iter().filter(|s| **s != 0).count() as u64;
    Ok((stats, None))
}

fn next_tape(rng: &mut TestRng, corpus: &[Vec<u8>]) -> Vec<u8> {
    let mut r = [0u8; 8];
    fill_bytes(rng, &mut r);
    if corpus.is_empty() || r[0] < 24 {
        return fresh_tape(rng, TAPE_MAX);
    }
    let num = |rng: &mut TestRng| {
        let mut r = [0u8; 4];
        fill_bytes(rng, &mut r);
        u32::from_le_bytes(r) as usize
    };
    // Recent entries are picked more often
    let k = num(rng);
    let i = if r[1] & 1 == 0 { k % corpus.len() } else { corpus.len() - 1 - k % corpus.len().min(20) };
    let mut tape = corpus[i].clone();
    for _ in 0..1 + r[2] % 5 {
        if tape.is_empty() {
            tape.push(0);
        }
        let n = tape.len();
        let at = num(rng) % n;
        match num(rng) % 10 {
            0 => tape[at] ^= 1 << (num(rng) % 8),
            1 | 2 => tape[at] = num(rng) as u8,
            3 => tape[at] = tape[at].wrapping_add(1),
            4 => tape[at] = tape[at].wrapping_sub(1),
            5 => {
                let len = 1 + num(rng) % 8.min(n - at).max(1);
                tape.drain(at..(at + len).min(n));
            }
            6 => {
                let len = 1 + num(rng) % 8;
                let mut new = vec![0; len];
                fill_bytes(rng, &mut new);
                tape.splice(at..at, new);
            }
            7 => {
                let from = num(rng) % n;
                let len = (1 + num(rng) % 32).min(n - from);
                let chunk = tape[from..from + len].to_vec();
                tape.splice(at..at, chunk);
            }
            8 => {
                let other = &corpus[num(rng) % corpus.len()];
                if !other.is_empty() {
                    let from = num(rng) % other.len();
                    tape.truncate(at);
                    tape.extend_from_slice(&other[from..]);
                }
            }
            _ => {
                let mut new = vec![0; 1 + num(rng) % 64];
                fill_bytes(rng, &mut new);
                tape.truncate(at);
                tape.extend(new);
            }
        }
    }
    tape.truncate(TAPE_MAX);
    tape
}

pub fn worker(id: &str, tier: &str, seed: u64, dir: &Path) -> i32 {
    let p = props::find(id).expect("a property");
    let plan = plan(p, tier);
    let slots = Slots::open(&dir.join("slots"));
    let stop = AtomicBool::new(false);
    let results: Vec<_> = std::thread::scope(|scope| {
        let handles: Vec<_> = (0..SHARDS)
            .map(|i| {
                let (slots, stop) = (&slots, &stop);
                std::thread::Builder::new()
                    .stack_size(STACK)
                    .spawn_scoped(scope, move || {
                        let r = shard(p, seed, i, plan, slots, stop);
                        slots.count(i, |_| u64::MAX);
                        r
                    })
                    .unwrap()
            })
            .collect();
        handles.into_iter().map(|h| h.join()).collect()
    });
    let mut total = Stats::default();
    let mut failures = vec![];
    let (mut corpus, mut edges) = (0, 0);
    for r in results {
        match r {
            Ok(Ok((s, f))) => {
                total.evaluations += s.evaluations;
                total.nontrivial.extend(s.nontrivial);
                for (k, v) in s.labels {
                    *total.labels.entry(k).or_default() += v;
                }
                total.samples.extend(s.samples.into_iter().take(3));
                corpus += s.corpus;
                edges = edges.max(s.edges);
                failures.extend(f);
            }
            Ok(Err(e)) => {
                eprintln!("harness error: {e}");
                return 70;
            }
            Err(_) => {
                eprintln!("harness error: a shard panicked: {}", sut::last_panic());
                return 70;
            }
        }
    }
    failures.sort_by_key(|f| f.tape.len());
    let fail = failures.first().map(|f| {
        json!({"tape": hex(&f.tape), "message": f.message, "input": f.input,
               "original_tape_len": f.original_len, "phase": f.phase})
    });
    let samples: Vec<Value> = total
        .samples
        .iter()
        .map(|(l, s)| json!({"classes": l, "input": s}))
        .collect();
    let out = json!({
        "evaluations": total.evaluations,
        "distinct_nontrivial": total.nontrivial.len(),
        "labels": total.labels,
        "samples": samples,
        "corpus": corpus,
        "edges_reached_per_shard": edges,
        "failure": fail,
    });
    std::fs::write(dir.join("result.json"), out.to_string()).unwrap();
    0
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|b| format!("{b:02x}")).collect()
}
pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap_or(0)).collect()
}

/// Runs one tape in this process, on a thread with the usual stack
pub fn one(id: &str, tape: &[u8]) -> i32 {
    let p = props::find(id).expect("a property");
    let tape = tape.to_vec();
    std::thread::Builder::new()
        .stack_size(STACK)
        .spawn(move || match run_case(p, &tape) {
            Outcome::Pass(case) => {
                println!("input:\n{}\nholds", case.input);
                0
            }
            Outcome::Fail(case, m) => {
                println!("input:\n{}\nviolated: {m}", case.input);
                1
            }
            Outcome::HarnessError(m) => {
                println!("harness error: {m}");
                70
            }
        })
        .unwrap()
        .join()
        .unwrap_or(70)
}

/// How a process ended, when that shows a runaway or crash of the code under test
fn crash(status: std::process::ExitStatus) -> Option<String> {
    match (status.code(), status.signal()) {
        (Some(instr::EXIT_FUEL), _) => {
            Some("the call ran away (its budget of executed branches ran out)".into())
        }
        (Some(instr::EXIT_ALLOC), _) => {
            Some("the call ran away (its memory budget ran out)".into())
        }
        (_, Some(s)) if s == libc::SIGSEGV || s == libc::SIGABRT || s == libc::SIGBUS || s == libc::SIGILL => {
            Some(format!("the call killed the process (signal {s}: stack overflow or abort)"))
        }
        _ => None,
    }
}

fn run_one_process(id: &str, tape: &[u8], dir: &Path) -> std::process::ExitStatus {
    let f = dir.join("one");
    std::fs::write(&f, tape).unwrap();
    let mut child = Command::new(std::env::current_exe().unwrap())
        .args(["one", id])
        .arg(&f)
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .spawn()
        .unwrap();
    wait(&mut child, Duration::from_secs(60)).unwrap_or_else(|| std::process::ExitStatus::from_raw(9))
}

fn timed_out(status: std::process::ExitStatus) -> bool {
    status.signal() == Some(9)
}

fn wait(child: &mut std::process::Child, limit: Duration) -> Option<std::process::ExitStatus> {
    wait_while(child, limit, || true)
}

fn wait_while(
    child: &mut std::process::Child,
    limit: Duration,
    mut more: impl FnMut() -> bool,
) -> Option<std::process::ExitStatus> {
    let start = Instant::now();
    let mut pause = 1;
    loop {
        if let Some(s) = child.try_wait().unwrap() {
            return Some(s);
        }
        if start.elapsed() > limit || !more() {
            let _ = child.kill();
            let _ = child.wait();
            return None;
        }
        std::thread::sleep(Duration::from_millis(pause));
        pause = (pause * 2).min(50);
    }
}

pub struct Known {
    pub fixed: Vec<String>,
    pub findings: Vec<(String, String, String)>,
}

/// `known_findings.txt`: lines `finding: property=<id> key=<key> <what>` and `fixed: ...`
pub fn known() -> Known {
    let text = std::fs::read_to_string(verif().join("known_findings.txt")).unwrap_or_default();
    let mut k = Known { fixed: vec![], findings: vec![] };
    for line in text.lines() {
        if let Some(rest) = line.strip_prefix("finding: ") {
            let mut parts = rest.splitn(3, ' ');
            let prop = parts.next().unwrap_or("").trim_start_matches("property=").to_string();
            let key = parts.next().unwrap_or("").trim_start_matches("key=").to_string();
            k.findings.push((prop, key, parts.next().unwrap_or("").to_string()));
        } else if line.starts_with("fixed: ") {
            k.fixed.push(line.to_string());
        }
    }
    k
}

pub fn check(id: &str, tier: &str, seed: u64) -> i32 {
    let started = Instant::now();
    let p = match props::find(id) {
        Some(p) => p,
        None => {
            eprintln!("no property {id}");
            return 2;
        }
    };
    let dir = std::env::temp_dir().join(format!("lolcheck-{id}-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let r = supervise(p, tier, seed, &dir, started);
    let _ = std::fs::remove_dir_all(&dir);
    r
}

fn supervise(p: &Property, tier: &str, seed: u64, dir: &Path, started: Instant) -> i32 {
    let id = p.id;
    let mut child = Command::new(std::env::current_exe().unwrap())
        .args(["worker", id, tier, &seed.to_string()])
        .arg(dir)
        .spawn()
        .unwrap();
    let limit = if tier == "thorough" { 6 * 3600 } else { 850 };
    // A shard that has been at one case for STALL, where milliseconds are usual, is stuck
    let slots = Slots::open(&dir.join("slots"));
    let mut seen = slots.counts();
    let mut since = [Instant::now(); SHARDS];
    let mut stuck = None;
    let status = wait_while(&mut child, Duration::from_secs(limit), || {
        let counts = slots.counts();
        for i in 0..SHARDS {
            if counts[i] != seen[i] || counts[i] == 0 || counts[i] == u64::MAX {
                seen[i] = counts[i];
                since[i] = Instant::now();
            } else if since[i].elapsed() > STALL {
                stuck = Some(i);
            }
        }
        stuck.is_none()
    });
    let mut result: Value;
    let Some(status) = status else {
        let Some(i) = stuck else {
            eprintln!("inconclusive: the worker did not end within {limit} s");
            return 3;
        };
        let tape = slots.get(i);
        if !timed_out(run_one_process(id, &tape, dir)) {
            eprintln!("inconclusive: a case took longer than {STALL:?}, but ends when run alone");
            return 3;
        }
        let path = write_replay(
            id,
            &json!({"property": id, "seed": seed, "tape": hex(&tape), "phase": "stuck",
                "input": props::render(p, &tape), "message": "the call does not return",
                "how_to_replay": "./run.sh replay <this file>"}),
        );
        println!("VIOLATION property={id} replay={}", path.display());
        println!("  the call does not return");
        return 1;
    };
    if status.code() == Some(0) {
        let text = std::fs::read_to_string(dir.join("result.json")).unwrap();
        result = serde_json::from_str(&text).unwrap();
    } else if let Some(how) = crash(status) {
        result = json!({"evaluations": 0, "distinct_nontrivial": 0, "labels": {}, "samples": []});
        let slots = Slots::open(&dir.join("slots"));
        let mut found = None;
        for i in 0..SHARDS {
            let tape = slots.get(i);
            if let Some(how) = crash(run_one_process(id, &tape, dir)) {
                found = Some((tape, how));
                break;
            }
        }
        let Some((tape, how)) = found else {
            eprintln!("inconclusive: the worker died ({how}), but no tape reproduces it");
            return 3;
        };
        // Shrink across processes
        let original = tape.len();
        let mut tree = TapeTree::new(tape.clone());
        let mut best = tape;
        let begin = Instant::now();
        let mut go = tree.simplify();
        let mut iters = 0;
        while go && iters < 1500 && begin.elapsed() < Duration::from_secs(60) {
            iters += 1;
            let cur = tree.current();
            go = if crash(run_one_process(id, &cur, dir)).is_some() {
                best = cur;
                tree.simplify()
            } else {
                tree.complicate()
            };
        }
        let input = {
            // The generator alone, without the call, is not available: show the tape's text if the
            // case can be rendered before the call
            props::render(p, &best)
        };
        result["failure"] = json!({"tape": hex(&best), "message": how, "input": input,
            "original_tape_len": original, "phase": "crash"});
    } else {
        eprintln!("error: the worker ended with {status}");
        return 3;
    }

    // Known findings that are probed on purpose
    let mut exit = 0;
    let mut violations = 0;
    let mut extra = vec![];
    for probe in p.probes {
        let st = Command::new(std::env::current_exe().unwrap())
            .args(["probe", probe.key])
            .stdout(Stdio::null())
            .stderr(Stdio::null())
            .spawn()
            .map(|mut c| wait(&mut c, Duration::from_secs(60)));
        let fails = match st {
            Ok(Some(s)) => crash(s).is_some(),
            _ => {
                eprintln!("error: probe {} gave no answer", probe.key);
                return 3;
            }
        };
        extra.push(json!({"probe": probe.key, "what": probe.what, "fails": fails}));
        if fails {
            let k = known();
            if k.findings.iter().any(|(pr, key, _)| pr == id && key == probe.key) {
                println!("KNOWN-FINDING: property={id} {}", probe.what);
            } else {
                let path = write_replay(id, &json!({"property": id, "probe": probe.key, "message": probe.what}));
                println!("VIOLATION property={id} replay={}", path.display());
                println!("  {}", probe.what);
                exit = 1;
                violations += 1;
            }
        }
    }

    let failure = result["failure"].clone();
    if !failure.is_null() {
        let mut replay = failure.clone();
        replay["property"] = json!(id);
        replay["seed"] = json!(seed);
        replay["how_to_replay"] = json!("./run.sh replay <this file>");
        let path = write_replay(id, &replay);
        println!("VIOLATION property={id} replay={}", path.display());
        println!("  {}", failure["message"].as_str().unwrap_or(""));
        println!("  input: {}", failure["input"].as_str().unwrap_or("").escape_debug());
        exit = 1;
        violations += 1;
    }
    let pl = plan(p, tier);
    let evidence = json!({
        "property": id,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": result["evaluations"],
            "distinct_nontrivial": result["distinct_nontrivial"],
            "rule": p.rule,
            "samples": result["samples"],
            "classes": result["labels"],
            "planned_random_cases": pl.random,
            "planned_coverage_guided_cases": pl.guided,
            "coverage_guided_corpus": result["corpus"],
            "edges_of_the_crate_reached": result["edges_reached_per_shard"],
            "probes": extra,
            "exhaustive": false,
        },
        "assumptions": p.assumptions,
        "wall_s": (started.elapsed().as_secs_f64() * 100.0).round() / 100.0,
        "violations": violations,
    });
    let path = verif().join("evidence").join(format!("{id}.json"));
    let _ = std::fs::create_dir_all(path.parent().unwrap());
    let mut f = std::fs::File::create(path).expect("evidence file");
    f.write_all(serde_json::to_string_pretty(&evidence).unwrap().as_bytes()).unwrap();
    if exit == 0 {
        println!(
            "{id} holds on {} cases ({} distinct and non-trivial), {:.1} s",
            result["evaluations"],
            result["distinct_nontrivial"],
            started.elapsed().as_secs_f64()
        );
    }
    exit
}

fn write_replay(id: &str, v: &Value) -> PathBuf {
    let dir = verif().join("evidence").join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{id}.json"));
    std::fs::write(&path, serde_json::to_string_pretty(v).unwrap()).unwrap();
    path
}
