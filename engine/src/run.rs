use crate::{alloc, CheckResult, Ctx, Prop};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::hash::{Hash, Hasher};
use std::io::{Read, Write};
use std::os::unix::fs::FileExt;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{exit, Child, Command, Stdio};
use std::time::{Duration, Instant};

const FAIL_EXIT: i32 = 85;
/// A case which uses that much processor time does not terminate: even the largest ones take about a second.
/// (Processor time does not depend on the load of the machine.)
const CPU_SECONDS: i64 = 30;
const CPU_EXIT: i32 = 87;
/// Without progress for so long, something is wrong besides; leads to an error exit, never to a violation.
const HANG_SECONDS: u64 = 240;
const SHRINK_SECONDS: u64 = 60;
const SHRINK_CANDIDATES: usize = 4000;

thread_local! {
    static GUARDED: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
    static PANIC_INFO: RefCell<String> = const { RefCell::new(String::new()) };
}

pub(crate) fn guarded(f: impl FnOnce() -> CheckResult) -> CheckResult {
    PANIC_INFO.with(|p| p.borrow_mut().clear());
    alloc::arm();
    cpu_limit(CPU_SECONDS);
    GUARDED.with(|g| g.set(true));
    let res = catch_unwind(AssertUnwindSafe(f));
    GUARDED.with(|g| g.set(false));
    cpu_limit(0);
    alloc::disarm();
    match res {
        Ok(res) => res,
        Err(_) => Err(format!(
            "panicked: {}",
            PANIC_INFO.with(|p| p.borrow().clone())
        )),
    }
}

extern "C" fn out_of_time(_: libc::c_int) {
    unsafe { libc::_exit(CPU_EXIT) }
}

/// Ends the process when it has used that many seconds of processor time from now on; never if zero.
fn cpu_limit(seconds: i64) {
    let limit = libc::itimerval {
        it_interval: libc::timeval { tv_sec: 0, tv_usec: 0 },
        it_value: libc::timeval { tv_sec: seconds, tv_usec: 0 },
    };
    unsafe {
        libc::signal(libc::SIGVTALRM, out_of_time as extern "C" fn(libc::c_int) as libc::sighandler_t);
        libc::setitimer(libc::ITIMER_VIRTUAL, &limit, std::ptr::null_mut());
    }
}

fn quiet_panics() {
    std::panic::set_hook(Box::new(|info| {
        let text = info.to_string().replace('\n', " ");
        if !GUARDED.with(|g| g.get()) {
            // The harness itself is broken
            eprintln!("{text}");
        }
        PANIC_INFO.with(|p| *p.borrow_mut() = text);
    }));
}

fn seed_bytes(seed: u64, id: &str, index: u64) -> [u8; 32] {
    let mut out = [0u8; 32];
    for (lane, chunk) in out.chunks_mut(8).enumerate() {
        let mut h = Fnv(0xcbf29ce484222325 ^ (lane as u64).wrapping_mul(0x9E3779B97F4A7C15));
        seed.hash(&mut h);
        h.write(id.as_bytes());
        index.hash(&mut h);
        // splitmix finalizer
        let mut z = h.finish();
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        chunk.copy_from_slice(&(z ^ (z >> 31)).to_le_bytes());
    }
    out
}

struct Fnv(u64);
impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, bytes: &[u8]) {
        for b in bytes {
            self.0 = (self.0 ^ u64::from(*b)).wrapping_mul(0x100000001b3);
        }
    }
}

fn runner(seed: u64, id: &str, index: u64) -> TestRunner {
    TestRunner::new_with_rng(
        Config {
            failure_persistence: None,
            ..Config::default()
        },
        TestRng::from_seed(RngAlgorithm::ChaCha, &seed_bytes(seed, id, index)),
    )
}

#[derive(Serialize, Deserialize, Default)]
struct Report {
    evaluations: u64,
    excluded: u64,
    #[serde(skip)]
    nontrivial: Vec<u64>,
    classes: BTreeMap<String, u64>,
    samples: Vec<(u64, Value)>,
    failure: Option<(u64, String)>,
}

fn truncated(v: &Value) -> Value {
    let text = v.to_string();
    if text.len() > 1500 {
        let mut end = 1500;
        while !text.is_char_boundary(end) {
            end -= 1;
        }
        Value::String(format!("{}... ({} bytes)", &text[..end], text.len()))
    } else {
        v.clone()
    }
}

fn find<'a>(props: &'a [Prop], id: &str) -> &'a Prop {
    props.iter().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("unknown property {id}");
        exit(2)
    })
}

/// Indices below this are the fixed cases.
fn run_worker(prop: &Prop, shard: u64, shards: u64, cases: u64, seed: u64, progress: &Path, out: &Path) {
    quiet_panics();
    let progress = std::fs::OpenOptions::new()
        .create(true)
        .truncate(false)
        .write(true)
        .open(progress)
        .expect("progress file");
    let mut report = Report::default();
    let fixed = prop.case.fixed();
    let total = fixed.len() as u64 + cases;
    let mut index = shard;
    while index < total {
        progress
            .write_at(&(index + 1).to_le_bytes(), 0)
            .expect("progress write");
        let mut ctx = Ctx::default();
        let mut sample = None;
        let (res, text) = if (index as usize) < fixed.len() {
            let case = &fixed[index as usize];
            ctx.label("fixed regression case");
            (prop.case.check_json(case, &mut ctx), case.to_string())
        } else {
            let want_sample = report.samples.len() < 2;
            prop.case.generate_and_check(
                &mut runner(seed, prop.id, index - fixed.len() as u64),
                &mut ctx,
                &mut |case| {
                    if want_sample {
                        sample = Some(case());
                    }
                },
            )
        };
        report.evaluations += 1;
        report.excluded += ctx.excluded;
        for (class, count) in ctx.classes {
            *report.classes.entry(class).or_default() += count;
        }
        if ctx.nontrivial {
            let mut h = Fnv(0xcbf29ce484222325);
            h.write(text.as_bytes());
            report.nontrivial.push(h.finish());
            if let Some(sample) = sample {
                report.samples.push((index, truncated(&sample)));
            }
        }
        if let Err(msg) = res {
            report.failure = Some((index, msg));
            break;
        }
        index += shards;
    }
    let hashes: Vec<u8> = report.nontrivial.iter().flat_map(|h| h.to_le_bytes()).collect();
    std::fs::write(out.with_extension("hashes"), hashes).expect("report write");
    std::fs::write(out, serde_json::to_vec(&report).expect("report")).expect("report write");
}

fn read_progress(path: &Path) -> u64 {
    std::fs::read(path)
        .ok()
        .and_then(|b| b.try_into().ok())
        .map(u64::from_le_bytes)
        .unwrap_or(0)
}

enum Outcome {
    Pass,
    Fail(String),
    /// Hang, SIGKILL, or anything else which says nothing about the property.
    Error(String),
}

fn classify_exit(status: std::process::ExitStatus, stderr: &str) -> Outcome {
    if let Some(sig) = status.signal() {
        return match sig {
            libc::SIGSEGV | libc::SIGABRT | libc::SIGBUS | libc::SIGILL | libc::SIGFPE => {
                Outcome::Fail(format!("crashed with signal {sig} {}", stderr.trim()))
            }
            sig => Outcome::Error(format!("child killed by signal {sig}")),
        };
    }
    match status.code() {
        Some(0) => Outcome::Pass,
        Some(alloc::RUNAWAY_EXIT) => Outcome::Fail(
            "runaway allocation: a single case exceeded the budget of bytes or allocations (unbounded output or iteration)".into(),
        ),
        Some(CPU_EXIT) => Outcome::Fail(format!(
            "a single case used more than {CPU_SECONDS} seconds of processor time (it does not terminate)"
        )),
        Some(FAIL_EXIT) => Outcome::Fail(stderr.trim().to_string()),
        code => Outcome::Error(format!("child exited with {code:?}: {}", stderr.trim())),
    }
}

fn me() -> PathBuf {
    std::env::current_exe().expect("own path")
}

/// Children die with their parent, and keep their core files to themselves.
fn command() -> Command {
    let mut c = Command::new(me());
    unsafe {
        c.pre_exec(|| {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            let none = libc::rlimit {
                rlim_cur: 0,
                rlim_max: 0,
            };
            libc::setrlimit(libc::RLIMIT_CORE, &none);
            let stack = libc::rlimit {
                rlim_cur: 8 << 20,
                rlim_max: libc::RLIM_INFINITY,
            };
            libc::setrlimit(libc::RLIMIT_STACK, &stack);
            Ok(())
        });
    }
    c
}

fn wait_timeout(child: &mut Child, limit: Duration) -> Option<std::process::ExitStatus> {
    let start = Instant::now();
    let mut nap = Duration::from_micros(200);
    loop {
        if let Some(status) = child.try_wait().expect("wait") {
            return Some(status);
        }
        if start.elapsed() > limit {
            let _ = child.kill();
            let _ = child.wait();
            return None;
        }
        std::thread::sleep(nap);
        nap = (nap * 2).min(Duration::from_millis(20));
    }
}

/// Evaluates one case in a fresh process.
fn eval_in_child(id: &str, case: &Value) -> Outcome {
    eval_in_child_as("eval", id, case)
}

fn eval_in_child_as(mode: &str, id: &str, case: &Value) -> Outcome {
    let mut child = command()
        .args([mode, id])
        .stdin(Stdio::piped())
        .stdout(Stdio::null())
        .stderr(Stdio::piped())
        .spawn()
        .expect("spawn");
    let text = case.to_string();
    let mut stdin = child.stdin.take().expect("stdin");
    let feeder = std::thread::spawn(move || {
        let _ = stdin.write_all(text.as_bytes());
    });
    let mut stderr = child.stderr.take().expect("stderr");
    let reader = std::thread::spawn(move || {
        let mut s = Vec::new();
        let _ = stderr.read_to_end(&mut s);
        String::from_utf8_lossy(&s).into_owned()
    });
    let status = wait_timeout(&mut child, Duration::from_secs(HANG_SECONDS));
    let _ = feeder.join();
    let err = reader.join().unwrap_or_default();
    match status {
        None => Outcome::Error("hang".into()),
        Some(status) => classify_exit(status, &err),
    }
}

fn run_eval(prop: &Prop, demonstrate: bool) -> ! {
    quiet_panics();
    let mut text = String::new();
    std::io::stdin().read_to_string(&mut text).expect("stdin");
    let case: Value = serde_json::from_str(&text).expect("a JSON case on stdin");
    let mut ctx = Ctx {
        demonstrate,
        ..Ctx::default()
    };
    match prop.case.check_json(&case, &mut ctx) {
        Ok(()) => exit(0),
        Err(msg) => {
            eprintln!("{msg}");
            exit(FAIL_EXIT)
        }
    }
}

/// Proptest's own simplify/complicate protocol, every candidate in a child.
fn shrink(prop: &Prop, seed: u64, index: u64, first: &str) -> (Value, String, usize) {
    let mut tree = prop.case.tree(&mut runner(seed, prop.id, index));
    let mut best = (tree.current(), first.to_string());
    let start = Instant::now();
    let mut tried = 0;
    if tree.simplify() {
        loop {
            if tried >= SHRINK_CANDIDATES || start.elapsed() > Duration::from_secs(SHRINK_SECONDS) {
                break;
            }
            tried += 1;
            let candidate = tree.current();
            let more = match eval_in_child(prop.id, &candidate) {
                Outcome::Fail(msg) => {
                    best = (candidate, msg);
                    tree.simplify()
                }
                _ => tree.complicate(),
            };
            if !more {
                break;
            }
        }
    }
    (best.0, best.1, tried)
}

fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()))
}

#[derive(Deserialize)]
struct Finding {
    property: String,
    status: String,
    id: String,
    what: String,
    #[serde(default)]
    case: Option<Value>,
}

fn findings(id: &str) -> Vec<Finding> {
    let path = verif_dir().join("known_findings.jsonl");
    let Ok(text) = std::fs::read_to_string(path) else {
        return Vec::new();
    };
    text.lines()
        .filter(|l| l.starts_with('{'))
        .map(|l| serde_json::from_str::<Finding>(l).expect("known_findings.jsonl"))
        .filter(|f| f.property == id && f.status == "finding")
        .collect()
}

fn run_check(prop: &Prop) -> i32 {
    let start = Instant::now();
    let seed: u64 = std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(1);
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => "thorough",
        _ => "quick",
    };
    let cases = std::env::var("VERIF_CASES")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(if tier == "thorough" {
            prop.thorough
        } else {
            prop.quick
        });
    let dir = verif_dir();
    for sub in ["evidence", "replays"] {
        std::fs::create_dir_all(dir.join(sub)).expect("output directory");
    }

    let mut known = Vec::new();
    for finding in findings(prop.id) {
        let case = finding.case.as_ref().expect("a finding names its case");
        match eval_in_child_as("demonstrate", prop.id, case) {
            Outcome::Fail(msg) => {
                println!(
                    "KNOWN-FINDING: property={} {} ({}) [{}]",
                    prop.id, finding.what, finding.id, msg.replace('\n', " ")
                );
                known.push(finding.id);
            }
            Outcome::Pass => println!("note: known finding {} no longer fails", finding.id),
            Outcome::Error(msg) => {
                eprintln!("error: {} while demonstrating {}", msg, finding.id);
                return 2;
            }
        }
    }

    let fixed = prop.case.fixed();
    let total = fixed.len() as u64 + cases;
    let shards = std::thread::available_parallelism()
        .map(|n| n.get() as u64)
        .unwrap_or(8)
        .clamp(1, 16);
    let scratch = std::env::temp_dir().join(format!("pbt-{}-{}", prop.id, std::process::id()));
    std::fs::create_dir_all(&scratch).expect("scratch");
    let mut workers: Vec<(Child, PathBuf, PathBuf, u64, Instant, Option<std::process::ExitStatus>)> =
        (0..shards)
            .map(|shard| {
                let progress = scratch.join(format!("progress{shard}"));
                let out = scratch.join(format!("out{shard}"));
                let child = command()
                    .args(["worker", prop.id])
                    .args([shard, shards, cases, seed].map(|n| n.to_string()))
                    .arg(&progress)
                    .arg(&out)
                    .stdout(Stdio::null())
                    .stderr(Stdio::from(
                        std::fs::File::create(scratch.join(format!("stderr{shard}"))).expect("file"),
                    ))
                    .spawn()
                    .expect("spawn worker");
                (child, progress, out, 0, Instant::now(), None)
            })
            .collect();
    // Wait for the workers, watching for progress
    let mut hang = None;
    loop {
        let mut alive = false;
        for (child, progress, _, last, since, status) in workers.iter_mut() {
            if status.is_some() {
                continue;
            }
            if let Some(s) = child.try_wait().expect("wait") {
                *status = Some(s);
                continue;
            }
            alive = true;
            let now = read_progress(progress);
            if now != *last {
                *last = now;
                *since = Instant::now();
            } else if since.elapsed() > Duration::from_secs(HANG_SECONDS) {
                let _ = child.kill();
                *status = Some(child.wait().expect("wait"));
                hang = Some(now.saturating_sub(1));
            }
        }
        if !alive {
            break;
        }
        std::thread::sleep(Duration::from_millis(10));
    }

    let mut merged = Report::default();
    let mut hashes: Vec<u64> = Vec::new();
    let mut failures: Vec<(u64, String)> = Vec::new();
    let mut errors: Vec<String> = Vec::new();
    for (_, progress, out, _, _, status) in &workers {
        let status = status.expect("finished");
        if status.success() {
            let report: Report =
                serde_json::from_slice(&std::fs::read(out).expect("report")).expect("report");
            merged.evaluations += report.evaluations;
            merged.excluded += report.excluded;
            hashes.extend(
                std::fs::read(out.with_extension("hashes"))
                    .expect("hashes")
                    .chunks_exact(8)
                    .map(|c| u64::from_le_bytes(c.try_into().expect("8 bytes"))),
            );
            for (class, count) in report.classes {
                *merged.classes.entry(class).or_default() += count;
            }
            merged.samples.extend(report.samples);
            failures.extend(report.failure);
        } else {
            let index = read_progress(progress).saturating_sub(1);
            let stderr = std::fs::read_to_string(progress.with_file_name(
                progress.file_name().expect("name").to_string_lossy().replace("progress", "stderr"),
            ))
            .unwrap_or_default();
            match classify_exit(status, &stderr) {
                Outcome::Fail(msg) => failures.push((index, msg)),
                Outcome::Error(msg) => errors.push(format!("case {index}: {msg}")),
                Outcome::Pass => unreachable!(),
            }
        }
    }
    std::fs::remove_dir_all(&scratch).ok();
    hashes.sort_unstable();
    hashes.dedup();
    if let Some(index) = hang {
        errors.push(format!("case {index} made no progress for {HANG_SECONDS}s"));
    }

    failures.sort();
    let mut violation = None;
    for (index, msg) in &failures {
        // Confirm in a fresh process before believing anything
        let is_fixed = *index < fixed.len() as u64;
        let case = if is_fixed {
            fixed[*index as usize].clone()
        } else {
            prop.case
                .tree(&mut runner(seed, prop.id, index - fixed.len() as u64))
                .current()
        };
        match eval_in_child(prop.id, &case) {
            Outcome::Fail(_) => {}
            Outcome::Pass => {
                errors.push(format!("case {index} failed ({msg}) but does not reproduce"));
                continue;
            }
            Outcome::Error(e) => {
                errors.push(format!("case {index}: {e}"));
                continue;
            }
        }
        let (case, msg, tried) = if is_fixed {
            (case, msg.clone(), 0)
        } else {
            shrink(prop, seed, index - fixed.len() as u64, msg)
        };
        let replay = dir.join("replays").join(format!("{}-{seed}-{index}.json", prop.id));
        let body = json!({
            "property": prop.id, "seed": seed, "tier": tier, "index": index,
            "message": msg, "shrink_candidates": tried, "case": case,
        });
        std::fs::write(&replay, serde_json::to_vec_pretty(&body).expect("json")).expect("replay");
        println!("case {index} (shrunk, {tried} candidates): {case}");
        println!("  {msg}");
        violation = Some(replay);
        break;
    }

    merged.samples.sort_by_key(|s| s.0);
    let samples: Vec<_> = merged.samples.iter().map(|s| s.1.clone()).take(6).collect();
    let share = hashes.len() as f64 / merged.evaluations.max(1) as f64;
    let evidence = json!({
        "property": prop.id,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": merged.evaluations,
            "distinct_nontrivial": hashes.len(),
            "rule": prop.rule,
            "samples": samples,
            "classes": merged.classes,
            "fixed_regression_cases": fixed.len(),
            "excluded_known_findings": merged.excluded,
            "known_findings_demonstrated": known,
        },
        "assumptions": prop.assumptions,
        "wall_s": start.elapsed().as_secs_f64(),
        "violations": usize::from(violation.is_some()),
    });
    std::fs::write(
        dir.join("evidence").join(format!("{}.json", prop.id)),
        serde_json::to_vec_pretty(&evidence).expect("json"),
    )
    .expect("evidence");

    if let Some(replay) = violation {
        println!("VIOLATION property={} replay={}", prop.id, replay.display());
        return 1;
    }
    if !errors.is_empty() {
        for e in errors {
            eprintln!("error: {e}");
        }
        return 2;
    }
    if merged.evaluations != total {
        eprintln!("error: {} of {total} cases evaluated", merged.evaluations);
        return 2;
    }
    if cases >= 1000 && share < prop.min_nontrivial {
        eprintln!("error: only {share:.3} of the cases are distinct and non-trivial, the generator is broken");
        return 2;
    }
    println!(
        "{}: held on {} cases ({} distinct non-trivial) in {:.1}s",
        prop.id,
        merged.evaluations,
        hashes.len(),
        start.elapsed().as_secs_f64()
    );
    0
}

fn run_replay(props: &[Prop], file: &str) -> i32 {
    let body: Value =
        serde_json::from_slice(&std::fs::read(file).expect("replay file")).expect("replay JSON");
    let id = body["property"].as_str().expect("property");
    match eval_in_child(find(props, id).id, &body["case"]) {
        Outcome::Pass => {
            println!("{id}: the case passes");
            0
        }
        Outcome::Fail(msg) => {
            println!("{msg}");
            println!("VIOLATION property={id} replay={file}");
            1
        }
        Outcome::Error(msg) => {
            eprintln!("error: {msg}");
            2
        }
    }
}

pub fn main(props: Vec<Prop>) {
    let args: Vec<String> = std::env::args().collect();
    let arg = |i: usize| -> &str {
        args.get(i).map(String::as_str).unwrap_or_else(|| {
            eprintln!("usage: check ID | eval ID | replay FILE | list | sample ID N");
            exit(2)
        })
    };
    let num = |i: usize| -> u64 { arg(i).parse().expect("a number") };
    match arg(1) {
        "list" => {
            for p in &props {
                println!("{}", p.id);
            }
        }
        "check" => exit(run_check(find(&props, arg(2)))),
        "worker" => run_worker(
            find(&props, arg(2)),
            num(3),
            num(4),
            num(5),
            num(6),
            Path::new(arg(7)),
            Path::new(arg(8)),
        ),
        "eval" => run_eval(find(&props, arg(2)), false),
        "demonstrate" => run_eval(find(&props, arg(2)), true),
        "replay" => exit(run_replay(&props, arg(2))),
        "sample" => {
            let prop = find(&props, arg(2));
            for i in 0..num(3) {
                println!("{}", prop.case.tree(&mut runner(1, prop.id, i)).current());
            }
        }
        _ => {
            eprintln!("unknown command");
            exit(2)
        }
    }
}
