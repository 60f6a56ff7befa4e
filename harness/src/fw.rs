//! Runner: generated cases -> oracle -> shrink -> replay file, in sharded worker processes.
//!
//! Everything is a pure function of (code under test, seed, tier): fixed case counts, one
//! seeded generator for each shard, no clocks in any decision (the only time limit stops
//! shrinking early, which affects how small a reproduction is, not whether there is one).
use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::hash::Hasher;
use std::io::{Read, Write};
use std::os::fd::FromRawFd;
use std::os::unix::process::ExitStatusExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::process::{Command, Stdio};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

impl Tier {
    pub fn name(self) -> &'static str {
        match self {
            Tier::Quick => "quick",
            Tier::Thorough => "thorough",
        }
    }
}

/// What a check reports about the case it ran.
#[derive(Default)]
pub struct Ctx {
    pub labels: BTreeMap<String, u64>,
    case_labels: Vec<&'static str>,
    pub nontrivial: bool,
}

impl Ctx {
    pub fn label(&mut self, l: &'static str) {
        if !self.case_labels.contains(&l) {
            self.case_labels.push(l);
            *self.labels.entry(l.to_string()).or_default() += 1;
        }
    }
    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.label(l)
        }
    }
    fn start_case(&mut self) {
        self.case_labels.clear();
        self.nontrivial = false;
    }
}

pub type Res = Result<(), String>;

pub trait Prop: 'static {
    type Case: Clone + std::fmt::Debug + Serialize + DeserializeOwned + 'static;
    const ID: &'static str;
    const RULE: &'static str;
    const ASSUMPTIONS: &'static [&'static str] = &[];
    fn strategy(tier: Tier) -> BoxedStrategy<Self::Case>;
    /// Total number of cases for the tier (over all shards).
    fn cases(tier: Tier) -> u64;
    fn check(case: &Self::Case, ctx: &mut Ctx) -> Res;
    /// How often a case is tried when a failure is reduced or replayed.
    const TRIES: u32 = 1;
    /// Called once in a worker before its first case.
    fn init() {}
    /// Large cases, of which each shard runs some before the others.
    fn large() -> Option<BoxedStrategy<Self::Case>> {
        None
    }
    fn large_cases(t: Tier) -> u64 {
        if t == Tier::Quick { 64 } else { 1200 }
    }
    /// Fixed cases run before the generated ones (shard 0 only).
    fn fixed() -> Vec<Self::Case> {
        Vec::new()
    }
}

static PANIC_AT: Mutex<String> = Mutex::new(String::new());

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| info.payload().downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_default();
        let at = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        *PANIC_AT.lock().unwrap_or_else(|e| e.into_inner()) = format!("panic '{msg}' at {at}");
    }));
}

pub fn last_panic() -> String {
    PANIC_AT.lock().unwrap_or_else(|e| e.into_inner()).clone()
}

/// Runs `f`; a panic becomes an error naming `what`.
pub fn no_panic<R>(what: &str, f: impl FnOnce() -> R) -> Result<R, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| format!("{what}: {}", last_panic()))
}

/// Processor seconds one case may take. Cases take milliseconds; one that needs this long
/// does not finish, and SIGVTALRM ends the process (processor time, so load cannot cause it).
const CASE_CPU_SECONDS: i64 = 40;

fn arm_timer() {
    let t = libc::itimerval {
        it_interval: libc::timeval { tv_sec: 0, tv_usec: 0 },
        it_value: libc::timeval { tv_sec: CASE_CPU_SECONDS, tv_usec: 0 },
    };
    unsafe { libc::setitimer(libc::ITIMER_VIRTUAL, &t, std::ptr::null_mut()) };
}

fn run_check<P: Prop>(case: &P::Case, ctx: &mut Ctx) -> Res {
    ctx.start_case();
    arm_timer();
    match catch_unwind(AssertUnwindSafe(|| P::check(case, ctx))) {
        Ok(r) => r,
        Err(_) => Err(last_panic()),
    }
}

fn run_tries<P: Prop>(case: &P::Case, ctx: &mut Ctx) -> Res {
    (0..P::TRIES).try_for_each(|_| run_check::<P>(case, ctx))
}

/// Seconds after which a process all of whose threads sleep, none having run meanwhile, is
/// taken to wait for good, as on a lock that it holds itself. Load cannot cause it: a
/// thread that could run is not asleep. SIGUSR2 ends the process.
const IDLE_SECONDS: u64 = 20;

struct Idle {
    pid: i32,
    last: String,
    since: Instant,
}

impl Idle {
    fn new(pid: i32) -> Self {
        Idle { pid, last: String::new(), since: Instant::now() }
    }

    /// Looks at the process, about once a second, and ends it when it waits for good.
    fn look(&mut self) {
        let mut now = String::new();
        let mut asleep = false;
        for t in fs::read_dir(format!("/proc/{}/task", self.pid)).into_iter().flatten().flatten() {
            let status = fs::read_to_string(t.path().join("status")).unwrap_or_default();
            asleep = status.lines().any(|l| l.starts_with("State:") && l.contains("S (sleeping)"));
            if !asleep {
                break;
            }
            now.push_str(&t.file_name().to_string_lossy());
            now.extend(status.lines().filter(|l| l.contains("ctxt_switches")));
        }
        if !asleep || now != self.last {
            self.last = now;
            self.since = Instant::now();
        } else if self.since.elapsed().as_secs() > IDLE_SECONDS {
            unsafe { libc::kill(self.pid, libc::SIGUSR2) };
        }
    }
}

fn died(sig: i32) -> String {
    match sig {
        libc::SIGVTALRM => format!("did not finish in {CASE_CPU_SECONDS} s of processor time"),
        libc::SIGUSR2 => format!("waits for good (asleep for {IDLE_SECONDS} s)"),
        _ => format!("process died with signal {sig}"),
    }
}

/// Waits for all of the workers.
fn wait_all(children: &mut [(u64, (std::process::Child, String, String))]) -> Vec<std::process::ExitStatus> {
    let mut idle: Vec<_> = children.iter().map(|(_, c)| Idle::new(c.0.id() as i32)).collect();
    let mut out = vec![None; children.len()];
    let mut polls = 0u64;
    while out.iter().any(Option::is_none) {
        std::thread::sleep(Duration::from_millis(20));
        polls += 1;
        for i in 0..children.len() {
            if out[i].is_none() {
                out[i] = children[i].1 .0.try_wait().expect("wait");
                if out[i].is_none() && polls % 50 == 0 {
                    idle[i].look();
                }
            }
        }
    }
    out.into_iter().flatten().collect()
}

/// Runs the check in a forked child so that a crash of the code under test is an outcome.
fn run_forked<P: Prop>(case: &P::Case) -> Res {
    let mut fds = [0i32; 2];
    unsafe {
        assert_eq!(libc::pipe(fds.as_mut_ptr()), 0, "pipe");
        let pid = libc::fork();
        assert!(pid >= 0, "fork");
        if pid == 0 {
            libc::close(fds[0]);
            let mut ctx = Ctx::default();
            let r = run_tries::<P>(case, &mut ctx);
            let mut f = fs::File::from_raw_fd(fds[1]);
            let _ = match r {
                Ok(()) => f.write_all(b"+"),
                Err(e) => f.write_all(format!("-{e}").as_bytes()),
            };
            drop(f);
            libc::_exit(0);
        }
        libc::close(fds[1]);
        let mut idle = Idle::new(pid);
        let mut poll = libc::pollfd { fd: fds[0], events: libc::POLLIN, revents: 0 };
        while libc::poll(&mut poll, 1, 1000) < 1 {
            idle.look();
        }
        let mut out = Vec::new();
        let mut f = fs::File::from_raw_fd(fds[0]);
        let _ = f.read_to_end(&mut out);
        let mut status = 0;
        libc::waitpid(pid, &mut status, 0);
        if libc::WIFSIGNALED(status) {
            let sig = libc::WTERMSIG(status);
            if sig == libc::SIGKILL || sig == libc::SIGTERM {
                eprintln!("case ended from outside by signal {sig}");
                std::process::exit(2);
            }
            return Err(died(sig));
        }
        match out.first() {
            Some(b'+') => Ok(()),
            Some(b'-') => Err(String::from_utf8_lossy(&out[1..]).into_owned()),
            _ => Err("process ended without an answer".into()),
        }
    }
}

#[derive(Serialize, Deserialize, Default)]
struct WorkerOut {
    evaluations: u64,
    labels: BTreeMap<String, u64>,
    nontrivial: Vec<u64>,
    samples: Vec<Value>,
    failure: Option<Failure>,
    /// The case of a crash, when it passes in a process of its own.
    passed: Option<Value>,
}

#[derive(Serialize, Deserialize, Clone)]
pub struct Failure {
    pub property: String,
    pub message: String,
    pub first_message: String,
    pub seed: u64,
    pub shard: u64,
    pub index: u64,
    pub case: Value,
}

fn rng_for(id: &str, seed: u64, shard: u64) -> TestRng {
    let mut bytes = [0u8; 32];
    for (i, chunk) in bytes.chunks_mut(8).enumerate() {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        h.write(id.as_bytes());
        h.write_u64(seed);
        h.write_u64(shard);
        h.write_u64(i as u64);
        chunk.copy_from_slice(&h.finish().to_le_bytes());
    }
    TestRng::from_seed(RngAlgorithm::ChaCha, &bytes)
}

fn hash_case<C: Serialize>(c: &C) -> u64 {
    struct W(std::collections::hash_map::DefaultHasher);
    impl Write for W {
        fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
            self.0.write(b);
            Ok(b.len())
        }
        fn flush(&mut self) -> std::io::Result<()> {
            Ok(())
        }
    }
    let mut w = W(std::collections::hash_map::DefaultHasher::new());
    serde_json::to_writer(&mut w, c).expect("case serialises");
    w.0.finish()
}

pub struct WorkerArgs {
    pub tier: Tier,
    pub seed: u64,
    pub shard: u64,
    pub shards: u64,
    pub out: String,
    pub progress: String,
    /// Regenerate up to this case and run it, and its shrinking, in forked children.
    pub isolate: Option<u64>,
}

fn cases_for<P: Prop>(tier: Tier) -> u64 {
    let scale: f64 = std::env::var("GX_SCALE")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(1.0);
    ((P::cases(tier) as f64) * scale) as u64
}

pub fn worker<P: Prop>(a: WorkerArgs) -> i32 {
    quiet_panics();
    P::init();
    let config = Config {
        failure_persistence: None,
        max_shrink_iters: u32::MAX,
        ..Config::default()
    };
    let mut runner = TestRunner::new_with_rng(config, rng_for(P::ID, a.seed, a.shard));
    let strategy = P::strategy(a.tier);
    let large = P::large();
    let total = cases_for::<P>(a.tier);
    let mine = total / a.shards + u64::from(a.shard < total % a.shards);

    let progress = fs::OpenOptions::new()
        .read(true)
        .write(true)
        .create(true)
        .truncate(false)
        .open(&a.progress)
        .expect("progress file");
    progress.set_len(8).expect("progress size");
    let map = unsafe {
        use std::os::fd::AsRawFd;
        let p = libc::mmap(
            std::ptr::null_mut(),
            8,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED,
            progress.as_raw_fd(),
            0,
        );
        assert!(p != libc::MAP_FAILED);
        p as *mut u64
    };

    let mut out = WorkerOut::default();
    let mut ctx = Ctx::default();
    let mut seen = HashSet::new();
    let mut index = 0u64;

    // Fixed cases count down from u64::MAX in the progress file.
    if a.shard == 0 {
        for (k, case) in P::fixed().into_iter().enumerate() {
            let mark = u64::MAX - k as u64;
            let r = match a.isolate {
                Some(i) if i == mark => run_forked::<P>(&case),
                Some(_) => continue,
                None => {
                    unsafe { map.write_volatile(mark) };
                    run_check::<P>(&case, &mut ctx)
                }
            };
            out.evaluations += 1;
            if let Err(m) = r {
                out.failure = Some(Failure {
                    property: P::ID.into(),
                    message: m.clone(),
                    first_message: m,
                    seed: a.seed,
                    shard: a.shard,
                    index: mark,
                    case: serde_json::to_value(&case).expect("case"),
                });
                break;
            }
        }
    }

    while index < mine && out.failure.is_none() {
        let from = match &large {
            Some(s) if index < P::large_cases(a.tier) / a.shards => s,
            _ => &strategy,
        };
        let mut tree = from.new_tree(&mut runner).expect("generator");
        if let Some(i) = a.isolate {
            if index < i {
                index += 1;
                continue;
            }
        }
        let case = tree.current();
        let forked = a.isolate.is_some();
        let r = if forked {
            run_forked::<P>(&case)
        } else {
            unsafe { map.write_volatile(index) };
            run_check::<P>(&case, &mut ctx)
        };
        out.evaluations += 1;
        match r {
            Ok(()) => {
                if ctx.nontrivial {
                    let h = hash_case(&case);
                    if seen.insert(h) {
                        out.nontrivial.push(h);
                        if out.samples.len() < 2 || (index == mine / 2) {
                            let v = serde_json::to_value(&case).expect("case");
                            if v.to_string().len() < 1500 {
                                out.samples.push(v);
                            }
                        }
                    }
                }
                if forked {
                    // The crash needs earlier cases, or happens only at times.
                    out.passed = Some(serde_json::to_value(&case).expect("case"));
                    break;
                }
            }
            Err(first) => {
                let mut best = (case, first.clone());
                let started = Instant::now();
                let budget = Duration::from_secs(60);
                let mut iters = 0u32;
                let max_iters = if forked { 3000 } else { 50_000 };
                let mut scratch = Ctx::default();
                if tree.simplify() {
                    loop {
                        iters += 1;
                        if iters > max_iters || started.elapsed() > budget {
                            break;
                        }
                        let c = tree.current();
                        // Shrinking may leave the (possibly corrupting) failure's process
                        // state behind, hence forks whenever the first failure was a crash.
                        let r = if forked {
                            run_forked::<P>(&c)
                        } else {
                            unsafe { map.write_volatile(index) };
                            run_tries::<P>(&c, &mut scratch)
                        };
                        match r {
                            Err(m) => {
                                best = (c, m);
                                if !tree.simplify() {
                                    break;
                                }
                            }
                            Ok(()) => {
                                if !tree.complicate() {
                                    break;
                                }
                            }
                        }
                    }
                }
                out.failure = Some(Failure {
                    property: P::ID.into(),
                    message: best.1,
                    first_message: first,
                    seed: a.seed,
                    shard: a.shard,
                    index,
                    case: serde_json::to_value(&best.0).expect("case"),
                });
            }
        }
        index += 1;
    }
    out.labels = ctx.labels;
    fs::write(&a.out, serde_json::to_vec(&out).expect("out")).expect("write worker result");
    0
}

pub struct RunArgs {
    pub tier: Tier,
    pub seed: u64,
    pub evidence: String,
    pub replays: String,
    pub scratch: String,
    pub corpus: String,
}

fn spawn(
    exe: &std::path::Path,
    id: &str,
    a: &RunArgs,
    shard: u64,
    shards: u64,
    isolate: Option<u64>,
) -> (std::process::Child, String, String) {
    let out = format!("{}/{id}.{shard}.json", a.scratch);
    let prog = format!("{}/{id}.{shard}.prog", a.scratch);
    let _ = fs::remove_file(&out);
    let mut c = Command::new(exe);
    c.args([
        "worker",
        id,
        "--tier",
        a.tier.name(),
        "--seed",
        &a.seed.to_string(),
        "--shard",
        &shard.to_string(),
        "--shards",
        &shards.to_string(),
        "--out",
        &out,
        "--progress",
        &prog,
    ]);
    if let Some(i) = isolate {
        c.args(["--isolate", &i.to_string()]);
    } else {
        let _ = fs::remove_file(&prog);
    }
    c.stdin(Stdio::null());
    c.env("RUST_BACKTRACE", "0");
    // A process that aborts says so on standard error, once for each shrinking step.
    let log = format!("{}/{id}.{shard}.err", a.scratch);
    c.stderr(fs::File::create(&log).expect("log"));
    (c.spawn().expect("spawn worker"), out, prog)
}

fn read_progress(p: &str) -> Option<u64> {
    let b = fs::read(p).ok()?;
    Some(u64::from_le_bytes(b.get(..8)?.try_into().ok()?))
}

fn read_out(p: &str) -> Option<WorkerOut> {
    serde_json::from_slice(&fs::read(p).ok()?).ok()
}

/// Runs all shards of a property; returns the process exit code.
pub fn run<P: Prop>(a: RunArgs) -> i32 {
    let started = Instant::now();
    let shards = 8u64;
    fs::create_dir_all(&a.scratch).expect("scratch");
    let exe = std::env::current_exe().expect("exe");
    quiet_panics();
    P::init();
    let regressions = match regressions::<P>(&format!("{}/{}", a.corpus, P::ID)) {
        Ok(n) => n,
        Err((path, m)) => {
            println!("failure: saved regression case: {m}");
            write_evidence(
                &a.evidence,
                &json!({
                    "property": P::ID, "tier": a.tier.name(), "seed": a.seed, "level": "exploration",
                    "coverage": {"evaluations": 1, "distinct_nontrivial": 0, "rule": P::RULE,
                        "samples": [path.clone()]},
                    "wall_s": started.elapsed().as_secs_f64(), "violations": 1,
                }),
            );
            println!("VIOLATION property={} replay={path}", P::ID);
            return 1;
        }
    };
    let mut children: Vec<_> = (0..shards)
        .map(|s| (s, spawn(&exe, P::ID, &a, s, shards, None)))
        .collect();
    let mut all = WorkerOut::default();
    let mut distinct = HashSet::new();
    let mut failures = Vec::new();
    let mut crashed = false;
    let mut errors = Vec::new();
    let statuses = wait_all(&mut children);
    for ((s, (_, out, prog)), status) in children.into_iter().zip(statuses) {
        let w = if status.success() {
            read_out(&out)
        } else if let Some(sig) = status.signal() {
            // SIGKILL and SIGTERM come from outside (memory pressure, time-outs).
            if sig == libc::SIGKILL || sig == libc::SIGTERM {
                errors.push(format!("shard {s} was ended by signal {sig}"));
                None
            } else {
                if crashed {
                    // One crash is enough to reproduce and shrink.
                    errors.push(format!("shard {s} died with signal {sig} too"));
                    continue;
                }
                crashed = true;
                let at = read_progress(&prog).unwrap_or(0);
                eprintln!("shard {s}: signal {sig} at case {at}; isolating");
                let (mut c2, out2, _) = spawn(&exe, P::ID, &a, s, shards, Some(at));
                let st2 = c2.wait().expect("wait");
                match (st2.success(), read_out(&out2)) {
                    (true, Some(mut w)) => {
                        let how = died(sig);
                        match (w.failure.is_none(), w.passed.take()) {
                            (true, Some(case)) if sig != libc::SIGVTALRM => {
                                w.failure = Some(Failure {
                                    property: P::ID.into(),
                                    message: format!("{how} (the case passes when it is run again on its own)"),
                                    first_message: how,
                                    seed: a.seed,
                                    shard: s,
                                    index: at,
                                    case,
                                });
                            }
                            (true, _) => errors.push(format!("shard {s}: {how} at case {at}, which passes on its own")),
                            _ => {}
                        }
                        Some(w)
                    }
                    _ => {
                        errors.push(format!("shard {s}: isolation of case {at} failed"));
                        None
                    }
                }
            }
        } else {
            errors.push(format!("shard {s} exited with {status}"));
            None
        };
        let Some(w) = w else {
            if errors.is_empty() {
                errors.push(format!("shard {s} left no result"));
            }
            continue;
        };
        all.evaluations += w.evaluations;
        for (k, v) in w.labels {
            *all.labels.entry(k).or_default() += v;
        }
        distinct.extend(w.nontrivial);
        if all.samples.len() < 6 {
            all.samples.extend(w.samples.into_iter().take(1));
        }
        if let Some(f) = w.failure {
            failures.push(f);
        }
    }
    for p in 0..shards {
        let _ = fs::remove_file(format!("{}/{}.{p}.json", a.scratch, P::ID));
        let _ = fs::remove_file(format!("{}/{}.{p}.prog", a.scratch, P::ID));
        if errors.is_empty() {
            let _ = fs::remove_file(format!("{}/{}.{p}.err", a.scratch, P::ID));
        }
    }
    let mut rule = P::RULE.to_string();
    if P::large().is_some() {
        rule += &format!(
            " {} of the cases are large ones, with thousands of edges, columns or blocks (up to about 2^17) or texts of hundreds of rows.",
            P::large_cases(a.tier)
        );
    }
    let evidence = json!({
        "property": P::ID,
        "tier": a.tier.name(),
        "seed": a.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": all.evaluations,
            "distinct_nontrivial": distinct.len(),
            "rule": rule,
            "samples": all.samples,
            "labels": all.labels,
            "regression_cases": regressions,
        },
        "assumptions": P::ASSUMPTIONS,
        "wall_s": started.elapsed().as_secs_f64(),
        "violations": failures.len(),
    });
    write_evidence(&a.evidence, &evidence);
    println!(
        "{}: {} cases, {} distinct non-trivial, {} failures, {:.1}s",
        P::ID,
        all.evaluations,
        distinct.len(),
        failures.len(),
        started.elapsed().as_secs_f64()
    );
    for (k, v) in &all.labels {
        println!("  {v:>8}  {k}");
    }
    if let Some(f) = failures
        .iter()
        .min_by_key(|f| f.case.to_string().len())
    {
        let path = save_replay(&a.replays, f);
        println!("failure: {}", f.message);
        println!("case: {}", f.case);
        println!("VIOLATION property={} replay={}", P::ID, path);
        return 1;
    }
    if !errors.is_empty() {
        for e in errors {
            println!("ERROR {e}");
        }
        return 2;
    }
    0
}

pub fn write_evidence(path: &str, v: &Value) {
    if let Some(d) = std::path::Path::new(path).parent() {
        let _ = fs::create_dir_all(d);
    }
    fs::write(path, serde_json::to_vec_pretty(v).expect("evidence")).expect("write evidence");
}

fn save_replay(dir: &str, f: &Failure) -> String {
    fs::create_dir_all(dir).expect("replay dir");
    let path = format!("{dir}/{}-{:016x}.json", f.property, hash_case(&f.case));
    fs::write(&path, serde_json::to_vec_pretty(f).expect("replay")).expect("write replay");
    path
}

/// Re-runs one saved case, without the generator: 1 if it still fails.
pub fn replay<P: Prop>(path: &str) -> i32 {
    quiet_panics();
    P::init();
    let v: Value = serde_json::from_slice(&fs::read(path).expect("replay file")).expect("json");
    let case: P::Case = serde_json::from_value(v["case"].clone()).expect("case");
    match run_forked::<P>(&case) {
        Ok(()) => {
            println!("{}: the saved case passes", P::ID);
            0
        }
        Err(m) => {
            println!("failure: {m}");
            println!("VIOLATION property={} replay={path}", P::ID);
            1
        }
    }
}

/// Re-runs every saved regression case of a property.
pub fn regressions<P: Prop>(dir: &str) -> Result<usize, (String, String)> {
    let mut n = 0;
    let Ok(entries) = fs::read_dir(dir) else {
        return Ok(0);
    };
    let mut paths: Vec<_> = entries.flatten().map(|e| e.path()).collect();
    paths.sort();
    for p in paths {
        if p.extension().is_some_and(|e| e == "json") {
            let v: Value = serde_json::from_slice(&fs::read(&p).expect("regression file"))
                .expect("regression json");
            let case: P::Case = serde_json::from_value(v["case"].clone()).expect("case");
            n += 1;
            if let Err(m) = run_forked::<P>(&case) {
                return Err((p.display().to_string(), m));
            }
        }
    }
    Ok(n)
}

pub fn boxed<S>(s: S) -> BoxedStrategy<S::Value>
where
    S: Strategy + 'static,
{
    s.boxed()
}
