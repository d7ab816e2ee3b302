//! Drives proptest over shards (child processes), shrinks failures, writes evidence and replays.
use proptest::strategy::{BoxedStrategy, Strategy};
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::panic::AssertUnwindSafe;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Fail {
    pub sig: String,
    pub msg: String,
}

impl Fail {
    pub fn new<A: Into<String>, C: Into<String>>(sig: A, msg: C) -> Fail {
        Fail { sig: sig.into(), msg: msg.into() }
    }
    pub fn ctx<A: AsRef<str>>(mut self, c: A) -> Fail {
        self.msg = format!("{} [{}]", self.msg, c.as_ref());
        self
    }
}

pub type R<Tv> = Result<Tv, Fail>;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Ctx {
    pub rt: Arc<tokio::runtime::Runtime>,
    pub scratch: PathBuf,
    dirs: u64,
    pub labels: BTreeSet<String>,
    pub counts: BTreeMap<String, u64>,
    pub nontrivial: bool,
    pub known: Vec<Known>,
    pub known_hits: BTreeMap<String, u64>,
    pub tier: Tier,
    pub property: &'static str,
    /// a replay: look at every point of the case instead of a sample
    pub exhaustive: bool,
}

#[derive(Clone, Debug)]
pub struct Known {
    pub property: String,
    pub sig: String,
    pub text: String,
}

impl Ctx {
    pub fn new_dir(&mut self) -> PathBuf {
        self.dirs += 1;
        let p = self.scratch.join(format!("d{}", self.dirs));
        std::fs::create_dir_all(&p).expect("create scratch directory");
        p
    }
    pub fn label(&mut self, l: &str) {
        if !self.labels.contains(l) {
            self.labels.insert(l.to_string());
        }
    }
    pub fn count(&mut self, l: &str, n: u64) {
        *self.counts.entry(l.to_string()).or_default() += n;
    }
    /// A failure that is listed as a known finding is recorded and passed over.
    pub fn report(&mut self, f: Fail) -> R<()> {
        if self.known.iter().any(|k| k.property == self.property && k.sig == f.sig) {
            *self.known_hits.entry(f.sig).or_default() += 1;
            return Ok(());
        }
        Err(f)
    }
    pub fn report_if(&mut self, r: R<()>) -> R<()> {
        match r {
            Ok(()) => Ok(()),
            Err(f) => self.report(f),
        }
    }
}

pub trait Prop {
    type Case: Serialize + DeserializeOwned + Clone + std::fmt::Debug + 'static;
    const ID: &'static str;
    const RULE: &'static str;
    const LEVEL: &'static str = "exploration";
    /// total number of cases over all shards
    fn cases(tier: Tier) -> u32;
    fn strategy(tier: Tier) -> BoxedStrategy<Self::Case>;
    fn run(case: &Self::Case, ctx: &mut Ctx) -> R<()>;
    fn max_shrink() -> u32 {
        1500
    }
    fn assumptions() -> Vec<String> {
        vec![]
    }
    /// hand-written cases run first, in shard 0 (boundary shapes that random generation rarely hits)
    fn fixed(_tier: Tier) -> Vec<Self::Case> {
        vec![]
    }
    fn single_threaded() -> bool {
        true
    }
}

static LAST_PANIC: Mutex<Option<String>> = Mutex::new(None);
static PROGRESS: AtomicU64 = AtomicU64::new(0);
static VERBOSE: AtomicBool = AtomicBool::new(false);

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let text = format!("{} at {}", msg, loc);
        if VERBOSE.load(Ordering::Relaxed) {
            eprintln!("PANIC {}", text);
            if std::env::var("TSV_BT").is_ok() {
                eprintln!("{}", std::backtrace::Backtrace::force_capture());
            }
        }
        let mut g = match LAST_PANIC.lock() {
            Ok(g) => g,
            Err(p) => p.into_inner(),
        };
        // keep the first panic of a case: later ones (of joined tasks) are consequences
        if g.is_none() {
            *g = Some(text);
        }
    }));
}

pub fn take_panic() -> Option<String> {
    match LAST_PANIC.lock() {
        Ok(mut g) => g.take(),
        Err(p) => p.into_inner().take(),
    }
}

pub fn hash_of(s: &str) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    s.hash(&mut h);
    h.finish()
}

fn seed_bytes(seed: u64, id: &str, shard: u64) -> [u8; 32] {
    let mut out = [0u8; 32];
    for i in 0..4u64 {
        let h = hash_of(&format!("{}/{}/{}/{}", seed, id, shard, i));
        out[i as usize * 8..][..8].copy_from_slice(&h.to_le_bytes());
    }
    out
}

pub fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("TSV_VERIF").unwrap_or_else(|_| "/verif".to_string()))
}

pub fn load_known() -> Vec<Known> {
    let mut v = vec![];
    if let Ok(s) = std::fs::read_to_string(verif_dir().join("known_findings.txt")) {
        for line in s.lines() {
            if let Some(rest) = line.strip_prefix("known: ") {
                let mut property = String::new();
                let mut sig = String::new();
                let mut text = vec![];
                for w in rest.split(' ') {
                    if let (Some(x), true) = (w.strip_prefix("property="), property.is_empty()) {
                        property = x.to_string();
                    } else if let (Some(x), true) = (w.strip_prefix("sig="), sig.is_empty()) {
                        sig = x.to_string();
                    } else {
                        text.push(w);
                    }
                }
                v.push(Known { property, sig, text: text.join(" ") });
            }
        }
    }
    v
}

fn make_rt(single: bool) -> tokio::runtime::Runtime {
    if single {
        tokio::runtime::Builder::new_current_thread().enable_all().max_blocking_threads(1).build().unwrap()
    } else {
        tokio::runtime::Builder::new_multi_thread().worker_threads(2).max_blocking_threads(8).enable_all().build().unwrap()
    }
}

pub fn make_ctx(property: &'static str, tier: Tier, scratch: PathBuf, single: bool) -> Ctx {
    let rt = make_rt(single);
    std::fs::create_dir_all(&scratch).unwrap();
    Ctx {
        rt: Arc::new(rt),
        scratch,
        dirs: 0,
        labels: Default::default(),
        counts: Default::default(),
        nontrivial: false,
        known: load_known(),
        known_hits: Default::default(),
        tier,
        property,
        exhaustive: false,
    }
}

/// Runs one case with panics turned into failures.
pub fn run_case<P: Prop>(case: &P::Case, ctx: &mut Ctx) -> R<()> {
    let _ = take_panic();
    let r = std::panic::catch_unwind(AssertUnwindSafe(|| P::run(case, ctx)));
    let out = match r {
        Ok(Ok(())) => Ok(()),
        Ok(Err(f)) => ctx.report(match take_panic() {
            Some(p) => f.ctx(format!("after panic: {}", p)),
            None => f,
        }),
        Err(e) => {
            let first = take_panic().unwrap_or_else(|| {
                e.downcast_ref::<String>().cloned().unwrap_or_else(|| "panic".into())
            });
            ctx.report(Fail::new("panic", format!("panic: {}", first)))
        }
    };
    // remove the directories of this case
    if ctx.dirs > 0 {
        for i in 1..=ctx.dirs {
            let _ = std::fs::remove_dir_all(ctx.scratch.join(format!("d{}", i)));
        }
        ctx.dirs = 0;
    }
    out
}

#[derive(Serialize, Deserialize, Default)]
struct ShardOut {
    evaluations: u64,
    nontrivial: u64,
    hashes: Vec<u64>,
    labels: BTreeMap<String, u64>,
    counts: BTreeMap<String, u64>,
    samples: Vec<serde_json::Value>,
    known_hits: BTreeMap<String, u64>,
    failure: Option<(serde_json::Value, Fail)>,
    gen_error: Option<String>,
    sizes: Vec<u32>,
}

fn scratch_root() -> PathBuf {
    let shm = Path::new("/dev/shm");
    if shm.is_dir() && std::env::var("TSV_NOSHM").is_err() {
        // needs to be writable
        let probe = shm.join(format!("tsv-probe-{}", std::process::id()));
        if std::fs::write(&probe, b"x").is_ok() {
            let _ = std::fs::remove_file(&probe);
            return shm.to_path_buf();
        }
    }
    std::env::temp_dir()
}

/// Runaway allocations end the shard (an abort, reported as such) before they end the sandbox.
fn limit_memory() {
    let l = libc::rlimit { rlim_cur: 3 << 30, rlim_max: 3 << 30 };
    unsafe { libc::setrlimit(libc::RLIMIT_DATA, &l) };
}

pub fn shard<P: Prop>(tier: Tier, seed: u64, idx: u64, n: u64, dir: &Path) -> i32 {
    install_panic_hook();
    limit_memory();
    let cur = dir.join(format!("cur-{}.json", idx));
    let scratch = dir.join(format!("s{}", idx));
    let mut ctx = make_ctx(P::ID, tier, scratch, P::single_threaded());
    let out = std::cell::RefCell::new(ShardOut::default());
    let seen = std::cell::RefCell::new(HashSet::new());
    let shrinking = std::cell::Cell::new(false);
    // watchdog: a case that makes no progress is an inconclusive run, not a violation
    std::thread::spawn(|| {
        let mut last = PROGRESS.load(Ordering::SeqCst);
        let mut since = Instant::now();
        loop {
            std::thread::sleep(Duration::from_millis(500));
            let now = PROGRESS.load(Ordering::SeqCst);
            if now != last {
                last = now;
                since = Instant::now();
            } else if since.elapsed() > Duration::from_secs(120) {
                eprintln!("shard makes no progress");
                std::process::exit(97);
            }
        }
    });
    let ctx = std::cell::RefCell::new(&mut ctx);
    let exec = |case: &P::Case| -> R<()> {
        PROGRESS.fetch_add(1, Ordering::SeqCst);
        let json = serde_json::to_string(case).unwrap();
        let _ = std::fs::write(&cur, &json);
        let mut ctx = ctx.borrow_mut();
        ctx.labels.clear();
        ctx.counts.clear();
        ctx.nontrivial = false;
        let started = Instant::now();
        let r = run_case::<P>(case, &mut ctx);
        if std::env::var("TSV_TIME").is_ok() {
            let v = serde_json::to_value(case).unwrap();
            let key = format!("ms kind={} size={}", v["kind"], if v["voc"]["nn"].as_u64() > Some(40) { "L" } else if v["voc"]["nn"].as_u64() > Some(6) { "M" } else { "S" });
            ctx.count(&key, started.elapsed().as_millis() as u64);
            ctx.count(&format!("n{}", key), 1);
        }
        if !shrinking.get() {
            let mut o = out.borrow_mut();
            o.evaluations += 1;
            for l in ctx.labels.iter() {
                *o.labels.entry(l.clone()).or_default() += 1;
            }
            for (k, v) in ctx.counts.iter() {
                *o.counts.entry(k.clone()).or_default() += v;
            }
            o.sizes.push(json.len() as u32);
            if ctx.nontrivial {
                o.nontrivial += 1;
                let h = hash_of(&json);
                if seen.borrow_mut().insert(h) {
                    o.hashes.push(h);
                    if o.samples.len() < 2 && json.len() < 3000 && idx < 3 {
                        o.samples.push(serde_json::from_str(&json).unwrap());
                    }
                }
            }
        }
        if let Err(f) = &r {
            shrinking.set(true);
            if f.sig == "hang" || f.sig == "deadlock" {
                // what still waits in this runtime never ends
                let old = std::mem::replace(&mut ctx.rt, Arc::new(make_rt(P::single_threaded())));
                std::mem::forget(old);
            }
        }
        r
    };
    let mut failure: Option<(P::Case, Fail)> = None;
    let fixed: Vec<P::Case> = P::fixed(tier).into_iter().enumerate().filter(|(i, _)| *i as u64 % n == idx).map(|(_, c)| c).collect();
    for c in fixed {
        if let Err(f) = exec(&c) {
            failure = Some((c, f));
            break;
        }
    }
    if failure.is_none() {
        let total = P::cases(tier) as u64;
        let mine = total / n + if idx < total % n { 1 } else { 0 };
        let config = Config {
            cases: mine as u32,
            failure_persistence: None,
            max_shrink_iters: P::max_shrink(),
            max_shrink_time: 90_000,
            max_global_rejects: 1000,
            ..Config::default()
        };
        let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &seed_bytes(seed, P::ID, idx));
        let mut runner = TestRunner::new_with_rng(config, rng);
        let last: std::cell::RefCell<Option<Fail>> = std::cell::RefCell::new(None);
        let strat = P::strategy(tier);
        let res = runner.run(&strat, |case| {
            exec(&case).map_err(|f| {
                let m = f.msg.clone();
                *last.borrow_mut() = Some(f);
                TestCaseError::fail(m)
            })
        });
        match res {
            Ok(()) => {}
            Err(TestError::Fail(_, case)) => {
                // rerun the minimal case for its message
                let f = match exec(&case) {
                    Err(f) => f,
                    Ok(()) => last.borrow().clone().unwrap_or_else(|| Fail::new("unstable", "unstable failure")).ctx("did not fail again when the minimal case was rerun"),
                };
                failure = Some((case, f));
            }
            Err(TestError::Abort(why)) => {
                out.borrow_mut().gen_error = Some(why.to_string());
            }
        }
    }
    let mut o = out.into_inner();
    o.failure = failure.map(|(c, f)| (serde_json::to_value(&c).unwrap(), f));
    let ctx = ctx.into_inner();
    o.known_hits = ctx.known_hits.clone();
    std::fs::write(dir.join(format!("out-{}.json", idx)), serde_json::to_vec(&o).unwrap()).unwrap();
    let _ = std::io::stdout().flush();
    // do not wait for stray blocking threads
    unsafe { libc::_exit(0) }
}

fn write_replay(id: &str, seed: u64, tier: Tier, case: &serde_json::Value, f: &Fail) -> PathBuf {
    let dir = verif_dir().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let text = serde_json::to_string_pretty(&serde_json::json!({
        "property": id, "seed": seed, "tier": format!("{:?}", tier).to_lowercase(),
        "signature": f.sig, "failure": f.msg, "case": case,
    }))
    .unwrap();
    let p = dir.join(format!("{}-{:016x}.json", id, hash_of(&serde_json::to_string(case).unwrap())));
    let _ = std::fs::write(&p, text);
    p
}

pub fn check<P: Prop>(tier: Tier, seed: u64) -> i32 {
    let t0 = Instant::now();
    let n: u64 = std::env::var("TSV_SHARDS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    let dir = scratch_root().join(format!("tsv-{}-{}", P::ID, std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    struct Cleanup(PathBuf);
    impl Drop for Cleanup {
        fn drop(&mut self) {
            let _ = std::fs::remove_dir_all(&self.0);
        }
    }
    let _c = Cleanup(dir.clone());

    let mut violations: Vec<(PathBuf, Fail)> = vec![];
    let mut errors: Vec<String> = vec![];
    // saved regressions first
    let mut replayed = 0u64;
    let reg = verif_dir().join("regress").join(P::ID);
    let mut reg_hits: BTreeMap<String, u64> = BTreeMap::new();
    if let Ok(rd) = std::fs::read_dir(&reg) {
        let mut files: Vec<PathBuf> = rd.flatten().map(|e| e.path()).filter(|p| p.extension().map(|e| e == "json").unwrap_or(false)).collect();
        files.sort();
        for f in files {
            replayed += 1;
            match sub_replay::<P>(&f, &dir) {
                SubReplay::Ok(h) => {
                    for (k, v) in h {
                        *reg_hits.entry(k).or_default() += v;
                    }
                }
                SubReplay::Fail(fail) => violations.push((f.clone(), fail)),
                SubReplay::Error(e) => errors.push(format!("{}: {}", f.display(), e)),
            }
        }
    }

    let exe = std::env::current_exe().unwrap();
    let mut merged = ShardOut::default();
    let mut hashes: HashSet<u64> = HashSet::new();
    if violations.is_empty() {
        let mut kids: Vec<(u64, std::process::Child, bool)> = (0..n)
            .map(|i| {
                let c = std::process::Command::new(&exe)
                    .args([
                        "shard",
                        P::ID,
                        if tier == Tier::Quick { "quick" } else { "thorough" },
                        &seed.to_string(),
                        &i.to_string(),
                        &n.to_string(),
                        dir.to_str().unwrap(),
                    ])
                    .spawn()
                    .expect("spawn shard");
                (i, c, false)
            })
            .collect();
        let mut stop = false;
        loop {
            let mut running = 0;
            for (i, c, done) in kids.iter_mut() {
                if *done {
                    continue;
                }
                match c.try_wait() {
                    Ok(None) => {
                        running += 1;
                        if stop {
                            let _ = c.kill();
                        }
                    }
                    Ok(Some(status)) => {
                        *done = true;
                        let out = dir.join(format!("out-{}.json", i));
                        match std::fs::read(&out).ok().and_then(|b| serde_json::from_slice::<ShardOut>(&b).ok()) {
                            Some(o) => {
                                merged.evaluations += o.evaluations;
                                merged.nontrivial += o.nontrivial;
                                hashes.extend(o.hashes.iter());
                                for (k, v) in o.labels {
                                    *merged.labels.entry(k).or_default() += v;
                                }
                                for (k, v) in o.counts {
                                    *merged.counts.entry(k).or_default() += v;
                                }
                                for (k, v) in o.known_hits {
                                    *merged.known_hits.entry(k).or_default() += v;
                                }
                                merged.samples.extend(o.samples);
                                merged.sizes.extend(o.sizes);
                                if let Some(e) = o.gen_error {
                                    errors.push(format!("generator: {}", e));
                                }
                                if let Some((case, f)) = o.failure {
                                    let p = write_replay(P::ID, seed, tier, &case, &f);
                                    violations.push((p, f));
                                    stop = true;
                                }
                            }
                            None => {
                                use std::os::unix::process::ExitStatusExt;
                                let aborted = matches!(status.signal(), Some(libc::SIGABRT) | Some(libc::SIGSEGV) | Some(libc::SIGBUS) | Some(libc::SIGILL) | Some(libc::SIGFPE));
                                if stop {
                                    // killed by us
                                } else if aborted {
                                    let case = std::fs::read(dir.join(format!("cur-{}.json", i)))
                                        .ok()
                                        .and_then(|b| serde_json::from_slice(&b).ok())
                                        .unwrap_or(serde_json::Value::Null);
                                    let f = Fail::new("abort", format!("the process aborted ({:?}) while running this case", status));
                                    let p = write_replay(P::ID, seed, tier, &case, &f);
                                    violations.push((p, f));
                                    stop = true;
                                } else if status.code() == Some(97) {
                                    let c = std::fs::read_to_string(dir.join(format!("cur-{}.json", i))).unwrap_or_default();
                                    let keep = verif_dir().join("replays").join(format!("{}-hang-{}.json", P::ID, i));
                                    let _ = std::fs::create_dir_all(verif_dir().join("replays"));
                                    let _ = std::fs::write(&keep, format!("{{\"property\":\"{}\",\"case\":{}}}", P::ID, c));
                                    // a case that normally takes milliseconds: believe the hang only when it happens again alone
                                    match sub_replay::<P>(&keep, &dir) {
                                        SubReplay::Error(e) if e.contains("124") => {
                                            let case = serde_json::from_str(&c).unwrap_or(serde_json::Value::Null);
                                            let f = Fail::new("hang", "the case does not end: no result in 120 s, twice");
                                            let p = write_replay(P::ID, seed, tier, &case, &f);
                                            violations.push((p, f));
                                            stop = true;
                                        }
                                        SubReplay::Fail(f) => {
                                            violations.push((keep, f));
                                            stop = true;
                                        }
                                        _ => errors.push(format!("shard {} hangs; case kept in {}", i, keep.display())),
                                    }
                                } else {
                                    errors.push(format!("shard {} ended with {:?}", i, status));
                                }
                            }
                        }
                    }
                    Err(e) => {
                        *done = true;
                        errors.push(e.to_string());
                    }
                }
            }
            if running == 0 {
                break;
            }
            std::thread::sleep(Duration::from_millis(20));
        }
    }
    for (k, v) in reg_hits {
        *merged.known_hits.entry(k).or_default() += v;
    }
    // evidence
    merged.sizes.sort();
    let q = |f: f64| merged.sizes.get(((merged.sizes.len().max(1) - 1) as f64 * f) as usize).cloned().unwrap_or(0);
    let mut samples = merged.samples.clone();
    samples.truncate(4);
    let coverage = serde_json::json!({
        "evaluations": merged.evaluations,
        "distinct_nontrivial": hashes.len(),
        "rule": P::RULE,
        "samples": samples,
        "cases_by_class": merged.labels,
        "work_counts": merged.counts,
        "saved_regressions_replayed": replayed,
        "known_finding_hits": merged.known_hits,
        "case_json_bytes_quartiles": [q(0.0), q(0.25), q(0.5), q(0.75), q(1.0)],
    });
    let ev = serde_json::json!({
        "property": P::ID,
        "tier": if tier == Tier::Quick { "quick" } else { "thorough" },
        "seed": seed,
        "level": P::LEVEL,
        "coverage": coverage,
        "assumptions": P::assumptions(),
        "wall_s": (t0.elapsed().as_secs_f64() * 10.0).round() / 10.0,
        "violations": violations.len(),
    });
    let evd = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&evd);
    std::fs::write(evd.join(format!("{}.json", P::ID)), serde_json::to_string_pretty(&ev).unwrap()).expect("write evidence");

    println!(
        "{} {:?} seed={}: {} cases, {} distinct non-trivial, {} regressions replayed, {:.1} s",
        P::ID,
        tier,
        seed,
        merged.evaluations,
        hashes.len(),
        replayed,
        t0.elapsed().as_secs_f64()
    );
    if std::env::var("TSV_STATS").is_ok() {
        println!("{}", serde_json::to_string_pretty(&ev["coverage"]["cases_by_class"]).unwrap());
        println!("{}", serde_json::to_string_pretty(&ev["coverage"]["work_counts"]).unwrap());
    }
    let known = load_known();
    for k in known.iter().filter(|k| k.property == P::ID) {
        let hits = merged.known_hits.get(&k.sig).cloned().unwrap_or(0);
        println!("KNOWN-FINDING: property={} {} (sig={}, met {} times in this run)", P::ID, k.text, k.sig, hits);
    }
    if !violations.is_empty() {
        for (p, f) in &violations {
            println!("VIOLATION property={} replay={}", P::ID, p.display());
            println!("  {}: {}", f.sig, f.msg.chars().take(1500).collect::<String>());
        }
        return 1;
    }
    if !errors.is_empty() {
        for e in &errors {
            eprintln!("ERROR {}", e);
        }
        return 2;
    }
    0
}

enum SubReplay {
    Ok(BTreeMap<String, u64>),
    Fail(Fail),
    Error(String),
}

fn sub_replay<P: Prop>(file: &Path, dir: &Path) -> SubReplay {
    let exe = std::env::current_exe().unwrap();
    let out = dir.join("replay-out.json");
    let _ = std::fs::remove_file(&out);
    let st = std::process::Command::new("timeout")
        .arg("120")
        .arg(&exe)
        .stdout(std::process::Stdio::null())
        .args(["replay-one", P::ID, file.to_str().unwrap(), out.to_str().unwrap(), dir.join("replay-scratch").to_str().unwrap()])
        .status();
    match std::fs::read(&out).ok().and_then(|b| serde_json::from_slice::<ShardOut>(&b).ok()) {
        Some(o) => match o.failure {
            None => SubReplay::Ok(o.known_hits),
            Some((_, f)) => SubReplay::Fail(f),
        },
        None => {
            use std::os::unix::process::ExitStatusExt;
            match st {
                Ok(s) if s.signal().is_some() || s.code() == Some(134) || s.code() == Some(139) => SubReplay::Fail(Fail::new("abort", format!("process ended with {:?}", s))),
                Ok(s) if s.code() == Some(124) => SubReplay::Fail(Fail::new("hang", "the saved case does not end: no result in 120 s; it normally takes seconds")),
                s => SubReplay::Error(format!("replay ended with {:?}", s)),
            }
        }
    }
}

pub fn replay_one<P: Prop>(file: &Path, out: Option<&Path>, scratch: Option<&Path>, verbose: bool) -> i32 {
    install_panic_hook();
    limit_memory();
    VERBOSE.store(verbose, Ordering::Relaxed);
    let v: serde_json::Value = serde_json::from_slice(&std::fs::read(file).expect("read replay file")).expect("parse replay file");
    let case: P::Case = serde_json::from_value(v["case"].clone()).expect("parse case");
    let own = scratch.is_none();
    let dir = scratch.map(|p| p.to_path_buf()).unwrap_or_else(|| scratch_root().join(format!("tsv-replay-{}", std::process::id())));
    std::fs::create_dir_all(&dir).unwrap();
    let mut ctx = make_ctx(P::ID, Tier::Quick, dir.clone(), P::single_threaded());
    ctx.exhaustive = true;
    let r = run_case::<P>(&case, &mut ctx);
    if verbose {
        println!("labels: {:?}", ctx.labels);
    }
    if own {
        let _ = std::fs::remove_dir_all(&dir);
    }
    if let Some(o) = out {
        let mut so = ShardOut::default();
        so.known_hits = ctx.known_hits.clone();
        so.failure = r.clone().err().map(|f| (v["case"].clone(), f));
        std::fs::write(o, serde_json::to_vec(&so).unwrap()).unwrap();
    }
    // what still waits would keep the runtime from ending
    std::mem::forget(ctx);
    match r {
        Ok(()) => {
            println!("{}: the property holds on {}", P::ID, file.display());
            0
        }
        Err(f) => {
            println!("VIOLATION property={} replay={}", P::ID, file.display());
            println!("  {}: {}", f.sig, f.msg);
            1
        }
    }
}

pub fn print_samples<P: Prop>(seed: u64, n: u32) {
    let config = Config { failure_persistence: None, ..Config::default() };
    let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &seed_bytes(seed, P::ID, 0));
    let mut runner = TestRunner::new_with_rng(config, rng);
    let s = P::strategy(Tier::Quick);
    for _ in 0..n {
        use proptest::strategy::ValueTree;
        println!("{}", serde_json::to_string(&s.new_tree(&mut runner).unwrap().current()).unwrap());
    }
}

/// Runs a future on a multi-threaded runtime of its own (packs use block_in_place), from anywhere.
pub fn on_mt<F: std::future::Future + Send>(f: F) -> F::Output
where
    F::Output: Send,
{
    let rt = mt_handle();
    std::thread::scope(|s| match s.spawn(|| rt.block_on(f)).join() {
        Ok(r) => r,
        Err(e) => std::panic::resume_unwind(e),
    })
}

pub fn mt_handle() -> &'static tokio::runtime::Runtime {
    static MT: std::sync::OnceLock<tokio::runtime::Runtime> = std::sync::OnceLock::new();
    MT.get_or_init(|| tokio::runtime::Builder::new_multi_thread().worker_threads(2).max_blocking_threads(4).enable_all().build().unwrap())
}
