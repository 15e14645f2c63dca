//! Runner: generated cases, sharding, shrinking, crash isolation, replay files and evidence.
use proptest::strategy::BoxedStrategy;
use proptest::test_runner::{
    Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner,
};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use std::{
    cell::{Cell, RefCell},
    collections::{hash_map::DefaultHasher, BTreeMap, HashSet},
    fmt::Debug,
    hash::{Hash, Hasher},
    io::Write,
    os::unix::fs::FileExt,
    os::unix::process::ExitStatusExt,
    panic::{catch_unwind, AssertUnwindSafe},
    path::{Path, PathBuf},
    process::{Command, Stdio},
    sync::{
        atomic::{AtomicBool, AtomicU32, AtomicU64, AtomicUsize, Ordering},
        Mutex,
    },
    time::{Duration, Instant},
};

pub type R = Result<(), String>;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
    /// not a tier to run: asks a generator for few, large cases
    Large,
}

/// Per-case context: classification only, never influences the verdict.
#[derive(Default)]
pub struct Ctx {
    nontrivial: bool,
    classes: BTreeMap<&'static str, u64>,
    extra: u64,
}

impl Ctx {
    pub fn nontrivial(&mut self, b: bool) {
        self.nontrivial |= b;
    }
    pub fn class(&mut self, name: &'static str, cond: bool) {
        let e = self.classes.entry(name).or_insert(0);
        *e += cond as u64;
    }
    /// further executions of the code under test within one generated case (e.g. injected faults)
    pub fn executions(&mut self, n: u64) {
        self.extra += n;
    }
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($fmt:tt)*) => { if !$c { return Err(format!($($fmt)*)); } };
}
#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($fmt:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if a != b {
            return Err(format!("{}: got {:?}, expected {:?}", format!($($fmt)*), a, b));
        }
    }};
}

thread_local! {
    static BEAT_IDX: Cell<Option<usize>> = const { Cell::new(None) };
    static LAST_PANIC: RefCell<Option<String>> = RefCell::new(None);
    static CUR: RefCell<Option<(std::fs::File, &'static str, String)>> = RefCell::new(None);
    /// set by checks that provoke panics on purpose; suppresses nothing but the message capture
    pub static EXPECT_PANIC: Cell<bool> = Cell::new(false);
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        if msg.starts_with("unsafe precondition") || msg.contains("cannot unwind") {
            // the process is about to abort
            eprintln!("panicked at {}: {}", loc, msg);
        }
        let _ = LAST_PANIC.try_with(|p| {
            if let Ok(mut p) = p.try_borrow_mut() {
                *p = Some(format!("panicked at {}: {}", loc, msg));
            }
        });
    }));
}

fn take_panic() -> String {
    LAST_PANIC
        .with(|p| p.borrow_mut().take())
        .unwrap_or_else(|| "panicked".into())
}

/// Run a closure, turning a panic into an error message.
pub fn no_panic<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| format!("{}: {}", what, take_panic()))
}

fn exec<C>(run: fn(&C, &mut Ctx) -> R, case: &C, ctx: &mut Ctx) -> R {
    beat(now_ms());
    let r = match catch_unwind(AssertUnwindSafe(|| run(case, ctx))) {
        Ok(r) => r,
        Err(_) => Err(take_panic()),
    };
    beat(0);
    r
}

/// what the case counts of the quick tier (and by half of it, of the thorough tier) are multiplied with
static SCALE: AtomicU32 = AtomicU32::new(1);

pub struct Suite<C: 'static> {
    pub name: &'static str,
    pub quick: u32,
    pub thorough: u32,
    pub strategy: fn(Tier) -> BoxedStrategy<C>,
    pub run: fn(&C, &mut Ctx) -> R,
}

#[derive(Default)]
struct ShardOut {
    evaluations: u64,
    slowest_ms: u64,
    extra: u64,
    distinct: HashSet<u64>,
    classes: BTreeMap<&'static str, u64>,
    samples: Vec<String>,
    failure: Option<(String, Value, String)>, // suite, case, message
}

trait DynSuite: Sync + Send {
    fn name(&self) -> &'static str;
    fn shard(&self, tier: Tier, seed: u64, shard: u32, shards: u32, stop: &AtomicBool) -> ShardOut;
    fn replay(&self, case: &Value) -> Result<R, String>;
}

fn seed_bytes(seed: u64, name: &str, shard: u32) -> [u8; 32] {
    let mut out = [0u8; 32];
    for i in 0..4u64 {
        let mut h = DefaultHasher::new();
        (seed, name, shard, i, "vec-collections").hash(&mut h);
        out[(i as usize) * 8..][..8].copy_from_slice(&h.finish().to_le_bytes());
    }
    out
}

/// start of the case each worker thread is running, in ms since the worker's start (0: none)
static BEAT: [AtomicU64; 8] = [const { AtomicU64::new(0) }; 8];
/// a case normally takes milliseconds; one that runs this long is taken not to terminate
const HANG: Duration = Duration::from_secs(150);
const HANG_EXIT: i32 = 78;

fn now_ms() -> u64 {
    static T0: std::sync::OnceLock<Instant> = std::sync::OnceLock::new();
    T0.get_or_init(Instant::now).elapsed().as_millis() as u64 + 1
}

fn beat(ms: u64) {
    BEAT_IDX.with(|i| {
        if let Some(i) = i.get() {
            BEAT[i].store(ms, Ordering::Relaxed)
        }
    })
}

fn watchdog() {
    loop {
        std::thread::sleep(Duration::from_millis(500));
        let now = now_ms();
        for b in &BEAT {
            let t = b.load(Ordering::Relaxed);
            if t != 0 && now.saturating_sub(t) > HANG.as_millis() as u64 {
                unsafe { libc::_exit(HANG_EXIT) }
            }
        }
    }
}

fn record(suite: &str, json: &str) {
    CUR.with(|c| {
        if let Some((f, _, _)) = c.borrow().as_ref() {
            let mut line = String::with_capacity(json.len() + 32);
            line.push_str(suite);
            line.push('\n');
            line.push_str(json);
            line.push('\n');
            let _ = f.write_all_at(format!("{:012}\n", line.len()).as_bytes(), 0);
            let _ = f.write_all_at(line.as_bytes(), 13);
        }
    });
}

fn read_record(p: &Path) -> Option<(String, Value)> {
    let s = std::fs::read(p).ok()?;
    let n: usize = std::str::from_utf8(s.get(..12)?).ok()?.parse().ok()?;
    let body = std::str::from_utf8(s.get(13..13 + n)?).ok()?;
    let (suite, js) = body.split_once('\n')?;
    Some((suite.to_string(), serde_json::from_str(js.trim()).ok()?))
}

impl<C> DynSuite for Suite<C>
where
    C: Clone + Debug + Serialize + DeserializeOwned + 'static,
{
    fn name(&self) -> &'static str {
        self.name
    }
    fn shard(&self, tier: Tier, seed: u64, shard: u32, shards: u32, stop: &AtomicBool) -> ShardOut {
        let total = match tier {
            Tier::Quick => self.quick.saturating_mul(SCALE.load(Ordering::Relaxed)),
            _ => self.thorough.saturating_mul(SCALE.load(Ordering::Relaxed).div_ceil(2)),
        };
        let total = std::env::var("VCHECK_CASES")
            .ok()
            .and_then(|s| s.parse().ok())
            .unwrap_or(total);
        // for measuring how much of the budget a planted bug needs
        let total = std::env::var("VCHECK_DIVIDE")
            .ok()
            .and_then(|s| s.parse::<u32>().ok())
            .map_or(total, |d| (total / d.max(1)).max(1));
        let cases = total / shards + (shard < total % shards) as u32;
        let out = RefCell::new(ShardOut::default());
        if cases == 0 {
            return out.into_inner();
        }
        let config = Config {
            cases,
            failure_persistence: None,
            max_shrink_iters: 3000,
            max_shrink_time: 20_000,
            max_global_rejects: 1_000_000,
            max_local_rejects: 1_000_000,
            source_file: None,
            ..Config::default()
        };
        let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &seed_bytes(seed, self.name, shard));
        let mut runner = TestRunner::new_with_rng(config, rng);
        let strategy = (self.strategy)(tier);
        let failed = Cell::new(false);
        let res = runner.run(&strategy, |case| {
            if !failed.get() && stop.load(Ordering::Relaxed) {
                return Ok(());
            }
            let js = serde_json::to_string(&case).expect("case serialises");
            record(self.name, &js);
            let mut ctx = Ctx::default();
            let t0 = now_ms();
            let r = exec(self.run, &case, &mut ctx);
            if !failed.get() {
                let mut o = out.borrow_mut();
                o.slowest_ms = o.slowest_ms.max(now_ms() - t0);
                o.evaluations += 1;
                o.extra += ctx.extra;
                for (k, v) in ctx.classes {
                    *o.classes.entry(k).or_insert(0) += v;
                }
                if ctx.nontrivial {
                    let mut h = DefaultHasher::new();
                    js.hash(&mut h);
                    o.distinct.insert(h.finish());
                    if o.samples.len() < 2 {
                        o.samples.push(js.chars().take(500).collect());
                    }
                }
            }
            match r {
                Ok(()) => Ok(()),
                Err(e) => {
                    failed.set(true);
                    Err(TestCaseError::fail(e))
                }
            }
        });
        match res {
            Ok(()) => {}
            Err(TestError::Fail(_, case)) => {
                // the shrunk case: run again for its own message
                let mut ctx = Ctx::default();
                let msg = match exec(self.run, &case, &mut ctx) {
                    Err(m) => m,
                    Ok(()) => "the case failed once but not when run again".to_string(),
                };
                stop.store(true, Ordering::Relaxed);
                out.borrow_mut().failure = Some((
                    self.name.to_string(),
                    serde_json::to_value(&case).unwrap(),
                    msg,
                ));
            }
            Err(TestError::Abort(m)) => {
                eprintln!("generator aborted in {}: {}", self.name, m);
                std::process::exit(2);
            }
        }
        out.into_inner()
    }
    fn replay(&self, case: &Value) -> Result<R, String> {
        let c: C = serde_json::from_value(case.clone()).map_err(|e| e.to_string())?;
        record(self.name, &serde_json::to_string(&c).unwrap());
        Ok(exec(self.run, &c, &mut Ctx::default()))
    }
}

/// The finding `key` of `property` listed in KNOWN_FINDINGS.txt as not repaired, if it is.
/// Lines: `known: property=<id> key=<key> <what fails>`; all others are ignored.
pub fn known(property: &str, key: &str) -> Option<String> {
    static FILE: std::sync::OnceLock<String> = std::sync::OnceLock::new();
    let text = FILE.get_or_init(|| {
        std::fs::read_to_string(verif_dir().join("KNOWN_FINDINGS.txt")).unwrap_or_default()
    });
    let head = format!("known: property={} key={} ", property, key);
    text.lines().find_map(|l| l.strip_prefix(&head)).map(|w| w.trim().to_string())
}

pub struct Check {
    findings: Vec<(&'static str, fn() -> bool)>,
    id: &'static str,
    level: &'static str,
    rule: &'static str,
    assumptions: Vec<&'static str>,
    suites: Vec<Box<dyn DynSuite>>,
    timeout: Duration,
    serial: bool,
}

impl Check {
    pub fn new(id: &'static str, rule: &'static str) -> Self {
        Check {
            id,
            level: "exploration",
            rule,
            assumptions: vec![],
            suites: vec![],
            findings: vec![],
            timeout: Duration::from_secs(700),
            serial: false,
        }
    }
    pub fn assume(mut self, a: &'static str) -> Self {
        self.assumptions.push(a);
        self
    }
    /// A finding that may be listed in KNOWN_FINDINGS.txt; `fails` tells whether its input still fails.
    pub fn finding(mut self, key: &'static str, fails: fn() -> bool) -> Self {
        self.findings.push((key, fails));
        self
    }
    /// run shards one after another (for checks that use threads themselves)
    pub fn serial(mut self) -> Self {
        self.serial = true;
        self
    }
    /// Multiplies the case counts of all suites (in the thorough tier by half of it).
    pub fn scale(self, by: u32) -> Self {
        SCALE.store(by, Ordering::Relaxed);
        self
    }
    pub fn suite<C>(
        mut self,
        name: &'static str,
        quick: u32,
        thorough: u32,
        strategy: fn(Tier) -> BoxedStrategy<C>,
        run: fn(&C, &mut Ctx) -> R,
    ) -> Self
    where
        C: Clone + Debug + Serialize + DeserializeOwned + 'static,
    {
        self.suites.push(Box::new(Suite {
            name,
            quick,
            thorough,
            strategy,
            run,
        }));
        self
    }

    fn find(&self, name: &str) -> Option<&dyn DynSuite> {
        self.suites.iter().find(|s| s.name() == name).map(|b| &**b)
    }

    pub fn main(self) -> ! {
        let args: Vec<String> = std::env::args().collect();
        let code = match args.get(1).map(|s| s.as_str()) {
            Some("worker") => self.worker(Path::new(&args[2])),
            Some("exec") => self.exec_file(Path::new(&args[2])),
            Some("replay") => self.replay_cmd(Path::new(&args[2])),
            Some("ping") => 0,
            _ => self.parent(),
        };
        std::process::exit(code)
    }

    fn exec_file(&self, p: &Path) -> i32 {
        install_panic_hook();
        limit_memory();
        let v: Value = serde_json::from_slice(&std::fs::read(p).unwrap()).unwrap();
        let s = self.find(v["suite"].as_str().unwrap()).expect("suite");
        match s.replay(&v["case"]) {
            Ok(Ok(())) => 0,
            Ok(Err(m)) => {
                println!("{}", m);
                1
            }
            Err(_) => 4, // not a case of this suite
        }
    }

    fn replay_cmd(&self, p: &Path) -> i32 {
        let out = child(&["exec", p.to_str().unwrap()], Duration::from_secs(200));
        match out {
            ChildEnd::Exit(0, _) => {
                println!("replay: property {} holds on {}", self.id, p.display());
                0
            }
            ChildEnd::Exit(1, m) | ChildEnd::Crash(m) => {
                println!("{}", m.trim());
                println!("VIOLATION property={} replay={}", self.id, p.display());
                1
            }
            ChildEnd::Exit(c, m) => {
                println!("replay error {}: {}", c, m);
                2
            }
            ChildEnd::Timeout => {
                println!("the case does not terminate");
                println!("VIOLATION property={} replay={}", self.id, p.display());
                1
            }
        }
    }

    fn worker(&self, scratch: &Path) -> i32 {
        install_panic_hook();
        let tier = tier();
        let seed = seed();
        let shards: u32 = 8;
        limit_memory();
        let threads = if self.serial { 1 } else { 8 };
        let only = std::env::var("VCHECK_SUITE").ok();
        let jobs: Vec<(usize, u32)> = (0..self.suites.len())
            .filter(|i| only.as_deref().map_or(true, |o| self.suites[*i].name() == o))
            .flat_map(|i| (0..shards).map(move |s| (i, s)))
            .collect();
        let next = AtomicUsize::new(0);
        let stop = AtomicBool::new(false);
        let outs: Mutex<Vec<Option<(ShardOut, f64)>>> =
            Mutex::new(jobs.iter().map(|_| None).collect());
        std::thread::spawn(watchdog);
        std::thread::scope(|sc| {
            for t in 0..threads {
                let (jobs, next, stop, outs) = (&jobs, &next, &stop, &outs);
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(sc, move || {
                        let f = std::fs::OpenOptions::new()
                            .create(true)
                            .write(true)
                            .truncate(true)
                            .open(scratch.join(format!("cur.{}", t)))
                            .expect("record file");
                        CUR.with(|c| *c.borrow_mut() = Some((f, "", String::new())));
                        BEAT_IDX.with(|i| i.set(Some(t)));
                        loop {
                            let j = next.fetch_add(1, Ordering::SeqCst);
                            if j >= jobs.len() || stop.load(Ordering::Relaxed) {
                                break;
                            }
                            let (s, sh) = jobs[j];
                            let t0 = Instant::now();
                            let o = self.suites[s].shard(tier, seed, sh, shards, stop);
                            outs.lock().unwrap()[j] = Some((o, t0.elapsed().as_secs_f64()));
                        }
                    })
                    .expect("thread");
            }
        });
        let outs = outs.into_inner().unwrap();
        let mut evaluations = 0u64;
        let mut extra = 0u64;
        let mut distinct = 0u64;
        let mut per_suite = serde_json::Map::new();
        let mut samples = vec![];
        let mut failure: Option<(String, Value, String)> = None;
        let mut i = 0;
        for s in self.suites.iter() {
            let mut set: HashSet<u64> = HashSet::new();
            let mut ev = 0;
            let mut classes: BTreeMap<&'static str, u64> = BTreeMap::new();
            let mut taken = 0;
            let mut secs = 0.0;
            let mut slowest = 0;
            for j in 0..jobs.len() {
                if self.suites[jobs[j].0].name() != s.name() {
                    continue;
                }
                if let Some((o, dt)) = &outs[j] {
                    secs += dt;
                    ev += o.evaluations;
                    slowest = slowest.max(o.slowest_ms);
                    extra += o.extra;
                    set.extend(&o.distinct);
                    for (k, v) in &o.classes {
                        *classes.entry(k).or_insert(0) += v;
                    }
                    if taken < 2 {
                        if let Some(x) = o.samples.first() {
                            samples.push(json!({"suite": s.name(), "case": x}));
                            taken += 1;
                        }
                    }
                    if failure.is_none() {
                        failure = o.failure.clone();
                    }
                }
            }
            evaluations += ev;
            distinct += set.len() as u64;
            per_suite.insert(
                s.name().to_string(),
                json!({"evaluations": ev, "distinct_nontrivial": set.len(), "classes": classes,
                       "slowest_case_ms": slowest, "cpu_s": (secs * 100.0).round() / 100.0}),
            );
            i += 1;
        }
        let _ = i;
        let res = json!({
            "evaluations": evaluations,
            "executions_with_faults": extra,
            "distinct_nontrivial": distinct,
            "samples": samples,
            "suites": per_suite,
            "failure": failure.map(|(s, c, m)| json!({"property": self.id, "suite": s, "case": c, "message": m})),
        });
        std::fs::write(scratch.join("result.json"), serde_json::to_vec(&res).unwrap()).unwrap();
        0
    }

    fn parent(&self) -> i32 {
        let t0 = Instant::now();
        let scratch = verif_dir()
            .join("scratch")
            .join(format!("{}-{}", self.id, std::process::id()));
        std::fs::create_dir_all(&scratch).expect("scratch dir");
        let timeout = if tier() == Tier::Thorough {
            Duration::from_secs(6 * 3600)
        } else {
            self.timeout
        };
        let end = child(&["worker", scratch.to_str().unwrap()], timeout);
        let code = match end {
            ChildEnd::Exit(0, _) => {
                let res: Value =
                    serde_json::from_slice(&std::fs::read(scratch.join("result.json")).unwrap())
                        .unwrap();
                self.finish(res, t0)
            }
            ChildEnd::Exit(HANG_EXIT, _) => {
                self.crashed(&scratch, "a case did not terminate".into(), t0, true)
            }
            ChildEnd::Exit(c, m) => {
                println!("error: worker of {} exited with {}: {}", self.id, c, m);
                2
            }
            ChildEnd::Timeout => {
                println!("error: {} timed out (inconclusive)", self.id);
                2
            }
            ChildEnd::Crash(m) => self.crashed(&scratch, m, t0, false),
        };
        let _ = std::fs::remove_dir_all(&scratch);
        code
    }

    /// The worker died from a signal, or a case ran for ever: find which recorded case does it,
    /// shrink, report.
    fn crashed(&self, scratch: &Path, msg: String, t0: Instant, hang: bool) -> i32 {
        let f = scratch.join("try.json");
        // (a failing exit only counts at first: simplified cases may be no valid cases)
        let crashes = |suite: &str, case: &Value, exit: bool| -> Option<(bool, String)> {
            let v = json!({"property": self.id, "suite": suite, "case": case});
            std::fs::write(&f, serde_json::to_vec(&v).unwrap()).unwrap();
            let big = v["case"].to_string().len() > 20_000;
            match child(&["exec", f.to_str().unwrap()], Duration::from_secs(if hang && big { 100 } else if hang { 20 } else { 60 })) {
                ChildEnd::Crash(m) => Some((false, m)),
                ChildEnd::Exit(1, m) if exit => Some((true, m)),
                ChildEnd::Timeout if hang => Some((false, "the case does not terminate".to_string())),
                _ => None,
            }
        };
        let mut found = None;
        let mut exit = false;
        let records: Vec<(String, Value)> = (0..8).filter_map(|t| read_record(&scratch.join(format!("cur.{}", t)))).collect();
        // memory faults may need a few tries without a sanitizer, races with one
        'tries: for _ in 0..if hang { 1 } else { 12 } {
            for (suite, case) in &records {
                if let Some((e, m)) = crashes(suite, case, true) {
                    exit = e;
                    found = Some((suite.clone(), case.clone(), m));
                    break 'tries;
                }
            }
        }
        let (suite, mut case, mut m) = match (found, records.into_iter().next()) {
            (Some(x), _) => x,
            // the worker does nothing but call the code under test, so its death is the finding,
            // even if none of the cases being executed causes it when executed alone
            (None, Some((suite, case))) if !hang => {
                let res = json!({
                    "evaluations": 0, "distinct_nontrivial": 0, "samples": [case.to_string().chars().take(500).collect::<String>()],
                    "suites": {}, "executions_with_faults": 0,
                    "failure": {"property": self.id, "suite": suite, "case": case,
                        "message": format!("process crashed while several cases were executed, not reproduced by one alone: {}", msg)},
                });
                return self.finish(res, t0);
            }
            _ => {
                println!(
                    "error: worker of {} crashed but no recorded case reproduces it: {}",
                    self.id, msg
                );
                return 2;
            }
        };
        let deadline = Instant::now() + Duration::from_secs(60);
        while Instant::now() < deadline {
            let mut smaller = None;
            shrink_candidates(&case, &mut |cand| {
                smaller = crashes(&suite, &cand, exit).map(|(_, m)| (cand, m));
                smaller.is_some() || Instant::now() > deadline
            });
            match smaller {
                Some((c, n)) => (case, m) = (c, n),
                None => break,
            }
        }
        let res = json!({
            "evaluations": 0, "distinct_nontrivial": 0, "samples": [case.to_string().chars().take(500).collect::<String>()],
            "suites": {}, "executions_with_faults": 0,
            "failure": {"property": self.id, "suite": suite, "case": case, "message": format!("process crashed or hung: {}", m)},
        });
        self.finish(res, t0)
    }

    fn finish(&self, mut res: Value, t0: Instant) -> i32 {
        let failure = res["failure"].take();
        for (key, fails) in &self.findings {
            if let Some(what) = known(self.id, key) {
                if fails() {
                    println!("KNOWN-FINDING: property={} {}", self.id, what);
                }
            }
        }
        let seed = seed();
        let tier_name = if tier() == Tier::Quick { "quick" } else { "thorough" };
        let mut cov = serde_json::Map::new();
        cov.insert("evaluations".into(), res["evaluations"].clone());
        cov.insert("distinct_nontrivial".into(), res["distinct_nontrivial"].clone());
        if res["executions_with_faults"].as_u64().unwrap_or(0) > 0 {
            cov.insert("inner_executions".into(), res["executions_with_faults"].clone());
        }
        cov.insert("rule".into(), json!(self.rule));
        cov.insert("samples".into(), res["samples"].clone());
        cov.insert("suites".into(), res["suites"].clone());
        let wall = t0.elapsed().as_secs_f64();
        let violated = !failure.is_null();
        let ev = json!({
            "property": self.id,
            "tier": tier_name,
            "seed": seed,
            "level": self.level,
            "coverage": cov,
            "assumptions": self.assumptions,
            "wall_s": (wall * 1000.0).round() / 1000.0,
            "violations": violated as u32,
        });
        let evdir = verif_dir().join("evidence");
        let _ = std::fs::create_dir_all(&evdir);
        std::fs::write(
            evdir.join(format!("{}.json", self.id)),
            serde_json::to_vec_pretty(&ev).unwrap(),
        )
        .expect("evidence");
        println!(
            "{}: {} cases, {} distinct non-trivial, {:.1}s",
            self.id, ev["coverage"]["evaluations"], ev["coverage"]["distinct_nontrivial"], wall
        );
        if std::env::var("VCHECK_VERBOSE").is_ok() {
            println!("{}", serde_json::to_string_pretty(&ev["coverage"]["suites"]).unwrap());
        }
        if violated {
            let dir = verif_dir().join("replays");
            let _ = std::fs::create_dir_all(&dir);
            let mut h = DefaultHasher::new();
            failure.to_string().hash(&mut h);
            let path = dir.join(format!("{}-{:08x}.json", self.id, h.finish() as u32));
            std::fs::write(&path, serde_json::to_vec_pretty(&failure).unwrap()).expect("replay file");
            println!("suite {}: {}", failure["suite"], failure["message"].as_str().unwrap_or(""));
            println!("minimal case: {}", failure["case"].to_string().chars().take(2000).collect::<String>());
            println!("VIOLATION property={} replay={}", self.id, path.display());
            let _ = std::io::stdout().flush();
            return 1;
        }
        0
    }
}

/// (a sanitizer reserves address space of its own, and has its own limit)
fn limit_memory() {
    if std::env::var("VCHECK_SANITIZED").is_err() {
        let lim = libc::rlimit { rlim_cur: 12 << 30, rlim_max: 12 << 30 };
        unsafe { libc::setrlimit(libc::RLIMIT_AS, &lim) };
    }
}

pub fn tier() -> Tier {
    match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    }
}

pub fn seed() -> u64 {
    std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.trim().parse().ok())
        .unwrap_or(1)
}

pub fn verif_dir() -> PathBuf {
    std::env::var("VERIF_DIR")
        .map(PathBuf::from)
        .unwrap_or_else(|_| PathBuf::from("/verif"))
}

enum ChildEnd {
    Exit(i32, String),
    Crash(String),
    Timeout,
}

fn child(args: &[&str], timeout: Duration) -> ChildEnd {
    let exe = std::env::current_exe().expect("current exe");
    let dir = verif_dir().join("scratch");
    let _ = std::fs::create_dir_all(&dir);
    let outp = dir.join(format!("out-{}-{:?}", std::process::id(), std::thread::current().id()));
    let out = std::fs::File::create(&outp).expect("child output");
    let mut c = Command::new(exe)
        .args(args)
        .stdin(Stdio::null())
        .stdout(out.try_clone().unwrap())
        .stderr(out)
        .spawn()
        .expect("spawn");
    let t0 = Instant::now();
    let mut nap = 1u64;
    let status = loop {
        if let Some(s) = c.try_wait().expect("wait") {
            break Some(s);
        }
        if t0.elapsed() > timeout {
            let _ = c.kill();
            let _ = c.wait();
            break None;
        }
        std::thread::sleep(Duration::from_millis(nap));
        nap = (nap * 2).min(50);
    };
    let text = std::fs::read(&outp)
        .map(|b| {
            let t = String::from_utf8_lossy(&b).into_owned();
            // (not the frames of a sanitizer report)
            let t: Vec<&str> = t.lines().filter(|l| !l.trim_start().starts_with('#')).collect();
            t.join("\n").chars().take(2000).collect::<String>()
        })
        .unwrap_or_default();
    let _ = std::fs::remove_file(&outp);
    match status {
        None => ChildEnd::Timeout,
        Some(s) => match (s.code(), s.signal()) {
            // 77: exit code configured for AddressSanitizer reports
            (Some(77), _) => ChildEnd::Crash(text),
            (Some(c), _) => ChildEnd::Exit(c, text),
            (None, Some(9)) => ChildEnd::Exit(137, text),
            (None, Some(sig)) => ChildEnd::Crash(format!("signal {} {}", sig, text)),
            (None, None) => ChildEnd::Exit(2, text),
        },
    }
}


/// `v` with one part removed or made simpler, for every part in turn, coarse changes first, until
/// `f` accepts one. One candidate exists at a time: a case may be large.
pub fn shrink_candidates(v: &Value, f: &mut dyn FnMut(Value) -> bool) -> bool {
    match v {
        Value::Array(a) => {
            let n = a.len();
            let mut size = n;
            while size > 0 {
                for i in (0..n).step_by(size) {
                    if f(Value::Array([&a[..i], &a[(i + size).min(n)..]].concat())) {
                        return true;
                    }
                }
                size /= 2;
            }
            (0..n.min(64)).any(|i| {
                shrink_candidates(&a[i], &mut |c| {
                    let mut b = a.clone();
                    b[i] = c;
                    f(Value::Array(b))
                })
            })
        }
        Value::Object(o) => o.iter().any(|(k, x)| {
            shrink_candidates(x, &mut |c| {
                let mut b = o.clone();
                b.insert(k.clone(), c);
                f(Value::Object(b))
            })
        }),
        Value::Number(n) => {
            if let Some(i) = n.as_i64() {
                i != 0 && [0, i / 2, i - i.signum()].into_iter().any(|c| c != i && f(json!(c)))
            } else {
                n.as_u64().map_or(false, |u| f(json!(0)) || f(json!(u / 2)))
            }
        }
        Value::String(s) if !s.is_empty() => f(json!("")) || f(json!(s.chars().skip(1).collect::<String>())),
        Value::Bool(true) => f(json!(false)),
        _ => false,
    }
}
