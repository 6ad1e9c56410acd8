//! Explorer framework shared by all property checkers.
//!
//! A property is decided by a set of *shards*. Each shard deterministically enumerates a bounded
//! space of *cases* (executions of the implementation). Case number `i` of shard `s` is the same
//! execution on every run with the same tier, so `(s, i)` is a replayable identity of an execution.
//! Every case runs under `catch_unwind`; the index of the running case is kept in a shared-memory
//! progress file so that the parent can name the execution if the process dies or hangs.
use std::cell::{Cell, RefCell};
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::Instant;

pub type R<T = ()> = Result<T, String>;

thread_local! {
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
    static QUIET: Cell<bool> = Cell::new(false);
}

fn install_hook() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let quiet = QUIET.with(|q| q.get());
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{} at {}", trunc(&msg, 300), loc));
        if !quiet {
            old(info);
        }
    }));
}

fn trunc(s: &str, n: usize) -> String {
    if s.len() <= n {
        s.to_string()
    } else {
        let mut e = n;
        while !s.is_char_boundary(e) {
            e -= 1;
        }
        format!("{}…", &s[..e])
    }
}

/// Runs `f`, turning a panic into `Err(message)`.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let prev = QUIET.with(|q| q.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(prev));
    r.map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

/// `Err` unless `f` panics. Used for accesses that must be refused.
pub fn must_panic<T>(what: impl FnOnce() -> String, f: impl FnOnce() -> T) -> R {
    match guard(f) {
        Ok(_) => Err(format!("{}: must be refused but succeeded", what())),
        Err(_) => Ok(()),
    }
}

/// Runs `f`; a panic becomes an error naming `what`.
pub fn no_panic<T>(what: impl FnOnce() -> String, f: impl FnOnce() -> T) -> R<T> {
    guard(f).map_err(|e| format!("{}: panicked: {}", what(), e))
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } };
}
#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($f:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if !(*a == *b) { return Err(format!("{}: got {:?}, expected {:?}", format!($($f)*), a, b)); }
    }};
}

pub fn hash_of<T: Hash + ?Sized>(t: &T) -> u64 {
    // FNV-1a based, deterministic between runs
    struct F(u64);
    impl Hasher for F {
        fn finish(&self) -> u64 {
            let mut z = self.0;
            z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
            z ^ (z >> 31)
        }
        fn write(&mut self, b: &[u8]) {
            for x in b {
                self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100000001b3);
            }
        }
    }
    let mut h = F(0xcbf29ce484222325);
    t.hash(&mut h);
    h.finish()
}

#[derive(Clone, Debug)]
pub struct Failure {
    pub shard: String,
    pub index: u64,
    pub desc: String,
    pub msg: String,
}

/// Per-case observer handed to the case body.
pub struct Obs {
    pub states: HashSet<u64>,
    pub transitions: u64,
    pub nontrivial: bool,
}
impl Obs {
    /// Record a reached (model, implementation) state.
    pub fn state<T: Hash + ?Sized>(&mut self, t: &T) {
        self.states.insert(hash_of(t));
    }
    /// Record one implementation step that was compared with the model.
    pub fn step(&mut self) {
        self.transitions += 1;
    }
    pub fn steps(&mut self, n: u64) {
        self.transitions += n;
    }
}

pub struct Cx {
    pub shard: String,
    pub thorough: bool,
    pub seed: u64,
    only: Option<u64>,
    idx: u64,
    pub obs: Obs,
    traces: u64,
    samples: Vec<String>,
    fails: Vec<Failure>,
    max_fails: usize,
    slot: Option<&'static Slot>,
    deadline: Option<Instant>,
    pub stopped: bool,
}

#[repr(C)]
pub struct Slot {
    shard: AtomicU64,
    idx: AtomicU64,
}

impl Cx {
    pub fn tier<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough {
            thorough
        } else {
            quick
        }
    }
    /// One execution. `desc` is only evaluated when needed.
    pub fn case(&mut self, desc: impl Fn() -> String, body: impl FnOnce(&mut Obs) -> R) {
        if self.stopped {
            return;
        }
        let i = self.idx;
        self.idx += 1;
        if let Some(o) = self.only {
            if o != i {
                return;
            }
        }
        if let Some(d) = self.deadline {
            if i % 64 == 0 && Instant::now() > d {
                self.stopped = true;
                return;
            }
        }
        if let Some(s) = self.slot {
            s.idx.store(i + 1, Ordering::Relaxed);
        }
        let obs = &mut self.obs;
        let r = match guard(|| body(obs)) {
            Ok(r) => r,
            Err(p) => Err(format!("panicked: {}", p)),
        };
        self.traces += 1;
        let n = self.traces;
        if self.samples.len() < 2 || (n.is_power_of_two() && self.samples.len() < 8) {
            self.samples.push(format!("{}#{}: {}", self.shard, i, trunc(&desc(), 400)));
        }
        if let Err(msg) = r {
            if self.fails.len() < self.max_fails {
                self.fails.push(Failure {
                    shard: self.shard.clone(),
                    index: i,
                    desc: desc(),
                    msg,
                });
            }
        }
        if self.only.is_some() {
            eprintln!("case {}#{}: {}", self.shard, i, desc());
            self.stopped = true;
        }
    }
    pub fn fail_count(&self) -> usize {
        self.fails.len()
    }
}

type ShardFn = Box<dyn Fn(&mut Cx) + Send + Sync>;
pub struct Shard {
    pub name: String,
    pub run: ShardFn,
}
pub struct Property {
    pub id: &'static str,
    pub rule: &'static str,
    pub shards: fn(thorough: bool) -> Vec<Shard>,
}
pub fn shard(name: impl Into<String>, f: impl Fn(&mut Cx) + Send + Sync + 'static) -> Shard {
    Shard {
        name: name.into(),
        run: Box::new(f),
    }
}

struct Out {
    order: usize,
    states: HashSet<u64>,
    transitions: u64,
    traces: u64,
    samples: Vec<String>,
    fails: Vec<Failure>,
    stopped: bool,
    name: String,
    secs: f64,
}

/// Entry point of a checker binary:
/// `bin PROP --tier quick|thorough --out FILE [--progress FILE] [--threads N] [--only SHARD#IDX] [--budget SECS]`
pub fn main_with(props: Vec<Property>) {
    // errors are values here, nobody looks at where they were made
    std::env::set_var("RUST_LIB_BACKTRACE", "0");
    install_hook();
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    let id = args.get(1).cloned().unwrap_or_default();
    if id == "--list" {
        for p in &props {
            println!("{}", p.id);
        }
        return;
    }
    let p = props.iter().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("unknown property {id}");
        std::process::exit(3)
    });
    let thorough = get("--tier").as_deref() == Some("thorough");
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let threads: usize = get("--threads").and_then(|s| s.parse().ok()).unwrap_or(8);
    let budget: Option<f64> = get("--budget").and_then(|s| s.parse().ok());
    let only = get("--only").map(|s| {
        let (a, b) = s.rsplit_once('#').expect("--only SHARD#IDX");
        (a.to_string(), b.parse::<i64>().expect("index"))
    });
    let start = Instant::now();
    let deadline = budget.map(|b| start + std::time::Duration::from_secs_f64(b));
    // Preparing the alphabet already uses the code under test (layouts, derived types): a panic
    // there is a failing execution, too.
    let mut prep_fail: Option<String> = None;
    let shards = guard(|| (p.shards)(thorough)).unwrap_or_else(|e| {
        prep_fail = Some(e);
        vec![]
    });
    {
        let mut names = HashSet::new();
        for s in &shards {
            assert!(names.insert(s.name.clone()), "duplicate shard {}", s.name);
        }
    }
    let slots: Option<&'static [Slot]> = get("--progress").map(|f| unsafe {
        use std::os::fd::AsRawFd;
        let n = std::mem::size_of::<Slot>() * threads;
        let file = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(f).unwrap();
        file.set_len(n as u64).unwrap();
        let ptr = libc::mmap(std::ptr::null_mut(), n, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, file.as_raw_fd(), 0);
        assert!(ptr != libc::MAP_FAILED);
        std::slice::from_raw_parts(ptr as *const Slot, threads)
    });
    if args.iter().any(|a| a == "--shards") {
        for s in &shards {
            println!("{}", s.name);
        }
        return;
    }
    let next = AtomicUsize::new(0);
    let outs: Mutex<Vec<Out>> = Mutex::new(vec![]);
    let total = shards.len();
    std::thread::scope(|sc| {
        for t in 0..threads {
            let next = &next;
            let outs = &outs;
            let shards = &shards;
            let only = &only;
            let slot = slots.map(|s| &s[t]);
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(sc, move || loop {
                    let k = next.fetch_add(1, Ordering::SeqCst);
                    if k >= total {
                        break;
                    }
                    let s = &shards[k];
                    if let Some((n, _)) = only {
                        if *n != s.name {
                            continue;
                        }
                    }
                    if let Some(sl) = slot {
                        sl.idx.store(0, Ordering::Relaxed);
                        sl.shard.store(k as u64 + 1, Ordering::Relaxed);
                    }
                    let t0 = Instant::now();
                    let mut cx = Cx {
                        shard: s.name.clone(),
                        thorough,
                        seed,
                        only: only.as_ref().and_then(|o| u64::try_from(o.1).ok()),
                        idx: 0,
                        obs: Obs { states: HashSet::new(), transitions: 0, nontrivial: false },
                        traces: 0,
                        samples: vec![],
                        fails: vec![],
                        max_fails: 200,
                        slot,
                        deadline,
                        stopped: false,
                    };
                    if let Err(e) = guard(|| (s.run)(&mut cx)) {
                        cx.fails.push(Failure {
                            shard: s.name.clone(),
                            index: u64::MAX,
                            desc: format!("preparing the executions of {} after case {}", s.name, cx.idx),
                            msg: format!("panicked: {e}"),
                        });
                    }
                    let stopped = cx.stopped && cx.only.is_none();
                    outs.lock().unwrap().push(Out {
                        order: k,
                        states: cx.obs.states,
                        transitions: cx.obs.transitions,
                        traces: cx.traces,
                        samples: cx.samples,
                        fails: cx.fails,
                        stopped,
                        name: s.name.clone(),
                        secs: t0.elapsed().as_secs_f64(),
                    });
                    if let Some(sl) = slot {
                        sl.shard.store(0, Ordering::Relaxed);
                    }
                })
                .unwrap();
        }
    });
    let mut outs = outs.into_inner().unwrap();
    outs.sort_by_key(|o| o.order);
    let mut states: HashSet<u64> = HashSet::new();
    let (mut tr, mut cases) = (0u64, 0u64);
    let mut samples = vec![];
    let mut fails = vec![];
    let mut incomplete = vec![];
    let mut per_shard = vec![];
    if let Some(e) = prep_fail {
        fails.push(Failure { shard: "prepare".into(), index: u64::MAX, desc: "preparing the alphabet of the exploration".into(), msg: format!("panicked: {e}") });
    }
    for o in &outs {
        let sh = hash_of(&o.name);
        for s in &o.states {
            states.insert(s ^ sh.rotate_left(17));
        }
        tr += o.transitions;
        cases += o.traces;
        if samples.len() < 12 {
            samples.extend(o.samples.iter().rev().take(2).cloned());
        }
        fails.extend(o.fails.iter().cloned());
        if o.stopped {
            incomplete.push(o.name.clone());
        }
        per_shard.push(serde_json::json!({"shard": o.name, "traces": o.traces, "states": o.states.len(), "transitions": o.transitions, "secs": (o.secs*100.0).round()/100.0}));
    }
    let j = serde_json::json!({
        "property": p.id, "rule": p.rule, "states": states.len(), "transitions": tr, "traces": cases,
        "samples": samples, "incomplete": incomplete, "shards": per_shard,
        "shard_names": shards.iter().map(|s| s.name.clone()).collect::<Vec<_>>(),
        "failures": fails.iter().map(|f| serde_json::json!({"shard": f.shard, "index": if f.index == u64::MAX { -1 } else { f.index as i64 }, "desc": f.desc, "msg": f.msg})).collect::<Vec<_>>(),
        "wall_s": start.elapsed().as_secs_f64(),
    });
    let txt = serde_json::to_string_pretty(&j).unwrap();
    if let Some(o) = get("--out") {
        std::fs::write(o, txt).unwrap();
    } else {
        println!("{txt}");
    }
}
