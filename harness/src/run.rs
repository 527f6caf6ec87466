//! Case runner: seeded cases, panic capture, progress files for crash attribution, evidence.
use rand_chacha::ChaCha8Rng;
use rand_core::{RngCore, SeedableRng};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::io::{Read, Seek, SeekFrom, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub type R<T = ()> = Result<T, String>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($arg:tt)*) => { if !($c) { return Err(format!($($arg)*)); } };
}
#[macro_export]
macro_rules! fail { ($($arg:tt)*) => { return Err(format!($($arg)*)) }; }

pub fn mix(h: u64, x: u64) -> u64 {
    let mut z = (h ^ x).wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}
pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for c in b {
        h = (h ^ *c as u64).wrapping_mul(0x100000001b3);
    }
    mix(h, b.len() as u64)
}

pub struct Viol {
    pub family: String,
    pub idx: u64,
    pub msg: String,
}

#[derive(Default)]
struct State {
    evals: u64,
    distinct: HashSet<u64>,
    samples: Vec<String>,
    counters: BTreeMap<String, u64>,
    maxes: BTreeMap<String, u64>,
    violations: Vec<Viol>,
    families: BTreeMap<String, u64>,
    truncated: Vec<String>,
}

pub struct Runner {
    pub prop: String,
    pub thorough: bool,
    pub seed: u64,
    pub out: PathBuf,
    pub replay: Option<(String, u64)>,
    pub only: Option<String>,
    /// at most this many cases per family
    pub limit: u64,
    start: Instant,
    budget: Duration,
    state: Mutex<State>,
}

pub struct Case<'a> {
    pub rng: ChaCha8Rng,
    pub idx: u64,
    pub thorough: bool,
    pub family: &'a str,
    evals: u64,
    distinct: Vec<u64>,
    samples: Vec<String>,
    counters: BTreeMap<String, u64>,
    maxes: BTreeMap<String, u64>,
}
impl<'a> Case<'a> {
    /// a case outside a runner (for child processes)
    pub fn bare(seed: u64) -> Case<'static> {
        Case {
            rng: ChaCha8Rng::seed_from_u64(seed),
            idx: 1 << 40,
            thorough: false,
            family: "",
            evals: 0,
            distinct: vec![],
            samples: vec![],
            counters: BTreeMap::new(),
            maxes: BTreeMap::new(),
        }
    }
    /// one oracle evaluation
    pub fn ev(&mut self, n: u64) {
        self.evals += n
    }
    /// a distinct non-trivial case, by hash
    pub fn seen(&mut self, h: u64) {
        let f = hash_bytes(self.family.as_bytes());
        self.distinct.push(mix(f, h));
    }
    pub fn count(&mut self, k: &str, n: u64) {
        *self.counters.entry(k.to_string()).or_insert(0) += n;
    }
    pub fn max(&mut self, k: &str, n: u64) {
        let e = self.maxes.entry(k.to_string()).or_insert(0);
        *e = (*e).max(n);
    }
    pub fn sample(&mut self, s: impl FnOnce() -> String) {
        if self.samples.is_empty() && self.idx < 3 {
            self.samples.push(s());
        }
    }
    pub fn below(&mut self, n: u64) -> u64 {
        below(&mut self.rng, n)
    }
    pub fn coin(&mut self) -> bool {
        self.rng.next_u32() & 1 == 1
    }
    pub fn pick<'b, T>(&mut self, v: &'b [T]) -> &'b T {
        let i = self.below(v.len() as u64) as usize;
        &v[i]
    }
}
pub fn below(rng: &mut impl RngCore, n: u64) -> u64 {
    assert!(n > 0);
    ((rng.next_u64() as u128 * n as u128) >> 64) as u64
}

thread_local! {
    static LAST_PANIC: std::cell::RefCell<String> = std::cell::RefCell::new(String::new());
}
static PANIC_HOOK: std::sync::Once = std::sync::Once::new();
pub fn quiet_panics() {
    PANIC_HOOK.call_once(|| {
        std::panic::set_hook(Box::new(|info| {
            let msg = info.to_string();
            if msg.contains("unsafe precondition") {
                eprintln!("{}", msg);
            }
            LAST_PANIC.with(|l| *l.borrow_mut() = msg);
        }));
    });
}
/// Runs `f`, turning a panic into Err(text).
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    quiet_panics();
    LAST_PANIC.with(|l| l.borrow_mut().clear());
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(p) => {
            let mut m = LAST_PANIC.with(|l| l.borrow().clone());
            if m.is_empty() {
                m = if let Some(s) = p.downcast_ref::<&str>() {
                    s.to_string()
                } else if let Some(s) = p.downcast_ref::<String>() {
                    s.clone()
                } else {
                    "panic with non-string payload".into()
                };
            }
            Err(m.replace('\n', " "))
        }
    }
}

impl Runner {
    /// Parses: PROP --tier T --seed N --out FILE [--replay FAMILY:IDX] [--only FAMILY]
    pub fn from_args(args: &[String]) -> Runner {
        let mut r = Runner {
            prop: args[0].clone(),
            thorough: false,
            seed: 1,
            out: PathBuf::from("/tmp/vh-out.json"),
            replay: None,
            only: None,
            limit: u64::MAX,
            start: Instant::now(),
            budget: Duration::from_secs(150),
            state: Mutex::new(State::default()),
        };
        let mut i = 1;
        while i < args.len() {
            let v = args.get(i + 1).cloned().unwrap_or_default();
            match args[i].as_str() {
                "--tier" => r.thorough = v == "thorough",
                "--seed" => r.seed = v.parse().expect("seed"),
                "--out" => r.out = v.into(),
                "--budget" => r.budget = Duration::from_secs(v.parse().expect("budget")),
                "--only" => r.only = Some(v),
                "--limit" => r.limit = v.parse().expect("limit"),
                "--replay" => {
                    let (a, b) = v.rsplit_once(':').expect("FAMILY:IDX");
                    r.replay = Some((a.to_string(), b.parse().expect("idx")));
                }
                x => panic!("unknown argument {}", x),
            }
            i += 2;
        }
        quiet_panics();
        r
    }

    pub fn case_rng(&self, family: &str, idx: u64) -> ChaCha8Rng {
        let h = mix(
            mix(hash_bytes(self.prop.as_bytes()), self.seed),
            mix(hash_bytes(family.as_bytes()), idx),
        );
        ChaCha8Rng::seed_from_u64(h)
    }
    fn wants(&self, family: &str) -> bool {
        if let Some((f, _)) = &self.replay {
            return f == family;
        }
        match &self.only {
            Some(o) => o.split(',').any(|o| o == family),
            None => true,
        }
    }
    pub fn merge_counts(&self, m: &[(String, u64)]) {
        let mut s = self.state.lock().unwrap();
        for (k, v) in m {
            *s.counters.entry(k.clone()).or_insert(0) += v;
        }
    }

    fn one(&self, family: &str, idx: u64, f: &(dyn Fn(&mut Case) -> R + Sync)) {
        let mut c = Case {
            rng: self.case_rng(family, idx),
            idx,
            thorough: self.thorough,
            family,
            evals: 0,
            distinct: vec![],
            samples: vec![],
            counters: BTreeMap::new(),
            maxes: BTreeMap::new(),
        };
        let r = guarded(|| f(&mut c));
        let err = match r {
            Ok(Ok(())) => None,
            Ok(Err(e)) => Some(e),
            Err(p) => Some(format!("panic: {}", p)),
        };
        let mut s = self.state.lock().unwrap();
        s.evals += c.evals;
        s.distinct.extend(c.distinct.iter().copied());
        for (k, v) in c.counters {
            *s.counters.entry(k).or_insert(0) += v;
        }
        for (k, v) in c.maxes {
            let e = s.maxes.entry(k).or_insert(0);
            *e = (*e).max(v);
        }
        *s.families.entry(family.to_string()).or_insert(0) += 1;
        if s.samples.len() < 12 {
            for x in c.samples {
                s.samples.push(format!("{}#{}: {}", family, idx, x));
            }
        }
        if let Some(msg) = err {
            eprintln!("VIOLATED {} {}:{}: {}", self.prop, family, idx, msg);
            if s.violations.len() < 10 {
                s.violations.push(Viol { family: family.to_string(), idx, msg });
            }
        }
    }

    /// Runs `n` cases of a family on `threads` harness threads.  The first `core` cases are run even if
    /// earlier families have used up the budget.
    fn run(&self, family: &str, n: u64, core: u64, threads: usize, f: &(dyn Fn(&mut Case) -> R + Sync)) {
        if !self.wants(family) {
            return;
        }
        if let Some((_, idx)) = &self.replay {
            self.one(family, *idx, f);
            return;
        }
        let n = n.min(self.limit);
        let t0 = Instant::now();
        let next = AtomicU64::new(0);
        let stop = AtomicUsize::new(0);
        let work = |k: usize| {
            let mut pf = std::fs::OpenOptions::new()
                .create(true)
                .write(true)
                .open(format!("{}.progress.{}", self.out.display(), k))
                .ok();
            loop {
                let idx = next.fetch_add(1, Ordering::SeqCst);
                if idx >= n {
                    break;
                }
                let grace = if idx < core { Duration::from_secs(150) } else { Duration::ZERO };
                if self.start.elapsed() > self.budget + grace {
                    stop.store(1, Ordering::SeqCst);
                    break;
                }
                if let Some(pf) = pf.as_mut() {
                    let _ = pf.seek(SeekFrom::Start(0));
                    let _ = pf.write_all(format!("{}:{}\n{:40}\n", family, idx, "").as_bytes());
                }
                self.one(family, idx, f);
                // after a few violations in one family the verdict is settled
                if self.state.lock().unwrap().violations.iter().filter(|v| v.family == family).count() >= 3 {
                    break;
                }
            }
            if let Some(pf) = pf.as_mut() {
                let _ = pf.set_len(0);
            }
        };
        if threads <= 1 {
            work(0);
        } else {
            std::thread::scope(|s| {
                for k in 0..threads {
                    let w = &work;
                    std::thread::Builder::new()
                        .stack_size(16 << 20)
                        .spawn_scoped(s, move || w(k))
                        .unwrap();
                }
            });
        }
        if stop.load(Ordering::SeqCst) != 0 {
            self.state.lock().unwrap().truncated.push(family.to_string());
        }
        if std::env::var("VH_TIMING").is_ok() {
            eprintln!("[{}] {} x{}: {:.2}s", self.prop, family, n, t0.elapsed().as_secs_f64());
        }
    }
    pub fn n(&self, quick: u64, thorough: u64) -> u64 {
        if self.thorough {
            thorough
        } else {
            quick
        }
    }
    /// Cases that do not share process-global state: spread over harness threads.
    pub fn par(&self, family: &str, quick: u64, thorough: u64, f: impl Fn(&mut Case) -> R + Sync) {
        self.run(family, self.n(quick, thorough), quick, 8, &f)
    }
    /// Cases that must run one at a time (they use the pool, the allocator counters, children).
    pub fn seq(&self, family: &str, quick: u64, thorough: u64, f: impl Fn(&mut Case) -> R + Sync) {
        self.run(family, self.n(quick, thorough), quick, 1, &f)
    }

    /// Writes the result file and returns the process exit code.
    pub fn finish(self, rule: &str) -> i32 {
        let s = self.state.into_inner().unwrap();
        let mut j = String::new();
        let _ = write!(
            j,
            "{{\"property\":{},\"seed\":{},\"tier\":{},\"evaluations\":{},\"distinct_nontrivial\":{},\"rule\":{},",
            q(&self.prop),
            self.seed,
            q(if self.thorough { "thorough" } else { "quick" }),
            s.evals,
            s.distinct.len(),
            q(rule)
        );
        let list = |v: &[String]| v.iter().map(|x| q(x)).collect::<Vec<_>>().join(",");
        let map = |m: &BTreeMap<String, u64>| {
            m.iter().map(|(k, v)| format!("{}:{}", q(k), v)).collect::<Vec<_>>().join(",")
        };
        let _ = write!(j, "\"samples\":[{}],", list(&s.samples));
        let _ = write!(j, "\"observed\":{{{}}},", map(&s.counters));
        let _ = write!(j, "\"maxima\":{{{}}},", map(&s.maxes));
        let _ = write!(j, "\"cases_per_family\":{{{}}},", map(&s.families));
        let _ = write!(j, "\"truncated\":[{}],", list(&s.truncated));
        let v = s
            .violations
            .iter()
            .map(|v| format!("{{\"case\":{},\"msg\":{}}}", q(&format!("{}:{}", v.family, v.idx)), q(&v.msg)))
            .collect::<Vec<_>>()
            .join(",");
        let _ = write!(j, "\"violations\":[{}]}}", v);
        std::fs::write(&self.out, j).expect("write result");
        if s.violations.is_empty() {
            0
        } else {
            1
        }
    }
}
pub fn q(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// What became of a child process.
#[derive(Debug)]
pub enum Ended {
    Exit(i32, String),
    Signal(i32, String),
    /// all threads asleep and no CPU time used for a long time: deadlocked
    Deadlock(String),
    /// far more CPU time used than the work can need, without coming to an end
    Endless(u64),
    /// still using CPU at the wall limit: no verdict
    Timeout,
}
fn cpu_and_sleeping(pid: u32) -> Option<(u64, bool)> {
    let mut cpu = 0;
    let mut all_sleep = true;
    for e in std::fs::read_dir(format!("/proc/{}/task", pid)).ok()? {
        let p = e.ok()?.path().join("stat");
        let mut t = String::new();
        if std::fs::File::open(p).and_then(|mut f| f.read_to_string(&mut t)).is_err() {
            continue;
        }
        let rest = &t[t.rfind(')')? + 2..];
        let f: Vec<&str> = rest.split(' ').collect();
        if f[0] != "S" {
            all_sleep = false;
        }
        cpu += f[11].parse::<u64>().unwrap_or(0) + f[12].parse::<u64>().unwrap_or(0);
    }
    Some((cpu, all_sleep))
}
/// Runs this executable again as `--child NAME ARGS`, with a deadlock detector.
pub fn child(args: &[String], env: &[(&str, String)], wall: Duration) -> Ended {
    child_of(&std::env::current_exe().expect("exe"), args, env, wall)
}
pub fn child_of(exe: &std::path::Path, args: &[String], env: &[(&str, String)], wall: Duration) -> Ended {
    let mut cmd = std::process::Command::new(exe);
    cmd.arg("--child").args(args);
    watched(cmd, env, wall, u64::MAX, &|| 0)
}
/// As `child_of`, with a limit on the CPU seconds used, which the load of the machine does not
/// change.
pub fn child_cpu(exe: &std::path::Path, args: &[String], env: &[(&str, String)], wall: Duration, cpu: u64) -> Ended {
    let mut cmd = std::process::Command::new(exe);
    cmd.arg("--child").args(args);
    watched(cmd, env, wall, cpu, &|| 0)
}
/// Runs a family of this very check in a child process whose pool has `threads` threads.
pub fn with_pool(c: &mut Case, r: &Runner, exe: &std::path::Path, family: &str, n: u64, threads: usize) -> R {
    let out = PathBuf::from(format!("{}.pool.{}", r.out.display(), threads));
    let seed = c.rng.next_u64() >> 1;
    let mut cmd = std::process::Command::new(exe);
    cmd.args([&r.prop, "--seed", &seed.to_string(), "--only", family, "--limit", &n.to_string(), "--budget", "60", "--out"]).arg(&out);
    // the cases in flight: a case that keeps the process busy without coming to an end is reported
    let beat = || (0..8).fold(0, |h, k| mix(h, hash_bytes(&std::fs::read(format!("{}.progress.{}", out.display(), k)).unwrap_or_default())));
    let e = watched(cmd, &[("RAYON_NUM_THREADS", threads.to_string())], Duration::from_secs(120), 100, &beat);
    let text = std::fs::read_to_string(&out).unwrap_or_default();
    let _ = std::fs::remove_file(&out);
    let mut flying = String::new();
    for k in 0..8 {
        let t = std::fs::read_to_string(format!("{}.progress.{}", out.display(), k)).unwrap_or_default();
        flying = format!("{} {}", flying, t.lines().next().unwrap_or(""));
        let _ = std::fs::remove_file(format!("{}.progress.{}", out.display(), k));
    }
    let num = |k: &str| -> u64 {
        let at = text.find(&format!("\"{}\":", k)).map(|i| i + k.len() + 3);
        at.and_then(|i| text[i..].split(|c: char| !c.is_ascii_digit()).next().and_then(|x| x.parse().ok())).unwrap_or(0)
    };
    let what = format!("on a pool of {} threads (family {}, seed {})", threads, family, seed);
    let viol = || text.find("\"violations\":").map(|i| text[i + 13..].chars().take(900).collect::<String>()).unwrap_or_default();
    match e {
        Ended::Exit(0, _) => {
            c.ev(num("evaluations"));
            c.count("pool_runs", 1);
            c.count("pool_evaluations", num("evaluations"));
            for i in 0..num("distinct_nontrivial") {
                c.seen(mix(mix(seed, threads as u64), i));
            }
            let at = text.find("\"observed\":{").map(|i| i + 12).unwrap_or(text.len());
            for kv in text[at..].split('}').next().unwrap_or("").split(',') {
                if let Some((k, v)) = kv.rsplit_once(':') {
                    c.count(k.trim_matches('"'), v.parse().unwrap_or(0));
                }
            }
            let at = text.find("\"samples\":[").map(|i| i + 11).unwrap_or(text.len());
            let first: String = text[at..].chars().take(600).collect::<String>().split("\",").next().unwrap_or("").to_string();
            c.sample(|| format!("{} x{} on {} threads; {}", family, n, threads, if first.starts_with(']') { "" } else { &first }.trim_matches(|x| "[]\" \n".contains(x))));
            Ok(())
        }
        Ended::Exit(1, _) if !viol().is_empty() => fail!("{}: {}", what, viol()),
        Ended::Exit(k, o) => fail!("{}: the process ended with {} in{}: {}", what, k, flying, o),
        Ended::Signal(k, o) => fail!("{}: the process died with signal {} in{}: {}", what, k, flying, o),
        Ended::Deadlock(o) => fail!("{}: deadlock in{} {}", what, flying, o),
        Ended::Endless(n) => fail!("{}: no end after {} CPU seconds in{}", what, n, flying),
        Ended::Timeout => {
            c.count("inconclusive_timeouts", 1);
            Ok(())
        }
    }
}
fn watched(mut cmd: std::process::Command, env: &[(&str, String)], wall: Duration, limit: u64, beat: &dyn Fn() -> u64) -> Ended {
    use std::os::unix::process::ExitStatusExt;
    use std::process::Stdio;
    cmd.stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped());
    for (k, v) in env {
        cmd.env(k, v);
    }
    let mut ch = cmd.spawn().expect("spawn child");
    let mut so = ch.stdout.take().unwrap();
    let mut se = ch.stderr.take().unwrap();
    let t1 = std::thread::spawn(move || {
        let mut b = Vec::new();
        let _ = so.read_to_end(&mut b);
        String::from_utf8_lossy(&b).to_string()
    });
    let t2 = std::thread::spawn(move || {
        let mut b = Vec::new();
        let _ = se.read_to_end(&mut b);
        String::from_utf8_lossy(&b).to_string()
    });
    let start = Instant::now();
    let (mut seen, mut from, mut looked, mut most) = (0, 0, Instant::now(), 0);
    let mut last_cpu = u64::MAX;
    let mut since = Instant::now();
    loop {
        if let Some(st) = ch.try_wait().expect("wait") {
            if std::env::var_os("VH_TIMING").is_some() && limit < u64::MAX {
                eprintln!("child: {:?} wall, {} CPU ticks without progress", start.elapsed(), most);
            }
            let out = t1.join().unwrap_or_default();
            let err = t2.join().unwrap_or_default();
            let tail: String = err.chars().rev().take(300).collect::<String>().chars().rev().collect();
            return match st.code() {
                Some(c) => Ended::Exit(c, if c == 0 { out } else { format!("{} {}", out, tail) }),
                None => Ended::Signal(st.signal().unwrap_or(0), format!("{} {}", out, tail)),
            };
        }
        match cpu_and_sleeping(ch.id()) {
            Some((c, true)) if c == last_cpu => {
                if since.elapsed() > Duration::from_secs(12) {
                    let _ = ch.kill();
                    let _ = ch.wait();
                    return Ended::Deadlock(t1.join().unwrap_or_default());
                }
            }
            Some((c, _)) => {
                last_cpu = c;
                since = Instant::now();
                if limit < u64::MAX && looked.elapsed() > Duration::from_millis(500) {
                    looked = Instant::now();
                    let b = beat();
                    if b != seen {
                        (seen, from) = (b, c);
                    }
                    most = most.max(c - from);
                }
                if most / 100 >= limit {
                    let _ = ch.kill();
                    let _ = ch.wait();
                    return Ended::Endless(most / 100);
                }
            }
            None => {}
        }
        if start.elapsed() > wall {
            let _ = ch.kill();
            let _ = ch.wait();
            return Ended::Timeout;
        }
        std::thread::sleep(Duration::from_millis(5));
    }
}
