//! Simulation engine: seeded runs in worker processes, supervisor that
//! notices crashes and hangs, minimisation in forked children, replay files
//! and evidence.
//!
//! One (property, seed, tier, index) names exactly one scenario, and one
//! scenario is exactly one execution. Nothing here reads a clock to decide
//! what is executed; wall time is only measured and used as a safety stop.

use crate::rng::{hash_bytes, mix, Rng};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::io::{Read, Write};
use std::os::fd::FromRawFd;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
pub struct Viol {
    /// Stable name of what went wrong; minimisation keeps it.
    pub class: String,
    pub msg: String,
}

pub type Res = Result<(), Viol>;

pub fn viol<T>(class: impl Into<String>, msg: impl Into<String>) -> Result<T, Viol> {
    Err(Viol {
        class: class.into(),
        msg: msg.into(),
    })
}

/// Everything one execution records.
#[derive(Default)]
pub struct Cx {
    pub evals: u64,
    pub faults: BTreeMap<String, u64>,
    pub sigs: HashSet<u64>,
    pub orders: HashSet<u64>,
    pub sim_us: u64,
    pub probes: BTreeMap<String, u64>,
    pub samples: Vec<Value>,
    pub digest: u64,
    pub steps: u64,
    pub trace: Option<Vec<String>>,
}

impl Cx {
    pub fn fault(&mut self, kind: &str) {
        *self.faults.entry(kind.to_string()).or_default() += 1;
    }
    pub fn probe(&mut self, name: &str) {
        *self.probes.entry(name.to_string()).or_default() += 1;
    }
    /// Record a distinct case signature.
    pub fn sig(&mut self, s: &str) {
        self.sigs.insert(hash_bytes(s.as_bytes()));
    }
    pub fn sample(&mut self, v: Value) {
        if self.samples.len() < 3 {
            self.samples.push(v);
        }
    }
    /// Append an event to the execution's history (digest, and trace if on).
    pub fn event(&mut self, f: impl FnOnce() -> String) {
        let s = f();
        self.digest = mix(self.digest ^ hash_bytes(s.as_bytes()));
        self.steps += 1;
        if let Some(t) = &mut self.trace {
            if t.len() < 400 {
                t.push(s);
            }
        }
    }
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.trace.is_some() {
            let s = f();
            if let Some(t) = &mut self.trace {
                if t.len() < 400 {
                    t.push(s);
                }
            }
        }
    }
    /// Call real code; a panic is a violation.
    pub fn call<R>(&mut self, name: &str, f: impl FnOnce() -> R) -> Result<R, Viol> {
        catch_unwind(AssertUnwindSafe(f)).map_err(|_| Viol {
            class: format!("panic:{name}"),
            msg: format!("{name} panicked: {}", take_panic()),
        })
    }
}

thread_local! {
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn take_panic() -> String {
    PANIC.with(|p| std::mem::take(&mut *p.borrow_mut()))
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let text = info.to_string().replace('\n', " ");
        PANIC.with(|p| *p.borrow_mut() = text);
    }));
}

pub struct Meta {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub components: &'static [&'static str],
    pub stubs: &'static [&'static str],
    pub measure: &'static str,
}

pub trait Prop {
    type Sc: Serialize + DeserializeOwned + Clone;
    fn meta(&self) -> Meta;
    fn gen(&self, rng: &mut Rng, tier: Tier, index: u64) -> Self::Sc;
    fn exec(&self, sc: &Self::Sc, cx: &mut Cx) -> Res;
    /// Directed scenarios executed before the random ones.
    fn directed(&self) -> Vec<Self::Sc> {
        Vec::new()
    }
    /// Does the property hold on one specific listed input?
    fn known(&self, _input: &[u8], _cx: &mut Cx) -> Res {
        Ok(())
    }
}

pub trait DynProp {
    fn meta(&self) -> Meta;
    fn gen(&self, seed: u64, tier: Tier, index: u64) -> Value;
    fn exec(&self, sc: &Value, cx: &mut Cx) -> Result<Res, String>;
    /// `nd` is `directed_len()`, computed once by the caller.
    fn run_index(&self, seed: u64, tier: Tier, index: u64, nd: u64, cx: &mut Cx) -> Res;
    fn directed_len(&self) -> u64;
    fn normalise(&self, sc: &Value) -> Option<Value>;
    fn known(&self, input: &[u8], cx: &mut Cx) -> Res;
}

fn sc_rng(id: &str, seed: u64, tier: Tier, index: u64) -> Rng {
    let t = if tier == Tier::Quick { 1u64 } else { 2 };
    Rng::new(mix(
        mix(hash_bytes(id.as_bytes()) ^ mix(seed)) ^ mix(t << 56 ^ index)
    ))
}

impl<P: Prop> DynProp for P {
    fn meta(&self) -> Meta {
        Prop::meta(self)
    }
    fn gen(&self, seed: u64, tier: Tier, index: u64) -> Value {
        let d = self.directed();
        let sc = if (index as usize) < d.len() {
            d[index as usize].clone()
        } else {
            Prop::gen(
                self,
                &mut sc_rng(Prop::meta(self).id, seed, tier, index),
                tier,
                index,
            )
        };
        serde_json::to_value(sc).expect("scenario serialises")
    }
    fn exec(&self, sc: &Value, cx: &mut Cx) -> Result<Res, String> {
        let sc: P::Sc = serde_json::from_value(sc.clone()).map_err(|e| e.to_string())?;
        Ok(Prop::exec(self, &sc, cx))
    }
    fn run_index(&self, seed: u64, tier: Tier, index: u64, nd: u64, cx: &mut Cx) -> Res {
        let sc = if index < nd {
            self.directed()[index as usize].clone()
        } else {
            Prop::gen(
                self,
                &mut sc_rng(Prop::meta(self).id, seed, tier, index),
                tier,
                index,
            )
        };
        Prop::exec(self, &sc, cx)
    }
    fn directed_len(&self) -> u64 {
        self.directed().len() as u64
    }
    fn normalise(&self, sc: &Value) -> Option<Value> {
        let sc: P::Sc = serde_json::from_value(sc.clone()).ok()?;
        serde_json::to_value(sc).ok()
    }
    fn known(&self, input: &[u8], cx: &mut Cx) -> Res {
        Prop::known(self, input, cx)
    }
}

// ---------------------------------------------------------------- shared map

struct Shared {
    p: *mut AtomicU64,
}
const NONE: u64 = u64::MAX;

impl Shared {
    fn open(path: &Path, create: bool) -> std::io::Result<Self> {
        use std::os::fd::AsRawFd;
        let f = std::fs::OpenOptions::new()
            .read(true)
            .write(true)
            .create(create)
            .truncate(false)
            .open(path)?;
        if create {
            f.set_len(4096)?;
        }
        let p = unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                4096,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED,
                f.as_raw_fd(),
                0,
            )
        };
        if p == libc::MAP_FAILED {
            return Err(std::io::Error::last_os_error());
        }
        Ok(Self { p: p.cast() })
    }
    fn at(&self, i: usize) -> &AtomicU64 {
        unsafe { &*self.p.add(i) }
    }
    /// Slot 0: lowest violating index; slots 1..: current index per worker.
    fn stop(&self) -> &AtomicU64 {
        self.at(0)
    }
    fn cur(&self, w: usize) -> &AtomicU64 {
        self.at(1 + w)
    }
}

// -------------------------------------------------------------------- worker

#[derive(Serialize, Deserialize, Default)]
struct WorkerOut {
    runs: u64,
    evals: u64,
    steps: u64,
    sim_us: u64,
    rechecks: u64,
    recheck_mismatches: u64,
    faults: BTreeMap<String, u64>,
    probes: BTreeMap<String, u64>,
    samples: Vec<Value>,
    violation: Option<(u64, Viol)>,
    digest: u64,
    capped: bool,
}

const RECHECK_EVERY: u64 = 97;

pub struct RunCfg {
    pub seed: u64,
    pub tier: Tier,
    pub runs: u64,
    pub workers: u64,
    pub cap_s: u64,
}

pub fn worker(p: &dyn DynProp, cfg: &RunCfg, w: u64, dir: &Path) -> i32 {
    install_panic_hook();
    let sh = Shared::open(&dir.join("shared"), false).expect("shared map");
    let start = Instant::now();
    let mut out = WorkerOut::default();
    let mut sigs: HashSet<u64> = HashSet::new();
    let mut orders: HashSet<u64> = HashSet::new();
    let nd = p.directed_len();
    let mut i = w;
    while i < cfg.runs {
        if i > sh.stop().load(Ordering::SeqCst) {
            break;
        }
        if start.elapsed() > Duration::from_secs(cfg.cap_s) {
            out.capped = true;
            break;
        }
        sh.cur(w as usize).store(i, Ordering::SeqCst);
        let mut cx = Cx::default();
        let r = p.run_index(cfg.seed, cfg.tier, i, nd, &mut cx);
        if r.is_ok() && i % RECHECK_EVERY == (RECHECK_EVERY - 1) % RECHECK_EVERY {
            let mut c2 = Cx::default();
            let r2 = p.run_index(cfg.seed, cfg.tier, i, nd, &mut c2);
            out.rechecks += 1;
            if c2.digest != cx.digest || r2 != r {
                out.recheck_mismatches += 1;
            }
        }
        out.runs += 1;
        out.evals += cx.evals;
        out.steps += cx.steps;
        out.sim_us += cx.sim_us;
        out.digest = out.digest.wrapping_add(mix(cx.digest ^ mix(i)));
        for (k, v) in cx.faults {
            *out.faults.entry(k).or_default() += v;
        }
        for (k, v) in cx.probes {
            *out.probes.entry(k).or_default() += v;
        }
        sigs.extend(cx.sigs);
        orders.extend(cx.orders);
        if out.samples.len() < 2 {
            out.samples.extend(cx.samples.into_iter().take(1));
        }
        if let Err(v) = r {
            out.violation = Some((i, v));
            sh.stop().fetch_min(i, Ordering::SeqCst);
            break;
        }
        i += cfg.workers;
    }
    sh.cur(w as usize).store(NONE, Ordering::SeqCst);
    dump_set(&dir.join(format!("sigs{w}")), &sigs);
    dump_set(&dir.join(format!("orders{w}")), &orders);
    std::fs::write(
        dir.join(format!("out{w}.json")),
        serde_json::to_vec(&out).unwrap(),
    )
    .expect("worker result");
    0
}

fn dump_set(p: &Path, s: &HashSet<u64>) {
    let mut v = Vec::with_capacity(s.len() * 8);
    for x in s {
        v.extend_from_slice(&x.to_le_bytes());
    }
    std::fs::write(p, v).expect("worker set");
}

fn load_set(p: &Path, s: &mut HashSet<u64>) {
    if let Ok(v) = std::fs::read(p) {
        for c in v.chunks_exact(8) {
            s.insert(u64::from_le_bytes(c.try_into().unwrap()));
        }
    }
}

// ---------------------------------------------------------- forked execution

/// Outcome of running scenarios in a fresh child of this (pristine) process.
#[derive(Clone, Debug)]
pub enum Child {
    Held,
    Viol(Viol, Vec<String>),
    Broken(String),
}

/// Execute the scenarios one after the other in one forked child.
pub fn run_in_child(p: &dyn DynProp, scs: &[Value], trace: bool, timeout_s: u32) -> Child {
    let mut fds = [0i32; 2];
    if unsafe { libc::pipe(fds.as_mut_ptr()) } != 0 {
        return Child::Broken("pipe failed".into());
    }
    std::io::stdout().flush().ok();
    let pid = unsafe { libc::fork() };
    if pid < 0 {
        return Child::Broken("fork failed".into());
    }
    if pid == 0 {
        unsafe {
            libc::close(fds[0]);
            libc::alarm(timeout_s);
        }
        install_panic_hook();
        let mut w = unsafe { std::fs::File::from_raw_fd(fds[1]) };
        let mut ans = json!({"held": true});
        for sc in scs {
            let mut cx = Cx {
                trace: trace.then(Vec::new),
                ..Cx::default()
            };
            let r = catch_unwind(AssertUnwindSafe(|| p.exec(sc, &mut cx)));
            match r {
                Ok(Ok(Ok(()))) => {}
                Ok(Ok(Err(v))) => {
                    ans = json!({"viol": v, "trace": cx.trace.unwrap_or_default()});
                    break;
                }
                Ok(Err(e)) => {
                    ans = json!({"broken": e});
                    break;
                }
                Err(_) => {
                    ans = json!({"broken": format!("harness panic: {}", take_panic())});
                    break;
                }
            }
        }
        let _ = w.write_all(ans.to_string().as_bytes());
        drop(w);
        unsafe { libc::_exit(0) };
    }
    unsafe { libc::close(fds[1]) };
    let mut r = unsafe { std::fs::File::from_raw_fd(fds[0]) };
    let mut buf = Vec::new();
    let _ = r.read_to_end(&mut buf);
    let mut status = 0;
    while unsafe { libc::waitpid(pid, &mut status, 0) } < 0 {}
    if libc::WIFSIGNALED(status) {
        let s = libc::WTERMSIG(status);
        return Child::Viol(signal_viol(s), Vec::new());
    }
    match serde_json::from_slice::<Value>(&buf) {
        Ok(v) if v.get("held").is_some() => Child::Held,
        Ok(v) if v.get("viol").is_some() => Child::Viol(
            serde_json::from_value(v["viol"].clone()).unwrap(),
            serde_json::from_value(v["trace"].clone()).unwrap_or_default(),
        ),
        Ok(v) => Child::Broken(v["broken"].as_str().unwrap_or("?").to_string()),
        Err(_) => Child::Viol(
            Viol {
                class: format!("exit:{}", libc::WEXITSTATUS(status)),
                msg: "the process ended inside the code under test".into(),
            },
            Vec::new(),
        ),
    }
}

fn signal_viol(s: i32) -> Viol {
    if s == libc::SIGALRM || s == libc::SIGKILL {
        Viol {
            class: "hang".into(),
            msg: "the run did not finish".into(),
        }
    } else {
        Viol {
            class: format!("crash:signal{s}"),
            msg: format!("the process died with signal {s} inside the code under test"),
        }
    }
}

// -------------------------------------------------------------- minimisation

struct Budget {
    left: u32,
    until: Instant,
}
impl Budget {
    fn take(&mut self) -> bool {
        if self.left == 0 || Instant::now() > self.until {
            return false;
        }
        self.left -= 1;
        true
    }
}

/// Smaller variants of a JSON value at one place.
fn shrink_leaf(v: &Value) -> Vec<Value> {
    let mut c = Vec::new();
    match v {
        Value::Number(n) => {
            if let Some(x) = n.as_u64() {
                if x != 0 {
                    c.push(json!(0));
                    if x > 2 {
                        c.push(json!(x / 2));
                    }
                    c.push(json!(x - 1));
                }
            } else if let Some(x) = n.as_i64() {
                c.push(json!(0));
                c.push(json!(x / 2));
            }
        }
        Value::Bool(true) => c.push(json!(false)),
        Value::String(s) if !s.is_empty() && s.is_ascii() => {
            let n = s.len();
            for cut in [n, n / 2, n / 4, 2] {
                if cut > 0 && cut <= n {
                    c.push(json!(s[..n - cut]));
                    c.push(json!(s[cut..]));
                }
            }
            if s.bytes().all(|b| b.is_ascii_hexdigit()) && s.bytes().any(|b| b != b'0') {
                c.push(json!("0".repeat(n)));
                if n % 2 == 0 {
                    for i in (0..n).step_by(2).take(64) {
                        if &s[i..i + 2] != "00" {
                            c.push(json!(format!("{}00{}", &s[..i], &s[i + 2..])));
                        }
                    }
                }
            }
        }
        _ => {}
    }
    c
}

fn paths(v: &Value, here: &mut Vec<String>, out: &mut Vec<Vec<String>>) {
    out.push(here.clone());
    match v {
        Value::Array(a) => {
            for (i, x) in a.iter().enumerate() {
                here.push(i.to_string());
                paths(x, here, out);
                here.pop();
            }
        }
        Value::Object(o) => {
            for (k, x) in o {
                here.push(k.clone());
                paths(x, here, out);
                here.pop();
            }
        }
        _ => {}
    }
}

fn at<'a>(v: &'a Value, p: &[String]) -> Option<&'a Value> {
    let mut v = v;
    for k in p {
        v = match v {
            Value::Array(a) => a.get(k.parse::<usize>().ok()?)?,
            Value::Object(o) => o.get(k)?,
            _ => return None,
        };
    }
    Some(v)
}

fn set(v: &Value, p: &[String], new: Value) -> Value {
    if p.is_empty() {
        return new;
    }
    let mut v = v.clone();
    {
        let mut m = &mut v;
        for k in p {
            m = match m {
                Value::Array(a) => &mut a[k.parse::<usize>().unwrap()],
                Value::Object(o) => o.get_mut(k).unwrap(),
                _ => unreachable!(),
            };
        }
        *m = new;
    }
    v
}

fn minimise(p: &dyn DynProp, mut scs: Vec<Value>, class: &str) -> Vec<Value> {
    let mut b = Budget {
        left: 3000,
        until: Instant::now() + Duration::from_secs(90),
    };
    let t = if class == "hang" { 3 } else { 10 };
    if class == "hang" {
        b.left = 25;
    }
    let ok = |scs: &[Value]| matches!(run_in_child(p, scs, false, t), Child::Viol(v, _) if v.class == class);
    // Drop preceding scenarios (only present when state leaks between runs).
    let mut chunk = scs.len() / 2;
    while scs.len() > 1 && chunk > 0 {
        let mut i = 0;
        let mut any = false;
        while i < scs.len() && b.take() {
            let mut c = scs.clone();
            c.drain(i..(i + chunk).min(c.len()));
            if !c.is_empty() && ok(&c) {
                scs = c;
                any = true;
            } else {
                i += chunk;
            }
        }
        if !any {
            chunk /= 2;
        } else {
            chunk = chunk.min(scs.len() / 2).max(1);
        }
        if b.left == 0 {
            break;
        }
    }
    for k in (0..scs.len()).rev() {
        loop {
            let mut progressed = false;
            let mut ps = Vec::new();
            paths(&scs[k], &mut Vec::new(), &mut ps);
            // Arrays first (largest removal first), then leaves.
            for path in &ps {
                let Some(Value::Array(a)) = at(&scs[k], path).cloned() else {
                    continue;
                };
                let mut a = a;
                let mut chunk = a.len();
                while chunk > 0 && !a.is_empty() {
                    let mut i = 0;
                    while i < a.len() {
                        let mut c = a.clone();
                        c.drain(i..(i + chunk).min(c.len()));
                        let cand = set(&scs[k], path, Value::Array(c.clone()));
                        if p.normalise(&cand).is_some() {
                            if !b.take() {
                                return scs;
                            }
                            let mut t = scs.clone();
                            t[k] = cand.clone();
                            if ok(&t) {
                                a = c;
                                scs = t;
                                progressed = true;
                                continue;
                            }
                        }
                        i += chunk;
                    }
                    chunk /= 2;
                }
            }
            let mut ps = Vec::new();
            paths(&scs[k], &mut Vec::new(), &mut ps);
            for path in &ps {
                let Some(v) = at(&scs[k], path).cloned() else {
                    continue;
                };
                let mut v = v;
                let mut tries = 0;
                'leaf: loop {
                    for c in shrink_leaf(&v) {
                        let cand = set(&scs[k], path, c.clone());
                        if p.normalise(&cand).is_none() {
                            continue;
                        }
                        if !b.take() {
                            return scs;
                        }
                        let mut t = scs.clone();
                        t[k] = cand;
                        if ok(&t) {
                            scs = t;
                            v = c;
                            progressed = true;
                            tries += 1;
                            if tries < 40 {
                                continue 'leaf;
                            }
                        }
                    }
                    break;
                }
            }
            if !progressed {
                break;
            }
        }
    }
    scs
}

// ---------------------------------------------------------------- supervisor

pub fn root() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()))
}

/// Inputs listed in known-findings.txt for this property: they are executed
/// on their own and reported, and suppress nothing else.
fn known_findings(p: &dyn DynProp, id: &str) {
    let text = std::fs::read_to_string(root().join("known-findings.txt")).unwrap_or_default();
    for line in text.lines() {
        let Some(rest) = line.strip_prefix(&format!("finding: property={id} input=")) else {
            continue;
        };
        let (hex, what) = rest.split_once(' ').unwrap_or((rest, ""));
        let Some(input) = crate::util::unhex(hex) else {
            continue;
        };
        let pid = unsafe { libc::fork() };
        if pid == 0 {
            install_panic_hook();
            unsafe { libc::alarm(10) };
            let ok = catch_unwind(AssertUnwindSafe(|| p.known(&input, &mut Cx::default())));
            unsafe { libc::_exit(if matches!(ok, Ok(Ok(()))) { 0 } else { 1 }) };
        }
        let mut st = 0;
        unsafe { libc::waitpid(pid, &mut st, 0) };
        if libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 0 {
            println!("{id}: listed finding no longer fails: {what}");
        } else {
            println!("KNOWN-FINDING: property={id} {what}");
        }
    }
}

pub fn check(p: &dyn DynProp, cfg: &RunCfg) -> i32 {
    let start = Instant::now();
    let m = p.meta();
    known_findings(p, m.id);
    let dir = root().join(format!("sim/target/run-{}-{}", m.id, std::process::id()));
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).expect("scratch directory");
    let code = check_in(p, cfg, &m, &dir, start);
    let _ = std::fs::remove_dir_all(&dir);
    code
}

fn check_in(p: &dyn DynProp, cfg: &RunCfg, m: &Meta, dir: &Path, start: Instant) -> i32 {
    let sh = Shared::open(&dir.join("shared"), true).expect("shared map");
    sh.stop().store(NONE, Ordering::SeqCst);
    let exe = std::env::current_exe().expect("own path");
    let mut kids = Vec::new();
    for w in 0..cfg.workers {
        sh.cur(w as usize).store(NONE, Ordering::SeqCst);
        let log = std::fs::File::create(dir.join(format!("log{w}"))).expect("log");
        let kid = std::process::Command::new(&exe)
            .args([
                "worker",
                m.id,
                &w.to_string(),
                &cfg.workers.to_string(),
                &cfg.seed.to_string(),
                if cfg.tier == Tier::Quick {
                    "quick"
                } else {
                    "thorough"
                },
                &cfg.runs.to_string(),
                &cfg.cap_s.to_string(),
            ])
            .arg(dir)
            .stdout(log.try_clone().expect("log"))
            .stderr(log)
            .spawn()
            .expect("worker");
        kids.push((w, kid, 0u64, NONE));
    }
    // (index, violation) of crashed or hung workers.
    let mut lost: Vec<(u64, u64, Viol)> = Vec::new();
    let mut harness: Vec<String> = Vec::new();
    let hang_ticks = 60 * 20;
    while !kids.is_empty() {
        std::thread::sleep(Duration::from_millis(50));
        let mut alive = Vec::new();
        for (w, mut kid, mut ticks, mut last) in kids {
            match kid.try_wait().expect("wait") {
                Some(st) if st.success() => {}
                Some(st) => {
                    use std::os::unix::process::ExitStatusExt;
                    let i = sh.cur(w as usize).load(Ordering::SeqCst);
                    if let (Some(s), true) = (st.signal(), i != NONE) {
                        lost.push((i, w, signal_viol(s)));
                        sh.stop().fetch_min(i, Ordering::SeqCst);
                    } else {
                        let log = std::fs::read_to_string(dir.join(format!("log{w}")))
                            .unwrap_or_default();
                        harness.push(format!("worker {w} ended with {st} at {i}: {log}"));
                    }
                }
                None => {
                    let i = sh.cur(w as usize).load(Ordering::SeqCst);
                    if i == last {
                        ticks += 1;
                    } else {
                        ticks = 0;
                        last = i;
                    }
                    if ticks > hang_ticks && i != NONE {
                        let _ = kid.kill();
                        let _ = kid.wait();
                        lost.push((
                            i,
                            w,
                            Viol {
                                class: "hang".into(),
                                msg: "the run did not finish".into(),
                            },
                        ));
                        sh.stop().fetch_min(i, Ordering::SeqCst);
                    } else {
                        alive.push((w, kid, ticks, last));
                    }
                }
            }
        }
        kids = alive;
    }
    if !harness.is_empty() {
        eprintln!("check error: {}", harness.join("; "));
        return 2;
    }
    let mut all = WorkerOut::default();
    let mut sigs = HashSet::new();
    let mut orders = HashSet::new();
    let mut found: Vec<(u64, u64, Viol)> = lost;
    for w in 0..cfg.workers {
        let Ok(b) = std::fs::read(dir.join(format!("out{w}.json"))) else {
            continue;
        };
        let o: WorkerOut = serde_json::from_slice(&b).expect("worker result");
        all.runs += o.runs;
        all.evals += o.evals;
        all.steps += o.steps;
        all.sim_us += o.sim_us;
        all.rechecks += o.rechecks;
        all.recheck_mismatches += o.recheck_mismatches;
        all.digest = all.digest.wrapping_add(o.digest);
        all.capped |= o.capped;
        for (k, v) in o.faults {
            *all.faults.entry(k).or_default() += v;
        }
        for (k, v) in o.probes {
            *all.probes.entry(k).or_default() += v;
        }
        all.samples.extend(o.samples);
        if let Some((i, v)) = o.violation {
            found.push((i, w, v));
        }
        load_set(&dir.join(format!("sigs{w}")), &mut sigs);
        load_set(&dir.join(format!("orders{w}")), &mut orders);
    }
    found.sort_by_key(|f| f.0);
    all.samples.truncate(4);
    let explore_s = start.elapsed().as_secs_f64();
    let violated = !found.is_empty();
    let mut code = 0;
    if let Some((i, w, v)) = found.first() {
        code = report(p, cfg, m, *i, *w, v);
    }
    let ev = json!({
        "property": m.id,
        "tier": if cfg.tier == Tier::Quick { "quick" } else { "thorough" },
        "seed": cfg.seed,
        "level": m.level,
        "coverage": {
            "evaluations": all.evals,
            "distinct_nontrivial": sigs.len(),
            "rule": m.rule,
            "samples": all.samples,
            "simulated_runs": all.runs,
            "directed_runs": p.directed_len().min(all.runs),
            "seeds_per_hour": (all.runs as f64 / explore_s * 3600.0) as u64,
            "simulated_seconds": all.sim_us as f64 / 1e6,
            "history_events": all.steps,
            "faults_injected": all.faults,
            "distinct_interleavings": orders.len(),
            "interleaving_measure": m.measure,
            "reached": all.probes,
            "determinism_rechecks": all.rechecks,
            "determinism_mismatches": all.recheck_mismatches,
            "history_digest": format!("{:016x}", all.digest),
            "stopped_by_time_cap": all.capped,
            "real_components": m.components,
            "stubbed_components": m.stubs,
        },
        "assumptions": [
            "received bytes are complete before parsing starts (the library has no streaming interface)",
            "one worker process is single-threaded except where the property itself uses threads"
        ],
        "wall_s": start.elapsed().as_secs_f64(),
        "violations": u64::from(violated),
    });
    let mut ev = ev;
    if all.sim_us == 0 {
        ev["coverage"]["simulated_seconds_note"] =
            json!("nothing in this property waits or is timed, so no simulated time passes");
    }
    let evd = root().join("evidence");
    let _ = std::fs::create_dir_all(&evd);
    std::fs::write(
        evd.join(format!("{}.json", m.id)),
        serde_json::to_string_pretty(&ev).unwrap() + "\n",
    )
    .expect("evidence file");
    if code == 0 {
        println!(
            "{} held: {} runs, {} evaluations, {} distinct, {} faults, {:.1} s",
            m.id,
            all.runs,
            all.evals,
            sigs.len(),
            all.faults.values().sum::<u64>(),
            start.elapsed().as_secs_f64()
        );
        if all.evals == 0 {
            eprintln!("check error: nothing was evaluated");
            return 2;
        }
    }
    code
}

fn report(p: &dyn DynProp, cfg: &RunCfg, m: &Meta, i: u64, w: u64, v: &Viol) -> i32 {
    let sc = p.gen(cfg.seed, cfg.tier, i);
    let t = if v.class == "hang" { 5 } else { 20 };
    let mut note = "reproduced in a fresh process";
    let mut class = v.class.clone();
    let mut msg = v.msg.clone();
    let mut scs = vec![sc.clone()];
    match run_in_child(p, &scs, false, t) {
        Child::Viol(v2, _) => {
            class = v2.class;
            msg = v2.msg;
        }
        Child::Broken(e) => {
            eprintln!("check error: {e}");
            return 2;
        }
        Child::Held => {
            // State left behind by earlier runs of that worker matters.
            let before: Vec<Value> = (w..=i)
                .step_by(cfg.workers as usize)
                .map(|k| p.gen(cfg.seed, cfg.tier, k))
                .collect();
            match run_in_child(p, &before, false, 300) {
                Child::Viol(v2, _) => {
                    class = v2.class;
                    msg = v2.msg;
                    scs = before;
                    note = "needs the earlier executions in the same process";
                }
                _ => note = "seen once, not reproduced in a fresh process",
            }
        }
    }
    let scs = minimise(p, scs, &class);
    let mut trace = Vec::new();
    if let Child::Viol(v2, t) = run_in_child(p, &scs, true, t) {
        msg = v2.msg;
        trace = t;
    }
    let rd = root().join("replays");
    let _ = std::fs::create_dir_all(&rd);
    let path = rd.join(format!("{}-{}-{}.json", m.id, cfg.seed, i));
    let doc = json!({
        "property": m.id,
        "seed": cfg.seed,
        "tier": if cfg.tier == Tier::Quick { "quick" } else { "thorough" },
        "index": i,
        "class": class,
        "message": msg,
        "note": note,
        "scenarios": scs,
        "original_scenario": sc,
        "trace": trace,
    });
    std::fs::write(&path, serde_json::to_string_pretty(&doc).unwrap() + "\n").expect("replay");
    println!("{} [{}] {}", m.id, class, msg);
    println!("VIOLATION property={} replay={}", m.id, path.display());
    1
}

pub fn replay(get: impl Fn(&str) -> Option<Box<dyn DynProp>>, path: &str) -> i32 {
    let doc: Value = match std::fs::read(path)
        .map_err(|e| e.to_string())
        .and_then(|b| serde_json::from_slice(&b).map_err(|e| e.to_string()))
    {
        Ok(d) => d,
        Err(e) => {
            eprintln!("cannot read {path}: {e}");
            return 2;
        }
    };
    let id = doc["property"].as_str().unwrap_or_default();
    let Some(p) = get(id) else {
        eprintln!("unknown property {id}");
        return 2;
    };
    let scs: Vec<Value> = serde_json::from_value(doc["scenarios"].clone()).unwrap_or_default();
    match run_in_child(p.as_ref(), &scs, true, 300) {
        Child::Held => {
            println!("{id}: replay holds");
            0
        }
        Child::Viol(v, t) => {
            for l in t {
                println!("  {l}");
            }
            println!("{id} [{}] {}", v.class, v.msg);
            println!(
                "same violation as recorded: {}",
                doc["class"] == json!(v.class) && doc["message"] == json!(v.msg)
            );
            println!("VIOLATION property={id} replay={path}");
            1
        }
        Child::Broken(e) => {
            eprintln!("replay error: {e}");
            2
        }
    }
}

/// Digest of the histories of the first `n` runs: equal for equal seeds.
pub fn digest(p: &dyn DynProp, seed: u64, tier: Tier, n: u64) -> u64 {
    install_panic_hook();
    let nd = p.directed_len();
    let mut d = 0u64;
    for i in 0..n {
        let mut cx = Cx::default();
        let r = p.run_index(seed, tier, i, nd, &mut cx);
        d = mix(d ^ cx.digest ^ u64::from(r.is_ok()));
    }
    d
}
