//! Runs many simulations, each in a process of its own and each a pure function of its plan; finds
//! the first violation, minimises its plan, writes the replay file and the evidence.
use crate::interpose::{self, raw_write, say};
use crate::rng::{hash_bytes, hash_str, mix, Rng};
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::os::fd::RawFd;
use std::sync::atomic::{AtomicI32, AtomicU64, Ordering};
use std::time::Instant;

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Violation {
    pub class: String,
    pub detail: String,
}

pub fn violation<T>(class: &str, detail: impl Into<String>) -> Result<T, Violation> {
    Err(Violation { class: class.into(), detail: detail.into() })
}

/// What a run did; everything in it is a function of the plan
#[derive(Serialize, Deserialize, Default, Clone)]
pub struct Ctx {
    pub faults: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    pub sim_us: u64,
    pub states: Vec<u64>,
    pub nontrivial: bool,
    pub checks: u64,
    pub log_hash: u64,
    pub trace: Option<Vec<String>>,
    pub invalid: bool,
}

impl Ctx {
    pub fn fault(&mut self, kind: &str) {
        self.fault_n(kind, 1);
    }
    pub fn fault_n(&mut self, kind: &str, n: u64) {
        if n > 0 {
            *self.faults.entry(kind.into()).or_default() += n;
        }
    }
    pub fn probe(&mut self, name: &str) {
        *self.probes.entry(name.into()).or_default() += 1;
    }
    pub fn probe_n(&mut self, name: &str, n: u64) {
        if n > 0 {
            *self.probes.entry(name.into()).or_default() += n;
        }
    }
    pub fn state(&mut self, h: u64) {
        self.states.push(h);
    }
    /// One event of the history
    pub fn ev(&mut self, s: impl Into<String>) {
        let s = s.into();
        self.log_hash = mix(self.log_hash, hash_str(&s));
        if let Some(t) = &mut self.trace {
            if t.len() < 2000 {
                t.push(s);
            }
        }
    }
    /// A checked assertion of the property
    pub fn check(&mut self, ok: bool, class: &str, detail: impl FnOnce() -> String) -> Result<(), Violation> {
        self.checks += 1;
        if ok {
            Ok(())
        } else {
            let d = detail();
            self.ev(format!("VIOLATED {}: {}", class, d));
            violation(class, d)
        }
    }
}

pub trait Scenario {
    type Plan: Serialize + DeserializeOwned;
    /// How cases are made and what makes one non-trivial
    const RULE: &'static str;
    const REAL: &'static [&'static str];
    const STUBS: &'static [&'static str];
    const ASSUMPTIONS: &'static [&'static str];
    /// Runs of the quick and the thorough tier
    fn runs(&self) -> (u64, u64);
    fn plan(&self, rng: &mut Rng, index: u64, thorough: bool) -> Self::Plan;
    fn exec(&self, plan: &Self::Plan, ctx: &mut Ctx) -> Result<(), Violation>;
    /// Called once in the parent (to prepare files), and in the end
    fn setup(&self) {}
    /// Numbers and lists under these keys are left alone by the minimiser
    fn keep(&self) -> &'static [&'static str] {
        &[]
    }
    fn cpu_limit(&self) -> u64 {
        60
    }
    fn budget_s(&self, thorough: bool) -> f64 {
        if thorough {
            3600.
        } else {
            420.
        }
    }
}

#[derive(Serialize, Deserialize, Clone)]
pub struct RunOut {
    pub violation: Option<Violation>,
    pub ctx: Ctx,
    pub cov: (u64, u64),
}

// --------------------------------------------------------------------------------------------
// Child processes
static RESULT_FD: AtomicI32 = AtomicI32::new(-1);

thread_local! {
    static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let text = info.to_string().replace('\n', " ");
        let _ = LAST_PANIC.try_with(|p| {
            if let Ok(mut p) = p.try_borrow_mut() {
                *p = text;
            }
        });
    }));
}

/// Calls into the code under test; a panic becomes an error with its message
pub fn call<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.with(|p| std::mem::take(&mut *p.borrow_mut())))
}

/// Ends the simulated process with a violation found outside the scenario's own control flow
pub fn die_in_child(class: &str, detail: &str) -> ! {
    let fd = RESULT_FD.load(Ordering::SeqCst);
    let out = RunOut {
        violation: Some(Violation { class: class.into(), detail: detail.into() }),
        ctx: Ctx::default(),
        cov: (0, 0),
    };
    raw_write(fd, &serde_json::to_vec(&out).unwrap());
    unsafe { libc::_exit(0) }
}

fn child_main<S: Scenario>(s: &S, plan: &Value, trace: bool, fd: RawFd) -> ! {
    unsafe {
        let cpu = libc::rlimit { rlim_cur: s.cpu_limit(), rlim_max: s.cpu_limit() + 5 };
        libc::setrlimit(libc::RLIMIT_CPU, &cpu);
        let mem = libc::rlimit { rlim_cur: 12 << 30, rlim_max: 12 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &mem);
        let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &core);
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
        // What aborting code prints would only disturb the report
        let null = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
        if null >= 0 && std::env::var_os("SIM_STDERR").is_none() {
            libc::dup2(null, 2);
        }
    }
    RESULT_FD.store(fd, Ordering::SeqCst);
    let mut ctx = Ctx::default();
    if trace {
        ctx.trace = Some(vec![]);
    }
    let result = match serde_json::from_value::<S::Plan>(plan.clone()) {
        Err(e) => {
            ctx.invalid = true;
            ctx.ev(format!("unreadable plan: {}", e));
            Ok(())
        }
        Ok(p) => {
            interpose::set_entropy(1);
            interpose::SIM.store(true, Ordering::SeqCst);
            let r = call(|| s.exec(&p, &mut ctx));
            interpose::SIM.store(false, Ordering::SeqCst);
            match r {
                Ok(r) => r,
                Err(panic) => violation("panic", panic),
            }
        }
    };
    let out = RunOut { violation: result.err(), ctx, cov: interpose::coverage() };
    raw_write(fd, &serde_json::to_vec(&out).unwrap());
    unsafe { libc::_exit(0) }
}

fn reap(pid: libc::pid_t) -> i32 {
    let mut status = 0;
    loop {
        let r = unsafe { libc::waitpid(pid, &mut status, 0) };
        if r == pid {
            return status;
        }
        if r < 0 && std::io::Error::last_os_error().raw_os_error() != Some(libc::EINTR) {
            return -1;
        }
    }
}

/// Runs `f` in a forked process with a result pipe; None when it does not end in time
fn in_fork(f: impl FnOnce(RawFd), wall_s: u64) -> (Vec<u8>, Option<i32>) {
    let mut fds = [0; 2];
    assert_eq!(0, unsafe { libc::pipe2(fds.as_mut_ptr(), libc::O_CLOEXEC) });
    let pid = unsafe { libc::fork() };
    assert!(pid >= 0, "fork failed");
    if pid == 0 {
        unsafe { libc::close(fds[0]) };
        f(fds[1]);
        unsafe { libc::_exit(0) }
    }
    unsafe { libc::close(fds[1]) };
    let start = Instant::now();
    let mut bytes = vec![];
    let mut buf = vec![0u8; 65536];
    let mut timed_out = false;
    loop {
        let left = (wall_s * 1000) as i64 - start.elapsed().as_millis() as i64;
        if left <= 0 {
            timed_out = true;
            break;
        }
        let mut p = libc::pollfd { fd: fds[0], events: libc::POLLIN, revents: 0 };
        let r = unsafe { libc::poll(&mut p, 1, left.min(1000) as i32) };
        if r <= 0 {
            continue;
        }
        let n = unsafe { interpose::raw6(libc::SYS_read, fds[0] as usize, buf.as_mut_ptr() as usize, buf.len(), 0, 0, 0) };
        if n == 0 {
            break;
        }
        if n > 0 {
            bytes.extend_from_slice(&buf[..n as usize]);
        }
    }
    if timed_out {
        unsafe { libc::kill(pid, libc::SIGKILL) };
    }
    unsafe { libc::close(fds[0]) };
    let status = reap(pid);
    (bytes, if timed_out { None } else { Some(status) })
}

/// A value computed in a pristine copy of this process
pub fn in_fresh_process(f: impl FnOnce() -> Vec<u8>) -> Result<Vec<u8>, String> {
    let (bytes, status) = in_fork(
        |fd| {
            let r = f();
            raw_write(fd, b"K");
            raw_write(fd, &r);
        },
        120,
    );
    match status {
        None => Err("timeout".into()),
        Some(st) if libc::WIFSIGNALED(st) => Err(format!("signal {}", libc::WTERMSIG(st))),
        Some(_) if bytes.first() == Some(&b'K') => Ok(bytes[1..].to_vec()),
        Some(st) => Err(format!("status {} {}", st, String::from_utf8_lossy(&bytes))),
    }
}

pub fn run_plan<S: Scenario>(s: &S, plan: &Value, trace: bool) -> RunOut {
    let (bytes, status) = in_fork(|fd| child_main(s, plan, trace, fd), 240);
    let dead = |class: &str, detail: String| RunOut {
        violation: Some(Violation { class: class.into(), detail }),
        ctx: Ctx::default(),
        cov: (0, 0),
    };
    match serde_json::from_slice::<RunOut>(&bytes) {
        Ok(out) => out,
        Err(_) => match status {
            None => dead("hang", "the simulated process did not end".into()),
            Some(st) if libc::WIFSIGNALED(st) && libc::WTERMSIG(st) == libc::SIGXCPU => {
                dead("hang", format!("no end after {} s of processor time", s.cpu_limit()))
            }
            Some(st) if libc::WIFSIGNALED(st) => dead("crash", format!("the process was ended by signal {}", libc::WTERMSIG(st))),
            Some(st) => dead("exit", format!("the process ended by itself, status {}", libc::WEXITSTATUS(st))),
        },
    }
}

// --------------------------------------------------------------------------------------------
// Batches
#[derive(Serialize, Deserialize, Default)]
struct Batch {
    runs: u64,
    checks: u64,
    faults: BTreeMap<String, u64>,
    fault_runs: BTreeMap<String, u64>,
    probes: BTreeMap<String, u64>,
    sim_us: u64,
    states: HashSet<u64>,
    cases: HashSet<u64>,
    covs: HashSet<u64>,
    max_cov: u64,
    nontrivial: u64,
    invalid: u64,
    repeated: u64,
    diverged: Vec<u64>,
    found: Option<(u64, Violation)>,
    known: BTreeMap<String, u64>,
    digest: u64,
    skipped: u64,
}

fn plan_of<S: Scenario>(s: &S, id: &str, seed: u64, index: u64, thorough: bool) -> Value {
    let mut rng = Rng::new(mix(mix(seed, hash_str(id)), index));
    serde_json::to_value(s.plan(&mut rng, index, thorough)).unwrap()
}

fn shared_u64(init: u64) -> &'static AtomicU64 {
    unsafe {
        let p = libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0);
        assert!(p != libc::MAP_FAILED);
        let a = &*(p as *const AtomicU64);
        a.store(init, Ordering::SeqCst);
        a
    }
}

pub struct Settings {
    pub id: String,
    pub seed: u64,
    pub thorough: bool,
    pub workers: u64,
    pub runs: Option<u64>,
    pub evidence: Option<String>,
    pub replay_dir: String,
    pub known: Vec<(String, String)>, // class, text
}

pub fn say_err(s: &str) {
    raw_write(2, format!("{}\n", s).as_bytes());
}

fn worker<S: Scenario>(s: &S, set: &Settings, w: u64, total: u64, stop: &AtomicU64, start: Instant, repeat: u64) -> Batch {
    let mut b = Batch::default();
    let budget = s.budget_s(set.thorough);
    let mut i = w;
    while i < total {
        if i >= stop.load(Ordering::SeqCst) {
            break;
        }
        if start.elapsed().as_secs_f64() > budget {
            b.skipped += 1;
            i += set.workers;
            continue;
        }
        let plan = plan_of(s, &set.id, set.seed, i, set.thorough);
        let out = run_plan(s, &plan, false);
        b.runs += 1;
        b.checks += out.ctx.checks;
        for (k, v) in &out.ctx.faults {
            *b.faults.entry(k.clone()).or_default() += v;
            *b.fault_runs.entry(k.clone()).or_default() += 1;
        }
        for (k, v) in &out.ctx.probes {
            *b.probes.entry(k.clone()).or_default() += v;
        }
        b.sim_us += out.ctx.sim_us;
        b.states.extend(out.ctx.states.iter());
        b.covs.insert(out.cov.1);
        b.max_cov = b.max_cov.max(out.cov.0);
        if out.ctx.invalid {
            b.invalid += 1;
        }
        if out.ctx.nontrivial {
            let h = hash_bytes(&serde_json::to_vec(&plan).unwrap());
            if b.cases.insert(h) {
                b.nontrivial += 1;
            }
        }
        b.digest = b.digest.wrapping_add(mix(out.ctx.log_hash, i));
        if let Some(v) = out.violation {
            if let Some((_, text)) = set.known.iter().find(|(c, _)| *c == v.class) {
                *b.known.entry(text.clone()).or_default() += 1;
            } else {
                stop.fetch_min(i, Ordering::SeqCst);
                b.found = Some((i, v));
                break;
            }
        } else if repeat > 0 && (i / set.workers) % repeat == 0 {
            let again = run_plan(s, &plan, false);
            b.repeated += 1;
            if again.ctx.log_hash != out.ctx.log_hash || again.violation.is_some() || again.ctx.states != out.ctx.states {
                b.diverged.push(i);
            }
        }
        i += set.workers;
    }
    b
}

fn batch<S: Scenario>(s: &S, set: &Settings, total: u64, repeat: u64) -> Batch {
    let stop = shared_u64(u64::MAX);
    let start = Instant::now();
    let mut pipes = vec![];
    for w in 0..set.workers {
        let mut fds = [0; 2];
        assert_eq!(0, unsafe { libc::pipe2(fds.as_mut_ptr(), libc::O_CLOEXEC) });
        let pid = unsafe { libc::fork() };
        assert!(pid >= 0);
        if pid == 0 {
            unsafe {
                libc::close(fds[0]);
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            }
            let r = call(|| worker(s, set, w, total, stop, start, repeat));
            match r {
                Ok(b) => raw_write(fds[1], &serde_json::to_vec(&b).unwrap()),
                Err(e) => raw_write(2, format!("worker failed: {}\n", e).as_bytes()),
            }
            unsafe { libc::_exit(0) }
        }
        unsafe { libc::close(fds[1]) };
        pipes.push((pid, fds[0]));
    }
    let mut all = Batch::default();
    for (pid, fd) in pipes {
        let mut bytes = vec![];
        let mut buf = vec![0u8; 1 << 16];
        loop {
            let n = unsafe { interpose::raw6(libc::SYS_read, fd as usize, buf.as_mut_ptr() as usize, buf.len(), 0, 0, 0) };
            if n == -(libc::EINTR as isize) {
                continue;
            }
            if n <= 0 {
                break;
            }
            bytes.extend_from_slice(&buf[..n as usize]);
        }
        unsafe { libc::close(fd) };
        reap(pid);
        let b: Batch = match serde_json::from_slice(&bytes) {
            Ok(b) => b,
            Err(e) => harness_error(&format!("a worker ended without a result: {}", e)),
        };
        all.runs += b.runs;
        all.checks += b.checks;
        for (k, v) in b.faults {
            *all.faults.entry(k).or_default() += v;
        }
        for (k, v) in b.fault_runs {
            *all.fault_runs.entry(k).or_default() += v;
        }
        for (k, v) in b.probes {
            *all.probes.entry(k).or_default() += v;
        }
        all.sim_us += b.sim_us;
        all.states.extend(b.states);
        all.cases.extend(b.cases);
        all.covs.extend(b.covs);
        all.max_cov = all.max_cov.max(b.max_cov);
        all.invalid += b.invalid;
        all.repeated += b.repeated;
        all.diverged.extend(b.diverged);
        all.skipped += b.skipped;
        all.digest = all.digest.wrapping_add(b.digest);
        for (k, v) in b.known {
            *all.known.entry(k).or_default() += v;
        }
        if let Some((i, v)) = b.found {
            if all.found.as_ref().map_or(true, |(j, _)| i < *j) {
                all.found = Some((i, v));
            }
        }
    }
    all
}

pub fn harness_error(text: &str) -> ! {
    say_err(&format!("HARNESS-ERROR {}", text));
    std::process::exit(2)
}

// --------------------------------------------------------------------------------------------
// Minimisation of plans: drop parts of lists, lower numbers, while the same violation remains
fn paths(v: &Value, here: &mut Vec<String>, keep: &[&str], lists: &mut Vec<Vec<String>>, numbers: &mut Vec<Vec<String>>) {
    match v {
        Value::Array(items) => {
            lists.push(here.clone());
            for (i, item) in items.iter().enumerate() {
                here.push(i.to_string());
                paths(item, here, keep, lists, numbers);
                here.pop();
            }
        }
        Value::Object(map) => {
            for (k, item) in map {
                if keep.contains(&k.as_str()) {
                    continue;
                }
                here.push(k.clone());
                paths(item, here, keep, lists, numbers);
                here.pop();
            }
        }
        Value::Number(_) | Value::Bool(true) => numbers.push(here.clone()),
        _ => {}
    }
}

fn at<'a>(v: &'a mut Value, path: &[String]) -> Option<&'a mut Value> {
    let mut v = v;
    for p in path {
        v = match v {
            Value::Array(a) => a.get_mut(p.parse::<usize>().ok()?)?,
            Value::Object(o) => o.get_mut(p)?,
            _ => return None,
        };
    }
    Some(v)
}

fn minimise<S: Scenario>(s: &S, plan: Value, class: &str) -> (Value, u64) {
    let start = Instant::now();
    let mut best = plan;
    let mut tried = 0u64;
    let limit_s = 90.;
    let mut attempt = |candidate: &Value| -> bool {
        if start.elapsed().as_secs_f64() > limit_s || tried > 3000 {
            return false;
        }
        tried += 1;
        run_plan(s, candidate, false).violation.map_or(false, |v| v.class == class)
    };
    for _round in 0..4 {
        let before = best.clone();
        // lists, outermost first
        let (mut lists, mut numbers) = (vec![], vec![]);
        paths(&best, &mut vec![], s.keep(), &mut lists, &mut numbers);
        lists.sort_by_key(|p| p.len());
        for p in &lists {
            let mut chunk = match at(&mut best.clone(), p) {
                Some(Value::Array(a)) => a.len(),
                _ => continue,
            };
            while chunk >= 1 {
                let mut i = 0;
                loop {
                    let mut c = best.clone();
                    match at(&mut c, p) {
                        Some(Value::Array(a)) if i < a.len() => {
                            let end = (i + chunk).min(a.len());
                            a.drain(i..end);
                        }
                        _ => break,
                    }
                    if attempt(&c) {
                        best = c;
                    } else {
                        i += chunk;
                    }
                }
                chunk /= 2;
            }
        }
        let (mut lists, mut numbers) = (vec![], vec![]);
        paths(&best, &mut vec![], s.keep(), &mut lists, &mut numbers);
        for p in &numbers {
            let old = match at(&mut best, p) {
                Some(v) => v.clone(),
                None => continue,
            };
            let candidates: Vec<Value> = match &old {
                Value::Bool(true) => vec![json!(false)],
                Value::Number(n) if n.is_u64() || n.is_i64() => {
                    let n = n.as_i64().unwrap_or(i64::MAX);
                    let mut c = vec![];
                    for x in [0, 1, n / 16, n / 2, n - 1] {
                        if x.abs() < n.abs() && !c.contains(&json!(x)) {
                            c.push(json!(x));
                        }
                    }
                    c
                }
                Value::Number(n) => {
                    let n = n.as_f64().unwrap();
                    [0., 1., n.round()].iter().filter(|x| **x != n && x.abs() <= n.abs() + 1.).map(|x| json!(x)).collect()
                }
                _ => vec![],
            };
            for c in candidates {
                let mut trial = best.clone();
                if let Some(slot) = at(&mut trial, p) {
                    *slot = c;
                    if attempt(&trial) {
                        best = trial;
                        break;
                    }
                }
            }
        }
        if best == before {
            break;
        }
    }
    (best, tried)
}

// --------------------------------------------------------------------------------------------
// Checks
pub fn check<S: Scenario>(s: &S, set: &Settings) -> i32 {
    let start = Instant::now();
    s.setup();
    let total = set.runs.unwrap_or(if set.thorough { s.runs().1 } else { s.runs().0 });
    say(&format!("{}: VERIF_SEED={} tier={} runs={} workers={}", set.id, set.seed, if set.thorough { "thorough" } else { "quick" }, total, set.workers));
    let all = batch(s, set, total, 20);
    let explored_s = start.elapsed().as_secs_f64();
    let mut samples = vec![];
    for i in 0..3u64.min(total) {
        let plan = plan_of(s, &set.id, set.seed, i, set.thorough);
        let out = run_plan(s, &plan, true);
        let mut text = serde_json::to_string(&plan).unwrap();
        if text.len() > 1500 {
            text = format!("{}... ({} bytes)", text.chars().take(1500).collect::<String>(), text.len());
        }
        samples.push(json!({"run": i, "plan": text, "events": out.ctx.trace.map(|t| t.into_iter().take(30).map(|l| l.chars().take(300).collect::<String>()).collect::<Vec<_>>())}));
    }
    let mut exit = 0;
    if let Some((index, v)) = &all.found {
        exit = report(s, set, *index, v);
    }
    for (text, n) in &all.known {
        say(&format!("KNOWN-FINDING: property={} {} (met in {} runs)", set.id, text, n));
    }
    let wall = start.elapsed().as_secs_f64();
    let evidence = json!({
        "property": set.id,
        "tier": if set.thorough { "thorough" } else { "quick" },
        "seed": set.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": all.runs,
            "distinct_nontrivial": all.cases.len(),
            "rule": S::RULE,
            "samples": samples,
            "assertions_checked": all.checks,
            "runs_per_hour": (all.runs as f64 / explored_s.max(0.001) * 3600.) as u64,
            "seeds_per_hour": (all.runs as f64 / explored_s.max(0.001) * 3600.) as u64,
            "simulated_seconds": all.sim_us as f64 / 1e6,
            "faults_injected": all.faults,
            "runs_with_fault": all.fault_runs,
            "probes": all.probes,
            "distinct_states": all.states.len(),
            "distinct_code_paths": all.covs.len(),
            "code_path_measure": "hash of the set of basic blocks of the repository's crates reached by a run",
            "basic_blocks_reached_by_a_run_at_most": all.max_cov,
            "basic_blocks_linked": interpose::guards(),
            "runs_repeated_for_determinism": all.repeated,
            "runs_that_diverged": all.diverged.len(),
            "event_log_digest": format!("{:016x}", all.digest),
            "invalid_plans": all.invalid,
            "runs_left_out_for_time": all.skipped,
            "real_code": S::REAL,
            "stubs": S::STUBS,
            "worker_processes": set.workers
        },
        "assumptions": S::ASSUMPTIONS,
        "wall_s": wall,
        "violations": if all.found.is_some() { 1 } else { 0 }
    });
    if let Some(path) = &set.evidence {
        std::fs::write(path, serde_json::to_string_pretty(&evidence).unwrap()).unwrap_or_else(|e| harness_error(&format!("{}: {}", path, e)));
    }
    say(&format!(
        "{}: {} runs in {:.1} s, {} assertions, {} distinct states, {} non-trivial, faults {:?}, probes {:?}, repeated {} diverged {} digest {:016x}",
        set.id, all.runs, explored_s, all.checks, all.states.len(), all.cases.len(), all.faults, all.probes, all.repeated, all.diverged.len(), all.digest
    ));
    if exit == 0 && !all.diverged.is_empty() {
        harness_error(&format!("runs {:?} differ when repeated", &all.diverged[..all.diverged.len().min(10)]));
    }
    exit
}

fn report<S: Scenario>(s: &S, set: &Settings, index: u64, v: &Violation) -> i32 {
    let plan = plan_of(s, &set.id, set.seed, index, set.thorough);
    say(&format!("run {}: {}: {}", index, v.class, v.detail.chars().take(600).collect::<String>()));
    let (small, tried) = minimise(s, plan.clone(), &v.class);
    let mut chosen = small;
    let mut out = run_plan(s, &chosen, true);
    if out.violation.as_ref().map(|x| &x.class) != Some(&v.class) {
        chosen = plan.clone();
        out = run_plan(s, &chosen, true);
    }
    let found = match &out.violation {
        Some(f) => f.clone(),
        None => harness_error(&format!("the violation of run {} does not repeat: {} {}", index, v.class, v.detail)),
    };
    let _ = std::fs::create_dir_all(&set.replay_dir);
    let path = format!("{}/{}-{}-{}.json", set.replay_dir, set.id, set.seed, index);
    let replay = json!({
        "property": set.id, "seed": set.seed, "run": index, "tier": if set.thorough { "thorough" } else { "quick" },
        "class": found.class, "detail": found.detail, "plan": chosen, "trace": out.ctx.trace, "event_log": format!("{:016x}", out.ctx.log_hash),
        "plan_bytes_before_minimising": plan.to_string().len(), "candidates_tried": tried
    });
    std::fs::write(&path, serde_json::to_string_pretty(&replay).unwrap()).unwrap_or_else(|e| harness_error(&format!("{}: {}", path, e)));
    // The replay file alone, in a fresh process, must show the same violation
    let again = std::process::Command::new("/proc/self/exe").arg("replay").arg(&path).output();
    match again {
        Ok(o) if o.status.code() == Some(1) => {}
        Ok(o) => harness_error(&format!("replaying {} does not reproduce the violation: {}", path, String::from_utf8_lossy(&o.stdout))),
        Err(e) => harness_error(&format!("cannot replay: {}", e)),
    }
    say(&format!("minimised to {} bytes of plan, {} candidates: {}: {}", replay["plan"].to_string().len(), tried, found.class, found.detail.chars().take(600).collect::<String>()));
    if let Some(t) = replay["trace"].as_array() {
        for line in t.iter().rev().take(12).rev() {
            say(&format!("  {}", line.as_str().unwrap_or("").chars().take(300).collect::<String>()));
        }
    }
    say(&format!("VIOLATION property={} replay={}", set.id, path));
    1
}

pub fn replay<S: Scenario>(s: &S, file: &Value) -> i32 {
    s.setup();
    let out = run_plan(s, &file["plan"], true);
    for line in out.ctx.trace.unwrap_or_default() {
        say(&line);
    }
    match out.violation {
        Some(v) if Some(v.class.as_str()) == file["class"].as_str() => {
            say(&format!("{}: {}", v.class, v.detail));
            if file["event_log"].as_str() != Some(&format!("{:016x}", out.ctx.log_hash)) {
                say("note: the event log differs from the recorded one");
            }
            say(&format!("reproduced property={}", file["property"].as_str().unwrap_or("?")));
            1
        }
        Some(v) => {
            say(&format!("a different violation: {}: {}", v.class, v.detail));
            3
        }
        None => {
            say("no violation");
            0
        }
    }
}

/// Every run twice, with different numbers of workers
pub fn determinism<S: Scenario>(s: &S, set: &Settings, runs: u64) -> i32 {
    s.setup();
    let mut digests: HashMap<u64, Vec<u64>> = HashMap::new();
    let mut exit = 0;
    for workers in [8, 3, 1] {
        let set = Settings { id: set.id.clone(), seed: set.seed, thorough: set.thorough, workers, runs: None, evidence: None, replay_dir: set.replay_dir.clone(), known: vec![] };
        let b = batch(s, &set, runs, if workers == 8 { 1 } else { 0 });
        if !b.diverged.is_empty() || b.found.is_some() {
            say(&format!("{}: diverged {:?} found {:?}", set.id, b.diverged, b.found));
            exit = 2;
        }
        digests.entry(b.digest).or_default().push(workers);
    }
    say(&format!("{}: {} runs x4, digests {:x?}", set.id, runs, digests));
    if digests.len() != 1 {
        exit = 2;
    }
    exit
}

/// Prints one run of a check
pub fn show<S: Scenario>(s: &S, set: &Settings, index: u64) -> i32 {
    s.setup();
    let plan = plan_of(s, &set.id, set.seed, index, set.thorough);
    say(&serde_json::to_string(&plan).unwrap());
    let out = run_plan(s, &plan, true);
    for l in out.ctx.trace.clone().unwrap_or_default() {
        say(&l);
    }
    say(&format!("{:?} {:?} nontrivial {} invalid {} {:?}", out.ctx.faults, out.ctx.probes, out.ctx.nontrivial, out.ctx.invalid, out.violation));
    0
}
