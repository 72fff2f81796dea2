//! Supervisor / worker machinery.
//!
//! A check is a list of tasks. A task enumerates *cases*; a case is a path (list of small numbers)
//! and running it is a pure function of (task, path) executed against the real code from a clean
//! arena. Worker processes explore tasks; before a case runs, its path is published in shared
//! memory, so that a crash or a hang of the code under test is attributed to the exact case, which
//! is then re-run in a fresh process before it is reported.

use crate::{arena, val};
use std::collections::{BTreeMap, HashSet};
use std::io::{BufRead, BufReader, Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, Default)]
pub struct Out {
    /// canonical state (BFS) or anything identifying the outcome
    pub canon: u128,
    /// does this case count as non-trivial
    pub nontrivial: bool,
}

pub trait Task {
    fn name(&self) -> String;
    fn explore(&self, cx: &mut Cx);
    fn run_case(&self, path: &[u32]) -> Result<Out, String>;
    fn describe(&self, path: &[u32]) -> String;
}

pub struct Check {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub tasks: fn(tier: Tier) -> Vec<Box<dyn Task>>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}
impl Tier {
    pub fn q<T>(self, q: T, t: T) -> T {
        if self == Tier::Quick {
            q
        } else {
            t
        }
    }
}

/// Executions (action sequences) run inside cases, for cases that hold many.
static INNER: AtomicU64 = AtomicU64::new(0);
pub fn inner(n: u64) {
    INNER.fetch_add(n, SeqCst);
}

const SHM_PATH: usize = 8192;
#[repr(C)]
struct Shm {
    counter: AtomicU64,
    task: AtomicU64,
    len: AtomicU64,
    path: [u32; SHM_PATH],
}

#[derive(Default)]
pub struct Stats {
    pub cases: u64,
    pub states: u64,
    pub transitions: u64,
    pub nontrivial: u64,
    pub depth: u64,
    pub capped: bool,
    pub closed: bool,
    pub samples: Vec<String>,
}

pub struct Cx {
    shm: *mut Shm,
    task_idx: usize,
    pub st: Stats,
    pub violation: Option<(Vec<u32>, String)>,
    known: Vec<(String, String)>,
    known_hits: Vec<String>,
    outcomes: HashSet<u128, arena::BH>,
    deadline: Instant,
    name: String,
}

static mut PANIC_MSG: String = String::new();
#[allow(static_mut_refs)]
pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        arena::untracked(|| {
            let m = if let Some(s) = info.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = info.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "?".into()
            };
            let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            let full = format!("{m} at {loc}");
            if full.contains("unsafe precondition") {
                eprintln!("{full}");
            }
            unsafe { PANIC_MSG = full }
        })
    }));
}
#[allow(static_mut_refs)]
pub fn panic_msg() -> String {
    unsafe { PANIC_MSG.clone() }
}

pub fn fresh() {
    arena::reset();
    val::reset();
    val::zst_reset();
}

fn guarded(task: &dyn Task, path: &[u32]) -> Result<Out, String> {
    fresh();
    let r = catch_unwind(AssertUnwindSafe(|| task.run_case(path)));
    let r = match r {
        Ok(r) => r,
        Err(_) => Err(format!("unexpected panic: {}", panic_msg())),
    };
    arena::untracked(|| match r {
        Ok(o) => {
            if let Some(e) = arena::error().or_else(val::error) {
                Err(e)
            } else {
                Ok(o)
            }
        }
        Err(e) => Err(match arena::error().or_else(val::error) {
            Some(m) => format!("{e}; {m}"),
            None => e,
        }),
    })
}

impl Cx {
    fn publish(&mut self, path: &[u32]) {
        if self.shm.is_null() {
            return;
        }
        unsafe {
            let s = &mut *self.shm;
            let n = path.len().min(SHM_PATH);
            s.len.store(n as u64, SeqCst);
            s.path[..n].copy_from_slice(&path[..n]);
            s.task.store(self.task_idx as u64, SeqCst);
            s.counter.fetch_add(1, SeqCst);
        }
    }
    pub fn alive(&mut self) {
        if !self.shm.is_null() {
            unsafe { (*self.shm).counter.fetch_add(1, SeqCst) };
        }
    }

    /// Run one case. None = stop exploring (violation, or deadline).
    pub fn exec(&mut self, task: &dyn Task, path: &[u32]) -> Option<Out> {
        if self.violation.is_some() {
            return None;
        }
        self.publish(path);
        self.st.cases += 1;
        if self.st.cases & 0xff == 0 && Instant::now() > self.deadline {
            self.st.capped = true;
            return None;
        }
        match guarded(task, path) {
            Ok(o) => {
                if o.nontrivial && self.outcomes.insert(o.canon) {
                    self.st.nontrivial += 1;
                }
                let c = self.st.cases;
                if (c == 7 || c == 500 || c == 20_000 || c == 300_000) && self.st.samples.len() < 4 {
                    let d: String = task.describe(path).chars().take(600).collect();
                    self.st.samples.push(d);
                }
                Some(o)
            }
            Err(m) => {
                let sig = format!("{}|{}", self.name, path_str(path));
                if let Some((_, why)) = self.known.iter().find(|k| k.0 == sig) {
                    if !self.known_hits.contains(why) {
                        self.known_hits.push(why.clone());
                    }
                    return Some(Out { canon: u128::MAX, nontrivial: false });
                }
                self.violation = Some((path.to_vec(), m));
                None
            }
        }
    }

    /// Enumerate the full product of `dims`.
    pub fn product(&mut self, task: &dyn Task, dims: &[u32]) {
        if dims.iter().any(|d| *d == 0) {
            self.st.closed = true;
            return;
        }
        let mut p = vec![0u32; dims.len()];
        loop {
            if self.exec(task, &p).is_none() {
                return;
            }
            let mut i = dims.len();
            loop {
                if i == 0 {
                    self.st.closed = true;
                    return;
                }
                i -= 1;
                p[i] += 1;
                if p[i] < dims[i] {
                    break;
                }
                p[i] = 0;
            }
        }
    }

    /// Breadth-first search over the states the real code reaches.
    /// `ops` is the alphabet size; states are deduplicated by `Out::canon`.
    pub fn bfs(&mut self, task: &dyn Task, prefix: &[u32], ops: u32, max_depth: usize, max_states: usize) {
        self.bfs_multi(task, &[prefix.to_vec()], ops, max_depth, max_states)
    }

    /// The same from several initial states.
    pub fn bfs_multi(&mut self, task: &dyn Task, inits: &[Vec<u32>], ops: u32, max_depth: usize, max_states: usize) {
        let mut seen: HashSet<u128, arena::BH> = HashSet::default();
        // parent and op; an initial state has no parent, its op is its number
        let mut nodes: Vec<(u32, u32)> = vec![];
        for (i, init) in inits.iter().enumerate() {
            let Some(o) = self.exec(task, init) else { return };
            if seen.insert(o.canon) {
                self.st.states += 1;
                nodes.push((u32::MAX, i as u32));
            }
        }
        let mut cur: Vec<u32> = (0..nodes.len() as u32).collect();
        let mut depth = 0;
        let mut path: Vec<u32> = vec![];
        while !cur.is_empty() {
            if depth == max_depth {
                // bound reached with open states: not a fixpoint
                self.st.depth = self.st.depth.max(depth as u64);
                return;
            }
            depth += 1;
            let mut next = vec![];
            for &node in &cur {
                path.clear();
                let mut n = node;
                while nodes[n as usize].0 != u32::MAX {
                    path.push(nodes[n as usize].1);
                    n = nodes[n as usize].0;
                }
                path.reverse();
                let mut full = inits[nodes[n as usize].1 as usize].clone();
                full.extend_from_slice(&path);
                full.push(0);
                let l = full.len();
                for op in 0..ops {
                    full[l - 1] = op;
                    let Some(o) = self.exec(task, &full) else { return };
                    self.st.transitions += 1;
                    if seen.insert(o.canon) {
                        self.st.states += 1;
                        nodes.push((node, op));
                        next.push(nodes.len() as u32 - 1);
                        if nodes.len() >= max_states {
                            self.st.capped = true;
                            self.st.depth = self.st.depth.max(depth as u64);
                            return;
                        }
                    }
                }
            }
            cur = next;
        }
        self.st.depth = self.st.depth.max((depth as u64).saturating_sub(1));
        self.st.closed = true;
    }
}

fn path_str(p: &[u32]) -> String {
    p.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
}
fn parse_path(s: &str) -> Vec<u32> {
    s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect()
}
fn one_line(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n").replace('\t', " ")
}
fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn root() -> String {
    std::env::var("HV_ROOT").unwrap_or_else(|_| "/verif".into())
}

fn load_known(id: &str) -> Vec<(String, String)> {
    // known: property=P01 sig=<task>|<path> why=<text>
    let mut v = vec![];
    if let Ok(s) = std::fs::read_to_string(format!("{}/known_findings.txt", root())) {
        for l in s.lines() {
            let Some(l) = l.strip_prefix("known: ") else { continue };
            if !l.starts_with(&format!("property={id} ")) {
                continue;
            }
            if let (Some(a), Some(b)) = (l.find("sig="), l.find(" why=")) {
                v.push((l[a + 4..b].to_string(), l[b + 5..].to_string()));
            }
        }
    }
    v
}

fn map_shm(file: &str) -> *mut Shm {
    use std::os::fd::AsRawFd;
    let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(file).unwrap();
    f.set_len(std::mem::size_of::<Shm>() as u64).unwrap();
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            std::mem::size_of::<Shm>(),
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED,
            f.as_raw_fd(),
            0,
        );
        assert!(p != libc::MAP_FAILED);
        p.cast()
    }
}

fn worker(check: &Check, tier: Tier, shm_file: &str, budget: Duration, start: Instant) {
    let tasks = (check.tasks)(tier);
    let shm = if shm_file == "-" { std::ptr::null_mut() } else { map_shm(shm_file) };
    let known = load_known(check.id);
    install_hook();
    let stdin = std::io::stdin();
    for line in stdin.lock().lines() {
        let Ok(line) = line else { break };
        let Ok(i) = line.trim().parse::<usize>() else { break };
        let t = &tasks[i];
        let mut cx = Cx {
            shm,
            task_idx: i,
            st: Stats::default(),
            violation: None,
            known: known.clone(),
            known_hits: vec![],
            outcomes: HashSet::default(),
            deadline: start + budget,
            name: t.name(),
        };
        let t0 = Instant::now();
        t.explore(&mut cx);
        arena::reset();
        let mut o = String::new();
        let s = &cx.st;
        o += &format!(
            "STAT\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\n",
            s.cases,
            s.states,
            s.transitions,
            s.nontrivial,
            s.depth,
            s.capped as u8,
            s.closed as u8,
            t0.elapsed().as_millis(),
            INNER.swap(0, SeqCst)
        );
        for x in &s.samples {
            o += &format!("SAMPLE\t{}\n", one_line(x));
        }
        for x in &cx.known_hits {
            o += &format!("KNOWN\t{}\n", one_line(x));
        }
        if let Some((p, m)) = &cx.violation {
            o += &format!("VIOL\t{}\t{}\n", path_str(p), one_line(m));
        }
        o += "END\n";
        let mut out = std::io::stdout();
        let _ = out.write_all(o.as_bytes());
        let _ = out.flush();
    }
}

struct Viol {
    task: String,
    path: Option<Vec<u32>>,
    msg: String,
    desc: String,
}

fn exe() -> std::path::PathBuf {
    std::env::current_exe().unwrap()
}

/// Re-run one case in a fresh process. Ok(None) = passes, Ok(Some(msg)) = fails.
fn rerun(tier: Tier, args: &[&str], timeout: Duration) -> Option<String> {
    let mut c = Command::new(exe())
        .arg(if tier == Tier::Quick { "quick" } else { "thorough" })
        .args(args)
        .env("HV_CHILD", "1")
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .unwrap();
    let mut so = c.stdout.take().unwrap();
    let mut se = c.stderr.take().unwrap();
    let h1 = std::thread::spawn(move || {
        let mut s = vec![];
        let _ = so.read_to_end(&mut s);
        String::from_utf8_lossy(&s).to_string()
    });
    let h2 = std::thread::spawn(move || {
        let mut s = vec![];
        let _ = se.read_to_end(&mut s);
        String::from_utf8_lossy(&s).to_string()
    });
    let t0 = Instant::now();
    let st = loop {
        if let Some(s) = c.try_wait().unwrap() {
            break Some(s);
        }
        if t0.elapsed() > timeout {
            let _ = c.kill();
            let _ = c.wait();
            break None;
        }
        std::thread::sleep(Duration::from_millis(5));
    };
    let out = h1.join().unwrap_or_default();
    let err = h2.join().unwrap_or_default();
    match st {
        None => Some(format!("did not terminate within {} s", timeout.as_secs())),
        Some(s) => {
            use std::os::unix::process::ExitStatusExt;
            if s.success() || s.code() == Some(crate::arena::EXHAUSTED) {
                None
            } else if s.code() == Some(1) {
                Some(out.lines().find_map(|l| l.strip_prefix("FAIL\t")).unwrap_or("failed").to_string())
            } else {
                let tail: String = err.lines().filter(|l| !l.trim().is_empty()).take(4).collect::<Vec<_>>().join(" / ");
                Some(format!(
                    "process died: {} {}",
                    s.signal().map(|x| format!("signal {x}")).unwrap_or(format!("exit {:?}", s.code())),
                    tail
                ))
            }
        }
    }
}

pub fn main(check: Check) {
    // resolving symbols for a message nobody reads costs tens of milliseconds
    std::env::set_var("RUST_BACKTRACE", "0");
    std::env::set_var("RUST_LIB_BACKTRACE", "0");
    let args: Vec<String> = std::env::args().skip(1).collect();
    let tier = match args.first().map(|s| s.as_str()) {
        Some("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let start = Instant::now();
    let budget = Duration::from_secs(
        std::env::var("HV_BUDGET").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| {
            // the build before counts
            let built: u64 = std::env::var("HV_BUILD_SECONDS").ok().and_then(|s| s.parse().ok()).unwrap_or(0);
            tier.q(150, 820u64.saturating_sub(built).clamp(300, 780))
        }),
    );
    match args.get(1).map(|s| s.as_str()) {
        Some("--worker") => return worker(&check, tier, &args[2], budget, start),
        Some("--list") => {
            for t in (check.tasks)(tier) {
                println!("{}", t.name());
            }
            return;
        }
        Some("--case") => {
            let tasks = (check.tasks)(tier);
            let Some(t) = tasks.iter().find(|t| t.name() == args[2]) else {
                println!("FAIL\tno such task {}", args[2]);
                std::process::exit(3)
            };
            install_hook();
            let p = parse_path(args.get(3).map(|s| s.as_str()).unwrap_or(""));
            match guarded(&**t, &p) {
                Ok(_) => std::process::exit(0),
                Err(m) => {
                    println!("FAIL\t{}", one_line(&m));
                    std::process::exit(1)
                }
            }
        }
        Some("--task") => {
            let tasks = (check.tasks)(tier);
            let Some(t) = tasks.iter().find(|t| t.name() == args[2]) else { std::process::exit(3) };
            install_hook();
            let mut cx = Cx {
                shm: std::ptr::null_mut(),
                task_idx: 0,
                st: Stats::default(),
                violation: None,
                known: load_known(check.id),
                known_hits: vec![],
                outcomes: HashSet::default(),
                deadline: start + budget,
                name: t.name(),
            };
            let t0 = Instant::now();
            t.explore(&mut cx);
            if let Some((p, m)) = cx.violation {
                println!("FAIL\t{} :: {} :: {}", path_str(&p), t.describe(&p), one_line(&m));
                std::process::exit(1)
            }
            let s = cx.st;
            println!(
                "cases={} states={} transitions={} nontrivial={} depth={} capped={} closed={} {:?}",
                s.cases, s.states, s.transitions, s.nontrivial, s.depth, s.capped, s.closed, t0.elapsed()
            );
            for x in s.samples {
                println!("  sample: {x}");
            }
            return;
        }
        Some("--replay") => {
            let txt = std::fs::read_to_string(&args[2]).expect("replay file");
            let f = |k: &str| {
                txt.lines().find_map(|l| l.strip_prefix(k)).map(|s| s.trim().to_string()).unwrap_or_default()
            };
            let task = f("task:");
            let path = f("path:");
            let t = if f("tier:") == "thorough" { Tier::Thorough } else { Tier::Quick };
            let r = if task == SETUP {
                rerun(t, &["--list"], Duration::from_secs(60))
            } else if path == "(whole task)" {
                rerun(t, &["--task", &task], Duration::from_secs(600))
            } else {
                rerun(t, &["--case", &task, &path], Duration::from_secs(60))
            };
            match r {
                None => println!("replay passes"),
                Some(m) => {
                    println!("replay fails: {m}");
                    std::process::exit(1)
                }
            }
            return;
        }
        _ => {}
    }
    supervise(check, tier, start, budget)
}

const SETUP: &str = "(laying out the cases)";

fn supervise(check: Check, tier: Tier, start: Instant, budget: Duration) {
    // laying out the cases already uses the crate (index ranges of empty trees): it must not take the
    // supervisor down with it
    let setup = rerun(tier, &["--list"], Duration::from_secs(60));
    let tasks = if setup.is_some() { vec![] } else { (check.tasks)(tier) };
    let names: Vec<String> = tasks.iter().map(|t| t.name()).collect();
    {
        let u: HashSet<&String> = names.iter().collect();
        assert!(u.len() == names.len(), "duplicate task names");
    }
    let nw = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).clamp(2, 8).min(names.len().max(1));
    let scratch = std::env::temp_dir().join(format!("hv-{}-{}", check.id, std::process::id()));
    std::fs::create_dir_all(&scratch).unwrap();
    let next = Arc::new(AtomicUsize::new(0));
    let stop = Arc::new(AtomicBool::new(false));
    let agg: Arc<Mutex<Agg>> = Default::default();
    let pids: Arc<Mutex<BTreeMap<usize, u32>>> = Default::default();
    let names = Arc::new(names);
    let mut hs = vec![];
    for w in 0..nw {
        let (next, stop, agg, names, pids) = (next.clone(), stop.clone(), agg.clone(), names.clone(), pids.clone());
        let shm_file = scratch.join(format!("w{w}")).to_string_lossy().to_string();
        hs.push(std::thread::spawn(move || {
            worker_loop(w, tier, &shm_file, &next, &stop, &agg, &names, &pids, budget.saturating_sub(start.elapsed()))
        }));
    }
    for h in hs {
        let _ = h.join();
    }
    let _ = std::fs::remove_dir_all(&scratch);
    let agg = std::mem::take(&mut *agg.lock().unwrap());
    let mut viols = agg.viols;
    if let Some(msg) = setup {
        viols.push(Viol { task: SETUP.into(), path: None, msg, desc: "making the empty trees the cases start from".into() });
    }
    for v in &mut viols {
        if let Some(t) = tasks.iter().find(|t| t.name() == v.task) {
            if let Some(p) = &v.path {
                v.desc = t.describe(p);
            }
        }
    }
    let wall = start.elapsed().as_secs_f64();
    // evidence
    let a = &agg.st;
    let mut samples: Vec<String> = agg.samples;
    samples.sort();
    samples.dedup();
    let step = (samples.len() / 12).max(1);
    let samples: Vec<String> = samples.into_iter().step_by(step).take(14).collect();
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let mut cov = vec![];
    if check.level == "model_checking" {
        cov.push(format!("\"states\":{}", a.states));
        cov.push(format!("\"transitions\":{}", a.transitions));
        cov.push(format!("\"traces_validated_against_impl\":{}", a.cases));
    }
    if check.level != "model_checking" {
        cov.push(format!("\"evaluations\":{}", a.cases));
    }
    cov.push(format!("\"distinct_nontrivial\":{}", a.nontrivial));
    cov.push(format!("\"rule\":{}", jstr(check.rule)));
    cov.push(format!("\"samples\":[{}]", samples.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(",")));
    if agg.inner > 0 {
        cov.push(format!("\"action_sequences_inside_cases\":{}", agg.inner));
    }
    cov.push(format!("\"tasks\":{}", agg.done));
    cov.push(format!("\"tasks_explored_to_completion\":{}", agg.closed));
    cov.push(format!("\"tasks_stopped_at_depth_bound\":{}", agg.bounded));
    cov.push(format!("\"tasks_stopped_by_time_or_state_cap\":{}", agg.capped));
    cov.push(format!("\"max_depth\":{}", a.depth));
    cov.push(format!("\"exhaustive\":{}", agg.capped == 0 && agg.done == names.len() && viols.is_empty()));
    cov.push(format!("\"capped_tasks\":[{}]", agg.capped_names.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(",")));
    let ev = format!(
        "{{\"property\":{},\"tier\":\"{}\",\"seed\":{},\"level\":{},\"coverage\":{{{}}},\"assumptions\":[{}],\"wall_s\":{:.3},\"violations\":{}}}\n",
        jstr(check.id),
        if tier == Tier::Quick { "quick" } else { "thorough" },
        seed,
        jstr(check.level),
        cov.join(","),
        check.assumptions.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(","),
        wall,
        viols.len()
    );
    let evf = std::env::var("HV_EVIDENCE").unwrap_or_else(|_| format!("{}/evidence/{}.json", root(), check.id));
    if let Some(d) = std::path::Path::new(&evf).parent() {
        let _ = std::fs::create_dir_all(d);
    }
    if std::fs::write(&evf, ev).is_err() {
        eprintln!("cannot write {evf}");
        std::process::exit(2);
    }
    for k in agg.known {
        println!("KNOWN-FINDING: property={} {}", check.id, k);
    }
    println!(
        "{}: tier={:?} tasks={}/{} cases={} states={} transitions={} nontrivial={} closed={} bounded={} capped={} wall={:.1}s",
        check.id,
        tier,
        agg.done,
        names.len(),
        a.cases,
        a.states,
        a.transitions,
        a.nontrivial,
        agg.closed,
        agg.bounded,
        agg.capped,
        wall
    );
    if std::env::var("HV_VERBOSE").is_ok() {
        let mut t = agg.times;
        t.sort();
        for (ms, n) in t.iter().rev().take(25) {
            println!("  {ms} ms {n}");
        }
    }
    if !viols.is_empty() {
        let dir = format!("{}/replays", root());
        let _ = std::fs::create_dir_all(&dir);
        for v in &viols {
            let mut h = 0xcbf29ce484222325u64;
            for b in v.task.bytes().chain(path_str(v.path.as_deref().unwrap_or(&[])).bytes()) {
                h = (h ^ b as u64).wrapping_mul(0x100000001b3);
            }
            let f = format!("{dir}/{}-{h:016x}.txt", check.id);
            let _ = std::fs::write(
                &f,
                format!(
                    "property: {}\ntier: {}\ntask: {}\npath: {}\ncase: {}\nfailure: {}\nreplay with: bash check.sh {} --replay {}\n",
                    check.id,
                    if tier == Tier::Quick { "quick" } else { "thorough" },
                    v.task,
                    v.path.as_ref().map(|p| path_str(p)).unwrap_or("(whole task)".into()),
                    v.desc,
                    v.msg,
                    check.id,
                    f
                ),
            );
            println!("  task {}\n  case {}\n  {}", v.task, v.desc, v.msg);
            println!("VIOLATION property={} replay={}", check.id, f);
        }
        std::process::exit(1);
    }
    if let Some(e) = agg.engine_error {
        eprintln!("engine error: {e}");
        std::process::exit(2);
    }
}

#[derive(Default)]
struct Agg {
    st: Stats,
    inner: u64,
    done: usize,
    closed: usize,
    bounded: usize,
    capped: usize,
    capped_names: Vec<String>,
    samples: Vec<String>,
    known: Vec<String>,
    viols: Vec<Viol>,
    engine_error: Option<String>,
    times: Vec<(u64, String)>,
}

const HANG_SECS: u64 = 60;

#[allow(clippy::too_many_arguments)]
fn worker_loop(
    w: usize,
    tier: Tier,
    shm_file: &str,
    next: &AtomicUsize,
    stop: &Arc<AtomicBool>,
    agg: &Mutex<Agg>,
    names: &[String],
    pids: &Mutex<BTreeMap<usize, u32>>,
    budget: Duration,
) {
    let shm = map_shm(shm_file);
    'spawn: loop {
        if stop.load(SeqCst) {
            return;
        }
        let mut c = Command::new(exe())
            .arg(if tier == Tier::Quick { "quick" } else { "thorough" })
            .arg("--worker")
            .arg(shm_file)
            .env("HV_BUDGET", budget.as_secs().max(1).to_string())
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .unwrap();
        pids.lock().unwrap().insert(w, c.id());
        let mut stdin = c.stdin.take().unwrap();
        let mut stdout = BufReader::new(c.stdout.take().unwrap());
        // watchdog
        let dead = Arc::new(AtomicBool::new(false));
        let hung = Arc::new(AtomicBool::new(false));
        let wd = {
            let (dead, hung, stop) = (dead.clone(), hung.clone(), stop.clone());
            let shm = shm as usize;
            let pid = c.id() as i32;
            std::thread::spawn(move || {
                let shm = shm as *mut Shm;
                let mut last = 0;
                let mut t = Instant::now();
                while !dead.load(SeqCst) {
                    std::thread::sleep(Duration::from_millis(10));
                    let n = unsafe { (*shm).counter.load(SeqCst) };
                    if n != last {
                        last = n;
                        t = Instant::now();
                    }
                    let h = t.elapsed() > Duration::from_secs(HANG_SECS);
                    if h || stop.load(SeqCst) {
                        hung.store(h && !stop.load(SeqCst), SeqCst);
                        unsafe { libc::kill(pid, libc::SIGKILL) };
                        return;
                    }
                }
            })
        };
        let finish = |c: &mut std::process::Child| {
            dead.store(true, SeqCst);
            let _ = c.kill();
            let _ = c.wait();
        };
        loop {
            let i = next.fetch_add(1, SeqCst);
            if i >= names.len() || stop.load(SeqCst) {
                finish(&mut c);
                let _ = wd.join();
                return;
            }
            unsafe {
                (*shm).task.store(u64::MAX, SeqCst);
                (*shm).counter.fetch_add(1, SeqCst);
            }
            if stdin.write_all(format!("{i}\n").as_bytes()).and_then(|_| stdin.flush()).is_err() {
                // worker gone before the task: treat as crash below
            }
            let mut stat: Option<Vec<u64>> = None;
            let mut samples = vec![];
            let mut known = vec![];
            let mut viol: Option<(Vec<u32>, String)> = None;
            let mut ended = false;
            let mut line = String::new();
            loop {
                line.clear();
                match stdout.read_line(&mut line) {
                    Ok(0) | Err(_) => break,
                    Ok(_) => {}
                }
                let l = line.trim_end();
                let f: Vec<&str> = l.split('\t').collect();
                match f[0] {
                    "STAT" => stat = Some(f[1..].iter().map(|x| x.parse().unwrap_or(0)).collect()),
                    "SAMPLE" => samples.push(f[1].to_string()),
                    "KNOWN" => known.push(f[1].to_string()),
                    "VIOL" => viol = Some((parse_path(f[1]), f[2].to_string())),
                    "END" => {
                        ended = true;
                        break;
                    }
                    _ => {}
                }
            }
            if stop.load(SeqCst) {
                finish(&mut c);
                let _ = wd.join();
                return;
            }
            if ended {
                let s = stat.unwrap_or_default();
                let mut g = agg.lock().unwrap();
                g.done += 1;
                if s.len() >= 8 {
                    g.st.cases += s[0];
                    g.st.states += s[1];
                    g.st.transitions += s[2];
                    g.st.nontrivial += s[3];
                    g.st.depth = g.st.depth.max(s[4]);
                    if s[5] != 0 {
                        g.capped += 1;
                        g.capped_names.push(names[i].clone());
                    } else if s[6] != 0 {
                        g.closed += 1;
                    } else {
                        g.bounded += 1;
                    }
                    if std::env::var("HV_VERBOSE").is_ok_and(|v| v == "2") {
                        println!("  states={} {}", s[1], names[i]);
                    }
                    g.times.push((s[7], names[i].clone()));
                    g.inner += s.get(8).copied().unwrap_or(0);
                }
                for x in samples {
                    g.samples.push(format!("{}: {}", names[i], x));
                }
                for k in known {
                    if !g.known.contains(&k) {
                        g.known.push(k);
                    }
                }
                drop(g);
                if let Some((p, m)) = viol {
                    // confirm in a fresh process
                    let r = rerun(tier, &["--case", &names[i], &path_str(&p)], Duration::from_secs(HANG_SECS));
                    let v = match r {
                        Some(m2) => Some(Viol { task: names[i].clone(), path: Some(p), msg: m2, desc: String::new() }),
                        None => {
                            // depends on what ran before it in the worker: confirm as a task
                            rerun(tier, &["--task", &names[i]], Duration::from_secs(600)).map(|m2| Viol {
                                task: names[i].clone(),
                                path: None,
                                msg: format!("{m} (only after the preceding cases of the task: {m2})"),
                                desc: format!("whole task {}", names[i]),
                            })
                        }
                    };
                    let mut g = agg.lock().unwrap();
                    match v {
                        Some(v) => g.viols.push(v),
                        None => {
                            g.engine_error = Some(format!("violation did not reproduce: {} {:?} {}", names[i], p_dbg(&m), m))
                        }
                    }
                    drop(g);
                    stop.store(true, SeqCst);
                    finish(&mut c);
                    let _ = wd.join();
                    return;
                }
                continue;
            }
            // worker died inside task i
            let was_hung = hung.load(SeqCst);
            finish(&mut c);
            let _ = wd.join();
            let (ti, path) = unsafe {
                let s = &*shm;
                let n = s.len.load(SeqCst) as usize;
                (s.task.load(SeqCst), s.path[..n].to_vec())
            };
            let mut v = None;
            if ti == i as u64 {
                if let Some(m) = rerun(tier, &["--case", &names[i], &path_str(&path)], Duration::from_secs(HANG_SECS)) {
                    v = Some(Viol { task: names[i].clone(), path: Some(path.clone()), msg: m, desc: String::new() });
                }
            }
            if v.is_none() {
                if let Some(m) = rerun(tier, &["--task", &names[i]], Duration::from_secs(600)) {
                    if m.starts_with("process died") || m.contains(" :: ") {
                        v = Some(Viol {
                            task: names[i].clone(),
                            path: None,
                            msg: format!("{m} (whole task)"),
                            desc: format!("whole task; last case {}", path_str(&path)),
                        });
                    }
                }
            }
            let mut g = agg.lock().unwrap();
            match v {
                Some(v) => {
                    g.viols.push(v);
                    drop(g);
                    stop.store(true, SeqCst);
                    return;
                }
                None => {
                    g.engine_error = Some(format!(
                        "worker {} in task {} at {} and it did not reproduce",
                        if was_hung { "hung" } else { "died" },
                        names[i],
                        path_str(&path)
                    ));
                    drop(g);
                    continue 'spawn;
                }
            }
        }
    }
}
fn p_dbg(s: &str) -> &str {
    s
}
