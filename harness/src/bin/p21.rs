//! P21: allocation failure never becomes memory corruption.
//!
//! In every reachable state of a container over a small key universe (breadth-first search), every
//! operation is run once per allocation it makes, in a forked process in which exactly that
//! allocation is refused. The process must end through the allocation-error path (or panic), or the
//! operation must succeed and leave the right contents. The same for making a container, for
//! materialising lazy trees over every operand contents, and for large populations.
use hibit_tree::const_utils::{ConstInteger, ConstUsize};
use hibit_tree::{intersection, map, multi_intersection, multi_map_fold, multi_union, union, DenseTree, LazyHibitTree};
use hv::arena::{self, tracked};
use hv::hist::*;
use hv::ops::*;
use hv::run::*;
use hv::sut::{dense_cfgs, sparse_all, sparse_default_all, Caps, Cfg, Dn, DynTree};
use hv::task::prod;
use hv::val::{Big, Own, TVal};
use hv::{ensure, fail};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

const CHECKS: u32 = C_GET | C_ITER | C_KV | C_ORDER | C_WALK;

/// Run `f` in a forked process in which the `n`-th allocation fails. Ok(hit): was there an n-th one.
fn child(n: usize, f: impl FnOnce() -> Result<(), String>) -> Result<bool, String> {
    unsafe {
        let mut fd = [0i32; 2];
        assert!(libc::pipe(fd.as_mut_ptr()) == 0);
        let pid = libc::fork();
        assert!(pid >= 0, "fork");
        if pid == 0 {
            libc::close(fd[0]);
            libc::dup2(fd[1], 2);
            libc::close(fd[1]);
            let z = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &z);
            libc::alarm(20);
            arena::arm_failure(n);
            let code = match catch_unwind(AssertUnwindSafe(f)) {
                Ok(Ok(())) => {
                    if arena::failure_hit() {
                        41
                    } else {
                        40
                    }
                }
                Ok(Err(e)) => {
                    eprintln!("{e}");
                    43
                }
                Err(_) if arena::failure_hit() => match arena::error() {
                    None => 42,
                    Some(e) => {
                        eprintln!("{e}");
                        43
                    }
                },
                Err(_) => {
                    eprintln!("panic without a failed allocation: {}", panic_msg());
                    43
                }
            };
            libc::_exit(code)
        }
        libc::close(fd[1]);
        let mut buf = [0u8; 2048];
        let mut len = 0;
        loop {
            let r = libc::read(fd[0], buf[len..].as_mut_ptr().cast(), buf.len() - len);
            if r > 0 {
                len += r as usize;
                if len < buf.len() {
                    continue;
                }
                // drain
                let mut junk = [0u8; 4096];
                while libc::read(fd[0], junk.as_mut_ptr().cast(), 4096) > 0 {}
            }
            break;
        }
        libc::close(fd[0]);
        let mut st = 0;
        assert!(libc::waitpid(pid, &mut st, 0) == pid);
        inner(1);
        let msg = String::from_utf8_lossy(&buf[..len]).replace('\n', " / ");
        if libc::WIFEXITED(st) {
            match libc::WEXITSTATUS(st) {
                40 => return Ok(false),
                41 | 42 => return Ok(true),
                43 => fail!("when allocation {n} is refused: {msg}"),
                c => fail!("when allocation {n} is refused, the process exits with {c}: {msg}"),
            }
        }
        let sig = libc::WTERMSIG(st);
        if sig == libc::SIGABRT && msg.contains("memory allocation of") && !msg.contains("unsafe precondition") {
            return Ok(true);
        }
        fail!("when allocation {n} is refused, the process is killed by signal {sig}: {msg}")
    }
}
/// Every allocation of `f` in turn. Number of allocations.
fn every(mut f: impl FnMut() -> Result<(), String>) -> Result<usize, String> {
    for n in 1..200 {
        if !child(n, &mut f)? {
            return Ok(n - 1);
        }
    }
    fail!("the operation never stops allocating")
}

#[derive(Clone, Copy)]
enum A {
    Op(Op),
    /// all the ways of reading
    Read,
    /// drop, then start anew
    Renew,
}
struct Fail {
    name: String,
    cfg: Cfg,
    caps: Caps,
    base: Vec<usize>,
    acts: Vec<A>,
    probes: Vec<usize>,
    depth: usize,
}
impl Fail {
    fn new(cfg: Cfg, tag: &str, keys: &[usize], base: Vec<usize>, depth: usize) -> Box<dyn Task> {
        let caps = hv::fam::caps_of(&cfg);
        let mut acts = vec![];
        for &k in keys {
            acts.push(A::Op(Op::Ins(k)));
            acts.push(A::Op(Op::Rem(k)));
        }
        for &k in keys {
            acts.push(A::Op(Op::Goi(k)));
        }
        acts.push(A::Op(Op::KvMut));
        acts.push(A::Read);
        acts.push(A::Renew);
        Box::new(Fail { name: format!("{}/{tag}", cfg.name), cfg, caps, base, acts, probes: probes(&caps, keys, 8), depth })
    }
    fn act(&self, w: &mut World, a: A) -> Result<(), String> {
        match a {
            A::Op(o) => w.apply(o),
            A::Read => w.verify(CHECKS, &self.probes),
            A::Renew => {
                w.drop_tree();
                *w = World::new(&self.cfg);
                Ok(())
            }
        }
    }
}
impl Task for Fail {
    fn name(&self) -> String {
        self.name.clone()
    }
    fn explore(&self, cx: &mut Cx) {
        cx.bfs(self, &[], self.acts.len() as u32, self.depth, 100_000)
    }
    fn run_case(&self, p: &[u32]) -> Result<Out, String> {
        let mut w = World::new(&self.cfg);
        for &k in &self.base {
            w.apply(Op::Ins(k))?;
        }
        let mut n = 0;
        if let Some((&last, head)) = p.split_last() {
            for &i in head {
                self.act(&mut w, self.acts[i as usize])?;
            }
            let a = self.acts[last as usize];
            n = every(|| {
                self.act(&mut w, a)?;
                arena::arm_failure(0);
                // it went on: the contents must be right, now and later
                w.verify(CHECKS, &self.probes)?;
                for &k in self.probes.iter().take(3) {
                    w.apply(Op::Ins(k))?;
                }
                w.verify(CHECKS, &self.probes)?;
                finish(&mut w, C_SCAN)
            })?;
            self.act(&mut w, a)?;
        }
        w.verify(CHECKS, &self.probes)?;
        let canon = w.canon();
        finish(&mut w, C_SCAN)?;
        Ok(Out { canon, nontrivial: n > 0 })
    }
    fn describe(&self, p: &[u32]) -> String {
        let mut s = self.cfg.name.to_string();
        if !self.base.is_empty() {
            s += &format!(" after {} inserts", self.base.len());
        }
        for (j, &i) in p.iter().enumerate() {
            s += "; ";
            s += &match self.acts[i as usize] {
                A::Op(o) => op_str(&self.caps, &o),
                A::Read => "reads".into(),
                A::Renew => "drop, new container".into(),
            };
            if j + 1 == p.len() {
                s += " (each of its allocations refused in turn)"
            }
        }
        s
    }
}

fn add(cfg: Cfg, ty: &str, n: usize, alphabets_max: usize, depth: usize, fills: &[usize], v: &mut Vec<Box<dyn Task>>) {
    let caps = hv::fam::caps_of(&cfg);
    for (name, keys) in alphabets(caps.width, caps.depth, n).into_iter().take(alphabets_max) {
        v.push(Fail::new(cfg, &format!("{ty}/{name}"), &keys, vec![], depth));
    }
    let w = caps.width;
    for &f in fills {
        for level in [caps.depth - 1, 0] {
            let st = hv::norm::stride(w, caps.depth, level);
            let mut keys: Vec<usize> = vec![((f + 1) % w).wrapping_mul(st), 1usize.wrapping_mul(st)];
            keys.dedup();
            let base: Vec<usize> = (1..f + 1).map(|i| i.wrapping_mul(st)).collect();
            if f + 1 > w || keys.iter().chain(&base).any(|k| *k >= caps.capacity()) {
                continue;
            }
            v.push(Fail::new(cfg, &format!("{ty}/filled{f}/level{level}"), &keys, base, 2));
            if caps.depth == 1 {
                break;
            }
        }
    }
    v.push(prod(
        format!("new/{}/{ty}", cfg.name),
        &[1],
        move |_| {
            let n = every(|| {
                let w = World::new(&cfg);
                arena::arm_failure(0);
                let mut w = w;
                w.verify(CHECKS, &[0])?;
                w.apply(Op::Ins(0))?;
                w.verify(CHECKS, &[0])?;
                finish(&mut w, C_SCAN)
            })?;
            Ok(Out { canon: n as u128, nontrivial: n > 0 })
        },
        move |_| format!("new {}, each allocation refused in turn", cfg.name),
    ));
}

fn mat<T: TVal, const D: usize>(what: &str, want: &R, u: &U, mk: impl Fn() -> DenseTree<T, D>) -> Result<usize, String>
where
    ConstUsize<D>: ConstInteger,
{
    every(|| {
        let tree = tracked(|| mk());
        arena::arm_failure(0);
        let tree = tracked(|| Box::new(Dn::<T, D>(tree)) as Box<dyn DynTree>);
        let mut model = BTreeMap::new();
        for i in 0..u.keys.len() {
            if let Some(x) = want.v[i] {
                model.insert(u.keys[i], x);
            }
        }
        let mut w = World::with(tree, model);
        w.verify(CHECKS, &u.absent)?;
        w.apply(Op::Ins(u.keys[0]))?;
        w.verify(CHECKS, &u.absent)?;
        finish(&mut w, C_SCAN)
    })
    .map_err(|e| format!("materialising {what}: {e}"))
}
macro_rules! mats {
    ($v:expr, $k:expr, $($l:ty, $d:literal);*) => {$(
        for u in universes(64, $d, $k) {
            over::<$l>("materialise", u.clone(), 2, |t, r, u| {
                let n = u.keys.len();
                let (w, i) = (r_union(&r[0], &r[1]), r_inter(&r[0], &r[1]));
                mat::<u64, $d>("map of union", &r_map(&w, 2), u, || map(union(t[0], t[1]), Tag(2)).materialize())?;
                mat::<Own, $d>("map of intersection", &r_map(&i, 2), u, || map(intersection(t[0], t[1]), OwnTag(2)).materialize())?;
                let s = [t[0], t[1], t[0]];
                let rs = [r[0], r[1], r[0]];
                mat::<u64, $d>("fold of multi_union", &r_fmu(n, &rs), u, || multi_map_fold(multi_union(s.into_iter()), Start, Acc).materialize())?;
                mat::<u64, $d>("fold of multi_intersection", &r_fmi(n, &rs), u, || multi_map_fold(multi_intersection(s.into_iter()), Start, Acc).materialize())?;
                Ok(w)
            }, $v);
        }
    )*};
}

fn tasks(tier: Tier) -> Vec<Box<dyn Task>> {
    let mut v: Vec<Box<dyn Task>> = vec![];
    let fills = [1usize, 2, 3, 4, 5, 6, 7, 8, 14, 15, 16, 30, 31, 32, 62, 63];
    for (i, cfg) in dense_cfgs::<u64>().into_iter().enumerate() {
        add(cfg, "u64", tier.q(3, 4), 9, tier.q(6, FIX), if i < 3 || tier == Tier::Thorough { &fills } else { &fills[..7] }, &mut v);
    }
    for cfg in sparse_all::<u64>() {
        let n = tier.q(if cfg.name.contains("64") { 3 } else { 2 }, 3);
        add(cfg, "u64", n, 9, tier.q(6, FIX), tier.q(&[1, 2, 6, 7, 14, 15, 30], &fills), &mut v);
    }
    for cfg in dense_cfgs::<Big>().into_iter().take(tier.q(2, 4)) {
        add(cfg, "big", 2, tier.q(1, 9), tier.q(6, FIX), &[3, 4], &mut v);
    }
    for cfg in sparse_default_all::<Big>().into_iter().filter(|c| ["/d2", "/d4"].iter().any(|d| c.name.ends_with(d))) {
        add(cfg, "big", 2, tier.q(1, 9), tier.q(4, FIX), &[6, 7], &mut v);
    }
    let k = tier.q(3, 4);
    mats!(&mut v, k, D1, 1; D2, 2; D3, 3; S3, 3);
    v
}
fn main() {
    hv::run::main(Check {
        id: "P21",
        level: "fault_enumeration",
        rule: "a case is one transition (state and operation) with every allocation of it refused in turn, each in a process of its own; non-trivial when it allocates, distinct by resulting state",
        assumptions: &["one allocation fails per run", "the process ends through the standard error path when it aborts with the standard message or unwinds"],
        tasks,
    })
}
