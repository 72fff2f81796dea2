//! Histories of container operations, executed against the real container and a BTreeMap.

use crate::arena::{self, tracked};
use crate::norm::{self, bits, Mode, Sink, MODES};
use crate::run::{Cx, Out, Task};
use crate::sut::{Caps, Cfg, DynTree};
use std::collections::BTreeMap;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Op {
    Ins(usize),
    Rem(usize),
    /// A look up is a transition too: whatever it leaves behind belongs to the state.
    Get(usize),
    /// get_or_insert, then store through the reference
    Goi(usize),
    GetMut(usize),
    GetMutUnchecked(usize),
    /// rewrite every value through key_values_mut
    KvMut,
}

pub const C_GET: u32 = 1; // get / get_unchecked on alphabet and probes
pub const C_ITER: u32 = 2; // content through iter
pub const C_KV: u32 = 4; // content through key_values
pub const C_ORDER: u32 = 8; // iteration order, exhaustion, partial iteration
pub const C_WALK: u32 = 16; // hierarchy masks exact + items through the cursor
pub const C_DROP: u32 = 32; // drop at the end: nothing leaked, values dropped once
pub const C_DEFAULT: u32 = 64; // get_or_default
pub const C_SCAN: u32 = 128; // red zones and poison after drop
pub const C_PURE: u32 = 256; // reads and failed removes leave the heap bytes alone
pub const C_RANGE: u32 = 512;
pub const C_FORMS: u32 = 1024; // every way of consuming an iteration

pub struct World {
    pub tree: Option<Box<dyn DynTree>>,
    pub caps: Caps,
    pub model: BTreeMap<usize, u64>,
    pub next: u64,
    image: Vec<u64>,
}

pub fn mask_id(caps: &Caps, id: u64) -> u64 {
    id & caps.id_mask
}

impl World {
    pub fn new(cfg: &Cfg) -> World {
        let tree = (cfg.mk)();
        let caps = tree.caps();
        let image = arena::image(tree.addr());
        World { tree: Some(tree), caps, model: BTreeMap::new(), next: 1, image }
    }
    /// A container that exists already, with its expected content.
    pub fn with(tree: Box<dyn DynTree>, model: BTreeMap<usize, u64>) -> World {
        let caps = tree.caps();
        World { tree: Some(tree), caps, model, next: 1, image: vec![] }
    }
    pub fn t(&mut self) -> &mut dyn DynTree {
        &mut **self.tree.as_mut().unwrap()
    }
    pub fn r(&self) -> &dyn DynTree {
        &**self.tree.as_ref().unwrap()
    }
    fn fresh_id(&mut self) -> u64 {
        let id = self.next & self.caps.id_mask;
        self.next += 1;
        id
    }

    pub fn apply(&mut self, op: Op) -> Result<(), String> {
        match op {
            Op::Ins(k) => {
                let id = self.fresh_id();
                self.t().insert(k, id);
                self.model.insert(k, id);
            }
            Op::Rem(k) => {
                let r = self.t().remove(k);
                let e = self.model.remove(&k);
                ensure!(r == e, "remove({k}) returned {r:?}, expected {e:?}");
            }
            Op::Get(k) => {
                let (r, e) = (self.r().get(k), self.model.get(&k).copied());
                ensure!(r == e, "get({k}) = {r:?}, expected {e:?}");
                if let Some(e) = e {
                    let r = unsafe { self.r().get_unchecked(k) };
                    ensure!(r == e, "get_unchecked({k}) = {r}, expected {e}");
                }
            }
            Op::Goi(k) => {
                let id = self.fresh_id();
                let seen = self.t().get_or_insert(k, id);
                let e = self.model.insert(k, id).unwrap_or(0);
                ensure!(seen == e, "get_or_insert({k}) gave value {seen}, expected {e}");
            }
            Op::GetMut(k) => {
                let id = self.fresh_id();
                let seen = self.t().get_mut(k, id, false);
                let e = self.model.get(&k).copied();
                if e.is_some() {
                    self.model.insert(k, id);
                }
                ensure!(seen == e, "get_mut({k}) gave {seen:?}, expected {e:?}");
            }
            Op::GetMutUnchecked(k) => {
                if let Some(e) = self.model.get(&k).copied() {
                    let id = self.fresh_id();
                    let seen = self.t().get_mut(k, id, true);
                    self.model.insert(k, id);
                    ensure!(seen == Some(e), "get_mut_unchecked({k}) gave {seen:?}, expected {e}");
                }
            }
            Op::KvMut => {
                let base = self.next;
                let mask = self.caps.id_mask;
                let mut n = 0;
                let mut new: Vec<(usize, u64, u64)> = vec![];
                let (keys, vals) = self.t().kv_mut(&mut |k, old| {
                    n += 1;
                    let id = (base + n) & mask;
                    new.push((k, old, id));
                    Some(id)
                });
                self.next += n + 1;
                ensure!(
                    keys.len() == vals && vals == self.model.len(),
                    "key_values_mut has {} keys and {} values, expected {}",
                    keys.len(),
                    vals,
                    self.model.len()
                );
                for (k, old, id) in new {
                    match self.model.get_mut(&k) {
                        Some(e) if *e == old => *e = id,
                        e => fail!("key_values_mut pairs key {k} with value {old}, expected {e:?}"),
                    }
                }
            }
        }
        Ok(())
    }

    pub fn verify(&mut self, checks: u32, probes: &[usize]) -> Result<(), String> {
        let caps = self.caps;
        let before = if checks & C_PURE != 0 { arena::raw_hash() } else { 0 };
        let model = &self.model;
        let t: &dyn DynTree = &**self.tree.as_ref().unwrap();
        if checks & C_GET != 0 {
            for (&k, &id) in model {
                let g = t.get(k);
                ensure!(g == Some(id), "get({k}) = {g:?}, expected Some({id})");
                let g = unsafe { t.get_unchecked(k) };
                ensure!(g == id, "get_unchecked({k}) = {g}, expected {id}");
            }
            for &k in probes {
                if !model.contains_key(&k) {
                    let g = t.get(k);
                    ensure!(g.is_none(), "get({k}) = {g:?}, expected None");
                }
            }
        }
        if checks & C_ITER != 0 {
            let (v, _) = t.iter(model.len() + 8);
            let ok = v.len() == model.len() && v.iter().all(|(k, id)| model.get(k) == Some(id)) && {
                let mut ks: Vec<usize> = v.iter().map(|x| x.0).collect();
                ks.sort_unstable();
                ks.dedup();
                ks.len() == v.len()
            };
            ensure!(ok, "iter() yields {}, expected {}", short(&v), short_m(model));
        }
        if checks & C_ORDER != 0 {
            for lend in [false, true] {
                let (v, nones) = if lend { t.iter_lending(model.len() + 8) } else { t.iter(model.len() + 8) };
                let ok = v.len() == model.len() && v.iter().zip(model.iter()).all(|(a, b)| a.0 == *b.0 && a.1 == *b.1);
                ensure!(
                    ok,
                    "iteration (lending={lend}) yields {}, expected ascending {}",
                    short(&v),
                    short_m(model)
                );
                ensure!(nones == 3, "exhausted iterator yields again (lending={lend})");
            }
        }
        if checks & C_FORMS != 0 {
            let want: Vec<(usize, u64)> = model.iter().map(|(k, v)| (*k, *v)).collect();
            t.iter_forms(&want)?;
        }
        if checks & C_KV != 0 {
            let (k, v) = t.kv();
            ensure!(
                k.len() == v.len() && k.len() == model.len(),
                "key_values has {} keys / {} values, expected {}",
                k.len(),
                v.len(),
                model.len()
            );
            let mut seen = std::collections::BTreeSet::new();
            for (k, v) in k.iter().zip(v.iter()) {
                ensure!(
                    seen.insert(*k) && model.get(k) == Some(v),
                    "key_values pairs key {k} with {v}, expected {:?}",
                    model.get(k)
                );
            }
        }
        if checks & C_WALK != 0 {
            for mode in MODES {
                check_walk(t, &caps, model, mode)?;
            }
        }
        if checks & C_DEFAULT != 0 && caps.get_or_default {
            for (&k, &id) in model {
                let g = t.get_or_default(k);
                ensure!(g == id, "get_or_default({k}) = {g}, expected {id}");
            }
            for &k in probes {
                if !model.contains_key(&k) {
                    let g = t.get_or_default(k);
                    ensure!(g == 0, "get_or_default({k}) = {g}, expected the default value");
                }
            }
        }
        if checks & C_PURE != 0 {
            for n in 0..model.len().min(4) {
                t.iter_partial(n);
            }
            ensure!(arena::raw_hash() == before, "a read operation modified the container's memory");
            for &k in probes {
                if !self.model.contains_key(&k) {
                    let r = self.t().remove(k);
                    ensure!(r.is_none(), "remove({k}) of an absent key returned {r:?}");
                    ensure!(arena::raw_hash() == before, "remove({k}) of an absent key modified the container");
                    if caps.get_mut {
                        let r = self.t().get_mut(k, 1, false);
                        ensure!(r.is_none(), "get_mut({k}) of an absent key gave {r:?}");
                        ensure!(arena::raw_hash() == before, "get_mut({k}) of an absent key modified the container");
                    }
                }
            }
            // looking without writing, through the mutable accesses
            let all: Vec<(usize, u64)> = self.model.iter().map(|(k, v)| (*k, *v)).collect();
            if caps.get_mut {
                for (k, id) in all {
                    let r = self.t().get_mut(k, id, false);
                    ensure!(r == Some(id), "get_mut({k}) gave {r:?}, expected Some({id})");
                }
            }
            self.t().kv_mut(&mut |_, _| None);
            ensure!(arena::raw_hash() == before, "get_mut or key_values_mut modified the container");
        }
        Ok(())
    }

    /// Canonical form of the container's heap with values masked out.
    pub fn canon(&self) -> u128 {
        let t = self.r();
        let m = t.masks();
        arena::canon(t.addr(), &m, &self.image)
    }

    pub fn drop_tree(&mut self) {
        let t = self.tree.take();
        tracked(|| drop(t));
    }
}

fn short(v: &[(usize, u64)]) -> String {
    if v.len() <= 12 {
        format!("{v:?}")
    } else {
        format!("{} items {:?}..", v.len(), &v[..12])
    }
}
fn short_m(m: &BTreeMap<usize, u64>) -> String {
    short(&m.iter().map(|(a, b)| (*a, *b)).collect::<Vec<_>>())
}

/// Exact hierarchy: a node exists iff it has a key below, a bit is set iff its child exists, and
/// the cursor yields exactly the stored items.
pub fn check_walk(t: &dyn DynTree, caps: &Caps, model: &BTreeMap<usize, u64>, mode: Mode) -> Result<(), String> {
    struct S<'a> {
        caps: &'a Caps,
        model: &'a BTreeMap<usize, u64>,
        err: Option<String>,
        items: usize,
        last: Option<usize>,
    }
    impl Sink for S<'_> {
        fn node(&mut self, level: usize, start: usize, mask: &[u64; 4]) {
            if self.err.is_some() {
                return;
            }
            let below = if level == 0 {
                self.model.range(..)
            } else {
                let up = norm::stride(self.caps.width, self.caps.depth, level - 1);
                self.model.range(start..=start + (up - 1))
            };
            let e = expect_mask(self.caps.width, self.caps.depth, below.map(|x| *x.0), level, start);
            if e != *mask {
                self.err = Some(format!(
                    "mask of the level {level} node at key {start} is {:?}, expected {:?}",
                    bits(mask).collect::<Vec<_>>(),
                    bits(&e).collect::<Vec<_>>()
                ));
            }
        }
        fn item(&mut self, key: usize, tok: Option<u64>) {
            if self.err.is_some() {
                return;
            }
            self.items += 1;
            if self.model.get(&key).copied() != tok || tok.is_none() {
                self.err = Some(format!("cursor at key {key} gives {tok:?}, expected {:?}", self.model.get(&key)));
            }
            if self.last >= Some(key) {
                self.err = Some(format!("cursor visits key {key} after {:?}", self.last));
            }
            self.last = Some(key);
        }
    }
    let mut s = S { caps, model, err: None, items: 0, last: None };
    t.walk(mode, &mut s);
    if let Some(e) = s.err {
        fail!("{e} ({mode:?})");
    }
    ensure!(s.items == model.len(), "cursor visits {} items, expected {} ({mode:?})", s.items, model.len());
    Ok(())
}

/// Children of the node at (`level`, first key `start`) that have keys below.
pub fn expect_mask(width: usize, depth: usize, keys: impl Iterator<Item = usize>, level: usize, start: usize) -> [u64; 4] {
    let mut e = [0u64; 4];
    let st = norm::stride(width, depth, level);
    for k in keys {
        // same node: all digits above `level` agree
        let same = level == 0 || {
            let up = norm::stride(width, depth, level - 1);
            k / up == start / up
        };
        if same {
            let d = (k / st) % width;
            e[d / 64] |= 1 << (d % 64);
        }
    }
    e
}

/// Keys near the alphabet that must stay absent.
pub fn probes(caps: &Caps, keys: &[usize], max: usize) -> Vec<usize> {
    let c = caps.capacity();
    let mut v: Vec<usize> = keys.to_vec();
    for &k in keys {
        for l in (0..caps.depth).rev() {
            let st = norm::stride(caps.width, caps.depth, l);
            let d = (k / st) % caps.width;
            let base = k - d * st;
            for nd in [(d + 1) % caps.width, (d + caps.width - 1) % caps.width, 0, caps.width - 1] {
                if let Some(p) = nd.checked_mul(st).and_then(|x| base.checked_add(x)) {
                    if p < c {
                        v.push(p)
                    }
                }
            }
        }
    }
    let nk = keys.len();
    let mut out: Vec<usize> = v[..nk].to_vec();
    let mut rest: Vec<usize> = v[nk..].to_vec();
    rest.sort_unstable();
    rest.dedup();
    rest.retain(|k| !out.contains(k));
    if rest.len() > max {
        let step = rest.len() / max + 1;
        rest = rest.into_iter().step_by(step).collect();
    }
    out.extend(rest);
    out
}

pub fn key_str(caps: &Caps, k: usize) -> String {
    let d: Vec<String> =
        (0..caps.depth).map(|l| norm::digit(caps.width, caps.depth, l, k).to_string()).collect();
    format!("{k}[{}]", d.join("."))
}

// ----------------------------------------------------------------- BFS task

pub struct Hist {
    pub name: String,
    pub cfg: Cfg,
    pub base: Vec<Op>,
    pub ops: Vec<Op>,
    pub probes: Vec<usize>,
    pub checks: u32,
    pub depth: usize,
    pub max_states: usize,
}
pub const FIX: usize = 1_000_000;

impl Hist {
    pub fn new(name: String, cfg: Cfg, keys: &[usize], checks: u32) -> Hist {
        arena::reset();
        let caps = {
            let t = (cfg.mk)();
            let c = t.caps();
            tracked(|| drop(t));
            c
        };
        arena::reset();
        let mut ops = vec![];
        for &k in keys {
            ops.push(Op::Ins(k));
            ops.push(Op::Rem(k));
        }
        for &k in keys {
            ops.push(Op::Goi(k));
        }
        if caps.get_mut {
            for &k in keys {
                ops.push(Op::GetMut(k));
            }
            if let Some(&k) = keys.last() {
                ops.push(Op::GetMutUnchecked(k));
            }
        }
        ops.push(Op::KvMut);
        for &k in keys {
            ops.push(Op::Get(k));
        }
        Hist { name, cfg, base: vec![], ops, probes: probes(&caps, keys, 24), checks, depth: FIX, max_states: 4_000_000 }
    }
    pub fn base(mut self, keys: impl IntoIterator<Item = usize>) -> Hist {
        self.base = keys.into_iter().map(Op::Ins).collect();
        self
    }
    pub fn depth(mut self, d: usize) -> Hist {
        self.depth = d;
        self
    }
    pub fn max(mut self, d: usize) -> Hist {
        self.max_states = d;
        self
    }
    pub fn only_ins_rem(mut self) -> Hist {
        self.ops.retain(|o| matches!(o, Op::Ins(_) | Op::Rem(_)));
        self
    }
    pub fn boxed(self) -> Box<dyn Task> {
        Box::new(self)
    }
}
impl Task for Hist {
    fn name(&self) -> String {
        self.name.clone()
    }
    fn explore(&self, cx: &mut Cx) {
        cx.bfs(self, &[], self.ops.len() as u32, self.depth, self.max_states)
    }
    fn run_case(&self, p: &[u32]) -> Result<Out, String> {
        let mut w = World::new(&self.cfg);
        for &o in &self.base {
            w.apply(o)?;
        }
        for &i in p {
            w.apply(self.ops[i as usize])?;
        }
        let canon = w.canon();
        // after a look up: the state is the one before, which has been verified, or it is a new one
        // and its successors are
        if !matches!(p.last(), Some(&i) if matches!(self.ops[i as usize], Op::Get(_))) {
            w.verify(self.checks, &self.probes)?;
        }
        let nontrivial = !w.model.is_empty();
        finish(&mut w, self.checks)?;
        Ok(Out { canon, nontrivial })
    }
    fn describe(&self, p: &[u32]) -> String {
        let caps = (self.cfg.mk)().caps();
        let f = |o: &Op| op_str(&caps, o);
        let mut s = self.cfg.name.to_string();
        if !self.base.is_empty() {
            s += &format!(" after {} inserts", self.base.len());
        }
        for &i in p {
            s += "; ";
            s += &f(&self.ops[i as usize]);
        }
        s
    }
}

pub fn op_str(caps: &Caps, o: &Op) -> String {
    match o {
        Op::Ins(k) => format!("insert {}", key_str(caps, *k)),
        Op::Rem(k) => format!("remove {}", key_str(caps, *k)),
        Op::Goi(k) => format!("get_or_insert {}", key_str(caps, *k)),
        Op::Get(k) => format!("get {}", key_str(caps, *k)),
        Op::GetMut(k) => format!("get_mut {}", key_str(caps, *k)),
        Op::GetMutUnchecked(k) => format!("get_mut_unchecked {}", key_str(caps, *k)),
        Op::KvMut => "key_values_mut".to_string(),
    }
}

/// Drop the container and account for everything.
pub fn finish(w: &mut World, checks: u32) -> Result<(), String> {
    w.drop_tree();
    if checks & C_DROP != 0 {
        ensure!(crate::val::live() == 0, "{} values leaked or over-dropped", crate::val::live());
        ensure!(crate::val::zst_live() == 0, "zero sized values: {} drops missing", crate::val::zst_live());
        if let Some(l) = arena::leaks() {
            fail!("{l}");
        }
    }
    if checks & C_SCAN != 0 {
        if let Some(e) = arena::scan() {
            fail!("{e}");
        }
    }
    Ok(())
}

/// Standard key alphabets for a shape, most telling keys first; `n` keys are taken.
pub fn alphabets(width: usize, depth: usize, n: usize) -> Vec<(&'static str, Vec<usize>)> {
    let w = width;
    let c = width.saturating_pow(depth as u32);
    let last = c - 1;
    let st = |l: usize| norm::stride(w, depth, l);
    let mut v: Vec<(&'static str, Vec<usize>)> = vec![];
    if depth == 1 {
        v.push(("low", (0..16).collect()));
        v.push(("edge", vec![0, w - 1, 31, 32, w / 2, w - 2, 1, 33, 30]));
        v.push(("words", vec![0, w - 1, 63, w / 2 - 1, w / 2, 3 * w / 4, 1, w / 4, w - 33]));
    } else {
        // terminal neighbours, next terminal, last key
        v.push(("mix", vec![0, w, last, 1, w - 1, last - 1, 2 * w, 2, 3 * w + 7, 5]));
        // sibling terminals under one parent
        v.push(("terminals", vec![0, w, 2 * w, 3 * w, 5 * w + 1, 4 * w, (w - 1) * w, 6 * w, 7 * w + 63]));
        // one key per root child
        let r = st(0);
        let m = |a: usize, b: usize| r.wrapping_mul(a).wrapping_add(b);
        v.push(("branches", vec![0, r, m(w / 2, 1), m(w - 1, 0), m(2, 0), m(3, 3), m(w - 2, 63), m(5, 0), m(7, 1)]));
        // neighbours at each level
        let mut k: Vec<usize> = vec![0, last - 1];
        for l in 0..depth {
            k.push(st(l));
        }
        for l in (0..depth).rev() {
            k.push(st(l).wrapping_mul(w - 1));
        }
        v.push(("ladder", k));
        // terminal node growth
        v.push(("terminal", (3..20).collect()));
        if depth >= 3 {
            // middle nodes with several terminals each
            let m = st(depth - 3);
            v.push(("grid", vec![0, w, m, m + w, m + w + 1, 2 * m, 2 * m + 1, m + 5, 3 * m + 3 * w]));
            // the deepest level reached through different root children
            let r = st(0);
            v.push(("deep", vec![0, r, st(1), r + st(1), r + 1, st(1) + 1, 2 * r, 2 * r + st(1), 1]));
        }
    }
    for (_, k) in &mut v {
        let mut out: Vec<usize> = vec![];
        for &x in k.iter() {
            // width_256 depth_8: usize::MAX is not a valid key
            if x < c && !out.contains(&x) {
                out.push(x);
            }
        }
        out.truncate(n);
        *k = out;
    }
    v
}
