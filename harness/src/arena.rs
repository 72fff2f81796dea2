//! Deterministic tracking allocator.
//!
//! While tracking is on, every allocation goes to a bump arena at a fixed address that never
//! reuses memory inside one case. That gives us, for the real implementation:
//!  * a memory-safety monitor (layout mismatch, double free, red zone damage, write after free,
//!    use of uninitialised memory made visible by poison, leaks);
//!  * deterministic addresses (a case is a pure function of its path);
//!  * a canonical form of the reachable heap, independent of field names and private types.

use std::alloc::{GlobalAlloc, Layout, System};
use std::ptr::{self, addr_of, addr_of_mut};

pub struct Arena;

const REGION: usize = 16 << 30;
const HINT: usize = 0x5a00_0000_0000;
const RZ: usize = 32;
const HDR: usize = 32;
const MAGIC: u64 = 0x9e37_5afe_a11c_0de5;
const CANARY: u8 = 0xFD;
const FRESH: u8 = 0xA5;
const DEAD: u8 = 0xDD;
const MAX_ALLOCS: usize = 12 << 20;
/// exit code: a case needs more memory than the arena has (the harness's limit, not the crate's fault)
pub const EXHAUSTED: i32 = 97;

#[repr(C)]
struct Hdr {
    magic: u64,
    idx: u64,
    size: u64,
    align: u64,
}

#[derive(Clone, Copy)]
pub struct Entry {
    pub ptr: usize,
    pub size: usize,
    pub align: usize,
    pub live: bool,
    pub owner: u8,
}

struct St {
    base: usize,
    bump: usize,
    table: *mut Entry,
    n: usize,
    tracking: bool,
    live_n: usize,
    live_bytes: usize,
    total_allocs: usize,
    total_bytes: usize,
    peak_bytes: usize,
    owner: u8,
    fail_at: usize, // 0 = never, else fail the n-th tracked allocation since arm
    fail_hit: bool,
    err: Option<&'static str>,
    err_at: usize,
}

static mut S: St = St {
    base: 0,
    bump: 0,
    table: ptr::null_mut(),
    n: 0,
    tracking: false,
    live_n: 0,
    live_bytes: 0,
    total_allocs: 0,
    total_bytes: 0,
    peak_bytes: 0,
    owner: 0,
    fail_at: 0,
    fail_hit: false,
    err: None,
    err_at: 0,
};

#[inline(always)]
fn s() -> &'static mut St {
    unsafe { &mut *addr_of_mut!(S) }
}

fn init() {
    let st = s();
    if st.base != 0 {
        return;
    }
    unsafe {
        let flags = libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE;
        let mut p = libc::mmap(
            HINT as *mut _,
            REGION,
            libc::PROT_READ | libc::PROT_WRITE,
            flags | libc::MAP_FIXED_NOREPLACE,
            -1,
            0,
        );
        if p == libc::MAP_FAILED || p as usize != HINT {
            p = libc::mmap(ptr::null_mut(), REGION, libc::PROT_READ | libc::PROT_WRITE, flags, -1, 0);
        }
        if p == libc::MAP_FAILED {
            libc::abort();
        }
        st.base = p as usize;
        st.bump = st.base;
        let t = libc::mmap(
            ptr::null_mut(),
            MAX_ALLOCS * std::mem::size_of::<Entry>(),
            libc::PROT_READ | libc::PROT_WRITE,
            flags,
            -1,
            0,
        );
        if t == libc::MAP_FAILED {
            libc::abort();
        }
        st.table = t.cast();
    }
}

#[inline(always)]
fn in_arena(p: usize) -> bool {
    let st = s();
    p >= st.base && p < st.base + REGION && st.base != 0
}

fn report(e: &'static str, at: usize) {
    let st = s();
    if st.err.is_none() {
        st.err = Some(e);
        st.err_at = at.wrapping_sub(st.base);
    }
}

unsafe fn arena_alloc(layout: Layout) -> *mut u8 {
    let st = s();
    st.total_allocs += 1;
    if st.fail_at != 0 {
        st.fail_at -= 1;
        if st.fail_at == 0 {
            st.fail_hit = true;
            return ptr::null_mut();
        }
    }
    let align = layout.align().max(16);
    let body = (st.bump + HDR + RZ + align - 1) & !(align - 1);
    let end = body + layout.size() + RZ;
    // no family holds a tenth of this: growth without bound
    if st.live_bytes + layout.size() > 2 << 30 {
        return ptr::null_mut();
    }
    if end + 64 > st.base + REGION || st.n + 1 >= MAX_ALLOCS {
        let m = b"harness: arena exhausted\n";
        libc::write(2, m.as_ptr().cast(), m.len());
        libc::_exit(EXHAUSTED);
    }
    let hdr = (body - RZ - HDR) as *mut Hdr;
    hdr.write(Hdr { magic: MAGIC, idx: st.n as u64, size: layout.size() as u64, align: layout.align() as u64 });
    ptr::write_bytes((body - RZ) as *mut u8, CANARY, RZ);
    ptr::write_bytes(body as *mut u8, FRESH, layout.size());
    ptr::write_bytes((body + layout.size()) as *mut u8, CANARY, RZ);
    *st.table.add(st.n) = Entry { ptr: body, size: layout.size(), align: layout.align(), live: true, owner: st.owner };
    st.n += 1;
    st.live_n += 1;
    st.live_bytes += layout.size();
    st.total_bytes += layout.size();
    st.peak_bytes = st.peak_bytes.max(st.live_bytes);
    st.bump = (end + 15) & !15;
    body as *mut u8
}

unsafe fn find(p: usize) -> Option<usize> {
    // start pointer -> table index
    let st = s();
    if p < st.base + HDR + RZ || p >= st.bump || p & 15 != 0 {
        return None;
    }
    let h = &*((p - RZ - HDR) as *const Hdr);
    if h.magic == MAGIC && (h.idx as usize) < st.n && (*st.table.add(h.idx as usize)).ptr == p {
        Some(h.idx as usize)
    } else {
        None
    }
}

unsafe fn find_interior(p: usize) -> Option<usize> {
    let st = s();
    let (mut lo, mut hi) = (0usize, st.n);
    while lo < hi {
        let m = (lo + hi) / 2;
        if (*st.table.add(m)).ptr <= p {
            lo = m + 1
        } else {
            hi = m
        }
    }
    if lo == 0 {
        return None;
    }
    let e = &*st.table.add(lo - 1);
    if p >= e.ptr && p <= e.ptr + e.size {
        Some(lo - 1)
    } else {
        None
    }
}

unsafe fn filled(p: usize, n: usize, b: u8) -> bool {
    let sl = std::slice::from_raw_parts(p as *const u8, n);
    let pat = u64::from_ne_bytes([b; 8]);
    let (a, m, z) = sl.align_to::<u64>();
    a.iter().all(|x| *x == b) && m.iter().all(|x| *x == pat) && z.iter().all(|x| *x == b)
}

unsafe fn canaries_ok(e: &Entry) -> bool {
    filled(e.ptr - RZ, RZ, CANARY) && filled(e.ptr + e.size, RZ, CANARY)
}

unsafe fn arena_dealloc(p: usize, layout: Layout) {
    let st = s();
    match find(p) {
        None => report("dealloc of a pointer that was never returned by the allocator", p),
        Some(i) => {
            let e = &mut *st.table.add(i);
            if !e.live {
                report("double free", p);
                return;
            }
            if e.size != layout.size() || e.align != layout.align() {
                report("dealloc with a layout different from the allocation's", p);
            }
            if !canaries_ok(e) {
                report("out of bounds write (red zone damaged)", p);
            }
            e.live = false;
            st.live_n -= 1;
            st.live_bytes -= e.size;
            ptr::write_bytes(p as *mut u8, DEAD, e.size);
        }
    }
}

/// The allocator's work does not count (see step.rs).
struct Unstepped(bool);
impl Unstepped {
    #[inline(always)]
    fn new() -> Self {
        Unstepped(crate::step::pause())
    }
}
impl Drop for Unstepped {
    #[inline(always)]
    fn drop(&mut self) {
        crate::step::resume(self.0)
    }
}

unsafe impl GlobalAlloc for Arena {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        let _step = Unstepped::new();
        if s().tracking {
            arena_alloc(layout)
        } else {
            System.alloc(layout)
        }
    }
    unsafe fn alloc_zeroed(&self, layout: Layout) -> *mut u8 {
        let _step = Unstepped::new();
        if s().tracking {
            let p = arena_alloc(layout);
            if !p.is_null() {
                ptr::write_bytes(p, 0, layout.size());
            }
            p
        } else {
            System.alloc_zeroed(layout)
        }
    }
    unsafe fn dealloc(&self, p: *mut u8, layout: Layout) {
        let _step = Unstepped::new();
        if in_arena(p as usize) {
            arena_dealloc(p as usize, layout)
        } else {
            System.dealloc(p, layout)
        }
    }
    unsafe fn realloc(&self, p: *mut u8, layout: Layout, new: usize) -> *mut u8 {
        let _step = Unstepped::new();
        if in_arena(p as usize) {
            let nl = Layout::from_size_align_unchecked(new, layout.align());
            match find(p as usize) {
                Some(i) if (*s().table.add(i)).live => {}
                _ => {
                    report("realloc of a pointer that is not a live allocation", p as usize);
                    return arena_alloc(nl);
                }
            }
            let q = arena_alloc(nl);
            if q.is_null() {
                return q;
            }
            ptr::copy_nonoverlapping(p, q, layout.size().min(new));
            arena_dealloc(p as usize, layout);
            q
        } else {
            System.realloc(p, layout, new)
        }
    }
}

/// Run `f` (code under test) with tracking on. Unwinding restores the flag.
#[inline(always)]
pub fn tracked<R>(f: impl FnOnce() -> R) -> R {
    struct G(bool);
    impl Drop for G {
        fn drop(&mut self) {
            s().tracking = self.0
        }
    }
    let _g = G(s().tracking);
    if s().base == 0 {
        init();
    }
    s().tracking = true;
    f()
}
/// Run `f` (harness code called back from the code under test) with tracking off.
#[inline(always)]
pub fn untracked<R>(f: impl FnOnce() -> R) -> R {
    struct G(bool);
    impl Drop for G {
        fn drop(&mut self) {
            s().tracking = self.0
        }
    }
    let _g = G(s().tracking);
    s().tracking = false;
    f()
}

/// Forget everything; start of a case.
pub fn reset() {
    init();
    let st = s();
    let used = st.bump - st.base;
    if used > (8 << 20) {
        unsafe {
            libc::madvise(st.base as *mut _, used, libc::MADV_DONTNEED);
        }
    } else {
        // erase headers so that stale magics cannot be found
        for i in 0..st.n {
            unsafe {
                let e = &*st.table.add(i);
                ((e.ptr - RZ - HDR) as *mut u64).write(0);
            }
        }
    }
    st.bump = st.base;
    st.n = 0;
    st.live_n = 0;
    st.live_bytes = 0;
    st.total_allocs = 0;
    st.total_bytes = 0;
    st.peak_bytes = 0;
    st.fail_at = 0;
    st.fail_hit = false;
    st.err = None;
    st.tracking = false;
    st.owner = 0;
}

pub fn live_count() -> usize {
    s().live_n
}
pub fn live_bytes() -> usize {
    s().live_bytes
}
pub fn total_allocs() -> usize {
    s().total_allocs
}
/// Bytes ever handed out, and the most that were in use at once.
pub fn traffic() -> (usize, usize) {
    (s().total_bytes, s().peak_bytes)
}
pub fn arm_failure(n: usize) {
    s().fail_at = n
}
pub fn failure_hit() -> bool {
    s().fail_hit
}

/// Error seen so far (cheap: no scan).
pub fn error() -> Option<String> {
    let st = s();
    st.err.map(|e| format!("memory error: {e} (arena offset {:#x})", st.err_at))
}

/// Full scan: red zones of everything, poison of freed blocks.
pub fn scan() -> Option<String> {
    if let Some(e) = error() {
        return Some(e);
    }
    let st = s();
    unsafe {
        for i in 0..st.n {
            let e = &*st.table.add(i);
            if !canaries_ok(e) {
                return Some(format!("memory error: red zone of allocation #{i} ({} bytes) damaged", e.size));
            }
            if !e.live && !filled(e.ptr, e.size, DEAD) {
                return Some(format!("memory error: freed allocation #{i} ({} bytes) written after free", e.size));
            }
        }
    }
    None
}

/// Leak report.
pub fn leaks() -> Option<String> {
    let st = s();
    if st.live_n == 0 {
        None
    } else {
        let mut v = vec![];
        unsafe {
            for i in 0..st.n {
                let e = &*st.table.add(i);
                if e.live && v.len() < 4 {
                    v.push(format!("#{i}:{}B", e.size));
                }
            }
        }
        Some(format!("leak: {} allocations / {} bytes still live ({})", st.live_n, st.live_bytes, v.join(" ")))
    }
}

// ---------------------------------------------------------------- hashing / canonical form

#[derive(Clone, Copy)]
pub struct H(pub u64, pub u64);
impl Default for H {
    fn default() -> Self {
        H(0x243f6a8885a308d3, 0x13198a2e03707344)
    }
}
/// Debug aid: the words fed to the canonical hash.
pub static mut TRACE: Option<Vec<u64>> = None;
#[inline(always)]
fn hw(h: &mut H, x: u64) {
    #[cfg(feature = "trace")]
    #[allow(static_mut_refs)]
    unsafe {
        if let Some(t) = &mut TRACE {
            untracked(|| t.push(x))
        }
    }
    h.w(x)
}
impl H {
    #[inline(always)]
    pub fn w(&mut self, x: u64) {
        self.0 = (self.0 ^ x).wrapping_mul(0x9E3779B97F4A7C15).rotate_left(29) ^ (self.0 >> 31);
        self.1 = (self.1.wrapping_add(x ^ 0xD6E8FEB86659FD93)).wrapping_mul(0xC2B2AE3D27D4EB4F).rotate_left(33)
            ^ (self.1 >> 27);
    }
    pub fn fin(mut self) -> u128 {
        self.w(0x5555);
        self.w(0xAAAA);
        ((self.0 as u128) << 64) | self.1 as u128
    }
}

/// Words of the live allocation at `root`, followed by as many flags: 1 for a word that looks like an
/// address of the arena but points at nothing that exists now (padding with stack garbage).
pub fn image(root: usize) -> Vec<u64> {
    untracked(|| unsafe {
        match find(root) {
            Some(r) => {
                let st = s();
                let e = *st.table.add(r);
                let w: Vec<u64> = (0..e.size / 8).map(|i| *((e.ptr + i * 8) as *const u64)).collect();
                let junk = w.iter().map(|x| {
                    let x = *x as usize;
                    let live = x >= st.base && find(x).or_else(|| find_interior(x)).is_some_and(|t| (*st.table.add(t)).live);
                    (in_arena(x) && !live) as u64
                });
                w.iter().copied().chain(junk).collect()
            }
            None => vec![],
        }
    })
}

/// Raw content of every live allocation (used for "reads leave no trace").
pub fn raw_hash() -> u128 {
    let st = s();
    let mut h = H::default();
    unsafe {
        for i in 0..st.n {
            let e = &*st.table.add(i);
            if e.live {
                hw(&mut h, e.ptr as u64);
                hash_bytes(&mut h, e.ptr, e.size);
            }
        }
    }
    h.fin()
}

/// Allocations made from now on belong to `o` (until the next case).
pub fn set_owner(o: u8) {
    s().owner = o
}
/// Raw content of every live allocation that belongs to `o`.
pub fn raw_owner(o: u8) -> u128 {
    let st = s();
    let mut h = H::default();
    unsafe {
        for i in 0..st.n {
            let e = &*st.table.add(i);
            if e.live && e.owner == o {
                hw(&mut h, e.ptr as u64);
                hash_bytes(&mut h, e.ptr, e.size);
            }
        }
    }
    h.fin()
}

unsafe fn hash_bytes(h: &mut H, p: usize, n: usize) {
    let mut i = 0;
    while i + 8 <= n {
        hw(h, ((p + i) as *const u64).read_unaligned());
        i += 8;
    }
    let mut t = 0u64;
    while i < n {
        t = (t << 8) | *((p + i) as *const u8) as u64;
        i += 1;
    }
    hw(h, t ^ ((n as u64) << 56));
}

/// Byte ranges left out of the canonical form.
pub type Mask = (usize, usize);

static mut VEC_WORDS: (usize, usize, usize) = (9, 9, 9); // cap, ptr, len positions in a Vec

fn vec_words() -> (usize, usize, usize) {
    unsafe {
        if VEC_WORDS.0 == 9 {
            let mut v: Vec<u64> = Vec::with_capacity(7);
            v.push(1);
            v.push(2);
            v.push(3);
            let cap = v.capacity();
            let w: [usize; 3] = *(addr_of!(v) as *const [usize; 3]);
            let f = |x: usize| w.iter().position(|y| *y == x).unwrap();
            VEC_WORDS = (f(cap), f(v.as_ptr() as usize), f(3));
        }
        VEC_WORDS
    }
}

/// Canonical hash of everything reachable from allocation starting at `root`.
///
/// Pointers to tracked allocations are renamed in visiting order, dangling ones become DEAD.
/// `masks` (values, which the generic containers cannot inspect) are skipped, and so is the spare
/// capacity of every Vec stored directly in the root object.
/// `image` is the root object as it was when created: words that still have that value are
/// constants (or padding, which holds stack garbage), not state.
pub fn canon(root: usize, masks: &[Mask], image: &[u64]) -> u128 {
    let st = s();
    let mut h = H::default();
    unsafe {
        let Some(r) = find(root) else { return 1 };
        let mut masks: Vec<Mask> = masks.to_vec();
        {
            let e = &*st.table.add(r);
            let (c, p, l) = vec_words();
            let n = e.size / 8;
            let w = |i: usize| *((e.ptr + i * 8) as *const usize);
            for i in 0..n.saturating_sub(2) {
                let (cap, ptr_, len) = (w(i + c), w(i + p), w(i + l));
                if cap > 0 && len <= cap {
                    if let Some(a) = find(ptr_) {
                        let a = &*st.table.add(a);
                        if a.live && a.size > 0 && a.size % cap == 0 {
                            let es = a.size / cap;
                            masks.push((a.ptr + len * es, a.ptr + a.size));
                        }
                    }
                }
            }
        }
        let mut order: Vec<usize> = vec![r];
        let mut ids = std::collections::HashMap::<usize, u64, BH>::default();
        ids.insert(r, 0);
        let mut qi = 0;
        while qi < order.len() {
            let e = *st.table.add(order[qi]);
            qi += 1;
            hw(&mut h, 0xB10C ^ ((e.size as u64) << 16));
            let words = e.size / 8;
            let relevant: Vec<Mask> =
                masks.iter().copied().filter(|m| m.0 < e.ptr + e.size && m.1 > e.ptr).collect();
            let mut i = 0;
            while i < words {
                let a = e.ptr + i * 8;
                if let Some(m) = relevant.iter().find(|m| a + 8 > m.0 && a < m.1) {
                    if a >= m.0 && a + 8 <= m.1 {
                        // skip whole masked run
                        i = ((m.1 - e.ptr) / 8).max(i + 1);
                        hw(&mut h, 0x3A5C);
                        continue;
                    }
                    // partially masked word
                    let mut t = 0u64;
                    for b in 0..8 {
                        let ab = a + b;
                        if !(ab >= m.0 && ab < m.1) {
                            t |= (*(ab as *const u8) as u64) << (8 * b);
                        }
                    }
                    hw(&mut h, t);
                    i += 1;
                    continue;
                }
                let v = *(a as *const usize);
                let same = qi == 1 && i < image.len() / 2 && image[i] == v as u64;
                if same && image[image.len() / 2 + i] == 1 {
                    hw(&mut h, 0xC0C0);
                } else if v >= st.base && v < st.bump {
                    let t = find(v).or_else(|| find_interior(v));
                    match t {
                        Some(t) => {
                            let te = &*st.table.add(t);
                            if te.live {
                                let next = ids.len() as u64;
                                let id = *ids.entry(t).or_insert_with(|| {
                                    order.push(t);
                                    next
                                });
                                hw(&mut h, 0xF00D_0000_0000_0000 ^ (id << 24) ^ (v - te.ptr) as u64);
                            } else if same {
                                hw(&mut h, 0xC0C0);
                            } else {
                                hw(&mut h, 0xDEAD);
                            }
                        }
                        None if same => hw(&mut h, 0xC0C0),
                        None => hw(&mut h, v as u64),
                    }
                } else if same {
                    hw(&mut h, 0xC0C0);
                } else {
                    hw(&mut h, v as u64);
                }
                i += 1;
            }
            let rest = e.size % 8;
            if rest != 0 {
                let a = e.ptr + words * 8;
                for b in 0..rest {
                    if !relevant.iter().any(|m| a + b >= m.0 && a + b < m.1) {
                        hw(&mut h, *((a + b) as *const u8) as u64 ^ 0x7700);
                    }
                }
            }
        }
    }
    h.fin()
}

#[derive(Default, Clone, Copy)]
pub struct BH;
pub struct IdH(u64);
impl std::hash::BuildHasher for BH {
    type Hasher = IdH;
    fn build_hasher(&self) -> IdH {
        IdH(0)
    }
}
impl std::hash::Hasher for IdH {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100000001b3)
        }
    }
    fn write_usize(&mut self, x: usize) {
        self.0 = (x as u64).wrapping_mul(0x9E3779B97F4A7C15)
    }
    fn write_u128(&mut self, x: u128) {
        self.0 = (x >> 64) as u64 ^ x as u64
    }
}

/// End of the live allocation that contains `p`.
pub fn alloc_end(p: usize) -> Option<usize> {
    if !in_arena(p) {
        return None;
    }
    unsafe {
        find_interior(p).map(|i| {
            let e = &*s().table.add(i);
            e.ptr + e.size
        })
    }
}
