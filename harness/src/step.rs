//! Counting machine instructions: the code under test runs with the processor's trap flag set, and
//! every instruction executed raises SIGTRAP in this process. The memory allocator's own work (and a
//! reallocation's copy) is left out: the arena clears the flag on entry and sets it again on exit.
use std::arch::asm;
use std::ptr::{addr_of_mut, null_mut};

static mut N: u64 = 0;
static mut CAP: u64 = 0;
static mut ON: bool = false;
static mut READY: bool = false;
const TF: i64 = 0x100;

extern "C" fn trap(_: i32, _: *mut libc::siginfo_t, uc: *mut libc::c_void) {
    unsafe {
        N += 1;
        if N >= CAP {
            ON = false;
            (*uc.cast::<libc::ucontext_t>()).uc_mcontext.gregs[libc::REG_EFL as usize] &= !TF;
        }
    }
}
#[inline(always)]
fn set() {
    unsafe { asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq") }
}
#[inline(always)]
fn clear() {
    unsafe { asm!("pushfq", "and qword ptr [rsp], -257", "popfq") }
}
fn ready() {
    unsafe {
        if READY {
            return;
        }
        let mut a: libc::sigaction = std::mem::zeroed();
        a.sa_sigaction = trap as extern "C" fn(i32, *mut libc::siginfo_t, *mut libc::c_void) as usize;
        a.sa_flags = libc::SA_SIGINFO;
        libc::sigaction(libc::SIGTRAP, &a, null_mut());
        READY = true;
    }
}
struct Off;
impl Drop for Off {
    #[inline(always)]
    fn drop(&mut self) {
        clear();
        unsafe { ON = false }
    }
}
/// Instructions executed by `f`, at most `cap` (after which it runs on unobserved).
#[inline(never)]
pub fn count<R>(cap: u64, f: impl FnOnce() -> R) -> (u64, R) {
    ready();
    unsafe {
        N = 0;
        CAP = cap;
        ON = true;
    }
    let r = {
        let _off = Off;
        set();
        f()
    };
    (unsafe { addr_of_mut!(N).read_volatile() }, r)
}
/// Stop counting until `resume`; returns what to pass to it.
#[inline(always)]
pub fn pause() -> bool {
    let on = unsafe { addr_of_mut!(ON).read_volatile() };
    if on {
        clear()
    }
    on
}
#[inline(always)]
pub fn resume(on: bool) {
    if on {
        set()
    }
}

#[inline(never)]
fn known(n: u64) -> u64 {
    let mut s = 0;
    for i in 0..n {
        s = std::hint::black_box(s + i);
    }
    s
}
/// The counter counts: a loop of known length costs what it must, allocation costs nothing much.
pub fn selftest() -> Result<(), String> {
    let c = |n| count(1 << 40, || known(n)).0;
    let (a, b, d) = (c(100), c(200), c(300));
    if !(a > 200 && b > a && d - b == b - a && (d - b) % 100 == 0) {
        return Err(format!("instruction counter out of order: {a} {b} {d}"));
    }
    let m = |n: usize| count(1 << 40, || std::hint::black_box(Vec::<u64>::with_capacity(n)).capacity()).0;
    let (x, y) = (m(8), m(1 << 20));
    if x.abs_diff(y) > 50 {
        return Err(format!("the allocator's work is counted: {x} {y}"));
    }
    if count(50, || known(1000)).0 != 50 {
        return Err("the counter's limit does not work".into());
    }
    Ok(())
}
