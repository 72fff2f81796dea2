//! Value types the containers are filled with. The containers are generic and cannot look inside,
//! so what matters is size, alignment and drop glue; `id` lets the oracle tell values apart.

use crate::arena;
use std::ptr::addr_of_mut;

pub trait TVal: Sized + Default + 'static {
    const NAME: &'static str;
    /// Which bits of the id a value can hold.
    const ID_MASK: u64 = !0;
    fn mk(id: u64) -> Self;
    fn id(&self) -> u64;
    /// Overwrite in place.
    fn set(&mut self, id: u64) {
        *self = Self::mk(id)
    }
}

impl TVal for u64 {
    const NAME: &'static str = "u64";
    fn mk(id: u64) -> u64 {
        id
    }
    fn id(&self) -> u64 {
        *self
    }
}
impl TVal for u8 {
    const NAME: &'static str = "u8";
    const ID_MASK: u64 = 0xff;
    fn mk(id: u64) -> u8 {
        id as u8
    }
    fn id(&self) -> u64 {
        *self as u64
    }
}
/// Large over-aligned value.
#[repr(align(64))]
pub struct Big([u64; 24]);
impl Default for Big {
    fn default() -> Self {
        Big([0; 24])
    }
}
impl TVal for Big {
    const NAME: &'static str = "align64x192B";
    fn mk(id: u64) -> Self {
        Big([id; 24])
    }
    fn id(&self) -> u64 {
        if (self as *const Self as usize) % 64 != 0 {
            return u64::MAX;
        }
        if self.0.iter().all(|x| *x == self.0[0]) {
            self.0[0]
        } else {
            u64::MAX - 1
        }
    }
}

// ------------------------------------------------------------------ ownership tracking value

const MAXV: usize = 1 << 16;
static mut REG: [u8; MAXV] = [0; MAXV]; // 0 never made, 1 alive, 2 dropped
static mut NEXT: usize = 0;
static mut LIVE: i64 = 0;
static mut ERR: Option<&'static str> = None;
/// id whose destructor must panic (once), 0 = none
static mut PANIC_ON_DROP: u64 = 0;
/// Default::default panics after this many more calls (usize::MAX = never)
static mut DEFAULT_FUSE: usize = usize::MAX;

pub const INJECTED: &str = "injected panic";

pub fn reset() {
    unsafe {
        let n = NEXT;
        for i in 0..n.min(MAXV) {
            REG[i] = 0;
        }
        NEXT = 0;
        LIVE = 0;
        ERR = None;
        PANIC_ON_DROP = 0;
        DEFAULT_FUSE = usize::MAX;
    }
}
pub fn live() -> i64 {
    unsafe { LIVE }
}
pub fn error() -> Option<String> {
    unsafe { (*addr_of_mut!(ERR)).map(|e| format!("ownership error: {e}")) }
}
pub fn panic_on_drop(id: u64) {
    unsafe { PANIC_ON_DROP = id }
}
pub fn default_fuse(n: usize) {
    unsafe { DEFAULT_FUSE = n }
}
pub fn inject() -> ! {
    std::panic::panic_any(INJECTED)
}

/// Owns a heap block and a slot in the registry.
pub struct Own {
    id: u64,
    slot: u32,
    tag: u32,
    bx: Box<u64>,
}
const TAG: u32 = 0x600D_F00D;
impl Own {
    pub fn new(id: u64) -> Own {
        unsafe {
            let slot = NEXT;
            NEXT += 1;
            if slot < MAXV {
                REG[slot] = 1;
            }
            LIVE += 1;
            Own { id, slot: slot as u32, tag: TAG, bx: arena::tracked(|| Box::new(id ^ 0x5A5A)) }
        }
    }
}
impl Default for Own {
    fn default() -> Self {
        unsafe {
            if DEFAULT_FUSE != usize::MAX {
                if DEFAULT_FUSE == 0 {
                    DEFAULT_FUSE = usize::MAX;
                    inject();
                }
                DEFAULT_FUSE -= 1;
            }
        }
        Own::new(0)
    }
}
impl Drop for Own {
    fn drop(&mut self) {
        unsafe {
            let s = self.slot as usize;
            if self.tag != TAG {
                ERR = ERR.or(Some("destructor ran on something that is not a value (uninitialised or freed memory)"));
            } else if s < MAXV {
                if REG[s] != 1 {
                    ERR = ERR.or(Some("value dropped twice"));
                }
                REG[s] = 2;
            }
            LIVE -= 1;
            if self.tag == TAG && PANIC_ON_DROP != 0 && PANIC_ON_DROP == self.id {
                PANIC_ON_DROP = 0;
                inject();
            }
        }
    }
}
impl TVal for Own {
    const NAME: &'static str = "owning";
    fn mk(id: u64) -> Self {
        Own::new(id)
    }
    fn id(&self) -> u64 {
        if self.tag != TAG {
            return u64::MAX - 2;
        }
        if *self.bx != self.id ^ 0x5A5A {
            return u64::MAX - 3;
        }
        self.id
    }
}

/// Zero sized with drop glue.
pub struct Zst;
static mut ZST_LIVE: i64 = 0;
pub fn zst_live() -> i64 {
    unsafe { ZST_LIVE }
}
pub fn zst_reset() {
    unsafe { ZST_LIVE = 0 }
}
impl Default for Zst {
    fn default() -> Self {
        Zst::mk(0)
    }
}
impl Drop for Zst {
    fn drop(&mut self) {
        unsafe { ZST_LIVE -= 1 }
    }
}
impl TVal for Zst {
    const NAME: &'static str = "zst";
    const ID_MASK: u64 = 0;
    fn mk(_: u64) -> Self {
        unsafe { ZST_LIVE += 1 }
        Zst
    }
    fn id(&self) -> u64 {
        0
    }
}
