//! Values of different representation that know their number.
use std::cell::{Cell, RefCell};

pub trait Val: Default + 'static {
    const NAME: &'static str;
    const MASK: u64;
    fn mk(id: u64) -> Self;
    fn id(&self) -> u64;
}
macro_rules! num {
    ($t:ty, $n:literal) => {
        impl Val for $t {
            const NAME: &'static str = $n;
            const MASK: u64 = <$t>::MAX as u64;
            fn mk(id: u64) -> Self {
                id as $t
            }
            fn id(&self) -> u64 {
                *self as u64
            }
        }
    };
}
num!(u8, "u8");
num!(u64, "u64");
impl Val for () {
    const NAME: &'static str = "zst";
    const MASK: u64 = 0;
    fn mk(_: u64) {}
    fn id(&self) -> u64 {
        0
    }
}
impl Val for Box<u64> {
    const NAME: &'static str = "box";
    const MASK: u64 = u64::MAX;
    fn mk(id: u64) -> Self {
        Box::new(id)
    }
    fn id(&self) -> u64 {
        **self
    }
}
/// Only some bit patterns are values; padding between the fields.
#[derive(Clone, Copy)]
pub struct Niche(bool, char, &'static str);
impl Default for Niche {
    fn default() -> Self {
        Niche::mk(0)
    }
}
impl Val for Niche {
    const NAME: &'static str = "niche";
    const MASK: u64 = 0xff;
    fn mk(id: u64) -> Self {
        Niche(id & 1 == 1, (id as u8 as char).into(), if id & 2 == 2 { "two" } else { "" })
    }
    fn id(&self) -> u64 {
        assert!(self.0 == (self.1 as u64 & 1 == 1) && self.2.len() == (self.1 as usize & 2) / 2 * 3);
        self.1 as u64
    }
}
/// Larger alignment than the allocator's default.
#[repr(align(64))]
pub struct Wide([u8; 3], Box<u64>);
impl Default for Wide {
    fn default() -> Self {
        Wide::mk(0)
    }
}
impl Val for Wide {
    const NAME: &'static str = "align64";
    const MASK: u64 = u64::MAX;
    fn mk(id: u64) -> Self {
        Wide([id as u8; 3], Box::new(id))
    }
    fn id(&self) -> u64 {
        assert!(self.0[2] == *self.1 as u8 && self as *const _ as usize % 64 == 0);
        *self.1
    }
}

thread_local! {
    /// Calls of user code until one panics; 0 = never.
    pub static FUSE: Cell<u32> = const { Cell::new(0) };
    static LIVE: RefCell<Vec<u64>> = const { RefCell::new(vec![]) };
    static NEXT: Cell<u64> = const { Cell::new(1) };
}
pub fn fuse() {
    let f = FUSE.get();
    if f > 0 {
        FUSE.set(f - 1);
        if f == 1 {
            panic!("fuse")
        }
    }
}
/// Owns memory; its default constructor and destructor may panic; every drop is accounted for.
pub struct Bomb(u64, Box<u64>);
impl Default for Bomb {
    fn default() -> Self {
        fuse();
        Bomb::mk(0)
    }
}
impl Drop for Bomb {
    fn drop(&mut self) {
        let id = self.0;
        let was = LIVE.with_borrow_mut(|l| {
            let n = l.len();
            l.retain(|x| *x != id);
            n != l.len()
        });
        if !was {
            println!("FAIL 0 a value is dropped twice");
            std::process::exit(3);
        }
        if !std::thread::panicking() {
            fuse()
        }
    }
}
impl Val for Bomb {
    const NAME: &'static str = "bomb";
    const MASK: u64 = u64::MAX;
    fn mk(id: u64) -> Self {
        let n = NEXT.get();
        NEXT.set(n + 1);
        LIVE.with_borrow_mut(|l| l.push(n));
        Bomb(n, Box::new(id))
    }
    fn id(&self) -> u64 {
        *self.1
    }
}
