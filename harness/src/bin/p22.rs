//! P22: compile-time loops and integers count exactly.
//!
//! Every pair of bounds 0..=9, both directions, every early-stop position and every payload that
//! leaves the loop; the trace of calls (typed constant, runtime value, debug form) is compared with
//! the trace of a plain loop. Typed constants, arrays and conditional types over all of 0..=9.
use hibit_tree::const_utils::*;
use hibit_tree::utils::Array;
use hv::run::{Check, Out, Task, Tier};
use hv::task::prod;
use hv::val::{Own, TVal};
use hv::{ensure, fail};
use std::ops::ControlFlow;

#[derive(Default)]
struct Rec {
    seen: Vec<(usize, usize, usize, String)>,
    stop: usize,
}
struct V<'a>(&'a mut Rec);
impl ConstIntVisitor for V<'_> {
    type Out = (usize, Own);
    fn visit<I: ConstInteger>(&mut self, i: I) -> ControlFlow<(usize, Own)> {
        let n = self.0.seen.len();
        self.0.seen.push((I::VALUE, i.value(), I::DEFAULT.value(), format!("{i:?}")));
        if n == self.0.stop {
            ControlFlow::Break((I::VALUE, Own::mk(I::VALUE as u64 + 70)))
        } else {
            ControlFlow::Continue(())
        }
    }
}

macro_rules! dispatch2 {
    ($f:ident, $a:expr, $b:expr, $($arg:expr),*; $($n:literal)*) => {
        dispatch2!(@ $f, $a, $b, ($($arg),*); [$($n)*] [$($n)*])
    };
    (@ $f:ident, $a:expr, $b:expr, $args:tt; [$($n:literal)*] $all:tt) => {
        match $a { $($n => dispatch2!(# $f, $n, $b, $args; $all),)* _ => unreachable!() }
    };
    (# $f:ident, $x:literal, $b:expr, $args:tt; [$($n:literal)*]) => {
        match $b { $($n => dispatch2!(! $f, $x, $n, $args),)* _ => unreachable!() }
    };
    (! $f:ident, $x:literal, $y:literal, ($($arg:expr),*)) => { $f(ConstUsize::<$x>, ConstUsize::<$y>, $($arg),*) };
}

fn loop_case<A: ConstInteger, B: ConstInteger>(a: A, b: B, rev: bool, stop: usize) -> Result<Out, String> {
    let mut rec = Rec { seen: vec![], stop };
    let r = if rev { const_for_rev(a, b, V(&mut rec)) } else { const_for(a, b, V(&mut rec)) };
    let mut want: Vec<usize> = (A::VALUE..B::VALUE).collect();
    if rev {
        want.reverse()
    }
    let stopped = stop < want.len();
    if stopped {
        want.truncate(stop + 1)
    }
    let got: Vec<usize> = rec.seen.iter().map(|x| x.0).collect();
    ensure!(got == want, "the loop visited {got:?}, expected {want:?}");
    for (ty, v, d, s) in &rec.seen {
        ensure!(ty == v && ty == d, "constant {ty} has value() {v} and DEFAULT {d}");
        ensure!(*s == format!("ConstInt<{ty}>"), "constant {ty} prints as {s}");
    }
    match r {
        ControlFlow::Break((i, o)) => {
            ensure!(stopped && Some(&i) == want.last() && o.id() == i as u64 + 70, "the loop reports a stop at {i}, expected {:?}", stopped.then(|| want.last()));
        }
        ControlFlow::Continue(()) => ensure!(!stopped, "the loop does not report that it was stopped at {:?}", want.last()),
    }
    ensure!(hv::val::live() == 0, "the stop value was duplicated or lost");
    Ok(Out { canon: (A::VALUE as u128) << 64 | (B::VALUE as u128) << 32 | (stop as u128) << 1 | rev as u128, nontrivial: want.len() > 0 })
}

/// Arithmetic of one constant, reached by itself and by repeated inc / dec of others.
fn int_case<A: ConstInteger, B: ConstInteger>(a: A, b: B, _k: usize) -> Result<Out, String> {
    let n = A::VALUE;
    ensure!(a.value() == n && A::DEFAULT.value() == n && A::default().value() == n && a == A::DEFAULT, "constant {n} is not itself");
    ensure!(A::SatDec::VALUE == n.saturating_sub(1), "SatDec of {n} is {}", A::SatDec::VALUE);
    ensure!(a.sat_dec().value() == n.saturating_sub(1), "sat_dec of {n} is {}", a.sat_dec().value());
    if n > 0 {
        ensure!(A::Dec::VALUE == n - 1 && a.dec().value() == n - 1, "dec of {n} is {}", A::Dec::VALUE);
        ensure!(<A::Dec as ConstInteger>::Inc::VALUE == n && a.dec().inc().value() == n, "dec, inc of {n}");
    }
    if n < 9 {
        ensure!(A::Inc::VALUE == n + 1 && a.inc().value() == n + 1, "inc of {n} is {}", A::Inc::VALUE);
        ensure!(<A::Inc as ConstInteger>::Dec::VALUE == n && a.inc().dec().value() == n, "inc, dec of {n}");
    }
    // walk from a to b with inc / dec
    fn up<X: ConstInteger, Y: ConstInteger>(x: X, y: Y, left: usize) -> Result<(), String> {
        if x.value() == y.value() {
            ensure!(X::VALUE == Y::VALUE && left == 0, "inc reaches {} early", Y::VALUE);
            return Ok(());
        }
        if X::VALUE >= 9 || left == 0 {
            fail!("repeated inc misses {}", Y::VALUE)
        }
        up(x.inc(), y, left - 1)
    }
    if A::VALUE <= B::VALUE {
        up(a, b, B::VALUE - A::VALUE)?;
    }
    Ok(Out { canon: (A::VALUE * 16 + B::VALUE) as u128, nontrivial: true })
}

fn array_case<A: ConstInteger, B: ConstInteger>(a: A, _: B, _k: usize) -> Result<Out, String> {
    let n = A::VALUE;
    let mut order = vec![];
    let mut arr: ConstArrayType<Own, A> = Array::from_fn(|i| {
        order.push(i);
        Own::mk(i as u64 + 500)
    });
    ensure!(order == (0..n).collect::<Vec<_>>(), "from_fn called with {order:?}, expected 0..{n}");
    ensure!(arr.as_ref().len() == n && arr.as_mut().len() == n, "array of constant {n} has {} items", arr.as_ref().len());
    ensure!(<ConstArrayType<Own, A> as Array>::CAP == n, "capacity of the array of constant {n} is {}", <ConstArrayType<Own, A> as Array>::CAP);
    ensure!(<<ConstArrayType<Own, A> as ConstArray>::Cap as ConstInteger>::VALUE == n, "typed capacity of the array of constant {n}");
    ensure!(arr.as_ref().iter().enumerate().all(|(i, x)| x.id() == i as u64 + 500), "array items out of place");
    ensure!(hv::val::live() == n as i64, "from_fn made {} items", hv::val::live());
    let c: ConstCopyArrayType<u64, A> = Array::from_fn(|i| i as u64 * 3);
    let c2 = c;
    ensure!(c.as_ref().len() == n && c2.as_ref() == c.as_ref() && c.as_ref().iter().enumerate().all(|(i, x)| *x == i as u64 * 3), "copyable array");
    let un = <ConstArrayType<u64, A> as Array>::uninit_array();
    ensure!(un.as_ref().len() == n, "uninitialised array of constant {n} has {} items", un.as_ref().len());
    drop(arr);
    ensure!(hv::val::live() == 0, "{} array items leaked or over-dropped", hv::val::live());
    let _ = a;
    Ok(Out { canon: n as u128, nontrivial: true })
}

fn split_case<A: ConstInteger, B: ConstInteger>(_: A, _: B, _k: usize) -> Result<Out, String> {
    let n = A::VALUE;
    let arr: ConstArrayType<Own, A> = Array::from_fn(|i| Own::mk(i as u64 + 500));
    let (left, last) = arr.split_last();
    ensure!(last.id() == n as u64 - 1 + 500, "split_last gives item {}", last.id() as i64 - 500);
    ensure!(left.as_ref().len() == n - 1, "split_last leaves {} items of {n}", left.as_ref().len());
    ensure!(left.as_ref().iter().enumerate().all(|(i, x)| x.id() == i as u64 + 500), "split_last moves items");
    ensure!(hv::val::live() == n as i64, "split_last: {} items alive, expected {n}", hv::val::live());
    drop(last);
    drop(left);
    ensure!(hv::val::live() == 0, "{} array items leaked or over-dropped", hv::val::live());
    Ok(Out { canon: n as u128, nontrivial: true })
}

fn cond_case<B: ConstBool>(step: u32) -> Result<Out, String> {
    let (mut t, mut f) = (0, 0);
    let mut c: CondType<B, Own, (Own, u8)> = CondType::new(
        || {
            t += 1;
            Own::mk(11)
        },
        || {
            f += 1;
            (Own::mk(12), 7)
        },
    );
    ensure!((t, f) == if B::VALUE { (1, 0) } else { (0, 1) }, "constructors ran {t}/{f} times");
    ensure!(B::default().value() == B::VALUE, "value() of {}", B::VALUE);
    let check = |c: &CondType<B, Own, (Own, u8)>, id: u64| -> Result<(), String> {
        match c.get() {
            Either::True(x) => ensure!(B::VALUE && x.id() == id, "get() gives the true side with {}", x.id()),
            Either::False(x) => ensure!(!B::VALUE && x.0.id() == id && x.1 == 7, "get() gives the false side with {}", x.0.id()),
        }
        Ok(())
    };
    check(&c, if B::VALUE { 11 } else { 12 })?;
    if step >= 1 {
        match c.get_mut() {
            Either::True(x) => x.set(40),
            Either::False(x) => x.0.set(40),
        }
        check(&c, 40)?;
    }
    let live = hv::val::live();
    ensure!(live == 1, "{live} values alive, expected 1");
    drop(c);
    ensure!(hv::val::live() == 0, "{} values leaked or over-dropped", hv::val::live());
    if step >= 2 {
        let d: CondType<B, Vec<u8>, String> = Default::default();
        let mut e = d.clone();
        match e.get_mut() {
            Either::True(v) => v.push(3),
            Either::False(s) => s.push('x'),
        }
        let len = |c: &CondType<B, Vec<u8>, String>| match c.get() {
            Either::True(v) => v.len(),
            Either::False(s) => s.len(),
        };
        ensure!(len(&d) == 0 && len(&e) == 1 && len(&e.clone()) == 1, "clone of a conditional value is not independent");
    }
    Ok(Out { canon: (step * 2 + B::VALUE as u32) as u128, nontrivial: true })
}

fn tasks(_: Tier) -> Vec<Box<dyn Task>> {
    vec![
        prod(
            "loops",
            &[10, 10, 2, 11],
            |p| dispatch2!(loop_case, p[0], p[1], p[2] == 1, p[3] as usize; 0 1 2 3 4 5 6 7 8 9),
            |p| format!("const_for{} from {} to {}, stopped at call {}", if p[2] == 1 { "_rev" } else { "" }, p[0], p[1], p[3]),
        ),
        prod(
            "integers",
            &[9, 9],
            |p| dispatch2!(int_case, p[0], p[1], 0; 0 1 2 3 4 5 6 7 8),
            |p| format!("constant {} against {}", p[0], p[1]),
        ),
        prod("integer9", &[1, 1], |p| dispatch2!(int9, p[0] + 9, p[1] + 9, 0; 9), |_| "constant 9".into()),
        prod("arrays", &[10, 1], |p| dispatch2!(array_case, p[0], p[1], 0; 0 1 2 3 4 5 6 7 8 9), |p| format!("arrays of {}", p[0])),
        prod("split_last", &[9, 1], |p| dispatch2!(split_case, p[0] + 1, p[1] + 1, 0; 1 2 3 4 5 6 7 8 9), |p| format!("split_last of {} items", p[0] + 1)),
        prod(
            "conditional",
            &[2, 3],
            |p| if p[0] == 1 { cond_case::<ConstTrue>(p[1]) } else { cond_case::<ConstFalse>(p[1]) },
            |p| format!("conditional type {}, step {}", p[0] == 1, p[1]),
        ),
    ]
}
fn int9<A: ConstInteger, B: ConstInteger>(a: A, _: B, _: usize) -> Result<Out, String> {
    ensure!(a.value() == 9 && A::Dec::VALUE == 8 && a.dec().value() == 8 && a.sat_dec().value() == 8 && A::SatDec::VALUE == 8, "constant 9");
    Ok(Out { canon: 9, nontrivial: true })
}

fn main() {
    hv::run::main(Check {
        id: "P22",
        level: "exploration",
        rule: "a case is one pair of bounds, direction and stop position (or one typed constant); non-trivial when the body runs at least once",
        assumptions: &["a runtime `for` loop is the oracle", "constants above 9 are not supported by the crate"],
        tasks,
    })
}
