//! P17: bit blocks and bit queues behave as sets of bit positions.
//!
//! The oracle is a plain set of positions. Queues: every mask of the 8 bit (and two times 8 bit)
//! queues, border masks of the others; from each, every sequence of `next` / `trim_to(n)` up to a
//! depth; in every state reached every way of consuming the rest is compared. Blocks: every pair of
//! positions, border masks, every pair of border masks under the set operations.
use hibit_tree::bit_queue::{ArrayBitQueue, BitQueue, EmptyBitQueue, PrimitiveBitQueue};
use hibit_tree::utils::Primitive;
use hibit_tree::BitBlock;
use hv::run::{Check, Out, Task, Tier};
use hv::task::prod;
use hv::ensure;
use std::ops::ControlFlow::{Break, Continue};

#[derive(Clone, Copy, PartialEq, Eq)]
struct Set([u64; 4]);
impl Set {
    fn of(f: impl Fn(usize) -> bool, cap: usize) -> Set {
        let mut s = Set([0; 4]);
        for i in 0..cap {
            if f(i) {
                s.0[i >> 6] |= 1 << (i & 63)
            }
        }
        s
    }
    fn has(&self, i: usize) -> bool {
        self.0[i >> 6] >> (i & 63) & 1 == 1
    }
    fn list(&self) -> Vec<usize> {
        (0..256).filter(|i| self.has(*i)).collect()
    }
    fn first(&self) -> Option<usize> {
        (0..4).find(|i| self.0[*i] != 0).map(|i| i * 64 + self.0[i].trailing_zeros() as usize)
    }
    fn put(&mut self, i: usize, v: bool) {
        let b = 1 << (i & 63);
        if v {
            self.0[i >> 6] |= b
        } else {
            self.0[i >> 6] &= !b
        }
    }
}

/// Every way of consuming what is left of a queue.
fn verify<Q: BitQueue>(q: &Q, s: &Set, cap: usize, floor: usize, done: bool, precise: bool) -> Result<(), String> {
    let want = s.list();
    let cur = q.current();
    let first = want.first().copied().unwrap_or(cap);
    if precise || done {
        ensure!(cur == first, "current() is {cur}, expected {first}");
    } else {
        ensure!(cur <= first && cur >= floor, "current() is {cur}, expected something in {floor}..={first}");
    }
    let (lo, hi) = q.size_hint();
    ensure!(lo <= want.len() && hi.map_or(true, |h| h >= want.len()), "size_hint ({lo}, {hi:?}) with {} left", want.len());
    let mut it = q.clone();
    let mut n = 0;
    while let Some(i) = it.next() {
        ensure!(want.get(n) == Some(&i), "next() gives {i}, expected {:?}", want.get(n));
        n += 1;
    }
    ensure!(n == want.len(), "next() ends after {n} positions of {}", want.len());
    ensure!(it.next().is_none() && it.next().is_none(), "the queue yields again after its end");
    ensure!(it.current() == cap, "current() of a finished queue is {}, expected {cap}", it.current());
    let mut v = vec![];
    q.clone().for_each(|i| v.push(i));
    ensure!(v == want, "for_each gives {v:?}, expected {want:?}");
    let f = q.clone().fold(vec![], |mut a, i| {
        a.push(i);
        a
    });
    ensure!(f == want, "fold gives {f:?}, expected {want:?}");
    for stop in [0, 1, 2, want.len().wrapping_sub(1), want.len()] {
        let mut v = vec![];
        let r = q.clone().traverse(|i| {
            v.push(i);
            if v.len() == stop.wrapping_add(1) {
                Break(())
            } else {
                Continue(())
            }
        });
        let stops = stop < want.len();
        let w = if stops { &want[..stop + 1] } else { &want[..] };
        ensure!(v == w, "traverse stopped at call {stop} gives {v:?}, expected {w:?}");
        ensure!(r.is_break() == stops, "traverse stopped at call {stop} reports {r:?}");
    }
    if want.len() <= 2 {
        forms(q, s)?;
    }
    Ok(())
}
/// Every combination of a few steps and a way of taking the rest.
fn forms<Q: BitQueue>(q: &Q, s: &Set) -> Result<(), String> {
    hv::forms::forms(|| q.clone(), |i| i, &s.list())
}

fn seqs<Q: BitQueue>(q: &Q, s: &Set, cap: usize, floor: usize, done: bool, precise: bool, trims: &[usize], depth: usize) -> Result<u64, String> {
    verify(q, s, cap, floor, done, precise)?;
    let mut n = 1;
    if depth == 0 {
        return Ok(n);
    }
    let mut a = q.clone();
    let mut sa = *s;
    let want = s.first();
    let g = a.next();
    ensure!(g == want, "next() gives {g:?}, expected {want:?}");
    if let Some(i) = want {
        sa.put(i, false)
    }
    n += seqs(&a, &sa, cap, want.map_or(floor, |x| x + 1), done || want.is_none(), precise, trims, depth - 1)
        .map_err(|e| format!("after next(): {e}"))?;
    for &t in trims {
        let mut a = q.clone();
        a.trim_to(t);
        let sa = Set::of(|i| s.has(i) && i >= t, cap);
        n += seqs(&a, &sa, cap, floor, done, precise, trims, depth - 1).map_err(|e| format!("after trim_to({t}): {e}"))?;
    }
    Ok(n)
}

fn prim<P: Primitive>(p: P) -> u64 {
    p.as_usize() as u64
}

/// words of a queue, drawn from `pats` by digits of `m`
fn words<P: Primitive, const N: usize>(m: &[u32], pats: &[P]) -> [P; N] {
    std::array::from_fn(|i| pats[m[i] as usize])
}
fn border<P: Primitive>() -> Vec<P> {
    let b = std::mem::size_of::<P>() * 8;
    let max = P::MAX;
    vec![
        P::ZERO,
        P::ONE,
        P::ONE << (b - 1),
        max,
        P::ONE << (b / 2) | P::ONE << (b / 2 - 1),
        max << 1usize,
        max >> 1usize,
        P::ONE | P::ONE << (b - 1),
    ]
}
fn trims(word: usize, n: usize) -> Vec<usize> {
    let cap = word * n;
    if cap <= 16 {
        return (0..=cap + 2).chain([cap * 3, usize::MAX]).collect();
    }
    let mut v = vec![0, 1, word / 2, cap - 1, cap, cap + 1, cap * 2, usize::MAX];
    for i in 1..n {
        v.extend([i * word - 1, i * word, i * word + 1]);
    }
    v.push(cap - word / 2);
    v.sort_unstable();
    v.dedup();
    v
}
fn array_queue<P: Primitive, const N: usize>(name: &str, pats: Vec<P>, depth: usize, v: &mut Vec<Box<dyn Task>>) {
    let w = std::mem::size_of::<P>() * 8;
    let cap = w * N;
    let k = pats.len();
    let t = trims(w, N);
    let p2 = pats.clone();
    v.push(prod(
        format!("array_queue/{name}x{N}"),
        &[k; N],
        move |m| {
            let a: [P; N] = words(m, &pats);
            let s = Set::of(|i| prim(a[i / w]) >> (i % w) & 1 == 1, cap);
            let q = ArrayBitQueue::new(a);
            forms(&q, &s)?;
            hv::run::inner(seqs(&q, &s, cap, 0, false, false, &t, depth)?);
            Ok(Out { canon: m.iter().fold(1, |a, x| a << 10 | *x as u128), nontrivial: s.first().is_some() })
        },
        move |m| format!("queue over {:x?}", words::<P, N>(m, &p2)),
    ));
    let t = trims(w, N);
    v.push(prod(
        format!("array_queue/{name}x{N}/constructors"),
        &[2],
        move |m| {
            let (q, s) = if m[0] == 0 {
                (ArrayBitQueue::<P, N>::empty(), Set([0; 4]))
            } else {
                (ArrayBitQueue::<P, N>::filled(), Set::of(|_| true, cap))
            };
            forms(&q, &s)?;
            hv::run::inner(seqs(&q, &s, cap, 0, m[0] == 0, false, &t, 2)?);
            Ok(Out { canon: m[0] as u128, nontrivial: true })
        },
        |m| (if m[0] == 0 { "empty()" } else { "filled()" }).into(),
    ));
}
fn prim_queue<P: Primitive>(name: &str, pats: Vec<P>, depth: usize, v: &mut Vec<Box<dyn Task>>) {
    let w = std::mem::size_of::<P>() * 8;
    let t = trims(w, 1);
    let p2 = pats.clone();
    v.push(prod(
        format!("queue/{name}"),
        &[pats.len() + 2],
        move |m| {
            let i = m[0] as usize;
            let (q, s) = if i < pats.len() {
                let p = pats[i];
                (PrimitiveBitQueue::new(p), Set::of(|b| prim(p) >> b & 1 == 1, w))
            } else if i == pats.len() {
                (PrimitiveBitQueue::empty(), Set([0; 4]))
            } else {
                (PrimitiveBitQueue::filled(), Set::of(|_| true, w))
            };
            forms(&q, &s)?;
            hv::run::inner(seqs(&q, &s, w, 0, false, true, &t, depth)?);
            Ok(Out { canon: i as u128 + 1, nontrivial: s.first().is_some() })
        },
        move |m| format!("queue over {:x?}", p2.get(m[0] as usize)),
    ));
}
fn primitive<P: Primitive>(name: &str, vals: Vec<u64>, v: &mut Vec<Box<dyn Task>>) {
    let w = std::mem::size_of::<P>() * 8;
    let v2 = vals.clone();
    let mask = u64::MAX >> (64 - w);
    v.push(prod(
        format!("primitive/{name}"),
        &[vals.len()],
        move |m| {
            let x = vals[m[0] as usize];
            let p = P::from_usize(x as usize);
            let r = x & mask;
            ensure!(prim(p) == r, "from_usize({x:#x}) is {:#x}", prim(p));
            ensure!(p.as_u8() == r as u8, "as_u8 of {r:#x}");
            let tz = if r == 0 { w as u32 } else { r.trailing_zeros() };
            ensure!(p.trailing_zeros() == tz, "trailing_zeros of {r:#x} is {}", p.trailing_zeros());
            ensure!(prim(p.wrapping_neg()) == r.wrapping_neg() & mask, "wrapping_neg of {r:#x}");
            ensure!(p.is_zero() == (r == 0), "is_zero of {r:#x}");
            ensure!(prim(P::MAX) == mask && prim(P::MIN) == 0 && prim(P::ZERO) == 0 && prim(P::ONE) == 1, "constants");
            Ok(Out { canon: x as u128 + 1, nontrivial: r != 0 })
        },
        move |m| format!("{:#x}", v2[m[0] as usize]),
    ));
}

// ------------------------------------------------------------------ blocks

fn block_of<B: BitBlock>(s: &Set) -> B {
    let mut b = B::zero();
    for i in 0..B::SIZE {
        if s.has(i) {
            b.set_bit::<true>(i);
        }
    }
    b
}
fn block_is<B: BitBlock>(b: &B, s: &Set) -> Result<(), String> {
    let want: Vec<usize> = s.list();
    for i in 0..B::SIZE {
        ensure!(b.get_bit(i) == s.has(i), "get_bit({i}) is {}", b.get_bit(i));
    }
    ensure!(b.count_ones() == want.len(), "count_ones is {}, expected {}", b.count_ones(), want.len());
    ensure!(b.is_zero() == want.is_empty(), "is_zero is {}", b.is_zero());
    ensure!(*b == block_of::<B>(s) && (*b == B::zero()) == want.is_empty(), "equality with an equal block");
    ensure!(b.as_array().as_ref().len() * 64 == B::SIZE, "as_array has {} words", b.as_array().as_ref().len());
    for (w, x) in b.as_array().as_ref().iter().enumerate() {
        ensure!(*x == s.0[w], "word {w} is {x:#x}, expected {:#x}", s.0[w]);
    }
    for stop in [0, 1, want.len().wrapping_sub(1), want.len()] {
        let mut v = vec![];
        let r = b.traverse_bits(|i| {
            v.push(i);
            if v.len() == stop.wrapping_add(1) {
                Break(())
            } else {
                Continue(())
            }
        });
        let stops = stop < want.len();
        let w = if stops { &want[..stop + 1] } else { &want[..] };
        ensure!(v == w && r.is_break() == stops, "traverse_bits stopped at call {stop} gives {v:?} ({r:?}), expected {w:?}");
    }
    verify(&b.clone().into_bits_iter(), s, B::SIZE, 0, false, false)
}
fn block<B: BitBlock>(name: &str, pats: &[u64], v: &mut Vec<Box<dyn Task>>) {
    let n = B::SIZE / 64;
    v.push(prod(
        format!("block/{name}/pairs"),
        &[B::SIZE, B::SIZE, 2],
        |p| {
            let (i, j) = (p[0] as usize, p[1] as usize);
            let mut s = Set([0; 4]);
            let mut b = B::zero();
            if p[2] == 1 {
                // start from everything
                for k in 0..B::SIZE {
                    ensure!(!b.set_bit::<true>(k), "bit {k} was set before");
                    s.put(k, true)
                }
            }
            for (k, on) in [(i, true), (j, true), (i, false), (i, false), (j, true), (j, false), (i, true), (i, true)] {
                let on = on ^ (p[2] == 1);
                let old = if on { b.set_bit::<true>(k) } else { b.set_bit::<false>(k) };
                ensure!(old == s.has(k), "set_bit::<{on}>({k}) reports {old} as the previous bit");
                s.put(k, on);
                for x in [i, j, 0, B::SIZE - 1, i ^ 1, j ^ 32] {
                    ensure!(b.get_bit(x) == s.has(x), "get_bit({x}) is {} after set_bit::<{on}>({k})", b.get_bit(x));
                }
                let w: Vec<u64> = b.as_array().as_ref().to_vec();
                ensure!(w[..] == s.0[..w.len()], "set_bit::<{on}>({k}) gives {w:x?}, expected {:x?}", &s.0[..w.len()]);
            }
            block_is(&b, &s)?;
            Ok(Out { canon: (p[2] as u128) << 40 | (i as u128) << 20 | j as u128, nontrivial: true })
        },
        |p| format!("positions {} and {}, starting {}", p[0], p[1], if p[2] == 1 { "full" } else { "empty" }),
    ));
    let pats = pats.to_vec();
    let k = pats.len();
    let p2 = pats.clone();
    let set = move |m: &[u32], p2: &[u64]| {
        let mut s = Set([0; 4]);
        for i in 0..n {
            s.0[i] = p2[m[i] as usize]
        }
        s
    };
    let d2 = p2.clone();
    v.push(prod(
        format!("block/{name}/masks"),
        &vec![k; n],
        move |m| {
            let s = set(m, &p2);
            let b: B = block_of(&s);
            block_is(&b, &s)?;
            let mut c = B::zero();
            c.as_array_mut().as_mut().copy_from_slice(&s.0[..n]);
            block_is(&c, &s)?;
            ensure!(c == b, "a block filled word by word differs");
            let ts = trims(64, n);
            forms(&b.clone().into_bits_iter(), &s)?;
            hv::run::inner(seqs(&b.into_bits_iter(), &s, B::SIZE, 0, false, false, &ts, 1)?);
            Ok(Out { canon: m.iter().fold(1, |a, x| a << 10 | *x as u128), nontrivial: s.first().is_some() })
        },
        move |m| format!("{:x?}", set(m, &d2).0),
    ));
    // set operations: every pair of masks over a smaller pattern list
    let small: Vec<u64> = pats.iter().copied().take(if n == 4 { 4 } else { 8 }).collect();
    let s2 = small.clone();
    let kk = small.len();
    let set2 = move |m: &[u32], p2: &[u64]| {
        let (mut a, mut b) = (Set([0; 4]), Set([0; 4]));
        for i in 0..n {
            a.0[i] = p2[m[i] as usize];
            b.0[i] = p2[m[n + i] as usize];
        }
        (a, b)
    };
    v.push(prod(
        format!("block/{name}/set-operations"),
        &vec![kk; 2 * n],
        move |m| {
            let (sa, sb) = set2(m, &small);
            let and = Set(std::array::from_fn(|i| sa.0[i] & sb.0[i]));
            let or = Set(std::array::from_fn(|i| sa.0[i] | sb.0[i]));
            let (a, b): (B, B) = (word_block(&sa), word_block(&sb));
            let is = |x: &B, s: &Set| x.as_array().as_ref() == &s.0[..n];
            ensure!(is(&(a.clone() & b.clone()), &and), "&");
            ensure!(is(&(a.clone() | b.clone()), &or), "|");
            let mut x = a.clone();
            x &= b.clone();
            ensure!(is(&x, &and), "&=");
            let mut x = a.clone();
            x &= &b;
            ensure!(is(&x, &and), "&= by reference");
            let mut x = a.clone();
            x |= b.clone();
            ensure!(is(&x, &or), "|=");
            let mut x = a.clone();
            x |= &b;
            ensure!(is(&x, &or), "|= by reference");
            ensure!((a == b) == (sa == sb), "== of {:x?} and {:x?}", sa.0, sb.0);
            ensure!(is(&a, &sa) && is(&b, &sb), "an operand changed");
            Ok(Out { canon: m.iter().fold(1, |a, x| a << 8 | *x as u128), nontrivial: and.first().is_some() })
        },
        move |m| format!("{:x?} with {:x?}", set2(m, &s2).0 .0, set2(m, &s2).1 .0),
    ));
}
fn word_block<B: BitBlock>(s: &Set) -> B {
    let mut c = B::zero();
    let n = B::SIZE / 64;
    c.as_array_mut().as_mut().copy_from_slice(&s.0[..n]);
    c
}

fn tasks(tier: Tier) -> Vec<Box<dyn Task>> {
    let mut v: Vec<Box<dyn Task>> = vec![];
    let all8: Vec<u8> = (0..=255).collect();
    prim_queue::<u8>("u8", all8.clone(), tier.q(3, 4), &mut v);
    prim_queue::<u16>("u16", (0..=65535u16).collect(), tier.q(1, 2), &mut v);
    prim_queue::<u32>("u32", border(), tier.q(3, 4), &mut v);
    prim_queue::<u64>("u64", border(), tier.q(3, 4), &mut v);
    prim_queue::<usize>("usize", border(), tier.q(3, 4), &mut v);
    array_queue::<u8, 1>("u8", all8.clone(), 3, &mut v);
    // two words: every mask; split by the first word so that the tasks run in parallel
    for part in 0..16usize {
        let all: Vec<u8> = all8.clone();
        let t = trims(8, 2);
        let depth = tier.q(2, 3);
        v.push(prod(
            format!("array_queue/u8x2/all/{part}"),
            &[16, 256],
            move |m| {
                let a = [all[part * 16 + m[0] as usize], m[1] as u8];
                let s = Set::of(|i| a[i / 8] >> (i % 8) & 1 == 1, 16);
                hv::run::inner(seqs(&ArrayBitQueue::new(a), &s, 16, 0, false, false, &t, depth)?);
                Ok(Out { canon: (m[0] as u128) << 16 | m[1] as u128, nontrivial: a != [0, 0] })
            },
            move |m| format!("queue over {:x?}", [(part * 16) as u32 + m[0], m[1]]),
        ));
    }
    array_queue::<u8, 2>("u8", border(), tier.q(3, 4), &mut v);
    array_queue::<u8, 3>("u8", border(), tier.q(2, 3), &mut v);
    array_queue::<u16, 2>("u16", border(), tier.q(2, 3), &mut v);
    array_queue::<u32, 3>("u32", border(), tier.q(2, 2), &mut v);
    array_queue::<u64, 1>("u64", border(), 3, &mut v);
    array_queue::<u64, 2>("u64", border(), tier.q(3, 3), &mut v);
    array_queue::<u64, 3>("u64", border(), tier.q(1, 2), &mut v);
    array_queue::<u64, 4>("u64", border::<u64>()[..tier.q(5, 8)].to_vec(), tier.q(2, 2), &mut v);
    array_queue::<usize, 2>("usize", border(), 2, &mut v);
    v.push(prod(
        "empty_queue",
        &[4],
        |m| {
            let mut q = match m[0] {
                0 => EmptyBitQueue::empty(),
                1 => EmptyBitQueue::filled(),
                _ => EmptyBitQueue::default(),
            };
            if m[0] == 3 {
                q.trim_to(5)
            }
            verify(&q, &Set([0; 4]), 0, 0, true, true)?;
            Ok(Out { canon: m[0] as u128, nontrivial: true })
        },
        |m| format!("constructor {}", m[0]),
    ));
    primitive::<u8>("u8", (0..65536).collect(), &mut v);
    primitive::<u16>("u16", (0..65536).chain([65536, 65537, u64::MAX]).collect(), &mut v);
    let big: Vec<u64> = (0..64)
        .flat_map(|i| {
            let b = 1u64 << i;
            [b, b - 1, !b, !(b - 1), b | 1]
        })
        .collect();
    primitive::<u32>("u32", big.clone(), &mut v);
    primitive::<u64>("u64", big.clone(), &mut v);
    primitive::<usize>("usize", big, &mut v);
    let pats = border::<u64>();
    block::<u64>("u64", &pats, &mut v);
    #[cfg(feature = "simd")]
    {
        block::<wide::u64x2>("u64x2", &pats, &mut v);
        block::<wide::u64x4>("u64x4", &pats[..tier.q(6, 8)], &mut v);
    }
    v
}
fn main() {
    hv::run::main(Check {
        id: "P17",
        level: "exploration",
        rule: "a case is one mask (or pair of positions or masks) and all operation sequences from it; non-trivial when the mask is not empty, distinct by mask",
        assumptions: &["positions of an ArrayBitQueue count through its words in order", "current() of an array queue may lag behind the next position until the word border was crossed (documented only for the finished queue)"],
        tasks,
    })
}
