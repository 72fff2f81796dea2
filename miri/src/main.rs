//! Interpreted by Miri (see harness/src/bin/p26.rs): exhaustive families of small cases in safe code
//! (and the documented unsafe access paths where their conditions hold).
//! Content is compared with a model too, but the oracle is the interpreter.
//!
//! mi TIER list                      families, numbers of cases, cases worth one process
//! mi TIER run FAMILY FROM TO        cases FROM..TO
//! mi TIER trace FAMILY FROM TO      the same, naming each case first
mod cases;
mod val;

use hibit_tree::config::width_64 as w64;
use hibit_tree::*;
use val::*;

pub struct Family {
    pub name: String,
    pub count: usize,
    pub block: usize,
    pub run: Box<dyn Fn(usize) -> Result<(), String>>,
}

fn families(deep: bool) -> Vec<Family> {
    use cases::*;
    macro_rules! n { ($q:literal, $t:literal) => { if deep { $t } else { $q } } }
    let mut v = vec![];
    let v_ = &mut v;
    // histories
    hist::<DenseTree<Box<u64>, 1>>(v_, "dense1", 3, n!(2, 3));
    hist::<DenseTree<Box<u64>, 2>>(v_, "dense2", 3, n!(2, 3));
    hist::<DenseTree<Box<u64>, 3>>(v_, "dense3", 3, n!(2, 3));
    hist::<DenseTree<(), 2>>(v_, "dense2", 2, n!(2, 3));
    hist::<DenseTree<Niche, 2>>(v_, "dense2", 3, n!(2, 3));
    hist::<DenseTree<Wide, 2>>(v_, "dense2", 2, n!(2, 3));
    hist::<DenseTree<u8, 9>>(v_, "dense9", 2, n!(2, 3));
    hist::<SparseTree<w64::depth_1, Box<u64>>>(v_, "sparse1", 3, n!(2, 3));
    hist::<SparseTree<w64::depth_2, Box<u64>>>(v_, "sparse2", 3, n!(2, 3));
    hist::<SparseTree<w64::depth_3, Box<u64>>>(v_, "sparse3", 3, n!(2, 3));
    hist::<SparseTree<w64::depth_2, ()>>(v_, "sparse2", 2, n!(2, 3));
    hist::<SparseTree<w64::depth_2, Niche>>(v_, "sparse2", 3, n!(2, 3));
    hist::<SparseTree<w64::depth_3, Wide>>(v_, "sparse3", 2, n!(2, 3));
    hist::<SparseTree<w64::depth_2, Box<u64>, ReqDefault>>(v_, "sparse2-default", 3, n!(2, 3));
    if !deep {
        hist::<DenseTree<Box<u64>, 2>>(v_, "dense2", 2, 3);
        hist::<SparseTree<w64::depth_2, Box<u64>>>(v_, "sparse2", 2, 3);
    }
    #[cfg(feature = "simd")]
    {
        use hibit_tree::config::{width_128 as w128, width_256 as w256};
        hist::<SparseTree<w128::depth_2, Box<u64>>>(v_, "sparse2-128", 2, n!(2, 3));
        hist::<SparseTree<w256::depth_2, Box<u64>>>(v_, "sparse2-256", 2, n!(2, 3));
        hist::<SparseTree<w256::depth_1, Niche>>(v_, "sparse1-256", 2, n!(2, 3));
        fill::<SparseTree<w256::depth_1, Box<u64>>>(v_, "sparse1-256", 256, deep);
        lazy_pairs::<SparseTree<w256::depth_2, Box<u64>>>(v_, "sparse2-256", 2);
    }
    // nodes of every size
    fill::<DenseTree<Box<u64>, 1>>(v_, "dense1", 64, deep);
    fill::<DenseTree<Box<u64>, 2>>(v_, "dense2", 64, deep);
    fill::<SparseTree<w64::depth_1, Box<u64>>>(v_, "sparse1", 64, deep);
    fill::<SparseTree<w64::depth_2, Box<u64>>>(v_, "sparse2", 64, deep);
    // operators
    lazy_pairs::<DenseTree<Box<u64>, 1>>(v_, "dense1", n!(2, 3));
    lazy_pairs::<DenseTree<Box<u64>, 2>>(v_, "dense2", n!(2, 3));
    lazy_pairs::<DenseTree<Box<u64>, 3>>(v_, "dense3", n!(2, 3));
    lazy_pairs::<SparseTree<w64::depth_3, Box<u64>>>(v_, "sparse3", n!(2, 3));
    lazy_deep::<DenseTree<Box<u64>, 2>>(v_, "dense2", n!(1, 2));
    lazy_deep::<DenseTree<Box<u64>, 3>>(v_, "dense3", n!(1, 2));
    lazy_deep::<SparseTree<w64::depth_2, Box<u64>>>(v_, "sparse2", n!(1, 2));
    many(v_, deep);
    moving::<DenseTree<Box<u64>, 1>>(v_, "dense1", n!(4, 7));
    moving::<DenseTree<Box<u64>, 2>>(v_, "dense2", n!(4, 7));
    moving::<DenseTree<Box<u64>, 3>>(v_, "dense3", n!(4, 7));
    moving::<SparseTree<w64::depth_2, Box<u64>>>(v_, "sparse2", n!(4, 7));
    materialise::<1>(v_, n!(2, 3));
    materialise::<2>(v_, n!(2, 3));
    materialise::<3>(v_, n!(2, 3));
    // user code that panics
    panics::<DenseTree<Bomb, 2>>(v_, "dense2", 2, n!(2, 3));
    panics::<SparseTree<w64::depth_2, Bomb>>(v_, "sparse2", 2, n!(2, 3));
    panics::<SparseTree<w64::depth_2, Bomb, ReqDefault>>(v_, "sparse2-default", 2, n!(2, 3));
    panic_materialise(v_, n!(2, 4));
    // bits
    queues(v_);
    blocks(v_);
    out_of_range(v_);
    v
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let f = families(a[1] == "thorough");
    match a[2].as_str() {
        "list" => {
            for x in &f {
                println!("{} {} {}", x.name, x.count, x.block);
            }
        }
        cmd => {
            std::panic::set_hook(Box::new(|_| {}));
            let (lo, hi): (usize, usize) = (a[4].parse().unwrap(), a[5].parse().unwrap());
            let x = f.iter().find(|x| x.name == a[3]).expect("no such family");
            for i in lo..hi.min(x.count) {
                if cmd == "trace" {
                    println!("CASE {i}");
                }
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (x.run)(i)));
                let e = match r {
                    Ok(Ok(())) => None,
                    Ok(Err(e)) => Some(e),
                    Err(p) => Some(format!(
                        "panic: {}",
                        p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()
                    )),
                };
                if let Some(e) = e {
                    println!("FAIL {i} {e}");
                    std::process::exit(3);
                }
            }
            println!("DONE");
        }
    }
}
