//! P20: build configuration never changes behaviour.
//! `p20d` (one program, an exhaustive family of histories and expressions) is built once per
//! configuration; every line it prints must be the same in every configuration.
use hv::ensure;
use hv::run::{self, Check, Out, Task, Tier};
use hv::task::prod;
use std::collections::BTreeMap;
use std::io::Read;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

const NIGHTLY: &str = "nightly-x86_64-unknown-linux-gnu";
const STABLE: &str = "stable-x86_64-unknown-linux-gnu";

struct C {
    name: &'static str,
    toolchain: &'static str,
    profile: &'static str,
    features: &'static [&'static str],
    target: &'static str,
    quick: bool,
}
/// The first one is the reference.
const CONFIGS: &[C] = &[
    C { name: "simd", toolchain: NIGHTLY, profile: "release", features: &["simd"], target: "", quick: true },
    C { name: "simd, unoptimised", toolchain: NIGHTLY, profile: "plain", features: &["simd"], target: "", quick: false },
    C { name: "no-simd", toolchain: NIGHTLY, profile: "release", features: &[], target: "", quick: true },
    C { name: "simd+may_dangle", toolchain: NIGHTLY, profile: "release", features: &["simd", "may_dangle"], target: "", quick: true },
    C { name: "simd, optimised, no debug assertions", toolchain: NIGHTLY, profile: "ship", features: &["simd"], target: "", quick: true },
    C { name: "simd, bmi1+bmi2+avx2+popcnt+lzcnt", toolchain: NIGHTLY, profile: "release", features: &["simd"], target: "+bmi1,+bmi2,+avx2,+popcnt,+lzcnt", quick: true },
    C { name: "no-simd, bmi2, optimised", toolchain: NIGHTLY, profile: "ship", features: &[], target: "+bmi1,+bmi2", quick: true },
    C { name: "simd, stable toolchain", toolchain: STABLE, profile: "release", features: &["simd"], target: "", quick: true },
    C { name: "simd+may_dangle, optimised, bmi2+avx2", toolchain: NIGHTLY, profile: "ship", features: &["simd", "may_dangle"], target: "+bmi1,+bmi2,+avx2,+popcnt,+lzcnt", quick: false },
    C { name: "no-simd+may_dangle", toolchain: NIGHTLY, profile: "release", features: &["may_dangle"], target: "", quick: false },
    C { name: "no-simd, optimised", toolchain: NIGHTLY, profile: "ship", features: &[], target: "", quick: false },
    C { name: "no-simd, bmi2 only", toolchain: NIGHTLY, profile: "release", features: &[], target: "+bmi2", quick: false },
    C { name: "simd, bmi1 only", toolchain: NIGHTLY, profile: "release", features: &["simd"], target: "+bmi1", quick: false },
    C { name: "simd, avx", toolchain: NIGHTLY, profile: "ship", features: &["simd"], target: "+avx", quick: false },
    C { name: "simd, avx512", toolchain: NIGHTLY, profile: "ship", features: &["simd"], target: "+avx512f,+avx512vl,+avx512bw,+avx2,+bmi2", quick: false },
    C { name: "no-simd, stable toolchain", toolchain: STABLE, profile: "release", features: &[], target: "", quick: false },
    C { name: "no-simd, unoptimised, bmi2", toolchain: NIGHTLY, profile: "plain", features: &[], target: "+bmi2", quick: false },
    C { name: "simd, optimised for size", toolchain: NIGHTLY, profile: "small", features: &["simd"], target: "", quick: false },
];
fn runnable(c: &C) -> bool {
    c.target.split(',').filter(|s| !s.is_empty()).all(|f| match &f[1..] {
        "bmi1" => is_x86_feature_detected!("bmi1"),
        "bmi2" => is_x86_feature_detected!("bmi2"),
        "avx" => is_x86_feature_detected!("avx"),
        "avx2" => is_x86_feature_detected!("avx2"),
        "popcnt" => is_x86_feature_detected!("popcnt"),
        "lzcnt" => is_x86_feature_detected!("lzcnt"),
        "avx512f" => is_x86_feature_detected!("avx512f"),
        "avx512vl" => is_x86_feature_detected!("avx512vl"),
        "avx512bw" => is_x86_feature_detected!("avx512bw"),
        _ => false,
    })
}
fn configs(t: Tier) -> Vec<&'static C> {
    CONFIGS.iter().filter(|c| (c.quick || t == Tier::Thorough) && runnable(c)).collect()
}

fn dir() -> String {
    std::env::var("HV_P20_DIR").unwrap_or_else(|_| format!("{}/harness/target/p20", run::root()))
}
fn slug(c: &C) -> String {
    c.name.chars().map(|c| if c.is_ascii_alphanumeric() { c } else { '_' }).collect()
}
fn out_file(c: &C) -> String {
    format!("{}/{}.txt", dir(), slug(c))
}

fn cargo(c: &C, tier: Tier, what: &[&str]) -> Command {
    let root = run::root();
    let mut features = c.features.join(",");
    if tier == Tier::Thorough {
        features += ",deep";
    }
    let mut k = Command::new("cargo");
    k.args(what)
        .args(["--offline", "--manifest-path", &format!("{root}/harness/Cargo.toml")])
        .args(["--target-dir", &format!("{}/build-{}", dir(), slug(c))])
        .args(["--profile", c.profile, "--no-default-features", "--features", &features])
        .env("RUSTUP_TOOLCHAIN", c.toolchain)
        .env("CARGO_NET_OFFLINE", "true")
        .env_remove("CARGO_TARGET_DIR")
        .env("RUSTFLAGS", if c.target.is_empty() { String::new() } else { format!("-Ctarget-feature={}", c.target) });
    k
}
/// Build and run; the text the comparison works on.
fn produce(c: &C, tier: Tier) -> String {
    let o = match cargo(c, tier, &["build", "--bin", "p20d"]).stdin(Stdio::null()).output() {
        Ok(o) => o,
        Err(e) => return format!("NOBUILD cargo does not start: {e}\n"),
    };
    if !o.status.success() {
        let e = String::from_utf8_lossy(&o.stderr);
        let e: Vec<&str> = e.lines().skip_while(|l| !l.starts_with("error")).take(12).collect();
        return format!("NOBUILD {}\n", e.join(" / "));
    }
    let sub = c.profile;
    let exe = format!("{}/build-{}/{sub}/p20d", dir(), slug(c));
    let mut p = match Command::new(exe)
        .args(if tier == Tier::Thorough { &["thorough"][..] } else { &[] })
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
    {
        Ok(p) => p,
        Err(e) => return format!("NOBUILD program does not start: {e}\n"),
    };
    let mut so = p.stdout.take().unwrap();
    let h = std::thread::spawn(move || {
        let mut s = vec![];
        let _ = so.read_to_end(&mut s);
        String::from_utf8_lossy(&s).to_string()
    });
    let t0 = Instant::now();
    let end = loop {
        if let Some(s) = p.try_wait().unwrap() {
            break if s.success() { String::new() } else { format!("DIED {s}\n") };
        }
        if t0.elapsed() > Duration::from_secs(tier.q(200, 500)) {
            let _ = p.kill();
            let _ = p.wait();
            break "DIED did not terminate\n".to_string();
        }
        std::thread::sleep(Duration::from_millis(20));
    };
    h.join().unwrap() + &end
}
fn prepare(tier: Tier) {
    std::fs::create_dir_all(dir()).unwrap();
    let next = std::sync::atomic::AtomicUsize::new(0);
    let cs = configs(tier);
    std::thread::scope(|s| {
        for _ in 0..8 {
            s.spawn(|| loop {
                let i = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                let Some(c) = cs.get(i) else { return };
                let t0 = Instant::now();
                std::fs::write(out_file(c), produce(c, tier)).unwrap();
                if std::env::var("HV_VERBOSE").is_ok() {
                    println!("{}: {:?}", c.name, t0.elapsed());
                }
            });
        }
    });
    std::env::set_var("HV_P20_READY", "1");
    if let Ok(t) = std::fs::read_to_string(out_file(cs[0])) {
        if t.starts_with("NOBUILD") {
            eprintln!("the reference configuration does not build: {t}");
            std::process::exit(2);
        }
    }
}

type Lines = BTreeMap<String, (String, u64)>;
/// Err: what is wrong with the output by itself.
fn parse(c: &C) -> Result<Lines, String> {
    let t = std::fs::read_to_string(out_file(c)).map_err(|e| format!("no output of {}: {e}", c.name))?;
    if let Some(e) = t.strip_prefix("NOBUILD ") {
        return Err(format!("configuration '{}' does not build: {e}", c.name));
    }
    let mut m = Lines::new();
    let mut last = "(nothing)".to_string();
    let mut end = false;
    for l in t.lines() {
        if l == "END" {
            end = true;
            continue;
        }
        if let Some(e) = l.strip_prefix("DIED ") {
            return Err(format!("configuration '{}': the program died ({e}) in the case after {last}", c.name));
        }
        let f: Vec<&str> = l.split('\t').collect();
        ensure!(f.len() == 3, "configuration '{}': malformed line after {last}", c.name);
        ensure!(!f[1].starts_with("FAIL"), "configuration '{}', case {}: {}", c.name, f[0], f[1]);
        last = f[0].to_string();
        m.insert(f[0].into(), (f[1].into(), f[2].parse().unwrap_or(0)));
    }
    ensure!(end, "configuration '{}': output ends after {last}", c.name);
    Ok(m)
}
/// Needs 256 or 128 bit masks, which exist with simd only.
fn wide_only(name: &str) -> bool {
    ["128", "256", "u64x", "/w128", "/w256", "M1", "M2", "M3", "L1", "L2", "L3", "L8"].iter().any(|s| name.contains(s))
}
fn compare(c: &C) -> Result<Out, String> {
    let r = parse(CONFIGS.iter().find(|_| true).unwrap())?;
    let m = parse(c)?;
    let simd = c.features.contains(&"simd");
    let mut n = 0;
    for (k, (d, cnt)) in &r {
        match m.get(k) {
            None => ensure!(!simd && wide_only(k), "configuration '{}': case {k} is missing", c.name),
            Some((x, cnt2)) => {
                ensure!(x == d && cnt == cnt2, "configuration '{}': case {k} gives other results than '{}'", c.name, CONFIGS[0].name);
                n += cnt;
            }
        }
    }
    for k in m.keys() {
        ensure!(r.contains_key(k) || k == "may_dangle", "configuration '{}': case {k} exists here only", c.name);
    }
    let dangle = c.features.contains(&"may_dangle");
    ensure!(m.contains_key("may_dangle") == dangle, "configuration '{}': dangling references", c.name);
    run::inner(n);
    Ok(Out { canon: n as u128, nontrivial: n > 0 })
}

/// Values whose destructor reads a reference must be refused by the compiler, with and without
/// may_dangle, when the target goes first.
const SNIPPETS: &[(&str, bool)] = &[
    // (body, must compile with may_dangle)
    ("let mut d: DenseTree<&u64, 2>; let v: u64; d = Default::default(); v = 5; d.insert(70, &v); let _ = d.get(70);", true),
    ("let mut d: SparseTree<w::depth_2, &u64>; let v: u64; d = Default::default(); v = 5; d.insert(70, &v); let _ = d.get(70);", true),
    ("let mut d: DenseTree<Reads<'_>, 2>; let v: u64; d = Default::default(); v = 5; d.insert(70, Reads(&v)); let _ = d.get(70);", false),
    ("let mut d: SparseTree<w::depth_2, Reads<'_>>; let v: u64; d = Default::default(); v = 5; d.insert(70, Reads(&v)); let _ = d.get(70);", false),
    ("let mut d: DenseTree<Holds<'_>, 2>; let v: u64; d = Default::default(); v = 5; d.insert(70, Holds(Reads(&v))); let _ = d.get(70);", false),
    ("let mut d: SparseTree<w::depth_2, Vec<Reads<'_>>>; let v: u64; d = Default::default(); v = 5; d.insert(70, vec![Reads(&v)]); let _ = d.get(70);", false),
];
/// Directories with compiled libraries, and the newest one of hibit_tree.
fn libs(d: &std::path::Path, dirs: &mut Vec<std::path::PathBuf>, rlib: &mut Option<(std::path::PathBuf, std::time::SystemTime)>) {
    for e in std::fs::read_dir(d).into_iter().flatten().flatten() {
        let p = e.path();
        let Ok(m) = e.metadata() else { continue };
        if m.is_dir() {
            libs(&p, dirs, rlib);
            continue;
        }
        let n = e.file_name().to_string_lossy().to_string();
        if n.starts_with("lib") && (n.ends_with(".rlib") || n.ends_with(".rmeta") || n.ends_with(".so")) && !dirs.iter().any(|x| x == d) {
            dirs.push(d.to_path_buf());
        }
        if n.starts_with("libhibit_tree-") && n.ends_with(".rlib") {
            let t = m.modified().unwrap_or(std::time::UNIX_EPOCH);
            if rlib.as_ref().is_none_or(|r| t >= r.1) {
                *rlib = Some((p, t));
            }
        }
    }
}
fn snippet(i: usize) -> Result<Out, String> {
    let c = CONFIGS.iter().find(|c| c.features.contains(&"may_dangle")).unwrap();
    let mut dirs = vec![];
    let mut rlib = None;
    libs(std::path::Path::new(&format!("{}/build-{}/{}", dir(), slug(c), c.profile)), &mut dirs, &mut rlib);
    let (rlib, _) = rlib.ok_or("no compiled library")?;
    let (body, ok) = SNIPPETS[i];
    let src = format!(
        "#![allow(unused)] extern crate hibit_tree; use hibit_tree::{{DenseTree, SparseTree, HibitTree, config::width_64 as w}};\n\
         struct Reads<'a>(&'a u64); impl Drop for Reads<'_> {{ fn drop(&mut self) {{ assert!(*self.0 == 5) }} }}\n\
         struct Holds<'a>(Reads<'a>);\nfn main() {{ {body} }}\n"
    );
    let f = format!("{}/snippet{i}-{}.rs", dir(), std::process::id());
    std::fs::write(&f, src).map_err(|e| e.to_string())?;
    let o = Command::new("rustc")
        .args(["--edition", "2021", "--emit=metadata", "--crate-name", "snippet", "-o", &format!("{f}.rmeta"), &f])
        .args(dirs.iter().map(|d| format!("-Ldependency={}", d.display())))
        .arg("--extern")
        .arg(format!("hibit_tree={}", rlib.display()))
        .arg("--extern")
        .arg(format!("hibit_tree={}", rlib.with_extension("rmeta").display()))
        .env("RUSTUP_TOOLCHAIN", NIGHTLY)
        .stdin(Stdio::null())
        .output();
    let _ = std::fs::remove_file(format!("{f}.rmeta"));
    let _ = std::fs::remove_file(&f);
    let o = o.map_err(|e| e.to_string())?;
    let e = String::from_utf8_lossy(&o.stderr).to_string();
    let first = e.lines().find(|l| l.starts_with("error")).unwrap_or("").to_string();
    if ok {
        ensure!(o.status.success(), "with may_dangle this does not compile: {body} ({first})");
    } else {
        ensure!(!o.status.success(), "a value's destructor can read a reference to a variable that is gone; this compiles: {body}");
        ensure!(first.contains("E0597"), "refused for another reason: {body} ({first})");
    }
    Ok(Out { canon: i as u128, nontrivial: true })
}

fn tasks(tier: Tier) -> Vec<Box<dyn Task>> {
    let mut v: Vec<Box<dyn Task>> = vec![];
    for c in configs(tier) {
        v.push(prod(format!("configuration {}", c.name), &[1], move |_| compare(c), move |_| {
            format!("toolchain {}, profile {}, features {:?}, target features '{}'", c.toolchain, c.profile, c.features, c.target)
        }));
    }
    v.push(prod("borrow checker", &[SNIPPETS.len()], |p| snippet(p[0] as usize), |p| SNIPPETS[p[0] as usize].0.into()));
    v
}
fn main() {
    if std::env::var("HV_P20_READY").is_err() && std::env::args().nth(2).as_deref() != Some("--list") {
        let a: Vec<String> = std::env::args().collect();
        let replay = a.get(2).map(|s| s.as_str()) == Some("--replay") && std::fs::read_to_string(&a[3]).is_ok_and(|t| t.contains("tier: thorough"));
        prepare(if replay || a.get(1).map(|s| s.as_str()) == Some("thorough") { Tier::Thorough } else { Tier::Quick });
    }
    run::main(Check {
        id: "P20",
        level: "exploration",
        rule: "a case is one configuration, in which all histories, fills, expressions and mask operations of the fixed exhaustive program run and are compared line by line with the reference configuration and the model; action_sequences_inside_cases counts them",
        assumptions: &[
            "configurations this machine cannot execute are left out",
            "with may_dangle, the compiler's borrow check decides which values may dangle",
        ],
        tasks,
    })
}
