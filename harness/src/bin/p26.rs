//! P26: safe use executes no undefined behaviour.
//! /verif/miri holds exhaustive families of small cases; each case runs in the Miri interpreter, which
//! checks every memory access, every value and every reference against the language's abstract machine.
use hv::run::{self, Check, Out, Task, Tier};
use hv::task::prod;
use std::io::Read;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::time::{Duration, Instant};

const NIGHTLY: &str = "nightly-x86_64-unknown-linux-gnu";

fn dir() -> String {
    format!("{}/harness/target/p26", run::root())
}
fn word(t: Tier) -> &'static str {
    t.q("quick", "thorough")
}
fn mi(flags: &str, args: &[&str]) -> Command {
    let root = run::root();
    let mut k = Command::new("cargo");
    k.args(["miri", "run", "-q", "--offline", "--manifest-path", &format!("{root}/miri/Cargo.toml")])
        .args(["--target-dir", &dir(), "--"])
        .args(args)
        .env("RUSTUP_TOOLCHAIN", NIGHTLY)
        .env("CARGO_NET_OFFLINE", "true")
        .env("CARGO_TERM_COLOR", "never")
        .env("RUSTFLAGS", "-Awarnings")
        .env("MIRIFLAGS", format!("-Zmiri-tree-borrows {flags}"))
        .env_remove("CARGO_TARGET_DIR")
        .env_remove("CARGO_ENCODED_RUSTFLAGS")
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped());
    if std::env::var("HOME").is_err() {
        k.env("HOME", "/root");
    }
    k
}
struct Ran {
    ok: bool,
    out: String,
    err: String,
}
fn wait(mut c: Command, limit: Duration) -> Ran {
    use std::os::unix::process::CommandExt;
    c.process_group(0);
    let mut p = match c.spawn() {
        Ok(p) => p,
        Err(e) => return Ran { ok: false, out: String::new(), err: format!("error: cargo does not start: {e}") },
    };
    let (mut so, mut se) = (p.stdout.take().unwrap(), p.stderr.take().unwrap());
    let h = std::thread::spawn(move || {
        let mut s = vec![];
        let _ = so.read_to_end(&mut s);
        String::from_utf8_lossy(&s).to_string()
    });
    let g = std::thread::spawn(move || {
        let mut s = vec![];
        let _ = se.read_to_end(&mut s);
        String::from_utf8_lossy(&s).to_string()
    });
    let t0 = Instant::now();
    let mut late = false;
    let ok = loop {
        if let Some(s) = p.try_wait().unwrap() {
            break s.success();
        }
        if t0.elapsed() > limit {
            unsafe { libc::kill(-(p.id() as i32), libc::SIGKILL) };
            let _ = p.wait();
            late = true;
            break false;
        }
        std::thread::sleep(Duration::from_millis(10));
    };
    let (out, mut err) = (h.join().unwrap(), g.join().unwrap());
    if late {
        err = format!("error: did not terminate within {} s\n{err}", limit.as_secs());
    }
    Ran { ok: ok && !late, out, err }
}
/// What is wrong, or "".
fn verdict(r: &Ran) -> String {
    if let Some(l) = r.out.lines().find(|l| l.starts_with("FAIL ")) {
        return l.splitn(3, ' ').nth(2).unwrap_or("").to_string();
    }
    if r.ok && r.out.lines().last() == Some("DONE") {
        return String::new();
    }
    let mut l = r.err.lines().skip_while(|l| !l.starts_with("error"));
    let first = l.next().unwrap_or("error: no reason given").trim_start_matches("error: ").to_string();
    let at = l.clone().find(|l| l.trim_start().starts_with("--> ")).map(|l| l.trim().trim_start_matches("--> ").to_string());
    let crate_at = l.find(|l| l.contains("/repo/src")).map(|l| l.trim().to_string());
    format!("{first}{}{}", at.map(|a| format!(" at {a}")).unwrap_or_default(), crate_at.map(|a| format!(" ({a})")).unwrap_or_default())
}

#[derive(Clone)]
struct Block {
    family: String,
    from: usize,
    to: usize,
}
fn blocks(list: &str) -> Vec<Block> {
    let mut v = vec![];
    for l in list.lines() {
        let f: Vec<&str> = l.split(' ').collect();
        let [family, n, b] = f[..] else { continue };
        let (n, b): (usize, usize) = (n.parse().unwrap(), b.parse().unwrap());
        for from in (0..n).step_by(b) {
            v.push(Block { family: family.into(), from, to: (from + b).min(n) });
        }
    }
    v
}
fn list_file() -> String {
    format!("{}/list.txt", dir())
}
fn file(i: usize) -> String {
    format!("{}/result-{i}.txt", dir())
}
fn prepare(tier: Tier) {
    std::fs::create_dir_all(dir()).unwrap();
    let t0 = Instant::now();
    let r = wait(mi("", &[word(tier), "list"]), Duration::from_secs(600));
    if !r.ok {
        let e: Vec<&str> = r.err.lines().skip_while(|l| !l.starts_with("error")).take(20).collect();
        eprintln!("the interpreted program does not build or start:\n{}", e.join("\n"));
        std::process::exit(2);
    }
    std::fs::write(list_file(), &r.out).unwrap();
    let bs = blocks(&r.out);
    let mut order: Vec<usize> = (0..bs.len()).collect();
    // long ones first
    order.sort_by_key(|i| !bs[*i].family.starts_with("fill"));
    let (next, bad) = (AtomicUsize::new(0), AtomicUsize::new(0));
    let limit = Duration::from_secs(tier.q(600, 780));
    std::thread::scope(|s| {
        for _ in 0..8 {
            s.spawn(|| loop {
                let Some(&i) = order.get(next.fetch_add(1, SeqCst)) else { return };
                let b = &bs[i];
                let t1 = Instant::now();
                let out = if bad.load(SeqCst) >= 4 {
                    "SKIPPED".into()
                } else if t0.elapsed() > limit {
                    "LATE".into()
                } else {
                    // unwinding may leak
                    let flags = if b.family.starts_with("panic") { "-Zmiri-ignore-leaks" } else { "" };
                    let (lo, hi) = (b.from.to_string(), b.to.to_string());
                    let go = |cmd: &str| wait(mi(flags, &[word(tier), cmd, &b.family, &lo, &hi]), Duration::from_secs(240));
                    let v = verdict(&go("run"));
                    if v.is_empty() {
                        "OK".into()
                    } else {
                        bad.fetch_add(1, SeqCst);
                        let r = go("trace");
                        let case = r.out.lines().filter_map(|l| l.strip_prefix("CASE ")).last().unwrap_or("?").to_string();
                        let v2 = verdict(&r);
                        format!("BAD {} case {case}: {}", b.family, if v2.is_empty() { &v } else { &v2 })
                    }
                };
                if std::env::var("HV_VERBOSE").is_ok() {
                    println!("{:?} {} {}..{}: {}", t1.elapsed(), b.family, b.from, b.to, out);
                }
                std::fs::write(file(i), out).unwrap();
            });
        }
    });
    std::env::set_var("HV_P26_READY", "1");
}

fn tasks(_: Tier) -> Vec<Box<dyn Task>> {
    let Ok(l) = std::fs::read_to_string(list_file()) else { return vec![] };
    let all = blocks(&l);
    let mut v: Vec<Box<dyn Task>> = vec![];
    let mut start = 0;
    while start < all.len() {
        let n = all[start..].iter().take_while(|b| b.family == all[start].family).count();
        let mine = all[start..start + n].to_vec();
        let name = mine[0].family.clone();
        let m2 = mine.clone();
        v.push(prod(
            name,
            &[n],
            move |p| {
                let i = p[0] as usize;
                let r = std::fs::read_to_string(file(start + i)).map_err(|e| format!("no result: {e}"))?;
                match &r[..] {
                    "OK" => {
                        run::inner((mine[i].to - mine[i].from) as u64);
                        Ok(Out { canon: (start + i) as u128, nontrivial: true })
                    }
                    "SKIPPED" => Ok(Out { canon: 0, nontrivial: false }),
                    "LATE" => {
                        println!("not covered (time): {} {}..{}", mine[i].family, mine[i].from, mine[i].to);
                        Ok(Out { canon: 0, nontrivial: false })
                    }
                    e => Err(e.trim_start_matches("BAD ").to_string()),
                }
            },
            move |p| format!("cargo miri run, cases {}..{} of {}", m2[p[0] as usize].from, m2[p[0] as usize].to, m2[p[0] as usize].family),
        ));
        start += n;
    }
    v
}
fn main() {
    if std::env::var("HV_P26_READY").is_err() && std::env::args().nth(2).as_deref() != Some("--list") {
        let a: Vec<String> = std::env::args().collect();
        let replay = a.get(2).map(|s| s.as_str()) == Some("--replay") && std::fs::read_to_string(&a[3]).is_ok_and(|t| t.contains("tier: thorough"));
        prepare(if replay || a.get(1).map(|s| s.as_str()) == Some("thorough") { Tier::Thorough } else { Tier::Quick });
    }
    run::main(Check {
        id: "P26",
        level: "exploration",
        rule: "a case is one block of consecutive members of a family, executed in the Miri interpreter; action_sequences_inside_cases counts the members (histories, operand contents, fault points)",
        assumptions: &[
            "undefined behaviour is what Miri reports, with tree borrows as the aliasing model",
            "memory still held after a panic is not a violation",
            "unchecked and cursor methods are called only where their documentation allows it",
        ],
        tasks,
    })
}
