#!/usr/bin/env python3
"""Development aid (no check uses it): small syntactic mutants of the crate, to find what the checks miss.

mutate.py gen [FILE...]          print the mutants
mutate.py run OUT SLOTS [FILE...] run them: a mutant that builds and passes the repository's tests is run
                                 against the checks of its file, in order, until one catches it.
Works on copies under /tmp/mut (/tmp/mut/base is a clone of /repo); OUT is a JSON-lines log (mutants already in it are skipped)."""
import json, os, random, re, shutil, subprocess, sys, threading, queue, time
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = "/tmp/mut"
DENSE = "P01 P12 P03 P14 P13 P19 P21 P15".split()
SPARSE = "P02 P12 P03 P14 P13 P19 P21 P15".split()
OPS = "P10 P16 P25 P23 P15".split()
FILES = {
 "src/dense_tree.rs": DENSE, "src/dense_tree/node.rs": DENSE, "src/dense_tree/from.rs": ["P11", "P25", "P13", "P15", "P21", "P26"],
 "src/sparse_tree.rs": SPARSE, "src/sparse_tree_levels.rs": SPARSE, "src/level/intrusive_list_level.rs": SPARSE,
 "src/level/single_block_level.rs": SPARSE, "src/level/level.rs": SPARSE, "src/level_block/block.rs": SPARSE, "src/level_block/mod.rs": SPARSE,
 "src/config.rs": ["P14", "P02", "P16", "P12", "P15"], "src/bit_utils.rs": ["P17", "P14", "P01", "P02", "P03", "P20"],
 "src/bit_block.rs": ["P17", "P02", "P03", "P14", "P20"], "src/bit_queue.rs": ["P17", "P03", "P20"], "src/utils/primitive.rs": ["P17", "P02", "P20"],
 "src/iter.rs": ["P03", "P10", "P25", "P05", "P14"], "src/hibit_tree.rs": ["P14", "P16", "P05", "P03", "P25", "P10", "P15", "P07"],
 "src/ops/intersection.rs": ["P05"] + OPS, "src/ops/union.rs": ["P06"] + OPS,
 "src/ops/_multi_intersection.rs": ["P07"] + OPS, "src/ops/_multi_union.rs": ["P08"] + OPS,
 "src/ops/map.rs": ["P09"] + OPS, "src/ops/multi_map_fold.rs": ["P09"] + OPS,
 "src/const_utils/const_int.rs": ["P22", "P01", "P02"], "src/const_utils/const_loop.rs": ["P22"], "src/const_utils/const_array.rs": ["P22", "P02"],
 "src/const_utils/cond_type.rs": ["P22", "P02"], "src/const_utils/const_bool.rs": ["P22", "P02"],
 "src/utils/array.rs": ["P22", "P07", "P02", "P26"], "src/utils/lazy_value.rs": ["P13", "P01", "P02"], "src/utils/function.rs": ["P09"],
 "src/utils/borrowable.rs": ["P05", "P10"], "src/utils/take.rs": ["P01", "P11"], "src/utils/mod.rs": ["P02"], "src/ref_or_val.rs": ["P07", "P10"],
 "src/req_default.rs": ["P02"],
}
SUB = [(r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "),
       (r" && ", " || "), (r" \|\| ", " && "), (r" \+ 1\b", ""), (r" \+ 1\b", " + 2"), (r" - 1\b", ""), (r"\+ ", "- "), (r" - ", " + "),
       (r" \| ", " & "), (r" & ", " | "), (r" << ", " >> "), (r" >> ", " << "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
       (r"\b0\b", "1"), (r"\b1\b", "0"), (r"\b1\b", "2"), (r"\b64\b", "63"), (r"\b64\b", "65"), (r"\b32\b", "31"),
       (r" -= ", " += "), (r" \+= ", " -= "), (r" \* ", " + "), (r"if unlikely\(", "if !("), (r"\bif !", "if "), (r"\bif ([a-z])", r"if !\1"),
       (r"\.min\(", ".max("), (r"\.max\(", ".min("), (r"wrapping_add", "wrapping_sub"), (r"wrapping_sub", "wrapping_add"),
       (r"continue;", "break;"), (r"break;", "continue;"), (r"\.rev\(\)", ""), (r"(\w+)\.0\b", r"\1.1"), (r"(\w+)\.1\b", r"\1.0"), (r"\bs0\b", "s1"), (r"\bs1\b", "s0"),
       (r"\bleft\b", "right"), (r"\bright\b", "left"), (r"level_index\b", "0"), (r"\bprev\b", "next"), (r"trailing_zeros", "leading_zeros"),
       (r"is_some\(\)", "is_none()"), (r"is_none\(\)", "is_some()"), (r"unset_bit|set_bit", "get_bit"), (r"DEPTH-1", "DEPTH-2"), (r"DEPTH - 1", "DEPTH"), (r"mem::forget\((\w+)\)", r"drop(\1)"),
       (r"return None;", ""), (r"\bi8\b|\bu8\b", "u16"), (r"as usize\b", "as u8 as usize"), (r"as usize\b", "as u16 as usize")]

def gen(files):
    out = []
    for f in files:
        lines = open(B + "/base/" + f).read().split("\n")
        end = next((i for i, l in enumerate(lines) if l.strip().startswith("#[cfg(test)]") and i + 1 < len(lines) and lines[i + 1].rstrip().endswith("{")), len(lines))
        com = False
        for i, l in enumerate(lines[:end]):
            s = l.strip()
            was = com
            com = (com or "/*" in l) and l.rfind("*/") <= l.rfind("/*")
            if was or com:
                continue
            if not s or s.startswith(("//", "#", "use ", "*", "/*", "pub use", "impl", "where", "type ", "mod ", "debug_assert", "macro")):
                continue
            code = l.split("//")[0]
            seen = set()
            for a, b in SUB:
                for m in re.finditer(a, code):
                    n = code[:m.start()] + re.sub(a, b, m.group(0)) + code[m.end():] if not m.groups() else code[:m.start()] + m.expand(b) + code[m.end():]
                    if n != code and n not in seen:
                        seen.add(n)
                        out.append({"file": f, "line": i + 1, "old": l, "new": n + l[len(code):]})
            if s.endswith(";") and not s.startswith(("let ", "return", "const ", "static ", "pub ", "}", "fn ", ")")) and l.count("(") == l.count(")"):
                ind = l[:len(l) - len(l.lstrip())]
                out.append({"file": f, "line": i + 1, "old": l, "new": ind + "();"})
    for m in out:
        m["id"] = "%s:%d:%s" % (m["file"], m["line"], m["new"].strip())
    return out

ENV = dict(os.environ, RUSTUP_TOOLCHAIN="nightly-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
           PATH="/root/.cargo/bin:" + os.environ["PATH"], RUSTFLAGS="", HOME="/root")
def sh(cmd, cwd, t, env=None):
    p = subprocess.Popen(cmd, shell=True, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
    try:
        o, _ = p.communicate(timeout=t)
        return p.returncode, o.decode(errors="replace")
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9); p.communicate()
        return 124, "timeout"

def slot(k):
    d = f"{B}/{k}"
    if not os.path.exists(d):
        os.makedirs(d)
        sh(f"cp -a {B}/base {d}/repo; rm -rf {d}/repo/.git; mkdir {d}/verif; cp -a {R}/check.sh {R}/known_findings.txt {d}/verif; mkdir {d}/verif/harness {d}/verif/evidence {d}/verif/replays; cp -a {R}/harness/src {R}/harness/Cargo.* {d}/verif/harness; rsync -a --exclude target {R}/miri {d}/verif/ || cp -a {R}/miri {d}/verif", "/", 200)
        sh(f"grep -rl /repo {d}/verif/harness {d}/verif/miri --include=Cargo.toml --include=*.rs | xargs sed -i 's#\"/repo\"#\"{d}/repo\"#g'", "/", 60)
    return d

def one(m, k, jobs):
    d = slot(k)
    f = f"{d}/repo/{m['file']}"
    src = open(B + "/base/" + m["file"]).read()
    L = src.split("\n")
    assert L[m["line"] - 1] == m["old"]
    L[m["line"] - 1] = m["new"]
    open(f, "w").write("\n".join(L))
    try:
        env = dict(ENV, RUSTFLAGS="-Awarnings")
        rc, o = sh(f"cargo build -j{jobs} --offline", d + "/repo", 200, env)
        if rc: return "nobuild", ""
        rc, o = sh(f"cargo test -j{jobs} --offline --lib --tests -- --test-threads 2", d + "/repo", 90, env)
        if rc: return "tests", "timeout" if rc == 124 else ""
        log = []
        for c in FILES[m["file"]]:
            t = time.time()
            e = dict(ENV, HV_EVIDENCE=f"{d}/ev.json", HV_WORKERS=str(jobs), CARGO_BUILD_JOBS=str(jobs)); e.pop("RUSTFLAGS")
            rc, o = sh(f"taskset -c {(int(k)*jobs)%8}-{(int(k)*jobs)%8+jobs-1} ./check.sh {c} quick", d + "/verif", 900, e)
            log.append((c, rc, round(time.time() - t)))
            if rc == 1:
                v = [x for x in o.split("\n") if "VIOLATION" in x]
                return "caught", c + " " + (v[0][:150] if v else "")
            if rc not in (0,):
                return "odd", f"{c} rc={rc} " + o[-300:]
        rc, o = sh(f"cargo test -j{jobs} --offline --doc", d + "/repo", 120, env)
        if rc: return "tests", "doc"
        return "SURVIVED", str(log)
    finally:
        open(f, "w").write(src)

if __name__ == "__main__":
    if sys.argv[1] == "gen":
        for m in gen(sys.argv[2:] or FILES): print(m["id"])
    else:
        out, n = sys.argv[2], int(sys.argv[3])
        ms = gen(sys.argv[4:] or FILES)
        done = {json.loads(l)["id"] for l in open(out)} if os.path.exists(out) else set()
        q = queue.Queue(); todo = []
        for m in ms:
            if m["id"] not in done: todo.append(m)
        random.Random(1).shuffle(todo)
        for m in todo: q.put(m)
        lk = threading.Lock()
        def work(k):
            while True:
                try: m = q.get_nowait()
                except queue.Empty: return
                try: r, i = one(m, k, int(os.environ.get('JOBS', 8 // n)))
                except Exception as e: r, i = "error", repr(e)
                with lk:
                    open(out, "a").write(json.dumps({"id": m["id"], "r": r, "info": i, "old": m["old"]}) + "\n")
        ts = [threading.Thread(target=work, args=(str(k),)) for k in range(n)]
        [t.start() for t in ts]; [t.join() for t in ts]
