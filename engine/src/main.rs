//! llsym: bounded symbolic execution of LLVM IR with z3 as the decision procedure.
mod exec;
mod ir;
mod mem;
mod term;
mod z3;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;
use std::time::{Duration, Instant};

extern "C" {
    fn fork() -> i32;
    fn waitpid(p: i32, st: *mut i32, o: i32) -> i32;
    fn _exit(c: i32) -> !;
    fn mmap(a: *mut u8, n: usize, pr: i32, fl: i32, fd: i32, off: i64) -> *mut u8;
}

/// Very small v0 demangler: keeps the identifiers of the path.
pub fn demangle(n: &str) -> String {
    if !n.starts_with("_R") { return n.to_string(); }
    let b = n.as_bytes();
    let mut out: Vec<String> = vec![];
    let mut i = 2;
    while i < b.len() {
        if b[i].is_ascii_digit() && b[i] != b'0' {
            let mut j = i;
            while j < b.len() && b[j].is_ascii_digit() { j += 1; }
            let l: usize = n[i..j].parse().unwrap_or(0);
            let mut st = j;
            if st < b.len() && b[st] == b'_' { st += 1; }
            // crate disambiguators look like Cs<base62>_<len><name>
            if l > 0 && st + l <= b.len() && (b[st].is_ascii_alphabetic() || b[st] == b'_') { out.push(n[st..st + l].to_string()); i = st + l; continue; }
            i = j;
            continue;
        }
        if b[i] == b's' && i > 0 { // s<base62>_
            let mut j = i + 1;
            while j < b.len() && b[j].is_ascii_alphanumeric() { j += 1; }
            if j < b.len() && b[j] == b'_' { i = j + 1; continue; }
        }
        i += 1;
    }
    out.join("::")
}

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o += "\\\"", '\\' => o += "\\\\", '\n' => o += "\\n", '\r' => o += "\\r", '\t' => o += "\\t", c if (c as u32) < 32 => { let _ = write!(o, "\\u{:04x}", c as u32); } c => o.push(c) } }
    o.push('"');
    o
}

#[derive(Default)]
struct Out {
    nums: BTreeMap<String, u64>,
    maxs: BTreeMap<String, u64>,
    covers: BTreeMap<String, u64>,
    checks: BTreeMap<String, u64>,
    violations: Vec<(String, String, String, String)>,
    errors: Vec<String>,
    failed: Vec<(String, String)>,
    samples: Vec<(String, String)>,
    lines: BTreeSet<(String, u32, String)>,
}

fn collect(e: &exec::Engine) -> String {
    // line-based record so that workers can hand results back through files
    let mut o = String::new();
    let n = |o: &mut String, k: &str, v: u64| { let _ = writeln!(o, "N\t{k}\t{v}"); };
    n(&mut o, "paths", e.st.paths);
    n(&mut o, "infeasible", e.st.infeasible);
    n(&mut o, "instructions", e.st.steps);
    n(&mut o, "forks", e.st.forks);
    n(&mut o, "merges", e.st.merges);
    n(&mut o, "checks_solver", e.st.checks_solver);
    n(&mut o, "checks_trivial", e.st.checks_trivial);
    n(&mut o, "queries", e.sol.queries);
    n(&mut o, "sat", e.sol.sat);
    n(&mut o, "unsat", e.sol.unsat);
    n(&mut o, "queries_int", e.sol.int_queries);
    n(&mut o, "solver_ms", e.sol.time.as_millis() as u64);
    let _ = writeln!(o, "M\tslowest_ms\t{}", e.sol.slowest.as_millis());
    let _ = writeln!(o, "M\tmax_path_conditions\t{}", e.st.max_pcs);
    let _ = writeln!(o, "M\tmax_inputs\t{}", e.st.max_inputs);
    let _ = writeln!(o, "M\tterms\t{}", term::ctx().nodes.len());
    for (k, v) in &e.covers { let _ = writeln!(o, "C\t{k}\t{v}"); }
    for (k, v) in &e.checks { let _ = writeln!(o, "K\t{k}\t{v}"); }
    let enc = |v: &Vec<(u16, u128)>| v.iter().map(|(w, x)| format!("{w}:{x}")).collect::<Vec<_>>().join(",");
    for v in &e.violations { let _ = writeln!(o, "V\t{}\t{}\t{}\t{}", v.kind, v.msg.replace(['\t', '\n'], " "), enc(&v.inputs), v.detail.replace(['\t', '\n'], " ")); }
    for x in &e.errors { let _ = writeln!(o, "E\t{}", x.replace(['\t', '\n'], " ")); }
    for (x, i) in &e.failed { let _ = writeln!(o, "X\t{}\t{}", x.replace(['\t', '\n'], " "), enc(i)); }
    if let Some(x) = &e.incomplete { let _ = writeln!(o, "E\tincomplete: {x}"); }
    for (i, l) in &e.samples { let _ = writeln!(o, "S\t{}\t{}", enc(i), l.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")); }
    let mut seen = BTreeSet::new();
    for (d, c) in e.cov.iter().enumerate() {
        if !*c { continue; }
        if let Some((f, l, fun)) = e.loc_parts(d as u32) { if seen.insert((f.clone(), l, fun.clone())) { let _ = writeln!(o, "L\t{f}\t{l}\t{}", demangle(&fun)); } }
    }
    o
}

fn absorb(o: &mut Out, text: &str) {
    for l in text.lines() {
        let p: Vec<&str> = l.split('\t').collect();
        match p[0] {
            "N" => *o.nums.entry(p[1].into()).or_insert(0) += p[2].parse::<u64>().unwrap_or(0),
            "M" => { let e = o.maxs.entry(p[1].into()).or_insert(0); *e = (*e).max(p[2].parse().unwrap_or(0)); }
            "C" => *o.covers.entry(p[1].into()).or_insert(0) += p[2].parse::<u64>().unwrap_or(0),
            "K" => *o.checks.entry(p[1].into()).or_insert(0) += p[2].parse::<u64>().unwrap_or(0),
            "V" => if o.violations.iter().filter(|v| v.1 == p[2]).count() < 3 { o.violations.push((p[1].into(), p[2].into(), p[3].into(), p[4].into())) },
            "E" => if o.errors.len() < 20 && !o.errors.contains(&p[1].to_string()) { o.errors.push(p[1].into()) },
            "X" => if o.failed.len() < 20 { o.failed.push((p[1].into(), p[2].into())) },
            "S" => o.samples.push((p[1].into(), p.get(2).unwrap_or(&"").to_string())),
            "L" => { o.lines.insert((p[1].into(), p[2].parse().unwrap_or(0), p[3].into())); }
            _ => {}
        }
    }
}

fn main() {
    let h = std::thread::Builder::new().stack_size(4 << 30).spawn(real_main).unwrap();
    let c = h.join().unwrap_or(70);
    std::process::exit(c);
}

fn real_main() -> i32 {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 3 { eprintln!("usage: llsym FILE.ll HARNESS [--out F] [--workers N] [--time S] [--merge N] [--param k=v] [--samples N]"); return 64; }
    let (file, harness) = (&a[1], &a[2]);
    let mut out = None;
    let mut workers = 1usize;
    let mut time = 600u64;
    let mut merge = 1u8;
    let mut samples = 24usize;
    let mut params = vec![];
    let mut qms = 20_000u32;
    let mut fms = 120_000u32;
    let mut max_steps = 30_000_000u64;
    let mut i = 3;
    while i < a.len() {
        let v = a.get(i + 1).cloned().unwrap_or_default();
        match a[i].as_str() {
            "--out" => out = Some(v), "--workers" => workers = v.parse().unwrap(), "--time" => time = v.parse().unwrap(), "--merge" => merge = v.parse().unwrap(),
            "--samples" => samples = v.parse().unwrap(), "--query-ms" => qms = v.parse().unwrap(), "--fallback-ms" => fms = v.parse().unwrap(), "--max-steps" => max_steps = v.parse().unwrap(),
            "--param" => { let (k, x) = v.split_once('=').unwrap(); params.push((k.to_string(), x.parse::<u64>().unwrap())); }
            x => { eprintln!("unknown option {x}"); return 64; }
        }
        i += 2;
    }
    let t0 = Instant::now();
    let m = match ir::Module::load(file) { Ok(m) => m, Err(e) => { eprintln!("{e}"); return 70; } };
    let sol = z3::Solver::new(qms, fms);
    let mut e = exec::Engine::new(m, sol, t0 + Duration::from_secs(time));
    e.merge_default = merge;
    e.max_samples = samples;
    e.max_steps = max_steps;
    for (k, v) in params { e.params.insert(k, v); }
    let st = match e.start(harness) { Ok(s) => s, Err(x) => { eprintln!("{x}"); return 70; } };
    let mut o = Out::default();
    if workers <= 1 {
        e.explore(st);
        absorb(&mut o, &collect(&e));
    } else {
        let states = e.expand(st, workers * 60);
        let n = states.len();
        let shared = unsafe { mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) };
        let ctr = unsafe { &*(shared as *const std::sync::atomic::AtomicUsize) };
        let pid = std::process::id();
        let dir = std::env::temp_dir();
        let mut kids = vec![];
        absorb(&mut o, &collect(&e));
        for w in 0..workers.min(n.max(1)) {
            let c = unsafe { fork() };
            if c == 0 {
                e.sol.abandon();
                let (q, sa, un, ti) = (0, 0, 0, Duration::ZERO);
                e.sol.queries = q; e.sol.int_queries = 0; e.sol.sat = sa; e.sol.unsat = un; e.sol.time = ti;
                e.st = exec::Stats::default();
                e.violations.clear(); e.errors.clear(); e.failed.clear(); e.covers.clear(); e.checks.clear(); e.samples.clear();
                e.max_samples = (samples / workers).max(2);
                let mut states: Vec<Option<exec::State>> = states.into_iter().map(Some).collect();
                loop {
                    let k = ctr.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                    if k >= n || e.incomplete.is_some() { break; }
                    let s = states[k].take().unwrap();
                    e.explore(s);
                }
                let _ = std::fs::write(dir.join(format!("llsym.{pid}.{w}")), collect(&e));
                unsafe { _exit(0) };
            }
            kids.push((w, c));
        }
        for (w, c) in kids {
            let mut stt = 0;
            unsafe { waitpid(c, &mut stt, 0); }
            let f = dir.join(format!("llsym.{pid}.{w}"));
            match std::fs::read_to_string(&f) { Ok(t) if stt == 0 => absorb(&mut o, &t), _ => o.errors.push(format!("worker {w} failed (status {stt})")) }
            let _ = std::fs::remove_file(&f);
        }
    }
    // JSON
    let mut j = String::from("{");
    let _ = write!(j, "\"harness\":{},\"wall_ms\":{},\"solver\":{}", jstr(harness), t0.elapsed().as_millis(), jstr(&z3::version()));
    for (k, v) in o.nums.iter().chain(o.maxs.iter()) { let _ = write!(j, ",{}:{}", jstr(k), v); }
    let map = |m: &BTreeMap<String, u64>| format!("{{{}}}", m.iter().map(|(k, v)| format!("{}:{}", jstr(k), v)).collect::<Vec<_>>().join(","));
    let _ = write!(j, ",\"covers\":{},\"checks\":{}", map(&o.covers), map(&o.checks));
    let inp = |s: &str| format!("[{}]", s.split(',').filter(|x| !x.is_empty()).map(|x| { let (w, v) = x.split_once(':').unwrap(); format!("[{w},\"{v}\"]") }).collect::<Vec<_>>().join(","));
    let _ = write!(j, ",\"violations\":[{}]", o.violations.iter().map(|v| format!("{{\"kind\":{},\"msg\":{},\"inputs\":{},\"where\":{}}}", jstr(&v.0), jstr(&v.1), inp(&v.2), jstr(&v.3))).collect::<Vec<_>>().join(","));
    let _ = write!(j, ",\"errors\":[{}]", o.errors.iter().map(|x| jstr(x)).collect::<Vec<_>>().join(","));
    let _ = write!(j, ",\"failed\":[{}]", o.failed.iter().map(|v| format!("{{\"msg\":{},\"inputs\":{}}}", jstr(&v.0), inp(&v.1))).collect::<Vec<_>>().join(","));
    let _ = write!(j, ",\"samples\":[{}]", o.samples.iter().map(|s| format!("{{\"inputs\":{},\"log\":[{}]}}", inp(&s.0), s.1.split(',').filter(|x| !x.is_empty()).map(|x| format!("\"{x}\"")).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(","));
    let _ = write!(j, ",\"lines\":[{}]", o.lines.iter().map(|(f, l, n)| format!("[{},{},{}]", jstr(f), l, jstr(n))).collect::<Vec<_>>().join(","));
    j.push_str("}\n");
    match out { Some(p) => { if std::fs::write(&p, &j).is_err() { return 70; } } None => print!("{j}") }
    if !o.errors.is_empty() { 2 } else if !o.violations.is_empty() { 1 } else { 0 }
}
