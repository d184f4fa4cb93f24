//! symx: bounded symbolic execution of a harness given as LLVM IR.
mod exec;
mod expr;
mod ext;
mod lex;
mod ll;
mod mem;
mod solver;
use exec::*;
use std::sync::atomic::{AtomicI32, AtomicU64, Ordering::SeqCst};

extern "C" {
    fn fork() -> i32;
    fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn kill(p: i32, s: i32) -> i32;
    fn signal(s: i32, h: usize) -> usize;
    fn _exit(c: i32) -> !;
    fn usleep(n: u32) -> i32;
}

const NS: usize = 24;
#[repr(C)]
struct Shared {
    slots: [AtomicI32; 64],
    stop: AtomicI32,
    errors: AtomicI32,
    viols: AtomicI32,
    workers: AtomicU64,
    done: AtomicU64,
    stats: [AtomicU64; NS],
}

struct Opt {
    ll: String,
    entry: String,
    arg: u64,
    out: String,
    time: u64,
    workers: usize,
    all_z3: bool,
    max_viol: i32,
    max_steps: u64,
    trace: bool,
    grace: u64,
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o + "\""
}
fn hash(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h
}
fn write_viol(o: &Opt, sh: &Shared, v: &Viol) {
    let top = v.stack.first().cloned().unwrap_or_default();
    let key = if v.kind == "assert" { format!("{}:{}", v.kind, v.msg) } else { format!("{}:{}:{}", v.kind, v.msg, top) };
    let name = format!("{}/viol-{:016x}.json", o.out, hash(&key));
    use std::io::Write;
    if let Ok(mut f) = std::fs::OpenOptions::new().write(true).create_new(true).open(&name) {
        let hex: String = v.input.iter().map(|b| format!("{:02x}", b)).collect();
        let st: Vec<String> = v.stack.iter().map(|s| esc(s)).collect();
        let t = format!(
            "{{\"kind\":{},\"msg\":{},\"arg\":{},\"input\":\"{}\",\"stack\":[{}]}}\n",
            esc(v.kind),
            esc(&v.msg),
            o.arg,
            hex,
            st.join(",")
        );
        let _ = f.write_all(t.as_bytes());
        let n = sh.viols.fetch_add(1, SeqCst) + 1;
        if n >= o.max_viol {
            sh.stop.store(1, SeqCst);
        }
    }
}
fn write_err(o: &Opt, sh: &Shared, e: &str) {
    let n = sh.errors.fetch_add(1, SeqCst);
    if n < 5 {
        let _ = std::fs::write(format!("{}/err-{}.txt", o.out, std::process::id()), e);
    }
    sh.stop.store(1, SeqCst);
}

fn add_stats(sh: &Shared, ex: &mut Exec) {
    let s = ex.stats;
    let q = ex.sv.stats;
    let v = [
        s.paths, s.killed, s.forks, s.steps, s.asserts, s.assert_symbolic, s.ite_loads, s.concretized, q.z3_queries, q.z3_ns, q.z3_unsat,
        q.z3_sat, q.dom_queries, q.cache_hits, q.cross_checked,
    ];
    for (i, x) in v.iter().enumerate() {
        sh.stats[i].fetch_add(*x, SeqCst);
    }
    sh.stats[15].fetch_max(s.max_vars, SeqCst);
    ex.stats = Default::default();
    ex.sv.stats = Default::default();
}
const NAMES: [&str; 16] = [
    "paths", "killed", "forks", "steps", "asserts", "assert_symbolic", "ite_loads", "concretized", "z3_queries", "z3_ns", "z3_unsat", "z3_sat",
    "domain_queries", "cache_hits", "cross_checked", "max_vars",
];

fn finish(o: &Opt, sh: &Shared, ex: &mut Exec, slot: usize) -> ! {
    add_stats(sh, ex);
    // coverage
    let mut t = String::new();
    for (i, h) in ex.hits.iter().enumerate() {
        if let Some(h) = h {
            let f = &ex.m.funcs[i];
            t += &format!("F {}\n", f.name);
            let code = f.code.as_ref().unwrap();
            let mut seen = std::collections::BTreeSet::new();
            for (pc, x) in h.iter().enumerate() {
                if *x != 0 && pc < code.dbg.len() {
                    seen.insert(code.dbg[pc]);
                }
            }
            for d in seen {
                t += &format!("D {}\n", d);
            }
        }
    }
    for (_, (n, c)) in &ex.covers {
        t += &format!("C {} {}\n", c, n.replace('\n', " "));
    }
    let _ = std::fs::write(format!("{}/cov-{}.txt", o.out, std::process::id()), t);
    sh.slots[slot].store(0, SeqCst);
    unsafe { _exit(0) }
}

fn worker(o: &Opt, sh: &Shared, ex: &mut Exec, mut slot: usize) -> ! {
    loop {
        let s = ex.run_slice();
        for v in std::mem::take(&mut ex.pending_viol) {
            write_viol(o, sh, &v);
        }
        let mut ended = true;
        match s {
            None => ended = false,
            Some(Stop::Done) => {
                ex.stats.paths += 1;
                // keep a few complete paths for the replay against the real code
                let n = sh.done.fetch_add(1, SeqCst) + 1;
                if n <= 2 || (n & (n - 1)) == 0 {
                    let hex: String = ex.input().iter().map(|b| format!("{:02x}", b)).collect();
                    let _ = std::fs::write(format!("{}/path-{}.txt", o.out, n), hex);
                }
            }
            Some(Stop::Killed) => ex.stats.killed += 1,
            Some(Stop::Viol(v)) => {
                ex.stats.paths += 1;
                write_viol(o, sh, &v)
            }
            Some(Stop::Err(e)) => {
                write_err(o, sh, &e);
                finish(o, sh, ex, slot)
            }
        }
        if sh.stop.load(SeqCst) != 0 {
            finish(o, sh, ex, slot)
        }
        if ended && !ex.backtrack() {
            finish(o, sh, ex, slot)
        }
        // share work
        if ex.stealable() {
            for i in 0..o.workers {
                if sh.slots[i].load(SeqCst) == 0 && sh.slots[i].compare_exchange(0, -1, SeqCst, SeqCst).is_ok() {
                    add_stats(sh, ex);
                    let p = unsafe { fork() };
                    if p == 0 {
                        sh.workers.fetch_add(1, SeqCst);
                        sh.slots[i].store(std::process::id() as i32, SeqCst);
                        slot = i;
                        ex.keep_oldest();
                        for h in ex.hits.iter_mut().flatten() {
                            for x in h.iter_mut() {
                                *x = 0
                            }
                        }
                        for c in ex.covers.values_mut() {
                            c.1 = 0
                        }
                        if !ex.backtrack() {
                            finish(o, sh, ex, slot)
                        }
                    } else if p > 0 {
                        sh.slots[i].compare_exchange(-1, p, SeqCst, SeqCst).ok();
                        ex.drop_oldest();
                    } else {
                        sh.slots[i].store(0, SeqCst);
                    }
                    break;
                }
            }
        }
    }
}

fn main() {
    let mut o = Opt {
        ll: String::new(),
        entry: "sym_main".into(),
        arg: 0,
        out: ".".into(),
        time: 600,
        workers: 8,
        all_z3: false,
        max_viol: 12,
        max_steps: 200_000_000,
        trace: false,
        grace: 15,
    };
    let mut it = std::env::args().skip(1);
    while let Some(k) = it.next() {
        let mut v = || it.next().expect("option value");
        match k.as_str() {
            "--ll" => o.ll = v(),
            "--entry" => o.entry = v(),
            "--arg" => o.arg = v().parse().unwrap(),
            "--out" => o.out = v(),
            "--time" => o.time = v().parse().unwrap(),
            "--workers" => o.workers = v().parse().unwrap(),
            "--max-viol" => o.max_viol = v().parse().unwrap(),
            "--max-steps" => o.max_steps = v().parse().unwrap(),
            "--grace" => o.grace = v().parse().unwrap(),
            "--all-z3" => o.all_z3 = true,
            "--trace" => o.trace = true,
            _ => panic!("unknown option {}", k),
        }
    }
    let o = o;
    std::fs::create_dir_all(&o.out).unwrap();
    let t0 = std::time::Instant::now();
    let mut mem = mem::Mem::new();
    let m = match ll::Module::load(&o.ll, &mut mem) {
        Ok(m) => m,
        Err(e) => {
            eprintln!("symx: load: {}", e);
            std::process::exit(3)
        }
    };
    let mut ex = Exec::new(m, mem, o.all_z3);
    ex.max_steps = o.max_steps;
    ex.trace = o.trace;
    let Some(fi) = ex.m.fmap.get(&o.entry).copied() else {
        eprintln!("symx: no entry function {}", o.entry);
        std::process::exit(3)
    };
    let sh: &'static Shared = unsafe { &*(mmap(std::ptr::null_mut(), std::mem::size_of::<Shared>(), 3, 0x21, -1, 0) as *const Shared) };
    if let Err(Stop::Err(e)) = ex.enter(fi, &[expr::Val::k(o.arg)], 0, 0) {
        eprintln!("symx: {}", e);
        std::process::exit(3)
    }
    let load_s = t0.elapsed().as_secs_f64();
    unsafe { signal(17, 1) };
    sh.slots[0].store(-1, SeqCst);
    let p = unsafe { fork() };
    if p == 0 {
        sh.slots[0].store(std::process::id() as i32, SeqCst);
        sh.workers.fetch_add(1, SeqCst);
        worker(&o, sh, &mut ex, 0);
    }
    let _ = sh.slots[0].compare_exchange(-1, p, SeqCst, SeqCst);
    let mut timeout = false;
    let mut stop_at: Option<std::time::Instant> = None;
    loop {
        unsafe { usleep(3000) };
        let mut live = 0;
        for i in 0..o.workers.max(1) {
            let p = sh.slots[i].load(SeqCst);
            if p != 0 {
                live += 1;
            }
            if p > 0 && unsafe { kill(p, 0) } != 0 && sh.slots[i].compare_exchange(p, 0, SeqCst, SeqCst).is_ok() {
                write_err(&o, sh, &format!("worker {} died", p));
            }
        }
        if live == 0 {
            break;
        }
        if sh.viols.load(SeqCst) > 0 && stop_at.is_none() {
            stop_at = Some(std::time::Instant::now() + std::time::Duration::from_secs(o.grace));
        }
        if stop_at.map(|t| std::time::Instant::now() > t).unwrap_or(false) {
            sh.stop.store(1, SeqCst);
        }
        if t0.elapsed().as_secs() > o.time && sh.stop.load(SeqCst) == 0 {
            timeout = true;
            sh.stop.store(1, SeqCst);
        }
        if sh.stop.load(SeqCst) != 0 {
            // give workers a moment to finish, then end them
            let w0 = std::time::Instant::now();
            while w0.elapsed().as_secs() < 5 {
                if (0..o.workers).all(|i| sh.slots[i].load(SeqCst) <= 0 || unsafe { kill(sh.slots[i].load(SeqCst), 0) } != 0) {
                    break;
                }
                unsafe { usleep(3000) };
            }
            for i in 0..o.workers {
                let p = sh.slots[i].load(SeqCst);
                if p > 0 {
                    unsafe { kill(p, 9) };
                }
            }
            break;
        }
    }
    let viols = sh.viols.load(SeqCst);
    let errors = sh.errors.load(SeqCst);
    let complete = !timeout && errors == 0 && sh.stop.load(SeqCst) == 0;
    // merge coverage
    let mut funcs = std::collections::BTreeSet::new();
    let mut dbgs = std::collections::BTreeSet::new();
    let mut covers: std::collections::BTreeMap<String, u64> = Default::default();
    for e in std::fs::read_dir(&o.out).unwrap().flatten() {
        let n = e.file_name().to_string_lossy().to_string();
        if n.starts_with("cov-") {
            let t = std::fs::read_to_string(e.path()).unwrap_or_default();
            for l in t.lines() {
                if let Some(f) = l.strip_prefix("F ") {
                    funcs.insert(f.to_string());
                } else if let Some(d) = l.strip_prefix("D ") {
                    dbgs.insert(d.parse::<u32>().unwrap_or(0));
                } else if let Some(c) = l.strip_prefix("C ") {
                    if let Some((k, n)) = c.split_once(' ') {
                        *covers.entry(n.to_string()).or_default() += k.parse::<u64>().unwrap_or(0);
                    }
                }
            }
            let _ = std::fs::remove_file(e.path());
        }
    }
    let mut lines: std::collections::BTreeMap<String, std::collections::BTreeSet<u32>> = Default::default();
    for d in dbgs {
        for (f, file, l) in ex.m.loc(d) {
            if file.contains("/repo/") {
                lines.entry(format!("{}\t{}", file, f)).or_default().insert(l);
            }
        }
    }
    let mut t = String::from("{\n");
    t += &format!(" \"complete\": {},\n \"timeout\": {},\n \"violations\": {},\n \"errors\": {},\n", complete, timeout, viols, errors);
    t += &format!(" \"wall_s\": {:.2},\n \"load_s\": {:.2},\n \"workers_started\": {},\n", t0.elapsed().as_secs_f64(), load_s, sh.workers.load(SeqCst));
    for (i, n) in NAMES.iter().enumerate() {
        t += &format!(" \"{}\": {},\n", n, sh.stats[i].load(SeqCst));
    }
    t += &format!(" \"functions_executed\": {},\n", funcs.len());
    t += &format!(" \"covers\": {{{}}},\n", covers.iter().filter(|c| *c.1 > 0).map(|(k, v)| format!("{}: {}", esc(k), v)).collect::<Vec<_>>().join(", "));
    t += &format!(
        " \"repo_functions\": {{{}}}\n}}\n",
        lines
            .iter()
            .map(|(k, v)| format!("\n  {}: {:?}", esc(k), v.iter().collect::<Vec<_>>()))
            .collect::<Vec<_>>()
            .join(",")
    );
    std::fs::write(format!("{}/result.json", o.out), &t).unwrap();
    eprintln!(
        "symx: arg={} complete={} viol={} err={} paths={} killed={} steps={}M z3={} ({:.1}s) dom={} {:.1}s",
        o.arg,
        complete,
        viols,
        errors,
        sh.stats[0].load(SeqCst),
        sh.stats[1].load(SeqCst),
        sh.stats[3].load(SeqCst) / 1_000_000,
        sh.stats[8].load(SeqCst),
        sh.stats[9].load(SeqCst) as f64 / 1e9,
        sh.stats[12].load(SeqCst),
        t0.elapsed().as_secs_f64()
    );
    std::process::exit(if errors > 0 {
        3
    } else if viols > 0 {
        1
    } else if timeout {
        4
    } else {
        0
    });
}
