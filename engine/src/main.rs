mod exec;
mod expr;
mod ir;
mod mem;
mod solver;

use exec::*;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;
use std::sync::atomic::{AtomicI32, AtomicU32, Ordering};
use std::time::{Duration, Instant};

extern "C" {
    fn fork() -> i32;
    fn waitpid(p: i32, st: *mut i32, o: i32) -> i32;
    fn prctl(o: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
    fn mmap(a: *mut u8, n: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn _exit(c: i32) -> !;
}

#[repr(C)]
struct Shared {
    idle: AtomicI32,
    stop: AtomicU32,
    viol: AtomicU32,
    serial: AtomicU32,
    keep: AtomicI32,
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

fn dump(x: &mut Exec, path: &str) {
    let mut o = String::new();
    let s = &x.sol.st;
    let _ = writeln!(
        o,
        "S queries={} z3={} dom={} cached={} sat={} unsat={} unknown={} z3_ns={} asserts={} asserts_z3={} max_ns={} steps={} forks={} procs=1",
        s.queries, s.z3, s.dom, s.cached, s.sat, s.unsat, s.unknown, s.z3_ns, s.asserts, s.asserts_z3, s.max_ns, x.steps, x.forks
    );
    for (k, n) in &x.npaths {
        let _ = writeln!(o, "N {n} {k}");
    }
    for (k, n) in &x.problems {
        let _ = writeln!(o, "X {n} {}", k.replace('\n', " "));
    }
    for (k, n) in &x.labels {
        let _ = writeln!(o, "L {n} {}", k.replace('\n', " "));
    }
    for k in &x.intercepted {
        let _ = writeln!(o, "I {k}");
    }
    let _ = writeln!(o, "C {}", x.covers);
    for p in &x.paths {
        let _ = writeln!(o, "P {} {:x} {} {}", if p.input.is_empty() { "-".into() } else { hex(&p.input) }, p.hash, p.steps, p.covers);
    }
    for p in &x.viol {
        let _ = writeln!(
            o,
            "V {} {:x} {} {}\t{}\t{}",
            if p.input.is_empty() { "-".into() } else { hex(&p.input) },
            p.hash,
            p.steps,
            p.kind,
            p.msg.replace(['\n', '\t'], " "),
            p.trace.join(" | ").replace(['\n', '\t'], " ")
        );
    }
    // executed functions and lines
    let mut fns: BTreeSet<u32> = BTreeSet::new();
    let mut dbgs: BTreeSet<u32> = BTreeSet::new();
    let mut nf = 0;
    let mut nb = 0;
    for e in &x.m.funcs {
        if let Some(f) = &e.parsed {
            nf += 1;
            if f.sub != 0 {
                fns.insert(f.sub);
            }
            for b in &f.blocks {
                if b.hit.get() {
                    nb += 1;
                    for d in &b.dbg {
                        if *d != 0 {
                            dbgs.insert(*d);
                        }
                    }
                }
            }
        }
    }
    let mut lines: BTreeSet<(String, u32)> = BTreeSet::new();
    let mut seen: BTreeSet<u32> = BTreeSet::new();
    let mut todo: Vec<u32> = dbgs.into_iter().collect();
    while let Some(d) = todo.pop() {
        if !seen.insert(d) {
            continue;
        }
        if let Some((f, l)) = x.m.loc(d) {
            if f.starts_with("/repo/") && l > 0 {
                lines.insert((f, l));
                if let Some(s) = x.m.loc_sub(d) {
                    fns.insert(s);
                }
            }
        }
        if let Some(i) = x.m.inlined_at(d) {
            todo.push(i);
        }
    }
    for f in &fns {
        if let Some((n, file, l)) = x.m.sub(*f) {
            if file.starts_with("/repo/") {
                let _ = writeln!(o, "F {file}:{l} {n}");
            }
        }
    }
    for (f, l) in lines {
        let _ = writeln!(o, "R {f}:{l}");
    }
    let _ = writeln!(o, "B {nf} {nb}");
    for (k, n) in &x.sites {
        let _ = writeln!(o, "Q {n} {k}");
    }
    std::fs::write(path, o).expect("write result");
}

fn main() {
    let av: Vec<String> = std::env::args().collect();
    let mut opt: BTreeMap<String, String> = BTreeMap::new();
    let mut pos = vec![];
    let mut i = 1;
    while i < av.len() {
        if let Some(k) = av[i].strip_prefix("--") {
            opt.insert(k.to_string(), av.get(i + 1).cloned().unwrap_or_default());
            i += 2;
        } else {
            pos.push(av[i].clone());
            i += 1;
        }
    }
    let num = |k: &str, d: u64| opt.get(k).and_then(|x| x.parse().ok()).unwrap_or(d);
    let (irf, entry) = (pos[0].clone(), pos[1].clone());
    let tmp = opt.get("tmp").cloned().unwrap_or("/tmp/symex".into());
    let _ = std::fs::remove_dir_all(&tmp);
    std::fs::create_dir_all(&tmp).unwrap();
    let t0 = Instant::now();
    let m = ir::Module::load(&irf);
    let tload = t0.elapsed();
    let sh: &'static Shared = unsafe {
        let p = mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0);
        &*(p as *const Shared)
    };
    let workers = num("workers", 8) as i32;
    sh.idle.store(workers - 1, Ordering::SeqCst);
    sh.keep.store(num("keep", 20000) as i32, Ordering::SeqCst);
    unsafe { prctl(36, 1, 0, 0, 0) };
    let ng = m.globals.len();
    let max_viol = num("max-viol", 6) as u32;
    let mut sol = solver::Solver::new(num("rlimit", 30_000_000) as _);
    if let Some(d) = opt.get("dump") {
        let _ = std::fs::create_dir_all(d);
        sol.dump = Some((d.clone(), 0, num("dump-every", 50)));
    }
    let mut x = Exec {
        m,
        g: mem::Globals { base: vec![None; ng] },
        sol,
        work: vec![],
        lim: Limits {
            steps: num("steps", 30_000_000),
            alloc: num("alloc", 1 << 20),
            deadline: t0 + Duration::from_secs(num("deadline", 600)),
            max_viol: max_viol as usize,
            enum_max: num("enum", 600) as u32,
            keep: num("keep", 20000) as usize,
        },
        paths: vec![],
        viol: vec![],
        problems: Default::default(),
        npaths: Default::default(),
        covers: 0,
        steps: 0,
        forks: 0,
        labels: Default::default(),
        sites: Default::default(),
        verbose: opt.contains_key("verbose"),
        obs_mismatch: 0,
        stop: Box::new(move || sh.stop.load(Ordering::Relaxed) != 0),
        on_violation: Box::new(move || {
            if sh.viol.fetch_add(1, Ordering::SeqCst) + 1 >= max_viol {
                sh.stop.store(1, Ordering::SeqCst);
            }
        }),
        ignore: opt.get("ignore").map(|s| s.split('\u{1}').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect()).unwrap_or_default(),
        profile: opt.contains_key("profile"),
        intercepted: Default::default(),
    };
    let st = match x.initial(&entry) {
        Some(s) => s,
        None => {
            eprintln!("no entry point {entry}");
            std::process::exit(3);
        }
    };
    x.work.push(st);
    let mut is_child = false;
    let mut out = format!("{tmp}/r0");
    x.run_all(&mut |x: &mut Exec| {
        while x.work.len() >= 2 {
            let c = sh.idle.load(Ordering::SeqCst);
            if c <= 0 {
                return;
            }
            if sh.idle.compare_exchange(c, c - 1, Ordering::SeqCst, Ordering::SeqCst).is_err() {
                continue;
            }
            let id = sh.serial.fetch_add(1, Ordering::SeqCst) + 1;
            let pid = unsafe { fork() };
            let odd = pid == 0;
            if pid < 0 {
                sh.idle.fetch_add(1, Ordering::SeqCst);
                return;
            }
            // share the pending states: alternate ones go to the child
            let w = std::mem::take(&mut x.work);
            x.work = w.into_iter().enumerate().filter(|(i, _)| (i % 2 == 0) == odd).map(|p| p.1).collect();
            if pid == 0 {
                is_child = true;
                out = format!("{tmp}/r{id}");
                x.paths.clear();
                x.viol.clear();
                x.problems.clear();
                x.npaths.clear();
                x.labels.clear();
                x.sites.clear();
                x.steps = 0;
                x.forks = 0;
                x.sol.st = Default::default();
                if let Some(d) = &mut x.sol.dump {
                    d.1 = 0;
                }
            }
        }
    });
    dump(&mut x, &out);
    sh.idle.fetch_add(1, Ordering::SeqCst);
    if is_child {
        unsafe { _exit(0) };
    }
    // wait for every descendant
    let mut bad = 0;
    loop {
        let mut stt = 0;
        let p = unsafe { waitpid(-1, &mut stt, 0) };
        if p < 0 {
            break;
        }
        if stt != 0 {
            bad += 1;
        }
    }
    let nproc = sh.serial.load(Ordering::SeqCst) + 1;
    // merge
    let mut stats: BTreeMap<String, u64> = BTreeMap::new();
    let mut npaths: BTreeMap<String, u64> = BTreeMap::new();
    let mut problems: BTreeMap<String, u64> = BTreeMap::new();
    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    let mut sites: BTreeMap<String, u64> = BTreeMap::new();
    let mut fns: BTreeSet<String> = Default::default();
    let mut icp: BTreeSet<String> = Default::default();
    let mut lines: BTreeSet<String> = Default::default();
    let mut covers = 0u64;
    let mut paths = vec![];
    let mut viol = vec![];
    let (mut nf, mut nb) = (0u64, 0u64);
    for k in 0..nproc {
        let f = match std::fs::read_to_string(format!("{tmp}/r{k}")) {
            Ok(f) => f,
            Err(_) => {
                bad += 1;
                continue;
            }
        };
        for l in f.lines() {
            let r = &l[2..];
            let pair = || {
                let (a, b) = r.split_once(' ').unwrap();
                (b.to_string(), a.parse::<u64>().unwrap())
            };
            match &l[..1] {
                "S" => {
                    for kv in r.split(' ') {
                        let (a, b) = kv.split_once('=').unwrap();
                        let b: u64 = b.parse().unwrap();
                        let e = stats.entry(a.into()).or_insert(0);
                        if a == "max_ns" {
                            *e = (*e).max(b);
                        } else {
                            *e += b;
                        }
                    }
                }
                "N" => {
                    let (a, n) = pair();
                    *npaths.entry(a).or_insert(0) += n;
                }
                "X" => {
                    let (a, n) = pair();
                    *problems.entry(a).or_insert(0) += n;
                }
                "L" => {
                    let (a, n) = pair();
                    *labels.entry(a).or_insert(0) += n;
                }
                "Q" => {
                    let (a, n) = pair();
                    *sites.entry(a).or_insert(0) += n;
                }
                "C" => covers |= r.parse::<u64>().unwrap(),
                "P" => paths.push(r.to_string()),
                "V" => viol.push(r.to_string()),
                "F" => {
                    fns.insert(r.to_string());
                }
                "I" => {
                    icp.insert(r.to_string());
                }
                "R" => {
                    lines.insert(r.to_string());
                }
                "B" => {
                    let mut it = r.split(' ');
                    nf = nf.max(it.next().unwrap().parse().unwrap());
                    nb = nb.max(it.next().unwrap().parse().unwrap());
                }
                _ => {}
            }
        }
    }
    if bad > 0 {
        problems.insert("an exploration process died".into(), bad);
    }
    let stopped = sh.stop.load(Ordering::SeqCst) != 0;
    let mut o = String::from("{\n");
    let map = |m: &BTreeMap<String, u64>| m.iter().map(|(k, v)| format!("{}: {v}", js(k))).collect::<Vec<_>>().join(", ");
    let _ = writeln!(o, "\"entry\": {}, \"z3\": {}, \"procs\": {nproc}, \"stopped\": {stopped},", js(&entry), js(&solver::z3_version()));
    let _ = writeln!(o, "\"load_s\": {:.3}, \"wall_s\": {:.3},", tload.as_secs_f64(), t0.elapsed().as_secs_f64());
    let _ = writeln!(o, "\"stats\": {{{}}},", map(&stats));
    let _ = writeln!(o, "\"paths\": {{{}}},", map(&npaths));
    let _ = writeln!(o, "\"problems\": {{{}}},", map(&problems));
    let _ = writeln!(o, "\"labels\": {{{}}},", map(&labels));
    let _ = writeln!(o, "\"covers\": [{}],", (0..64).filter(|k| covers >> k & 1 == 1).map(|k| k.to_string()).collect::<Vec<_>>().join(", "));
    let _ = writeln!(o, "\"ir_functions\": {nf}, \"ir_blocks\": {nb},");
    let _ = writeln!(o, "\"functions\": [{}],", fns.iter().map(|x| js(x)).collect::<Vec<_>>().join(", "));
    let _ = writeln!(o, "\"modelled\": [{}],", icp.iter().map(|x| js(x)).collect::<Vec<_>>().join(", "));
    let _ = writeln!(o, "\"lines\": [{}],", lines.iter().map(|x| js(x)).collect::<Vec<_>>().join(", "));
    let v: Vec<String> = viol
        .iter()
        .map(|l| {
            let mut t = l.split('\t');
            let h: Vec<&str> = t.next().unwrap().split(' ').collect();
            format!(
                "{{\"input\": {}, \"hash\": {}, \"steps\": {}, \"kind\": {}, \"msg\": {}, \"trace\": {}}}",
                js(if h[0] == "-" { "" } else { h[0] }),
                js(h[1]),
                h[2],
                js(h[3]),
                js(t.next().unwrap_or("")),
                js(t.next().unwrap_or(""))
            )
        })
        .collect();
    let _ = writeln!(o, "\"violations\": [{}]\n}}", v.join(",\n "));
    if let Some(p) = opt.get("paths") {
        std::fs::write(p, paths.join("\n") + "\n").unwrap();
    }
    if !sites.is_empty() {
        let mut v: Vec<_> = sites.iter().collect();
        v.sort_by_key(|x| std::cmp::Reverse(x.1));
        for (k, n) in v.iter().take(25) {
            eprintln!("{n:8} {k}");
        }
    }
    match opt.get("out") {
        Some(p) => std::fs::write(p, o).unwrap(),
        None => print!("{o}"),
    }
    let _ = std::fs::remove_dir_all(&tmp);
}
