//! symex: symbolic execution of the LLVM IR of a Rust harness crate.
#![allow(static_mut_refs)]
mod exec;
mod expr;
mod ir;
mod solver;
use exec::*;
use std::collections::{BTreeMap, BTreeSet};
use std::io::Write;
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::SeqCst};
use std::time::Instant;

extern "C" {
    fn fork() -> i32;
    fn getpid() -> i32;
    fn _exit(c: i32) -> !;
    fn mmap(a: *mut u8, n: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn kill(p: i32, s: i32) -> i32;
    fn signal(s: i32, h: usize) -> usize;
    fn setrlimit(r: i32, l: *const [u64; 2]) -> i32;
    fn getrlimit(r: i32, l: *mut [u64; 2]) -> i32;
    fn prctl(o: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
}

const MAXH: usize = 512;
const MAXW: usize = 65536;
#[repr(C)]
struct Shared {
    free: AtomicI64,
    nworkers: AtomicU64,
    found: AtomicU64,
    live: [AtomicI64; MAXH],
    stop: [AtomicU64; MAXH],   // number of violations / errors seen
    paths: [AtomicU64; MAXH],
    workers: [AtomicU64; MAXW], // pid<<16 | harness, 0 when finished
}

struct Opts { jobs: usize, timeout: f64, max_steps: u64, max_viol: u64, out: String, dir: String, progress: bool, order: String, fix: Option<Vec<u64>>, every: u64, samples: usize, fail_fast: bool }

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Worker<'m> { ex: Exec<'m>, sh: &'static Shared, h: usize, deadline: Instant, opts: &'m Opts, viols: Vec<Violation>, errs: Vec<String>, slot: usize, timed_out: bool }

impl<'m> Worker<'m> {
    fn drain(&mut self) {
        let sh = self.sh;
        let h = self.h;
        let me: *mut Worker<'m> = self;
        let mut n = 0u64;
        while let Some(st) = self.ex.work.pop() {
            if sh.stop[h].load(SeqCst) >= self.opts.max_viol { self.ex.work.clear(); break; }
            if self.opts.fail_fast && sh.found.load(SeqCst) > 0 { self.ex.work.clear(); self.timed_out = true; break; }
            if Instant::now() > self.deadline { self.timed_out = true; break; }
            let mut y = |ex: &mut Exec<'m>| {
                // SAFETY: the worker outlives the closure; fields touched here are disjoint from ex
                let w = unsafe { &mut *me };
                w.share(ex);
            };
            let r = self.ex.run(st, &mut y);
            n += 1;
            if n % 64 == 0 { sh.paths[h].fetch_add(64, SeqCst); }
            if let Err((st, f)) = r {
                match f {
                    Fault::Viol(kind, msg) => {
                        let inputs = st.syms.iter().map(|&e| st.model.eval(e) as u64).collect();
                        let trace = self.ex.backtrace(&st);
                        // final check of the model against the whole path condition
                        let bad = st.pc.iter().any(|&c| st.model.eval(c) != 1);
                        if !bad && self.ex.fixed.is_none() { if let Err(e) = self.ex.selfcheck(&st, Some(&kind)) { self.errs.push(format!("{} [{}: {}]", e, kind, msg)); sh.stop[h].fetch_add(1, SeqCst); continue; } }
                        if bad { self.errs.push("engine self-check: violation model does not satisfy the path condition".into()); }
                        self.viols.push(Violation { kind, msg, inputs, trace });
                        sh.found.fetch_add(1, SeqCst);
                        sh.stop[h].fetch_add(1, SeqCst);
                    }
                    Fault::Unsup(m) => {
                        self.errs.push(format!("{} @ {}", m, self.ex.backtrace(&st).join(" <- ")));
                        sh.stop[h].fetch_add(self.opts.max_viol, SeqCst);
                    }
                    Fault::Budget(m) => self.errs.push(m),
                    Fault::Infeasible => {}
                }
            }
            self.share2();
        }
    }
    fn share2(&mut self) {
        let ex: *mut Exec<'m> = &mut self.ex;
        let w: *mut Worker<'m> = self;
        unsafe { (*w).share(&mut *ex) }
    }
    fn share(&mut self, ex: &mut Exec<'m>) {
        let sh = self.sh;
        while !ex.work.is_empty() {
            let f = sh.free.load(SeqCst);
            if f <= 0 { return; }
            if sh.free.compare_exchange(f, f - 1, SeqCst, SeqCst).is_err() { continue; }
            let slot = sh.nworkers.fetch_add(1, SeqCst) as usize;
            if slot >= MAXW { sh.free.fetch_add(1, SeqCst); return; }
            sh.live[self.h].fetch_add(1, SeqCst);
            let k = (ex.work.len() + 1) / 2;
            let pid = unsafe { fork() };
            if pid < 0 { sh.live[self.h].fetch_sub(1, SeqCst); sh.free.fetch_add(1, SeqCst); return; }
            if pid == 0 {
                sh.workers[slot].store(((unsafe { getpid() }) as u64) << 16 | self.h as u64, SeqCst);
                ex.work.truncate(k);
                ex.stats = Default::default();
                ex.solver.stats = Default::default();
                for v in ex.visited.iter_mut() { v.clear(); }
                ex.covers.clear();
                ex.samples.clear();
                self.viols.clear();
                self.errs.clear();
                self.slot = slot;
                self.timed_out = false;
                self.drain();
                self.finish();
            }
            sh.workers[slot].compare_exchange(0, (pid as u64) << 16 | self.h as u64, SeqCst, SeqCst).ok();
            ex.work.drain(..k);
        }
    }
    fn finish(&mut self) -> ! {
        let ex = &self.ex;
        let s = &ex.stats;
        let q = &ex.solver.stats;
        let mut o = String::new();
        o.push_str(&format!("S {} {} {} {} {} {} {} {} {} {} {}\n", s.paths, s.completed, s.panicked_ok, s.infeasible, s.forks, s.steps, s.asserts, s.assert_queries, s.max_steps, s.selfchecks, s.closure));
        o.push_str(&format!("Q {} {} {} {} {} {} {}\n", q.queries, q.cache_hits, q.sat, q.unsat, q.time_us, q.max_us, expr::cx().n.len()));
        for (k, v) in &ex.covers { o.push_str(&format!("C {} {}\n", k, v)); }
        for (fi, v) in ex.visited.iter().enumerate() {
            if v.iter().any(|b| *b) {
                o.push_str(&format!("F {}", fi));
                for (b, x) in v.iter().enumerate() { if *x { o.push_str(&format!(" {}", b)); } }
                o.push('\n');
            }
        }
        for v in &ex.samples { o.push_str(&format!("X {}\n", v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "))); }
        for e in &self.errs { o.push_str(&format!("E {}\n", e.replace('\n', " "))); }
        if self.timed_out { o.push_str("T\n"); }
        for v in &self.viols {
            o.push_str(&format!("V {}\n{}\n{}\n{}\n", v.kind, v.msg.replace('\n', " "), v.inputs.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "), v.trace.join(" <- ").replace('\n', " ")));
        }
        let p = format!("{}/h{}.w{}", self.opts.dir, self.h, self.slot);
        let ok = std::fs::write(&p, o).is_ok();
        if ok { self.sh.workers[self.slot].store(u64::MAX, SeqCst); }
        self.sh.live[self.h].fetch_sub(1, SeqCst);
        self.sh.free.fetch_add(1, SeqCst);
        unsafe { _exit(0) }
    }
}

fn main() {
    // deep recursions on expressions: large stack
    unsafe {
        let mut l = [0u64; 2];
        getrlimit(3, &mut l);
        let want = 2u64 << 30;
        if l[0] < want && std::env::var_os("SYMEX_STACK").is_none() {
            let n = [want.min(l[1]), l[1]];
            setrlimit(3, &n);
            use std::os::unix::process::CommandExt;
            let a: Vec<_> = std::env::args_os().collect();
            let _ = std::process::Command::new("/proc/self/exe").args(&a[1..]).env("SYMEX_STACK", "1").exec();
        }
    }
    let mut args: Vec<String> = std::env::args().skip(1).collect();
    let mut opts = Opts { jobs: 8, timeout: 600.0, max_steps: 20_000_000, max_viol: 1, out: String::new(), dir: String::new(), progress: false, order: "dfs".into(), fix: None, every: 16, samples: 32, fail_fast: false };
    let mut ll = String::new();
    let mut hs: Vec<String> = vec![];
    args.reverse();
    while let Some(a) = args.pop() {
        let mut next = || args.pop().expect("argument value");
        match a.as_str() {
            "--ll" => ll = next(),
            "--jobs" => opts.jobs = next().parse().unwrap(),
            "--timeout" => opts.timeout = next().parse().unwrap(),
            "--max-steps" => opts.max_steps = next().parse().unwrap(),
            "--max-violations" => opts.max_viol = next().parse().unwrap(),
            "--out" => opts.out = next(),
            "--progress" => opts.progress = true,
            "--fix" => opts.fix = Some(next().split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect()),
            "--selfcheck-every" => opts.every = next().parse().unwrap(),
            "--fail-fast" => opts.fail_fast = true,
            "--samples" => opts.samples = next().parse().unwrap(),
            "--order" => opts.order = next(),
            "--version" => { println!("symex 0.1.0, z3 {}", solver::version()); return; }
            _ => hs.push(a),
        }
    }
    let t0 = Instant::now();
    let m = match ir::Module::load(&ll) { Ok(m) => m, Err(e) => { eprintln!("cannot load IR: {}", e); std::process::exit(3) } };
    if opts.progress { eprintln!("loaded {} functions, {} globals in {:?}", m.funcs.len(), m.globals.len(), t0.elapsed()); }
    opts.dir = format!("/tmp/symex.{}", std::process::id());
    std::fs::create_dir_all(&opts.dir).unwrap();
    assert!(hs.len() <= MAXH);
    let sh: &'static Shared = unsafe {
        let p = mmap(std::ptr::null_mut(), std::mem::size_of::<Shared>(), 3, 0x21, -1, 0);
        &*(p as *const Shared)
    };
    sh.free.store(opts.jobs as i64, SeqCst);
    unsafe { signal(17, 1); prctl(36, 1, 0, 0, 0); }
    let mut started: Vec<Option<Instant>> = vec![None; hs.len()];
    let mut ended: Vec<Option<f64>> = vec![None; hs.len()];
    let mut nexth = 0;
    let mut last = Instant::now();
    let mut crashed: BTreeSet<usize> = BTreeSet::new();
    loop {
        // start harnesses while there are free tokens
        while nexth < hs.len() {
            let f = sh.free.load(SeqCst);
            if f <= 0 || sh.free.compare_exchange(f, f - 1, SeqCst, SeqCst).is_err() { break; }
            let h = nexth;
            nexth += 1;
            sh.live[h].fetch_add(1, SeqCst);
            let slot = sh.nworkers.fetch_add(1, SeqCst) as usize;
            started[h] = Some(Instant::now());
            let pid = unsafe { fork() };
            if pid == 0 {
                sh.workers[slot].store(((unsafe { getpid() }) as u64) << 16 | h as u64, SeqCst);
                expr::init();
                let mut ex = Exec::new(&m, opts.max_steps);
                ex.fixed = opts.fix.clone();
                ex.every = opts.every;
                ex.trace = std::env::var_os("SYMEX_TRACE").is_some();
                let dur = std::time::Duration::from_secs_f64;
                let deadline = (t0 + dur(opts.timeout)).min(Instant::now() + dur(opts.timeout * 0.6));
                let mut w = Worker { ex, sh, h, deadline, opts: &opts, viols: vec![], errs: vec![], slot, timed_out: false };
                match w.ex.start(&hs[h]) { Ok(()) => w.drain(), Err(e) => w.errs.push(e) }
                w.finish();
            }
            sh.workers[slot].compare_exchange(0, (pid as u64) << 16 | h as u64, SeqCst, SeqCst).ok();
        }
        let mut all = nexth == hs.len();
        for h in 0..nexth {
            if ended[h].is_none() {
                if sh.live[h].load(SeqCst) == 0 { ended[h] = Some(started[h].unwrap().elapsed().as_secs_f64()); } else { all = false; }
            }
        }
        if all { break; }
        // crash detection
        let n = sh.nworkers.load(SeqCst) as usize;
        for s in 0..n.min(MAXW) {
            let w = sh.workers[s].load(SeqCst);
            if w == 0 || w == u64::MAX { continue; }
            let (pid, h) = ((w >> 16) as i32, (w & 0xffff) as usize);
            if unsafe { kill(pid, 0) } != 0 && sh.workers[s].load(SeqCst) == w {
                sh.workers[s].store(u64::MAX, SeqCst);
                crashed.insert(h);
                sh.stop[h].fetch_add(opts.max_viol, SeqCst);
                sh.live[h].fetch_sub(1, SeqCst);
                sh.free.fetch_add(1, SeqCst);
            }
        }
        std::thread::sleep(std::time::Duration::from_millis(3));
        if opts.progress && last.elapsed().as_secs() >= 5 {
            last = Instant::now();
            for h in 0..nexth { if ended[h].is_none() { eprintln!("  [{:6.1}s] {} live={} paths>={}", t0.elapsed().as_secs_f64(), hs[h], sh.live[h].load(SeqCst), sh.paths[h].load(SeqCst)); } }
        }
    }
    // merge
    let mut js = String::from("[\n");
    let mut worst = 0;
    for h in 0..hs.len() {
        let mut s = [0u64; 11];
        let mut q = [0u64; 7];
        let mut covers: BTreeMap<u64, u64> = BTreeMap::new();
        let mut blocks: BTreeMap<usize, BTreeSet<usize>> = BTreeMap::new();
        let mut errs: Vec<String> = vec![];
        let mut viols: Vec<(String, String, String, String)> = vec![];
        let mut to = false;
        let mut samples: Vec<Vec<u64>> = vec![];
        let mut workers = 0;
        for ent in std::fs::read_dir(&opts.dir).unwrap().flatten() {
            let n = ent.file_name().to_string_lossy().into_owned();
            if !n.starts_with(&format!("h{}.", h)) { continue; }
            workers += 1;
            let t = std::fs::read_to_string(ent.path()).unwrap();
            let mut it = t.lines();
            while let Some(l) = it.next() {
                let nums = |l: &str| -> Vec<u64> { l[1..].split_whitespace().filter_map(|x| x.parse().ok()).collect() };
                match l.as_bytes().first() {
                    Some(b'S') => for (i, v) in nums(l).into_iter().enumerate() { if i == 8 { s[i] = s[i].max(v) } else { s[i] += v } },
                    Some(b'Q') => for (i, v) in nums(l).into_iter().enumerate() { if i >= 5 { q[i] = q[i].max(v) } else { q[i] += v } },
                    Some(b'C') => { let v = nums(l); *covers.entry(v[0]).or_insert(0) += v[1]; }
                    Some(b'F') => { let v = nums(l); blocks.entry(v[0] as usize).or_default().extend(v[1..].iter().map(|x| *x as usize)); }
                    Some(b'E') => errs.push(l[2..].to_string()),
                    Some(b'X') => samples.push(nums(l)),
                    Some(b'T') => to = true,
                    Some(b'V') => {
                        let k = l[2..].to_string();
                        let a = it.next().unwrap_or("").to_string();
                        let b = it.next().unwrap_or("").to_string();
                        let c = it.next().unwrap_or("").to_string();
                        viols.push((k, a, b, c));
                    }
                    _ => {}
                }
            }
        }
        if crashed.contains(&h) { errs.push("a worker process died (out of memory?)".into()); }
        viols.sort();
        samples.sort();
        samples.dedup();
        let step = (samples.len() / opts.samples).max(1);
        let samples: Vec<_> = samples.into_iter().step_by(step).take(opts.samples).collect();
        viols.dedup();
        let status = if !viols.is_empty() { "violation" } else if !errs.is_empty() { "error" } else if to { "timeout" } else { "ok" };
        worst = worst.max(match status { "ok" => 0, "violation" => 1, _ => 2 });
        // functions and source lines reached
        let mut funcs: BTreeSet<String> = BTreeSet::new();
        let mut lines: BTreeSet<(String, u32)> = BTreeSet::new();
        let mut srcf: BTreeSet<(String, String, u32)> = BTreeSet::new();
        let mut seen: BTreeSet<u32> = BTreeSet::new();
        for (fi, bs) in &blocks {
            if let Ok(f) = m.func(*fi) {
                funcs.insert(f.pretty.clone());
                for b in bs { for i in &f.blocks[*b].ins { if i.dbg != 0 && seen.insert(i.dbg) {
                    for (file, line, fun, fl) in m.dbg_chain(i.dbg) {
                        if file.contains("/rustc/") || file.contains("/library/") { continue; }
                        lines.insert((file.clone(), line));
                        srcf.insert((file, fun, fl));
                    }
                } } }
            }
        }
        js.push_str(&format!("{{\"harness\":{},\"status\":{},\"seconds\":{:.2},\"workers\":{},\"paths\":{},\"completed\":{},\"expected_panics\":{},\"infeasible\":{},\"forks\":{},\"instructions\":{},\"assertions\":{},\"assertion_queries\":{},\"longest_path\":{},\"paths_reexecuted\":{},\"decided_by_order_closure\":{},\"queries\":{},\"query_cache_hits\":{},\"sat\":{},\"unsat\":{},\"solver_seconds\":{:.3},\"max_query_seconds\":{:.3},\"max_expr_nodes\":{},",
            json_str(&hs[h]), json_str(status), ended[h].unwrap_or(0.0), workers, s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7], s[8], s[9], s[10], q[0], q[1], q[2], q[3], q[4] as f64 / 1e6, q[5] as f64 / 1e6, q[6]));
        js.push_str(&format!("\"covers\":{{{}}},", covers.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect::<Vec<_>>().join(",")));
        js.push_str(&format!("\"errors\":[{}],", errs.iter().take(5).map(|e| json_str(e)).collect::<Vec<_>>().join(",")));
        js.push_str(&format!("\"violations\":[{}],", viols.iter().map(|v| format!("{{\"kind\":{},\"message\":{},\"inputs\":[{}],\"backtrace\":{}}}", json_str(&v.0), json_str(&v.1), v.2.replace(' ', ","), json_str(&v.3))).collect::<Vec<_>>().join(",")));
        js.push_str(&format!("\"samples\":[{}],", samples.iter().map(|v| format!("[{}]", v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(",")));
        js.push_str(&format!("\"ir_functions\":[{}],", funcs.iter().map(|e| json_str(e)).collect::<Vec<_>>().join(",")));
        js.push_str(&format!("\"source_functions\":[{}],", srcf.iter().map(|e| json_str(&format!("{}:{} {}", e.0, e.2, e.1))).collect::<Vec<_>>().join(",")));
        let mut byf: BTreeMap<&str, Vec<u32>> = BTreeMap::new();
        for (f, l) in &lines { byf.entry(f).or_default().push(*l); }
        js.push_str(&format!("\"lines\":{{{}}}}}", byf.iter().map(|(f, v)| format!("{}:[{}]", json_str(f), v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(",")));
        js.push_str(if h + 1 < hs.len() { ",\n" } else { "\n" });
        if opts.progress || opts.out.is_empty() {
            eprintln!("{:40} {:9} {:6.1}s paths {} (ok {}, inf {}) asserts {} (solver {}) steps {} queries {} hits {} solver {:.1}s max {:.2}s nodes {} covers {:?}",
                hs[h], status, ended[h].unwrap_or(0.0), s[0], s[1], s[3], s[6], s[7], s[5], q[0], q[1], q[4] as f64 / 1e6, q[5] as f64 / 1e6, q[6], covers);
            for e in errs.iter().take(3) { eprintln!("    ERROR {}", e); }
            for v in viols.iter().take(3) { eprintln!("    VIOL {} {} inputs [{}]\n      {}", v.0, v.1, v.2, v.3.replace(" <- ", "\n      ")); }
        }
    }
    js.push_str("]\n");
    if !opts.out.is_empty() { let mut f = std::fs::File::create(&opts.out).unwrap(); f.write_all(js.as_bytes()).unwrap(); }
    let _ = std::fs::remove_dir_all(&opts.dir);
    std::process::exit(worst);
}
