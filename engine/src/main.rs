mod builtins;
mod exec;
mod expr;
mod ir;
mod selftest;
mod solver;
use exec::*;
use std::collections::{BTreeMap, BTreeSet};
use std::io::Write;
use std::time::Instant;

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn mmap(a: *mut u8, n: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn _exit(c: i32) -> !;
    fn alarm(s: u32) -> u32;
    fn kill(pid: i32, sig: i32) -> i32;
    fn prctl(o: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
}

fn jstr(s: &str) -> String { let mut o = String::from("\""); for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } } o.push('"'); o }
fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }
fn inputs_json(i: &[(String, Vec<u8>)]) -> String { let v: Vec<String> = i.iter().map(|(n, b)| format!("[{},\"{}\"]", jstr(n), hex(b))).collect(); format!("[{}]", v.join(",")) }

fn dump(ex: &Ex, path: &str, timed_out: bool, left: usize) {
    let mut o = String::new();
    let s = &ex.so.stats;
    o += &format!("{{\"paths\":{},\"killed\":{},\"forks\":{},\"instrs\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"hard\":{},\"cache_hits\":{},\"tables\":{},\"model_hits\":{},\"solver_ns\":{},\"max_query_ns\":{},\"checks_sym\":{},\"timed_out\":{},\"left\":{},\"nodes\":{},\"vars\":{},\"max_pc\":{}", ex.paths, ex.killed, ex.forks, ex.instrs, s.queries, s.sat, s.unsat, s.unknown, s.hard, s.cache_hits, s.tables, s.model_hits, s.time_ns, s.max_ns, ex.checks_sym, timed_out, left, ex.ar.nodes.len(), ex.ar.vars.len(), ex.max_pc);
    let v: Vec<String> = ex.viols.iter().map(|v| format!("{{\"label\":{},\"detail\":{},\"inputs\":{}}}", jstr(&v.label), jstr(&v.detail), inputs_json(&v.inputs))).collect();
    o += &format!(",\"violations\":[{}]", v.join(","));
    let v: Vec<String> = ex.viol_labels.iter().map(|(k, n)| format!("{}:{}", jstr(k), n)).collect();
    o += &format!(",\"viol_counts\":{{{}}}", v.join(","));
    let v: Vec<String> = ex.errors.iter().map(|e| jstr(e)).collect();
    o += &format!(",\"errors\":[{}]", v.join(","));
    let v: Vec<String> = ex.covers.iter().map(|(k, n)| format!("{}:{}", jstr(k), n)).collect();
    o += &format!(",\"covers\":{{{}}}", v.join(","));
    let v: Vec<String> = ex.checks.iter().map(|(k, n)| format!("{}:{}", jstr(k), n)).collect();
    o += &format!(",\"checks\":{{{}}}", v.join(","));
    let v: Vec<String> = ex.samples.iter().map(|(i, ob)| format!("{{\"inputs\":{},\"obs\":{:?}}}", inputs_json(i), ob)).collect();
    o += &format!(",\"samples\":[{}]", v.join(","));
    let mut fs: BTreeSet<String> = BTreeSet::new();
    for (i, c) in ex.called.iter().enumerate() { if *c { let d = &ex.m.funcs[i]; fs.insert(if d.dem.is_empty() { d.name.into() } else { d.dem.into() }); } }
    let v: Vec<String> = fs.iter().map(|f| jstr(f)).collect();
    o += &format!(",\"functions\":[{}]", v.join(","));
    let mut fp: BTreeMap<String, u64> = BTreeMap::new();
    for ((f, ip), n) in &ex.forkprof { let d = &ex.m.funcs[*f as usize]; let nm = if d.dem.is_empty() { d.name } else { d.dem }; let _ = ip; *fp.entry(nm.to_string()).or_insert(0) += n; }
    let mut fp: Vec<_> = fp.into_iter().collect(); fp.sort_by_key(|x| std::cmp::Reverse(x.1));
    let v: Vec<String> = fp.iter().take(25).map(|(k, n)| format!("[{},{}]", jstr(k), n)).collect();
    o += &format!(",\"forkprof\":[{}]", v.join(","));
    let mut cp: Vec<(u64, usize)> = ex.funprof.iter().enumerate().filter(|x| *x.1 > 0).map(|(i, n)| (*n, i)).collect(); cp.sort_by_key(|x| std::cmp::Reverse(x.0));
    let v: Vec<String> = cp.iter().take(25).map(|(n, i)| format!("[{},{}]", jstr(if ex.m.funcs[*i].dem.is_empty() { ex.m.funcs[*i].name } else { ex.m.funcs[*i].dem }), n)).collect();
    o += &format!(",\"callprof\":[{}]}}", v.join(","));
    let tmp = format!("{path}.tmp");
    std::fs::File::create(&tmp).unwrap().write_all(o.as_bytes()).unwrap();
    std::fs::rename(&tmp, path).unwrap();
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.get(1).map(|s| s.as_str()) == Some("--selftest") { std::process::exit(selftest::run()); }
    let mut ll = String::new(); let mut entry = String::new(); let mut out = String::from("/tmp/llsym.out"); let mut jobs = 8usize; let mut tmo = 20_000u32; let mut budget = 600u64; let mut verbose = false; let mut hash = true; let mut samples = 8usize; let mut target = 96usize; let mut maxviol = 200u64; let mut tier = 0u64;
    let mut i = 1;
    while i < a.len() {
        match a[i].as_str() {
            "--ll" => { i += 1; ll = a[i].clone(); } "--entry" => { i += 1; entry = a[i].clone(); } "--out" => { i += 1; out = a[i].clone(); }
            "--jobs" => { i += 1; jobs = a[i].parse().unwrap(); } "--query-ms" => { i += 1; tmo = a[i].parse().unwrap(); } "--budget" => { i += 1; budget = a[i].parse().unwrap(); }
            "--samples" => { i += 1; samples = a[i].parse().unwrap(); } "--split" => { i += 1; target = a[i].parse().unwrap(); } "--max-viol" => { i += 1; maxviol = a[i].parse().unwrap(); }
            "--decode-all" => { let m: &'static ir::Module = Box::leak(Box::new(ir::Module::load(&ll))); for f in 0..m.funcs.len() { let nm = m.funcs[f].name; if std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { m.func(f as u32); })).is_err() { eprintln!("DECODE FAIL {nm}"); } } std::process::exit(0); } "--cpu" => { i += 1; ir::AVX2.store(a[i] == "avx2", std::sync::atomic::Ordering::Relaxed); } "-v" => verbose = true, "--tier" => { i += 1; tier = a[i].parse().unwrap(); } "--real-hash" => hash = false,
            x => { eprintln!("bad arg {x}"); std::process::exit(2); }
        }
        i += 1;
    }
    let child = std::thread::Builder::new().stack_size(2 << 30).spawn(move || go(ll, entry, out, jobs, tmo, budget, verbose, hash, samples, target, maxviol, tier)).unwrap();
    let r = child.join().unwrap_or(3);
    std::process::exit(r);
}

fn go(ll: String, entry: String, out: String, jobs: usize, tmo: u32, budget: u64, verbose: bool, hash: bool, samples: usize, target: usize, maxviol: u64, tier: u64) -> i32 {
    let t0 = Instant::now();
    let m: &'static ir::Module = Box::leak(Box::new(ir::Module::load(&ll)));
    if verbose { eprintln!("loaded {} funcs {} globals in {:?}; z3 {}", m.funcs.len(), m.globals.len(), t0.elapsed(), solver::Solver::version()); }
    if entry.is_empty() { for f in &m.funcs { if f.name.starts_with("h_") { println!("{}", f.name); } } return 0; }
    let fid = match m.syms.get(entry.as_str()) { Some(ir::Sym::F(f)) => *f, _ => { eprintln!("no entry {entry}"); return 2; } };
    let mut ex = Ex::new(m, tmo);
    ex.verbose = verbose; ex.tier = tier; ex.sample_max = samples;
    if hash { builtins::register_hash_model(&mut ex); }
    ex.deadline = Some(t0 + std::time::Duration::from_secs(budget));
    // one step that takes longer than the whole budget ends the run
    unsafe { alarm(budget as u32 + 45); }
    let mut nviol = 0;
    let st = ex.initial(fid);
    ex.pending.push(st);
    let over = |t0: &Instant| t0.elapsed().as_secs() >= budget;
    // phase 1: explore breadth-first by path until there is enough to share
    let mut timed_out = false;
    while !ex.pending.is_empty() && (jobs <= 1 || ex.pending.len() < target) {
        let s = if jobs <= 1 { ex.pending.pop().unwrap() } else { ex.pending.remove(0) };
        ex.run(s);
        if ex.viols.len() != nviol { nviol = ex.viols.len(); dump(&ex, &format!("{out}.0"), true, 1); }
        if over(&t0) { timed_out = true; break; }
        if ex.errors.len() >= 20 { break; }
        if ex.stopping() >= maxviol { break; }
    }
    if ex.pending.is_empty() || timed_out || ex.errors.len() >= 20 || ex.stopping() >= maxviol {
        let left = ex.pending.len() + ex.abandoned;
        dump(&ex, &format!("{out}.0"), timed_out, left);
        summary(&ex, 0, t0);
        return 0;
    }
    // phase 2: share the frontier
    let ctr = unsafe { mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) } as *const std::sync::atomic::AtomicU64;
    let ctr: &'static std::sync::atomic::AtomicU64 = unsafe { &*ctr };
    let stop: &'static std::sync::atomic::AtomicU64 = unsafe { &*(ctr as *const _ as *const std::sync::atomic::AtomicU64).add(1) };
    ex.stop = Some(stop);
    let mut front: Vec<Option<State>> = std::mem::take(&mut ex.pending).into_iter().map(Some).collect();
    front.sort_by_key(|s| s.as_ref().unwrap().depth);
    let mut pids = vec![];
    for j in 0..jobs {
        let pid = unsafe { fork() };
        if pid == 0 {
            unsafe { prctl(1, 9, 0, 0, 0); }
            if j > 0 { // parent's phase-1 results are reported by child 0 only
                ex.paths = 0; ex.killed = 0; ex.forks = 0; ex.instrs = 0; ex.so.stats = Default::default(); ex.viols.clear(); ex.viol_labels.clear(); ex.covers.clear(); ex.checks.clear(); ex.checks_sym = 0; ex.forkprof.clear(); ex.samples.clear(); for x in ex.funprof.iter_mut() { *x = 0; }
            }
            let mut timed_out = false;
            let mut left = 0;
            let mut nviol = ex.viols.len();
            'outer: loop {
                let k = ctr.fetch_add(1, std::sync::atomic::Ordering::SeqCst) as usize;
                if k >= front.len() { break; }
                ex.pending.push(front[k].take().unwrap());
                while let Some(s) = ex.pending.pop() {
                    ex.run(s);
                    if ex.viols.len() != nviol { nviol = ex.viols.len(); dump(&ex, &format!("{out}.{j}"), true, 1); }
                    if over(&t0) { timed_out = true; left = ex.pending.len() + front.len().saturating_sub(k); break 'outer; }
                    if ex.errors.len() >= 20 { stop.store(1, std::sync::atomic::Ordering::SeqCst); }
                    if ex.stopping() >= maxviol { stop.store(1, std::sync::atomic::Ordering::SeqCst); }
                    if stop.load(std::sync::atomic::Ordering::SeqCst) == 1 { left = ex.pending.len(); timed_out = !ex.pending.is_empty(); break 'outer; }
                }
            }
            let left = left + ex.abandoned; timed_out |= left > 0;
            dump(&ex, &format!("{out}.{j}"), timed_out, left);
            if verbose { summary(&ex, j, t0); }
            unsafe { _exit(0) }
        }
        pids.push(pid);
    }
    unsafe { alarm(0); }
    let mut bad = 0;
    let mut live: Vec<(usize, i32)> = pids.into_iter().enumerate().collect();
    while !live.is_empty() {
        let late = t0.elapsed().as_secs() > budget + 40;
        live.retain(|&(j, p)| {
            let mut st = 0;
            if late { unsafe { kill(p, 9); waitpid(p, &mut st, 0); } let f = format!("{out}.{j}"); if !std::path::Path::new(&f).exists() { let _ = std::fs::write(&f, "{\"left\":1,\"timed_out\":true}"); } return false; }
            if unsafe { waitpid(p, &mut st, 1) } == 0 { return true; }
            if st != 0 { eprintln!("worker ended with status {st}"); bad = 3; }
            false
        });
        if !live.is_empty() { std::thread::sleep(std::time::Duration::from_millis(2)); }
    }
    bad
}
fn summary(ex: &Ex, j: usize, t0: Instant) {
    if !ex.verbose { return; }
    let s = &ex.so.stats;
    eprintln!("[{j}] {:?}: paths {} killed {} forks {} instrs {} queries {} (sat {} unsat {} unk {} hard {}) cache {} tab {} mhits {} solver {:.2}s viol {:?} errors {:?}", t0.elapsed(), ex.paths, ex.killed, ex.forks, ex.instrs, s.queries, s.sat, s.unsat, s.unknown, s.hard, s.cache_hits, s.tables, s.model_hits, s.time_ns as f64 / 1e9, ex.viol_labels, ex.errors);
}
