//! symex: symbolic execution of rustc's LLVM IR with z3.
mod builtins;
mod exec;
mod expr;
mod ir;
mod mem;
mod solve;
mod z3;
use exec::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::io::Write;
use std::sync::atomic::{AtomicI32, AtomicU64, Ordering};
use std::time::{Duration, Instant};

extern "C" {
    fn fork() -> i32;
    fn _exit(c: i32) -> !;
    fn mmap(a: *mut u8, n: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn pipe(fds: *mut i32) -> i32;
    fn close(fd: i32) -> i32;
    fn read(fd: i32, b: *mut u8, n: usize) -> isize;
    fn signal(s: i32, h: usize) -> usize;
    fn prctl(o: i32, a: u64) -> i32;
}
pub struct Shared { live: AtomicI32, stop_at: AtomicU64 }
static mut SHARED: *const Shared = std::ptr::null();
static mut JOBS: i32 = 8;
static mut START: Option<Instant> = None;
fn sh() -> &'static Shared { unsafe { &*SHARED } }

/// Readable path of a v0-mangled name (best effort).
pub fn demangle(n: &str) -> String {
    let b = n.as_bytes();
    if !n.starts_with("_R") { return n.to_string(); }
    let mut out: Vec<&str> = vec![];
    let mut i = 2;
    while i < b.len() {
        if b[i] == b's' {
            let mut j = i + 1;
            while j < b.len() && b[j].is_ascii_alphanumeric() { j += 1; }
            if j < b.len() && b[j] == b'_' && j - i < 16 { i = j + 1; continue; }
        }
        if b[i] == b'B' { let mut j = i + 1; while j < b.len() && b[j].is_ascii_alphanumeric() { j += 1; } if j < b.len() && b[j] == b'_' && j - i < 6 { i = j + 1; continue; } }
        if b[i].is_ascii_digit() {
            let mut k = 0usize; let mut j = i;
            while j < b.len() && b[j].is_ascii_digit() { k = k * 10 + (b[j] - b'0') as usize; j += 1; if k > 4000 { break; } }
            if j < b.len() && b[j] == b'_' { j += 1; }
            if k > 0 && j + k <= b.len() { if let Some(s) = n.get(j..j + k) { out.push(s); } i = j + k; continue; }
            i = j.max(i + 1);
            continue;
        }
        i += 1;
    }
    out.join("::")
}

impl Mach {
    fn reset_stats(&mut self) {
        self.paths = 0; self.killed = 0; self.instrs = 0; self.forks = 0; self.asserts = 0; self.asserts_sym = 0; self.asserts_solver = 0; self.st_cert = 0; self.dropped = 0;
        self.reach.clear(); self.violations.clear(); self.incompletes.clear(); self.called.clear(); self.samples.clear(); self.pending.clear();
        let s = &mut self.solver;
        s.queries = 0; s.sat = 0; s.unsat = 0; s.unknown = 0; s.time = 0.0; s.cached = 0; s.max_time = 0.0;
        if let Some(f) = &mut self.forksites { f.clear(); }
    }
    /// Hand half of the pending states to a new process when a core is idle. True in the child.
    pub fn maybe_share(&mut self) -> bool {
        if self.work.len() < 2 { return false; }
        let jobs = unsafe { JOBS };
        let l = sh().live.load(Ordering::Relaxed);
        if l >= jobs { return false; }
        if sh().live.compare_exchange(l, l + 1, Ordering::SeqCst, Ordering::SeqCst).is_err() { return false; }
        let pid = unsafe { fork() };
        if pid < 0 { sh().live.fetch_sub(1, Ordering::SeqCst); return false; }
        let h = self.work.len() / 2;
        if pid == 0 {
            // the older (shallower) half, picking every other state keeps both sides balanced
            let all = std::mem::take(&mut self.work);
            self.work = all.into_iter().enumerate().filter(|(i, _)| i % 2 == 0).map(|x| x.1).collect();
            self.reset_stats();
            let _ = h;
            true
        } else {
            let all = std::mem::take(&mut self.work);
            self.work = all.into_iter().enumerate().filter(|(i, _)| i % 2 == 1).map(|x| x.1).collect();
            false
        }
    }
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } }
    o.push('"');
    o
}
fn jmap(m: &BTreeMap<String, u64>) -> String { format!("{{{}}}", m.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(",")) }

fn report(m: &Mach, out: &str, left: usize, wall: f64) {
    let names: Vec<String> = m.called.iter().map(|i| js(&demangle(m.m.syms.borrow()[*i as usize].name()))).collect::<BTreeSet<_>>().into_iter().collect();
    let s = &m.solver;
    let v: Vec<String> = m.violations.iter().map(|v| format!("{{\"kind\":{},\"msg\":{},\"kf\":{},\"inputs\":[{}],\"stack\":[{}],\"harness\":{}}}", js(&v.kind), js(&v.msg), v.kf, v.inputs.iter().map(|x| x.1.to_string()).collect::<Vec<_>>().join(","), v.stack.iter().map(|x| js(x)).collect::<Vec<_>>().join(","), js(&v.harness))).collect();
    let fs: BTreeMap<String, u64> = m.forksites.as_ref().map(|f| f.iter().map(|(k, v)| (k.clone(), *v)).collect()).unwrap_or_default();
    let line = format!("{{\"harness\":{},\"paths\":{},\"killed\":{},\"instrs\":{},\"forks\":{},\"asserts\":{},\"asserts_sym\":{},\"asserts_solver\":{},\"certified\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"cached\":{},\"solver_s\":{:.3},\"solver_max_s\":{:.3},\"reach\":{{{}}},\"violations\":[{}],\"incomplete\":{},\"forksites\":{},\"funcs\":[{}],\"samples\":[{}],\"left\":{},\"vars\":{},\"wall\":{:.2}}}\n",
        js(&m.harness), m.paths, m.killed, m.instrs, m.forks, m.asserts, m.asserts_sym, m.asserts_solver, m.st_cert, s.queries, s.sat, s.unsat, s.unknown, s.cached, s.time, s.max_time,
        m.reach.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect::<Vec<_>>().join(","), v.join(","), jmap(&m.incompletes), jmap(&fs), names.join(","), m.samples.iter().map(|x| js(x)).collect::<Vec<_>>().join(","), left, m.maxvars, wall);
    let mut f = std::fs::OpenOptions::new().append(true).create(true).open(out).unwrap();
    f.write_all(line.as_bytes()).unwrap();
}

fn explore(m: &mut Mach, deadline: Instant, out: &str) {
    let t0 = Instant::now();
    let mut stopped = false;
    while let Some(st) = m.work.pop() {
        if !m.run_state(st, deadline) { stopped = true; break; }
        m.maybe_share();
        if !m.violations.is_empty() && m.violations.iter().any(|v| v.kf == 0) {
            let now = unsafe { START.unwrap().elapsed().as_millis() as u64 };
            let _ = sh().stop_at.compare_exchange(0, now + 4000, Ordering::SeqCst, Ordering::SeqCst);
        }
        let s = sh().stop_at.load(Ordering::Relaxed);
        if s != 0 && unsafe { START.unwrap().elapsed().as_millis() as u64 } > s { stopped = !m.work.is_empty(); break; }
        if Instant::now() >= deadline { stopped = !m.work.is_empty(); break; }
    }
    let left = if stopped { m.work.len() } else { 0 };
    m.certify_all();
    report(m, out, left, t0.elapsed().as_secs_f64());
    sh().live.fetch_sub(1, Ordering::SeqCst);
    unsafe { _exit(0) }
}

fn real_main() {
    let args: Vec<String> = std::env::args().collect();
    let mut file = String::new(); let mut out = String::from("/dev/stdout"); let mut secs = 60u64; let mut jobs = 8; let mut names: Vec<String> = vec![];
    let mut list = false; let mut trace = false; let mut sites = false; let mut rlimit = 20_000_000u32; let mut steps = 400_000_000u64; let mut cap = 300usize; let mut single = false;
    let mut i = 1;
    while i < args.len() {
        match args[i].as_str() {
            "--out" => { i += 1; out = args[i].clone(); }
            "--time" => { i += 1; secs = args[i].parse().unwrap(); }
            "--jobs" => { i += 1; jobs = args[i].parse().unwrap(); }
            "--rlimit" => { i += 1; rlimit = args[i].parse().unwrap(); }
            "--steps" => { i += 1; steps = args[i].parse().unwrap(); }
            "--cap" => { i += 1; cap = args[i].parse().unwrap(); }
            "--list" => list = true,
            "--trace" => trace = true,
            "--sites" => sites = true,
            "--single" => single = true,
            s => if file.is_empty() { file = s.into() } else { names.push(s.into()) },
        }
        i += 1;
    }
    let t0 = Instant::now();
    let text = std::fs::read(&file).expect("module");
    let m = ir::Module::load(text);
    let nsyms_now = |m: &ir::Module| m.syms.borrow().len() as u32;
    if list { for s in m.syms.borrow().iter() { if let ir::Sym::Func { name, .. } = s { if name.starts_with("h_") { println!("{name}"); } } } return; }
    eprintln!("loaded {} symbols in {:.2}s", nsyms_now(&m), t0.elapsed().as_secs_f64());
    unsafe {
        SHARED = mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) as *const Shared;
        JOBS = jobs; START = Some(t0);
        signal(17, 1);
    }
    let deadline = t0 + Duration::from_secs(secs);
    let mut fds = [0i32; 2];
    unsafe { pipe(fds.as_mut_ptr()) };
    let names: Vec<String> = if names.is_empty() { m.syms.borrow().iter().filter_map(|s| if let ir::Sym::Func { name, .. } = s { if name.starts_with("h_") { Some(name.clone()) } else { None } } else { None }).collect() } else { names };
    // symbol ids must not grow while running: leave room for names met only inside bodies
    let nsyms = nsyms_now(&m) + 200_000;
    let mut mach = Mach { m, solver: z3::Solver::new(rlimit, 0), claimed: HashSet::new(), pending: HashMap::new(), st_cert: 0, kinds: vec![], nsyms, globals: HashMap::new(), work: vec![], harness: String::new(), paths: 0, killed: 0, instrs: 0, forks: 0, asserts: 0, asserts_sym: 0, asserts_solver: 0, dropped: 0, reach: BTreeMap::new(), violations: vec![], vcount: BTreeMap::new(), incompletes: BTreeMap::new(), called: BTreeSet::new(), samples: vec![], step_limit: steps, conc_cap: cap, trace_calls: trace, forksites: if sites { Some(HashMap::new()) } else { None }, maxvars: 0 };
    for n in &names {
        let Some(id) = mach.m.names.borrow().get(n).copied() else { eprintln!("no harness {n}"); continue };
        sh().live.fetch_add(1, Ordering::SeqCst);
        let pid = if single { 0 } else { unsafe { fork() } };
        if pid == 0 {
            unsafe { close(fds[0]); prctl(1, 9); }
            mach.harness = n.clone();
            let mut st = mach.new_state();
            let Kind::Fn(f) = mach.kind(id) else { panic!("harness is not a function") };
            mach.push_call(&mut st, f, vec![], u32::MAX).ok();
            mach.work.push(st);
            explore(&mut mach, deadline, &out);
        }
    }
    unsafe { close(fds[1]); let mut b = [0u8; 1]; while read(fds[0], b.as_mut_ptr(), 1) > 0 {} }
    eprintln!("done in {:.2}s", t0.elapsed().as_secs_f64());
}
fn main() {
    std::thread::Builder::new().stack_size(1 << 30).spawn(real_main).unwrap().join().unwrap();
}
