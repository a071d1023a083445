//! symex: a symbolic executor for LLVM IR produced by rustc.
//! usage: symex <file.ll> <entry> [--max-steps N] [--max-time S] [--jobs N] [--samples N]
mod builtins;
mod exec;
mod expr;
mod ll;
mod selftest;
mod state;
mod vfs;
mod z3;

use exec::*;
use ll::*;
use state::*;
use std::collections::{BTreeMap, BTreeSet};
use std::io::Write;
use std::time::Instant;

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, opts: i32) -> i32;
    fn _exit(c: i32) -> !;
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
}

/// milliseconds from the start at which the first failure was found, 0: none yet; shared by the workers
static mut FAILED: *const std::sync::atomic::AtomicUsize = std::ptr::null();
fn failed() -> &'static std::sync::atomic::AtomicUsize { unsafe { &*FAILED } }
/// no use going on: the time is up, or a failure was found some time ago
fn over(o: &Opts, t0: Instant) -> Option<String> {
    let t = t0.elapsed().as_secs_f64();
    if o.max_time > 0.0 && t > o.max_time { return Some(format!("time limit of {} s reached", o.max_time)); }
    let f = failed().load(std::sync::atomic::Ordering::SeqCst) as f64 / 1000.0;
    if o.grace > 0.0 && f > 0.0 && t > f + o.grace { return Some(format!("stopped {} s after a failure", o.grace)); }
    None
}
struct Opts { grace: f64, max_steps: u64, max_time: f64, jobs: usize, samples: u64, max_fails: usize, init: usize }

#[derive(Default)]
struct Tally {
    paths: u64, infeasible: u64, fails: Vec<String>, inconclusive: Vec<(String, u64)>,
    covers: BTreeMap<String, u64>, samples: Vec<(u64, String)>, final_sat: u64,
    max_vars: usize, max_pc: usize, max_path_steps: u64,
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for ch in s.chars() {
        match ch { '"' => o += "\\\"", '\\' => o += "\\\\", '\n' => o += "\\n", c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32), c => o.push(c) }
    }
    o + "\""
}

fn inputs(st: &State) -> Vec<u64> { st.used.iter().map(|(id, _)| if *id == u32::MAX { 0 } else { st.model[*id as usize] }).collect() }

fn finish(eng: &mut Engine, st: &mut State, stop: Stop, t: &mut Tally, o: &Opts) {
    t.max_vars = t.max_vars.max(st.used.iter().filter(|u| u.0 != u32::MAX).count());
    t.max_pc = t.max_pc.max(st.pc.len());
    t.max_path_steps = t.max_path_steps.max(st.steps);
    match stop {
        Stop::Done => {
            // the path's condition as a whole must be satisfiable: the solver's witness is kept
            let mut s2 = st.clone();
            s2.used.retain(|u| u.0 != u32::MAX);
            match eng.sat(&s2, &[], true) {
                Ok(Some(m)) => { t.final_sat += 1; for (v, x) in m { st.model[v as usize] = x; } }
                Ok(None) => { note(t, "path condition of a completed path is unsatisfiable".into()); return; }
                Err(Stop::Inconclusive(m)) => { note(t, m); return; }
                Err(_) => { note(t, "solver failure".into()); return; }
            }
            t.paths += 1;
            for c in st.covers.iter() { *t.covers.entry(eng.cover_name(*c)).or_insert(0) += 1; }
            if o.samples > 0 {
                let ins = inputs(st);
                let mut h = 0xcbf29ce484222325u64;
                for x in &ins { for b in x.to_le_bytes() { h = (h ^ b as u64).wrapping_mul(0x100000001b3); } }
                h ^= h >> 29; h = h.wrapping_mul(0xbf58476d1ce4e5b9); h ^= h >> 32;
                if (t.samples.len() as u64) < o.samples || h < t.samples.last().unwrap().0 {
                    let outs: Vec<String> = st.outs.iter().map(|x| match x { Out::C(c) => c.to_string(), Out::S(e) => (eng.eval(st, *e) as u64).to_string() }).collect();
                    let s = format!("{{\"inputs\":{:?},\"outs\":[{}]}}", ins, outs.join(","));
                    t.samples.push((h, s));
                    t.samples.sort();
                    t.samples.truncate(o.samples as usize);
                }
            }
        }
        Stop::Infeasible => t.infeasible += 1,
        Stop::Fail(f) => {
            // certify with the whole path condition
            let mut s2 = st.clone();
            s2.used.retain(|u| u.0 != u32::MAX);
            let extra: Vec<expr::E> = vec![];
            match eng.sat(&s2, &extra, true) {
                Ok(Some(m)) => { if f.kind != "check" { for (v, x) in m { st.model[v as usize] = x; } } }
                Ok(None) => { note(t, "path condition of a failing path is unsatisfiable".into()); return; }
                _ => { note(t, "solver failure".into()); return; }
            }
            t.paths += 1;
            t.fails.push(format!("{{\"kind\":{},\"msg\":{},\"loc\":{},\"inputs\":{:?}}}", js(f.kind), js(&f.msg), js(&f.loc), inputs(st)));
        }
        Stop::Inconclusive(m) => note(t, m),
        Stop::Fork(_) => unreachable!(),
    }
}
fn note(t: &mut Tally, m: String) {
    for x in &mut t.inconclusive { if x.0 == m { x.1 += 1; return; } }
    if t.inconclusive.len() < 50 { t.inconclusive.push((m, 1)); } else { t.inconclusive[0].1 += 1; }
}

/// distinct failures by (kind, msg, loc) - keep a few of each
fn distinct(fails: &mut Vec<String>, keep: usize) {
    let mut seen: BTreeMap<String, usize> = BTreeMap::new();
    fails.retain(|f| {
        let k = f[..f.find(",\"inputs\"").unwrap()].to_string();
        let n = seen.entry(k).or_insert(0);
        *n += 1;
        *n <= keep
    });
}

fn explore(eng: &mut Engine, mut work: Vec<State>, t: &mut Tally, o: &Opts, t0: Instant, mut bfs: Option<(usize, &mut Vec<State>)>) -> bool {
    let mut queue: std::collections::VecDeque<State> = work.drain(..).collect();
    loop {
        let st = if bfs.is_some() { queue.pop_front() } else { queue.pop_back() };
        let Some(mut st) = st else { return true };
        if let Some(m) = over(o, t0) { note(t, m); return false; }
        match eng.run(&mut st) {
            Stop::Fork(v) => {
                eng.total_forks += v.len() as u64 - 1;
                for mut s in v.into_iter().rev() { s.forks += 1; queue.push_back(s); }
            }
            s => {
                let n = t.fails.len();
                finish(eng, &mut st, s, t, o);
                if t.fails.len() > n { let _ = failed().compare_exchange(0, (t0.elapsed().as_millis() as usize).max(1), std::sync::atomic::Ordering::SeqCst, std::sync::atomic::Ordering::SeqCst); }
            }
        }
        if t.fails.len() > 2000 { distinct(&mut t.fails, 3); }
        if let Some((n, out)) = &mut bfs {
            if queue.len() >= *n || (queue.len() >= 3 * o.jobs && t0.elapsed().as_secs_f64() > 3.0) { out.extend(queue.drain(..)); return true; }
        }
    }
}

fn report(eng: &Engine, t: &Tally, w: &mut dyn Write, base: &Base) {
    let mut s = String::from("{");
    s += &format!("\"paths\":{},\"infeasible\":{},\"final_sat\":{},\"steps\":{},\"forks\":{},\"asserts\":{},\"asserts_sym\":{},", t.paths, t.infeasible, t.final_sat,
        eng.total_steps - base.steps, eng.total_forks - base.forks, eng.asserts - base.asserts, eng.asserts_sym - base.asserts_sym);
    s += &format!("\"queries\":{},\"int_queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"solver_time\":{:.3},\"max_query\":{:.3},", eng.z.queries, eng.z.int_queries, eng.z.sat, eng.z.unsat, eng.z.unknown, eng.z.time, eng.z.max_time);
    s += &format!("\"max_vars\":{},\"max_pc\":{},\"max_path_steps\":{},", t.max_vars, t.max_pc, t.max_path_steps);
    s += &format!("\"fails\":[{}],", t.fails.join(","));
    s += &format!("\"inconclusive\":[{}],", t.inconclusive.iter().map(|x| format!("[{},{}]", js(&x.0), x.1)).collect::<Vec<_>>().join(","));
    s += &format!("\"covers\":{{{}}},", t.covers.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","));
    s += &format!("\"samples\":[{}],", t.samples.iter().map(|x| x.1.clone()).collect::<Vec<_>>().join(","));
    s += &format!("\"blocks\":[{}]", eng.exec_blocks.iter().map(|(a, b)| format!("[{},{}]", a, b)).collect::<Vec<_>>().join(","));
    s += "}\n";
    let _ = w.write_all(s.as_bytes());
}
#[derive(Default)]
struct Base { steps: u64, forks: u64, asserts: u64, asserts_sym: u64 }

/// source functions in the executed code: "file:line name"
fn functions(eng: &mut Engine, blocks: &BTreeSet<(u32, u32)>) -> BTreeMap<String, BTreeSet<u32>> {
    let mut by: BTreeMap<String, BTreeSet<u32>> = BTreeMap::new();
    let mut seen = BTreeSet::new();
    for (fi, b) in blocks {
        let Ok(f) = eng.func(*fi) else { continue };
        for d in &f.blocks[*b as usize].dbg {
            if *d == 0 || !seen.insert(*d) { continue; }
            for (sp, line) in eng.m.loc_chain(*d) {
                let (name, file, _) = eng.m.sp_info(sp);
                by.entry(format!("{}\t{}", file, name)).or_default().insert(line);
            }
        }
    }
    by
}

fn real_main() {
    let args: Vec<String> = std::env::args().collect();
    if args.get(1).map(|s| s.as_str()) == Some("--selftest") {
        match selftest::run(args.get(2).map_or(200, |x| x.parse().unwrap()), args.get(3).map_or(1, |x| x.parse().unwrap())) {
            Ok(m) => { println!("selftest: {}", m); return; }
            Err(m) => { println!("selftest FAILED: {}", m); std::process::exit(3); }
        }
    }
    let mut o = Opts { grace: 0.0, max_steps: 200_000_000, max_time: 0.0, jobs: 8, samples: 8, max_fails: 3, init: 256 };
    let mut rlimit = 40_000_000u32;
    let mut max_enum = 4096;
    let mut out: Option<String> = None;
    let mut conc_inputs: Option<Vec<u64>> = None;
    let mut i = 3;
    while i + 1 < args.len() {
        let v = &args[i + 1];
        match args[i].as_str() {
            "--max-steps" => o.max_steps = v.parse().unwrap(),
            "--max-time" => o.max_time = v.parse().unwrap(),
            "--grace" => o.grace = v.parse().unwrap(),
            "--jobs" => o.jobs = v.parse().unwrap(),
            "--samples" => o.samples = v.parse().unwrap(),
            "--fails" => o.max_fails = v.parse().unwrap(),
            "--init" => o.init = v.parse().unwrap(),
            "--rlimit" => rlimit = v.parse().unwrap(),
            "--max-enum" => max_enum = v.parse().unwrap(),
            "--inputs" => conc_inputs = Some(v.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect()),
            "--out" => out = Some(v.clone()),
            x => { eprintln!("symex: unknown option {}", x); std::process::exit(3); }
        }
        i += 2;
    }
    let t0 = Instant::now();
    unsafe { FAILED = mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) as *const _; }
    let text: &'static str = Box::leak(std::fs::read_to_string(&args[1]).expect("read IR").into_boxed_str());
    let m: &'static Module = Box::leak(Box::new(Module::load(text)));
    let mut eng = Engine::new(m, Config { max_steps: o.max_steps, rlimit, max_enum, panic_ok: false, inputs: conc_inputs });
    let mut st = eng.start(&args[2]);
    st.alloc(16); // errno
    let load_time = t0.elapsed().as_secs_f64();
    let mut t = Tally::default();
    let mut parts: Vec<String> = vec![];
    let mut queue = vec![];
    let jobs = o.jobs;
    explore(&mut eng, vec![st], &mut t, &o, t0, if jobs > 1 { Some((o.init, &mut queue)) } else { None });
    distinct(&mut t.fails, o.max_fails);
    let mut buf = vec![];
    report(&eng, &t, &mut buf, &Base::default());
    parts.push(String::from_utf8(buf).unwrap());
    let base = Base { steps: eng.total_steps, forks: eng.total_forks, asserts: eng.asserts, asserts_sym: eng.asserts_sym };
    let n0 = queue.len();
    if n0 > 0 {
        let counter = unsafe { &*(mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) as *const std::sync::atomic::AtomicUsize) };
        let dir = std::env::temp_dir().join(format!("symex-{}", std::process::id()));
        std::fs::create_dir_all(&dir).unwrap();
        let mut pids = vec![];
        for j in 0..jobs {
            let pid = unsafe { fork() };
            if pid == 0 {
                eng.z = z3::Z3::new(rlimit);
                let (ctx, g) = (eng.z.handle(), Opts { ..o });
                std::thread::spawn(move || loop {
                    std::thread::sleep(std::time::Duration::from_millis(200));
                    if over(&g, t0).is_some() { z3::interrupt(ctx); }
                });
                let mut t = Tally::default();
                loop {
                    let k = counter.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                    if k >= n0 { break; }
                    let s = queue[k].clone();
                    if !explore(&mut eng, vec![s], &mut t, &o, t0, None) { break; }
                }
                distinct(&mut t.fails, o.max_fails);
                let mut f = std::fs::File::create(dir.join(format!("{}", j))).unwrap();
                report(&eng, &t, &mut f, &base);
                unsafe { _exit(0) }
            }
            pids.push(pid);
        }
        let mut bad = false;
        for p in pids { let mut s = 0; unsafe { waitpid(p, &mut s, 0); } if s != 0 { bad = true; } }
        for j in 0..jobs { if let Ok(s) = std::fs::read_to_string(dir.join(format!("{}", j))) { parts.push(s); } else { bad = true; } }
        let _ = std::fs::remove_dir_all(&dir);
        if bad { parts.push("{\"inconclusive\":[[\"a worker process died\",1]]}\n".into()); }
    }
    // executed source functions
    let mut blocks: BTreeSet<(u32, u32)> = BTreeSet::new();
    for p in &parts {
        if let Some(i) = p.find("\"blocks\":[") {
            let s = &p[i + 10..];
            for pr in s.split("],[") {
                let pr: String = pr.chars().filter(|c| c.is_ascii_digit() || *c == ',').collect();
                let mut it = pr.split(',').filter(|x| !x.is_empty());
                if let (Some(a), Some(b)) = (it.next(), it.next()) { blocks.insert((a.parse().unwrap(), b.parse().unwrap())); }
            }
        }
    }
    let fns = functions(&mut eng, &blocks);
    let mut outs = String::new();
    for p in parts {
        // drop the block list
        let p = if let Some(i) = p.find(",\"blocks\":[") { format!("{}}}\n", &p[..i]) } else { p };
        outs += &p;
    }
    outs += &format!("{{\"entry\":{},\"wall\":{:.3},\"load_time\":{:.3},\"initial_states\":{},\"blocks_executed\":{},\"functions\":{{{}}}}}\n", js(&args[2]), t0.elapsed().as_secs_f64(), load_time, n0, blocks.len(),
        fns.iter().filter(|(k, _)| k.contains("lindera")).map(|(k, v)| format!("{}:{}", js(k), v.len())).collect::<Vec<_>>().join(","));
    match out { Some(f) => std::fs::write(f, outs).unwrap(), None => print!("{}", outs) }
}

fn main() {
    std::thread::Builder::new().stack_size(2 << 30).spawn(real_main).unwrap().join().unwrap_or_else(|_| std::process::exit(3));
}
