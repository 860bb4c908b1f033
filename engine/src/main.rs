mod exec;
mod expr;
mod ir;
mod ll;
mod solver;

use exec::*;
use expr::*;
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::fmt::Write as _;
use std::os::raw::{c_int, c_void};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::Instant;

extern "C" {
    fn fork() -> c_int;
    fn waitpid(pid: c_int, st: *mut c_int, opt: c_int) -> c_int;
    fn mmap(a: *mut c_void, n: usize, prot: c_int, flags: c_int, fd: c_int, off: i64) -> *mut c_void;
    fn _exit(c: c_int) -> !;
}

#[derive(Default)]
struct Tally {
    paths: u64,
    done: u64,
    infeasible: u64,
    panics: u64,
    viol: u64,
    errors: u64,
    steplimit: u64,
    max_path_steps: u64,
    max_pc: u64,
    max_depth: u64,
    samples: Vec<(Vec<u128>, Vec<u64>)>,
    vkeys: BTreeMap<(String, u32, String), (u64, Vec<u128>)>,
    errs: BTreeMap<String, (u64, Vec<u128>)>,
}

struct Opts {
    max_samples: usize,
}

fn tally(en: &mut Engine, t: &mut Tally, st: &State, e: PathEnd, o: &Opts) {
    t.paths += 1;
    t.max_path_steps = t.max_path_steps.max(st.steps);
    t.max_pc = t.max_pc.max(st.pc.len() as u64);
    t.max_depth = t.max_depth.max(st.depth as u64);
    match e {
        PathEnd::Done => {
            t.done += 1;
            let k = t.done;
            // spread the samples: powers of two, then every 997th
            if t.samples.len() < o.max_samples && (k.is_power_of_two() || k % 97 == 0) {
                let inputs = en.inputs_of(st);
                let obs = st
                    .observed
                    .iter()
                    .map(|v| match v {
                        ir::Val::C(c) => *c,
                        ir::Val::S(e) => en.eval(st, *e) as u64,
                        _ => 0,
                    })
                    .collect();
                t.samples.push((inputs, obs));
            }
        }
        PathEnd::Infeasible => t.infeasible += 1,
        PathEnd::Violation { id, what } => {
            t.viol += 1;
            let i = en.inputs_of(st);
            let x = t.vkeys.entry(("assert".into(), id, what)).or_insert((0, i));
            x.0 += 1;
        }
        PathEnd::Panic { what } => {
            t.panics += 1;
            let i = en.inputs_of(st);
            let x = t.vkeys.entry(("panic".into(), 0, what)).or_insert((0, i));
            x.0 += 1;
        }
        PathEnd::StepLimit => {
            t.steplimit += 1;
            let i = en.inputs_of(st);
            let b = en.backtrace(st);
            let b = b.split(" <- ").last().unwrap_or("").to_string();
            let x = t.vkeys.entry(("steplimit".into(), 0, b)).or_insert((0, i));
            x.0 += 1;
        }
        PathEnd::Error(s) => {
            t.errors += 1;
            let i = en.inputs_of(st);
            let x = t.errs.entry(s).or_insert((0, i));
            x.0 += 1;
        }
    }
    for v in std::mem::take(&mut en.violations) {
        t.viol += 1;
        let x = t.vkeys.entry((v.kind, v.id, v.what)).or_insert((0, v.inputs));
        x.0 += 1;
    }
}

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o
}
fn nums<T: std::fmt::Display>(v: &[T]) -> String {
    v.iter().map(|x| format!("\"{}\"", x)).collect::<Vec<_>>().join(",")
}

fn report(en: &Engine, t: &Tally, left: usize) -> String {
    let s = &en.solver.stats;
    let mut o = String::from("{");
    let _ = write!(
        o,
        "\"paths\":{},\"done\":{},\"infeasible\":{},\"panics\":{},\"violations\":{},\"errors\":{},\"steplimit\":{},\"max_path_steps\":{},\"max_pc\":{},\"max_depth\":{},\"left\":{},",
        t.paths, t.done, t.infeasible, t.panics, t.viol, t.errors, t.steplimit, t.max_path_steps, t.max_pc, t.max_depth, left
    );
    let _ = write!(
        o,
        "\"instrs\":{},\"forks\":{},\"asserts_solver\":{},\"asserts_const\":{},\"queries\":{},\"z3_calls\":{},\"z3_sat\":{},\"z3_unsat\":{},\"cache_hits\":{},\"domain_hits\":{},\"domain_crosschecks\":{},\"z3_secs\":{:.3},\"z3_max_secs\":{:.3},",
        en.instrs, en.forks, en.asserts_solver, en.asserts_const, s.queries, s.z3_calls, s.z3_sat, s.z3_unsat, s.cache_hits, s.domain_hits + s.search_hits, s.domain_crosschecks, s.z3_secs, s.max_secs
    );
    let _ = write!(
        o,
        "\"viols\":[{}],",
        t.vkeys.iter().map(|((k, i, w), (n, inp))| format!("{{\"kind\":\"{}\",\"id\":{},\"what\":\"{}\",\"count\":{},\"inputs\":[{}]}}", k, i, esc(w), n, nums(inp))).collect::<Vec<_>>().join(",")
    );
    let _ = write!(o, "\"errs\":[{}],", t.errs.iter().map(|(w, (n, inp))| format!("{{\"what\":\"{}\",\"count\":{},\"inputs\":[{}]}}", esc(w), n, nums(inp))).collect::<Vec<_>>().join(","));
    let _ = write!(o, "\"samples\":[{}],", t.samples.iter().map(|(a, b)| format!("{{\"inputs\":[{}],\"observed\":[{}]}}", nums(a), nums(b))).collect::<Vec<_>>().join(","));
    let _ = write!(o, "\"reached\":{{{}}},", en.reached.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect::<Vec<_>>().join(","));
    let names: BTreeSet<String> = en.called.iter().enumerate().filter(|(_, c)| **c).map(|(i, _)| en.m.funcs[i].pretty.clone()).collect();
    let _ = write!(o, "\"called\":[{}]", names.iter().map(|x| format!("\"{}\"", esc(x))).collect::<Vec<_>>().join(","));
    let mut sites: Vec<(u64, String)> = en.fork_sites.iter().map(|((f, b), n)| (*n, format!("{}#{}", en.m.funcs[*f as usize].pretty, b))).collect();
    sites.sort();
    sites.reverse();
    sites.truncate(15);
    let _ = write!(o, ",\"fork_sites\":[{}]", sites.iter().map(|(n, s)| format!("[{},\"{}\"]", n, esc(s))).collect::<Vec<_>>().join(","));
    o.push('}');
    o
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mut file = String::new();
    let mut entry = String::new();
    let mut jobs = 8usize;
    let mut out = String::from("symex-out");
    let mut time = 600f64;
    let mut max_steps = 50_000_000u64;
    let mut frontier = 400usize;
    let mut samples = 6usize;
    let mut trace = false;
    let mut dump = None;
    let mut z3_ms = 60_000u32;
    let mut stop_viols = 40usize;
    let mut i = 1;
    while i < args.len() {
        let v = args.get(i + 1).cloned().unwrap_or_default();
        match args[i].as_str() {
            "--entry" => entry = v,
            "--jobs" => jobs = v.parse().unwrap(),
            "--out" => out = v,
            "--time" => time = v.parse().unwrap(),
            "--max-steps" => max_steps = v.parse().unwrap(),
            "--frontier" => frontier = v.parse().unwrap(),
            "--samples" => samples = v.parse().unwrap(),
            "--z3-ms" => z3_ms = v.parse().unwrap(),
            "--stop-viols" => stop_viols = v.parse().unwrap(),
            "--dump" => dump = Some(v),
            "--trace" => {
                trace = true;
                i -= 1;
            }
            f => {
                file = f.to_string();
                i -= 1;
            }
        }
        i += 2;
    }
    let t0 = Instant::now();
    let text = std::fs::read_to_string(&file).expect("read ll");
    let mut ar = Arena::new();
    let m = match ll::parse(&text, &mut ar) {
        Ok(m) => m,
        Err(e) => {
            eprintln!("IR parse error: {}", e);
            std::process::exit(3);
        }
    };
    drop(text);
    let nf = m.funcs.iter().filter(|f| f.defined).count();
    eprintln!("parsed {} functions, {} globals in {:.2}s", nf, m.globals.len(), t0.elapsed().as_secs_f64());
    let mut en = Engine::new(m, ar, z3_ms);
    en.max_steps = max_steps;
    en.trace = trace;
    en.solver.dump = dump;
    let opts = Opts { max_samples: samples };
    let st = match en.start(&entry) {
        Ok(s) => s,
        Err(e) => {
            eprintln!("{}", e);
            std::process::exit(3);
        }
    };
    let mut t = Tally::default();
    let mut q: VecDeque<State> = VecDeque::new();
    q.push_back(st);
    // breadth-first prefix: run states one fork at a time
    let mut spins = 0;
    while let Some(s) = q.pop_front() {
        let mut work = vec![];
        let (s2, e) = en.run_until_fork(s, &mut work);
        if let Some(e) = e {
            tally(&mut en, &mut t, &s2, e, &opts);
        } else {
            q.push_back(s2);
        }
        q.extend(work);
        spins += 1;
        if q.len() >= frontier || (jobs == 1 && spins > 0) || t0.elapsed().as_secs_f64() > time {
            break;
        }
    }
    let states: Vec<Option<State>> = q.into_iter().map(Some).collect();
    let n = states.len();
    eprintln!("frontier {} states, {} paths finished, {:.2}s", n, t.paths, t0.elapsed().as_secs_f64());
    if n == 0 || jobs == 1 {
        let mut work: Vec<State> = states.into_iter().flatten().collect();
        while let Some(s) = work.pop() {
            let (s2, e) = en.run(s, &mut work);
            tally(&mut en, &mut t, &s2, e, &opts);
            if t0.elapsed().as_secs_f64() > time || t.vkeys.len() > stop_viols {
                break;
            }
        }
        std::fs::write(format!("{}.0.json", out), report(&en, &t, work.len())).unwrap();
        eprintln!("finished {} paths in {:.2}s, {} instrs", t.paths, t0.elapsed().as_secs_f64(), en.instrs);
        return;
    }
    std::fs::write(format!("{}.prefix.json", out), report(&en, &t, 0)).unwrap();
    let shared = unsafe { &*(mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) as *const [AtomicU64; 4]) };
    let mut pids = vec![];
    let mut states = states;
    for w in 0..jobs {
        let pid = unsafe { fork() };
        if pid == 0 {
            // reset counters inherited from the prefix
            let mut t = Tally::default();
            en.instrs = 0;
            en.forks = 0;
            en.asserts_solver = 0;
            en.asserts_const = 0;
            en.reached.clear();
            en.fork_sites.clear();
            en.solver.stats = Default::default();
            let mut left = 0;
            loop {
                let k = shared[0].fetch_add(1, Ordering::SeqCst) as usize;
                if k >= n {
                    break;
                }
                // spread: take states in a strided order
                let mut work = vec![states[k].take().unwrap()];
                while let Some(s) = work.pop() {
                    if t0.elapsed().as_secs_f64() > time || shared[1].load(Ordering::Relaxed) as usize > stop_viols {
                        left += work.len() + 1;
                        break;
                    }
                    let (s2, e) = en.run(s, &mut work);
                    let before = t.vkeys.len();
                    tally(&mut en, &mut t, &s2, e, &opts);
                    if t.vkeys.len() > before {
                        shared[1].fetch_add(1, Ordering::Relaxed);
                    }
                }
            }
            std::fs::write(format!("{}.{}.json", out, w), report(&en, &t, left)).unwrap();
            unsafe { _exit(0) }
        }
        pids.push(pid);
    }
    let mut bad = 0;
    for p in pids {
        let mut s: c_int = 0;
        unsafe { waitpid(p, &mut s, 0) };
        if s != 0 {
            bad += 1;
        }
    }
    eprintln!("workers done in {:.2}s, {} abnormal", t0.elapsed().as_secs_f64(), bad);
    if bad > 0 {
        std::process::exit(4);
    }
}
