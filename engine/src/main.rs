mod exec;
mod expr;
mod ir;
mod mem;
mod prep;
mod z3;

use exec::*;
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::io::Write as _;
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, opts: i32) -> i32;
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn _exit(c: i32) -> !;
    fn prctl(o: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn inputs_json(v: &[(u8, u64)]) -> String {
    let x: Vec<String> = v.iter().map(|(w, k)| format!("[{},\"{}\"]", w, k)).collect();
    format!("[{}]", x.join(","))
}

fn report_json(e: &Exec, wall: f64, left: usize) -> String {
    let r = &e.rep;
    let mut o = String::from("{");
    let _ = write!(
        o,
        "\"paths_ok\":{},\"paths_assume\":{},\"paths_violation\":{},\"paths_error\":{},\"steps\":{},\"forks\":{},\"merges\":{},\"branch_unary\":{},\"asserts_symbolic\":{},\"asserts_concrete\":{},",
        r.paths_ok, r.paths_assume, r.paths_violation, r.paths_error, r.steps, r.forks, r.merges, r.branch_unary, r.asserts_symbolic, r.asserts_concrete
    );
    let s = &e.z3.stats;
    let _ = write!(
        o,
        "\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"solver_us\":{},\"solver_max_us\":{},\"timed_out\":{},\"left\":{},\"wall\":{:.3},\"max_forks\":{},",
        s.queries, s.sat, s.unsat, s.unknown, s.micros, s.max_micros, r.timed_out, left, wall, r.max_depth_forks
    );
    let cov: Vec<String> = r.covers.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect();
    let _ = write!(o, "\"covers\":{{{}}},", cov.join(","));
    let er: Vec<String> = r.errors.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect();
    let _ = write!(o, "\"errors\":{{{}}},", er.join(","));
    let vs: Vec<String> = r
        .violations
        .iter()
        .map(|v| {
            format!(
                "{{\"kind\":{},\"msg\":{},\"inputs\":{},\"stack\":[{}]}}",
                js(&v.kind),
                js(&v.msg),
                inputs_json(&v.inputs),
                v.stack.iter().map(|x| js(x)).collect::<Vec<_>>().join(",")
            )
        })
        .collect();
    let _ = write!(o, "\"violations\":[{}],", vs.join(","));
    let op: Vec<String> = r.open.iter().map(|(m, i)| format!("{{\"msg\":{},\"inputs\":{}}}", js(m), inputs_json(i))).collect();
    let _ = write!(o, "\"open\":[{}],", op.join(","));
    let sm: Vec<String> = r
        .samples
        .iter()
        .map(|(i, ob)| {
            let h: String = ob.iter().map(|b| format!("{:02x}", b)).collect();
            format!("{{\"inputs\":{},\"obs\":\"{}\"}}", inputs_json(i), h)
        })
        .collect();
    let _ = write!(o, "\"samples\":[{}],", sm.join(","));
    let mut fns: BTreeMap<String, u64> = BTreeMap::new();
    for f in &r.funcs {
        *fns.entry(pretty(&e.m.funcs[*f as usize].name)).or_insert(0) += 1;
    }
    let _ = write!(
        o,
        "\"functions\":[{}],",
        fns.keys().map(|x| js(x)).collect::<Vec<_>>().join(",")
    );
    let _ = write!(
        o,
        "\"merged\":[{}]}}",
        e.merge_names.iter().map(|x| js(&pretty(x))).collect::<Vec<_>>().join(",")
    );
    o
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && args[1] == "prep" {
        prep::run(&args[2], &args[3], &args[4]);
        return;
    }
    let mut ll = String::new();
    let mut entry = String::new();
    let mut out = String::new();
    let mut jobs = 8usize;
    let mut timeout = 600u64;
    let mut merge: Vec<String> = vec![];
    let mut verbose = false;
    let mut trace = false;
    let mut split = 32usize;
    let mut maxv = 6usize;
    let mut samples = 24usize;
    let mut params: Vec<u64> = vec![];
    let mut i = 1;
    while i < args.len() {
        let nx = || args[i + 1].clone();
        match args[i].as_str() {
            "--ll" => ll = nx(),
            "--entry" => entry = nx(),
            "--out" => out = nx(),
            "--jobs" => jobs = nx().parse().unwrap(),
            "--timeout" => timeout = nx().parse().unwrap(),
            "--merge" => merge.push(nx()),
            "--param" => params.push(nx().parse().unwrap()),
            "--split" => split = nx().parse().unwrap(),
            "--max-violations" => maxv = nx().parse().unwrap(),
            "--samples" => samples = nx().parse().unwrap(),
            "--verbose" => {
                verbose = true;
                i += 1;
                continue;
            }
            "--trace" => {
                trace = true;
                i += 1;
                continue;
            }
            a => panic!("unknown arg {}", a),
        }
        i += 2;
    }
    let t0 = Instant::now();
    // the interpreter recurses on merged calls and on expression depth
    let h = std::thread::Builder::new()
        .stack_size(4 << 30)
        .spawn(move || {
            let src: &'static [u8] = Box::leak(std::fs::read(&ll).unwrap().into_boxed_slice());
            let m = ir::Module::load(src);
            if verbose {
                eprintln!("loaded {} funcs {} globals in {:?}", m.funcs.len(), m.globals.len(), t0.elapsed());
            }
            let mut e = Exec::new(m);
            e.set_merge(&merge);
            e.verbose = verbose;
            e.trace = trace;
            e.params = params;
            e.max_violations = maxv;
            e.max_samples = samples;
            e.deadline = t0 + Duration::from_secs(timeout);
            let st = e.initial(&entry);
            if verbose {
                eprintln!("initialised in {:?}", t0.elapsed());
            }
            let mut work = vec![st];
            if jobs <= 1 {
                e.explore_all(&mut work, None);
                e.leave(&work);
                finish(&e, t0, &out, 0, work.len(), verbose);
                return;
            }
            e.explore_all(&mut work, Some(jobs * split));
            if e.rep.timed_out {
                e.leave(&work);
            }
            finish(&e, t0, &out, 0, 0, verbose);
            if work.is_empty() || e.rep.timed_out || e.cur_violation_keys.len() >= maxv {
                return;
            }
            if verbose {
                eprintln!("split into {} states at {:?}", work.len(), t0.elapsed());
            }
            let ctr: &AtomicU64 = unsafe {
                let p = mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0);
                &*(p as *const AtomicU64)
            };
            let stop: &AtomicU64 = unsafe { &*((ctr as *const AtomicU64).add(8)) };
            let mut pids = vec![];
            for j in 0..jobs {
                let pid = unsafe { fork() };
                if pid == 0 {
                    unsafe {
                        prctl(1, 9, 0, 0, 0); // die with parent
                    }
                    // child: fresh report, same expression arena and solver context
                    e.rep = Report::default();
                    e.z3.stats = Default::default();
                    let mut left = 0;
                    loop {
                        let k = ctr.fetch_add(1, Ordering::SeqCst) as usize;
                        if k >= work.len() {
                            break;
                        }
                        if stop.load(Ordering::SeqCst) as usize >= maxv {
                            break;
                        }
                        // deeper states first
                        let mut w = vec![work[work.len() - 1 - k].clone()];
                        let before = e.cur_violation_keys.len();
                        e.explore_all(&mut w, None);
                        let after = e.cur_violation_keys.len();
                        stop.fetch_add((after - before) as u64, Ordering::SeqCst);
                        left += w.len();
                        if e.rep.timed_out {
                            e.leave(&w);
                        }
                        if e.rep.timed_out || e.cur_violation_keys.len() >= maxv {
                            break;
                        }
                    }
                    if e.rep.timed_out {
                        // states nobody has taken
                        loop {
                            let k = ctr.fetch_add(1, Ordering::SeqCst) as usize;
                            if k >= work.len() {
                                break;
                            }
                            left += 1;
                            if e.rep.open.len() < 64 {
                                e.leave(&work[work.len() - 1 - k..work.len() - k]);
                            }
                        }
                    }
                    finish(&e, t0, &out, j + 1, left, verbose);
                    unsafe { _exit(0) }
                }
                pids.push(pid);
            }
            let mut bad = false;
            for p in pids {
                let mut st = 0;
                unsafe { waitpid(p, &mut st, 0) };
                if st != 0 {
                    bad = true;
                    eprintln!("worker {} ended with status {}", p, st);
                }
            }
            if bad {
                unsafe { _exit(4) }
            }
        })
        .unwrap();
    if h.join().is_err() {
        std::process::exit(4);
    }
}

fn finish(e: &Exec, t0: Instant, out: &str, k: usize, left: usize, verbose: bool) {
    let s = report_json(e, t0.elapsed().as_secs_f64(), left);
    let mut f = std::fs::File::create(format!("{}.{}", out, k)).unwrap();
    f.write_all(s.as_bytes()).unwrap();
    if verbose {
        eprintln!(
            "[{}] ok {} assume {} viol {} err {} steps {} forks {} merges {} unary {} q {} solver {:.2}s wall {:.2}s nodes {}",
            k, e.rep.paths_ok, e.rep.paths_assume, e.rep.paths_violation, e.rep.paths_error, e.rep.steps, e.rep.forks, e.rep.merges,
            e.rep.branch_unary, e.z3.stats.queries, e.z3.stats.micros as f64 / 1e6, t0.elapsed().as_secs_f64(), expr::ar().nodes.len()
        );
        for (m, c) in &e.rep.errors {
            eprintln!("   error x{}: {}", c, m);
        }
        let mut fp: Vec<_> = e.forkprof.iter().collect();
        fp.sort_by_key(|x| std::cmp::Reverse(*x.1));
        for (f, c) in fp.iter().take(8) {
            eprintln!("   forks {:8} {}", c, pretty(&e.m.funcs[**f as usize].name));
        }
        let mut fp: Vec<_> = e.prof.iter().collect();
        fp.sort_by_key(|x| std::cmp::Reverse(*x.1));
        for (f, c) in fp.iter().take(6) {
            eprintln!("   calls {:8} {}", c, pretty(&e.m.funcs[**f as usize].name));
        }
    }
}
