mod alloc;
mod exec;
mod expr;
mod ext;
mod ir;
mod mem;
mod z3;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Instant;

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mut file = None;
    let mut entry = String::new();
    let mut threads = 8usize;
    let mut time = 100.0f64;
    let mut jobtime = 1e9f64;
    let mut out = None;
    let mut cfg = exec::Cfg::default();
    let mut only: Option<Vec<u32>> = None;
    let mut i = 1;
    while i < args.len() {
        let a = &args[i];
        let mut nx = || {
            i += 1;
            args[i].clone()
        };
        match a.as_str() {
            "--entry" => entry = nx(),
            "--threads" => threads = nx().parse().unwrap(),
            "--time" => time = nx().parse().unwrap(),
            "--job-time" => jobtime = nx().parse().unwrap(),
            "--out" => out = Some(nx()),
            "--steps" => cfg.max_steps = nx().parse().unwrap(),
            "--maxviol" => cfg.max_viol = nx().parse().unwrap(),
            "--samples" => cfg.samples = nx().parse().unwrap(),
            "--seed" => cfg.seed = nx().parse().unwrap(),
            "--stop-after" => cfg.stop_after = nx().parse().unwrap(),
            "--dump-queries" => cfg.dump = nx().parse().unwrap(),
            "--no-violation-stop" => cfg.max_viol = u32::MAX,
            "-v" => cfg.verbose = true,
            "--jobs" => only = Some(nx().split(',').map(|x| x.parse().unwrap()).collect()),
            _ => file = Some(a.clone()),
        }
        i += 1;
    }
    let t0 = Instant::now();
    let text = std::fs::read_to_string(file.expect("ll file")).unwrap();
    let module = Arc::new(exec::Prog::new(ir::parse(&text)));
    drop(text);
    if cfg.verbose {
        eprintln!("parsed {} funcs {} globals in {:.2}s", module.m.funcs.len(), module.m.globals.len(), t0.elapsed().as_secs_f64());
    }
    let deadline = t0 + std::time::Duration::from_secs_f64(time);
    // number of jobs
    let njobs = {
        let mut w = exec::Worker::new(module.clone(), cfg.clone());
        let jf = format!("{}_jobs", entry);
        if module.m.fname.contains_key(&jf) {
            w.call_concrete(&jf)
        } else {
            1
        }
    };
    // jobs to be done before the others
    let first = {
        let mut w = exec::Worker::new(module.clone(), cfg.clone());
        let jf = format!("{}_first", entry);
        if only.is_none() && module.m.fname.contains_key(&jf) {
            (w.call_concrete(&jf) as usize).min(njobs as usize)
        } else {
            0
        }
    };
    let mut list: Vec<u32> = only.unwrap_or_else(|| (0..njobs).collect());
    // interleave: deterministic shuffle by seed, so that a truncated run covers a spread of jobs
    let mut s = cfg.seed.wrapping_mul(0x9E3779B97F4A7C15) | 1;
    let (head, tail) = list.split_at_mut(first);
    for part in [head, tail] {
        for k in (1..part.len()).rev() {
            s ^= s << 13;
            s ^= s >> 7;
            s ^= s << 17;
            part.swap(k, (s % (k as u64 + 1)) as usize);
        }
    }
    let list = Arc::new(list);
    let next = Arc::new(AtomicUsize::new(0));
    let total: Arc<Mutex<exec::Stats>> = Arc::new(Mutex::new(exec::Stats::default()));
    let mut hs = vec![];
    for _ in 0..threads.min(list.len()) {
        let (list, next, total, module, cfg) = (list.clone(), next.clone(), total.clone(), module.clone(), cfg.clone());
        let entry = entry.clone();
        hs.push(
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn(move || {
                    let mut w = exec::Worker::new(module.clone(), cfg.clone());
                    loop {
                        let k = next.fetch_add(1, Ordering::SeqCst);
                        if k >= list.len() {
                            break;
                        }
                        if Instant::now() >= deadline || w.stopped() {
                            w.stats.jobs_skipped += 1;
                            continue;
                        }
                        let jd = deadline.min(Instant::now() + std::time::Duration::from_secs_f64(jobtime));
                        if w.pool.nodes.len() > 3_000_000 {
                            let st = std::mem::take(&mut w.stats);
                            w = exec::Worker::new(module.clone(), cfg.clone());
                            w.stats = st;
                        }
                        let tj = Instant::now();
                        let p0 = w.stats.paths;
                        let i0 = w.stats.instrs;
                        w.run_job(&entry, list[k], jd);
                        w.stats.jobs.push((list[k], w.stats.paths - p0, w.stats.instrs - i0, tj.elapsed().as_secs_f64(), w.job_complete));
                    }
                    w.finish();
                    total.lock().unwrap().merge(std::mem::take(&mut w.stats));
                })
                .unwrap(),
        );
    }
    let mut crashed = false;
    for h in hs {
        if h.join().is_err() {
            crashed = true;
        }
    }
    let mut st = std::mem::take(&mut *total.lock().unwrap());
    st.njobs = list.len() as u64;
    if crashed {
        st.errors.push(("engine thread crashed".into(), 1));
    }
    let js = st.json(&module, t0.elapsed().as_secs_f64());
    if cfg.verbose {
        eprintln!("{}", st.brief(t0.elapsed().as_secs_f64()));
    }
    match out {
        Some(f) => std::fs::write(f, js).unwrap(),
        None => println!("{}", js),
    }
}
