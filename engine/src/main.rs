//! oakse: symbolic execution of LLVM IR with Z3.  See ../DESIGN.md.
mod exec;
mod expr;
mod ir;
mod lower;
mod z3;
use exec::*;
use std::sync::atomic::Ordering::Relaxed;
use std::time::{Duration, Instant};

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn nums(v: &[u64]) -> String {
    format!("[{}]", v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str| a.iter().position(|x| x == k).map(|i| a[i + 1].clone());
    let ll = get("--ll").expect("--ll");
    let threads: usize = get("--threads").map(|s| s.parse().unwrap()).unwrap_or(8);
    let out = get("--out");
    let budget: f64 = get("--budget").map(|s| s.parse().unwrap()).unwrap_or(30.0);
    let steps: u64 = get("--steps").map(|s| s.parse().unwrap()).unwrap_or(30_000_000);
    let t0 = Instant::now();
    let m: &'static ir::Module = Box::leak(Box::new(ir::Module::load(&ll)));
    let load_s = t0.elapsed().as_secs_f64();
    if let Some(n) = get("--lower-all") {
        let mut k = 0;
        for i in 0..m.funcs.len() {
            if m.funcs[i].range != (0, 0) {
                lower::lower(m, i as u32);
                k += 1;
            }
        }
        println!("lowered {} functions ({}), load {:.2}s, total {:.2}s", k, n, load_s, t0.elapsed().as_secs_f64());
        return;
    }
    let mut results = vec![];
    let harnesses: Vec<String> = a.iter().enumerate().filter(|(_, x)| *x == "--harness").map(|(i, _)| a[i + 1].clone()).collect();
    for hn in harnesses {
        // name[:budget[:steps]]
        let mut p = hn.split(':');
        let name = p.next().unwrap().to_string();
        let b: f64 = p.next().and_then(|x| x.parse().ok()).unwrap_or(budget);
        let st: u64 = p.next().and_then(|x| x.parse().ok()).unwrap_or(steps);
        let Some(&entry) = m.func_ix.get(&name) else {
            results.push(format!("{{\"harness\":{},\"error\":\"no such function\"}}", esc(&name)));
            continue;
        };
        let cfg = Cfg {
            steps: st,
            budget: Duration::from_secs_f64(b),
            max_depth: get("--depth").map(|s| s.parse().unwrap()).unwrap_or(6000),
            size_limit: get("--size-limit").map(|s| s.parse().unwrap()).unwrap_or(3000),
            check: a.iter().any(|x| x == "--check"),
            z3_ms: 10_000,
            max_viol: get("--max-viol").map(|s| s.parse().unwrap()).unwrap_or(24),
            verbose: a.iter().any(|x| x == "-v"),
            seed: get("--seed").map(|s| s.parse().unwrap()).unwrap_or(1),
        };
        let sh: &'static Shared<'static> = Box::leak(Box::new(Shared::new(m, cfg)));
        let t1 = Instant::now();
        *sh.deadline.lock().unwrap() = t1 + sh.cfg.budget;
        let first: Vec<u64> = get("--inputs").map(|s| s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect()).unwrap_or_default();
        sh.queue.lock().unwrap().0.push(Item { inputs: first, start: 0, hash: 0, excl: vec![] });
        let once = a.iter().any(|x| x == "--once");
        std::thread::scope(|s| {
            for i in 0..if once { 1 } else { threads } {
                let b = std::thread::Builder::new().stack_size(256 << 20);
                b.spawn_scoped(s, move || {
                    let mut w = Worker::new(sh, i as u64);
                    if once {
                        let it = sh.queue.lock().unwrap().0.pop().unwrap();
                        let t = w.run(entry, it);
                        eprintln!("{:?}", t);
                    } else {
                        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| w.work(entry, i)));
                        if r.is_err() {
                            sh.stop.store(true, Relaxed);
                            *sh.unsups.lock().unwrap().entry("ENGINE PANIC".into()).or_insert(0) += 1;
                        }
                    }
                })
                .unwrap();
            }
        });
        let secs = t1.elapsed().as_secs_f64();
        let s = &sh.stats;
        let pending = sh.queue.lock().unwrap().0.len();
        let stopped = sh.stop.load(Relaxed);
        let uns = sh.unsups.lock().unwrap();
        let viols = sh.viols.lock().unwrap();
        let exhaustive = !stopped && pending == 0 && uns.is_empty() && s.dropped.load(Relaxed) == 0;
        // executed functions
        let mut fset = std::collections::BTreeSet::new();
        let mut blocks = 0u64;
        // metadata of the source locations executed
        let mut locs = std::collections::BTreeSet::new();
        for (i, h) in sh.hits.lock().unwrap().iter().enumerate() {
            if h.iter().all(|x| *x == 0) {
                continue;
            }
            fset.insert(m.funcs[i].name.clone());
            let f = sh.func(i as u32);
            // instructions of hit blocks
            let mut starts: Vec<(u32, usize)> = f.block_pc.iter().enumerate().filter(|x| *x.1 != u32::MAX).map(|(b, p)| (*p, b)).collect();
            starts.sort();
            for (j, (p, b)) in starts.iter().enumerate() {
                if h[*b] == 0 {
                    continue;
                }
                blocks += 1;
                let e = starts.get(j + 1).map(|x| x.0).unwrap_or(f.insts.len() as u32);
                let mut last = 0;
                for q in *p..e {
                    let l = f.loc[q as usize];
                    if l != 0 && l != last {
                        last = l;
                        locs.insert(l);
                        if let Some(n) = m.dbg_subprogram(l) {
                            fset.insert(n.to_string());
                        }
                    }
                }
            }
        }
        if let Ok(f) = std::env::var("VX_COV") {
            use std::io::Write;
            let mut f = std::fs::OpenOptions::new().create(true).append(true).open(f).unwrap();
            f.write_all(locs.iter().map(|l| format!("{l}\n")).collect::<String>().as_bytes()).unwrap();
        }
        let vj: Vec<String> = viols
            .iter()
            .map(|v| {
                format!(
                    "{{\"kind\":{},\"msg\":{},\"inputs\":{},\"count\":{},\"stack\":[{}]}}",
                    esc(&v.kind),
                    esc(&v.msg),
                    nums(&v.inputs),
                    v.count,
                    v.stack.iter().map(|x| esc(x)).collect::<Vec<_>>().join(",")
                )
            })
            .collect();
        let sj: Vec<String> = sh.samples.lock().unwrap().iter().map(|x| format!("{{\"inputs\":{},\"obs\":{}}}", nums(&x.inputs), x.obs)).collect();
        let uj: Vec<String> = uns.iter().map(|(k, n)| format!("{}:{}", esc(k), n)).collect();
        let cj: Vec<String> = sh.covers.lock().unwrap().iter().map(|(k, n)| format!("\"{}\":{}", k, n)).collect();
        let fj: Vec<String> = fset.iter().map(|x| esc(x)).collect();
        let j = format!(
            "{{\"harness\":{},\"seconds\":{:.3},\"exhaustive\":{},\"pending\":{},\"paths\":{},\"ok\":{},\"assume_rejected\":{},\"queries\":{},\"cache_hits\":{},\"z3_sat\":{},\"z3_unsat\":{},\"z3_unknown\":{},\"z3_seconds\":{:.3},\"instructions\":{},\"events\":{},\"max_depth\":{},\"pins\":{},\"autopins\":{},\"blocks\":{},\"violations\":[{}],\"samples\":[{}],\"unsupported\":{{{}}},\"covers\":{{{}}},\"functions\":[{}]}}",
            esc(&name), secs, exhaustive, pending, s.paths.load(Relaxed), s.ok.load(Relaxed), s.assume.load(Relaxed), s.queries.load(Relaxed), s.hits.load(Relaxed), s.sat.load(Relaxed), s.unsat.load(Relaxed), s.unknown.load(Relaxed), s.z3_us.load(Relaxed) as f64 / 1e6, s.insts.load(Relaxed), s.events.load(Relaxed), s.maxdepth.load(Relaxed), s.pins.load(Relaxed), s.autopins.load(Relaxed), blocks, vj.join(","), sj.join(","), uj.join(","), cj.join(","), fj.join(",")
        );
        eprintln!(
            "{}: {:.2}s exhaustive={} pending={} paths={} ok={} assume={} queries={} hits={} z3={}+{}+{} z3s={:.2} insts={} depth={} pins={}/{} viol={} unsup={:?}",
            name, secs, exhaustive, pending, s.paths.load(Relaxed), s.ok.load(Relaxed), s.assume.load(Relaxed), s.queries.load(Relaxed), s.hits.load(Relaxed), s.sat.load(Relaxed), s.unsat.load(Relaxed), s.unknown.load(Relaxed), s.z3_us.load(Relaxed) as f64 / 1e6, s.insts.load(Relaxed), s.maxdepth.load(Relaxed), s.pins.load(Relaxed), s.autopins.load(Relaxed), viols.len(), *uns
        );
        results.push(j);
    }
    let all = format!("{{\"load_seconds\":{:.3},\"results\":[{}]}}", load_s, results.join(",\n"));
    match out {
        Some(p) => std::fs::write(p, all).unwrap(),
        None => println!("{}", all),
    }
}
