#![allow(dead_code)]
mod interp;
mod ir;
mod term;
mod z;
use interp::*;
use serde_json::json;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;

/// absint DUMP [ENTRY FILTER][@input/n,input=v;v]...
///   an entry whose name contains the filter is analysed; `@name/n,name=v;v` partitions first by
///   the given values of the named inputs, analysed as separate tasks and reported together
fn main() {
    let mut dump = String::new();
    let mut filters: Vec<String> = vec![];
    let mut out = None;
    let mut bud_paths = 2_000_000u64;
    let mut secs = 60.0f64;
    let mut split = 700u64;
    let mut verbose = false;
    let mut threads = 8usize;
    let mut total = 3600.0f64;
    let mut only: Option<String> = None;
    let start = std::time::Instant::now();
    let mut a = std::env::args().skip(1);
    while let Some(x) = a.next() {
        match x.as_str() {
            "-o" => out = a.next(),
            "-t" => secs = a.next().unwrap().parse().unwrap(),
            "-p" => bud_paths = a.next().unwrap().parse().unwrap(),
            "-s" => split = a.next().unwrap().parse().unwrap(),
            "-j" => threads = a.next().unwrap().parse().unwrap(),
            "-T" => total = a.next().unwrap().parse().unwrap(),
            "-x" => only = a.next(),
            "-v" => verbose = true,
            _ if dump.is_empty() => dump = x,
            _ => filters.push(x),
        }
    }
    let ir = ir::load(&dump);
    let mut tasks: Vec<(String, usize, Vec<(String, i128)>)> = vec![];
    for (n, k) in ir.entries.iter() {
        if only.as_ref().map_or(false, |o| !n.ends_with(o.as_str())) {
            continue;
        }
        let mut specs: Vec<&str> = filters.iter().map(|f| f.as_str()).filter(|f| n.contains(f.split('@').next().unwrap())).collect();
        if filters.is_empty() {
            specs.push("");
        }
        for spec in specs {
        let mut pres: Vec<Vec<(String, i128)>> = vec![vec![]];
        if let Some((_, p)) = spec.split_once('@') {
            for tok in p.split(',') {
                let (nm, vals): (&str, Vec<i128>) = match tok.split_once('/') {
                    Some((nm, m)) => (nm, (0..m.parse().unwrap()).collect()),
                    None => {
                        let (nm, l) = tok.split_once('=').expect("name/n or name=v;v");
                        (nm, l.split(';').map(|x| x.parse().unwrap()).collect())
                    }
                };
                pres = pres.into_iter().flat_map(|p| vals.iter().map(move |v| { let mut p = p.clone(); p.push((nm.to_string(), *v)); p }).collect::<Vec<_>>()).collect();
            }
        }
        for p in pres {
            tasks.push((n.clone(), *k, p));
        }
        }
    }
    let next = AtomicUsize::new(0);
    let outs: Mutex<Vec<(String, Results)>> = Mutex::new(vec![]);
    std::thread::scope(|sc| {
        for _ in 0..threads.min(tasks.len().max(1)) {
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn_scoped(sc, || loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= tasks.len() {
                        break;
                    }
                    let (name, id, pre) = &tasks[i];
                    let secs = f64::max(0.0, f64::min(secs, total - start.elapsed().as_secs_f64()));
                    let mut it = Interp::new(&ir, Budget { paths: bud_paths, secs, split, verbose, trace: std::env::var("ABSINT_TRACE").is_ok(), pre: pre.clone() });
                    if let Err(p) = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| it.run(*id))) {
                        let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                        it.res.incomplete = Some(format!("analyser failure: {m}"));
                    }
                    let r = std::mem::take(&mut it.res);
                    outs.lock().unwrap().push((name.clone(), r));
                })
                .unwrap();
        }
    });
    let mut by: BTreeMap<String, Results> = BTreeMap::new();
    for (n, r) in outs.into_inner().unwrap() {
        let e = by.entry(n).or_default();
        for (k, s) in r.stats {
            let t = e.stats.entry(k).or_default();
            t.discharged += s.discharged;
            t.violated += s.violated;
            t.undecided += s.undecided;
        }
        e.reports.extend(r.reports);
        e.undecided.extend(r.undecided);
        e.paths += r.paths;
        e.joins += r.joins;
        e.steps += r.steps;
        e.secs += r.secs;
        for (k, v) in r.unsup {
            *e.unsup.entry(k).or_default() += v;
        }
        e.fns.extend(r.fns);
        if r.incomplete.is_some() {
            e.incomplete = r.incomplete;
        }
    }
    let mut v = vec![];
    for (name, r) in by {
        let rep = |v: &Vec<Report>| -> Vec<serde_json::Value> {
            v.iter()
                .take(40)
                .map(|r| {
                    json!({"check": r.check, "what": r.what, "file": r.file, "func": r.func, "line": r.line,
                    "inputs": r.inputs.iter().map(|(n, z)| (n.clone(), json!(format!("{z}")))).collect::<serde_json::Map<_,_>>(),
                    "trail": r.trail, "facts": r.facts})
                })
                .collect()
        };
        v.push(json!({
            "entry": name,
            "paths": r.paths, "joins": r.joins, "steps": r.steps, "secs": r.secs,
            "incomplete": r.incomplete,
            "unsup": r.unsup,
            "checks": r.stats.iter().map(|(k, s)| (k.clone(), json!([s.discharged, s.violated, s.undecided]))).collect::<serde_json::Map<_,_>>(),
            "violations": rep(&r.reports),
            "undecided": rep(&r.undecided),
            "fns": r.fns.iter().filter(|f| ir.fns[**f].krate == "rustc_apfloat").map(|f| ir.fns[*f].name.clone()).collect::<Vec<_>>(),
        }));
    }
    let j = json!({ "entries": v });
    match out {
        Some(p) => std::fs::write(p, serde_json::to_vec_pretty(&j).unwrap()).unwrap(),
        None => println!("{}", serde_json::to_string_pretty(&j).unwrap()),
    }
}
