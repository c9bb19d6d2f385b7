//! For work on the analysis itself: a sample of what is analysed for all properties, until something is found.
use crate::cli::concerns;
use crate::props::*;
use crate::run::*;
use std::collections::HashMap;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;

/// Which jobs are slow is read from a file that an earlier run of all of them wrote.
pub fn main(repo: &std::path::Path, a: &[String]) {
    let record = a.first().map(|x| x == "record").unwrap_or(false);
    let file = "/tmp/hunt.times";
    let budget: u128 = a.first().and_then(|x| x.parse().ok()).unwrap_or(20000);
    let only: Vec<&String> = a.iter().skip(1).collect();
    let times: HashMap<String, u128> = std::fs::read_to_string(file)
        .unwrap_or_default()
        .lines()
        .filter_map(|l| l.rsplit_once('\t').map(|(k, v)| (k.to_string(), v.parse().unwrap_or(0))))
        .collect();
    let stop = Arc::new(AtomicBool::new(false));
    let mut all: Vec<(u128, (String, Job))> = vec![];
    for p in PROPS {
        if !only.is_empty() && !only.iter().any(|o| *o == p.id) {
            continue;
        }
        let jobs = (p.jobs)(Tier::Quick);
        let ms: Vec<u128> = jobs.iter().map(|j| *times.get(&format!("{}\t{}", p.id, j.0)).unwrap_or(&50)).collect();
        // the fast ones are spread over the whole list
        let mut order: Vec<usize> = (0..jobs.len()).collect();
        order.sort_by_key(|i| ((i * 7919 + 13) % jobs.len().max(1), *i));
        let mut pick = vec![record; jobs.len()];
        let mut sum = 0;
        for i in order {
            if sum + ms[i] <= budget && (ms[i] < 1500 || budget > 1000000) {
                pick[i] = true;
                sum += ms[i];
            }
        }
        let mut acc = 0;
        for (i, (id, j)) in jobs.into_iter().enumerate() {
            if !pick[i] {
                continue;
            }
            acc += ms[i].max(1);
            let stop = stop.clone();
            let f: Job = Box::new(move |prog| {
                if stop.load(Ordering::Relaxed) {
                    return Sum::default();
                }
                let mut s = j(prog);
                s.found.retain(|f| concerns(p, f));
                if !s.found.is_empty() && !record {
                    stop.store(true, Ordering::Relaxed);
                }
                s.found.iter_mut().for_each(|f| f.tpl = format!("{} {}", p.id, f.tpl));
                s
            });
            all.push((acc, (format!("{}\t{}", p.id, id), f)));
        }
    }
    all.sort_by_key(|x| x.0);
    let s = run(repo, all.into_iter().map(|x| x.1).collect(), 100000);
    if record {
        let t: String = s.ms.iter().map(|(k, v)| format!("{}\t{}\n", k, v)).collect();
        let _ = std::fs::write(file, t);
    }
    match s.found.first() {
        Some(f) => println!("CAUGHT {} [{}] {} @ {}:{}", f.tpl, f.kind, f.msg, f.file, f.line),
        None => println!("QUIET {} undecided {}", s.undecided.len(), s.undecided.iter().take(3).cloned().collect::<Vec<_>>().join(" ;; ")),
    }
}
