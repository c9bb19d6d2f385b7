//! Runs pieces of work on all cores. The analysis is single-threaded, so that every thread has its own
//! copy of the program.
use crate::drive::*;
use crate::load::Program;
use std::collections::BTreeSet;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug)]
pub struct Found {
    pub kind: String,
    pub tpl: String,
    pub msg: String,
    pub file: String,
    pub line: usize,
    pub func: String,
    pub detail: String,
    /// the schema it was found with
    pub schema: Vec<(String, String)>,
}

/// What a piece of work amounted to.
#[derive(Clone, Debug, Default)]
pub struct Sum {
    pub found: Vec<Found>,
    pub undecided: Vec<String>,
    pub templates: usize,
    pub gen_paths: usize,
    pub read_docs: usize,
    pub read_paths: usize,
    pub write_paths: usize,
    pub obligations: usize,
    pub fns: BTreeSet<String>,
    pub samples: Vec<String>,
    pub ms: Vec<(String, u128)>,
}

impl Sum {
    pub fn of(log: Log, schema: &[(String, String)]) -> Sum {
        Sum {
            found: log
                .findings
                .into_iter()
                .map(|f| Found {
                    kind: f.kind,
                    tpl: f.tpl,
                    msg: f.msg,
                    file: f.site.file.to_string(),
                    line: f.site.line,
                    func: f.site.func.to_string(),
                    detail: f.detail,
                    schema: schema.to_vec(),
                })
                .collect(),
            undecided: log.undecided,
            templates: log.templates,
            gen_paths: log.gen_paths,
            read_docs: log.read_docs,
            read_paths: log.read_paths,
            write_paths: log.write_paths,
            obligations: log.obligations,
            fns: log.fns,
            samples: log.samples,
            ms: vec![],
        }
    }

    pub fn add(&mut self, o: Sum) {
        self.found.extend(o.found);
        self.undecided.extend(o.undecided);
        self.templates += o.templates;
        self.gen_paths += o.gen_paths;
        self.read_docs += o.read_docs;
        self.read_paths += o.read_paths;
        self.write_paths += o.write_paths;
        self.obligations += o.obligations;
        self.fns.extend(o.fns);
        if self.samples.len() < 6 {
            self.samples.extend(o.samples.into_iter().take(1));
        }
        self.ms.extend(o.ms);
    }
}

pub type Job = Box<dyn Fn(&mut Program) -> Sum + Send + Sync>;

/// The check of a template against the reference semantics.
pub fn job(t: Tpl, o: Opts) -> Job {
    Box::new(move |p| {
        let mut log = Log::default();
        check_template(p, &t, &o, &mut log);
        Sum::of(log, &t.files)
    })
}

pub fn run(repo: &std::path::Path, jobs: Vec<(String, Job)>, limit: u64) -> Sum {
    let end = std::time::Instant::now() + std::time::Duration::from_secs(limit);
    let n = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(8);
    let jobs = Arc::new(jobs);
    let next = Arc::new(AtomicUsize::new(0));
    let out: Arc<Mutex<Vec<(usize, Sum)>>> = Arc::new(Mutex::new(vec![]));
    let mut hs = vec![];
    for _ in 0..n.min(jobs.len()).max(1) {
        let (jobs, next, out, repo) = (jobs.clone(), next.clone(), out.clone(), repo.to_path_buf());
        hs.push(
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn(move || {
                    let mut p = Program::load(&repo);
                    loop {
                        let i = next.fetch_add(1, Ordering::SeqCst);
                        if i >= jobs.len() {
                            break;
                        }
                        let t0 = std::time::Instant::now();
                        if t0 > end {
                            out.lock().unwrap().push((
                                i,
                                Sum {
                                    undecided: vec![format!("{}: no time left", jobs[i].0)],
                                    ..Default::default()
                                },
                            ));
                            continue;
                        }
                        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (jobs[i].1)(&mut p)));
                        let mut s = match r {
                            Ok(s) => s,
                            Err(_) => {
                                p = Program::load(&repo);
                                Sum {
                                    undecided: vec![format!("{}: internal error of the analysis", jobs[i].0)],
                                    ..Default::default()
                                }
                            }
                        };
                        s.ms.push((jobs[i].0.clone(), t0.elapsed().as_millis()));
                        out.lock().unwrap().push((i, s));
                    }
                })
                .unwrap(),
        );
    }
    for h in hs {
        let _ = h.join();
    }
    let mut v = std::mem::take(&mut *out.lock().unwrap());
    v.sort_by_key(|x| x.0);
    let mut sum = Sum::default();
    for (_, s) in v {
        sum.add(s);
    }
    sum
}

pub fn print(s: &Sum, n: usize, detail: bool) {
    for f in s.found.iter().take(n) {
        println!("FINDING [{}] {}: {} @ {}:{} {}", f.kind, f.tpl, f.msg, f.file, f.line, f.func);
        if detail {
            println!("      {}", f.detail);
        }
    }
    for u in s.undecided.iter().take(n) {
        println!("UNDECIDED {}", u);
    }
    println!(
        "templates {} gen_paths {} docs {} read_paths {} write_paths {} obligations {} findings {} undecided {}",
        s.templates,
        s.gen_paths,
        s.read_docs,
        s.read_paths,
        s.write_paths,
        s.obligations,
        s.found.len(),
        s.undecided.len()
    );
}
