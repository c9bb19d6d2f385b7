#![allow(dead_code, unused_mut, unused_variables, unreachable_patterns)]
mod annot;
mod bad;
mod cli;
mod docs;
mod drive;
mod eval;
mod deps;
mod files;
mod interp;
mod load;
mod hunt;
mod mac;
mod model;
mod names;
mod odd;
mod passes;
mod props;
mod quote;
mod render;
mod run;
mod selft;
mod spec;
mod stdm;
mod strings;
mod tpls;
mod val;
mod xmlt;
fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.get(1).map(|x| x == "run").unwrap_or(false) {
        let arg = |n: &str, d: &str| a.iter().position(|x| x == n).and_then(|i| a.get(i + 1).cloned()).unwrap_or(d.into());
        let tier = if arg("--tier", "quick") == "thorough" { props::Tier::Thorough } else { props::Tier::Quick };
        std::process::exit(cli::main(
            std::path::Path::new(&arg("--repo", "/repo")),
            std::path::Path::new(&arg("--verif", "/verif")),
            &a[2],
            tier,
        ));
    }
    let repo = std::env::var("REPO").unwrap_or("/repo".into());
    let mut p = load::Program::load(std::path::Path::new(&repo));
    if !p.errors.is_empty() {
        println!("errors {:?}", p.errors);
    }
    match a.get(1).map(|x| x.as_str()) {
        Some("hunt") => hunt::main(std::path::Path::new(&repo), &a[2..]),
        Some("self") => selft::main(&mut p, &a[2], &a[3]),
        Some("prop") => {
            let pr = props::PROPS.iter().find(|p| p.id == a[2]).expect("property");
            let tier = if a.get(3).map(|x| x == "thorough").unwrap_or(false) { props::Tier::Thorough } else { props::Tier::Quick };
            let t0 = std::time::Instant::now();
            let s = run::run(std::path::Path::new(&repo), (pr.jobs)(tier), 100000);
            let mut s = s;
            s.found.retain(|f| cli::concerns(pr, f));
            run::print(&s, 100000, a.len() > 4);
            let mut ms = s.ms.clone();
            ms.sort_by_key(|x| std::cmp::Reverse(x.1));
            println!("{:?} total {}ms slowest {:?}", t0.elapsed(), ms.iter().map(|x| x.1).sum::<u128>(), &ms[..ms.len().min(8)]);
        }
        Some("gen") => drive::dbg_gen(&p, &a[2]),
        Some("check") => drive::dbg_check(&mut p, &a[2]),
        Some("matrix") => {
            let mut jobs = vec![];
            for (pl, _) in tpls::PLACES {
                for k in tpls::KINDS {
                    for (o, _) in tpls::OCCURS {
                        for ns in tpls::NSS {
                            let t = tpls::member(ns, pl, k.id, o);
                            if a.len() > 2 && !t.id.contains(&a[2]) {
                                continue;
                            }
                            jobs.push((t.id.clone(), run::job(t, drive::Opts::default())));
                        }
                    }
                }
            }
            let mut more = vec![];
            for ns in tpls::NSS {
                more.extend(tpls::groups(ns));
                more.extend(tpls::attrs(ns));
            }
            for ns in tpls::NSS {
                for k in tpls::KINDS {
                    more.push(tpls::top(ns, k.id));
                }
            }
            for t in more {
                if a.len() > 2 && !t.id.contains(&a[2]) {
                    continue;
                }
                jobs.push((t.id.clone(), run::job(t, drive::Opts::default())));
            }
            let t0 = std::time::Instant::now();
            let s = run::run(std::path::Path::new(&repo), jobs, 100000);
            run::print(&s, 100000, a.len() > 3);
            let mut ms = s.ms.clone();
            ms.sort_by_key(|x| std::cmp::Reverse(x.1));
            println!("{:?} total {}ms slowest {:?}", t0.elapsed(), ms.iter().map(|x| x.1).sum::<u128>(), &ms[..ms.len().min(8)]);
        }
        _ => println!("{} fns", p.fns.len()),
    }
}
