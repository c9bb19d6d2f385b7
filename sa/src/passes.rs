//! Analyses that do not go through a schema.
use crate::drive::*;
use crate::interp::*;
use crate::load::{last, Program};
use crate::model::*;
use crate::run::*;
use crate::val::*;
use crate::xmlt::*;
use std::cell::RefCell;
use std::rc::Rc;

pub fn by_ref(it: &mut Interp, v: V) -> V {
    let c = it.alloc(v);
    V::Mut(Rc::new(Place { cell: c, proj: vec![] }))
}

/// All ways in which `n` things can be the same or different.
fn patterns(n: usize) -> Vec<Vec<usize>> {
    let mut out = vec![vec![]];
    for _ in 0..n {
        out = out
            .into_iter()
            .flat_map(|p: Vec<usize>| {
                let m = p.iter().max().map(|m| m + 1).unwrap_or(0);
                (0..=m).map(move |k| {
                    let mut q = p.clone();
                    q.push(k);
                    q
                })
            })
            .collect();
    }
    out
}

const OPS: &[&str] = &["next_child", "child", "peek_child", "try_next_child", "try_child"];

/// Histories of lookups on an element, compared with a list of the children that remain.
pub fn lookups(steps: usize, ns: usize, pat: Vec<usize>, ops: usize) -> Job {
    history(steps, ns, pat, ops, vec![])
}

/// The same, with a given history instead of every one.
pub fn history(steps: usize, ns: usize, pat: Vec<usize>, ops: usize, given: Vec<(usize, usize)>) -> Job {
    Box::new(move |p: &mut Program| {
        let mut log = Log::default();
        log.templates += 1;
        let id = format!("lookups/{}/{}/{:?}", ["names", "namespaces"][ns], steps, pat);
        // names of the classes; the last one is not in the document
        let m = pat.iter().max().map(|m| m + 1).unwrap_or(0) + 1;
        let name = |k: usize| -> (V, Option<V>) {
            match ns {
                0 => (value(&format!("%n{}", k)), None),
                _ => (
                    value(if k % 2 == 0 || k < 3 { "%n" } else { "%o" }),
                    match k {
                        0 => Some(value("%u0")),
                        1 => None,
                        _ => Some(value(&format!("%u{}", k))),
                    },
                ),
            }
        };
        let mut w = WNode {
            ns: None,
            name: lit("root"),
            attrs: vec![],
            kids: vec![],
            site: None,
        };
        for (i, k) in pat.iter().enumerate() {
            let (nm, u) = name(*k);
            w.kids.push(WKid::El(WNode {
                ns: u,
                name: nm,
                attrs: vec![],
                kids: vec![WKid::Text(lit(&format!("t{}", i)))],
                site: None,
            }));
        }
        let mut d = XDoc::from_wnode("children", &w);
        // other nodes in between
        let root = d.root_element();
        let kids = d.nodes[root].children.clone();
        d.nodes[root].children.clear();
        for k in kids {
            let t = d.add(root, XKind::Text);
            d.nodes[t].text = lit("\n ");
            d.nodes[root].children.push(k);
            d.add(root, XKind::Comment);
            d.add(root, XKind::Pi);
        }
        let shown = d.show();
        let model = Rc::new(Model::new());
        let doc = model.add(d);
        let mut it = Interp::new(p, model);
        it.generic = true;
        let lg = RefCell::new(&mut log);
        let ex = it.explore(1_000_000, &mut |it| {
            let r = it.call_path("xsd::decode::decode", vec![doc.clone()])?;
            let r = match it.res(r, &nosite())? {
                Ok(r) => r,
                Err(_) => return Ok(V::Unit),
            };
            let r = by_ref(it, r);
            let r = it.call_path("xsd::decode::Document::try_child", vec![r, lit("root"), V::none()])?;
            let r = match it.res(r, &nosite())? {
                Ok(r) => r,
                Err(_) => return Ok(V::Unit),
            };
            let node = by_ref(it, r);
            let mut rest: Vec<usize> = (0..pat.len()).collect();
            let mut hist: Vec<String> = vec![];
            let step = |it: &mut Interp, op: &str, k: usize, rest: &mut Vec<usize>, hist: &mut Vec<String>| -> R<bool> {
                let (nm, u) = name(k);
                hist.push(format!("{}({}, {})", op, vs(&nm), u.as_ref().map(vs).unwrap_or("-".into())));
                let out = it.call_path(
                    &format!("xsd::decode::Node::{}", op),
                    vec![node.clone(), nm.clone(), crate::stdm::opt_v(u.clone())],
                )?;
                lg.borrow_mut().obligations += 1;
                let site = fn_site(it, &format!("xsd::decode::Node::{}", op));
                // what should have happened
                let ordered = op.contains("next");
                let want: Option<usize> = match (op, rest.iter().position(|i| pat[*i] == k)) {
                    (_, Some(0)) => Some(0),
                    ("peek_child", _) => None,
                    (_, Some(i)) if !ordered => Some(i),
                    _ => None,
                };
                let mut bad = |m: String| {
                    lg.borrow_mut().find(
                        &id,
                        "lookup",
                        format!("`{}` {}", op, m),
                        site.clone(),
                        format!("document {}; history {}", shown, hist.join(", ")),
                    )
                };
                if op == "peek_child" {
                    let b = it.truth(out, &nosite())?;
                    if b != want.is_some() {
                        bad(format!(
                            "answers {} although the next remaining child {}",
                            b,
                            if want.is_some() { "has that name" } else { "is another one" }
                        ));
                        return Ok(false);
                    }
                    return Ok(true);
                }
                let got = if op.starts_with("try") {
                    match it.res(out, &nosite())? {
                        Ok(v) => Some(v),
                        Err(e) => {
                            let f = |n: &str| e.field(n).and_then(|v| it.rv(v).ok());
                            let okn = f("name").map(|v| v == nm).unwrap_or(false);
                            let okns = match (f("namespace"), &u) {
                                (Some(V::Enum(x)), None) => &*x.variant == "None",
                                (Some(V::Enum(x)), Some(u)) => x.fields.first().and_then(|y| it.rv(y.1.clone()).ok()).as_ref() == Some(u),
                                _ => false,
                            };
                            if e.variant() != Some("MissingElement") || !okn || !okns {
                                bad(format!("fails with {}, which does not identify the element", brief(&e)));
                                return Ok(false);
                            }
                            None
                        }
                    }
                } else {
                    it.opt(out, &nosite())?
                };
                match (got, want) {
                    (None, None) => Ok(true),
                    (None, Some(i)) => {
                        bad(format!("finds nothing although child #{} remains", rest[i]));
                        Ok(false)
                    }
                    (Some(c), w) => {
                        let c = by_ref(it, c);
                        let t = it.call_path("xsd::decode::Node::text", vec![c])?;
                        let t = match it.res(t, &nosite())? {
                            Ok(t) => it.rv(t)?.as_lit().unwrap_or_default(),
                            Err(_) => "?".into(),
                        };
                        match w {
                            Some(i) if t == format!("t{}", rest[i]) => {
                                rest.remove(i);
                                Ok(true)
                            }
                            Some(i) => {
                                bad(format!("hands out child #{} instead of child #{}", t.trim_start_matches('t'), rest[i]));
                                Ok(false)
                            }
                            None => {
                                bad(format!("hands out child #{} although {}", t.trim_start_matches('t'), if ordered { "it is not the next one with that name" } else { "no such child remains" }));
                                Ok(false)
                            }
                        }
                    }
                }
            };
            for i in 0..steps {
                let (o, k) = match given.get(i) {
                    Some(g) => *g,
                    None => {
                        let o = it.choose(if i + 1 == steps { ops } else { 3 });
                        (o, it.choose(m))
                    }
                };
                if !step(it, OPS[o], k, &mut rest, &mut hist)? {
                    return Ok(V::Unit);
                }
            }
            // the others remain, in order
            let left = rest.clone();
            for i in left {
                if !step(it, "next_child", pat[i], &mut rest, &mut hist)? {
                    return Ok(V::Unit);
                }
            }
            Ok(V::Unit)
        });
        let fns = it.visited.borrow().clone();
        let n = ex.paths.len();
        let mut und = vec![];
        let mut pan = vec![];
        for p in ex.paths {
            match p.out {
                Err(Ctl::Panic(m, s)) => pan.push((m, s)),
                Err(Ctl::Unsupported(m, s)) => und.push(format!("{}: {} ({}:{} {})", id, m, s.file, s.line, s.func)),
                Err(o) => und.push(format!("{}: {:?}", id, o)),
                Ok(_) => {}
            }
        }
        drop(it);
        log.fns.extend(fns);
        log.read_docs += 1;
        log.read_paths += n;
        for (m, s) in pan {
            log.find(&id, "panic", format!("a lookup panics: {}", m), s, shown.clone());
        }
        for u in und {
            log.undecided(u);
        }
        log.samples.push(format!("{}: {}", id, shown));
        Sum::of(log, &[])
    })
}

pub fn all_lookups(n: usize, steps: usize) -> Vec<(String, Job)> {
    let mut out: Vec<(String, Job)> = vec![];
    for k in 0..=n {
        for ns in 0..2 {
            for pat in patterns(k) {
                let ops = OPS.len();
                out.push((format!("lookups/{}/{:?}", ns, pat), lookups(steps, ns, pat, ops)));
            }
        }
    }
    out
}

/// Long histories on many children.
pub fn long_lookups() -> Vec<(String, Job)> {
    const NEXT: usize = 0;
    const ANY: usize = 1;
    const PEEK: usize = 2;
    let n = 24;
    let distinct: Vec<usize> = (0..n).collect();
    let thirds: Vec<usize> = (0..n).map(|i| i % 3).collect();
    let mut hs: Vec<(&str, &Vec<usize>, Vec<(usize, usize)>)> = vec![
        ("backwards", &distinct, (0..n).rev().map(|k| (ANY, k)).collect()),
        ("last", &distinct, vec![(ANY, n - 1)]),
        ("absent", &distinct, vec![(ANY, n), (ANY, n), (PEEK, 0)]),
        ("inwards", &distinct, (0..n / 2).flat_map(|k| [(ANY, n - 1 - k), (PEEK, k), (NEXT, k)]).collect()),
        ("alternating", &distinct, (0..n / 2).flat_map(|k| [(ANY, 2 * k + 1), (NEXT, 2 * k + 1), (PEEK, 2 * k), (ANY, 2 * k)]).collect()),
        ("middle", &distinct, (0..n).map(|k| (ANY, (k + n / 2) % n)).collect()),
        ("odd, then even", &distinct, (0..n / 2).map(|k| (ANY, 2 * k + 1)).chain((0..n / 2).map(|k| (NEXT, 2 * k))).collect()),
        ("one kind", &thirds, (0..=n / 3).map(|_| (ANY, 2)).collect()),
        ("kinds", &thirds, (0..n / 3).flat_map(|_| [(ANY, 2), (PEEK, 0), (NEXT, 0), (NEXT, 0), (ANY, 1)]).collect()),
        ("kinds backwards", &thirds, (0..n).map(|k| (ANY, 2 - k / (n / 3))).collect()),
    ];
    let mut out: Vec<(String, Job)> = vec![];
    for (id, pat, h) in hs.drain(..) {
        for ns in 0..2 {
            out.push((format!("lookups/{}/{}", ns, id), history(h.len(), ns, pat.clone(), OPS.len(), h.clone())));
        }
    }
    out
}

/// Where a function is defined.
pub fn fn_site(it: &Interp, path: &str) -> Site {
    fn_site_in(it.prog, path)
}

pub fn fn_site_in(p: &Program, path: &str) -> Site {
    match p.fns.get(path) {
        Some(f) => Site {
            file: f.file.as_str().into(),
            line: f.line(),
            func: path.into(),
        },
        None => Site {
            file: "?".into(),
            line: 0,
            func: path.into(),
        },
    }
}

/// The texts of errors have to mention what identifies the cause.
pub fn messages(enums: &'static [&'static str], fields: &'static [&'static str]) -> (String, Job) {
    (
        "messages".to_string(),
        Box::new(move |p: &mut Program| {
            let mut log = Log::default();
            for e in enums {
                let Some(d) = p.enums.get(*e).cloned() else { continue };
                for v in &d.variants {
                    let Some(m) = &v.message else { continue };
                    for f in &v.fields {
                        if !fields.contains(&f.name.as_str()) {
                            continue;
                        }
                        log.obligations += 1;
                        let shown = [format!("{{{}}}", f.name), format!("{{{}:", f.name), format!("{{{} ", f.name), "{}".to_string()].iter().any(|x| m.contains(x.as_str()));
                        if !shown {
                            let site = Site {
                                file: d.file.as_str().into(),
                                line: v.line,
                                func: format!("{}::{}", e, v.name).as_str().into(),
                            };
                            log.find("messages", "message", format!("the message of {}::{} does not mention its `{}`: {:?}", last(e), v.name, f.name, m), site, String::new());
                        }
                    }
                }
            }
            Sum::of(log, &[])
        }),
    )
}
