//! Generating single definitions together with what they depend on.
use crate::drive::*;
use crate::interp::*;
use crate::load::*;
use crate::passes::{by_ref, fn_site_in};
use crate::render::*;
use crate::run::*;
use crate::xmlt::vs;
use crate::val::*;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

const SCHEMA: &str = "xsd_internal::xsd::schema::Schema";
const DEPS: &str = "xsd_internal::xsd::schema::Schema::generate_element_and_dependencies";

fn items(file: &syn::File) -> Vec<String> {
    file.items
        .iter()
        .filter_map(|i| match i {
            syn::Item::Struct(s) => Some(s.ident.to_string()),
            syn::Item::Enum(s) => Some(s.ident.to_string()),
            _ => None,
        })
        .collect()
}

struct Out {
    /// the name that was asked for, `None` for all of them one after the other
    name: Option<V>,
    what: String,
    toks: Rc<Vec<Tk>>,
    st: St,
}

pub fn job(t: Tpl) -> Job {
    Box::new(move |p: &mut Program| {
        let mut log = Log::default();
        check(p, &t, &mut log);
        Sum::of(log, &t.files)
    })
}

fn check(prog: &mut Program, t: &Tpl, log: &mut Log) {
    let Some(all) = code_of(prog, t, log) else { return };
    let whole: BTreeSet<String> = items(&all.file).into_iter().collect();
    let model = Rc::new(model_of(t));
    let main = t.files[0].0.clone();
    let declared: Vec<V> = t
        .docs()
        .iter()
        .flat_map(|d| {
            let r = d.root_element();
            d.elements(r).into_iter().filter_map(|n| d.attr(n, "name")).collect::<Vec<_>>()
        })
        .collect();
    let mut it = Interp::new(prog, model);
    it.deep = true;
    let ex = it.explore(4000, &mut |it| {
        let s = it.call_path(&format!("{}::parse_file", SCHEMA), vec![lit(&main)])?;
        let s = match it.res(s, &nosite())? {
            Ok(s) => by_ref(it, s),
            Err(_) => return Ok(V::Unit),
        };
        let els = it.call_path(&format!("{}::elements", SCHEMA), vec![s.clone()])?;
        let els = it.iter_of(els, &nosite())?;
        let mut names = vec![];
        for x in it.drain(els, &nosite())? {
            let n = match x {
                V::Tuple(v) => v[0].clone(),
                o => return it.unsup(format!("elements() yields {}", brief(&o)), &nosite()),
            };
            names.push((format!("{:?}", it.rv(n.clone())?), n));
        }
        names.sort_by(|a, b| a.0.cmp(&b.0));
        // first the ones that are declared in the schema; the others are only parts of them
        names.sort_by_key(|n| !it.rv(n.1.clone()).ok().and_then(|v| v.field("name")).map(|v| declared.contains(&v)).unwrap_or(false));
        let asked = names.iter().filter(|n| it.rv(n.1.clone()).ok().and_then(|v| v.field("name")).map(|v| declared.contains(&v)).unwrap_or(false)).count();
        let k = it.choose(asked + 2);
        let set = by_ref(it, empty_map("HashSet"));
        let ask: Vec<V> = if k < asked {
            vec![names[k].1.clone()]
        } else if k == asked {
            names.iter().map(|n| n.1.clone()).collect()
        } else {
            names.iter().rev().map(|n| n.1.clone()).collect()
        };
        let mut toks = vec![];
        for n in ask {
            let r = it.call_path(DEPS, vec![s.clone(), n, set.clone()])?;
            match it.res(r, &nosite())? {
                Ok(V::Tokens(x)) => toks.extend(x.iter().cloned()),
                Ok(o) => return it.unsup(format!("generated code {}", brief(&o)), &nosite()),
                Err(e) => return Ok(V::err(e)),
            }
        }
        let name = if k < asked { V::some(it.rv(names[k].1.clone())?) } else { V::none() };
        Ok(V::ok(V::Tuple(Rc::new(vec![V::Int(k as i128), name, V::Tokens(Rc::new(toks))]))))
    });
    let orgs: Orgs = Rc::new(it.orgs.borrow().clone());
    log.fns.extend(it.visited.borrow().iter().cloned());
    log.gen_paths += ex.paths.len();
    if ex.truncated {
        log.undecided(format!("{}: too many outcomes", t.id));
    }
    let site = fn_site_in(prog, DEPS);
    let mut outs: Vec<Out> = vec![];
    let mut by_facts: BTreeMap<String, Rc<Vec<Tk>>> = BTreeMap::new();
    drop(it);
    for p in ex.paths {
        let v = match &p.out {
            Ok(V::Unit) => continue,
            Ok(v) => v.clone(),
            Err(Ctl::Panic(m, s)) => {
                log.find(&t.id, "gen-panic", format!("generating a definition with its dependencies panics: {}", m), s.clone(), p.st.facts.show());
                continue;
            }
            Err(Ctl::Unsupported(m, s)) => {
                log.undecided(format!("{}: {} ({}:{})", t.id, m, s.file, s.line));
                continue;
            }
            Err(o) => {
                log.undecided(format!("{}: {:?}", t.id, o));
                continue;
            }
        };
        log.obligations += 1;
        match &v {
            V::Enum(e) if &*e.variant == "Ok" => {
                if let V::Tuple(x) = &e.fields[0].1 {
                    if let (V::Int(k), n, V::Tokens(toks)) = (&x[0], &x[1], &x[2]) {
                        let name = match n {
                            V::Enum(n) if &*n.variant == "Some" => Some(n.fields[0].1.clone()),
                            _ => None,
                        };
                        let what = match &name {
                            Some(n) => format!("generating {} with its dependencies", n.field("name").map(|v| vs(&v)).unwrap_or_default()),
                            None => "generating every definition with its dependencies, one after the other".to_string(),
                        };
                        let key = format!("{} {}", k, p.st.facts.show_inputs());
                        let hash = p.choices.iter().any(|c| c.hash) || p.st.facts.show().contains("nondet:");
                        match by_facts.get(&key) {
                            Some(o) => {
                                if *o != *toks && hash {
                                    log.find(&t.id, "nondet", format!("{}: {}", what, NONDET), diff_site(o, toks, &orgs), String::new());
                                }
                                if **o == **toks {
                                    continue;
                                }
                            }
                            None => {
                                by_facts.insert(key, toks.clone());
                            }
                        }
                        outs.push(Out {
                            name,
                            what,
                            toks: toks.clone(),
                            st: p.st.clone(),
                        });
                    }
                }
            }
            v => {
                let (s, m) = err_site(&p.st, v);
                let s = if s.line == 0 { site.clone() } else { s };
                log.find(&t.id, "gen-err", format!("generating a definition with its dependencies fails: {}", m), s, p.st.facts.show());
            }
        }
    }
    for o in outs {
        let r = render(&o.toks);
        let map = gen_map(&r, &orgs);
        let file = match syn::parse_file(&r.text) {
            Ok(f) => f,
            Err(e) => {
                log.find(&t.id, "gen-syntax", format!("{}: the code is not valid Rust: {}", o.what, e), site_at(&map, e.span().start().line), String::new());
                continue;
            }
        };
        let code = GenCode {
            facts: Default::default(),
            text: r.text,
            map,
            file,
        };
        let defined = items(&code.file);
        log.obligations += 1;
        match &o.name {
            Some(n) => {
                let n = n.field("name").unwrap_or(V::Unit);
                if !defined.iter().any(|d| ident_is(d, &n)) {
                    log.find(&t.id, "undefined", format!("{} does not generate it", o.what), site.clone(), o.st.facts.show());
                }
            }
            None => {
                let d: BTreeSet<String> = defined.iter().cloned().collect();
                if d != whole {
                    let x: Vec<String> = d.symmetric_difference(&whole).map(|x| pretty_ident(x)).collect();
                    log.find(&t.id, "undefined", format!("{} and generating all at once differ in {}", o.what, x.join(", ")), site.clone(), o.st.facts.show());
                }
            }
        }
        prog.add_module("gen", code.file.items.clone(), "<gen>");
        let sub = Tpl {
            id: t.id.clone(),
            files: vec![],
        };
        let mut l = Log::default();
        crate::names::check_items(prog, &sub, &code, &mut l);
        prog.remove_module("gen");
        log.obligations += l.obligations;
        for f in l.findings {
            let s = if f.site.line == 0 { site.clone() } else { f.site };
            log.find(&t.id, &f.kind, format!("{}: {}", o.what, f.msg), s, f.detail);
        }
    }
}
