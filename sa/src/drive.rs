//! From a schema template to the code generated from it, and from there to what that code does.
use crate::docs;
use crate::interp::*;
use crate::load::*;
use crate::model::*;
use crate::render::*;
use crate::spec::*;
use crate::val::*;
use crate::xmlt::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

pub const SCHEMA: &str = "xsd_internal::xsd::schema::Schema";

pub fn nosite() -> Site {
    Site {
        file: "".into(),
        line: 0,
        func: "".into(),
    }
}

#[derive(Clone)]
pub struct Tpl {
    pub id: String,
    /// the first one is the one that is processed
    pub files: Vec<(String, String)>,
}

pub fn tpl(id: &str, text: &str) -> Tpl {
    Tpl {
        id: id.to_string(),
        files: vec![("/s/main.xsd".into(), text.to_string())],
    }
}

impl Tpl {
    pub fn docs(&self) -> Vec<XDoc> {
        self.files.iter().map(|(p, t)| XDoc::parse(p, t)).collect()
    }
}

#[derive(Clone, Debug)]
pub struct Finding {
    pub kind: String,
    pub tpl: String,
    pub msg: String,
    pub site: Site,
    pub detail: String,
}

#[derive(Default)]
pub struct Log {
    pub findings: Vec<Finding>,
    pub undecided: Vec<String>,
    pub templates: usize,
    pub gen_paths: usize,
    pub read_docs: usize,
    pub read_paths: usize,
    pub write_paths: usize,
    pub obligations: usize,
    pub fns: BTreeSet<String>,
    pub samples: Vec<String>,
    pub seen: BTreeSet<String>,
}

impl Log {
    pub fn find(&mut self, tpl: &str, kind: &str, msg: String, site: Site, detail: String) {
        let key = format!("{}|{}|{}", tpl, kind, msg);
        if self.seen.insert(key) {
            self.findings.push(Finding {
                kind: kind.to_string(),
                tpl: tpl.to_string(),
                msg,
                site,
                detail,
            });
        }
    }

    pub fn undecided(&mut self, s: String) {
        if self.undecided.len() < 200 && !self.undecided.contains(&s) {
            self.undecided.push(s);
        }
    }
}

pub struct GenPath {
    pub out: R<V>,
    pub st: St,
    pub hash: bool,
    /// it depends on the surroundings
    pub around: bool,
}

pub type Orgs = Rc<Vec<(Rc<str>, usize, Rc<str>)>>;

pub fn model_of(t: &Tpl) -> Model {
    let model = Model {
        with_files: true,
        ..Model::new()
    };
    for (p, d) in t.files.iter().map(|f| &f.0).zip(t.docs()) {
        let v = model.add(d);
        model.files.borrow_mut().insert(p.to_string(), v);
    }
    model
}

/// All outcomes of processing a schema.
pub fn generate(prog: &Program, t: &Tpl, limit: usize, log: &mut Log) -> (Vec<GenPath>, bool, Orgs) {
    let main = t.files[0].0.clone();
    generate_from(prog, t, &main, limit, log)
}

pub fn generate_from(prog: &Program, t: &Tpl, main: &str, limit: usize, log: &mut Log) -> (Vec<GenPath>, bool, Orgs) {
    generate_with(prog, t, limit, log, &mut |it| it.call_path(&format!("{}::parse_file", SCHEMA), vec![lit(main)]))
}

pub fn generate_with(prog: &Program, t: &Tpl, limit: usize, log: &mut Log, parse: &mut dyn FnMut(&mut Interp) -> R<V>) -> (Vec<GenPath>, bool, Orgs) {
    let model = Rc::new(model_of(t));
    let mut it = Interp::new(prog, model);
    it.deep = true;
    let ex = it.explore(limit, &mut |it| {
        let s = parse(it)?;
        match it.res(s, &nosite())? {
            Ok(s) => {
                let c = it.alloc(s);
                it.call_path(
                    &format!("{}::generate_all", SCHEMA),
                    vec![V::Mut(Rc::new(Place { cell: c, proj: vec![] }))],
                )
            }
            Err(e) => Ok(V::err(e)),
        }
    });
    let orgs = Rc::new(it.orgs.borrow().clone());
    log.fns.extend(it.visited.borrow().iter().cloned());
    log.gen_paths += ex.paths.len();
    (
        ex.paths
            .into_iter()
            .map(|p| GenPath {
                hash: p.choices.iter().any(|c| c.hash),
                around: p.st.facts.show().contains("nondet:"),
                out: p.out,
                st: p.st,
            })
            .collect(),
        ex.truncated,
        orgs,
    )
}

pub fn is_ok_tokens(v: &V) -> Option<Rc<Vec<Tk>>> {
    match v {
        V::Enum(e) if &*e.variant == "Ok" => match &e.fields[0].1 {
            V::Tokens(t) => Some(t.clone()),
            _ => None,
        },
        _ => None,
    }
}

/// Whether an identifier of generated code is made of this name and nothing else.
pub fn ident_is(ident: &str, name: &V) -> bool {
    fn vars(v: &V, out: &mut Vec<TermId>) {
        if let V::Str(p) | V::Ident(p) = v {
            for x in p.iter() {
                if let SP::Term(t) = x {
                    tvars(*t, out);
                }
            }
        }
    }
    fn tvars(t: TermId, out: &mut Vec<TermId>) {
        match &get_term(t).kind {
            TermKind::Var(_) => out.push(t),
            TermKind::Field(b, _) | TermKind::Payload(b, _, _) | TermKind::Elem(b, _) => tvars(*b, out),
            TermKind::App(_, a) => a.iter().for_each(|x| vars(x, out)),
        }
    }
    let parts = decode_ident(ident);
    match name.as_lit() {
        Some(n) => {
            let norm = |s: &str| s.trim_start_matches("r#").chars().filter(|c| c.is_alphanumeric() && crate::stdm::ident_char(*c)).collect::<String>().to_lowercase();
            match sp_lit(&parts) {
                Some(i) => norm(&i) == norm(&n),
                None => false,
            }
        }
        None => {
            let mut a = vec![];
            vars(name, &mut a);
            let mut b = vec![];
            vars(&V::Ident(Rc::new(parts.clone())), &mut b);
            a.dedup();
            b.dedup();
            let lits: usize = parts
                .iter()
                .map(|p| match p {
                    SP::Lit(l) => l.trim_matches('_').len(),
                    _ => 0,
                })
                .sum();
            a == b && lits == 0
        }
    }
}

pub const NONDET: &str = "the generated code depends on more than the schema (the order of a hash table, the time, the environment or earlier runs)";

/// Where a token that depends on the surroundings is from.
pub fn first_nondet(a: &[Tk], orgs: &Orgs) -> Site {
    for x in a {
        if let TkK::Group(_, g) = &x.k {
            if show_tokens(g).contains("nondet:") {
                return first_nondet(g, orgs);
            }
        }
        if show_tokens(std::slice::from_ref(x)).contains("nondet:") {
            if x.o.0 > 0 {
                let o = &orgs[x.o.0 as usize - 1];
                return Site {
                    file: o.0.clone(),
                    line: o.1,
                    func: o.2.clone(),
                };
            }
        }
    }
    nosite()
}

pub struct GenCode {
    pub text: String,
    pub map: GenMap,
    pub file: syn::File,
    /// what is assumed about names and values
    pub facts: Facts,
}

/// The code generated for a template: its first outcome.
pub fn code_of(prog: &Program, t: &Tpl, log: &mut Log) -> Option<GenCode> {
    codes_of(prog, t, 1, log).into_iter().next()
}

/// The tokens of the generated code, whatever order they are in.
fn content(t: &[Tk]) -> Vec<String> {
    fn go(t: &[Tk], out: &mut Vec<String>) {
        for x in t {
            match &x.k {
                TkK::Group(c, g) => {
                    out.push(c.to_string());
                    go(g, out);
                }
                _ => out.push(show_tokens(std::slice::from_ref(x))),
            }
        }
    }
    let mut out = vec![];
    go(t, &mut out);
    out.sort();
    out
}

/// The code generated for a template, for up to `n` outcomes that differ in more than order.
pub fn codes_of(prog: &Program, t: &Tpl, n: usize, log: &mut Log) -> Vec<GenCode> {
    log.templates += 1;
    log.obligations += 1;
    let (paths, truncated, orgs) = generate(prog, t, 400, log);
    if truncated {
        log.undecided(format!("{}: too many outcomes of processing the schema", t.id));
    }
    let mut toks: Vec<(Rc<Vec<Tk>>, Facts)> = vec![];
    let mut contents: Vec<Vec<String>> = vec![];
    let mut by_facts: BTreeMap<String, Rc<Vec<Tk>>> = BTreeMap::new();
    for p in &paths {
        match &p.out {
            Ok(v) => match is_ok_tokens(v) {
                Some(x) => {
                    if show_tokens(&x).contains("nondet:") {
                        log.find(&t.id, "nondet", NONDET.into(), first_nondet(&x, &orgs), String::new());
                    }
                    match by_facts.get(&p.st.facts.show_inputs()) {
                        Some(y) => {
                            if *y != x && (p.hash || p.around) {
                                log.find(&t.id, "nondet", NONDET.into(), diff_site(y, &x, &orgs), String::new());
                            }
                        }
                        None => {
                            by_facts.insert(p.st.facts.show_inputs(), x.clone());
                        }
                    }
                    if toks.is_empty() {
                        if n > 1 {
                            contents.push(content(&x));
                        }
                        toks.push((x, p.st.facts.clone()));
                    } else if toks.len() < n && toks.iter().all(|y| y.0 != x) {
                        let c = content(&x);
                        if !contents.contains(&c) {
                            contents.push(c);
                            toks.push((x, p.st.facts.clone()));
                        }
                    }
                }
                None => {
                    let (site, m) = err_site(&p.st, v);
                    log.find(&t.id, "gen-err", format!("the schema is rejected: {}", m), site, p.st.facts.show());
                }
            },
            Err(Ctl::Panic(m, s)) => log.find(&t.id, "gen-panic", format!("processing the schema panics: {}", m), s.clone(), p.st.facts.show()),
            Err(Ctl::Unsupported(m, s)) => log.undecided(format!("{}: {} ({}:{})", t.id, m, s.file, s.line)),
            Err(o) => log.undecided(format!("{}: {:?}", t.id, o)),
        }
    }
    let mut out = vec![];
    for (toks, facts) in toks {
        let r = render(&toks);
        if !r.opaque.is_empty() {
            log.undecided(format!("{}: unknown tokens in the generated code", t.id));
            continue;
        }
        let map = gen_map(&r, &orgs);
        match syn::parse_file(&r.text) {
            Ok(file) => out.push(GenCode {
                text: r.text,
                map,
                file,
                facts,
            }),
            Err(e) => {
                let l = e.span().start().line;
                let site = site_at(&map, l);
                let around: Vec<&str> = r.text.lines().skip(l.saturating_sub(8)).take(12).collect();
                log.find(&t.id, "gen-syntax", format!("the generated code is not valid Rust: {}", e), site, around.join(" "));
            }
        }
    }
    out
}

pub fn site_at(map: &GenMap, line: usize) -> Site {
    match map.get(line.wrapping_sub(1)) {
        Some((f, l, fun)) => Site {
            file: f.clone(),
            line: *l,
            func: fun.clone(),
        },
        None => nosite(),
    }
}

pub fn diff_site(a: &[Tk], b: &[Tk], orgs: &Orgs) -> Site {
    for (x, y) in a.iter().zip(b) {
        if x != y {
            if let (TkK::Group(c, g), TkK::Group(d, h)) = (&x.k, &y.k) {
                if c == d {
                    return diff_site(g, h, orgs);
                }
            }
            if x.o.0 > 0 {
                let o = &orgs[x.o.0 as usize - 1];
                return Site {
                    file: o.0.clone(),
                    line: o.1,
                    func: o.2.clone(),
                };
            }
        }
    }
    nosite()
}

/// Where an error value was made, and what it says.
pub fn err_site(st: &St, v: &V) -> (Site, String) {
    let m = brief(v);
    for e in st.events.iter().rev() {
        if &*e.kind == "err" {
            return (e.site.clone(), m);
        }
    }
    (nosite(), m)
}

pub fn brief(v: &V) -> String {
    let s = format!("{:?}", v);
    if s.len() > 300 {
        s.chars().take(300).collect::<String>() + ".."
    } else {
        s
    }
}

#[derive(Clone)]
pub struct Opts {
    pub write: bool,
    pub read: bool,
    pub mutate: bool,
    pub pairs: bool,
    pub lens: Vec<usize>,
}

impl Default for Opts {
    fn default() -> Self {
        Opts {
            write: true,
            read: true,
            mutate: true,
            pairs: false,
            lens: vec![1, 2],
        }
    }
}

/// Checks everything that is generated for a template against the reference semantics.
pub fn check_template(prog: &mut Program, t: &Tpl, o: &Opts, log: &mut Log) {
    for code in codes_of(prog, t, 4, log) {
        check_code(prog, t, code, o, log);
    }
}

fn check_code(prog: &mut Program, t: &Tpl, code: GenCode, o: &Opts, log: &mut Log) {
    if log.samples.len() < 3 {
        log.samples.push(format!("{}: {} tokens of generated code", t.id, code.text.lines().count()));
    }
    prog.add_module("gen", code.file.items.clone(), "<gen>");
    crate::names::check_items(prog, t, &code, log);
    let spec = Spec::of(&t.docs());
    for e in spec.roots() {
        log.obligations += 1;
        let ty = prog
            .structs
            .keys()
            .chain(prog.enums.keys())
            .filter(|k| k.starts_with("gen::"))
            .find(|k| ident_is(&k[5..], &e.name.1))
            .cloned();
        let ty = match ty {
            Some(t) => t,
            None => {
                log.find(&t.id, "undefined", format!("no type is generated for `{}`", vs(&e.name.1)), nosite(), String::new());
                continue;
            }
        };
        if o.write {
            check_writer(prog, t, &code, &spec, &e, &ty, o, log);
        }
        if o.read {
            let docs = docs::valid(&spec, &e, o.pairs);
            let n = docs.len();
            let mut seen: Vec<String> = vec![];
            for (i, (label, w)) in docs.iter().enumerate() {
                let d = XDoc::from_wnode(label, w);
                check_reader(prog, t, &code, &spec, &e, &ty, label, d, log);
                if o.mutate && (i == 0 || i + 1 == n || label == "minimal" || o.pairs) {
                    for (l, d) in docs::mutants(w) {
                        let s = d.show();
                        if seen.contains(&s) && !l.contains("namespace") {
                            continue;
                        }
                        seen.push(s);
                        check_reader(prog, t, &code, &spec, &e, &ty, &format!("{}, {}", label, l), d, log);
                    }
                }
            }
            let mut bad = XDoc::empty("malformed");
            bad.malformed = true;
            check_malformed(prog, t, &code, &ty, bad, log);
        }
    }
    prog.remove_module("gen");
}

pub fn interp<'p>(prog: &'p Program, model: Rc<Model>, code: &GenCode) -> Interp<'p> {
    let mut it = Interp::new(prog, model);
    it.gen_map = code.map.clone();
    it.st.facts = code.facts.clone();
    it
}

/// A read document must be accepted or rejected for the reasons the reference gives.
#[allow(clippy::too_many_arguments)]
pub fn check_reader(prog: &Program, t: &Tpl, code: &GenCode, spec: &Spec, e: &El, ty: &str, label: &str, d: XDoc, log: &mut Log) {
    log.read_docs += 1;
    let model = Rc::new(Model::new());
    let doc = model.add(d.clone());
    let mut it = interp(prog, model, code);
    it.deep = true;
    let log = RefCell::new(log);
    let shown = d.show();
    let f = |kind: &str, msg: String, site: Site, detail: String| {
        log.borrow_mut().find(&t.id, kind, msg, site, format!("document ({}): {}; {}", label, shown, detail));
    };
    let ex = it.explore(400, &mut |it| {
        let r = it.call_path(&format!("{}::from_xml", ty), vec![doc.clone()])?;
        let site = it.last_gen.clone().unwrap_or(nosite());
        let r = it.res(r, &site)?;
        let mut rd = Reader {
            spec,
            d: &d,
            it,
            out: Default::default(),
        };
        let expected = rd.document(e);
        let out = rd.out;
        log.borrow_mut().obligations += 1;
        let facts = it.st.facts.show();
        match r {
            Ok(v) => {
                if let Some(x) = out.faults.first() {
                    f(&format!("accept:{}", x.kind), format!("<{}> is read without an error although: {}", vs(&e.name.1), show_fault(x)), site, facts);
                    return Ok(V::Unit);
                }
                if let Some(x) = out.open.first() {
                    f("open", format!("<{}> is read without testing {}", vs(&e.name.1), x), site, facts);
                    return Ok(V::Unit);
                }
                if let Some(m) = conforms(it, &v, &Ty::adt(ty)) {
                    f("type", format!("reading <{}> yields a value that is not of the declared type: {}", vs(&e.name.1), m), site.clone(), facts.clone());
                }
                for (term, want) in &out.wraps {
                    let got = wraps(it, &v, *term);
                    if got.is_empty() {
                        f("lost", format!("the text {} of <{}> does not reach the value", show_term(*term), vs(&e.name.1)), site.clone(), facts.clone());
                    } else if got.iter().any(|g| g != want) || got.len() > 1 {
                        f(
                            "shape",
                            format!("a value in <{}> is represented as {} instead of {}", vs(&e.name.1), got.iter().map(|g| show_wrap(g)).collect::<Vec<_>>().join(" and "), show_wrap(want)),
                            site.clone(),
                            facts.clone(),
                        );
                    }
                }
                if empty_some(it, &v) {
                    f("shape", format!("an absent repetition in <{}> is read as an empty list", vs(&e.name.1)), site.clone(), facts.clone());
                }
                let want = match expected {
                    Some(w) => w,
                    None => return Ok(V::Unit),
                };
                if out.lenient {
                    return Ok(V::Unit);
                }
                let c = it.alloc(v);
                let n = it.st.events.len();
                let w = it.call_path(&format!("{}::to_xml", ty), vec![V::Mut(Rc::new(Place { cell: c, proj: vec![] }))])?;
                let w = it.res(w, &site)?;
                if w.is_err() {
                    f("write-err", format!("<{}> cannot be written", vs(&e.name.1)), site, facts);
                    return Ok(V::Unit);
                }
                let ev: Vec<Ev> = it.st.events[n..].to_vec();
                let w = written(it, &ev);
                for (k, m, s) in &w.faults {
                    f(&format!("write:{}", k), m.clone(), s.clone(), facts.clone());
                }
                if !w.declared {
                    f("write:decl", "no XML declaration is written".into(), site.clone(), facts.clone());
                }
                match &w.root {
                    Some(r) => {
                        for (k, m, s) in diff(&want, r, it) {
                            f(&format!("write:{}", k), m, s.unwrap_or(site.clone()), format!("written: {}; {}", r.show(), facts));
                        }
                    }
                    None => f("write:nest", format!("nothing is written for <{}>", vs(&e.name.1)), site, facts),
                }
            }
            Err(err) => {
                let (es, m) = err_site(&it.st, &err);
                let es = if es.line == 0 { site.clone() } else { es };
                if out.faults.is_empty() {
                    if !out.lenient {
                        f(
                            &format!("reject:{}", err.variant().unwrap_or("?")),
                            format!("<{}> is rejected without a reason: {}", vs(&e.name.1), m),
                            es,
                            facts,
                        );
                    }
                } else if !out.faults.iter().any(|x| fault_is(it, x, &err)) {
                    f(
                        &format!("error:{}", out.faults[0].kind),
                        format!(
                            "<{}> is rejected with {} instead of: {}",
                            vs(&e.name.1),
                            m,
                            out.faults.iter().map(show_fault).collect::<Vec<_>>().join(" or ")
                        ),
                        es,
                        facts,
                    );
                }
            }
        }
        Ok(V::Unit)
    });
    let mut log = log.borrow_mut();
    finish(&mut log, t, label, &it, ex, "read");
}

pub fn finish(log: &mut Log, t: &Tpl, label: &str, it: &Interp, ex: Explored, what: &str) {
    log.fns.extend(it.visited.borrow().iter().cloned());
    if what == "read" {
        log.read_paths += ex.paths.len();
    } else {
        log.write_paths += ex.paths.len();
    }
    if ex.truncated {
        log.undecided(format!("{} ({}): too many paths", t.id, label));
    }
    for p in ex.paths {
        match p.out {
            Err(Ctl::Panic(m, s)) => log.find(&t.id, "panic", format!("the generated code panics: {}", m), s, format!("document ({}); {}", label, p.st.facts.show())),
            Err(Ctl::Unsupported(m, s)) => log.undecided(format!("{}: {} ({}:{} {})", t.id, m, s.file, s.line, s.func)),
            Err(o) => log.undecided(format!("{}: {:?}", t.id, o)),
            Ok(_) => {}
        }
    }
}

pub fn check_malformed(prog: &Program, t: &Tpl, code: &GenCode, ty: &str, d: XDoc, log: &mut Log) {
    log.read_docs += 1;
    let model = Rc::new(Model::new());
    let doc = model.add(d);
    let mut it = interp(prog, model, code);
    it.deep = true;
    let log = RefCell::new(log);
    let ex = it.explore(50, &mut |it| {
        let r = it.call_path(&format!("{}::from_xml", ty), vec![doc.clone()])?;
        let site = it.last_gen.clone().unwrap_or(nosite());
        log.borrow_mut().obligations += 1;
        match it.res(r, &site)? {
            Ok(_) => log.borrow_mut().find(&t.id, "accept:Xml", "text that is not well-formed XML is read without an error".into(), site, String::new()),
            Err(e) => {
                if e.variant() != Some("Xml") {
                    let (s, m) = err_site(&it.st, &e);
                    log.borrow_mut().find(&t.id, "error:Xml", format!("text that is not well-formed XML is rejected with {}", m), s, String::new());
                }
            }
        }
        Ok(V::Unit)
    });
    let mut log = log.borrow_mut();
    finish(&mut log, t, "malformed", &it, ex, "read");
}

pub fn show_fault(f: &Fault) -> String {
    format!("{} {}", f.kind, f.fields.iter().map(|(n, v)| format!("{}={}", n, vs(v))).collect::<Vec<_>>().join(", "))
}

fn show_wrap(w: &str) -> String {
    if w.is_empty() {
        return "a plain field".into();
    }
    w.chars().map(|c| if c == 'O' { "Option" } else { "Vec" }).collect::<Vec<_>>().join(" of ")
}

/// Whether an error is the one demanded for a fault.
fn fault_is(it: &mut Interp, f: &Fault, err: &V) -> bool {
    if err.variant() != Some(f.kind) {
        return false;
    }
    let sub = |it: &Interp, v: V| -> V {
        match it.rv(v.clone()).unwrap_or(v) {
            V::Str(p) => V::Str(Rc::new(norm_sp(it.subst_lits(&p)))),
            V::Enum(e) if e.fields.len() == 1 => {
                let x = e.fields[0].1.clone();
                match it.rv(x.clone()).unwrap_or(x) {
                    V::Str(p) => V::some(V::Str(Rc::new(norm_sp(it.subst_lits(&p))))),
                    _ => V::Enum(e),
                }
            }
            o => o,
        }
    };
    for (n, v) in &f.fields {
        match err.field(n) {
            Some(w) => {
                if sub(it, w) != sub(it, v.clone()) {
                    return false;
                }
            }
            None => return false,
        }
    }
    if f.kind == "ParseType" && !f.types.is_empty() {
        match err.field("type_").map(|v| sub(it, v)).and_then(|v| v.as_lit()) {
            Some(n) => return f.types.contains(&n.as_str()),
            None => return false,
        }
    }
    if f.kind == "MissingVariant" {
        // it names the generated choice
        let n = match err.field("name") {
            Some(n) => sub(it, n),
            None => return false,
        };
        let n = match &n {
            V::Str(p) => ident_text(p),
            _ => return false,
        };
        return it.prog.enums.contains_key(&format!("gen::{}", n)) || it.prog.enums.contains_key(&format!("gen::r#{}", n));
    }
    true
}

fn mentions(it: &Interp, t: TermId, x: TermId) -> bool {
    if t == x {
        return true;
    }
    match &get_term(t).kind {
        TermKind::Var(_) => false,
        TermKind::Field(b, _) | TermKind::Payload(b, _, _) | TermKind::Elem(b, _) => mentions(it, *b, x),
        TermKind::App(_, a) => a.iter().any(|v| match v {
            V::Sym(s) => mentions(it, *s, x),
            V::Str(p) | V::Ident(p) => p.iter().any(|s| matches!(s, SP::Term(y) if mentions(it, *y, x))),
            _ => false,
        }),
    }
}

/// How the value of a text is wrapped inside of a value.
fn wraps(it: &Interp, v: &V, t: TermId) -> Vec<String> {
    let mut out = vec![];
    wrap_go(it, v, t, String::new(), &mut out);
    out
}

fn wrap_go(it: &Interp, v: &V, t: TermId, acc: String, out: &mut Vec<String>) {
    let v = it.rv(v.clone()).unwrap_or(v.clone());
    match &v {
        V::Str(p) | V::Ident(p) => {
            if p.iter().any(|s| matches!(s, SP::Term(y) if mentions(it, *y, t))) {
                out.push(acc);
            }
        }
        V::Sym(s) => {
            if mentions(it, *s, t) {
                out.push(acc);
            }
        }
        V::Struct(s) => s.fields.iter().for_each(|f| wrap_go(it, &f.1, t, acc.clone(), out)),
        V::Enum(e) => {
            let acc = if &*e.path == "Option" { format!("{}O", acc) } else { acc };
            e.fields.iter().for_each(|f| wrap_go(it, &f.1, t, acc.clone(), out))
        }
        V::Seq(s) => s.iter().for_each(|x| wrap_go(it, x, t, format!("{}V", acc), out)),
        V::Tuple(s) => s.iter().for_each(|x| wrap_go(it, x, t, acc.clone(), out)),
        // a text that is known on this path
        _ => {}
    }
}

fn empty_some(it: &Interp, v: &V) -> bool {
    let v = it.rv(v.clone()).unwrap_or(v.clone());
    match &v {
        V::Struct(s) => s.fields.iter().any(|f| empty_some(it, &f.1)),
        V::Enum(e) => {
            e.fields.iter().any(|f| {
                let x = it.rv(f.1.clone()).unwrap_or(V::Unit);
                (&*e.path == "Option" && matches!(&x, V::Seq(s) if s.is_empty())) || empty_some(it, &x)
            })
        }
        V::Seq(s) => s.iter().any(|x| empty_some(it, x)),
        _ => false,
    }
}

/// Why a value is not one of a type.
pub fn conforms(it: &Interp, v: &V, ty: &Ty) -> Option<String> {
    let v = it.rv(v.clone()).unwrap_or(v.clone());
    let bad = |w: &V| Some(format!("{} is not a {}", brief(w), show_ty(ty)));
    match ty {
        Ty::Tuple(ts) if ts.is_empty() => match v {
            V::Unit => None,
            _ => bad(&v),
        },
        Ty::Adt(n, args) => {
            if let Some(s) = it.prog.structs.get(n) {
                return match &v {
                    V::Struct(x) if *x.path == **n => {
                        for f in &s.fields {
                            match x.fields.iter().find(|y| *y.0 == *f.name) {
                                Some(y) => {
                                    if let Some(m) = conforms(it, &y.1, &f.ty) {
                                        return Some(format!("field `{}`: {}", pretty_ident(&f.name), m));
                                    }
                                }
                                None => return Some(format!("field `{}` is not set", pretty_ident(&f.name))),
                            }
                        }
                        if x.fields.len() != s.fields.len() {
                            return Some(format!("a `{}` with undeclared fields", pretty_ident(last(n))));
                        }
                        None
                    }
                    V::Sym(t) if term_ty(*t).head() == n => None,
                    _ => bad(&v),
                };
            }
            if let Some(s) = it.prog.enums.get(n) {
                return match &v {
                    V::Enum(x) if *x.path == **n => {
                        let var = match s.variants.iter().find(|y| *y.name == *x.variant) {
                            Some(y) => y,
                            None => return Some(format!("`{}` has no variant `{}`", pretty_ident(last(n)), pretty_ident(&x.variant))),
                        };
                        for (i, f) in var.fields.iter().enumerate() {
                            match x.fields.get(i) {
                                Some(y) => {
                                    if let Some(m) = conforms(it, &y.1, &f.ty) {
                                        return Some(m);
                                    }
                                }
                                None => return Some("a variant without its value".into()),
                            }
                        }
                        if x.fields.len() != var.fields.len() {
                            return Some("a variant with another number of values".into());
                        }
                        None
                    }
                    V::Sym(t) if term_ty(*t).head() == n => None,
                    _ => bad(&v),
                };
            }
            match n.as_str() {
                "Option" => match &v {
                    V::Enum(e) if &*e.path == "Option" => e.fields.first().and_then(|f| conforms(it, &f.1, &args.first().cloned().unwrap_or(Ty::Unknown))),
                    V::Sym(t) if term_ty(*t).head() == "Option" => None,
                    _ => bad(&v),
                },
                "Vec" => match &v {
                    V::Seq(s) => s.iter().find_map(|x| conforms(it, x, &args.first().cloned().unwrap_or(Ty::Unknown))),
                    V::Sym(t) if term_ty(*t).head() == "Vec" => None,
                    _ => bad(&v),
                },
                "String" => match &v {
                    V::Str(_) => None,
                    _ => bad(&v),
                },
                "bool" => match &v {
                    V::Bool(_) => None,
                    V::Sym(t) if term_ty(*t).head() == "bool" => None,
                    _ => bad(&v),
                },
                _ => match &v {
                    V::Sym(t) if term_ty(*t).head() == n => None,
                    V::Int(_) if ty.is_int() => None,
                    V::Int(_) if n == "f32" => None,
                    _ => bad(&v),
                },
            }
        }
        _ => None,
    }
}

pub fn show_ty(t: &Ty) -> String {
    match t {
        Ty::Adt(n, a) if a.is_empty() => pretty_ident(last(n)),
        Ty::Adt(n, a) => format!("{}<{}>", pretty_ident(last(n)), a.iter().map(show_ty).collect::<Vec<_>>().join(", ")),
        Ty::Tuple(a) => format!("({})", a.iter().map(show_ty).collect::<Vec<_>>().join(", ")),
        o => format!("{:?}", o),
    }
}

/// Differences between an expected and a written element.
pub fn diff(want: &WNode, got: &WNode, it: &Interp) -> Vec<(&'static str, String, Option<Site>)> {
    let mut out = vec![];
    let s = got.site.clone();
    let tx = |v: &V| -> V {
        match v {
            V::Str(p) => V::Str(Rc::new(norm_sp(it.subst_lits(p)))),
            o => o.clone(),
        }
    };
    if want.name != got.name {
        out.push(("name", format!("<{}> is written instead of <{}>", vs(&got.name), vs(&want.name)), s.clone()));
        return out;
    }
    if want.ns != got.ns {
        out.push((
            "ns",
            format!(
                "<{}> is written in namespace {} instead of {}",
                vs(&got.name),
                got.ns.as_ref().map(vs).unwrap_or("none".into()),
                want.ns.as_ref().map(vs).unwrap_or("none".into())
            ),
            s.clone(),
        ));
    }
    for a in &want.attrs {
        match got.attrs.iter().find(|b| b.0 == a.0 && b.1 == a.1) {
            None => out.push(("attr", format!("attribute {} is not written on <{}>", vs(&a.1), vs(&got.name)), s.clone())),
            Some(b) => {
                if tx(&b.2) != tx(&a.2) {
                    out.push(("attr", format!("attribute {} of <{}> is written as `{}` instead of `{}`", vs(&a.1), vs(&got.name), vs(&b.2), vs(&a.2)), s.clone()))
                }
            }
        }
    }
    for b in &got.attrs {
        if !want.attrs.iter().any(|a| b.0 == a.0 && b.1 == a.1) {
            out.push(("attr", format!("attribute {} is written on <{}>", vs(&b.1), vs(&got.name)), s.clone()));
        }
    }
    let els = |w: &WNode| -> Vec<WNode> {
        w.kids
            .iter()
            .filter_map(|k| match k {
                WKid::El(e) => Some(e.clone()),
                _ => None,
            })
            .collect()
    };
    let text = |w: &WNode| -> V {
        let mut p = vec![];
        for k in &w.kids {
            if let WKid::Text(V::Str(x)) = k {
                p.extend((**x).clone());
            }
        }
        tx(&V::str_parts(p))
    };
    let (a, b) = (els(want), els(got));
    if text(want) != text(got) {
        out.push((
            "text",
            format!("the text of <{}> is written as `{}` instead of `{}`", vs(&got.name), vs(&text(got)), vs(&text(want))),
            s.clone(),
        ));
    }
    if a.len() != b.len() {
        let list = |x: &[WNode]| x.iter().map(|n| vs(&n.name)).collect::<Vec<_>>().join(", ");
        out.push((
            "content",
            format!("the children of <{}> are written as [{}] instead of [{}]", vs(&got.name), list(&b), list(&a)),
            s,
        ));
    } else {
        for (x, y) in a.iter().zip(&b) {
            out.extend(diff(x, y, it));
        }
    }
    out
}

/// Whatever value is written must be a valid document that is read as the same value.
#[allow(clippy::too_many_arguments)]
pub fn check_writer(prog: &Program, t: &Tpl, code: &GenCode, spec: &Spec, e: &El, ty: &str, o: &Opts, log: &mut Log) {
    let mut m = Model::new();
    m.lens = o.lens.clone();
    let model = Rc::new(m);
    let mut it = interp(prog, model.clone(), code);
    it.seq_k = o.lens.clone();
    let log = RefCell::new(log);
    let f = |kind: &str, msg: String, site: Site, detail: String| {
        log.borrow_mut().find(&t.id, kind, msg, site, detail);
    };
    let me = V::var("self", Ty::adt(ty));
    let ex = it.explore(1500, &mut |it| {
        let c = it.alloc(me.clone());
        let w = it.call_path(&format!("{}::to_xml", ty), vec![V::Mut(Rc::new(Place { cell: c, proj: vec![] }))])?;
        let site = it.last_gen.clone().unwrap_or(nosite());
        log.borrow_mut().obligations += 1;
        if it.res(w, &site)?.is_err() {
            f("write-err", format!("<{}> cannot be written", vs(&e.name.1)), site, it.st.facts.show());
            return Ok(V::Unit);
        }
        let ev = it.st.events.clone();
        let w = written(it, &ev);
        let facts = it.st.facts.show();
        for (k, m, s) in &w.faults {
            f(&format!("write:{}", k), m.clone(), s.clone(), facts.clone());
        }
        if !w.declared {
            f("write:decl", "no XML declaration is written".into(), site.clone(), facts.clone());
        }
        let root = match &w.root {
            Some(r) => r.clone(),
            None => {
                f("write:nest", format!("nothing is written for <{}>", vs(&e.name.1)), site, facts);
                return Ok(V::Unit);
            }
        };
        let d = XDoc::from_wnode("written", &root);
        let mut rd = Reader {
            spec,
            d: &d,
            it,
            out: Default::default(),
        };
        let want = rd.document(e);
        let out = rd.out;
        let detail = format!("written: {}; {}", root.show(), facts);
        // a group that is present but has no content cannot be told from an absent one
        let hollow = hollow(it, &me, &Ty::adt(ty), 0).1;
        if hollow && (!out.faults.is_empty() || !out.open.is_empty()) {
            return Ok(V::Unit);
        }
        if let Some(x) = out.faults.first() {
            f(&format!("invalid:{}", x.kind), format!("<{}> is written in a way the schema does not allow: {}", vs(&e.name.1), show_fault(x)), root.site.clone().unwrap_or(site.clone()), detail);
            return Ok(V::Unit);
        }
        if let Some(x) = out.open.first() {
            f("invalid:open", format!("<{}> is written in a way the schema may not allow: {}", vs(&e.name.1), x), root.site.clone().unwrap_or(site.clone()), detail);
            return Ok(V::Unit);
        }
        if let Some(want) = &want {
            for (k, m, s) in diff(want, &root, it) {
                f(&format!("write:{}", k), m, s.unwrap_or(site.clone()), detail.clone());
            }
        }
        let doc = model.add(d.clone());
        let r = it.call_path(&format!("{}::from_xml", ty), vec![doc])?;
        let site = it.last_gen.clone().unwrap_or(nosite());
        match it.res(r, &site)? {
            _ if hollow => {}
            Err(err) => {
                let (s, m) = err_site(&it.st, &err);
                f(&format!("rt-reject:{}", err.variant().unwrap_or("?")), format!("what is written for <{}> is not read: {}", vs(&e.name.1), m), s, detail);
            }
            Ok(v) => {
                if !it.eq(&v, &me, &site)? {
                    // another value that is written in the same way is fine: the schema is ambiguous
                    let c = it.alloc(v.clone());
                    let n = it.st.events.len();
                    let w = it.call_path(&format!("{}::to_xml", ty), vec![V::Mut(Rc::new(Place { cell: c, proj: vec![] }))])?;
                    if it.res(w, &site)?.is_ok() {
                        let ev: Vec<Ev> = it.st.events[n..].to_vec();
                        if let Some(r) = written(it, &ev).root {
                            if diff(&root, &r, it).is_empty() {
                                return Ok(V::Unit);
                            }
                        }
                    }
                    f("rt", format!("what is written for <{}> is read as another value", vs(&e.name.1)), site, format!("read: {}; {}", brief(&v), detail));
                }
            }
        }
        Ok(V::Unit)
    });
    let mut log = log.borrow_mut();
    finish(&mut log, t, "any value", &it, ex, "write");
}

/// Whether a value has no content, and whether there is such a value inside of it.
fn hollow(it: &mut Interp, v: &V, ty: &Ty, depth: usize) -> (bool, bool) {
    let v = it.rv(v.clone()).unwrap_or(v.clone());
    if depth > 12 {
        return (false, false);
    }
    match ty {
        Ty::Adt(n, _) if it.prog.structs.contains_key(n) => {
            let def = it.prog.structs[n].clone();
            let mut all = !def.fields.is_empty();
            let mut any = false;
            for f in &def.fields {
                let x = match it.proj(&v, &Proj::Field(f.name.as_str().into())) {
                    Ok(x) => x,
                    Err(_) => return (false, any),
                };
                let (a, b) = hollow(it, &x, &f.ty, depth + 1);
                all &= a;
                any |= b;
            }
            (all, any || (all && depth > 0))
        }
        Ty::Adt(n, args) if n == "Option" => match &v {
            V::Enum(e) => match e.fields.first() {
                Some(x) => {
                    let r = hollow(it, &x.1, &args[0], depth + 1);
                    (r.0, r.1)
                }
                None => (true, false),
            },
            V::Sym(t) => match it.st.facts.tag.get(t).cloned() {
                Some(g) if &*g == "None" => (true, false),
                Some(_) => match it.proj(&v, &Proj::Pay("Some".into(), "0".into())) {
                    Ok(x) => hollow(it, &x, &args[0], depth + 1),
                    Err(_) => (false, false),
                },
                None => (false, false),
            },
            _ => (false, false),
        },
        Ty::Adt(n, args) if n == "Vec" => {
            let xs = match &v {
                V::Seq(s) => (**s).clone(),
                V::Sym(t) => {
                    let k = it.st.facts.len.get(t).copied().unwrap_or(0);
                    (0..k).filter_map(|i| it.proj(&v, &Proj::Index(i)).ok()).collect()
                }
                _ => vec![],
            };
            let mut any = false;
            for x in xs {
                any |= hollow(it, &x, &args[0], depth + 1).1;
            }
            (false, any)
        }
        Ty::Adt(n, _) if it.prog.enums.contains_key(n) => {
            let def = it.prog.enums[n].clone();
            let tag: Option<Rc<str>> = match &v {
                V::Enum(e) => Some(e.variant.clone()),
                V::Sym(t) => it.st.facts.tag.get(t).cloned(),
                _ => None,
            };
            let var = match tag.and_then(|t| def.variants.iter().find(|x| *x.name == *t)) {
                Some(v) => v.clone(),
                None => return (false, false),
            };
            let mut all = !var.fields.is_empty();
            let mut any = false;
            for f in &var.fields {
                match it.proj(&v, &Proj::Pay(var.name.as_str().into(), f.name.as_str().into())) {
                    Ok(x) => {
                        let (a, b) = hollow(it, &x, &f.ty, depth + 1);
                        all &= a;
                        any |= b;
                    }
                    Err(_) => return (false, any),
                }
            }
            (all, any)
        }
        _ => (false, false),
    }
}

pub fn dbg_gen(prog: &Program, file: &str) {
    let mut log = Log::default();
    let t = tpl_of_file(file);
    let (paths, tr, _) = generate(prog, &t, 50, &mut log);
    eprintln!("{} paths, truncated {}", paths.len(), tr);
    for p in &paths {
        if paths.len() > 1 {
            eprintln!("FACTS {}", p.st.facts.show());
        }
        match &p.out {
            Ok(v) => match is_ok_tokens(v) {
                Some(t) => println!("{}", render(&t).text),
                None => println!("ERR {:?}", v),
            },
            Err(e) => println!("CTL {:?}", e),
        }
        if std::env::var("ALL").is_err() {
            break;
        }
    }
}

pub fn tpl_of_file(file: &str) -> Tpl {
    let text = std::fs::read_to_string(file).unwrap();
    let dir = std::path::Path::new(file).parent().unwrap();
    let mut files: Vec<(String, String)> = vec![(file.to_string(), text)];
    for e in std::fs::read_dir(dir).unwrap() {
        let p = e.unwrap().path();
        if p.extension().map(|x| x == "xsd").unwrap_or(false) && p.to_str() != Some(file) {
            let t = std::fs::read_to_string(&p).unwrap();
            files.push((p.to_string_lossy().to_string(), t));
        }
    }
    if !files[0].1.contains("include") && !files[0].1.contains("import") {
        files.truncate(1);
    }
    Tpl { id: file.to_string(), files }
}

pub fn dbg_check(prog: &mut Program, file: &str) {
    let mut log = Log::default();
    let t = tpl_of_file(file);
    check_template(prog, &t, &Opts::default(), &mut log);
    dump(&log);
}

pub fn dump(log: &Log) {
    for f in &log.findings {
        println!("FINDING [{}] {} {} @ {}:{} {}\n      {}", f.kind, f.tpl, f.msg, f.site.file, f.site.line, f.site.func, f.detail);
    }
    for u in &log.undecided {
        println!("UNDECIDED {}", u);
    }
    println!(
        "templates {} gen_paths {} docs {} read_paths {} write_paths {} obligations {} findings {} undecided {}",
        log.templates,
        log.gen_paths,
        log.read_docs,
        log.read_paths,
        log.write_paths,
        log.obligations,
        log.findings.len(),
        log.undecided.len()
    );
    let _: BTreeMap<(), ()> = BTreeMap::new();
}
