//! Path-partitioned abstract interpreter over the syntax tree.
//!
//! Values are abstract (see val.rs). Whenever the flow depends on an unknown value, all outcomes are
//! explored; the partition is over enum variants, booleans, comparisons with constants, and sequence
//! lengths (k-limited). Nothing of the analysed program is executed.
use crate::load::*;
use crate::val::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;
use syn::spanned::Spanned;

#[derive(Clone, Debug)]
pub enum Ctl {
    Return(V),
    Break(Option<String>, V),
    Continue(Option<String>),
    Panic(String, Site),
    Unsupported(String, Site),
    Prune(String),
}
pub type R<T> = Result<T, Ctl>;

#[derive(Clone, Default)]
pub struct St {
    pub store: Vec<V>,
    pub facts: Facts,
    pub events: Vec<Ev>,
    /// scratch counters for rules
    pub ctr: BTreeMap<String, usize>,
}

#[derive(Clone, Debug)]
pub struct Choice {
    pub taken: usize,
    pub n: usize,
    pub hash: bool,
}

pub trait Hooks {
    fn call(&self, _it: &mut Interp, _path: &str, _args: &[V], _site: &Site) -> Option<R<V>> {
        None
    }
    fn method(&self, _it: &mut Interp, _recv: &V, _place: &Option<Place>, _name: &str, _args: &[V], _site: &Site) -> Option<R<V>> {
        None
    }
    fn mac(&self, _it: &mut Interp, _name: &str, _mac: &syn::Macro, _site: &Site) -> Option<R<V>> {
        None
    }
    fn max_len(&self, _t: TermId) -> Option<Vec<usize>> {
        None
    }
    /// variants an unknown value is known not to have
    fn excluded(&self, _it: &Interp, _t: TermId) -> Vec<&'static str> {
        vec![]
    }
}

pub struct NoHooks;
impl Hooks for NoHooks {}

pub struct PathRes {
    pub out: R<V>,
    pub st: St,
    pub choices: Vec<Choice>,
}

pub struct Interp<'p> {
    pub prog: &'p Program,
    pub st: St,
    pub choices: Vec<Choice>,
    pub cursor: usize,
    pub hooks: Rc<dyn Hooks>,
    pub frames: Vec<Rc<Frame>>,
    pub env: Env,
    pub steps: usize,
    pub max_steps: usize,
    pub seq_k: Vec<usize>,
    pub max_rec: usize,
    /// what is interpreted is given completely, so that it has to come to an end
    pub deep: bool,
    pub inline_strfn: bool,
    /// distinct unknown strings are different, and unknown names are none of the names the code knows
    pub generic: bool,
    /// rendered line -> origin of generated code
    pub gen_map: Rc<Vec<(Rc<str>, usize, Rc<str>)>>,
    pub visited: Rc<RefCell<std::collections::BTreeSet<String>>>,
    pub orgs: Rc<RefCell<Vec<(Rc<str>, usize, Rc<str>)>>>,
    /// the last construct of generated code that was looked at
    pub last_gen: Option<Site>,
    /// the call that is evaluated
    pub key: (Rc<str>, usize, usize),
    pub restart: bool,
    /// how many orders of hash tables are looked at
    pub hash_modes: usize,
    pub depth: usize,
    /// summaries of functions on unknown strings and characters: the arguments and what is known about them
    pub summaries: std::collections::HashMap<String, Option<V>>,
}

pub fn empty_env() -> Env {
    Rc::new(Scope {
        vars: RefCell::new(vec![]),
        parent: None,
    })
}

pub struct Explored {
    pub paths: Vec<PathRes>,
    pub truncated: bool,
}

impl<'p> Interp<'p> {
    pub fn new(prog: &'p Program, hooks: Rc<dyn Hooks>) -> Interp<'p> {
        Interp {
            prog,
            st: St::default(),
            choices: vec![],
            cursor: 0,
            hooks,
            frames: vec![],
            env: empty_env(),
            steps: 0,
            max_steps: 2_000_000,
            seq_k: vec![0, 1, 2],
            max_rec: 3,
            deep: false,
            inline_strfn: false,
            generic: true,
            gen_map: Rc::new(vec![]),
            visited: Default::default(),
            orgs: Default::default(),
            last_gen: None,
            key: ("".into(), 0, 0),
            restart: false,
            hash_modes: 4,
            depth: 0,
            summaries: Default::default(),
        }
    }

    /// Explores all paths of `f`.
    pub fn explore(&mut self, limit: usize, f: &mut dyn FnMut(&mut Interp<'p>) -> R<V>) -> Explored {
        let st0 = self.st.clone();
        let env0 = self.env.clone();
        let saved = std::mem::take(&mut self.choices);
        let saved_cursor = self.cursor;
        let nframes = self.frames.len();
        let mut paths = vec![];
        let mut truncated = false;
        let mut restarts = 0;
        self.depth += 1;
        loop {
            self.st = st0.clone();
            self.env = env0.clone();
            self.frames.truncate(nframes);
            self.cursor = 0;
            self.steps = 0;
            let out = f(self);
            if self.restart {
                if self.depth > 1 {
                    break;
                }
                self.restart = false;
                restarts += 1;
                if restarts > 300 {
                    truncated = true;
                    break;
                }
                paths.clear();
                self.choices.clear();
                continue;
            }
            if !matches!(out, Err(Ctl::Prune(_))) {
                paths.push(PathRes {
                    out,
                    st: std::mem::take(&mut self.st),
                    choices: self.choices.clone(),
                });
            }
            while let Some(c) = self.choices.last_mut() {
                if c.taken + 1 < c.n {
                    c.taken += 1;
                    break;
                }
                self.choices.pop();
            }
            if self.choices.is_empty() {
                break;
            }
            if paths.len() >= limit {
                truncated = true;
                break;
            }
        }
        self.depth -= 1;
        self.choices = saved;
        self.cursor = saved_cursor;
        self.st = st0;
        self.env = env0;
        self.frames.truncate(nframes);
        Explored { paths, truncated }
    }

    pub fn choose_h(&mut self, n: usize, hash: bool) -> usize {
        if n <= 1 {
            return 0;
        }
        if self.cursor < self.choices.len() {
            let c = self.choices[self.cursor].taken;
            self.cursor += 1;
            c
        } else {
            self.choices.push(Choice { taken: 0, n, hash });
            self.cursor += 1;
            0
        }
    }

    /// The iteration order of a hash table: as inserted, reversed, rotated, or different each time.
    pub fn hash_order<T>(&mut self, mut v: Vec<T>) -> Vec<T> {
        if v.len() < 2 || self.hash_modes < 2 {
            return v;
        }
        let mode = match self.st.ctr.get("hash-order") {
            Some(m) => *m,
            None => {
                let m = self.choose_h(self.hash_modes, true);
                self.st.ctr.insert("hash-order".into(), m);
                m
            }
        };
        match mode {
            0 => {}
            1 => v.reverse(),
            2 => v.rotate_left(1),
            _ => {
                let n = self.st.ctr.entry("hash-iterations".into()).or_insert(0);
                *n += 1;
                if *n % 2 == 0 {
                    v.reverse();
                } else {
                    let k = v.len() / 2;
                    v.rotate_left(k);
                }
            }
        }
        v
    }

    pub fn choose(&mut self, n: usize) -> usize {
        self.choose_h(n, false)
    }

    pub fn site(&self, sp: proc_macro2::Span) -> Site {
        let (file, func) = match self.frames.last() {
            Some(f) => (f.file.clone(), f.func.clone()),
            None => ("".into(), "".into()),
        };
        let line = sp.start().line;
        if &*file == "<gen>" {
            if let Some((f, l, fun)) = self.gen_map.get(line.wrapping_sub(1)) {
                return Site {
                    file: f.clone(),
                    line: *l,
                    func: fun.clone(),
                };
            }
        }
        Site { file, line, func }
    }

    pub fn in_gen(&self) -> bool {
        self.frames.last().map(|f| &*f.file == "<gen>").unwrap_or(false)
    }

    pub fn unsup<T>(&self, m: impl Into<String>, site: &Site) -> R<T> {
        Err(Ctl::Unsupported(m.into(), site.clone()))
    }

    pub fn event(&mut self, kind: &str, args: Vec<V>, site: &Site) {
        self.st.events.push(Ev {
            kind: kind.into(),
            args,
            site: site.clone(),
        });
    }

    // ------------------------------------------------------------------ store

    pub fn alloc(&mut self, v: V) -> usize {
        self.st.store.push(v);
        self.st.store.len() - 1
    }

    pub fn norm(&self, p: &Place) -> Place {
        let mut cur = Place {
            cell: p.cell,
            proj: vec![],
        };
        for pr in &p.proj {
            let mut n = 0;
            while let Ok(V::Mut(q)) = self.load_raw(&cur) {
                cur = self.norm(&q);
                n += 1;
                if n > 20 {
                    break;
                }
            }
            cur.proj.push(pr.clone());
        }
        cur
    }

    pub fn deref_place(&self, p: &Place) -> Place {
        let mut cur = self.norm(p);
        let mut n = 0;
        while let Ok(V::Mut(q)) = self.load_raw(&cur) {
            cur = self.norm(&q);
            n += 1;
            if n > 20 {
                break;
            }
        }
        cur
    }

    fn load_raw(&self, p: &Place) -> R<V> {
        let mut v = self.st.store[p.cell].clone();
        for pr in &p.proj {
            v = self.proj(&v, pr)?;
        }
        Ok(v)
    }

    pub fn load(&self, p: &Place) -> R<V> {
        self.load_raw(&self.norm(p))
    }

    pub fn proj(&self, v: &V, pr: &Proj) -> R<V> {
        let bad = || {
            Err(Ctl::Unsupported(
                format!("projection {:?} of {:?}", pr, v),
                Site {
                    file: "".into(),
                    line: 0,
                    func: "".into(),
                },
            ))
        };
        match pr {
            Proj::Field(n) => match v {
                V::Mut(p) => {
                    let x = self.load(p)?;
                    self.proj(&x, pr)
                }
                V::Sym(t) => Ok(self.field_sym(*t, n)),
                V::Range(r) if &**n == "start" && r.0.is_some() => Ok(r.0.clone().unwrap()),
                V::Range(r) if &**n == "end" && r.1.is_some() => Ok(r.1.clone().unwrap()),
                _ => match v.field(n) {
                    Some(x) => Ok(x),
                    None => bad(),
                },
            },
            Proj::Pay(var, n) => match v {
                V::Mut(p) => {
                    let x = self.load(p)?;
                    self.proj(&x, pr)
                }
                V::Sym(t) => Ok(self.payload_sym(*t, var, n, None)),
                _ => match v.field(n) {
                    Some(x) => Ok(x),
                    None => bad(),
                },
            },
            Proj::Index(i) => match v {
                V::Seq(s) | V::Tuple(s) => match s.get(*i) {
                    Some(x) => Ok(x.clone()),
                    None => bad(),
                },
                V::Sym(t) => Ok(self.elem_sym(*t, *i)),
                _ => bad(),
            },
            Proj::MapVal(i) => match v {
                V::Map(m) => match m.entries.get(*i) {
                    Some(x) => Ok(x.1.clone()),
                    None => bad(),
                },
                _ => bad(),
            },
        }
    }

    pub fn store(&mut self, p: &Place, v: V) -> R<()> {
        let p = self.norm(p);
        let old = self.st.store[p.cell].clone();
        let new = self.update(old, &p.proj, v)?;
        self.st.store[p.cell] = new;
        Ok(())
    }

    /// Turns an unknown struct or enum value into one with unknown fields.
    pub fn materialize(&self, v: &V) -> V {
        if let V::Sym(t) = v {
            let ty = term_ty(*t);
            if let Some(s) = self.prog.structs.get(ty.head()) {
                return V::Struct(Rc::new(StructV {
                    path: s.path.as_str().into(),
                    fields: s
                        .fields
                        .iter()
                        .map(|f| (Rc::from(f.name.as_str()), self.field_sym(*t, &f.name)))
                        .collect(),
                }));
            }
            if let Some(tag) = self.st.facts.tag.get(t) {
                let fields: Vec<(String, V)> = match ty.head() {
                    "Option" | "Result" => {
                        if &**tag == "None" {
                            vec![]
                        } else {
                            vec![("0".to_string(), self.payload_sym(*t, tag, "0", None))]
                        }
                    }
                    h => match self.prog.enums.get(h).and_then(|e| e.variants.iter().find(|x| x.name == **tag)) {
                        Some(var) => var
                            .fields
                            .iter()
                            .map(|f| (f.name.clone(), self.payload_sym(*t, tag, &f.name, None)))
                            .collect(),
                        None => return v.clone(),
                    },
                };
                return V::Enum(Rc::new(EnumV {
                    path: ty.head().into(),
                    variant: tag.clone(),
                    fields: fields.into_iter().map(|(a, b)| (Rc::from(a.as_str()), b)).collect(),
                }));
            }
        }
        v.clone()
    }

    fn update(&mut self, v: V, proj: &[Proj], new: V) -> R<V> {
        if proj.is_empty() {
            return Ok(new);
        }
        let v = self.materialize(&v);
        let nosite = Site {
            file: "".into(),
            line: 0,
            func: "".into(),
        };
        match (&proj[0], &v) {
            (Proj::Field(n), V::Struct(s)) => {
                let mut s2 = (**s).clone();
                for (k, x) in s2.fields.iter_mut() {
                    if k == n {
                        *x = self.update(x.clone(), &proj[1..], new)?;
                        return Ok(V::Struct(Rc::new(s2)));
                    }
                }
                self.unsup(format!("no field {}", n), &nosite)
            }
            (Proj::Pay(_, n), V::Enum(s)) | (Proj::Field(n), V::Enum(s)) => {
                let mut s2 = (**s).clone();
                for (k, x) in s2.fields.iter_mut() {
                    if k == n {
                        *x = self.update(x.clone(), &proj[1..], new)?;
                        return Ok(V::Enum(Rc::new(s2)));
                    }
                }
                self.unsup(format!("no field {}", n), &nosite)
            }
            (Proj::Field(n), V::Tuple(t)) => {
                let i: usize = n.parse().unwrap_or(0);
                let mut t2 = (**t).clone();
                if i < t2.len() {
                    t2[i] = self.update(t2[i].clone(), &proj[1..], new)?;
                }
                Ok(V::Tuple(Rc::new(t2)))
            }
            (Proj::Index(i), V::Seq(t)) => {
                let mut t2 = (**t).clone();
                if *i < t2.len() {
                    t2[*i] = self.update(t2[*i].clone(), &proj[1..], new)?;
                }
                Ok(V::Seq(Rc::new(t2)))
            }
            (Proj::MapVal(i), V::Map(m)) => {
                let mut m2 = (**m).clone();
                if *i < m2.entries.len() {
                    m2.entries[*i].1 = self.update(m2.entries[*i].1.clone(), &proj[1..], new)?;
                }
                Ok(V::Map(Rc::new(m2)))
            }
            _ => self.unsup(format!("store to {:?} of {:?}", proj[0], v), &nosite),
        }
    }

    /// Looks through references.
    pub fn rv(&self, v: V) -> R<V> {
        let mut v = v;
        let mut n = 0;
        while let V::Mut(p) = &v {
            v = self.load(p)?;
            n += 1;
            if n > 20 {
                break;
            }
        }
        Ok(v)
    }

    // ------------------------------------------------------------------ terms

    pub fn field_sym(&self, t: TermId, name: &str) -> V {
        let ty = term_ty(t);
        let fty = match self.prog.structs.get(ty.head()) {
            Some(s) => s.fields.iter().find(|f| f.name == name).map(|f| f.ty.clone()).unwrap_or(Ty::Unknown),
            None => ext_field_ty(ty.head(), name),
        };
        sym(term(TermKind::Field(t, name.to_string()), fty))
    }

    pub fn payload_sym(&self, t: TermId, variant: &str, field: &str, epath: Option<&str>) -> V {
        let ty = term_ty(t);
        let head = match ty.head() {
            "?" => epath.unwrap_or("?"),
            h => h,
        };
        let fty = match (head, variant) {
            ("Option", _) => ty.arg(0),
            ("Result", "Ok") => ty.arg(0),
            ("Result", _) => ty.arg(1),
            (h, _) => match self.prog.enums.get(h) {
                Some(e) => e
                    .variants
                    .iter()
                    .find(|v| v.name == variant)
                    .and_then(|v| v.fields.iter().find(|f| f.name == field))
                    .map(|f| f.ty.clone())
                    .unwrap_or(Ty::Unknown),
                None => Ty::Unknown,
            },
        };
        sym(term(TermKind::Payload(t, variant.to_string(), field.to_string()), fty))
    }

    pub fn elem_sym(&self, t: TermId, i: usize) -> V {
        let ty = term_ty(t);
        let ety = match ty.head() {
            "HashMap" | "BTreeMap" => Ty::Tuple(vec![ty.arg(0), ty.arg(1)]),
            _ => ty.arg(0),
        };
        sym(term(TermKind::Elem(t, i), ety))
    }

    /// Materialises an unknown sequence, partitioned by its length.
    pub fn seq_of(&mut self, t: TermId) -> Vec<V> {
        let n = match self.st.facts.len.get(&t) {
            Some(n) => *n,
            None => {
                let mut ks = self.hooks.clone().max_len(t).unwrap_or_else(|| self.seq_k.clone());
                // names are not empty; two characters stand for all of them
                if let TermKind::App(n, a) = &get_term(t).kind {
                    if n == "chars" && format!("{:?}", a).contains("{%") {
                        ks = vec![2];
                    }
                }
                let c = self.choose(ks.len());
                let n = ks[c];
                self.st.facts.len.insert(t, n);
                n
            }
        };
        (0..n).map(|i| self.elem_sym(t, i)).collect()
    }

    pub fn decide(&mut self, t: TermId) -> bool {
        if let Some(b) = self.st.facts.bools.get(&t) {
            return *b;
        }
        let b = self.choose(2) == 0;
        self.st.facts.bools.insert(t, b);
        b
    }

    pub fn truth(&mut self, v: V, site: &Site) -> R<bool> {
        match self.rv(v)? {
            V::Bool(b) => Ok(b),
            V::Default => Ok(false),
            V::Sym(t) => Ok(self.decide(t)),
            o => self.unsup(format!("not a bool: {:?}", o), site),
        }
    }

    pub fn variants_of(&self, head: &str) -> Option<Vec<String>> {
        match head {
            "Option" => Some(vec!["Some".into(), "None".into()]),
            "Result" => Some(vec!["Ok".into(), "Err".into()]),
            h => self.prog.enums.get(h).map(|e| e.variants.iter().map(|v| v.name.clone()).collect()),
        }
    }

    /// Whether the value is the given variant of the given enum.
    pub fn test_variant(&mut self, v: &V, epath: &str, variant: &str, site: &Site) -> R<bool> {
        match v {
            V::Enum(e) => {
                if last(&e.path) != last(epath) {
                    // e.g. errors that have not been converted
                    if let Some(c) = self.convert_to(v, epath)? {
                        return self.test_variant(&c, epath, variant, site);
                    }
                    return self.unsup(format!("variant {}::{} of {:?}", epath, variant, v), site);
                }
                Ok(&*e.variant == variant)
            }
            V::Default => match epath {
                "Option" => Ok(variant == "None"),
                p => {
                    let d = self.default_of(&Ty::adt(p), site)?;
                    self.test_variant(&d, epath, variant, site)
                }
            },
            V::Sym(t) => {
                if let Some(tag) = self.st.facts.tag.get(t) {
                    return Ok(&**tag == variant);
                }
                let mut nots = self.st.facts.not_tag.get(t).cloned().unwrap_or_default();
                for x in self.hooks.clone().excluded(self, *t) {
                    nots.insert(x.into());
                }
                if nots.contains(variant) {
                    return Ok(false);
                }
                let ty = term_ty(*t);
                let head = if ty.head() == "?" || ty.head().starts_with("dyn ") { epath.to_string() } else { ty.head().to_string() };
                if let Some(vs) = self.variants_of(&head) {
                    let left = vs.iter().filter(|x| !nots.contains(x.as_str())).count();
                    if left == 1 {
                        self.st.facts.tag.insert(*t, variant.into());
                        return Ok(true);
                    }
                }
                if self.choose(2) == 0 {
                    self.st.facts.tag.insert(*t, variant.into());
                    Ok(true)
                } else {
                    self.st.facts.not_tag.entry(*t).or_default().insert(variant.into());
                    // the remaining variant is determined
                    if let Some(vs) = self.variants_of(&head) {
                        let nots = {
                            let mut n = self.st.facts.not_tag.get(t).cloned().unwrap_or_default();
                            for x in self.hooks.clone().excluded(self, *t) {
                                n.insert(x.into());
                            }
                            n
                        };
                        let left: Vec<&String> = vs.iter().filter(|x| !nots.contains(x.as_str())).collect();
                        if left.len() == 1 {
                            let l: Rc<str> = left[0].as_str().into();
                            self.st.facts.tag.insert(*t, l);
                        }
                    }
                    Ok(false)
                }
            }
            V::Obj(_) => self.unsup(format!("variant {} of object {:?}", variant, v), site),
            o => self.unsup(format!("variant {}::{} of {:?}", epath, variant, o), site),
        }
    }

    pub fn opt(&mut self, v: V, site: &Site) -> R<Option<V>> {
        let v = self.rv(v)?;
        match &v {
            V::Enum(e) if &*e.path == "Option" => Ok(e.fields.first().map(|x| x.1.clone())),
            V::Enum(e) if &*e.path == "Result" => {
                Ok(if &*e.variant == "Ok" { e.fields.first().map(|x| x.1.clone()) } else { None })
            }
            V::Default => Ok(None),
            V::Sym(t) => {
                let r = term_ty(*t).head() == "Result";
                let (p, var) = if r { ("Result", "Ok") } else { ("Option", "Some") };
                if self.test_variant(&v, p, var, site)? {
                    Ok(Some(self.payload_sym(*t, var, "0", Some(p))))
                } else {
                    Ok(None)
                }
            }
            o => self.unsup(format!("not an option: {:?}", o), site),
        }
    }

    pub fn res(&mut self, v: V, site: &Site) -> R<Result<V, V>> {
        let v = self.rv(v)?;
        match &v {
            V::Enum(e) if &*e.path == "Result" => {
                let x = e.fields.first().map(|x| x.1.clone()).unwrap_or(V::Unit);
                Ok(if &*e.variant == "Ok" { Ok(x) } else { Err(x) })
            }
            V::Sym(t) => {
                if self.test_variant(&v, "Result", "Ok", site)? {
                    Ok(Ok(self.payload_sym(*t, "Ok", "0", Some("Result"))))
                } else {
                    Ok(Err(self.payload_sym(*t, "Err", "0", Some("Result"))))
                }
            }
            V::Seq(s) => {
                // collected results
                let mut out = vec![];
                for x in s.iter() {
                    match self.res(x.clone(), site)? {
                        Ok(y) => out.push(y),
                        Err(e) => return Ok(Err(e)),
                    }
                }
                Ok(Ok(V::seq(out)))
            }
            o => self.unsup(format!("not a result: {:?}", o), site),
        }
    }

    // ------------------------------------------------------------------ comparisons

    pub fn eq(&mut self, a: &V, b: &V, site: &Site) -> R<bool> {
        let a = self.rv(a.clone())?;
        let b = self.rv(b.clone())?;
        if a == b {
            return Ok(true);
        }
        // an equality that is written in the program
        let path = match (&a, &b) {
            (V::Struct(x), V::Struct(_)) => Some(x.path.clone()),
            (V::Enum(x), V::Enum(_)) => Some(x.path.clone()),
            _ => None,
        };
        if let Some(f) = path.and_then(|p| self.prog.trait_method(&p, "PartialEq", "eq")) {
            let r = self.call_fn(&f, vec![a.clone(), b.clone()], BTreeMap::new())?;
            return self.truth(r, site);
        }
        match (&a, &b) {
            (V::Default, V::Default) => Ok(true),
            (V::Default, o) | (o, V::Default) => {
                let ty = self.ty_of(o);
                let d = self.default_of(&ty, site)?;
                let o = o.clone();
                self.eq(&d, &o, site)
            }
            (V::Bool(x), V::Bool(y)) => Ok(x == y),
            (V::Int(x), V::Int(y)) => Ok(x == y),
            (V::Char(x), V::Char(y)) => Ok(x == y),
            (V::Bool(x), V::Sym(t)) | (V::Sym(t), V::Bool(x)) => {
                let d = self.decide(*t);
                Ok(d == *x)
            }
            (V::Int(x), V::Sym(t)) | (V::Sym(t), V::Int(x)) => Ok(self.int_eq(*t, *x)),
            (V::Str(x), V::Str(y)) => self.str_eq(x, y),
            (V::Ident(x), V::Ident(y)) => self.str_eq(x, y),
            (V::Str(x), V::Ident(y)) | (V::Ident(x), V::Str(y)) => self.str_eq(x, y),
            (V::Struct(x), V::Struct(y)) => {
                if x.path != y.path {
                    return Ok(false);
                }
                for (i, (_, v)) in x.fields.iter().enumerate() {
                    let w = y.fields[i].1.clone();
                    if !self.eq(v, &w, site)? {
                        return Ok(false);
                    }
                }
                Ok(true)
            }
            (V::Struct(_), V::Sym(_)) | (V::Sym(_), V::Struct(_)) => {
                let (s, o) = if matches!(a, V::Sym(_)) { (&a, &b) } else { (&b, &a) };
                let m = self.materialize(s);
                if matches!(m, V::Struct(_)) {
                    let o = o.clone();
                    self.eq(&m, &o, site)
                } else {
                    Ok(self.decide_eq(&a, &b))
                }
            }
            (V::Tuple(x), V::Tuple(y)) | (V::Seq(x), V::Seq(y)) => {
                if x.len() != y.len() {
                    return Ok(false);
                }
                for i in 0..x.len() {
                    if !self.eq(&x[i], &y[i], site)? {
                        return Ok(false);
                    }
                }
                Ok(true)
            }
            (V::Enum(x), V::Enum(y)) => {
                if x.variant != y.variant {
                    return Ok(false);
                }
                for (i, (_, v)) in x.fields.iter().enumerate() {
                    let w = y.fields[i].1.clone();
                    if !self.eq(v, &w, site)? {
                        return Ok(false);
                    }
                }
                Ok(true)
            }
            (V::Enum(e), V::Sym(_)) | (V::Sym(_), V::Enum(e)) => {
                let s = if matches!(a, V::Sym(_)) { a.clone() } else { b.clone() };
                let e = e.clone();
                if !self.test_variant(&s, &e.path, &e.variant, site)? {
                    return Ok(false);
                }
                if let V::Sym(t) = s {
                    for (n, v) in e.fields.iter() {
                        let w = self.payload_sym(t, &e.variant, n, Some(&e.path));
                        if !self.eq(v, &w, site)? {
                            return Ok(false);
                        }
                    }
                }
                Ok(true)
            }
            (V::Seq(x), V::Sym(t)) | (V::Sym(t), V::Seq(x)) => {
                let y = self.seq_of(*t);
                if x.len() != y.len() {
                    return Ok(false);
                }
                for i in 0..x.len() {
                    if !self.eq(&x[i], &y[i], site)? {
                        return Ok(false);
                    }
                }
                Ok(true)
            }
            (V::Obj(x), V::Obj(y)) => Ok(x == y),
            _ => Ok(self.decide_eq(&a, &b)),
        }
    }

    fn decide_eq(&mut self, a: &V, b: &V) -> bool {
        if self.generic {
            // characters of different unknown strings
            if let (V::Sym(x), V::Sym(y)) = (a, b) {
                if term_ty(*x).head() == "char" && is_generic(*x) && is_generic(*y) {
                    return false;
                }
            }
            if let (V::Sym(x), V::Char(_)) | (V::Char(_), V::Sym(x)) = (a, b) {
                if is_generic(*x) {
                    return false;
                }
            }
        }
        // symmetric
        let (x, y) = if format!("{:?}", a) <= format!("{:?}", b) { (a, b) } else { (b, a) };
        let t = term(TermKind::App("eq".into(), vec![x.clone(), y.clone()]), Ty::adt("bool"));
        self.decide(t)
    }

    fn int_fact(&mut self, t: TermId) -> IntFact {
        match self.st.facts.ints.get(&t) {
            Some(f) => f.clone(),
            None => {
                let mut f = IntFact::default();
                if term_ty(t).head().starts_with('u') {
                    f.lo = Some(0);
                }
                f
            }
        }
    }

    pub fn int_eq(&mut self, t: TermId, x: i128) -> bool {
        let mut f = self.int_fact(t);
        if f.lo == Some(x) && f.hi == Some(x) {
            return true;
        }
        if f.lo.map(|l| l > x).unwrap_or(false) || f.hi.map(|h| h < x).unwrap_or(false) || f.ne.contains(&x) {
            return false;
        }
        let b = self.choose(2) == 0;
        if b {
            f.lo = Some(x);
            f.hi = Some(x);
        } else {
            f.ne.insert(x);
            f.tighten();
        }
        self.st.facts.ints.insert(t, f);
        b
    }

    /// t < x
    pub fn int_lt(&mut self, t: TermId, x: i128) -> bool {
        let mut f = self.int_fact(t);
        if f.hi.map(|h| h < x).unwrap_or(false) {
            return true;
        }
        if f.lo.map(|l| l >= x).unwrap_or(false) {
            return false;
        }
        let b = self.choose(2) == 0;
        if b {
            f.hi = Some(x - 1);
        } else {
            f.lo = Some(x);
        }
        f.tighten();
        self.st.facts.ints.insert(t, f);
        b
    }

    pub fn str_eq(&mut self, a: &[SP], b: &[SP]) -> R<bool> {
        let a = self.subst_lits(a);
        let b = self.subst_lits(b);
        // strip common prefix and suffix
        let (a, b) = strip_common(a, b);
        if a == b {
            return Ok(true);
        }
        if let (Some(x), Some(y)) = (sp_lit(&a), sp_lit(&b)) {
            return Ok(x == y);
        }
        // the first or last characters differ
        if let (Some(SP::Lit(x)), Some(SP::Lit(y))) = (a.first(), b.first()) {
            if !x.starts_with(&**y) && !y.starts_with(&**x) {
                return Ok(false);
            }
        }
        if let (Some(SP::Lit(x)), Some(SP::Lit(y))) = (a.last(), b.last()) {
            if !x.ends_with(&**y) && !y.ends_with(&**x) {
                return Ok(false);
            }
        }
        let (l, t) = match (sp_lit(&a), sp_lit(&b)) {
            (Some(l), None) => (Some(l), b.clone()),
            (None, Some(l)) => (Some(l), a.clone()),
            _ => (None, vec![]),
        };
        let l_is_none = l.is_none();
        let t_is_generic = t.iter().all(|p| match p {
            SP::Term(t) => is_generic(*t),
            _ => true,
        });
        if let Some(l) = l {
            if let [SP::Term(t)] = t.as_slice() {
                return Ok(self.lit_eq(*t, &l));
            }
            let lits: usize = t
                .iter()
                .map(|p| match p {
                    SP::Lit(s) => s.len(),
                    _ => 0,
                })
                .sum();
            if lits > l.len() {
                return Ok(false);
            }
            if l.is_empty() {
                for p in &t {
                    if let SP::Term(t) = p {
                        if !self.lit_eq(*t, "") {
                            return Ok(false);
                        }
                    }
                }
                return Ok(true);
            }
        }
        if self.generic && (l_is_none || t_is_generic) {
            return Ok(false);
        }
        Ok(self.decide_eq(&V::Str(Rc::new(a)), &V::Str(Rc::new(b))))
    }

    pub fn lit_eq(&mut self, t: TermId, l: &str) -> bool {
        if let Some(x) = self.st.facts.eq_lit.get(&t) {
            return &**x == l;
        }
        if let Some(n) = self.st.facts.ne_lit.get(&t) {
            if n.contains(l) {
                return false;
            }
        }
        if self.generic && is_generic(t) {
            return false;
        }
        if l.is_empty() && never_empty(t) {
            return false;
        }
        let b = self.choose(2) == 0;
        if b {
            self.st.facts.eq_lit.insert(t, l.into());
        } else {
            self.st.facts.ne_lit.entry(t).or_default().insert(l.into());
        }
        b
    }

    /// Replaces terms that are known to equal a literal.
    pub fn subst_lits(&self, a: &[SP]) -> Vec<SP> {
        norm_sp(
            a.iter()
                .map(|p| match p {
                    SP::Term(t) => match self.st.facts.eq_lit.get(t) {
                        Some(l) => SP::Lit(l.clone()),
                        None => p.clone(),
                    },
                    _ => p.clone(),
                })
                .collect(),
        )
    }

    pub fn lt(&mut self, a: &V, b: &V, site: &Site) -> R<bool> {
        let a = self.rv(a.clone())?;
        let b = self.rv(b.clone())?;
        if a == b {
            return Ok(false);
        }
        // an order that is written in the program
        let path = match (&a, &b) {
            (V::Struct(x), V::Struct(_)) => Some(x.path.clone()),
            (V::Enum(x), V::Enum(y)) => {
                if &*x.path == "Reverse" && x.fields.len() == 1 && y.fields.len() == 1 {
                    let (x, y) = (x.fields[0].1.clone(), y.fields[0].1.clone());
                    return self.lt(&y, &x, site);
                }
                Some(x.path.clone())
            }
            _ => None,
        };
        if let Some(path) = path {
            if let Some(f) = self.prog.trait_method(&path, "Ord", "cmp").or_else(|| self.prog.trait_method(&path, "PartialOrd", "partial_cmp")) {
                let r = self.call_fn(&f, vec![a.clone(), b.clone()], BTreeMap::new())?;
                let mut r = self.rv(r)?;
                if r.is_variant("Some") {
                    r = r.field("0").unwrap_or(r);
                }
                return Ok(r.is_variant("Less"));
            }
        }
        match (&a, &b) {
            (V::Int(x), V::Int(y)) => Ok(x < y),
            (V::Char(x), V::Char(y)) => Ok(x < y),
            (V::Bool(x), V::Bool(y)) => Ok(x < y),
            (V::Sym(t), V::Int(y)) => Ok(self.int_lt(*t, *y)),
            (V::Int(x), V::Sym(t)) => Ok(!self.int_lt(*t, *x + 1)),
            (V::Struct(x), V::Struct(y)) => {
                for (i, (_, v)) in x.fields.iter().enumerate() {
                    let w = y.fields[i].1.clone();
                    if self.lt(v, &w, site)? {
                        return Ok(true);
                    }
                    if self.lt(&w, v, site)? {
                        return Ok(false);
                    }
                }
                Ok(false)
            }
            (V::Tuple(x), V::Tuple(y)) | (V::Seq(x), V::Seq(y)) => {
                for i in 0..x.len().min(y.len()) {
                    if self.lt(&x[i], &y[i], site)? {
                        return Ok(true);
                    }
                    if self.lt(&y[i], &x[i], site)? {
                        return Ok(false);
                    }
                }
                Ok(x.len() < y.len())
            }
            (V::Enum(x), V::Enum(y)) => {
                if x.variant == y.variant {
                    for (i, (_, v)) in x.fields.iter().enumerate() {
                        let w = y.fields[i].1.clone();
                        if self.lt(v, &w, site)? {
                            return Ok(true);
                        }
                        if self.lt(&w, v, site)? {
                            return Ok(false);
                        }
                    }
                    return Ok(false);
                }
                let vs = self.variants_of(&x.path).unwrap_or_default();
                let ix = |n: &str| vs.iter().position(|v| v == n);
                Ok(ix(&x.variant) < ix(&y.variant))
            }
            (V::Str(x), V::Str(y)) => {
                let (x2, y2) = (self.subst_lits(x), self.subst_lits(y));
                if let (Some(p), Some(q)) = (sp_lit(&x2), sp_lit(&y2)) {
                    return Ok(p < q);
                }
                if self.str_eq(&x2, &y2)? {
                    return Ok(false);
                }
                Ok(self.decide_lt(&V::Str(Rc::new(x2)), &V::Str(Rc::new(y2))))
            }
            (V::Sym(_), V::Struct(_)) | (V::Struct(_), V::Sym(_)) | (V::Sym(_), V::Sym(_)) => {
                let (ma, mb) = (self.materialize(&a), self.materialize(&b));
                if matches!(ma, V::Struct(_)) && matches!(mb, V::Struct(_)) {
                    return self.lt(&ma, &mb, site);
                }
                Ok(self.decide_lt(&a, &b))
            }
            _ => Ok(self.decide_lt(&a, &b)),
        }
    }

    fn decide_lt(&mut self, a: &V, b: &V) -> bool {
        if self.generic && matches!((a, b), (V::Str(_), V::Str(_)) | (V::Sym(_), V::Sym(_))) {
            return format!("{:?}", a) < format!("{:?}", b);
        }
        let (x, y, flip) = if format!("{:?}", a) <= format!("{:?}", b) { (a, b, false) } else { (b, a, true) };
        let t = term(TermKind::App("lt".into(), vec![x.clone(), y.clone()]), Ty::adt("bool"));
        self.decide(t) != flip
    }

    // ------------------------------------------------------------------ types

    pub fn ty_of(&self, v: &V) -> Ty {
        match v {
            V::Unit => Ty::Tuple(vec![]),
            V::Bool(_) => Ty::adt("bool"),
            V::Int(_) => Ty::adt("usize"),
            V::Char(_) => Ty::adt("char"),
            V::Str(_) => Ty::adt("String"),
            V::Ident(_) => Ty::adt("syn::Ident"),
            V::Sym(t) => term_ty(*t),
            V::Struct(s) => Ty::adt(&s.path),
            V::Enum(e) => Ty::Adt(e.path.to_string(), e.fields.iter().map(|f| self.ty_of(&f.1)).collect()),
            V::Tuple(t) => Ty::Tuple(t.iter().map(|x| self.ty_of(x)).collect()),
            V::Seq(s) => Ty::Adt("Vec".into(), vec![s.first().map(|x| self.ty_of(x)).unwrap_or(Ty::Unknown)]),
            V::Map(m) => Ty::adt(match (m.is_set, m.order) {
                (false, Order::Hash) => "HashMap",
                (false, Order::Sorted) => "BTreeMap",
                (true, Order::Hash) => "HashSet",
                (true, Order::Sorted) => "BTreeSet",
            }),
            V::Iter(_) => Ty::adt("Iterator"),
            V::Tokens(_) => Ty::adt("proc_macro2::TokenStream"),
            V::Mut(p) => match self.load(p) {
                Ok(v) => self.ty_of(&v),
                _ => Ty::Unknown,
            },
            V::Cell(_) => Ty::adt("Cell"),
            V::Obj(o) => Ty::adt(&o.kind),
            _ => Ty::Unknown,
        }
    }

    pub fn default_of(&mut self, ty: &Ty, site: &Site) -> R<V> {
        Ok(match ty {
            Ty::Unknown | Ty::Param(_) => V::Default,
            Ty::Tuple(t) => {
                let mut o = vec![];
                for x in t {
                    o.push(self.default_of(x, site)?);
                }
                V::tup(o)
            }
            Ty::Adt(n, args) => match n.as_str() {
                _ if ty.is_str() => lit(""),
                "bool" => V::Bool(false),
                _ if ty.is_int() => V::Int(0),
                "Option" => V::none(),
                "Vec" | "VecDeque" => V::seq(vec![]),
                "HashMap" | "BTreeMap" | "HashSet" | "BTreeSet" => empty_map(n),
                "proc_macro2::TokenStream" | "TokenStream" => V::tokens(vec![]),
                "PathBuf" | "Path" => lit(""),
                "Cell" | "RefCell" => {
                    let d = self.default_of(&args.first().cloned().unwrap_or(Ty::Unknown), site)?;
                    V::Cell(self.alloc(d))
                }
                _ => {
                    if let Some(f) = self.prog.trait_method(n, "Default", "default") {
                        return self.call_fn(&f, vec![], BTreeMap::new());
                    }
                    if let Some(s) = self.prog.structs.get(n).cloned() {
                        if s.derives.iter().any(|d| d == "Default") {
                            let mut fields = vec![];
                            for f in &s.fields {
                                fields.push((Rc::from(f.name.as_str()), self.default_of(&f.ty, site)?));
                            }
                            return Ok(V::Struct(Rc::new(StructV {
                                path: n.as_str().into(),
                                fields,
                            })));
                        }
                    }
                    if let Some(e) = self.prog.enums.get(n).cloned() {
                        if let Some(v) = e.variants.iter().find(|v| v.default) {
                            return Ok(V::en(n, &v.name, vec![]));
                        }
                    }
                    return self.unsup(format!("default of {}", n), site);
                }
            },
        })
    }

    /// Converts a value to the type of the place it is moved to.
    pub fn coerce(&mut self, v: V, ty: &Ty, site: &Site) -> R<V> {
        if let (V::Sym(t), Ty::Adt(n, _)) = (&v, ty) {
            if let TermKind::App(f, a) = &get_term(*t).kind {
                if f == "parsed:?" && n != "Box" {
                    if let (Some(file), V::Int(l), V::Int(c)) = (a[1].as_lit(), &a[2], &a[3]) {
                        let k = (file, *l as usize, *c as usize);
                        let old = self.prog.inferred.borrow_mut().insert(k, ty.clone());
                        if old.is_some() {
                            return self.unsup("a call with several result types", site);
                        }
                        self.restart = true;
                        return Err(Ctl::Prune("type inference".into()));
                    }
                }
            }
        }
        // deref coercion
        if let Ty::Adt(n, _) = ty {
            if let V::Struct(s) = &self.rv(v.clone()).unwrap_or(V::Unit) {
                if *s.path != **n {
                    if let Some(f) = self.prog.trait_method(&s.path, "Deref", "deref") {
                        if self.prog.deref_target(&s.path).map(|t| t.head() == n).unwrap_or(false) {
                            return self.call_fn(&f, vec![v], BTreeMap::new());
                        }
                    }
                }
            }
        }
        match (&v, ty) {
            (V::Default, _) => self.default_of(ty, site),
            (V::Enum(e), Ty::Adt(n, args)) if &**n == "Option" && &*e.path == "Option" && e.fields.len() == 1 => {
                let x = self.coerce(e.fields[0].1.clone(), &args.first().cloned().unwrap_or(Ty::Unknown), site)?;
                Ok(V::some(x))
            }
            (V::Enum(e), Ty::Adt(n, args)) if &**n == "Result" && &*e.path == "Result" => {
                let i = if &*e.variant == "Ok" { 0 } else { 1 };
                let x = self.coerce(e.fields[0].1.clone(), &args.get(i).cloned().unwrap_or(Ty::Unknown), site)?;
                Ok(if i == 0 { V::ok(x) } else { V::err(x) })
            }
            (V::Seq(s), Ty::Adt(n, args)) if n == "Vec" && !args.is_empty() => {
                for x in s.iter() {
                    if let V::Sym(_) = x {
                        self.coerce(x.clone(), &args[0], site)?;
                    }
                }
                Ok(v)
            }
            (V::Seq(s), Ty::Adt(n, _)) => match n.as_str() {
                "HashMap" | "BTreeMap" | "HashSet" | "BTreeSet" => self.seq_to_map(&s.clone(), n, site),
                _ if ty.is_str() => self.seq_to_str(&s.clone(), site),
                "proc_macro2::TokenStream" => {
                    let mut out = vec![];
                    for x in s.iter() {
                        out.extend(self.to_tokens(x.clone(), site)?);
                    }
                    Ok(V::tokens(out))
                }
                "Result" => {
                    let r = self.res(v.clone(), site)?;
                    Ok(match r {
                        Ok(x) => V::ok(self.coerce(x, &ty.arg(0), site)?),
                        Err(x) => V::err(self.coerce(x, &ty.arg(1), site)?),
                    })
                }
                "Option" => {
                    let mut out = vec![];
                    for x in s.iter() {
                        match self.opt(x.clone(), site)? {
                            Some(y) => out.push(y),
                            None => return Ok(V::none()),
                        }
                    }
                    let x = self.coerce(V::seq(out), &ty.arg(0), site)?;
                    Ok(V::some(x))
                }
                _ => Ok(v),
            },
            (V::Enum(_), Ty::Adt(n, _)) | (V::Struct(_), Ty::Adt(n, _)) => {
                if self.prog.enums.contains_key(n) || self.prog.structs.contains_key(n) {
                    if let Some(c) = self.convert_to(&v, n)? {
                        return Ok(c);
                    }
                }
                Ok(v)
            }
            // the target of an `into()` is only known where the value is used
            (V::Obj(_), Ty::Adt(n, _)) if self.prog.structs.contains_key(n) || self.prog.enums.contains_key(n) => Ok(self.convert_to(&v, n)?.unwrap_or(v)),
            (V::Mut(p), Ty::Adt(n, _)) if self.prog.structs.contains_key(n) => {
                if let Ok(x @ V::Obj(_)) = self.load(p) {
                    if let Some(c) = self.convert_to(&x, n)? {
                        let q = self.norm(p);
                        let q = self.deref_place(&q);
                        self.store(&q, c)?;
                    }
                }
                Ok(v)
            }
            (V::Sym(t), Ty::Adt(n, _)) => {
                let st = term_ty(*t);
                if self.prog.enums.contains_key(n) && st.head() != n && !matches!(st, Ty::Unknown) {
                    if let Some(c) = self.convert_to(&v, n)? {
                        return Ok(c);
                    }
                }
                Ok(v)
            }
            (V::Tuple(t), Ty::Tuple(ts)) if t.len() == ts.len() => {
                let mut o = vec![];
                for (x, y) in t.iter().zip(ts) {
                    o.push(self.coerce(x.clone(), y, site)?);
                }
                Ok(V::tup(o))
            }
            _ => Ok(v),
        }
    }

    /// `From` conversion between types of the workspace.
    pub fn convert_to(&mut self, v: &V, target: &str) -> R<Option<V>> {
        let src = self.ty_of(v);
        let src = src.head().to_string();
        if src == target || src == "?" {
            return Ok(None);
        }
        let f = self
            .prog
            .impls
            .iter()
            .find(|i| {
                i.self_ty.head() == target
                    && i.trait_.as_deref().map(last) == Some("From")
                    && i.trait_args.first().map(|t| t.head() == src).unwrap_or(false)
            })
            .and_then(|i| i.fns.first().cloned());
        if let Some(f) = f {
            return Ok(Some(self.call_fn(&f, vec![v.clone()], BTreeMap::new())?));
        }
        if let Some(e) = self.prog.enums.get(target).cloned() {
            for var in &e.variants {
                if var.fields.len() == 1 && var.fields[0].from && var.fields[0].ty.head() == src {
                    return Ok(Some(V::Enum(Rc::new(EnumV {
                        path: target.into(),
                        variant: var.name.as_str().into(),
                        fields: vec![(Rc::from(var.fields[0].name.as_str()), v.clone())],
                    }))));
                }
            }
            // one step through another error type, e.g. by `.into()`
            for var in &e.variants {
                if var.fields.len() == 1 && var.fields[0].from {
                    let mid = var.fields[0].ty.head().to_string();
                    if mid != target && self.prog.enums.contains_key(&mid) {
                        if let Some(m) = self.direct_from(v, &src, &mid)? {
                            return Ok(Some(V::Enum(Rc::new(EnumV {
                                path: target.into(),
                                variant: var.name.as_str().into(),
                                fields: vec![(Rc::from(var.fields[0].name.as_str()), m)],
                            }))));
                        }
                    }
                }
            }
        }
        Ok(None)
    }

    fn direct_from(&mut self, v: &V, src: &str, target: &str) -> R<Option<V>> {
        if let Some(e) = self.prog.enums.get(target).cloned() {
            for var in &e.variants {
                if var.fields.len() == 1 && var.fields[0].from && var.fields[0].ty.head() == src {
                    return Ok(Some(V::Enum(Rc::new(EnumV {
                        path: target.into(),
                        variant: var.name.as_str().into(),
                        fields: vec![(Rc::from(var.fields[0].name.as_str()), v.clone())],
                    }))));
                }
            }
        }
        Ok(None)
    }

    pub fn seq_to_map(&mut self, s: &[V], kind: &str, site: &Site) -> R<V> {
        let mut m = empty_map(kind);
        for x in s {
            if kind.ends_with("Set") {
                m = self.map_insert(m, x.clone(), V::Unit, site)?.0;
            } else {
                let x = self.rv(x.clone())?;
                let (k, v) = match (&x.field("0"), &x.field("1")) {
                    (Some(a), Some(b)) => (a.clone(), b.clone()),
                    _ => return self.unsup(format!("map entry {:?}", x), site),
                };
                m = self.map_insert(m, k, v, site)?.0;
            }
        }
        Ok(m)
    }

    pub fn seq_to_str(&mut self, s: &[V], site: &Site) -> R<V> {
        let mut parts = vec![];
        for x in s {
            parts.extend(self.display(x.clone(), site)?);
        }
        Ok(V::str_parts(parts))
    }

    pub fn map_find(&mut self, m: &MapV, k: &V, site: &Site) -> R<Option<usize>> {
        for (i, (x, _)) in m.entries.iter().enumerate() {
            if x == k {
                return Ok(Some(i));
            }
        }
        for i in 0..m.entries.len() {
            let x = m.entries[i].0.clone();
            if self.eq(&x, k, site)? {
                return Ok(Some(i));
            }
        }
        Ok(None)
    }

    pub fn map_insert(&mut self, m: V, k: V, v: V, site: &Site) -> R<(V, V)> {
        let V::Map(m) = &m else {
            return self.unsup("insert into non-map", site);
        };
        let mut m2 = (**m).clone();
        let k = self.rv(k)?;
        let old = match self.map_find(m, &k, site)? {
            Some(i) => {
                if m.is_set {
                    V::Bool(false)
                } else {
                    let o = m2.entries[i].1.clone();
                    m2.entries[i].1 = v;
                    V::some(o)
                }
            }
            None => {
                m2.entries.push((k, v));
                if m.is_set {
                    V::Bool(true)
                } else {
                    V::none()
                }
            }
        };
        Ok((V::Map(Rc::new(m2)), old))
    }

    /// Entries in iteration order.
    pub fn map_items(&mut self, m: &MapV, site: &Site) -> R<Vec<(usize, V, V)>> {
        let mut idx: Vec<usize> = (0..m.entries.len()).collect();
        match m.order {
            Order::Hash => {
                idx = self.hash_order(idx);
            }
            Order::Sorted => {
                let mut out: Vec<usize> = vec![];
                for i in idx {
                    let mut pos = out.len();
                    for (j, o) in out.iter().enumerate() {
                        let (a, b) = (m.entries[i].0.clone(), m.entries[*o].0.clone());
                        if self.lt(&a, &b, site)? {
                            pos = j;
                            break;
                        }
                    }
                    out.insert(pos, i);
                }
                idx = out;
            }
        }
        Ok(idx.into_iter().map(|i| (i, m.entries[i].0.clone(), m.entries[i].1.clone())).collect())
    }

    // ------------------------------------------------------------------ functions

    pub fn push_scope(&mut self) -> Env {
        let old = self.env.clone();
        self.env = Rc::new(Scope {
            vars: RefCell::new(vec![]),
            parent: Some(old.clone()),
        });
        old
    }

    pub fn bind(&mut self, name: &str, v: V) {
        let c = self.alloc(v);
        self.env.vars.borrow_mut().push((name.to_string(), c));
    }

    pub fn lookup(&self, name: &str) -> Option<usize> {
        let mut e = Some(self.env.clone());
        while let Some(s) = e {
            if let Some((_, c)) = s.vars.borrow().iter().rev().find(|(n, _)| n == name) {
                return Some(*c);
            }
            e = s.parent.clone();
        }
        None
    }

    pub fn frame(&self) -> Rc<Frame> {
        self.frames.last().cloned().unwrap_or_else(|| {
            Rc::new(Frame {
                func: "".into(),
                module: "".into(),
                self_ty: None,
                ret: Ty::Unknown,
                file: "".into(),
                generics: vec![],
                subst: BTreeMap::new(),
                uses: RefCell::new(vec![]),
            })
        })
    }

    pub fn call_path(&mut self, path: &str, args: Vec<V>) -> R<V> {
        let site = Site {
            file: "<driver>".into(),
            line: 0,
            func: "driver".into(),
        };
        match self.prog.find_fn(path) {
            Some(f) => self.call_fn(&f, args, BTreeMap::new()),
            None => self.unsup(format!("no function {}", path), &site),
        }
    }

    fn is_stringish(&self, v: &V) -> bool {
        match v {
            V::Str(_) | V::Ident(_) | V::Bool(_) | V::Int(_) | V::Char(_) => true,
            V::Mut(p) => self.load(p).map(|v| self.is_stringish(&v)).unwrap_or(false),
            _ => false,
        }
    }

    pub fn call_fn(&mut self, f: &Rc<FnDef>, args: Vec<V>, subst: BTreeMap<String, Ty>) -> R<V> {
        let site = self.frames.last().map(|fr| Site {
            file: fr.file.clone(),
            line: 0,
            func: fr.func.clone(),
        });
        let site = site.unwrap_or(Site {
            file: "".into(),
            line: 0,
            func: "".into(),
        });
        let hooks = self.hooks.clone();
        if let Some(r) = hooks.call(self, &f.path, &args, &site) {
            return r;
        }
        // functions from strings to a string or an identifier are not looked into where their result
        // depends on the content of an unknown string
        let is_strfn = matches!(f.ret.head(), "syn::Ident" | "proc_macro2::Ident" | "Ident") || f.ret.is_str();
        if is_strfn && !self.inline_strfn && !args.is_empty() && f.trait_.is_none() && args.iter().all(|a| self.is_stringish(a)) {
            let mut vals = vec![];
            for a in &args {
                vals.push(self.rv(a.clone())?);
            }
            let symbolic = vals.iter().any(|v| match v {
                V::Str(p) | V::Ident(p) => sp_lit(p).is_none(),
                _ => false,
            });
            let key = if symbolic { format!("{} {:?} {}", f.path, vals, self.st.facts.show()) } else { String::new() };
            if let Some(Some(r)) = self.summaries.get(&key) {
                return Ok(r.clone());
            }
            if symbolic && !self.summaries.contains_key(&key) {
                let f2 = f.clone();
                let a2 = args.clone();
                let st0 = self.st.clone();
                self.inline_strfn = true;
                let ex = self.explore(64, &mut |it| it.call_fn_raw(&f2, a2.clone(), BTreeMap::new()));
                self.inline_strfn = false;
                self.st = st0;
                if ex.paths.len() != 1 || ex.truncated {
                    let ty = if f.ret.is_str() { Ty::adt("String") } else { Ty::adt("syn::Ident") };
                    let r = V::app(&f.path, vals, ty);
                    self.summaries.insert(key, Some(r.clone()));
                    return Ok(r);
                }
                self.summaries.insert(key, None);
            }
        }
        // the same for predicates on characters
        if f.ret.head() == "bool" && !self.inline_strfn && args.len() == 1 && f.trait_.is_none() {
            let v = self.rv(args[0].clone())?;
            let is_char = match &v {
                V::Sym(t) => term_ty(*t).head() == "char",
                _ => false,
            };
            let key = if is_char { format!("{} {:?} {}", f.path, v, self.st.facts.show()) } else { String::new() };
            if let Some(Some(r)) = self.summaries.get(&key) {
                return Ok(r.clone());
            }
            if is_char {
                let f2 = f.clone();
                let a2 = args.clone();
                let st0 = self.st.clone();
                self.inline_strfn = true;
                let ex = self.explore(64, &mut |it| it.call_fn_raw(&f2, a2.clone(), BTreeMap::new()));
                self.inline_strfn = false;
                self.st = st0;
                let same = ex.paths.windows(2).all(|w| format!("{:?}", w[0].out) == format!("{:?}", w[1].out));
                let r = match ex.paths.first().map(|p| &p.out) {
                    Some(Ok(r)) if same && !ex.truncated => r.clone(),
                    _ => V::app(&f.path, vec![v], Ty::adt("bool")),
                };
                self.summaries.insert(key, Some(r.clone()));
                return Ok(r);
            }
        }
        self.call_fn_raw(f, args, subst)
    }

    pub fn call_fn_raw(&mut self, f: &Rc<FnDef>, args: Vec<V>, subst: BTreeMap<String, Ty>) -> R<V> {
        let site = Site {
            file: f.file.as_str().into(),
            line: f.line(),
            func: f.path.as_str().into(),
        };
        let depth = self.frames.iter().filter(|x| *x.func == *f.path).count();
        if self.deep {
            if depth > 60 || self.frames.len() > 250 {
                return Err(Ctl::Panic(format!("the recursion of `{}` does not end", f.path), site));
            }
        } else if depth > self.max_rec || self.frames.len() > 60 {
            return Err(Ctl::Prune(format!("recursion of {}", f.path)));
        }
        self.visited.borrow_mut().insert(f.path.clone());
        let fr = Rc::new(Frame {
            func: f.path.as_str().into(),
            module: f.module.as_str().into(),
            self_ty: f.self_ty.clone(),
            ret: f.ret.clone(),
            file: f.file.as_str().into(),
            generics: f.generics.clone(),
            subst,
            uses: RefCell::new(vec![]),
        });
        let saved_env = std::mem::replace(&mut self.env, empty_env());
        self.frames.push(fr);
        let r = (|| {
            if f.sig.inputs.len() != args.len() {
                return self.unsup(format!("{} called with {} arguments", f.path, args.len()), &site);
            }
            for (i, (p, a)) in f.sig.inputs.iter().zip(args).enumerate() {
                match p {
                    syn::FnArg::Receiver(r) => {
                        let a = if r.reference.is_some() { a } else { self.rv(a)? };
                        self.bind("self", a);
                    }
                    syn::FnArg::Typed(t) => {
                        let a = self.coerce(a, &f.params[i], &site)?;
                        if !self.bind_pat(&t.pat, a, Mode::Val)? {
                            return self.unsup("refutable parameter", &site);
                        }
                    }
                }
            }
            let block = f.block.clone();
            let v = match self.eval_block(&block) {
                Ok(v) => v,
                Err(Ctl::Return(v)) => v,
                Err(e) => return Err(e),
            };
            let ret = f.ret.clone();
            self.coerce(v, &ret, &site)
        })();
        self.frames.pop();
        self.env = saved_env;
        r
    }

    pub fn call_value(&mut self, f: &V, args: Vec<V>, site: &Site) -> R<V> {
        let f = self.rv(f.clone())?;
        match &f {
            V::Closure(c) => {
                let saved_env = std::mem::replace(
                    &mut self.env,
                    Rc::new(Scope {
                        vars: RefCell::new(vec![]),
                        parent: Some(c.env.clone()),
                    }),
                );
                self.frames.push(c.frame.clone());
                let r = (|| {
                    for (p, a) in c.params.iter().zip(args) {
                        if !self.bind_pat(p, a, Mode::Val)? {
                            return self.unsup("refutable closure parameter", site);
                        }
                    }
                    match self.eval(&c.body) {
                        Ok(v) => Ok(v),
                        Err(Ctl::Return(v)) => Ok(v),
                        Err(e) => Err(e),
                    }
                })();
                self.frames.pop();
                self.env = saved_env;
                r
            }
            V::Fn(p) => {
                let p = p.clone();
                self.call_named(&p, args, None, site)
            }
            V::Sym(_) => {
                let mut a = vec![f.clone()];
                a.extend(args);
                Ok(V::app("call", a, Ty::Unknown))
            }
            o => self.unsup(format!("call of {:?}", o), site),
        }
    }

    /// Calls a function, method or constructor by its resolved path.
    pub fn call_named(&mut self, path: &str, args: Vec<V>, turbofish: Option<Ty>, site: &Site) -> R<V> {
        let hooks = self.hooks.clone();
        if let Some(r) = hooks.call(self, path, &args, site) {
            return r;
        }
        if let Some(f) = self.prog.fns.get(path).cloned() {
            let mut subst = BTreeMap::new();
            if let Some(t) = turbofish {
                if let Some(g) = f.generics.first() {
                    subst.insert(g.clone(), t);
                }
            }
            return self.call_fn(&f, args, subst);
        }
        // constructors
        if let Some(s) = self.prog.structs.get(path).cloned() {
            if s.tuple {
                let mut fields = vec![];
                for (f, a) in s.fields.iter().zip(args) {
                    let a = self.coerce(a, &f.ty, site)?;
                    fields.push((Rc::from(f.name.as_str()), a));
                }
                return Ok(V::Struct(Rc::new(StructV {
                    path: path.into(),
                    fields,
                })));
            }
        }
        if let Some((pre, name)) = path.rsplit_once("::") {
            if let Some(e) = self.prog.enums.get(pre).cloned() {
                if let Some(v) = e.variants.iter().find(|v| v.name == name) {
                    let mut fields = vec![];
                    for (f, a) in v.fields.iter().zip(args) {
                        let a = self.coerce(a, &f.ty, site)?;
                        fields.push((Rc::from(f.name.as_str()), a));
                    }
                    return Ok(V::Enum(Rc::new(EnumV {
                        path: pre.into(),
                        variant: name.into(),
                        fields,
                    })));
                }
            }
            if let Some(f) = self.prog.method(pre, name) {
                return self.call_fn(&f, args, BTreeMap::new());
            }
            // type-relative call on a type of the workspace: derived traits and methods by path
            if self.prog.structs.contains_key(pre) || self.prog.enums.contains_key(pre) {
                match name {
                    "default" if args.is_empty() => return self.default_of(&Ty::adt(pre), site),
                    "from" if args.len() == 1 => return self.coerce(args[0].clone(), &Ty::adt(pre), site),
                    _ => {}
                }
                if let Some((recv, rest)) = args.split_first() {
                    return self.method_on(recv.clone(), name, rest.to_vec(), None, site);
                }
            }
        }
        self.ext_call(path, args, turbofish, site)
    }
}

impl IntFact {
    fn tighten(&mut self) {
        while let Some(l) = self.lo {
            if self.ne.contains(&l) {
                self.lo = Some(l + 1);
            } else {
                break;
            }
        }
        while let Some(h) = self.hi {
            if self.ne.contains(&h) {
                self.hi = Some(h - 1);
            } else {
                break;
            }
        }
    }
}

/// Unknown names, and what is computed from them.
pub fn is_generic(t: TermId) -> bool {
    match &get_term(t).kind {
        TermKind::Var(n) => n.starts_with('%'),
        TermKind::App(_, a) => !a.is_empty() && a.iter().all(generic_v),
        TermKind::Elem(b, _) | TermKind::Payload(b, _, _) | TermKind::Field(b, _) => is_generic(*b),
    }
}

fn generic_v(v: &V) -> bool {
    match v {
        V::Str(p) | V::Ident(p) => p.iter().all(|p| match p {
            SP::Term(t) => is_generic(*t),
            _ => true,
        }),
        V::Sym(t) => is_generic(*t),
        V::Int(_) | V::Bool(_) | V::Char(_) => true,
        _ => false,
    }
}

/// The text of numbers and booleans is not empty.
fn never_empty(t: TermId) -> bool {
    match &get_term(t).kind {
        TermKind::App(n, a) if n == "display" => match a.first() {
            Some(V::Sym(x)) => {
                let ty = term_ty(*x);
                ty.is_int() || matches!(ty.head(), "bool" | "f32" | "f64" | "char") || last(ty.head()) == "Decimal"
            }
            _ => false,
        },
        _ => false,
    }
}

pub fn strip_common(mut a: Vec<SP>, mut b: Vec<SP>) -> (Vec<SP>, Vec<SP>) {
    loop {
        match (a.first().cloned(), b.first().cloned()) {
            (Some(SP::Term(x)), Some(SP::Term(y))) if x == y => {
                a.remove(0);
                b.remove(0);
            }
            (Some(SP::Lit(x)), Some(SP::Lit(y))) => {
                let n = x.chars().zip(y.chars()).take_while(|(p, q)| p == q).map(|(p, _)| p.len_utf8()).sum::<usize>();
                if n == 0 {
                    break;
                }
                for (v, s) in [(&mut a, &x), (&mut b, &y)] {
                    if s.len() == n {
                        v.remove(0);
                    } else {
                        v[0] = SP::Lit(s[n..].into());
                    }
                }
                if x.len() != n && y.len() != n {
                    break;
                }
            }
            _ => break,
        }
    }
    loop {
        match (a.last(), b.last()) {
            (Some(SP::Term(x)), Some(SP::Term(y))) if x == y => {
                a.pop();
                b.pop();
            }
            (Some(SP::Lit(x)), Some(SP::Lit(y))) if x == y => {
                a.pop();
                b.pop();
            }
            _ => break,
        }
    }
    (a, b)
}

pub fn empty_map(kind: &str) -> V {
    V::Map(Rc::new(MapV {
        order: if kind.starts_with("Hash") { Order::Hash } else { Order::Sorted },
        is_set: kind.ends_with("Set"),
        entries: vec![],
        rest: None,
    }))
}

#[derive(Clone)]
pub enum Mode {
    Val,
    /// the value is behind a mutable reference to that place
    MutRef(Place),
    /// the value is in that place, bindings copy unless `ref mut`
    Place(Place),
}

pub fn ext_field_ty(head: &str, name: &str) -> Ty {
    match (head, name) {
        ("roxmltree::TextPos", _) => Ty::adt("u32"),
        ("syn::ItemMod", "ident") => Ty::adt("syn::Ident"),
        ("syn::ItemMod", "vis") => Ty::adt("syn::Visibility"),
        ("syn::ItemMod", "attrs") => Ty::Adt("Vec".into(), vec![Ty::adt("syn::Attribute")]),
        ("syn::ItemMod", "content") => Ty::Adt(
            "Option".into(),
            vec![Ty::Tuple(vec![
                Ty::adt("syn::token::Brace"),
                Ty::Adt("Vec".into(), vec![Ty::adt("syn::Item")]),
            ])],
        ),
        _ => Ty::Unknown,
    }
}

#[allow(dead_code)]
pub type Cache = HashMap<String, usize>;

pub fn span_of(e: &syn::Expr) -> proc_macro2::Span {
    // the span of method calls starts at the receiver; the method name is more telling
    match e {
        syn::Expr::MethodCall(m) => m.method.span(),
        _ => e.span(),
    }
}
