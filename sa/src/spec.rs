//! Reference semantics of the supported part of XML Schema: what documents an element declaration
//! stands for, written independently of the analysed code.
use crate::interp::*;
use crate::val::*;
use crate::load::Ty;
use crate::xmlt::*;
use std::rc::Rc;

pub const XS: &str = "http://www.w3.org/2001/XMLSchema";

pub type QName = (Option<V>, V);

#[derive(Clone, Debug)]
pub enum TRef {
    Builtin(String),
    Named(QName),
    Anon(Rc<Def>),
}

#[derive(Clone, Debug)]
pub enum Def {
    Simple { base: TRef, enums: Vec<V> },
    Complex(Complex),
}

#[derive(Clone, Debug)]
pub struct Complex {
    pub attrs: Vec<Attr>,
    pub base: Option<TRef>,
    pub text: Option<TRef>,
    pub group: Option<Group>,
}

#[derive(Clone, Debug)]
pub struct Attr {
    pub name: V,
    pub ty: TRef,
    pub required: bool,
    pub fixed: Option<V>,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind {
    Seq,
    Choice,
    All,
}

#[derive(Clone, Debug)]
pub struct Group {
    pub kind: Kind,
    pub min: u32,
    pub max: Option<u32>,
    pub items: Vec<Part>,
}

#[derive(Clone, Debug)]
pub enum Part {
    El(El),
    Group(Group),
}

#[derive(Clone, Debug)]
pub struct El {
    pub name: QName,
    pub ty: TRef,
    pub fixed: Option<V>,
    pub min: u32,
    pub max: Option<u32>,
}

#[derive(Default, Debug, Clone)]
pub struct Spec {
    pub els: Vec<El>,
    pub types: Vec<(QName, Def)>,
}

fn many(max: Option<u32>) -> bool {
    max.map(|m| m > 1).unwrap_or(true)
}

pub fn split(v: &V) -> (Option<String>, V) {
    if let V::Str(p) = v {
        if let Some(SP::Lit(l)) = p.first() {
            if let Some((a, b)) = l.split_once(':') {
                let mut rest = vec![SP::Lit(b.into())];
                rest.extend(p[1..].iter().cloned());
                return (Some(a.to_string()), V::str_parts(rest));
            }
        }
    }
    (None, v.clone())
}

struct Rd<'a> {
    d: &'a XDoc,
    target: Option<V>,
    qualified: bool,
}

impl Rd<'_> {
    fn xs(&self, n: usize) -> Vec<(String, usize)> {
        self.d
            .elements(n)
            .into_iter()
            .filter(|c| self.d.nodes[*c].ns == Some(lit(XS)))
            .map(|c| (self.d.nodes[c].name.as_lit().unwrap_or_default(), c))
            .collect()
    }

    fn first(&self, n: usize, name: &str) -> Option<usize> {
        self.xs(n).into_iter().find(|x| x.0 == name).map(|x| x.1)
    }

    fn tref(&self, n: usize, v: &V) -> TRef {
        let (p, local) = split(v);
        let ns = self
            .d
            .scope(n)
            .into_iter()
            .find(|s| match (&s.0, &p) {
                (None, None) => true,
                (Some(a), Some(b)) => *a == lit(b),
                _ => false,
            })
            .map(|s| s.1);
        if ns == Some(lit(XS)) {
            TRef::Builtin(local.as_lit().unwrap_or_default())
        } else {
            TRef::Named((ns.filter(|n| *n != lit("")), local))
        }
    }

    fn occurs(&self, n: usize) -> (u32, Option<u32>) {
        let min = self.d.attr(n, "minOccurs").and_then(|v| v.as_lit()).and_then(|s| s.parse().ok()).unwrap_or(1);
        let max = match self.d.attr(n, "maxOccurs").and_then(|v| v.as_lit()) {
            Some(s) if s == "unbounded" => None,
            Some(s) => s.parse().ok(),
            None => Some(1),
        };
        (min, max)
    }

    fn element(&self, n: usize, top: bool) -> El {
        let (min, max) = self.occurs(n);
        if let Some(r) = self.d.attr(n, "ref") {
            if let TRef::Named(q) = self.tref(n, &r) {
                return El {
                    name: q.clone(),
                    ty: TRef::Named(q),
                    fixed: None,
                    min,
                    max,
                };
            }
        }
        let name = self.d.attr(n, "name").unwrap_or(lit("?"));
        let qualified = match self.d.attr(n, "form").and_then(|v| v.as_lit()).as_deref() {
            Some("qualified") => true,
            Some("unqualified") => false,
            _ => self.qualified,
        };
        let ns = if top || qualified { self.target.clone() } else { None };
        let ty = match self.d.attr(n, "type") {
            Some(t) => self.tref(n, &t),
            None => match (self.first(n, "complexType"), self.first(n, "simpleType")) {
                (Some(c), _) => TRef::Anon(Rc::new(self.complex(c))),
                (_, Some(c)) => TRef::Anon(Rc::new(self.simple(c))),
                _ => TRef::Builtin("anyType".into()),
            },
        };
        El {
            name: (ns, name),
            ty,
            fixed: self.d.attr(n, "fixed"),
            min,
            max,
        }
    }

    fn simple(&self, n: usize) -> Def {
        let r = self.first(n, "restriction").unwrap_or(n);
        Def::Simple {
            base: self.tref(r, &self.d.attr(r, "base").unwrap_or(lit("?"))),
            enums: self
                .xs(r)
                .into_iter()
                .filter(|x| x.0 == "enumeration")
                .filter_map(|x| self.d.attr(x.1, "value"))
                .collect(),
        }
    }

    fn attrs(&self, n: usize) -> Vec<Attr> {
        self.xs(n)
            .into_iter()
            .filter(|x| x.0 == "attribute")
            .filter(|x| self.d.attr(x.1, "use") != Some(lit("prohibited")))
            .map(|x| Attr {
                name: self.d.attr(x.1, "name").unwrap_or(lit("?")),
                ty: match (self.d.attr(x.1, "type"), self.first(x.1, "simpleType")) {
                    (Some(t), _) => self.tref(x.1, &t),
                    (_, Some(c)) => TRef::Anon(Rc::new(self.simple(c))),
                    _ => TRef::Builtin("string".into()),
                },
                required: self.d.attr(x.1, "use") == Some(lit("required")),
                fixed: self.d.attr(x.1, "fixed"),
            })
            .collect()
    }

    fn group_in(&self, n: usize) -> Option<Group> {
        self.xs(n)
            .into_iter()
            .find(|x| matches!(x.0.as_str(), "sequence" | "all" | "choice"))
            .map(|x| self.group(x.1, &x.0))
    }

    fn group(&self, n: usize, kind: &str) -> Group {
        let (min, max) = self.occurs(n);
        Group {
            kind: match kind {
                "sequence" => Kind::Seq,
                "all" => Kind::All,
                _ => Kind::Choice,
            },
            min,
            max,
            items: self
                .xs(n)
                .into_iter()
                .filter_map(|(k, c)| match k.as_str() {
                    "element" => Some(Part::El(self.element(c, false))),
                    "sequence" | "choice" | "all" => Some(Part::Group(self.group(c, &k))),
                    _ => None,
                })
                .collect(),
        }
    }

    fn complex(&self, n: usize) -> Def {
        if let Some(c) = self.first(n, "simpleContent") {
            let e = self.first(c, "extension").unwrap_or(c);
            return Def::Complex(Complex {
                attrs: self.attrs(e),
                base: None,
                text: Some(self.tref(e, &self.d.attr(e, "base").unwrap_or(lit("?")))),
                group: None,
            });
        }
        if let Some(c) = self.first(n, "complexContent") {
            let e = self.first(c, "extension").unwrap_or(c);
            return Def::Complex(Complex {
                attrs: self.attrs(e),
                base: Some(self.tref(e, &self.d.attr(e, "base").unwrap_or(lit("?")))),
                text: None,
                group: self.group_in(e),
            });
        }
        Def::Complex(Complex {
            attrs: self.attrs(n),
            base: None,
            text: None,
            group: self.group_in(n),
        })
    }
}

impl Spec {
    pub fn of(docs: &[XDoc]) -> Spec {
        let mut s = Spec::default();
        // the files that are reachable from the first one
        let mut reach: Vec<usize> = vec![0];
        let mut i = 0;
        while i < reach.len() {
            let d = &docs[reach[i]];
            i += 1;
            let root = d.root_element();
            let dir = d.label.rsplit_once('/').map(|x| x.0).unwrap_or("");
            for c in d.elements(root) {
                if let Some(l) = d.attr(c, "schemaLocation").and_then(|v| v.as_lit()) {
                    let path = crate::stdm::path_norm(&format!("{}/{}", dir, l));
                    if let Some(k) = docs.iter().position(|o| crate::stdm::path_norm(&o.label) == path) {
                        if !reach.contains(&k) {
                            reach.push(k);
                        }
                    }
                }
            }
        }
        for (i, d) in docs.iter().enumerate() {
            if !reach.contains(&i) {
                continue;
            }
            let root = d.root_element();
            let r = Rd {
                d,
                target: d.attr(root, "targetNamespace"),
                qualified: d.attr(root, "elementFormDefault") == Some(lit("qualified")),
            };
            for (k, c) in r.xs(root) {
                match k.as_str() {
                    "element" => s.els.push(r.element(c, true)),
                    "complexType" => s.types.push(((r.target.clone(), d.attr(c, "name").unwrap_or(lit("?"))), r.complex(c))),
                    "simpleType" => s.types.push(((r.target.clone(), d.attr(c, "name").unwrap_or(lit("?"))), r.simple(c))),
                    _ => {}
                }
            }
        }
        s
    }

    /// The declared documents: elements, and types, which are readable as an element of that name.
    pub fn roots(&self) -> Vec<El> {
        let mut out = self.els.clone();
        for (q, _) in &self.types {
            if out.iter().any(|e| e.name == *q) {
                continue;
            }
            out.push(El {
                name: q.clone(),
                ty: TRef::Named(q.clone()),
                fixed: None,
                min: 1,
                max: Some(1),
            });
        }
        out
    }

    pub fn def(&self, t: &TRef) -> Option<Res> {
        match t {
            TRef::Builtin(b) => Some(Res::Builtin(b.clone())),
            TRef::Anon(d) => Some(Res::Def((**d).clone())),
            TRef::Named(q) => {
                if let Some((_, d)) = self.types.iter().find(|x| x.0 == *q) {
                    return Some(Res::Def(d.clone()));
                }
                // an element that is referred to
                let e = self.els.iter().find(|e| e.name == *q)?;
                if let Some(f) = &e.fixed {
                    return Some(Res::Fixed(f.clone()));
                }
                self.def(&e.ty)
            }
        }
    }

    /// The attributes, the text and the groups of a complex type, those of its bases first.
    pub fn flatten(&self, c: &Complex) -> (Vec<Attr>, Option<TRef>, Vec<Group>) {
        let mut attrs = vec![];
        let mut text = c.text.clone();
        let mut groups = vec![];
        if let Some(t) = &text {
            // simple content of a complex type
            if let Some(Res::Def(Def::Complex(b))) = self.def(t) {
                let (a, t2, g) = self.flatten(&b);
                attrs.extend(a);
                text = t2;
                groups.extend(g);
            }
        }
        if let Some(b) = &c.base {
            if let Some(Res::Def(Def::Complex(b))) = self.def(b) {
                let (a, t, g) = self.flatten(&b);
                attrs.extend(a);
                text = t;
                groups.extend(g);
            }
        }
        attrs.extend(c.attrs.clone());
        groups.extend(c.group.clone());
        (attrs, text, groups)
    }
}

pub enum Res {
    Builtin(String),
    Fixed(V),
    Def(Def),
}

/// The Rust type of a built-in type.
pub fn rust_ty(b: &str) -> Option<&'static str> {
    Some(match b {
        "string" | "dateTime" | "time" | "date" | "duration" | "base64Binary" | "hexBinary" | "any" | "anyType" => "String",
        "boolean" => "bool",
        "int" => "i32",
        "integer" | "long" => "i64",
        "nonNegativeInteger" | "positiveInteger" => "u64",
        "float" => "f32",
        "decimal" => "rust_decimal::Decimal",
        _ => return None,
    })
}

/// Names of the built-in types that share a representation.
pub fn type_names(b: &str) -> Vec<&'static str> {
    match b {
        "integer" | "long" => vec!["integer", "long"],
        "nonNegativeInteger" | "positiveInteger" => vec!["nonNegativeInteger", "positiveInteger"],
        "any" | "anyType" => vec!["any", "anyType"],
        "string" => vec!["string"],
        "dateTime" => vec!["dateTime"],
        "time" => vec!["time"],
        "date" => vec!["date"],
        "duration" => vec!["duration"],
        "base64Binary" => vec!["base64Binary"],
        "hexBinary" => vec!["hexBinary"],
        "boolean" => vec!["boolean"],
        "int" => vec!["int"],
        "float" => vec!["float"],
        "decimal" => vec!["decimal"],
        _ => vec![],
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Fault {
    /// variant of the error
    pub kind: &'static str,
    /// fields the error has to carry
    pub fields: Vec<(&'static str, V)>,
    /// acceptable values of the type name
    pub types: Vec<&'static str>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tri {
    Yes,
    No,
    Unknown,
}

#[derive(Default)]
pub struct Reading {
    pub faults: Vec<Fault>,
    /// facts the result depends on, but that were not looked at
    pub open: Vec<String>,
    /// how the value of an unknown text has to be wrapped
    pub wraps: Vec<(TermId, String)>,
    /// a bounded number of occurrences is exceeded, or a required repetition is absent
    pub lenient: bool,
}

pub struct Reader<'a, 'p, 'i> {
    pub spec: &'a Spec,
    pub d: &'a XDoc,
    pub it: &'i Interp<'p>,
    pub out: Reading,
}

impl Reader<'_, '_, '_> {
    fn str_is(&self, v: &V, w: &V) -> Tri {
        if v == w {
            return Tri::Yes;
        }
        let sub = |x: &V| match x {
            V::Str(p) => V::Str(Rc::new(norm_sp(self.it.subst_lits(p)))),
            o => o.clone(),
        };
        let (a, b) = (sub(v), sub(w));
        if a == b {
            return Tri::Yes;
        }
        if let (Some(_), Some(_)) = (a.as_lit(), b.as_lit()) {
            return Tri::No;
        }
        for (p, q) in [(&a, &b), (v, w)] {
            let (x, y) = if format!("{:?}", p) <= format!("{:?}", q) { (p, q) } else { (q, p) };
            let t = term(TermKind::App("eq".into(), vec![x.clone(), y.clone()]), Ty::adt("bool"));
            if let Some(b) = self.it.st.facts.bools.get(&t) {
                return if *b { Tri::Yes } else { Tri::No };
            }
        }
        let (t, l) = match (a.term(), b.as_lit(), b.term(), a.as_lit()) {
            (Some(t), Some(l), _, _) => (t, l),
            (_, _, Some(t), Some(l)) => (t, l),
            // different unknowns
            _ => return if self.it.generic { Tri::No } else { Tri::Unknown },
        };
        if self.it.st.facts.ne_lit.get(&t).map(|s| s.contains(&*l)).unwrap_or(false) {
            return Tri::No;
        }
        if let Some(x) = self.it.st.facts.eq_lit.get(&t) {
            return if **x == *l { Tri::Yes } else { Tri::No };
        }
        Tri::Unknown
    }

    /// Whether parsing the text succeeded, on this path.
    fn parsed(&self, v: &V, ty: &str) -> Tri {
        let f = format!("parse:{}", ty);
        let is = |t: TermId| match &get_term(t).kind {
            TermKind::App(n, a) => *n == f && a.len() == 1 && a[0] == *v,
            _ => false,
        };
        let facts = &self.it.st.facts;
        for (t, tag) in &facts.tag {
            if is(*t) {
                return if &**tag == "Ok" { Tri::Yes } else { Tri::No };
            }
        }
        for (t, tags) in &facts.not_tag {
            if is(*t) {
                return if tags.contains("Err") { Tri::Yes } else { Tri::No };
            }
        }
        // a printed value
        if let Some(t) = v.term() {
            if let TermKind::App(n, a) = &get_term(t).kind {
                if n == "display" && a.len() == 1 && self.it.ty_of(&a[0]).head() == ty {
                    return Tri::Yes;
                }
            }
        }
        Tri::Unknown
    }

    fn text(&mut self, n: usize) -> Option<V> {
        match self.d.text_of(n) {
            Some(t) => Some(t),
            None => {
                if self.d.elements(n).is_empty() {
                    Some(lit(""))
                } else {
                    self.out.faults.push(Fault {
                        kind: "TextExpected",
                        fields: vec![("name", self.d.nodes[n].name.clone())],
                        types: vec![],
                    });
                    None
                }
            }
        }
    }

    fn fixed(&mut self, v: &V, f: &V) {
        match self.str_is(v, f) {
            Tri::Yes => {}
            Tri::No => self.out.faults.push(Fault {
                kind: "FixedMismatch",
                fields: vec![("expected", f.clone()), ("received", v.clone())],
                types: vec![],
            }),
            Tri::Unknown => self.out.open.push(format!("whether `{}` is the fixed value `{}`", vs(v), vs(f))),
        }
    }

    /// Reads a text as a simple type. Returns what is to be written for it.
    fn simple(&mut self, v: &V, t: &TRef, named: bool, wrap: &str) -> V {
        match self.spec.def(t) {
            None => v.clone(),
            Some(Res::Fixed(f)) => {
                self.fixed(v, &f);
                f
            }
            Some(Res::Builtin(b)) => {
                if let Some(t) = v.term() {
                    self.out.wraps.push((t, wrap.to_string()));
                }
                match rust_ty(&b) {
                    Some("String") | None => {}
                    Some(r) => {
                        let tag = match known_parse(v, r) {
                            Some(true) => Tri::Yes,
                            Some(false) => Tri::No,
                            None => self.parsed(v, r),
                        };
                        match tag {
                            Tri::Yes => {}
                            Tri::No => self.out.faults.push(Fault {
                                kind: "ParseType",
                                fields: vec![("value", v.clone())],
                                types: if named { vec![] } else { type_names(&b) },
                            }),
                            Tri::Unknown => self.out.open.push(format!("whether `{}` can be parsed as {}", vs(v), r)),
                        }
                    }
                }
                v.clone()
            }
            Some(Res::Def(Def::Simple { base, enums })) => {
                if enums.is_empty() {
                    return self.simple(v, &base, true, wrap);
                }
                let mut any = Tri::No;
                for e in &enums {
                    match self.str_is(v, e) {
                        Tri::Yes => return e.clone(),
                        Tri::Unknown if any == Tri::No => any = Tri::Unknown,
                        _ => {}
                    }
                }
                match any {
                    Tri::Yes => {}
                    Tri::No => self.out.faults.push(Fault {
                        kind: "InvalidVariant",
                        fields: vec![("name", v.clone())],
                        types: vec![],
                    }),
                    Tri::Unknown => self.out.open.push(format!("whether `{}` is one of the enumeration values", vs(v))),
                }
                v.clone()
            }
            Some(Res::Def(Def::Complex(_))) => v.clone(),
        }
    }

    /// Reads the element `n` as `e`. Returns what is to be written for it.
    pub fn element(&mut self, n: usize, e: &El, wrap: &str) -> WNode {
        let mut w = WNode {
            ns: e.name.0.clone(),
            name: e.name.1.clone(),
            attrs: vec![],
            kids: vec![],
            site: None,
        };
        if let Some(f) = &e.fixed {
            if let Some(t) = self.text(n) {
                self.fixed(&t, f);
            }
            self.put_text(&mut w, f.clone());
            return w;
        }
        match self.spec.def(&e.ty) {
            None => {}
            Some(Res::Fixed(f)) => {
                if let Some(t) = self.text(n) {
                    self.fixed(&t, &f);
                }
                self.put_text(&mut w, f);
            }
            Some(Res::Builtin(_)) | Some(Res::Def(Def::Simple { .. })) => {
                if let Some(t) = self.text(n) {
                    let o = self.simple(&t, &e.ty, false, wrap);
                    self.put_text(&mut w, o);
                }
            }
            Some(Res::Def(Def::Complex(c))) => {
                let (attrs, text, groups) = self.spec.flatten(&c);
                for a in &attrs {
                    let v = self.d.nodes[n].attrs.iter().find(|x| x.ns.is_none() && x.name == a.name).map(|x| x.value.clone());
                    match v {
                        Some(v) => {
                            let wr = if a.required { wrap.to_string() } else { format!("{}O", wrap) };
                            let o = match &a.fixed {
                                Some(f) => {
                                    self.fixed(&v, f);
                                    f.clone()
                                }
                                None => self.simple(&v, &a.ty, false, &wr),
                            };
                            w.attrs.push((None, a.name.clone(), o));
                        }
                        None => {
                            if a.required {
                                self.out.faults.push(Fault {
                                    kind: "MissingAttribute",
                                    fields: vec![("name", a.name.clone())],
                                    types: vec![],
                                });
                            }
                        }
                    }
                }
                if let Some(t) = &text {
                    if let Some(v) = self.text(n) {
                        let o = self.simple(&v, t, false, wrap);
                        self.put_text(&mut w, o);
                    }
                }
                let mut left = self.d.elements(n);
                for g in &groups {
                    self.occurrences(&mut left, g, wrap, &mut w);
                }
            }
        }
        w
    }

    fn put_text(&self, w: &mut WNode, v: V) {
        let v = match &v {
            V::Str(p) => V::Str(Rc::new(norm_sp(self.it.subst_lits(p)))),
            o => o.clone(),
        };
        if v != lit("") {
            w.kids.push(WKid::Text(v));
        }
    }

    fn is(&self, n: usize, e: &El) -> bool {
        let x = &self.d.nodes[n];
        // an undeclared default namespace is none
        x.ns.clone().filter(|n| *n != lit("")) == e.name.0 && x.name == e.name.1
    }

    /// Whether the element can begin the group.
    pub fn starts(&self, n: Option<usize>, g: &Group) -> bool {
        let n = match n {
            Some(n) => n,
            None => return false,
        };
        for p in &g.items {
            let (yes, req) = match p {
                Part::El(e) => (self.is(n, e), e.min > 0),
                Part::Group(g) => (self.starts(Some(n), g), g.min > 0),
            };
            if yes {
                return true;
            }
            if g.kind == Kind::Seq && req {
                return false;
            }
        }
        false
    }

    fn occurrences(&mut self, left: &mut Vec<usize>, g: &Group, wrap: &str, w: &mut WNode) {
        let mut wr = wrap.to_string();
        if g.min == 0 {
            wr.push('O');
        }
        if many(g.max) {
            wr.push('V');
            let mut k = 0;
            while self.starts(left.first().copied(), g) {
                let before = left.len();
                self.group(left, g, &wr, w);
                k += 1;
                if left.len() == before {
                    break;
                }
            }
            if k < g.min || g.max.map(|m| k > m).unwrap_or(false) {
                self.out.lenient = true;
            }
        } else if g.min == 0 {
            if self.starts(left.first().copied(), g) {
                self.group(left, g, &wr, w);
            }
        } else {
            self.group(left, g, &wr, w);
        }
    }

    fn missing(&mut self, e: &El) {
        self.out.faults.push(Fault {
            kind: "MissingElement",
            fields: vec![
                ("name", e.name.1.clone()),
                (
                    "namespace",
                    match &e.name.0 {
                        Some(n) => V::some(n.clone()),
                        None => V::none(),
                    },
                ),
            ],
            types: vec![],
        });
    }

    /// One occurrence of the group.
    fn group(&mut self, left: &mut Vec<usize>, g: &Group, wrap: &str, w: &mut WNode) {
        match g.kind {
            Kind::Seq => {
                for p in &g.items {
                    match p {
                        Part::Group(g) => self.occurrences(left, g, wrap, w),
                        Part::El(e) => self.el_occurrences(left, e, wrap, w, false),
                    }
                }
            }
            Kind::All => {
                for p in &g.items {
                    if let Part::El(e) = p {
                        self.el_occurrences(left, e, wrap, w, true)
                    }
                }
            }
            Kind::Choice => {
                for p in &g.items {
                    match p {
                        Part::El(e) => {
                            if left.first().map(|n| self.is(*n, e)).unwrap_or(false) {
                                let mut e2 = e.clone();
                                e2.min = 1;
                                self.el_occurrences(left, &e2, wrap, w, false);
                                return;
                            }
                        }
                        Part::Group(g) => {
                            if self.starts(left.first().copied(), g) {
                                let mut g2 = g.clone();
                                g2.min = 1;
                                self.occurrences(left, &g2, wrap, w);
                                return;
                            }
                        }
                    }
                }
                self.out.faults.push(Fault {
                    kind: "MissingVariant",
                    fields: vec![],
                    types: vec![],
                });
            }
        }
    }

    fn el_occurrences(&mut self, left: &mut Vec<usize>, e: &El, wrap: &str, w: &mut WNode, any: bool) {
        let mut wr = wrap.to_string();
        if e.min == 0 {
            wr.push('O');
        }
        if many(e.max) {
            wr.push('V');
        }
        let mut k = 0;
        loop {
            let i = if any {
                left.iter().position(|n| self.is(*n, e))
            } else {
                left.first().filter(|n| self.is(**n, e)).map(|_| 0)
            };
            let i = match i {
                Some(i) => i,
                None => break,
            };
            let n = left.remove(i);
            let c = self.element(n, e, &wr);
            w.kids.push(WKid::El(c));
            k += 1;
            if !many(e.max) {
                break;
            }
        }
        if !many(e.max) && e.min > 0 && k == 0 {
            self.missing(e);
        }
        if many(e.max) && (k < e.min || e.max.map(|m| k > m).unwrap_or(false)) {
            self.out.lenient = true;
        }
    }

    /// Reads the document as `e`.
    pub fn document(&mut self, e: &El) -> Option<WNode> {
        let r = self.d.root_element();
        if !self.is(r, e) {
            self.missing(e);
            return None;
        }
        Some(self.element(r, e, ""))
    }
}

/// Whether a known text is one of the Rust type.
pub fn known_parse(v: &V, ty: &str) -> Option<bool> {
    let s = v.as_lit()?;
    Some(match ty {
        "bool" => matches!(s.as_str(), "true" | "false"),
        "i32" => s.parse::<i32>().is_ok(),
        "i64" => s.parse::<i64>().is_ok(),
        "u64" => s.parse::<u64>().is_ok(),
        t if t.ends_with("Decimal") => return known_decimal(&s),
        _ => return None,
    })
}

/// Whether a literal is a decimal number, where that is beyond doubt.
pub fn known_decimal(k: &str) -> Option<bool> {
    if k.len() >= 20 {
        return None;
    }
    let n = k.strip_prefix(['+', '-']).unwrap_or(k);
    let digits = |x: &str| !x.is_empty() && x.chars().all(|c| c.is_ascii_digit());
    let ok = match n.split_once('.') {
        Some((a, b)) => digits(a) && digits(b),
        None => digits(n),
    };
    if ok {
        return Some(true);
    }
    if n.is_empty() || n.chars().any(|c| !c.is_ascii_digit() && !matches!(c, '.' | '_' | 'e' | 'E')) {
        return Some(false);
    }
    None
}
