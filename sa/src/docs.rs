//! Instance documents of a declaration: valid ones, and ones with a single defect.
use crate::spec::*;
use crate::val::*;
use crate::xmlt::*;

pub struct Maker<'a> {
    pub spec: &'a Spec,
    max: bool,
    over: Vec<(usize, usize)>,
    at: usize,
    pub arity: Vec<usize>,
    texts: usize,
    depth: usize,
}

impl<'a> Maker<'a> {
    fn pick(&mut self, n: usize) -> usize {
        let i = self.at;
        self.at += 1;
        self.arity.push(n);
        if let Some(o) = self.over.iter().find(|o| o.0 == i) {
            return o.1.min(n - 1);
        }
        if self.max {
            n - 1
        } else {
            0
        }
    }

    fn text(&mut self) -> V {
        self.texts += 1;
        value(&format!("$t{}", self.texts))
    }

    fn value_of(&mut self, t: &TRef, fixed: &Option<V>) -> V {
        if let Some(f) = fixed {
            return if f.as_lit().is_some() {
                self.text()
            } else if self.pick(2) == 0 {
                f.clone()
            } else {
                self.text()
            };
        }
        match self.spec.def(t) {
            Some(Res::Fixed(f)) => self.value_of(t, &Some(f)),
            Some(Res::Def(Def::Simple { base, enums })) => {
                if enums.is_empty() {
                    self.value_of(&base, &None)
                } else if enums.iter().all(|e| e.as_lit().is_some()) {
                    self.text()
                } else {
                    let k = self.pick(enums.len() + 1);
                    match enums.get(k) {
                        Some(e) => e.clone(),
                        None => self.text(),
                    }
                }
            }
            _ => self.text(),
        }
    }

    pub fn element(&mut self, e: &El) -> WNode {
        let mut w = WNode {
            ns: e.name.0.clone(),
            name: e.name.1.clone(),
            attrs: vec![],
            kids: vec![],
            site: None,
        };
        self.depth += 1;
        match self.spec.def(&e.ty) {
            Some(Res::Def(Def::Complex(c))) if e.fixed.is_none() => {
                let (attrs, text, groups) = self.spec.flatten(&c);
                for a in &attrs {
                    if a.required || self.pick(2) == 1 {
                        let v = self.value_of(&a.ty, &a.fixed);
                        w.attrs.push((None, a.name.clone(), v));
                    }
                }
                if let Some(t) = &text {
                    let v = self.value_of(t, &None);
                    w.kids.push(WKid::Text(v));
                }
                for g in &groups {
                    self.group(g, &mut w);
                }
            }
            _ => {
                let v = self.value_of(&e.ty, &e.fixed);
                w.kids.push(WKid::Text(v));
            }
        }
        self.depth -= 1;
        w
    }

    fn count(&mut self, min: u32, max: Option<u32>) -> usize {
        if self.depth > 6 {
            return min as usize;
        }
        // more than those makes no difference
        let min = if min > 4 { 2 } else { min };
        let hi = max.unwrap_or(2).min(if min > 2 { min } else { 2 });
        let lo = min.min(hi);
        let mut o: Vec<u32> = (lo..=hi).collect();
        if o.is_empty() {
            o.push(lo);
        }
        if o.len() == 1 {
            return o[0] as usize;
        }
        let k = self.pick(o.len());
        o[k] as usize
    }

    fn group(&mut self, g: &Group, w: &mut WNode) {
        for _ in 0..self.count(g.min, g.max) {
            match g.kind {
                Kind::Choice => {
                    if g.items.is_empty() {
                        continue;
                    }
                    let k = self.pick(g.items.len());
                    self.part(&g.items[k], w, true);
                }
                _ => {
                    for p in &g.items {
                        self.part(p, w, false);
                    }
                }
            }
        }
    }

    fn part(&mut self, p: &Part, w: &mut WNode, in_choice: bool) {
        match p {
            Part::Group(g) => {
                let mut g = g.clone();
                if in_choice {
                    g.min = g.min.max(1);
                }
                self.group(&g, w)
            }
            Part::El(e) => {
                let min = if in_choice { e.min.max(1) } else { e.min };
                for _ in 0..self.count(min, e.max) {
                    let c = self.element(e);
                    w.kids.push(WKid::El(c));
                }
            }
        }
    }
}

/// Valid documents: everything present, everything absent, and every single decision changed.
pub fn valid(spec: &Spec, e: &El, pairs: bool) -> Vec<(String, WNode)> {
    let mut out: Vec<(String, WNode)> = vec![];
    let mut mk = |max: bool, over: Vec<(usize, usize)>, out: &mut Vec<(String, WNode)>| -> Vec<usize> {
        let mut m = Maker {
            spec,
            max,
            over: over.clone(),
            at: 0,
            arity: vec![],
            texts: 0,
            depth: 0,
        };
        let w = m.element(e);
        let label = format!(
            "{}{}",
            if max { "full" } else { "minimal" },
            over.iter().map(|(a, b)| format!("[{}={}]", a, b)).collect::<String>()
        );
        if !out.iter().any(|o| o.1 == w) {
            out.push((label, w));
        }
        m.arity
    };
    for max in [true, false] {
        let ar = mk(max, vec![], &mut out);
        for (i, n) in ar.iter().enumerate() {
            for k in 0..*n {
                let ar2 = mk(max, vec![(i, k)], &mut out);
                if pairs {
                    for (j, m) in ar2.iter().enumerate().skip(i + 1) {
                        for l in 0..*m {
                            if out.len() < 400 {
                                mk(max, vec![(i, k), (j, l)], &mut out);
                            }
                        }
                    }
                }
            }
        }
    }
    out
}

fn visit(w: &WNode, path: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
    out.push(path.clone());
    for (i, k) in w.kids.iter().enumerate() {
        if let WKid::El(e) = k {
            path.push(i);
            visit(e, path, out);
            path.pop();
        }
    }
}

fn at<'a>(w: &'a mut WNode, path: &[usize]) -> &'a mut WNode {
    let mut cur = w;
    for i in path {
        cur = match &mut cur.kids[*i] {
            WKid::El(e) => e,
            _ => unreachable!(),
        };
    }
    cur
}

/// Other texts in the same places.
fn fresh(w: &mut WNode) {
    let again = |v: &V| match v {
        V::Str(p) => V::str_parts(
            p.iter()
                .map(|x| match x {
                    SP::Term(t) => match &get_term(*t).kind {
                        TermKind::Var(n) => match value(&format!("{}again", n)).term() {
                            Some(t) => SP::Term(t),
                            None => x.clone(),
                        },
                        _ => x.clone(),
                    },
                    o => o.clone(),
                })
                .collect(),
        ),
        o => o.clone(),
    };
    for a in &mut w.attrs {
        a.2 = again(&a.2);
    }
    for k in &mut w.kids {
        match k {
            WKid::El(e) => fresh(e),
            WKid::Text(t) => *t = again(t),
        }
    }
}

fn other() -> WNode {
    WNode {
        ns: None,
        name: lit("another-element"),
        attrs: vec![],
        kids: vec![WKid::Text(value("$other"))],
        site: None,
    }
}

/// Namespaces that are not the given one, but look alike.
fn alike(ns: &str) -> Vec<String> {
    let mut out = vec![
        match ns.strip_suffix('/') {
            Some(x) => x.to_string(),
            None => format!("{}/", ns),
        },
        format!("{}#", ns),
        format!(" {}", ns),
    ];
    for x in [ns.to_lowercase(), ns.to_uppercase()] {
        if x != ns {
            out.push(x);
        }
    }
    out
}

/// Documents that differ from the given one in one place.
pub fn mutants(w: &WNode) -> Vec<(String, XDoc)> {
    let mut paths = vec![];
    visit(w, &mut vec![], &mut paths);
    let mut out: Vec<(String, XDoc)> = vec![];
    let mut put = |label: String, m: WNode| {
        let d = XDoc::from_wnode(&label, &m);
        out.push((label, d));
    };
    for p in &paths {
        let node = at(&mut w.clone(), p).clone();
        let nm = vs(&node.name);
        let els: Vec<usize> = node.kids.iter().enumerate().filter(|k| matches!(k.1, WKid::El(_))).map(|k| k.0).collect();
        for (x, i) in els.iter().enumerate() {
            let cn = match &node.kids[*i] {
                WKid::El(e) => vs(&e.name),
                _ => continue,
            };
            let mut m = w.clone();
            at(&mut m, p).kids.remove(*i);
            put(format!("without <{}> #{} of <{}>", cn, x, nm), m);
            if let Some(j) = els.get(x + 1) {
                let mut m = w.clone();
                at(&mut m, p).kids.swap(*i, *j);
                put(format!("<{}> #{} of <{}> after its successor", cn, x, nm), m);
            }
            if els.len() > 2 && x + 1 < els.len() {
                let mut m = w.clone();
                let k = at(&mut m, p).kids.remove(*i);
                at(&mut m, p).kids.push(k);
                put(format!("<{}> #{} of <{}> last", cn, x, nm), m);
            }
            let mut m = w.clone();
            let mut k = at(&mut m, p).kids[*i].clone();
            if let WKid::El(e) = &mut k {
                fresh(e);
            }
            at(&mut m, p).kids.insert(*i, k);
            put(format!("<{}> #{} of <{}> twice", cn, x, nm), m);
            let mut m = w.clone();
            if let WKid::El(e) = &mut at(&mut m, p).kids[*i] {
                e.name = lit("another-element");
            }
            put(format!("<{}> #{} of <{}> renamed", cn, x, nm), m);
            let mut m = w.clone();
            if let WKid::El(e) = &mut at(&mut m, p).kids[*i] {
                e.ns = match &e.ns {
                    Some(_) => None,
                    None => Some(lit("urn:another")),
                };
            }
            put(format!("<{}> #{} of <{}> in another namespace", cn, x, nm), m);
            let mut m = w.clone();
            if let WKid::El(e) = &mut at(&mut m, p).kids[*i] {
                if e.ns.is_some() {
                    e.ns = Some(lit("urn:another"));
                    put(format!("<{}> #{} of <{}> in yet another namespace", cn, x, nm), m);
                }
            }
            let mut m = w.clone();
            at(&mut m, p).kids.insert(*i, WKid::El(other()));
            put(format!("an unknown element before <{}> #{} of <{}>", cn, x, nm), m);
        }
        let mut m = w.clone();
        at(&mut m, p).kids.push(WKid::El(other()));
        put(format!("an unknown element at the end of <{}>", nm), m);
        for i in 0..node.attrs.len() {
            let an = vs(&node.attrs[i].1);
            let mut m = w.clone();
            at(&mut m, p).attrs.remove(i);
            put(format!("without attribute {} of <{}>", an, nm), m);
            let mut m = w.clone();
            at(&mut m, p).attrs[i].0 = Some(lit("urn:another"));
            put(format!("attribute {} of <{}> in another namespace", an, nm), m);
            let mut m = w.clone();
            let mut a = at(&mut m, p).attrs[i].clone();
            a.0 = Some(lit("urn:another"));
            a.2 = value("$foreign");
            at(&mut m, p).attrs.insert(0, a);
            put(format!("attribute {} of <{}> also in another namespace", an, nm), m);
        }
        let mut m = w.clone();
        at(&mut m, p).attrs.push((None, lit("another-attribute"), value("$other")));
        put(format!("an unknown attribute on <{}>", nm), m);
        if els.is_empty() {
            let mut m = w.clone();
            at(&mut m, p).kids = vec![];
            put(format!("<{}> empty", nm), m);
            let mut m = w.clone();
            at(&mut m, p).kids = vec![WKid::El(other())];
            put(format!("<{}> with an element instead of text", nm), m);
        }
    }
    let mut m = w.clone();
    m.name = lit("another-element");
    put("another document element".into(), m);
    let mut m = w.clone();
    m.ns = match &m.ns {
        Some(_) => None,
        None => Some(lit("urn:another")),
    };
    put("document element in another namespace".into(), m);
    if w.ns.is_some() {
        let mut m = w.clone();
        m.ns = Some(lit("urn:another"));
        put("document element in yet another namespace".into(), m);
    }
    for ns in w.ns.iter().filter_map(|ns| ns.as_lit()).flat_map(|ns| alike(&ns)) {
        let mut m = w.clone();
        m.ns = Some(lit(&ns));
        put(format!("document element in the namespace {}", ns), m);
    }
    // inside of another document
    let mut m = other();
    m.kids = vec![WKid::El(w.clone())];
    put("document inside of another one".into(), m);
    // no namespace, in the form of an undeclared default namespace
    let mut m = w.clone();
    if undeclare(&mut m) {
        put("with an undeclared default namespace".into(), m);
    }
    // comments, processing instructions and white space everywhere; text in several pieces
    let mut d = XDoc::from_wnode("with comments", w);
    let n = d.nodes.len();
    let texts = d.nodes.iter().filter(|x| x.kind == XKind::Text).count();
    for i in 1..n {
        if d.nodes[i].kind != XKind::Element {
            continue;
        }
        let kids = d.nodes[i].children.clone();
        let has_el = kids.iter().any(|k| d.nodes[*k].kind == XKind::Element);
        d.nodes[i].children.clear();
        let extra = |d: &mut XDoc| {
            d.add(i, XKind::Comment);
            d.add(i, XKind::Pi);
            if has_el {
                let t = d.add(i, XKind::Text);
                d.nodes[t].text = lit("\n  ");
            }
        };
        extra(&mut d);
        for k in kids {
            d.nodes[i].children.push(k);
            if d.nodes[k].kind == XKind::Text {
                // a single text in four pieces, several ones in two
                for piece in if texts == 1 { &["tail", "more", "rest"][..] } else { &["tail"] } {
                    d.add(i, if *piece == "more" { XKind::Pi } else { XKind::Comment });
                    let t = d.add(i, XKind::Text);
                    d.nodes[t].text = value(&format!("${}{}", piece, k));
                }
            }
            extra(&mut d);
        }
    }
    out.push(("with comments, processing instructions and white space".into(), d));
    out
}

fn undeclare(w: &mut WNode) -> bool {
    let mut any = w.ns.is_none();
    if any {
        w.ns = Some(lit(""));
    }
    for k in &mut w.kids {
        if let WKid::El(e) = k {
            any |= undeclare(e);
        }
    }
    any
}
