//! Models of the XML reader (roxmltree) and writer (xml) the code builds on.
use crate::interp::*;
use crate::load::Ty;
use crate::stdm::opt_v;
use crate::val::*;
use crate::xmlt::*;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;

#[derive(Default)]
pub struct Model {
    pub docs: RefCell<Vec<XDoc>>,
    /// content of files: path -> document, or none if it cannot be read
    pub files: RefCell<BTreeMap<String, V>>,
    pub lens: Vec<usize>,
    /// files that are read are recorded, unknown ones cannot be opened
    pub with_files: bool,
}

const POS: i128 = 1_000_000;

impl Model {
    pub fn new() -> Model {
        Model {
            lens: vec![0, 1, 2],
            ..Default::default()
        }
    }

    pub fn add(&self, d: XDoc) -> V {
        let mut docs = self.docs.borrow_mut();
        docs.push(d);
        V::var(&format!("doc:{}", docs.len() - 1), Ty::adt("String"))
    }

    fn node(&self, d: usize, n: usize) -> V {
        V::Obj(Rc::new(Obj {
            kind: "roxmltree::Node".into(),
            id: n,
            data: vec![V::Int(d as i128)],
        }))
    }

    fn obj(&self, kind: &str, id: usize, data: Vec<V>) -> V {
        V::Obj(Rc::new(Obj {
            kind: kind.into(),
            id,
            data,
        }))
    }

    fn children(&self, it: &mut Interp, d: usize, n: usize) -> Vec<usize> {
        let list: Vec<(usize, Option<TermId>)> = {
            let docs = self.docs.borrow();
            docs[d].nodes[n].children.iter().map(|c| (*c, docs[d].nodes[*c].cond)).collect()
        };
        list.into_iter()
            .filter(|(_, c)| match c {
                Some(t) => it.decide(*t),
                None => true,
            })
            .map(|x| x.0)
            .collect()
    }

    fn attrs(&self, it: &mut Interp, d: usize, n: usize) -> Vec<(usize, XAttr)> {
        let list: Vec<(usize, XAttr)> = self.docs.borrow()[d].nodes[n].attrs.iter().cloned().enumerate().collect();
        list.into_iter()
            .filter(|(_, a)| match a.cond {
                Some(t) => it.decide(t),
                None => true,
            })
            .collect()
    }

    fn list(&self, v: Vec<V>) -> V {
        let n = v.len();
        V::Iter(Rc::new(IterV::List(Rc::new(v), 0, n)))
    }

    pub fn node_pos(d: usize, n: usize) -> i128 {
        d as i128 * POS * 100 + n as i128 * 1000
    }

    pub fn attr_pos(d: usize, n: usize, a: usize) -> i128 {
        Self::node_pos(d, n) + a as i128 + 1
    }

    fn range(a: i128) -> V {
        V::Range(Rc::new((Some(V::Int(a)), Some(V::Int(a + 500)), false)))
    }

    fn tree_method(&self, it: &mut Interp, d: usize, n: usize, name: &str, args: &[V], site: &Site) -> R<V> {
        let x = self.docs.borrow()[d].nodes[n].clone();
        let a = |i: usize| args.get(i).cloned().unwrap_or(V::Unit);
        let el = x.kind == XKind::Element;
        Ok(match name {
            "tag_name" => self.obj("roxmltree::ExpandedName", n, vec![V::Int(d as i128), x.name.clone(), opt_v(x.ns.clone())]),
            "has_tag_name" => {
                if !el {
                    return Ok(V::Bool(false));
                }
                let v = it.rv(a(0))?;
                match &v {
                    V::Tuple(t) => {
                        let ns = it.rv(t[0].clone())?;
                        let b = match &x.ns {
                            Some(u) => it.eq(u, &ns, site)?,
                            None => false,
                        };
                        V::Bool(b && it.eq(&t[1], &x.name, site)?)
                    }
                    // without a namespace only the name is compared
                    v => V::Bool(it.eq(v, &x.name, site)?),
                }
            }
            "is_element" => V::Bool(el),
            "is_text" => V::Bool(x.kind == XKind::Text),
            "is_comment" => V::Bool(x.kind == XKind::Comment),
            "is_pi" => V::Bool(x.kind == XKind::Pi),
            "is_root" => V::Bool(x.kind == XKind::Root),
            "node_type" => V::en(
                "roxmltree::NodeType",
                match x.kind {
                    XKind::Root => "Root",
                    XKind::Element => "Element",
                    XKind::Text => "Text",
                    XKind::Comment => "Comment",
                    XKind::Pi => "PI",
                },
                vec![],
            ),
            "attribute" | "has_attribute" | "attribute_node" => {
                let key = it.rv(a(0))?;
                let (ns, key) = match &key {
                    V::Tuple(t) => (Some(it.rv(t[0].clone())?), it.rv(t[1].clone())?),
                    _ => (None, key),
                };
                let mut found = None;
                for (i, at) in self.attrs(it, d, n) {
                    let ns_ok = match (&ns, &at.ns) {
                        (None, None) => true,
                        (Some(p), Some(q)) => it.eq(p, q, site)?,
                        _ => false,
                    };
                    if ns_ok && it.eq(&at.name, &key, site)? {
                        found = Some((i, at));
                        break;
                    }
                }
                match name {
                    "attribute" => opt_v(found.map(|f| f.1.value)),
                    "has_attribute" => V::Bool(found.is_some()),
                    _ => opt_v(found.map(|f| self.obj("roxmltree::Attribute", f.0, vec![V::Int(d as i128), V::Int(n as i128)]))),
                }
            }
            "attributes" => {
                let l = self.attrs(it, d, n);
                self.list(l.iter().map(|(i, _)| self.obj("roxmltree::Attribute", *i, vec![V::Int(d as i128), V::Int(n as i128)])).collect())
            }
            "namespaces" => {
                let s = self.docs.borrow()[d].scope(n);
                self.list(
                    s.into_iter()
                        .enumerate()
                        .map(|(i, (p, u))| self.obj("roxmltree::Namespace", i, vec![opt_v(p), u]))
                        .collect(),
                )
            }
            "default_namespace" => {
                let s = self.docs.borrow()[d].scope(n);
                opt_v(s.into_iter().find(|x| x.0.is_none()).map(|x| x.1))
            }
            "lookup_namespace_uri" => {
                let p = it.rv(a(0))?;
                let p = it.opt(p, site)?;
                let s = self.docs.borrow()[d].scope(n);
                for (q, u) in s {
                    let m = match (&p, &q) {
                        (None, None) => true,
                        (Some(p), Some(q)) => it.eq(p, q, site)?,
                        _ => false,
                    };
                    if m {
                        return Ok(V::some(u));
                    }
                }
                V::none()
            }
            "lookup_prefix" => {
                let u = it.rv(a(0))?;
                let s = self.docs.borrow()[d].scope(n);
                for (q, w) in s {
                    if it.eq(&u, &w, site)? {
                        return Ok(opt_v(q));
                    }
                }
                V::none()
            }
            "children" => {
                let c = self.children(it, d, n);
                self.list(c.into_iter().map(|c| self.node(d, c)).collect())
            }
            "has_children" => V::Bool(!self.children(it, d, n).is_empty()),
            "first_child" | "last_child" | "first_element_child" | "last_element_child" => {
                let mut c = self.children(it, d, n);
                if name.contains("element") {
                    c.retain(|c| self.docs.borrow()[d].nodes[*c].kind == XKind::Element);
                }
                let r = if name.starts_with("first") { c.first() } else { c.last() };
                opt_v(r.map(|c| self.node(d, *c)))
            }
            "parent" | "parent_element" => match x.parent {
                Some(p) if name == "parent" || self.docs.borrow()[d].nodes[p].kind == XKind::Element => V::some(self.node(d, p)),
                _ => V::none(),
            },
            "next_sibling" | "prev_sibling" | "next_sibling_element" | "prev_sibling_element" | "next_siblings" | "prev_siblings" => {
                let Some(p) = x.parent else { return Ok(V::none()) };
                let c = self.children(it, d, p);
                let Some(i) = c.iter().position(|y| *y == n) else { return Ok(V::none()) };
                let mut l: Vec<usize> = if name.starts_with("next") {
                    c[i + if name.ends_with('s') { 0 } else { 1 }..].to_vec()
                } else {
                    let mut l = c[..if name.ends_with('s') { i + 1 } else { i }].to_vec();
                    l.reverse();
                    l
                };
                if name.ends_with("element") {
                    l.retain(|c| self.docs.borrow()[d].nodes[*c].kind == XKind::Element);
                }
                if name.ends_with('s') {
                    self.list(l.into_iter().map(|c| self.node(d, c)).collect())
                } else {
                    opt_v(l.first().map(|c| self.node(d, *c)))
                }
            }
            "descendants" => {
                let mut out = vec![];
                let mut todo = vec![n];
                while let Some(k) = todo.pop() {
                    out.push(self.node(d, k));
                    let mut c = self.children(it, d, k);
                    c.reverse();
                    todo.extend(c);
                }
                self.list(out)
            }
            "text" => match x.kind {
                XKind::Text | XKind::Comment => V::some(x.text.clone()),
                XKind::Element => {
                    let c = self.children(it, d, n);
                    match c.first() {
                        Some(c) if self.docs.borrow()[d].nodes[*c].kind == XKind::Text => V::some(self.docs.borrow()[d].nodes[*c].text.clone()),
                        _ => V::none(),
                    }
                }
                _ => V::none(),
            },
            "tail" => V::none(),
            "range" => Self::range(Self::node_pos(d, n)),
            "id" => V::Int(n as i128),
            "document" => self.obj("roxmltree::Document", d, vec![]),
            "root" => self.node(d, 0),
            "root_element" => {
                let r = self.docs.borrow()[d].root_element();
                self.node(d, r)
            }
            "clone" | "to_owned" | "as_ref" | "borrow" | "copied" => self.node(d, n),
            "eq" | "ne" => {
                let o = it.rv(a(0))?;
                V::Bool((o == self.node(d, n)) == (name == "eq"))
            }
            "into" | "clone" | "to_owned" | "borrow" | "as_ref" => return Ok(self.node(d, n)),
            _ => return it.unsup(format!("roxmltree node method {}", name), site),
        })
    }

    fn xml_event(&self, v: &V) -> V {
        match v {
            V::Str(_) => V::en("XmlEvent", "Characters", vec![v.clone()]),
            V::Enum(_) => v.clone(),
            o => o.clone(),
        }
    }
}

fn last2(p: &str) -> (&str, &str) {
    let mut s = p.rsplitn(3, "::");
    let b = s.next().unwrap_or("");
    let a = s.next().unwrap_or("");
    (a, b)
}

impl Hooks for Model {
    fn call(&self, it: &mut Interp, path: &str, args: &[V], site: &Site) -> Option<R<V>> {
        let a = |i: usize| args.get(i).cloned().unwrap_or(V::Unit);
        let (ty, name) = last2(path);
        if let Some(c) = path.strip_prefix("#const:") {
            return match crate::load::last(c) {
                "NS_NO_PREFIX" | "NS_EMPTY_URI" => Some(Ok(lit(""))),
                "NS_XML_PREFIX" => Some(Ok(lit("xml"))),
                "NS_XMLNS_PREFIX" => Some(Ok(lit("xmlns"))),
                "NS_XML_URI" => Some(Ok(lit("http://www.w3.org/XML/1998/namespace"))),
                "NS_XMLNS_URI" => Some(Ok(lit("http://www.w3.org/2000/xmlns/"))),
                _ => None,
            };
        }
        if path.contains("roxmltree::Document::parse") || (ty == "Document" && name.starts_with("parse") && path.contains("roxmltree")) {
            let s = match it.rv(a(0)) {
                Ok(s) => s,
                Err(e) => return Some(Err(e)),
            };
            if let Some(t) = s.term() {
                if let TermKind::Var(n) = &get_term(t).kind {
                    if let Some(i) = n.strip_prefix("doc:").and_then(|x| x.parse::<usize>().ok()) {
                        if self.docs.borrow()[i].malformed {
                            return Some(Ok(V::err(self.obj("roxmltree::Error", i, vec![]))));
                        }
                        return Some(Ok(V::ok(self.obj("roxmltree::Document", i, vec![]))));
                    }
                }
            }
            return Some(it.unsup(format!("parse of unknown document {:?}", s), site));
        }
        if self.with_files && name == "read_to_string" && ty != "io" {
            let p = match it.rv(a(0)) {
                Ok(s) => s,
                Err(e) => return Some(Err(e)),
            };
            it.event("read", vec![p.clone()], site);
            if let Some(k) = p.as_lit() {
                let k = crate::stdm::path_norm(&k);
                let f = self.files.borrow().get(&k).cloned();
                return Some(Ok(match f {
                    Some(v) => V::ok(v),
                    None => V::err(self.obj("io::Error", 0, vec![lit(&k)])),
                }));
            }
            // a file that is not known of
            return Some(Ok(V::err(self.obj("io::Error", 0, vec![p.clone()]))));
        }
        if path == "#canonicalize" && self.with_files {
            let k = crate::stdm::path_norm(&a(0).as_lit().unwrap_or_default());
            return Some(Ok(if self.files.borrow().contains_key(&k) {
                V::ok(lit(&k))
            } else {
                V::err(self.obj("io::Error", 0, vec![lit(&k)]))
            }));
        }
        // ---- writer
        match (ty, name) {
            ("EmitterConfig", "new" | "default") => {
                let c = it.alloc(V::seq(vec![]));
                return Some(Ok(self.obj("xml::EmitterConfig", c, vec![])));
            }
            ("EventWriter", "new") => {
                it.event("xml-new", vec![], site);
                return Some(Ok(self.obj("xml::EventWriter", 0, vec![])));
            }
            ("EventWriter", "new_with_config") => {
                it.event("xml-new", vec![], site);
                return Some(Ok(self.obj("xml::EventWriter", 0, vec![])));
            }
            ("Namespace", "empty") => return Some(Ok(empty_map("BTreeMap"))),
            ("Attribute", "new") if path.contains("attribute") || path.starts_with("xml") => {
                return Some(Ok(V::st("xml::attribute::Attribute", vec![("name", a(0)), ("value", a(1))])))
            }
            ("Name", "local") if !path.contains("ast") => return Some(Ok(a(0))),
            ("Name", "prefixed") if !path.contains("ast") => {
                let l = it.display(a(0), site);
                let p = it.display(a(1), site);
                return match (l, p) {
                    (Ok(l), Ok(p)) => {
                        let mut x = p;
                        x.push(SP::Lit(":".into()));
                        x.extend(l);
                        Some(Ok(V::str_parts(x)))
                    }
                    (Err(e), _) | (_, Err(e)) => Some(Err(e)),
                };
            }
            ("Name", "from") if path.starts_with("xml") => return Some(it.rv(a(0))),
            ("XmlEvent", "start_element") => {
                return Some(Ok(V::en_named(
                    "XmlEvent",
                    "StartElement",
                    vec![("attributes", V::seq(vec![])), ("name", a(0)), ("namespace", empty_map("BTreeMap"))],
                )))
            }
            ("XmlEvent", "end_element") => return Some(Ok(V::en_named("XmlEvent", "EndElement", vec![("name", V::none())]))),
            ("XmlEvent", "characters") => return Some(it.rv(a(0)).map(|v| V::en("XmlEvent", "Characters", vec![v]))),
            ("XmlEvent", "cdata") => return Some(it.rv(a(0)).map(|v| V::en("XmlEvent", "CData", vec![v]))),
            ("XmlEvent", "comment") => return Some(it.rv(a(0)).map(|v| V::en("XmlEvent", "Comment", vec![v]))),
            ("XmlEvent", "processing_instruction") => return Some(Ok(V::en("XmlEvent", "ProcessingInstruction", args.to_vec()))),
            _ => {}
        }
        None
    }

    fn method(&self, it: &mut Interp, recv: &V, place: &Option<Place>, name: &str, args: &[V], site: &Site) -> Option<R<V>> {
        let a = |i: usize| args.get(i).cloned().unwrap_or(V::Unit);
        if let V::Map(m) = recv {
            // xml::namespace::Namespace
            if (name == "put" || name == "force_put") && args.len() == 2 {
                let r = (|| {
                    let k = it.rv(a(0))?;
                    let v = it.rv(a(1))?;
                    let found = it.map_find(m, &k, site)?;
                    let mut m2 = (**m).clone();
                    let out = match (found, name) {
                        (Some(_), "put") => V::Bool(false),
                        (Some(i), _) => {
                            let old = m2.entries[i].1.clone();
                            m2.entries[i].1 = v;
                            V::some(old)
                        }
                        (None, n) => {
                            m2.entries.push((k, v));
                            if n == "put" {
                                V::Bool(true)
                            } else {
                                V::none()
                            }
                        }
                    };
                    match place {
                        Some(p) => it.store(p, V::Map(Rc::new(m2)))?,
                        None => return it.unsup("put into a temporary", site),
                    }
                    Ok(out)
                })();
                return Some(r);
            }
            return None;
        }
        if let V::Enum(e) = recv {
            // start tag under construction
            if last2(&e.path).1 == "XmlEvent" && &*e.variant == "StartElement" {
                let upd = |n: &str, v: V| {
                    let mut e2 = (**e).clone();
                    for f in e2.fields.iter_mut() {
                        if &*f.0 == n {
                            f.1 = v.clone();
                        }
                    }
                    V::Enum(Rc::new(e2))
                };
                match name {
                    "attr" => {
                        let Some(V::Seq(s)) = recv.field("attributes") else { return None };
                        let mut s = (*s).clone();
                        s.push(V::st("xml::attribute::Attribute", vec![("name", a(0)), ("value", a(1))]));
                        return Some(Ok(upd("attributes", V::seq(s))));
                    }
                    "ns" | "default_ns" => {
                        let Some(V::Map(m)) = recv.field("namespace") else { return None };
                        let mut m = (*m).clone();
                        if name == "ns" {
                            m.entries.push((a(0), a(1)));
                        } else {
                            m.entries.push((lit(""), a(0)));
                        }
                        return Some(Ok(upd("namespace", V::Map(Rc::new(m)))));
                    }
                    "into" => return Some(Ok(recv.clone())),
                    _ => {}
                }
            }
            if last2(&e.path).1 == "XmlEvent" && name == "into" {
                return Some(Ok(recv.clone()));
            }
            return None;
        }
        let V::Obj(o) = recv else {
            if let V::Str(_) = recv {
                // xml::name::Name
                if name == "borrow" || name == "to_repr" || name == "repr_display" {
                    return Some(Ok(recv.clone()));
                }
            }
            return None;
        };
        let int = |v: &V| match v {
            V::Int(i) => *i as usize,
            _ => 0,
        };
        let r = match &*o.kind {
            "roxmltree::Document" => match name {
                "root_element" | "root" | "descendants" => {
                    let n = if name == "root_element" { self.docs.borrow()[o.id].root_element() } else { 0 };
                    if name == "descendants" {
                        return Some(self.tree_method(it, o.id, n, name, args, site));
                    }
                    Ok(self.node(o.id, n))
                }
                "text_pos_at" => {
                    let p = match it.rv(a(0)) {
                        Ok(p) => p,
                        Err(e) => return Some(Err(e)),
                    };
                    Ok(V::st(
                        "roxmltree::TextPos",
                        vec![
                            ("col", V::app("col", vec![V::Int(o.id as i128), p.clone()], Ty::adt("u32"))),
                            ("row", V::app("row", vec![V::Int(o.id as i128), p], Ty::adt("u32"))),
                        ],
                    ))
                }
                "as_ref" | "borrow" | "clone" => Ok(recv.clone()),
                _ => return None,
            },
            "roxmltree::Node" => return Some(self.tree_method(it, int(&o.data[0]), o.id, name, args, site)),
            "roxmltree::ExpandedName" => match name {
                "name" => Ok(o.data[1].clone()),
                "namespace" => Ok(o.data[2].clone()),
                "clone" => Ok(recv.clone()),
                "eq" | "ne" => {
                    let other = match it.rv(a(0)) {
                        Ok(p) => p,
                        Err(e) => return Some(Err(e)),
                    };
                    let (ns, nm) = match &other {
                        V::Obj(q) => (q.data[2].clone(), q.data[1].clone()),
                        V::Tuple(t) => (V::some(t[0].clone()), t[1].clone()),
                        v => (V::none(), v.clone()),
                    };
                    let r = it.eq(&o.data[1], &nm, site).and_then(|x| Ok(x && it.eq(&o.data[2], &ns, site)?));
                    r.map(|b| V::Bool(b == (name == "eq")))
                }
                _ => return None,
            },
            "roxmltree::Attribute" => {
                let (d, n) = (int(&o.data[0]), int(&o.data[1]));
                let at = self.docs.borrow()[d].nodes[n].attrs[o.id].clone();
                match name {
                    "name" => Ok(at.name),
                    "namespace" => Ok(opt_v(at.ns)),
                    "value" => Ok(at.value),
                    "range" | "range_qname" | "range_value" => Ok(Self::range(Self::attr_pos(d, n, o.id))),
                    "clone" => Ok(recv.clone()),
                    _ => return None,
                }
            }
            "roxmltree::Namespace" => match name {
                "name" => Ok(o.data[0].clone()),
                "uri" => Ok(o.data[1].clone()),
                _ => return None,
            },
            "roxmltree::Error" => match name {
                "pos" => Ok(V::st(
                    "roxmltree::TextPos",
                    vec![
                        ("col", V::app("errcol", vec![V::Int(o.id as i128)], Ty::adt("u32"))),
                        ("row", V::app("errrow", vec![V::Int(o.id as i128)], Ty::adt("u32"))),
                    ],
                )),
                "to_string" => Ok(V::app("xml-error", vec![recv.clone()], Ty::adt("String"))),
                "clone" => Ok(recv.clone()),
                _ => return None,
            },
            "xml::EmitterConfig" => match name {
                "create_writer" => {
                    it.event("xml-new", vec![], site);
                    Ok(self.obj("xml::EventWriter", 0, vec![]))
                }
                n => {
                    let mut args2 = vec![lit(n)];
                    args2.extend(args.iter().cloned());
                    it.event("xml-config", args2, site);
                    Ok(recv.clone())
                }
            },
            "xml::EventWriter" => match name {
                "write" => {
                    let v = match it.rv(a(0)) {
                        Ok(p) => p,
                        Err(e) => return Some(Err(e)),
                    };
                    let ev = self.xml_event(&v);
                    it.event("xml", vec![ev], site);
                    Ok(V::ok(V::Unit))
                }
                "inner_mut" | "inner_ref" | "into_inner" => {
                    it.event("xml-inner", vec![], site);
                    Ok(V::app("sink", vec![], Ty::Unknown))
                }
                _ => return None,
            },
            _ => return None,
        };
        Some(r)
    }

    fn max_len(&self, _t: TermId) -> Option<Vec<usize>> {
        Some(self.lens.clone())
    }
}

/// What was written, as a tree.
pub struct Written {
    pub root: Option<WNode>,
    /// defects of the event sequence: (kind, text, site)
    pub faults: Vec<(&'static str, String, Site)>,
    pub declared: bool,
    pub events: usize,
}

fn split_name(v: &V) -> (Option<V>, V) {
    if let V::Str(p) = v {
        let mut pre = vec![];
        for (i, x) in p.iter().enumerate() {
            if let SP::Lit(l) = x {
                if let Some(k) = l.find(':') {
                    pre.push(SP::Lit(l[..k].into()));
                    let mut post = vec![SP::Lit(l[k + 1..].into())];
                    post.extend(p[i + 1..].iter().cloned());
                    return (Some(V::str_parts(pre)), V::str_parts(post));
                }
            }
            pre.push(x.clone());
        }
    }
    (None, v.clone())
}

pub fn written(it: &mut Interp, events: &[Ev]) -> Written {
    let mut w = Written {
        root: None,
        faults: vec![],
        declared: false,
        events: 0,
    };
    let mut stack: Vec<(WNode, Vec<(V, V)>)> = vec![];
    let mut scope: Vec<Vec<(V, V)>> = vec![];
    let strv = |it: &Interp, v: V| -> V {
        let v = it.rv(v.clone()).unwrap_or(v);
        match &v {
            V::Str(p) => V::Str(Rc::new(it.subst_lits(p))),
            _ => v,
        }
    };
    for e in events {
        match &*e.kind {
            "xml-inner" => w.faults.push(("raw", "writes past the escaping writer".into(), e.site.clone())),
            "xml-config" => {
                let n = e.args[0].as_lit().unwrap_or_default();
                if n == "perform_escaping" && e.args.get(1) != Some(&V::Bool(true)) {
                    w.faults.push(("raw", "the writer does not escape".into(), e.site.clone()));
                }
                if n == "write_document_declaration" && e.args.get(1) == Some(&V::Bool(false)) {
                    w.faults.push(("decl", "the XML declaration is switched off".into(), e.site.clone()));
                }
            }
            "xml" => {
                w.events += 1;
                let ev = it.rv(e.args[0].clone()).unwrap_or(V::Unit);
                match ev.variant() {
                    Some("StartDocument") => {
                        if w.events != 1 {
                            w.faults.push(("decl", "the XML declaration is not the first thing that is written".into(), e.site.clone()));
                        }
                        w.declared = true;
                    }
                    Some("StartElement") => {
                        let name = strv(it, ev.field("name").unwrap_or(V::Unit));
                        let mut decl = vec![];
                        if let Some(V::Map(m)) = ev.field("namespace").map(|n| it.rv(n.clone()).unwrap_or(n)) {
                            for (k, v) in &m.entries {
                                decl.push((strv(it, k.clone()), strv(it, v.clone())));
                            }
                        }
                        for (i, x) in decl.iter().enumerate() {
                            if decl[..i].iter().any(|y| y.0 == x.0 && y.1 != x.1) {
                                w.faults.push(("prefix", format!("prefix `{}` is declared twice", vs(&x.0)), e.site.clone()));
                            }
                        }
                        scope.push(decl.clone());
                        let find = |p: &V| -> Option<V> { scope.iter().rev().find_map(|s| s.iter().find(|d| d.0 == *p).map(|d| d.1.clone())) };
                        let (pre, local) = split_name(&name);
                        let ns = match &pre {
                            Some(p) => {
                                let u = find(p);
                                if u.is_none() {
                                    w.faults.push(("prefix", format!("prefix `{}` of <{}> is not declared", vs(p), vs(&name)), e.site.clone()));
                                }
                                u
                            }
                            None => find(&lit("")).filter(|u| *u != lit("")),
                        };
                        let mut attrs = vec![];
                        let al = ev.field("attributes").map(|n| it.rv(n.clone()).unwrap_or(n)).unwrap_or(V::Unit);
                        if let V::Seq(s) = &al {
                            for x in s.iter() {
                                let x = it.rv(x.clone()).unwrap_or(V::Unit);
                                let an = strv(it, x.field("name").unwrap_or(V::Unit));
                                let av = strv(it, x.field("value").unwrap_or(V::Unit));
                                let (p, l) = split_name(&an);
                                let ans = match &p {
                                    Some(p) => {
                                        let u = find(p);
                                        if u.is_none() {
                                            w.faults.push(("prefix", format!("prefix `{}` of attribute {} is not declared", vs(p), vs(&an)), e.site.clone()));
                                        }
                                        u
                                    }
                                    None => None,
                                };
                                if attrs.iter().any(|a: &(Option<V>, V, V)| a.0 == ans && a.1 == l) {
                                    w.faults.push(("attr", format!("attribute {} is written twice", vs(&an)), e.site.clone()));
                                }
                                attrs.push((ans, l, av));
                            }
                        }
                        let node = WNode {
                            ns,
                            name: local,
                            attrs,
                            kids: vec![],
                            site: Some(e.site.clone()),
                        };
                        stack.push((node, decl));
                    }
                    Some("EndElement") => match stack.pop() {
                        Some((n, _)) => {
                            scope.pop();
                            match stack.last_mut() {
                                Some(p) => p.0.kids.push(WKid::El(n)),
                                None => {
                                    if w.root.is_some() {
                                        w.faults.push(("nest", "a second document element is written".into(), e.site.clone()));
                                    } else {
                                        w.root = Some(n);
                                    }
                                }
                            }
                        }
                        None => w.faults.push(("nest", "an end tag without a start tag is written".into(), e.site.clone())),
                    },
                    Some("Characters") | Some("CData") => {
                        let t = strv(it, ev.field("0").unwrap_or(V::Unit));
                        match stack.last_mut() {
                            Some(p) => {
                                if t != lit("") {
                                    match p.0.kids.last_mut() {
                                        Some(WKid::Text(V::Str(x))) => {
                                            let mut y = (**x).clone();
                                            if let V::Str(z) = &t {
                                                y.extend((**z).clone());
                                            }
                                            *x = Rc::new(norm_sp(y));
                                        }
                                        _ => p.0.kids.push(WKid::Text(t)),
                                    }
                                }
                            }
                            None => w.faults.push(("nest", "text is written outside of the document element".into(), e.site.clone())),
                        }
                    }
                    Some("Comment") => {}
                    o => w.faults.push(("raw", format!("event {:?} is written", o), e.site.clone())),
                }
            }
            _ => {}
        }
    }
    while let Some((n, _)) = stack.pop() {
        w.faults.push((
            "nest",
            format!("no end tag is written for <{}>", vs(&n.name)),
            n.site.clone().unwrap_or(Site {
                file: "".into(),
                line: 0,
                func: "".into(),
            }),
        ));
        match stack.last_mut() {
            Some(p) => p.0.kids.push(WKid::El(n)),
            None => w.root = Some(n),
        }
    }
    w
}
