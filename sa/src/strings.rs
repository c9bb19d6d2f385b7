//! Conversion of generated types from and to strings, outside of documents.
use crate::drive::*;
use crate::interp::*;
use crate::load::*;
use crate::model::*;
use crate::passes::by_ref;
use crate::render::ident_text;
use crate::run::*;
use crate::spec::*;
use crate::tpls::*;
use crate::val::*;
use crate::xmlt::*;
use std::cell::RefCell;
use std::rc::Rc;

/// Declarations of text types by every built-in type.
pub fn templates() -> Vec<Tpl> {
    let mut out = vec![];
    for (i, b) in BUILTINS.iter().enumerate() {
        for (k, ns) in NSS.iter().enumerate() {
            let body = [
                format!(r#"<xs:element name="%a" type="xs:{}"/>"#, b),
                format!(r#"<xs:simpleType name="%B"><xs:restriction base="xs:{}"/></xs:simpleType>"#, b),
                format!(r#"<xs:simpleType name="%B"><xs:restriction base="xs:{0}"><xs:maxInclusive value="9"/></xs:restriction></xs:simpleType><xs:element name="%a" type="{1}"/>"#, b, ns.q("%B")),
                format!(r#"<xs:element name="%a"><xs:simpleType><xs:restriction base="xs:{0}"/></xs:simpleType></xs:element><xs:element name="%c" type="xs:{0}"/>"#, b),
            ];
            out.push(ns.schema(&format!("strings/{}/{}", b, k), &body[(i + k) % 4]));
        }
    }
    out.extend(enums());
    out
}

pub fn jobs() -> Vec<(String, Job)> {
    templates()
        .into_iter()
        .map(|t| {
            let id = t.id.clone();
            let j: Job = Box::new(move |p: &mut Program| {
                let mut log = Log::default();
                for code in codes_of(p, &t, 4, &mut log) {
                    p.add_module("gen", code.file.items.clone(), "<gen>");
                    check(p, &t, &code, &mut log);
                    p.remove_module("gen");
                }
                Sum::of(log, &t.files)
            });
            (id, j)
        })
        .collect()
}

fn line_of(code: &GenCode, ty: &str) -> Site {
    for i in &code.file.items {
        let id = match i {
            syn::Item::Struct(s) => &s.ident,
            syn::Item::Enum(s) => &s.ident,
            _ => continue,
        };
        if ty == format!("gen::{}", id) {
            return site_at(&code.map, id.span().start().line);
        }
    }
    nosite()
}

fn check(prog: &Program, t: &Tpl, code: &GenCode, log: &mut Log) {
    let spec = Spec::of(&t.docs());
    for e in spec.roots() {
        if e.fixed.is_some() {
            continue;
        }
        // elements of another declared type are wrappers of it, and not text themselves
        if matches!(&e.ty, TRef::Named(q) if *q != e.name) {
            continue;
        }
        let (is_enum, base) = match spec.def(&e.ty) {
            Some(Res::Builtin(b)) => (false, b),
            Some(Res::Def(Def::Simple {
                base,
                enums,
            })) => match base {
                _ if !enums.is_empty() => (true, String::new()),
                TRef::Builtin(b) => (false, b),
                _ => continue,
            },
            _ => continue,
        };
        let all = || prog.structs.keys().chain(prog.enums.keys()).filter(|k| k.starts_with("gen::"));
        let Some(ty) = all().find(|k| ident_is(&k[5..], &e.name.1)).cloned() else { continue };
        let name = vs(&e.name.1);
        let at = line_of(code, &ty);
        // both directions exist
        let mut missing = false;
        for (tr, f) in [("FromStr", "from_str"), ("Display", "fmt")] {
            log.obligations += 1;
            if prog.trait_method(&ty, tr, f).is_none() {
                log.find(&t.id, "string:none", format!("the type of `{}` does not implement {}", name, tr), at.clone(), String::new());
                missing = true;
            }
        }
        if missing {
            continue;
        }
        let Some(from_str) = prog.trait_method(&ty, "FromStr", "from_str") else { continue };
        let lg = RefCell::new(&mut *log);
        let find = |kind: &str, msg: String, site: Site, detail: String| {
            lg.borrow_mut().find(&t.id, kind, msg, site, detail);
        };
        // reading a text and parsing it
        let w = WNode {
            ns: e.name.0.clone(),
            name: e.name.1.clone(),
            attrs: vec![],
            kids: vec![WKid::Text(value("$s"))],
            site: None,
        };
        let model = Rc::new(Model::new());
        let doc = model.add(XDoc::from_wnode("text", &w));
        let mut it = interp(prog, model, code);
        it.deep = true;
        let ex = it.explore(400, &mut |it| {
            let p = it.call_fn(&from_str, vec![value("$s")], Default::default())?;
            let ps = it.last_gen.clone().unwrap_or(at.clone());
            let p = it.res(p, &ps)?;
            let r = it.call_path(&format!("{}::from_xml", ty), vec![doc.clone()])?;
            let r = it.res(r, &ps)?;
            lg.borrow_mut().obligations += 1;
            let facts = it.st.facts.show();
            match (p, r) {
                (Ok(p), Ok(r)) => {
                    if let Some(m) = conforms(it, &p, &Ty::adt(&ty)) {
                        find("string:parse", format!("parsing a string as `{}` yields a value of another type: {}", name, m), ps.clone(), facts.clone());
                    }
                    if !it.eq(&p, &r, &ps)? {
                        find("string:parse", format!("a string is parsed as {} but read as {}", brief(&p), brief(&r)), ps, facts);
                    }
                }
                (Ok(p), Err(_)) => find("string:parse", format!("a string that is not read as `{}` is parsed as {}", name, brief(&p)), ps, facts),
                (Err(p), Ok(r)) => {
                    let (s, m) = err_site(&it.st, &p);
                    find("string:parse", format!("a text that is read as {} is not parsed as `{}`: {}", brief(&r), name, m), s, facts)
                }
                (Err(p), Err(_)) => {
                    let (_, m) = err_site(&it.st, &p);
                    let s = ps.clone();
                    let (kind, field) = if is_enum { ("InvalidVariant", "name") } else { ("ParseType", "value") };
                    let got = p.field(field).and_then(|v| it.rv(v).ok());
                    let same = match got {
                        Some(V::Str(g)) => it.subst_lits(&g) == value_parts(it, "$s"),
                        _ => false,
                    };
                    if p.variant() != Some(kind) || !same {
                        find("string:error", format!("the error for a string that is not a `{}` does not carry it: {}", name, m), s.clone(), facts.clone());
                    }
                    if !is_enum && same {
                        let n = p.field("type_").and_then(|v| it.rv(v).ok());
                        let ok = match &n {
                            Some(V::Str(g)) => {
                                let txt = ident_text(g);
                                ty[5..].trim_start_matches("r#") == txt.trim_start_matches("r#") || V::Str(g.clone()) == e.name.1 || V::Str(g.clone()).as_lit().map(|l| type_names(&base).contains(&&*l)).unwrap_or(false)
                            }
                            _ => false,
                        };
                        if !ok {
                            find("string:error", format!("the error for a string that is not a `{}` names another type: {}", name, m), s, facts);
                        }
                    }
                }
            }
            Ok(V::Unit)
        });
        finish(&mut lg.borrow_mut(), t, "any string", &it, ex, "read");
        // printing a value and writing it
        let mut it = interp(prog, Rc::new(Model::new()), code);
        let me = V::var("self", Ty::adt(&ty));
        let ex = it.explore(400, &mut |it| {
            let v = by_ref(it, me.clone());
            let w = it.call_path(&format!("{}::to_xml", ty), vec![v.clone()])?;
            let site = it.last_gen.clone().unwrap_or(at.clone());
            if it.res(w, &site)?.is_err() {
                return Ok(V::Unit);
            }
            let ev = it.st.events.clone();
            let Some(root) = written(it, &ev).root else { return Ok(V::Unit) };
            let mut text: Vec<SP> = vec![];
            for k in &root.kids {
                match k {
                    WKid::Text(V::Str(p)) => text.extend(p.iter().cloned()),
                    _ => return Ok(V::Unit),
                }
            }
            let written = V::str_parts(text);
            let shown = it.display(v.clone(), &site)?;
            let shown = V::str_parts(shown);
            let site = it.last_gen.clone().unwrap_or(at.clone());
            lg.borrow_mut().obligations += 1;
            if !it.eq(&shown, &written, &site)? {
                find("string:print", format!("a `{}` is printed as {} but written as {}", name, vs(&shown), vs(&written)), site.clone(), it.st.facts.show());
                return Ok(V::Unit);
            }
            if is_enum && it.prog.fns.contains_key(&format!("{}::as_str", ty)) {
                let a = it.call_path(&format!("{}::as_str", ty), vec![v.clone()])?;
                let a = it.rv(a)?;
                lg.borrow_mut().obligations += 1;
                if !it.eq(&a, &written, &site)? {
                    find("string:print", format!("`as_str` of a `{}` is {} but it is written as {}", name, vs(&a), vs(&written)), site.clone(), it.st.facts.show());
                }
            }
            let p = it.call_fn(&from_str, vec![shown.clone()], Default::default())?;
            lg.borrow_mut().obligations += 1;
            match it.res(p, &site)? {
                Ok(p) => {
                    // values that are printed alike cannot be told apart
                    let again = it.display(p.clone(), &site)?;
                    if !it.eq(&p, &me, &site)? && !it.eq(&V::str_parts(again), &shown, &site)? {
                        find("string:parse", format!("what is printed for a `{}` is parsed as another value: {}", name, brief(&p)), site, it.st.facts.show());
                    }
                }
                Err(p) => {
                    let (s, m) = err_site(&it.st, &p);
                    find("string:parse", format!("what is printed for a `{}` is not parsed: {}", name, m), s, it.st.facts.show())
                }
            }
            Ok(V::Unit)
        });
        finish(&mut lg.borrow_mut(), t, "any value", &it, ex, "write");
    }
}

fn value_parts(it: &Interp, s: &str) -> Vec<SP> {
    match value(s) {
        V::Str(p) => it.subst_lits(&p),
        _ => vec![],
    }
}
