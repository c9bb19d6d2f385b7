//! Items of generated code: what is defined, and what is referred to.
use crate::drive::*;
use crate::load::*;
use crate::render::*;
use std::collections::BTreeSet;

pub fn refs(t: &Ty, out: &mut Vec<String>) {
    match t {
        Ty::Adt(n, a) => {
            out.push(n.clone());
            a.iter().for_each(|x| refs(x, out));
        }
        Ty::Tuple(a) => a.iter().for_each(|x| refs(x, out)),
        _ => {}
    }
}

/// Every type is defined once, and what types refer to is defined.
pub fn check_items(prog: &Program, t: &Tpl, code: &GenCode, log: &mut Log) {
    let mut defined: BTreeSet<String> = BTreeSet::new();
    for i in &code.file.items {
        let (n, sp) = match i {
            syn::Item::Struct(s) => (s.ident.to_string(), s.ident.span()),
            syn::Item::Enum(s) => (s.ident.to_string(), s.ident.span()),
            _ => continue,
        };
        log.obligations += 1;
        if !defined.insert(n.clone()) {
            log.find(
                &t.id,
                "duplicate",
                format!("type `{}` is generated twice", pretty_ident(&n)),
                site_at(&code.map, sp.start().line),
                String::new(),
            );
        }
    }
    let mut check = |owner: &str, ty: &Ty, log: &mut Log| {
        let mut out = vec![];
        refs(ty, &mut out);
        for r in out {
            let known = r.contains("::") && !r.starts_with("gen::") || matches!(r.as_str(), "String" | "bool" | "i32" | "i64" | "u64" | "f32" | "Option" | "Vec" | "f64");
            if !known && !(r.starts_with("gen::") && defined.contains(&r[5..])) {
                log.find(
                    &t.id,
                    "undefined",
                    format!("`{}` refers to a type `{}` that is not generated", pretty_ident(owner), pretty_ident(last(&r))),
                    nosite(),
                    String::new(),
                );
            }
        }
    };
    for (n, s) in prog.structs.iter().filter(|x| x.0.starts_with("gen::")) {
        for f in &s.fields {
            check(n, &f.ty, log);
        }
    }
    for (n, s) in prog.enums.iter().filter(|x| x.0.starts_with("gen::")) {
        for v in &s.variants {
            for f in &v.fields {
                check(n, &f.ty, log);
            }
        }
    }
}
