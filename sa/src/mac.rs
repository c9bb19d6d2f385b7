//! The attribute macro: what becomes of the module it is put on, and of its arguments.
use crate::drive::*;
use crate::interp::*;
use crate::load::*;
use crate::model::*;
use crate::passes::fn_site_in;
use crate::render::*;
use crate::run::*;
use crate::tpls::ENUM;
use crate::val::*;
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};
use quote::ToTokens;
use std::collections::BTreeSet;
use std::rc::Rc;

const ALL: &str = "xsd_derive::all";
const DIR: &str = "/m";

pub fn tks(ts: TokenStream) -> Vec<Tk> {
    ts.into_iter()
        .map(|t| {
            let k = match t {
                TokenTree::Ident(i) => TkK::Id(i.to_string().into()),
                TokenTree::Punct(p) => TkK::Punct(p.as_char(), p.spacing() == Spacing::Joint),
                TokenTree::Literal(l) => {
                    let s = l.to_string();
                    match syn::parse_str::<syn::Lit>(&s) {
                        Ok(syn::Lit::Str(x)) => TkK::StrLit(Rc::new(if x.value().is_empty() { vec![] } else { vec![SP::Lit(x.value().as_str().into())] })),
                        _ => TkK::Lit(s.into()),
                    }
                }
                TokenTree::Group(g) => TkK::Group(
                    match g.delimiter() {
                        Delimiter::Parenthesis => '(',
                        Delimiter::Brace => '{',
                        Delimiter::Bracket => '[',
                        Delimiter::None => ' ',
                    },
                    Rc::new(tks(g.stream())),
                ),
            };
            Tk { k, o: Org(0) }
        })
        .collect()
}

fn toks(x: impl ToTokens) -> V {
    V::tokens(tks(x.to_token_stream()))
}

fn path_v(p: &syn::Path) -> V {
    V::st(
        "syn::Path",
        vec![
            ("leading_colon", if p.leading_colon.is_some() { V::some(V::Unit) } else { V::none() }),
            ("segments", V::seq(p.segments.iter().map(|s| V::st("syn::PathSegment", vec![("ident", ident(&s.ident)), ("__tokens", toks(s))])).collect())),
            ("__tokens", toks(p)),
        ],
    )
}

fn ident(i: &syn::Ident) -> V {
    V::Ident(Rc::new(vec![SP::Lit(i.to_string().as_str().into())]))
}

fn attr_v(a: &syn::Attribute) -> V {
    let style = match a.style {
        syn::AttrStyle::Outer => V::en("syn::AttrStyle", "Outer", vec![]),
        syn::AttrStyle::Inner(_) => V::en("syn::AttrStyle", "Inner", vec![V::Unit]),
    };
    let meta = match &a.meta {
        syn::Meta::Path(p) => V::en("syn::Meta", "Path", vec![path_v(p)]),
        syn::Meta::List(l) => V::en("syn::Meta", "List", vec![V::st("syn::MetaList", vec![("path", path_v(&l.path)), ("tokens", toks(&l.tokens)), ("__tokens", toks(l))])]),
        syn::Meta::NameValue(n) => V::en("syn::Meta", "NameValue", vec![V::st("syn::MetaNameValue", vec![("path", path_v(&n.path)), ("value", toks(&n.value)), ("__tokens", toks(n))])]),
    };
    V::st("syn::Attribute", vec![("pound_token", V::Unit), ("style", style), ("bracket_token", V::Unit), ("meta", meta), ("__path", path_v(a.path())), ("__tokens", toks(a))])
}

fn vis_v(v: &syn::Visibility) -> V {
    match v {
        syn::Visibility::Public(_) => V::en("syn::Visibility", "Public", vec![V::st("syn::token::Pub", vec![("__tokens", toks(v))])]),
        syn::Visibility::Restricted(r) => V::en("syn::Visibility", "Restricted", vec![V::st("syn::VisRestricted", vec![("path", path_v(&r.path)), ("in_token", if r.in_token.is_some() { V::some(V::Unit) } else { V::none() }), ("__tokens", toks(v))])]),
        syn::Visibility::Inherited => V::en("syn::Visibility", "Inherited", vec![]),
    }
}

fn item_v(i: &syn::Item) -> V {
    use syn::Item::*;
    let (variant, attrs, vis, id): (&str, &[syn::Attribute], Option<&syn::Visibility>, Option<&syn::Ident>) = match i {
        Const(x) => ("Const", &x.attrs, Some(&x.vis), Some(&x.ident)),
        Enum(x) => ("Enum", &x.attrs, Some(&x.vis), Some(&x.ident)),
        Fn(x) => ("Fn", &x.attrs, Some(&x.vis), Some(&x.sig.ident)),
        Impl(x) => ("Impl", &x.attrs, None, None),
        Macro(x) => ("Macro", &x.attrs, None, None),
        Mod(x) => ("Mod", &x.attrs, Some(&x.vis), Some(&x.ident)),
        Static(x) => ("Static", &x.attrs, Some(&x.vis), Some(&x.ident)),
        Struct(x) => ("Struct", &x.attrs, Some(&x.vis), Some(&x.ident)),
        Trait(x) => ("Trait", &x.attrs, Some(&x.vis), Some(&x.ident)),
        Type(x) => ("Type", &x.attrs, Some(&x.vis), Some(&x.ident)),
        Use(x) => ("Use", &x.attrs, Some(&x.vis), None),
        _ => ("Verbatim", &[], None, None),
    };
    let mut f = vec![("attrs", V::seq(attrs.iter().map(attr_v).collect()))];
    if let Some(v) = vis {
        f.push(("vis", vis_v(v)));
    }
    if let Some(v) = id {
        f.push(("ident", ident(v)));
    }
    f.push(("__tokens", toks(i)));
    V::en("syn::Item", variant, vec![V::st(&format!("syn::Item{}", variant), f)])
}

fn mod_v(m: &syn::ItemMod) -> V {
    V::st(
        "syn::ItemMod",
        vec![
            ("attrs", V::seq(m.attrs.iter().map(attr_v).collect())),
            ("vis", vis_v(&m.vis)),
            ("unsafety", V::none()),
            ("mod_token", V::tokens(vec![Tk { k: TkK::Id("mod".into()), o: Org(0) }])),
            ("ident", ident(&m.ident)),
            (
                "content",
                match &m.content {
                    Some((_, items)) => V::some(V::Tuple(Rc::new(vec![V::Unit, V::seq(items.iter().map(item_v).collect())]))),
                    None => V::none(),
                },
            ),
            ("semi", if m.semi.is_some() { V::some(V::tokens(vec![Tk { k: TkK::Punct(';', false), o: Org(0) }])) } else { V::none() }),
        ],
    )
}

fn error(msg: V) -> V {
    V::st("syn::Error", vec![("__msg", msg)])
}

/// The arguments of the macro, as `name`, `name = literal`.
fn metas(s: &str) -> Option<Vec<syn::Meta>> {
    use syn::parse::Parser;
    let p = syn::punctuated::Punctuated::<syn::Meta, syn::Token![,]>::parse_terminated;
    p.parse_str(s).ok().map(|x| x.into_iter().collect())
}

struct World {
    base: Model,
    args: String,
    item: String,
}

const IN_ARGS: &str = "#args";
const IN_ITEM: &str = "#item";

impl World {
    fn parser(&self, it: &mut Interp, v: &V, parser: &V, site: &Site) -> R<Result<V, V>> {
        let V::Struct(p) = parser else { return it.unsup("an unknown parser", site) };
        if &*p.path != "#parser" || !matches!(v, V::Struct(s) if &*s.path == IN_ARGS) {
            return it.unsup("an unknown parser", site);
        }
        let f = p.fields[0].1.clone();
        let Some(ms) = metas(&self.args) else {
            return Ok(Err(error(lit("cannot parse"))));
        };
        for m in ms {
            let value = match &m {
                syn::Meta::NameValue(n) => match &n.value {
                    syn::Expr::Lit(syn::ExprLit {
                        lit: syn::Lit::Str(s),
                        ..
                    }) => V::some(lit(&s.value())),
                    _ => V::some(V::Unit),
                },
                syn::Meta::List(_) => V::some(V::Unit),
                _ => V::none(),
            };
            let used = it.alloc(V::Bool(false));
            let has = matches!(&value, V::Enum(e) if &*e.variant == "Some");
            let nv = matches!(m, syn::Meta::NameValue(_));
            let meta = V::st("#meta", vec![("path", path_v(m.path())), ("__value", value), ("__nv", V::Bool(nv)), ("__used", V::Cell(used))]);
            let r = it.call_value(&f, vec![meta], site)?;
            match it.res(r, site)? {
                Ok(_) => {}
                Err(e) => return Ok(Err(e)),
            }
            let u = it.load(&Place { cell: used, proj: vec![] })?;
            if has && u != V::Bool(true) {
                return Ok(Err(error(lit("expected `,`"))));
            }
        }
        Ok(Ok(V::Unit))
    }

    fn parse_as(&self, it: &mut Interp, v: &V, ty: &str, site: &Site) -> R<Result<V, V>> {
        match v {
            V::Struct(s) if &*s.path == IN_ITEM => match ty {
                "ItemMod" => Ok(match syn::parse_str::<syn::ItemMod>(&self.item) {
                    Ok(m) => Ok(mod_v(&m)),
                    Err(_) => Err(error(lit("expected `mod`"))),
                }),
                "Item" => Ok(match syn::parse_str::<syn::Item>(&self.item) {
                    Ok(syn::Item::Mod(m)) => Ok(V::en("syn::Item", "Mod", vec![mod_v(&m)])),
                    Ok(i) => Ok(item_v(&i)),
                    Err(_) => Err(error(lit("expected an item"))),
                }),
                o => it.unsup(format!("parsing as {}", o), site),
            },
            V::Struct(s) if &*s.path == IN_ARGS && ty == "LitStr" => Ok(match syn::parse_str::<syn::LitStr>(&self.args) {
                Ok(s) => Ok(V::st("syn::LitStr", vec![("__value", lit(&s.value()))])),
                Err(_) => Err(error(lit("expected a literal"))),
            }),
            _ => it.unsup("parsing of unknown tokens", site),
        }
    }
}

fn compile_error(m: V) -> V {
    let k = |k: TkK| Tk { k, o: Org(0) };
    let inner = match m {
        V::Str(p) => vec![k(TkK::StrLit(p))],
        _ => vec![],
    };
    V::tokens(vec![
        k(TkK::Punct(':', true)),
        k(TkK::Punct(':', false)),
        k(TkK::Id("core".into())),
        k(TkK::Punct(':', true)),
        k(TkK::Punct(':', false)),
        k(TkK::Id("compile_error".into())),
        k(TkK::Punct('!', false)),
        k(TkK::Group('{', Rc::new(inner))),
    ])
}

fn field(v: &V, n: &str) -> Option<V> {
    match v {
        V::Struct(s) => s.fields.iter().find(|f| &*f.0 == n).map(|f| f.1.clone()),
        _ => None,
    }
}

impl Hooks for World {
    fn mac(&self, it: &mut Interp, name: &str, mac: &syn::Macro, site: &Site) -> Option<R<V>> {
        if name != "parse_macro_input" {
            return self.base.mac(it, name, mac, site);
        }
        Some((|| {
            let all: Vec<TokenTree> = mac.tokens.clone().into_iter().collect();
            let at = all.iter().position(|t| matches!(t, TokenTree::Ident(i) if i == "as" || i == "with"));
            let (e, how, rest) = match at {
                Some(i) => (&all[..i], all[i].to_string(), all[i + 1..].iter().cloned().collect::<TokenStream>()),
                None => return it.unsup("parse_macro_input! without a type", site),
            };
            let e = match syn::parse2::<syn::Expr>(e.iter().cloned().collect()) {
                Ok(e) => e,
                Err(_) => return it.unsup("parse_macro_input! of something", site),
            };
            let v = it.eval(&e)?;
            let v = it.rv(v)?;
            let r = if how == "as" {
                let t = rest.to_string();
                let t = t.rsplit("::").next().unwrap_or("").trim().to_string();
                self.parse_as(it, &v, &t, site)?
            } else {
                let p = match syn::parse2::<syn::Expr>(rest) {
                    Ok(p) => p,
                    Err(_) => return it.unsup("parse_macro_input! with something", site),
                };
                let p = it.eval(&p)?;
                let p = it.rv(p)?;
                self.parser(it, &v, &p, site)?
            };
            match r {
                Ok(v) => Ok(v),
                Err(e) => Err(Ctl::Return(compile_error(field(&e, "__msg").unwrap_or(V::Unit)))),
            }
        })())
    }

    fn call(&self, it: &mut Interp, path: &str, args: &[V], site: &Site) -> Option<R<V>> {
        let a = |i: usize| args.get(i).cloned().unwrap_or(V::Unit);
        let segs: Vec<&str> = path.split("::").collect();
        let name = segs[segs.len() - 1];
        let ty = if segs.len() > 1 { segs[segs.len() - 2] } else { "" };
        match (ty, name) {
            ("env", "var" | "var_os") => match it.rv(a(0)) {
                Ok(v) if v.as_lit().as_deref() == Some("CARGO_MANIFEST_DIR") => {
                    return Some(Ok(if name == "var" { V::ok(lit(DIR)) } else { V::some(lit(DIR)) }));
                }
                Err(e) => return Some(Err(e)),
                _ => {}
            },
            ("env", "current_dir") => return Some(Ok(V::ok(lit("/elsewhere")))),
            ("meta", "parser") => return Some(Ok(V::st("#parser", vec![("__f", a(0))]))),
            ("Error", "new_spanned" | "new") if path.starts_with("syn") => {
                return Some((|| {
                    let p = it.display(a(1), site)?;
                    Ok(error(V::str_parts(p)))
                })())
            }
            ("Span", "call_site" | "mixed_site") => return Some(Ok(V::Unit)),
            ("TokenStream", "from") => {
                return Some((|| {
                    let v = it.rv(a(0))?;
                    it.to_tokens(v, site).map(V::tokens)
                })())
            }
            _ => {}
        }
        self.base.call(it, path, args, site)
    }

    fn method(&self, it: &mut Interp, recv: &V, place: &Option<Place>, name: &str, args: &[V], site: &Site) -> Option<R<V>> {
        let a = |i: usize| args.get(i).cloned().unwrap_or(V::Unit);
        let r = match it.rv(recv.clone()) {
            Ok(r) => r,
            Err(e) => return Some(Err(e)),
        };
        if let V::Struct(s) = &r {
            match (&*s.path, name) {
                ("syn::Attribute", "path") => return Some(Ok(field(&r, "__path").unwrap())),
                ("syn::Attribute", "meta") => return Some(Ok(field(&r, "meta").unwrap())),
                ("syn::Path", "is_ident") => {
                    return Some((|| {
                        let w = it.rv(a(0))?;
                        let Some(w) = w.as_lit() else { return it.unsup("is_ident of something", site) };
                        let p = match field(&r, "__tokens") {
                            Some(V::Tokens(t)) => matches!(&t[..], [Tk { k: TkK::Id(i), .. }] if **i == *w),
                            _ => false,
                        };
                        Ok(V::Bool(p))
                    })())
                }
                ("syn::Path", "get_ident") => {
                    return Some(Ok(match field(&r, "__tokens") {
                        Some(V::Tokens(t)) => match &t[..] {
                            [Tk { k: TkK::Id(i), .. }] => V::some(V::Ident(Rc::new(vec![SP::Lit(i.clone())]))),
                            _ => V::none(),
                        },
                        _ => V::none(),
                    }))
                }
                ("#meta", "value") => {
                    return Some((|| {
                        if field(&r, "__nv") != Some(V::Bool(true)) {
                            return Ok(V::err(error(lit("expected `=`"))));
                        }
                        if let Some(V::Cell(c)) = field(&r, "__used") {
                            it.store(&Place { cell: c, proj: vec![] }, V::Bool(true))?;
                        }
                        Ok(V::ok(V::st("#stream", vec![("__value", field(&r, "__value").unwrap())])))
                    })())
                }
                ("#meta", "error") | ("#stream", "error") => {
                    return Some((|| {
                        let p = it.display(a(0), site)?;
                        Ok(error(V::str_parts(p)))
                    })())
                }
                // all that is parsed is a string
                ("#stream", "parse") => {
                    return Some(Ok(match field(&r, "__value") {
                        Some(V::Enum(e)) if matches!(e.fields.first(), Some((_, V::Str(_)))) => V::ok(V::st("syn::LitStr", vec![("__value", e.fields[0].1.clone())])),
                        _ => V::err(error(lit("expected string literal"))),
                    }))
                }
                ("syn::LitStr", "value") => return Some(Ok(field(&r, "__value").unwrap())),
                ("syn::LitStr" | "syn::Error" | "syn::ItemMod" | "syn::Attribute" | "syn::Path", "span") => return Some(Ok(V::Unit)),
                ("syn::Error", "to_compile_error" | "into_compile_error") => return Some(Ok(compile_error(field(&r, "__msg").unwrap_or(V::Unit)))),
                ("syn::Error", "to_string") => return Some(Ok(field(&r, "__msg").unwrap_or(V::Unit))),
                ("syn::Error", "combine") => return Some(Ok(V::Unit)),
                (p, "to_token_stream" | "into_token_stream") if p.starts_with("syn::") => return Some(it.to_tokens(r.clone(), site).map(V::tokens)),
                (IN_ARGS, "is_empty") => return Some(Ok(V::Bool(self.args.is_empty()))),
                (IN_ITEM, "is_empty") => return Some(Ok(V::Bool(false))),
                _ => {}
            }
        }
        self.base.method(it, recv, place, name, args, site)
    }

    fn max_len(&self, t: TermId) -> Option<Vec<usize>> {
        self.base.max_len(t)
    }

    fn excluded(&self, it: &Interp, t: TermId) -> Vec<&'static str> {
        self.base.excluded(it, t)
    }
}

/// Tokens of values of syn.
pub fn syn_tokens(it: &mut Interp, v: &V, site: &Site) -> Option<R<Vec<Tk>>> {
    match v {
        V::Struct(s) => {
            if let Some(V::Tokens(t)) = field(v, "__tokens") {
                return Some(Ok((*t).clone()));
            }
            match &*s.path {
                "syn::ItemMod" => Some((|| {
                    let mut out = vec![];
                    let mut inner = vec![];
                    if let Some(V::Seq(l)) = field(v, "attrs") {
                        for a in l.iter() {
                            let t = it.to_tokens(a.clone(), site)?;
                            match field(a, "style") {
                                Some(V::Enum(e)) if &*e.variant == "Inner" => inner.extend(t),
                                _ => out.extend(t),
                            }
                        }
                    }
                    for n in ["vis", "unsafety", "mod_token", "ident"] {
                        let f = field(v, n).unwrap_or(V::Unit);
                        out.extend(it.to_tokens(f, site)?);
                    }
                    match field(v, "content") {
                        Some(V::Enum(e)) if &*e.variant == "Some" => {
                            if let V::Tuple(t) = &e.fields[0].1 {
                                let items = it.rv(t[1].clone())?;
                                if let V::Seq(l) = &items {
                                    for i in l.iter() {
                                        inner.extend(it.to_tokens(i.clone(), site)?);
                                    }
                                }
                            }
                            out.push(Tk { k: TkK::Group('{', Rc::new(inner)), o: Org(0) });
                        }
                        _ => {
                            let f = field(v, "semi").unwrap_or(V::Unit);
                            out.extend(it.to_tokens(f, site)?);
                        }
                    }
                    Ok(out)
                })()),
                "syn::LitStr" => Some(it.to_tokens(field(v, "__value")?, site)),
                IN_ITEM | IN_ARGS => Some(Ok(vec![])),
                _ => None,
            }
        }
        V::Enum(e) if e.path.starts_with("syn::") => match (&*e.path, &*e.variant) {
            ("syn::Visibility", "Inherited") => Some(Ok(vec![])),
            ("syn::Item", "Verbatim") if matches!(e.fields.first(), Some((_, V::Tokens(_)))) => match &e.fields[0].1 {
                V::Tokens(t) => Some(Ok((**t).clone())),
                _ => None,
            },
            _ => match e.fields.first() {
                Some(f) => Some(it.to_tokens(f.1.clone(), site)),
                None => None,
            },
        },
        _ => None,
    }
}

const MODULES: &[&str] = &[
    "mod m {}",
    "pub mod m {}",
    "pub(crate) mod m {}",
    "pub(super) mod m {}",
    "pub(in crate::a) mod m {}",
    "mod m;",
    "pub mod m;",
    "#[allow(dead_code)] mod m {}",
    "/// docs\npub mod m {}",
    "#[doc = \"docs\"] #[cfg(all())] #[allow(dead_code)] #[deprecated] pub mod other_name {}",
    "#[cfg(all())] mod m { use std::fmt; }",
    "#[cfg_attr(all(), allow(dead_code))] #[rustfmt::skip] mod m { use std::fmt; pub struct A; }",
    "mod m { #![allow(dead_code)] use std::fmt; }",
    "#[allow(unused)] mod m { #![allow(dead_code)] #![allow(unused_imports)] }",
    "mod m { //! docs\n use std::fmt; }",
    "mod m { use std::fmt; }",
    "mod m { struct Own; impl Own { fn f(&self) {} } }",
    "pub mod m { pub use super::*; const A: u8 = 1; static B: u8 = 2; type C = u8; fn f() {} enum E { A } trait T {} mod inner { pub fn g() {} } macro_rules! x { () => {} } impl T for E {} }",
    "mod m { const A: u8 = 1; const B: u8 = 2; const C: u8 = 3; const D: u8 = 4; }",
    "mod m { #[derive(Debug)] pub struct A { pub x: u8 } #[test] fn t() {} #[cfg(test)] mod tests { #[test] fn t() {} } }",
    "mod m { x!(); y! { a } use a::{b, c as d}; }",
    "mod m { const S: &str = \"text # {} \\\" x\"; }",
    "mod r#type { struct r#Struct; }",
    "mod m { pub struct Root; }",
];

const BAD_ITEMS: &[&str] = &["struct S;", "fn f() {}", "enum E { A }", "impl A {}", "use a;", "const A: u8 = 1;"];

#[derive(Clone, Copy, PartialEq)]
enum Want {
    Code(&'static str),
    Fail,
}
use Want::*;

const ARGS: &[(&str, Want)] = &[
    (r#"schema = "s.xsd""#, Code("/m/s.xsd")),
    (r#"schema = "s.xsd","#, Code("/m/s.xsd")),
    (r#"schema = "./s.xsd""#, Code("/m/s.xsd")),
    (r#"schema = "sub/t.xsd""#, Code("/m/sub/t.xsd")),
    (r#"schema = "sub/../s.xsd""#, Code("/m/s.xsd")),
    (r#"schema = "../u.xsd""#, Code("/u.xsd")),
    (r#"schema = "é ü.xsd""#, Code("/m/é ü.xsd")),
    (r#"schema = "empty.xsd""#, Code("/m/empty.xsd")),
    (r#"schema = "including.xsd""#, Code("/m/including.xsd")),
    ("", Fail),
    ("schema", Fail),
    ("schema = 1", Fail),
    (r#"schema("s.xsd")"#, Fail),
    (r#"other = "s.xsd""#, Fail),
    ("other", Fail),
    (r#"schema = "s.xsd", other"#, Fail),
    (r#"schema = "s.xsd", other = "x""#, Fail),
    (r#"other = "x", schema = "s.xsd""#, Fail),
    (r#"other, schema = "s.xsd""#, Fail),
    (r#"Schema = "s.xsd""#, Fail),
    (r#"schemas = "s.xsd""#, Fail),
    (r#"a::schema = "s.xsd""#, Fail),
    (r#"schema = """#, Fail),
    (r#"schema = "missing.xsd""#, Fail),
    (r#"schema = "only-elsewhere.xsd""#, Fail),
    (r#"schema = "malformed.xsd""#, Fail),
    (r#"schema = "unsupported.xsd""#, Fail),
    (r#"schema = "unsupported2.xsd""#, Fail),
    (r#"schema = "including-missing.xsd""#, Fail),
    (r#"schema = "including-malformed.xsd""#, Fail),
    (r#"schema = "not-a-schema.xsd""#, Fail),
];

fn files() -> Vec<(String, String)> {
    let x = |b: &str| format!(r#"<xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema">{}</xs:schema>"#, b);
    let e = |n: &str| x(&format!(r#"<xs:element name="{0}"><xs:complexType><xs:sequence><xs:element name="{0}m" type="xs:int"/></xs:sequence></xs:complexType></xs:element><xs:simpleType name="{0}e">{1}</xs:simpleType>"#, n, ENUM));
    let mut v: Vec<(String, String)> = vec![];
    let mut add = |p: &str, s: String| v.push((p.to_string(), s));
    add("/m/s.xsd", e("sroot"));
    add("/m/sub/t.xsd", e("troot"));
    add("/u.xsd", e("uroot"));
    add("/m/é ü.xsd", e("vroot"));
    add("/m/empty.xsd", x(""));
    add("/m/including.xsd", x(r#"<xs:include schemaLocation="sub/t.xsd"/><xs:element name="iroot" type="troote"/>"#));
    add("/m/malformed.xsd", "malformed".into());
    add("/m/unsupported.xsd", x(r#"<xs:element name="a" type="xs:int" abstract="true"/>"#));
    add("/m/unsupported2.xsd", x(r#"<xs:group name="a"/>"#));
    add("/m/including-missing.xsd", x(r#"<xs:include schemaLocation="missing.xsd"/>"#));
    add("/m/including-malformed.xsd", x(r#"<xs:include schemaLocation="malformed.xsd"/>"#));
    add("/m/not-a-schema.xsd", "<html/>".into());
    // elsewhere
    for p in ["s.xsd", "/elsewhere/s.xsd", "/s.xsd", "sub/t.xsd", "/elsewhere/sub/t.xsd", "/m/t.xsd", "only-elsewhere.xsd", "/elsewhere/only-elsewhere.xsd", "u.xsd", "/m/u.xsd", "é ü.xsd", "empty.xsd", "including.xsd", "/missing.xsd", "missing.xsd"] {
        add(p, e("decoy"));
    }
    v
}

struct Case {
    id: String,
    args: &'static str,
    item: &'static str,
    want: Want,
}

pub fn jobs(all: bool) -> Vec<(String, Job)> {
    let mut cs = vec![];
    let mut add = |a: &'static str, m: &'static str, w: Want| {
        cs.push(Case {
            id: format!("macro/({})/{}", a, m.replace('\n', " ")),
            args: a,
            item: m,
            want: w,
        })
    };
    for (k, (a, w)) in ARGS.iter().enumerate() {
        for (n, m) in MODULES.iter().enumerate() {
            if all || k == 0 || n == 0 || (n + k) % 7 == 0 {
                add(a, m, *w);
            }
        }
    }
    for i in BAD_ITEMS {
        add(ARGS[0].0, i, Fail);
        add("", i, Fail);
    }
    cs.into_iter()
        .map(|c| {
            let id = c.id.clone();
            let j: Job = Box::new(move |p: &mut Program| {
                let mut log = Log::default();
                check(p, &c, &mut log);
                Sum::of(log, &[("the module".to_string(), format!("#[xsd::all({})] {}", c.args, c.item))])
            });
            (id, j)
        })
        .collect()
}

fn text(x: &impl ToTokens) -> String {
    x.to_token_stream().to_string()
}

fn check(prog: &mut Program, c: &Case, log: &mut Log) {
    log.templates += 1;
    let t = Tpl {
        id: c.id.clone(),
        files: files(),
    };
    // what is to be added
    let generated = match c.want {
        Code(main) => {
            let mut t2 = t.clone();
            let i = t2.files.iter().position(|f| f.0 == main).unwrap();
            let f = t2.files.remove(i);
            t2.files.insert(0, f);
            let mut l = Log::default();
            match code_of(prog, &t2, &mut l) {
                Some(c) => Some(c),
                None => {
                    log.undecided(format!("{}: nothing to compare with", t.id));
                    return;
                }
            }
        }
        Fail => None,
    };
    let mut base = model_of(&t);
    base.with_files = true;
    let world = World {
        base,
        args: c.args.to_string(),
        item: c.item.to_string(),
    };
    let mut it = Interp::new(prog, Rc::new(world));
    it.deep = true;
    let ex = it.explore(400, &mut |it| it.call_path(ALL, vec![V::st(IN_ARGS, vec![]), V::st(IN_ITEM, vec![])]));
    let orgs: Orgs = Rc::new(it.orgs.borrow().clone());
    log.fns.extend(it.visited.borrow().iter().cloned());
    log.gen_paths += ex.paths.len();
    if ex.truncated {
        log.undecided(format!("{}: too many outcomes", t.id));
    }
    drop(it);
    let at = fn_site_in(prog, "xsd_derive::generator::generate");
    let top = fn_site_in(prog, ALL);
    let mut seen: BTreeSet<String> = BTreeSet::new();
    for p in ex.paths {
        log.obligations += 1;
        let tk = match &p.out {
            Ok(V::Tokens(t)) => t.clone(),
            Err(Ctl::Panic(m, s)) => {
                log.find(&t.id, "macro", format!("the macro panics: {}", m), s.clone(), p.st.facts.show());
                continue;
            }
            Err(Ctl::Unsupported(m, s)) => {
                log.undecided(format!("{}: {} ({}:{})", t.id, m, s.file, s.line));
                continue;
            }
            o => {
                log.undecided(format!("{}: {:?}", t.id, o.as_ref().map(brief)));
                continue;
            }
        };
        let r = render(&tk);
        if !r.opaque.is_empty() {
            log.undecided(format!("{}: unknown tokens", t.id));
            continue;
        }
        if !seen.insert(r.text.clone()) {
            continue;
        }
        let map = gen_map(&r, &orgs);
        let fails = show_tokens(&tk).contains("compile_error");
        let Some(gen) = &generated else {
            if !fails {
                let what = if BAD_ITEMS.contains(&c.item) {
                    "an item that is not a module is accepted"
                } else if c.args.contains(".xsd\"") && !c.args.contains("ther") && c.args.starts_with("schema =") {
                    "a schema that cannot be processed is not reported as a compile error"
                } else {
                    "arguments that are not valid are accepted"
                };
                log.find(&t.id, "macro", what.into(), top.clone(), p.st.facts.show());
            }
            continue;
        };
        if fails {
            log.find(&t.id, "macro", format!("a module with a valid schema is rejected: {}", show_tokens(&tk).chars().take(200).collect::<String>()), top.clone(), p.st.facts.show());
            continue;
        }
        let file = match syn::parse_file(&r.text) {
            Ok(f) => f,
            Err(e) => {
                log.find(&t.id, "macro", format!("the result is not valid Rust: {}", e), site_at(&map, e.span().start().line), String::new());
                continue;
            }
        };
        let mods: Vec<&syn::ItemMod> = file.items.iter().filter_map(|i| if let syn::Item::Mod(m) = i { Some(m) } else { None }).collect();
        if mods.len() != 1 {
            log.find(&t.id, "macro", "the result is not one module".into(), at.clone(), String::new());
            continue;
        }
        let m = mods[0];
        let want: syn::ItemMod = syn::parse_str(c.item).unwrap();
        if m.ident != want.ident {
            log.find(&t.id, "macro", format!("the module `{}` becomes `{}`", want.ident, m.ident), at.clone(), String::new());
        }
        if text(&m.vis) != text(&want.vis) {
            log.find(&t.id, "macro", format!("the visibility `{}` of the module becomes `{}`", text(&want.vis), text(&m.vis)), at.clone(), String::new());
        }
        for inner in [false, true] {
            let of = |m: &syn::ItemMod| -> Vec<String> {
                m.attrs
                    .iter()
                    .filter(|a| matches!(a.style, syn::AttrStyle::Inner(_)) == inner)
                    .map(text)
                    .collect()
            };
            if !subsequence(&of(&want), &of(m)) {
                log.find(&t.id, "macro", format!("the attributes {:?} of the module become {:?}", of(&want), of(m)), at.clone(), String::new());
            }
        }
        let have: Vec<String> = m.content.iter().flat_map(|c| c.1.iter()).map(text).collect();
        let own: Vec<String> = want.content.iter().flat_map(|c| c.1.iter()).map(text).collect();
        if !subsequence(&own, &have) {
            log.find(&t.id, "macro", format!("not all items of the module are kept in order: {:?}", own.iter().filter(|o| !have.contains(o)).collect::<Vec<_>>()), at.clone(), String::new());
        }
        // the generated ones, apart from those of the user
        let mut rest = have.clone();
        for o in &own {
            if let Some(i) = rest.iter().position(|r| r == o) {
                rest.remove(i);
            }
        }
        let add: Vec<String> = gen.file.items.iter().map(text).collect();
        if !subsequence(&add, &rest) {
            let what = add.iter().find(|a| !rest.contains(a)).cloned().unwrap_or_default();
            log.find(&t.id, "macro", format!("the items generated from the schema are not all added: {}", what.chars().take(120).collect::<String>()), at.clone(), String::new());
        }
        let extra: Vec<&String> = rest.iter().filter(|r| !add.contains(r) && r.contains("Decoy")).collect();
        if !extra.is_empty() {
            log.find(&t.id, "macro", "items of another schema are added".into(), top.clone(), String::new());
        }
    }
}

fn subsequence(a: &[String], b: &[String]) -> bool {
    let mut i = 0;
    for x in b {
        if i < a.len() && *x == a[i] {
            i += 1;
        }
    }
    i == a.len()
}
