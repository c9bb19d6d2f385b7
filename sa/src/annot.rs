//! Where the documentation of a schema ends up in the generated code.
use crate::drive::*;
use crate::load::*;
use crate::render::*;
use crate::run::*;
use crate::tpls::*;
use crate::val::*;
use std::collections::BTreeMap;

/// Where documentation belongs.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum To {
    /// the type with that name
    Type(&'static str),
    /// the field with that name
    Field(&'static str),
    /// the field of a group, which has a name of its own
    Group,
    /// nowhere, or wherever
    Any,
}

/// Documentation is put in place of `@1`, `@2` and so on, `^n` stands for a reference to a declaration.
struct Place {
    id: &'static str,
    to: &'static [To],
    body: &'static str,
}

use To::*;

const fn p(id: &'static str, to: &'static [To], body: &'static str) -> Place {
    Place {
        id,
        to,
        body,
    }
}

const PLACES: &[Place] = &[
    p("element-builtin", &[Type("root")], r#"<xs:element name="root" type="xs:string">@1</xs:element>"#),
    p("element-builtin-int", &[Type("root")], r#"<xs:element name="root" type="xs:int">@1</xs:element><xs:element name="other" type="xs:int"/>"#),
    p("element-named", &[Type("root"), Type("inner")], r#"<xs:element name="root" type="^inner">@1</xs:element><xs:complexType name="inner">@2<xs:sequence><xs:element name="m" type="xs:int"/></xs:sequence></xs:complexType>"#),
    p("element-named-before", &[Type("inner"), Type("root")], r#"<xs:complexType name="inner">@1<xs:sequence><xs:element name="m" type="xs:int"/></xs:sequence></xs:complexType><xs:element name="root" type="^inner">@2</xs:element>"#),
    p("element-anonymous", &[Type("root")], r#"<xs:element name="root">@1<xs:complexType><xs:sequence><xs:element name="m" type="xs:int"/></xs:sequence></xs:complexType></xs:element>"#),
    p("element-anonymous-inner", &[Type("root")], r#"<xs:element name="root"><xs:complexType>@1<xs:sequence><xs:element name="m" type="xs:int"/></xs:sequence></xs:complexType></xs:element>"#),
    p("element-simple", &[Type("root")], r#"<xs:element name="root">@1<xs:simpleType><xs:restriction base="xs:int"/></xs:simpleType></xs:element>"#),
    p("element-empty", &[Type("root")], r#"<xs:element name="root">@1<xs:complexType/></xs:element>"#),
    p("element-choice", &[Type("root")], r#"<xs:element name="root">@1<xs:complexType><xs:choice><xs:element name="m" type="xs:int"/><xs:element name="n" type="xs:string"/></xs:choice></xs:complexType></xs:element>"#),
    p("element-simple-content", &[Type("root")], r#"<xs:element name="root">@1<xs:complexType><xs:simpleContent><xs:extension base="xs:int"/></xs:simpleContent></xs:complexType></xs:element>"#),
    p("type", &[Type("root")], r#"<xs:complexType name="root">@1<xs:sequence><xs:element name="m" type="xs:int"/></xs:sequence></xs:complexType>"#),
    p("type-empty", &[Type("root")], r#"<xs:complexType name="root">@1</xs:complexType>"#),
    p("type-all", &[Type("root")], r#"<xs:complexType name="root">@1<xs:all><xs:element name="m" type="xs:int"/></xs:all></xs:complexType>"#),
    p("type-choice", &[Type("root")], r#"<xs:complexType name="root">@1<xs:choice><xs:element name="m" type="xs:int"/></xs:choice></xs:complexType>"#),
    p("type-attributes", &[Type("root"), Field("t"), Field("u")], r#"<xs:complexType name="root">@1<xs:attribute name="t" type="xs:int">@2</xs:attribute><xs:attribute name="u" type="xs:string" use="required">@3</xs:attribute></xs:complexType>"#),
    p("type-optional", &[Type("root"), Field("m")], r#"<xs:complexType name="root">@1<xs:sequence minOccurs="0"><xs:element name="m" type="xs:int">@2</xs:element><xs:element name="n" type="xs:int"/></xs:sequence></xs:complexType>"#),
    p("type-simple-content", &[Type("root"), Field("t")], r#"<xs:complexType name="root">@1<xs:simpleContent><xs:extension base="xs:int"><xs:attribute name="t" type="xs:int">@2</xs:attribute></xs:extension></xs:simpleContent></xs:complexType>"#),
    p("type-extension", &[Type("root"), Field("m"), Field("t"), Type("base"), Field("n")], r#"<xs:complexType name="root">@1<xs:complexContent><xs:extension base="^base"><xs:sequence><xs:element name="m" type="xs:int">@2</xs:element></xs:sequence><xs:attribute name="t" type="xs:int">@3</xs:attribute></xs:extension></xs:complexContent></xs:complexType><xs:complexType name="base">@4<xs:sequence><xs:element name="n" type="xs:int">@5</xs:element></xs:sequence></xs:complexType>"#),
    p("type-extension-only", &[Type("root"), Field("t"), Type("base")], r#"<xs:complexType name="root">@1<xs:complexContent><xs:extension base="^base"><xs:attribute name="t" type="xs:int">@2</xs:attribute></xs:extension></xs:complexContent></xs:complexType><xs:complexType name="base">@3<xs:sequence><xs:element name="n" type="xs:int"/></xs:sequence></xs:complexType>"#),
    p("local", &[Field("a"), Field("b"), Field("c"), Field("d")], r#"<xs:element name="root"><xs:complexType><xs:sequence><xs:element name="a" type="xs:string">@1</xs:element><xs:element name="b" type="xs:int" minOccurs="0">@2</xs:element><xs:element name="c" type="xs:int" maxOccurs="unbounded">@3</xs:element><xs:element name="d" type="xs:string" fixed="x">@4</xs:element></xs:sequence></xs:complexType></xs:element>"#),
    p("local-all", &[Field("a"), Field("b")], r#"<xs:element name="root"><xs:complexType><xs:all><xs:element name="a" type="xs:string">@1</xs:element><xs:element name="b" type="xs:int" minOccurs="0">@2</xs:element></xs:all></xs:complexType></xs:element>"#),
    p("local-named", &[Field("a"), Type("inner"), Field("b")], r#"<xs:complexType name="root"><xs:sequence><xs:element name="a" type="^inner">@1</xs:element><xs:element name="b" type="^inner" maxOccurs="2">@3</xs:element></xs:sequence></xs:complexType><xs:complexType name="inner">@2<xs:sequence><xs:element name="m" type="xs:int"/></xs:sequence></xs:complexType>"#),
    p("local-any", &[Field("a")], r#"<xs:complexType name="root"><xs:sequence><xs:element name="a">@1</xs:element></xs:sequence></xs:complexType>"#),
    p("local-anonymous", &[Field("a"), Any, Field("m")], r#"<xs:complexType name="root"><xs:sequence><xs:element name="a">@1<xs:complexType>@2<xs:sequence><xs:element name="m" type="xs:int">@3</xs:element></xs:sequence></xs:complexType></xs:element></xs:sequence></xs:complexType>"#),
    p("local-enum", &[Field("a")], r#"<xs:complexType name="root"><xs:sequence><xs:element name="a">@1<xs:simpleType><xs:restriction base="xs:string"><xs:enumeration value="x"/></xs:restriction></xs:simpleType></xs:element></xs:sequence></xs:complexType>"#),
    p("local-simple", &[Field("a"), Any], r#"<xs:complexType name="root"><xs:sequence><xs:element name="a">@1<xs:simpleType>@2<xs:restriction base="xs:string"/></xs:simpleType></xs:element></xs:sequence></xs:complexType>"#),
    p("local-ref", &[Field("e"), Type("e"), Field("f")], r#"<xs:complexType name="root"><xs:sequence><xs:element ref="^e">@1</xs:element><xs:element ref="^f" minOccurs="0">@3</xs:element></xs:sequence></xs:complexType><xs:element name="e" type="xs:int">@2</xs:element><xs:element name="f" type="xs:int"/>"#),
    p("local-in-group", &[Field("a"), Group, Field("b")], r#"<xs:element name="root"><xs:complexType><xs:sequence><xs:element name="a" type="xs:string">@1</xs:element><xs:sequence minOccurs="0">@2<xs:element name="b" type="xs:int">@3</xs:element><xs:element name="c" type="xs:int"/></xs:sequence></xs:sequence></xs:complexType></xs:element>"#),
    p("local-in-required-group", &[Field("a"), Group, Field("b")], r#"<xs:complexType name="root"><xs:sequence><xs:element name="a" type="xs:string">@1</xs:element><xs:sequence>@2<xs:element name="b" type="xs:int">@3</xs:element><xs:element name="c" type="xs:int"/></xs:sequence></xs:sequence></xs:complexType>"#),
    p("local-in-variant", &[Any, Field("b")], r#"<xs:complexType name="root"><xs:choice><xs:element name="a" type="xs:string">@1</xs:element><xs:sequence><xs:element name="b" type="xs:int">@2</xs:element><xs:element name="c" type="xs:int"/></xs:sequence></xs:choice></xs:complexType>"#),
    p("attributes", &[Field("t"), Field("u"), Field("v"), Field("w"), Field("m")], r#"<xs:element name="root"><xs:complexType><xs:sequence><xs:element name="m" type="xs:int">@5</xs:element></xs:sequence><xs:attribute name="t" type="xs:int">@1</xs:attribute><xs:attribute name="u" use="required">@2<xs:simpleType><xs:restriction base="xs:string"><xs:enumeration value="x"/></xs:restriction></xs:simpleType></xs:attribute><xs:attribute name="v" type="^simple">@3</xs:attribute><xs:attribute name="w" type="xs:string" fixed="f">@4</xs:attribute></xs:complexType></xs:element><xs:simpleType name="simple"><xs:restriction base="xs:int"/></xs:simpleType>"#),
    // the one of the element is more specific than that of its type
    p("precedence", &[Type("root"), Any], r#"<xs:element name="root">@1<xs:complexType>@2<xs:sequence><xs:element name="m" type="xs:int"/></xs:sequence></xs:complexType></xs:element>"#),
    p("precedence-content", &[Type("root"), Any], r#"<xs:element name="root">@1<xs:complexType>@2<xs:simpleContent><xs:extension base="xs:int"/></xs:simpleContent></xs:complexType></xs:element>"#),
    p("precedence-extension", &[Type("root"), Any, Type("base")], r#"<xs:element name="root">@1<xs:complexType>@2<xs:complexContent><xs:extension base="^base"/></xs:complexContent></xs:complexType></xs:element><xs:complexType name="base">@3<xs:sequence><xs:element name="m" type="xs:int"/></xs:sequence></xs:complexType>"#),
    p("precedence-choice", &[Type("root"), Any], r#"<xs:element name="root">@1<xs:complexType>@2<xs:choice><xs:element name="m" type="xs:int"/></xs:choice></xs:complexType></xs:element>"#),
    p("precedence-simple", &[Type("root"), Any], r#"<xs:element name="root">@1<xs:simpleType>@2<xs:restriction base="xs:int"/></xs:simpleType></xs:element>"#),
];

/// What stands in the annotation, and what is left of it.
const TEXTS: &[(&str, Option<&str>)] = &[
    ("<xs:documentation>Some text#.</xs:documentation>", Some("Some text#.")),
    ("<xs:documentation>x#</xs:documentation>", Some("x#")),
    ("<xs:documentation>  Some\n\t\t  text#,\r\n\n that  goes on </xs:documentation>", Some("Some text#, that goes on")),
    ("<xs:documentation>\n\n  First#.\n\n  Second.\n</xs:documentation>", Some("First#. Second.")),
    ("<xs:documentation xml:lang=\"en\">é 漢字 # \\ ¤ 'q' {} /* */ //</xs:documentation>", Some("é 漢字 # \\ \" 'q' {} /* */ //")),
    ("<xs:documentation>one#</xs:documentation><xs:documentation>two</xs:documentation>", Some("one#")),
    ("<xs:documentation>\ta#<!-- c -->b </xs:documentation>", Some("a#b")),
    ("<xs:documentation source=\"urn:x\">0#</xs:documentation>", Some("0#")),
    ("<xs:documentation></xs:documentation>", None),
    ("<xs:documentation/>", None),
    ("<xs:documentation> \n </xs:documentation>", None),
    ("", None),
];

fn annotation(t: &str, n: usize) -> String {
    format!("<xs:annotation>{}</xs:annotation>", t.replace('#', &n.to_string()))
}

struct Case {
    tpl: Tpl,
    /// what belongs where
    want: Vec<(To, Option<String>)>,
}

fn case(ns: Ns, pl: &Place, what: &str, texts: &[Option<usize>]) -> Case {
    let mut b = pl.body.to_string();
    let mut want = vec![];
    for (i, to) in pl.to.iter().enumerate() {
        let a = match texts[i] {
            Some(k) => annotation(TEXTS[k].0, i),
            None => String::new(),
        };
        b = b.replace(&format!("@{}", i + 1), &a);
        want.push((*to, texts[i].and_then(|k| TEXTS[k].1).map(|s| s.replace('#', &i.to_string()))));
    }
    while let Some(i) = b.find('^') {
        let e = i + 1 + b[i + 1..].find('"').unwrap();
        b = format!("{}{}{}", &b[..i], ns.q(&b[i + 1..e]), &b[e..]);
    }
    // the type's own one only counts if the element has none
    if pl.id.starts_with("precedence") && want[0].1.is_none() {
        want[0].1 = want[1].1.clone();
    }
    Case {
        tpl: ns.schema(&format!("docs/{}/{}", pl.id, what), &b),
        want,
    }
}

fn cases(all: bool) -> Vec<Case> {
    let mut out = vec![];
    for (i, pl) in PLACES.iter().enumerate() {
        let n = pl.to.len();
        let mut k = 0;
        let mut add = |what: &str, t: Vec<Option<usize>>| {
            k += 1;
            if all {
                for ns in NSS {
                    out.push(case(ns, pl, what, &t));
                }
            } else {
                out.push(case(NSS[(i + k) % 4], pl, what, &t));
            }
        };
        add("none", vec![None; n]);
        for t in 0..TEXTS.len() {
            add(&format!("all-{}", t), vec![Some(t); n]);
            for a in 0..n {
                if n > 1 && (all || t == a % TEXTS.len() || t == 2 || t >= 8) {
                    // one of them, and all but one
                    let one = |x: bool| (0..n).map(|b| if (b == a) == x { Some(t) } else { None }).collect();
                    add(&format!("only{}-{}", a, t), one(true));
                    add(&format!("but{}-{}", a, t), one(false));
                    // one of them is empty
                    add(&format!("mixed{}-{}", a, t), (0..n).map(|b| Some(if a == b { t } else { (b + 2) % 8 })).collect());
                }
            }
        }
        add("mixed", (0..n).map(|a| Some((a + i) % 8)).collect());
    }
    out
}

pub fn jobs(all: bool) -> Vec<(String, Job)> {
    cases(all)
        .into_iter()
        .map(|c| {
            let id = c.tpl.id.clone();
            let j: Job = Box::new(move |p: &mut Program| {
                let mut log = Log::default();
                check(p, &c, &mut log);
                Sum::of(log, &c.tpl.files)
            });
            (id, j)
        })
        .collect()
}

fn doc_of(attrs: &[syn::Attribute]) -> Vec<(Option<String>, usize)> {
    attrs
        .iter()
        .filter(|a| a.path().is_ident("doc"))
        .map(|a| {
            use syn::spanned::Spanned;
            let l = a.span().start().line;
            match &a.meta {
                syn::Meta::NameValue(n) => match &n.value {
                    syn::Expr::Lit(syn::ExprLit {
                        lit: syn::Lit::Str(s),
                        ..
                    }) => (decode_str(&s.value()).as_lit().map(|s| s.to_string()), l),
                    _ => (None, l),
                },
                _ => (None, l),
            }
        })
        .collect()
}

fn check(prog: &Program, c: &Case, log: &mut Log) {
    let t = &c.tpl;
    let Some(code) = code_of(prog, t, log) else { return };
    // all that can have documentation: the place, its documentation and its line
    let mut have: Vec<(String, Option<String>, Vec<(Option<String>, usize)>, usize)> = vec![];
    for i in &code.file.items {
        match i {
            syn::Item::Struct(s) => {
                have.push((s.ident.to_string(), None, doc_of(&s.attrs), s.ident.span().start().line));
                for f in &s.fields {
                    if let Some(n) = &f.ident {
                        have.push((s.ident.to_string(), Some(n.to_string()), doc_of(&f.attrs), n.span().start().line));
                    }
                }
            }
            syn::Item::Enum(s) => {
                have.push((s.ident.to_string(), None, doc_of(&s.attrs), s.ident.span().start().line));
                for v in &s.variants {
                    have.push((s.ident.to_string(), Some(format!("::{}", v.ident)), doc_of(&v.attrs), v.ident.span().start().line));
                }
            }
            _ => {}
        }
    }
    // names of everything that is declared
    let docs = t.docs();
    let mut names: Vec<String> = vec![];
    for n in &docs[0].nodes {
        for a in &n.attrs {
            if a.name.as_lit().as_deref() == Some("name") || a.name.as_lit().as_deref() == Some("ref") {
                if let Some(v) = a.value.as_lit() {
                    names.push(v.rsplit(':').next().unwrap_or("").to_string());
                }
            }
        }
    }
    let named = |i: &str, n: &str| ident_is(i, &lit(n));
    let mut done = vec![false; have.len()];
    let mut texts: BTreeMap<String, ()> = BTreeMap::new();
    let free = c.want.iter().any(|w| w.0 == Any);
    for (to, want) in &c.want {
        log.obligations += 1;
        if let Some(w) = want {
            texts.insert(w.clone(), ());
        }
        let at: Vec<usize> = (0..have.len())
            .filter(|i| {
                let h = &have[*i];
                match (to, &h.1) {
                    (Type(n), None) => named(&h.0, n),
                    (Field(n), Some(f)) => named(f, n) && !f.starts_with("::"),
                    (Group, Some(f)) => !f.starts_with("::") && !names.iter().any(|n| named(f, n)),
                    _ => false,
                }
            })
            .collect();
        if *to == Any {
            continue;
        }
        let what = match to {
            Type(n) => format!("the type `{}`", n),
            Field(n) => format!("the field `{}`", n),
            Group => "the field of the nested sequence".to_string(),
            Any => unreachable!(),
        };
        // several of them: there is no telling which one is meant
        if at.len() != 1 {
            if at.is_empty() {
                log.undecided(format!("{}: {} is not generated", t.id, what));
            } else {
                log.undecided(format!("{}: {} is ambiguous", t.id, what));
            }
            at.iter().for_each(|i| done[*i] = true);
            continue;
        }
        let i = at[0];
        done[i] = true;
        let got = &have[i].2;
        let line = got.first().map(|g| g.1).unwrap_or(have[i].3);
        let text: Option<Vec<String>> = got.iter().map(|g| g.0.clone()).collect();
        let Some(text) = text else {
            log.undecided(format!("{}: documentation of {} is unknown", t.id, what));
            continue;
        };
        let ok = match want {
            Some(w) => text.len() == 1 && text[0] == *w,
            None => text.is_empty(),
        };
        if !ok {
            let msg = match want {
                Some(w) if text.is_empty() => format!("{} has no documentation instead of {:?}", what, w),
                Some(w) => format!("{} has the documentation {:?} instead of {:?}", what, text, w),
                None => format!("{} has the documentation {:?} instead of none", what, text),
            };
            log.find(&t.id, "docs", msg, site_at(&code.map, line), String::new());
        }
    }
    for (i, h) in have.iter().enumerate() {
        if done[i] {
            continue;
        }
        log.obligations += 1;
        // types that are not declared by name may repeat what is said about the element
        let declared = match &h.1 {
            None => names.iter().any(|n| named(&h.0, n)),
            Some(f) => !f.starts_with("::"),
        };
        for (d, l) in &h.2 {
            let Some(d) = d else { continue };
            if d.is_empty() || declared || !(texts.contains_key(d) || free) {
                let w = match &h.1 {
                    None => h.0.clone(),
                    Some(f) => format!("{}.{}", h.0, f),
                };
                log.find(&t.id, "docs", format!("`{}` has the documentation {:?}, which is not about it", w, d), site_at(&code.map, *l), String::new());
            }
        }
    }
}
