//! Schemas that are odd: whatever they mean, processing them has to end in code or in an error.
use crate::drive::*;
use crate::interp::Ctl;
use crate::load::*;
use crate::run::*;
use crate::val::*;
use std::collections::BTreeMap;

/// What can be put in place of the value of an attribute.
pub const VALUES: &[&str] = &[
    "", " ", ":", "a:", ":a", "a:b:c", "é", "漢字", "x⁰", "½", "1", "-1", "0", "99999999999999999999999", "1.5", "unbounded", "xs:", "xs:string", "xs:é", "zz:a", "p:", "p:%other", "self", "_", "-", ".", "a b", "$odd", "p:$odd", "true",
];

/// The places of the values of attributes.
fn values(s: &str) -> Vec<(usize, usize)> {
    let mut out = vec![];
    let mut i = 0;
    while let Some(a) = s[i..].find("=\"") {
        let b = i + a + 2;
        let e = b + s[b..].find('"').unwrap();
        out.push((b, e));
        i = e + 1;
    }
    out
}

/// The places of elements: start, end of the start tag, start of the end tag, end.
pub fn elements(s: &str) -> Vec<(usize, usize, usize, usize)> {
    let mut out = vec![];
    let mut open: Vec<(usize, usize)> = vec![];
    let mut i = 0;
    while let Some(a) = s[i..].find('<') {
        let b = i + a;
        let e = b + s[b..].find('>').unwrap() + 1;
        if s[b..].starts_with("</") {
            if let Some((x, y)) = open.pop() {
                out.push((x, y, b, e));
            }
        } else if s[b..].starts_with("<!") {
        } else if s[..e].ends_with("/>") {
            out.push((b, e, e, e));
        } else {
            open.push((b, e));
        }
        i = e;
    }
    out.sort();
    out
}

/// Everything that can be done to a schema in one step.
pub fn steps(id: &str, s: &str, all: bool) -> Vec<(String, String)> {
    let mut out = vec![];
    for (n, (b, e)) in values(s).into_iter().enumerate() {
        for (k, v) in VALUES.iter().enumerate() {
            if all || (n + k) % 3 == 0 || k < 3 {
                out.push((format!("{}/value{}={}", id, n, v), format!("{}{}{}", &s[..b], v, &s[e..])));
            }
        }
        // without the attribute
        let a = s[..b].rfind(' ').unwrap();
        out.push((format!("{}/without-attribute{}", id, n), format!("{}{}", &s[..a], &s[e + 1..])));
    }
    let els = elements(s);
    for (n, (a, b, c, d)) in els.iter().copied().enumerate() {
        out.push((format!("{}/without-element{}", id, n), format!("{}{}", &s[..a], &s[d..])));
        out.push((format!("{}/twice{}", id, n), format!("{}{}{}", &s[..d], &s[a..d], &s[d..])));
        if c > b {
            out.push((format!("{}/emptied{}", id, n), format!("{}{}", &s[..b], &s[c..])));
            out.push((format!("{}/unwrapped{}", id, n), format!("{}{}{}", &s[..a], &s[b..c], &s[d..])));
            // nested in itself
            out.push((format!("{}/nested{}", id, n), format!("{}{}{}{}{}", &s[..b], &s[a..b], &s[b..c], &s[c..d], &s[c..])));
        }
    }
    out
}

const XS: &str = r#"xmlns:xs="http://www.w3.org/2001/XMLSchema""#;

fn tpl(id: &str, body: &str) -> Tpl {
    Tpl {
        id: format!("odd/{}", id),
        files: vec![("/s/main.xsd".into(), format!(r#"<xs:schema {} xmlns:p="http://t.example/T/" targetNamespace="http://t.example/T/">{}</xs:schema>"#, XS, body))],
    }
}

/// Schemas that have more than one construct that depend on each other.
const BASES: &[(&str, &str)] = &[
    (
        "extended",
        r#"<xs:complexType name="B"><xs:sequence><xs:element name="x" type="xs:int"/></xs:sequence><xs:attribute name="a" type="xs:int"/></xs:complexType><xs:complexType name="C"><xs:complexContent><xs:extension base="p:B"><xs:sequence><xs:choice><xs:element name="y" type="p:B"/></xs:choice></xs:sequence></xs:extension></xs:complexContent></xs:complexType>"#,
    ),
    (
        "enumeration",
        r#"<xs:simpleType name="E"><xs:restriction base="xs:string"><xs:enumeration value="a"/><xs:enumeration value="b"/></xs:restriction></xs:simpleType><xs:element name="e" type="p:E"/>"#,
    ),
    (
        "reference",
        r#"<xs:element name="e" type="xs:int" fixed="1"/><xs:element name="r"><xs:complexType><xs:sequence><xs:element ref="p:e" minOccurs="0"/></xs:sequence></xs:complexType></xs:element>"#,
    ),
    (
        "self",
        r#"<xs:complexType name="N"><xs:sequence><xs:element name="n" type="p:N" minOccurs="0" maxOccurs="unbounded"/></xs:sequence></xs:complexType><xs:element name="N" type="p:N"/>"#,
    ),
    (
        "groups",
        r#"<xs:complexType name="G"><xs:sequence><xs:sequence minOccurs="0"><xs:element name="a" type="xs:int"/></xs:sequence><xs:choice maxOccurs="3"><xs:element name="b" type="xs:int"/><xs:sequence><xs:element name="c" type="xs:int"/></xs:sequence></xs:choice></xs:sequence></xs:complexType>"#,
    ),
    (
        "local",
        r#"<xs:element name="r"><xs:complexType><xs:all><xs:element name="a"><xs:simpleType><xs:restriction base="xs:string"><xs:enumeration value="v"/></xs:restriction></xs:simpleType></xs:element><xs:element name="b"><xs:complexType><xs:simpleContent><xs:extension base="xs:int"><xs:attribute name="c" use="required"><xs:simpleType><xs:restriction base="xs:string"/></xs:simpleType></xs:attribute></xs:extension></xs:simpleContent></xs:complexType></xs:element></xs:all></xs:complexType></xs:element>"#,
    ),
    (
        "facets",
        r#"<xs:simpleType name="F"><xs:restriction base="xs:decimal"><xs:length value="1"/><xs:minLength value="1"/><xs:maxLength value="1"/><xs:pattern value="[a-z]"/><xs:minInclusive value="1"/><xs:maxInclusive value="1"/><xs:fractionDigits value="1"/><xs:totalDigits value="1"/></xs:restriction></xs:simpleType>"#,
    ),
    (
        "documented",
        r#"<xs:element name="e"><xs:annotation><xs:documentation>text</xs:documentation></xs:annotation><xs:complexType><xs:annotation><xs:documentation/></xs:annotation><xs:attribute name="a" type="xs:int"><xs:annotation><xs:documentation>é</xs:documentation></xs:annotation></xs:attribute></xs:complexType></xs:element>"#,
    ),
];

/// Attributes of the schema itself.
const ROOTS: &[(&str, &str)] = &[
    ("target", r#"<xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema" xmlns:p="http://t.example/T/" xmlns="urn:d" targetNamespace="http://t.example/T/" elementFormDefault="qualified"><xs:element name="e" type="p:T"/><xs:complexType name="T"><xs:sequence><xs:element name="x" type="U"/></xs:sequence></xs:complexType></xs:schema>"#),
    ("none", r#"<xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema"><xs:element name="e" type="T"/><xs:complexType name="T"><xs:attribute name="x" type="xs:int"/></xs:complexType></xs:schema>"#),
    ("include", r#"<xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema" targetNamespace="http://t.example/T/"><xs:include schemaLocation="other.xsd"/><xs:import namespace="urn:o" schemaLocation="other.xsd"/></xs:schema>"#),
    ("default", r#"<schema xmlns="http://www.w3.org/2001/XMLSchema"><element name="e" type="string"/></schema>"#),
];

pub fn all(thorough: bool) -> Vec<Tpl> {
    let mut out: Vec<Tpl> = vec![];
    for (id, b) in BASES {
        out.extend(steps(id, b, true).iter().map(|(i, b)| tpl(i, b)));
    }
    for (id, s) in ROOTS {
        for (i, s) in steps(&format!("odd/schema-{}", id), s, true) {
            // nothing at all is not well-formed
            if s.contains('<') {
                let mut files = vec![("/s/main.xsd".to_string(), s)];
                if *id == "include" {
                    files.push(("/s/other.xsd".into(), format!(r#"<xs:schema {} targetNamespace="urn:o"><xs:element name="o" type="xs:int"/></xs:schema>"#, XS)));
                }
                out.push(Tpl {
                    id: i,
                    files,
                });
            }
        }
    }
    for (id, b) in crate::bad::bodies() {
        out.extend(steps(id, &b, thorough).iter().map(|(i, b)| tpl(i, b)));
    }
    out
}

pub fn job(t: Tpl) -> Job {
    Box::new(move |p: &mut Program| {
        let mut log = Log::default();
        log.templates += 1;
        let main = t.files[0].0.clone();
        let r = generate_from(p, &t, &main, 600, &mut log);
        check(&t, r, &mut log);
        Sum::of(log, &t.files)
    })
}

/// Schemas that are given as text, together with the path they are said to have.
pub fn texts() -> Vec<(String, Job)> {
    let mut out: Vec<(String, Job)> = vec![];
    for path in ["", "/", ".", "..", "a.xsd", "a/b.xsd", "/s/../a.xsd", "é", "a/"] {
        for (k, (what, body)) in [
            ("plain", r#"<xs:element name="%e" type="xs:int"/>"#),
            ("include", r#"<xs:include schemaLocation="%other"/>"#),
            ("include-empty", r#"<xs:include schemaLocation=""/>"#),
            ("wrong", r#"<xs:element name="%e" type="zz:int"/>"#),
            ("unknown", r#"<xs:$odd/>"#),
            ("malformed", ""),
        ]
        .into_iter()
        .enumerate()
        {
            let mut t = tpl(&format!("path/{:?}/{}", path, what), body);
            t.files[0].0 = "/text".to_string();
            if k == 5 {
                t.files[0].1 = "malformed".into();
            }
            out.push((
                t.id.clone(),
                Box::new(move |p: &mut Program| {
                    let mut log = Log::default();
                    log.templates += 1;
                    let r = generate_with(p, &t, 600, &mut log, &mut |it| it.call_path("xsd_internal::xsd::schema::Schema::parse", vec![text(), lit(path)]));
                    check(&t, r, &mut log);
                    Sum::of(log, &t.files)
                }),
            ));
        }
    }
    out
}

/// The text of the first file.
fn text() -> V {
    V::Str(std::rc::Rc::new(vec![SP::Term(term(TermKind::Var("doc:0".into()), Ty::adt("String")))]))
}

fn check(t: &Tpl, r: (Vec<GenPath>, bool, Orgs), log: &mut Log) {
    let (paths, truncated, orgs) = r;
    let generic = !t.files.iter().any(|f| f.1.contains("$odd"));
    if truncated {
        log.undecided(format!("{}: too many outcomes", t.id));
    }
    let mut seen: BTreeMap<String, (String, V)> = Default::default();
    for g in &paths {
        log.obligations += 1;
        let facts = g.st.facts.show();
        match &g.out {
            Ok(v) => {
                // different outcomes although everything is the same
                let shown = match is_ok_tokens(v) {
                    Some(x) => show_tokens(&x),
                    None => format!("{:?}", v),
                };
                let key = g.st.facts.show_inputs();
                if shown.contains("nondet:") {
                    let s = is_ok_tokens(v).map(|x| first_nondet(&x, &orgs)).unwrap_or_else(|| err_site(&g.st, v).0);
                    log.find(&t.id, "nondet", NONDET.into(), s, String::new());
                }
                match seen.get(&key) {
                    Some((o, w)) if *o != shown && (g.hash || g.around) && generic => {
                        let s = match (is_ok_tokens(w), is_ok_tokens(v)) {
                            (Some(x), Some(y)) => diff_site(&x, &y, &orgs),
                            _ => err_site(&g.st, v).0,
                        };
                        log.find(&t.id, "nondet", NONDET.into(), s, String::new());
                    }
                    Some(_) => {}
                    None => {
                        seen.insert(key, (shown, v.clone()));
                    }
                }
            }
            Err(Ctl::Panic(m, s)) => log.find(&t.id, "gen-panic", format!("processing the schema panics: {}", m), s.clone(), facts),
            Err(Ctl::Unsupported(m, s)) => log.undecided(format!("{}: {} ({}:{})", t.id, m, s.file, s.line)),
            Err(o) => log.undecided(format!("{}: {:?}", t.id, o)),
        }
    }
    let _ = orgs;
}
