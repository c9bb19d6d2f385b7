//! Schemas that consist of several files.
use crate::drive::*;
use crate::tpls::*;

const X: &str = r#"xmlns:xs="http://www.w3.org/2001/XMLSchema""#;

fn file(path: &str, attrs: &str, body: &str) -> (String, String) {
    (format!("/s/{}", path), format!("<xs:schema {}{}>{}</xs:schema>", X, attrs, body))
}

fn t(id: &str, files: Vec<(String, String)>) -> Tpl {
    Tpl {
        id: format!("files/{}", id),
        files,
    }
}

fn inc(l: &str) -> String {
    format!(r#"<xs:include schemaLocation="{}"/>"#, l)
}

fn imp(l: &str) -> String {
    format!(r#"<xs:import namespace="urn:x" schemaLocation="{}"/>"#, l)
}

/// A complex type with one member of the given type.
fn ty(name: &str, member: &str, of: &str) -> String {
    format!(
        r#"<xs:complexType name="{}"><xs:sequence><xs:element name="{}" type="{}"/></xs:sequence></xs:complexType>"#,
        name, member, of
    )
}

fn el(name: &str, of: &str) -> String {
    format!(r#"<xs:element name="{}" type="{}"/>"#, name, of)
}

/// An element with an anonymous type and an anonymous choice, an enumeration and an attribute.
fn rich(p: &str) -> String {
    format!(
        r#"<xs:element name="{p}e"><xs:complexType><xs:sequence><xs:choice minOccurs="0"><xs:element name="{p}c" type="xs:string"/><xs:element name="{p}d" type="xs:int"/></xs:choice><xs:element name="{p}f"><xs:complexType><xs:attribute name="{p}g"><xs:simpleType>{ENUM}</xs:simpleType></xs:attribute></xs:complexType></xs:element></xs:sequence></xs:complexType></xs:element>"#
    )
}

/// The attributes of the schema element, by namespace situation.
pub fn head(ns: Ns, uri: &str) -> String {
    match ns {
        Ns::No => String::new(),
        // as by default, but explicitly
        Ns::Un => format!(r#" xmlns:p="{0}" targetNamespace="{0}" elementFormDefault="unqualified""#, uri),
        Ns::Qu => format!(r#" xmlns:p="{0}" targetNamespace="{0}" elementFormDefault="qualified""#, uri),
        Ns::De => format!(r#" xmlns="{0}" targetNamespace="{0}" elementFormDefault="qualified""#, uri),
    }
}

/// Files of one namespace.
pub fn includes(ns: Ns) -> Vec<Tpl> {
    let h = head(ns, "http://t.example/T/");
    let f = |p: &str, b: String| file(p, &h, &b);
    let q = |n: &str| ns.q(n);
    let mut out = vec![];
    let id = |x: &str| format!("{}/{}", x, ns.id());
    for (how, tag) in [("include", inc as fn(&str) -> String), ("import", imp)] {
        // one file, in different places
        for (w, loc) in [("same", "i.xsd"), ("below", "sub/i.xsd"), ("deep", "sub/sub/i.xsd"), ("above", "../i.xsd"), ("beside", "../o/i.xsd"), ("dot", "./i.xsd"), ("detour", "sub/../i.xsd"), ("space", "a b/c%20d.xsd"), ("case", "I.XSD"), ("dots", "a..b/.c.d.xsd")] {
            let real = crate::stdm::path_norm(&format!("d/{}", loc));
            out.push(t(
                &id(&format!("{}/{}", how, w)),
                vec![
                    f("d/main.xsd", tag(loc) + &el("%r", &q("%A")) + &ty("%M", "%x", &q("%B"))),
                    f(&real, ty("%A", "%y", "xs:int") + &ty("%B", "%z", &q("%A"))),
                ],
            ));
        }
        // declarations before and after
        out.push(t(
            &id(&format!("{}/between", how)),
            vec![
                f("main.xsd", el("%r", &q("%A")) + &tag("i.xsd") + &ty("%M", "%x", &q("%B")) + &tag("j.xsd") + &el("%s", "xs:int")),
                f("i.xsd", ty("%A", "%y", "xs:int")),
                f("j.xsd", ty("%B", "%z", &q("%A"))),
            ],
        ));
        // files that are included by others, relative to those
        out.push(t(
            &id(&format!("{}/nested", how)),
            vec![
                f("main.xsd", tag("a/i.xsd") + &el("%r", &q("%A"))),
                f("a/i.xsd", tag("b/j.xsd") + &ty("%A", "%y", &q("%B"))),
                f("a/b/j.xsd", tag("../k.xsd") + &ty("%B", "%z", &q("%C"))),
                f("a/k.xsd", tag("../l.xsd") + &ty("%C", "%w", &q("%D"))),
                f("l.xsd", ty("%D", "%v", "xs:string")),
            ],
        ));
        // files of the same name elsewhere
        out.push(t(
            &id(&format!("{}/decoy", how)),
            vec![
                f("main.xsd", tag("a/i.xsd") + &el("%r", &q("%A"))),
                f("a/i.xsd", tag("j.xsd") + &ty("%A", "%y", &q("%B"))),
                f("a/j.xsd", ty("%B", "%z", "xs:int")),
                f("j.xsd", ty("%B", "%w", "xs:string")),
            ],
        ));
        out.push(t(
            &id(&format!("{}/samename", how)),
            vec![
                f("main.xsd", tag("a/i.xsd") + &tag("b/i.xsd") + &el("%r", &q("%A"))),
                f("a/i.xsd", ty("%A", "%y", &q("%B"))),
                f("b/i.xsd", ty("%B", "%z", "xs:int")),
            ],
        ));
        // the same location, but of other files
        out.push(t(
            &id(&format!("{}/samelocation", how)),
            vec![
                f("main.xsd", tag("a/i.xsd") + &tag("b/j.xsd") + &el("%r", &q("%A")) + &el("%s", &q("%B"))),
                f("a/i.xsd", tag("t.xsd") + &ty("%A", "%y", &q("%C"))),
                f("b/j.xsd", tag("t.xsd") + &ty("%B", "%z", &q("%D"))),
                f("a/t.xsd", ty("%C", "%v", "xs:int")),
                f("b/t.xsd", ty("%D", "%w", "xs:int")),
            ],
        ));
        // more than one way
        out.push(t(
            &id(&format!("{}/diamond", how)),
            vec![
                f("main.xsd", tag("a.xsd") + &tag("b.xsd") + &el("%r", &q("%A"))),
                f("a.xsd", tag("sub/c.xsd") + &ty("%A", "%y", &q("%C"))),
                f("b.xsd", tag("sub/../sub/c.xsd") + &ty("%B", "%z", &q("%C"))),
                f("sub/c.xsd", ty("%C", "%w", "xs:int") + &rich("%")),
            ],
        ));
        out.push(t(&id(&format!("{}/twice", how)), vec![f("main.xsd", tag("a.xsd") + &tag("a.xsd") + &el("%r", &q("%A"))), f("a.xsd", ty("%A", "%y", "xs:int") + &rich("%"))]));
        // circles
        out.push(t(&id(&format!("{}/self", how)), vec![f("main.xsd", tag("main.xsd") + &el("%r", &q("%A")) + &ty("%A", "%y", "xs:int"))]));
        out.push(t(
            &id(&format!("{}/circle2", how)),
            vec![
                f("main.xsd", tag("sub/a.xsd") + &el("%r", &q("%A")) + &ty("%B", "%z", "xs:int")),
                f("sub/a.xsd", tag("../main.xsd") + &ty("%A", "%y", &q("%B"))),
            ],
        ));
        out.push(t(
            &id(&format!("{}/circle3", how)),
            vec![
                f("main.xsd", el("%r", &q("%A")) + &tag("a.xsd") + &rich("%")),
                f("a.xsd", ty("%A", "%y", &q("%B")) + &tag("b.xsd")),
                f("b.xsd", tag("c.xsd") + &ty("%B", "%z", &q("%C"))),
                f("c.xsd", tag("a.xsd") + &tag("main.xsd") + &ty("%C", "%w", "xs:int")),
            ],
        ));
        // everything that can be declared
        out.push(t(
            &id(&format!("{}/rich", how)),
            vec![
                f("main.xsd", tag("a.xsd") + &format!(r#"<xs:complexType name="%M"><xs:complexContent><xs:extension base="{}"><xs:sequence><xs:element ref="{}"/></xs:sequence></xs:extension></xs:complexContent></xs:complexType>"#, q("%A"), q("%e"))),
                f("a.xsd", ty("%A", "%y", &q("%S")) + &rich("%") + &format!(r#"<xs:simpleType name="%S">{}</xs:simpleType>"#, ENUM)),
            ],
        ));
        // nothing of its own
        out.push(t(&id(&format!("{}/only", how)), vec![f("main.xsd", tag("a.xsd")), f("a.xsd", tag("b.xsd")), f("b.xsd", el("%r", "xs:int") + &rich("%"))]));
        out.push(t(&id(&format!("{}/empty", how)), vec![f("main.xsd", tag("a.xsd") + &el("%r", "xs:int")), f("a.xsd", String::new())]));
    }
    out
}

/// Declarations of the same name in several namespaces.
pub fn same_names() -> Vec<Tpl> {
    [Ns::Un, Ns::Qu, Ns::De]
        .into_iter()
        .map(|a| {
            t(
                &format!("import3/samename/{}", a.id()),
                vec![
                    file("main.xsd", &format!(r#"{} xmlns:o="urn:N" xmlns:c="urn:c""#, head(a, "urn:n")), &(imp("b.xsd") + &imp("c.xsd") + &ty("%A", "%x", "o:%A") + &ty("%B", "%w", "c:%A"))),
                    file("b.xsd", &head(Ns::Qu, "urn:N"), &ty("%A", "%y", "xs:int")),
                    file("c.xsd", &head(Ns::Qu, "urn:c"), &ty("%A", "%z", "xs:string")),
                ],
            )
        })
        .collect()
}

/// Many files, each of a namespace of its own.
pub fn many_namespaces(n: usize) -> Vec<Tpl> {
    let mut out = vec![];
    for a in [Ns::Un, Ns::De] {
        let decl: String = (0..n).map(|i| format!(r#" xmlns:q{0}="urn:q:{0}""#, i)).collect();
        let refs: String = (0..n).map(|i| format!(r#"<xs:element ref="q{0}:e{0}"/>"#, i)).collect();
        let imports: String = (0..n).map(|i| imp(&format!("q{}.xsd", i))).collect();
        let mut files = vec![file(
            "main.xsd",
            &format!("{}{}", head(a, "urn:n"), decl),
            &format!(r#"{}<xs:element name="root"><xs:complexType><xs:sequence>{}</xs:sequence></xs:complexType></xs:element>"#, imports, refs),
        )];
        for i in 0..n {
            files.push(file(&format!("q{}.xsd", i), &head(Ns::Qu, &format!("urn:q:{}", i)), &el(&format!("e{}", i), "xs:int")));
        }
        out.push(t(&format!("import{}/{}", n, a.id()), files));
    }
    out
}

/// Files of several namespaces, of which each has its own form.
pub fn imports() -> Vec<Tpl> {
    let mut out = vec![];
    for a in [Ns::No, Ns::Un, Ns::Qu, Ns::De] {
        for b in [Ns::No, Ns::Un, Ns::Qu, Ns::De] {
            let id = |x: &str| format!("{}/{}-{}", x, a.id(), b.id());
            // the other namespace under another prefix than it has there
            let (ha, hb) = (head(a, "urn:n"), head(b, "urn:N"));
            let (xb, qb) = match b {
                Ns::No => {
                    if a == Ns::De {
                        continue;
                    }
                    ("", "")
                }
                _ => (r#" xmlns:o="urn:N""#, "o:"),
            };
            let qa = |n: &str| a.q(n);
            out.push(t(
                &id("import2/type"),
                vec![
                    file("main.xsd", &format!("{}{}", ha, xb), &(imp("b.xsd") + &el("%r", &format!("{}%B", qb)) + &ty("%A", "%x", &format!("{}%B", qb)))),
                    file("b.xsd", &hb, &ty("%B", "%y", "xs:int")),
                ],
            ));
            out.push(t(
                &id("import2/ref"),
                vec![
                    file(
                        "main.xsd",
                        &format!("{}{}", ha, xb),
                        &(imp("b.xsd")
                            + &format!(
                                r#"<xs:element name="%r"><xs:complexType><xs:sequence><xs:element ref="{0}%e"/><xs:element name="%k" type="{1}" minOccurs="0"/><xs:choice><xs:element ref="{0}%l"/><xs:element name="%m" type="xs:string"/></xs:choice></xs:sequence></xs:complexType></xs:element>"#,
                                qb,
                                qa("%A")
                            )
                            + &ty("%A", "%x", "xs:int")),
                    ),
                    file("b.xsd", &hb, &(ty("%B", "%y", "xs:int") + &el("%e", &b.q("%B")) + &el("%l", "xs:int"))),
                ],
            ));
            // the other namespace as the default one
            if matches!(a, Ns::Un | Ns::Qu) && b != Ns::No {
                out.push(t(
                    &id("import2/default"),
                    vec![
                        file(
                            "main.xsd",
                            &format!(r#"{} xmlns="urn:N""#, ha),
                            &(imp("b.xsd")
                                + &format!(
                                    r#"<xs:element name="%r"><xs:complexType><xs:sequence><xs:element ref="%e"/><xs:element ref="p:%f"/><xs:element name="%k" type="%S"/><xs:element name="%l" type="%B"/></xs:sequence><xs:attribute name="%t" type="%S"/></xs:complexType></xs:element>{}"#,
                                    el("%f", "p:%A")
                                )
                                + &ty("%A", "%x", "%B")),
                        ),
                        file(
                            "b.xsd",
                            &hb,
                            &(ty("%B", "%y", &b.q("%S")) + &el("%e", "xs:boolean") + r#"<xs:simpleType name="%S"><xs:restriction base="xs:boolean"/></xs:simpleType>"#),
                        ),
                    ],
                ));
            }
            out.push(t(
                &id("import2/base"),
                vec![
                    file(
                        "main.xsd",
                        &format!("{}{}", ha, xb),
                        &(imp("b.xsd")
                            + &format!(
                                r#"<xs:complexType name="%A"><xs:complexContent><xs:extension base="{}%B"><xs:sequence><xs:element name="%x" type="xs:int"/></xs:sequence></xs:extension></xs:complexContent></xs:complexType>"#,
                                qb
                            )),
                    ),
                    file("b.xsd", &hb, &ty("%B", "%y", "xs:int")),
                ],
            ));
        }
        // three namespaces, the same prefix for different ones, different prefixes for the same one
        let ha = head(a, "urn:n");
        out.push(t(
            &format!("import3/prefixes/{}", a.id()),
            vec![
                file("main.xsd", &format!(r#"{} xmlns:b="urn:N" xmlns:ns1="urn:n/""#, ha), &(imp("b.xsd") + &el("%r", "b:%B") + &ty("%A", "%x", "ns1:%C"))),
                file("b.xsd", r#" xmlns:b="urn:n/" xmlns:ns2="urn:N" targetNamespace="urn:N" elementFormDefault="qualified""#, &(imp("c.xsd") + &ty("%B", "%y", "b:%C") + &el("%s", "ns2:%B"))),
                file("c.xsd", r#" xmlns:b="urn:N" xmlns:a="urn:n" targetNamespace="urn:n/" elementFormDefault="qualified""#, &ty("%C", "%z", "xs:int")),
            ],
        ));
        if a == Ns::No {
            continue;
        }
        out.push(t(
            &format!("import3/circle/{}", a.id()),
            vec![
                file("main.xsd", &format!(r#"{} xmlns:b="urn:N""#, ha), &(imp("b.xsd") + &el("%r", "b:%B") + &ty("%A", "%x", "xs:int"))),
                file("b.xsd", r#" xmlns:a="urn:n" targetNamespace="urn:N" elementFormDefault="qualified""#, &(imp("main.xsd") + &ty("%B", "%y", "a:%A"))),
            ],
        ));
    }
    out
}
