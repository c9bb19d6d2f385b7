//! Schema templates. Names that start with `%` and values that start with `$` are unknown.
use crate::drive::*;

#[derive(Clone, Copy, PartialEq)]
pub enum Ns {
    /// no namespace
    No,
    /// a target namespace with a prefix, local elements unqualified
    Un,
    /// a target namespace with a prefix, local elements qualified
    Qu,
    /// the target namespace is the default namespace, local elements qualified
    De,
}

pub const NSS: [Ns; 4] = [Ns::No, Ns::Un, Ns::Qu, Ns::De];

impl Ns {
    pub fn id(self) -> &'static str {
        match self {
            Ns::No => "nons",
            Ns::Un => "unqualified",
            Ns::Qu => "qualified",
            Ns::De => "defaultns",
        }
    }

    pub fn open(self) -> String {
        let x = r#"<xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema""#;
        match self {
            Ns::No => format!("{}>", x),
            Ns::Un => format!(r#"{} xmlns:p="http://t.example/T/" targetNamespace="http://t.example/T/">"#, x),
            Ns::Qu => format!(r#"{} xmlns:p="http://t.example/T/" targetNamespace="http://t.example/T/" elementFormDefault="qualified">"#, x),
            Ns::De => format!(r#"{} xmlns="http://t.example/T/" targetNamespace="http://t.example/T/" elementFormDefault="qualified">"#, x),
        }
    }

    /// A reference to a declaration of the schema.
    pub fn q(self, n: &str) -> String {
        match self {
            Ns::No | Ns::De => n.to_string(),
            Ns::Un | Ns::Qu => format!("p:{}", n),
        }
    }

    pub fn schema(self, id: &str, body: &str) -> Tpl {
        tpl(&format!("{}/{}", id, self.id()), &format!("{}{}</xs:schema>", self.open(), body))
    }
}

/// A kind of element content.
pub struct Kind {
    pub id: &'static str,
    /// the declaration of an element of that kind, and the declarations it needs
    pub make: fn(ns: Ns, name: &str, occurs: &str) -> (String, String),
}

pub fn complex(name: &str) -> String {
    let name = if name.is_empty() { String::new() } else { format!(r#" name="{}""#, name) };
    format!(
        r#"<xs:complexType{}><xs:sequence><xs:element name="%m" type="xs:string"/></xs:sequence><xs:attribute name="%t" type="xs:int" use="required"/></xs:complexType>"#,
        name
    )
}

fn el(attrs: String, body: &str) -> String {
    if body.is_empty() {
        format!("<xs:element {}/>", attrs)
    } else {
        format!("<xs:element {}>{}</xs:element>", attrs, body)
    }
}

pub const ENUM: &str = r#"<xs:restriction base="xs:string"><xs:enumeration value="one"/><xs:enumeration value="two"/></xs:restriction>"#;

pub const KINDS: &[Kind] = &[
    Kind {
        id: "string",
        make: |_, n, o| (el(format!(r#"name="{}" type="xs:string"{}"#, n, o), ""), String::new()),
    },
    Kind {
        id: "int",
        make: |_, n, o| (el(format!(r#"name="{}" type="xs:int"{}"#, n, o), ""), String::new()),
    },
    Kind {
        id: "fixed",
        make: |_, n, o| (el(format!(r#"name="{}" type="xs:string" fixed="fix"{}"#, n, o), ""), String::new()),
    },
    Kind {
        id: "named-simple",
        make: |ns, n, o| {
            (
                el(format!(r#"name="{}" type="{}"{}"#, n, ns.q("%Simple"), o), ""),
                r#"<xs:simpleType name="%Simple"><xs:restriction base="xs:int"/></xs:simpleType>"#.into(),
            )
        },
    },
    Kind {
        id: "named-enum",
        make: |ns, n, o| {
            (
                el(format!(r#"name="{}" type="{}"{}"#, n, ns.q("%Enum"), o), ""),
                format!(r#"<xs:simpleType name="%Enum">{}</xs:simpleType>"#, ENUM),
            )
        },
    },
    Kind {
        id: "inline-enum",
        make: |_, n, o| (el(format!(r#"name="{}"{}"#, n, o), &format!("<xs:simpleType>{}</xs:simpleType>", ENUM)), String::new()),
    },
    Kind {
        id: "inline-simple",
        make: |_, n, o| {
            (
                el(
                    format!(r#"name="{}"{}"#, n, o),
                    r#"<xs:simpleType><xs:restriction base="xs:string"><xs:maxLength value="9"/></xs:restriction></xs:simpleType>"#,
                ),
                String::new(),
            )
        },
    },
    Kind {
        id: "named-complex",
        make: |ns, n, o| (el(format!(r#"name="{}" type="{}"{}"#, n, ns.q("%Complex"), o), ""), complex("%Complex")),
    },
    Kind {
        id: "inline-complex",
        make: |_, n, o| (el(format!(r#"name="{}"{}"#, n, o), &complex("")), String::new()),
    },
    Kind {
        id: "simple-content",
        make: |ns, n, o| {
            (
                el(format!(r#"name="{}" type="{}"{}"#, n, ns.q("%Content"), o), ""),
                r#"<xs:complexType name="%Content"><xs:simpleContent><xs:extension base="xs:int"><xs:attribute name="%t" type="xs:string"/></xs:extension></xs:simpleContent></xs:complexType>"#.into(),
            )
        },
    },
    Kind {
        id: "enum-content",
        make: |ns, n, o| {
            (
                el(format!(r#"name="{}" type="{}"{}"#, n, ns.q("%Content"), o), ""),
                format!(
                    r#"<xs:complexType name="%Content"><xs:simpleContent><xs:extension base="{}"><xs:attribute name="%t" type="xs:string"/></xs:extension></xs:simpleContent></xs:complexType><xs:simpleType name="%Enum">{}</xs:simpleType>"#,
                    ns.q("%Enum"),
                    ENUM
                ),
            )
        },
    },
    Kind {
        id: "with-attribute",
        make: |ns, n, o| {
            (
                el(format!(r#"name="{}" type="{}"{}"#, n, ns.q("%Choice"), o), ""),
                r#"<xs:complexType name="%Choice"><xs:choice><xs:element name="%m" type="xs:string"/><xs:element name="%n" type="xs:int"/></xs:choice><xs:attribute name="%t" type="xs:int" use="required"/></xs:complexType>"#.into(),
            )
        },
    },
    Kind {
        id: "choice-type",
        make: |ns, n, o| {
            (
                el(format!(r#"name="{}" type="{}"{}"#, n, ns.q("%Choice"), o), ""),
                r#"<xs:complexType name="%Choice"><xs:choice><xs:element name="%m" type="xs:string"/><xs:element name="%n" type="xs:int"/></xs:choice></xs:complexType>"#.into(),
            )
        },
    },
    Kind {
        id: "extension",
        make: |ns, n, o| {
            (
                el(format!(r#"name="{}" type="{}"{}"#, n, ns.q("%Derived"), o), ""),
                format!(
                    r#"{}<xs:complexType name="%Derived"><xs:complexContent><xs:extension base="{}"><xs:sequence><xs:element name="%n" type="xs:int"/></xs:sequence></xs:extension></xs:complexContent></xs:complexType>"#,
                    complex("%Base"),
                    ns.q("%Base")
                ),
            )
        },
    },
    Kind {
        id: "ref-string",
        make: |ns, n, o| {
            (
                el(format!(r#"ref="{}"{}"#, ns.q(n), o), ""),
                format!(r#"<xs:element name="{}" type="xs:string"/>"#, n),
            )
        },
    },
    Kind {
        id: "ref-simple",
        make: |ns, n, o| {
            (
                el(format!(r#"ref="{}"{}"#, ns.q(n), o), ""),
                format!(
                    r#"<xs:element name="{}" type="{}"/><xs:simpleType name="%Simple"><xs:restriction base="xs:boolean"/></xs:simpleType>"#,
                    n,
                    ns.q("%Simple")
                ),
            )
        },
    },
    Kind {
        id: "ref-choice",
        make: |ns, n, o| {
            (
                el(format!(r#"ref="{}"{}"#, ns.q(n), o), ""),
                format!(
                    r#"<xs:element name="{}" type="{}"/><xs:complexType name="%Choice"><xs:choice><xs:element name="%m" type="xs:string"/><xs:element name="%n" type="xs:int"/></xs:choice></xs:complexType>"#,
                    n,
                    ns.q("%Choice")
                ),
            )
        },
    },
    Kind {
        id: "named-content",
        make: |ns, n, o| {
            (
                el(format!(r#"name="{}" type="{}"{}"#, n, ns.q("%Content"), o), ""),
                format!(
                    r#"<xs:complexType name="%Content"><xs:simpleContent><xs:extension base="{}"><xs:attribute name="%t" type="xs:string"/></xs:extension></xs:simpleContent></xs:complexType><xs:simpleType name="%Simple"><xs:restriction base="xs:boolean"/></xs:simpleType>"#,
                    ns.q("%Simple")
                ),
            )
        },
    },
    Kind {
        id: "ref-complex",
        make: |ns, n, o| {
            (
                el(format!(r#"ref="{}"{}"#, ns.q(n), o), ""),
                format!(r#"<xs:element name="{}">{}</xs:element>"#, n, complex("")),
            )
        },
    },
    Kind {
        id: "ref-enum",
        make: |ns, n, o| {
            (
                el(format!(r#"ref="{}"{}"#, ns.q(n), o), ""),
                format!(
                    r#"<xs:element name="{}" type="{}"/><xs:simpleType name="%Enum">{}</xs:simpleType>"#,
                    n,
                    ns.q("%Enum"),
                    ENUM
                ),
            )
        },
    },
];

pub fn kind(id: &str) -> &'static Kind {
    KINDS.iter().find(|k| k.id == id).expect("kind")
}

/// How often something occurs.
pub const OCCURS: &[(&str, &str)] = &[
    ("once", ""),
    ("optional", r#" minOccurs="0""#),
    ("many", r#" maxOccurs="unbounded""#),
    ("any", r#" minOccurs="0" maxOccurs="unbounded""#),
    ("upto3", r#" minOccurs="0" maxOccurs="3""#),
    ("twice", r#" minOccurs="2" maxOccurs="2""#),
];

/// More of them, for simple content.
pub const OCCURS2: &[(&str, &str)] = &[
    ("1..1", r#" minOccurs="1" maxOccurs="1""#),
    ("0..1", r#" minOccurs="0" maxOccurs="1""#),
    ("1..2", r#" minOccurs="1" maxOccurs="2""#),
    ("0..2", r#" minOccurs="0" maxOccurs="2""#),
    ("2..*", r#" minOccurs="2" maxOccurs="unbounded""#),
    ("1..9", r#" maxOccurs="9""#),
    ("256..65536", r#" minOccurs="256" maxOccurs="65536""#),
    ("65536..*", r#" minOccurs="65536" maxOccurs="unbounded""#),
    ("0..4294967295", r#" minOccurs="0" maxOccurs="4294967295""#),
];

/// Elements that are or are not part of the target namespace.
pub const FORMS: &[(&str, &str)] = &[
    ("form-qualified", r#" form="qualified""#),
    ("form-unqualified", r#" form="unqualified""#),
    ("form-qualified-many", r#" form="qualified" maxOccurs="2""#),
    ("form-unqualified-optional", r#" minOccurs="0" form="unqualified""#),
];

pub fn occurs(id: &str) -> &'static str {
    OCCURS.iter().chain(OCCURS2).chain(FORMS).find(|k| k.0 == id).expect("occurs").1
}

/// Where an element stands. The members `%p` and `%q` surround it.
pub const PLACES: &[(&str, fn(Ns, &str) -> String)] = &[
    ("sequence", |_, m| {
        format!(
            r#"<xs:element name="%root"><xs:complexType><xs:sequence><xs:element name="%p" type="xs:string"/>{}<xs:element name="%q" type="xs:string" minOccurs="0"/></xs:sequence></xs:complexType></xs:element>"#,
            m
        )
    }),
    ("first", |_, m| {
        format!(
            r#"<xs:complexType name="%Root"><xs:sequence>{}<xs:element name="%q" type="xs:string"/></xs:sequence></xs:complexType>"#,
            m
        )
    }),
    ("all", |_, m| {
        format!(
            r#"<xs:element name="%root"><xs:complexType><xs:all><xs:element name="%p" type="xs:int"/>{}<xs:element name="%q" type="xs:string" minOccurs="0"/></xs:all></xs:complexType></xs:element>"#,
            m
        )
    }),
    ("choice", |_, m| {
        format!(
            r#"<xs:complexType name="%Root"><xs:choice><xs:element name="%p" type="xs:string"/>{}</xs:choice></xs:complexType>"#,
            m
        )
    }),
    ("nested-choice", |_, m| {
        format!(
            r#"<xs:element name="%root"><xs:complexType><xs:sequence><xs:choice>{}<xs:element name="%p" type="xs:string"/></xs:choice><xs:element name="%q" type="xs:string"/></xs:sequence></xs:complexType></xs:element>"#,
            m
        )
    }),
    ("optional-group", |_, m| {
        format!(
            r#"<xs:element name="%root"><xs:complexType><xs:sequence><xs:element name="%p" type="xs:string"/><xs:sequence minOccurs="0">{}<xs:element name="%q" type="xs:string"/></xs:sequence></xs:sequence></xs:complexType></xs:element>"#,
            m
        )
    }),
    ("choice-group", |_, m| {
        format!(
            r#"<xs:element name="%root"><xs:complexType><xs:choice><xs:sequence>{}<xs:element name="%q" type="xs:string"/></xs:sequence><xs:element name="%p" type="xs:string"/></xs:choice></xs:complexType></xs:element>"#,
            m
        )
    }),
    ("extension", |ns, m| {
        format!(
            r#"<xs:complexType name="%Low"><xs:sequence><xs:element name="%p" type="xs:string"/></xs:sequence></xs:complexType><xs:complexType name="%Root"><xs:complexContent><xs:extension base="{}"><xs:sequence>{}</xs:sequence></xs:extension></xs:complexContent></xs:complexType>"#,
            ns.q("%Low"),
            m
        )
    }),
];

pub fn place(id: &str) -> fn(Ns, &str) -> String {
    PLACES.iter().find(|k| k.0 == id).expect("place").1
}

/// An element of the given kind, in the given place, as often as given.
pub fn member(ns: Ns, p: &str, k: &str, o: &str) -> Tpl {
    let (m, top) = (kind(k).make)(ns, "%a", occurs(o));
    ns.schema(&format!("{}/{}/{}", p, k, o), &format!("{}{}", place(p)(ns, &m), top))
}

/// An element of the given kind as document element.
pub fn top(ns: Ns, k: &str) -> Tpl {
    let (m, t) = (kind(k).make)(ns, "%a", "");
    ns.schema(&format!("top/{}", k), &format!("{}{}", m, t))
}

fn s(name: &str, rest: &str) -> String {
    format!(r#"<xs:element name="{}" type="xs:string"{}/>"#, name, rest)
}

/// Members of a group.
pub const BODIES: &[(&str, fn() -> String)] = &[
    ("req", || s("%a", "")),
    ("req-opt", || s("%a", "") + &s("%b", r#" minOccurs="0""#)),
    ("opt-req", || s("%a", r#" minOccurs="0""#) + &s("%b", "")),
    ("opt-opt-req", || s("%a", r#" minOccurs="0""#) + &s("%b", r#" minOccurs="0""#) + &s("%c", "")),
    ("opt-opt", || s("%a", r#" minOccurs="0""#) + &s("%b", r#" minOccurs="0""#)),
    ("many-req", || s("%a", r#" maxOccurs="unbounded""#) + &s("%b", "")),
    ("any-req", || s("%a", r#" minOccurs="0" maxOccurs="unbounded""#) + &s("%b", "")),
    ("choice", || format!("<xs:choice>{}{}</xs:choice>", s("%a", ""), s("%b", ""))),
    ("choice-req", || format!("<xs:choice>{}{}</xs:choice>{}", s("%a", ""), s("%b", ""), s("%c", ""))),
    ("optchoice-req", || format!(r#"<xs:choice minOccurs="0">{}{}</xs:choice>{}"#, s("%a", ""), s("%b", ""), s("%c", ""))),
    ("optseq-req", || format!(r#"<xs:sequence minOccurs="0">{}{}</xs:sequence>{}"#, s("%a", ""), s("%b", ""), s("%c", ""))),
    ("seq-req", || format!(r#"<xs:sequence>{}{}</xs:sequence>{}"#, s("%a", ""), s("%b", ""), s("%c", ""))),
    ("optseqopt-req", || format!(r#"<xs:sequence minOccurs="0">{}{}</xs:sequence>{}"#, s("%a", r#" minOccurs="0""#), s("%b", ""), s("%c", ""))),
];

/// Alternatives that begin with the same element, so that their order decides.
pub const AMBIGUOUS: &[(&str, fn() -> String)] = &[
    ("el-seq", || format!("{}<xs:sequence>{}{}</xs:sequence>", s("%a", ""), s("%a", ""), s("%b", ""))),
    ("seq-el", || format!("<xs:sequence>{}{}</xs:sequence>{}", s("%a", ""), s("%b", ""), s("%a", ""))),
    ("seq-seq", || {
        format!(
            "<xs:sequence>{}{}</xs:sequence><xs:sequence>{}{}</xs:sequence>",
            s("%a", ""),
            s("%b", r#" minOccurs="0""#),
            s("%a", ""),
            s("%c", "")
        )
    }),
    ("optseq-el", || format!("<xs:sequence>{}{}</xs:sequence>{}", s("%b", r#" minOccurs="0""#), s("%a", ""), s("%a", ""))),
    ("el-many", || format!("{}<xs:sequence>{}{}</xs:sequence>", s("%a", r#" maxOccurs="unbounded""#), s("%a", ""), s("%b", r#" minOccurs="0""#))),
];

/// Groups that are the only member of another one, so that their names are alike.
pub fn nested(ns: Ns) -> Vec<Tpl> {
    let mut out = vec![];
    let opt = r#" minOccurs="0""#;
    for (id, tags) in [
        ("sss", ["sequence", "sequence", "sequence", ""]),
        ("scs", ["sequence", "choice", "sequence", ""]),
        ("ssc", ["sequence", "sequence", "choice", ""]),
        ("css", ["choice", "sequence", "sequence", ""]),
        ("ssss", ["sequence", "sequence", "sequence", "sequence"]),
    ] {
        let mut b = s("%a", "");
        for (i, t) in tags.iter().rev().filter(|t| !t.is_empty()).enumerate() {
            b = format!("<xs:{0}{1}>{2}</xs:{0}>", t, if i % 2 == 0 { opt } else { "" }, b);
        }
        out.push(ns.schema(
            &format!("nested/{}", id),
            &format!(
                r#"<xs:element name="%root"><xs:complexType><xs:sequence>{}{}</xs:sequence></xs:complexType></xs:element>"#,
                b,
                s("%y", "")
            ),
        ));
    }
    // more types than fit on one's hands
    let names: Vec<char> = ('a'..='l').collect();
    let types: String = names.iter().map(|c| format!(r#"<xs:complexType name="%T{0}"><xs:attribute name="%{0}{0}" type="xs:int" use="required"/></xs:complexType>"#, c)).collect();
    let members: String = names.iter().map(|c| format!(r#"<xs:element name="%{0}" type="{1}"/>"#, c, ns.q(&format!("%T{}", c)))).collect();
    out.push(ns.schema(
        "nested/wide",
        &format!(r#"<xs:element name="%root"><xs:complexType><xs:sequence>{}</xs:sequence></xs:complexType></xs:element>{}"#, members, types),
    ));
    // a chain of them
    let chain: String = names
        .windows(2)
        .map(|c| format!(r#"<xs:complexType name="%T{0}"><xs:sequence><xs:element name="%{0}" type="{1}" minOccurs="0"/></xs:sequence></xs:complexType>"#, c[0], ns.q(&format!("%T{}", c[1]))))
        .collect();
    out.push(ns.schema(
        "nested/chain",
        &format!(r#"<xs:element name="%root" type="{}"/>{}<xs:complexType name="%Tl"><xs:attribute name="%t" type="xs:int"/></xs:complexType>"#, ns.q("%Ta"), chain),
    ));
    // anonymous types of members with the same name
    let inner = |x: &str| format!(r#"<xs:element name="%a"><xs:complexType><xs:sequence>{}</xs:sequence></xs:complexType></xs:element>"#, s(x, ""));
    out.push(ns.schema(
        "nested/same",
        &format!(
            r#"<xs:element name="%root"><xs:complexType><xs:sequence><xs:choice><xs:sequence>{}{}</xs:sequence><xs:sequence>{}{}</xs:sequence><xs:sequence>{}{}</xs:sequence></xs:choice></xs:sequence></xs:complexType></xs:element>"#,
            s("%k", ""),
            inner("%x"),
            s("%l", ""),
            inner("%y"),
            s("%m", ""),
            inner("%z"),
        ),
    ));
    out
}

/// Choices with such alternatives.
pub fn ambiguous(ns: Ns) -> Vec<Tpl> {
    let mut out = vec![];
    for (n, b) in AMBIGUOUS {
        let b = b();
        out.push(ns.schema(&format!("ambiguous/content/{}", n), &format!(r#"<xs:complexType name="%Root"><xs:choice>{}</xs:choice></xs:complexType>"#, b)));
        for o in ["once", "optional", "many"] {
            out.push(ns.schema(
                &format!("ambiguous/sequence/{}/{}", n, o),
                &format!(
                    r#"<xs:element name="%root"><xs:complexType><xs:sequence><xs:choice{}>{}</xs:choice>{}</xs:sequence></xs:complexType></xs:element>"#,
                    occurs(o),
                    b,
                    s("%y", r#" minOccurs="0""#)
                ),
            ));
        }
    }
    out
}

pub const GROUPS: &[&str] = &["sequence", "choice", "all"];

/// A group with the given members inside of another one.
pub fn group(ns: Ns, outer: &str, inner: &str, body: &str, o: &str) -> Tpl {
    let b = BODIES.iter().find(|b| b.0 == body).expect("body").1();
    ns.schema(
        &format!("group/{}/{}/{}/{}", outer, inner, body, o),
        &format!(
            r#"<xs:element name="%root"><xs:complexType><xs:{o}>{pre}<xs:{i}{occ}>{b}</xs:{i}>{post}</xs:{o}></xs:complexType></xs:element>"#,
            o = outer,
            i = inner,
            occ = occurs(o),
            b = b,
            pre = s("%x", ""),
            post = s("%y", r#" minOccurs="0""#)
        ),
    )
}

/// A group with the given members as content of a type.
pub fn content(ns: Ns, outer: &str, body: &str, o: &str) -> Tpl {
    let b = BODIES.iter().find(|b| b.0 == body).expect("body").1();
    ns.schema(
        &format!("content/{}/{}/{}", outer, body, o),
        &format!(
            r#"<xs:complexType name="%Root"><xs:{o}{occ}>{b}</xs:{o}><xs:attribute name="%t" type="xs:string"/></xs:complexType>"#,
            o = outer,
            occ = occurs(o),
            b = b,
        ),
    )
}

/// Whether the generator supports such a group; others are rejected.
pub fn supported(outer: &str, inner: Option<&str>, body: &str, o: &str) -> bool {
    let groups = body.contains("choice") || body.contains("seq");
    match (outer, inner) {
        ("all", None) => !groups && matches!(o, "once" | "optional" | "1..1" | "0..1"),
        ("choice", None) => o == "once" && !body.contains("choice"),
        ("sequence", None) => true,
        ("sequence", Some("sequence")) => matches!(o, "once" | "optional"),
        ("sequence", Some("choice")) => !body.contains("choice"),
        ("choice", Some("sequence")) => true,
        _ => false,
    }
}

/// All templates of groups.
pub fn groups(ns: Ns) -> Vec<Tpl> {
    let mut out = vec![];
    for (b, _) in BODIES {
        let more = if matches!(*b, "req" | "opt-req" | "choice") { OCCURS2 } else { &[] };
        for (o, _) in OCCURS.iter().chain(more) {
            for g in GROUPS {
                if supported(g, None, b, o) {
                    out.push(content(ns, g, b, o));
                }
                for i in GROUPS {
                    if supported(g, Some(i), b, o) {
                        out.push(group(ns, g, i, b, o));
                    }
                }
            }
        }
    }
    out
}

/// Types of attributes.
pub const ATTRS: &[(&str, fn(Ns, &str) -> (String, String))] = &[
    ("string", |_, u| (format!(r#"<xs:attribute name="%t" type="xs:string"{}/>"#, u), String::new())),
    ("int", |_, u| (format!(r#"<xs:attribute name="%t" type="xs:int"{}/>"#, u), String::new())),
    ("bool", |_, u| (format!(r#"<xs:attribute name="%t" type="xs:boolean"{}/>"#, u), String::new())),
    ("fixed", |_, u| (format!(r#"<xs:attribute name="%t" type="xs:string" fixed="fix"{}/>"#, u), String::new())),
    ("named", |ns, u| {
        (
            format!(r#"<xs:attribute name="%t" type="{}"{}/>"#, ns.q("%Simple"), u),
            r#"<xs:simpleType name="%Simple"><xs:restriction base="xs:int"/></xs:simpleType>"#.into(),
        )
    }),
    ("named-bool", |ns, u| {
        (
            format!(r#"<xs:attribute name="%t" type="{}"{}/>"#, ns.q("%Simple"), u),
            r#"<xs:simpleType name="%Simple"><xs:restriction base="xs:boolean"/></xs:simpleType>"#.into(),
        )
    }),
    ("enum", |ns, u| {
        (
            format!(r#"<xs:attribute name="%t" type="{}"{}/>"#, ns.q("%Enum"), u),
            format!(r#"<xs:simpleType name="%Enum">{}</xs:simpleType>"#, ENUM),
        )
    }),
    ("inline-enum", |_, u| (format!(r#"<xs:attribute name="%t"{}><xs:simpleType>{}</xs:simpleType></xs:attribute>"#, u, ENUM), String::new())),
    ("inline", |_, u| {
        (
            format!(r#"<xs:attribute name="%t"{}><xs:simpleType><xs:restriction base="xs:int"/></xs:simpleType></xs:attribute>"#, u),
            String::new(),
        )
    }),
];

pub const USES: &[(&str, &str)] = &[
    ("absent", ""),
    ("optional", r#" use="optional""#),
    ("required", r#" use="required""#),
    ("prohibited", r#" use="prohibited""#),
];

/// Where attributes stand.
pub const OWNERS: &[(&str, fn(Ns, &str) -> String)] = &[
    ("empty", |_, a| format!(r#"<xs:element name="%root"><xs:complexType>{}</xs:complexType></xs:element>"#, a)),
    ("sequence", |_, a| {
        format!(
            r#"<xs:element name="%root"><xs:complexType><xs:sequence><xs:element name="%p" type="xs:string"/></xs:sequence>{}<xs:attribute name="%u" type="xs:string"/></xs:complexType></xs:element>"#,
            a
        )
    }),
    ("choice", |_, a| {
        format!(
            r#"<xs:complexType name="%Root"><xs:choice><xs:element name="%p" type="xs:string"/><xs:element name="%q" type="xs:int"/></xs:choice>{}</xs:complexType>"#,
            a
        )
    }),
    ("simple", |_, a| {
        format!(
            r#"<xs:element name="%root"><xs:complexType><xs:simpleContent><xs:extension base="xs:string"><xs:attribute name="%u" type="xs:string" use="required"/>{}</xs:extension></xs:simpleContent></xs:complexType></xs:element>"#,
            a
        )
    }),
    ("base", |ns, a| {
        format!(
            r#"<xs:complexType name="%Low"><xs:sequence><xs:element name="%p" type="xs:string"/></xs:sequence>{}</xs:complexType><xs:complexType name="%Root"><xs:complexContent><xs:extension base="{}"><xs:sequence><xs:element name="%q" type="xs:string"/></xs:sequence><xs:attribute name="%u" type="xs:int" use="required"/></xs:extension></xs:complexContent></xs:complexType>"#,
            a,
            ns.q("%Low")
        )
    }),
    ("derived", |ns, a| {
        format!(
            r#"<xs:complexType name="%Low"><xs:sequence><xs:element name="%p" type="xs:string"/></xs:sequence><xs:attribute name="%u" type="xs:int" use="required"/></xs:complexType><xs:complexType name="%Root"><xs:complexContent><xs:extension base="{}"><xs:sequence><xs:element name="%q" type="xs:string"/></xs:sequence>{}</xs:extension></xs:complexContent></xs:complexType>"#,
            ns.q("%Low"),
            a
        )
    }),
    ("base-base", |ns, a| {
        format!(
            r#"<xs:complexType name="%Lowest"><xs:sequence/>{}</xs:complexType><xs:complexType name="%Low"><xs:complexContent><xs:extension base="{}"><xs:sequence/></xs:extension></xs:complexContent></xs:complexType><xs:complexType name="%Root"><xs:complexContent><xs:extension base="{}"><xs:sequence><xs:element name="%q" type="xs:string"/></xs:sequence></xs:extension></xs:complexContent></xs:complexType>"#,
            a,
            ns.q("%Lowest"),
            ns.q("%Low")
        )
    }),
    ("member", |_, a| {
        format!(
            r#"<xs:element name="%root"><xs:complexType><xs:sequence><xs:element name="%p" minOccurs="0" maxOccurs="unbounded"><xs:complexType>{}</xs:complexType></xs:element></xs:sequence></xs:complexType></xs:element>"#,
            a
        )
    }),
];

pub fn attr(ns: Ns, owner: &str, ty: &str, usage: &str) -> Tpl {
    let u = USES.iter().find(|u| u.0 == usage).expect("use").1;
    let (a, top) = (ATTRS.iter().find(|u| u.0 == ty).expect("attr").1)(ns, u);
    let f = OWNERS.iter().find(|u| u.0 == owner).expect("owner").1;
    ns.schema(&format!("attribute/{}/{}/{}", owner, ty, usage), &format!("{}{}", f(ns, &a), top))
}

pub fn attrs(ns: Ns) -> Vec<Tpl> {
    let mut out = vec![];
    for (o, _) in OWNERS {
        for (t, _) in ATTRS {
            for (u, _) in USES {
                out.push(attr(ns, o, t, u));
            }
        }
    }
    out
}

/// Values with characters that are special somewhere. `¤` stands for a quotation mark.
pub const VALUES: &[&str] = &["$fix", "fix", "", " ", " a  b ", "<&>", "¤'", "{}", "{0} {x}", "\\n\\", "ü-漢", "true", "1", "-7.50", "#x", "a:b", "r#¤"];

/// Fixed values.
pub fn fixed() -> Vec<Tpl> {
    let mut out = vec![];
    for (i, v) in VALUES.iter().enumerate() {
        for (k, ty) in ["string", "int", "boolean", "decimal", "date", "anyType", "float"].iter().enumerate() {
            if i > 2 && (i + k) % 3 > 0 {
                continue;
            }
            let ns = NSS[(i + k) % 4];
            let id = |w: &str| format!("fixed/{}/{}/{}", w, ty, i);
            let e = |n: &str, o: &str| format!(r#"<xs:element name="{}" type="xs:{}" fixed="{}"{}/>"#, n, ty, v, o);
            let a = |n: &str, u: &str| format!(r#"<xs:attribute name="{}" type="xs:{}" fixed="{}"{}/>"#, n, ty, v, u);
            out.push(ns.schema(&id("top"), &e("%a", "")));
            out.push(ns.schema(
                &id("member"),
                &format!(
                    r#"<xs:complexType name="%Root"><xs:sequence>{}{}</xs:sequence></xs:complexType>"#,
                    e("%a", ""),
                    e("%b", r#" minOccurs="0""#)
                ),
            ));
            out.push(ns.schema(&id("list"), &format!(r#"<xs:complexType name="%Root"><xs:sequence>{}</xs:sequence></xs:complexType>"#, e("%a", r#" maxOccurs="unbounded""#))));
            out.push(ns.schema(&id("any"), &format!(r#"<xs:complexType name="%Root"><xs:sequence>{}</xs:sequence></xs:complexType>"#, e("%a", r#" minOccurs="0" maxOccurs="unbounded""#))));
            out.push(ns.schema(
                &id("choice"),
                &format!(r#"<xs:complexType name="%Root"><xs:choice>{}<xs:element name="%b" type="xs:string"/></xs:choice></xs:complexType>"#, e("%a", "")),
            ));
            out.push(ns.schema(
                &id("ref"),
                &format!(
                    r#"{}<xs:complexType name="%Root"><xs:sequence><xs:element ref="{}"/></xs:sequence></xs:complexType>"#,
                    e("%a", ""),
                    ns.q("%a")
                ),
            ));
            out.push(ns.schema(
                &id("attribute"),
                &format!(r#"<xs:complexType name="%Root">{}{}</xs:complexType>"#, a("%t", ""), a("%u", r#" use="required""#)),
            ));
            out.push(ns.schema(
                &id("content"),
                &format!(
                    r#"<xs:complexType name="%Root"><xs:simpleContent><xs:extension base="xs:{}">{}</xs:extension></xs:simpleContent></xs:complexType>"#,
                    ty,
                    a("%t", "")
                ),
            ));
        }
    }
    out
}

/// Lists of enumeration values.
pub const ENUMS: &[&[&str]] = &[
    &["one"],
    &["one", "two", "three"],
    &["a", "A", "a ", " a"],
    &["a-b", "a_b", "a b", "aB", "AB", "ab"],
    &["", "-", "_", "*", "**", "%", "&"],
    &["1", "01", "1.0", "-1", "+1", "1e0"],
    &["variant1", "Variant1", "*", "variant2", "Variant2", "!"],
    &["self", "Self", "super", "crate", "type", "Type", "r#type"],
    &["true", "false", "0", "1"],
    &["é", "e\u{301}", "É", "漢", "字", "ß"],
    &["<", ">", "¤", "'", "{}", "\\", "\\n"],
    &["V1", "1", "v1"],
    &["m²", "m³", "½", "Ⓐ", "a‿b", "x⁰"],
    &["http://a.b/c?d=e#f", "http://a.b/c?d=e"],
    &["Ok", "Err", "Some", "None", "String", "Vec"],
    &["$x"],
    &["$x", "$y"],
    &["x-$x"],
];

pub fn enums() -> Vec<Tpl> {
    let mut out = vec![];
    for (i, vs) in ENUMS.iter().enumerate() {
        for base in ["string", "int"] {
            if base == "int" && i > 2 {
                continue;
            }
            let r = format!(
                r#"<xs:restriction base="xs:{}">{}</xs:restriction>"#,
                base,
                vs.iter().map(|v| format!(r#"<xs:enumeration value="{}"/>"#, v)).collect::<String>()
            );
            let ns = NSS[i % 4];
            let id = |w: &str| format!("enum/{}/{}/{}", w, base, i);
            out.push(ns.schema(&id("named"), &format!(r#"<xs:simpleType name="%Enum">{}</xs:simpleType>"#, r)));
            out.push(ns.schema(&id("top"), &format!(r#"<xs:element name="%e"><xs:simpleType>{}</xs:simpleType></xs:element>"#, r)));
            if vs.iter().any(|v| v.contains('$')) {
                continue;
            }
            out.push(ns.schema(
                &id("member"),
                &format!(
                    r#"<xs:complexType name="%Root"><xs:sequence><xs:element name="%a" type="{}" minOccurs="0"/></xs:sequence></xs:complexType><xs:simpleType name="%Enum">{}</xs:simpleType>"#,
                    ns.q("%Enum"),
                    r
                ),
            ));
            out.push(ns.schema(
                &id("attribute"),
                &format!(
                    r#"<xs:complexType name="%Root"><xs:attribute name="%t" use="required"><xs:simpleType>{}</xs:simpleType></xs:attribute></xs:complexType>"#,
                    r
                ),
            ));
            out.push(ns.schema(
                &id("choice"),
                &format!(
                    r#"<xs:complexType name="%Root"><xs:choice><xs:element name="%a" maxOccurs="unbounded"><xs:simpleType>{}</xs:simpleType></xs:element><xs:element name="%b" type="xs:string"/></xs:choice></xs:complexType>"#,
                    r
                ),
            ));
            out.push(ns.schema(
                &id("content"),
                &format!(
                    r#"<xs:complexType name="%Root"><xs:simpleContent><xs:extension base="{}"><xs:attribute name="%t" type="xs:string"/></xs:extension></xs:simpleContent></xs:complexType><xs:simpleType name="%Enum">{}</xs:simpleType>"#,
                    ns.q("%Enum"),
                    r
                ),
            ));
        }
    }
    out
}

pub const BUILTINS: &[&str] = &[
    "string",
    "boolean",
    "integer",
    "long",
    "nonNegativeInteger",
    "positiveInteger",
    "int",
    "decimal",
    "float",
    "time",
    "date",
    "dateTime",
    "duration",
    "base64Binary",
    "hexBinary",
    "any",
    "anyType",
];

/// Every use of a built-in type.
pub fn builtins() -> Vec<Tpl> {
    let mut out = vec![];
    for (i, ty) in BUILTINS.iter().enumerate() {
        let uses: &[(&str, String)] = &[
            ("top", format!(r#"<xs:element name="%a" type="xs:{}"/>"#, ty)),
            (
                "members",
                format!(
                    r#"<xs:complexType name="%Root"><xs:sequence><xs:element name="%a" type="xs:{0}"/><xs:element name="%b" type="xs:{0}" minOccurs="0"/></xs:sequence></xs:complexType>"#,
                    ty
                ),
            ),
            (
                "lists",
                format!(
                    r#"<xs:complexType name="%Root"><xs:sequence><xs:element name="%a" type="xs:{0}" maxOccurs="unbounded"/><xs:element name="%b" type="xs:{0}" minOccurs="0" maxOccurs="2"/></xs:sequence></xs:complexType>"#,
                    ty
                ),
            ),
            (
                "all",
                format!(
                    r#"<xs:complexType name="%Root"><xs:all><xs:element name="%a" type="xs:{0}"/><xs:element name="%b" type="xs:{0}" minOccurs="0"/></xs:all></xs:complexType>"#,
                    ty
                ),
            ),
            (
                "choice",
                format!(
                    r#"<xs:complexType name="%Root"><xs:choice><xs:element name="%a" type="xs:{0}"/><xs:element name="%b" type="xs:{0}" maxOccurs="unbounded"/></xs:choice></xs:complexType>"#,
                    ty
                ),
            ),
            (
                "attributes",
                format!(r#"<xs:complexType name="%Root"><xs:attribute name="%t" type="xs:{0}"/><xs:attribute name="%u" type="xs:{0}" use="required"/></xs:complexType>"#, ty),
            ),
            (
                "content",
                format!(
                    r#"<xs:complexType name="%Root"><xs:simpleContent><xs:extension base="xs:{0}"><xs:attribute name="%t" type="xs:{0}"/></xs:extension></xs:simpleContent></xs:complexType>"#,
                    ty
                ),
            ),
            ("simple", format!(r#"<xs:simpleType name="%Simple"><xs:restriction base="xs:{}"/></xs:simpleType>"#, ty)),
            (
                "simple-member",
                format!(
                    r#"<xs:complexType name="%Root"><xs:sequence><xs:element name="%a"><xs:simpleType><xs:restriction base="xs:{0}"/></xs:simpleType></xs:element></xs:sequence><xs:attribute name="%t"><xs:simpleType><xs:restriction base="xs:{0}"/></xs:simpleType></xs:attribute></xs:complexType>"#,
                    ty
                ),
            ),
        ];
        for (k, (u, body)) in uses.iter().enumerate() {
            out.push(NSS[(i + k) % 4].schema(&format!("builtin/{}/{}", u, ty), body));
        }
        // the XSD namespace may be the default one, or have another prefix
        out.push(tpl(
            &format!("builtin/default-prefix/{}", ty),
            &format!(r#"<schema xmlns="http://www.w3.org/2001/XMLSchema"><element name="%a" type="{}"/></schema>"#, ty),
        ));
        out.push(tpl(
            &format!("builtin/other-prefix/{}", ty),
            &format!(r#"<w:schema xmlns:w="http://www.w3.org/2001/XMLSchema" xmlns:xs="http://t.example/T/" targetNamespace="http://t.example/T/"><w:element name="%a" type="w:{}"/></w:schema>"#, ty),
        ));
    }
    out
}

pub const NAMES: &[&str] = &[
    "as", "break", "const", "continue", "crate", "else", "enum", "extern", "false", "fn", "for", "if", "impl", "in", "let", "loop", "match", "mod", "move", "mut", "pub",
    "ref", "return", "self", "Self", "static", "struct", "super", "trait", "true", "type", "unsafe", "use", "where", "while", "async", "await", "dyn", "abstract", "become",
    "box", "do", "final", "gen", "macro", "override", "priv", "try", "typeof", "unsized", "virtual", "yield", "union", "Type", "_", "_x", "_1", "__", "a-b", "a.b", "aB", "AB",
    "éa", "x⁰", "ा", "ाb", "ⅷ", "a1", "A1b2", "ab_cd-ef.gh", "Über", "node", "ctx", "writer", "val",
];

/// A name in every place a name can stand.
pub fn named() -> Vec<Tpl> {
    let mut out = vec![];
    for (i, n) in NAMES.iter().enumerate() {
        let places: &[(&str, fn(Ns, &str) -> String)] = &[
            ("top", |_, n| format!(r#"<xs:element name="{}" type="xs:string"/>"#, n)),
            ("top-complex", |_, n| format!(r#"<xs:element name="{}">{}</xs:element>"#, n, complex(""))),
            ("member", |_, n| {
                format!(
                    r#"<xs:complexType name="%Root"><xs:sequence><xs:element name="{}" type="xs:string"/><xs:element name="%m" type="xs:int" minOccurs="0"/></xs:sequence></xs:complexType>"#,
                    n
                )
            }),
            ("list", |_, n| {
                format!(
                    r#"<xs:complexType name="%Root"><xs:sequence><xs:element name="{}" type="xs:string" minOccurs="0" maxOccurs="unbounded"/></xs:sequence></xs:complexType>"#,
                    n
                )
            }),
            ("inline", |_, n| {
                format!(
                    r#"<xs:complexType name="%Root"><xs:sequence><xs:element name="{}" minOccurs="0">{}</xs:element></xs:sequence></xs:complexType>"#,
                    n,
                    complex("")
                )
            }),
            ("ref", |ns, n| {
                format!(
                    r#"<xs:complexType name="%Root"><xs:sequence><xs:element ref="{}"/></xs:sequence></xs:complexType><xs:element name="{}">{}</xs:element>"#,
                    ns.q(n),
                    n,
                    complex("")
                )
            }),
            ("type", |ns, n| {
                format!(
                    r#"<xs:complexType name="%Root"><xs:sequence><xs:element name="%a" type="{}"/></xs:sequence></xs:complexType>{}"#,
                    ns.q(n),
                    complex(n)
                )
            }),
            ("simple-type", |ns, n| {
                format!(
                    r#"<xs:complexType name="%Root"><xs:sequence><xs:element name="%a" type="{0}" minOccurs="0"/></xs:sequence><xs:attribute name="%t" type="{0}"/></xs:complexType><xs:simpleType name="{1}"><xs:restriction base="xs:int"/></xs:simpleType>"#,
                    ns.q(n),
                    n
                )
            }),
            ("enum-type", |ns, n| {
                format!(
                    r#"<xs:complexType name="%Root"><xs:sequence><xs:element name="%a" type="{0}" maxOccurs="2"/></xs:sequence><xs:attribute name="%t" type="{0}"/></xs:complexType><xs:simpleType name="{1}">{2}</xs:simpleType>"#,
                    ns.q(n),
                    n,
                    ENUM
                )
            }),
            ("base", |ns, n| {
                format!(
                    r#"{}<xs:complexType name="%Root"><xs:complexContent><xs:extension base="{}"><xs:sequence><xs:element name="%n" type="xs:int"/></xs:sequence></xs:extension></xs:complexContent></xs:complexType>"#,
                    complex(n),
                    ns.q(n)
                )
            }),
            ("attribute", |_, n| {
                format!(
                    r#"<xs:complexType name="%Root"><xs:attribute name="{}" type="xs:string"/><xs:attribute name="%t" type="xs:string" use="required"/></xs:complexType>"#,
                    n
                )
            }),
            ("attribute-enum", |_, n| {
                format!(
                    r#"<xs:complexType name="%Root"><xs:attribute name="{}" use="required"><xs:simpleType>{}</xs:simpleType></xs:attribute></xs:complexType>"#,
                    n, ENUM
                )
            }),
            ("alternative", |_, n| {
                format!(
                    r#"<xs:complexType name="%Root"><xs:choice><xs:element name="{}" type="xs:string"/><xs:element name="%m" type="xs:string"/></xs:choice></xs:complexType>"#,
                    n
                )
            }),
            ("alternative-list", |_, n| {
                format!(
                    r#"<xs:complexType name="%Root"><xs:sequence><xs:choice minOccurs="0" maxOccurs="unbounded"><xs:element name="{}">{}</xs:element></xs:choice></xs:sequence></xs:complexType>"#,
                    n,
                    complex("")
                )
            }),
            ("group", |_, n| {
                format!(
                    r#"<xs:complexType name="%Root"><xs:sequence><xs:sequence minOccurs="0"><xs:element name="{}" type="xs:string"/></xs:sequence></xs:sequence></xs:complexType>"#,
                    n
                )
            }),
            ("content-base", |ns, n| {
                format!(
                    r#"<xs:complexType name="%Root"><xs:simpleContent><xs:extension base="{}"><xs:attribute name="%t" type="xs:string"/></xs:extension></xs:simpleContent></xs:complexType><xs:simpleType name="{}"><xs:restriction base="xs:int"/></xs:simpleType>"#,
                    ns.q(n),
                    n
                )
            }),
            ("enum-base", |ns, n| {
                format!(
                    r#"<xs:complexType name="%Root"><xs:simpleContent><xs:extension base="{}"><xs:attribute name="%t" type="xs:string"/></xs:extension></xs:simpleContent></xs:complexType><xs:simpleType name="{}">{}</xs:simpleType>"#,
                    ns.q(n),
                    n,
                    ENUM
                )
            }),
            ("content", |_, n| {
                format!(
                    r#"<xs:complexType name="{}"><xs:simpleContent><xs:extension base="xs:int"><xs:attribute name="%t" type="xs:string"/></xs:extension></xs:simpleContent></xs:complexType>"#,
                    n
                )
            }),
            ("plain-base", |ns, n| {
                format!(
                    r#"{}<xs:complexType name="%Root"><xs:complexContent><xs:extension base="{}"><xs:attribute name="%u" type="xs:string"/></xs:extension></xs:complexContent></xs:complexType>"#,
                    complex(n),
                    ns.q(n)
                )
            }),
            ("choice", |_, n| {
                format!(
                    r#"<xs:complexType name="{}"><xs:choice><xs:element name="%a" type="xs:string"/><xs:element name="%m" type="xs:int"/></xs:choice></xs:complexType>"#,
                    n
                )
            }),
            ("owner", |_, n| {
                format!(
                    r#"<xs:complexType name="{}"><xs:sequence><xs:element name="%a">{}</xs:element><xs:choice><xs:element name="%x" type="xs:string"/><xs:element name="%y" type="xs:int"/></xs:choice></xs:sequence></xs:complexType>"#,
                    n,
                    complex("")
                )
            }),
            ("all", |_, n| {
                format!(
                    r#"<xs:complexType name="%Root"><xs:all><xs:element name="{}" type="xs:string"/><xs:element name="%m" type="xs:int" minOccurs="0"/></xs:all></xs:complexType>"#,
                    n
                )
            }),
            ("ref-alternative", |ns, n| {
                format!(
                    r#"<xs:complexType name="%Root"><xs:choice><xs:element ref="{}"/><xs:element name="%m" type="xs:string"/></xs:choice></xs:complexType><xs:element name="{}" type="xs:int"/>"#,
                    ns.q(n),
                    n
                )
            }),
            ("value", |_, n| {
                format!(
                    r#"<xs:simpleType name="%Enum"><xs:restriction base="xs:string"><xs:enumeration value="{}"/><xs:enumeration value="$v"/></xs:restriction></xs:simpleType>"#,
                    n
                )
            }),
        ];
        for (k, (p, f)) in places.iter().enumerate() {
            let ns = NSS[(i + k) % 4];
            out.push(ns.schema(&format!("name/{}/{}", p, n), &f(ns, n)));
        }
    }
    out
}
