//! What is analysed for which property.
use crate::drive::*;
use crate::run::*;
use crate::tpls::*;

pub struct Prop {
    pub id: &'static str,
    /// kinds of findings that are about other properties, or, if they start with an `@`, the only ones
    /// that are about this one
    pub drop: &'static [&'static str],
    pub jobs: fn(Tier) -> Vec<(String, Job)>,
    pub rule: &'static str,
    /// functions that have to exist
    pub anchors: &'static [&'static str],
}

#[derive(Clone, Copy, PartialEq)]
pub enum Tier {
    Quick,
    Thorough,
}

struct Jobs {
    v: Vec<(String, Job)>,
    tpls: Vec<Tpl>,
    opts: Opts,
}

impl Jobs {
    fn new(opts: Opts) -> Jobs {
        Jobs {
            v: vec![],
            tpls: vec![],
            opts,
        }
    }

    fn add(&mut self, t: Tpl) {
        if !self.v.iter().any(|x| x.0 == t.id) {
            self.tpls.push(t.clone());
            self.v.push((t.id.clone(), job(t, self.opts.clone())));
        }
    }

    fn all(&mut self, t: Vec<Tpl>) {
        t.into_iter().for_each(|t| self.add(t));
    }
}

/// One of the namespace situations per template, or all of them.
fn nss(tier: Tier, i: usize) -> Vec<Ns> {
    match tier {
        Tier::Quick => vec![NSS[i % 4]],
        Tier::Thorough => NSS.to_vec(),
    }
}

fn members(tier: Tier, places: &[&str], kinds: &[&str], occ: &[&str], j: &mut Jobs) {
    let mut i = 0;
    for p in places {
        for k in kinds {
            for o in occ {
                i += 1;
                // shifted, so that the situations do not coincide with the occurrences
                for ns in nss(tier, i + i / 4 + i / 24) {
                    j.add(member(ns, p, k, o));
                }
            }
        }
    }
}

fn ids<T, F: Fn(&T) -> &'static str>(x: &[T], f: F) -> Vec<&'static str> {
    x.iter().map(f).collect()
}

fn kinds() -> Vec<&'static str> {
    KINDS.iter().map(|k| k.id).collect()
}

fn places() -> Vec<&'static str> {
    ids(PLACES, |p| p.0)
}

fn occ() -> Vec<&'static str> {
    ids(OCCURS, |p| p.0)
}

fn rotated(tier: Tier, f: fn(Ns) -> Vec<Tpl>, j: &mut Jobs) {
    match tier {
        Tier::Quick => {
            let v: Vec<Vec<Tpl>> = NSS.iter().map(|n| f(*n)).collect();
            for i in 0..v[0].len() {
                j.add(v[(i + i / 4) % 4][i].clone());
            }
        }
        Tier::Thorough => NSS.iter().for_each(|n| j.all(f(*n))),
    }
}

/// Groups with few members, in every position and with every occurrence.
fn small_groups(tier: Tier, occ: &[&str], j: &mut Jobs) {
    let mut i = 0;
    for b in ["req", "opt-req", "req-opt", "choice"] {
        for o in occ {
            for g in GROUPS {
                for inner in [None, Some("sequence"), Some("choice")] {
                    if supported(g, inner, b, o) {
                        i += 1;
                        for ns in nss(tier, i + i / 4) {
                            j.add(match inner {
                                None => content(ns, g, b, o),
                                Some(n) => group(ns, g, n, b, o),
                            });
                        }
                    }
                }
            }
        }
    }
}

fn all_occ() -> Vec<&'static str> {
    OCCURS.iter().chain(OCCURS2).map(|o| o.0).collect()
}

/// The places a property does not look at with all kinds anyway.
fn other_places(not: &[&str]) -> Vec<&'static str> {
    places().into_iter().filter(|p| !not.contains(p)).collect()
}

fn tops(j: &mut Jobs) {
    for ns in NSS {
        for k in kinds() {
            if !k.starts_with("ref-") {
                j.add(top(ns, k));
            }
        }
    }
}

fn write_only() -> Opts {
    Opts {
        read: false,
        ..Default::default()
    }
}

fn read_only() -> Opts {
    Opts {
        write: false,
        ..Default::default()
    }
}

fn bads(v: Vec<crate::bad::Bad>) -> Vec<(String, Job)> {
    v.into_iter().map(|b| (b.id.clone(), crate::bad::job(b))).collect()
}

/// Unknown attributes and children in all kinds of schemas.
fn anywhere(t: Tier, step: usize) -> Vec<crate::bad::Bad> {
    let mut j = Jobs::new(write_only());
    members(t, &places(), &kinds(), &["once"], &mut j);
    rotated(t, groups, &mut j);
    rotated(t, attrs, &mut j);
    let mut n = 0;
    let step = if t == Tier::Quick { step } else { 1 };
    j.tpls
        .iter()
        .flat_map(|t| {
            crate::bad::anywhere(t, &mut || {
                n += 1;
                n % step == 0
            })
        })
        .collect()
}

const SCHEMA_ERRORS: &[&str] = &[
    "xsd_internal::xsd::error::XsdError",
    "xsd_internal::xsd::node::NodeError",
    "xsd_internal::xsd::schema::SchemaError",
];
const READ_ERRORS: &[&str] = &["xsd::decode::FromXmlError"];

const GEN: &[&str] = &[
    "xsd_internal::xsd::schema::Schema::parse_file",
    "xsd_internal::xsd::schema::Schema::generate_all",
    "xsd::decode::decode",
];

const OTHER: &[&str] = &["nondet"];

pub const PROPS: &[Prop] = &[
    Prop {
        id: "C01",
        anchors: GEN,
        drop: &["nondet", "write:attr", "write:decl", "write:raw", "error:", "accept:", "duplicate"],
        rule: "for every element kind x occurrence x place (x namespace situation): every path of the generated writer, over every value (present/absent, list lengths, alternatives), emits a balanced event sequence that is a valid instance by the reference semantics and contains every present item exactly once",
        jobs: |t| {
            let mut j = Jobs::new(write_only());
            members(t, &places(), &kinds(), &occ(), &mut j);
            rotated(t, groups, &mut j);
            tops(&mut j);
            j.all(enums());
            j.v
        },
    },
    Prop {
        id: "C02",
        anchors: GEN,
        drop: OTHER,
        rule: "for every namespace situation x element kind x place: the expanded names of written events, resolved against the emitted declarations, are those of the reference, and the reader looks for the same ones",
        jobs: |t| {
            let mut j = Jobs::new(Opts::default());
            for ns in NSS {
                for p in ["sequence", "choice", "nested-choice", "extension"] {
                    for k in kinds() {
                        j.add(member(ns, p, k, "once"));
                        for (f, _) in FORMS {
                            if !k.starts_with("ref-") && (t == Tier::Thorough || p == "sequence" || p == "nested-choice") {
                                j.add(member(ns, p, k, f));
                            }
                        }
                    }
                }
            }
            tops(&mut j);
            j.all(crate::files::imports());
            let mut k = Jobs::new(Opts {
                mutate: false,
                ..Default::default()
            });
            members(t, &other_places(&["sequence", "choice", "nested-choice", "extension"]), &kinds(), &["once", "many"], &mut k);
            small_groups(t, &["once", "optional", "many"], &mut k);
            let mut m = Jobs::new(write_only());
            m.all(crate::files::many_namespaces(12));
            j.v.extend(m.v);
            j.v.extend(k.v);
            if t == Tier::Thorough {
                members(t, &places(), &kinds(), &["once", "optional", "any"], &mut j);
                rotated(t, groups, &mut j);
            }
            j.v
        },
    },
    Prop {
        id: "C03",
        anchors: GEN,
        drop: &["nondet", "write:attr", "write:decl", "write:raw", "error:ParseType", "error:FixedMismatch"],
        rule: "for every occurrence range x element kind x place: declared type, written items and collected items agree with the reference on every path",
        jobs: |t| {
            let mut j = Jobs::new(Opts::default());
            members(t, &["sequence", "choice", "all"], &kinds(), &occ(), &mut j);
            members(t, &["sequence", "choice", "all", "extension", "first"], &["string", "named-complex"], &ids(OCCURS2, |o| o.0), &mut j);
            members(t, &other_places(&["sequence", "choice", "all"]), &["string", "named-enum", "named-complex"], &["optional", "many", "upto3"], &mut j);
            small_groups(t, &all_occ(), &mut j);
            if t == Tier::Thorough {
                members(t, &places(), &kinds(), &occ(), &mut j);
                rotated(t, groups, &mut j);
            }
            j.v
        },
    },
    Prop {
        id: "C04",
        anchors: &[
            "xsd::decode::decode",
            "xsd::decode::Node::next_child",
            "xsd::decode::Node::try_next_child",
            "xsd::decode::Node::child",
            "xsd::decode::Node::try_child",
            "xsd::decode::Node::peek_child",
        ],
        drop: OTHER,
        rule: "for every element with up to n children whose names (or namespaces) coincide in every possible way, and every history of lookups: each lookup hands out the child a list of remaining children says, and nothing else is consumed",
        jobs: |t| {
            let mut v = crate::passes::all_lookups(if t == Tier::Quick { 3 } else { 4 }, 3);
            v.extend(crate::passes::long_lookups());
            v
        },
    },
    Prop {
        id: "C05",
        anchors: GEN,
        drop: OTHER,
        rule: "for every member kind x occurrence in xs:all and xs:sequence, and every order of one displaced element: the generated reader finds members of all anywhere and members of a sequence only in place",
        jobs: |t| {
            let mut j = Jobs::new(read_only());
            members(t, &["all", "sequence", "first"], &kinds(), &occ(), &mut j);
            members(t, &other_places(&["all", "sequence", "first"]), &["string", "named-complex"], &["once", "optional", "many"], &mut j);
            small_groups(t, &["once", "optional", "many"], &mut j);
            for ns in nss(t, 1) {
                for b in BODIES {
                    for o in ["once", "optional"] {
                        if supported("all", None, b.0, o) {
                            j.add(content(ns, "all", b.0, o));
                        }
                        if supported("sequence", None, b.0, o) {
                            j.add(content(ns, "sequence", b.0, o));
                        }
                    }
                }
            }
            j.v
        },
    },
    Prop {
        id: "C06",
        anchors: GEN,
        drop: &["nondet", "write:attr", "write:decl", "write:raw", "error:ParseType"],
        rule: "for every group (sequence, choice, all) x member list x occurrence, nested in every supported way: a group is entered exactly when the next element can begin it, by the reference",
        jobs: |t| {
            let mut j = Jobs::new(read_only());
            rotated(t, nested, &mut j);
            rotated(t, groups, &mut j);
            rotated(t, ambiguous, &mut j);
            members(t, &["choice", "nested-choice", "optional-group", "choice-group"], &["string", "named-complex", "choice-type", "extension"], &["once", "optional", "any"], &mut j);
            members(t, &["choice", "nested-choice", "choice-group"], &kinds(), &["once"], &mut j);
            j.v
        },
    },
    Prop {
        id: "C07",
        anchors: GEN,
        drop: OTHER,
        rule: "for every attribute type x use x owner (own type, extended base, base of base, simple content, choice, list member): presence, parsing, error and place of the attribute agree with the reference on every path",
        jobs: |t| {
            let mut j = Jobs::new(Opts::default());
            for ns in NSS {
                j.all(attrs(ns));
            }
            let _ = t;
            j.v
        },
    },
    Prop {
        id: "C08",
        anchors: GEN,
        drop: OTHER,
        rule: "for every fixed value (unknown ones and ones with special characters) x built-in type x place: the written value is the one of the schema, and on every path of the reader any other value is rejected with an error that has both",
        jobs: |t| {
            let mut j = Jobs::new(Opts::default());
            j.all(fixed());
            members(t, &places(), &["fixed"], &occ(), &mut j);
            for ns in nss(t, 2) {
                for (o, _) in OWNERS {
                    for (u, _) in USES {
                        j.add(attr(ns, o, "fixed", u));
                    }
                }
            }
            j.v.push(crate::passes::messages(READ_ERRORS, &["expected", "received"]));
            j.v
        },
    },
    Prop {
        id: "C09",
        anchors: GEN,
        drop: OTHER,
        rule: "for every list of enumeration values (unknown ones and ones with special characters, equal identifiers, keywords) x place: variants are distinct, and on every path reading and writing map each value to the same variant, and nothing else is accepted",
        jobs: |t| {
            let mut j = Jobs::new(Opts::default());
            j.all(enums());
            members(t, &["sequence", "choice", "all"], &["named-enum", "inline-enum", "ref-enum"], &occ(), &mut j);
            members(t, &other_places(&["sequence", "choice", "all"]), &["named-enum", "inline-enum", "enum-content"], &["once", "optional", "many"], &mut j);
            for ns in nss(t, 2) {
                for (o, _) in OWNERS {
                    for (u, _) in USES {
                        j.add(attr(ns, o, "enum", u));
                        j.add(attr(ns, o, "inline-enum", u));
                    }
                }
            }
            j.v
        },
    },
    Prop {
        id: "C10",
        anchors: GEN,
        drop: OTHER,
        rule: "for every built-in type x use: field type, parser, printer and reported type name agree with the table of the reference; every other name of the XSD namespace is rejected",
        jobs: |_| {
            let mut j = Jobs::new(Opts::default());
            j.all(builtins());
            j.v
        },
    },
    Prop {
        id: "C11",
        anchors: GEN,
        drop: &["position", "nondet", "gen-panic"],
        rule: "for every construct and an unknown attribute or child in every place of it (its name is a variable: each literal it is compared with is a case of its own), and for every listed reason: no path accepts the schema, and the error contains the name",
        jobs: |t| {
            let mut v = crate::bad::unknown();
            v.extend(crate::bad::reasons());
            v.extend(anywhere(t, 1));
            let mut j = bads(v);
            j.push(crate::passes::messages(SCHEMA_ERRORS, &["name"]));
            j
        },
    },
    Prop {
        id: "C18",
        anchors: GEN,
        drop: &["accepted", "unnamed", "nondet", "gen-panic"],
        rule: "for every way in which a schema can be wrong, in the first file, in an included and in an imported one: the error has the path of that file and row and column of the start of the construct",
        jobs: |t| {
            let mut v = crate::bad::unknown();
            v.extend(crate::bad::reasons());
            let inc: Vec<_> = v
                .iter()
                .enumerate()
                .flat_map(|(i, b)| match t {
                    Tier::Quick => vec![crate::bad::included(b, i)],
                    Tier::Thorough => (0..4).map(|h| crate::bad::included(b, h)).collect(),
                })
                .collect();
            v.extend(inc);
            v.extend(crate::bad::unreadable());
            v.extend(anywhere(t, 1));
            let mut j = bads(v);
            j.push(crate::passes::messages(SCHEMA_ERRORS, &["file", "row", "col"]));
            j
        },
    },
    Prop {
        id: "C12",
        anchors: &[
            "xsd_internal::xsd::schema::Schema::parse_file",
            "xsd_internal::xsd::schema::Schema::elements",
            "xsd_internal::xsd::schema::Schema::generate_element_and_dependencies",
        ],
        drop: OTHER,
        rule: "for every template and every definition of it: generating the definition with its dependencies generates it, everything it refers to, transitively, and nothing twice; asking for one after the other generates what generating all does",
        jobs: |t| {
            let mut j = Jobs::new(write_only());
            members(t, &places(), &kinds(), &["once", "any"], &mut j);
            rotated(t, nested, &mut j);
            rotated(t, groups, &mut j);
            tops(&mut j);
            rotated(t, attrs, &mut j);
            j.all(enums().into_iter().filter(|e| !e.id.contains("/16/")).collect());
            for ns in NSS {
                j.all(crate::files::includes(ns));
            }
            j.all(crate::files::imports());
            // what a name refers to
            let mut k = Jobs::new(Opts {
                mutate: false,
                ..Default::default()
            });
            rotated(t, nested, &mut k);
            k.all(crate::files::imports());
            let mut v = k.v;
            v.extend(j.tpls.into_iter().map(|t| (t.id.clone(), crate::deps::job(t))));
            v
        },
    },
    Prop {
        id: "C13",
        anchors: GEN,
        drop: &["nondet", "position", "unnamed"],
        rule: "for every way in which files include or import each other (places, nesting, repetition, circles, forms and prefixes of several namespaces): everything that is declared in them is generated, with the meaning the reference gives it",
        jobs: |t| {
            let mut j = Jobs::new(Opts {
                mutate: t == Tier::Thorough,
                ..Default::default()
            });
            for ns in NSS {
                j.all(crate::files::includes(ns));
            }
            j.all(crate::files::imports());
            let mut v = j.v;
            v.extend(j.tpls.into_iter().map(|t| (t.id.clone(), crate::deps::job(t))));
            let mut b = crate::bad::unreadable();
            b.extend(crate::bad::reasons().into_iter().filter(|b| b.id.contains("no-location")));
            v.extend(bads(b));
            v
        },
    },
    Prop {
        id: "C14",
        anchors: GEN,
        drop: OTHER,
        rule: "for every template and every document with up to one defect (missing, renamed, moved, duplicated, foreign or unknown item, other namespace, missing text, malformed): no path of the generated reader panics, and every path that the reference rejects ends in the error the reference demands",
        jobs: |t| {
            let mut j = Jobs::new(read_only());
            members(t, &["sequence", "choice", "nested-choice"], &kinds(), &["once", "optional", "many"], &mut j);
            for ns in nss(t, 1) {
                for (o, _) in OWNERS {
                    for (ty, _) in ATTRS {
                        for u in ["absent", "required"] {
                            j.add(attr(ns, o, ty, u));
                        }
                    }
                }
            }
            tops(&mut j);
            members(t, &other_places(&["sequence", "choice", "nested-choice"]), &kinds(), &["once"], &mut j);
            members(t, &other_places(&["sequence", "choice", "nested-choice"]), &["string", "named-complex"], &["optional", "many"], &mut j);
            small_groups(t, &["once", "optional", "many"], &mut j);
            if t == Tier::Thorough {
                rotated(t, groups, &mut j);
                members(t, &places(), &kinds(), &occ(), &mut j);
            }
            j.v.push(crate::passes::messages(READ_ERRORS, &["name", "type_", "value"]));
            j.v
        },
    },
    Prop {
        id: "C15",
        anchors: GEN,
        drop: &["@gen-panic", "@accepted reason/", "@accepted open/"],
        rule: "for every template, every way in which a schema can be wrong and every schema that differs from a construct in one odd value, missing, repeated, emptied or nested part: no path of parsing and generating panics or goes on for ever, and files that cannot be opened or parsed are errors",
        jobs: |t| {
            let mut j: Vec<(String, Job)> = crate::odd::all(t == Tier::Thorough).into_iter().map(|t| (t.id.clone(), crate::odd::job(t))).collect();
            let mut v = crate::bad::unknown();
            v.extend(crate::bad::reasons());
            v.extend(crate::bad::unreadable());
            j.extend(bads(v));
            j.extend(crate::odd::texts());
            let mut w = Jobs::new(write_only());
            w.all(named());
            w.all(enums());
            members(t, &places(), &kinds(), &["once", "any"], &mut w);
            rotated(t, groups, &mut w);
            rotated(t, attrs, &mut w);
            j.extend(w.tpls.into_iter().map(|t| (t.id.clone(), crate::odd::job(t))));
            j
        },
    },
    Prop {
        id: "C16",
        anchors: GEN,
        drop: &["@nondet"],
        rule: "for every template, every way in which a schema can be wrong and every order of every hash table that is iterated over (as inserted, reversed, rotated, different each time), time, environment and state of the process: the same inputs lead to the same code and the same error",
        jobs: |t| {
            let mut j = Jobs::new(write_only());
            members(t, &places(), &kinds(), &["once", "any"], &mut j);
            rotated(t, groups, &mut j);
            tops(&mut j);
            rotated(t, attrs, &mut j);
            j.all(enums());
            let several = j.tpls.len();
            for ns in NSS {
                j.all(crate::files::includes(ns));
            }
            j.all(crate::files::imports());
            j.all(crate::files::same_names());
            let mut v: Vec<(String, Job)> = j.tpls[several..].iter().map(|t| (t.id.clone(), crate::deps::job(t.clone()))).collect();
            v.extend(j.tpls.into_iter().map(|t| (t.id.clone(), crate::odd::job(t))));
            let mut b = crate::bad::unknown();
            b.extend(crate::bad::reasons());
            b.extend(crate::bad::unreadable());
            let inc: Vec<_> = b.iter().enumerate().map(|(i, b)| crate::bad::included(b, i)).collect();
            b.extend(inc);
            v.extend(bads(b));
            v
        },
    },
    Prop {
        id: "C17",
        anchors: GEN,
        drop: OTHER,
        rule: "for every keyword and unusual name x place of a name: the generated code is valid Rust, and declaration, reader, writer and references use the same identifier",
        jobs: |_| {
            let mut j = Jobs::new(Opts {
                mutate: false,
                ..Default::default()
            });
            j.all(named());
            j.all(enums());
            j.v
        },
    },
    Prop {
        id: "C19",
        anchors: &["xsd_derive::all"],
        drop: &["@macro"],
        rule: "for every kind of module (attributes, visibility, items) x arguments: the macro's result is that module with all items generated from the schema at the path relative to the manifest directory, or a compile error if an argument, the item or the schema is not valid",
        jobs: |t| crate::mac::jobs(t == Tier::Thorough),
    },
    Prop {
        id: "C20",
        anchors: GEN,
        drop: OTHER,
        rule: "for every kind of text and attribute: on every path the complete text (also in several pieces) reaches the value, and the value is written through escaping operations only",
        jobs: |t| {
            let mut j = Jobs::new(Opts::default());
            j.all(builtins());
            tops(&mut j);
            for ns in nss(t, 3) {
                for (o, _) in OWNERS {
                    for (ty, _) in ATTRS {
                        j.add(attr(ns, o, ty, "required"));
                    }
                }
            }
            members(t, &["sequence", "choice"], &kinds(), &["once", "optional", "many"], &mut j);
            members(t, &other_places(&["sequence", "choice"]), &kinds(), &["once"], &mut j);
            j.v
        },
    },
    Prop {
        id: "C21",
        anchors: GEN,
        drop: &["@docs"],
        rule: "for every place of an annotation (types, fields, groups) x text (white space, empty, several, comments) x which of the others are documented: the generated type or field has the normalised text as its only documentation, and nothing else has it",
        jobs: |t| crate::annot::jobs(t == Tier::Thorough),
    },
    Prop {
        id: "C22",
        anchors: GEN,
        drop: &["@string"],
        rule: "for every text type (built-in types and enumerations, declared in every way): on every path over an unknown string, parsing it and reading it as text agree in outcome and value, and over every value, printing it and writing it as text agree, and what is printed is parsed as that value",
        jobs: |_| crate::strings::jobs(),
    },
];
