//! Schemas that have to be rejected, and how.
use crate::drive::*;
use crate::interp::Ctl;
use crate::load::*;
use crate::model::*;
use crate::passes::fn_site_in;
use crate::run::*;
use crate::tpls::BUILTINS;
use crate::val::*;
use crate::xmlt::*;

/// What the error has to point at.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum At {
    /// the last attribute of the marked element
    LastAttr,
    /// the marked element
    Node,
    /// the marked element or one of its attributes
    Either,
    /// the place where the parser gave up
    Xml,
    /// a file that cannot be opened
    Open(&'static str),
}

#[derive(Clone)]
pub struct Bad {
    pub id: String,
    pub files: Vec<(String, String)>,
    /// values of `$unk` with which the schema is not wrong for that reason
    pub allowed: Vec<&'static str>,
    /// what the error has to contain
    pub names: Vec<&'static str>,
    pub at: At,
    /// the file the error is about
    pub file: String,
    /// the function that should have rejected it
    pub func: &'static str,
    pub what: String,
}

const XS: &str = r#"xmlns:xs="http://www.w3.org/2001/XMLSchema""#;

fn schema(body: &str) -> String {
    format!(r#"<xs:schema {} xmlns:p="http://t.example/T/" targetNamespace="http://t.example/T/">{}</xs:schema>"#, XS, body)
}

pub struct Construct {
    id: &'static str,
    func: &'static str,
    attrs: &'static [&'static str],
    kids: &'static [&'static str],
    /// `~` is where an attribute can be added, `^` where a child can be
    body: &'static str,
}

const fn c(id: &'static str, func: &'static str, attrs: &'static [&'static str], kids: &'static [&'static str], body: &'static str) -> Construct {
    Construct {
        id,
        func,
        attrs,
        kids,
        body,
    }
}

/// In these attributes and children are not mentioned by the property.
const ANY: &[&str] = &["*"];
const LOCAL: &[&str] = &["name", "type", "ref", "fixed", "default", "form", "minOccurs", "maxOccurs"];
const LOCAL_NOFIX: &[&str] = &["name", "type", "ref", "default", "form", "minOccurs", "maxOccurs"];
const GROUP: &[&str] = &["element", "sequence", "choice", "annotation"];
const FACETS: &[&str] = &[
    "enumeration",
    "length",
    "minLength",
    "maxLength",
    "pattern",
    "minInclusive",
    "maxInclusive",
    "fractionDigits",
    "totalDigits",
];
const TOP: &[&str] = &["element", "complexType", "simpleType", "include", "import"];
const ST: &str = "xsd_internal::xsd::parse::simple_type::parse";
const CT: &str = "xsd_internal::xsd::parse::complex_type::parse";
const ER: &str = "xsd_internal::xsd::parse::element::parse_root";
const EC: &str = "xsd_internal::xsd::parse::element::parse_child";
const AT: &str = "xsd_internal::xsd::parse::attribute::parse";
const SQ: &str = "xsd_internal::xsd::parse::sequence::parse";
const CH: &str = "xsd_internal::xsd::parse::choice::parse";
const SC: &str = "xsd_internal::xsd::parse::simple_content::parse";
const CC: &str = "xsd_internal::xsd::parse::complex_content::parse";
const AN: &str = "xsd_internal::xsd::parse::annotation::parse";
const SH: &str = "xsd_internal::xsd::schema::Schema::parse_schema_with_context";
const TN: &str = "xsd_internal::xsd::context::Context::get_type_name";

pub const CONSTRUCTS: &[Construct] = &[
    c("top-element", ER, &["name", "type", "fixed"], &["annotation"], r#"<xs:element name="%e" type="xs:string"~>^</xs:element>"#),
    c("top-element-named", ER, &["name", "type"], &["annotation"], r#"<xs:element name="%e" type="p:%t"~>^</xs:element>"#),
    c("top-element-complex", ER, &["name", "type"], &["annotation"], r#"<xs:element name="%e"~>^<xs:complexType/>^</xs:element>"#),
    c("top-element-simple", ER, &["name", "type"], &["annotation", "complexType"], r#"<xs:element name="%e"~>^<xs:simpleType><xs:restriction base="xs:int"/></xs:simpleType>^</xs:element>"#),
    c("element", EC, LOCAL, &["annotation"], r#"<xs:complexType name="%c"><xs:sequence><xs:element name="%e" type="xs:string"~>^</xs:element></xs:sequence></xs:complexType>"#),
    c("element-in-all", EC, LOCAL, &["annotation"], r#"<xs:complexType name="%c"><xs:all><xs:element name="%e" type="xs:int" minOccurs="0"~>^</xs:element></xs:all></xs:complexType>"#),
    c("element-in-choice", EC, LOCAL, &["annotation"], r#"<xs:complexType name="%c"><xs:choice><xs:element name="%f" type="xs:int"/><xs:element name="%e" type="xs:int"~>^</xs:element></xs:choice></xs:complexType>"#),
    c("element-in-extension", EC, LOCAL, &["annotation"], r#"<xs:complexType name="%c"><xs:complexContent><xs:extension base="p:%b"><xs:sequence><xs:element name="%e" type="xs:int"~>^</xs:element></xs:sequence></xs:extension></xs:complexContent></xs:complexType>"#),
    c("element-named", EC, LOCAL_NOFIX, &["annotation"], r#"<xs:complexType name="%c"><xs:sequence><xs:element name="%e" type="p:%t"~>^</xs:element></xs:sequence></xs:complexType>"#),
    c("element-ref", EC, &["ref", "minOccurs", "maxOccurs"], &["annotation"], r#"<xs:complexType name="%c"><xs:sequence><xs:element ref="p:%t"~>^</xs:element></xs:sequence></xs:complexType>"#),
    c("element-ref-in-choice", EC, &["ref", "minOccurs", "maxOccurs"], &["annotation"], r#"<xs:complexType name="%c"><xs:choice><xs:element ref="p:%t"~>^</xs:element></xs:choice></xs:complexType>"#),
    c("element-any", EC, LOCAL_NOFIX, &["annotation", "complexType", "simpleType"], r#"<xs:complexType name="%c"><xs:sequence><xs:element name="%e"~>^</xs:element></xs:sequence></xs:complexType>"#),
    c("element-complex", EC, LOCAL_NOFIX, &["annotation"], r#"<xs:complexType name="%c"><xs:sequence><xs:element name="%e"~>^<xs:complexType/>^</xs:element></xs:sequence></xs:complexType>"#),
    c("element-simple", EC, LOCAL_NOFIX, &["annotation", "complexType"], r#"<xs:complexType name="%c"><xs:sequence><xs:element name="%e"~>^<xs:simpleType><xs:restriction base="xs:int"/></xs:simpleType>^</xs:element></xs:sequence></xs:complexType>"#),
    c("attribute", AT, &["name", "type", "use", "fixed", "default"], &["annotation", "simpleType"], r#"<xs:complexType name="%c"><xs:attribute name="%a" type="xs:int"~>^</xs:attribute></xs:complexType>"#),
    c("attribute-required", AT, &["name", "type", "use", "fixed", "default"], &["annotation", "simpleType"], r#"<xs:complexType name="%c"><xs:sequence/><xs:attribute name="%a" type="xs:int" use="required"~>^</xs:attribute></xs:complexType>"#),
    c("attribute-named", AT, &["name", "type", "use", "default"], &["annotation", "simpleType"], r#"<xs:complexType name="%c"><xs:attribute name="%a" type="p:%t" use="optional"~>^</xs:attribute></xs:complexType>"#),
    c("attribute-inline", AT, &["name", "use", "default"], &["annotation"], r#"<xs:complexType name="%c"><xs:attribute name="%a"~>^<xs:simpleType><xs:restriction base="xs:int"/></xs:simpleType>^</xs:attribute></xs:complexType>"#),
    c("attribute-of-simple-content", AT, &["name", "type", "use", "fixed", "default"], &["annotation", "simpleType"], r#"<xs:complexType name="%c"><xs:simpleContent><xs:extension base="xs:string"><xs:attribute name="%a" type="xs:int"~>^</xs:attribute></xs:extension></xs:simpleContent></xs:complexType>"#),
    c("attribute-of-complex-content", AT, &["name", "type", "use", "fixed", "default"], &["annotation", "simpleType"], r#"<xs:complexType name="%c"><xs:complexContent><xs:extension base="p:%b"><xs:attribute name="%a" type="xs:int"~>^</xs:attribute></xs:extension></xs:complexContent></xs:complexType>"#),
    c("complexType", CT, &["name", "mixed"], &["annotation", "simpleContent", "complexContent", "sequence", "all", "choice", "attribute"], r#"<xs:complexType name="%c"~>^</xs:complexType>"#),
    c("complexType-sequence", CT, &["name", "mixed"], &["annotation", "simpleContent", "complexContent", "attribute"], r#"<xs:complexType name="%c"~>^<xs:sequence/>^<xs:attribute name="%a" type="xs:int"/>^</xs:complexType>"#),
    c("complexType-all", CT, &["name", "mixed"], &["annotation", "simpleContent", "complexContent", "attribute", "sequence"], r#"<xs:complexType name="%c"~>^<xs:all/>^</xs:complexType>"#),
    c("complexType-choice", CT, &["name", "mixed"], &["annotation", "simpleContent", "complexContent", "attribute", "sequence", "all"], r#"<xs:complexType name="%c"~>^<xs:choice><xs:element name="%e" type="xs:int"/></xs:choice>^</xs:complexType>"#),
    c("complexType-simpleContent", CT, &["name", "mixed"], &["annotation"], r#"<xs:complexType name="%c"~>^<xs:simpleContent><xs:extension base="xs:int"/></xs:simpleContent>^</xs:complexType>"#),
    c("complexType-complexContent", CT, &["name", "mixed"], &["annotation", "simpleContent"], r#"<xs:complexType name="%c"~>^<xs:complexContent><xs:extension base="p:%b"/></xs:complexContent>^</xs:complexType>"#),
    c("complexType-anonymous", CT, &["mixed"], &["annotation", "simpleContent", "complexContent", "sequence", "all", "choice", "attribute"], r#"<xs:element name="%e"><xs:complexType~>^</xs:complexType></xs:element>"#),
    c("complexType-local", CT, &["mixed"], &["annotation", "simpleContent", "complexContent", "sequence", "all", "choice", "attribute"], r#"<xs:complexType name="%c"><xs:sequence><xs:element name="%e"><xs:complexType~>^</xs:complexType></xs:element></xs:sequence></xs:complexType>"#),
    c("simpleType", ST, &["name"], &["annotation"], r#"<xs:simpleType name="%c"~>^<xs:restriction base="xs:int"/>^</xs:simpleType>"#),
    c("simpleType-anonymous", ST, &[], &["annotation"], r#"<xs:element name="%c"><xs:simpleType~>^<xs:restriction base="xs:int"/>^</xs:simpleType></xs:element>"#),
    c("simpleType-of-attribute", ST, &[], &["annotation"], r#"<xs:complexType name="%c"><xs:attribute name="%a"><xs:simpleType~>^<xs:restriction base="xs:int"/>^</xs:simpleType></xs:attribute></xs:complexType>"#),
    c("restriction", ST, ANY, FACETS, r#"<xs:simpleType name="%c"><xs:restriction base="xs:string">^<xs:enumeration value="$v"/>^</xs:restriction></xs:simpleType>"#),
    c("restriction-of-attribute", ST, ANY, FACETS, r#"<xs:complexType name="%c"><xs:attribute name="%a"><xs:simpleType><xs:restriction base="xs:int">^<xs:minInclusive value="1"/>^</xs:restriction></xs:simpleType></xs:attribute></xs:complexType>"#),
    c("sequence", SQ, &["minOccurs", "maxOccurs"], GROUP, r#"<xs:complexType name="%c"><xs:sequence~>^<xs:element name="%e" type="xs:int"/>^</xs:sequence></xs:complexType>"#),
    c("sequence-in-sequence", SQ, &["minOccurs"], GROUP, r#"<xs:complexType name="%c"><xs:sequence><xs:sequence~>^<xs:element name="%e" type="xs:int"/>^</xs:sequence></xs:sequence></xs:complexType>"#),
    c("sequence-in-choice", SQ, &["minOccurs", "maxOccurs"], GROUP, r#"<xs:complexType name="%c"><xs:choice><xs:sequence~>^<xs:element name="%e" type="xs:int"/>^</xs:sequence></xs:choice></xs:complexType>"#),
    c("sequence-of-extension", SQ, &["minOccurs"], GROUP, r#"<xs:complexType name="%c"><xs:complexContent><xs:extension base="p:%b"><xs:sequence~>^<xs:element name="%e" type="xs:int"/>^</xs:sequence></xs:extension></xs:complexContent></xs:complexType>"#),
    c("all", SQ, &["minOccurs", "maxOccurs"], GROUP, r#"<xs:complexType name="%c"><xs:all~>^<xs:element name="%e" type="xs:int"/>^</xs:all></xs:complexType>"#),
    c("choice", CH, &[], &["element", "sequence", "annotation"], r#"<xs:complexType name="%c"><xs:choice~>^<xs:element name="%e" type="xs:int"/>^</xs:choice></xs:complexType>"#),
    c("choice-in-sequence", CH, &["minOccurs", "maxOccurs"], &["element", "sequence", "annotation"], r#"<xs:complexType name="%c"><xs:sequence><xs:choice~>^<xs:element name="%e" type="xs:int"/>^</xs:choice></xs:sequence></xs:complexType>"#),
    c("simpleContent", SC, &[], &["extension"], r#"<xs:complexType name="%c"><xs:simpleContent~>^<xs:extension base="xs:int"/>^</xs:simpleContent></xs:complexType>"#),
    c("complexContent", CC, &[], &["extension"], r#"<xs:complexType name="%c"><xs:complexContent~>^<xs:extension base="p:%b"/>^</xs:complexContent></xs:complexType>"#),
    c("extension-of-simpleContent", SC, ANY, &["attribute"], r#"<xs:complexType name="%c"><xs:simpleContent><xs:extension base="xs:int">^<xs:attribute name="%a" type="xs:int"/>^</xs:extension></xs:simpleContent></xs:complexType>"#),
    c("extension-of-complexContent", CC, ANY, &["attribute", "sequence"], r#"<xs:complexType name="%c"><xs:complexContent><xs:extension base="p:%b">^<xs:attribute name="%a" type="xs:int"/>^</xs:extension></xs:complexContent></xs:complexType>"#),
    c("annotation-of-top-element", AN, &[], &["documentation"], r#"<xs:element name="%e" type="xs:string"><xs:annotation~>^<xs:documentation>text</xs:documentation>^</xs:annotation></xs:element>"#),
    c("annotation-of-element", AN, &[], &["documentation"], r#"<xs:complexType name="%c"><xs:sequence><xs:element name="%e" type="xs:string"><xs:annotation~>^<xs:documentation>text</xs:documentation>^</xs:annotation></xs:element></xs:sequence></xs:complexType>"#),
    c("annotation-of-attribute", AN, &[], &["documentation"], r#"<xs:complexType name="%c"><xs:attribute name="%a" type="xs:string"><xs:annotation~>^<xs:documentation>text</xs:documentation>^</xs:annotation></xs:attribute></xs:complexType>"#),
    c("annotation-of-complexType", AN, &[], &["documentation"], r#"<xs:complexType name="%c"><xs:annotation~>^<xs:documentation>text</xs:documentation>^</xs:annotation></xs:complexType>"#),
    c("annotation-of-simpleType", AN, &[], &["documentation"], r#"<xs:simpleType name="%c"><xs:annotation~>^<xs:documentation>text</xs:documentation>^</xs:annotation><xs:restriction base="xs:int"/></xs:simpleType>"#),
    c("annotation-of-sequence", AN, &[], &["documentation"], r#"<xs:complexType name="%c"><xs:sequence><xs:sequence><xs:annotation~>^<xs:documentation>text</xs:documentation>^</xs:annotation><xs:element name="%e" type="xs:int"/></xs:sequence></xs:sequence></xs:complexType>"#),
    c("schema", SH, ANY, TOP, r#"^<xs:element name="%e" type="xs:int"/>^"#),
];

/// Schemas that are wrong for one particular reason: id, function, what the error has to contain, what
/// it has to point at, body of the schema.
const REASONS: &[(&str, &str, &[&str], At, &str)] = &[
    ("type-prefix", TN, &["zz"], At::Either, r#"<!--!--><xs:element name="%e" type="zz:%t"/>"#),
    ("type-prefix-local", TN, &["zz"], At::Either, r#"<xs:complexType name="%c"><xs:sequence><!--!--><xs:element name="%e" type="zz:%t"/></xs:sequence></xs:complexType>"#),
    ("type-prefix-ref", TN, &["zz"], At::Either, r#"<xs:complexType name="%c"><xs:choice><!--!--><xs:element ref="zz:%t"/></xs:choice></xs:complexType>"#),
    ("type-prefix-attribute", TN, &["zz"], At::Either, r#"<xs:complexType name="%c"><!--!--><xs:attribute name="%e" type="zz:%t"/></xs:complexType>"#),
    ("type-prefix-simple-base", TN, &["zz"], At::Either, r#"<xs:complexType name="%c"><xs:simpleContent><!--!--><xs:extension base="zz:%t"/></xs:simpleContent></xs:complexType>"#),
    ("type-prefix-complex-base", TN, &["zz"], At::Either, r#"<xs:complexType name="%c"><xs:complexContent><!--!--><xs:extension base="zz:%t"/></xs:complexContent></xs:complexType>"#),
    ("type-prefix-restriction", TN, &["zz"], At::Either, r#"<xs:simpleType name="%c"><!--!--><xs:restriction base="zz:%t"/></xs:simpleType>"#),
    ("ref-builtin", EC, &["ref", "xs:string"], At::Either, r#"<xs:complexType name="%c"><xs:sequence><!--!--><xs:element ref="xs:string"/></xs:sequence></xs:complexType>"#),
    ("base-builtin", CC, &["base", "xs:string"], At::Either, r#"<xs:complexType name="%c"><xs:complexContent><!--!--><xs:extension base="xs:string"/></xs:complexContent></xs:complexType>"#),
    ("base-named", ST, &["base", "p:%t"], At::Either, r#"<xs:simpleType name="%c"><!--!--><xs:restriction base="p:%t"/></xs:simpleType>"#),
    ("mixed", CT, &["mixed", "true"], At::Either, r#"<!--!--><xs:complexType name="%c" mixed="true"><xs:sequence/></xs:complexType>"#),
    ("mixed-one", CT, &["mixed", "1"], At::Either, r#"<!--!--><xs:complexType name="%c" mixed="1"><xs:sequence/></xs:complexType>"#),
    ("mixed-one-local", CT, &["mixed", "1"], At::Either, r#"<xs:element name="%c"><!--!--><xs:complexType mixed="1"><xs:attribute name="%a" type="xs:int"/></xs:complexType></xs:element>"#),
    ("mixed-local", CT, &["mixed", "true"], At::Either, r#"<xs:element name="%c"><!--!--><xs:complexType mixed="true"/></xs:element>"#),
    ("default-required", AT, &["default"], At::Either, r#"<xs:complexType name="%c"><!--!--><xs:attribute name="%a" type="xs:int" use="required" default="1"/></xs:complexType>"#),
    ("no-name-element", SH, &["name", "element"], At::Node, r#"<!--!--><xs:element type="xs:int"/>"#),
    ("no-name-complexType", SH, &["name", "complexType"], At::Node, r#"<xs:element name="%e" type="xs:int"/><!--!--><xs:complexType/>"#),
    ("no-name-simpleType", SH, &["name", "simpleType"], At::Node, r#"<!--!--><xs:simpleType><xs:restriction base="xs:int"/></xs:simpleType>"#),
    ("no-name-local", EC, &["name", "element"], At::Node, r#"<xs:complexType name="%c"><xs:sequence><xs:element name="%f" type="xs:int"/><!--!--><xs:element type="xs:int"/></xs:sequence></xs:complexType>"#),
    ("no-name-attribute", AT, &["name", "attribute"], At::Node, r#"<xs:complexType name="%c"><!--!--><xs:attribute type="xs:int"/></xs:complexType>"#),
    ("no-type-attribute", AT, &["type", "attribute"], At::Node, r#"<xs:complexType name="%c"><!--!--><xs:attribute name="%a"/></xs:complexType>"#),
    ("no-type-element", ER, &["element"], At::Node, r#"<!--!--><xs:element name="%e"/>"#),
    ("no-base-simple", SC, &["base", "extension"], At::Node, r#"<xs:complexType name="%c"><xs:simpleContent><!--!--><xs:extension/></xs:simpleContent></xs:complexType>"#),
    ("no-base-complex", CC, &["base", "extension"], At::Node, r#"<xs:complexType name="%c"><xs:complexContent><!--!--><xs:extension/></xs:complexContent></xs:complexType>"#),
    ("no-base-restriction", ST, &["base", "restriction"], At::Node, r#"<xs:simpleType name="%c"><!--!--><xs:restriction/></xs:simpleType>"#),
    ("no-extension-simple", SC, &["extension"], At::Node, r#"<xs:complexType name="%c"><!--!--><xs:simpleContent/></xs:complexType>"#),
    ("no-extension-complex", CC, &["extension"], At::Node, r#"<xs:complexType name="%c"><!--!--><xs:complexContent/></xs:complexType>"#),
    ("no-restriction", ST, &["restriction"], At::Node, r#"<!--!--><xs:simpleType name="%c"/>"#),
    ("no-restriction-local", ST, &["restriction"], At::Node, r#"<xs:complexType name="%c"><xs:sequence><xs:element name="%e"><!--!--><xs:simpleType/></xs:element></xs:sequence></xs:complexType>"#),
    ("no-location", SH, &["schemaLocation"], At::Node, r#"<!--!--><xs:include/>"#),
    ("no-location-import", SH, &["schemaLocation"], At::Node, r#"<!--!--><xs:import namespace="urn:i"/>"#),
    ("circular-types", SH, &[], At::Either, r#"<xs:element name="%a" type="p:%b"/><!--!--><xs:element name="%b" type="p:%a"/>"#),
    ("circular-types-3", SH, &[], At::Either, r#"<xs:element name="%a" type="p:%b"/><xs:element name="%c" type="p:%a"/><!--!--><xs:element name="%b" type="p:%c"/>"#),
];

const FACET_VALUES: &[(&str, &str)] = &[
    ("length", "x"),
    ("length", "-1"),
    ("minLength", "x"),
    ("maxLength", "1.5"),
    ("minInclusive", "x"),
    ("maxInclusive", "1,5"),
    ("fractionDigits", "x"),
    ("totalDigits", "x"),
];

const OCCURS: &[(&str, &str, &str)] = &[
    ("element", "minOccurs", r#"<xs:complexType name="%c"><xs:sequence><!--!--><xs:element name="%e" type="xs:int" {}/></xs:sequence></xs:complexType>"#),
    ("element", "maxOccurs", r#"<xs:complexType name="%c"><xs:sequence><!--!--><xs:element name="%e" type="xs:int" {}/></xs:sequence></xs:complexType>"#),
    ("element-in-choice", "maxOccurs", r#"<xs:complexType name="%c"><xs:choice><!--!--><xs:element name="%e" type="xs:int" {}/></xs:choice></xs:complexType>"#),
    ("element-ref", "minOccurs", r#"<xs:complexType name="%c"><xs:sequence><!--!--><xs:element ref="p:%e" {}/></xs:sequence></xs:complexType>"#),
    ("sequence", "minOccurs", r#"<xs:complexType name="%c"><!--!--><xs:sequence {}><xs:element name="%e" type="xs:int"/></xs:sequence></xs:complexType>"#),
    ("sequence", "maxOccurs", r#"<xs:complexType name="%c"><!--!--><xs:sequence {}><xs:element name="%e" type="xs:int"/></xs:sequence></xs:complexType>"#),
    ("all", "minOccurs", r#"<xs:complexType name="%c"><!--!--><xs:all {}><xs:element name="%e" type="xs:int"/></xs:all></xs:complexType>"#),
    ("nested-sequence", "minOccurs", r#"<xs:complexType name="%c"><xs:sequence><!--!--><xs:sequence {}><xs:element name="%e" type="xs:int"/></xs:sequence></xs:sequence></xs:complexType>"#),
    ("nested-choice", "minOccurs", r#"<xs:complexType name="%c"><xs:sequence><!--!--><xs:choice {}><xs:element name="%e" type="xs:int"/></xs:choice></xs:sequence></xs:complexType>"#),
    ("nested-choice", "maxOccurs", r#"<xs:complexType name="%c"><xs:sequence><!--!--><xs:choice {}><xs:element name="%e" type="xs:int"/></xs:choice></xs:sequence></xs:complexType>"#),
    ("sequence-in-choice", "minOccurs", r#"<xs:complexType name="%c"><xs:choice><!--!--><xs:sequence {}><xs:element name="%e" type="xs:int"/></xs:sequence></xs:choice></xs:complexType>"#),
    ("sequence-in-choice", "maxOccurs", r#"<xs:complexType name="%c"><xs:choice><!--!--><xs:sequence {}><xs:element name="%e" type="xs:int"/></xs:sequence></xs:choice></xs:complexType>"#),
    ("sequence-of-extension", "minOccurs", r#"<xs:complexType name="%c"><xs:complexContent><xs:extension base="p:%b"><!--!--><xs:sequence {}><xs:element name="%e" type="xs:int"/></xs:sequence></xs:extension></xs:complexContent></xs:complexType>"#),
];

fn bad(id: String, body: &str, at: At, func: &'static str, names: &[&'static str], what: &str) -> Bad {
    Bad {
        id,
        files: vec![("/s/main.xsd".into(), schema(body))],
        allowed: vec![],
        names: names.to_vec(),
        at,
        file: "/s/main.xsd".into(),
        func,
        what: what.to_string(),
    }
}

/// Attributes and children that are not interpreted.
pub fn unknown() -> Vec<Bad> {
    let mut out = vec![];
    for c in CONSTRUCTS {
        let plain = |s: &str| s.replace(['~', '^'], "");
        if c.attrs != ANY {
            let i = c.body.find('~').unwrap();
            let tag = c.body[..i].rfind('<').unwrap();
            // also with a value that is common for booleans and with other attributes around it
            for (k, extra) in [("", ""), ("/foreign", r#" xmlns:f="urn:foreign" f:x="y""#)] {
                let body = format!("{}<!--!-->{}{} $unk=\"$val\"{}", plain(&c.body[..tag]), plain(&c.body[tag..i]), extra, plain(&c.body[i..]));
                let mut b = bad(
                    format!("unknown-attribute/{}{}", c.id, k),
                    &body,
                    At::LastAttr,
                    c.func,
                    &["$unk"],
                    "an attribute that is not interpreted",
                );
                b.allowed = c.attrs.to_vec();
                out.push(b);
            }
        }
        for (n, (i, _)) in c.body.match_indices('^').enumerate() {
            let mut kids = vec![("", "<xs:$unk/>")];
            if c.id == "schema" {
                kids = vec![("", r#"<xs:$unk name="%z"/>"#), ("/no-name", "<xs:$unk/>")];
            } else if c.id.starts_with("restriction") {
                kids = vec![("", r#"<xs:$unk value="1"/>"#), ("/no-value", "<xs:$unk/>")];
            }
            for (k, kid) in kids {
                let body = format!("{}<!--!-->{}{}", plain(&c.body[..i]), kid, plain(&c.body[i..]));
                let mut b = bad(
                    format!("unknown-child/{}/{}{}", c.id, n, k),
                    &body,
                    At::Node,
                    c.func,
                    &["$unk"],
                    "a child element that is not interpreted",
                );
                b.allowed = c.kids.to_vec();
                out.push(b);
            }
        }
    }
    out
}

/// Everything else that is wrong.
pub fn reasons() -> Vec<Bad> {
    let mut out = vec![];
    for (id, func, names, at, body) in REASONS {
        out.push(bad(format!("reason/{}", id), body, *at, func, names, id));
    }
    let mut b = bad(
        "reason/use".into(),
        r#"<xs:complexType name="%c"><!--!--><xs:attribute name="%a" type="xs:int" use="$unk"/></xs:complexType>"#,
        At::Either,
        AT,
        &["use", "$unk"],
        "a use that does not exist",
    );
    b.allowed = vec!["required", "optional", "prohibited"];
    out.push(b);
    for m in ["sequence", "choice", "all"] {
        let mut b = bad(
            format!("reason/form/{}", m),
            &format!(r#"<xs:complexType name="%c"><xs:{0}><!--!--><xs:element name="%e" type="xs:int" form="$unk"/></xs:{0}></xs:complexType>"#, m),
            At::Either,
            EC,
            &["form", "$unk"],
            "a form that does not exist",
        );
        b.allowed = vec!["qualified", "unqualified"];
        out.push(b);
    }
    for (i, body) in [
        r#"<!--!--><xs:element name="%e" type="xs:$unk"/>"#,
        r#"<xs:complexType name="%c"><xs:sequence><!--!--><xs:element name="%e" type="xs:$unk"/></xs:sequence></xs:complexType>"#,
        r#"<xs:complexType name="%c"><!--!--><xs:attribute name="%a" type="xs:$unk"/></xs:complexType>"#,
        r#"<xs:complexType name="%c"><xs:simpleContent><!--!--><xs:extension base="xs:$unk"/></xs:simpleContent></xs:complexType>"#,
        r#"<xs:simpleType name="%c"><!--!--><xs:restriction base="xs:$unk"/></xs:simpleType>"#,
    ]
    .iter()
    .enumerate()
    {
        let mut b = bad(format!("reason/builtin/{}", i), body, At::Either, TN, &["$unk"], "a built-in type that is not supported");
        b.allowed = BUILTINS.to_vec();
        out.push(b);
    }
    // without a prefix, as the default namespace
    let mut b = bad(
        "reason/builtin/default".into(),
        "",
        At::Either,
        TN,
        &["$unk"],
        "a built-in type that is not supported",
    );
    b.allowed = BUILTINS.to_vec();
    b.files[0].1 = r#"<schema xmlns="http://www.w3.org/2001/XMLSchema"><!--!--><element name="%e" type="$unk"/></schema>"#.into();
    out.push(b);
    for (f, v) in FACET_VALUES {
        out.push(bad(
            format!("reason/facet/{}/{}", f, v),
            &format!(r#"<xs:simpleType name="%c"><xs:restriction base="xs:string"><!--!--><xs:{} value="{}"/></xs:restriction></xs:simpleType>"#, f, v),
            At::Either,
            ST,
            &[],
            "a facet whose value is not a number",
        ));
    }
    for f in FACETS {
        out.push(bad(
            format!("reason/facet/{}/missing", f),
            &format!(r#"<xs:complexType name="%c"><xs:sequence><xs:element name="%e"><xs:simpleType><xs:restriction base="xs:string"><!--!--><xs:{}/></xs:restriction></xs:simpleType></xs:element></xs:sequence></xs:complexType>"#, f),
            At::Node,
            ST,
            &["value"],
            "a facet without a value",
        ));
    }
    for (id, a, body) in OCCURS {
        for v in ["x", "-1", ""] {
            out.push(bad(
                format!("reason/occurs/{}/{}/{}", id, a, v),
                &body.replace("{}", &format!("{}=\"{}\"", a, v)),
                At::Either,
                EC,
                &[],
                "a number of occurrences that is not a number",
            ));
        }
    }
    for (id, root) in [
        ("element", format!(r#"<!--!--><xs:$unk {}/>"#, XS)),
        ("no-namespace", r#"<!--!--><schema/>"#.to_string()),
        ("other-namespace", r#"<!--!--><xs:schema xmlns:xs="http://www.w3.org/2000/10/XMLSchema"/>"#.to_string()),
    ] {
        let mut b = bad(format!("reason/root/{}", id), "", At::Node, SH, &[], "a document that is not a schema");
        b.files[0].1 = root;
        b.allowed = vec!["schema"];
        b.names = vec![if id == "element" { "$unk" } else { "schema" }];
        out.push(b);
    }
    let mut b = bad("reason/malformed".into(), "", At::Xml, SH, &[], "a document that is not well-formed");
    b.files[0].1 = "malformed".into();
    out.push(b);
    out
}

/// Files that cannot be opened.
pub fn unreadable() -> Vec<Bad> {
    let mut out = vec![];
    for (id, loc, path) in [
        ("include", "other.xsd", "/s/other.xsd"),
        ("include", "sub/other.xsd", "/s/sub/other.xsd"),
        ("import", "../other.xsd", "/other.xsd"),
    ] {
        let at = At::Open(path);
        let body = format!(r#"<xs:element name="%e" type="xs:int"/><xs:{} schemaLocation="{}"/>"#, id, loc);
        out.push(bad(format!("open/{}/{}", id, loc), &body, at, SH, &[], "a file that cannot be opened"));
    }
    let mut b = bad("open/nested".into(), r#"<xs:include schemaLocation="sub/a.xsd"/>"#, At::Open("/s/sub/b/c.xsd"), SH, &[], "a file that cannot be opened");
    b.files.push(("/s/sub/a.xsd".into(), schema(r#"<xs:import namespace="%x" schemaLocation="b/c.xsd"/>"#)));
    out.push(b);
    let mut b = bad("open/first".into(), "", At::Open("/s/none.xsd"), SH, &[], "a file that cannot be opened");
    b.files[0].0 = "/s/none.xsd".into();
    b.files[0].1 = String::new();
    out.push(b);
    out
}

/// The same schema, but included or imported by another one.
pub fn included(b: &Bad, how: usize) -> Bad {
    let mut b = b.clone();
    let (tag, loc) = [("include", "sub/inc.xsd"), ("import", "inc.xsd")][how % 2];
    let path = format!("/s/{}", loc);
    let mut files = vec![(
        "/s/main.xsd".to_string(),
        schema(&format!(r#"<xs:element name="%first" type="xs:int"/><xs:{} schemaLocation="{}"/><xs:element name="%last" type="xs:int"/>"#, tag, loc)),
    )];
    if how >= 2 {
        // over another file
        files.push(("/s/mid/mid.xsd".to_string(), schema(&format!(r#"<xs:{} schemaLocation="../{}"/>"#, tag, loc))));
        files[0].1 = schema(r#"<xs:include schemaLocation="mid/mid.xsd"/>"#);
    }
    files.push((path.clone(), b.files[0].1.clone()));
    b.files = files;
    b.file = path;
    b.id = format!("{}/{}{}", b.id, tag, if how >= 2 { "-over" } else { "" });
    b
}

fn contains(v: &V, needle: &str, st: &crate::interp::St) -> bool {
    let shown = format!("{:?}", v);
    let n = value(needle);
    if shown.contains(&vs(&n)) {
        return true;
    }
    // an unknown name may be known by now
    if let V::Str(p) = &n {
        if let [SP::Term(t)] = &p[..] {
            if let Some(l) = st.facts.eq_lit.get(t) {
                return shown.contains(&format!("{}", l));
            }
        }
    }
    false
}

fn field_lit(e: &V, f: &str) -> Option<String> {
    e.field(f).and_then(|v| v.as_lit())
}

pub fn job(b: Bad) -> Job {
    Box::new(move |p: &mut Program| {
        let mut log = Log::default();
        log.templates += 1;
        let t = Tpl {
            id: b.id.clone(),
            files: b.files.iter().filter(|f| !f.1.is_empty()).cloned().collect(),
        };
        let main = b.files[0].0.clone();
        let unk = term(TermKind::Var("$unk".into()), Ty::adt("String"));
        let allowed: std::collections::BTreeSet<std::rc::Rc<str>> = b.allowed.iter().map(|l| (*l).into()).collect();
        let (paths, truncated, orgs) = generate_with(p, &t, 4000, &mut log, &mut |it| {
            if !allowed.is_empty() {
                it.st.facts.ne_lit.insert(unk, allowed.clone());
            }
            it.call_path(&format!("{}::parse_file", SCHEMA), vec![lit(&main)])
        });
        if truncated {
            log.undecided(format!("{}: too many outcomes", b.id));
        }
        let docs = t.docs();
        let di = t.files.iter().position(|f| f.0 == b.file);
        let mark = di.and_then(|i| docs[i].marks.first().copied());
        let mut seen: std::collections::BTreeMap<String, String> = Default::default();
        for g in &paths {
            let is: Vec<&str> = g.st.facts.eq_lit.iter().filter(|x| show_term(*x.0).contains("$unk")).map(|x| &**x.1).collect();
            if is.iter().any(|l| b.allowed.contains(l)) {
                continue;
            }
            // another one of the same kind: either of them is wrong
            let twins: Vec<usize> = match (di, mark) {
                (Some(i), Some(n)) => {
                    let d = &docs[i];
                    d.nodes[n]
                        .parent
                        .map(|q| d.elements(q))
                        .unwrap_or_default()
                        .into_iter()
                        .filter(|k| *k != n && d.nodes[*k].name.as_lit().map(|l| is.contains(&l.as_str())).unwrap_or(false))
                        .collect()
                }
                _ => vec![],
            };
            log.obligations += 1;
            let facts = g.st.facts.show();
            let v = match &g.out {
                Ok(v) => v,
                Err(Ctl::Panic(m, s)) => {
                    log.find(&b.id, "gen-panic", format!("processing a schema with {} panics: {}", b.what, m), s.clone(), facts);
                    continue;
                }
                Err(Ctl::Unsupported(m, s)) => {
                    log.undecided(format!("{}: {} ({}:{})", b.id, m, s.file, s.line));
                    continue;
                }
                Err(o) => {
                    log.undecided(format!("{}: {:?}", b.id, o));
                    continue;
                }
            };
            // different outcomes although everything is the same
            let shown = format!("{:?}", v);
            match seen.get(&g.st.facts.show_inputs()) {
                Some(o) if *o != shown && (g.hash || g.around) => {
                    let (s, _) = err_site(&g.st, v);
                    log.find(&b.id, "nondet", NONDET.into(), s, format!("{} or {}", o, shown));
                }
                Some(_) => {}
                None => {
                    seen.insert(g.st.facts.show_inputs(), shown);
                }
            }
            let err = match v {
                V::Enum(e) if &*e.variant == "Err" => e.fields[0].1.clone(),
                V::Enum(e) if &*e.variant == "Ok" => {
                    let s = fn_site_in(p, b.func);
                    log.find(&b.id, "accepted", format!("a schema with {} is accepted", b.what), s, facts);
                    continue;
                }
                o => {
                    log.undecided(format!("{}: outcome {}", b.id, brief(o)));
                    continue;
                }
            };
            let (site, m) = err_site(&g.st, &err);
            let site = if site.line == 0 { fn_site_in(p, b.func) } else { site };
            for n in &b.names {
                if twins.is_empty() && !contains(&err, n, &g.st) {
                    log.find(&b.id, "unnamed", format!("a schema with {} is rejected with an error that does not contain `{}`: {}", b.what, n, m), site.clone(), facts.clone());
                }
            }
            match b.at {
                At::Open(path) => {
                    let f = field_lit(&err, "file");
                    if err.variant() != Some("Open") || f.as_deref().map(crate::stdm::path_norm).as_deref() != Some(path) {
                        log.find(&b.id, "position", format!("a file that cannot be opened ({}) is reported as {}", path, m), site, facts);
                    }
                }
                at => {
                    if err.variant() != Some("Xsd") {
                        log.find(&b.id, "position", format!("{} is reported without a position: {}", b.what, m), site, facts);
                        continue;
                    }
                    let f = field_lit(&err, "file").map(|f| crate::stdm::path_norm(&f));
                    if f.as_deref() != Some(&b.file) {
                        log.find(&b.id, "position", format!("{} in {} is reported for the file {:?}", b.what, b.file, f.unwrap_or_default()), site, facts);
                        continue;
                    }
                    let di = di.unwrap();
                    if !twins.is_empty() {
                        continue;
                    }
                    let want: Vec<i128> = match (at, mark) {
                        (At::Xml, _) | (_, None) => vec![],
                        (At::Node, Some(n)) => vec![Model::node_pos(di, n)],
                        (At::LastAttr, Some(n)) => vec![Model::attr_pos(di, n, docs[di].nodes[n].attrs.len() - 1)],
                        (_, Some(n)) => {
                            let mut w = vec![Model::node_pos(di, n)];
                            for a in 0..docs[di].nodes[n].attrs.len() {
                                w.push(Model::attr_pos(di, n, a));
                            }
                            w
                        }
                    };
                    let d = V::Int(di as i128);
                    let ok = |row: &V, col: &V| {
                        if at == At::Xml {
                            let e = |n: &str| V::app(n, vec![d.clone()], Ty::adt("u32"));
                            return *row == e("errrow") && *col == e("errcol");
                        }
                        want.iter().any(|w| {
                            let e = |n: &str| V::app(n, vec![d.clone(), V::Int(*w)], Ty::adt("u32"));
                            *row == e("row") && *col == e("col")
                        })
                    };
                    match (err.field("row"), err.field("col")) {
                        (Some(r), Some(c)) if ok(&r, &c) => {}
                        (Some(r), Some(c)) => {
                            log.find(
                                &b.id,
                                "position",
                                format!("{} is not reported at its position: row {:?}, column {:?} (offsets x1000: element, +n: its attribute n), expected one of {:?}; {}", b.what, r, c, want, m),
                                site,
                                facts,
                            );
                        }
                        _ => log.undecided(format!("{}: error without position {}", b.id, m)),
                    }
                }
            }
        }
        let _ = orgs;
        log.samples.push(format!("{}: {}", b.id, b.files[0].1));
        Sum::of(log, &b.files)
    })
}

/// The constructs without anything wrong.
pub fn bodies() -> Vec<(&'static str, String)> {
    CONSTRUCTS.iter().filter(|c| c.id != "schema").map(|c| (c.id, c.body.replace(['~', '^'], ""))).collect()
}

/// What is interpreted: attributes, children, and by which function.
fn interpreted(tag: &str, top: bool) -> Option<(&'static [&'static str], &'static [&'static str], &'static str)> {
    Some(match tag {
        "element" if top => (&["name", "type", "fixed"], &["annotation", "complexType", "simpleType"], ER),
        "element" => (LOCAL, &["annotation", "complexType", "simpleType"], EC),
        "attribute" => (&["name", "type", "use", "fixed", "default"], &["annotation", "simpleType"], AT),
        "complexType" => (&["name", "mixed"], &["annotation", "simpleContent", "complexContent", "sequence", "all", "choice", "attribute"], CT),
        "simpleType" => (&["name"], &["annotation", "restriction"], ST),
        "restriction" => (ANY, FACETS, ST),
        "sequence" | "all" => (&["minOccurs", "maxOccurs"], GROUP, SQ),
        "choice" => (&["minOccurs", "maxOccurs"], &["element", "sequence", "annotation"], CH),
        "simpleContent" => (&[], &["extension"], SC),
        "complexContent" => (&[], &["extension"], CC),
        "extension" => (ANY, &["attribute", "sequence"], CC),
        "annotation" => (&[], &["documentation"], AN),
        "schema" => (ANY, TOP, SH),
        _ => return None,
    })
}

/// An unknown attribute or child in one of the elements of a schema that is right otherwise.
pub fn anywhere(t: &Tpl, pick: &mut dyn FnMut() -> bool) -> Vec<Bad> {
    let mut out = vec![];
    let s = &t.files[0].1;
    let els = crate::odd::elements(s);
    for (n, (a, b, c, d)) in els.iter().copied().enumerate() {
        let tag: String = s[a + 1..b].trim_start_matches("xs:").chars().take_while(|c| c.is_alphanumeric()).collect();
        let top = els.iter().filter(|o| o.0 < a && o.3 > d).count() == 1;
        let Some((attrs, kids, func)) = interpreted(&tag, top) else { continue };
        let closed = s[..b].ends_with("/>");
        let head = &s[a..if closed { b - 2 } else { b - 1 }];
        let mut add = |what: &str, text: String, at: At, func: &'static str, allowed: &[&'static str]| {
            out.push(Bad {
                id: format!("anywhere/{}/{}/{}{}", what, t.id, tag, n),
                files: vec![(t.files[0].0.clone(), text)],
                allowed: allowed.to_vec(),
                names: vec!["$unk"],
                at,
                file: t.files[0].0.clone(),
                func,
                what: if what == "attribute" { "an attribute that is not interpreted".into() } else { "a child element that is not interpreted".into() },
            });
        };
        if attrs != ANY && pick() {
            add("attribute", format!("{}<!--!-->{} $unk=\"$val\"{}", &s[..a], head, &s[if closed { b - 2 } else { b - 1 }..]), At::LastAttr, func, attrs);
        }
        let kid = match tag.as_str() {
            "schema" => r#"<!--!--><xs:$unk name="%zz"/>"#,
            "restriction" => r#"<!--!--><xs:$unk value="1"/>"#,
            _ => "<!--!--><xs:$unk/>",
        };
        if closed {
            if pick() {
                add("child", format!("{}>{}</xs:{}>{}", &s[..b - 2], kid, tag, &s[b..]), At::Node, func, kids);
            }
        } else {
            if pick() {
                add("child-first", format!("{}{}{}", &s[..b], kid, &s[b..]), At::Node, func, kids);
            }
            if pick() {
                add("child-last", format!("{}{}{}", &s[..c], kid, &s[c..]), At::Node, func, kids);
            }
        }
    }
    out
}
