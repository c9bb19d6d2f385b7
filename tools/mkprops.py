#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the lines stay valid JSON)."""
import json, os
A = "xsd-internal/src/ast/"
P = "xsd-internal/src/xsd/parse/"
X = "xsd-internal/src/xsd/"
props = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    props.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe or [], hook_needed=None)))

SCHEMAS = "every schema the generator accepts and every value or document of the generated types"

prop("C01", "Every written item is exactly one well-nested XML element",
 "For every accepted schema and every value of a generated type, writing the value produces exactly one start tag and one matching end tag for the value itself and for each element-typed field, list item or choice alternative that is present in it, with its content (text or child elements) between the two, and nothing for an absent optional one. The members of a nested group (an anonymous sequence or choice, or an extended base type) are written directly into the enclosing element, without a tag of their own. This holds for every kind of content: built-in type, fixed value, enumeration, named simple type (also behind an alias), complex type, choice, group.",
 ["programs", "inputs"], SCHEMAS,
 "The 50 tests sample one schema shape each; the generator branches on virtual x optional x repeated x content kind (x alias), so most combinations are never generated, let alone written.",
 [A+"leaf.rs", A+"root.rs", A+"element_definition.rs", A+"leaf_content.rs", "xsd/src/lib.rs"],
 [("wrapping decision of fields", A+"leaf.rs to_xml_impl"), ("wrapping decision of types", A+"root.rs to_xml_impl, element_definition.rs to_xml_impl"), ("start/end writer", "xsd/src/lib.rs Context::write_start_element/write_end_element")],
 observe=["generated to_xml"])

prop("C02", "An item is written under exactly the expanded name it is read under",
 "For every element, choice alternative, attribute and document element of a generated type, the expanded name (namespace URI and local name) the writer emits - resolving its prefix, or the lack of one, against the namespace declarations it emits - is the expanded name the reader looks for, and is the one declared in the schema. Every prefix used in written names is declared, and distinct namespaces never share a prefix.",
 ["programs", "inputs", "configurations"], "every accepted schema (qualified or not, with or without target namespace, with imported namespaces) and every member of a generated type",
 "Tests cover four form/target-namespace combinations with one element each; names of choice alternatives, referenced elements of other namespaces and imports are hardly combined.",
 [X+"context.rs", A+"leaf.rs", A+"root.rs", A+"attribute.rs", A+"namespaces.rs", X+"schema.rs"],
 [("written names", X+"context.rs get_xml_element_name"), ("names looked for", X+"context.rs quote_xml_namespace"), ("namespace declarations", X+"schema.rs generate_element"), ("prefix table", A+"namespaces.rs get_or_insert")],
 observe=["generated to_xml", "generated from_xml"])

prop("C03", "Occurrence bounds decide the shape of a field, in type, writer and reader",
 "An element or group that may occur at most once is a plain field, or an Option if it may be absent; one that may occur more than once is a Vec, or an Option of a Vec if it may be absent. The writer writes every present item exactly once and in order, and the reader collects all consecutive occurrences in document order, yields None exactly when there is none, and fails with an error when a plain field is absent. Type, writer and reader agree on that shape for every combination of bounds and content, also for choice alternatives.",
 ["programs", "inputs"], SCHEMAS + ", for every pair of minOccurs and maxOccurs",
 "minOccurs/maxOccurs are unbounded integers combined with every content kind; tests sample six pairs on simple content.",
 [A+"leaf.rs", A+"root.rs", P+"element.rs", P+"sequence.rs", P+"choice.rs", P+"complex_type.rs", P+"complex_content.rs"],
 [("shape of a field", A+"leaf.rs is_optional/is_vec/to_impl"), ("bounds of a particle", P+"element.rs parse_min_occurs/parse_max_occurs")],
 observe=["generated struct and enum declarations", "generated to_xml and from_xml"])

prop("C04", "Looking up a child element never loses, duplicates or reorders siblings",
 "Whatever sequence of lookups is made on a decoded element, every child element is handed out at most once, and the children that have not been handed out remain available in document order. An ordered lookup hands out the next remaining child if and only if it has the given local name and namespace; an unordered lookup hands out the first remaining child with that local name and namespace, if there is one; peeking answers whether the next remaining child has them and hands out nothing. A lookup that fails changes nothing, and comments, text and processing instructions are never taken for children.",
 ["histories", "inputs"], "every history of lookups (ordered, unordered, peek) on every document",
 "There is no test of the decoder itself; the interleavings of the three kinds of lookup over the pushed-back state are only exercised by the few generated readers.",
 ["xsd/src/decode.rs"],
 [("cursor with push-back", "xsd/src/decode.rs Node::next_child/peek_child/child")],
 state=[dict(name="Children{next,peeked,children}", meaning="the children not handed out yet, in document order", where="xsd/src/decode.rs")],
 observe=["xsd::decode::Node", "generated from_xml"])

prop("C05", "Members of xs:all are found in any order, sequence members only in order",
 "Every member of an xs:all - required, optional, of whatever type - is read wherever it stands among its siblings. A member of a sequence is only read where it is the next element, so that the order demanded by the schema is enforced and a later element is never taken for an earlier one.",
 ["programs", "inputs"], "every accepted schema with an all or sequence group and every order of the elements in a document",
 "The only all-test has three required members in one order; optional members out of order are never read.",
 [A+"leaf.rs", P+"complex_type.rs", P+"sequence.rs", "xsd/src/decode.rs"],
 [("unordered flag", P+"complex_type.rs is_unordered"), ("choice of lookup", A+"leaf.rs from_xml_impl")],
 observe=["generated from_xml"])

prop("C06", "A choice or optional group is entered only when the next element starts it",
 "Reading a choice yields the alternative whose element (or whose group's first element) is the next element, trying the alternatives in schema order, and fails with an error naming the choice if no alternative matches. An optional or repeated group is entered exactly when the next element can begin it: one of its leading optional members or its first required member, looking through nested groups; members behind the first required one never begin it.",
 ["programs", "inputs"], "every accepted schema with choices and groups, and every document",
 "Tests cover groups of two required members and one all-optional group; the lookahead of a group depends on the position of the first required member and on nested groups.",
 [A+"root.rs", A+"leaf.rs"],
 [("lookahead", A+"root.rs lookahead_impl"), ("selection of the alternative", A+"root.rs from_xml_impl")],
 observe=["generated from_xml"])

prop("C07", "Attributes follow their use and always end up on their element's start tag",
 "Reading fails with an error naming the attribute if a required attribute is missing, yields None for an absent optional one, and otherwise the parsed value; prohibited attributes do not exist in the generated type. The writer emits every required attribute and every present optional one exactly once, with the value of its field, on the start tag of the element the type describes - also when the type extends another one that has attributes itself - and no absent one.",
 ["programs", "inputs"], SCHEMAS,
 "Tests cover plain string attributes on elements with own content; attributes of base types, of types that delegate their content and of named simple types are not combined.",
 [A+"attribute.rs", A+"element_definition.rs", P+"attribute.rs", "xsd/src/lib.rs"],
 [("use", P+"attribute.rs"), ("reader and writer", A+"attribute.rs"), ("collection of attributes until the start tag", "xsd/src/lib.rs Context::set_attr/write_start_element")],
 observe=["generated from_xml and to_xml"])

prop("C08", "Fixed values are enforced when reading and supplied when writing",
 "An element or attribute of a built-in type that the schema declares with a fixed value is represented by a unit value; writing it emits exactly the fixed value, and reading it fails with an error carrying both values unless the document contains exactly the fixed value. The value is the one given in the schema.",
 ["programs", "inputs"], SCHEMAS,
 "The two tests with fixed values only read documents that conform.",
 [A+"leaf_content.rs", A+"attribute.rs", P+"element.rs", P+"attribute.rs"],
 [("comparison", A+"leaf_content.rs"), ("recognition of fixed", P+"element.rs, "+P+"attribute.rs")],
 observe=["generated from_xml and to_xml"])

prop("C09", "Enumeration values and generated variants map one-to-one, both ways",
 "An enumeration has exactly one generated variant per enumeration value of the schema, with pairwise distinct identifiers whatever characters the values consist of. Reading accepts exactly the listed values, each as its own variant, and fails with an error carrying the value otherwise; writing a variant emits exactly the value it was read from.",
 ["programs", "inputs"], "every accepted enumeration and every text",
 "Enumeration values are arbitrary strings; tests use two or three upper-case words and one set of symbols.",
 [A+"root.rs", P+"simple_type.rs"],
 [("variant names", A+"root.rs escape_enum_names"), ("tables", A+"root.rs to_declaration")],
 observe=["generated FromStr, as_str and Display of enumerations"])

prop("C10", "Built-in XSD types map to one consistent Rust type and round-trip table",
 "Every supported built-in type is mapped to a Rust type that can represent it: string, the date/time types, duration, base64Binary, hexBinary, any and anyType to String, boolean to bool, int to i32, integer and long to i64, nonNegativeInteger and positiveInteger to u64, float to f32, decimal to a decimal type. Every other name of the XSD namespace is rejected with an error instead of being guessed. The type name reported when a value cannot be parsed is a name of the built-in type the value was declared with, and field type, parser and printer always belong to the same Rust type.",
 ["inputs", "programs"], "every type name and every use of a built-in type",
 "Seven of the seventeen names occur in test schemas, and the rejected ones in none.",
 [X+"context.rs", A+"literal_type.rs"],
 [("name table", X+"context.rs literal_from_str"), ("type table", A+"literal_type.rs to_impl/xsd_name")],
 observe=["generated field types", "FromXmlError::ParseType"])

prop("C11", "Schema constructs that are not supported are rejected, never skipped",
 "When an element, attribute, complexType, simpleType, sequence, all, choice, simpleContent, complexContent or annotation (of an element, attribute, type or nested sequence) of a schema carries an attribute the generator does not interpret, or a child element (of the XSD namespace) it does not interpret, schema processing fails with an error that names it. The same holds for a document element other than a schema, for unknown top-level declarations, unknown facets, and values of use, mixed, ref and base that are not supported.",
 ["inputs"], "every schema document",
 "There is no test with an unsupported schema at all.",
 [P+"element.rs", P+"attribute.rs", P+"choice.rs", P+"sequence.rs", P+"complex_type.rs", P+"complex_content.rs", P+"simple_content.rs", P+"simple_type.rs", P+"annotation.rs", P+"root.rs", X+"node.rs", X+"schema.rs"],
 [("visited marks", X+"node.rs prevent_unvisited_attributes/prevent_unvisited_children"), ("catch-all arms", P+"*.rs")],
 observe=["Schema::parse", "compile error of #[xsd::all]"])

prop("C12", "Every type a generated type refers to is generated along with it",
 "Whenever a generated type refers to another type of the schema (as the type of a field, attribute, alternative or base), generating the former together with its dependencies also generates the latter, transitively, each exactly once. An anonymous type that is referred to is always defined, under the very name it is referred to by, and a type name is resolved in the namespace its prefix (or the default namespace) stands for.",
 ["programs", "inputs"], "every accepted schema and every choice of the element to generate",
 "No test generates a single element with its dependencies; the tests only use the generation of everything.",
 [X+"context.rs", X+"schema.rs", P+"element.rs", P+"attribute.rs", P+"choice.rs", P+"sequence.rs", P+"complex_type.rs", P+"complex_content.rs", P+"simple_content.rs"],
 [("dependency record", X+"context.rs discover_type"), ("definition record", X+"context.rs add_root"), ("closure", X+"schema.rs generate_element_and_dependencies")],
 state=[dict(name="dependencies", meaning="parent type -> types it refers to", where=X+"context.rs SharedContext"), dict(name="roots", meaning="definitions by name", where=X+"context.rs Context")],
 observe=["Schema::generate_element_and_dependencies", "Schema::generate_all"])

prop("C13", "Includes and imports merge completely, once, and relative to their file",
 "For every schema that is composed of several files, all definitions, namespaces and recorded dependencies of an included or imported file - transitively - are part of the resulting schema, and namespaces keep their identity and prefix across the files. Locations are resolved relative to the file that contains them, a missing location or unreadable file is an error, and processing terminates also if files include each other.",
 ["configurations", "inputs"], "every include/import graph, including cycles and diamonds",
 "Two tests with one included file each, next to the including one.",
 [X+"schema.rs", X+"context.rs", A+"namespaces.rs"],
 [("shared context", X+"context.rs take_shared/set_shared"), ("merge", X+"schema.rs parse_schema_with_context")],
 state=[dict(name="SharedContext", meaning="namespaces, dependencies and included files, threaded through the files", where=X+"context.rs")],
 observe=["Schema::parse_file"])

prop("C14", "Decoding any input ends in a value or an error, never a panic or a default",
 "Reading a generated type from any string returns a value or an error; it never panics. Whenever a required child, attribute, text or alternative is missing, the document element is a different one, or a text cannot be parsed as its type, the result is an error that identifies it - the failure is never replaced by a default value or an absent field.",
 ["inputs"], "every input string and every generated type",
 "Tests only decode conforming documents; no error path is ever taken.",
 ["xsd/src/decode.rs", A+"leaf.rs", A+"leaf_content.rs", A+"literal_type.rs", A+"attribute.rs", A+"root.rs", X+"schema.rs"],
 [("error propagation in generated readers", A+"*.rs from_xml_impl"), ("document element check", "xsd/src/decode.rs Document::child")],
 observe=["generated from_xml", "xsd::decode"])

prop("C15", "Processing any schema ends in code or an error, never in a panic",
 "Parsing any schema document and generating code from any parsed schema returns code or an error value, which the attribute macro reports as a compile error at its use; it never panics, whatever names, values and nesting the schema contains. Errors from reading files, parsing XML, and interpreting the schema are all propagated, none is dropped.",
 ["inputs"], "every schema document",
 "Tests only process conforming schemas with ASCII names.",
 [X+"schema.rs", X+"context.rs", X+"node.rs", P+"mod.rs", A+"leaf.rs", A+"root.rs", A+"namespaces.rs", "xsd-derive/src/lib.rs", "xsd-derive/src/generator.rs"],
 [("Result-typed parsing", P+"*.rs"), ("invariant: groups are named types", P+"*.rs construction of virtual leaves"), ("compile errors", "xsd-derive/src/lib.rs")],
 observe=["Schema::parse", "Schema::generate_all", "#[xsd::all]"])

prop("C16", "The same schema always generates the same code",
 "For every schema, the generated code - order of items, variants, match arms and namespace declarations included - and the error reported for an invalid schema depend only on the content of the schema files, not on hash seeds, addresses, time, environment or the run.",
 ["schedules", "inputs", "histories"], "every schema and every two runs",
 "A test runs once per build and compares no two runs; a dependence on hash order shows only across processes.",
 [X+"schema.rs", X+"context.rs", X+"node.rs", A+"root.rs", A+"namespaces.rs"],
 [("ordered collections and sorting", X+"schema.rs generate_all, "+A+"namespaces.rs")],
 observe=["Schema::generate_all", "#[xsd::all]"])

prop("C17", "Every schema name becomes a legal Rust identifier, the same one everywhere",
 "Whatever name a schema gives an element, attribute, type or enumeration value, the generated field, type or variant identifier is legal Rust: keywords of every kind, words that cannot even be raw identifiers, and names that begin with a digit are all escaped. The declaration, the writer, the reader and every reference from another type use the identical identifier.",
 ["inputs", "programs"], "every name",
 "Tests use two keywords (type, enum) of about fifty.",
 ["xsd-internal/src/utils.rs", A+"root.rs", A+"leaf.rs", A+"attribute.rs", A+"name.rs", A+"element_content.rs", X+"schema.rs"],
 [("escaping", "xsd-internal/src/utils.rs escape_ident")],
 observe=["generated identifiers"])

prop("C18", "Schema errors point at the offending construct in the right file",
 "Every error found in a schema document is reported with the path of the file it was found in and the row and column of the construct it is about, also when the file was included by another one; every error kind that concerns a construct carries that construct's position. Errors from opening a file name that file.",
 ["inputs", "configurations"], "every invalid schema, in any file of a composed schema",
 "No test triggers an error.",
 [X+"error.rs", X+"node.rs", X+"schema.rs"],
 [("range of an error", X+"error.rs XsdError::range, "+X+"node.rs NodeError::range"), ("position", X+"schema.rs parse_with_context")],
 observe=["SchemaError"])

prop("C19", "The macro keeps the user's module and adds the generated items to it",
 "The attribute macro keeps the attributes, visibility, name and all items of the module it is applied to, in order, and adds the items generated from the schema given by its schema argument, resolved relative to the manifest directory of the user's crate. A missing or unknown argument, an item that is not a module, or a schema error is reported as a compile error.",
 ["programs"], "every module and every macro argument",
 "One test has one item in the module, none has attributes, visibility or wrong arguments.",
 ["xsd-derive/src/lib.rs", "xsd-derive/src/generator.rs"],
 [("re-emission of the module", "xsd-derive/src/generator.rs generate"), ("argument parsing", "xsd-derive/src/lib.rs all")],
 observe=["#[xsd::all]"])

prop("C20", "Text and attribute values are transported completely and escaped",
 "Reading hands the complete character data of an element (also if it is interrupted by comments or CDATA sections) and the complete attribute value to the parser of the field. Writing passes text and attribute values through the escaping writer operations only, so that no value, whatever characters it has, can change the structure of the document, and the document starts with an XML declaration.",
 ["inputs"], "every value and every document",
 "Tests use short alphanumeric texts.",
 ["xsd/src/decode.rs", "xsd/src/lib.rs", A+"leaf_content.rs", A+"attribute.rs", A+"root.rs", X+"schema.rs"],
 [("text", "xsd/src/decode.rs Node::text"), ("writer operations", A+"leaf_content.rs to_xml_impl, xsd/src/lib.rs Context::write_start_element")],
 observe=["generated from_xml and to_xml"])

prop("C21", "Schema documentation reaches the generated type or field it describes",
 "The documentation of a top-level element or of a complex type becomes the doc comment of the generated type, and that of an attribute, or of an element or nested sequence that is a member of a sequence or all, the doc comment of the generated field, with white space normalised. An element's own documentation takes precedence over that of its anonymous type, and absent or empty documentation adds none. (Enumerations and the variants of a choice have no doc comments.)",
 ["inputs", "programs"], "every annotation at every supported place",
 "No test observes doc comments.",
 [P+"annotation.rs", A+"root.rs", A+"element_definition.rs", A+"leaf.rs", A+"attribute.rs", A+"element_content.rs", X+"schema.rs", P+"element.rs", P+"attribute.rs", P+"sequence.rs", P+"choice.rs", P+"complex_type.rs"],
 [("carrying of docs", P+"*.rs docs"), ("emission", A+"*.rs to_impl")],
 observe=["generated declarations"])

prop("C22", "Text types convert from and to strings as they are read and written",
 "A generated type that wraps a built-in type (from a simple type, or an element of a built-in type without a fixed value) and a generated enumeration can be parsed from and printed to strings. Parsing accepts exactly the strings that reading accepts as the text of such an element, and yields the same value; any other string is rejected with an error that carries it, and that names the type in case of a wrapper. Printing yields exactly the text that writing emits (for an enumeration, as_str does too), and parsing what was printed yields the printed value.",
 ["inputs"], "every string and every value",
 "No test parses or prints such a type outside of a document.",
 [A+"root.rs", A+"literal_type.rs", A+"leaf_content.rs"],
 [("FromStr, Display and as_str of generated types", A+"root.rs Root::to_declaration")],
 observe=["generated FromStr, Display and as_str"])

prop("C90", "Values survive writing and reading unchanged",
 "For every value of a generated type, reading what was written yields an equal value.",
 ["inputs"], "every value",
 "Tests round-trip one value per schema.",
 [A+"literal_type.rs", A+"leaf_content.rs"], [("print and parse", A+"literal_type.rs")], observe=["generated to_xml and from_xml"])
prop("C91", "Distinct schema definitions never collapse into one generated type",
 "Two definitions of a schema (a top-level element and a type, two anonymous types, names that differ only in case or separators) never share one generated type or field name.",
 ["inputs"], "every schema", "One test has one pair of potentially colliding anonymous types.",
 [P+"mod.rs", X+"context.rs"], [("derived names", P+"mod.rs derive_virtual_name")], observe=["generated declarations"])
prop("C92", "Facets of simple types are enforced when reading",
 "Reading a value that violates a length, range, digits or pattern facet of its type fails.",
 ["inputs"], "every value", "No test has an invalid value.",
 [A+"leaf_definition.rs", P+"simple_type.rs"], [("parsed restrictions", P+"simple_type.rs")], observe=["generated from_xml"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in props:
        f.write(json.dumps(p) + "\n")
