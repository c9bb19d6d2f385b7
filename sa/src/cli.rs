//! Runs the analysis of a property and reports about it.
use crate::load::Program;
use crate::props::*;
use crate::run::*;
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn arr<'a>(x: impl Iterator<Item = &'a String>) -> String {
    format!("[{}]", x.map(|s| js(s)).collect::<Vec<_>>().join(", "))
}

/// How a finding is identified: not by lines, so that it stays the same when code moves.
pub fn key(f: &Found) -> String {
    format!("{} {} {}", f.kind, f.tpl, f.msg.replace('\n', " "))
}

/// Whether a finding is about the property.
pub fn concerns(prop: &Prop, f: &Found) -> bool {
    let k = format!("{} {}", f.kind, f.tpl);
    let only: Vec<&str> = prop.drop.iter().filter_map(|d| d.strip_prefix('@')).collect();
    if only.is_empty() {
        !prop.drop.iter().any(|d| k.starts_with(d))
    } else {
        only.iter().any(|d| k.starts_with(d))
    }
}

pub fn main(repo: &Path, verif: &Path, id: &str, tier: Tier) -> i32 {
    let t0 = std::time::Instant::now();
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let prop = match PROPS.iter().find(|p| p.id == id) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {}", id);
            return 2;
        }
    };
    let _ = std::fs::create_dir_all(verif.join("evidence"));
    let replay = verif.join("evidence").join(format!("{}.violations.txt", id));
    let _ = std::fs::remove_file(&replay);

    // the interface the analysis starts from
    let (missing, nfns) = {
        let p = Program::load(repo);
        let mut m: Vec<String> = p.errors.clone();
        for a in prop.anchors {
            if p.find_fn(a).is_none() {
                m.push(format!("the function `{}` does not exist", a));
            }
        }
        (m, p.fns.len())
    };
    // without them there is nothing to analyse, which is no statement about what the code does
    for m in &missing {
        eprintln!("note: {}", m);
    }

    let mut sum = run(repo, (prop.jobs)(tier), if tier == Tier::Quick { 540 } else { 7200 });
    let all = sum.found.len();
    sum.found.retain(|f| concerns(prop, f));

    let known: Vec<String> = std::fs::read_to_string(verif.join("known-findings.txt"))
        .unwrap_or_default()
        .lines()
        .filter_map(|l| l.strip_prefix(&format!("known: property={} ", id)).map(|s| s.trim().to_string()))
        .collect();

    let mut out = String::new();
    let mut hit = BTreeSet::new();
    let mut viol: Vec<&Found> = vec![];
    for f in &sum.found {
        let k = key(f);
        if known.contains(&k) {
            hit.insert(k);
        } else {
            viol.push(f);
        }
    }
    for k in &hit {
        println!("KNOWN-FINDING: property={} {}", id, k);
    }
    sum.undecided.extend(missing.iter().cloned());
    // the same construct is reported once, with the templates that show it
    let mut by: BTreeMap<(String, String, usize, String), Vec<&Found>> = BTreeMap::new();
    for f in &viol {
        by.entry((f.kind.clone(), f.file.clone(), f.line, f.func.clone())).or_default().push(f);
    }
    for ((kind, file, line, func), fs) in &by {
        let f = fs[0];
        out.push_str(&format!("{}:{} in {}\n  [{}] {}\n  {}\n", file, line, func, kind, f.msg, f.detail));
        for (p, s) in &f.schema {
            out.push_str(&format!("  schema {}: {}\n", p, s));
        }
        out.push_str(&format!("  shown by {} templates: {}\n\n", fs.len(), fs.iter().map(|f| f.tpl.as_str()).take(12).collect::<Vec<_>>().join(" ")));
    }
    let bad = !viol.is_empty();
    if bad {
        let _ = std::fs::write(&replay, &out);
        for l in out.lines().take(40) {
            println!("{}", l.chars().take(600).collect::<String>());
        }
        println!("VIOLATION property={} replay={}", id, replay.display());
    }
    let files: BTreeSet<String> = sum
        .fns
        .iter()
        .filter(|f| !f.starts_with("gen::"))
        .cloned()
        .collect();
    let mut und: Vec<String> = sum.undecided.clone();
    und.truncate(60);
    let ev = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"other\",\n \"coverage\": {{\n  \"explanation\": {},\n  \"rule\": {},\n  \"functions_in_program\": {},\n  \"functions_analysed\": {},\n  \"templates\": {},\n  \"generator_paths\": {},\n  \"documents\": {},\n  \"reader_paths\": {},\n  \"writer_paths\": {},\n  \"obligations\": {},\n  \"findings_of_other_properties\": {},\n  \"known_findings\": {},\n  \"undecided\": {},\n  \"undecided_cases\": {},\n  \"samples\": {},\n  \"functions\": {}\n }},\n \"assumptions\": {},\n \"wall_s\": {:.1},\n \"violations\": {}\n}}\n",
        js(id),
        js(if tier == Tier::Quick { "quick" } else { "thorough" }),
        seed,
        js("Abstract interpretation of the source in /repo (nothing is compiled or executed): the functions listed are interpreted over schema templates with unknown names and values, the token streams they build are parsed as code and interpreted in turn, over all values and over document templates with unknown texts. Paths are partitioned, not sampled; each ends in an obligation that is decided against a reference semantics of XSD. Undecided cases are paths the analysis gave up on: they are no evidence in either direction."),
        js(prop.rule),
        nfns,
        files.len(),
        sum.templates,
        sum.gen_paths,
        sum.read_docs,
        sum.read_paths,
        sum.write_paths,
        sum.obligations,
        all - sum.found.len(),
        hit.len(),
        sum.undecided.len(),
        arr(und.iter()),
        arr(sum.samples.iter()),
        arr(files.iter()),
        arr(ASSUMPTIONS.iter().map(|s| s.to_string()).collect::<Vec<_>>().iter()),
        t0.elapsed().as_secs_f64(),
        viol.len()
    );
    let _ = std::fs::write(verif.join("evidence").join(format!("{}.json", id)), ev);
    println!(
        "{} {}: {} templates, {} paths, {} obligations, {} undecided, {} violations, {:.1} s",
        id,
        if tier == Tier::Quick { "quick" } else { "thorough" },
        sum.templates,
        sum.gen_paths + sum.read_paths + sum.write_paths,
        sum.obligations,
        sum.undecided.len(),
        viol.len(),
        t0.elapsed().as_secs_f64()
    );
    i32::from(bad)
}

const ASSUMPTIONS: &[&str] = &[
    "the standard library, roxmltree, xml-rs, quote, syn, proc-macro2, inflector and rust_decimal behave as modelled",
    "schemas outside of the templates differ from them only in ways that do not interact",
    "list lengths beyond the analysed ones behave like them",
];
