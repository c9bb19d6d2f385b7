//! Generated token sequences as source text, one token per line, so that the code they form can be
//! parsed and every construct of it traced back to the template it was quoted in.
use crate::val::*;
use std::rc::Rc;

const ID: char = 'ǁ';
const S0: char = '\u{E000}';
const S1: char = '\u{E001}';

/// String with embedded unknown parts.
pub fn decode_str(s: &str) -> V {
    if !s.contains(S0) {
        return lit(s);
    }
    let mut parts = vec![];
    let mut rest = s;
    while let Some(i) = rest.find(S0) {
        parts.push(SP::Lit(rest[..i].into()));
        let r = &rest[i + S0.len_utf8()..];
        match r.find(S1) {
            Some(j) => {
                match r[..j].parse::<TermId>() {
                    Ok(t) => parts.push(SP::Term(t)),
                    Err(_) => parts.push(SP::Lit(r[..j].into())),
                }
                rest = &r[j + S1.len_utf8()..];
            }
            None => {
                rest = r;
                break;
            }
        }
    }
    parts.push(SP::Lit(rest.into()));
    V::str_parts(parts)
}

/// Identifier with embedded unknown parts.
pub fn decode_ident(s: &str) -> Vec<SP> {
    if !s.contains(ID) {
        return vec![SP::Lit(s.into())];
    }
    let parts: Vec<&str> = s.split(ID).collect();
    let mut out = vec![];
    for (i, p) in parts.iter().enumerate() {
        if i % 2 == 1 {
            if let Ok(t) = p.parse::<TermId>() {
                out.push(SP::Term(t));
                continue;
            }
        }
        out.push(SP::Lit((*p).into()));
    }
    norm_sp(out)
}

/// Readable form of an identifier of generated code.
pub fn pretty_ident(s: &str) -> String {
    show_sp(&decode_ident(s))
}

pub fn ident_text(p: &[SP]) -> String {
    let mut s = String::new();
    for x in p {
        match x {
            SP::Lit(l) => s += l,
            SP::Term(t) => s += &format!("{}{}{}", ID, t, ID),
        }
    }
    s
}

pub fn str_text(p: &[SP]) -> String {
    let mut s = String::new();
    for x in p {
        match x {
            SP::Lit(l) => s += l,
            SP::Term(t) => s += &format!("{}{}{}", S0, t, S1),
        }
    }
    s
}

pub struct Rendered {
    pub text: String,
    pub lines: Vec<Org>,
    pub opaque: Vec<V>,
}

pub fn render(t: &[Tk]) -> Rendered {
    let mut r = Rendered {
        text: String::new(),
        lines: vec![],
        opaque: vec![],
    };
    go(t, &mut r);
    r
}

fn put(r: &mut Rendered, s: &str, o: Org) {
    // string literals must not contain raw line breaks, or lines would shift
    r.text.push_str(s);
    r.text.push('\n');
    r.lines.push(o);
}

fn go(t: &[Tk], r: &mut Rendered) {
    let mut i = 0;
    while i < t.len() {
        let x = &t[i];
        match &x.k {
            TkK::Id(s) => put(r, s, x.o),
            TkK::IdHole(p) => put(r, &ident_text(p), x.o),
            TkK::Punct(c, _) => {
                // joint punctuation stays together
                let mut s = c.to_string();
                let mut j = i;
                while let TkK::Punct(_, true) = &t[j].k {
                    match t.get(j + 1).map(|n| &n.k) {
                        Some(TkK::Punct(d, _)) => {
                            s.push(*d);
                            j += 1;
                        }
                        Some(TkK::Id(d)) if s.ends_with('\'') => {
                            s.push_str(d);
                            j += 1;
                            break;
                        }
                        _ => break,
                    }
                }
                put(r, &s, x.o);
                i = j;
            }
            TkK::Lit(s) => put(r, s, x.o),
            TkK::StrLit(p) => {
                let s = format!("{:?}", str_text(p)).replace("\\u{e000}", "\u{E000}").replace("\\u{e001}", "\u{E001}");
                put(r, &s, x.o)
            }
            TkK::Group(d, g) => {
                let (a, b) = match d {
                    '(' => ("(", ")"),
                    '{' => ("{", "}"),
                    '[' => ("[", "]"),
                    _ => ("", ""),
                };
                put(r, a, x.o);
                go(g, r);
                put(r, b, x.o);
            }
            TkK::Opaque(v) => {
                r.opaque.push(v.clone());
                put(r, &format!("opaque_{}!();", r.opaque.len()), x.o);
            }
        }
        i += 1;
    }
}

pub type GenMap = Rc<Vec<(Rc<str>, usize, Rc<str>)>>;

pub fn gen_map(r: &Rendered, orgs: &[(Rc<str>, usize, Rc<str>)]) -> GenMap {
    Rc::new(
        r.lines
            .iter()
            .map(|o| match o.0 {
                0 => ("<generated>".into(), 0, "".into()),
                n => orgs[n as usize - 1].clone(),
            })
            .collect(),
    )
}
