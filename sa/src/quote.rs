//! `quote!` templates: the token sequences they stand for, with the place each token was quoted at.
use crate::interp::*;
use crate::val::*;
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};
use std::rc::Rc;

impl<'p> Interp<'p> {
    pub fn org(&mut self, line: usize) -> Org {
        let fr = self.frame();
        let mut o = self.orgs.borrow_mut();
        let e = (fr.file.clone(), line, fr.func.clone());
        if let Some(l) = o.last() {
            if *l == e {
                return Org(o.len() as u32);
            }
        }
        o.push(e);
        Org(o.len() as u32)
    }

    pub fn quote(&mut self, ts: TokenStream, site: &Site) -> R<Vec<Tk>> {
        let toks: Vec<TokenTree> = ts.into_iter().collect();
        self.quote_with(&toks, &[], site)
    }

    fn quote_with(&mut self, toks: &[TokenTree], binds: &[(String, V)], site: &Site) -> R<Vec<Tk>> {
        let mut out = vec![];
        let mut i = 0;
        while i < toks.len() {
            let t = &toks[i];
            let line = t.span().start().line;
            match t {
                TokenTree::Punct(p) if p.as_char() == '#' => match toks.get(i + 1) {
                    Some(TokenTree::Ident(id)) => {
                        let name = id.to_string();
                        let v = match binds.iter().rev().find(|b| b.0 == name) {
                            Some(b) => Some(b.1.clone()),
                            None => match self.lookup(&name) {
                                Some(c) => Some(self.load(&Place { cell: c, proj: vec![] })?),
                                None => None,
                            },
                        };
                        match v {
                            Some(v) => {
                                let org = self.org(line);
                                for mut tk in self.to_tokens(v, site)? {
                                    if tk.o.0 == 0 {
                                        tk.o = org;
                                    }
                                    out.push(tk);
                                }
                                i += 2;
                                continue;
                            }
                            None => return self.unsup(format!("unbound #{}", name), site),
                        }
                    }
                    Some(TokenTree::Group(g)) if g.delimiter() == Delimiter::Parenthesis => {
                        // #( ... ) sep? *
                        let mut j = i + 2;
                        let mut sep = None;
                        match toks.get(j) {
                            Some(TokenTree::Punct(p)) if p.as_char() == '*' => {}
                            Some(s) => {
                                sep = Some(s.clone());
                                j += 1;
                                // two-character separators
                                while !matches!(toks.get(j), Some(TokenTree::Punct(p)) if p.as_char() == '*') {
                                    j += 1;
                                    if j > toks.len() {
                                        return self.unsup("repetition without *", site);
                                    }
                                }
                            }
                            None => return self.unsup("repetition without *", site),
                        }
                        let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                        let mut names = vec![];
                        vars_of(&inner, &mut names);
                        let mut cols: Vec<(String, Option<Vec<V>>, V)> = vec![];
                        for n in names {
                            let v = match binds.iter().rev().find(|b| b.0 == n) {
                                Some(b) => b.1.clone(),
                                None => match self.lookup(&n) {
                                    Some(c) => {
                                        let pl = Place { cell: c, proj: vec![] };
                                        let v = self.load(&pl)?;
                                        let v = self.rv(v)?;
                                        if matches!(v, V::Iter(_)) {
                                            // iterators are consumed
                                            let V::Iter(it) = &v else { unreachable!() };
                                            let l = self.drain((**it).clone(), site)?;
                                            let s = V::seq(l);
                                            self.store(&pl, s.clone())?;
                                            s
                                        } else {
                                            v
                                        }
                                    }
                                    None => return self.unsup(format!("unbound #{}", n), site),
                                },
                            };
                            let v = self.rv(v)?;
                            let list = match &v {
                                V::Seq(s) => Some((**s).clone()),
                                V::Default => Some(vec![]),
                                V::Iter(it) => Some(self.drain((**it).clone(), site)?),
                                V::Map(m) => {
                                    let m = m.clone();
                                    Some(self.map_items(&m, site)?.into_iter().map(|x| x.1).collect())
                                }
                                V::Sym(t) if matches!(term_ty(*t).head(), "Vec" | "VecDeque" | "slice" | "BTreeSet") => Some(self.seq_of(*t)),
                                _ => None,
                            };
                            cols.push((n, list, v));
                        }
                        let n = cols.iter().filter_map(|c| c.1.as_ref().map(|l| l.len())).min();
                        let Some(n) = n else {
                            return self.unsup("repetition without a sequence", site);
                        };
                        for k in 0..n {
                            if k > 0 {
                                if let Some(s) = &sep {
                                    out.extend(self.quote_with(&[s.clone()], binds, site)?);
                                }
                            }
                            let mut b2 = binds.to_vec();
                            for (name, l, v) in &cols {
                                b2.push((
                                    name.clone(),
                                    match l {
                                        Some(l) => l[k].clone(),
                                        None => v.clone(),
                                    },
                                ));
                            }
                            out.extend(self.quote_with(&inner, &b2, site)?);
                        }
                        i = j + 1;
                        continue;
                    }
                    _ => {
                        let o = self.org(line);
                        out.push(Tk { k: TkK::Punct('#', p.spacing() == Spacing::Joint), o });
                    }
                },
                TokenTree::Punct(p) => {
                    let o = self.org(line);
                    out.push(Tk { k: TkK::Punct(p.as_char(), p.spacing() == Spacing::Joint), o });
                }
                TokenTree::Ident(id) => {
                    let o = self.org(line);
                    out.push(Tk { k: TkK::Id(id.to_string().into()), o });
                }
                TokenTree::Literal(l) => {
                    let o = self.org(line);
                    let s = l.to_string();
                    let k = match syn::parse_str::<syn::Lit>(&s) {
                        Ok(syn::Lit::Str(x)) => match crate::render::decode_str(&x.value()) {
                            V::Str(p) => TkK::StrLit(p),
                            _ => TkK::Lit(s.into()),
                        },
                        _ => TkK::Lit(s.into()),
                    };
                    out.push(Tk { k, o });
                }
                TokenTree::Group(g) => {
                    let o = self.org(line);
                    let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                    let inner = self.quote_with(&inner, binds, site)?;
                    let d = match g.delimiter() {
                        Delimiter::Parenthesis => '(',
                        Delimiter::Brace => '{',
                        Delimiter::Bracket => '[',
                        Delimiter::None => ' ',
                    };
                    out.push(Tk { k: TkK::Group(d, Rc::new(inner)), o });
                }
            }
            i += 1;
        }
        Ok(out)
    }

    pub fn to_tokens(&mut self, v: V, site: &Site) -> R<Vec<Tk>> {
        let v = self.rv(v)?;
        let one = |k: TkK| Ok(vec![Tk { k, o: Org(0) }]);
        match &v {
            V::Tokens(t) => Ok((**t).clone()),
            V::Ident(p) => {
                let p = self.subst_lits(p);
                match sp_lit(&p) {
                    Some(s) => one(TkK::Id(s.into())),
                    None => one(TkK::IdHole(Rc::new(p))),
                }
            }
            V::Str(p) => one(TkK::StrLit(p.clone())),
            V::Bool(b) => one(TkK::Id(b.to_string().into())),
            V::Int(i) => one(TkK::Lit(i.to_string().into())),
            V::Char(c) => one(TkK::Lit(format!("{:?}", c).into())),
            V::Unit => Ok(vec![]),
            V::Enum(e) if &*e.path == "Option" => match e.fields.first() {
                Some(x) => self.to_tokens(x.1.clone(), site),
                None => Ok(vec![]),
            },
            V::Struct(_) | V::Enum(_) => match crate::mac::syn_tokens(self, &v, site) {
                Some(t) => t,
                None => self.user_tokens(v.clone(), site),
            },
            V::Sym(t) => {
                let ty = term_ty(*t);
                if ty.head() == "Option" {
                    return match self.opt(v.clone(), site)? {
                        Some(x) => self.to_tokens(x, site),
                        None => Ok(vec![]),
                    };
                }
                if self.prog.structs.contains_key(ty.head()) || self.prog.enums.contains_key(ty.head()) {
                    return self.user_tokens(v.clone(), site);
                }
                one(TkK::Opaque(v.clone()))
            }
            V::Obj(_) => one(TkK::Opaque(v.clone())),
            V::Default => Ok(vec![]),
            o => self.unsup(format!("tokens of {:?}", o), site),
        }
    }

    fn user_tokens(&mut self, v: V, site: &Site) -> R<Vec<Tk>> {
        let ty = self.ty_of(&v);
        let Some(f) = self.prog.method(ty.head(), "to_tokens") else {
            return self.unsup(format!("tokens of {:?}", v), site);
        };
        let c = self.alloc(V::tokens(vec![]));
        self.call_fn(&f, vec![v, V::Mut(Rc::new(Place { cell: c, proj: vec![] }))], Default::default())?;
        match self.load(&Place { cell: c, proj: vec![] })? {
            V::Tokens(t) => Ok((*t).clone()),
            o => self.unsup(format!("to_tokens left {:?}", o), site),
        }
    }
}

fn vars_of(toks: &[TokenTree], out: &mut Vec<String>) {
    let mut i = 0;
    while i < toks.len() {
        match &toks[i] {
            TokenTree::Punct(p) if p.as_char() == '#' => {
                if let Some(TokenTree::Ident(id)) = toks.get(i + 1) {
                    let n = id.to_string();
                    if !out.contains(&n) {
                        out.push(n);
                    }
                    i += 1;
                }
            }
            TokenTree::Group(g) => {
                let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                vars_of(&inner, out);
            }
            _ => {}
        }
        i += 1;
    }
}
