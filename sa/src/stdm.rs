//! Models of the standard library operations the analysed code may use.
use crate::interp::*;
use crate::load::*;
use crate::val::*;
use std::collections::BTreeMap;
use std::rc::Rc;

fn place_mut(p: &Place, pr: Proj) -> V {
    let mut q = p.clone();
    q.proj.push(pr);
    V::Mut(Rc::new(q))
}

fn ordering(v: &str) -> V {
    V::en("Ordering", v, vec![])
}

pub fn rs(s: &str) -> Rc<str> {
    s.into()
}

/// `Inflector`'s snake case on a constant.
pub fn snake_case(s: &str) -> String {
    let t = s.trim_end_matches(|c: char| !c.is_alphanumeric());
    let mut first = true;
    let mut out = String::new();
    for (i, c) in t.char_indices() {
        if !c.is_alphanumeric() {
            if !first {
                first = true;
                out.push('_');
            }
            continue;
        }
        let upper = c == c.to_ascii_uppercase();
        let near = || {
            s.chars().nth(i + 1).unwrap_or('A').is_lowercase() || (i > 0 && s.chars().nth(i - 1).unwrap_or('A').is_lowercase())
        };
        if !first && upper && near() {
            out.push('_');
        }
        first = false;
        out.push(c.to_ascii_lowercase());
    }
    out
}

/// `Inflector`'s pascal case on a constant.
pub fn pascal_case(s: &str) -> String {
    let t = s.trim_end_matches(|c: char| !c.is_alphanumeric());
    let mut new_word = true;
    let mut last = ' ';
    let mut found = false;
    let mut out = String::new();
    for c in t.chars() {
        if !c.is_alphanumeric() && found {
            new_word = true;
        } else if !found && !c.is_alphanumeric() {
            continue;
        } else if c.is_numeric() {
            found = true;
            new_word = true;
            out.push(c);
        } else if new_word || (last.is_lowercase() && c.is_uppercase() && last != ' ') {
            found = true;
            new_word = false;
            out.push(c.to_ascii_uppercase());
        } else {
            found = true;
            last = c;
            out.push(c.to_ascii_lowercase());
        }
    }
    out
}

/// Unknown names stand for words without separators or surrounding white space.
pub fn is_ncname(t: TermId) -> bool {
    matches!(&get_term(t).kind, TermKind::Var(n) if n.starts_with('%'))
}

/// Return types of methods of external types.
fn ext_ret(head: &str, name: &str) -> Ty {
    let s = || Ty::adt("String");
    let opt = |t: Ty| Ty::Adt("Option".into(), vec![t]);
    match (head, name) {
        ("roxmltree::Error", "pos") => Ty::adt("roxmltree::TextPos"),
        ("Range", _) => Ty::Unknown,
        ("SystemTime", "duration_since" | "elapsed") => Ty::Adt("Result".into(), vec![Ty::adt("Duration"), Ty::adt("SystemTimeError")]),
        ("Instant", "elapsed" | "duration_since") => Ty::adt("Duration"),
        ("Duration", "as_secs_f64" | "as_secs_f32") => Ty::adt("f64"),
        ("Duration", _) => Ty::adt("u64"),
        ("AtomicBool", "load" | "swap" | "fetch_or" | "fetch_and" | "fetch_not") => Ty::adt("bool"),
        (h, "load" | "swap" | "fetch_add" | "fetch_sub" | "fetch_max" | "fetch_min") if h.starts_with("Atomic") => Ty::adt("usize"),
        (h, "store") if h.starts_with("Atomic") => Ty::Tuple(vec![]),
        ("Path", "parent") | ("PathBuf", "parent") => opt(Ty::adt("PathBuf")),
        (_, "to_string") => s(),
        (_, "is_empty") | (_, "is_ident") | (_, "peek") | (_, "eq") | (_, "is_some") | (_, "is_none") => Ty::adt("bool"),
        (_, "len") => Ty::adt("usize"),
        _ => Ty::Unknown,
    }
}

impl<'p> Interp<'p> {
    fn nosite(&self) -> Site {
        Site {
            file: "".into(),
            line: 0,
            func: "".into(),
        }
    }

    // ------------------------------------------------------------------ iterators

    pub fn to_iter(&mut self, v: V, site: &Site) -> R<V> {
        let list = |v: Vec<V>| {
            let n = v.len();
            V::Iter(Rc::new(IterV::List(Rc::new(v), 0, n)))
        };
        match &v {
            V::Iter(_) => Ok(v),
            V::Mut(p) => {
                let p = self.deref_place(p);
                let x = self.load(&p)?;
                match &x {
                    V::Iter(_) => Ok(V::Iter(Rc::new(IterV::FromFn(V::Mut(Rc::new(p)))))),
                    V::Sym(t) if term_ty(*t).head() == "Vec" => {
                        let s = self.seq_of(*t);
                        self.store(&p, V::seq(s))?;
                        self.to_iter(V::Mut(Rc::new(p)), site)
                    }
                    V::Default => Ok(list(vec![])),
                    V::Seq(s) => Ok(list((0..s.len()).map(|i| place_mut(&p, Proj::Index(i))).collect())),
                    V::Map(m) => {
                        let items = self.map_items(m, site)?;
                        Ok(list(
                            items
                                .into_iter()
                                .map(|(i, k, _)| if m.is_set { k } else { V::tup(vec![k, place_mut(&p, Proj::MapVal(i))]) })
                                .collect(),
                        ))
                    }
                    V::Enum(e) if &*e.path == "Option" => Ok(list(if &*e.variant == "Some" {
                        vec![place_mut(&p, Proj::Pay("Some".into(), "0".into()))]
                    } else {
                        vec![]
                    })),
                    V::Struct(s) if self.prog.trait_method(&s.path, "Iterator", "next").is_some() => {
                        Ok(V::Iter(Rc::new(IterV::FromFn(V::Mut(Rc::new(p))))))
                    }
                    V::Struct(s) if self.prog.trait_method(&s.path, "IntoIterator", "into_iter").is_some() => {
                        let f = self.prog.trait_method(&s.path, "IntoIterator", "into_iter").unwrap();
                        let r = self.call_fn(&f, vec![x.clone()], BTreeMap::new())?;
                        self.to_iter(r, site)
                    }
                    _ => self.to_iter(x, site),
                }
            }
            V::Seq(s) => {
                let n = s.len();
                Ok(V::Iter(Rc::new(IterV::List(s.clone(), 0, n))))
            }
            V::Map(m) => {
                let m = m.clone();
                let mut items: Vec<V> = vec![];
                if let Some(t) = m.rest {
                    items.extend(self.seq_of(t));
                }
                let own = self.map_items(&m, site)?;
                let mut out: Vec<V> = own.into_iter().map(|(_, k, v)| if m.is_set { k } else { V::tup(vec![k, v]) }).collect();
                out.extend(items);
                Ok(list(out))
            }
            V::Enum(e) if &*e.path == "Option" || &*e.path == "Result" => {
                let o = self.opt(v.clone(), site)?;
                Ok(list(o.into_iter().collect()))
            }
            V::Range(r) => match (&r.0, &r.1) {
                (Some(V::Int(a)), Some(V::Int(b))) => Ok(V::Iter(Rc::new(IterV::Range(*a, Some(*b + r.2 as i128))))),
                (Some(V::Int(a)), None) => Ok(V::Iter(Rc::new(IterV::Range(*a, None)))),
                (Some(V::Char(a)), Some(V::Char(b))) => {
                    let mut cs: Vec<V> = (*a..*b).map(V::Char).collect();
                    if r.2 {
                        cs.push(V::Char(*b));
                    }
                    Ok(list(cs))
                }
                _ => self.unsup("range bounds", site),
            },
            V::Default => Ok(list(vec![])),
            V::Sym(t) => match term_ty(*t).head() {
                "Option" => {
                    let o = self.opt(v.clone(), site)?;
                    Ok(list(o.into_iter().collect()))
                }
                "HashMap" | "HashSet" => {
                    let s = self.seq_of(*t);
                    let s = self.hash_order(s);
                    Ok(list(s))
                }
                "Vec" | "BTreeMap" | "BTreeSet" => {
                    let s = self.seq_of(*t);
                    Ok(list(s))
                }
                h if self.prog.structs.contains_key(h) || self.prog.enums.contains_key(h) => self.iter_of_struct(v, site),
                _ => Ok(V::Iter(Rc::new(IterV::Opaque(*t, 0)))),
            },
            V::Struct(_) => self.iter_of_struct(v, site),
            o => self.unsup(format!("not iterable: {:?}", o), site),
        }
    }

    fn iter_of_struct(&mut self, v: V, site: &Site) -> R<V> {
        let ty = self.ty_of(&v);
        let h = ty.head().to_string();
        if self.prog.trait_method(&h, "Iterator", "next").is_some() {
            let c = self.alloc(v);
            return Ok(V::Iter(Rc::new(IterV::FromFn(V::Mut(Rc::new(Place { cell: c, proj: vec![] }))))));
        }
        if let Some(f) = self.prog.trait_method(&h, "IntoIterator", "into_iter") {
            let r = self.call_fn(&f, vec![v], BTreeMap::new())?;
            return self.to_iter(r, site);
        }
        if let Some(f) = self.prog.trait_method(&h, "Deref", "deref") {
            let r = self.call_fn(&f, vec![v], BTreeMap::new())?;
            return self.to_iter(r, site);
        }
        self.unsup(format!("not iterable: {}", h), site)
    }

    pub fn iter_of(&mut self, v: V, site: &Site) -> R<IterV> {
        match self.to_iter(v, site)? {
            V::Iter(i) => Ok((*i).clone()),
            o => self.unsup(format!("not an iterator: {:?}", o), site),
        }
    }

    pub fn iter_next_at(&mut self, p: &Place, site: &Site) -> R<Option<V>> {
        let p = self.deref_place(p);
        let v = self.load(&p)?;
        let it = match &v {
            V::Iter(i) => (**i).clone(),
            o => {
                let i = self.to_iter(o.clone(), site)?;
                match i {
                    V::Iter(i) => (*i).clone(),
                    _ => return self.unsup("iterator", site),
                }
            }
        };
        let (x, it) = self.pull(it, site)?;
        self.store(&p, V::Iter(Rc::new(it)))?;
        Ok(x)
    }

    pub fn drain(&mut self, mut it: IterV, site: &Site) -> R<Vec<V>> {
        let mut out = vec![];
        loop {
            let (x, n) = self.pull(it, site)?;
            it = n;
            match x {
                Some(x) => out.push(x),
                None => return Ok(out),
            }
            if out.len() > 512 {
                return self.unsup("iterator bound", site);
            }
        }
    }

    pub fn pull(&mut self, it: IterV, site: &Site) -> R<(Option<V>, IterV)> {
        Ok(match it {
            IterV::List(v, a, b) => {
                if a < b.min(v.len()) {
                    (Some(v[a].clone()), IterV::List(v, a + 1, b))
                } else {
                    (None, IterV::List(v, a, b))
                }
            }
            IterV::Opaque(t, i) => {
                let s = self.seq_of(t);
                if i < s.len() {
                    (Some(s[i].clone()), IterV::Opaque(t, i + 1))
                } else {
                    (None, IterV::Opaque(t, i))
                }
            }
            IterV::Range(a, b) => {
                if b.map(|b| a < b).unwrap_or(true) {
                    (Some(V::Int(a)), IterV::Range(a + 1, b))
                } else {
                    (None, IterV::Range(a, b))
                }
            }
            IterV::Map(i, f) => {
                let (x, i) = self.pull(*i, site)?;
                let x = match x {
                    Some(x) => Some(self.call_value(&f, vec![x], site)?),
                    None => None,
                };
                (x, IterV::Map(Box::new(i), f))
            }
            IterV::Inspect(i, f) => {
                let (x, i) = self.pull(*i, site)?;
                if let Some(x) = &x {
                    self.call_value(&f, vec![x.clone()], site)?;
                }
                (x, IterV::Inspect(Box::new(i), f))
            }
            IterV::Filter(i, f) => {
                let mut i = *i;
                loop {
                    let (x, n) = self.pull(i, site)?;
                    i = n;
                    match x {
                        None => return Ok((None, IterV::Filter(Box::new(i), f))),
                        Some(x) => {
                            let c = self.call_value(&f, vec![x.clone()], site)?;
                            if self.truth(c, site)? {
                                return Ok((Some(x), IterV::Filter(Box::new(i), f)));
                            }
                        }
                    }
                }
            }
            IterV::FilterMap(i, f) => {
                let mut i = *i;
                loop {
                    let (x, n) = self.pull(i, site)?;
                    i = n;
                    match x {
                        None => return Ok((None, IterV::FilterMap(Box::new(i), f))),
                        Some(x) => {
                            let c = self.call_value(&f, vec![x], site)?;
                            if let Some(y) = self.opt(c, site)? {
                                return Ok((Some(y), IterV::FilterMap(Box::new(i), f)));
                            }
                        }
                    }
                }
            }
            IterV::FlatMap(i, f, cur) => {
                let mut i = *i;
                let mut cur = cur;
                loop {
                    if let Some(c) = cur {
                        let (x, c) = self.pull(*c, site)?;
                        if x.is_some() {
                            return Ok((x, IterV::FlatMap(Box::new(i), f, Some(Box::new(c)))));
                        }
                    }
                    let (x, n) = self.pull(i, site)?;
                    i = n;
                    match x {
                        None => return Ok((None, IterV::FlatMap(Box::new(i), f, None))),
                        Some(x) => {
                            let c = self.call_value(&f, vec![x], site)?;
                            cur = Some(Box::new(self.iter_of(c, site)?));
                        }
                    }
                }
            }
            IterV::Flatten(i, cur) => {
                let mut i = *i;
                let mut cur = cur;
                loop {
                    if let Some(c) = cur {
                        let (x, c) = self.pull(*c, site)?;
                        if x.is_some() {
                            return Ok((x, IterV::Flatten(Box::new(i), Some(Box::new(c)))));
                        }
                    }
                    let (x, n) = self.pull(i, site)?;
                    i = n;
                    match x {
                        None => return Ok((None, IterV::Flatten(Box::new(i), None))),
                        Some(x) => cur = Some(Box::new(self.iter_of(x, site)?)),
                    }
                }
            }
            IterV::Enumerate(i, n) => {
                let (x, i) = self.pull(*i, site)?;
                (
                    x.map(|x| V::tup(vec![V::Int(n as i128), x])),
                    IterV::Enumerate(Box::new(i), n + 1),
                )
            }
            IterV::Zip(a, b) => {
                let (x, a) = self.pull(*a, site)?;
                match x {
                    None => (None, IterV::Zip(Box::new(a), b)),
                    Some(x) => {
                        let (y, b) = self.pull(*b, site)?;
                        (
                            y.map(|y| V::tup(vec![x, y])),
                            IterV::Zip(Box::new(a), Box::new(b)),
                        )
                    }
                }
            }
            IterV::Chain(a, b) => {
                let (x, a) = self.pull(*a, site)?;
                if x.is_some() {
                    (x, IterV::Chain(Box::new(a), b))
                } else {
                    let (y, b) = self.pull(*b, site)?;
                    (y, IterV::Chain(Box::new(a), Box::new(b)))
                }
            }
            IterV::TakeWhile(i, f, done) => {
                if done {
                    return Ok((None, IterV::TakeWhile(i, f, true)));
                }
                let (x, i) = self.pull(*i, site)?;
                match x {
                    None => (None, IterV::TakeWhile(Box::new(i), f, true)),
                    Some(x) => {
                        let c = self.call_value(&f, vec![x.clone()], site)?;
                        if self.truth(c, site)? {
                            (Some(x), IterV::TakeWhile(Box::new(i), f, false))
                        } else {
                            (None, IterV::TakeWhile(Box::new(i), f, true))
                        }
                    }
                }
            }
            IterV::MapWhile(i, f) => {
                let (x, i) = self.pull(*i, site)?;
                match x {
                    None => (None, IterV::MapWhile(Box::new(i), f)),
                    Some(x) => {
                        let c = self.call_value(&f, vec![x], site)?;
                        let y = self.opt(c, site)?;
                        (y, IterV::MapWhile(Box::new(i), f))
                    }
                }
            }
            IterV::SkipWhile(i, f, started) => {
                let mut i = *i;
                loop {
                    let (x, n) = self.pull(i, site)?;
                    i = n;
                    match x {
                        None => return Ok((None, IterV::SkipWhile(Box::new(i), f, started))),
                        Some(x) => {
                            if started {
                                return Ok((Some(x), IterV::SkipWhile(Box::new(i), f, true)));
                            }
                            let c = self.call_value(&f, vec![x.clone()], site)?;
                            if !self.truth(c, site)? {
                                return Ok((Some(x), IterV::SkipWhile(Box::new(i), f, true)));
                            }
                        }
                    }
                }
            }
            IterV::Take(i, n) => {
                if n == 0 {
                    return Ok((None, IterV::Take(i, 0)));
                }
                let (x, i) = self.pull(*i, site)?;
                (x, IterV::Take(Box::new(i), n - 1))
            }
            IterV::Skip(i, n) => {
                let mut i = *i;
                for _ in 0..n {
                    let (_, k) = self.pull(i, site)?;
                    i = k;
                }
                let (x, i) = self.pull(i, site)?;
                (x, IterV::Skip(Box::new(i), 0))
            }
            IterV::Scan(i, cell, f, done) => {
                if done {
                    return Ok((None, IterV::Scan(i, cell, f, true)));
                }
                let (x, i) = self.pull(*i, site)?;
                match x {
                    None => (None, IterV::Scan(Box::new(i), cell, f, false)),
                    Some(x) => {
                        let st = V::Mut(Rc::new(Place { cell, proj: vec![] }));
                        let c = self.call_value(&f, vec![st, x], site)?;
                        let y = self.opt(c, site)?;
                        let d = y.is_none();
                        (y, IterV::Scan(Box::new(i), cell, f, d))
                    }
                }
            }
            IterV::Peekable(i, pk) => match pk {
                Some(x) => (x, IterV::Peekable(i, None)),
                None => {
                    let (x, i) = self.pull(*i, site)?;
                    (x, IterV::Peekable(Box::new(i), None))
                }
            },
            IterV::Rev(i) => {
                let mut v = self.drain(*i, site)?;
                v.reverse();
                let n = v.len();
                return self.pull(IterV::List(Rc::new(v), 0, n), site);
            }
            IterV::Once(x) => (x, IterV::Once(None)),
            IterV::FromFn(f) => match &f {
                V::Mut(_) => {
                    let r = self.method_on(f.clone(), "next", vec![], None, site)?;
                    (self.opt(r, site)?, IterV::FromFn(f))
                }
                _ => {
                    let r = self.call_value(&f, vec![], site)?;
                    (self.opt(r, site)?, IterV::FromFn(f))
                }
            },
            IterV::Successors(x, f) => match x {
                None => (None, IterV::Successors(None, f)),
                Some(x) => {
                    let n = self.call_value(&f, vec![x.clone()], site)?;
                    let n = self.opt(n, site)?;
                    (Some(x), IterV::Successors(n, f))
                }
            },
            IterV::Repeat(x) => (Some(x.clone()), IterV::Repeat(x)),
            IterV::Pass(i, n) => {
                let (x, i) = self.pull(*i, site)?;
                (x, IterV::Pass(Box::new(i), n))
            }
        })
    }

    fn collect(&mut self, it: IterV, hint: Option<&Ty>, site: &Site) -> R<V> {
        match hint {
            Some(t) if t.head() == "Result" || t.head() == "Option" => {
                let mut it = it;
                let mut out = vec![];
                loop {
                    let (x, n) = self.pull(it, site)?;
                    it = n;
                    let Some(x) = x else { break };
                    if t.head() == "Result" {
                        match self.res(x, site)? {
                            Ok(y) => out.push(y),
                            Err(e) => {
                                let e = self.coerce(e, &t.arg(1), site)?;
                                return Ok(V::err(e));
                            }
                        }
                    } else {
                        match self.opt(x, site)? {
                            Some(y) => out.push(y),
                            None => return Ok(V::none()),
                        }
                    }
                    if out.len() > 512 {
                        return self.unsup("iterator bound", site);
                    }
                }
                let inner = self.coerce(V::seq(out), &t.arg(0), site)?;
                let inner = if matches!(t.arg(0), Ty::Tuple(ref x) if x.is_empty()) { V::Unit } else { inner };
                Ok(if t.head() == "Result" { V::ok(inner) } else { V::some(inner) })
            }
            Some(t) => {
                let v = self.drain(it, site)?;
                if matches!(t, Ty::Tuple(x) if x.is_empty()) {
                    return Ok(V::Unit);
                }
                self.coerce(V::seq(v), t, site)
            }
            None => {
                let v = self.drain(it, site)?;
                Ok(V::seq(v))
            }
        }
    }

    fn iter_method(&mut self, place: &Option<Place>, it: IterV, name: &str, args: &[V], hint: &Option<Ty>, site: &Site) -> R<Option<V>> {
        let a = |i: usize| args.get(i).cloned().unwrap_or(V::Unit);
        let mk = |i: IterV| Ok(Some(V::Iter(Rc::new(i))));
        let num = |v: V| match v {
            V::Int(i) => Some(i as usize),
            _ => None,
        };
        let b = Box::new;
        // methods that advance the iterator in place
        if let Some(p) = place {
            match name {
                "next" | "nth" | "peek" | "peek_mut" | "next_if" | "next_if_eq" | "next_back" | "find" | "any" | "all" | "position" | "find_map" | "try_for_each" | "try_fold" => {
                    let mut cur = it;
                    let r = match name {
                        "next" => {
                            let (x, n) = self.pull(cur, site)?;
                            cur = n;
                            opt_v(x)
                        }
                        "next_back" => {
                            let mut v = self.drain(cur, site)?;
                            let x = v.pop();
                            let n = v.len();
                            cur = IterV::List(Rc::new(v), 0, n);
                            opt_v(x)
                        }
                        "peek" | "peek_mut" | "next_if" | "next_if_eq" => {
                            let (x, inner) = match cur {
                                IterV::Peekable(i, Some(x)) => (x, i),
                                IterV::Peekable(i, None) => {
                                    let (x, n) = self.pull(*i, site)?;
                                    (x, b(n))
                                }
                                o => {
                                    let (x, n) = self.pull(o, site)?;
                                    (x, b(n))
                                }
                            };
                            match name {
                                "peek" | "peek_mut" => {
                                    cur = IterV::Peekable(inner, Some(x.clone()));
                                    opt_v(x)
                                }
                                _ => {
                                    let take = match &x {
                                        None => false,
                                        Some(y) if name == "next_if" => {
                                            let c = self.call_value(&a(0), vec![y.clone()], site)?;
                                            self.truth(c, site)?
                                        }
                                        Some(y) => self.eq(y, &a(0), site)?,
                                    };
                                    if take {
                                        cur = IterV::Peekable(inner, None);
                                        opt_v(x)
                                    } else {
                                        cur = IterV::Peekable(inner, Some(x));
                                        V::none()
                                    }
                                }
                            }
                        }
                        "nth" => {
                            let Some(n) = num(self.rv(a(0))?) else {
                                return self.unsup("nth", site);
                            };
                            let mut r = None;
                            for _ in 0..=n {
                                let (x, k) = self.pull(cur, site)?;
                                cur = k;
                                r = x;
                                if r.is_none() {
                                    break;
                                }
                            }
                            opt_v(r)
                        }
                        _ => {
                            let (r, n) = self.search(cur, name, args, site)?;
                            cur = n;
                            r
                        }
                    };
                    self.store(p, V::Iter(Rc::new(cur)))?;
                    return Ok(Some(r));
                }
                "by_ref" => return Ok(Some(V::Iter(Rc::new(IterV::FromFn(V::Mut(Rc::new(p.clone()))))))),
                _ => {}
            }
        }
        match name {
            "iter" | "into_iter" | "by_ref" | "fuse" | "copied" | "cloned" | "into" | "iter_mut" => mk(it),
            "map" => mk(IterV::Map(b(it), a(0))),
            "filter" => mk(IterV::Filter(b(it), a(0))),
            "filter_map" => mk(IterV::FilterMap(b(it), a(0))),
            "flat_map" => mk(IterV::FlatMap(b(it), a(0), None)),
            "flatten" => mk(IterV::Flatten(b(it), None)),
            "enumerate" => mk(IterV::Enumerate(b(it), 0)),
            "zip" => {
                let o = self.iter_of(a(0), site)?;
                mk(IterV::Zip(b(it), b(o)))
            }
            "chain" => {
                let o = self.iter_of(a(0), site)?;
                mk(IterV::Chain(b(it), b(o)))
            }
            "take_while" => mk(IterV::TakeWhile(b(it), a(0), false)),
            "map_while" => mk(IterV::MapWhile(b(it), a(0))),
            "skip_while" => mk(IterV::SkipWhile(b(it), a(0), false)),
            "inspect" => mk(IterV::Inspect(b(it), a(0))),
            "peekable" => mk(IterV::Peekable(b(it), None)),
            "rev" => mk(IterV::Rev(b(it))),
            "take" | "skip" | "step_by" => {
                let Some(n) = num(self.rv(a(0))?) else {
                    return self.unsup(name, site);
                };
                match name {
                    "take" => mk(IterV::Take(b(it), n)),
                    "skip" => mk(IterV::Skip(b(it), n)),
                    _ if n == 0 => Err(Ctl::Panic("step_by(0)".into(), site.clone())),
                    _ => {
                        if endless(&it) {
                            return self.unsup(name, site);
                        }
                        let v = self.drain(it, site)?;
                        let v: Vec<V> = v.into_iter().step_by(n).collect();
                        let l = v.len();
                        mk(IterV::List(Rc::new(v), 0, l))
                    }
                }
            }
            "as_slice" | "as_str" if matches!(it, IterV::List(..)) && name == "as_slice" => {
                let IterV::List(v, a, b) = &it else { unreachable!() };
                Ok(Some(V::seq(v[*a..(*b).min(v.len())].to_vec())))
            }
            "cmp" | "partial_cmp" | "lt" | "gt" | "le" | "ge" | "ne" if args.len() == 1 => {
                let x = self.drain(it, site)?;
                let o = self.iter_of(a(0), site)?;
                let y = self.drain(o, site)?;
                let (x, y) = (V::seq(x), V::seq(y));
                Ok(Some(match name {
                    "cmp" => self.cmp(&x, &y, site)?,
                    "partial_cmp" => V::some(self.cmp(&x, &y, site)?),
                    "ne" => V::Bool(!self.eq(&x, &y, site)?),
                    "lt" => V::Bool(self.lt(&x, &y, site)?),
                    "gt" => V::Bool(self.lt(&y, &x, site)?),
                    "le" => V::Bool(!self.lt(&y, &x, site)?),
                    _ => V::Bool(!self.lt(&x, &y, site)?),
                }))
            }
            "scan" => {
                let c = self.alloc(a(0));
                mk(IterV::Scan(b(it), c, a(1), false))
            }
            "collect" => Ok(Some(self.collect(it, hint.as_ref(), site)?)),
            "next" => {
                let (x, _) = self.pull(it, site)?;
                Ok(Some(opt_v(x)))
            }
            "nth" => {
                let Some(n) = num(self.rv(a(0))?) else {
                    return self.unsup("nth", site);
                };
                let v = self.drain(it, site)?;
                Ok(Some(opt_v(v.get(n).cloned())))
            }
            "last" | "next_back" => {
                let v = self.drain(it, site)?;
                Ok(Some(opt_v(v.last().cloned())))
            }
            "count" | "len" => {
                let v = self.drain(it, site)?;
                Ok(Some(V::Int(v.len() as i128)))
            }
            "as_str" => {
                // rest of a `Chars` iterator
                let v = self.drain(it, site)?;
                Ok(Some(self.seq_to_str(&v, site)?))
            }
            "fold" => {
                let v = self.drain(it, site)?;
                let mut acc = a(0);
                for x in v {
                    acc = self.call_value(&a(1), vec![acc, x], site)?;
                }
                Ok(Some(acc))
            }
            "reduce" => {
                let mut v = self.drain(it, site)?.into_iter();
                let Some(mut acc) = v.next() else {
                    return Ok(Some(V::none()));
                };
                for x in v {
                    acc = self.call_value(&a(0), vec![acc, x], site)?;
                }
                Ok(Some(V::some(acc)))
            }
            "for_each" => {
                let mut it = it;
                for _ in 0..512 {
                    let (x, n) = self.pull(it, site)?;
                    it = n;
                    match x {
                        Some(x) => {
                            self.call_value(&a(0), vec![x], site)?;
                        }
                        None => return Ok(Some(V::Unit)),
                    }
                }
                self.unsup("for_each", site)
            }
            "find" | "any" | "all" | "position" | "find_map" | "try_for_each" | "try_fold" => {
                let (r, _) = self.search(it, name, args, site)?;
                Ok(Some(r))
            }
            "rposition" => {
                let v = self.drain(it, site)?;
                for (i, x) in v.into_iter().enumerate().rev() {
                    let c = self.call_value(&a(0), vec![x], site)?;
                    if self.truth(c, site)? {
                        return Ok(Some(V::some(V::Int(i as i128))));
                    }
                }
                Ok(Some(V::none()))
            }
            "partition" => {
                let v = self.drain(it, site)?;
                let (mut l, mut r) = (vec![], vec![]);
                for x in v {
                    let c = self.call_value(&a(0), vec![x.clone()], site)?;
                    if self.truth(c, site)? {
                        l.push(x)
                    } else {
                        r.push(x)
                    }
                }
                Ok(Some(V::tup(vec![V::seq(l), V::seq(r)])))
            }
            "unzip" => {
                let v = self.drain(it, site)?;
                let (mut l, mut r) = (vec![], vec![]);
                for x in v {
                    match (x.field("0"), x.field("1")) {
                        (Some(p), Some(q)) => {
                            l.push(p);
                            r.push(q);
                        }
                        _ => return self.unsup("unzip", site),
                    }
                }
                Ok(Some(V::tup(vec![V::seq(l), V::seq(r)])))
            }
            "min" | "max" | "min_by_key" | "max_by_key" => {
                let v = self.drain(it, site)?;
                let mut best: Option<(V, V)> = None;
                for x in v {
                    let k = if name.ends_with("key") { self.call_value(&a(0), vec![x.clone()], site)? } else { x.clone() };
                    best = match best {
                        None => Some((k, x)),
                        Some((bk, bx)) => {
                            let lt = self.lt(&k, &bk, site)?;
                            if name.starts_with("min") == lt {
                                Some((k, x))
                            } else {
                                Some((bk, bx))
                            }
                        }
                    };
                }
                Ok(Some(opt_v(best.map(|x| x.1))))
            }
            "sum" => {
                let v = self.drain(it, site)?;
                let mut s = 0;
                for x in v {
                    match self.rv(x)? {
                        V::Int(i) => s += i,
                        _ => return self.unsup("sum", site),
                    }
                }
                Ok(Some(V::Int(s)))
            }
            "eq" | "ne" => {
                let x = self.drain(it, site)?;
                let o = self.iter_of(a(0), site)?;
                let y = self.drain(o, site)?;
                let e = self.eq(&V::seq(x), &V::seq(y), site)?;
                Ok(Some(V::Bool(e == (name == "eq"))))
            }
            "join" => {
                let v = self.drain(it, site)?;
                Ok(Some(self.join(&v, a(0), site)?))
            }
            "sorted" | "sorted_by_key" | "sorted_by" => {
                let v = self.drain(it, site)?;
                let how = name.trim_start_matches("sorted").trim_start_matches('_').to_string();
                let v = self.sort(v, &how, args, site)?;
                let n = v.len();
                mk(IterV::List(Rc::new(v), 0, n))
            }
            "clone" => mk(it),
            "is_empty" => {
                let (x, _) = self.pull(it, site)?;
                Ok(Some(V::Bool(x.is_none())))
            }
            "size_hint" => self.unsup("size_hint", site),
            _ => Ok(None),
        }
    }

    fn search(&mut self, it: IterV, name: &str, args: &[V], site: &Site) -> R<(V, IterV)> {
        let a = |i: usize| args.get(i).cloned().unwrap_or(V::Unit);
        let mut it = it;
        let mut n = 0;
        let mut acc = a(0);
        let mut optional = false;
        loop {
            let (x, k) = self.pull(it, site)?;
            it = k;
            let Some(x) = x else {
                return Ok((
                    match name {
                        "any" => V::Bool(false),
                        "all" => V::Bool(true),
                        "try_for_each" if optional => V::some(V::Unit),
                        "try_fold" if optional => V::some(acc),
                        "try_for_each" => V::ok(V::Unit),
                        "try_fold" => V::ok(acc),
                        _ => V::none(),
                    },
                    it,
                ));
            };
            match name {
                "find" => {
                    let c = self.call_value(&a(0), vec![x.clone()], site)?;
                    if self.truth(c, site)? {
                        return Ok((V::some(x), it));
                    }
                }
                "position" => {
                    let c = self.call_value(&a(0), vec![x], site)?;
                    if self.truth(c, site)? {
                        return Ok((V::some(V::Int(n)), it));
                    }
                }
                "any" | "all" => {
                    let c = self.call_value(&a(0), vec![x], site)?;
                    if self.truth(c, site)? == (name == "any") {
                        return Ok((V::Bool(name == "any"), it));
                    }
                }
                "find_map" => {
                    let c = self.call_value(&a(0), vec![x], site)?;
                    if let Some(y) = self.opt(c, site)? {
                        return Ok((V::some(y), it));
                    }
                }
                "try_for_each" => {
                    let c = self.call_value(&a(0), vec![x], site)?;
                    let c = self.rv(c)?;
                    if self.ty_of(&c).head() == "Option" {
                        optional = true;
                        match self.opt(c, site)? {
                            Some(_) => {}
                            None => return Ok((V::none(), it)),
                        }
                    } else if let Err(e) = self.res(c, site)? {
                        return Ok((V::err(e), it));
                    }
                }
                _ => {
                    let c = self.call_value(&a(1), vec![acc.clone(), x], site)?;
                    let c = self.rv(c)?;
                    if self.ty_of(&c).head() == "Option" {
                        optional = true;
                        match self.opt(c, site)? {
                            Some(v) => acc = v,
                            None => return Ok((V::none(), it)),
                        }
                        n += 1;
                        continue;
                    }
                    match self.res(c, site)? {
                        Ok(v) => acc = v,
                        Err(e) => return Ok((V::err(e), it)),
                    }
                }
            }
            n += 1;
            if n > 512 {
                return self.unsup("iterator bound", site);
            }
        }
    }

    pub fn join(&mut self, v: &[V], sep: V, site: &Site) -> R<V> {
        let sep = self.display(sep, site)?;
        let mut out = vec![];
        for (i, x) in v.iter().enumerate() {
            if i > 0 {
                out.extend(sep.clone());
            }
            out.extend(self.display(x.clone(), site)?);
        }
        Ok(V::str_parts(out))
    }

    pub fn sort(&mut self, v: Vec<V>, how: &str, args: &[V], site: &Site) -> R<Vec<V>> {
        let mut out: Vec<(V, V)> = vec![];
        for x in v {
            let k = match how {
                "by_key" | "by_cached_key" => self.call_value(&args[0], vec![x.clone()], site)?,
                _ => x.clone(),
            };
            let mut pos = out.len();
            for j in 0..out.len() {
                let less = if how == "by" {
                    let o = self.call_value(&args[0], vec![k.clone(), out[j].0.clone()], site)?;
                    let o = self.rv(o)?;
                    o.is_variant("Less")
                } else {
                    let q = out[j].0.clone();
                    self.lt(&k, &q, site)?
                };
                if less {
                    pos = j;
                    break;
                }
            }
            out.insert(pos, (k, x));
        }
        Ok(out.into_iter().map(|x| x.1).collect())
    }

    // ------------------------------------------------------------------ text

    pub fn display(&mut self, v: V, site: &Site) -> R<Vec<SP>> {
        let v = self.rv(v)?;
        Ok(match &v {
            V::Str(p) | V::Ident(p) => (**p).clone(),
            V::Int(i) => vec![SP::Lit(i.to_string().into())],
            V::Bool(b) => vec![SP::Lit(b.to_string().into())],
            V::Char(c) => vec![SP::Lit(c.to_string().into())],
            V::Unit => vec![],
            V::Default => vec![],
            V::Tokens(t) => match t.as_slice() {
                [] => vec![],
                [Tk { k: TkK::Id(i), .. }] => vec![SP::Lit(i.clone())],
                [Tk { k: TkK::IdHole(p), .. }] => (**p).clone(),
                _ => vec![app_part("tokens", vec![v.clone()])],
            },
            _ => {
                let ty = self.ty_of(&v);
                let h = ty.head().to_string();
                if let Some(f) = self.prog.trait_method(&h, "Display", "fmt") {
                    let c = self.alloc(lit(""));
                    let fm = V::Mut(Rc::new(Place { cell: c, proj: vec![] }));
                    self.call_fn_raw(&f, vec![v, fm], BTreeMap::new())?;
                    return match self.st.store[c].clone() {
                        V::Str(p) => Ok((*p).clone()),
                        o => self.unsup(format!("formatted {:?}", o), site),
                    };
                }
                if let V::Iter(i) = &v {
                    let x = self.drain((**i).clone(), site)?;
                    let mut out = vec![];
                    for y in x {
                        out.extend(self.display(y, site)?);
                    }
                    return Ok(out);
                }
                if ty.head() == "char" {
                    return Ok(vec![app_part("char", vec![v])]);
                }
                // what was parsed is printed as it was
                if let V::Sym(t) = &v {
                    if let TermKind::Payload(b, var, _) = &get_term(*t).kind {
                        if let TermKind::App(n, a) = &get_term(*b).kind {
                            if var == "Ok" && n.starts_with("parse:") {
                                if let Some(V::Str(p)) = a.first() {
                                    return Ok((**p).clone());
                                }
                            }
                        }
                    }
                }
                vec![app_part("display", vec![v])]
            }
        })
    }

    /// Literal text with everything that is known substituted.
    fn known(&self, p: &[SP]) -> Option<String> {
        sp_lit(&self.subst_lits(p))
    }

    fn char_test(&mut self, c: &V, name: &str, site: &Site) -> R<V> {
        match c {
            V::Char(c) => Ok(V::Bool(match name {
                "is_alphabetic" => c.is_alphabetic(),
                "is_alphanumeric" => c.is_alphanumeric(),
                "is_numeric" => c.is_numeric(),
                "is_whitespace" => c.is_whitespace(),
                "is_uppercase" => c.is_uppercase(),
                "is_lowercase" => c.is_lowercase(),
                "is_ascii_digit" => c.is_ascii_digit(),
                "is_ascii_alphabetic" => c.is_ascii_alphabetic(),
                "is_ascii_alphanumeric" => c.is_ascii_alphanumeric(),
                "is_ascii_uppercase" => c.is_ascii_uppercase(),
                "is_ascii_lowercase" => c.is_ascii_lowercase(),
                "is_ascii_punctuation" => c.is_ascii_punctuation(),
                "is_ascii" => c.is_ascii(),
                "is_control" => c.is_control(),
                "is_digit" => c.is_ascii_digit(),
                _ => return self.unsup(format!("char::{}", name), site),
            })),
            c => {
                let t = term(TermKind::App(name.into(), vec![c.clone()]), Ty::adt("bool"));
                Ok(V::Bool(self.decide(t)))
            }
        }
    }

    /// Whether a pattern (char, string, closure, fn, slice of chars) matches a character.
    fn char_pat(&mut self, pat: &V, c: char, site: &Site) -> R<bool> {
        let pat = self.rv(pat.clone())?;
        match &pat {
            V::Char(x) => Ok(*x == c),
            V::Seq(s) => Ok(s.iter().any(|x| *x == V::Char(c))),
            V::Closure(_) | V::Fn(_) => {
                let r = self.call_value(&pat, vec![V::Char(c)], site)?;
                self.truth(r, site)
            }
            V::Str(_) => Ok(pat.as_lit().map(|l| l == c.to_string()).unwrap_or(false)),
            _ => self.unsup("pattern", site),
        }
    }

    fn pat_str(&mut self, pat: &V) -> Option<String> {
        match self.rv(pat.clone()).ok()? {
            V::Char(c) => Some(c.to_string()),
            v => v.as_lit(),
        }
    }

    /// Splits a partially known string at a separator. Unknown names never contain it.
    fn split_parts(&mut self, p: &[SP], sep: &str, max: usize) -> Option<Vec<Vec<SP>>> {
        let p = self.subst_lits(p);
        let mut out: Vec<Vec<SP>> = vec![vec![]];
        for x in p {
            match x {
                SP::Lit(s) => {
                    let mut rest: &str = &s;
                    loop {
                        if out.len() < max {
                            if let Some(i) = rest.find(sep) {
                                out.last_mut().unwrap().push(SP::Lit(rest[..i].into()));
                                out.push(vec![]);
                                rest = &rest[i + sep.len()..];
                                continue;
                            }
                        }
                        out.last_mut().unwrap().push(SP::Lit(rest.into()));
                        break;
                    }
                }
                SP::Term(t) => {
                    if out.len() < max && !is_ncname(t) && !self.is_word(t) {
                        return None;
                    }
                    out.last_mut().unwrap().push(SP::Term(t));
                }
            }
        }
        Some(out.into_iter().map(norm_sp).collect())
    }

    /// Derived from an unknown name by a change of case.
    fn is_word(&self, t: TermId) -> bool {
        match &get_term(t).kind {
            TermKind::App(n, a) if n == "to_snake_case" || n == "to_pascal_case" => matches!(&a[0], V::Str(p) if p.iter().all(|x| match x { SP::Term(t) => is_ncname(*t), SP::Lit(_) => true })),
            _ => false,
        }
    }

    fn str_method(&mut self, place: &Option<Place>, parts: &Rc<Vec<SP>>, name: &str, args: &[V], hint: &Option<Ty>, site: &Site) -> R<Option<V>> {
        let a = |i: usize| args.get(i).cloned().unwrap_or(V::Unit);
        let me = V::Str(parts.clone());
        let known = self.known(parts);
        let list = |v: Vec<V>| {
            let n = v.len();
            V::Iter(Rc::new(IterV::List(Rc::new(v), 0, n)))
        };
        let sapp = |n: &str, args: Vec<V>| V::app(n, args, Ty::adt("String"));
        let r = match name {
            // identity conversions, also of paths and of owned or borrowed text
            "to_string" | "to_owned" | "clone" | "as_str" | "as_ref" | "borrow" | "into_owned" | "into_string" | "deref" | "as_path" | "to_path_buf"
            | "to_string_lossy" | "into_boxed_str" | "as_os_str" | "as_mut_str" | "display" | "local_name" | "into_boxed_path" | "to_ref" | "borrow_name" => me,
            "to_mut" | "as_mut" | "borrow_mut" | "by_ref" => match place {
                Some(p) => V::Mut(Rc::new(p.clone())),
                None => me,
            },
            "to_str" => V::some(me),
            "into" | "try_into" => match hint {
                Some(t) if !t.is_str() => {
                    let h = t.head().to_string();
                    if let Some(f) = self.prog.impls.iter().find(|i| i.self_ty.head() == h && i.trait_.as_deref().map(last) == Some("From") && i.trait_args.first().map(|t| t.is_str()).unwrap_or(false)).and_then(|i| i.fns.first().cloned()) {
                        return Ok(Some(self.call_fn(&f, vec![me], BTreeMap::new())?));
                    }
                    me
                }
                _ => me,
            },
            "eq" => V::Bool(self.eq(&me, &a(0), site)?),
            "ne" => V::Bool(!self.eq(&me, &a(0), site)?),
            "cmp" => return Ok(Some(self.cmp(&me, &a(0), site)?)),
            "partial_cmp" => {
                let c = self.cmp(&me, &a(0), site)?;
                V::some(c)
            }
            "eq_ignore_ascii_case" => {
                let o = self.rv(a(0))?;
                match (&known, o.as_lit()) {
                    (Some(x), Some(y)) => V::Bool(x.eq_ignore_ascii_case(&y)),
                    _ => V::app("eq_ignore_ascii_case", vec![me, o], Ty::adt("bool")),
                }
            }
            "is_empty" => V::Bool(self.str_eq(&parts.clone(), &[])?),
            "len" => match known {
                Some(k) => V::Int(k.len() as i128),
                None => V::app("len", vec![me], Ty::adt("usize")),
            },
            "span" => V::var("span", Ty::adt("Span")),
            "chars" => match known {
                Some(k) => list(k.chars().map(V::Char).collect()),
                None => self.chars_of(parts),
            },
            "char_indices" => match known {
                Some(k) => list(k.char_indices().map(|(i, c)| V::tup(vec![V::Int(i as i128), V::Char(c)])).collect()),
                None => return self.unsup("char_indices", site),
            },
            "bytes" | "as_bytes" | "into_bytes" => match known {
                Some(k) => V::seq(k.bytes().map(|c| V::Int(c as i128)).collect()),
                None => V::app("bytes", vec![me], Ty::Adt("Vec".into(), vec![Ty::adt("u8")])),
            },
            "starts_with" | "ends_with" | "contains" => return Ok(Some(V::Bool(self.str_test(parts, name, &a(0), site)?))),
            "to_snake_case" => match known {
                Some(k) => lit(&snake_case(&k)),
                None => sapp(name, vec![V::Str(Rc::new(self.subst_lits(parts)))]),
            },
            "to_pascal_case" => match known {
                Some(k) => lit(&pascal_case(&k)),
                None => sapp(name, vec![V::Str(Rc::new(self.subst_lits(parts)))]),
            },
            "to_class_case" | "to_camel_case" | "to_screaming_snake_case" | "to_kebab_case" | "to_title_case" | "to_train_case" | "to_sentence_case" | "to_table_case"
            | "to_singular" | "to_plural" | "pluralize" | "singularize" => match known {
                Some(k) => {
                    use inflector::Inflector;
                    lit(&match name {
                        "to_class_case" => k.to_class_case(),
                        "to_camel_case" => k.to_camel_case(),
                        "to_screaming_snake_case" => k.to_screaming_snake_case(),
                        "to_kebab_case" => k.to_kebab_case(),
                        "to_title_case" => k.to_title_case(),
                        "to_train_case" => k.to_train_case(),
                        "to_sentence_case" => k.to_sentence_case(),
                        "to_table_case" => k.to_table_case(),
                        "to_singular" | "singularize" => k.to_singular(),
                        _ => k.to_plural(),
                    })
                }
                None => sapp(name, vec![V::Str(Rc::new(self.subst_lits(parts)))]),
            },
            "to_uppercase" | "to_lowercase" | "to_ascii_uppercase" | "to_ascii_lowercase" => match known {
                Some(k) => lit(&match name {
                    "to_uppercase" => k.to_uppercase(),
                    "to_lowercase" => k.to_lowercase(),
                    "to_ascii_uppercase" => k.to_ascii_uppercase(),
                    _ => k.to_ascii_lowercase(),
                }),
                None => sapp(name, vec![me]),
            },
            "trim" | "trim_start" | "trim_end" => match known {
                Some(k) => lit(match name {
                    "trim" => k.trim(),
                    "trim_start" => k.trim_start(),
                    _ => k.trim_end(),
                }),
                None => {
                    let all_words = parts.iter().all(|p| match p {
                        SP::Term(t) => is_ncname(*t) || self.is_word(*t),
                        SP::Lit(s) => !s.starts_with(char::is_whitespace) && !s.ends_with(char::is_whitespace),
                    });
                    if all_words {
                        me
                    } else {
                        sapp(name, vec![me])
                    }
                }
            },
            "trim_start_matches" | "trim_end_matches" | "trim_matches" => match (known, a(0)) {
                (Some(k), pat) => {
                    let mut cs: Vec<char> = k.chars().collect();
                    if let Some(ps) = self.pat_str(&pat).filter(|p| p.chars().count() > 1) {
                        let mut s = k.as_str();
                        if name != "trim_end_matches" {
                            s = s.trim_start_matches(ps.as_str());
                        }
                        if name != "trim_start_matches" {
                            s = s.trim_end_matches(ps.as_str());
                        }
                        return Ok(Some(lit(s)));
                    }
                    if name != "trim_end_matches" {
                        while !cs.is_empty() && self.char_pat(&pat, cs[0], site)? {
                            cs.remove(0);
                        }
                    }
                    if name != "trim_start_matches" {
                        while !cs.is_empty() && self.char_pat(&pat, cs[cs.len() - 1], site)? {
                            cs.pop();
                        }
                    }
                    lit(&cs.into_iter().collect::<String>())
                }
                (None, pat) => {
                    let pat = self.rv(pat)?;
                    sapp(name, vec![me, pat])
                }
            },
            "strip_prefix" | "strip_suffix" => {
                let pat = self.rv(a(0))?;
                let ps = self.pat_str(&pat);
                match (known, ps) {
                    (Some(k), Some(p)) => {
                        let r = if name == "strip_prefix" { k.strip_prefix(&p) } else { k.strip_suffix(&p) };
                        opt_v(r.map(lit))
                    }
                    (_, Some(p)) => {
                        let sub = self.subst_lits(parts);
                        let hit = match (name, sub.first(), sub.last()) {
                            ("strip_prefix", Some(SP::Lit(s)), _) if s.starts_with(&p) => {
                                let mut o = sub.clone();
                                o[0] = SP::Lit(s[p.len()..].into());
                                Some(o)
                            }
                            ("strip_suffix", _, Some(SP::Lit(s))) if s.ends_with(&p) => {
                                let mut o = sub.clone();
                                let n = o.len() - 1;
                                o[n] = SP::Lit(s[..s.len() - p.len()].into());
                                Some(o)
                            }
                            _ => None,
                        };
                        match hit {
                            Some(o) => V::some(V::str_parts(o)),
                            None => V::app(name, vec![me, pat], Ty::Adt("Option".into(), vec![Ty::adt("String")])),
                        }
                    }
                    _ => V::app(name, vec![me, pat], Ty::Adt("Option".into(), vec![Ty::adt("String")])),
                }
            }
            "split" | "splitn" | "split_once" | "rsplit_once" | "rsplit" | "rsplitn" | "split_terminator" | "split_inclusive" => {
                let (max, pat) = if name.ends_with("splitn") {
                    match self.rv(a(0))? {
                        V::Int(n) => (n as usize, a(1)),
                        _ => return self.unsup("splitn", site),
                    }
                } else if name == "split_once" {
                    (2, a(0))
                } else {
                    (usize::MAX, a(0))
                };
                let Some(sep) = self.pat_str(&pat) else {
                    if let (Some(k), "split") = (&known, name) {
                        let mut out = vec![String::new()];
                        for c in k.chars() {
                            if self.char_pat(&pat, c, site)? {
                                out.push(String::new());
                            } else {
                                out.last_mut().unwrap().push(c);
                            }
                        }
                        return Ok(Some(list(out.iter().map(|x| lit(x)).collect())));
                    }
                    return self.unsup("split by pattern", site);
                };
                match self.split_parts(parts, &sep, max) {
                    Some(mut v) => match name {
                        "split_once" => {
                            if v.len() == 2 {
                                let b = V::str_parts(v.pop().unwrap());
                                let x = V::str_parts(v.pop().unwrap());
                                V::some(V::tup(vec![x, b]))
                            } else {
                                V::none()
                            }
                        }
                        "rsplit_once" => {
                            if v.len() >= 2 {
                                let b = V::str_parts(v.pop().unwrap());
                                let mut x = vec![];
                                for (i, p) in v.into_iter().enumerate() {
                                    if i > 0 {
                                        x.push(SP::Lit(sep.as_str().into()));
                                    }
                                    x.extend(p);
                                }
                                V::some(V::tup(vec![V::str_parts(x), b]))
                            } else {
                                V::none()
                            }
                        }
                        "split" | "splitn" => list(v.into_iter().map(V::str_parts).collect()),
                        "rsplit" => list(v.into_iter().rev().map(V::str_parts).collect()),
                        _ => return self.unsup(name, site),
                    },
                    None => V::Iter(Rc::new(IterV::Opaque(
                        term(
                            TermKind::App(name.into(), vec![me, lit(&sep)]),
                            Ty::Adt("Iterator".into(), vec![Ty::adt("String")]),
                        ),
                        0,
                    ))),
                }
            }
            "split_whitespace" | "split_ascii_whitespace" | "lines" => match known {
                Some(k) => {
                    if name == "lines" {
                        list(k.lines().map(lit).collect())
                    } else {
                        list(k.split_whitespace().map(lit).collect())
                    }
                }
                None => {
                    // words of known structure
                    V::Iter(Rc::new(IterV::Opaque(
                        term(TermKind::App(name.into(), vec![me]), Ty::Adt("Iterator".into(), vec![Ty::adt("String")])),
                        0,
                    )))
                }
            },
            "replace" | "replacen" => {
                let (p, q) = (self.pat_str(&a(0)), self.rv(a(1))?);
                match (known, &p, q.as_lit()) {
                    (Some(k), Some(p), Some(q)) if name == "replacen" => match self.rv(a(2))? {
                        V::Int(n) => lit(&k.replacen(p.as_str(), &q, n as usize)),
                        _ => return self.unsup(name, site),
                    },
                    (Some(k), Some(p), Some(q)) => lit(&k.replace(p.as_str(), &q)),
                    (Some(k), None, Some(q)) => {
                        let mut out = String::new();
                        let mut left = match self.rv(a(2))? {
                            V::Int(n) if name == "replacen" => n,
                            _ if name == "replacen" => return self.unsup(name, site),
                            _ => i128::MAX,
                        };
                        for c in k.chars() {
                            if left > 0 && self.char_pat(&a(0), c, site)? {
                                left -= 1;
                                out += &q;
                            } else {
                                out.push(c);
                            }
                        }
                        lit(&out)
                    }
                    _ => {
                        let p = self.rv(a(0))?;
                        sapp(name, vec![me, p, q])
                    }
                }
            }
            "repeat" => match (known, self.rv(a(0))?) {
                (Some(k), V::Int(n)) if n < 1000 => lit(&k.repeat(n as usize)),
                (_, n) => sapp(name, vec![me, n]),
            },
            "rfind" if known.is_some() => {
                let k = known.unwrap_or_default();
                if let Some(p) = self.pat_str(&a(0)) {
                    return Ok(Some(opt_v(k.rfind(&p).map(|i| V::Int(i as i128)))));
                }
                for (i, c) in k.char_indices().rev() {
                    if self.char_pat(&a(0), c, site)? {
                        return Ok(Some(V::some(V::Int(i as i128))));
                    }
                }
                V::none()
            }
            "truncate" if known.is_some() => {
                let mut k = known.unwrap_or_default();
                let (V::Int(n), Some(p)) = (self.rv(a(0))?, place.clone()) else { return self.unsup(name, site) };
                let n = n as usize;
                if n < k.len() {
                    if !k.is_char_boundary(n) {
                        return Err(Ctl::Panic("truncate inside of a character".into(), site.clone()));
                    }
                    k.truncate(n);
                    self.store(&p, lit(&k))?;
                }
                V::Unit
            }
            "find" => match (known, self.pat_str(&a(0))) {
                (Some(k), Some(p)) => opt_v(k.find(&p).map(|i| V::Int(i as i128))),
                (Some(k), None) => {
                    for (i, c) in k.char_indices() {
                        if self.char_pat(&a(0), c, site)? {
                            return Ok(Some(V::some(V::Int(i as i128))));
                        }
                    }
                    V::none()
                }
                _ => {
                    let p = self.rv(a(0))?;
                    V::app("find", vec![me, p], Ty::Adt("Option".into(), vec![Ty::adt("usize")]))
                }
            },
            "get" => {
                // a slice that does not panic
                let i = self.rv(a(0))?;
                match (&known, &i) {
                    (Some(k), V::Range(r)) => {
                        let s = match &r.0 {
                            Some(V::Int(i)) => *i as usize,
                            None => 0,
                            _ => return self.unsup("get", site),
                        };
                        let e = match &r.1 {
                            Some(V::Int(i)) => *i as usize + r.2 as usize,
                            None => k.len(),
                            _ => return self.unsup("get", site),
                        };
                        opt_v(k.get(s..e).map(lit))
                    }
                    _ => V::app("get", vec![me, i], Ty::Adt("Option".into(), vec![Ty::adt("String")])),
                }
            }
            "split_at" => {
                let i = self.rv(a(0))?;
                match (&known, &i) {
                    (Some(k), V::Int(n)) if k.is_char_boundary(*n as usize) => {
                        let (x, y) = k.split_at(*n as usize);
                        V::tup(vec![lit(x), lit(y)])
                    }
                    (Some(_), V::Int(_)) => return Err(Ctl::Panic("split_at out of bounds".into(), site.clone())),
                    _ => {
                        if self.choose(2) == 1 {
                            return Err(Ctl::Panic("split_at not at a character boundary".into(), site.clone()));
                        }
                        V::tup(vec![sapp("split_at.0", vec![me.clone(), i.clone()]), sapp("split_at.1", vec![me, i])])
                    }
                }
            }
            "parse" => {
                let t = match hint {
                    Some(t) if t.head() == "Result" => t.arg(0),
                    Some(t) => t.clone(),
                    None => Ty::Unknown,
                };
                return Ok(Some(self.parse_to(me, &t, site)?));
            }
            "push_str" | "push" | "write_str" | "write_char" | "append" | "extend" | "insert_str" | "insert" | "write_fmt" | "pad" => {
                let Some(p) = place else {
                    return self.unsup("push on a temporary", site);
                };
                let mut x = (**parts).clone();
                match name {
                    "insert_str" | "insert" => {
                        let d = self.display(a(1), site)?;
                        match (self.rv(a(0))?, self.known(parts)) {
                            (V::Int(0), _) => {
                                let mut y = d;
                                y.extend(x);
                                x = y;
                            }
                            (V::Int(n), Some(k)) if k.is_char_boundary(n as usize) => {
                                let mut y = vec![SP::Lit(k[..n as usize].into())];
                                y.extend(d);
                                y.push(SP::Lit(k[n as usize..].into()));
                                x = y;
                            }
                            _ => return self.unsup("insert", site),
                        }
                    }
                    "extend" => {
                        let it = self.iter_of(a(0), site)?;
                        for y in self.drain(it, site)? {
                            x.extend(self.display(y, site)?);
                        }
                    }
                    _ => {
                        // pushing onto a path joins
                        let d = self.display(a(0), site)?;
                        let pushes_path = name == "push" && matches!(self.rv(a(0))?, V::Str(_));
                        if pushes_path {
                            x = path_join(&x, &d);
                            self.store(p, V::str_parts(x))?;
                            return Ok(Some(V::Unit));
                        }
                        if name == "push" && parts.iter().any(|p| matches!(p, SP::Term(t) if is_path_term(*t))) {
                            x.push(SP::Lit("/".into()));
                        }
                        x.extend(d);
                    }
                }
                self.store(p, V::str_parts(x))?;
                if name.starts_with("write") || name == "pad" {
                    V::ok(V::Unit)
                } else {
                    V::Unit
                }
            }
            "pop" => {
                let Some(p) = place else {
                    return self.unsup("pop on a temporary", site);
                };
                match known {
                    Some(k) if k.contains('/') => match path_parent(&k) {
                        Some(q) => {
                            self.store(p, lit(&q))?;
                            V::Bool(true)
                        }
                        None => V::Bool(false),
                    },
                    Some(mut k) => {
                        let c = k.pop();
                        self.store(p, lit(&k))?;
                        opt_v(c.map(V::Char))
                    }
                    None => return self.unsup("pop", site),
                }
            }
            "remove" => {
                let Some(p) = place else {
                    return self.unsup("remove on a temporary", site);
                };
                match (known, self.rv(a(0))?) {
                    (Some(mut k), V::Int(i)) => {
                        if i as usize >= k.len() || !k.is_char_boundary(i as usize) {
                            return Err(Ctl::Panic("remove out of bounds".into(), site.clone()));
                        }
                        let c = k.remove(i as usize);
                        self.store(p, lit(&k))?;
                        V::Char(c)
                    }
                    _ => {
                        if self.choose(2) == 1 {
                            return Err(Ctl::Panic("remove at a position that need not exist".into(), site.clone()));
                        }
                        self.store(p, sapp("removed", vec![me.clone()]))?;
                        V::app("removed-char", vec![me], Ty::adt("char"))
                    }
                }
            }
            "clear" => {
                if let Some(p) = place {
                    self.store(p, lit(""))?;
                }
                V::Unit
            }
            "retain" => {
                let Some(p) = place else {
                    return self.unsup("retain on a temporary", site);
                };
                match known {
                    Some(k) => {
                        let mut o = String::new();
                        for c in k.chars() {
                            if self.char_pat(&a(0), c, site)? {
                                o.push(c);
                            }
                        }
                        self.store(p, lit(&o))?;
                    }
                    None => {
                        let f = self.rv(a(0))?;
                        self.store(p, sapp("retain", vec![me, f]))?;
                    }
                }
                V::Unit
            }
            "is_absolute" | "has_root" if known.is_some() => V::Bool(known.unwrap().starts_with('/')),
            "is_relative" if known.is_some() => V::Bool(!known.unwrap().starts_with('/')),
            "is_char_boundary" if known.is_some() && matches!(self.rv(a(0))?, V::Int(_)) => {
                let V::Int(i) = self.rv(a(0))? else { unreachable!() };
                V::Bool(known.unwrap().is_char_boundary(i as usize))
            }
            "is_char_boundary" | "is_ascii" | "is_absolute" | "is_relative" | "exists" | "is_file" | "is_dir" | "has_root" => V::app(name, vec![me], Ty::adt("bool")),
            // paths
            "join" => {
                let d = self.display(a(0), site)?;
                V::str_parts(path_join(parts, &d))
            }
            "parent" if known.is_some() => opt_v(path_parent(&known.unwrap()).map(|p| lit(&p))),
            "file_name" if known.is_some() => {
                let k = known.unwrap();
                let f = k.rsplit('/').next().unwrap_or("").to_string();
                if f.is_empty() || f == ".." {
                    V::none()
                } else {
                    V::some(lit(&f))
                }
            }
            "with_file_name" if known.is_some() => {
                let d = self.display(a(0), site)?;
                let q = path_parent(&known.unwrap()).unwrap_or_default();
                V::str_parts(path_join(&[SP::Lit(q.as_str().into())], &d))
            }
            "canonicalize" if known.is_some() => {
                let k = known.unwrap();
                let hooks = self.hooks.clone();
                match hooks.call(self, "#canonicalize", &[lit(&k)], site) {
                    Some(r) => r?,
                    None => V::ok(lit(&path_norm(&k))),
                }
            }
            "parent" => V::app("parent", vec![me], Ty::Adt("Option".into(), vec![Ty::adt("PathBuf")])),
            "canonicalize" => V::app("canonicalize", vec![me], Ty::Adt("Result".into(), vec![Ty::adt("PathBuf"), Ty::adt("Error")])),
            "file_name" | "extension" | "file_stem" => V::app(name, vec![me], Ty::Adt("Option".into(), vec![Ty::adt("String")])),
            "fmt" => {
                if let V::Mut(p) = a(0) {
                    let cur = self.load(&p)?;
                    let mut d = self.display(cur, site)?;
                    d.extend((**parts).clone());
                    self.store(&p, V::str_parts(d))?;
                    V::ok(V::Unit)
                } else {
                    return self.unsup("fmt", site);
                }
            }
            "to_tokens" => {
                let t = self.to_tokens(me, site)?;
                return Ok(Some(self.append_to(&a(0), t, site)?));
            }
            "capacity" | "reserve" | "shrink_to_fit" => V::Unit,
            _ => return Ok(None),
        };
        Ok(Some(r))
    }

    fn append_to(&mut self, dst: &V, t: Vec<Tk>, site: &Site) -> R<V> {
        if let V::Mut(p) = dst {
            let p = self.deref_place(p);
            if let V::Tokens(old) = self.load(&p)? {
                let mut x = (*old).clone();
                x.extend(t);
                self.store(&p, V::tokens(x))?;
                return Ok(V::Unit);
            }
        }
        self.unsup("append to tokens", site)
    }

    fn chars_of(&mut self, parts: &[SP]) -> V {
        let parts = self.subst_lits(parts);
        let mut it: Option<IterV> = None;
        for p in parts {
            let n = match p {
                SP::Lit(s) => {
                    let v: Vec<V> = s.chars().map(V::Char).collect();
                    let n = v.len();
                    IterV::List(Rc::new(v), 0, n)
                }
                SP::Term(t) => IterV::Opaque(
                    term(
                        TermKind::App("chars".into(), vec![V::Str(Rc::new(vec![SP::Term(t)]))]),
                        Ty::Adt("Iterator".into(), vec![Ty::adt("char")]),
                    ),
                    0,
                ),
            };
            it = Some(match it {
                None => n,
                Some(i) => IterV::Chain(Box::new(i), Box::new(n)),
            });
        }
        V::Iter(Rc::new(it.unwrap_or(IterV::List(Rc::new(vec![]), 0, 0))))
    }

    pub fn str_test(&mut self, parts: &[SP], name: &str, pat: &V, site: &Site) -> R<bool> {
        let sub = self.subst_lits(parts);
        let pat = self.rv(pat.clone())?;
        if let Some(k) = sp_lit(&sub) {
            if let Some(p) = self.pat_str(&pat) {
                return Ok(match name {
                    "starts_with" => k.starts_with(&p),
                    "ends_with" => k.ends_with(&p),
                    _ => k.contains(&p),
                });
            }
            let cs: Vec<char> = match name {
                "starts_with" => k.chars().next().into_iter().collect(),
                "ends_with" => k.chars().last().into_iter().collect(),
                _ => k.chars().collect(),
            };
            for c in cs {
                if self.char_pat(&pat, c, site)? {
                    return Ok(true);
                }
            }
            return Ok(false);
        }
        if let Some(p) = self.pat_str(&pat) {
            match (name, sub.first(), sub.last()) {
                ("starts_with", Some(SP::Lit(s)), _) if s.len() >= p.len() => return Ok(s.starts_with(&p)),
                ("ends_with", _, Some(SP::Lit(s))) if s.len() >= p.len() => return Ok(s.ends_with(&p)),
                ("contains", _, _) => {
                    if sub.iter().any(|x| matches!(x, SP::Lit(s) if s.contains(&p))) {
                        return Ok(true);
                    }
                    let words = sub.iter().all(|x| match x {
                        SP::Lit(_) => true,
                        SP::Term(t) => is_ncname(*t) || self.is_word(*t),
                    });
                    if words && p.chars().all(|c| c == ':' || c.is_whitespace()) {
                        return Ok(false);
                    }
                }
                _ => {}
            }
        }
        let t = term(
            TermKind::App(name.into(), vec![V::Str(Rc::new(sub)), pat]),
            Ty::adt("bool"),
        );
        Ok(self.decide(t))
    }

    /// `str::parse` into the given type.
    pub fn parse_to(&mut self, s: V, t: &Ty, site: &Site) -> R<V> {
        let k = self.key.clone();
        let t = match self.prog.inferred.borrow().get(&(k.0.to_string(), k.1, k.2)) {
            Some(x) if t.head() == "?" => x.clone(),
            _ => t.clone(),
        };
        let t = &t;
        let h = t.head().to_string();
        if h == "?" {
            let a = vec![s, lit(&k.0), V::Int(k.1 as i128), V::Int(k.2 as i128)];
            return Ok(V::ok(V::app("parsed:?", a, Ty::Unknown)));
        }
        if let Some(f) = self.prog.trait_method(&h, "FromStr", "from_str") {
            return self.call_fn(&f, vec![s], BTreeMap::new());
        }
        if t.is_str() {
            return Ok(V::ok(s));
        }
        if let V::Str(p) = &s {
            // printing and parsing of the same type are inverse
            if let [SP::Term(x)] = p.as_slice() {
                if let TermKind::App(n, a) = &get_term(*x).kind {
                    if n == "display" && a.len() == 1 {
                        let from = self.ty_of(&a[0]);
                        if from.head() == h {
                            return Ok(V::ok(a[0].clone()));
                        }
                    }
                }
            }
            if let Some(k) = self.known(p) {
                if t.is_int() {
                    if let Ok(i) = k.parse::<i128>() {
                        let bits: u32 = h[1..].parse().unwrap_or(64);
                        let (lo, hi) = match (h.starts_with('u'), bits) {
                            (_, 128) => (i128::MIN, i128::MAX),
                            (true, b) => (0, (1i128 << b) - 1),
                            (false, b) => (-(1i128 << (b - 1)), (1i128 << (b - 1)) - 1),
                        };
                        if i >= lo && i <= hi && !(h.starts_with('u') && k.starts_with('-')) {
                            return Ok(V::ok(V::Int(i)));
                        }
                    }
                    return Ok(V::err(V::app("parse-error", vec![s], Ty::adt("ParseIntError"))));
                }
                if h.ends_with("Decimal") {
                    match crate::spec::known_decimal(&k) {
                        Some(true) => return Ok(V::ok(V::app("decimal", vec![s], t.clone()))),
                        Some(false) => return Ok(V::err(V::app("parse-error", vec![s], Ty::adt("ParseError")))),
                        None => {}
                    }
                }
                if h == "bool" {
                    return Ok(match k.as_str() {
                        "true" => V::ok(V::Bool(true)),
                        "false" => V::ok(V::Bool(false)),
                        _ => V::err(V::app("parse-error", vec![s], Ty::adt("ParseBoolError"))),
                    });
                }
            }
        }
        let ety = match h.as_str() {
            "bool" => "ParseBoolError",
            "f32" | "f64" => "ParseFloatError",
            _ if t.is_int() => "ParseIntError",
            _ => "ParseError",
        };
        Ok(V::app(&format!("parse:{}", h), vec![s], Ty::Adt("Result".into(), vec![t.clone(), Ty::adt(ety)])))
    }

    pub fn cmp(&mut self, a: &V, b: &V, site: &Site) -> R<V> {
        if self.eq(a, b, site)? {
            return Ok(ordering("Equal"));
        }
        Ok(if self.lt(a, b, site)? { ordering("Less") } else { ordering("Greater") })
    }

    // ------------------------------------------------------------------ options and results

    fn option_method(&mut self, place: &Option<Place>, recv: &V, name: &str, args: &[V], hint: &Option<Ty>, site: &Site) -> R<Option<V>> {
        let a = |i: usize| args.get(i).cloned().unwrap_or(V::Unit);
        // operations on the place
        match name {
            "take" => {
                let Some(p) = place else {
                    return Ok(Some(recv.clone()));
                };
                self.store(p, V::none())?;
                return Ok(Some(recv.clone()));
            }
            "replace" | "insert" => {
                let Some(p) = place else {
                    return self.unsup("replace on a temporary", site);
                };
                self.store(p, V::some(a(0)))?;
                return Ok(Some(if name == "replace" { recv.clone() } else { place_mut(p, Proj::Pay("Some".into(), "0".into())) }));
            }
            "get_or_insert_with" | "get_or_insert" | "get_or_insert_default" => {
                let Some(p) = place else {
                    return self.unsup("get_or_insert on a temporary", site);
                };
                match self.opt(recv.clone(), site)? {
                    Some(x) => self.store(p, V::some(x))?,
                    None => {
                        let x = match name {
                            "get_or_insert" => a(0),
                            "get_or_insert_default" => V::Default,
                            _ => self.call_value(&a(0), vec![], site)?,
                        };
                        self.store(p, V::some(x))?
                    }
                }
                return Ok(Some(place_mut(p, Proj::Pay("Some".into(), "0".into()))));
            }
            "as_mut" | "iter_mut" | "as_deref_mut" => {
                let o = self.opt(recv.clone(), site)?;
                return Ok(Some(match (o, place) {
                    (Some(x), Some(p)) => {
                        if !matches!(recv, V::Enum(_)) {
                            self.store(p, V::some(x))?;
                        }
                        V::some(place_mut(p, Proj::Pay("Some".into(), "0".into())))
                    }
                    (Some(x), None) => V::some(x),
                    (None, _) => V::none(),
                }));
            }
            "as_ref" | "as_deref" | "clone" | "cloned" | "copied" | "to_owned" | "borrow" | "into" => return Ok(Some(recv.clone())),
            "eq" => return Ok(Some(V::Bool(self.eq(recv, &a(0), site)?))),
            "ne" => return Ok(Some(V::Bool(!self.eq(recv, &a(0), site)?))),
            "cmp" => return Ok(Some(self.cmp(recv, &a(0), site)?)),
            _ => {}
        }
        const ALL: &[&str] = &[
            "is_some", "is_none", "map", "and_then", "or_else", "or", "and", "unwrap", "expect", "unwrap_or", "unwrap_or_else", "unwrap_or_default", "ok_or",
            "ok_or_else", "filter", "flatten", "transpose", "iter", "into_iter", "is_some_and", "is_none_or", "map_or", "map_or_else", "zip", "xor", "inspect",
            "to_tokens", "ok", "then", "copied", "contains", "unzip", "as_slice", "fmt",
        ];
        if !ALL.contains(&name) {
            return Ok(None);
        }
        let o = self.opt(recv.clone(), site)?;
        Ok(Some(match name {
            "is_some" => V::Bool(o.is_some()),
            "is_none" => V::Bool(o.is_none()),
            "map" => match o {
                Some(x) => V::some(self.call_value(&a(0), vec![x], site)?),
                None => V::none(),
            },
            "inspect" => {
                if let Some(x) = &o {
                    self.call_value(&a(0), vec![x.clone()], site)?;
                }
                opt_v(o)
            }
            "and_then" => match o {
                Some(x) => self.call_value(&a(0), vec![x], site)?,
                None => V::none(),
            },
            "or_else" => match o {
                Some(x) => V::some(x),
                None => self.call_value(&a(0), vec![], site)?,
            },
            "or" => match o {
                Some(x) => V::some(x),
                None => a(0),
            },
            "xor" => {
                let q = self.opt(a(0), site)?;
                match (o, q) {
                    (Some(x), None) | (None, Some(x)) => V::some(x),
                    _ => V::none(),
                }
            }
            "and" => match o {
                Some(_) => a(0),
                None => V::none(),
            },
            "unwrap" | "expect" => match o {
                Some(x) => x,
                None => return Err(Ctl::Panic(format!("{} on None", name), site.clone())),
            },
            "unwrap_or" => match o {
                Some(x) => x,
                None => a(0),
            },
            "unwrap_or_else" => match o {
                Some(x) => x,
                None => self.call_value(&a(0), vec![], site)?,
            },
            "unwrap_or_default" => match o {
                Some(x) => x,
                None => {
                    let t = match recv {
                        V::Sym(t) => term_ty(*t).arg(0),
                        _ => hint.clone().unwrap_or(Ty::Unknown),
                    };
                    self.default_of(&t, site)?
                }
            },
            "ok_or" => match o {
                Some(x) => V::ok(x),
                None => V::err(a(0)),
            },
            "ok_or_else" => match o {
                Some(x) => V::ok(x),
                None => V::err(self.call_value(&a(0), vec![], site)?),
            },
            "filter" => match o {
                Some(x) => {
                    let c = self.call_value(&a(0), vec![x.clone()], site)?;
                    if self.truth(c, site)? {
                        V::some(x)
                    } else {
                        V::none()
                    }
                }
                None => V::none(),
            },
            "is_some_and" | "is_none_or" => match o {
                Some(x) => {
                    let c = self.call_value(&a(0), vec![x], site)?;
                    V::Bool(self.truth(c, site)?)
                }
                None => V::Bool(name == "is_none_or"),
            },
            "map_or" => match o {
                Some(x) => self.call_value(&a(1), vec![x], site)?,
                None => a(0),
            },
            "map_or_else" => match o {
                Some(x) => self.call_value(&a(1), vec![x], site)?,
                None => self.call_value(&a(0), vec![], site)?,
            },
            "flatten" => match o {
                Some(x) => x,
                None => V::none(),
            },
            "transpose" => match o {
                Some(x) => match self.res(x, site)? {
                    Ok(y) => V::ok(V::some(y)),
                    Err(e) => V::err(e),
                },
                None => V::ok(V::none()),
            },
            "zip" => {
                let q = self.opt(a(0), site)?;
                match (o, q) {
                    (Some(x), Some(y)) => V::some(V::tup(vec![x, y])),
                    _ => V::none(),
                }
            }
            "iter" | "into_iter" => {
                let v: Vec<V> = o.into_iter().collect();
                let n = v.len();
                V::Iter(Rc::new(IterV::List(Rc::new(v), 0, n)))
            }
            "to_tokens" => {
                let t = match o {
                    Some(x) => self.to_tokens(x, site)?,
                    None => vec![],
                };
                self.append_to(&a(0), t, site)?
            }
            _ => return self.unsup(format!("Option::{}", name), site),
        }))
    }

    fn result_method(&mut self, recv: &V, name: &str, args: &[V], hint: &Option<Ty>, site: &Site) -> R<Option<V>> {
        let a = |i: usize| args.get(i).cloned().unwrap_or(V::Unit);
        match name {
            "as_ref" | "clone" | "as_deref" | "as_mut" | "into" | "cloned" | "copied" => return Ok(Some(recv.clone())),
            _ => {}
        }
        const ALL: &[&str] = &[
            "is_ok", "is_err", "ok", "err", "map", "map_err", "and_then", "or_else", "unwrap", "expect", "unwrap_or", "unwrap_or_else", "unwrap_or_default",
            "transpose", "iter", "into_iter", "is_ok_and", "is_err_and", "map_or", "map_or_else", "unwrap_err", "expect_err", "inspect", "inspect_err", "and", "or", "flatten",
        ];
        if !ALL.contains(&name) {
            return Ok(None);
        }
        let r = self.res(recv.clone(), site)?;
        Ok(Some(match (name, r) {
            ("is_ok", r) => V::Bool(r.is_ok()),
            ("is_err", r) => V::Bool(r.is_err()),
            ("ok", r) => opt_v(r.ok()),
            ("err", r) => opt_v(r.err()),
            ("map", Ok(x)) => V::ok(self.call_value(&a(0), vec![x], site)?),
            ("map", Err(e)) => V::err(e),
            ("map_err", Ok(x)) => V::ok(x),
            ("map_err", Err(e)) => V::err(self.call_value(&a(0), vec![e], site)?),
            ("inspect", Ok(x)) => {
                self.call_value(&a(0), vec![x.clone()], site)?;
                V::ok(x)
            }
            ("inspect", Err(e)) => V::err(e),
            ("inspect_err", Err(e)) => {
                self.call_value(&a(0), vec![e.clone()], site)?;
                V::err(e)
            }
            ("inspect_err", Ok(x)) => V::ok(x),
            ("and_then", Ok(x)) => self.call_value(&a(0), vec![x], site)?,
            ("and_then", Err(e)) => V::err(e),
            ("and", Ok(_)) => a(0),
            ("and", Err(e)) => V::err(e),
            ("or_else", Ok(x)) => V::ok(x),
            ("or_else", Err(e)) => self.call_value(&a(0), vec![e], site)?,
            ("or", Ok(x)) => V::ok(x),
            ("or", Err(_)) => a(0),
            ("unwrap", Ok(x)) | ("expect", Ok(x)) => x,
            ("unwrap", Err(_)) | ("expect", Err(_)) => return Err(Ctl::Panic(format!("{} on Err", name), site.clone())),
            ("unwrap_err", Err(x)) | ("expect_err", Err(x)) => x,
            ("unwrap_err", Ok(_)) | ("expect_err", Ok(_)) => return Err(Ctl::Panic(format!("{} on Ok", name), site.clone())),
            ("unwrap_or", Ok(x)) => x,
            ("unwrap_or", Err(_)) => a(0),
            ("unwrap_or_else", Ok(x)) => x,
            ("unwrap_or_else", Err(e)) => self.call_value(&a(0), vec![e], site)?,
            ("unwrap_or_default", Ok(x)) => x,
            ("unwrap_or_default", Err(_)) => {
                let t = match recv {
                    V::Sym(t) => term_ty(*t).arg(0),
                    _ => hint.clone().unwrap_or(Ty::Unknown),
                };
                self.default_of(&t, site)?
            }
            ("transpose", Ok(x)) => match self.opt(x, site)? {
                Some(y) => V::some(V::ok(y)),
                None => V::none(),
            },
            ("transpose", Err(e)) => V::some(V::err(e)),
            ("flatten", Ok(x)) => x,
            ("flatten", Err(e)) => V::err(e),
            ("is_ok_and", Ok(x)) | ("is_err_and", Err(x)) => {
                let c = self.call_value(&a(0), vec![x], site)?;
                V::Bool(self.truth(c, site)?)
            }
            ("is_ok_and", Err(_)) | ("is_err_and", Ok(_)) => V::Bool(false),
            ("map_or", Ok(x)) => self.call_value(&a(1), vec![x], site)?,
            ("map_or", Err(_)) => a(0),
            ("map_or_else", Ok(x)) => self.call_value(&a(1), vec![x], site)?,
            ("map_or_else", Err(e)) => self.call_value(&a(0), vec![e], site)?,
            ("iter", r) | ("into_iter", r) => {
                let v: Vec<V> = r.ok().into_iter().collect();
                let n = v.len();
                V::Iter(Rc::new(IterV::List(Rc::new(v), 0, n)))
            }
            _ => return self.unsup(format!("Result::{}", name), site),
        }))
    }

    // ------------------------------------------------------------------ sequences and maps

    fn seq_method(&mut self, place: &Option<Place>, s: &Rc<Vec<V>>, name: &str, args: &[V], hint: &Option<Ty>, site: &Site) -> R<Option<V>> {
        let a = |i: usize| args.get(i).cloned().unwrap_or(V::Unit);
        let it = || IterV::List(s.clone(), 0, s.len());
        let idx = |it: &Self, v: V| -> R<Option<usize>> {
            Ok(match it.rv(v)? {
                V::Int(i) => Some(i as usize),
                _ => None,
            })
        };
        let r = match name {
            "iter" | "into_iter" => V::Iter(Rc::new(it())),
            "iter_mut" => match place {
                Some(p) => self.to_iter(V::Mut(Rc::new(p.clone())), site)?,
                None => V::Iter(Rc::new(it())),
            },
            "len" => V::Int(s.len() as i128),
            "is_empty" => V::Bool(s.is_empty()),
            "clone" | "to_vec" | "as_slice" | "to_owned" | "as_ref" | "borrow" | "into" | "into_boxed_slice" | "as_mut_slice" | "into_vec" | "deref" | "into_inner" => V::Seq(s.clone()),
            "as_mut" | "borrow_mut" => match place {
                Some(p) => V::Mut(Rc::new(p.clone())),
                None => V::Seq(s.clone()),
            },
            "first" | "front" => opt_v(s.first().cloned()),
            "last" | "back" => opt_v(s.last().cloned()),
            "get" => match self.rv(a(0))? {
                V::Int(i) => opt_v(s.get(i as usize).cloned()),
                _ => return self.unsup("get", site),
            },
            "first_mut" | "front_mut" | "last_mut" | "back_mut" | "get_mut" => {
                let i = match name {
                    "first_mut" | "front_mut" => 0,
                    "last_mut" | "back_mut" => s.len().wrapping_sub(1),
                    _ => match idx(self, a(0))? {
                        Some(i) => i,
                        None => return self.unsup("get_mut", site),
                    },
                };
                match place {
                    Some(p) if i < s.len() => V::some(place_mut(p, Proj::Index(i))),
                    _ => V::none(),
                }
            }
            "split_first" => match s.split_first() {
                Some((x, r)) => V::some(V::tup(vec![x.clone(), V::seq(r.to_vec())])),
                None => V::none(),
            },
            "split_last" => match s.split_last() {
                Some((x, r)) => V::some(V::tup(vec![x.clone(), V::seq(r.to_vec())])),
                None => V::none(),
            },
            "split_at" => match idx(self, a(0))? {
                Some(i) if i <= s.len() => V::tup(vec![V::seq(s[..i].to_vec()), V::seq(s[i..].to_vec())]),
                Some(_) => return Err(Ctl::Panic("split_at out of bounds".into(), site.clone())),
                None => return self.unsup("split_at", site),
            },
            "contains" => {
                for x in s.iter() {
                    if self.eq(x, &a(0), site)? {
                        return Ok(Some(V::Bool(true)));
                    }
                }
                V::Bool(false)
            }
            "concat" => {
                let mut out = vec![];
                for x in s.iter() {
                    match self.rv(x.clone())? {
                        V::Seq(y) => out.extend(y.iter().cloned()),
                        V::Str(_) => return Ok(Some(self.join(s, lit(""), site)?)),
                        _ => return self.unsup("concat", site),
                    }
                }
                V::seq(out)
            }
            "join" => self.join(s, a(0), site)?,
            "eq" => V::Bool(self.eq(&V::Seq(s.clone()), &a(0), site)?),
            "ne" => V::Bool(!self.eq(&V::Seq(s.clone()), &a(0), site)?),
            "windows" | "chunks" => match idx(self, a(0))? {
                Some(n) if n > 0 => {
                    let v: Vec<V> = if name == "windows" {
                        s.windows(n).map(|w| V::seq(w.to_vec())).collect()
                    } else {
                        s.chunks(n).map(|w| V::seq(w.to_vec())).collect()
                    };
                    let n = v.len();
                    V::Iter(Rc::new(IterV::List(Rc::new(v), 0, n)))
                }
                _ => return self.unsup(name, site),
            },
            "reserve" | "shrink_to_fit" | "capacity" => V::Unit,
            "to_tokens" => {
                let mut t = vec![];
                for x in s.iter() {
                    t.extend(self.to_tokens(x.clone(), site)?);
                }
                self.append_to(&a(0), t, site)?
            }
            "starts_with" | "ends_with" => {
                let o = self.rv(a(0))?;
                let V::Seq(o) = &o else {
                    return self.unsup(name, site);
                };
                if o.len() > s.len() {
                    return Ok(Some(V::Bool(false)));
                }
                let part = if name == "starts_with" { s[..o.len()].to_vec() } else { s[s.len() - o.len()..].to_vec() };
                V::Bool(self.eq(&V::seq(part), &V::Seq(o.clone()), site)?)
            }
            "binary_search" | "binary_search_by" | "binary_search_by_key" => {
                for (i, x) in s.iter().enumerate() {
                    let o = match name {
                        "binary_search" => self.cmp(x, &a(0), site)?,
                        "binary_search_by" => self.call_value(&a(0), vec![x.clone()], site)?,
                        _ => {
                            let k = self.call_value(&a(1), vec![x.clone()], site)?;
                            self.cmp(&k, &a(0), site)?
                        }
                    };
                    let o = self.rv(o)?;
                    match &o {
                        V::Enum(e) if &*e.variant == "Less" => {}
                        V::Enum(e) if &*e.variant == "Equal" => return Ok(Some(V::ok(V::Int(i as i128)))),
                        V::Enum(_) => return Ok(Some(V::err(V::Int(i as i128)))),
                        _ => return self.unsup(name, site),
                    }
                }
                V::err(V::Int(s.len() as i128))
            }
            // in place
            "push" | "push_back" | "push_front" | "pop" | "pop_back" | "pop_front" | "insert" | "remove" | "swap_remove" | "swap_remove_front" | "swap_remove_back"
            | "clear" | "extend" | "append"
            | "retain" | "truncate" | "drain" | "sort" | "sort_unstable" | "sort_by_key" | "sort_by" | "sort_unstable_by" | "sort_unstable_by_key"
            | "sort_by_cached_key" | "dedup" | "dedup_by_key" | "reverse" | "swap" | "extend_from_slice" | "split_off" | "resize" | "rotate_left" | "rotate_right" | "fill" | "put" | "write_all" => {
                let mut v = (**s).clone();
                let mut ret = V::Unit;
                match name {
                    "push" | "push_back" | "put" => v.push(a(0)),
                    "push_front" => v.insert(0, a(0)),
                    "pop" | "pop_back" => ret = opt_v(v.pop()),
                    "pop_front" => ret = opt_v(if v.is_empty() { None } else { Some(v.remove(0)) }),
                    "insert" => match idx(self, a(0))? {
                        Some(i) if i <= v.len() => v.insert(i, a(1)),
                        Some(_) => return Err(Ctl::Panic("insert out of bounds".into(), site.clone())),
                        None => return self.unsup("insert", site),
                    },
                    "remove" | "swap_remove" => {
                        let Some(i) = idx(self, a(0))? else {
                            return self.unsup("remove", site);
                        };
                        if i < v.len() {
                            let x = if name == "remove" { v.remove(i) } else { v.swap_remove(i) };
                            // VecDeque::remove yields an option; told apart by the place's declared type
                            ret = if self.is_deque(place) { V::some(x) } else { x };
                        } else if self.is_deque(place) {
                            ret = V::none();
                        } else {
                            return Err(Ctl::Panic("remove out of bounds".into(), site.clone()));
                        }
                    }
                    "swap_remove_front" | "swap_remove_back" => {
                        let Some(i) = idx(self, a(0))? else {
                            return self.unsup(name, site);
                        };
                        ret = if i >= v.len() {
                            V::none()
                        } else if name == "swap_remove_front" {
                            v.swap(0, i);
                            V::some(v.remove(0))
                        } else {
                            V::some(v.swap_remove(i))
                        };
                    }
                    "clear" => v.clear(),
                    "truncate" => match idx(self, a(0))? {
                        Some(i) => v.truncate(i),
                        None => return self.unsup(name, site),
                    },
                    "extend" | "extend_from_slice" => {
                        let i = self.iter_of(a(0), site)?;
                        v.extend(self.drain(i, site)?);
                    }
                    "append" => {
                        let V::Mut(q) = a(0) else {
                            return self.unsup("append", site);
                        };
                        let q = self.deref_place(&q);
                        let o = self.load(&q)?;
                        let o = match o {
                            V::Sym(t) => self.seq_of(t),
                            V::Seq(o) => (*o).clone(),
                            _ => return self.unsup("append", site),
                        };
                        v.extend(o);
                        self.store(&q, V::seq(vec![]))?;
                    }
                    "retain" => {
                        let mut out = vec![];
                        for x in v {
                            let c = self.call_value(&a(0), vec![x.clone()], site)?;
                            if self.truth(c, site)? {
                                out.push(x);
                            }
                        }
                        v = out;
                    }
                    "drain" | "split_off" => {
                        let (s0, e0) = match self.rv(a(0))? {
                            V::Range(r) => {
                                let s0 = match &r.0 {
                                    Some(V::Int(i)) => *i as usize,
                                    None => 0,
                                    _ => return self.unsup(name, site),
                                };
                                let e0 = match &r.1 {
                                    Some(V::Int(i)) => *i as usize + r.2 as usize,
                                    None => v.len(),
                                    _ => return self.unsup(name, site),
                                };
                                (s0, e0)
                            }
                            V::Int(i) => (i as usize, v.len()),
                            _ => return self.unsup(name, site),
                        };
                        if s0 > e0 || e0 > v.len() {
                            return Err(Ctl::Panic(format!("{} out of bounds", name), site.clone()));
                        }
                        let d: Vec<V> = v.drain(s0..e0).collect();
                        ret = if name == "drain" {
                            let n = d.len();
                            V::Iter(Rc::new(IterV::List(Rc::new(d), 0, n)))
                        } else {
                            V::seq(d)
                        };
                    }
                    "reverse" => v.reverse(),
                    "rotate_left" | "rotate_right" => match idx(self, a(0))? {
                        Some(i) if i <= v.len() => {
                            if name == "rotate_left" {
                                v.rotate_left(i)
                            } else {
                                v.rotate_right(i)
                            }
                        }
                        Some(_) => return Err(Ctl::Panic("rotate out of bounds".into(), site.clone())),
                        None => return self.unsup(name, site),
                    },
                    "swap" => match (idx(self, a(0))?, idx(self, a(1))?) {
                        (Some(i), Some(j)) if i < v.len() && j < v.len() => v.swap(i, j),
                        _ => return Err(Ctl::Panic("swap out of bounds".into(), site.clone())),
                    },
                    "dedup" | "dedup_by_key" => {
                        let mut out: Vec<(V, V)> = vec![];
                        for x in v {
                            let k = if name == "dedup" { x.clone() } else { self.call_value(&a(0), vec![x.clone()], site)? };
                            if let Some((l, _)) = out.last().cloned() {
                                if self.eq(&l, &k, site)? {
                                    continue;
                                }
                            }
                            out.push((k, x));
                        }
                        v = out.into_iter().map(|x| x.1).collect();
                    }
                    n if n.starts_with("sort") => {
                        let how = if n.contains("by_key") || n.contains("by_cached_key") {
                            "by_key"
                        } else if n.contains("by") {
                            "by"
                        } else {
                            ""
                        };
                        v = self.sort(v, how, args, site)?;
                    }
                    _ => return self.unsup(name, site),
                }
                let Some(p) = place else {
                    return self.unsup(format!("{} on a temporary", name), site);
                };
                self.store(p, V::seq(v))?;
                ret
            }
            _ => return self.iter_method(&None, it(), name, args, hint, site),
        };
        Ok(Some(r))
    }

    fn is_deque(&self, p: &Option<Place>) -> bool {
        // declared element type of the field: see load.rs (VecDeque is kept as a marker on fields)
        let Some(p) = p else { return false };
        let Some((Proj::Field(n), base)) = p.proj.split_last().map(|(a, b)| (a.clone(), b.to_vec())) else {
            return self.st.ctr.contains_key(&format!("deque:{}", p.cell));
        };
        let b = Place { cell: p.cell, proj: base };
        let Ok(v) = self.load(&b) else { return false };
        let ty = self.ty_of(&v);
        self.prog.deque_fields.contains(&(ty.head().to_string(), n.to_string()))
    }

    fn map_method(&mut self, place: &Option<Place>, m: &Rc<MapV>, name: &str, args: &[V], hint: &Option<Ty>, site: &Site) -> R<Option<V>> {
        let a = |i: usize| args.get(i).cloned().unwrap_or(V::Unit);
        let need = |it: &Self| -> R<Place> {
            match place {
                Some(p) => Ok(p.clone()),
                None => it.unsup(format!("{} on a temporary map", name), site),
            }
        };
        let list = |v: Vec<V>| {
            let n = v.len();
            V::Iter(Rc::new(IterV::List(Rc::new(v), 0, n)))
        };
        let me = V::Map(m.clone());
        let r = match name {
            "clone" | "as_ref" | "borrow" | "to_owned" | "into" => me,
            "as_mut" | "borrow_mut" => match place {
                Some(p) => V::Mut(Rc::new(p.clone())),
                None => me,
            },
            "len" => {
                let it = self.iter_of(me, site)?;
                V::Int(self.drain(it, site)?.len() as i128)
            }
            "is_empty" => {
                if !m.entries.is_empty() {
                    V::Bool(false)
                } else {
                    match m.rest {
                        None => V::Bool(true),
                        Some(t) => {
                            let s = self.seq_of(t);
                            V::Bool(s.is_empty())
                        }
                    }
                }
            }
            "get" | "contains_key" | "contains" | "get_key_value" | "get_mut" => {
                let k = self.rv(a(0))?;
                let found = self.map_find(m, &k, site)?;
                match (found, name) {
                    (Some(_), "contains_key") | (Some(_), "contains") => V::Bool(true),
                    (Some(i), "get") => V::some(if m.is_set { m.entries[i].0.clone() } else { m.entries[i].1.clone() }),
                    (Some(i), "get_key_value") => V::some(V::tup(vec![m.entries[i].0.clone(), m.entries[i].1.clone()])),
                    (Some(i), _) => {
                        let p = need(self)?;
                        V::some(place_mut(&p, Proj::MapVal(i)))
                    }
                    (None, n) => match m.rest {
                        None => {
                            if n.starts_with("contains") {
                                V::Bool(false)
                            } else {
                                V::none()
                            }
                        }
                        Some(t) => {
                            let vt = if m.is_set { term_ty(t).arg(0) } else { term_ty(t).arg(1) };
                            if n.starts_with("contains") {
                                let o = V::app("get", vec![V::Sym(t), k], Ty::Adt("Option".into(), vec![vt]));
                                V::Bool(self.opt(o, site)?.is_some())
                            } else {
                                V::app("get", vec![V::Sym(t), k], Ty::Adt("Option".into(), vec![vt]))
                            }
                        }
                    },
                }
            }
            "insert" | "put" => {
                let p = need(self)?;
                if name == "put" {
                    let k = self.rv(a(0))?;
                    if self.map_find(m, &k, site)?.is_some() {
                        return Ok(Some(V::Bool(false)));
                    }
                }
                let (n, old) = self.map_insert(me, a(0), if m.is_set { V::Unit } else { a(1) }, site)?;
                self.store(&p, n)?;
                if name == "put" {
                    V::Bool(true)
                } else {
                    old
                }
            }
            "replace" => {
                let p = need(self)?;
                let (n, _) = self.map_insert(me, a(0), V::Unit, site)?;
                self.store(&p, n)?;
                V::none()
            }
            "remove" | "take" | "remove_entry" => {
                let p = need(self)?;
                let k = self.rv(a(0))?;
                match self.map_find(m, &k, site)? {
                    Some(i) => {
                        let mut m2 = (**m).clone();
                        let (k, v) = m2.entries.remove(i);
                        self.store(&p, V::Map(Rc::new(m2)))?;
                        if m.is_set {
                            if name == "take" {
                                V::some(k)
                            } else {
                                V::Bool(true)
                            }
                        } else if name == "remove_entry" {
                            V::some(V::tup(vec![k, v]))
                        } else {
                            V::some(v)
                        }
                    }
                    None => {
                        if m.rest.is_some() {
                            return self.unsup("remove from an unknown map", site);
                        }
                        if m.is_set && name == "remove" {
                            V::Bool(false)
                        } else {
                            V::none()
                        }
                    }
                }
            }
            "entry" => {
                let p = need(self)?;
                let k = self.rv(a(0))?;
                let found = self.map_find(m, &k, site)?;
                V::Obj(Rc::new(Obj {
                    kind: "#entry".into(),
                    id: 0,
                    data: vec![
                        V::Mut(Rc::new(p)),
                        k,
                        match found {
                            Some(i) => V::some(V::Int(i as i128)),
                            None => V::none(),
                        },
                    ],
                }))
            }
            "keys" | "into_keys" => {
                let it = self.iter_of(me, site)?;
                let v = self.drain(it, site)?;
                list(v.into_iter().map(|x| if m.is_set { x } else { x.field("0").unwrap_or(V::Unit) }).collect())
            }
            "values" | "into_values" => {
                let it = self.iter_of(me, site)?;
                let v = self.drain(it, site)?;
                list(v.into_iter().map(|x| x.field("1").unwrap_or(V::Unit)).collect())
            }
            "values_mut" => {
                let p = need(self)?;
                let items = self.map_items(m, site)?;
                list(items.into_iter().map(|(i, _, _)| place_mut(&p, Proj::MapVal(i))).collect())
            }
            "iter_mut" => {
                let p = need(self)?;
                self.to_iter(V::Mut(Rc::new(p)), site)?
            }
            "iter" | "into_iter" => self.to_iter(me, site)?,
            "drain" => {
                let p = need(self)?;
                let it = self.to_iter(me, site)?;
                let mut m2 = (**m).clone();
                m2.entries.clear();
                self.store(&p, V::Map(Rc::new(m2)))?;
                it
            }
            "clear" => {
                let p = need(self)?;
                let mut m2 = (**m).clone();
                m2.entries.clear();
                m2.rest = None;
                self.store(&p, V::Map(Rc::new(m2)))?;
                V::Unit
            }
            "extend" => {
                let p = need(self)?;
                let it = self.iter_of(a(0), site)?;
                let v = self.drain(it, site)?;
                let mut cur = me;
                for x in v {
                    let x = self.rv(x)?;
                    let (k, v) = if m.is_set {
                        (x, V::Unit)
                    } else {
                        match (x.field("0"), x.field("1")) {
                            (Some(k), Some(v)) => (k, v),
                            _ => return self.unsup("extend", site),
                        }
                    };
                    cur = self.map_insert(cur, k, v, site)?.0;
                }
                self.store(&p, cur)?;
                V::Unit
            }
            "append" => {
                let p = need(self)?;
                let V::Mut(q) = a(0) else {
                    return self.unsup("append", site);
                };
                let V::Map(o) = self.load(&q)? else {
                    return self.unsup("append", site);
                };
                let mut cur = me;
                for (k, v) in o.entries.iter() {
                    cur = self.map_insert(cur, k.clone(), v.clone(), site)?.0;
                }
                self.store(&p, cur)?;
                let mut e = (*o).clone();
                e.entries.clear();
                self.store(&q, V::Map(Rc::new(e)))?;
                V::Unit
            }
            "retain" => {
                let p = need(self)?;
                let mut m2 = (**m).clone();
                m2.entries.clear();
                for (k, v) in m.entries.iter() {
                    let args = if m.is_set { vec![k.clone()] } else { vec![k.clone(), v.clone()] };
                    let c = self.call_value(&a(0), args, site)?;
                    if self.truth(c, site)? {
                        m2.entries.push((k.clone(), v.clone()));
                    }
                }
                self.store(&p, V::Map(Rc::new(m2)))?;
                V::Unit
            }
            "first" | "first_key_value" | "last" | "last_key_value" | "pop_first" | "pop_last" => {
                let it = self.iter_of(me, site)?;
                let v = self.drain(it, site)?;
                let x = if name.contains("first") { v.first() } else { v.last() }.cloned();
                if name.starts_with("pop") {
                    if let Some(x) = &x {
                        let p = need(self)?;
                        let k = if m.is_set { x.clone() } else { x.field("0").unwrap_or(V::Unit) };
                        let mut m2 = (**m).clone();
                        m2.entries.retain(|e| e.0 != k);
                        self.store(&p, V::Map(Rc::new(m2)))?;
                    }
                }
                opt_v(x)
            }
            "union" | "difference" | "intersection" => {
                let it = self.iter_of(me, site)?;
                let x = self.drain(it, site)?;
                let V::Map(o) = self.rv(a(0))? else {
                    return self.unsup(name, site);
                };
                let mut out = vec![];
                for y in x {
                    let inn = self.map_find(&o, &y, site)?.is_some();
                    if name == "union" || inn == (name == "intersection") {
                        out.push(y);
                    }
                }
                if name == "union" {
                    for (k, _) in o.entries.iter() {
                        if self.map_find(m, k, site)?.is_none() {
                            out.push(k.clone());
                        }
                    }
                    if m.order == Order::Sorted {
                        out = self.sort(out, "", &[], site)?;
                    }
                }
                list(out)
            }
            "is_subset" | "is_disjoint" | "is_superset" => {
                let V::Map(o) = self.rv(a(0))? else {
                    return self.unsup(name, site);
                };
                if m.rest.is_some() || o.rest.is_some() {
                    return self.unsup(name, site);
                }
                let (x, y) = if name == "is_superset" { (o, m.clone()) } else { (m.clone(), o) };
                let mut r = true;
                for (k, _) in x.entries.iter() {
                    let inn = self.map_find(&y, k, site)?.is_some();
                    r &= inn != (name == "is_disjoint");
                }
                V::Bool(r)
            }
            "range" if !m.is_set || m.order == Order::Sorted => {
                let V::Range(r) = self.rv(a(0))? else {
                    return self.unsup(name, site);
                };
                let it = self.iter_of(me, site)?;
                let mut out = vec![];
                for x in self.drain(it, site)? {
                    let k = if m.is_set { x.clone() } else { x.field("0").unwrap_or(V::Unit) };
                    let k = self.rv(k)?;
                    let above = match &r.0 {
                        Some(lo) => !self.lt(&k, lo, site)?,
                        None => true,
                    };
                    let below = match (&r.1, r.2) {
                        (Some(hi), true) => !self.lt(hi, &k, site)?,
                        (Some(hi), false) => self.lt(&k, hi, site)?,
                        (None, _) => true,
                    };
                    if above && below {
                        out.push(x);
                    }
                }
                list(out)
            }
            "eq" => V::Bool(self.eq(&me, &a(0), site)?),
            "reserve" => V::Unit,
            _ => {
                let _ = hint;
                return Ok(None);
            }
        };
        Ok(Some(r))
    }

    fn entry_method(&mut self, o: &Obj, name: &str, args: &[V], site: &Site) -> R<V> {
        let V::Mut(p) = &o.data[0] else {
            return self.unsup("entry", site);
        };
        let found = self.opt(o.data[2].clone(), site)?;
        let a = |i: usize| args.get(i).cloned().unwrap_or(V::Unit);
        match name {
            "or_default" | "or_insert" | "or_insert_with" | "or_insert_with_key" | "insert_entry" => {
                let i = match found {
                    Some(V::Int(i)) => i as usize,
                    _ => {
                        let v = match name {
                            "or_default" => {
                                let t = self.map_val_ty(p);
                                self.default_of(&t, site)?
                            }
                            "or_insert" => a(0),
                            "or_insert_with" => self.call_value(&a(0), vec![], site)?,
                            _ => self.call_value(&a(0), vec![o.data[1].clone()], site)?,
                        };
                        let V::Map(m) = self.load(p)? else {
                            return self.unsup("entry", site);
                        };
                        let mut m2 = (*m).clone();
                        m2.entries.push((o.data[1].clone(), v));
                        let i = m2.entries.len() - 1;
                        self.store(p, V::Map(Rc::new(m2)))?;
                        i
                    }
                };
                Ok(place_mut(p, Proj::MapVal(i)))
            }
            "and_modify" => {
                if let Some(V::Int(i)) = found {
                    let r = place_mut(p, Proj::MapVal(i as usize));
                    self.call_value(&a(0), vec![r], site)?;
                }
                Ok(V::Obj(Rc::new(o.clone())))
            }
            "key" => Ok(o.data[1].clone()),
            _ => self.unsup(format!("entry.{}", name), site),
        }
    }

    fn map_val_ty(&self, p: &Place) -> Ty {
        // declared type of the field the map lives in
        let Some((Proj::Field(n), base)) = p.proj.split_last().map(|(a, b)| (a.clone(), b.to_vec())) else {
            return Ty::Unknown;
        };
        let b = Place { cell: p.cell, proj: base };
        let Ok(v) = self.load(&b) else { return Ty::Unknown };
        let ty = self.ty_of(&v);
        self.prog
            .structs
            .get(ty.head())
            .and_then(|s| s.fields.iter().find(|f| f.name == *n))
            .map(|f| f.ty.arg(1))
            .unwrap_or(Ty::Unknown)
    }

    // ------------------------------------------------------------------ dispatch

    pub fn builtin(&mut self, place: Option<Place>, recv: V, name: &str, args: Vec<V>, hint: Option<Ty>, site: &Site) -> R<V> {
        if let V::Mut(p) = &recv {
            let p = self.deref_place(p);
            let v = self.load(&p)?;
            return self.builtin(Some(p), v, name, args, hint, site);
        }
        // an unknown sequence or map becomes a known one before it is changed
        if let V::Sym(t) = &recv {
            let h = term_ty(*t).head().to_string();
            if h == "Vec" && !matches!(name, "clone" | "to_vec" | "to_owned" | "as_ref" | "as_slice" | "into") {
                let s = self.seq_of(*t);
                let v = V::seq(s);
                if let Some(p) = &place {
                    self.store(p, v.clone())?;
                }
                return self.builtin(place, v, name, args, hint, site);
            }
            if matches!(h.as_str(), "HashMap" | "BTreeMap" | "HashSet" | "BTreeSet") && !matches!(name, "clone" | "into_iter" | "iter") {
                let V::Map(m) = empty_map(&h) else { unreachable!() };
                let mut m = (*m).clone();
                m.rest = Some(*t);
                let v = V::Map(Rc::new(m));
                if let Some(p) = &place {
                    self.store(p, v.clone())?;
                }
                return self.builtin(place, v, name, args, hint, site);
            }
        }
        let is_opt = |v: &V| match v {
            V::Enum(e) => &*e.path == "Option",
            V::Sym(t) => term_ty(*t).head() == "Option",
            _ => false,
        };
        let is_res = |v: &V| match v {
            V::Enum(e) => &*e.path == "Result",
            V::Sym(t) => term_ty(*t).head() == "Result",
            _ => false,
        };
        let a = |i: usize| args.get(i).cloned().unwrap_or(V::Unit);
        if is_opt(&recv) {
            if let Some(r) = self.option_method(&place, &recv, name, &args, &hint, site)? {
                return Ok(r);
            }
        }
        if is_res(&recv) {
            if let Some(r) = self.result_method(&recv, name, &args, &hint, site)? {
                return Ok(r);
            }
        }
        match &recv {
            V::Default => {
                // only the empty value of the type the operation belongs to is possible
                let v = match name {
                    "push_str" => Some(lit("")),
                    "push" | "extend" | "pop" => Some(V::seq(vec![])),
                    "append_all" | "append" => Some(V::tokens(vec![])),
                    "is_some" | "is_none" | "map" | "unwrap_or" => Some(V::none()),
                    "entry" => Some(empty_map("HashMap")),
                    "clone" => Some(V::Default),
                    _ => None,
                };
                if let Some(v) = v {
                    if matches!(v, V::Default) {
                        return Ok(v);
                    }
                    if let Some(p) = &place {
                        self.store(p, v.clone())?;
                    }
                    return self.builtin(place, v, name, args, hint, site);
                }
            }
            V::Str(p) => {
                if let Some(r) = self.str_method(&place, &p.clone(), name, &args, &hint, site)? {
                    return Ok(r);
                }
            }
            V::Ident(p) => match name {
                "to_string" | "unraw" => return Ok(V::Str(p.clone())),
                "clone" | "to_owned" | "as_ref" | "into" => return Ok(recv.clone()),
                "span" => return Ok(V::var("span", Ty::adt("Span"))),
                "set_span" => return Ok(V::Unit),
                "to_token_stream" | "into_token_stream" => return Ok(V::tokens(self.to_tokens(recv.clone(), site)?)),
                _ => {
                    if let Some(r) = self.str_method(&place, &p.clone(), name, &args, &hint, site)? {
                        return Ok(r);
                    }
                }
            },
            V::Seq(s) => {
                if let Some(r) = self.seq_method(&place, &s.clone(), name, &args, &hint, site)? {
                    return Ok(r);
                }
            }
            V::Map(m) => {
                if let Some(r) = self.map_method(&place, &m.clone(), name, &args, &hint, site)? {
                    return Ok(r);
                }
            }
            V::Iter(i) => {
                if let Some(r) = self.iter_method(&place, (**i).clone(), name, &args, &hint, site)? {
                    return Ok(r);
                }
            }
            V::Range(r) => match name {
                "start" => return Ok(r.0.clone().unwrap_or(V::Int(0))),
                "end" => return Ok(r.1.clone().unwrap_or(V::Int(0))),
                "clone" => return Ok(recv.clone()),
                "contains" => {
                    let x = self.rv(a(0))?;
                    if let Some(l) = &r.0 {
                        if self.lt(&x, l, site)? {
                            return Ok(V::Bool(false));
                        }
                    }
                    if let Some(h) = &r.1 {
                        let below = self.lt(&x, h, site)?;
                        if !below && !(r.2 && self.eq(&x, h, site)?) {
                            return Ok(V::Bool(false));
                        }
                    }
                    return Ok(V::Bool(true));
                }
                _ => {
                    let it = self.iter_of(recv.clone(), site)?;
                    if let Some(r) = self.iter_method(&None, it, name, &args, &hint, site)? {
                        return Ok(r);
                    }
                }
            },
            V::Cell(c) => {
                let p = Place { cell: *c, proj: vec![] };
                match name {
                    "get" | "borrow" | "into_inner" | "lock" | "read" | "get_ref" => return self.load(&p),
                    "borrow_mut" | "get_mut" | "as_ptr" | "write" => return Ok(V::Mut(Rc::new(p))),
                    "set" => {
                        self.store(&p, a(0))?;
                        return Ok(V::Unit);
                    }
                    "replace" => {
                        let o = self.load(&p)?;
                        self.store(&p, a(0))?;
                        return Ok(o);
                    }
                    "take" => {
                        let o = self.load(&p)?;
                        let d = match &o {
                            V::Enum(e) if &*e.path == "Option" => V::none(),
                            V::Seq(_) => V::seq(vec![]),
                            V::Bool(_) => V::Bool(false),
                            V::Str(_) => lit(""),
                            V::Int(_) => V::Int(0),
                            o => {
                                let t = self.ty_of(o);
                                self.default_of(&t, site)?
                            }
                        };
                        self.store(&p, d)?;
                        return Ok(o);
                    }
                    "update" => {
                        let o = self.load(&p)?;
                        let n = self.call_value(&a(0), vec![o], site)?;
                        self.store(&p, n.clone())?;
                        return Ok(n);
                    }
                    "clone" | "as_ref" => return Ok(recv.clone()),
                    _ => {
                        let v = self.load(&p)?;
                        return self.method_dispatch(Some(p), v, name, args, hint, site);
                    }
                }
            }
            V::Tokens(t) => match name {
                "is_empty" => return Ok(V::Bool(t.is_empty())),
                "clone" | "into" | "to_token_stream" | "into_token_stream" | "to_owned" | "as_ref" => return Ok(recv.clone()),
                "append_all" | "extend" | "append" | "append_separated" | "append_terminated" => {
                    let Some(p) = &place else {
                        return self.unsup("append to a temporary", site);
                    };
                    let mut x = (**t).clone();
                    match self.rv(a(0))? {
                        v @ (V::Iter(_) | V::Seq(_)) => {
                            let it = self.iter_of(v, site)?;
                            for (i, y) in self.drain(it, site)?.into_iter().enumerate() {
                                if name == "append_separated" && i > 0 {
                                    x.extend(self.to_tokens(a(1), site)?);
                                }
                                x.extend(self.to_tokens(y, site)?);
                                if name == "append_terminated" {
                                    x.extend(self.to_tokens(a(1), site)?);
                                }
                            }
                        }
                        v => x.extend(self.to_tokens(v, site)?),
                    }
                    self.store(p, V::tokens(x))?;
                    return Ok(V::Unit);
                }
                "to_tokens" => return self.append_to(&a(0), (**t).clone(), site),
                "to_string" => return Ok(V::str_parts(self.display(recv.clone(), site)?)),
                "into_iter" => {
                    let v: Vec<V> = t.iter().map(|x| V::tokens(vec![x.clone()])).collect();
                    let n = v.len();
                    return Ok(V::Iter(Rc::new(IterV::List(Rc::new(v), 0, n))));
                }
                _ => {}
            },
            V::Obj(o) if &*o.kind == "#entry" => return self.entry_method(&o.clone(), name, &args, site),
            V::Bool(_) => {
                if let Some(r) = self.bool_method(&recv, name, &args, site)? {
                    return Ok(r);
                }
            }
            V::Char(c) => match name {
                "to_ascii_uppercase" => return Ok(V::Char(c.to_ascii_uppercase())),
                "to_ascii_lowercase" => return Ok(V::Char(c.to_ascii_lowercase())),
                "to_uppercase" => return Ok(self.chars_list(c.to_uppercase().collect())),
                "to_lowercase" => return Ok(self.chars_list(c.to_lowercase().collect())),
                "len_utf8" => return Ok(V::Int(c.len_utf8() as i128)),
                "to_digit" => {
                    if let V::Int(r @ 2..=36) = self.rv(a(0))? {
                        return Ok(opt_v(c.to_digit(r as u32).map(|d| V::Int(d as i128))));
                    }
                }
                "eq_ignore_ascii_case" => {
                    if let V::Char(d) = self.rv(a(0))? {
                        return Ok(V::Bool(c.eq_ignore_ascii_case(&d)));
                    }
                }
                n if n.starts_with("is_") => return self.char_test(&recv, name, site),
                _ => {}
            },
            V::Int(i) => {
                let i = *i;
                let o = match args.first() {
                    Some(x) => self.rv(x.clone())?,
                    None => V::Unit,
                };
                match (name, &o) {
                    ("saturating_sub", V::Int(j)) => return Ok(V::Int((i - j).max(0))),
                    ("saturating_add", V::Int(j)) | ("wrapping_add", V::Int(j)) => return Ok(V::Int(i + j)),
                    ("checked_sub", V::Int(j)) => return Ok(if i < *j { V::none() } else { V::some(V::Int(i - j)) }),
                    ("checked_add", V::Int(j)) => return Ok(V::some(V::Int(i + j))),
                    ("checked_mul", V::Int(j)) => return Ok(V::some(V::Int(i * j))),
                    ("checked_div", V::Int(j)) => return Ok(if *j == 0 { V::none() } else { V::some(V::Int(i / j)) }),
                    ("wrapping_sub", V::Int(j)) if i >= *j => return Ok(V::Int(i - j)),
                    ("abs_diff", V::Int(j)) => return Ok(V::Int((i - j).abs())),
                    ("div_ceil", V::Int(j)) if *j != 0 => return Ok(V::Int((i + j - 1) / j)),
                    ("is_multiple_of", V::Int(j)) if *j != 0 => return Ok(V::Bool(i % j == 0)),
                    ("clamp", V::Int(j)) => {
                        if let V::Int(k) = self.rv(a(1))? {
                            return Ok(V::Int(i.max(*j).min(k)));
                        }
                    }
                    ("min", V::Int(j)) => return Ok(V::Int(i.min(*j))),
                    ("max", V::Int(j)) => return Ok(V::Int(i.max(*j))),
                    ("pow", V::Int(j)) if *j < 16 => return Ok(V::Int(i.pow(*j as u32))),
                    ("abs", _) => return Ok(V::Int(i.abs())),
                    _ => {}
                }
            }
            V::Sym(t) => {
                let ty = term_ty(*t);
                match ty.head() {
                    "bool" => {
                        if let Some(r) = self.bool_method(&recv, name, &args, site)? {
                            return Ok(r);
                        }
                    }
                    "char" => match name {
                        n if n.starts_with("is_") => return self.char_test(&recv, name, site),
                        "to_ascii_uppercase" | "to_ascii_lowercase" => return Ok(V::app(name, vec![recv.clone()], Ty::adt("char"))),
                        _ => {}
                    },
                    "Iterator" => {
                        if let Some(r) = self.iter_method(&None, IterV::Opaque(*t, 0), name, &args, &hint, site)? {
                            return Ok(r);
                        }
                    }
                    _ => {}
                }
            }
            V::Closure(_) | V::Fn(_) => {
                if matches!(name, "clone" | "as_ref" | "borrow") {
                    return Ok(recv.clone());
                }
            }
            _ => {}
        }
        if let V::Enum(e) = &recv {
            if &*e.path == "Ordering" {
                match name {
                    "reverse" => {
                        return Ok(ordering(match &*e.variant {
                            "Less" => "Greater",
                            "Greater" => "Less",
                            _ => "Equal",
                        }))
                    }
                    "then" => return Ok(if &*e.variant == "Equal" { a(0) } else { recv.clone() }),
                    "then_with" => {
                        return if &*e.variant == "Equal" { self.call_value(&a(0), vec![], site) } else { Ok(recv.clone()) }
                    }
                    "is_lt" => return Ok(V::Bool(&*e.variant == "Less")),
                    "is_gt" => return Ok(V::Bool(&*e.variant == "Greater")),
                    "is_eq" => return Ok(V::Bool(&*e.variant == "Equal")),
                    "is_ne" => return Ok(V::Bool(&*e.variant != "Equal")),
                    "is_le" => return Ok(V::Bool(&*e.variant != "Greater")),
                    "is_ge" => return Ok(V::Bool(&*e.variant != "Less")),
                    _ => {}
                }
            }
        }
        // adaptors of an iterator that is written in the program
        if let V::Struct(st) = &recv {
            if self.prog.trait_method(&st.path, "Iterator", "next").is_some() && !matches!(name, "next" | "clone" | "eq" | "fmt" | "to_string") {
                let it = match &place {
                    Some(p) => IterV::FromFn(V::Mut(Rc::new(p.clone()))),
                    None => self.iter_of(recv.clone(), site)?,
                };
                if name == "by_ref" {
                    return Ok(V::Iter(Rc::new(it)));
                }
                if let Some(r) = self.iter_method(&None, it, name, &args, &hint, site)? {
                    return Ok(r);
                }
            }
        }
        // operations of every type
        match name {
            "clone" => return self.deep_clone(recv),
            "to_owned" | "as_ref" | "borrow" | "as_deref" | "deref" | "cloned" | "copied" | "by_ref" | "as_slice" | "to_vec" | "boxed" => return Ok(recv),
            "as_mut" | "borrow_mut" | "deref_mut" => {
                return Ok(match place {
                    Some(p) => V::Mut(Rc::new(p)),
                    None => recv,
                })
            }
            "try_into" if matches!(recv, V::Seq(_)) => return Ok(V::ok(recv)),
            "into" | "try_into" => {
                return match &hint {
                    Some(t) => {
                        let v = self.coerce(recv, t, site)?;
                        Ok(v)
                    }
                    None => Ok(recv),
                }
            }
            "eq" if args.len() == 1 => return Ok(V::Bool(self.eq(&recv, &a(0), site)?)),
            "ne" if args.len() == 1 => return Ok(V::Bool(!self.eq(&recv, &a(0), site)?)),
            "cmp" if args.len() == 1 => return self.cmp(&recv, &a(0), site),
            "partial_cmp" if args.len() == 1 => {
                let c = self.cmp(&recv, &a(0), site)?;
                return Ok(V::some(c));
            }
            "lt" | "gt" | "le" | "ge" if args.len() == 1 => {
                let b = a(0);
                return Ok(V::Bool(match name {
                    "lt" => self.lt(&recv, &b, site)?,
                    "gt" => self.lt(&b, &recv, site)?,
                    "le" => !self.lt(&b, &recv, site)?,
                    _ => !self.lt(&recv, &b, site)?,
                }));
            }
            "to_string" => return Ok(V::str_parts(self.display(recv, site)?)),
            "fmt" if args.len() == 1 => {
                if let V::Mut(p) = a(0) {
                    let mut d = match self.load(&p)? {
                        V::Str(x) => (*x).clone(),
                        _ => return self.unsup("fmt", site),
                    };
                    d.extend(self.display(recv, site)?);
                    self.store(&p, V::str_parts(d))?;
                    return Ok(V::ok(V::Unit));
                }
            }
            "to_tokens" if args.len() == 1 => {
                let t = self.to_tokens(recv, site)?;
                return self.append_to(&a(0), t, site);
            }
            "to_token_stream" | "into_token_stream" => {
                let t = self.to_tokens(recv, site)?;
                return Ok(V::tokens(t));
            }
            "iter" | "into_iter" if !matches!(recv, V::Obj(_)) => return self.to_iter(recv, site),
            "hash" => return Ok(V::Unit),
            "unwrap_or_default" => {}
            _ => {}
        }
        // methods of a sequence or an option reached through a wrapper of unknown type
        if let V::Sym(t) = &recv {
            let ty = term_ty(*t);
            let h = ty.head().to_string();
            if !self.prog.structs.contains_key(&h) && !self.prog.enums.contains_key(&h) {
                if h == "?" {
                    // unknown type: an option-like use decides
                    if matches!(
                        name,
                        "is_some" | "is_none" | "ok_or_else" | "ok_or" | "unwrap_or_default" | "unwrap_or" | "unwrap_or_else" | "unwrap" | "expect" | "as_deref" | "transpose" | "map" | "and_then" | "or_else" | "is_some_and"
                    ) {
                        if let Some(r) = self.option_method(&place, &recv, name, &args, &hint, site)? {
                            return Ok(r);
                        }
                    }
                    if matches!(name, "map_err" | "is_ok" | "is_err" | "ok" | "err") {
                        if let Some(r) = self.result_method(&recv, name, &args, &hint, site)? {
                            return Ok(r);
                        }
                    }
                }
                let mut all = vec![recv.clone()];
                for x in &args {
                    all.push(self.rv(x.clone())?);
                }
                let ret = match hint {
                    Some(t) => t,
                    None => ext_ret(&h, name),
                };
                return Ok(V::app(&format!(".{}", name), all, ret));
            }
            // error types: `source()` and the like
            let mut all = vec![recv.clone()];
            for x in &args {
                all.push(self.rv(x.clone())?);
            }
            return Ok(V::app(&format!(".{}", name), all, ext_ret(&h, name)));
        }
        self.unsup(format!("method {} of {:?}", name, (self.ty_of(&recv).head().to_string(), brief(&recv))), site)
    }

    /// Cells are copied when their owner is cloned.
    fn deep_clone(&mut self, v: V) -> R<V> {
        Ok(match &v {
            V::Struct(s) => {
                let mut s2 = (**s).clone();
                for f in s2.fields.iter_mut() {
                    if let V::Cell(c) = &f.1 {
                        let x = self.st.store[*c].clone();
                        f.1 = V::Cell(self.alloc(x));
                    }
                }
                V::Struct(Rc::new(s2))
            }
            _ => v,
        })
    }

    fn chars_list(&self, v: Vec<char>) -> V {
        let v: Vec<V> = v.into_iter().map(V::Char).collect();
        let n = v.len();
        V::Iter(Rc::new(IterV::List(Rc::new(v), 0, n)))
    }

    fn bool_method(&mut self, recv: &V, name: &str, args: &[V], site: &Site) -> R<Option<V>> {
        Ok(Some(match name {
            "then" => {
                if self.truth(recv.clone(), site)? {
                    V::some(self.call_value(&args[0], vec![], site)?)
                } else {
                    V::none()
                }
            }
            "then_some" => {
                if self.truth(recv.clone(), site)? {
                    V::some(args[0].clone())
                } else {
                    V::none()
                }
            }
            "not" => V::Bool(!self.truth(recv.clone(), site)?),
            _ => return Ok(None),
        }))
    }

    // ------------------------------------------------------------------ external functions

    pub fn ext_call(&mut self, path: &str, args: Vec<V>, turbofish: Option<Ty>, site: &Site) -> R<V> {
        let a = |i: usize| args.get(i).cloned().unwrap_or(V::Unit);
        let segs: Vec<&str> = path.split("::").collect();
        let name = segs[segs.len() - 1];
        let ty = if segs.len() > 1 { segs[segs.len() - 2] } else { "" };
        match (ty, name) {
            (_, "Some") => return Ok(V::some(a(0))),
            (_, "Ok") => return Ok(V::ok(a(0))),
            (_, "Err") => return Ok(V::err(a(0))),
            ("Box" | "Rc" | "Arc" | "Cow", "new" | "Owned" | "Borrowed" | "from" | "pin" | "clone") => return Ok(a(0)),
            ("Vec" | "VecDeque", "new" | "with_capacity" | "default") => return Ok(V::seq(vec![])),
            ("Vec" | "VecDeque", "from") => {
                let v = self.rv(a(0))?;
                return Ok(match v {
                    V::Str(_) => self.builtin(None, v, "bytes", vec![], None, site)?,
                    v => v,
                });
            }
            ("Vec" | "VecDeque", "from_iter") => {
                let it = self.iter_of(a(0), site)?;
                return Ok(V::seq(self.drain(it, site)?));
            }
            ("HashMap" | "BTreeMap" | "HashSet" | "BTreeSet", "new" | "with_capacity" | "default") => return Ok(empty_map(ty)),
            ("HashMap" | "BTreeMap" | "HashSet" | "BTreeSet", "from" | "from_iter") => {
                let it = self.iter_of(a(0), site)?;
                let v = self.drain(it, site)?;
                return self.seq_to_map(&v, ty, site);
            }
            ("String" | "PathBuf", "new" | "with_capacity" | "default") => return Ok(lit("")),
            ("String" | "str" | "PathBuf" | "Path" | "Cow", "from" | "new" | "from_utf8_lossy" | "from_str") => {
                let v = self.rv(a(0))?;
                return Ok(match v {
                    V::Char(c) => lit(&c.to_string()),
                    v if name == "from_str" => V::ok(v),
                    v => v,
                });
            }
            ("String", "from_iter") => {
                let it = self.iter_of(a(0), site)?;
                let v = self.drain(it, site)?;
                return self.seq_to_str(&v, site);
            }
            ("ToString", "to_string") | ("ToOwned", "to_owned") | ("Clone", "clone") | ("Into", "into") | ("AsRef", "as_ref") => {
                return self.method_on(a(0), name, vec![], None, site)
            }
            ("Cell" | "RefCell" | "OnceCell" | "Mutex", "new" | "from") => return Ok(V::Cell(self.alloc(a(0)))),
            ("Cell" | "RefCell", "default") => return Ok(V::Cell(self.alloc(V::Default))),
            ("mem", "take") | ("mem", "replace") | ("mem", "swap") => {
                let V::Mut(p) = a(0) else {
                    return self.unsup("mem::take of a value", site);
                };
                let p = self.deref_place(&p);
                let old = self.load(&p)?;
                match name {
                    "take" => {
                        let d = match &old {
                            V::Seq(_) => V::seq(vec![]),
                            V::Map(m) => {
                                let mut e = (**m).clone();
                                e.entries.clear();
                                e.rest = None;
                                V::Map(Rc::new(e))
                            }
                            V::Str(_) => lit(""),
                            V::Bool(_) => V::Bool(false),
                            V::Int(_) => V::Int(0),
                            V::Tokens(_) => V::tokens(vec![]),
                            V::Enum(e) if &*e.path == "Option" => V::none(),
                            o => {
                                let t = self.ty_of(o);
                                self.default_of(&t, site)?
                            }
                        };
                        self.store(&p, d)?;
                    }
                    "replace" => self.store(&p, a(1))?,
                    _ => {
                        let V::Mut(q) = a(1) else {
                            return self.unsup("mem::swap", site);
                        };
                        let q = self.deref_place(&q);
                        let o2 = self.load(&q)?;
                        self.store(&p, o2)?;
                        self.store(&q, old)?;
                        return Ok(V::Unit);
                    }
                }
                return Ok(old);
            }
            ("mem", "drop") | ("", "drop") => return Ok(V::Unit),
            ("cmp", "max") | ("cmp", "min") => {
                let (x, y) = (self.rv(a(0))?, self.rv(a(1))?);
                let l = self.lt(&x, &y, site)?;
                return Ok(if l == (name == "max") { y } else { x });
            }
            ("cmp", "Reverse") | ("", "Reverse") => {
                let v = self.rv(a(0))?;
                return Ok(V::en("Reverse", "Reverse", vec![v]));
            }
            ("char", "from" | "from_u32") => {
                let c = match self.rv(a(0))? {
                    V::Int(i) => u32::try_from(i).ok().and_then(char::from_u32),
                    V::Char(c) => Some(c),
                    _ => return self.unsup(path, site),
                };
                return match c {
                    _ if name == "from_u32" => Ok(opt_v(c.map(V::Char))),
                    Some(c) => Ok(V::Char(c)),
                    None => self.unsup(path, site),
                };
            }
            ("char", "from_digit") => {
                let (V::Int(d), V::Int(r @ 2..=36)) = (self.rv(a(0))?, self.rv(a(1))?) else { return self.unsup(path, site) };
                return Ok(opt_v(char::from_digit(d as u32, r as u32).map(V::Char)));
            }
            ("String" | "str", "from_utf8") => {
                let V::Seq(s) = self.rv(a(0))? else { return self.unsup(path, site) };
                let b: Option<Vec<u8>> = s.iter().map(|v| if let V::Int(i) = v { Some(*i as u8) } else { None }).collect();
                let Some(b) = b else { return self.unsup(path, site) };
                return Ok(match String::from_utf8(b) {
                    Ok(s) => V::ok(lit(&s)),
                    Err(_) => V::err(V::var("utf8-error", Ty::adt("FromUtf8Error"))),
                });
            }
            ("convert", "identity") => return Ok(a(0)),
            ("iter", "once") => return Ok(V::Iter(Rc::new(IterV::Once(Some(a(0)))))),
            ("iter", "empty") => return Ok(V::Iter(Rc::new(IterV::List(Rc::new(vec![]), 0, 0)))),
            ("iter", "from_fn") => return Ok(V::Iter(Rc::new(IterV::FromFn(a(0))))),
            ("iter", "successors") => {
                let x = self.opt(a(0), site)?;
                return Ok(V::Iter(Rc::new(IterV::Successors(x, a(1)))));
            }
            ("iter", "repeat") => return Ok(V::Iter(Rc::new(IterV::Repeat(a(0))))),
            ("iter", "zip") => {
                let x = self.iter_of(a(0), site)?;
                let y = self.iter_of(a(1), site)?;
                return Ok(V::Iter(Rc::new(IterV::Zip(Box::new(x), Box::new(y)))));
            }
            ("Default", "default") => {
                return match turbofish {
                    Some(t) => self.default_of(&t, site),
                    None => Ok(V::Default),
                }
            }
            ("TokenStream" | "TokenStream2", "new" | "default") => return Ok(V::tokens(vec![])),
            ("TokenStream" | "TokenStream2", "from") => {
                let t = self.to_tokens(a(0), site)?;
                return Ok(V::tokens(t));
            }
            ("TokenStream" | "TokenStream2", "from_iter") => {
                let it = self.iter_of(a(0), site)?;
                let mut out = vec![];
                for x in self.drain(it, site)? {
                    out.extend(self.to_tokens(x, site)?);
                }
                return Ok(V::tokens(out));
            }
            ("Span", _) => return Ok(V::var("span", Ty::adt("Span"))),
            ("Ident", "new") | ("Ident", "new_raw") => {
                let s = self.rv(a(0))?;
                let p = match &s {
                    V::Str(p) => self.subst_lits(p),
                    _ => return self.unsup("Ident::new", site),
                };
                self.event("ident_new", vec![V::Str(Rc::new(p.clone())), lit(name)], site);
                if let Some(k) = sp_lit(&p) {
                    let bad = if name == "new_raw" { matches!(k.as_str(), "self" | "Self" | "super" | "crate" | "_") || !ident_shape(&k) } else { !ident_shape(&k) };
                    if bad {
                        return Err(Ctl::Panic(format!("`{}` is not a valid identifier", k), site.clone()));
                    }
                }
                let mut p = p;
                if name == "new_raw" {
                    p.insert(0, SP::Lit("r#".into()));
                }
                return Ok(V::Ident(Rc::new(norm_sp(p))));
            }
            ("Literal", "string") | ("LitStr", "new") => return Ok(V::tokens(self.to_tokens(a(0), site)?)),
            ("Literal", "usize_unsuffixed") | ("Literal", "u32_unsuffixed") => return Ok(V::tokens(self.to_tokens(a(0), site)?)),
            ("char", "is_alphabetic" | "is_alphanumeric" | "is_numeric" | "is_whitespace" | "is_uppercase" | "is_lowercase" | "is_ascii_digit" | "is_ascii_alphabetic" | "is_ascii_alphanumeric") => {
                let c = self.rv(a(0))?;
                return self.char_test(&c, name, site);
            }
            ("Display" | "Debug" | "ToTokens" | "Iterator" | "IntoIterator" | "PartialEq" | "Ord" | "PartialOrd" | "Not" | "Inflector" | "Option" | "Result" | "HashMap" | "HashSet" | "BTreeMap" | "BTreeSet" | "Vec" | "str" | "String" | "Cow" | "Path" | "PathBuf" | "VecDeque" | "char" | "Cell" | "RefCell", _)
                if !args.is_empty() =>
            {
                return self.method_on(a(0), name, args[1..].to_vec(), None, site);
            }
            ("syn", "parse_str") if turbofish.as_ref().map(|t| last(t.head()) == "Ident").unwrap_or(false) => {
                let s = self.rv(a(0))?;
                if let V::Str(p) = &s {
                    let err = V::var("syn-error", Ty::adt("syn::Error"));
                    return match self.known(p) {
                        Some(k) => Ok(match syn::parse_str::<syn::Ident>(&k) {
                            Ok(_) => V::ok(V::Ident(Rc::new(vec![SP::Lit(k.as_str().into())]))),
                            Err(_) => V::err(err),
                        }),
                        None => {
                            let V::Sym(t) = V::app("is_ident", vec![s.clone()], Ty::adt("bool")) else { return self.unsup("parse_str", site) };
                            Ok(if self.decide(t) { V::ok(V::Ident(p.clone())) } else { V::err(err) })
                        }
                    };
                }
                return self.unsup("parse_str", site);
            }
            ("fs", "read_to_string") => {
                let p = self.rv(a(0))?;
                self.event("read", vec![p.clone()], site);
                return Ok(V::app("read_to_string", vec![p], Ty::Adt("Result".into(), vec![Ty::adt("String"), Ty::adt("Error")])));
            }
            // what is around a run
            ("env", "var") if !self.rv(a(0))?.as_lit().map(|k| k.starts_with("CARGO")).unwrap_or(false) => {
                let p = self.rv(a(0))?;
                return Ok(V::app("nondet:env::var", vec![p], Ty::Adt("Result".into(), vec![Ty::adt("String"), Ty::adt("VarError")])));
            }
            ("env", "var_os" | "home_dir") => {
                let p = self.rv(a(0))?;
                return Ok(V::app("nondet:env::var_os", vec![p], Ty::Adt("Option".into(), vec![Ty::adt("String")])));
            }
            ("env", "current_dir" | "current_exe") => return Ok(V::app(&format!("nondet:{}", name), vec![], Ty::Adt("Result".into(), vec![Ty::adt("String"), Ty::adt("Error")]))),
            ("env", "temp_dir") => return Ok(V::app("nondet:temp_dir", vec![], Ty::adt("String"))),
            ("SystemTime" | "Instant", "now") => return Ok(V::app(&format!("nondet:{}::now", ty), vec![], Ty::adt(ty))),
            ("process", "id") => return Ok(V::app("nondet:process::id", vec![], Ty::adt("u32"))),
            ("rand", "random") | ("fastrand", _) => return Ok(V::app("nondet:random", vec![], turbofish.unwrap_or(Ty::adt("u64")))),
            (h, "new") if h.starts_with("Atomic") => return Ok(V::app("nondet:atomic", vec![V::Str(Rc::new(vec![SP::Lit(format!("{}:{}", site.file, site.line).as_str().into())]))], Ty::adt(h))),
            ("env", "var") => {
                let p = self.rv(a(0))?;
                return Ok(V::app("env::var", vec![p], Ty::Adt("Result".into(), vec![Ty::adt("String"), Ty::adt("VarError")])));
            }
            _ => {}
        }
        // parsing and conversion of primitive types
        let tty = Ty::adt(ty);
        if tty.is_int() || matches!(ty, "f32" | "f64" | "bool") || (name == "from_str") {
            match name {
                "from_str" => {
                    let s = self.rv(a(0))?;
                    let full = segs[..segs.len() - 1].join("::");
                    if last(&full) == "FromStr" {
                        let t = turbofish.unwrap_or(Ty::Unknown);
                        return self.parse_to(s, &t, site);
                    }
                    return self.parse_to(s, &Ty::adt(&full), site);
                }
                "from" | "default" => {
                    if args.is_empty() {
                        return self.default_of(&tty, site);
                    }
                    return self.rv(a(0));
                }
                "to_string" | "clone" => return self.method_on(a(0), name, vec![], None, site),
                "try_from" => {
                    if let V::Int(i) = self.rv(a(0))? {
                        return Ok(if int_range(ty).map(|(lo, hi)| lo <= i && i <= hi).unwrap_or(true) { V::ok(V::Int(i)) } else { V::err(V::var("int-error", Ty::adt("TryFromIntError"))) });
                    }
                }
                "from_str_radix" => {
                    if let (Some(s), V::Int(r @ 2..=36)) = (self.rv(a(0))?.as_lit(), self.rv(a(1))?) {
                        return Ok(match i128::from_str_radix(&s, r as u32) {
                            Ok(i) if int_range(ty).map(|(lo, hi)| lo <= i && i <= hi).unwrap_or(true) => V::ok(V::Int(i)),
                            _ => V::err(V::var("int-error", Ty::adt("ParseIntError"))),
                        });
                    }
                }
                _ if !args.is_empty() && matches!(self.rv(a(0))?, V::Int(_)) => return self.method_on(a(0), name, args[1..].to_vec(), None, site),
                _ => {}
            }
        }
        // constructors of variants of external enums
        let up = |s: &str| s.chars().next().map(|c| c.is_uppercase()).unwrap_or(false);
        if up(name) {
            if up(ty) {
                return Ok(V::en(&segs[..segs.len() - 1].join("::"), name, args));
            }
            return Ok(V::Struct(Rc::new(StructV {
                path: path.into(),
                fields: args.into_iter().enumerate().map(|(i, v)| (Rc::from(i.to_string()), v)).collect(),
            })));
        }
        let mut vals = vec![];
        for x in &args {
            vals.push(self.rv(x.clone())?);
        }
        self.event("ext", vec![lit(path)], site);
        let _ = self.nosite();
        Ok(V::app(path, vals, Ty::Unknown))
    }
}

pub fn opt_v(x: Option<V>) -> V {
    match x {
        Some(x) => V::some(x),
        None => V::none(),
    }
}

pub fn app_part(name: &str, args: Vec<V>) -> SP {
    SP::Term(term(TermKind::App(name.into(), args), Ty::adt("String")))
}

pub fn path_join(base: &[SP], p: &[SP]) -> Vec<SP> {
    if let Some(SP::Lit(l)) = p.first() {
        if l.starts_with('/') {
            return p.to_vec();
        }
    }
    if base.is_empty() {
        return p.to_vec();
    }
    let mut x = base.to_vec();
    if !matches!(x.last(), Some(SP::Lit(l)) if l.ends_with('/')) {
        x.push(SP::Lit("/".into()));
    }
    x.extend(p.to_vec());
    norm_sp(x)
}

pub fn path_parent(p: &str) -> Option<String> {
    let t = p.trim_end_matches('/');
    if t.is_empty() {
        return None;
    }
    match t.rfind('/') {
        Some(0) => Some("/".into()),
        Some(i) => Some(t[..i].trim_end_matches('/').to_string()),
        None => Some(String::new()),
    }
}

pub fn path_norm(p: &str) -> String {
    let mut out: Vec<&str> = vec![];
    for c in p.split('/') {
        match c {
            "" | "." => {}
            ".." => {
                out.pop();
            }
            c => out.push(c),
        }
    }
    format!("{}{}", if p.starts_with('/') { "/" } else { "" }, out.join("/"))
}

fn is_path_term(t: TermId) -> bool {
    match &get_term(t).kind {
        TermKind::Var(n) => n.starts_with("path:"),
        TermKind::App(n, _) => matches!(n.as_str(), "parent" | "canonicalize"),
        TermKind::Payload(b, _, _) => is_path_term(*b),
        _ => false,
    }
}

/// Whether an identifier of Rust can contain the character.
pub fn ident_char(c: char) -> bool {
    if c.is_ascii() {
        c.is_ascii_alphanumeric() || c == '_'
    } else {
        syn::parse_str::<syn::Ident>(&format!("_{}", c)).is_ok()
    }
}

pub fn ident_shape(s: &str) -> bool {
    let part = ident_char;
    let mut c = s.chars();
    match c.next() {
        Some(f) if f == '_' || f.is_ascii_alphabetic() || !f.is_ascii() && syn::parse_str::<syn::Ident>(&f.to_string()).is_ok() => c.all(part),
        _ => false,
    }
}

fn brief(v: &V) -> String {
    let s = format!("{:?}", v);
    s.chars().take(120).collect()
}

pub fn int_range(t: &str) -> Option<(i128, i128)> {
    Some(match t {
        "u8" => (0, u8::MAX as i128),
        "u16" => (0, u16::MAX as i128),
        "u32" => (0, u32::MAX as i128),
        "u64" | "usize" => (0, u64::MAX as i128),
        "i8" => (i8::MIN as i128, i8::MAX as i128),
        "i16" => (i16::MIN as i128, i16::MAX as i128),
        "i32" => (i32::MIN as i128, i32::MAX as i128),
        "i64" | "isize" => (i64::MIN as i128, i64::MAX as i128),
        _ => return None,
    })
}

/// Whether an iterator may have no end.
fn endless(it: &IterV) -> bool {
    match it {
        IterV::Range(_, None) | IterV::FromFn(_) | IterV::Successors(..) | IterV::Repeat(_) => true,
        IterV::Map(i, _) | IterV::Filter(i, _) | IterV::FilterMap(i, _) | IterV::FlatMap(i, _, _) | IterV::Flatten(i, _) | IterV::Enumerate(i, _) | IterV::Skip(i, _) | IterV::SkipWhile(i, _, _)
        | IterV::Inspect(i, _) | IterV::Peekable(i, _) | IterV::Rev(i) | IterV::Pass(i, _) | IterV::MapWhile(i, _) | IterV::TakeWhile(i, _, _) | IterV::Scan(i, _, _, _) => endless(i),
        IterV::Chain(a, b) => endless(a) || endless(b),
        IterV::Zip(a, b) => endless(a) && endless(b),
        _ => false,
    }
}
