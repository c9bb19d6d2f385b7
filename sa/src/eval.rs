//! Expressions, patterns and statements.
use crate::interp::*;
use crate::load::*;
use crate::val::*;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;
use syn::spanned::Spanned;
use syn::{Expr, Pat, Stmt};

impl<'p> Interp<'p> {
    pub fn eval_block(&mut self, b: &syn::Block) -> R<V> {
        let saved = self.push_scope();
        let nuses = self.frames.last().map(|f| f.uses.borrow().len()).unwrap_or(0);
        let r = self.eval_stmts(&b.stmts);
        if let Some(f) = self.frames.last() {
            f.uses.borrow_mut().truncate(nuses);
        }
        self.env = saved;
        r
    }

    /// A function inside of a block is a closure that uses nothing of it.
    fn nested_fn(&mut self, f: &syn::ItemFn) {
        let fr = self.frame();
        let start = f.sig.ident.span().start();
        let frame = Rc::new(Frame {
            func: fr.func.clone(),
            module: fr.module.clone(),
            self_ty: fr.self_ty.clone(),
            ret: match &f.sig.output {
                syn::ReturnType::Type(_, t) => self.rty(t),
                _ => Ty::Unknown,
            },
            file: fr.file.clone(),
            generics: fr.generics.clone(),
            subst: fr.subst.clone(),
            uses: RefCell::new(fr.uses.borrow().clone()),
        });
        let params = f
            .sig
            .inputs
            .iter()
            .filter_map(|i| match i {
                syn::FnArg::Typed(t) => Some(Pat::Type(t.clone())),
                _ => None,
            })
            .collect();
        let body = Expr::Block(syn::ExprBlock {
            attrs: vec![],
            label: None,
            block: (*f.block).clone(),
        });
        let c = V::Closure(Rc::new(ClosureV {
            id: (fr.file.clone(), start.line, start.column),
            params,
            body: Rc::new(body),
            env: self.env.clone(),
            frame,
        }));
        self.bind(&f.sig.ident.to_string(), c);
    }

    fn eval_stmts(&mut self, stmts: &[Stmt]) -> R<V> {
        let mut last_v = V::Unit;
        // uses are visible in the whole block
        for s in stmts {
            if let Stmt::Item(syn::Item::Use(u)) = s {
                if let Some(f) = self.frames.last() {
                    let pre = if u.leading_colon.is_some() { "::".to_string() } else { String::new() };
                    flatten_use(&u.tree, pre, &mut f.uses.borrow_mut());
                }
            }
            if let Stmt::Item(syn::Item::Fn(f)) = s {
                self.nested_fn(f);
            }
        }
        for s in stmts {
            last_v = V::Unit;
            match s {
                Stmt::Local(l) => {
                    let site = self.site(l.let_token.span());
                    let ty = match &l.pat {
                        Pat::Type(t) => Some(self.rty(&t.ty)),
                        _ => None,
                    };
                    if let Some(init) = &l.init {
                        let (v, mode) = self.eval_scrutinee_ex(&init.expr, ty.as_ref())?;
                        let v = match &ty {
                            Some(t) => self.coerce(v, t, &site)?,
                            None => v,
                        };
                        // by-value bindings of a `let` never alias
                        let mode = match mode {
                            Mode::Place(p) => Mode::Place(p),
                            m => m,
                        };
                        let ok = self.bind_pat(&l.pat, v, mode)?;
                        if !ok {
                            match &init.diverge {
                                Some((_, e)) => {
                                    self.eval(e)?;
                                    return self.unsup("let-else did not diverge", &site);
                                }
                                None => return self.unsup("refutable let", &site),
                            }
                        }
                    } else {
                        // declared, assigned later
                        let mut names = vec![];
                        pat_names(&l.pat, &mut names);
                        for n in names {
                            self.bind(&n, V::Default);
                        }
                    }
                }
                Stmt::Item(_) => {}
                Stmt::Expr(e, semi) => {
                    let v = self.eval(e)?;
                    if semi.is_none() {
                        last_v = v;
                    }
                }
                Stmt::Macro(m) => {
                    let v = self.eval_macro(&m.mac)?;
                    if m.semi_token.is_none() {
                        last_v = v;
                    }
                }
            }
        }
        Ok(last_v)
    }

    pub fn rty(&self, t: &syn::Type) -> Ty {
        let f = self.frame();
        let ty = self.prog.ty(&f.module, t, f.self_ty.as_ref(), &f.generics);
        match &ty {
            Ty::Param(p) => f.subst.get(p).cloned().unwrap_or(ty),
            _ => ty,
        }
    }

    /// Resolves a path in the scope of the current function.
    pub fn resolve(&self, p: &syn::Path) -> String {
        let f = self.frame();
        let segs: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
        self.resolve_segs(&segs, p.leading_colon.is_some(), &f)
    }

    pub fn resolve_segs(&self, segs: &[String], abs: bool, f: &Frame) -> String {
        if !abs {
            if segs[0] == "Self" {
                let head = f.self_ty.as_ref().map(|t| t.head().to_string()).unwrap_or("Self".into());
                if segs.len() == 1 {
                    return head;
                }
                return format!("{}::{}", head, segs[1..].join("::"));
            }
            for u in f.uses.borrow().iter().rev() {
                match u {
                    Use::Path(alias, full) if *alias == segs[0] => {
                        let a = full.starts_with("::");
                        let mut s: Vec<String> = full.trim_start_matches("::").split("::").map(String::from).collect();
                        s.extend(segs[1..].iter().cloned());
                        return self.prog.resolve(&f.module, &s, a);
                    }
                    Use::Glob(full) if segs.len() == 1 => {
                        let a = full.starts_with("::");
                        let s: Vec<String> = full.trim_start_matches("::").split("::").map(String::from).collect();
                        let t = if s[0] == "Self" {
                            f.self_ty.as_ref().map(|t| t.head().to_string()).unwrap_or_default()
                        } else {
                            self.prog.resolve(&f.module, &s, a)
                        };
                        if let Some(e) = self.prog.enums.get(&t) {
                            if e.variants.iter().any(|v| v.name == segs[0]) {
                                return format!("{}::{}", t, segs[0]);
                            }
                        }
                    }
                    _ => {}
                }
            }
            if segs.len() > 1 && f.generics.contains(&segs[0]) {
                if let Some(t) = f.subst.get(&segs[0]) {
                    return format!("{}::{}", t.head(), segs[1..].join("::"));
                }
                return segs.join("::");
            }
        }
        let r = self.prog.resolve(&f.module, segs, abs);
        // associated items of aliased types
        if let Some((pre, name)) = r.rsplit_once("::") {
            if let Some((t, m)) = self.prog.aliases.get(pre) {
                let ty = self.prog.ty(m, t, None, &[]);
                return format!("{}::{}", ty.head(), name);
            }
        }
        if let Some((t, m)) = self.prog.aliases.get(&r) {
            return self.prog.ty(m, t, None, &[]).head().to_string();
        }
        r
    }

    // ------------------------------------------------------------------ patterns

    /// (enum, variant) or (struct, "") a pattern path stands for
    fn pat_path(&self, p: &syn::Path) -> Option<(String, String)> {
        let r = self.resolve(p);
        match r.as_str() {
            "Some" | "None" => return Some(("Option".into(), r)),
            "Ok" | "Err" => return Some(("Result".into(), r)),
            "Option::Some" | "Option::None" => return Some(("Option".into(), last(&r).to_string())),
            "Result::Ok" | "Result::Err" => return Some(("Result".into(), last(&r).to_string())),
            _ => {}
        }
        if let Some((pre, name)) = r.rsplit_once("::") {
            if let Some(e) = self.prog.enums.get(pre) {
                if e.variants.iter().any(|v| v.name == name) {
                    return Some((pre.to_string(), name.to_string()));
                }
            }
        }
        if self.prog.structs.contains_key(&r) {
            return Some((r, String::new()));
        }
        // external enum
        if let Some((pre, name)) = r.rsplit_once("::") {
            if name.chars().next().map(|c| c.is_uppercase()).unwrap_or(false) && !self.prog.consts.contains_key(&r) {
                return Some((pre.to_string(), name.to_string()));
            }
        }
        None
    }

    fn sub_mode(mode: &Mode, pr: Proj) -> Mode {
        let mk = |p: &Place| {
            let mut q = p.clone();
            q.proj.push(pr.clone());
            q
        };
        match mode {
            Mode::Val => Mode::Val,
            Mode::MutRef(p) => Mode::MutRef(mk(p)),
            Mode::Place(p) => Mode::Place(mk(p)),
        }
    }

    /// Matches and binds. Bindings of a failed match are harmless, they live in the arm's scope.
    pub fn bind_pat(&mut self, pat: &Pat, v: V, mode: Mode) -> R<bool> {
        let site = self.site(pat.span());
        // look through references
        let (v, mode) = match (&v, &mode) {
            (V::Mut(p), _) if !matches!(pat, Pat::Ident(_) | Pat::Wild(_) | Pat::Type(_)) => {
                let dp = self.deref_place(p);
                (self.load(&dp)?, Mode::MutRef(dp))
            }
            _ => (v, mode),
        };
        match pat {
            Pat::Wild(_) | Pat::Rest(_) => Ok(true),
            Pat::Paren(p) => self.bind_pat(&p.pat, v, mode),
            Pat::Type(t) => {
                let ty = self.rty(&t.ty);
                let v = self.coerce(v, &ty, &site)?;
                self.bind_pat(&t.pat, v, mode)
            }
            Pat::Reference(r) => {
                let v = self.rv(v)?;
                self.bind_pat(&r.pat, v, Mode::Val)
            }
            Pat::Ident(i) => {
                let name = i.ident.to_string();
                if i.subpat.is_none() && i.by_ref.is_none() && i.mutability.is_none() {
                    let upper = name.chars().next().map(|c| c.is_uppercase()).unwrap_or(false);
                    if upper {
                        let path = syn::Path::from(i.ident.clone());
                        if let Some((e, var)) = self.pat_path(&path) {
                            if !var.is_empty() {
                                let v = self.rv(v)?;
                                return self.test_variant(&v, &e, &var, &site);
                            }
                        }
                        let r = self.resolve(&path);
                        if self.prog.consts.contains_key(&r) {
                            let c = self.eval_const(&r)?;
                            return self.eq(&v, &c, &site);
                        }
                    }
                }
                if let Some((_, sub)) = &i.subpat {
                    let (sv, sm) = match &v {
                        V::Mut(p) => {
                            let dp = self.deref_place(p);
                            (self.load(&dp)?, Mode::MutRef(dp))
                        }
                        _ => (v.clone(), mode.clone()),
                    };
                    if !self.bind_pat(sub, sv, sm)? {
                        return Ok(false);
                    }
                }
                let val = match (&mode, &i.by_ref, &i.mutability) {
                    (Mode::MutRef(p), _, _) if !matches!(v, V::Mut(_)) => V::Mut(Rc::new(p.clone())),
                    (Mode::Place(p), Some(_), Some(_)) => V::Mut(Rc::new(p.clone())),
                    _ => v,
                };
                self.bind(&name, val);
                Ok(true)
            }
            Pat::Lit(l) => {
                let lv = self.eval_lit(&l.lit, &site)?;
                self.eq(&v, &lv, &site)
            }
            Pat::Const(_) => self.unsup("const pattern", &site),
            Pat::Range(r) => {
                let v = self.rv(v)?;
                if let Some(s) = &r.start {
                    let s = self.eval(s)?;
                    if self.lt(&v, &s, &site)? {
                        return Ok(false);
                    }
                }
                if let Some(e) = &r.end {
                    let e = self.eval(e)?;
                    let incl = matches!(r.limits, syn::RangeLimits::Closed(_));
                    if incl {
                        if self.lt(&e, &v, &site)? {
                            return Ok(false);
                        }
                    } else if !self.lt(&v, &e, &site)? {
                        return Ok(false);
                    }
                }
                Ok(true)
            }
            Pat::Or(o) => {
                for c in &o.cases {
                    if self.bind_pat(c, v.clone(), mode.clone())? {
                        return Ok(true);
                    }
                }
                Ok(false)
            }
            Pat::Path(p) => {
                let r = self.resolve(&p.path);
                if self.prog.consts.contains_key(&r) {
                    let c = self.eval_const(&r)?;
                    return self.eq(&v, &c, &site);
                }
                match self.pat_path(&p.path) {
                    Some((e, var)) if !var.is_empty() => self.test_variant(&v, &e, &var, &site),
                    _ => self.unsup(format!("pattern path {}", r), &site),
                }
            }
            Pat::Tuple(t) => {
                let n = t.elems.len();
                let rest = t.elems.iter().position(|p| matches!(p, Pat::Rest(_)));
                let len = match &v {
                    V::Tuple(x) => x.len(),
                    V::Unit => 0,
                    V::Sym(_) => n,
                    o => return self.unsup(format!("tuple pattern on {:?}", o), &site),
                };
                for (i, p) in t.elems.iter().enumerate() {
                    if matches!(p, Pat::Rest(_)) {
                        continue;
                    }
                    let ix = match rest {
                        Some(r) if i > r => len - (n - i),
                        _ => i,
                    };
                    let pr = Proj::Field(ix.to_string().into());
                    let x = self.proj(&v, &pr)?;
                    if !self.bind_pat(p, x, Self::sub_mode(&mode, pr))? {
                        return Ok(false);
                    }
                }
                Ok(true)
            }
            Pat::TupleStruct(ts) => {
                let Some((e, var)) = self.pat_path(&ts.path) else {
                    return self.unsup(format!("pattern {}", self.resolve(&ts.path)), &site);
                };
                let mut v = v;
                if !var.is_empty() {
                    if let V::Enum(en) = &v {
                        if last(&en.path) != last(&e) {
                            if let Some(c) = self.convert_to(&v, &e)? {
                                v = c;
                            }
                        }
                    }
                    if !self.test_variant(&v, &e, &var, &site)? {
                        return Ok(false);
                    }
                }
                let total = match &v {
                    V::Enum(en) => en.fields.len(),
                    V::Struct(en) => en.fields.len(),
                    _ => ts.elems.len(),
                };
                let n = ts.elems.len();
                let rest = ts.elems.iter().position(|p| matches!(p, Pat::Rest(_)));
                for (i, p) in ts.elems.iter().enumerate() {
                    if matches!(p, Pat::Rest(_)) {
                        continue;
                    }
                    let ix = match rest {
                        Some(r) if i > r => total - (n - i),
                        _ => i,
                    };
                    let fname: Rc<str> = ix.to_string().into();
                    let pr = if var.is_empty() { Proj::Field(fname.clone()) } else { Proj::Pay(var.as_str().into(), fname.clone()) };
                    let x = match &v {
                        V::Sym(t) if !var.is_empty() => self.payload_sym(*t, &var, &fname, Some(&e)),
                        _ => self.proj(&v, &pr)?,
                    };
                    if !self.bind_pat(p, x, Self::sub_mode(&mode, pr))? {
                        return Ok(false);
                    }
                }
                Ok(true)
            }
            Pat::Struct(ps) => {
                let Some((e, var)) = self.pat_path(&ps.path) else {
                    return self.unsup(format!("pattern {}", self.resolve(&ps.path)), &site);
                };
                // a foreign struct rather than a variant
                let var = match &v {
                    V::Struct(st) if last(&st.path) == var => String::new(),
                    _ => var,
                };
                if !var.is_empty() && !self.test_variant(&v, &e, &var, &site)? {
                    return Ok(false);
                }
                for f in &ps.fields {
                    let fname: Rc<str> = match &f.member {
                        syn::Member::Named(n) => n.to_string().into(),
                        syn::Member::Unnamed(i) => i.index.to_string().into(),
                    };
                    let pr = if var.is_empty() { Proj::Field(fname.clone()) } else { Proj::Pay(var.as_str().into(), fname.clone()) };
                    let x = match &v {
                        V::Sym(t) if !var.is_empty() => self.payload_sym(*t, &var, &fname, Some(&e)),
                        _ => self.proj(&v, &pr)?,
                    };
                    if !self.bind_pat(&f.pat, x, Self::sub_mode(&mode, pr))? {
                        return Ok(false);
                    }
                }
                Ok(true)
            }
            Pat::Slice(s) => {
                let items = match &v {
                    V::Seq(s) => (**s).clone(),
                    V::Sym(t) => self.seq_of(*t),
                    V::Default => vec![],
                    o => return self.unsup(format!("slice pattern on {:?}", o), &site),
                };
                let is_rest = |p: &Pat| match p {
                    Pat::Rest(_) => true,
                    Pat::Ident(i) => i.subpat.as_ref().map(|s| matches!(*s.1, Pat::Rest(_))).unwrap_or(false),
                    _ => false,
                };
                let rest = s.elems.iter().position(is_rest);
                let n = s.elems.len();
                match rest {
                    None if items.len() != n => return Ok(false),
                    Some(_) if items.len() < n - 1 => return Ok(false),
                    _ => {}
                }
                for (i, p) in s.elems.iter().enumerate() {
                    if is_rest(p) {
                        if let Pat::Ident(id) = p {
                            let end = items.len() - (n - 1 - i);
                            self.bind(&id.ident.to_string(), V::seq(items[i..end].to_vec()));
                        }
                        continue;
                    }
                    let ix = match rest {
                        Some(r) if i > r => items.len() - (n - i),
                        _ => i,
                    };
                    if !self.bind_pat(p, items[ix].clone(), Self::sub_mode(&mode, Proj::Index(ix)))? {
                        return Ok(false);
                    }
                }
                Ok(true)
            }
            _ => self.unsup("pattern", &site),
        }
    }

    // ------------------------------------------------------------------ places

    pub fn place_of(&mut self, e: &Expr) -> R<Option<Place>> {
        match e {
            Expr::Paren(p) => self.place_of(&p.expr),
            Expr::Group(p) => self.place_of(&p.expr),
            Expr::Path(p) if p.qself.is_none() => {
                if let Some(id) = p.path.get_ident() {
                    if let Some(c) = self.lookup(&id.to_string()) {
                        return Ok(Some(Place {
                            cell: c,
                            proj: vec![],
                        }));
                    }
                }
                Ok(None)
            }
            Expr::Field(f) => {
                let base = self.base_place(&f.base)?;
                match base {
                    Some(b) => {
                        let name: Rc<str> = match &f.member {
                            syn::Member::Named(n) => n.to_string().into(),
                            syn::Member::Unnamed(i) => i.index.to_string().into(),
                        };
                        let b = self.deref_place(&b);
                        let bv = self.load(&b)?;
                        match &bv {
                            V::Struct(_) | V::Tuple(_) | V::Sym(_) => {
                                let b = self.through_deref(b, &bv, &name)?;
                                let Some(mut b) = b else { return Ok(None) };
                                b.proj.push(Proj::Field(name));
                                Ok(Some(b))
                            }
                            _ => Ok(None),
                        }
                    }
                    None => Ok(None),
                }
            }
            Expr::Index(ix) => {
                let base = self.base_place(&ix.expr)?;
                let site = self.site(ix.span());
                match base {
                    Some(b) => {
                        let b = self.deref_place(&b);
                        let i = self.eval(&ix.index)?;
                        match (self.load(&b)?, self.rv(i)?) {
                            (V::Seq(s), V::Int(i)) => {
                                if i < 0 || i as usize >= s.len() {
                                    return Err(Ctl::Panic("index out of bounds".into(), site));
                                }
                                let mut b = b;
                                b.proj.push(Proj::Index(i as usize));
                                Ok(Some(b))
                            }
                            _ => Ok(None),
                        }
                    }
                    None => Ok(None),
                }
            }
            Expr::Unary(u) if matches!(u.op, syn::UnOp::Deref(_)) => {
                let p = self.place_of(&u.expr)?;
                match p {
                    Some(p) => {
                        let v = self.load(&p)?;
                        match v {
                            V::Mut(q) => Ok(Some(self.norm(&q))),
                            _ => Ok(Some(p)),
                        }
                    }
                    None => {
                        let v = self.eval(&u.expr)?;
                        match v {
                            V::Mut(q) => Ok(Some(self.norm(&q))),
                            _ => Ok(None),
                        }
                    }
                }
            }
            _ => Ok(None),
        }
    }

    /// The place below a field or an index; a call yields the place its
    /// reference points to, or a temporary that holds its value.
    fn base_place(&mut self, e: &Expr) -> R<Option<Place>> {
        match e {
            Expr::Paren(p) => self.base_place(&p.expr),
            Expr::Group(p) => self.base_place(&p.expr),
            Expr::MethodCall(_) | Expr::Call(_) | Expr::Try(_) | Expr::Reference(_) => {
                let v = self.eval(e)?;
                Ok(Some(match v {
                    V::Mut(q) => self.norm(&q),
                    v => Place {
                        cell: self.alloc(v),
                        proj: vec![],
                    },
                }))
            }
            _ => self.place_of(e),
        }
    }

    /// Follows `Deref` of workspace types for a field that is not there.
    fn through_deref(&mut self, b: Place, bv: &V, name: &str) -> R<Option<Place>> {
        if let V::Struct(s) = bv {
            if bv.field(name).is_none() {
                let s = s.clone();
                if let Some(f) = self.prog.trait_method(&s.path, "Deref", "deref") {
                    let v = self.call_fn(&f, vec![bv.clone()], BTreeMap::new())?;
                    let c = self.alloc(v);
                    return Ok(Some(Place {
                        cell: c,
                        proj: vec![],
                    }));
                }
                return Ok(None);
            }
        }
        Ok(Some(b))
    }

    /// An iteration that changes nothing is repeated forever.
    fn progress(&mut self, i: usize, seen: &mut Option<(usize, usize, Vec<V>, BTreeMap<String, usize>)>, site: &Site) -> R<()> {
        if i < 40 {
            return Ok(());
        }
        if let Some((cursor, events, store, ctr)) = seen {
            if *cursor == self.cursor && *events == self.st.events.len() && *ctr == self.st.ctr && store[..] == self.st.store[..store.len()] {
                return Err(Ctl::Panic("the loop never ends".into(), site.clone()));
            }
        }
        *seen = Some((self.cursor, self.st.events.len(), self.st.store.clone(), self.st.ctr.clone()));
        Ok(())
    }

    /// Generated code only ever loops over what is in a document, and those have few elements.
    fn endless(&mut self, what: &str, site: &Site) -> R<V> {
        if self.in_gen() {
            return Err(Ctl::Panic("the loop never ends".into(), site.clone()));
        }
        self.unsup(what, site)
    }

    pub fn eval_scrutinee(&mut self, e: &Expr) -> R<(V, Mode)> {
        self.eval_scrutinee_ex(e, None)
    }

    pub fn eval_scrutinee_ex(&mut self, e: &Expr, ty: Option<&Ty>) -> R<(V, Mode)> {
        match e {
            Expr::Path(_) | Expr::Field(_) | Expr::Index(_) | Expr::Paren(_) => {
                if let Some(p) = self.place_of(e)? {
                    let v = self.load(&p)?;
                    return Ok((v, Mode::Place(p)));
                }
            }
            Expr::Unary(u) if matches!(u.op, syn::UnOp::Deref(_)) => {
                if let Some(p) = self.place_of(e)? {
                    let v = self.load(&p)?;
                    return Ok((v, Mode::Place(p)));
                }
            }
            _ => {}
        }
        let v = self.eval_ex(e, ty)?;
        Ok((v, Mode::Val))
    }

    // ------------------------------------------------------------------ expressions

    pub fn eval_const(&mut self, path: &str) -> R<V> {
        let (e, module, ty) = {
            let c = &self.prog.consts[path];
            (c.0.clone(), c.1.clone(), c.2.clone())
        };
        let file = self.prog.modules.get(&module).map(|m| m.file.clone()).unwrap_or_default();
        let self_ty = path
            .rsplit_once("::")
            .map(|x| x.0)
            .filter(|p| self.prog.structs.contains_key(*p) || self.prog.enums.contains_key(*p))
            .map(Ty::adt);
        let fr = Rc::new(Frame {
            func: path.into(),
            module: module.as_str().into(),
            self_ty,
            ret: ty.clone(),
            file: file.as_str().into(),
            generics: vec![],
            subst: BTreeMap::new(),
            uses: RefCell::new(vec![]),
        });
        self.frames.push(fr);
        let saved = std::mem::replace(&mut self.env, empty_env());
        let r = self.eval_ex(&e, Some(&ty));
        self.env = saved;
        self.frames.pop();
        r
    }

    pub fn eval_lit(&mut self, l: &syn::Lit, site: &Site) -> R<V> {
        Ok(match l {
            syn::Lit::Str(s) => crate::render::decode_str(&s.value()),
            syn::Lit::ByteStr(s) => V::seq(s.value().into_iter().map(|b| V::Int(b as i128)).collect()),
            syn::Lit::Byte(b) => V::Int(b.value() as i128),
            syn::Lit::Char(c) => V::Char(c.value()),
            syn::Lit::Int(i) => V::Int(i.base10_parse::<i128>().unwrap_or(0)),
            syn::Lit::Bool(b) => V::Bool(b.value),
            syn::Lit::Float(f) => lit(f.base10_digits()),
            _ => return self.unsup("literal", site),
        })
    }

    pub fn eval(&mut self, e: &Expr) -> R<V> {
        self.eval_ex(e, None)
    }

    pub fn eval_ex(&mut self, e: &Expr, expect: Option<&Ty>) -> R<V> {
        self.steps += 1;
        if self.steps > self.max_steps {
            let site = self.site(e.span());
            if self.deep {
                return Err(Ctl::Panic("this does not terminate".into(), site));
            }
            return self.unsup("step limit", &site);
        }
        match e {
            Expr::Lit(l) => {
                let site = Site {
                    file: "".into(),
                    line: 0,
                    func: "".into(),
                };
                self.eval_lit(&l.lit, &site)
            }
            Expr::Paren(p) => self.eval_ex(&p.expr, expect),
            Expr::Group(p) => self.eval_ex(&p.expr, expect),
            Expr::Path(p) => self.eval_path(p, expect),
            Expr::Block(b) => {
                let r = self.eval_block(&b.block);
                match (&b.label, r) {
                    (Some(l), Err(Ctl::Break(Some(n), v))) if l.name.ident == n => Ok(v),
                    (_, r) => r,
                }
            }
            Expr::Unsafe(b) => self.eval_block(&b.block),
            Expr::Const(b) => self.eval_block(&b.block),
            Expr::Tuple(t) => {
                let mut out = vec![];
                for (i, x) in t.elems.iter().enumerate() {
                    let ty = match expect {
                        Some(Ty::Tuple(ts)) => ts.get(i).cloned(),
                        _ => None,
                    };
                    let v = self.eval_ex(x, ty.as_ref())?;
                    out.push(v);
                }
                Ok(V::tup(out))
            }
            Expr::Array(a) => {
                let mut out = vec![];
                for x in &a.elems {
                    out.push(self.eval(x)?);
                }
                Ok(V::seq(out))
            }
            Expr::Repeat(r) => {
                let v = self.eval(&r.expr)?;
                let n = self.eval(&r.len)?;
                let site = self.site(r.span());
                match n {
                    V::Int(n) if n < 64 => Ok(V::seq(vec![v; n as usize])),
                    _ => self.unsup("array length", &site),
                }
            }
            Expr::Reference(r) => {
                if r.mutability.is_some() {
                    match self.place_of(&r.expr)? {
                        Some(p) => {
                            // reborrow
                            let v = self.load(&p)?;
                            if let V::Mut(q) = v {
                                return Ok(V::Mut(q));
                            }
                            Ok(V::Mut(Rc::new(self.norm(&p))))
                        }
                        None => {
                            let v = self.eval(&r.expr)?;
                            if let V::Mut(_) = v {
                                return Ok(v);
                            }
                            let c = self.alloc(v);
                            Ok(V::Mut(Rc::new(Place {
                                cell: c,
                                proj: vec![],
                            })))
                        }
                    }
                } else {
                    let v = self.eval_ex(&r.expr, expect)?;
                    // a shared reference sees the value as it is now
                    match v {
                        V::Mut(_) => self.rv(v),
                        v => Ok(v),
                    }
                }
            }
            Expr::Unary(u) => {
                let site = self.site(u.span());
                match u.op {
                    syn::UnOp::Deref(_) => {
                        let v = self.eval(&u.expr)?;
                        match v {
                            V::Mut(p) => self.load(&p),
                            v => Ok(v),
                        }
                    }
                    syn::UnOp::Not(_) => {
                        let v = self.eval(&u.expr)?;
                        match self.rv(v)? {
                            V::Int(i) => Ok(V::Int(!i)),
                            v => {
                                let b = self.truth(v, &site)?;
                                Ok(V::Bool(!b))
                            }
                        }
                    }
                    syn::UnOp::Neg(_) => {
                        let v = self.eval(&u.expr)?;
                        match self.rv(v)? {
                            V::Int(i) => Ok(V::Int(-i)),
                            v => Ok(V::app("neg", vec![v], Ty::Unknown)),
                        }
                    }
                    _ => self.unsup("unary", &site),
                }
            }
            Expr::Binary(b) => self.eval_binary(b),
            Expr::If(i) => {
                let saved = self.push_scope();
                let c = self.eval_cond(&i.cond);
                let r = match c {
                    Ok(true) => self.eval_block(&i.then_branch),
                    Ok(false) => {
                        self.env = saved.clone();
                        match &i.else_branch {
                            Some((_, e)) => self.eval_ex(e, expect),
                            None => Ok(V::Unit),
                        }
                    }
                    Err(e) => Err(e),
                };
                self.env = saved;
                r
            }
            Expr::Let(_) => {
                let b = self.eval_cond(e)?;
                Ok(V::Bool(b))
            }
            Expr::Match(m) => {
                let (v, mode) = self.eval_scrutinee(&m.expr)?;
                let site = self.site(m.match_token.span());
                let saved = self.env.clone();
                for arm in &m.arms {
                    self.env = Rc::new(Scope {
                        vars: RefCell::new(vec![]),
                        parent: Some(saved.clone()),
                    });
                    let ok = match self.bind_pat(&arm.pat, v.clone(), mode.clone()) {
                        Ok(b) => b,
                        Err(e) => {
                            self.env = saved;
                            return Err(e);
                        }
                    };
                    if !ok {
                        continue;
                    }
                    if let Some((_, g)) = &arm.guard {
                        match self.eval_cond(g) {
                            Ok(true) => {}
                            Ok(false) => continue,
                            Err(e) => {
                                self.env = saved;
                                return Err(e);
                            }
                        }
                    }
                    let r = self.eval_ex(&arm.body, expect);
                    self.env = saved;
                    return r;
                }
                self.env = saved;
                Err(Ctl::Prune(format!("no arm of match at {}:{}", site.file, site.line)))
            }
            Expr::Loop(l) => {
                let label = l.label.as_ref().map(|l| l.name.ident.to_string());
                let site = self.site(l.loop_token.span());
                let mut seen = None;
                for i in 0..64 {
                    self.progress(i, &mut seen, &site)?;
                    match self.eval_block(&l.body) {
                        Ok(_) => {}
                        Err(c) => match self.loop_ctl(c, &label)? {
                            Some(v) => return Ok(v),
                            None => {}
                        },
                    }
                }
                self.endless("loop bound", &site)
            }
            Expr::While(w) => {
                let label = w.label.as_ref().map(|l| l.name.ident.to_string());
                let site = self.site(w.while_token.span());
                let mut seen = None;
                for i in 0..64 {
                    self.progress(i, &mut seen, &site)?;
                    let saved = self.push_scope();
                    let c = self.eval_cond(&w.cond);
                    let r = match c {
                        Ok(true) => self.eval_block(&w.body).map(|_| true),
                        Ok(false) => Ok(false),
                        Err(e) => Err(e),
                    };
                    self.env = saved;
                    match r {
                        Ok(true) => {}
                        Ok(false) => return Ok(V::Unit),
                        Err(c) => {
                            if self.loop_ctl(c, &label)?.is_some() {
                                return Ok(V::Unit);
                            }
                        }
                    }
                }
                self.endless("while bound", &site)
            }
            Expr::ForLoop(f) => {
                let label = f.label.as_ref().map(|l| l.name.ident.to_string());
                let site = self.site(f.for_token.span());
                let it = self.eval(&f.expr)?;
                let it = self.to_iter(it, &site)?;
                let cell = match it {
                    V::Mut(p) => (*p).clone(),
                    it => Place {
                        cell: self.alloc(it),
                        proj: vec![],
                    },
                };
                for _ in 0..64 {
                    let Some(x) = self.iter_next_at(&cell, &site)? else {
                        return Ok(V::Unit);
                    };
                    let saved = self.push_scope();
                    let r = match self.bind_pat(&f.pat, x, Mode::Val) {
                        Ok(true) => self.eval_block(&f.body),
                        Ok(false) => self.unsup("refutable for", &site),
                        Err(e) => Err(e),
                    };
                    self.env = saved;
                    if let Err(c) = r {
                        if self.loop_ctl(c, &label)?.is_some() {
                            return Ok(V::Unit);
                        }
                    }
                }
                self.unsup("for bound", &site)
            }
            Expr::Break(b) => {
                let v = match &b.expr {
                    Some(e) => self.eval(e)?,
                    None => V::Unit,
                };
                Err(Ctl::Break(b.label.as_ref().map(|l| l.ident.to_string()), v))
            }
            Expr::Continue(c) => Err(Ctl::Continue(c.label.as_ref().map(|l| l.ident.to_string()))),
            Expr::Return(r) => {
                let v = match &r.expr {
                    Some(e) => {
                        let ret = self.frame().ret.clone();
                        self.eval_ex(e, Some(&ret))?
                    }
                    None => V::Unit,
                };
                Err(Ctl::Return(v))
            }
            Expr::Try(t) => {
                let site = self.site(t.question_token.span());
                let v = self.eval(&t.expr)?;
                let v = self.rv(v)?;
                let is_opt = match &v {
                    V::Enum(e) => &*e.path == "Option",
                    V::Sym(t) => {
                        let h = term_ty(*t);
                        h.head() == "Option" || (h.head() == "?" && self.frame().ret.head() == "Option")
                    }
                    _ => false,
                };
                if is_opt {
                    return match self.opt(v, &site)? {
                        Some(x) => Ok(x),
                        None => Err(Ctl::Return(V::none())),
                    };
                }
                match self.res(v, &site)? {
                    Ok(x) => Ok(x),
                    Err(err) => {
                        let ret = self.frame().ret.clone();
                        let ety = ret.arg(1);
                        let err = self.coerce(err, &ety, &site)?;
                        Err(Ctl::Return(V::err(err)))
                    }
                }
            }
            Expr::Closure(c) => {
                let fr = self.frame();
                let start = c.span().start();
                let f2 = Rc::new(Frame {
                    func: fr.func.clone(),
                    module: fr.module.clone(),
                    self_ty: fr.self_ty.clone(),
                    ret: match &c.output {
                        syn::ReturnType::Type(_, t) => self.rty(t),
                        _ => Ty::Unknown,
                    },
                    file: fr.file.clone(),
                    generics: fr.generics.clone(),
                    subst: fr.subst.clone(),
                    uses: RefCell::new(fr.uses.borrow().clone()),
                });
                Ok(V::Closure(Rc::new(ClosureV {
                    id: (fr.file.clone(), start.line, start.column),
                    params: c.inputs.iter().cloned().collect(),
                    body: Rc::new((*c.body).clone()),
                    env: self.env.clone(),
                    frame: f2,
                })))
            }
            Expr::Assign(a) => {
                let site = self.site(a.eq_token.span());
                match &*a.left {
                    Expr::Infer(_) => {
                        self.eval(&a.right)?;
                        return Ok(V::Unit);
                    }
                    Expr::Tuple(t) => {
                        let v = self.eval(&a.right)?;
                        let v = self.rv(v)?;
                        for (i, l) in t.elems.iter().enumerate() {
                            if matches!(l, Expr::Infer(_)) {
                                continue;
                            }
                            let Some(p) = self.place_of(l)? else {
                                return self.unsup("assignment target", &site);
                            };
                            let x = self.proj(&v, &Proj::Field(i.to_string().into()))?;
                            self.store(&p, x)?;
                        }
                        return Ok(V::Unit);
                    }
                    _ => {}
                }
                // type of the target directs the conversion of defaults
                let Some(p0) = self.place_of(&a.left)? else {
                    return self.unsup("assignment target", &site);
                };
                let fty = self.place_ty(&p0);
                let v = self.eval_ex(&a.right, fty.as_ref())?;
                let v = match &fty {
                    Some(t) => self.coerce(v, t, &site)?,
                    None => v,
                };
                let Some(p) = self.place_of(&a.left)? else {
                    return self.unsup("assignment target", &site);
                };
                self.store(&p, v)?;
                Ok(V::Unit)
            }
            Expr::Field(f) => {
                let name: Rc<str> = match &f.member {
                    syn::Member::Named(n) => n.to_string().into(),
                    syn::Member::Unnamed(i) => i.index.to_string().into(),
                };
                if let Some(p) = self.place_of(e)? {
                    return self.load(&p);
                }
                let b = self.eval(&f.base)?;
                let b = self.rv(b)?;
                let site = self.site(f.span());
                match self.proj(&b, &Proj::Field(name.clone())) {
                    Ok(v) => Ok(v),
                    Err(Ctl::Unsupported(m, _)) => self.unsup(m, &site),
                    Err(e) => Err(e),
                }
            }
            Expr::Index(ix) => {
                let site = self.site(ix.span());
                let b = self.eval(&ix.expr)?;
                let b = self.rv(b)?;
                let i = self.eval(&ix.index)?;
                let i = self.rv(i)?;
                self.index(b, i, &site)
            }
            Expr::Struct(s) => self.eval_struct(s),
            Expr::Call(c) => self.eval_call(c, expect),
            Expr::MethodCall(m) => self.eval_method(m, expect),
            Expr::Macro(m) => self.eval_macro_ex(&m.mac, expect),
            Expr::Range(r) => {
                let a = match &r.start {
                    Some(e) => {
                        let v = self.eval(e)?;
                        Some(self.rv(v)?)
                    }
                    None => None,
                };
                let b = match &r.end {
                    Some(e) => {
                        let v = self.eval(e)?;
                        Some(self.rv(v)?)
                    }
                    None => None,
                };
                Ok(V::Range(Rc::new((a, b, matches!(r.limits, syn::RangeLimits::Closed(_))))))
            }
            // an empty statement
            Expr::Verbatim(t) if t.is_empty() => Ok(V::Unit),
            Expr::Cast(c) => {
                let v = self.eval(&c.expr)?;
                let v = self.rv(v)?;
                let t = self.rty(&c.ty);
                Ok(cast(v, t.head()))
            }
            Expr::Async(_) | Expr::Await(_) | Expr::Yield(_) => {
                let site = self.site(e.span());
                self.unsup("async", &site)
            }
            _ => {
                let site = self.site(e.span());
                {
                    let n = format!("{:?}", e);
                    self.unsup(format!("expression {}", n.split_whitespace().take(2).collect::<Vec<_>>().join(" ")), &site)
                }
            }
        }
    }

    fn place_ty(&self, p: &Place) -> Option<Ty> {
        let (lastp, base) = p.proj.split_last()?;
        let b = Place {
            cell: p.cell,
            proj: base.to_vec(),
        };
        let v = self.load(&b).ok()?;
        let v = self.rv(v).ok()?;
        let Proj::Field(n) = lastp else { return None };
        let ty = self.ty_of(&v);
        let s = self.prog.structs.get(ty.head())?;
        s.fields.iter().find(|f| f.name == **n).map(|f| f.ty.clone())
    }

    fn loop_ctl(&mut self, c: Ctl, label: &Option<String>) -> R<Option<V>> {
        match c {
            Ctl::Break(None, v) => Ok(Some(v)),
            Ctl::Break(Some(l), v) if Some(&l) == label.as_ref() => Ok(Some(v)),
            Ctl::Continue(None) => Ok(None),
            Ctl::Continue(Some(l)) if Some(&l) == label.as_ref() => Ok(None),
            c => Err(c),
        }
    }

    pub fn eval_cond(&mut self, e: &Expr) -> R<bool> {
        match e {
            Expr::Let(l) => {
                let (v, mode) = self.eval_scrutinee(&l.expr)?;
                self.bind_pat(&l.pat, v, mode)
            }
            Expr::Binary(b) if matches!(b.op, syn::BinOp::And(_)) => {
                if !self.eval_cond(&b.left)? {
                    return Ok(false);
                }
                self.eval_cond(&b.right)
            }
            Expr::Paren(p) => self.eval_cond(&p.expr),
            _ => {
                let v = self.eval(e)?;
                let site = self.site(e.span());
                self.truth(v, &site)
            }
        }
    }

    fn eval_binary(&mut self, b: &syn::ExprBinary) -> R<V> {
        use syn::BinOp::*;
        let site = self.site(b.op.span());
        match &b.op {
            And(_) => {
                let l = self.eval_cond(&b.left)?;
                if !l {
                    return Ok(V::Bool(false));
                }
                let r = self.eval(&b.right)?;
                return Ok(V::Bool(self.truth(r, &site)?));
            }
            Or(_) => {
                let l = self.eval(&b.left)?;
                if self.truth(l, &site)? {
                    return Ok(V::Bool(true));
                }
                let r = self.eval(&b.right)?;
                return Ok(V::Bool(self.truth(r, &site)?));
            }
            _ => {}
        }
        if let AddAssign(_) | SubAssign(_) | MulAssign(_) | DivAssign(_) | BitOrAssign(_) | BitAndAssign(_) | RemAssign(_) | BitXorAssign(_) | ShlAssign(_)
        | ShrAssign(_) = &b.op
        {
            let r = self.eval(&b.right)?;
            let r = self.rv(r)?;
            let Some(p) = self.place_of(&b.left)? else {
                return self.unsup("compound assignment", &site);
            };
            let p = self.deref_place(&p);
            let l = self.load(&p)?;
            let name = match &b.op {
                AddAssign(_) => "+",
                SubAssign(_) => "-",
                MulAssign(_) => "*",
                DivAssign(_) => "/",
                BitOrAssign(_) => "|",
                BitAndAssign(_) => "&",
                BitXorAssign(_) => "^",
                ShlAssign(_) => "<<",
                ShrAssign(_) => ">>",
                _ => "%",
            };
            let v = self.arith(name, l, r, &site)?;
            self.store(&p, v)?;
            return Ok(V::Unit);
        }
        let l = self.eval(&b.left)?;
        let l = self.rv(l)?;
        let r = self.eval(&b.right)?;
        let r = self.rv(r)?;
        Ok(match &b.op {
            Eq(_) => V::Bool(self.eq(&l, &r, &site)?),
            Ne(_) => V::Bool(!self.eq(&l, &r, &site)?),
            Lt(_) => V::Bool(self.lt(&l, &r, &site)?),
            Gt(_) => V::Bool(self.lt(&r, &l, &site)?),
            Le(_) => V::Bool(!self.lt(&r, &l, &site)?),
            Ge(_) => V::Bool(!self.lt(&l, &r, &site)?),
            Add(_) => return self.arith("+", l, r, &site),
            Sub(_) => return self.arith("-", l, r, &site),
            Mul(_) => return self.arith("*", l, r, &site),
            Div(_) => return self.arith("/", l, r, &site),
            Rem(_) => return self.arith("%", l, r, &site),
            BitAnd(_) => return self.arith("&", l, r, &site),
            BitOr(_) => return self.arith("|", l, r, &site),
            BitXor(_) => return self.arith("^", l, r, &site),
            Shl(_) => return self.arith("<<", l, r, &site),
            Shr(_) => return self.arith(">>", l, r, &site),
            _ => return self.unsup("operator", &site),
        })
    }

    /// Whether the function that is interpreted calculates with negative numbers.
    fn signed(&self) -> bool {
        let f = self.frame().func.to_string();
        let Some(d) = self.prog.find_fn(&f) else { return true };
        let text = { let (s, b) = (&d.sig, &d.block); quote::quote!(#s #b).to_string() };
        ["i8", "i16", "i32", "i64", "i128", "isize", "- 1", "< 0", ">= 0"].iter().any(|w| {
            text.match_indices(w).any(|(i, _)| {
                let word = |c: char| c.is_alphanumeric() || c == '_';
                let a = text[..i].chars().last().map(|c| !word(c)).unwrap_or(true);
                let b = text[i + w.len()..].chars().next().map(|c| !word(c)).unwrap_or(true);
                // a negation has no operand before it
                let minus = !w.starts_with('-') || text[..i].trim_end().ends_with(['(', ',', '=', '{', ';', '>', '<', '&', '|']);
                a && b && minus
            })
        })
    }

    /// The implementation of an operator for a type of the program.
    fn op_fn(&self, op: &str, l: &V) -> Option<Rc<crate::load::FnDef>> {
        let path = match l {
            V::Struct(s) => s.path.clone(),
            V::Enum(s) => s.path.clone(),
            _ => return None,
        };
        let (t, m) = match op {
            "+" => ("Add", "add"),
            "-" => ("Sub", "sub"),
            "*" => ("Mul", "mul"),
            "/" => ("Div", "div"),
            "%" => ("Rem", "rem"),
            "&" => ("BitAnd", "bitand"),
            "|" => ("BitOr", "bitor"),
            "^" => ("BitXor", "bitxor"),
            _ => return None,
        };
        self.prog.trait_method(&path, t, m)
    }

    fn arith(&mut self, op: &str, l: V, r: V, site: &Site) -> R<V> {
        match (&l, &r) {
            (V::Int(a), V::Int(b)) => Ok(V::Int(match op {
                "+" => a + b,
                "-" => {
                    if a < b && self.signed() {
                        return Ok(V::Int(a - b));
                    }
                    if a < b {
                        return Err(Ctl::Panic("attempt to subtract with overflow".into(), site.clone()));
                    }
                    a - b
                }
                "*" => a * b,
                "/" | "%" if *b == 0 => return Err(Ctl::Panic("division by zero".into(), site.clone())),
                "/" => a / b,
                "%" => a % b,
                "&" => a & b,
                "|" => a | b,
                "<<" | ">>" if !(0..64).contains(b) => return self.unsup("shift", site),
                "<<" => a << b,
                ">>" => a >> b,
                _ => a ^ b,
            })),
            (V::Struct(_) | V::Enum(_), _) if self.op_fn(op, &l).is_some() => {
                let f = self.op_fn(op, &l).expect("operator");
                self.call_fn(&f, vec![l, r], BTreeMap::new())
            }
            (V::Str(a), _) if op == "+" => {
                let mut p = (**a).clone();
                p.extend(self.display(r, site)?);
                Ok(V::str_parts(p))
            }
            (V::Bool(_), _) | (_, V::Bool(_)) => {
                let a = self.truth(l, site)?;
                let b = self.truth(r, site)?;
                Ok(V::Bool(match op {
                    "&" => a && b,
                    "|" => a || b,
                    _ => a != b,
                }))
            }
            (V::Sym(a), V::Sym(b)) if term_ty(*a).head() == "bool" || term_ty(*b).head() == "bool" => {
                let a = self.truth(l, site)?;
                let b = self.truth(r, site)?;
                Ok(V::Bool(match op {
                    "&" => a && b,
                    "|" => a || b,
                    _ => a != b,
                }))
            }
            _ => {
                let ty = self.ty_of(&l);
                Ok(V::app(op, vec![l, r], ty))
            }
        }
    }

    fn index(&mut self, b: V, i: V, site: &Site) -> R<V> {
        match (&b, &i) {
            (V::Seq(s), V::Int(i)) => match s.get(*i as usize) {
                Some(v) => Ok(v.clone()),
                None => Err(Ctl::Panic("index out of bounds".into(), site.clone())),
            },
            (V::Sym(t), V::Int(i)) if term_ty(*t).head() == "Vec" => {
                let s = self.seq_of(*t);
                match s.get(*i as usize) {
                    Some(v) => Ok(v.clone()),
                    None => Err(Ctl::Panic("index out of bounds".into(), site.clone())),
                }
            }
            (V::Map(_), _) => {
                let o = self.builtin(None, b.clone(), "get", vec![i], None, site)?;
                match self.opt(o, site)? {
                    Some(v) => Ok(v),
                    None => Err(Ctl::Panic("key not found".into(), site.clone())),
                }
            }
            (V::Seq(s), V::Range(r)) => {
                let a = match &r.0 {
                    Some(V::Int(i)) => *i as usize,
                    None => 0,
                    _ => return self.unsup("slice", site),
                };
                let e = match &r.1 {
                    Some(V::Int(i)) => *i as usize + r.2 as usize,
                    None => s.len(),
                    _ => return self.unsup("slice", site),
                };
                if a > e || e > s.len() {
                    return Err(Ctl::Panic("slice out of bounds".into(), site.clone()));
                }
                Ok(V::seq(s[a..e].to_vec()))
            }
            (V::Str(s), V::Range(r)) => {
                if r.0.is_none() && r.1.is_none() {
                    return Ok(b.clone());
                }
                if let (Some(l), Some(V::Int(0)) | None, Some(V::Int(n))) = (sp_lit(s), &r.0, &r.1) {
                    let n = *n as usize + r.2 as usize;
                    if let Some(x) = l.get(..n) {
                        return Ok(lit(x));
                    }
                    return Err(Ctl::Panic("slice of a string".into(), site.clone()));
                }
                if let (Some(l), Some(V::Int(_)) | None, Some(V::Int(_)) | None) = (sp_lit(s), &r.0, &r.1) {
                    let n = |v: &Option<V>, d: usize| match v {
                        Some(V::Int(i)) => *i as usize,
                        _ => d,
                    };
                    let (a, e) = (n(&r.0, 0), n(&r.1, l.len()) + (r.2 && r.1.is_some()) as usize);
                    if let Some(x) = l.get(a..e) {
                        return Ok(lit(x));
                    }
                    return Err(Ctl::Panic("slice of a string".into(), site.clone()));
                }
                // may hit the middle of a character or be out of bounds
                self.event("str-slice", vec![b.clone(), i.clone()], site);
                if self.choose(2) == 0 {
                    Ok(V::app("slice", vec![b, i], Ty::adt("String")))
                } else {
                    Err(Ctl::Panic("slice of a string at a position that is not a character boundary".into(), site.clone()))
                }
            }
            _ => self.unsup(format!("index {:?}[{:?}]", b, i), site),
        }
    }

    fn eval_struct(&mut self, s: &syn::ExprStruct) -> R<V> {
        let site = self.site(s.path.span());
        let mut r = self.resolve(&s.path);
        if let Some((t, m)) = self.prog.aliases.get(&r) {
            r = self.prog.ty(m, t, None, &[]).head().to_string();
        }
        let (path, variant, defs): (String, Option<String>, Vec<Field>) = if let Some(d) = self.prog.structs.get(&r) {
            (r.clone(), None, d.fields.clone())
        } else if let Some((pre, name)) = r.rsplit_once("::") {
            if let Some(v) = self.prog.enums.get(pre).and_then(|e| e.variants.iter().find(|v| v.name == name)) {
                (pre.to_string(), Some(name.to_string()), v.fields.clone())
            } else if name.chars().next().map(|c| c.is_uppercase()).unwrap_or(false) {
                // external struct or struct variant
                let pre_up = last(pre).chars().next().map(|c| c.is_uppercase()).unwrap_or(false);
                if pre_up {
                    (pre.to_string(), Some(name.to_string()), vec![])
                } else {
                    (r.clone(), None, vec![])
                }
            } else {
                return self.unsup(format!("struct {}", r), &site);
            }
        } else {
            (r.clone(), None, vec![])
        };
        let mut given: Vec<(String, V)> = vec![];
        for f in &s.fields {
            let name = match &f.member {
                syn::Member::Named(n) => n.to_string(),
                syn::Member::Unnamed(i) => i.index.to_string(),
            };
            let ty = defs.iter().find(|d| d.name == name).map(|d| d.ty.clone());
            let v = self.eval_ex(&f.expr, ty.as_ref())?;
            let v = match &ty {
                Some(t) => self.coerce(v, t, &site)?,
                None => v,
            };
            given.push((name, v));
        }
        let mut fields: Vec<(Rc<str>, V)> = vec![];
        if defs.is_empty() {
            given.sort_by(|a, b| a.0.cmp(&b.0));
            fields = given.into_iter().map(|(a, b)| (Rc::from(a.as_str()), b)).collect();
        } else {
            let rest = match &s.rest {
                Some(e) => {
                    let v = self.eval_ex(e, Some(&Ty::adt(&path)))?;
                    let v = self.coerce(v, &Ty::adt(&path), &site)?;
                    Some(self.rv(v)?)
                }
                None => None,
            };
            for d in &defs {
                if let Some((_, v)) = given.iter().find(|(n, _)| *n == d.name) {
                    fields.push((Rc::from(d.name.as_str()), v.clone()));
                } else if let Some(r) = &rest {
                    let x = self.proj(r, &Proj::Field(d.name.as_str().into()))?;
                    fields.push((Rc::from(d.name.as_str()), x));
                } else {
                    return self.unsup(format!("missing field {}", d.name), &site);
                }
            }
        }
        let v = match variant {
            Some(v) => V::Enum(Rc::new(EnumV {
                path: path.as_str().into(),
                variant: v.as_str().into(),
                fields,
            })),
            None => V::Struct(Rc::new(StructV {
                path: path.as_str().into(),
                fields,
            })),
        };
        if let V::Enum(e) = &v {
            if e.path.ends_with("Error") {
                self.event("err", vec![], &site);
            }
        }
        let hooks = self.hooks.clone();
        if let Some(r) = hooks.call(self, "#struct", &[v.clone()], &site) {
            return r;
        }
        Ok(v)
    }

    fn eval_path(&mut self, p: &syn::ExprPath, expect: Option<&Ty>) -> R<V> {
        let site = self.site(p.span());
        if p.qself.is_none() {
            if let Some(id) = p.path.get_ident() {
                let n = id.to_string();
                if let Some(c) = self.lookup(&n) {
                    return Ok(self.st.store[c].clone());
                }
            }
        }
        let r = self.resolve_expr_path(p);
        match r.as_str() {
            "None" | "Option::None" => return Ok(V::none()),
            "Some" | "Ok" | "Err" => return Ok(V::Fn(r.as_str().into())),
            _ => {}
        }
        if self.prog.consts.contains_key(&r) {
            return self.eval_const(&r);
        }
        if let Some((pre, name)) = r.rsplit_once("::") {
            if let Some(v) = self.prog.enums.get(pre).and_then(|e| e.variants.iter().find(|v| v.name == name)) {
                if v.fields.is_empty() {
                    return Ok(V::en(pre, name, vec![]));
                }
                return Ok(V::Fn(r.as_str().into()));
            }
        }
        if let Some(s) = self.prog.structs.get(&r) {
            if s.fields.is_empty() {
                return Ok(V::st(&r, vec![]));
            }
            return Ok(V::Fn(r.as_str().into()));
        }
        let _ = expect;
        match r.as_str() {
            r => {
                if let Some((t, end @ ("MAX" | "MIN"))) = r.rsplit_once("::") {
                    if let Some((lo, hi)) = crate::stdm::int_range(last(t)) {
                        return Ok(V::Int(if end == "MAX" { hi } else { lo }));
                    }
                }
            }
        }
        // constants and unit variants of other crates
        let lastseg = last(&r);
        if lastseg.chars().all(|c| c.is_uppercase() || c == '_' || c.is_ascii_digit()) {
            let hooks = self.hooks.clone();
            if let Some(v) = hooks.call(self, &format!("#const:{}", r), &[], &site) {
                return v;
            }
            return Ok(V::var(&r, Ty::Unknown));
        }
        if lastseg.chars().next().map(|c| c.is_uppercase()).unwrap_or(false) && r.contains("::") && !self.prog.fns.contains_key(&r) {
            let (pre, name) = r.rsplit_once("::").unwrap();
            return Ok(V::en(pre, name, vec![]));
        }
        let _ = site;
        Ok(V::Fn(r.as_str().into()))
    }

    pub fn resolve_expr_path(&self, p: &syn::ExprPath) -> String {
        if let Some(q) = &p.qself {
            // <T as Trait>::f
            let ty = self.rty(&q.ty);
            let name = p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
            if q.position > 0 {
                let tr = p.path.segments[q.position - 1].ident.to_string();
                let cand = format!("<{} as {}>::{}", ty.head(), tr, name);
                if self.prog.fns.contains_key(&cand) {
                    return cand;
                }
            }
            return format!("{}::{}", ty.head(), name);
        }
        self.resolve(&p.path)
    }

    fn set_key(&mut self, sp: proc_macro2::Span) {
        let s = sp.start();
        self.key = (self.frame().file.clone(), s.line, s.column);
    }

    fn eval_args(&mut self, args: &syn::punctuated::Punctuated<Expr, syn::Token![,]>, tys: &[Ty]) -> R<Vec<V>> {
        let mut out = vec![];
        for (i, a) in args.iter().enumerate() {
            out.push(self.eval_ex(a, tys.get(i))?);
        }
        Ok(out)
    }

    fn eval_call(&mut self, c: &syn::ExprCall, expect: Option<&Ty>) -> R<V> {
        let site = self.site(c.func.span());
        if let Expr::Path(p) = &*c.func {
            let local = p.path.get_ident().map(|i| self.lookup(&i.to_string()).is_some()).unwrap_or(false);
            if !local || p.qself.is_some() {
                let r = self.resolve_expr_path(p);
                let tys = match self.prog.fns.get(&r) {
                    Some(f) => f.params.clone(),
                    None => match (r.as_str(), expect) {
                        ("Some", Some(t)) | ("Ok", Some(t)) => vec![t.arg(0)],
                        ("Err", Some(t)) => vec![t.arg(1)],
                        _ => vec![],
                    },
                };
                let args = self.eval_args(&c.args, &tys)?;
                self.set_key(c.func.span());
                let turbofish = p.path.segments.last().and_then(|s| self.turbofish(&s.arguments));
                // HashMap::<K, V>::new() etc.
                if let ("Default::default", Some(t)) = (r.as_str(), expect) {
                    return self.default_of(t, &site);
                }
                // trait method by path, the type is that of the first argument or of the expected value
                if let Some((pre, name)) = r.rsplit_once("::") {
                    if matches!(last(pre), "FromStr" | "From" | "TryFrom") && self.frame().file.as_ref() != "" {
                        if let Some(t) = expect {
                            let target = if last(pre) == "From" { t.clone() } else { t.arg(0) };
                            if let Some(f) = self.prog.trait_method(target.head(), last(pre), name) {
                                return self.call_fn(&f, args, BTreeMap::new());
                            }
                        }
                    }
                    if !self.prog.fns.contains_key(&r) && self.prog.traits.contains_key(pre) {
                        if let Some((recv, rest)) = args.split_first() {
                            return self.method_on(recv.clone(), name, rest.to_vec(), None, &site);
                        }
                    }
                }
                return self.call_named(&r, args, turbofish, &site);
            }
        }
        let f = self.eval(&c.func)?;
        let args = self.eval_args(&c.args, &[])?;
        self.call_value(&f, args, &site)
    }

    fn turbofish(&self, a: &syn::PathArguments) -> Option<Ty> {
        match a {
            syn::PathArguments::AngleBracketed(a) => a.args.iter().find_map(|g| match g {
                syn::GenericArgument::Type(t) => Some(self.rty(t)),
                _ => None,
            }),
            _ => None,
        }
    }

    fn eval_method(&mut self, m: &syn::ExprMethodCall, expect: Option<&Ty>) -> R<V> {
        let site = self.site(m.method.span());
        let name = m.method.to_string();
        if self.in_gen() {
            self.last_gen = Some(site.clone());
        }
        let tf = m.turbofish.as_ref().and_then(|t| {
            t.args.iter().find_map(|g| match g {
                syn::GenericArgument::Type(t) => Some(self.rty(t)),
                _ => None,
            })
        });
        let place = self.place_of(&m.receiver)?;
        let (recv, place) = match place {
            Some(p) => {
                let p = self.deref_place(&p);
                (self.load(&p)?, Some(p))
            }
            None => {
                let v = self.eval(&m.receiver)?;
                match v {
                    V::Mut(p) => {
                        let p = self.deref_place(&p);
                        (self.load(&p)?, Some(p))
                    }
                    v => (v, None),
                }
            }
        };
        // argument types of workspace methods direct conversions
        let tys: Vec<Ty> = match self.find_method(&recv, &name) {
            Some(f) => f.params.iter().skip(1).cloned().collect(),
            None => vec![],
        };
        let args = self.eval_args(&m.args, &tys)?;
        self.set_key(m.method.span());
        // the arguments may have changed the receiver
        let recv = match &place {
            Some(p) => self.load(p)?,
            None => recv,
        };
        let hint = tf.or_else(|| match name.as_str() {
            "collect" | "unwrap_or_default" | "into" | "parse" | "default" | "sum" | "try_into" => expect.cloned(),
            _ => None,
        });
        self.method_dispatch(place, recv, &name, args, hint, &site)
    }

    pub fn method_on(&mut self, recv: V, name: &str, args: Vec<V>, hint: Option<Ty>, site: &Site) -> R<V> {
        match recv {
            V::Mut(p) => {
                let p = self.deref_place(&p);
                let v = self.load(&p)?;
                self.method_dispatch(Some(p), v, name, args, hint, site)
            }
            v => self.method_dispatch(None, v, name, args, hint, site),
        }
    }

    fn heads(&self, v: &V) -> Vec<String> {
        match v {
            V::Str(_) => vec!["str".into(), "String".into(), "Cow".into()],
            V::Ident(_) => vec!["syn::Ident".into(), "proc_macro2::Ident".into()],
            V::Tokens(_) => vec!["proc_macro2::TokenStream".into()],
            V::Fn(_) | V::Closure(_) => vec![],
            v => vec![self.ty_of(v).head().to_string()],
        }
    }

    pub fn find_method(&self, recv: &V, name: &str) -> Option<Rc<FnDef>> {
        for h in self.heads(recv) {
            if let Some(f) = self.prog.method(&h, name) {
                if f.has_self() {
                    return Some(f);
                }
            }
        }
        // default methods of workspace traits
        for h in self.heads(recv) {
            for i in &self.prog.impls {
                if i.self_ty.head() == h || matches!(i.self_ty, Ty::Param(_)) {
                    if let Some(t) = &i.trait_ {
                        if let Some(f) = self.prog.traits.get(t).and_then(|t| t.get(name)) {
                            return Some(f.clone());
                        }
                    }
                    if matches!(i.self_ty, Ty::Param(_)) {
                        if let Some(f) = i.fns.iter().find(|f| f.name == name) {
                            return Some(f.clone());
                        }
                    }
                }
            }
        }
        None
    }

    pub fn method_dispatch(&mut self, place: Option<Place>, recv: V, name: &str, args: Vec<V>, hint: Option<Ty>, site: &Site) -> R<V> {
        let hooks = self.hooks.clone();
        if let Some(r) = hooks.method(self, &recv, &place, name, &args, site) {
            return r;
        }
        if let Some(f) = self.find_method(&recv, name) {
            let self_arg = if f.self_is_mut_ref() {
                let p = match place {
                    Some(p) => p,
                    None => Place {
                        cell: self.alloc(recv.clone()),
                        proj: vec![],
                    },
                };
                V::Mut(Rc::new(p))
            } else {
                recv.clone()
            };
            let mut all = vec![self_arg];
            all.extend(args);
            return self.call_fn(&f, all, BTreeMap::new());
        }
        // generic trait bound: From/Into handled by builtin; Deref of workspace types
        if let V::Struct(s) = &recv {
            if let Some(f) = self.prog.trait_method(&s.path, "Deref", "deref") {
                if !matches!(name, "clone" | "into" | "to_owned" | "as_ref" | "borrow") {
                    if let (Some(p), Some(f)) = (&place, self.prog.trait_method(&s.path, "DerefMut", "deref_mut")) {
                        let v = self.call_fn(&f, vec![V::Mut(Rc::new(p.clone()))], BTreeMap::new())?;
                        if matches!(v, V::Mut(_)) {
                            return self.method_on(v, name, args, hint, site);
                        }
                    }
                    let v = self.call_fn(&f, vec![recv.clone()], BTreeMap::new())?;
                    return self.method_on(v, name, args, hint, site);
                }
            }
        }
        self.builtin(place, recv, name, args, hint, site)
    }

    // ------------------------------------------------------------------ macros

    pub fn eval_macro(&mut self, m: &syn::Macro) -> R<V> {
        self.eval_macro_ex(m, None)
    }

    pub fn eval_macro_ex(&mut self, m: &syn::Macro, _expect: Option<&Ty>) -> R<V> {
        let site = self.site(m.path.span());
        let name = m.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
        let hooks = self.hooks.clone();
        if let Some(r) = hooks.mac(self, &name, m, &site) {
            return r;
        }
        let parse_args = |m: &syn::Macro| -> Option<Vec<Expr>> {
            m.parse_body_with(syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated)
                .ok()
                .map(|p| p.into_iter().collect())
        };
        match name.as_str() {
            "quote" => {
                let ts = self.quote(m.tokens.clone(), &site)?;
                Ok(V::tokens(ts))
            }
            "quote_spanned" | "parse_quote" | "parse_quote_spanned" => {
                let mut toks: Vec<proc_macro2::TokenTree> = m.tokens.clone().into_iter().collect();
                if name.ends_with("spanned") {
                    if let Some(i) = toks.windows(2).position(|w| {
                        matches!((&w[0], &w[1]), (proc_macro2::TokenTree::Punct(a), proc_macro2::TokenTree::Punct(b)) if a.as_char()=='=' && b.as_char()=='>')
                    }) {
                        toks.drain(..i + 2);
                    }
                }
                let ts = self.quote(toks.into_iter().collect(), &site)?;
                Ok(V::tokens(ts))
            }
            "format" => {
                let p = self.format_args(m, 0, &site)?;
                Ok(V::str_parts(p))
            }
            "format_ident" => {
                let p = self.format_args(m, 0, &site)?;
                self.event("format_ident", vec![V::str_parts(p.clone())], &site);
                // r# is not part of the name
                Ok(V::Ident(Rc::new(norm_sp(p))))
            }
            "write" | "writeln" => {
                let Some(args) = m.parse_body_with(syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated).ok() else {
                    return self.unsup("write!", &site);
                };
                let p = self.format_args(m, 1, &site)?;
                let mut p = p;
                if name == "writeln" {
                    p.push(SP::Lit("\n".into()));
                }
                let dst = self.eval(&args[0])?;
                let place = match dst {
                    V::Mut(q) => Some(self.deref_place(&q)),
                    _ => match self.place_of(&args[0])? {
                        Some(q) => Some(self.deref_place(&q)),
                        None => None,
                    },
                };
                match place {
                    Some(q) => {
                        if let V::Str(s) = self.load(&q)? {
                            let mut x = (*s).clone();
                            x.extend(p);
                            self.store(&q, V::str_parts(x))?;
                            return Ok(V::ok(V::Unit));
                        }
                        self.unsup("write! target", &site)
                    }
                    None => self.unsup("write! target", &site),
                }
            }
            "vec" => {
                if let Some(args) = parse_args(m) {
                    let mut out = vec![];
                    for a in &args {
                        out.push(self.eval(a)?);
                    }
                    return Ok(V::seq(out));
                }
                // vec![x; n]
                let r: Option<(Expr, Expr)> = m
                    .parse_body_with(|i: syn::parse::ParseStream| {
                        let a: Expr = i.parse()?;
                        let _: syn::Token![;] = i.parse()?;
                        let b: Expr = i.parse()?;
                        Ok((a, b))
                    })
                    .ok();
                if let Some((a, b)) = r {
                    let v = self.eval(&a)?;
                    let n = self.eval(&b)?;
                    if let V::Int(n) = n {
                        if n < 64 {
                            return Ok(V::seq(vec![v; n as usize]));
                        }
                    }
                }
                self.unsup("vec!", &site)
            }
            "matches" => {
                let r: syn::Result<(Expr, Pat, Option<Expr>)> = m.parse_body_with(|i: syn::parse::ParseStream| {
                    let e: Expr = i.parse()?;
                    let _: syn::Token![,] = i.parse()?;
                    let p = Pat::parse_multi_with_leading_vert(i)?;
                    let g = if i.peek(syn::Token![if]) {
                        let _: syn::Token![if] = i.parse()?;
                        Some(i.parse::<Expr>()?)
                    } else {
                        None
                    };
                    let _: Option<syn::Token![,]> = i.parse()?;
                    Ok((e, p, g))
                });
                match r {
                    Ok((e, p, g)) => {
                        let (v, mode) = self.eval_scrutinee(&e)?;
                        let saved = self.push_scope();
                        let r = (|| {
                            if !self.bind_pat(&p, v, mode)? {
                                return Ok(false);
                            }
                            match &g {
                                Some(g) => self.eval_cond(g),
                                None => Ok(true),
                            }
                        })();
                        self.env = saved;
                        Ok(V::Bool(r?))
                    }
                    Err(_) => self.unsup("matches!", &site),
                }
            }
            "unreachable" | "panic" | "todo" | "unimplemented" => Err(Ctl::Panic(format!("{}!", name), site)),
            "assert" | "assert_eq" | "assert_ne" => {
                let Some(args) = parse_args(m) else {
                    return self.unsup(name, &site);
                };
                let ok = match name.as_str() {
                    "assert" => self.eval_cond(&args[0])?,
                    n => {
                        let a = self.eval(&args[0])?;
                        let b = self.eval(&args[1])?;
                        self.eq(&a, &b, &site)? == (n == "assert_eq")
                    }
                };
                if ok {
                    Ok(V::Unit)
                } else {
                    Err(Ctl::Panic(format!("{}!", name), site))
                }
            }
            "debug_assert" | "debug_assert_eq" | "debug_assert_ne" | "println" | "eprintln" | "print" | "eprint" | "dbg" | "log" | "trace" | "debug" => Ok(V::Unit),
            "concat" | "stringify" => Ok(lit(&m.tokens.to_string())),
            "env" => Ok(V::var(&format!("env!({})", m.tokens), Ty::adt("str"))),
            _ => self.unsup(format!("macro {}!", name), &site),
        }
    }

    /// Arguments of `format!` and friends, skipping the first `skip` ones.
    pub fn format_args(&mut self, m: &syn::Macro, skip: usize, site: &Site) -> R<Vec<SP>> {
        let args = m.parse_body_with(|i: syn::parse::ParseStream| {
            let mut out: Vec<(Option<String>, Expr)> = vec![];
            while !i.is_empty() {
                if i.peek(syn::Ident) && i.peek2(syn::Token![=]) && !i.peek2(syn::Token![==]) {
                    let n: syn::Ident = i.parse()?;
                    let _: syn::Token![=] = i.parse()?;
                    out.push((Some(n.to_string()), i.parse()?));
                } else {
                    out.push((None, i.parse()?));
                }
                if i.is_empty() {
                    break;
                }
                let _: syn::Token![,] = i.parse()?;
            }
            Ok(out)
        });
        let Ok(args) = args else {
            return self.unsup("format arguments", site);
        };
        let args = &args[skip.min(args.len())..];
        let Some((_, Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(f), .. }))) = args.first() else {
            if args.is_empty() {
                return Ok(vec![]);
            }
            return self.unsup("format string", site);
        };
        let fmt = f.value();
        let rest = &args[1..];
        let mut out = vec![];
        let mut next = 0;
        let cs: Vec<char> = fmt.chars().collect();
        let mut i = 0;
        let mut cur = String::new();
        while i < cs.len() {
            match cs[i] {
                '{' if cs.get(i + 1) == Some(&'{') => {
                    cur.push('{');
                    i += 2;
                }
                '}' if cs.get(i + 1) == Some(&'}') => {
                    cur.push('}');
                    i += 2;
                }
                '{' => {
                    let mut j = i + 1;
                    let mut spec = String::new();
                    while j < cs.len() && cs[j] != '}' {
                        spec.push(cs[j]);
                        j += 1;
                    }
                    i = j + 1;
                    if !cur.is_empty() {
                        out.push(SP::Lit(cur.as_str().into()));
                        cur.clear();
                    }
                    let (name, opts) = match spec.split_once(':') {
                        Some((a, b)) => (a.trim().to_string(), b.trim().to_string()),
                        None => (spec.trim().to_string(), String::new()),
                    };
                    let v = if name.is_empty() {
                        let Some((_, e)) = rest.get(next) else {
                            return self.unsup("format argument", site);
                        };
                        next += 1;
                        self.eval(e)?
                    } else if let Ok(n) = name.parse::<usize>() {
                        let Some((_, e)) = rest.get(n) else {
                            return self.unsup("format argument", site);
                        };
                        self.eval(e)?
                    } else if let Some((_, e)) = rest.iter().find(|(n, _)| n.as_deref() == Some(&name)) {
                        self.eval(e)?
                    } else if let Some(c) = self.lookup(&name) {
                        self.st.store[c].clone()
                    } else {
                        return self.unsup(format!("format argument {}", name), site);
                    };
                    if opts.is_empty() {
                        out.extend(self.display(v, site)?);
                    } else {
                        let v = self.rv(v)?;
                        if let Some(x) = self.formatted(&v, &opts, site)? {
                            out.extend(x);
                            continue;
                        }
                        match V::app(&format!("fmt:{}", opts), vec![v], Ty::adt("String")) {
                            V::Str(p) => out.extend(p.iter().cloned()),
                            _ => unreachable!(),
                        }
                    }
                }
                c => {
                    cur.push(c);
                    i += 1;
                }
            }
        }
        if !cur.is_empty() {
            out.push(SP::Lit(cur.as_str().into()));
        }
        Ok(norm_sp(out))
    }
}

/// A known value as `{:?}` shows it; derived implementations only.
fn debug(prog: &crate::load::Program, v: &V, pretty: bool) -> Option<String> {
    use std::fmt::Write;
    fn block(open: &str, items: Vec<String>, close: &str, pretty: bool, spaced: bool) -> String {
        if items.is_empty() {
            return format!("{}{}", open, close);
        }
        if pretty {
            let mut out = format!("{}\n", open);
            for i in items {
                for l in i.lines() {
                    let _ = writeln!(out, "    {}", l);
                }
                out.pop();
                out.push_str(",\n");
            }
            return out + close.trim_start();
        }
        let s = if spaced { " " } else { "" };
        format!("{}{}{}{}{}", open, s, items.join(", "), s, close)
    }
    let fields = |fs: &[(Rc<str>, V)]| -> Option<(Vec<String>, bool)> {
        let named = fs.iter().any(|(n, _)| n.parse::<usize>().is_err());
        let items = fs
            .iter()
            .map(|(n, v)| Some(if named { format!("{}: {}", n, debug(prog, v, pretty)?) } else { debug(prog, v, pretty)? }))
            .collect::<Option<Vec<_>>>()?;
        Some((items, named))
    };
    let adt = |name: &str, fs: &[(Rc<str>, V)]| -> Option<String> {
        if fs.is_empty() {
            return Some(name.to_string());
        }
        let (items, named) = fields(fs)?;
        Some(if named { block(&format!("{} {{", name), items, "}", pretty, true) } else { block(&format!("{}(", name), items, ")", pretty, false) })
    };
    Some(match v {
        V::Unit => "()".into(),
        V::Bool(b) => format!("{:?}", b),
        V::Int(i) => format!("{:?}", i),
        V::Char(c) => format!("{:?}", c),
        V::Str(p) => format!("{:?}", sp_lit(p)?),
        V::Tuple(t) => {
            let mut items = t.iter().map(|v| debug(prog, v, pretty)).collect::<Option<Vec<_>>>()?;
            if items.len() == 1 && !pretty {
                items[0].push(',');
            }
            block("(", items, ")", pretty, false)
        }
        V::Seq(t) => block("[", t.iter().map(|v| debug(prog, v, pretty)).collect::<Option<Vec<_>>>()?, "]", pretty, false),
        V::Map(m) if m.rest.is_none() && (m.order == Order::Sorted || m.entries.len() < 2) => {
            let items = m
                .entries
                .iter()
                .map(|(k, v)| {
                    let k = debug(prog, k, pretty)?;
                    Some(if m.is_set { k } else { format!("{}: {}", k, debug(prog, v, pretty)?) })
                })
                .collect::<Option<Vec<_>>>()?;
            block("{", items, "}", pretty, false)
        }
        V::Enum(e) if matches!(&*e.path, "Option" | "Result" | "Ordering") || (prog.enums.contains_key(&*e.path) && prog.trait_method(&e.path, "Debug", "fmt").is_none()) => adt(&e.variant, &e.fields)?,
        V::Struct(s) if prog.structs.contains_key(&*s.path) && prog.trait_method(&s.path, "Debug", "fmt").is_none() => adt(crate::load::last(&s.path), &s.fields)?,
        _ => return None,
    })
}

impl<'p> Interp<'p> {
    /// A known value with format options.
    fn formatted(&mut self, v: &V, opts: &str, site: &Site) -> R<Option<Vec<SP>>> {
        let done = |s: String| Ok(Some(vec![SP::Lit(s.as_str().into())]));
        let v = self.deep_value(v.clone(), 0)?;
        match opts {
            "?" | "#?" => return debug(self.prog, &v, opts == "#?").map_or(Ok(None), done),
            "x" | "X" | "b" | "o" => {
                return match (&v, opts) {
                    (V::Int(i), "x") => done(format!("{:x}", i)),
                    (V::Int(i), "X") => done(format!("{:X}", i)),
                    (V::Int(i), "b") => done(format!("{:b}", i)),
                    (V::Int(i), "o") => done(format!("{:o}", i)),
                    _ => Ok(None),
                }
            }
            _ => {}
        }
        // [[fill]align][+][#][0][width][.precision]
        let cs: Vec<char> = opts.chars().collect();
        let is = |c: Option<&char>| matches!(c, Some('<' | '^' | '>'));
        let (mut fill, mut align, mut i) = (' ', None, 0);
        if is(cs.get(1)) {
            (fill, align, i) = (cs[0], Some(cs[1]), 2);
        } else if is(cs.first()) {
            (align, i) = (Some(cs[0]), 1);
        }
        let plus = cs.get(i) == Some(&'+');
        i += plus as usize;
        let zero = cs.get(i) == Some(&'0');
        i += zero as usize;
        let num = |i: &mut usize| {
            let s: String = cs[*i..].iter().take_while(|c| c.is_ascii_digit()).collect();
            *i += s.len();
            s.parse::<usize>().ok()
        };
        let width = num(&mut i).unwrap_or(0);
        let mut precision = None;
        if cs.get(i) == Some(&'.') {
            i += 1;
            precision = num(&mut i);
        }
        if i != cs.len() {
            return Ok(None);
        }
        let number = matches!(v, V::Int(_));
        let parts = self.display(v, site)?;
        let Some(mut s) = sp_lit(&parts) else { return Ok(None) };
        if let (Some(p), false) = (precision, number) {
            s = s.chars().take(p).collect();
        }
        if plus && number && !s.starts_with('-') {
            s.insert(0, '+');
        }
        let missing = width.saturating_sub(s.chars().count());
        if zero && number {
            let at = s.starts_with(['-', '+']) as usize;
            s.insert_str(at, &"0".repeat(missing));
            return done(s);
        }
        let left = match align {
            Some('>') => missing,
            Some('^') => missing / 2,
            None if number => missing,
            _ => 0,
        };
        let pad = |n: usize| fill.to_string().repeat(n);
        done(format!("{}{}{}", pad(left), s, pad(missing - left)))
    }

    /// The value with all references in it replaced by what they refer to.
    fn deep_value(&mut self, v: V, depth: usize) -> R<V> {
        let v = self.rv(v)?;
        if depth > 6 {
            return Ok(v);
        }
        Ok(match v {
            V::Tuple(t) => V::Tuple(Rc::new(t.iter().map(|v| self.deep_value(v.clone(), depth + 1)).collect::<R<Vec<_>>>()?)),
            V::Seq(t) => V::Seq(Rc::new(t.iter().map(|v| self.deep_value(v.clone(), depth + 1)).collect::<R<Vec<_>>>()?)),
            V::Enum(e) => {
                let mut e = (*e).clone();
                for (_, v) in &mut e.fields {
                    *v = self.deep_value(v.clone(), depth + 1)?;
                }
                V::Enum(Rc::new(e))
            }
            V::Struct(e) => {
                let mut e = (*e).clone();
                for (_, v) in &mut e.fields {
                    *v = self.deep_value(v.clone(), depth + 1)?;
                }
                V::Struct(Rc::new(e))
            }
            v => v,
        })
    }
}

/// Conversion between primitive types, as far as the value is known.
pub fn cast(v: V, t: &str) -> V {
    let i = match &v {
        V::Int(i) => *i,
        V::Char(c) if t != "char" => *c as i128,
        V::Bool(b) => *b as i128,
        _ => return v,
    };
    V::Int(match t {
        "u8" => i as u8 as i128,
        "u16" => i as u16 as i128,
        "u32" => i as u32 as i128,
        "u64" | "usize" => i as u64 as i128,
        "i8" => i as i8 as i128,
        "i16" => i as i16 as i128,
        "i32" => i as i32 as i128,
        "i64" | "isize" => i as i64 as i128,
        "char" => return char::from_u32(i as u32).map(V::Char).unwrap_or(v),
        "u128" | "i128" => i,
        _ => return v,
    })
}

pub fn pat_names(p: &Pat, out: &mut Vec<String>) {
    match p {
        Pat::Ident(i) => out.push(i.ident.to_string()),
        Pat::Type(t) => pat_names(&t.pat, out),
        Pat::Tuple(t) => t.elems.iter().for_each(|e| pat_names(e, out)),
        _ => {}
    }
}
