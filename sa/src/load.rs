//! Loads the source of the workspace crates (and of generated code) into symbol tables.
use std::collections::{BTreeMap, HashMap};
use std::fs;
use std::path::{Path, PathBuf};
use std::rc::Rc;

/// Simplified, resolved type. References, boxes and lifetimes are stripped.
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Ty {
    Adt(String, Vec<Ty>),
    Tuple(Vec<Ty>),
    Param(String),
    Unknown,
}

impl Ty {
    pub fn adt(n: &str) -> Ty {
        Ty::Adt(n.to_string(), vec![])
    }
    pub fn head(&self) -> &str {
        match self {
            Ty::Adt(n, _) => n,
            Ty::Tuple(_) => "()",
            Ty::Param(_) | Ty::Unknown => "?",
        }
    }
    pub fn is_str(&self) -> bool {
        match self {
            Ty::Adt(n, a) => match n.as_str() {
                "str" | "String" => true,
                "Cow" => a.first().map(|t| t.is_str()).unwrap_or(false),
                _ => false,
            },
            _ => false,
        }
    }
    pub fn arg(&self, i: usize) -> Ty {
        match self {
            Ty::Adt(_, a) => a.get(i).cloned().unwrap_or(Ty::Unknown),
            _ => Ty::Unknown,
        }
    }
    pub fn is_int(&self) -> bool {
        matches!(
            self.head(),
            "u8" | "u16" | "u32" | "u64" | "usize" | "i8" | "i16" | "i32" | "i64" | "isize" | "u128" | "i128"
        )
    }
}

pub struct FnDef {
    pub path: String,
    pub name: String,
    pub sig: syn::Signature,
    pub block: Rc<syn::Block>,
    pub module: String,
    pub self_ty: Option<Ty>,
    pub trait_: Option<String>,
    pub is_pub: bool,
    pub file: String,
    pub ret: Ty,
    pub params: Vec<Ty>,
    pub generics: Vec<String>,
    pub trait_pub: bool,
}

impl FnDef {
    pub fn line(&self) -> usize {
        self.sig.ident.span().start().line
    }
    pub fn has_self(&self) -> bool {
        self.sig.receiver().is_some()
    }
    pub fn self_is_mut_ref(&self) -> bool {
        self.sig
            .receiver()
            .map(|r| r.reference.is_some() && r.mutability.is_some())
            .unwrap_or(false)
    }
}

#[derive(Clone, Debug)]
pub struct Field {
    pub name: String,
    pub ty: Ty,
    pub from: bool,
    pub source: bool,
}

#[derive(Clone, Debug)]
pub struct Variant {
    pub name: String,
    pub fields: Vec<Field>,
    pub tuple: bool,
    pub default: bool,
    /// the format string of `#[error("..")]`, if there is one
    pub message: Option<String>,
    pub line: usize,
}

pub struct StructDef {
    pub path: String,
    pub fields: Vec<Field>,
    pub tuple: bool,
    pub derives: Vec<String>,
    pub vis_pub: bool,
    pub file: String,
    pub attrs: Vec<syn::Attribute>,
    pub item: syn::ItemStruct,
}

pub struct EnumDef {
    pub path: String,
    pub variants: Vec<Variant>,
    pub derives: Vec<String>,
    pub file: String,
    pub attrs: Vec<syn::Attribute>,
}

#[derive(Clone, Debug)]
pub enum Use {
    Path(String, String), // alias, full path
    Glob(String),
}

#[derive(Default)]
pub struct Module {
    pub path: String,
    pub file: String,
    pub uses: Vec<Use>,
    /// the part of `uses` that is visible from elsewhere
    pub pub_uses: Vec<Use>,
    pub items: HashMap<String, &'static str>, // name -> kind
}

pub struct ImplBlock {
    pub self_ty: Ty,
    pub trait_: Option<String>,
    pub trait_args: Vec<Ty>,
    pub fns: Vec<Rc<FnDef>>,
    pub assoc: Vec<(String, Ty)>,
}

#[derive(Default)]
pub struct Program {
    pub modules: BTreeMap<String, Module>,
    pub fns: BTreeMap<String, Rc<FnDef>>,
    pub methods: HashMap<(String, String), Vec<Rc<FnDef>>>,
    pub impls: Vec<ImplBlock>,
    pub structs: BTreeMap<String, Rc<StructDef>>,
    pub enums: BTreeMap<String, Rc<EnumDef>>,
    pub consts: BTreeMap<String, (Rc<syn::Expr>, String, Ty)>,
    pub aliases: BTreeMap<String, (syn::Type, String)>,
    pub traits: BTreeMap<String, BTreeMap<String, Rc<FnDef>>>,
    pub macros: BTreeMap<String, String>,
    pub files: Vec<(String, usize)>,
    pub errors: Vec<String>,
    /// fields that are declared as `VecDeque`
    pub deque_fields: std::collections::BTreeSet<(String, String)>,
    /// types of calls that are only known from where their result is used
    pub inferred: std::cell::RefCell<HashMap<(String, usize, usize), Ty>>,
}

pub fn attr_is_cfg_test(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| {
        a.path().is_ident("cfg")
            && match &a.meta {
                syn::Meta::List(l) => l.tokens.to_string().replace(' ', "") == "test",
                _ => false,
            }
    })
}

pub fn derives(attrs: &[syn::Attribute]) -> Vec<String> {
    let mut out = vec![];
    for a in attrs {
        if a.path().is_ident("derive") {
            let _ = a.parse_nested_meta(|m| {
                if let Some(s) = m.path.segments.last() {
                    out.push(s.ident.to_string());
                }
                Ok(())
            });
        }
    }
    out
}

const STD_CRATES: &[&str] = &["std", "core", "alloc"];

/// Paths of std are known by their last segment only.
fn canon(path: &str) -> String {
    let p = path.trim_start_matches("::");
    let first = p.split("::").next().unwrap_or("");
    if STD_CRATES.contains(&first) {
        let segs: Vec<&str> = p.split("::").collect();
        // keep the module for free functions such as mem::take
        if segs.len() >= 2 {
            let last = segs[segs.len() - 1];
            if last.chars().next().map(|c| c.is_lowercase()).unwrap_or(false) && !matches!(last, "str") {
                return segs[1..].join("::");
            }
            return last.to_string();
        }
        return segs.last().unwrap().to_string();
    }
    p.to_string()
}


type Decl = (String, Vec<syn::Item>, String);

fn find_mod(dir: &Path, name: &str) -> Option<PathBuf> {
    let a = dir.join(format!("{}.rs", name));
    if a.exists() {
        return Some(a);
    }
    let b = dir.join(name).join("mod.rs");
    if b.exists() {
        return Some(b);
    }
    None
}

pub const CRATES: &[(&str, &str)] = &[("xsd", "xsd"), ("xsd_internal", "xsd-internal"), ("xsd_derive", "xsd-derive")];

impl Program {
    /// A function by its path, or by the last parts of it if it has been moved to another module.
    pub fn find_fn(&self, path: &str) -> Option<Rc<FnDef>> {
        if let Some(f) = self.fns.get(path) {
            return Some(f.clone());
        }
        let krate = path.split("::").next().unwrap_or("");
        let seg: Vec<&str> = path.split("::").collect();
        let tail = seg[seg.len().saturating_sub(2)..].join("::");
        let mut c = self.fns.iter().filter(|(k, _)| k.split("::").next() == Some(krate) && k.ends_with(&format!("::{}", tail)));
        match (c.next(), c.next()) {
            (Some(f), None) => Some(f.1.clone()),
            _ => None,
        }
    }

    pub fn load(repo: &Path) -> Program {
        let mut p = Program::default();
        let mut decls = vec![];
        for (krate, dir) in CRATES {
            let f = repo.join(dir).join("src/lib.rs");
            p.load_file(krate, &f, repo, true, &mut decls);
        }
        for (m, items, f) in decls {
            p.define(&m, &items, &f);
        }
        p
    }

    /// Adds a module that only exists as text, i.e., generated code.
    pub fn add_module(&mut self, module: &str, items: Vec<syn::Item>, file: &str) {
        let mut decls = vec![];
        self.declare(module, items, file, Path::new("/nonexistent"), Path::new("/"), &mut decls);
        for (m, items, f) in decls {
            self.define(&m, &items, &f);
        }
    }

    pub fn remove_module(&mut self, module: &str) {
        let pre = format!("{}::", module);
        self.inferred.borrow_mut().clear();
        self.modules.remove(module);
        self.modules.retain(|k, _| !k.starts_with(&pre));
        self.fns.retain(|k, _| !k.starts_with(&pre));
        self.structs.retain(|k, _| !k.starts_with(&pre));
        self.enums.retain(|k, _| !k.starts_with(&pre));
        self.consts.retain(|k, _| !k.starts_with(&pre));
        self.methods.retain(|(t, _), _| !t.starts_with(&pre));
        self.impls.retain(|i| !i.self_ty.head().starts_with(&pre));
    }

    fn load_file(&mut self, module: &str, file: &Path, repo: &Path, is_root: bool, decls: &mut Vec<Decl>) {
        let rel = file.strip_prefix(repo).unwrap_or(file).to_string_lossy().to_string();
        let text = match fs::read_to_string(file) {
            Ok(t) => t,
            Err(e) => {
                self.errors.push(format!("{}: {}", rel, e));
                return;
            }
        };
        let ast = match syn::parse_file(&text) {
            Ok(a) => a,
            Err(e) => {
                self.errors.push(format!("{}: {}", rel, e));
                return;
            }
        };
        self.files.push((rel.clone(), text.lines().count()));
        let dir = if is_root || file.file_name().map(|f| f == "mod.rs").unwrap_or(false) {
            file.parent().unwrap().to_path_buf()
        } else {
            file.with_extension("")
        };
        self.declare(module, ast.items, &rel, &dir, repo, decls);
    }

    fn declare(&mut self, module: &str, items: Vec<syn::Item>, file: &str, dir: &Path, repo: &Path, decls: &mut Vec<Decl>) {
        let mut m = Module {
            path: module.to_string(),
            file: file.to_string(),
            ..Default::default()
        };
        let mut keep = vec![];
        let mut subs: Vec<(String, syn::ItemMod)> = vec![];
        for item in items {
            match item {
                syn::Item::Mod(i) => {
                    if attr_is_cfg_test(&i.attrs) {
                        continue;
                    }
                    m.items.insert(i.ident.to_string(), "mod");
                    subs.push((i.ident.to_string(), i));
                }
                syn::Item::Use(u) => {
                    if attr_is_cfg_test(&u.attrs) {
                        continue;
                    }
                    let lead = u.leading_colon.is_some();
                    flatten_use(&u.tree, if lead { "::".to_string() } else { String::new() }, &mut m.uses);
                    if !matches!(u.vis, syn::Visibility::Inherited) {
                        flatten_use(&u.tree, if lead { "::".to_string() } else { String::new() }, &mut m.pub_uses);
                    }
                }
                syn::Item::Fn(i) => {
                    if attr_is_cfg_test(&i.attrs) || i.attrs.iter().any(|a| a.path().is_ident("test")) {
                        continue;
                    }
                    m.items.insert(i.sig.ident.to_string(), "fn");
                    keep.push(syn::Item::Fn(i));
                }
                syn::Item::Struct(i) => {
                    m.items.insert(i.ident.to_string(), "struct");
                    keep.push(syn::Item::Struct(i));
                }
                syn::Item::Enum(i) => {
                    m.items.insert(i.ident.to_string(), "enum");
                    keep.push(syn::Item::Enum(i));
                }
                syn::Item::Const(i) => {
                    m.items.insert(i.ident.to_string(), "const");
                    keep.push(syn::Item::Const(i));
                }
                syn::Item::Static(i) => {
                    m.items.insert(i.ident.to_string(), "const");
                    keep.push(syn::Item::Static(i));
                }
                syn::Item::Type(i) => {
                    m.items.insert(i.ident.to_string(), "alias");
                    keep.push(syn::Item::Type(i));
                }
                syn::Item::Trait(i) => {
                    m.items.insert(i.ident.to_string(), "trait");
                    keep.push(syn::Item::Trait(i));
                }
                syn::Item::Impl(i) => {
                    if attr_is_cfg_test(&i.attrs) {
                        continue;
                    }
                    keep.push(syn::Item::Impl(i));
                }
                syn::Item::Macro(i) => {
                    if let Some(id) = &i.ident {
                        self.macros.insert(id.to_string(), file.to_string());
                    }
                    keep.push(syn::Item::Macro(i));
                }
                other => keep.push(other),
            }
        }
        self.modules.insert(module.to_string(), m);
        decls.push((module.to_string(), keep, file.to_string()));
        for (name, i) in subs {
            let sub = format!("{}::{}", module, name);
            match i.content {
                Some((_, items)) => {
                    let d = dir.join(&name);
                    self.declare(&sub, items, file, &d, repo, decls);
                }
                None => {
                    let path_attr = i.attrs.iter().find(|a| a.path().is_ident("path")).and_then(|a| match &a.meta {
                        syn::Meta::NameValue(nv) => match &nv.value {
                            syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. }) => Some(dir.join(s.value())),
                            _ => None,
                        },
                        _ => None,
                    });
                    match path_attr.or_else(|| find_mod(dir, &name)) {
                        Some(f) => self.load_file(&sub, &f, repo, false, decls),
                        None => self.errors.push(format!("module {} not found", sub)),
                    }
                }
            }
        }
    }

    fn define(&mut self, module: &str, items: &[syn::Item], file: &str) {
        for item in items {
            match item {
                syn::Item::Fn(i) => {
                    let path = format!("{}::{}", module, i.sig.ident);
                    let def = self.mk_fn(module, &path, &i.sig, &i.block, None, None, vec![], file, matches!(i.vis, syn::Visibility::Public(_)));
                    self.fns.insert(path, Rc::new(def));
                }
                syn::Item::Struct(i) => {
                    let path = format!("{}::{}", module, i.ident);
                    let gens = gen_names(&i.generics);
                    let (fields, tuple) = self.mk_fields(module, &i.fields, &gens);
                    for (k, f) in i.fields.iter().enumerate() {
                        let t = quote::ToTokens::to_token_stream(&f.ty).to_string();
                        if t.contains("VecDeque") {
                            let n = fields[k].name.clone();
                            self.deque_fields.insert((format!("{}::{}", module, i.ident), n));
                        }
                    }
                    self.structs.insert(
                        path.clone(),
                        Rc::new(StructDef {
                            path,
                            fields,
                            tuple,
                            derives: derives(&i.attrs),
                            vis_pub: matches!(i.vis, syn::Visibility::Public(_)),
                            file: file.to_string(),
                            attrs: i.attrs.clone(),
                            item: i.clone(),
                        }),
                    );
                }
                syn::Item::Enum(i) => {
                    let path = format!("{}::{}", module, i.ident);
                    let gens = gen_names(&i.generics);
                    let variants = i
                        .variants
                        .iter()
                        .map(|v| {
                            let (fields, tuple) = self.mk_fields(module, &v.fields, &gens);
                            Variant {
                                name: v.ident.to_string(),
                                fields,
                                tuple,
                                default: v.attrs.iter().any(|a| a.path().is_ident("default")),
                                message: v.attrs.iter().filter(|a| a.path().is_ident("error")).find_map(|a| match &a.meta {
                                    syn::Meta::List(l) => l.tokens.clone().into_iter().next().and_then(|t| syn::parse_str::<syn::LitStr>(&t.to_string()).ok()).map(|l| l.value()),
                                    _ => None,
                                }),
                                line: v.ident.span().start().line,
                            }
                        })
                        .collect();
                    self.enums.insert(
                        path.clone(),
                        Rc::new(EnumDef {
                            path,
                            variants,
                            derives: derives(&i.attrs),
                            file: file.to_string(),
                            attrs: i.attrs.clone(),
                        }),
                    );
                }
                syn::Item::Const(i) => {
                    let path = format!("{}::{}", module, i.ident);
                    let ty = self.ty(module, &i.ty, None, &[]);
                    self.consts.insert(path, (Rc::new((*i.expr).clone()), module.to_string(), ty));
                }
                syn::Item::Static(i) => {
                    let path = format!("{}::{}", module, i.ident);
                    let ty = self.ty(module, &i.ty, None, &[]);
                    self.consts.insert(path, (Rc::new((*i.expr).clone()), module.to_string(), ty));
                }
                syn::Item::Type(i) => {
                    let path = format!("{}::{}", module, i.ident);
                    self.aliases.insert(path, ((*i.ty).clone(), module.to_string()));
                }
                syn::Item::Trait(i) => {
                    let path = format!("{}::{}", module, i.ident);
                    let mut defaults = BTreeMap::new();
                    for it in &i.items {
                        if let syn::TraitItem::Fn(f) = it {
                            if let Some(b) = &f.default {
                                let fp = format!("{}::{}", path, f.sig.ident);
                                let d = self.mk_fn(module, &fp, &f.sig, b, Some(Ty::Param("Self".into())), Some(path.clone()), vec![], file, true);
                                defaults.insert(f.sig.ident.to_string(), Rc::new(d));
                            }
                        }
                    }
                    self.traits.insert(path, defaults);
                }
                syn::Item::Impl(i) => {
                    let gens = gen_names(&i.generics);
                    let self_ty = self.ty(module, &i.self_ty, None, &gens);
                    let (trait_, targs) = match &i.trait_ {
                        Some((_, p, _)) => {
                            let args = p
                                .segments
                                .last()
                                .map(|s| match &s.arguments {
                                    syn::PathArguments::AngleBracketed(a) => a
                                        .args
                                        .iter()
                                        .filter_map(|g| match g {
                                            syn::GenericArgument::Type(t) => Some(self.ty(module, t, Some(&self_ty), &gens)),
                                            _ => None,
                                        })
                                        .collect(),
                                    _ => vec![],
                                })
                                .unwrap_or_default();
                            (Some(self.resolve_path(module, p)), args)
                        }
                        None => (None, vec![]),
                    };
                    let mut fns = vec![];
                    let mut assoc = vec![];
                    for it in &i.items {
                        match it {
                            syn::ImplItem::Fn(f) => {
                                if attr_is_cfg_test(&f.attrs) {
                                    continue;
                                }
                                let path = match &trait_ {
                                    Some(t) => format!("<{} as {}>::{}", self_ty.head(), last(t), f.sig.ident),
                                    None => format!("{}::{}", self_ty.head(), f.sig.ident),
                                };
                                let d = Rc::new(self.mk_fn(
                                    module,
                                    &path,
                                    &f.sig,
                                    &f.block,
                                    Some(self_ty.clone()),
                                    trait_.clone(),
                                    gens.clone(),
                                    file,
                                    matches!(f.vis, syn::Visibility::Public(_)),
                                ));
                                fns.push(d.clone());
                                self.methods
                                    .entry((self_ty.head().to_string(), f.sig.ident.to_string()))
                                    .or_default()
                                    .push(d.clone());
                                self.fns.insert(path, d);
                            }
                            syn::ImplItem::Type(t) => {
                                assoc.push((t.ident.to_string(), self.ty(module, &t.ty, Some(&self_ty), &gens)));
                            }
                            syn::ImplItem::Const(c) => {
                                let path = format!("{}::{}", self_ty.head(), c.ident);
                                let ty = self.ty(module, &c.ty, Some(&self_ty), &gens);
                                self.consts.insert(path, (Rc::new(c.expr.clone()), module.to_string(), ty));
                            }
                            _ => {}
                        }
                    }
                    self.impls.push(ImplBlock {
                        self_ty,
                        trait_,
                        trait_args: targs,
                        fns,
                        assoc,
                    });
                }
                _ => {}
            }
        }
    }

    #[allow(clippy::too_many_arguments)]
    fn mk_fn(
        &self,
        module: &str,
        path: &str,
        sig: &syn::Signature,
        block: &syn::Block,
        self_ty: Option<Ty>,
        trait_: Option<String>,
        mut gens: Vec<String>,
        file: &str,
        is_pub: bool,
    ) -> FnDef {
        gens.extend(gen_names(&sig.generics));
        let ret = match &sig.output {
            syn::ReturnType::Default => Ty::Tuple(vec![]),
            syn::ReturnType::Type(_, t) => self.ty(module, t, self_ty.as_ref(), &gens),
        };
        let params = sig
            .inputs
            .iter()
            .map(|a| match a {
                syn::FnArg::Receiver(_) => self_ty.clone().unwrap_or(Ty::Unknown),
                syn::FnArg::Typed(t) => self.ty(module, &t.ty, self_ty.as_ref(), &gens),
            })
            .collect();
        FnDef {
            path: path.to_string(),
            name: sig.ident.to_string(),
            sig: sig.clone(),
            block: Rc::new(block.clone()),
            module: module.to_string(),
            self_ty,
            trait_pub: trait_.is_some(),
            trait_,
            is_pub,
            file: file.to_string(),
            ret,
            params,
            generics: gens,
        }
    }

    fn mk_fields(&self, module: &str, fields: &syn::Fields, gens: &[String]) -> (Vec<Field>, bool) {
        let has = |attrs: &[syn::Attribute], n: &str| attrs.iter().any(|a| a.path().is_ident(n));
        match fields {
            syn::Fields::Named(n) => (
                n.named
                    .iter()
                    .map(|f| Field {
                        name: f.ident.as_ref().unwrap().to_string(),
                        ty: self.ty(module, &f.ty, None, gens),
                        from: has(&f.attrs, "from"),
                        source: has(&f.attrs, "source"),
                    })
                    .collect(),
                false,
            ),
            syn::Fields::Unnamed(u) => (
                u.unnamed
                    .iter()
                    .enumerate()
                    .map(|(i, f)| Field {
                        name: i.to_string(),
                        ty: self.ty(module, &f.ty, None, gens),
                        from: has(&f.attrs, "from"),
                        source: has(&f.attrs, "source"),
                    })
                    .collect(),
                true,
            ),
            syn::Fields::Unit => (vec![], false),
        }
    }

    pub fn ty(&self, module: &str, t: &syn::Type, self_ty: Option<&Ty>, gens: &[String]) -> Ty {
        match t {
            syn::Type::Reference(r) => self.ty(module, &r.elem, self_ty, gens),
            syn::Type::Paren(p) => self.ty(module, &p.elem, self_ty, gens),
            syn::Type::Group(p) => self.ty(module, &p.elem, self_ty, gens),
            syn::Type::Tuple(t) => Ty::Tuple(t.elems.iter().map(|e| self.ty(module, e, self_ty, gens)).collect()),
            syn::Type::Slice(s) => Ty::Adt("Vec".into(), vec![self.ty(module, &s.elem, self_ty, gens)]),
            syn::Type::Array(s) => Ty::Adt("Vec".into(), vec![self.ty(module, &s.elem, self_ty, gens)]),
            syn::Type::ImplTrait(i) => self.bounds_ty(module, &i.bounds, self_ty, gens),
            syn::Type::TraitObject(i) => self.bounds_ty(module, &i.bounds, self_ty, gens),
            syn::Type::Path(p) => {
                if p.qself.is_some() {
                    return Ty::Unknown;
                }
                if p.path.is_ident("Self") {
                    return self_ty.cloned().unwrap_or(Ty::Param("Self".into()));
                }
                if let Some(id) = p.path.get_ident() {
                    if gens.contains(&id.to_string()) {
                        return Ty::Param(id.to_string());
                    }
                }
                let name = self.resolve_path(module, &p.path);
                let args: Vec<Ty> = p
                    .path
                    .segments
                    .last()
                    .map(|s| match &s.arguments {
                        syn::PathArguments::AngleBracketed(a) => a
                            .args
                            .iter()
                            .filter_map(|g| match g {
                                syn::GenericArgument::Type(t) => Some(self.ty(module, t, self_ty, gens)),
                                _ => None,
                            })
                            .collect(),
                        _ => vec![],
                    })
                    .unwrap_or_default();
                if let Some((t, m)) = self.aliases.get(&name) {
                    return self.ty(m, t, self_ty, gens);
                }
                match name.as_str() {
                    "Box" | "Rc" | "Arc" => args.into_iter().next().unwrap_or(Ty::Unknown),
                    "VecDeque" => Ty::Adt("Vec".into(), args),
                    "io::Result" => Ty::Adt("Result".into(), vec![args.into_iter().next().unwrap_or(Ty::Unknown), Ty::adt("Error")]),
                    _ => Ty::Adt(name, args),
                }
            }
            _ => Ty::Unknown,
        }
    }

    fn bounds_ty(
        &self,
        module: &str,
        b: &syn::punctuated::Punctuated<syn::TypeParamBound, syn::Token![+]>,
        self_ty: Option<&Ty>,
        gens: &[String],
    ) -> Ty {
        for b in b {
            if let syn::TypeParamBound::Trait(t) = b {
                if let Some(s) = t.path.segments.last() {
                    let n = s.ident.to_string();
                    if n == "Iterator" || n == "IntoIterator" {
                        if let syn::PathArguments::AngleBracketed(a) = &s.arguments {
                            for g in &a.args {
                                if let syn::GenericArgument::AssocType(a) = g {
                                    return Ty::Adt("Iterator".into(), vec![self.ty(module, &a.ty, self_ty, gens)]);
                                }
                            }
                        }
                        return Ty::adt("Iterator");
                    }
                    if n == "AsRef" || n == "Into" {
                        if let syn::PathArguments::AngleBracketed(a) = &s.arguments {
                            for g in &a.args {
                                if let syn::GenericArgument::Type(t) = g {
                                    return self.ty(module, t, self_ty, gens);
                                }
                            }
                        }
                    }
                    return Ty::Adt(format!("dyn {}", n), vec![]);
                }
            }
        }
        Ty::Unknown
    }

    pub fn resolve_path(&self, module: &str, p: &syn::Path) -> String {
        let segs: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
        self.resolve(module, &segs, p.leading_colon.is_some())
    }

    pub fn resolve(&self, module: &str, segs: &[String], abs: bool) -> String {
        self.resolve_d(module, segs, abs, 0)
    }

    fn resolve_d(&self, module: &str, segs: &[String], abs: bool, depth: usize) -> String {
        if segs.is_empty() {
            return module.to_string();
        }
        if depth > 12 {
            return canon(&segs.join("::"));
        }
        let first = segs[0].as_str();
        if abs {
            return self.walk(first, &segs[1..], depth);
        }
        match first {
            "crate" => {
                let root = module.split("::").next().unwrap().to_string();
                return self.walk(&root, &segs[1..], depth);
            }
            "self" => return self.walk(module, &segs[1..], depth),
            "super" => {
                let parent = module.rsplit_once("::").map(|x| x.0).unwrap_or(module);
                if segs.len() > 1 && segs[1] == "super" {
                    return self.resolve_d(parent, &segs[1..], false, depth + 1);
                }
                return self.walk(parent, &segs[1..], depth);
            }
            _ => {}
        }
        if let Some(found) = self.lookup_in(module, first, depth) {
            return self.walk(&found, &segs[1..], depth);
        }
        if self.modules.contains_key(first) {
            return self.walk(first, &segs[1..], depth);
        }
        canon(&segs.join("::"))
    }

    /// Finds what `name` stands for inside of `module`.
    fn lookup_in(&self, module: &str, name: &str, depth: usize) -> Option<String> {
        self.lookup_from(module, name, depth, false)
    }

    fn lookup_from(&self, module: &str, name: &str, depth: usize, outside: bool) -> Option<String> {
        if depth > 12 {
            return None;
        }
        let m = self.modules.get(module)?;
        if m.items.contains_key(name) {
            return Some(format!("{}::{}", module, name));
        }
        let uses = if outside { &m.pub_uses } else { &m.uses };
        for u in uses {
            if let Use::Path(alias, full) = u {
                if alias == name {
                    let abs = full.starts_with("::");
                    let segs: Vec<String> = full.trim_start_matches("::").split("::").map(String::from).collect();
                    // `use foo;` of an extern crate
                    if segs.len() == 1 && segs[0] == name {
                        return Some(canon(full));
                    }
                    return Some(self.resolve_d(module, &segs, abs, depth + 1));
                }
            }
        }
        for u in uses {
            if let Use::Glob(full) = u {
                let abs = full.starts_with("::");
                let segs: Vec<String> = full.trim_start_matches("::").split("::").map(String::from).collect();
                let target = self.resolve_d(module, &segs, abs, depth + 1);
                if target == module {
                    continue;
                }
                if self.modules.contains_key(&target) {
                    if let Some(f) = self.lookup_from(&target, name, depth + 1, !module.starts_with(&format!("{}::", target))) {
                        return Some(f);
                    }
                } else if let Some(e) = self.enums.get(&target) {
                    if e.variants.iter().any(|v| v.name == name) {
                        return Some(format!("{}::{}", target, name));
                    }
                }
            }
        }
        None
    }

    fn walk(&self, base: &str, rest: &[String], depth: usize) -> String {
        if rest.is_empty() {
            return canon(base);
        }
        if self.modules.contains_key(base) {
            if let Some(f) = self.lookup_in(base, &rest[0], depth + 1) {
                return self.walk(&f, &rest[1..], depth + 1);
            }
        }
        canon(&format!("{}::{}", base, rest.join("::")))
    }

    pub fn method(&self, ty: &str, name: &str) -> Option<Rc<FnDef>> {
        self.methods.get(&(ty.to_string(), name.to_string())).and_then(|v| {
            v.iter().find(|f| f.trait_.is_none()).or_else(|| v.first()).cloned()
        })
    }

    pub fn deref_target(&self, ty: &str) -> Option<Ty> {
        self.impls
            .iter()
            .find(|i| i.self_ty.head() == ty && i.trait_.as_deref().map(last) == Some("Deref"))
            .and_then(|i| i.assoc.iter().find(|a| a.0 == "Target"))
            .map(|a| a.1.clone())
    }

    pub fn trait_method(&self, ty: &str, trait_last: &str, name: &str) -> Option<Rc<FnDef>> {
        self.methods
            .get(&(ty.to_string(), name.to_string()))
            .and_then(|v| v.iter().find(|f| f.trait_.as_deref().map(last) == Some(trait_last)).cloned())
    }
}

pub fn last(p: &str) -> &str {
    p.rsplit("::").next().unwrap_or(p)
}

fn gen_names(g: &syn::Generics) -> Vec<String> {
    g.params
        .iter()
        .filter_map(|p| match p {
            syn::GenericParam::Type(t) => Some(t.ident.to_string()),
            _ => None,
        })
        .collect()
}

pub fn flatten_use(t: &syn::UseTree, prefix: String, out: &mut Vec<Use>) {
    let join = |p: &str, n: &str| {
        if p.is_empty() {
            n.to_string()
        } else if p == "::" {
            format!("::{}", n)
        } else {
            format!("{}::{}", p, n)
        }
    };
    match t {
        syn::UseTree::Path(p) => flatten_use(&p.tree, join(&prefix, &p.ident.to_string()), out),
        syn::UseTree::Name(n) => {
            if n.ident == "self" {
                let alias = last(&prefix).to_string();
                out.push(Use::Path(alias, prefix));
            } else {
                out.push(Use::Path(n.ident.to_string(), join(&prefix, &n.ident.to_string())));
            }
        }
        syn::UseTree::Rename(r) => {
            if r.ident == "self" {
                out.push(Use::Path(r.rename.to_string(), prefix));
            } else {
                out.push(Use::Path(r.rename.to_string(), join(&prefix, &r.ident.to_string())))
            }
        }
        syn::UseTree::Glob(_) => out.push(Use::Glob(prefix)),
        syn::UseTree::Group(g) => {
            for i in &g.items {
                flatten_use(i, prefix.clone(), out);
            }
        }
    }
}
