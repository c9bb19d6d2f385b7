//! Abstract values: constants, opaque terms, and structures thereof.
use crate::load::Ty;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::fmt;
use std::hash::{Hash, Hasher};
use std::rc::Rc;

pub type TermId = u32;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum TermKind {
    /// an unknown input
    Var(String),
    /// field of an unknown struct
    Field(TermId, String),
    /// field of a variant of an unknown enum value
    Payload(TermId, String, String),
    /// n-th element of an unknown sequence
    Elem(TermId, usize),
    /// application of a function that is not looked into
    App(String, Vec<V>),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Term {
    pub kind: TermKind,
    pub ty: Ty,
}

#[derive(Default)]
struct Interner {
    terms: Vec<Rc<Term>>,
    ids: HashMap<Rc<Term>, TermId>,
}

thread_local! {
    static INTERNER: RefCell<Interner> = RefCell::new(Interner::default());
}

pub fn term(kind: TermKind, ty: Ty) -> TermId {
    let t = Rc::new(Term { kind, ty });
    INTERNER.with(|i| {
        let mut i = i.borrow_mut();
        if let Some(id) = i.ids.get(&t) {
            return *id;
        }
        let id = i.terms.len() as TermId;
        i.terms.push(t.clone());
        i.ids.insert(t, id);
        id
    })
}

pub fn get_term(id: TermId) -> Rc<Term> {
    INTERNER.with(|i| i.borrow().terms[id as usize].clone())
}

pub fn term_ty(id: TermId) -> Ty {
    get_term(id).ty.clone()
}

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum SP {
    Lit(Rc<str>),
    Term(TermId),
}

#[derive(Clone, PartialEq, Eq, Hash)]
pub struct StructV {
    pub path: Rc<str>,
    pub fields: Vec<(Rc<str>, V)>,
}

#[derive(Clone, PartialEq, Eq, Hash)]
pub struct EnumV {
    pub path: Rc<str>,
    pub variant: Rc<str>,
    pub fields: Vec<(Rc<str>, V)>,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Proj {
    Field(Rc<str>),
    Pay(Rc<str>, Rc<str>),
    Index(usize),
    /// value of the n-th entry of a map
    MapVal(usize),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Place {
    pub cell: usize,
    pub proj: Vec<Proj>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Order {
    /// iteration order depends on the hasher
    Hash,
    Sorted,
}

#[derive(Clone, PartialEq, Eq, Hash)]
pub struct MapV {
    pub order: Order,
    pub is_set: bool,
    pub entries: Vec<(V, V)>,
    /// unknown further entries
    pub rest: Option<TermId>,
}

#[derive(Clone, PartialEq, Eq, Hash)]
pub enum IterV {
    List(Rc<Vec<V>>, usize, usize),
    Opaque(TermId, usize),
    Range(i128, Option<i128>),
    Map(Box<IterV>, V),
    Filter(Box<IterV>, V),
    FilterMap(Box<IterV>, V),
    FlatMap(Box<IterV>, V, Option<Box<IterV>>),
    Flatten(Box<IterV>, Option<Box<IterV>>),
    Enumerate(Box<IterV>, usize),
    Zip(Box<IterV>, Box<IterV>),
    Chain(Box<IterV>, Box<IterV>),
    TakeWhile(Box<IterV>, V, bool),
    MapWhile(Box<IterV>, V),
    SkipWhile(Box<IterV>, V, bool),
    Take(Box<IterV>, usize),
    Skip(Box<IterV>, usize),
    Scan(Box<IterV>, usize, V, bool),
    Inspect(Box<IterV>, V),
    Peekable(Box<IterV>, Option<Option<V>>),
    Rev(Box<IterV>),
    Once(Option<V>),
    FromFn(V),
    Successors(Option<V>, V),
    Repeat(V),
    Pass(Box<IterV>, &'static str),
}

pub struct Scope {
    pub vars: RefCell<Vec<(String, usize)>>,
    pub parent: Option<Env>,
}
pub type Env = Rc<Scope>;

pub struct ClosureV {
    pub id: (Rc<str>, usize, usize),
    pub params: Vec<syn::Pat>,
    pub body: Rc<syn::Expr>,
    pub env: Env,
    pub frame: Rc<Frame>,
}
impl PartialEq for ClosureV {
    fn eq(&self, o: &Self) -> bool {
        self.id == o.id
    }
}
impl Eq for ClosureV {}
impl Hash for ClosureV {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.id.hash(h)
    }
}

/// The function whose body is looked at.
pub struct Frame {
    pub func: Rc<str>,
    pub module: Rc<str>,
    pub self_ty: Option<Ty>,
    pub ret: Ty,
    pub file: Rc<str>,
    pub generics: Vec<String>,
    pub subst: BTreeMap<String, Ty>,
    pub uses: RefCell<Vec<crate::load::Use>>,
}

/// Where a token was quoted. Does not take part in comparisons.
#[derive(Clone, Copy, Debug, Default)]
pub struct Org(pub u32);
impl PartialEq for Org {
    fn eq(&self, _: &Self) -> bool {
        true
    }
}
impl Eq for Org {}
impl Hash for Org {
    fn hash<H: Hasher>(&self, _: &mut H) {}
}

#[derive(Clone, PartialEq, Eq, Hash)]
pub enum TkK {
    Id(Rc<str>),
    IdHole(Rc<Vec<SP>>),
    Punct(char, bool),
    /// any literal but strings
    Lit(Rc<str>),
    StrLit(Rc<Vec<SP>>),
    Group(char, Rc<Vec<Tk>>),
    Opaque(V),
}

#[derive(Clone, PartialEq, Eq, Hash)]
pub struct Tk {
    pub k: TkK,
    pub o: Org,
}

#[derive(Clone, PartialEq, Eq, Hash)]
pub struct Obj {
    pub kind: Rc<str>,
    pub id: usize,
    pub data: Vec<V>,
}

#[derive(Clone, PartialEq, Eq, Hash)]
pub enum V {
    Unit,
    Bool(bool),
    Int(i128),
    Char(char),
    Str(Rc<Vec<SP>>),
    Ident(Rc<Vec<SP>>),
    Sym(TermId),
    Struct(Rc<StructV>),
    Enum(Rc<EnumV>),
    Tuple(Rc<Vec<V>>),
    Seq(Rc<Vec<V>>),
    Map(Rc<MapV>),
    Iter(Rc<IterV>),
    Closure(Rc<ClosureV>),
    Fn(Rc<str>),
    Tokens(Rc<Vec<Tk>>),
    Mut(Rc<Place>),
    Cell(usize),
    Range(Rc<(Option<V>, Option<V>, bool)>),
    /// `Default::default()` of a type that is not known yet
    Default,
    Obj(Rc<Obj>),
}

pub fn lit(s: &str) -> V {
    if s.is_empty() {
        V::Str(Rc::new(vec![]))
    } else {
        V::Str(Rc::new(vec![SP::Lit(s.into())]))
    }
}

pub fn norm_sp(parts: Vec<SP>) -> Vec<SP> {
    let mut out: Vec<SP> = vec![];
    for p in parts {
        match (&p, out.last_mut()) {
            (SP::Lit(s), _) if s.is_empty() => {}
            (SP::Lit(s), Some(SP::Lit(l))) => {
                let n: Rc<str> = format!("{}{}", l, s).into();
                *l = n;
            }
            _ => out.push(p),
        }
    }
    out
}

pub fn sp_lit(parts: &[SP]) -> Option<String> {
    match parts {
        [] => Some(String::new()),
        [SP::Lit(s)] => Some(s.to_string()),
        _ => None,
    }
}

impl V {
    pub fn none() -> V {
        V::en("Option", "None", vec![])
    }
    pub fn some(v: V) -> V {
        V::en("Option", "Some", vec![v])
    }
    pub fn ok(v: V) -> V {
        V::en("Result", "Ok", vec![v])
    }
    pub fn err(v: V) -> V {
        V::en("Result", "Err", vec![v])
    }
    pub fn en(path: &str, variant: &str, args: Vec<V>) -> V {
        V::Enum(Rc::new(EnumV {
            path: path.into(),
            variant: variant.into(),
            fields: args.into_iter().enumerate().map(|(i, v)| (Rc::from(i.to_string()), v)).collect(),
        }))
    }
    pub fn en_named(path: &str, variant: &str, args: Vec<(&str, V)>) -> V {
        V::Enum(Rc::new(EnumV {
            path: path.into(),
            variant: variant.into(),
            fields: args.into_iter().map(|(i, v)| (Rc::from(i), v)).collect(),
        }))
    }
    pub fn st(path: &str, args: Vec<(&str, V)>) -> V {
        V::Struct(Rc::new(StructV {
            path: path.into(),
            fields: args.into_iter().map(|(i, v)| (Rc::from(i), v)).collect(),
        }))
    }
    pub fn seq(v: Vec<V>) -> V {
        V::Seq(Rc::new(v))
    }
    pub fn tup(v: Vec<V>) -> V {
        if v.is_empty() {
            V::Unit
        } else {
            V::Tuple(Rc::new(v))
        }
    }
    pub fn tokens(v: Vec<Tk>) -> V {
        V::Tokens(Rc::new(v))
    }
    pub fn str_parts(p: Vec<SP>) -> V {
        V::Str(Rc::new(norm_sp(p)))
    }
    pub fn as_lit(&self) -> Option<String> {
        match self {
            V::Str(p) => sp_lit(p),
            _ => None,
        }
    }
    pub fn field(&self, n: &str) -> Option<V> {
        match self {
            V::Struct(s) => s.fields.iter().find(|(k, _)| &**k == n).map(|x| x.1.clone()),
            V::Enum(s) => s.fields.iter().find(|(k, _)| &**k == n).map(|x| x.1.clone()),
            V::Tuple(t) => n.parse::<usize>().ok().and_then(|i| t.get(i).cloned()),
            _ => None,
        }
    }
    pub fn variant(&self) -> Option<&str> {
        match self {
            V::Enum(e) => Some(&e.variant),
            _ => None,
        }
    }
    pub fn is_variant(&self, n: &str) -> bool {
        self.variant() == Some(n)
    }
    pub fn var(name: &str, ty: Ty) -> V {
        sym(term(TermKind::Var(name.to_string()), ty))
    }
    pub fn app(name: &str, args: Vec<V>, ty: Ty) -> V {
        sym(term(TermKind::App(name.to_string(), args), ty))
    }
    pub fn term(&self) -> Option<TermId> {
        match self {
            V::Sym(t) => Some(*t),
            V::Str(p) | V::Ident(p) => match p.as_slice() {
                [SP::Term(t)] => Some(*t),
                _ => None,
            },
            _ => None,
        }
    }
}

/// The value of a term, in the representation its type asks for.
pub fn sym(t: TermId) -> V {
    let ty = term_ty(t);
    match &ty {
        _ if ty.is_str() => V::Str(Rc::new(vec![SP::Term(t)])),
        Ty::Tuple(ts) if ts.is_empty() => V::Unit,
        Ty::Tuple(ts) => V::tup(
            ts.iter()
                .enumerate()
                .map(|(i, x)| sym(term(TermKind::Field(t, i.to_string()), x.clone())))
                .collect(),
        ),
        Ty::Adt(n, _) if n == "syn::Ident" || n == "proc_macro2::Ident" => V::Ident(Rc::new(vec![SP::Term(t)])),
        _ => V::Sym(t),
    }
}

fn fmt_sp(p: &[SP], f: &mut fmt::Formatter) -> fmt::Result {
    for x in p {
        match x {
            SP::Lit(s) => write!(f, "{}", s)?,
            SP::Term(t) => write!(f, "{{{}}}", show_term(*t))?,
        }
    }
    Ok(())
}

pub fn show_sp(p: &[SP]) -> String {
    struct S<'a>(&'a [SP]);
    impl fmt::Display for S<'_> {
        fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
            fmt_sp(self.0, f)
        }
    }
    S(p).to_string()
}

pub fn show_term(t: TermId) -> String {
    let t = get_term(t);
    match &t.kind {
        TermKind::Var(n) => n.clone(),
        TermKind::Field(b, n) => format!("{}.{}", show_term(*b), n),
        TermKind::Payload(b, v, n) => format!("{}:{}.{}", show_term(*b), v, n),
        TermKind::Elem(b, i) => format!("{}[{}]", show_term(*b), i),
        TermKind::App(f, a) => {
            let args: Vec<String> = a.iter().map(|x| format!("{:?}", x)).collect();
            format!("{}({})", f, args.join(", "))
        }
    }
}

impl fmt::Debug for V {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match self {
            V::Unit => write!(f, "()"),
            V::Bool(b) => write!(f, "{}", b),
            V::Int(b) => write!(f, "{}", b),
            V::Char(b) => write!(f, "{:?}", b),
            V::Str(p) => {
                write!(f, "\"")?;
                fmt_sp(p, f)?;
                write!(f, "\"")
            }
            V::Ident(p) => {
                write!(f, "ident(")?;
                fmt_sp(p, f)?;
                write!(f, ")")
            }
            V::Sym(t) => write!(f, "<{}>", show_term(*t)),
            V::Struct(s) => {
                let mut d = f.debug_struct(crate::load::last(&s.path));
                for (k, v) in &s.fields {
                    d.field(k, v);
                }
                d.finish()
            }
            V::Enum(s) => {
                if s.fields.is_empty() {
                    return write!(f, "{}", s.variant);
                }
                let mut d = f.debug_struct(&s.variant);
                for (k, v) in &s.fields {
                    d.field(k, v);
                }
                d.finish()
            }
            V::Tuple(t) => f.debug_list().entries(t.iter()).finish(),
            V::Seq(t) => f.debug_list().entries(t.iter()).finish(),
            V::Map(m) => f.debug_map().entries(m.entries.iter().map(|(a, b)| (a, b))).finish(),
            V::Iter(i) => write!(f, "iter:{}", show_iter(i)),
            V::Closure(c) => write!(f, "closure@{}:{}:{}", c.id.0, c.id.1, c.id.2),
            V::Fn(p) => write!(f, "fn {}", p),
            V::Tokens(t) => write!(f, "tokens`{}`", show_tokens(t)),
            V::Mut(p) => write!(f, "&mut {:?}", p),
            V::Cell(c) => write!(f, "cell{}", c),
            V::Range(r) => write!(f, "{:?}..{:?}", r.0, r.1),
            V::Default => write!(f, "default"),
            V::Obj(o) => write!(f, "{}#{}{:?}", o.kind, o.id, o.data),
        }
    }
}

pub fn show_iter(i: &IterV) -> String {
    match i {
        IterV::List(v, a, b) => format!("{:?}", &v[(*a).min(v.len())..(*b).min(v.len())]),
        IterV::Opaque(t, n) => format!("{}+{}", show_term(*t), n),
        IterV::Map(i, c) => format!("{}.map({:?})", show_iter(i), c),
        IterV::Filter(i, c) => format!("{}.filter({:?})", show_iter(i), c),
        IterV::FilterMap(i, c) => format!("{}.filter_map({:?})", show_iter(i), c),
        IterV::Rev(i) => format!("{}.rev()", show_iter(i)),
        _ => "..".to_string(),
    }
}

impl fmt::Debug for IterV {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{}", show_iter(self))
    }
}

pub fn show_tokens(t: &[Tk]) -> String {
    let mut s = String::new();
    for x in t {
        match &x.k {
            TkK::Id(i) => s += &format!("{} ", i),
            TkK::IdHole(p) => s += &format!("⟨{}⟩ ", show_sp(p)),
            TkK::Punct(c, j) => {
                s.push(*c);
                if !*j {
                    s.push(' ');
                }
            }
            TkK::Lit(l) => s += &format!("{} ", l),
            TkK::StrLit(p) => s += &format!("\"{}\" ", show_sp(p)),
            TkK::Group(d, g) => {
                let (a, b) = match d {
                    '(' => ("(", ")"),
                    '{' => ("{", "}"),
                    '[' => ("[", "]"),
                    _ => ("", ""),
                };
                s += &format!("{} {}{} ", a, show_tokens(g), b);
            }
            TkK::Opaque(v) => s += &format!("⟪{:?}⟫ ", v),
        }
    }
    s
}

#[derive(Clone, Debug)]
pub struct Site {
    pub file: Rc<str>,
    pub line: usize,
    pub func: Rc<str>,
}
impl PartialEq for Site {
    fn eq(&self, _: &Self) -> bool {
        true
    }
}
impl Eq for Site {}
impl Hash for Site {
    fn hash<H: Hasher>(&self, _: &mut H) {}
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Ev {
    pub kind: Rc<str>,
    pub args: Vec<V>,
    pub site: Site,
}

#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct IntFact {
    pub lo: Option<i128>,
    pub hi: Option<i128>,
    pub ne: BTreeSet<i128>,
}

#[derive(Clone, Debug, Default)]
pub struct Facts {
    pub tag: BTreeMap<TermId, Rc<str>>,
    pub not_tag: BTreeMap<TermId, BTreeSet<Rc<str>>>,
    pub bools: BTreeMap<TermId, bool>,
    pub eq_lit: BTreeMap<TermId, Rc<str>>,
    pub ne_lit: BTreeMap<TermId, BTreeSet<Rc<str>>>,
    pub ints: BTreeMap<TermId, IntFact>,
    pub len: BTreeMap<TermId, usize>,
}

impl Facts {
    /// What is known about the inputs, but not about the surroundings (time, environment, ...).
    pub fn show_inputs(&self) -> String {
        self.list().into_iter().filter(|x| !x.contains("nondet:")).collect::<Vec<_>>().join("; ")
    }

    pub fn show(&self) -> String {
        self.list().join("; ")
    }

    fn list(&self) -> Vec<String> {
        let mut out = vec![];
        for (t, v) in &self.tag {
            out.push(format!("{}={}", show_term(*t), v));
        }
        for (t, v) in &self.not_tag {
            if !self.tag.contains_key(t) {
                out.push(format!("{}∉{:?}", show_term(*t), v));
            }
        }
        for (t, v) in &self.bools {
            out.push(format!("{}{}", if *v { "" } else { "!" }, show_term(*t)));
        }
        for (t, v) in &self.eq_lit {
            out.push(format!("{}={:?}", show_term(*t), v));
        }
        for (t, v) in &self.ne_lit {
            if !self.eq_lit.contains_key(t) {
                out.push(format!("{}∉{:?}", show_term(*t), v));
            }
        }
        for (t, v) in &self.ints {
            out.push(format!("{}∈[{:?},{:?}]\\{:?}", show_term(*t), v.lo, v.hi, v.ne));
        }
        for (t, v) in &self.len {
            out.push(format!("len({})={}", show_term(*t), v));
        }
        out
    }
}
