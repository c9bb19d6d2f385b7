//! Abstract XML documents: the structure is known, names and values may be unknown.
use crate::load::Ty;
use crate::val::*;

#[derive(Clone, Debug, PartialEq)]
pub enum XKind {
    Root,
    Element,
    Text,
    Comment,
    Pi,
}

#[derive(Clone, Debug)]
pub struct XAttr {
    pub name: V,
    pub ns: Option<V>,
    pub value: V,
    /// present only if that unknown says so
    pub cond: Option<TermId>,
}

#[derive(Clone, Debug)]
pub struct XNode {
    pub kind: XKind,
    pub name: V,
    pub ns: Option<V>,
    pub attrs: Vec<XAttr>,
    pub nsdecl: Vec<(Option<V>, V)>,
    pub children: Vec<usize>,
    pub parent: Option<usize>,
    pub text: V,
    pub cond: Option<TermId>,
}

#[derive(Clone, Debug)]
pub struct XDoc {
    pub nodes: Vec<XNode>,
    pub label: String,
    /// the text is not well-formed
    pub malformed: bool,
    /// elements that are preceded by the comment `<!--!-->`
    pub marks: Vec<usize>,
}

impl XNode {
    fn new(kind: XKind, parent: Option<usize>) -> XNode {
        XNode {
            kind,
            name: lit(""),
            ns: None,
            attrs: vec![],
            nsdecl: vec![],
            children: vec![],
            parent,
            text: lit(""),
            cond: None,
        }
    }
}

/// A written or expected element.
#[derive(Clone, PartialEq)]
pub struct WNode {
    pub ns: Option<V>,
    pub name: V,
    pub attrs: Vec<(Option<V>, V, V)>,
    pub kids: Vec<WKid>,
    pub site: Option<Site>,
}

#[derive(Clone, PartialEq)]
pub enum WKid {
    El(WNode),
    Text(V),
}

pub fn vs(v: &V) -> String {
    match v {
        V::Str(p) => show_sp(p),
        v => format!("{:?}", v),
    }
}

impl WNode {
    pub fn show(&self) -> String {
        let mut s = String::from("<");
        if let Some(n) = &self.ns {
            s += &format!("{{{}}}", vs(n));
        }
        s += &vs(&self.name);
        for (ns, n, v) in &self.attrs {
            s += " ";
            if let Some(x) = ns {
                s += &format!("{{{}}}", vs(x));
            }
            s += &format!("{}=\"{}\"", vs(n), vs(v));
        }
        s += ">";
        for k in &self.kids {
            match k {
                WKid::El(e) => s += &e.show(),
                WKid::Text(t) => s += &vs(t),
            }
        }
        s += "</>";
        s
    }
}

impl XDoc {
    pub fn empty(label: &str) -> XDoc {
        XDoc {
            nodes: vec![XNode::new(XKind::Root, None)],
            label: label.to_string(),
            malformed: false,
            marks: vec![],
        }
    }

    pub fn add(&mut self, parent: usize, kind: XKind) -> usize {
        let id = self.nodes.len();
        self.nodes.push(XNode::new(kind, Some(parent)));
        self.nodes[parent].children.push(id);
        id
    }

    pub fn root_element(&self) -> usize {
        self.nodes[0].children.iter().copied().find(|c| self.nodes[*c].kind == XKind::Element).unwrap_or(0)
    }

    pub fn elements(&self, n: usize) -> Vec<usize> {
        self.nodes[n].children.iter().copied().filter(|c| self.nodes[*c].kind == XKind::Element).collect()
    }

    pub fn attr(&self, n: usize, name: &str) -> Option<V> {
        self.nodes[n].attrs.iter().find(|a| a.ns.is_none() && a.name == lit(name)).map(|a| a.value.clone())
    }

    /// Namespaces in scope.
    pub fn scope(&self, n: usize) -> Vec<(Option<V>, V)> {
        let mut out: Vec<(Option<V>, V)> = vec![];
        let mut cur = Some(n);
        while let Some(c) = cur {
            for d in &self.nodes[c].nsdecl {
                if !out.iter().any(|o| o.0 == d.0) {
                    out.push(d.clone());
                }
            }
            cur = self.nodes[c].parent;
        }
        out
    }

    pub fn text_of(&self, n: usize) -> Option<V> {
        let mut parts = vec![];
        let mut any = false;
        for c in &self.nodes[n].children {
            if self.nodes[*c].kind == XKind::Text {
                any = true;
                if let V::Str(p) = &self.nodes[*c].text {
                    parts.extend((**p).clone());
                }
            }
        }
        if any {
            Some(V::str_parts(parts))
        } else {
            None
        }
    }

    pub fn from_wnode(label: &str, w: &WNode) -> XDoc {
        let mut d = XDoc::empty(label);
        d.add_wnode(0, w);
        d
    }

    fn add_wnode(&mut self, parent: usize, w: &WNode) {
        let id = self.add(parent, XKind::Element);
        self.nodes[id].name = w.name.clone();
        self.nodes[id].ns = w.ns.clone();
        for (ns, n, v) in &w.attrs {
            self.nodes[id].attrs.push(XAttr {
                name: n.clone(),
                ns: ns.clone(),
                value: v.clone(),
                cond: None,
            });
        }
        for k in &w.kids {
            match k {
                WKid::El(e) => self.add_wnode(id, e),
                WKid::Text(t) => {
                    let c = self.add(id, XKind::Text);
                    self.nodes[c].text = t.clone();
                }
            }
        }
    }

    pub fn to_wnode(&self, n: usize) -> WNode {
        let x = &self.nodes[n];
        WNode {
            ns: x.ns.clone(),
            name: x.name.clone(),
            attrs: x.attrs.iter().map(|a| (a.ns.clone(), a.name.clone(), a.value.clone())).collect(),
            kids: x
                .children
                .iter()
                .filter_map(|c| match self.nodes[*c].kind {
                    XKind::Element => Some(WKid::El(self.to_wnode(*c))),
                    XKind::Text => Some(WKid::Text(self.nodes[*c].text.clone())),
                    _ => None,
                })
                .collect(),
            site: None,
        }
    }

    pub fn show(&self) -> String {
        self.show_node(self.root_element())
    }

    fn show_node(&self, n: usize) -> String {
        let x = &self.nodes[n];
        match x.kind {
            XKind::Text => vs(&x.text),
            XKind::Comment => "<!-- -->".into(),
            XKind::Pi => "<?pi?>".into(),
            XKind::Root | XKind::Element => {
                let mut s = format!("<{}", vs(&x.name));
                for a in &x.attrs {
                    s += &format!(" {}=\"{}\"", vs(&a.name), vs(&a.value));
                }
                s += ">";
                for c in &x.children {
                    s += &self.show_node(*c);
                }
                s += &format!("</{}>", vs(&x.name));
                s
            }
        }
    }

    /// Parses a template. `%x` stands for any name, `$x` for any string.
    pub fn parse(label: &str, text: &str) -> XDoc {
        let mut d = XDoc::empty(label);
        let b: Vec<char> = text.chars().collect();
        let mut i = 0;
        let mut mark = false;
        if text.starts_with("malformed") {
            d.malformed = true;
            return d;
        }
        let mut stack = vec![0usize];
        let mut raw: Vec<(usize, String, Vec<(String, String)>)> = vec![];
        while i < b.len() {
            let top = *stack.last().unwrap();
            if b[i] == '<' {
                let starts = |s: &str| b[i..].iter().take(s.len()).collect::<String>() == s;
                if starts("<!--!-->") {
                    i += 8;
                    mark = true;
                } else if starts("<!--") {
                    while b[i..].iter().take(3).collect::<String>() != "-->" {
                        i += 1;
                    }
                    i += 3;
                    d.add(top, XKind::Comment);
                } else if starts("<?") {
                    while b[i] != '>' {
                        i += 1;
                    }
                    i += 1;
                    d.add(top, XKind::Pi);
                } else if starts("</") {
                    while b[i] != '>' {
                        i += 1;
                    }
                    i += 1;
                    stack.pop();
                } else {
                    i += 1;
                    let mut name = String::new();
                    while !b[i].is_whitespace() && b[i] != '>' && b[i] != '/' {
                        name.push(b[i]);
                        i += 1;
                    }
                    let mut attrs = vec![];
                    loop {
                        while b[i].is_whitespace() {
                            i += 1;
                        }
                        if b[i] == '>' || b[i] == '/' {
                            break;
                        }
                        let mut an = String::new();
                        while b[i] != '=' {
                            an.push(b[i]);
                            i += 1;
                        }
                        i += 1;
                        let q = b[i];
                        assert!(q == '"' || q == '\'', "template {}: attribute {}", label, an);
                        i += 1;
                        let mut av = String::new();
                        while b[i] != q {
                            av.push(b[i]);
                            i += 1;
                        }
                        i += 1;
                        attrs.push((an.trim().to_string(), av));
                    }
                    let id = d.add(top, XKind::Element);
                    if std::mem::take(&mut mark) {
                        d.marks.push(id);
                    }
                    raw.push((id, name, attrs));
                    if b[i] == '/' {
                        i += 2;
                    } else {
                        i += 1;
                        stack.push(id);
                    }
                }
            } else {
                let mut s = String::new();
                while i < b.len() && b[i] != '<' {
                    s.push(b[i]);
                    i += 1;
                }
                if top != 0 {
                    let id = d.add(top, XKind::Text);
                    d.nodes[id].text = value(&s);
                }
            }
        }
        // namespaces
        for (id, name, attrs) in raw {
            for (n, v) in &attrs {
                if n == "xmlns" {
                    d.nodes[id].nsdecl.push((None, value(v)));
                } else if let Some(p) = n.strip_prefix("xmlns:") {
                    d.nodes[id].nsdecl.push((Some(lit(p)), value(v)));
                }
            }
            let scope = d.scope(id);
            let find = |p: Option<&str>| {
                scope
                    .iter()
                    .find(|s| match (&s.0, p) {
                        (None, None) => true,
                        (Some(a), Some(b)) => *a == lit(b),
                        _ => false,
                    })
                    .map(|s| s.1.clone())
                    .filter(|v| *v != lit(""))
            };
            let (ns, local) = match name.split_once(':') {
                Some((p, l)) => (find(Some(p)), l.to_string()),
                None => (find(None), name.clone()),
            };
            d.nodes[id].ns = ns;
            d.nodes[id].name = value(&local);
            for (n, v) in &attrs {
                if n == "xmlns" || n.starts_with("xmlns:") {
                    continue;
                }
                let (ns, local) = match n.split_once(':') {
                    Some((p, l)) => (find(Some(p)), l.to_string()),
                    None => (None, n.clone()),
                };
                d.nodes[id].attrs.push(XAttr {
                    name: value(&local),
                    ns,
                    value: value(v),
                    cond: None,
                });
            }
        }
        d
    }
}

/// Template text with placeholders.
pub fn value(s: &str) -> V {
    let mut parts = vec![];
    let c: Vec<char> = s.chars().collect();
    let mut i = 0;
    let mut cur = String::new();
    while i < c.len() {
        if (c[i] == '%' || c[i] == '$') && i + 1 < c.len() && c[i + 1].is_alphabetic() {
            let mut n = c[i].to_string();
            i += 1;
            while i < c.len() && (c[i].is_alphanumeric() || c[i] == '_') {
                n.push(c[i]);
                i += 1;
            }
            parts.push(SP::Lit(std::mem::take(&mut cur).into()));
            parts.push(SP::Term(term(TermKind::Var(n), Ty::adt("String"))));
        } else {
            cur.push(match c[i] {
                // entities that templates use
                '¤' => '"',
                o => o,
            });
            i += 1;
        }
    }
    parts.push(SP::Lit(cur.into()));
    V::str_parts(parts)
}
