//! Normalisation of function bodies into the subset Verus accepts. Every rewrite keeps the evaluation order
//! and the meaning of the code; what cannot be rewritten is left as it is (Verus then rejects it).
use crate::types::*;
use proc_macro2::{Ident, Span, TokenStream};
use quote::{format_ident, quote};
use std::collections::{HashMap, HashSet};
use syn::visit::{self, Visit};
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub struct Helper {
    pub sig: Signature,
    pub block: Block,
}

pub struct Norm<'a> {
    pub decls: &'a Decls,
    pub helpers: &'a HashMap<(String, String), Helper>,
    pub selfty: String,
    pub boxany: bool,
    pub env: HashMap<String, T>,
    pub fresh: usize,
    pub depth: usize,
    pub inlined: Vec<String>,
    pub flip: &'a HashSet<String>,
    pub fname: String,
    pub nmap: usize,
    /// panics are documented; the ghost block "maypanic" tells when
    pub maypanic: bool,
    /// there are contracts for loops
    pub has_loops: bool,
    /// texts are modelled
    pub texts: bool,
    /// what is being inlined
    pub stack: Vec<(String, String)>,
    /// helpers that could not be inlined
    pub opaque: Vec<String>,
    pub calls: &'a HashSet<(String, String)>,
}

thread_local! {
    /// names of the functions of the crate that take something by `&mut`
    pub static MUTATORS: std::cell::RefCell<HashSet<String>> = std::cell::RefCell::new(HashSet::new());
}

fn mutator(n: &str) -> bool {
    const STD: &[&str] = &[
        "insert", "remove", "push", "pop", "clear", "extend", "retain", "drain", "entry", "get_mut", "take", "replace", "swap", "set", "append", "truncate",
        "get_or_insert", "get_or_insert_with", "or_insert", "or_insert_with", "or_default", "next", "values_mut", "iter_mut", "as_mut", "borrow_mut", "split_off",
        "push_str", "reserve", "remove_entry", "drop", "fetch_add", "store", "push_back", "pop_front", "push_front", "pop_back", "swap_remove", "dedup", "resize",
    ];
    STD.contains(&n) || MUTATORS.with(|m| m.borrow().contains(n))
}

/// Can evaluating the expression change anything, by its looks?
fn may_mutate(e: &Expr) -> bool {
    struct V(bool);
    impl<'a> syn::visit::Visit<'a> for V {
        fn visit_expr(&mut self, e: &'a Expr) {
            let name = match e {
                Expr::Assign(_) => {
                    self.0 = true;
                    None
                }
                Expr::Binary(b) => {
                    use BinOp::*;
                    if matches!(
                        b.op,
                        AddAssign(_) | SubAssign(_) | MulAssign(_) | DivAssign(_) | RemAssign(_) | BitXorAssign(_) | BitAndAssign(_) | BitOrAssign(_) | ShlAssign(_) | ShrAssign(_)
                    ) {
                        self.0 = true;
                    }
                    None
                }
                Expr::Reference(r) => {
                    self.0 |= r.mutability.is_some();
                    None
                }
                Expr::Macro(m) => {
                    let t = m.mac.tokens.to_string();
                    let mut words = t.split(|c: char| !(c.is_alphanumeric() || c == '_'));
                    self.0 |= words.any(|w| w == "mut" || mutator(w));
                    None
                }
                Expr::MethodCall(m) => Some(m.method.to_string()),
                Expr::Call(c) => path_str(&c.func).map(|p| p.rsplit("::").next().unwrap_or("").to_string()),
                _ => None,
            };
            if let Some(n) = name {
                if mutator(&n) {
                    self.0 = true;
                }
            }
            syn::visit::visit_expr(self, e);
        }
    }
    let mut v = V(false);
    syn::visit::Visit::visit_expr(&mut v, e);
    v.0
}

/// Writes the contract of a closure in the syntax of the verifier.
pub struct Contracted;
pub fn contracted(c: &ExprClosure) -> Option<TokenStream> {
    if let Expr::Block(b) = &*c.body {
        if let Some(Stmt::Macro(m)) = b.block.stmts.first() {
            if m.mac.path.is_ident("__clos") {
                return Some(m.mac.tokens.clone());
            }
        }
    }
    None
}
impl VisitMut for Contracted {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Closure(c) = e {
            if let (Some(s), Expr::Block(b)) = (contracted(c), &*c.body) {
                let (ps, ss) = (&c.inputs, &b.block.stmts[1..]);
                *e = Expr::Verbatim(quote!(| #ps | -> (__r: bool) ensures __r == (#s) { #(#ss)* }));
            }
        }
    }
}

/// The value of a pure expression of containers and comparisons in the logic.
fn spec_of(e: &Expr) -> Option<TokenStream> {
    fn key(a: &Expr) -> Option<TokenStream> {
        match a {
            Expr::Reference(r) => spec_of(&r.expr),
            Expr::Paren(p) => key(&p.expr),
            Expr::Path(_) => Some(quote!((*#a))),
            _ => None,
        }
    }
    Some(match e {
        Expr::Lit(_) | Expr::Path(_) => quote!(#e),
        Expr::Paren(p) => {
            let x = spec_of(&p.expr)?;
            quote!((#x))
        }
        Expr::Reference(r) if r.mutability.is_none() => spec_of(&r.expr)?,
        Expr::Unary(u) if !matches!(u.op, UnOp::Neg(_)) => {
            let (o, x) = (&u.op, spec_of(&u.expr)?);
            quote!(#o #x)
        }
        Expr::Binary(b) if matches!(b.op, BinOp::And(_) | BinOp::Or(_) | BinOp::Eq(_) | BinOp::Ne(_) | BinOp::Lt(_) | BinOp::Le(_) | BinOp::Gt(_) | BinOp::Ge(_)) => {
            let (o, x, y) = (&b.op, spec_of(&b.left)?, spec_of(&b.right)?);
            quote!(#x #o #y)
        }
        Expr::Field(f) => {
            let (x, m) = (spec_of(&f.base)?, &f.member);
            quote!(#x.#m)
        }
        Expr::MethodCall(m) => {
            let x = spec_of(&m.receiver)?;
            match (m.method.to_string().as_str(), m.args.len()) {
                ("contains_key", 1) => {
                    let k = key(&m.args[0])?;
                    quote!(#x@.contains_key(#k))
                }
                ("contains", 1) => {
                    let k = key(&m.args[0])?;
                    quote!(#x@.contains(#k))
                }
                ("is_empty", 0) => quote!((#x@.len() == 0)),
                ("len", 0) => quote!(#x@.len()),
                _ => return None,
            }
        }
        Expr::If(i) => {
            let c = spec_of(&i.cond)?;
            let t = spec_of(&Expr::Block(ExprBlock { attrs: vec![], label: None, block: i.then_branch.clone() }))?;
            let f = spec_of(&i.else_branch.as_ref()?.1)?;
            quote!(if #c #t else #f)
        }
        Expr::Block(b) => {
            let n = b.block.stmts.len();
            let mut out: Vec<TokenStream> = vec![];
            for (k, s) in b.block.stmts.iter().enumerate() {
                match s {
                    Stmt::Local(l) => {
                        let i = l.init.as_ref()?;
                        let p = match &l.pat {
                            Pat::Wild(_) => continue,
                            Pat::Ident(_) => &l.pat,
                            Pat::Reference(r) => {
                                let (x, p) = (spec_of(&i.expr)?, &r.pat);
                                out.push(quote!(let #p = *#x;));
                                continue;
                            }
                            _ => return None,
                        };
                        let x = spec_of(&i.expr)?;
                        out.push(quote!(let #p = #x;));
                    }
                    Stmt::Expr(x, None) if k + 1 == n => {
                        let x = spec_of(x)?;
                        out.push(quote!(#x));
                    }
                    _ => return None,
                }
            }
            quote!({ #(#out)* })
        }
        _ => return None,
    })
}

fn path1(e: &Expr) -> Option<String> {
    if let Expr::Path(p) = e {
        if p.qself.is_none() && p.path.segments.len() == 1 {
            return Some(p.path.segments[0].ident.to_string());
        }
    }
    None
}

fn path_str(e: &Expr) -> Option<String> {
    if let Expr::Path(p) = e {
        if p.qself.is_none() {
            return Some(p.path.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::"));
        }
    }
    None
}

fn has_escape(b: &Expr) -> bool {
    struct V(bool);
    impl<'a> Visit<'a> for V {
        fn visit_expr_return(&mut self, _: &'a ExprReturn) {
            self.0 = true;
        }
        fn visit_expr_try(&mut self, _: &'a ExprTry) {
            self.0 = true;
        }
        fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    }
    let mut v = V(false);
    v.visit_expr(b);
    v.0
}

pub struct RenameSelf(pub Ident);
impl VisitMut for RenameSelf {
    fn visit_ident_mut(&mut self, i: &mut Ident) {
        if i == "self" {
            *i = self.0.clone();
        }
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        let new = self.0.clone();
        fn sub(ts: proc_macro2::TokenStream, new: &Ident) -> proc_macro2::TokenStream {
            ts.into_iter()
                .map(|t| match t {
                    proc_macro2::TokenTree::Ident(i) if i == "self" => proc_macro2::TokenTree::Ident(new.clone()),
                    proc_macro2::TokenTree::Group(g) => {
                        proc_macro2::TokenTree::Group(proc_macro2::Group::new(g.delimiter(), sub(g.stream(), new)))
                    }
                    t => t,
                })
                .collect()
        }
        m.tokens = sub(m.tokens.clone(), &new);
    }
}

enum Adapter {
    Filter(Expr),
    Map(Expr),
    Deref,
    Clone,
    Ref,
}

impl<'a> Norm<'a> {
    fn tmp(&mut self, p: &str) -> Ident {
        self.fresh += 1;
        format_ident!("__{}{}", p, self.fresh - 1)
    }

    fn tmp2(&mut self, p: &str) -> (Ident, Ident) {
        self.fresh += 1;
        (format_ident!("__it{}", self.fresh - 1), format_ident!("__{}{}", p, self.fresh - 1))
    }

    // ------------------------------------------------------------ inference
    pub fn ty(&self, e: &Expr) -> T {
        match e {
            Expr::Paren(p) => self.ty(&p.expr),
            Expr::Group(p) => self.ty(&p.expr),
            Expr::Reference(r) => T::R(Box::new(self.ty(&r.expr))),
            Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) => match self.ty(expr) {
                T::R(i) => *i,
                t => t,
            },
            Expr::Unary(ExprUnary { op: UnOp::Not(_), .. }) => T::p("bool", vec![]),
            Expr::Path(_) => {
                if let Some(n) = path1(e) {
                    if n == "self" {
                        return T::p(&self.selfty, vec![]);
                    }
                    return self.env.get(&n).cloned().unwrap_or(T::Unknown);
                }
                T::Unknown
            }
            Expr::Field(f) => {
                let b = self.ty(&f.base);
                if let (T::P(n, _), Member::Named(m)) = (b.deref(), &f.member) {
                    if let Some(t) = self.decls.fields.get(n).and_then(|x| x.get(&m.to_string())) {
                        return T::of(t, n);
                    }
                }
                T::Unknown
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    if segs.len() == 1 {
                        match segs[0].as_str() {
                            "Some" => return T::p("Option", vec![c.args.first().map(|a| self.ty(a)).unwrap_or(T::Unknown)]),
                            "Ok" | "Err" => return T::p("Result", vec![]),
                            _ => {}
                        }
                    }
                    if segs.len() >= 2 {
                        let t = &segs[segs.len() - 2];
                        let f = &segs[segs.len() - 1];
                        let t = if t == "Self" { self.selfty.clone() } else { t.clone() };
                        if matches!(t.as_str(), "HashSet" | "Vec" | "HashMap" | "VecDeque") {
                            return T::p(&t, vec![]);
                        }
                        if let Some(r) = self.decls.fns.get(&(t.clone(), f.clone())) {
                            return T::of(r, &t);
                        }
                        return self.by_name(f);
                    }
                }
                T::Unknown
            }
            Expr::MethodCall(m) => {
                let r = self.ty(&m.receiver);
                let name = m.method.to_string();
                let rd = r.deref().clone();
                if let T::P(n, a) = &rd {
                    match (n.as_str(), name.as_str()) {
                        ("HashMap", "get") | ("HashMap", "get_mut") | ("HashMap", "v_get_mut") => {
                            return T::p("Option", vec![T::R(Box::new(a.get(1).cloned().unwrap_or(T::Unknown)))])
                        }
                        ("HashMap", "remove") => return T::p("Option", vec![a.get(1).cloned().unwrap_or(T::Unknown)]),
                        ("HashMap", "insert") => return T::p("Option", vec![]),
                        ("HashMap", "entry") => return T::p("Entry", a.clone()),
                        ("HashMap", "contains_key") => return T::p("bool", vec![]),
                        ("HashMap", "v_index") => return T::R(Box::new(a.get(1).cloned().unwrap_or(T::Unknown))),
                        ("HashSet", "contains") | ("HashSet", "insert") | ("HashSet", "remove") => return T::p("bool", vec![]),
                        ("Vec", "pop") | ("Vec", "v_pop") | ("VecDeque", "pop_front") | ("VecDeque", "pop_back") => return T::p("Option", vec![a.get(0).cloned().unwrap_or(T::Unknown)]),
                        ("Entry", "or_insert") => return T::R(Box::new(a.get(1).cloned().unwrap_or(T::Unknown))),
                        ("Option", "cloned") | ("Option", "copied") => {
                            let i = rd.arg(0);
                            return T::p("Option", vec![i.deref().clone()]);
                        }
                        ("Option", "unwrap") | ("Option", "expect") => return rd.arg(0),
                        ("Option", "take") | ("Option", "or") | ("Option", "or_else") | ("Option", "map") | ("Option", "and_then")
                        | ("Option", "filter") | ("Option", "as_mut") | ("Option", "as_ref") | ("Result", "ok") | ("Result", "err") => {
                            return T::p("Option", vec![])
                        }
                        ("Result", "map") | ("Result", "map_err") | ("Result", "and_then") => return T::p("Result", vec![]),
                        ("Option", "is_some") | ("Option", "is_none") | ("Result", "is_ok") | ("Result", "is_err") => {
                            return T::p("bool", vec![])
                        }
                        (_, "is_empty") => return T::p("bool", vec![]),
                        (_, "clone") | (_, "v_clone") => return rd.clone(),
                        _ => {}
                    }
                    if let Some(t) = self.decls.fns.get(&(n.clone(), name.clone())) {
                        return T::of(t, n);
                    }
                }
                match name.as_str() {
                    "downcast_ref" | "downcast_mut" | "ok" | "err" | "cloned" | "copied" => return T::p("Option", vec![]),
                    "downcast" => return T::p("Result", vec![]),
                    _ => {}
                }
                self.by_name(&name)
            }
            Expr::If(i) => {
                if let Some(Stmt::Expr(e, None)) = i.then_branch.stmts.last() {
                    return self.ty(e);
                }
                T::Unknown
            }
            Expr::Struct(s) => T::p(&s.path.segments.last().unwrap().ident.to_string(), vec![]),
            Expr::Block(b) => {
                if let Some(Stmt::Expr(e, None)) = b.block.stmts.last() {
                    if let Some(n) = path1(e) {
                        for s in b.block.stmts.iter().rev() {
                            if let Stmt::Local(l) = s {
                                let (p, t) = match &l.pat {
                                    Pat::Type(t) => (&*t.pat, Some(T::of(&t.ty, &self.selfty))),
                                    p => (p, None),
                                };
                                if matches!(p, Pat::Ident(i) if i.ident == n) {
                                    return t.unwrap_or_else(|| l.init.as_ref().map(|i| self.ty(&i.expr)).unwrap_or(T::Unknown));
                                }
                            }
                        }
                    }
                    return self.ty(e);
                }
                T::Unknown
            }
            Expr::Match(m) => {
                for a in &m.arms {
                    // what was matched, or the first arm whose type is known
                    if let (Pat::TupleStruct(p), Some(n)) = (&a.pat, path1(&a.body)) {
                        if p.elems.len() == 1 && matches!(&p.elems[0], Pat::Ident(i) if i.ident == n) {
                            let f = p.path.segments.last().unwrap().ident.to_string();
                            let t = self.ty(&m.expr);
                            if f == "Some" && t.is("Option") && t.arg(0) != T::Unknown {
                                return t.arg(0);
                            }
                        }
                        continue;
                    }
                    let t = self.ty(&a.body);
                    if t != T::Unknown && !matches!(&t, T::P(n, _) if n == "Option" || n == "Result") {
                        return t;
                    }
                }
                T::Unknown
            }
            _ => T::Unknown,
        }
    }

    fn by_name(&self, f: &str) -> T {
        if let Some(v) = self.decls.by_name.get(f) {
            let ts: Vec<T> = v.iter().map(|t| T::of(t, "?")).collect();
            let head = |t: &T| match t.deref() {
                T::P(n, _) => n.clone(),
                _ => "?".into(),
            };
            if let Some(h) = ts.first().map(head) {
                if ts.iter().all(|t| head(t) == h) {
                    return T::p(&h, vec![]);
                }
            }
        }
        T::Unknown
    }

    pub fn bind(&mut self, p: &Pat, t: &T) {
        match p {
            Pat::Ident(i) => {
                self.env.insert(i.ident.to_string(), t.clone());
            }
            Pat::Type(pt) => {
                let tt = T::of(&pt.ty, &self.selfty);
                self.bind(&pt.pat, &tt);
            }
            Pat::TupleStruct(ts) => {
                let n = ts.path.segments.last().unwrap().ident.to_string();
                let inner = match n.as_str() {
                    "Some" | "Ok" => t.arg(0),
                    "Err" => t.arg(1),
                    _ => T::Unknown,
                };
                for p in &ts.elems {
                    self.bind(p, &inner);
                }
            }
            Pat::Reference(r) => {
                let i = match t {
                    T::R(i) => (**i).clone(),
                    t => t.clone(),
                };
                self.bind(&r.pat, &i);
            }
            Pat::Tuple(ts) => {
                for p in &ts.elems {
                    self.bind(p, &T::Unknown);
                }
            }
            _ => {}
        }
    }

    // ------------------------------------------------------------ closures
    /// Applies a closure or path to an expression (which must be a plain variable).
    fn apply(&mut self, f: &Expr, args: Vec<Expr>) -> Option<Expr> {
        match f {
            Expr::Closure(c) => {
                if has_escape(&c.body) || c.inputs.len() != args.len() {
                    return None;
                }
                let body = &c.body;
                if args.is_empty() {
                    return Some(parse_quote!({ #body }));
                }
                let pats: Vec<&Pat> = c.inputs.iter().collect();
                let lets = pats.iter().zip(args.iter()).map(|(p, a)| quote!(let #p = #a;));
                Some(parse_quote!({ #(#lets)* #body }))
            }
            Expr::Path(_) => Some(parse_quote!(#f(#(#args),*))),
            Expr::Paren(p) => self.apply(&p.expr, args),
            _ => None,
        }
    }

    /// Pattern and body for applying `f` to a matched value: `PAT => BODY`.
    fn arm(&mut self, f: &Expr) -> Option<(Pat, Expr)> {
        match f {
            Expr::Closure(c) => {
                if has_escape(&c.body) || c.inputs.len() != 1 {
                    return None;
                }
                let p = match &c.inputs[0] {
                    Pat::Type(t) => (*t.pat).clone(),
                    p => p.clone(),
                };
                let b = &c.body;
                Some((p, parse_quote!({ #b })))
            }
            Expr::Path(_) => {
                let x = self.tmp("v");
                Some((parse_quote!(#x), parse_quote!(#f(#x))))
            }
            Expr::Paren(p) => self.arm(&p.expr.clone()),
            _ => None,
        }
    }

    fn is_fn_arg(e: &Expr) -> bool {
        matches!(e, Expr::Closure(_)) || matches!(e, Expr::Path(p) if p.path.segments.len() > 1)
    }

    fn lower_combinator(&mut self, m: &ExprMethodCall) -> Option<Expr> {
        let name = m.method.to_string();
        if self.maypanic && ((name == "unwrap" && m.args.is_empty()) || (name == "expect" && m.args.len() == 1)) {
            let r = &m.receiver;
            return Some(if self.ty(r).is("Result") {
                parse_quote!(match #r { Ok(__o) => __o, Err(_) => { __ghost!("maypanic"); v_died() } })
            } else {
                parse_quote!(match #r { Some(__o) => __o, None => { __ghost!("maypanic"); v_died() } })
            });
        }
        let a0 = m.args.first();
        let fa = a0.map(Self::is_fn_arg).unwrap_or(false) || m.args.iter().nth(1).map(Self::is_fn_arg).unwrap_or(false);
        if !matches!(
            name.as_str(),
            "map" | "map_err" | "and_then" | "or_else" | "unwrap_or_else" | "map_or" | "map_or_else" | "is_some_and"
                | "is_none_or" | "ok_or_else" | "filter" | "cloned" | "copied" | "unwrap_or_default" | "inspect"
        ) {
            return None;
        }
        let r = &m.receiver;
        let t = self.ty(r);
        if matches!(name.as_str(), "cloned" | "copied") {
            if !t.is("Option") {
                return None;
            }
            let x = self.tmp("v");
            let i = t.arg(0);
            let b: Expr = if name == "copied" {
                parse_quote!(*#x)
            } else if i.is("HashSet") || i.is("HashMap") || i.is("Vec") {
                parse_quote!(#x.v_clone())
            } else {
                parse_quote!(#x.clone())
            };
            return Some(parse_quote!(match #r { Some(#x) => Some(#b), None => None }));
        }
        if name == "unwrap_or_default" {
            if !t.is("Option") {
                return None;
            }
            let d: Expr = match t.arg(0) {
                T::P(n, _) if matches!(n.as_str(), "HashSet" | "HashMap" | "Vec" | "VecDeque") => {
                    let n = format_ident!("{}", n);
                    parse_quote!(#n::new())
                }
                _ => return None,
            };
            return Some(parse_quote!(match #r { Some(__o) => __o, None => #d }));
        }
        if !fa {
            return None;
        }
        let is_res = {
            let key = format!("{}#{}", self.fname, self.nmap);
            self.nmap += 1;
            let g = t.is("Result") || (!t.is("Option") && matches!(name.as_str(), "map_err"));
            if !t.is("Result") && !t.is("Option") && self.flip.contains(&key) {
                !g
            } else {
                g
            }
        };
        if !is_res && !t.is("Option") && t.deref() != &T::Unknown {
            // some other type: leave it
            if !matches!(t.deref(), T::P(n, _) if n == "?") {
                return None;
            }
        }
        let a0 = a0?.clone();
        let out: Expr = match (name.as_str(), is_res) {
            ("map", false) => {
                let (p, b) = self.arm(&a0)?;
                parse_quote!(match #r { Some(#p) => Some(#b), None => None })
            }
            ("map", true) => {
                let (p, b) = self.arm(&a0)?;
                parse_quote!(match #r { Ok(#p) => Ok(#b), Err(__e) => Err(__e) })
            }
            ("map_err", _) => {
                let (p, b) = self.arm(&a0)?;
                parse_quote!(match #r { Ok(__o) => Ok(__o), Err(#p) => Err(#b) })
            }
            ("inspect", false) => {
                let (p, b) = self.arm(&a0)?;
                parse_quote!(match #r { Some(__o) => { { let #p = &__o; #b; } Some(__o) }, None => None })
            }
            ("inspect", true) => {
                let (p, b) = self.arm(&a0)?;
                parse_quote!(match #r { Ok(__o) => { { let #p = &__o; #b; } Ok(__o) }, Err(__e) => Err(__e) })
            }
            ("and_then", false) => {
                let (p, b) = self.arm(&a0)?;
                parse_quote!(match #r { Some(#p) => #b, None => None })
            }
            ("and_then", true) => {
                let (p, b) = self.arm(&a0)?;
                parse_quote!(match #r { Ok(#p) => #b, Err(__e) => Err(__e) })
            }
            ("or_else", false) => {
                let b = self.apply(&a0, vec![])?;
                parse_quote!(match #r { Some(__o) => Some(__o), None => #b })
            }
            ("or_else", true) => {
                let (p, b) = self.arm(&a0)?;
                parse_quote!(match #r { Ok(__o) => Ok(__o), Err(#p) => #b })
            }
            ("unwrap_or_else", false) => {
                let b = self.apply(&a0, vec![])?;
                parse_quote!(match #r { Some(__o) => __o, None => #b })
            }
            ("unwrap_or_else", true) => {
                let (p, b) = self.arm(&a0)?;
                parse_quote!(match #r { Ok(__o) => __o, Err(#p) => #b })
            }
            ("map_or", false) => {
                let (p, b) = self.arm(m.args.iter().nth(1)?)?;
                parse_quote!({ let __d = #a0; match #r { Some(#p) => #b, None => __d } })
            }
            ("map_or", true) => {
                let (p, b) = self.arm(m.args.iter().nth(1)?)?;
                parse_quote!({ let __d = #a0; match #r { Ok(#p) => #b, Err(_) => __d } })
            }
            ("map_or_else", false) => {
                let d = self.apply(&a0, vec![])?;
                let (p, b) = self.arm(m.args.iter().nth(1)?)?;
                parse_quote!(match #r { Some(#p) => #b, None => #d })
            }
            ("map_or_else", true) => {
                let (dp, d) = self.arm(&a0)?;
                let (p, b) = self.arm(m.args.iter().nth(1)?)?;
                parse_quote!(match #r { Ok(#p) => #b, Err(#dp) => #d })
            }
            ("is_some_and", _) => {
                let (p, b) = self.arm(&a0)?;
                parse_quote!(match #r { Some(#p) => #b, None => false })
            }
            ("is_none_or", _) => {
                let (p, b) = self.arm(&a0)?;
                parse_quote!(match #r { Some(#p) => #b, None => true })
            }
            ("ok_or_else", _) => {
                let b = self.apply(&a0, vec![])?;
                parse_quote!(match #r { Some(__o) => Ok(__o), None => Err(#b) })
            }
            ("filter", false) => {
                let (p, b) = self.arm(&a0)?;
                parse_quote!(match #r { Some(__o) => { let __k = { let #p = &__o; #b }; if __k { Some(__o) } else { None } }, None => None })
            }
            _ => return None,
        };
        Some(out)
    }

    // ------------------------------------------------------------ iterators
    /// Splits an iterator expression into its source and adapters.
    fn chain(&mut self, e: &Expr) -> Option<(Expr, Vec<Adapter>)> {
        match e {
            Expr::Paren(p) => self.chain(&p.expr),
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                let r = &m.receiver;
                match name.as_str() {
                    "iter" if self.ids(r) => Some((parse_quote!(#r.v_iter_c()), vec![Adapter::Ref])),
                    "keys" if self.ids(r) => Some((parse_quote!(#r.v_keys_c()), vec![Adapter::Ref])),
                    "iter" => Some((parse_quote!(#r.v_iter()), vec![])),
                    "keys" => Some((parse_quote!(#r.v_keys()), vec![])),
                    "values" => Some((parse_quote!(#r.v_values()), vec![])),
                    "drain" => Some((parse_quote!(#r.v_drain()), vec![])),
                    "into_iter" if matches!(self.ty(r), T::R(_)) && self.ids(r) => Some((parse_quote!(#r.v_iter_c()), vec![Adapter::Ref])),
                    "into_iter" => {
                        if let Some(c) = self.chain(r) {
                            return Some(c);
                        }
                        Some((parse_quote!(#r.v_into_iter()), vec![]))
                    }
                    "filter" if m.args.len() == 1 => {
                        let mut c = self.chain(r)?;
                        c.1.push(Adapter::Filter(m.args[0].clone()));
                        Some(c)
                    }
                    "map" if m.args.len() == 1 => {
                        let mut c = self.chain(r)?;
                        c.1.push(Adapter::Map(m.args[0].clone()));
                        Some(c)
                    }
                    "copied" => {
                        let mut c = self.chain(r)?;
                        c.1.push(Adapter::Deref);
                        Some(c)
                    }
                    "cloned" => {
                        let mut c = self.chain(r)?;
                        c.1.push(Adapter::Clone);
                        Some(c)
                    }
                    _ => None,
                }
            }
            _ => None,
        }
    }

    /// Generates the loop `for pat in chain { body }`. `$acc` of that loop gets the number of its iterator.
    fn loop_over(&mut self, src: Expr, adapters: Vec<Adapter>, pat: Pat, body: Vec<Stmt>, label: &Option<Label>) -> Option<Vec<Stmt>> {
        let it = self.tmp("it");
        self.loop_with(it, src, adapters, pat, body, label)
    }
    fn loop_with(&mut self, it: Ident, src: Expr, adapters: Vec<Adapter>, pat: Pat, body: Vec<Stmt>, label: &Option<Label>) -> Option<Vec<Stmt>> {
        if adapters.is_empty() {
            let w: Stmt = parse_quote!(#label while let Some(#pat) = #it.next() { #(#body)* });
            return Some(vec![parse_quote!(let mut #it = #src;), w]);
        }
        enum Step {
            Guard(Expr),
            Let(Stmt),
        }
        let mut steps: Vec<Step> = vec![];
        let mut cur = self.tmp("x");
        let first = cur.clone();
        for a in adapters {
            match a {
                Adapter::Filter(f) => {
                    steps.push(Step::Guard(self.apply(&f, vec![parse_quote!(&#cur)])?));
                }
                Adapter::Map(f) => {
                    let n = self.tmp("x");
                    let c = self.apply(&f, vec![parse_quote!(#cur)])?;
                    steps.push(Step::Let(parse_quote!(let #n = #c;)));
                    cur = n;
                }
                Adapter::Deref => {
                    let n = self.tmp("x");
                    steps.push(Step::Let(parse_quote!(let #n = *#cur;)));
                    cur = n;
                }
                Adapter::Ref => {
                    let n = self.tmp("x");
                    steps.push(Step::Let(parse_quote!(let #n = &#cur;)));
                    cur = n;
                }
                Adapter::Clone => {
                    let n = self.tmp("x");
                    steps.push(Step::Let(parse_quote!(let #n = #cur.clone();)));
                    cur = n;
                }
            }
        }
        let mut stmts: Vec<Stmt> = vec![parse_quote!(let #pat = #cur;)];
        stmts.extend(body);
        for st in steps.into_iter().rev() {
            match st {
                Step::Let(l) => stmts.insert(0, l),
                Step::Guard(c) => stmts = vec![parse_quote!(if #c { #(#stmts)* })],
            }
        }
        let w: Stmt = parse_quote!(#label while let Some(#first) = #it.next() { #(#stmts)* });
        Some(vec![parse_quote!(let mut #it = #src;), w])
    }

    /// A collection of builder ids: iterating over references to its items is iterating over copies of them.
    fn ids(&self, e: &Expr) -> bool {
        match self.ty(e).deref() {
            T::P(n, a) if matches!(n.as_str(), "HashSet" | "HashMap" | "Vec") => match a.first() {
                None | Some(T::Unknown) => true,
                Some(T::P(x, _)) => x == "BuilderId" || x == "?",
                _ => false,
            },
            _ => false,
        }
    }

    fn source_of(&mut self, e: &Expr) -> (Expr, Vec<Adapter>) {
        if let Some(c) = self.chain(e) {
            return c;
        }
        if matches!(self.ty(e), T::R(_)) && self.ids(e) && !matches!(e, Expr::Reference(r) if r.mutability.is_some()) {
            let i = if let Expr::Reference(r) = e { (*r.expr).clone() } else { e.clone() };
            return (parse_quote!(#i.v_iter_c()), vec![Adapter::Ref]);
        }
        if let Expr::Reference(r) = e {
            if r.mutability.is_none() {
                let i = &r.expr;
                return (parse_quote!((&#i).v_into_iter()), vec![]);
            }
        }
        (parse_quote!(#e.v_into_iter()), vec![])
    }

    /// A closure with a contract that says what it returns, if its body can be said in the logic.
    fn pure_closure(&mut self, body: &Expr, params: &[Ident], lets: Vec<Stmt>) -> Option<(Vec<Stmt>, Expr)> {
        // fields of self are bound before
        struct Fields(Vec<(String, Ident)>, usize);
        impl VisitMut for Fields {
            fn visit_expr_mut(&mut self, e: &mut Expr) {
                if let Expr::Field(f) = e {
                    if let (Expr::Path(p), Member::Named(n)) = (&*f.base, &f.member) {
                        if p.path.is_ident("self") {
                            let k = n.to_string();
                            let id = match self.0.iter().find(|(a, _)| *a == k) {
                                Some((_, i)) => i.clone(),
                                None => {
                                    let i = format_ident!("__s{}_{}", self.1, k);
                                    self.0.push((k, i.clone()));
                                    i
                                }
                            };
                            *e = parse_quote!((*#id));
                            return;
                        }
                    }
                }
                visit_mut::visit_expr_mut(self, e);
            }
        }
        let mut b = body.clone();
        self.fresh += 1;
        let mut fs = Fields(vec![], self.fresh);
        fs.visit_expr_mut(&mut b);
        let s = spec_of(&b)?;
        let pre: Vec<Stmt> = fs.0.iter().map(|(k, i)| { let k = format_ident!("{}", k); parse_quote!(let #i = &self.#k;) }).collect();
        // see Contracted
        Some((pre, parse_quote!(| #(#params),* | { __clos!({ #(#lets)* #s }); #(#lets)* #b })))
    }

    fn lower_terminal(&mut self, m: &ExprMethodCall, want: Option<&Type>) -> Option<Expr> {
        let name = m.method.to_string();
        match name.as_str() {
            "all" | "any" if m.args.len() == 1 => {
                let (src, ad) = self.chain(&m.receiver)?;
                let x = self.tmp("x");
                let (it, acc) = self.tmp2("b");
                let c = self.apply(&m.args[0], vec![parse_quote!(#x)])?;
                if !self.has_loops && (ad.is_empty() || matches!(ad.as_slice(), [Adapter::Ref])) {
                    let lets: Vec<Stmt> = if ad.is_empty() { vec![] } else { vec![parse_quote!(let #x = &#x;)] };
                    if let Some((pre, f)) = self.pure_closure(&c, &[x.clone()], lets) {
                        let v = format_ident!("v_{}", name);
                        return Some(parse_quote!({ #(#pre)* #src.#v(#f) }));
                    }
                }
                let body: Vec<Stmt> = if name == "all" {
                    vec![parse_quote!(if !(#c) { #acc = false; break; })]
                } else {
                    vec![parse_quote!(if #c { #acc = true; break; })]
                };
                let init: Expr = if name == "all" { parse_quote!(true) } else { parse_quote!(false) };
                let l = self.loop_with(it, src, ad, parse_quote!(#x), body, &None)?;
                Some(parse_quote!({ let mut #acc = #init; #(#l)* #acc }))
            }
            "count" => {
                let (src, ad) = self.chain(&m.receiver)?;
                if ad.is_empty() {
                    return Some(parse_quote!(#src.v_count()));
                }
                let x = self.tmp("x");
                let (it, acc) = self.tmp2("n");
                let l = self.loop_with(it, src, ad, parse_quote!(#x), vec![parse_quote!(#acc = #acc + 1;)], &None)?;
                Some(parse_quote!({ let mut #acc: usize = 0; #(#l)* #acc }))
            }
            "for_each" if m.args.len() == 1 => {
                let (src, ad) = self.chain(&m.receiver)?;
                let x = self.tmp("x");
                let c = self.apply(&m.args[0], vec![parse_quote!(#x)])?;
                let l = self.loop_over(src, ad, parse_quote!(#x), vec![parse_quote!(#c;)], &None)?;
                Some(parse_quote!({ #(#l)* }))
            }
            "extend" if m.args.len() == 1 => {
                let r = &m.receiver;
                let t = self.ty(r);
                let (src, ad) = self.source_of(&m.args[0].clone());
                let x = self.tmp("x");
                let mut refs = false;
                for a in &ad {
                    match a {
                        Adapter::Ref => refs = true,
                        Adapter::Filter(_) => {}
                        _ => refs = false,
                    }
                }
                let body: Vec<Stmt> = if t.is("HashSet") {
                    // extending by references copies the items
                    let refs = refs || ad.is_empty()
                        && matches!(&src, Expr::MethodCall(s) if matches!(s.method.to_string().as_str(), "v_keys" | "v_iter" | "v_values")
                            || (s.method == "v_into_iter" && matches!(&*s.receiver, Expr::Paren(_))));
                    if refs {
                        vec![parse_quote!(#r.insert(*#x);)]
                    } else {
                        vec![parse_quote!(#r.insert(#x);)]
                    }
                } else if t.is("Vec") {
                    if refs {
                        vec![parse_quote!(#r.push(*#x);)]
                    } else {
                        vec![parse_quote!(#r.push(#x);)]
                    }
                } else {
                    return None;
                };
                let l = self.loop_over(src, ad, parse_quote!(#x), body, &None)?;
                Some(parse_quote!({ #(#l)* }))
            }
            "collect" => {
                let (src, ad) = self.chain(&m.receiver)?;
                let mut kind = "Vec".to_string();
                let tf = m.turbofish.as_ref().and_then(|t| t.args.first()).and_then(|g| match g {
                    GenericArgument::Type(t) => Some(t.clone()),
                    _ => None,
                });
                let fnret = None::<Type>;
                if let Some(T::P(n, _)) = tf.as_ref().or(want).or(fnret.as_ref()).map(|t| T::of(t, "")) {
                    kind = n;
                }
                let (it, acc) = self.tmp2("acc");
                let x = self.tmp("x");
                let (new, push): (Expr, Stmt) = match kind.as_str() {
                    "Vec" => (parse_quote!(Vec::new()), parse_quote!(#acc.push(#x);)),
                    "HashSet" => (parse_quote!(HashSet::new()), parse_quote!(#acc.insert(#x);)),
                    _ => return None,
                };
                let l = self.loop_with(it, src, ad, parse_quote!(#x), vec![push], &None)?;
                Some(parse_quote!({ let mut #acc = #new; #(#l)* #acc }))
            }
            _ => None,
        }
    }

    // ------------------------------------------------------------ inlining
    fn inline(&mut self, recv: Option<&Expr>, ty: &str, f: &str, args: Vec<Expr>) -> Option<Expr> {
        let h = self.helpers.get(&(ty.to_string(), f.to_string()))?;
        let me = (ty.to_string(), f.to_string());
        // once found to be recursive, it stays a call
        if self.stack.contains(&me) || self.stack.len() > 8 || self.opaque.contains(&format!("{}::{}", ty, f)) {
            self.opaque.push(format!("{}::{}", ty, f));
            return None;
        }
        let mut body = h.block.clone();
        crate::shape::LoopShapes.visit_block_mut(&mut body);
        let opt = matches!(&h.sig.output, ReturnType::Type(_, t) if quote!(#t).to_string().starts_with("Option"));
        body = match crate::shape::unescape(&body, opt) {
            Some(b) => b,
            None => {
                self.opaque.push(format!("{}::{}", ty, f));
                return None;
            }
        };
        self.inlined.push(format!("{}::{}", ty, f));
        self.stack.push(me);
        let gens: HashSet<String> = h.sig.generics.params.iter().filter_map(|p| match p {
            GenericParam::Type(t) => Some(t.ident.to_string()),
            GenericParam::Lifetime(_) => None,
            GenericParam::Const(c) => Some(c.ident.to_string()),
        }).collect();
        let uses_gen = |t: &Type| {
            struct V<'b>(&'b HashSet<String>, bool);
            impl<'b, 'c> Visit<'c> for V<'b> {
                fn visit_ident(&mut self, i: &'c Ident) {
                    if self.0.contains(&i.to_string()) {
                        self.1 = true;
                    }
                }
                fn visit_lifetime(&mut self, l: &'c Lifetime) {
                    if l.ident != "static" {
                        self.1 = true;
                    }
                }
                fn visit_type_impl_trait(&mut self, _: &'c TypeImplTrait) {
                    self.1 = true;
                }
                // an associated type may be ambiguous among the bounds of the caller
                fn visit_type_path(&mut self, p: &'c TypePath) {
                    if p.qself.is_none() && p.path.segments.len() == 2 && p.path.segments[0].ident.to_string().starts_with(char::is_uppercase) {
                        self.1 = true;
                    }
                    visit::visit_type_path(self, p);
                }
            }
            let mut v = V(&gens, false);
            v.visit_type(t);
            v.1
        };
        let mut pre: Vec<Stmt> = vec![];
        let mut post: Vec<Stmt> = vec![];
        let mut ai = args.into_iter();
        let saved = self.env.clone();
        for p in h.sig.inputs.iter() {
            match p {
                FnArg::Receiver(r) => {
                    let rv = recv?;
                    if path1(rv).as_deref() == Some("self") {
                        continue;
                    }
                    let s = self.tmp("self");
                    let e: Expr = if r.reference.is_some() {
                        if r.mutability.is_some() {
                            parse_quote!(&mut #rv)
                        } else {
                            parse_quote!(&#rv)
                        }
                    } else {
                        rv.clone()
                    };
                    let is_ref = matches!(self.ty(rv), T::R(_));
                    let e: Expr = if is_ref && r.reference.is_some() {
                        if r.mutability.is_some() {
                            parse_quote!(&mut *#rv)
                        } else {
                            parse_quote!(&*#rv)
                        }
                    } else {
                        e
                    };
                    pre.push(parse_quote!(let #s = #e;));
                    self.env.insert(s.to_string(), T::R(Box::new(T::p(ty, vec![]))));
                    RenameSelf(s).visit_block_mut(&mut body);
                }
                FnArg::Typed(t) => {
                    let a = ai.next()?;
                    let n = self.tmp("a");
                    let pat = &t.pat;
                    let typ = &t.ty;
                    pre.push(parse_quote!(let #n = #a;));
                    let mut ta = T::of(typ, ty);
                    if uses_gen(typ) {
                        post.push(parse_quote!(let #pat = #n;));
                        ta = self.ty(&a);
                    } else {
                        post.push(parse_quote!(let #pat: #typ = #n;));
                    }
                    self.bind(pat, &ta);
                }
            }
        }
        let stmts = body.stmts;
        let mut e: Expr = parse_quote!({ #(#pre)* #(#post)* { #(#stmts)* } });
        self.depth += 1;
        let st = std::mem::replace(&mut self.selfty, ty.to_string());
        self.visit_expr_mut(&mut e);
        self.selfty = st;
        self.depth -= 1;
        self.stack.pop();
        self.env = saved;
        Some(e)
    }

    // ------------------------------------------------------------ the rewrite
    fn rewrite(&mut self, e: &Expr) -> Option<Expr> {
        match e {
            Expr::MethodCall(m) if m.method == "retain" && m.args.len() == 1 => {
                let n = match &m.args[0] {
                    Expr::Closure(c) => c.inputs.len(),
                    _ => return None,
                };
                if n != 1 && n != 2 {
                    return None;
                }
                let ps: Vec<Ident> = (0..n).map(|_| self.tmp("x")).collect();
                let c = self.apply(&m.args[0], ps.iter().map(|p| parse_quote!(#p)).collect())?;
                let (pre, f) = self.pure_closure(&c, &ps, vec![])?;
                let (r, v) = (&m.receiver, format_ident!("v_retain{}", n));
                Some(parse_quote!({ #(#pre)* #r.#v(#f) }))
            }
            Expr::Macro(m) => self.rewrite_macro(&m.mac),
            // what a strong handle refers to
            Expr::Reference(r) if r.mutability.is_none() && matches!(self.selfty.as_str(), "RcAny" | "ArcAny" | "BoxAny") => {
                if let Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) = &*r.expr {
                    if let Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) = &**expr {
                        if path1(expr).is_some() {
                            return Some(parse_quote!(#expr.deref()));
                        }
                    }
                }
                None
            }
            Expr::MethodCall(m) if (m.method == "downcast_ref" || m.method == "downcast_mut") && matches!(self.selfty.as_str(), "RcAny" | "ArcAny" | "BoxAny") => {
                if let Expr::MethodCall(d) = &*m.receiver {
                    if d.args.is_empty() && (d.method == "deref" || d.method == "as_ref" || d.method == "deref_mut" || d.method == "as_mut") {
                        let mut n = m.clone();
                        n.receiver = d.receiver.clone();
                        return Some(Expr::MethodCall(n));
                    }
                }
                None
            }
            Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) if self.texts => {
                let c = crate::texts::chain(&s.value());
                Some(parse_quote!(v_str(Ghost(#c))))
            }
            // a pattern of one character is that character
            Expr::MethodCall(m) if self.texts && m.method == "replace" && m.args.len() == 2
                && matches!(&m.args[0], Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) if s.value().chars().count() == 1) => {
                let mut n = m.clone();
                if let Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) = &m.args[0] {
                    let c = LitChar::new(s.value().chars().next()?, s.span());
                    n.args[0] = parse_quote!(#c);
                }
                Some(Expr::MethodCall(n))
            }
            Expr::MethodCall(m) if self.texts && m.method == "expect" => {
                let r = &m.receiver;
                Some(parse_quote!(#r.unwrap()))
            }
            Expr::Call(c) if c.args.len() == 2 && matches!(path_str(&c.func).as_deref(), Some("std::ptr::eq") | Some("ptr::eq") | Some("core::ptr::eq")) => {
                let (a, b) = (&c.args[0], &c.args[1]);
                Some(parse_quote!(v_ptr_eq(#a, #b)))
            }
            Expr::Call(c) if self.texts && matches!(&*c.func, Expr::Path(p) if p.path.segments.last().map(|s| s.ident == "type_name").unwrap_or(false)) => {
                if let Expr::Path(p) = &*c.func {
                    let a = &p.path.segments.last()?.arguments;
                    let x = &c.args;
                    return Some(parse_quote!(v_type_name #a (#x)));
                }
                None
            }
            Expr::ForLoop(f) => {
                let (src, ad) = self.source_of(&f.expr);
                let l = self.loop_over(src, ad, (*f.pat).clone(), f.body.stmts.clone(), &f.label)?;
                Some(parse_quote!({ #(#l)* }))
            }
            Expr::Index(i) => {
                let (a, b) = (&i.expr, &i.index);
                Some(parse_quote!((*#a.v_index(#b))))
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    let args: Vec<Expr> = c.args.iter().cloned().collect();
                    if segs.len() >= 2 {
                        let t = if segs[segs.len() - 2] == "Self" { self.selfty.clone() } else { segs[segs.len() - 2].clone() };
                        let f = segs[segs.len() - 1].clone();
                        if t == "BuilderId" && f == "new" && args.len() == 1 && !matches!(&args[0], Expr::MethodCall(m) if m.method == "v_dynptr") {
                            // an unsizing coercion of the pointer
                            let a = &args[0];
                            return Some(parse_quote!(BuilderId::new((#a).v_dynptr())));
                        }
                        if t == "Box" && f == "new" && self.boxany {
                            return Some(parse_quote!(BoxAny::v_new(#(#args),*)));
                        }
                        if let Some(h) = self.helpers.get(&(t.clone(), f.clone())) {
                            if matches!(h.sig.inputs.first(), Some(FnArg::Receiver(_))) {
                                let r = args.first()?.clone();
                                return self.inline(Some(&r), &t, &f, args[1..].to_vec());
                            }
                            return self.inline(None, &t, &f, args);
                        }
                    } else if segs.len() == 1 {
                        return self.inline(None, "", &segs[0], args);
                    }
                }
                None
            }
            Expr::Cast(c) => {
                let t = &c.ty;
                let s = quote!(#t).to_string().replace(' ', "");
                let x = &c.expr;
                match s.as_str() {
                    "ThinPtr" => Some(parse_quote!((#x).v_thin())),
                    "DynPtr" => Some(parse_quote!((#x).v_dynptr())),
                    "usize" if !matches!(&**x, Expr::Lit(_)) => Some(parse_quote!((#x).v_usize())),
                    _ if s.starts_with("*const") => Some(parse_quote!((#x).v_ptr())),
                    _ => None,
                }
            }
            Expr::MethodCall(m) => {
                if let Some(x) = self.lower_terminal(m, None) {
                    return Some(x);
                }
                let name = m.method.to_string();
                let r = &m.receiver;
                match name.as_str() {
                    "or_insert_with" | "or_insert" | "or_default" => {
                        let et = self.ty(r);
                        let (d, lazy): (Expr, bool) = match name.as_str() {
                            "or_insert_with" => (self.apply(&m.args.first()?.clone(), vec![])?, true),
                            "or_insert" => (m.args.first()?.clone(), false),
                            _ => (if et.arg(1).is("HashSet") { parse_quote!(HashSet::new()) } else { parse_quote!(Default::default()) }, true),
                        };
                        if let Expr::MethodCall(em) = &**r {
                            if em.method == "entry" && em.args.len() == 1 {
                                let (map, key) = (&em.receiver, &em.args[0]);
                                let (k, mm, dd) = (self.tmp("k"), self.tmp("m"), self.tmp("d"));
                                let mref: Expr = if matches!(self.ty(map), T::R(_)) { parse_quote!(&mut *#map) } else { parse_quote!(&mut #map) };
                                let mt = T::p("HashMap", match et.deref() { T::P(_, a) => a.clone(), _ => vec![] });
                                self.env.insert(mm.to_string(), T::R(Box::new(mt)));
                                return Some(if lazy {
                                    parse_quote!({ let #mm = #mref; let #k = #key; if !#mm.contains_key(&#k) { let #dd = #d; #mm.insert(#k, #dd); } #mm.v_get_mut(&#k).unwrap() })
                                } else {
                                    parse_quote!({ let #mm = #mref; let #k = #key; let #dd = #d; if !#mm.contains_key(&#k) { #mm.insert(#k, #dd); } #mm.v_get_mut(&#k).unwrap() })
                                });
                            }
                        }
                        return None;
                    }
                    "get_mut" if self.ty(r).is("HashMap") => {
                        let a = &m.args;
                        return Some(parse_quote!(#r.v_get_mut(#a)));
                    }
                    "push" if self.ty(r).is("Vec") => {
                        let a = &m.args;
                        return Some(parse_quote!(#r.v_push(#a)));
                    }
                    "pop" if self.ty(r).is("Vec") => {
                        return Some(parse_quote!(#r.v_pop()));
                    }
                    "clone" if self.ty(r).is("HashSet") || self.ty(r).is("HashMap") || self.ty(r).is("Vec") => {
                        return Some(parse_quote!(#r.v_clone()));
                    }
                    "to_vec" if self.ty(r).is("Vec") => {
                        return Some(parse_quote!(#r.v_clone()));
                    }
                    _ => {}
                }
                if let Some(x) = self.lower_combinator(m) {
                    return Some(x);
                }
                let t = self.ty(r);
                if let T::P(n, _) = t.deref() {
                    if self.helpers.contains_key(&(n.clone(), name.clone())) {
                        let n = n.clone();
                        let args: Vec<Expr> = m.args.iter().cloned().collect();
                        let r2 = (**r).clone();
                        return self.inline(Some(&r2), &n, &name, args);
                    }
                }
                None
            }
            _ => None,
        }
    }

    fn rewrite_macro(&mut self, mac: &Macro) -> Option<Expr> {
        let n = mac.path.segments.last()?.ident.to_string();
        if self.texts && matches!(n.as_str(), "write" | "writeln" | "format") {
            return crate::texts::expand(&n, mac, |p| self.tmp(p));
        }
        let args: Vec<Expr> = mac
            .parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated)
            .map(|p| p.into_iter().collect())
            .unwrap_or_default();
        if n.starts_with("debug_assert") && args.iter().take(2).any(may_mutate) {
            // gone without debug assertions, and the condition does something
            let m = format_ident!("{}", n.trim_start_matches("debug_"));
            let ts = &mac.tokens;
            return Some(parse_quote!(if v_debug() { #m!(#ts); }));
        }
        match n.as_str() {
            "debug_assert" | "assert" => {
                let c = args.first()?;
                let a = self.tmp("c");
                Some(parse_quote!({ let #a: bool = #c; assert(#a); }))
            }
            "debug_assert_eq" | "assert_eq" => {
                let (x, y) = (args.first()?, args.get(1)?);
                let a = self.tmp("c");
                Some(parse_quote!({ let #a: bool = #x == #y; assert(#a); }))
            }
            "debug_assert_ne" | "assert_ne" => {
                let (x, y) = (args.first()?, args.get(1)?);
                let a = self.tmp("c");
                Some(parse_quote!({ let #a: bool = #x != #y; assert(#a); }))
            }
            "matches" => {
                let ts: Expr = {
                    let t = mac.tokens.clone();
                    let p = |input: syn::parse::ParseStream| -> Result<Expr> {
                        let e: Expr = input.parse()?;
                        input.parse::<Token![,]>()?;
                        let pat = Pat::parse_multi_with_leading_vert(input)?;
                        let g: Option<Expr> = if input.peek(Token![if]) {
                            input.parse::<Token![if]>()?;
                            Some(input.parse()?)
                        } else {
                            None
                        };
                        let _ = input.parse::<Option<Token![,]>>()?;
                        Ok(match g {
                            Some(g) => parse_quote!(match #e { #pat if #g => true, _ => false }),
                            None => parse_quote!(match #e { #pat => true, _ => false }),
                        })
                    };
                    syn::parse::Parser::parse2(p, t).ok()?
                };
                Some(ts)
            }
            "format" => Some(parse_quote!(v_format())),
            "vec" if mac.tokens.is_empty() => Some(parse_quote!(Vec::new())),
            "panic" | "unreachable" | "todo" | "unimplemented" if self.maypanic => Some(parse_quote!({ __ghost!("maypanic"); v_died() })),
            "panic" | "unreachable" | "todo" | "unimplemented" => Some(parse_quote!(v_panic())),
            _ => None,
        }
    }
}

impl<'a> VisitMut for Norm<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let mut n = 0;
        while let Some(x) = self.rewrite(e) {
            *e = x;
            n += 1;
            if n > 40 {
                break;
            }
        }
        if let Expr::Match(m) = e {
            if m.arms.is_empty() {
                let x = &m.expr;
                *e = parse_quote!((#x).v_absurd());
            }
        }
        match e {
            Expr::Match(m) => {
                let raw = self.ty(&m.expr);
                self.visit_expr_mut(&mut m.expr);
                let t = match self.ty(&m.expr) {
                    T::Unknown => raw,
                    t => t,
                };
                for a in m.arms.iter_mut() {
                    let saved = self.env.clone();
                    self.bind(&a.pat.clone(), &t);
                    if let Some((_, g)) = &mut a.guard {
                        self.visit_expr_mut(g);
                    }
                    self.visit_expr_mut(&mut a.body);
                    self.env = saved;
                }
            }
            Expr::Let(l) => {
                let raw = self.ty(&l.expr);
                self.visit_expr_mut(&mut l.expr);
                let t = match self.ty(&l.expr) {
                    T::Unknown => raw,
                    t => t,
                };
                self.bind(&l.pat.clone(), &t);
            }
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        let saved = self.env.clone();
        visit_mut::visit_block_mut(self, b);
        self.env = saved;
    }
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Macro(m) = s {
            if let Some(e) = self.rewrite_macro(&m.mac.clone()) {
                let semi = m.semi_token.or(Some(Token![;](Span::call_site())));
                *s = if matches!(e, Expr::Block(_)) { Stmt::Expr(e, None) } else { Stmt::Expr(e, semi) };
            }
        }
        visit_mut::visit_stmt_mut(self, s);
    }
    fn visit_local_mut(&mut self, l: &mut Local) {
        let mut asc: Option<Type> = None;
        if let Pat::Type(p) = &l.pat {
            asc = Some((*p.ty).clone());
        }
        // as written: combinators tell more about their type than the matches they become
        let raw = l.init.as_ref().map(|i| self.ty(&i.expr)).unwrap_or(T::Unknown);
        if let Some(i) = &mut l.init {
            if let (Expr::MethodCall(m), Some(w)) = (&*i.expr, &asc) {
                if m.method == "collect" {
                    if let Some(x) = self.lower_terminal(&m.clone(), Some(w)) {
                        *i.expr = x;
                    }
                }
            }
            self.visit_expr_mut(&mut i.expr);
            if let Some((_, d)) = &mut i.diverge {
                self.visit_expr_mut(d);
            }
        }
        let t = match (&asc, &l.init) {
            (Some(t), _) => T::of(t, &self.selfty),
            (None, Some(i)) => match self.ty(&i.expr) {
                T::Unknown => raw,
                t => t,
            },
            _ => T::Unknown,
        };
        let pat = match &l.pat {
            Pat::Type(p) => (*p.pat).clone(),
            p => p.clone(),
        };
        self.bind(&pat, &t);
    }
    fn visit_expr_closure_mut(&mut self, c: &mut ExprClosure) {
        let saved = self.env.clone();
        visit_mut::visit_expr_closure_mut(self, c);
        self.env = saved;
    }
}
